From 216325974392e5ee5573a5170e78543737059224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:43 +0000
Subject: [PATCH 001/143] fix: track the last character, not the last byte, of
 the parsed elements
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

A constrained quote next to a non-ASCII character was evaluated with the last
byte of that character taken as a rune: '*voilà*' was not bold, since 0xA0 is a space.
---
 pkg/parser/parser_ext.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/parser/parser_ext.go b/pkg/parser/parser_ext.go
index 1fd921d..37fbf2b 100644
--- a/pkg/parser/parser_ext.go
+++ b/pkg/parser/parser_ext.go
@@ -6,6 +6,7 @@ import (
 	"sort"
 	"strings"
 	"unicode"
+	"unicode/utf8"
 
 	"github.com/bytesparadise/libasciidoc/pkg/configuration"
 	"github.com/bytesparadise/libasciidoc/pkg/types"
@@ -124,7 +125,8 @@ func (c *current) trackElement(element interface{}) {
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("---tracking element of type '%T' at pos=%s text='%s'", element, c.pos.String(), string(c.text))
 	}
-	c.globalStore[suffixTrackingKey] = rune(c.text[len(c.text)-1])
+	r, _ := utf8.DecodeLastRune(c.text) // the last character, which may be made of multiple bytes
+	c.globalStore[suffixTrackingKey] = r
 }
 
 func (c *current) isPrecededBySpace() bool {
-- 
2.43.0


From 41fbff01ba800b53f8df6c33510de7130b22206b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:51 +0000
Subject: [PATCH 002/143] fix: recognise the ftp:// and irc:// links

The schemes are in the grammar, but the text before the colon was consumed as plain text.
---
 pkg/parser/parser_ext.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/parser/parser_ext.go b/pkg/parser/parser_ext.go
index 37fbf2b..f7e7506 100644
--- a/pkg/parser/parser_ext.go
+++ b/pkg/parser/parser_ext.go
@@ -154,7 +154,7 @@ func (c *current) isInlineMacro(text string) bool {
 	default:
 		switch text {
 		// TODO: refine by checking is associated substitution is enabled?
-		case "http", "https", "mailto", "image", "link", "icon", "pass", "menu", "xref", "btn":
+		case "http", "https", "ftp", "irc", "mailto", "image", "link", "icon", "pass", "menu", "xref", "btn":
 			log.Debugf("invalid inline text: '%s' (conflicts with inline macro)", text)
 			return true
 		}
-- 
2.43.0


From b2db1749cf1f38fad93e77284a82075e1774334a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 003/143] fix: substitute the attribute references in footnotes
 and in labels of cross references

A reference left in a footnote failed the whole conversion, and a label with a
reference was replaced with the id of the target.
---
 .../document_processing_apply_substitutions.go     | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 61a53e0..6f85e39 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -476,6 +476,20 @@ func replaceAttributeRefsInElementsAndReparse(ctx *ParseContext, elements []inte
 			elements[i] = &types.StringElement{
 				Content: v,
 			}
+		case *types.Footnote:
+			elmts, err := replaceAttributeRefsInElementsAndReparse(ctx, e.Elements, subs, opts...)
+			if err != nil {
+				return nil, err
+			}
+			e.Elements = elmts
+		case *types.InternalCrossReference:
+			if label, ok := e.Label.([]interface{}); ok {
+				l, err := replaceAttributeRefsInSlicedValue(ctx, label)
+				if err != nil {
+					return nil, err
+				}
+				e.Label = l
+			}
 		case types.WithElements: // if `subs=macros,attributes`, then replace within inline macros
 			// in attributes
 			if err := replaceAttributeRefsInAttributeValues(ctx, e.GetAttributes()); err != nil {
-- 
2.43.0


From f65840943625b8e9033dbb1564c039b44af2108d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 004/143] fix: accept a single character, and spaces first, in
 labels of cross references

'<<id,x>>' and '<<id, label>>' were left as they are.
---
 pkg/parser/parser.go  | 154 +++++++++++++++++++++++-------------------
 pkg/parser/parser.peg |   4 +-
 2 files changed, 86 insertions(+), 72 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 9d89b05..4ffa730 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -14921,43 +14921,45 @@ var g = &grammar{
 									ignoreCase: false,
 									want:       "\",\"",
 								},
+								&zeroOrMoreExpr{
+									pos: position{line: 686, col: 51, offset: 21868},
+									expr: &actionExpr{
+										pos: position{line: 2852, col: 10, offset: 90239},
+										run: (*parser).callonCrossReference14,
+										expr: &charClassMatcher{
+											pos:        position{line: 2852, col: 10, offset: 90239},
+											val:        "[\\t ]",
+											chars:      []rune{'\t', ' '},
+											ignoreCase: false,
+											inverted:   false,
+										},
+									},
+								},
 								&labeledExpr{
-									pos:   position{line: 686, col: 51, offset: 21868},
+									pos:   position{line: 686, col: 58, offset: 21875},
 									label: "label",
 									expr: &oneOrMoreExpr{
-										pos: position{line: 696, col: 24, offset: 22269},
+										pos: position{line: 696, col: 24, offset: 22276},
 										expr: &choiceExpr{
-											pos: position{line: 697, col: 5, offset: 22275},
+											pos: position{line: 697, col: 5, offset: 22282},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 697, col: 6, offset: 22276},
-													run: (*parser).callonCrossReference16,
-													expr: &seqExpr{
-														pos: position{line: 697, col: 6, offset: 22276},
-														exprs: []interface{}{
-															&charClassMatcher{
-																pos:        position{line: 697, col: 6, offset: 22276},
-																val:        "[\\pL\\pN]",
-																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																ignoreCase: false,
-																inverted:   false,
-															},
-															&oneOrMoreExpr{
-																pos: position{line: 697, col: 14, offset: 22284},
-																expr: &charClassMatcher{
-																	pos:        position{line: 697, col: 14, offset: 22284},
-																	val:        "[^\\r\\n{<>]",
-																	chars:      []rune{'\r', '\n', '{', '<', '>'},
-																	ignoreCase: false,
-																	inverted:   true,
-																},
-															},
+													pos: position{line: 697, col: 6, offset: 22283},
+													run: (*parser).callonCrossReference19,
+													expr: &oneOrMoreExpr{
+														pos: position{line: 697, col: 6, offset: 22283},
+														expr: &charClassMatcher{
+															pos:        position{line: 697, col: 6, offset: 22283},
+															val:        "[^\\r\\n{<>]",
+															chars:      []rune{'\r', '\n', '{', '<', '>'},
+															ignoreCase: false,
+															inverted:   true,
 														},
 													},
 												},
 												&actionExpr{
 													pos: position{line: 645, col: 5, offset: 20319},
-													run: (*parser).callonCrossReference21,
+													run: (*parser).callonCrossReference22,
 													expr: &seqExpr{
 														pos: position{line: 645, col: 5, offset: 20319},
 														exprs: []interface{}{
@@ -14972,7 +14974,7 @@ var g = &grammar{
 																label: "name",
 																expr: &actionExpr{
 																	pos: position{line: 318, col: 18, offset: 9736},
-																	run: (*parser).callonCrossReference25,
+																	run: (*parser).callonCrossReference26,
 																	expr: &seqExpr{
 																		pos: position{line: 318, col: 18, offset: 9736},
 																		exprs: []interface{}{
@@ -15010,7 +15012,7 @@ var g = &grammar{
 												},
 												&actionExpr{
 													pos: position{line: 652, col: 5, offset: 20587},
-													run: (*parser).callonCrossReference31,
+													run: (*parser).callonCrossReference32,
 													expr: &seqExpr{
 														pos: position{line: 652, col: 5, offset: 20587},
 														exprs: []interface{}{
@@ -15025,7 +15027,7 @@ var g = &grammar{
 																label: "name",
 																expr: &actionExpr{
 																	pos: position{line: 318, col: 18, offset: 9736},
-																	run: (*parser).callonCrossReference35,
+																	run: (*parser).callonCrossReference36,
 																	expr: &seqExpr{
 																		pos: position{line: 318, col: 18, offset: 9736},
 																		exprs: []interface{}{
@@ -15063,7 +15065,7 @@ var g = &grammar{
 												},
 												&actionExpr{
 													pos: position{line: 701, col: 8, offset: 22510},
-													run: (*parser).callonCrossReference41,
+													run: (*parser).callonCrossReference42,
 													expr: &litMatcher{
 														pos:        position{line: 701, col: 8, offset: 22510},
 														val:        "{",
@@ -15076,7 +15078,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 686, col: 79, offset: 21896},
+									pos:        position{line: 686, col: 86, offset: 21903},
 									val:        ">>",
 									ignoreCase: false,
 									want:       "\">>\"",
@@ -15085,23 +15087,23 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 688, col: 9, offset: 21969},
-						run: (*parser).callonCrossReference44,
+						pos: position{line: 688, col: 9, offset: 21976},
+						run: (*parser).callonCrossReference45,
 						expr: &seqExpr{
-							pos: position{line: 688, col: 9, offset: 21969},
+							pos: position{line: 688, col: 9, offset: 21976},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 688, col: 9, offset: 21969},
+									pos:        position{line: 688, col: 9, offset: 21976},
 									val:        "<<",
 									ignoreCase: false,
 									want:       "\"<<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 688, col: 14, offset: 21974},
+									pos:   position{line: 688, col: 14, offset: 21981},
 									label: "id",
 									expr: &actionExpr{
 										pos: position{line: 2837, col: 7, offset: 89891},
-										run: (*parser).callonCrossReference48,
+										run: (*parser).callonCrossReference49,
 										expr: &oneOrMoreExpr{
 											pos: position{line: 2837, col: 7, offset: 89891},
 											expr: &charClassMatcher{
@@ -15115,7 +15117,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 688, col: 22, offset: 21982},
+									pos:        position{line: 688, col: 22, offset: 21989},
 									val:        ">>",
 									ignoreCase: false,
 									want:       "\">>\"",
@@ -15132,21 +15134,21 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalCrossReference",
-			pos:  position{line: 692, col: 1, offset: 22053},
+			pos:  position{line: 692, col: 1, offset: 22060},
 			expr: &actionExpr{
-				pos: position{line: 692, col: 27, offset: 22079},
+				pos: position{line: 692, col: 27, offset: 22086},
 				run: (*parser).callonExternalCrossReference1,
 				expr: &seqExpr{
-					pos: position{line: 692, col: 27, offset: 22079},
+					pos: position{line: 692, col: 27, offset: 22086},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 692, col: 27, offset: 22079},
+							pos:        position{line: 692, col: 27, offset: 22086},
 							val:        "xref:",
 							ignoreCase: false,
 							want:       "\"xref:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 692, col: 35, offset: 22087},
+							pos:   position{line: 692, col: 35, offset: 22094},
 							label: "url",
 							expr: &actionExpr{
 								pos: position{line: 2806, col: 17, offset: 88902},
@@ -15640,10 +15642,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 692, col: 54, offset: 22106},
+							pos:   position{line: 692, col: 54, offset: 22113},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 692, col: 66, offset: 22118},
+								pos:  position{line: 692, col: 66, offset: 22125},
 								name: "InlineAttributes",
 							},
 						},
@@ -55026,30 +55028,42 @@ func (p *parser) callonCrossReference10() (interface{}, error) {
 	return p.cur.onCrossReference10()
 }
 
-func (c *current) onCrossReference16() (interface{}, error) {
-	// `{`, `>` and `>` characters are not allowed as they are used for attribute substitutions and cross-references
+func (c *current) onCrossReference14() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonCrossReference14() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onCrossReference14()
+}
+
+func (c *current) onCrossReference19() (interface{}, error) {
+	// `{`, `<` and `>`  characters are not allowed as they are used for attribute substitutions and cross-references
 	return types.NewStringElement(string(c.text))
 
 }
 
-func (p *parser) callonCrossReference16() (interface{}, error) {
+func (p *parser) callonCrossReference19() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onCrossReference16()
+	return p.cur.onCrossReference19()
 }
 
-func (c *current) onCrossReference25() (interface{}, error) {
+func (c *current) onCrossReference26() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonCrossReference25() (interface{}, error) {
+func (p *parser) callonCrossReference26() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onCrossReference25()
+	return p.cur.onCrossReference26()
 }
 
-func (c *current) onCrossReference21(name interface{}) (interface{}, error) {
+func (c *current) onCrossReference22(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -55057,45 +55071,45 @@ func (c *current) onCrossReference21(name interface{}) (interface{}, error) {
 
 }
 
-func (p *parser) callonCrossReference21() (interface{}, error) {
+func (p *parser) callonCrossReference22() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onCrossReference21(stack["name"])
+	return p.cur.onCrossReference22(stack["name"])
 }
 
-func (c *current) onCrossReference35() (interface{}, error) {
+func (c *current) onCrossReference36() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonCrossReference35() (interface{}, error) {
+func (p *parser) callonCrossReference36() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onCrossReference35()
+	return p.cur.onCrossReference36()
 }
 
-func (c *current) onCrossReference31(name interface{}) (interface{}, error) {
+func (c *current) onCrossReference32(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonCrossReference31() (interface{}, error) {
+func (p *parser) callonCrossReference32() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onCrossReference31(stack["name"])
+	return p.cur.onCrossReference32(stack["name"])
 }
 
-func (c *current) onCrossReference41() (interface{}, error) {
+func (c *current) onCrossReference42() (interface{}, error) {
 
 	return types.NewStringElement(string(c.text))
 
 }
 
-func (p *parser) callonCrossReference41() (interface{}, error) {
+func (p *parser) callonCrossReference42() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onCrossReference41()
+	return p.cur.onCrossReference42()
 }
 
 func (c *current) onCrossReference2(id, label interface{}) (interface{}, error) {
@@ -55109,27 +55123,27 @@ func (p *parser) callonCrossReference2() (interface{}, error) {
 	return p.cur.onCrossReference2(stack["id"], stack["label"])
 }
 
-func (c *current) onCrossReference48() (interface{}, error) {
+func (c *current) onCrossReference49() (interface{}, error) {
 	// previously: (Alphanums / (!Newline !Space !"[" !"]" !"<<" !">>" !","  .))+
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonCrossReference48() (interface{}, error) {
+func (p *parser) callonCrossReference49() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onCrossReference48()
+	return p.cur.onCrossReference49()
 }
 
-func (c *current) onCrossReference44(id interface{}) (interface{}, error) {
+func (c *current) onCrossReference45(id interface{}) (interface{}, error) {
 	return types.NewInternalCrossReference(id, nil)
 
 }
 
-func (p *parser) callonCrossReference44() (interface{}, error) {
+func (p *parser) callonCrossReference45() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onCrossReference44(stack["id"])
+	return p.cur.onCrossReference45(stack["id"])
 }
 
 func (c *current) onExternalCrossReference11() (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index f63b127..0f0e7fb 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -683,7 +683,7 @@ BlankLine <- NotEOF Space* EOL {
 // -------------------------------------------------------------------------------------
 CrossReference <- InternalCrossReference / ExternalCrossReference 
 
-InternalCrossReference <- "<<" id:(Id) Space* "," label:(CrossReferenceLabel) ">>" {
+InternalCrossReference <- "<<" id:(Id) Space* "," Space* label:(CrossReferenceLabel) ">>" {
         return types.NewInternalCrossReference(id, label)
     } / "<<" id:(Id) ">>" {
         return types.NewInternalCrossReference(id, nil)
@@ -694,7 +694,7 @@ ExternalCrossReference <- "xref:" url:(FileLocation) attributes:(InlineAttribute
     }
 
 CrossReferenceLabel <- (
-    ([\pL\pN][^\r\n{<>]+ { // `{`, `>` and `>` characters are not allowed as they are used for attribute substitutions and cross-references 
+    ([^\r\n{<>]+ { // `{`, `<` and `>`  characters are not allowed as they are used for attribute substitutions and cross-references 
         return types.NewStringElement(string(c.text))
     })
     / AttributeReferenceValue
-- 
2.43.0


From aeb219cfa5c09b4985dddb0692bb3cd048e5c668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 005/143] fix: put the roles of literal blocks in the class
 attribute

---
 pkg/renderer/sgml/html5/delimited_block_literal_tmpl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/renderer/sgml/html5/delimited_block_literal_tmpl.go b/pkg/renderer/sgml/html5/delimited_block_literal_tmpl.go
index 58802e1..1bde785 100644
--- a/pkg/renderer/sgml/html5/delimited_block_literal_tmpl.go
+++ b/pkg/renderer/sgml/html5/delimited_block_literal_tmpl.go
@@ -2,7 +2,7 @@ package html5
 
 const (
 	literalBlockTmpl = `<div {{ if .ID }}id="{{ .ID }}" {{ end }}` +
-		"class=\"literalblock\"{{ if .Roles }} {{ .Roles }}{{ end }}>\n" +
+		"class=\"literalblock{{ if .Roles }} {{ .Roles }}{{ end }}\">\n" +
 		"{{ if .Title }}<div class=\"title\">{{ .Title }}</div>\n{{ end }}" +
 		"<div class=\"content\">\n" +
 		"<pre>{{ .Content }}</pre>\n" +
-- 
2.43.0


From 3cf88a5ae28363b6fbbf7dd9b98a32b0cc7e15b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 006/143] fix: do not substitute quotes, attributes nor macros
 in literal and source paragraphs

---
 pkg/parser/document_substitutions.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/parser/document_substitutions.go b/pkg/parser/document_substitutions.go
index 53a38ad..0b81a25 100644
--- a/pkg/parser/document_substitutions.go
+++ b/pkg/parser/document_substitutions.go
@@ -144,9 +144,9 @@ func defaultSubstitutions(b types.WithElements) *substitutions {
 			return verbatimSubstitutions()
 		}
 	case *types.Paragraph:
-		// if listing paragraph:
+		// if listing, source or literal paragraph:
 		switch b.GetAttributes().GetAsStringWithDefault(types.AttrStyle, "") {
-		case types.Listing:
+		case types.Listing, types.Source, types.Literal, types.LiteralParagraph:
 			return verbatimSubstitutions()
 		case types.Passthrough:
 			return noneSubstitutions()
-- 
2.43.0


From 660a30f18ee887b736d6b948ab7b657f598e4739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:10 +0000
Subject: [PATCH 007/143] fix: do not apply the literal style of a paragraph to
 the blocks which follow

---
 pkg/parser/parser.go  | 6 +++---
 pkg/parser/parser.peg | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 4ffa730..f828e44 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -49537,9 +49537,9 @@ func (p *parser) callonIncludedFileLine1() (interface{}, error) {
 }
 
 func (c *current) onDocumentFragment8(attributes interface{}) error {
-	if attributes, ok := attributes.(types.Attributes); ok {
-		c.storeBlockAttributes(attributes)
-	}
+	// also if there are none
+	attrs, _ := attributes.(types.Attributes)
+	c.storeBlockAttributes(attrs)
 	return nil
 
 }
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 0f0e7fb..b19e7bc 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -228,9 +228,9 @@ DocumentFragment <-
     NotEOF
     attributes:(BlockAttributes)? 
     #{
-        if attributes, ok := attributes.(types.Attributes); ok {
-            c.storeBlockAttributes(attributes)
-        }
+        // also if there are none
+        attrs, _ := attributes.(types.Attributes)
+        c.storeBlockAttributes(attrs)
         return nil
     }
     element:(
-- 
2.43.0


From 08a4cbfb80ac443df9a73805f9074ee5f557eddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:24 +0000
Subject: [PATCH 008/143] fix: collect the footnotes in delimited blocks,
 tables, quoted texts and footnotes

They were left in place, and the rendering of the whole document failed with 'unsupported type of element: *types.Footnote'.
---
 pkg/types/types.go | 72 ++++++++++++++++++++++++++++------------------
 1 file changed, 44 insertions(+), 28 deletions(-)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index d75f6d7..0638412 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -973,14 +973,7 @@ var _ WithFootnotes = &ListElements{}
 // SubstituteFootnotes replaces the footnotes in the list element
 // with footnote references. The footnotes are stored in the given 'notes' param
 func (l *ListElements) SubstituteFootnotes(notes *Footnotes) {
-	for _, e := range l.Elements {
-		if e, ok := e.(WithFootnotes); ok {
-			if log.IsLevelEnabled(log.DebugLevel) {
-				log.Debugf("collecting footnotes in element of type '%T'", e)
-			}
-			e.SubstituteFootnotes(notes)
-		}
-	}
+	substituteFootnotes(l.Elements, notes)
 }
 
 type ListKind string
@@ -1710,16 +1703,8 @@ var _ WithFootnotes = &LabeledListElement{}
 // SubstituteFootnotes replaces the footnotes in the list element
 // with footnote references. The footnotes are stored in the given 'notes' param
 func (e *LabeledListElement) SubstituteFootnotes(notes *Footnotes) {
-	for i, element := range e.Term {
-		if note, ok := element.(*Footnote); ok {
-			e.Term[i] = notes.Reference(note)
-		}
-	}
-	for _, element := range e.Elements {
-		if e, ok := element.(WithFootnotes); ok {
-			e.SubstituteFootnotes(notes)
-		}
-	}
+	substituteFootnotes(e.Term, notes)
+	substituteFootnotes(e.Elements, notes)
 }
 
 // ------------------------------------------
@@ -1826,11 +1811,7 @@ var _ WithFootnotes = &Paragraph{}
 // SubstituteFootnotes replaces the footnotes in the paragraph lines
 // with footnote references. The footnotes are stored in the given 'notes' param
 func (p *Paragraph) SubstituteFootnotes(notes *Footnotes) {
-	for i, element := range p.Elements {
-		if note, ok := element.(*Footnote); ok {
-			p.Elements[i] = notes.Reference(note)
-		}
-	}
+	substituteFootnotes(p.Elements, notes)
 }
 
 // ------------------------------------------
@@ -2165,6 +2146,23 @@ type WithFootnotes interface {
 	SubstituteFootnotes(existing *Footnotes)
 }
 
+// substituteFootnotes replaces the footnotes in the given elements (and in their own elements)
+// with footnote references. The footnotes are stored in the given 'notes' param
+func substituteFootnotes(elements []interface{}, notes *Footnotes) {
+	for i, element := range elements {
+		switch e := element.(type) {
+		case *Footnote:
+			elements[i] = notes.Reference(e)
+		case *ListContinuation:
+			substituteFootnotes([]interface{}{e.Element}, notes)
+		case WithFootnotes:
+			e.SubstituteFootnotes(notes)
+		case WithElements:
+			substituteFootnotes(e.GetElements(), notes)
+		}
+	}
+}
+
 // Footnotes the footnotes of a document. Footnotes are "collected"
 // during the parsing phase and displayed at the bottom of the document
 // during the rendering.
@@ -2206,6 +2204,8 @@ func (f *Footnotes) Reference(note *Footnote) *FootnoteReference {
 		note.ID = f.sequence.nextVal()
 		f.Notes = append(f.Notes, note)
 		r.ID = note.ID
+		// footnotes in the footnote
+		substituteFootnotes(note.Elements, f)
 	} else if id, found := f.indexOf(note); found {
 		r.ID = id
 		r.Duplicate = true
@@ -2394,6 +2394,14 @@ func (b *DelimitedBlock) mapAttributes() {
 	}
 }
 
+var _ WithFootnotes = &DelimitedBlock{}
+
+// SubstituteFootnotes replaces the footnotes in the elements of the block
+// with footnote references. The footnotes are stored in the given 'notes' param
+func (b *DelimitedBlock) SubstituteFootnotes(notes *Footnotes) {
+	substituteFootnotes(b.Elements, notes)
+}
+
 var _ Referencable = &DelimitedBlock{}
 
 func (b *DelimitedBlock) Reference(refs ElementReferences) {
@@ -2584,11 +2592,7 @@ var _ WithFootnotes = &Section{}
 // SubstituteFootnotes replaces the footnotes in the section title
 // with footnote references. The footnotes are stored in the given 'notes' param
 func (s *Section) SubstituteFootnotes(notes *Footnotes) {
-	for i, element := range s.Title {
-		if note, ok := element.(*Footnote); ok {
-			s.Title[i] = notes.Reference(note)
-		}
-	}
+	substituteFootnotes(s.Title, notes)
 }
 
 // ------------------------------------------
@@ -3803,6 +3807,18 @@ func (t *Table) SetElements(elements []interface{}) error {
 	return nil
 }
 
+var _ WithFootnotes = &Table{}
+
+// SubstituteFootnotes replaces the footnotes in the cells of the table
+// with footnote references. The footnotes are stored in the given 'notes' param
+func (t *Table) SubstituteFootnotes(notes *Footnotes) {
+	for _, r := range append(append([]*TableRow{t.Header}, t.Rows...), t.Footer) {
+		if r != nil {
+			substituteFootnotes(r.GetElements(), notes)
+		}
+	}
+}
+
 var _ WithAttributes = &Table{}
 
 func (t *Table) GetAttributes() Attributes {
-- 
2.43.0


From 113fec845afa0dd74978985a411b8b331c99226a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:48 +0000
Subject: [PATCH 009/143] fix: give distinct IDs to the sections whose titles
 only differ by case

The IDs of the sections are rendered in lower case.
---
 pkg/types/document_xrefs.go | 13 +++++++++++++
 pkg/types/types.go          |  2 +-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/pkg/types/document_xrefs.go b/pkg/types/document_xrefs.go
index 4b807d6..ea3c25d 100644
--- a/pkg/types/document_xrefs.go
+++ b/pkg/types/document_xrefs.go
@@ -1,6 +1,19 @@
 package types
 
+import "strings"
+
 // ElementReferences the element references in the document
 type ElementReferences map[string]interface{}
 
 // ElementReferencesCollector the visitor that traverses the whole document structure in search for elements with an ID
+
+// contains returns `true` if there is an element with the given ID. The case does not
+// matter, since the IDs of the sections are rendered in lower case.
+func (r ElementReferences) contains(id string) bool {
+	for i := range r {
+		if strings.ToLower(i) == strings.ToLower(id) {
+			return true
+		}
+	}
+	return false
+}
diff --git a/pkg/types/types.go b/pkg/types/types.go
index 0638412..d12f457 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -2541,7 +2541,7 @@ func (s *Section) ResolveID(attrs Attributes, refs ElementReferences) error {
 			id = base + "_" + strconv.Itoa(i)
 			log.Debugf("updated section id to '%s' (to avoid duplicate refs)", s.Attributes[AttrID])
 		}
-		if _, exists := refs[id]; !exists {
+		if !refs.contains(id) {
 			s.Attributes[AttrID] = id
 			break
 		}
-- 
2.43.0


From f12a2749d3dbbed2c2d5e23a1ec854b084c2eaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:48 +0000
Subject: [PATCH 010/143] fix: keep the case of the targets of the cross
 references to other elements than sections

Only the IDs of the sections are rendered in lower case, and these ones can also be referred to as they are rendered.
---
 pkg/renderer/sgml/context.go               | 30 ++++++++++++++++++++++
 pkg/renderer/sgml/cross_reference.go       |  5 ++--
 pkg/renderer/sgml/html5/cross_reference.go |  2 +-
 3 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/pkg/renderer/sgml/context.go b/pkg/renderer/sgml/context.go
index e284204..acd42d6 100644
--- a/pkg/renderer/sgml/context.go
+++ b/pkg/renderer/sgml/context.go
@@ -1,6 +1,8 @@
 package sgml
 
 import (
+	"strings"
+
 	"github.com/bytesparadise/libasciidoc/pkg/configuration"
 	"github.com/bytesparadise/libasciidoc/pkg/types"
 )
@@ -14,6 +16,7 @@ type context struct {
 	counters             map[string]int
 	attributes           types.Attributes
 	elementReferences    types.ElementReferences
+	sectionIDs           map[string]string // by lower case ID, since this is how they are rendered
 	hasHeader            bool
 	sectionNumbering     types.SectionNumbers
 }
@@ -26,8 +29,10 @@ func newContext(doc *types.Document, config *configuration.Configuration) *conte
 		counters:          make(map[string]int),
 		attributes:        config.Attributes,
 		elementReferences: doc.ElementReferences,
+		sectionIDs:        make(map[string]string),
 		hasHeader:         header != nil,
 	}
+	ctx.addSectionIDs(doc.Elements)
 	// TODO: add other attributes from https://docs.asciidoctor.org/asciidoc/latest/attributes/document-attributes-ref/#builtin-attributes-i18n
 	ctx.attributes[types.AttrFigureCaption] = "Figure"
 	ctx.attributes[types.AttrExampleCaption] = "Example"
@@ -47,6 +52,31 @@ func newContext(doc *types.Document, config *configuration.Configuration) *conte
 	return ctx
 }
 
+func (ctx *context) addSectionIDs(elements []interface{}) {
+	for _, e := range elements {
+		if s, ok := e.(*types.Section); ok {
+			id := s.GetID()
+			ctx.sectionIDs[strings.ToLower(id)] = id
+			ctx.addSectionIDs(s.Elements)
+		}
+	}
+}
+
+// resolveReference returns the ID (as rendered) and the title (if it exists)
+// of the element with the given ID
+func (ctx *context) resolveReference(id string) (string, interface{}, bool) {
+	if _, found := ctx.elementReferences[id]; !found {
+		if s, found := ctx.sectionIDs[strings.ToLower(id)]; found {
+			id = s
+		}
+	}
+	title, found := ctx.elementReferences[id]
+	if s := strings.ToLower(id); ctx.sectionIDs[s] == id {
+		id = s
+	}
+	return id, title, found
+}
+
 func (ctx *context) UseUnicode() bool {
 	return ctx.attributes.GetAsBoolWithDefault(types.AttrUnicode, true)
 }
diff --git a/pkg/renderer/sgml/cross_reference.go b/pkg/renderer/sgml/cross_reference.go
index bfaa767..fcf59ba 100644
--- a/pkg/renderer/sgml/cross_reference.go
+++ b/pkg/renderer/sgml/cross_reference.go
@@ -20,9 +20,10 @@ func (r *sgmlRenderer) renderInternalCrossReference(ctx *context, xref *types.In
 	if !ok {
 		return "", errors.Errorf("unable to process internal cross reference: invalid ID: '%v'", xref.ID)
 	}
+	href, target, found := ctx.resolveReference(xrefID)
 	if xrefLabel, ok := xref.Label.(string); ok {
 		label = xrefLabel
-	} else if target, found := ctx.elementReferences[xrefID]; found {
+	} else if found {
 		switch t := target.(type) {
 		case string:
 			label = t
@@ -56,7 +57,7 @@ func (r *sgmlRenderer) renderInternalCrossReference(ctx *context, xref *types.In
 		Href  string
 		Label string
 	}{
-		Href:  xrefID,
+		Href:  href,
 		Label: label,
 	})
 }
diff --git a/pkg/renderer/sgml/html5/cross_reference.go b/pkg/renderer/sgml/html5/cross_reference.go
index 7be4da8..0488cb2 100644
--- a/pkg/renderer/sgml/html5/cross_reference.go
+++ b/pkg/renderer/sgml/html5/cross_reference.go
@@ -1,6 +1,6 @@
 package html5
 
 const (
-	internalCrossReferenceTmpl = `<a href="#{{ toLower .Href }}">{{ .Label }}</a>`
+	internalCrossReferenceTmpl = `<a href="#{{ .Href }}">{{ .Label }}</a>`
 	externalCrossReferenceTmpl = `<a href="{{ .Href }}">{{ .Label }}</a>`
 )
-- 
2.43.0


From ba0f576fe2e9cbd6e4c1fb9c696f938c1ee033c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:30 +0000
Subject: [PATCH 011/143] fix: substitute the labels of links in all blocks,
 titles, terms and footnotes

It was done in the paragraphs only.
---
 ...document_processing_apply_substitutions.go | 39 +++++++++++--------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 6f85e39..99adc1b 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -139,7 +139,7 @@ func applySubstitutionsOnWithTitle(ctx *ParseContext, b types.WithTitle, _ ...Op
 		}
 		b.SetTitle(title)
 	}
-	return nil
+	return reparseInlineElements(ctx, b.GetTitle(), headerSubstitutions())
 }
 
 func applySubstitutionsOnTable(ctx *ParseContext, t *types.Table, opts ...Option) error {
@@ -249,14 +249,6 @@ func applySubstitutionsOnWithElements(ctx *ParseContext, b types.WithElements, o
 		}
 	case *types.Paragraph:
 		b.Elements, err = applySubstitutionsOnSlice(ctx, b.Elements, subs, opts...)
-		// reparse attributes in inline elements :/
-		for _, e := range b.Elements {
-			if e, ok := e.(types.WithAttributes); ok {
-				if err := reparseInlineAttributes(ctx, e, subs, opts...); err != nil {
-					return err
-				}
-			}
-		}
 		return err
 	default:
 		return applySubstitutionsOnElements(ctx, b.GetElements(), opts...)
@@ -303,6 +295,22 @@ func reparseAttributes(ctx *ParseContext, element types.WithAttributes, opts ...
 	return nil
 }
 
+func reparseInlineElements(ctx *ParseContext, elements []interface{}, subs *substitutions, opts ...Option) error {
+	for _, e := range elements {
+		switch e := e.(type) {
+		case types.WithAttributes:
+			if err := reparseInlineAttributes(ctx, e, subs, opts...); err != nil {
+				return err
+			}
+		case *types.Footnote:
+			if err := reparseInlineElements(ctx, e.Elements, subs, opts...); err != nil {
+				return err
+			}
+		}
+	}
+	return nil
+}
+
 func reparseInlineAttributes(ctx *ParseContext, element types.WithAttributes, subs *substitutions, opts ...Option) error {
 	// in some specific cases, we need to reparse values to support links and quoted texts
 	attrs := element.GetAttributes()
@@ -316,6 +324,7 @@ func reparseInlineAttributes(ctx *ParseContext, element types.WithAttributes, su
 			attrs[k] = types.Reduce(v)
 		case types.AttrInlineLinkText:
 			// same as above, but do not allow for inline macros (eg: links)
+			subs := &substitutions{sequence: subs.sequence} // do not change the ones of the other elements
 			if err := subs.remove(Macros); err != nil {
 				return err
 			}
@@ -331,13 +340,7 @@ func reparseInlineAttributes(ctx *ParseContext, element types.WithAttributes, su
 	// also, recursively perform the same changes on nested elements with attributes
 	switch e := element.(type) {
 	case types.WithElements:
-		for _, e := range e.GetElements() {
-			if e, ok := e.(types.WithAttributes); ok {
-				if err := reparseInlineAttributes(ctx, e, subs, opts...); err != nil {
-					return err
-				}
-			}
-		}
+		return reparseInlineElements(ctx, e.GetElements(), subs, opts...)
 	}
 	return nil
 }
@@ -426,6 +429,10 @@ func applySubstitutionsOnSlice(ctx *ParseContext, elements []interface{}, subs *
 			return nil, err
 		}
 	}
+	// reparse attributes in inline elements :/
+	if err := reparseInlineElements(ctx, elements, subs, opts...); err != nil {
+		return nil, err
+	}
 	return elements, nil
 }
 
-- 
2.43.0


From 29700d4922e6f9df43348d922192c7c9e483cdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:27 +0000
Subject: [PATCH 012/143] fix: support the 'specialcharacters' substitution and
 spaces between substitutions

The block was dropped.
---
 pkg/parser/document_substitutions.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/parser/document_substitutions.go b/pkg/parser/document_substitutions.go
index 0b81a25..2e83243 100644
--- a/pkg/parser/document_substitutions.go
+++ b/pkg/parser/document_substitutions.go
@@ -104,6 +104,7 @@ func newSubstitutions(b types.WithElements) (*substitutions, error) {
 		}
 	}
 	for _, sub := range subs {
+		sub = strings.TrimSpace(sub)
 		// log.Debugf("checking subs '%s'", sub)
 		switch {
 		case strings.HasSuffix(sub, "+"): // prepend
@@ -161,6 +162,7 @@ func defaultSubstitutions(b types.WithElements) *substitutions {
 // checks if all the given subs are incremental (ie, prefixed with `+|-` or suffixed with `-`)
 func allIncremental(subs []string) bool {
 	for _, sub := range subs {
+		sub = strings.TrimSpace(sub)
 		if !(strings.HasPrefix(sub, "+") ||
 			strings.HasPrefix(sub, "-") ||
 			strings.HasSuffix(sub, "+")) {
@@ -245,6 +247,10 @@ func substitutionsFor(s string) (*substitutions, error) {
 		return noneSubstitutions(), nil
 	case "verbatim":
 		return verbatimSubstitutions(), nil
+	case "specialcharacters":
+		return &substitutions{
+			sequence: []string{SpecialCharacters},
+		}, nil
 	case "attributes", "macros", "quotes", "replacements", "post_replacements", "callouts", "specialchars":
 		return &substitutions{
 			sequence: []string{s},
-- 
2.43.0


From 1016a1675c648d81e4533c7afd34f51aa73116fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:15 +0000
Subject: [PATCH 013/143] fix: do not crash when the email of the author is
 declared without its name, or before it

---
 pkg/types/types.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index d12f457..ea6e105 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -331,7 +331,9 @@ elements:
 				if email, ok := e.Value.(string); ok {
 					if result == nil {
 						result = DocumentAuthors{
-							&DocumentAuthor{},
+							&DocumentAuthor{
+								DocumentAuthorFullName: &DocumentAuthorFullName{},
+							},
 						}
 					}
 					result[0].Email = email
-- 
2.43.0


From b6aa3671453125ef328e84b45ba1747feed86d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:37 +0000
Subject: [PATCH 014/143] fix: do not crash on manpages without the expected
 sections

---
 pkg/validator/validator.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/pkg/validator/validator.go b/pkg/validator/validator.go
index b706076..fe0bc6b 100644
--- a/pkg/validator/validator.go
+++ b/pkg/validator/validator.go
@@ -49,17 +49,17 @@ func validateManpage(doc *types.Document) []Problem {
 		})
 	}
 	elements := doc.BodyElements()
-	if nameSection, ok := assertThatElement(elements[0]).isSection(withLevel(1), withTitle("name")); !ok {
+	if nameSection, ok := assertThatElement(elementAt(elements, 0)).isSection(withLevel(1), withTitle("name")); !ok {
 		problems = append(problems, Problem{
 			Severity: Error,
 			Message:  "manpage document is missing the 'Name' section",
 		})
-	} else if ok := assertThatElements(nameSection.Elements).haveCount(1); !ok {
+	} else if ok := assertThatElements(nameSection.Elements).haveSingleParagraph(); !ok {
 		problems = append(problems, Problem{
 			Severity: Error,
 			Message:  "'Name' section should contain a single paragraph",
 		})
-	} else if _, ok := assertThatElement(elements[1]).isSection(withLevel(1), withTitle("synopsis")); !ok {
+	} else if _, ok := assertThatElement(elementAt(elements, 1)).isSection(withLevel(1), withTitle("synopsis")); !ok {
 		problems = append(problems, Problem{
 			Severity: Error,
 			Message:  "manpage document is missing the 'Synopsis' section",
@@ -68,6 +68,14 @@ func validateManpage(doc *types.Document) []Problem {
 	return problems
 }
 
+// elementAt returns the element at the given index, or `nil` if there is none
+func elementAt(elements []interface{}, i int) interface{} {
+	if i < len(elements) {
+		return elements[i]
+	}
+	return nil
+}
+
 // assert performs a set of assertions on a given element
 func assertThatElement(element interface{}) elementAssertion {
 	return elementAssertion{
@@ -120,6 +128,10 @@ type elementsAssertion struct {
 	elements []interface{}
 }
 
-func (e elementsAssertion) haveCount(count int) bool {
-	return len(e.elements) == count
+func (e elementsAssertion) haveSingleParagraph() bool {
+	if len(e.elements) != 1 {
+		return false
+	}
+	_, ok := e.elements[0].(*types.Paragraph)
+	return ok
 }
-- 
2.43.0


From 05f82d99db149d82cd80257a614c0de5266fb20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:37 +0000
Subject: [PATCH 015/143] fix: do not crash when the file to include has the
 end of a tag which was not started

---
 pkg/parser/document_preprocessing.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/parser/document_preprocessing.go b/pkg/parser/document_preprocessing.go
index d748195..add8363 100644
--- a/pkg/parser/document_preprocessing.go
+++ b/pkg/parser/document_preprocessing.go
@@ -409,7 +409,9 @@ func readWithinTags(path string, scanner *bufio.Scanner, content *strings.Builde
 			}
 		}
 		if endTag, ok := fl.GetEndTag(); ok {
-			currentRanges[endTag.Value].EndLine = lineNumber
+			if r, found := currentRanges[endTag.Value]; found { // ignore the end of a tag which was not started
+				r.EndLine = lineNumber
+			}
 		}
 		if expectedRanges.Match(lineNumber, currentRanges) && !fl.HasTag() {
 			_, err := content.Write(scanner.Bytes())
-- 
2.43.0


From a62e0fc76f498a7cd2b6643245f12e20a5d473c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:47 +0000
Subject: [PATCH 016/143] fix: close the tags of markdown quotes and of
 interactive checklists in XHTML

---
 pkg/renderer/sgml/html5/templates.go            |  2 ++
 pkg/renderer/sgml/html5/unordered_list.go       |  4 ++++
 pkg/renderer/sgml/paragraph.go                  |  8 ++++----
 pkg/renderer/sgml/table.go                      |  2 +-
 pkg/renderer/sgml/templates.go                  |  2 ++
 .../delimited_block_markdown_quote_tmpl.go      | 17 +++++++++++++++++
 pkg/renderer/sgml/xhtml5/unordered_list.go      |  7 +++++++
 pkg/renderer/sgml/xhtml5/xhtml5.go              |  3 +++
 8 files changed, 40 insertions(+), 5 deletions(-)
 create mode 100644 pkg/renderer/sgml/xhtml5/delimited_block_markdown_quote_tmpl.go
 create mode 100644 pkg/renderer/sgml/xhtml5/unordered_list.go

diff --git a/pkg/renderer/sgml/html5/templates.go b/pkg/renderer/sgml/html5/templates.go
index c30ba49..3118b3e 100644
--- a/pkg/renderer/sgml/html5/templates.go
+++ b/pkg/renderer/sgml/html5/templates.go
@@ -20,6 +20,7 @@ var templates = sgml.Templates{
 	CalloutList:                  calloutListTmpl,
 	CalloutListElement:           calloutListElementTmpl,
 	CalloutRef:                   calloutRefTmpl,
+	CheckedBox:                   checkedBoxTmpl,
 	DocumentDetails:              documentDetailsTmpl,
 	DocumentAuthorDetails:        documentAuthorDetailsTmpl,
 	EmbeddedParagraph:            embeddedParagraphTmpl,
@@ -82,6 +83,7 @@ var templates = sgml.Templates{
 	TocRoot:                      tocRootTmpl,
 	TocEntry:                     tocEntryTmpl,
 	TocSection:                   tocSectionTmpl,
+	UncheckedBox:                 uncheckedBoxTmpl,
 	UnorderedList:                unorderedListTmpl,
 	UnorderedListElement:         unorderedListElementTmpl,
 	VerseBlock:                   verseBlockTmpl,
diff --git a/pkg/renderer/sgml/html5/unordered_list.go b/pkg/renderer/sgml/html5/unordered_list.go
index 73feabd..fc0cabf 100644
--- a/pkg/renderer/sgml/html5/unordered_list.go
+++ b/pkg/renderer/sgml/html5/unordered_list.go
@@ -11,4 +11,8 @@ const (
 		"{{ .Content }}</ul>\n</div>\n"
 
 	unorderedListElementTmpl = "<li>\n{{ .Content }}</li>\n"
+
+	checkedBoxTmpl = `<input type="checkbox" data-item-complete="1" checked>`
+
+	uncheckedBoxTmpl = `<input type="checkbox" data-item-complete="0">`
 )
diff --git a/pkg/renderer/sgml/paragraph.go b/pkg/renderer/sgml/paragraph.go
index 6c7ad27..d8f9e90 100644
--- a/pkg/renderer/sgml/paragraph.go
+++ b/pkg/renderer/sgml/paragraph.go
@@ -95,7 +95,7 @@ func (r *sgmlRenderer) renderEmbeddedParagraph(ctx *context, p *types.Paragraph,
 	}{
 		Context:    ctx,
 		Class:      class,
-		CheckStyle: renderCheckStyle(p.Attributes[types.AttrCheckStyle]),
+		CheckStyle: r.renderCheckStyle(p.Attributes[types.AttrCheckStyle]),
 		Content:    trimSpaces(content),
 	})
 }
@@ -114,17 +114,17 @@ func trimSpaces(content string) string {
 	return contentBuf.String()
 }
 
-func renderCheckStyle(style interface{}) string {
+func (r *sgmlRenderer) renderCheckStyle(style interface{}) string {
 	// default checkboxes
 	switch style {
 	case types.Checked:
 		return "&#10003; "
 	case types.CheckedInteractive:
-		return `<input type="checkbox" data-item-complete="1" checked> `
+		return r.templates.CheckedBox + " "
 	case types.Unchecked:
 		return "&#10063; "
 	case types.UncheckedInteractive:
-		return `<input type="checkbox" data-item-complete="0"> `
+		return r.templates.UncheckedBox + " "
 	default:
 		return ""
 	}
diff --git a/pkg/renderer/sgml/table.go b/pkg/renderer/sgml/table.go
index 75819f4..8094fb6 100644
--- a/pkg/renderer/sgml/table.go
+++ b/pkg/renderer/sgml/table.go
@@ -304,7 +304,7 @@ func (r *sgmlRenderer) renderTableCellBlock(ctx *context, element interface{}) (
 			ID:         r.renderElementID(e.Attributes),
 			Title:      title,
 			Class:      "tableblock",
-			CheckStyle: renderCheckStyle(e.Attributes[types.AttrCheckStyle]),
+			CheckStyle: r.renderCheckStyle(e.Attributes[types.AttrCheckStyle]),
 			Content:    string(content),
 		})
 		if err != nil {
diff --git a/pkg/renderer/sgml/templates.go b/pkg/renderer/sgml/templates.go
index 7a57551..cc0d308 100644
--- a/pkg/renderer/sgml/templates.go
+++ b/pkg/renderer/sgml/templates.go
@@ -12,6 +12,7 @@ type Templates struct {
 	CalloutList                  string
 	CalloutListElement           string
 	CalloutRef                   string
+	CheckedBox                   string // no variable
 	EmbeddedParagraph            string
 	DocumentDetails              string
 	DocumentAuthorDetails        string
@@ -74,6 +75,7 @@ type Templates struct {
 	TocEntry                     string
 	TocRoot                      string
 	TocSection                   string
+	UncheckedBox                 string // no variable
 	UnorderedList                string
 	UnorderedListElement         string
 	VerseBlock                   string
diff --git a/pkg/renderer/sgml/xhtml5/delimited_block_markdown_quote_tmpl.go b/pkg/renderer/sgml/xhtml5/delimited_block_markdown_quote_tmpl.go
new file mode 100644
index 0000000..1ae08a8
--- /dev/null
+++ b/pkg/renderer/sgml/xhtml5/delimited_block_markdown_quote_tmpl.go
@@ -0,0 +1,17 @@
+package xhtml5
+
+const (
+	markdownQuoteBlockTmpl = `<div {{ if .ID }}id="{{ .ID }}" {{ end }}` +
+		"class=\"quoteblock{{ if .Roles }} {{ .Roles }}{{ end }}\">\n" +
+		"{{ if .Title }}<div class=\"title\">{{ .Title }}</div>\n{{ end }}" +
+		"<blockquote>\n" +
+		"{{ if .Content }}<div class=\"paragraph\">\n" +
+		"<p>{{ .Content }}</p>\n" +
+		"</div>\n{{ end }}" +
+		"</blockquote>\n" +
+		"{{ if .Attribution.First }}<div class=\"attribution\">\n" +
+		"&#8212; {{ .Attribution.First }}" +
+		"{{ if .Attribution.Second }}<br/>\n<cite>{{ .Attribution.Second }}</cite>{{ end }}\n" +
+		"</div>\n{{ end }}" +
+		"</div>\n"
+)
diff --git a/pkg/renderer/sgml/xhtml5/unordered_list.go b/pkg/renderer/sgml/xhtml5/unordered_list.go
new file mode 100644
index 0000000..9109d6b
--- /dev/null
+++ b/pkg/renderer/sgml/xhtml5/unordered_list.go
@@ -0,0 +1,7 @@
+package xhtml5
+
+const (
+	checkedBoxTmpl = `<input type="checkbox" data-item-complete="1" checked="checked"/>`
+
+	uncheckedBoxTmpl = `<input type="checkbox" data-item-complete="0"/>`
+)
diff --git a/pkg/renderer/sgml/xhtml5/xhtml5.go b/pkg/renderer/sgml/xhtml5/xhtml5.go
index a379e0e..4be17a3 100644
--- a/pkg/renderer/sgml/xhtml5/xhtml5.go
+++ b/pkg/renderer/sgml/xhtml5/xhtml5.go
@@ -16,6 +16,7 @@ func Render(doc *types.Document, config *configuration.Configuration, output io.
 	templates.Article = articleTmpl
 	templates.BlockImage = blockImageTmpl
 	templates.LineBreak = lineBreakTmpl
+	templates.CheckedBox = checkedBoxTmpl
 	templates.DocumentAuthorDetails = documentAuthorDetailsTmpl
 	templates.DocumentDetails = documentDetailsTmpl
 	templates.Footnotes = footnotesTmpl
@@ -24,8 +25,10 @@ func Render(doc *types.Document, config *configuration.Configuration, output io.
 	templates.LabeledListHorizontalElement = labeledListHorizontalItemTmpl
 	templates.Table = tableTmpl
 	templates.ThematicBreak = thematicBreakTmpl
+	templates.MarkdownQuoteBlock = markdownQuoteBlockTmpl
 	templates.QuoteBlock = quoteBlockTmpl
 	templates.QuoteParagraph = quoteParagraphTmpl
+	templates.UncheckedBox = uncheckedBoxTmpl
 	templates.VerseBlock = verseBlockTmpl
 	templates.VerseParagraph = verseParagraphTmpl
 
-- 
2.43.0


From 3fa31b2bfa89dca29ddc78571b7fdb5b64d0a71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:50 +0000
Subject: [PATCH 017/143] fix: write the description of the document in XHTML
 too

---
 pkg/renderer/sgml/xhtml5/article.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/renderer/sgml/xhtml5/article.go b/pkg/renderer/sgml/xhtml5/article.go
index cf8983d..17ddc75 100644
--- a/pkg/renderer/sgml/xhtml5/article.go
+++ b/pkg/renderer/sgml/xhtml5/article.go
@@ -8,6 +8,7 @@ const (
 		"<meta http-equiv=\"X-UA-Compatible\" content=\"IE=edge\"/>\n" +
 		"<meta name=\"viewport\" content=\"width=device-width, initial-scale=1.0\"/>\n" +
 		"{{ if .Generator }}<meta name=\"generator\" content=\"{{ .Generator }}\"/>\n{{ end }}" +
+		"{{ if .Description }}<meta name=\"description\" content=\"{{ .Description }}\"/>\n{{ end }}" +
 		"{{ if .Authors }}<meta name=\"author\" content=\"{{ .Authors }}\"/>\n{{ end }}" +
 		"{{ range $css := .CSS }}<link type=\"text/css\" rel=\"stylesheet\" href=\"{{ $css }}\"/>\n{{ end }}" +
 		"<title>{{ .Title }}</title>\n" +
-- 
2.43.0


From cca0700d2acc4dd78ae264c31cea5b5af2a9fc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:05 +0000
Subject: [PATCH 018/143] fix: close the quote of the alt attribute of icons
 only when it is opened

---
 pkg/renderer/sgml/html5/icon.go  | 2 +-
 pkg/renderer/sgml/xhtml5/icon.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/renderer/sgml/html5/icon.go b/pkg/renderer/sgml/html5/icon.go
index d9a35a5..c35eeda 100644
--- a/pkg/renderer/sgml/html5/icon.go
+++ b/pkg/renderer/sgml/html5/icon.go
@@ -12,7 +12,7 @@ const (
 		`</span>`
 
 	iconImageTmpl = `<img src="{{ .Src }}"` +
-		`{{ if .Alt }} alt="{{ .Alt }}{{ end }}"` +
+		`{{ if .Alt }} alt="{{ .Alt }}"{{ end }}` +
 		`{{ if .Width }} width="{{ .Width }}"{{ end }}` +
 		`{{ if .Height }} height="{{ .Height }}"{{ end }}` +
 		`{{ if .Title }} title="{{ .Title }}"{{ end }}` +
diff --git a/pkg/renderer/sgml/xhtml5/icon.go b/pkg/renderer/sgml/xhtml5/icon.go
index d431554..a9202e6 100644
--- a/pkg/renderer/sgml/xhtml5/icon.go
+++ b/pkg/renderer/sgml/xhtml5/icon.go
@@ -9,7 +9,7 @@ const (
 	// Only the img tag needs to be made XHTML safe.
 
 	iconImageTmpl = `<img src="{{ .Src }}"` +
-		`{{ if .Alt }} alt="{{ .Alt }}{{ end }}"` +
+		`{{ if .Alt }} alt="{{ .Alt }}"{{ end }}` +
 		`{{ if .Width }} width="{{ .Width }}"{{ end }}` +
 		`{{ if .Height }} height="{{ .Height }}"{{ end }}` +
 		`{{ if .Title }} title="{{ .Title }}"{{ end }}` +
-- 
2.43.0


From 93cd1780428c5eb068ca9631a5da57bba59f68d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:28 +0000
Subject: [PATCH 019/143] fix: close the row of the last term of a horizontal
 list when it has no description

---
 pkg/renderer/sgml/html5/labeled_list.go  | 2 +-
 pkg/renderer/sgml/list.go                | 8 +++++---
 pkg/renderer/sgml/xhtml5/labeled_list.go | 2 +-
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/pkg/renderer/sgml/html5/labeled_list.go b/pkg/renderer/sgml/html5/labeled_list.go
index cc03070..d5459c1 100644
--- a/pkg/renderer/sgml/html5/labeled_list.go
+++ b/pkg/renderer/sgml/html5/labeled_list.go
@@ -20,7 +20,7 @@ const (
 	labeledListHorizontalElementTmpl = "{{ if not .Continuation }}<tr>\n" +
 		"<td class=\"hdlist1\">\n{{ else }}<br>\n{{ end }}" +
 		"{{ .Term }}\n" +
-		"{{ if .Content }}</td>\n<td class=\"hdlist2\">\n{{ .Content }}</td>\n</tr>\n{{ end }}"
+		"{{ if or .Content .Last }}</td>\n<td class=\"hdlist2\">\n{{ .Content }}</td>\n</tr>\n{{ end }}"
 
 	qAndAListTmpl = "<div{{ if .ID }} id=\"{{ .ID }}\"{{ end }} " +
 		"class=\"qlist qanda{{ if .Roles }} {{ .Roles }}{{ end }}\"" +
diff --git a/pkg/renderer/sgml/list.go b/pkg/renderer/sgml/list.go
index 3cf5c62..9ca6596 100644
--- a/pkg/renderer/sgml/list.go
+++ b/pkg/renderer/sgml/list.go
@@ -204,12 +204,12 @@ func (r *sgmlRenderer) renderLabeledList(ctx *context, l *types.List) (string, e
 
 	content := &strings.Builder{}
 	cont := false
-	for _, element := range l.Elements {
+	for i, element := range l.Elements {
 		e, ok := element.(*types.LabeledListElement)
 		if !ok {
 			return "", errors.Errorf("unable to render labeled list element of type '%T'", element)
 		}
-		if cont, err = r.renderLabeledListItem(ctx, itemTmpl, content, cont, e); err != nil {
+		if cont, err = r.renderLabeledListItem(ctx, itemTmpl, content, cont, i == len(l.Elements)-1, e); err != nil {
 			return "", errors.Wrap(err, "unable to render labeled list")
 		}
 	}
@@ -280,7 +280,7 @@ func (r *sgmlRenderer) getLabeledListTmpl(l *types.List) (*texttemplate.Template
 	return listTmpl, listElementTmpl, nil
 }
 
-func (r *sgmlRenderer) renderLabeledListItem(ctx *context, tmpl *texttemplate.Template, w io.Writer, continuation bool, element *types.LabeledListElement) (bool, error) {
+func (r *sgmlRenderer) renderLabeledListItem(ctx *context, tmpl *texttemplate.Template, w io.Writer, continuation bool, last bool, element *types.LabeledListElement) (bool, error) {
 
 	term, err := r.renderInlineElements(ctx, element.Term)
 	if err != nil {
@@ -295,10 +295,12 @@ func (r *sgmlRenderer) renderLabeledListItem(ctx *context, tmpl *texttemplate.Te
 		Term         string
 		Content      string
 		Continuation bool
+		Last         bool
 	}{
 		Context:      ctx,
 		Term:         string(term),
 		Continuation: continuation,
+		Last:         last,
 		Content:      string(content),
 	})
 	return content == "", err
diff --git a/pkg/renderer/sgml/xhtml5/labeled_list.go b/pkg/renderer/sgml/xhtml5/labeled_list.go
index 7933bb4..408f2d7 100644
--- a/pkg/renderer/sgml/xhtml5/labeled_list.go
+++ b/pkg/renderer/sgml/xhtml5/labeled_list.go
@@ -4,5 +4,5 @@ const (
 	labeledListHorizontalItemTmpl = "{{ if not .Continuation }}<tr>\n" +
 		"<td class=\"hdlist1\">\n{{ else }}<br/>\n{{ end }}" +
 		"{{ .Term }}\n" +
-		"{{ if .Content }}</td>\n<td class=\"hdlist2\">\n{{ .Content }}</td>\n</tr>\n{{ end }}"
+		"{{ if or .Content .Last }}</td>\n<td class=\"hdlist2\">\n{{ .Content }}</td>\n</tr>\n{{ end }}"
 )
-- 
2.43.0


From 8fc78f1be72e5cba45bf30a5f8bb00e50322b377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:43 +0000
Subject: [PATCH 020/143] fix: render labeled lists with an unknown style as
 plain ones

---
 pkg/renderer/sgml/list.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/renderer/sgml/list.go b/pkg/renderer/sgml/list.go
index 9ca6596..5dc46d0 100644
--- a/pkg/renderer/sgml/list.go
+++ b/pkg/renderer/sgml/list.go
@@ -8,6 +8,7 @@ import (
 
 	"github.com/bytesparadise/libasciidoc/pkg/types"
 	"github.com/pkg/errors"
+	log "github.com/sirupsen/logrus"
 )
 
 func (r *sgmlRenderer) renderList(ctx *context, l *types.List) (string, error) {
@@ -266,7 +267,7 @@ func (r *sgmlRenderer) getLabeledListTmpl(l *types.List) (*texttemplate.Template
 			}
 			return listTmpl, listElementTmpl, nil
 		default:
-			return nil, nil, errors.Errorf("unsupported labeled list layout: %s", layout)
+			log.Warnf("unsupported labeled list layout: %s", layout)
 		}
 	}
 	listTmpl, err := r.labeledList()
-- 
2.43.0


From da077813801cf1900e738bc0b365bc8b0915699e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:11 +0000
Subject: [PATCH 021/143] fix: do not change the configuration while rendering,
 and let its attributes override the ones of the document

---
 pkg/renderer/sgml/context.go  | 36 +++++++++++++++++++++++++++--------
 pkg/renderer/sgml/elements.go |  6 +++---
 pkg/renderer/sgml/sgml.go     |  8 ++++----
 3 files changed, 35 insertions(+), 15 deletions(-)

diff --git a/pkg/renderer/sgml/context.go b/pkg/renderer/sgml/context.go
index acd42d6..c086759 100644
--- a/pkg/renderer/sgml/context.go
+++ b/pkg/renderer/sgml/context.go
@@ -27,26 +27,25 @@ func newContext(doc *types.Document, config *configuration.Configuration) *conte
 	ctx := &context{
 		config:            config,
 		counters:          make(map[string]int),
-		attributes:        config.Attributes,
+		attributes:        config.Attributes.Clone(), // do not change the configuration, it may be used again
 		elementReferences: doc.ElementReferences,
 		sectionIDs:        make(map[string]string),
 		hasHeader:         header != nil,
 	}
 	ctx.addSectionIDs(doc.Elements)
 	// TODO: add other attributes from https://docs.asciidoctor.org/asciidoc/latest/attributes/document-attributes-ref/#builtin-attributes-i18n
-	ctx.attributes[types.AttrFigureCaption] = "Figure"
-	ctx.attributes[types.AttrExampleCaption] = "Example"
-	ctx.attributes[types.AttrTableCaption] = "Table"
-	ctx.attributes[types.AttrVersionLabel] = "version"
+	ctx.setAttribute(types.AttrFigureCaption, "Figure")
+	ctx.setAttribute(types.AttrExampleCaption, "Example")
+	ctx.setAttribute(types.AttrTableCaption, "Table")
+	ctx.setAttribute(types.AttrVersionLabel, "version")
 	// also, expand authors and revision
 	if header != nil {
 		if authors := header.Authors(); authors != nil {
-			ctx.attributes.AddAll(authors.Expand())
+			ctx.setAttributes(authors.Expand())
 		}
 
 		if revision := header.Revision(); revision != nil {
-			ctx.attributes.AddAll(revision.Expand())
-
+			ctx.setAttributes(revision.Expand())
 		}
 	}
 	return ctx
@@ -77,6 +76,27 @@ func (ctx *context) resolveReference(id string) (string, interface{}, bool) {
 	return id, title, found
 }
 
+// setAttribute sets the attribute, unless the configuration defines it
+func (ctx *context) setAttribute(name string, value interface{}) {
+	if !ctx.config.Attributes.Has(name) {
+		ctx.attributes[name] = value
+	}
+}
+
+// setAttributes sets the attributes, except the ones which the configuration defines
+func (ctx *context) setAttributes(attrs types.Attributes) {
+	for name, value := range attrs {
+		ctx.setAttribute(name, value)
+	}
+}
+
+// resetAttribute resets the attribute, unless the configuration defines it
+func (ctx *context) resetAttribute(name string) {
+	if !ctx.config.Attributes.Has(name) {
+		delete(ctx.attributes, name)
+	}
+}
+
 func (ctx *context) UseUnicode() bool {
 	return ctx.attributes.GetAsBoolWithDefault(types.AttrUnicode, true)
 }
diff --git a/pkg/renderer/sgml/elements.go b/pkg/renderer/sgml/elements.go
index c03a25e..7a04c15 100644
--- a/pkg/renderer/sgml/elements.go
+++ b/pkg/renderer/sgml/elements.go
@@ -103,13 +103,13 @@ func (r *sgmlRenderer) renderElement(ctx *context, element interface{}) (string,
 	case *types.PredefinedAttribute:
 		return r.renderPredefinedAttribute(e)
 	case *types.AttributeDeclaration:
-		ctx.attributes[e.Name] = e.Value
+		ctx.setAttribute(e.Name, e.Value)
 		return "", nil
 	case *types.AttributeReset:
-		delete(ctx.attributes, e.Name)
+		ctx.resetAttribute(e.Name)
 		return "", nil
 	case *types.FrontMatter:
-		ctx.attributes.AddAll(e.Attributes)
+		ctx.setAttributes(e.Attributes)
 		return "", nil
 	default:
 		return "", errors.Errorf("unsupported type of element: %T", element)
diff --git a/pkg/renderer/sgml/sgml.go b/pkg/renderer/sgml/sgml.go
index 04a604b..511cf50 100644
--- a/pkg/renderer/sgml/sgml.go
+++ b/pkg/renderer/sgml/sgml.go
@@ -53,9 +53,9 @@ func Render(doc *types.Document, config *configuration.Configuration, output io.
 		for _, e := range header.Elements {
 			switch e := e.(type) {
 			case *types.AttributeDeclaration:
-				ctx.attributes[e.Name] = e.Value
+				ctx.setAttribute(e.Name, e.Value)
 			case *types.AttributeReset:
-				delete(ctx.attributes, e.Name)
+				ctx.resetAttribute(e.Name)
 			}
 		}
 	}
@@ -64,9 +64,9 @@ elements:
 	for _, e := range doc.Elements {
 		switch e := e.(type) {
 		case *types.AttributeDeclaration:
-			ctx.attributes[e.Name] = e.Value
+			ctx.setAttribute(e.Name, e.Value)
 		case *types.AttributeReset:
-			delete(ctx.attributes, e.Name)
+			ctx.resetAttribute(e.Name)
 		default:
 			break elements
 		}
-- 
2.43.0


From 03d793760f1c9b38d8703abb6af80bfb804d9011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:23 +0000
Subject: [PATCH 022/143] fix: do not crash on a document which declares itself
 a manpage without the expected sections

---
 libasciidoc.go | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/libasciidoc.go b/libasciidoc.go
index 91de0a4..265dd60 100644
--- a/libasciidoc.go
+++ b/libasciidoc.go
@@ -70,7 +70,7 @@ func Convert(source io.Reader, output io.Writer, config *configuration.Configura
 	}
 	emdOfParse = time.Now()
 	// validate the document
-	doctype := config.Attributes.GetAsStringWithDefault(types.AttrDocType, "article")
+	doctype := documentType(doc, config)
 	problems, err := validator.Validate(doc, doctype)
 	if err != nil {
 		return types.Metadata{}, err
@@ -79,7 +79,10 @@ func Convert(source io.Reader, output io.Writer, config *configuration.Configura
 	if len(problems) > 0 {
 		// if any problem found, change the doctype to render the document as a regular article
 		log.Warnf("changing doctype to 'article' because problems were found in the document: %v", problems)
-		config.Attributes[types.AttrDocType] = "article" // switch to `article` rendering (in case it was a manpage with problems)
+		c := *config // do not change the given configuration, it may be used again
+		c.Attributes = config.Attributes.Clone()
+		c.Attributes[types.AttrDocType] = "article" // switch to `article` rendering (in case it was a manpage with problems)
+		config = &c
 		for _, problem := range problems {
 			switch problem.Severity {
 			case validator.Error:
@@ -99,3 +102,28 @@ func Convert(source io.Reader, output io.Writer, config *configuration.Configura
 	return metadata, nil
 
 }
+
+// documentType returns the type of the document: the one of the configuration, or
+// otherwise the one which is declared in the header or before the first element of the document
+func documentType(doc *types.Document, config *configuration.Configuration) string {
+	attrs := types.Attributes{}
+	declare := func(elements []interface{}) {
+		for _, e := range elements {
+			switch e := e.(type) {
+			case *types.AttributeDeclaration:
+				attrs[e.Name] = e.Value
+			case *types.AttributeReset:
+				delete(attrs, e.Name)
+			default:
+				return
+			}
+		}
+	}
+	if header, _ := doc.Header(); header != nil {
+		for _, e := range header.Elements {
+			declare([]interface{}{e})
+		}
+	}
+	declare(doc.Elements)
+	return attrs.AddAll(config.Attributes).GetAsStringWithDefault(types.AttrDocType, "article")
+}
-- 
2.43.0


From c9f3abceb92d03ac9896f868ca566d188b015901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:39 +0000
Subject: [PATCH 023/143] fix: do not crash on tables without columns, nor
 without rows for their header and footer

---
 pkg/renderer/sgml/html5/table.go  |  2 +-
 pkg/renderer/sgml/xhtml5/table.go |  2 +-
 pkg/types/types.go                | 33 +++++++++++++++++++++++++++----
 3 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/pkg/renderer/sgml/html5/table.go b/pkg/renderer/sgml/html5/table.go
index 5d3e8c7..7fc5b22 100644
--- a/pkg/renderer/sgml/html5/table.go
+++ b/pkg/renderer/sgml/html5/table.go
@@ -10,7 +10,7 @@ const (
 		"{{ if .Width }} style=\"width: {{ .Width }}%;\"{{ end }}" +
 		">\n" +
 		"{{ if .Title }}<caption class=\"title\">{{ .Caption }}{{ .Title }}</caption>\n{{ end }}" +
-		"{{ if .Body }}" +
+		"{{ if or .Header .Body .Footer }}" +
 		"<colgroup>\n" +
 		"{{ range $i, $w := .Columns }}<col" +
 		"{{ if $w.Width }} style=\"width: {{ $w.Width }}%;\"{{ end }}" +
diff --git a/pkg/renderer/sgml/xhtml5/table.go b/pkg/renderer/sgml/xhtml5/table.go
index 8ffd7db..5123ba7 100644
--- a/pkg/renderer/sgml/xhtml5/table.go
+++ b/pkg/renderer/sgml/xhtml5/table.go
@@ -10,7 +10,7 @@ const (
 		"{{ if .Width }} style=\"width: {{ .Width }}%;\"{{ end }}" +
 		">\n" +
 		"{{ if .Title }}<caption class=\"title\">{{ .Caption }}{{ .Title }}</caption>\n{{ end }}" +
-		"{{ if .Body }}" +
+		"{{ if or .Header .Body .Footer }}" +
 		"<colgroup>\n" +
 		"{{ range $i, $w := .Columns }}<col" +
 		"{{ if $w.Width }} style=\"width: {{ $w.Width }}%;\"{{ end }}" +
diff --git a/pkg/types/types.go b/pkg/types/types.go
index ea6e105..7ad421d 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -3859,17 +3859,22 @@ func (t *Table) SetColumnDefinitions(cols []interface{}) {
 			size += c.Multiplier
 		}
 	}
+	if size == 0 {
+		// invalid definitions: keep the rows as they are
+		return
+	}
 	log.Debugf("re-organizing table in rows of %d cells", size)
 	// reorganize rows/columns
 
 	rows, header, footer := t.rows()
 	t.Rows = organizeTableCells(rows, size)
 	// restore header and footer
-	if header || t.Attributes.HasOption("header") {
+	t.Header, t.Footer = nil, nil
+	if len(t.Rows) > 0 && (header || t.Attributes.HasOption("header")) {
 		t.Header = t.Rows[0]
 		t.Rows = t.Rows[1:]
 	}
-	if footer || t.Attributes.HasOption("footer") {
+	if len(t.Rows) > 0 && (footer || t.Attributes.HasOption("footer")) {
 		t.Footer = t.Rows[len(t.Rows)-1]
 		t.Rows = t.Rows[:len(t.Rows)-1]
 	}
@@ -4026,8 +4031,7 @@ func (t *Table) Columns() ([]*TableColumn, error) {
 	}
 	// add empty entries if the first row has more cells than the number of column than what's specified in the `cols` attribute
 	// (also works when the `cols` attribute is missing/empty)
-	if len(t.Rows) > 0 && len(t.Rows[0].Cells) > len(result) {
-		m := len(t.Rows[0].Cells) - len(result)
+	if m := len(t.firstRow().Cells) - len(result); m > 0 {
 		for i := 0; i < m; i++ {
 			col := newDefaultTableColumn()
 			result = append(result, col)
@@ -4041,6 +4045,13 @@ func (t *Table) Columns() ([]*TableColumn, error) {
 			sumWeight += col.Weight
 			colsWithAutowidth = colsWithAutowidth || col.Autowidth
 		}
+		if sumWeight == 0 && !colsWithAutowidth {
+			// no weight at all: all the columns have the same one
+			for _, col := range result {
+				col.Weight = 1
+			}
+			sumWeight = len(result)
+		}
 		if colsWithAutowidth {
 			// some cols have `autowidth` (`~`) enabled, so the `weight` becomes the `width`
 			// TODO: check that sum of `width < 100`
@@ -4073,6 +4084,20 @@ func (t *Table) Columns() ([]*TableColumn, error) {
 	return result, nil
 }
 
+// firstRow returns the first row of the body, or otherwise the header or the footer
+func (t *Table) firstRow() *TableRow {
+	switch {
+	case len(t.Rows) > 0:
+		return t.Rows[0]
+	case t.Header != nil:
+		return t.Header
+	case t.Footer != nil:
+		return t.Footer
+	default:
+		return &TableRow{}
+	}
+}
+
 // TableRow a table line is made of columns, each column being a group of []interface{} (to support quoted text, etc.)
 type TableRow struct {
 	Cells []*TableCell
-- 
2.43.0


From d29abcb884fa1f351a9cbc02e7f0b372df5de896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:48 +0000
Subject: [PATCH 024/143] fix: keep whole characters in the initials of the
 authors

---
 pkg/types/types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index 7ad421d..cfbdc7e 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -478,8 +478,8 @@ func key(k string, i int) string {
 }
 
 func initial(s string) string {
-	if len(s) > 0 {
-		return s[0:1]
+	for _, r := range s {
+		return string(r) // the first character, which may be several bytes
 	}
 	return ""
 }
-- 
2.43.0


From 8b62d1cf11092afe3dda2d8bc25070f1a546565b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:29 +0000
Subject: [PATCH 025/143] fix: recognise the <= and >= operators of ifeval

---
 pkg/parser/parser.go  | 32 ++++++++++++++++----------------
 pkg/parser/parser.peg | 10 +++++-----
 2 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index f828e44..7d0598c 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -995,19 +995,19 @@ var g = &grammar{
 																run: (*parser).callonDocumentRawLine198,
 																expr: &litMatcher{
 																	pos:        position{line: 106, col: 8, offset: 3009},
-																	val:        "<",
+																	val:        "<=",
 																	ignoreCase: false,
-																	want:       "\"<\"",
+																	want:       "\"<=\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 109, col: 8, offset: 3071},
+																pos: position{line: 109, col: 8, offset: 3075},
 																run: (*parser).callonDocumentRawLine200,
 																expr: &litMatcher{
-																	pos:        position{line: 109, col: 8, offset: 3071},
-																	val:        "<=",
+																	pos:        position{line: 109, col: 8, offset: 3075},
+																	val:        "<",
 																	ignoreCase: false,
-																	want:       "\"<=\"",
+																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
@@ -1015,19 +1015,19 @@ var g = &grammar{
 																run: (*parser).callonDocumentRawLine202,
 																expr: &litMatcher{
 																	pos:        position{line: 112, col: 8, offset: 3137},
-																	val:        ">",
+																	val:        ">=",
 																	ignoreCase: false,
-																	want:       "\">\"",
+																	want:       "\">=\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 115, col: 8, offset: 3202},
+																pos: position{line: 115, col: 8, offset: 3206},
 																run: (*parser).callonDocumentRawLine204,
 																expr: &litMatcher{
-																	pos:        position{line: 115, col: 8, offset: 3202},
-																	val:        ">=",
+																	pos:        position{line: 115, col: 8, offset: 3206},
+																	val:        ">",
 																	ignoreCase: false,
-																	want:       "\">=\"",
+																	want:       "\">\"",
 																},
 															},
 														},
@@ -47793,7 +47793,7 @@ func (p *parser) callonDocumentRawLine196() (interface{}, error) {
 }
 
 func (c *current) onDocumentRawLine198() (interface{}, error) {
-	return types.NewLessThanOperand()
+	return types.NewLessOrEqualOperand()
 
 }
 
@@ -47804,7 +47804,7 @@ func (p *parser) callonDocumentRawLine198() (interface{}, error) {
 }
 
 func (c *current) onDocumentRawLine200() (interface{}, error) {
-	return types.NewLessOrEqualOperand()
+	return types.NewLessThanOperand()
 
 }
 
@@ -47815,7 +47815,7 @@ func (p *parser) callonDocumentRawLine200() (interface{}, error) {
 }
 
 func (c *current) onDocumentRawLine202() (interface{}, error) {
-	return types.NewGreaterThanOperand()
+	return types.NewGreaterOrEqualOperand()
 
 }
 
@@ -47826,7 +47826,7 @@ func (p *parser) callonDocumentRawLine202() (interface{}, error) {
 }
 
 func (c *current) onDocumentRawLine204() (interface{}, error) {
-	return types.NewGreaterOrEqualOperand()
+	return types.NewGreaterThanOperand()
 
 }
 
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index b19e7bc..271303e 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -103,18 +103,18 @@ IfevalExpressionOperand <-
     / ("!=" {
         return types.NewNotEqualOperand()
     })
-    / ("<" {
-        return types.NewLessThanOperand()
-    })
     / ("<=" {
         return types.NewLessOrEqualOperand()
     })
-    / (">" {
-        return types.NewGreaterThanOperand()
+    / ("<" {
+        return types.NewLessThanOperand()
     })
     / (">=" {
         return types.NewGreaterOrEqualOperand()
     })
+    / (">" {
+        return types.NewGreaterThanOperand()
+    })
 
 IfevalExpressionValue <- 
     Number
-- 
2.43.0


From 06171f275e157d0ef3bc8ec29a28e1ca129f5d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:59 +0000
Subject: [PATCH 026/143] fix: report the errors of the reader, and do not stop
 at lines of more than 64KB

---
 pkg/parser/document_preprocessing.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pkg/parser/document_preprocessing.go b/pkg/parser/document_preprocessing.go
index add8363..5b5761b 100644
--- a/pkg/parser/document_preprocessing.go
+++ b/pkg/parser/document_preprocessing.go
@@ -30,7 +30,7 @@ func preprocess(ctx *ParseContext, source io.Reader) (string, error) {
 		enabled: true,
 	}
 	c := conditions{}
-	scanner := bufio.NewScanner(source)
+	scanner := newLineScanner(source)
 	t := newBlockDelimiterTracker()
 	for scanner.Scan() {
 		line := scanner.Bytes()
@@ -77,9 +77,22 @@ func preprocess(ctx *ParseContext, source io.Reader) (string, error) {
 			}
 		}
 	}
+	if err := scanner.Err(); err != nil {
+		return "", errors.Wrapf(err, "failed to read %s", ctx.filename)
+	}
 	return b.String(), nil
 }
 
+// maxLineLength the maximum length of a line
+const maxLineLength = 1 << 30
+
+// newLineScanner returns a scanner which reads line by line, without the limit of 64KB of the default ones
+func newLineScanner(source io.Reader) *bufio.Scanner {
+	scanner := bufio.NewScanner(source)
+	scanner.Buffer(nil, maxLineLength)
+	return scanner
+}
+
 type blockDelimiterTracker struct {
 	stack []blockDelimiter
 }
@@ -223,7 +236,7 @@ func contentOf(ctx *ParseContext, incl *types.FileInclusion) (string, bool, erro
 		return "", false, errors.Wrapf(err, "Unresolved directive in %s - %s", ctx.filename, incl.RawText)
 	}
 	result := &strings.Builder{}
-	scanner := bufio.NewScanner(bufio.NewReader(f))
+	scanner := newLineScanner(f)
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("reading %s", filename)
 	}
-- 
2.43.0


From cb786450ed143bff44335f337c1b3d8e0a01f9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:43 +0000
Subject: [PATCH 027/143] fix: do not change the current directory of the
 process while including files

---
 pkg/parser/document_preprocessing.go | 42 +++++++++-------------------
 1 file changed, 13 insertions(+), 29 deletions(-)

diff --git a/pkg/parser/document_preprocessing.go b/pkg/parser/document_preprocessing.go
index 5b5761b..6bca1b5 100644
--- a/pkg/parser/document_preprocessing.go
+++ b/pkg/parser/document_preprocessing.go
@@ -482,52 +482,36 @@ func readAll(scanner *bufio.Scanner, content *strings.Builder) error {
 }
 
 func open(path string) (*os.File, string, func(), error) {
-	wd, err := os.Getwd()
-	if err != nil {
-		return nil, "", func() {}, err
-	}
 	absPath, err := filepath.Abs(path)
 	if err != nil {
-		return nil, "", func() {
-			log.Debugf("restoring current working dir to: %s", wd)
-			if err := os.Chdir(wd); err != nil { // restore the previous working directory
-				log.WithError(err).Error("failed to restore previous working directory")
-			}
-		}, err
+		return nil, "", func() {}, err
 	}
+	// do not change the current working directory, which belongs to the whole process (and to the other conversions)
 	dir := filepath.Dir(absPath)
-	// TODO: we could skip the Chdir part if we retain the absPath in the context,
-	// and use `filepath.Join` to compute the abspath of the file to include
-	if err = os.Chdir(dir); err != nil {
-		return nil, "", func() {
-			log.Debugf("restoring current working dir to: %s", wd)
-			if err := os.Chdir(wd); err != nil { // restore the previous working directory
-				log.WithError(err).Error("failed to restore previous working directory")
-			}
-		}, err
+	if _, err := os.Stat(dir); err != nil {
+		return nil, absPath, func() {}, &os.PathError{Op: "chdir", Path: dir, Err: underlyingError(err)}
 	}
 	// read the file per-se
 	// log.Debugf("opening '%s'", absPath)
 	f, err := os.Open(absPath)
 	if err != nil {
-		return nil, absPath, func() {
-			log.Debugf("restoring current working dir to: %s", wd)
-			if err := os.Chdir(wd); err != nil { // restore the previous working directory
-				log.WithError(err).Error("failed to restore previous working directory")
-			}
-		}, err
+		return nil, absPath, func() {}, err
 	}
 	return f, absPath, func() {
-		log.Debugf("restoring current working dir to: %s", wd)
-		if err := os.Chdir(wd); err != nil { // restore the previous working directory
-			log.WithError(err).Error("failed to restore previous working directory")
-		}
 		if err := f.Close(); err != nil {
 			log.WithError(err).Errorf("failed to close file '%s'", absPath)
 		}
 	}, nil
 }
 
+// underlyingError returns the cause of an error which occurred with a path
+func underlyingError(err error) error {
+	if err, ok := err.(*os.PathError); ok {
+		return err.Err
+	}
+	return err
+}
+
 // IsAsciidoc returns true if the file to include is an asciidoc file (based on the file location extension)
 func IsAsciidoc(path string) bool {
 	ext := filepath.Ext(path)
-- 
2.43.0


From 57c6a31e6f8c5ad421334b5abb974107c16c2d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:52 +0000
Subject: [PATCH 028/143] fix: do not process the inclusions, attributes and
 delimiters which are skipped by a conditional

---
 pkg/parser/document_preprocessing.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/parser/document_preprocessing.go b/pkg/parser/document_preprocessing.go
index 6bca1b5..3e9f437 100644
--- a/pkg/parser/document_preprocessing.go
+++ b/pkg/parser/document_preprocessing.go
@@ -43,6 +43,14 @@ func preprocess(ctx *ParseContext, source io.Reader) (string, error) {
 			// if log.IsLevelEnabled(log.DebugLevel) {
 			// 	log.Debugf("checking element of type '%T'", element)
 			// }
+			if !b.enabled {
+				// only the conditionals matter where the content is skipped
+				switch element.(type) {
+				case types.ConditionalInclusion, *types.EndOfCondition:
+				default:
+					continue
+				}
+			}
 			switch e := element.(type) {
 			case *types.AttributeDeclaration:
 				ctx.attributes.set(e.Name, e.Value)
-- 
2.43.0


From 6ade1d7377729251261d2e068071c322f9dcab94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:22 +0000
Subject: [PATCH 029/143] fix: take the attributes declared in included files
 into account after the inclusion

---
 pkg/parser/document_preprocessing.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/parser/document_preprocessing.go b/pkg/parser/document_preprocessing.go
index 3e9f437..07bd94f 100644
--- a/pkg/parser/document_preprocessing.go
+++ b/pkg/parser/document_preprocessing.go
@@ -61,7 +61,9 @@ func preprocess(ctx *ParseContext, source io.Reader) (string, error) {
 			case *types.RawSection:
 				b.WriteString(ctx.levelOffsets.apply(e))
 			case *types.FileInclusion:
-				f, err := includeFile(ctx.Clone(), e)
+				inclCtx := ctx.Clone()
+				inclCtx.attributes = ctx.attributes // what the file declares applies after it, too
+				f, err := includeFile(inclCtx, e)
 				if err != nil {
 					return "", err
 				}
-- 
2.43.0


From b32773504c4c2e2ba003135d51675336f3b432cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:31 +0000
Subject: [PATCH 030/143] fix: limit the depth of the inclusions, since a file
 may include itself

---
 pkg/parser/context.go                | 2 ++
 pkg/parser/document_preprocessing.go | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/pkg/parser/context.go b/pkg/parser/context.go
index 350500f..4f4452b 100644
--- a/pkg/parser/context.go
+++ b/pkg/parser/context.go
@@ -13,6 +13,7 @@ type ParseContext struct {
 	filename     string
 	opts         []Option
 	levelOffsets levelOffsets
+	includeDepth int
 	attributes   *contextAttributes
 	userMacros   map[string]configuration.MacroTemplate
 	counters     map[string]interface{}
@@ -45,6 +46,7 @@ func (c *ParseContext) Clone() *ParseContext {
 		filename:     c.filename,
 		opts:         options(c.opts).clone(),
 		levelOffsets: c.levelOffsets.clone(),
+		includeDepth: c.includeDepth,
 		attributes:   c.attributes.clone(),
 		userMacros:   c.userMacros,
 		counters:     c.counters,
diff --git a/pkg/parser/document_preprocessing.go b/pkg/parser/document_preprocessing.go
index 07bd94f..20b7cfb 100644
--- a/pkg/parser/document_preprocessing.go
+++ b/pkg/parser/document_preprocessing.go
@@ -136,11 +136,17 @@ func (t *blockDelimiterTracker) withinDelimitedBlock() Option {
 	return GlobalStore(withinDelimitedBlockKey, len(t.stack) > 0)
 }
 
+// maxIncludeDepth the maximum number of nested inclusions (a file may include itself, directly or not)
+const maxIncludeDepth = 64
+
 // replace the content of this FileInclusion element the content of the target file
 // note: there is a trade-off here: we include the whole content of the file in the current
 // fragment, making it potentially big, but at the same time we ensure that the context
 // of the inclusion (for example, within a delimited block) is not lost.
 func includeFile(ctx *ParseContext, incl *types.FileInclusion) (string, error) {
+	if ctx.includeDepth++; ctx.includeDepth > maxIncludeDepth {
+		return "", errors.Errorf("Unresolved directive in %s - %s: more than %d nested inclusions", ctx.filename, incl.RawText, maxIncludeDepth)
+	}
 	ctx.opts = append(ctx.opts, GlobalStore(documentHeaderKey, false))
 	if l, ok := incl.GetLocation().Path.([]interface{}); ok {
 		l, err := replaceAttributeRefsInSlicedValue(ctx, l)
-- 
2.43.0


From d000d48a2a353e976737e2f273dcc8cc499ffe4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:50 +0000
Subject: [PATCH 031/143] fix: render the contents of verse paragraphs

---
 pkg/renderer/sgml/delimited_block_verse.go | 2 +-
 pkg/renderer/sgml/render_plain_text.go     | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/renderer/sgml/delimited_block_verse.go b/pkg/renderer/sgml/delimited_block_verse.go
index 6254420..ab516ea 100644
--- a/pkg/renderer/sgml/delimited_block_verse.go
+++ b/pkg/renderer/sgml/delimited_block_verse.go
@@ -46,7 +46,7 @@ func (r *sgmlRenderer) renderVerseBlock(ctx *context, b *types.DelimitedBlock) (
 
 func (r *sgmlRenderer) renderVerseParagraph(ctx *context, p *types.Paragraph) (string, error) {
 	log.Debug("rendering verse paragraph...")
-	content, err := RenderParagraphElements(p)
+	content, err := r.renderParagraphElements(ctx, p)
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render verse paragraph lines")
 	}
diff --git a/pkg/renderer/sgml/render_plain_text.go b/pkg/renderer/sgml/render_plain_text.go
index 9a9c4fd..ff318d8 100644
--- a/pkg/renderer/sgml/render_plain_text.go
+++ b/pkg/renderer/sgml/render_plain_text.go
@@ -30,7 +30,9 @@ func WithoutEscape() Option {
 }
 
 func RenderParagraphElements(p *types.Paragraph) (string, error) {
-	r := &plaintextRenderer{}
+	r := &plaintextRenderer{
+		escape: escapeString,
+	}
 	buf := &strings.Builder{}
 	for _, e := range p.Elements {
 		renderedElement, err := r.render(e)
-- 
2.43.0


From 779003b63d6421c995ba4dc35a938994bfd34116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:14 +0000
Subject: [PATCH 032/143] fix: accept document authors with an email address
 and no name

---
 pkg/renderer/sgml/sgml.go |  8 +++++---
 pkg/types/types.go        | 22 +++++++++++++++-------
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/pkg/renderer/sgml/sgml.go b/pkg/renderer/sgml/sgml.go
index 511cf50..0739dce 100644
--- a/pkg/renderer/sgml/sgml.go
+++ b/pkg/renderer/sgml/sgml.go
@@ -292,9 +292,11 @@ func (r *sgmlRenderer) renderDocumentID(doc *types.Document) string {
 func (r *sgmlRenderer) renderAuthors(_ *context, doc *types.Document) string { // TODO: pass header instead of doc
 	if header, _ := doc.Header(); header != nil {
 		if a := header.Authors(); a != nil {
-			authorStrs := make([]string, len(a))
-			for i, author := range a {
-				authorStrs[i] = author.FullName()
+			authorStrs := make([]string, 0, len(a))
+			for _, author := range a {
+				if name := author.FullName(); name != "" {
+					authorStrs = append(authorStrs, name)
+				}
 			}
 			return strings.Join(authorStrs, "; ")
 
diff --git a/pkg/types/types.go b/pkg/types/types.go
index cfbdc7e..e8d4a8b 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -453,12 +453,14 @@ func (authors DocumentAuthors) Expand() Attributes {
 	for i, author := range authors {
 		result[key("author", i)] = author.FullName()
 		result[key("authorinitials", i)] = author.Initials()
-		result[key("firstname", i)] = author.FirstName
-		if author.MiddleName != "" {
-			result[key("middlename", i)] = author.MiddleName
-		}
-		if author.LastName != "" {
-			result[key("lastname", i)] = author.LastName
+		if author.DocumentAuthorFullName != nil {
+			result[key("firstname", i)] = author.FirstName
+			if author.MiddleName != "" {
+				result[key("middlename", i)] = author.MiddleName
+			}
+			if author.LastName != "" {
+				result[key("lastname", i)] = author.LastName
+			}
 		}
 		if author.Email != "" {
 			result[key("email", i)] = author.Email
@@ -484,7 +486,7 @@ func initial(s string) string {
 	return ""
 }
 
-// DocumentAuthor a document author
+// DocumentAuthor a document author (without a full name if only the email was specified)
 type DocumentAuthor struct {
 	*DocumentAuthorFullName
 	Email string
@@ -527,6 +529,9 @@ func NewDocumentAuthorFullName(part1 string, part2, part3 interface{}) (*Documen
 }
 
 func (n *DocumentAuthorFullName) FullName() string {
+	if n == nil {
+		return ""
+	}
 	result := &strings.Builder{}
 	result.WriteString(n.FirstName)
 	if n.MiddleName != "" {
@@ -541,6 +546,9 @@ func (n *DocumentAuthorFullName) FullName() string {
 }
 
 func (n *DocumentAuthorFullName) Initials() string {
+	if n == nil {
+		return ""
+	}
 	return strings.Join([]string{
 		initial(n.FirstName),
 		initial(n.MiddleName),
-- 
2.43.0


From 6746468774db9bd4a896cc236f0be4bbd9ad7f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:02 +0000
Subject: [PATCH 033/143] fix: number example blocks with a title only

---
 pkg/renderer/sgml/delimited_block_example.go | 28 +++++++++++---------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/pkg/renderer/sgml/delimited_block_example.go b/pkg/renderer/sgml/delimited_block_example.go
index d0f5be7..2e4b3a0 100644
--- a/pkg/renderer/sgml/delimited_block_example.go
+++ b/pkg/renderer/sgml/delimited_block_example.go
@@ -21,24 +21,26 @@ func (r *sgmlRenderer) renderExampleBlock(ctx *context, b *types.DelimitedBlock)
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render example block roles")
 	}
-	c, found := b.Attributes.GetAsString(types.AttrCaption)
-	if !found {
-		c, found = ctx.attributes.GetAsString(types.AttrExampleCaption)
-		if found && c != "" {
-			c += " {counter:example-number}. "
-		}
-	}
-	// TODO: Replace this hack when we have attribute substitution fully working
-	if strings.Contains(c, "{counter:example-number}") {
-		number = ctx.GetAndIncrementExampleBlockCounter()
-		c = strings.ReplaceAll(c, "{counter:example-number}", strconv.Itoa(number))
-	}
 	title, err := r.renderElementTitle(ctx, b.Attributes)
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render example block title")
 	}
 	caption := &strings.Builder{}
-	caption.WriteString(c)
+	if b.Attributes.Has(types.AttrTitle) { // blocks without a title are not numbered
+		c, found := b.Attributes.GetAsString(types.AttrCaption)
+		if !found {
+			c, found = ctx.attributes.GetAsString(types.AttrExampleCaption)
+			if found && c != "" {
+				c += " {counter:example-number}. "
+			}
+		}
+		// TODO: Replace this hack when we have attribute substitution fully working
+		if strings.Contains(c, "{counter:example-number}") {
+			number = ctx.GetAndIncrementExampleBlockCounter()
+			c = strings.ReplaceAll(c, "{counter:example-number}", strconv.Itoa(number))
+		}
+		caption.WriteString(c)
+	}
 	return r.execute(r.exampleBlock, struct {
 		Context       *context
 		ID            string
-- 
2.43.0


From 15bf4184c712ed058fd2b2a8c4e19cde15072570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:31 +0000
Subject: [PATCH 034/143] fix: nest unordered lists with dashes in other ones

---
 .../document_processing_arrange_lists.go      | 48 +++++++++++++++++--
 1 file changed, 43 insertions(+), 5 deletions(-)

diff --git a/pkg/parser/document_processing_arrange_lists.go b/pkg/parser/document_processing_arrange_lists.go
index 06681a6..ffaf696 100644
--- a/pkg/parser/document_processing_arrange_lists.go
+++ b/pkg/parser/document_processing_arrange_lists.go
@@ -93,14 +93,19 @@ content:
 
 		switch e := element.(type) {
 		case types.ListElement:
+			dash := isDash(e)
 			// adjust style/level if needed
-			e.AdjustStyle(lists.get())
+			if dash {
+				e.AdjustStyle(lists.get())
+			} else {
+				e.AdjustStyle(lists.getSkipDashes())
+			}
 			list, err := types.NewList(e)
 			if err != nil {
 				return nil, errors.Wrap(err, "unable to assemble list elements")
 			}
 			log.Debugf("adding a new list of kind '%s'", list.Kind)
-			if err := lists.push(list); err != nil {
+			if err := lists.push(list, dash); err != nil {
 				return nil, errors.Wrap(err, "unable to assemble list elements")
 			}
 		default:
@@ -111,7 +116,13 @@ content:
 }
 
 type listStack struct {
-	stack []*types.List
+	stack  []*types.List
+	dashes []bool // the unordered lists with dashes (the style of their elements may have been adjusted)
+}
+
+func isDash(element interface{}) bool {
+	e, ok := element.(*types.UnorderedListElement)
+	return ok && e.BulletStyle == types.Dash
 }
 
 func newListStack() *listStack {
@@ -127,7 +138,7 @@ func (s *listStack) root() *types.List {
 	return nil
 }
 
-func (s *listStack) push(l *types.List) error {
+func (s *listStack) push(l *types.List, dash bool) error {
 	// also append to last element following the path from `root`
 	if len(s.stack) > 0 {
 		if err := s.stack[len(s.stack)-1].LastElement().AddElement(l); err != nil {
@@ -135,6 +146,7 @@ func (s *listStack) push(l *types.List) error {
 		}
 	}
 	s.stack = append(s.stack, l)
+	s.dashes = append(s.dashes, dash)
 	// if log.IsLevelEnabled(log.DebugLevel) {
 	// 	log.Debugf("added list to stack (len=%d)", len(s.stack))
 	// }
@@ -149,6 +161,16 @@ func (s *listStack) get() *types.List {
 	return s.stack[len(s.stack)-1]
 }
 
+// returns the top element of the stack, regardless of the unordered lists with dashes
+func (s *listStack) getSkipDashes() *types.List {
+	for i := len(s.stack) - 1; i >= 0; i-- {
+		if !s.dashes[i] {
+			return s.stack[i]
+		}
+	}
+	return nil
+}
+
 // returns and removes the top element of the stack
 func (s *listStack) pop() *types.List {
 	if len(s.stack) == 0 {
@@ -156,6 +178,7 @@ func (s *listStack) pop() *types.List {
 	}
 	l := s.stack[len(s.stack)-1]
 	s.stack = s.stack[:len(s.stack)-1]
+	s.dashes = s.dashes[:len(s.dashes)-1]
 	return l
 }
 
@@ -170,14 +193,29 @@ func (s *listStack) parentFor(element interface{}) *types.List {
 	}
 	for i := len(s.stack) - 1; i >= 0; i-- {
 		// log.Debugf("checking stack at index %d", i)
-		if l := s.stack[i]; l.CanAddElement(element) {
+		if l := s.stack[i]; s.canAddElement(i, element) {
 			// if match, then `pop` all
 			// log.Debugf("found matching list of kind '%s' for element of type '%T' at index %d", l.Kind, element, i)
 			// clears the following content off the stack
 			s.stack = s.stack[:i+1]
+			s.dashes = s.dashes[:i+1]
 			return l
 		}
 	}
 	// log.Debugf("can't add element of type '%T' to any list in the stack", element)
 	return nil
 }
+
+// checks if the given element can be added to the list at the given index in the stack
+func (s *listStack) canAddElement(i int, element interface{}) bool {
+	l := s.stack[i]
+	if e, ok := element.(*types.UnorderedListElement); ok && l.Kind == types.UnorderedListKind {
+		if isDash(e) != s.dashes[i] {
+			return false
+		}
+		if o, ok := l.LastElement().(*types.UnorderedListElement); ok && s.dashes[i] {
+			e.BulletStyle = o.BulletStyle
+		}
+	}
+	return l.CanAddElement(element)
+}
-- 
2.43.0


From 9a1a3977e048c0526d2b3d9c743ea7ce0a05d6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:22 +0000
Subject: [PATCH 035/143] fix: accept '-' and '_' in the names of footnotes

---
 pkg/parser/parser.go  | 12 ++++++------
 pkg/parser/parser.peg |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 7d0598c..3345089 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -20247,13 +20247,14 @@ var g = &grammar{
 							expr: &zeroOrOneExpr{
 								pos: position{line: 1331, col: 35, offset: 42167},
 								expr: &actionExpr{
-									pos: position{line: 2746, col: 14, offset: 87408},
+									pos: position{line: 1335, col: 16, offset: 42327},
 									run: (*parser).callonInlineFootnote6,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2746, col: 14, offset: 87408},
+										pos: position{line: 1335, col: 16, offset: 42327},
 										expr: &charClassMatcher{
-											pos:        position{line: 2746, col: 14, offset: 87408},
-											val:        "[\\pL\\pN]",
+											pos:        position{line: 1335, col: 16, offset: 42327},
+											val:        "[_-\\pL\\pN]",
+											chars:      []rune{'_', '-'},
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
 											inverted:   false,
@@ -57694,7 +57695,6 @@ func (p *parser) callonInlineIcon1() (interface{}, error) {
 
 func (c *current) onInlineFootnote6() (interface{}, error) {
 	return string(c.text), nil
-
 }
 
 func (p *parser) callonInlineFootnote6() (interface{}, error) {
@@ -57704,7 +57704,7 @@ func (p *parser) callonInlineFootnote6() (interface{}, error) {
 }
 
 func (c *current) onInlineFootnote1(ref, elements interface{}) (interface{}, error) {
-	// TODO: use only this rule with `ref:(FootnoteRef)?`
+	// text or reference
 	return types.NewFootnote(ref, elements.([]interface{}))
 
 }
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 271303e..43c0107 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -1328,11 +1328,11 @@ InlineIcon <- "icon:" icon:([\pL\pN_-]+ { return string(c.text), nil }) attribut
 // -------------------------------------------------------------------------------------------------------------------------------
 // Inline Foot Notes
 // -------------------------------------------------------------------------------------------------------------------------------
-InlineFootnote <- "footnote:" ref:(FootnoteRef)? "[" elements:(FootnoteElements) "]" { // TODO: use only this rule with `ref:(FootnoteRef)?`
+InlineFootnote <- "footnote:" ref:(FootnoteRef)? "[" elements:(FootnoteElements) "]" { // text or reference
         return types.NewFootnote(ref, elements.([]interface{}))
     }
 
-FootnoteRef <- Alphanums
+FootnoteRef <- [\pL\pN_-]+ { return string(c.text), nil }
 
 FootnoteElements <- elements:(FootnoteElement)* {
         return types.NewInlineElements(elements.([]interface{}))
-- 
2.43.0


From e43af7cf2d7038547f5891385f301fa024f67b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:17 +0000
Subject: [PATCH 036/143] fix: use the values of attributes which have special
 characters

---
 pkg/types/attributes.go | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/pkg/types/attributes.go b/pkg/types/attributes.go
index 2a89e9d..d8a5a9e 100644
--- a/pkg/types/attributes.go
+++ b/pkg/types/attributes.go
@@ -496,8 +496,11 @@ func (a Attributes) HasOption(key string) bool {
 // GetAsString gets the string value for the given key (+ `true`),
 // or empty string (+ `false`) if none was found
 func (a Attributes) GetAsString(k string) (string, bool) {
-	if value, ok := a[k].(string); ok {
+	switch value := a[k].(type) {
+	case string:
 		return value, true
+	case []interface{}:
+		return stringifyAttributeValue(value)
 	}
 	// log.Warnf("no entry for key '%s' in attributes, or value is not a string: '%T'", k, a[k])
 	return "", false
@@ -538,11 +541,26 @@ func (a Attributes) GetAsStringWithDefault(key, defaultValue string) string {
 		if value == nil {
 			return "" // nil present means attribute was reset
 		}
-		if value, ok := value.(string); ok {
+		if value, ok := a.GetAsString(key); ok {
 			return value
-		} else if v, ok := a[key]; ok {
-			return fmt.Sprintf("%v", v)
 		}
+		return fmt.Sprintf("%v", value)
 	}
 	return defaultValue
 }
+
+// stringifyAttributeValue returns the text of a value which was split because of its special characters
+func stringifyAttributeValue(elements []interface{}) (string, bool) {
+	result := &strings.Builder{}
+	for _, e := range elements {
+		switch e := e.(type) {
+		case *StringElement:
+			result.WriteString(e.Content)
+		case *SpecialCharacter:
+			result.WriteString(e.Name)
+		default:
+			return "", false
+		}
+	}
+	return result.String(), true
+}
-- 
2.43.0


From 1ad006465b3b9ad8289f5069c7d572030241772b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:17 +0000
Subject: [PATCH 037/143] fix: escape the values of the attributes in the
 output

---
 pkg/renderer/sgml/element_role.go             |  4 +--
 pkg/renderer/sgml/html5/article.go            |  8 ++---
 .../html5/delimited_block_example_tmpl.go     |  2 +-
 .../delimited_block_markdown_quote_tmpl.go    |  4 +--
 .../sgml/html5/delimited_block_quote_tmpl.go  |  4 +--
 .../sgml/html5/delimited_block_source_tmpl.go |  6 ++--
 .../sgml/html5/delimited_block_verse_tmpl.go  |  4 +--
 pkg/renderer/sgml/html5/document_details.go   | 10 +++----
 pkg/renderer/sgml/html5/icon.go               | 30 +++++++++----------
 pkg/renderer/sgml/html5/image.go              |  6 ++--
 pkg/renderer/sgml/html5/link.go               |  2 +-
 pkg/renderer/sgml/html5/ordered_list.go       |  6 ++--
 pkg/renderer/sgml/html5/paragraph.go          |  8 ++---
 pkg/renderer/sgml/html5/table.go              |  8 ++---
 pkg/renderer/sgml/paragraph.go                |  2 +-
 pkg/renderer/sgml/xhtml5/article.go           |  8 ++---
 .../delimited_block_markdown_quote_tmpl.go    |  4 +--
 .../sgml/xhtml5/delimited_block_quote_tmpl.go |  4 +--
 .../sgml/xhtml5/delimited_block_verse_tmpl.go |  4 +--
 pkg/renderer/sgml/xhtml5/document_details.go  | 10 +++----
 pkg/renderer/sgml/xhtml5/icon.go              | 16 +++++-----
 pkg/renderer/sgml/xhtml5/image.go             | 20 ++++++-------
 pkg/renderer/sgml/xhtml5/paragraph.go         |  8 ++---
 pkg/renderer/sgml/xhtml5/table.go             |  8 ++---
 24 files changed, 93 insertions(+), 93 deletions(-)

diff --git a/pkg/renderer/sgml/element_role.go b/pkg/renderer/sgml/element_role.go
index 7cb696f..bfe0d3a 100644
--- a/pkg/renderer/sgml/element_role.go
+++ b/pkg/renderer/sgml/element_role.go
@@ -26,10 +26,10 @@ func (r *sgmlRenderer) renderElementRoles(ctx *context, attrs types.Attributes)
 func (r *sgmlRenderer) renderImageRoles(ctx *context, attrs types.Attributes) (string, error) {
 	var result []string
 	if val, found := attrs.GetAsString(types.AttrFloat); found {
-		result = append(result, val)
+		result = append(result, escapeString(val))
 	}
 	if val, found := attrs.GetAsString(types.AttrImageAlign); found {
-		result = append(result, "text-"+val)
+		result = append(result, "text-"+escapeString(val))
 	}
 	if roles, ok := attrs[types.AttrRoles].(types.Roles); ok {
 		for _, e := range roles {
diff --git a/pkg/renderer/sgml/html5/article.go b/pkg/renderer/sgml/html5/article.go
index 43ba90c..5514c93 100644
--- a/pkg/renderer/sgml/html5/article.go
+++ b/pkg/renderer/sgml/html5/article.go
@@ -8,9 +8,9 @@ const (
 <meta http-equiv="X-UA-Compatible" content="IE=edge">
 <meta name="viewport" content="width=device-width, initial-scale=1.0">
 {{ if .Generator }}<meta name="generator" content="{{ .Generator }}">
-{{ end }}{{ if .Description }}<meta name="description" content="{{ .Description }}">
-{{ end }}{{ if .Authors }}<meta name="author" content="{{ .Authors }}">
-{{ end }}{{ range $css := .CSS }}<link type="text/css" rel="stylesheet" href="{{ $css }}">
+{{ end }}{{ if .Description }}<meta name="description" content="{{ escape .Description }}">
+{{ end }}{{ if .Authors }}<meta name="author" content="{{ escape .Authors }}">
+{{ end }}{{ range $css := .CSS }}<link type="text/css" rel="stylesheet" href="{{ escape $css }}">
 {{ end }}<title>{{ .Title }}</title>
 </head>
 <body{{ if .ID }} id="{{ .ID }}"{{ end }} class="{{ .Doctype }}{{ if .Roles }} {{ .Roles }}{{ end }}">
@@ -18,7 +18,7 @@ const (
 {{ .Content }}</div>
 {{ if .IncludeHTMLBodyFooter }}<div id="footer">
 <div id="footer-text">
-{{ if .RevNumber }}Version {{ .RevNumber }}<br>
+{{ if .RevNumber }}Version {{ escape .RevNumber }}<br>
 {{ end }}Last updated {{ .LastUpdated }}
 </div>
 </div>
diff --git a/pkg/renderer/sgml/html5/delimited_block_example_tmpl.go b/pkg/renderer/sgml/html5/delimited_block_example_tmpl.go
index b718cd9..cfa2f47 100644
--- a/pkg/renderer/sgml/html5/delimited_block_example_tmpl.go
+++ b/pkg/renderer/sgml/html5/delimited_block_example_tmpl.go
@@ -3,7 +3,7 @@ package html5
 const (
 	exampleBlockTmpl = `<div {{ if .ID }}id="{{ .ID }}" {{ end }}` +
 		"class=\"exampleblock{{ if .Roles }} {{ .Roles }}{{ end }}\">\n" +
-		"{{ if .Title }}<div class=\"title\">{{ .Caption }}{{ .Title }}</div>\n{{ end }}" +
+		"{{ if .Title }}<div class=\"title\">{{ escape .Caption }}{{ .Title }}</div>\n{{ end }}" +
 		"<div class=\"content\">\n" +
 		"{{ .Content }}" +
 		"</div>\n" +
diff --git a/pkg/renderer/sgml/html5/delimited_block_markdown_quote_tmpl.go b/pkg/renderer/sgml/html5/delimited_block_markdown_quote_tmpl.go
index 0270b2e..2a74c61 100644
--- a/pkg/renderer/sgml/html5/delimited_block_markdown_quote_tmpl.go
+++ b/pkg/renderer/sgml/html5/delimited_block_markdown_quote_tmpl.go
@@ -10,8 +10,8 @@ const (
 		"</div>\n{{ end }}" +
 		"</blockquote>\n" +
 		"{{ if .Attribution.First }}<div class=\"attribution\">\n" +
-		"&#8212; {{ .Attribution.First }}" +
-		"{{ if .Attribution.Second }}<br>\n<cite>{{ .Attribution.Second }}</cite>{{ end }}\n" +
+		"&#8212; {{ escape .Attribution.First }}" +
+		"{{ if .Attribution.Second }}<br>\n<cite>{{ escape .Attribution.Second }}</cite>{{ end }}\n" +
 		"</div>\n{{ end }}" +
 		"</div>\n"
 )
diff --git a/pkg/renderer/sgml/html5/delimited_block_quote_tmpl.go b/pkg/renderer/sgml/html5/delimited_block_quote_tmpl.go
index acf01f3..f666490 100644
--- a/pkg/renderer/sgml/html5/delimited_block_quote_tmpl.go
+++ b/pkg/renderer/sgml/html5/delimited_block_quote_tmpl.go
@@ -8,8 +8,8 @@ const (
 		"{{ .Content }}" +
 		"</blockquote>\n" +
 		"{{ if .Attribution.First }}<div class=\"attribution\">\n" +
-		"&#8212; {{ .Attribution.First }}" +
-		"{{ if .Attribution.Second }}<br>\n<cite>{{ .Attribution.Second }}</cite>{{ end }}\n" +
+		"&#8212; {{ escape .Attribution.First }}" +
+		"{{ if .Attribution.Second }}<br>\n<cite>{{ escape .Attribution.Second }}</cite>{{ end }}\n" +
 		"</div>\n{{ end }}" +
 		"</div>\n"
 )
diff --git a/pkg/renderer/sgml/html5/delimited_block_source_tmpl.go b/pkg/renderer/sgml/html5/delimited_block_source_tmpl.go
index b3dfcf4..ae6e33d 100644
--- a/pkg/renderer/sgml/html5/delimited_block_source_tmpl.go
+++ b/pkg/renderer/sgml/html5/delimited_block_source_tmpl.go
@@ -6,12 +6,12 @@ const (
 		"{{ if .Title }}<div class=\"title\">{{ .Title }}</div>\n{{ end }}" +
 		"<div class=\"content\">\n" +
 		"<pre class=\"" +
-		`{{ if .SyntaxHighlighter }}{{ .SyntaxHighlighter }} {{ end }}` +
+		`{{ if .SyntaxHighlighter }}{{ escape .SyntaxHighlighter }} {{ end }}` +
 		`highlight` +
 		`{{ if .Nowrap }} nowrap{{ end }}` + // space before the `nowrap` option as it's the last value in the 'class' attribute
 		`">` +
-		`<code{{ if .Language }}{{ if not .SyntaxHighlighter }} class="language-{{ .Language}}"{{ end }} ` +
-		`data-lang="{{ .Language}}"{{ end }}>` +
+		`<code{{ if .Language }}{{ if not .SyntaxHighlighter }} class="language-{{ escape .Language }}"{{ end }} ` +
+		`data-lang="{{ escape .Language }}"{{ end }}>` +
 		"{{ .Content }}</code></pre>\n" +
 		"</div>\n" +
 		"</div>\n"
diff --git a/pkg/renderer/sgml/html5/delimited_block_verse_tmpl.go b/pkg/renderer/sgml/html5/delimited_block_verse_tmpl.go
index 24b0ef6..85ef49f 100644
--- a/pkg/renderer/sgml/html5/delimited_block_verse_tmpl.go
+++ b/pkg/renderer/sgml/html5/delimited_block_verse_tmpl.go
@@ -5,8 +5,8 @@ const (
 		"class=\"verseblock{{ if .Roles }} {{ .Roles }}{{ end }}\">\n" +
 		"{{ if .Title }}<div class=\"title\">{{ .Title }}</div>\n{{ end }}" +
 		"<pre class=\"content\">{{ .Content }}</pre>\n" +
-		"{{ if .Attribution.First }}<div class=\"attribution\">\n&#8212; {{ .Attribution.First }}" +
-		"{{ if .Attribution.Second }}<br>\n<cite>{{ .Attribution.Second }}</cite>{{ end }}\n" +
+		"{{ if .Attribution.First }}<div class=\"attribution\">\n&#8212; {{ escape .Attribution.First }}" +
+		"{{ if .Attribution.Second }}<br>\n<cite>{{ escape .Attribution.Second }}</cite>{{ end }}\n" +
 		"</div>\n{{ end }}" +
 		"</div>\n"
 )
diff --git a/pkg/renderer/sgml/html5/document_details.go b/pkg/renderer/sgml/html5/document_details.go
index e4e17bc..e1221d5 100644
--- a/pkg/renderer/sgml/html5/document_details.go
+++ b/pkg/renderer/sgml/html5/document_details.go
@@ -3,12 +3,12 @@ package html5
 const (
 	documentDetailsTmpl = `<div class="details">{{ if .Authors }}
 {{ .Authors }}{{ end }}{{ if .RevNumber }}
-<span id="revnumber">{{ if .RevLabel }}{{ .RevLabel }} {{ end }}{{ .RevNumber }}{{ if .RevDate }},{{ end }}</span>{{ end }}{{ if .RevDate }}
-<span id="revdate">{{ .RevDate }}</span>{{ end }}{{ if .RevRemark }}
-<br><span id="revremark">{{ .RevRemark }}</span>{{ end }}
+<span id="revnumber">{{ if .RevLabel }}{{ escape .RevLabel }} {{ end }}{{ escape .RevNumber }}{{ if .RevDate }},{{ end }}</span>{{ end }}{{ if .RevDate }}
+<span id="revdate">{{ escape .RevDate }}</span>{{ end }}{{ if .RevRemark }}
+<br><span id="revremark">{{ escape .RevRemark }}</span>{{ end }}
 </div>
 `
 
-	documentAuthorDetailsTmpl = `{{ if .Name }}<span id="author{{ .Index }}" class="author">{{ .Name }}</span><br>{{ end }}{{ if .Email }}
-<span id="email{{ .Index }}" class="email"><a href="mailto:{{ .Email }}">{{ .Email }}</a></span><br>{{ end }}`
+	documentAuthorDetailsTmpl = `{{ if .Name }}<span id="author{{ .Index }}" class="author">{{ escape .Name }}</span><br>{{ end }}{{ if .Email }}
+<span id="email{{ .Index }}" class="email"><a href="mailto:{{ escape .Email }}">{{ escape .Email }}</a></span><br>{{ end }}`
 )
diff --git a/pkg/renderer/sgml/html5/icon.go b/pkg/renderer/sgml/html5/icon.go
index c35eeda..8c33f51 100644
--- a/pkg/renderer/sgml/html5/icon.go
+++ b/pkg/renderer/sgml/html5/icon.go
@@ -5,29 +5,29 @@ const (
 	// is the Alt text, and defaults to the icon type.  Unlike asciidoctor, we do place class settings on
 	// the image to match rotate, flip, and size, allowing images to be manipulated with css style just
 	// like the icons can.  We also allow for an ID to be placed on the icon, as another enhancement.
-	inlineIconTmpl = `<span {{ if .ID }}id="{{ .ID }}" {{ end}}class="icon{{ if .Role }} {{ .Role }}{{ end }}">` +
-		`{{ if .Link }}<a class="image" href="{{ .Link }}"{{ if .Window }} target="{{ .Window }}"{{ end }}>{{ end }}` +
+	inlineIconTmpl = `<span {{ if .ID }}id="{{ .ID }}" {{ end}}class="icon{{ if .Role }} {{ escape .Role }}{{ end }}">` +
+		`{{ if .Link }}<a class="image" href="{{ escape .Link }}"{{ if .Window }} target="{{ escape .Window }}"{{ end }}>{{ end }}` +
 		`{{ .Icon }}` +
 		`{{ if .Link }}</a>{{ end }}` +
 		`</span>`
 
-	iconImageTmpl = `<img src="{{ .Src }}"` +
-		`{{ if .Alt }} alt="{{ .Alt }}"{{ end }}` +
-		`{{ if .Width }} width="{{ .Width }}"{{ end }}` +
-		`{{ if .Height }} height="{{ .Height }}"{{ end }}` +
-		`{{ if .Title }} title="{{ .Title }}"{{ end }}` +
+	iconImageTmpl = `<img src="{{ escape .Src }}"` +
+		`{{ if .Alt }} alt="{{ escape .Alt }}"{{ end }}` +
+		`{{ if .Width }} width="{{ escape .Width }}"{{ end }}` +
+		`{{ if .Height }} height="{{ escape .Height }}"{{ end }}` +
+		`{{ if .Title }} title="{{ escape .Title }}"{{ end }}` +
 		`{{ if or .Size .Rotate .Flip }} class="` +
-		`{{ if .Size }}fa-{{ .Size }}{{ end }}` +
-		`{{ if .Rotate }}{{ if .Size }} {{ end }}fa-rotate-{{ .Rotate }}{{ end }}` +
-		`{{ if .Flip }}{{ if or .Size .Rotate }} {{ end }}fa-flip-{{ .Flip }}{{ end }}` +
+		`{{ if .Size }}fa-{{ escape .Size }}{{ end }}` +
+		`{{ if .Rotate }}{{ if .Size }} {{ end }}fa-rotate-{{ escape .Rotate }}{{ end }}` +
+		`{{ if .Flip }}{{ if or .Size .Rotate }} {{ end }}fa-flip-{{ escape .Flip }}{{ end }}` +
 		`"{{ end }}>`
 
 	iconFontTmpl = `<i class="fa` +
 		`{{ if .Admonition }} icon-{{ .Class }}{{ else }} fa-{{ .Class }}{{ end }}` +
-		`{{ if .Size }} fa-{{ .Size }}{{ end }}` +
-		`{{ if .Rotate }} fa-rotate-{{ .Rotate }}{{ end }}` +
-		`{{ if .Flip }} fa-flip-{{ .Flip }}{{ end }}"` +
-		`{{ if .Title }} title="{{ .Title }}"{{ end }}></i>`
+		`{{ if .Size }} fa-{{ escape .Size }}{{ end }}` +
+		`{{ if .Rotate }} fa-rotate-{{ escape .Rotate }}{{ end }}` +
+		`{{ if .Flip }} fa-flip-{{ escape .Flip }}{{ end }}"` +
+		`{{ if .Title }} title="{{ escape .Title }}"{{ end }}></i>`
 
-	iconTextTmpl = `{{ if .Admonition }}<div class="title">{{ .Alt }}</div>{{ else }}[{{ .Alt }}]{{ end }}`
+	iconTextTmpl = `{{ if .Admonition }}<div class="title">{{ escape .Alt }}</div>{{ else }}[{{ escape .Alt }}]{{ end }}`
 )
diff --git a/pkg/renderer/sgml/html5/image.go b/pkg/renderer/sgml/html5/image.go
index 023fd64..b1fc675 100644
--- a/pkg/renderer/sgml/html5/image.go
+++ b/pkg/renderer/sgml/html5/image.go
@@ -3,11 +3,11 @@ package html5
 const (
 	blockImageTmpl = `<div{{ if .ID }} id="{{ .ID }}"{{ end }} class="imageblock{{ if .Roles }} {{ .Roles }}{{ end }}">
 <div class="content">
-{{ if ne .Href "" }}<a class="image" href="{{ .Href }}">{{ end }}<img src="{{ .Src }}" alt="{{ .Alt }}"{{ if .Width }} width="{{ .Width }}"{{ end }}{{ if .Height }} height="{{ .Height }}"{{ end }}>{{ if ne .Href "" }}</a>{{ end }}
+{{ if ne .Href "" }}<a class="image" href="{{ escape .Href }}">{{ end }}<img src="{{ .Src }}" alt="{{ escape .Alt }}"{{ if .Width }} width="{{ escape .Width }}"{{ end }}{{ if .Height }} height="{{ escape .Height }}"{{ end }}>{{ if ne .Href "" }}</a>{{ end }}
 </div>{{ if .Title }}
-<div class="title">{{ .Caption }}{{ .Title }}</div>
+<div class="title">{{ escape .Caption }}{{ .Title }}</div>
 {{ else }}
 {{ end }}</div>
 `
-	inlineImageTmpl = `<span class="image{{ if .Roles }} {{ .Roles }}{{ end }}">{{ if ne .Href "" }}<a class="image" href="{{ .Href }}">{{ end }}<img src="{{ .Src }}" alt="{{ .Alt }}"{{ if .Width }} width="{{ .Width }}"{{ end }}{{ if .Height }} height="{{ .Height }}"{{ end }}{{ if .Title }} title="{{ .Title }}"{{ end }}>{{ if ne .Href "" }}</a>{{ end }}</span>`
+	inlineImageTmpl = `<span class="image{{ if .Roles }} {{ .Roles }}{{ end }}">{{ if ne .Href "" }}<a class="image" href="{{ escape .Href }}">{{ end }}<img src="{{ .Src }}" alt="{{ escape .Alt }}"{{ if .Width }} width="{{ escape .Width }}"{{ end }}{{ if .Height }} height="{{ escape .Height }}"{{ end }}{{ if .Title }} title="{{ escape .Title }}"{{ end }}>{{ if ne .Href "" }}</a>{{ end }}</span>`
 )
diff --git a/pkg/renderer/sgml/html5/link.go b/pkg/renderer/sgml/html5/link.go
index 51d989e..1b6d0a1 100644
--- a/pkg/renderer/sgml/html5/link.go
+++ b/pkg/renderer/sgml/html5/link.go
@@ -1,5 +1,5 @@
 package html5
 
 const (
-	linkTmpl = `<a{{ if .ID }} id="{{ .ID }}"{{ end }}{{ if .URL }} href="{{ .URL }}"{{ end }}{{if .Class}} class="{{ .Class }}"{{ end }}{{if .Target}} target="{{ .Target }}"{{ end }}{{ if .NoOpener}} rel="noopener"{{ end }}>{{ .Text }}</a>`
+	linkTmpl = `<a{{ if .ID }} id="{{ escape .ID }}"{{ end }}{{ if .URL }} href="{{ .URL }}"{{ end }}{{if .Class}} class="{{ .Class }}"{{ end }}{{if .Target}} target="{{ escape .Target }}"{{ end }}{{ if .NoOpener}} rel="noopener"{{ end }}>{{ .Text }}</a>`
 )
diff --git a/pkg/renderer/sgml/html5/ordered_list.go b/pkg/renderer/sgml/html5/ordered_list.go
index dd24c67..c2c9bb1 100644
--- a/pkg/renderer/sgml/html5/ordered_list.go
+++ b/pkg/renderer/sgml/html5/ordered_list.go
@@ -2,14 +2,14 @@ package html5
 
 const (
 	orderedListTmpl = `<div{{ if .ID }} id="{{ .ID }}"{{ end }}` +
-		` class="olist {{ .Style }}` +
+		` class="olist {{ escape .Style }}` +
 		`{{ if .Roles }} {{ .Roles }}{{ end }}"` +
 		">\n" +
 		"{{ if .Title }}<div class=\"title\">{{ .Title }}</div>\n{{ end }}" +
 		`<ol` +
-		` class="{{ .Style }}"` +
+		` class="{{ escape .Style }}"` +
 		`{{ if .ListStyle }} type="{{ .ListStyle }}"{{ end }}` +
-		`{{ if .Start }} start="{{ .Start }}"{{ end }}` +
+		`{{ if .Start }} start="{{ escape .Start }}"{{ end }}` +
 		`{{ if .Reversed }} reversed{{ end }}` +
 		">\n{{ .Content }}</ol>\n</div>\n"
 
diff --git a/pkg/renderer/sgml/html5/paragraph.go b/pkg/renderer/sgml/html5/paragraph.go
index 79b1d45..5373c36 100644
--- a/pkg/renderer/sgml/html5/paragraph.go
+++ b/pkg/renderer/sgml/html5/paragraph.go
@@ -23,8 +23,8 @@ const (
 	verseParagraphTmpl = "<div {{ if .ID }}id=\"{{ .ID }}\" {{ end }}class=\"verseblock\">\n" +
 		"{{ if .Title }}<div class=\"title\">{{ .Title }}</div>\n{{ end }}" +
 		"<pre class=\"content\">{{ .Content }}</pre>\n" +
-		"{{ if .Attribution.First }}<div class=\"attribution\">\n&#8212; {{ .Attribution.First }}" +
-		"{{ if .Attribution.Second }}<br>\n<cite>{{ .Attribution.Second }}</cite>\n{{ else }}\n{{ end }}" +
+		"{{ if .Attribution.First }}<div class=\"attribution\">\n&#8212; {{ escape .Attribution.First }}" +
+		"{{ if .Attribution.Second }}<br>\n<cite>{{ escape .Attribution.Second }}</cite>\n{{ else }}\n{{ end }}" +
 		"</div>\n{{ end }}</div>\n"
 
 	quoteParagraphTmpl = "<div {{ if .ID }}id=\"{{ .ID }}\" {{ end }}class=\"quoteblock\">\n" +
@@ -32,8 +32,8 @@ const (
 		"<blockquote>\n" +
 		"{{ .Content }}\n" +
 		"</blockquote>\n" +
-		"{{ if .Attribution.First }}<div class=\"attribution\">\n&#8212; {{ .Attribution.First }}" +
-		"{{ if .Attribution.Second }}<br>\n<cite>{{ .Attribution.Second }}</cite>\n{{ else }}\n{{ end }}" +
+		"{{ if .Attribution.First }}<div class=\"attribution\">\n&#8212; {{ escape .Attribution.First }}" +
+		"{{ if .Attribution.Second }}<br>\n<cite>{{ escape .Attribution.Second }}</cite>\n{{ else }}\n{{ end }}" +
 		"</div>\n{{ end }}</div>\n"
 
 	manpageNameParagraphTmpl = "<p>{{ .Content }}</p>\n"
diff --git a/pkg/renderer/sgml/html5/table.go b/pkg/renderer/sgml/html5/table.go
index 7fc5b22..3a0ed80 100644
--- a/pkg/renderer/sgml/html5/table.go
+++ b/pkg/renderer/sgml/html5/table.go
@@ -2,14 +2,14 @@ package html5
 
 const (
 	tableTmpl = "<table {{ if .ID }}id=\"{{ .ID }}\" {{ end }}class=\"tableblock" +
-		" frame-{{ .Frame }} grid-{{ .Grid }}" +
-		"{{ if .Stripes }} stripes-{{ .Stripes }}{{ end }}" +
+		" frame-{{ escape .Frame }} grid-{{ escape .Grid }}" +
+		"{{ if .Stripes }} stripes-{{ escape .Stripes }}{{ end }}" +
 		"{{ if .Fit }} {{ .Fit }}{{ end }}" +
-		"{{ if .Float }} {{ .Float }}{{ end }}" +
+		"{{ if .Float }} {{ escape .Float }}{{ end }}" +
 		"{{ if .Roles }} {{ .Roles }}{{ end }}\"" +
 		"{{ if .Width }} style=\"width: {{ .Width }}%;\"{{ end }}" +
 		">\n" +
-		"{{ if .Title }}<caption class=\"title\">{{ .Caption }}{{ .Title }}</caption>\n{{ end }}" +
+		"{{ if .Title }}<caption class=\"title\">{{ escape .Caption }}{{ .Title }}</caption>\n{{ end }}" +
 		"{{ if or .Header .Body .Footer }}" +
 		"<colgroup>\n" +
 		"{{ range $i, $w := .Columns }}<col" +
diff --git a/pkg/renderer/sgml/paragraph.go b/pkg/renderer/sgml/paragraph.go
index d8f9e90..6946708 100644
--- a/pkg/renderer/sgml/paragraph.go
+++ b/pkg/renderer/sgml/paragraph.go
@@ -138,7 +138,7 @@ func (r *sgmlRenderer) renderElementTitle(ctx *context, attrs types.Attributes)
 	}
 	switch title := title.(type) {
 	case string:
-		return title, nil
+		return escapeString(title), nil
 	case []interface{}:
 		return r.renderElements(ctx, title)
 	default:
diff --git a/pkg/renderer/sgml/xhtml5/article.go b/pkg/renderer/sgml/xhtml5/article.go
index 17ddc75..6dfd650 100644
--- a/pkg/renderer/sgml/xhtml5/article.go
+++ b/pkg/renderer/sgml/xhtml5/article.go
@@ -8,9 +8,9 @@ const (
 		"<meta http-equiv=\"X-UA-Compatible\" content=\"IE=edge\"/>\n" +
 		"<meta name=\"viewport\" content=\"width=device-width, initial-scale=1.0\"/>\n" +
 		"{{ if .Generator }}<meta name=\"generator\" content=\"{{ .Generator }}\"/>\n{{ end }}" +
-		"{{ if .Description }}<meta name=\"description\" content=\"{{ .Description }}\"/>\n{{ end }}" +
-		"{{ if .Authors }}<meta name=\"author\" content=\"{{ .Authors }}\"/>\n{{ end }}" +
-		"{{ range $css := .CSS }}<link type=\"text/css\" rel=\"stylesheet\" href=\"{{ $css }}\"/>\n{{ end }}" +
+		"{{ if .Description }}<meta name=\"description\" content=\"{{ escape .Description }}\"/>\n{{ end }}" +
+		"{{ if .Authors }}<meta name=\"author\" content=\"{{ escape .Authors }}\"/>\n{{ end }}" +
+		"{{ range $css := .CSS }}<link type=\"text/css\" rel=\"stylesheet\" href=\"{{ escape $css }}\"/>\n{{ end }}" +
 		"<title>{{ .Title }}</title>\n" +
 		"</head>\n" +
 		"<body" +
@@ -22,7 +22,7 @@ const (
 		"</div>\n" +
 		"{{ if .IncludeHTMLBodyFooter }}<div id=\"footer\">\n" +
 		"<div id=\"footer-text\">\n" +
-		"{{ if .RevNumber }}Version {{ .RevNumber }}<br/>\n{{ end }}" +
+		"{{ if .RevNumber }}Version {{ escape .RevNumber }}<br/>\n{{ end }}" +
 		"Last updated {{ .LastUpdated }}\n" +
 		"</div>\n" +
 		"</div>\n{{ end }}" +
diff --git a/pkg/renderer/sgml/xhtml5/delimited_block_markdown_quote_tmpl.go b/pkg/renderer/sgml/xhtml5/delimited_block_markdown_quote_tmpl.go
index 1ae08a8..fbdab7e 100644
--- a/pkg/renderer/sgml/xhtml5/delimited_block_markdown_quote_tmpl.go
+++ b/pkg/renderer/sgml/xhtml5/delimited_block_markdown_quote_tmpl.go
@@ -10,8 +10,8 @@ const (
 		"</div>\n{{ end }}" +
 		"</blockquote>\n" +
 		"{{ if .Attribution.First }}<div class=\"attribution\">\n" +
-		"&#8212; {{ .Attribution.First }}" +
-		"{{ if .Attribution.Second }}<br/>\n<cite>{{ .Attribution.Second }}</cite>{{ end }}\n" +
+		"&#8212; {{ escape .Attribution.First }}" +
+		"{{ if .Attribution.Second }}<br/>\n<cite>{{ escape .Attribution.Second }}</cite>{{ end }}\n" +
 		"</div>\n{{ end }}" +
 		"</div>\n"
 )
diff --git a/pkg/renderer/sgml/xhtml5/delimited_block_quote_tmpl.go b/pkg/renderer/sgml/xhtml5/delimited_block_quote_tmpl.go
index cfbed2d..5dbae9a 100644
--- a/pkg/renderer/sgml/xhtml5/delimited_block_quote_tmpl.go
+++ b/pkg/renderer/sgml/xhtml5/delimited_block_quote_tmpl.go
@@ -8,8 +8,8 @@ const (
 		"{{ .Content }}" +
 		"</blockquote>\n" +
 		"{{ if .Attribution.First }}<div class=\"attribution\">\n" +
-		"&#8212; {{ .Attribution.First }}" +
-		"{{ if .Attribution.Second }}<br/>\n<cite>{{ .Attribution.Second }}</cite>{{ end }}\n" +
+		"&#8212; {{ escape .Attribution.First }}" +
+		"{{ if .Attribution.Second }}<br/>\n<cite>{{ escape .Attribution.Second }}</cite>{{ end }}\n" +
 		"</div>\n{{ end }}" +
 		"</div>\n"
 )
diff --git a/pkg/renderer/sgml/xhtml5/delimited_block_verse_tmpl.go b/pkg/renderer/sgml/xhtml5/delimited_block_verse_tmpl.go
index 57df335..b1aef16 100644
--- a/pkg/renderer/sgml/xhtml5/delimited_block_verse_tmpl.go
+++ b/pkg/renderer/sgml/xhtml5/delimited_block_verse_tmpl.go
@@ -5,8 +5,8 @@ const (
 		"class=\"verseblock{{ if .Roles }} {{ .Roles }}{{ end }}\">\n" +
 		"{{ if .Title }}<div class=\"title\">{{ .Title }}</div>\n{{ end }}" +
 		"<pre class=\"content\">{{ .Content }}</pre>\n" +
-		"{{ if .Attribution.First }}<div class=\"attribution\">\n&#8212; {{ .Attribution.First }}" +
-		"{{ if .Attribution.Second }}<br/>\n<cite>{{ .Attribution.Second }}</cite>{{ end }}\n" +
+		"{{ if .Attribution.First }}<div class=\"attribution\">\n&#8212; {{ escape .Attribution.First }}" +
+		"{{ if .Attribution.Second }}<br/>\n<cite>{{ escape .Attribution.Second }}</cite>{{ end }}\n" +
 		"</div>\n{{ end }}" +
 		"</div>\n"
 )
diff --git a/pkg/renderer/sgml/xhtml5/document_details.go b/pkg/renderer/sgml/xhtml5/document_details.go
index 400f660..c0b868e 100644
--- a/pkg/renderer/sgml/xhtml5/document_details.go
+++ b/pkg/renderer/sgml/xhtml5/document_details.go
@@ -3,12 +3,12 @@ package xhtml5
 const (
 	documentDetailsTmpl = `<div class="details">{{ if .Authors }}
 {{ .Authors }}{{ end }}{{ if .RevNumber }}
-<span id="revnumber">{{ if .RevLabel }}{{ .RevLabel }} {{ end }}{{ .RevNumber }}{{ if .RevDate }},{{ end }}</span>{{ end }}{{ if .RevDate }}
-<span id="revdate">{{ .RevDate }}</span>{{ end }}{{ if .RevRemark }}
-<br/><span id="revremark">{{ .RevRemark }}</span>{{ end }}
+<span id="revnumber">{{ if .RevLabel }}{{ escape .RevLabel }} {{ end }}{{ escape .RevNumber }}{{ if .RevDate }},{{ end }}</span>{{ end }}{{ if .RevDate }}
+<span id="revdate">{{ escape .RevDate }}</span>{{ end }}{{ if .RevRemark }}
+<br/><span id="revremark">{{ escape .RevRemark }}</span>{{ end }}
 </div>
 `
 
-	documentAuthorDetailsTmpl = `{{ if .Name }}<span id="author{{ .Index }}" class="author">{{ .Name }}</span><br/>{{ end }}{{ if .Email }}
-<span id="email{{ .Index }}" class="email"><a href="mailto:{{ .Email }}">{{ .Email }}</a></span><br/>{{ end }}`
+	documentAuthorDetailsTmpl = `{{ if .Name }}<span id="author{{ .Index }}" class="author">{{ escape .Name }}</span><br/>{{ end }}{{ if .Email }}
+<span id="email{{ .Index }}" class="email"><a href="mailto:{{ escape .Email }}">{{ escape .Email }}</a></span><br/>{{ end }}`
 )
diff --git a/pkg/renderer/sgml/xhtml5/icon.go b/pkg/renderer/sgml/xhtml5/icon.go
index a9202e6..4e6582b 100644
--- a/pkg/renderer/sgml/xhtml5/icon.go
+++ b/pkg/renderer/sgml/xhtml5/icon.go
@@ -8,14 +8,14 @@ const (
 	//
 	// Only the img tag needs to be made XHTML safe.
 
-	iconImageTmpl = `<img src="{{ .Src }}"` +
-		`{{ if .Alt }} alt="{{ .Alt }}"{{ end }}` +
-		`{{ if .Width }} width="{{ .Width }}"{{ end }}` +
-		`{{ if .Height }} height="{{ .Height }}"{{ end }}` +
-		`{{ if .Title }} title="{{ .Title }}"{{ end }}` +
+	iconImageTmpl = `<img src="{{ escape .Src }}"` +
+		`{{ if .Alt }} alt="{{ escape .Alt }}"{{ end }}` +
+		`{{ if .Width }} width="{{ escape .Width }}"{{ end }}` +
+		`{{ if .Height }} height="{{ escape .Height }}"{{ end }}` +
+		`{{ if .Title }} title="{{ escape .Title }}"{{ end }}` +
 		`{{ if or .Size .Rotate .Flip }} class="` +
-		`{{ if .Size }}fa-{{ .Size }}{{ end }}` +
-		`{{ if .Rotate }}{{ if .Size }} {{ end }}fa-rotate-{{ .Rotate }}{{ end }}` +
-		`{{ if .Flip }}{{ if or .Size .Rotate }} {{ end }}fa-flip-{{ .Flip }}{{ end }}` +
+		`{{ if .Size }}fa-{{ escape .Size }}{{ end }}` +
+		`{{ if .Rotate }}{{ if .Size }} {{ end }}fa-rotate-{{ escape .Rotate }}{{ end }}` +
+		`{{ if .Flip }}{{ if or .Size .Rotate }} {{ end }}fa-flip-{{ escape .Flip }}{{ end }}` +
 		`"{{ end }}/>`
 )
diff --git a/pkg/renderer/sgml/xhtml5/image.go b/pkg/renderer/sgml/xhtml5/image.go
index 01c1dc0..e54ba96 100644
--- a/pkg/renderer/sgml/xhtml5/image.go
+++ b/pkg/renderer/sgml/xhtml5/image.go
@@ -5,20 +5,20 @@ const (
 		"{{ if .ID }} id=\"{{ .ID }}\"{{ end }}" +
 		" class=\"imageblock{{ if .Roles }} {{ .Roles }}{{ end }}\">\n" +
 		"<div class=\"content\">\n" +
-		`{{ if .Href }}<a class="image" href="{{ .Href }}">{{ end }}` +
-		`<img src="{{ .Src }}" alt="{{ .Alt }}"` +
-		`{{ if .Width }} width="{{ .Width }}"{{ end }}` +
-		`{{ if .Height }} height="{{ .Height }}"{{ end }}` +
+		`{{ if .Href }}<a class="image" href="{{ escape .Href }}">{{ end }}` +
+		`<img src="{{ escape .Src }}" alt="{{ escape .Alt }}"` +
+		`{{ if .Width }} width="{{ escape .Width }}"{{ end }}` +
+		`{{ if .Height }} height="{{ escape .Height }}"{{ end }}` +
 		"/>{{ if .Href }}</a>{{ end }}\n" +
 		"</div>\n" +
-		"{{ if .Title }}<div class=\"title\">{{ .Caption }}{{ .Title }}</div>\n{{ end }}" +
+		"{{ if .Title }}<div class=\"title\">{{ escape .Caption }}{{ .Title }}</div>\n{{ end }}" +
 		"</div>\n"
 
 	inlineImageTmpl = `<span class="image{{ if .Roles }} {{ .Roles }}{{ end }}">` +
-		`{{ if .Href }}<a class="image" href="{{ .Href }}">{{ end }}` +
-		`<img src="{{ .Src }}" alt="{{ .Alt }}"` +
-		`{{ if .Width }} width="{{ .Width }}"{{ end }}` +
-		`{{ if .Height }} height="{{ .Height }}"{{ end }}` +
-		`{{ if .Title }} title="{{ .Title }}"{{ end }}` +
+		`{{ if .Href }}<a class="image" href="{{ escape .Href }}">{{ end }}` +
+		`<img src="{{ escape .Src }}" alt="{{ escape .Alt }}"` +
+		`{{ if .Width }} width="{{ escape .Width }}"{{ end }}` +
+		`{{ if .Height }} height="{{ escape .Height }}"{{ end }}` +
+		`{{ if .Title }} title="{{ escape .Title }}"{{ end }}` +
 		`/>{{ if .Href }}</a>{{ end }}</span>`
 )
diff --git a/pkg/renderer/sgml/xhtml5/paragraph.go b/pkg/renderer/sgml/xhtml5/paragraph.go
index 90edb2b..292ccf1 100644
--- a/pkg/renderer/sgml/xhtml5/paragraph.go
+++ b/pkg/renderer/sgml/xhtml5/paragraph.go
@@ -4,8 +4,8 @@ const (
 	verseParagraphTmpl = "<div {{ if .ID }}id=\"{{ .ID }}\" {{ end }}class=\"verseblock\">\n" +
 		"{{ if .Title }}<div class=\"title\">{{ .Title }}</div>\n{{ end }}" +
 		"<pre class=\"content\">{{ .Content }}</pre>\n" +
-		"{{ if .Attribution.First }}<div class=\"attribution\">\n&#8212; {{ .Attribution.First }}" +
-		"{{ if .Attribution.Second }}<br/>\n<cite>{{ .Attribution.Second }}</cite>\n{{ else }}\n{{ end }}" +
+		"{{ if .Attribution.First }}<div class=\"attribution\">\n&#8212; {{ escape .Attribution.First }}" +
+		"{{ if .Attribution.Second }}<br/>\n<cite>{{ escape .Attribution.Second }}</cite>\n{{ else }}\n{{ end }}" +
 		"</div>\n{{ end }}</div>\n"
 
 	quoteParagraphTmpl = "<div {{ if .ID }}id=\"{{ .ID }}\" {{ end }}class=\"quoteblock\">\n" +
@@ -13,8 +13,8 @@ const (
 		"<blockquote>\n" +
 		"{{ .Content }}\n" +
 		"</blockquote>\n" +
-		"{{ if .Attribution.First }}<div class=\"attribution\">\n&#8212; {{ .Attribution.First }}" +
-		"{{ if .Attribution.Second }}<br/>\n<cite>{{ .Attribution.Second }}</cite>\n{{ else }}\n{{ end }}" +
+		"{{ if .Attribution.First }}<div class=\"attribution\">\n&#8212; {{ escape .Attribution.First }}" +
+		"{{ if .Attribution.Second }}<br/>\n<cite>{{ escape .Attribution.Second }}</cite>\n{{ else }}\n{{ end }}" +
 		"</div>\n{{ end }}</div>\n"
 
 	thematicBreakTmpl = "<hr/>\n"
diff --git a/pkg/renderer/sgml/xhtml5/table.go b/pkg/renderer/sgml/xhtml5/table.go
index 5123ba7..e39a861 100644
--- a/pkg/renderer/sgml/xhtml5/table.go
+++ b/pkg/renderer/sgml/xhtml5/table.go
@@ -2,14 +2,14 @@ package xhtml5
 
 const (
 	tableTmpl = "<table {{ if .ID }}id=\"{{ .ID }}\" {{ end }}class=\"tableblock" +
-		" frame-{{ .Frame }} grid-{{ .Grid }}" +
-		"{{ if .Stripes }} stripes-{{ .Stripes }}{{ end }}" +
+		" frame-{{ escape .Frame }} grid-{{ escape .Grid }}" +
+		"{{ if .Stripes }} stripes-{{ escape .Stripes }}{{ end }}" +
 		"{{ if .Fit }} {{ .Fit }}{{ end }}" +
-		"{{ if .Float }} {{ .Float }}{{ end }}" +
+		"{{ if .Float }} {{ escape .Float }}{{ end }}" +
 		"{{ if .Roles }} {{ .Roles }}{{ end }}\"" +
 		"{{ if .Width }} style=\"width: {{ .Width }}%;\"{{ end }}" +
 		">\n" +
-		"{{ if .Title }}<caption class=\"title\">{{ .Caption }}{{ .Title }}</caption>\n{{ end }}" +
+		"{{ if .Title }}<caption class=\"title\">{{ escape .Caption }}{{ .Title }}</caption>\n{{ end }}" +
 		"{{ if or .Header .Body .Footer }}" +
 		"<colgroup>\n" +
 		"{{ range $i, $w := .Columns }}<col" +
-- 
2.43.0


From c5f823a15e2f21fa77edda8c05fda742d9d83850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:56 +0000
Subject: [PATCH 038/143] fix: escape the labels and the targets of the cross
 references

---
 pkg/renderer/sgml/cross_reference.go       | 10 +++++-----
 pkg/renderer/sgml/html5/cross_reference.go |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/pkg/renderer/sgml/cross_reference.go b/pkg/renderer/sgml/cross_reference.go
index fcf59ba..6418cb8 100644
--- a/pkg/renderer/sgml/cross_reference.go
+++ b/pkg/renderer/sgml/cross_reference.go
@@ -22,11 +22,11 @@ func (r *sgmlRenderer) renderInternalCrossReference(ctx *context, xref *types.In
 	}
 	href, target, found := ctx.resolveReference(xrefID)
 	if xrefLabel, ok := xref.Label.(string); ok {
-		label = xrefLabel
+		label = escapeString(xrefLabel)
 	} else if found {
 		switch t := target.(type) {
 		case string:
-			label = t
+			label = escapeString(t)
 		case []interface{}:
 			// render as usual except for links as plain text (since the cross reference is already displayed as a link)
 			buff := &strings.Builder{}
@@ -51,7 +51,7 @@ func (r *sgmlRenderer) renderInternalCrossReference(ctx *context, xref *types.In
 			return "", errors.Errorf("unable to process internal cross reference to element of type %T", target)
 		}
 	} else {
-		label = "[" + xrefID + "]"
+		label = "[" + escapeString(xrefID) + "]"
 	}
 	return r.execute(r.internalCrossReference, struct {
 		Href  string
@@ -68,13 +68,13 @@ func (r *sgmlRenderer) renderExternalCrossReference(ctx *context, xref *types.Ex
 	var err error
 	switch l := xref.Attributes[types.AttrXRefLabel].(type) {
 	case string:
-		label = l
+		label = escapeString(l)
 	case []interface{}:
 		if label, err = r.renderInlineElements(ctx, l); err != nil {
 			return "", err
 		}
 	default:
-		label = defaultXrefLabel(xref)
+		label = escapeString(defaultXrefLabel(xref))
 	}
 	return r.execute(r.externalCrossReference, struct {
 		Href  string
diff --git a/pkg/renderer/sgml/html5/cross_reference.go b/pkg/renderer/sgml/html5/cross_reference.go
index 0488cb2..8aa27ba 100644
--- a/pkg/renderer/sgml/html5/cross_reference.go
+++ b/pkg/renderer/sgml/html5/cross_reference.go
@@ -1,6 +1,6 @@
 package html5
 
 const (
-	internalCrossReferenceTmpl = `<a href="#{{ .Href }}">{{ .Label }}</a>`
-	externalCrossReferenceTmpl = `<a href="{{ .Href }}">{{ .Label }}</a>`
+	internalCrossReferenceTmpl = `<a href="#{{ escape .Href }}">{{ .Label }}</a>`
+	externalCrossReferenceTmpl = `<a href="{{ escape .Href }}">{{ .Label }}</a>`
 )
-- 
2.43.0


From 67f45910723042b10a9a6e7a01a03992659c02e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:32 +0000
Subject: [PATCH 039/143] fix: escape the special characters in subscripts,
 superscripts and escaped symbols

---
 pkg/parser/parser.go  | 1247 +++++++++++++++++++++++++----------------
 pkg/parser/parser.peg |   14 +-
 2 files changed, 768 insertions(+), 493 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 3345089..7f484d7 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -10044,28 +10044,28 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2462, col: 22, offset: 79224},
+											pos: position{line: 2462, col: 22, offset: 79212},
 											run: (*parser).callonDocumentFragment1328,
 											expr: &seqExpr{
-												pos: position{line: 2462, col: 22, offset: 79224},
+												pos: position{line: 2462, col: 22, offset: 79212},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2467, col: 31, offset: 79445},
+														pos:        position{line: 2467, col: 31, offset: 79433},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2467, col: 36, offset: 79450},
+														pos: position{line: 2467, col: 36, offset: 79438},
 														expr: &litMatcher{
-															pos:        position{line: 2467, col: 37, offset: 79451},
+															pos:        position{line: 2467, col: 37, offset: 79439},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2462, col: 49, offset: 79251},
+														pos:   position{line: 2462, col: 49, offset: 79239},
 														label: "content",
 														expr: &actionExpr{
 															pos: position{line: 2798, col: 13, offset: 88765},
@@ -10797,23 +10797,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2449, col: 5, offset: 78770},
+										pos: position{line: 2449, col: 5, offset: 78758},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2449, col: 5, offset: 78770},
+											pos: position{line: 2449, col: 5, offset: 78758},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2449, col: 5, offset: 78770},
+													pos: position{line: 2449, col: 5, offset: 78758},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2452, col: 5, offset: 78846},
+													pos:   position{line: 2452, col: 5, offset: 78834},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2453, col: 9, offset: 78864},
+														pos: position{line: 2453, col: 9, offset: 78852},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2453, col: 10, offset: 78865},
+															pos:        position{line: 2453, col: 10, offset: 78853},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -15747,28 +15747,28 @@ var g = &grammar{
 								pos: position{line: 1104, col: 6, offset: 33808},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2462, col: 22, offset: 79224},
+										pos: position{line: 2462, col: 22, offset: 79212},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2462, col: 22, offset: 79224},
+											pos: position{line: 2462, col: 22, offset: 79212},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2467, col: 31, offset: 79445},
+													pos:        position{line: 2467, col: 31, offset: 79433},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2467, col: 36, offset: 79450},
+													pos: position{line: 2467, col: 36, offset: 79438},
 													expr: &litMatcher{
-														pos:        position{line: 2467, col: 37, offset: 79451},
+														pos:        position{line: 2467, col: 37, offset: 79439},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2462, col: 49, offset: 79251},
+													pos:   position{line: 2462, col: 49, offset: 79239},
 													label: "content",
 													expr: &actionExpr{
 														pos: position{line: 2798, col: 13, offset: 88765},
@@ -16238,28 +16238,28 @@ var g = &grammar{
 								pos: position{line: 1106, col: 6, offset: 33931},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2462, col: 22, offset: 79224},
+										pos: position{line: 2462, col: 22, offset: 79212},
 										run: (*parser).callonDocumentHeader115,
 										expr: &seqExpr{
-											pos: position{line: 2462, col: 22, offset: 79224},
+											pos: position{line: 2462, col: 22, offset: 79212},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2467, col: 31, offset: 79445},
+													pos:        position{line: 2467, col: 31, offset: 79433},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2467, col: 36, offset: 79450},
+													pos: position{line: 2467, col: 36, offset: 79438},
 													expr: &litMatcher{
-														pos:        position{line: 2467, col: 37, offset: 79451},
+														pos:        position{line: 2467, col: 37, offset: 79439},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2462, col: 49, offset: 79251},
+													pos:   position{line: 2462, col: 49, offset: 79239},
 													label: "content",
 													expr: &actionExpr{
 														pos: position{line: 2798, col: 13, offset: 88765},
@@ -17033,28 +17033,28 @@ var g = &grammar{
 													pos: position{line: 1120, col: 6, offset: 34461},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2462, col: 22, offset: 79224},
+															pos: position{line: 2462, col: 22, offset: 79212},
 															run: (*parser).callonDocumentHeader294,
 															expr: &seqExpr{
-																pos: position{line: 2462, col: 22, offset: 79224},
+																pos: position{line: 2462, col: 22, offset: 79212},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2467, col: 31, offset: 79445},
+																		pos:        position{line: 2467, col: 31, offset: 79433},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2467, col: 36, offset: 79450},
+																		pos: position{line: 2467, col: 36, offset: 79438},
 																		expr: &litMatcher{
-																			pos:        position{line: 2467, col: 37, offset: 79451},
+																			pos:        position{line: 2467, col: 37, offset: 79439},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2462, col: 49, offset: 79251},
+																		pos:   position{line: 2462, col: 49, offset: 79239},
 																		label: "content",
 																		expr: &actionExpr{
 																			pos: position{line: 2798, col: 13, offset: 88765},
@@ -18049,28 +18049,28 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2462, col: 22, offset: 79224},
+											pos: position{line: 2462, col: 22, offset: 79212},
 											run: (*parser).callonDocumentHeader513,
 											expr: &seqExpr{
-												pos: position{line: 2462, col: 22, offset: 79224},
+												pos: position{line: 2462, col: 22, offset: 79212},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2467, col: 31, offset: 79445},
+														pos:        position{line: 2467, col: 31, offset: 79433},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2467, col: 36, offset: 79450},
+														pos: position{line: 2467, col: 36, offset: 79438},
 														expr: &litMatcher{
-															pos:        position{line: 2467, col: 37, offset: 79451},
+															pos:        position{line: 2467, col: 37, offset: 79439},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2462, col: 49, offset: 79251},
+														pos:   position{line: 2462, col: 49, offset: 79239},
 														label: "content",
 														expr: &actionExpr{
 															pos: position{line: 2798, col: 13, offset: 88765},
@@ -18882,23 +18882,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2449, col: 5, offset: 78770},
+									pos: position{line: 2449, col: 5, offset: 78758},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2449, col: 5, offset: 78770},
+										pos: position{line: 2449, col: 5, offset: 78758},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2449, col: 5, offset: 78770},
+												pos: position{line: 2449, col: 5, offset: 78758},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2452, col: 5, offset: 78846},
+												pos:   position{line: 2452, col: 5, offset: 78834},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2453, col: 9, offset: 78864},
+													pos: position{line: 2453, col: 9, offset: 78852},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2453, col: 10, offset: 78865},
+														pos:        position{line: 2453, col: 10, offset: 78853},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -20411,21 +20411,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2480, col: 5, offset: 79941},
+										pos: position{line: 2480, col: 5, offset: 79929},
 										run: (*parser).callonFootnoteElement24,
 										expr: &seqExpr{
-											pos: position{line: 2480, col: 5, offset: 79941},
+											pos: position{line: 2480, col: 5, offset: 79929},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2480, col: 5, offset: 79941},
+													pos:        position{line: 2480, col: 5, offset: 79929},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2480, col: 10, offset: 79946},
+													pos: position{line: 2480, col: 10, offset: 79934},
 													expr: &charClassMatcher{
-														pos:        position{line: 2480, col: 11, offset: 79947},
+														pos:        position{line: 2480, col: 11, offset: 79935},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -20436,29 +20436,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2486, col: 5, offset: 80139},
+										pos: position{line: 2486, col: 5, offset: 80127},
 										run: (*parser).callonFootnoteElement29,
 										expr: &seqExpr{
-											pos: position{line: 2486, col: 5, offset: 80139},
+											pos: position{line: 2486, col: 5, offset: 80127},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2486, col: 5, offset: 80139},
+													pos: position{line: 2486, col: 5, offset: 80127},
 													run: (*parser).callonFootnoteElement31,
 												},
 												&andCodeExpr{
-													pos: position{line: 2489, col: 5, offset: 80210},
+													pos: position{line: 2489, col: 5, offset: 80198},
 													run: (*parser).callonFootnoteElement32,
 												},
 												&litMatcher{
-													pos:        position{line: 2493, col: 5, offset: 80335},
+													pos:        position{line: 2493, col: 5, offset: 80323},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2493, col: 9, offset: 80339},
+													pos: position{line: 2493, col: 9, offset: 80327},
 													expr: &charClassMatcher{
-														pos:        position{line: 2493, col: 10, offset: 80340},
+														pos:        position{line: 2493, col: 10, offset: 80328},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -20978,23 +20978,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2449, col: 5, offset: 78770},
+										pos: position{line: 2449, col: 5, offset: 78758},
 										run: (*parser).callonFootnoteElement139,
 										expr: &seqExpr{
-											pos: position{line: 2449, col: 5, offset: 78770},
+											pos: position{line: 2449, col: 5, offset: 78758},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2449, col: 5, offset: 78770},
+													pos: position{line: 2449, col: 5, offset: 78758},
 													run: (*parser).callonFootnoteElement141,
 												},
 												&labeledExpr{
-													pos:   position{line: 2452, col: 5, offset: 78846},
+													pos:   position{line: 2452, col: 5, offset: 78834},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2453, col: 9, offset: 78864},
+														pos: position{line: 2453, col: 9, offset: 78852},
 														run: (*parser).callonFootnoteElement143,
 														expr: &charClassMatcher{
-															pos:        position{line: 2453, col: 10, offset: 78865},
+															pos:        position{line: 2453, col: 10, offset: 78853},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -27361,28 +27361,28 @@ var g = &grammar{
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2462, col: 22, offset: 79224},
+										pos: position{line: 2462, col: 22, offset: 79212},
 										run: (*parser).callonExtraListElement475,
 										expr: &seqExpr{
-											pos: position{line: 2462, col: 22, offset: 79224},
+											pos: position{line: 2462, col: 22, offset: 79212},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2467, col: 31, offset: 79445},
+													pos:        position{line: 2467, col: 31, offset: 79433},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2467, col: 36, offset: 79450},
+													pos: position{line: 2467, col: 36, offset: 79438},
 													expr: &litMatcher{
-														pos:        position{line: 2467, col: 37, offset: 79451},
+														pos:        position{line: 2467, col: 37, offset: 79439},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2462, col: 49, offset: 79251},
+													pos:   position{line: 2462, col: 49, offset: 79239},
 													label: "content",
 													expr: &actionExpr{
 														pos: position{line: 2798, col: 13, offset: 88765},
@@ -36002,28 +36002,28 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2462, col: 22, offset: 79224},
+										pos: position{line: 2462, col: 22, offset: 79212},
 										run: (*parser).callonListContinuationElement1543,
 										expr: &seqExpr{
-											pos: position{line: 2462, col: 22, offset: 79224},
+											pos: position{line: 2462, col: 22, offset: 79212},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2467, col: 31, offset: 79445},
+													pos:        position{line: 2467, col: 31, offset: 79433},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2467, col: 36, offset: 79450},
+													pos: position{line: 2467, col: 36, offset: 79438},
 													expr: &litMatcher{
-														pos:        position{line: 2467, col: 37, offset: 79451},
+														pos:        position{line: 2467, col: 37, offset: 79439},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2462, col: 49, offset: 79251},
+													pos:   position{line: 2462, col: 49, offset: 79239},
 													label: "content",
 													expr: &actionExpr{
 														pos: position{line: 2798, col: 13, offset: 88765},
@@ -38992,28 +38992,28 @@ var g = &grammar{
 													pos: position{line: 1762, col: 15, offset: 57005},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2462, col: 22, offset: 79224},
+															pos: position{line: 2462, col: 22, offset: 79212},
 															run: (*parser).callonShortcutParagraph265,
 															expr: &seqExpr{
-																pos: position{line: 2462, col: 22, offset: 79224},
+																pos: position{line: 2462, col: 22, offset: 79212},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2467, col: 31, offset: 79445},
+																		pos:        position{line: 2467, col: 31, offset: 79433},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2467, col: 36, offset: 79450},
+																		pos: position{line: 2467, col: 36, offset: 79438},
 																		expr: &litMatcher{
-																			pos:        position{line: 2467, col: 37, offset: 79451},
+																			pos:        position{line: 2467, col: 37, offset: 79439},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2462, col: 49, offset: 79251},
+																		pos:   position{line: 2462, col: 49, offset: 79239},
 																		label: "content",
 																		expr: &actionExpr{
 																			pos: position{line: 2798, col: 13, offset: 88765},
@@ -39435,28 +39435,28 @@ var g = &grammar{
 													pos: position{line: 1776, col: 15, offset: 57376},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2462, col: 22, offset: 79224},
+															pos: position{line: 2462, col: 22, offset: 79212},
 															run: (*parser).callonParagraph67,
 															expr: &seqExpr{
-																pos: position{line: 2462, col: 22, offset: 79224},
+																pos: position{line: 2462, col: 22, offset: 79212},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2467, col: 31, offset: 79445},
+																		pos:        position{line: 2467, col: 31, offset: 79433},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2467, col: 36, offset: 79450},
+																		pos: position{line: 2467, col: 36, offset: 79438},
 																		expr: &litMatcher{
-																			pos:        position{line: 2467, col: 37, offset: 79451},
+																			pos:        position{line: 2467, col: 37, offset: 79439},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2462, col: 49, offset: 79251},
+																		pos:   position{line: 2462, col: 49, offset: 79239},
 																		label: "content",
 																		expr: &actionExpr{
 																			pos: position{line: 2798, col: 13, offset: 88765},
@@ -39872,21 +39872,21 @@ var g = &grammar{
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2480, col: 5, offset: 79941},
+						pos: position{line: 2480, col: 5, offset: 79929},
 						run: (*parser).callonQuotedTextElement20,
 						expr: &seqExpr{
-							pos: position{line: 2480, col: 5, offset: 79941},
+							pos: position{line: 2480, col: 5, offset: 79929},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2480, col: 5, offset: 79941},
+									pos:        position{line: 2480, col: 5, offset: 79929},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2480, col: 10, offset: 79946},
+									pos: position{line: 2480, col: 10, offset: 79934},
 									expr: &charClassMatcher{
-										pos:        position{line: 2480, col: 11, offset: 79947},
+										pos:        position{line: 2480, col: 11, offset: 79935},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -39897,29 +39897,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2486, col: 5, offset: 80139},
+						pos: position{line: 2486, col: 5, offset: 80127},
 						run: (*parser).callonQuotedTextElement25,
 						expr: &seqExpr{
-							pos: position{line: 2486, col: 5, offset: 80139},
+							pos: position{line: 2486, col: 5, offset: 80127},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2486, col: 5, offset: 80139},
+									pos: position{line: 2486, col: 5, offset: 80127},
 									run: (*parser).callonQuotedTextElement27,
 								},
 								&andCodeExpr{
-									pos: position{line: 2489, col: 5, offset: 80210},
+									pos: position{line: 2489, col: 5, offset: 80198},
 									run: (*parser).callonQuotedTextElement28,
 								},
 								&litMatcher{
-									pos:        position{line: 2493, col: 5, offset: 80335},
+									pos:        position{line: 2493, col: 5, offset: 80323},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2493, col: 9, offset: 80339},
+									pos: position{line: 2493, col: 9, offset: 80327},
 									expr: &charClassMatcher{
-										pos:        position{line: 2493, col: 10, offset: 80340},
+										pos:        position{line: 2493, col: 10, offset: 80328},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -40423,23 +40423,23 @@ var g = &grammar{
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2449, col: 5, offset: 78770},
+						pos: position{line: 2449, col: 5, offset: 78758},
 						run: (*parser).callonQuotedTextElement130,
 						expr: &seqExpr{
-							pos: position{line: 2449, col: 5, offset: 78770},
+							pos: position{line: 2449, col: 5, offset: 78758},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2449, col: 5, offset: 78770},
+									pos: position{line: 2449, col: 5, offset: 78758},
 									run: (*parser).callonQuotedTextElement132,
 								},
 								&labeledExpr{
-									pos:   position{line: 2452, col: 5, offset: 78846},
+									pos:   position{line: 2452, col: 5, offset: 78834},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2453, col: 9, offset: 78864},
+										pos: position{line: 2453, col: 9, offset: 78852},
 										run: (*parser).callonQuotedTextElement134,
 										expr: &charClassMatcher{
-											pos:        position{line: 2453, col: 10, offset: 78865},
+											pos:        position{line: 2453, col: 10, offset: 78853},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -42215,14 +42215,51 @@ var g = &grammar{
 					&actionExpr{
 						pos: position{line: 2237, col: 21, offset: 72487},
 						run: (*parser).callonSubscriptTextElement3,
-						expr: &oneOrMoreExpr{
-							pos: position{line: 2237, col: 21, offset: 72487},
-							expr: &charClassMatcher{
-								pos:        position{line: 2237, col: 21, offset: 72487},
-								val:        "[^\\r\\n ~]",
-								chars:      []rune{'\r', '\n', ' ', '~'},
-								ignoreCase: false,
-								inverted:   true,
+						expr: &labeledExpr{
+							pos:   position{line: 2237, col: 21, offset: 72487},
+							label: "elements",
+							expr: &oneOrMoreExpr{
+								pos: position{line: 2237, col: 30, offset: 72496},
+								expr: &choiceExpr{
+									pos: position{line: 2237, col: 31, offset: 72497},
+									alternatives: []interface{}{
+										&actionExpr{
+											pos: position{line: 2449, col: 5, offset: 78758},
+											run: (*parser).callonSubscriptTextElement7,
+											expr: &seqExpr{
+												pos: position{line: 2449, col: 5, offset: 78758},
+												exprs: []interface{}{
+													&andCodeExpr{
+														pos: position{line: 2449, col: 5, offset: 78758},
+														run: (*parser).callonSubscriptTextElement9,
+													},
+													&labeledExpr{
+														pos:   position{line: 2452, col: 5, offset: 78834},
+														label: "element",
+														expr: &actionExpr{
+															pos: position{line: 2453, col: 9, offset: 78852},
+															run: (*parser).callonSubscriptTextElement11,
+															expr: &charClassMatcher{
+																pos:        position{line: 2453, col: 10, offset: 78853},
+																val:        "[<>&]",
+																chars:      []rune{'<', '>', '&'},
+																ignoreCase: false,
+																inverted:   false,
+															},
+														},
+													},
+												},
+											},
+										},
+										&charClassMatcher{
+											pos:        position{line: 2237, col: 50, offset: 72516},
+											val:        "[^\\r\\n ~]",
+											chars:      []rune{'\r', '\n', ' ', '~'},
+											ignoreCase: false,
+											inverted:   true,
+										},
+									},
+								},
 							},
 						},
 					},
@@ -42231,15 +42268,15 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2241, col: 1, offset: 72572},
+			pos:  position{line: 2241, col: 1, offset: 72566},
 			expr: &actionExpr{
-				pos: position{line: 2243, col: 5, offset: 72639},
+				pos: position{line: 2243, col: 5, offset: 72633},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2243, col: 5, offset: 72639},
+					pos: position{line: 2243, col: 5, offset: 72633},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2243, col: 5, offset: 72639},
+							pos:   position{line: 2243, col: 5, offset: 72633},
 							label: "backslashes",
 							expr: &actionExpr{
 								pos: position{line: 1841, col: 25, offset: 59423},
@@ -42262,10 +42299,10 @@ var g = &grammar{
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2245, col: 5, offset: 72707},
+							pos:   position{line: 2245, col: 5, offset: 72701},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2245, col: 14, offset: 72716},
+								pos:  position{line: 2245, col: 14, offset: 72710},
 								name: "SubscriptTextElement",
 							},
 						},
@@ -42281,29 +42318,29 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2253, col: 1, offset: 72979},
+			pos:  position{line: 2253, col: 1, offset: 72973},
 			expr: &actionExpr{
-				pos: position{line: 2254, col: 5, offset: 73003},
+				pos: position{line: 2254, col: 5, offset: 72997},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2254, col: 5, offset: 73003},
+					pos: position{line: 2254, col: 5, offset: 72997},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2260, col: 29, offset: 73230},
+							pos:        position{line: 2260, col: 29, offset: 73224},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2255, col: 5, offset: 73033},
+							pos:   position{line: 2255, col: 5, offset: 73027},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2255, col: 14, offset: 73042},
+								pos:  position{line: 2255, col: 14, offset: 73036},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2260, col: 29, offset: 73230},
+							pos:        position{line: 2260, col: 29, offset: 73224},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -42314,25 +42351,62 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2262, col: 1, offset: 73235},
+			pos:  position{line: 2262, col: 1, offset: 73229},
 			expr: &choiceExpr{
-				pos: position{line: 2262, col: 27, offset: 73261},
+				pos: position{line: 2262, col: 27, offset: 73255},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2262, col: 27, offset: 73261},
+						pos:  position{line: 2262, col: 27, offset: 73255},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2264, col: 23, offset: 73317},
+						pos: position{line: 2264, col: 23, offset: 73311},
 						run: (*parser).callonSuperscriptTextElement3,
-						expr: &oneOrMoreExpr{
-							pos: position{line: 2264, col: 23, offset: 73317},
-							expr: &charClassMatcher{
-								pos:        position{line: 2264, col: 23, offset: 73317},
-								val:        "[^\\r\\n ^]",
-								chars:      []rune{'\r', '\n', ' ', '^'},
-								ignoreCase: false,
-								inverted:   true,
+						expr: &labeledExpr{
+							pos:   position{line: 2264, col: 23, offset: 73311},
+							label: "elements",
+							expr: &oneOrMoreExpr{
+								pos: position{line: 2264, col: 32, offset: 73320},
+								expr: &choiceExpr{
+									pos: position{line: 2264, col: 33, offset: 73321},
+									alternatives: []interface{}{
+										&actionExpr{
+											pos: position{line: 2449, col: 5, offset: 78758},
+											run: (*parser).callonSuperscriptTextElement7,
+											expr: &seqExpr{
+												pos: position{line: 2449, col: 5, offset: 78758},
+												exprs: []interface{}{
+													&andCodeExpr{
+														pos: position{line: 2449, col: 5, offset: 78758},
+														run: (*parser).callonSuperscriptTextElement9,
+													},
+													&labeledExpr{
+														pos:   position{line: 2452, col: 5, offset: 78834},
+														label: "element",
+														expr: &actionExpr{
+															pos: position{line: 2453, col: 9, offset: 78852},
+															run: (*parser).callonSuperscriptTextElement11,
+															expr: &charClassMatcher{
+																pos:        position{line: 2453, col: 10, offset: 78853},
+																val:        "[<>&]",
+																chars:      []rune{'<', '>', '&'},
+																ignoreCase: false,
+																inverted:   false,
+															},
+														},
+													},
+												},
+											},
+										},
+										&charClassMatcher{
+											pos:        position{line: 2264, col: 52, offset: 73340},
+											val:        "[^\\r\\n ^]",
+											chars:      []rune{'\r', '\n', ' ', '^'},
+											ignoreCase: false,
+											inverted:   true,
+										},
+									},
+								},
 							},
 						},
 					},
@@ -42341,15 +42415,15 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2268, col: 1, offset: 73402},
+			pos:  position{line: 2268, col: 1, offset: 73390},
 			expr: &actionExpr{
-				pos: position{line: 2270, col: 5, offset: 73474},
+				pos: position{line: 2270, col: 5, offset: 73462},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2270, col: 5, offset: 73474},
+					pos: position{line: 2270, col: 5, offset: 73462},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2270, col: 5, offset: 73474},
+							pos:   position{line: 2270, col: 5, offset: 73462},
 							label: "backslashes",
 							expr: &actionExpr{
 								pos: position{line: 1841, col: 25, offset: 59423},
@@ -42366,21 +42440,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2260, col: 29, offset: 73230},
+							pos:        position{line: 2260, col: 29, offset: 73224},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2272, col: 5, offset: 73544},
+							pos:   position{line: 2272, col: 5, offset: 73532},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2272, col: 14, offset: 73553},
+								pos:  position{line: 2272, col: 14, offset: 73541},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2260, col: 29, offset: 73230},
+							pos:        position{line: 2260, col: 29, offset: 73224},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -42391,27 +42465,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2281, col: 1, offset: 74022},
+			pos:  position{line: 2281, col: 1, offset: 74010},
 			expr: &actionExpr{
-				pos: position{line: 2282, col: 5, offset: 74038},
+				pos: position{line: 2282, col: 5, offset: 74026},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2282, col: 5, offset: 74038},
+					pos: position{line: 2282, col: 5, offset: 74026},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2282, col: 5, offset: 74038},
+							pos: position{line: 2282, col: 5, offset: 74026},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2285, col: 5, offset: 74101},
+							pos:   position{line: 2285, col: 5, offset: 74089},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2285, col: 12, offset: 74108},
+								pos: position{line: 2285, col: 12, offset: 74096},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2285, col: 12, offset: 74108},
+									pos: position{line: 2285, col: 12, offset: 74096},
 									expr: &litMatcher{
-										pos:        position{line: 2285, col: 13, offset: 74109},
+										pos:        position{line: 2285, col: 13, offset: 74097},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -42420,7 +42494,7 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2289, col: 5, offset: 74217},
+							pos: position{line: 2289, col: 5, offset: 74205},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
@@ -42438,10 +42512,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2293, col: 12, offset: 74376},
+							pos:   position{line: 2293, col: 12, offset: 74364},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2293, col: 19, offset: 74383},
+								pos:  position{line: 2293, col: 19, offset: 74371},
 								name: "SectionTitle",
 							},
 						},
@@ -42489,24 +42563,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2297, col: 1, offset: 74479},
+			pos:  position{line: 2297, col: 1, offset: 74467},
 			expr: &actionExpr{
-				pos: position{line: 2298, col: 5, offset: 74500},
+				pos: position{line: 2298, col: 5, offset: 74488},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2298, col: 5, offset: 74500},
+					pos: position{line: 2298, col: 5, offset: 74488},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2298, col: 5, offset: 74500},
+							pos: position{line: 2298, col: 5, offset: 74488},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2303, col: 5, offset: 74615},
+							pos:   position{line: 2303, col: 5, offset: 74603},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2303, col: 14, offset: 74624},
+								pos: position{line: 2303, col: 14, offset: 74612},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2303, col: 15, offset: 74625},
+									pos:  position{line: 2303, col: 15, offset: 74613},
 									name: "SectionTitleElement",
 								},
 							},
@@ -42517,15 +42591,15 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2307, col: 1, offset: 74706},
+			pos:  position{line: 2307, col: 1, offset: 74694},
 			expr: &actionExpr{
-				pos: position{line: 2308, col: 5, offset: 74733},
+				pos: position{line: 2308, col: 5, offset: 74721},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2308, col: 5, offset: 74733},
+					pos: position{line: 2308, col: 5, offset: 74721},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2308, col: 5, offset: 74733},
+							pos: position{line: 2308, col: 5, offset: 74721},
 							expr: &choiceExpr{
 								pos: position{line: 2874, col: 8, offset: 90637},
 								alternatives: []interface{}{
@@ -42566,10 +42640,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2309, col: 5, offset: 74742},
+							pos:   position{line: 2309, col: 5, offset: 74730},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2310, col: 9, offset: 74760},
+								pos: position{line: 2310, col: 9, offset: 74748},
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 2751, col: 5, offset: 87481},
@@ -42652,21 +42726,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2480, col: 5, offset: 79941},
+										pos: position{line: 2480, col: 5, offset: 79929},
 										run: (*parser).callonSectionTitleElement31,
 										expr: &seqExpr{
-											pos: position{line: 2480, col: 5, offset: 79941},
+											pos: position{line: 2480, col: 5, offset: 79929},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2480, col: 5, offset: 79941},
+													pos:        position{line: 2480, col: 5, offset: 79929},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2480, col: 10, offset: 79946},
+													pos: position{line: 2480, col: 10, offset: 79934},
 													expr: &charClassMatcher{
-														pos:        position{line: 2480, col: 11, offset: 79947},
+														pos:        position{line: 2480, col: 11, offset: 79935},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -42677,29 +42751,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2486, col: 5, offset: 80139},
+										pos: position{line: 2486, col: 5, offset: 80127},
 										run: (*parser).callonSectionTitleElement36,
 										expr: &seqExpr{
-											pos: position{line: 2486, col: 5, offset: 80139},
+											pos: position{line: 2486, col: 5, offset: 80127},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2486, col: 5, offset: 80139},
+													pos: position{line: 2486, col: 5, offset: 80127},
 													run: (*parser).callonSectionTitleElement38,
 												},
 												&andCodeExpr{
-													pos: position{line: 2489, col: 5, offset: 80210},
+													pos: position{line: 2489, col: 5, offset: 80198},
 													run: (*parser).callonSectionTitleElement39,
 												},
 												&litMatcher{
-													pos:        position{line: 2493, col: 5, offset: 80335},
+													pos:        position{line: 2493, col: 5, offset: 80323},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2493, col: 9, offset: 80339},
+													pos: position{line: 2493, col: 9, offset: 80327},
 													expr: &charClassMatcher{
-														pos:        position{line: 2493, col: 10, offset: 80340},
+														pos:        position{line: 2493, col: 10, offset: 80328},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -42710,7 +42784,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2313, col: 11, offset: 74825},
+										pos:  position{line: 2313, col: 11, offset: 74813},
 										name: "Replacement",
 									},
 									&actionExpr{
@@ -42787,35 +42861,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2315, col: 11, offset: 74898},
+										pos:  position{line: 2315, col: 11, offset: 74886},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2316, col: 11, offset: 74914},
+										pos:  position{line: 2316, col: 11, offset: 74902},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2317, col: 11, offset: 74942},
+										pos:  position{line: 2317, col: 11, offset: 74930},
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2449, col: 5, offset: 78770},
+										pos: position{line: 2449, col: 5, offset: 78758},
 										run: (*parser).callonSectionTitleElement61,
 										expr: &seqExpr{
-											pos: position{line: 2449, col: 5, offset: 78770},
+											pos: position{line: 2449, col: 5, offset: 78758},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2449, col: 5, offset: 78770},
+													pos: position{line: 2449, col: 5, offset: 78758},
 													run: (*parser).callonSectionTitleElement63,
 												},
 												&labeledExpr{
-													pos:   position{line: 2452, col: 5, offset: 78846},
+													pos:   position{line: 2452, col: 5, offset: 78834},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2453, col: 9, offset: 78864},
+														pos: position{line: 2453, col: 9, offset: 78852},
 														run: (*parser).callonSectionTitleElement65,
 														expr: &charClassMatcher{
-															pos:        position{line: 2453, col: 10, offset: 78865},
+															pos:        position{line: 2453, col: 10, offset: 78853},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -42827,7 +42901,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2319, col: 11, offset: 75027},
+										pos:  position{line: 2319, col: 11, offset: 75015},
 										name: "InlineIcon",
 									},
 									&actionExpr{
@@ -43216,17 +43290,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2332, col: 5, offset: 75480},
+										pos: position{line: 2332, col: 5, offset: 75468},
 										run: (*parser).callonSectionTitleElement145,
 										expr: &seqExpr{
-											pos: position{line: 2332, col: 5, offset: 75480},
+											pos: position{line: 2332, col: 5, offset: 75468},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2332, col: 5, offset: 75480},
+													pos: position{line: 2332, col: 5, offset: 75468},
 													run: (*parser).callonSectionTitleElement147,
 												},
 												&labeledExpr{
-													pos:   position{line: 2335, col: 5, offset: 75535},
+													pos:   position{line: 2335, col: 5, offset: 75523},
 													label: "id",
 													expr: &actionExpr{
 														pos: position{line: 404, col: 5, offset: 12337},
@@ -43680,7 +43754,7 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2335, col: 26, offset: 75556},
+													pos: position{line: 2335, col: 26, offset: 75544},
 													expr: &actionExpr{
 														pos: position{line: 2852, col: 10, offset: 90239},
 														run: (*parser).callonSectionTitleElement241,
@@ -43694,7 +43768,7 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 2335, col: 33, offset: 75563},
+													pos: position{line: 2335, col: 33, offset: 75551},
 													expr: &choiceExpr{
 														pos: position{line: 2874, col: 8, offset: 90637},
 														alternatives: []interface{}{
@@ -43816,7 +43890,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2324, col: 11, offset: 75281},
+										pos:  position{line: 2324, col: 11, offset: 75269},
 										name: "InlineFootnote",
 									},
 									&actionExpr{
@@ -43839,23 +43913,23 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2345, col: 1, offset: 75825},
+			pos:  position{line: 2345, col: 1, offset: 75813},
 			expr: &actionExpr{
-				pos: position{line: 2346, col: 5, offset: 75912},
+				pos: position{line: 2346, col: 5, offset: 75900},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2346, col: 5, offset: 75912},
+					pos: position{line: 2346, col: 5, offset: 75900},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2346, col: 5, offset: 75912},
+							pos:   position{line: 2346, col: 5, offset: 75900},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2346, col: 14, offset: 75921},
+								pos: position{line: 2346, col: 14, offset: 75909},
 								expr: &actionExpr{
-									pos: position{line: 2348, col: 9, offset: 75947},
+									pos: position{line: 2348, col: 9, offset: 75935},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2348, col: 9, offset: 75947},
+										pos: position{line: 2348, col: 9, offset: 75935},
 										exprs: []interface{}{
 											&andExpr{
 												pos: position{line: 2869, col: 11, offset: 90573},
@@ -43864,10 +43938,10 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2349, col: 9, offset: 75962},
+												pos:   position{line: 2349, col: 9, offset: 75950},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2350, col: 13, offset: 75984},
+													pos: position{line: 2350, col: 13, offset: 75972},
 													alternatives: []interface{}{
 														&actionExpr{
 															pos: position{line: 2751, col: 5, offset: 87481},
@@ -43950,25 +44024,25 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2352, col: 15, offset: 76030},
+															pos:  position{line: 2352, col: 15, offset: 76018},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2480, col: 5, offset: 79941},
+															pos: position{line: 2480, col: 5, offset: 79929},
 															run: (*parser).callonNormalGroup29,
 															expr: &seqExpr{
-																pos: position{line: 2480, col: 5, offset: 79941},
+																pos: position{line: 2480, col: 5, offset: 79929},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2480, col: 5, offset: 79941},
+																		pos:        position{line: 2480, col: 5, offset: 79929},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2480, col: 10, offset: 79946},
+																		pos: position{line: 2480, col: 10, offset: 79934},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2480, col: 11, offset: 79947},
+																			pos:        position{line: 2480, col: 11, offset: 79935},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -43979,29 +44053,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2486, col: 5, offset: 80139},
+															pos: position{line: 2486, col: 5, offset: 80127},
 															run: (*parser).callonNormalGroup34,
 															expr: &seqExpr{
-																pos: position{line: 2486, col: 5, offset: 80139},
+																pos: position{line: 2486, col: 5, offset: 80127},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2486, col: 5, offset: 80139},
+																		pos: position{line: 2486, col: 5, offset: 80127},
 																		run: (*parser).callonNormalGroup36,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2489, col: 5, offset: 80210},
+																		pos: position{line: 2489, col: 5, offset: 80198},
 																		run: (*parser).callonNormalGroup37,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2493, col: 5, offset: 80335},
+																		pos:        position{line: 2493, col: 5, offset: 80323},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2493, col: 9, offset: 80339},
+																		pos: position{line: 2493, col: 9, offset: 80327},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2493, col: 10, offset: 80340},
+																			pos:        position{line: 2493, col: 10, offset: 80328},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -44458,35 +44532,35 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2357, col: 15, offset: 76197},
+															pos:  position{line: 2357, col: 15, offset: 76185},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2358, col: 15, offset: 76217},
+															pos:  position{line: 2358, col: 15, offset: 76205},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2359, col: 15, offset: 76306},
+															pos:  position{line: 2359, col: 15, offset: 76294},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2449, col: 5, offset: 78770},
+															pos: position{line: 2449, col: 5, offset: 78758},
 															run: (*parser).callonNormalGroup132,
 															expr: &seqExpr{
-																pos: position{line: 2449, col: 5, offset: 78770},
+																pos: position{line: 2449, col: 5, offset: 78758},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2449, col: 5, offset: 78770},
+																		pos: position{line: 2449, col: 5, offset: 78758},
 																		run: (*parser).callonNormalGroup134,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2452, col: 5, offset: 78846},
+																		pos:   position{line: 2452, col: 5, offset: 78834},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2453, col: 9, offset: 78864},
+																			pos: position{line: 2453, col: 9, offset: 78852},
 																			run: (*parser).callonNormalGroup136,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2453, col: 10, offset: 78865},
+																				pos:        position{line: 2453, col: 10, offset: 78853},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -44576,7 +44650,7 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2362, col: 15, offset: 76488},
+															pos:  position{line: 2362, col: 15, offset: 76476},
 															name: "InlinePassthrough",
 														},
 														&actionExpr{
@@ -44649,20 +44723,20 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2373, col: 1, offset: 76926},
+			pos:  position{line: 2373, col: 1, offset: 76914},
 			expr: &actionExpr{
-				pos: position{line: 2374, col: 5, offset: 76959},
+				pos: position{line: 2374, col: 5, offset: 76947},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2374, col: 5, offset: 76959},
+					pos: position{line: 2374, col: 5, offset: 76947},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2374, col: 5, offset: 76959},
+							pos:   position{line: 2374, col: 5, offset: 76947},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2374, col: 14, offset: 76968},
+								pos: position{line: 2374, col: 14, offset: 76956},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2374, col: 15, offset: 76969},
+									pos:  position{line: 2374, col: 15, offset: 76957},
 									name: "AttributeStructuredValueElement",
 								},
 							},
@@ -44679,12 +44753,12 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2378, col: 1, offset: 77066},
+			pos:  position{line: 2378, col: 1, offset: 77054},
 			expr: &actionExpr{
-				pos: position{line: 2379, col: 5, offset: 77106},
+				pos: position{line: 2379, col: 5, offset: 77094},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2379, col: 5, offset: 77106},
+					pos: position{line: 2379, col: 5, offset: 77094},
 					exprs: []interface{}{
 						&andExpr{
 							pos: position{line: 2869, col: 11, offset: 90573},
@@ -44693,10 +44767,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2380, col: 5, offset: 77117},
+							pos:   position{line: 2380, col: 5, offset: 77105},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2381, col: 9, offset: 77135},
+								pos: position{line: 2381, col: 9, offset: 77123},
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 2751, col: 5, offset: 87481},
@@ -44776,7 +44850,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2383, col: 11, offset: 77173},
+										pos:  position{line: 2383, col: 11, offset: 77161},
 										name: "Replacement",
 									},
 									&actionExpr{
@@ -44853,31 +44927,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2385, col: 11, offset: 77246},
+										pos:  position{line: 2385, col: 11, offset: 77234},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2386, col: 11, offset: 77262},
+										pos:  position{line: 2386, col: 11, offset: 77250},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2449, col: 5, offset: 78770},
+										pos: position{line: 2449, col: 5, offset: 78758},
 										run: (*parser).callonAttributeStructuredValueElement40,
 										expr: &seqExpr{
-											pos: position{line: 2449, col: 5, offset: 78770},
+											pos: position{line: 2449, col: 5, offset: 78758},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2449, col: 5, offset: 78770},
+													pos: position{line: 2449, col: 5, offset: 78758},
 													run: (*parser).callonAttributeStructuredValueElement42,
 												},
 												&labeledExpr{
-													pos:   position{line: 2452, col: 5, offset: 78846},
+													pos:   position{line: 2452, col: 5, offset: 78834},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2453, col: 9, offset: 78864},
+														pos: position{line: 2453, col: 9, offset: 78852},
 														run: (*parser).callonAttributeStructuredValueElement44,
 														expr: &charClassMatcher{
-															pos:        position{line: 2453, col: 10, offset: 78865},
+															pos:        position{line: 2453, col: 10, offset: 78853},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -44974,49 +45048,49 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2397, col: 1, offset: 77532},
+			pos:  position{line: 2397, col: 1, offset: 77520},
 			expr: &actionExpr{
-				pos: position{line: 2399, col: 5, offset: 77614},
+				pos: position{line: 2399, col: 5, offset: 77602},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2399, col: 5, offset: 77614},
+					pos: position{line: 2399, col: 5, offset: 77602},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2399, col: 5, offset: 77614},
+							pos: position{line: 2399, col: 5, offset: 77602},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2402, col: 5, offset: 77679},
+							pos:   position{line: 2402, col: 5, offset: 77667},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2403, col: 9, offset: 77697},
+								pos: position{line: 2403, col: 9, offset: 77685},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2403, col: 9, offset: 77697},
+										pos:  position{line: 2403, col: 9, offset: 77685},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2404, col: 11, offset: 77718},
+										pos:  position{line: 2404, col: 11, offset: 77706},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2405, col: 11, offset: 77741},
+										pos:  position{line: 2405, col: 11, offset: 77729},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2406, col: 11, offset: 77757},
+										pos:  position{line: 2406, col: 11, offset: 77745},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2407, col: 11, offset: 77786},
+										pos:  position{line: 2407, col: 11, offset: 77774},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2408, col: 11, offset: 77812},
+										pos:  position{line: 2408, col: 11, offset: 77800},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2409, col: 11, offset: 77838},
+										pos:  position{line: 2409, col: 11, offset: 77826},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
@@ -45321,15 +45395,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2412, col: 11, offset: 77917},
+										pos:  position{line: 2412, col: 11, offset: 77905},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2413, col: 11, offset: 77937},
+										pos:  position{line: 2413, col: 11, offset: 77925},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2414, col: 11, offset: 77960},
+										pos:  position{line: 2414, col: 11, offset: 77948},
 										name: "InlineMenu",
 									},
 								},
@@ -45341,22 +45415,22 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2418, col: 1, offset: 78017},
+			pos:  position{line: 2418, col: 1, offset: 78005},
 			expr: &actionExpr{
-				pos: position{line: 2420, col: 5, offset: 78105},
+				pos: position{line: 2420, col: 5, offset: 78093},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2420, col: 5, offset: 78105},
+					pos: position{line: 2420, col: 5, offset: 78093},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2420, col: 5, offset: 78105},
+							pos: position{line: 2420, col: 5, offset: 78093},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2423, col: 5, offset: 78182},
+							pos:   position{line: 2423, col: 5, offset: 78170},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2424, col: 9, offset: 78200},
+								pos: position{line: 2424, col: 9, offset: 78188},
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 1379, col: 26, offset: 43964},
@@ -45739,7 +45813,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2424, col: 57, offset: 78248},
+										pos:  position{line: 2424, col: 57, offset: 78236},
 										name: "PassthroughMacro",
 									},
 								},
@@ -45751,16 +45825,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2429, col: 1, offset: 78308},
+			pos:  position{line: 2429, col: 1, offset: 78296},
 			expr: &seqExpr{
-				pos: position{line: 2431, col: 5, offset: 78384},
+				pos: position{line: 2431, col: 5, offset: 78372},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2431, col: 5, offset: 78384},
+						pos: position{line: 2431, col: 5, offset: 78372},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2434, col: 5, offset: 78449},
+						pos:  position{line: 2434, col: 5, offset: 78437},
 						name: "QuotedText",
 					},
 				},
@@ -45768,22 +45842,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2436, col: 1, offset: 78462},
+			pos:  position{line: 2436, col: 1, offset: 78450},
 			expr: &actionExpr{
-				pos: position{line: 2438, col: 5, offset: 78544},
+				pos: position{line: 2438, col: 5, offset: 78532},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2438, col: 5, offset: 78544},
+					pos: position{line: 2438, col: 5, offset: 78532},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2438, col: 5, offset: 78544},
+							pos: position{line: 2438, col: 5, offset: 78532},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2441, col: 5, offset: 78615},
+							pos:   position{line: 2441, col: 5, offset: 78603},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2442, col: 9, offset: 78633},
+								pos:  position{line: 2442, col: 9, offset: 78621},
 								name: "Symbol",
 							},
 						},
@@ -45793,82 +45867,72 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2497, col: 1, offset: 80392},
+			pos:  position{line: 2497, col: 1, offset: 80380},
 			expr: &choiceExpr{
-				pos: position{line: 2499, col: 5, offset: 80422},
+				pos: position{line: 2499, col: 5, offset: 80410},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2499, col: 5, offset: 80422},
+						pos: position{line: 2499, col: 5, offset: 80410},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2499, col: 5, offset: 80422},
+							pos: position{line: 2499, col: 5, offset: 80410},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2499, col: 5, offset: 80422},
+									pos:        position{line: 2499, col: 5, offset: 80410},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2499, col: 10, offset: 80427},
+									pos: position{line: 2499, col: 10, offset: 80415},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2499, col: 10, offset: 80427},
+											pos:  position{line: 2499, col: 10, offset: 80415},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2528, col: 14, offset: 81531},
+											pos: position{line: 2528, col: 14, offset: 81549},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2528, col: 14, offset: 81531},
+												pos:        position{line: 2528, col: 14, offset: 81549},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2532, col: 14, offset: 81597},
+											pos: position{line: 2532, col: 14, offset: 81615},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2532, col: 14, offset: 81597},
+												pos:        position{line: 2532, col: 14, offset: 81615},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2536, col: 15, offset: 81666},
+											pos: position{line: 2536, col: 15, offset: 81684},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2536, col: 15, offset: 81666},
+												pos:        position{line: 2536, col: 15, offset: 81684},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2540, col: 13, offset: 81731},
+											pos: position{line: 2540, col: 13, offset: 81749},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2540, col: 13, offset: 81731},
+												pos:        position{line: 2540, col: 13, offset: 81749},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
-										&actionExpr{
-											pos: position{line: 2568, col: 21, offset: 82301},
-											run: (*parser).callonSymbol15,
-											expr: &litMatcher{
-												pos:        position{line: 2568, col: 21, offset: 82301},
-												val:        "->",
-												ignoreCase: false,
-												want:       "\"->\"",
-											},
-										},
 										&actionExpr{
 											pos: position{line: 2547, col: 5, offset: 81887},
-											run: (*parser).callonSymbol17,
+											run: (*parser).callonSymbol15,
 											expr: &seqExpr{
 												pos: position{line: 2547, col: 5, offset: 81887},
 												exprs: []interface{}{
@@ -45880,14 +45944,14 @@ var g = &grammar{
 													},
 													&andCodeExpr{
 														pos: position{line: 2548, col: 5, offset: 81897},
-														run: (*parser).callonSymbol20,
+														run: (*parser).callonSymbol18,
 													},
 													&choiceExpr{
 														pos: position{line: 2552, col: 6, offset: 81984},
 														alternatives: []interface{}{
 															&actionExpr{
 																pos: position{line: 2852, col: 10, offset: 90239},
-																run: (*parser).callonSymbol22,
+																run: (*parser).callonSymbol20,
 																expr: &charClassMatcher{
 																	pos:        position{line: 2852, col: 10, offset: 90239},
 																	val:        "[\\t ]",
@@ -45903,7 +45967,7 @@ var g = &grammar{
 																	alternatives: []interface{}{
 																		&actionExpr{
 																			pos: position{line: 2861, col: 12, offset: 90410},
-																			run: (*parser).callonSymbol26,
+																			run: (*parser).callonSymbol24,
 																			expr: &choiceExpr{
 																				pos: position{line: 2861, col: 13, offset: 90411},
 																				alternatives: []interface{}{
@@ -45944,7 +46008,7 @@ var g = &grammar{
 										},
 										&actionExpr{
 											pos: position{line: 2557, col: 5, offset: 82112},
-											run: (*parser).callonSymbol33,
+											run: (*parser).callonSymbol31,
 											expr: &seqExpr{
 												pos: position{line: 2557, col: 5, offset: 82112},
 												exprs: []interface{}{
@@ -45956,7 +46020,7 @@ var g = &grammar{
 													},
 													&andCodeExpr{
 														pos: position{line: 2558, col: 5, offset: 82122},
-														run: (*parser).callonSymbol36,
+														run: (*parser).callonSymbol34,
 													},
 													&andExpr{
 														pos: position{line: 2562, col: 5, offset: 82211},
@@ -45972,7 +46036,7 @@ var g = &grammar{
 																},
 																&actionExpr{
 																	pos: position{line: 2861, col: 12, offset: 90410},
-																	run: (*parser).callonSymbol40,
+																	run: (*parser).callonSymbol38,
 																	expr: &choiceExpr{
 																		pos: position{line: 2861, col: 13, offset: 90411},
 																		alternatives: []interface{}{
@@ -46009,34 +46073,149 @@ var g = &grammar{
 												},
 											},
 										},
-										&actionExpr{
-											pos: position{line: 2572, col: 20, offset: 82371},
-											run: (*parser).callonSymbol47,
-											expr: &litMatcher{
-												pos:        position{line: 2572, col: 20, offset: 82371},
-												val:        "<-",
-												ignoreCase: false,
-												want:       "\"<-\"",
-											},
-										},
-										&actionExpr{
-											pos: position{line: 2576, col: 21, offset: 82442},
-											run: (*parser).callonSymbol49,
-											expr: &litMatcher{
-												pos:        position{line: 2576, col: 21, offset: 82442},
-												val:        "=>",
-												ignoreCase: false,
-												want:       "\"=>\"",
+									},
+								},
+							},
+						},
+					},
+					&actionExpr{
+						pos: position{line: 2502, col: 7, offset: 80579},
+						run: (*parser).callonSymbol45,
+						expr: &seqExpr{
+							pos: position{line: 2502, col: 7, offset: 80579},
+							exprs: []interface{}{
+								&litMatcher{
+									pos:        position{line: 2502, col: 7, offset: 80579},
+									val:        "\\",
+									ignoreCase: false,
+									want:       "\"\\\\\"",
+								},
+								&labeledExpr{
+									pos:   position{line: 2502, col: 11, offset: 80583},
+									label: "elements",
+									expr: &choiceExpr{
+										pos: position{line: 2502, col: 21, offset: 80593},
+										alternatives: []interface{}{
+											&seqExpr{
+												pos: position{line: 2502, col: 21, offset: 80593},
+												exprs: []interface{}{
+													&charClassMatcher{
+														pos:        position{line: 2502, col: 21, offset: 80593},
+														val:        "[-=]",
+														chars:      []rune{'-', '='},
+														ignoreCase: false,
+														inverted:   false,
+													},
+													&andExpr{
+														pos: position{line: 2502, col: 26, offset: 80598},
+														expr: &litMatcher{
+															pos:        position{line: 2502, col: 27, offset: 80599},
+															val:        ">",
+															ignoreCase: false,
+															want:       "\">\"",
+														},
+													},
+													&choiceExpr{
+														pos: position{line: 2502, col: 32, offset: 80604},
+														alternatives: []interface{}{
+															&actionExpr{
+																pos: position{line: 2449, col: 5, offset: 78758},
+																run: (*parser).callonSymbol55,
+																expr: &seqExpr{
+																	pos: position{line: 2449, col: 5, offset: 78758},
+																	exprs: []interface{}{
+																		&andCodeExpr{
+																			pos: position{line: 2449, col: 5, offset: 78758},
+																			run: (*parser).callonSymbol57,
+																		},
+																		&labeledExpr{
+																			pos:   position{line: 2452, col: 5, offset: 78834},
+																			label: "element",
+																			expr: &actionExpr{
+																				pos: position{line: 2453, col: 9, offset: 78852},
+																				run: (*parser).callonSymbol59,
+																				expr: &charClassMatcher{
+																					pos:        position{line: 2453, col: 10, offset: 78853},
+																					val:        "[<>&]",
+																					chars:      []rune{'<', '>', '&'},
+																					ignoreCase: false,
+																					inverted:   false,
+																				},
+																			},
+																		},
+																	},
+																},
+															},
+															&anyMatcher{
+																line: 2502, col: 51, offset: 80623,
+															},
+														},
+													},
+												},
 											},
-										},
-										&actionExpr{
-											pos: position{line: 2580, col: 20, offset: 82512},
-											run: (*parser).callonSymbol51,
-											expr: &litMatcher{
-												pos:        position{line: 2580, col: 20, offset: 82512},
-												val:        "<=",
-												ignoreCase: false,
-												want:       "\"<=\"",
+											&seqExpr{
+												pos: position{line: 2502, col: 56, offset: 80628},
+												exprs: []interface{}{
+													&andExpr{
+														pos: position{line: 2502, col: 56, offset: 80628},
+														expr: &choiceExpr{
+															pos: position{line: 2502, col: 58, offset: 80630},
+															alternatives: []interface{}{
+																&litMatcher{
+																	pos:        position{line: 2502, col: 58, offset: 80630},
+																	val:        "<-",
+																	ignoreCase: false,
+																	want:       "\"<-\"",
+																},
+																&litMatcher{
+																	pos:        position{line: 2502, col: 65, offset: 80637},
+																	val:        "<=",
+																	ignoreCase: false,
+																	want:       "\"<=\"",
+																},
+															},
+														},
+													},
+													&choiceExpr{
+														pos: position{line: 2502, col: 72, offset: 80644},
+														alternatives: []interface{}{
+															&actionExpr{
+																pos: position{line: 2449, col: 5, offset: 78758},
+																run: (*parser).callonSymbol68,
+																expr: &seqExpr{
+																	pos: position{line: 2449, col: 5, offset: 78758},
+																	exprs: []interface{}{
+																		&andCodeExpr{
+																			pos: position{line: 2449, col: 5, offset: 78758},
+																			run: (*parser).callonSymbol70,
+																		},
+																		&labeledExpr{
+																			pos:   position{line: 2452, col: 5, offset: 78834},
+																			label: "element",
+																			expr: &actionExpr{
+																				pos: position{line: 2453, col: 9, offset: 78852},
+																				run: (*parser).callonSymbol72,
+																				expr: &charClassMatcher{
+																					pos:        position{line: 2453, col: 10, offset: 78853},
+																					val:        "[<>&]",
+																					chars:      []rune{'<', '>', '&'},
+																					ignoreCase: false,
+																					inverted:   false,
+																				},
+																			},
+																		},
+																	},
+																},
+															},
+															&anyMatcher{
+																line: 2502, col: 91, offset: 80663,
+															},
+														},
+													},
+													&anyMatcher{
+														line: 2502, col: 94, offset: 80666,
+													},
+												},
 											},
 										},
 									},
@@ -46045,44 +46224,44 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2503, col: 7, offset: 80682},
+						pos:  position{line: 2503, col: 7, offset: 80700},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2528, col: 14, offset: 81531},
-						run: (*parser).callonSymbol54,
+						pos: position{line: 2528, col: 14, offset: 81549},
+						run: (*parser).callonSymbol77,
 						expr: &litMatcher{
-							pos:        position{line: 2528, col: 14, offset: 81531},
+							pos:        position{line: 2528, col: 14, offset: 81549},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2532, col: 14, offset: 81597},
-						run: (*parser).callonSymbol56,
+						pos: position{line: 2532, col: 14, offset: 81615},
+						run: (*parser).callonSymbol79,
 						expr: &litMatcher{
-							pos:        position{line: 2532, col: 14, offset: 81597},
+							pos:        position{line: 2532, col: 14, offset: 81615},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2536, col: 15, offset: 81666},
-						run: (*parser).callonSymbol58,
+						pos: position{line: 2536, col: 15, offset: 81684},
+						run: (*parser).callonSymbol81,
 						expr: &litMatcher{
-							pos:        position{line: 2536, col: 15, offset: 81666},
+							pos:        position{line: 2536, col: 15, offset: 81684},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2540, col: 13, offset: 81731},
-						run: (*parser).callonSymbol60,
+						pos: position{line: 2540, col: 13, offset: 81749},
+						run: (*parser).callonSymbol83,
 						expr: &litMatcher{
-							pos:        position{line: 2540, col: 13, offset: 81731},
+							pos:        position{line: 2540, col: 13, offset: 81749},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
@@ -46090,7 +46269,7 @@ var g = &grammar{
 					},
 					&actionExpr{
 						pos: position{line: 2547, col: 5, offset: 81887},
-						run: (*parser).callonSymbol62,
+						run: (*parser).callonSymbol85,
 						expr: &seqExpr{
 							pos: position{line: 2547, col: 5, offset: 81887},
 							exprs: []interface{}{
@@ -46102,14 +46281,14 @@ var g = &grammar{
 								},
 								&andCodeExpr{
 									pos: position{line: 2548, col: 5, offset: 81897},
-									run: (*parser).callonSymbol65,
+									run: (*parser).callonSymbol88,
 								},
 								&choiceExpr{
 									pos: position{line: 2552, col: 6, offset: 81984},
 									alternatives: []interface{}{
 										&actionExpr{
 											pos: position{line: 2852, col: 10, offset: 90239},
-											run: (*parser).callonSymbol67,
+											run: (*parser).callonSymbol90,
 											expr: &charClassMatcher{
 												pos:        position{line: 2852, col: 10, offset: 90239},
 												val:        "[\\t ]",
@@ -46125,7 +46304,7 @@ var g = &grammar{
 												alternatives: []interface{}{
 													&actionExpr{
 														pos: position{line: 2861, col: 12, offset: 90410},
-														run: (*parser).callonSymbol71,
+														run: (*parser).callonSymbol94,
 														expr: &choiceExpr{
 															pos: position{line: 2861, col: 13, offset: 90411},
 															alternatives: []interface{}{
@@ -46166,7 +46345,7 @@ var g = &grammar{
 					},
 					&actionExpr{
 						pos: position{line: 2557, col: 5, offset: 82112},
-						run: (*parser).callonSymbol78,
+						run: (*parser).callonSymbol101,
 						expr: &seqExpr{
 							pos: position{line: 2557, col: 5, offset: 82112},
 							exprs: []interface{}{
@@ -46178,7 +46357,7 @@ var g = &grammar{
 								},
 								&andCodeExpr{
 									pos: position{line: 2558, col: 5, offset: 82122},
-									run: (*parser).callonSymbol81,
+									run: (*parser).callonSymbol104,
 								},
 								&andExpr{
 									pos: position{line: 2562, col: 5, offset: 82211},
@@ -46194,7 +46373,7 @@ var g = &grammar{
 											},
 											&actionExpr{
 												pos: position{line: 2861, col: 12, offset: 90410},
-												run: (*parser).callonSymbol85,
+												run: (*parser).callonSymbol108,
 												expr: &choiceExpr{
 													pos: position{line: 2861, col: 13, offset: 90411},
 													alternatives: []interface{}{
@@ -46233,7 +46412,7 @@ var g = &grammar{
 					},
 					&actionExpr{
 						pos: position{line: 2568, col: 21, offset: 82301},
-						run: (*parser).callonSymbol92,
+						run: (*parser).callonSymbol115,
 						expr: &litMatcher{
 							pos:        position{line: 2568, col: 21, offset: 82301},
 							val:        "->",
@@ -46243,7 +46422,7 @@ var g = &grammar{
 					},
 					&actionExpr{
 						pos: position{line: 2572, col: 20, offset: 82371},
-						run: (*parser).callonSymbol94,
+						run: (*parser).callonSymbol117,
 						expr: &litMatcher{
 							pos:        position{line: 2572, col: 20, offset: 82371},
 							val:        "<-",
@@ -46253,7 +46432,7 @@ var g = &grammar{
 					},
 					&actionExpr{
 						pos: position{line: 2576, col: 21, offset: 82442},
-						run: (*parser).callonSymbol96,
+						run: (*parser).callonSymbol119,
 						expr: &litMatcher{
 							pos:        position{line: 2576, col: 21, offset: 82442},
 							val:        "=>",
@@ -46263,7 +46442,7 @@ var g = &grammar{
 					},
 					&actionExpr{
 						pos: position{line: 2580, col: 20, offset: 82512},
-						run: (*parser).callonSymbol98,
+						run: (*parser).callonSymbol121,
 						expr: &litMatcher{
 							pos:        position{line: 2580, col: 20, offset: 82512},
 							val:        "<=",
@@ -46276,24 +46455,24 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2514, col: 1, offset: 80872},
+			pos:  position{line: 2514, col: 1, offset: 80890},
 			expr: &choiceExpr{
-				pos: position{line: 2515, col: 5, offset: 80894},
+				pos: position{line: 2515, col: 5, offset: 80912},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2515, col: 5, offset: 80894},
+						pos: position{line: 2515, col: 5, offset: 80912},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2515, col: 5, offset: 80894},
+							pos: position{line: 2515, col: 5, offset: 80912},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2515, col: 5, offset: 80894},
+									pos:        position{line: 2515, col: 5, offset: 80912},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2515, col: 11, offset: 80900},
+									pos: position{line: 2515, col: 11, offset: 80918},
 									expr: &seqExpr{
 										pos: position{line: 2078, col: 5, offset: 67104},
 										exprs: []interface{}{
@@ -46326,21 +46505,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2518, col: 7, offset: 81053},
+						pos: position{line: 2518, col: 7, offset: 81071},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2518, col: 7, offset: 81053},
+							pos: position{line: 2518, col: 7, offset: 81071},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2518, col: 7, offset: 81053},
+									pos:        position{line: 2518, col: 7, offset: 81071},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2518, col: 13, offset: 81059},
+									pos: position{line: 2518, col: 13, offset: 81077},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2518, col: 14, offset: 81060},
+										pos:  position{line: 2518, col: 14, offset: 81078},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -46348,19 +46527,19 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2521, col: 7, offset: 81210},
+						pos: position{line: 2521, col: 7, offset: 81228},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2521, col: 7, offset: 81210},
+							pos: position{line: 2521, col: 7, offset: 81228},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2521, col: 7, offset: 81210},
+									pos:        position{line: 2521, col: 7, offset: 81228},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2521, col: 12, offset: 81215},
+									pos: position{line: 2521, col: 12, offset: 81233},
 									expr: &seqExpr{
 										pos: position{line: 2078, col: 5, offset: 67104},
 										exprs: []interface{}{
@@ -46393,21 +46572,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2524, col: 7, offset: 81368},
+						pos: position{line: 2524, col: 7, offset: 81386},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2524, col: 7, offset: 81368},
+							pos: position{line: 2524, col: 7, offset: 81386},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2524, col: 7, offset: 81368},
+									pos:        position{line: 2524, col: 7, offset: 81386},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2524, col: 12, offset: 81373},
+									pos: position{line: 2524, col: 12, offset: 81391},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2524, col: 13, offset: 81374},
+										pos:  position{line: 2524, col: 13, offset: 81392},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -69533,16 +69712,48 @@ func (p *parser) callonSubscriptText1() (interface{}, error) {
 	return p.cur.onSubscriptText1(stack["element"])
 }
 
-func (c *current) onSubscriptTextElement3() (interface{}, error) {
-	// anything except spaces, EOL or '~'
-	return c.text, nil
+func (c *current) onSubscriptTextElement9() (bool, error) {
+	return c.isSubstitutionEnabled(SpecialCharacters), nil
+
+}
+
+func (p *parser) callonSubscriptTextElement9() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSubscriptTextElement9()
+}
+
+func (c *current) onSubscriptTextElement11() (interface{}, error) {
+	return types.NewSpecialCharacter(string(c.text))
+
+}
+
+func (p *parser) callonSubscriptTextElement11() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSubscriptTextElement11()
+}
+
+func (c *current) onSubscriptTextElement7(element interface{}) (interface{}, error) {
+	return element, nil
+
+}
+
+func (p *parser) callonSubscriptTextElement7() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSubscriptTextElement7(stack["element"])
+}
+
+func (c *current) onSubscriptTextElement3(elements interface{}) (interface{}, error) {
+	return elements, nil
 
 }
 
 func (p *parser) callonSubscriptTextElement3() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSubscriptTextElement3()
+	return p.cur.onSubscriptTextElement3(stack["elements"])
 }
 
 func (c *current) onEscapedSubscriptText4() (interface{}, error) {
@@ -69580,16 +69791,48 @@ func (p *parser) callonSuperscriptText1() (interface{}, error) {
 	return p.cur.onSuperscriptText1(stack["element"])
 }
 
-func (c *current) onSuperscriptTextElement3() (interface{}, error) {
-	// anything except spaces, EOL or '^'
-	return c.text, nil
+func (c *current) onSuperscriptTextElement9() (bool, error) {
+	return c.isSubstitutionEnabled(SpecialCharacters), nil
+
+}
+
+func (p *parser) callonSuperscriptTextElement9() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSuperscriptTextElement9()
+}
+
+func (c *current) onSuperscriptTextElement11() (interface{}, error) {
+	return types.NewSpecialCharacter(string(c.text))
+
+}
+
+func (p *parser) callonSuperscriptTextElement11() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSuperscriptTextElement11()
+}
+
+func (c *current) onSuperscriptTextElement7(element interface{}) (interface{}, error) {
+	return element, nil
+
+}
+
+func (p *parser) callonSuperscriptTextElement7() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSuperscriptTextElement7(stack["element"])
+}
+
+func (c *current) onSuperscriptTextElement3(elements interface{}) (interface{}, error) {
+	return elements, nil
 
 }
 
 func (p *parser) callonSuperscriptTextElement3() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSuperscriptTextElement3()
+	return p.cur.onSuperscriptTextElement3(stack["elements"])
 }
 
 func (c *current) onEscapedSuperscriptText4() (interface{}, error) {
@@ -71582,307 +71825,339 @@ func (p *parser) callonSymbol13() (interface{}, error) {
 	return p.cur.onSymbol13()
 }
 
-func (c *current) onSymbol15() (interface{}, error) {
-	return types.NewSymbol("->")
-
-}
-
-func (p *parser) callonSymbol15() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onSymbol15()
-}
-
-func (c *current) onSymbol20() (bool, error) {
+func (c *current) onSymbol18() (bool, error) {
 	log.Debug("Mdash (a)")
 	return c.isPrecededBySpace(), nil
 
 }
 
-func (p *parser) callonSymbol20() (bool, error) {
+func (p *parser) callonSymbol18() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSymbol20()
+	return p.cur.onSymbol18()
 }
 
-func (c *current) onSymbol22() (interface{}, error) {
+func (c *current) onSymbol20() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSymbol22() (interface{}, error) {
+func (p *parser) callonSymbol20() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSymbol22()
+	return p.cur.onSymbol20()
 }
 
-func (c *current) onSymbol26() (interface{}, error) {
+func (c *current) onSymbol24() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonSymbol26() (interface{}, error) {
+func (p *parser) callonSymbol24() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSymbol26()
+	return p.cur.onSymbol24()
 }
 
-func (c *current) onSymbol17() (interface{}, error) {
+func (c *current) onSymbol15() (interface{}, error) {
 	return types.NewSymbol(" -- ")
 
 }
 
-func (p *parser) callonSymbol17() (interface{}, error) {
+func (p *parser) callonSymbol15() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSymbol17()
+	return p.cur.onSymbol15()
 }
 
-func (c *current) onSymbol36() (bool, error) {
+func (c *current) onSymbol34() (bool, error) {
 	log.Debug("Mdash (b)")
 	return c.isPrecededByAlphanum(), nil
 
 }
 
-func (p *parser) callonSymbol36() (bool, error) {
+func (p *parser) callonSymbol34() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSymbol36()
+	return p.cur.onSymbol34()
 }
 
-func (c *current) onSymbol40() (interface{}, error) {
+func (c *current) onSymbol38() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonSymbol40() (interface{}, error) {
+func (p *parser) callonSymbol38() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSymbol40()
+	return p.cur.onSymbol38()
 }
 
-func (c *current) onSymbol33() (interface{}, error) {
+func (c *current) onSymbol31() (interface{}, error) {
 	return types.NewSymbol("--")
 
 }
 
-func (p *parser) callonSymbol33() (interface{}, error) {
+func (p *parser) callonSymbol31() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSymbol33()
+	return p.cur.onSymbol31()
 }
 
-func (c *current) onSymbol47() (interface{}, error) {
-	return types.NewSymbol("<-")
+func (c *current) onSymbol2() (interface{}, error) {
+	return types.NewStringElement(strings.TrimPrefix(string(c.text), `\`))
 
 }
 
-func (p *parser) callonSymbol47() (interface{}, error) {
+func (p *parser) callonSymbol2() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSymbol47()
+	return p.cur.onSymbol2()
 }
 
-func (c *current) onSymbol49() (interface{}, error) {
-	return types.NewSymbol("=>")
+func (c *current) onSymbol57() (bool, error) {
+	return c.isSubstitutionEnabled(SpecialCharacters), nil
 
 }
 
-func (p *parser) callonSymbol49() (interface{}, error) {
+func (p *parser) callonSymbol57() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSymbol49()
+	return p.cur.onSymbol57()
 }
 
-func (c *current) onSymbol51() (interface{}, error) {
-	return types.NewSymbol("<=")
+func (c *current) onSymbol59() (interface{}, error) {
+	return types.NewSpecialCharacter(string(c.text))
 
 }
 
-func (p *parser) callonSymbol51() (interface{}, error) {
+func (p *parser) callonSymbol59() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSymbol51()
+	return p.cur.onSymbol59()
 }
 
-func (c *current) onSymbol2() (interface{}, error) {
-	return types.NewStringElement(strings.TrimPrefix(string(c.text), `\`))
+func (c *current) onSymbol55(element interface{}) (interface{}, error) {
+	return element, nil
 
 }
 
-func (p *parser) callonSymbol2() (interface{}, error) {
+func (p *parser) callonSymbol55() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSymbol2()
+	return p.cur.onSymbol55(stack["element"])
 }
 
-func (c *current) onSymbol54() (interface{}, error) {
+func (c *current) onSymbol70() (bool, error) {
+	return c.isSubstitutionEnabled(SpecialCharacters), nil
+
+}
+
+func (p *parser) callonSymbol70() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSymbol70()
+}
+
+func (c *current) onSymbol72() (interface{}, error) {
+	return types.NewSpecialCharacter(string(c.text))
+
+}
+
+func (p *parser) callonSymbol72() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSymbol72()
+}
+
+func (c *current) onSymbol68(element interface{}) (interface{}, error) {
+	return element, nil
+
+}
+
+func (p *parser) callonSymbol68() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSymbol68(stack["element"])
+}
+
+func (c *current) onSymbol45(elements interface{}) (interface{}, error) {
+	return elements, nil
+}
+
+func (p *parser) callonSymbol45() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSymbol45(stack["elements"])
+}
+
+func (c *current) onSymbol77() (interface{}, error) {
 	return types.NewSymbol("(C)")
 
 }
 
-func (p *parser) callonSymbol54() (interface{}, error) {
+func (p *parser) callonSymbol77() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSymbol54()
+	return p.cur.onSymbol77()
 }
 
-func (c *current) onSymbol56() (interface{}, error) {
+func (c *current) onSymbol79() (interface{}, error) {
 	return types.NewSymbol("(TM)")
 
 }
 
-func (p *parser) callonSymbol56() (interface{}, error) {
+func (p *parser) callonSymbol79() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSymbol56()
+	return p.cur.onSymbol79()
 }
 
-func (c *current) onSymbol58() (interface{}, error) {
+func (c *current) onSymbol81() (interface{}, error) {
 	return types.NewSymbol("(R)")
 
 }
 
-func (p *parser) callonSymbol58() (interface{}, error) {
+func (p *parser) callonSymbol81() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSymbol58()
+	return p.cur.onSymbol81()
 }
 
-func (c *current) onSymbol60() (interface{}, error) {
+func (c *current) onSymbol83() (interface{}, error) {
 	return types.NewSymbol("...")
 
 }
 
-func (p *parser) callonSymbol60() (interface{}, error) {
+func (p *parser) callonSymbol83() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSymbol60()
+	return p.cur.onSymbol83()
 }
 
-func (c *current) onSymbol65() (bool, error) {
+func (c *current) onSymbol88() (bool, error) {
 	log.Debug("Mdash (a)")
 	return c.isPrecededBySpace(), nil
 
 }
 
-func (p *parser) callonSymbol65() (bool, error) {
+func (p *parser) callonSymbol88() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSymbol65()
+	return p.cur.onSymbol88()
 }
 
-func (c *current) onSymbol67() (interface{}, error) {
+func (c *current) onSymbol90() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSymbol67() (interface{}, error) {
+func (p *parser) callonSymbol90() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSymbol67()
+	return p.cur.onSymbol90()
 }
 
-func (c *current) onSymbol71() (interface{}, error) {
+func (c *current) onSymbol94() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonSymbol71() (interface{}, error) {
+func (p *parser) callonSymbol94() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSymbol71()
+	return p.cur.onSymbol94()
 }
 
-func (c *current) onSymbol62() (interface{}, error) {
+func (c *current) onSymbol85() (interface{}, error) {
 	return types.NewSymbol(" -- ")
 
 }
 
-func (p *parser) callonSymbol62() (interface{}, error) {
+func (p *parser) callonSymbol85() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSymbol62()
+	return p.cur.onSymbol85()
 }
 
-func (c *current) onSymbol81() (bool, error) {
+func (c *current) onSymbol104() (bool, error) {
 	log.Debug("Mdash (b)")
 	return c.isPrecededByAlphanum(), nil
 
 }
 
-func (p *parser) callonSymbol81() (bool, error) {
+func (p *parser) callonSymbol104() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSymbol81()
+	return p.cur.onSymbol104()
 }
 
-func (c *current) onSymbol85() (interface{}, error) {
+func (c *current) onSymbol108() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonSymbol85() (interface{}, error) {
+func (p *parser) callonSymbol108() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSymbol85()
+	return p.cur.onSymbol108()
 }
 
-func (c *current) onSymbol78() (interface{}, error) {
+func (c *current) onSymbol101() (interface{}, error) {
 	return types.NewSymbol("--")
 
 }
 
-func (p *parser) callonSymbol78() (interface{}, error) {
+func (p *parser) callonSymbol101() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSymbol78()
+	return p.cur.onSymbol101()
 }
 
-func (c *current) onSymbol92() (interface{}, error) {
+func (c *current) onSymbol115() (interface{}, error) {
 	return types.NewSymbol("->")
 
 }
 
-func (p *parser) callonSymbol92() (interface{}, error) {
+func (p *parser) callonSymbol115() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSymbol92()
+	return p.cur.onSymbol115()
 }
 
-func (c *current) onSymbol94() (interface{}, error) {
+func (c *current) onSymbol117() (interface{}, error) {
 	return types.NewSymbol("<-")
 
 }
 
-func (p *parser) callonSymbol94() (interface{}, error) {
+func (p *parser) callonSymbol117() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSymbol94()
+	return p.cur.onSymbol117()
 }
 
-func (c *current) onSymbol96() (interface{}, error) {
+func (c *current) onSymbol119() (interface{}, error) {
 	return types.NewSymbol("=>")
 
 }
 
-func (p *parser) callonSymbol96() (interface{}, error) {
+func (p *parser) callonSymbol119() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSymbol96()
+	return p.cur.onSymbol119()
 }
 
-func (c *current) onSymbol98() (interface{}, error) {
+func (c *current) onSymbol121() (interface{}, error) {
 	return types.NewSymbol("<=")
 
 }
 
-func (p *parser) callonSymbol98() (interface{}, error) {
+func (p *parser) callonSymbol121() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSymbol98()
+	return p.cur.onSymbol121()
 }
 
 func (c *current) onQuotationMark8() (bool, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 43c0107..2d351f9 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -2234,8 +2234,8 @@ SubscriptTextDelimiter <- "~"
 
 SubscriptTextElement <- QuotedText / NonSubscriptText 
 
-NonSubscriptText <- [^\r\n ~]+ { // anything except spaces, EOL or '~'
-        return c.text, nil
+NonSubscriptText <- elements:(SpecialCharacter / [^\r\n ~])+ {
+        return elements, nil
     }
 
 EscapedSubscriptText <-
@@ -2261,8 +2261,8 @@ SuperscriptTextDelimiter <- "^"
 
 SuperscriptTextElement <- QuotedText / NonSuperscriptText 
 
-NonSuperscriptText <- [^\r\n ^]+ { // anything except spaces, EOL or '^'
-        return c.text, nil
+NonSuperscriptText <- elements:(SpecialCharacter / [^\r\n ^])+ {
+        return elements, nil
     }
 
 EscapedSuperscriptText <- 
@@ -2496,10 +2496,10 @@ TypographicQuote <-
 
 Symbol <- 
     // escaped
-    `\` (QuotationMark / Copyright / Trademark / Registered / Ellipsis / SingleRightArrow / Mdash / SingleLeftArrow / DoubleRightArrow / DoubleLeftArrow) {
+    `\` (QuotationMark / Copyright / Trademark / Registered / Ellipsis / Mdash) {
         return types.NewStringElement(strings.TrimPrefix(string(c.text), `\`))
     }
-    // unescaped
+    / `\` elements:([-=] &">" (SpecialCharacter / .) / &("<-" / "<=") (SpecialCharacter / .) .) { return elements, nil }
     / QuotationMark 
     / Copyright 
     / Trademark 
@@ -2543,7 +2543,7 @@ Ellipsis <- "..." {
 
 Mdash <- 
     // 2 flavours: 
-    // a. preceded by a space character and followed by space or EOL
+    // a. preceded by a space, followed by one/EOL
     "--" 
     &{
         log.Debug("Mdash (a)")
-- 
2.43.0


From 013de104b1623175839015e29fceabf65f194d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:04 +0000
Subject: [PATCH 040/143] fix: use the values of attributes with predefined
 attributes, passthroughs and counters

---
 ...document_processing_apply_substitutions.go |  6 ++
 pkg/renderer/sgml/sgml.go                     | 35 +--------
 pkg/types/attributes.go                       | 12 +++
 pkg/types/predefined_attributes.go            | 73 ++++++++++---------
 4 files changed, 56 insertions(+), 70 deletions(-)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 99adc1b..1624432 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -391,6 +391,12 @@ func replaceAttributeRefsInSlicedValue(ctx *ParseContext, elements []interface{}
 				return nil, err
 			}
 			result = append(result, v)
+		case *types.CounterSubstitution:
+			v, err := valueForCounter(ctx, e)
+			if err != nil {
+				return nil, err
+			}
+			result = append(result, v)
 		case []interface{}: // entries in Roles and Options
 			v, err := replaceAttributeRefsInSlicedValue(ctx, e)
 			if err != nil {
diff --git a/pkg/renderer/sgml/sgml.go b/pkg/renderer/sgml/sgml.go
index 0739dce..b61df78 100644
--- a/pkg/renderer/sgml/sgml.go
+++ b/pkg/renderer/sgml/sgml.go
@@ -139,41 +139,8 @@ elements:
 
 }
 
-var predefinedAttributes = map[string]string{
-	"sp":             " ",
-	"blank":          "",
-	"empty":          "",
-	"nbsp":           "&#160;",
-	"zwsp":           "&#8203;",
-	"wj":             "&#8288;",
-	"apos":           "&#39;",
-	"quot":           "&#34;",
-	"lsquo":          "&#8216;",
-	"rsquo":          "&#8217;",
-	"ldquo":          "&#8220;",
-	"rdquo":          "&#8221;",
-	"deg":            "&#176;",
-	"plus":           "&#43;",
-	"brvbar":         "&#166;",
-	"vbar":           "|",
-	"amp":            "&",
-	"lt":             "<",
-	"gt":             ">",
-	"startsb":        "[",
-	"endsb":          "]",
-	"caret":          "^",
-	"asterisk":       "*",
-	"tilde":          "~",
-	"backslash":      `\`,
-	"backtick":       "`",
-	"two-colons":     "::",
-	"two-semicolons": ";",
-	"cpp":            "C++",
-}
-
 func predefinedAttribute(a string) string {
-	// log.Debugf("predefined attribute '%s': '%s", a, predefinedAttributes[a])
-	return predefinedAttributes[a]
+	return types.PredefinedAttributeValue(a)
 }
 
 func halign(v types.HAlign) string {
diff --git a/pkg/types/attributes.go b/pkg/types/attributes.go
index d8a5a9e..a2e5307 100644
--- a/pkg/types/attributes.go
+++ b/pkg/types/attributes.go
@@ -558,6 +558,18 @@ func stringifyAttributeValue(elements []interface{}) (string, bool) {
 			result.WriteString(e.Content)
 		case *SpecialCharacter:
 			result.WriteString(e.Name)
+		case *PredefinedAttribute:
+			result.WriteString(PredefinedAttributeValue(e.Name))
+		case *AttributeReference:
+			result.WriteString(e.rawText)
+		case *CounterSubstitution:
+			result.WriteString(e.rawText)
+		case *InlinePassthrough:
+			content, ok := stringifyAttributeValue(e.Elements)
+			if !ok {
+				return "", false
+			}
+			result.WriteString(content)
 		default:
 			return "", false
 		}
diff --git a/pkg/types/predefined_attributes.go b/pkg/types/predefined_attributes.go
index f74201e..a991a63 100644
--- a/pkg/types/predefined_attributes.go
+++ b/pkg/types/predefined_attributes.go
@@ -2,43 +2,44 @@ package types
 
 // PredefinedAttributes the predefined document attributes
 // May be converted into HTML entities
-var predefinedAttributes = []string{
-	"sp",
-	"blank",
-	"empty",
-	"nbsp",
-	"zwsp",
-	"wj",
-	"apos",
-	"quot",
-	"lsquo",
-	"rsquo",
-	"ldquo",
-	"rdquo",
-	"deg",
-	"plus",
-	"brvbar",
-	"vbar",
-	"amp",
-	"lt",
-	"gt",
-	"startsb",
-	"endsb",
-	"caret",
-	"asterisk",
-	"tilde",
-	"backslash",
-	"backtick",
-	"two-colons",
-	"two-semicolons",
-	"cpp",
+var predefinedAttributes = map[string]string{
+	"sp":             " ",
+	"blank":          "",
+	"empty":          "",
+	"nbsp":           "&#160;",
+	"zwsp":           "&#8203;",
+	"wj":             "&#8288;",
+	"apos":           "&#39;",
+	"quot":           "&#34;",
+	"lsquo":          "&#8216;",
+	"rsquo":          "&#8217;",
+	"ldquo":          "&#8220;",
+	"rdquo":          "&#8221;",
+	"deg":            "&#176;",
+	"plus":           "&#43;",
+	"brvbar":         "&#166;",
+	"vbar":           "|",
+	"amp":            "&",
+	"lt":             "<",
+	"gt":             ">",
+	"startsb":        "[",
+	"endsb":          "]",
+	"caret":          "^",
+	"asterisk":       "*",
+	"tilde":          "~",
+	"backslash":      `\`,
+	"backtick":       "`",
+	"two-colons":     "::",
+	"two-semicolons": ";",
+	"cpp":            "C++",
+}
+
+// PredefinedAttributeValue returns the value of the predefined attribute with the given name
+func PredefinedAttributeValue(name string) string {
+	return predefinedAttributes[name]
 }
 
 func isPrefedinedAttribute(a string) bool {
-	for _, v := range predefinedAttributes {
-		if v == a {
-			return true
-		}
-	}
-	return false
+	_, found := predefinedAttributes[a]
+	return found
 }
-- 
2.43.0


From 17b23bac4c57a5ddc25a483e229448acd900974f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:47 +0000
Subject: [PATCH 041/143] fix: set the attributes of the counters

---
 pkg/parser/document_processing_apply_substitutions.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 1624432..4c46128 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -608,6 +608,7 @@ func valueForCounter(ctx *ParseContext, c *types.CounterSubstitution) (string, e
 			counter++
 		}
 		ctx.counters[c.Name] = counter
+		ctx.attributes.set(c.Name, strconv.Itoa(counter))
 		if c.Hidden {
 			// return empty string facilitates merging
 			return "", nil
@@ -618,6 +619,7 @@ func valueForCounter(ctx *ParseContext, c *types.CounterSubstitution) (string, e
 			counter++
 		}
 		ctx.counters[c.Name] = counter
+		ctx.attributes.set(c.Name, string(counter))
 		if c.Hidden {
 			// return empty string facilitates merging
 			return "", nil
-- 
2.43.0


From a775aa8fb31f3afd8e3c756c244229e624eae048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:36 +0000
Subject: [PATCH 042/143] fix: no line breaks within tags, nor new lines in the
 ids of anchors

---
 pkg/parser/parser.go           | 42 +++++++++++++++++-----------------
 pkg/parser/parser.peg          |  2 +-
 pkg/renderer/sgml/paragraph.go | 22 +++++++++++++++++-
 3 files changed, 43 insertions(+), 23 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 7f484d7..49613e8 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -14893,8 +14893,8 @@ var g = &grammar{
 											pos: position{line: 2837, col: 7, offset: 89891},
 											expr: &charClassMatcher{
 												pos:        position{line: 2837, col: 7, offset: 89891},
-												val:        "[^[]<>,]",
-												chars:      []rune{'[', ']', '<', '>', ','},
+												val:        "[^[]<>,\\r\\n]",
+												chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 												ignoreCase: false,
 												inverted:   true,
 											},
@@ -15108,8 +15108,8 @@ var g = &grammar{
 											pos: position{line: 2837, col: 7, offset: 89891},
 											expr: &charClassMatcher{
 												pos:        position{line: 2837, col: 7, offset: 89891},
-												val:        "[^[]<>,]",
-												chars:      []rune{'[', ']', '<', '>', ','},
+												val:        "[^[]<>,\\r\\n]",
+												chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 												ignoreCase: false,
 												inverted:   true,
 											},
@@ -18785,8 +18785,8 @@ var g = &grammar{
 									pos: position{line: 2837, col: 7, offset: 89891},
 									expr: &charClassMatcher{
 										pos:        position{line: 2837, col: 7, offset: 89891},
-										val:        "[^[]<>,]",
-										chars:      []rune{'[', ']', '<', '>', ','},
+										val:        "[^[]<>,\\r\\n]",
+										chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 										ignoreCase: false,
 										inverted:   true,
 									},
@@ -43833,8 +43833,8 @@ var g = &grammar{
 															pos: position{line: 2837, col: 7, offset: 89891},
 															expr: &charClassMatcher{
 																pos:        position{line: 2837, col: 7, offset: 89891},
-																val:        "[^[]<>,]",
-																chars:      []rune{'[', ']', '<', '>', ','},
+																val:        "[^[]<>,\\r\\n]",
+																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
 																inverted:   true,
 															},
@@ -43872,8 +43872,8 @@ var g = &grammar{
 															pos: position{line: 2837, col: 7, offset: 89891},
 															expr: &charClassMatcher{
 																pos:        position{line: 2837, col: 7, offset: 89891},
-																val:        "[^[]<>,]",
-																chars:      []rune{'[', ']', '<', '>', ','},
+																val:        "[^[]<>,\\r\\n]",
+																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
 																inverted:   true,
 															},
@@ -45115,8 +45115,8 @@ var g = &grammar{
 															pos: position{line: 2837, col: 7, offset: 89891},
 															expr: &charClassMatcher{
 																pos:        position{line: 2837, col: 7, offset: 89891},
-																val:        "[^[]<>,]",
-																chars:      []rune{'[', ']', '<', '>', ','},
+																val:        "[^[]<>,\\r\\n]",
+																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
 																inverted:   true,
 															},
@@ -45154,8 +45154,8 @@ var g = &grammar{
 															pos: position{line: 2837, col: 7, offset: 89891},
 															expr: &charClassMatcher{
 																pos:        position{line: 2837, col: 7, offset: 89891},
-																val:        "[^[]<>,]",
-																chars:      []rune{'[', ']', '<', '>', ','},
+																val:        "[^[]<>,\\r\\n]",
+																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
 																inverted:   true,
 															},
@@ -55185,7 +55185,7 @@ func (p *parser) callonUnquotedAttributeValue1() (interface{}, error) {
 }
 
 func (c *current) onCrossReference6() (interface{}, error) {
-	// previously: (Alphanums / (!Newline !Space !"[" !"]" !"<<" !">>" !","  .))+
+	// previously:(Alphas / (!Newline !Space !"[" !"]" !"<<" !">>" !","  .))+
 	return string(c.text), nil
 
 }
@@ -55304,7 +55304,7 @@ func (p *parser) callonCrossReference2() (interface{}, error) {
 }
 
 func (c *current) onCrossReference49() (interface{}, error) {
-	// previously: (Alphanums / (!Newline !Space !"[" !"]" !"<<" !">>" !","  .))+
+	// previously:(Alphas / (!Newline !Space !"[" !"]" !"<<" !">>" !","  .))+
 	return string(c.text), nil
 
 }
@@ -57142,7 +57142,7 @@ func (p *parser) callonInlineMenu3() (bool, error) {
 }
 
 func (c *current) onInlineMenu6() (interface{}, error) {
-	// previously: (Alphanums / (!Newline !Space !"[" !"]" !"<<" !">>" !","  .))+
+	// previously:(Alphas / (!Newline !Space !"[" !"]" !"<<" !">>" !","  .))+
 	return string(c.text), nil
 
 }
@@ -70621,7 +70621,7 @@ func (p *parser) callonSectionTitleElement145() (interface{}, error) {
 }
 
 func (c *current) onSectionTitleElement256() (interface{}, error) {
-	// previously: (Alphanums / (!Newline !Space !"[" !"]" !"<<" !">>" !","  .))+
+	// previously:(Alphas / (!Newline !Space !"[" !"]" !"<<" !">>" !","  .))+
 	return string(c.text), nil
 
 }
@@ -70644,7 +70644,7 @@ func (p *parser) callonSectionTitleElement252() (interface{}, error) {
 }
 
 func (c *current) onSectionTitleElement264() (interface{}, error) {
-	// previously: (Alphanums / (!Newline !Space !"[" !"]" !"<<" !">>" !","  .))+
+	// previously:(Alphas / (!Newline !Space !"[" !"]" !"<<" !">>" !","  .))+
 	return string(c.text), nil
 
 }
@@ -71362,7 +71362,7 @@ func (p *parser) callonInlineMacro3() (bool, error) {
 }
 
 func (c *current) onInlineMacro17() (interface{}, error) {
-	// previously: (Alphanums / (!Newline !Space !"[" !"]" !"<<" !">>" !","  .))+
+	// previously:(Alphas / (!Newline !Space !"[" !"]" !"<<" !">>" !","  .))+
 	return string(c.text), nil
 
 }
@@ -71385,7 +71385,7 @@ func (p *parser) callonInlineMacro13() (interface{}, error) {
 }
 
 func (c *current) onInlineMacro25() (interface{}, error) {
-	// previously: (Alphanums / (!Newline !Space !"[" !"]" !"<<" !">>" !","  .))+
+	// previously:(Alphas / (!Newline !Space !"[" !"]" !"<<" !">>" !","  .))+
 	return string(c.text), nil
 
 }
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 2d351f9..dc85229 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -2834,7 +2834,7 @@ Filename <-
         return types.NewInlineElements(elements.([]interface{}))
     }
 
-Id <- [^[\]<>,]+ { // previously: (Alphanums / (!Newline !Space !"[" !"]" !"<<" !">>" !","  .))+
+Id <- [^[\]<>,\r\n]+ { // previously:(Alphas / (!Newline !Space !"[" !"]" !"<<" !">>" !","  .))+
         return string(c.text), nil
     }
 
diff --git a/pkg/renderer/sgml/paragraph.go b/pkg/renderer/sgml/paragraph.go
index 6946708..f993ef6 100644
--- a/pkg/renderer/sgml/paragraph.go
+++ b/pkg/renderer/sgml/paragraph.go
@@ -168,7 +168,27 @@ func (r *sgmlRenderer) renderParagraphElements(ctx *context, p *types.Paragraph)
 		if err := tmpl.Execute(linebreak, nil); err != nil {
 			return "", errors.Wrap(err, "unable to render line break")
 		}
-		result = strings.ReplaceAll(result, "\n", linebreak.String()+"\n")
+		result = insertLineBreaks(result, linebreak.String())
 	}
 	return result, nil
 }
+
+// insertLineBreaks inserts the given line break at the end of the lines, but not within the tags
+func insertLineBreaks(content, linebreak string) string {
+	result := &strings.Builder{}
+	withinTag := false
+	for _, c := range content {
+		switch c {
+		case '<':
+			withinTag = true
+		case '>':
+			withinTag = false
+		case '\n':
+			if !withinTag {
+				result.WriteString(linebreak)
+			}
+		}
+		result.WriteRune(c)
+	}
+	return result.String()
+}
-- 
2.43.0


From c16c9f7744c165d7f98a88af083ae261c76b5ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:39 +0000
Subject: [PATCH 043/143] fix: escape the ids in the table of contents, and
 '&#' when it does not begin a character reference

---
 pkg/renderer/sgml/html_escape.go       | 20 ++++++++++++++++++--
 pkg/renderer/sgml/table_of_contents.go |  2 +-
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/pkg/renderer/sgml/html_escape.go b/pkg/renderer/sgml/html_escape.go
index 12b2f33..2baa123 100644
--- a/pkg/renderer/sgml/html_escape.go
+++ b/pkg/renderer/sgml/html_escape.go
@@ -2,15 +2,32 @@ package sgml
 
 import (
 	"html"
+	"regexp"
 	"strings"
 )
 
 // escapeString is like html5.Escape func except but bypasses
 // a few replacements.  It is a bit more conservative.
 func escapeString(s string) string {
-	return htmlEscaper.Replace(s)
+	if !strings.Contains(s, "&#") {
+		return htmlEscaper.Replace(s)
+	}
+	result := &strings.Builder{}
+	for {
+		// keep the character references as-is
+		loc := charReference.FindStringIndex(s)
+		if loc == nil {
+			result.WriteString(htmlEscaper.Replace(s))
+			return result.String()
+		}
+		result.WriteString(htmlEscaper.Replace(s[:loc[0]]))
+		result.WriteString(s[loc[0]:loc[1]])
+		s = s[loc[1]:]
+	}
 }
 
+var charReference = regexp.MustCompile(`&#(?:[0-9]+|[xX][0-9a-fA-F]+);`)
+
 func unescapeString(s string) string {
 	return html.UnescapeString(s)
 }
@@ -19,7 +36,6 @@ var htmlEscaper = strings.NewReplacer(
 	`&lt;`, "&lt;", // keep as-is (we do not want `&amp;lt;`)
 	`&gt;`, "&gt;", // keep `&lgt;` as-is (we do not want `&amp;gt;`)
 	`&amp;`, "&amp;", // keep `&amps` as-is (we do not want `&amp;amp;`) // TODO: still needed?
-	`&#`, "&#", // assume this is for an character entity and this keep as-is
 	// standard escape combinations
 	`&`, "&amp;",
 	`<`, "&lt;",
diff --git a/pkg/renderer/sgml/table_of_contents.go b/pkg/renderer/sgml/table_of_contents.go
index ba14ddf..5ec9f6d 100644
--- a/pkg/renderer/sgml/table_of_contents.go
+++ b/pkg/renderer/sgml/table_of_contents.go
@@ -144,7 +144,7 @@ func (r *sgmlRenderer) renderTableOfContentsEntry(ctx *context, entry *types.ToC
 		Content string
 	}{
 		Number:  entry.Number,
-		ID:      entry.ID,
+		ID:      escapeString(entry.ID),
 		Title:   entry.Title,
 		Content: content,
 	})
-- 
2.43.0


From 2f28b46d65ce007f20875d346021e496572e57f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:07 +0000
Subject: [PATCH 044/143] fix: escape the type of the document

---
 pkg/renderer/sgml/sgml.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/renderer/sgml/sgml.go b/pkg/renderer/sgml/sgml.go
index b61df78..d976dcf 100644
--- a/pkg/renderer/sgml/sgml.go
+++ b/pkg/renderer/sgml/sgml.go
@@ -110,7 +110,7 @@ elements:
 			IncludeHTMLBodyHeader bool
 			IncludeHTMLBodyFooter bool
 		}{
-			Doctype:               ctx.attributes.GetAsStringWithDefault(types.AttrDocType, "article"),
+			Doctype:               escapeString(ctx.attributes.GetAsStringWithDefault(types.AttrDocType, "article")),
 			Generator:             "libasciidoc", // TODO: externalize this value and include the lib version ?
 			Description:           ctx.attributes.GetAsStringWithDefault(types.AttrDescription, ""),
 			Title:                 renderedTitle,
-- 
2.43.0


From 09f26881419b3f9d495d95a61c28240df565ac76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:32 +0000
Subject: [PATCH 045/143] fix: ignore the unknown styles of example and quote
 blocks

---
 pkg/renderer/sgml/delimited_block.go | 3 ++-
 pkg/types/types.go                   | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/renderer/sgml/delimited_block.go b/pkg/renderer/sgml/delimited_block.go
index 1b5ebdf..e268b5c 100644
--- a/pkg/renderer/sgml/delimited_block.go
+++ b/pkg/renderer/sgml/delimited_block.go
@@ -9,7 +9,8 @@ import (
 func (r *sgmlRenderer) renderDelimitedBlock(ctx *context, b *types.DelimitedBlock) (string, error) {
 	switch b.Kind {
 	case types.Example:
-		if b.Attributes.Has(types.AttrStyle) {
+		switch b.Attributes[types.AttrStyle] {
+		case types.Tip, types.Note, types.Important, types.Warning, types.Caution:
 			return r.renderAdmonitionBlock(ctx, b)
 		}
 		return r.renderExampleBlock(ctx, b)
diff --git a/pkg/types/types.go b/pkg/types/types.go
index e8d4a8b..fa84c25 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -2388,7 +2388,7 @@ func (b *DelimitedBlock) mapAttributes() {
 			AttrPositional3: AttrQuoteTitle,
 		})
 		// override the `kind` with `style` attribute (if exists)
-		if style, exists := b.Attributes[AttrStyle].(string); exists {
+		if style, exists := b.Attributes[AttrStyle].(string); exists && (style == Quote || style == Verse) {
 			b.Kind = style
 		}
 	case Example:
-- 
2.43.0


From af129f6fc21c3472a09f943768ee9621d31bcbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:35 +0000
Subject: [PATCH 046/143] fix: escape the characters of the sources of images
 which would end the HTML attribute

---
 pkg/renderer/sgml/image.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/renderer/sgml/image.go b/pkg/renderer/sgml/image.go
index ad4d398..9fa4d37 100644
--- a/pkg/renderer/sgml/image.go
+++ b/pkg/renderer/sgml/image.go
@@ -117,7 +117,7 @@ func (r *sgmlRenderer) getImageSrc(ctx *context, location *types.Location) strin
 
 	// if Data URI is enables, then include the content of the file in the `src` attribute of the `<img>` tag
 	if !ctx.attributes.Has("data-uri") {
-		return src
+		return imageSrcEscaper.Replace(src)
 	}
 	dir := filepath.Dir(ctx.config.Filename)
 	src = filepath.Join(dir, src)
@@ -131,6 +131,9 @@ func (r *sgmlRenderer) getImageSrc(ctx *context, location *types.Location) strin
 	return result
 }
 
+// the characters which are allowed neither in a URL nor in the value of an HTML attribute
+var imageSrcEscaper = strings.NewReplacer(`"`, "%22", `<`, "%3C", `>`, "%3E")
+
 func (r *sgmlRenderer) renderImageAlt(attrs types.Attributes, path string) (string, error) {
 	if alt, found := attrs.GetAsString(types.AttrImageAlt); found {
 		return alt, nil
-- 
2.43.0


From 342ea45808997572c694b902979ebc2e153a4041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:05 +0000
Subject: [PATCH 047/143] fix: nest the entries of the table of contents as the
 sections when levels are skipped

---
 pkg/types/types.go | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index fa84c25..96701f4 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -243,27 +243,17 @@ func (t *TableOfContents) Add(s *Section) {
 		ID:    s.GetAttributes().GetAsStringWithDefault(AttrID, ""),
 		Level: s.Level,
 	}
-	// lookup the last child at the given section's level
-	if len(t.Sections) == 0 {
-		t.Sections = []*ToCSection{ts}
-		return
-	} else if s.Level == t.Sections[0].Level {
-		// add at top level
+	// lookup the parent, ie, the last entry (at any depth) with a lower level
+	var parent *ToCSection
+	siblings := t.Sections
+	for len(siblings) > 0 && siblings[len(siblings)-1].Level < s.Level {
+		parent = siblings[len(siblings)-1]
+		siblings = parent.Children
+	}
+	if parent == nil {
 		t.Sections = append(t.Sections, ts)
 		return
 	}
-	// look-up parent for the ts, starting with the last section at root level
-	parent := t.Sections[len(t.Sections)-1]
-	for {
-		if len(parent.Children) == 0 ||
-			parent.Children[0].Level == s.Level {
-			// (first) child level matches section level
-			// or no child beneath current parent
-			break
-		}
-		// move to last child of current parent
-		parent = parent.Children[len(parent.Children)-1]
-	}
 	parent.Children = append(parent.Children, ts)
 }
 
-- 
2.43.0


From 34c9dc2c44a0793a35fa36d0e201c2c844640365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:15 +0000
Subject: [PATCH 048/143] fix: number the sections when 'sectnums' is declared
 in the preamble

---
 pkg/types/types.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index 96701f4..f3f03f8 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -176,6 +176,12 @@ func traverseElements(elements []interface{}, enabled bool, prefix string) (map[
 			if e.Name == AttrSectionNumbering || e.Name == AttrNumbered {
 				enabled = false
 			}
+		case *Preamble:
+			// declarations before the first section (no section in there)
+			var err error
+			if _, enabled, err = traverseElements(e.Elements, enabled, prefix); err != nil {
+				return nil, false, err
+			}
 		case *Section:
 			var n string
 			if enabled {
-- 
2.43.0


From f134ee2a896ad42080ed1cc0ab3457c565c4462a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:46 +0000
Subject: [PATCH 049/143] fix: number the sections when 'sectnums' is set in
 the configuration

---
 pkg/renderer/sgml/sgml.go |  2 +-
 pkg/types/types.go        | 25 +++++++++++++++++++++++++
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/pkg/renderer/sgml/sgml.go b/pkg/renderer/sgml/sgml.go
index d976dcf..9b5cd10 100644
--- a/pkg/renderer/sgml/sgml.go
+++ b/pkg/renderer/sgml/sgml.go
@@ -71,7 +71,7 @@ elements:
 			break elements
 		}
 	}
-	if ctx.sectionNumbering, err = doc.SectionNumbers(); err != nil {
+	if ctx.sectionNumbering, err = doc.SectionNumbersWith(ctx.config.Attributes); err != nil {
 		return metadata, errors.Wrapf(err, "unable to render full document")
 	}
 
diff --git a/pkg/types/types.go b/pkg/types/types.go
index f3f03f8..8dc32ad 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -151,6 +151,15 @@ func (d *Document) AddElement(element interface{}) error {
 type SectionNumbers map[string]string // assigned number by section id
 
 func (d *Document) SectionNumbers() (SectionNumbers, error) {
+	return d.SectionNumbersWith(nil)
+}
+
+// SectionNumbersWith returns the section numbers, given the attributes which are defined in the configuration
+// (and which take precedence over the declarations in the document)
+func (d *Document) SectionNumbersWith(attrs Attributes) (SectionNumbers, error) {
+	if attrs.Has(AttrSectionNumbering) || attrs.Has(AttrNumbered) {
+		return numberAllSections(d.Elements, ""), nil
+	}
 	enabled := false
 	if header, _ := d.Header(); header != nil {
 		// lookup the `sectnums` or `numbered` attribute in the header
@@ -163,6 +172,22 @@ func (d *Document) SectionNumbers() (SectionNumbers, error) {
 	return numbers, err
 }
 
+func numberAllSections(elements []interface{}, prefix string) SectionNumbers {
+	result := SectionNumbers{}
+	counter := 0
+	for _, e := range elements {
+		if s, ok := e.(*Section); ok {
+			counter++
+			n := prefix + strconv.Itoa(counter)
+			result[s.GetID()] = n
+			for id, n := range numberAllSections(s.Elements, n+".") {
+				result[id] = n
+			}
+		}
+	}
+	return result
+}
+
 func traverseElements(elements []interface{}, enabled bool, prefix string) (map[string]string, bool, error) {
 	result := map[string]string{}
 	counter := 0
-- 
2.43.0


From 2d617ef37dd40e5ab064d1e487dd92db327f0a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:22 +0000
Subject: [PATCH 050/143] fix: resolve the cross references by title in terms,
 titles of blocks and footnotes

---
 pkg/parser/document_processing.go           |  8 +++++-
 pkg/parser/document_processing_aggregate.go | 27 ++++++++++++++++++---
 2 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/pkg/parser/document_processing.go b/pkg/parser/document_processing.go
index acd86a1..f446739 100644
--- a/pkg/parser/document_processing.go
+++ b/pkg/parser/document_processing.go
@@ -18,7 +18,8 @@ func ParseDocument(r io.Reader, config *configuration.Configuration, opts ...Opt
 	defer close(done)
 
 	footnotes := types.NewFootnotes()
-	doc, err := Aggregate(NewParseContext(config, opts...),
+	ctx := NewParseContext(config, opts...)
+	doc, err := Aggregate(ctx,
 		// SplitHeader(done,
 		FilterOut(done,
 			ArrangeLists(done,
@@ -38,6 +39,11 @@ func ParseDocument(r io.Reader, config *configuration.Configuration, opts ...Opt
 	}
 	if len(footnotes.Notes) > 0 {
 		doc.Footnotes = footnotes.Notes
+		for _, n := range doc.Footnotes {
+			if err := resolveCrossReferences(n, ctx.attributes); err != nil {
+				return nil, err
+			}
+		}
 	}
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("parsed document:\n%s", spew.Sdump(doc))
diff --git a/pkg/parser/document_processing_aggregate.go b/pkg/parser/document_processing_aggregate.go
index effabce..bc7214a 100644
--- a/pkg/parser/document_processing_aggregate.go
+++ b/pkg/parser/document_processing_aggregate.go
@@ -112,13 +112,23 @@ func resolveCrossReferences(element interface{}, attrs *contextAttributes) error
 	// if log.IsLevelEnabled(log.DebugLevel) {
 	// 	log.Debugf("resolving cross references in element of type '%T'", element)
 	// }
-	switch e := element.(type) {
-	case types.WithElements:
-		for _, elmt := range e.GetElements() {
-			if err := resolveCrossReferences(elmt, attrs); err != nil {
+	if e, ok := element.(types.WithAttributes); ok {
+		if title, ok := e.GetAttributes()[types.AttrTitle].([]interface{}); ok {
+			if err := resolveCrossReferencesInElements(title, attrs); err != nil {
 				return err
 			}
 		}
+	}
+	switch e := element.(type) {
+	case *types.LabeledListElement:
+		if err := resolveCrossReferencesInElements(e.Term, attrs); err != nil {
+			return err
+		}
+		return resolveCrossReferencesInElements(e.GetElements(), attrs)
+	case *types.Footnote:
+		return resolveCrossReferencesInElements(e.Elements, attrs)
+	case types.WithElements:
+		return resolveCrossReferencesInElements(e.GetElements(), attrs)
 	case *types.InternalCrossReference:
 		if err := e.ResolveID(attrs.allAttributes()); err != nil {
 			return err
@@ -127,6 +137,15 @@ func resolveCrossReferences(element interface{}, attrs *contextAttributes) error
 	return nil
 }
 
+func resolveCrossReferencesInElements(elements []interface{}, attrs *contextAttributes) error {
+	for _, e := range elements {
+		if err := resolveCrossReferences(e, attrs); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 type aggregator []types.WithElementAddition
 
 func (a *aggregator) append(e interface{}) error {
-- 
2.43.0


From 349e5efcf8206fcdd635364aa01f853b9897c46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:32 +0000
Subject: [PATCH 051/143] fix: label the references to images with titles which
 have formatted texts

---
 pkg/types/types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index 8dc32ad..c5448b4 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -2061,8 +2061,8 @@ var _ Referencable = &ImageBlock{}
 
 func (i *ImageBlock) Reference(refs ElementReferences) {
 	id := i.Attributes.GetAsStringWithDefault(AttrID, "")
-	title := i.Attributes.GetAsStringWithDefault(AttrTitle, "")
-	if id != "" && title != "" {
+	title := i.Attributes[AttrTitle]
+	if id != "" && title != nil {
 		refs[id] = title
 	}
 }
-- 
2.43.0


From 863dddc30a4327882ad7bc198724e1c00e361066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:01 +0000
Subject: [PATCH 052/143] fix: resolve the cross references by title in the
 headers and footers of tables

---
 pkg/parser/document_processing_aggregate.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/parser/document_processing_aggregate.go b/pkg/parser/document_processing_aggregate.go
index bc7214a..f599047 100644
--- a/pkg/parser/document_processing_aggregate.go
+++ b/pkg/parser/document_processing_aggregate.go
@@ -125,6 +125,16 @@ func resolveCrossReferences(element interface{}, attrs *contextAttributes) error
 			return err
 		}
 		return resolveCrossReferencesInElements(e.GetElements(), attrs)
+	case *types.Table:
+		for _, row := range []*types.TableRow{e.Header, e.Footer} {
+			if row == nil {
+				continue
+			}
+			if err := resolveCrossReferences(row, attrs); err != nil {
+				return err
+			}
+		}
+		return resolveCrossReferencesInElements(e.GetElements(), attrs)
 	case *types.Footnote:
 		return resolveCrossReferencesInElements(e.Elements, attrs)
 	case types.WithElements:
-- 
2.43.0


From 522ba60e86c9c7438fee372083bff7d020dfbf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:05 +0000
Subject: [PATCH 053/143] fix: collect the footnotes in the titles of blocks
 and of the document

---
 .../document_processing_collect_footnotes.go  |  9 +-----
 pkg/types/types.go                            | 31 ++++++++++---------
 2 files changed, 17 insertions(+), 23 deletions(-)

diff --git a/pkg/parser/document_processing_collect_footnotes.go b/pkg/parser/document_processing_collect_footnotes.go
index 98546e6..5ff00e7 100644
--- a/pkg/parser/document_processing_collect_footnotes.go
+++ b/pkg/parser/document_processing_collect_footnotes.go
@@ -27,13 +27,6 @@ func collectFootnotes(n *types.Footnotes, f types.DocumentFragment) types.Docume
 		log.Debugf("skipping footnotes")
 		return f
 	}
-	for _, e := range f.Elements {
-		if log.IsLevelEnabled(log.DebugLevel) {
-			log.Debugf("collecting footnotes in element of type '%T'", e)
-		}
-		if e, ok := e.(types.WithFootnotes); ok {
-			e.SubstituteFootnotes(n)
-		}
-	}
+	n.Substitute(f.Elements)
 	return f
 }
diff --git a/pkg/types/types.go b/pkg/types/types.go
index c5448b4..fce8219 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -1171,11 +1171,7 @@ var _ WithFootnotes = &CalloutListElement{}
 // SubstituteFootnotes replaces the footnotes in the list element
 // with footnote references. The footnotes are stored in the given 'notes' param
 func (e *CalloutListElement) SubstituteFootnotes(notes *Footnotes) {
-	for _, e := range e.Elements {
-		if e, ok := e.(WithFootnotes); ok {
-			e.SubstituteFootnotes(notes)
-		}
-	}
+	substituteFootnotes(e.Elements, notes)
 }
 
 const (
@@ -1304,11 +1300,7 @@ var _ WithFootnotes = &OrderedListElement{}
 // SubstituteFootnotes replaces the footnotes in the list element
 // with footnote references. The footnotes are stored in the given 'notes' param
 func (e *OrderedListElement) SubstituteFootnotes(notes *Footnotes) {
-	for _, e := range e.Elements {
-		if e, ok := e.(WithFootnotes); ok {
-			e.SubstituteFootnotes(notes)
-		}
-	}
+	substituteFootnotes(e.Elements, notes)
 }
 
 // OrderedListElementPrefix the prefix used to construct an OrderedListElement
@@ -1470,11 +1462,7 @@ var _ WithFootnotes = &UnorderedListElement{}
 // SubstituteFootnotes replaces the footnotes in the list element
 // with footnote references. The footnotes are stored in the given 'notes' param
 func (e *UnorderedListElement) SubstituteFootnotes(notes *Footnotes) {
-	for _, e := range e.Elements {
-		if e, ok := e.(WithFootnotes); ok {
-			e.SubstituteFootnotes(notes)
-		}
-	}
+	substituteFootnotes(e.Elements, notes)
 }
 
 // UnorderedListElementCheckStyle the check style that applies on an unordered list item
@@ -2181,11 +2169,18 @@ type WithFootnotes interface {
 // with footnote references. The footnotes are stored in the given 'notes' param
 func substituteFootnotes(elements []interface{}, notes *Footnotes) {
 	for i, element := range elements {
+		if e, ok := element.(WithAttributes); ok {
+			if title, ok := e.GetAttributes()[AttrTitle].([]interface{}); ok {
+				substituteFootnotes(title, notes)
+			}
+		}
 		switch e := element.(type) {
 		case *Footnote:
 			elements[i] = notes.Reference(e)
 		case *ListContinuation:
 			substituteFootnotes([]interface{}{e.Element}, notes)
+		case *DocumentHeader:
+			substituteFootnotes(e.Title, notes)
 		case WithFootnotes:
 			e.SubstituteFootnotes(notes)
 		case WithElements:
@@ -2225,6 +2220,12 @@ const (
 	InvalidFootnoteReference int = -1
 )
 
+// Substitute replaces the footnotes in the given elements (and in their own elements)
+// with footnote references
+func (f *Footnotes) Substitute(elements []interface{}) {
+	substituteFootnotes(elements, f)
+}
+
 // Reference adds the given footnote and returns a FootnoteReference in replacement
 func (f *Footnotes) Reference(note *Footnote) *FootnoteReference {
 	if log.IsLevelEnabled(log.DebugLevel) {
-- 
2.43.0


From 0720e463070b8905390217fb11579aa74f5385bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:12 +0000
Subject: [PATCH 054/143] fix: render the title of documents with predefined
 attributes, footnotes and links as plain text

---
 pkg/renderer/sgml/render_plain_text.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pkg/renderer/sgml/render_plain_text.go b/pkg/renderer/sgml/render_plain_text.go
index ff318d8..2256bd6 100644
--- a/pkg/renderer/sgml/render_plain_text.go
+++ b/pkg/renderer/sgml/render_plain_text.go
@@ -1,7 +1,6 @@
 package sgml
 
 import (
-	"fmt"
 	"strconv"
 	"strings"
 
@@ -75,7 +74,9 @@ func (r *plaintextRenderer) render(element interface{}) (string, error) {
 	case *types.StringElement:
 		return e.Content, nil
 	case *types.FootnoteReference:
-		return r.renderFootnoteReference(e)
+		return r.renderFootnoteReference(e), nil
+	case *types.PredefinedAttribute:
+		return predefinedAttribute(e.Name), nil
 	case *types.InlinePassthrough:
 		return r.renderInlinePassthrough(e)
 	default:
@@ -124,16 +125,16 @@ func (r *plaintextRenderer) renderInlineLink(l *types.InlineLink) (string, error
 	case []interface{}:
 		return r.render(alt)
 	case string:
-		return alt, nil
+		return r.escape(alt), nil
 	default:
-		return l.Location.ToDisplayString(), nil
+		return r.escape(l.Location.ToDisplayString()), nil
 	}
 }
 
-func (r *plaintextRenderer) renderFootnoteReference(note *types.FootnoteReference) (string, error) {
+func (r *plaintextRenderer) renderFootnoteReference(note *types.FootnoteReference) string {
 	if note.ID != types.InvalidFootnoteReference {
 		// valid case for a footnote with content, with our without an explicit reference
-		return `<sup class="footnote">[` + strconv.Itoa(note.ID) + `]</sup>`, nil
+		return "[" + strconv.Itoa(note.ID) + "]"
 	}
-	return "", fmt.Errorf("unable to render missing footnote")
+	return "[" + r.escape(note.Ref) + "]"
 }
-- 
2.43.0


From ab18fa5a30500dec7c73192f9f78434706c59cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:48 +0000
Subject: [PATCH 055/143] fix: no nested links nor repeated anchors in the
 table of contents and the cross references

---
 pkg/renderer/sgml/cross_reference.go   |  2 +-
 pkg/renderer/sgml/table_of_contents.go | 18 ++++++++++++++++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/pkg/renderer/sgml/cross_reference.go b/pkg/renderer/sgml/cross_reference.go
index 6418cb8..8a03773 100644
--- a/pkg/renderer/sgml/cross_reference.go
+++ b/pkg/renderer/sgml/cross_reference.go
@@ -46,7 +46,7 @@ func (r *sgmlRenderer) renderInternalCrossReference(ctx *context, xref *types.In
 					buff.WriteString(renderedElement)
 				}
 			}
-			label = buff.String()
+			label = withoutAnchors(buff.String())
 		default:
 			return "", errors.Errorf("unable to process internal cross reference to element of type %T", target)
 		}
diff --git a/pkg/renderer/sgml/table_of_contents.go b/pkg/renderer/sgml/table_of_contents.go
index 5ec9f6d..9a1f64e 100644
--- a/pkg/renderer/sgml/table_of_contents.go
+++ b/pkg/renderer/sgml/table_of_contents.go
@@ -1,6 +1,7 @@
 package sgml
 
 import (
+	"regexp"
 	"strings"
 
 	"github.com/bytesparadise/libasciidoc/pkg/types"
@@ -53,17 +54,30 @@ func (r *sgmlRenderer) prerenderTableOfContentsEntry(ctx *context, entry *types.
 		if err != nil {
 			return errors.Wrap(err, "unable to render table of contents entry title (missing element reference")
 		}
-		entry.Title = title
+		entry.Title = withoutAnchors(title)
 	default:
 		title, err := r.renderElement(ctx, s)
 		if err != nil {
 			return errors.Wrap(err, "unable to render table of contents entry title (missing element reference")
 		}
-		entry.Title = title
+		entry.Title = withoutAnchors(title)
 	}
 	return nil
 }
 
+var anchors = regexp.MustCompile(`(?s)<sup class="footnote">.*?</sup>|</?a(?:\s[^>]*)?>`)
+
+// withoutAnchors removes the links and anchors (but not their contents, nor the references to footnotes)
+// from a title which is itself rendered within a link: links cannot be nested, and IDs cannot be repeated
+func withoutAnchors(title string) string {
+	return anchors.ReplaceAllStringFunc(title, func(s string) string {
+		if strings.HasPrefix(s, "<sup") {
+			return s
+		}
+		return ""
+	})
+}
+
 func (r *sgmlRenderer) renderTableOfContents(ctx *context, toc *types.TableOfContents) (string, error) {
 	if toc == nil || toc.Sections == nil {
 		return "", nil
-- 
2.43.0


From ce4269ece6769143d35f1bec2d01e2daa664a8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:21 +0000
Subject: [PATCH 056/143] fix: do not collect the footnotes of titles which are
 not rendered

---
 pkg/types/types.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index fce8219..993d30d 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -2169,7 +2169,7 @@ type WithFootnotes interface {
 // with footnote references. The footnotes are stored in the given 'notes' param
 func substituteFootnotes(elements []interface{}, notes *Footnotes) {
 	for i, element := range elements {
-		if e, ok := element.(WithAttributes); ok {
+		if e, ok := element.(WithAttributes); ok && hasRenderedTitle(element) {
 			if title, ok := e.GetAttributes()[AttrTitle].([]interface{}); ok {
 				substituteFootnotes(title, notes)
 			}
@@ -2189,6 +2189,18 @@ func substituteFootnotes(elements []interface{}, notes *Footnotes) {
 	}
 }
 
+// hasRenderedTitle returns `false` if the title in the attributes of the given element is ignored
+func hasRenderedTitle(element interface{}) bool {
+	switch e := element.(type) {
+	case *Section:
+		return false
+	case *DelimitedBlock:
+		return e.Kind != Comment
+	default:
+		return true
+	}
+}
+
 // Footnotes the footnotes of a document. Footnotes are "collected"
 // during the parsing phase and displayed at the bottom of the document
 // during the rendering.
-- 
2.43.0


From 321a7d07960819af476c3f97b3a1c97518bf5563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:13 +0000
Subject: [PATCH 057/143] fix: refer to the existing footnote when a name is
 used again with contents

---
 pkg/types/types.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index 993d30d..6ae9428 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -2244,15 +2244,16 @@ func (f *Footnotes) Reference(note *Footnote) *FootnoteReference {
 		log.Debug("referencing footnote")
 	}
 	r := &FootnoteReference{}
-	if len(note.Elements) > 0 {
+	if id, found := f.indexOf(note); found && note.Ref != "" {
+		// the footnote with this name has been defined already
+		r.ID = id
+		r.Duplicate = true
+	} else if len(note.Elements) > 0 {
 		note.ID = f.sequence.nextVal()
 		f.Notes = append(f.Notes, note)
 		r.ID = note.ID
 		// footnotes in the footnote
 		substituteFootnotes(note.Elements, f)
-	} else if id, found := f.indexOf(note); found {
-		r.ID = id
-		r.Duplicate = true
 	} else {
 		r.ID = InvalidFootnoteReference
 		log.Warnf("no footnote with reference '%s'", note.Ref)
-- 
2.43.0


From ec6821fb36c2e27872cc1bc945fa469114305649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:45 +0000
Subject: [PATCH 058/143] fix: recognise the delimiters and attributes within
 verbatim blocks as contents in the preprocessing

---
 pkg/parser/context.go                | 23 +++++++++-------
 pkg/parser/document_preprocessing.go | 39 +++++++++++++++++++++-------
 pkg/parser/parser.go                 | 20 +++++++-------
 pkg/parser/parser.peg                |  2 +-
 4 files changed, 54 insertions(+), 30 deletions(-)

diff --git a/pkg/parser/context.go b/pkg/parser/context.go
index 4f4452b..85defa9 100644
--- a/pkg/parser/context.go
+++ b/pkg/parser/context.go
@@ -14,9 +14,11 @@ type ParseContext struct {
 	opts         []Option
 	levelOffsets levelOffsets
 	includeDepth int
-	attributes   *contextAttributes
-	userMacros   map[string]configuration.MacroTemplate
-	counters     map[string]interface{}
+	// if the file to preprocess is included in a block in which there are no declarations of attributes
+	withinVerbatimBlock bool
+	attributes          *contextAttributes
+	userMacros          map[string]configuration.MacroTemplate
+	counters            map[string]interface{}
 }
 
 func NewParseContext(config *configuration.Configuration, options ...Option) *ParseContext {
@@ -43,13 +45,14 @@ func NewParseContext(config *configuration.Configuration, options ...Option) *Pa
 
 func (c *ParseContext) Clone() *ParseContext {
 	return &ParseContext{
-		filename:     c.filename,
-		opts:         options(c.opts).clone(),
-		levelOffsets: c.levelOffsets.clone(),
-		includeDepth: c.includeDepth,
-		attributes:   c.attributes.clone(),
-		userMacros:   c.userMacros,
-		counters:     c.counters,
+		filename:            c.filename,
+		opts:                options(c.opts).clone(),
+		levelOffsets:        c.levelOffsets.clone(),
+		includeDepth:        c.includeDepth,
+		withinVerbatimBlock: c.withinVerbatimBlock,
+		attributes:          c.attributes.clone(),
+		userMacros:          c.userMacros,
+		counters:            c.counters,
 	}
 }
 
diff --git a/pkg/parser/document_preprocessing.go b/pkg/parser/document_preprocessing.go
index 20b7cfb..41673b4 100644
--- a/pkg/parser/document_preprocessing.go
+++ b/pkg/parser/document_preprocessing.go
@@ -53,23 +53,30 @@ func preprocess(ctx *ParseContext, source io.Reader) (string, error) {
 			}
 			switch e := element.(type) {
 			case *types.AttributeDeclaration:
-				ctx.attributes.set(e.Name, e.Value)
+				if !ctx.withinVerbatimBlock && !t.withinVerbatimBlock() {
+					ctx.attributes.set(e.Name, e.Value)
+				}
 				b.WriteString(e.RawText())
 			case *types.AttributeReset:
-				ctx.attributes.unset(e.Name)
+				if !ctx.withinVerbatimBlock && !t.withinVerbatimBlock() {
+					ctx.attributes.unset(e.Name)
+				}
 				b.WriteString(e.RawText())
 			case *types.RawSection:
 				b.WriteString(ctx.levelOffsets.apply(e))
 			case *types.FileInclusion:
 				inclCtx := ctx.Clone()
 				inclCtx.attributes = ctx.attributes // what the file declares applies after it, too
+				inclCtx.withinVerbatimBlock = ctx.withinVerbatimBlock || t.withinVerbatimBlock()
 				f, err := includeFile(inclCtx, e)
 				if err != nil {
 					return "", err
 				}
 				b.WriteString(f)
 			case *types.BlockDelimiter:
-				t.track(e.Kind, e.Length)
+				if len(e.Attributes) == 0 || !t.withinVerbatimBlock() { // a Markdown code delimiter with a language is not an end delimiter
+					t.track(e.Kind, e.Length)
+				}
 				ctx.opts = append(ctx.opts, t.withinDelimitedBlock())
 				b.WriteString(e.RawText())
 			case types.ConditionalInclusion:
@@ -103,6 +110,7 @@ func newLineScanner(source io.Reader) *bufio.Scanner {
 	return scanner
 }
 
+// blockDelimiterTracker tracks the delimited blocks in which the current line is
 type blockDelimiterTracker struct {
 	stack []blockDelimiter
 }
@@ -119,12 +127,14 @@ func newBlockDelimiterTracker() *blockDelimiterTracker {
 }
 
 func (t *blockDelimiterTracker) track(kind string, length int) {
-	switch {
-	case len(t.stack) > 0 && t.stack[len(t.stack)-1].kind == kind && t.stack[len(t.stack)-1].length == length:
-		// pop
-		t.stack = t.stack[:len(t.stack)-1]
-	default:
-		// push
+	// a delimiter closes the outermost block which has the same one, along with the blocks within
+	for i, d := range t.stack {
+		if d.kind == kind && (d.length == length || kind == types.Comment) {
+			t.stack = t.stack[:i]
+			return
+		}
+	}
+	if !t.withinVerbatimBlock() { // otherwise, it is part of the content
 		t.stack = append(t.stack, blockDelimiter{
 			kind:   kind,
 			length: length,
@@ -136,6 +146,17 @@ func (t *blockDelimiterTracker) withinDelimitedBlock() Option {
 	return GlobalStore(withinDelimitedBlockKey, len(t.stack) > 0)
 }
 
+// withinVerbatimBlock checks if the current line is within a block whose lines are not elements
+func (t *blockDelimiterTracker) withinVerbatimBlock() bool {
+	for _, d := range t.stack {
+		switch d.kind {
+		case types.Comment, types.Fenced, types.Listing, types.Literal, types.Passthrough:
+			return true
+		}
+	}
+	return false
+}
+
 // maxIncludeDepth the maximum number of nested inclusions (a file may include itself, directly or not)
 const maxIncludeDepth = 64
 
diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 49613e8..cbaa3fb 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -48591,7 +48591,7 @@ func (p *parser) callonDocumentRawLine446() (interface{}, error) {
 
 func (c *current) onDocumentRawLine434(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
@@ -50932,7 +50932,7 @@ func (p *parser) callonDocumentFragment539() (interface{}, error) {
 
 func (c *current) onDocumentFragment527(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
@@ -50990,7 +50990,7 @@ func (p *parser) callonDocumentFragment567() (interface{}, error) {
 
 func (c *current) onDocumentFragment555(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
@@ -51094,7 +51094,7 @@ func (p *parser) callonDocumentFragment611() (interface{}, error) {
 
 func (c *current) onDocumentFragment599(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
@@ -62542,7 +62542,7 @@ func (p *parser) callonExtraListElement733() (interface{}, error) {
 
 func (c *current) onExtraListElement721(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
@@ -64647,7 +64647,7 @@ func (p *parser) callonListContinuationElement754() (interface{}, error) {
 
 func (c *current) onListContinuationElement742(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
@@ -64705,7 +64705,7 @@ func (p *parser) callonListContinuationElement782() (interface{}, error) {
 
 func (c *current) onListContinuationElement770(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
@@ -64809,7 +64809,7 @@ func (p *parser) callonListContinuationElement826() (interface{}, error) {
 
 func (c *current) onListContinuationElement814(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
@@ -67208,7 +67208,7 @@ func (p *parser) callonListContinuationElement1826() (interface{}, error) {
 
 func (c *current) onListContinuationElement1814(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
@@ -67961,7 +67961,7 @@ func (p *parser) callonShortcutParagraph188() (interface{}, error) {
 
 func (c *current) onShortcutParagraph176(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index dc85229..b34a502 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -783,7 +783,7 @@ LiteralBlockDelimiter <-
     delimiter:("...." "."* { // sequence of 4 "." chars or more
         return string(c.text), nil
     }) Space* EOL { 
-        return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
+        return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
     }
 
 PassthroughBlockDelimiter <- 
-- 
2.43.0


From 816b138bd428cc50dcd160532436c6824689ede0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:57 +0000
Subject: [PATCH 059/143] fix: do not fail when the level offset of an included
 file is too low

---
 pkg/types/types.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index 6ae9428..4c5556e 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -2481,6 +2481,9 @@ func NewRawSection(level int, rawText string) (*RawSection, error) {
 }
 
 func (s *RawSection) OffsetLevel(offset int) {
+	if s.Level+offset < 0 { // there is no level above
+		offset = -s.Level
+	}
 	s.RawText = strings.Replace(s.RawText, strings.Repeat("=", s.Level+1)+" ", strings.Repeat("=", s.Level+1+offset)+" ", 1)
 	s.Level = s.Level + offset
 }
-- 
2.43.0


From c23557564b87855fc7d283a006160d4f9150eebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:53 +0000
Subject: [PATCH 060/143] fix: no additional blank lines after included files
 which are empty or not asciidoc documents

---
 pkg/parser/document_preprocessing.go | 45 ++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/pkg/parser/document_preprocessing.go b/pkg/parser/document_preprocessing.go
index 41673b4..4e3ef64 100644
--- a/pkg/parser/document_preprocessing.go
+++ b/pkg/parser/document_preprocessing.go
@@ -23,6 +23,14 @@ func Preprocess(source io.Reader, config *configuration.Configuration, opts ...O
 }
 
 func preprocess(ctx *ParseContext, source io.Reader) (string, error) {
+	b, err := preprocessLines(ctx, source)
+	if err != nil {
+		return "", err
+	}
+	return b.String(), nil
+}
+
+func preprocessLines(ctx *ParseContext, source io.Reader) (*builder, error) {
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("preprocessing file inclusions in %s with leveloffset=%s", ctx.filename, spew.Sdump(ctx.levelOffsets))
 	}
@@ -68,11 +76,11 @@ func preprocess(ctx *ParseContext, source io.Reader) (string, error) {
 				inclCtx := ctx.Clone()
 				inclCtx.attributes = ctx.attributes // what the file declares applies after it, too
 				inclCtx.withinVerbatimBlock = ctx.withinVerbatimBlock || t.withinVerbatimBlock()
-				f, err := includeFile(inclCtx, e)
+				f, complete, err := includeFile(inclCtx, e)
 				if err != nil {
-					return "", err
+					return nil, err
 				}
-				b.WriteString(f)
+				b.WriteFile(f, complete)
 			case *types.BlockDelimiter:
 				if len(e.Attributes) == 0 || !t.withinVerbatimBlock() { // a Markdown code delimiter with a language is not an end delimiter
 					t.track(e.Kind, e.Length)
@@ -90,14 +98,14 @@ func preprocess(ctx *ParseContext, source io.Reader) (string, error) {
 			case *types.EndOfCondition:
 				b.enabled = c.pop()
 			default:
-				return "", fmt.Errorf("unexpected type of element while preprocessinh document: '%T'", e)
+				return nil, fmt.Errorf("unexpected type of element while preprocessinh document: '%T'", e)
 			}
 		}
 	}
 	if err := scanner.Err(); err != nil {
-		return "", errors.Wrapf(err, "failed to read %s", ctx.filename)
+		return nil, errors.Wrapf(err, "failed to read %s", ctx.filename)
 	}
-	return b.String(), nil
+	return b, nil
 }
 
 // maxLineLength the maximum length of a line
@@ -164,27 +172,31 @@ const maxIncludeDepth = 64
 // note: there is a trade-off here: we include the whole content of the file in the current
 // fragment, making it potentially big, but at the same time we ensure that the context
 // of the inclusion (for example, within a delimited block) is not lost.
-func includeFile(ctx *ParseContext, incl *types.FileInclusion) (string, error) {
+func includeFile(ctx *ParseContext, incl *types.FileInclusion) (content string, complete bool, err error) {
 	if ctx.includeDepth++; ctx.includeDepth > maxIncludeDepth {
-		return "", errors.Errorf("Unresolved directive in %s - %s: more than %d nested inclusions", ctx.filename, incl.RawText, maxIncludeDepth)
+		return "", false, errors.Errorf("Unresolved directive in %s - %s: more than %d nested inclusions", ctx.filename, incl.RawText, maxIncludeDepth)
 	}
 	ctx.opts = append(ctx.opts, GlobalStore(documentHeaderKey, false))
 	if l, ok := incl.GetLocation().Path.([]interface{}); ok {
 		l, err := replaceAttributeRefsInSlicedValue(ctx, l)
 		if err != nil {
-			return "", err
+			return "", false, err
 		}
 		incl.GetLocation().SetPath(l)
 	}
 	content, adoc, err := contentOf(ctx, incl)
 	if err != nil {
-		return "", err
+		return "", false, err
 	}
 	if !adoc {
-		return string(content), nil
+		return content, true, nil
 	}
 	ctx.opts = append(ctx.opts, sectionEnabled())
-	return preprocess(ctx, strings.NewReader(content))
+	b, err := preprocessLines(ctx, strings.NewReader(content))
+	if err != nil {
+		return "", false, err
+	}
+	return b.String(), !b.insertLF, nil
 }
 
 type builder struct {
@@ -201,6 +213,15 @@ func (b *builder) WriteString(s string) {
 	b.Builder.WriteString(s)
 }
 
+// WriteFile writes the content of an included file. If it is complete, then there is nothing to add after its last line (if any)
+func (b *builder) WriteFile(s string, complete bool) {
+	if s == "" && complete {
+		return
+	}
+	b.WriteString(s)
+	b.insertLF = !complete
+}
+
 func (b *builder) Write(p []byte) {
 	if !b.enabled {
 		return
-- 
2.43.0


From 7950d213eab831bb78c94106b20f82dd0471c343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:07 +0000
Subject: [PATCH 061/143] fix: compare the numbers and texts of ifeval
 directives, and accept brackets in the content of conditionals

---
 pkg/parser/document_preprocessing.go |    6 +-
 pkg/parser/parser.go                 | 2271 ++++++++++++++------------
 pkg/parser/parser.peg                |   22 +-
 pkg/types/types.go                   |   70 +-
 4 files changed, 1313 insertions(+), 1056 deletions(-)

diff --git a/pkg/parser/document_preprocessing.go b/pkg/parser/document_preprocessing.go
index 4e3ef64..c7d55e0 100644
--- a/pkg/parser/document_preprocessing.go
+++ b/pkg/parser/document_preprocessing.go
@@ -62,7 +62,11 @@ func preprocessLines(ctx *ParseContext, source io.Reader) (*builder, error) {
 			switch e := element.(type) {
 			case *types.AttributeDeclaration:
 				if !ctx.withinVerbatimBlock && !t.withinVerbatimBlock() {
-					ctx.attributes.set(e.Name, e.Value)
+					v, err := replaceAttributeRefsInValue(ctx, e.Value)
+					if err != nil {
+						return nil, err
+					}
+					ctx.attributes.set(e.Name, v)
 				}
 				b.WriteString(e.RawText())
 			case *types.AttributeReset:
diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index cbaa3fb..d73b776 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -274,12 +274,12 @@ var g = &grammar{
 													pos:   position{line: 70, col: 20, offset: 1773},
 													label: "name",
 													expr: &actionExpr{
-														pos: position{line: 127, col: 28, offset: 3551},
+														pos: position{line: 127, col: 28, offset: 3609},
 														run: (*parser).callonDocumentRawLine53,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 127, col: 28, offset: 3551},
+															pos: position{line: 127, col: 28, offset: 3609},
 															expr: &charClassMatcher{
-																pos:        position{line: 127, col: 28, offset: 3551},
+																pos:        position{line: 127, col: 28, offset: 3609},
 																val:        "[^\\r\\n []",
 																chars:      []rune{'\r', '\n', ' ', '['},
 																ignoreCase: false,
@@ -304,12 +304,51 @@ var g = &grammar{
 															run: (*parser).callonDocumentRawLine59,
 															expr: &oneOrMoreExpr{
 																pos: position{line: 78, col: 34, offset: 2142},
-																expr: &charClassMatcher{
-																	pos:        position{line: 78, col: 34, offset: 2142},
-																	val:        "[^\\r\\n]]",
-																	chars:      []rune{'\r', '\n', ']'},
-																	ignoreCase: false,
-																	inverted:   true,
+																expr: &seqExpr{
+																	pos: position{line: 78, col: 35, offset: 2143},
+																	exprs: []interface{}{
+																		&notExpr{
+																			pos: position{line: 78, col: 35, offset: 2143},
+																			expr: &seqExpr{
+																				pos: position{line: 78, col: 37, offset: 2145},
+																				exprs: []interface{}{
+																					&litMatcher{
+																						pos:        position{line: 78, col: 37, offset: 2145},
+																						val:        "]",
+																						ignoreCase: false,
+																						want:       "\"]\"",
+																					},
+																					&zeroOrMoreExpr{
+																						pos: position{line: 78, col: 41, offset: 2149},
+																						expr: &actionExpr{
+																							pos: position{line: 2852, col: 10, offset: 90239},
+																							run: (*parser).callonDocumentRawLine66,
+																							expr: &charClassMatcher{
+																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								val:        "[\\t ]",
+																								chars:      []rune{'\t', ' '},
+																								ignoreCase: false,
+																								inverted:   false,
+																							},
+																						},
+																					},
+																					&notExpr{
+																						pos: position{line: 2871, col: 8, offset: 90587},
+																						expr: &anyMatcher{
+																							line: 2871, col: 9, offset: 90588,
+																						},
+																					},
+																				},
+																			},
+																		},
+																		&charClassMatcher{
+																			pos:        position{line: 78, col: 53, offset: 2161},
+																			val:        "[^\\r\\n]",
+																			chars:      []rune{'\r', '\n'},
+																			ignoreCase: false,
+																			inverted:   true,
+																		},
+																	},
 																},
 															},
 														},
@@ -325,7 +364,7 @@ var g = &grammar{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
 														pos: position{line: 2852, col: 10, offset: 90239},
-														run: (*parser).callonDocumentRawLine64,
+														run: (*parser).callonDocumentRawLine73,
 														expr: &charClassMatcher{
 															pos:        position{line: 2852, col: 10, offset: 90239},
 															val:        "[\\t ]",
@@ -346,7 +385,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 74, col: 11, offset: 1940},
-										run: (*parser).callonDocumentRawLine68,
+										run: (*parser).callonDocumentRawLine77,
 										expr: &seqExpr{
 											pos: position{line: 74, col: 11, offset: 1940},
 											exprs: []interface{}{
@@ -360,12 +399,12 @@ var g = &grammar{
 													pos:   position{line: 74, col: 22, offset: 1951},
 													label: "name",
 													expr: &actionExpr{
-														pos: position{line: 127, col: 28, offset: 3551},
-														run: (*parser).callonDocumentRawLine72,
+														pos: position{line: 127, col: 28, offset: 3609},
+														run: (*parser).callonDocumentRawLine81,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 127, col: 28, offset: 3551},
+															pos: position{line: 127, col: 28, offset: 3609},
 															expr: &charClassMatcher{
-																pos:        position{line: 127, col: 28, offset: 3551},
+																pos:        position{line: 127, col: 28, offset: 3609},
 																val:        "[^\\r\\n []",
 																chars:      []rune{'\r', '\n', ' ', '['},
 																ignoreCase: false,
@@ -387,15 +426,54 @@ var g = &grammar{
 														pos: position{line: 74, col: 62, offset: 1991},
 														expr: &actionExpr{
 															pos: position{line: 78, col: 34, offset: 2142},
-															run: (*parser).callonDocumentRawLine78,
+															run: (*parser).callonDocumentRawLine87,
 															expr: &oneOrMoreExpr{
 																pos: position{line: 78, col: 34, offset: 2142},
-																expr: &charClassMatcher{
-																	pos:        position{line: 78, col: 34, offset: 2142},
-																	val:        "[^\\r\\n]]",
-																	chars:      []rune{'\r', '\n', ']'},
-																	ignoreCase: false,
-																	inverted:   true,
+																expr: &seqExpr{
+																	pos: position{line: 78, col: 35, offset: 2143},
+																	exprs: []interface{}{
+																		&notExpr{
+																			pos: position{line: 78, col: 35, offset: 2143},
+																			expr: &seqExpr{
+																				pos: position{line: 78, col: 37, offset: 2145},
+																				exprs: []interface{}{
+																					&litMatcher{
+																						pos:        position{line: 78, col: 37, offset: 2145},
+																						val:        "]",
+																						ignoreCase: false,
+																						want:       "\"]\"",
+																					},
+																					&zeroOrMoreExpr{
+																						pos: position{line: 78, col: 41, offset: 2149},
+																						expr: &actionExpr{
+																							pos: position{line: 2852, col: 10, offset: 90239},
+																							run: (*parser).callonDocumentRawLine94,
+																							expr: &charClassMatcher{
+																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								val:        "[\\t ]",
+																								chars:      []rune{'\t', ' '},
+																								ignoreCase: false,
+																								inverted:   false,
+																							},
+																						},
+																					},
+																					&notExpr{
+																						pos: position{line: 2871, col: 8, offset: 90587},
+																						expr: &anyMatcher{
+																							line: 2871, col: 9, offset: 90588,
+																						},
+																					},
+																				},
+																			},
+																		},
+																		&charClassMatcher{
+																			pos:        position{line: 78, col: 53, offset: 2161},
+																			val:        "[^\\r\\n]",
+																			chars:      []rune{'\r', '\n'},
+																			ignoreCase: false,
+																			inverted:   true,
+																		},
+																	},
 																},
 															},
 														},
@@ -411,7 +489,7 @@ var g = &grammar{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
 														pos: position{line: 2852, col: 10, offset: 90239},
-														run: (*parser).callonDocumentRawLine83,
+														run: (*parser).callonDocumentRawLine101,
 														expr: &charClassMatcher{
 															pos:        position{line: 2852, col: 10, offset: 90239},
 															val:        "[\\t ]",
@@ -431,152 +509,179 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 82, col: 11, offset: 2207},
-										run: (*parser).callonDocumentRawLine87,
+										pos: position{line: 82, col: 11, offset: 2225},
+										run: (*parser).callonDocumentRawLine105,
 										expr: &seqExpr{
-											pos: position{line: 82, col: 11, offset: 2207},
+											pos: position{line: 82, col: 11, offset: 2225},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 82, col: 11, offset: 2207},
+													pos:        position{line: 82, col: 11, offset: 2225},
 													val:        "ifeval::[",
 													ignoreCase: false,
 													want:       "\"ifeval::[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 84, col: 5, offset: 2232},
+													pos:   position{line: 84, col: 5, offset: 2250},
 													label: "left",
 													expr: &choiceExpr{
-														pos: position{line: 92, col: 5, offset: 2495},
+														pos: position{line: 92, col: 5, offset: 2513},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 92, col: 6, offset: 2496},
-																run: (*parser).callonDocumentRawLine92,
+																pos: position{line: 92, col: 6, offset: 2514},
+																run: (*parser).callonDocumentRawLine110,
 																expr: &seqExpr{
-																	pos: position{line: 92, col: 6, offset: 2496},
+																	pos: position{line: 92, col: 6, offset: 2514},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 92, col: 6, offset: 2496},
+																			pos:        position{line: 92, col: 6, offset: 2514},
 																			val:        "\"",
 																			ignoreCase: false,
 																			want:       "\"\\\"\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 92, col: 11, offset: 2501},
-																			label: "s",
-																			expr: &choiceExpr{
-																				pos: position{line: 645, col: 5, offset: 20319},
-																				alternatives: []interface{}{
-																					&actionExpr{
-																						pos: position{line: 645, col: 5, offset: 20319},
-																						run: (*parser).callonDocumentRawLine97,
-																						expr: &seqExpr{
+																			pos:   position{line: 92, col: 11, offset: 2519},
+																			label: "e",
+																			expr: &zeroOrMoreExpr{
+																				pos: position{line: 92, col: 13, offset: 2521},
+																				expr: &choiceExpr{
+																					pos: position{line: 92, col: 14, offset: 2522},
+																					alternatives: []interface{}{
+																						&actionExpr{
 																							pos: position{line: 645, col: 5, offset: 20319},
-																							exprs: []interface{}{
-																								&litMatcher{
-																									pos:        position{line: 645, col: 5, offset: 20319},
-																									val:        "\\{",
-																									ignoreCase: false,
-																									want:       "\"\\\\{\"",
-																								},
-																								&labeledExpr{
-																									pos:   position{line: 645, col: 13, offset: 20327},
-																									label: "name",
-																									expr: &actionExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
-																										run: (*parser).callonDocumentRawLine101,
-																										expr: &seqExpr{
+																							run: (*parser).callonDocumentRawLine116,
+																							expr: &seqExpr{
+																								pos: position{line: 645, col: 5, offset: 20319},
+																								exprs: []interface{}{
+																									&litMatcher{
+																										pos:        position{line: 645, col: 5, offset: 20319},
+																										val:        "\\{",
+																										ignoreCase: false,
+																										want:       "\"\\\\{\"",
+																									},
+																									&labeledExpr{
+																										pos:   position{line: 645, col: 13, offset: 20327},
+																										label: "name",
+																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9736},
-																											exprs: []interface{}{
-																												&charClassMatcher{
-																													pos:        position{line: 318, col: 18, offset: 9736},
-																													val:        "[_\\pL\\pN]",
-																													chars:      []rune{'_'},
-																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																													ignoreCase: false,
-																													inverted:   false,
-																												},
-																												&zeroOrMoreExpr{
-																													pos: position{line: 318, col: 28, offset: 9746},
-																													expr: &charClassMatcher{
-																														pos:        position{line: 318, col: 29, offset: 9747},
-																														val:        "[-\\pL\\pN]",
-																														chars:      []rune{'-'},
+																											run: (*parser).callonDocumentRawLine120,
+																											expr: &seqExpr{
+																												pos: position{line: 318, col: 18, offset: 9736},
+																												exprs: []interface{}{
+																													&charClassMatcher{
+																														pos:        position{line: 318, col: 18, offset: 9736},
+																														val:        "[_\\pL\\pN]",
+																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																														ignoreCase: false,
 																														inverted:   false,
 																													},
+																													&zeroOrMoreExpr{
+																														pos: position{line: 318, col: 28, offset: 9746},
+																														expr: &charClassMatcher{
+																															pos:        position{line: 318, col: 29, offset: 9747},
+																															val:        "[-\\pL\\pN]",
+																															chars:      []rune{'-'},
+																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																															ignoreCase: false,
+																															inverted:   false,
+																														},
+																													},
 																												},
 																											},
 																										},
 																									},
-																								},
-																								&litMatcher{
-																									pos:        position{line: 645, col: 32, offset: 20346},
-																									val:        "}",
-																									ignoreCase: false,
-																									want:       "\"}\"",
+																									&litMatcher{
+																										pos:        position{line: 645, col: 32, offset: 20346},
+																										val:        "}",
+																										ignoreCase: false,
+																										want:       "\"}\"",
+																									},
 																								},
 																							},
 																						},
-																					},
-																					&actionExpr{
-																						pos: position{line: 652, col: 5, offset: 20587},
-																						run: (*parser).callonDocumentRawLine107,
-																						expr: &seqExpr{
+																						&actionExpr{
 																							pos: position{line: 652, col: 5, offset: 20587},
-																							exprs: []interface{}{
-																								&litMatcher{
-																									pos:        position{line: 652, col: 5, offset: 20587},
-																									val:        "{",
-																									ignoreCase: false,
-																									want:       "\"{\"",
-																								},
-																								&labeledExpr{
-																									pos:   position{line: 652, col: 9, offset: 20591},
-																									label: "name",
-																									expr: &actionExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
-																										run: (*parser).callonDocumentRawLine111,
-																										expr: &seqExpr{
+																							run: (*parser).callonDocumentRawLine126,
+																							expr: &seqExpr{
+																								pos: position{line: 652, col: 5, offset: 20587},
+																								exprs: []interface{}{
+																									&litMatcher{
+																										pos:        position{line: 652, col: 5, offset: 20587},
+																										val:        "{",
+																										ignoreCase: false,
+																										want:       "\"{\"",
+																									},
+																									&labeledExpr{
+																										pos:   position{line: 652, col: 9, offset: 20591},
+																										label: "name",
+																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9736},
-																											exprs: []interface{}{
-																												&charClassMatcher{
-																													pos:        position{line: 318, col: 18, offset: 9736},
-																													val:        "[_\\pL\\pN]",
-																													chars:      []rune{'_'},
-																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																													ignoreCase: false,
-																													inverted:   false,
-																												},
-																												&zeroOrMoreExpr{
-																													pos: position{line: 318, col: 28, offset: 9746},
-																													expr: &charClassMatcher{
-																														pos:        position{line: 318, col: 29, offset: 9747},
-																														val:        "[-\\pL\\pN]",
-																														chars:      []rune{'-'},
+																											run: (*parser).callonDocumentRawLine130,
+																											expr: &seqExpr{
+																												pos: position{line: 318, col: 18, offset: 9736},
+																												exprs: []interface{}{
+																													&charClassMatcher{
+																														pos:        position{line: 318, col: 18, offset: 9736},
+																														val:        "[_\\pL\\pN]",
+																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																														ignoreCase: false,
 																														inverted:   false,
 																													},
+																													&zeroOrMoreExpr{
+																														pos: position{line: 318, col: 28, offset: 9746},
+																														expr: &charClassMatcher{
+																															pos:        position{line: 318, col: 29, offset: 9747},
+																															val:        "[-\\pL\\pN]",
+																															chars:      []rune{'-'},
+																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																															ignoreCase: false,
+																															inverted:   false,
+																														},
+																													},
 																												},
 																											},
 																										},
 																									},
+																									&litMatcher{
+																										pos:        position{line: 652, col: 28, offset: 20610},
+																										val:        "}",
+																										ignoreCase: false,
+																										want:       "\"}\"",
+																									},
 																								},
-																								&litMatcher{
-																									pos:        position{line: 652, col: 28, offset: 20610},
-																									val:        "}",
+																							},
+																						},
+																						&actionExpr{
+																							pos: position{line: 92, col: 41, offset: 2549},
+																							run: (*parser).callonDocumentRawLine136,
+																							expr: &oneOrMoreExpr{
+																								pos: position{line: 92, col: 41, offset: 2549},
+																								expr: &charClassMatcher{
+																									pos:        position{line: 92, col: 41, offset: 2549},
+																									val:        "[^\\r\\n\"{]",
+																									chars:      []rune{'\r', '\n', '"', '{'},
 																									ignoreCase: false,
-																									want:       "\"}\"",
+																									inverted:   true,
 																								},
 																							},
 																						},
+																						&actionExpr{
+																							pos: position{line: 92, col: 87, offset: 2595},
+																							run: (*parser).callonDocumentRawLine139,
+																							expr: &litMatcher{
+																								pos:        position{line: 92, col: 87, offset: 2595},
+																								val:        "{",
+																								ignoreCase: false,
+																								want:       "\"{\"",
+																							},
+																						},
 																					},
 																				},
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 92, col: 39, offset: 2529},
+																			pos:        position{line: 92, col: 125, offset: 2633},
 																			val:        "\"",
 																			ignoreCase: false,
 																			want:       "\"\\\"\"",
@@ -585,134 +690,161 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 93, col: 8, offset: 2560},
-																run: (*parser).callonDocumentRawLine118,
+																pos: position{line: 93, col: 8, offset: 2680},
+																run: (*parser).callonDocumentRawLine142,
 																expr: &seqExpr{
-																	pos: position{line: 93, col: 8, offset: 2560},
+																	pos: position{line: 93, col: 8, offset: 2680},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 93, col: 8, offset: 2560},
+																			pos:        position{line: 93, col: 8, offset: 2680},
 																			val:        "'",
 																			ignoreCase: false,
 																			want:       "\"'\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 93, col: 12, offset: 2564},
-																			label: "s",
-																			expr: &choiceExpr{
-																				pos: position{line: 645, col: 5, offset: 20319},
-																				alternatives: []interface{}{
-																					&actionExpr{
-																						pos: position{line: 645, col: 5, offset: 20319},
-																						run: (*parser).callonDocumentRawLine123,
-																						expr: &seqExpr{
+																			pos:   position{line: 93, col: 12, offset: 2684},
+																			label: "e",
+																			expr: &zeroOrMoreExpr{
+																				pos: position{line: 93, col: 14, offset: 2686},
+																				expr: &choiceExpr{
+																					pos: position{line: 93, col: 15, offset: 2687},
+																					alternatives: []interface{}{
+																						&actionExpr{
 																							pos: position{line: 645, col: 5, offset: 20319},
-																							exprs: []interface{}{
-																								&litMatcher{
-																									pos:        position{line: 645, col: 5, offset: 20319},
-																									val:        "\\{",
-																									ignoreCase: false,
-																									want:       "\"\\\\{\"",
-																								},
-																								&labeledExpr{
-																									pos:   position{line: 645, col: 13, offset: 20327},
-																									label: "name",
-																									expr: &actionExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
-																										run: (*parser).callonDocumentRawLine127,
-																										expr: &seqExpr{
+																							run: (*parser).callonDocumentRawLine148,
+																							expr: &seqExpr{
+																								pos: position{line: 645, col: 5, offset: 20319},
+																								exprs: []interface{}{
+																									&litMatcher{
+																										pos:        position{line: 645, col: 5, offset: 20319},
+																										val:        "\\{",
+																										ignoreCase: false,
+																										want:       "\"\\\\{\"",
+																									},
+																									&labeledExpr{
+																										pos:   position{line: 645, col: 13, offset: 20327},
+																										label: "name",
+																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9736},
-																											exprs: []interface{}{
-																												&charClassMatcher{
-																													pos:        position{line: 318, col: 18, offset: 9736},
-																													val:        "[_\\pL\\pN]",
-																													chars:      []rune{'_'},
-																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																													ignoreCase: false,
-																													inverted:   false,
-																												},
-																												&zeroOrMoreExpr{
-																													pos: position{line: 318, col: 28, offset: 9746},
-																													expr: &charClassMatcher{
-																														pos:        position{line: 318, col: 29, offset: 9747},
-																														val:        "[-\\pL\\pN]",
-																														chars:      []rune{'-'},
+																											run: (*parser).callonDocumentRawLine152,
+																											expr: &seqExpr{
+																												pos: position{line: 318, col: 18, offset: 9736},
+																												exprs: []interface{}{
+																													&charClassMatcher{
+																														pos:        position{line: 318, col: 18, offset: 9736},
+																														val:        "[_\\pL\\pN]",
+																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																														ignoreCase: false,
 																														inverted:   false,
 																													},
+																													&zeroOrMoreExpr{
+																														pos: position{line: 318, col: 28, offset: 9746},
+																														expr: &charClassMatcher{
+																															pos:        position{line: 318, col: 29, offset: 9747},
+																															val:        "[-\\pL\\pN]",
+																															chars:      []rune{'-'},
+																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																															ignoreCase: false,
+																															inverted:   false,
+																														},
+																													},
 																												},
 																											},
 																										},
 																									},
-																								},
-																								&litMatcher{
-																									pos:        position{line: 645, col: 32, offset: 20346},
-																									val:        "}",
-																									ignoreCase: false,
-																									want:       "\"}\"",
+																									&litMatcher{
+																										pos:        position{line: 645, col: 32, offset: 20346},
+																										val:        "}",
+																										ignoreCase: false,
+																										want:       "\"}\"",
+																									},
 																								},
 																							},
 																						},
-																					},
-																					&actionExpr{
-																						pos: position{line: 652, col: 5, offset: 20587},
-																						run: (*parser).callonDocumentRawLine133,
-																						expr: &seqExpr{
+																						&actionExpr{
 																							pos: position{line: 652, col: 5, offset: 20587},
-																							exprs: []interface{}{
-																								&litMatcher{
-																									pos:        position{line: 652, col: 5, offset: 20587},
-																									val:        "{",
-																									ignoreCase: false,
-																									want:       "\"{\"",
-																								},
-																								&labeledExpr{
-																									pos:   position{line: 652, col: 9, offset: 20591},
-																									label: "name",
-																									expr: &actionExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
-																										run: (*parser).callonDocumentRawLine137,
-																										expr: &seqExpr{
+																							run: (*parser).callonDocumentRawLine158,
+																							expr: &seqExpr{
+																								pos: position{line: 652, col: 5, offset: 20587},
+																								exprs: []interface{}{
+																									&litMatcher{
+																										pos:        position{line: 652, col: 5, offset: 20587},
+																										val:        "{",
+																										ignoreCase: false,
+																										want:       "\"{\"",
+																									},
+																									&labeledExpr{
+																										pos:   position{line: 652, col: 9, offset: 20591},
+																										label: "name",
+																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9736},
-																											exprs: []interface{}{
-																												&charClassMatcher{
-																													pos:        position{line: 318, col: 18, offset: 9736},
-																													val:        "[_\\pL\\pN]",
-																													chars:      []rune{'_'},
-																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																													ignoreCase: false,
-																													inverted:   false,
-																												},
-																												&zeroOrMoreExpr{
-																													pos: position{line: 318, col: 28, offset: 9746},
-																													expr: &charClassMatcher{
-																														pos:        position{line: 318, col: 29, offset: 9747},
-																														val:        "[-\\pL\\pN]",
-																														chars:      []rune{'-'},
+																											run: (*parser).callonDocumentRawLine162,
+																											expr: &seqExpr{
+																												pos: position{line: 318, col: 18, offset: 9736},
+																												exprs: []interface{}{
+																													&charClassMatcher{
+																														pos:        position{line: 318, col: 18, offset: 9736},
+																														val:        "[_\\pL\\pN]",
+																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																														ignoreCase: false,
 																														inverted:   false,
 																													},
+																													&zeroOrMoreExpr{
+																														pos: position{line: 318, col: 28, offset: 9746},
+																														expr: &charClassMatcher{
+																															pos:        position{line: 318, col: 29, offset: 9747},
+																															val:        "[-\\pL\\pN]",
+																															chars:      []rune{'-'},
+																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																															ignoreCase: false,
+																															inverted:   false,
+																														},
+																													},
 																												},
 																											},
 																										},
 																									},
+																									&litMatcher{
+																										pos:        position{line: 652, col: 28, offset: 20610},
+																										val:        "}",
+																										ignoreCase: false,
+																										want:       "\"}\"",
+																									},
 																								},
-																								&litMatcher{
-																									pos:        position{line: 652, col: 28, offset: 20610},
-																									val:        "}",
+																							},
+																						},
+																						&actionExpr{
+																							pos: position{line: 93, col: 42, offset: 2714},
+																							run: (*parser).callonDocumentRawLine168,
+																							expr: &oneOrMoreExpr{
+																								pos: position{line: 93, col: 42, offset: 2714},
+																								expr: &charClassMatcher{
+																									pos:        position{line: 93, col: 42, offset: 2714},
+																									val:        "[^\\r\\n\\{]",
+																									chars:      []rune{'\r', '\n', '\'', '{'},
 																									ignoreCase: false,
-																									want:       "\"}\"",
+																									inverted:   true,
 																								},
 																							},
 																						},
+																						&actionExpr{
+																							pos: position{line: 93, col: 88, offset: 2760},
+																							run: (*parser).callonDocumentRawLine171,
+																							expr: &litMatcher{
+																								pos:        position{line: 93, col: 88, offset: 2760},
+																								val:        "{",
+																								ignoreCase: false,
+																								want:       "\"{\"",
+																							},
+																						},
 																					},
 																				},
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 93, col: 40, offset: 2592},
+																			pos:        position{line: 93, col: 126, offset: 2798},
 																			val:        "'",
 																			ignoreCase: false,
 																			want:       "\"'\"",
@@ -721,17 +853,17 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 94, col: 8, offset: 2622},
-																run: (*parser).callonDocumentRawLine144,
+																pos: position{line: 94, col: 8, offset: 2844},
+																run: (*parser).callonDocumentRawLine174,
 																expr: &labeledExpr{
-																	pos:   position{line: 94, col: 8, offset: 2622},
+																	pos:   position{line: 94, col: 8, offset: 2844},
 																	label: "s",
 																	expr: &choiceExpr{
 																		pos: position{line: 645, col: 5, offset: 20319},
 																		alternatives: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 645, col: 5, offset: 20319},
-																				run: (*parser).callonDocumentRawLine147,
+																				run: (*parser).callonDocumentRawLine177,
 																				expr: &seqExpr{
 																					pos: position{line: 645, col: 5, offset: 20319},
 																					exprs: []interface{}{
@@ -746,7 +878,7 @@ var g = &grammar{
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 318, col: 18, offset: 9736},
-																								run: (*parser).callonDocumentRawLine151,
+																								run: (*parser).callonDocumentRawLine181,
 																								expr: &seqExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
 																									exprs: []interface{}{
@@ -784,7 +916,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 652, col: 5, offset: 20587},
-																				run: (*parser).callonDocumentRawLine157,
+																				run: (*parser).callonDocumentRawLine187,
 																				expr: &seqExpr{
 																					pos: position{line: 652, col: 5, offset: 20587},
 																					exprs: []interface{}{
@@ -799,7 +931,7 @@ var g = &grammar{
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 318, col: 18, offset: 9736},
-																								run: (*parser).callonDocumentRawLine161,
+																								run: (*parser).callonDocumentRawLine191,
 																								expr: &seqExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
 																									exprs: []interface{}{
@@ -840,88 +972,52 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 95, col: 8, offset: 2676},
-																run: (*parser).callonDocumentRawLine167,
+																pos: position{line: 2848, col: 10, offset: 90142},
+																run: (*parser).callonDocumentRawLine197,
 																expr: &seqExpr{
-																	pos: position{line: 95, col: 8, offset: 2676},
+																	pos: position{line: 2848, col: 11, offset: 90143},
 																	exprs: []interface{}{
-																		&litMatcher{
-																			pos:        position{line: 95, col: 8, offset: 2676},
-																			val:        "\"",
-																			ignoreCase: false,
-																			want:       "\"\\\"\"",
-																		},
-																		&labeledExpr{
-																			pos:   position{line: 95, col: 13, offset: 2681},
-																			label: "w",
-																			expr: &actionExpr{
-																				pos: position{line: 95, col: 16, offset: 2684},
-																				run: (*parser).callonDocumentRawLine171,
-																				expr: &oneOrMoreExpr{
-																					pos: position{line: 95, col: 16, offset: 2684},
-																					expr: &charClassMatcher{
-																						pos:        position{line: 95, col: 16, offset: 2684},
-																						val:        "[,?!;_-\\pL\\pN]",
-																						chars:      []rune{',', '?', '!', ';', '_', '-'},
-																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																						ignoreCase: false,
-																						inverted:   false,
-																					},
-																				},
+																		&zeroOrOneExpr{
+																			pos: position{line: 2848, col: 11, offset: 90143},
+																			expr: &litMatcher{
+																				pos:        position{line: 2848, col: 11, offset: 90143},
+																				val:        "-",
+																				ignoreCase: false,
+																				want:       "\"-\"",
 																			},
 																		},
-																		&litMatcher{
-																			pos:        position{line: 95, col: 63, offset: 2731},
-																			val:        "\"",
-																			ignoreCase: false,
-																			want:       "\"\\\"\"",
+																		&oneOrMoreExpr{
+																			pos: position{line: 2848, col: 16, offset: 90148},
+																			expr: &charClassMatcher{
+																				pos:        position{line: 2848, col: 16, offset: 90148},
+																				val:        "[0-9]",
+																				ranges:     []rune{'0', '9'},
+																				ignoreCase: false,
+																				inverted:   false,
+																			},
 																		},
-																	},
-																},
-															},
-															&actionExpr{
-																pos: position{line: 96, col: 8, offset: 2762},
-																run: (*parser).callonDocumentRawLine175,
-																expr: &seqExpr{
-																	pos: position{line: 96, col: 8, offset: 2762},
-																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 96, col: 8, offset: 2762},
-																			val:        "'",
+																			pos:        position{line: 2848, col: 23, offset: 90155},
+																			val:        ".",
 																			ignoreCase: false,
-																			want:       "\"'\"",
+																			want:       "\".\"",
 																		},
-																		&labeledExpr{
-																			pos:   position{line: 96, col: 12, offset: 2766},
-																			label: "w",
-																			expr: &actionExpr{
-																				pos: position{line: 96, col: 15, offset: 2769},
-																				run: (*parser).callonDocumentRawLine179,
-																				expr: &oneOrMoreExpr{
-																					pos: position{line: 96, col: 15, offset: 2769},
-																					expr: &charClassMatcher{
-																						pos:        position{line: 96, col: 15, offset: 2769},
-																						val:        "[,?!;_-\\pL\\pN]",
-																						chars:      []rune{',', '?', '!', ';', '_', '-'},
-																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																						ignoreCase: false,
-																						inverted:   false,
-																					},
-																				},
+																		&oneOrMoreExpr{
+																			pos: position{line: 2848, col: 27, offset: 90159},
+																			expr: &charClassMatcher{
+																				pos:        position{line: 2848, col: 27, offset: 90159},
+																				val:        "[0-9]",
+																				ranges:     []rune{'0', '9'},
+																				ignoreCase: false,
+																				inverted:   false,
 																			},
 																		},
-																		&litMatcher{
-																			pos:        position{line: 96, col: 62, offset: 2816},
-																			val:        "'",
-																			ignoreCase: false,
-																			want:       "\"'\"",
-																		},
 																	},
 																},
 															},
 															&actionExpr{
 																pos: position{line: 2844, col: 12, offset: 90066},
-																run: (*parser).callonDocumentRawLine183,
+																run: (*parser).callonDocumentRawLine206,
 																expr: &seqExpr{
 																	pos: position{line: 2844, col: 13, offset: 90067},
 																	exprs: []interface{}{
@@ -951,10 +1047,10 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 84, col: 35, offset: 2262},
+													pos: position{line: 84, col: 35, offset: 2280},
 													expr: &actionExpr{
 														pos: position{line: 2852, col: 10, offset: 90239},
-														run: (*parser).callonDocumentRawLine190,
+														run: (*parser).callonDocumentRawLine213,
 														expr: &charClassMatcher{
 															pos:        position{line: 2852, col: 10, offset: 90239},
 															val:        "[\\t ]",
@@ -965,66 +1061,66 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 85, col: 5, offset: 2274},
+													pos:   position{line: 85, col: 5, offset: 2292},
 													label: "operand",
 													expr: &choiceExpr{
-														pos: position{line: 100, col: 5, offset: 2885},
+														pos: position{line: 99, col: 5, offset: 2937},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 100, col: 6, offset: 2886},
-																run: (*parser).callonDocumentRawLine194,
+																pos: position{line: 99, col: 6, offset: 2938},
+																run: (*parser).callonDocumentRawLine217,
 																expr: &litMatcher{
-																	pos:        position{line: 100, col: 6, offset: 2886},
+																	pos:        position{line: 99, col: 6, offset: 2938},
 																	val:        "==",
 																	ignoreCase: false,
 																	want:       "\"==\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 103, col: 8, offset: 2946},
-																run: (*parser).callonDocumentRawLine196,
+																pos: position{line: 102, col: 8, offset: 2998},
+																run: (*parser).callonDocumentRawLine219,
 																expr: &litMatcher{
-																	pos:        position{line: 103, col: 8, offset: 2946},
+																	pos:        position{line: 102, col: 8, offset: 2998},
 																	val:        "!=",
 																	ignoreCase: false,
 																	want:       "\"!=\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 106, col: 8, offset: 3009},
-																run: (*parser).callonDocumentRawLine198,
+																pos: position{line: 105, col: 8, offset: 3061},
+																run: (*parser).callonDocumentRawLine221,
 																expr: &litMatcher{
-																	pos:        position{line: 106, col: 8, offset: 3009},
+																	pos:        position{line: 105, col: 8, offset: 3061},
 																	val:        "<=",
 																	ignoreCase: false,
 																	want:       "\"<=\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 109, col: 8, offset: 3075},
-																run: (*parser).callonDocumentRawLine200,
+																pos: position{line: 108, col: 8, offset: 3127},
+																run: (*parser).callonDocumentRawLine223,
 																expr: &litMatcher{
-																	pos:        position{line: 109, col: 8, offset: 3075},
+																	pos:        position{line: 108, col: 8, offset: 3127},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 112, col: 8, offset: 3137},
-																run: (*parser).callonDocumentRawLine202,
+																pos: position{line: 111, col: 8, offset: 3189},
+																run: (*parser).callonDocumentRawLine225,
 																expr: &litMatcher{
-																	pos:        position{line: 112, col: 8, offset: 3137},
+																	pos:        position{line: 111, col: 8, offset: 3189},
 																	val:        ">=",
 																	ignoreCase: false,
 																	want:       "\">=\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 115, col: 8, offset: 3206},
-																run: (*parser).callonDocumentRawLine204,
+																pos: position{line: 114, col: 8, offset: 3258},
+																run: (*parser).callonDocumentRawLine227,
 																expr: &litMatcher{
-																	pos:        position{line: 115, col: 8, offset: 3206},
+																	pos:        position{line: 114, col: 8, offset: 3258},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
@@ -1034,10 +1130,10 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 85, col: 39, offset: 2308},
+													pos: position{line: 85, col: 39, offset: 2326},
 													expr: &actionExpr{
 														pos: position{line: 2852, col: 10, offset: 90239},
-														run: (*parser).callonDocumentRawLine207,
+														run: (*parser).callonDocumentRawLine230,
 														expr: &charClassMatcher{
 															pos:        position{line: 2852, col: 10, offset: 90239},
 															val:        "[\\t ]",
@@ -1048,140 +1144,167 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 86, col: 5, offset: 2320},
+													pos:   position{line: 86, col: 5, offset: 2338},
 													label: "right",
 													expr: &choiceExpr{
-														pos: position{line: 92, col: 5, offset: 2495},
+														pos: position{line: 92, col: 5, offset: 2513},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 92, col: 6, offset: 2496},
-																run: (*parser).callonDocumentRawLine211,
+																pos: position{line: 92, col: 6, offset: 2514},
+																run: (*parser).callonDocumentRawLine234,
 																expr: &seqExpr{
-																	pos: position{line: 92, col: 6, offset: 2496},
+																	pos: position{line: 92, col: 6, offset: 2514},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 92, col: 6, offset: 2496},
+																			pos:        position{line: 92, col: 6, offset: 2514},
 																			val:        "\"",
 																			ignoreCase: false,
 																			want:       "\"\\\"\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 92, col: 11, offset: 2501},
-																			label: "s",
-																			expr: &choiceExpr{
-																				pos: position{line: 645, col: 5, offset: 20319},
-																				alternatives: []interface{}{
-																					&actionExpr{
-																						pos: position{line: 645, col: 5, offset: 20319},
-																						run: (*parser).callonDocumentRawLine216,
-																						expr: &seqExpr{
+																			pos:   position{line: 92, col: 11, offset: 2519},
+																			label: "e",
+																			expr: &zeroOrMoreExpr{
+																				pos: position{line: 92, col: 13, offset: 2521},
+																				expr: &choiceExpr{
+																					pos: position{line: 92, col: 14, offset: 2522},
+																					alternatives: []interface{}{
+																						&actionExpr{
 																							pos: position{line: 645, col: 5, offset: 20319},
-																							exprs: []interface{}{
-																								&litMatcher{
-																									pos:        position{line: 645, col: 5, offset: 20319},
-																									val:        "\\{",
-																									ignoreCase: false,
-																									want:       "\"\\\\{\"",
-																								},
-																								&labeledExpr{
-																									pos:   position{line: 645, col: 13, offset: 20327},
-																									label: "name",
-																									expr: &actionExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
-																										run: (*parser).callonDocumentRawLine220,
-																										expr: &seqExpr{
+																							run: (*parser).callonDocumentRawLine240,
+																							expr: &seqExpr{
+																								pos: position{line: 645, col: 5, offset: 20319},
+																								exprs: []interface{}{
+																									&litMatcher{
+																										pos:        position{line: 645, col: 5, offset: 20319},
+																										val:        "\\{",
+																										ignoreCase: false,
+																										want:       "\"\\\\{\"",
+																									},
+																									&labeledExpr{
+																										pos:   position{line: 645, col: 13, offset: 20327},
+																										label: "name",
+																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9736},
-																											exprs: []interface{}{
-																												&charClassMatcher{
-																													pos:        position{line: 318, col: 18, offset: 9736},
-																													val:        "[_\\pL\\pN]",
-																													chars:      []rune{'_'},
-																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																													ignoreCase: false,
-																													inverted:   false,
-																												},
-																												&zeroOrMoreExpr{
-																													pos: position{line: 318, col: 28, offset: 9746},
-																													expr: &charClassMatcher{
-																														pos:        position{line: 318, col: 29, offset: 9747},
-																														val:        "[-\\pL\\pN]",
-																														chars:      []rune{'-'},
+																											run: (*parser).callonDocumentRawLine244,
+																											expr: &seqExpr{
+																												pos: position{line: 318, col: 18, offset: 9736},
+																												exprs: []interface{}{
+																													&charClassMatcher{
+																														pos:        position{line: 318, col: 18, offset: 9736},
+																														val:        "[_\\pL\\pN]",
+																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																														ignoreCase: false,
 																														inverted:   false,
 																													},
+																													&zeroOrMoreExpr{
+																														pos: position{line: 318, col: 28, offset: 9746},
+																														expr: &charClassMatcher{
+																															pos:        position{line: 318, col: 29, offset: 9747},
+																															val:        "[-\\pL\\pN]",
+																															chars:      []rune{'-'},
+																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																															ignoreCase: false,
+																															inverted:   false,
+																														},
+																													},
 																												},
 																											},
 																										},
 																									},
-																								},
-																								&litMatcher{
-																									pos:        position{line: 645, col: 32, offset: 20346},
-																									val:        "}",
-																									ignoreCase: false,
-																									want:       "\"}\"",
+																									&litMatcher{
+																										pos:        position{line: 645, col: 32, offset: 20346},
+																										val:        "}",
+																										ignoreCase: false,
+																										want:       "\"}\"",
+																									},
 																								},
 																							},
 																						},
-																					},
-																					&actionExpr{
-																						pos: position{line: 652, col: 5, offset: 20587},
-																						run: (*parser).callonDocumentRawLine226,
-																						expr: &seqExpr{
+																						&actionExpr{
 																							pos: position{line: 652, col: 5, offset: 20587},
-																							exprs: []interface{}{
-																								&litMatcher{
-																									pos:        position{line: 652, col: 5, offset: 20587},
-																									val:        "{",
-																									ignoreCase: false,
-																									want:       "\"{\"",
-																								},
-																								&labeledExpr{
-																									pos:   position{line: 652, col: 9, offset: 20591},
-																									label: "name",
-																									expr: &actionExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
-																										run: (*parser).callonDocumentRawLine230,
-																										expr: &seqExpr{
+																							run: (*parser).callonDocumentRawLine250,
+																							expr: &seqExpr{
+																								pos: position{line: 652, col: 5, offset: 20587},
+																								exprs: []interface{}{
+																									&litMatcher{
+																										pos:        position{line: 652, col: 5, offset: 20587},
+																										val:        "{",
+																										ignoreCase: false,
+																										want:       "\"{\"",
+																									},
+																									&labeledExpr{
+																										pos:   position{line: 652, col: 9, offset: 20591},
+																										label: "name",
+																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9736},
-																											exprs: []interface{}{
-																												&charClassMatcher{
-																													pos:        position{line: 318, col: 18, offset: 9736},
-																													val:        "[_\\pL\\pN]",
-																													chars:      []rune{'_'},
-																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																													ignoreCase: false,
-																													inverted:   false,
-																												},
-																												&zeroOrMoreExpr{
-																													pos: position{line: 318, col: 28, offset: 9746},
-																													expr: &charClassMatcher{
-																														pos:        position{line: 318, col: 29, offset: 9747},
-																														val:        "[-\\pL\\pN]",
-																														chars:      []rune{'-'},
+																											run: (*parser).callonDocumentRawLine254,
+																											expr: &seqExpr{
+																												pos: position{line: 318, col: 18, offset: 9736},
+																												exprs: []interface{}{
+																													&charClassMatcher{
+																														pos:        position{line: 318, col: 18, offset: 9736},
+																														val:        "[_\\pL\\pN]",
+																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																														ignoreCase: false,
 																														inverted:   false,
 																													},
+																													&zeroOrMoreExpr{
+																														pos: position{line: 318, col: 28, offset: 9746},
+																														expr: &charClassMatcher{
+																															pos:        position{line: 318, col: 29, offset: 9747},
+																															val:        "[-\\pL\\pN]",
+																															chars:      []rune{'-'},
+																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																															ignoreCase: false,
+																															inverted:   false,
+																														},
+																													},
 																												},
 																											},
 																										},
 																									},
+																									&litMatcher{
+																										pos:        position{line: 652, col: 28, offset: 20610},
+																										val:        "}",
+																										ignoreCase: false,
+																										want:       "\"}\"",
+																									},
 																								},
-																								&litMatcher{
-																									pos:        position{line: 652, col: 28, offset: 20610},
-																									val:        "}",
+																							},
+																						},
+																						&actionExpr{
+																							pos: position{line: 92, col: 41, offset: 2549},
+																							run: (*parser).callonDocumentRawLine260,
+																							expr: &oneOrMoreExpr{
+																								pos: position{line: 92, col: 41, offset: 2549},
+																								expr: &charClassMatcher{
+																									pos:        position{line: 92, col: 41, offset: 2549},
+																									val:        "[^\\r\\n\"{]",
+																									chars:      []rune{'\r', '\n', '"', '{'},
 																									ignoreCase: false,
-																									want:       "\"}\"",
+																									inverted:   true,
 																								},
 																							},
 																						},
+																						&actionExpr{
+																							pos: position{line: 92, col: 87, offset: 2595},
+																							run: (*parser).callonDocumentRawLine263,
+																							expr: &litMatcher{
+																								pos:        position{line: 92, col: 87, offset: 2595},
+																								val:        "{",
+																								ignoreCase: false,
+																								want:       "\"{\"",
+																							},
+																						},
 																					},
 																				},
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 92, col: 39, offset: 2529},
+																			pos:        position{line: 92, col: 125, offset: 2633},
 																			val:        "\"",
 																			ignoreCase: false,
 																			want:       "\"\\\"\"",
@@ -1190,134 +1313,161 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 93, col: 8, offset: 2560},
-																run: (*parser).callonDocumentRawLine237,
+																pos: position{line: 93, col: 8, offset: 2680},
+																run: (*parser).callonDocumentRawLine266,
 																expr: &seqExpr{
-																	pos: position{line: 93, col: 8, offset: 2560},
+																	pos: position{line: 93, col: 8, offset: 2680},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 93, col: 8, offset: 2560},
+																			pos:        position{line: 93, col: 8, offset: 2680},
 																			val:        "'",
 																			ignoreCase: false,
 																			want:       "\"'\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 93, col: 12, offset: 2564},
-																			label: "s",
-																			expr: &choiceExpr{
-																				pos: position{line: 645, col: 5, offset: 20319},
-																				alternatives: []interface{}{
-																					&actionExpr{
-																						pos: position{line: 645, col: 5, offset: 20319},
-																						run: (*parser).callonDocumentRawLine242,
-																						expr: &seqExpr{
+																			pos:   position{line: 93, col: 12, offset: 2684},
+																			label: "e",
+																			expr: &zeroOrMoreExpr{
+																				pos: position{line: 93, col: 14, offset: 2686},
+																				expr: &choiceExpr{
+																					pos: position{line: 93, col: 15, offset: 2687},
+																					alternatives: []interface{}{
+																						&actionExpr{
 																							pos: position{line: 645, col: 5, offset: 20319},
-																							exprs: []interface{}{
-																								&litMatcher{
-																									pos:        position{line: 645, col: 5, offset: 20319},
-																									val:        "\\{",
-																									ignoreCase: false,
-																									want:       "\"\\\\{\"",
-																								},
-																								&labeledExpr{
-																									pos:   position{line: 645, col: 13, offset: 20327},
-																									label: "name",
-																									expr: &actionExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
-																										run: (*parser).callonDocumentRawLine246,
-																										expr: &seqExpr{
+																							run: (*parser).callonDocumentRawLine272,
+																							expr: &seqExpr{
+																								pos: position{line: 645, col: 5, offset: 20319},
+																								exprs: []interface{}{
+																									&litMatcher{
+																										pos:        position{line: 645, col: 5, offset: 20319},
+																										val:        "\\{",
+																										ignoreCase: false,
+																										want:       "\"\\\\{\"",
+																									},
+																									&labeledExpr{
+																										pos:   position{line: 645, col: 13, offset: 20327},
+																										label: "name",
+																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9736},
-																											exprs: []interface{}{
-																												&charClassMatcher{
-																													pos:        position{line: 318, col: 18, offset: 9736},
-																													val:        "[_\\pL\\pN]",
-																													chars:      []rune{'_'},
-																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																													ignoreCase: false,
-																													inverted:   false,
-																												},
-																												&zeroOrMoreExpr{
-																													pos: position{line: 318, col: 28, offset: 9746},
-																													expr: &charClassMatcher{
-																														pos:        position{line: 318, col: 29, offset: 9747},
-																														val:        "[-\\pL\\pN]",
-																														chars:      []rune{'-'},
+																											run: (*parser).callonDocumentRawLine276,
+																											expr: &seqExpr{
+																												pos: position{line: 318, col: 18, offset: 9736},
+																												exprs: []interface{}{
+																													&charClassMatcher{
+																														pos:        position{line: 318, col: 18, offset: 9736},
+																														val:        "[_\\pL\\pN]",
+																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																														ignoreCase: false,
 																														inverted:   false,
 																													},
+																													&zeroOrMoreExpr{
+																														pos: position{line: 318, col: 28, offset: 9746},
+																														expr: &charClassMatcher{
+																															pos:        position{line: 318, col: 29, offset: 9747},
+																															val:        "[-\\pL\\pN]",
+																															chars:      []rune{'-'},
+																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																															ignoreCase: false,
+																															inverted:   false,
+																														},
+																													},
 																												},
 																											},
 																										},
 																									},
-																								},
-																								&litMatcher{
-																									pos:        position{line: 645, col: 32, offset: 20346},
-																									val:        "}",
-																									ignoreCase: false,
-																									want:       "\"}\"",
+																									&litMatcher{
+																										pos:        position{line: 645, col: 32, offset: 20346},
+																										val:        "}",
+																										ignoreCase: false,
+																										want:       "\"}\"",
+																									},
 																								},
 																							},
 																						},
-																					},
-																					&actionExpr{
-																						pos: position{line: 652, col: 5, offset: 20587},
-																						run: (*parser).callonDocumentRawLine252,
-																						expr: &seqExpr{
+																						&actionExpr{
 																							pos: position{line: 652, col: 5, offset: 20587},
-																							exprs: []interface{}{
-																								&litMatcher{
-																									pos:        position{line: 652, col: 5, offset: 20587},
-																									val:        "{",
-																									ignoreCase: false,
-																									want:       "\"{\"",
-																								},
-																								&labeledExpr{
-																									pos:   position{line: 652, col: 9, offset: 20591},
-																									label: "name",
-																									expr: &actionExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
-																										run: (*parser).callonDocumentRawLine256,
-																										expr: &seqExpr{
+																							run: (*parser).callonDocumentRawLine282,
+																							expr: &seqExpr{
+																								pos: position{line: 652, col: 5, offset: 20587},
+																								exprs: []interface{}{
+																									&litMatcher{
+																										pos:        position{line: 652, col: 5, offset: 20587},
+																										val:        "{",
+																										ignoreCase: false,
+																										want:       "\"{\"",
+																									},
+																									&labeledExpr{
+																										pos:   position{line: 652, col: 9, offset: 20591},
+																										label: "name",
+																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9736},
-																											exprs: []interface{}{
-																												&charClassMatcher{
-																													pos:        position{line: 318, col: 18, offset: 9736},
-																													val:        "[_\\pL\\pN]",
-																													chars:      []rune{'_'},
-																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																													ignoreCase: false,
-																													inverted:   false,
-																												},
-																												&zeroOrMoreExpr{
-																													pos: position{line: 318, col: 28, offset: 9746},
-																													expr: &charClassMatcher{
-																														pos:        position{line: 318, col: 29, offset: 9747},
-																														val:        "[-\\pL\\pN]",
-																														chars:      []rune{'-'},
+																											run: (*parser).callonDocumentRawLine286,
+																											expr: &seqExpr{
+																												pos: position{line: 318, col: 18, offset: 9736},
+																												exprs: []interface{}{
+																													&charClassMatcher{
+																														pos:        position{line: 318, col: 18, offset: 9736},
+																														val:        "[_\\pL\\pN]",
+																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																														ignoreCase: false,
 																														inverted:   false,
 																													},
+																													&zeroOrMoreExpr{
+																														pos: position{line: 318, col: 28, offset: 9746},
+																														expr: &charClassMatcher{
+																															pos:        position{line: 318, col: 29, offset: 9747},
+																															val:        "[-\\pL\\pN]",
+																															chars:      []rune{'-'},
+																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																															ignoreCase: false,
+																															inverted:   false,
+																														},
+																													},
 																												},
 																											},
 																										},
 																									},
+																									&litMatcher{
+																										pos:        position{line: 652, col: 28, offset: 20610},
+																										val:        "}",
+																										ignoreCase: false,
+																										want:       "\"}\"",
+																									},
 																								},
-																								&litMatcher{
-																									pos:        position{line: 652, col: 28, offset: 20610},
-																									val:        "}",
+																							},
+																						},
+																						&actionExpr{
+																							pos: position{line: 93, col: 42, offset: 2714},
+																							run: (*parser).callonDocumentRawLine292,
+																							expr: &oneOrMoreExpr{
+																								pos: position{line: 93, col: 42, offset: 2714},
+																								expr: &charClassMatcher{
+																									pos:        position{line: 93, col: 42, offset: 2714},
+																									val:        "[^\\r\\n\\{]",
+																									chars:      []rune{'\r', '\n', '\'', '{'},
 																									ignoreCase: false,
-																									want:       "\"}\"",
+																									inverted:   true,
 																								},
 																							},
 																						},
+																						&actionExpr{
+																							pos: position{line: 93, col: 88, offset: 2760},
+																							run: (*parser).callonDocumentRawLine295,
+																							expr: &litMatcher{
+																								pos:        position{line: 93, col: 88, offset: 2760},
+																								val:        "{",
+																								ignoreCase: false,
+																								want:       "\"{\"",
+																							},
+																						},
 																					},
 																				},
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 93, col: 40, offset: 2592},
+																			pos:        position{line: 93, col: 126, offset: 2798},
 																			val:        "'",
 																			ignoreCase: false,
 																			want:       "\"'\"",
@@ -1326,17 +1476,17 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 94, col: 8, offset: 2622},
-																run: (*parser).callonDocumentRawLine263,
+																pos: position{line: 94, col: 8, offset: 2844},
+																run: (*parser).callonDocumentRawLine298,
 																expr: &labeledExpr{
-																	pos:   position{line: 94, col: 8, offset: 2622},
+																	pos:   position{line: 94, col: 8, offset: 2844},
 																	label: "s",
 																	expr: &choiceExpr{
 																		pos: position{line: 645, col: 5, offset: 20319},
 																		alternatives: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 645, col: 5, offset: 20319},
-																				run: (*parser).callonDocumentRawLine266,
+																				run: (*parser).callonDocumentRawLine301,
 																				expr: &seqExpr{
 																					pos: position{line: 645, col: 5, offset: 20319},
 																					exprs: []interface{}{
@@ -1351,7 +1501,7 @@ var g = &grammar{
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 318, col: 18, offset: 9736},
-																								run: (*parser).callonDocumentRawLine270,
+																								run: (*parser).callonDocumentRawLine305,
 																								expr: &seqExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
 																									exprs: []interface{}{
@@ -1389,7 +1539,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 652, col: 5, offset: 20587},
-																				run: (*parser).callonDocumentRawLine276,
+																				run: (*parser).callonDocumentRawLine311,
 																				expr: &seqExpr{
 																					pos: position{line: 652, col: 5, offset: 20587},
 																					exprs: []interface{}{
@@ -1404,7 +1554,7 @@ var g = &grammar{
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 318, col: 18, offset: 9736},
-																								run: (*parser).callonDocumentRawLine280,
+																								run: (*parser).callonDocumentRawLine315,
 																								expr: &seqExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
 																									exprs: []interface{}{
@@ -1445,88 +1595,52 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 95, col: 8, offset: 2676},
-																run: (*parser).callonDocumentRawLine286,
+																pos: position{line: 2848, col: 10, offset: 90142},
+																run: (*parser).callonDocumentRawLine321,
 																expr: &seqExpr{
-																	pos: position{line: 95, col: 8, offset: 2676},
+																	pos: position{line: 2848, col: 11, offset: 90143},
 																	exprs: []interface{}{
-																		&litMatcher{
-																			pos:        position{line: 95, col: 8, offset: 2676},
-																			val:        "\"",
-																			ignoreCase: false,
-																			want:       "\"\\\"\"",
-																		},
-																		&labeledExpr{
-																			pos:   position{line: 95, col: 13, offset: 2681},
-																			label: "w",
-																			expr: &actionExpr{
-																				pos: position{line: 95, col: 16, offset: 2684},
-																				run: (*parser).callonDocumentRawLine290,
-																				expr: &oneOrMoreExpr{
-																					pos: position{line: 95, col: 16, offset: 2684},
-																					expr: &charClassMatcher{
-																						pos:        position{line: 95, col: 16, offset: 2684},
-																						val:        "[,?!;_-\\pL\\pN]",
-																						chars:      []rune{',', '?', '!', ';', '_', '-'},
-																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																						ignoreCase: false,
-																						inverted:   false,
-																					},
-																				},
+																		&zeroOrOneExpr{
+																			pos: position{line: 2848, col: 11, offset: 90143},
+																			expr: &litMatcher{
+																				pos:        position{line: 2848, col: 11, offset: 90143},
+																				val:        "-",
+																				ignoreCase: false,
+																				want:       "\"-\"",
 																			},
 																		},
-																		&litMatcher{
-																			pos:        position{line: 95, col: 63, offset: 2731},
-																			val:        "\"",
-																			ignoreCase: false,
-																			want:       "\"\\\"\"",
+																		&oneOrMoreExpr{
+																			pos: position{line: 2848, col: 16, offset: 90148},
+																			expr: &charClassMatcher{
+																				pos:        position{line: 2848, col: 16, offset: 90148},
+																				val:        "[0-9]",
+																				ranges:     []rune{'0', '9'},
+																				ignoreCase: false,
+																				inverted:   false,
+																			},
 																		},
-																	},
-																},
-															},
-															&actionExpr{
-																pos: position{line: 96, col: 8, offset: 2762},
-																run: (*parser).callonDocumentRawLine294,
-																expr: &seqExpr{
-																	pos: position{line: 96, col: 8, offset: 2762},
-																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 96, col: 8, offset: 2762},
-																			val:        "'",
+																			pos:        position{line: 2848, col: 23, offset: 90155},
+																			val:        ".",
 																			ignoreCase: false,
-																			want:       "\"'\"",
+																			want:       "\".\"",
 																		},
-																		&labeledExpr{
-																			pos:   position{line: 96, col: 12, offset: 2766},
-																			label: "w",
-																			expr: &actionExpr{
-																				pos: position{line: 96, col: 15, offset: 2769},
-																				run: (*parser).callonDocumentRawLine298,
-																				expr: &oneOrMoreExpr{
-																					pos: position{line: 96, col: 15, offset: 2769},
-																					expr: &charClassMatcher{
-																						pos:        position{line: 96, col: 15, offset: 2769},
-																						val:        "[,?!;_-\\pL\\pN]",
-																						chars:      []rune{',', '?', '!', ';', '_', '-'},
-																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																						ignoreCase: false,
-																						inverted:   false,
-																					},
-																				},
+																		&oneOrMoreExpr{
+																			pos: position{line: 2848, col: 27, offset: 90159},
+																			expr: &charClassMatcher{
+																				pos:        position{line: 2848, col: 27, offset: 90159},
+																				val:        "[0-9]",
+																				ranges:     []rune{'0', '9'},
+																				ignoreCase: false,
+																				inverted:   false,
 																			},
 																		},
-																		&litMatcher{
-																			pos:        position{line: 96, col: 62, offset: 2816},
-																			val:        "'",
-																			ignoreCase: false,
-																			want:       "\"'\"",
-																		},
 																	},
 																},
 															},
 															&actionExpr{
 																pos: position{line: 2844, col: 12, offset: 90066},
-																run: (*parser).callonDocumentRawLine302,
+																run: (*parser).callonDocumentRawLine330,
 																expr: &seqExpr{
 																	pos: position{line: 2844, col: 13, offset: 90067},
 																	exprs: []interface{}{
@@ -1556,105 +1670,144 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 86, col: 36, offset: 2351},
+													pos:        position{line: 86, col: 36, offset: 2369},
+													val:        "]",
+													ignoreCase: false,
+													want:       "\"]\"",
+												},
+												&zeroOrMoreExpr{
+													pos: position{line: 87, col: 5, offset: 2378},
+													expr: &actionExpr{
+														pos: position{line: 2852, col: 10, offset: 90239},
+														run: (*parser).callonDocumentRawLine338,
+														expr: &charClassMatcher{
+															pos:        position{line: 2852, col: 10, offset: 90239},
+															val:        "[\\t ]",
+															chars:      []rune{'\t', ' '},
+															ignoreCase: false,
+															inverted:   false,
+														},
+													},
+												},
+												&notExpr{
+													pos: position{line: 2871, col: 8, offset: 90587},
+													expr: &anyMatcher{
+														line: 2871, col: 9, offset: 90588,
+													},
+												},
+											},
+										},
+									},
+									&actionExpr{
+										pos: position{line: 123, col: 10, offset: 3386},
+										run: (*parser).callonDocumentRawLine342,
+										expr: &seqExpr{
+											pos: position{line: 123, col: 10, offset: 3386},
+											exprs: []interface{}{
+												&litMatcher{
+													pos:        position{line: 123, col: 10, offset: 3386},
+													val:        "endif::",
+													ignoreCase: false,
+													want:       "\"endif::\"",
+												},
+												&labeledExpr{
+													pos:   position{line: 123, col: 20, offset: 3396},
+													label: "name",
+													expr: &zeroOrOneExpr{
+														pos: position{line: 123, col: 25, offset: 3401},
+														expr: &actionExpr{
+															pos: position{line: 127, col: 28, offset: 3609},
+															run: (*parser).callonDocumentRawLine347,
+															expr: &oneOrMoreExpr{
+																pos: position{line: 127, col: 28, offset: 3609},
+																expr: &charClassMatcher{
+																	pos:        position{line: 127, col: 28, offset: 3609},
+																	val:        "[^\\r\\n []",
+																	chars:      []rune{'\r', '\n', ' ', '['},
+																	ignoreCase: false,
+																	inverted:   true,
+																},
+															},
+														},
+													},
+												},
+												&litMatcher{
+													pos:        position{line: 123, col: 52, offset: 3428},
+													val:        "[",
+													ignoreCase: false,
+													want:       "\"[\"",
+												},
+												&labeledExpr{
+													pos:   position{line: 123, col: 56, offset: 3432},
+													label: "attr",
+													expr: &zeroOrOneExpr{
+														pos: position{line: 123, col: 61, offset: 3437},
+														expr: &actionExpr{
+															pos: position{line: 78, col: 34, offset: 2142},
+															run: (*parser).callonDocumentRawLine353,
+															expr: &oneOrMoreExpr{
+																pos: position{line: 78, col: 34, offset: 2142},
+																expr: &seqExpr{
+																	pos: position{line: 78, col: 35, offset: 2143},
+																	exprs: []interface{}{
+																		&notExpr{
+																			pos: position{line: 78, col: 35, offset: 2143},
+																			expr: &seqExpr{
+																				pos: position{line: 78, col: 37, offset: 2145},
+																				exprs: []interface{}{
+																					&litMatcher{
+																						pos:        position{line: 78, col: 37, offset: 2145},
+																						val:        "]",
+																						ignoreCase: false,
+																						want:       "\"]\"",
+																					},
+																					&zeroOrMoreExpr{
+																						pos: position{line: 78, col: 41, offset: 2149},
+																						expr: &actionExpr{
+																							pos: position{line: 2852, col: 10, offset: 90239},
+																							run: (*parser).callonDocumentRawLine360,
+																							expr: &charClassMatcher{
+																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								val:        "[\\t ]",
+																								chars:      []rune{'\t', ' '},
+																								ignoreCase: false,
+																								inverted:   false,
+																							},
+																						},
+																					},
+																					&notExpr{
+																						pos: position{line: 2871, col: 8, offset: 90587},
+																						expr: &anyMatcher{
+																							line: 2871, col: 9, offset: 90588,
+																						},
+																					},
+																				},
+																			},
+																		},
+																		&charClassMatcher{
+																			pos:        position{line: 78, col: 53, offset: 2161},
+																			val:        "[^\\r\\n]",
+																			chars:      []rune{'\r', '\n'},
+																			ignoreCase: false,
+																			inverted:   true,
+																		},
+																	},
+																},
+															},
+														},
+													},
+												},
+												&litMatcher{
+													pos:        position{line: 123, col: 94, offset: 3470},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 87, col: 5, offset: 2360},
+													pos: position{line: 123, col: 98, offset: 3474},
 													expr: &actionExpr{
 														pos: position{line: 2852, col: 10, offset: 90239},
-														run: (*parser).callonDocumentRawLine310,
-														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
-															val:        "[\\t ]",
-															chars:      []rune{'\t', ' '},
-															ignoreCase: false,
-															inverted:   false,
-														},
-													},
-												},
-												&notExpr{
-													pos: position{line: 2871, col: 8, offset: 90587},
-													expr: &anyMatcher{
-														line: 2871, col: 9, offset: 90588,
-													},
-												},
-											},
-										},
-									},
-									&actionExpr{
-										pos: position{line: 123, col: 10, offset: 3328},
-										run: (*parser).callonDocumentRawLine314,
-										expr: &seqExpr{
-											pos: position{line: 123, col: 10, offset: 3328},
-											exprs: []interface{}{
-												&litMatcher{
-													pos:        position{line: 123, col: 10, offset: 3328},
-													val:        "endif::",
-													ignoreCase: false,
-													want:       "\"endif::\"",
-												},
-												&labeledExpr{
-													pos:   position{line: 123, col: 20, offset: 3338},
-													label: "name",
-													expr: &zeroOrOneExpr{
-														pos: position{line: 123, col: 25, offset: 3343},
-														expr: &actionExpr{
-															pos: position{line: 127, col: 28, offset: 3551},
-															run: (*parser).callonDocumentRawLine319,
-															expr: &oneOrMoreExpr{
-																pos: position{line: 127, col: 28, offset: 3551},
-																expr: &charClassMatcher{
-																	pos:        position{line: 127, col: 28, offset: 3551},
-																	val:        "[^\\r\\n []",
-																	chars:      []rune{'\r', '\n', ' ', '['},
-																	ignoreCase: false,
-																	inverted:   true,
-																},
-															},
-														},
-													},
-												},
-												&litMatcher{
-													pos:        position{line: 123, col: 52, offset: 3370},
-													val:        "[",
-													ignoreCase: false,
-													want:       "\"[\"",
-												},
-												&labeledExpr{
-													pos:   position{line: 123, col: 56, offset: 3374},
-													label: "attr",
-													expr: &zeroOrOneExpr{
-														pos: position{line: 123, col: 61, offset: 3379},
-														expr: &actionExpr{
-															pos: position{line: 78, col: 34, offset: 2142},
-															run: (*parser).callonDocumentRawLine325,
-															expr: &oneOrMoreExpr{
-																pos: position{line: 78, col: 34, offset: 2142},
-																expr: &charClassMatcher{
-																	pos:        position{line: 78, col: 34, offset: 2142},
-																	val:        "[^\\r\\n]]",
-																	chars:      []rune{'\r', '\n', ']'},
-																	ignoreCase: false,
-																	inverted:   true,
-																},
-															},
-														},
-													},
-												},
-												&litMatcher{
-													pos:        position{line: 123, col: 94, offset: 3412},
-													val:        "]",
-													ignoreCase: false,
-													want:       "\"]\"",
-												},
-												&zeroOrMoreExpr{
-													pos: position{line: 123, col: 98, offset: 3416},
-													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
-														run: (*parser).callonDocumentRawLine330,
+														run: (*parser).callonDocumentRawLine367,
 														expr: &charClassMatcher{
 															pos:        position{line: 2852, col: 10, offset: 90239},
 															val:        "[\\t ]",
@@ -1675,7 +1828,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 724, col: 5, offset: 23042},
-										run: (*parser).callonDocumentRawLine334,
+										run: (*parser).callonDocumentRawLine371,
 										expr: &seqExpr{
 											pos: position{line: 724, col: 5, offset: 23042},
 											exprs: []interface{}{
@@ -1697,7 +1850,7 @@ var g = &grammar{
 														alternatives: []interface{}{
 															&actionExpr{
 																pos: position{line: 740, col: 5, offset: 23584},
-																run: (*parser).callonDocumentRawLine340,
+																run: (*parser).callonDocumentRawLine377,
 																expr: &seqExpr{
 																	pos: position{line: 740, col: 5, offset: 23584},
 																	exprs: []interface{}{
@@ -1706,7 +1859,7 @@ var g = &grammar{
 																			label: "delimiter",
 																			expr: &actionExpr{
 																				pos: position{line: 740, col: 16, offset: 23595},
-																				run: (*parser).callonDocumentRawLine343,
+																				run: (*parser).callonDocumentRawLine380,
 																				expr: &seqExpr{
 																					pos: position{line: 740, col: 16, offset: 23595},
 																					exprs: []interface{}{
@@ -1733,7 +1886,7 @@ var g = &grammar{
 																			pos: position{line: 742, col: 8, offset: 23686},
 																			expr: &actionExpr{
 																				pos: position{line: 2852, col: 10, offset: 90239},
-																				run: (*parser).callonDocumentRawLine349,
+																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
 																					pos:        position{line: 2852, col: 10, offset: 90239},
 																					val:        "[\\t ]",
@@ -1748,7 +1901,7 @@ var g = &grammar{
 																			alternatives: []interface{}{
 																				&actionExpr{
 																					pos: position{line: 2861, col: 12, offset: 90410},
-																					run: (*parser).callonDocumentRawLine352,
+																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
 																						pos: position{line: 2861, col: 13, offset: 90411},
 																						alternatives: []interface{}{
@@ -1786,7 +1939,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 747, col: 5, offset: 23832},
-																run: (*parser).callonDocumentRawLine359,
+																run: (*parser).callonDocumentRawLine396,
 																expr: &seqExpr{
 																	pos: position{line: 747, col: 5, offset: 23832},
 																	exprs: []interface{}{
@@ -1795,7 +1948,7 @@ var g = &grammar{
 																			label: "delimiter",
 																			expr: &actionExpr{
 																				pos: position{line: 747, col: 16, offset: 23843},
-																				run: (*parser).callonDocumentRawLine362,
+																				run: (*parser).callonDocumentRawLine399,
 																				expr: &seqExpr{
 																					pos: position{line: 747, col: 16, offset: 23843},
 																					exprs: []interface{}{
@@ -1822,7 +1975,7 @@ var g = &grammar{
 																			pos: position{line: 749, col: 8, offset: 23934},
 																			expr: &actionExpr{
 																				pos: position{line: 2852, col: 10, offset: 90239},
-																				run: (*parser).callonDocumentRawLine368,
+																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
 																					pos:        position{line: 2852, col: 10, offset: 90239},
 																					val:        "[\\t ]",
@@ -1837,7 +1990,7 @@ var g = &grammar{
 																			alternatives: []interface{}{
 																				&actionExpr{
 																					pos: position{line: 2861, col: 12, offset: 90410},
-																					run: (*parser).callonDocumentRawLine371,
+																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
 																						pos: position{line: 2861, col: 13, offset: 90411},
 																						alternatives: []interface{}{
@@ -1875,7 +2028,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 760, col: 26, offset: 24320},
-																run: (*parser).callonDocumentRawLine378,
+																run: (*parser).callonDocumentRawLine415,
 																expr: &seqExpr{
 																	pos: position{line: 760, col: 26, offset: 24320},
 																	exprs: []interface{}{
@@ -1890,7 +2043,7 @@ var g = &grammar{
 																			label: "language",
 																			expr: &actionExpr{
 																				pos: position{line: 764, col: 13, offset: 24456},
-																				run: (*parser).callonDocumentRawLine382,
+																				run: (*parser).callonDocumentRawLine419,
 																				expr: &oneOrMoreExpr{
 																					pos: position{line: 764, col: 14, offset: 24457},
 																					expr: &charClassMatcher{
@@ -1907,7 +2060,7 @@ var g = &grammar{
 																			pos: position{line: 760, col: 52, offset: 24346},
 																			expr: &actionExpr{
 																				pos: position{line: 2852, col: 10, offset: 90239},
-																				run: (*parser).callonDocumentRawLine386,
+																				run: (*parser).callonDocumentRawLine423,
 																				expr: &charClassMatcher{
 																					pos:        position{line: 2852, col: 10, offset: 90239},
 																					val:        "[\\t ]",
@@ -1922,7 +2075,7 @@ var g = &grammar{
 																			alternatives: []interface{}{
 																				&actionExpr{
 																					pos: position{line: 2861, col: 12, offset: 90410},
-																					run: (*parser).callonDocumentRawLine389,
+																					run: (*parser).callonDocumentRawLine426,
 																					expr: &choiceExpr{
 																						pos: position{line: 2861, col: 13, offset: 90411},
 																						alternatives: []interface{}{
@@ -1960,7 +2113,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 754, col: 5, offset: 24079},
-																run: (*parser).callonDocumentRawLine396,
+																run: (*parser).callonDocumentRawLine433,
 																expr: &seqExpr{
 																	pos: position{line: 754, col: 5, offset: 24079},
 																	exprs: []interface{}{
@@ -1969,7 +2122,7 @@ var g = &grammar{
 																			label: "delimiter",
 																			expr: &actionExpr{
 																				pos: position{line: 754, col: 16, offset: 24090},
-																				run: (*parser).callonDocumentRawLine399,
+																				run: (*parser).callonDocumentRawLine436,
 																				expr: &seqExpr{
 																					pos: position{line: 754, col: 16, offset: 24090},
 																					exprs: []interface{}{
@@ -1996,7 +2149,7 @@ var g = &grammar{
 																			pos: position{line: 756, col: 8, offset: 24180},
 																			expr: &actionExpr{
 																				pos: position{line: 2852, col: 10, offset: 90239},
-																				run: (*parser).callonDocumentRawLine405,
+																				run: (*parser).callonDocumentRawLine442,
 																				expr: &charClassMatcher{
 																					pos:        position{line: 2852, col: 10, offset: 90239},
 																					val:        "[\\t ]",
@@ -2011,7 +2164,7 @@ var g = &grammar{
 																			alternatives: []interface{}{
 																				&actionExpr{
 																					pos: position{line: 2861, col: 12, offset: 90410},
-																					run: (*parser).callonDocumentRawLine408,
+																					run: (*parser).callonDocumentRawLine445,
 																					expr: &choiceExpr{
 																						pos: position{line: 2861, col: 13, offset: 90411},
 																						alternatives: []interface{}{
@@ -2049,7 +2202,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 769, col: 5, offset: 24616},
-																run: (*parser).callonDocumentRawLine415,
+																run: (*parser).callonDocumentRawLine452,
 																expr: &seqExpr{
 																	pos: position{line: 769, col: 5, offset: 24616},
 																	exprs: []interface{}{
@@ -2058,7 +2211,7 @@ var g = &grammar{
 																			label: "delimiter",
 																			expr: &actionExpr{
 																				pos: position{line: 769, col: 16, offset: 24627},
-																				run: (*parser).callonDocumentRawLine418,
+																				run: (*parser).callonDocumentRawLine455,
 																				expr: &seqExpr{
 																					pos: position{line: 769, col: 16, offset: 24627},
 																					exprs: []interface{}{
@@ -2085,7 +2238,7 @@ var g = &grammar{
 																			pos: position{line: 771, col: 8, offset: 24718},
 																			expr: &actionExpr{
 																				pos: position{line: 2852, col: 10, offset: 90239},
-																				run: (*parser).callonDocumentRawLine424,
+																				run: (*parser).callonDocumentRawLine461,
 																				expr: &charClassMatcher{
 																					pos:        position{line: 2852, col: 10, offset: 90239},
 																					val:        "[\\t ]",
@@ -2100,7 +2253,7 @@ var g = &grammar{
 																			alternatives: []interface{}{
 																				&actionExpr{
 																					pos: position{line: 2861, col: 12, offset: 90410},
-																					run: (*parser).callonDocumentRawLine427,
+																					run: (*parser).callonDocumentRawLine464,
 																					expr: &choiceExpr{
 																						pos: position{line: 2861, col: 13, offset: 90411},
 																						alternatives: []interface{}{
@@ -2138,7 +2291,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 783, col: 5, offset: 25092},
-																run: (*parser).callonDocumentRawLine434,
+																run: (*parser).callonDocumentRawLine471,
 																expr: &seqExpr{
 																	pos: position{line: 783, col: 5, offset: 25092},
 																	exprs: []interface{}{
@@ -2147,7 +2300,7 @@ var g = &grammar{
 																			label: "delimiter",
 																			expr: &actionExpr{
 																				pos: position{line: 783, col: 16, offset: 25103},
-																				run: (*parser).callonDocumentRawLine437,
+																				run: (*parser).callonDocumentRawLine474,
 																				expr: &seqExpr{
 																					pos: position{line: 783, col: 16, offset: 25103},
 																					exprs: []interface{}{
@@ -2174,7 +2327,7 @@ var g = &grammar{
 																			pos: position{line: 785, col: 8, offset: 25194},
 																			expr: &actionExpr{
 																				pos: position{line: 2852, col: 10, offset: 90239},
-																				run: (*parser).callonDocumentRawLine443,
+																				run: (*parser).callonDocumentRawLine480,
 																				expr: &charClassMatcher{
 																					pos:        position{line: 2852, col: 10, offset: 90239},
 																					val:        "[\\t ]",
@@ -2189,7 +2342,7 @@ var g = &grammar{
 																			alternatives: []interface{}{
 																				&actionExpr{
 																					pos: position{line: 2861, col: 12, offset: 90410},
-																					run: (*parser).callonDocumentRawLine446,
+																					run: (*parser).callonDocumentRawLine483,
 																					expr: &choiceExpr{
 																						pos: position{line: 2861, col: 13, offset: 90411},
 																						alternatives: []interface{}{
@@ -2227,7 +2380,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 790, col: 5, offset: 25344},
-																run: (*parser).callonDocumentRawLine453,
+																run: (*parser).callonDocumentRawLine490,
 																expr: &seqExpr{
 																	pos: position{line: 790, col: 5, offset: 25344},
 																	exprs: []interface{}{
@@ -2236,7 +2389,7 @@ var g = &grammar{
 																			label: "delimiter",
 																			expr: &actionExpr{
 																				pos: position{line: 790, col: 16, offset: 25355},
-																				run: (*parser).callonDocumentRawLine456,
+																				run: (*parser).callonDocumentRawLine493,
 																				expr: &seqExpr{
 																					pos: position{line: 790, col: 16, offset: 25355},
 																					exprs: []interface{}{
@@ -2263,7 +2416,7 @@ var g = &grammar{
 																			pos: position{line: 792, col: 8, offset: 25446},
 																			expr: &actionExpr{
 																				pos: position{line: 2852, col: 10, offset: 90239},
-																				run: (*parser).callonDocumentRawLine462,
+																				run: (*parser).callonDocumentRawLine499,
 																				expr: &charClassMatcher{
 																					pos:        position{line: 2852, col: 10, offset: 90239},
 																					val:        "[\\t ]",
@@ -2278,7 +2431,7 @@ var g = &grammar{
 																			alternatives: []interface{}{
 																				&actionExpr{
 																					pos: position{line: 2861, col: 12, offset: 90410},
-																					run: (*parser).callonDocumentRawLine465,
+																					run: (*parser).callonDocumentRawLine502,
 																					expr: &choiceExpr{
 																						pos: position{line: 2861, col: 13, offset: 90411},
 																						alternatives: []interface{}{
@@ -2316,7 +2469,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 797, col: 5, offset: 25594},
-																run: (*parser).callonDocumentRawLine472,
+																run: (*parser).callonDocumentRawLine509,
 																expr: &seqExpr{
 																	pos: position{line: 797, col: 5, offset: 25594},
 																	exprs: []interface{}{
@@ -2325,7 +2478,7 @@ var g = &grammar{
 																			label: "delimiter",
 																			expr: &actionExpr{
 																				pos: position{line: 797, col: 16, offset: 25605},
-																				run: (*parser).callonDocumentRawLine475,
+																				run: (*parser).callonDocumentRawLine512,
 																				expr: &seqExpr{
 																					pos: position{line: 797, col: 16, offset: 25605},
 																					exprs: []interface{}{
@@ -2352,7 +2505,7 @@ var g = &grammar{
 																			pos: position{line: 799, col: 8, offset: 25696},
 																			expr: &actionExpr{
 																				pos: position{line: 2852, col: 10, offset: 90239},
-																				run: (*parser).callonDocumentRawLine481,
+																				run: (*parser).callonDocumentRawLine518,
 																				expr: &charClassMatcher{
 																					pos:        position{line: 2852, col: 10, offset: 90239},
 																					val:        "[\\t ]",
@@ -2367,7 +2520,7 @@ var g = &grammar{
 																			alternatives: []interface{}{
 																				&actionExpr{
 																					pos: position{line: 2861, col: 12, offset: 90410},
-																					run: (*parser).callonDocumentRawLine484,
+																					run: (*parser).callonDocumentRawLine521,
 																					expr: &choiceExpr{
 																						pos: position{line: 2861, col: 13, offset: 90411},
 																						alternatives: []interface{}{
@@ -2405,7 +2558,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 804, col: 5, offset: 25840},
-																run: (*parser).callonDocumentRawLine491,
+																run: (*parser).callonDocumentRawLine528,
 																expr: &seqExpr{
 																	pos: position{line: 804, col: 5, offset: 25840},
 																	exprs: []interface{}{
@@ -2414,7 +2567,7 @@ var g = &grammar{
 																			label: "delimiter",
 																			expr: &actionExpr{
 																				pos: position{line: 804, col: 16, offset: 25851},
-																				run: (*parser).callonDocumentRawLine494,
+																				run: (*parser).callonDocumentRawLine531,
 																				expr: &seqExpr{
 																					pos: position{line: 804, col: 16, offset: 25851},
 																					exprs: []interface{}{
@@ -2441,7 +2594,7 @@ var g = &grammar{
 																			pos: position{line: 806, col: 8, offset: 25942},
 																			expr: &actionExpr{
 																				pos: position{line: 2852, col: 10, offset: 90239},
-																				run: (*parser).callonDocumentRawLine500,
+																				run: (*parser).callonDocumentRawLine537,
 																				expr: &charClassMatcher{
 																					pos:        position{line: 2852, col: 10, offset: 90239},
 																					val:        "[\\t ]",
@@ -2456,7 +2609,7 @@ var g = &grammar{
 																			alternatives: []interface{}{
 																				&actionExpr{
 																					pos: position{line: 2861, col: 12, offset: 90410},
-																					run: (*parser).callonDocumentRawLine503,
+																					run: (*parser).callonDocumentRawLine540,
 																					expr: &choiceExpr{
 																						pos: position{line: 2861, col: 13, offset: 90411},
 																						alternatives: []interface{}{
@@ -2500,24 +2653,24 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 42, col: 5, offset: 929},
-										run: (*parser).callonDocumentRawLine510,
+										run: (*parser).callonDocumentRawLine547,
 										expr: &seqExpr{
 											pos: position{line: 42, col: 5, offset: 929},
 											exprs: []interface{}{
 												&andCodeExpr{
 													pos: position{line: 42, col: 5, offset: 929},
-													run: (*parser).callonDocumentRawLine512,
+													run: (*parser).callonDocumentRawLine549,
 												},
 												&andCodeExpr{
 													pos: position{line: 46, col: 5, offset: 1073},
-													run: (*parser).callonDocumentRawLine513,
+													run: (*parser).callonDocumentRawLine550,
 												},
 												&labeledExpr{
 													pos:   position{line: 49, col: 5, offset: 1136},
 													label: "level",
 													expr: &actionExpr{
 														pos: position{line: 49, col: 12, offset: 1143},
-														run: (*parser).callonDocumentRawLine515,
+														run: (*parser).callonDocumentRawLine552,
 														expr: &oneOrMoreExpr{
 															pos: position{line: 49, col: 12, offset: 1143},
 															expr: &litMatcher{
@@ -2531,11 +2684,11 @@ var g = &grammar{
 												},
 												&andCodeExpr{
 													pos: position{line: 53, col: 5, offset: 1252},
-													run: (*parser).callonDocumentRawLine518,
+													run: (*parser).callonDocumentRawLine555,
 												},
 												&actionExpr{
 													pos: position{line: 2856, col: 11, offset: 90300},
-													run: (*parser).callonDocumentRawLine519,
+													run: (*parser).callonDocumentRawLine556,
 													expr: &oneOrMoreExpr{
 														pos: position{line: 2856, col: 11, offset: 90300},
 														expr: &charClassMatcher{
@@ -2549,7 +2702,7 @@ var g = &grammar{
 												},
 												&actionExpr{
 													pos: position{line: 2802, col: 14, offset: 88832},
-													run: (*parser).callonDocumentRawLine522,
+													run: (*parser).callonDocumentRawLine559,
 													expr: &oneOrMoreExpr{
 														pos: position{line: 2802, col: 14, offset: 88832},
 														expr: &charClassMatcher{
@@ -47633,6 +47786,18 @@ func (p *parser) callonDocumentRawLine53() (interface{}, error) {
 	return p.cur.onDocumentRawLine53()
 }
 
+func (c *current) onDocumentRawLine66() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonDocumentRawLine66() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentRawLine66()
+}
+
 func (c *current) onDocumentRawLine59() (interface{}, error) {
 	return string(c.text), nil
 
@@ -47644,16 +47809,16 @@ func (p *parser) callonDocumentRawLine59() (interface{}, error) {
 	return p.cur.onDocumentRawLine59()
 }
 
-func (c *current) onDocumentRawLine64() (interface{}, error) {
+func (c *current) onDocumentRawLine73() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentRawLine64() (interface{}, error) {
+func (p *parser) callonDocumentRawLine73() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine64()
+	return p.cur.onDocumentRawLine73()
 }
 
 func (c *current) onDocumentRawLine49(name, attr interface{}) (interface{}, error) {
@@ -47667,64 +47832,76 @@ func (p *parser) callonDocumentRawLine49() (interface{}, error) {
 	return p.cur.onDocumentRawLine49(stack["name"], stack["attr"])
 }
 
-func (c *current) onDocumentRawLine72() (interface{}, error) {
+func (c *current) onDocumentRawLine81() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentRawLine72() (interface{}, error) {
+func (p *parser) callonDocumentRawLine81() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine72()
+	return p.cur.onDocumentRawLine81()
 }
 
-func (c *current) onDocumentRawLine78() (interface{}, error) {
+func (c *current) onDocumentRawLine94() (interface{}, error) {
+
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentRawLine78() (interface{}, error) {
+func (p *parser) callonDocumentRawLine94() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine78()
+	return p.cur.onDocumentRawLine94()
 }
 
-func (c *current) onDocumentRawLine83() (interface{}, error) {
+func (c *current) onDocumentRawLine87() (interface{}, error) {
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonDocumentRawLine87() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentRawLine87()
+}
+
+func (c *current) onDocumentRawLine101() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentRawLine83() (interface{}, error) {
+func (p *parser) callonDocumentRawLine101() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine83()
+	return p.cur.onDocumentRawLine101()
 }
 
-func (c *current) onDocumentRawLine68(name, attr interface{}) (interface{}, error) {
+func (c *current) onDocumentRawLine77(name, attr interface{}) (interface{}, error) {
 	return types.NewIfndefCondition(name.(string), attr)
 
 }
 
-func (p *parser) callonDocumentRawLine68() (interface{}, error) {
+func (p *parser) callonDocumentRawLine77() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine68(stack["name"], stack["attr"])
+	return p.cur.onDocumentRawLine77(stack["name"], stack["attr"])
 }
 
-func (c *current) onDocumentRawLine101() (interface{}, error) {
+func (c *current) onDocumentRawLine120() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentRawLine101() (interface{}, error) {
+func (p *parser) callonDocumentRawLine120() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine101()
+	return p.cur.onDocumentRawLine120()
 }
 
-func (c *current) onDocumentRawLine97(name interface{}) (interface{}, error) {
+func (c *current) onDocumentRawLine116(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -47732,57 +47909,77 @@ func (c *current) onDocumentRawLine97(name interface{}) (interface{}, error) {
 
 }
 
-func (p *parser) callonDocumentRawLine97() (interface{}, error) {
+func (p *parser) callonDocumentRawLine116() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine97(stack["name"])
+	return p.cur.onDocumentRawLine116(stack["name"])
 }
 
-func (c *current) onDocumentRawLine111() (interface{}, error) {
+func (c *current) onDocumentRawLine130() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentRawLine111() (interface{}, error) {
+func (p *parser) callonDocumentRawLine130() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine111()
+	return p.cur.onDocumentRawLine130()
 }
 
-func (c *current) onDocumentRawLine107(name interface{}) (interface{}, error) {
+func (c *current) onDocumentRawLine126(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonDocumentRawLine107() (interface{}, error) {
+func (p *parser) callonDocumentRawLine126() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine107(stack["name"])
+	return p.cur.onDocumentRawLine126(stack["name"])
 }
 
-func (c *current) onDocumentRawLine92(s interface{}) (interface{}, error) {
-	return s, nil
+func (c *current) onDocumentRawLine136() (interface{}, error) {
+	return string(c.text), nil
+}
+
+func (p *parser) callonDocumentRawLine136() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentRawLine136()
+}
+
+func (c *current) onDocumentRawLine139() (interface{}, error) {
+	return string(c.text), nil
+}
+
+func (p *parser) callonDocumentRawLine139() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentRawLine139()
+}
+
+func (c *current) onDocumentRawLine110(e interface{}) (interface{}, error) {
+	return types.NewIfevalText(e)
 }
 
-func (p *parser) callonDocumentRawLine92() (interface{}, error) {
+func (p *parser) callonDocumentRawLine110() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine92(stack["s"])
+	return p.cur.onDocumentRawLine110(stack["e"])
 }
 
-func (c *current) onDocumentRawLine127() (interface{}, error) {
+func (c *current) onDocumentRawLine152() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentRawLine127() (interface{}, error) {
+func (p *parser) callonDocumentRawLine152() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine127()
+	return p.cur.onDocumentRawLine152()
 }
 
-func (c *current) onDocumentRawLine123(name interface{}) (interface{}, error) {
+func (c *current) onDocumentRawLine148(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -47790,256 +47987,247 @@ func (c *current) onDocumentRawLine123(name interface{}) (interface{}, error) {
 
 }
 
-func (p *parser) callonDocumentRawLine123() (interface{}, error) {
+func (p *parser) callonDocumentRawLine148() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine123(stack["name"])
+	return p.cur.onDocumentRawLine148(stack["name"])
 }
 
-func (c *current) onDocumentRawLine137() (interface{}, error) {
+func (c *current) onDocumentRawLine162() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentRawLine137() (interface{}, error) {
+func (p *parser) callonDocumentRawLine162() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine137()
+	return p.cur.onDocumentRawLine162()
 }
 
-func (c *current) onDocumentRawLine133(name interface{}) (interface{}, error) {
+func (c *current) onDocumentRawLine158(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonDocumentRawLine133() (interface{}, error) {
+func (p *parser) callonDocumentRawLine158() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine133(stack["name"])
+	return p.cur.onDocumentRawLine158(stack["name"])
 }
 
-func (c *current) onDocumentRawLine118(s interface{}) (interface{}, error) {
-	return s, nil
+func (c *current) onDocumentRawLine168() (interface{}, error) {
+	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentRawLine118() (interface{}, error) {
+func (p *parser) callonDocumentRawLine168() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine118(stack["s"])
+	return p.cur.onDocumentRawLine168()
 }
 
-func (c *current) onDocumentRawLine151() (interface{}, error) {
+func (c *current) onDocumentRawLine171() (interface{}, error) {
 	return string(c.text), nil
-
 }
 
-func (p *parser) callonDocumentRawLine151() (interface{}, error) {
+func (p *parser) callonDocumentRawLine171() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine151()
+	return p.cur.onDocumentRawLine171()
 }
 
-func (c *current) onDocumentRawLine147(name interface{}) (interface{}, error) {
-
-	log.Debug("matching escaped attribute reference")
-	// return types.NewStringElement("{"+name.(string)+"}")
-	return types.NewStringElement(strings.TrimPrefix(string(c.text), `\`))
-
+func (c *current) onDocumentRawLine142(e interface{}) (interface{}, error) {
+	return types.NewIfevalText(e)
 }
 
-func (p *parser) callonDocumentRawLine147() (interface{}, error) {
+func (p *parser) callonDocumentRawLine142() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine147(stack["name"])
+	return p.cur.onDocumentRawLine142(stack["e"])
 }
 
-func (c *current) onDocumentRawLine161() (interface{}, error) {
+func (c *current) onDocumentRawLine181() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentRawLine161() (interface{}, error) {
+func (p *parser) callonDocumentRawLine181() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine161()
+	return p.cur.onDocumentRawLine181()
 }
 
-func (c *current) onDocumentRawLine157(name interface{}) (interface{}, error) {
+func (c *current) onDocumentRawLine177(name interface{}) (interface{}, error) {
 
-	return types.NewAttributeReference(name.(string), string(c.text))
+	log.Debug("matching escaped attribute reference")
+	// return types.NewStringElement("{"+name.(string)+"}")
+	return types.NewStringElement(strings.TrimPrefix(string(c.text), `\`))
 
 }
 
-func (p *parser) callonDocumentRawLine157() (interface{}, error) {
+func (p *parser) callonDocumentRawLine177() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine157(stack["name"])
+	return p.cur.onDocumentRawLine177(stack["name"])
 }
 
-func (c *current) onDocumentRawLine144(s interface{}) (interface{}, error) {
-	return s, nil
+func (c *current) onDocumentRawLine191() (interface{}, error) {
+	return string(c.text), nil
+
 }
 
-func (p *parser) callonDocumentRawLine144() (interface{}, error) {
+func (p *parser) callonDocumentRawLine191() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine144(stack["s"])
+	return p.cur.onDocumentRawLine191()
 }
 
-func (c *current) onDocumentRawLine171() (interface{}, error) {
-	return string(c.text), nil
-}
+func (c *current) onDocumentRawLine187(name interface{}) (interface{}, error) {
 
-func (p *parser) callonDocumentRawLine171() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentRawLine171()
-}
+	return types.NewAttributeReference(name.(string), string(c.text))
 
-func (c *current) onDocumentRawLine167(w interface{}) (interface{}, error) {
-	return w, nil
 }
 
-func (p *parser) callonDocumentRawLine167() (interface{}, error) {
+func (p *parser) callonDocumentRawLine187() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine167(stack["w"])
+	return p.cur.onDocumentRawLine187(stack["name"])
 }
 
-func (c *current) onDocumentRawLine179() (interface{}, error) {
-	return string(c.text), nil
+func (c *current) onDocumentRawLine174(s interface{}) (interface{}, error) {
+	return s, nil
 }
 
-func (p *parser) callonDocumentRawLine179() (interface{}, error) {
+func (p *parser) callonDocumentRawLine174() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine179()
+	return p.cur.onDocumentRawLine174(stack["s"])
 }
 
-func (c *current) onDocumentRawLine175(w interface{}) (interface{}, error) {
-	return w, nil
+func (c *current) onDocumentRawLine197() (interface{}, error) {
+	return strconv.ParseFloat(string(c.text), 64)
+
 }
 
-func (p *parser) callonDocumentRawLine175() (interface{}, error) {
+func (p *parser) callonDocumentRawLine197() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine175(stack["w"])
+	return p.cur.onDocumentRawLine197()
 }
 
-func (c *current) onDocumentRawLine183() (interface{}, error) {
+func (c *current) onDocumentRawLine206() (interface{}, error) {
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonDocumentRawLine183() (interface{}, error) {
+func (p *parser) callonDocumentRawLine206() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine183()
+	return p.cur.onDocumentRawLine206()
 }
 
-func (c *current) onDocumentRawLine190() (interface{}, error) {
+func (c *current) onDocumentRawLine213() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentRawLine190() (interface{}, error) {
+func (p *parser) callonDocumentRawLine213() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine190()
+	return p.cur.onDocumentRawLine213()
 }
 
-func (c *current) onDocumentRawLine194() (interface{}, error) {
+func (c *current) onDocumentRawLine217() (interface{}, error) {
 	return types.NewEqualOperand()
 
 }
 
-func (p *parser) callonDocumentRawLine194() (interface{}, error) {
+func (p *parser) callonDocumentRawLine217() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine194()
+	return p.cur.onDocumentRawLine217()
 }
 
-func (c *current) onDocumentRawLine196() (interface{}, error) {
+func (c *current) onDocumentRawLine219() (interface{}, error) {
 	return types.NewNotEqualOperand()
 
 }
 
-func (p *parser) callonDocumentRawLine196() (interface{}, error) {
+func (p *parser) callonDocumentRawLine219() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine196()
+	return p.cur.onDocumentRawLine219()
 }
 
-func (c *current) onDocumentRawLine198() (interface{}, error) {
+func (c *current) onDocumentRawLine221() (interface{}, error) {
 	return types.NewLessOrEqualOperand()
 
 }
 
-func (p *parser) callonDocumentRawLine198() (interface{}, error) {
+func (p *parser) callonDocumentRawLine221() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine198()
+	return p.cur.onDocumentRawLine221()
 }
 
-func (c *current) onDocumentRawLine200() (interface{}, error) {
+func (c *current) onDocumentRawLine223() (interface{}, error) {
 	return types.NewLessThanOperand()
 
 }
 
-func (p *parser) callonDocumentRawLine200() (interface{}, error) {
+func (p *parser) callonDocumentRawLine223() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine200()
+	return p.cur.onDocumentRawLine223()
 }
 
-func (c *current) onDocumentRawLine202() (interface{}, error) {
+func (c *current) onDocumentRawLine225() (interface{}, error) {
 	return types.NewGreaterOrEqualOperand()
 
 }
 
-func (p *parser) callonDocumentRawLine202() (interface{}, error) {
+func (p *parser) callonDocumentRawLine225() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine202()
+	return p.cur.onDocumentRawLine225()
 }
 
-func (c *current) onDocumentRawLine204() (interface{}, error) {
+func (c *current) onDocumentRawLine227() (interface{}, error) {
 	return types.NewGreaterThanOperand()
 
 }
 
-func (p *parser) callonDocumentRawLine204() (interface{}, error) {
+func (p *parser) callonDocumentRawLine227() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine204()
+	return p.cur.onDocumentRawLine227()
 }
 
-func (c *current) onDocumentRawLine207() (interface{}, error) {
+func (c *current) onDocumentRawLine230() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentRawLine207() (interface{}, error) {
+func (p *parser) callonDocumentRawLine230() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine207()
+	return p.cur.onDocumentRawLine230()
 }
 
-func (c *current) onDocumentRawLine220() (interface{}, error) {
+func (c *current) onDocumentRawLine244() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentRawLine220() (interface{}, error) {
+func (p *parser) callonDocumentRawLine244() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine220()
+	return p.cur.onDocumentRawLine244()
 }
 
-func (c *current) onDocumentRawLine216(name interface{}) (interface{}, error) {
+func (c *current) onDocumentRawLine240(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -48047,57 +48235,77 @@ func (c *current) onDocumentRawLine216(name interface{}) (interface{}, error) {
 
 }
 
-func (p *parser) callonDocumentRawLine216() (interface{}, error) {
+func (p *parser) callonDocumentRawLine240() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine216(stack["name"])
+	return p.cur.onDocumentRawLine240(stack["name"])
 }
 
-func (c *current) onDocumentRawLine230() (interface{}, error) {
+func (c *current) onDocumentRawLine254() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentRawLine230() (interface{}, error) {
+func (p *parser) callonDocumentRawLine254() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine230()
+	return p.cur.onDocumentRawLine254()
 }
 
-func (c *current) onDocumentRawLine226(name interface{}) (interface{}, error) {
+func (c *current) onDocumentRawLine250(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonDocumentRawLine226() (interface{}, error) {
+func (p *parser) callonDocumentRawLine250() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine226(stack["name"])
+	return p.cur.onDocumentRawLine250(stack["name"])
 }
 
-func (c *current) onDocumentRawLine211(s interface{}) (interface{}, error) {
-	return s, nil
+func (c *current) onDocumentRawLine260() (interface{}, error) {
+	return string(c.text), nil
+}
+
+func (p *parser) callonDocumentRawLine260() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentRawLine260()
 }
 
-func (p *parser) callonDocumentRawLine211() (interface{}, error) {
+func (c *current) onDocumentRawLine263() (interface{}, error) {
+	return string(c.text), nil
+}
+
+func (p *parser) callonDocumentRawLine263() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine211(stack["s"])
+	return p.cur.onDocumentRawLine263()
 }
 
-func (c *current) onDocumentRawLine246() (interface{}, error) {
+func (c *current) onDocumentRawLine234(e interface{}) (interface{}, error) {
+	return types.NewIfevalText(e)
+}
+
+func (p *parser) callonDocumentRawLine234() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentRawLine234(stack["e"])
+}
+
+func (c *current) onDocumentRawLine276() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentRawLine246() (interface{}, error) {
+func (p *parser) callonDocumentRawLine276() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine246()
+	return p.cur.onDocumentRawLine276()
 }
 
-func (c *current) onDocumentRawLine242(name interface{}) (interface{}, error) {
+func (c *current) onDocumentRawLine272(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -48105,737 +48313,740 @@ func (c *current) onDocumentRawLine242(name interface{}) (interface{}, error) {
 
 }
 
-func (p *parser) callonDocumentRawLine242() (interface{}, error) {
+func (p *parser) callonDocumentRawLine272() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine242(stack["name"])
+	return p.cur.onDocumentRawLine272(stack["name"])
 }
 
-func (c *current) onDocumentRawLine256() (interface{}, error) {
+func (c *current) onDocumentRawLine286() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentRawLine256() (interface{}, error) {
+func (p *parser) callonDocumentRawLine286() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine256()
+	return p.cur.onDocumentRawLine286()
 }
 
-func (c *current) onDocumentRawLine252(name interface{}) (interface{}, error) {
+func (c *current) onDocumentRawLine282(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonDocumentRawLine252() (interface{}, error) {
+func (p *parser) callonDocumentRawLine282() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine252(stack["name"])
+	return p.cur.onDocumentRawLine282(stack["name"])
 }
 
-func (c *current) onDocumentRawLine237(s interface{}) (interface{}, error) {
-	return s, nil
+func (c *current) onDocumentRawLine292() (interface{}, error) {
+	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentRawLine237() (interface{}, error) {
+func (p *parser) callonDocumentRawLine292() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine237(stack["s"])
+	return p.cur.onDocumentRawLine292()
 }
 
-func (c *current) onDocumentRawLine270() (interface{}, error) {
+func (c *current) onDocumentRawLine295() (interface{}, error) {
 	return string(c.text), nil
-
 }
 
-func (p *parser) callonDocumentRawLine270() (interface{}, error) {
+func (p *parser) callonDocumentRawLine295() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine270()
+	return p.cur.onDocumentRawLine295()
 }
 
-func (c *current) onDocumentRawLine266(name interface{}) (interface{}, error) {
-
-	log.Debug("matching escaped attribute reference")
-	// return types.NewStringElement("{"+name.(string)+"}")
-	return types.NewStringElement(strings.TrimPrefix(string(c.text), `\`))
-
+func (c *current) onDocumentRawLine266(e interface{}) (interface{}, error) {
+	return types.NewIfevalText(e)
 }
 
 func (p *parser) callonDocumentRawLine266() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine266(stack["name"])
+	return p.cur.onDocumentRawLine266(stack["e"])
 }
 
-func (c *current) onDocumentRawLine280() (interface{}, error) {
+func (c *current) onDocumentRawLine305() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentRawLine280() (interface{}, error) {
+func (p *parser) callonDocumentRawLine305() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine280()
+	return p.cur.onDocumentRawLine305()
 }
 
-func (c *current) onDocumentRawLine276(name interface{}) (interface{}, error) {
+func (c *current) onDocumentRawLine301(name interface{}) (interface{}, error) {
 
-	return types.NewAttributeReference(name.(string), string(c.text))
+	log.Debug("matching escaped attribute reference")
+	// return types.NewStringElement("{"+name.(string)+"}")
+	return types.NewStringElement(strings.TrimPrefix(string(c.text), `\`))
 
 }
 
-func (p *parser) callonDocumentRawLine276() (interface{}, error) {
+func (p *parser) callonDocumentRawLine301() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine276(stack["name"])
+	return p.cur.onDocumentRawLine301(stack["name"])
 }
 
-func (c *current) onDocumentRawLine263(s interface{}) (interface{}, error) {
-	return s, nil
+func (c *current) onDocumentRawLine315() (interface{}, error) {
+	return string(c.text), nil
+
 }
 
-func (p *parser) callonDocumentRawLine263() (interface{}, error) {
+func (p *parser) callonDocumentRawLine315() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine263(stack["s"])
+	return p.cur.onDocumentRawLine315()
 }
 
-func (c *current) onDocumentRawLine290() (interface{}, error) {
-	return string(c.text), nil
-}
+func (c *current) onDocumentRawLine311(name interface{}) (interface{}, error) {
 
-func (p *parser) callonDocumentRawLine290() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentRawLine290()
-}
+	return types.NewAttributeReference(name.(string), string(c.text))
 
-func (c *current) onDocumentRawLine286(w interface{}) (interface{}, error) {
-	return w, nil
 }
 
-func (p *parser) callonDocumentRawLine286() (interface{}, error) {
+func (p *parser) callonDocumentRawLine311() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine286(stack["w"])
+	return p.cur.onDocumentRawLine311(stack["name"])
 }
 
-func (c *current) onDocumentRawLine298() (interface{}, error) {
-	return string(c.text), nil
+func (c *current) onDocumentRawLine298(s interface{}) (interface{}, error) {
+	return s, nil
 }
 
 func (p *parser) callonDocumentRawLine298() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine298()
+	return p.cur.onDocumentRawLine298(stack["s"])
 }
 
-func (c *current) onDocumentRawLine294(w interface{}) (interface{}, error) {
-	return w, nil
+func (c *current) onDocumentRawLine321() (interface{}, error) {
+	return strconv.ParseFloat(string(c.text), 64)
+
 }
 
-func (p *parser) callonDocumentRawLine294() (interface{}, error) {
+func (p *parser) callonDocumentRawLine321() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine294(stack["w"])
+	return p.cur.onDocumentRawLine321()
 }
 
-func (c *current) onDocumentRawLine302() (interface{}, error) {
+func (c *current) onDocumentRawLine330() (interface{}, error) {
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonDocumentRawLine302() (interface{}, error) {
+func (p *parser) callonDocumentRawLine330() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine302()
+	return p.cur.onDocumentRawLine330()
 }
 
-func (c *current) onDocumentRawLine310() (interface{}, error) {
+func (c *current) onDocumentRawLine338() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentRawLine310() (interface{}, error) {
+func (p *parser) callonDocumentRawLine338() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine310()
+	return p.cur.onDocumentRawLine338()
 }
 
-func (c *current) onDocumentRawLine87(left, operand, right interface{}) (interface{}, error) {
+func (c *current) onDocumentRawLine105(left, operand, right interface{}) (interface{}, error) {
 	return types.NewIfevalCondition(left, right, operand.(types.IfevalOperand))
 
 }
 
-func (p *parser) callonDocumentRawLine87() (interface{}, error) {
+func (p *parser) callonDocumentRawLine105() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine87(stack["left"], stack["operand"], stack["right"])
+	return p.cur.onDocumentRawLine105(stack["left"], stack["operand"], stack["right"])
 }
 
-func (c *current) onDocumentRawLine319() (interface{}, error) {
+func (c *current) onDocumentRawLine347() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentRawLine319() (interface{}, error) {
+func (p *parser) callonDocumentRawLine347() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine319()
+	return p.cur.onDocumentRawLine347()
 }
 
-func (c *current) onDocumentRawLine325() (interface{}, error) {
+func (c *current) onDocumentRawLine360() (interface{}, error) {
+
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentRawLine325() (interface{}, error) {
+func (p *parser) callonDocumentRawLine360() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine325()
+	return p.cur.onDocumentRawLine360()
 }
 
-func (c *current) onDocumentRawLine330() (interface{}, error) {
+func (c *current) onDocumentRawLine353() (interface{}, error) {
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonDocumentRawLine353() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentRawLine353()
+}
+
+func (c *current) onDocumentRawLine367() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentRawLine330() (interface{}, error) {
+func (p *parser) callonDocumentRawLine367() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine330()
+	return p.cur.onDocumentRawLine367()
 }
 
-func (c *current) onDocumentRawLine314(name, attr interface{}) (interface{}, error) {
+func (c *current) onDocumentRawLine342(name, attr interface{}) (interface{}, error) {
 	return types.NewEndOfCondition() // name and attributes are parsed but ignored
 
 }
 
-func (p *parser) callonDocumentRawLine314() (interface{}, error) {
+func (p *parser) callonDocumentRawLine342() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine314(stack["name"], stack["attr"])
+	return p.cur.onDocumentRawLine342(stack["name"], stack["attr"])
 }
 
-func (c *current) onDocumentRawLine343() (interface{}, error) {
+func (c *current) onDocumentRawLine380() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentRawLine343() (interface{}, error) {
+func (p *parser) callonDocumentRawLine380() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine343()
+	return p.cur.onDocumentRawLine380()
 }
 
-func (c *current) onDocumentRawLine349() (interface{}, error) {
+func (c *current) onDocumentRawLine386() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentRawLine349() (interface{}, error) {
+func (p *parser) callonDocumentRawLine386() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine349()
+	return p.cur.onDocumentRawLine386()
 }
 
-func (c *current) onDocumentRawLine352() (interface{}, error) {
+func (c *current) onDocumentRawLine389() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentRawLine352() (interface{}, error) {
+func (p *parser) callonDocumentRawLine389() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine352()
+	return p.cur.onDocumentRawLine389()
 }
 
-func (c *current) onDocumentRawLine340(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentRawLine377(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentRawLine340() (interface{}, error) {
+func (p *parser) callonDocumentRawLine377() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine340(stack["delimiter"])
+	return p.cur.onDocumentRawLine377(stack["delimiter"])
 }
 
-func (c *current) onDocumentRawLine362() (interface{}, error) {
+func (c *current) onDocumentRawLine399() (interface{}, error) {
 	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentRawLine362() (interface{}, error) {
+func (p *parser) callonDocumentRawLine399() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine362()
+	return p.cur.onDocumentRawLine399()
 }
 
-func (c *current) onDocumentRawLine368() (interface{}, error) {
+func (c *current) onDocumentRawLine405() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentRawLine368() (interface{}, error) {
+func (p *parser) callonDocumentRawLine405() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine368()
+	return p.cur.onDocumentRawLine405()
 }
 
-func (c *current) onDocumentRawLine371() (interface{}, error) {
+func (c *current) onDocumentRawLine408() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentRawLine371() (interface{}, error) {
+func (p *parser) callonDocumentRawLine408() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine371()
+	return p.cur.onDocumentRawLine408()
 }
 
-func (c *current) onDocumentRawLine359(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentRawLine396(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentRawLine359() (interface{}, error) {
+func (p *parser) callonDocumentRawLine396() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine359(stack["delimiter"])
+	return p.cur.onDocumentRawLine396(stack["delimiter"])
 }
 
-func (c *current) onDocumentRawLine382() (interface{}, error) {
+func (c *current) onDocumentRawLine419() (interface{}, error) {
 	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentRawLine382() (interface{}, error) {
+func (p *parser) callonDocumentRawLine419() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine382()
+	return p.cur.onDocumentRawLine419()
 }
 
-func (c *current) onDocumentRawLine386() (interface{}, error) {
+func (c *current) onDocumentRawLine423() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentRawLine386() (interface{}, error) {
+func (p *parser) callonDocumentRawLine423() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine386()
+	return p.cur.onDocumentRawLine423()
 }
 
-func (c *current) onDocumentRawLine389() (interface{}, error) {
+func (c *current) onDocumentRawLine426() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentRawLine389() (interface{}, error) {
+func (p *parser) callonDocumentRawLine426() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine389()
+	return p.cur.onDocumentRawLine426()
 }
 
-func (c *current) onDocumentRawLine378(language interface{}) (interface{}, error) {
+func (c *current) onDocumentRawLine415(language interface{}) (interface{}, error) {
 	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
 }
 
-func (p *parser) callonDocumentRawLine378() (interface{}, error) {
+func (p *parser) callonDocumentRawLine415() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine378(stack["language"])
+	return p.cur.onDocumentRawLine415(stack["language"])
 }
 
-func (c *current) onDocumentRawLine399() (interface{}, error) {
+func (c *current) onDocumentRawLine436() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentRawLine399() (interface{}, error) {
+func (p *parser) callonDocumentRawLine436() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine399()
+	return p.cur.onDocumentRawLine436()
 }
 
-func (c *current) onDocumentRawLine405() (interface{}, error) {
+func (c *current) onDocumentRawLine442() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentRawLine405() (interface{}, error) {
+func (p *parser) callonDocumentRawLine442() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine405()
+	return p.cur.onDocumentRawLine442()
 }
 
-func (c *current) onDocumentRawLine408() (interface{}, error) {
+func (c *current) onDocumentRawLine445() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentRawLine408() (interface{}, error) {
+func (p *parser) callonDocumentRawLine445() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine408()
+	return p.cur.onDocumentRawLine445()
 }
 
-func (c *current) onDocumentRawLine396(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentRawLine433(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentRawLine396() (interface{}, error) {
+func (p *parser) callonDocumentRawLine433() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine396(stack["delimiter"])
+	return p.cur.onDocumentRawLine433(stack["delimiter"])
 }
 
-func (c *current) onDocumentRawLine418() (interface{}, error) {
+func (c *current) onDocumentRawLine455() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentRawLine418() (interface{}, error) {
+func (p *parser) callonDocumentRawLine455() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine418()
+	return p.cur.onDocumentRawLine455()
 }
 
-func (c *current) onDocumentRawLine424() (interface{}, error) {
+func (c *current) onDocumentRawLine461() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentRawLine424() (interface{}, error) {
+func (p *parser) callonDocumentRawLine461() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine424()
+	return p.cur.onDocumentRawLine461()
 }
 
-func (c *current) onDocumentRawLine427() (interface{}, error) {
+func (c *current) onDocumentRawLine464() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentRawLine427() (interface{}, error) {
+func (p *parser) callonDocumentRawLine464() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine427()
+	return p.cur.onDocumentRawLine464()
 }
 
-func (c *current) onDocumentRawLine415(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentRawLine452(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentRawLine415() (interface{}, error) {
+func (p *parser) callonDocumentRawLine452() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine415(stack["delimiter"])
+	return p.cur.onDocumentRawLine452(stack["delimiter"])
 }
 
-func (c *current) onDocumentRawLine437() (interface{}, error) {
+func (c *current) onDocumentRawLine474() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentRawLine437() (interface{}, error) {
+func (p *parser) callonDocumentRawLine474() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine437()
+	return p.cur.onDocumentRawLine474()
 }
 
-func (c *current) onDocumentRawLine443() (interface{}, error) {
+func (c *current) onDocumentRawLine480() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentRawLine443() (interface{}, error) {
+func (p *parser) callonDocumentRawLine480() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine443()
+	return p.cur.onDocumentRawLine480()
 }
 
-func (c *current) onDocumentRawLine446() (interface{}, error) {
+func (c *current) onDocumentRawLine483() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentRawLine446() (interface{}, error) {
+func (p *parser) callonDocumentRawLine483() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine446()
+	return p.cur.onDocumentRawLine483()
 }
 
-func (c *current) onDocumentRawLine434(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentRawLine471(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentRawLine434() (interface{}, error) {
+func (p *parser) callonDocumentRawLine471() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine434(stack["delimiter"])
+	return p.cur.onDocumentRawLine471(stack["delimiter"])
 }
 
-func (c *current) onDocumentRawLine456() (interface{}, error) {
+func (c *current) onDocumentRawLine493() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentRawLine456() (interface{}, error) {
+func (p *parser) callonDocumentRawLine493() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine456()
+	return p.cur.onDocumentRawLine493()
 }
 
-func (c *current) onDocumentRawLine462() (interface{}, error) {
+func (c *current) onDocumentRawLine499() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentRawLine462() (interface{}, error) {
+func (p *parser) callonDocumentRawLine499() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine462()
+	return p.cur.onDocumentRawLine499()
 }
 
-func (c *current) onDocumentRawLine465() (interface{}, error) {
+func (c *current) onDocumentRawLine502() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentRawLine465() (interface{}, error) {
+func (p *parser) callonDocumentRawLine502() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine465()
+	return p.cur.onDocumentRawLine502()
 }
 
-func (c *current) onDocumentRawLine453(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentRawLine490(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentRawLine453() (interface{}, error) {
+func (p *parser) callonDocumentRawLine490() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine453(stack["delimiter"])
+	return p.cur.onDocumentRawLine490(stack["delimiter"])
 }
 
-func (c *current) onDocumentRawLine475() (interface{}, error) {
+func (c *current) onDocumentRawLine512() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentRawLine475() (interface{}, error) {
+func (p *parser) callonDocumentRawLine512() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine475()
+	return p.cur.onDocumentRawLine512()
 }
 
-func (c *current) onDocumentRawLine481() (interface{}, error) {
+func (c *current) onDocumentRawLine518() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentRawLine481() (interface{}, error) {
+func (p *parser) callonDocumentRawLine518() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine481()
+	return p.cur.onDocumentRawLine518()
 }
 
-func (c *current) onDocumentRawLine484() (interface{}, error) {
+func (c *current) onDocumentRawLine521() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentRawLine484() (interface{}, error) {
+func (p *parser) callonDocumentRawLine521() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine484()
+	return p.cur.onDocumentRawLine521()
 }
 
-func (c *current) onDocumentRawLine472(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentRawLine509(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentRawLine472() (interface{}, error) {
+func (p *parser) callonDocumentRawLine509() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine472(stack["delimiter"])
+	return p.cur.onDocumentRawLine509(stack["delimiter"])
 }
 
-func (c *current) onDocumentRawLine494() (interface{}, error) {
+func (c *current) onDocumentRawLine531() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentRawLine494() (interface{}, error) {
+func (p *parser) callonDocumentRawLine531() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine494()
+	return p.cur.onDocumentRawLine531()
 }
 
-func (c *current) onDocumentRawLine500() (interface{}, error) {
+func (c *current) onDocumentRawLine537() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentRawLine500() (interface{}, error) {
+func (p *parser) callonDocumentRawLine537() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine500()
+	return p.cur.onDocumentRawLine537()
 }
 
-func (c *current) onDocumentRawLine503() (interface{}, error) {
+func (c *current) onDocumentRawLine540() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentRawLine503() (interface{}, error) {
+func (p *parser) callonDocumentRawLine540() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine503()
+	return p.cur.onDocumentRawLine540()
 }
 
-func (c *current) onDocumentRawLine491(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentRawLine528(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentRawLine491() (interface{}, error) {
+func (p *parser) callonDocumentRawLine528() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine491(stack["delimiter"])
+	return p.cur.onDocumentRawLine528(stack["delimiter"])
 }
 
-func (c *current) onDocumentRawLine334(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentRawLine371(delimiter interface{}) (interface{}, error) {
 	return delimiter, nil
 
 }
 
-func (p *parser) callonDocumentRawLine334() (interface{}, error) {
+func (p *parser) callonDocumentRawLine371() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine334(stack["delimiter"])
+	return p.cur.onDocumentRawLine371(stack["delimiter"])
 }
 
-func (c *current) onDocumentRawLine512() (bool, error) {
+func (c *current) onDocumentRawLine549() (bool, error) {
 	// should only be enabled when reading files to include, not the main (root) file
 	return c.isSectionEnabled(), nil
 
 }
 
-func (p *parser) callonDocumentRawLine512() (bool, error) {
+func (p *parser) callonDocumentRawLine549() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine512()
+	return p.cur.onDocumentRawLine549()
 }
 
-func (c *current) onDocumentRawLine513() (bool, error) {
+func (c *current) onDocumentRawLine550() (bool, error) {
 
 	return !c.isWithinDelimitedBlock(), nil
 
 }
 
-func (p *parser) callonDocumentRawLine513() (bool, error) {
+func (p *parser) callonDocumentRawLine550() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine513()
+	return p.cur.onDocumentRawLine550()
 }
 
-func (c *current) onDocumentRawLine515() (interface{}, error) {
+func (c *current) onDocumentRawLine552() (interface{}, error) {
 
 	// `=` is level 0, `==` is level 1, etc.
 	return (len(c.text) - 1), nil
 
 }
 
-func (p *parser) callonDocumentRawLine515() (interface{}, error) {
+func (p *parser) callonDocumentRawLine552() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine515()
+	return p.cur.onDocumentRawLine552()
 }
 
-func (c *current) onDocumentRawLine518(level interface{}) (bool, error) {
+func (c *current) onDocumentRawLine555(level interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `=` (level 0) to `======` (level 5) are allowed
 	return level.(int) <= 5, nil
 
 }
 
-func (p *parser) callonDocumentRawLine518() (bool, error) {
+func (p *parser) callonDocumentRawLine555() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine518(stack["level"])
+	return p.cur.onDocumentRawLine555(stack["level"])
 }
 
-func (c *current) onDocumentRawLine519(level interface{}) (interface{}, error) {
+func (c *current) onDocumentRawLine556(level interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentRawLine519() (interface{}, error) {
+func (p *parser) callonDocumentRawLine556() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine519(stack["level"])
+	return p.cur.onDocumentRawLine556(stack["level"])
 }
 
-func (c *current) onDocumentRawLine522(level interface{}) (interface{}, error) {
+func (c *current) onDocumentRawLine559(level interface{}) (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentRawLine522() (interface{}, error) {
+func (p *parser) callonDocumentRawLine559() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine522(stack["level"])
+	return p.cur.onDocumentRawLine559(stack["level"])
 }
 
-func (c *current) onDocumentRawLine510(level interface{}) (interface{}, error) {
+func (c *current) onDocumentRawLine547(level interface{}) (interface{}, error) {
 	return types.NewRawSection(level.(int), string(c.text)) // just retain the raw content
 
 }
 
-func (p *parser) callonDocumentRawLine510() (interface{}, error) {
+func (p *parser) callonDocumentRawLine547() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentRawLine510(stack["level"])
+	return p.cur.onDocumentRawLine547(stack["level"])
 }
 
 func (c *current) onDocumentRawLine1(element interface{}) (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index b34a502..56fa771 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -75,7 +75,7 @@ Ifndef <- "ifndef::" name:(ConditionalVariableName) "[" attr:(ConditionalInclusi
         return types.NewIfndefCondition(name.(string), attr)
     }
 
-ConditionalInclusionAttribute <- [^\r\n\]]+ {
+ConditionalInclusionAttribute <- (!("]" Space* EOF) [^\r\n])+ {
         return string(c.text), nil
     }
 
@@ -89,12 +89,11 @@ Ifeval <- "ifeval::"
     }
 
 IfevalExpressionMember <- 
-    ("\"" s:(AttributeReferenceValue) "\"" { return s, nil })
-    / ("'" s:(AttributeReferenceValue) "'" { return s, nil })
+    ("\"" e:(AttributeReferenceValue / ([^\r\n"{]+ { return string(c.text), nil }) / ("{" { return string(c.text), nil }))* "\"" { return types.NewIfevalText(e) })
+    / ("'" e:(AttributeReferenceValue / ([^\r\n'{]+ { return string(c.text), nil }) / ("{" { return string(c.text), nil }))* "'" { return types.NewIfevalText(e) })
     / (s:(AttributeReferenceValue) { return s, nil })
-    / ("\"" w:([\pL\pN,?!;_-]+ { return string(c.text), nil}) "\"" { return w, nil })
-    / ("'" w:([\pL\pN,?!;_-]+ { return string(c.text), nil}) "'" { return w, nil })
-    / Integer
+    / Number
+
 
 IfevalExpressionOperand <-
     ("==" {
@@ -116,10 +115,11 @@ IfevalExpressionOperand <-
         return types.NewGreaterThanOperand()
     })
 
-IfevalExpressionValue <- 
-    Number
-    / Alphanums
 
+
+
+
+// ----------------------------------------------------
 EndIf <- "endif::" name:(ConditionalVariableName)? "[" attr:(ConditionalInclusionAttribute)? "]" Space* EOF {
          return types.NewEndOfCondition() // name and attributes are parsed but ignored
     }
@@ -128,9 +128,9 @@ ConditionalVariableName <- [^\r\n []+ {
         return string(c.text), nil 
     }
 
-// ----------------------------------------------------------
+// -----------------------------
 // File inclusions
-// ----------------------------------------------------------
+// -----------------------------
 FileInclusion <- 
     incl:(
         "include::" 
diff --git a/pkg/types/types.go b/pkg/types/types.go
index 4c5556e..62a047f 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -3071,25 +3071,66 @@ func NewIfevalCondition(left, right interface{}, operand IfevalOperand) (*Ifeval
 var _ ConditionalInclusion = &IfevalCondition{}
 
 func (c *IfevalCondition) Eval(attributes map[string]interface{}) bool {
-	return c.Operand(c.left(attributes), c.right(attributes))
-}
-
-func (c *IfevalCondition) left(attributes map[string]interface{}) interface{} {
-	if s, ok := c.Left.(*AttributeReference); ok {
-		if v, found := attributes[s.Name]; found {
-			return v
+	left, right := evalIfevalMember(c.Left, attributes), evalIfevalMember(c.Right, attributes)
+	// an int and a float can be compared
+	if l, ok := left.(int); ok {
+		if _, ok := right.(float64); ok {
+			left = float64(l)
+		}
+	}
+	if r, ok := right.(int); ok {
+		if _, ok := left.(float64); ok {
+			right = float64(r)
 		}
 	}
-	return c.Left
+	return c.Operand(left, right)
 }
 
-func (c *IfevalCondition) right(attributes map[string]interface{}) interface{} {
-	if s, ok := c.Right.(*AttributeReference); ok {
-		if v, found := attributes[s.Name]; found {
-			return v
+// IfevalText a text between quotes, which is a string whatever it contains
+type IfevalText []interface{}
+
+// NewIfevalText returns a new text with the given elements (strings and references to attributes)
+func NewIfevalText(elements interface{}) (IfevalText, error) {
+	e, _ := elements.([]interface{})
+	return IfevalText(e), nil
+}
+
+// evalIfevalMember returns the value of the given member: a string if it is between quotes. Otherwise, a number or the
+// value of an attribute, which is a number if it can be one
+func evalIfevalMember(member interface{}, attributes map[string]interface{}) interface{} {
+	switch m := member.(type) {
+	case IfevalText:
+		result := &strings.Builder{}
+		for _, e := range m {
+			switch e := e.(type) {
+			case *AttributeReference: // nothing if there is no such attribute
+				if v, found := attributes[e.Name]; found && v != nil {
+					fmt.Fprint(result, stringify(v))
+				}
+			case *StringElement:
+				result.WriteString(e.Content)
+			case string:
+				result.WriteString(e)
+			}
+		}
+		return result.String()
+	case *AttributeReference:
+		v, found := attributes[m.Name]
+		if !found {
+			return nil
+		}
+		if s, ok := v.(string); ok {
+			if i, err := strconv.Atoi(s); err == nil {
+				return i
+			}
+			if f, err := strconv.ParseFloat(s, 64); err == nil {
+				return f
+			}
 		}
+		return v
+	default:
+		return member
 	}
-	return c.Right
 }
 
 func (c *IfevalCondition) SingleLineContent() (string, bool) {
@@ -3149,7 +3190,8 @@ var NotEqualOperand = func(left, right interface{}) bool {
 			return left != right
 		}
 	}
-	return false
+	// not even of the same type
+	return true
 }
 
 func NewNotEqualOperand() (IfevalOperand, error) {
-- 
2.43.0


From 8a8d68f56b593ff0c7594575e5f90ca720384034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:18 +0000
Subject: [PATCH 062/143] fix: many names of attributes in ifdef and ifndef
 directives

---
 pkg/types/types.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index 62a047f..c7b388b 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -3013,13 +3013,32 @@ func NewIfdefCondition(name string, attr interface{}) (*IfdefCondition, error) {
 var _ ConditionalInclusion = &IfdefCondition{}
 
 func (c *IfdefCondition) Eval(attributes map[string]interface{}) bool {
-	_, found := attributes[c.Name]
+	found := evalAttributeNames(c.Name, attributes)
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("eval of IfDef::'%s': %t", c.Name, found)
 	}
 	return found
 }
 
+// evalAttributeNames checks if the attribute with the given name exists. There can be many names, separated by
+// `,` (one of them at least must exist) or by `+` (all of them must exist)
+func evalAttributeNames(names string, attributes map[string]interface{}) bool {
+	if strings.Contains(names, ",") {
+		for _, n := range strings.Split(names, ",") {
+			if _, found := attributes[n]; found {
+				return true
+			}
+		}
+		return false
+	}
+	for _, n := range strings.Split(names, "+") {
+		if _, found := attributes[n]; !found {
+			return false
+		}
+	}
+	return true
+}
+
 func (c *IfdefCondition) SingleLineContent() (string, bool) {
 	return c.Substitution, c.Substitution != ""
 }
@@ -3043,8 +3062,7 @@ func NewIfndefCondition(name string, attr interface{}) (*IfndefCondition, error)
 var _ ConditionalInclusion = &IfndefCondition{}
 
 func (c *IfndefCondition) Eval(attributes map[string]interface{}) bool {
-	_, found := attributes[c.Name]
-	return !found
+	return !evalAttributeNames(c.Name, attributes)
 }
 
 func (c *IfndefCondition) SingleLineContent() (string, bool) {
-- 
2.43.0


From 6621d3f190d922ab691ef4e8f53e5f333deb1b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:46 +0000
Subject: [PATCH 063/143] fix: remove the backslash of escaped directives

---
 pkg/parser/document_preprocessing.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/pkg/parser/document_preprocessing.go b/pkg/parser/document_preprocessing.go
index c7d55e0..5fada51 100644
--- a/pkg/parser/document_preprocessing.go
+++ b/pkg/parser/document_preprocessing.go
@@ -2,6 +2,7 @@ package parser
 
 import (
 	"bufio"
+	"bytes"
 	"fmt"
 	"io"
 	"os"
@@ -46,6 +47,9 @@ func preprocessLines(ctx *ParseContext, source io.Reader) (*builder, error) {
 		if err != nil {
 			// log.Error(err)
 			// content of line was not relevant in the context of preparsing (ie, it's a regular line), so let's keep it as-is
+			if isEscapedDirective(ctx, line) {
+				line = line[1:]
+			}
 			b.Write(line)
 		} else {
 			// if log.IsLevelEnabled(log.DebugLevel) {
@@ -112,6 +116,23 @@ func preprocessLines(ctx *ParseContext, source io.Reader) (*builder, error) {
 	return b, nil
 }
 
+// isEscapedDirective checks if the given line is a directive with a backslash before
+func isEscapedDirective(ctx *ParseContext, line []byte) bool {
+	if !bytes.HasPrefix(line, []byte("\\")) {
+		return false
+	}
+	element, err := Parse("", line[1:], append(ctx.opts, Entrypoint("DocumentRawLine"))...)
+	if err != nil {
+		return false
+	}
+	switch element.(type) {
+	case *types.FileInclusion, types.ConditionalInclusion, *types.EndOfCondition:
+		return true
+	default:
+		return false
+	}
+}
+
 // maxLineLength the maximum length of a line
 const maxLineLength = 1 << 30
 
-- 
2.43.0


From 7e050cbfdb552f17c3677f31ea9ab4d126b9df55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:57 +0000
Subject: [PATCH 064/143] fix: process the directives and declarations of
 attributes in the content of conditionals

---
 pkg/parser/document_preprocessing.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pkg/parser/document_preprocessing.go b/pkg/parser/document_preprocessing.go
index 5fada51..c3d0009 100644
--- a/pkg/parser/document_preprocessing.go
+++ b/pkg/parser/document_preprocessing.go
@@ -97,8 +97,16 @@ func preprocessLines(ctx *ParseContext, source io.Reader) (*builder, error) {
 				b.WriteString(e.RawText())
 			case types.ConditionalInclusion:
 				if content, ok := e.SingleLineContent(); ok {
-					if e.Eval(ctx.attributes.allAttributes()) {
-						b.WriteString(content)
+					if b.enabled && e.Eval(ctx.attributes.allAttributes()) {
+						// the content may be a directive or the declaration of an attribute
+						lineCtx := ctx.Clone()
+						lineCtx.attributes = ctx.attributes
+						lineCtx.withinVerbatimBlock = ctx.withinVerbatimBlock || t.withinVerbatimBlock()
+						l, err := preprocessLines(lineCtx, strings.NewReader(content))
+						if err != nil {
+							return nil, err
+						}
+						b.WriteFile(l.String(), !l.insertLF)
 					}
 				} else {
 					b.enabled = c.push(ctx, e)
-- 
2.43.0


From 66c41c46202945859ed40a91a8e48376746f1923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:08 +0000
Subject: [PATCH 065/143] fix: the innermost tag range applies, and all lines
 are included when tags are only excluded

---
 pkg/types/types.go | 52 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 36 insertions(+), 16 deletions(-)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index c7b388b..793c207 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -3504,31 +3504,51 @@ func NewTagRanges(ranges interface{}) TagRanges {
 
 // Match checks if the given tag matches one of the range
 func (tr TagRanges) Match(line int, currentRanges CurrentRanges) bool {
-	match := false
-	// log.Debugf("checking line %d", line)
+	// the innermost range which is expected (or excluded) determines if the line matches
+	match := tr.matchOutsideOfTags()
+	start := -1
+	for n, r := range currentRanges {
+		if r.EndLine != -1 || r.StartLine < start {
+			// tag range is closed, or there is another one within
+			continue
+		}
+		if included, found := tr.lookup(n); found {
+			match = included
+			start = r.StartLine
+		}
+	}
+	return match
+}
 
-	// compare with expected tag ranges
+// matchOutsideOfTags checks if the lines which are in none of the tag ranges match:
+// if all content was requested, or if some ranges are excluded but none is requested
+func (tr TagRanges) matchOutsideOfTags() bool {
+	match := len(tr) > 0
 	for _, t := range tr {
 		if t.Name == "**" {
-			match = true
-			continue
+			return t.Included
 		}
-		for n, r := range currentRanges {
-			// log.Debugf("checking if range %s (%v) matches one of %v", n, r, tr)
-			if r.EndLine != -1 {
-				// tag range is closed, skip
-				continue
-			} else if t.Name == "*" {
-				match = t.Included
-			} else if t.Name == n { //TODO: all accept '*', '**' snd '!'
-				match = t.Included
-			}
+		if t.Included {
+			match = false
 		}
 	}
-
 	return match
 }
 
+// lookup checks if the tag range with the given name is included or excluded, by its own name in the first place
+func (tr TagRanges) lookup(name string) (bool, bool) {
+	included, found := false, false
+	for _, t := range tr {
+		switch t.Name {
+		case name:
+			return t.Included, true
+		case "*":
+			included, found = t.Included, true
+		}
+	}
+	return included, found
+}
+
 // TagRange the range to include or exclude from the file inclusion.
 // The range is excluded if it is prefixed with '!'
 // Also, '*' and '**' have a special meaning:
-- 
2.43.0


From a57f32d3eb695cf77ece2f69a014c5709bb41d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:45 +0000
Subject: [PATCH 066/143] fix: names of tags with hyphens, underscores and dots

---
 pkg/parser/parser.go  | 176 +++++++++++++++++++++---------------------
 pkg/parser/parser.peg |  12 +--
 2 files changed, 94 insertions(+), 94 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index d73b776..feebb9a 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -3779,13 +3779,14 @@ var g = &grammar{
 																pos: position{line: 187, col: 18, offset: 5450},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2746, col: 14, offset: 87408},
+																		pos: position{line: 214, col: 12, offset: 6362},
 																		run: (*parser).callonTagRanges11,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2746, col: 14, offset: 87408},
+																			pos: position{line: 214, col: 12, offset: 6362},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2746, col: 14, offset: 87408},
-																				val:        "[\\pL\\pN]",
+																				pos:        position{line: 214, col: 12, offset: 6362},
+																				val:        "[_.-\\pL\\pN]",
+																				chars:      []rune{'_', '.', '-'},
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
 																				inverted:   false,
@@ -3793,21 +3794,21 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 193, col: 16, offset: 5650},
+																		pos: position{line: 193, col: 16, offset: 5646},
 																		run: (*parser).callonTagRanges14,
 																		expr: &seqExpr{
-																			pos: position{line: 193, col: 16, offset: 5650},
+																			pos: position{line: 193, col: 16, offset: 5646},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 193, col: 16, offset: 5650},
+																					pos:   position{line: 193, col: 16, offset: 5646},
 																					label: "stars",
 																					expr: &actionExpr{
-																						pos: position{line: 193, col: 23, offset: 5657},
+																						pos: position{line: 193, col: 23, offset: 5653},
 																						run: (*parser).callonTagRanges17,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 193, col: 23, offset: 5657},
+																							pos: position{line: 193, col: 23, offset: 5653},
 																							expr: &litMatcher{
-																								pos:        position{line: 193, col: 24, offset: 5658},
+																								pos:        position{line: 193, col: 24, offset: 5654},
 																								val:        "*",
 																								ignoreCase: false,
 																								want:       "\"*\"",
@@ -3816,7 +3817,7 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 196, col: 5, offset: 5712},
+																					pos: position{line: 196, col: 5, offset: 5708},
 																					run: (*parser).callonTagRanges20,
 																				},
 																			},
@@ -3827,31 +3828,32 @@ var g = &grammar{
 														},
 													},
 													&actionExpr{
-														pos: position{line: 189, col: 9, offset: 5538},
+														pos: position{line: 189, col: 9, offset: 5536},
 														run: (*parser).callonTagRanges21,
 														expr: &seqExpr{
-															pos: position{line: 189, col: 9, offset: 5538},
+															pos: position{line: 189, col: 9, offset: 5536},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 189, col: 9, offset: 5538},
+																	pos:        position{line: 189, col: 9, offset: 5536},
 																	val:        "!",
 																	ignoreCase: false,
 																	want:       "\"!\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 189, col: 13, offset: 5542},
+																	pos:   position{line: 189, col: 13, offset: 5540},
 																	label: "tag",
 																	expr: &choiceExpr{
-																		pos: position{line: 189, col: 18, offset: 5547},
+																		pos: position{line: 189, col: 18, offset: 5545},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2746, col: 14, offset: 87408},
+																				pos: position{line: 214, col: 12, offset: 6362},
 																				run: (*parser).callonTagRanges26,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2746, col: 14, offset: 87408},
+																					pos: position{line: 214, col: 12, offset: 6362},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2746, col: 14, offset: 87408},
-																						val:        "[\\pL\\pN]",
+																						pos:        position{line: 214, col: 12, offset: 6362},
+																						val:        "[_.-\\pL\\pN]",
+																						chars:      []rune{'_', '.', '-'},
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
 																						inverted:   false,
@@ -3859,21 +3861,21 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 193, col: 16, offset: 5650},
+																				pos: position{line: 193, col: 16, offset: 5646},
 																				run: (*parser).callonTagRanges29,
 																				expr: &seqExpr{
-																					pos: position{line: 193, col: 16, offset: 5650},
+																					pos: position{line: 193, col: 16, offset: 5646},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 193, col: 16, offset: 5650},
+																							pos:   position{line: 193, col: 16, offset: 5646},
 																							label: "stars",
 																							expr: &actionExpr{
-																								pos: position{line: 193, col: 23, offset: 5657},
+																								pos: position{line: 193, col: 23, offset: 5653},
 																								run: (*parser).callonTagRanges32,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 193, col: 23, offset: 5657},
+																									pos: position{line: 193, col: 23, offset: 5653},
 																									expr: &litMatcher{
-																										pos:        position{line: 193, col: 24, offset: 5658},
+																										pos:        position{line: 193, col: 24, offset: 5654},
 																										val:        "*",
 																										ignoreCase: false,
 																										want:       "\"*\"",
@@ -3882,7 +3884,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 196, col: 5, offset: 5712},
+																							pos: position{line: 196, col: 5, offset: 5708},
 																							run: (*parser).callonTagRanges35,
 																						},
 																					},
@@ -3931,13 +3933,14 @@ var g = &grammar{
 																					pos: position{line: 187, col: 18, offset: 5450},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2746, col: 14, offset: 87408},
+																							pos: position{line: 214, col: 12, offset: 6362},
 																							run: (*parser).callonTagRanges46,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2746, col: 14, offset: 87408},
+																								pos: position{line: 214, col: 12, offset: 6362},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2746, col: 14, offset: 87408},
-																									val:        "[\\pL\\pN]",
+																									pos:        position{line: 214, col: 12, offset: 6362},
+																									val:        "[_.-\\pL\\pN]",
+																									chars:      []rune{'_', '.', '-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
 																									inverted:   false,
@@ -3945,21 +3948,21 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 193, col: 16, offset: 5650},
+																							pos: position{line: 193, col: 16, offset: 5646},
 																							run: (*parser).callonTagRanges49,
 																							expr: &seqExpr{
-																								pos: position{line: 193, col: 16, offset: 5650},
+																								pos: position{line: 193, col: 16, offset: 5646},
 																								exprs: []interface{}{
 																									&labeledExpr{
-																										pos:   position{line: 193, col: 16, offset: 5650},
+																										pos:   position{line: 193, col: 16, offset: 5646},
 																										label: "stars",
 																										expr: &actionExpr{
-																											pos: position{line: 193, col: 23, offset: 5657},
+																											pos: position{line: 193, col: 23, offset: 5653},
 																											run: (*parser).callonTagRanges52,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 193, col: 23, offset: 5657},
+																												pos: position{line: 193, col: 23, offset: 5653},
 																												expr: &litMatcher{
-																													pos:        position{line: 193, col: 24, offset: 5658},
+																													pos:        position{line: 193, col: 24, offset: 5654},
 																													val:        "*",
 																													ignoreCase: false,
 																													want:       "\"*\"",
@@ -3968,7 +3971,7 @@ var g = &grammar{
 																										},
 																									},
 																									&andCodeExpr{
-																										pos: position{line: 196, col: 5, offset: 5712},
+																										pos: position{line: 196, col: 5, offset: 5708},
 																										run: (*parser).callonTagRanges55,
 																									},
 																								},
@@ -3979,31 +3982,32 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 189, col: 9, offset: 5538},
+																			pos: position{line: 189, col: 9, offset: 5536},
 																			run: (*parser).callonTagRanges56,
 																			expr: &seqExpr{
-																				pos: position{line: 189, col: 9, offset: 5538},
+																				pos: position{line: 189, col: 9, offset: 5536},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 189, col: 9, offset: 5538},
+																						pos:        position{line: 189, col: 9, offset: 5536},
 																						val:        "!",
 																						ignoreCase: false,
 																						want:       "\"!\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 189, col: 13, offset: 5542},
+																						pos:   position{line: 189, col: 13, offset: 5540},
 																						label: "tag",
 																						expr: &choiceExpr{
-																							pos: position{line: 189, col: 18, offset: 5547},
+																							pos: position{line: 189, col: 18, offset: 5545},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2746, col: 14, offset: 87408},
+																									pos: position{line: 214, col: 12, offset: 6362},
 																									run: (*parser).callonTagRanges61,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2746, col: 14, offset: 87408},
+																										pos: position{line: 214, col: 12, offset: 6362},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2746, col: 14, offset: 87408},
-																											val:        "[\\pL\\pN]",
+																											pos:        position{line: 214, col: 12, offset: 6362},
+																											val:        "[_.-\\pL\\pN]",
+																											chars:      []rune{'_', '.', '-'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
 																											inverted:   false,
@@ -4011,21 +4015,21 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 193, col: 16, offset: 5650},
+																									pos: position{line: 193, col: 16, offset: 5646},
 																									run: (*parser).callonTagRanges64,
 																									expr: &seqExpr{
-																										pos: position{line: 193, col: 16, offset: 5650},
+																										pos: position{line: 193, col: 16, offset: 5646},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 193, col: 16, offset: 5650},
+																												pos:   position{line: 193, col: 16, offset: 5646},
 																												label: "stars",
 																												expr: &actionExpr{
-																													pos: position{line: 193, col: 23, offset: 5657},
+																													pos: position{line: 193, col: 23, offset: 5653},
 																													run: (*parser).callonTagRanges67,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 193, col: 23, offset: 5657},
+																														pos: position{line: 193, col: 23, offset: 5653},
 																														expr: &litMatcher{
-																															pos:        position{line: 193, col: 24, offset: 5658},
+																															pos:        position{line: 193, col: 24, offset: 5654},
 																															val:        "*",
 																															ignoreCase: false,
 																															want:       "\"*\"",
@@ -4034,7 +4038,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 196, col: 5, offset: 5712},
+																												pos: position{line: 196, col: 5, offset: 5708},
 																												run: (*parser).callonTagRanges70,
 																											},
 																										},
@@ -4070,47 +4074,48 @@ var g = &grammar{
 		},
 		{
 			name: "IncludedFileLine",
-			pos:  position{line: 203, col: 1, offset: 5879},
+			pos:  position{line: 203, col: 1, offset: 5875},
 			expr: &actionExpr{
-				pos: position{line: 203, col: 21, offset: 5899},
+				pos: position{line: 203, col: 21, offset: 5895},
 				run: (*parser).callonIncludedFileLine1,
 				expr: &seqExpr{
-					pos: position{line: 203, col: 21, offset: 5899},
+					pos: position{line: 203, col: 21, offset: 5895},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 203, col: 21, offset: 5899},
+							pos:   position{line: 203, col: 21, offset: 5895},
 							label: "content",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 203, col: 29, offset: 5907},
+								pos: position{line: 203, col: 29, offset: 5903},
 								expr: &choiceExpr{
-									pos: position{line: 203, col: 30, offset: 5908},
+									pos: position{line: 203, col: 30, offset: 5904},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 207, col: 25, offset: 6088},
+											pos: position{line: 207, col: 25, offset: 6084},
 											run: (*parser).callonIncludedFileLine6,
 											expr: &seqExpr{
-												pos: position{line: 207, col: 25, offset: 6088},
+												pos: position{line: 207, col: 25, offset: 6084},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 207, col: 25, offset: 6088},
+														pos:        position{line: 207, col: 25, offset: 6084},
 														val:        "tag::",
 														ignoreCase: false,
 														want:       "\"tag::\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 207, col: 33, offset: 6096},
+														pos:   position{line: 207, col: 33, offset: 6092},
 														label: "tag",
 														expr: &actionExpr{
-															pos: position{line: 207, col: 38, offset: 6101},
+															pos: position{line: 207, col: 38, offset: 6097},
 															run: (*parser).callonIncludedFileLine10,
 															expr: &actionExpr{
-																pos: position{line: 2746, col: 14, offset: 87408},
+																pos: position{line: 214, col: 12, offset: 6362},
 																run: (*parser).callonIncludedFileLine11,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2746, col: 14, offset: 87408},
+																	pos: position{line: 214, col: 12, offset: 6362},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2746, col: 14, offset: 87408},
-																		val:        "[\\pL\\pN]",
+																		pos:        position{line: 214, col: 12, offset: 6362},
+																		val:        "[_.-\\pL\\pN]",
+																		chars:      []rune{'_', '.', '-'},
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
@@ -4120,7 +4125,7 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 207, col: 78, offset: 6141},
+														pos:        position{line: 207, col: 76, offset: 6135},
 														val:        "[]",
 														ignoreCase: false,
 														want:       "\"[]\"",
@@ -4129,31 +4134,32 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 211, col: 23, offset: 6236},
+											pos: position{line: 211, col: 23, offset: 6230},
 											run: (*parser).callonIncludedFileLine15,
 											expr: &seqExpr{
-												pos: position{line: 211, col: 23, offset: 6236},
+												pos: position{line: 211, col: 23, offset: 6230},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 211, col: 23, offset: 6236},
+														pos:        position{line: 211, col: 23, offset: 6230},
 														val:        "end::",
 														ignoreCase: false,
 														want:       "\"end::\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 211, col: 31, offset: 6244},
+														pos:   position{line: 211, col: 31, offset: 6238},
 														label: "tag",
 														expr: &actionExpr{
-															pos: position{line: 211, col: 36, offset: 6249},
+															pos: position{line: 211, col: 36, offset: 6243},
 															run: (*parser).callonIncludedFileLine19,
 															expr: &actionExpr{
-																pos: position{line: 2746, col: 14, offset: 87408},
+																pos: position{line: 214, col: 12, offset: 6362},
 																run: (*parser).callonIncludedFileLine20,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2746, col: 14, offset: 87408},
+																	pos: position{line: 214, col: 12, offset: 6362},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2746, col: 14, offset: 87408},
-																		val:        "[\\pL\\pN]",
+																		pos:        position{line: 214, col: 12, offset: 6362},
+																		val:        "[_.-\\pL\\pN]",
+																		chars:      []rune{'_', '.', '-'},
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
@@ -4163,7 +4169,7 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 211, col: 76, offset: 6289},
+														pos:        position{line: 211, col: 74, offset: 6281},
 														val:        "[]",
 														ignoreCase: false,
 														want:       "\"[]\"",
@@ -4172,10 +4178,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 203, col: 74, offset: 5952},
+											pos: position{line: 203, col: 74, offset: 5948},
 											run: (*parser).callonIncludedFileLine24,
 											expr: &anyMatcher{
-												line: 203, col: 74, offset: 5952,
+												line: 203, col: 74, offset: 5948,
 											},
 										},
 									},
@@ -49571,7 +49577,6 @@ func (p *parser) callonLineRanges1() (interface{}, error) {
 
 func (c *current) onTagRanges11() (interface{}, error) {
 	return string(c.text), nil
-
 }
 
 func (p *parser) callonTagRanges11() (interface{}, error) {
@@ -49628,7 +49633,6 @@ func (p *parser) callonTagRanges8() (interface{}, error) {
 
 func (c *current) onTagRanges26() (interface{}, error) {
 	return string(c.text), nil
-
 }
 
 func (p *parser) callonTagRanges26() (interface{}, error) {
@@ -49685,7 +49689,6 @@ func (p *parser) callonTagRanges21() (interface{}, error) {
 
 func (c *current) onTagRanges46() (interface{}, error) {
 	return string(c.text), nil
-
 }
 
 func (p *parser) callonTagRanges46() (interface{}, error) {
@@ -49742,7 +49745,6 @@ func (p *parser) callonTagRanges43() (interface{}, error) {
 
 func (c *current) onTagRanges61() (interface{}, error) {
 	return string(c.text), nil
-
 }
 
 func (p *parser) callonTagRanges61() (interface{}, error) {
@@ -49833,7 +49835,6 @@ func (p *parser) callonTagRanges1() (interface{}, error) {
 
 func (c *current) onIncludedFileLine11() (interface{}, error) {
 	return string(c.text), nil
-
 }
 
 func (p *parser) callonIncludedFileLine11() (interface{}, error) {
@@ -49865,7 +49866,6 @@ func (p *parser) callonIncludedFileLine6() (interface{}, error) {
 
 func (c *current) onIncludedFileLine20() (interface{}, error) {
 	return string(c.text), nil
-
 }
 
 func (p *parser) callonIncludedFileLine20() (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 56fa771..f2f7742 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -184,9 +184,9 @@ MultipleTagRanges <- first:(TagRange)
         return append([]interface{}{first}, others.([]interface{})...), nil
     }
 
-TagRange <- tag:(Alphanums / TagWildcard) {
+TagRange <- tag:(TagName / TagWildcard) {
         return types.NewTagRange(tag.(string), true)
-    } / "!" tag:(Alphanums / TagWildcard) {
+    } / "!" tag:(TagName / TagWildcard) {
         return types.NewTagRange(tag.(string), false)
     }
 
@@ -204,16 +204,16 @@ IncludedFileLine <- content:(IncludedFileStartTag / IncludedFileEndTag / . {retu
         return types.NewIncludedFileLine(content.([]interface{}))
     }
 
-IncludedFileStartTag <- "tag::" tag:(Alphanums {return string(c.text), nil}) "[]" {
+IncludedFileStartTag <- "tag::" tag:(TagName {return string(c.text), nil}) "[]" {
         return types.NewIncludedFileStartTag(tag.(string))
     }
 
-IncludedFileEndTag <- "end::" tag:(Alphanums {return string(c.text), nil}) "[]" {
+IncludedFileEndTag <- "end::" tag:(TagName {return string(c.text), nil}) "[]" {
         return types.NewIncludedFileEndTag(tag.(string))
     }
+TagName <- [\pL\pN_.-]+ { return string(c.text), nil }
 
-
-// -------------------------------------------------------------------------------------
+// ---------------------------------------
 //
 //
 // Document Processing
-- 
2.43.0


From f4addbd395400c4dd032107a68dfd0571e1d0fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:54 +0000
Subject: [PATCH 067/143] fix: conditionals with attributes declared on many
 lines

---
 pkg/parser/document_preprocessing.go | 42 ++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/pkg/parser/document_preprocessing.go b/pkg/parser/document_preprocessing.go
index c3d0009..9aae663 100644
--- a/pkg/parser/document_preprocessing.go
+++ b/pkg/parser/document_preprocessing.go
@@ -41,8 +41,13 @@ func preprocessLines(ctx *ParseContext, source io.Reader) (*builder, error) {
 	c := conditions{}
 	scanner := newLineScanner(source)
 	t := newBlockDelimiterTracker()
+	var err error
+	var declaration []string // the beginning of the declaration of an attribute on many lines
 	for scanner.Scan() {
 		line := scanner.Bytes()
+		if declaration, err = declareMultilineAttribute(ctx, declaration, string(line), b.enabled && !ctx.withinVerbatimBlock && !t.withinVerbatimBlock()); err != nil {
+			return nil, err
+		}
 		element, err := Parse("", line, append(ctx.opts, Entrypoint("DocumentRawLine"))...)
 		if err != nil {
 			// log.Error(err)
@@ -66,11 +71,9 @@ func preprocessLines(ctx *ParseContext, source io.Reader) (*builder, error) {
 			switch e := element.(type) {
 			case *types.AttributeDeclaration:
 				if !ctx.withinVerbatimBlock && !t.withinVerbatimBlock() {
-					v, err := replaceAttributeRefsInValue(ctx, e.Value)
-					if err != nil {
+					if err := declareAttribute(ctx, e); err != nil {
 						return nil, err
 					}
-					ctx.attributes.set(e.Name, v)
 				}
 				b.WriteString(e.RawText())
 			case *types.AttributeReset:
@@ -124,6 +127,39 @@ func preprocessLines(ctx *ParseContext, source io.Reader) (*builder, error) {
 	return b, nil
 }
 
+func declareAttribute(ctx *ParseContext, e *types.AttributeDeclaration) error {
+	v, err := replaceAttributeRefsInValue(ctx, e.Value)
+	if err != nil {
+		return err
+	}
+	ctx.attributes.set(e.Name, v)
+	return nil
+}
+
+// declareMultilineAttribute declares the attribute whose value ends with the given line, if there is one.
+// Otherwise, returns the lines of the declaration, if the value may continue on the next line.
+func declareMultilineAttribute(ctx *ParseContext, declaration []string, line string, enabled bool) ([]string, error) {
+	continued := strings.HasSuffix(line, `\`)
+	switch {
+	case !enabled:
+		return nil, nil
+	case len(declaration) == 0 && continued && strings.HasPrefix(line, ":"):
+		return []string{line}, nil
+	case len(declaration) == 0:
+		return nil, nil
+	case continued:
+		return append(declaration, line), nil
+	}
+	element, err := Parse("", []byte(strings.Join(append(declaration, line), "\n")), append(ctx.opts, Entrypoint("DocumentRawLine"))...)
+	if err != nil {
+		return nil, nil // not a declaration
+	}
+	if e, ok := element.(*types.AttributeDeclaration); ok {
+		return nil, declareAttribute(ctx, e)
+	}
+	return nil, nil
+}
+
 // isEscapedDirective checks if the given line is a directive with a backslash before
 func isEscapedDirective(ctx *ParseContext, line []byte) bool {
 	if !bytes.HasPrefix(line, []byte("\\")) {
-- 
2.43.0


From 920a6e4e00655cecb8d698c9aa7a9dad76181d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:56 +0000
Subject: [PATCH 068/143] fix: conversion failed with references to attributes
 without value

---
 pkg/parser/document_processing_apply_substitutions.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 4c46128..3356c1c 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -581,6 +581,8 @@ func valueForAttributeRef(ctx *ParseContext, a *types.AttributeReference) (inter
 		return "{" + a.Name + "}", false, nil
 	}
 	switch v := v.(type) {
+	case nil: // declared without a value
+		return "", true, nil
 	case []interface{}:
 		s, err := sgml.RenderPlainText(v)
 		return s, true, err
-- 
2.43.0


From d760773eda799afcd836edceb2f4a173e73a0007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:05 +0000
Subject: [PATCH 069/143] fix: do not lose the titles, paragraphs and table of
 contents with references to attributes without value

---
 pkg/parser/document_processing_apply_substitutions.go | 5 ++++-
 pkg/renderer/sgml/table_of_contents.go                | 3 ++-
 pkg/types/types.go                                    | 4 ++++
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 3356c1c..3f42b7a 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -410,7 +410,10 @@ func replaceAttributeRefsInSlicedValue(ctx *ParseContext, elements []interface{}
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("replaced attribute refs: %s", spew.Sdump(result))
 	}
-	return types.Reduce(result), nil
+	if v := types.Reduce(result); v != nil {
+		return v, nil
+	}
+	return "", nil // all the attributes have no value
 }
 
 func applySubstitutionsOnSlice(ctx *ParseContext, elements []interface{}, subs *substitutions, opts ...Option) ([]interface{}, error) {
diff --git a/pkg/renderer/sgml/table_of_contents.go b/pkg/renderer/sgml/table_of_contents.go
index 9a1f64e..0e0186d 100644
--- a/pkg/renderer/sgml/table_of_contents.go
+++ b/pkg/renderer/sgml/table_of_contents.go
@@ -46,7 +46,8 @@ func (r *sgmlRenderer) prerenderTableOfContentsEntry(ctx *context, entry *types.
 	}
 	s, found := ctx.elementReferences[entry.ID]
 	if !found {
-		return errors.New("unable to render table of contents entry title (missing element reference")
+		entry.Title = "" // no title (attribute without value)
+		return nil
 	}
 	switch s := s.(type) {
 	case []interface{}:
diff --git a/pkg/types/types.go b/pkg/types/types.go
index 793c207..a3479b8 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -2541,6 +2541,10 @@ func (s *Section) SetTitle(title []interface{}) {
 		log.Debugf("setting section title: %s", spew.Sdump(title))
 	}
 	// inline ID attribute foud at the end is *moved* at the attributes level of the section
+	if len(title) == 0 { // attributes without value
+		s.Title = []interface{}{}
+		return
+	}
 	if id, ok := title[len(title)-1].(*Attribute); ok {
 		sectionID := stringify(id.Value)
 		s.AddAttributes(Attributes{
-- 
2.43.0


From 88685542f4feaa34fbaa5c53cc61dc6dec04e2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:25 +0000
Subject: [PATCH 070/143] fix: do not fail on titles, locations and
 substitutions with attributes without value

---
 pkg/parser/document_substitutions.go | 2 +-
 pkg/renderer/sgml/paragraph.go       | 2 ++
 pkg/types/types_utils.go             | 2 ++
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/parser/document_substitutions.go b/pkg/parser/document_substitutions.go
index 2e83243..ffa874e 100644
--- a/pkg/parser/document_substitutions.go
+++ b/pkg/parser/document_substitutions.go
@@ -243,7 +243,7 @@ func substitutionsFor(s string) (*substitutions, error) {
 	switch s {
 	case "normal":
 		return normalSubstitutions(), nil
-	case "none":
+	case "none", "":
 		return noneSubstitutions(), nil
 	case "verbatim":
 		return verbatimSubstitutions(), nil
diff --git a/pkg/renderer/sgml/paragraph.go b/pkg/renderer/sgml/paragraph.go
index f993ef6..5965124 100644
--- a/pkg/renderer/sgml/paragraph.go
+++ b/pkg/renderer/sgml/paragraph.go
@@ -137,6 +137,8 @@ func (r *sgmlRenderer) renderElementTitle(ctx *context, attrs types.Attributes)
 		return "", nil
 	}
 	switch title := title.(type) {
+	case nil: // attributes without value
+		return "", nil
 	case string:
 		return escapeString(title), nil
 	case []interface{}:
diff --git a/pkg/types/types_utils.go b/pkg/types/types_utils.go
index 71281cb..6970325 100644
--- a/pkg/types/types_utils.go
+++ b/pkg/types/types_utils.go
@@ -145,6 +145,8 @@ func Apply(source string, fs ...applyFunc) string {
 
 func stringify(element interface{}) string {
 	switch element := element.(type) {
+	case nil:
+		return ""
 	case []interface{}:
 		result := strings.Builder{}
 		for _, e := range element {
-- 
2.43.0


From f3ee20b10e7d85d96319da7d72a623a4158b0b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:18 +0000
Subject: [PATCH 071/143] fix: trailing spaces in declarations of attributes

---
 pkg/parser/parser.go  | 1182 +++++++++++++++++++++--------------------
 pkg/parser/parser.peg |    6 +-
 2 files changed, 620 insertions(+), 568 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index feebb9a..2848d07 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -60,13 +60,13 @@ var g = &grammar{
 													pos:   position{line: 360, col: 24, offset: 10915},
 													label: "name",
 													expr: &actionExpr{
-														pos: position{line: 318, col: 18, offset: 9736},
+														pos: position{line: 318, col: 18, offset: 9729},
 														run: (*parser).callonDocumentRawLine10,
 														expr: &seqExpr{
-															pos: position{line: 318, col: 18, offset: 9736},
+															pos: position{line: 318, col: 18, offset: 9729},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 318, col: 18, offset: 9736},
+																	pos:        position{line: 318, col: 18, offset: 9729},
 																	val:        "[_\\pL\\pN]",
 																	chars:      []rune{'_'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -74,9 +74,9 @@ var g = &grammar{
 																	inverted:   false,
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 318, col: 28, offset: 9746},
+																	pos: position{line: 318, col: 28, offset: 9739},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 318, col: 29, offset: 9747},
+																		pos:        position{line: 318, col: 29, offset: 9740},
 																		val:        "[-\\pL\\pN]",
 																		chars:      []rune{'-'},
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -165,13 +165,13 @@ var g = &grammar{
 													pos:   position{line: 362, col: 13, offset: 11035},
 													label: "name",
 													expr: &actionExpr{
-														pos: position{line: 318, col: 18, offset: 9736},
+														pos: position{line: 318, col: 18, offset: 9729},
 														run: (*parser).callonDocumentRawLine31,
 														expr: &seqExpr{
-															pos: position{line: 318, col: 18, offset: 9736},
+															pos: position{line: 318, col: 18, offset: 9729},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 318, col: 18, offset: 9736},
+																	pos:        position{line: 318, col: 18, offset: 9729},
 																	val:        "[_\\pL\\pN]",
 																	chars:      []rune{'_'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -179,9 +179,9 @@ var g = &grammar{
 																	inverted:   false,
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 318, col: 28, offset: 9746},
+																	pos: position{line: 318, col: 28, offset: 9739},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 318, col: 29, offset: 9747},
+																		pos:        position{line: 318, col: 29, offset: 9740},
 																		val:        "[-\\pL\\pN]",
 																		chars:      []rune{'-'},
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -562,13 +562,13 @@ var g = &grammar{
 																										pos:   position{line: 645, col: 13, offset: 20327},
 																										label: "name",
 																										expr: &actionExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 318, col: 18, offset: 9729},
 																											run: (*parser).callonDocumentRawLine120,
 																											expr: &seqExpr{
-																												pos: position{line: 318, col: 18, offset: 9736},
+																												pos: position{line: 318, col: 18, offset: 9729},
 																												exprs: []interface{}{
 																													&charClassMatcher{
-																														pos:        position{line: 318, col: 18, offset: 9736},
+																														pos:        position{line: 318, col: 18, offset: 9729},
 																														val:        "[_\\pL\\pN]",
 																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -576,9 +576,9 @@ var g = &grammar{
 																														inverted:   false,
 																													},
 																													&zeroOrMoreExpr{
-																														pos: position{line: 318, col: 28, offset: 9746},
+																														pos: position{line: 318, col: 28, offset: 9739},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9747},
+																															pos:        position{line: 318, col: 29, offset: 9740},
 																															val:        "[-\\pL\\pN]",
 																															chars:      []rune{'-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -615,13 +615,13 @@ var g = &grammar{
 																										pos:   position{line: 652, col: 9, offset: 20591},
 																										label: "name",
 																										expr: &actionExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 318, col: 18, offset: 9729},
 																											run: (*parser).callonDocumentRawLine130,
 																											expr: &seqExpr{
-																												pos: position{line: 318, col: 18, offset: 9736},
+																												pos: position{line: 318, col: 18, offset: 9729},
 																												exprs: []interface{}{
 																													&charClassMatcher{
-																														pos:        position{line: 318, col: 18, offset: 9736},
+																														pos:        position{line: 318, col: 18, offset: 9729},
 																														val:        "[_\\pL\\pN]",
 																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -629,9 +629,9 @@ var g = &grammar{
 																														inverted:   false,
 																													},
 																													&zeroOrMoreExpr{
-																														pos: position{line: 318, col: 28, offset: 9746},
+																														pos: position{line: 318, col: 28, offset: 9739},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9747},
+																															pos:        position{line: 318, col: 29, offset: 9740},
 																															val:        "[-\\pL\\pN]",
 																															chars:      []rune{'-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -725,13 +725,13 @@ var g = &grammar{
 																										pos:   position{line: 645, col: 13, offset: 20327},
 																										label: "name",
 																										expr: &actionExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 318, col: 18, offset: 9729},
 																											run: (*parser).callonDocumentRawLine152,
 																											expr: &seqExpr{
-																												pos: position{line: 318, col: 18, offset: 9736},
+																												pos: position{line: 318, col: 18, offset: 9729},
 																												exprs: []interface{}{
 																													&charClassMatcher{
-																														pos:        position{line: 318, col: 18, offset: 9736},
+																														pos:        position{line: 318, col: 18, offset: 9729},
 																														val:        "[_\\pL\\pN]",
 																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -739,9 +739,9 @@ var g = &grammar{
 																														inverted:   false,
 																													},
 																													&zeroOrMoreExpr{
-																														pos: position{line: 318, col: 28, offset: 9746},
+																														pos: position{line: 318, col: 28, offset: 9739},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9747},
+																															pos:        position{line: 318, col: 29, offset: 9740},
 																															val:        "[-\\pL\\pN]",
 																															chars:      []rune{'-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -778,13 +778,13 @@ var g = &grammar{
 																										pos:   position{line: 652, col: 9, offset: 20591},
 																										label: "name",
 																										expr: &actionExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 318, col: 18, offset: 9729},
 																											run: (*parser).callonDocumentRawLine162,
 																											expr: &seqExpr{
-																												pos: position{line: 318, col: 18, offset: 9736},
+																												pos: position{line: 318, col: 18, offset: 9729},
 																												exprs: []interface{}{
 																													&charClassMatcher{
-																														pos:        position{line: 318, col: 18, offset: 9736},
+																														pos:        position{line: 318, col: 18, offset: 9729},
 																														val:        "[_\\pL\\pN]",
 																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -792,9 +792,9 @@ var g = &grammar{
 																														inverted:   false,
 																													},
 																													&zeroOrMoreExpr{
-																														pos: position{line: 318, col: 28, offset: 9746},
+																														pos: position{line: 318, col: 28, offset: 9739},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9747},
+																															pos:        position{line: 318, col: 29, offset: 9740},
 																															val:        "[-\\pL\\pN]",
 																															chars:      []rune{'-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -877,13 +877,13 @@ var g = &grammar{
 																							pos:   position{line: 645, col: 13, offset: 20327},
 																							label: "name",
 																							expr: &actionExpr{
-																								pos: position{line: 318, col: 18, offset: 9736},
+																								pos: position{line: 318, col: 18, offset: 9729},
 																								run: (*parser).callonDocumentRawLine181,
 																								expr: &seqExpr{
-																									pos: position{line: 318, col: 18, offset: 9736},
+																									pos: position{line: 318, col: 18, offset: 9729},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 318, col: 18, offset: 9736},
+																											pos:        position{line: 318, col: 18, offset: 9729},
 																											val:        "[_\\pL\\pN]",
 																											chars:      []rune{'_'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -891,9 +891,9 @@ var g = &grammar{
 																											inverted:   false,
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 318, col: 28, offset: 9746},
+																											pos: position{line: 318, col: 28, offset: 9739},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 318, col: 29, offset: 9747},
+																												pos:        position{line: 318, col: 29, offset: 9740},
 																												val:        "[-\\pL\\pN]",
 																												chars:      []rune{'-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -930,13 +930,13 @@ var g = &grammar{
 																							pos:   position{line: 652, col: 9, offset: 20591},
 																							label: "name",
 																							expr: &actionExpr{
-																								pos: position{line: 318, col: 18, offset: 9736},
+																								pos: position{line: 318, col: 18, offset: 9729},
 																								run: (*parser).callonDocumentRawLine191,
 																								expr: &seqExpr{
-																									pos: position{line: 318, col: 18, offset: 9736},
+																									pos: position{line: 318, col: 18, offset: 9729},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 318, col: 18, offset: 9736},
+																											pos:        position{line: 318, col: 18, offset: 9729},
 																											val:        "[_\\pL\\pN]",
 																											chars:      []rune{'_'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -944,9 +944,9 @@ var g = &grammar{
 																											inverted:   false,
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 318, col: 28, offset: 9746},
+																											pos: position{line: 318, col: 28, offset: 9739},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 318, col: 29, offset: 9747},
+																												pos:        position{line: 318, col: 29, offset: 9740},
 																												val:        "[-\\pL\\pN]",
 																												chars:      []rune{'-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -1185,13 +1185,13 @@ var g = &grammar{
 																										pos:   position{line: 645, col: 13, offset: 20327},
 																										label: "name",
 																										expr: &actionExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 318, col: 18, offset: 9729},
 																											run: (*parser).callonDocumentRawLine244,
 																											expr: &seqExpr{
-																												pos: position{line: 318, col: 18, offset: 9736},
+																												pos: position{line: 318, col: 18, offset: 9729},
 																												exprs: []interface{}{
 																													&charClassMatcher{
-																														pos:        position{line: 318, col: 18, offset: 9736},
+																														pos:        position{line: 318, col: 18, offset: 9729},
 																														val:        "[_\\pL\\pN]",
 																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -1199,9 +1199,9 @@ var g = &grammar{
 																														inverted:   false,
 																													},
 																													&zeroOrMoreExpr{
-																														pos: position{line: 318, col: 28, offset: 9746},
+																														pos: position{line: 318, col: 28, offset: 9739},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9747},
+																															pos:        position{line: 318, col: 29, offset: 9740},
 																															val:        "[-\\pL\\pN]",
 																															chars:      []rune{'-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -1238,13 +1238,13 @@ var g = &grammar{
 																										pos:   position{line: 652, col: 9, offset: 20591},
 																										label: "name",
 																										expr: &actionExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 318, col: 18, offset: 9729},
 																											run: (*parser).callonDocumentRawLine254,
 																											expr: &seqExpr{
-																												pos: position{line: 318, col: 18, offset: 9736},
+																												pos: position{line: 318, col: 18, offset: 9729},
 																												exprs: []interface{}{
 																													&charClassMatcher{
-																														pos:        position{line: 318, col: 18, offset: 9736},
+																														pos:        position{line: 318, col: 18, offset: 9729},
 																														val:        "[_\\pL\\pN]",
 																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -1252,9 +1252,9 @@ var g = &grammar{
 																														inverted:   false,
 																													},
 																													&zeroOrMoreExpr{
-																														pos: position{line: 318, col: 28, offset: 9746},
+																														pos: position{line: 318, col: 28, offset: 9739},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9747},
+																															pos:        position{line: 318, col: 29, offset: 9740},
 																															val:        "[-\\pL\\pN]",
 																															chars:      []rune{'-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -1348,13 +1348,13 @@ var g = &grammar{
 																										pos:   position{line: 645, col: 13, offset: 20327},
 																										label: "name",
 																										expr: &actionExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 318, col: 18, offset: 9729},
 																											run: (*parser).callonDocumentRawLine276,
 																											expr: &seqExpr{
-																												pos: position{line: 318, col: 18, offset: 9736},
+																												pos: position{line: 318, col: 18, offset: 9729},
 																												exprs: []interface{}{
 																													&charClassMatcher{
-																														pos:        position{line: 318, col: 18, offset: 9736},
+																														pos:        position{line: 318, col: 18, offset: 9729},
 																														val:        "[_\\pL\\pN]",
 																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -1362,9 +1362,9 @@ var g = &grammar{
 																														inverted:   false,
 																													},
 																													&zeroOrMoreExpr{
-																														pos: position{line: 318, col: 28, offset: 9746},
+																														pos: position{line: 318, col: 28, offset: 9739},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9747},
+																															pos:        position{line: 318, col: 29, offset: 9740},
 																															val:        "[-\\pL\\pN]",
 																															chars:      []rune{'-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -1401,13 +1401,13 @@ var g = &grammar{
 																										pos:   position{line: 652, col: 9, offset: 20591},
 																										label: "name",
 																										expr: &actionExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 318, col: 18, offset: 9729},
 																											run: (*parser).callonDocumentRawLine286,
 																											expr: &seqExpr{
-																												pos: position{line: 318, col: 18, offset: 9736},
+																												pos: position{line: 318, col: 18, offset: 9729},
 																												exprs: []interface{}{
 																													&charClassMatcher{
-																														pos:        position{line: 318, col: 18, offset: 9736},
+																														pos:        position{line: 318, col: 18, offset: 9729},
 																														val:        "[_\\pL\\pN]",
 																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -1415,9 +1415,9 @@ var g = &grammar{
 																														inverted:   false,
 																													},
 																													&zeroOrMoreExpr{
-																														pos: position{line: 318, col: 28, offset: 9746},
+																														pos: position{line: 318, col: 28, offset: 9739},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9747},
+																															pos:        position{line: 318, col: 29, offset: 9740},
 																															val:        "[-\\pL\\pN]",
 																															chars:      []rune{'-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -1500,13 +1500,13 @@ var g = &grammar{
 																							pos:   position{line: 645, col: 13, offset: 20327},
 																							label: "name",
 																							expr: &actionExpr{
-																								pos: position{line: 318, col: 18, offset: 9736},
+																								pos: position{line: 318, col: 18, offset: 9729},
 																								run: (*parser).callonDocumentRawLine305,
 																								expr: &seqExpr{
-																									pos: position{line: 318, col: 18, offset: 9736},
+																									pos: position{line: 318, col: 18, offset: 9729},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 318, col: 18, offset: 9736},
+																											pos:        position{line: 318, col: 18, offset: 9729},
 																											val:        "[_\\pL\\pN]",
 																											chars:      []rune{'_'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -1514,9 +1514,9 @@ var g = &grammar{
 																											inverted:   false,
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 318, col: 28, offset: 9746},
+																											pos: position{line: 318, col: 28, offset: 9739},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 318, col: 29, offset: 9747},
+																												pos:        position{line: 318, col: 29, offset: 9740},
 																												val:        "[-\\pL\\pN]",
 																												chars:      []rune{'-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -1553,13 +1553,13 @@ var g = &grammar{
 																							pos:   position{line: 652, col: 9, offset: 20591},
 																							label: "name",
 																							expr: &actionExpr{
-																								pos: position{line: 318, col: 18, offset: 9736},
+																								pos: position{line: 318, col: 18, offset: 9729},
 																								run: (*parser).callonDocumentRawLine315,
 																								expr: &seqExpr{
-																									pos: position{line: 318, col: 18, offset: 9736},
+																									pos: position{line: 318, col: 18, offset: 9729},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 318, col: 18, offset: 9736},
+																											pos:        position{line: 318, col: 18, offset: 9729},
 																											val:        "[_\\pL\\pN]",
 																											chars:      []rune{'_'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -1567,9 +1567,9 @@ var g = &grammar{
 																											inverted:   false,
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 318, col: 28, offset: 9746},
+																											pos: position{line: 318, col: 28, offset: 9739},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 318, col: 29, offset: 9747},
+																												pos:        position{line: 318, col: 29, offset: 9740},
 																												val:        "[-\\pL\\pN]",
 																												chars:      []rune{'-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -2883,13 +2883,13 @@ var g = &grammar{
 																												pos:   position{line: 645, col: 13, offset: 20327},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 318, col: 18, offset: 9729},
 																													run: (*parser).callonFileInclusion39,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 318, col: 18, offset: 9729},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 318, col: 18, offset: 9729},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -2897,9 +2897,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 318, col: 28, offset: 9739},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 318, col: 29, offset: 9740},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -2936,13 +2936,13 @@ var g = &grammar{
 																												pos:   position{line: 652, col: 9, offset: 20591},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 318, col: 18, offset: 9729},
 																													run: (*parser).callonFileInclusion49,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 318, col: 18, offset: 9729},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 318, col: 18, offset: 9729},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -2950,9 +2950,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 318, col: 28, offset: 9739},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 318, col: 29, offset: 9740},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -2989,13 +2989,13 @@ var g = &grammar{
 																												pos:   position{line: 658, col: 37, offset: 20803},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 318, col: 18, offset: 9729},
 																													run: (*parser).callonFileInclusion59,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 318, col: 18, offset: 9729},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 318, col: 18, offset: 9729},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -3003,9 +3003,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 318, col: 28, offset: 9739},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 318, col: 29, offset: 9740},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -3098,13 +3098,13 @@ var g = &grammar{
 																												pos:   position{line: 662, col: 38, offset: 20975},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 318, col: 18, offset: 9729},
 																													run: (*parser).callonFileInclusion81,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 318, col: 18, offset: 9729},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 318, col: 18, offset: 9729},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -3112,9 +3112,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 318, col: 28, offset: 9739},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 318, col: 29, offset: 9740},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -4300,13 +4300,13 @@ var g = &grammar{
 														pos:   position{line: 360, col: 24, offset: 10915},
 														label: "name",
 														expr: &actionExpr{
-															pos: position{line: 318, col: 18, offset: 9736},
+															pos: position{line: 318, col: 18, offset: 9729},
 															run: (*parser).callonDocumentFragment20,
 															expr: &seqExpr{
-																pos: position{line: 318, col: 18, offset: 9736},
+																pos: position{line: 318, col: 18, offset: 9729},
 																exprs: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 318, col: 18, offset: 9736},
+																		pos:        position{line: 318, col: 18, offset: 9729},
 																		val:        "[_\\pL\\pN]",
 																		chars:      []rune{'_'},
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -4314,9 +4314,9 @@ var g = &grammar{
 																		inverted:   false,
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 318, col: 28, offset: 9746},
+																		pos: position{line: 318, col: 28, offset: 9739},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 318, col: 29, offset: 9747},
+																			pos:        position{line: 318, col: 29, offset: 9740},
 																			val:        "[-\\pL\\pN]",
 																			chars:      []rune{'-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -4405,13 +4405,13 @@ var g = &grammar{
 														pos:   position{line: 362, col: 13, offset: 11035},
 														label: "name",
 														expr: &actionExpr{
-															pos: position{line: 318, col: 18, offset: 9736},
+															pos: position{line: 318, col: 18, offset: 9729},
 															run: (*parser).callonDocumentFragment41,
 															expr: &seqExpr{
-																pos: position{line: 318, col: 18, offset: 9736},
+																pos: position{line: 318, col: 18, offset: 9729},
 																exprs: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 318, col: 18, offset: 9736},
+																		pos:        position{line: 318, col: 18, offset: 9729},
 																		val:        "[_\\pL\\pN]",
 																		chars:      []rune{'_'},
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -4419,9 +4419,9 @@ var g = &grammar{
 																		inverted:   false,
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 318, col: 28, offset: 9746},
+																		pos: position{line: 318, col: 28, offset: 9739},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 318, col: 29, offset: 9747},
+																			pos:        position{line: 318, col: 29, offset: 9740},
 																			val:        "[-\\pL\\pN]",
 																			chars:      []rune{'-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -10628,13 +10628,13 @@ var g = &grammar{
 							pos:   position{line: 303, col: 9, offset: 9186},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 318, col: 18, offset: 9736},
+								pos: position{line: 318, col: 18, offset: 9729},
 								run: (*parser).callonAttributeDeclaration5,
 								expr: &seqExpr{
-									pos: position{line: 318, col: 18, offset: 9736},
+									pos: position{line: 318, col: 18, offset: 9729},
 									exprs: []interface{}{
 										&charClassMatcher{
-											pos:        position{line: 318, col: 18, offset: 9736},
+											pos:        position{line: 318, col: 18, offset: 9729},
 											val:        "[_\\pL\\pN]",
 											chars:      []rune{'_'},
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -10642,9 +10642,9 @@ var g = &grammar{
 											inverted:   false,
 										},
 										&zeroOrMoreExpr{
-											pos: position{line: 318, col: 28, offset: 9746},
+											pos: position{line: 318, col: 28, offset: 9739},
 											expr: &charClassMatcher{
-												pos:        position{line: 318, col: 29, offset: 9747},
+												pos:        position{line: 318, col: 29, offset: 9740},
 												val:        "[-\\pL\\pN]",
 												chars:      []rune{'-'},
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -10700,12 +10700,26 @@ var g = &grammar{
 								},
 							},
 						},
+						&zeroOrMoreExpr{
+							pos: position{line: 310, col: 5, offset: 9412},
+							expr: &actionExpr{
+								pos: position{line: 2852, col: 10, offset: 90239},
+								run: (*parser).callonAttributeDeclaration21,
+								expr: &charClassMatcher{
+									pos:        position{line: 2852, col: 10, offset: 90239},
+									val:        "[\\t ]",
+									chars:      []rune{'\t', ' '},
+									ignoreCase: false,
+									inverted:   false,
+								},
+							},
+						},
 						&choiceExpr{
 							pos: position{line: 2874, col: 8, offset: 90637},
 							alternatives: []interface{}{
 								&actionExpr{
 									pos: position{line: 2861, col: 12, offset: 90410},
-									run: (*parser).callonAttributeDeclaration21,
+									run: (*parser).callonAttributeDeclaration24,
 									expr: &choiceExpr{
 										pos: position{line: 2861, col: 13, offset: 90411},
 										alternatives: []interface{}{
@@ -10744,41 +10758,55 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeDeclarationValue",
-			pos:  position{line: 322, col: 1, offset: 9803},
+			pos:  position{line: 322, col: 1, offset: 9796},
 			expr: &actionExpr{
-				pos: position{line: 323, col: 5, offset: 9837},
+				pos: position{line: 323, col: 5, offset: 9830},
 				run: (*parser).callonAttributeDeclarationValue1,
 				expr: &seqExpr{
-					pos: position{line: 323, col: 5, offset: 9837},
+					pos: position{line: 323, col: 5, offset: 9830},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 323, col: 5, offset: 9837},
+							pos:   position{line: 323, col: 5, offset: 9830},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 323, col: 15, offset: 9847},
+								pos:  position{line: 323, col: 15, offset: 9840},
 								name: "AttributeDeclarationValueElements",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 324, col: 5, offset: 9887},
+							pos:   position{line: 324, col: 5, offset: 9880},
 							label: "otherElements",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 324, col: 19, offset: 9901},
+								pos: position{line: 324, col: 19, offset: 9894},
 								expr: &actionExpr{
-									pos: position{line: 325, col: 9, offset: 9911},
+									pos: position{line: 325, col: 9, offset: 9904},
 									run: (*parser).callonAttributeDeclarationValue7,
 									expr: &seqExpr{
-										pos: position{line: 325, col: 9, offset: 9911},
+										pos: position{line: 325, col: 9, offset: 9904},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 325, col: 9, offset: 9911},
+												pos:        position{line: 325, col: 9, offset: 9904},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
 											},
+											&zeroOrMoreExpr{
+												pos: position{line: 325, col: 14, offset: 9909},
+												expr: &actionExpr{
+													pos: position{line: 2852, col: 10, offset: 90239},
+													run: (*parser).callonAttributeDeclarationValue11,
+													expr: &charClassMatcher{
+														pos:        position{line: 2852, col: 10, offset: 90239},
+														val:        "[\\t ]",
+														chars:      []rune{'\t', ' '},
+														ignoreCase: false,
+														inverted:   false,
+													},
+												},
+											},
 											&actionExpr{
 												pos: position{line: 2861, col: 12, offset: 90410},
-												run: (*parser).callonAttributeDeclarationValue10,
+												run: (*parser).callonAttributeDeclarationValue13,
 												expr: &choiceExpr{
 													pos: position{line: 2861, col: 13, offset: 90411},
 													alternatives: []interface{}{
@@ -10807,7 +10835,7 @@ var g = &grammar{
 												pos: position{line: 326, col: 9, offset: 9933},
 												expr: &actionExpr{
 													pos: position{line: 2852, col: 10, offset: 90239},
-													run: (*parser).callonAttributeDeclarationValue16,
+													run: (*parser).callonAttributeDeclarationValue19,
 													expr: &charClassMatcher{
 														pos:        position{line: 2852, col: 10, offset: 90239},
 														val:        "[\\t ]",
@@ -11026,13 +11054,13 @@ var g = &grammar{
 																			pos:   position{line: 645, col: 13, offset: 20327},
 																			label: "name",
 																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 318, col: 18, offset: 9729},
 																				run: (*parser).callonAttributeDeclarationValueElement41,
 																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 318, col: 18, offset: 9729},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9736},
+																							pos:        position{line: 318, col: 18, offset: 9729},
 																							val:        "[_\\pL\\pN]",
 																							chars:      []rune{'_'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11040,9 +11068,9 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9746},
+																							pos: position{line: 318, col: 28, offset: 9739},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9747},
+																								pos:        position{line: 318, col: 29, offset: 9740},
 																								val:        "[-\\pL\\pN]",
 																								chars:      []rune{'-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11079,13 +11107,13 @@ var g = &grammar{
 																			pos:   position{line: 652, col: 9, offset: 20591},
 																			label: "name",
 																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 318, col: 18, offset: 9729},
 																				run: (*parser).callonAttributeDeclarationValueElement51,
 																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 318, col: 18, offset: 9729},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9736},
+																							pos:        position{line: 318, col: 18, offset: 9729},
 																							val:        "[_\\pL\\pN]",
 																							chars:      []rune{'_'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11093,9 +11121,9 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9746},
+																							pos: position{line: 318, col: 28, offset: 9739},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9747},
+																								pos:        position{line: 318, col: 29, offset: 9740},
 																								val:        "[-\\pL\\pN]",
 																								chars:      []rune{'-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11132,13 +11160,13 @@ var g = &grammar{
 																			pos:   position{line: 658, col: 37, offset: 20803},
 																			label: "name",
 																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 318, col: 18, offset: 9729},
 																				run: (*parser).callonAttributeDeclarationValueElement61,
 																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 318, col: 18, offset: 9729},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9736},
+																							pos:        position{line: 318, col: 18, offset: 9729},
 																							val:        "[_\\pL\\pN]",
 																							chars:      []rune{'_'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11146,9 +11174,9 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9746},
+																							pos: position{line: 318, col: 28, offset: 9739},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9747},
+																								pos:        position{line: 318, col: 29, offset: 9740},
 																								val:        "[-\\pL\\pN]",
 																								chars:      []rune{'-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11241,13 +11269,13 @@ var g = &grammar{
 																			pos:   position{line: 662, col: 38, offset: 20975},
 																			label: "name",
 																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 318, col: 18, offset: 9729},
 																				run: (*parser).callonAttributeDeclarationValueElement83,
 																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 318, col: 18, offset: 9729},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9736},
+																							pos:        position{line: 318, col: 18, offset: 9729},
 																							val:        "[_\\pL\\pN]",
 																							chars:      []rune{'_'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11255,9 +11283,9 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9746},
+																							pos: position{line: 318, col: 28, offset: 9739},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9747},
+																								pos:        position{line: 318, col: 29, offset: 9740},
 																								val:        "[-\\pL\\pN]",
 																								chars:      []rune{'-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11481,13 +11509,13 @@ var g = &grammar{
 																															pos:   position{line: 645, col: 13, offset: 20327},
 																															label: "name",
 																															expr: &actionExpr{
-																																pos: position{line: 318, col: 18, offset: 9736},
+																																pos: position{line: 318, col: 18, offset: 9729},
 																																run: (*parser).callonBlockAttributes36,
 																																expr: &seqExpr{
-																																	pos: position{line: 318, col: 18, offset: 9736},
+																																	pos: position{line: 318, col: 18, offset: 9729},
 																																	exprs: []interface{}{
 																																		&charClassMatcher{
-																																			pos:        position{line: 318, col: 18, offset: 9736},
+																																			pos:        position{line: 318, col: 18, offset: 9729},
 																																			val:        "[_\\pL\\pN]",
 																																			chars:      []rune{'_'},
 																																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11495,9 +11523,9 @@ var g = &grammar{
 																																			inverted:   false,
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 318, col: 28, offset: 9746},
+																																			pos: position{line: 318, col: 28, offset: 9739},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 318, col: 29, offset: 9747},
+																																				pos:        position{line: 318, col: 29, offset: 9740},
 																																				val:        "[-\\pL\\pN]",
 																																				chars:      []rune{'-'},
 																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11534,13 +11562,13 @@ var g = &grammar{
 																															pos:   position{line: 652, col: 9, offset: 20591},
 																															label: "name",
 																															expr: &actionExpr{
-																																pos: position{line: 318, col: 18, offset: 9736},
+																																pos: position{line: 318, col: 18, offset: 9729},
 																																run: (*parser).callonBlockAttributes46,
 																																expr: &seqExpr{
-																																	pos: position{line: 318, col: 18, offset: 9736},
+																																	pos: position{line: 318, col: 18, offset: 9729},
 																																	exprs: []interface{}{
 																																		&charClassMatcher{
-																																			pos:        position{line: 318, col: 18, offset: 9736},
+																																			pos:        position{line: 318, col: 18, offset: 9729},
 																																			val:        "[_\\pL\\pN]",
 																																			chars:      []rune{'_'},
 																																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11548,9 +11576,9 @@ var g = &grammar{
 																																			inverted:   false,
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 318, col: 28, offset: 9746},
+																																			pos: position{line: 318, col: 28, offset: 9739},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 318, col: 29, offset: 9747},
+																																				pos:        position{line: 318, col: 29, offset: 9740},
 																																				val:        "[-\\pL\\pN]",
 																																				chars:      []rune{'-'},
 																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11587,13 +11615,13 @@ var g = &grammar{
 																															pos:   position{line: 658, col: 37, offset: 20803},
 																															label: "name",
 																															expr: &actionExpr{
-																																pos: position{line: 318, col: 18, offset: 9736},
+																																pos: position{line: 318, col: 18, offset: 9729},
 																																run: (*parser).callonBlockAttributes56,
 																																expr: &seqExpr{
-																																	pos: position{line: 318, col: 18, offset: 9736},
+																																	pos: position{line: 318, col: 18, offset: 9729},
 																																	exprs: []interface{}{
 																																		&charClassMatcher{
-																																			pos:        position{line: 318, col: 18, offset: 9736},
+																																			pos:        position{line: 318, col: 18, offset: 9729},
 																																			val:        "[_\\pL\\pN]",
 																																			chars:      []rune{'_'},
 																																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11601,9 +11629,9 @@ var g = &grammar{
 																																			inverted:   false,
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 318, col: 28, offset: 9746},
+																																			pos: position{line: 318, col: 28, offset: 9739},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 318, col: 29, offset: 9747},
+																																				pos:        position{line: 318, col: 29, offset: 9740},
 																																				val:        "[-\\pL\\pN]",
 																																				chars:      []rune{'-'},
 																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11696,13 +11724,13 @@ var g = &grammar{
 																															pos:   position{line: 662, col: 38, offset: 20975},
 																															label: "name",
 																															expr: &actionExpr{
-																																pos: position{line: 318, col: 18, offset: 9736},
+																																pos: position{line: 318, col: 18, offset: 9729},
 																																run: (*parser).callonBlockAttributes78,
 																																expr: &seqExpr{
-																																	pos: position{line: 318, col: 18, offset: 9736},
+																																	pos: position{line: 318, col: 18, offset: 9729},
 																																	exprs: []interface{}{
 																																		&charClassMatcher{
-																																			pos:        position{line: 318, col: 18, offset: 9736},
+																																			pos:        position{line: 318, col: 18, offset: 9729},
 																																			val:        "[_\\pL\\pN]",
 																																			chars:      []rune{'_'},
 																																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11710,9 +11738,9 @@ var g = &grammar{
 																																			inverted:   false,
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 318, col: 28, offset: 9746},
+																																			pos: position{line: 318, col: 28, offset: 9739},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 318, col: 29, offset: 9747},
+																																				pos:        position{line: 318, col: 29, offset: 9740},
 																																				val:        "[-\\pL\\pN]",
 																																				chars:      []rune{'-'},
 																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -12099,13 +12127,13 @@ var g = &grammar{
 																							pos:   position{line: 645, col: 13, offset: 20327},
 																							label: "name",
 																							expr: &actionExpr{
-																								pos: position{line: 318, col: 18, offset: 9736},
+																								pos: position{line: 318, col: 18, offset: 9729},
 																								run: (*parser).callonBlockAttributes160,
 																								expr: &seqExpr{
-																									pos: position{line: 318, col: 18, offset: 9736},
+																									pos: position{line: 318, col: 18, offset: 9729},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 318, col: 18, offset: 9736},
+																											pos:        position{line: 318, col: 18, offset: 9729},
 																											val:        "[_\\pL\\pN]",
 																											chars:      []rune{'_'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -12113,9 +12141,9 @@ var g = &grammar{
 																											inverted:   false,
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 318, col: 28, offset: 9746},
+																											pos: position{line: 318, col: 28, offset: 9739},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 318, col: 29, offset: 9747},
+																												pos:        position{line: 318, col: 29, offset: 9740},
 																												val:        "[-\\pL\\pN]",
 																												chars:      []rune{'-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -12152,13 +12180,13 @@ var g = &grammar{
 																							pos:   position{line: 652, col: 9, offset: 20591},
 																							label: "name",
 																							expr: &actionExpr{
-																								pos: position{line: 318, col: 18, offset: 9736},
+																								pos: position{line: 318, col: 18, offset: 9729},
 																								run: (*parser).callonBlockAttributes170,
 																								expr: &seqExpr{
-																									pos: position{line: 318, col: 18, offset: 9736},
+																									pos: position{line: 318, col: 18, offset: 9729},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 318, col: 18, offset: 9736},
+																											pos:        position{line: 318, col: 18, offset: 9729},
 																											val:        "[_\\pL\\pN]",
 																											chars:      []rune{'_'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -12166,9 +12194,9 @@ var g = &grammar{
 																											inverted:   false,
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 318, col: 28, offset: 9746},
+																											pos: position{line: 318, col: 28, offset: 9739},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 318, col: 29, offset: 9747},
+																												pos:        position{line: 318, col: 29, offset: 9740},
 																												val:        "[-\\pL\\pN]",
 																												chars:      []rune{'-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -12905,13 +12933,13 @@ var g = &grammar{
 																						pos:   position{line: 645, col: 13, offset: 20327},
 																						label: "name",
 																						expr: &actionExpr{
-																							pos: position{line: 318, col: 18, offset: 9736},
+																							pos: position{line: 318, col: 18, offset: 9729},
 																							run: (*parser).callonShortHandAttributeValue22,
 																							expr: &seqExpr{
-																								pos: position{line: 318, col: 18, offset: 9736},
+																								pos: position{line: 318, col: 18, offset: 9729},
 																								exprs: []interface{}{
 																									&charClassMatcher{
-																										pos:        position{line: 318, col: 18, offset: 9736},
+																										pos:        position{line: 318, col: 18, offset: 9729},
 																										val:        "[_\\pL\\pN]",
 																										chars:      []rune{'_'},
 																										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -12919,9 +12947,9 @@ var g = &grammar{
 																										inverted:   false,
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 318, col: 28, offset: 9746},
+																										pos: position{line: 318, col: 28, offset: 9739},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 318, col: 29, offset: 9747},
+																											pos:        position{line: 318, col: 29, offset: 9740},
 																											val:        "[-\\pL\\pN]",
 																											chars:      []rune{'-'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -12958,13 +12986,13 @@ var g = &grammar{
 																						pos:   position{line: 652, col: 9, offset: 20591},
 																						label: "name",
 																						expr: &actionExpr{
-																							pos: position{line: 318, col: 18, offset: 9736},
+																							pos: position{line: 318, col: 18, offset: 9729},
 																							run: (*parser).callonShortHandAttributeValue32,
 																							expr: &seqExpr{
-																								pos: position{line: 318, col: 18, offset: 9736},
+																								pos: position{line: 318, col: 18, offset: 9729},
 																								exprs: []interface{}{
 																									&charClassMatcher{
-																										pos:        position{line: 318, col: 18, offset: 9736},
+																										pos:        position{line: 318, col: 18, offset: 9729},
 																										val:        "[_\\pL\\pN]",
 																										chars:      []rune{'_'},
 																										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -12972,9 +13000,9 @@ var g = &grammar{
 																										inverted:   false,
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 318, col: 28, offset: 9746},
+																										pos: position{line: 318, col: 28, offset: 9739},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 318, col: 29, offset: 9747},
+																											pos:        position{line: 318, col: 29, offset: 9740},
 																											val:        "[-\\pL\\pN]",
 																											chars:      []rune{'-'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -13011,13 +13039,13 @@ var g = &grammar{
 																						pos:   position{line: 658, col: 37, offset: 20803},
 																						label: "name",
 																						expr: &actionExpr{
-																							pos: position{line: 318, col: 18, offset: 9736},
+																							pos: position{line: 318, col: 18, offset: 9729},
 																							run: (*parser).callonShortHandAttributeValue42,
 																							expr: &seqExpr{
-																								pos: position{line: 318, col: 18, offset: 9736},
+																								pos: position{line: 318, col: 18, offset: 9729},
 																								exprs: []interface{}{
 																									&charClassMatcher{
-																										pos:        position{line: 318, col: 18, offset: 9736},
+																										pos:        position{line: 318, col: 18, offset: 9729},
 																										val:        "[_\\pL\\pN]",
 																										chars:      []rune{'_'},
 																										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -13025,9 +13053,9 @@ var g = &grammar{
 																										inverted:   false,
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 318, col: 28, offset: 9746},
+																										pos: position{line: 318, col: 28, offset: 9739},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 318, col: 29, offset: 9747},
+																											pos:        position{line: 318, col: 29, offset: 9740},
 																											val:        "[-\\pL\\pN]",
 																											chars:      []rune{'-'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -13120,13 +13148,13 @@ var g = &grammar{
 																						pos:   position{line: 662, col: 38, offset: 20975},
 																						label: "name",
 																						expr: &actionExpr{
-																							pos: position{line: 318, col: 18, offset: 9736},
+																							pos: position{line: 318, col: 18, offset: 9729},
 																							run: (*parser).callonShortHandAttributeValue64,
 																							expr: &seqExpr{
-																								pos: position{line: 318, col: 18, offset: 9736},
+																								pos: position{line: 318, col: 18, offset: 9729},
 																								exprs: []interface{}{
 																									&charClassMatcher{
-																										pos:        position{line: 318, col: 18, offset: 9736},
+																										pos:        position{line: 318, col: 18, offset: 9729},
 																										val:        "[_\\pL\\pN]",
 																										chars:      []rune{'_'},
 																										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -13134,9 +13162,9 @@ var g = &grammar{
 																										inverted:   false,
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 318, col: 28, offset: 9746},
+																										pos: position{line: 318, col: 28, offset: 9739},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 318, col: 29, offset: 9747},
+																											pos:        position{line: 318, col: 29, offset: 9740},
 																											val:        "[-\\pL\\pN]",
 																											chars:      []rune{'-'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -13701,13 +13729,13 @@ var g = &grammar{
 																		pos:   position{line: 645, col: 13, offset: 20327},
 																		label: "name",
 																		expr: &actionExpr{
-																			pos: position{line: 318, col: 18, offset: 9736},
+																			pos: position{line: 318, col: 18, offset: 9729},
 																			run: (*parser).callonSingleQuotedAttributeValueContent20,
 																			expr: &seqExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 318, col: 18, offset: 9729},
 																				exprs: []interface{}{
 																					&charClassMatcher{
-																						pos:        position{line: 318, col: 18, offset: 9736},
+																						pos:        position{line: 318, col: 18, offset: 9729},
 																						val:        "[_\\pL\\pN]",
 																						chars:      []rune{'_'},
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -13715,9 +13743,9 @@ var g = &grammar{
 																						inverted:   false,
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 318, col: 28, offset: 9746},
+																						pos: position{line: 318, col: 28, offset: 9739},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 318, col: 29, offset: 9747},
+																							pos:        position{line: 318, col: 29, offset: 9740},
 																							val:        "[-\\pL\\pN]",
 																							chars:      []rune{'-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -13754,13 +13782,13 @@ var g = &grammar{
 																		pos:   position{line: 652, col: 9, offset: 20591},
 																		label: "name",
 																		expr: &actionExpr{
-																			pos: position{line: 318, col: 18, offset: 9736},
+																			pos: position{line: 318, col: 18, offset: 9729},
 																			run: (*parser).callonSingleQuotedAttributeValueContent30,
 																			expr: &seqExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 318, col: 18, offset: 9729},
 																				exprs: []interface{}{
 																					&charClassMatcher{
-																						pos:        position{line: 318, col: 18, offset: 9736},
+																						pos:        position{line: 318, col: 18, offset: 9729},
 																						val:        "[_\\pL\\pN]",
 																						chars:      []rune{'_'},
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -13768,9 +13796,9 @@ var g = &grammar{
 																						inverted:   false,
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 318, col: 28, offset: 9746},
+																						pos: position{line: 318, col: 28, offset: 9739},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 318, col: 29, offset: 9747},
+																							pos:        position{line: 318, col: 29, offset: 9740},
 																							val:        "[-\\pL\\pN]",
 																							chars:      []rune{'-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -13807,13 +13835,13 @@ var g = &grammar{
 																		pos:   position{line: 658, col: 37, offset: 20803},
 																		label: "name",
 																		expr: &actionExpr{
-																			pos: position{line: 318, col: 18, offset: 9736},
+																			pos: position{line: 318, col: 18, offset: 9729},
 																			run: (*parser).callonSingleQuotedAttributeValueContent40,
 																			expr: &seqExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 318, col: 18, offset: 9729},
 																				exprs: []interface{}{
 																					&charClassMatcher{
-																						pos:        position{line: 318, col: 18, offset: 9736},
+																						pos:        position{line: 318, col: 18, offset: 9729},
 																						val:        "[_\\pL\\pN]",
 																						chars:      []rune{'_'},
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -13821,9 +13849,9 @@ var g = &grammar{
 																						inverted:   false,
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 318, col: 28, offset: 9746},
+																						pos: position{line: 318, col: 28, offset: 9739},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 318, col: 29, offset: 9747},
+																							pos:        position{line: 318, col: 29, offset: 9740},
 																							val:        "[-\\pL\\pN]",
 																							chars:      []rune{'-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -13916,13 +13944,13 @@ var g = &grammar{
 																		pos:   position{line: 662, col: 38, offset: 20975},
 																		label: "name",
 																		expr: &actionExpr{
-																			pos: position{line: 318, col: 18, offset: 9736},
+																			pos: position{line: 318, col: 18, offset: 9729},
 																			run: (*parser).callonSingleQuotedAttributeValueContent62,
 																			expr: &seqExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 318, col: 18, offset: 9729},
 																				exprs: []interface{}{
 																					&charClassMatcher{
-																						pos:        position{line: 318, col: 18, offset: 9736},
+																						pos:        position{line: 318, col: 18, offset: 9729},
 																						val:        "[_\\pL\\pN]",
 																						chars:      []rune{'_'},
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -13930,9 +13958,9 @@ var g = &grammar{
 																						inverted:   false,
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 318, col: 28, offset: 9746},
+																						pos: position{line: 318, col: 28, offset: 9739},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 318, col: 29, offset: 9747},
+																							pos:        position{line: 318, col: 29, offset: 9740},
 																							val:        "[-\\pL\\pN]",
 																							chars:      []rune{'-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14215,13 +14243,13 @@ var g = &grammar{
 																		pos:   position{line: 645, col: 13, offset: 20327},
 																		label: "name",
 																		expr: &actionExpr{
-																			pos: position{line: 318, col: 18, offset: 9736},
+																			pos: position{line: 318, col: 18, offset: 9729},
 																			run: (*parser).callonDoubleQuotedAttributeValueContent20,
 																			expr: &seqExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 318, col: 18, offset: 9729},
 																				exprs: []interface{}{
 																					&charClassMatcher{
-																						pos:        position{line: 318, col: 18, offset: 9736},
+																						pos:        position{line: 318, col: 18, offset: 9729},
 																						val:        "[_\\pL\\pN]",
 																						chars:      []rune{'_'},
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14229,9 +14257,9 @@ var g = &grammar{
 																						inverted:   false,
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 318, col: 28, offset: 9746},
+																						pos: position{line: 318, col: 28, offset: 9739},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 318, col: 29, offset: 9747},
+																							pos:        position{line: 318, col: 29, offset: 9740},
 																							val:        "[-\\pL\\pN]",
 																							chars:      []rune{'-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14268,13 +14296,13 @@ var g = &grammar{
 																		pos:   position{line: 652, col: 9, offset: 20591},
 																		label: "name",
 																		expr: &actionExpr{
-																			pos: position{line: 318, col: 18, offset: 9736},
+																			pos: position{line: 318, col: 18, offset: 9729},
 																			run: (*parser).callonDoubleQuotedAttributeValueContent30,
 																			expr: &seqExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 318, col: 18, offset: 9729},
 																				exprs: []interface{}{
 																					&charClassMatcher{
-																						pos:        position{line: 318, col: 18, offset: 9736},
+																						pos:        position{line: 318, col: 18, offset: 9729},
 																						val:        "[_\\pL\\pN]",
 																						chars:      []rune{'_'},
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14282,9 +14310,9 @@ var g = &grammar{
 																						inverted:   false,
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 318, col: 28, offset: 9746},
+																						pos: position{line: 318, col: 28, offset: 9739},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 318, col: 29, offset: 9747},
+																							pos:        position{line: 318, col: 29, offset: 9740},
 																							val:        "[-\\pL\\pN]",
 																							chars:      []rune{'-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14321,13 +14349,13 @@ var g = &grammar{
 																		pos:   position{line: 658, col: 37, offset: 20803},
 																		label: "name",
 																		expr: &actionExpr{
-																			pos: position{line: 318, col: 18, offset: 9736},
+																			pos: position{line: 318, col: 18, offset: 9729},
 																			run: (*parser).callonDoubleQuotedAttributeValueContent40,
 																			expr: &seqExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 318, col: 18, offset: 9729},
 																				exprs: []interface{}{
 																					&charClassMatcher{
-																						pos:        position{line: 318, col: 18, offset: 9736},
+																						pos:        position{line: 318, col: 18, offset: 9729},
 																						val:        "[_\\pL\\pN]",
 																						chars:      []rune{'_'},
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14335,9 +14363,9 @@ var g = &grammar{
 																						inverted:   false,
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 318, col: 28, offset: 9746},
+																						pos: position{line: 318, col: 28, offset: 9739},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 318, col: 29, offset: 9747},
+																							pos:        position{line: 318, col: 29, offset: 9740},
 																							val:        "[-\\pL\\pN]",
 																							chars:      []rune{'-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14430,13 +14458,13 @@ var g = &grammar{
 																		pos:   position{line: 662, col: 38, offset: 20975},
 																		label: "name",
 																		expr: &actionExpr{
-																			pos: position{line: 318, col: 18, offset: 9736},
+																			pos: position{line: 318, col: 18, offset: 9729},
 																			run: (*parser).callonDoubleQuotedAttributeValueContent62,
 																			expr: &seqExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 318, col: 18, offset: 9729},
 																				exprs: []interface{}{
 																					&charClassMatcher{
-																						pos:        position{line: 318, col: 18, offset: 9736},
+																						pos:        position{line: 318, col: 18, offset: 9729},
 																						val:        "[_\\pL\\pN]",
 																						chars:      []rune{'_'},
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14444,9 +14472,9 @@ var g = &grammar{
 																						inverted:   false,
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 318, col: 28, offset: 9746},
+																						pos: position{line: 318, col: 28, offset: 9739},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 318, col: 29, offset: 9747},
+																							pos:        position{line: 318, col: 29, offset: 9740},
 																							val:        "[-\\pL\\pN]",
 																							chars:      []rune{'-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14671,13 +14699,13 @@ var g = &grammar{
 																				pos:   position{line: 645, col: 13, offset: 20327},
 																				label: "name",
 																				expr: &actionExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 318, col: 18, offset: 9729},
 																					run: (*parser).callonUnquotedAttributeValue22,
 																					expr: &seqExpr{
-																						pos: position{line: 318, col: 18, offset: 9736},
+																						pos: position{line: 318, col: 18, offset: 9729},
 																						exprs: []interface{}{
 																							&charClassMatcher{
-																								pos:        position{line: 318, col: 18, offset: 9736},
+																								pos:        position{line: 318, col: 18, offset: 9729},
 																								val:        "[_\\pL\\pN]",
 																								chars:      []rune{'_'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14685,9 +14713,9 @@ var g = &grammar{
 																								inverted:   false,
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 318, col: 28, offset: 9746},
+																								pos: position{line: 318, col: 28, offset: 9739},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 318, col: 29, offset: 9747},
+																									pos:        position{line: 318, col: 29, offset: 9740},
 																									val:        "[-\\pL\\pN]",
 																									chars:      []rune{'-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14724,13 +14752,13 @@ var g = &grammar{
 																				pos:   position{line: 652, col: 9, offset: 20591},
 																				label: "name",
 																				expr: &actionExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 318, col: 18, offset: 9729},
 																					run: (*parser).callonUnquotedAttributeValue32,
 																					expr: &seqExpr{
-																						pos: position{line: 318, col: 18, offset: 9736},
+																						pos: position{line: 318, col: 18, offset: 9729},
 																						exprs: []interface{}{
 																							&charClassMatcher{
-																								pos:        position{line: 318, col: 18, offset: 9736},
+																								pos:        position{line: 318, col: 18, offset: 9729},
 																								val:        "[_\\pL\\pN]",
 																								chars:      []rune{'_'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14738,9 +14766,9 @@ var g = &grammar{
 																								inverted:   false,
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 318, col: 28, offset: 9746},
+																								pos: position{line: 318, col: 28, offset: 9739},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 318, col: 29, offset: 9747},
+																									pos:        position{line: 318, col: 29, offset: 9740},
 																									val:        "[-\\pL\\pN]",
 																									chars:      []rune{'-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14777,13 +14805,13 @@ var g = &grammar{
 																				pos:   position{line: 658, col: 37, offset: 20803},
 																				label: "name",
 																				expr: &actionExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 318, col: 18, offset: 9729},
 																					run: (*parser).callonUnquotedAttributeValue42,
 																					expr: &seqExpr{
-																						pos: position{line: 318, col: 18, offset: 9736},
+																						pos: position{line: 318, col: 18, offset: 9729},
 																						exprs: []interface{}{
 																							&charClassMatcher{
-																								pos:        position{line: 318, col: 18, offset: 9736},
+																								pos:        position{line: 318, col: 18, offset: 9729},
 																								val:        "[_\\pL\\pN]",
 																								chars:      []rune{'_'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14791,9 +14819,9 @@ var g = &grammar{
 																								inverted:   false,
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 318, col: 28, offset: 9746},
+																								pos: position{line: 318, col: 28, offset: 9739},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 318, col: 29, offset: 9747},
+																									pos:        position{line: 318, col: 29, offset: 9740},
 																									val:        "[-\\pL\\pN]",
 																									chars:      []rune{'-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14886,13 +14914,13 @@ var g = &grammar{
 																				pos:   position{line: 662, col: 38, offset: 20975},
 																				label: "name",
 																				expr: &actionExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 318, col: 18, offset: 9729},
 																					run: (*parser).callonUnquotedAttributeValue64,
 																					expr: &seqExpr{
-																						pos: position{line: 318, col: 18, offset: 9736},
+																						pos: position{line: 318, col: 18, offset: 9729},
 																						exprs: []interface{}{
 																							&charClassMatcher{
-																								pos:        position{line: 318, col: 18, offset: 9736},
+																								pos:        position{line: 318, col: 18, offset: 9729},
 																								val:        "[_\\pL\\pN]",
 																								chars:      []rune{'_'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14900,9 +14928,9 @@ var g = &grammar{
 																								inverted:   false,
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 318, col: 28, offset: 9746},
+																								pos: position{line: 318, col: 28, offset: 9739},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 318, col: 29, offset: 9747},
+																									pos:        position{line: 318, col: 29, offset: 9740},
 																									val:        "[-\\pL\\pN]",
 																									chars:      []rune{'-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15132,13 +15160,13 @@ var g = &grammar{
 																pos:   position{line: 645, col: 13, offset: 20327},
 																label: "name",
 																expr: &actionExpr{
-																	pos: position{line: 318, col: 18, offset: 9736},
+																	pos: position{line: 318, col: 18, offset: 9729},
 																	run: (*parser).callonCrossReference26,
 																	expr: &seqExpr{
-																		pos: position{line: 318, col: 18, offset: 9736},
+																		pos: position{line: 318, col: 18, offset: 9729},
 																		exprs: []interface{}{
 																			&charClassMatcher{
-																				pos:        position{line: 318, col: 18, offset: 9736},
+																				pos:        position{line: 318, col: 18, offset: 9729},
 																				val:        "[_\\pL\\pN]",
 																				chars:      []rune{'_'},
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15146,9 +15174,9 @@ var g = &grammar{
 																				inverted:   false,
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 318, col: 28, offset: 9746},
+																				pos: position{line: 318, col: 28, offset: 9739},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 318, col: 29, offset: 9747},
+																					pos:        position{line: 318, col: 29, offset: 9740},
 																					val:        "[-\\pL\\pN]",
 																					chars:      []rune{'-'},
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15185,13 +15213,13 @@ var g = &grammar{
 																pos:   position{line: 652, col: 9, offset: 20591},
 																label: "name",
 																expr: &actionExpr{
-																	pos: position{line: 318, col: 18, offset: 9736},
+																	pos: position{line: 318, col: 18, offset: 9729},
 																	run: (*parser).callonCrossReference36,
 																	expr: &seqExpr{
-																		pos: position{line: 318, col: 18, offset: 9736},
+																		pos: position{line: 318, col: 18, offset: 9729},
 																		exprs: []interface{}{
 																			&charClassMatcher{
-																				pos:        position{line: 318, col: 18, offset: 9736},
+																				pos:        position{line: 318, col: 18, offset: 9729},
 																				val:        "[_\\pL\\pN]",
 																				chars:      []rune{'_'},
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15199,9 +15227,9 @@ var g = &grammar{
 																				inverted:   false,
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 318, col: 28, offset: 9746},
+																				pos: position{line: 318, col: 28, offset: 9739},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 318, col: 29, offset: 9747},
+																					pos:        position{line: 318, col: 29, offset: 9740},
 																					val:        "[-\\pL\\pN]",
 																					chars:      []rune{'-'},
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15429,13 +15457,13 @@ var g = &grammar{
 																								pos:   position{line: 645, col: 13, offset: 20327},
 																								label: "name",
 																								expr: &actionExpr{
-																									pos: position{line: 318, col: 18, offset: 9736},
+																									pos: position{line: 318, col: 18, offset: 9729},
 																									run: (*parser).callonExternalCrossReference36,
 																									expr: &seqExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
+																										pos: position{line: 318, col: 18, offset: 9729},
 																										exprs: []interface{}{
 																											&charClassMatcher{
-																												pos:        position{line: 318, col: 18, offset: 9736},
+																												pos:        position{line: 318, col: 18, offset: 9729},
 																												val:        "[_\\pL\\pN]",
 																												chars:      []rune{'_'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15443,9 +15471,9 @@ var g = &grammar{
 																												inverted:   false,
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 318, col: 28, offset: 9746},
+																												pos: position{line: 318, col: 28, offset: 9739},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 318, col: 29, offset: 9747},
+																													pos:        position{line: 318, col: 29, offset: 9740},
 																													val:        "[-\\pL\\pN]",
 																													chars:      []rune{'-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15482,13 +15510,13 @@ var g = &grammar{
 																								pos:   position{line: 652, col: 9, offset: 20591},
 																								label: "name",
 																								expr: &actionExpr{
-																									pos: position{line: 318, col: 18, offset: 9736},
+																									pos: position{line: 318, col: 18, offset: 9729},
 																									run: (*parser).callonExternalCrossReference46,
 																									expr: &seqExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
+																										pos: position{line: 318, col: 18, offset: 9729},
 																										exprs: []interface{}{
 																											&charClassMatcher{
-																												pos:        position{line: 318, col: 18, offset: 9736},
+																												pos:        position{line: 318, col: 18, offset: 9729},
 																												val:        "[_\\pL\\pN]",
 																												chars:      []rune{'_'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15496,9 +15524,9 @@ var g = &grammar{
 																												inverted:   false,
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 318, col: 28, offset: 9746},
+																												pos: position{line: 318, col: 28, offset: 9739},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 318, col: 29, offset: 9747},
+																													pos:        position{line: 318, col: 29, offset: 9740},
 																													val:        "[-\\pL\\pN]",
 																													chars:      []rune{'-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15535,13 +15563,13 @@ var g = &grammar{
 																								pos:   position{line: 658, col: 37, offset: 20803},
 																								label: "name",
 																								expr: &actionExpr{
-																									pos: position{line: 318, col: 18, offset: 9736},
+																									pos: position{line: 318, col: 18, offset: 9729},
 																									run: (*parser).callonExternalCrossReference56,
 																									expr: &seqExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
+																										pos: position{line: 318, col: 18, offset: 9729},
 																										exprs: []interface{}{
 																											&charClassMatcher{
-																												pos:        position{line: 318, col: 18, offset: 9736},
+																												pos:        position{line: 318, col: 18, offset: 9729},
 																												val:        "[_\\pL\\pN]",
 																												chars:      []rune{'_'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15549,9 +15577,9 @@ var g = &grammar{
 																												inverted:   false,
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 318, col: 28, offset: 9746},
+																												pos: position{line: 318, col: 28, offset: 9739},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 318, col: 29, offset: 9747},
+																													pos:        position{line: 318, col: 29, offset: 9740},
 																													val:        "[-\\pL\\pN]",
 																													chars:      []rune{'-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15644,13 +15672,13 @@ var g = &grammar{
 																								pos:   position{line: 662, col: 38, offset: 20975},
 																								label: "name",
 																								expr: &actionExpr{
-																									pos: position{line: 318, col: 18, offset: 9736},
+																									pos: position{line: 318, col: 18, offset: 9729},
 																									run: (*parser).callonExternalCrossReference78,
 																									expr: &seqExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
+																										pos: position{line: 318, col: 18, offset: 9729},
 																										exprs: []interface{}{
 																											&charClassMatcher{
-																												pos:        position{line: 318, col: 18, offset: 9736},
+																												pos:        position{line: 318, col: 18, offset: 9729},
 																												val:        "[_\\pL\\pN]",
 																												chars:      []rune{'_'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15658,9 +15686,9 @@ var g = &grammar{
 																												inverted:   false,
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 318, col: 28, offset: 9746},
+																												pos: position{line: 318, col: 28, offset: 9739},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 318, col: 29, offset: 9747},
+																													pos:        position{line: 318, col: 29, offset: 9740},
 																													val:        "[-\\pL\\pN]",
 																													chars:      []rune{'-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -18013,13 +18041,13 @@ var g = &grammar{
 														pos:   position{line: 360, col: 24, offset: 10915},
 														label: "name",
 														expr: &actionExpr{
-															pos: position{line: 318, col: 18, offset: 9736},
+															pos: position{line: 318, col: 18, offset: 9729},
 															run: (*parser).callonDocumentHeader475,
 															expr: &seqExpr{
-																pos: position{line: 318, col: 18, offset: 9736},
+																pos: position{line: 318, col: 18, offset: 9729},
 																exprs: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 318, col: 18, offset: 9736},
+																		pos:        position{line: 318, col: 18, offset: 9729},
 																		val:        "[_\\pL\\pN]",
 																		chars:      []rune{'_'},
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -18027,9 +18055,9 @@ var g = &grammar{
 																		inverted:   false,
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 318, col: 28, offset: 9746},
+																		pos: position{line: 318, col: 28, offset: 9739},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 318, col: 29, offset: 9747},
+																			pos:        position{line: 318, col: 29, offset: 9740},
 																			val:        "[-\\pL\\pN]",
 																			chars:      []rune{'-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -18118,13 +18146,13 @@ var g = &grammar{
 														pos:   position{line: 362, col: 13, offset: 11035},
 														label: "name",
 														expr: &actionExpr{
-															pos: position{line: 318, col: 18, offset: 9736},
+															pos: position{line: 318, col: 18, offset: 9729},
 															run: (*parser).callonDocumentHeader496,
 															expr: &seqExpr{
-																pos: position{line: 318, col: 18, offset: 9736},
+																pos: position{line: 318, col: 18, offset: 9729},
 																exprs: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 318, col: 18, offset: 9736},
+																		pos:        position{line: 318, col: 18, offset: 9729},
 																		val:        "[_\\pL\\pN]",
 																		chars:      []rune{'_'},
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -18132,9 +18160,9 @@ var g = &grammar{
 																		inverted:   false,
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 318, col: 28, offset: 9746},
+																		pos: position{line: 318, col: 28, offset: 9739},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 318, col: 29, offset: 9747},
+																			pos:        position{line: 318, col: 29, offset: 9740},
 																			val:        "[-\\pL\\pN]",
 																			chars:      []rune{'-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -19321,13 +19349,13 @@ var g = &grammar{
 																										pos:   position{line: 645, col: 13, offset: 20327},
 																										label: "name",
 																										expr: &actionExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 318, col: 18, offset: 9729},
 																											run: (*parser).callonImageBlock46,
 																											expr: &seqExpr{
-																												pos: position{line: 318, col: 18, offset: 9736},
+																												pos: position{line: 318, col: 18, offset: 9729},
 																												exprs: []interface{}{
 																													&charClassMatcher{
-																														pos:        position{line: 318, col: 18, offset: 9736},
+																														pos:        position{line: 318, col: 18, offset: 9729},
 																														val:        "[_\\pL\\pN]",
 																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -19335,9 +19363,9 @@ var g = &grammar{
 																														inverted:   false,
 																													},
 																													&zeroOrMoreExpr{
-																														pos: position{line: 318, col: 28, offset: 9746},
+																														pos: position{line: 318, col: 28, offset: 9739},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9747},
+																															pos:        position{line: 318, col: 29, offset: 9740},
 																															val:        "[-\\pL\\pN]",
 																															chars:      []rune{'-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -19374,13 +19402,13 @@ var g = &grammar{
 																										pos:   position{line: 652, col: 9, offset: 20591},
 																										label: "name",
 																										expr: &actionExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 318, col: 18, offset: 9729},
 																											run: (*parser).callonImageBlock56,
 																											expr: &seqExpr{
-																												pos: position{line: 318, col: 18, offset: 9736},
+																												pos: position{line: 318, col: 18, offset: 9729},
 																												exprs: []interface{}{
 																													&charClassMatcher{
-																														pos:        position{line: 318, col: 18, offset: 9736},
+																														pos:        position{line: 318, col: 18, offset: 9729},
 																														val:        "[_\\pL\\pN]",
 																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -19388,9 +19416,9 @@ var g = &grammar{
 																														inverted:   false,
 																													},
 																													&zeroOrMoreExpr{
-																														pos: position{line: 318, col: 28, offset: 9746},
+																														pos: position{line: 318, col: 28, offset: 9739},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9747},
+																															pos:        position{line: 318, col: 29, offset: 9740},
 																															val:        "[-\\pL\\pN]",
 																															chars:      []rune{'-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -19427,13 +19455,13 @@ var g = &grammar{
 																										pos:   position{line: 658, col: 37, offset: 20803},
 																										label: "name",
 																										expr: &actionExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 318, col: 18, offset: 9729},
 																											run: (*parser).callonImageBlock66,
 																											expr: &seqExpr{
-																												pos: position{line: 318, col: 18, offset: 9736},
+																												pos: position{line: 318, col: 18, offset: 9729},
 																												exprs: []interface{}{
 																													&charClassMatcher{
-																														pos:        position{line: 318, col: 18, offset: 9736},
+																														pos:        position{line: 318, col: 18, offset: 9729},
 																														val:        "[_\\pL\\pN]",
 																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -19441,9 +19469,9 @@ var g = &grammar{
 																														inverted:   false,
 																													},
 																													&zeroOrMoreExpr{
-																														pos: position{line: 318, col: 28, offset: 9746},
+																														pos: position{line: 318, col: 28, offset: 9739},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9747},
+																															pos:        position{line: 318, col: 29, offset: 9740},
 																															val:        "[-\\pL\\pN]",
 																															chars:      []rune{'-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -19536,13 +19564,13 @@ var g = &grammar{
 																										pos:   position{line: 662, col: 38, offset: 20975},
 																										label: "name",
 																										expr: &actionExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 318, col: 18, offset: 9729},
 																											run: (*parser).callonImageBlock88,
 																											expr: &seqExpr{
-																												pos: position{line: 318, col: 18, offset: 9736},
+																												pos: position{line: 318, col: 18, offset: 9729},
 																												exprs: []interface{}{
 																													&charClassMatcher{
-																														pos:        position{line: 318, col: 18, offset: 9736},
+																														pos:        position{line: 318, col: 18, offset: 9729},
 																														val:        "[_\\pL\\pN]",
 																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -19550,9 +19578,9 @@ var g = &grammar{
 																														inverted:   false,
 																													},
 																													&zeroOrMoreExpr{
-																														pos: position{line: 318, col: 28, offset: 9746},
+																														pos: position{line: 318, col: 28, offset: 9739},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9747},
+																															pos:        position{line: 318, col: 29, offset: 9740},
 																															val:        "[-\\pL\\pN]",
 																															chars:      []rune{'-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -19954,13 +19982,13 @@ var g = &grammar{
 																										pos:   position{line: 645, col: 13, offset: 20327},
 																										label: "name",
 																										expr: &actionExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 318, col: 18, offset: 9729},
 																											run: (*parser).callonInlineImage48,
 																											expr: &seqExpr{
-																												pos: position{line: 318, col: 18, offset: 9736},
+																												pos: position{line: 318, col: 18, offset: 9729},
 																												exprs: []interface{}{
 																													&charClassMatcher{
-																														pos:        position{line: 318, col: 18, offset: 9736},
+																														pos:        position{line: 318, col: 18, offset: 9729},
 																														val:        "[_\\pL\\pN]",
 																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -19968,9 +19996,9 @@ var g = &grammar{
 																														inverted:   false,
 																													},
 																													&zeroOrMoreExpr{
-																														pos: position{line: 318, col: 28, offset: 9746},
+																														pos: position{line: 318, col: 28, offset: 9739},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9747},
+																															pos:        position{line: 318, col: 29, offset: 9740},
 																															val:        "[-\\pL\\pN]",
 																															chars:      []rune{'-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20007,13 +20035,13 @@ var g = &grammar{
 																										pos:   position{line: 652, col: 9, offset: 20591},
 																										label: "name",
 																										expr: &actionExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 318, col: 18, offset: 9729},
 																											run: (*parser).callonInlineImage58,
 																											expr: &seqExpr{
-																												pos: position{line: 318, col: 18, offset: 9736},
+																												pos: position{line: 318, col: 18, offset: 9729},
 																												exprs: []interface{}{
 																													&charClassMatcher{
-																														pos:        position{line: 318, col: 18, offset: 9736},
+																														pos:        position{line: 318, col: 18, offset: 9729},
 																														val:        "[_\\pL\\pN]",
 																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20021,9 +20049,9 @@ var g = &grammar{
 																														inverted:   false,
 																													},
 																													&zeroOrMoreExpr{
-																														pos: position{line: 318, col: 28, offset: 9746},
+																														pos: position{line: 318, col: 28, offset: 9739},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9747},
+																															pos:        position{line: 318, col: 29, offset: 9740},
 																															val:        "[-\\pL\\pN]",
 																															chars:      []rune{'-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20060,13 +20088,13 @@ var g = &grammar{
 																										pos:   position{line: 658, col: 37, offset: 20803},
 																										label: "name",
 																										expr: &actionExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 318, col: 18, offset: 9729},
 																											run: (*parser).callonInlineImage68,
 																											expr: &seqExpr{
-																												pos: position{line: 318, col: 18, offset: 9736},
+																												pos: position{line: 318, col: 18, offset: 9729},
 																												exprs: []interface{}{
 																													&charClassMatcher{
-																														pos:        position{line: 318, col: 18, offset: 9736},
+																														pos:        position{line: 318, col: 18, offset: 9729},
 																														val:        "[_\\pL\\pN]",
 																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20074,9 +20102,9 @@ var g = &grammar{
 																														inverted:   false,
 																													},
 																													&zeroOrMoreExpr{
-																														pos: position{line: 318, col: 28, offset: 9746},
+																														pos: position{line: 318, col: 28, offset: 9739},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9747},
+																															pos:        position{line: 318, col: 29, offset: 9740},
 																															val:        "[-\\pL\\pN]",
 																															chars:      []rune{'-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20169,13 +20197,13 @@ var g = &grammar{
 																										pos:   position{line: 662, col: 38, offset: 20975},
 																										label: "name",
 																										expr: &actionExpr{
-																											pos: position{line: 318, col: 18, offset: 9736},
+																											pos: position{line: 318, col: 18, offset: 9729},
 																											run: (*parser).callonInlineImage90,
 																											expr: &seqExpr{
-																												pos: position{line: 318, col: 18, offset: 9736},
+																												pos: position{line: 318, col: 18, offset: 9729},
 																												exprs: []interface{}{
 																													&charClassMatcher{
-																														pos:        position{line: 318, col: 18, offset: 9736},
+																														pos:        position{line: 318, col: 18, offset: 9729},
 																														val:        "[_\\pL\\pN]",
 																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20183,9 +20211,9 @@ var g = &grammar{
 																														inverted:   false,
 																													},
 																													&zeroOrMoreExpr{
-																														pos: position{line: 318, col: 28, offset: 9746},
+																														pos: position{line: 318, col: 28, offset: 9739},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9747},
+																															pos:        position{line: 318, col: 29, offset: 9740},
 																															val:        "[-\\pL\\pN]",
 																															chars:      []rune{'-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20822,13 +20850,13 @@ var g = &grammar{
 																			pos:   position{line: 645, col: 13, offset: 20327},
 																			label: "name",
 																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 318, col: 18, offset: 9729},
 																				run: (*parser).callonFootnoteElement79,
 																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 318, col: 18, offset: 9729},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9736},
+																							pos:        position{line: 318, col: 18, offset: 9729},
 																							val:        "[_\\pL\\pN]",
 																							chars:      []rune{'_'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20836,9 +20864,9 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9746},
+																							pos: position{line: 318, col: 28, offset: 9739},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9747},
+																								pos:        position{line: 318, col: 29, offset: 9740},
 																								val:        "[-\\pL\\pN]",
 																								chars:      []rune{'-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20875,13 +20903,13 @@ var g = &grammar{
 																			pos:   position{line: 652, col: 9, offset: 20591},
 																			label: "name",
 																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 318, col: 18, offset: 9729},
 																				run: (*parser).callonFootnoteElement89,
 																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 318, col: 18, offset: 9729},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9736},
+																							pos:        position{line: 318, col: 18, offset: 9729},
 																							val:        "[_\\pL\\pN]",
 																							chars:      []rune{'_'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20889,9 +20917,9 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9746},
+																							pos: position{line: 318, col: 28, offset: 9739},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9747},
+																								pos:        position{line: 318, col: 29, offset: 9740},
 																								val:        "[-\\pL\\pN]",
 																								chars:      []rune{'-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20928,13 +20956,13 @@ var g = &grammar{
 																			pos:   position{line: 658, col: 37, offset: 20803},
 																			label: "name",
 																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 318, col: 18, offset: 9729},
 																				run: (*parser).callonFootnoteElement99,
 																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 318, col: 18, offset: 9729},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9736},
+																							pos:        position{line: 318, col: 18, offset: 9729},
 																							val:        "[_\\pL\\pN]",
 																							chars:      []rune{'_'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20942,9 +20970,9 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9746},
+																							pos: position{line: 318, col: 28, offset: 9739},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9747},
+																								pos:        position{line: 318, col: 29, offset: 9740},
 																								val:        "[-\\pL\\pN]",
 																								chars:      []rune{'-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21037,13 +21065,13 @@ var g = &grammar{
 																			pos:   position{line: 662, col: 38, offset: 20975},
 																			label: "name",
 																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 318, col: 18, offset: 9729},
 																				run: (*parser).callonFootnoteElement121,
 																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 318, col: 18, offset: 9729},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9736},
+																							pos:        position{line: 318, col: 18, offset: 9729},
 																							val:        "[_\\pL\\pN]",
 																							chars:      []rune{'_'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21051,9 +21079,9 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9746},
+																							pos: position{line: 318, col: 28, offset: 9739},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9747},
+																								pos:        position{line: 318, col: 29, offset: 9740},
 																								val:        "[-\\pL\\pN]",
 																								chars:      []rune{'-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21501,13 +21529,13 @@ var g = &grammar{
 																												pos:   position{line: 645, col: 13, offset: 20327},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 318, col: 18, offset: 9729},
 																													run: (*parser).callonLink48,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 318, col: 18, offset: 9729},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 318, col: 18, offset: 9729},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21515,9 +21543,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 318, col: 28, offset: 9739},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 318, col: 29, offset: 9740},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21554,13 +21582,13 @@ var g = &grammar{
 																												pos:   position{line: 652, col: 9, offset: 20591},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 318, col: 18, offset: 9729},
 																													run: (*parser).callonLink58,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 318, col: 18, offset: 9729},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 318, col: 18, offset: 9729},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21568,9 +21596,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 318, col: 28, offset: 9739},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 318, col: 29, offset: 9740},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21607,13 +21635,13 @@ var g = &grammar{
 																												pos:   position{line: 658, col: 37, offset: 20803},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 318, col: 18, offset: 9729},
 																													run: (*parser).callonLink68,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 318, col: 18, offset: 9729},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 318, col: 18, offset: 9729},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21621,9 +21649,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 318, col: 28, offset: 9739},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 318, col: 29, offset: 9740},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21716,13 +21744,13 @@ var g = &grammar{
 																												pos:   position{line: 662, col: 38, offset: 20975},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 318, col: 18, offset: 9729},
 																													run: (*parser).callonLink90,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 318, col: 18, offset: 9729},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 318, col: 18, offset: 9729},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21730,9 +21758,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 318, col: 28, offset: 9739},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 318, col: 29, offset: 9740},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22201,13 +22229,13 @@ var g = &grammar{
 																												pos:   position{line: 645, col: 13, offset: 20327},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 318, col: 18, offset: 9729},
 																													run: (*parser).callonRelativeLink47,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 318, col: 18, offset: 9729},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 318, col: 18, offset: 9729},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22215,9 +22243,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 318, col: 28, offset: 9739},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 318, col: 29, offset: 9740},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22254,13 +22282,13 @@ var g = &grammar{
 																												pos:   position{line: 652, col: 9, offset: 20591},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 318, col: 18, offset: 9729},
 																													run: (*parser).callonRelativeLink57,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 318, col: 18, offset: 9729},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 318, col: 18, offset: 9729},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22268,9 +22296,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 318, col: 28, offset: 9739},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 318, col: 29, offset: 9740},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22307,13 +22335,13 @@ var g = &grammar{
 																												pos:   position{line: 658, col: 37, offset: 20803},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 318, col: 18, offset: 9729},
 																													run: (*parser).callonRelativeLink67,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 318, col: 18, offset: 9729},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 318, col: 18, offset: 9729},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22321,9 +22349,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 318, col: 28, offset: 9739},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 318, col: 29, offset: 9740},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22416,13 +22444,13 @@ var g = &grammar{
 																												pos:   position{line: 662, col: 38, offset: 20975},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 318, col: 18, offset: 9729},
 																													run: (*parser).callonRelativeLink89,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 318, col: 18, offset: 9729},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 318, col: 18, offset: 9729},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22430,9 +22458,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 318, col: 28, offset: 9739},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 318, col: 29, offset: 9740},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22769,13 +22797,13 @@ var g = &grammar{
 																												pos:   position{line: 645, col: 13, offset: 20327},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 318, col: 18, offset: 9729},
 																													run: (*parser).callonRelativeLink164,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 318, col: 18, offset: 9729},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 318, col: 18, offset: 9729},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22783,9 +22811,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 318, col: 28, offset: 9739},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 318, col: 29, offset: 9740},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22822,13 +22850,13 @@ var g = &grammar{
 																												pos:   position{line: 652, col: 9, offset: 20591},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 318, col: 18, offset: 9729},
 																													run: (*parser).callonRelativeLink174,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 318, col: 18, offset: 9729},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 318, col: 18, offset: 9729},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22836,9 +22864,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 318, col: 28, offset: 9739},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 318, col: 29, offset: 9740},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22875,13 +22903,13 @@ var g = &grammar{
 																												pos:   position{line: 658, col: 37, offset: 20803},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 318, col: 18, offset: 9729},
 																													run: (*parser).callonRelativeLink184,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 318, col: 18, offset: 9729},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 318, col: 18, offset: 9729},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22889,9 +22917,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 318, col: 28, offset: 9739},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 318, col: 29, offset: 9740},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22984,13 +23012,13 @@ var g = &grammar{
 																												pos:   position{line: 662, col: 38, offset: 20975},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 318, col: 18, offset: 9729},
 																													run: (*parser).callonRelativeLink206,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 318, col: 18, offset: 9729},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 318, col: 18, offset: 9729},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22998,9 +23026,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 318, col: 28, offset: 9739},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 318, col: 29, offset: 9740},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23352,13 +23380,13 @@ var g = &grammar{
 																												pos:   position{line: 645, col: 13, offset: 20327},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 318, col: 18, offset: 9729},
 																													run: (*parser).callonExternalLink48,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 318, col: 18, offset: 9729},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 318, col: 18, offset: 9729},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23366,9 +23394,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 318, col: 28, offset: 9739},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 318, col: 29, offset: 9740},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23405,13 +23433,13 @@ var g = &grammar{
 																												pos:   position{line: 652, col: 9, offset: 20591},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 318, col: 18, offset: 9729},
 																													run: (*parser).callonExternalLink58,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 318, col: 18, offset: 9729},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 318, col: 18, offset: 9729},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23419,9 +23447,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 318, col: 28, offset: 9739},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 318, col: 29, offset: 9740},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23458,13 +23486,13 @@ var g = &grammar{
 																												pos:   position{line: 658, col: 37, offset: 20803},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 318, col: 18, offset: 9729},
 																													run: (*parser).callonExternalLink68,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 318, col: 18, offset: 9729},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 318, col: 18, offset: 9729},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23472,9 +23500,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 318, col: 28, offset: 9739},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 318, col: 29, offset: 9740},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23567,13 +23595,13 @@ var g = &grammar{
 																												pos:   position{line: 662, col: 38, offset: 20975},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 318, col: 18, offset: 9729},
 																													run: (*parser).callonExternalLink90,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 318, col: 18, offset: 9729},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 318, col: 18, offset: 9729},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23581,9 +23609,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 318, col: 28, offset: 9739},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 318, col: 29, offset: 9740},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23923,13 +23951,13 @@ var g = &grammar{
 																												pos:   position{line: 645, col: 13, offset: 20327},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 318, col: 18, offset: 9729},
 																													run: (*parser).callonExternalLink166,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 318, col: 18, offset: 9729},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 318, col: 18, offset: 9729},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23937,9 +23965,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 318, col: 28, offset: 9739},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 318, col: 29, offset: 9740},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23976,13 +24004,13 @@ var g = &grammar{
 																												pos:   position{line: 652, col: 9, offset: 20591},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 318, col: 18, offset: 9729},
 																													run: (*parser).callonExternalLink176,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 318, col: 18, offset: 9729},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 318, col: 18, offset: 9729},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23990,9 +24018,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 318, col: 28, offset: 9739},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 318, col: 29, offset: 9740},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -24029,13 +24057,13 @@ var g = &grammar{
 																												pos:   position{line: 658, col: 37, offset: 20803},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 318, col: 18, offset: 9729},
 																													run: (*parser).callonExternalLink186,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 318, col: 18, offset: 9729},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 318, col: 18, offset: 9729},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -24043,9 +24071,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 318, col: 28, offset: 9739},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 318, col: 29, offset: 9740},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -24138,13 +24166,13 @@ var g = &grammar{
 																												pos:   position{line: 662, col: 38, offset: 20975},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9736},
+																													pos: position{line: 318, col: 18, offset: 9729},
 																													run: (*parser).callonExternalLink208,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9736},
+																														pos: position{line: 318, col: 18, offset: 9729},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9736},
+																																pos:        position{line: 318, col: 18, offset: 9729},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -24152,9 +24180,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9746},
+																																pos: position{line: 318, col: 28, offset: 9739},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9747},
+																																	pos:        position{line: 318, col: 29, offset: 9740},
 																																	val:        "[-\\pL\\pN]",
 																																	chars:      []rune{'-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -30333,13 +30361,13 @@ var g = &grammar{
 													pos:   position{line: 360, col: 24, offset: 10915},
 													label: "name",
 													expr: &actionExpr{
-														pos: position{line: 318, col: 18, offset: 9736},
+														pos: position{line: 318, col: 18, offset: 9729},
 														run: (*parser).callonListContinuationElement252,
 														expr: &seqExpr{
-															pos: position{line: 318, col: 18, offset: 9736},
+															pos: position{line: 318, col: 18, offset: 9729},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 318, col: 18, offset: 9736},
+																	pos:        position{line: 318, col: 18, offset: 9729},
 																	val:        "[_\\pL\\pN]",
 																	chars:      []rune{'_'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -30347,9 +30375,9 @@ var g = &grammar{
 																	inverted:   false,
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 318, col: 28, offset: 9746},
+																	pos: position{line: 318, col: 28, offset: 9739},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 318, col: 29, offset: 9747},
+																		pos:        position{line: 318, col: 29, offset: 9740},
 																		val:        "[-\\pL\\pN]",
 																		chars:      []rune{'-'},
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -30438,13 +30466,13 @@ var g = &grammar{
 													pos:   position{line: 362, col: 13, offset: 11035},
 													label: "name",
 													expr: &actionExpr{
-														pos: position{line: 318, col: 18, offset: 9736},
+														pos: position{line: 318, col: 18, offset: 9729},
 														run: (*parser).callonListContinuationElement273,
 														expr: &seqExpr{
-															pos: position{line: 318, col: 18, offset: 9736},
+															pos: position{line: 318, col: 18, offset: 9729},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 318, col: 18, offset: 9736},
+																	pos:        position{line: 318, col: 18, offset: 9729},
 																	val:        "[_\\pL\\pN]",
 																	chars:      []rune{'_'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -30452,9 +30480,9 @@ var g = &grammar{
 																	inverted:   false,
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 318, col: 28, offset: 9746},
+																	pos: position{line: 318, col: 28, offset: 9739},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 318, col: 29, offset: 9747},
+																		pos:        position{line: 318, col: 29, offset: 9740},
 																		val:        "[-\\pL\\pN]",
 																		chars:      []rune{'-'},
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -40193,13 +40221,13 @@ var g = &grammar{
 															pos:   position{line: 645, col: 13, offset: 20327},
 															label: "name",
 															expr: &actionExpr{
-																pos: position{line: 318, col: 18, offset: 9736},
+																pos: position{line: 318, col: 18, offset: 9729},
 																run: (*parser).callonQuotedTextElement55,
 																expr: &seqExpr{
-																	pos: position{line: 318, col: 18, offset: 9736},
+																	pos: position{line: 318, col: 18, offset: 9729},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 318, col: 18, offset: 9736},
+																			pos:        position{line: 318, col: 18, offset: 9729},
 																			val:        "[_\\pL\\pN]",
 																			chars:      []rune{'_'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -40207,9 +40235,9 @@ var g = &grammar{
 																			inverted:   false,
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 318, col: 28, offset: 9746},
+																			pos: position{line: 318, col: 28, offset: 9739},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 318, col: 29, offset: 9747},
+																				pos:        position{line: 318, col: 29, offset: 9740},
 																				val:        "[-\\pL\\pN]",
 																				chars:      []rune{'-'},
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -40246,13 +40274,13 @@ var g = &grammar{
 															pos:   position{line: 652, col: 9, offset: 20591},
 															label: "name",
 															expr: &actionExpr{
-																pos: position{line: 318, col: 18, offset: 9736},
+																pos: position{line: 318, col: 18, offset: 9729},
 																run: (*parser).callonQuotedTextElement65,
 																expr: &seqExpr{
-																	pos: position{line: 318, col: 18, offset: 9736},
+																	pos: position{line: 318, col: 18, offset: 9729},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 318, col: 18, offset: 9736},
+																			pos:        position{line: 318, col: 18, offset: 9729},
 																			val:        "[_\\pL\\pN]",
 																			chars:      []rune{'_'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -40260,9 +40288,9 @@ var g = &grammar{
 																			inverted:   false,
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 318, col: 28, offset: 9746},
+																			pos: position{line: 318, col: 28, offset: 9739},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 318, col: 29, offset: 9747},
+																				pos:        position{line: 318, col: 29, offset: 9740},
 																				val:        "[-\\pL\\pN]",
 																				chars:      []rune{'-'},
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -40299,13 +40327,13 @@ var g = &grammar{
 															pos:   position{line: 658, col: 37, offset: 20803},
 															label: "name",
 															expr: &actionExpr{
-																pos: position{line: 318, col: 18, offset: 9736},
+																pos: position{line: 318, col: 18, offset: 9729},
 																run: (*parser).callonQuotedTextElement75,
 																expr: &seqExpr{
-																	pos: position{line: 318, col: 18, offset: 9736},
+																	pos: position{line: 318, col: 18, offset: 9729},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 318, col: 18, offset: 9736},
+																			pos:        position{line: 318, col: 18, offset: 9729},
 																			val:        "[_\\pL\\pN]",
 																			chars:      []rune{'_'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -40313,9 +40341,9 @@ var g = &grammar{
 																			inverted:   false,
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 318, col: 28, offset: 9746},
+																			pos: position{line: 318, col: 28, offset: 9739},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 318, col: 29, offset: 9747},
+																				pos:        position{line: 318, col: 29, offset: 9740},
 																				val:        "[-\\pL\\pN]",
 																				chars:      []rune{'-'},
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -40408,13 +40436,13 @@ var g = &grammar{
 															pos:   position{line: 662, col: 38, offset: 20975},
 															label: "name",
 															expr: &actionExpr{
-																pos: position{line: 318, col: 18, offset: 9736},
+																pos: position{line: 318, col: 18, offset: 9729},
 																run: (*parser).callonQuotedTextElement97,
 																expr: &seqExpr{
-																	pos: position{line: 318, col: 18, offset: 9736},
+																	pos: position{line: 318, col: 18, offset: 9729},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 318, col: 18, offset: 9736},
+																			pos:        position{line: 318, col: 18, offset: 9729},
 																			val:        "[_\\pL\\pN]",
 																			chars:      []rune{'_'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -40422,9 +40450,9 @@ var g = &grammar{
 																			inverted:   false,
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 318, col: 28, offset: 9746},
+																			pos: position{line: 318, col: 28, offset: 9739},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 318, col: 29, offset: 9747},
+																				pos:        position{line: 318, col: 29, offset: 9740},
 																				val:        "[-\\pL\\pN]",
 																				chars:      []rune{'-'},
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -43095,13 +43123,13 @@ var g = &grammar{
 																			pos:   position{line: 645, col: 13, offset: 20327},
 																			label: "name",
 																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 318, col: 18, offset: 9729},
 																				run: (*parser).callonSectionTitleElement77,
 																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 318, col: 18, offset: 9729},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9736},
+																							pos:        position{line: 318, col: 18, offset: 9729},
 																							val:        "[_\\pL\\pN]",
 																							chars:      []rune{'_'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -43109,9 +43137,9 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9746},
+																							pos: position{line: 318, col: 28, offset: 9739},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9747},
+																								pos:        position{line: 318, col: 29, offset: 9740},
 																								val:        "[-\\pL\\pN]",
 																								chars:      []rune{'-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -43148,13 +43176,13 @@ var g = &grammar{
 																			pos:   position{line: 652, col: 9, offset: 20591},
 																			label: "name",
 																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 318, col: 18, offset: 9729},
 																				run: (*parser).callonSectionTitleElement87,
 																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 318, col: 18, offset: 9729},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9736},
+																							pos:        position{line: 318, col: 18, offset: 9729},
 																							val:        "[_\\pL\\pN]",
 																							chars:      []rune{'_'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -43162,9 +43190,9 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9746},
+																							pos: position{line: 318, col: 28, offset: 9739},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9747},
+																								pos:        position{line: 318, col: 29, offset: 9740},
 																								val:        "[-\\pL\\pN]",
 																								chars:      []rune{'-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -43201,13 +43229,13 @@ var g = &grammar{
 																			pos:   position{line: 658, col: 37, offset: 20803},
 																			label: "name",
 																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 318, col: 18, offset: 9729},
 																				run: (*parser).callonSectionTitleElement97,
 																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 318, col: 18, offset: 9729},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9736},
+																							pos:        position{line: 318, col: 18, offset: 9729},
 																							val:        "[_\\pL\\pN]",
 																							chars:      []rune{'_'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -43215,9 +43243,9 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9746},
+																							pos: position{line: 318, col: 28, offset: 9739},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9747},
+																								pos:        position{line: 318, col: 29, offset: 9740},
 																								val:        "[-\\pL\\pN]",
 																								chars:      []rune{'-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -43310,13 +43338,13 @@ var g = &grammar{
 																			pos:   position{line: 662, col: 38, offset: 20975},
 																			label: "name",
 																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
+																				pos: position{line: 318, col: 18, offset: 9729},
 																				run: (*parser).callonSectionTitleElement119,
 																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 318, col: 18, offset: 9729},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9736},
+																							pos:        position{line: 318, col: 18, offset: 9729},
 																							val:        "[_\\pL\\pN]",
 																							chars:      []rune{'_'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -43324,9 +43352,9 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9746},
+																							pos: position{line: 318, col: 28, offset: 9739},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9747},
+																								pos:        position{line: 318, col: 29, offset: 9740},
 																								val:        "[-\\pL\\pN]",
 																								chars:      []rune{'-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -43572,13 +43600,13 @@ var g = &grammar{
 																																pos:   position{line: 645, col: 13, offset: 20327},
 																																label: "name",
 																																expr: &actionExpr{
-																																	pos: position{line: 318, col: 18, offset: 9736},
+																																	pos: position{line: 318, col: 18, offset: 9729},
 																																	run: (*parser).callonSectionTitleElement177,
 																																	expr: &seqExpr{
-																																		pos: position{line: 318, col: 18, offset: 9736},
+																																		pos: position{line: 318, col: 18, offset: 9729},
 																																		exprs: []interface{}{
 																																			&charClassMatcher{
-																																				pos:        position{line: 318, col: 18, offset: 9736},
+																																				pos:        position{line: 318, col: 18, offset: 9729},
 																																				val:        "[_\\pL\\pN]",
 																																				chars:      []rune{'_'},
 																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -43586,9 +43614,9 @@ var g = &grammar{
 																																				inverted:   false,
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 318, col: 28, offset: 9746},
+																																				pos: position{line: 318, col: 28, offset: 9739},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 318, col: 29, offset: 9747},
+																																					pos:        position{line: 318, col: 29, offset: 9740},
 																																					val:        "[-\\pL\\pN]",
 																																					chars:      []rune{'-'},
 																																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -43625,13 +43653,13 @@ var g = &grammar{
 																																pos:   position{line: 652, col: 9, offset: 20591},
 																																label: "name",
 																																expr: &actionExpr{
-																																	pos: position{line: 318, col: 18, offset: 9736},
+																																	pos: position{line: 318, col: 18, offset: 9729},
 																																	run: (*parser).callonSectionTitleElement187,
 																																	expr: &seqExpr{
-																																		pos: position{line: 318, col: 18, offset: 9736},
+																																		pos: position{line: 318, col: 18, offset: 9729},
 																																		exprs: []interface{}{
 																																			&charClassMatcher{
-																																				pos:        position{line: 318, col: 18, offset: 9736},
+																																				pos:        position{line: 318, col: 18, offset: 9729},
 																																				val:        "[_\\pL\\pN]",
 																																				chars:      []rune{'_'},
 																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -43639,9 +43667,9 @@ var g = &grammar{
 																																				inverted:   false,
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 318, col: 28, offset: 9746},
+																																				pos: position{line: 318, col: 28, offset: 9739},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 318, col: 29, offset: 9747},
+																																					pos:        position{line: 318, col: 29, offset: 9740},
 																																					val:        "[-\\pL\\pN]",
 																																					chars:      []rune{'-'},
 																																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -43678,13 +43706,13 @@ var g = &grammar{
 																																pos:   position{line: 658, col: 37, offset: 20803},
 																																label: "name",
 																																expr: &actionExpr{
-																																	pos: position{line: 318, col: 18, offset: 9736},
+																																	pos: position{line: 318, col: 18, offset: 9729},
 																																	run: (*parser).callonSectionTitleElement197,
 																																	expr: &seqExpr{
-																																		pos: position{line: 318, col: 18, offset: 9736},
+																																		pos: position{line: 318, col: 18, offset: 9729},
 																																		exprs: []interface{}{
 																																			&charClassMatcher{
-																																				pos:        position{line: 318, col: 18, offset: 9736},
+																																				pos:        position{line: 318, col: 18, offset: 9729},
 																																				val:        "[_\\pL\\pN]",
 																																				chars:      []rune{'_'},
 																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -43692,9 +43720,9 @@ var g = &grammar{
 																																				inverted:   false,
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 318, col: 28, offset: 9746},
+																																				pos: position{line: 318, col: 28, offset: 9739},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 318, col: 29, offset: 9747},
+																																					pos:        position{line: 318, col: 29, offset: 9740},
 																																					val:        "[-\\pL\\pN]",
 																																					chars:      []rune{'-'},
 																																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -43787,13 +43815,13 @@ var g = &grammar{
 																																pos:   position{line: 662, col: 38, offset: 20975},
 																																label: "name",
 																																expr: &actionExpr{
-																																	pos: position{line: 318, col: 18, offset: 9736},
+																																	pos: position{line: 318, col: 18, offset: 9729},
 																																	run: (*parser).callonSectionTitleElement219,
 																																	expr: &seqExpr{
-																																		pos: position{line: 318, col: 18, offset: 9736},
+																																		pos: position{line: 318, col: 18, offset: 9729},
 																																		exprs: []interface{}{
 																																			&charClassMatcher{
-																																				pos:        position{line: 318, col: 18, offset: 9736},
+																																				pos:        position{line: 318, col: 18, offset: 9729},
 																																				val:        "[_\\pL\\pN]",
 																																				chars:      []rune{'_'},
 																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -43801,9 +43829,9 @@ var g = &grammar{
 																																				inverted:   false,
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 318, col: 28, offset: 9746},
+																																				pos: position{line: 318, col: 28, offset: 9739},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 318, col: 29, offset: 9747},
+																																					pos:        position{line: 318, col: 29, offset: 9740},
 																																					val:        "[-\\pL\\pN]",
 																																					chars:      []rune{'-'},
 																																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -44376,13 +44404,13 @@ var g = &grammar{
 																								pos:   position{line: 645, col: 13, offset: 20327},
 																								label: "name",
 																								expr: &actionExpr{
-																									pos: position{line: 318, col: 18, offset: 9736},
+																									pos: position{line: 318, col: 18, offset: 9729},
 																									run: (*parser).callonNormalGroup69,
 																									expr: &seqExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
+																										pos: position{line: 318, col: 18, offset: 9729},
 																										exprs: []interface{}{
 																											&charClassMatcher{
-																												pos:        position{line: 318, col: 18, offset: 9736},
+																												pos:        position{line: 318, col: 18, offset: 9729},
 																												val:        "[_\\pL\\pN]",
 																												chars:      []rune{'_'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -44390,9 +44418,9 @@ var g = &grammar{
 																												inverted:   false,
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 318, col: 28, offset: 9746},
+																												pos: position{line: 318, col: 28, offset: 9739},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 318, col: 29, offset: 9747},
+																													pos:        position{line: 318, col: 29, offset: 9740},
 																													val:        "[-\\pL\\pN]",
 																													chars:      []rune{'-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -44429,13 +44457,13 @@ var g = &grammar{
 																								pos:   position{line: 652, col: 9, offset: 20591},
 																								label: "name",
 																								expr: &actionExpr{
-																									pos: position{line: 318, col: 18, offset: 9736},
+																									pos: position{line: 318, col: 18, offset: 9729},
 																									run: (*parser).callonNormalGroup79,
 																									expr: &seqExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
+																										pos: position{line: 318, col: 18, offset: 9729},
 																										exprs: []interface{}{
 																											&charClassMatcher{
-																												pos:        position{line: 318, col: 18, offset: 9736},
+																												pos:        position{line: 318, col: 18, offset: 9729},
 																												val:        "[_\\pL\\pN]",
 																												chars:      []rune{'_'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -44443,9 +44471,9 @@ var g = &grammar{
 																												inverted:   false,
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 318, col: 28, offset: 9746},
+																												pos: position{line: 318, col: 28, offset: 9739},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 318, col: 29, offset: 9747},
+																													pos:        position{line: 318, col: 29, offset: 9740},
 																													val:        "[-\\pL\\pN]",
 																													chars:      []rune{'-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -44482,13 +44510,13 @@ var g = &grammar{
 																								pos:   position{line: 658, col: 37, offset: 20803},
 																								label: "name",
 																								expr: &actionExpr{
-																									pos: position{line: 318, col: 18, offset: 9736},
+																									pos: position{line: 318, col: 18, offset: 9729},
 																									run: (*parser).callonNormalGroup89,
 																									expr: &seqExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
+																										pos: position{line: 318, col: 18, offset: 9729},
 																										exprs: []interface{}{
 																											&charClassMatcher{
-																												pos:        position{line: 318, col: 18, offset: 9736},
+																												pos:        position{line: 318, col: 18, offset: 9729},
 																												val:        "[_\\pL\\pN]",
 																												chars:      []rune{'_'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -44496,9 +44524,9 @@ var g = &grammar{
 																												inverted:   false,
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 318, col: 28, offset: 9746},
+																												pos: position{line: 318, col: 28, offset: 9739},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 318, col: 29, offset: 9747},
+																													pos:        position{line: 318, col: 29, offset: 9740},
 																													val:        "[-\\pL\\pN]",
 																													chars:      []rune{'-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -44591,13 +44619,13 @@ var g = &grammar{
 																								pos:   position{line: 662, col: 38, offset: 20975},
 																								label: "name",
 																								expr: &actionExpr{
-																									pos: position{line: 318, col: 18, offset: 9736},
+																									pos: position{line: 318, col: 18, offset: 9729},
 																									run: (*parser).callonNormalGroup111,
 																									expr: &seqExpr{
-																										pos: position{line: 318, col: 18, offset: 9736},
+																										pos: position{line: 318, col: 18, offset: 9729},
 																										exprs: []interface{}{
 																											&charClassMatcher{
-																												pos:        position{line: 318, col: 18, offset: 9736},
+																												pos:        position{line: 318, col: 18, offset: 9729},
 																												val:        "[_\\pL\\pN]",
 																												chars:      []rune{'_'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -44605,9 +44633,9 @@ var g = &grammar{
 																												inverted:   false,
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 318, col: 28, offset: 9746},
+																												pos: position{line: 318, col: 28, offset: 9739},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 318, col: 29, offset: 9747},
+																													pos:        position{line: 318, col: 29, offset: 9740},
 																													val:        "[-\\pL\\pN]",
 																													chars:      []rune{'-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47316,13 +47344,13 @@ var g = &grammar{
 																				pos:   position{line: 645, col: 13, offset: 20327},
 																				label: "name",
 																				expr: &actionExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 318, col: 18, offset: 9729},
 																					run: (*parser).callonFileLocation32,
 																					expr: &seqExpr{
-																						pos: position{line: 318, col: 18, offset: 9736},
+																						pos: position{line: 318, col: 18, offset: 9729},
 																						exprs: []interface{}{
 																							&charClassMatcher{
-																								pos:        position{line: 318, col: 18, offset: 9736},
+																								pos:        position{line: 318, col: 18, offset: 9729},
 																								val:        "[_\\pL\\pN]",
 																								chars:      []rune{'_'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47330,9 +47358,9 @@ var g = &grammar{
 																								inverted:   false,
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 318, col: 28, offset: 9746},
+																								pos: position{line: 318, col: 28, offset: 9739},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 318, col: 29, offset: 9747},
+																									pos:        position{line: 318, col: 29, offset: 9740},
 																									val:        "[-\\pL\\pN]",
 																									chars:      []rune{'-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47369,13 +47397,13 @@ var g = &grammar{
 																				pos:   position{line: 652, col: 9, offset: 20591},
 																				label: "name",
 																				expr: &actionExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 318, col: 18, offset: 9729},
 																					run: (*parser).callonFileLocation42,
 																					expr: &seqExpr{
-																						pos: position{line: 318, col: 18, offset: 9736},
+																						pos: position{line: 318, col: 18, offset: 9729},
 																						exprs: []interface{}{
 																							&charClassMatcher{
-																								pos:        position{line: 318, col: 18, offset: 9736},
+																								pos:        position{line: 318, col: 18, offset: 9729},
 																								val:        "[_\\pL\\pN]",
 																								chars:      []rune{'_'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47383,9 +47411,9 @@ var g = &grammar{
 																								inverted:   false,
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 318, col: 28, offset: 9746},
+																								pos: position{line: 318, col: 28, offset: 9739},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 318, col: 29, offset: 9747},
+																									pos:        position{line: 318, col: 29, offset: 9740},
 																									val:        "[-\\pL\\pN]",
 																									chars:      []rune{'-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47422,13 +47450,13 @@ var g = &grammar{
 																				pos:   position{line: 658, col: 37, offset: 20803},
 																				label: "name",
 																				expr: &actionExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 318, col: 18, offset: 9729},
 																					run: (*parser).callonFileLocation52,
 																					expr: &seqExpr{
-																						pos: position{line: 318, col: 18, offset: 9736},
+																						pos: position{line: 318, col: 18, offset: 9729},
 																						exprs: []interface{}{
 																							&charClassMatcher{
-																								pos:        position{line: 318, col: 18, offset: 9736},
+																								pos:        position{line: 318, col: 18, offset: 9729},
 																								val:        "[_\\pL\\pN]",
 																								chars:      []rune{'_'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47436,9 +47464,9 @@ var g = &grammar{
 																								inverted:   false,
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 318, col: 28, offset: 9746},
+																								pos: position{line: 318, col: 28, offset: 9739},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 318, col: 29, offset: 9747},
+																									pos:        position{line: 318, col: 29, offset: 9740},
 																									val:        "[-\\pL\\pN]",
 																									chars:      []rune{'-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47531,13 +47559,13 @@ var g = &grammar{
 																				pos:   position{line: 662, col: 38, offset: 20975},
 																				label: "name",
 																				expr: &actionExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
+																					pos: position{line: 318, col: 18, offset: 9729},
 																					run: (*parser).callonFileLocation74,
 																					expr: &seqExpr{
-																						pos: position{line: 318, col: 18, offset: 9736},
+																						pos: position{line: 318, col: 18, offset: 9729},
 																						exprs: []interface{}{
 																							&charClassMatcher{
-																								pos:        position{line: 318, col: 18, offset: 9736},
+																								pos:        position{line: 318, col: 18, offset: 9729},
 																								val:        "[_\\pL\\pN]",
 																								chars:      []rune{'_'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47545,9 +47573,9 @@ var g = &grammar{
 																								inverted:   false,
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 318, col: 28, offset: 9746},
+																								pos: position{line: 318, col: 28, offset: 9739},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 318, col: 29, offset: 9747},
+																									pos:        position{line: 318, col: 29, offset: 9740},
 																									val:        "[-\\pL\\pN]",
 																									chars:      []rune{'-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -53166,8 +53194,9 @@ func (p *parser) callonAttributeDeclaration13() (interface{}, error) {
 }
 
 func (c *current) onAttributeDeclaration21() (interface{}, error) {
-	// TODO: just use "\n"
+
 	return string(c.text), nil
+
 }
 
 func (p *parser) callonAttributeDeclaration21() (interface{}, error) {
@@ -53176,6 +53205,17 @@ func (p *parser) callonAttributeDeclaration21() (interface{}, error) {
 	return p.cur.onAttributeDeclaration21()
 }
 
+func (c *current) onAttributeDeclaration24() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonAttributeDeclaration24() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onAttributeDeclaration24()
+}
+
 func (c *current) onAttributeDeclaration1(name, value interface{}) (interface{}, error) {
 	return types.NewAttributeDeclaration(name.(string), value, string(c.text))
 
@@ -53187,27 +53227,39 @@ func (p *parser) callonAttributeDeclaration1() (interface{}, error) {
 	return p.cur.onAttributeDeclaration1(stack["name"], stack["value"])
 }
 
-func (c *current) onAttributeDeclarationValue10() (interface{}, error) {
+func (c *current) onAttributeDeclarationValue11() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonAttributeDeclarationValue11() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onAttributeDeclarationValue11()
+}
+
+func (c *current) onAttributeDeclarationValue13() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonAttributeDeclarationValue10() (interface{}, error) {
+func (p *parser) callonAttributeDeclarationValue13() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeDeclarationValue10()
+	return p.cur.onAttributeDeclarationValue13()
 }
 
-func (c *current) onAttributeDeclarationValue16() (interface{}, error) {
+func (c *current) onAttributeDeclarationValue19() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonAttributeDeclarationValue16() (interface{}, error) {
+func (p *parser) callonAttributeDeclarationValue19() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeDeclarationValue16()
+	return p.cur.onAttributeDeclarationValue19()
 }
 
 func (c *current) onAttributeDeclarationValue7(elements interface{}) (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index f2f7742..88a5dd0 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -307,12 +307,12 @@ AttributeDeclaration <-
             return value, nil
         }
     )? 
-    EOL
+    Space* EOL
     {
         return types.NewAttributeDeclaration(name.(string), value, string(c.text))
     }
 
-// AttributeName must be at least one character long, 
+// AttributeName has at least one char, 
 // must begin with a word character (A-Z, a-z, 0-9) or an underscore ("_") 
 // and must only contain word characters (A-Z, a-z, 0-9) and hyphens ("-").
 AttributeName <- [\pL\pN_] ([\pL\pN-])* {
@@ -322,7 +322,7 @@ AttributeName <- [\pL\pN_] ([\pL\pN-])* {
 AttributeDeclarationValue <- 
     elements:(AttributeDeclarationValueElements) 
     otherElements:(
-        "\\" Newline 
+        "\\" Space* Newline 
         Space*
         elements:(AttributeDeclarationValueElements) { 
            return elements, nil
-- 
2.43.0


From 14058dbd910802a13b724bc2baec6b840cdabba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:32 +0000
Subject: [PATCH 072/143] fix: lists with many blank lines before a list
 continuation were lost

---
 pkg/parser/document_processing_arrange_lists.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/parser/document_processing_arrange_lists.go b/pkg/parser/document_processing_arrange_lists.go
index ffaf696..947b6b4 100644
--- a/pkg/parser/document_processing_arrange_lists.go
+++ b/pkg/parser/document_processing_arrange_lists.go
@@ -187,7 +187,7 @@ func (s *listStack) parentFor(element interface{}) *types.List {
 	// 	log.Debugf("looking-up parent for %s", spew.Sdump(element))
 	// }
 	if c, ok := element.(*types.ListContinuation); ok {
-		for i := 0; i < c.Offset; i++ {
+		for i := 0; i < c.Offset && len(s.stack) > 1; i++ { // at most, up to the root list
 			s.pop()
 		}
 	}
-- 
2.43.0


From a19a422c355de6fbe91dc67d536d4ddfe51a6fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:01 +0000
Subject: [PATCH 073/143] fix: trailing white space after thematic breaks and
 languages of code blocks

---
 pkg/parser/parser.go  | 8632 +++++++++++++++++++++--------------------
 pkg/parser/parser.peg |    6 +-
 2 files changed, 4345 insertions(+), 4293 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 2848d07..4ea84b5 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -2048,8 +2048,8 @@ var g = &grammar{
 																					pos: position{line: 764, col: 14, offset: 24457},
 																					expr: &charClassMatcher{
 																						pos:        position{line: 764, col: 14, offset: 24457},
-																						val:        "[^\\r\\n` ]",
-																						chars:      []rune{'\r', '\n', '`', ' '},
+																						val:        "[^\\r\\n`\\t ]",
+																						chars:      []rune{'\r', '\n', '`', '\t', ' '},
 																						ignoreCase: false,
 																						inverted:   true,
 																					},
@@ -2201,30 +2201,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 769, col: 5, offset: 24616},
+																pos: position{line: 769, col: 5, offset: 24621},
 																run: (*parser).callonDocumentRawLine452,
 																expr: &seqExpr{
-																	pos: position{line: 769, col: 5, offset: 24616},
+																	pos: position{line: 769, col: 5, offset: 24621},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 769, col: 5, offset: 24616},
+																			pos:   position{line: 769, col: 5, offset: 24621},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 769, col: 16, offset: 24627},
+																				pos: position{line: 769, col: 16, offset: 24632},
 																				run: (*parser).callonDocumentRawLine455,
 																				expr: &seqExpr{
-																					pos: position{line: 769, col: 16, offset: 24627},
+																					pos: position{line: 769, col: 16, offset: 24632},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 769, col: 16, offset: 24627},
+																							pos:        position{line: 769, col: 16, offset: 24632},
 																							val:        "----",
 																							ignoreCase: false,
 																							want:       "\"----\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 769, col: 23, offset: 24634},
+																							pos: position{line: 769, col: 23, offset: 24639},
 																							expr: &litMatcher{
-																								pos:        position{line: 769, col: 23, offset: 24634},
+																								pos:        position{line: 769, col: 23, offset: 24639},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
@@ -2235,7 +2235,7 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 771, col: 8, offset: 24718},
+																			pos: position{line: 771, col: 8, offset: 24723},
 																			expr: &actionExpr{
 																				pos: position{line: 2852, col: 10, offset: 90239},
 																				run: (*parser).callonDocumentRawLine461,
@@ -2290,30 +2290,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 783, col: 5, offset: 25092},
+																pos: position{line: 783, col: 5, offset: 25097},
 																run: (*parser).callonDocumentRawLine471,
 																expr: &seqExpr{
-																	pos: position{line: 783, col: 5, offset: 25092},
+																	pos: position{line: 783, col: 5, offset: 25097},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 783, col: 5, offset: 25092},
+																			pos:   position{line: 783, col: 5, offset: 25097},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 783, col: 16, offset: 25103},
+																				pos: position{line: 783, col: 16, offset: 25108},
 																				run: (*parser).callonDocumentRawLine474,
 																				expr: &seqExpr{
-																					pos: position{line: 783, col: 16, offset: 25103},
+																					pos: position{line: 783, col: 16, offset: 25108},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 783, col: 16, offset: 25103},
+																							pos:        position{line: 783, col: 16, offset: 25108},
 																							val:        "....",
 																							ignoreCase: false,
 																							want:       "\"....\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 783, col: 23, offset: 25110},
+																							pos: position{line: 783, col: 23, offset: 25115},
 																							expr: &litMatcher{
-																								pos:        position{line: 783, col: 23, offset: 25110},
+																								pos:        position{line: 783, col: 23, offset: 25115},
 																								val:        ".",
 																								ignoreCase: false,
 																								want:       "\".\"",
@@ -2324,7 +2324,7 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 785, col: 8, offset: 25194},
+																			pos: position{line: 785, col: 8, offset: 25199},
 																			expr: &actionExpr{
 																				pos: position{line: 2852, col: 10, offset: 90239},
 																				run: (*parser).callonDocumentRawLine480,
@@ -2379,30 +2379,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 790, col: 5, offset: 25344},
+																pos: position{line: 790, col: 5, offset: 25349},
 																run: (*parser).callonDocumentRawLine490,
 																expr: &seqExpr{
-																	pos: position{line: 790, col: 5, offset: 25344},
+																	pos: position{line: 790, col: 5, offset: 25349},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 790, col: 5, offset: 25344},
+																			pos:   position{line: 790, col: 5, offset: 25349},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 790, col: 16, offset: 25355},
+																				pos: position{line: 790, col: 16, offset: 25360},
 																				run: (*parser).callonDocumentRawLine493,
 																				expr: &seqExpr{
-																					pos: position{line: 790, col: 16, offset: 25355},
+																					pos: position{line: 790, col: 16, offset: 25360},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 790, col: 16, offset: 25355},
+																							pos:        position{line: 790, col: 16, offset: 25360},
 																							val:        "++++",
 																							ignoreCase: false,
 																							want:       "\"++++\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 790, col: 23, offset: 25362},
+																							pos: position{line: 790, col: 23, offset: 25367},
 																							expr: &litMatcher{
-																								pos:        position{line: 790, col: 23, offset: 25362},
+																								pos:        position{line: 790, col: 23, offset: 25367},
 																								val:        "+",
 																								ignoreCase: false,
 																								want:       "\"+\"",
@@ -2413,7 +2413,7 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 792, col: 8, offset: 25446},
+																			pos: position{line: 792, col: 8, offset: 25451},
 																			expr: &actionExpr{
 																				pos: position{line: 2852, col: 10, offset: 90239},
 																				run: (*parser).callonDocumentRawLine499,
@@ -2468,30 +2468,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 797, col: 5, offset: 25594},
+																pos: position{line: 797, col: 5, offset: 25599},
 																run: (*parser).callonDocumentRawLine509,
 																expr: &seqExpr{
-																	pos: position{line: 797, col: 5, offset: 25594},
+																	pos: position{line: 797, col: 5, offset: 25599},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 797, col: 5, offset: 25594},
+																			pos:   position{line: 797, col: 5, offset: 25599},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 797, col: 16, offset: 25605},
+																				pos: position{line: 797, col: 16, offset: 25610},
 																				run: (*parser).callonDocumentRawLine512,
 																				expr: &seqExpr{
-																					pos: position{line: 797, col: 16, offset: 25605},
+																					pos: position{line: 797, col: 16, offset: 25610},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 797, col: 16, offset: 25605},
+																							pos:        position{line: 797, col: 16, offset: 25610},
 																							val:        "____",
 																							ignoreCase: false,
 																							want:       "\"____\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 797, col: 23, offset: 25612},
+																							pos: position{line: 797, col: 23, offset: 25617},
 																							expr: &litMatcher{
-																								pos:        position{line: 797, col: 23, offset: 25612},
+																								pos:        position{line: 797, col: 23, offset: 25617},
 																								val:        "_",
 																								ignoreCase: false,
 																								want:       "\"_\"",
@@ -2502,7 +2502,7 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 799, col: 8, offset: 25696},
+																			pos: position{line: 799, col: 8, offset: 25701},
 																			expr: &actionExpr{
 																				pos: position{line: 2852, col: 10, offset: 90239},
 																				run: (*parser).callonDocumentRawLine518,
@@ -2557,30 +2557,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 804, col: 5, offset: 25840},
+																pos: position{line: 804, col: 5, offset: 25845},
 																run: (*parser).callonDocumentRawLine528,
 																expr: &seqExpr{
-																	pos: position{line: 804, col: 5, offset: 25840},
+																	pos: position{line: 804, col: 5, offset: 25845},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 804, col: 5, offset: 25840},
+																			pos:   position{line: 804, col: 5, offset: 25845},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 804, col: 16, offset: 25851},
+																				pos: position{line: 804, col: 16, offset: 25856},
 																				run: (*parser).callonDocumentRawLine531,
 																				expr: &seqExpr{
-																					pos: position{line: 804, col: 16, offset: 25851},
+																					pos: position{line: 804, col: 16, offset: 25856},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 804, col: 16, offset: 25851},
+																							pos:        position{line: 804, col: 16, offset: 25856},
 																							val:        "****",
 																							ignoreCase: false,
 																							want:       "\"****\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 804, col: 23, offset: 25858},
+																							pos: position{line: 804, col: 23, offset: 25863},
 																							expr: &litMatcher{
-																								pos:        position{line: 804, col: 23, offset: 25858},
+																								pos:        position{line: 804, col: 23, offset: 25863},
 																								val:        "*",
 																								ignoreCase: false,
 																								want:       "\"*\"",
@@ -2591,7 +2591,7 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 806, col: 8, offset: 25942},
+																			pos: position{line: 806, col: 8, offset: 25947},
 																			expr: &actionExpr{
 																				pos: position{line: 2852, col: 10, offset: 90239},
 																				run: (*parser).callonDocumentRawLine537,
@@ -3198,27 +3198,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1198, col: 23, offset: 36972},
+																			pos: position{line: 1198, col: 23, offset: 36977},
 																			run: (*parser).callonFileInclusion99,
 																			expr: &seqExpr{
-																				pos: position{line: 1198, col: 23, offset: 36972},
+																				pos: position{line: 1198, col: 23, offset: 36977},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36940},
+																						pos:        position{line: 1196, col: 32, offset: 36945},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1198, col: 51, offset: 37000},
+																						pos:   position{line: 1198, col: 51, offset: 37005},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1198, col: 56, offset: 37005},
+																							pos: position{line: 1198, col: 56, offset: 37010},
 																							run: (*parser).callonFileInclusion103,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1198, col: 56, offset: 37005},
+																								pos: position{line: 1198, col: 56, offset: 37010},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1198, col: 56, offset: 37005},
+																									pos:        position{line: 1198, col: 56, offset: 37010},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -3228,7 +3228,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36940},
+																						pos:        position{line: 1196, col: 32, offset: 36945},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -4570,10 +4570,10 @@ var g = &grammar{
 											name: "Section",
 										},
 										&actionExpr{
-											pos: position{line: 820, col: 5, offset: 26324},
+											pos: position{line: 820, col: 5, offset: 26329},
 											run: (*parser).callonDocumentFragment75,
 											expr: &seqExpr{
-												pos: position{line: 820, col: 5, offset: 26324},
+												pos: position{line: 820, col: 5, offset: 26329},
 												exprs: []interface{}{
 													&actionExpr{
 														pos: position{line: 740, col: 5, offset: 23584},
@@ -4665,20 +4665,20 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 821, col: 5, offset: 26355},
+														pos:   position{line: 821, col: 5, offset: 26360},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 831, col: 5, offset: 26641},
+															pos: position{line: 831, col: 5, offset: 26646},
 															expr: &actionExpr{
-																pos: position{line: 831, col: 6, offset: 26642},
+																pos: position{line: 831, col: 6, offset: 26647},
 																run: (*parser).callonDocumentFragment98,
 																expr: &seqExpr{
-																	pos: position{line: 831, col: 6, offset: 26642},
+																	pos: position{line: 831, col: 6, offset: 26647},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 831, col: 6, offset: 26642},
+																			pos: position{line: 831, col: 6, offset: 26647},
 																			expr: &choiceExpr{
-																				pos: position{line: 828, col: 29, offset: 26584},
+																				pos: position{line: 828, col: 29, offset: 26589},
 																				alternatives: []interface{}{
 																					&actionExpr{
 																						pos: position{line: 740, col: 5, offset: 23584},
@@ -4779,13 +4779,13 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 832, col: 5, offset: 26672},
+																			pos:   position{line: 832, col: 5, offset: 26677},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26093},
 																				run: (*parser).callonDocumentFragment124,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26088},
+																					pos: position{line: 811, col: 5, offset: 26093},
 																					exprs: []interface{}{
 																						&andExpr{
 																							pos: position{line: 2869, col: 11, offset: 90573},
@@ -4794,7 +4794,7 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26163},
+																							pos:   position{line: 812, col: 5, offset: 26168},
 																							label: "content",
 																							expr: &actionExpr{
 																								pos: position{line: 2798, col: 13, offset: 88765},
@@ -4859,9 +4859,9 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 822, col: 5, offset: 26389},
+														pos: position{line: 822, col: 5, offset: 26394},
 														expr: &choiceExpr{
-															pos: position{line: 828, col: 29, offset: 26584},
+															pos: position{line: 828, col: 29, offset: 26589},
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 740, col: 5, offset: 23584},
@@ -4965,13 +4965,13 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 840, col: 5, offset: 26825},
+											pos: position{line: 840, col: 5, offset: 26830},
 											run: (*parser).callonDocumentFragment163,
 											expr: &seqExpr{
-												pos: position{line: 840, col: 5, offset: 26825},
+												pos: position{line: 840, col: 5, offset: 26830},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 840, col: 5, offset: 26825},
+														pos:   position{line: 840, col: 5, offset: 26830},
 														label: "start",
 														expr: &actionExpr{
 															pos: position{line: 747, col: 5, offset: 23832},
@@ -5064,30 +5064,30 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 841, col: 5, offset: 26864},
+														pos: position{line: 841, col: 5, offset: 26869},
 														run: (*parser).callonDocumentFragment185,
 													},
 													&labeledExpr{
-														pos:   position{line: 844, col: 5, offset: 26956},
+														pos:   position{line: 844, col: 5, offset: 26961},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 859, col: 4, offset: 27353},
+															pos: position{line: 859, col: 4, offset: 27358},
 															expr: &actionExpr{
-																pos: position{line: 859, col: 5, offset: 27354},
+																pos: position{line: 859, col: 5, offset: 27359},
 																run: (*parser).callonDocumentFragment188,
 																expr: &seqExpr{
-																	pos: position{line: 859, col: 5, offset: 27354},
+																	pos: position{line: 859, col: 5, offset: 27359},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 859, col: 5, offset: 27354},
+																			pos: position{line: 859, col: 5, offset: 27359},
 																			expr: &choiceExpr{
-																				pos: position{line: 852, col: 5, offset: 27196},
+																				pos: position{line: 852, col: 5, offset: 27201},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 852, col: 5, offset: 27196},
+																						pos: position{line: 852, col: 5, offset: 27201},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 852, col: 5, offset: 27196},
+																								pos:   position{line: 852, col: 5, offset: 27201},
 																								label: "end",
 																								expr: &actionExpr{
 																									pos: position{line: 747, col: 5, offset: 23832},
@@ -5180,7 +5180,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 853, col: 5, offset: 27227},
+																								pos: position{line: 853, col: 5, offset: 27232},
 																								run: (*parser).callonDocumentFragment213,
 																							},
 																						},
@@ -5195,13 +5195,13 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 860, col: 5, offset: 27384},
+																			pos:   position{line: 860, col: 5, offset: 27389},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26093},
 																				run: (*parser).callonDocumentFragment217,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26088},
+																					pos: position{line: 811, col: 5, offset: 26093},
 																					exprs: []interface{}{
 																						&andExpr{
 																							pos: position{line: 2869, col: 11, offset: 90573},
@@ -5210,7 +5210,7 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26163},
+																							pos:   position{line: 812, col: 5, offset: 26168},
 																							label: "content",
 																							expr: &actionExpr{
 																								pos: position{line: 2798, col: 13, offset: 88765},
@@ -5275,18 +5275,18 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 845, col: 5, offset: 26990},
+														pos:   position{line: 845, col: 5, offset: 26995},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 845, col: 9, offset: 26994},
+															pos: position{line: 845, col: 9, offset: 26999},
 															expr: &choiceExpr{
-																pos: position{line: 852, col: 5, offset: 27196},
+																pos: position{line: 852, col: 5, offset: 27201},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 852, col: 5, offset: 27196},
+																		pos: position{line: 852, col: 5, offset: 27201},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 852, col: 5, offset: 27196},
+																				pos:   position{line: 852, col: 5, offset: 27201},
 																				label: "end",
 																				expr: &actionExpr{
 																					pos: position{line: 747, col: 5, offset: 23832},
@@ -5379,7 +5379,7 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 853, col: 5, offset: 27227},
+																				pos: position{line: 853, col: 5, offset: 27232},
 																				run: (*parser).callonDocumentFragment257,
 																			},
 																		},
@@ -5398,13 +5398,13 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 952, col: 5, offset: 29676},
+											pos: position{line: 952, col: 5, offset: 29681},
 											run: (*parser).callonDocumentFragment260,
 											expr: &seqExpr{
-												pos: position{line: 952, col: 5, offset: 29676},
+												pos: position{line: 952, col: 5, offset: 29681},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 952, col: 5, offset: 29676},
+														pos:   position{line: 952, col: 5, offset: 29681},
 														label: "delimiter",
 														expr: &actionExpr{
 															pos: position{line: 760, col: 26, offset: 24320},
@@ -5428,8 +5428,8 @@ var g = &grammar{
 																				pos: position{line: 764, col: 14, offset: 24457},
 																				expr: &charClassMatcher{
 																					pos:        position{line: 764, col: 14, offset: 24457},
-																					val:        "[^\\r\\n` ]",
-																					chars:      []rune{'\r', '\n', '`', ' '},
+																					val:        "[^\\r\\n`\\t ]",
+																					chars:      []rune{'\r', '\n', '`', '\t', ' '},
 																					ignoreCase: false,
 																					inverted:   true,
 																				},
@@ -5493,29 +5493,29 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 953, col: 5, offset: 29722},
+														pos:   position{line: 953, col: 5, offset: 29727},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 966, col: 5, offset: 30195},
+															pos: position{line: 966, col: 5, offset: 30200},
 															expr: &actionExpr{
-																pos: position{line: 966, col: 6, offset: 30196},
+																pos: position{line: 966, col: 6, offset: 30201},
 																run: (*parser).callonDocumentFragment283,
 																expr: &seqExpr{
-																	pos: position{line: 966, col: 6, offset: 30196},
+																	pos: position{line: 966, col: 6, offset: 30201},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 966, col: 6, offset: 30196},
+																			pos: position{line: 966, col: 6, offset: 30201},
 																			expr: &seqExpr{
-																				pos: position{line: 963, col: 34, offset: 30143},
+																				pos: position{line: 963, col: 34, offset: 30148},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 963, col: 34, offset: 30143},
+																						pos:        position{line: 963, col: 34, offset: 30148},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 963, col: 40, offset: 30149},
+																						pos: position{line: 963, col: 40, offset: 30154},
 																						expr: &actionExpr{
 																							pos: position{line: 2852, col: 10, offset: 90239},
 																							run: (*parser).callonDocumentFragment289,
@@ -5570,13 +5570,13 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 967, col: 5, offset: 30231},
+																			pos:   position{line: 967, col: 5, offset: 30236},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26093},
 																				run: (*parser).callonDocumentFragment300,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26088},
+																					pos: position{line: 811, col: 5, offset: 26093},
 																					exprs: []interface{}{
 																						&andExpr{
 																							pos: position{line: 2869, col: 11, offset: 90573},
@@ -5585,7 +5585,7 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26163},
+																							pos:   position{line: 812, col: 5, offset: 26168},
 																							label: "content",
 																							expr: &actionExpr{
 																								pos: position{line: 2798, col: 13, offset: 88765},
@@ -5650,18 +5650,18 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 954, col: 5, offset: 29761},
+														pos: position{line: 954, col: 5, offset: 29766},
 														expr: &seqExpr{
-															pos: position{line: 963, col: 34, offset: 30143},
+															pos: position{line: 963, col: 34, offset: 30148},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 963, col: 34, offset: 30143},
+																	pos:        position{line: 963, col: 34, offset: 30148},
 																	val:        "```",
 																	ignoreCase: false,
 																	want:       "\"```\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 963, col: 40, offset: 30149},
+																	pos: position{line: 963, col: 40, offset: 30154},
 																	expr: &actionExpr{
 																		pos: position{line: 2852, col: 10, offset: 90239},
 																		run: (*parser).callonDocumentFragment320,
@@ -5719,13 +5719,13 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 868, col: 5, offset: 27537},
+											pos: position{line: 868, col: 5, offset: 27542},
 											run: (*parser).callonDocumentFragment330,
 											expr: &seqExpr{
-												pos: position{line: 868, col: 5, offset: 27537},
+												pos: position{line: 868, col: 5, offset: 27542},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 868, col: 5, offset: 27537},
+														pos:   position{line: 868, col: 5, offset: 27542},
 														label: "start",
 														expr: &actionExpr{
 															pos: position{line: 754, col: 5, offset: 24079},
@@ -5818,30 +5818,30 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 869, col: 5, offset: 27575},
+														pos: position{line: 869, col: 5, offset: 27580},
 														run: (*parser).callonDocumentFragment352,
 													},
 													&labeledExpr{
-														pos:   position{line: 872, col: 5, offset: 27667},
+														pos:   position{line: 872, col: 5, offset: 27672},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 887, col: 5, offset: 28057},
+															pos: position{line: 887, col: 5, offset: 28062},
 															expr: &actionExpr{
-																pos: position{line: 887, col: 6, offset: 28058},
+																pos: position{line: 887, col: 6, offset: 28063},
 																run: (*parser).callonDocumentFragment355,
 																expr: &seqExpr{
-																	pos: position{line: 887, col: 6, offset: 28058},
+																	pos: position{line: 887, col: 6, offset: 28063},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 887, col: 6, offset: 28058},
+																			pos: position{line: 887, col: 6, offset: 28063},
 																			expr: &choiceExpr{
-																				pos: position{line: 880, col: 5, offset: 27901},
+																				pos: position{line: 880, col: 5, offset: 27906},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 880, col: 5, offset: 27901},
+																						pos: position{line: 880, col: 5, offset: 27906},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 880, col: 5, offset: 27901},
+																								pos:   position{line: 880, col: 5, offset: 27906},
 																								label: "end",
 																								expr: &actionExpr{
 																									pos: position{line: 754, col: 5, offset: 24079},
@@ -5934,7 +5934,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 881, col: 5, offset: 27931},
+																								pos: position{line: 881, col: 5, offset: 27936},
 																								run: (*parser).callonDocumentFragment380,
 																							},
 																						},
@@ -5949,13 +5949,13 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 888, col: 5, offset: 28087},
+																			pos:   position{line: 888, col: 5, offset: 28092},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26093},
 																				run: (*parser).callonDocumentFragment384,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26088},
+																					pos: position{line: 811, col: 5, offset: 26093},
 																					exprs: []interface{}{
 																						&andExpr{
 																							pos: position{line: 2869, col: 11, offset: 90573},
@@ -5964,7 +5964,7 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26163},
+																							pos:   position{line: 812, col: 5, offset: 26168},
 																							label: "content",
 																							expr: &actionExpr{
 																								pos: position{line: 2798, col: 13, offset: 88765},
@@ -6029,18 +6029,18 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 873, col: 5, offset: 27700},
+														pos:   position{line: 873, col: 5, offset: 27705},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 873, col: 9, offset: 27704},
+															pos: position{line: 873, col: 9, offset: 27709},
 															expr: &choiceExpr{
-																pos: position{line: 880, col: 5, offset: 27901},
+																pos: position{line: 880, col: 5, offset: 27906},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 880, col: 5, offset: 27901},
+																		pos: position{line: 880, col: 5, offset: 27906},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 880, col: 5, offset: 27901},
+																				pos:   position{line: 880, col: 5, offset: 27906},
 																				label: "end",
 																				expr: &actionExpr{
 																					pos: position{line: 754, col: 5, offset: 24079},
@@ -6133,7 +6133,7 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 881, col: 5, offset: 27931},
+																				pos: position{line: 881, col: 5, offset: 27936},
 																				run: (*parser).callonDocumentFragment424,
 																			},
 																		},
@@ -6152,39 +6152,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 896, col: 5, offset: 28242},
+											pos: position{line: 896, col: 5, offset: 28247},
 											run: (*parser).callonDocumentFragment427,
 											expr: &seqExpr{
-												pos: position{line: 896, col: 5, offset: 28242},
+												pos: position{line: 896, col: 5, offset: 28247},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 896, col: 5, offset: 28242},
+														pos:   position{line: 896, col: 5, offset: 28247},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 769, col: 5, offset: 24616},
+															pos: position{line: 769, col: 5, offset: 24621},
 															run: (*parser).callonDocumentFragment430,
 															expr: &seqExpr{
-																pos: position{line: 769, col: 5, offset: 24616},
+																pos: position{line: 769, col: 5, offset: 24621},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 769, col: 5, offset: 24616},
+																		pos:   position{line: 769, col: 5, offset: 24621},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 769, col: 16, offset: 24627},
+																			pos: position{line: 769, col: 16, offset: 24632},
 																			run: (*parser).callonDocumentFragment433,
 																			expr: &seqExpr{
-																				pos: position{line: 769, col: 16, offset: 24627},
+																				pos: position{line: 769, col: 16, offset: 24632},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 769, col: 16, offset: 24627},
+																						pos:        position{line: 769, col: 16, offset: 24632},
 																						val:        "----",
 																						ignoreCase: false,
 																						want:       "\"----\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 769, col: 23, offset: 24634},
+																						pos: position{line: 769, col: 23, offset: 24639},
 																						expr: &litMatcher{
-																							pos:        position{line: 769, col: 23, offset: 24634},
+																							pos:        position{line: 769, col: 23, offset: 24639},
 																							val:        "-",
 																							ignoreCase: false,
 																							want:       "\"-\"",
@@ -6195,7 +6195,7 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 771, col: 8, offset: 24718},
+																		pos: position{line: 771, col: 8, offset: 24723},
 																		expr: &actionExpr{
 																			pos: position{line: 2852, col: 10, offset: 90239},
 																			run: (*parser).callonDocumentFragment439,
@@ -6251,56 +6251,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 897, col: 5, offset: 28281},
+														pos: position{line: 897, col: 5, offset: 28286},
 														run: (*parser).callonDocumentFragment449,
 													},
 													&labeledExpr{
-														pos:   position{line: 900, col: 5, offset: 28373},
+														pos:   position{line: 900, col: 5, offset: 28378},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 915, col: 5, offset: 28771},
+															pos: position{line: 915, col: 5, offset: 28776},
 															expr: &actionExpr{
-																pos: position{line: 915, col: 6, offset: 28772},
+																pos: position{line: 915, col: 6, offset: 28777},
 																run: (*parser).callonDocumentFragment452,
 																expr: &seqExpr{
-																	pos: position{line: 915, col: 6, offset: 28772},
+																	pos: position{line: 915, col: 6, offset: 28777},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 915, col: 6, offset: 28772},
+																			pos: position{line: 915, col: 6, offset: 28777},
 																			expr: &choiceExpr{
-																				pos: position{line: 908, col: 5, offset: 28613},
+																				pos: position{line: 908, col: 5, offset: 28618},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 908, col: 5, offset: 28613},
+																						pos: position{line: 908, col: 5, offset: 28618},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 908, col: 5, offset: 28613},
+																								pos:   position{line: 908, col: 5, offset: 28618},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 769, col: 5, offset: 24616},
+																									pos: position{line: 769, col: 5, offset: 24621},
 																									run: (*parser).callonDocumentFragment458,
 																									expr: &seqExpr{
-																										pos: position{line: 769, col: 5, offset: 24616},
+																										pos: position{line: 769, col: 5, offset: 24621},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 769, col: 5, offset: 24616},
+																												pos:   position{line: 769, col: 5, offset: 24621},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 769, col: 16, offset: 24627},
+																													pos: position{line: 769, col: 16, offset: 24632},
 																													run: (*parser).callonDocumentFragment461,
 																													expr: &seqExpr{
-																														pos: position{line: 769, col: 16, offset: 24627},
+																														pos: position{line: 769, col: 16, offset: 24632},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 769, col: 16, offset: 24627},
+																																pos:        position{line: 769, col: 16, offset: 24632},
 																																val:        "----",
 																																ignoreCase: false,
 																																want:       "\"----\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 769, col: 23, offset: 24634},
+																																pos: position{line: 769, col: 23, offset: 24639},
 																																expr: &litMatcher{
-																																	pos:        position{line: 769, col: 23, offset: 24634},
+																																	pos:        position{line: 769, col: 23, offset: 24639},
 																																	val:        "-",
 																																	ignoreCase: false,
 																																	want:       "\"-\"",
@@ -6311,7 +6311,7 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 771, col: 8, offset: 24718},
+																												pos: position{line: 771, col: 8, offset: 24723},
 																												expr: &actionExpr{
 																													pos: position{line: 2852, col: 10, offset: 90239},
 																													run: (*parser).callonDocumentFragment467,
@@ -6367,7 +6367,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 909, col: 5, offset: 28644},
+																								pos: position{line: 909, col: 5, offset: 28649},
 																								run: (*parser).callonDocumentFragment477,
 																							},
 																						},
@@ -6382,13 +6382,13 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 916, col: 5, offset: 28802},
+																			pos:   position{line: 916, col: 5, offset: 28807},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26093},
 																				run: (*parser).callonDocumentFragment481,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26088},
+																					pos: position{line: 811, col: 5, offset: 26093},
 																					exprs: []interface{}{
 																						&andExpr{
 																							pos: position{line: 2869, col: 11, offset: 90573},
@@ -6397,7 +6397,7 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26163},
+																							pos:   position{line: 812, col: 5, offset: 26168},
 																							label: "content",
 																							expr: &actionExpr{
 																								pos: position{line: 2798, col: 13, offset: 88765},
@@ -6462,44 +6462,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 901, col: 5, offset: 28407},
+														pos:   position{line: 901, col: 5, offset: 28412},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 901, col: 9, offset: 28411},
+															pos: position{line: 901, col: 9, offset: 28416},
 															expr: &choiceExpr{
-																pos: position{line: 908, col: 5, offset: 28613},
+																pos: position{line: 908, col: 5, offset: 28618},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 908, col: 5, offset: 28613},
+																		pos: position{line: 908, col: 5, offset: 28618},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 908, col: 5, offset: 28613},
+																				pos:   position{line: 908, col: 5, offset: 28618},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 769, col: 5, offset: 24616},
+																					pos: position{line: 769, col: 5, offset: 24621},
 																					run: (*parser).callonDocumentFragment502,
 																					expr: &seqExpr{
-																						pos: position{line: 769, col: 5, offset: 24616},
+																						pos: position{line: 769, col: 5, offset: 24621},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 769, col: 5, offset: 24616},
+																								pos:   position{line: 769, col: 5, offset: 24621},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 769, col: 16, offset: 24627},
+																									pos: position{line: 769, col: 16, offset: 24632},
 																									run: (*parser).callonDocumentFragment505,
 																									expr: &seqExpr{
-																										pos: position{line: 769, col: 16, offset: 24627},
+																										pos: position{line: 769, col: 16, offset: 24632},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 769, col: 16, offset: 24627},
+																												pos:        position{line: 769, col: 16, offset: 24632},
 																												val:        "----",
 																												ignoreCase: false,
 																												want:       "\"----\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 769, col: 23, offset: 24634},
+																												pos: position{line: 769, col: 23, offset: 24639},
 																												expr: &litMatcher{
-																													pos:        position{line: 769, col: 23, offset: 24634},
+																													pos:        position{line: 769, col: 23, offset: 24639},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
@@ -6510,7 +6510,7 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 771, col: 8, offset: 24718},
+																								pos: position{line: 771, col: 8, offset: 24723},
 																								expr: &actionExpr{
 																									pos: position{line: 2852, col: 10, offset: 90239},
 																									run: (*parser).callonDocumentFragment511,
@@ -6566,7 +6566,7 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 909, col: 5, offset: 28644},
+																				pos: position{line: 909, col: 5, offset: 28649},
 																				run: (*parser).callonDocumentFragment521,
 																			},
 																		},
@@ -6585,39 +6585,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 924, col: 5, offset: 28957},
+											pos: position{line: 924, col: 5, offset: 28962},
 											run: (*parser).callonDocumentFragment524,
 											expr: &seqExpr{
-												pos: position{line: 924, col: 5, offset: 28957},
+												pos: position{line: 924, col: 5, offset: 28962},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 924, col: 5, offset: 28957},
+														pos:   position{line: 924, col: 5, offset: 28962},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 783, col: 5, offset: 25092},
+															pos: position{line: 783, col: 5, offset: 25097},
 															run: (*parser).callonDocumentFragment527,
 															expr: &seqExpr{
-																pos: position{line: 783, col: 5, offset: 25092},
+																pos: position{line: 783, col: 5, offset: 25097},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 783, col: 5, offset: 25092},
+																		pos:   position{line: 783, col: 5, offset: 25097},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 783, col: 16, offset: 25103},
+																			pos: position{line: 783, col: 16, offset: 25108},
 																			run: (*parser).callonDocumentFragment530,
 																			expr: &seqExpr{
-																				pos: position{line: 783, col: 16, offset: 25103},
+																				pos: position{line: 783, col: 16, offset: 25108},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 783, col: 16, offset: 25103},
+																						pos:        position{line: 783, col: 16, offset: 25108},
 																						val:        "....",
 																						ignoreCase: false,
 																						want:       "\"....\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 783, col: 23, offset: 25110},
+																						pos: position{line: 783, col: 23, offset: 25115},
 																						expr: &litMatcher{
-																							pos:        position{line: 783, col: 23, offset: 25110},
+																							pos:        position{line: 783, col: 23, offset: 25115},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -6628,7 +6628,7 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 785, col: 8, offset: 25194},
+																		pos: position{line: 785, col: 8, offset: 25199},
 																		expr: &actionExpr{
 																			pos: position{line: 2852, col: 10, offset: 90239},
 																			run: (*parser).callonDocumentFragment536,
@@ -6684,56 +6684,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 925, col: 5, offset: 28996},
+														pos: position{line: 925, col: 5, offset: 29001},
 														run: (*parser).callonDocumentFragment546,
 													},
 													&labeledExpr{
-														pos:   position{line: 928, col: 5, offset: 29088},
+														pos:   position{line: 928, col: 5, offset: 29093},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 943, col: 5, offset: 29486},
+															pos: position{line: 943, col: 5, offset: 29491},
 															expr: &actionExpr{
-																pos: position{line: 943, col: 6, offset: 29487},
+																pos: position{line: 943, col: 6, offset: 29492},
 																run: (*parser).callonDocumentFragment549,
 																expr: &seqExpr{
-																	pos: position{line: 943, col: 6, offset: 29487},
+																	pos: position{line: 943, col: 6, offset: 29492},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 943, col: 6, offset: 29487},
+																			pos: position{line: 943, col: 6, offset: 29492},
 																			expr: &choiceExpr{
-																				pos: position{line: 936, col: 5, offset: 29328},
+																				pos: position{line: 936, col: 5, offset: 29333},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 936, col: 5, offset: 29328},
+																						pos: position{line: 936, col: 5, offset: 29333},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 936, col: 5, offset: 29328},
+																								pos:   position{line: 936, col: 5, offset: 29333},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 783, col: 5, offset: 25092},
+																									pos: position{line: 783, col: 5, offset: 25097},
 																									run: (*parser).callonDocumentFragment555,
 																									expr: &seqExpr{
-																										pos: position{line: 783, col: 5, offset: 25092},
+																										pos: position{line: 783, col: 5, offset: 25097},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 783, col: 5, offset: 25092},
+																												pos:   position{line: 783, col: 5, offset: 25097},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 783, col: 16, offset: 25103},
+																													pos: position{line: 783, col: 16, offset: 25108},
 																													run: (*parser).callonDocumentFragment558,
 																													expr: &seqExpr{
-																														pos: position{line: 783, col: 16, offset: 25103},
+																														pos: position{line: 783, col: 16, offset: 25108},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 783, col: 16, offset: 25103},
+																																pos:        position{line: 783, col: 16, offset: 25108},
 																																val:        "....",
 																																ignoreCase: false,
 																																want:       "\"....\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 783, col: 23, offset: 25110},
+																																pos: position{line: 783, col: 23, offset: 25115},
 																																expr: &litMatcher{
-																																	pos:        position{line: 783, col: 23, offset: 25110},
+																																	pos:        position{line: 783, col: 23, offset: 25115},
 																																	val:        ".",
 																																	ignoreCase: false,
 																																	want:       "\".\"",
@@ -6744,7 +6744,7 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 785, col: 8, offset: 25194},
+																												pos: position{line: 785, col: 8, offset: 25199},
 																												expr: &actionExpr{
 																													pos: position{line: 2852, col: 10, offset: 90239},
 																													run: (*parser).callonDocumentFragment564,
@@ -6800,7 +6800,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 937, col: 5, offset: 29359},
+																								pos: position{line: 937, col: 5, offset: 29364},
 																								run: (*parser).callonDocumentFragment574,
 																							},
 																						},
@@ -6815,13 +6815,13 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 944, col: 5, offset: 29517},
+																			pos:   position{line: 944, col: 5, offset: 29522},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26093},
 																				run: (*parser).callonDocumentFragment578,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26088},
+																					pos: position{line: 811, col: 5, offset: 26093},
 																					exprs: []interface{}{
 																						&andExpr{
 																							pos: position{line: 2869, col: 11, offset: 90573},
@@ -6830,7 +6830,7 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26163},
+																							pos:   position{line: 812, col: 5, offset: 26168},
 																							label: "content",
 																							expr: &actionExpr{
 																								pos: position{line: 2798, col: 13, offset: 88765},
@@ -6895,44 +6895,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 929, col: 5, offset: 29122},
+														pos:   position{line: 929, col: 5, offset: 29127},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 929, col: 9, offset: 29126},
+															pos: position{line: 929, col: 9, offset: 29131},
 															expr: &choiceExpr{
-																pos: position{line: 936, col: 5, offset: 29328},
+																pos: position{line: 936, col: 5, offset: 29333},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 936, col: 5, offset: 29328},
+																		pos: position{line: 936, col: 5, offset: 29333},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 936, col: 5, offset: 29328},
+																				pos:   position{line: 936, col: 5, offset: 29333},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 783, col: 5, offset: 25092},
+																					pos: position{line: 783, col: 5, offset: 25097},
 																					run: (*parser).callonDocumentFragment599,
 																					expr: &seqExpr{
-																						pos: position{line: 783, col: 5, offset: 25092},
+																						pos: position{line: 783, col: 5, offset: 25097},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 783, col: 5, offset: 25092},
+																								pos:   position{line: 783, col: 5, offset: 25097},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 783, col: 16, offset: 25103},
+																									pos: position{line: 783, col: 16, offset: 25108},
 																									run: (*parser).callonDocumentFragment602,
 																									expr: &seqExpr{
-																										pos: position{line: 783, col: 16, offset: 25103},
+																										pos: position{line: 783, col: 16, offset: 25108},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 783, col: 16, offset: 25103},
+																												pos:        position{line: 783, col: 16, offset: 25108},
 																												val:        "....",
 																												ignoreCase: false,
 																												want:       "\"....\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 783, col: 23, offset: 25110},
+																												pos: position{line: 783, col: 23, offset: 25115},
 																												expr: &litMatcher{
-																													pos:        position{line: 783, col: 23, offset: 25110},
+																													pos:        position{line: 783, col: 23, offset: 25115},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -6943,7 +6943,7 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 785, col: 8, offset: 25194},
+																								pos: position{line: 785, col: 8, offset: 25199},
 																								expr: &actionExpr{
 																									pos: position{line: 2852, col: 10, offset: 90239},
 																									run: (*parser).callonDocumentFragment608,
@@ -6999,7 +6999,7 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 937, col: 5, offset: 29359},
+																				pos: position{line: 937, col: 5, offset: 29364},
 																				run: (*parser).callonDocumentFragment618,
 																			},
 																		},
@@ -7018,22 +7018,22 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 975, col: 5, offset: 30400},
+											pos: position{line: 975, col: 5, offset: 30405},
 											run: (*parser).callonDocumentFragment621,
 											expr: &seqExpr{
-												pos: position{line: 975, col: 5, offset: 30400},
+												pos: position{line: 975, col: 5, offset: 30405},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 975, col: 5, offset: 30400},
+														pos:   position{line: 975, col: 5, offset: 30405},
 														label: "firstLine",
 														expr: &actionExpr{
-															pos: position{line: 982, col: 5, offset: 30659},
+															pos: position{line: 982, col: 5, offset: 30664},
 															run: (*parser).callonDocumentFragment624,
 															expr: &seqExpr{
-																pos: position{line: 982, col: 5, offset: 30659},
+																pos: position{line: 982, col: 5, offset: 30664},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 982, col: 5, offset: 30659},
+																		pos: position{line: 982, col: 5, offset: 30664},
 																		expr: &actionExpr{
 																			pos: position{line: 677, col: 14, offset: 21489},
 																			run: (*parser).callonDocumentFragment627,
@@ -7103,13 +7103,13 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 983, col: 5, offset: 30674},
+																		pos:        position{line: 983, col: 5, offset: 30679},
 																		val:        "> ",
 																		ignoreCase: false,
 																		want:       "\"> \"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 984, col: 5, offset: 30684},
+																		pos:   position{line: 984, col: 5, offset: 30689},
 																		label: "content",
 																		expr: &actionExpr{
 																			pos: position{line: 2802, col: 14, offset: 88832},
@@ -7169,21 +7169,21 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 976, col: 5, offset: 30437},
+														pos:   position{line: 976, col: 5, offset: 30442},
 														label: "otherLines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 976, col: 16, offset: 30448},
+															pos: position{line: 976, col: 16, offset: 30453},
 															expr: &choiceExpr{
-																pos: position{line: 976, col: 17, offset: 30449},
+																pos: position{line: 976, col: 17, offset: 30454},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 982, col: 5, offset: 30659},
+																		pos: position{line: 982, col: 5, offset: 30664},
 																		run: (*parser).callonDocumentFragment658,
 																		expr: &seqExpr{
-																			pos: position{line: 982, col: 5, offset: 30659},
+																			pos: position{line: 982, col: 5, offset: 30664},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 982, col: 5, offset: 30659},
+																					pos: position{line: 982, col: 5, offset: 30664},
 																					expr: &actionExpr{
 																						pos: position{line: 677, col: 14, offset: 21489},
 																						run: (*parser).callonDocumentFragment661,
@@ -7253,13 +7253,13 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 983, col: 5, offset: 30674},
+																					pos:        position{line: 983, col: 5, offset: 30679},
 																					val:        "> ",
 																					ignoreCase: false,
 																					want:       "\"> \"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 984, col: 5, offset: 30684},
+																					pos:   position{line: 984, col: 5, offset: 30689},
 																					label: "content",
 																					expr: &actionExpr{
 																						pos: position{line: 2802, col: 14, offset: 88832},
@@ -7318,13 +7318,13 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 1784, col: 5, offset: 57605},
+																		pos: position{line: 1784, col: 5, offset: 57610},
 																		run: (*parser).callonDocumentFragment689,
 																		expr: &seqExpr{
-																			pos: position{line: 1784, col: 5, offset: 57605},
+																			pos: position{line: 1784, col: 5, offset: 57610},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1784, col: 5, offset: 57605},
+																					pos:   position{line: 1784, col: 5, offset: 57610},
 																					label: "content",
 																					expr: &actionExpr{
 																						pos: position{line: 2802, col: 14, offset: 88832},
@@ -7342,7 +7342,7 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1785, col: 5, offset: 57629},
+																					pos: position{line: 1785, col: 5, offset: 57634},
 																					run: (*parser).callonDocumentFragment695,
 																				},
 																				&choiceExpr{
@@ -7394,28 +7394,28 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 997, col: 5, offset: 30949},
+											pos: position{line: 997, col: 5, offset: 30954},
 											run: (*parser).callonDocumentFragment704,
 											expr: &seqExpr{
-												pos: position{line: 997, col: 5, offset: 30949},
+												pos: position{line: 997, col: 5, offset: 30954},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 997, col: 5, offset: 30949},
+														pos:   position{line: 997, col: 5, offset: 30954},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 776, col: 5, offset: 24861},
+															pos: position{line: 776, col: 5, offset: 24866},
 															run: (*parser).callonDocumentFragment707,
 															expr: &seqExpr{
-																pos: position{line: 776, col: 5, offset: 24861},
+																pos: position{line: 776, col: 5, offset: 24866},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 776, col: 5, offset: 24861},
+																		pos:   position{line: 776, col: 5, offset: 24866},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 776, col: 16, offset: 24872},
+																			pos: position{line: 776, col: 16, offset: 24877},
 																			run: (*parser).callonDocumentFragment710,
 																			expr: &litMatcher{
-																				pos:        position{line: 776, col: 16, offset: 24872},
+																				pos:        position{line: 776, col: 16, offset: 24877},
 																				val:        "--",
 																				ignoreCase: false,
 																				want:       "\"--\"",
@@ -7423,7 +7423,7 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 778, col: 8, offset: 24949},
+																		pos: position{line: 778, col: 8, offset: 24954},
 																		expr: &actionExpr{
 																			pos: position{line: 2852, col: 10, offset: 90239},
 																			run: (*parser).callonDocumentFragment713,
@@ -7479,35 +7479,35 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 998, col: 5, offset: 30985},
+														pos:   position{line: 998, col: 5, offset: 30990},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1008, col: 5, offset: 31253},
+															pos: position{line: 1008, col: 5, offset: 31258},
 															expr: &actionExpr{
-																pos: position{line: 1008, col: 6, offset: 31254},
+																pos: position{line: 1008, col: 6, offset: 31259},
 																run: (*parser).callonDocumentFragment725,
 																expr: &seqExpr{
-																	pos: position{line: 1008, col: 6, offset: 31254},
+																	pos: position{line: 1008, col: 6, offset: 31259},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1008, col: 6, offset: 31254},
+																			pos: position{line: 1008, col: 6, offset: 31259},
 																			expr: &choiceExpr{
-																				pos: position{line: 1005, col: 26, offset: 31202},
+																				pos: position{line: 1005, col: 26, offset: 31207},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 776, col: 5, offset: 24861},
+																						pos: position{line: 776, col: 5, offset: 24866},
 																						run: (*parser).callonDocumentFragment729,
 																						expr: &seqExpr{
-																							pos: position{line: 776, col: 5, offset: 24861},
+																							pos: position{line: 776, col: 5, offset: 24866},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 776, col: 5, offset: 24861},
+																									pos:   position{line: 776, col: 5, offset: 24866},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 776, col: 16, offset: 24872},
+																										pos: position{line: 776, col: 16, offset: 24877},
 																										run: (*parser).callonDocumentFragment732,
 																										expr: &litMatcher{
-																											pos:        position{line: 776, col: 16, offset: 24872},
+																											pos:        position{line: 776, col: 16, offset: 24877},
 																											val:        "--",
 																											ignoreCase: false,
 																											want:       "\"--\"",
@@ -7515,7 +7515,7 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 778, col: 8, offset: 24949},
+																									pos: position{line: 778, col: 8, offset: 24954},
 																									expr: &actionExpr{
 																										pos: position{line: 2852, col: 10, offset: 90239},
 																										run: (*parser).callonDocumentFragment735,
@@ -7579,13 +7579,13 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1009, col: 5, offset: 31281},
+																			pos:   position{line: 1009, col: 5, offset: 31286},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26093},
 																				run: (*parser).callonDocumentFragment748,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26088},
+																					pos: position{line: 811, col: 5, offset: 26093},
 																					exprs: []interface{}{
 																						&andExpr{
 																							pos: position{line: 2869, col: 11, offset: 90573},
@@ -7594,7 +7594,7 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26163},
+																							pos:   position{line: 812, col: 5, offset: 26168},
 																							label: "content",
 																							expr: &actionExpr{
 																								pos: position{line: 2798, col: 13, offset: 88765},
@@ -7659,27 +7659,27 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 999, col: 5, offset: 31016},
+														pos:   position{line: 999, col: 5, offset: 31021},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 999, col: 9, offset: 31020},
+															pos: position{line: 999, col: 9, offset: 31025},
 															expr: &choiceExpr{
-																pos: position{line: 1005, col: 26, offset: 31202},
+																pos: position{line: 1005, col: 26, offset: 31207},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 776, col: 5, offset: 24861},
+																		pos: position{line: 776, col: 5, offset: 24866},
 																		run: (*parser).callonDocumentFragment767,
 																		expr: &seqExpr{
-																			pos: position{line: 776, col: 5, offset: 24861},
+																			pos: position{line: 776, col: 5, offset: 24866},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 776, col: 5, offset: 24861},
+																					pos:   position{line: 776, col: 5, offset: 24866},
 																					label: "delimiter",
 																					expr: &actionExpr{
-																						pos: position{line: 776, col: 16, offset: 24872},
+																						pos: position{line: 776, col: 16, offset: 24877},
 																						run: (*parser).callonDocumentFragment770,
 																						expr: &litMatcher{
-																							pos:        position{line: 776, col: 16, offset: 24872},
+																							pos:        position{line: 776, col: 16, offset: 24877},
 																							val:        "--",
 																							ignoreCase: false,
 																							want:       "\"--\"",
@@ -7687,7 +7687,7 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 778, col: 8, offset: 24949},
+																					pos: position{line: 778, col: 8, offset: 24954},
 																					expr: &actionExpr{
 																						pos: position{line: 2852, col: 10, offset: 90239},
 																						run: (*parser).callonDocumentFragment773,
@@ -7755,39 +7755,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1017, col: 5, offset: 31444},
+											pos: position{line: 1017, col: 5, offset: 31449},
 											run: (*parser).callonDocumentFragment785,
 											expr: &seqExpr{
-												pos: position{line: 1017, col: 5, offset: 31444},
+												pos: position{line: 1017, col: 5, offset: 31449},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1017, col: 5, offset: 31444},
+														pos:   position{line: 1017, col: 5, offset: 31449},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 790, col: 5, offset: 25344},
+															pos: position{line: 790, col: 5, offset: 25349},
 															run: (*parser).callonDocumentFragment788,
 															expr: &seqExpr{
-																pos: position{line: 790, col: 5, offset: 25344},
+																pos: position{line: 790, col: 5, offset: 25349},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 790, col: 5, offset: 25344},
+																		pos:   position{line: 790, col: 5, offset: 25349},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 790, col: 16, offset: 25355},
+																			pos: position{line: 790, col: 16, offset: 25360},
 																			run: (*parser).callonDocumentFragment791,
 																			expr: &seqExpr{
-																				pos: position{line: 790, col: 16, offset: 25355},
+																				pos: position{line: 790, col: 16, offset: 25360},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 790, col: 16, offset: 25355},
+																						pos:        position{line: 790, col: 16, offset: 25360},
 																						val:        "++++",
 																						ignoreCase: false,
 																						want:       "\"++++\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 790, col: 23, offset: 25362},
+																						pos: position{line: 790, col: 23, offset: 25367},
 																						expr: &litMatcher{
-																							pos:        position{line: 790, col: 23, offset: 25362},
+																							pos:        position{line: 790, col: 23, offset: 25367},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
@@ -7798,7 +7798,7 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 792, col: 8, offset: 25446},
+																		pos: position{line: 792, col: 8, offset: 25451},
 																		expr: &actionExpr{
 																			pos: position{line: 2852, col: 10, offset: 90239},
 																			run: (*parser).callonDocumentFragment797,
@@ -7854,56 +7854,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1018, col: 5, offset: 31487},
+														pos: position{line: 1018, col: 5, offset: 31492},
 														run: (*parser).callonDocumentFragment807,
 													},
 													&labeledExpr{
-														pos:   position{line: 1021, col: 5, offset: 31579},
+														pos:   position{line: 1021, col: 5, offset: 31584},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1036, col: 5, offset: 32009},
+															pos: position{line: 1036, col: 5, offset: 32014},
 															expr: &actionExpr{
-																pos: position{line: 1036, col: 6, offset: 32010},
+																pos: position{line: 1036, col: 6, offset: 32015},
 																run: (*parser).callonDocumentFragment810,
 																expr: &seqExpr{
-																	pos: position{line: 1036, col: 6, offset: 32010},
+																	pos: position{line: 1036, col: 6, offset: 32015},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1036, col: 6, offset: 32010},
+																			pos: position{line: 1036, col: 6, offset: 32015},
 																			expr: &choiceExpr{
-																				pos: position{line: 1029, col: 5, offset: 31843},
+																				pos: position{line: 1029, col: 5, offset: 31848},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1029, col: 5, offset: 31843},
+																						pos: position{line: 1029, col: 5, offset: 31848},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1029, col: 5, offset: 31843},
+																								pos:   position{line: 1029, col: 5, offset: 31848},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 790, col: 5, offset: 25344},
+																									pos: position{line: 790, col: 5, offset: 25349},
 																									run: (*parser).callonDocumentFragment816,
 																									expr: &seqExpr{
-																										pos: position{line: 790, col: 5, offset: 25344},
+																										pos: position{line: 790, col: 5, offset: 25349},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 790, col: 5, offset: 25344},
+																												pos:   position{line: 790, col: 5, offset: 25349},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 790, col: 16, offset: 25355},
+																													pos: position{line: 790, col: 16, offset: 25360},
 																													run: (*parser).callonDocumentFragment819,
 																													expr: &seqExpr{
-																														pos: position{line: 790, col: 16, offset: 25355},
+																														pos: position{line: 790, col: 16, offset: 25360},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 790, col: 16, offset: 25355},
+																																pos:        position{line: 790, col: 16, offset: 25360},
 																																val:        "++++",
 																																ignoreCase: false,
 																																want:       "\"++++\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 790, col: 23, offset: 25362},
+																																pos: position{line: 790, col: 23, offset: 25367},
 																																expr: &litMatcher{
-																																	pos:        position{line: 790, col: 23, offset: 25362},
+																																	pos:        position{line: 790, col: 23, offset: 25367},
 																																	val:        "+",
 																																	ignoreCase: false,
 																																	want:       "\"+\"",
@@ -7914,7 +7914,7 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 792, col: 8, offset: 25446},
+																												pos: position{line: 792, col: 8, offset: 25451},
 																												expr: &actionExpr{
 																													pos: position{line: 2852, col: 10, offset: 90239},
 																													run: (*parser).callonDocumentFragment825,
@@ -7970,7 +7970,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1030, col: 5, offset: 31878},
+																								pos: position{line: 1030, col: 5, offset: 31883},
 																								run: (*parser).callonDocumentFragment835,
 																							},
 																						},
@@ -7985,13 +7985,13 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1037, col: 5, offset: 32044},
+																			pos:   position{line: 1037, col: 5, offset: 32049},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26093},
 																				run: (*parser).callonDocumentFragment839,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26088},
+																					pos: position{line: 811, col: 5, offset: 26093},
 																					exprs: []interface{}{
 																						&andExpr{
 																							pos: position{line: 2869, col: 11, offset: 90573},
@@ -8000,7 +8000,7 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26163},
+																							pos:   position{line: 812, col: 5, offset: 26168},
 																							label: "content",
 																							expr: &actionExpr{
 																								pos: position{line: 2798, col: 13, offset: 88765},
@@ -8065,44 +8065,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1022, col: 5, offset: 31617},
+														pos:   position{line: 1022, col: 5, offset: 31622},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1022, col: 9, offset: 31621},
+															pos: position{line: 1022, col: 9, offset: 31626},
 															expr: &choiceExpr{
-																pos: position{line: 1029, col: 5, offset: 31843},
+																pos: position{line: 1029, col: 5, offset: 31848},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1029, col: 5, offset: 31843},
+																		pos: position{line: 1029, col: 5, offset: 31848},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1029, col: 5, offset: 31843},
+																				pos:   position{line: 1029, col: 5, offset: 31848},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 790, col: 5, offset: 25344},
+																					pos: position{line: 790, col: 5, offset: 25349},
 																					run: (*parser).callonDocumentFragment860,
 																					expr: &seqExpr{
-																						pos: position{line: 790, col: 5, offset: 25344},
+																						pos: position{line: 790, col: 5, offset: 25349},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 790, col: 5, offset: 25344},
+																								pos:   position{line: 790, col: 5, offset: 25349},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 790, col: 16, offset: 25355},
+																									pos: position{line: 790, col: 16, offset: 25360},
 																									run: (*parser).callonDocumentFragment863,
 																									expr: &seqExpr{
-																										pos: position{line: 790, col: 16, offset: 25355},
+																										pos: position{line: 790, col: 16, offset: 25360},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 790, col: 16, offset: 25355},
+																												pos:        position{line: 790, col: 16, offset: 25360},
 																												val:        "++++",
 																												ignoreCase: false,
 																												want:       "\"++++\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 790, col: 23, offset: 25362},
+																												pos: position{line: 790, col: 23, offset: 25367},
 																												expr: &litMatcher{
-																													pos:        position{line: 790, col: 23, offset: 25362},
+																													pos:        position{line: 790, col: 23, offset: 25367},
 																													val:        "+",
 																													ignoreCase: false,
 																													want:       "\"+\"",
@@ -8113,7 +8113,7 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 792, col: 8, offset: 25446},
+																								pos: position{line: 792, col: 8, offset: 25451},
 																								expr: &actionExpr{
 																									pos: position{line: 2852, col: 10, offset: 90239},
 																									run: (*parser).callonDocumentFragment869,
@@ -8169,7 +8169,7 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1030, col: 5, offset: 31878},
+																				pos: position{line: 1030, col: 5, offset: 31883},
 																				run: (*parser).callonDocumentFragment879,
 																			},
 																		},
@@ -8188,39 +8188,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1045, col: 5, offset: 32195},
+											pos: position{line: 1045, col: 5, offset: 32200},
 											run: (*parser).callonDocumentFragment882,
 											expr: &seqExpr{
-												pos: position{line: 1045, col: 5, offset: 32195},
+												pos: position{line: 1045, col: 5, offset: 32200},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1045, col: 5, offset: 32195},
+														pos:   position{line: 1045, col: 5, offset: 32200},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 797, col: 5, offset: 25594},
+															pos: position{line: 797, col: 5, offset: 25599},
 															run: (*parser).callonDocumentFragment885,
 															expr: &seqExpr{
-																pos: position{line: 797, col: 5, offset: 25594},
+																pos: position{line: 797, col: 5, offset: 25599},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 797, col: 5, offset: 25594},
+																		pos:   position{line: 797, col: 5, offset: 25599},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 797, col: 16, offset: 25605},
+																			pos: position{line: 797, col: 16, offset: 25610},
 																			run: (*parser).callonDocumentFragment888,
 																			expr: &seqExpr{
-																				pos: position{line: 797, col: 16, offset: 25605},
+																				pos: position{line: 797, col: 16, offset: 25610},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 797, col: 16, offset: 25605},
+																						pos:        position{line: 797, col: 16, offset: 25610},
 																						val:        "____",
 																						ignoreCase: false,
 																						want:       "\"____\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 797, col: 23, offset: 25612},
+																						pos: position{line: 797, col: 23, offset: 25617},
 																						expr: &litMatcher{
-																							pos:        position{line: 797, col: 23, offset: 25612},
+																							pos:        position{line: 797, col: 23, offset: 25617},
 																							val:        "_",
 																							ignoreCase: false,
 																							want:       "\"_\"",
@@ -8231,7 +8231,7 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 799, col: 8, offset: 25696},
+																		pos: position{line: 799, col: 8, offset: 25701},
 																		expr: &actionExpr{
 																			pos: position{line: 2852, col: 10, offset: 90239},
 																			run: (*parser).callonDocumentFragment894,
@@ -8287,56 +8287,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1046, col: 5, offset: 32232},
+														pos: position{line: 1046, col: 5, offset: 32237},
 														run: (*parser).callonDocumentFragment904,
 													},
 													&labeledExpr{
-														pos:   position{line: 1049, col: 5, offset: 32324},
+														pos:   position{line: 1049, col: 5, offset: 32329},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1064, col: 4, offset: 32705},
+															pos: position{line: 1064, col: 4, offset: 32710},
 															expr: &actionExpr{
-																pos: position{line: 1064, col: 5, offset: 32706},
+																pos: position{line: 1064, col: 5, offset: 32711},
 																run: (*parser).callonDocumentFragment907,
 																expr: &seqExpr{
-																	pos: position{line: 1064, col: 5, offset: 32706},
+																	pos: position{line: 1064, col: 5, offset: 32711},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1064, col: 5, offset: 32706},
+																			pos: position{line: 1064, col: 5, offset: 32711},
 																			expr: &choiceExpr{
-																				pos: position{line: 1057, col: 5, offset: 32552},
+																				pos: position{line: 1057, col: 5, offset: 32557},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1057, col: 5, offset: 32552},
+																						pos: position{line: 1057, col: 5, offset: 32557},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1057, col: 5, offset: 32552},
+																								pos:   position{line: 1057, col: 5, offset: 32557},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 797, col: 5, offset: 25594},
+																									pos: position{line: 797, col: 5, offset: 25599},
 																									run: (*parser).callonDocumentFragment913,
 																									expr: &seqExpr{
-																										pos: position{line: 797, col: 5, offset: 25594},
+																										pos: position{line: 797, col: 5, offset: 25599},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 797, col: 5, offset: 25594},
+																												pos:   position{line: 797, col: 5, offset: 25599},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 797, col: 16, offset: 25605},
+																													pos: position{line: 797, col: 16, offset: 25610},
 																													run: (*parser).callonDocumentFragment916,
 																													expr: &seqExpr{
-																														pos: position{line: 797, col: 16, offset: 25605},
+																														pos: position{line: 797, col: 16, offset: 25610},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 797, col: 16, offset: 25605},
+																																pos:        position{line: 797, col: 16, offset: 25610},
 																																val:        "____",
 																																ignoreCase: false,
 																																want:       "\"____\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 797, col: 23, offset: 25612},
+																																pos: position{line: 797, col: 23, offset: 25617},
 																																expr: &litMatcher{
-																																	pos:        position{line: 797, col: 23, offset: 25612},
+																																	pos:        position{line: 797, col: 23, offset: 25617},
 																																	val:        "_",
 																																	ignoreCase: false,
 																																	want:       "\"_\"",
@@ -8347,7 +8347,7 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 799, col: 8, offset: 25696},
+																												pos: position{line: 799, col: 8, offset: 25701},
 																												expr: &actionExpr{
 																													pos: position{line: 2852, col: 10, offset: 90239},
 																													run: (*parser).callonDocumentFragment922,
@@ -8403,7 +8403,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1058, col: 5, offset: 32581},
+																								pos: position{line: 1058, col: 5, offset: 32586},
 																								run: (*parser).callonDocumentFragment932,
 																							},
 																						},
@@ -8418,13 +8418,13 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1065, col: 5, offset: 32734},
+																			pos:   position{line: 1065, col: 5, offset: 32739},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26093},
 																				run: (*parser).callonDocumentFragment936,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26088},
+																					pos: position{line: 811, col: 5, offset: 26093},
 																					exprs: []interface{}{
 																						&andExpr{
 																							pos: position{line: 2869, col: 11, offset: 90573},
@@ -8433,7 +8433,7 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26163},
+																							pos:   position{line: 812, col: 5, offset: 26168},
 																							label: "content",
 																							expr: &actionExpr{
 																								pos: position{line: 2798, col: 13, offset: 88765},
@@ -8498,44 +8498,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1050, col: 5, offset: 32356},
+														pos:   position{line: 1050, col: 5, offset: 32361},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1050, col: 9, offset: 32360},
+															pos: position{line: 1050, col: 9, offset: 32365},
 															expr: &choiceExpr{
-																pos: position{line: 1057, col: 5, offset: 32552},
+																pos: position{line: 1057, col: 5, offset: 32557},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1057, col: 5, offset: 32552},
+																		pos: position{line: 1057, col: 5, offset: 32557},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1057, col: 5, offset: 32552},
+																				pos:   position{line: 1057, col: 5, offset: 32557},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 797, col: 5, offset: 25594},
+																					pos: position{line: 797, col: 5, offset: 25599},
 																					run: (*parser).callonDocumentFragment957,
 																					expr: &seqExpr{
-																						pos: position{line: 797, col: 5, offset: 25594},
+																						pos: position{line: 797, col: 5, offset: 25599},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 797, col: 5, offset: 25594},
+																								pos:   position{line: 797, col: 5, offset: 25599},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 797, col: 16, offset: 25605},
+																									pos: position{line: 797, col: 16, offset: 25610},
 																									run: (*parser).callonDocumentFragment960,
 																									expr: &seqExpr{
-																										pos: position{line: 797, col: 16, offset: 25605},
+																										pos: position{line: 797, col: 16, offset: 25610},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 797, col: 16, offset: 25605},
+																												pos:        position{line: 797, col: 16, offset: 25610},
 																												val:        "____",
 																												ignoreCase: false,
 																												want:       "\"____\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 797, col: 23, offset: 25612},
+																												pos: position{line: 797, col: 23, offset: 25617},
 																												expr: &litMatcher{
-																													pos:        position{line: 797, col: 23, offset: 25612},
+																													pos:        position{line: 797, col: 23, offset: 25617},
 																													val:        "_",
 																													ignoreCase: false,
 																													want:       "\"_\"",
@@ -8546,7 +8546,7 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 799, col: 8, offset: 25696},
+																								pos: position{line: 799, col: 8, offset: 25701},
 																								expr: &actionExpr{
 																									pos: position{line: 2852, col: 10, offset: 90239},
 																									run: (*parser).callonDocumentFragment966,
@@ -8602,7 +8602,7 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1058, col: 5, offset: 32581},
+																				pos: position{line: 1058, col: 5, offset: 32586},
 																				run: (*parser).callonDocumentFragment976,
 																			},
 																		},
@@ -8621,39 +8621,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1073, col: 5, offset: 32889},
+											pos: position{line: 1073, col: 5, offset: 32894},
 											run: (*parser).callonDocumentFragment979,
 											expr: &seqExpr{
-												pos: position{line: 1073, col: 5, offset: 32889},
+												pos: position{line: 1073, col: 5, offset: 32894},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1073, col: 5, offset: 32889},
+														pos:   position{line: 1073, col: 5, offset: 32894},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 804, col: 5, offset: 25840},
+															pos: position{line: 804, col: 5, offset: 25845},
 															run: (*parser).callonDocumentFragment982,
 															expr: &seqExpr{
-																pos: position{line: 804, col: 5, offset: 25840},
+																pos: position{line: 804, col: 5, offset: 25845},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 804, col: 5, offset: 25840},
+																		pos:   position{line: 804, col: 5, offset: 25845},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 804, col: 16, offset: 25851},
+																			pos: position{line: 804, col: 16, offset: 25856},
 																			run: (*parser).callonDocumentFragment985,
 																			expr: &seqExpr{
-																				pos: position{line: 804, col: 16, offset: 25851},
+																				pos: position{line: 804, col: 16, offset: 25856},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 804, col: 16, offset: 25851},
+																						pos:        position{line: 804, col: 16, offset: 25856},
 																						val:        "****",
 																						ignoreCase: false,
 																						want:       "\"****\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 804, col: 23, offset: 25858},
+																						pos: position{line: 804, col: 23, offset: 25863},
 																						expr: &litMatcher{
-																							pos:        position{line: 804, col: 23, offset: 25858},
+																							pos:        position{line: 804, col: 23, offset: 25863},
 																							val:        "*",
 																							ignoreCase: false,
 																							want:       "\"*\"",
@@ -8664,7 +8664,7 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 806, col: 8, offset: 25942},
+																		pos: position{line: 806, col: 8, offset: 25947},
 																		expr: &actionExpr{
 																			pos: position{line: 2852, col: 10, offset: 90239},
 																			run: (*parser).callonDocumentFragment991,
@@ -8720,56 +8720,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1074, col: 5, offset: 32928},
+														pos: position{line: 1074, col: 5, offset: 32933},
 														run: (*parser).callonDocumentFragment1001,
 													},
 													&labeledExpr{
-														pos:   position{line: 1077, col: 5, offset: 33020},
+														pos:   position{line: 1077, col: 5, offset: 33025},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1092, col: 4, offset: 33417},
+															pos: position{line: 1092, col: 4, offset: 33422},
 															expr: &actionExpr{
-																pos: position{line: 1092, col: 5, offset: 33418},
+																pos: position{line: 1092, col: 5, offset: 33423},
 																run: (*parser).callonDocumentFragment1004,
 																expr: &seqExpr{
-																	pos: position{line: 1092, col: 5, offset: 33418},
+																	pos: position{line: 1092, col: 5, offset: 33423},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1092, col: 5, offset: 33418},
+																			pos: position{line: 1092, col: 5, offset: 33423},
 																			expr: &choiceExpr{
-																				pos: position{line: 1085, col: 5, offset: 33260},
+																				pos: position{line: 1085, col: 5, offset: 33265},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1085, col: 5, offset: 33260},
+																						pos: position{line: 1085, col: 5, offset: 33265},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1085, col: 5, offset: 33260},
+																								pos:   position{line: 1085, col: 5, offset: 33265},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 804, col: 5, offset: 25840},
+																									pos: position{line: 804, col: 5, offset: 25845},
 																									run: (*parser).callonDocumentFragment1010,
 																									expr: &seqExpr{
-																										pos: position{line: 804, col: 5, offset: 25840},
+																										pos: position{line: 804, col: 5, offset: 25845},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 804, col: 5, offset: 25840},
+																												pos:   position{line: 804, col: 5, offset: 25845},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 804, col: 16, offset: 25851},
+																													pos: position{line: 804, col: 16, offset: 25856},
 																													run: (*parser).callonDocumentFragment1013,
 																													expr: &seqExpr{
-																														pos: position{line: 804, col: 16, offset: 25851},
+																														pos: position{line: 804, col: 16, offset: 25856},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 804, col: 16, offset: 25851},
+																																pos:        position{line: 804, col: 16, offset: 25856},
 																																val:        "****",
 																																ignoreCase: false,
 																																want:       "\"****\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 804, col: 23, offset: 25858},
+																																pos: position{line: 804, col: 23, offset: 25863},
 																																expr: &litMatcher{
-																																	pos:        position{line: 804, col: 23, offset: 25858},
+																																	pos:        position{line: 804, col: 23, offset: 25863},
 																																	val:        "*",
 																																	ignoreCase: false,
 																																	want:       "\"*\"",
@@ -8780,7 +8780,7 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 806, col: 8, offset: 25942},
+																												pos: position{line: 806, col: 8, offset: 25947},
 																												expr: &actionExpr{
 																													pos: position{line: 2852, col: 10, offset: 90239},
 																													run: (*parser).callonDocumentFragment1019,
@@ -8836,7 +8836,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1086, col: 5, offset: 33291},
+																								pos: position{line: 1086, col: 5, offset: 33296},
 																								run: (*parser).callonDocumentFragment1029,
 																							},
 																						},
@@ -8851,13 +8851,13 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1093, col: 5, offset: 33448},
+																			pos:   position{line: 1093, col: 5, offset: 33453},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26093},
 																				run: (*parser).callonDocumentFragment1033,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26088},
+																					pos: position{line: 811, col: 5, offset: 26093},
 																					exprs: []interface{}{
 																						&andExpr{
 																							pos: position{line: 2869, col: 11, offset: 90573},
@@ -8866,7 +8866,7 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26163},
+																							pos:   position{line: 812, col: 5, offset: 26168},
 																							label: "content",
 																							expr: &actionExpr{
 																								pos: position{line: 2798, col: 13, offset: 88765},
@@ -8931,44 +8931,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1078, col: 5, offset: 33054},
+														pos:   position{line: 1078, col: 5, offset: 33059},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1078, col: 9, offset: 33058},
+															pos: position{line: 1078, col: 9, offset: 33063},
 															expr: &choiceExpr{
-																pos: position{line: 1085, col: 5, offset: 33260},
+																pos: position{line: 1085, col: 5, offset: 33265},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1085, col: 5, offset: 33260},
+																		pos: position{line: 1085, col: 5, offset: 33265},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1085, col: 5, offset: 33260},
+																				pos:   position{line: 1085, col: 5, offset: 33265},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 804, col: 5, offset: 25840},
+																					pos: position{line: 804, col: 5, offset: 25845},
 																					run: (*parser).callonDocumentFragment1054,
 																					expr: &seqExpr{
-																						pos: position{line: 804, col: 5, offset: 25840},
+																						pos: position{line: 804, col: 5, offset: 25845},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 804, col: 5, offset: 25840},
+																								pos:   position{line: 804, col: 5, offset: 25845},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 804, col: 16, offset: 25851},
+																									pos: position{line: 804, col: 16, offset: 25856},
 																									run: (*parser).callonDocumentFragment1057,
 																									expr: &seqExpr{
-																										pos: position{line: 804, col: 16, offset: 25851},
+																										pos: position{line: 804, col: 16, offset: 25856},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 804, col: 16, offset: 25851},
+																												pos:        position{line: 804, col: 16, offset: 25856},
 																												val:        "****",
 																												ignoreCase: false,
 																												want:       "\"****\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 804, col: 23, offset: 25858},
+																												pos: position{line: 804, col: 23, offset: 25863},
 																												expr: &litMatcher{
-																													pos:        position{line: 804, col: 23, offset: 25858},
+																													pos:        position{line: 804, col: 23, offset: 25863},
 																													val:        "*",
 																													ignoreCase: false,
 																													want:       "\"*\"",
@@ -8979,7 +8979,7 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 806, col: 8, offset: 25942},
+																								pos: position{line: 806, col: 8, offset: 25947},
 																								expr: &actionExpr{
 																									pos: position{line: 2852, col: 10, offset: 90239},
 																									run: (*parser).callonDocumentFragment1063,
@@ -9035,7 +9035,7 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1086, col: 5, offset: 33291},
+																				pos: position{line: 1086, col: 5, offset: 33296},
 																				run: (*parser).callonDocumentFragment1073,
 																			},
 																		},
@@ -9054,52 +9054,52 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2697, col: 18, offset: 85829},
+											pos: position{line: 2697, col: 18, offset: 85834},
 											run: (*parser).callonDocumentFragment1076,
 											expr: &seqExpr{
-												pos: position{line: 2697, col: 18, offset: 85829},
+												pos: position{line: 2697, col: 18, offset: 85834},
 												exprs: []interface{}{
 													&choiceExpr{
-														pos: position{line: 2698, col: 9, offset: 85839},
+														pos: position{line: 2698, col: 9, offset: 85844},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2698, col: 9, offset: 85839},
+																pos:        position{line: 2698, col: 9, offset: 85844},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2699, col: 11, offset: 85875},
+																pos:        position{line: 2699, col: 11, offset: 85880},
 																val:        "***",
 																ignoreCase: false,
 																want:       "\"***\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2699, col: 19, offset: 85883},
+																pos:        position{line: 2699, col: 19, offset: 85888},
 																val:        "* * *",
 																ignoreCase: false,
 																want:       "\"* * *\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2699, col: 29, offset: 85893},
+																pos:        position{line: 2699, col: 29, offset: 85898},
 																val:        "---",
 																ignoreCase: false,
 																want:       "\"---\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2699, col: 37, offset: 85901},
+																pos:        position{line: 2699, col: 37, offset: 85906},
 																val:        "- - -",
 																ignoreCase: false,
 																want:       "\"- - -\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2699, col: 47, offset: 85911},
+																pos:        position{line: 2699, col: 47, offset: 85916},
 																val:        "___",
 																ignoreCase: false,
 																want:       "\"___\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2699, col: 55, offset: 85919},
+																pos:        position{line: 2699, col: 55, offset: 85924},
 																val:        "_ _ _",
 																ignoreCase: false,
 																want:       "\"_ _ _\"",
@@ -9107,7 +9107,7 @@ var g = &grammar{
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2700, col: 11, offset: 85977},
+														pos: position{line: 2700, col: 11, offset: 85970},
 														expr: &actionExpr{
 															pos: position{line: 2852, col: 10, offset: 90239},
 															run: (*parser).callonDocumentFragment1087,
@@ -9158,12 +9158,26 @@ var g = &grammar{
 															},
 														},
 													},
+													&zeroOrMoreExpr{
+														pos: position{line: 2700, col: 22, offset: 85981},
+														expr: &actionExpr{
+															pos: position{line: 2852, col: 10, offset: 90239},
+															run: (*parser).callonDocumentFragment1098,
+															expr: &charClassMatcher{
+																pos:        position{line: 2852, col: 10, offset: 90239},
+																val:        "[\\t ]",
+																chars:      []rune{'\t', ' '},
+																ignoreCase: false,
+																inverted:   false,
+															},
+														},
+													},
 													&choiceExpr{
 														pos: position{line: 2874, col: 8, offset: 90637},
 														alternatives: []interface{}{
 															&actionExpr{
 																pos: position{line: 2861, col: 12, offset: 90410},
-																run: (*parser).callonDocumentFragment1098,
+																run: (*parser).callonDocumentFragment1101,
 																expr: &choiceExpr{
 																	pos: position{line: 2861, col: 13, offset: 90411},
 																	alternatives: []interface{}{
@@ -9204,22 +9218,22 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2588, col: 5, offset: 82765},
-											run: (*parser).callonDocumentFragment1106,
+											pos: position{line: 2588, col: 5, offset: 82770},
+											run: (*parser).callonDocumentFragment1109,
 											expr: &seqExpr{
-												pos: position{line: 2588, col: 5, offset: 82765},
+												pos: position{line: 2588, col: 5, offset: 82770},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2594, col: 19, offset: 82922},
+														pos:        position{line: 2594, col: 19, offset: 82927},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2594, col: 26, offset: 82929},
+														pos: position{line: 2594, col: 26, offset: 82934},
 														expr: &actionExpr{
 															pos: position{line: 2852, col: 10, offset: 90239},
-															run: (*parser).callonDocumentFragment1110,
+															run: (*parser).callonDocumentFragment1113,
 															expr: &charClassMatcher{
 																pos:        position{line: 2852, col: 10, offset: 90239},
 																val:        "[\\t ]",
@@ -9234,7 +9248,7 @@ var g = &grammar{
 														alternatives: []interface{}{
 															&actionExpr{
 																pos: position{line: 2861, col: 12, offset: 90410},
-																run: (*parser).callonDocumentFragment1113,
+																run: (*parser).callonDocumentFragment1116,
 																expr: &choiceExpr{
 																	pos: position{line: 2861, col: 13, offset: 90411},
 																	alternatives: []interface{}{
@@ -9268,16 +9282,16 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2589, col: 5, offset: 82789},
+														pos:   position{line: 2589, col: 5, offset: 82794},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2589, col: 11, offset: 82795},
+															pos: position{line: 2589, col: 11, offset: 82800},
 															expr: &choiceExpr{
-																pos: position{line: 2589, col: 12, offset: 82796},
+																pos: position{line: 2589, col: 12, offset: 82801},
 																alternatives: []interface{}{
 																	&actionExpr{
 																		pos: position{line: 677, col: 14, offset: 21489},
-																		run: (*parser).callonDocumentFragment1123,
+																		run: (*parser).callonDocumentFragment1126,
 																		expr: &seqExpr{
 																			pos: position{line: 677, col: 14, offset: 21489},
 																			exprs: []interface{}{
@@ -9291,7 +9305,7 @@ var g = &grammar{
 																					pos: position{line: 677, col: 21, offset: 21496},
 																					expr: &actionExpr{
 																						pos: position{line: 2852, col: 10, offset: 90239},
-																						run: (*parser).callonDocumentFragment1128,
+																						run: (*parser).callonDocumentFragment1131,
 																						expr: &charClassMatcher{
 																							pos:        position{line: 2852, col: 10, offset: 90239},
 																							val:        "[\\t ]",
@@ -9306,7 +9320,7 @@ var g = &grammar{
 																					alternatives: []interface{}{
 																						&actionExpr{
 																							pos: position{line: 2861, col: 12, offset: 90410},
-																							run: (*parser).callonDocumentFragment1131,
+																							run: (*parser).callonDocumentFragment1134,
 																							expr: &choiceExpr{
 																								pos: position{line: 2861, col: 13, offset: 90411},
 																								alternatives: []interface{}{
@@ -9343,30 +9357,30 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2601, col: 5, offset: 83041},
-																		run: (*parser).callonDocumentFragment1138,
+																		pos: position{line: 2601, col: 5, offset: 83046},
+																		run: (*parser).callonDocumentFragment1141,
 																		expr: &seqExpr{
-																			pos: position{line: 2601, col: 5, offset: 83041},
+																			pos: position{line: 2601, col: 5, offset: 83046},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2601, col: 5, offset: 83041},
+																					pos: position{line: 2601, col: 5, offset: 83046},
 																					expr: &choiceExpr{
-																						pos: position{line: 2598, col: 22, offset: 83002},
+																						pos: position{line: 2598, col: 22, offset: 83007},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2594, col: 19, offset: 82922},
+																								pos: position{line: 2594, col: 19, offset: 82927},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2594, col: 19, offset: 82922},
+																										pos:        position{line: 2594, col: 19, offset: 82927},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2594, col: 26, offset: 82929},
+																										pos: position{line: 2594, col: 26, offset: 82934},
 																										expr: &actionExpr{
 																											pos: position{line: 2852, col: 10, offset: 90239},
-																											run: (*parser).callonDocumentFragment1145,
+																											run: (*parser).callonDocumentFragment1148,
 																											expr: &charClassMatcher{
 																												pos:        position{line: 2852, col: 10, offset: 90239},
 																												val:        "[\\t ]",
@@ -9381,7 +9395,7 @@ var g = &grammar{
 																										alternatives: []interface{}{
 																											&actionExpr{
 																												pos: position{line: 2861, col: 12, offset: 90410},
-																												run: (*parser).callonDocumentFragment1148,
+																												run: (*parser).callonDocumentFragment1151,
 																												expr: &choiceExpr{
 																													pos: position{line: 2861, col: 13, offset: 90411},
 																													alternatives: []interface{}{
@@ -9426,48 +9440,48 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2602, col: 5, offset: 83064},
+																					pos:   position{line: 2602, col: 5, offset: 83069},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2603, col: 9, offset: 83082},
+																						pos: position{line: 2603, col: 9, offset: 83087},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2603, col: 10, offset: 83083},
-																								run: (*parser).callonDocumentFragment1159,
+																								pos: position{line: 2603, col: 10, offset: 83088},
+																								run: (*parser).callonDocumentFragment1162,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2603, col: 10, offset: 83083},
+																									pos:   position{line: 2603, col: 10, offset: 83088},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2603, col: 17, offset: 83090},
+																										pos: position{line: 2603, col: 17, offset: 83095},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2611, col: 21, offset: 83286},
-																												run: (*parser).callonDocumentFragment1162,
+																												pos: position{line: 2611, col: 21, offset: 83291},
+																												run: (*parser).callonDocumentFragment1165,
 																												expr: &seqExpr{
-																													pos: position{line: 2611, col: 21, offset: 83286},
+																													pos: position{line: 2611, col: 21, offset: 83291},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2611, col: 21, offset: 83286},
+																															pos:   position{line: 2611, col: 21, offset: 83291},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2611, col: 27, offset: 83292},
+																																pos: position{line: 2611, col: 27, offset: 83297},
 																																expr: &actionExpr{
-																																	pos: position{line: 2616, col: 5, offset: 83367},
-																																	run: (*parser).callonDocumentFragment1166,
+																																	pos: position{line: 2616, col: 5, offset: 83372},
+																																	run: (*parser).callonDocumentFragment1169,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2616, col: 5, offset: 83367},
+																																		pos: position{line: 2616, col: 5, offset: 83372},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2616, col: 5, offset: 83367},
+																																				pos:        position{line: 2616, col: 5, offset: 83372},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2616, col: 9, offset: 83371},
+																																				pos: position{line: 2616, col: 9, offset: 83376},
 																																				expr: &actionExpr{
 																																					pos: position{line: 2852, col: 10, offset: 90239},
-																																					run: (*parser).callonDocumentFragment1170,
+																																					run: (*parser).callonDocumentFragment1173,
 																																					expr: &charClassMatcher{
 																																						pos:        position{line: 2852, col: 10, offset: 90239},
 																																						val:        "[\\t ]",
@@ -9478,21 +9492,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2616, col: 16, offset: 83378},
+																																				pos:   position{line: 2616, col: 16, offset: 83383},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2622, col: 5, offset: 83578},
-																																					run: (*parser).callonDocumentFragment1173,
+																																					pos: position{line: 2622, col: 5, offset: 83583},
+																																					run: (*parser).callonDocumentFragment1176,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2622, col: 5, offset: 83578},
+																																						pos:   position{line: 2622, col: 5, offset: 83583},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2622, col: 14, offset: 83587},
-																																							run: (*parser).callonDocumentFragment1175,
+																																							pos: position{line: 2622, col: 14, offset: 83592},
+																																							run: (*parser).callonDocumentFragment1178,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2622, col: 14, offset: 83587},
+																																								pos: position{line: 2622, col: 14, offset: 83592},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2622, col: 14, offset: 83587},
+																																									pos:        position{line: 2622, col: 14, offset: 83592},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9513,7 +9527,7 @@ var g = &grammar{
 																															alternatives: []interface{}{
 																																&actionExpr{
 																																	pos: position{line: 2861, col: 12, offset: 90410},
-																																	run: (*parser).callonDocumentFragment1179,
+																																	run: (*parser).callonDocumentFragment1182,
 																																	expr: &choiceExpr{
 																																		pos: position{line: 2861, col: 13, offset: 90411},
 																																		alternatives: []interface{}{
@@ -9550,38 +9564,38 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2628, col: 24, offset: 83723},
-																												run: (*parser).callonDocumentFragment1186,
+																												pos: position{line: 2628, col: 24, offset: 83728},
+																												run: (*parser).callonDocumentFragment1189,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2628, col: 24, offset: 83723},
+																													pos:   position{line: 2628, col: 24, offset: 83728},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2628, col: 30, offset: 83729},
+																														pos: position{line: 2628, col: 30, offset: 83734},
 																														expr: &actionExpr{
-																															pos: position{line: 2633, col: 5, offset: 83805},
-																															run: (*parser).callonDocumentFragment1189,
+																															pos: position{line: 2633, col: 5, offset: 83810},
+																															run: (*parser).callonDocumentFragment1192,
 																															expr: &seqExpr{
-																																pos: position{line: 2633, col: 5, offset: 83805},
+																																pos: position{line: 2633, col: 5, offset: 83810},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2633, col: 5, offset: 83805},
+																																		pos: position{line: 2633, col: 5, offset: 83810},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2598, col: 22, offset: 83002},
+																																			pos: position{line: 2598, col: 22, offset: 83007},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2594, col: 19, offset: 82922},
+																																					pos: position{line: 2594, col: 19, offset: 82927},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2594, col: 19, offset: 82922},
+																																							pos:        position{line: 2594, col: 19, offset: 82927},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2594, col: 26, offset: 82929},
+																																							pos: position{line: 2594, col: 26, offset: 82934},
 																																							expr: &actionExpr{
 																																								pos: position{line: 2852, col: 10, offset: 90239},
-																																								run: (*parser).callonDocumentFragment1196,
+																																								run: (*parser).callonDocumentFragment1199,
 																																								expr: &charClassMatcher{
 																																									pos:        position{line: 2852, col: 10, offset: 90239},
 																																									val:        "[\\t ]",
@@ -9596,7 +9610,7 @@ var g = &grammar{
 																																							alternatives: []interface{}{
 																																								&actionExpr{
 																																									pos: position{line: 2861, col: 12, offset: 90410},
-																																									run: (*parser).callonDocumentFragment1199,
+																																									run: (*parser).callonDocumentFragment1202,
 																																									expr: &choiceExpr{
 																																										pos: position{line: 2861, col: 13, offset: 90411},
 																																										alternatives: []interface{}{
@@ -9641,10 +9655,10 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2634, col: 5, offset: 83828},
+																																		pos: position{line: 2634, col: 5, offset: 83833},
 																																		expr: &actionExpr{
 																																			pos: position{line: 677, col: 14, offset: 21489},
-																																			run: (*parser).callonDocumentFragment1209,
+																																			run: (*parser).callonDocumentFragment1212,
 																																			expr: &seqExpr{
 																																				pos: position{line: 677, col: 14, offset: 21489},
 																																				exprs: []interface{}{
@@ -9658,7 +9672,7 @@ var g = &grammar{
 																																						pos: position{line: 677, col: 21, offset: 21496},
 																																						expr: &actionExpr{
 																																							pos: position{line: 2852, col: 10, offset: 90239},
-																																							run: (*parser).callonDocumentFragment1214,
+																																							run: (*parser).callonDocumentFragment1217,
 																																							expr: &charClassMatcher{
 																																								pos:        position{line: 2852, col: 10, offset: 90239},
 																																								val:        "[\\t ]",
@@ -9673,7 +9687,7 @@ var g = &grammar{
 																																						alternatives: []interface{}{
 																																							&actionExpr{
 																																								pos: position{line: 2861, col: 12, offset: 90410},
-																																								run: (*parser).callonDocumentFragment1217,
+																																								run: (*parser).callonDocumentFragment1220,
 																																								expr: &choiceExpr{
 																																									pos: position{line: 2861, col: 13, offset: 90411},
 																																									alternatives: []interface{}{
@@ -9711,17 +9725,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2635, col: 5, offset: 83843},
+																																		pos:   position{line: 2635, col: 5, offset: 83848},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2635, col: 12, offset: 83850},
+																																			pos: position{line: 2635, col: 12, offset: 83855},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2652, col: 20, offset: 84314},
-																																				run: (*parser).callonDocumentFragment1226,
+																																				pos: position{line: 2652, col: 20, offset: 84319},
+																																				run: (*parser).callonDocumentFragment1229,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2652, col: 20, offset: 84314},
+																																					pos: position{line: 2652, col: 20, offset: 84319},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2652, col: 20, offset: 84314},
+																																						pos:        position{line: 2652, col: 20, offset: 84319},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9732,16 +9746,16 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2635, col: 31, offset: 83869},
+																																		pos:        position{line: 2635, col: 31, offset: 83874},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2635, col: 35, offset: 83873},
+																																		pos: position{line: 2635, col: 35, offset: 83878},
 																																		expr: &actionExpr{
 																																			pos: position{line: 2852, col: 10, offset: 90239},
-																																			run: (*parser).callonDocumentFragment1231,
+																																			run: (*parser).callonDocumentFragment1234,
 																																			expr: &charClassMatcher{
 																																				pos:        position{line: 2852, col: 10, offset: 90239},
 																																				val:        "[\\t ]",
@@ -9752,10 +9766,10 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2635, col: 42, offset: 83880},
+																																		pos: position{line: 2635, col: 42, offset: 83885},
 																																		expr: &actionExpr{
 																																			pos: position{line: 2861, col: 12, offset: 90410},
-																																			run: (*parser).callonDocumentFragment1234,
+																																			run: (*parser).callonDocumentFragment1237,
 																																			expr: &choiceExpr{
 																																				pos: position{line: 2861, col: 13, offset: 90411},
 																																				alternatives: []interface{}{
@@ -9782,35 +9796,35 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2635, col: 51, offset: 83889},
+																																		pos:   position{line: 2635, col: 51, offset: 83894},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2641, col: 5, offset: 84048},
+																																			pos: position{line: 2641, col: 5, offset: 84053},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2642, col: 9, offset: 84058},
-																																				run: (*parser).callonDocumentFragment1241,
+																																				pos: position{line: 2642, col: 9, offset: 84063},
+																																				run: (*parser).callonDocumentFragment1244,
 																																				expr: &seqExpr{
-																																					pos: position{line: 2642, col: 9, offset: 84058},
+																																					pos: position{line: 2642, col: 9, offset: 84063},
 																																					exprs: []interface{}{
 																																						&notExpr{
-																																							pos: position{line: 2642, col: 9, offset: 84058},
+																																							pos: position{line: 2642, col: 9, offset: 84063},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2598, col: 22, offset: 83002},
+																																								pos: position{line: 2598, col: 22, offset: 83007},
 																																								alternatives: []interface{}{
 																																									&seqExpr{
-																																										pos: position{line: 2594, col: 19, offset: 82922},
+																																										pos: position{line: 2594, col: 19, offset: 82927},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2594, col: 19, offset: 82922},
+																																												pos:        position{line: 2594, col: 19, offset: 82927},
 																																												val:        "|===",
 																																												ignoreCase: false,
 																																												want:       "\"|===\"",
 																																											},
 																																											&zeroOrMoreExpr{
-																																												pos: position{line: 2594, col: 26, offset: 82929},
+																																												pos: position{line: 2594, col: 26, offset: 82934},
 																																												expr: &actionExpr{
 																																													pos: position{line: 2852, col: 10, offset: 90239},
-																																													run: (*parser).callonDocumentFragment1248,
+																																													run: (*parser).callonDocumentFragment1251,
 																																													expr: &charClassMatcher{
 																																														pos:        position{line: 2852, col: 10, offset: 90239},
 																																														val:        "[\\t ]",
@@ -9825,7 +9839,7 @@ var g = &grammar{
 																																												alternatives: []interface{}{
 																																													&actionExpr{
 																																														pos: position{line: 2861, col: 12, offset: 90410},
-																																														run: (*parser).callonDocumentFragment1251,
+																																														run: (*parser).callonDocumentFragment1254,
 																																														expr: &choiceExpr{
 																																															pos: position{line: 2861, col: 13, offset: 90411},
 																																															alternatives: []interface{}{
@@ -9870,10 +9884,10 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2643, col: 9, offset: 84085},
+																																							pos: position{line: 2643, col: 9, offset: 84090},
 																																							expr: &actionExpr{
 																																								pos: position{line: 677, col: 14, offset: 21489},
-																																								run: (*parser).callonDocumentFragment1261,
+																																								run: (*parser).callonDocumentFragment1264,
 																																								expr: &seqExpr{
 																																									pos: position{line: 677, col: 14, offset: 21489},
 																																									exprs: []interface{}{
@@ -9887,7 +9901,7 @@ var g = &grammar{
 																																											pos: position{line: 677, col: 21, offset: 21496},
 																																											expr: &actionExpr{
 																																												pos: position{line: 2852, col: 10, offset: 90239},
-																																												run: (*parser).callonDocumentFragment1266,
+																																												run: (*parser).callonDocumentFragment1269,
 																																												expr: &charClassMatcher{
 																																													pos:        position{line: 2852, col: 10, offset: 90239},
 																																													val:        "[\\t ]",
@@ -9902,7 +9916,7 @@ var g = &grammar{
 																																											alternatives: []interface{}{
 																																												&actionExpr{
 																																													pos: position{line: 2861, col: 12, offset: 90410},
-																																													run: (*parser).callonDocumentFragment1269,
+																																													run: (*parser).callonDocumentFragment1272,
 																																													expr: &choiceExpr{
 																																														pos: position{line: 2861, col: 13, offset: 90411},
 																																														alternatives: []interface{}{
@@ -9940,22 +9954,22 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2644, col: 9, offset: 84104},
+																																							pos: position{line: 2644, col: 9, offset: 84109},
 																																							expr: &seqExpr{
-																																								pos: position{line: 2644, col: 11, offset: 84106},
+																																								pos: position{line: 2644, col: 11, offset: 84111},
 																																								exprs: []interface{}{
 																																									&labeledExpr{
-																																										pos:   position{line: 2644, col: 11, offset: 84106},
+																																										pos:   position{line: 2644, col: 11, offset: 84111},
 																																										label: "format",
 																																										expr: &zeroOrOneExpr{
-																																											pos: position{line: 2644, col: 18, offset: 84113},
+																																											pos: position{line: 2644, col: 18, offset: 84118},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2652, col: 20, offset: 84314},
-																																												run: (*parser).callonDocumentFragment1280,
+																																												pos: position{line: 2652, col: 20, offset: 84319},
+																																												run: (*parser).callonDocumentFragment1283,
 																																												expr: &zeroOrMoreExpr{
-																																													pos: position{line: 2652, col: 20, offset: 84314},
+																																													pos: position{line: 2652, col: 20, offset: 84319},
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2652, col: 20, offset: 84314},
+																																														pos:        position{line: 2652, col: 20, offset: 84319},
 																																														val:        "[^ |\\r\\n]",
 																																														chars:      []rune{' ', '|', '\r', '\n'},
 																																														ignoreCase: false,
@@ -9966,7 +9980,7 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2644, col: 37, offset: 84132},
+																																										pos:        position{line: 2644, col: 37, offset: 84137},
 																																										val:        "|",
 																																										ignoreCase: false,
 																																										want:       "\"|\"",
@@ -9975,15 +9989,15 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&labeledExpr{
-																																							pos:   position{line: 2645, col: 9, offset: 84145},
+																																							pos:   position{line: 2645, col: 9, offset: 84150},
 																																							label: "content",
 																																							expr: &actionExpr{
-																																								pos: position{line: 2645, col: 18, offset: 84154},
-																																								run: (*parser).callonDocumentFragment1285,
+																																								pos: position{line: 2645, col: 18, offset: 84159},
+																																								run: (*parser).callonDocumentFragment1288,
 																																								expr: &zeroOrMoreExpr{
-																																									pos: position{line: 2645, col: 18, offset: 84154},
+																																									pos: position{line: 2645, col: 18, offset: 84159},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2645, col: 18, offset: 84154},
+																																										pos:        position{line: 2645, col: 18, offset: 84159},
 																																										val:        "[^|\\r\\n]",
 																																										chars:      []rune{'|', '\r', '\n'},
 																																										ignoreCase: false,
@@ -9993,13 +10007,13 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&zeroOrOneExpr{
-																																							pos: position{line: 2647, col: 12, offset: 84216},
+																																							pos: position{line: 2647, col: 12, offset: 84221},
 																																							expr: &choiceExpr{
 																																								pos: position{line: 2874, col: 8, offset: 90637},
 																																								alternatives: []interface{}{
 																																									&actionExpr{
 																																										pos: position{line: 2861, col: 12, offset: 90410},
-																																										run: (*parser).callonDocumentFragment1290,
+																																										run: (*parser).callonDocumentFragment1293,
 																																										expr: &choiceExpr{
 																																											pos: position{line: 2861, col: 13, offset: 90411},
 																																											alternatives: []interface{}{
@@ -10050,7 +10064,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 677, col: 14, offset: 21489},
-																								run: (*parser).callonDocumentFragment1297,
+																								run: (*parser).callonDocumentFragment1300,
 																								expr: &seqExpr{
 																									pos: position{line: 677, col: 14, offset: 21489},
 																									exprs: []interface{}{
@@ -10064,7 +10078,7 @@ var g = &grammar{
 																											pos: position{line: 677, col: 21, offset: 21496},
 																											expr: &actionExpr{
 																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonDocumentFragment1302,
+																												run: (*parser).callonDocumentFragment1305,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2852, col: 10, offset: 90239},
 																													val:        "[\\t ]",
@@ -10079,7 +10093,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonDocumentFragment1305,
+																													run: (*parser).callonDocumentFragment1308,
 																													expr: &choiceExpr{
 																														pos: position{line: 2861, col: 13, offset: 90411},
 																														alternatives: []interface{}{
@@ -10126,22 +10140,22 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2598, col: 22, offset: 83002},
+														pos: position{line: 2598, col: 22, offset: 83007},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2594, col: 19, offset: 82922},
+																pos: position{line: 2594, col: 19, offset: 82927},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2594, col: 19, offset: 82922},
+																		pos:        position{line: 2594, col: 19, offset: 82927},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2594, col: 26, offset: 82929},
+																		pos: position{line: 2594, col: 26, offset: 82934},
 																		expr: &actionExpr{
 																			pos: position{line: 2852, col: 10, offset: 90239},
-																			run: (*parser).callonDocumentFragment1316,
+																			run: (*parser).callonDocumentFragment1319,
 																			expr: &charClassMatcher{
 																				pos:        position{line: 2852, col: 10, offset: 90239},
 																				val:        "[\\t ]",
@@ -10156,7 +10170,7 @@ var g = &grammar{
 																		alternatives: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 2861, col: 12, offset: 90410},
-																				run: (*parser).callonDocumentFragment1319,
+																				run: (*parser).callonDocumentFragment1322,
 																				expr: &choiceExpr{
 																					pos: position{line: 2861, col: 13, offset: 90411},
 																					alternatives: []interface{}{
@@ -10203,32 +10217,32 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2462, col: 22, offset: 79212},
-											run: (*parser).callonDocumentFragment1328,
+											pos: position{line: 2462, col: 22, offset: 79217},
+											run: (*parser).callonDocumentFragment1331,
 											expr: &seqExpr{
-												pos: position{line: 2462, col: 22, offset: 79212},
+												pos: position{line: 2462, col: 22, offset: 79217},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2467, col: 31, offset: 79433},
+														pos:        position{line: 2467, col: 31, offset: 79438},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2467, col: 36, offset: 79438},
+														pos: position{line: 2467, col: 36, offset: 79443},
 														expr: &litMatcher{
-															pos:        position{line: 2467, col: 37, offset: 79439},
+															pos:        position{line: 2467, col: 37, offset: 79444},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2462, col: 49, offset: 79239},
+														pos:   position{line: 2462, col: 49, offset: 79244},
 														label: "content",
 														expr: &actionExpr{
 															pos: position{line: 2798, col: 13, offset: 88765},
-															run: (*parser).callonDocumentFragment1334,
+															run: (*parser).callonDocumentFragment1337,
 															expr: &zeroOrMoreExpr{
 																pos: position{line: 2798, col: 13, offset: 88765},
 																expr: &charClassMatcher{
@@ -10246,7 +10260,7 @@ var g = &grammar{
 														alternatives: []interface{}{
 															&actionExpr{
 																pos: position{line: 2861, col: 12, offset: 90410},
-																run: (*parser).callonDocumentFragment1338,
+																run: (*parser).callonDocumentFragment1341,
 																expr: &choiceExpr{
 																	pos: position{line: 2861, col: 13, offset: 90411},
 																	alternatives: []interface{}{
@@ -10283,35 +10297,35 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1222, col: 5, offset: 37866},
-											run: (*parser).callonDocumentFragment1345,
+											pos: position{line: 1222, col: 5, offset: 37871},
+											run: (*parser).callonDocumentFragment1348,
 											expr: &seqExpr{
-												pos: position{line: 1222, col: 5, offset: 37866},
+												pos: position{line: 1222, col: 5, offset: 37871},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 1222, col: 5, offset: 37866},
-														run: (*parser).callonDocumentFragment1347,
+														pos: position{line: 1222, col: 5, offset: 37871},
+														run: (*parser).callonDocumentFragment1350,
 													},
 													&labeledExpr{
-														pos:   position{line: 1225, col: 5, offset: 37924},
+														pos:   position{line: 1225, col: 5, offset: 37929},
 														label: "frontmatter",
 														expr: &actionExpr{
-															pos: position{line: 1230, col: 20, offset: 38019},
-															run: (*parser).callonDocumentFragment1349,
+															pos: position{line: 1230, col: 20, offset: 38024},
+															run: (*parser).callonDocumentFragment1352,
 															expr: &seqExpr{
-																pos: position{line: 1230, col: 20, offset: 38019},
+																pos: position{line: 1230, col: 20, offset: 38024},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1234, col: 30, offset: 38191},
+																		pos:        position{line: 1234, col: 30, offset: 38196},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1234, col: 36, offset: 38197},
+																		pos: position{line: 1234, col: 36, offset: 38202},
 																		expr: &actionExpr{
 																			pos: position{line: 2852, col: 10, offset: 90239},
-																			run: (*parser).callonDocumentFragment1353,
+																			run: (*parser).callonDocumentFragment1356,
 																			expr: &charClassMatcher{
 																				pos:        position{line: 2852, col: 10, offset: 90239},
 																				val:        "[\\t ]",
@@ -10326,7 +10340,7 @@ var g = &grammar{
 																		alternatives: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 2861, col: 12, offset: 90410},
-																				run: (*parser).callonDocumentFragment1356,
+																				run: (*parser).callonDocumentFragment1359,
 																				expr: &choiceExpr{
 																					pos: position{line: 2861, col: 13, offset: 90411},
 																					alternatives: []interface{}{
@@ -10360,36 +10374,36 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1230, col: 45, offset: 38044},
+																		pos:   position{line: 1230, col: 45, offset: 38049},
 																		label: "content",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 1230, col: 53, offset: 38052},
+																			pos: position{line: 1230, col: 53, offset: 38057},
 																			expr: &actionExpr{
-																				pos: position{line: 1236, col: 27, offset: 38235},
-																				run: (*parser).callonDocumentFragment1365,
+																				pos: position{line: 1236, col: 27, offset: 38240},
+																				run: (*parser).callonDocumentFragment1368,
 																				expr: &zeroOrMoreExpr{
-																					pos: position{line: 1236, col: 27, offset: 38235},
+																					pos: position{line: 1236, col: 27, offset: 38240},
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1236, col: 28, offset: 38236},
+																						pos: position{line: 1236, col: 28, offset: 38241},
 																						expr: &seqExpr{
-																							pos: position{line: 1236, col: 29, offset: 38237},
+																							pos: position{line: 1236, col: 29, offset: 38242},
 																							exprs: []interface{}{
 																								&notExpr{
-																									pos: position{line: 1236, col: 29, offset: 38237},
+																									pos: position{line: 1236, col: 29, offset: 38242},
 																									expr: &seqExpr{
-																										pos: position{line: 1234, col: 30, offset: 38191},
+																										pos: position{line: 1234, col: 30, offset: 38196},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 1234, col: 30, offset: 38191},
+																												pos:        position{line: 1234, col: 30, offset: 38196},
 																												val:        "---",
 																												ignoreCase: false,
 																												want:       "\"---\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 1234, col: 36, offset: 38197},
+																												pos: position{line: 1234, col: 36, offset: 38202},
 																												expr: &actionExpr{
 																													pos: position{line: 2852, col: 10, offset: 90239},
-																													run: (*parser).callonDocumentFragment1373,
+																													run: (*parser).callonDocumentFragment1376,
 																													expr: &charClassMatcher{
 																														pos:        position{line: 2852, col: 10, offset: 90239},
 																														val:        "[\\t ]",
@@ -10404,7 +10418,7 @@ var g = &grammar{
 																												alternatives: []interface{}{
 																													&actionExpr{
 																														pos: position{line: 2861, col: 12, offset: 90410},
-																														run: (*parser).callonDocumentFragment1376,
+																														run: (*parser).callonDocumentFragment1379,
 																														expr: &choiceExpr{
 																															pos: position{line: 2861, col: 13, offset: 90411},
 																															alternatives: []interface{}{
@@ -10441,7 +10455,7 @@ var g = &grammar{
 																									},
 																								},
 																								&anyMatcher{
-																									line: 1236, col: 55, offset: 38263,
+																									line: 1236, col: 55, offset: 38268,
 																								},
 																							},
 																						},
@@ -10451,16 +10465,16 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1234, col: 30, offset: 38191},
+																		pos:        position{line: 1234, col: 30, offset: 38196},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1234, col: 36, offset: 38197},
+																		pos: position{line: 1234, col: 36, offset: 38202},
 																		expr: &actionExpr{
 																			pos: position{line: 2852, col: 10, offset: 90239},
-																			run: (*parser).callonDocumentFragment1386,
+																			run: (*parser).callonDocumentFragment1389,
 																			expr: &charClassMatcher{
 																				pos:        position{line: 2852, col: 10, offset: 90239},
 																				val:        "[\\t ]",
@@ -10475,7 +10489,7 @@ var g = &grammar{
 																		alternatives: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 2861, col: 12, offset: 90410},
-																				run: (*parser).callonDocumentFragment1389,
+																				run: (*parser).callonDocumentFragment1392,
 																				expr: &choiceExpr{
 																					pos: position{line: 2861, col: 13, offset: 90411},
 																					alternatives: []interface{}{
@@ -10525,7 +10539,7 @@ var g = &grammar{
 						},
 						&andCodeExpr{
 							pos: position{line: 253, col: 5, offset: 7555},
-							run: (*parser).callonDocumentFragment1397,
+							run: (*parser).callonDocumentFragment1400,
 						},
 					},
 				},
@@ -10553,27 +10567,27 @@ var g = &grammar{
 									pos: position{line: 282, col: 9, offset: 8388},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 1198, col: 23, offset: 36972},
+											pos: position{line: 1198, col: 23, offset: 36977},
 											run: (*parser).callonDelimitedBlockElements7,
 											expr: &seqExpr{
-												pos: position{line: 1198, col: 23, offset: 36972},
+												pos: position{line: 1198, col: 23, offset: 36977},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 1196, col: 32, offset: 36940},
+														pos:        position{line: 1196, col: 32, offset: 36945},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 1198, col: 51, offset: 37000},
+														pos:   position{line: 1198, col: 51, offset: 37005},
 														label: "ref",
 														expr: &actionExpr{
-															pos: position{line: 1198, col: 56, offset: 37005},
+															pos: position{line: 1198, col: 56, offset: 37010},
 															run: (*parser).callonDelimitedBlockElements11,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 1198, col: 56, offset: 37005},
+																pos: position{line: 1198, col: 56, offset: 37010},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1198, col: 56, offset: 37005},
+																	pos:        position{line: 1198, col: 56, offset: 37010},
 																	val:        "[0-9]",
 																	ranges:     []rune{'0', '9'},
 																	ignoreCase: false,
@@ -10583,7 +10597,7 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 1196, col: 32, offset: 36940},
+														pos:        position{line: 1196, col: 32, offset: 36945},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
@@ -10984,23 +10998,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2449, col: 5, offset: 78758},
+										pos: position{line: 2449, col: 5, offset: 78763},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2449, col: 5, offset: 78758},
+											pos: position{line: 2449, col: 5, offset: 78763},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2449, col: 5, offset: 78758},
+													pos: position{line: 2449, col: 5, offset: 78763},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2452, col: 5, offset: 78834},
+													pos:   position{line: 2452, col: 5, offset: 78839},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2453, col: 9, offset: 78852},
+														pos: position{line: 2453, col: 9, offset: 78857},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2453, col: 10, offset: 78853},
+															pos:        position{line: 2453, col: 10, offset: 78858},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -11439,27 +11453,27 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1198, col: 23, offset: 36972},
+																						pos: position{line: 1198, col: 23, offset: 36977},
 																						run: (*parser).callonBlockAttributes19,
 																						expr: &seqExpr{
-																							pos: position{line: 1198, col: 23, offset: 36972},
+																							pos: position{line: 1198, col: 23, offset: 36977},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1196, col: 32, offset: 36940},
+																									pos:        position{line: 1196, col: 32, offset: 36945},
 																									val:        "�",
 																									ignoreCase: false,
 																									want:       "\"�\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1198, col: 51, offset: 37000},
+																									pos:   position{line: 1198, col: 51, offset: 37005},
 																									label: "ref",
 																									expr: &actionExpr{
-																										pos: position{line: 1198, col: 56, offset: 37005},
+																										pos: position{line: 1198, col: 56, offset: 37010},
 																										run: (*parser).callonBlockAttributes23,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1198, col: 56, offset: 37005},
+																											pos: position{line: 1198, col: 56, offset: 37010},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1198, col: 56, offset: 37005},
+																												pos:        position{line: 1198, col: 56, offset: 37010},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -11469,7 +11483,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1196, col: 32, offset: 36940},
+																									pos:        position{line: 1196, col: 32, offset: 36945},
 																									val:        "�",
 																									ignoreCase: false,
 																									want:       "\"�\"",
@@ -15772,27 +15786,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1198, col: 23, offset: 36972},
+															pos: position{line: 1198, col: 23, offset: 36977},
 															run: (*parser).callonExternalCrossReference96,
 															expr: &seqExpr{
-																pos: position{line: 1198, col: 23, offset: 36972},
+																pos: position{line: 1198, col: 23, offset: 36977},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1196, col: 32, offset: 36940},
+																		pos:        position{line: 1196, col: 32, offset: 36945},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1198, col: 51, offset: 37000},
+																		pos:   position{line: 1198, col: 51, offset: 37005},
 																		label: "ref",
 																		expr: &actionExpr{
-																			pos: position{line: 1198, col: 56, offset: 37005},
+																			pos: position{line: 1198, col: 56, offset: 37010},
 																			run: (*parser).callonExternalCrossReference100,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1198, col: 56, offset: 37005},
+																				pos: position{line: 1198, col: 56, offset: 37010},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1198, col: 56, offset: 37005},
+																					pos:        position{line: 1198, col: 56, offset: 37010},
 																					val:        "[0-9]",
 																					ranges:     []rune{'0', '9'},
 																					ignoreCase: false,
@@ -15802,7 +15816,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1196, col: 32, offset: 36940},
+																		pos:        position{line: 1196, col: 32, offset: 36945},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
@@ -15842,21 +15856,21 @@ var g = &grammar{
 		},
 		{
 			name: "MarkdownQuoteAttribution",
-			pos:  position{line: 988, col: 1, offset: 30767},
+			pos:  position{line: 988, col: 1, offset: 30772},
 			expr: &actionExpr{
-				pos: position{line: 989, col: 5, offset: 30800},
+				pos: position{line: 989, col: 5, offset: 30805},
 				run: (*parser).callonMarkdownQuoteAttribution1,
 				expr: &seqExpr{
-					pos: position{line: 989, col: 5, offset: 30800},
+					pos: position{line: 989, col: 5, offset: 30805},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 989, col: 5, offset: 30800},
+							pos:        position{line: 989, col: 5, offset: 30805},
 							val:        "-- ",
 							ignoreCase: false,
 							want:       "\"-- \"",
 						},
 						&labeledExpr{
-							pos:   position{line: 989, col: 11, offset: 30806},
+							pos:   position{line: 989, col: 11, offset: 30811},
 							label: "author",
 							expr: &actionExpr{
 								pos: position{line: 2802, col: 14, offset: 88832},
@@ -15917,45 +15931,45 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentHeader",
-			pos:  position{line: 1100, col: 1, offset: 33723},
+			pos:  position{line: 1100, col: 1, offset: 33728},
 			expr: &actionExpr{
-				pos: position{line: 1101, col: 5, offset: 33746},
+				pos: position{line: 1101, col: 5, offset: 33751},
 				run: (*parser).callonDocumentHeader1,
 				expr: &seqExpr{
-					pos: position{line: 1101, col: 5, offset: 33746},
+					pos: position{line: 1101, col: 5, offset: 33751},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1101, col: 5, offset: 33746},
+							pos: position{line: 1101, col: 5, offset: 33751},
 							run: (*parser).callonDocumentHeader3,
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1104, col: 5, offset: 33807},
+							pos: position{line: 1104, col: 5, offset: 33812},
 							expr: &choiceExpr{
-								pos: position{line: 1104, col: 6, offset: 33808},
+								pos: position{line: 1104, col: 6, offset: 33813},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2462, col: 22, offset: 79212},
+										pos: position{line: 2462, col: 22, offset: 79217},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2462, col: 22, offset: 79212},
+											pos: position{line: 2462, col: 22, offset: 79217},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2467, col: 31, offset: 79433},
+													pos:        position{line: 2467, col: 31, offset: 79438},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2467, col: 36, offset: 79438},
+													pos: position{line: 2467, col: 36, offset: 79443},
 													expr: &litMatcher{
-														pos:        position{line: 2467, col: 37, offset: 79439},
+														pos:        position{line: 2467, col: 37, offset: 79444},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2462, col: 49, offset: 79239},
+													pos:   position{line: 2462, col: 49, offset: 79244},
 													label: "content",
 													expr: &actionExpr{
 														pos: position{line: 2798, col: 13, offset: 88765},
@@ -16014,10 +16028,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 820, col: 5, offset: 26324},
+										pos: position{line: 820, col: 5, offset: 26329},
 										run: (*parser).callonDocumentHeader23,
 										expr: &seqExpr{
-											pos: position{line: 820, col: 5, offset: 26324},
+											pos: position{line: 820, col: 5, offset: 26329},
 											exprs: []interface{}{
 												&actionExpr{
 													pos: position{line: 740, col: 5, offset: 23584},
@@ -16109,20 +16123,20 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 821, col: 5, offset: 26355},
+													pos:   position{line: 821, col: 5, offset: 26360},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 831, col: 5, offset: 26641},
+														pos: position{line: 831, col: 5, offset: 26646},
 														expr: &actionExpr{
-															pos: position{line: 831, col: 6, offset: 26642},
+															pos: position{line: 831, col: 6, offset: 26647},
 															run: (*parser).callonDocumentHeader46,
 															expr: &seqExpr{
-																pos: position{line: 831, col: 6, offset: 26642},
+																pos: position{line: 831, col: 6, offset: 26647},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 831, col: 6, offset: 26642},
+																		pos: position{line: 831, col: 6, offset: 26647},
 																		expr: &choiceExpr{
-																			pos: position{line: 828, col: 29, offset: 26584},
+																			pos: position{line: 828, col: 29, offset: 26589},
 																			alternatives: []interface{}{
 																				&actionExpr{
 																					pos: position{line: 740, col: 5, offset: 23584},
@@ -16223,13 +16237,13 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 832, col: 5, offset: 26672},
+																		pos:   position{line: 832, col: 5, offset: 26677},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26088},
+																			pos: position{line: 811, col: 5, offset: 26093},
 																			run: (*parser).callonDocumentHeader72,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26093},
 																				exprs: []interface{}{
 																					&andExpr{
 																						pos: position{line: 2869, col: 11, offset: 90573},
@@ -16238,7 +16252,7 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26163},
+																						pos:   position{line: 812, col: 5, offset: 26168},
 																						label: "content",
 																						expr: &actionExpr{
 																							pos: position{line: 2798, col: 13, offset: 88765},
@@ -16303,9 +16317,9 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 822, col: 5, offset: 26389},
+													pos: position{line: 822, col: 5, offset: 26394},
 													expr: &choiceExpr{
-														pos: position{line: 828, col: 29, offset: 26584},
+														pos: position{line: 828, col: 29, offset: 26589},
 														alternatives: []interface{}{
 															&actionExpr{
 																pos: position{line: 740, col: 5, offset: 23584},
@@ -16412,41 +16426,41 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1105, col: 5, offset: 33904},
+							pos:   position{line: 1105, col: 5, offset: 33909},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1105, col: 12, offset: 33911},
+								pos:  position{line: 1105, col: 12, offset: 33916},
 								name: "DocumentTitle",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1106, col: 5, offset: 33930},
+							pos: position{line: 1106, col: 5, offset: 33935},
 							expr: &choiceExpr{
-								pos: position{line: 1106, col: 6, offset: 33931},
+								pos: position{line: 1106, col: 6, offset: 33936},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2462, col: 22, offset: 79212},
+										pos: position{line: 2462, col: 22, offset: 79217},
 										run: (*parser).callonDocumentHeader115,
 										expr: &seqExpr{
-											pos: position{line: 2462, col: 22, offset: 79212},
+											pos: position{line: 2462, col: 22, offset: 79217},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2467, col: 31, offset: 79433},
+													pos:        position{line: 2467, col: 31, offset: 79438},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2467, col: 36, offset: 79438},
+													pos: position{line: 2467, col: 36, offset: 79443},
 													expr: &litMatcher{
-														pos:        position{line: 2467, col: 37, offset: 79439},
+														pos:        position{line: 2467, col: 37, offset: 79444},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2462, col: 49, offset: 79239},
+													pos:   position{line: 2462, col: 49, offset: 79244},
 													label: "content",
 													expr: &actionExpr{
 														pos: position{line: 2798, col: 13, offset: 88765},
@@ -16505,10 +16519,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 820, col: 5, offset: 26324},
+										pos: position{line: 820, col: 5, offset: 26329},
 										run: (*parser).callonDocumentHeader132,
 										expr: &seqExpr{
-											pos: position{line: 820, col: 5, offset: 26324},
+											pos: position{line: 820, col: 5, offset: 26329},
 											exprs: []interface{}{
 												&actionExpr{
 													pos: position{line: 740, col: 5, offset: 23584},
@@ -16600,20 +16614,20 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 821, col: 5, offset: 26355},
+													pos:   position{line: 821, col: 5, offset: 26360},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 831, col: 5, offset: 26641},
+														pos: position{line: 831, col: 5, offset: 26646},
 														expr: &actionExpr{
-															pos: position{line: 831, col: 6, offset: 26642},
+															pos: position{line: 831, col: 6, offset: 26647},
 															run: (*parser).callonDocumentHeader155,
 															expr: &seqExpr{
-																pos: position{line: 831, col: 6, offset: 26642},
+																pos: position{line: 831, col: 6, offset: 26647},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 831, col: 6, offset: 26642},
+																		pos: position{line: 831, col: 6, offset: 26647},
 																		expr: &choiceExpr{
-																			pos: position{line: 828, col: 29, offset: 26584},
+																			pos: position{line: 828, col: 29, offset: 26589},
 																			alternatives: []interface{}{
 																				&actionExpr{
 																					pos: position{line: 740, col: 5, offset: 23584},
@@ -16714,13 +16728,13 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 832, col: 5, offset: 26672},
+																		pos:   position{line: 832, col: 5, offset: 26677},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26088},
+																			pos: position{line: 811, col: 5, offset: 26093},
 																			run: (*parser).callonDocumentHeader181,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26093},
 																				exprs: []interface{}{
 																					&andExpr{
 																						pos: position{line: 2869, col: 11, offset: 90573},
@@ -16729,7 +16743,7 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26163},
+																						pos:   position{line: 812, col: 5, offset: 26168},
 																						label: "content",
 																						expr: &actionExpr{
 																							pos: position{line: 2798, col: 13, offset: 88765},
@@ -16794,9 +16808,9 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 822, col: 5, offset: 26389},
+													pos: position{line: 822, col: 5, offset: 26394},
 													expr: &choiceExpr{
-														pos: position{line: 828, col: 29, offset: 26584},
+														pos: position{line: 828, col: 29, offset: 26589},
 														alternatives: []interface{}{
 															&actionExpr{
 																pos: position{line: 740, col: 5, offset: 23584},
@@ -16903,36 +16917,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1107, col: 5, offset: 34027},
+							pos:   position{line: 1107, col: 5, offset: 34032},
 							label: "authorsAndRevision",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1107, col: 24, offset: 34046},
+								pos: position{line: 1107, col: 24, offset: 34051},
 								expr: &actionExpr{
-									pos: position{line: 1118, col: 5, offset: 34421},
+									pos: position{line: 1118, col: 5, offset: 34426},
 									run: (*parser).callonDocumentHeader222,
 									expr: &seqExpr{
-										pos: position{line: 1118, col: 5, offset: 34421},
+										pos: position{line: 1118, col: 5, offset: 34426},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1118, col: 5, offset: 34421},
+												pos: position{line: 1118, col: 5, offset: 34426},
 												expr: &litMatcher{
-													pos:        position{line: 1118, col: 6, offset: 34422},
+													pos:        position{line: 1118, col: 6, offset: 34427},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1119, col: 5, offset: 34430},
+												pos:   position{line: 1119, col: 5, offset: 34435},
 												label: "authors",
 												expr: &actionExpr{
-													pos: position{line: 1125, col: 20, offset: 34686},
+													pos: position{line: 1125, col: 20, offset: 34691},
 													run: (*parser).callonDocumentHeader227,
 													expr: &seqExpr{
-														pos: position{line: 1125, col: 20, offset: 34686},
+														pos: position{line: 1125, col: 20, offset: 34691},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 1125, col: 20, offset: 34686},
+																pos: position{line: 1125, col: 20, offset: 34691},
 																expr: &actionExpr{
 																	pos: position{line: 2852, col: 10, offset: 90239},
 																	run: (*parser).callonDocumentHeader230,
@@ -16946,37 +16960,37 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 1125, col: 27, offset: 34693},
+																pos:   position{line: 1125, col: 27, offset: 34698},
 																label: "authors",
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 1125, col: 36, offset: 34702},
+																	pos: position{line: 1125, col: 36, offset: 34707},
 																	expr: &actionExpr{
-																		pos: position{line: 1130, col: 5, offset: 34815},
+																		pos: position{line: 1130, col: 5, offset: 34820},
 																		run: (*parser).callonDocumentHeader234,
 																		expr: &seqExpr{
-																			pos: position{line: 1130, col: 5, offset: 34815},
+																			pos: position{line: 1130, col: 5, offset: 34820},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1130, col: 5, offset: 34815},
+																					pos:   position{line: 1130, col: 5, offset: 34820},
 																					label: "fullName",
 																					expr: &zeroOrOneExpr{
-																						pos: position{line: 1130, col: 14, offset: 34824},
+																						pos: position{line: 1130, col: 14, offset: 34829},
 																						expr: &actionExpr{
-																							pos: position{line: 1141, col: 5, offset: 35204},
+																							pos: position{line: 1141, col: 5, offset: 35209},
 																							run: (*parser).callonDocumentHeader238,
 																							expr: &seqExpr{
-																								pos: position{line: 1141, col: 5, offset: 35204},
+																								pos: position{line: 1141, col: 5, offset: 35209},
 																								exprs: []interface{}{
 																									&labeledExpr{
-																										pos:   position{line: 1141, col: 5, offset: 35204},
+																										pos:   position{line: 1141, col: 5, offset: 35209},
 																										label: "part1",
 																										expr: &actionExpr{
-																											pos: position{line: 1141, col: 12, offset: 35211},
+																											pos: position{line: 1141, col: 12, offset: 35216},
 																											run: (*parser).callonDocumentHeader241,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1141, col: 12, offset: 35211},
+																												pos: position{line: 1141, col: 12, offset: 35216},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1141, col: 12, offset: 35211},
+																													pos:        position{line: 1141, col: 12, offset: 35216},
 																													val:        "[^<;\\r\\n ]",
 																													chars:      []rune{'<', ';', '\r', '\n', ' '},
 																													ignoreCase: false,
@@ -16986,7 +17000,7 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1144, col: 5, offset: 35291},
+																										pos: position{line: 1144, col: 5, offset: 35296},
 																										expr: &actionExpr{
 																											pos: position{line: 2852, col: 10, offset: 90239},
 																											run: (*parser).callonDocumentHeader245,
@@ -17000,17 +17014,17 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1145, col: 5, offset: 35302},
+																										pos:   position{line: 1145, col: 5, offset: 35307},
 																										label: "part2",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 1145, col: 11, offset: 35308},
+																											pos: position{line: 1145, col: 11, offset: 35313},
 																											expr: &actionExpr{
-																												pos: position{line: 1145, col: 12, offset: 35309},
+																												pos: position{line: 1145, col: 12, offset: 35314},
 																												run: (*parser).callonDocumentHeader249,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1145, col: 12, offset: 35309},
+																													pos: position{line: 1145, col: 12, offset: 35314},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1145, col: 12, offset: 35309},
+																														pos:        position{line: 1145, col: 12, offset: 35314},
 																														val:        "[^<;\\r\\n ]",
 																														chars:      []rune{'<', ';', '\r', '\n', ' '},
 																														ignoreCase: false,
@@ -17021,7 +17035,7 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1148, col: 5, offset: 35390},
+																										pos: position{line: 1148, col: 5, offset: 35395},
 																										expr: &actionExpr{
 																											pos: position{line: 2852, col: 10, offset: 90239},
 																											run: (*parser).callonDocumentHeader253,
@@ -17035,17 +17049,17 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1149, col: 5, offset: 35401},
+																										pos:   position{line: 1149, col: 5, offset: 35406},
 																										label: "part3",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 1149, col: 11, offset: 35407},
+																											pos: position{line: 1149, col: 11, offset: 35412},
 																											expr: &actionExpr{
-																												pos: position{line: 1149, col: 12, offset: 35408},
+																												pos: position{line: 1149, col: 12, offset: 35413},
 																												run: (*parser).callonDocumentHeader257,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1149, col: 12, offset: 35408},
+																													pos: position{line: 1149, col: 12, offset: 35413},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1149, col: 12, offset: 35408},
+																														pos:        position{line: 1149, col: 12, offset: 35413},
 																														val:        "[^<;\\r\\n]",
 																														chars:      []rune{'<', ';', '\r', '\n'},
 																														ignoreCase: false,
@@ -17056,7 +17070,7 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1152, col: 5, offset: 35487},
+																										pos: position{line: 1152, col: 5, offset: 35492},
 																										expr: &actionExpr{
 																											pos: position{line: 2852, col: 10, offset: 90239},
 																											run: (*parser).callonDocumentHeader261,
@@ -17075,15 +17089,15 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1130, col: 40, offset: 34850},
+																					pos:   position{line: 1130, col: 40, offset: 34855},
 																					label: "email",
 																					expr: &zeroOrOneExpr{
-																						pos: position{line: 1130, col: 46, offset: 34856},
+																						pos: position{line: 1130, col: 46, offset: 34861},
 																						expr: &actionExpr{
-																							pos: position{line: 1158, col: 5, offset: 35609},
+																							pos: position{line: 1158, col: 5, offset: 35614},
 																							run: (*parser).callonDocumentHeader265,
 																							expr: &seqExpr{
-																								pos: position{line: 1158, col: 5, offset: 35609},
+																								pos: position{line: 1158, col: 5, offset: 35614},
 																								exprs: []interface{}{
 																									&andExpr{
 																										pos: position{line: 2869, col: 11, offset: 90573},
@@ -17092,21 +17106,21 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1159, col: 5, offset: 35621},
+																										pos:        position{line: 1159, col: 5, offset: 35626},
 																										val:        "<",
 																										ignoreCase: false,
 																										want:       "\"<\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1160, col: 5, offset: 35630},
+																										pos:   position{line: 1160, col: 5, offset: 35635},
 																										label: "email",
 																										expr: &actionExpr{
-																											pos: position{line: 1160, col: 12, offset: 35637},
+																											pos: position{line: 1160, col: 12, offset: 35642},
 																											run: (*parser).callonDocumentHeader271,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1160, col: 13, offset: 35638},
+																												pos: position{line: 1160, col: 13, offset: 35643},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1160, col: 13, offset: 35638},
+																													pos:        position{line: 1160, col: 13, offset: 35643},
 																													val:        "[^>\\r\\n]",
 																													chars:      []rune{'>', '\r', '\n'},
 																													ignoreCase: false,
@@ -17116,7 +17130,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1163, col: 5, offset: 35698},
+																										pos:        position{line: 1163, col: 5, offset: 35703},
 																										val:        ">",
 																										ignoreCase: false,
 																										want:       "\">\"",
@@ -17127,7 +17141,7 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1130, col: 69, offset: 34879},
+																					pos: position{line: 1130, col: 69, offset: 34884},
 																					expr: &actionExpr{
 																						pos: position{line: 2852, col: 10, offset: 90239},
 																						run: (*parser).callonDocumentHeader276,
@@ -17141,16 +17155,16 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrOneExpr{
-																					pos: position{line: 1130, col: 76, offset: 34886},
+																					pos: position{line: 1130, col: 76, offset: 34891},
 																					expr: &litMatcher{
-																						pos:        position{line: 1130, col: 76, offset: 34886},
+																						pos:        position{line: 1130, col: 76, offset: 34891},
 																						val:        ";",
 																						ignoreCase: false,
 																						want:       "\";\"",
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1130, col: 81, offset: 34891},
+																					pos: position{line: 1130, col: 81, offset: 34896},
 																					expr: &actionExpr{
 																						pos: position{line: 2852, col: 10, offset: 90239},
 																						run: (*parser).callonDocumentHeader281,
@@ -17164,7 +17178,7 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1131, col: 5, offset: 34903},
+																					pos: position{line: 1131, col: 5, offset: 34908},
 																					run: (*parser).callonDocumentHeader283,
 																				},
 																			},
@@ -17215,33 +17229,33 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 1120, col: 5, offset: 34460},
+												pos: position{line: 1120, col: 5, offset: 34465},
 												expr: &choiceExpr{
-													pos: position{line: 1120, col: 6, offset: 34461},
+													pos: position{line: 1120, col: 6, offset: 34466},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2462, col: 22, offset: 79212},
+															pos: position{line: 2462, col: 22, offset: 79217},
 															run: (*parser).callonDocumentHeader294,
 															expr: &seqExpr{
-																pos: position{line: 2462, col: 22, offset: 79212},
+																pos: position{line: 2462, col: 22, offset: 79217},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2467, col: 31, offset: 79433},
+																		pos:        position{line: 2467, col: 31, offset: 79438},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2467, col: 36, offset: 79438},
+																		pos: position{line: 2467, col: 36, offset: 79443},
 																		expr: &litMatcher{
-																			pos:        position{line: 2467, col: 37, offset: 79439},
+																			pos:        position{line: 2467, col: 37, offset: 79444},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2462, col: 49, offset: 79239},
+																		pos:   position{line: 2462, col: 49, offset: 79244},
 																		label: "content",
 																		expr: &actionExpr{
 																			pos: position{line: 2798, col: 13, offset: 88765},
@@ -17300,10 +17314,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 820, col: 5, offset: 26324},
+															pos: position{line: 820, col: 5, offset: 26329},
 															run: (*parser).callonDocumentHeader311,
 															expr: &seqExpr{
-																pos: position{line: 820, col: 5, offset: 26324},
+																pos: position{line: 820, col: 5, offset: 26329},
 																exprs: []interface{}{
 																	&actionExpr{
 																		pos: position{line: 740, col: 5, offset: 23584},
@@ -17395,20 +17409,20 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 821, col: 5, offset: 26355},
+																		pos:   position{line: 821, col: 5, offset: 26360},
 																		label: "content",
 																		expr: &zeroOrMoreExpr{
-																			pos: position{line: 831, col: 5, offset: 26641},
+																			pos: position{line: 831, col: 5, offset: 26646},
 																			expr: &actionExpr{
-																				pos: position{line: 831, col: 6, offset: 26642},
+																				pos: position{line: 831, col: 6, offset: 26647},
 																				run: (*parser).callonDocumentHeader334,
 																				expr: &seqExpr{
-																					pos: position{line: 831, col: 6, offset: 26642},
+																					pos: position{line: 831, col: 6, offset: 26647},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 831, col: 6, offset: 26642},
+																							pos: position{line: 831, col: 6, offset: 26647},
 																							expr: &choiceExpr{
-																								pos: position{line: 828, col: 29, offset: 26584},
+																								pos: position{line: 828, col: 29, offset: 26589},
 																								alternatives: []interface{}{
 																									&actionExpr{
 																										pos: position{line: 740, col: 5, offset: 23584},
@@ -17509,13 +17523,13 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 832, col: 5, offset: 26672},
+																							pos:   position{line: 832, col: 5, offset: 26677},
 																							label: "line",
 																							expr: &actionExpr{
-																								pos: position{line: 811, col: 5, offset: 26088},
+																								pos: position{line: 811, col: 5, offset: 26093},
 																								run: (*parser).callonDocumentHeader360,
 																								expr: &seqExpr{
-																									pos: position{line: 811, col: 5, offset: 26088},
+																									pos: position{line: 811, col: 5, offset: 26093},
 																									exprs: []interface{}{
 																										&andExpr{
 																											pos: position{line: 2869, col: 11, offset: 90573},
@@ -17524,7 +17538,7 @@ var g = &grammar{
 																											},
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 812, col: 5, offset: 26163},
+																											pos:   position{line: 812, col: 5, offset: 26168},
 																											label: "content",
 																											expr: &actionExpr{
 																												pos: position{line: 2798, col: 13, offset: 88765},
@@ -17589,9 +17603,9 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrOneExpr{
-																		pos: position{line: 822, col: 5, offset: 26389},
+																		pos: position{line: 822, col: 5, offset: 26394},
 																		expr: &choiceExpr{
-																			pos: position{line: 828, col: 29, offset: 26584},
+																			pos: position{line: 828, col: 29, offset: 26589},
 																			alternatives: []interface{}{
 																				&actionExpr{
 																					pos: position{line: 740, col: 5, offset: 23584},
@@ -17698,18 +17712,18 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1121, col: 5, offset: 34535},
+												pos:   position{line: 1121, col: 5, offset: 34540},
 												label: "revision",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 1121, col: 14, offset: 34544},
+													pos: position{line: 1121, col: 14, offset: 34549},
 													expr: &actionExpr{
-														pos: position{line: 1169, col: 21, offset: 35887},
+														pos: position{line: 1169, col: 21, offset: 35892},
 														run: (*parser).callonDocumentHeader401,
 														expr: &seqExpr{
-															pos: position{line: 1169, col: 21, offset: 35887},
+															pos: position{line: 1169, col: 21, offset: 35892},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1169, col: 21, offset: 35887},
+																	pos: position{line: 1169, col: 21, offset: 35892},
 																	expr: &actionExpr{
 																		pos: position{line: 2852, col: 10, offset: 90239},
 																		run: (*parser).callonDocumentHeader404,
@@ -17723,55 +17737,55 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1169, col: 28, offset: 35894},
+																	pos: position{line: 1169, col: 28, offset: 35899},
 																	expr: &litMatcher{
-																		pos:        position{line: 1169, col: 29, offset: 35895},
+																		pos:        position{line: 1169, col: 29, offset: 35900},
 																		val:        ":",
 																		ignoreCase: false,
 																		want:       "\":\"",
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1169, col: 33, offset: 35899},
+																	pos:   position{line: 1169, col: 33, offset: 35904},
 																	label: "revision",
 																	expr: &choiceExpr{
-																		pos: position{line: 1170, col: 9, offset: 35918},
+																		pos: position{line: 1170, col: 9, offset: 35923},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1170, col: 10, offset: 35919},
+																				pos: position{line: 1170, col: 10, offset: 35924},
 																				run: (*parser).callonDocumentHeader410,
 																				expr: &seqExpr{
-																					pos: position{line: 1170, col: 10, offset: 35919},
+																					pos: position{line: 1170, col: 10, offset: 35924},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1170, col: 10, offset: 35919},
+																							pos:   position{line: 1170, col: 10, offset: 35924},
 																							label: "revnumber",
 																							expr: &choiceExpr{
-																								pos: position{line: 1179, col: 27, offset: 36436},
+																								pos: position{line: 1179, col: 27, offset: 36441},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1179, col: 27, offset: 36436},
+																										pos: position{line: 1179, col: 27, offset: 36441},
 																										run: (*parser).callonDocumentHeader414,
 																										expr: &seqExpr{
-																											pos: position{line: 1179, col: 27, offset: 36436},
+																											pos: position{line: 1179, col: 27, offset: 36441},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 1179, col: 27, offset: 36436},
+																													pos:        position{line: 1179, col: 27, offset: 36441},
 																													val:        "v",
 																													ignoreCase: true,
 																													want:       "\"v\"i",
 																												},
 																												&charClassMatcher{
-																													pos:        position{line: 1179, col: 32, offset: 36441},
+																													pos:        position{line: 1179, col: 32, offset: 36446},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&oneOrMoreExpr{
-																													pos: position{line: 1179, col: 38, offset: 36447},
+																													pos: position{line: 1179, col: 38, offset: 36452},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1179, col: 38, offset: 36447},
+																														pos:        position{line: 1179, col: 38, offset: 36452},
 																														val:        "[^:,\\r\\n]",
 																														chars:      []rune{':', ',', '\r', '\n'},
 																														ignoreCase: false,
@@ -17782,31 +17796,31 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1181, col: 5, offset: 36495},
+																										pos: position{line: 1181, col: 5, offset: 36500},
 																										run: (*parser).callonDocumentHeader420,
 																										expr: &seqExpr{
-																											pos: position{line: 1181, col: 5, offset: 36495},
+																											pos: position{line: 1181, col: 5, offset: 36500},
 																											exprs: []interface{}{
 																												&zeroOrOneExpr{
-																													pos: position{line: 1181, col: 5, offset: 36495},
+																													pos: position{line: 1181, col: 5, offset: 36500},
 																													expr: &litMatcher{
-																														pos:        position{line: 1181, col: 5, offset: 36495},
+																														pos:        position{line: 1181, col: 5, offset: 36500},
 																														val:        "v",
 																														ignoreCase: true,
 																														want:       "\"v\"i",
 																													},
 																												},
 																												&charClassMatcher{
-																													pos:        position{line: 1181, col: 11, offset: 36501},
+																													pos:        position{line: 1181, col: 11, offset: 36506},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&oneOrMoreExpr{
-																													pos: position{line: 1181, col: 17, offset: 36507},
+																													pos: position{line: 1181, col: 17, offset: 36512},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1181, col: 17, offset: 36507},
+																														pos:        position{line: 1181, col: 17, offset: 36512},
 																														val:        "[^:,\\r\\n]",
 																														chars:      []rune{':', ',', '\r', '\n'},
 																														ignoreCase: false,
@@ -17814,7 +17828,7 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 1181, col: 28, offset: 36518},
+																													pos: position{line: 1181, col: 28, offset: 36523},
 																													expr: &actionExpr{
 																														pos: position{line: 2852, col: 10, offset: 90239},
 																														run: (*parser).callonDocumentHeader428,
@@ -17828,9 +17842,9 @@ var g = &grammar{
 																													},
 																												},
 																												&andExpr{
-																													pos: position{line: 1181, col: 35, offset: 36525},
+																													pos: position{line: 1181, col: 35, offset: 36530},
 																													expr: &litMatcher{
-																														pos:        position{line: 1181, col: 36, offset: 36526},
+																														pos:        position{line: 1181, col: 36, offset: 36531},
 																														val:        ",",
 																														ignoreCase: false,
 																														want:       "\",\"",
@@ -17843,26 +17857,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1170, col: 45, offset: 35954},
+																							pos: position{line: 1170, col: 45, offset: 35959},
 																							expr: &litMatcher{
-																								pos:        position{line: 1170, col: 45, offset: 35954},
+																								pos:        position{line: 1170, col: 45, offset: 35959},
 																								val:        ",",
 																								ignoreCase: false,
 																								want:       "\",\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1170, col: 50, offset: 35959},
+																							pos:   position{line: 1170, col: 50, offset: 35964},
 																							label: "revdate",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1170, col: 58, offset: 35967},
+																								pos: position{line: 1170, col: 58, offset: 35972},
 																								expr: &actionExpr{
-																									pos: position{line: 1185, col: 25, offset: 36590},
+																									pos: position{line: 1185, col: 25, offset: 36595},
 																									run: (*parser).callonDocumentHeader436,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1185, col: 25, offset: 36590},
+																										pos: position{line: 1185, col: 25, offset: 36595},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1185, col: 25, offset: 36590},
+																											pos:        position{line: 1185, col: 25, offset: 36595},
 																											val:        "[^:\\r\\n]",
 																											chars:      []rune{':', '\r', '\n'},
 																											ignoreCase: false,
@@ -17873,26 +17887,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1170, col: 82, offset: 35991},
+																							pos: position{line: 1170, col: 82, offset: 35996},
 																							expr: &litMatcher{
-																								pos:        position{line: 1170, col: 82, offset: 35991},
+																								pos:        position{line: 1170, col: 82, offset: 35996},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1170, col: 87, offset: 35996},
+																							pos:   position{line: 1170, col: 87, offset: 36001},
 																							label: "revremark",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1170, col: 97, offset: 36006},
+																								pos: position{line: 1170, col: 97, offset: 36011},
 																								expr: &actionExpr{
-																									pos: position{line: 1189, col: 27, offset: 36662},
+																									pos: position{line: 1189, col: 27, offset: 36667},
 																									run: (*parser).callonDocumentHeader443,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1189, col: 27, offset: 36662},
+																										pos: position{line: 1189, col: 27, offset: 36667},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1189, col: 27, offset: 36662},
+																											pos:        position{line: 1189, col: 27, offset: 36667},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -17906,21 +17920,21 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1172, col: 15, offset: 36124},
+																				pos: position{line: 1172, col: 15, offset: 36129},
 																				run: (*parser).callonDocumentHeader446,
 																				expr: &seqExpr{
-																					pos: position{line: 1172, col: 15, offset: 36124},
+																					pos: position{line: 1172, col: 15, offset: 36129},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1172, col: 15, offset: 36124},
+																							pos:   position{line: 1172, col: 15, offset: 36129},
 																							label: "revdate",
 																							expr: &actionExpr{
-																								pos: position{line: 1185, col: 25, offset: 36590},
+																								pos: position{line: 1185, col: 25, offset: 36595},
 																								run: (*parser).callonDocumentHeader449,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1185, col: 25, offset: 36590},
+																									pos: position{line: 1185, col: 25, offset: 36595},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1185, col: 25, offset: 36590},
+																										pos:        position{line: 1185, col: 25, offset: 36595},
 																										val:        "[^:\\r\\n]",
 																										chars:      []rune{':', '\r', '\n'},
 																										ignoreCase: false,
@@ -17930,26 +17944,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1172, col: 46, offset: 36155},
+																							pos: position{line: 1172, col: 46, offset: 36160},
 																							expr: &litMatcher{
-																								pos:        position{line: 1172, col: 46, offset: 36155},
+																								pos:        position{line: 1172, col: 46, offset: 36160},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1172, col: 51, offset: 36160},
+																							pos:   position{line: 1172, col: 51, offset: 36165},
 																							label: "revremark",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1172, col: 61, offset: 36170},
+																								pos: position{line: 1172, col: 61, offset: 36175},
 																								expr: &actionExpr{
-																									pos: position{line: 1189, col: 27, offset: 36662},
+																									pos: position{line: 1189, col: 27, offset: 36667},
 																									run: (*parser).callonDocumentHeader456,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1189, col: 27, offset: 36662},
+																										pos: position{line: 1189, col: 27, offset: 36667},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1189, col: 27, offset: 36662},
+																											pos:        position{line: 1189, col: 27, offset: 36667},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -18014,15 +18028,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1108, col: 5, offset: 34081},
+							pos:   position{line: 1108, col: 5, offset: 34086},
 							label: "extraElements",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1108, col: 19, offset: 34095},
+								pos: position{line: 1108, col: 19, offset: 34100},
 								expr: &choiceExpr{
-									pos: position{line: 1108, col: 20, offset: 34096},
+									pos: position{line: 1108, col: 20, offset: 34101},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 1108, col: 20, offset: 34096},
+											pos:  position{line: 1108, col: 20, offset: 34101},
 											name: "AttributeDeclaration",
 										},
 										&actionExpr{
@@ -18236,28 +18250,28 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2462, col: 22, offset: 79212},
+											pos: position{line: 2462, col: 22, offset: 79217},
 											run: (*parser).callonDocumentHeader513,
 											expr: &seqExpr{
-												pos: position{line: 2462, col: 22, offset: 79212},
+												pos: position{line: 2462, col: 22, offset: 79217},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2467, col: 31, offset: 79433},
+														pos:        position{line: 2467, col: 31, offset: 79438},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2467, col: 36, offset: 79438},
+														pos: position{line: 2467, col: 36, offset: 79443},
 														expr: &litMatcher{
-															pos:        position{line: 2467, col: 37, offset: 79439},
+															pos:        position{line: 2467, col: 37, offset: 79444},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2462, col: 49, offset: 79239},
+														pos:   position{line: 2462, col: 49, offset: 79244},
 														label: "content",
 														expr: &actionExpr{
 															pos: position{line: 2798, col: 13, offset: 88765},
@@ -18316,10 +18330,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 820, col: 5, offset: 26324},
+											pos: position{line: 820, col: 5, offset: 26329},
 											run: (*parser).callonDocumentHeader530,
 											expr: &seqExpr{
-												pos: position{line: 820, col: 5, offset: 26324},
+												pos: position{line: 820, col: 5, offset: 26329},
 												exprs: []interface{}{
 													&actionExpr{
 														pos: position{line: 740, col: 5, offset: 23584},
@@ -18411,20 +18425,20 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 821, col: 5, offset: 26355},
+														pos:   position{line: 821, col: 5, offset: 26360},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 831, col: 5, offset: 26641},
+															pos: position{line: 831, col: 5, offset: 26646},
 															expr: &actionExpr{
-																pos: position{line: 831, col: 6, offset: 26642},
+																pos: position{line: 831, col: 6, offset: 26647},
 																run: (*parser).callonDocumentHeader553,
 																expr: &seqExpr{
-																	pos: position{line: 831, col: 6, offset: 26642},
+																	pos: position{line: 831, col: 6, offset: 26647},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 831, col: 6, offset: 26642},
+																			pos: position{line: 831, col: 6, offset: 26647},
 																			expr: &choiceExpr{
-																				pos: position{line: 828, col: 29, offset: 26584},
+																				pos: position{line: 828, col: 29, offset: 26589},
 																				alternatives: []interface{}{
 																					&actionExpr{
 																						pos: position{line: 740, col: 5, offset: 23584},
@@ -18525,13 +18539,13 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 832, col: 5, offset: 26672},
+																			pos:   position{line: 832, col: 5, offset: 26677},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26093},
 																				run: (*parser).callonDocumentHeader579,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26088},
+																					pos: position{line: 811, col: 5, offset: 26093},
 																					exprs: []interface{}{
 																						&andExpr{
 																							pos: position{line: 2869, col: 11, offset: 90573},
@@ -18540,7 +18554,7 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26163},
+																							pos:   position{line: 812, col: 5, offset: 26168},
 																							label: "content",
 																							expr: &actionExpr{
 																								pos: position{line: 2798, col: 13, offset: 88765},
@@ -18605,9 +18619,9 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 822, col: 5, offset: 26389},
+														pos: position{line: 822, col: 5, offset: 26394},
 														expr: &choiceExpr{
-															pos: position{line: 828, col: 29, offset: 26584},
+															pos: position{line: 828, col: 29, offset: 26589},
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 740, col: 5, offset: 23584},
@@ -18720,15 +18734,15 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentTitle",
-			pos:  position{line: 1112, col: 1, offset: 34293},
+			pos:  position{line: 1112, col: 1, offset: 34298},
 			expr: &actionExpr{
-				pos: position{line: 1113, col: 5, offset: 34315},
+				pos: position{line: 1113, col: 5, offset: 34320},
 				run: (*parser).callonDocumentTitle1,
 				expr: &seqExpr{
-					pos: position{line: 1113, col: 5, offset: 34315},
+					pos: position{line: 1113, col: 5, offset: 34320},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1113, col: 5, offset: 34315},
+							pos:        position{line: 1113, col: 5, offset: 34320},
 							val:        "=",
 							ignoreCase: false,
 							want:       "\"=\"",
@@ -18748,10 +18762,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1113, col: 16, offset: 34326},
+							pos:   position{line: 1113, col: 16, offset: 34331},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1113, col: 23, offset: 34333},
+								pos:  position{line: 1113, col: 23, offset: 34338},
 								name: "SectionTitle",
 							},
 						},
@@ -18799,23 +18813,23 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentAuthorFullName",
-			pos:  position{line: 1140, col: 1, offset: 35173},
+			pos:  position{line: 1140, col: 1, offset: 35178},
 			expr: &actionExpr{
-				pos: position{line: 1141, col: 5, offset: 35204},
+				pos: position{line: 1141, col: 5, offset: 35209},
 				run: (*parser).callonDocumentAuthorFullName1,
 				expr: &seqExpr{
-					pos: position{line: 1141, col: 5, offset: 35204},
+					pos: position{line: 1141, col: 5, offset: 35209},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1141, col: 5, offset: 35204},
+							pos:   position{line: 1141, col: 5, offset: 35209},
 							label: "part1",
 							expr: &actionExpr{
-								pos: position{line: 1141, col: 12, offset: 35211},
+								pos: position{line: 1141, col: 12, offset: 35216},
 								run: (*parser).callonDocumentAuthorFullName4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1141, col: 12, offset: 35211},
+									pos: position{line: 1141, col: 12, offset: 35216},
 									expr: &charClassMatcher{
-										pos:        position{line: 1141, col: 12, offset: 35211},
+										pos:        position{line: 1141, col: 12, offset: 35216},
 										val:        "[^<;\\r\\n ]",
 										chars:      []rune{'<', ';', '\r', '\n', ' '},
 										ignoreCase: false,
@@ -18825,7 +18839,7 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1144, col: 5, offset: 35291},
+							pos: position{line: 1144, col: 5, offset: 35296},
 							expr: &actionExpr{
 								pos: position{line: 2852, col: 10, offset: 90239},
 								run: (*parser).callonDocumentAuthorFullName8,
@@ -18839,17 +18853,17 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1145, col: 5, offset: 35302},
+							pos:   position{line: 1145, col: 5, offset: 35307},
 							label: "part2",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1145, col: 11, offset: 35308},
+								pos: position{line: 1145, col: 11, offset: 35313},
 								expr: &actionExpr{
-									pos: position{line: 1145, col: 12, offset: 35309},
+									pos: position{line: 1145, col: 12, offset: 35314},
 									run: (*parser).callonDocumentAuthorFullName12,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1145, col: 12, offset: 35309},
+										pos: position{line: 1145, col: 12, offset: 35314},
 										expr: &charClassMatcher{
-											pos:        position{line: 1145, col: 12, offset: 35309},
+											pos:        position{line: 1145, col: 12, offset: 35314},
 											val:        "[^<;\\r\\n ]",
 											chars:      []rune{'<', ';', '\r', '\n', ' '},
 											ignoreCase: false,
@@ -18860,7 +18874,7 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1148, col: 5, offset: 35390},
+							pos: position{line: 1148, col: 5, offset: 35395},
 							expr: &actionExpr{
 								pos: position{line: 2852, col: 10, offset: 90239},
 								run: (*parser).callonDocumentAuthorFullName16,
@@ -18874,17 +18888,17 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1149, col: 5, offset: 35401},
+							pos:   position{line: 1149, col: 5, offset: 35406},
 							label: "part3",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1149, col: 11, offset: 35407},
+								pos: position{line: 1149, col: 11, offset: 35412},
 								expr: &actionExpr{
-									pos: position{line: 1149, col: 12, offset: 35408},
+									pos: position{line: 1149, col: 12, offset: 35413},
 									run: (*parser).callonDocumentAuthorFullName20,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1149, col: 12, offset: 35408},
+										pos: position{line: 1149, col: 12, offset: 35413},
 										expr: &charClassMatcher{
-											pos:        position{line: 1149, col: 12, offset: 35408},
+											pos:        position{line: 1149, col: 12, offset: 35413},
 											val:        "[^<;\\r\\n]",
 											chars:      []rune{'<', ';', '\r', '\n'},
 											ignoreCase: false,
@@ -18895,7 +18909,7 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1152, col: 5, offset: 35487},
+							pos: position{line: 1152, col: 5, offset: 35492},
 							expr: &actionExpr{
 								pos: position{line: 2852, col: 10, offset: 90239},
 								run: (*parser).callonDocumentAuthorFullName24,
@@ -18914,28 +18928,28 @@ var g = &grammar{
 		},
 		{
 			name: "InlineButton",
-			pos:  position{line: 1265, col: 1, offset: 39216},
+			pos:  position{line: 1265, col: 1, offset: 39221},
 			expr: &actionExpr{
-				pos: position{line: 1266, col: 5, offset: 39237},
+				pos: position{line: 1266, col: 5, offset: 39242},
 				run: (*parser).callonInlineButton1,
 				expr: &seqExpr{
-					pos: position{line: 1266, col: 5, offset: 39237},
+					pos: position{line: 1266, col: 5, offset: 39242},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1266, col: 5, offset: 39237},
+							pos: position{line: 1266, col: 5, offset: 39242},
 							run: (*parser).callonInlineButton3,
 						},
 						&litMatcher{
-							pos:        position{line: 1269, col: 5, offset: 39296},
+							pos:        position{line: 1269, col: 5, offset: 39301},
 							val:        "btn:",
 							ignoreCase: false,
 							want:       "\"btn:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1269, col: 12, offset: 39303},
+							pos:   position{line: 1269, col: 12, offset: 39308},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1269, col: 24, offset: 39315},
+								pos:  position{line: 1269, col: 24, offset: 39320},
 								name: "InlineAttributes",
 							},
 						},
@@ -18945,25 +18959,25 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMenu",
-			pos:  position{line: 1276, col: 1, offset: 39603},
+			pos:  position{line: 1276, col: 1, offset: 39608},
 			expr: &actionExpr{
-				pos: position{line: 1277, col: 5, offset: 39622},
+				pos: position{line: 1277, col: 5, offset: 39627},
 				run: (*parser).callonInlineMenu1,
 				expr: &seqExpr{
-					pos: position{line: 1277, col: 5, offset: 39622},
+					pos: position{line: 1277, col: 5, offset: 39627},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1277, col: 5, offset: 39622},
+							pos: position{line: 1277, col: 5, offset: 39627},
 							run: (*parser).callonInlineMenu3,
 						},
 						&litMatcher{
-							pos:        position{line: 1280, col: 5, offset: 39681},
+							pos:        position{line: 1280, col: 5, offset: 39686},
 							val:        "menu:",
 							ignoreCase: false,
 							want:       "\"menu:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1280, col: 13, offset: 39689},
+							pos:   position{line: 1280, col: 13, offset: 39694},
 							label: "id",
 							expr: &actionExpr{
 								pos: position{line: 2837, col: 7, offset: 89891},
@@ -18981,10 +18995,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1280, col: 21, offset: 39697},
+							pos:   position{line: 1280, col: 21, offset: 39702},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1280, col: 33, offset: 39709},
+								pos:  position{line: 1280, col: 33, offset: 39714},
 								name: "InlineAttributes",
 							},
 						},
@@ -18994,29 +19008,29 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTerm",
-			pos:  position{line: 1287, col: 1, offset: 40008},
+			pos:  position{line: 1287, col: 1, offset: 40013},
 			expr: &actionExpr{
-				pos: position{line: 1287, col: 14, offset: 40021},
+				pos: position{line: 1287, col: 14, offset: 40026},
 				run: (*parser).callonIndexTerm1,
 				expr: &seqExpr{
-					pos: position{line: 1287, col: 14, offset: 40021},
+					pos: position{line: 1287, col: 14, offset: 40026},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1287, col: 14, offset: 40021},
+							pos:        position{line: 1287, col: 14, offset: 40026},
 							val:        "((",
 							ignoreCase: false,
 							want:       "\"((\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1287, col: 19, offset: 40026},
+							pos:   position{line: 1287, col: 19, offset: 40031},
 							label: "term",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1287, col: 25, offset: 40032},
+								pos:  position{line: 1287, col: 25, offset: 40037},
 								name: "IndexTermContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1287, col: 43, offset: 40050},
+							pos:        position{line: 1287, col: 43, offset: 40055},
 							val:        "))",
 							ignoreCase: false,
 							want:       "\"))\"",
@@ -19027,17 +19041,17 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTermContent",
-			pos:  position{line: 1291, col: 1, offset: 40119},
+			pos:  position{line: 1291, col: 1, offset: 40124},
 			expr: &actionExpr{
-				pos: position{line: 1291, col: 21, offset: 40139},
+				pos: position{line: 1291, col: 21, offset: 40144},
 				run: (*parser).callonIndexTermContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 1291, col: 21, offset: 40139},
+					pos:   position{line: 1291, col: 21, offset: 40144},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 1291, col: 30, offset: 40148},
+						pos: position{line: 1291, col: 30, offset: 40153},
 						expr: &choiceExpr{
-							pos: position{line: 1291, col: 31, offset: 40149},
+							pos: position{line: 1291, col: 31, offset: 40154},
 							alternatives: []interface{}{
 								&actionExpr{
 									pos: position{line: 2746, col: 14, offset: 87408},
@@ -19054,7 +19068,7 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 1291, col: 43, offset: 40161},
+									pos:  position{line: 1291, col: 43, offset: 40166},
 									name: "QuotedText",
 								},
 								&actionExpr{
@@ -19069,23 +19083,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2449, col: 5, offset: 78758},
+									pos: position{line: 2449, col: 5, offset: 78763},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2449, col: 5, offset: 78758},
+										pos: position{line: 2449, col: 5, offset: 78763},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2449, col: 5, offset: 78758},
+												pos: position{line: 2449, col: 5, offset: 78763},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2452, col: 5, offset: 78834},
+												pos:   position{line: 2452, col: 5, offset: 78839},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2453, col: 9, offset: 78852},
+													pos: position{line: 2453, col: 9, offset: 78857},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2453, col: 10, offset: 78853},
+														pos:        position{line: 2453, col: 10, offset: 78858},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -19097,27 +19111,27 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1198, col: 23, offset: 36972},
+									pos: position{line: 1198, col: 23, offset: 36977},
 									run: (*parser).callonIndexTermContent17,
 									expr: &seqExpr{
-										pos: position{line: 1198, col: 23, offset: 36972},
+										pos: position{line: 1198, col: 23, offset: 36977},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 1196, col: 32, offset: 36940},
+												pos:        position{line: 1196, col: 32, offset: 36945},
 												val:        "�",
 												ignoreCase: false,
 												want:       "\"�\"",
 											},
 											&labeledExpr{
-												pos:   position{line: 1198, col: 51, offset: 37000},
+												pos:   position{line: 1198, col: 51, offset: 37005},
 												label: "ref",
 												expr: &actionExpr{
-													pos: position{line: 1198, col: 56, offset: 37005},
+													pos: position{line: 1198, col: 56, offset: 37010},
 													run: (*parser).callonIndexTermContent21,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1198, col: 56, offset: 37005},
+														pos: position{line: 1198, col: 56, offset: 37010},
 														expr: &charClassMatcher{
-															pos:        position{line: 1198, col: 56, offset: 37005},
+															pos:        position{line: 1198, col: 56, offset: 37010},
 															val:        "[0-9]",
 															ranges:     []rune{'0', '9'},
 															ignoreCase: false,
@@ -19127,7 +19141,7 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 1196, col: 32, offset: 36940},
+												pos:        position{line: 1196, col: 32, offset: 36945},
 												val:        "�",
 												ignoreCase: false,
 												want:       "\"�\"",
@@ -19136,22 +19150,22 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1291, col: 104, offset: 40222},
+									pos: position{line: 1291, col: 104, offset: 40227},
 									run: (*parser).callonIndexTermContent25,
 									expr: &seqExpr{
-										pos: position{line: 1291, col: 105, offset: 40223},
+										pos: position{line: 1291, col: 105, offset: 40228},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1291, col: 105, offset: 40223},
+												pos: position{line: 1291, col: 105, offset: 40228},
 												expr: &litMatcher{
-													pos:        position{line: 1291, col: 106, offset: 40224},
+													pos:        position{line: 1291, col: 106, offset: 40229},
 													val:        "))",
 													ignoreCase: false,
 													want:       "\"))\"",
 												},
 											},
 											&anyMatcher{
-												line: 1291, col: 111, offset: 40229,
+												line: 1291, col: 111, offset: 40234,
 											},
 										},
 									},
@@ -19164,21 +19178,21 @@ var g = &grammar{
 		},
 		{
 			name: "ImageBlock",
-			pos:  position{line: 1311, col: 1, offset: 40938},
+			pos:  position{line: 1311, col: 1, offset: 40943},
 			expr: &actionExpr{
-				pos: position{line: 1312, col: 5, offset: 40957},
+				pos: position{line: 1312, col: 5, offset: 40962},
 				run: (*parser).callonImageBlock1,
 				expr: &seqExpr{
-					pos: position{line: 1312, col: 5, offset: 40957},
+					pos: position{line: 1312, col: 5, offset: 40962},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1312, col: 5, offset: 40957},
+							pos:        position{line: 1312, col: 5, offset: 40962},
 							val:        "image::",
 							ignoreCase: false,
 							want:       "\"image::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1312, col: 15, offset: 40967},
+							pos:   position{line: 1312, col: 15, offset: 40972},
 							label: "path",
 							expr: &actionExpr{
 								pos: position{line: 2810, col: 13, offset: 88998},
@@ -19664,27 +19678,27 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1198, col: 23, offset: 36972},
+																	pos: position{line: 1198, col: 23, offset: 36977},
 																	run: (*parser).callonImageBlock106,
 																	expr: &seqExpr{
-																		pos: position{line: 1198, col: 23, offset: 36972},
+																		pos: position{line: 1198, col: 23, offset: 36977},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1196, col: 32, offset: 36940},
+																				pos:        position{line: 1196, col: 32, offset: 36945},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1198, col: 51, offset: 37000},
+																				pos:   position{line: 1198, col: 51, offset: 37005},
 																				label: "ref",
 																				expr: &actionExpr{
-																					pos: position{line: 1198, col: 56, offset: 37005},
+																					pos: position{line: 1198, col: 56, offset: 37010},
 																					run: (*parser).callonImageBlock110,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1198, col: 56, offset: 37005},
+																						pos: position{line: 1198, col: 56, offset: 37010},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 1198, col: 56, offset: 37005},
+																							pos:        position{line: 1198, col: 56, offset: 37010},
 																							val:        "[0-9]",
 																							ranges:     []rune{'0', '9'},
 																							ignoreCase: false,
@@ -19694,7 +19708,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1196, col: 32, offset: 36940},
+																				pos:        position{line: 1196, col: 32, offset: 36945},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
@@ -19723,15 +19737,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1312, col: 31, offset: 40983},
+							pos:   position{line: 1312, col: 31, offset: 40988},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1312, col: 43, offset: 40995},
+								pos:  position{line: 1312, col: 43, offset: 41000},
 								name: "InlineAttributes",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1312, col: 61, offset: 41013},
+							pos: position{line: 1312, col: 61, offset: 41018},
 							expr: &actionExpr{
 								pos: position{line: 2852, col: 10, offset: 90239},
 								run: (*parser).callonImageBlock119,
@@ -19788,30 +19802,30 @@ var g = &grammar{
 		},
 		{
 			name: "InlineImage",
-			pos:  position{line: 1317, col: 1, offset: 41230},
+			pos:  position{line: 1317, col: 1, offset: 41235},
 			expr: &actionExpr{
-				pos: position{line: 1317, col: 16, offset: 41245},
+				pos: position{line: 1317, col: 16, offset: 41250},
 				run: (*parser).callonInlineImage1,
 				expr: &seqExpr{
-					pos: position{line: 1317, col: 16, offset: 41245},
+					pos: position{line: 1317, col: 16, offset: 41250},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1317, col: 16, offset: 41245},
+							pos:        position{line: 1317, col: 16, offset: 41250},
 							val:        "image:",
 							ignoreCase: false,
 							want:       "\"image:\"",
 						},
 						&notExpr{
-							pos: position{line: 1317, col: 25, offset: 41254},
+							pos: position{line: 1317, col: 25, offset: 41259},
 							expr: &litMatcher{
-								pos:        position{line: 1317, col: 26, offset: 41255},
+								pos:        position{line: 1317, col: 26, offset: 41260},
 								val:        ":",
 								ignoreCase: false,
 								want:       "\":\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1317, col: 30, offset: 41259},
+							pos:   position{line: 1317, col: 30, offset: 41264},
 							label: "path",
 							expr: &actionExpr{
 								pos: position{line: 2810, col: 13, offset: 88998},
@@ -20297,27 +20311,27 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1198, col: 23, offset: 36972},
+																	pos: position{line: 1198, col: 23, offset: 36977},
 																	run: (*parser).callonInlineImage108,
 																	expr: &seqExpr{
-																		pos: position{line: 1198, col: 23, offset: 36972},
+																		pos: position{line: 1198, col: 23, offset: 36977},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1196, col: 32, offset: 36940},
+																				pos:        position{line: 1196, col: 32, offset: 36945},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1198, col: 51, offset: 37000},
+																				pos:   position{line: 1198, col: 51, offset: 37005},
 																				label: "ref",
 																				expr: &actionExpr{
-																					pos: position{line: 1198, col: 56, offset: 37005},
+																					pos: position{line: 1198, col: 56, offset: 37010},
 																					run: (*parser).callonInlineImage112,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1198, col: 56, offset: 37005},
+																						pos: position{line: 1198, col: 56, offset: 37010},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 1198, col: 56, offset: 37005},
+																							pos:        position{line: 1198, col: 56, offset: 37010},
 																							val:        "[0-9]",
 																							ranges:     []rune{'0', '9'},
 																							ignoreCase: false,
@@ -20327,7 +20341,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1196, col: 32, offset: 36940},
+																				pos:        position{line: 1196, col: 32, offset: 36945},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
@@ -20356,10 +20370,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1317, col: 46, offset: 41275},
+							pos:   position{line: 1317, col: 46, offset: 41280},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1317, col: 58, offset: 41287},
+								pos:  position{line: 1317, col: 58, offset: 41292},
 								name: "InlineAttributes",
 							},
 						},
@@ -20369,29 +20383,29 @@ var g = &grammar{
 		},
 		{
 			name: "InlineIcon",
-			pos:  position{line: 1324, col: 1, offset: 41683},
+			pos:  position{line: 1324, col: 1, offset: 41688},
 			expr: &actionExpr{
-				pos: position{line: 1324, col: 15, offset: 41697},
+				pos: position{line: 1324, col: 15, offset: 41702},
 				run: (*parser).callonInlineIcon1,
 				expr: &seqExpr{
-					pos: position{line: 1324, col: 15, offset: 41697},
+					pos: position{line: 1324, col: 15, offset: 41702},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1324, col: 15, offset: 41697},
+							pos:        position{line: 1324, col: 15, offset: 41702},
 							val:        "icon:",
 							ignoreCase: false,
 							want:       "\"icon:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1324, col: 23, offset: 41705},
+							pos:   position{line: 1324, col: 23, offset: 41710},
 							label: "icon",
 							expr: &actionExpr{
-								pos: position{line: 1324, col: 29, offset: 41711},
+								pos: position{line: 1324, col: 29, offset: 41716},
 								run: (*parser).callonInlineIcon5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1324, col: 29, offset: 41711},
+									pos: position{line: 1324, col: 29, offset: 41716},
 									expr: &charClassMatcher{
-										pos:        position{line: 1324, col: 29, offset: 41711},
+										pos:        position{line: 1324, col: 29, offset: 41716},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20402,10 +20416,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1324, col: 73, offset: 41755},
+							pos:   position{line: 1324, col: 73, offset: 41760},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1324, col: 85, offset: 41767},
+								pos:  position{line: 1324, col: 85, offset: 41772},
 								name: "InlineAttributes",
 							},
 						},
@@ -20415,31 +20429,31 @@ var g = &grammar{
 		},
 		{
 			name: "InlineFootnote",
-			pos:  position{line: 1331, col: 1, offset: 42133},
+			pos:  position{line: 1331, col: 1, offset: 42138},
 			expr: &actionExpr{
-				pos: position{line: 1331, col: 19, offset: 42151},
+				pos: position{line: 1331, col: 19, offset: 42156},
 				run: (*parser).callonInlineFootnote1,
 				expr: &seqExpr{
-					pos: position{line: 1331, col: 19, offset: 42151},
+					pos: position{line: 1331, col: 19, offset: 42156},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1331, col: 19, offset: 42151},
+							pos:        position{line: 1331, col: 19, offset: 42156},
 							val:        "footnote:",
 							ignoreCase: false,
 							want:       "\"footnote:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1331, col: 31, offset: 42163},
+							pos:   position{line: 1331, col: 31, offset: 42168},
 							label: "ref",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1331, col: 35, offset: 42167},
+								pos: position{line: 1331, col: 35, offset: 42172},
 								expr: &actionExpr{
-									pos: position{line: 1335, col: 16, offset: 42327},
+									pos: position{line: 1335, col: 16, offset: 42332},
 									run: (*parser).callonInlineFootnote6,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1335, col: 16, offset: 42327},
+										pos: position{line: 1335, col: 16, offset: 42332},
 										expr: &charClassMatcher{
-											pos:        position{line: 1335, col: 16, offset: 42327},
+											pos:        position{line: 1335, col: 16, offset: 42332},
 											val:        "[_-\\pL\\pN]",
 											chars:      []rune{'_', '-'},
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20451,21 +20465,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1331, col: 50, offset: 42182},
+							pos:        position{line: 1331, col: 50, offset: 42187},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1331, col: 54, offset: 42186},
+							pos:   position{line: 1331, col: 54, offset: 42191},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1331, col: 64, offset: 42196},
+								pos:  position{line: 1331, col: 64, offset: 42201},
 								name: "FootnoteElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1331, col: 82, offset: 42214},
+							pos:        position{line: 1331, col: 82, offset: 42219},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -20476,17 +20490,17 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElements",
-			pos:  position{line: 1337, col: 1, offset: 42371},
+			pos:  position{line: 1337, col: 1, offset: 42376},
 			expr: &actionExpr{
-				pos: position{line: 1337, col: 21, offset: 42391},
+				pos: position{line: 1337, col: 21, offset: 42396},
 				run: (*parser).callonFootnoteElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1337, col: 21, offset: 42391},
+					pos:   position{line: 1337, col: 21, offset: 42396},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1337, col: 30, offset: 42400},
+						pos: position{line: 1337, col: 30, offset: 42405},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1337, col: 31, offset: 42401},
+							pos:  position{line: 1337, col: 31, offset: 42406},
 							name: "FootnoteElement",
 						},
 					},
@@ -20495,27 +20509,27 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElement",
-			pos:  position{line: 1341, col: 1, offset: 42493},
+			pos:  position{line: 1341, col: 1, offset: 42498},
 			expr: &actionExpr{
-				pos: position{line: 1342, col: 5, offset: 42517},
+				pos: position{line: 1342, col: 5, offset: 42522},
 				run: (*parser).callonFootnoteElement1,
 				expr: &seqExpr{
-					pos: position{line: 1342, col: 5, offset: 42517},
+					pos: position{line: 1342, col: 5, offset: 42522},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1342, col: 5, offset: 42517},
+							pos: position{line: 1342, col: 5, offset: 42522},
 							expr: &litMatcher{
-								pos:        position{line: 1342, col: 6, offset: 42518},
+								pos:        position{line: 1342, col: 6, offset: 42523},
 								val:        "]",
 								ignoreCase: false,
 								want:       "\"]\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1343, col: 5, offset: 42527},
+							pos:   position{line: 1343, col: 5, offset: 42532},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1344, col: 9, offset: 42545},
+								pos: position{line: 1344, col: 9, offset: 42550},
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 2751, col: 5, offset: 87481},
@@ -20598,21 +20612,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2480, col: 5, offset: 79929},
+										pos: position{line: 2480, col: 5, offset: 79934},
 										run: (*parser).callonFootnoteElement24,
 										expr: &seqExpr{
-											pos: position{line: 2480, col: 5, offset: 79929},
+											pos: position{line: 2480, col: 5, offset: 79934},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2480, col: 5, offset: 79929},
+													pos:        position{line: 2480, col: 5, offset: 79934},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2480, col: 10, offset: 79934},
+													pos: position{line: 2480, col: 10, offset: 79939},
 													expr: &charClassMatcher{
-														pos:        position{line: 2480, col: 11, offset: 79935},
+														pos:        position{line: 2480, col: 11, offset: 79940},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -20623,29 +20637,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2486, col: 5, offset: 80127},
+										pos: position{line: 2486, col: 5, offset: 80132},
 										run: (*parser).callonFootnoteElement29,
 										expr: &seqExpr{
-											pos: position{line: 2486, col: 5, offset: 80127},
+											pos: position{line: 2486, col: 5, offset: 80132},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2486, col: 5, offset: 80127},
+													pos: position{line: 2486, col: 5, offset: 80132},
 													run: (*parser).callonFootnoteElement31,
 												},
 												&andCodeExpr{
-													pos: position{line: 2489, col: 5, offset: 80198},
+													pos: position{line: 2489, col: 5, offset: 80203},
 													run: (*parser).callonFootnoteElement32,
 												},
 												&litMatcher{
-													pos:        position{line: 2493, col: 5, offset: 80323},
+													pos:        position{line: 2493, col: 5, offset: 80328},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2493, col: 9, offset: 80327},
+													pos: position{line: 2493, col: 9, offset: 80332},
 													expr: &charClassMatcher{
-														pos:        position{line: 2493, col: 10, offset: 80328},
+														pos:        position{line: 2493, col: 10, offset: 80333},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -20656,11 +20670,11 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1347, col: 11, offset: 42612},
+										pos:  position{line: 1347, col: 11, offset: 42617},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1348, col: 11, offset: 42628},
+										pos:  position{line: 1348, col: 11, offset: 42633},
 										name: "Replacement",
 									},
 									&actionExpr{
@@ -20737,31 +20751,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1350, col: 11, offset: 42701},
+										pos:  position{line: 1350, col: 11, offset: 42706},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 1206, col: 5, offset: 37418},
+										pos: position{line: 1206, col: 5, offset: 37423},
 										run: (*parser).callonFootnoteElement53,
 										expr: &seqExpr{
-											pos: position{line: 1206, col: 5, offset: 37418},
+											pos: position{line: 1206, col: 5, offset: 37423},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 1206, col: 5, offset: 37418},
+													pos: position{line: 1206, col: 5, offset: 37423},
 													run: (*parser).callonFootnoteElement55,
 												},
 												&litMatcher{
-													pos:        position{line: 1209, col: 5, offset: 37494},
+													pos:        position{line: 1209, col: 5, offset: 37499},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&andCodeExpr{
-													pos: position{line: 1210, col: 5, offset: 37502},
+													pos: position{line: 1210, col: 5, offset: 37507},
 													run: (*parser).callonFootnoteElement57,
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1214, col: 5, offset: 37589},
+													pos: position{line: 1214, col: 5, offset: 37594},
 													expr: &actionExpr{
 														pos: position{line: 2852, col: 10, offset: 90239},
 														run: (*parser).callonFootnoteElement59,
@@ -20775,7 +20789,7 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 1214, col: 12, offset: 37596},
+													pos: position{line: 1214, col: 12, offset: 37601},
 													expr: &choiceExpr{
 														pos: position{line: 2874, col: 8, offset: 90637},
 														alternatives: []interface{}{
@@ -21165,23 +21179,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2449, col: 5, offset: 78758},
+										pos: position{line: 2449, col: 5, offset: 78763},
 										run: (*parser).callonFootnoteElement139,
 										expr: &seqExpr{
-											pos: position{line: 2449, col: 5, offset: 78758},
+											pos: position{line: 2449, col: 5, offset: 78763},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2449, col: 5, offset: 78758},
+													pos: position{line: 2449, col: 5, offset: 78763},
 													run: (*parser).callonFootnoteElement141,
 												},
 												&labeledExpr{
-													pos:   position{line: 2452, col: 5, offset: 78834},
+													pos:   position{line: 2452, col: 5, offset: 78839},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2453, col: 9, offset: 78852},
+														pos: position{line: 2453, col: 9, offset: 78857},
 														run: (*parser).callonFootnoteElement143,
 														expr: &charClassMatcher{
-															pos:        position{line: 2453, col: 10, offset: 78853},
+															pos:        position{line: 2453, col: 10, offset: 78858},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -21239,32 +21253,32 @@ var g = &grammar{
 		},
 		{
 			name: "PassthroughMacro",
-			pos:  position{line: 1389, col: 1, offset: 44546},
+			pos:  position{line: 1389, col: 1, offset: 44551},
 			expr: &choiceExpr{
-				pos: position{line: 1389, col: 21, offset: 44566},
+				pos: position{line: 1389, col: 21, offset: 44571},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1389, col: 21, offset: 44566},
+						pos: position{line: 1389, col: 21, offset: 44571},
 						run: (*parser).callonPassthroughMacro2,
 						expr: &seqExpr{
-							pos: position{line: 1389, col: 21, offset: 44566},
+							pos: position{line: 1389, col: 21, offset: 44571},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1389, col: 21, offset: 44566},
+									pos:        position{line: 1389, col: 21, offset: 44571},
 									val:        "pass:[",
 									ignoreCase: false,
 									want:       "\"pass:[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1389, col: 30, offset: 44575},
+									pos:   position{line: 1389, col: 30, offset: 44580},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1389, col: 38, offset: 44583},
+										pos: position{line: 1389, col: 38, offset: 44588},
 										expr: &actionExpr{
-											pos: position{line: 1395, col: 30, offset: 44909},
+											pos: position{line: 1395, col: 30, offset: 44914},
 											run: (*parser).callonPassthroughMacro7,
 											expr: &charClassMatcher{
-												pos:        position{line: 1395, col: 30, offset: 44909},
+												pos:        position{line: 1395, col: 30, offset: 44914},
 												val:        "[^]]",
 												chars:      []rune{']'},
 												ignoreCase: false,
@@ -21274,7 +21288,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1389, col: 67, offset: 44612},
+									pos:        position{line: 1389, col: 67, offset: 44617},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -21283,34 +21297,34 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1391, col: 9, offset: 44716},
+						pos: position{line: 1391, col: 9, offset: 44721},
 						run: (*parser).callonPassthroughMacro10,
 						expr: &seqExpr{
-							pos: position{line: 1391, col: 9, offset: 44716},
+							pos: position{line: 1391, col: 9, offset: 44721},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1391, col: 9, offset: 44716},
+									pos:        position{line: 1391, col: 9, offset: 44721},
 									val:        "pass:q[",
 									ignoreCase: false,
 									want:       "\"pass:q[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1391, col: 19, offset: 44726},
+									pos:   position{line: 1391, col: 19, offset: 44731},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1391, col: 27, offset: 44734},
+										pos: position{line: 1391, col: 27, offset: 44739},
 										expr: &choiceExpr{
-											pos: position{line: 1391, col: 28, offset: 44735},
+											pos: position{line: 1391, col: 28, offset: 44740},
 											alternatives: []interface{}{
 												&ruleRefExpr{
-													pos:  position{line: 1391, col: 28, offset: 44735},
+													pos:  position{line: 1391, col: 28, offset: 44740},
 													name: "QuotedText",
 												},
 												&actionExpr{
-													pos: position{line: 1395, col: 30, offset: 44909},
+													pos: position{line: 1395, col: 30, offset: 44914},
 													run: (*parser).callonPassthroughMacro17,
 													expr: &charClassMatcher{
-														pos:        position{line: 1395, col: 30, offset: 44909},
+														pos:        position{line: 1395, col: 30, offset: 44914},
 														val:        "[^]]",
 														chars:      []rune{']'},
 														ignoreCase: false,
@@ -21322,7 +21336,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1391, col: 69, offset: 44776},
+									pos:        position{line: 1391, col: 69, offset: 44781},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -21335,24 +21349,24 @@ var g = &grammar{
 		},
 		{
 			name: "Link",
-			pos:  position{line: 1402, col: 1, offset: 45165},
+			pos:  position{line: 1402, col: 1, offset: 45170},
 			expr: &choiceExpr{
-				pos: position{line: 1402, col: 9, offset: 45173},
+				pos: position{line: 1402, col: 9, offset: 45178},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1405, col: 5, offset: 45242},
+						pos: position{line: 1405, col: 5, offset: 45247},
 						run: (*parser).callonLink2,
 						expr: &seqExpr{
-							pos: position{line: 1405, col: 5, offset: 45242},
+							pos: position{line: 1405, col: 5, offset: 45247},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1405, col: 5, offset: 45242},
+									pos:        position{line: 1405, col: 5, offset: 45247},
 									val:        "<",
 									ignoreCase: false,
 									want:       "\"<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1406, col: 5, offset: 45251},
+									pos:   position{line: 1406, col: 5, offset: 45256},
 									label: "url",
 									expr: &actionExpr{
 										pos: position{line: 2814, col: 23, offset: 89125},
@@ -21844,27 +21858,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1198, col: 23, offset: 36972},
+																			pos: position{line: 1198, col: 23, offset: 36977},
 																			run: (*parser).callonLink108,
 																			expr: &seqExpr{
-																				pos: position{line: 1198, col: 23, offset: 36972},
+																				pos: position{line: 1198, col: 23, offset: 36977},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36940},
+																						pos:        position{line: 1196, col: 32, offset: 36945},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1198, col: 51, offset: 37000},
+																						pos:   position{line: 1198, col: 51, offset: 37005},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1198, col: 56, offset: 37005},
+																							pos: position{line: 1198, col: 56, offset: 37010},
 																							run: (*parser).callonLink112,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1198, col: 56, offset: 37005},
+																								pos: position{line: 1198, col: 56, offset: 37010},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1198, col: 56, offset: 37005},
+																									pos:        position{line: 1198, col: 56, offset: 37010},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -21874,7 +21888,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36940},
+																						pos:        position{line: 1196, col: 32, offset: 36945},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -21903,7 +21917,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1411, col: 5, offset: 45470},
+									pos:        position{line: 1411, col: 5, offset: 45475},
 									val:        ">",
 									ignoreCase: false,
 									want:       "\">\"",
@@ -21912,38 +21926,38 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1402, col: 19, offset: 45183},
+						pos:  position{line: 1402, col: 19, offset: 45188},
 						name: "RelativeLink",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1402, col: 34, offset: 45198},
+						pos:  position{line: 1402, col: 34, offset: 45203},
 						name: "ExternalLink",
 					},
 					&actionExpr{
-						pos: position{line: 1440, col: 17, offset: 46463},
+						pos: position{line: 1440, col: 17, offset: 46468},
 						run: (*parser).callonLink121,
 						expr: &seqExpr{
-							pos: position{line: 1440, col: 17, offset: 46463},
+							pos: position{line: 1440, col: 17, offset: 46468},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1440, col: 17, offset: 46463},
+									pos:   position{line: 1440, col: 17, offset: 46468},
 									label: "local",
 									expr: &actionExpr{
-										pos: position{line: 1445, col: 5, offset: 46628},
+										pos: position{line: 1445, col: 5, offset: 46633},
 										run: (*parser).callonLink124,
 										expr: &seqExpr{
-											pos: position{line: 1445, col: 5, offset: 46628},
+											pos: position{line: 1445, col: 5, offset: 46633},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1445, col: 5, offset: 46628},
+													pos:   position{line: 1445, col: 5, offset: 46633},
 													label: "local",
 													expr: &actionExpr{
-														pos: position{line: 1445, col: 12, offset: 46635},
+														pos: position{line: 1445, col: 12, offset: 46640},
 														run: (*parser).callonLink127,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1445, col: 12, offset: 46635},
+															pos: position{line: 1445, col: 12, offset: 46640},
 															expr: &charClassMatcher{
-																pos:        position{line: 1445, col: 12, offset: 46635},
+																pos:        position{line: 1445, col: 12, offset: 46640},
 																val:        "[!#$%&\\*=?^_`{|}~.+-/\\pL\\pN]",
 																chars:      []rune{'!', '#', '$', '%', '&', '\'', '*', '=', '?', '^', '_', '`', '{', '|', '}', '~', '.'},
 																ranges:     []rune{'+', '/'},
@@ -21955,7 +21969,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1448, col: 5, offset: 46719},
+													pos: position{line: 1448, col: 5, offset: 46724},
 													run: (*parser).callonLink130,
 												},
 											},
@@ -21963,33 +21977,33 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1440, col: 43, offset: 46489},
+									pos:        position{line: 1440, col: 43, offset: 46494},
 									val:        "@",
 									ignoreCase: false,
 									want:       "\"@\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1440, col: 47, offset: 46493},
+									pos:   position{line: 1440, col: 47, offset: 46498},
 									label: "domain",
 									expr: &actionExpr{
-										pos: position{line: 1457, col: 23, offset: 47013},
+										pos: position{line: 1457, col: 23, offset: 47018},
 										run: (*parser).callonLink133,
 										expr: &seqExpr{
-											pos: position{line: 1457, col: 23, offset: 47013},
+											pos: position{line: 1457, col: 23, offset: 47018},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1457, col: 23, offset: 47013},
+													pos:   position{line: 1457, col: 23, offset: 47018},
 													label: "domain",
 													expr: &actionExpr{
-														pos: position{line: 1457, col: 31, offset: 47021},
+														pos: position{line: 1457, col: 31, offset: 47026},
 														run: (*parser).callonLink136,
 														expr: &seqExpr{
-															pos: position{line: 1457, col: 31, offset: 47021},
+															pos: position{line: 1457, col: 31, offset: 47026},
 															exprs: []interface{}{
 																&oneOrMoreExpr{
-																	pos: position{line: 1457, col: 31, offset: 47021},
+																	pos: position{line: 1457, col: 31, offset: 47026},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 1457, col: 31, offset: 47021},
+																		pos:        position{line: 1457, col: 31, offset: 47026},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -21997,20 +22011,20 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 1457, col: 41, offset: 47031},
+																	pos: position{line: 1457, col: 41, offset: 47036},
 																	expr: &seqExpr{
-																		pos: position{line: 1457, col: 42, offset: 47032},
+																		pos: position{line: 1457, col: 42, offset: 47037},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1457, col: 42, offset: 47032},
+																				pos:        position{line: 1457, col: 42, offset: 47037},
 																				val:        ".",
 																				ignoreCase: false,
 																				want:       "\".\"",
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 1457, col: 46, offset: 47036},
+																				pos: position{line: 1457, col: 46, offset: 47041},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1457, col: 46, offset: 47036},
+																					pos:        position{line: 1457, col: 46, offset: 47041},
 																					val:        "[-\\pL\\pN]",
 																					chars:      []rune{'-'},
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22026,7 +22040,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1460, col: 5, offset: 47097},
+													pos: position{line: 1460, col: 5, offset: 47102},
 													run: (*parser).callonLink145,
 												},
 											},
@@ -22041,24 +22055,24 @@ var g = &grammar{
 		},
 		{
 			name: "RelativeLink",
-			pos:  position{line: 1417, col: 1, offset: 45618},
+			pos:  position{line: 1417, col: 1, offset: 45623},
 			expr: &choiceExpr{
-				pos: position{line: 1419, col: 5, offset: 45654},
+				pos: position{line: 1419, col: 5, offset: 45659},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1419, col: 5, offset: 45654},
+						pos: position{line: 1419, col: 5, offset: 45659},
 						run: (*parser).callonRelativeLink2,
 						expr: &seqExpr{
-							pos: position{line: 1419, col: 5, offset: 45654},
+							pos: position{line: 1419, col: 5, offset: 45659},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1419, col: 5, offset: 45654},
+									pos:        position{line: 1419, col: 5, offset: 45659},
 									val:        "\\link:",
 									ignoreCase: false,
 									want:       "\"\\\\link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1419, col: 17, offset: 45666},
+									pos:   position{line: 1419, col: 17, offset: 45671},
 									label: "url",
 									expr: &actionExpr{
 										pos: position{line: 2810, col: 13, offset: 88998},
@@ -22544,27 +22558,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1198, col: 23, offset: 36972},
+																			pos: position{line: 1198, col: 23, offset: 36977},
 																			run: (*parser).callonRelativeLink107,
 																			expr: &seqExpr{
-																				pos: position{line: 1198, col: 23, offset: 36972},
+																				pos: position{line: 1198, col: 23, offset: 36977},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36940},
+																						pos:        position{line: 1196, col: 32, offset: 36945},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1198, col: 51, offset: 37000},
+																						pos:   position{line: 1198, col: 51, offset: 37005},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1198, col: 56, offset: 37005},
+																							pos: position{line: 1198, col: 56, offset: 37010},
 																							run: (*parser).callonRelativeLink111,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1198, col: 56, offset: 37005},
+																								pos: position{line: 1198, col: 56, offset: 37010},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1198, col: 56, offset: 37005},
+																									pos:        position{line: 1198, col: 56, offset: 37010},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -22574,7 +22588,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36940},
+																						pos:        position{line: 1196, col: 32, offset: 36945},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -22603,10 +22617,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1419, col: 32, offset: 45681},
+									pos:   position{line: 1419, col: 32, offset: 45686},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1419, col: 44, offset: 45693},
+										pos:  position{line: 1419, col: 44, offset: 45698},
 										name: "InlineAttributes",
 									},
 								},
@@ -22614,19 +22628,19 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1424, col: 5, offset: 45825},
+						pos: position{line: 1424, col: 5, offset: 45830},
 						run: (*parser).callonRelativeLink119,
 						expr: &seqExpr{
-							pos: position{line: 1424, col: 5, offset: 45825},
+							pos: position{line: 1424, col: 5, offset: 45830},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1424, col: 5, offset: 45825},
+									pos:        position{line: 1424, col: 5, offset: 45830},
 									val:        "link:",
 									ignoreCase: false,
 									want:       "\"link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1424, col: 13, offset: 45833},
+									pos:   position{line: 1424, col: 13, offset: 45838},
 									label: "url",
 									expr: &actionExpr{
 										pos: position{line: 2810, col: 13, offset: 88998},
@@ -23112,27 +23126,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1198, col: 23, offset: 36972},
+																			pos: position{line: 1198, col: 23, offset: 36977},
 																			run: (*parser).callonRelativeLink224,
 																			expr: &seqExpr{
-																				pos: position{line: 1198, col: 23, offset: 36972},
+																				pos: position{line: 1198, col: 23, offset: 36977},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36940},
+																						pos:        position{line: 1196, col: 32, offset: 36945},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1198, col: 51, offset: 37000},
+																						pos:   position{line: 1198, col: 51, offset: 37005},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1198, col: 56, offset: 37005},
+																							pos: position{line: 1198, col: 56, offset: 37010},
 																							run: (*parser).callonRelativeLink228,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1198, col: 56, offset: 37005},
+																								pos: position{line: 1198, col: 56, offset: 37010},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1198, col: 56, offset: 37005},
+																									pos:        position{line: 1198, col: 56, offset: 37010},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -23142,7 +23156,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36940},
+																						pos:        position{line: 1196, col: 32, offset: 36945},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -23171,10 +23185,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1424, col: 28, offset: 45848},
+									pos:   position{line: 1424, col: 28, offset: 45853},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1424, col: 40, offset: 45860},
+										pos:  position{line: 1424, col: 40, offset: 45865},
 										name: "InlineAttributes",
 									},
 								},
@@ -23186,24 +23200,24 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalLink",
-			pos:  position{line: 1428, col: 1, offset: 45976},
+			pos:  position{line: 1428, col: 1, offset: 45981},
 			expr: &choiceExpr{
-				pos: position{line: 1431, col: 5, offset: 46138},
+				pos: position{line: 1431, col: 5, offset: 46143},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1431, col: 5, offset: 46138},
+						pos: position{line: 1431, col: 5, offset: 46143},
 						run: (*parser).callonExternalLink2,
 						expr: &seqExpr{
-							pos: position{line: 1431, col: 5, offset: 46138},
+							pos: position{line: 1431, col: 5, offset: 46143},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1431, col: 5, offset: 46138},
+									pos:        position{line: 1431, col: 5, offset: 46143},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1431, col: 9, offset: 46142},
+									pos:   position{line: 1431, col: 9, offset: 46147},
 									label: "url",
 									expr: &actionExpr{
 										pos: position{line: 2814, col: 23, offset: 89125},
@@ -23695,27 +23709,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1198, col: 23, offset: 36972},
+																			pos: position{line: 1198, col: 23, offset: 36977},
 																			run: (*parser).callonExternalLink108,
 																			expr: &seqExpr{
-																				pos: position{line: 1198, col: 23, offset: 36972},
+																				pos: position{line: 1198, col: 23, offset: 36977},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36940},
+																						pos:        position{line: 1196, col: 32, offset: 36945},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1198, col: 51, offset: 37000},
+																						pos:   position{line: 1198, col: 51, offset: 37005},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1198, col: 56, offset: 37005},
+																							pos: position{line: 1198, col: 56, offset: 37010},
 																							run: (*parser).callonExternalLink112,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1198, col: 56, offset: 37005},
+																								pos: position{line: 1198, col: 56, offset: 37010},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1198, col: 56, offset: 37005},
+																									pos:        position{line: 1198, col: 56, offset: 37010},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -23725,7 +23739,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36940},
+																						pos:        position{line: 1196, col: 32, offset: 36945},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -23754,12 +23768,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1431, col: 34, offset: 46167},
+									pos:   position{line: 1431, col: 34, offset: 46172},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1431, col: 45, offset: 46178},
+										pos: position{line: 1431, col: 45, offset: 46183},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1431, col: 46, offset: 46179},
+											pos:  position{line: 1431, col: 46, offset: 46184},
 											name: "InlineAttributes",
 										},
 									},
@@ -23768,13 +23782,13 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1436, col: 5, offset: 46312},
+						pos: position{line: 1436, col: 5, offset: 46317},
 						run: (*parser).callonExternalLink121,
 						expr: &seqExpr{
-							pos: position{line: 1436, col: 5, offset: 46312},
+							pos: position{line: 1436, col: 5, offset: 46317},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1436, col: 5, offset: 46312},
+									pos:   position{line: 1436, col: 5, offset: 46317},
 									label: "url",
 									expr: &actionExpr{
 										pos: position{line: 2814, col: 23, offset: 89125},
@@ -24266,27 +24280,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1198, col: 23, offset: 36972},
+																			pos: position{line: 1198, col: 23, offset: 36977},
 																			run: (*parser).callonExternalLink226,
 																			expr: &seqExpr{
-																				pos: position{line: 1198, col: 23, offset: 36972},
+																				pos: position{line: 1198, col: 23, offset: 36977},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36940},
+																						pos:        position{line: 1196, col: 32, offset: 36945},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1198, col: 51, offset: 37000},
+																						pos:   position{line: 1198, col: 51, offset: 37005},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1198, col: 56, offset: 37005},
+																							pos: position{line: 1198, col: 56, offset: 37010},
 																							run: (*parser).callonExternalLink230,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1198, col: 56, offset: 37005},
+																								pos: position{line: 1198, col: 56, offset: 37010},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1198, col: 56, offset: 37005},
+																									pos:        position{line: 1198, col: 56, offset: 37010},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -24296,7 +24310,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36940},
+																						pos:        position{line: 1196, col: 32, offset: 36945},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -24325,12 +24339,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1436, col: 30, offset: 46337},
+									pos:   position{line: 1436, col: 30, offset: 46342},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1436, col: 41, offset: 46348},
+										pos: position{line: 1436, col: 41, offset: 46353},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1436, col: 42, offset: 46349},
+											pos:  position{line: 1436, col: 42, offset: 46354},
 											name: "InlineAttributes",
 										},
 									},
@@ -24343,36 +24357,36 @@ var g = &grammar{
 		},
 		{
 			name: "ListElements",
-			pos:  position{line: 1470, col: 1, offset: 47490},
+			pos:  position{line: 1470, col: 1, offset: 47495},
 			expr: &actionExpr{
-				pos: position{line: 1471, col: 5, offset: 47511},
+				pos: position{line: 1471, col: 5, offset: 47516},
 				run: (*parser).callonListElements1,
 				expr: &seqExpr{
-					pos: position{line: 1471, col: 5, offset: 47511},
+					pos: position{line: 1471, col: 5, offset: 47516},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1471, col: 5, offset: 47511},
+							pos:   position{line: 1471, col: 5, offset: 47516},
 							label: "firstElement",
 							expr: &choiceExpr{
-								pos: position{line: 1477, col: 5, offset: 47713},
+								pos: position{line: 1477, col: 5, offset: 47718},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1570, col: 5, offset: 50647},
+										pos: position{line: 1570, col: 5, offset: 50652},
 										run: (*parser).callonListElements5,
 										expr: &seqExpr{
-											pos: position{line: 1570, col: 5, offset: 50647},
+											pos: position{line: 1570, col: 5, offset: 50652},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1570, col: 5, offset: 50647},
+													pos:   position{line: 1570, col: 5, offset: 50652},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1577, col: 5, offset: 50855},
+														pos: position{line: 1577, col: 5, offset: 50860},
 														run: (*parser).callonListElements8,
 														expr: &seqExpr{
-															pos: position{line: 1577, col: 5, offset: 50855},
+															pos: position{line: 1577, col: 5, offset: 50860},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1577, col: 5, offset: 50855},
+																	pos: position{line: 1577, col: 5, offset: 50860},
 																	expr: &actionExpr{
 																		pos: position{line: 2852, col: 10, offset: 90239},
 																		run: (*parser).callonListElements11,
@@ -24386,27 +24400,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1577, col: 12, offset: 50862},
+																	pos:   position{line: 1577, col: 12, offset: 50867},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1579, col: 9, offset: 50925},
+																		pos: position{line: 1579, col: 9, offset: 50930},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1579, col: 9, offset: 50925},
+																				pos: position{line: 1579, col: 9, offset: 50930},
 																				run: (*parser).callonListElements15,
 																				expr: &seqExpr{
-																					pos: position{line: 1579, col: 9, offset: 50925},
+																					pos: position{line: 1579, col: 9, offset: 50930},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1579, col: 9, offset: 50925},
+																							pos:   position{line: 1579, col: 9, offset: 50930},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1579, col: 16, offset: 50932},
+																								pos: position{line: 1579, col: 16, offset: 50937},
 																								run: (*parser).callonListElements18,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1579, col: 16, offset: 50932},
+																									pos: position{line: 1579, col: 16, offset: 50937},
 																									expr: &litMatcher{
-																										pos:        position{line: 1579, col: 17, offset: 50933},
+																										pos:        position{line: 1579, col: 17, offset: 50938},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -24415,22 +24429,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1583, col: 9, offset: 51033},
+																							pos: position{line: 1583, col: 9, offset: 51038},
 																							run: (*parser).callonListElements21,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1602, col: 11, offset: 51750},
+																				pos: position{line: 1602, col: 11, offset: 51755},
 																				run: (*parser).callonListElements22,
 																				expr: &seqExpr{
-																					pos: position{line: 1602, col: 11, offset: 51750},
+																					pos: position{line: 1602, col: 11, offset: 51755},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1602, col: 11, offset: 51750},
+																							pos: position{line: 1602, col: 11, offset: 51755},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1602, col: 12, offset: 51751},
+																								pos:        position{line: 1602, col: 12, offset: 51756},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -24438,7 +24452,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1602, col: 20, offset: 51759},
+																							pos:        position{line: 1602, col: 20, offset: 51764},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24447,20 +24461,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1604, col: 13, offset: 51876},
+																				pos: position{line: 1604, col: 13, offset: 51881},
 																				run: (*parser).callonListElements27,
 																				expr: &seqExpr{
-																					pos: position{line: 1604, col: 13, offset: 51876},
+																					pos: position{line: 1604, col: 13, offset: 51881},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1604, col: 14, offset: 51877},
+																							pos:        position{line: 1604, col: 14, offset: 51882},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1604, col: 21, offset: 51884},
+																							pos:        position{line: 1604, col: 21, offset: 51889},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24469,20 +24483,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1606, col: 13, offset: 52004},
+																				pos: position{line: 1606, col: 13, offset: 52009},
 																				run: (*parser).callonListElements31,
 																				expr: &seqExpr{
-																					pos: position{line: 1606, col: 13, offset: 52004},
+																					pos: position{line: 1606, col: 13, offset: 52009},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1606, col: 14, offset: 52005},
+																							pos:        position{line: 1606, col: 14, offset: 52010},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1606, col: 21, offset: 52012},
+																							pos:        position{line: 1606, col: 21, offset: 52017},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24491,15 +24505,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1608, col: 13, offset: 52132},
+																				pos: position{line: 1608, col: 13, offset: 52137},
 																				run: (*parser).callonListElements35,
 																				expr: &seqExpr{
-																					pos: position{line: 1608, col: 13, offset: 52132},
+																					pos: position{line: 1608, col: 13, offset: 52137},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1608, col: 13, offset: 52132},
+																							pos: position{line: 1608, col: 13, offset: 52137},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1608, col: 14, offset: 52133},
+																								pos:        position{line: 1608, col: 14, offset: 52138},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -24507,7 +24521,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1608, col: 26, offset: 52145},
+																							pos:        position{line: 1608, col: 26, offset: 52150},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -24516,15 +24530,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1610, col: 13, offset: 52265},
+																				pos: position{line: 1610, col: 13, offset: 52270},
 																				run: (*parser).callonListElements40,
 																				expr: &seqExpr{
-																					pos: position{line: 1610, col: 13, offset: 52265},
+																					pos: position{line: 1610, col: 13, offset: 52270},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1610, col: 13, offset: 52265},
+																							pos: position{line: 1610, col: 13, offset: 52270},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1610, col: 14, offset: 52266},
+																								pos:        position{line: 1610, col: 14, offset: 52271},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -24532,7 +24546,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1610, col: 26, offset: 52278},
+																							pos:        position{line: 1610, col: 26, offset: 52283},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -24562,26 +24576,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1571, col: 5, offset: 50686},
+													pos:   position{line: 1571, col: 5, offset: 50691},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1518, col: 5, offset: 49153},
+														pos: position{line: 1518, col: 5, offset: 49158},
 														run: (*parser).callonListElements49,
 														expr: &seqExpr{
-															pos: position{line: 1518, col: 5, offset: 49153},
+															pos: position{line: 1518, col: 5, offset: 49158},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1518, col: 5, offset: 49153},
+																	pos:   position{line: 1518, col: 5, offset: 49158},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1518, col: 14, offset: 49162},
+																		pos: position{line: 1518, col: 14, offset: 49167},
 																		expr: &actionExpr{
-																			pos: position{line: 1518, col: 15, offset: 49163},
+																			pos: position{line: 1518, col: 15, offset: 49168},
 																			run: (*parser).callonListElements53,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1518, col: 15, offset: 49163},
+																				pos: position{line: 1518, col: 15, offset: 49168},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1518, col: 15, offset: 49163},
+																					pos:        position{line: 1518, col: 15, offset: 49168},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -24637,22 +24651,22 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1620, col: 5, offset: 52544},
+										pos: position{line: 1620, col: 5, offset: 52549},
 										run: (*parser).callonListElements64,
 										expr: &seqExpr{
-											pos: position{line: 1620, col: 5, offset: 52544},
+											pos: position{line: 1620, col: 5, offset: 52549},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1620, col: 5, offset: 52544},
+													pos:   position{line: 1620, col: 5, offset: 52549},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1627, col: 5, offset: 52817},
+														pos: position{line: 1627, col: 5, offset: 52822},
 														run: (*parser).callonListElements67,
 														expr: &seqExpr{
-															pos: position{line: 1627, col: 5, offset: 52817},
+															pos: position{line: 1627, col: 5, offset: 52822},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1627, col: 5, offset: 52817},
+																	pos: position{line: 1627, col: 5, offset: 52822},
 																	expr: &actionExpr{
 																		pos: position{line: 2852, col: 10, offset: 90239},
 																		run: (*parser).callonListElements70,
@@ -24666,24 +24680,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1628, col: 5, offset: 52829},
+																	pos:   position{line: 1628, col: 5, offset: 52834},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1629, col: 9, offset: 52845},
+																		pos: position{line: 1629, col: 9, offset: 52850},
 																		run: (*parser).callonListElements73,
 																		expr: &choiceExpr{
-																			pos: position{line: 1629, col: 10, offset: 52846},
+																			pos: position{line: 1629, col: 10, offset: 52851},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1629, col: 11, offset: 52847},
+																					pos:        position{line: 1629, col: 11, offset: 52852},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1629, col: 18, offset: 52854},
+																					pos: position{line: 1629, col: 18, offset: 52859},
 																					expr: &litMatcher{
-																						pos:        position{line: 1629, col: 19, offset: 52855},
+																						pos:        position{line: 1629, col: 19, offset: 52860},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -24694,7 +24708,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1632, col: 7, offset: 52945},
+																	pos: position{line: 1632, col: 7, offset: 52950},
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
@@ -24716,56 +24730,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1621, col: 5, offset: 52585},
+													pos:   position{line: 1621, col: 5, offset: 52590},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1621, col: 16, offset: 52596},
+														pos: position{line: 1621, col: 16, offset: 52601},
 														expr: &actionExpr{
-															pos: position{line: 1642, col: 5, offset: 53210},
+															pos: position{line: 1642, col: 5, offset: 53215},
 															run: (*parser).callonListElements84,
 															expr: &seqExpr{
-																pos: position{line: 1642, col: 5, offset: 53210},
+																pos: position{line: 1642, col: 5, offset: 53215},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1642, col: 5, offset: 53210},
+																		pos: position{line: 1642, col: 5, offset: 53215},
 																		expr: &litMatcher{
-																			pos:        position{line: 1642, col: 6, offset: 53211},
+																			pos:        position{line: 1642, col: 6, offset: 53216},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1642, col: 10, offset: 53215},
+																		pos:   position{line: 1642, col: 10, offset: 53220},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1643, col: 7, offset: 53229},
+																			pos: position{line: 1643, col: 7, offset: 53234},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1643, col: 7, offset: 53229},
+																					pos: position{line: 1643, col: 7, offset: 53234},
 																					run: (*parser).callonListElements90,
 																					expr: &litMatcher{
-																						pos:        position{line: 1643, col: 7, offset: 53229},
+																						pos:        position{line: 1643, col: 7, offset: 53234},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1644, col: 7, offset: 53274},
+																					pos: position{line: 1644, col: 7, offset: 53279},
 																					run: (*parser).callonListElements92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1644, col: 7, offset: 53274},
+																						pos:        position{line: 1644, col: 7, offset: 53279},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1645, col: 7, offset: 53317},
+																					pos: position{line: 1645, col: 7, offset: 53322},
 																					run: (*parser).callonListElements94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1645, col: 7, offset: 53317},
+																						pos:        position{line: 1645, col: 7, offset: 53322},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -24794,26 +24808,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1622, col: 5, offset: 52635},
+													pos:   position{line: 1622, col: 5, offset: 52640},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1518, col: 5, offset: 49153},
+														pos: position{line: 1518, col: 5, offset: 49158},
 														run: (*parser).callonListElements100,
 														expr: &seqExpr{
-															pos: position{line: 1518, col: 5, offset: 49153},
+															pos: position{line: 1518, col: 5, offset: 49158},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1518, col: 5, offset: 49153},
+																	pos:   position{line: 1518, col: 5, offset: 49158},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1518, col: 14, offset: 49162},
+																		pos: position{line: 1518, col: 14, offset: 49167},
 																		expr: &actionExpr{
-																			pos: position{line: 1518, col: 15, offset: 49163},
+																			pos: position{line: 1518, col: 15, offset: 49168},
 																			run: (*parser).callonListElements104,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1518, col: 15, offset: 49163},
+																				pos: position{line: 1518, col: 15, offset: 49168},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1518, col: 15, offset: 49163},
+																					pos:        position{line: 1518, col: 15, offset: 49168},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -24869,36 +24883,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1710, col: 5, offset: 55157},
+										pos: position{line: 1710, col: 5, offset: 55162},
 										run: (*parser).callonListElements115,
 										expr: &seqExpr{
-											pos: position{line: 1710, col: 5, offset: 55157},
+											pos: position{line: 1710, col: 5, offset: 55162},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1710, col: 5, offset: 55157},
+													pos:   position{line: 1710, col: 5, offset: 55162},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1716, col: 5, offset: 55354},
+														pos: position{line: 1716, col: 5, offset: 55359},
 														run: (*parser).callonListElements118,
 														expr: &seqExpr{
-															pos: position{line: 1716, col: 5, offset: 55354},
+															pos: position{line: 1716, col: 5, offset: 55359},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1716, col: 5, offset: 55354},
+																	pos:        position{line: 1716, col: 5, offset: 55359},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1716, col: 9, offset: 55358},
+																	pos:   position{line: 1716, col: 9, offset: 55363},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1716, col: 14, offset: 55363},
+																		pos: position{line: 1716, col: 14, offset: 55368},
 																		run: (*parser).callonListElements122,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1716, col: 14, offset: 55363},
+																			pos: position{line: 1716, col: 14, offset: 55368},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1716, col: 14, offset: 55363},
+																				pos:        position{line: 1716, col: 14, offset: 55368},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -24908,7 +24922,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1716, col: 62, offset: 55411},
+																	pos:        position{line: 1716, col: 62, offset: 55416},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
@@ -24932,26 +24946,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1711, col: 5, offset: 55193},
+													pos:   position{line: 1711, col: 5, offset: 55198},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1518, col: 5, offset: 49153},
+														pos: position{line: 1518, col: 5, offset: 49158},
 														run: (*parser).callonListElements130,
 														expr: &seqExpr{
-															pos: position{line: 1518, col: 5, offset: 49153},
+															pos: position{line: 1518, col: 5, offset: 49158},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1518, col: 5, offset: 49153},
+																	pos:   position{line: 1518, col: 5, offset: 49158},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1518, col: 14, offset: 49162},
+																		pos: position{line: 1518, col: 14, offset: 49167},
 																		expr: &actionExpr{
-																			pos: position{line: 1518, col: 15, offset: 49163},
+																			pos: position{line: 1518, col: 15, offset: 49168},
 																			run: (*parser).callonListElements134,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1518, col: 15, offset: 49163},
+																				pos: position{line: 1518, col: 15, offset: 49168},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1518, col: 15, offset: 49163},
+																					pos:        position{line: 1518, col: 15, offset: 49168},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25007,40 +25021,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1654, col: 5, offset: 53510},
+										pos: position{line: 1654, col: 5, offset: 53515},
 										run: (*parser).callonListElements145,
 										expr: &seqExpr{
-											pos: position{line: 1654, col: 5, offset: 53510},
+											pos: position{line: 1654, col: 5, offset: 53515},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1654, col: 5, offset: 53510},
+													pos:   position{line: 1654, col: 5, offset: 53515},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1662, col: 5, offset: 53836},
+														pos: position{line: 1662, col: 5, offset: 53841},
 														run: (*parser).callonListElements148,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1662, col: 5, offset: 53836},
+															pos: position{line: 1662, col: 5, offset: 53841},
 															expr: &seqExpr{
-																pos: position{line: 1662, col: 6, offset: 53837},
+																pos: position{line: 1662, col: 6, offset: 53842},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1662, col: 6, offset: 53837},
+																		pos: position{line: 1662, col: 6, offset: 53842},
 																		expr: &actionExpr{
-																			pos: position{line: 1667, col: 5, offset: 53987},
+																			pos: position{line: 1667, col: 5, offset: 53992},
 																			run: (*parser).callonListElements152,
 																			expr: &seqExpr{
-																				pos: position{line: 1667, col: 5, offset: 53987},
+																				pos: position{line: 1667, col: 5, offset: 53992},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 1667, col: 5, offset: 53987},
+																						pos:   position{line: 1667, col: 5, offset: 53992},
 																						label: "separator",
 																						expr: &actionExpr{
-																							pos: position{line: 1667, col: 16, offset: 53998},
+																							pos: position{line: 1667, col: 16, offset: 54003},
 																							run: (*parser).callonListElements155,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1667, col: 16, offset: 53998},
+																								pos: position{line: 1667, col: 16, offset: 54003},
 																								expr: &litMatcher{
-																									pos:        position{line: 1667, col: 17, offset: 53999},
+																									pos:        position{line: 1667, col: 17, offset: 54004},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
@@ -25049,7 +25063,7 @@ var g = &grammar{
 																						},
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1670, col: 5, offset: 54056},
+																						pos: position{line: 1670, col: 5, offset: 54061},
 																						run: (*parser).callonListElements158,
 																					},
 																				},
@@ -25057,7 +25071,7 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1662, col: 35, offset: 53866},
+																		pos: position{line: 1662, col: 35, offset: 53871},
 																		expr: &choiceExpr{
 																			pos: position{line: 2874, col: 8, offset: 90637},
 																			alternatives: []interface{}{
@@ -25098,7 +25112,7 @@ var g = &grammar{
 																		},
 																	},
 																	&anyMatcher{
-																		line: 1662, col: 40, offset: 53871,
+																		line: 1662, col: 40, offset: 53876,
 																	},
 																},
 															},
@@ -25106,24 +25120,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1655, col: 5, offset: 53545},
+													pos:   position{line: 1655, col: 5, offset: 53550},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1667, col: 5, offset: 53987},
+														pos: position{line: 1667, col: 5, offset: 53992},
 														run: (*parser).callonListElements170,
 														expr: &seqExpr{
-															pos: position{line: 1667, col: 5, offset: 53987},
+															pos: position{line: 1667, col: 5, offset: 53992},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1667, col: 5, offset: 53987},
+																	pos:   position{line: 1667, col: 5, offset: 53992},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1667, col: 16, offset: 53998},
+																		pos: position{line: 1667, col: 16, offset: 54003},
 																		run: (*parser).callonListElements173,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1667, col: 16, offset: 53998},
+																			pos: position{line: 1667, col: 16, offset: 54003},
 																			expr: &litMatcher{
-																				pos:        position{line: 1667, col: 17, offset: 53999},
+																				pos:        position{line: 1667, col: 17, offset: 54004},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -25132,7 +25146,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1670, col: 5, offset: 54056},
+																	pos: position{line: 1670, col: 5, offset: 54061},
 																	run: (*parser).callonListElements176,
 																},
 															},
@@ -25140,19 +25154,19 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1656, col: 5, offset: 53590},
+													pos:   position{line: 1656, col: 5, offset: 53595},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1678, col: 5, offset: 54305},
+														pos: position{line: 1678, col: 5, offset: 54310},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1680, col: 9, offset: 54371},
+																pos: position{line: 1680, col: 9, offset: 54376},
 																run: (*parser).callonListElements179,
 																expr: &seqExpr{
-																	pos: position{line: 1680, col: 9, offset: 54371},
+																	pos: position{line: 1680, col: 9, offset: 54376},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1680, col: 9, offset: 54371},
+																			pos: position{line: 1680, col: 9, offset: 54376},
 																			expr: &actionExpr{
 																				pos: position{line: 2852, col: 10, offset: 90239},
 																				run: (*parser).callonListElements182,
@@ -25204,7 +25218,7 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1681, col: 9, offset: 54390},
+																			pos: position{line: 1681, col: 9, offset: 54395},
 																			expr: &actionExpr{
 																				pos: position{line: 677, col: 14, offset: 21489},
 																				run: (*parser).callonListElements193,
@@ -25277,10 +25291,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1687, col: 9, offset: 54519},
+																pos: position{line: 1687, col: 9, offset: 54524},
 																run: (*parser).callonListElements208,
 																expr: &seqExpr{
-																	pos: position{line: 1687, col: 9, offset: 54519},
+																	pos: position{line: 1687, col: 9, offset: 54524},
 																	exprs: []interface{}{
 																		&actionExpr{
 																			pos: position{line: 2856, col: 11, offset: 90300},
@@ -25297,15 +25311,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1688, col: 9, offset: 54592},
+																			pos:   position{line: 1688, col: 9, offset: 54597},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1688, col: 18, offset: 54601},
+																				pos: position{line: 1688, col: 18, offset: 54606},
 																				run: (*parser).callonListElements214,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1688, col: 18, offset: 54601},
+																					pos: position{line: 1688, col: 18, offset: 54606},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1688, col: 18, offset: 54601},
+																						pos:        position{line: 1688, col: 18, offset: 54606},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -25365,10 +25379,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1472, col: 5, offset: 47542},
+							pos:   position{line: 1472, col: 5, offset: 47547},
 							label: "extraElements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1472, col: 20, offset: 47557},
+								pos:  position{line: 1472, col: 20, offset: 47562},
 								name: "ExtraListElements",
 							},
 						},
@@ -25378,17 +25392,17 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElements",
-			pos:  position{line: 1482, col: 1, offset: 47812},
+			pos:  position{line: 1482, col: 1, offset: 47817},
 			expr: &actionExpr{
-				pos: position{line: 1482, col: 22, offset: 47833},
+				pos: position{line: 1482, col: 22, offset: 47838},
 				run: (*parser).callonExtraListElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1482, col: 22, offset: 47833},
+					pos:   position{line: 1482, col: 22, offset: 47838},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1482, col: 31, offset: 47842},
+						pos: position{line: 1482, col: 31, offset: 47847},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1482, col: 32, offset: 47843},
+							pos:  position{line: 1482, col: 32, offset: 47848},
 							name: "ExtraListElement",
 						},
 					},
@@ -25397,12 +25411,12 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElement",
-			pos:  position{line: 1486, col: 1, offset: 47923},
+			pos:  position{line: 1486, col: 1, offset: 47928},
 			expr: &actionExpr{
-				pos: position{line: 1487, col: 5, offset: 48062},
+				pos: position{line: 1487, col: 5, offset: 48067},
 				run: (*parser).callonExtraListElement1,
 				expr: &seqExpr{
-					pos: position{line: 1487, col: 5, offset: 48062},
+					pos: position{line: 1487, col: 5, offset: 48067},
 					exprs: []interface{}{
 						&andExpr{
 							pos: position{line: 2869, col: 11, offset: 90573},
@@ -25411,19 +25425,19 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1488, col: 5, offset: 48074},
+							pos:   position{line: 1488, col: 5, offset: 48079},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1489, col: 9, offset: 48092},
+								pos: position{line: 1489, col: 9, offset: 48097},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1489, col: 13, offset: 48096},
+										pos: position{line: 1489, col: 13, offset: 48101},
 										run: (*parser).callonExtraListElement7,
 										expr: &seqExpr{
-											pos: position{line: 1489, col: 13, offset: 48096},
+											pos: position{line: 1489, col: 13, offset: 48101},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 1489, col: 13, offset: 48096},
+													pos: position{line: 1489, col: 13, offset: 48101},
 													expr: &actionExpr{
 														pos: position{line: 677, col: 14, offset: 21489},
 														run: (*parser).callonExtraListElement10,
@@ -25493,28 +25507,28 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1490, col: 13, offset: 48120},
+													pos:   position{line: 1490, col: 13, offset: 48125},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1490, col: 22, offset: 48129},
+														pos: position{line: 1490, col: 22, offset: 48134},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1570, col: 5, offset: 50647},
+																pos: position{line: 1570, col: 5, offset: 50652},
 																run: (*parser).callonExtraListElement27,
 																expr: &seqExpr{
-																	pos: position{line: 1570, col: 5, offset: 50647},
+																	pos: position{line: 1570, col: 5, offset: 50652},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1570, col: 5, offset: 50647},
+																			pos:   position{line: 1570, col: 5, offset: 50652},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1577, col: 5, offset: 50855},
+																				pos: position{line: 1577, col: 5, offset: 50860},
 																				run: (*parser).callonExtraListElement30,
 																				expr: &seqExpr{
-																					pos: position{line: 1577, col: 5, offset: 50855},
+																					pos: position{line: 1577, col: 5, offset: 50860},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1577, col: 5, offset: 50855},
+																							pos: position{line: 1577, col: 5, offset: 50860},
 																							expr: &actionExpr{
 																								pos: position{line: 2852, col: 10, offset: 90239},
 																								run: (*parser).callonExtraListElement33,
@@ -25528,27 +25542,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1577, col: 12, offset: 50862},
+																							pos:   position{line: 1577, col: 12, offset: 50867},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1579, col: 9, offset: 50925},
+																								pos: position{line: 1579, col: 9, offset: 50930},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1579, col: 9, offset: 50925},
+																										pos: position{line: 1579, col: 9, offset: 50930},
 																										run: (*parser).callonExtraListElement37,
 																										expr: &seqExpr{
-																											pos: position{line: 1579, col: 9, offset: 50925},
+																											pos: position{line: 1579, col: 9, offset: 50930},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1579, col: 9, offset: 50925},
+																													pos:   position{line: 1579, col: 9, offset: 50930},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1579, col: 16, offset: 50932},
+																														pos: position{line: 1579, col: 16, offset: 50937},
 																														run: (*parser).callonExtraListElement40,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1579, col: 16, offset: 50932},
+																															pos: position{line: 1579, col: 16, offset: 50937},
 																															expr: &litMatcher{
-																																pos:        position{line: 1579, col: 17, offset: 50933},
+																																pos:        position{line: 1579, col: 17, offset: 50938},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -25557,22 +25571,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1583, col: 9, offset: 51033},
+																													pos: position{line: 1583, col: 9, offset: 51038},
 																													run: (*parser).callonExtraListElement43,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1602, col: 11, offset: 51750},
+																										pos: position{line: 1602, col: 11, offset: 51755},
 																										run: (*parser).callonExtraListElement44,
 																										expr: &seqExpr{
-																											pos: position{line: 1602, col: 11, offset: 51750},
+																											pos: position{line: 1602, col: 11, offset: 51755},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1602, col: 11, offset: 51750},
+																													pos: position{line: 1602, col: 11, offset: 51755},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1602, col: 12, offset: 51751},
+																														pos:        position{line: 1602, col: 12, offset: 51756},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -25580,7 +25594,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1602, col: 20, offset: 51759},
+																													pos:        position{line: 1602, col: 20, offset: 51764},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -25589,20 +25603,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1604, col: 13, offset: 51876},
+																										pos: position{line: 1604, col: 13, offset: 51881},
 																										run: (*parser).callonExtraListElement49,
 																										expr: &seqExpr{
-																											pos: position{line: 1604, col: 13, offset: 51876},
+																											pos: position{line: 1604, col: 13, offset: 51881},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1604, col: 14, offset: 51877},
+																													pos:        position{line: 1604, col: 14, offset: 51882},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1604, col: 21, offset: 51884},
+																													pos:        position{line: 1604, col: 21, offset: 51889},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -25611,20 +25625,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1606, col: 13, offset: 52004},
+																										pos: position{line: 1606, col: 13, offset: 52009},
 																										run: (*parser).callonExtraListElement53,
 																										expr: &seqExpr{
-																											pos: position{line: 1606, col: 13, offset: 52004},
+																											pos: position{line: 1606, col: 13, offset: 52009},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1606, col: 14, offset: 52005},
+																													pos:        position{line: 1606, col: 14, offset: 52010},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1606, col: 21, offset: 52012},
+																													pos:        position{line: 1606, col: 21, offset: 52017},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -25633,15 +25647,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1608, col: 13, offset: 52132},
+																										pos: position{line: 1608, col: 13, offset: 52137},
 																										run: (*parser).callonExtraListElement57,
 																										expr: &seqExpr{
-																											pos: position{line: 1608, col: 13, offset: 52132},
+																											pos: position{line: 1608, col: 13, offset: 52137},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1608, col: 13, offset: 52132},
+																													pos: position{line: 1608, col: 13, offset: 52137},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1608, col: 14, offset: 52133},
+																														pos:        position{line: 1608, col: 14, offset: 52138},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -25649,7 +25663,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1608, col: 26, offset: 52145},
+																													pos:        position{line: 1608, col: 26, offset: 52150},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -25658,15 +25672,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1610, col: 13, offset: 52265},
+																										pos: position{line: 1610, col: 13, offset: 52270},
 																										run: (*parser).callonExtraListElement62,
 																										expr: &seqExpr{
-																											pos: position{line: 1610, col: 13, offset: 52265},
+																											pos: position{line: 1610, col: 13, offset: 52270},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1610, col: 13, offset: 52265},
+																													pos: position{line: 1610, col: 13, offset: 52270},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1610, col: 14, offset: 52266},
+																														pos:        position{line: 1610, col: 14, offset: 52271},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -25674,7 +25688,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1610, col: 26, offset: 52278},
+																													pos:        position{line: 1610, col: 26, offset: 52283},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -25704,26 +25718,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1571, col: 5, offset: 50686},
+																			pos:   position{line: 1571, col: 5, offset: 50691},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1518, col: 5, offset: 49153},
+																				pos: position{line: 1518, col: 5, offset: 49158},
 																				run: (*parser).callonExtraListElement71,
 																				expr: &seqExpr{
-																					pos: position{line: 1518, col: 5, offset: 49153},
+																					pos: position{line: 1518, col: 5, offset: 49158},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1518, col: 5, offset: 49153},
+																							pos:   position{line: 1518, col: 5, offset: 49158},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1518, col: 14, offset: 49162},
+																								pos: position{line: 1518, col: 14, offset: 49167},
 																								expr: &actionExpr{
-																									pos: position{line: 1518, col: 15, offset: 49163},
+																									pos: position{line: 1518, col: 15, offset: 49168},
 																									run: (*parser).callonExtraListElement75,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1518, col: 15, offset: 49163},
+																										pos: position{line: 1518, col: 15, offset: 49168},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1518, col: 15, offset: 49163},
+																											pos:        position{line: 1518, col: 15, offset: 49168},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -25779,22 +25793,22 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1620, col: 5, offset: 52544},
+																pos: position{line: 1620, col: 5, offset: 52549},
 																run: (*parser).callonExtraListElement86,
 																expr: &seqExpr{
-																	pos: position{line: 1620, col: 5, offset: 52544},
+																	pos: position{line: 1620, col: 5, offset: 52549},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1620, col: 5, offset: 52544},
+																			pos:   position{line: 1620, col: 5, offset: 52549},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1627, col: 5, offset: 52817},
+																				pos: position{line: 1627, col: 5, offset: 52822},
 																				run: (*parser).callonExtraListElement89,
 																				expr: &seqExpr{
-																					pos: position{line: 1627, col: 5, offset: 52817},
+																					pos: position{line: 1627, col: 5, offset: 52822},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1627, col: 5, offset: 52817},
+																							pos: position{line: 1627, col: 5, offset: 52822},
 																							expr: &actionExpr{
 																								pos: position{line: 2852, col: 10, offset: 90239},
 																								run: (*parser).callonExtraListElement92,
@@ -25808,24 +25822,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1628, col: 5, offset: 52829},
+																							pos:   position{line: 1628, col: 5, offset: 52834},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1629, col: 9, offset: 52845},
+																								pos: position{line: 1629, col: 9, offset: 52850},
 																								run: (*parser).callonExtraListElement95,
 																								expr: &choiceExpr{
-																									pos: position{line: 1629, col: 10, offset: 52846},
+																									pos: position{line: 1629, col: 10, offset: 52851},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1629, col: 11, offset: 52847},
+																											pos:        position{line: 1629, col: 11, offset: 52852},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1629, col: 18, offset: 52854},
+																											pos: position{line: 1629, col: 18, offset: 52859},
 																											expr: &litMatcher{
-																												pos:        position{line: 1629, col: 19, offset: 52855},
+																												pos:        position{line: 1629, col: 19, offset: 52860},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -25836,7 +25850,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1632, col: 7, offset: 52945},
+																							pos: position{line: 1632, col: 7, offset: 52950},
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
@@ -25858,56 +25872,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1621, col: 5, offset: 52585},
+																			pos:   position{line: 1621, col: 5, offset: 52590},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1621, col: 16, offset: 52596},
+																				pos: position{line: 1621, col: 16, offset: 52601},
 																				expr: &actionExpr{
-																					pos: position{line: 1642, col: 5, offset: 53210},
+																					pos: position{line: 1642, col: 5, offset: 53215},
 																					run: (*parser).callonExtraListElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 1642, col: 5, offset: 53210},
+																						pos: position{line: 1642, col: 5, offset: 53215},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1642, col: 5, offset: 53210},
+																								pos: position{line: 1642, col: 5, offset: 53215},
 																								expr: &litMatcher{
-																									pos:        position{line: 1642, col: 6, offset: 53211},
+																									pos:        position{line: 1642, col: 6, offset: 53216},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1642, col: 10, offset: 53215},
+																								pos:   position{line: 1642, col: 10, offset: 53220},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1643, col: 7, offset: 53229},
+																									pos: position{line: 1643, col: 7, offset: 53234},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1643, col: 7, offset: 53229},
+																											pos: position{line: 1643, col: 7, offset: 53234},
 																											run: (*parser).callonExtraListElement112,
 																											expr: &litMatcher{
-																												pos:        position{line: 1643, col: 7, offset: 53229},
+																												pos:        position{line: 1643, col: 7, offset: 53234},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1644, col: 7, offset: 53274},
+																											pos: position{line: 1644, col: 7, offset: 53279},
 																											run: (*parser).callonExtraListElement114,
 																											expr: &litMatcher{
-																												pos:        position{line: 1644, col: 7, offset: 53274},
+																												pos:        position{line: 1644, col: 7, offset: 53279},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1645, col: 7, offset: 53317},
+																											pos: position{line: 1645, col: 7, offset: 53322},
 																											run: (*parser).callonExtraListElement116,
 																											expr: &litMatcher{
-																												pos:        position{line: 1645, col: 7, offset: 53317},
+																												pos:        position{line: 1645, col: 7, offset: 53322},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -25936,26 +25950,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1622, col: 5, offset: 52635},
+																			pos:   position{line: 1622, col: 5, offset: 52640},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1518, col: 5, offset: 49153},
+																				pos: position{line: 1518, col: 5, offset: 49158},
 																				run: (*parser).callonExtraListElement122,
 																				expr: &seqExpr{
-																					pos: position{line: 1518, col: 5, offset: 49153},
+																					pos: position{line: 1518, col: 5, offset: 49158},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1518, col: 5, offset: 49153},
+																							pos:   position{line: 1518, col: 5, offset: 49158},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1518, col: 14, offset: 49162},
+																								pos: position{line: 1518, col: 14, offset: 49167},
 																								expr: &actionExpr{
-																									pos: position{line: 1518, col: 15, offset: 49163},
+																									pos: position{line: 1518, col: 15, offset: 49168},
 																									run: (*parser).callonExtraListElement126,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1518, col: 15, offset: 49163},
+																										pos: position{line: 1518, col: 15, offset: 49168},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1518, col: 15, offset: 49163},
+																											pos:        position{line: 1518, col: 15, offset: 49168},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26011,36 +26025,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1710, col: 5, offset: 55157},
+																pos: position{line: 1710, col: 5, offset: 55162},
 																run: (*parser).callonExtraListElement137,
 																expr: &seqExpr{
-																	pos: position{line: 1710, col: 5, offset: 55157},
+																	pos: position{line: 1710, col: 5, offset: 55162},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1710, col: 5, offset: 55157},
+																			pos:   position{line: 1710, col: 5, offset: 55162},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1716, col: 5, offset: 55354},
+																				pos: position{line: 1716, col: 5, offset: 55359},
 																				run: (*parser).callonExtraListElement140,
 																				expr: &seqExpr{
-																					pos: position{line: 1716, col: 5, offset: 55354},
+																					pos: position{line: 1716, col: 5, offset: 55359},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1716, col: 5, offset: 55354},
+																							pos:        position{line: 1716, col: 5, offset: 55359},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1716, col: 9, offset: 55358},
+																							pos:   position{line: 1716, col: 9, offset: 55363},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1716, col: 14, offset: 55363},
+																								pos: position{line: 1716, col: 14, offset: 55368},
 																								run: (*parser).callonExtraListElement144,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1716, col: 14, offset: 55363},
+																									pos: position{line: 1716, col: 14, offset: 55368},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1716, col: 14, offset: 55363},
+																										pos:        position{line: 1716, col: 14, offset: 55368},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -26050,7 +26064,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1716, col: 62, offset: 55411},
+																							pos:        position{line: 1716, col: 62, offset: 55416},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
@@ -26074,26 +26088,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1711, col: 5, offset: 55193},
+																			pos:   position{line: 1711, col: 5, offset: 55198},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1518, col: 5, offset: 49153},
+																				pos: position{line: 1518, col: 5, offset: 49158},
 																				run: (*parser).callonExtraListElement152,
 																				expr: &seqExpr{
-																					pos: position{line: 1518, col: 5, offset: 49153},
+																					pos: position{line: 1518, col: 5, offset: 49158},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1518, col: 5, offset: 49153},
+																							pos:   position{line: 1518, col: 5, offset: 49158},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1518, col: 14, offset: 49162},
+																								pos: position{line: 1518, col: 14, offset: 49167},
 																								expr: &actionExpr{
-																									pos: position{line: 1518, col: 15, offset: 49163},
+																									pos: position{line: 1518, col: 15, offset: 49168},
 																									run: (*parser).callonExtraListElement156,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1518, col: 15, offset: 49163},
+																										pos: position{line: 1518, col: 15, offset: 49168},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1518, col: 15, offset: 49163},
+																											pos:        position{line: 1518, col: 15, offset: 49168},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26149,40 +26163,40 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1654, col: 5, offset: 53510},
+																pos: position{line: 1654, col: 5, offset: 53515},
 																run: (*parser).callonExtraListElement167,
 																expr: &seqExpr{
-																	pos: position{line: 1654, col: 5, offset: 53510},
+																	pos: position{line: 1654, col: 5, offset: 53515},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1654, col: 5, offset: 53510},
+																			pos:   position{line: 1654, col: 5, offset: 53515},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1662, col: 5, offset: 53836},
+																				pos: position{line: 1662, col: 5, offset: 53841},
 																				run: (*parser).callonExtraListElement170,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1662, col: 5, offset: 53836},
+																					pos: position{line: 1662, col: 5, offset: 53841},
 																					expr: &seqExpr{
-																						pos: position{line: 1662, col: 6, offset: 53837},
+																						pos: position{line: 1662, col: 6, offset: 53842},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1662, col: 6, offset: 53837},
+																								pos: position{line: 1662, col: 6, offset: 53842},
 																								expr: &actionExpr{
-																									pos: position{line: 1667, col: 5, offset: 53987},
+																									pos: position{line: 1667, col: 5, offset: 53992},
 																									run: (*parser).callonExtraListElement174,
 																									expr: &seqExpr{
-																										pos: position{line: 1667, col: 5, offset: 53987},
+																										pos: position{line: 1667, col: 5, offset: 53992},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1667, col: 5, offset: 53987},
+																												pos:   position{line: 1667, col: 5, offset: 53992},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1667, col: 16, offset: 53998},
+																													pos: position{line: 1667, col: 16, offset: 54003},
 																													run: (*parser).callonExtraListElement177,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1667, col: 16, offset: 53998},
+																														pos: position{line: 1667, col: 16, offset: 54003},
 																														expr: &litMatcher{
-																															pos:        position{line: 1667, col: 17, offset: 53999},
+																															pos:        position{line: 1667, col: 17, offset: 54004},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -26191,7 +26205,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1670, col: 5, offset: 54056},
+																												pos: position{line: 1670, col: 5, offset: 54061},
 																												run: (*parser).callonExtraListElement180,
 																											},
 																										},
@@ -26199,7 +26213,7 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1662, col: 35, offset: 53866},
+																								pos: position{line: 1662, col: 35, offset: 53871},
 																								expr: &choiceExpr{
 																									pos: position{line: 2874, col: 8, offset: 90637},
 																									alternatives: []interface{}{
@@ -26240,7 +26254,7 @@ var g = &grammar{
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1662, col: 40, offset: 53871,
+																								line: 1662, col: 40, offset: 53876,
 																							},
 																						},
 																					},
@@ -26248,24 +26262,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1655, col: 5, offset: 53545},
+																			pos:   position{line: 1655, col: 5, offset: 53550},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1667, col: 5, offset: 53987},
+																				pos: position{line: 1667, col: 5, offset: 53992},
 																				run: (*parser).callonExtraListElement192,
 																				expr: &seqExpr{
-																					pos: position{line: 1667, col: 5, offset: 53987},
+																					pos: position{line: 1667, col: 5, offset: 53992},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1667, col: 5, offset: 53987},
+																							pos:   position{line: 1667, col: 5, offset: 53992},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1667, col: 16, offset: 53998},
+																								pos: position{line: 1667, col: 16, offset: 54003},
 																								run: (*parser).callonExtraListElement195,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1667, col: 16, offset: 53998},
+																									pos: position{line: 1667, col: 16, offset: 54003},
 																									expr: &litMatcher{
-																										pos:        position{line: 1667, col: 17, offset: 53999},
+																										pos:        position{line: 1667, col: 17, offset: 54004},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -26274,7 +26288,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1670, col: 5, offset: 54056},
+																							pos: position{line: 1670, col: 5, offset: 54061},
 																							run: (*parser).callonExtraListElement198,
 																						},
 																					},
@@ -26282,19 +26296,19 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1656, col: 5, offset: 53590},
+																			pos:   position{line: 1656, col: 5, offset: 53595},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1678, col: 5, offset: 54305},
+																				pos: position{line: 1678, col: 5, offset: 54310},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1680, col: 9, offset: 54371},
+																						pos: position{line: 1680, col: 9, offset: 54376},
 																						run: (*parser).callonExtraListElement201,
 																						expr: &seqExpr{
-																							pos: position{line: 1680, col: 9, offset: 54371},
+																							pos: position{line: 1680, col: 9, offset: 54376},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1680, col: 9, offset: 54371},
+																									pos: position{line: 1680, col: 9, offset: 54376},
 																									expr: &actionExpr{
 																										pos: position{line: 2852, col: 10, offset: 90239},
 																										run: (*parser).callonExtraListElement204,
@@ -26346,7 +26360,7 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1681, col: 9, offset: 54390},
+																									pos: position{line: 1681, col: 9, offset: 54395},
 																									expr: &actionExpr{
 																										pos: position{line: 677, col: 14, offset: 21489},
 																										run: (*parser).callonExtraListElement215,
@@ -26419,10 +26433,10 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1687, col: 9, offset: 54519},
+																						pos: position{line: 1687, col: 9, offset: 54524},
 																						run: (*parser).callonExtraListElement230,
 																						expr: &seqExpr{
-																							pos: position{line: 1687, col: 9, offset: 54519},
+																							pos: position{line: 1687, col: 9, offset: 54524},
 																							exprs: []interface{}{
 																								&actionExpr{
 																									pos: position{line: 2856, col: 11, offset: 90300},
@@ -26439,15 +26453,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1688, col: 9, offset: 54592},
+																									pos:   position{line: 1688, col: 9, offset: 54597},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1688, col: 18, offset: 54601},
+																										pos: position{line: 1688, col: 18, offset: 54606},
 																										run: (*parser).callonExtraListElement236,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1688, col: 18, offset: 54601},
+																											pos: position{line: 1688, col: 18, offset: 54606},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1688, col: 18, offset: 54601},
+																												pos:        position{line: 1688, col: 18, offset: 54606},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -26510,45 +26524,45 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1493, col: 13, offset: 48280},
+										pos: position{line: 1493, col: 13, offset: 48285},
 										run: (*parser).callonExtraListElement247,
 										expr: &seqExpr{
-											pos: position{line: 1493, col: 13, offset: 48280},
+											pos: position{line: 1493, col: 13, offset: 48285},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1493, col: 13, offset: 48280},
+													pos:   position{line: 1493, col: 13, offset: 48285},
 													label: "attributes",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1493, col: 24, offset: 48291},
+														pos: position{line: 1493, col: 24, offset: 48296},
 														expr: &ruleRefExpr{
-															pos:  position{line: 1493, col: 25, offset: 48292},
+															pos:  position{line: 1493, col: 25, offset: 48297},
 															name: "BlockAttributes",
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1494, col: 13, offset: 48323},
+													pos:   position{line: 1494, col: 13, offset: 48328},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1494, col: 22, offset: 48332},
+														pos: position{line: 1494, col: 22, offset: 48337},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1570, col: 5, offset: 50647},
+																pos: position{line: 1570, col: 5, offset: 50652},
 																run: (*parser).callonExtraListElement254,
 																expr: &seqExpr{
-																	pos: position{line: 1570, col: 5, offset: 50647},
+																	pos: position{line: 1570, col: 5, offset: 50652},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1570, col: 5, offset: 50647},
+																			pos:   position{line: 1570, col: 5, offset: 50652},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1577, col: 5, offset: 50855},
+																				pos: position{line: 1577, col: 5, offset: 50860},
 																				run: (*parser).callonExtraListElement257,
 																				expr: &seqExpr{
-																					pos: position{line: 1577, col: 5, offset: 50855},
+																					pos: position{line: 1577, col: 5, offset: 50860},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1577, col: 5, offset: 50855},
+																							pos: position{line: 1577, col: 5, offset: 50860},
 																							expr: &actionExpr{
 																								pos: position{line: 2852, col: 10, offset: 90239},
 																								run: (*parser).callonExtraListElement260,
@@ -26562,27 +26576,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1577, col: 12, offset: 50862},
+																							pos:   position{line: 1577, col: 12, offset: 50867},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1579, col: 9, offset: 50925},
+																								pos: position{line: 1579, col: 9, offset: 50930},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1579, col: 9, offset: 50925},
+																										pos: position{line: 1579, col: 9, offset: 50930},
 																										run: (*parser).callonExtraListElement264,
 																										expr: &seqExpr{
-																											pos: position{line: 1579, col: 9, offset: 50925},
+																											pos: position{line: 1579, col: 9, offset: 50930},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1579, col: 9, offset: 50925},
+																													pos:   position{line: 1579, col: 9, offset: 50930},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1579, col: 16, offset: 50932},
+																														pos: position{line: 1579, col: 16, offset: 50937},
 																														run: (*parser).callonExtraListElement267,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1579, col: 16, offset: 50932},
+																															pos: position{line: 1579, col: 16, offset: 50937},
 																															expr: &litMatcher{
-																																pos:        position{line: 1579, col: 17, offset: 50933},
+																																pos:        position{line: 1579, col: 17, offset: 50938},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -26591,22 +26605,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1583, col: 9, offset: 51033},
+																													pos: position{line: 1583, col: 9, offset: 51038},
 																													run: (*parser).callonExtraListElement270,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1602, col: 11, offset: 51750},
+																										pos: position{line: 1602, col: 11, offset: 51755},
 																										run: (*parser).callonExtraListElement271,
 																										expr: &seqExpr{
-																											pos: position{line: 1602, col: 11, offset: 51750},
+																											pos: position{line: 1602, col: 11, offset: 51755},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1602, col: 11, offset: 51750},
+																													pos: position{line: 1602, col: 11, offset: 51755},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1602, col: 12, offset: 51751},
+																														pos:        position{line: 1602, col: 12, offset: 51756},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -26614,7 +26628,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1602, col: 20, offset: 51759},
+																													pos:        position{line: 1602, col: 20, offset: 51764},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26623,20 +26637,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1604, col: 13, offset: 51876},
+																										pos: position{line: 1604, col: 13, offset: 51881},
 																										run: (*parser).callonExtraListElement276,
 																										expr: &seqExpr{
-																											pos: position{line: 1604, col: 13, offset: 51876},
+																											pos: position{line: 1604, col: 13, offset: 51881},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1604, col: 14, offset: 51877},
+																													pos:        position{line: 1604, col: 14, offset: 51882},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1604, col: 21, offset: 51884},
+																													pos:        position{line: 1604, col: 21, offset: 51889},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26645,20 +26659,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1606, col: 13, offset: 52004},
+																										pos: position{line: 1606, col: 13, offset: 52009},
 																										run: (*parser).callonExtraListElement280,
 																										expr: &seqExpr{
-																											pos: position{line: 1606, col: 13, offset: 52004},
+																											pos: position{line: 1606, col: 13, offset: 52009},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1606, col: 14, offset: 52005},
+																													pos:        position{line: 1606, col: 14, offset: 52010},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1606, col: 21, offset: 52012},
+																													pos:        position{line: 1606, col: 21, offset: 52017},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26667,15 +26681,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1608, col: 13, offset: 52132},
+																										pos: position{line: 1608, col: 13, offset: 52137},
 																										run: (*parser).callonExtraListElement284,
 																										expr: &seqExpr{
-																											pos: position{line: 1608, col: 13, offset: 52132},
+																											pos: position{line: 1608, col: 13, offset: 52137},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1608, col: 13, offset: 52132},
+																													pos: position{line: 1608, col: 13, offset: 52137},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1608, col: 14, offset: 52133},
+																														pos:        position{line: 1608, col: 14, offset: 52138},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -26683,7 +26697,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1608, col: 26, offset: 52145},
+																													pos:        position{line: 1608, col: 26, offset: 52150},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26692,15 +26706,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1610, col: 13, offset: 52265},
+																										pos: position{line: 1610, col: 13, offset: 52270},
 																										run: (*parser).callonExtraListElement289,
 																										expr: &seqExpr{
-																											pos: position{line: 1610, col: 13, offset: 52265},
+																											pos: position{line: 1610, col: 13, offset: 52270},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1610, col: 13, offset: 52265},
+																													pos: position{line: 1610, col: 13, offset: 52270},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1610, col: 14, offset: 52266},
+																														pos:        position{line: 1610, col: 14, offset: 52271},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -26708,7 +26722,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1610, col: 26, offset: 52278},
+																													pos:        position{line: 1610, col: 26, offset: 52283},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26738,26 +26752,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1571, col: 5, offset: 50686},
+																			pos:   position{line: 1571, col: 5, offset: 50691},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1518, col: 5, offset: 49153},
+																				pos: position{line: 1518, col: 5, offset: 49158},
 																				run: (*parser).callonExtraListElement298,
 																				expr: &seqExpr{
-																					pos: position{line: 1518, col: 5, offset: 49153},
+																					pos: position{line: 1518, col: 5, offset: 49158},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1518, col: 5, offset: 49153},
+																							pos:   position{line: 1518, col: 5, offset: 49158},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1518, col: 14, offset: 49162},
+																								pos: position{line: 1518, col: 14, offset: 49167},
 																								expr: &actionExpr{
-																									pos: position{line: 1518, col: 15, offset: 49163},
+																									pos: position{line: 1518, col: 15, offset: 49168},
 																									run: (*parser).callonExtraListElement302,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1518, col: 15, offset: 49163},
+																										pos: position{line: 1518, col: 15, offset: 49168},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1518, col: 15, offset: 49163},
+																											pos:        position{line: 1518, col: 15, offset: 49168},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26813,22 +26827,22 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1620, col: 5, offset: 52544},
+																pos: position{line: 1620, col: 5, offset: 52549},
 																run: (*parser).callonExtraListElement313,
 																expr: &seqExpr{
-																	pos: position{line: 1620, col: 5, offset: 52544},
+																	pos: position{line: 1620, col: 5, offset: 52549},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1620, col: 5, offset: 52544},
+																			pos:   position{line: 1620, col: 5, offset: 52549},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1627, col: 5, offset: 52817},
+																				pos: position{line: 1627, col: 5, offset: 52822},
 																				run: (*parser).callonExtraListElement316,
 																				expr: &seqExpr{
-																					pos: position{line: 1627, col: 5, offset: 52817},
+																					pos: position{line: 1627, col: 5, offset: 52822},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1627, col: 5, offset: 52817},
+																							pos: position{line: 1627, col: 5, offset: 52822},
 																							expr: &actionExpr{
 																								pos: position{line: 2852, col: 10, offset: 90239},
 																								run: (*parser).callonExtraListElement319,
@@ -26842,24 +26856,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1628, col: 5, offset: 52829},
+																							pos:   position{line: 1628, col: 5, offset: 52834},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1629, col: 9, offset: 52845},
+																								pos: position{line: 1629, col: 9, offset: 52850},
 																								run: (*parser).callonExtraListElement322,
 																								expr: &choiceExpr{
-																									pos: position{line: 1629, col: 10, offset: 52846},
+																									pos: position{line: 1629, col: 10, offset: 52851},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1629, col: 11, offset: 52847},
+																											pos:        position{line: 1629, col: 11, offset: 52852},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1629, col: 18, offset: 52854},
+																											pos: position{line: 1629, col: 18, offset: 52859},
 																											expr: &litMatcher{
-																												pos:        position{line: 1629, col: 19, offset: 52855},
+																												pos:        position{line: 1629, col: 19, offset: 52860},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -26870,7 +26884,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1632, col: 7, offset: 52945},
+																							pos: position{line: 1632, col: 7, offset: 52950},
 																							run: (*parser).callonExtraListElement327,
 																						},
 																						&actionExpr{
@@ -26892,56 +26906,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1621, col: 5, offset: 52585},
+																			pos:   position{line: 1621, col: 5, offset: 52590},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1621, col: 16, offset: 52596},
+																				pos: position{line: 1621, col: 16, offset: 52601},
 																				expr: &actionExpr{
-																					pos: position{line: 1642, col: 5, offset: 53210},
+																					pos: position{line: 1642, col: 5, offset: 53215},
 																					run: (*parser).callonExtraListElement333,
 																					expr: &seqExpr{
-																						pos: position{line: 1642, col: 5, offset: 53210},
+																						pos: position{line: 1642, col: 5, offset: 53215},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1642, col: 5, offset: 53210},
+																								pos: position{line: 1642, col: 5, offset: 53215},
 																								expr: &litMatcher{
-																									pos:        position{line: 1642, col: 6, offset: 53211},
+																									pos:        position{line: 1642, col: 6, offset: 53216},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1642, col: 10, offset: 53215},
+																								pos:   position{line: 1642, col: 10, offset: 53220},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1643, col: 7, offset: 53229},
+																									pos: position{line: 1643, col: 7, offset: 53234},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1643, col: 7, offset: 53229},
+																											pos: position{line: 1643, col: 7, offset: 53234},
 																											run: (*parser).callonExtraListElement339,
 																											expr: &litMatcher{
-																												pos:        position{line: 1643, col: 7, offset: 53229},
+																												pos:        position{line: 1643, col: 7, offset: 53234},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1644, col: 7, offset: 53274},
+																											pos: position{line: 1644, col: 7, offset: 53279},
 																											run: (*parser).callonExtraListElement341,
 																											expr: &litMatcher{
-																												pos:        position{line: 1644, col: 7, offset: 53274},
+																												pos:        position{line: 1644, col: 7, offset: 53279},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1645, col: 7, offset: 53317},
+																											pos: position{line: 1645, col: 7, offset: 53322},
 																											run: (*parser).callonExtraListElement343,
 																											expr: &litMatcher{
-																												pos:        position{line: 1645, col: 7, offset: 53317},
+																												pos:        position{line: 1645, col: 7, offset: 53322},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -26970,26 +26984,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1622, col: 5, offset: 52635},
+																			pos:   position{line: 1622, col: 5, offset: 52640},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1518, col: 5, offset: 49153},
+																				pos: position{line: 1518, col: 5, offset: 49158},
 																				run: (*parser).callonExtraListElement349,
 																				expr: &seqExpr{
-																					pos: position{line: 1518, col: 5, offset: 49153},
+																					pos: position{line: 1518, col: 5, offset: 49158},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1518, col: 5, offset: 49153},
+																							pos:   position{line: 1518, col: 5, offset: 49158},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1518, col: 14, offset: 49162},
+																								pos: position{line: 1518, col: 14, offset: 49167},
 																								expr: &actionExpr{
-																									pos: position{line: 1518, col: 15, offset: 49163},
+																									pos: position{line: 1518, col: 15, offset: 49168},
 																									run: (*parser).callonExtraListElement353,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1518, col: 15, offset: 49163},
+																										pos: position{line: 1518, col: 15, offset: 49168},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1518, col: 15, offset: 49163},
+																											pos:        position{line: 1518, col: 15, offset: 49168},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27045,36 +27059,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1710, col: 5, offset: 55157},
+																pos: position{line: 1710, col: 5, offset: 55162},
 																run: (*parser).callonExtraListElement364,
 																expr: &seqExpr{
-																	pos: position{line: 1710, col: 5, offset: 55157},
+																	pos: position{line: 1710, col: 5, offset: 55162},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1710, col: 5, offset: 55157},
+																			pos:   position{line: 1710, col: 5, offset: 55162},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1716, col: 5, offset: 55354},
+																				pos: position{line: 1716, col: 5, offset: 55359},
 																				run: (*parser).callonExtraListElement367,
 																				expr: &seqExpr{
-																					pos: position{line: 1716, col: 5, offset: 55354},
+																					pos: position{line: 1716, col: 5, offset: 55359},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1716, col: 5, offset: 55354},
+																							pos:        position{line: 1716, col: 5, offset: 55359},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1716, col: 9, offset: 55358},
+																							pos:   position{line: 1716, col: 9, offset: 55363},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1716, col: 14, offset: 55363},
+																								pos: position{line: 1716, col: 14, offset: 55368},
 																								run: (*parser).callonExtraListElement371,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1716, col: 14, offset: 55363},
+																									pos: position{line: 1716, col: 14, offset: 55368},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1716, col: 14, offset: 55363},
+																										pos:        position{line: 1716, col: 14, offset: 55368},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -27084,7 +27098,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1716, col: 62, offset: 55411},
+																							pos:        position{line: 1716, col: 62, offset: 55416},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
@@ -27108,26 +27122,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1711, col: 5, offset: 55193},
+																			pos:   position{line: 1711, col: 5, offset: 55198},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1518, col: 5, offset: 49153},
+																				pos: position{line: 1518, col: 5, offset: 49158},
 																				run: (*parser).callonExtraListElement379,
 																				expr: &seqExpr{
-																					pos: position{line: 1518, col: 5, offset: 49153},
+																					pos: position{line: 1518, col: 5, offset: 49158},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1518, col: 5, offset: 49153},
+																							pos:   position{line: 1518, col: 5, offset: 49158},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1518, col: 14, offset: 49162},
+																								pos: position{line: 1518, col: 14, offset: 49167},
 																								expr: &actionExpr{
-																									pos: position{line: 1518, col: 15, offset: 49163},
+																									pos: position{line: 1518, col: 15, offset: 49168},
 																									run: (*parser).callonExtraListElement383,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1518, col: 15, offset: 49163},
+																										pos: position{line: 1518, col: 15, offset: 49168},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1518, col: 15, offset: 49163},
+																											pos:        position{line: 1518, col: 15, offset: 49168},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27183,40 +27197,40 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1654, col: 5, offset: 53510},
+																pos: position{line: 1654, col: 5, offset: 53515},
 																run: (*parser).callonExtraListElement394,
 																expr: &seqExpr{
-																	pos: position{line: 1654, col: 5, offset: 53510},
+																	pos: position{line: 1654, col: 5, offset: 53515},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1654, col: 5, offset: 53510},
+																			pos:   position{line: 1654, col: 5, offset: 53515},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1662, col: 5, offset: 53836},
+																				pos: position{line: 1662, col: 5, offset: 53841},
 																				run: (*parser).callonExtraListElement397,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1662, col: 5, offset: 53836},
+																					pos: position{line: 1662, col: 5, offset: 53841},
 																					expr: &seqExpr{
-																						pos: position{line: 1662, col: 6, offset: 53837},
+																						pos: position{line: 1662, col: 6, offset: 53842},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1662, col: 6, offset: 53837},
+																								pos: position{line: 1662, col: 6, offset: 53842},
 																								expr: &actionExpr{
-																									pos: position{line: 1667, col: 5, offset: 53987},
+																									pos: position{line: 1667, col: 5, offset: 53992},
 																									run: (*parser).callonExtraListElement401,
 																									expr: &seqExpr{
-																										pos: position{line: 1667, col: 5, offset: 53987},
+																										pos: position{line: 1667, col: 5, offset: 53992},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1667, col: 5, offset: 53987},
+																												pos:   position{line: 1667, col: 5, offset: 53992},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1667, col: 16, offset: 53998},
+																													pos: position{line: 1667, col: 16, offset: 54003},
 																													run: (*parser).callonExtraListElement404,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1667, col: 16, offset: 53998},
+																														pos: position{line: 1667, col: 16, offset: 54003},
 																														expr: &litMatcher{
-																															pos:        position{line: 1667, col: 17, offset: 53999},
+																															pos:        position{line: 1667, col: 17, offset: 54004},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -27225,7 +27239,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1670, col: 5, offset: 54056},
+																												pos: position{line: 1670, col: 5, offset: 54061},
 																												run: (*parser).callonExtraListElement407,
 																											},
 																										},
@@ -27233,7 +27247,7 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1662, col: 35, offset: 53866},
+																								pos: position{line: 1662, col: 35, offset: 53871},
 																								expr: &choiceExpr{
 																									pos: position{line: 2874, col: 8, offset: 90637},
 																									alternatives: []interface{}{
@@ -27274,7 +27288,7 @@ var g = &grammar{
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1662, col: 40, offset: 53871,
+																								line: 1662, col: 40, offset: 53876,
 																							},
 																						},
 																					},
@@ -27282,24 +27296,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1655, col: 5, offset: 53545},
+																			pos:   position{line: 1655, col: 5, offset: 53550},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1667, col: 5, offset: 53987},
+																				pos: position{line: 1667, col: 5, offset: 53992},
 																				run: (*parser).callonExtraListElement419,
 																				expr: &seqExpr{
-																					pos: position{line: 1667, col: 5, offset: 53987},
+																					pos: position{line: 1667, col: 5, offset: 53992},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1667, col: 5, offset: 53987},
+																							pos:   position{line: 1667, col: 5, offset: 53992},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1667, col: 16, offset: 53998},
+																								pos: position{line: 1667, col: 16, offset: 54003},
 																								run: (*parser).callonExtraListElement422,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1667, col: 16, offset: 53998},
+																									pos: position{line: 1667, col: 16, offset: 54003},
 																									expr: &litMatcher{
-																										pos:        position{line: 1667, col: 17, offset: 53999},
+																										pos:        position{line: 1667, col: 17, offset: 54004},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -27308,7 +27322,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1670, col: 5, offset: 54056},
+																							pos: position{line: 1670, col: 5, offset: 54061},
 																							run: (*parser).callonExtraListElement425,
 																						},
 																					},
@@ -27316,19 +27330,19 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1656, col: 5, offset: 53590},
+																			pos:   position{line: 1656, col: 5, offset: 53595},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1678, col: 5, offset: 54305},
+																				pos: position{line: 1678, col: 5, offset: 54310},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1680, col: 9, offset: 54371},
+																						pos: position{line: 1680, col: 9, offset: 54376},
 																						run: (*parser).callonExtraListElement428,
 																						expr: &seqExpr{
-																							pos: position{line: 1680, col: 9, offset: 54371},
+																							pos: position{line: 1680, col: 9, offset: 54376},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1680, col: 9, offset: 54371},
+																									pos: position{line: 1680, col: 9, offset: 54376},
 																									expr: &actionExpr{
 																										pos: position{line: 2852, col: 10, offset: 90239},
 																										run: (*parser).callonExtraListElement431,
@@ -27380,7 +27394,7 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1681, col: 9, offset: 54390},
+																									pos: position{line: 1681, col: 9, offset: 54395},
 																									expr: &actionExpr{
 																										pos: position{line: 677, col: 14, offset: 21489},
 																										run: (*parser).callonExtraListElement442,
@@ -27453,10 +27467,10 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1687, col: 9, offset: 54519},
+																						pos: position{line: 1687, col: 9, offset: 54524},
 																						run: (*parser).callonExtraListElement457,
 																						expr: &seqExpr{
-																							pos: position{line: 1687, col: 9, offset: 54519},
+																							pos: position{line: 1687, col: 9, offset: 54524},
 																							exprs: []interface{}{
 																								&actionExpr{
 																									pos: position{line: 2856, col: 11, offset: 90300},
@@ -27473,15 +27487,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1688, col: 9, offset: 54592},
+																									pos:   position{line: 1688, col: 9, offset: 54597},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1688, col: 18, offset: 54601},
+																										pos: position{line: 1688, col: 18, offset: 54606},
 																										run: (*parser).callonExtraListElement463,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1688, col: 18, offset: 54601},
+																											pos: position{line: 1688, col: 18, offset: 54606},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1688, col: 18, offset: 54601},
+																												pos:        position{line: 1688, col: 18, offset: 54606},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -27544,32 +27558,32 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1497, col: 11, offset: 48517},
+										pos:  position{line: 1497, col: 11, offset: 48522},
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2462, col: 22, offset: 79212},
+										pos: position{line: 2462, col: 22, offset: 79217},
 										run: (*parser).callonExtraListElement475,
 										expr: &seqExpr{
-											pos: position{line: 2462, col: 22, offset: 79212},
+											pos: position{line: 2462, col: 22, offset: 79217},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2467, col: 31, offset: 79433},
+													pos:        position{line: 2467, col: 31, offset: 79438},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2467, col: 36, offset: 79438},
+													pos: position{line: 2467, col: 36, offset: 79443},
 													expr: &litMatcher{
-														pos:        position{line: 2467, col: 37, offset: 79439},
+														pos:        position{line: 2467, col: 37, offset: 79444},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2462, col: 49, offset: 79239},
+													pos:   position{line: 2462, col: 49, offset: 79244},
 													label: "content",
 													expr: &actionExpr{
 														pos: position{line: 2798, col: 13, offset: 88765},
@@ -27628,13 +27642,13 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1505, col: 5, offset: 48795},
+										pos: position{line: 1505, col: 5, offset: 48800},
 										run: (*parser).callonExtraListElement492,
 										expr: &seqExpr{
-											pos: position{line: 1505, col: 5, offset: 48795},
+											pos: position{line: 1505, col: 5, offset: 48800},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 1505, col: 5, offset: 48795},
+													pos: position{line: 1505, col: 5, offset: 48800},
 													expr: &actionExpr{
 														pos: position{line: 677, col: 14, offset: 21489},
 														run: (*parser).callonExtraListElement495,
@@ -27704,18 +27718,18 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1506, col: 5, offset: 48810},
+													pos: position{line: 1506, col: 5, offset: 48815},
 													expr: &seqExpr{
-														pos: position{line: 1536, col: 27, offset: 49636},
+														pos: position{line: 1536, col: 27, offset: 49641},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 1536, col: 27, offset: 49636},
+																pos:        position{line: 1536, col: 27, offset: 49641},
 																val:        "+",
 																ignoreCase: false,
 																want:       "\"+\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 1536, col: 31, offset: 49640},
+																pos: position{line: 1536, col: 31, offset: 49645},
 																expr: &actionExpr{
 																	pos: position{line: 2852, col: 10, offset: 90239},
 																	run: (*parser).callonExtraListElement514,
@@ -27759,15 +27773,15 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1507, col: 5, offset: 48838},
+													pos: position{line: 1507, col: 5, offset: 48843},
 													expr: &actionExpr{
-														pos: position{line: 1577, col: 5, offset: 50855},
+														pos: position{line: 1577, col: 5, offset: 50860},
 														run: (*parser).callonExtraListElement522,
 														expr: &seqExpr{
-															pos: position{line: 1577, col: 5, offset: 50855},
+															pos: position{line: 1577, col: 5, offset: 50860},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1577, col: 5, offset: 50855},
+																	pos: position{line: 1577, col: 5, offset: 50860},
 																	expr: &actionExpr{
 																		pos: position{line: 2852, col: 10, offset: 90239},
 																		run: (*parser).callonExtraListElement525,
@@ -27781,27 +27795,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1577, col: 12, offset: 50862},
+																	pos:   position{line: 1577, col: 12, offset: 50867},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1579, col: 9, offset: 50925},
+																		pos: position{line: 1579, col: 9, offset: 50930},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1579, col: 9, offset: 50925},
+																				pos: position{line: 1579, col: 9, offset: 50930},
 																				run: (*parser).callonExtraListElement529,
 																				expr: &seqExpr{
-																					pos: position{line: 1579, col: 9, offset: 50925},
+																					pos: position{line: 1579, col: 9, offset: 50930},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1579, col: 9, offset: 50925},
+																							pos:   position{line: 1579, col: 9, offset: 50930},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1579, col: 16, offset: 50932},
+																								pos: position{line: 1579, col: 16, offset: 50937},
 																								run: (*parser).callonExtraListElement532,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1579, col: 16, offset: 50932},
+																									pos: position{line: 1579, col: 16, offset: 50937},
 																									expr: &litMatcher{
-																										pos:        position{line: 1579, col: 17, offset: 50933},
+																										pos:        position{line: 1579, col: 17, offset: 50938},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -27810,22 +27824,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1583, col: 9, offset: 51033},
+																							pos: position{line: 1583, col: 9, offset: 51038},
 																							run: (*parser).callonExtraListElement535,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1602, col: 11, offset: 51750},
+																				pos: position{line: 1602, col: 11, offset: 51755},
 																				run: (*parser).callonExtraListElement536,
 																				expr: &seqExpr{
-																					pos: position{line: 1602, col: 11, offset: 51750},
+																					pos: position{line: 1602, col: 11, offset: 51755},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1602, col: 11, offset: 51750},
+																							pos: position{line: 1602, col: 11, offset: 51755},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1602, col: 12, offset: 51751},
+																								pos:        position{line: 1602, col: 12, offset: 51756},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -27833,7 +27847,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1602, col: 20, offset: 51759},
+																							pos:        position{line: 1602, col: 20, offset: 51764},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -27842,20 +27856,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1604, col: 13, offset: 51876},
+																				pos: position{line: 1604, col: 13, offset: 51881},
 																				run: (*parser).callonExtraListElement541,
 																				expr: &seqExpr{
-																					pos: position{line: 1604, col: 13, offset: 51876},
+																					pos: position{line: 1604, col: 13, offset: 51881},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1604, col: 14, offset: 51877},
+																							pos:        position{line: 1604, col: 14, offset: 51882},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1604, col: 21, offset: 51884},
+																							pos:        position{line: 1604, col: 21, offset: 51889},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -27864,20 +27878,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1606, col: 13, offset: 52004},
+																				pos: position{line: 1606, col: 13, offset: 52009},
 																				run: (*parser).callonExtraListElement545,
 																				expr: &seqExpr{
-																					pos: position{line: 1606, col: 13, offset: 52004},
+																					pos: position{line: 1606, col: 13, offset: 52009},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1606, col: 14, offset: 52005},
+																							pos:        position{line: 1606, col: 14, offset: 52010},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1606, col: 21, offset: 52012},
+																							pos:        position{line: 1606, col: 21, offset: 52017},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -27886,15 +27900,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1608, col: 13, offset: 52132},
+																				pos: position{line: 1608, col: 13, offset: 52137},
 																				run: (*parser).callonExtraListElement549,
 																				expr: &seqExpr{
-																					pos: position{line: 1608, col: 13, offset: 52132},
+																					pos: position{line: 1608, col: 13, offset: 52137},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1608, col: 13, offset: 52132},
+																							pos: position{line: 1608, col: 13, offset: 52137},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1608, col: 14, offset: 52133},
+																								pos:        position{line: 1608, col: 14, offset: 52138},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -27902,7 +27916,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1608, col: 26, offset: 52145},
+																							pos:        position{line: 1608, col: 26, offset: 52150},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -27911,15 +27925,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1610, col: 13, offset: 52265},
+																				pos: position{line: 1610, col: 13, offset: 52270},
 																				run: (*parser).callonExtraListElement554,
 																				expr: &seqExpr{
-																					pos: position{line: 1610, col: 13, offset: 52265},
+																					pos: position{line: 1610, col: 13, offset: 52270},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1610, col: 13, offset: 52265},
+																							pos: position{line: 1610, col: 13, offset: 52270},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1610, col: 14, offset: 52266},
+																								pos:        position{line: 1610, col: 14, offset: 52271},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -27927,7 +27941,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1610, col: 26, offset: 52278},
+																							pos:        position{line: 1610, col: 26, offset: 52283},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -27957,15 +27971,15 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1508, col: 5, offset: 48868},
+													pos: position{line: 1508, col: 5, offset: 48873},
 													expr: &actionExpr{
-														pos: position{line: 1627, col: 5, offset: 52817},
+														pos: position{line: 1627, col: 5, offset: 52822},
 														run: (*parser).callonExtraListElement563,
 														expr: &seqExpr{
-															pos: position{line: 1627, col: 5, offset: 52817},
+															pos: position{line: 1627, col: 5, offset: 52822},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1627, col: 5, offset: 52817},
+																	pos: position{line: 1627, col: 5, offset: 52822},
 																	expr: &actionExpr{
 																		pos: position{line: 2852, col: 10, offset: 90239},
 																		run: (*parser).callonExtraListElement566,
@@ -27979,24 +27993,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1628, col: 5, offset: 52829},
+																	pos:   position{line: 1628, col: 5, offset: 52834},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1629, col: 9, offset: 52845},
+																		pos: position{line: 1629, col: 9, offset: 52850},
 																		run: (*parser).callonExtraListElement569,
 																		expr: &choiceExpr{
-																			pos: position{line: 1629, col: 10, offset: 52846},
+																			pos: position{line: 1629, col: 10, offset: 52851},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1629, col: 11, offset: 52847},
+																					pos:        position{line: 1629, col: 11, offset: 52852},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1629, col: 18, offset: 52854},
+																					pos: position{line: 1629, col: 18, offset: 52859},
 																					expr: &litMatcher{
-																						pos:        position{line: 1629, col: 19, offset: 52855},
+																						pos:        position{line: 1629, col: 19, offset: 52860},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -28007,7 +28021,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1632, col: 7, offset: 52945},
+																	pos: position{line: 1632, col: 7, offset: 52950},
 																	run: (*parser).callonExtraListElement574,
 																},
 																&actionExpr{
@@ -28029,29 +28043,29 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1509, col: 5, offset: 48900},
+													pos: position{line: 1509, col: 5, offset: 48905},
 													expr: &actionExpr{
-														pos: position{line: 1716, col: 5, offset: 55354},
+														pos: position{line: 1716, col: 5, offset: 55359},
 														run: (*parser).callonExtraListElement579,
 														expr: &seqExpr{
-															pos: position{line: 1716, col: 5, offset: 55354},
+															pos: position{line: 1716, col: 5, offset: 55359},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1716, col: 5, offset: 55354},
+																	pos:        position{line: 1716, col: 5, offset: 55359},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1716, col: 9, offset: 55358},
+																	pos:   position{line: 1716, col: 9, offset: 55363},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1716, col: 14, offset: 55363},
+																		pos: position{line: 1716, col: 14, offset: 55368},
 																		run: (*parser).callonExtraListElement583,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1716, col: 14, offset: 55363},
+																			pos: position{line: 1716, col: 14, offset: 55368},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1716, col: 14, offset: 55363},
+																				pos:        position{line: 1716, col: 14, offset: 55368},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -28061,7 +28075,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1716, col: 62, offset: 55411},
+																	pos:        position{line: 1716, col: 62, offset: 55416},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
@@ -28085,36 +28099,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1510, col: 5, offset: 48930},
+													pos: position{line: 1510, col: 5, offset: 48935},
 													expr: &seqExpr{
-														pos: position{line: 1510, col: 7, offset: 48932},
+														pos: position{line: 1510, col: 7, offset: 48937},
 														exprs: []interface{}{
 															&actionExpr{
-																pos: position{line: 1662, col: 5, offset: 53836},
+																pos: position{line: 1662, col: 5, offset: 53841},
 																run: (*parser).callonExtraListElement592,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 1662, col: 5, offset: 53836},
+																	pos: position{line: 1662, col: 5, offset: 53841},
 																	expr: &seqExpr{
-																		pos: position{line: 1662, col: 6, offset: 53837},
+																		pos: position{line: 1662, col: 6, offset: 53842},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1662, col: 6, offset: 53837},
+																				pos: position{line: 1662, col: 6, offset: 53842},
 																				expr: &actionExpr{
-																					pos: position{line: 1667, col: 5, offset: 53987},
+																					pos: position{line: 1667, col: 5, offset: 53992},
 																					run: (*parser).callonExtraListElement596,
 																					expr: &seqExpr{
-																						pos: position{line: 1667, col: 5, offset: 53987},
+																						pos: position{line: 1667, col: 5, offset: 53992},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1667, col: 5, offset: 53987},
+																								pos:   position{line: 1667, col: 5, offset: 53992},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1667, col: 16, offset: 53998},
+																									pos: position{line: 1667, col: 16, offset: 54003},
 																									run: (*parser).callonExtraListElement599,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1667, col: 16, offset: 53998},
+																										pos: position{line: 1667, col: 16, offset: 54003},
 																										expr: &litMatcher{
-																											pos:        position{line: 1667, col: 17, offset: 53999},
+																											pos:        position{line: 1667, col: 17, offset: 54004},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -28123,7 +28137,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1670, col: 5, offset: 54056},
+																								pos: position{line: 1670, col: 5, offset: 54061},
 																								run: (*parser).callonExtraListElement602,
 																							},
 																						},
@@ -28131,7 +28145,7 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1662, col: 35, offset: 53866},
+																				pos: position{line: 1662, col: 35, offset: 53871},
 																				expr: &choiceExpr{
 																					pos: position{line: 2874, col: 8, offset: 90637},
 																					alternatives: []interface{}{
@@ -28172,28 +28186,28 @@ var g = &grammar{
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1662, col: 40, offset: 53871,
+																				line: 1662, col: 40, offset: 53876,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1667, col: 5, offset: 53987},
+																pos: position{line: 1667, col: 5, offset: 53992},
 																run: (*parser).callonExtraListElement613,
 																expr: &seqExpr{
-																	pos: position{line: 1667, col: 5, offset: 53987},
+																	pos: position{line: 1667, col: 5, offset: 53992},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1667, col: 5, offset: 53987},
+																			pos:   position{line: 1667, col: 5, offset: 53992},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1667, col: 16, offset: 53998},
+																				pos: position{line: 1667, col: 16, offset: 54003},
 																				run: (*parser).callonExtraListElement616,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1667, col: 16, offset: 53998},
+																					pos: position{line: 1667, col: 16, offset: 54003},
 																					expr: &litMatcher{
-																						pos:        position{line: 1667, col: 17, offset: 53999},
+																						pos:        position{line: 1667, col: 17, offset: 54004},
 																						val:        ":",
 																						ignoreCase: false,
 																						want:       "\":\"",
@@ -28202,7 +28216,7 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1670, col: 5, offset: 54056},
+																			pos: position{line: 1670, col: 5, offset: 54061},
 																			run: (*parser).callonExtraListElement619,
 																		},
 																	},
@@ -28212,7 +28226,7 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1511, col: 5, offset: 48988},
+													pos: position{line: 1511, col: 5, offset: 48993},
 													expr: &actionExpr{
 														pos: position{line: 724, col: 5, offset: 23042},
 														run: (*parser).callonExtraListElement621,
@@ -28435,8 +28449,8 @@ var g = &grammar{
 																									pos: position{line: 764, col: 14, offset: 24457},
 																									expr: &charClassMatcher{
 																										pos:        position{line: 764, col: 14, offset: 24457},
-																										val:        "[^\\r\\n` ]",
-																										chars:      []rune{'\r', '\n', '`', ' '},
+																										val:        "[^\\r\\n`\\t ]",
+																										chars:      []rune{'\r', '\n', '`', '\t', ' '},
 																										ignoreCase: false,
 																										inverted:   true,
 																									},
@@ -28588,30 +28602,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 769, col: 5, offset: 24616},
+																				pos: position{line: 769, col: 5, offset: 24621},
 																				run: (*parser).callonExtraListElement702,
 																				expr: &seqExpr{
-																					pos: position{line: 769, col: 5, offset: 24616},
+																					pos: position{line: 769, col: 5, offset: 24621},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 769, col: 5, offset: 24616},
+																							pos:   position{line: 769, col: 5, offset: 24621},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 769, col: 16, offset: 24627},
+																								pos: position{line: 769, col: 16, offset: 24632},
 																								run: (*parser).callonExtraListElement705,
 																								expr: &seqExpr{
-																									pos: position{line: 769, col: 16, offset: 24627},
+																									pos: position{line: 769, col: 16, offset: 24632},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 769, col: 16, offset: 24627},
+																											pos:        position{line: 769, col: 16, offset: 24632},
 																											val:        "----",
 																											ignoreCase: false,
 																											want:       "\"----\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 769, col: 23, offset: 24634},
+																											pos: position{line: 769, col: 23, offset: 24639},
 																											expr: &litMatcher{
-																												pos:        position{line: 769, col: 23, offset: 24634},
+																												pos:        position{line: 769, col: 23, offset: 24639},
 																												val:        "-",
 																												ignoreCase: false,
 																												want:       "\"-\"",
@@ -28622,7 +28636,7 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 771, col: 8, offset: 24718},
+																							pos: position{line: 771, col: 8, offset: 24723},
 																							expr: &actionExpr{
 																								pos: position{line: 2852, col: 10, offset: 90239},
 																								run: (*parser).callonExtraListElement711,
@@ -28677,30 +28691,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 783, col: 5, offset: 25092},
+																				pos: position{line: 783, col: 5, offset: 25097},
 																				run: (*parser).callonExtraListElement721,
 																				expr: &seqExpr{
-																					pos: position{line: 783, col: 5, offset: 25092},
+																					pos: position{line: 783, col: 5, offset: 25097},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 783, col: 5, offset: 25092},
+																							pos:   position{line: 783, col: 5, offset: 25097},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 783, col: 16, offset: 25103},
+																								pos: position{line: 783, col: 16, offset: 25108},
 																								run: (*parser).callonExtraListElement724,
 																								expr: &seqExpr{
-																									pos: position{line: 783, col: 16, offset: 25103},
+																									pos: position{line: 783, col: 16, offset: 25108},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 783, col: 16, offset: 25103},
+																											pos:        position{line: 783, col: 16, offset: 25108},
 																											val:        "....",
 																											ignoreCase: false,
 																											want:       "\"....\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 783, col: 23, offset: 25110},
+																											pos: position{line: 783, col: 23, offset: 25115},
 																											expr: &litMatcher{
-																												pos:        position{line: 783, col: 23, offset: 25110},
+																												pos:        position{line: 783, col: 23, offset: 25115},
 																												val:        ".",
 																												ignoreCase: false,
 																												want:       "\".\"",
@@ -28711,7 +28725,7 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 785, col: 8, offset: 25194},
+																							pos: position{line: 785, col: 8, offset: 25199},
 																							expr: &actionExpr{
 																								pos: position{line: 2852, col: 10, offset: 90239},
 																								run: (*parser).callonExtraListElement730,
@@ -28766,30 +28780,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 790, col: 5, offset: 25344},
+																				pos: position{line: 790, col: 5, offset: 25349},
 																				run: (*parser).callonExtraListElement740,
 																				expr: &seqExpr{
-																					pos: position{line: 790, col: 5, offset: 25344},
+																					pos: position{line: 790, col: 5, offset: 25349},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 790, col: 5, offset: 25344},
+																							pos:   position{line: 790, col: 5, offset: 25349},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 790, col: 16, offset: 25355},
+																								pos: position{line: 790, col: 16, offset: 25360},
 																								run: (*parser).callonExtraListElement743,
 																								expr: &seqExpr{
-																									pos: position{line: 790, col: 16, offset: 25355},
+																									pos: position{line: 790, col: 16, offset: 25360},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 790, col: 16, offset: 25355},
+																											pos:        position{line: 790, col: 16, offset: 25360},
 																											val:        "++++",
 																											ignoreCase: false,
 																											want:       "\"++++\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 790, col: 23, offset: 25362},
+																											pos: position{line: 790, col: 23, offset: 25367},
 																											expr: &litMatcher{
-																												pos:        position{line: 790, col: 23, offset: 25362},
+																												pos:        position{line: 790, col: 23, offset: 25367},
 																												val:        "+",
 																												ignoreCase: false,
 																												want:       "\"+\"",
@@ -28800,7 +28814,7 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 792, col: 8, offset: 25446},
+																							pos: position{line: 792, col: 8, offset: 25451},
 																							expr: &actionExpr{
 																								pos: position{line: 2852, col: 10, offset: 90239},
 																								run: (*parser).callonExtraListElement749,
@@ -28855,30 +28869,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 797, col: 5, offset: 25594},
+																				pos: position{line: 797, col: 5, offset: 25599},
 																				run: (*parser).callonExtraListElement759,
 																				expr: &seqExpr{
-																					pos: position{line: 797, col: 5, offset: 25594},
+																					pos: position{line: 797, col: 5, offset: 25599},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 797, col: 5, offset: 25594},
+																							pos:   position{line: 797, col: 5, offset: 25599},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 797, col: 16, offset: 25605},
+																								pos: position{line: 797, col: 16, offset: 25610},
 																								run: (*parser).callonExtraListElement762,
 																								expr: &seqExpr{
-																									pos: position{line: 797, col: 16, offset: 25605},
+																									pos: position{line: 797, col: 16, offset: 25610},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 797, col: 16, offset: 25605},
+																											pos:        position{line: 797, col: 16, offset: 25610},
 																											val:        "____",
 																											ignoreCase: false,
 																											want:       "\"____\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 797, col: 23, offset: 25612},
+																											pos: position{line: 797, col: 23, offset: 25617},
 																											expr: &litMatcher{
-																												pos:        position{line: 797, col: 23, offset: 25612},
+																												pos:        position{line: 797, col: 23, offset: 25617},
 																												val:        "_",
 																												ignoreCase: false,
 																												want:       "\"_\"",
@@ -28889,7 +28903,7 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 799, col: 8, offset: 25696},
+																							pos: position{line: 799, col: 8, offset: 25701},
 																							expr: &actionExpr{
 																								pos: position{line: 2852, col: 10, offset: 90239},
 																								run: (*parser).callonExtraListElement768,
@@ -28944,30 +28958,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 804, col: 5, offset: 25840},
+																				pos: position{line: 804, col: 5, offset: 25845},
 																				run: (*parser).callonExtraListElement778,
 																				expr: &seqExpr{
-																					pos: position{line: 804, col: 5, offset: 25840},
+																					pos: position{line: 804, col: 5, offset: 25845},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 804, col: 5, offset: 25840},
+																							pos:   position{line: 804, col: 5, offset: 25845},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 804, col: 16, offset: 25851},
+																								pos: position{line: 804, col: 16, offset: 25856},
 																								run: (*parser).callonExtraListElement781,
 																								expr: &seqExpr{
-																									pos: position{line: 804, col: 16, offset: 25851},
+																									pos: position{line: 804, col: 16, offset: 25856},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 804, col: 16, offset: 25851},
+																											pos:        position{line: 804, col: 16, offset: 25856},
 																											val:        "****",
 																											ignoreCase: false,
 																											want:       "\"****\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 804, col: 23, offset: 25858},
+																											pos: position{line: 804, col: 23, offset: 25863},
 																											expr: &litMatcher{
-																												pos:        position{line: 804, col: 23, offset: 25858},
+																												pos:        position{line: 804, col: 23, offset: 25863},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -28978,7 +28992,7 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 806, col: 8, offset: 25942},
+																							pos: position{line: 806, col: 8, offset: 25947},
 																							expr: &actionExpr{
 																								pos: position{line: 2852, col: 10, offset: 90239},
 																								run: (*parser).callonExtraListElement787,
@@ -29040,7 +29054,7 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1512, col: 5, offset: 49008},
+													pos:   position{line: 1512, col: 5, offset: 49013},
 													label: "content",
 													expr: &actionExpr{
 														pos: position{line: 2802, col: 14, offset: 88832},
@@ -29107,23 +29121,23 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuation",
-			pos:  position{line: 1528, col: 1, offset: 49399},
+			pos:  position{line: 1528, col: 1, offset: 49404},
 			expr: &actionExpr{
-				pos: position{line: 1529, col: 5, offset: 49424},
+				pos: position{line: 1529, col: 5, offset: 49429},
 				run: (*parser).callonListContinuation1,
 				expr: &seqExpr{
-					pos: position{line: 1529, col: 5, offset: 49424},
+					pos: position{line: 1529, col: 5, offset: 49429},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1529, col: 5, offset: 49424},
+							pos:   position{line: 1529, col: 5, offset: 49429},
 							label: "offset",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1529, col: 12, offset: 49431},
+								pos: position{line: 1529, col: 12, offset: 49436},
 								expr: &seqExpr{
-									pos: position{line: 1529, col: 13, offset: 49432},
+									pos: position{line: 1529, col: 13, offset: 49437},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 1529, col: 13, offset: 49432},
+											pos: position{line: 1529, col: 13, offset: 49437},
 											expr: &actionExpr{
 												pos: position{line: 2852, col: 10, offset: 90239},
 												run: (*parser).callonListContinuation7,
@@ -29168,13 +29182,13 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1536, col: 27, offset: 49636},
+							pos:        position{line: 1536, col: 27, offset: 49641},
 							val:        "+",
 							ignoreCase: false,
 							want:       "\"+\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1536, col: 31, offset: 49640},
+							pos: position{line: 1536, col: 31, offset: 49645},
 							expr: &actionExpr{
 								pos: position{line: 2852, col: 10, offset: 90239},
 								run: (*parser).callonListContinuation16,
@@ -29215,12 +29229,12 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1531, col: 5, offset: 49481},
+							pos:   position{line: 1531, col: 5, offset: 49486},
 							label: "element",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1531, col: 13, offset: 49489},
+								pos: position{line: 1531, col: 13, offset: 49494},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1531, col: 13, offset: 49489},
+									pos:  position{line: 1531, col: 13, offset: 49494},
 									name: "ListContinuationElement",
 								},
 							},
@@ -29231,12 +29245,12 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuationElement",
-			pos:  position{line: 1538, col: 1, offset: 49656},
+			pos:  position{line: 1538, col: 1, offset: 49661},
 			expr: &actionExpr{
-				pos: position{line: 1539, col: 5, offset: 49727},
+				pos: position{line: 1539, col: 5, offset: 49732},
 				run: (*parser).callonListContinuationElement1,
 				expr: &seqExpr{
-					pos: position{line: 1539, col: 5, offset: 49727},
+					pos: position{line: 1539, col: 5, offset: 49732},
 					exprs: []interface{}{
 						&andExpr{
 							pos: position{line: 2869, col: 11, offset: 90573},
@@ -29245,27 +29259,27 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 1540, col: 5, offset: 49755},
+							pos: position{line: 1540, col: 5, offset: 49760},
 							expr: &choiceExpr{
-								pos: position{line: 1477, col: 5, offset: 47713},
+								pos: position{line: 1477, col: 5, offset: 47718},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1570, col: 5, offset: 50647},
+										pos: position{line: 1570, col: 5, offset: 50652},
 										run: (*parser).callonListContinuationElement7,
 										expr: &seqExpr{
-											pos: position{line: 1570, col: 5, offset: 50647},
+											pos: position{line: 1570, col: 5, offset: 50652},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1570, col: 5, offset: 50647},
+													pos:   position{line: 1570, col: 5, offset: 50652},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1577, col: 5, offset: 50855},
+														pos: position{line: 1577, col: 5, offset: 50860},
 														run: (*parser).callonListContinuationElement10,
 														expr: &seqExpr{
-															pos: position{line: 1577, col: 5, offset: 50855},
+															pos: position{line: 1577, col: 5, offset: 50860},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1577, col: 5, offset: 50855},
+																	pos: position{line: 1577, col: 5, offset: 50860},
 																	expr: &actionExpr{
 																		pos: position{line: 2852, col: 10, offset: 90239},
 																		run: (*parser).callonListContinuationElement13,
@@ -29279,27 +29293,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1577, col: 12, offset: 50862},
+																	pos:   position{line: 1577, col: 12, offset: 50867},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1579, col: 9, offset: 50925},
+																		pos: position{line: 1579, col: 9, offset: 50930},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1579, col: 9, offset: 50925},
+																				pos: position{line: 1579, col: 9, offset: 50930},
 																				run: (*parser).callonListContinuationElement17,
 																				expr: &seqExpr{
-																					pos: position{line: 1579, col: 9, offset: 50925},
+																					pos: position{line: 1579, col: 9, offset: 50930},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1579, col: 9, offset: 50925},
+																							pos:   position{line: 1579, col: 9, offset: 50930},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1579, col: 16, offset: 50932},
+																								pos: position{line: 1579, col: 16, offset: 50937},
 																								run: (*parser).callonListContinuationElement20,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1579, col: 16, offset: 50932},
+																									pos: position{line: 1579, col: 16, offset: 50937},
 																									expr: &litMatcher{
-																										pos:        position{line: 1579, col: 17, offset: 50933},
+																										pos:        position{line: 1579, col: 17, offset: 50938},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -29308,22 +29322,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1583, col: 9, offset: 51033},
+																							pos: position{line: 1583, col: 9, offset: 51038},
 																							run: (*parser).callonListContinuationElement23,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1602, col: 11, offset: 51750},
+																				pos: position{line: 1602, col: 11, offset: 51755},
 																				run: (*parser).callonListContinuationElement24,
 																				expr: &seqExpr{
-																					pos: position{line: 1602, col: 11, offset: 51750},
+																					pos: position{line: 1602, col: 11, offset: 51755},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1602, col: 11, offset: 51750},
+																							pos: position{line: 1602, col: 11, offset: 51755},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1602, col: 12, offset: 51751},
+																								pos:        position{line: 1602, col: 12, offset: 51756},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -29331,7 +29345,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1602, col: 20, offset: 51759},
+																							pos:        position{line: 1602, col: 20, offset: 51764},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29340,20 +29354,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1604, col: 13, offset: 51876},
+																				pos: position{line: 1604, col: 13, offset: 51881},
 																				run: (*parser).callonListContinuationElement29,
 																				expr: &seqExpr{
-																					pos: position{line: 1604, col: 13, offset: 51876},
+																					pos: position{line: 1604, col: 13, offset: 51881},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1604, col: 14, offset: 51877},
+																							pos:        position{line: 1604, col: 14, offset: 51882},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1604, col: 21, offset: 51884},
+																							pos:        position{line: 1604, col: 21, offset: 51889},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29362,20 +29376,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1606, col: 13, offset: 52004},
+																				pos: position{line: 1606, col: 13, offset: 52009},
 																				run: (*parser).callonListContinuationElement33,
 																				expr: &seqExpr{
-																					pos: position{line: 1606, col: 13, offset: 52004},
+																					pos: position{line: 1606, col: 13, offset: 52009},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1606, col: 14, offset: 52005},
+																							pos:        position{line: 1606, col: 14, offset: 52010},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1606, col: 21, offset: 52012},
+																							pos:        position{line: 1606, col: 21, offset: 52017},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29384,15 +29398,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1608, col: 13, offset: 52132},
+																				pos: position{line: 1608, col: 13, offset: 52137},
 																				run: (*parser).callonListContinuationElement37,
 																				expr: &seqExpr{
-																					pos: position{line: 1608, col: 13, offset: 52132},
+																					pos: position{line: 1608, col: 13, offset: 52137},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1608, col: 13, offset: 52132},
+																							pos: position{line: 1608, col: 13, offset: 52137},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1608, col: 14, offset: 52133},
+																								pos:        position{line: 1608, col: 14, offset: 52138},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -29400,7 +29414,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1608, col: 26, offset: 52145},
+																							pos:        position{line: 1608, col: 26, offset: 52150},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -29409,15 +29423,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1610, col: 13, offset: 52265},
+																				pos: position{line: 1610, col: 13, offset: 52270},
 																				run: (*parser).callonListContinuationElement42,
 																				expr: &seqExpr{
-																					pos: position{line: 1610, col: 13, offset: 52265},
+																					pos: position{line: 1610, col: 13, offset: 52270},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1610, col: 13, offset: 52265},
+																							pos: position{line: 1610, col: 13, offset: 52270},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1610, col: 14, offset: 52266},
+																								pos:        position{line: 1610, col: 14, offset: 52271},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -29425,7 +29439,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1610, col: 26, offset: 52278},
+																							pos:        position{line: 1610, col: 26, offset: 52283},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -29455,26 +29469,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1571, col: 5, offset: 50686},
+													pos:   position{line: 1571, col: 5, offset: 50691},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1518, col: 5, offset: 49153},
+														pos: position{line: 1518, col: 5, offset: 49158},
 														run: (*parser).callonListContinuationElement51,
 														expr: &seqExpr{
-															pos: position{line: 1518, col: 5, offset: 49153},
+															pos: position{line: 1518, col: 5, offset: 49158},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1518, col: 5, offset: 49153},
+																	pos:   position{line: 1518, col: 5, offset: 49158},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1518, col: 14, offset: 49162},
+																		pos: position{line: 1518, col: 14, offset: 49167},
 																		expr: &actionExpr{
-																			pos: position{line: 1518, col: 15, offset: 49163},
+																			pos: position{line: 1518, col: 15, offset: 49168},
 																			run: (*parser).callonListContinuationElement55,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1518, col: 15, offset: 49163},
+																				pos: position{line: 1518, col: 15, offset: 49168},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1518, col: 15, offset: 49163},
+																					pos:        position{line: 1518, col: 15, offset: 49168},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -29530,22 +29544,22 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1620, col: 5, offset: 52544},
+										pos: position{line: 1620, col: 5, offset: 52549},
 										run: (*parser).callonListContinuationElement66,
 										expr: &seqExpr{
-											pos: position{line: 1620, col: 5, offset: 52544},
+											pos: position{line: 1620, col: 5, offset: 52549},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1620, col: 5, offset: 52544},
+													pos:   position{line: 1620, col: 5, offset: 52549},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1627, col: 5, offset: 52817},
+														pos: position{line: 1627, col: 5, offset: 52822},
 														run: (*parser).callonListContinuationElement69,
 														expr: &seqExpr{
-															pos: position{line: 1627, col: 5, offset: 52817},
+															pos: position{line: 1627, col: 5, offset: 52822},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1627, col: 5, offset: 52817},
+																	pos: position{line: 1627, col: 5, offset: 52822},
 																	expr: &actionExpr{
 																		pos: position{line: 2852, col: 10, offset: 90239},
 																		run: (*parser).callonListContinuationElement72,
@@ -29559,24 +29573,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1628, col: 5, offset: 52829},
+																	pos:   position{line: 1628, col: 5, offset: 52834},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1629, col: 9, offset: 52845},
+																		pos: position{line: 1629, col: 9, offset: 52850},
 																		run: (*parser).callonListContinuationElement75,
 																		expr: &choiceExpr{
-																			pos: position{line: 1629, col: 10, offset: 52846},
+																			pos: position{line: 1629, col: 10, offset: 52851},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1629, col: 11, offset: 52847},
+																					pos:        position{line: 1629, col: 11, offset: 52852},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1629, col: 18, offset: 52854},
+																					pos: position{line: 1629, col: 18, offset: 52859},
 																					expr: &litMatcher{
-																						pos:        position{line: 1629, col: 19, offset: 52855},
+																						pos:        position{line: 1629, col: 19, offset: 52860},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -29587,7 +29601,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1632, col: 7, offset: 52945},
+																	pos: position{line: 1632, col: 7, offset: 52950},
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
@@ -29609,56 +29623,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1621, col: 5, offset: 52585},
+													pos:   position{line: 1621, col: 5, offset: 52590},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1621, col: 16, offset: 52596},
+														pos: position{line: 1621, col: 16, offset: 52601},
 														expr: &actionExpr{
-															pos: position{line: 1642, col: 5, offset: 53210},
+															pos: position{line: 1642, col: 5, offset: 53215},
 															run: (*parser).callonListContinuationElement86,
 															expr: &seqExpr{
-																pos: position{line: 1642, col: 5, offset: 53210},
+																pos: position{line: 1642, col: 5, offset: 53215},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1642, col: 5, offset: 53210},
+																		pos: position{line: 1642, col: 5, offset: 53215},
 																		expr: &litMatcher{
-																			pos:        position{line: 1642, col: 6, offset: 53211},
+																			pos:        position{line: 1642, col: 6, offset: 53216},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1642, col: 10, offset: 53215},
+																		pos:   position{line: 1642, col: 10, offset: 53220},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1643, col: 7, offset: 53229},
+																			pos: position{line: 1643, col: 7, offset: 53234},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1643, col: 7, offset: 53229},
+																					pos: position{line: 1643, col: 7, offset: 53234},
 																					run: (*parser).callonListContinuationElement92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1643, col: 7, offset: 53229},
+																						pos:        position{line: 1643, col: 7, offset: 53234},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1644, col: 7, offset: 53274},
+																					pos: position{line: 1644, col: 7, offset: 53279},
 																					run: (*parser).callonListContinuationElement94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1644, col: 7, offset: 53274},
+																						pos:        position{line: 1644, col: 7, offset: 53279},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1645, col: 7, offset: 53317},
+																					pos: position{line: 1645, col: 7, offset: 53322},
 																					run: (*parser).callonListContinuationElement96,
 																					expr: &litMatcher{
-																						pos:        position{line: 1645, col: 7, offset: 53317},
+																						pos:        position{line: 1645, col: 7, offset: 53322},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -29687,26 +29701,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1622, col: 5, offset: 52635},
+													pos:   position{line: 1622, col: 5, offset: 52640},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1518, col: 5, offset: 49153},
+														pos: position{line: 1518, col: 5, offset: 49158},
 														run: (*parser).callonListContinuationElement102,
 														expr: &seqExpr{
-															pos: position{line: 1518, col: 5, offset: 49153},
+															pos: position{line: 1518, col: 5, offset: 49158},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1518, col: 5, offset: 49153},
+																	pos:   position{line: 1518, col: 5, offset: 49158},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1518, col: 14, offset: 49162},
+																		pos: position{line: 1518, col: 14, offset: 49167},
 																		expr: &actionExpr{
-																			pos: position{line: 1518, col: 15, offset: 49163},
+																			pos: position{line: 1518, col: 15, offset: 49168},
 																			run: (*parser).callonListContinuationElement106,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1518, col: 15, offset: 49163},
+																				pos: position{line: 1518, col: 15, offset: 49168},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1518, col: 15, offset: 49163},
+																					pos:        position{line: 1518, col: 15, offset: 49168},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -29762,36 +29776,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1710, col: 5, offset: 55157},
+										pos: position{line: 1710, col: 5, offset: 55162},
 										run: (*parser).callonListContinuationElement117,
 										expr: &seqExpr{
-											pos: position{line: 1710, col: 5, offset: 55157},
+											pos: position{line: 1710, col: 5, offset: 55162},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1710, col: 5, offset: 55157},
+													pos:   position{line: 1710, col: 5, offset: 55162},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1716, col: 5, offset: 55354},
+														pos: position{line: 1716, col: 5, offset: 55359},
 														run: (*parser).callonListContinuationElement120,
 														expr: &seqExpr{
-															pos: position{line: 1716, col: 5, offset: 55354},
+															pos: position{line: 1716, col: 5, offset: 55359},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1716, col: 5, offset: 55354},
+																	pos:        position{line: 1716, col: 5, offset: 55359},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1716, col: 9, offset: 55358},
+																	pos:   position{line: 1716, col: 9, offset: 55363},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1716, col: 14, offset: 55363},
+																		pos: position{line: 1716, col: 14, offset: 55368},
 																		run: (*parser).callonListContinuationElement124,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1716, col: 14, offset: 55363},
+																			pos: position{line: 1716, col: 14, offset: 55368},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1716, col: 14, offset: 55363},
+																				pos:        position{line: 1716, col: 14, offset: 55368},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -29801,7 +29815,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1716, col: 62, offset: 55411},
+																	pos:        position{line: 1716, col: 62, offset: 55416},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
@@ -29825,26 +29839,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1711, col: 5, offset: 55193},
+													pos:   position{line: 1711, col: 5, offset: 55198},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1518, col: 5, offset: 49153},
+														pos: position{line: 1518, col: 5, offset: 49158},
 														run: (*parser).callonListContinuationElement132,
 														expr: &seqExpr{
-															pos: position{line: 1518, col: 5, offset: 49153},
+															pos: position{line: 1518, col: 5, offset: 49158},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1518, col: 5, offset: 49153},
+																	pos:   position{line: 1518, col: 5, offset: 49158},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1518, col: 14, offset: 49162},
+																		pos: position{line: 1518, col: 14, offset: 49167},
 																		expr: &actionExpr{
-																			pos: position{line: 1518, col: 15, offset: 49163},
+																			pos: position{line: 1518, col: 15, offset: 49168},
 																			run: (*parser).callonListContinuationElement136,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1518, col: 15, offset: 49163},
+																				pos: position{line: 1518, col: 15, offset: 49168},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1518, col: 15, offset: 49163},
+																					pos:        position{line: 1518, col: 15, offset: 49168},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -29900,40 +29914,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1654, col: 5, offset: 53510},
+										pos: position{line: 1654, col: 5, offset: 53515},
 										run: (*parser).callonListContinuationElement147,
 										expr: &seqExpr{
-											pos: position{line: 1654, col: 5, offset: 53510},
+											pos: position{line: 1654, col: 5, offset: 53515},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1654, col: 5, offset: 53510},
+													pos:   position{line: 1654, col: 5, offset: 53515},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1662, col: 5, offset: 53836},
+														pos: position{line: 1662, col: 5, offset: 53841},
 														run: (*parser).callonListContinuationElement150,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1662, col: 5, offset: 53836},
+															pos: position{line: 1662, col: 5, offset: 53841},
 															expr: &seqExpr{
-																pos: position{line: 1662, col: 6, offset: 53837},
+																pos: position{line: 1662, col: 6, offset: 53842},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1662, col: 6, offset: 53837},
+																		pos: position{line: 1662, col: 6, offset: 53842},
 																		expr: &actionExpr{
-																			pos: position{line: 1667, col: 5, offset: 53987},
+																			pos: position{line: 1667, col: 5, offset: 53992},
 																			run: (*parser).callonListContinuationElement154,
 																			expr: &seqExpr{
-																				pos: position{line: 1667, col: 5, offset: 53987},
+																				pos: position{line: 1667, col: 5, offset: 53992},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 1667, col: 5, offset: 53987},
+																						pos:   position{line: 1667, col: 5, offset: 53992},
 																						label: "separator",
 																						expr: &actionExpr{
-																							pos: position{line: 1667, col: 16, offset: 53998},
+																							pos: position{line: 1667, col: 16, offset: 54003},
 																							run: (*parser).callonListContinuationElement157,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1667, col: 16, offset: 53998},
+																								pos: position{line: 1667, col: 16, offset: 54003},
 																								expr: &litMatcher{
-																									pos:        position{line: 1667, col: 17, offset: 53999},
+																									pos:        position{line: 1667, col: 17, offset: 54004},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
@@ -29942,7 +29956,7 @@ var g = &grammar{
 																						},
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1670, col: 5, offset: 54056},
+																						pos: position{line: 1670, col: 5, offset: 54061},
 																						run: (*parser).callonListContinuationElement160,
 																					},
 																				},
@@ -29950,7 +29964,7 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1662, col: 35, offset: 53866},
+																		pos: position{line: 1662, col: 35, offset: 53871},
 																		expr: &choiceExpr{
 																			pos: position{line: 2874, col: 8, offset: 90637},
 																			alternatives: []interface{}{
@@ -29991,7 +30005,7 @@ var g = &grammar{
 																		},
 																	},
 																	&anyMatcher{
-																		line: 1662, col: 40, offset: 53871,
+																		line: 1662, col: 40, offset: 53876,
 																	},
 																},
 															},
@@ -29999,24 +30013,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1655, col: 5, offset: 53545},
+													pos:   position{line: 1655, col: 5, offset: 53550},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1667, col: 5, offset: 53987},
+														pos: position{line: 1667, col: 5, offset: 53992},
 														run: (*parser).callonListContinuationElement172,
 														expr: &seqExpr{
-															pos: position{line: 1667, col: 5, offset: 53987},
+															pos: position{line: 1667, col: 5, offset: 53992},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1667, col: 5, offset: 53987},
+																	pos:   position{line: 1667, col: 5, offset: 53992},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1667, col: 16, offset: 53998},
+																		pos: position{line: 1667, col: 16, offset: 54003},
 																		run: (*parser).callonListContinuationElement175,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1667, col: 16, offset: 53998},
+																			pos: position{line: 1667, col: 16, offset: 54003},
 																			expr: &litMatcher{
-																				pos:        position{line: 1667, col: 17, offset: 53999},
+																				pos:        position{line: 1667, col: 17, offset: 54004},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -30025,7 +30039,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1670, col: 5, offset: 54056},
+																	pos: position{line: 1670, col: 5, offset: 54061},
 																	run: (*parser).callonListContinuationElement178,
 																},
 															},
@@ -30033,19 +30047,19 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1656, col: 5, offset: 53590},
+													pos:   position{line: 1656, col: 5, offset: 53595},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1678, col: 5, offset: 54305},
+														pos: position{line: 1678, col: 5, offset: 54310},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1680, col: 9, offset: 54371},
+																pos: position{line: 1680, col: 9, offset: 54376},
 																run: (*parser).callonListContinuationElement181,
 																expr: &seqExpr{
-																	pos: position{line: 1680, col: 9, offset: 54371},
+																	pos: position{line: 1680, col: 9, offset: 54376},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1680, col: 9, offset: 54371},
+																			pos: position{line: 1680, col: 9, offset: 54376},
 																			expr: &actionExpr{
 																				pos: position{line: 2852, col: 10, offset: 90239},
 																				run: (*parser).callonListContinuationElement184,
@@ -30097,7 +30111,7 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1681, col: 9, offset: 54390},
+																			pos: position{line: 1681, col: 9, offset: 54395},
 																			expr: &actionExpr{
 																				pos: position{line: 677, col: 14, offset: 21489},
 																				run: (*parser).callonListContinuationElement195,
@@ -30170,10 +30184,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1687, col: 9, offset: 54519},
+																pos: position{line: 1687, col: 9, offset: 54524},
 																run: (*parser).callonListContinuationElement210,
 																expr: &seqExpr{
-																	pos: position{line: 1687, col: 9, offset: 54519},
+																	pos: position{line: 1687, col: 9, offset: 54524},
 																	exprs: []interface{}{
 																		&actionExpr{
 																			pos: position{line: 2856, col: 11, offset: 90300},
@@ -30190,15 +30204,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1688, col: 9, offset: 54592},
+																			pos:   position{line: 1688, col: 9, offset: 54597},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1688, col: 18, offset: 54601},
+																				pos: position{line: 1688, col: 18, offset: 54606},
 																				run: (*parser).callonListContinuationElement216,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1688, col: 18, offset: 54601},
+																					pos: position{line: 1688, col: 18, offset: 54606},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1688, col: 18, offset: 54601},
+																						pos:        position{line: 1688, col: 18, offset: 54606},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -30258,21 +30272,21 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1541, col: 5, offset: 49772},
+							pos:   position{line: 1541, col: 5, offset: 49777},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1541, col: 16, offset: 49783},
+								pos: position{line: 1541, col: 16, offset: 49788},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1541, col: 17, offset: 49784},
+									pos:  position{line: 1541, col: 17, offset: 49789},
 									name: "BlockAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1542, col: 5, offset: 49806},
+							pos:   position{line: 1542, col: 5, offset: 49811},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1543, col: 9, offset: 49824},
+								pos: position{line: 1543, col: 9, offset: 49829},
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 677, col: 14, offset: 21489},
@@ -30342,7 +30356,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1544, col: 11, offset: 49844},
+										pos:  position{line: 1544, col: 11, offset: 49849},
 										name: "AttributeDeclaration",
 									},
 									&actionExpr{
@@ -30556,10 +30570,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 820, col: 5, offset: 26324},
+										pos: position{line: 820, col: 5, offset: 26329},
 										run: (*parser).callonListContinuationElement290,
 										expr: &seqExpr{
-											pos: position{line: 820, col: 5, offset: 26324},
+											pos: position{line: 820, col: 5, offset: 26329},
 											exprs: []interface{}{
 												&actionExpr{
 													pos: position{line: 740, col: 5, offset: 23584},
@@ -30651,20 +30665,20 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 821, col: 5, offset: 26355},
+													pos:   position{line: 821, col: 5, offset: 26360},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 831, col: 5, offset: 26641},
+														pos: position{line: 831, col: 5, offset: 26646},
 														expr: &actionExpr{
-															pos: position{line: 831, col: 6, offset: 26642},
+															pos: position{line: 831, col: 6, offset: 26647},
 															run: (*parser).callonListContinuationElement313,
 															expr: &seqExpr{
-																pos: position{line: 831, col: 6, offset: 26642},
+																pos: position{line: 831, col: 6, offset: 26647},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 831, col: 6, offset: 26642},
+																		pos: position{line: 831, col: 6, offset: 26647},
 																		expr: &choiceExpr{
-																			pos: position{line: 828, col: 29, offset: 26584},
+																			pos: position{line: 828, col: 29, offset: 26589},
 																			alternatives: []interface{}{
 																				&actionExpr{
 																					pos: position{line: 740, col: 5, offset: 23584},
@@ -30765,13 +30779,13 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 832, col: 5, offset: 26672},
+																		pos:   position{line: 832, col: 5, offset: 26677},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26088},
+																			pos: position{line: 811, col: 5, offset: 26093},
 																			run: (*parser).callonListContinuationElement339,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26093},
 																				exprs: []interface{}{
 																					&andExpr{
 																						pos: position{line: 2869, col: 11, offset: 90573},
@@ -30780,7 +30794,7 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26163},
+																						pos:   position{line: 812, col: 5, offset: 26168},
 																						label: "content",
 																						expr: &actionExpr{
 																							pos: position{line: 2798, col: 13, offset: 88765},
@@ -30845,9 +30859,9 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 822, col: 5, offset: 26389},
+													pos: position{line: 822, col: 5, offset: 26394},
 													expr: &choiceExpr{
-														pos: position{line: 828, col: 29, offset: 26584},
+														pos: position{line: 828, col: 29, offset: 26589},
 														alternatives: []interface{}{
 															&actionExpr{
 																pos: position{line: 740, col: 5, offset: 23584},
@@ -30951,13 +30965,13 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 840, col: 5, offset: 26825},
+										pos: position{line: 840, col: 5, offset: 26830},
 										run: (*parser).callonListContinuationElement378,
 										expr: &seqExpr{
-											pos: position{line: 840, col: 5, offset: 26825},
+											pos: position{line: 840, col: 5, offset: 26830},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 840, col: 5, offset: 26825},
+													pos:   position{line: 840, col: 5, offset: 26830},
 													label: "start",
 													expr: &actionExpr{
 														pos: position{line: 747, col: 5, offset: 23832},
@@ -31050,30 +31064,30 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 841, col: 5, offset: 26864},
+													pos: position{line: 841, col: 5, offset: 26869},
 													run: (*parser).callonListContinuationElement400,
 												},
 												&labeledExpr{
-													pos:   position{line: 844, col: 5, offset: 26956},
+													pos:   position{line: 844, col: 5, offset: 26961},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 859, col: 4, offset: 27353},
+														pos: position{line: 859, col: 4, offset: 27358},
 														expr: &actionExpr{
-															pos: position{line: 859, col: 5, offset: 27354},
+															pos: position{line: 859, col: 5, offset: 27359},
 															run: (*parser).callonListContinuationElement403,
 															expr: &seqExpr{
-																pos: position{line: 859, col: 5, offset: 27354},
+																pos: position{line: 859, col: 5, offset: 27359},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 859, col: 5, offset: 27354},
+																		pos: position{line: 859, col: 5, offset: 27359},
 																		expr: &choiceExpr{
-																			pos: position{line: 852, col: 5, offset: 27196},
+																			pos: position{line: 852, col: 5, offset: 27201},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 852, col: 5, offset: 27196},
+																					pos: position{line: 852, col: 5, offset: 27201},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 852, col: 5, offset: 27196},
+																							pos:   position{line: 852, col: 5, offset: 27201},
 																							label: "end",
 																							expr: &actionExpr{
 																								pos: position{line: 747, col: 5, offset: 23832},
@@ -31166,7 +31180,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 853, col: 5, offset: 27227},
+																							pos: position{line: 853, col: 5, offset: 27232},
 																							run: (*parser).callonListContinuationElement428,
 																						},
 																					},
@@ -31181,13 +31195,13 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 860, col: 5, offset: 27384},
+																		pos:   position{line: 860, col: 5, offset: 27389},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26088},
+																			pos: position{line: 811, col: 5, offset: 26093},
 																			run: (*parser).callonListContinuationElement432,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26093},
 																				exprs: []interface{}{
 																					&andExpr{
 																						pos: position{line: 2869, col: 11, offset: 90573},
@@ -31196,7 +31210,7 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26163},
+																						pos:   position{line: 812, col: 5, offset: 26168},
 																						label: "content",
 																						expr: &actionExpr{
 																							pos: position{line: 2798, col: 13, offset: 88765},
@@ -31261,18 +31275,18 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 845, col: 5, offset: 26990},
+													pos:   position{line: 845, col: 5, offset: 26995},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 845, col: 9, offset: 26994},
+														pos: position{line: 845, col: 9, offset: 26999},
 														expr: &choiceExpr{
-															pos: position{line: 852, col: 5, offset: 27196},
+															pos: position{line: 852, col: 5, offset: 27201},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 852, col: 5, offset: 27196},
+																	pos: position{line: 852, col: 5, offset: 27201},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 852, col: 5, offset: 27196},
+																			pos:   position{line: 852, col: 5, offset: 27201},
 																			label: "end",
 																			expr: &actionExpr{
 																				pos: position{line: 747, col: 5, offset: 23832},
@@ -31365,7 +31379,7 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 853, col: 5, offset: 27227},
+																			pos: position{line: 853, col: 5, offset: 27232},
 																			run: (*parser).callonListContinuationElement472,
 																		},
 																	},
@@ -31384,13 +31398,13 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 952, col: 5, offset: 29676},
+										pos: position{line: 952, col: 5, offset: 29681},
 										run: (*parser).callonListContinuationElement475,
 										expr: &seqExpr{
-											pos: position{line: 952, col: 5, offset: 29676},
+											pos: position{line: 952, col: 5, offset: 29681},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 952, col: 5, offset: 29676},
+													pos:   position{line: 952, col: 5, offset: 29681},
 													label: "delimiter",
 													expr: &actionExpr{
 														pos: position{line: 760, col: 26, offset: 24320},
@@ -31414,8 +31428,8 @@ var g = &grammar{
 																			pos: position{line: 764, col: 14, offset: 24457},
 																			expr: &charClassMatcher{
 																				pos:        position{line: 764, col: 14, offset: 24457},
-																				val:        "[^\\r\\n` ]",
-																				chars:      []rune{'\r', '\n', '`', ' '},
+																				val:        "[^\\r\\n`\\t ]",
+																				chars:      []rune{'\r', '\n', '`', '\t', ' '},
 																				ignoreCase: false,
 																				inverted:   true,
 																			},
@@ -31479,29 +31493,29 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 953, col: 5, offset: 29722},
+													pos:   position{line: 953, col: 5, offset: 29727},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 966, col: 5, offset: 30195},
+														pos: position{line: 966, col: 5, offset: 30200},
 														expr: &actionExpr{
-															pos: position{line: 966, col: 6, offset: 30196},
+															pos: position{line: 966, col: 6, offset: 30201},
 															run: (*parser).callonListContinuationElement498,
 															expr: &seqExpr{
-																pos: position{line: 966, col: 6, offset: 30196},
+																pos: position{line: 966, col: 6, offset: 30201},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 966, col: 6, offset: 30196},
+																		pos: position{line: 966, col: 6, offset: 30201},
 																		expr: &seqExpr{
-																			pos: position{line: 963, col: 34, offset: 30143},
+																			pos: position{line: 963, col: 34, offset: 30148},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 963, col: 34, offset: 30143},
+																					pos:        position{line: 963, col: 34, offset: 30148},
 																					val:        "```",
 																					ignoreCase: false,
 																					want:       "\"```\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 963, col: 40, offset: 30149},
+																					pos: position{line: 963, col: 40, offset: 30154},
 																					expr: &actionExpr{
 																						pos: position{line: 2852, col: 10, offset: 90239},
 																						run: (*parser).callonListContinuationElement504,
@@ -31556,13 +31570,13 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 967, col: 5, offset: 30231},
+																		pos:   position{line: 967, col: 5, offset: 30236},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26088},
+																			pos: position{line: 811, col: 5, offset: 26093},
 																			run: (*parser).callonListContinuationElement515,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26093},
 																				exprs: []interface{}{
 																					&andExpr{
 																						pos: position{line: 2869, col: 11, offset: 90573},
@@ -31571,7 +31585,7 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26163},
+																						pos:   position{line: 812, col: 5, offset: 26168},
 																						label: "content",
 																						expr: &actionExpr{
 																							pos: position{line: 2798, col: 13, offset: 88765},
@@ -31636,18 +31650,18 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 954, col: 5, offset: 29761},
+													pos: position{line: 954, col: 5, offset: 29766},
 													expr: &seqExpr{
-														pos: position{line: 963, col: 34, offset: 30143},
+														pos: position{line: 963, col: 34, offset: 30148},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 963, col: 34, offset: 30143},
+																pos:        position{line: 963, col: 34, offset: 30148},
 																val:        "```",
 																ignoreCase: false,
 																want:       "\"```\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 963, col: 40, offset: 30149},
+																pos: position{line: 963, col: 40, offset: 30154},
 																expr: &actionExpr{
 																	pos: position{line: 2852, col: 10, offset: 90239},
 																	run: (*parser).callonListContinuationElement535,
@@ -31705,13 +31719,13 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 868, col: 5, offset: 27537},
+										pos: position{line: 868, col: 5, offset: 27542},
 										run: (*parser).callonListContinuationElement545,
 										expr: &seqExpr{
-											pos: position{line: 868, col: 5, offset: 27537},
+											pos: position{line: 868, col: 5, offset: 27542},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 868, col: 5, offset: 27537},
+													pos:   position{line: 868, col: 5, offset: 27542},
 													label: "start",
 													expr: &actionExpr{
 														pos: position{line: 754, col: 5, offset: 24079},
@@ -31804,30 +31818,30 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 869, col: 5, offset: 27575},
+													pos: position{line: 869, col: 5, offset: 27580},
 													run: (*parser).callonListContinuationElement567,
 												},
 												&labeledExpr{
-													pos:   position{line: 872, col: 5, offset: 27667},
+													pos:   position{line: 872, col: 5, offset: 27672},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 887, col: 5, offset: 28057},
+														pos: position{line: 887, col: 5, offset: 28062},
 														expr: &actionExpr{
-															pos: position{line: 887, col: 6, offset: 28058},
+															pos: position{line: 887, col: 6, offset: 28063},
 															run: (*parser).callonListContinuationElement570,
 															expr: &seqExpr{
-																pos: position{line: 887, col: 6, offset: 28058},
+																pos: position{line: 887, col: 6, offset: 28063},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 887, col: 6, offset: 28058},
+																		pos: position{line: 887, col: 6, offset: 28063},
 																		expr: &choiceExpr{
-																			pos: position{line: 880, col: 5, offset: 27901},
+																			pos: position{line: 880, col: 5, offset: 27906},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 880, col: 5, offset: 27901},
+																					pos: position{line: 880, col: 5, offset: 27906},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 880, col: 5, offset: 27901},
+																							pos:   position{line: 880, col: 5, offset: 27906},
 																							label: "end",
 																							expr: &actionExpr{
 																								pos: position{line: 754, col: 5, offset: 24079},
@@ -31920,7 +31934,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 881, col: 5, offset: 27931},
+																							pos: position{line: 881, col: 5, offset: 27936},
 																							run: (*parser).callonListContinuationElement595,
 																						},
 																					},
@@ -31935,13 +31949,13 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 888, col: 5, offset: 28087},
+																		pos:   position{line: 888, col: 5, offset: 28092},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26088},
+																			pos: position{line: 811, col: 5, offset: 26093},
 																			run: (*parser).callonListContinuationElement599,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26093},
 																				exprs: []interface{}{
 																					&andExpr{
 																						pos: position{line: 2869, col: 11, offset: 90573},
@@ -31950,7 +31964,7 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26163},
+																						pos:   position{line: 812, col: 5, offset: 26168},
 																						label: "content",
 																						expr: &actionExpr{
 																							pos: position{line: 2798, col: 13, offset: 88765},
@@ -32015,18 +32029,18 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 873, col: 5, offset: 27700},
+													pos:   position{line: 873, col: 5, offset: 27705},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 873, col: 9, offset: 27704},
+														pos: position{line: 873, col: 9, offset: 27709},
 														expr: &choiceExpr{
-															pos: position{line: 880, col: 5, offset: 27901},
+															pos: position{line: 880, col: 5, offset: 27906},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 880, col: 5, offset: 27901},
+																	pos: position{line: 880, col: 5, offset: 27906},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 880, col: 5, offset: 27901},
+																			pos:   position{line: 880, col: 5, offset: 27906},
 																			label: "end",
 																			expr: &actionExpr{
 																				pos: position{line: 754, col: 5, offset: 24079},
@@ -32119,7 +32133,7 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 881, col: 5, offset: 27931},
+																			pos: position{line: 881, col: 5, offset: 27936},
 																			run: (*parser).callonListContinuationElement639,
 																		},
 																	},
@@ -32138,39 +32152,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 896, col: 5, offset: 28242},
+										pos: position{line: 896, col: 5, offset: 28247},
 										run: (*parser).callonListContinuationElement642,
 										expr: &seqExpr{
-											pos: position{line: 896, col: 5, offset: 28242},
+											pos: position{line: 896, col: 5, offset: 28247},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 896, col: 5, offset: 28242},
+													pos:   position{line: 896, col: 5, offset: 28247},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 769, col: 5, offset: 24616},
+														pos: position{line: 769, col: 5, offset: 24621},
 														run: (*parser).callonListContinuationElement645,
 														expr: &seqExpr{
-															pos: position{line: 769, col: 5, offset: 24616},
+															pos: position{line: 769, col: 5, offset: 24621},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 769, col: 5, offset: 24616},
+																	pos:   position{line: 769, col: 5, offset: 24621},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 769, col: 16, offset: 24627},
+																		pos: position{line: 769, col: 16, offset: 24632},
 																		run: (*parser).callonListContinuationElement648,
 																		expr: &seqExpr{
-																			pos: position{line: 769, col: 16, offset: 24627},
+																			pos: position{line: 769, col: 16, offset: 24632},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 769, col: 16, offset: 24627},
+																					pos:        position{line: 769, col: 16, offset: 24632},
 																					val:        "----",
 																					ignoreCase: false,
 																					want:       "\"----\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 769, col: 23, offset: 24634},
+																					pos: position{line: 769, col: 23, offset: 24639},
 																					expr: &litMatcher{
-																						pos:        position{line: 769, col: 23, offset: 24634},
+																						pos:        position{line: 769, col: 23, offset: 24639},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
@@ -32181,7 +32195,7 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 771, col: 8, offset: 24718},
+																	pos: position{line: 771, col: 8, offset: 24723},
 																	expr: &actionExpr{
 																		pos: position{line: 2852, col: 10, offset: 90239},
 																		run: (*parser).callonListContinuationElement654,
@@ -32237,56 +32251,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 897, col: 5, offset: 28281},
+													pos: position{line: 897, col: 5, offset: 28286},
 													run: (*parser).callonListContinuationElement664,
 												},
 												&labeledExpr{
-													pos:   position{line: 900, col: 5, offset: 28373},
+													pos:   position{line: 900, col: 5, offset: 28378},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 915, col: 5, offset: 28771},
+														pos: position{line: 915, col: 5, offset: 28776},
 														expr: &actionExpr{
-															pos: position{line: 915, col: 6, offset: 28772},
+															pos: position{line: 915, col: 6, offset: 28777},
 															run: (*parser).callonListContinuationElement667,
 															expr: &seqExpr{
-																pos: position{line: 915, col: 6, offset: 28772},
+																pos: position{line: 915, col: 6, offset: 28777},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 915, col: 6, offset: 28772},
+																		pos: position{line: 915, col: 6, offset: 28777},
 																		expr: &choiceExpr{
-																			pos: position{line: 908, col: 5, offset: 28613},
+																			pos: position{line: 908, col: 5, offset: 28618},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 908, col: 5, offset: 28613},
+																					pos: position{line: 908, col: 5, offset: 28618},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 908, col: 5, offset: 28613},
+																							pos:   position{line: 908, col: 5, offset: 28618},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 769, col: 5, offset: 24616},
+																								pos: position{line: 769, col: 5, offset: 24621},
 																								run: (*parser).callonListContinuationElement673,
 																								expr: &seqExpr{
-																									pos: position{line: 769, col: 5, offset: 24616},
+																									pos: position{line: 769, col: 5, offset: 24621},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 769, col: 5, offset: 24616},
+																											pos:   position{line: 769, col: 5, offset: 24621},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 769, col: 16, offset: 24627},
+																												pos: position{line: 769, col: 16, offset: 24632},
 																												run: (*parser).callonListContinuationElement676,
 																												expr: &seqExpr{
-																													pos: position{line: 769, col: 16, offset: 24627},
+																													pos: position{line: 769, col: 16, offset: 24632},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 769, col: 16, offset: 24627},
+																															pos:        position{line: 769, col: 16, offset: 24632},
 																															val:        "----",
 																															ignoreCase: false,
 																															want:       "\"----\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 769, col: 23, offset: 24634},
+																															pos: position{line: 769, col: 23, offset: 24639},
 																															expr: &litMatcher{
-																																pos:        position{line: 769, col: 23, offset: 24634},
+																																pos:        position{line: 769, col: 23, offset: 24639},
 																																val:        "-",
 																																ignoreCase: false,
 																																want:       "\"-\"",
@@ -32297,7 +32311,7 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 771, col: 8, offset: 24718},
+																											pos: position{line: 771, col: 8, offset: 24723},
 																											expr: &actionExpr{
 																												pos: position{line: 2852, col: 10, offset: 90239},
 																												run: (*parser).callonListContinuationElement682,
@@ -32353,7 +32367,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 909, col: 5, offset: 28644},
+																							pos: position{line: 909, col: 5, offset: 28649},
 																							run: (*parser).callonListContinuationElement692,
 																						},
 																					},
@@ -32368,13 +32382,13 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 916, col: 5, offset: 28802},
+																		pos:   position{line: 916, col: 5, offset: 28807},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26088},
+																			pos: position{line: 811, col: 5, offset: 26093},
 																			run: (*parser).callonListContinuationElement696,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26093},
 																				exprs: []interface{}{
 																					&andExpr{
 																						pos: position{line: 2869, col: 11, offset: 90573},
@@ -32383,7 +32397,7 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26163},
+																						pos:   position{line: 812, col: 5, offset: 26168},
 																						label: "content",
 																						expr: &actionExpr{
 																							pos: position{line: 2798, col: 13, offset: 88765},
@@ -32448,44 +32462,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 901, col: 5, offset: 28407},
+													pos:   position{line: 901, col: 5, offset: 28412},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 901, col: 9, offset: 28411},
+														pos: position{line: 901, col: 9, offset: 28416},
 														expr: &choiceExpr{
-															pos: position{line: 908, col: 5, offset: 28613},
+															pos: position{line: 908, col: 5, offset: 28618},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 908, col: 5, offset: 28613},
+																	pos: position{line: 908, col: 5, offset: 28618},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 908, col: 5, offset: 28613},
+																			pos:   position{line: 908, col: 5, offset: 28618},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 769, col: 5, offset: 24616},
+																				pos: position{line: 769, col: 5, offset: 24621},
 																				run: (*parser).callonListContinuationElement717,
 																				expr: &seqExpr{
-																					pos: position{line: 769, col: 5, offset: 24616},
+																					pos: position{line: 769, col: 5, offset: 24621},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 769, col: 5, offset: 24616},
+																							pos:   position{line: 769, col: 5, offset: 24621},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 769, col: 16, offset: 24627},
+																								pos: position{line: 769, col: 16, offset: 24632},
 																								run: (*parser).callonListContinuationElement720,
 																								expr: &seqExpr{
-																									pos: position{line: 769, col: 16, offset: 24627},
+																									pos: position{line: 769, col: 16, offset: 24632},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 769, col: 16, offset: 24627},
+																											pos:        position{line: 769, col: 16, offset: 24632},
 																											val:        "----",
 																											ignoreCase: false,
 																											want:       "\"----\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 769, col: 23, offset: 24634},
+																											pos: position{line: 769, col: 23, offset: 24639},
 																											expr: &litMatcher{
-																												pos:        position{line: 769, col: 23, offset: 24634},
+																												pos:        position{line: 769, col: 23, offset: 24639},
 																												val:        "-",
 																												ignoreCase: false,
 																												want:       "\"-\"",
@@ -32496,7 +32510,7 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 771, col: 8, offset: 24718},
+																							pos: position{line: 771, col: 8, offset: 24723},
 																							expr: &actionExpr{
 																								pos: position{line: 2852, col: 10, offset: 90239},
 																								run: (*parser).callonListContinuationElement726,
@@ -32552,7 +32566,7 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 909, col: 5, offset: 28644},
+																			pos: position{line: 909, col: 5, offset: 28649},
 																			run: (*parser).callonListContinuationElement736,
 																		},
 																	},
@@ -32571,39 +32585,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 924, col: 5, offset: 28957},
+										pos: position{line: 924, col: 5, offset: 28962},
 										run: (*parser).callonListContinuationElement739,
 										expr: &seqExpr{
-											pos: position{line: 924, col: 5, offset: 28957},
+											pos: position{line: 924, col: 5, offset: 28962},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 924, col: 5, offset: 28957},
+													pos:   position{line: 924, col: 5, offset: 28962},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 783, col: 5, offset: 25092},
+														pos: position{line: 783, col: 5, offset: 25097},
 														run: (*parser).callonListContinuationElement742,
 														expr: &seqExpr{
-															pos: position{line: 783, col: 5, offset: 25092},
+															pos: position{line: 783, col: 5, offset: 25097},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 783, col: 5, offset: 25092},
+																	pos:   position{line: 783, col: 5, offset: 25097},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 783, col: 16, offset: 25103},
+																		pos: position{line: 783, col: 16, offset: 25108},
 																		run: (*parser).callonListContinuationElement745,
 																		expr: &seqExpr{
-																			pos: position{line: 783, col: 16, offset: 25103},
+																			pos: position{line: 783, col: 16, offset: 25108},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 783, col: 16, offset: 25103},
+																					pos:        position{line: 783, col: 16, offset: 25108},
 																					val:        "....",
 																					ignoreCase: false,
 																					want:       "\"....\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 783, col: 23, offset: 25110},
+																					pos: position{line: 783, col: 23, offset: 25115},
 																					expr: &litMatcher{
-																						pos:        position{line: 783, col: 23, offset: 25110},
+																						pos:        position{line: 783, col: 23, offset: 25115},
 																						val:        ".",
 																						ignoreCase: false,
 																						want:       "\".\"",
@@ -32614,7 +32628,7 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 785, col: 8, offset: 25194},
+																	pos: position{line: 785, col: 8, offset: 25199},
 																	expr: &actionExpr{
 																		pos: position{line: 2852, col: 10, offset: 90239},
 																		run: (*parser).callonListContinuationElement751,
@@ -32670,56 +32684,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 925, col: 5, offset: 28996},
+													pos: position{line: 925, col: 5, offset: 29001},
 													run: (*parser).callonListContinuationElement761,
 												},
 												&labeledExpr{
-													pos:   position{line: 928, col: 5, offset: 29088},
+													pos:   position{line: 928, col: 5, offset: 29093},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 943, col: 5, offset: 29486},
+														pos: position{line: 943, col: 5, offset: 29491},
 														expr: &actionExpr{
-															pos: position{line: 943, col: 6, offset: 29487},
+															pos: position{line: 943, col: 6, offset: 29492},
 															run: (*parser).callonListContinuationElement764,
 															expr: &seqExpr{
-																pos: position{line: 943, col: 6, offset: 29487},
+																pos: position{line: 943, col: 6, offset: 29492},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 943, col: 6, offset: 29487},
+																		pos: position{line: 943, col: 6, offset: 29492},
 																		expr: &choiceExpr{
-																			pos: position{line: 936, col: 5, offset: 29328},
+																			pos: position{line: 936, col: 5, offset: 29333},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 936, col: 5, offset: 29328},
+																					pos: position{line: 936, col: 5, offset: 29333},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 936, col: 5, offset: 29328},
+																							pos:   position{line: 936, col: 5, offset: 29333},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 783, col: 5, offset: 25092},
+																								pos: position{line: 783, col: 5, offset: 25097},
 																								run: (*parser).callonListContinuationElement770,
 																								expr: &seqExpr{
-																									pos: position{line: 783, col: 5, offset: 25092},
+																									pos: position{line: 783, col: 5, offset: 25097},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 783, col: 5, offset: 25092},
+																											pos:   position{line: 783, col: 5, offset: 25097},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 783, col: 16, offset: 25103},
+																												pos: position{line: 783, col: 16, offset: 25108},
 																												run: (*parser).callonListContinuationElement773,
 																												expr: &seqExpr{
-																													pos: position{line: 783, col: 16, offset: 25103},
+																													pos: position{line: 783, col: 16, offset: 25108},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 783, col: 16, offset: 25103},
+																															pos:        position{line: 783, col: 16, offset: 25108},
 																															val:        "....",
 																															ignoreCase: false,
 																															want:       "\"....\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 783, col: 23, offset: 25110},
+																															pos: position{line: 783, col: 23, offset: 25115},
 																															expr: &litMatcher{
-																																pos:        position{line: 783, col: 23, offset: 25110},
+																																pos:        position{line: 783, col: 23, offset: 25115},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -32730,7 +32744,7 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 785, col: 8, offset: 25194},
+																											pos: position{line: 785, col: 8, offset: 25199},
 																											expr: &actionExpr{
 																												pos: position{line: 2852, col: 10, offset: 90239},
 																												run: (*parser).callonListContinuationElement779,
@@ -32786,7 +32800,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 937, col: 5, offset: 29359},
+																							pos: position{line: 937, col: 5, offset: 29364},
 																							run: (*parser).callonListContinuationElement789,
 																						},
 																					},
@@ -32801,13 +32815,13 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 944, col: 5, offset: 29517},
+																		pos:   position{line: 944, col: 5, offset: 29522},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26088},
+																			pos: position{line: 811, col: 5, offset: 26093},
 																			run: (*parser).callonListContinuationElement793,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26093},
 																				exprs: []interface{}{
 																					&andExpr{
 																						pos: position{line: 2869, col: 11, offset: 90573},
@@ -32816,7 +32830,7 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26163},
+																						pos:   position{line: 812, col: 5, offset: 26168},
 																						label: "content",
 																						expr: &actionExpr{
 																							pos: position{line: 2798, col: 13, offset: 88765},
@@ -32881,44 +32895,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 929, col: 5, offset: 29122},
+													pos:   position{line: 929, col: 5, offset: 29127},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 929, col: 9, offset: 29126},
+														pos: position{line: 929, col: 9, offset: 29131},
 														expr: &choiceExpr{
-															pos: position{line: 936, col: 5, offset: 29328},
+															pos: position{line: 936, col: 5, offset: 29333},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 936, col: 5, offset: 29328},
+																	pos: position{line: 936, col: 5, offset: 29333},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 936, col: 5, offset: 29328},
+																			pos:   position{line: 936, col: 5, offset: 29333},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 783, col: 5, offset: 25092},
+																				pos: position{line: 783, col: 5, offset: 25097},
 																				run: (*parser).callonListContinuationElement814,
 																				expr: &seqExpr{
-																					pos: position{line: 783, col: 5, offset: 25092},
+																					pos: position{line: 783, col: 5, offset: 25097},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 783, col: 5, offset: 25092},
+																							pos:   position{line: 783, col: 5, offset: 25097},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 783, col: 16, offset: 25103},
+																								pos: position{line: 783, col: 16, offset: 25108},
 																								run: (*parser).callonListContinuationElement817,
 																								expr: &seqExpr{
-																									pos: position{line: 783, col: 16, offset: 25103},
+																									pos: position{line: 783, col: 16, offset: 25108},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 783, col: 16, offset: 25103},
+																											pos:        position{line: 783, col: 16, offset: 25108},
 																											val:        "....",
 																											ignoreCase: false,
 																											want:       "\"....\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 783, col: 23, offset: 25110},
+																											pos: position{line: 783, col: 23, offset: 25115},
 																											expr: &litMatcher{
-																												pos:        position{line: 783, col: 23, offset: 25110},
+																												pos:        position{line: 783, col: 23, offset: 25115},
 																												val:        ".",
 																												ignoreCase: false,
 																												want:       "\".\"",
@@ -32929,7 +32943,7 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 785, col: 8, offset: 25194},
+																							pos: position{line: 785, col: 8, offset: 25199},
 																							expr: &actionExpr{
 																								pos: position{line: 2852, col: 10, offset: 90239},
 																								run: (*parser).callonListContinuationElement823,
@@ -32985,7 +32999,7 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 937, col: 5, offset: 29359},
+																			pos: position{line: 937, col: 5, offset: 29364},
 																			run: (*parser).callonListContinuationElement833,
 																		},
 																	},
@@ -33004,22 +33018,22 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 975, col: 5, offset: 30400},
+										pos: position{line: 975, col: 5, offset: 30405},
 										run: (*parser).callonListContinuationElement836,
 										expr: &seqExpr{
-											pos: position{line: 975, col: 5, offset: 30400},
+											pos: position{line: 975, col: 5, offset: 30405},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 975, col: 5, offset: 30400},
+													pos:   position{line: 975, col: 5, offset: 30405},
 													label: "firstLine",
 													expr: &actionExpr{
-														pos: position{line: 982, col: 5, offset: 30659},
+														pos: position{line: 982, col: 5, offset: 30664},
 														run: (*parser).callonListContinuationElement839,
 														expr: &seqExpr{
-															pos: position{line: 982, col: 5, offset: 30659},
+															pos: position{line: 982, col: 5, offset: 30664},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 982, col: 5, offset: 30659},
+																	pos: position{line: 982, col: 5, offset: 30664},
 																	expr: &actionExpr{
 																		pos: position{line: 677, col: 14, offset: 21489},
 																		run: (*parser).callonListContinuationElement842,
@@ -33089,13 +33103,13 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 983, col: 5, offset: 30674},
+																	pos:        position{line: 983, col: 5, offset: 30679},
 																	val:        "> ",
 																	ignoreCase: false,
 																	want:       "\"> \"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 984, col: 5, offset: 30684},
+																	pos:   position{line: 984, col: 5, offset: 30689},
 																	label: "content",
 																	expr: &actionExpr{
 																		pos: position{line: 2802, col: 14, offset: 88832},
@@ -33155,21 +33169,21 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 976, col: 5, offset: 30437},
+													pos:   position{line: 976, col: 5, offset: 30442},
 													label: "otherLines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 976, col: 16, offset: 30448},
+														pos: position{line: 976, col: 16, offset: 30453},
 														expr: &choiceExpr{
-															pos: position{line: 976, col: 17, offset: 30449},
+															pos: position{line: 976, col: 17, offset: 30454},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 982, col: 5, offset: 30659},
+																	pos: position{line: 982, col: 5, offset: 30664},
 																	run: (*parser).callonListContinuationElement873,
 																	expr: &seqExpr{
-																		pos: position{line: 982, col: 5, offset: 30659},
+																		pos: position{line: 982, col: 5, offset: 30664},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 982, col: 5, offset: 30659},
+																				pos: position{line: 982, col: 5, offset: 30664},
 																				expr: &actionExpr{
 																					pos: position{line: 677, col: 14, offset: 21489},
 																					run: (*parser).callonListContinuationElement876,
@@ -33239,13 +33253,13 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 983, col: 5, offset: 30674},
+																				pos:        position{line: 983, col: 5, offset: 30679},
 																				val:        "> ",
 																				ignoreCase: false,
 																				want:       "\"> \"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 984, col: 5, offset: 30684},
+																				pos:   position{line: 984, col: 5, offset: 30689},
 																				label: "content",
 																				expr: &actionExpr{
 																					pos: position{line: 2802, col: 14, offset: 88832},
@@ -33304,13 +33318,13 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1784, col: 5, offset: 57605},
+																	pos: position{line: 1784, col: 5, offset: 57610},
 																	run: (*parser).callonListContinuationElement904,
 																	expr: &seqExpr{
-																		pos: position{line: 1784, col: 5, offset: 57605},
+																		pos: position{line: 1784, col: 5, offset: 57610},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1784, col: 5, offset: 57605},
+																				pos:   position{line: 1784, col: 5, offset: 57610},
 																				label: "content",
 																				expr: &actionExpr{
 																					pos: position{line: 2802, col: 14, offset: 88832},
@@ -33328,7 +33342,7 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1785, col: 5, offset: 57629},
+																				pos: position{line: 1785, col: 5, offset: 57634},
 																				run: (*parser).callonListContinuationElement910,
 																			},
 																			&choiceExpr{
@@ -33380,28 +33394,28 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 997, col: 5, offset: 30949},
+										pos: position{line: 997, col: 5, offset: 30954},
 										run: (*parser).callonListContinuationElement919,
 										expr: &seqExpr{
-											pos: position{line: 997, col: 5, offset: 30949},
+											pos: position{line: 997, col: 5, offset: 30954},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 997, col: 5, offset: 30949},
+													pos:   position{line: 997, col: 5, offset: 30954},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 776, col: 5, offset: 24861},
+														pos: position{line: 776, col: 5, offset: 24866},
 														run: (*parser).callonListContinuationElement922,
 														expr: &seqExpr{
-															pos: position{line: 776, col: 5, offset: 24861},
+															pos: position{line: 776, col: 5, offset: 24866},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 776, col: 5, offset: 24861},
+																	pos:   position{line: 776, col: 5, offset: 24866},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 776, col: 16, offset: 24872},
+																		pos: position{line: 776, col: 16, offset: 24877},
 																		run: (*parser).callonListContinuationElement925,
 																		expr: &litMatcher{
-																			pos:        position{line: 776, col: 16, offset: 24872},
+																			pos:        position{line: 776, col: 16, offset: 24877},
 																			val:        "--",
 																			ignoreCase: false,
 																			want:       "\"--\"",
@@ -33409,7 +33423,7 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 778, col: 8, offset: 24949},
+																	pos: position{line: 778, col: 8, offset: 24954},
 																	expr: &actionExpr{
 																		pos: position{line: 2852, col: 10, offset: 90239},
 																		run: (*parser).callonListContinuationElement928,
@@ -33465,35 +33479,35 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 998, col: 5, offset: 30985},
+													pos:   position{line: 998, col: 5, offset: 30990},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1008, col: 5, offset: 31253},
+														pos: position{line: 1008, col: 5, offset: 31258},
 														expr: &actionExpr{
-															pos: position{line: 1008, col: 6, offset: 31254},
+															pos: position{line: 1008, col: 6, offset: 31259},
 															run: (*parser).callonListContinuationElement940,
 															expr: &seqExpr{
-																pos: position{line: 1008, col: 6, offset: 31254},
+																pos: position{line: 1008, col: 6, offset: 31259},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1008, col: 6, offset: 31254},
+																		pos: position{line: 1008, col: 6, offset: 31259},
 																		expr: &choiceExpr{
-																			pos: position{line: 1005, col: 26, offset: 31202},
+																			pos: position{line: 1005, col: 26, offset: 31207},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 776, col: 5, offset: 24861},
+																					pos: position{line: 776, col: 5, offset: 24866},
 																					run: (*parser).callonListContinuationElement944,
 																					expr: &seqExpr{
-																						pos: position{line: 776, col: 5, offset: 24861},
+																						pos: position{line: 776, col: 5, offset: 24866},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 776, col: 5, offset: 24861},
+																								pos:   position{line: 776, col: 5, offset: 24866},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 776, col: 16, offset: 24872},
+																									pos: position{line: 776, col: 16, offset: 24877},
 																									run: (*parser).callonListContinuationElement947,
 																									expr: &litMatcher{
-																										pos:        position{line: 776, col: 16, offset: 24872},
+																										pos:        position{line: 776, col: 16, offset: 24877},
 																										val:        "--",
 																										ignoreCase: false,
 																										want:       "\"--\"",
@@ -33501,7 +33515,7 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 778, col: 8, offset: 24949},
+																								pos: position{line: 778, col: 8, offset: 24954},
 																								expr: &actionExpr{
 																									pos: position{line: 2852, col: 10, offset: 90239},
 																									run: (*parser).callonListContinuationElement950,
@@ -33565,13 +33579,13 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1009, col: 5, offset: 31281},
+																		pos:   position{line: 1009, col: 5, offset: 31286},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26088},
+																			pos: position{line: 811, col: 5, offset: 26093},
 																			run: (*parser).callonListContinuationElement963,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26093},
 																				exprs: []interface{}{
 																					&andExpr{
 																						pos: position{line: 2869, col: 11, offset: 90573},
@@ -33580,7 +33594,7 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26163},
+																						pos:   position{line: 812, col: 5, offset: 26168},
 																						label: "content",
 																						expr: &actionExpr{
 																							pos: position{line: 2798, col: 13, offset: 88765},
@@ -33645,27 +33659,27 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 999, col: 5, offset: 31016},
+													pos:   position{line: 999, col: 5, offset: 31021},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 999, col: 9, offset: 31020},
+														pos: position{line: 999, col: 9, offset: 31025},
 														expr: &choiceExpr{
-															pos: position{line: 1005, col: 26, offset: 31202},
+															pos: position{line: 1005, col: 26, offset: 31207},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 776, col: 5, offset: 24861},
+																	pos: position{line: 776, col: 5, offset: 24866},
 																	run: (*parser).callonListContinuationElement982,
 																	expr: &seqExpr{
-																		pos: position{line: 776, col: 5, offset: 24861},
+																		pos: position{line: 776, col: 5, offset: 24866},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 776, col: 5, offset: 24861},
+																				pos:   position{line: 776, col: 5, offset: 24866},
 																				label: "delimiter",
 																				expr: &actionExpr{
-																					pos: position{line: 776, col: 16, offset: 24872},
+																					pos: position{line: 776, col: 16, offset: 24877},
 																					run: (*parser).callonListContinuationElement985,
 																					expr: &litMatcher{
-																						pos:        position{line: 776, col: 16, offset: 24872},
+																						pos:        position{line: 776, col: 16, offset: 24877},
 																						val:        "--",
 																						ignoreCase: false,
 																						want:       "\"--\"",
@@ -33673,7 +33687,7 @@ var g = &grammar{
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 778, col: 8, offset: 24949},
+																				pos: position{line: 778, col: 8, offset: 24954},
 																				expr: &actionExpr{
 																					pos: position{line: 2852, col: 10, offset: 90239},
 																					run: (*parser).callonListContinuationElement988,
@@ -33741,39 +33755,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1017, col: 5, offset: 31444},
+										pos: position{line: 1017, col: 5, offset: 31449},
 										run: (*parser).callonListContinuationElement1000,
 										expr: &seqExpr{
-											pos: position{line: 1017, col: 5, offset: 31444},
+											pos: position{line: 1017, col: 5, offset: 31449},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1017, col: 5, offset: 31444},
+													pos:   position{line: 1017, col: 5, offset: 31449},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 790, col: 5, offset: 25344},
+														pos: position{line: 790, col: 5, offset: 25349},
 														run: (*parser).callonListContinuationElement1003,
 														expr: &seqExpr{
-															pos: position{line: 790, col: 5, offset: 25344},
+															pos: position{line: 790, col: 5, offset: 25349},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 790, col: 5, offset: 25344},
+																	pos:   position{line: 790, col: 5, offset: 25349},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 790, col: 16, offset: 25355},
+																		pos: position{line: 790, col: 16, offset: 25360},
 																		run: (*parser).callonListContinuationElement1006,
 																		expr: &seqExpr{
-																			pos: position{line: 790, col: 16, offset: 25355},
+																			pos: position{line: 790, col: 16, offset: 25360},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 790, col: 16, offset: 25355},
+																					pos:        position{line: 790, col: 16, offset: 25360},
 																					val:        "++++",
 																					ignoreCase: false,
 																					want:       "\"++++\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 790, col: 23, offset: 25362},
+																					pos: position{line: 790, col: 23, offset: 25367},
 																					expr: &litMatcher{
-																						pos:        position{line: 790, col: 23, offset: 25362},
+																						pos:        position{line: 790, col: 23, offset: 25367},
 																						val:        "+",
 																						ignoreCase: false,
 																						want:       "\"+\"",
@@ -33784,7 +33798,7 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 792, col: 8, offset: 25446},
+																	pos: position{line: 792, col: 8, offset: 25451},
 																	expr: &actionExpr{
 																		pos: position{line: 2852, col: 10, offset: 90239},
 																		run: (*parser).callonListContinuationElement1012,
@@ -33840,56 +33854,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1018, col: 5, offset: 31487},
+													pos: position{line: 1018, col: 5, offset: 31492},
 													run: (*parser).callonListContinuationElement1022,
 												},
 												&labeledExpr{
-													pos:   position{line: 1021, col: 5, offset: 31579},
+													pos:   position{line: 1021, col: 5, offset: 31584},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1036, col: 5, offset: 32009},
+														pos: position{line: 1036, col: 5, offset: 32014},
 														expr: &actionExpr{
-															pos: position{line: 1036, col: 6, offset: 32010},
+															pos: position{line: 1036, col: 6, offset: 32015},
 															run: (*parser).callonListContinuationElement1025,
 															expr: &seqExpr{
-																pos: position{line: 1036, col: 6, offset: 32010},
+																pos: position{line: 1036, col: 6, offset: 32015},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1036, col: 6, offset: 32010},
+																		pos: position{line: 1036, col: 6, offset: 32015},
 																		expr: &choiceExpr{
-																			pos: position{line: 1029, col: 5, offset: 31843},
+																			pos: position{line: 1029, col: 5, offset: 31848},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1029, col: 5, offset: 31843},
+																					pos: position{line: 1029, col: 5, offset: 31848},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1029, col: 5, offset: 31843},
+																							pos:   position{line: 1029, col: 5, offset: 31848},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 790, col: 5, offset: 25344},
+																								pos: position{line: 790, col: 5, offset: 25349},
 																								run: (*parser).callonListContinuationElement1031,
 																								expr: &seqExpr{
-																									pos: position{line: 790, col: 5, offset: 25344},
+																									pos: position{line: 790, col: 5, offset: 25349},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 790, col: 5, offset: 25344},
+																											pos:   position{line: 790, col: 5, offset: 25349},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 790, col: 16, offset: 25355},
+																												pos: position{line: 790, col: 16, offset: 25360},
 																												run: (*parser).callonListContinuationElement1034,
 																												expr: &seqExpr{
-																													pos: position{line: 790, col: 16, offset: 25355},
+																													pos: position{line: 790, col: 16, offset: 25360},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 790, col: 16, offset: 25355},
+																															pos:        position{line: 790, col: 16, offset: 25360},
 																															val:        "++++",
 																															ignoreCase: false,
 																															want:       "\"++++\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 790, col: 23, offset: 25362},
+																															pos: position{line: 790, col: 23, offset: 25367},
 																															expr: &litMatcher{
-																																pos:        position{line: 790, col: 23, offset: 25362},
+																																pos:        position{line: 790, col: 23, offset: 25367},
 																																val:        "+",
 																																ignoreCase: false,
 																																want:       "\"+\"",
@@ -33900,7 +33914,7 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 792, col: 8, offset: 25446},
+																											pos: position{line: 792, col: 8, offset: 25451},
 																											expr: &actionExpr{
 																												pos: position{line: 2852, col: 10, offset: 90239},
 																												run: (*parser).callonListContinuationElement1040,
@@ -33956,7 +33970,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1030, col: 5, offset: 31878},
+																							pos: position{line: 1030, col: 5, offset: 31883},
 																							run: (*parser).callonListContinuationElement1050,
 																						},
 																					},
@@ -33971,13 +33985,13 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1037, col: 5, offset: 32044},
+																		pos:   position{line: 1037, col: 5, offset: 32049},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26088},
+																			pos: position{line: 811, col: 5, offset: 26093},
 																			run: (*parser).callonListContinuationElement1054,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26093},
 																				exprs: []interface{}{
 																					&andExpr{
 																						pos: position{line: 2869, col: 11, offset: 90573},
@@ -33986,7 +34000,7 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26163},
+																						pos:   position{line: 812, col: 5, offset: 26168},
 																						label: "content",
 																						expr: &actionExpr{
 																							pos: position{line: 2798, col: 13, offset: 88765},
@@ -34051,44 +34065,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1022, col: 5, offset: 31617},
+													pos:   position{line: 1022, col: 5, offset: 31622},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1022, col: 9, offset: 31621},
+														pos: position{line: 1022, col: 9, offset: 31626},
 														expr: &choiceExpr{
-															pos: position{line: 1029, col: 5, offset: 31843},
+															pos: position{line: 1029, col: 5, offset: 31848},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1029, col: 5, offset: 31843},
+																	pos: position{line: 1029, col: 5, offset: 31848},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1029, col: 5, offset: 31843},
+																			pos:   position{line: 1029, col: 5, offset: 31848},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 790, col: 5, offset: 25344},
+																				pos: position{line: 790, col: 5, offset: 25349},
 																				run: (*parser).callonListContinuationElement1075,
 																				expr: &seqExpr{
-																					pos: position{line: 790, col: 5, offset: 25344},
+																					pos: position{line: 790, col: 5, offset: 25349},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 790, col: 5, offset: 25344},
+																							pos:   position{line: 790, col: 5, offset: 25349},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 790, col: 16, offset: 25355},
+																								pos: position{line: 790, col: 16, offset: 25360},
 																								run: (*parser).callonListContinuationElement1078,
 																								expr: &seqExpr{
-																									pos: position{line: 790, col: 16, offset: 25355},
+																									pos: position{line: 790, col: 16, offset: 25360},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 790, col: 16, offset: 25355},
+																											pos:        position{line: 790, col: 16, offset: 25360},
 																											val:        "++++",
 																											ignoreCase: false,
 																											want:       "\"++++\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 790, col: 23, offset: 25362},
+																											pos: position{line: 790, col: 23, offset: 25367},
 																											expr: &litMatcher{
-																												pos:        position{line: 790, col: 23, offset: 25362},
+																												pos:        position{line: 790, col: 23, offset: 25367},
 																												val:        "+",
 																												ignoreCase: false,
 																												want:       "\"+\"",
@@ -34099,7 +34113,7 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 792, col: 8, offset: 25446},
+																							pos: position{line: 792, col: 8, offset: 25451},
 																							expr: &actionExpr{
 																								pos: position{line: 2852, col: 10, offset: 90239},
 																								run: (*parser).callonListContinuationElement1084,
@@ -34155,7 +34169,7 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1030, col: 5, offset: 31878},
+																			pos: position{line: 1030, col: 5, offset: 31883},
 																			run: (*parser).callonListContinuationElement1094,
 																		},
 																	},
@@ -34174,39 +34188,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1045, col: 5, offset: 32195},
+										pos: position{line: 1045, col: 5, offset: 32200},
 										run: (*parser).callonListContinuationElement1097,
 										expr: &seqExpr{
-											pos: position{line: 1045, col: 5, offset: 32195},
+											pos: position{line: 1045, col: 5, offset: 32200},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1045, col: 5, offset: 32195},
+													pos:   position{line: 1045, col: 5, offset: 32200},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 797, col: 5, offset: 25594},
+														pos: position{line: 797, col: 5, offset: 25599},
 														run: (*parser).callonListContinuationElement1100,
 														expr: &seqExpr{
-															pos: position{line: 797, col: 5, offset: 25594},
+															pos: position{line: 797, col: 5, offset: 25599},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 797, col: 5, offset: 25594},
+																	pos:   position{line: 797, col: 5, offset: 25599},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 797, col: 16, offset: 25605},
+																		pos: position{line: 797, col: 16, offset: 25610},
 																		run: (*parser).callonListContinuationElement1103,
 																		expr: &seqExpr{
-																			pos: position{line: 797, col: 16, offset: 25605},
+																			pos: position{line: 797, col: 16, offset: 25610},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 797, col: 16, offset: 25605},
+																					pos:        position{line: 797, col: 16, offset: 25610},
 																					val:        "____",
 																					ignoreCase: false,
 																					want:       "\"____\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 797, col: 23, offset: 25612},
+																					pos: position{line: 797, col: 23, offset: 25617},
 																					expr: &litMatcher{
-																						pos:        position{line: 797, col: 23, offset: 25612},
+																						pos:        position{line: 797, col: 23, offset: 25617},
 																						val:        "_",
 																						ignoreCase: false,
 																						want:       "\"_\"",
@@ -34217,7 +34231,7 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 799, col: 8, offset: 25696},
+																	pos: position{line: 799, col: 8, offset: 25701},
 																	expr: &actionExpr{
 																		pos: position{line: 2852, col: 10, offset: 90239},
 																		run: (*parser).callonListContinuationElement1109,
@@ -34273,56 +34287,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1046, col: 5, offset: 32232},
+													pos: position{line: 1046, col: 5, offset: 32237},
 													run: (*parser).callonListContinuationElement1119,
 												},
 												&labeledExpr{
-													pos:   position{line: 1049, col: 5, offset: 32324},
+													pos:   position{line: 1049, col: 5, offset: 32329},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1064, col: 4, offset: 32705},
+														pos: position{line: 1064, col: 4, offset: 32710},
 														expr: &actionExpr{
-															pos: position{line: 1064, col: 5, offset: 32706},
+															pos: position{line: 1064, col: 5, offset: 32711},
 															run: (*parser).callonListContinuationElement1122,
 															expr: &seqExpr{
-																pos: position{line: 1064, col: 5, offset: 32706},
+																pos: position{line: 1064, col: 5, offset: 32711},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1064, col: 5, offset: 32706},
+																		pos: position{line: 1064, col: 5, offset: 32711},
 																		expr: &choiceExpr{
-																			pos: position{line: 1057, col: 5, offset: 32552},
+																			pos: position{line: 1057, col: 5, offset: 32557},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1057, col: 5, offset: 32552},
+																					pos: position{line: 1057, col: 5, offset: 32557},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1057, col: 5, offset: 32552},
+																							pos:   position{line: 1057, col: 5, offset: 32557},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 797, col: 5, offset: 25594},
+																								pos: position{line: 797, col: 5, offset: 25599},
 																								run: (*parser).callonListContinuationElement1128,
 																								expr: &seqExpr{
-																									pos: position{line: 797, col: 5, offset: 25594},
+																									pos: position{line: 797, col: 5, offset: 25599},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 797, col: 5, offset: 25594},
+																											pos:   position{line: 797, col: 5, offset: 25599},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 797, col: 16, offset: 25605},
+																												pos: position{line: 797, col: 16, offset: 25610},
 																												run: (*parser).callonListContinuationElement1131,
 																												expr: &seqExpr{
-																													pos: position{line: 797, col: 16, offset: 25605},
+																													pos: position{line: 797, col: 16, offset: 25610},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 797, col: 16, offset: 25605},
+																															pos:        position{line: 797, col: 16, offset: 25610},
 																															val:        "____",
 																															ignoreCase: false,
 																															want:       "\"____\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 797, col: 23, offset: 25612},
+																															pos: position{line: 797, col: 23, offset: 25617},
 																															expr: &litMatcher{
-																																pos:        position{line: 797, col: 23, offset: 25612},
+																																pos:        position{line: 797, col: 23, offset: 25617},
 																																val:        "_",
 																																ignoreCase: false,
 																																want:       "\"_\"",
@@ -34333,7 +34347,7 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 799, col: 8, offset: 25696},
+																											pos: position{line: 799, col: 8, offset: 25701},
 																											expr: &actionExpr{
 																												pos: position{line: 2852, col: 10, offset: 90239},
 																												run: (*parser).callonListContinuationElement1137,
@@ -34389,7 +34403,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1058, col: 5, offset: 32581},
+																							pos: position{line: 1058, col: 5, offset: 32586},
 																							run: (*parser).callonListContinuationElement1147,
 																						},
 																					},
@@ -34404,13 +34418,13 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1065, col: 5, offset: 32734},
+																		pos:   position{line: 1065, col: 5, offset: 32739},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26088},
+																			pos: position{line: 811, col: 5, offset: 26093},
 																			run: (*parser).callonListContinuationElement1151,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26093},
 																				exprs: []interface{}{
 																					&andExpr{
 																						pos: position{line: 2869, col: 11, offset: 90573},
@@ -34419,7 +34433,7 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26163},
+																						pos:   position{line: 812, col: 5, offset: 26168},
 																						label: "content",
 																						expr: &actionExpr{
 																							pos: position{line: 2798, col: 13, offset: 88765},
@@ -34484,44 +34498,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1050, col: 5, offset: 32356},
+													pos:   position{line: 1050, col: 5, offset: 32361},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1050, col: 9, offset: 32360},
+														pos: position{line: 1050, col: 9, offset: 32365},
 														expr: &choiceExpr{
-															pos: position{line: 1057, col: 5, offset: 32552},
+															pos: position{line: 1057, col: 5, offset: 32557},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1057, col: 5, offset: 32552},
+																	pos: position{line: 1057, col: 5, offset: 32557},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1057, col: 5, offset: 32552},
+																			pos:   position{line: 1057, col: 5, offset: 32557},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 797, col: 5, offset: 25594},
+																				pos: position{line: 797, col: 5, offset: 25599},
 																				run: (*parser).callonListContinuationElement1172,
 																				expr: &seqExpr{
-																					pos: position{line: 797, col: 5, offset: 25594},
+																					pos: position{line: 797, col: 5, offset: 25599},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 797, col: 5, offset: 25594},
+																							pos:   position{line: 797, col: 5, offset: 25599},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 797, col: 16, offset: 25605},
+																								pos: position{line: 797, col: 16, offset: 25610},
 																								run: (*parser).callonListContinuationElement1175,
 																								expr: &seqExpr{
-																									pos: position{line: 797, col: 16, offset: 25605},
+																									pos: position{line: 797, col: 16, offset: 25610},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 797, col: 16, offset: 25605},
+																											pos:        position{line: 797, col: 16, offset: 25610},
 																											val:        "____",
 																											ignoreCase: false,
 																											want:       "\"____\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 797, col: 23, offset: 25612},
+																											pos: position{line: 797, col: 23, offset: 25617},
 																											expr: &litMatcher{
-																												pos:        position{line: 797, col: 23, offset: 25612},
+																												pos:        position{line: 797, col: 23, offset: 25617},
 																												val:        "_",
 																												ignoreCase: false,
 																												want:       "\"_\"",
@@ -34532,7 +34546,7 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 799, col: 8, offset: 25696},
+																							pos: position{line: 799, col: 8, offset: 25701},
 																							expr: &actionExpr{
 																								pos: position{line: 2852, col: 10, offset: 90239},
 																								run: (*parser).callonListContinuationElement1181,
@@ -34588,7 +34602,7 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1058, col: 5, offset: 32581},
+																			pos: position{line: 1058, col: 5, offset: 32586},
 																			run: (*parser).callonListContinuationElement1191,
 																		},
 																	},
@@ -34607,39 +34621,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1073, col: 5, offset: 32889},
+										pos: position{line: 1073, col: 5, offset: 32894},
 										run: (*parser).callonListContinuationElement1194,
 										expr: &seqExpr{
-											pos: position{line: 1073, col: 5, offset: 32889},
+											pos: position{line: 1073, col: 5, offset: 32894},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1073, col: 5, offset: 32889},
+													pos:   position{line: 1073, col: 5, offset: 32894},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 804, col: 5, offset: 25840},
+														pos: position{line: 804, col: 5, offset: 25845},
 														run: (*parser).callonListContinuationElement1197,
 														expr: &seqExpr{
-															pos: position{line: 804, col: 5, offset: 25840},
+															pos: position{line: 804, col: 5, offset: 25845},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 804, col: 5, offset: 25840},
+																	pos:   position{line: 804, col: 5, offset: 25845},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 804, col: 16, offset: 25851},
+																		pos: position{line: 804, col: 16, offset: 25856},
 																		run: (*parser).callonListContinuationElement1200,
 																		expr: &seqExpr{
-																			pos: position{line: 804, col: 16, offset: 25851},
+																			pos: position{line: 804, col: 16, offset: 25856},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 804, col: 16, offset: 25851},
+																					pos:        position{line: 804, col: 16, offset: 25856},
 																					val:        "****",
 																					ignoreCase: false,
 																					want:       "\"****\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 804, col: 23, offset: 25858},
+																					pos: position{line: 804, col: 23, offset: 25863},
 																					expr: &litMatcher{
-																						pos:        position{line: 804, col: 23, offset: 25858},
+																						pos:        position{line: 804, col: 23, offset: 25863},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -34650,7 +34664,7 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 806, col: 8, offset: 25942},
+																	pos: position{line: 806, col: 8, offset: 25947},
 																	expr: &actionExpr{
 																		pos: position{line: 2852, col: 10, offset: 90239},
 																		run: (*parser).callonListContinuationElement1206,
@@ -34706,56 +34720,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1074, col: 5, offset: 32928},
+													pos: position{line: 1074, col: 5, offset: 32933},
 													run: (*parser).callonListContinuationElement1216,
 												},
 												&labeledExpr{
-													pos:   position{line: 1077, col: 5, offset: 33020},
+													pos:   position{line: 1077, col: 5, offset: 33025},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1092, col: 4, offset: 33417},
+														pos: position{line: 1092, col: 4, offset: 33422},
 														expr: &actionExpr{
-															pos: position{line: 1092, col: 5, offset: 33418},
+															pos: position{line: 1092, col: 5, offset: 33423},
 															run: (*parser).callonListContinuationElement1219,
 															expr: &seqExpr{
-																pos: position{line: 1092, col: 5, offset: 33418},
+																pos: position{line: 1092, col: 5, offset: 33423},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1092, col: 5, offset: 33418},
+																		pos: position{line: 1092, col: 5, offset: 33423},
 																		expr: &choiceExpr{
-																			pos: position{line: 1085, col: 5, offset: 33260},
+																			pos: position{line: 1085, col: 5, offset: 33265},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1085, col: 5, offset: 33260},
+																					pos: position{line: 1085, col: 5, offset: 33265},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1085, col: 5, offset: 33260},
+																							pos:   position{line: 1085, col: 5, offset: 33265},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 804, col: 5, offset: 25840},
+																								pos: position{line: 804, col: 5, offset: 25845},
 																								run: (*parser).callonListContinuationElement1225,
 																								expr: &seqExpr{
-																									pos: position{line: 804, col: 5, offset: 25840},
+																									pos: position{line: 804, col: 5, offset: 25845},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 804, col: 5, offset: 25840},
+																											pos:   position{line: 804, col: 5, offset: 25845},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 804, col: 16, offset: 25851},
+																												pos: position{line: 804, col: 16, offset: 25856},
 																												run: (*parser).callonListContinuationElement1228,
 																												expr: &seqExpr{
-																													pos: position{line: 804, col: 16, offset: 25851},
+																													pos: position{line: 804, col: 16, offset: 25856},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 804, col: 16, offset: 25851},
+																															pos:        position{line: 804, col: 16, offset: 25856},
 																															val:        "****",
 																															ignoreCase: false,
 																															want:       "\"****\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 804, col: 23, offset: 25858},
+																															pos: position{line: 804, col: 23, offset: 25863},
 																															expr: &litMatcher{
-																																pos:        position{line: 804, col: 23, offset: 25858},
+																																pos:        position{line: 804, col: 23, offset: 25863},
 																																val:        "*",
 																																ignoreCase: false,
 																																want:       "\"*\"",
@@ -34766,7 +34780,7 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 806, col: 8, offset: 25942},
+																											pos: position{line: 806, col: 8, offset: 25947},
 																											expr: &actionExpr{
 																												pos: position{line: 2852, col: 10, offset: 90239},
 																												run: (*parser).callonListContinuationElement1234,
@@ -34822,7 +34836,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1086, col: 5, offset: 33291},
+																							pos: position{line: 1086, col: 5, offset: 33296},
 																							run: (*parser).callonListContinuationElement1244,
 																						},
 																					},
@@ -34837,13 +34851,13 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1093, col: 5, offset: 33448},
+																		pos:   position{line: 1093, col: 5, offset: 33453},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26088},
+																			pos: position{line: 811, col: 5, offset: 26093},
 																			run: (*parser).callonListContinuationElement1248,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 811, col: 5, offset: 26093},
 																				exprs: []interface{}{
 																					&andExpr{
 																						pos: position{line: 2869, col: 11, offset: 90573},
@@ -34852,7 +34866,7 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26163},
+																						pos:   position{line: 812, col: 5, offset: 26168},
 																						label: "content",
 																						expr: &actionExpr{
 																							pos: position{line: 2798, col: 13, offset: 88765},
@@ -34917,44 +34931,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1078, col: 5, offset: 33054},
+													pos:   position{line: 1078, col: 5, offset: 33059},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1078, col: 9, offset: 33058},
+														pos: position{line: 1078, col: 9, offset: 33063},
 														expr: &choiceExpr{
-															pos: position{line: 1085, col: 5, offset: 33260},
+															pos: position{line: 1085, col: 5, offset: 33265},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1085, col: 5, offset: 33260},
+																	pos: position{line: 1085, col: 5, offset: 33265},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1085, col: 5, offset: 33260},
+																			pos:   position{line: 1085, col: 5, offset: 33265},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 804, col: 5, offset: 25840},
+																				pos: position{line: 804, col: 5, offset: 25845},
 																				run: (*parser).callonListContinuationElement1269,
 																				expr: &seqExpr{
-																					pos: position{line: 804, col: 5, offset: 25840},
+																					pos: position{line: 804, col: 5, offset: 25845},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 804, col: 5, offset: 25840},
+																							pos:   position{line: 804, col: 5, offset: 25845},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 804, col: 16, offset: 25851},
+																								pos: position{line: 804, col: 16, offset: 25856},
 																								run: (*parser).callonListContinuationElement1272,
 																								expr: &seqExpr{
-																									pos: position{line: 804, col: 16, offset: 25851},
+																									pos: position{line: 804, col: 16, offset: 25856},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 804, col: 16, offset: 25851},
+																											pos:        position{line: 804, col: 16, offset: 25856},
 																											val:        "****",
 																											ignoreCase: false,
 																											want:       "\"****\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 804, col: 23, offset: 25858},
+																											pos: position{line: 804, col: 23, offset: 25863},
 																											expr: &litMatcher{
-																												pos:        position{line: 804, col: 23, offset: 25858},
+																												pos:        position{line: 804, col: 23, offset: 25863},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -34965,7 +34979,7 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 806, col: 8, offset: 25942},
+																							pos: position{line: 806, col: 8, offset: 25947},
 																							expr: &actionExpr{
 																								pos: position{line: 2852, col: 10, offset: 90239},
 																								run: (*parser).callonListContinuationElement1278,
@@ -35021,7 +35035,7 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1086, col: 5, offset: 33291},
+																			pos: position{line: 1086, col: 5, offset: 33296},
 																			run: (*parser).callonListContinuationElement1288,
 																		},
 																	},
@@ -35040,52 +35054,52 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2697, col: 18, offset: 85829},
+										pos: position{line: 2697, col: 18, offset: 85834},
 										run: (*parser).callonListContinuationElement1291,
 										expr: &seqExpr{
-											pos: position{line: 2697, col: 18, offset: 85829},
+											pos: position{line: 2697, col: 18, offset: 85834},
 											exprs: []interface{}{
 												&choiceExpr{
-													pos: position{line: 2698, col: 9, offset: 85839},
+													pos: position{line: 2698, col: 9, offset: 85844},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2698, col: 9, offset: 85839},
+															pos:        position{line: 2698, col: 9, offset: 85844},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2699, col: 11, offset: 85875},
+															pos:        position{line: 2699, col: 11, offset: 85880},
 															val:        "***",
 															ignoreCase: false,
 															want:       "\"***\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2699, col: 19, offset: 85883},
+															pos:        position{line: 2699, col: 19, offset: 85888},
 															val:        "* * *",
 															ignoreCase: false,
 															want:       "\"* * *\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2699, col: 29, offset: 85893},
+															pos:        position{line: 2699, col: 29, offset: 85898},
 															val:        "---",
 															ignoreCase: false,
 															want:       "\"---\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2699, col: 37, offset: 85901},
+															pos:        position{line: 2699, col: 37, offset: 85906},
 															val:        "- - -",
 															ignoreCase: false,
 															want:       "\"- - -\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2699, col: 47, offset: 85911},
+															pos:        position{line: 2699, col: 47, offset: 85916},
 															val:        "___",
 															ignoreCase: false,
 															want:       "\"___\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2699, col: 55, offset: 85919},
+															pos:        position{line: 2699, col: 55, offset: 85924},
 															val:        "_ _ _",
 															ignoreCase: false,
 															want:       "\"_ _ _\"",
@@ -35093,7 +35107,7 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2700, col: 11, offset: 85977},
+													pos: position{line: 2700, col: 11, offset: 85970},
 													expr: &actionExpr{
 														pos: position{line: 2852, col: 10, offset: 90239},
 														run: (*parser).callonListContinuationElement1302,
@@ -35144,12 +35158,26 @@ var g = &grammar{
 														},
 													},
 												},
+												&zeroOrMoreExpr{
+													pos: position{line: 2700, col: 22, offset: 85981},
+													expr: &actionExpr{
+														pos: position{line: 2852, col: 10, offset: 90239},
+														run: (*parser).callonListContinuationElement1313,
+														expr: &charClassMatcher{
+															pos:        position{line: 2852, col: 10, offset: 90239},
+															val:        "[\\t ]",
+															chars:      []rune{'\t', ' '},
+															ignoreCase: false,
+															inverted:   false,
+														},
+													},
+												},
 												&choiceExpr{
 													pos: position{line: 2874, col: 8, offset: 90637},
 													alternatives: []interface{}{
 														&actionExpr{
 															pos: position{line: 2861, col: 12, offset: 90410},
-															run: (*parser).callonListContinuationElement1313,
+															run: (*parser).callonListContinuationElement1316,
 															expr: &choiceExpr{
 																pos: position{line: 2861, col: 13, offset: 90411},
 																alternatives: []interface{}{
@@ -35186,26 +35214,26 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1548, col: 11, offset: 49986},
+										pos:  position{line: 1548, col: 11, offset: 49991},
 										name: "ImageBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2588, col: 5, offset: 82765},
-										run: (*parser).callonListContinuationElement1321,
+										pos: position{line: 2588, col: 5, offset: 82770},
+										run: (*parser).callonListContinuationElement1324,
 										expr: &seqExpr{
-											pos: position{line: 2588, col: 5, offset: 82765},
+											pos: position{line: 2588, col: 5, offset: 82770},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2594, col: 19, offset: 82922},
+													pos:        position{line: 2594, col: 19, offset: 82927},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2594, col: 26, offset: 82929},
+													pos: position{line: 2594, col: 26, offset: 82934},
 													expr: &actionExpr{
 														pos: position{line: 2852, col: 10, offset: 90239},
-														run: (*parser).callonListContinuationElement1325,
+														run: (*parser).callonListContinuationElement1328,
 														expr: &charClassMatcher{
 															pos:        position{line: 2852, col: 10, offset: 90239},
 															val:        "[\\t ]",
@@ -35220,7 +35248,7 @@ var g = &grammar{
 													alternatives: []interface{}{
 														&actionExpr{
 															pos: position{line: 2861, col: 12, offset: 90410},
-															run: (*parser).callonListContinuationElement1328,
+															run: (*parser).callonListContinuationElement1331,
 															expr: &choiceExpr{
 																pos: position{line: 2861, col: 13, offset: 90411},
 																alternatives: []interface{}{
@@ -35254,16 +35282,16 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2589, col: 5, offset: 82789},
+													pos:   position{line: 2589, col: 5, offset: 82794},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2589, col: 11, offset: 82795},
+														pos: position{line: 2589, col: 11, offset: 82800},
 														expr: &choiceExpr{
-															pos: position{line: 2589, col: 12, offset: 82796},
+															pos: position{line: 2589, col: 12, offset: 82801},
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 677, col: 14, offset: 21489},
-																	run: (*parser).callonListContinuationElement1338,
+																	run: (*parser).callonListContinuationElement1341,
 																	expr: &seqExpr{
 																		pos: position{line: 677, col: 14, offset: 21489},
 																		exprs: []interface{}{
@@ -35277,7 +35305,7 @@ var g = &grammar{
 																				pos: position{line: 677, col: 21, offset: 21496},
 																				expr: &actionExpr{
 																					pos: position{line: 2852, col: 10, offset: 90239},
-																					run: (*parser).callonListContinuationElement1343,
+																					run: (*parser).callonListContinuationElement1346,
 																					expr: &charClassMatcher{
 																						pos:        position{line: 2852, col: 10, offset: 90239},
 																						val:        "[\\t ]",
@@ -35292,7 +35320,7 @@ var g = &grammar{
 																				alternatives: []interface{}{
 																					&actionExpr{
 																						pos: position{line: 2861, col: 12, offset: 90410},
-																						run: (*parser).callonListContinuationElement1346,
+																						run: (*parser).callonListContinuationElement1349,
 																						expr: &choiceExpr{
 																							pos: position{line: 2861, col: 13, offset: 90411},
 																							alternatives: []interface{}{
@@ -35329,30 +35357,30 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2601, col: 5, offset: 83041},
-																	run: (*parser).callonListContinuationElement1353,
+																	pos: position{line: 2601, col: 5, offset: 83046},
+																	run: (*parser).callonListContinuationElement1356,
 																	expr: &seqExpr{
-																		pos: position{line: 2601, col: 5, offset: 83041},
+																		pos: position{line: 2601, col: 5, offset: 83046},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2601, col: 5, offset: 83041},
+																				pos: position{line: 2601, col: 5, offset: 83046},
 																				expr: &choiceExpr{
-																					pos: position{line: 2598, col: 22, offset: 83002},
+																					pos: position{line: 2598, col: 22, offset: 83007},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2594, col: 19, offset: 82922},
+																							pos: position{line: 2594, col: 19, offset: 82927},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2594, col: 19, offset: 82922},
+																									pos:        position{line: 2594, col: 19, offset: 82927},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2594, col: 26, offset: 82929},
+																									pos: position{line: 2594, col: 26, offset: 82934},
 																									expr: &actionExpr{
 																										pos: position{line: 2852, col: 10, offset: 90239},
-																										run: (*parser).callonListContinuationElement1360,
+																										run: (*parser).callonListContinuationElement1363,
 																										expr: &charClassMatcher{
 																											pos:        position{line: 2852, col: 10, offset: 90239},
 																											val:        "[\\t ]",
@@ -35367,7 +35395,7 @@ var g = &grammar{
 																									alternatives: []interface{}{
 																										&actionExpr{
 																											pos: position{line: 2861, col: 12, offset: 90410},
-																											run: (*parser).callonListContinuationElement1363,
+																											run: (*parser).callonListContinuationElement1366,
 																											expr: &choiceExpr{
 																												pos: position{line: 2861, col: 13, offset: 90411},
 																												alternatives: []interface{}{
@@ -35412,48 +35440,48 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2602, col: 5, offset: 83064},
+																				pos:   position{line: 2602, col: 5, offset: 83069},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2603, col: 9, offset: 83082},
+																					pos: position{line: 2603, col: 9, offset: 83087},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2603, col: 10, offset: 83083},
-																							run: (*parser).callonListContinuationElement1374,
+																							pos: position{line: 2603, col: 10, offset: 83088},
+																							run: (*parser).callonListContinuationElement1377,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2603, col: 10, offset: 83083},
+																								pos:   position{line: 2603, col: 10, offset: 83088},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2603, col: 17, offset: 83090},
+																									pos: position{line: 2603, col: 17, offset: 83095},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2611, col: 21, offset: 83286},
-																											run: (*parser).callonListContinuationElement1377,
+																											pos: position{line: 2611, col: 21, offset: 83291},
+																											run: (*parser).callonListContinuationElement1380,
 																											expr: &seqExpr{
-																												pos: position{line: 2611, col: 21, offset: 83286},
+																												pos: position{line: 2611, col: 21, offset: 83291},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2611, col: 21, offset: 83286},
+																														pos:   position{line: 2611, col: 21, offset: 83291},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2611, col: 27, offset: 83292},
+																															pos: position{line: 2611, col: 27, offset: 83297},
 																															expr: &actionExpr{
-																																pos: position{line: 2616, col: 5, offset: 83367},
-																																run: (*parser).callonListContinuationElement1381,
+																																pos: position{line: 2616, col: 5, offset: 83372},
+																																run: (*parser).callonListContinuationElement1384,
 																																expr: &seqExpr{
-																																	pos: position{line: 2616, col: 5, offset: 83367},
+																																	pos: position{line: 2616, col: 5, offset: 83372},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2616, col: 5, offset: 83367},
+																																			pos:        position{line: 2616, col: 5, offset: 83372},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2616, col: 9, offset: 83371},
+																																			pos: position{line: 2616, col: 9, offset: 83376},
 																																			expr: &actionExpr{
 																																				pos: position{line: 2852, col: 10, offset: 90239},
-																																				run: (*parser).callonListContinuationElement1385,
+																																				run: (*parser).callonListContinuationElement1388,
 																																				expr: &charClassMatcher{
 																																					pos:        position{line: 2852, col: 10, offset: 90239},
 																																					val:        "[\\t ]",
@@ -35464,21 +35492,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2616, col: 16, offset: 83378},
+																																			pos:   position{line: 2616, col: 16, offset: 83383},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2622, col: 5, offset: 83578},
-																																				run: (*parser).callonListContinuationElement1388,
+																																				pos: position{line: 2622, col: 5, offset: 83583},
+																																				run: (*parser).callonListContinuationElement1391,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2622, col: 5, offset: 83578},
+																																					pos:   position{line: 2622, col: 5, offset: 83583},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2622, col: 14, offset: 83587},
-																																						run: (*parser).callonListContinuationElement1390,
+																																						pos: position{line: 2622, col: 14, offset: 83592},
+																																						run: (*parser).callonListContinuationElement1393,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2622, col: 14, offset: 83587},
+																																							pos: position{line: 2622, col: 14, offset: 83592},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2622, col: 14, offset: 83587},
+																																								pos:        position{line: 2622, col: 14, offset: 83592},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -35499,7 +35527,7 @@ var g = &grammar{
 																														alternatives: []interface{}{
 																															&actionExpr{
 																																pos: position{line: 2861, col: 12, offset: 90410},
-																																run: (*parser).callonListContinuationElement1394,
+																																run: (*parser).callonListContinuationElement1397,
 																																expr: &choiceExpr{
 																																	pos: position{line: 2861, col: 13, offset: 90411},
 																																	alternatives: []interface{}{
@@ -35536,38 +35564,38 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2628, col: 24, offset: 83723},
-																											run: (*parser).callonListContinuationElement1401,
+																											pos: position{line: 2628, col: 24, offset: 83728},
+																											run: (*parser).callonListContinuationElement1404,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2628, col: 24, offset: 83723},
+																												pos:   position{line: 2628, col: 24, offset: 83728},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2628, col: 30, offset: 83729},
+																													pos: position{line: 2628, col: 30, offset: 83734},
 																													expr: &actionExpr{
-																														pos: position{line: 2633, col: 5, offset: 83805},
-																														run: (*parser).callonListContinuationElement1404,
+																														pos: position{line: 2633, col: 5, offset: 83810},
+																														run: (*parser).callonListContinuationElement1407,
 																														expr: &seqExpr{
-																															pos: position{line: 2633, col: 5, offset: 83805},
+																															pos: position{line: 2633, col: 5, offset: 83810},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2633, col: 5, offset: 83805},
+																																	pos: position{line: 2633, col: 5, offset: 83810},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2598, col: 22, offset: 83002},
+																																		pos: position{line: 2598, col: 22, offset: 83007},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2594, col: 19, offset: 82922},
+																																				pos: position{line: 2594, col: 19, offset: 82927},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2594, col: 19, offset: 82922},
+																																						pos:        position{line: 2594, col: 19, offset: 82927},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2594, col: 26, offset: 82929},
+																																						pos: position{line: 2594, col: 26, offset: 82934},
 																																						expr: &actionExpr{
 																																							pos: position{line: 2852, col: 10, offset: 90239},
-																																							run: (*parser).callonListContinuationElement1411,
+																																							run: (*parser).callonListContinuationElement1414,
 																																							expr: &charClassMatcher{
 																																								pos:        position{line: 2852, col: 10, offset: 90239},
 																																								val:        "[\\t ]",
@@ -35582,7 +35610,7 @@ var g = &grammar{
 																																						alternatives: []interface{}{
 																																							&actionExpr{
 																																								pos: position{line: 2861, col: 12, offset: 90410},
-																																								run: (*parser).callonListContinuationElement1414,
+																																								run: (*parser).callonListContinuationElement1417,
 																																								expr: &choiceExpr{
 																																									pos: position{line: 2861, col: 13, offset: 90411},
 																																									alternatives: []interface{}{
@@ -35627,10 +35655,10 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2634, col: 5, offset: 83828},
+																																	pos: position{line: 2634, col: 5, offset: 83833},
 																																	expr: &actionExpr{
 																																		pos: position{line: 677, col: 14, offset: 21489},
-																																		run: (*parser).callonListContinuationElement1424,
+																																		run: (*parser).callonListContinuationElement1427,
 																																		expr: &seqExpr{
 																																			pos: position{line: 677, col: 14, offset: 21489},
 																																			exprs: []interface{}{
@@ -35644,7 +35672,7 @@ var g = &grammar{
 																																					pos: position{line: 677, col: 21, offset: 21496},
 																																					expr: &actionExpr{
 																																						pos: position{line: 2852, col: 10, offset: 90239},
-																																						run: (*parser).callonListContinuationElement1429,
+																																						run: (*parser).callonListContinuationElement1432,
 																																						expr: &charClassMatcher{
 																																							pos:        position{line: 2852, col: 10, offset: 90239},
 																																							val:        "[\\t ]",
@@ -35659,7 +35687,7 @@ var g = &grammar{
 																																					alternatives: []interface{}{
 																																						&actionExpr{
 																																							pos: position{line: 2861, col: 12, offset: 90410},
-																																							run: (*parser).callonListContinuationElement1432,
+																																							run: (*parser).callonListContinuationElement1435,
 																																							expr: &choiceExpr{
 																																								pos: position{line: 2861, col: 13, offset: 90411},
 																																								alternatives: []interface{}{
@@ -35697,17 +35725,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2635, col: 5, offset: 83843},
+																																	pos:   position{line: 2635, col: 5, offset: 83848},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2635, col: 12, offset: 83850},
+																																		pos: position{line: 2635, col: 12, offset: 83855},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2652, col: 20, offset: 84314},
-																																			run: (*parser).callonListContinuationElement1441,
+																																			pos: position{line: 2652, col: 20, offset: 84319},
+																																			run: (*parser).callonListContinuationElement1444,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2652, col: 20, offset: 84314},
+																																				pos: position{line: 2652, col: 20, offset: 84319},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2652, col: 20, offset: 84314},
+																																					pos:        position{line: 2652, col: 20, offset: 84319},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -35718,16 +35746,16 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2635, col: 31, offset: 83869},
+																																	pos:        position{line: 2635, col: 31, offset: 83874},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2635, col: 35, offset: 83873},
+																																	pos: position{line: 2635, col: 35, offset: 83878},
 																																	expr: &actionExpr{
 																																		pos: position{line: 2852, col: 10, offset: 90239},
-																																		run: (*parser).callonListContinuationElement1446,
+																																		run: (*parser).callonListContinuationElement1449,
 																																		expr: &charClassMatcher{
 																																			pos:        position{line: 2852, col: 10, offset: 90239},
 																																			val:        "[\\t ]",
@@ -35738,10 +35766,10 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2635, col: 42, offset: 83880},
+																																	pos: position{line: 2635, col: 42, offset: 83885},
 																																	expr: &actionExpr{
 																																		pos: position{line: 2861, col: 12, offset: 90410},
-																																		run: (*parser).callonListContinuationElement1449,
+																																		run: (*parser).callonListContinuationElement1452,
 																																		expr: &choiceExpr{
 																																			pos: position{line: 2861, col: 13, offset: 90411},
 																																			alternatives: []interface{}{
@@ -35768,35 +35796,35 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2635, col: 51, offset: 83889},
+																																	pos:   position{line: 2635, col: 51, offset: 83894},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2641, col: 5, offset: 84048},
+																																		pos: position{line: 2641, col: 5, offset: 84053},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2642, col: 9, offset: 84058},
-																																			run: (*parser).callonListContinuationElement1456,
+																																			pos: position{line: 2642, col: 9, offset: 84063},
+																																			run: (*parser).callonListContinuationElement1459,
 																																			expr: &seqExpr{
-																																				pos: position{line: 2642, col: 9, offset: 84058},
+																																				pos: position{line: 2642, col: 9, offset: 84063},
 																																				exprs: []interface{}{
 																																					&notExpr{
-																																						pos: position{line: 2642, col: 9, offset: 84058},
+																																						pos: position{line: 2642, col: 9, offset: 84063},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2598, col: 22, offset: 83002},
+																																							pos: position{line: 2598, col: 22, offset: 83007},
 																																							alternatives: []interface{}{
 																																								&seqExpr{
-																																									pos: position{line: 2594, col: 19, offset: 82922},
+																																									pos: position{line: 2594, col: 19, offset: 82927},
 																																									exprs: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2594, col: 19, offset: 82922},
+																																											pos:        position{line: 2594, col: 19, offset: 82927},
 																																											val:        "|===",
 																																											ignoreCase: false,
 																																											want:       "\"|===\"",
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 2594, col: 26, offset: 82929},
+																																											pos: position{line: 2594, col: 26, offset: 82934},
 																																											expr: &actionExpr{
 																																												pos: position{line: 2852, col: 10, offset: 90239},
-																																												run: (*parser).callonListContinuationElement1463,
+																																												run: (*parser).callonListContinuationElement1466,
 																																												expr: &charClassMatcher{
 																																													pos:        position{line: 2852, col: 10, offset: 90239},
 																																													val:        "[\\t ]",
@@ -35811,7 +35839,7 @@ var g = &grammar{
 																																											alternatives: []interface{}{
 																																												&actionExpr{
 																																													pos: position{line: 2861, col: 12, offset: 90410},
-																																													run: (*parser).callonListContinuationElement1466,
+																																													run: (*parser).callonListContinuationElement1469,
 																																													expr: &choiceExpr{
 																																														pos: position{line: 2861, col: 13, offset: 90411},
 																																														alternatives: []interface{}{
@@ -35856,10 +35884,10 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2643, col: 9, offset: 84085},
+																																						pos: position{line: 2643, col: 9, offset: 84090},
 																																						expr: &actionExpr{
 																																							pos: position{line: 677, col: 14, offset: 21489},
-																																							run: (*parser).callonListContinuationElement1476,
+																																							run: (*parser).callonListContinuationElement1479,
 																																							expr: &seqExpr{
 																																								pos: position{line: 677, col: 14, offset: 21489},
 																																								exprs: []interface{}{
@@ -35873,7 +35901,7 @@ var g = &grammar{
 																																										pos: position{line: 677, col: 21, offset: 21496},
 																																										expr: &actionExpr{
 																																											pos: position{line: 2852, col: 10, offset: 90239},
-																																											run: (*parser).callonListContinuationElement1481,
+																																											run: (*parser).callonListContinuationElement1484,
 																																											expr: &charClassMatcher{
 																																												pos:        position{line: 2852, col: 10, offset: 90239},
 																																												val:        "[\\t ]",
@@ -35888,7 +35916,7 @@ var g = &grammar{
 																																										alternatives: []interface{}{
 																																											&actionExpr{
 																																												pos: position{line: 2861, col: 12, offset: 90410},
-																																												run: (*parser).callonListContinuationElement1484,
+																																												run: (*parser).callonListContinuationElement1487,
 																																												expr: &choiceExpr{
 																																													pos: position{line: 2861, col: 13, offset: 90411},
 																																													alternatives: []interface{}{
@@ -35926,22 +35954,22 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2644, col: 9, offset: 84104},
+																																						pos: position{line: 2644, col: 9, offset: 84109},
 																																						expr: &seqExpr{
-																																							pos: position{line: 2644, col: 11, offset: 84106},
+																																							pos: position{line: 2644, col: 11, offset: 84111},
 																																							exprs: []interface{}{
 																																								&labeledExpr{
-																																									pos:   position{line: 2644, col: 11, offset: 84106},
+																																									pos:   position{line: 2644, col: 11, offset: 84111},
 																																									label: "format",
 																																									expr: &zeroOrOneExpr{
-																																										pos: position{line: 2644, col: 18, offset: 84113},
+																																										pos: position{line: 2644, col: 18, offset: 84118},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2652, col: 20, offset: 84314},
-																																											run: (*parser).callonListContinuationElement1495,
+																																											pos: position{line: 2652, col: 20, offset: 84319},
+																																											run: (*parser).callonListContinuationElement1498,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2652, col: 20, offset: 84314},
+																																												pos: position{line: 2652, col: 20, offset: 84319},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2652, col: 20, offset: 84314},
+																																													pos:        position{line: 2652, col: 20, offset: 84319},
 																																													val:        "[^ |\\r\\n]",
 																																													chars:      []rune{' ', '|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -35952,7 +35980,7 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&litMatcher{
-																																									pos:        position{line: 2644, col: 37, offset: 84132},
+																																									pos:        position{line: 2644, col: 37, offset: 84137},
 																																									val:        "|",
 																																									ignoreCase: false,
 																																									want:       "\"|\"",
@@ -35961,15 +35989,15 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2645, col: 9, offset: 84145},
+																																						pos:   position{line: 2645, col: 9, offset: 84150},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2645, col: 18, offset: 84154},
-																																							run: (*parser).callonListContinuationElement1500,
+																																							pos: position{line: 2645, col: 18, offset: 84159},
+																																							run: (*parser).callonListContinuationElement1503,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2645, col: 18, offset: 84154},
+																																								pos: position{line: 2645, col: 18, offset: 84159},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2645, col: 18, offset: 84154},
+																																									pos:        position{line: 2645, col: 18, offset: 84159},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -35979,13 +36007,13 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&zeroOrOneExpr{
-																																						pos: position{line: 2647, col: 12, offset: 84216},
+																																						pos: position{line: 2647, col: 12, offset: 84221},
 																																						expr: &choiceExpr{
 																																							pos: position{line: 2874, col: 8, offset: 90637},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
 																																									pos: position{line: 2861, col: 12, offset: 90410},
-																																									run: (*parser).callonListContinuationElement1505,
+																																									run: (*parser).callonListContinuationElement1508,
 																																									expr: &choiceExpr{
 																																										pos: position{line: 2861, col: 13, offset: 90411},
 																																										alternatives: []interface{}{
@@ -36036,7 +36064,7 @@ var g = &grammar{
 																						},
 																						&actionExpr{
 																							pos: position{line: 677, col: 14, offset: 21489},
-																							run: (*parser).callonListContinuationElement1512,
+																							run: (*parser).callonListContinuationElement1515,
 																							expr: &seqExpr{
 																								pos: position{line: 677, col: 14, offset: 21489},
 																								exprs: []interface{}{
@@ -36050,7 +36078,7 @@ var g = &grammar{
 																										pos: position{line: 677, col: 21, offset: 21496},
 																										expr: &actionExpr{
 																											pos: position{line: 2852, col: 10, offset: 90239},
-																											run: (*parser).callonListContinuationElement1517,
+																											run: (*parser).callonListContinuationElement1520,
 																											expr: &charClassMatcher{
 																												pos:        position{line: 2852, col: 10, offset: 90239},
 																												val:        "[\\t ]",
@@ -36065,7 +36093,7 @@ var g = &grammar{
 																										alternatives: []interface{}{
 																											&actionExpr{
 																												pos: position{line: 2861, col: 12, offset: 90410},
-																												run: (*parser).callonListContinuationElement1520,
+																												run: (*parser).callonListContinuationElement1523,
 																												expr: &choiceExpr{
 																													pos: position{line: 2861, col: 13, offset: 90411},
 																													alternatives: []interface{}{
@@ -36112,22 +36140,22 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2598, col: 22, offset: 83002},
+													pos: position{line: 2598, col: 22, offset: 83007},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2594, col: 19, offset: 82922},
+															pos: position{line: 2594, col: 19, offset: 82927},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2594, col: 19, offset: 82922},
+																	pos:        position{line: 2594, col: 19, offset: 82927},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2594, col: 26, offset: 82929},
+																	pos: position{line: 2594, col: 26, offset: 82934},
 																	expr: &actionExpr{
 																		pos: position{line: 2852, col: 10, offset: 90239},
-																		run: (*parser).callonListContinuationElement1531,
+																		run: (*parser).callonListContinuationElement1534,
 																		expr: &charClassMatcher{
 																			pos:        position{line: 2852, col: 10, offset: 90239},
 																			val:        "[\\t ]",
@@ -36142,7 +36170,7 @@ var g = &grammar{
 																	alternatives: []interface{}{
 																		&actionExpr{
 																			pos: position{line: 2861, col: 12, offset: 90410},
-																			run: (*parser).callonListContinuationElement1534,
+																			run: (*parser).callonListContinuationElement1537,
 																			expr: &choiceExpr{
 																				pos: position{line: 2861, col: 13, offset: 90411},
 																				alternatives: []interface{}{
@@ -36189,32 +36217,32 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2462, col: 22, offset: 79212},
-										run: (*parser).callonListContinuationElement1543,
+										pos: position{line: 2462, col: 22, offset: 79217},
+										run: (*parser).callonListContinuationElement1546,
 										expr: &seqExpr{
-											pos: position{line: 2462, col: 22, offset: 79212},
+											pos: position{line: 2462, col: 22, offset: 79217},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2467, col: 31, offset: 79433},
+													pos:        position{line: 2467, col: 31, offset: 79438},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2467, col: 36, offset: 79438},
+													pos: position{line: 2467, col: 36, offset: 79443},
 													expr: &litMatcher{
-														pos:        position{line: 2467, col: 37, offset: 79439},
+														pos:        position{line: 2467, col: 37, offset: 79444},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2462, col: 49, offset: 79239},
+													pos:   position{line: 2462, col: 49, offset: 79244},
 													label: "content",
 													expr: &actionExpr{
 														pos: position{line: 2798, col: 13, offset: 88765},
-														run: (*parser).callonListContinuationElement1549,
+														run: (*parser).callonListContinuationElement1552,
 														expr: &zeroOrMoreExpr{
 															pos: position{line: 2798, col: 13, offset: 88765},
 															expr: &charClassMatcher{
@@ -36232,7 +36260,7 @@ var g = &grammar{
 													alternatives: []interface{}{
 														&actionExpr{
 															pos: position{line: 2861, col: 12, offset: 90410},
-															run: (*parser).callonListContinuationElement1553,
+															run: (*parser).callonListContinuationElement1556,
 															expr: &choiceExpr{
 																pos: position{line: 2861, col: 13, offset: 90411},
 																alternatives: []interface{}{
@@ -36269,90 +36297,90 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1561, col: 5, offset: 50416},
-										run: (*parser).callonListContinuationElement1560,
+										pos: position{line: 1561, col: 5, offset: 50421},
+										run: (*parser).callonListContinuationElement1563,
 										expr: &seqExpr{
-											pos: position{line: 1561, col: 5, offset: 50416},
+											pos: position{line: 1561, col: 5, offset: 50421},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1561, col: 5, offset: 50416},
+													pos:   position{line: 1561, col: 5, offset: 50421},
 													label: "style",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1561, col: 11, offset: 50422},
+														pos: position{line: 1561, col: 11, offset: 50427},
 														expr: &actionExpr{
-															pos: position{line: 1725, col: 5, offset: 55739},
-															run: (*parser).callonListContinuationElement1564,
+															pos: position{line: 1725, col: 5, offset: 55744},
+															run: (*parser).callonListContinuationElement1567,
 															expr: &seqExpr{
-																pos: position{line: 1725, col: 5, offset: 55739},
+																pos: position{line: 1725, col: 5, offset: 55744},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1725, col: 5, offset: 55739},
-																		run: (*parser).callonListContinuationElement1566,
+																		pos: position{line: 1725, col: 5, offset: 55744},
+																		run: (*parser).callonListContinuationElement1569,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1728, col: 5, offset: 55802},
+																		pos:   position{line: 1728, col: 5, offset: 55807},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1728, col: 12, offset: 55809},
+																			pos: position{line: 1728, col: 12, offset: 55814},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1728, col: 12, offset: 55809},
-																					run: (*parser).callonListContinuationElement1569,
+																					pos: position{line: 1728, col: 12, offset: 55814},
+																					run: (*parser).callonListContinuationElement1572,
 																					expr: &litMatcher{
-																						pos:        position{line: 1728, col: 12, offset: 55809},
+																						pos:        position{line: 1728, col: 12, offset: 55814},
 																						val:        "TIP: ",
 																						ignoreCase: false,
 																						want:       "\"TIP: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1730, col: 13, offset: 55865},
-																					run: (*parser).callonListContinuationElement1571,
+																					pos: position{line: 1730, col: 13, offset: 55870},
+																					run: (*parser).callonListContinuationElement1574,
 																					expr: &litMatcher{
-																						pos:        position{line: 1730, col: 13, offset: 55865},
+																						pos:        position{line: 1730, col: 13, offset: 55870},
 																						val:        "NOTE: ",
 																						ignoreCase: false,
 																						want:       "\"NOTE: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1732, col: 13, offset: 55923},
-																					run: (*parser).callonListContinuationElement1573,
+																					pos: position{line: 1732, col: 13, offset: 55928},
+																					run: (*parser).callonListContinuationElement1576,
 																					expr: &litMatcher{
-																						pos:        position{line: 1732, col: 13, offset: 55923},
+																						pos:        position{line: 1732, col: 13, offset: 55928},
 																						val:        "IMPORTANT: ",
 																						ignoreCase: false,
 																						want:       "\"IMPORTANT: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1734, col: 13, offset: 55991},
-																					run: (*parser).callonListContinuationElement1575,
+																					pos: position{line: 1734, col: 13, offset: 55996},
+																					run: (*parser).callonListContinuationElement1578,
 																					expr: &litMatcher{
-																						pos:        position{line: 1734, col: 13, offset: 55991},
+																						pos:        position{line: 1734, col: 13, offset: 55996},
 																						val:        "WARNING: ",
 																						ignoreCase: false,
 																						want:       "\"WARNING: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1736, col: 13, offset: 56055},
-																					run: (*parser).callonListContinuationElement1577,
+																					pos: position{line: 1736, col: 13, offset: 56060},
+																					run: (*parser).callonListContinuationElement1580,
 																					expr: &litMatcher{
-																						pos:        position{line: 1736, col: 13, offset: 56055},
+																						pos:        position{line: 1736, col: 13, offset: 56060},
 																						val:        "CAUTION: ",
 																						ignoreCase: false,
 																						want:       "\"CAUTION: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1738, col: 13, offset: 56119},
-																					run: (*parser).callonListContinuationElement1579,
+																					pos: position{line: 1738, col: 13, offset: 56124},
+																					run: (*parser).callonListContinuationElement1582,
 																					expr: &andExpr{
-																						pos: position{line: 1738, col: 13, offset: 56119},
+																						pos: position{line: 1738, col: 13, offset: 56124},
 																						expr: &actionExpr{
 																							pos: position{line: 2856, col: 11, offset: 90300},
-																							run: (*parser).callonListContinuationElement1581,
+																							run: (*parser).callonListContinuationElement1584,
 																							expr: &oneOrMoreExpr{
 																								pos: position{line: 2856, col: 11, offset: 90300},
 																								expr: &charClassMatcher{
@@ -36375,19 +36403,19 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1562, col: 5, offset: 50445},
+													pos:   position{line: 1562, col: 5, offset: 50450},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1505, col: 5, offset: 48795},
-														run: (*parser).callonListContinuationElement1585,
+														pos: position{line: 1505, col: 5, offset: 48800},
+														run: (*parser).callonListContinuationElement1588,
 														expr: &seqExpr{
-															pos: position{line: 1505, col: 5, offset: 48795},
+															pos: position{line: 1505, col: 5, offset: 48800},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1505, col: 5, offset: 48795},
+																	pos: position{line: 1505, col: 5, offset: 48800},
 																	expr: &actionExpr{
 																		pos: position{line: 677, col: 14, offset: 21489},
-																		run: (*parser).callonListContinuationElement1588,
+																		run: (*parser).callonListContinuationElement1591,
 																		expr: &seqExpr{
 																			pos: position{line: 677, col: 14, offset: 21489},
 																			exprs: []interface{}{
@@ -36401,7 +36429,7 @@ var g = &grammar{
 																					pos: position{line: 677, col: 21, offset: 21496},
 																					expr: &actionExpr{
 																						pos: position{line: 2852, col: 10, offset: 90239},
-																						run: (*parser).callonListContinuationElement1593,
+																						run: (*parser).callonListContinuationElement1596,
 																						expr: &charClassMatcher{
 																							pos:        position{line: 2852, col: 10, offset: 90239},
 																							val:        "[\\t ]",
@@ -36416,7 +36444,7 @@ var g = &grammar{
 																					alternatives: []interface{}{
 																						&actionExpr{
 																							pos: position{line: 2861, col: 12, offset: 90410},
-																							run: (*parser).callonListContinuationElement1596,
+																							run: (*parser).callonListContinuationElement1599,
 																							expr: &choiceExpr{
 																								pos: position{line: 2861, col: 13, offset: 90411},
 																								alternatives: []interface{}{
@@ -36454,21 +36482,21 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1506, col: 5, offset: 48810},
+																	pos: position{line: 1506, col: 5, offset: 48815},
 																	expr: &seqExpr{
-																		pos: position{line: 1536, col: 27, offset: 49636},
+																		pos: position{line: 1536, col: 27, offset: 49641},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1536, col: 27, offset: 49636},
+																				pos:        position{line: 1536, col: 27, offset: 49641},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 1536, col: 31, offset: 49640},
+																				pos: position{line: 1536, col: 31, offset: 49645},
 																				expr: &actionExpr{
 																					pos: position{line: 2852, col: 10, offset: 90239},
-																					run: (*parser).callonListContinuationElement1607,
+																					run: (*parser).callonListContinuationElement1610,
 																					expr: &charClassMatcher{
 																						pos:        position{line: 2852, col: 10, offset: 90239},
 																						val:        "[\\t ]",
@@ -36480,7 +36508,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 2861, col: 12, offset: 90410},
-																				run: (*parser).callonListContinuationElement1609,
+																				run: (*parser).callonListContinuationElement1612,
 																				expr: &choiceExpr{
 																					pos: position{line: 2861, col: 13, offset: 90411},
 																					alternatives: []interface{}{
@@ -36509,18 +36537,18 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1507, col: 5, offset: 48838},
+																	pos: position{line: 1507, col: 5, offset: 48843},
 																	expr: &actionExpr{
-																		pos: position{line: 1577, col: 5, offset: 50855},
-																		run: (*parser).callonListContinuationElement1615,
+																		pos: position{line: 1577, col: 5, offset: 50860},
+																		run: (*parser).callonListContinuationElement1618,
 																		expr: &seqExpr{
-																			pos: position{line: 1577, col: 5, offset: 50855},
+																			pos: position{line: 1577, col: 5, offset: 50860},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1577, col: 5, offset: 50855},
+																					pos: position{line: 1577, col: 5, offset: 50860},
 																					expr: &actionExpr{
 																						pos: position{line: 2852, col: 10, offset: 90239},
-																						run: (*parser).callonListContinuationElement1618,
+																						run: (*parser).callonListContinuationElement1621,
 																						expr: &charClassMatcher{
 																							pos:        position{line: 2852, col: 10, offset: 90239},
 																							val:        "[\\t ]",
@@ -36531,27 +36559,27 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1577, col: 12, offset: 50862},
+																					pos:   position{line: 1577, col: 12, offset: 50867},
 																					label: "prefix",
 																					expr: &choiceExpr{
-																						pos: position{line: 1579, col: 9, offset: 50925},
+																						pos: position{line: 1579, col: 9, offset: 50930},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 1579, col: 9, offset: 50925},
-																								run: (*parser).callonListContinuationElement1622,
+																								pos: position{line: 1579, col: 9, offset: 50930},
+																								run: (*parser).callonListContinuationElement1625,
 																								expr: &seqExpr{
-																									pos: position{line: 1579, col: 9, offset: 50925},
+																									pos: position{line: 1579, col: 9, offset: 50930},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 1579, col: 9, offset: 50925},
+																											pos:   position{line: 1579, col: 9, offset: 50930},
 																											label: "depth",
 																											expr: &actionExpr{
-																												pos: position{line: 1579, col: 16, offset: 50932},
-																												run: (*parser).callonListContinuationElement1625,
+																												pos: position{line: 1579, col: 16, offset: 50937},
+																												run: (*parser).callonListContinuationElement1628,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1579, col: 16, offset: 50932},
+																													pos: position{line: 1579, col: 16, offset: 50937},
 																													expr: &litMatcher{
-																														pos:        position{line: 1579, col: 17, offset: 50933},
+																														pos:        position{line: 1579, col: 17, offset: 50938},
 																														val:        ".",
 																														ignoreCase: false,
 																														want:       "\".\"",
@@ -36560,22 +36588,22 @@ var g = &grammar{
 																											},
 																										},
 																										&andCodeExpr{
-																											pos: position{line: 1583, col: 9, offset: 51033},
-																											run: (*parser).callonListContinuationElement1628,
+																											pos: position{line: 1583, col: 9, offset: 51038},
+																											run: (*parser).callonListContinuationElement1631,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1602, col: 11, offset: 51750},
-																								run: (*parser).callonListContinuationElement1629,
+																								pos: position{line: 1602, col: 11, offset: 51755},
+																								run: (*parser).callonListContinuationElement1632,
 																								expr: &seqExpr{
-																									pos: position{line: 1602, col: 11, offset: 51750},
+																									pos: position{line: 1602, col: 11, offset: 51755},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1602, col: 11, offset: 51750},
+																											pos: position{line: 1602, col: 11, offset: 51755},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1602, col: 12, offset: 51751},
+																												pos:        position{line: 1602, col: 12, offset: 51756},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -36583,7 +36611,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1602, col: 20, offset: 51759},
+																											pos:        position{line: 1602, col: 20, offset: 51764},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -36592,20 +36620,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1604, col: 13, offset: 51876},
-																								run: (*parser).callonListContinuationElement1634,
+																								pos: position{line: 1604, col: 13, offset: 51881},
+																								run: (*parser).callonListContinuationElement1637,
 																								expr: &seqExpr{
-																									pos: position{line: 1604, col: 13, offset: 51876},
+																									pos: position{line: 1604, col: 13, offset: 51881},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1604, col: 14, offset: 51877},
+																											pos:        position{line: 1604, col: 14, offset: 51882},
 																											val:        "[a-z]",
 																											ranges:     []rune{'a', 'z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1604, col: 21, offset: 51884},
+																											pos:        position{line: 1604, col: 21, offset: 51889},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -36614,20 +36642,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1606, col: 13, offset: 52004},
-																								run: (*parser).callonListContinuationElement1638,
+																								pos: position{line: 1606, col: 13, offset: 52009},
+																								run: (*parser).callonListContinuationElement1641,
 																								expr: &seqExpr{
-																									pos: position{line: 1606, col: 13, offset: 52004},
+																									pos: position{line: 1606, col: 13, offset: 52009},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1606, col: 14, offset: 52005},
+																											pos:        position{line: 1606, col: 14, offset: 52010},
 																											val:        "[A-Z]",
 																											ranges:     []rune{'A', 'Z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1606, col: 21, offset: 52012},
+																											pos:        position{line: 1606, col: 21, offset: 52017},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -36636,15 +36664,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1608, col: 13, offset: 52132},
-																								run: (*parser).callonListContinuationElement1642,
+																								pos: position{line: 1608, col: 13, offset: 52137},
+																								run: (*parser).callonListContinuationElement1645,
 																								expr: &seqExpr{
-																									pos: position{line: 1608, col: 13, offset: 52132},
+																									pos: position{line: 1608, col: 13, offset: 52137},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1608, col: 13, offset: 52132},
+																											pos: position{line: 1608, col: 13, offset: 52137},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1608, col: 14, offset: 52133},
+																												pos:        position{line: 1608, col: 14, offset: 52138},
 																												val:        "[ivxdlcm]",
 																												chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																												ignoreCase: false,
@@ -36652,7 +36680,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1608, col: 26, offset: 52145},
+																											pos:        position{line: 1608, col: 26, offset: 52150},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -36661,15 +36689,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1610, col: 13, offset: 52265},
-																								run: (*parser).callonListContinuationElement1647,
+																								pos: position{line: 1610, col: 13, offset: 52270},
+																								run: (*parser).callonListContinuationElement1650,
 																								expr: &seqExpr{
-																									pos: position{line: 1610, col: 13, offset: 52265},
+																									pos: position{line: 1610, col: 13, offset: 52270},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1610, col: 13, offset: 52265},
+																											pos: position{line: 1610, col: 13, offset: 52270},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1610, col: 14, offset: 52266},
+																												pos:        position{line: 1610, col: 14, offset: 52271},
 																												val:        "[IVXDLCM]",
 																												chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																												ignoreCase: false,
@@ -36677,7 +36705,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1610, col: 26, offset: 52278},
+																											pos:        position{line: 1610, col: 26, offset: 52283},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -36690,7 +36718,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 2856, col: 11, offset: 90300},
-																					run: (*parser).callonListContinuationElement1652,
+																					run: (*parser).callonListContinuationElement1655,
 																					expr: &oneOrMoreExpr{
 																						pos: position{line: 2856, col: 11, offset: 90300},
 																						expr: &charClassMatcher{
@@ -36707,18 +36735,18 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1508, col: 5, offset: 48868},
+																	pos: position{line: 1508, col: 5, offset: 48873},
 																	expr: &actionExpr{
-																		pos: position{line: 1627, col: 5, offset: 52817},
-																		run: (*parser).callonListContinuationElement1656,
+																		pos: position{line: 1627, col: 5, offset: 52822},
+																		run: (*parser).callonListContinuationElement1659,
 																		expr: &seqExpr{
-																			pos: position{line: 1627, col: 5, offset: 52817},
+																			pos: position{line: 1627, col: 5, offset: 52822},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1627, col: 5, offset: 52817},
+																					pos: position{line: 1627, col: 5, offset: 52822},
 																					expr: &actionExpr{
 																						pos: position{line: 2852, col: 10, offset: 90239},
-																						run: (*parser).callonListContinuationElement1659,
+																						run: (*parser).callonListContinuationElement1662,
 																						expr: &charClassMatcher{
 																							pos:        position{line: 2852, col: 10, offset: 90239},
 																							val:        "[\\t ]",
@@ -36729,24 +36757,24 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1628, col: 5, offset: 52829},
+																					pos:   position{line: 1628, col: 5, offset: 52834},
 																					label: "style",
 																					expr: &actionExpr{
-																						pos: position{line: 1629, col: 9, offset: 52845},
-																						run: (*parser).callonListContinuationElement1662,
+																						pos: position{line: 1629, col: 9, offset: 52850},
+																						run: (*parser).callonListContinuationElement1665,
 																						expr: &choiceExpr{
-																							pos: position{line: 1629, col: 10, offset: 52846},
+																							pos: position{line: 1629, col: 10, offset: 52851},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1629, col: 11, offset: 52847},
+																									pos:        position{line: 1629, col: 11, offset: 52852},
 																									val:        "-",
 																									ignoreCase: false,
 																									want:       "\"-\"",
 																								},
 																								&oneOrMoreExpr{
-																									pos: position{line: 1629, col: 18, offset: 52854},
+																									pos: position{line: 1629, col: 18, offset: 52859},
 																									expr: &litMatcher{
-																										pos:        position{line: 1629, col: 19, offset: 52855},
+																										pos:        position{line: 1629, col: 19, offset: 52860},
 																										val:        "*",
 																										ignoreCase: false,
 																										want:       "\"*\"",
@@ -36757,12 +36785,12 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1632, col: 7, offset: 52945},
-																					run: (*parser).callonListContinuationElement1667,
+																					pos: position{line: 1632, col: 7, offset: 52950},
+																					run: (*parser).callonListContinuationElement1670,
 																				},
 																				&actionExpr{
 																					pos: position{line: 2856, col: 11, offset: 90300},
-																					run: (*parser).callonListContinuationElement1668,
+																					run: (*parser).callonListContinuationElement1671,
 																					expr: &oneOrMoreExpr{
 																						pos: position{line: 2856, col: 11, offset: 90300},
 																						expr: &charClassMatcher{
@@ -36779,29 +36807,29 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1509, col: 5, offset: 48900},
+																	pos: position{line: 1509, col: 5, offset: 48905},
 																	expr: &actionExpr{
-																		pos: position{line: 1716, col: 5, offset: 55354},
-																		run: (*parser).callonListContinuationElement1672,
+																		pos: position{line: 1716, col: 5, offset: 55359},
+																		run: (*parser).callonListContinuationElement1675,
 																		expr: &seqExpr{
-																			pos: position{line: 1716, col: 5, offset: 55354},
+																			pos: position{line: 1716, col: 5, offset: 55359},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1716, col: 5, offset: 55354},
+																					pos:        position{line: 1716, col: 5, offset: 55359},
 																					val:        "<",
 																					ignoreCase: false,
 																					want:       "\"<\"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1716, col: 9, offset: 55358},
+																					pos:   position{line: 1716, col: 9, offset: 55363},
 																					label: "ref",
 																					expr: &actionExpr{
-																						pos: position{line: 1716, col: 14, offset: 55363},
-																						run: (*parser).callonListContinuationElement1676,
+																						pos: position{line: 1716, col: 14, offset: 55368},
+																						run: (*parser).callonListContinuationElement1679,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 1716, col: 14, offset: 55363},
+																							pos: position{line: 1716, col: 14, offset: 55368},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1716, col: 14, offset: 55363},
+																								pos:        position{line: 1716, col: 14, offset: 55368},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -36811,14 +36839,14 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 1716, col: 62, offset: 55411},
+																					pos:        position{line: 1716, col: 62, offset: 55416},
 																					val:        ">",
 																					ignoreCase: false,
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
 																					pos: position{line: 2856, col: 11, offset: 90300},
-																					run: (*parser).callonListContinuationElement1680,
+																					run: (*parser).callonListContinuationElement1683,
 																					expr: &oneOrMoreExpr{
 																						pos: position{line: 2856, col: 11, offset: 90300},
 																						expr: &charClassMatcher{
@@ -36835,36 +36863,36 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1510, col: 5, offset: 48930},
+																	pos: position{line: 1510, col: 5, offset: 48935},
 																	expr: &seqExpr{
-																		pos: position{line: 1510, col: 7, offset: 48932},
+																		pos: position{line: 1510, col: 7, offset: 48937},
 																		exprs: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1662, col: 5, offset: 53836},
-																				run: (*parser).callonListContinuationElement1685,
+																				pos: position{line: 1662, col: 5, offset: 53841},
+																				run: (*parser).callonListContinuationElement1688,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1662, col: 5, offset: 53836},
+																					pos: position{line: 1662, col: 5, offset: 53841},
 																					expr: &seqExpr{
-																						pos: position{line: 1662, col: 6, offset: 53837},
+																						pos: position{line: 1662, col: 6, offset: 53842},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1662, col: 6, offset: 53837},
+																								pos: position{line: 1662, col: 6, offset: 53842},
 																								expr: &actionExpr{
-																									pos: position{line: 1667, col: 5, offset: 53987},
-																									run: (*parser).callonListContinuationElement1689,
+																									pos: position{line: 1667, col: 5, offset: 53992},
+																									run: (*parser).callonListContinuationElement1692,
 																									expr: &seqExpr{
-																										pos: position{line: 1667, col: 5, offset: 53987},
+																										pos: position{line: 1667, col: 5, offset: 53992},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1667, col: 5, offset: 53987},
+																												pos:   position{line: 1667, col: 5, offset: 53992},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1667, col: 16, offset: 53998},
-																													run: (*parser).callonListContinuationElement1692,
+																													pos: position{line: 1667, col: 16, offset: 54003},
+																													run: (*parser).callonListContinuationElement1695,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1667, col: 16, offset: 53998},
+																														pos: position{line: 1667, col: 16, offset: 54003},
 																														expr: &litMatcher{
-																															pos:        position{line: 1667, col: 17, offset: 53999},
+																															pos:        position{line: 1667, col: 17, offset: 54004},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -36873,21 +36901,21 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1670, col: 5, offset: 54056},
-																												run: (*parser).callonListContinuationElement1695,
+																												pos: position{line: 1670, col: 5, offset: 54061},
+																												run: (*parser).callonListContinuationElement1698,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1662, col: 35, offset: 53866},
+																								pos: position{line: 1662, col: 35, offset: 53871},
 																								expr: &choiceExpr{
 																									pos: position{line: 2874, col: 8, offset: 90637},
 																									alternatives: []interface{}{
 																										&actionExpr{
 																											pos: position{line: 2861, col: 12, offset: 90410},
-																											run: (*parser).callonListContinuationElement1698,
+																											run: (*parser).callonListContinuationElement1701,
 																											expr: &choiceExpr{
 																												pos: position{line: 2861, col: 13, offset: 90411},
 																												alternatives: []interface{}{
@@ -36922,28 +36950,28 @@ var g = &grammar{
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1662, col: 40, offset: 53871,
+																								line: 1662, col: 40, offset: 53876,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1667, col: 5, offset: 53987},
-																				run: (*parser).callonListContinuationElement1706,
+																				pos: position{line: 1667, col: 5, offset: 53992},
+																				run: (*parser).callonListContinuationElement1709,
 																				expr: &seqExpr{
-																					pos: position{line: 1667, col: 5, offset: 53987},
+																					pos: position{line: 1667, col: 5, offset: 53992},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1667, col: 5, offset: 53987},
+																							pos:   position{line: 1667, col: 5, offset: 53992},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1667, col: 16, offset: 53998},
-																								run: (*parser).callonListContinuationElement1709,
+																								pos: position{line: 1667, col: 16, offset: 54003},
+																								run: (*parser).callonListContinuationElement1712,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1667, col: 16, offset: 53998},
+																									pos: position{line: 1667, col: 16, offset: 54003},
 																									expr: &litMatcher{
-																										pos:        position{line: 1667, col: 17, offset: 53999},
+																										pos:        position{line: 1667, col: 17, offset: 54004},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -36952,8 +36980,8 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1670, col: 5, offset: 54056},
-																							run: (*parser).callonListContinuationElement1712,
+																							pos: position{line: 1670, col: 5, offset: 54061},
+																							run: (*parser).callonListContinuationElement1715,
 																						},
 																					},
 																				},
@@ -36962,10 +36990,10 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1511, col: 5, offset: 48988},
+																	pos: position{line: 1511, col: 5, offset: 48993},
 																	expr: &actionExpr{
 																		pos: position{line: 724, col: 5, offset: 23042},
-																		run: (*parser).callonListContinuationElement1714,
+																		run: (*parser).callonListContinuationElement1717,
 																		expr: &seqExpr{
 																			pos: position{line: 724, col: 5, offset: 23042},
 																			exprs: []interface{}{
@@ -36987,7 +37015,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 740, col: 5, offset: 23584},
-																								run: (*parser).callonListContinuationElement1720,
+																								run: (*parser).callonListContinuationElement1723,
 																								expr: &seqExpr{
 																									pos: position{line: 740, col: 5, offset: 23584},
 																									exprs: []interface{}{
@@ -36996,7 +37024,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 740, col: 16, offset: 23595},
-																												run: (*parser).callonListContinuationElement1723,
+																												run: (*parser).callonListContinuationElement1726,
 																												expr: &seqExpr{
 																													pos: position{line: 740, col: 16, offset: 23595},
 																													exprs: []interface{}{
@@ -37023,7 +37051,7 @@ var g = &grammar{
 																											pos: position{line: 742, col: 8, offset: 23686},
 																											expr: &actionExpr{
 																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement1729,
+																												run: (*parser).callonListContinuationElement1732,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2852, col: 10, offset: 90239},
 																													val:        "[\\t ]",
@@ -37038,7 +37066,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement1732,
+																													run: (*parser).callonListContinuationElement1735,
 																													expr: &choiceExpr{
 																														pos: position{line: 2861, col: 13, offset: 90411},
 																														alternatives: []interface{}{
@@ -37076,7 +37104,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 747, col: 5, offset: 23832},
-																								run: (*parser).callonListContinuationElement1739,
+																								run: (*parser).callonListContinuationElement1742,
 																								expr: &seqExpr{
 																									pos: position{line: 747, col: 5, offset: 23832},
 																									exprs: []interface{}{
@@ -37085,7 +37113,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 747, col: 16, offset: 23843},
-																												run: (*parser).callonListContinuationElement1742,
+																												run: (*parser).callonListContinuationElement1745,
 																												expr: &seqExpr{
 																													pos: position{line: 747, col: 16, offset: 23843},
 																													exprs: []interface{}{
@@ -37112,7 +37140,7 @@ var g = &grammar{
 																											pos: position{line: 749, col: 8, offset: 23934},
 																											expr: &actionExpr{
 																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement1748,
+																												run: (*parser).callonListContinuationElement1751,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2852, col: 10, offset: 90239},
 																													val:        "[\\t ]",
@@ -37127,7 +37155,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement1751,
+																													run: (*parser).callonListContinuationElement1754,
 																													expr: &choiceExpr{
 																														pos: position{line: 2861, col: 13, offset: 90411},
 																														alternatives: []interface{}{
@@ -37165,7 +37193,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 760, col: 26, offset: 24320},
-																								run: (*parser).callonListContinuationElement1758,
+																								run: (*parser).callonListContinuationElement1761,
 																								expr: &seqExpr{
 																									pos: position{line: 760, col: 26, offset: 24320},
 																									exprs: []interface{}{
@@ -37180,13 +37208,13 @@ var g = &grammar{
 																											label: "language",
 																											expr: &actionExpr{
 																												pos: position{line: 764, col: 13, offset: 24456},
-																												run: (*parser).callonListContinuationElement1762,
+																												run: (*parser).callonListContinuationElement1765,
 																												expr: &oneOrMoreExpr{
 																													pos: position{line: 764, col: 14, offset: 24457},
 																													expr: &charClassMatcher{
 																														pos:        position{line: 764, col: 14, offset: 24457},
-																														val:        "[^\\r\\n` ]",
-																														chars:      []rune{'\r', '\n', '`', ' '},
+																														val:        "[^\\r\\n`\\t ]",
+																														chars:      []rune{'\r', '\n', '`', '\t', ' '},
 																														ignoreCase: false,
 																														inverted:   true,
 																													},
@@ -37197,7 +37225,7 @@ var g = &grammar{
 																											pos: position{line: 760, col: 52, offset: 24346},
 																											expr: &actionExpr{
 																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement1766,
+																												run: (*parser).callonListContinuationElement1769,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2852, col: 10, offset: 90239},
 																													val:        "[\\t ]",
@@ -37212,7 +37240,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement1769,
+																													run: (*parser).callonListContinuationElement1772,
 																													expr: &choiceExpr{
 																														pos: position{line: 2861, col: 13, offset: 90411},
 																														alternatives: []interface{}{
@@ -37250,7 +37278,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 754, col: 5, offset: 24079},
-																								run: (*parser).callonListContinuationElement1776,
+																								run: (*parser).callonListContinuationElement1779,
 																								expr: &seqExpr{
 																									pos: position{line: 754, col: 5, offset: 24079},
 																									exprs: []interface{}{
@@ -37259,7 +37287,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 754, col: 16, offset: 24090},
-																												run: (*parser).callonListContinuationElement1779,
+																												run: (*parser).callonListContinuationElement1782,
 																												expr: &seqExpr{
 																													pos: position{line: 754, col: 16, offset: 24090},
 																													exprs: []interface{}{
@@ -37286,7 +37314,7 @@ var g = &grammar{
 																											pos: position{line: 756, col: 8, offset: 24180},
 																											expr: &actionExpr{
 																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement1785,
+																												run: (*parser).callonListContinuationElement1788,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2852, col: 10, offset: 90239},
 																													val:        "[\\t ]",
@@ -37301,7 +37329,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement1788,
+																													run: (*parser).callonListContinuationElement1791,
 																													expr: &choiceExpr{
 																														pos: position{line: 2861, col: 13, offset: 90411},
 																														alternatives: []interface{}{
@@ -37338,30 +37366,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 769, col: 5, offset: 24616},
-																								run: (*parser).callonListContinuationElement1795,
+																								pos: position{line: 769, col: 5, offset: 24621},
+																								run: (*parser).callonListContinuationElement1798,
 																								expr: &seqExpr{
-																									pos: position{line: 769, col: 5, offset: 24616},
+																									pos: position{line: 769, col: 5, offset: 24621},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 769, col: 5, offset: 24616},
+																											pos:   position{line: 769, col: 5, offset: 24621},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 769, col: 16, offset: 24627},
-																												run: (*parser).callonListContinuationElement1798,
+																												pos: position{line: 769, col: 16, offset: 24632},
+																												run: (*parser).callonListContinuationElement1801,
 																												expr: &seqExpr{
-																													pos: position{line: 769, col: 16, offset: 24627},
+																													pos: position{line: 769, col: 16, offset: 24632},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 769, col: 16, offset: 24627},
+																															pos:        position{line: 769, col: 16, offset: 24632},
 																															val:        "----",
 																															ignoreCase: false,
 																															want:       "\"----\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 769, col: 23, offset: 24634},
+																															pos: position{line: 769, col: 23, offset: 24639},
 																															expr: &litMatcher{
-																																pos:        position{line: 769, col: 23, offset: 24634},
+																																pos:        position{line: 769, col: 23, offset: 24639},
 																																val:        "-",
 																																ignoreCase: false,
 																																want:       "\"-\"",
@@ -37372,10 +37400,10 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 771, col: 8, offset: 24718},
+																											pos: position{line: 771, col: 8, offset: 24723},
 																											expr: &actionExpr{
 																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement1804,
+																												run: (*parser).callonListContinuationElement1807,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2852, col: 10, offset: 90239},
 																													val:        "[\\t ]",
@@ -37390,7 +37418,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement1807,
+																													run: (*parser).callonListContinuationElement1810,
 																													expr: &choiceExpr{
 																														pos: position{line: 2861, col: 13, offset: 90411},
 																														alternatives: []interface{}{
@@ -37427,30 +37455,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 783, col: 5, offset: 25092},
-																								run: (*parser).callonListContinuationElement1814,
+																								pos: position{line: 783, col: 5, offset: 25097},
+																								run: (*parser).callonListContinuationElement1817,
 																								expr: &seqExpr{
-																									pos: position{line: 783, col: 5, offset: 25092},
+																									pos: position{line: 783, col: 5, offset: 25097},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 783, col: 5, offset: 25092},
+																											pos:   position{line: 783, col: 5, offset: 25097},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 783, col: 16, offset: 25103},
-																												run: (*parser).callonListContinuationElement1817,
+																												pos: position{line: 783, col: 16, offset: 25108},
+																												run: (*parser).callonListContinuationElement1820,
 																												expr: &seqExpr{
-																													pos: position{line: 783, col: 16, offset: 25103},
+																													pos: position{line: 783, col: 16, offset: 25108},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 783, col: 16, offset: 25103},
+																															pos:        position{line: 783, col: 16, offset: 25108},
 																															val:        "....",
 																															ignoreCase: false,
 																															want:       "\"....\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 783, col: 23, offset: 25110},
+																															pos: position{line: 783, col: 23, offset: 25115},
 																															expr: &litMatcher{
-																																pos:        position{line: 783, col: 23, offset: 25110},
+																																pos:        position{line: 783, col: 23, offset: 25115},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -37461,10 +37489,10 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 785, col: 8, offset: 25194},
+																											pos: position{line: 785, col: 8, offset: 25199},
 																											expr: &actionExpr{
 																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement1823,
+																												run: (*parser).callonListContinuationElement1826,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2852, col: 10, offset: 90239},
 																													val:        "[\\t ]",
@@ -37479,7 +37507,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement1826,
+																													run: (*parser).callonListContinuationElement1829,
 																													expr: &choiceExpr{
 																														pos: position{line: 2861, col: 13, offset: 90411},
 																														alternatives: []interface{}{
@@ -37516,30 +37544,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 790, col: 5, offset: 25344},
-																								run: (*parser).callonListContinuationElement1833,
+																								pos: position{line: 790, col: 5, offset: 25349},
+																								run: (*parser).callonListContinuationElement1836,
 																								expr: &seqExpr{
-																									pos: position{line: 790, col: 5, offset: 25344},
+																									pos: position{line: 790, col: 5, offset: 25349},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 790, col: 5, offset: 25344},
+																											pos:   position{line: 790, col: 5, offset: 25349},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 790, col: 16, offset: 25355},
-																												run: (*parser).callonListContinuationElement1836,
+																												pos: position{line: 790, col: 16, offset: 25360},
+																												run: (*parser).callonListContinuationElement1839,
 																												expr: &seqExpr{
-																													pos: position{line: 790, col: 16, offset: 25355},
+																													pos: position{line: 790, col: 16, offset: 25360},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 790, col: 16, offset: 25355},
+																															pos:        position{line: 790, col: 16, offset: 25360},
 																															val:        "++++",
 																															ignoreCase: false,
 																															want:       "\"++++\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 790, col: 23, offset: 25362},
+																															pos: position{line: 790, col: 23, offset: 25367},
 																															expr: &litMatcher{
-																																pos:        position{line: 790, col: 23, offset: 25362},
+																																pos:        position{line: 790, col: 23, offset: 25367},
 																																val:        "+",
 																																ignoreCase: false,
 																																want:       "\"+\"",
@@ -37550,10 +37578,10 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 792, col: 8, offset: 25446},
+																											pos: position{line: 792, col: 8, offset: 25451},
 																											expr: &actionExpr{
 																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement1842,
+																												run: (*parser).callonListContinuationElement1845,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2852, col: 10, offset: 90239},
 																													val:        "[\\t ]",
@@ -37568,7 +37596,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement1845,
+																													run: (*parser).callonListContinuationElement1848,
 																													expr: &choiceExpr{
 																														pos: position{line: 2861, col: 13, offset: 90411},
 																														alternatives: []interface{}{
@@ -37605,30 +37633,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 797, col: 5, offset: 25594},
-																								run: (*parser).callonListContinuationElement1852,
+																								pos: position{line: 797, col: 5, offset: 25599},
+																								run: (*parser).callonListContinuationElement1855,
 																								expr: &seqExpr{
-																									pos: position{line: 797, col: 5, offset: 25594},
+																									pos: position{line: 797, col: 5, offset: 25599},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 797, col: 5, offset: 25594},
+																											pos:   position{line: 797, col: 5, offset: 25599},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 797, col: 16, offset: 25605},
-																												run: (*parser).callonListContinuationElement1855,
+																												pos: position{line: 797, col: 16, offset: 25610},
+																												run: (*parser).callonListContinuationElement1858,
 																												expr: &seqExpr{
-																													pos: position{line: 797, col: 16, offset: 25605},
+																													pos: position{line: 797, col: 16, offset: 25610},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 797, col: 16, offset: 25605},
+																															pos:        position{line: 797, col: 16, offset: 25610},
 																															val:        "____",
 																															ignoreCase: false,
 																															want:       "\"____\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 797, col: 23, offset: 25612},
+																															pos: position{line: 797, col: 23, offset: 25617},
 																															expr: &litMatcher{
-																																pos:        position{line: 797, col: 23, offset: 25612},
+																																pos:        position{line: 797, col: 23, offset: 25617},
 																																val:        "_",
 																																ignoreCase: false,
 																																want:       "\"_\"",
@@ -37639,10 +37667,10 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 799, col: 8, offset: 25696},
+																											pos: position{line: 799, col: 8, offset: 25701},
 																											expr: &actionExpr{
 																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement1861,
+																												run: (*parser).callonListContinuationElement1864,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2852, col: 10, offset: 90239},
 																													val:        "[\\t ]",
@@ -37657,7 +37685,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement1864,
+																													run: (*parser).callonListContinuationElement1867,
 																													expr: &choiceExpr{
 																														pos: position{line: 2861, col: 13, offset: 90411},
 																														alternatives: []interface{}{
@@ -37694,30 +37722,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 804, col: 5, offset: 25840},
-																								run: (*parser).callonListContinuationElement1871,
+																								pos: position{line: 804, col: 5, offset: 25845},
+																								run: (*parser).callonListContinuationElement1874,
 																								expr: &seqExpr{
-																									pos: position{line: 804, col: 5, offset: 25840},
+																									pos: position{line: 804, col: 5, offset: 25845},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 804, col: 5, offset: 25840},
+																											pos:   position{line: 804, col: 5, offset: 25845},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 804, col: 16, offset: 25851},
-																												run: (*parser).callonListContinuationElement1874,
+																												pos: position{line: 804, col: 16, offset: 25856},
+																												run: (*parser).callonListContinuationElement1877,
 																												expr: &seqExpr{
-																													pos: position{line: 804, col: 16, offset: 25851},
+																													pos: position{line: 804, col: 16, offset: 25856},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 804, col: 16, offset: 25851},
+																															pos:        position{line: 804, col: 16, offset: 25856},
 																															val:        "****",
 																															ignoreCase: false,
 																															want:       "\"****\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 804, col: 23, offset: 25858},
+																															pos: position{line: 804, col: 23, offset: 25863},
 																															expr: &litMatcher{
-																																pos:        position{line: 804, col: 23, offset: 25858},
+																																pos:        position{line: 804, col: 23, offset: 25863},
 																																val:        "*",
 																																ignoreCase: false,
 																																want:       "\"*\"",
@@ -37728,10 +37756,10 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 806, col: 8, offset: 25942},
+																											pos: position{line: 806, col: 8, offset: 25947},
 																											expr: &actionExpr{
 																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement1880,
+																												run: (*parser).callonListContinuationElement1883,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2852, col: 10, offset: 90239},
 																													val:        "[\\t ]",
@@ -37746,7 +37774,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement1883,
+																													run: (*parser).callonListContinuationElement1886,
 																													expr: &choiceExpr{
 																														pos: position{line: 2861, col: 13, offset: 90411},
 																														alternatives: []interface{}{
@@ -37790,11 +37818,11 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1512, col: 5, offset: 49008},
+																	pos:   position{line: 1512, col: 5, offset: 49013},
 																	label: "content",
 																	expr: &actionExpr{
 																		pos: position{line: 2802, col: 14, offset: 88832},
-																		run: (*parser).callonListContinuationElement1891,
+																		run: (*parser).callonListContinuationElement1894,
 																		expr: &oneOrMoreExpr{
 																			pos: position{line: 2802, col: 14, offset: 88832},
 																			expr: &charClassMatcher{
@@ -37812,7 +37840,7 @@ var g = &grammar{
 																	alternatives: []interface{}{
 																		&actionExpr{
 																			pos: position{line: 2861, col: 12, offset: 90410},
-																			run: (*parser).callonListContinuationElement1895,
+																			run: (*parser).callonListContinuationElement1898,
 																			expr: &choiceExpr{
 																				pos: position{line: 2861, col: 13, offset: 90411},
 																				alternatives: []interface{}{
@@ -37861,33 +37889,33 @@ var g = &grammar{
 		},
 		{
 			name: "Callout",
-			pos:  position{line: 1700, col: 1, offset: 54848},
+			pos:  position{line: 1700, col: 1, offset: 54853},
 			expr: &actionExpr{
-				pos: position{line: 1702, col: 5, offset: 54926},
+				pos: position{line: 1702, col: 5, offset: 54931},
 				run: (*parser).callonCallout1,
 				expr: &seqExpr{
-					pos: position{line: 1702, col: 5, offset: 54926},
+					pos: position{line: 1702, col: 5, offset: 54931},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1702, col: 5, offset: 54926},
+							pos: position{line: 1702, col: 5, offset: 54931},
 							run: (*parser).callonCallout3,
 						},
 						&litMatcher{
-							pos:        position{line: 1705, col: 5, offset: 54993},
+							pos:        position{line: 1705, col: 5, offset: 54998},
 							val:        "<",
 							ignoreCase: false,
 							want:       "\"<\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1705, col: 9, offset: 54997},
+							pos:   position{line: 1705, col: 9, offset: 55002},
 							label: "ref",
 							expr: &actionExpr{
-								pos: position{line: 1705, col: 14, offset: 55002},
+								pos: position{line: 1705, col: 14, offset: 55007},
 								run: (*parser).callonCallout6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1705, col: 14, offset: 55002},
+									pos: position{line: 1705, col: 14, offset: 55007},
 									expr: &charClassMatcher{
-										pos:        position{line: 1705, col: 14, offset: 55002},
+										pos:        position{line: 1705, col: 14, offset: 55007},
 										val:        "[0-9]",
 										ranges:     []rune{'0', '9'},
 										ignoreCase: false,
@@ -37897,13 +37925,13 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1705, col: 62, offset: 55050},
+							pos:        position{line: 1705, col: 62, offset: 55055},
 							val:        ">",
 							ignoreCase: false,
 							want:       "\">\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1705, col: 66, offset: 55054},
+							pos: position{line: 1705, col: 66, offset: 55059},
 							expr: &actionExpr{
 								pos: position{line: 2852, col: 10, offset: 90239},
 								run: (*parser).callonCallout11,
@@ -37917,9 +37945,9 @@ var g = &grammar{
 							},
 						},
 						&andExpr{
-							pos: position{line: 1705, col: 73, offset: 55061},
+							pos: position{line: 1705, col: 73, offset: 55066},
 							expr: &choiceExpr{
-								pos: position{line: 1705, col: 75, offset: 55063},
+								pos: position{line: 1705, col: 75, offset: 55068},
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 2861, col: 12, offset: 90410},
@@ -37955,7 +37983,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1705, col: 81, offset: 55069},
+										pos:  position{line: 1705, col: 81, offset: 55074},
 										name: "Callout",
 									},
 								},
@@ -37967,17 +37995,17 @@ var g = &grammar{
 		},
 		{
 			name: "ShortcutParagraph",
-			pos:  position{line: 1744, col: 1, offset: 56242},
+			pos:  position{line: 1744, col: 1, offset: 56247},
 			expr: &actionExpr{
-				pos: position{line: 1746, col: 5, offset: 56316},
+				pos: position{line: 1746, col: 5, offset: 56321},
 				run: (*parser).callonShortcutParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1746, col: 5, offset: 56316},
+					pos: position{line: 1746, col: 5, offset: 56321},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 1746, col: 5, offset: 56316},
+							pos: position{line: 1746, col: 5, offset: 56321},
 							expr: &seqExpr{
-								pos: position{line: 1746, col: 7, offset: 56318},
+								pos: position{line: 1746, col: 7, offset: 56323},
 								exprs: []interface{}{
 									&charClassMatcher{
 										pos:        position{line: 2742, col: 13, offset: 87334},
@@ -37987,12 +38015,12 @@ var g = &grammar{
 										inverted:   false,
 									},
 									&notExpr{
-										pos: position{line: 1746, col: 16, offset: 56327},
+										pos: position{line: 1746, col: 16, offset: 56332},
 										expr: &seqExpr{
-											pos: position{line: 1746, col: 18, offset: 56329},
+											pos: position{line: 1746, col: 18, offset: 56334},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 1746, col: 19, offset: 56330},
+													pos:        position{line: 1746, col: 19, offset: 56335},
 													val:        "[.)]",
 													chars:      []rune{'.', ')'},
 													ignoreCase: false,
@@ -38019,81 +38047,81 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1747, col: 5, offset: 56470},
+							pos:   position{line: 1747, col: 5, offset: 56475},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1747, col: 11, offset: 56476},
+								pos: position{line: 1747, col: 11, offset: 56481},
 								expr: &actionExpr{
-									pos: position{line: 1725, col: 5, offset: 55739},
+									pos: position{line: 1725, col: 5, offset: 55744},
 									run: (*parser).callonShortcutParagraph14,
 									expr: &seqExpr{
-										pos: position{line: 1725, col: 5, offset: 55739},
+										pos: position{line: 1725, col: 5, offset: 55744},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1725, col: 5, offset: 55739},
+												pos: position{line: 1725, col: 5, offset: 55744},
 												run: (*parser).callonShortcutParagraph16,
 											},
 											&labeledExpr{
-												pos:   position{line: 1728, col: 5, offset: 55802},
+												pos:   position{line: 1728, col: 5, offset: 55807},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1728, col: 12, offset: 55809},
+													pos: position{line: 1728, col: 12, offset: 55814},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1728, col: 12, offset: 55809},
+															pos: position{line: 1728, col: 12, offset: 55814},
 															run: (*parser).callonShortcutParagraph19,
 															expr: &litMatcher{
-																pos:        position{line: 1728, col: 12, offset: 55809},
+																pos:        position{line: 1728, col: 12, offset: 55814},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1730, col: 13, offset: 55865},
+															pos: position{line: 1730, col: 13, offset: 55870},
 															run: (*parser).callonShortcutParagraph21,
 															expr: &litMatcher{
-																pos:        position{line: 1730, col: 13, offset: 55865},
+																pos:        position{line: 1730, col: 13, offset: 55870},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1732, col: 13, offset: 55923},
+															pos: position{line: 1732, col: 13, offset: 55928},
 															run: (*parser).callonShortcutParagraph23,
 															expr: &litMatcher{
-																pos:        position{line: 1732, col: 13, offset: 55923},
+																pos:        position{line: 1732, col: 13, offset: 55928},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1734, col: 13, offset: 55991},
+															pos: position{line: 1734, col: 13, offset: 55996},
 															run: (*parser).callonShortcutParagraph25,
 															expr: &litMatcher{
-																pos:        position{line: 1734, col: 13, offset: 55991},
+																pos:        position{line: 1734, col: 13, offset: 55996},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1736, col: 13, offset: 56055},
+															pos: position{line: 1736, col: 13, offset: 56060},
 															run: (*parser).callonShortcutParagraph27,
 															expr: &litMatcher{
-																pos:        position{line: 1736, col: 13, offset: 56055},
+																pos:        position{line: 1736, col: 13, offset: 56060},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1738, col: 13, offset: 56119},
+															pos: position{line: 1738, col: 13, offset: 56124},
 															run: (*parser).callonShortcutParagraph29,
 															expr: &andExpr{
-																pos: position{line: 1738, col: 13, offset: 56119},
+																pos: position{line: 1738, col: 13, offset: 56124},
 																expr: &actionExpr{
 																	pos: position{line: 2856, col: 11, offset: 90300},
 																	run: (*parser).callonShortcutParagraph31,
@@ -38119,16 +38147,16 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1748, col: 5, offset: 56498},
+							pos:   position{line: 1748, col: 5, offset: 56503},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1784, col: 5, offset: 57605},
+								pos: position{line: 1784, col: 5, offset: 57610},
 								run: (*parser).callonShortcutParagraph35,
 								expr: &seqExpr{
-									pos: position{line: 1784, col: 5, offset: 57605},
+									pos: position{line: 1784, col: 5, offset: 57610},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1784, col: 5, offset: 57605},
+											pos:   position{line: 1784, col: 5, offset: 57610},
 											label: "content",
 											expr: &actionExpr{
 												pos: position{line: 2802, col: 14, offset: 88832},
@@ -38146,7 +38174,7 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1785, col: 5, offset: 57629},
+											pos: position{line: 1785, col: 5, offset: 57634},
 											run: (*parser).callonShortcutParagraph41,
 										},
 										&choiceExpr{
@@ -38192,19 +38220,19 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1749, col: 5, offset: 56532},
+							pos: position{line: 1749, col: 5, offset: 56537},
 							run: (*parser).callonShortcutParagraph50,
 						},
 						&labeledExpr{
-							pos:   position{line: 1756, col: 5, offset: 56862},
+							pos:   position{line: 1756, col: 5, offset: 56867},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1756, col: 16, offset: 56873},
+								pos: position{line: 1756, col: 16, offset: 56878},
 								expr: &actionExpr{
-									pos: position{line: 1757, col: 9, offset: 56883},
+									pos: position{line: 1757, col: 9, offset: 56888},
 									run: (*parser).callonShortcutParagraph53,
 									expr: &seqExpr{
-										pos: position{line: 1757, col: 9, offset: 56883},
+										pos: position{line: 1757, col: 9, offset: 56888},
 										exprs: []interface{}{
 											&andExpr{
 												pos: position{line: 2869, col: 11, offset: 90573},
@@ -38213,7 +38241,7 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1758, col: 9, offset: 56899},
+												pos: position{line: 1758, col: 9, offset: 56904},
 												expr: &actionExpr{
 													pos: position{line: 677, col: 14, offset: 21489},
 													run: (*parser).callonShortcutParagraph58,
@@ -38283,14 +38311,14 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1759, col: 9, offset: 56918},
+												pos: position{line: 1759, col: 9, offset: 56923},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1759, col: 10, offset: 56919},
+													pos:  position{line: 1759, col: 10, offset: 56924},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1760, col: 9, offset: 56943},
+												pos: position{line: 1760, col: 9, offset: 56948},
 												expr: &actionExpr{
 													pos: position{line: 724, col: 5, offset: 23042},
 													run: (*parser).callonShortcutParagraph76,
@@ -38513,8 +38541,8 @@ var g = &grammar{
 																								pos: position{line: 764, col: 14, offset: 24457},
 																								expr: &charClassMatcher{
 																									pos:        position{line: 764, col: 14, offset: 24457},
-																									val:        "[^\\r\\n` ]",
-																									chars:      []rune{'\r', '\n', '`', ' '},
+																									val:        "[^\\r\\n`\\t ]",
+																									chars:      []rune{'\r', '\n', '`', '\t', ' '},
 																									ignoreCase: false,
 																									inverted:   true,
 																								},
@@ -38666,30 +38694,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 769, col: 5, offset: 24616},
+																			pos: position{line: 769, col: 5, offset: 24621},
 																			run: (*parser).callonShortcutParagraph157,
 																			expr: &seqExpr{
-																				pos: position{line: 769, col: 5, offset: 24616},
+																				pos: position{line: 769, col: 5, offset: 24621},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 769, col: 5, offset: 24616},
+																						pos:   position{line: 769, col: 5, offset: 24621},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 769, col: 16, offset: 24627},
+																							pos: position{line: 769, col: 16, offset: 24632},
 																							run: (*parser).callonShortcutParagraph160,
 																							expr: &seqExpr{
-																								pos: position{line: 769, col: 16, offset: 24627},
+																								pos: position{line: 769, col: 16, offset: 24632},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 769, col: 16, offset: 24627},
+																										pos:        position{line: 769, col: 16, offset: 24632},
 																										val:        "----",
 																										ignoreCase: false,
 																										want:       "\"----\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 769, col: 23, offset: 24634},
+																										pos: position{line: 769, col: 23, offset: 24639},
 																										expr: &litMatcher{
-																											pos:        position{line: 769, col: 23, offset: 24634},
+																											pos:        position{line: 769, col: 23, offset: 24639},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
@@ -38700,7 +38728,7 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 771, col: 8, offset: 24718},
+																						pos: position{line: 771, col: 8, offset: 24723},
 																						expr: &actionExpr{
 																							pos: position{line: 2852, col: 10, offset: 90239},
 																							run: (*parser).callonShortcutParagraph166,
@@ -38755,30 +38783,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 783, col: 5, offset: 25092},
+																			pos: position{line: 783, col: 5, offset: 25097},
 																			run: (*parser).callonShortcutParagraph176,
 																			expr: &seqExpr{
-																				pos: position{line: 783, col: 5, offset: 25092},
+																				pos: position{line: 783, col: 5, offset: 25097},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 783, col: 5, offset: 25092},
+																						pos:   position{line: 783, col: 5, offset: 25097},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 783, col: 16, offset: 25103},
+																							pos: position{line: 783, col: 16, offset: 25108},
 																							run: (*parser).callonShortcutParagraph179,
 																							expr: &seqExpr{
-																								pos: position{line: 783, col: 16, offset: 25103},
+																								pos: position{line: 783, col: 16, offset: 25108},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 783, col: 16, offset: 25103},
+																										pos:        position{line: 783, col: 16, offset: 25108},
 																										val:        "....",
 																										ignoreCase: false,
 																										want:       "\"....\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 783, col: 23, offset: 25110},
+																										pos: position{line: 783, col: 23, offset: 25115},
 																										expr: &litMatcher{
-																											pos:        position{line: 783, col: 23, offset: 25110},
+																											pos:        position{line: 783, col: 23, offset: 25115},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -38789,7 +38817,7 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 785, col: 8, offset: 25194},
+																						pos: position{line: 785, col: 8, offset: 25199},
 																						expr: &actionExpr{
 																							pos: position{line: 2852, col: 10, offset: 90239},
 																							run: (*parser).callonShortcutParagraph185,
@@ -38844,30 +38872,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 790, col: 5, offset: 25344},
+																			pos: position{line: 790, col: 5, offset: 25349},
 																			run: (*parser).callonShortcutParagraph195,
 																			expr: &seqExpr{
-																				pos: position{line: 790, col: 5, offset: 25344},
+																				pos: position{line: 790, col: 5, offset: 25349},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 790, col: 5, offset: 25344},
+																						pos:   position{line: 790, col: 5, offset: 25349},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 790, col: 16, offset: 25355},
+																							pos: position{line: 790, col: 16, offset: 25360},
 																							run: (*parser).callonShortcutParagraph198,
 																							expr: &seqExpr{
-																								pos: position{line: 790, col: 16, offset: 25355},
+																								pos: position{line: 790, col: 16, offset: 25360},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 790, col: 16, offset: 25355},
+																										pos:        position{line: 790, col: 16, offset: 25360},
 																										val:        "++++",
 																										ignoreCase: false,
 																										want:       "\"++++\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 790, col: 23, offset: 25362},
+																										pos: position{line: 790, col: 23, offset: 25367},
 																										expr: &litMatcher{
-																											pos:        position{line: 790, col: 23, offset: 25362},
+																											pos:        position{line: 790, col: 23, offset: 25367},
 																											val:        "+",
 																											ignoreCase: false,
 																											want:       "\"+\"",
@@ -38878,7 +38906,7 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 792, col: 8, offset: 25446},
+																						pos: position{line: 792, col: 8, offset: 25451},
 																						expr: &actionExpr{
 																							pos: position{line: 2852, col: 10, offset: 90239},
 																							run: (*parser).callonShortcutParagraph204,
@@ -38933,30 +38961,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 797, col: 5, offset: 25594},
+																			pos: position{line: 797, col: 5, offset: 25599},
 																			run: (*parser).callonShortcutParagraph214,
 																			expr: &seqExpr{
-																				pos: position{line: 797, col: 5, offset: 25594},
+																				pos: position{line: 797, col: 5, offset: 25599},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 797, col: 5, offset: 25594},
+																						pos:   position{line: 797, col: 5, offset: 25599},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 797, col: 16, offset: 25605},
+																							pos: position{line: 797, col: 16, offset: 25610},
 																							run: (*parser).callonShortcutParagraph217,
 																							expr: &seqExpr{
-																								pos: position{line: 797, col: 16, offset: 25605},
+																								pos: position{line: 797, col: 16, offset: 25610},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 797, col: 16, offset: 25605},
+																										pos:        position{line: 797, col: 16, offset: 25610},
 																										val:        "____",
 																										ignoreCase: false,
 																										want:       "\"____\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 797, col: 23, offset: 25612},
+																										pos: position{line: 797, col: 23, offset: 25617},
 																										expr: &litMatcher{
-																											pos:        position{line: 797, col: 23, offset: 25612},
+																											pos:        position{line: 797, col: 23, offset: 25617},
 																											val:        "_",
 																											ignoreCase: false,
 																											want:       "\"_\"",
@@ -38967,7 +38995,7 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 799, col: 8, offset: 25696},
+																						pos: position{line: 799, col: 8, offset: 25701},
 																						expr: &actionExpr{
 																							pos: position{line: 2852, col: 10, offset: 90239},
 																							run: (*parser).callonShortcutParagraph223,
@@ -39022,30 +39050,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 804, col: 5, offset: 25840},
+																			pos: position{line: 804, col: 5, offset: 25845},
 																			run: (*parser).callonShortcutParagraph233,
 																			expr: &seqExpr{
-																				pos: position{line: 804, col: 5, offset: 25840},
+																				pos: position{line: 804, col: 5, offset: 25845},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 804, col: 5, offset: 25840},
+																						pos:   position{line: 804, col: 5, offset: 25845},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 804, col: 16, offset: 25851},
+																							pos: position{line: 804, col: 16, offset: 25856},
 																							run: (*parser).callonShortcutParagraph236,
 																							expr: &seqExpr{
-																								pos: position{line: 804, col: 16, offset: 25851},
+																								pos: position{line: 804, col: 16, offset: 25856},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 804, col: 16, offset: 25851},
+																										pos:        position{line: 804, col: 16, offset: 25856},
 																										val:        "****",
 																										ignoreCase: false,
 																										want:       "\"****\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 804, col: 23, offset: 25858},
+																										pos: position{line: 804, col: 23, offset: 25863},
 																										expr: &litMatcher{
-																											pos:        position{line: 804, col: 23, offset: 25858},
+																											pos:        position{line: 804, col: 23, offset: 25863},
 																											val:        "*",
 																											ignoreCase: false,
 																											want:       "\"*\"",
@@ -39056,7 +39084,7 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 806, col: 8, offset: 25942},
+																						pos: position{line: 806, col: 8, offset: 25947},
 																						expr: &actionExpr{
 																							pos: position{line: 2852, col: 10, offset: 90239},
 																							run: (*parser).callonShortcutParagraph242,
@@ -39118,18 +39146,18 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1761, col: 9, offset: 56967},
+												pos: position{line: 1761, col: 9, offset: 56972},
 												expr: &seqExpr{
-													pos: position{line: 1536, col: 27, offset: 49636},
+													pos: position{line: 1536, col: 27, offset: 49641},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 1536, col: 27, offset: 49636},
+															pos:        position{line: 1536, col: 27, offset: 49641},
 															val:        "+",
 															ignoreCase: false,
 															want:       "\"+\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 1536, col: 31, offset: 49640},
+															pos: position{line: 1536, col: 31, offset: 49645},
 															expr: &actionExpr{
 																pos: position{line: 2852, col: 10, offset: 90239},
 																run: (*parser).callonShortcutParagraph256,
@@ -39173,34 +39201,34 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1762, col: 9, offset: 56999},
+												pos:   position{line: 1762, col: 9, offset: 57004},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1762, col: 15, offset: 57005},
+													pos: position{line: 1762, col: 15, offset: 57010},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2462, col: 22, offset: 79212},
+															pos: position{line: 2462, col: 22, offset: 79217},
 															run: (*parser).callonShortcutParagraph265,
 															expr: &seqExpr{
-																pos: position{line: 2462, col: 22, offset: 79212},
+																pos: position{line: 2462, col: 22, offset: 79217},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2467, col: 31, offset: 79433},
+																		pos:        position{line: 2467, col: 31, offset: 79438},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2467, col: 36, offset: 79438},
+																		pos: position{line: 2467, col: 36, offset: 79443},
 																		expr: &litMatcher{
-																			pos:        position{line: 2467, col: 37, offset: 79439},
+																			pos:        position{line: 2467, col: 37, offset: 79444},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2462, col: 49, offset: 79239},
+																		pos:   position{line: 2462, col: 49, offset: 79244},
 																		label: "content",
 																		expr: &actionExpr{
 																			pos: position{line: 2798, col: 13, offset: 88765},
@@ -39259,13 +39287,13 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1784, col: 5, offset: 57605},
+															pos: position{line: 1784, col: 5, offset: 57610},
 															run: (*parser).callonShortcutParagraph282,
 															expr: &seqExpr{
-																pos: position{line: 1784, col: 5, offset: 57605},
+																pos: position{line: 1784, col: 5, offset: 57610},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1784, col: 5, offset: 57605},
+																		pos:   position{line: 1784, col: 5, offset: 57610},
 																		label: "content",
 																		expr: &actionExpr{
 																			pos: position{line: 2802, col: 14, offset: 88832},
@@ -39283,7 +39311,7 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1785, col: 5, offset: 57629},
+																		pos: position{line: 1785, col: 5, offset: 57634},
 																		run: (*parser).callonShortcutParagraph288,
 																	},
 																	&choiceExpr{
@@ -39341,89 +39369,89 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraph",
-			pos:  position{line: 1769, col: 1, offset: 57209},
+			pos:  position{line: 1769, col: 1, offset: 57214},
 			expr: &actionExpr{
-				pos: position{line: 1770, col: 5, offset: 57227},
+				pos: position{line: 1770, col: 5, offset: 57232},
 				run: (*parser).callonParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1770, col: 5, offset: 57227},
+					pos: position{line: 1770, col: 5, offset: 57232},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1770, col: 5, offset: 57227},
+							pos:   position{line: 1770, col: 5, offset: 57232},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1770, col: 11, offset: 57233},
+								pos: position{line: 1770, col: 11, offset: 57238},
 								expr: &actionExpr{
-									pos: position{line: 1725, col: 5, offset: 55739},
+									pos: position{line: 1725, col: 5, offset: 55744},
 									run: (*parser).callonParagraph5,
 									expr: &seqExpr{
-										pos: position{line: 1725, col: 5, offset: 55739},
+										pos: position{line: 1725, col: 5, offset: 55744},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1725, col: 5, offset: 55739},
+												pos: position{line: 1725, col: 5, offset: 55744},
 												run: (*parser).callonParagraph7,
 											},
 											&labeledExpr{
-												pos:   position{line: 1728, col: 5, offset: 55802},
+												pos:   position{line: 1728, col: 5, offset: 55807},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1728, col: 12, offset: 55809},
+													pos: position{line: 1728, col: 12, offset: 55814},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1728, col: 12, offset: 55809},
+															pos: position{line: 1728, col: 12, offset: 55814},
 															run: (*parser).callonParagraph10,
 															expr: &litMatcher{
-																pos:        position{line: 1728, col: 12, offset: 55809},
+																pos:        position{line: 1728, col: 12, offset: 55814},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1730, col: 13, offset: 55865},
+															pos: position{line: 1730, col: 13, offset: 55870},
 															run: (*parser).callonParagraph12,
 															expr: &litMatcher{
-																pos:        position{line: 1730, col: 13, offset: 55865},
+																pos:        position{line: 1730, col: 13, offset: 55870},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1732, col: 13, offset: 55923},
+															pos: position{line: 1732, col: 13, offset: 55928},
 															run: (*parser).callonParagraph14,
 															expr: &litMatcher{
-																pos:        position{line: 1732, col: 13, offset: 55923},
+																pos:        position{line: 1732, col: 13, offset: 55928},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1734, col: 13, offset: 55991},
+															pos: position{line: 1734, col: 13, offset: 55996},
 															run: (*parser).callonParagraph16,
 															expr: &litMatcher{
-																pos:        position{line: 1734, col: 13, offset: 55991},
+																pos:        position{line: 1734, col: 13, offset: 55996},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1736, col: 13, offset: 56055},
+															pos: position{line: 1736, col: 13, offset: 56060},
 															run: (*parser).callonParagraph18,
 															expr: &litMatcher{
-																pos:        position{line: 1736, col: 13, offset: 56055},
+																pos:        position{line: 1736, col: 13, offset: 56060},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1738, col: 13, offset: 56119},
+															pos: position{line: 1738, col: 13, offset: 56124},
 															run: (*parser).callonParagraph20,
 															expr: &andExpr{
-																pos: position{line: 1738, col: 13, offset: 56119},
+																pos: position{line: 1738, col: 13, offset: 56124},
 																expr: &actionExpr{
 																	pos: position{line: 2856, col: 11, offset: 90300},
 																	run: (*parser).callonParagraph22,
@@ -39449,16 +39477,16 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1771, col: 5, offset: 57256},
+							pos:   position{line: 1771, col: 5, offset: 57261},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1784, col: 5, offset: 57605},
+								pos: position{line: 1784, col: 5, offset: 57610},
 								run: (*parser).callonParagraph26,
 								expr: &seqExpr{
-									pos: position{line: 1784, col: 5, offset: 57605},
+									pos: position{line: 1784, col: 5, offset: 57610},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1784, col: 5, offset: 57605},
+											pos:   position{line: 1784, col: 5, offset: 57610},
 											label: "content",
 											expr: &actionExpr{
 												pos: position{line: 2802, col: 14, offset: 88832},
@@ -39476,7 +39504,7 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1785, col: 5, offset: 57629},
+											pos: position{line: 1785, col: 5, offset: 57634},
 											run: (*parser).callonParagraph32,
 										},
 										&choiceExpr{
@@ -39522,15 +39550,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1772, col: 5, offset: 57290},
+							pos:   position{line: 1772, col: 5, offset: 57295},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1772, col: 16, offset: 57301},
+								pos: position{line: 1772, col: 16, offset: 57306},
 								expr: &actionExpr{
-									pos: position{line: 1773, col: 9, offset: 57311},
+									pos: position{line: 1773, col: 9, offset: 57316},
 									run: (*parser).callonParagraph43,
 									expr: &seqExpr{
-										pos: position{line: 1773, col: 9, offset: 57311},
+										pos: position{line: 1773, col: 9, offset: 57316},
 										exprs: []interface{}{
 											&andExpr{
 												pos: position{line: 2869, col: 11, offset: 90573},
@@ -39539,7 +39567,7 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1774, col: 9, offset: 57326},
+												pos: position{line: 1774, col: 9, offset: 57331},
 												expr: &actionExpr{
 													pos: position{line: 677, col: 14, offset: 21489},
 													run: (*parser).callonParagraph48,
@@ -39609,41 +39637,41 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1775, col: 9, offset: 57345},
+												pos: position{line: 1775, col: 9, offset: 57350},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1775, col: 10, offset: 57346},
+													pos:  position{line: 1775, col: 10, offset: 57351},
 													name: "BlockAttributes",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1776, col: 9, offset: 57370},
+												pos:   position{line: 1776, col: 9, offset: 57375},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1776, col: 15, offset: 57376},
+													pos: position{line: 1776, col: 15, offset: 57381},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2462, col: 22, offset: 79212},
+															pos: position{line: 2462, col: 22, offset: 79217},
 															run: (*parser).callonParagraph67,
 															expr: &seqExpr{
-																pos: position{line: 2462, col: 22, offset: 79212},
+																pos: position{line: 2462, col: 22, offset: 79217},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2467, col: 31, offset: 79433},
+																		pos:        position{line: 2467, col: 31, offset: 79438},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2467, col: 36, offset: 79438},
+																		pos: position{line: 2467, col: 36, offset: 79443},
 																		expr: &litMatcher{
-																			pos:        position{line: 2467, col: 37, offset: 79439},
+																			pos:        position{line: 2467, col: 37, offset: 79444},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2462, col: 49, offset: 79239},
+																		pos:   position{line: 2462, col: 49, offset: 79244},
 																		label: "content",
 																		expr: &actionExpr{
 																			pos: position{line: 2798, col: 13, offset: 88765},
@@ -39702,13 +39730,13 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1784, col: 5, offset: 57605},
+															pos: position{line: 1784, col: 5, offset: 57610},
 															run: (*parser).callonParagraph84,
 															expr: &seqExpr{
-																pos: position{line: 1784, col: 5, offset: 57605},
+																pos: position{line: 1784, col: 5, offset: 57610},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1784, col: 5, offset: 57605},
+																		pos:   position{line: 1784, col: 5, offset: 57610},
 																		label: "content",
 																		expr: &actionExpr{
 																			pos: position{line: 2802, col: 14, offset: 88832},
@@ -39726,7 +39754,7 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1785, col: 5, offset: 57629},
+																		pos: position{line: 1785, col: 5, offset: 57634},
 																		run: (*parser).callonParagraph90,
 																	},
 																	&choiceExpr{
@@ -39784,16 +39812,16 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedText",
-			pos:  position{line: 1795, col: 1, offset: 58115},
+			pos:  position{line: 1795, col: 1, offset: 58120},
 			expr: &choiceExpr{
-				pos: position{line: 1795, col: 15, offset: 58129},
+				pos: position{line: 1795, col: 15, offset: 58134},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1795, col: 15, offset: 58129},
+						pos:  position{line: 1795, col: 15, offset: 58134},
 						name: "EscapedQuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1795, col: 35, offset: 58149},
+						pos:  position{line: 1795, col: 35, offset: 58154},
 						name: "UnescapedQuotedText",
 					},
 				},
@@ -39801,65 +39829,65 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedQuotedText",
-			pos:  position{line: 1797, col: 1, offset: 58170},
+			pos:  position{line: 1797, col: 1, offset: 58175},
 			expr: &actionExpr{
-				pos: position{line: 1798, col: 5, offset: 58195},
+				pos: position{line: 1798, col: 5, offset: 58200},
 				run: (*parser).callonEscapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1798, col: 5, offset: 58195},
+					pos: position{line: 1798, col: 5, offset: 58200},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1798, col: 5, offset: 58195},
+							pos:   position{line: 1798, col: 5, offset: 58200},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1798, col: 16, offset: 58206},
+								pos: position{line: 1798, col: 16, offset: 58211},
 								expr: &actionExpr{
-									pos: position{line: 1798, col: 17, offset: 58207},
+									pos: position{line: 1798, col: 17, offset: 58212},
 									run: (*parser).callonEscapedQuotedText5,
 									expr: &ruleRefExpr{
-										pos:  position{line: 1798, col: 17, offset: 58207},
+										pos:  position{line: 1798, col: 17, offset: 58212},
 										name: "LongHandAttributes",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 1801, col: 5, offset: 58275},
+							pos: position{line: 1801, col: 5, offset: 58280},
 							expr: &litMatcher{
-								pos:        position{line: 1801, col: 7, offset: 58277},
+								pos:        position{line: 1801, col: 7, offset: 58282},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1802, col: 5, offset: 58286},
+							pos:   position{line: 1802, col: 5, offset: 58291},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1803, col: 9, offset: 58304},
+								pos: position{line: 1803, col: 9, offset: 58309},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1803, col: 9, offset: 58304},
+										pos:  position{line: 1803, col: 9, offset: 58309},
 										name: "EscapedBoldText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1804, col: 11, offset: 58331},
+										pos:  position{line: 1804, col: 11, offset: 58336},
 										name: "EscapedItalicText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1805, col: 11, offset: 58359},
+										pos:  position{line: 1805, col: 11, offset: 58364},
 										name: "EscapedMonospaceText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1806, col: 11, offset: 58390},
+										pos:  position{line: 1806, col: 11, offset: 58395},
 										name: "EscapedMarkedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1807, col: 11, offset: 58418},
+										pos:  position{line: 1807, col: 11, offset: 58423},
 										name: "EscapedSubscriptText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1808, col: 11, offset: 58449},
+										pos:  position{line: 1808, col: 11, offset: 58454},
 										name: "EscapedSuperscriptText",
 									},
 								},
@@ -39871,36 +39899,36 @@ var g = &grammar{
 		},
 		{
 			name: "UnescapedQuotedText",
-			pos:  position{line: 1813, col: 1, offset: 58569},
+			pos:  position{line: 1813, col: 1, offset: 58574},
 			expr: &actionExpr{
-				pos: position{line: 1814, col: 5, offset: 58611},
+				pos: position{line: 1814, col: 5, offset: 58616},
 				run: (*parser).callonUnescapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1814, col: 5, offset: 58611},
+					pos: position{line: 1814, col: 5, offset: 58616},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1814, col: 5, offset: 58611},
+							pos:   position{line: 1814, col: 5, offset: 58616},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1814, col: 16, offset: 58622},
+								pos: position{line: 1814, col: 16, offset: 58627},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1814, col: 17, offset: 58623},
+									pos:  position{line: 1814, col: 17, offset: 58628},
 									name: "LongHandAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1815, col: 5, offset: 58648},
+							pos:   position{line: 1815, col: 5, offset: 58653},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1815, col: 14, offset: 58657},
+								pos: position{line: 1815, col: 14, offset: 58662},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1815, col: 14, offset: 58657},
+										pos:  position{line: 1815, col: 14, offset: 58662},
 										name: "SingleQuotedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1815, col: 33, offset: 58676},
+										pos:  position{line: 1815, col: 33, offset: 58681},
 										name: "DoubleQuotedText",
 									},
 								},
@@ -39912,32 +39940,32 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedText",
-			pos:  position{line: 1823, col: 1, offset: 58907},
+			pos:  position{line: 1823, col: 1, offset: 58912},
 			expr: &choiceExpr{
-				pos: position{line: 1824, col: 5, offset: 58932},
+				pos: position{line: 1824, col: 5, offset: 58937},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1824, col: 5, offset: 58932},
+						pos:  position{line: 1824, col: 5, offset: 58937},
 						name: "SingleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1825, col: 7, offset: 58959},
+						pos:  position{line: 1825, col: 7, offset: 58964},
 						name: "SingleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1826, col: 7, offset: 58987},
+						pos:  position{line: 1826, col: 7, offset: 58992},
 						name: "SingleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1827, col: 7, offset: 59019},
+						pos:  position{line: 1827, col: 7, offset: 59024},
 						name: "SingleQuoteMarkedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1828, col: 7, offset: 59047},
+						pos:  position{line: 1828, col: 7, offset: 59052},
 						name: "SubscriptText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1829, col: 7, offset: 59068},
+						pos:  position{line: 1829, col: 7, offset: 59073},
 						name: "SuperscriptText",
 					},
 				},
@@ -39945,24 +39973,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedText",
-			pos:  position{line: 1831, col: 1, offset: 59086},
+			pos:  position{line: 1831, col: 1, offset: 59091},
 			expr: &choiceExpr{
-				pos: position{line: 1832, col: 5, offset: 59111},
+				pos: position{line: 1832, col: 5, offset: 59116},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1832, col: 5, offset: 59111},
+						pos:  position{line: 1832, col: 5, offset: 59116},
 						name: "DoubleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1833, col: 7, offset: 59137},
+						pos:  position{line: 1833, col: 7, offset: 59142},
 						name: "DoubleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1834, col: 7, offset: 59165},
+						pos:  position{line: 1834, col: 7, offset: 59170},
 						name: "DoubleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1835, col: 7, offset: 59196},
+						pos:  position{line: 1835, col: 7, offset: 59201},
 						name: "DoubleQuoteMarkedText",
 					},
 				},
@@ -39970,9 +39998,9 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedTextElement",
-			pos:  position{line: 1849, col: 1, offset: 59550},
+			pos:  position{line: 1849, col: 1, offset: 59555},
 			expr: &choiceExpr{
-				pos: position{line: 1850, col: 5, offset: 59576},
+				pos: position{line: 1850, col: 5, offset: 59581},
 				alternatives: []interface{}{
 					&actionExpr{
 						pos: position{line: 2751, col: 5, offset: 87481},
@@ -40055,25 +40083,25 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1852, col: 7, offset: 59639},
+						pos:  position{line: 1852, col: 7, offset: 59644},
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2480, col: 5, offset: 79929},
+						pos: position{line: 2480, col: 5, offset: 79934},
 						run: (*parser).callonQuotedTextElement20,
 						expr: &seqExpr{
-							pos: position{line: 2480, col: 5, offset: 79929},
+							pos: position{line: 2480, col: 5, offset: 79934},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2480, col: 5, offset: 79929},
+									pos:        position{line: 2480, col: 5, offset: 79934},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2480, col: 10, offset: 79934},
+									pos: position{line: 2480, col: 10, offset: 79939},
 									expr: &charClassMatcher{
-										pos:        position{line: 2480, col: 11, offset: 79935},
+										pos:        position{line: 2480, col: 11, offset: 79940},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -40084,29 +40112,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2486, col: 5, offset: 80127},
+						pos: position{line: 2486, col: 5, offset: 80132},
 						run: (*parser).callonQuotedTextElement25,
 						expr: &seqExpr{
-							pos: position{line: 2486, col: 5, offset: 80127},
+							pos: position{line: 2486, col: 5, offset: 80132},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2486, col: 5, offset: 80127},
+									pos: position{line: 2486, col: 5, offset: 80132},
 									run: (*parser).callonQuotedTextElement27,
 								},
 								&andCodeExpr{
-									pos: position{line: 2489, col: 5, offset: 80198},
+									pos: position{line: 2489, col: 5, offset: 80203},
 									run: (*parser).callonQuotedTextElement28,
 								},
 								&litMatcher{
-									pos:        position{line: 2493, col: 5, offset: 80323},
+									pos:        position{line: 2493, col: 5, offset: 80328},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2493, col: 9, offset: 80327},
+									pos: position{line: 2493, col: 9, offset: 80332},
 									expr: &charClassMatcher{
-										pos:        position{line: 2493, col: 10, offset: 80328},
+										pos:        position{line: 2493, col: 10, offset: 80333},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -40602,31 +40630,31 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1857, col: 7, offset: 59806},
+						pos:  position{line: 1857, col: 7, offset: 59811},
 						name: "QuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1858, col: 7, offset: 59853},
+						pos:  position{line: 1858, col: 7, offset: 59858},
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2449, col: 5, offset: 78758},
+						pos: position{line: 2449, col: 5, offset: 78763},
 						run: (*parser).callonQuotedTextElement130,
 						expr: &seqExpr{
-							pos: position{line: 2449, col: 5, offset: 78758},
+							pos: position{line: 2449, col: 5, offset: 78763},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2449, col: 5, offset: 78758},
+									pos: position{line: 2449, col: 5, offset: 78763},
 									run: (*parser).callonQuotedTextElement132,
 								},
 								&labeledExpr{
-									pos:   position{line: 2452, col: 5, offset: 78834},
+									pos:   position{line: 2452, col: 5, offset: 78839},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2453, col: 9, offset: 78852},
+										pos: position{line: 2453, col: 9, offset: 78857},
 										run: (*parser).callonQuotedTextElement134,
 										expr: &charClassMatcher{
-											pos:        position{line: 2453, col: 10, offset: 78853},
+											pos:        position{line: 2453, col: 10, offset: 78858},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -40638,27 +40666,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1198, col: 23, offset: 36972},
+						pos: position{line: 1198, col: 23, offset: 36977},
 						run: (*parser).callonQuotedTextElement136,
 						expr: &seqExpr{
-							pos: position{line: 1198, col: 23, offset: 36972},
+							pos: position{line: 1198, col: 23, offset: 36977},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1196, col: 32, offset: 36940},
+									pos:        position{line: 1196, col: 32, offset: 36945},
 									val:        "�",
 									ignoreCase: false,
 									want:       "\"�\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1198, col: 51, offset: 37000},
+									pos:   position{line: 1198, col: 51, offset: 37005},
 									label: "ref",
 									expr: &actionExpr{
-										pos: position{line: 1198, col: 56, offset: 37005},
+										pos: position{line: 1198, col: 56, offset: 37010},
 										run: (*parser).callonQuotedTextElement140,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1198, col: 56, offset: 37005},
+											pos: position{line: 1198, col: 56, offset: 37010},
 											expr: &charClassMatcher{
-												pos:        position{line: 1198, col: 56, offset: 37005},
+												pos:        position{line: 1198, col: 56, offset: 37010},
 												val:        "[0-9]",
 												ranges:     []rune{'0', '9'},
 												ignoreCase: false,
@@ -40668,7 +40696,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1196, col: 32, offset: 36940},
+									pos:        position{line: 1196, col: 32, offset: 36945},
 									val:        "�",
 									ignoreCase: false,
 									want:       "\"�\"",
@@ -40692,29 +40720,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldText",
-			pos:  position{line: 1876, col: 1, offset: 60323},
+			pos:  position{line: 1876, col: 1, offset: 60328},
 			expr: &actionExpr{
-				pos: position{line: 1877, col: 5, offset: 60351},
+				pos: position{line: 1877, col: 5, offset: 60356},
 				run: (*parser).callonDoubleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1877, col: 5, offset: 60351},
+					pos: position{line: 1877, col: 5, offset: 60356},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1872, col: 38, offset: 60276},
+							pos:        position{line: 1872, col: 38, offset: 60281},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1878, col: 5, offset: 60390},
+							pos:   position{line: 1878, col: 5, offset: 60395},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1878, col: 15, offset: 60400},
+								pos:  position{line: 1878, col: 15, offset: 60405},
 								name: "DoubleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1874, col: 36, offset: 60317},
+							pos:        position{line: 1874, col: 36, offset: 60322},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
@@ -40725,23 +40753,23 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElements",
-			pos:  position{line: 1883, col: 1, offset: 60560},
+			pos:  position{line: 1883, col: 1, offset: 60565},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1883, col: 32, offset: 60591},
+				pos: position{line: 1883, col: 32, offset: 60596},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1883, col: 32, offset: 60591},
+					pos:  position{line: 1883, col: 32, offset: 60596},
 					name: "DoubleQuoteBoldTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteBoldTextElement",
-			pos:  position{line: 1885, col: 1, offset: 60622},
+			pos:  position{line: 1885, col: 1, offset: 60627},
 			expr: &actionExpr{
-				pos: position{line: 1886, col: 5, offset: 60657},
+				pos: position{line: 1886, col: 5, offset: 60662},
 				run: (*parser).callonDoubleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1886, col: 5, offset: 60657},
+					pos: position{line: 1886, col: 5, offset: 60662},
 					exprs: []interface{}{
 						&andExpr{
 							pos: position{line: 2869, col: 11, offset: 90573},
@@ -40750,19 +40778,19 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 1887, col: 5, offset: 60668},
+							pos: position{line: 1887, col: 5, offset: 60673},
 							expr: &litMatcher{
-								pos:        position{line: 1874, col: 36, offset: 60317},
+								pos:        position{line: 1874, col: 36, offset: 60322},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1888, col: 5, offset: 60705},
+							pos:   position{line: 1888, col: 5, offset: 60710},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1888, col: 14, offset: 60714},
+								pos:  position{line: 1888, col: 14, offset: 60719},
 								name: "QuotedTextElement",
 							},
 						},
@@ -40772,29 +40800,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldText",
-			pos:  position{line: 1913, col: 1, offset: 61394},
+			pos:  position{line: 1913, col: 1, offset: 61399},
 			expr: &actionExpr{
-				pos: position{line: 1914, col: 5, offset: 61422},
+				pos: position{line: 1914, col: 5, offset: 61427},
 				run: (*parser).callonSingleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1914, col: 5, offset: 61422},
+					pos: position{line: 1914, col: 5, offset: 61427},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1897, col: 5, offset: 60948},
+							pos:        position{line: 1897, col: 5, offset: 60953},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1898, col: 5, offset: 60957},
+							pos: position{line: 1898, col: 5, offset: 60962},
 							run: (*parser).callonSingleQuoteBoldText4,
 						},
 						&andExpr{
-							pos: position{line: 1902, col: 5, offset: 61075},
+							pos: position{line: 1902, col: 5, offset: 61080},
 							expr: &notExpr{
-								pos: position{line: 1902, col: 7, offset: 61077},
+								pos: position{line: 1902, col: 7, offset: 61082},
 								expr: &litMatcher{
-									pos:        position{line: 1902, col: 8, offset: 61078},
+									pos:        position{line: 1902, col: 8, offset: 61083},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -40802,36 +40830,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1915, col: 5, offset: 61460},
+							pos:   position{line: 1915, col: 5, offset: 61465},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1915, col: 15, offset: 61470},
+								pos:  position{line: 1915, col: 15, offset: 61475},
 								name: "SingleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1905, col: 5, offset: 61198},
+							pos:        position{line: 1905, col: 5, offset: 61203},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&notExpr{
-							pos: position{line: 1906, col: 5, offset: 61207},
+							pos: position{line: 1906, col: 5, offset: 61212},
 							expr: &litMatcher{
-								pos:        position{line: 1906, col: 6, offset: 61208},
+								pos:        position{line: 1906, col: 6, offset: 61213},
 								val:        "*",
 								ignoreCase: false,
 								want:       "\"*\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1907, col: 5, offset: 61271},
+							pos: position{line: 1907, col: 5, offset: 61276},
 							run: (*parser).callonSingleQuoteBoldText13,
 						},
 						&andExpr{
-							pos: position{line: 1911, col: 5, offset: 61380},
+							pos: position{line: 1911, col: 5, offset: 61385},
 							expr: &notExpr{
-								pos: position{line: 1911, col: 7, offset: 61382},
+								pos: position{line: 1911, col: 7, offset: 61387},
 								expr: &charClassMatcher{
 									pos:        position{line: 2742, col: 13, offset: 87334},
 									val:        "[\\pL\\pN]",
@@ -40847,15 +40875,15 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElements",
-			pos:  position{line: 1920, col: 1, offset: 61630},
+			pos:  position{line: 1920, col: 1, offset: 61635},
 			expr: &actionExpr{
-				pos: position{line: 1921, col: 5, offset: 61667},
+				pos: position{line: 1921, col: 5, offset: 61672},
 				run: (*parser).callonSingleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1921, col: 5, offset: 61667},
+					pos: position{line: 1921, col: 5, offset: 61672},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1921, col: 5, offset: 61667},
+							pos: position{line: 1921, col: 5, offset: 61672},
 							expr: &actionExpr{
 								pos: position{line: 2852, col: 10, offset: 90239},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
@@ -40869,18 +40897,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1922, col: 5, offset: 61706},
+							pos:   position{line: 1922, col: 5, offset: 61711},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1922, col: 14, offset: 61715},
+								pos: position{line: 1922, col: 14, offset: 61720},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1922, col: 15, offset: 61716},
+									pos:  position{line: 1922, col: 15, offset: 61721},
 									name: "SingleQuoteBoldTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1923, col: 5, offset: 61750},
+							pos: position{line: 1923, col: 5, offset: 61755},
 							run: (*parser).callonSingleQuoteBoldTextElements9,
 						},
 					},
@@ -40889,12 +40917,12 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElement",
-			pos:  position{line: 1929, col: 1, offset: 61891},
+			pos:  position{line: 1929, col: 1, offset: 61896},
 			expr: &actionExpr{
-				pos: position{line: 1930, col: 5, offset: 61926},
+				pos: position{line: 1930, col: 5, offset: 61931},
 				run: (*parser).callonSingleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1930, col: 5, offset: 61926},
+					pos: position{line: 1930, col: 5, offset: 61931},
 					exprs: []interface{}{
 						&andExpr{
 							pos: position{line: 2869, col: 11, offset: 90573},
@@ -40903,33 +40931,33 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 1931, col: 5, offset: 61954},
+							pos: position{line: 1931, col: 5, offset: 61959},
 							expr: &seqExpr{
-								pos: position{line: 1905, col: 5, offset: 61198},
+								pos: position{line: 1905, col: 5, offset: 61203},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1905, col: 5, offset: 61198},
+										pos:        position{line: 1905, col: 5, offset: 61203},
 										val:        "*",
 										ignoreCase: false,
 										want:       "\"*\"",
 									},
 									&notExpr{
-										pos: position{line: 1906, col: 5, offset: 61207},
+										pos: position{line: 1906, col: 5, offset: 61212},
 										expr: &litMatcher{
-											pos:        position{line: 1906, col: 6, offset: 61208},
+											pos:        position{line: 1906, col: 6, offset: 61213},
 											val:        "*",
 											ignoreCase: false,
 											want:       "\"*\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1907, col: 5, offset: 61271},
+										pos: position{line: 1907, col: 5, offset: 61276},
 										run: (*parser).callonSingleQuoteBoldTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 1911, col: 5, offset: 61380},
+										pos: position{line: 1911, col: 5, offset: 61385},
 										expr: &notExpr{
-											pos: position{line: 1911, col: 7, offset: 61382},
+											pos: position{line: 1911, col: 7, offset: 61387},
 											expr: &charClassMatcher{
 												pos:        position{line: 2742, col: 13, offset: 87334},
 												val:        "[\\pL\\pN]",
@@ -40943,10 +40971,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1932, col: 5, offset: 61991},
+							pos:   position{line: 1932, col: 5, offset: 61996},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1932, col: 14, offset: 62000},
+								pos:  position{line: 1932, col: 14, offset: 62005},
 								name: "QuotedTextElement",
 							},
 						},
@@ -40956,35 +40984,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedBoldText",
-			pos:  position{line: 1937, col: 1, offset: 62088},
+			pos:  position{line: 1937, col: 1, offset: 62093},
 			expr: &choiceExpr{
-				pos: position{line: 1939, col: 5, offset: 62149},
+				pos: position{line: 1939, col: 5, offset: 62154},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1939, col: 5, offset: 62149},
+						pos: position{line: 1939, col: 5, offset: 62154},
 						run: (*parser).callonEscapedBoldText2,
 						expr: &seqExpr{
-							pos: position{line: 1939, col: 5, offset: 62149},
+							pos: position{line: 1939, col: 5, offset: 62154},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1939, col: 5, offset: 62149},
+									pos:   position{line: 1939, col: 5, offset: 62154},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1845, col: 25, offset: 59496},
+										pos: position{line: 1845, col: 25, offset: 59501},
 										run: (*parser).callonEscapedBoldText5,
 										expr: &seqExpr{
-											pos: position{line: 1845, col: 25, offset: 59496},
+											pos: position{line: 1845, col: 25, offset: 59501},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1845, col: 25, offset: 59496},
+													pos:        position{line: 1845, col: 25, offset: 59501},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1845, col: 30, offset: 59501},
+													pos: position{line: 1845, col: 30, offset: 59506},
 													expr: &litMatcher{
-														pos:        position{line: 1845, col: 30, offset: 59501},
+														pos:        position{line: 1845, col: 30, offset: 59506},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -40995,21 +41023,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1939, col: 40, offset: 62184},
+									pos:        position{line: 1939, col: 40, offset: 62189},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1939, col: 45, offset: 62189},
+									pos:   position{line: 1939, col: 45, offset: 62194},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1939, col: 55, offset: 62199},
+										pos:  position{line: 1939, col: 55, offset: 62204},
 										name: "DoubleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1939, col: 84, offset: 62228},
+									pos:        position{line: 1939, col: 84, offset: 62233},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
@@ -41018,21 +41046,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1943, col: 7, offset: 62392},
+						pos: position{line: 1943, col: 7, offset: 62397},
 						run: (*parser).callonEscapedBoldText14,
 						expr: &seqExpr{
-							pos: position{line: 1943, col: 7, offset: 62392},
+							pos: position{line: 1943, col: 7, offset: 62397},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1943, col: 7, offset: 62392},
+									pos:   position{line: 1943, col: 7, offset: 62397},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1841, col: 25, offset: 59423},
+										pos: position{line: 1841, col: 25, offset: 59428},
 										run: (*parser).callonEscapedBoldText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1841, col: 25, offset: 59423},
+											pos: position{line: 1841, col: 25, offset: 59428},
 											expr: &litMatcher{
-												pos:        position{line: 1841, col: 25, offset: 59423},
+												pos:        position{line: 1841, col: 25, offset: 59428},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41041,21 +41069,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1943, col: 42, offset: 62427},
+									pos:        position{line: 1943, col: 42, offset: 62432},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1943, col: 47, offset: 62432},
+									pos:   position{line: 1943, col: 47, offset: 62437},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1943, col: 57, offset: 62442},
+										pos:  position{line: 1943, col: 57, offset: 62447},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1943, col: 86, offset: 62471},
+									pos:        position{line: 1943, col: 86, offset: 62476},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41064,21 +41092,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1948, col: 7, offset: 62673},
+						pos: position{line: 1948, col: 7, offset: 62678},
 						run: (*parser).callonEscapedBoldText24,
 						expr: &seqExpr{
-							pos: position{line: 1948, col: 7, offset: 62673},
+							pos: position{line: 1948, col: 7, offset: 62678},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1948, col: 7, offset: 62673},
+									pos:   position{line: 1948, col: 7, offset: 62678},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1841, col: 25, offset: 59423},
+										pos: position{line: 1841, col: 25, offset: 59428},
 										run: (*parser).callonEscapedBoldText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1841, col: 25, offset: 59423},
+											pos: position{line: 1841, col: 25, offset: 59428},
 											expr: &litMatcher{
-												pos:        position{line: 1841, col: 25, offset: 59423},
+												pos:        position{line: 1841, col: 25, offset: 59428},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41087,21 +41115,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1948, col: 42, offset: 62708},
+									pos:        position{line: 1948, col: 42, offset: 62713},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1948, col: 46, offset: 62712},
+									pos:   position{line: 1948, col: 46, offset: 62717},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1948, col: 56, offset: 62722},
+										pos:  position{line: 1948, col: 56, offset: 62727},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1948, col: 85, offset: 62751},
+									pos:        position{line: 1948, col: 85, offset: 62756},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41114,29 +41142,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicText",
-			pos:  position{line: 1965, col: 1, offset: 63231},
+			pos:  position{line: 1965, col: 1, offset: 63236},
 			expr: &actionExpr{
-				pos: position{line: 1966, col: 5, offset: 63261},
+				pos: position{line: 1966, col: 5, offset: 63266},
 				run: (*parser).callonDoubleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 1966, col: 5, offset: 63261},
+					pos: position{line: 1966, col: 5, offset: 63266},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1961, col: 40, offset: 63182},
+							pos:        position{line: 1961, col: 40, offset: 63187},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1967, col: 5, offset: 63302},
+							pos:   position{line: 1967, col: 5, offset: 63307},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1967, col: 15, offset: 63312},
+								pos:  position{line: 1967, col: 15, offset: 63317},
 								name: "DoubleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1963, col: 38, offset: 63225},
+							pos:        position{line: 1963, col: 38, offset: 63230},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
@@ -41147,23 +41175,23 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElements",
-			pos:  position{line: 1972, col: 1, offset: 63477},
+			pos:  position{line: 1972, col: 1, offset: 63482},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1972, col: 34, offset: 63510},
+				pos: position{line: 1972, col: 34, offset: 63515},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1972, col: 34, offset: 63510},
+					pos:  position{line: 1972, col: 34, offset: 63515},
 					name: "DoubleQuoteItalicTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteItalicTextElement",
-			pos:  position{line: 1974, col: 1, offset: 63542},
+			pos:  position{line: 1974, col: 1, offset: 63547},
 			expr: &actionExpr{
-				pos: position{line: 1975, col: 5, offset: 63579},
+				pos: position{line: 1975, col: 5, offset: 63584},
 				run: (*parser).callonDoubleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1975, col: 5, offset: 63579},
+					pos: position{line: 1975, col: 5, offset: 63584},
 					exprs: []interface{}{
 						&andExpr{
 							pos: position{line: 2869, col: 11, offset: 90573},
@@ -41172,19 +41200,19 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 1976, col: 5, offset: 63590},
+							pos: position{line: 1976, col: 5, offset: 63595},
 							expr: &litMatcher{
-								pos:        position{line: 1963, col: 38, offset: 63225},
+								pos:        position{line: 1963, col: 38, offset: 63230},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1977, col: 5, offset: 63629},
+							pos:   position{line: 1977, col: 5, offset: 63634},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1977, col: 14, offset: 63638},
+								pos:  position{line: 1977, col: 14, offset: 63643},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41194,29 +41222,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicText",
-			pos:  position{line: 2003, col: 1, offset: 64322},
+			pos:  position{line: 2003, col: 1, offset: 64327},
 			expr: &actionExpr{
-				pos: position{line: 2004, col: 5, offset: 64352},
+				pos: position{line: 2004, col: 5, offset: 64357},
 				run: (*parser).callonSingleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2004, col: 5, offset: 64352},
+					pos: position{line: 2004, col: 5, offset: 64357},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1986, col: 5, offset: 63880},
+							pos:        position{line: 1986, col: 5, offset: 63885},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1987, col: 5, offset: 63889},
+							pos: position{line: 1987, col: 5, offset: 63894},
 							run: (*parser).callonSingleQuoteItalicText4,
 						},
 						&andExpr{
-							pos: position{line: 1991, col: 5, offset: 64009},
+							pos: position{line: 1991, col: 5, offset: 64014},
 							expr: &notExpr{
-								pos: position{line: 1991, col: 7, offset: 64011},
+								pos: position{line: 1991, col: 7, offset: 64016},
 								expr: &litMatcher{
-									pos:        position{line: 1991, col: 8, offset: 64012},
+									pos:        position{line: 1991, col: 8, offset: 64017},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -41224,36 +41252,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2005, col: 5, offset: 64392},
+							pos:   position{line: 2005, col: 5, offset: 64397},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2005, col: 15, offset: 64402},
+								pos:  position{line: 2005, col: 15, offset: 64407},
 								name: "SingleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1995, col: 5, offset: 64122},
+							pos:        position{line: 1995, col: 5, offset: 64127},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&notExpr{
-							pos: position{line: 1996, col: 5, offset: 64131},
+							pos: position{line: 1996, col: 5, offset: 64136},
 							expr: &litMatcher{
-								pos:        position{line: 1996, col: 6, offset: 64132},
+								pos:        position{line: 1996, col: 6, offset: 64137},
 								val:        "_",
 								ignoreCase: false,
 								want:       "\"_\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1997, col: 5, offset: 64197},
+							pos: position{line: 1997, col: 5, offset: 64202},
 							run: (*parser).callonSingleQuoteItalicText13,
 						},
 						&andExpr{
-							pos: position{line: 2001, col: 5, offset: 64308},
+							pos: position{line: 2001, col: 5, offset: 64313},
 							expr: &notExpr{
-								pos: position{line: 2001, col: 7, offset: 64310},
+								pos: position{line: 2001, col: 7, offset: 64315},
 								expr: &charClassMatcher{
 									pos:        position{line: 2742, col: 13, offset: 87334},
 									val:        "[\\pL\\pN]",
@@ -41269,15 +41297,15 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElements",
-			pos:  position{line: 2010, col: 1, offset: 64569},
+			pos:  position{line: 2010, col: 1, offset: 64574},
 			expr: &actionExpr{
-				pos: position{line: 2011, col: 5, offset: 64607},
+				pos: position{line: 2011, col: 5, offset: 64612},
 				run: (*parser).callonSingleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2011, col: 5, offset: 64607},
+					pos: position{line: 2011, col: 5, offset: 64612},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2011, col: 5, offset: 64607},
+							pos: position{line: 2011, col: 5, offset: 64612},
 							expr: &actionExpr{
 								pos: position{line: 2852, col: 10, offset: 90239},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
@@ -41291,18 +41319,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2012, col: 5, offset: 64646},
+							pos:   position{line: 2012, col: 5, offset: 64651},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2012, col: 14, offset: 64655},
+								pos: position{line: 2012, col: 14, offset: 64660},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2012, col: 15, offset: 64656},
+									pos:  position{line: 2012, col: 15, offset: 64661},
 									name: "SingleQuoteItalicTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2013, col: 5, offset: 64691},
+							pos: position{line: 2013, col: 5, offset: 64696},
 							run: (*parser).callonSingleQuoteItalicTextElements9,
 						},
 					},
@@ -41311,12 +41339,12 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElement",
-			pos:  position{line: 2019, col: 1, offset: 64832},
+			pos:  position{line: 2019, col: 1, offset: 64837},
 			expr: &actionExpr{
-				pos: position{line: 2020, col: 5, offset: 64869},
+				pos: position{line: 2020, col: 5, offset: 64874},
 				run: (*parser).callonSingleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2020, col: 5, offset: 64869},
+					pos: position{line: 2020, col: 5, offset: 64874},
 					exprs: []interface{}{
 						&andExpr{
 							pos: position{line: 2869, col: 11, offset: 90573},
@@ -41325,33 +41353,33 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2021, col: 5, offset: 64880},
+							pos: position{line: 2021, col: 5, offset: 64885},
 							expr: &seqExpr{
-								pos: position{line: 1995, col: 5, offset: 64122},
+								pos: position{line: 1995, col: 5, offset: 64127},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1995, col: 5, offset: 64122},
+										pos:        position{line: 1995, col: 5, offset: 64127},
 										val:        "_",
 										ignoreCase: false,
 										want:       "\"_\"",
 									},
 									&notExpr{
-										pos: position{line: 1996, col: 5, offset: 64131},
+										pos: position{line: 1996, col: 5, offset: 64136},
 										expr: &litMatcher{
-											pos:        position{line: 1996, col: 6, offset: 64132},
+											pos:        position{line: 1996, col: 6, offset: 64137},
 											val:        "_",
 											ignoreCase: false,
 											want:       "\"_\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1997, col: 5, offset: 64197},
+										pos: position{line: 1997, col: 5, offset: 64202},
 										run: (*parser).callonSingleQuoteItalicTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2001, col: 5, offset: 64308},
+										pos: position{line: 2001, col: 5, offset: 64313},
 										expr: &notExpr{
-											pos: position{line: 2001, col: 7, offset: 64310},
+											pos: position{line: 2001, col: 7, offset: 64315},
 											expr: &charClassMatcher{
 												pos:        position{line: 2742, col: 13, offset: 87334},
 												val:        "[\\pL\\pN]",
@@ -41365,10 +41393,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2022, col: 5, offset: 64919},
+							pos:   position{line: 2022, col: 5, offset: 64924},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2022, col: 14, offset: 64928},
+								pos:  position{line: 2022, col: 14, offset: 64933},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41378,35 +41406,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedItalicText",
-			pos:  position{line: 2027, col: 1, offset: 65016},
+			pos:  position{line: 2027, col: 1, offset: 65021},
 			expr: &choiceExpr{
-				pos: position{line: 2029, col: 5, offset: 65081},
+				pos: position{line: 2029, col: 5, offset: 65086},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2029, col: 5, offset: 65081},
+						pos: position{line: 2029, col: 5, offset: 65086},
 						run: (*parser).callonEscapedItalicText2,
 						expr: &seqExpr{
-							pos: position{line: 2029, col: 5, offset: 65081},
+							pos: position{line: 2029, col: 5, offset: 65086},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2029, col: 5, offset: 65081},
+									pos:   position{line: 2029, col: 5, offset: 65086},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1845, col: 25, offset: 59496},
+										pos: position{line: 1845, col: 25, offset: 59501},
 										run: (*parser).callonEscapedItalicText5,
 										expr: &seqExpr{
-											pos: position{line: 1845, col: 25, offset: 59496},
+											pos: position{line: 1845, col: 25, offset: 59501},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1845, col: 25, offset: 59496},
+													pos:        position{line: 1845, col: 25, offset: 59501},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1845, col: 30, offset: 59501},
+													pos: position{line: 1845, col: 30, offset: 59506},
 													expr: &litMatcher{
-														pos:        position{line: 1845, col: 30, offset: 59501},
+														pos:        position{line: 1845, col: 30, offset: 59506},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -41417,21 +41445,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2029, col: 40, offset: 65116},
+									pos:        position{line: 2029, col: 40, offset: 65121},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2029, col: 45, offset: 65121},
+									pos:   position{line: 2029, col: 45, offset: 65126},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2029, col: 55, offset: 65131},
+										pos:  position{line: 2029, col: 55, offset: 65136},
 										name: "DoubleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2029, col: 86, offset: 65162},
+									pos:        position{line: 2029, col: 86, offset: 65167},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
@@ -41440,21 +41468,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2033, col: 7, offset: 65327},
+						pos: position{line: 2033, col: 7, offset: 65332},
 						run: (*parser).callonEscapedItalicText14,
 						expr: &seqExpr{
-							pos: position{line: 2033, col: 7, offset: 65327},
+							pos: position{line: 2033, col: 7, offset: 65332},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2033, col: 7, offset: 65327},
+									pos:   position{line: 2033, col: 7, offset: 65332},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1841, col: 25, offset: 59423},
+										pos: position{line: 1841, col: 25, offset: 59428},
 										run: (*parser).callonEscapedItalicText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1841, col: 25, offset: 59423},
+											pos: position{line: 1841, col: 25, offset: 59428},
 											expr: &litMatcher{
-												pos:        position{line: 1841, col: 25, offset: 59423},
+												pos:        position{line: 1841, col: 25, offset: 59428},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41463,21 +41491,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2033, col: 42, offset: 65362},
+									pos:        position{line: 2033, col: 42, offset: 65367},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2033, col: 47, offset: 65367},
+									pos:   position{line: 2033, col: 47, offset: 65372},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2033, col: 57, offset: 65377},
+										pos:  position{line: 2033, col: 57, offset: 65382},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2033, col: 88, offset: 65408},
+									pos:        position{line: 2033, col: 88, offset: 65413},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -41486,21 +41514,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2038, col: 7, offset: 65649},
+						pos: position{line: 2038, col: 7, offset: 65654},
 						run: (*parser).callonEscapedItalicText24,
 						expr: &seqExpr{
-							pos: position{line: 2038, col: 7, offset: 65649},
+							pos: position{line: 2038, col: 7, offset: 65654},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2038, col: 7, offset: 65649},
+									pos:   position{line: 2038, col: 7, offset: 65654},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1841, col: 25, offset: 59423},
+										pos: position{line: 1841, col: 25, offset: 59428},
 										run: (*parser).callonEscapedItalicText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1841, col: 25, offset: 59423},
+											pos: position{line: 1841, col: 25, offset: 59428},
 											expr: &litMatcher{
-												pos:        position{line: 1841, col: 25, offset: 59423},
+												pos:        position{line: 1841, col: 25, offset: 59428},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41509,21 +41537,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2038, col: 42, offset: 65684},
+									pos:        position{line: 2038, col: 42, offset: 65689},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2038, col: 46, offset: 65688},
+									pos:   position{line: 2038, col: 46, offset: 65693},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2038, col: 56, offset: 65698},
+										pos:  position{line: 2038, col: 56, offset: 65703},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2038, col: 87, offset: 65729},
+									pos:        position{line: 2038, col: 87, offset: 65734},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -41536,29 +41564,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceText",
-			pos:  position{line: 2055, col: 1, offset: 66293},
+			pos:  position{line: 2055, col: 1, offset: 66298},
 			expr: &actionExpr{
-				pos: position{line: 2056, col: 5, offset: 66326},
+				pos: position{line: 2056, col: 5, offset: 66331},
 				run: (*parser).callonDoubleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2056, col: 5, offset: 66326},
+					pos: position{line: 2056, col: 5, offset: 66331},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2051, col: 43, offset: 66241},
+							pos:        position{line: 2051, col: 43, offset: 66246},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2057, col: 5, offset: 66370},
+							pos:   position{line: 2057, col: 5, offset: 66375},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2057, col: 15, offset: 66380},
+								pos:  position{line: 2057, col: 15, offset: 66385},
 								name: "DoubleQuoteMonospaceTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2053, col: 41, offset: 66287},
+							pos:        position{line: 2053, col: 41, offset: 66292},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
@@ -41569,23 +41597,23 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElements",
-			pos:  position{line: 2062, col: 1, offset: 66555},
+			pos:  position{line: 2062, col: 1, offset: 66560},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 2062, col: 37, offset: 66591},
+				pos: position{line: 2062, col: 37, offset: 66596},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2062, col: 37, offset: 66591},
+					pos:  position{line: 2062, col: 37, offset: 66596},
 					name: "DoubleQuoteMonospaceTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElement",
-			pos:  position{line: 2064, col: 1, offset: 66658},
+			pos:  position{line: 2064, col: 1, offset: 66663},
 			expr: &actionExpr{
-				pos: position{line: 2065, col: 5, offset: 66698},
+				pos: position{line: 2065, col: 5, offset: 66703},
 				run: (*parser).callonDoubleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2065, col: 5, offset: 66698},
+					pos: position{line: 2065, col: 5, offset: 66703},
 					exprs: []interface{}{
 						&andExpr{
 							pos: position{line: 2869, col: 11, offset: 90573},
@@ -41594,19 +41622,19 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2066, col: 5, offset: 66709},
+							pos: position{line: 2066, col: 5, offset: 66714},
 							expr: &litMatcher{
-								pos:        position{line: 2053, col: 41, offset: 66287},
+								pos:        position{line: 2053, col: 41, offset: 66292},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2067, col: 5, offset: 66751},
+							pos:   position{line: 2067, col: 5, offset: 66756},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2067, col: 14, offset: 66760},
+								pos:  position{line: 2067, col: 14, offset: 66765},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41616,31 +41644,31 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextEndDelimiter",
-			pos:  position{line: 2085, col: 1, offset: 67302},
+			pos:  position{line: 2085, col: 1, offset: 67307},
 			expr: &seqExpr{
-				pos: position{line: 2086, col: 5, offset: 67347},
+				pos: position{line: 2086, col: 5, offset: 67352},
 				exprs: []interface{}{
 					&notExpr{
-						pos: position{line: 2086, col: 5, offset: 67347},
+						pos: position{line: 2086, col: 5, offset: 67352},
 						expr: &ruleRefExpr{
-							pos:  position{line: 2086, col: 6, offset: 67348},
+							pos:  position{line: 2086, col: 6, offset: 67353},
 							name: "QuotationMark",
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 2087, col: 5, offset: 67367},
+						pos:        position{line: 2087, col: 5, offset: 67372},
 						val:        "`",
 						ignoreCase: false,
 						want:       "\"`\"",
 					},
 					&andCodeExpr{
-						pos: position{line: 2088, col: 5, offset: 67375},
+						pos: position{line: 2088, col: 5, offset: 67380},
 						run: (*parser).callonSingleQuoteMonospaceTextEndDelimiter5,
 					},
 					&andExpr{
-						pos: position{line: 2092, col: 5, offset: 67489},
+						pos: position{line: 2092, col: 5, offset: 67494},
 						expr: &notExpr{
-							pos: position{line: 2092, col: 7, offset: 67491},
+							pos: position{line: 2092, col: 7, offset: 67496},
 							expr: &charClassMatcher{
 								pos:        position{line: 2742, col: 13, offset: 87334},
 								val:        "[\\pL\\pN]",
@@ -41655,29 +41683,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceText",
-			pos:  position{line: 2095, col: 1, offset: 67508},
+			pos:  position{line: 2095, col: 1, offset: 67513},
 			expr: &actionExpr{
-				pos: position{line: 2096, col: 5, offset: 67541},
+				pos: position{line: 2096, col: 5, offset: 67546},
 				run: (*parser).callonSingleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2096, col: 5, offset: 67541},
+					pos: position{line: 2096, col: 5, offset: 67546},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2078, col: 5, offset: 67104},
+							pos:        position{line: 2078, col: 5, offset: 67109},
 							val:        "`",
 							ignoreCase: false,
 							want:       "\"`\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2079, col: 5, offset: 67113},
+							pos: position{line: 2079, col: 5, offset: 67118},
 							run: (*parser).callonSingleQuoteMonospaceText4,
 						},
 						&andExpr{
-							pos: position{line: 2083, col: 5, offset: 67236},
+							pos: position{line: 2083, col: 5, offset: 67241},
 							expr: &notExpr{
-								pos: position{line: 2083, col: 7, offset: 67238},
+								pos: position{line: 2083, col: 7, offset: 67243},
 								expr: &litMatcher{
-									pos:        position{line: 2083, col: 8, offset: 67239},
+									pos:        position{line: 2083, col: 8, offset: 67244},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -41685,15 +41713,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2097, col: 5, offset: 67585},
+							pos:   position{line: 2097, col: 5, offset: 67590},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2097, col: 15, offset: 67595},
+								pos:  position{line: 2097, col: 15, offset: 67600},
 								name: "SingleQuoteMonospaceTextElements",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 2098, col: 5, offset: 67634},
+							pos:  position{line: 2098, col: 5, offset: 67639},
 							name: "SingleQuoteMonospaceTextEndDelimiter",
 						},
 					},
@@ -41702,15 +41730,15 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElements",
-			pos:  position{line: 2102, col: 1, offset: 67771},
+			pos:  position{line: 2102, col: 1, offset: 67776},
 			expr: &actionExpr{
-				pos: position{line: 2103, col: 5, offset: 67812},
+				pos: position{line: 2103, col: 5, offset: 67817},
 				run: (*parser).callonSingleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2103, col: 5, offset: 67812},
+					pos: position{line: 2103, col: 5, offset: 67817},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2103, col: 5, offset: 67812},
+							pos: position{line: 2103, col: 5, offset: 67817},
 							expr: &actionExpr{
 								pos: position{line: 2852, col: 10, offset: 90239},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
@@ -41724,18 +41752,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2104, col: 5, offset: 67851},
+							pos:   position{line: 2104, col: 5, offset: 67856},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2104, col: 14, offset: 67860},
+								pos: position{line: 2104, col: 14, offset: 67865},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2104, col: 15, offset: 67861},
+									pos:  position{line: 2104, col: 15, offset: 67866},
 									name: "SingleQuoteMonospaceTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2105, col: 5, offset: 67899},
+							pos: position{line: 2105, col: 5, offset: 67904},
 							run: (*parser).callonSingleQuoteMonospaceTextElements9,
 						},
 					},
@@ -41744,12 +41772,12 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElement",
-			pos:  position{line: 2111, col: 1, offset: 68040},
+			pos:  position{line: 2111, col: 1, offset: 68045},
 			expr: &actionExpr{
-				pos: position{line: 2112, col: 5, offset: 68080},
+				pos: position{line: 2112, col: 5, offset: 68085},
 				run: (*parser).callonSingleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2112, col: 5, offset: 68080},
+					pos: position{line: 2112, col: 5, offset: 68085},
 					exprs: []interface{}{
 						&andExpr{
 							pos: position{line: 2869, col: 11, offset: 90573},
@@ -41758,17 +41786,17 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2113, col: 5, offset: 68091},
+							pos: position{line: 2113, col: 5, offset: 68096},
 							expr: &ruleRefExpr{
-								pos:  position{line: 2113, col: 6, offset: 68092},
+								pos:  position{line: 2113, col: 6, offset: 68097},
 								name: "SingleQuoteMonospaceTextEndDelimiter",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2114, col: 5, offset: 68133},
+							pos:   position{line: 2114, col: 5, offset: 68138},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2114, col: 14, offset: 68142},
+								pos:  position{line: 2114, col: 14, offset: 68147},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41778,35 +41806,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMonospaceText",
-			pos:  position{line: 2119, col: 1, offset: 68230},
+			pos:  position{line: 2119, col: 1, offset: 68235},
 			expr: &choiceExpr{
-				pos: position{line: 2121, col: 5, offset: 68301},
+				pos: position{line: 2121, col: 5, offset: 68306},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2121, col: 5, offset: 68301},
+						pos: position{line: 2121, col: 5, offset: 68306},
 						run: (*parser).callonEscapedMonospaceText2,
 						expr: &seqExpr{
-							pos: position{line: 2121, col: 5, offset: 68301},
+							pos: position{line: 2121, col: 5, offset: 68306},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2121, col: 5, offset: 68301},
+									pos:   position{line: 2121, col: 5, offset: 68306},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1845, col: 25, offset: 59496},
+										pos: position{line: 1845, col: 25, offset: 59501},
 										run: (*parser).callonEscapedMonospaceText5,
 										expr: &seqExpr{
-											pos: position{line: 1845, col: 25, offset: 59496},
+											pos: position{line: 1845, col: 25, offset: 59501},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1845, col: 25, offset: 59496},
+													pos:        position{line: 1845, col: 25, offset: 59501},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1845, col: 30, offset: 59501},
+													pos: position{line: 1845, col: 30, offset: 59506},
 													expr: &litMatcher{
-														pos:        position{line: 1845, col: 30, offset: 59501},
+														pos:        position{line: 1845, col: 30, offset: 59506},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -41817,21 +41845,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2121, col: 40, offset: 68336},
+									pos:        position{line: 2121, col: 40, offset: 68341},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2121, col: 45, offset: 68341},
+									pos:   position{line: 2121, col: 45, offset: 68346},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2121, col: 55, offset: 68351},
+										pos:  position{line: 2121, col: 55, offset: 68356},
 										name: "DoubleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2121, col: 89, offset: 68385},
+									pos:        position{line: 2121, col: 89, offset: 68390},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
@@ -41840,21 +41868,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2125, col: 7, offset: 68554},
+						pos: position{line: 2125, col: 7, offset: 68559},
 						run: (*parser).callonEscapedMonospaceText14,
 						expr: &seqExpr{
-							pos: position{line: 2125, col: 7, offset: 68554},
+							pos: position{line: 2125, col: 7, offset: 68559},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2125, col: 7, offset: 68554},
+									pos:   position{line: 2125, col: 7, offset: 68559},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1841, col: 25, offset: 59423},
+										pos: position{line: 1841, col: 25, offset: 59428},
 										run: (*parser).callonEscapedMonospaceText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1841, col: 25, offset: 59423},
+											pos: position{line: 1841, col: 25, offset: 59428},
 											expr: &litMatcher{
-												pos:        position{line: 1841, col: 25, offset: 59423},
+												pos:        position{line: 1841, col: 25, offset: 59428},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41863,21 +41891,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2125, col: 42, offset: 68589},
+									pos:        position{line: 2125, col: 42, offset: 68594},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2125, col: 47, offset: 68594},
+									pos:   position{line: 2125, col: 47, offset: 68599},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2125, col: 57, offset: 68604},
+										pos:  position{line: 2125, col: 57, offset: 68609},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2125, col: 91, offset: 68638},
+									pos:        position{line: 2125, col: 91, offset: 68643},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -41886,21 +41914,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2130, col: 7, offset: 68844},
+						pos: position{line: 2130, col: 7, offset: 68849},
 						run: (*parser).callonEscapedMonospaceText24,
 						expr: &seqExpr{
-							pos: position{line: 2130, col: 7, offset: 68844},
+							pos: position{line: 2130, col: 7, offset: 68849},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2130, col: 7, offset: 68844},
+									pos:   position{line: 2130, col: 7, offset: 68849},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1841, col: 25, offset: 59423},
+										pos: position{line: 1841, col: 25, offset: 59428},
 										run: (*parser).callonEscapedMonospaceText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1841, col: 25, offset: 59423},
+											pos: position{line: 1841, col: 25, offset: 59428},
 											expr: &litMatcher{
-												pos:        position{line: 1841, col: 25, offset: 59423},
+												pos:        position{line: 1841, col: 25, offset: 59428},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41909,21 +41937,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2130, col: 42, offset: 68879},
+									pos:        position{line: 2130, col: 42, offset: 68884},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2130, col: 46, offset: 68883},
+									pos:   position{line: 2130, col: 46, offset: 68888},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2130, col: 56, offset: 68893},
+										pos:  position{line: 2130, col: 56, offset: 68898},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2130, col: 90, offset: 68927},
+									pos:        position{line: 2130, col: 90, offset: 68932},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -41936,29 +41964,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedText",
-			pos:  position{line: 2147, col: 1, offset: 69412},
+			pos:  position{line: 2147, col: 1, offset: 69417},
 			expr: &actionExpr{
-				pos: position{line: 2148, col: 5, offset: 69442},
+				pos: position{line: 2148, col: 5, offset: 69447},
 				run: (*parser).callonDoubleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2148, col: 5, offset: 69442},
+					pos: position{line: 2148, col: 5, offset: 69447},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2143, col: 40, offset: 69363},
+							pos:        position{line: 2143, col: 40, offset: 69368},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2149, col: 5, offset: 69483},
+							pos:   position{line: 2149, col: 5, offset: 69488},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2149, col: 15, offset: 69493},
+								pos:  position{line: 2149, col: 15, offset: 69498},
 								name: "DoubleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2145, col: 38, offset: 69406},
+							pos:        position{line: 2145, col: 38, offset: 69411},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
@@ -41969,23 +41997,23 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElements",
-			pos:  position{line: 2154, col: 1, offset: 69659},
+			pos:  position{line: 2154, col: 1, offset: 69664},
 			expr: &zeroOrMoreExpr{
-				pos: position{line: 2154, col: 34, offset: 69692},
+				pos: position{line: 2154, col: 34, offset: 69697},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2154, col: 34, offset: 69692},
+					pos:  position{line: 2154, col: 34, offset: 69697},
 					name: "DoubleQuoteMarkedTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMarkedTextElement",
-			pos:  position{line: 2156, col: 1, offset: 69723},
+			pos:  position{line: 2156, col: 1, offset: 69728},
 			expr: &actionExpr{
-				pos: position{line: 2157, col: 5, offset: 69792},
+				pos: position{line: 2157, col: 5, offset: 69797},
 				run: (*parser).callonDoubleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2157, col: 5, offset: 69792},
+					pos: position{line: 2157, col: 5, offset: 69797},
 					exprs: []interface{}{
 						&andExpr{
 							pos: position{line: 2869, col: 11, offset: 90573},
@@ -41994,19 +42022,19 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2158, col: 5, offset: 69803},
+							pos: position{line: 2158, col: 5, offset: 69808},
 							expr: &litMatcher{
-								pos:        position{line: 2145, col: 38, offset: 69406},
+								pos:        position{line: 2145, col: 38, offset: 69411},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2159, col: 5, offset: 69842},
+							pos:   position{line: 2159, col: 5, offset: 69847},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2159, col: 14, offset: 69851},
+								pos:  position{line: 2159, col: 14, offset: 69856},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42016,29 +42044,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedText",
-			pos:  position{line: 2184, col: 1, offset: 70533},
+			pos:  position{line: 2184, col: 1, offset: 70538},
 			expr: &actionExpr{
-				pos: position{line: 2185, col: 5, offset: 70563},
+				pos: position{line: 2185, col: 5, offset: 70568},
 				run: (*parser).callonSingleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2185, col: 5, offset: 70563},
+					pos: position{line: 2185, col: 5, offset: 70568},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2168, col: 5, offset: 70099},
+							pos:        position{line: 2168, col: 5, offset: 70104},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2169, col: 5, offset: 70108},
+							pos: position{line: 2169, col: 5, offset: 70113},
 							run: (*parser).callonSingleQuoteMarkedText4,
 						},
 						&andExpr{
-							pos: position{line: 2173, col: 5, offset: 70228},
+							pos: position{line: 2173, col: 5, offset: 70233},
 							expr: &notExpr{
-								pos: position{line: 2173, col: 7, offset: 70230},
+								pos: position{line: 2173, col: 7, offset: 70235},
 								expr: &litMatcher{
-									pos:        position{line: 2173, col: 8, offset: 70231},
+									pos:        position{line: 2173, col: 8, offset: 70236},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -42046,36 +42074,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2186, col: 5, offset: 70603},
+							pos:   position{line: 2186, col: 5, offset: 70608},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2186, col: 15, offset: 70613},
+								pos:  position{line: 2186, col: 15, offset: 70618},
 								name: "SingleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2176, col: 5, offset: 70336},
+							pos:        position{line: 2176, col: 5, offset: 70341},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&notExpr{
-							pos: position{line: 2177, col: 5, offset: 70344},
+							pos: position{line: 2177, col: 5, offset: 70349},
 							expr: &litMatcher{
-								pos:        position{line: 2177, col: 6, offset: 70345},
+								pos:        position{line: 2177, col: 6, offset: 70350},
 								val:        "#",
 								ignoreCase: false,
 								want:       "\"#\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2178, col: 5, offset: 70408},
+							pos: position{line: 2178, col: 5, offset: 70413},
 							run: (*parser).callonSingleQuoteMarkedText13,
 						},
 						&andExpr{
-							pos: position{line: 2182, col: 5, offset: 70519},
+							pos: position{line: 2182, col: 5, offset: 70524},
 							expr: &notExpr{
-								pos: position{line: 2182, col: 7, offset: 70521},
+								pos: position{line: 2182, col: 7, offset: 70526},
 								expr: &charClassMatcher{
 									pos:        position{line: 2742, col: 13, offset: 87334},
 									val:        "[\\pL\\pN]",
@@ -42091,15 +42119,15 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElements",
-			pos:  position{line: 2191, col: 1, offset: 70780},
+			pos:  position{line: 2191, col: 1, offset: 70785},
 			expr: &actionExpr{
-				pos: position{line: 2192, col: 5, offset: 70818},
+				pos: position{line: 2192, col: 5, offset: 70823},
 				run: (*parser).callonSingleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2192, col: 5, offset: 70818},
+					pos: position{line: 2192, col: 5, offset: 70823},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2192, col: 5, offset: 70818},
+							pos: position{line: 2192, col: 5, offset: 70823},
 							expr: &actionExpr{
 								pos: position{line: 2852, col: 10, offset: 90239},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
@@ -42113,18 +42141,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2193, col: 5, offset: 70857},
+							pos:   position{line: 2193, col: 5, offset: 70862},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2193, col: 14, offset: 70866},
+								pos: position{line: 2193, col: 14, offset: 70871},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2193, col: 15, offset: 70867},
+									pos:  position{line: 2193, col: 15, offset: 70872},
 									name: "SingleQuoteMarkedTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2194, col: 5, offset: 70903},
+							pos: position{line: 2194, col: 5, offset: 70908},
 							run: (*parser).callonSingleQuoteMarkedTextElements9,
 						},
 					},
@@ -42133,12 +42161,12 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElement",
-			pos:  position{line: 2200, col: 1, offset: 71044},
+			pos:  position{line: 2200, col: 1, offset: 71049},
 			expr: &actionExpr{
-				pos: position{line: 2201, col: 5, offset: 71081},
+				pos: position{line: 2201, col: 5, offset: 71086},
 				run: (*parser).callonSingleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2201, col: 5, offset: 71081},
+					pos: position{line: 2201, col: 5, offset: 71086},
 					exprs: []interface{}{
 						&andExpr{
 							pos: position{line: 2869, col: 11, offset: 90573},
@@ -42147,33 +42175,33 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2202, col: 5, offset: 71092},
+							pos: position{line: 2202, col: 5, offset: 71097},
 							expr: &seqExpr{
-								pos: position{line: 2176, col: 5, offset: 70336},
+								pos: position{line: 2176, col: 5, offset: 70341},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2176, col: 5, offset: 70336},
+										pos:        position{line: 2176, col: 5, offset: 70341},
 										val:        "#",
 										ignoreCase: false,
 										want:       "\"#\"",
 									},
 									&notExpr{
-										pos: position{line: 2177, col: 5, offset: 70344},
+										pos: position{line: 2177, col: 5, offset: 70349},
 										expr: &litMatcher{
-											pos:        position{line: 2177, col: 6, offset: 70345},
+											pos:        position{line: 2177, col: 6, offset: 70350},
 											val:        "#",
 											ignoreCase: false,
 											want:       "\"#\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2178, col: 5, offset: 70408},
+										pos: position{line: 2178, col: 5, offset: 70413},
 										run: (*parser).callonSingleQuoteMarkedTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2182, col: 5, offset: 70519},
+										pos: position{line: 2182, col: 5, offset: 70524},
 										expr: &notExpr{
-											pos: position{line: 2182, col: 7, offset: 70521},
+											pos: position{line: 2182, col: 7, offset: 70526},
 											expr: &charClassMatcher{
 												pos:        position{line: 2742, col: 13, offset: 87334},
 												val:        "[\\pL\\pN]",
@@ -42187,10 +42215,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2203, col: 5, offset: 71131},
+							pos:   position{line: 2203, col: 5, offset: 71136},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2203, col: 14, offset: 71140},
+								pos:  position{line: 2203, col: 14, offset: 71145},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42200,35 +42228,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMarkedText",
-			pos:  position{line: 2208, col: 1, offset: 71228},
+			pos:  position{line: 2208, col: 1, offset: 71233},
 			expr: &choiceExpr{
-				pos: position{line: 2210, col: 5, offset: 71292},
+				pos: position{line: 2210, col: 5, offset: 71297},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2210, col: 5, offset: 71292},
+						pos: position{line: 2210, col: 5, offset: 71297},
 						run: (*parser).callonEscapedMarkedText2,
 						expr: &seqExpr{
-							pos: position{line: 2210, col: 5, offset: 71292},
+							pos: position{line: 2210, col: 5, offset: 71297},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2210, col: 5, offset: 71292},
+									pos:   position{line: 2210, col: 5, offset: 71297},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1845, col: 25, offset: 59496},
+										pos: position{line: 1845, col: 25, offset: 59501},
 										run: (*parser).callonEscapedMarkedText5,
 										expr: &seqExpr{
-											pos: position{line: 1845, col: 25, offset: 59496},
+											pos: position{line: 1845, col: 25, offset: 59501},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1845, col: 25, offset: 59496},
+													pos:        position{line: 1845, col: 25, offset: 59501},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1845, col: 30, offset: 59501},
+													pos: position{line: 1845, col: 30, offset: 59506},
 													expr: &litMatcher{
-														pos:        position{line: 1845, col: 30, offset: 59501},
+														pos:        position{line: 1845, col: 30, offset: 59506},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42239,21 +42267,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2210, col: 40, offset: 71327},
+									pos:        position{line: 2210, col: 40, offset: 71332},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2210, col: 45, offset: 71332},
+									pos:   position{line: 2210, col: 45, offset: 71337},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2210, col: 55, offset: 71342},
+										pos:  position{line: 2210, col: 55, offset: 71347},
 										name: "DoubleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2210, col: 86, offset: 71373},
+									pos:        position{line: 2210, col: 86, offset: 71378},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
@@ -42262,21 +42290,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2214, col: 7, offset: 71538},
+						pos: position{line: 2214, col: 7, offset: 71543},
 						run: (*parser).callonEscapedMarkedText14,
 						expr: &seqExpr{
-							pos: position{line: 2214, col: 7, offset: 71538},
+							pos: position{line: 2214, col: 7, offset: 71543},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2214, col: 7, offset: 71538},
+									pos:   position{line: 2214, col: 7, offset: 71543},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1841, col: 25, offset: 59423},
+										pos: position{line: 1841, col: 25, offset: 59428},
 										run: (*parser).callonEscapedMarkedText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1841, col: 25, offset: 59423},
+											pos: position{line: 1841, col: 25, offset: 59428},
 											expr: &litMatcher{
-												pos:        position{line: 1841, col: 25, offset: 59423},
+												pos:        position{line: 1841, col: 25, offset: 59428},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42285,21 +42313,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2214, col: 42, offset: 71573},
+									pos:        position{line: 2214, col: 42, offset: 71578},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2214, col: 47, offset: 71578},
+									pos:   position{line: 2214, col: 47, offset: 71583},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2214, col: 57, offset: 71588},
+										pos:  position{line: 2214, col: 57, offset: 71593},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2214, col: 88, offset: 71619},
+									pos:        position{line: 2214, col: 88, offset: 71624},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -42308,21 +42336,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2219, col: 7, offset: 71822},
+						pos: position{line: 2219, col: 7, offset: 71827},
 						run: (*parser).callonEscapedMarkedText24,
 						expr: &seqExpr{
-							pos: position{line: 2219, col: 7, offset: 71822},
+							pos: position{line: 2219, col: 7, offset: 71827},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2219, col: 7, offset: 71822},
+									pos:   position{line: 2219, col: 7, offset: 71827},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1841, col: 25, offset: 59423},
+										pos: position{line: 1841, col: 25, offset: 59428},
 										run: (*parser).callonEscapedMarkedText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1841, col: 25, offset: 59423},
+											pos: position{line: 1841, col: 25, offset: 59428},
 											expr: &litMatcher{
-												pos:        position{line: 1841, col: 25, offset: 59423},
+												pos:        position{line: 1841, col: 25, offset: 59428},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42331,21 +42359,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2219, col: 42, offset: 71857},
+									pos:        position{line: 2219, col: 42, offset: 71862},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2219, col: 46, offset: 71861},
+									pos:   position{line: 2219, col: 46, offset: 71866},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2219, col: 56, offset: 71871},
+										pos:  position{line: 2219, col: 56, offset: 71876},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2219, col: 87, offset: 71902},
+									pos:        position{line: 2219, col: 87, offset: 71907},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -42358,29 +42386,29 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptText",
-			pos:  position{line: 2226, col: 1, offset: 72169},
+			pos:  position{line: 2226, col: 1, offset: 72174},
 			expr: &actionExpr{
-				pos: position{line: 2227, col: 5, offset: 72191},
+				pos: position{line: 2227, col: 5, offset: 72196},
 				run: (*parser).callonSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2227, col: 5, offset: 72191},
+					pos: position{line: 2227, col: 5, offset: 72196},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2233, col: 27, offset: 72406},
+							pos:        position{line: 2233, col: 27, offset: 72411},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2228, col: 5, offset: 72218},
+							pos:   position{line: 2228, col: 5, offset: 72223},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2228, col: 14, offset: 72227},
+								pos:  position{line: 2228, col: 14, offset: 72232},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2233, col: 27, offset: 72406},
+							pos:        position{line: 2233, col: 27, offset: 72411},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -42391,43 +42419,43 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptTextElement",
-			pos:  position{line: 2235, col: 1, offset: 72411},
+			pos:  position{line: 2235, col: 1, offset: 72416},
 			expr: &choiceExpr{
-				pos: position{line: 2235, col: 25, offset: 72435},
+				pos: position{line: 2235, col: 25, offset: 72440},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2235, col: 25, offset: 72435},
+						pos:  position{line: 2235, col: 25, offset: 72440},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2237, col: 21, offset: 72487},
+						pos: position{line: 2237, col: 21, offset: 72492},
 						run: (*parser).callonSubscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2237, col: 21, offset: 72487},
+							pos:   position{line: 2237, col: 21, offset: 72492},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2237, col: 30, offset: 72496},
+								pos: position{line: 2237, col: 30, offset: 72501},
 								expr: &choiceExpr{
-									pos: position{line: 2237, col: 31, offset: 72497},
+									pos: position{line: 2237, col: 31, offset: 72502},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2449, col: 5, offset: 78758},
+											pos: position{line: 2449, col: 5, offset: 78763},
 											run: (*parser).callonSubscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2449, col: 5, offset: 78758},
+												pos: position{line: 2449, col: 5, offset: 78763},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2449, col: 5, offset: 78758},
+														pos: position{line: 2449, col: 5, offset: 78763},
 														run: (*parser).callonSubscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2452, col: 5, offset: 78834},
+														pos:   position{line: 2452, col: 5, offset: 78839},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2453, col: 9, offset: 78852},
+															pos: position{line: 2453, col: 9, offset: 78857},
 															run: (*parser).callonSubscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2453, col: 10, offset: 78853},
+																pos:        position{line: 2453, col: 10, offset: 78858},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -42439,7 +42467,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2237, col: 50, offset: 72516},
+											pos:        position{line: 2237, col: 50, offset: 72521},
 											val:        "[^\\r\\n ~]",
 											chars:      []rune{'\r', '\n', ' ', '~'},
 											ignoreCase: false,
@@ -42455,23 +42483,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2241, col: 1, offset: 72566},
+			pos:  position{line: 2241, col: 1, offset: 72571},
 			expr: &actionExpr{
-				pos: position{line: 2243, col: 5, offset: 72633},
+				pos: position{line: 2243, col: 5, offset: 72638},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2243, col: 5, offset: 72633},
+					pos: position{line: 2243, col: 5, offset: 72638},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2243, col: 5, offset: 72633},
+							pos:   position{line: 2243, col: 5, offset: 72638},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1841, col: 25, offset: 59423},
+								pos: position{line: 1841, col: 25, offset: 59428},
 								run: (*parser).callonEscapedSubscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1841, col: 25, offset: 59423},
+									pos: position{line: 1841, col: 25, offset: 59428},
 									expr: &litMatcher{
-										pos:        position{line: 1841, col: 25, offset: 59423},
+										pos:        position{line: 1841, col: 25, offset: 59428},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -42480,21 +42508,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2233, col: 27, offset: 72406},
+							pos:        position{line: 2233, col: 27, offset: 72411},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2245, col: 5, offset: 72701},
+							pos:   position{line: 2245, col: 5, offset: 72706},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2245, col: 14, offset: 72710},
+								pos:  position{line: 2245, col: 14, offset: 72715},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2233, col: 27, offset: 72406},
+							pos:        position{line: 2233, col: 27, offset: 72411},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -42505,29 +42533,29 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2253, col: 1, offset: 72973},
+			pos:  position{line: 2253, col: 1, offset: 72978},
 			expr: &actionExpr{
-				pos: position{line: 2254, col: 5, offset: 72997},
+				pos: position{line: 2254, col: 5, offset: 73002},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2254, col: 5, offset: 72997},
+					pos: position{line: 2254, col: 5, offset: 73002},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2260, col: 29, offset: 73224},
+							pos:        position{line: 2260, col: 29, offset: 73229},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2255, col: 5, offset: 73027},
+							pos:   position{line: 2255, col: 5, offset: 73032},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2255, col: 14, offset: 73036},
+								pos:  position{line: 2255, col: 14, offset: 73041},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2260, col: 29, offset: 73224},
+							pos:        position{line: 2260, col: 29, offset: 73229},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -42538,43 +42566,43 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2262, col: 1, offset: 73229},
+			pos:  position{line: 2262, col: 1, offset: 73234},
 			expr: &choiceExpr{
-				pos: position{line: 2262, col: 27, offset: 73255},
+				pos: position{line: 2262, col: 27, offset: 73260},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2262, col: 27, offset: 73255},
+						pos:  position{line: 2262, col: 27, offset: 73260},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2264, col: 23, offset: 73311},
+						pos: position{line: 2264, col: 23, offset: 73316},
 						run: (*parser).callonSuperscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2264, col: 23, offset: 73311},
+							pos:   position{line: 2264, col: 23, offset: 73316},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2264, col: 32, offset: 73320},
+								pos: position{line: 2264, col: 32, offset: 73325},
 								expr: &choiceExpr{
-									pos: position{line: 2264, col: 33, offset: 73321},
+									pos: position{line: 2264, col: 33, offset: 73326},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2449, col: 5, offset: 78758},
+											pos: position{line: 2449, col: 5, offset: 78763},
 											run: (*parser).callonSuperscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2449, col: 5, offset: 78758},
+												pos: position{line: 2449, col: 5, offset: 78763},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2449, col: 5, offset: 78758},
+														pos: position{line: 2449, col: 5, offset: 78763},
 														run: (*parser).callonSuperscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2452, col: 5, offset: 78834},
+														pos:   position{line: 2452, col: 5, offset: 78839},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2453, col: 9, offset: 78852},
+															pos: position{line: 2453, col: 9, offset: 78857},
 															run: (*parser).callonSuperscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2453, col: 10, offset: 78853},
+																pos:        position{line: 2453, col: 10, offset: 78858},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -42586,7 +42614,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2264, col: 52, offset: 73340},
+											pos:        position{line: 2264, col: 52, offset: 73345},
 											val:        "[^\\r\\n ^]",
 											chars:      []rune{'\r', '\n', ' ', '^'},
 											ignoreCase: false,
@@ -42602,23 +42630,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2268, col: 1, offset: 73390},
+			pos:  position{line: 2268, col: 1, offset: 73395},
 			expr: &actionExpr{
-				pos: position{line: 2270, col: 5, offset: 73462},
+				pos: position{line: 2270, col: 5, offset: 73467},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2270, col: 5, offset: 73462},
+					pos: position{line: 2270, col: 5, offset: 73467},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2270, col: 5, offset: 73462},
+							pos:   position{line: 2270, col: 5, offset: 73467},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1841, col: 25, offset: 59423},
+								pos: position{line: 1841, col: 25, offset: 59428},
 								run: (*parser).callonEscapedSuperscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1841, col: 25, offset: 59423},
+									pos: position{line: 1841, col: 25, offset: 59428},
 									expr: &litMatcher{
-										pos:        position{line: 1841, col: 25, offset: 59423},
+										pos:        position{line: 1841, col: 25, offset: 59428},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -42627,21 +42655,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2260, col: 29, offset: 73224},
+							pos:        position{line: 2260, col: 29, offset: 73229},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2272, col: 5, offset: 73532},
+							pos:   position{line: 2272, col: 5, offset: 73537},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2272, col: 14, offset: 73541},
+								pos:  position{line: 2272, col: 14, offset: 73546},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2260, col: 29, offset: 73224},
+							pos:        position{line: 2260, col: 29, offset: 73229},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -42652,27 +42680,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2281, col: 1, offset: 74010},
+			pos:  position{line: 2281, col: 1, offset: 74015},
 			expr: &actionExpr{
-				pos: position{line: 2282, col: 5, offset: 74026},
+				pos: position{line: 2282, col: 5, offset: 74031},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2282, col: 5, offset: 74026},
+					pos: position{line: 2282, col: 5, offset: 74031},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2282, col: 5, offset: 74026},
+							pos: position{line: 2282, col: 5, offset: 74031},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2285, col: 5, offset: 74089},
+							pos:   position{line: 2285, col: 5, offset: 74094},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2285, col: 12, offset: 74096},
+								pos: position{line: 2285, col: 12, offset: 74101},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2285, col: 12, offset: 74096},
+									pos: position{line: 2285, col: 12, offset: 74101},
 									expr: &litMatcher{
-										pos:        position{line: 2285, col: 13, offset: 74097},
+										pos:        position{line: 2285, col: 13, offset: 74102},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -42681,7 +42709,7 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2289, col: 5, offset: 74205},
+							pos: position{line: 2289, col: 5, offset: 74210},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
@@ -42699,10 +42727,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2293, col: 12, offset: 74364},
+							pos:   position{line: 2293, col: 12, offset: 74369},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2293, col: 19, offset: 74371},
+								pos:  position{line: 2293, col: 19, offset: 74376},
 								name: "SectionTitle",
 							},
 						},
@@ -42750,24 +42778,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2297, col: 1, offset: 74467},
+			pos:  position{line: 2297, col: 1, offset: 74472},
 			expr: &actionExpr{
-				pos: position{line: 2298, col: 5, offset: 74488},
+				pos: position{line: 2298, col: 5, offset: 74493},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2298, col: 5, offset: 74488},
+					pos: position{line: 2298, col: 5, offset: 74493},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2298, col: 5, offset: 74488},
+							pos: position{line: 2298, col: 5, offset: 74493},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2303, col: 5, offset: 74603},
+							pos:   position{line: 2303, col: 5, offset: 74608},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2303, col: 14, offset: 74612},
+								pos: position{line: 2303, col: 14, offset: 74617},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2303, col: 15, offset: 74613},
+									pos:  position{line: 2303, col: 15, offset: 74618},
 									name: "SectionTitleElement",
 								},
 							},
@@ -42778,15 +42806,15 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2307, col: 1, offset: 74694},
+			pos:  position{line: 2307, col: 1, offset: 74699},
 			expr: &actionExpr{
-				pos: position{line: 2308, col: 5, offset: 74721},
+				pos: position{line: 2308, col: 5, offset: 74726},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2308, col: 5, offset: 74721},
+					pos: position{line: 2308, col: 5, offset: 74726},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2308, col: 5, offset: 74721},
+							pos: position{line: 2308, col: 5, offset: 74726},
 							expr: &choiceExpr{
 								pos: position{line: 2874, col: 8, offset: 90637},
 								alternatives: []interface{}{
@@ -42827,10 +42855,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2309, col: 5, offset: 74730},
+							pos:   position{line: 2309, col: 5, offset: 74735},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2310, col: 9, offset: 74748},
+								pos: position{line: 2310, col: 9, offset: 74753},
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 2751, col: 5, offset: 87481},
@@ -42913,21 +42941,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2480, col: 5, offset: 79929},
+										pos: position{line: 2480, col: 5, offset: 79934},
 										run: (*parser).callonSectionTitleElement31,
 										expr: &seqExpr{
-											pos: position{line: 2480, col: 5, offset: 79929},
+											pos: position{line: 2480, col: 5, offset: 79934},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2480, col: 5, offset: 79929},
+													pos:        position{line: 2480, col: 5, offset: 79934},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2480, col: 10, offset: 79934},
+													pos: position{line: 2480, col: 10, offset: 79939},
 													expr: &charClassMatcher{
-														pos:        position{line: 2480, col: 11, offset: 79935},
+														pos:        position{line: 2480, col: 11, offset: 79940},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -42938,29 +42966,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2486, col: 5, offset: 80127},
+										pos: position{line: 2486, col: 5, offset: 80132},
 										run: (*parser).callonSectionTitleElement36,
 										expr: &seqExpr{
-											pos: position{line: 2486, col: 5, offset: 80127},
+											pos: position{line: 2486, col: 5, offset: 80132},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2486, col: 5, offset: 80127},
+													pos: position{line: 2486, col: 5, offset: 80132},
 													run: (*parser).callonSectionTitleElement38,
 												},
 												&andCodeExpr{
-													pos: position{line: 2489, col: 5, offset: 80198},
+													pos: position{line: 2489, col: 5, offset: 80203},
 													run: (*parser).callonSectionTitleElement39,
 												},
 												&litMatcher{
-													pos:        position{line: 2493, col: 5, offset: 80323},
+													pos:        position{line: 2493, col: 5, offset: 80328},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2493, col: 9, offset: 80327},
+													pos: position{line: 2493, col: 9, offset: 80332},
 													expr: &charClassMatcher{
-														pos:        position{line: 2493, col: 10, offset: 80328},
+														pos:        position{line: 2493, col: 10, offset: 80333},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -42971,7 +42999,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2313, col: 11, offset: 74813},
+										pos:  position{line: 2313, col: 11, offset: 74818},
 										name: "Replacement",
 									},
 									&actionExpr{
@@ -43048,35 +43076,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2315, col: 11, offset: 74886},
+										pos:  position{line: 2315, col: 11, offset: 74891},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2316, col: 11, offset: 74902},
+										pos:  position{line: 2316, col: 11, offset: 74907},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2317, col: 11, offset: 74930},
+										pos:  position{line: 2317, col: 11, offset: 74935},
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2449, col: 5, offset: 78758},
+										pos: position{line: 2449, col: 5, offset: 78763},
 										run: (*parser).callonSectionTitleElement61,
 										expr: &seqExpr{
-											pos: position{line: 2449, col: 5, offset: 78758},
+											pos: position{line: 2449, col: 5, offset: 78763},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2449, col: 5, offset: 78758},
+													pos: position{line: 2449, col: 5, offset: 78763},
 													run: (*parser).callonSectionTitleElement63,
 												},
 												&labeledExpr{
-													pos:   position{line: 2452, col: 5, offset: 78834},
+													pos:   position{line: 2452, col: 5, offset: 78839},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2453, col: 9, offset: 78852},
+														pos: position{line: 2453, col: 9, offset: 78857},
 														run: (*parser).callonSectionTitleElement65,
 														expr: &charClassMatcher{
-															pos:        position{line: 2453, col: 10, offset: 78853},
+															pos:        position{line: 2453, col: 10, offset: 78858},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -43088,7 +43116,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2319, col: 11, offset: 75015},
+										pos:  position{line: 2319, col: 11, offset: 75020},
 										name: "InlineIcon",
 									},
 									&actionExpr{
@@ -43438,27 +43466,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1198, col: 23, offset: 36972},
+										pos: position{line: 1198, col: 23, offset: 36977},
 										run: (*parser).callonSectionTitleElement137,
 										expr: &seqExpr{
-											pos: position{line: 1198, col: 23, offset: 36972},
+											pos: position{line: 1198, col: 23, offset: 36977},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1196, col: 32, offset: 36940},
+													pos:        position{line: 1196, col: 32, offset: 36945},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1198, col: 51, offset: 37000},
+													pos:   position{line: 1198, col: 51, offset: 37005},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1198, col: 56, offset: 37005},
+														pos: position{line: 1198, col: 56, offset: 37010},
 														run: (*parser).callonSectionTitleElement141,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1198, col: 56, offset: 37005},
+															pos: position{line: 1198, col: 56, offset: 37010},
 															expr: &charClassMatcher{
-																pos:        position{line: 1198, col: 56, offset: 37005},
+																pos:        position{line: 1198, col: 56, offset: 37010},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -43468,7 +43496,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1196, col: 32, offset: 36940},
+													pos:        position{line: 1196, col: 32, offset: 36945},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
@@ -43477,17 +43505,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2332, col: 5, offset: 75468},
+										pos: position{line: 2332, col: 5, offset: 75473},
 										run: (*parser).callonSectionTitleElement145,
 										expr: &seqExpr{
-											pos: position{line: 2332, col: 5, offset: 75468},
+											pos: position{line: 2332, col: 5, offset: 75473},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2332, col: 5, offset: 75468},
+													pos: position{line: 2332, col: 5, offset: 75473},
 													run: (*parser).callonSectionTitleElement147,
 												},
 												&labeledExpr{
-													pos:   position{line: 2335, col: 5, offset: 75523},
+													pos:   position{line: 2335, col: 5, offset: 75528},
 													label: "id",
 													expr: &actionExpr{
 														pos: position{line: 404, col: 5, offset: 12337},
@@ -43530,27 +43558,27 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 1198, col: 23, offset: 36972},
+																							pos: position{line: 1198, col: 23, offset: 36977},
 																							run: (*parser).callonSectionTitleElement160,
 																							expr: &seqExpr{
-																								pos: position{line: 1198, col: 23, offset: 36972},
+																								pos: position{line: 1198, col: 23, offset: 36977},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 1196, col: 32, offset: 36940},
+																										pos:        position{line: 1196, col: 32, offset: 36945},
 																										val:        "�",
 																										ignoreCase: false,
 																										want:       "\"�\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1198, col: 51, offset: 37000},
+																										pos:   position{line: 1198, col: 51, offset: 37005},
 																										label: "ref",
 																										expr: &actionExpr{
-																											pos: position{line: 1198, col: 56, offset: 37005},
+																											pos: position{line: 1198, col: 56, offset: 37010},
 																											run: (*parser).callonSectionTitleElement164,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1198, col: 56, offset: 37005},
+																												pos: position{line: 1198, col: 56, offset: 37010},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1198, col: 56, offset: 37005},
+																													pos:        position{line: 1198, col: 56, offset: 37010},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -43560,7 +43588,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1196, col: 32, offset: 36940},
+																										pos:        position{line: 1196, col: 32, offset: 36945},
 																										val:        "�",
 																										ignoreCase: false,
 																										want:       "\"�\"",
@@ -43941,7 +43969,7 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2335, col: 26, offset: 75544},
+													pos: position{line: 2335, col: 26, offset: 75549},
 													expr: &actionExpr{
 														pos: position{line: 2852, col: 10, offset: 90239},
 														run: (*parser).callonSectionTitleElement241,
@@ -43955,7 +43983,7 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 2335, col: 33, offset: 75551},
+													pos: position{line: 2335, col: 33, offset: 75556},
 													expr: &choiceExpr{
 														pos: position{line: 2874, col: 8, offset: 90637},
 														alternatives: []interface{}{
@@ -43999,19 +44027,19 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1253, col: 5, offset: 38732},
+										pos: position{line: 1253, col: 5, offset: 38737},
 										run: (*parser).callonSectionTitleElement252,
 										expr: &seqExpr{
-											pos: position{line: 1253, col: 5, offset: 38732},
+											pos: position{line: 1253, col: 5, offset: 38737},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1253, col: 5, offset: 38732},
+													pos:        position{line: 1253, col: 5, offset: 38737},
 													val:        "\\[[",
 													ignoreCase: false,
 													want:       "\"\\\\[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1253, col: 14, offset: 38741},
+													pos:   position{line: 1253, col: 14, offset: 38746},
 													label: "id",
 													expr: &actionExpr{
 														pos: position{line: 2837, col: 7, offset: 89891},
@@ -44029,7 +44057,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1253, col: 22, offset: 38749},
+													pos:        position{line: 1253, col: 22, offset: 38754},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -44038,19 +44066,19 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1258, col: 5, offset: 38868},
+										pos: position{line: 1258, col: 5, offset: 38873},
 										run: (*parser).callonSectionTitleElement260,
 										expr: &seqExpr{
-											pos: position{line: 1258, col: 5, offset: 38868},
+											pos: position{line: 1258, col: 5, offset: 38873},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1258, col: 5, offset: 38868},
+													pos:        position{line: 1258, col: 5, offset: 38873},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1258, col: 10, offset: 38873},
+													pos:   position{line: 1258, col: 10, offset: 38878},
 													label: "id",
 													expr: &actionExpr{
 														pos: position{line: 2837, col: 7, offset: 89891},
@@ -44068,7 +44096,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1258, col: 18, offset: 38881},
+													pos:        position{line: 1258, col: 18, offset: 38886},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -44077,7 +44105,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2324, col: 11, offset: 75269},
+										pos:  position{line: 2324, col: 11, offset: 75274},
 										name: "InlineFootnote",
 									},
 									&actionExpr{
@@ -44100,23 +44128,23 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2345, col: 1, offset: 75813},
+			pos:  position{line: 2345, col: 1, offset: 75818},
 			expr: &actionExpr{
-				pos: position{line: 2346, col: 5, offset: 75900},
+				pos: position{line: 2346, col: 5, offset: 75905},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2346, col: 5, offset: 75900},
+					pos: position{line: 2346, col: 5, offset: 75905},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2346, col: 5, offset: 75900},
+							pos:   position{line: 2346, col: 5, offset: 75905},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2346, col: 14, offset: 75909},
+								pos: position{line: 2346, col: 14, offset: 75914},
 								expr: &actionExpr{
-									pos: position{line: 2348, col: 9, offset: 75935},
+									pos: position{line: 2348, col: 9, offset: 75940},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2348, col: 9, offset: 75935},
+										pos: position{line: 2348, col: 9, offset: 75940},
 										exprs: []interface{}{
 											&andExpr{
 												pos: position{line: 2869, col: 11, offset: 90573},
@@ -44125,10 +44153,10 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2349, col: 9, offset: 75950},
+												pos:   position{line: 2349, col: 9, offset: 75955},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2350, col: 13, offset: 75972},
+													pos: position{line: 2350, col: 13, offset: 75977},
 													alternatives: []interface{}{
 														&actionExpr{
 															pos: position{line: 2751, col: 5, offset: 87481},
@@ -44211,25 +44239,25 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2352, col: 15, offset: 76018},
+															pos:  position{line: 2352, col: 15, offset: 76023},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2480, col: 5, offset: 79929},
+															pos: position{line: 2480, col: 5, offset: 79934},
 															run: (*parser).callonNormalGroup29,
 															expr: &seqExpr{
-																pos: position{line: 2480, col: 5, offset: 79929},
+																pos: position{line: 2480, col: 5, offset: 79934},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2480, col: 5, offset: 79929},
+																		pos:        position{line: 2480, col: 5, offset: 79934},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2480, col: 10, offset: 79934},
+																		pos: position{line: 2480, col: 10, offset: 79939},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2480, col: 11, offset: 79935},
+																			pos:        position{line: 2480, col: 11, offset: 79940},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -44240,29 +44268,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2486, col: 5, offset: 80127},
+															pos: position{line: 2486, col: 5, offset: 80132},
 															run: (*parser).callonNormalGroup34,
 															expr: &seqExpr{
-																pos: position{line: 2486, col: 5, offset: 80127},
+																pos: position{line: 2486, col: 5, offset: 80132},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2486, col: 5, offset: 80127},
+																		pos: position{line: 2486, col: 5, offset: 80132},
 																		run: (*parser).callonNormalGroup36,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2489, col: 5, offset: 80198},
+																		pos: position{line: 2489, col: 5, offset: 80203},
 																		run: (*parser).callonNormalGroup37,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2493, col: 5, offset: 80323},
+																		pos:        position{line: 2493, col: 5, offset: 80328},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2493, col: 9, offset: 80327},
+																		pos: position{line: 2493, col: 9, offset: 80332},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2493, col: 10, offset: 80328},
+																			pos:        position{line: 2493, col: 10, offset: 80333},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -44719,35 +44747,35 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2357, col: 15, offset: 76185},
+															pos:  position{line: 2357, col: 15, offset: 76190},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2358, col: 15, offset: 76205},
+															pos:  position{line: 2358, col: 15, offset: 76210},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2359, col: 15, offset: 76294},
+															pos:  position{line: 2359, col: 15, offset: 76299},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2449, col: 5, offset: 78758},
+															pos: position{line: 2449, col: 5, offset: 78763},
 															run: (*parser).callonNormalGroup132,
 															expr: &seqExpr{
-																pos: position{line: 2449, col: 5, offset: 78758},
+																pos: position{line: 2449, col: 5, offset: 78763},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2449, col: 5, offset: 78758},
+																		pos: position{line: 2449, col: 5, offset: 78763},
 																		run: (*parser).callonNormalGroup134,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2452, col: 5, offset: 78834},
+																		pos:   position{line: 2452, col: 5, offset: 78839},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2453, col: 9, offset: 78852},
+																			pos: position{line: 2453, col: 9, offset: 78857},
 																			run: (*parser).callonNormalGroup136,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2453, col: 10, offset: 78853},
+																				pos:        position{line: 2453, col: 10, offset: 78858},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -44759,27 +44787,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1206, col: 5, offset: 37418},
+															pos: position{line: 1206, col: 5, offset: 37423},
 															run: (*parser).callonNormalGroup138,
 															expr: &seqExpr{
-																pos: position{line: 1206, col: 5, offset: 37418},
+																pos: position{line: 1206, col: 5, offset: 37423},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1206, col: 5, offset: 37418},
+																		pos: position{line: 1206, col: 5, offset: 37423},
 																		run: (*parser).callonNormalGroup140,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1209, col: 5, offset: 37494},
+																		pos:        position{line: 1209, col: 5, offset: 37499},
 																		val:        "+",
 																		ignoreCase: false,
 																		want:       "\"+\"",
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1210, col: 5, offset: 37502},
+																		pos: position{line: 1210, col: 5, offset: 37507},
 																		run: (*parser).callonNormalGroup142,
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1214, col: 5, offset: 37589},
+																		pos: position{line: 1214, col: 5, offset: 37594},
 																		expr: &actionExpr{
 																			pos: position{line: 2852, col: 10, offset: 90239},
 																			run: (*parser).callonNormalGroup144,
@@ -44793,7 +44821,7 @@ var g = &grammar{
 																		},
 																	},
 																	&andExpr{
-																		pos: position{line: 1214, col: 12, offset: 37596},
+																		pos: position{line: 1214, col: 12, offset: 37601},
 																		expr: &choiceExpr{
 																			pos: position{line: 2874, col: 8, offset: 90637},
 																			alternatives: []interface{}{
@@ -44837,31 +44865,31 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2362, col: 15, offset: 76476},
+															pos:  position{line: 2362, col: 15, offset: 76481},
 															name: "InlinePassthrough",
 														},
 														&actionExpr{
-															pos: position{line: 1198, col: 23, offset: 36972},
+															pos: position{line: 1198, col: 23, offset: 36977},
 															run: (*parser).callonNormalGroup156,
 															expr: &seqExpr{
-																pos: position{line: 1198, col: 23, offset: 36972},
+																pos: position{line: 1198, col: 23, offset: 36977},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1196, col: 32, offset: 36940},
+																		pos:        position{line: 1196, col: 32, offset: 36945},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1198, col: 51, offset: 37000},
+																		pos:   position{line: 1198, col: 51, offset: 37005},
 																		label: "ref",
 																		expr: &actionExpr{
-																			pos: position{line: 1198, col: 56, offset: 37005},
+																			pos: position{line: 1198, col: 56, offset: 37010},
 																			run: (*parser).callonNormalGroup160,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1198, col: 56, offset: 37005},
+																				pos: position{line: 1198, col: 56, offset: 37010},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1198, col: 56, offset: 37005},
+																					pos:        position{line: 1198, col: 56, offset: 37010},
 																					val:        "[0-9]",
 																					ranges:     []rune{'0', '9'},
 																					ignoreCase: false,
@@ -44871,7 +44899,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1196, col: 32, offset: 36940},
+																		pos:        position{line: 1196, col: 32, offset: 36945},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
@@ -44910,20 +44938,20 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2373, col: 1, offset: 76914},
+			pos:  position{line: 2373, col: 1, offset: 76919},
 			expr: &actionExpr{
-				pos: position{line: 2374, col: 5, offset: 76947},
+				pos: position{line: 2374, col: 5, offset: 76952},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2374, col: 5, offset: 76947},
+					pos: position{line: 2374, col: 5, offset: 76952},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2374, col: 5, offset: 76947},
+							pos:   position{line: 2374, col: 5, offset: 76952},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2374, col: 14, offset: 76956},
+								pos: position{line: 2374, col: 14, offset: 76961},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2374, col: 15, offset: 76957},
+									pos:  position{line: 2374, col: 15, offset: 76962},
 									name: "AttributeStructuredValueElement",
 								},
 							},
@@ -44940,12 +44968,12 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2378, col: 1, offset: 77054},
+			pos:  position{line: 2378, col: 1, offset: 77059},
 			expr: &actionExpr{
-				pos: position{line: 2379, col: 5, offset: 77094},
+				pos: position{line: 2379, col: 5, offset: 77099},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2379, col: 5, offset: 77094},
+					pos: position{line: 2379, col: 5, offset: 77099},
 					exprs: []interface{}{
 						&andExpr{
 							pos: position{line: 2869, col: 11, offset: 90573},
@@ -44954,10 +44982,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2380, col: 5, offset: 77105},
+							pos:   position{line: 2380, col: 5, offset: 77110},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2381, col: 9, offset: 77123},
+								pos: position{line: 2381, col: 9, offset: 77128},
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 2751, col: 5, offset: 87481},
@@ -45037,7 +45065,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2383, col: 11, offset: 77161},
+										pos:  position{line: 2383, col: 11, offset: 77166},
 										name: "Replacement",
 									},
 									&actionExpr{
@@ -45114,31 +45142,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2385, col: 11, offset: 77234},
+										pos:  position{line: 2385, col: 11, offset: 77239},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2386, col: 11, offset: 77250},
+										pos:  position{line: 2386, col: 11, offset: 77255},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2449, col: 5, offset: 78758},
+										pos: position{line: 2449, col: 5, offset: 78763},
 										run: (*parser).callonAttributeStructuredValueElement40,
 										expr: &seqExpr{
-											pos: position{line: 2449, col: 5, offset: 78758},
+											pos: position{line: 2449, col: 5, offset: 78763},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2449, col: 5, offset: 78758},
+													pos: position{line: 2449, col: 5, offset: 78763},
 													run: (*parser).callonAttributeStructuredValueElement42,
 												},
 												&labeledExpr{
-													pos:   position{line: 2452, col: 5, offset: 78834},
+													pos:   position{line: 2452, col: 5, offset: 78839},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2453, col: 9, offset: 78852},
+														pos: position{line: 2453, col: 9, offset: 78857},
 														run: (*parser).callonAttributeStructuredValueElement44,
 														expr: &charClassMatcher{
-															pos:        position{line: 2453, col: 10, offset: 78853},
+															pos:        position{line: 2453, col: 10, offset: 78858},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -45150,27 +45178,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1198, col: 23, offset: 36972},
+										pos: position{line: 1198, col: 23, offset: 36977},
 										run: (*parser).callonAttributeStructuredValueElement46,
 										expr: &seqExpr{
-											pos: position{line: 1198, col: 23, offset: 36972},
+											pos: position{line: 1198, col: 23, offset: 36977},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1196, col: 32, offset: 36940},
+													pos:        position{line: 1196, col: 32, offset: 36945},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1198, col: 51, offset: 37000},
+													pos:   position{line: 1198, col: 51, offset: 37005},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1198, col: 56, offset: 37005},
+														pos: position{line: 1198, col: 56, offset: 37010},
 														run: (*parser).callonAttributeStructuredValueElement50,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1198, col: 56, offset: 37005},
+															pos: position{line: 1198, col: 56, offset: 37010},
 															expr: &charClassMatcher{
-																pos:        position{line: 1198, col: 56, offset: 37005},
+																pos:        position{line: 1198, col: 56, offset: 37010},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -45180,7 +45208,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1196, col: 32, offset: 36940},
+													pos:        position{line: 1196, col: 32, offset: 36945},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
@@ -45235,65 +45263,65 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2397, col: 1, offset: 77520},
+			pos:  position{line: 2397, col: 1, offset: 77525},
 			expr: &actionExpr{
-				pos: position{line: 2399, col: 5, offset: 77602},
+				pos: position{line: 2399, col: 5, offset: 77607},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2399, col: 5, offset: 77602},
+					pos: position{line: 2399, col: 5, offset: 77607},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2399, col: 5, offset: 77602},
+							pos: position{line: 2399, col: 5, offset: 77607},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2402, col: 5, offset: 77667},
+							pos:   position{line: 2402, col: 5, offset: 77672},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2403, col: 9, offset: 77685},
+								pos: position{line: 2403, col: 9, offset: 77690},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2403, col: 9, offset: 77685},
+										pos:  position{line: 2403, col: 9, offset: 77690},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2404, col: 11, offset: 77706},
+										pos:  position{line: 2404, col: 11, offset: 77711},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2405, col: 11, offset: 77729},
+										pos:  position{line: 2405, col: 11, offset: 77734},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2406, col: 11, offset: 77745},
+										pos:  position{line: 2406, col: 11, offset: 77750},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2407, col: 11, offset: 77774},
+										pos:  position{line: 2407, col: 11, offset: 77779},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2408, col: 11, offset: 77800},
+										pos:  position{line: 2408, col: 11, offset: 77805},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2409, col: 11, offset: 77826},
+										pos:  position{line: 2409, col: 11, offset: 77831},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
-										pos: position{line: 1253, col: 5, offset: 38732},
+										pos: position{line: 1253, col: 5, offset: 38737},
 										run: (*parser).callonInlineMacro13,
 										expr: &seqExpr{
-											pos: position{line: 1253, col: 5, offset: 38732},
+											pos: position{line: 1253, col: 5, offset: 38737},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1253, col: 5, offset: 38732},
+													pos:        position{line: 1253, col: 5, offset: 38737},
 													val:        "\\[[",
 													ignoreCase: false,
 													want:       "\"\\\\[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1253, col: 14, offset: 38741},
+													pos:   position{line: 1253, col: 14, offset: 38746},
 													label: "id",
 													expr: &actionExpr{
 														pos: position{line: 2837, col: 7, offset: 89891},
@@ -45311,7 +45339,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1253, col: 22, offset: 38749},
+													pos:        position{line: 1253, col: 22, offset: 38754},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -45320,19 +45348,19 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1258, col: 5, offset: 38868},
+										pos: position{line: 1258, col: 5, offset: 38873},
 										run: (*parser).callonInlineMacro21,
 										expr: &seqExpr{
-											pos: position{line: 1258, col: 5, offset: 38868},
+											pos: position{line: 1258, col: 5, offset: 38873},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1258, col: 5, offset: 38868},
+													pos:        position{line: 1258, col: 5, offset: 38873},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1258, col: 10, offset: 38873},
+													pos:   position{line: 1258, col: 10, offset: 38878},
 													label: "id",
 													expr: &actionExpr{
 														pos: position{line: 2837, col: 7, offset: 89891},
@@ -45350,7 +45378,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1258, col: 18, offset: 38881},
+													pos:        position{line: 1258, col: 18, offset: 38886},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -45359,27 +45387,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1297, col: 23, offset: 40357},
+										pos: position{line: 1297, col: 23, offset: 40362},
 										run: (*parser).callonInlineMacro29,
 										expr: &seqExpr{
-											pos: position{line: 1297, col: 23, offset: 40357},
+											pos: position{line: 1297, col: 23, offset: 40362},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1297, col: 23, offset: 40357},
+													pos:        position{line: 1297, col: 23, offset: 40362},
 													val:        "(((",
 													ignoreCase: false,
 													want:       "\"(((\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1297, col: 29, offset: 40363},
+													pos:   position{line: 1297, col: 29, offset: 40368},
 													label: "term1",
 													expr: &actionExpr{
-														pos: position{line: 1304, col: 30, offset: 40694},
+														pos: position{line: 1304, col: 30, offset: 40699},
 														run: (*parser).callonInlineMacro33,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1304, col: 30, offset: 40694},
+															pos: position{line: 1304, col: 30, offset: 40699},
 															expr: &choiceExpr{
-																pos: position{line: 1304, col: 31, offset: 40695},
+																pos: position{line: 1304, col: 31, offset: 40700},
 																alternatives: []interface{}{
 																	&charClassMatcher{
 																		pos:        position{line: 2742, col: 13, offset: 87334},
@@ -45405,18 +45433,18 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1298, col: 5, offset: 40402},
+													pos:   position{line: 1298, col: 5, offset: 40407},
 													label: "term2",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1298, col: 11, offset: 40408},
+														pos: position{line: 1298, col: 11, offset: 40413},
 														expr: &actionExpr{
-															pos: position{line: 1298, col: 12, offset: 40409},
+															pos: position{line: 1298, col: 12, offset: 40414},
 															run: (*parser).callonInlineMacro41,
 															expr: &seqExpr{
-																pos: position{line: 1298, col: 12, offset: 40409},
+																pos: position{line: 1298, col: 12, offset: 40414},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1298, col: 12, offset: 40409},
+																		pos: position{line: 1298, col: 12, offset: 40414},
 																		expr: &actionExpr{
 																			pos: position{line: 2852, col: 10, offset: 90239},
 																			run: (*parser).callonInlineMacro44,
@@ -45430,13 +45458,13 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1298, col: 19, offset: 40416},
+																		pos:        position{line: 1298, col: 19, offset: 40421},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1298, col: 23, offset: 40420},
+																		pos: position{line: 1298, col: 23, offset: 40425},
 																		expr: &actionExpr{
 																			pos: position{line: 2852, col: 10, offset: 90239},
 																			run: (*parser).callonInlineMacro48,
@@ -45450,15 +45478,15 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1298, col: 30, offset: 40427},
+																		pos:   position{line: 1298, col: 30, offset: 40432},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1304, col: 30, offset: 40694},
+																			pos: position{line: 1304, col: 30, offset: 40699},
 																			run: (*parser).callonInlineMacro51,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1304, col: 30, offset: 40694},
+																				pos: position{line: 1304, col: 30, offset: 40699},
 																				expr: &choiceExpr{
-																					pos: position{line: 1304, col: 31, offset: 40695},
+																					pos: position{line: 1304, col: 31, offset: 40700},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
 																							pos:        position{line: 2742, col: 13, offset: 87334},
@@ -45489,18 +45517,18 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1299, col: 5, offset: 40494},
+													pos:   position{line: 1299, col: 5, offset: 40499},
 													label: "term3",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1299, col: 11, offset: 40500},
+														pos: position{line: 1299, col: 11, offset: 40505},
 														expr: &actionExpr{
-															pos: position{line: 1299, col: 12, offset: 40501},
+															pos: position{line: 1299, col: 12, offset: 40506},
 															run: (*parser).callonInlineMacro59,
 															expr: &seqExpr{
-																pos: position{line: 1299, col: 12, offset: 40501},
+																pos: position{line: 1299, col: 12, offset: 40506},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1299, col: 12, offset: 40501},
+																		pos: position{line: 1299, col: 12, offset: 40506},
 																		expr: &actionExpr{
 																			pos: position{line: 2852, col: 10, offset: 90239},
 																			run: (*parser).callonInlineMacro62,
@@ -45514,13 +45542,13 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1299, col: 19, offset: 40508},
+																		pos:        position{line: 1299, col: 19, offset: 40513},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1299, col: 23, offset: 40512},
+																		pos: position{line: 1299, col: 23, offset: 40517},
 																		expr: &actionExpr{
 																			pos: position{line: 2852, col: 10, offset: 90239},
 																			run: (*parser).callonInlineMacro66,
@@ -45534,15 +45562,15 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1299, col: 30, offset: 40519},
+																		pos:   position{line: 1299, col: 30, offset: 40524},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1304, col: 30, offset: 40694},
+																			pos: position{line: 1304, col: 30, offset: 40699},
 																			run: (*parser).callonInlineMacro69,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1304, col: 30, offset: 40694},
+																				pos: position{line: 1304, col: 30, offset: 40699},
 																				expr: &choiceExpr{
-																					pos: position{line: 1304, col: 31, offset: 40695},
+																					pos: position{line: 1304, col: 31, offset: 40700},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
 																							pos:        position{line: 2742, col: 13, offset: 87334},
@@ -45573,7 +45601,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1300, col: 5, offset: 40586},
+													pos:        position{line: 1300, col: 5, offset: 40591},
 													val:        ")))",
 													ignoreCase: false,
 													want:       "\")))\"",
@@ -45582,15 +45610,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2412, col: 11, offset: 77905},
+										pos:  position{line: 2412, col: 11, offset: 77910},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2413, col: 11, offset: 77925},
+										pos:  position{line: 2413, col: 11, offset: 77930},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2414, col: 11, offset: 77948},
+										pos:  position{line: 2414, col: 11, offset: 77953},
 										name: "InlineMenu",
 									},
 								},
@@ -45602,75 +45630,75 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2418, col: 1, offset: 78005},
+			pos:  position{line: 2418, col: 1, offset: 78010},
 			expr: &actionExpr{
-				pos: position{line: 2420, col: 5, offset: 78093},
+				pos: position{line: 2420, col: 5, offset: 78098},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2420, col: 5, offset: 78093},
+					pos: position{line: 2420, col: 5, offset: 78098},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2420, col: 5, offset: 78093},
+							pos: position{line: 2420, col: 5, offset: 78098},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2423, col: 5, offset: 78170},
+							pos:   position{line: 2423, col: 5, offset: 78175},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2424, col: 9, offset: 78188},
+								pos: position{line: 2424, col: 9, offset: 78193},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1379, col: 26, offset: 43964},
+										pos: position{line: 1379, col: 26, offset: 43969},
 										run: (*parser).callonInlinePassthrough6,
 										expr: &seqExpr{
-											pos: position{line: 1379, col: 26, offset: 43964},
+											pos: position{line: 1379, col: 26, offset: 43969},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1377, col: 32, offset: 43932},
+													pos:        position{line: 1377, col: 32, offset: 43937},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1379, col: 54, offset: 43992},
+													pos:   position{line: 1379, col: 54, offset: 43997},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1383, col: 33, offset: 44205},
+														pos: position{line: 1383, col: 33, offset: 44210},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1383, col: 34, offset: 44206},
+																pos: position{line: 1383, col: 34, offset: 44211},
 																run: (*parser).callonInlinePassthrough11,
 																expr: &zeroOrMoreExpr{
-																	pos: position{line: 1383, col: 34, offset: 44206},
+																	pos: position{line: 1383, col: 34, offset: 44211},
 																	expr: &seqExpr{
-																		pos: position{line: 1383, col: 35, offset: 44207},
+																		pos: position{line: 1383, col: 35, offset: 44212},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1383, col: 35, offset: 44207},
+																				pos: position{line: 1383, col: 35, offset: 44212},
 																				expr: &litMatcher{
-																					pos:        position{line: 1377, col: 32, offset: 43932},
+																					pos:        position{line: 1377, col: 32, offset: 43937},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1383, col: 64, offset: 44236,
+																				line: 1383, col: 64, offset: 44241,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1385, col: 11, offset: 44409},
+																pos: position{line: 1385, col: 11, offset: 44414},
 																run: (*parser).callonInlinePassthrough17,
 																expr: &zeroOrOneExpr{
-																	pos: position{line: 1385, col: 11, offset: 44409},
+																	pos: position{line: 1385, col: 11, offset: 44414},
 																	expr: &seqExpr{
-																		pos: position{line: 1385, col: 12, offset: 44410},
+																		pos: position{line: 1385, col: 12, offset: 44415},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1385, col: 12, offset: 44410},
+																				pos: position{line: 1385, col: 12, offset: 44415},
 																				expr: &actionExpr{
 																					pos: position{line: 2852, col: 10, offset: 90239},
 																					run: (*parser).callonInlinePassthrough21,
@@ -45684,7 +45712,7 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1385, col: 19, offset: 44417},
+																				pos: position{line: 1385, col: 19, offset: 44422},
 																				expr: &actionExpr{
 																					pos: position{line: 2861, col: 12, offset: 90410},
 																					run: (*parser).callonInlinePassthrough24,
@@ -45714,16 +45742,16 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1385, col: 28, offset: 44426},
+																				pos: position{line: 1385, col: 28, offset: 44431},
 																				expr: &litMatcher{
-																					pos:        position{line: 1377, col: 32, offset: 43932},
+																					pos:        position{line: 1377, col: 32, offset: 43937},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1385, col: 57, offset: 44455,
+																				line: 1385, col: 57, offset: 44460,
 																			},
 																		},
 																	},
@@ -45733,13 +45761,13 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1377, col: 32, offset: 43932},
+													pos:        position{line: 1377, col: 32, offset: 43937},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&notExpr{
-													pos: position{line: 1379, col: 121, offset: 44059},
+													pos: position{line: 1379, col: 121, offset: 44064},
 													expr: &charClassMatcher{
 														pos:        position{line: 2742, col: 13, offset: 87334},
 														val:        "[\\pL\\pN]",
@@ -45752,40 +45780,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1367, col: 26, offset: 43247},
+										pos: position{line: 1367, col: 26, offset: 43252},
 										run: (*parser).callonInlinePassthrough35,
 										expr: &seqExpr{
-											pos: position{line: 1367, col: 26, offset: 43247},
+											pos: position{line: 1367, col: 26, offset: 43252},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1365, col: 32, offset: 43217},
+													pos:        position{line: 1365, col: 32, offset: 43222},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1367, col: 54, offset: 43275},
+													pos:   position{line: 1367, col: 54, offset: 43280},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1371, col: 33, offset: 43488},
+														pos: position{line: 1371, col: 33, offset: 43493},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1371, col: 34, offset: 43489},
+																pos: position{line: 1371, col: 34, offset: 43494},
 																run: (*parser).callonInlinePassthrough40,
 																expr: &seqExpr{
-																	pos: position{line: 1371, col: 34, offset: 43489},
+																	pos: position{line: 1371, col: 34, offset: 43494},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1371, col: 35, offset: 43490},
+																			pos: position{line: 1371, col: 35, offset: 43495},
 																			expr: &litMatcher{
-																				pos:        position{line: 1365, col: 32, offset: 43217},
+																				pos:        position{line: 1365, col: 32, offset: 43222},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1371, col: 64, offset: 43519},
+																			pos: position{line: 1371, col: 64, offset: 43524},
 																			expr: &actionExpr{
 																				pos: position{line: 2852, col: 10, offset: 90239},
 																				run: (*parser).callonInlinePassthrough45,
@@ -45799,7 +45827,7 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1371, col: 71, offset: 43526},
+																			pos: position{line: 1371, col: 71, offset: 43531},
 																			expr: &actionExpr{
 																				pos: position{line: 2861, col: 12, offset: 90410},
 																				run: (*parser).callonInlinePassthrough48,
@@ -45829,17 +45857,17 @@ var g = &grammar{
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1371, col: 80, offset: 43535,
+																			line: 1371, col: 80, offset: 43540,
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1371, col: 83, offset: 43538},
+																			pos: position{line: 1371, col: 83, offset: 43543},
 																			expr: &seqExpr{
-																				pos: position{line: 1371, col: 84, offset: 43539},
+																				pos: position{line: 1371, col: 84, offset: 43544},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1371, col: 84, offset: 43539},
+																						pos: position{line: 1371, col: 84, offset: 43544},
 																						expr: &seqExpr{
-																							pos: position{line: 1371, col: 86, offset: 43541},
+																							pos: position{line: 1371, col: 86, offset: 43546},
 																							exprs: []interface{}{
 																								&actionExpr{
 																									pos: position{line: 2856, col: 11, offset: 90300},
@@ -45856,7 +45884,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1365, col: 32, offset: 43217},
+																									pos:        position{line: 1365, col: 32, offset: 43222},
 																									val:        "+",
 																									ignoreCase: false,
 																									want:       "\"+\"",
@@ -45865,16 +45893,16 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1371, col: 122, offset: 43577},
+																						pos: position{line: 1371, col: 122, offset: 43582},
 																						expr: &litMatcher{
-																							pos:        position{line: 1365, col: 32, offset: 43217},
+																							pos:        position{line: 1365, col: 32, offset: 43222},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1371, col: 151, offset: 43606},
+																						pos: position{line: 1371, col: 151, offset: 43611},
 																						expr: &actionExpr{
 																							pos: position{line: 2861, col: 12, offset: 90410},
 																							run: (*parser).callonInlinePassthrough65,
@@ -45904,7 +45932,7 @@ var g = &grammar{
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1371, col: 160, offset: 43615,
+																						line: 1371, col: 160, offset: 43620,
 																					},
 																				},
 																			},
@@ -45913,13 +45941,13 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1373, col: 11, offset: 43765},
+																pos: position{line: 1373, col: 11, offset: 43770},
 																run: (*parser).callonInlinePassthrough71,
 																expr: &seqExpr{
-																	pos: position{line: 1373, col: 12, offset: 43766},
+																	pos: position{line: 1373, col: 12, offset: 43771},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1373, col: 12, offset: 43766},
+																			pos: position{line: 1373, col: 12, offset: 43771},
 																			expr: &actionExpr{
 																				pos: position{line: 2852, col: 10, offset: 90239},
 																				run: (*parser).callonInlinePassthrough74,
@@ -45933,7 +45961,7 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1373, col: 19, offset: 43773},
+																			pos: position{line: 1373, col: 19, offset: 43778},
 																			expr: &actionExpr{
 																				pos: position{line: 2861, col: 12, offset: 90410},
 																				run: (*parser).callonInlinePassthrough77,
@@ -45963,16 +45991,16 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1373, col: 28, offset: 43782},
+																			pos: position{line: 1373, col: 28, offset: 43787},
 																			expr: &litMatcher{
-																				pos:        position{line: 1365, col: 32, offset: 43217},
+																				pos:        position{line: 1365, col: 32, offset: 43222},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1373, col: 57, offset: 43811,
+																			line: 1373, col: 57, offset: 43816,
 																		},
 																	},
 																},
@@ -45981,13 +46009,13 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1365, col: 32, offset: 43217},
+													pos:        position{line: 1365, col: 32, offset: 43222},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&notExpr{
-													pos: position{line: 1367, col: 121, offset: 43342},
+													pos: position{line: 1367, col: 121, offset: 43347},
 													expr: &charClassMatcher{
 														pos:        position{line: 2742, col: 13, offset: 87334},
 														val:        "[\\pL\\pN]",
@@ -46000,7 +46028,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2424, col: 57, offset: 78236},
+										pos:  position{line: 2424, col: 57, offset: 78241},
 										name: "PassthroughMacro",
 									},
 								},
@@ -46012,16 +46040,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2429, col: 1, offset: 78296},
+			pos:  position{line: 2429, col: 1, offset: 78301},
 			expr: &seqExpr{
-				pos: position{line: 2431, col: 5, offset: 78372},
+				pos: position{line: 2431, col: 5, offset: 78377},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2431, col: 5, offset: 78372},
+						pos: position{line: 2431, col: 5, offset: 78377},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2434, col: 5, offset: 78437},
+						pos:  position{line: 2434, col: 5, offset: 78442},
 						name: "QuotedText",
 					},
 				},
@@ -46029,22 +46057,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2436, col: 1, offset: 78450},
+			pos:  position{line: 2436, col: 1, offset: 78455},
 			expr: &actionExpr{
-				pos: position{line: 2438, col: 5, offset: 78532},
+				pos: position{line: 2438, col: 5, offset: 78537},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2438, col: 5, offset: 78532},
+					pos: position{line: 2438, col: 5, offset: 78537},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2438, col: 5, offset: 78532},
+							pos: position{line: 2438, col: 5, offset: 78537},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2441, col: 5, offset: 78603},
+							pos:   position{line: 2441, col: 5, offset: 78608},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2442, col: 9, offset: 78621},
+								pos:  position{line: 2442, col: 9, offset: 78626},
 								name: "Symbol",
 							},
 						},
@@ -46054,87 +46082,87 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2497, col: 1, offset: 80380},
+			pos:  position{line: 2497, col: 1, offset: 80385},
 			expr: &choiceExpr{
-				pos: position{line: 2499, col: 5, offset: 80410},
+				pos: position{line: 2499, col: 5, offset: 80415},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2499, col: 5, offset: 80410},
+						pos: position{line: 2499, col: 5, offset: 80415},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2499, col: 5, offset: 80410},
+							pos: position{line: 2499, col: 5, offset: 80415},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2499, col: 5, offset: 80410},
+									pos:        position{line: 2499, col: 5, offset: 80415},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2499, col: 10, offset: 80415},
+									pos: position{line: 2499, col: 10, offset: 80420},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2499, col: 10, offset: 80415},
+											pos:  position{line: 2499, col: 10, offset: 80420},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2528, col: 14, offset: 81549},
+											pos: position{line: 2528, col: 14, offset: 81554},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2528, col: 14, offset: 81549},
+												pos:        position{line: 2528, col: 14, offset: 81554},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2532, col: 14, offset: 81615},
+											pos: position{line: 2532, col: 14, offset: 81620},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2532, col: 14, offset: 81615},
+												pos:        position{line: 2532, col: 14, offset: 81620},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2536, col: 15, offset: 81684},
+											pos: position{line: 2536, col: 15, offset: 81689},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2536, col: 15, offset: 81684},
+												pos:        position{line: 2536, col: 15, offset: 81689},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2540, col: 13, offset: 81749},
+											pos: position{line: 2540, col: 13, offset: 81754},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2540, col: 13, offset: 81749},
+												pos:        position{line: 2540, col: 13, offset: 81754},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2547, col: 5, offset: 81887},
+											pos: position{line: 2547, col: 5, offset: 81892},
 											run: (*parser).callonSymbol15,
 											expr: &seqExpr{
-												pos: position{line: 2547, col: 5, offset: 81887},
+												pos: position{line: 2547, col: 5, offset: 81892},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2547, col: 5, offset: 81887},
+														pos:        position{line: 2547, col: 5, offset: 81892},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2548, col: 5, offset: 81897},
+														pos: position{line: 2548, col: 5, offset: 81902},
 														run: (*parser).callonSymbol18,
 													},
 													&choiceExpr{
-														pos: position{line: 2552, col: 6, offset: 81984},
+														pos: position{line: 2552, col: 6, offset: 81989},
 														alternatives: []interface{}{
 															&actionExpr{
 																pos: position{line: 2852, col: 10, offset: 90239},
@@ -46148,7 +46176,7 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2552, col: 14, offset: 81992},
+																pos: position{line: 2552, col: 14, offset: 81997},
 																expr: &choiceExpr{
 																	pos: position{line: 2874, col: 8, offset: 90637},
 																	alternatives: []interface{}{
@@ -46194,25 +46222,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2557, col: 5, offset: 82112},
+											pos: position{line: 2557, col: 5, offset: 82117},
 											run: (*parser).callonSymbol31,
 											expr: &seqExpr{
-												pos: position{line: 2557, col: 5, offset: 82112},
+												pos: position{line: 2557, col: 5, offset: 82117},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2557, col: 5, offset: 82112},
+														pos:        position{line: 2557, col: 5, offset: 82117},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2558, col: 5, offset: 82122},
+														pos: position{line: 2558, col: 5, offset: 82127},
 														run: (*parser).callonSymbol34,
 													},
 													&andExpr{
-														pos: position{line: 2562, col: 5, offset: 82211},
+														pos: position{line: 2562, col: 5, offset: 82216},
 														expr: &choiceExpr{
-															pos: position{line: 2562, col: 7, offset: 82213},
+															pos: position{line: 2562, col: 7, offset: 82218},
 															alternatives: []interface{}{
 																&charClassMatcher{
 																	pos:        position{line: 2742, col: 13, offset: 87334},
@@ -46266,63 +46294,63 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2502, col: 7, offset: 80579},
+						pos: position{line: 2502, col: 7, offset: 80584},
 						run: (*parser).callonSymbol45,
 						expr: &seqExpr{
-							pos: position{line: 2502, col: 7, offset: 80579},
+							pos: position{line: 2502, col: 7, offset: 80584},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2502, col: 7, offset: 80579},
+									pos:        position{line: 2502, col: 7, offset: 80584},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2502, col: 11, offset: 80583},
+									pos:   position{line: 2502, col: 11, offset: 80588},
 									label: "elements",
 									expr: &choiceExpr{
-										pos: position{line: 2502, col: 21, offset: 80593},
+										pos: position{line: 2502, col: 21, offset: 80598},
 										alternatives: []interface{}{
 											&seqExpr{
-												pos: position{line: 2502, col: 21, offset: 80593},
+												pos: position{line: 2502, col: 21, offset: 80598},
 												exprs: []interface{}{
 													&charClassMatcher{
-														pos:        position{line: 2502, col: 21, offset: 80593},
+														pos:        position{line: 2502, col: 21, offset: 80598},
 														val:        "[-=]",
 														chars:      []rune{'-', '='},
 														ignoreCase: false,
 														inverted:   false,
 													},
 													&andExpr{
-														pos: position{line: 2502, col: 26, offset: 80598},
+														pos: position{line: 2502, col: 26, offset: 80603},
 														expr: &litMatcher{
-															pos:        position{line: 2502, col: 27, offset: 80599},
+															pos:        position{line: 2502, col: 27, offset: 80604},
 															val:        ">",
 															ignoreCase: false,
 															want:       "\">\"",
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2502, col: 32, offset: 80604},
+														pos: position{line: 2502, col: 32, offset: 80609},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2449, col: 5, offset: 78758},
+																pos: position{line: 2449, col: 5, offset: 78763},
 																run: (*parser).callonSymbol55,
 																expr: &seqExpr{
-																	pos: position{line: 2449, col: 5, offset: 78758},
+																	pos: position{line: 2449, col: 5, offset: 78763},
 																	exprs: []interface{}{
 																		&andCodeExpr{
-																			pos: position{line: 2449, col: 5, offset: 78758},
+																			pos: position{line: 2449, col: 5, offset: 78763},
 																			run: (*parser).callonSymbol57,
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 2452, col: 5, offset: 78834},
+																			pos:   position{line: 2452, col: 5, offset: 78839},
 																			label: "element",
 																			expr: &actionExpr{
-																				pos: position{line: 2453, col: 9, offset: 78852},
+																				pos: position{line: 2453, col: 9, offset: 78857},
 																				run: (*parser).callonSymbol59,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2453, col: 10, offset: 78853},
+																					pos:        position{line: 2453, col: 10, offset: 78858},
 																					val:        "[<>&]",
 																					chars:      []rune{'<', '>', '&'},
 																					ignoreCase: false,
@@ -46334,28 +46362,28 @@ var g = &grammar{
 																},
 															},
 															&anyMatcher{
-																line: 2502, col: 51, offset: 80623,
+																line: 2502, col: 51, offset: 80628,
 															},
 														},
 													},
 												},
 											},
 											&seqExpr{
-												pos: position{line: 2502, col: 56, offset: 80628},
+												pos: position{line: 2502, col: 56, offset: 80633},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2502, col: 56, offset: 80628},
+														pos: position{line: 2502, col: 56, offset: 80633},
 														expr: &choiceExpr{
-															pos: position{line: 2502, col: 58, offset: 80630},
+															pos: position{line: 2502, col: 58, offset: 80635},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2502, col: 58, offset: 80630},
+																	pos:        position{line: 2502, col: 58, offset: 80635},
 																	val:        "<-",
 																	ignoreCase: false,
 																	want:       "\"<-\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2502, col: 65, offset: 80637},
+																	pos:        position{line: 2502, col: 65, offset: 80642},
 																	val:        "<=",
 																	ignoreCase: false,
 																	want:       "\"<=\"",
@@ -46364,26 +46392,26 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2502, col: 72, offset: 80644},
+														pos: position{line: 2502, col: 72, offset: 80649},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2449, col: 5, offset: 78758},
+																pos: position{line: 2449, col: 5, offset: 78763},
 																run: (*parser).callonSymbol68,
 																expr: &seqExpr{
-																	pos: position{line: 2449, col: 5, offset: 78758},
+																	pos: position{line: 2449, col: 5, offset: 78763},
 																	exprs: []interface{}{
 																		&andCodeExpr{
-																			pos: position{line: 2449, col: 5, offset: 78758},
+																			pos: position{line: 2449, col: 5, offset: 78763},
 																			run: (*parser).callonSymbol70,
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 2452, col: 5, offset: 78834},
+																			pos:   position{line: 2452, col: 5, offset: 78839},
 																			label: "element",
 																			expr: &actionExpr{
-																				pos: position{line: 2453, col: 9, offset: 78852},
+																				pos: position{line: 2453, col: 9, offset: 78857},
 																				run: (*parser).callonSymbol72,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2453, col: 10, offset: 78853},
+																					pos:        position{line: 2453, col: 10, offset: 78858},
 																					val:        "[<>&]",
 																					chars:      []rune{'<', '>', '&'},
 																					ignoreCase: false,
@@ -46395,12 +46423,12 @@ var g = &grammar{
 																},
 															},
 															&anyMatcher{
-																line: 2502, col: 91, offset: 80663,
+																line: 2502, col: 91, offset: 80668,
 															},
 														},
 													},
 													&anyMatcher{
-														line: 2502, col: 94, offset: 80666,
+														line: 2502, col: 94, offset: 80671,
 													},
 												},
 											},
@@ -46411,67 +46439,67 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2503, col: 7, offset: 80700},
+						pos:  position{line: 2503, col: 7, offset: 80705},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2528, col: 14, offset: 81549},
+						pos: position{line: 2528, col: 14, offset: 81554},
 						run: (*parser).callonSymbol77,
 						expr: &litMatcher{
-							pos:        position{line: 2528, col: 14, offset: 81549},
+							pos:        position{line: 2528, col: 14, offset: 81554},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2532, col: 14, offset: 81615},
+						pos: position{line: 2532, col: 14, offset: 81620},
 						run: (*parser).callonSymbol79,
 						expr: &litMatcher{
-							pos:        position{line: 2532, col: 14, offset: 81615},
+							pos:        position{line: 2532, col: 14, offset: 81620},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2536, col: 15, offset: 81684},
+						pos: position{line: 2536, col: 15, offset: 81689},
 						run: (*parser).callonSymbol81,
 						expr: &litMatcher{
-							pos:        position{line: 2536, col: 15, offset: 81684},
+							pos:        position{line: 2536, col: 15, offset: 81689},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2540, col: 13, offset: 81749},
+						pos: position{line: 2540, col: 13, offset: 81754},
 						run: (*parser).callonSymbol83,
 						expr: &litMatcher{
-							pos:        position{line: 2540, col: 13, offset: 81749},
+							pos:        position{line: 2540, col: 13, offset: 81754},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2547, col: 5, offset: 81887},
+						pos: position{line: 2547, col: 5, offset: 81892},
 						run: (*parser).callonSymbol85,
 						expr: &seqExpr{
-							pos: position{line: 2547, col: 5, offset: 81887},
+							pos: position{line: 2547, col: 5, offset: 81892},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2547, col: 5, offset: 81887},
+									pos:        position{line: 2547, col: 5, offset: 81892},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2548, col: 5, offset: 81897},
+									pos: position{line: 2548, col: 5, offset: 81902},
 									run: (*parser).callonSymbol88,
 								},
 								&choiceExpr{
-									pos: position{line: 2552, col: 6, offset: 81984},
+									pos: position{line: 2552, col: 6, offset: 81989},
 									alternatives: []interface{}{
 										&actionExpr{
 											pos: position{line: 2852, col: 10, offset: 90239},
@@ -46485,7 +46513,7 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2552, col: 14, offset: 81992},
+											pos: position{line: 2552, col: 14, offset: 81997},
 											expr: &choiceExpr{
 												pos: position{line: 2874, col: 8, offset: 90637},
 												alternatives: []interface{}{
@@ -46531,25 +46559,25 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2557, col: 5, offset: 82112},
+						pos: position{line: 2557, col: 5, offset: 82117},
 						run: (*parser).callonSymbol101,
 						expr: &seqExpr{
-							pos: position{line: 2557, col: 5, offset: 82112},
+							pos: position{line: 2557, col: 5, offset: 82117},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2557, col: 5, offset: 82112},
+									pos:        position{line: 2557, col: 5, offset: 82117},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2558, col: 5, offset: 82122},
+									pos: position{line: 2558, col: 5, offset: 82127},
 									run: (*parser).callonSymbol104,
 								},
 								&andExpr{
-									pos: position{line: 2562, col: 5, offset: 82211},
+									pos: position{line: 2562, col: 5, offset: 82216},
 									expr: &choiceExpr{
-										pos: position{line: 2562, col: 7, offset: 82213},
+										pos: position{line: 2562, col: 7, offset: 82218},
 										alternatives: []interface{}{
 											&charClassMatcher{
 												pos:        position{line: 2742, col: 13, offset: 87334},
@@ -46598,40 +46626,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2568, col: 21, offset: 82301},
+						pos: position{line: 2568, col: 21, offset: 82306},
 						run: (*parser).callonSymbol115,
 						expr: &litMatcher{
-							pos:        position{line: 2568, col: 21, offset: 82301},
+							pos:        position{line: 2568, col: 21, offset: 82306},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2572, col: 20, offset: 82371},
+						pos: position{line: 2572, col: 20, offset: 82376},
 						run: (*parser).callonSymbol117,
 						expr: &litMatcher{
-							pos:        position{line: 2572, col: 20, offset: 82371},
+							pos:        position{line: 2572, col: 20, offset: 82376},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2576, col: 21, offset: 82442},
+						pos: position{line: 2576, col: 21, offset: 82447},
 						run: (*parser).callonSymbol119,
 						expr: &litMatcher{
-							pos:        position{line: 2576, col: 21, offset: 82442},
+							pos:        position{line: 2576, col: 21, offset: 82447},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2580, col: 20, offset: 82512},
+						pos: position{line: 2580, col: 20, offset: 82517},
 						run: (*parser).callonSymbol121,
 						expr: &litMatcher{
-							pos:        position{line: 2580, col: 20, offset: 82512},
+							pos:        position{line: 2580, col: 20, offset: 82517},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -46642,43 +46670,43 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2514, col: 1, offset: 80890},
+			pos:  position{line: 2514, col: 1, offset: 80895},
 			expr: &choiceExpr{
-				pos: position{line: 2515, col: 5, offset: 80912},
+				pos: position{line: 2515, col: 5, offset: 80917},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2515, col: 5, offset: 80912},
+						pos: position{line: 2515, col: 5, offset: 80917},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2515, col: 5, offset: 80912},
+							pos: position{line: 2515, col: 5, offset: 80917},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2515, col: 5, offset: 80912},
+									pos:        position{line: 2515, col: 5, offset: 80917},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2515, col: 11, offset: 80918},
+									pos: position{line: 2515, col: 11, offset: 80923},
 									expr: &seqExpr{
-										pos: position{line: 2078, col: 5, offset: 67104},
+										pos: position{line: 2078, col: 5, offset: 67109},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2078, col: 5, offset: 67104},
+												pos:        position{line: 2078, col: 5, offset: 67109},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2079, col: 5, offset: 67113},
+												pos: position{line: 2079, col: 5, offset: 67118},
 												run: (*parser).callonQuotationMark8,
 											},
 											&andExpr{
-												pos: position{line: 2083, col: 5, offset: 67236},
+												pos: position{line: 2083, col: 5, offset: 67241},
 												expr: &notExpr{
-													pos: position{line: 2083, col: 7, offset: 67238},
+													pos: position{line: 2083, col: 7, offset: 67243},
 													expr: &litMatcher{
-														pos:        position{line: 2083, col: 8, offset: 67239},
+														pos:        position{line: 2083, col: 8, offset: 67244},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -46692,21 +46720,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2518, col: 7, offset: 81071},
+						pos: position{line: 2518, col: 7, offset: 81076},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2518, col: 7, offset: 81071},
+							pos: position{line: 2518, col: 7, offset: 81076},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2518, col: 7, offset: 81071},
+									pos:        position{line: 2518, col: 7, offset: 81076},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2518, col: 13, offset: 81077},
+									pos: position{line: 2518, col: 13, offset: 81082},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2518, col: 14, offset: 81078},
+										pos:  position{line: 2518, col: 14, offset: 81083},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -46714,38 +46742,38 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2521, col: 7, offset: 81228},
+						pos: position{line: 2521, col: 7, offset: 81233},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2521, col: 7, offset: 81228},
+							pos: position{line: 2521, col: 7, offset: 81233},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2521, col: 7, offset: 81228},
+									pos:        position{line: 2521, col: 7, offset: 81233},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2521, col: 12, offset: 81233},
+									pos: position{line: 2521, col: 12, offset: 81238},
 									expr: &seqExpr{
-										pos: position{line: 2078, col: 5, offset: 67104},
+										pos: position{line: 2078, col: 5, offset: 67109},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2078, col: 5, offset: 67104},
+												pos:        position{line: 2078, col: 5, offset: 67109},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2079, col: 5, offset: 67113},
+												pos: position{line: 2079, col: 5, offset: 67118},
 												run: (*parser).callonQuotationMark23,
 											},
 											&andExpr{
-												pos: position{line: 2083, col: 5, offset: 67236},
+												pos: position{line: 2083, col: 5, offset: 67241},
 												expr: &notExpr{
-													pos: position{line: 2083, col: 7, offset: 67238},
+													pos: position{line: 2083, col: 7, offset: 67243},
 													expr: &litMatcher{
-														pos:        position{line: 2083, col: 8, offset: 67239},
+														pos:        position{line: 2083, col: 8, offset: 67244},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -46759,21 +46787,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2524, col: 7, offset: 81386},
+						pos: position{line: 2524, col: 7, offset: 81391},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2524, col: 7, offset: 81386},
+							pos: position{line: 2524, col: 7, offset: 81391},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2524, col: 7, offset: 81386},
+									pos:        position{line: 2524, col: 7, offset: 81391},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2524, col: 12, offset: 81391},
+									pos: position{line: 2524, col: 12, offset: 81396},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2524, col: 13, offset: 81392},
+										pos:  position{line: 2524, col: 13, offset: 81397},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -46785,23 +46813,23 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2657, col: 1, offset: 84414},
+			pos:  position{line: 2657, col: 1, offset: 84419},
 			expr: &actionExpr{
-				pos: position{line: 2657, col: 26, offset: 84439},
+				pos: position{line: 2657, col: 26, offset: 84444},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2657, col: 26, offset: 84439},
+					pos: position{line: 2657, col: 26, offset: 84444},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2657, col: 26, offset: 84439},
+							pos:   position{line: 2657, col: 26, offset: 84444},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2657, col: 31, offset: 84444},
+								pos: position{line: 2657, col: 31, offset: 84449},
 								expr: &actionExpr{
-									pos: position{line: 2662, col: 5, offset: 84507},
+									pos: position{line: 2662, col: 5, offset: 84512},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2662, col: 5, offset: 84507},
+										pos: position{line: 2662, col: 5, offset: 84512},
 										exprs: []interface{}{
 											&andExpr{
 												pos: position{line: 2869, col: 11, offset: 90573},
@@ -46810,18 +46838,18 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2665, col: 5, offset: 84633},
+												pos:   position{line: 2665, col: 5, offset: 84638},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2665, col: 16, offset: 84644},
+													pos: position{line: 2665, col: 16, offset: 84649},
 													expr: &actionExpr{
-														pos: position{line: 2665, col: 17, offset: 84645},
+														pos: position{line: 2665, col: 17, offset: 84650},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2665, col: 17, offset: 84645},
+															pos: position{line: 2665, col: 17, offset: 84650},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2665, col: 17, offset: 84645},
+																	pos:   position{line: 2665, col: 17, offset: 84650},
 																	label: "n",
 																	expr: &actionExpr{
 																		pos: position{line: 2844, col: 12, offset: 90066},
@@ -46853,7 +46881,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2665, col: 27, offset: 84655},
+																	pos:        position{line: 2665, col: 27, offset: 84660},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -46864,38 +46892,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2666, col: 5, offset: 84683},
+												pos:   position{line: 2666, col: 5, offset: 84688},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2666, col: 12, offset: 84690},
+													pos: position{line: 2666, col: 12, offset: 84695},
 													expr: &choiceExpr{
-														pos: position{line: 2667, col: 9, offset: 84700},
+														pos: position{line: 2667, col: 9, offset: 84705},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2667, col: 9, offset: 84700},
+																pos: position{line: 2667, col: 9, offset: 84705},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2667, col: 9, offset: 84700},
+																	pos:        position{line: 2667, col: 9, offset: 84705},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2668, col: 11, offset: 84747},
+																pos: position{line: 2668, col: 11, offset: 84752},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2668, col: 11, offset: 84747},
+																	pos:        position{line: 2668, col: 11, offset: 84752},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2669, col: 11, offset: 84795},
+																pos: position{line: 2669, col: 11, offset: 84800},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2669, col: 11, offset: 84795},
+																	pos:        position{line: 2669, col: 11, offset: 84800},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -46906,38 +46934,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2671, col: 5, offset: 84845},
+												pos:   position{line: 2671, col: 5, offset: 84850},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2671, col: 12, offset: 84852},
+													pos: position{line: 2671, col: 12, offset: 84857},
 													expr: &choiceExpr{
-														pos: position{line: 2672, col: 9, offset: 84862},
+														pos: position{line: 2672, col: 9, offset: 84867},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2672, col: 9, offset: 84862},
+																pos: position{line: 2672, col: 9, offset: 84867},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2672, col: 9, offset: 84862},
+																	pos:        position{line: 2672, col: 9, offset: 84867},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2673, col: 11, offset: 84909},
+																pos: position{line: 2673, col: 11, offset: 84914},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2673, col: 11, offset: 84909},
+																	pos:        position{line: 2673, col: 11, offset: 84914},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2674, col: 11, offset: 84959},
+																pos: position{line: 2674, col: 11, offset: 84964},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2674, col: 11, offset: 84959},
+																	pos:        position{line: 2674, col: 11, offset: 84964},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -46948,12 +46976,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2676, col: 5, offset: 85010},
+												pos:   position{line: 2676, col: 5, offset: 85015},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2676, col: 12, offset: 85017},
+													pos: position{line: 2676, col: 12, offset: 85022},
 													expr: &choiceExpr{
-														pos: position{line: 2676, col: 13, offset: 85018},
+														pos: position{line: 2676, col: 13, offset: 85023},
 														alternatives: []interface{}{
 															&actionExpr{
 																pos: position{line: 2844, col: 12, offset: 90066},
@@ -46984,10 +47012,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2676, col: 24, offset: 85029},
+																pos: position{line: 2676, col: 24, offset: 85034},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2676, col: 24, offset: 85029},
+																	pos:        position{line: 2676, col: 24, offset: 85034},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -46998,15 +47026,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2677, col: 5, offset: 85071},
+												pos:   position{line: 2677, col: 5, offset: 85076},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2677, col: 11, offset: 85077},
+													pos: position{line: 2677, col: 11, offset: 85082},
 													expr: &actionExpr{
-														pos: position{line: 2677, col: 12, offset: 85078},
+														pos: position{line: 2677, col: 12, offset: 85083},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2677, col: 12, offset: 85078},
+															pos:        position{line: 2677, col: 12, offset: 85083},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -47016,12 +47044,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2679, col: 5, offset: 85208},
+												pos:   position{line: 2679, col: 5, offset: 85213},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2679, col: 11, offset: 85214},
+													pos: position{line: 2679, col: 11, offset: 85219},
 													expr: &litMatcher{
-														pos:        position{line: 2679, col: 12, offset: 85215},
+														pos:        position{line: 2679, col: 12, offset: 85220},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -47029,7 +47057,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2680, col: 5, offset: 85225},
+												pos: position{line: 2680, col: 5, offset: 85230},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -47659,27 +47687,27 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1198, col: 23, offset: 36972},
+											pos: position{line: 1198, col: 23, offset: 36977},
 											run: (*parser).callonFileLocation92,
 											expr: &seqExpr{
-												pos: position{line: 1198, col: 23, offset: 36972},
+												pos: position{line: 1198, col: 23, offset: 36977},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 1196, col: 32, offset: 36940},
+														pos:        position{line: 1196, col: 32, offset: 36945},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 1198, col: 51, offset: 37000},
+														pos:   position{line: 1198, col: 51, offset: 37005},
 														label: "ref",
 														expr: &actionExpr{
-															pos: position{line: 1198, col: 56, offset: 37005},
+															pos: position{line: 1198, col: 56, offset: 37010},
 															run: (*parser).callonFileLocation96,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 1198, col: 56, offset: 37005},
+																pos: position{line: 1198, col: 56, offset: 37010},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1198, col: 56, offset: 37005},
+																	pos:        position{line: 1198, col: 56, offset: 37010},
 																	val:        "[0-9]",
 																	ranges:     []rune{'0', '9'},
 																	ignoreCase: false,
@@ -47689,7 +47717,7 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 1196, col: 32, offset: 36940},
+														pos:        position{line: 1196, col: 32, offset: 36945},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
@@ -48662,7 +48690,7 @@ func (p *parser) callonDocumentRawLine396() (interface{}, error) {
 }
 
 func (c *current) onDocumentRawLine419() (interface{}, error) {
-	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
+	// exclude ` to avoid matching fenced blocks with more than 3 "`"
 	return string(c.text), nil
 }
 
@@ -50523,7 +50551,7 @@ func (p *parser) callonDocumentFragment163() (interface{}, error) {
 }
 
 func (c *current) onDocumentFragment267() (interface{}, error) {
-	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
+	// exclude ` to avoid matching fenced blocks with more than 3 "`"
 	return string(c.text), nil
 }
 
@@ -52472,8 +52500,9 @@ func (p *parser) callonDocumentFragment1090() (interface{}, error) {
 }
 
 func (c *current) onDocumentFragment1098() (interface{}, error) {
-	// TODO: just use "\n"
+
 	return string(c.text), nil
+
 }
 
 func (p *parser) callonDocumentFragment1098() (interface{}, error) {
@@ -52482,6 +52511,17 @@ func (p *parser) callonDocumentFragment1098() (interface{}, error) {
 	return p.cur.onDocumentFragment1098()
 }
 
+func (c *current) onDocumentFragment1101() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonDocumentFragment1101() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1101()
+}
+
 func (c *current) onDocumentFragment1076() (interface{}, error) {
 
 	return types.NewThematicBreak()
@@ -52494,609 +52534,609 @@ func (p *parser) callonDocumentFragment1076() (interface{}, error) {
 	return p.cur.onDocumentFragment1076()
 }
 
-func (c *current) onDocumentFragment1110() (interface{}, error) {
+func (c *current) onDocumentFragment1113() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1110() (interface{}, error) {
+func (p *parser) callonDocumentFragment1113() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1110()
+	return p.cur.onDocumentFragment1113()
 }
 
-func (c *current) onDocumentFragment1113() (interface{}, error) {
+func (c *current) onDocumentFragment1116() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1113() (interface{}, error) {
+func (p *parser) callonDocumentFragment1116() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1113()
+	return p.cur.onDocumentFragment1116()
 }
 
-func (c *current) onDocumentFragment1128() (interface{}, error) {
+func (c *current) onDocumentFragment1131() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1128() (interface{}, error) {
+func (p *parser) callonDocumentFragment1131() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1128()
+	return p.cur.onDocumentFragment1131()
 }
 
-func (c *current) onDocumentFragment1131() (interface{}, error) {
+func (c *current) onDocumentFragment1134() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1131() (interface{}, error) {
+func (p *parser) callonDocumentFragment1134() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1131()
+	return p.cur.onDocumentFragment1134()
 }
 
-func (c *current) onDocumentFragment1123() (interface{}, error) {
+func (c *current) onDocumentFragment1126() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonDocumentFragment1123() (interface{}, error) {
+func (p *parser) callonDocumentFragment1126() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1123()
+	return p.cur.onDocumentFragment1126()
 }
 
-func (c *current) onDocumentFragment1145() (interface{}, error) {
+func (c *current) onDocumentFragment1148() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1145() (interface{}, error) {
+func (p *parser) callonDocumentFragment1148() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1145()
+	return p.cur.onDocumentFragment1148()
 }
 
-func (c *current) onDocumentFragment1148() (interface{}, error) {
+func (c *current) onDocumentFragment1151() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1148() (interface{}, error) {
+func (p *parser) callonDocumentFragment1151() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1148()
+	return p.cur.onDocumentFragment1151()
 }
 
-func (c *current) onDocumentFragment1170() (interface{}, error) {
+func (c *current) onDocumentFragment1173() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1170() (interface{}, error) {
+func (p *parser) callonDocumentFragment1173() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1170()
+	return p.cur.onDocumentFragment1173()
 }
 
-func (c *current) onDocumentFragment1175() (interface{}, error) {
+func (c *current) onDocumentFragment1178() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1175() (interface{}, error) {
+func (p *parser) callonDocumentFragment1178() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1175()
+	return p.cur.onDocumentFragment1178()
 }
 
-func (c *current) onDocumentFragment1173(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1176(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment1173() (interface{}, error) {
+func (p *parser) callonDocumentFragment1176() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1173(stack["content"])
+	return p.cur.onDocumentFragment1176(stack["content"])
 }
 
-func (c *current) onDocumentFragment1166(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1169(content interface{}) (interface{}, error) {
 	return types.NewInlineTableCell(content.(*types.RawLine))
 
 }
 
-func (p *parser) callonDocumentFragment1166() (interface{}, error) {
+func (p *parser) callonDocumentFragment1169() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1166(stack["content"])
+	return p.cur.onDocumentFragment1169(stack["content"])
 }
 
-func (c *current) onDocumentFragment1179() (interface{}, error) {
+func (c *current) onDocumentFragment1182() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1179() (interface{}, error) {
+func (p *parser) callonDocumentFragment1182() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1179()
+	return p.cur.onDocumentFragment1182()
 }
 
-func (c *current) onDocumentFragment1162(cells interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1165(cells interface{}) (interface{}, error) {
 
 	return cells, nil
 }
 
-func (p *parser) callonDocumentFragment1162() (interface{}, error) {
+func (p *parser) callonDocumentFragment1165() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1162(stack["cells"])
+	return p.cur.onDocumentFragment1165(stack["cells"])
 }
 
-func (c *current) onDocumentFragment1196() (interface{}, error) {
+func (c *current) onDocumentFragment1199() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1196() (interface{}, error) {
+func (p *parser) callonDocumentFragment1199() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1196()
+	return p.cur.onDocumentFragment1199()
 }
 
-func (c *current) onDocumentFragment1199() (interface{}, error) {
+func (c *current) onDocumentFragment1202() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1199() (interface{}, error) {
+func (p *parser) callonDocumentFragment1202() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1199()
+	return p.cur.onDocumentFragment1202()
 }
 
-func (c *current) onDocumentFragment1214() (interface{}, error) {
+func (c *current) onDocumentFragment1217() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1214() (interface{}, error) {
+func (p *parser) callonDocumentFragment1217() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1214()
+	return p.cur.onDocumentFragment1217()
 }
 
-func (c *current) onDocumentFragment1217() (interface{}, error) {
+func (c *current) onDocumentFragment1220() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1217() (interface{}, error) {
+func (p *parser) callonDocumentFragment1220() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1217()
+	return p.cur.onDocumentFragment1220()
 }
 
-func (c *current) onDocumentFragment1209() (interface{}, error) {
+func (c *current) onDocumentFragment1212() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonDocumentFragment1209() (interface{}, error) {
+func (p *parser) callonDocumentFragment1212() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1209()
+	return p.cur.onDocumentFragment1212()
 }
 
-func (c *current) onDocumentFragment1226() (interface{}, error) {
+func (c *current) onDocumentFragment1229() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1226() (interface{}, error) {
+func (p *parser) callonDocumentFragment1229() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1226()
+	return p.cur.onDocumentFragment1229()
 }
 
-func (c *current) onDocumentFragment1231() (interface{}, error) {
+func (c *current) onDocumentFragment1234() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1231() (interface{}, error) {
+func (p *parser) callonDocumentFragment1234() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1231()
+	return p.cur.onDocumentFragment1234()
 }
 
-func (c *current) onDocumentFragment1234() (interface{}, error) {
+func (c *current) onDocumentFragment1237() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1234() (interface{}, error) {
+func (p *parser) callonDocumentFragment1237() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1234()
+	return p.cur.onDocumentFragment1237()
 }
 
-func (c *current) onDocumentFragment1248() (interface{}, error) {
+func (c *current) onDocumentFragment1251() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1248() (interface{}, error) {
+func (p *parser) callonDocumentFragment1251() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1248()
+	return p.cur.onDocumentFragment1251()
 }
 
-func (c *current) onDocumentFragment1251() (interface{}, error) {
+func (c *current) onDocumentFragment1254() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1251() (interface{}, error) {
+func (p *parser) callonDocumentFragment1254() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1251()
+	return p.cur.onDocumentFragment1254()
 }
 
-func (c *current) onDocumentFragment1266() (interface{}, error) {
+func (c *current) onDocumentFragment1269() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1266() (interface{}, error) {
+func (p *parser) callonDocumentFragment1269() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1266()
+	return p.cur.onDocumentFragment1269()
 }
 
-func (c *current) onDocumentFragment1269() (interface{}, error) {
+func (c *current) onDocumentFragment1272() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1269() (interface{}, error) {
+func (p *parser) callonDocumentFragment1272() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1269()
+	return p.cur.onDocumentFragment1272()
 }
 
-func (c *current) onDocumentFragment1261() (interface{}, error) {
+func (c *current) onDocumentFragment1264() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonDocumentFragment1261() (interface{}, error) {
+func (p *parser) callonDocumentFragment1264() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1261()
+	return p.cur.onDocumentFragment1264()
 }
 
-func (c *current) onDocumentFragment1280() (interface{}, error) {
+func (c *current) onDocumentFragment1283() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1280() (interface{}, error) {
+func (p *parser) callonDocumentFragment1283() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1280()
+	return p.cur.onDocumentFragment1283()
 }
 
-func (c *current) onDocumentFragment1285() (interface{}, error) {
+func (c *current) onDocumentFragment1288() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1285() (interface{}, error) {
+func (p *parser) callonDocumentFragment1288() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1285()
+	return p.cur.onDocumentFragment1288()
 }
 
-func (c *current) onDocumentFragment1290() (interface{}, error) {
+func (c *current) onDocumentFragment1293() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1290() (interface{}, error) {
+func (p *parser) callonDocumentFragment1293() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1290()
+	return p.cur.onDocumentFragment1293()
 }
 
-func (c *current) onDocumentFragment1241(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1244(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment1241() (interface{}, error) {
+func (p *parser) callonDocumentFragment1244() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1241(stack["content"])
+	return p.cur.onDocumentFragment1244(stack["content"])
 }
 
-func (c *current) onDocumentFragment1189(format, content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1192(format, content interface{}) (interface{}, error) {
 	return types.NewMultilineTableCell(content.([]interface{}), format)
 
 }
 
-func (p *parser) callonDocumentFragment1189() (interface{}, error) {
+func (p *parser) callonDocumentFragment1192() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1189(stack["format"], stack["content"])
+	return p.cur.onDocumentFragment1192(stack["format"], stack["content"])
 }
 
-func (c *current) onDocumentFragment1186(cells interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1189(cells interface{}) (interface{}, error) {
 	return cells, nil
 }
 
-func (p *parser) callonDocumentFragment1186() (interface{}, error) {
+func (p *parser) callonDocumentFragment1189() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1186(stack["cells"])
+	return p.cur.onDocumentFragment1189(stack["cells"])
 }
 
-func (c *current) onDocumentFragment1159(cells interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1162(cells interface{}) (interface{}, error) {
 	return types.NewTableRow(cells.([]interface{}))
 
 }
 
-func (p *parser) callonDocumentFragment1159() (interface{}, error) {
+func (p *parser) callonDocumentFragment1162() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1159(stack["cells"])
+	return p.cur.onDocumentFragment1162(stack["cells"])
 }
 
-func (c *current) onDocumentFragment1302() (interface{}, error) {
+func (c *current) onDocumentFragment1305() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1302() (interface{}, error) {
+func (p *parser) callonDocumentFragment1305() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1302()
+	return p.cur.onDocumentFragment1305()
 }
 
-func (c *current) onDocumentFragment1305() (interface{}, error) {
+func (c *current) onDocumentFragment1308() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1305() (interface{}, error) {
+func (p *parser) callonDocumentFragment1308() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1305()
+	return p.cur.onDocumentFragment1308()
 }
 
-func (c *current) onDocumentFragment1297() (interface{}, error) {
+func (c *current) onDocumentFragment1300() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonDocumentFragment1297() (interface{}, error) {
+func (p *parser) callonDocumentFragment1300() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1297()
+	return p.cur.onDocumentFragment1300()
 }
 
-func (c *current) onDocumentFragment1138(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1141(content interface{}) (interface{}, error) {
 	return content, nil
 
 }
 
-func (p *parser) callonDocumentFragment1138() (interface{}, error) {
+func (p *parser) callonDocumentFragment1141() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1138(stack["content"])
+	return p.cur.onDocumentFragment1141(stack["content"])
 }
 
-func (c *current) onDocumentFragment1316() (interface{}, error) {
+func (c *current) onDocumentFragment1319() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1316() (interface{}, error) {
+func (p *parser) callonDocumentFragment1319() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1316()
+	return p.cur.onDocumentFragment1319()
 }
 
-func (c *current) onDocumentFragment1319() (interface{}, error) {
+func (c *current) onDocumentFragment1322() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1319() (interface{}, error) {
+func (p *parser) callonDocumentFragment1322() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1319()
+	return p.cur.onDocumentFragment1322()
 }
 
-func (c *current) onDocumentFragment1106(lines interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1109(lines interface{}) (interface{}, error) {
 	return types.NewTable(lines.([]interface{}))
 
 }
 
-func (p *parser) callonDocumentFragment1106() (interface{}, error) {
+func (p *parser) callonDocumentFragment1109() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1106(stack["lines"])
+	return p.cur.onDocumentFragment1109(stack["lines"])
 }
 
-func (c *current) onDocumentFragment1334() (interface{}, error) {
+func (c *current) onDocumentFragment1337() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1334() (interface{}, error) {
+func (p *parser) callonDocumentFragment1337() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1334()
+	return p.cur.onDocumentFragment1337()
 }
 
-func (c *current) onDocumentFragment1338() (interface{}, error) {
+func (c *current) onDocumentFragment1341() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1338() (interface{}, error) {
+func (p *parser) callonDocumentFragment1341() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1338()
+	return p.cur.onDocumentFragment1341()
 }
 
-func (c *current) onDocumentFragment1328(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1331(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment1328() (interface{}, error) {
+func (p *parser) callonDocumentFragment1331() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1328(stack["content"])
+	return p.cur.onDocumentFragment1331(stack["content"])
 }
 
-func (c *current) onDocumentFragment1347() (bool, error) {
+func (c *current) onDocumentFragment1350() (bool, error) {
 	return c.isFrontMatterAllowed(), nil
 
 }
 
-func (p *parser) callonDocumentFragment1347() (bool, error) {
+func (p *parser) callonDocumentFragment1350() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1347()
+	return p.cur.onDocumentFragment1350()
 }
 
-func (c *current) onDocumentFragment1353() (interface{}, error) {
+func (c *current) onDocumentFragment1356() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1353() (interface{}, error) {
+func (p *parser) callonDocumentFragment1356() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1353()
+	return p.cur.onDocumentFragment1356()
 }
 
-func (c *current) onDocumentFragment1356() (interface{}, error) {
+func (c *current) onDocumentFragment1359() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1356() (interface{}, error) {
+func (p *parser) callonDocumentFragment1359() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1356()
+	return p.cur.onDocumentFragment1359()
 }
 
-func (c *current) onDocumentFragment1373() (interface{}, error) {
+func (c *current) onDocumentFragment1376() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1373() (interface{}, error) {
+func (p *parser) callonDocumentFragment1376() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1373()
+	return p.cur.onDocumentFragment1376()
 }
 
-func (c *current) onDocumentFragment1376() (interface{}, error) {
+func (c *current) onDocumentFragment1379() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1376() (interface{}, error) {
+func (p *parser) callonDocumentFragment1379() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1376()
+	return p.cur.onDocumentFragment1379()
 }
 
-func (c *current) onDocumentFragment1365() (interface{}, error) {
+func (c *current) onDocumentFragment1368() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1365() (interface{}, error) {
+func (p *parser) callonDocumentFragment1368() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1365()
+	return p.cur.onDocumentFragment1368()
 }
 
-func (c *current) onDocumentFragment1386() (interface{}, error) {
+func (c *current) onDocumentFragment1389() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1386() (interface{}, error) {
+func (p *parser) callonDocumentFragment1389() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1386()
+	return p.cur.onDocumentFragment1389()
 }
 
-func (c *current) onDocumentFragment1389() (interface{}, error) {
+func (c *current) onDocumentFragment1392() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1389() (interface{}, error) {
+func (p *parser) callonDocumentFragment1392() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1389()
+	return p.cur.onDocumentFragment1392()
 }
 
-func (c *current) onDocumentFragment1349(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1352(content interface{}) (interface{}, error) {
 	return types.NewYamlFrontMatter(content.(string))
 }
 
-func (p *parser) callonDocumentFragment1349() (interface{}, error) {
+func (p *parser) callonDocumentFragment1352() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1349(stack["content"])
+	return p.cur.onDocumentFragment1352(stack["content"])
 }
 
-func (c *current) onDocumentFragment1345(frontmatter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1348(frontmatter interface{}) (interface{}, error) {
 	return frontmatter, nil
 
 }
 
-func (p *parser) callonDocumentFragment1345() (interface{}, error) {
+func (p *parser) callonDocumentFragment1348() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1345(stack["frontmatter"])
+	return p.cur.onDocumentFragment1348(stack["frontmatter"])
 }
 
-func (c *current) onDocumentFragment1397(attributes, element interface{}) (bool, error) {
+func (c *current) onDocumentFragment1400(attributes, element interface{}) (bool, error) {
 	// there must be at least `attributes` or `element`
 	return attributes != nil || element != nil, nil
 
 }
 
-func (p *parser) callonDocumentFragment1397() (bool, error) {
+func (p *parser) callonDocumentFragment1400() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1397(stack["attributes"], stack["element"])
+	return p.cur.onDocumentFragment1400(stack["attributes"], stack["element"])
 }
 
 func (c *current) onDocumentFragment1(attributes, element interface{}) (interface{}, error) {
@@ -62631,7 +62671,7 @@ func (p *parser) callonExtraListElement646() (interface{}, error) {
 }
 
 func (c *current) onExtraListElement669() (interface{}, error) {
-	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
+	// exclude ` to avoid matching fenced blocks with more than 3 "`"
 	return string(c.text), nil
 }
 
@@ -64262,7 +64302,7 @@ func (p *parser) callonListContinuationElement378() (interface{}, error) {
 }
 
 func (c *current) onListContinuationElement482() (interface{}, error) {
-	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
+	// exclude ` to avoid matching fenced blocks with more than 3 "`"
 	return string(c.text), nil
 }
 
@@ -66211,8 +66251,9 @@ func (p *parser) callonListContinuationElement1305() (interface{}, error) {
 }
 
 func (c *current) onListContinuationElement1313() (interface{}, error) {
-	// TODO: just use "\n"
+
 	return string(c.text), nil
+
 }
 
 func (p *parser) callonListContinuationElement1313() (interface{}, error) {
@@ -66221,6 +66262,17 @@ func (p *parser) callonListContinuationElement1313() (interface{}, error) {
 	return p.cur.onListContinuationElement1313()
 }
 
+func (c *current) onListContinuationElement1316() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonListContinuationElement1316() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1316()
+}
+
 func (c *current) onListContinuationElement1291() (interface{}, error) {
 
 	return types.NewThematicBreak()
@@ -66233,685 +66285,685 @@ func (p *parser) callonListContinuationElement1291() (interface{}, error) {
 	return p.cur.onListContinuationElement1291()
 }
 
-func (c *current) onListContinuationElement1325() (interface{}, error) {
+func (c *current) onListContinuationElement1328() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1325() (interface{}, error) {
+func (p *parser) callonListContinuationElement1328() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1325()
+	return p.cur.onListContinuationElement1328()
 }
 
-func (c *current) onListContinuationElement1328() (interface{}, error) {
+func (c *current) onListContinuationElement1331() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1328() (interface{}, error) {
+func (p *parser) callonListContinuationElement1331() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1328()
+	return p.cur.onListContinuationElement1331()
 }
 
-func (c *current) onListContinuationElement1343() (interface{}, error) {
+func (c *current) onListContinuationElement1346() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1343() (interface{}, error) {
+func (p *parser) callonListContinuationElement1346() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1343()
+	return p.cur.onListContinuationElement1346()
 }
 
-func (c *current) onListContinuationElement1346() (interface{}, error) {
+func (c *current) onListContinuationElement1349() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1346() (interface{}, error) {
+func (p *parser) callonListContinuationElement1349() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1346()
+	return p.cur.onListContinuationElement1349()
 }
 
-func (c *current) onListContinuationElement1338() (interface{}, error) {
+func (c *current) onListContinuationElement1341() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1338() (interface{}, error) {
+func (p *parser) callonListContinuationElement1341() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1338()
+	return p.cur.onListContinuationElement1341()
 }
 
-func (c *current) onListContinuationElement1360() (interface{}, error) {
+func (c *current) onListContinuationElement1363() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1360() (interface{}, error) {
+func (p *parser) callonListContinuationElement1363() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1360()
+	return p.cur.onListContinuationElement1363()
 }
 
-func (c *current) onListContinuationElement1363() (interface{}, error) {
+func (c *current) onListContinuationElement1366() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1363() (interface{}, error) {
+func (p *parser) callonListContinuationElement1366() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1363()
+	return p.cur.onListContinuationElement1366()
 }
 
-func (c *current) onListContinuationElement1385() (interface{}, error) {
+func (c *current) onListContinuationElement1388() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1385() (interface{}, error) {
+func (p *parser) callonListContinuationElement1388() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1385()
+	return p.cur.onListContinuationElement1388()
 }
 
-func (c *current) onListContinuationElement1390() (interface{}, error) {
+func (c *current) onListContinuationElement1393() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1390() (interface{}, error) {
+func (p *parser) callonListContinuationElement1393() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1390()
+	return p.cur.onListContinuationElement1393()
 }
 
-func (c *current) onListContinuationElement1388(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1391(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1388() (interface{}, error) {
+func (p *parser) callonListContinuationElement1391() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1388(stack["content"])
+	return p.cur.onListContinuationElement1391(stack["content"])
 }
 
-func (c *current) onListContinuationElement1381(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1384(content interface{}) (interface{}, error) {
 	return types.NewInlineTableCell(content.(*types.RawLine))
 
 }
 
-func (p *parser) callonListContinuationElement1381() (interface{}, error) {
+func (p *parser) callonListContinuationElement1384() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1381(stack["content"])
+	return p.cur.onListContinuationElement1384(stack["content"])
 }
 
-func (c *current) onListContinuationElement1394() (interface{}, error) {
+func (c *current) onListContinuationElement1397() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1394() (interface{}, error) {
+func (p *parser) callonListContinuationElement1397() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1394()
+	return p.cur.onListContinuationElement1397()
 }
 
-func (c *current) onListContinuationElement1377(cells interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1380(cells interface{}) (interface{}, error) {
 
 	return cells, nil
 }
 
-func (p *parser) callonListContinuationElement1377() (interface{}, error) {
+func (p *parser) callonListContinuationElement1380() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1377(stack["cells"])
+	return p.cur.onListContinuationElement1380(stack["cells"])
 }
 
-func (c *current) onListContinuationElement1411() (interface{}, error) {
+func (c *current) onListContinuationElement1414() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1411() (interface{}, error) {
+func (p *parser) callonListContinuationElement1414() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1411()
+	return p.cur.onListContinuationElement1414()
 }
 
-func (c *current) onListContinuationElement1414() (interface{}, error) {
+func (c *current) onListContinuationElement1417() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1414() (interface{}, error) {
+func (p *parser) callonListContinuationElement1417() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1414()
+	return p.cur.onListContinuationElement1417()
 }
 
-func (c *current) onListContinuationElement1429() (interface{}, error) {
+func (c *current) onListContinuationElement1432() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1429() (interface{}, error) {
+func (p *parser) callonListContinuationElement1432() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1429()
+	return p.cur.onListContinuationElement1432()
 }
 
-func (c *current) onListContinuationElement1432() (interface{}, error) {
+func (c *current) onListContinuationElement1435() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1432() (interface{}, error) {
+func (p *parser) callonListContinuationElement1435() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1432()
+	return p.cur.onListContinuationElement1435()
 }
 
-func (c *current) onListContinuationElement1424() (interface{}, error) {
+func (c *current) onListContinuationElement1427() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1424() (interface{}, error) {
+func (p *parser) callonListContinuationElement1427() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1424()
+	return p.cur.onListContinuationElement1427()
 }
 
-func (c *current) onListContinuationElement1441() (interface{}, error) {
+func (c *current) onListContinuationElement1444() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1441() (interface{}, error) {
+func (p *parser) callonListContinuationElement1444() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1441()
+	return p.cur.onListContinuationElement1444()
 }
 
-func (c *current) onListContinuationElement1446() (interface{}, error) {
+func (c *current) onListContinuationElement1449() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1446() (interface{}, error) {
+func (p *parser) callonListContinuationElement1449() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1446()
+	return p.cur.onListContinuationElement1449()
 }
 
-func (c *current) onListContinuationElement1449() (interface{}, error) {
+func (c *current) onListContinuationElement1452() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1449() (interface{}, error) {
+func (p *parser) callonListContinuationElement1452() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1449()
+	return p.cur.onListContinuationElement1452()
 }
 
-func (c *current) onListContinuationElement1463() (interface{}, error) {
+func (c *current) onListContinuationElement1466() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1463() (interface{}, error) {
+func (p *parser) callonListContinuationElement1466() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1463()
+	return p.cur.onListContinuationElement1466()
 }
 
-func (c *current) onListContinuationElement1466() (interface{}, error) {
+func (c *current) onListContinuationElement1469() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1466() (interface{}, error) {
+func (p *parser) callonListContinuationElement1469() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1466()
+	return p.cur.onListContinuationElement1469()
 }
 
-func (c *current) onListContinuationElement1481() (interface{}, error) {
+func (c *current) onListContinuationElement1484() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1481() (interface{}, error) {
+func (p *parser) callonListContinuationElement1484() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1481()
+	return p.cur.onListContinuationElement1484()
 }
 
-func (c *current) onListContinuationElement1484() (interface{}, error) {
+func (c *current) onListContinuationElement1487() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1484() (interface{}, error) {
+func (p *parser) callonListContinuationElement1487() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1484()
+	return p.cur.onListContinuationElement1487()
 }
 
-func (c *current) onListContinuationElement1476() (interface{}, error) {
+func (c *current) onListContinuationElement1479() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1476() (interface{}, error) {
+func (p *parser) callonListContinuationElement1479() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1476()
+	return p.cur.onListContinuationElement1479()
 }
 
-func (c *current) onListContinuationElement1495() (interface{}, error) {
+func (c *current) onListContinuationElement1498() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1495() (interface{}, error) {
+func (p *parser) callonListContinuationElement1498() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1495()
+	return p.cur.onListContinuationElement1498()
 }
 
-func (c *current) onListContinuationElement1500() (interface{}, error) {
+func (c *current) onListContinuationElement1503() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1500() (interface{}, error) {
+func (p *parser) callonListContinuationElement1503() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1500()
+	return p.cur.onListContinuationElement1503()
 }
 
-func (c *current) onListContinuationElement1505() (interface{}, error) {
+func (c *current) onListContinuationElement1508() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1505() (interface{}, error) {
+func (p *parser) callonListContinuationElement1508() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1505()
+	return p.cur.onListContinuationElement1508()
 }
 
-func (c *current) onListContinuationElement1456(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1459(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1456() (interface{}, error) {
+func (p *parser) callonListContinuationElement1459() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1456(stack["content"])
+	return p.cur.onListContinuationElement1459(stack["content"])
 }
 
-func (c *current) onListContinuationElement1404(format, content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1407(format, content interface{}) (interface{}, error) {
 	return types.NewMultilineTableCell(content.([]interface{}), format)
 
 }
 
-func (p *parser) callonListContinuationElement1404() (interface{}, error) {
+func (p *parser) callonListContinuationElement1407() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1404(stack["format"], stack["content"])
+	return p.cur.onListContinuationElement1407(stack["format"], stack["content"])
 }
 
-func (c *current) onListContinuationElement1401(cells interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1404(cells interface{}) (interface{}, error) {
 	return cells, nil
 }
 
-func (p *parser) callonListContinuationElement1401() (interface{}, error) {
+func (p *parser) callonListContinuationElement1404() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1401(stack["cells"])
+	return p.cur.onListContinuationElement1404(stack["cells"])
 }
 
-func (c *current) onListContinuationElement1374(cells interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1377(cells interface{}) (interface{}, error) {
 	return types.NewTableRow(cells.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement1374() (interface{}, error) {
+func (p *parser) callonListContinuationElement1377() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1374(stack["cells"])
+	return p.cur.onListContinuationElement1377(stack["cells"])
 }
 
-func (c *current) onListContinuationElement1517() (interface{}, error) {
+func (c *current) onListContinuationElement1520() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1517() (interface{}, error) {
+func (p *parser) callonListContinuationElement1520() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1517()
+	return p.cur.onListContinuationElement1520()
 }
 
-func (c *current) onListContinuationElement1520() (interface{}, error) {
+func (c *current) onListContinuationElement1523() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1520() (interface{}, error) {
+func (p *parser) callonListContinuationElement1523() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1520()
+	return p.cur.onListContinuationElement1523()
 }
 
-func (c *current) onListContinuationElement1512() (interface{}, error) {
+func (c *current) onListContinuationElement1515() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1512() (interface{}, error) {
+func (p *parser) callonListContinuationElement1515() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1512()
+	return p.cur.onListContinuationElement1515()
 }
 
-func (c *current) onListContinuationElement1353(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1356(content interface{}) (interface{}, error) {
 	return content, nil
 
 }
 
-func (p *parser) callonListContinuationElement1353() (interface{}, error) {
+func (p *parser) callonListContinuationElement1356() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1353(stack["content"])
+	return p.cur.onListContinuationElement1356(stack["content"])
 }
 
-func (c *current) onListContinuationElement1531() (interface{}, error) {
+func (c *current) onListContinuationElement1534() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1531() (interface{}, error) {
+func (p *parser) callonListContinuationElement1534() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1531()
+	return p.cur.onListContinuationElement1534()
 }
 
-func (c *current) onListContinuationElement1534() (interface{}, error) {
+func (c *current) onListContinuationElement1537() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1534() (interface{}, error) {
+func (p *parser) callonListContinuationElement1537() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1534()
+	return p.cur.onListContinuationElement1537()
 }
 
-func (c *current) onListContinuationElement1321(lines interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1324(lines interface{}) (interface{}, error) {
 	return types.NewTable(lines.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement1321() (interface{}, error) {
+func (p *parser) callonListContinuationElement1324() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1321(stack["lines"])
+	return p.cur.onListContinuationElement1324(stack["lines"])
 }
 
-func (c *current) onListContinuationElement1549() (interface{}, error) {
+func (c *current) onListContinuationElement1552() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1549() (interface{}, error) {
+func (p *parser) callonListContinuationElement1552() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1549()
+	return p.cur.onListContinuationElement1552()
 }
 
-func (c *current) onListContinuationElement1553() (interface{}, error) {
+func (c *current) onListContinuationElement1556() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1553() (interface{}, error) {
+func (p *parser) callonListContinuationElement1556() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1553()
+	return p.cur.onListContinuationElement1556()
 }
 
-func (c *current) onListContinuationElement1543(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1546(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1543() (interface{}, error) {
+func (p *parser) callonListContinuationElement1546() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1543(stack["content"])
+	return p.cur.onListContinuationElement1546(stack["content"])
 }
 
-func (c *current) onListContinuationElement1566() (bool, error) {
+func (c *current) onListContinuationElement1569() (bool, error) {
 	return !c.isWithinLiteralParagraph(), nil
 
 }
 
-func (p *parser) callonListContinuationElement1566() (bool, error) {
+func (p *parser) callonListContinuationElement1569() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1566()
+	return p.cur.onListContinuationElement1569()
 }
 
-func (c *current) onListContinuationElement1569() (interface{}, error) {
+func (c *current) onListContinuationElement1572() (interface{}, error) {
 	return types.Tip, nil
 
 }
 
-func (p *parser) callonListContinuationElement1569() (interface{}, error) {
+func (p *parser) callonListContinuationElement1572() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1569()
+	return p.cur.onListContinuationElement1572()
 }
 
-func (c *current) onListContinuationElement1571() (interface{}, error) {
+func (c *current) onListContinuationElement1574() (interface{}, error) {
 	return types.Note, nil
 
 }
 
-func (p *parser) callonListContinuationElement1571() (interface{}, error) {
+func (p *parser) callonListContinuationElement1574() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1571()
+	return p.cur.onListContinuationElement1574()
 }
 
-func (c *current) onListContinuationElement1573() (interface{}, error) {
+func (c *current) onListContinuationElement1576() (interface{}, error) {
 	return types.Important, nil
 
 }
 
-func (p *parser) callonListContinuationElement1573() (interface{}, error) {
+func (p *parser) callonListContinuationElement1576() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1573()
+	return p.cur.onListContinuationElement1576()
 }
 
-func (c *current) onListContinuationElement1575() (interface{}, error) {
+func (c *current) onListContinuationElement1578() (interface{}, error) {
 	return types.Warning, nil
 
 }
 
-func (p *parser) callonListContinuationElement1575() (interface{}, error) {
+func (p *parser) callonListContinuationElement1578() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1575()
+	return p.cur.onListContinuationElement1578()
 }
 
-func (c *current) onListContinuationElement1577() (interface{}, error) {
+func (c *current) onListContinuationElement1580() (interface{}, error) {
 	return types.Caution, nil
 
 }
 
-func (p *parser) callonListContinuationElement1577() (interface{}, error) {
+func (p *parser) callonListContinuationElement1580() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1577()
+	return p.cur.onListContinuationElement1580()
 }
 
-func (c *current) onListContinuationElement1581() (interface{}, error) {
+func (c *current) onListContinuationElement1584() (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1581() (interface{}, error) {
+func (p *parser) callonListContinuationElement1584() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1581()
+	return p.cur.onListContinuationElement1584()
 }
 
-func (c *current) onListContinuationElement1579() (interface{}, error) {
+func (c *current) onListContinuationElement1582() (interface{}, error) {
 	// check
 	return types.LiteralParagraph, nil
 
 }
 
-func (p *parser) callonListContinuationElement1579() (interface{}, error) {
+func (p *parser) callonListContinuationElement1582() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1579()
+	return p.cur.onListContinuationElement1582()
 }
 
-func (c *current) onListContinuationElement1564(style interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1567(style interface{}) (interface{}, error) {
 	return style, nil
 
 }
 
-func (p *parser) callonListContinuationElement1564() (interface{}, error) {
+func (p *parser) callonListContinuationElement1567() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1564(stack["style"])
+	return p.cur.onListContinuationElement1567(stack["style"])
 }
 
-func (c *current) onListContinuationElement1593() (interface{}, error) {
+func (c *current) onListContinuationElement1596() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1593() (interface{}, error) {
+func (p *parser) callonListContinuationElement1596() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1593()
+	return p.cur.onListContinuationElement1596()
 }
 
-func (c *current) onListContinuationElement1596() (interface{}, error) {
+func (c *current) onListContinuationElement1599() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1596() (interface{}, error) {
+func (p *parser) callonListContinuationElement1599() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1596()
+	return p.cur.onListContinuationElement1599()
 }
 
-func (c *current) onListContinuationElement1588() (interface{}, error) {
+func (c *current) onListContinuationElement1591() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1588() (interface{}, error) {
+func (p *parser) callonListContinuationElement1591() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1588()
+	return p.cur.onListContinuationElement1591()
 }
 
-func (c *current) onListContinuationElement1607() (interface{}, error) {
+func (c *current) onListContinuationElement1610() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1607() (interface{}, error) {
+func (p *parser) callonListContinuationElement1610() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1607()
+	return p.cur.onListContinuationElement1610()
 }
 
-func (c *current) onListContinuationElement1609() (interface{}, error) {
+func (c *current) onListContinuationElement1612() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1609() (interface{}, error) {
+func (p *parser) callonListContinuationElement1612() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1609()
+	return p.cur.onListContinuationElement1612()
 }
 
-func (c *current) onListContinuationElement1618() (interface{}, error) {
+func (c *current) onListContinuationElement1621() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1618() (interface{}, error) {
+func (p *parser) callonListContinuationElement1621() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1618()
+	return p.cur.onListContinuationElement1621()
 }
 
-func (c *current) onListContinuationElement1625() (interface{}, error) {
+func (c *current) onListContinuationElement1628() (interface{}, error) {
 
 	// `.` is 1, etc.
 	return (len(c.text)), nil
 
 }
 
-func (p *parser) callonListContinuationElement1625() (interface{}, error) {
+func (p *parser) callonListContinuationElement1628() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1625()
+	return p.cur.onListContinuationElement1628()
 }
 
-func (c *current) onListContinuationElement1628(depth interface{}) (bool, error) {
+func (c *current) onListContinuationElement1631(depth interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `.` to `.....` are allowed
 	return depth.(int) <= 5, nil
 
 }
 
-func (p *parser) callonListContinuationElement1628() (bool, error) {
+func (p *parser) callonListContinuationElement1631() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1628(stack["depth"])
+	return p.cur.onListContinuationElement1631(stack["depth"])
 }
 
-func (c *current) onListContinuationElement1622(depth interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1625(depth interface{}) (interface{}, error) {
 	switch depth.(int) {
 	case 1:
 		return types.NewOrderedListElementPrefix(types.Arabic)
@@ -66927,756 +66979,756 @@ func (c *current) onListContinuationElement1622(depth interface{}) (interface{},
 
 }
 
-func (p *parser) callonListContinuationElement1622() (interface{}, error) {
+func (p *parser) callonListContinuationElement1625() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1622(stack["depth"])
+	return p.cur.onListContinuationElement1625(stack["depth"])
 }
 
-func (c *current) onListContinuationElement1629() (interface{}, error) {
+func (c *current) onListContinuationElement1632() (interface{}, error) {
 	// numbering style: "1.", etc.
 	return types.NewOrderedListElementPrefix(types.Arabic)
 
 }
 
-func (p *parser) callonListContinuationElement1629() (interface{}, error) {
+func (p *parser) callonListContinuationElement1632() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1629()
+	return p.cur.onListContinuationElement1632()
 }
 
-func (c *current) onListContinuationElement1634() (interface{}, error) {
+func (c *current) onListContinuationElement1637() (interface{}, error) {
 	// numbering style: "a.", etc.
 	return types.NewOrderedListElementPrefix(types.LowerAlpha)
 
 }
 
-func (p *parser) callonListContinuationElement1634() (interface{}, error) {
+func (p *parser) callonListContinuationElement1637() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1634()
+	return p.cur.onListContinuationElement1637()
 }
 
-func (c *current) onListContinuationElement1638() (interface{}, error) {
+func (c *current) onListContinuationElement1641() (interface{}, error) {
 	// numbering style: "A.", etc.
 	return types.NewOrderedListElementPrefix(types.UpperAlpha)
 
 }
 
-func (p *parser) callonListContinuationElement1638() (interface{}, error) {
+func (p *parser) callonListContinuationElement1641() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1638()
+	return p.cur.onListContinuationElement1641()
 }
 
-func (c *current) onListContinuationElement1642() (interface{}, error) {
+func (c *current) onListContinuationElement1645() (interface{}, error) {
 	// numbering style: "i)", etc.
 	return types.NewOrderedListElementPrefix(types.LowerRoman)
 
 }
 
-func (p *parser) callonListContinuationElement1642() (interface{}, error) {
+func (p *parser) callonListContinuationElement1645() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1642()
+	return p.cur.onListContinuationElement1645()
 }
 
-func (c *current) onListContinuationElement1647() (interface{}, error) {
+func (c *current) onListContinuationElement1650() (interface{}, error) {
 	// numbering style: "I)", etc.
 	return types.NewOrderedListElementPrefix(types.UpperRoman)
 
 }
 
-func (p *parser) callonListContinuationElement1647() (interface{}, error) {
+func (p *parser) callonListContinuationElement1650() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1647()
+	return p.cur.onListContinuationElement1650()
 }
 
-func (c *current) onListContinuationElement1652(prefix interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1655(prefix interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1652() (interface{}, error) {
+func (p *parser) callonListContinuationElement1655() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1652(stack["prefix"])
+	return p.cur.onListContinuationElement1655(stack["prefix"])
 }
 
-func (c *current) onListContinuationElement1615(prefix interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1618(prefix interface{}) (interface{}, error) {
 	return prefix, nil
 }
 
-func (p *parser) callonListContinuationElement1615() (interface{}, error) {
+func (p *parser) callonListContinuationElement1618() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1615(stack["prefix"])
+	return p.cur.onListContinuationElement1618(stack["prefix"])
 }
 
-func (c *current) onListContinuationElement1659() (interface{}, error) {
+func (c *current) onListContinuationElement1662() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1659() (interface{}, error) {
+func (p *parser) callonListContinuationElement1662() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1659()
+	return p.cur.onListContinuationElement1662()
 }
 
-func (c *current) onListContinuationElement1662() (interface{}, error) {
+func (c *current) onListContinuationElement1665() (interface{}, error) {
 	// `-` or `*` to `*****`
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1662() (interface{}, error) {
+func (p *parser) callonListContinuationElement1665() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1662()
+	return p.cur.onListContinuationElement1665()
 }
 
-func (c *current) onListContinuationElement1667(style interface{}) (bool, error) {
+func (c *current) onListContinuationElement1670(style interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `*` to `*****` are allowed
 	return len(style.(string)) <= 5, nil
 
 }
 
-func (p *parser) callonListContinuationElement1667() (bool, error) {
+func (p *parser) callonListContinuationElement1670() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1667(stack["style"])
+	return p.cur.onListContinuationElement1670(stack["style"])
 }
 
-func (c *current) onListContinuationElement1668(style interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1671(style interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1668() (interface{}, error) {
+func (p *parser) callonListContinuationElement1671() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1668(stack["style"])
+	return p.cur.onListContinuationElement1671(stack["style"])
 }
 
-func (c *current) onListContinuationElement1656(style interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1659(style interface{}) (interface{}, error) {
 	return types.NewUnorderedListElementPrefix(style.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1656() (interface{}, error) {
+func (p *parser) callonListContinuationElement1659() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1656(stack["style"])
+	return p.cur.onListContinuationElement1659(stack["style"])
 }
 
-func (c *current) onListContinuationElement1676() (interface{}, error) {
+func (c *current) onListContinuationElement1679() (interface{}, error) {
 	return strconv.Atoi(string(c.text))
 }
 
-func (p *parser) callonListContinuationElement1676() (interface{}, error) {
+func (p *parser) callonListContinuationElement1679() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1676()
+	return p.cur.onListContinuationElement1679()
 }
 
-func (c *current) onListContinuationElement1680(ref interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1683(ref interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1680() (interface{}, error) {
+func (p *parser) callonListContinuationElement1683() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1680(stack["ref"])
+	return p.cur.onListContinuationElement1683(stack["ref"])
 }
 
-func (c *current) onListContinuationElement1672(ref interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1675(ref interface{}) (interface{}, error) {
 	return ref, nil
 
 }
 
-func (p *parser) callonListContinuationElement1672() (interface{}, error) {
+func (p *parser) callonListContinuationElement1675() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1672(stack["ref"])
+	return p.cur.onListContinuationElement1675(stack["ref"])
 }
 
-func (c *current) onListContinuationElement1692() (interface{}, error) {
+func (c *current) onListContinuationElement1695() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1692() (interface{}, error) {
+func (p *parser) callonListContinuationElement1695() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1692()
+	return p.cur.onListContinuationElement1695()
 }
 
-func (c *current) onListContinuationElement1695(separator interface{}) (bool, error) {
+func (c *current) onListContinuationElement1698(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonListContinuationElement1695() (bool, error) {
+func (p *parser) callonListContinuationElement1698() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1695(stack["separator"])
+	return p.cur.onListContinuationElement1698(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1689(separator interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1692(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonListContinuationElement1689() (interface{}, error) {
+func (p *parser) callonListContinuationElement1692() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1689(stack["separator"])
+	return p.cur.onListContinuationElement1692(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1698() (interface{}, error) {
+func (c *current) onListContinuationElement1701() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1698() (interface{}, error) {
+func (p *parser) callonListContinuationElement1701() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1698()
+	return p.cur.onListContinuationElement1701()
 }
 
-func (c *current) onListContinuationElement1685() (interface{}, error) {
+func (c *current) onListContinuationElement1688() (interface{}, error) {
 	return types.NewRawLine(strings.TrimSpace(string(c.text)))
 
 }
 
-func (p *parser) callonListContinuationElement1685() (interface{}, error) {
+func (p *parser) callonListContinuationElement1688() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1685()
+	return p.cur.onListContinuationElement1688()
 }
 
-func (c *current) onListContinuationElement1709() (interface{}, error) {
+func (c *current) onListContinuationElement1712() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1709() (interface{}, error) {
+func (p *parser) callonListContinuationElement1712() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1709()
+	return p.cur.onListContinuationElement1712()
 }
 
-func (c *current) onListContinuationElement1712(separator interface{}) (bool, error) {
+func (c *current) onListContinuationElement1715(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonListContinuationElement1712() (bool, error) {
+func (p *parser) callonListContinuationElement1715() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1712(stack["separator"])
+	return p.cur.onListContinuationElement1715(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1706(separator interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1709(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonListContinuationElement1706() (interface{}, error) {
+func (p *parser) callonListContinuationElement1709() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1706(stack["separator"])
+	return p.cur.onListContinuationElement1709(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1723() (interface{}, error) {
+func (c *current) onListContinuationElement1726() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1723() (interface{}, error) {
+func (p *parser) callonListContinuationElement1726() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1723()
+	return p.cur.onListContinuationElement1726()
 }
 
-func (c *current) onListContinuationElement1729() (interface{}, error) {
+func (c *current) onListContinuationElement1732() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1729() (interface{}, error) {
+func (p *parser) callonListContinuationElement1732() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1729()
+	return p.cur.onListContinuationElement1732()
 }
 
-func (c *current) onListContinuationElement1732() (interface{}, error) {
+func (c *current) onListContinuationElement1735() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1732() (interface{}, error) {
+func (p *parser) callonListContinuationElement1735() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1732()
+	return p.cur.onListContinuationElement1735()
 }
 
-func (c *current) onListContinuationElement1720(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1723(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1720() (interface{}, error) {
+func (p *parser) callonListContinuationElement1723() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1720(stack["delimiter"])
+	return p.cur.onListContinuationElement1723(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1742() (interface{}, error) {
+func (c *current) onListContinuationElement1745() (interface{}, error) {
 	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1742() (interface{}, error) {
+func (p *parser) callonListContinuationElement1745() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1742()
+	return p.cur.onListContinuationElement1745()
 }
 
-func (c *current) onListContinuationElement1748() (interface{}, error) {
+func (c *current) onListContinuationElement1751() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1748() (interface{}, error) {
+func (p *parser) callonListContinuationElement1751() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1748()
+	return p.cur.onListContinuationElement1751()
 }
 
-func (c *current) onListContinuationElement1751() (interface{}, error) {
+func (c *current) onListContinuationElement1754() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1751() (interface{}, error) {
+func (p *parser) callonListContinuationElement1754() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1751()
+	return p.cur.onListContinuationElement1754()
 }
 
-func (c *current) onListContinuationElement1739(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1742(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1739() (interface{}, error) {
+func (p *parser) callonListContinuationElement1742() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1739(stack["delimiter"])
+	return p.cur.onListContinuationElement1742(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1762() (interface{}, error) {
-	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
+func (c *current) onListContinuationElement1765() (interface{}, error) {
+	// exclude ` to avoid matching fenced blocks with more than 3 "`"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1762() (interface{}, error) {
+func (p *parser) callonListContinuationElement1765() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1762()
+	return p.cur.onListContinuationElement1765()
 }
 
-func (c *current) onListContinuationElement1766() (interface{}, error) {
+func (c *current) onListContinuationElement1769() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1766() (interface{}, error) {
+func (p *parser) callonListContinuationElement1769() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1766()
+	return p.cur.onListContinuationElement1769()
 }
 
-func (c *current) onListContinuationElement1769() (interface{}, error) {
+func (c *current) onListContinuationElement1772() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1769() (interface{}, error) {
+func (p *parser) callonListContinuationElement1772() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1769()
+	return p.cur.onListContinuationElement1772()
 }
 
-func (c *current) onListContinuationElement1758(language interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1761(language interface{}) (interface{}, error) {
 	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
 }
 
-func (p *parser) callonListContinuationElement1758() (interface{}, error) {
+func (p *parser) callonListContinuationElement1761() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1758(stack["language"])
+	return p.cur.onListContinuationElement1761(stack["language"])
 }
 
-func (c *current) onListContinuationElement1779() (interface{}, error) {
+func (c *current) onListContinuationElement1782() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1779() (interface{}, error) {
+func (p *parser) callonListContinuationElement1782() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1779()
+	return p.cur.onListContinuationElement1782()
 }
 
-func (c *current) onListContinuationElement1785() (interface{}, error) {
+func (c *current) onListContinuationElement1788() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1785() (interface{}, error) {
+func (p *parser) callonListContinuationElement1788() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1785()
+	return p.cur.onListContinuationElement1788()
 }
 
-func (c *current) onListContinuationElement1788() (interface{}, error) {
+func (c *current) onListContinuationElement1791() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1788() (interface{}, error) {
+func (p *parser) callonListContinuationElement1791() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1788()
+	return p.cur.onListContinuationElement1791()
 }
 
-func (c *current) onListContinuationElement1776(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1779(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1776() (interface{}, error) {
+func (p *parser) callonListContinuationElement1779() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1776(stack["delimiter"])
+	return p.cur.onListContinuationElement1779(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1798() (interface{}, error) {
+func (c *current) onListContinuationElement1801() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1798() (interface{}, error) {
+func (p *parser) callonListContinuationElement1801() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1798()
+	return p.cur.onListContinuationElement1801()
 }
 
-func (c *current) onListContinuationElement1804() (interface{}, error) {
+func (c *current) onListContinuationElement1807() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1804() (interface{}, error) {
+func (p *parser) callonListContinuationElement1807() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1804()
+	return p.cur.onListContinuationElement1807()
 }
 
-func (c *current) onListContinuationElement1807() (interface{}, error) {
+func (c *current) onListContinuationElement1810() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1807() (interface{}, error) {
+func (p *parser) callonListContinuationElement1810() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1807()
+	return p.cur.onListContinuationElement1810()
 }
 
-func (c *current) onListContinuationElement1795(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1798(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1795() (interface{}, error) {
+func (p *parser) callonListContinuationElement1798() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1795(stack["delimiter"])
+	return p.cur.onListContinuationElement1798(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1817() (interface{}, error) {
+func (c *current) onListContinuationElement1820() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1817() (interface{}, error) {
+func (p *parser) callonListContinuationElement1820() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1817()
+	return p.cur.onListContinuationElement1820()
 }
 
-func (c *current) onListContinuationElement1823() (interface{}, error) {
+func (c *current) onListContinuationElement1826() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1823() (interface{}, error) {
+func (p *parser) callonListContinuationElement1826() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1823()
+	return p.cur.onListContinuationElement1826()
 }
 
-func (c *current) onListContinuationElement1826() (interface{}, error) {
+func (c *current) onListContinuationElement1829() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1826() (interface{}, error) {
+func (p *parser) callonListContinuationElement1829() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1826()
+	return p.cur.onListContinuationElement1829()
 }
 
-func (c *current) onListContinuationElement1814(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1817(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1814() (interface{}, error) {
+func (p *parser) callonListContinuationElement1817() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1814(stack["delimiter"])
+	return p.cur.onListContinuationElement1817(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1836() (interface{}, error) {
+func (c *current) onListContinuationElement1839() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1836() (interface{}, error) {
+func (p *parser) callonListContinuationElement1839() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1836()
+	return p.cur.onListContinuationElement1839()
 }
 
-func (c *current) onListContinuationElement1842() (interface{}, error) {
+func (c *current) onListContinuationElement1845() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1842() (interface{}, error) {
+func (p *parser) callonListContinuationElement1845() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1842()
+	return p.cur.onListContinuationElement1845()
 }
 
-func (c *current) onListContinuationElement1845() (interface{}, error) {
+func (c *current) onListContinuationElement1848() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1845() (interface{}, error) {
+func (p *parser) callonListContinuationElement1848() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1845()
+	return p.cur.onListContinuationElement1848()
 }
 
-func (c *current) onListContinuationElement1833(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1836(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1833() (interface{}, error) {
+func (p *parser) callonListContinuationElement1836() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1833(stack["delimiter"])
+	return p.cur.onListContinuationElement1836(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1855() (interface{}, error) {
+func (c *current) onListContinuationElement1858() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1855() (interface{}, error) {
+func (p *parser) callonListContinuationElement1858() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1855()
+	return p.cur.onListContinuationElement1858()
 }
 
-func (c *current) onListContinuationElement1861() (interface{}, error) {
+func (c *current) onListContinuationElement1864() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1861() (interface{}, error) {
+func (p *parser) callonListContinuationElement1864() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1861()
+	return p.cur.onListContinuationElement1864()
 }
 
-func (c *current) onListContinuationElement1864() (interface{}, error) {
+func (c *current) onListContinuationElement1867() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1864() (interface{}, error) {
+func (p *parser) callonListContinuationElement1867() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1864()
+	return p.cur.onListContinuationElement1867()
 }
 
-func (c *current) onListContinuationElement1852(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1855(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1852() (interface{}, error) {
+func (p *parser) callonListContinuationElement1855() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1852(stack["delimiter"])
+	return p.cur.onListContinuationElement1855(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1874() (interface{}, error) {
+func (c *current) onListContinuationElement1877() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1874() (interface{}, error) {
+func (p *parser) callonListContinuationElement1877() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1874()
+	return p.cur.onListContinuationElement1877()
 }
 
-func (c *current) onListContinuationElement1880() (interface{}, error) {
+func (c *current) onListContinuationElement1883() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1880() (interface{}, error) {
+func (p *parser) callonListContinuationElement1883() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1880()
+	return p.cur.onListContinuationElement1883()
 }
 
-func (c *current) onListContinuationElement1883() (interface{}, error) {
+func (c *current) onListContinuationElement1886() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1883() (interface{}, error) {
+func (p *parser) callonListContinuationElement1886() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1883()
+	return p.cur.onListContinuationElement1886()
 }
 
-func (c *current) onListContinuationElement1871(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1874(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1871() (interface{}, error) {
+func (p *parser) callonListContinuationElement1874() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1871(stack["delimiter"])
+	return p.cur.onListContinuationElement1874(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1714(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1717(delimiter interface{}) (interface{}, error) {
 	return delimiter, nil
 
 }
 
-func (p *parser) callonListContinuationElement1714() (interface{}, error) {
+func (p *parser) callonListContinuationElement1717() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1714(stack["delimiter"])
+	return p.cur.onListContinuationElement1717(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1891() (interface{}, error) {
+func (c *current) onListContinuationElement1894() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1891() (interface{}, error) {
+func (p *parser) callonListContinuationElement1894() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1891()
+	return p.cur.onListContinuationElement1894()
 }
 
-func (c *current) onListContinuationElement1895() (interface{}, error) {
+func (c *current) onListContinuationElement1898() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1895() (interface{}, error) {
+func (p *parser) callonListContinuationElement1898() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1895()
+	return p.cur.onListContinuationElement1898()
 }
 
-func (c *current) onListContinuationElement1585(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1588(content interface{}) (interface{}, error) {
 	// do not retain the EOL chars
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1585() (interface{}, error) {
+func (p *parser) callonListContinuationElement1588() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1585(stack["content"])
+	return p.cur.onListContinuationElement1588(stack["content"])
 }
 
-func (c *current) onListContinuationElement1560(style, content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1563(style, content interface{}) (interface{}, error) {
 	return types.NewParagraph(style, content)
 
 }
 
-func (p *parser) callonListContinuationElement1560() (interface{}, error) {
+func (p *parser) callonListContinuationElement1563() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1560(stack["style"], stack["content"])
+	return p.cur.onListContinuationElement1563(stack["style"], stack["content"])
 }
 
 func (c *current) onListContinuationElement1(attributes, element interface{}) (interface{}, error) {
@@ -68050,7 +68102,7 @@ func (p *parser) callonShortcutParagraph101() (interface{}, error) {
 }
 
 func (c *current) onShortcutParagraph124() (interface{}, error) {
-	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
+	// exclude ` to avoid matching fenced blocks with more than 3 "`"
 	return string(c.text), nil
 }
 
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 88a5dd0..2c06bba 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -761,7 +761,7 @@ MarkdownCodeDelimiter <- "```" language:(Language) Space* EOL {
     return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
 }
 
-Language <- ([^\r\n` ]+) { // exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
+Language <- ([^\r\n`\t ]+) { // exclude ` to avoid matching fenced blocks with more than 3 "`"                  
     return string(c.text), nil
 }
 
@@ -2696,8 +2696,8 @@ Column <-
 // -------------------------------------------------------------------------------------
 ThematicBreak <- (
         "'''" // Asciidoc flavour
-        / "***" / "* * *" / "---" / "- - -" / "___" / "_ _ _" // Markdown flavours are supported, too
-        ) Space* EOL EOL { 
+        / "***" / "* * *" / "---" / "- - -" / "___" / "_ _ _" // Markdown flavours, too  
+        ) Space* EOL Space* EOL { 
         return types.NewThematicBreak()
     }
 
-- 
2.43.0


From 419f1c35e0faaa13eb20c70ff3aa8bb989d5de13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:13 +0000
Subject: [PATCH 074/143] fix: lists with text after an attached block, or with
 a blank line after a list continuation, were lost

---
 pkg/types/types.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index a3479b8..b0966b7 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -941,13 +941,18 @@ func NewListElements(elements []interface{}) (*ListElements, error) {
 		case *RawLine, *SinglelineComment:
 			// append to last element
 			if len(elmts) > 0 {
-				switch elmt := elmts[len(elmts)-1].(type) {
-				case WithElementAddition:
-					if err := elmt.AddElement(e); err != nil {
-						return nil, errors.Errorf("unable to attach element of type '%T' in a list", e)
+				if elmt, ok := elmts[len(elmts)-1].(WithElementAddition); ok {
+					if err := elmt.AddElement(e); err == nil {
+						continue
 					}
-				default:
-					return nil, errors.Errorf("unable to attach element of type '%T' in a list", e)
+				}
+				// the last element is a block: the line begins another paragraph in the same list element
+				if e, ok := e.(*RawLine); ok {
+					p, err := NewParagraph(nil, e)
+					if err != nil {
+						return nil, err
+					}
+					elmts = append(elmts, &ListContinuation{Element: p})
 				}
 			}
 		case *ListContinuation:
-- 
2.43.0


From a90a9cc47995499ef004c26ee848b50acf9adbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:29 +0000
Subject: [PATCH 075/143] fix: paragraphs with lines of non-breaking spaces, or
 with an admonition only, were lost

---
 pkg/parser/parser.go  | 1524 ++++++++++++++++++++++++-----------------
 pkg/parser/parser.peg |    6 +-
 2 files changed, 888 insertions(+), 642 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 4ea84b5..784d981 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -7318,13 +7318,13 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 1784, col: 5, offset: 57610},
+																		pos: position{line: 1784, col: 5, offset: 57614},
 																		run: (*parser).callonDocumentFragment689,
 																		expr: &seqExpr{
-																			pos: position{line: 1784, col: 5, offset: 57610},
+																			pos: position{line: 1784, col: 5, offset: 57614},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1784, col: 5, offset: 57610},
+																					pos:   position{line: 1784, col: 5, offset: 57614},
 																					label: "content",
 																					expr: &actionExpr{
 																						pos: position{line: 2802, col: 14, offset: 88832},
@@ -7342,7 +7342,7 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1785, col: 5, offset: 57634},
+																					pos: position{line: 1785, col: 5, offset: 57638},
 																					run: (*parser).callonDocumentFragment695,
 																				},
 																				&choiceExpr{
@@ -33318,13 +33318,13 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1784, col: 5, offset: 57610},
+																	pos: position{line: 1784, col: 5, offset: 57614},
 																	run: (*parser).callonListContinuationElement904,
 																	expr: &seqExpr{
-																		pos: position{line: 1784, col: 5, offset: 57610},
+																		pos: position{line: 1784, col: 5, offset: 57614},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1784, col: 5, offset: 57610},
+																				pos:   position{line: 1784, col: 5, offset: 57614},
 																				label: "content",
 																				expr: &actionExpr{
 																					pos: position{line: 2802, col: 14, offset: 88832},
@@ -33342,7 +33342,7 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1785, col: 5, offset: 57634},
+																				pos: position{line: 1785, col: 5, offset: 57638},
 																				run: (*parser).callonListContinuationElement910,
 																			},
 																			&choiceExpr{
@@ -36397,6 +36397,66 @@ var g = &grammar{
 																			},
 																		},
 																	},
+																	&notExpr{
+																		pos: position{line: 1740, col: 12, offset: 56194},
+																		expr: &seqExpr{
+																			pos: position{line: 1740, col: 14, offset: 56196},
+																			exprs: []interface{}{
+																				&zeroOrMoreExpr{
+																					pos: position{line: 1740, col: 14, offset: 56196},
+																					expr: &actionExpr{
+																						pos: position{line: 2852, col: 10, offset: 90239},
+																						run: (*parser).callonListContinuationElement1590,
+																						expr: &charClassMatcher{
+																							pos:        position{line: 2852, col: 10, offset: 90239},
+																							val:        "[\\t ]",
+																							chars:      []rune{'\t', ' '},
+																							ignoreCase: false,
+																							inverted:   false,
+																						},
+																					},
+																				},
+																				&choiceExpr{
+																					pos: position{line: 2874, col: 8, offset: 90637},
+																					alternatives: []interface{}{
+																						&actionExpr{
+																							pos: position{line: 2861, col: 12, offset: 90410},
+																							run: (*parser).callonListContinuationElement1593,
+																							expr: &choiceExpr{
+																								pos: position{line: 2861, col: 13, offset: 90411},
+																								alternatives: []interface{}{
+																									&litMatcher{
+																										pos:        position{line: 2861, col: 13, offset: 90411},
+																										val:        "\n",
+																										ignoreCase: false,
+																										want:       "\"\\n\"",
+																									},
+																									&litMatcher{
+																										pos:        position{line: 2861, col: 20, offset: 90418},
+																										val:        "\r\n",
+																										ignoreCase: false,
+																										want:       "\"\\r\\n\"",
+																									},
+																									&litMatcher{
+																										pos:        position{line: 2861, col: 29, offset: 90427},
+																										val:        "\r",
+																										ignoreCase: false,
+																										want:       "\"\\r\"",
+																									},
+																								},
+																							},
+																						},
+																						&notExpr{
+																							pos: position{line: 2871, col: 8, offset: 90587},
+																							expr: &anyMatcher{
+																								line: 2871, col: 9, offset: 90588,
+																							},
+																						},
+																					},
+																				},
+																			},
+																		},
+																	},
 																},
 															},
 														},
@@ -36407,7 +36467,7 @@ var g = &grammar{
 													label: "content",
 													expr: &actionExpr{
 														pos: position{line: 1505, col: 5, offset: 48800},
-														run: (*parser).callonListContinuationElement1588,
+														run: (*parser).callonListContinuationElement1601,
 														expr: &seqExpr{
 															pos: position{line: 1505, col: 5, offset: 48800},
 															exprs: []interface{}{
@@ -36415,7 +36475,7 @@ var g = &grammar{
 																	pos: position{line: 1505, col: 5, offset: 48800},
 																	expr: &actionExpr{
 																		pos: position{line: 677, col: 14, offset: 21489},
-																		run: (*parser).callonListContinuationElement1591,
+																		run: (*parser).callonListContinuationElement1604,
 																		expr: &seqExpr{
 																			pos: position{line: 677, col: 14, offset: 21489},
 																			exprs: []interface{}{
@@ -36429,7 +36489,7 @@ var g = &grammar{
 																					pos: position{line: 677, col: 21, offset: 21496},
 																					expr: &actionExpr{
 																						pos: position{line: 2852, col: 10, offset: 90239},
-																						run: (*parser).callonListContinuationElement1596,
+																						run: (*parser).callonListContinuationElement1609,
 																						expr: &charClassMatcher{
 																							pos:        position{line: 2852, col: 10, offset: 90239},
 																							val:        "[\\t ]",
@@ -36444,7 +36504,7 @@ var g = &grammar{
 																					alternatives: []interface{}{
 																						&actionExpr{
 																							pos: position{line: 2861, col: 12, offset: 90410},
-																							run: (*parser).callonListContinuationElement1599,
+																							run: (*parser).callonListContinuationElement1612,
 																							expr: &choiceExpr{
 																								pos: position{line: 2861, col: 13, offset: 90411},
 																								alternatives: []interface{}{
@@ -36496,7 +36556,7 @@ var g = &grammar{
 																				pos: position{line: 1536, col: 31, offset: 49645},
 																				expr: &actionExpr{
 																					pos: position{line: 2852, col: 10, offset: 90239},
-																					run: (*parser).callonListContinuationElement1610,
+																					run: (*parser).callonListContinuationElement1623,
 																					expr: &charClassMatcher{
 																						pos:        position{line: 2852, col: 10, offset: 90239},
 																						val:        "[\\t ]",
@@ -36508,7 +36568,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 2861, col: 12, offset: 90410},
-																				run: (*parser).callonListContinuationElement1612,
+																				run: (*parser).callonListContinuationElement1625,
 																				expr: &choiceExpr{
 																					pos: position{line: 2861, col: 13, offset: 90411},
 																					alternatives: []interface{}{
@@ -36540,7 +36600,7 @@ var g = &grammar{
 																	pos: position{line: 1507, col: 5, offset: 48843},
 																	expr: &actionExpr{
 																		pos: position{line: 1577, col: 5, offset: 50860},
-																		run: (*parser).callonListContinuationElement1618,
+																		run: (*parser).callonListContinuationElement1631,
 																		expr: &seqExpr{
 																			pos: position{line: 1577, col: 5, offset: 50860},
 																			exprs: []interface{}{
@@ -36548,7 +36608,7 @@ var g = &grammar{
 																					pos: position{line: 1577, col: 5, offset: 50860},
 																					expr: &actionExpr{
 																						pos: position{line: 2852, col: 10, offset: 90239},
-																						run: (*parser).callonListContinuationElement1621,
+																						run: (*parser).callonListContinuationElement1634,
 																						expr: &charClassMatcher{
 																							pos:        position{line: 2852, col: 10, offset: 90239},
 																							val:        "[\\t ]",
@@ -36566,7 +36626,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 1579, col: 9, offset: 50930},
-																								run: (*parser).callonListContinuationElement1625,
+																								run: (*parser).callonListContinuationElement1638,
 																								expr: &seqExpr{
 																									pos: position{line: 1579, col: 9, offset: 50930},
 																									exprs: []interface{}{
@@ -36575,7 +36635,7 @@ var g = &grammar{
 																											label: "depth",
 																											expr: &actionExpr{
 																												pos: position{line: 1579, col: 16, offset: 50937},
-																												run: (*parser).callonListContinuationElement1628,
+																												run: (*parser).callonListContinuationElement1641,
 																												expr: &oneOrMoreExpr{
 																													pos: position{line: 1579, col: 16, offset: 50937},
 																													expr: &litMatcher{
@@ -36589,14 +36649,14 @@ var g = &grammar{
 																										},
 																										&andCodeExpr{
 																											pos: position{line: 1583, col: 9, offset: 51038},
-																											run: (*parser).callonListContinuationElement1631,
+																											run: (*parser).callonListContinuationElement1644,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
 																								pos: position{line: 1602, col: 11, offset: 51755},
-																								run: (*parser).callonListContinuationElement1632,
+																								run: (*parser).callonListContinuationElement1645,
 																								expr: &seqExpr{
 																									pos: position{line: 1602, col: 11, offset: 51755},
 																									exprs: []interface{}{
@@ -36621,7 +36681,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 1604, col: 13, offset: 51881},
-																								run: (*parser).callonListContinuationElement1637,
+																								run: (*parser).callonListContinuationElement1650,
 																								expr: &seqExpr{
 																									pos: position{line: 1604, col: 13, offset: 51881},
 																									exprs: []interface{}{
@@ -36643,7 +36703,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 1606, col: 13, offset: 52009},
-																								run: (*parser).callonListContinuationElement1641,
+																								run: (*parser).callonListContinuationElement1654,
 																								expr: &seqExpr{
 																									pos: position{line: 1606, col: 13, offset: 52009},
 																									exprs: []interface{}{
@@ -36665,7 +36725,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 1608, col: 13, offset: 52137},
-																								run: (*parser).callonListContinuationElement1645,
+																								run: (*parser).callonListContinuationElement1658,
 																								expr: &seqExpr{
 																									pos: position{line: 1608, col: 13, offset: 52137},
 																									exprs: []interface{}{
@@ -36690,7 +36750,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 1610, col: 13, offset: 52270},
-																								run: (*parser).callonListContinuationElement1650,
+																								run: (*parser).callonListContinuationElement1663,
 																								expr: &seqExpr{
 																									pos: position{line: 1610, col: 13, offset: 52270},
 																									exprs: []interface{}{
@@ -36718,7 +36778,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 2856, col: 11, offset: 90300},
-																					run: (*parser).callonListContinuationElement1655,
+																					run: (*parser).callonListContinuationElement1668,
 																					expr: &oneOrMoreExpr{
 																						pos: position{line: 2856, col: 11, offset: 90300},
 																						expr: &charClassMatcher{
@@ -36738,7 +36798,7 @@ var g = &grammar{
 																	pos: position{line: 1508, col: 5, offset: 48873},
 																	expr: &actionExpr{
 																		pos: position{line: 1627, col: 5, offset: 52822},
-																		run: (*parser).callonListContinuationElement1659,
+																		run: (*parser).callonListContinuationElement1672,
 																		expr: &seqExpr{
 																			pos: position{line: 1627, col: 5, offset: 52822},
 																			exprs: []interface{}{
@@ -36746,7 +36806,7 @@ var g = &grammar{
 																					pos: position{line: 1627, col: 5, offset: 52822},
 																					expr: &actionExpr{
 																						pos: position{line: 2852, col: 10, offset: 90239},
-																						run: (*parser).callonListContinuationElement1662,
+																						run: (*parser).callonListContinuationElement1675,
 																						expr: &charClassMatcher{
 																							pos:        position{line: 2852, col: 10, offset: 90239},
 																							val:        "[\\t ]",
@@ -36761,7 +36821,7 @@ var g = &grammar{
 																					label: "style",
 																					expr: &actionExpr{
 																						pos: position{line: 1629, col: 9, offset: 52850},
-																						run: (*parser).callonListContinuationElement1665,
+																						run: (*parser).callonListContinuationElement1678,
 																						expr: &choiceExpr{
 																							pos: position{line: 1629, col: 10, offset: 52851},
 																							alternatives: []interface{}{
@@ -36786,11 +36846,11 @@ var g = &grammar{
 																				},
 																				&andCodeExpr{
 																					pos: position{line: 1632, col: 7, offset: 52950},
-																					run: (*parser).callonListContinuationElement1670,
+																					run: (*parser).callonListContinuationElement1683,
 																				},
 																				&actionExpr{
 																					pos: position{line: 2856, col: 11, offset: 90300},
-																					run: (*parser).callonListContinuationElement1671,
+																					run: (*parser).callonListContinuationElement1684,
 																					expr: &oneOrMoreExpr{
 																						pos: position{line: 2856, col: 11, offset: 90300},
 																						expr: &charClassMatcher{
@@ -36810,7 +36870,7 @@ var g = &grammar{
 																	pos: position{line: 1509, col: 5, offset: 48905},
 																	expr: &actionExpr{
 																		pos: position{line: 1716, col: 5, offset: 55359},
-																		run: (*parser).callonListContinuationElement1675,
+																		run: (*parser).callonListContinuationElement1688,
 																		expr: &seqExpr{
 																			pos: position{line: 1716, col: 5, offset: 55359},
 																			exprs: []interface{}{
@@ -36825,7 +36885,7 @@ var g = &grammar{
 																					label: "ref",
 																					expr: &actionExpr{
 																						pos: position{line: 1716, col: 14, offset: 55368},
-																						run: (*parser).callonListContinuationElement1679,
+																						run: (*parser).callonListContinuationElement1692,
 																						expr: &oneOrMoreExpr{
 																							pos: position{line: 1716, col: 14, offset: 55368},
 																							expr: &charClassMatcher{
@@ -36846,7 +36906,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 2856, col: 11, offset: 90300},
-																					run: (*parser).callonListContinuationElement1683,
+																					run: (*parser).callonListContinuationElement1696,
 																					expr: &oneOrMoreExpr{
 																						pos: position{line: 2856, col: 11, offset: 90300},
 																						expr: &charClassMatcher{
@@ -36869,7 +36929,7 @@ var g = &grammar{
 																		exprs: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 1662, col: 5, offset: 53841},
-																				run: (*parser).callonListContinuationElement1688,
+																				run: (*parser).callonListContinuationElement1701,
 																				expr: &oneOrMoreExpr{
 																					pos: position{line: 1662, col: 5, offset: 53841},
 																					expr: &seqExpr{
@@ -36879,7 +36939,7 @@ var g = &grammar{
 																								pos: position{line: 1662, col: 6, offset: 53842},
 																								expr: &actionExpr{
 																									pos: position{line: 1667, col: 5, offset: 53992},
-																									run: (*parser).callonListContinuationElement1692,
+																									run: (*parser).callonListContinuationElement1705,
 																									expr: &seqExpr{
 																										pos: position{line: 1667, col: 5, offset: 53992},
 																										exprs: []interface{}{
@@ -36888,7 +36948,7 @@ var g = &grammar{
 																												label: "separator",
 																												expr: &actionExpr{
 																													pos: position{line: 1667, col: 16, offset: 54003},
-																													run: (*parser).callonListContinuationElement1695,
+																													run: (*parser).callonListContinuationElement1708,
 																													expr: &oneOrMoreExpr{
 																														pos: position{line: 1667, col: 16, offset: 54003},
 																														expr: &litMatcher{
@@ -36902,7 +36962,7 @@ var g = &grammar{
 																											},
 																											&andCodeExpr{
 																												pos: position{line: 1670, col: 5, offset: 54061},
-																												run: (*parser).callonListContinuationElement1698,
+																												run: (*parser).callonListContinuationElement1711,
 																											},
 																										},
 																									},
@@ -36915,7 +36975,7 @@ var g = &grammar{
 																									alternatives: []interface{}{
 																										&actionExpr{
 																											pos: position{line: 2861, col: 12, offset: 90410},
-																											run: (*parser).callonListContinuationElement1701,
+																											run: (*parser).callonListContinuationElement1714,
 																											expr: &choiceExpr{
 																												pos: position{line: 2861, col: 13, offset: 90411},
 																												alternatives: []interface{}{
@@ -36958,7 +37018,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 1667, col: 5, offset: 53992},
-																				run: (*parser).callonListContinuationElement1709,
+																				run: (*parser).callonListContinuationElement1722,
 																				expr: &seqExpr{
 																					pos: position{line: 1667, col: 5, offset: 53992},
 																					exprs: []interface{}{
@@ -36967,7 +37027,7 @@ var g = &grammar{
 																							label: "separator",
 																							expr: &actionExpr{
 																								pos: position{line: 1667, col: 16, offset: 54003},
-																								run: (*parser).callonListContinuationElement1712,
+																								run: (*parser).callonListContinuationElement1725,
 																								expr: &oneOrMoreExpr{
 																									pos: position{line: 1667, col: 16, offset: 54003},
 																									expr: &litMatcher{
@@ -36981,7 +37041,7 @@ var g = &grammar{
 																						},
 																						&andCodeExpr{
 																							pos: position{line: 1670, col: 5, offset: 54061},
-																							run: (*parser).callonListContinuationElement1715,
+																							run: (*parser).callonListContinuationElement1728,
 																						},
 																					},
 																				},
@@ -36993,7 +37053,7 @@ var g = &grammar{
 																	pos: position{line: 1511, col: 5, offset: 48993},
 																	expr: &actionExpr{
 																		pos: position{line: 724, col: 5, offset: 23042},
-																		run: (*parser).callonListContinuationElement1717,
+																		run: (*parser).callonListContinuationElement1730,
 																		expr: &seqExpr{
 																			pos: position{line: 724, col: 5, offset: 23042},
 																			exprs: []interface{}{
@@ -37015,7 +37075,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 740, col: 5, offset: 23584},
-																								run: (*parser).callonListContinuationElement1723,
+																								run: (*parser).callonListContinuationElement1736,
 																								expr: &seqExpr{
 																									pos: position{line: 740, col: 5, offset: 23584},
 																									exprs: []interface{}{
@@ -37024,7 +37084,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 740, col: 16, offset: 23595},
-																												run: (*parser).callonListContinuationElement1726,
+																												run: (*parser).callonListContinuationElement1739,
 																												expr: &seqExpr{
 																													pos: position{line: 740, col: 16, offset: 23595},
 																													exprs: []interface{}{
@@ -37051,7 +37111,7 @@ var g = &grammar{
 																											pos: position{line: 742, col: 8, offset: 23686},
 																											expr: &actionExpr{
 																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement1732,
+																												run: (*parser).callonListContinuationElement1745,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2852, col: 10, offset: 90239},
 																													val:        "[\\t ]",
@@ -37066,7 +37126,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement1735,
+																													run: (*parser).callonListContinuationElement1748,
 																													expr: &choiceExpr{
 																														pos: position{line: 2861, col: 13, offset: 90411},
 																														alternatives: []interface{}{
@@ -37104,7 +37164,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 747, col: 5, offset: 23832},
-																								run: (*parser).callonListContinuationElement1742,
+																								run: (*parser).callonListContinuationElement1755,
 																								expr: &seqExpr{
 																									pos: position{line: 747, col: 5, offset: 23832},
 																									exprs: []interface{}{
@@ -37113,7 +37173,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 747, col: 16, offset: 23843},
-																												run: (*parser).callonListContinuationElement1745,
+																												run: (*parser).callonListContinuationElement1758,
 																												expr: &seqExpr{
 																													pos: position{line: 747, col: 16, offset: 23843},
 																													exprs: []interface{}{
@@ -37140,7 +37200,7 @@ var g = &grammar{
 																											pos: position{line: 749, col: 8, offset: 23934},
 																											expr: &actionExpr{
 																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement1751,
+																												run: (*parser).callonListContinuationElement1764,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2852, col: 10, offset: 90239},
 																													val:        "[\\t ]",
@@ -37155,7 +37215,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement1754,
+																													run: (*parser).callonListContinuationElement1767,
 																													expr: &choiceExpr{
 																														pos: position{line: 2861, col: 13, offset: 90411},
 																														alternatives: []interface{}{
@@ -37193,7 +37253,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 760, col: 26, offset: 24320},
-																								run: (*parser).callonListContinuationElement1761,
+																								run: (*parser).callonListContinuationElement1774,
 																								expr: &seqExpr{
 																									pos: position{line: 760, col: 26, offset: 24320},
 																									exprs: []interface{}{
@@ -37208,7 +37268,7 @@ var g = &grammar{
 																											label: "language",
 																											expr: &actionExpr{
 																												pos: position{line: 764, col: 13, offset: 24456},
-																												run: (*parser).callonListContinuationElement1765,
+																												run: (*parser).callonListContinuationElement1778,
 																												expr: &oneOrMoreExpr{
 																													pos: position{line: 764, col: 14, offset: 24457},
 																													expr: &charClassMatcher{
@@ -37225,7 +37285,7 @@ var g = &grammar{
 																											pos: position{line: 760, col: 52, offset: 24346},
 																											expr: &actionExpr{
 																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement1769,
+																												run: (*parser).callonListContinuationElement1782,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2852, col: 10, offset: 90239},
 																													val:        "[\\t ]",
@@ -37240,7 +37300,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement1772,
+																													run: (*parser).callonListContinuationElement1785,
 																													expr: &choiceExpr{
 																														pos: position{line: 2861, col: 13, offset: 90411},
 																														alternatives: []interface{}{
@@ -37278,7 +37338,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 754, col: 5, offset: 24079},
-																								run: (*parser).callonListContinuationElement1779,
+																								run: (*parser).callonListContinuationElement1792,
 																								expr: &seqExpr{
 																									pos: position{line: 754, col: 5, offset: 24079},
 																									exprs: []interface{}{
@@ -37287,7 +37347,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 754, col: 16, offset: 24090},
-																												run: (*parser).callonListContinuationElement1782,
+																												run: (*parser).callonListContinuationElement1795,
 																												expr: &seqExpr{
 																													pos: position{line: 754, col: 16, offset: 24090},
 																													exprs: []interface{}{
@@ -37314,7 +37374,7 @@ var g = &grammar{
 																											pos: position{line: 756, col: 8, offset: 24180},
 																											expr: &actionExpr{
 																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement1788,
+																												run: (*parser).callonListContinuationElement1801,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2852, col: 10, offset: 90239},
 																													val:        "[\\t ]",
@@ -37329,7 +37389,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement1791,
+																													run: (*parser).callonListContinuationElement1804,
 																													expr: &choiceExpr{
 																														pos: position{line: 2861, col: 13, offset: 90411},
 																														alternatives: []interface{}{
@@ -37367,7 +37427,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 769, col: 5, offset: 24621},
-																								run: (*parser).callonListContinuationElement1798,
+																								run: (*parser).callonListContinuationElement1811,
 																								expr: &seqExpr{
 																									pos: position{line: 769, col: 5, offset: 24621},
 																									exprs: []interface{}{
@@ -37376,7 +37436,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 769, col: 16, offset: 24632},
-																												run: (*parser).callonListContinuationElement1801,
+																												run: (*parser).callonListContinuationElement1814,
 																												expr: &seqExpr{
 																													pos: position{line: 769, col: 16, offset: 24632},
 																													exprs: []interface{}{
@@ -37403,7 +37463,7 @@ var g = &grammar{
 																											pos: position{line: 771, col: 8, offset: 24723},
 																											expr: &actionExpr{
 																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement1807,
+																												run: (*parser).callonListContinuationElement1820,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2852, col: 10, offset: 90239},
 																													val:        "[\\t ]",
@@ -37418,7 +37478,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement1810,
+																													run: (*parser).callonListContinuationElement1823,
 																													expr: &choiceExpr{
 																														pos: position{line: 2861, col: 13, offset: 90411},
 																														alternatives: []interface{}{
@@ -37456,7 +37516,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 783, col: 5, offset: 25097},
-																								run: (*parser).callonListContinuationElement1817,
+																								run: (*parser).callonListContinuationElement1830,
 																								expr: &seqExpr{
 																									pos: position{line: 783, col: 5, offset: 25097},
 																									exprs: []interface{}{
@@ -37465,7 +37525,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 783, col: 16, offset: 25108},
-																												run: (*parser).callonListContinuationElement1820,
+																												run: (*parser).callonListContinuationElement1833,
 																												expr: &seqExpr{
 																													pos: position{line: 783, col: 16, offset: 25108},
 																													exprs: []interface{}{
@@ -37492,7 +37552,7 @@ var g = &grammar{
 																											pos: position{line: 785, col: 8, offset: 25199},
 																											expr: &actionExpr{
 																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement1826,
+																												run: (*parser).callonListContinuationElement1839,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2852, col: 10, offset: 90239},
 																													val:        "[\\t ]",
@@ -37507,7 +37567,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement1829,
+																													run: (*parser).callonListContinuationElement1842,
 																													expr: &choiceExpr{
 																														pos: position{line: 2861, col: 13, offset: 90411},
 																														alternatives: []interface{}{
@@ -37545,7 +37605,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 790, col: 5, offset: 25349},
-																								run: (*parser).callonListContinuationElement1836,
+																								run: (*parser).callonListContinuationElement1849,
 																								expr: &seqExpr{
 																									pos: position{line: 790, col: 5, offset: 25349},
 																									exprs: []interface{}{
@@ -37554,7 +37614,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 790, col: 16, offset: 25360},
-																												run: (*parser).callonListContinuationElement1839,
+																												run: (*parser).callonListContinuationElement1852,
 																												expr: &seqExpr{
 																													pos: position{line: 790, col: 16, offset: 25360},
 																													exprs: []interface{}{
@@ -37581,7 +37641,7 @@ var g = &grammar{
 																											pos: position{line: 792, col: 8, offset: 25451},
 																											expr: &actionExpr{
 																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement1845,
+																												run: (*parser).callonListContinuationElement1858,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2852, col: 10, offset: 90239},
 																													val:        "[\\t ]",
@@ -37596,7 +37656,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement1848,
+																													run: (*parser).callonListContinuationElement1861,
 																													expr: &choiceExpr{
 																														pos: position{line: 2861, col: 13, offset: 90411},
 																														alternatives: []interface{}{
@@ -37634,7 +37694,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 797, col: 5, offset: 25599},
-																								run: (*parser).callonListContinuationElement1855,
+																								run: (*parser).callonListContinuationElement1868,
 																								expr: &seqExpr{
 																									pos: position{line: 797, col: 5, offset: 25599},
 																									exprs: []interface{}{
@@ -37643,7 +37703,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 797, col: 16, offset: 25610},
-																												run: (*parser).callonListContinuationElement1858,
+																												run: (*parser).callonListContinuationElement1871,
 																												expr: &seqExpr{
 																													pos: position{line: 797, col: 16, offset: 25610},
 																													exprs: []interface{}{
@@ -37670,7 +37730,7 @@ var g = &grammar{
 																											pos: position{line: 799, col: 8, offset: 25701},
 																											expr: &actionExpr{
 																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement1864,
+																												run: (*parser).callonListContinuationElement1877,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2852, col: 10, offset: 90239},
 																													val:        "[\\t ]",
@@ -37685,7 +37745,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement1867,
+																													run: (*parser).callonListContinuationElement1880,
 																													expr: &choiceExpr{
 																														pos: position{line: 2861, col: 13, offset: 90411},
 																														alternatives: []interface{}{
@@ -37723,7 +37783,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 804, col: 5, offset: 25845},
-																								run: (*parser).callonListContinuationElement1874,
+																								run: (*parser).callonListContinuationElement1887,
 																								expr: &seqExpr{
 																									pos: position{line: 804, col: 5, offset: 25845},
 																									exprs: []interface{}{
@@ -37732,7 +37792,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 804, col: 16, offset: 25856},
-																												run: (*parser).callonListContinuationElement1877,
+																												run: (*parser).callonListContinuationElement1890,
 																												expr: &seqExpr{
 																													pos: position{line: 804, col: 16, offset: 25856},
 																													exprs: []interface{}{
@@ -37759,7 +37819,7 @@ var g = &grammar{
 																											pos: position{line: 806, col: 8, offset: 25947},
 																											expr: &actionExpr{
 																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement1883,
+																												run: (*parser).callonListContinuationElement1896,
 																												expr: &charClassMatcher{
 																													pos:        position{line: 2852, col: 10, offset: 90239},
 																													val:        "[\\t ]",
@@ -37774,7 +37834,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement1886,
+																													run: (*parser).callonListContinuationElement1899,
 																													expr: &choiceExpr{
 																														pos: position{line: 2861, col: 13, offset: 90411},
 																														alternatives: []interface{}{
@@ -37822,7 +37882,7 @@ var g = &grammar{
 																	label: "content",
 																	expr: &actionExpr{
 																		pos: position{line: 2802, col: 14, offset: 88832},
-																		run: (*parser).callonListContinuationElement1894,
+																		run: (*parser).callonListContinuationElement1907,
 																		expr: &oneOrMoreExpr{
 																			pos: position{line: 2802, col: 14, offset: 88832},
 																			expr: &charClassMatcher{
@@ -37840,7 +37900,7 @@ var g = &grammar{
 																	alternatives: []interface{}{
 																		&actionExpr{
 																			pos: position{line: 2861, col: 12, offset: 90410},
-																			run: (*parser).callonListContinuationElement1898,
+																			run: (*parser).callonListContinuationElement1911,
 																			expr: &choiceExpr{
 																				pos: position{line: 2861, col: 13, offset: 90411},
 																				alternatives: []interface{}{
@@ -37995,17 +38055,17 @@ var g = &grammar{
 		},
 		{
 			name: "ShortcutParagraph",
-			pos:  position{line: 1744, col: 1, offset: 56247},
+			pos:  position{line: 1744, col: 1, offset: 56251},
 			expr: &actionExpr{
-				pos: position{line: 1746, col: 5, offset: 56321},
+				pos: position{line: 1746, col: 5, offset: 56325},
 				run: (*parser).callonShortcutParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1746, col: 5, offset: 56321},
+					pos: position{line: 1746, col: 5, offset: 56325},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 1746, col: 5, offset: 56321},
+							pos: position{line: 1746, col: 5, offset: 56325},
 							expr: &seqExpr{
-								pos: position{line: 1746, col: 7, offset: 56323},
+								pos: position{line: 1746, col: 7, offset: 56327},
 								exprs: []interface{}{
 									&charClassMatcher{
 										pos:        position{line: 2742, col: 13, offset: 87334},
@@ -38015,12 +38075,12 @@ var g = &grammar{
 										inverted:   false,
 									},
 									&notExpr{
-										pos: position{line: 1746, col: 16, offset: 56332},
+										pos: position{line: 1746, col: 16, offset: 56336},
 										expr: &seqExpr{
-											pos: position{line: 1746, col: 18, offset: 56334},
+											pos: position{line: 1746, col: 18, offset: 56338},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 1746, col: 19, offset: 56335},
+													pos:        position{line: 1746, col: 19, offset: 56339},
 													val:        "[.)]",
 													chars:      []rune{'.', ')'},
 													ignoreCase: false,
@@ -38047,10 +38107,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1747, col: 5, offset: 56475},
+							pos:   position{line: 1747, col: 5, offset: 56479},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1747, col: 11, offset: 56481},
+								pos: position{line: 1747, col: 11, offset: 56485},
 								expr: &actionExpr{
 									pos: position{line: 1725, col: 5, offset: 55744},
 									run: (*parser).callonShortcutParagraph14,
@@ -38141,26 +38201,86 @@ var g = &grammar{
 													},
 												},
 											},
+											&notExpr{
+												pos: position{line: 1740, col: 12, offset: 56194},
+												expr: &seqExpr{
+													pos: position{line: 1740, col: 14, offset: 56196},
+													exprs: []interface{}{
+														&zeroOrMoreExpr{
+															pos: position{line: 1740, col: 14, offset: 56196},
+															expr: &actionExpr{
+																pos: position{line: 2852, col: 10, offset: 90239},
+																run: (*parser).callonShortcutParagraph37,
+																expr: &charClassMatcher{
+																	pos:        position{line: 2852, col: 10, offset: 90239},
+																	val:        "[\\t ]",
+																	chars:      []rune{'\t', ' '},
+																	ignoreCase: false,
+																	inverted:   false,
+																},
+															},
+														},
+														&choiceExpr{
+															pos: position{line: 2874, col: 8, offset: 90637},
+															alternatives: []interface{}{
+																&actionExpr{
+																	pos: position{line: 2861, col: 12, offset: 90410},
+																	run: (*parser).callonShortcutParagraph40,
+																	expr: &choiceExpr{
+																		pos: position{line: 2861, col: 13, offset: 90411},
+																		alternatives: []interface{}{
+																			&litMatcher{
+																				pos:        position{line: 2861, col: 13, offset: 90411},
+																				val:        "\n",
+																				ignoreCase: false,
+																				want:       "\"\\n\"",
+																			},
+																			&litMatcher{
+																				pos:        position{line: 2861, col: 20, offset: 90418},
+																				val:        "\r\n",
+																				ignoreCase: false,
+																				want:       "\"\\r\\n\"",
+																			},
+																			&litMatcher{
+																				pos:        position{line: 2861, col: 29, offset: 90427},
+																				val:        "\r",
+																				ignoreCase: false,
+																				want:       "\"\\r\"",
+																			},
+																		},
+																	},
+																},
+																&notExpr{
+																	pos: position{line: 2871, col: 8, offset: 90587},
+																	expr: &anyMatcher{
+																		line: 2871, col: 9, offset: 90588,
+																	},
+																},
+															},
+														},
+													},
+												},
+											},
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1748, col: 5, offset: 56503},
+							pos:   position{line: 1748, col: 5, offset: 56507},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1784, col: 5, offset: 57610},
-								run: (*parser).callonShortcutParagraph35,
+								pos: position{line: 1784, col: 5, offset: 57614},
+								run: (*parser).callonShortcutParagraph48,
 								expr: &seqExpr{
-									pos: position{line: 1784, col: 5, offset: 57610},
+									pos: position{line: 1784, col: 5, offset: 57614},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1784, col: 5, offset: 57610},
+											pos:   position{line: 1784, col: 5, offset: 57614},
 											label: "content",
 											expr: &actionExpr{
 												pos: position{line: 2802, col: 14, offset: 88832},
-												run: (*parser).callonShortcutParagraph38,
+												run: (*parser).callonShortcutParagraph51,
 												expr: &oneOrMoreExpr{
 													pos: position{line: 2802, col: 14, offset: 88832},
 													expr: &charClassMatcher{
@@ -38174,15 +38294,15 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1785, col: 5, offset: 57634},
-											run: (*parser).callonShortcutParagraph41,
+											pos: position{line: 1785, col: 5, offset: 57638},
+											run: (*parser).callonShortcutParagraph54,
 										},
 										&choiceExpr{
 											pos: position{line: 2874, col: 8, offset: 90637},
 											alternatives: []interface{}{
 												&actionExpr{
 													pos: position{line: 2861, col: 12, offset: 90410},
-													run: (*parser).callonShortcutParagraph43,
+													run: (*parser).callonShortcutParagraph56,
 													expr: &choiceExpr{
 														pos: position{line: 2861, col: 13, offset: 90411},
 														alternatives: []interface{}{
@@ -38220,19 +38340,19 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1749, col: 5, offset: 56537},
-							run: (*parser).callonShortcutParagraph50,
+							pos: position{line: 1749, col: 5, offset: 56541},
+							run: (*parser).callonShortcutParagraph63,
 						},
 						&labeledExpr{
-							pos:   position{line: 1756, col: 5, offset: 56867},
+							pos:   position{line: 1756, col: 5, offset: 56871},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1756, col: 16, offset: 56878},
+								pos: position{line: 1756, col: 16, offset: 56882},
 								expr: &actionExpr{
-									pos: position{line: 1757, col: 9, offset: 56888},
-									run: (*parser).callonShortcutParagraph53,
+									pos: position{line: 1757, col: 9, offset: 56892},
+									run: (*parser).callonShortcutParagraph66,
 									expr: &seqExpr{
-										pos: position{line: 1757, col: 9, offset: 56888},
+										pos: position{line: 1757, col: 9, offset: 56892},
 										exprs: []interface{}{
 											&andExpr{
 												pos: position{line: 2869, col: 11, offset: 90573},
@@ -38241,10 +38361,10 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1758, col: 9, offset: 56904},
+												pos: position{line: 1758, col: 9, offset: 56908},
 												expr: &actionExpr{
 													pos: position{line: 677, col: 14, offset: 21489},
-													run: (*parser).callonShortcutParagraph58,
+													run: (*parser).callonShortcutParagraph71,
 													expr: &seqExpr{
 														pos: position{line: 677, col: 14, offset: 21489},
 														exprs: []interface{}{
@@ -38258,7 +38378,7 @@ var g = &grammar{
 																pos: position{line: 677, col: 21, offset: 21496},
 																expr: &actionExpr{
 																	pos: position{line: 2852, col: 10, offset: 90239},
-																	run: (*parser).callonShortcutParagraph63,
+																	run: (*parser).callonShortcutParagraph76,
 																	expr: &charClassMatcher{
 																		pos:        position{line: 2852, col: 10, offset: 90239},
 																		val:        "[\\t ]",
@@ -38273,7 +38393,7 @@ var g = &grammar{
 																alternatives: []interface{}{
 																	&actionExpr{
 																		pos: position{line: 2861, col: 12, offset: 90410},
-																		run: (*parser).callonShortcutParagraph66,
+																		run: (*parser).callonShortcutParagraph79,
 																		expr: &choiceExpr{
 																			pos: position{line: 2861, col: 13, offset: 90411},
 																			alternatives: []interface{}{
@@ -38311,17 +38431,17 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1759, col: 9, offset: 56923},
+												pos: position{line: 1759, col: 9, offset: 56927},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1759, col: 10, offset: 56924},
+													pos:  position{line: 1759, col: 10, offset: 56928},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1760, col: 9, offset: 56948},
+												pos: position{line: 1760, col: 9, offset: 56952},
 												expr: &actionExpr{
 													pos: position{line: 724, col: 5, offset: 23042},
-													run: (*parser).callonShortcutParagraph76,
+													run: (*parser).callonShortcutParagraph89,
 													expr: &seqExpr{
 														pos: position{line: 724, col: 5, offset: 23042},
 														exprs: []interface{}{
@@ -38343,7 +38463,7 @@ var g = &grammar{
 																	alternatives: []interface{}{
 																		&actionExpr{
 																			pos: position{line: 740, col: 5, offset: 23584},
-																			run: (*parser).callonShortcutParagraph82,
+																			run: (*parser).callonShortcutParagraph95,
 																			expr: &seqExpr{
 																				pos: position{line: 740, col: 5, offset: 23584},
 																				exprs: []interface{}{
@@ -38352,7 +38472,7 @@ var g = &grammar{
 																						label: "delimiter",
 																						expr: &actionExpr{
 																							pos: position{line: 740, col: 16, offset: 23595},
-																							run: (*parser).callonShortcutParagraph85,
+																							run: (*parser).callonShortcutParagraph98,
 																							expr: &seqExpr{
 																								pos: position{line: 740, col: 16, offset: 23595},
 																								exprs: []interface{}{
@@ -38379,7 +38499,7 @@ var g = &grammar{
 																						pos: position{line: 742, col: 8, offset: 23686},
 																						expr: &actionExpr{
 																							pos: position{line: 2852, col: 10, offset: 90239},
-																							run: (*parser).callonShortcutParagraph91,
+																							run: (*parser).callonShortcutParagraph104,
 																							expr: &charClassMatcher{
 																								pos:        position{line: 2852, col: 10, offset: 90239},
 																								val:        "[\\t ]",
@@ -38394,7 +38514,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 2861, col: 12, offset: 90410},
-																								run: (*parser).callonShortcutParagraph94,
+																								run: (*parser).callonShortcutParagraph107,
 																								expr: &choiceExpr{
 																									pos: position{line: 2861, col: 13, offset: 90411},
 																									alternatives: []interface{}{
@@ -38432,7 +38552,7 @@ var g = &grammar{
 																		},
 																		&actionExpr{
 																			pos: position{line: 747, col: 5, offset: 23832},
-																			run: (*parser).callonShortcutParagraph101,
+																			run: (*parser).callonShortcutParagraph114,
 																			expr: &seqExpr{
 																				pos: position{line: 747, col: 5, offset: 23832},
 																				exprs: []interface{}{
@@ -38441,7 +38561,7 @@ var g = &grammar{
 																						label: "delimiter",
 																						expr: &actionExpr{
 																							pos: position{line: 747, col: 16, offset: 23843},
-																							run: (*parser).callonShortcutParagraph104,
+																							run: (*parser).callonShortcutParagraph117,
 																							expr: &seqExpr{
 																								pos: position{line: 747, col: 16, offset: 23843},
 																								exprs: []interface{}{
@@ -38468,7 +38588,7 @@ var g = &grammar{
 																						pos: position{line: 749, col: 8, offset: 23934},
 																						expr: &actionExpr{
 																							pos: position{line: 2852, col: 10, offset: 90239},
-																							run: (*parser).callonShortcutParagraph110,
+																							run: (*parser).callonShortcutParagraph123,
 																							expr: &charClassMatcher{
 																								pos:        position{line: 2852, col: 10, offset: 90239},
 																								val:        "[\\t ]",
@@ -38483,7 +38603,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 2861, col: 12, offset: 90410},
-																								run: (*parser).callonShortcutParagraph113,
+																								run: (*parser).callonShortcutParagraph126,
 																								expr: &choiceExpr{
 																									pos: position{line: 2861, col: 13, offset: 90411},
 																									alternatives: []interface{}{
@@ -38521,7 +38641,7 @@ var g = &grammar{
 																		},
 																		&actionExpr{
 																			pos: position{line: 760, col: 26, offset: 24320},
-																			run: (*parser).callonShortcutParagraph120,
+																			run: (*parser).callonShortcutParagraph133,
 																			expr: &seqExpr{
 																				pos: position{line: 760, col: 26, offset: 24320},
 																				exprs: []interface{}{
@@ -38536,7 +38656,7 @@ var g = &grammar{
 																						label: "language",
 																						expr: &actionExpr{
 																							pos: position{line: 764, col: 13, offset: 24456},
-																							run: (*parser).callonShortcutParagraph124,
+																							run: (*parser).callonShortcutParagraph137,
 																							expr: &oneOrMoreExpr{
 																								pos: position{line: 764, col: 14, offset: 24457},
 																								expr: &charClassMatcher{
@@ -38553,7 +38673,7 @@ var g = &grammar{
 																						pos: position{line: 760, col: 52, offset: 24346},
 																						expr: &actionExpr{
 																							pos: position{line: 2852, col: 10, offset: 90239},
-																							run: (*parser).callonShortcutParagraph128,
+																							run: (*parser).callonShortcutParagraph141,
 																							expr: &charClassMatcher{
 																								pos:        position{line: 2852, col: 10, offset: 90239},
 																								val:        "[\\t ]",
@@ -38568,7 +38688,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 2861, col: 12, offset: 90410},
-																								run: (*parser).callonShortcutParagraph131,
+																								run: (*parser).callonShortcutParagraph144,
 																								expr: &choiceExpr{
 																									pos: position{line: 2861, col: 13, offset: 90411},
 																									alternatives: []interface{}{
@@ -38606,7 +38726,7 @@ var g = &grammar{
 																		},
 																		&actionExpr{
 																			pos: position{line: 754, col: 5, offset: 24079},
-																			run: (*parser).callonShortcutParagraph138,
+																			run: (*parser).callonShortcutParagraph151,
 																			expr: &seqExpr{
 																				pos: position{line: 754, col: 5, offset: 24079},
 																				exprs: []interface{}{
@@ -38615,7 +38735,7 @@ var g = &grammar{
 																						label: "delimiter",
 																						expr: &actionExpr{
 																							pos: position{line: 754, col: 16, offset: 24090},
-																							run: (*parser).callonShortcutParagraph141,
+																							run: (*parser).callonShortcutParagraph154,
 																							expr: &seqExpr{
 																								pos: position{line: 754, col: 16, offset: 24090},
 																								exprs: []interface{}{
@@ -38642,7 +38762,7 @@ var g = &grammar{
 																						pos: position{line: 756, col: 8, offset: 24180},
 																						expr: &actionExpr{
 																							pos: position{line: 2852, col: 10, offset: 90239},
-																							run: (*parser).callonShortcutParagraph147,
+																							run: (*parser).callonShortcutParagraph160,
 																							expr: &charClassMatcher{
 																								pos:        position{line: 2852, col: 10, offset: 90239},
 																								val:        "[\\t ]",
@@ -38657,7 +38777,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 2861, col: 12, offset: 90410},
-																								run: (*parser).callonShortcutParagraph150,
+																								run: (*parser).callonShortcutParagraph163,
 																								expr: &choiceExpr{
 																									pos: position{line: 2861, col: 13, offset: 90411},
 																									alternatives: []interface{}{
@@ -38695,7 +38815,7 @@ var g = &grammar{
 																		},
 																		&actionExpr{
 																			pos: position{line: 769, col: 5, offset: 24621},
-																			run: (*parser).callonShortcutParagraph157,
+																			run: (*parser).callonShortcutParagraph170,
 																			expr: &seqExpr{
 																				pos: position{line: 769, col: 5, offset: 24621},
 																				exprs: []interface{}{
@@ -38704,7 +38824,7 @@ var g = &grammar{
 																						label: "delimiter",
 																						expr: &actionExpr{
 																							pos: position{line: 769, col: 16, offset: 24632},
-																							run: (*parser).callonShortcutParagraph160,
+																							run: (*parser).callonShortcutParagraph173,
 																							expr: &seqExpr{
 																								pos: position{line: 769, col: 16, offset: 24632},
 																								exprs: []interface{}{
@@ -38731,7 +38851,7 @@ var g = &grammar{
 																						pos: position{line: 771, col: 8, offset: 24723},
 																						expr: &actionExpr{
 																							pos: position{line: 2852, col: 10, offset: 90239},
-																							run: (*parser).callonShortcutParagraph166,
+																							run: (*parser).callonShortcutParagraph179,
 																							expr: &charClassMatcher{
 																								pos:        position{line: 2852, col: 10, offset: 90239},
 																								val:        "[\\t ]",
@@ -38746,7 +38866,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 2861, col: 12, offset: 90410},
-																								run: (*parser).callonShortcutParagraph169,
+																								run: (*parser).callonShortcutParagraph182,
 																								expr: &choiceExpr{
 																									pos: position{line: 2861, col: 13, offset: 90411},
 																									alternatives: []interface{}{
@@ -38784,7 +38904,7 @@ var g = &grammar{
 																		},
 																		&actionExpr{
 																			pos: position{line: 783, col: 5, offset: 25097},
-																			run: (*parser).callonShortcutParagraph176,
+																			run: (*parser).callonShortcutParagraph189,
 																			expr: &seqExpr{
 																				pos: position{line: 783, col: 5, offset: 25097},
 																				exprs: []interface{}{
@@ -38793,7 +38913,7 @@ var g = &grammar{
 																						label: "delimiter",
 																						expr: &actionExpr{
 																							pos: position{line: 783, col: 16, offset: 25108},
-																							run: (*parser).callonShortcutParagraph179,
+																							run: (*parser).callonShortcutParagraph192,
 																							expr: &seqExpr{
 																								pos: position{line: 783, col: 16, offset: 25108},
 																								exprs: []interface{}{
@@ -38820,7 +38940,7 @@ var g = &grammar{
 																						pos: position{line: 785, col: 8, offset: 25199},
 																						expr: &actionExpr{
 																							pos: position{line: 2852, col: 10, offset: 90239},
-																							run: (*parser).callonShortcutParagraph185,
+																							run: (*parser).callonShortcutParagraph198,
 																							expr: &charClassMatcher{
 																								pos:        position{line: 2852, col: 10, offset: 90239},
 																								val:        "[\\t ]",
@@ -38835,7 +38955,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 2861, col: 12, offset: 90410},
-																								run: (*parser).callonShortcutParagraph188,
+																								run: (*parser).callonShortcutParagraph201,
 																								expr: &choiceExpr{
 																									pos: position{line: 2861, col: 13, offset: 90411},
 																									alternatives: []interface{}{
@@ -38873,7 +38993,7 @@ var g = &grammar{
 																		},
 																		&actionExpr{
 																			pos: position{line: 790, col: 5, offset: 25349},
-																			run: (*parser).callonShortcutParagraph195,
+																			run: (*parser).callonShortcutParagraph208,
 																			expr: &seqExpr{
 																				pos: position{line: 790, col: 5, offset: 25349},
 																				exprs: []interface{}{
@@ -38882,7 +39002,7 @@ var g = &grammar{
 																						label: "delimiter",
 																						expr: &actionExpr{
 																							pos: position{line: 790, col: 16, offset: 25360},
-																							run: (*parser).callonShortcutParagraph198,
+																							run: (*parser).callonShortcutParagraph211,
 																							expr: &seqExpr{
 																								pos: position{line: 790, col: 16, offset: 25360},
 																								exprs: []interface{}{
@@ -38909,7 +39029,7 @@ var g = &grammar{
 																						pos: position{line: 792, col: 8, offset: 25451},
 																						expr: &actionExpr{
 																							pos: position{line: 2852, col: 10, offset: 90239},
-																							run: (*parser).callonShortcutParagraph204,
+																							run: (*parser).callonShortcutParagraph217,
 																							expr: &charClassMatcher{
 																								pos:        position{line: 2852, col: 10, offset: 90239},
 																								val:        "[\\t ]",
@@ -38924,7 +39044,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 2861, col: 12, offset: 90410},
-																								run: (*parser).callonShortcutParagraph207,
+																								run: (*parser).callonShortcutParagraph220,
 																								expr: &choiceExpr{
 																									pos: position{line: 2861, col: 13, offset: 90411},
 																									alternatives: []interface{}{
@@ -38962,7 +39082,7 @@ var g = &grammar{
 																		},
 																		&actionExpr{
 																			pos: position{line: 797, col: 5, offset: 25599},
-																			run: (*parser).callonShortcutParagraph214,
+																			run: (*parser).callonShortcutParagraph227,
 																			expr: &seqExpr{
 																				pos: position{line: 797, col: 5, offset: 25599},
 																				exprs: []interface{}{
@@ -38971,7 +39091,7 @@ var g = &grammar{
 																						label: "delimiter",
 																						expr: &actionExpr{
 																							pos: position{line: 797, col: 16, offset: 25610},
-																							run: (*parser).callonShortcutParagraph217,
+																							run: (*parser).callonShortcutParagraph230,
 																							expr: &seqExpr{
 																								pos: position{line: 797, col: 16, offset: 25610},
 																								exprs: []interface{}{
@@ -38998,7 +39118,7 @@ var g = &grammar{
 																						pos: position{line: 799, col: 8, offset: 25701},
 																						expr: &actionExpr{
 																							pos: position{line: 2852, col: 10, offset: 90239},
-																							run: (*parser).callonShortcutParagraph223,
+																							run: (*parser).callonShortcutParagraph236,
 																							expr: &charClassMatcher{
 																								pos:        position{line: 2852, col: 10, offset: 90239},
 																								val:        "[\\t ]",
@@ -39013,7 +39133,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 2861, col: 12, offset: 90410},
-																								run: (*parser).callonShortcutParagraph226,
+																								run: (*parser).callonShortcutParagraph239,
 																								expr: &choiceExpr{
 																									pos: position{line: 2861, col: 13, offset: 90411},
 																									alternatives: []interface{}{
@@ -39051,7 +39171,7 @@ var g = &grammar{
 																		},
 																		&actionExpr{
 																			pos: position{line: 804, col: 5, offset: 25845},
-																			run: (*parser).callonShortcutParagraph233,
+																			run: (*parser).callonShortcutParagraph246,
 																			expr: &seqExpr{
 																				pos: position{line: 804, col: 5, offset: 25845},
 																				exprs: []interface{}{
@@ -39060,7 +39180,7 @@ var g = &grammar{
 																						label: "delimiter",
 																						expr: &actionExpr{
 																							pos: position{line: 804, col: 16, offset: 25856},
-																							run: (*parser).callonShortcutParagraph236,
+																							run: (*parser).callonShortcutParagraph249,
 																							expr: &seqExpr{
 																								pos: position{line: 804, col: 16, offset: 25856},
 																								exprs: []interface{}{
@@ -39087,7 +39207,7 @@ var g = &grammar{
 																						pos: position{line: 806, col: 8, offset: 25947},
 																						expr: &actionExpr{
 																							pos: position{line: 2852, col: 10, offset: 90239},
-																							run: (*parser).callonShortcutParagraph242,
+																							run: (*parser).callonShortcutParagraph255,
 																							expr: &charClassMatcher{
 																								pos:        position{line: 2852, col: 10, offset: 90239},
 																								val:        "[\\t ]",
@@ -39102,7 +39222,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 2861, col: 12, offset: 90410},
-																								run: (*parser).callonShortcutParagraph245,
+																								run: (*parser).callonShortcutParagraph258,
 																								expr: &choiceExpr{
 																									pos: position{line: 2861, col: 13, offset: 90411},
 																									alternatives: []interface{}{
@@ -39146,7 +39266,7 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1761, col: 9, offset: 56972},
+												pos: position{line: 1761, col: 9, offset: 56976},
 												expr: &seqExpr{
 													pos: position{line: 1536, col: 27, offset: 49641},
 													exprs: []interface{}{
@@ -39160,7 +39280,7 @@ var g = &grammar{
 															pos: position{line: 1536, col: 31, offset: 49645},
 															expr: &actionExpr{
 																pos: position{line: 2852, col: 10, offset: 90239},
-																run: (*parser).callonShortcutParagraph256,
+																run: (*parser).callonShortcutParagraph269,
 																expr: &charClassMatcher{
 																	pos:        position{line: 2852, col: 10, offset: 90239},
 																	val:        "[\\t ]",
@@ -39172,7 +39292,7 @@ var g = &grammar{
 														},
 														&actionExpr{
 															pos: position{line: 2861, col: 12, offset: 90410},
-															run: (*parser).callonShortcutParagraph258,
+															run: (*parser).callonShortcutParagraph271,
 															expr: &choiceExpr{
 																pos: position{line: 2861, col: 13, offset: 90411},
 																alternatives: []interface{}{
@@ -39201,14 +39321,14 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1762, col: 9, offset: 57004},
+												pos:   position{line: 1762, col: 9, offset: 57008},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1762, col: 15, offset: 57010},
+													pos: position{line: 1762, col: 15, offset: 57014},
 													alternatives: []interface{}{
 														&actionExpr{
 															pos: position{line: 2462, col: 22, offset: 79217},
-															run: (*parser).callonShortcutParagraph265,
+															run: (*parser).callonShortcutParagraph278,
 															expr: &seqExpr{
 																pos: position{line: 2462, col: 22, offset: 79217},
 																exprs: []interface{}{
@@ -39232,7 +39352,7 @@ var g = &grammar{
 																		label: "content",
 																		expr: &actionExpr{
 																			pos: position{line: 2798, col: 13, offset: 88765},
-																			run: (*parser).callonShortcutParagraph271,
+																			run: (*parser).callonShortcutParagraph284,
 																			expr: &zeroOrMoreExpr{
 																				pos: position{line: 2798, col: 13, offset: 88765},
 																				expr: &charClassMatcher{
@@ -39250,7 +39370,7 @@ var g = &grammar{
 																		alternatives: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 2861, col: 12, offset: 90410},
-																				run: (*parser).callonShortcutParagraph275,
+																				run: (*parser).callonShortcutParagraph288,
 																				expr: &choiceExpr{
 																					pos: position{line: 2861, col: 13, offset: 90411},
 																					alternatives: []interface{}{
@@ -39287,17 +39407,17 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1784, col: 5, offset: 57610},
-															run: (*parser).callonShortcutParagraph282,
+															pos: position{line: 1784, col: 5, offset: 57614},
+															run: (*parser).callonShortcutParagraph295,
 															expr: &seqExpr{
-																pos: position{line: 1784, col: 5, offset: 57610},
+																pos: position{line: 1784, col: 5, offset: 57614},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1784, col: 5, offset: 57610},
+																		pos:   position{line: 1784, col: 5, offset: 57614},
 																		label: "content",
 																		expr: &actionExpr{
 																			pos: position{line: 2802, col: 14, offset: 88832},
-																			run: (*parser).callonShortcutParagraph285,
+																			run: (*parser).callonShortcutParagraph298,
 																			expr: &oneOrMoreExpr{
 																				pos: position{line: 2802, col: 14, offset: 88832},
 																				expr: &charClassMatcher{
@@ -39311,15 +39431,15 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1785, col: 5, offset: 57634},
-																		run: (*parser).callonShortcutParagraph288,
+																		pos: position{line: 1785, col: 5, offset: 57638},
+																		run: (*parser).callonShortcutParagraph301,
 																	},
 																	&choiceExpr{
 																		pos: position{line: 2874, col: 8, offset: 90637},
 																		alternatives: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 2861, col: 12, offset: 90410},
-																				run: (*parser).callonShortcutParagraph290,
+																				run: (*parser).callonShortcutParagraph303,
 																				expr: &choiceExpr{
 																					pos: position{line: 2861, col: 13, offset: 90411},
 																					alternatives: []interface{}{
@@ -39369,18 +39489,18 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraph",
-			pos:  position{line: 1769, col: 1, offset: 57214},
+			pos:  position{line: 1769, col: 1, offset: 57218},
 			expr: &actionExpr{
-				pos: position{line: 1770, col: 5, offset: 57232},
+				pos: position{line: 1770, col: 5, offset: 57236},
 				run: (*parser).callonParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1770, col: 5, offset: 57232},
+					pos: position{line: 1770, col: 5, offset: 57236},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1770, col: 5, offset: 57232},
+							pos:   position{line: 1770, col: 5, offset: 57236},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1770, col: 11, offset: 57238},
+								pos: position{line: 1770, col: 11, offset: 57242},
 								expr: &actionExpr{
 									pos: position{line: 1725, col: 5, offset: 55744},
 									run: (*parser).callonParagraph5,
@@ -39471,26 +39591,86 @@ var g = &grammar{
 													},
 												},
 											},
+											&notExpr{
+												pos: position{line: 1740, col: 12, offset: 56194},
+												expr: &seqExpr{
+													pos: position{line: 1740, col: 14, offset: 56196},
+													exprs: []interface{}{
+														&zeroOrMoreExpr{
+															pos: position{line: 1740, col: 14, offset: 56196},
+															expr: &actionExpr{
+																pos: position{line: 2852, col: 10, offset: 90239},
+																run: (*parser).callonParagraph28,
+																expr: &charClassMatcher{
+																	pos:        position{line: 2852, col: 10, offset: 90239},
+																	val:        "[\\t ]",
+																	chars:      []rune{'\t', ' '},
+																	ignoreCase: false,
+																	inverted:   false,
+																},
+															},
+														},
+														&choiceExpr{
+															pos: position{line: 2874, col: 8, offset: 90637},
+															alternatives: []interface{}{
+																&actionExpr{
+																	pos: position{line: 2861, col: 12, offset: 90410},
+																	run: (*parser).callonParagraph31,
+																	expr: &choiceExpr{
+																		pos: position{line: 2861, col: 13, offset: 90411},
+																		alternatives: []interface{}{
+																			&litMatcher{
+																				pos:        position{line: 2861, col: 13, offset: 90411},
+																				val:        "\n",
+																				ignoreCase: false,
+																				want:       "\"\\n\"",
+																			},
+																			&litMatcher{
+																				pos:        position{line: 2861, col: 20, offset: 90418},
+																				val:        "\r\n",
+																				ignoreCase: false,
+																				want:       "\"\\r\\n\"",
+																			},
+																			&litMatcher{
+																				pos:        position{line: 2861, col: 29, offset: 90427},
+																				val:        "\r",
+																				ignoreCase: false,
+																				want:       "\"\\r\"",
+																			},
+																		},
+																	},
+																},
+																&notExpr{
+																	pos: position{line: 2871, col: 8, offset: 90587},
+																	expr: &anyMatcher{
+																		line: 2871, col: 9, offset: 90588,
+																	},
+																},
+															},
+														},
+													},
+												},
+											},
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1771, col: 5, offset: 57261},
+							pos:   position{line: 1771, col: 5, offset: 57265},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1784, col: 5, offset: 57610},
-								run: (*parser).callonParagraph26,
+								pos: position{line: 1784, col: 5, offset: 57614},
+								run: (*parser).callonParagraph39,
 								expr: &seqExpr{
-									pos: position{line: 1784, col: 5, offset: 57610},
+									pos: position{line: 1784, col: 5, offset: 57614},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1784, col: 5, offset: 57610},
+											pos:   position{line: 1784, col: 5, offset: 57614},
 											label: "content",
 											expr: &actionExpr{
 												pos: position{line: 2802, col: 14, offset: 88832},
-												run: (*parser).callonParagraph29,
+												run: (*parser).callonParagraph42,
 												expr: &oneOrMoreExpr{
 													pos: position{line: 2802, col: 14, offset: 88832},
 													expr: &charClassMatcher{
@@ -39504,15 +39684,15 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1785, col: 5, offset: 57634},
-											run: (*parser).callonParagraph32,
+											pos: position{line: 1785, col: 5, offset: 57638},
+											run: (*parser).callonParagraph45,
 										},
 										&choiceExpr{
 											pos: position{line: 2874, col: 8, offset: 90637},
 											alternatives: []interface{}{
 												&actionExpr{
 													pos: position{line: 2861, col: 12, offset: 90410},
-													run: (*parser).callonParagraph34,
+													run: (*parser).callonParagraph47,
 													expr: &choiceExpr{
 														pos: position{line: 2861, col: 13, offset: 90411},
 														alternatives: []interface{}{
@@ -39550,15 +39730,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1772, col: 5, offset: 57295},
+							pos:   position{line: 1772, col: 5, offset: 57299},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1772, col: 16, offset: 57306},
+								pos: position{line: 1772, col: 16, offset: 57310},
 								expr: &actionExpr{
-									pos: position{line: 1773, col: 9, offset: 57316},
-									run: (*parser).callonParagraph43,
+									pos: position{line: 1773, col: 9, offset: 57320},
+									run: (*parser).callonParagraph56,
 									expr: &seqExpr{
-										pos: position{line: 1773, col: 9, offset: 57316},
+										pos: position{line: 1773, col: 9, offset: 57320},
 										exprs: []interface{}{
 											&andExpr{
 												pos: position{line: 2869, col: 11, offset: 90573},
@@ -39567,10 +39747,10 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1774, col: 9, offset: 57331},
+												pos: position{line: 1774, col: 9, offset: 57335},
 												expr: &actionExpr{
 													pos: position{line: 677, col: 14, offset: 21489},
-													run: (*parser).callonParagraph48,
+													run: (*parser).callonParagraph61,
 													expr: &seqExpr{
 														pos: position{line: 677, col: 14, offset: 21489},
 														exprs: []interface{}{
@@ -39584,7 +39764,7 @@ var g = &grammar{
 																pos: position{line: 677, col: 21, offset: 21496},
 																expr: &actionExpr{
 																	pos: position{line: 2852, col: 10, offset: 90239},
-																	run: (*parser).callonParagraph53,
+																	run: (*parser).callonParagraph66,
 																	expr: &charClassMatcher{
 																		pos:        position{line: 2852, col: 10, offset: 90239},
 																		val:        "[\\t ]",
@@ -39599,7 +39779,7 @@ var g = &grammar{
 																alternatives: []interface{}{
 																	&actionExpr{
 																		pos: position{line: 2861, col: 12, offset: 90410},
-																		run: (*parser).callonParagraph56,
+																		run: (*parser).callonParagraph69,
 																		expr: &choiceExpr{
 																			pos: position{line: 2861, col: 13, offset: 90411},
 																			alternatives: []interface{}{
@@ -39637,21 +39817,21 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1775, col: 9, offset: 57350},
+												pos: position{line: 1775, col: 9, offset: 57354},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1775, col: 10, offset: 57351},
+													pos:  position{line: 1775, col: 10, offset: 57355},
 													name: "BlockAttributes",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1776, col: 9, offset: 57375},
+												pos:   position{line: 1776, col: 9, offset: 57379},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1776, col: 15, offset: 57381},
+													pos: position{line: 1776, col: 15, offset: 57385},
 													alternatives: []interface{}{
 														&actionExpr{
 															pos: position{line: 2462, col: 22, offset: 79217},
-															run: (*parser).callonParagraph67,
+															run: (*parser).callonParagraph80,
 															expr: &seqExpr{
 																pos: position{line: 2462, col: 22, offset: 79217},
 																exprs: []interface{}{
@@ -39675,7 +39855,7 @@ var g = &grammar{
 																		label: "content",
 																		expr: &actionExpr{
 																			pos: position{line: 2798, col: 13, offset: 88765},
-																			run: (*parser).callonParagraph73,
+																			run: (*parser).callonParagraph86,
 																			expr: &zeroOrMoreExpr{
 																				pos: position{line: 2798, col: 13, offset: 88765},
 																				expr: &charClassMatcher{
@@ -39693,7 +39873,7 @@ var g = &grammar{
 																		alternatives: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 2861, col: 12, offset: 90410},
-																				run: (*parser).callonParagraph77,
+																				run: (*parser).callonParagraph90,
 																				expr: &choiceExpr{
 																					pos: position{line: 2861, col: 13, offset: 90411},
 																					alternatives: []interface{}{
@@ -39730,17 +39910,17 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1784, col: 5, offset: 57610},
-															run: (*parser).callonParagraph84,
+															pos: position{line: 1784, col: 5, offset: 57614},
+															run: (*parser).callonParagraph97,
 															expr: &seqExpr{
-																pos: position{line: 1784, col: 5, offset: 57610},
+																pos: position{line: 1784, col: 5, offset: 57614},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1784, col: 5, offset: 57610},
+																		pos:   position{line: 1784, col: 5, offset: 57614},
 																		label: "content",
 																		expr: &actionExpr{
 																			pos: position{line: 2802, col: 14, offset: 88832},
-																			run: (*parser).callonParagraph87,
+																			run: (*parser).callonParagraph100,
 																			expr: &oneOrMoreExpr{
 																				pos: position{line: 2802, col: 14, offset: 88832},
 																				expr: &charClassMatcher{
@@ -39754,15 +39934,15 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1785, col: 5, offset: 57634},
-																		run: (*parser).callonParagraph90,
+																		pos: position{line: 1785, col: 5, offset: 57638},
+																		run: (*parser).callonParagraph103,
 																	},
 																	&choiceExpr{
 																		pos: position{line: 2874, col: 8, offset: 90637},
 																		alternatives: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 2861, col: 12, offset: 90410},
-																				run: (*parser).callonParagraph92,
+																				run: (*parser).callonParagraph105,
 																				expr: &choiceExpr{
 																					pos: position{line: 2861, col: 13, offset: 90411},
 																					alternatives: []interface{}{
@@ -51542,7 +51722,7 @@ func (p *parser) callonDocumentFragment692() (interface{}, error) {
 }
 
 func (c *current) onDocumentFragment695(content interface{}) (bool, error) {
-	return len(strings.TrimSpace(content.(string))) > 0, nil // stop if blank line
+	return len(strings.Trim(content.(string), " \t")) > 0, nil // is not blank
 
 }
 
@@ -65293,7 +65473,7 @@ func (p *parser) callonListContinuationElement907() (interface{}, error) {
 }
 
 func (c *current) onListContinuationElement910(content interface{}) (bool, error) {
-	return len(strings.TrimSpace(content.(string))) > 0, nil // stop if blank line
+	return len(strings.Trim(content.(string), " \t")) > 0, nil // is not blank
 
 }
 
@@ -66846,7 +67026,6 @@ func (p *parser) callonListContinuationElement1584() (interface{}, error) {
 }
 
 func (c *current) onListContinuationElement1582() (interface{}, error) {
-	// check
 	return types.LiteralParagraph, nil
 
 }
@@ -66857,6 +67036,29 @@ func (p *parser) callonListContinuationElement1582() (interface{}, error) {
 	return p.cur.onListContinuationElement1582()
 }
 
+func (c *current) onListContinuationElement1590() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonListContinuationElement1590() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1590()
+}
+
+func (c *current) onListContinuationElement1593() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonListContinuationElement1593() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1593()
+}
+
 func (c *current) onListContinuationElement1567(style interface{}) (interface{}, error) {
 	return style, nil
 
@@ -66868,102 +67070,102 @@ func (p *parser) callonListContinuationElement1567() (interface{}, error) {
 	return p.cur.onListContinuationElement1567(stack["style"])
 }
 
-func (c *current) onListContinuationElement1596() (interface{}, error) {
+func (c *current) onListContinuationElement1609() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1596() (interface{}, error) {
+func (p *parser) callonListContinuationElement1609() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1596()
+	return p.cur.onListContinuationElement1609()
 }
 
-func (c *current) onListContinuationElement1599() (interface{}, error) {
+func (c *current) onListContinuationElement1612() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1599() (interface{}, error) {
+func (p *parser) callonListContinuationElement1612() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1599()
+	return p.cur.onListContinuationElement1612()
 }
 
-func (c *current) onListContinuationElement1591() (interface{}, error) {
+func (c *current) onListContinuationElement1604() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1591() (interface{}, error) {
+func (p *parser) callonListContinuationElement1604() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1591()
+	return p.cur.onListContinuationElement1604()
 }
 
-func (c *current) onListContinuationElement1610() (interface{}, error) {
+func (c *current) onListContinuationElement1623() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1610() (interface{}, error) {
+func (p *parser) callonListContinuationElement1623() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1610()
+	return p.cur.onListContinuationElement1623()
 }
 
-func (c *current) onListContinuationElement1612() (interface{}, error) {
+func (c *current) onListContinuationElement1625() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1612() (interface{}, error) {
+func (p *parser) callonListContinuationElement1625() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1612()
+	return p.cur.onListContinuationElement1625()
 }
 
-func (c *current) onListContinuationElement1621() (interface{}, error) {
+func (c *current) onListContinuationElement1634() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1621() (interface{}, error) {
+func (p *parser) callonListContinuationElement1634() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1621()
+	return p.cur.onListContinuationElement1634()
 }
 
-func (c *current) onListContinuationElement1628() (interface{}, error) {
+func (c *current) onListContinuationElement1641() (interface{}, error) {
 
 	// `.` is 1, etc.
 	return (len(c.text)), nil
 
 }
 
-func (p *parser) callonListContinuationElement1628() (interface{}, error) {
+func (p *parser) callonListContinuationElement1641() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1628()
+	return p.cur.onListContinuationElement1641()
 }
 
-func (c *current) onListContinuationElement1631(depth interface{}) (bool, error) {
+func (c *current) onListContinuationElement1644(depth interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `.` to `.....` are allowed
 	return depth.(int) <= 5, nil
 
 }
 
-func (p *parser) callonListContinuationElement1631() (bool, error) {
+func (p *parser) callonListContinuationElement1644() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1631(stack["depth"])
+	return p.cur.onListContinuationElement1644(stack["depth"])
 }
 
-func (c *current) onListContinuationElement1625(depth interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1638(depth interface{}) (interface{}, error) {
 	switch depth.(int) {
 	case 1:
 		return types.NewOrderedListElementPrefix(types.Arabic)
@@ -66979,745 +67181,745 @@ func (c *current) onListContinuationElement1625(depth interface{}) (interface{},
 
 }
 
-func (p *parser) callonListContinuationElement1625() (interface{}, error) {
+func (p *parser) callonListContinuationElement1638() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1625(stack["depth"])
+	return p.cur.onListContinuationElement1638(stack["depth"])
 }
 
-func (c *current) onListContinuationElement1632() (interface{}, error) {
+func (c *current) onListContinuationElement1645() (interface{}, error) {
 	// numbering style: "1.", etc.
 	return types.NewOrderedListElementPrefix(types.Arabic)
 
 }
 
-func (p *parser) callonListContinuationElement1632() (interface{}, error) {
+func (p *parser) callonListContinuationElement1645() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1632()
+	return p.cur.onListContinuationElement1645()
 }
 
-func (c *current) onListContinuationElement1637() (interface{}, error) {
+func (c *current) onListContinuationElement1650() (interface{}, error) {
 	// numbering style: "a.", etc.
 	return types.NewOrderedListElementPrefix(types.LowerAlpha)
 
 }
 
-func (p *parser) callonListContinuationElement1637() (interface{}, error) {
+func (p *parser) callonListContinuationElement1650() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1637()
+	return p.cur.onListContinuationElement1650()
 }
 
-func (c *current) onListContinuationElement1641() (interface{}, error) {
+func (c *current) onListContinuationElement1654() (interface{}, error) {
 	// numbering style: "A.", etc.
 	return types.NewOrderedListElementPrefix(types.UpperAlpha)
 
 }
 
-func (p *parser) callonListContinuationElement1641() (interface{}, error) {
+func (p *parser) callonListContinuationElement1654() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1641()
+	return p.cur.onListContinuationElement1654()
 }
 
-func (c *current) onListContinuationElement1645() (interface{}, error) {
+func (c *current) onListContinuationElement1658() (interface{}, error) {
 	// numbering style: "i)", etc.
 	return types.NewOrderedListElementPrefix(types.LowerRoman)
 
 }
 
-func (p *parser) callonListContinuationElement1645() (interface{}, error) {
+func (p *parser) callonListContinuationElement1658() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1645()
+	return p.cur.onListContinuationElement1658()
 }
 
-func (c *current) onListContinuationElement1650() (interface{}, error) {
+func (c *current) onListContinuationElement1663() (interface{}, error) {
 	// numbering style: "I)", etc.
 	return types.NewOrderedListElementPrefix(types.UpperRoman)
 
 }
 
-func (p *parser) callonListContinuationElement1650() (interface{}, error) {
+func (p *parser) callonListContinuationElement1663() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1650()
+	return p.cur.onListContinuationElement1663()
 }
 
-func (c *current) onListContinuationElement1655(prefix interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1668(prefix interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1655() (interface{}, error) {
+func (p *parser) callonListContinuationElement1668() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1655(stack["prefix"])
+	return p.cur.onListContinuationElement1668(stack["prefix"])
 }
 
-func (c *current) onListContinuationElement1618(prefix interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1631(prefix interface{}) (interface{}, error) {
 	return prefix, nil
 }
 
-func (p *parser) callonListContinuationElement1618() (interface{}, error) {
+func (p *parser) callonListContinuationElement1631() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1618(stack["prefix"])
+	return p.cur.onListContinuationElement1631(stack["prefix"])
 }
 
-func (c *current) onListContinuationElement1662() (interface{}, error) {
+func (c *current) onListContinuationElement1675() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1662() (interface{}, error) {
+func (p *parser) callonListContinuationElement1675() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1662()
+	return p.cur.onListContinuationElement1675()
 }
 
-func (c *current) onListContinuationElement1665() (interface{}, error) {
+func (c *current) onListContinuationElement1678() (interface{}, error) {
 	// `-` or `*` to `*****`
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1665() (interface{}, error) {
+func (p *parser) callonListContinuationElement1678() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1665()
+	return p.cur.onListContinuationElement1678()
 }
 
-func (c *current) onListContinuationElement1670(style interface{}) (bool, error) {
+func (c *current) onListContinuationElement1683(style interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `*` to `*****` are allowed
 	return len(style.(string)) <= 5, nil
 
 }
 
-func (p *parser) callonListContinuationElement1670() (bool, error) {
+func (p *parser) callonListContinuationElement1683() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1670(stack["style"])
+	return p.cur.onListContinuationElement1683(stack["style"])
 }
 
-func (c *current) onListContinuationElement1671(style interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1684(style interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1671() (interface{}, error) {
+func (p *parser) callonListContinuationElement1684() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1671(stack["style"])
+	return p.cur.onListContinuationElement1684(stack["style"])
 }
 
-func (c *current) onListContinuationElement1659(style interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1672(style interface{}) (interface{}, error) {
 	return types.NewUnorderedListElementPrefix(style.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1659() (interface{}, error) {
+func (p *parser) callonListContinuationElement1672() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1659(stack["style"])
+	return p.cur.onListContinuationElement1672(stack["style"])
 }
 
-func (c *current) onListContinuationElement1679() (interface{}, error) {
+func (c *current) onListContinuationElement1692() (interface{}, error) {
 	return strconv.Atoi(string(c.text))
 }
 
-func (p *parser) callonListContinuationElement1679() (interface{}, error) {
+func (p *parser) callonListContinuationElement1692() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1679()
+	return p.cur.onListContinuationElement1692()
 }
 
-func (c *current) onListContinuationElement1683(ref interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1696(ref interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1683() (interface{}, error) {
+func (p *parser) callonListContinuationElement1696() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1683(stack["ref"])
+	return p.cur.onListContinuationElement1696(stack["ref"])
 }
 
-func (c *current) onListContinuationElement1675(ref interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1688(ref interface{}) (interface{}, error) {
 	return ref, nil
 
 }
 
-func (p *parser) callonListContinuationElement1675() (interface{}, error) {
+func (p *parser) callonListContinuationElement1688() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1675(stack["ref"])
+	return p.cur.onListContinuationElement1688(stack["ref"])
 }
 
-func (c *current) onListContinuationElement1695() (interface{}, error) {
+func (c *current) onListContinuationElement1708() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1695() (interface{}, error) {
+func (p *parser) callonListContinuationElement1708() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1695()
+	return p.cur.onListContinuationElement1708()
 }
 
-func (c *current) onListContinuationElement1698(separator interface{}) (bool, error) {
+func (c *current) onListContinuationElement1711(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonListContinuationElement1698() (bool, error) {
+func (p *parser) callonListContinuationElement1711() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1698(stack["separator"])
+	return p.cur.onListContinuationElement1711(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1692(separator interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1705(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonListContinuationElement1692() (interface{}, error) {
+func (p *parser) callonListContinuationElement1705() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1692(stack["separator"])
+	return p.cur.onListContinuationElement1705(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1701() (interface{}, error) {
+func (c *current) onListContinuationElement1714() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1701() (interface{}, error) {
+func (p *parser) callonListContinuationElement1714() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1701()
+	return p.cur.onListContinuationElement1714()
 }
 
-func (c *current) onListContinuationElement1688() (interface{}, error) {
+func (c *current) onListContinuationElement1701() (interface{}, error) {
 	return types.NewRawLine(strings.TrimSpace(string(c.text)))
 
 }
 
-func (p *parser) callonListContinuationElement1688() (interface{}, error) {
+func (p *parser) callonListContinuationElement1701() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1688()
+	return p.cur.onListContinuationElement1701()
 }
 
-func (c *current) onListContinuationElement1712() (interface{}, error) {
+func (c *current) onListContinuationElement1725() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1712() (interface{}, error) {
+func (p *parser) callonListContinuationElement1725() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1712()
+	return p.cur.onListContinuationElement1725()
 }
 
-func (c *current) onListContinuationElement1715(separator interface{}) (bool, error) {
+func (c *current) onListContinuationElement1728(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonListContinuationElement1715() (bool, error) {
+func (p *parser) callonListContinuationElement1728() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1715(stack["separator"])
+	return p.cur.onListContinuationElement1728(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1709(separator interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1722(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonListContinuationElement1709() (interface{}, error) {
+func (p *parser) callonListContinuationElement1722() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1709(stack["separator"])
+	return p.cur.onListContinuationElement1722(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1726() (interface{}, error) {
+func (c *current) onListContinuationElement1739() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1726() (interface{}, error) {
+func (p *parser) callonListContinuationElement1739() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1726()
+	return p.cur.onListContinuationElement1739()
 }
 
-func (c *current) onListContinuationElement1732() (interface{}, error) {
+func (c *current) onListContinuationElement1745() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1732() (interface{}, error) {
+func (p *parser) callonListContinuationElement1745() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1732()
+	return p.cur.onListContinuationElement1745()
 }
 
-func (c *current) onListContinuationElement1735() (interface{}, error) {
+func (c *current) onListContinuationElement1748() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1735() (interface{}, error) {
+func (p *parser) callonListContinuationElement1748() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1735()
+	return p.cur.onListContinuationElement1748()
 }
 
-func (c *current) onListContinuationElement1723(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1736(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1723() (interface{}, error) {
+func (p *parser) callonListContinuationElement1736() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1723(stack["delimiter"])
+	return p.cur.onListContinuationElement1736(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1745() (interface{}, error) {
+func (c *current) onListContinuationElement1758() (interface{}, error) {
 	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1745() (interface{}, error) {
+func (p *parser) callonListContinuationElement1758() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1745()
+	return p.cur.onListContinuationElement1758()
 }
 
-func (c *current) onListContinuationElement1751() (interface{}, error) {
+func (c *current) onListContinuationElement1764() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1751() (interface{}, error) {
+func (p *parser) callonListContinuationElement1764() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1751()
+	return p.cur.onListContinuationElement1764()
 }
 
-func (c *current) onListContinuationElement1754() (interface{}, error) {
+func (c *current) onListContinuationElement1767() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1754() (interface{}, error) {
+func (p *parser) callonListContinuationElement1767() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1754()
+	return p.cur.onListContinuationElement1767()
 }
 
-func (c *current) onListContinuationElement1742(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1755(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1742() (interface{}, error) {
+func (p *parser) callonListContinuationElement1755() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1742(stack["delimiter"])
+	return p.cur.onListContinuationElement1755(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1765() (interface{}, error) {
+func (c *current) onListContinuationElement1778() (interface{}, error) {
 	// exclude ` to avoid matching fenced blocks with more than 3 "`"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1765() (interface{}, error) {
+func (p *parser) callonListContinuationElement1778() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1765()
+	return p.cur.onListContinuationElement1778()
 }
 
-func (c *current) onListContinuationElement1769() (interface{}, error) {
+func (c *current) onListContinuationElement1782() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1769() (interface{}, error) {
+func (p *parser) callonListContinuationElement1782() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1769()
+	return p.cur.onListContinuationElement1782()
 }
 
-func (c *current) onListContinuationElement1772() (interface{}, error) {
+func (c *current) onListContinuationElement1785() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1772() (interface{}, error) {
+func (p *parser) callonListContinuationElement1785() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1772()
+	return p.cur.onListContinuationElement1785()
 }
 
-func (c *current) onListContinuationElement1761(language interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1774(language interface{}) (interface{}, error) {
 	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
 }
 
-func (p *parser) callonListContinuationElement1761() (interface{}, error) {
+func (p *parser) callonListContinuationElement1774() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1761(stack["language"])
+	return p.cur.onListContinuationElement1774(stack["language"])
 }
 
-func (c *current) onListContinuationElement1782() (interface{}, error) {
+func (c *current) onListContinuationElement1795() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1782() (interface{}, error) {
+func (p *parser) callonListContinuationElement1795() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1782()
+	return p.cur.onListContinuationElement1795()
 }
 
-func (c *current) onListContinuationElement1788() (interface{}, error) {
+func (c *current) onListContinuationElement1801() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1788() (interface{}, error) {
+func (p *parser) callonListContinuationElement1801() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1788()
+	return p.cur.onListContinuationElement1801()
 }
 
-func (c *current) onListContinuationElement1791() (interface{}, error) {
+func (c *current) onListContinuationElement1804() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1791() (interface{}, error) {
+func (p *parser) callonListContinuationElement1804() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1791()
+	return p.cur.onListContinuationElement1804()
 }
 
-func (c *current) onListContinuationElement1779(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1792(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1779() (interface{}, error) {
+func (p *parser) callonListContinuationElement1792() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1779(stack["delimiter"])
+	return p.cur.onListContinuationElement1792(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1801() (interface{}, error) {
+func (c *current) onListContinuationElement1814() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1801() (interface{}, error) {
+func (p *parser) callonListContinuationElement1814() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1801()
+	return p.cur.onListContinuationElement1814()
 }
 
-func (c *current) onListContinuationElement1807() (interface{}, error) {
+func (c *current) onListContinuationElement1820() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1807() (interface{}, error) {
+func (p *parser) callonListContinuationElement1820() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1807()
+	return p.cur.onListContinuationElement1820()
 }
 
-func (c *current) onListContinuationElement1810() (interface{}, error) {
+func (c *current) onListContinuationElement1823() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1810() (interface{}, error) {
+func (p *parser) callonListContinuationElement1823() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1810()
+	return p.cur.onListContinuationElement1823()
 }
 
-func (c *current) onListContinuationElement1798(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1811(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1798() (interface{}, error) {
+func (p *parser) callonListContinuationElement1811() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1798(stack["delimiter"])
+	return p.cur.onListContinuationElement1811(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1820() (interface{}, error) {
+func (c *current) onListContinuationElement1833() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1820() (interface{}, error) {
+func (p *parser) callonListContinuationElement1833() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1820()
+	return p.cur.onListContinuationElement1833()
 }
 
-func (c *current) onListContinuationElement1826() (interface{}, error) {
+func (c *current) onListContinuationElement1839() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1826() (interface{}, error) {
+func (p *parser) callonListContinuationElement1839() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1826()
+	return p.cur.onListContinuationElement1839()
 }
 
-func (c *current) onListContinuationElement1829() (interface{}, error) {
+func (c *current) onListContinuationElement1842() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1829() (interface{}, error) {
+func (p *parser) callonListContinuationElement1842() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1829()
+	return p.cur.onListContinuationElement1842()
 }
 
-func (c *current) onListContinuationElement1817(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1830(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1817() (interface{}, error) {
+func (p *parser) callonListContinuationElement1830() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1817(stack["delimiter"])
+	return p.cur.onListContinuationElement1830(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1839() (interface{}, error) {
+func (c *current) onListContinuationElement1852() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1839() (interface{}, error) {
+func (p *parser) callonListContinuationElement1852() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1839()
+	return p.cur.onListContinuationElement1852()
 }
 
-func (c *current) onListContinuationElement1845() (interface{}, error) {
+func (c *current) onListContinuationElement1858() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1845() (interface{}, error) {
+func (p *parser) callonListContinuationElement1858() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1845()
+	return p.cur.onListContinuationElement1858()
 }
 
-func (c *current) onListContinuationElement1848() (interface{}, error) {
+func (c *current) onListContinuationElement1861() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1848() (interface{}, error) {
+func (p *parser) callonListContinuationElement1861() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1848()
+	return p.cur.onListContinuationElement1861()
 }
 
-func (c *current) onListContinuationElement1836(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1849(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1836() (interface{}, error) {
+func (p *parser) callonListContinuationElement1849() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1836(stack["delimiter"])
+	return p.cur.onListContinuationElement1849(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1858() (interface{}, error) {
+func (c *current) onListContinuationElement1871() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1858() (interface{}, error) {
+func (p *parser) callonListContinuationElement1871() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1858()
+	return p.cur.onListContinuationElement1871()
 }
 
-func (c *current) onListContinuationElement1864() (interface{}, error) {
+func (c *current) onListContinuationElement1877() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1864() (interface{}, error) {
+func (p *parser) callonListContinuationElement1877() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1864()
+	return p.cur.onListContinuationElement1877()
 }
 
-func (c *current) onListContinuationElement1867() (interface{}, error) {
+func (c *current) onListContinuationElement1880() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1867() (interface{}, error) {
+func (p *parser) callonListContinuationElement1880() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1867()
+	return p.cur.onListContinuationElement1880()
 }
 
-func (c *current) onListContinuationElement1855(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1868(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1855() (interface{}, error) {
+func (p *parser) callonListContinuationElement1868() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1855(stack["delimiter"])
+	return p.cur.onListContinuationElement1868(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1877() (interface{}, error) {
+func (c *current) onListContinuationElement1890() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1877() (interface{}, error) {
+func (p *parser) callonListContinuationElement1890() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1877()
+	return p.cur.onListContinuationElement1890()
 }
 
-func (c *current) onListContinuationElement1883() (interface{}, error) {
+func (c *current) onListContinuationElement1896() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1883() (interface{}, error) {
+func (p *parser) callonListContinuationElement1896() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1883()
+	return p.cur.onListContinuationElement1896()
 }
 
-func (c *current) onListContinuationElement1886() (interface{}, error) {
+func (c *current) onListContinuationElement1899() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1886() (interface{}, error) {
+func (p *parser) callonListContinuationElement1899() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1886()
+	return p.cur.onListContinuationElement1899()
 }
 
-func (c *current) onListContinuationElement1874(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1887(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1874() (interface{}, error) {
+func (p *parser) callonListContinuationElement1887() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1874(stack["delimiter"])
+	return p.cur.onListContinuationElement1887(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1717(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1730(delimiter interface{}) (interface{}, error) {
 	return delimiter, nil
 
 }
 
-func (p *parser) callonListContinuationElement1717() (interface{}, error) {
+func (p *parser) callonListContinuationElement1730() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1717(stack["delimiter"])
+	return p.cur.onListContinuationElement1730(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1894() (interface{}, error) {
+func (c *current) onListContinuationElement1907() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1894() (interface{}, error) {
+func (p *parser) callonListContinuationElement1907() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1894()
+	return p.cur.onListContinuationElement1907()
 }
 
-func (c *current) onListContinuationElement1898() (interface{}, error) {
+func (c *current) onListContinuationElement1911() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1898() (interface{}, error) {
+func (p *parser) callonListContinuationElement1911() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1898()
+	return p.cur.onListContinuationElement1911()
 }
 
-func (c *current) onListContinuationElement1588(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1601(content interface{}) (interface{}, error) {
 	// do not retain the EOL chars
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1588() (interface{}, error) {
+func (p *parser) callonListContinuationElement1601() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1588(stack["content"])
+	return p.cur.onListContinuationElement1601(stack["content"])
 }
 
 func (c *current) onListContinuationElement1563(style, content interface{}) (interface{}, error) {
@@ -67891,7 +68093,6 @@ func (p *parser) callonShortcutParagraph31() (interface{}, error) {
 }
 
 func (c *current) onShortcutParagraph29() (interface{}, error) {
-	// check
 	return types.LiteralParagraph, nil
 
 }
@@ -67902,6 +68103,29 @@ func (p *parser) callonShortcutParagraph29() (interface{}, error) {
 	return p.cur.onShortcutParagraph29()
 }
 
+func (c *current) onShortcutParagraph37() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonShortcutParagraph37() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onShortcutParagraph37()
+}
+
+func (c *current) onShortcutParagraph40() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonShortcutParagraph40() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onShortcutParagraph40()
+}
+
 func (c *current) onShortcutParagraph14(style interface{}) (interface{}, error) {
 	return style, nil
 
@@ -67913,52 +68137,52 @@ func (p *parser) callonShortcutParagraph14() (interface{}, error) {
 	return p.cur.onShortcutParagraph14(stack["style"])
 }
 
-func (c *current) onShortcutParagraph38() (interface{}, error) {
+func (c *current) onShortcutParagraph51() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph38() (interface{}, error) {
+func (p *parser) callonShortcutParagraph51() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph38()
+	return p.cur.onShortcutParagraph51()
 }
 
-func (c *current) onShortcutParagraph41(content interface{}) (bool, error) {
-	return len(strings.TrimSpace(content.(string))) > 0, nil // stop if blank line
+func (c *current) onShortcutParagraph54(content interface{}) (bool, error) {
+	return len(strings.Trim(content.(string), " \t")) > 0, nil // is not blank
 
 }
 
-func (p *parser) callonShortcutParagraph41() (bool, error) {
+func (p *parser) callonShortcutParagraph54() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph41(stack["content"])
+	return p.cur.onShortcutParagraph54(stack["content"])
 }
 
-func (c *current) onShortcutParagraph43() (interface{}, error) {
+func (c *current) onShortcutParagraph56() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph43() (interface{}, error) {
+func (p *parser) callonShortcutParagraph56() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph43()
+	return p.cur.onShortcutParagraph56()
 }
 
-func (c *current) onShortcutParagraph35(content interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph48(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonShortcutParagraph35() (interface{}, error) {
+func (p *parser) callonShortcutParagraph48() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph35(stack["content"])
+	return p.cur.onShortcutParagraph48(stack["content"])
 }
 
-func (c *current) onShortcutParagraph50(style, firstLine interface{}) (bool, error) {
+func (c *current) onShortcutParagraph63(style, firstLine interface{}) (bool, error) {
 	// also, make sure that there is no LabeledListElement delimiter (`::` - `::::`)
 	//   in the middle of the line (with space afterwards)
 	//   or at the end of the line
@@ -67967,588 +68191,588 @@ func (c *current) onShortcutParagraph50(style, firstLine interface{}) (bool, err
 
 }
 
-func (p *parser) callonShortcutParagraph50() (bool, error) {
+func (p *parser) callonShortcutParagraph63() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph50(stack["style"], stack["firstLine"])
+	return p.cur.onShortcutParagraph63(stack["style"], stack["firstLine"])
 }
 
-func (c *current) onShortcutParagraph63() (interface{}, error) {
+func (c *current) onShortcutParagraph76() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph63() (interface{}, error) {
+func (p *parser) callonShortcutParagraph76() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph63()
+	return p.cur.onShortcutParagraph76()
 }
 
-func (c *current) onShortcutParagraph66() (interface{}, error) {
+func (c *current) onShortcutParagraph79() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph66() (interface{}, error) {
+func (p *parser) callonShortcutParagraph79() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph66()
+	return p.cur.onShortcutParagraph79()
 }
 
-func (c *current) onShortcutParagraph58() (interface{}, error) {
+func (c *current) onShortcutParagraph71() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonShortcutParagraph58() (interface{}, error) {
+func (p *parser) callonShortcutParagraph71() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph58()
+	return p.cur.onShortcutParagraph71()
 }
 
-func (c *current) onShortcutParagraph85() (interface{}, error) {
+func (c *current) onShortcutParagraph98() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph85() (interface{}, error) {
+func (p *parser) callonShortcutParagraph98() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph85()
+	return p.cur.onShortcutParagraph98()
 }
 
-func (c *current) onShortcutParagraph91() (interface{}, error) {
+func (c *current) onShortcutParagraph104() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph91() (interface{}, error) {
+func (p *parser) callonShortcutParagraph104() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph91()
+	return p.cur.onShortcutParagraph104()
 }
 
-func (c *current) onShortcutParagraph94() (interface{}, error) {
+func (c *current) onShortcutParagraph107() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph94() (interface{}, error) {
+func (p *parser) callonShortcutParagraph107() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph94()
+	return p.cur.onShortcutParagraph107()
 }
 
-func (c *current) onShortcutParagraph82(delimiter interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph95(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonShortcutParagraph82() (interface{}, error) {
+func (p *parser) callonShortcutParagraph95() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph82(stack["delimiter"])
+	return p.cur.onShortcutParagraph95(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph104() (interface{}, error) {
+func (c *current) onShortcutParagraph117() (interface{}, error) {
 	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph104() (interface{}, error) {
+func (p *parser) callonShortcutParagraph117() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph104()
+	return p.cur.onShortcutParagraph117()
 }
 
-func (c *current) onShortcutParagraph110() (interface{}, error) {
+func (c *current) onShortcutParagraph123() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph110() (interface{}, error) {
+func (p *parser) callonShortcutParagraph123() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph110()
+	return p.cur.onShortcutParagraph123()
 }
 
-func (c *current) onShortcutParagraph113() (interface{}, error) {
+func (c *current) onShortcutParagraph126() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph113() (interface{}, error) {
+func (p *parser) callonShortcutParagraph126() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph113()
+	return p.cur.onShortcutParagraph126()
 }
 
-func (c *current) onShortcutParagraph101(delimiter interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph114(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonShortcutParagraph101() (interface{}, error) {
+func (p *parser) callonShortcutParagraph114() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph101(stack["delimiter"])
+	return p.cur.onShortcutParagraph114(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph124() (interface{}, error) {
+func (c *current) onShortcutParagraph137() (interface{}, error) {
 	// exclude ` to avoid matching fenced blocks with more than 3 "`"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph124() (interface{}, error) {
+func (p *parser) callonShortcutParagraph137() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph124()
+	return p.cur.onShortcutParagraph137()
 }
 
-func (c *current) onShortcutParagraph128() (interface{}, error) {
+func (c *current) onShortcutParagraph141() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph128() (interface{}, error) {
+func (p *parser) callonShortcutParagraph141() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph128()
+	return p.cur.onShortcutParagraph141()
 }
 
-func (c *current) onShortcutParagraph131() (interface{}, error) {
+func (c *current) onShortcutParagraph144() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph131() (interface{}, error) {
+func (p *parser) callonShortcutParagraph144() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph131()
+	return p.cur.onShortcutParagraph144()
 }
 
-func (c *current) onShortcutParagraph120(language interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph133(language interface{}) (interface{}, error) {
 	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
 }
 
-func (p *parser) callonShortcutParagraph120() (interface{}, error) {
+func (p *parser) callonShortcutParagraph133() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph120(stack["language"])
+	return p.cur.onShortcutParagraph133(stack["language"])
 }
 
-func (c *current) onShortcutParagraph141() (interface{}, error) {
+func (c *current) onShortcutParagraph154() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph141() (interface{}, error) {
+func (p *parser) callonShortcutParagraph154() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph141()
+	return p.cur.onShortcutParagraph154()
 }
 
-func (c *current) onShortcutParagraph147() (interface{}, error) {
+func (c *current) onShortcutParagraph160() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph147() (interface{}, error) {
+func (p *parser) callonShortcutParagraph160() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph147()
+	return p.cur.onShortcutParagraph160()
 }
 
-func (c *current) onShortcutParagraph150() (interface{}, error) {
+func (c *current) onShortcutParagraph163() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph150() (interface{}, error) {
+func (p *parser) callonShortcutParagraph163() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph150()
+	return p.cur.onShortcutParagraph163()
 }
 
-func (c *current) onShortcutParagraph138(delimiter interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph151(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonShortcutParagraph138() (interface{}, error) {
+func (p *parser) callonShortcutParagraph151() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph138(stack["delimiter"])
+	return p.cur.onShortcutParagraph151(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph160() (interface{}, error) {
+func (c *current) onShortcutParagraph173() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph160() (interface{}, error) {
+func (p *parser) callonShortcutParagraph173() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph160()
+	return p.cur.onShortcutParagraph173()
 }
 
-func (c *current) onShortcutParagraph166() (interface{}, error) {
+func (c *current) onShortcutParagraph179() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph166() (interface{}, error) {
+func (p *parser) callonShortcutParagraph179() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph166()
+	return p.cur.onShortcutParagraph179()
 }
 
-func (c *current) onShortcutParagraph169() (interface{}, error) {
+func (c *current) onShortcutParagraph182() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph169() (interface{}, error) {
+func (p *parser) callonShortcutParagraph182() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph169()
+	return p.cur.onShortcutParagraph182()
 }
 
-func (c *current) onShortcutParagraph157(delimiter interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph170(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonShortcutParagraph157() (interface{}, error) {
+func (p *parser) callonShortcutParagraph170() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph157(stack["delimiter"])
+	return p.cur.onShortcutParagraph170(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph179() (interface{}, error) {
+func (c *current) onShortcutParagraph192() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph179() (interface{}, error) {
+func (p *parser) callonShortcutParagraph192() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph179()
+	return p.cur.onShortcutParagraph192()
 }
 
-func (c *current) onShortcutParagraph185() (interface{}, error) {
+func (c *current) onShortcutParagraph198() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph185() (interface{}, error) {
+func (p *parser) callonShortcutParagraph198() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph185()
+	return p.cur.onShortcutParagraph198()
 }
 
-func (c *current) onShortcutParagraph188() (interface{}, error) {
+func (c *current) onShortcutParagraph201() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph188() (interface{}, error) {
+func (p *parser) callonShortcutParagraph201() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph188()
+	return p.cur.onShortcutParagraph201()
 }
 
-func (c *current) onShortcutParagraph176(delimiter interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph189(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonShortcutParagraph176() (interface{}, error) {
+func (p *parser) callonShortcutParagraph189() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph176(stack["delimiter"])
+	return p.cur.onShortcutParagraph189(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph198() (interface{}, error) {
+func (c *current) onShortcutParagraph211() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph198() (interface{}, error) {
+func (p *parser) callonShortcutParagraph211() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph198()
+	return p.cur.onShortcutParagraph211()
 }
 
-func (c *current) onShortcutParagraph204() (interface{}, error) {
+func (c *current) onShortcutParagraph217() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph204() (interface{}, error) {
+func (p *parser) callonShortcutParagraph217() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph204()
+	return p.cur.onShortcutParagraph217()
 }
 
-func (c *current) onShortcutParagraph207() (interface{}, error) {
+func (c *current) onShortcutParagraph220() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph207() (interface{}, error) {
+func (p *parser) callonShortcutParagraph220() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph207()
+	return p.cur.onShortcutParagraph220()
 }
 
-func (c *current) onShortcutParagraph195(delimiter interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph208(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonShortcutParagraph195() (interface{}, error) {
+func (p *parser) callonShortcutParagraph208() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph195(stack["delimiter"])
+	return p.cur.onShortcutParagraph208(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph217() (interface{}, error) {
+func (c *current) onShortcutParagraph230() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph217() (interface{}, error) {
+func (p *parser) callonShortcutParagraph230() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph217()
+	return p.cur.onShortcutParagraph230()
 }
 
-func (c *current) onShortcutParagraph223() (interface{}, error) {
+func (c *current) onShortcutParagraph236() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph223() (interface{}, error) {
+func (p *parser) callonShortcutParagraph236() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph223()
+	return p.cur.onShortcutParagraph236()
 }
 
-func (c *current) onShortcutParagraph226() (interface{}, error) {
+func (c *current) onShortcutParagraph239() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph226() (interface{}, error) {
+func (p *parser) callonShortcutParagraph239() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph226()
+	return p.cur.onShortcutParagraph239()
 }
 
-func (c *current) onShortcutParagraph214(delimiter interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph227(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonShortcutParagraph214() (interface{}, error) {
+func (p *parser) callonShortcutParagraph227() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph214(stack["delimiter"])
+	return p.cur.onShortcutParagraph227(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph236() (interface{}, error) {
+func (c *current) onShortcutParagraph249() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph236() (interface{}, error) {
+func (p *parser) callonShortcutParagraph249() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph236()
+	return p.cur.onShortcutParagraph249()
 }
 
-func (c *current) onShortcutParagraph242() (interface{}, error) {
+func (c *current) onShortcutParagraph255() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph242() (interface{}, error) {
+func (p *parser) callonShortcutParagraph255() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph242()
+	return p.cur.onShortcutParagraph255()
 }
 
-func (c *current) onShortcutParagraph245() (interface{}, error) {
+func (c *current) onShortcutParagraph258() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph245() (interface{}, error) {
+func (p *parser) callonShortcutParagraph258() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph245()
+	return p.cur.onShortcutParagraph258()
 }
 
-func (c *current) onShortcutParagraph233(delimiter interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph246(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonShortcutParagraph233() (interface{}, error) {
+func (p *parser) callonShortcutParagraph246() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph233(stack["delimiter"])
+	return p.cur.onShortcutParagraph246(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph76(delimiter interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph89(delimiter interface{}) (interface{}, error) {
 	return delimiter, nil
 
 }
 
-func (p *parser) callonShortcutParagraph76() (interface{}, error) {
+func (p *parser) callonShortcutParagraph89() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph76(stack["delimiter"])
+	return p.cur.onShortcutParagraph89(stack["delimiter"])
 }
 
-func (c *current) onShortcutParagraph256() (interface{}, error) {
+func (c *current) onShortcutParagraph269() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph256() (interface{}, error) {
+func (p *parser) callonShortcutParagraph269() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph256()
+	return p.cur.onShortcutParagraph269()
 }
 
-func (c *current) onShortcutParagraph258() (interface{}, error) {
+func (c *current) onShortcutParagraph271() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph258() (interface{}, error) {
+func (p *parser) callonShortcutParagraph271() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph258()
+	return p.cur.onShortcutParagraph271()
 }
 
-func (c *current) onShortcutParagraph271() (interface{}, error) {
+func (c *current) onShortcutParagraph284() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph271() (interface{}, error) {
+func (p *parser) callonShortcutParagraph284() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph271()
+	return p.cur.onShortcutParagraph284()
 }
 
-func (c *current) onShortcutParagraph275() (interface{}, error) {
+func (c *current) onShortcutParagraph288() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph275() (interface{}, error) {
+func (p *parser) callonShortcutParagraph288() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph275()
+	return p.cur.onShortcutParagraph288()
 }
 
-func (c *current) onShortcutParagraph265(content interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph278(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonShortcutParagraph265() (interface{}, error) {
+func (p *parser) callonShortcutParagraph278() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph265(stack["content"])
+	return p.cur.onShortcutParagraph278(stack["content"])
 }
 
-func (c *current) onShortcutParagraph285() (interface{}, error) {
+func (c *current) onShortcutParagraph298() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonShortcutParagraph285() (interface{}, error) {
+func (p *parser) callonShortcutParagraph298() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph285()
+	return p.cur.onShortcutParagraph298()
 }
 
-func (c *current) onShortcutParagraph288(content interface{}) (bool, error) {
-	return len(strings.TrimSpace(content.(string))) > 0, nil // stop if blank line
+func (c *current) onShortcutParagraph301(content interface{}) (bool, error) {
+	return len(strings.Trim(content.(string), " \t")) > 0, nil // is not blank
 
 }
 
-func (p *parser) callonShortcutParagraph288() (bool, error) {
+func (p *parser) callonShortcutParagraph301() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph288(stack["content"])
+	return p.cur.onShortcutParagraph301(stack["content"])
 }
 
-func (c *current) onShortcutParagraph290() (interface{}, error) {
+func (c *current) onShortcutParagraph303() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonShortcutParagraph290() (interface{}, error) {
+func (p *parser) callonShortcutParagraph303() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph290()
+	return p.cur.onShortcutParagraph303()
 }
 
-func (c *current) onShortcutParagraph282(content interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph295(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonShortcutParagraph282() (interface{}, error) {
+func (p *parser) callonShortcutParagraph295() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph282(stack["content"])
+	return p.cur.onShortcutParagraph295(stack["content"])
 }
 
-func (c *current) onShortcutParagraph53(line interface{}) (interface{}, error) {
+func (c *current) onShortcutParagraph66(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonShortcutParagraph53() (interface{}, error) {
+func (p *parser) callonShortcutParagraph66() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onShortcutParagraph53(stack["line"])
+	return p.cur.onShortcutParagraph66(stack["line"])
 }
 
 func (c *current) onShortcutParagraph1(style, firstLine, otherLines interface{}) (interface{}, error) {
@@ -68641,7 +68865,6 @@ func (p *parser) callonParagraph22() (interface{}, error) {
 }
 
 func (c *current) onParagraph20() (interface{}, error) {
-	// check
 	return types.LiteralParagraph, nil
 
 }
@@ -68652,6 +68875,29 @@ func (p *parser) callonParagraph20() (interface{}, error) {
 	return p.cur.onParagraph20()
 }
 
+func (c *current) onParagraph28() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonParagraph28() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onParagraph28()
+}
+
+func (c *current) onParagraph31() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonParagraph31() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onParagraph31()
+}
+
 func (c *current) onParagraph5(style interface{}) (interface{}, error) {
 	return style, nil
 
@@ -68663,173 +68909,173 @@ func (p *parser) callonParagraph5() (interface{}, error) {
 	return p.cur.onParagraph5(stack["style"])
 }
 
-func (c *current) onParagraph29() (interface{}, error) {
+func (c *current) onParagraph42() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph29() (interface{}, error) {
+func (p *parser) callonParagraph42() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph29()
+	return p.cur.onParagraph42()
 }
 
-func (c *current) onParagraph32(content interface{}) (bool, error) {
-	return len(strings.TrimSpace(content.(string))) > 0, nil // stop if blank line
+func (c *current) onParagraph45(content interface{}) (bool, error) {
+	return len(strings.Trim(content.(string), " \t")) > 0, nil // is not blank
 
 }
 
-func (p *parser) callonParagraph32() (bool, error) {
+func (p *parser) callonParagraph45() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph32(stack["content"])
+	return p.cur.onParagraph45(stack["content"])
 }
 
-func (c *current) onParagraph34() (interface{}, error) {
+func (c *current) onParagraph47() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonParagraph34() (interface{}, error) {
+func (p *parser) callonParagraph47() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph34()
+	return p.cur.onParagraph47()
 }
 
-func (c *current) onParagraph26(content interface{}) (interface{}, error) {
+func (c *current) onParagraph39(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonParagraph26() (interface{}, error) {
+func (p *parser) callonParagraph39() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph26(stack["content"])
+	return p.cur.onParagraph39(stack["content"])
 }
 
-func (c *current) onParagraph53() (interface{}, error) {
+func (c *current) onParagraph66() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph53() (interface{}, error) {
+func (p *parser) callonParagraph66() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph53()
+	return p.cur.onParagraph66()
 }
 
-func (c *current) onParagraph56() (interface{}, error) {
+func (c *current) onParagraph69() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonParagraph56() (interface{}, error) {
+func (p *parser) callonParagraph69() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph56()
+	return p.cur.onParagraph69()
 }
 
-func (c *current) onParagraph48() (interface{}, error) {
+func (c *current) onParagraph61() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonParagraph48() (interface{}, error) {
+func (p *parser) callonParagraph61() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph48()
+	return p.cur.onParagraph61()
 }
 
-func (c *current) onParagraph73() (interface{}, error) {
+func (c *current) onParagraph86() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph73() (interface{}, error) {
+func (p *parser) callonParagraph86() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph73()
+	return p.cur.onParagraph86()
 }
 
-func (c *current) onParagraph77() (interface{}, error) {
+func (c *current) onParagraph90() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonParagraph77() (interface{}, error) {
+func (p *parser) callonParagraph90() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph77()
+	return p.cur.onParagraph90()
 }
 
-func (c *current) onParagraph67(content interface{}) (interface{}, error) {
+func (c *current) onParagraph80(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonParagraph67() (interface{}, error) {
+func (p *parser) callonParagraph80() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph67(stack["content"])
+	return p.cur.onParagraph80(stack["content"])
 }
 
-func (c *current) onParagraph87() (interface{}, error) {
+func (c *current) onParagraph100() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonParagraph87() (interface{}, error) {
+func (p *parser) callonParagraph100() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph87()
+	return p.cur.onParagraph100()
 }
 
-func (c *current) onParagraph90(content interface{}) (bool, error) {
-	return len(strings.TrimSpace(content.(string))) > 0, nil // stop if blank line
+func (c *current) onParagraph103(content interface{}) (bool, error) {
+	return len(strings.Trim(content.(string), " \t")) > 0, nil // is not blank
 
 }
 
-func (p *parser) callonParagraph90() (bool, error) {
+func (p *parser) callonParagraph103() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph90(stack["content"])
+	return p.cur.onParagraph103(stack["content"])
 }
 
-func (c *current) onParagraph92() (interface{}, error) {
+func (c *current) onParagraph105() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonParagraph92() (interface{}, error) {
+func (p *parser) callonParagraph105() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph92()
+	return p.cur.onParagraph105()
 }
 
-func (c *current) onParagraph84(content interface{}) (interface{}, error) {
+func (c *current) onParagraph97(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonParagraph84() (interface{}, error) {
+func (p *parser) callonParagraph97() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph84(stack["content"])
+	return p.cur.onParagraph97(stack["content"])
 }
 
-func (c *current) onParagraph43(line interface{}) (interface{}, error) {
+func (c *current) onParagraph56(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonParagraph43() (interface{}, error) {
+func (p *parser) callonParagraph56() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onParagraph43(stack["line"])
+	return p.cur.onParagraph56(stack["line"])
 }
 
 func (c *current) onParagraph1(style, firstLine, otherLines interface{}) (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 2c06bba..076dedb 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -1735,9 +1735,9 @@ ParagraphStyle <-
             return types.Warning, nil
         } / "CAUTION: " {
             return types.Caution, nil
-        } / &(Spaces) { // check 
+        } / &(Spaces) {
             return types.LiteralParagraph, nil
-        }) {
+        }) !(Space* EOL) {
             return style, nil
         }
 
@@ -1783,7 +1783,7 @@ Paragraph <-
 ParagraphRawLine <- 
     content:(ManyChars)
     &{
-        return len(strings.TrimSpace(content.(string))) > 0, nil // stop if blank line
+        return len(strings.Trim(content.(string), " \t")) > 0, nil // is not blank
     }
     EOL {
         return types.NewRawLine(content.(string))
-- 
2.43.0


From 258e737a5e02cd087def06320045250344d241be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:17 +0000
Subject: [PATCH 076/143] fix: lists in delimited blocks attached to list
 elements failed to render

---
 pkg/parser/document_processing_arrange_lists.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/parser/document_processing_arrange_lists.go b/pkg/parser/document_processing_arrange_lists.go
index 947b6b4..25f3e00 100644
--- a/pkg/parser/document_processing_arrange_lists.go
+++ b/pkg/parser/document_processing_arrange_lists.go
@@ -83,6 +83,15 @@ content:
 		// if log.IsLevelEnabled(log.DebugLevel) {
 		// 	log.Debugf("arranging element of type '%T'", element)
 		// }
+		// also, arrange the lists in the delimited blocks attached to the list elements
+		if e, ok := element.(*types.ListContinuation); ok {
+			if b, ok := e.Element.(*types.DelimitedBlock); ok {
+				var err error
+				if b.Elements, err = arrangeListElements(b.Elements); err != nil {
+					return nil, err
+				}
+			}
+		}
 		// lookup the parent block which can add the given element
 		if parentBlock := lists.parentFor(element); parentBlock != nil {
 			if err := parentBlock.AddElement(element); err != nil {
-- 
2.43.0


From e8793256e4b0b5417e5c881f8e4bfa7287114d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:08 +0000
Subject: [PATCH 077/143] fix: front matters in the middle of documents, or
 which are not YAML, lost the document

---
 .../document_processing_parse_fragments.go    |  3 ++
 pkg/parser/parser.go                          | 38 +++++++++++++------
 pkg/parser/parser.peg                         |  4 +-
 pkg/types/types.go                            |  6 +++
 4 files changed, 37 insertions(+), 14 deletions(-)

diff --git a/pkg/parser/document_processing_parse_fragments.go b/pkg/parser/document_processing_parse_fragments.go
index c90cfea..dfc5883 100644
--- a/pkg/parser/document_processing_parse_fragments.go
+++ b/pkg/parser/document_processing_parse_fragments.go
@@ -112,6 +112,9 @@ func (c *current) storeBlockAttributes(attributes types.Attributes) {
 		log.Debugf("storing block attributes in global store: %s", spew.Sdump(attributes))
 	}
 	c.globalStore[blockAttributesKey] = attributes
+	if attributes != nil {
+		c.disableFrontMatterRule() // not allowed after block attributes
+	}
 }
 
 func (c *current) isWithinLiteralParagraph() bool {
diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 784d981..bb8e82c 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -10297,23 +10297,23 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1222, col: 5, offset: 37871},
+											pos: position{line: 1222, col: 5, offset: 37823},
 											run: (*parser).callonDocumentFragment1348,
 											expr: &seqExpr{
-												pos: position{line: 1222, col: 5, offset: 37871},
+												pos: position{line: 1222, col: 5, offset: 37823},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 1222, col: 5, offset: 37871},
+														pos: position{line: 1222, col: 5, offset: 37823},
 														run: (*parser).callonDocumentFragment1350,
 													},
 													&labeledExpr{
-														pos:   position{line: 1225, col: 5, offset: 37929},
+														pos:   position{line: 1225, col: 5, offset: 37881},
 														label: "frontmatter",
 														expr: &actionExpr{
-															pos: position{line: 1230, col: 20, offset: 38024},
+															pos: position{line: 1230, col: 20, offset: 37976},
 															run: (*parser).callonDocumentFragment1352,
 															expr: &seqExpr{
-																pos: position{line: 1230, col: 20, offset: 38024},
+																pos: position{line: 1230, col: 20, offset: 37976},
 																exprs: []interface{}{
 																	&litMatcher{
 																		pos:        position{line: 1234, col: 30, offset: 38196},
@@ -10374,10 +10374,10 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1230, col: 45, offset: 38049},
+																		pos:   position{line: 1230, col: 45, offset: 38001},
 																		label: "content",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 1230, col: 53, offset: 38057},
+																			pos: position{line: 1230, col: 53, offset: 38009},
 																			expr: &actionExpr{
 																				pos: position{line: 1236, col: 27, offset: 38240},
 																				run: (*parser).callonDocumentFragment1368,
@@ -10522,6 +10522,10 @@ var g = &grammar{
 																			},
 																		},
 																	},
+																	&andCodeExpr{
+																		pos: position{line: 1230, col: 104, offset: 38060},
+																		run: (*parser).callonDocumentFragment1399,
+																	},
 																},
 															},
 														},
@@ -10539,7 +10543,7 @@ var g = &grammar{
 						},
 						&andCodeExpr{
 							pos: position{line: 253, col: 5, offset: 7555},
-							run: (*parser).callonDocumentFragment1400,
+							run: (*parser).callonDocumentFragment1401,
 						},
 					},
 				},
@@ -53286,6 +53290,16 @@ func (p *parser) callonDocumentFragment1392() (interface{}, error) {
 	return p.cur.onDocumentFragment1392()
 }
 
+func (c *current) onDocumentFragment1399(content interface{}) (bool, error) {
+	return types.IsYaml(content.(string)), nil
+}
+
+func (p *parser) callonDocumentFragment1399() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1399(stack["content"])
+}
+
 func (c *current) onDocumentFragment1352(content interface{}) (interface{}, error) {
 	return types.NewYamlFrontMatter(content.(string))
 }
@@ -53307,16 +53321,16 @@ func (p *parser) callonDocumentFragment1348() (interface{}, error) {
 	return p.cur.onDocumentFragment1348(stack["frontmatter"])
 }
 
-func (c *current) onDocumentFragment1400(attributes, element interface{}) (bool, error) {
+func (c *current) onDocumentFragment1401(attributes, element interface{}) (bool, error) {
 	// there must be at least `attributes` or `element`
 	return attributes != nil || element != nil, nil
 
 }
 
-func (p *parser) callonDocumentFragment1400() (bool, error) {
+func (p *parser) callonDocumentFragment1401() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1400(stack["attributes"], stack["element"])
+	return p.cur.onDocumentFragment1401(stack["attributes"], stack["element"])
 }
 
 func (c *current) onDocumentFragment1(attributes, element interface{}) (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 076dedb..e04ada4 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -1215,7 +1215,7 @@ LineBreak <-
         return types.NewLineBreak()    
     }
 
-// -------------------------------------------------------------------------------------
+// -------------------------------------
 // Front Matter
 // -------------------------------------------------------------------------------------
 FrontMatter <- 
@@ -1227,7 +1227,7 @@ FrontMatter <-
         return frontmatter, nil
     }
 
-YamlFrontMatter <- YamlFrontMatterDelimiter content:(YamlFrontMatterContent)? YamlFrontMatterDelimiter {
+YamlFrontMatter <- YamlFrontMatterDelimiter content:(YamlFrontMatterContent)? YamlFrontMatterDelimiter &{ return types.IsYaml(content.(string)), nil } {
     return types.NewYamlFrontMatter(content.(string))
 }
 
diff --git a/pkg/types/types.go b/pkg/types/types.go
index b0966b7..be07626 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -770,6 +770,12 @@ type FrontMatter struct {
 }
 
 // NewYamlFrontMatter initializes a new FrontMatter from the given `content`
+// IsYaml checks if the given content of a front-matter block is a (possibly empty) YAML mapping
+func IsYaml(content string) bool {
+	attributes := make(map[string]interface{})
+	return yaml.Unmarshal([]byte(content), &attributes) == nil
+}
+
 func NewYamlFrontMatter(content string) (*FrontMatter, error) {
 	attributes := make(map[string]interface{})
 	if err := yaml.Unmarshal([]byte(content), &attributes); err != nil {
-- 
2.43.0


From b1829595257913660da82c32cdcb1c01d9467ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:35 +0000
Subject: [PATCH 078/143] fix: quoted text in the values of attributes used as
 settings

---
 pkg/types/attributes.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/types/attributes.go b/pkg/types/attributes.go
index a2e5307..a200c5f 100644
--- a/pkg/types/attributes.go
+++ b/pkg/types/attributes.go
@@ -570,6 +570,12 @@ func stringifyAttributeValue(elements []interface{}) (string, bool) {
 				return "", false
 			}
 			result.WriteString(content)
+		case *QuotedText:
+			content, ok := stringifyAttributeValue(e.Elements)
+			if !ok {
+				return "", false
+			}
+			result.WriteString(content)
 		default:
 			return "", false
 		}
-- 
2.43.0


From 08b94f3dd83802a701702e51fdb0d188f53a952e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:55 +0000
Subject: [PATCH 079/143] fix: titles of sections, attributes of blocks and
 block images do not continue on the next lines

---
 .../document_processing_parse_fragments.go    |     8 +
 pkg/parser/parser.go                          | 19726 ++++++++--------
 pkg/parser/parser.peg                         |    31 +-
 3 files changed, 10009 insertions(+), 9756 deletions(-)

diff --git a/pkg/parser/document_processing_parse_fragments.go b/pkg/parser/document_processing_parse_fragments.go
index dfc5883..517efad 100644
--- a/pkg/parser/document_processing_parse_fragments.go
+++ b/pkg/parser/document_processing_parse_fragments.go
@@ -117,6 +117,14 @@ func (c *current) storeBlockAttributes(attributes types.Attributes) {
 	}
 }
 
+// currentLine returns the number of the current line
+func (c *current) currentLine() int {
+	if c.pos.col == 0 { // at the end of a line, which was counted already
+		return c.pos.line - 1
+	}
+	return c.pos.line
+}
+
 func (c *current) isWithinLiteralParagraph() bool {
 	if attrs, ok := c.globalStore[blockAttributesKey].(types.Attributes); ok {
 		log.Debugf("within literal paragraph: %t", attrs[types.AttrStyle] == types.Literal)
diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index bb8e82c..a93ece7 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 360, col: 49, offset: 10940},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2862, col: 10, offset: 90584},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2862, col: 10, offset: 90584},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2884, col: 8, offset: 90982},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2871, col: 12, offset: 90755},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2871, col: 13, offset: 90756},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2871, col: 13, offset: 90756},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2871, col: 20, offset: 90763},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2871, col: 29, offset: 90772},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2881, col: 8, offset: 90932},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2881, col: 9, offset: 90933,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 39, offset: 11061},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2862, col: 10, offset: 90584},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2862, col: 10, offset: 90584},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2884, col: 8, offset: 90982},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2871, col: 12, offset: 90755},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2871, col: 13, offset: 90756},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2871, col: 13, offset: 90756},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2871, col: 20, offset: 90763},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2871, col: 29, offset: 90772},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2881, col: 8, offset: 90932},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2881, col: 9, offset: 90933,
 															},
 														},
 													},
@@ -321,10 +321,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 78, col: 41, offset: 2149},
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2862, col: 10, offset: 90584},
 																							run: (*parser).callonDocumentRawLine66,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2862, col: 10, offset: 90584},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -333,9 +333,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2881, col: 8, offset: 90932},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2881, col: 9, offset: 90933,
 																						},
 																					},
 																				},
@@ -363,10 +363,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2862, col: 10, offset: 90584},
 														run: (*parser).callonDocumentRawLine73,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2862, col: 10, offset: 90584},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -375,9 +375,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2871, col: 8, offset: 90587},
+													pos: position{line: 2881, col: 8, offset: 90932},
 													expr: &anyMatcher{
-														line: 2871, col: 9, offset: 90588,
+														line: 2881, col: 9, offset: 90933,
 													},
 												},
 											},
@@ -446,10 +446,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 78, col: 41, offset: 2149},
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2862, col: 10, offset: 90584},
 																							run: (*parser).callonDocumentRawLine94,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2862, col: 10, offset: 90584},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -458,9 +458,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2881, col: 8, offset: 90932},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2881, col: 9, offset: 90933,
 																						},
 																					},
 																				},
@@ -488,10 +488,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2862, col: 10, offset: 90584},
 														run: (*parser).callonDocumentRawLine101,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2862, col: 10, offset: 90584},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -500,9 +500,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2871, col: 8, offset: 90587},
+													pos: position{line: 2881, col: 8, offset: 90932},
 													expr: &anyMatcher{
-														line: 2871, col: 9, offset: 90588,
+														line: 2881, col: 9, offset: 90933,
 													},
 												},
 											},
@@ -547,19 +547,19 @@ var g = &grammar{
 																					pos: position{line: 92, col: 14, offset: 2522},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 645, col: 5, offset: 20319},
+																							pos: position{line: 645, col: 5, offset: 20387},
 																							run: (*parser).callonDocumentRawLine116,
 																							expr: &seqExpr{
-																								pos: position{line: 645, col: 5, offset: 20319},
+																								pos: position{line: 645, col: 5, offset: 20387},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 645, col: 5, offset: 20319},
+																										pos:        position{line: 645, col: 5, offset: 20387},
 																										val:        "\\{",
 																										ignoreCase: false,
 																										want:       "\"\\\\{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 645, col: 13, offset: 20327},
+																										pos:   position{line: 645, col: 13, offset: 20395},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9729},
@@ -591,7 +591,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 645, col: 32, offset: 20346},
+																										pos:        position{line: 645, col: 32, offset: 20414},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -600,19 +600,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 652, col: 5, offset: 20587},
+																							pos: position{line: 652, col: 5, offset: 20655},
 																							run: (*parser).callonDocumentRawLine126,
 																							expr: &seqExpr{
-																								pos: position{line: 652, col: 5, offset: 20587},
+																								pos: position{line: 652, col: 5, offset: 20655},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 652, col: 5, offset: 20587},
+																										pos:        position{line: 652, col: 5, offset: 20655},
 																										val:        "{",
 																										ignoreCase: false,
 																										want:       "\"{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 652, col: 9, offset: 20591},
+																										pos:   position{line: 652, col: 9, offset: 20659},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9729},
@@ -644,7 +644,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 652, col: 28, offset: 20610},
+																										pos:        position{line: 652, col: 28, offset: 20678},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -710,19 +710,19 @@ var g = &grammar{
 																					pos: position{line: 93, col: 15, offset: 2687},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 645, col: 5, offset: 20319},
+																							pos: position{line: 645, col: 5, offset: 20387},
 																							run: (*parser).callonDocumentRawLine148,
 																							expr: &seqExpr{
-																								pos: position{line: 645, col: 5, offset: 20319},
+																								pos: position{line: 645, col: 5, offset: 20387},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 645, col: 5, offset: 20319},
+																										pos:        position{line: 645, col: 5, offset: 20387},
 																										val:        "\\{",
 																										ignoreCase: false,
 																										want:       "\"\\\\{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 645, col: 13, offset: 20327},
+																										pos:   position{line: 645, col: 13, offset: 20395},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9729},
@@ -754,7 +754,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 645, col: 32, offset: 20346},
+																										pos:        position{line: 645, col: 32, offset: 20414},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -763,19 +763,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 652, col: 5, offset: 20587},
+																							pos: position{line: 652, col: 5, offset: 20655},
 																							run: (*parser).callonDocumentRawLine158,
 																							expr: &seqExpr{
-																								pos: position{line: 652, col: 5, offset: 20587},
+																								pos: position{line: 652, col: 5, offset: 20655},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 652, col: 5, offset: 20587},
+																										pos:        position{line: 652, col: 5, offset: 20655},
 																										val:        "{",
 																										ignoreCase: false,
 																										want:       "\"{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 652, col: 9, offset: 20591},
+																										pos:   position{line: 652, col: 9, offset: 20659},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9729},
@@ -807,7 +807,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 652, col: 28, offset: 20610},
+																										pos:        position{line: 652, col: 28, offset: 20678},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -859,22 +859,22 @@ var g = &grammar{
 																	pos:   position{line: 94, col: 8, offset: 2844},
 																	label: "s",
 																	expr: &choiceExpr{
-																		pos: position{line: 645, col: 5, offset: 20319},
+																		pos: position{line: 645, col: 5, offset: 20387},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 645, col: 5, offset: 20319},
+																				pos: position{line: 645, col: 5, offset: 20387},
 																				run: (*parser).callonDocumentRawLine177,
 																				expr: &seqExpr{
-																					pos: position{line: 645, col: 5, offset: 20319},
+																					pos: position{line: 645, col: 5, offset: 20387},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 645, col: 5, offset: 20319},
+																							pos:        position{line: 645, col: 5, offset: 20387},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 645, col: 13, offset: 20327},
+																							pos:   position{line: 645, col: 13, offset: 20395},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 318, col: 18, offset: 9729},
@@ -906,7 +906,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 645, col: 32, offset: 20346},
+																							pos:        position{line: 645, col: 32, offset: 20414},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -915,19 +915,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 652, col: 5, offset: 20587},
+																				pos: position{line: 652, col: 5, offset: 20655},
 																				run: (*parser).callonDocumentRawLine187,
 																				expr: &seqExpr{
-																					pos: position{line: 652, col: 5, offset: 20587},
+																					pos: position{line: 652, col: 5, offset: 20655},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 652, col: 5, offset: 20587},
+																							pos:        position{line: 652, col: 5, offset: 20655},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 652, col: 9, offset: 20591},
+																							pos:   position{line: 652, col: 9, offset: 20659},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 318, col: 18, offset: 9729},
@@ -959,7 +959,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 652, col: 28, offset: 20610},
+																							pos:        position{line: 652, col: 28, offset: 20678},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -972,24 +972,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2848, col: 10, offset: 90142},
+																pos: position{line: 2858, col: 10, offset: 90487},
 																run: (*parser).callonDocumentRawLine197,
 																expr: &seqExpr{
-																	pos: position{line: 2848, col: 11, offset: 90143},
+																	pos: position{line: 2858, col: 11, offset: 90488},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2848, col: 11, offset: 90143},
+																			pos: position{line: 2858, col: 11, offset: 90488},
 																			expr: &litMatcher{
-																				pos:        position{line: 2848, col: 11, offset: 90143},
+																				pos:        position{line: 2858, col: 11, offset: 90488},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2848, col: 16, offset: 90148},
+																			pos: position{line: 2858, col: 16, offset: 90493},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2848, col: 16, offset: 90148},
+																				pos:        position{line: 2858, col: 16, offset: 90493},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -997,15 +997,15 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2848, col: 23, offset: 90155},
+																			pos:        position{line: 2858, col: 23, offset: 90500},
 																			val:        ".",
 																			ignoreCase: false,
 																			want:       "\".\"",
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2848, col: 27, offset: 90159},
+																			pos: position{line: 2858, col: 27, offset: 90504},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2848, col: 27, offset: 90159},
+																				pos:        position{line: 2858, col: 27, offset: 90504},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1016,24 +1016,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2844, col: 12, offset: 90066},
+																pos: position{line: 2854, col: 12, offset: 90411},
 																run: (*parser).callonDocumentRawLine206,
 																expr: &seqExpr{
-																	pos: position{line: 2844, col: 13, offset: 90067},
+																	pos: position{line: 2854, col: 13, offset: 90412},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2844, col: 13, offset: 90067},
+																			pos: position{line: 2854, col: 13, offset: 90412},
 																			expr: &litMatcher{
-																				pos:        position{line: 2844, col: 13, offset: 90067},
+																				pos:        position{line: 2854, col: 13, offset: 90412},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2844, col: 18, offset: 90072},
+																			pos: position{line: 2854, col: 18, offset: 90417},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2844, col: 18, offset: 90072},
+																				pos:        position{line: 2854, col: 18, offset: 90417},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1049,10 +1049,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2280},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2862, col: 10, offset: 90584},
 														run: (*parser).callonDocumentRawLine213,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2862, col: 10, offset: 90584},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1132,10 +1132,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2326},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2862, col: 10, offset: 90584},
 														run: (*parser).callonDocumentRawLine230,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2862, col: 10, offset: 90584},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1170,19 +1170,19 @@ var g = &grammar{
 																					pos: position{line: 92, col: 14, offset: 2522},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 645, col: 5, offset: 20319},
+																							pos: position{line: 645, col: 5, offset: 20387},
 																							run: (*parser).callonDocumentRawLine240,
 																							expr: &seqExpr{
-																								pos: position{line: 645, col: 5, offset: 20319},
+																								pos: position{line: 645, col: 5, offset: 20387},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 645, col: 5, offset: 20319},
+																										pos:        position{line: 645, col: 5, offset: 20387},
 																										val:        "\\{",
 																										ignoreCase: false,
 																										want:       "\"\\\\{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 645, col: 13, offset: 20327},
+																										pos:   position{line: 645, col: 13, offset: 20395},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9729},
@@ -1214,7 +1214,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 645, col: 32, offset: 20346},
+																										pos:        position{line: 645, col: 32, offset: 20414},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -1223,19 +1223,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 652, col: 5, offset: 20587},
+																							pos: position{line: 652, col: 5, offset: 20655},
 																							run: (*parser).callonDocumentRawLine250,
 																							expr: &seqExpr{
-																								pos: position{line: 652, col: 5, offset: 20587},
+																								pos: position{line: 652, col: 5, offset: 20655},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 652, col: 5, offset: 20587},
+																										pos:        position{line: 652, col: 5, offset: 20655},
 																										val:        "{",
 																										ignoreCase: false,
 																										want:       "\"{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 652, col: 9, offset: 20591},
+																										pos:   position{line: 652, col: 9, offset: 20659},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9729},
@@ -1267,7 +1267,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 652, col: 28, offset: 20610},
+																										pos:        position{line: 652, col: 28, offset: 20678},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -1333,19 +1333,19 @@ var g = &grammar{
 																					pos: position{line: 93, col: 15, offset: 2687},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 645, col: 5, offset: 20319},
+																							pos: position{line: 645, col: 5, offset: 20387},
 																							run: (*parser).callonDocumentRawLine272,
 																							expr: &seqExpr{
-																								pos: position{line: 645, col: 5, offset: 20319},
+																								pos: position{line: 645, col: 5, offset: 20387},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 645, col: 5, offset: 20319},
+																										pos:        position{line: 645, col: 5, offset: 20387},
 																										val:        "\\{",
 																										ignoreCase: false,
 																										want:       "\"\\\\{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 645, col: 13, offset: 20327},
+																										pos:   position{line: 645, col: 13, offset: 20395},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9729},
@@ -1377,7 +1377,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 645, col: 32, offset: 20346},
+																										pos:        position{line: 645, col: 32, offset: 20414},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -1386,19 +1386,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 652, col: 5, offset: 20587},
+																							pos: position{line: 652, col: 5, offset: 20655},
 																							run: (*parser).callonDocumentRawLine282,
 																							expr: &seqExpr{
-																								pos: position{line: 652, col: 5, offset: 20587},
+																								pos: position{line: 652, col: 5, offset: 20655},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 652, col: 5, offset: 20587},
+																										pos:        position{line: 652, col: 5, offset: 20655},
 																										val:        "{",
 																										ignoreCase: false,
 																										want:       "\"{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 652, col: 9, offset: 20591},
+																										pos:   position{line: 652, col: 9, offset: 20659},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9729},
@@ -1430,7 +1430,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 652, col: 28, offset: 20610},
+																										pos:        position{line: 652, col: 28, offset: 20678},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -1482,22 +1482,22 @@ var g = &grammar{
 																	pos:   position{line: 94, col: 8, offset: 2844},
 																	label: "s",
 																	expr: &choiceExpr{
-																		pos: position{line: 645, col: 5, offset: 20319},
+																		pos: position{line: 645, col: 5, offset: 20387},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 645, col: 5, offset: 20319},
+																				pos: position{line: 645, col: 5, offset: 20387},
 																				run: (*parser).callonDocumentRawLine301,
 																				expr: &seqExpr{
-																					pos: position{line: 645, col: 5, offset: 20319},
+																					pos: position{line: 645, col: 5, offset: 20387},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 645, col: 5, offset: 20319},
+																							pos:        position{line: 645, col: 5, offset: 20387},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 645, col: 13, offset: 20327},
+																							pos:   position{line: 645, col: 13, offset: 20395},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 318, col: 18, offset: 9729},
@@ -1529,7 +1529,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 645, col: 32, offset: 20346},
+																							pos:        position{line: 645, col: 32, offset: 20414},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -1538,19 +1538,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 652, col: 5, offset: 20587},
+																				pos: position{line: 652, col: 5, offset: 20655},
 																				run: (*parser).callonDocumentRawLine311,
 																				expr: &seqExpr{
-																					pos: position{line: 652, col: 5, offset: 20587},
+																					pos: position{line: 652, col: 5, offset: 20655},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 652, col: 5, offset: 20587},
+																							pos:        position{line: 652, col: 5, offset: 20655},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 652, col: 9, offset: 20591},
+																							pos:   position{line: 652, col: 9, offset: 20659},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 318, col: 18, offset: 9729},
@@ -1582,7 +1582,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 652, col: 28, offset: 20610},
+																							pos:        position{line: 652, col: 28, offset: 20678},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -1595,24 +1595,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2848, col: 10, offset: 90142},
+																pos: position{line: 2858, col: 10, offset: 90487},
 																run: (*parser).callonDocumentRawLine321,
 																expr: &seqExpr{
-																	pos: position{line: 2848, col: 11, offset: 90143},
+																	pos: position{line: 2858, col: 11, offset: 90488},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2848, col: 11, offset: 90143},
+																			pos: position{line: 2858, col: 11, offset: 90488},
 																			expr: &litMatcher{
-																				pos:        position{line: 2848, col: 11, offset: 90143},
+																				pos:        position{line: 2858, col: 11, offset: 90488},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2848, col: 16, offset: 90148},
+																			pos: position{line: 2858, col: 16, offset: 90493},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2848, col: 16, offset: 90148},
+																				pos:        position{line: 2858, col: 16, offset: 90493},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1620,15 +1620,15 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2848, col: 23, offset: 90155},
+																			pos:        position{line: 2858, col: 23, offset: 90500},
 																			val:        ".",
 																			ignoreCase: false,
 																			want:       "\".\"",
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2848, col: 27, offset: 90159},
+																			pos: position{line: 2858, col: 27, offset: 90504},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2848, col: 27, offset: 90159},
+																				pos:        position{line: 2858, col: 27, offset: 90504},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1639,24 +1639,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2844, col: 12, offset: 90066},
+																pos: position{line: 2854, col: 12, offset: 90411},
 																run: (*parser).callonDocumentRawLine330,
 																expr: &seqExpr{
-																	pos: position{line: 2844, col: 13, offset: 90067},
+																	pos: position{line: 2854, col: 13, offset: 90412},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2844, col: 13, offset: 90067},
+																			pos: position{line: 2854, col: 13, offset: 90412},
 																			expr: &litMatcher{
-																				pos:        position{line: 2844, col: 13, offset: 90067},
+																				pos:        position{line: 2854, col: 13, offset: 90412},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2844, col: 18, offset: 90072},
+																			pos: position{line: 2854, col: 18, offset: 90417},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2844, col: 18, offset: 90072},
+																				pos:        position{line: 2854, col: 18, offset: 90417},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1678,10 +1678,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2378},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2862, col: 10, offset: 90584},
 														run: (*parser).callonDocumentRawLine338,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2862, col: 10, offset: 90584},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1690,9 +1690,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2871, col: 8, offset: 90587},
+													pos: position{line: 2881, col: 8, offset: 90932},
 													expr: &anyMatcher{
-														line: 2871, col: 9, offset: 90588,
+														line: 2881, col: 9, offset: 90933,
 													},
 												},
 											},
@@ -1764,10 +1764,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 78, col: 41, offset: 2149},
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2862, col: 10, offset: 90584},
 																							run: (*parser).callonDocumentRawLine360,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2862, col: 10, offset: 90584},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -1776,9 +1776,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2881, col: 8, offset: 90932},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2881, col: 9, offset: 90933,
 																						},
 																					},
 																				},
@@ -1806,10 +1806,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3474},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2862, col: 10, offset: 90584},
 														run: (*parser).callonDocumentRawLine367,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2862, col: 10, offset: 90584},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1818,24 +1818,24 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2871, col: 8, offset: 90587},
+													pos: position{line: 2881, col: 8, offset: 90932},
 													expr: &anyMatcher{
-														line: 2871, col: 9, offset: 90588,
+														line: 2881, col: 9, offset: 90933,
 													},
 												},
 											},
 										},
 									},
 									&actionExpr{
-										pos: position{line: 724, col: 5, offset: 23042},
+										pos: position{line: 724, col: 5, offset: 23110},
 										run: (*parser).callonDocumentRawLine371,
 										expr: &seqExpr{
-											pos: position{line: 724, col: 5, offset: 23042},
+											pos: position{line: 724, col: 5, offset: 23110},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 724, col: 5, offset: 23042},
+													pos: position{line: 724, col: 5, offset: 23110},
 													expr: &charClassMatcher{
-														pos:        position{line: 2742, col: 13, offset: 87334},
+														pos:        position{line: 2752, col: 13, offset: 87679},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1843,36 +1843,36 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 725, col: 5, offset: 23072},
+													pos:   position{line: 725, col: 5, offset: 23140},
 													label: "delimiter",
 													expr: &choiceExpr{
-														pos: position{line: 726, col: 9, offset: 23092},
+														pos: position{line: 726, col: 9, offset: 23160},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 740, col: 5, offset: 23584},
+																pos: position{line: 740, col: 5, offset: 23652},
 																run: (*parser).callonDocumentRawLine377,
 																expr: &seqExpr{
-																	pos: position{line: 740, col: 5, offset: 23584},
+																	pos: position{line: 740, col: 5, offset: 23652},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 740, col: 5, offset: 23584},
+																			pos:   position{line: 740, col: 5, offset: 23652},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 740, col: 16, offset: 23595},
+																				pos: position{line: 740, col: 16, offset: 23663},
 																				run: (*parser).callonDocumentRawLine380,
 																				expr: &seqExpr{
-																					pos: position{line: 740, col: 16, offset: 23595},
+																					pos: position{line: 740, col: 16, offset: 23663},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 740, col: 16, offset: 23595},
+																							pos:        position{line: 740, col: 16, offset: 23663},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 740, col: 23, offset: 23602},
+																							pos: position{line: 740, col: 23, offset: 23670},
 																							expr: &litMatcher{
-																								pos:        position{line: 740, col: 23, offset: 23602},
+																								pos:        position{line: 740, col: 23, offset: 23670},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -1883,12 +1883,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 742, col: 8, offset: 23686},
+																			pos: position{line: 742, col: 8, offset: 23754},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2862, col: 10, offset: 90584},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2862, col: 10, offset: 90584},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1897,28 +1897,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2884, col: 8, offset: 90982},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2871, col: 12, offset: 90755},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2871, col: 13, offset: 90756},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2871, col: 13, offset: 90756},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2871, col: 20, offset: 90763},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2871, col: 29, offset: 90772},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1927,9 +1927,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2881, col: 8, offset: 90932},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2881, col: 9, offset: 90933,
 																					},
 																				},
 																			},
@@ -1938,30 +1938,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 747, col: 5, offset: 23832},
+																pos: position{line: 747, col: 5, offset: 23900},
 																run: (*parser).callonDocumentRawLine396,
 																expr: &seqExpr{
-																	pos: position{line: 747, col: 5, offset: 23832},
+																	pos: position{line: 747, col: 5, offset: 23900},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 747, col: 5, offset: 23832},
+																			pos:   position{line: 747, col: 5, offset: 23900},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 747, col: 16, offset: 23843},
+																				pos: position{line: 747, col: 16, offset: 23911},
 																				run: (*parser).callonDocumentRawLine399,
 																				expr: &seqExpr{
-																					pos: position{line: 747, col: 16, offset: 23843},
+																					pos: position{line: 747, col: 16, offset: 23911},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 747, col: 16, offset: 23843},
+																							pos:        position{line: 747, col: 16, offset: 23911},
 																							val:        "====",
 																							ignoreCase: false,
 																							want:       "\"====\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 747, col: 23, offset: 23850},
+																							pos: position{line: 747, col: 23, offset: 23918},
 																							expr: &litMatcher{
-																								pos:        position{line: 747, col: 23, offset: 23850},
+																								pos:        position{line: 747, col: 23, offset: 23918},
 																								val:        "=",
 																								ignoreCase: false,
 																								want:       "\"=\"",
@@ -1972,12 +1972,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 749, col: 8, offset: 23934},
+																			pos: position{line: 749, col: 8, offset: 24002},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2862, col: 10, offset: 90584},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2862, col: 10, offset: 90584},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1986,28 +1986,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2884, col: 8, offset: 90982},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2871, col: 12, offset: 90755},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2871, col: 13, offset: 90756},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2871, col: 13, offset: 90756},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2871, col: 20, offset: 90763},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2871, col: 29, offset: 90772},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2016,9 +2016,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2881, col: 8, offset: 90932},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2881, col: 9, offset: 90933,
 																					},
 																				},
 																			},
@@ -2027,27 +2027,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 760, col: 26, offset: 24320},
+																pos: position{line: 760, col: 26, offset: 24388},
 																run: (*parser).callonDocumentRawLine415,
 																expr: &seqExpr{
-																	pos: position{line: 760, col: 26, offset: 24320},
+																	pos: position{line: 760, col: 26, offset: 24388},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 760, col: 26, offset: 24320},
+																			pos:        position{line: 760, col: 26, offset: 24388},
 																			val:        "```",
 																			ignoreCase: false,
 																			want:       "\"```\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 760, col: 32, offset: 24326},
+																			pos:   position{line: 760, col: 32, offset: 24394},
 																			label: "language",
 																			expr: &actionExpr{
-																				pos: position{line: 764, col: 13, offset: 24456},
+																				pos: position{line: 764, col: 13, offset: 24524},
 																				run: (*parser).callonDocumentRawLine419,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 764, col: 14, offset: 24457},
+																					pos: position{line: 764, col: 14, offset: 24525},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 764, col: 14, offset: 24457},
+																						pos:        position{line: 764, col: 14, offset: 24525},
 																						val:        "[^\\r\\n`\\t ]",
 																						chars:      []rune{'\r', '\n', '`', '\t', ' '},
 																						ignoreCase: false,
@@ -2057,12 +2057,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 760, col: 52, offset: 24346},
+																			pos: position{line: 760, col: 52, offset: 24414},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2862, col: 10, offset: 90584},
 																				run: (*parser).callonDocumentRawLine423,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2862, col: 10, offset: 90584},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2071,28 +2071,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2884, col: 8, offset: 90982},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2871, col: 12, offset: 90755},
 																					run: (*parser).callonDocumentRawLine426,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2871, col: 13, offset: 90756},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2871, col: 13, offset: 90756},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2871, col: 20, offset: 90763},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2871, col: 29, offset: 90772},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2101,9 +2101,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2881, col: 8, offset: 90932},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2881, col: 9, offset: 90933,
 																					},
 																				},
 																			},
@@ -2112,30 +2112,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 754, col: 5, offset: 24079},
+																pos: position{line: 754, col: 5, offset: 24147},
 																run: (*parser).callonDocumentRawLine433,
 																expr: &seqExpr{
-																	pos: position{line: 754, col: 5, offset: 24079},
+																	pos: position{line: 754, col: 5, offset: 24147},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 754, col: 5, offset: 24079},
+																			pos:   position{line: 754, col: 5, offset: 24147},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 754, col: 16, offset: 24090},
+																				pos: position{line: 754, col: 16, offset: 24158},
 																				run: (*parser).callonDocumentRawLine436,
 																				expr: &seqExpr{
-																					pos: position{line: 754, col: 16, offset: 24090},
+																					pos: position{line: 754, col: 16, offset: 24158},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 754, col: 16, offset: 24090},
+																							pos:        position{line: 754, col: 16, offset: 24158},
 																							val:        "```",
 																							ignoreCase: false,
 																							want:       "\"```\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 754, col: 22, offset: 24096},
+																							pos: position{line: 754, col: 22, offset: 24164},
 																							expr: &litMatcher{
-																								pos:        position{line: 754, col: 22, offset: 24096},
+																								pos:        position{line: 754, col: 22, offset: 24164},
 																								val:        "`",
 																								ignoreCase: false,
 																								want:       "\"`\"",
@@ -2146,12 +2146,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 756, col: 8, offset: 24180},
+																			pos: position{line: 756, col: 8, offset: 24248},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2862, col: 10, offset: 90584},
 																				run: (*parser).callonDocumentRawLine442,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2862, col: 10, offset: 90584},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2160,28 +2160,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2884, col: 8, offset: 90982},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2871, col: 12, offset: 90755},
 																					run: (*parser).callonDocumentRawLine445,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2871, col: 13, offset: 90756},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2871, col: 13, offset: 90756},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2871, col: 20, offset: 90763},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2871, col: 29, offset: 90772},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2190,9 +2190,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2881, col: 8, offset: 90932},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2881, col: 9, offset: 90933,
 																					},
 																				},
 																			},
@@ -2201,30 +2201,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 769, col: 5, offset: 24621},
+																pos: position{line: 769, col: 5, offset: 24689},
 																run: (*parser).callonDocumentRawLine452,
 																expr: &seqExpr{
-																	pos: position{line: 769, col: 5, offset: 24621},
+																	pos: position{line: 769, col: 5, offset: 24689},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 769, col: 5, offset: 24621},
+																			pos:   position{line: 769, col: 5, offset: 24689},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 769, col: 16, offset: 24632},
+																				pos: position{line: 769, col: 16, offset: 24700},
 																				run: (*parser).callonDocumentRawLine455,
 																				expr: &seqExpr{
-																					pos: position{line: 769, col: 16, offset: 24632},
+																					pos: position{line: 769, col: 16, offset: 24700},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 769, col: 16, offset: 24632},
+																							pos:        position{line: 769, col: 16, offset: 24700},
 																							val:        "----",
 																							ignoreCase: false,
 																							want:       "\"----\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 769, col: 23, offset: 24639},
+																							pos: position{line: 769, col: 23, offset: 24707},
 																							expr: &litMatcher{
-																								pos:        position{line: 769, col: 23, offset: 24639},
+																								pos:        position{line: 769, col: 23, offset: 24707},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
@@ -2235,12 +2235,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 771, col: 8, offset: 24723},
+																			pos: position{line: 771, col: 8, offset: 24791},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2862, col: 10, offset: 90584},
 																				run: (*parser).callonDocumentRawLine461,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2862, col: 10, offset: 90584},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2249,28 +2249,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2884, col: 8, offset: 90982},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2871, col: 12, offset: 90755},
 																					run: (*parser).callonDocumentRawLine464,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2871, col: 13, offset: 90756},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2871, col: 13, offset: 90756},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2871, col: 20, offset: 90763},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2871, col: 29, offset: 90772},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2279,9 +2279,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2881, col: 8, offset: 90932},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2881, col: 9, offset: 90933,
 																					},
 																				},
 																			},
@@ -2290,30 +2290,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 783, col: 5, offset: 25097},
+																pos: position{line: 783, col: 5, offset: 25165},
 																run: (*parser).callonDocumentRawLine471,
 																expr: &seqExpr{
-																	pos: position{line: 783, col: 5, offset: 25097},
+																	pos: position{line: 783, col: 5, offset: 25165},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 783, col: 5, offset: 25097},
+																			pos:   position{line: 783, col: 5, offset: 25165},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 783, col: 16, offset: 25108},
+																				pos: position{line: 783, col: 16, offset: 25176},
 																				run: (*parser).callonDocumentRawLine474,
 																				expr: &seqExpr{
-																					pos: position{line: 783, col: 16, offset: 25108},
+																					pos: position{line: 783, col: 16, offset: 25176},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 783, col: 16, offset: 25108},
+																							pos:        position{line: 783, col: 16, offset: 25176},
 																							val:        "....",
 																							ignoreCase: false,
 																							want:       "\"....\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 783, col: 23, offset: 25115},
+																							pos: position{line: 783, col: 23, offset: 25183},
 																							expr: &litMatcher{
-																								pos:        position{line: 783, col: 23, offset: 25115},
+																								pos:        position{line: 783, col: 23, offset: 25183},
 																								val:        ".",
 																								ignoreCase: false,
 																								want:       "\".\"",
@@ -2324,12 +2324,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 785, col: 8, offset: 25199},
+																			pos: position{line: 785, col: 8, offset: 25267},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2862, col: 10, offset: 90584},
 																				run: (*parser).callonDocumentRawLine480,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2862, col: 10, offset: 90584},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2338,28 +2338,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2884, col: 8, offset: 90982},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2871, col: 12, offset: 90755},
 																					run: (*parser).callonDocumentRawLine483,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2871, col: 13, offset: 90756},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2871, col: 13, offset: 90756},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2871, col: 20, offset: 90763},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2871, col: 29, offset: 90772},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2368,9 +2368,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2881, col: 8, offset: 90932},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2881, col: 9, offset: 90933,
 																					},
 																				},
 																			},
@@ -2379,30 +2379,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 790, col: 5, offset: 25349},
+																pos: position{line: 790, col: 5, offset: 25417},
 																run: (*parser).callonDocumentRawLine490,
 																expr: &seqExpr{
-																	pos: position{line: 790, col: 5, offset: 25349},
+																	pos: position{line: 790, col: 5, offset: 25417},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 790, col: 5, offset: 25349},
+																			pos:   position{line: 790, col: 5, offset: 25417},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 790, col: 16, offset: 25360},
+																				pos: position{line: 790, col: 16, offset: 25428},
 																				run: (*parser).callonDocumentRawLine493,
 																				expr: &seqExpr{
-																					pos: position{line: 790, col: 16, offset: 25360},
+																					pos: position{line: 790, col: 16, offset: 25428},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 790, col: 16, offset: 25360},
+																							pos:        position{line: 790, col: 16, offset: 25428},
 																							val:        "++++",
 																							ignoreCase: false,
 																							want:       "\"++++\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 790, col: 23, offset: 25367},
+																							pos: position{line: 790, col: 23, offset: 25435},
 																							expr: &litMatcher{
-																								pos:        position{line: 790, col: 23, offset: 25367},
+																								pos:        position{line: 790, col: 23, offset: 25435},
 																								val:        "+",
 																								ignoreCase: false,
 																								want:       "\"+\"",
@@ -2413,12 +2413,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 792, col: 8, offset: 25451},
+																			pos: position{line: 792, col: 8, offset: 25519},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2862, col: 10, offset: 90584},
 																				run: (*parser).callonDocumentRawLine499,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2862, col: 10, offset: 90584},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2427,28 +2427,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2884, col: 8, offset: 90982},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2871, col: 12, offset: 90755},
 																					run: (*parser).callonDocumentRawLine502,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2871, col: 13, offset: 90756},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2871, col: 13, offset: 90756},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2871, col: 20, offset: 90763},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2871, col: 29, offset: 90772},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2457,9 +2457,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2881, col: 8, offset: 90932},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2881, col: 9, offset: 90933,
 																					},
 																				},
 																			},
@@ -2468,30 +2468,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 797, col: 5, offset: 25599},
+																pos: position{line: 797, col: 5, offset: 25667},
 																run: (*parser).callonDocumentRawLine509,
 																expr: &seqExpr{
-																	pos: position{line: 797, col: 5, offset: 25599},
+																	pos: position{line: 797, col: 5, offset: 25667},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 797, col: 5, offset: 25599},
+																			pos:   position{line: 797, col: 5, offset: 25667},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 797, col: 16, offset: 25610},
+																				pos: position{line: 797, col: 16, offset: 25678},
 																				run: (*parser).callonDocumentRawLine512,
 																				expr: &seqExpr{
-																					pos: position{line: 797, col: 16, offset: 25610},
+																					pos: position{line: 797, col: 16, offset: 25678},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 797, col: 16, offset: 25610},
+																							pos:        position{line: 797, col: 16, offset: 25678},
 																							val:        "____",
 																							ignoreCase: false,
 																							want:       "\"____\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 797, col: 23, offset: 25617},
+																							pos: position{line: 797, col: 23, offset: 25685},
 																							expr: &litMatcher{
-																								pos:        position{line: 797, col: 23, offset: 25617},
+																								pos:        position{line: 797, col: 23, offset: 25685},
 																								val:        "_",
 																								ignoreCase: false,
 																								want:       "\"_\"",
@@ -2502,12 +2502,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 799, col: 8, offset: 25701},
+																			pos: position{line: 799, col: 8, offset: 25769},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2862, col: 10, offset: 90584},
 																				run: (*parser).callonDocumentRawLine518,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2862, col: 10, offset: 90584},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2516,28 +2516,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2884, col: 8, offset: 90982},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2871, col: 12, offset: 90755},
 																					run: (*parser).callonDocumentRawLine521,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2871, col: 13, offset: 90756},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2871, col: 13, offset: 90756},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2871, col: 20, offset: 90763},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2871, col: 29, offset: 90772},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2546,9 +2546,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2881, col: 8, offset: 90932},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2881, col: 9, offset: 90933,
 																					},
 																				},
 																			},
@@ -2557,30 +2557,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 804, col: 5, offset: 25845},
+																pos: position{line: 804, col: 5, offset: 25913},
 																run: (*parser).callonDocumentRawLine528,
 																expr: &seqExpr{
-																	pos: position{line: 804, col: 5, offset: 25845},
+																	pos: position{line: 804, col: 5, offset: 25913},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 804, col: 5, offset: 25845},
+																			pos:   position{line: 804, col: 5, offset: 25913},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 804, col: 16, offset: 25856},
+																				pos: position{line: 804, col: 16, offset: 25924},
 																				run: (*parser).callonDocumentRawLine531,
 																				expr: &seqExpr{
-																					pos: position{line: 804, col: 16, offset: 25856},
+																					pos: position{line: 804, col: 16, offset: 25924},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 804, col: 16, offset: 25856},
+																							pos:        position{line: 804, col: 16, offset: 25924},
 																							val:        "****",
 																							ignoreCase: false,
 																							want:       "\"****\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 804, col: 23, offset: 25863},
+																							pos: position{line: 804, col: 23, offset: 25931},
 																							expr: &litMatcher{
-																								pos:        position{line: 804, col: 23, offset: 25863},
+																								pos:        position{line: 804, col: 23, offset: 25931},
 																								val:        "*",
 																								ignoreCase: false,
 																								want:       "\"*\"",
@@ -2591,12 +2591,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 806, col: 8, offset: 25947},
+																			pos: position{line: 806, col: 8, offset: 26015},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2862, col: 10, offset: 90584},
 																				run: (*parser).callonDocumentRawLine537,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2862, col: 10, offset: 90584},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2605,28 +2605,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2884, col: 8, offset: 90982},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2871, col: 12, offset: 90755},
 																					run: (*parser).callonDocumentRawLine540,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2871, col: 13, offset: 90756},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2871, col: 13, offset: 90756},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2871, col: 20, offset: 90763},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2871, col: 29, offset: 90772},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2635,9 +2635,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2881, col: 8, offset: 90932},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2881, col: 9, offset: 90933,
 																					},
 																				},
 																			},
@@ -2687,12 +2687,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine555,
 												},
 												&actionExpr{
-													pos: position{line: 2856, col: 11, offset: 90300},
+													pos: position{line: 2866, col: 11, offset: 90645},
 													run: (*parser).callonDocumentRawLine556,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2856, col: 11, offset: 90300},
+														pos: position{line: 2866, col: 11, offset: 90645},
 														expr: &charClassMatcher{
-															pos:        position{line: 2856, col: 11, offset: 90300},
+															pos:        position{line: 2866, col: 11, offset: 90645},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2701,12 +2701,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2802, col: 14, offset: 88832},
+													pos: position{line: 2812, col: 14, offset: 89177},
 													run: (*parser).callonDocumentRawLine559,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2802, col: 14, offset: 88832},
+														pos: position{line: 2812, col: 14, offset: 89177},
 														expr: &charClassMatcher{
-															pos:        position{line: 2802, col: 14, offset: 88832},
+															pos:        position{line: 2812, col: 14, offset: 89177},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2715,9 +2715,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2871, col: 8, offset: 90587},
+													pos: position{line: 2881, col: 8, offset: 90932},
 													expr: &anyMatcher{
-														line: 2871, col: 9, offset: 90588,
+														line: 2881, col: 9, offset: 90933,
 													},
 												},
 											},
@@ -2727,9 +2727,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2871, col: 8, offset: 90587},
+							pos: position{line: 2881, col: 8, offset: 90932},
 							expr: &anyMatcher{
-								line: 2871, col: 9, offset: 90588,
+								line: 2881, col: 9, offset: 90933,
 							},
 						},
 					},
@@ -2764,41 +2764,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2806, col: 17, offset: 88902},
+												pos: position{line: 2816, col: 17, offset: 89247},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2806, col: 17, offset: 88902},
+													pos:   position{line: 2816, col: 17, offset: 89247},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2823, col: 5, offset: 89356},
+														pos: position{line: 2833, col: 5, offset: 89701},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2823, col: 5, offset: 89356},
+															pos:   position{line: 2833, col: 5, offset: 89701},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2823, col: 14, offset: 89365},
+																pos: position{line: 2833, col: 14, offset: 89710},
 																expr: &choiceExpr{
-																	pos: position{line: 2824, col: 9, offset: 89375},
+																	pos: position{line: 2834, col: 9, offset: 89720},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2824, col: 9, offset: 89375},
+																			pos: position{line: 2834, col: 9, offset: 89720},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2824, col: 9, offset: 89375},
+																				pos: position{line: 2834, col: 9, offset: 89720},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2824, col: 9, offset: 89375},
+																						pos: position{line: 2834, col: 9, offset: 89720},
 																						expr: &litMatcher{
-																							pos:        position{line: 2824, col: 10, offset: 89376},
+																							pos:        position{line: 2834, col: 10, offset: 89721},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2825, col: 9, offset: 89404},
+																						pos: position{line: 2835, col: 9, offset: 89749},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2825, col: 10, offset: 89405},
+																							pos:        position{line: 2835, col: 10, offset: 89750},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2809,27 +2809,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2828, col: 11, offset: 89617},
+																			pos: position{line: 2838, col: 11, offset: 89962},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2828, col: 11, offset: 89617},
+																					pos:        position{line: 2838, col: 11, offset: 89962},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2828, col: 19, offset: 89625},
+																					pos: position{line: 2838, col: 19, offset: 89970},
 																					expr: &seqExpr{
-																						pos: position{line: 2828, col: 21, offset: 89627},
+																						pos: position{line: 2838, col: 21, offset: 89972},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2828, col: 21, offset: 89627},
+																								pos: position{line: 2838, col: 21, offset: 89972},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2862, col: 10, offset: 90584},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2862, col: 10, offset: 90584},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2838,11 +2838,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2828, col: 28, offset: 89634},
+																								pos: position{line: 2838, col: 28, offset: 89979},
 																								expr: &notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2881, col: 8, offset: 90932},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2881, col: 9, offset: 90933,
 																									},
 																								},
 																							},
@@ -2852,35 +2852,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 636, col: 5, offset: 20109},
+																			pos: position{line: 636, col: 5, offset: 20177},
 																			run: (*parser).callonFileInclusion30,
 																			expr: &seqExpr{
-																				pos: position{line: 636, col: 5, offset: 20109},
+																				pos: position{line: 636, col: 5, offset: 20177},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 636, col: 5, offset: 20109},
+																						pos: position{line: 636, col: 5, offset: 20177},
 																						run: (*parser).callonFileInclusion32,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 639, col: 5, offset: 20181},
+																						pos:   position{line: 639, col: 5, offset: 20249},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 639, col: 14, offset: 20190},
+																							pos: position{line: 639, col: 14, offset: 20258},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 645, col: 5, offset: 20319},
+																									pos: position{line: 645, col: 5, offset: 20387},
 																									run: (*parser).callonFileInclusion35,
 																									expr: &seqExpr{
-																										pos: position{line: 645, col: 5, offset: 20319},
+																										pos: position{line: 645, col: 5, offset: 20387},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 645, col: 5, offset: 20319},
+																												pos:        position{line: 645, col: 5, offset: 20387},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 645, col: 13, offset: 20327},
+																												pos:   position{line: 645, col: 13, offset: 20395},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9729},
@@ -2912,7 +2912,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 645, col: 32, offset: 20346},
+																												pos:        position{line: 645, col: 32, offset: 20414},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -2921,19 +2921,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 652, col: 5, offset: 20587},
+																									pos: position{line: 652, col: 5, offset: 20655},
 																									run: (*parser).callonFileInclusion45,
 																									expr: &seqExpr{
-																										pos: position{line: 652, col: 5, offset: 20587},
+																										pos: position{line: 652, col: 5, offset: 20655},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 652, col: 5, offset: 20587},
+																												pos:        position{line: 652, col: 5, offset: 20655},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 652, col: 9, offset: 20591},
+																												pos:   position{line: 652, col: 9, offset: 20659},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9729},
@@ -2965,7 +2965,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 652, col: 28, offset: 20610},
+																												pos:        position{line: 652, col: 28, offset: 20678},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -2974,19 +2974,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 658, col: 25, offset: 20791},
+																									pos: position{line: 658, col: 25, offset: 20859},
 																									run: (*parser).callonFileInclusion55,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 25, offset: 20791},
+																										pos: position{line: 658, col: 25, offset: 20859},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 658, col: 25, offset: 20791},
+																												pos:        position{line: 658, col: 25, offset: 20859},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 37, offset: 20803},
+																												pos:   position{line: 658, col: 37, offset: 20871},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9729},
@@ -3018,33 +3018,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 56, offset: 20822},
+																												pos:   position{line: 658, col: 56, offset: 20890},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 658, col: 62, offset: 20828},
+																													pos: position{line: 658, col: 62, offset: 20896},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21123},
+																														pos: position{line: 666, col: 17, offset: 21191},
 																														run: (*parser).callonFileInclusion66,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21123},
+																															pos: position{line: 666, col: 17, offset: 21191},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21123},
+																																	pos:        position{line: 666, col: 17, offset: 21191},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21127},
+																																	pos:   position{line: 666, col: 21, offset: 21195},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 666, col: 28, offset: 21202},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21134},
+																																				pos: position{line: 666, col: 28, offset: 21202},
 																																				run: (*parser).callonFileInclusion71,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21134},
+																																					pos:        position{line: 666, col: 28, offset: 21202},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -3052,12 +3052,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21188},
+																																				pos: position{line: 668, col: 9, offset: 21256},
 																																				run: (*parser).callonFileInclusion73,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21188},
+																																					pos: position{line: 668, col: 9, offset: 21256},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21188},
+																																						pos:        position{line: 668, col: 9, offset: 21256},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -3074,7 +3074,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 78, offset: 20844},
+																												pos:        position{line: 658, col: 78, offset: 20912},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -3083,19 +3083,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 662, col: 25, offset: 20962},
+																									pos: position{line: 662, col: 25, offset: 21030},
 																									run: (*parser).callonFileInclusion77,
 																									expr: &seqExpr{
-																										pos: position{line: 662, col: 25, offset: 20962},
+																										pos: position{line: 662, col: 25, offset: 21030},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 662, col: 25, offset: 20962},
+																												pos:        position{line: 662, col: 25, offset: 21030},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 38, offset: 20975},
+																												pos:   position{line: 662, col: 38, offset: 21043},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9729},
@@ -3127,33 +3127,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 57, offset: 20994},
+																												pos:   position{line: 662, col: 57, offset: 21062},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 662, col: 63, offset: 21000},
+																													pos: position{line: 662, col: 63, offset: 21068},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21123},
+																														pos: position{line: 666, col: 17, offset: 21191},
 																														run: (*parser).callonFileInclusion88,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21123},
+																															pos: position{line: 666, col: 17, offset: 21191},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21123},
+																																	pos:        position{line: 666, col: 17, offset: 21191},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21127},
+																																	pos:   position{line: 666, col: 21, offset: 21195},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 666, col: 28, offset: 21202},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21134},
+																																				pos: position{line: 666, col: 28, offset: 21202},
 																																				run: (*parser).callonFileInclusion93,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21134},
+																																					pos:        position{line: 666, col: 28, offset: 21202},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -3161,12 +3161,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21188},
+																																				pos: position{line: 668, col: 9, offset: 21256},
 																																				run: (*parser).callonFileInclusion95,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21188},
+																																					pos: position{line: 668, col: 9, offset: 21256},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21188},
+																																						pos:        position{line: 668, col: 9, offset: 21256},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -3183,7 +3183,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 662, col: 79, offset: 21016},
+																												pos:        position{line: 662, col: 79, offset: 21084},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -3198,27 +3198,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1198, col: 23, offset: 36977},
+																			pos: position{line: 1198, col: 23, offset: 37045},
 																			run: (*parser).callonFileInclusion99,
 																			expr: &seqExpr{
-																				pos: position{line: 1198, col: 23, offset: 36977},
+																				pos: position{line: 1198, col: 23, offset: 37045},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36945},
+																						pos:        position{line: 1196, col: 32, offset: 37013},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1198, col: 51, offset: 37005},
+																						pos:   position{line: 1198, col: 51, offset: 37073},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1198, col: 56, offset: 37010},
+																							pos: position{line: 1198, col: 56, offset: 37078},
 																							run: (*parser).callonFileInclusion103,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1198, col: 56, offset: 37010},
+																								pos: position{line: 1198, col: 56, offset: 37078},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1198, col: 56, offset: 37010},
+																									pos:        position{line: 1198, col: 56, offset: 37078},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -3228,7 +3228,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36945},
+																						pos:        position{line: 1196, col: 32, offset: 37013},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -3237,10 +3237,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2831, col: 11, offset: 89754},
+																			pos: position{line: 2841, col: 11, offset: 90099},
 																			run: (*parser).callonFileInclusion107,
 																			expr: &litMatcher{
-																				pos:        position{line: 2831, col: 11, offset: 89754},
+																				pos:        position{line: 2841, col: 11, offset: 90099},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3269,10 +3269,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2862, col: 10, offset: 90584},
 								run: (*parser).callonFileInclusion112,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2862, col: 10, offset: 90584},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3281,28 +3281,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2874, col: 8, offset: 90637},
+							pos: position{line: 2884, col: 8, offset: 90982},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2861, col: 12, offset: 90410},
+									pos: position{line: 2871, col: 12, offset: 90755},
 									run: (*parser).callonFileInclusion115,
 									expr: &choiceExpr{
-										pos: position{line: 2861, col: 13, offset: 90411},
+										pos: position{line: 2871, col: 13, offset: 90756},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2861, col: 13, offset: 90411},
+												pos:        position{line: 2871, col: 13, offset: 90756},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 20, offset: 90418},
+												pos:        position{line: 2871, col: 20, offset: 90763},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 29, offset: 90427},
+												pos:        position{line: 2871, col: 29, offset: 90772},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3311,9 +3311,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2871, col: 8, offset: 90587},
+									pos: position{line: 2881, col: 8, offset: 90932},
 									expr: &anyMatcher{
-										line: 2871, col: 9, offset: 90588,
+										line: 2881, col: 9, offset: 90933,
 									},
 								},
 							},
@@ -3359,24 +3359,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2844, col: 12, offset: 90066},
+																				pos: position{line: 2854, col: 12, offset: 90411},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2844, col: 13, offset: 90067},
+																					pos: position{line: 2854, col: 13, offset: 90412},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2844, col: 13, offset: 90067},
+																							pos: position{line: 2854, col: 13, offset: 90412},
 																							expr: &litMatcher{
-																								pos:        position{line: 2844, col: 13, offset: 90067},
+																								pos:        position{line: 2854, col: 13, offset: 90412},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2844, col: 18, offset: 90072},
+																							pos: position{line: 2854, col: 18, offset: 90417},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2844, col: 18, offset: 90072},
+																								pos:        position{line: 2854, col: 18, offset: 90417},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3397,24 +3397,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2844, col: 12, offset: 90066},
+																				pos: position{line: 2854, col: 12, offset: 90411},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2844, col: 13, offset: 90067},
+																					pos: position{line: 2854, col: 13, offset: 90412},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2844, col: 13, offset: 90067},
+																							pos: position{line: 2854, col: 13, offset: 90412},
 																							expr: &litMatcher{
-																								pos:        position{line: 2844, col: 13, offset: 90067},
+																								pos:        position{line: 2854, col: 13, offset: 90412},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2844, col: 18, offset: 90072},
+																							pos: position{line: 2854, col: 18, offset: 90417},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2844, col: 18, offset: 90072},
+																								pos:        position{line: 2854, col: 18, offset: 90417},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3435,24 +3435,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2844, col: 12, offset: 90066},
+																		pos: position{line: 2854, col: 12, offset: 90411},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2844, col: 13, offset: 90067},
+																			pos: position{line: 2854, col: 13, offset: 90412},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2844, col: 13, offset: 90067},
+																					pos: position{line: 2854, col: 13, offset: 90412},
 																					expr: &litMatcher{
-																						pos:        position{line: 2844, col: 13, offset: 90067},
+																						pos:        position{line: 2854, col: 13, offset: 90412},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2844, col: 18, offset: 90072},
+																					pos: position{line: 2854, col: 18, offset: 90417},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2844, col: 18, offset: 90072},
+																						pos:        position{line: 2854, col: 18, offset: 90417},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3501,24 +3501,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2844, col: 12, offset: 90066},
+																									pos: position{line: 2854, col: 12, offset: 90411},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2844, col: 13, offset: 90067},
+																										pos: position{line: 2854, col: 13, offset: 90412},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2844, col: 13, offset: 90067},
+																												pos: position{line: 2854, col: 13, offset: 90412},
 																												expr: &litMatcher{
-																													pos:        position{line: 2844, col: 13, offset: 90067},
+																													pos:        position{line: 2854, col: 13, offset: 90412},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2844, col: 18, offset: 90072},
+																												pos: position{line: 2854, col: 18, offset: 90417},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2844, col: 18, offset: 90072},
+																													pos:        position{line: 2854, col: 18, offset: 90417},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3539,24 +3539,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2844, col: 12, offset: 90066},
+																									pos: position{line: 2854, col: 12, offset: 90411},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2844, col: 13, offset: 90067},
+																										pos: position{line: 2854, col: 13, offset: 90412},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2844, col: 13, offset: 90067},
+																												pos: position{line: 2854, col: 13, offset: 90412},
 																												expr: &litMatcher{
-																													pos:        position{line: 2844, col: 13, offset: 90067},
+																													pos:        position{line: 2854, col: 13, offset: 90412},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2844, col: 18, offset: 90072},
+																												pos: position{line: 2854, col: 18, offset: 90417},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2844, col: 18, offset: 90072},
+																													pos:        position{line: 2854, col: 18, offset: 90417},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3577,24 +3577,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2844, col: 12, offset: 90066},
+																							pos: position{line: 2854, col: 12, offset: 90411},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2844, col: 13, offset: 90067},
+																								pos: position{line: 2854, col: 13, offset: 90412},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2844, col: 13, offset: 90067},
+																										pos: position{line: 2854, col: 13, offset: 90412},
 																										expr: &litMatcher{
-																											pos:        position{line: 2844, col: 13, offset: 90067},
+																											pos:        position{line: 2854, col: 13, offset: 90412},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2844, col: 18, offset: 90072},
+																										pos: position{line: 2854, col: 18, offset: 90417},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2844, col: 18, offset: 90072},
+																											pos:        position{line: 2854, col: 18, offset: 90417},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3627,24 +3627,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2844, col: 12, offset: 90066},
+														pos: position{line: 2854, col: 12, offset: 90411},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2844, col: 13, offset: 90067},
+															pos: position{line: 2854, col: 13, offset: 90412},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2844, col: 13, offset: 90067},
+																	pos: position{line: 2854, col: 13, offset: 90412},
 																	expr: &litMatcher{
-																		pos:        position{line: 2844, col: 13, offset: 90067},
+																		pos:        position{line: 2854, col: 13, offset: 90412},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2844, col: 18, offset: 90072},
+																	pos: position{line: 2854, col: 18, offset: 90417},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2844, col: 18, offset: 90072},
+																		pos:        position{line: 2854, col: 18, offset: 90417},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3665,24 +3665,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2844, col: 12, offset: 90066},
+														pos: position{line: 2854, col: 12, offset: 90411},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2844, col: 13, offset: 90067},
+															pos: position{line: 2854, col: 13, offset: 90412},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2844, col: 13, offset: 90067},
+																	pos: position{line: 2854, col: 13, offset: 90412},
 																	expr: &litMatcher{
-																		pos:        position{line: 2844, col: 13, offset: 90067},
+																		pos:        position{line: 2854, col: 13, offset: 90412},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2844, col: 18, offset: 90072},
+																	pos: position{line: 2854, col: 18, offset: 90417},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2844, col: 18, offset: 90072},
+																		pos:        position{line: 2854, col: 18, offset: 90417},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3703,24 +3703,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2844, col: 12, offset: 90066},
+												pos: position{line: 2854, col: 12, offset: 90411},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2844, col: 13, offset: 90067},
+													pos: position{line: 2854, col: 13, offset: 90412},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2844, col: 13, offset: 90067},
+															pos: position{line: 2854, col: 13, offset: 90412},
 															expr: &litMatcher{
-																pos:        position{line: 2844, col: 13, offset: 90067},
+																pos:        position{line: 2854, col: 13, offset: 90412},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2844, col: 18, offset: 90072},
+															pos: position{line: 2854, col: 18, offset: 90417},
 															expr: &charClassMatcher{
-																pos:        position{line: 2844, col: 18, offset: 90072},
+																pos:        position{line: 2854, col: 18, offset: 90417},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3736,9 +3736,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2871, col: 8, offset: 90587},
+							pos: position{line: 2881, col: 8, offset: 90932},
 							expr: &anyMatcher{
-								line: 2871, col: 9, offset: 90588,
+								line: 2881, col: 9, offset: 90933,
 							},
 						},
 					},
@@ -4063,9 +4063,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2871, col: 8, offset: 90587},
+							pos: position{line: 2881, col: 8, offset: 90932},
 							expr: &anyMatcher{
-								line: 2871, col: 9, offset: 90588,
+								line: 2881, col: 9, offset: 90933,
 							},
 						},
 					},
@@ -4189,28 +4189,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2874, col: 8, offset: 90637},
+							pos: position{line: 2884, col: 8, offset: 90982},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2861, col: 12, offset: 90410},
+									pos: position{line: 2871, col: 12, offset: 90755},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2861, col: 13, offset: 90411},
+										pos: position{line: 2871, col: 13, offset: 90756},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2861, col: 13, offset: 90411},
+												pos:        position{line: 2871, col: 13, offset: 90756},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 20, offset: 90418},
+												pos:        position{line: 2871, col: 20, offset: 90763},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 29, offset: 90427},
+												pos:        position{line: 2871, col: 29, offset: 90772},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4219,9 +4219,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2871, col: 8, offset: 90587},
+									pos: position{line: 2881, col: 8, offset: 90932},
 									expr: &anyMatcher{
-										line: 2871, col: 9, offset: 90588,
+										line: 2881, col: 9, offset: 90933,
 									},
 								},
 							},
@@ -4240,9 +4240,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2869, col: 11, offset: 90573},
+							pos: position{line: 2879, col: 11, offset: 90918},
 							expr: &anyMatcher{
-								line: 2869, col: 13, offset: 90575,
+								line: 2879, col: 13, offset: 90920,
 							},
 						},
 						&labeledExpr{
@@ -4337,10 +4337,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 360, col: 49, offset: 10940},
 														expr: &actionExpr{
-															pos: position{line: 2852, col: 10, offset: 90239},
+															pos: position{line: 2862, col: 10, offset: 90584},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2852, col: 10, offset: 90239},
+																pos:        position{line: 2862, col: 10, offset: 90584},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4349,28 +4349,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2874, col: 8, offset: 90637},
+														pos: position{line: 2884, col: 8, offset: 90982},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
+																pos: position{line: 2871, col: 12, offset: 90755},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2871, col: 13, offset: 90756},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2871, col: 13, offset: 90756},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2871, col: 20, offset: 90763},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2871, col: 29, offset: 90772},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4379,9 +4379,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2881, col: 8, offset: 90932},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2881, col: 9, offset: 90933,
 																},
 															},
 														},
@@ -4442,10 +4442,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 39, offset: 11061},
 														expr: &actionExpr{
-															pos: position{line: 2852, col: 10, offset: 90239},
+															pos: position{line: 2862, col: 10, offset: 90584},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2852, col: 10, offset: 90239},
+																pos:        position{line: 2862, col: 10, offset: 90584},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4454,28 +4454,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2874, col: 8, offset: 90637},
+														pos: position{line: 2884, col: 8, offset: 90982},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
+																pos: position{line: 2871, col: 12, offset: 90755},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2871, col: 13, offset: 90756},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2871, col: 13, offset: 90756},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2871, col: 20, offset: 90763},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2871, col: 29, offset: 90772},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4484,9 +4484,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2881, col: 8, offset: 90932},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2881, col: 9, offset: 90933,
 																},
 															},
 														},
@@ -4495,24 +4495,24 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 677, col: 14, offset: 21489},
+											pos: position{line: 677, col: 14, offset: 21557},
 											run: (*parser).callonDocumentFragment58,
 											expr: &seqExpr{
-												pos: position{line: 677, col: 14, offset: 21489},
+												pos: position{line: 677, col: 14, offset: 21557},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2869, col: 11, offset: 90573},
+														pos: position{line: 2879, col: 11, offset: 90918},
 														expr: &anyMatcher{
-															line: 2869, col: 13, offset: 90575,
+															line: 2879, col: 13, offset: 90920,
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 677, col: 21, offset: 21496},
+														pos: position{line: 677, col: 21, offset: 21564},
 														expr: &actionExpr{
-															pos: position{line: 2852, col: 10, offset: 90239},
+															pos: position{line: 2862, col: 10, offset: 90584},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2852, col: 10, offset: 90239},
+																pos:        position{line: 2862, col: 10, offset: 90584},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4521,28 +4521,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2874, col: 8, offset: 90637},
+														pos: position{line: 2884, col: 8, offset: 90982},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
+																pos: position{line: 2871, col: 12, offset: 90755},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2871, col: 13, offset: 90756},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2871, col: 13, offset: 90756},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2871, col: 20, offset: 90763},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2871, col: 29, offset: 90772},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4551,9 +4551,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2881, col: 8, offset: 90932},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2881, col: 9, offset: 90933,
 																},
 															},
 														},
@@ -4570,36 +4570,36 @@ var g = &grammar{
 											name: "Section",
 										},
 										&actionExpr{
-											pos: position{line: 820, col: 5, offset: 26329},
+											pos: position{line: 820, col: 5, offset: 26397},
 											run: (*parser).callonDocumentFragment75,
 											expr: &seqExpr{
-												pos: position{line: 820, col: 5, offset: 26329},
+												pos: position{line: 820, col: 5, offset: 26397},
 												exprs: []interface{}{
 													&actionExpr{
-														pos: position{line: 740, col: 5, offset: 23584},
+														pos: position{line: 740, col: 5, offset: 23652},
 														run: (*parser).callonDocumentFragment77,
 														expr: &seqExpr{
-															pos: position{line: 740, col: 5, offset: 23584},
+															pos: position{line: 740, col: 5, offset: 23652},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 740, col: 5, offset: 23584},
+																	pos:   position{line: 740, col: 5, offset: 23652},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 740, col: 16, offset: 23595},
+																		pos: position{line: 740, col: 16, offset: 23663},
 																		run: (*parser).callonDocumentFragment80,
 																		expr: &seqExpr{
-																			pos: position{line: 740, col: 16, offset: 23595},
+																			pos: position{line: 740, col: 16, offset: 23663},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 740, col: 16, offset: 23595},
+																					pos:        position{line: 740, col: 16, offset: 23663},
 																					val:        "////",
 																					ignoreCase: false,
 																					want:       "\"////\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 740, col: 23, offset: 23602},
+																					pos: position{line: 740, col: 23, offset: 23670},
 																					expr: &litMatcher{
-																						pos:        position{line: 740, col: 23, offset: 23602},
+																						pos:        position{line: 740, col: 23, offset: 23670},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
@@ -4610,12 +4610,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 742, col: 8, offset: 23686},
+																	pos: position{line: 742, col: 8, offset: 23754},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2862, col: 10, offset: 90584},
 																		run: (*parser).callonDocumentFragment86,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2862, col: 10, offset: 90584},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -4624,28 +4624,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2884, col: 8, offset: 90982},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2871, col: 12, offset: 90755},
 																			run: (*parser).callonDocumentFragment89,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2871, col: 13, offset: 90756},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2871, col: 13, offset: 90756},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2871, col: 20, offset: 90763},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2871, col: 29, offset: 90772},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -4654,9 +4654,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2881, col: 8, offset: 90932},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2881, col: 9, offset: 90933,
 																			},
 																		},
 																	},
@@ -4665,46 +4665,46 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 821, col: 5, offset: 26360},
+														pos:   position{line: 821, col: 5, offset: 26428},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 831, col: 5, offset: 26646},
+															pos: position{line: 831, col: 5, offset: 26714},
 															expr: &actionExpr{
-																pos: position{line: 831, col: 6, offset: 26647},
+																pos: position{line: 831, col: 6, offset: 26715},
 																run: (*parser).callonDocumentFragment98,
 																expr: &seqExpr{
-																	pos: position{line: 831, col: 6, offset: 26647},
+																	pos: position{line: 831, col: 6, offset: 26715},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 831, col: 6, offset: 26647},
+																			pos: position{line: 831, col: 6, offset: 26715},
 																			expr: &choiceExpr{
-																				pos: position{line: 828, col: 29, offset: 26589},
+																				pos: position{line: 828, col: 29, offset: 26657},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 740, col: 5, offset: 23584},
+																						pos: position{line: 740, col: 5, offset: 23652},
 																						run: (*parser).callonDocumentFragment102,
 																						expr: &seqExpr{
-																							pos: position{line: 740, col: 5, offset: 23584},
+																							pos: position{line: 740, col: 5, offset: 23652},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 740, col: 5, offset: 23584},
+																									pos:   position{line: 740, col: 5, offset: 23652},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 740, col: 16, offset: 23595},
+																										pos: position{line: 740, col: 16, offset: 23663},
 																										run: (*parser).callonDocumentFragment105,
 																										expr: &seqExpr{
-																											pos: position{line: 740, col: 16, offset: 23595},
+																											pos: position{line: 740, col: 16, offset: 23663},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 740, col: 16, offset: 23595},
+																													pos:        position{line: 740, col: 16, offset: 23663},
 																													val:        "////",
 																													ignoreCase: false,
 																													want:       "\"////\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 740, col: 23, offset: 23602},
+																													pos: position{line: 740, col: 23, offset: 23670},
 																													expr: &litMatcher{
-																														pos:        position{line: 740, col: 23, offset: 23602},
+																														pos:        position{line: 740, col: 23, offset: 23670},
 																														val:        "/",
 																														ignoreCase: false,
 																														want:       "\"/\"",
@@ -4715,12 +4715,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 742, col: 8, offset: 23686},
+																									pos: position{line: 742, col: 8, offset: 23754},
 																									expr: &actionExpr{
-																										pos: position{line: 2852, col: 10, offset: 90239},
+																										pos: position{line: 2862, col: 10, offset: 90584},
 																										run: (*parser).callonDocumentFragment111,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2852, col: 10, offset: 90239},
+																											pos:        position{line: 2862, col: 10, offset: 90584},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -4729,28 +4729,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2874, col: 8, offset: 90637},
+																									pos: position{line: 2884, col: 8, offset: 90982},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2861, col: 12, offset: 90410},
+																											pos: position{line: 2871, col: 12, offset: 90755},
 																											run: (*parser).callonDocumentFragment114,
 																											expr: &choiceExpr{
-																												pos: position{line: 2861, col: 13, offset: 90411},
+																												pos: position{line: 2871, col: 13, offset: 90756},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 13, offset: 90411},
+																														pos:        position{line: 2871, col: 13, offset: 90756},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 20, offset: 90418},
+																														pos:        position{line: 2871, col: 20, offset: 90763},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 29, offset: 90427},
+																														pos:        position{line: 2871, col: 29, offset: 90772},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -4759,9 +4759,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2871, col: 8, offset: 90587},
+																											pos: position{line: 2881, col: 8, offset: 90932},
 																											expr: &anyMatcher{
-																												line: 2871, col: 9, offset: 90588,
+																												line: 2881, col: 9, offset: 90933,
 																											},
 																										},
 																									},
@@ -4770,39 +4770,39 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2881, col: 8, offset: 90932},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2881, col: 9, offset: 90933,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 832, col: 5, offset: 26677},
+																			pos:   position{line: 832, col: 5, offset: 26745},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26093},
+																				pos: position{line: 811, col: 5, offset: 26161},
 																				run: (*parser).callonDocumentFragment124,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26093},
+																					pos: position{line: 811, col: 5, offset: 26161},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2879, col: 11, offset: 90918},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2879, col: 13, offset: 90920,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26168},
+																							pos:   position{line: 812, col: 5, offset: 26236},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2808, col: 13, offset: 89110},
 																								run: (*parser).callonDocumentFragment129,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2798, col: 13, offset: 88765},
+																									pos: position{line: 2808, col: 13, offset: 89110},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2798, col: 13, offset: 88765},
+																										pos:        position{line: 2808, col: 13, offset: 89110},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4812,28 +4812,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2884, col: 8, offset: 90982},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2871, col: 12, offset: 90755},
 																									run: (*parser).callonDocumentFragment133,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2871, col: 13, offset: 90756},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2871, col: 13, offset: 90756},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2871, col: 20, offset: 90763},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2871, col: 29, offset: 90772},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4842,9 +4842,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2881, col: 8, offset: 90932},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2881, col: 9, offset: 90933,
 																									},
 																								},
 																							},
@@ -4859,35 +4859,35 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 822, col: 5, offset: 26394},
+														pos: position{line: 822, col: 5, offset: 26462},
 														expr: &choiceExpr{
-															pos: position{line: 828, col: 29, offset: 26589},
+															pos: position{line: 828, col: 29, offset: 26657},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 740, col: 5, offset: 23584},
+																	pos: position{line: 740, col: 5, offset: 23652},
 																	run: (*parser).callonDocumentFragment142,
 																	expr: &seqExpr{
-																		pos: position{line: 740, col: 5, offset: 23584},
+																		pos: position{line: 740, col: 5, offset: 23652},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 740, col: 5, offset: 23584},
+																				pos:   position{line: 740, col: 5, offset: 23652},
 																				label: "delimiter",
 																				expr: &actionExpr{
-																					pos: position{line: 740, col: 16, offset: 23595},
+																					pos: position{line: 740, col: 16, offset: 23663},
 																					run: (*parser).callonDocumentFragment145,
 																					expr: &seqExpr{
-																						pos: position{line: 740, col: 16, offset: 23595},
+																						pos: position{line: 740, col: 16, offset: 23663},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 740, col: 16, offset: 23595},
+																								pos:        position{line: 740, col: 16, offset: 23663},
 																								val:        "////",
 																								ignoreCase: false,
 																								want:       "\"////\"",
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 740, col: 23, offset: 23602},
+																								pos: position{line: 740, col: 23, offset: 23670},
 																								expr: &litMatcher{
-																									pos:        position{line: 740, col: 23, offset: 23602},
+																									pos:        position{line: 740, col: 23, offset: 23670},
 																									val:        "/",
 																									ignoreCase: false,
 																									want:       "\"/\"",
@@ -4898,12 +4898,12 @@ var g = &grammar{
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 742, col: 8, offset: 23686},
+																				pos: position{line: 742, col: 8, offset: 23754},
 																				expr: &actionExpr{
-																					pos: position{line: 2852, col: 10, offset: 90239},
+																					pos: position{line: 2862, col: 10, offset: 90584},
 																					run: (*parser).callonDocumentFragment151,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2852, col: 10, offset: 90239},
+																						pos:        position{line: 2862, col: 10, offset: 90584},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -4912,28 +4912,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2874, col: 8, offset: 90637},
+																				pos: position{line: 2884, col: 8, offset: 90982},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2861, col: 12, offset: 90410},
+																						pos: position{line: 2871, col: 12, offset: 90755},
 																						run: (*parser).callonDocumentFragment154,
 																						expr: &choiceExpr{
-																							pos: position{line: 2861, col: 13, offset: 90411},
+																							pos: position{line: 2871, col: 13, offset: 90756},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 13, offset: 90411},
+																									pos:        position{line: 2871, col: 13, offset: 90756},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 20, offset: 90418},
+																									pos:        position{line: 2871, col: 20, offset: 90763},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 29, offset: 90427},
+																									pos:        position{line: 2871, col: 29, offset: 90772},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -4942,9 +4942,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2881, col: 8, offset: 90932},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2881, col: 9, offset: 90933,
 																						},
 																					},
 																				},
@@ -4953,9 +4953,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2881, col: 8, offset: 90932},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2881, col: 9, offset: 90933,
 																	},
 																},
 															},
@@ -4965,39 +4965,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 840, col: 5, offset: 26830},
+											pos: position{line: 840, col: 5, offset: 26898},
 											run: (*parser).callonDocumentFragment163,
 											expr: &seqExpr{
-												pos: position{line: 840, col: 5, offset: 26830},
+												pos: position{line: 840, col: 5, offset: 26898},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 840, col: 5, offset: 26830},
+														pos:   position{line: 840, col: 5, offset: 26898},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 747, col: 5, offset: 23832},
+															pos: position{line: 747, col: 5, offset: 23900},
 															run: (*parser).callonDocumentFragment166,
 															expr: &seqExpr{
-																pos: position{line: 747, col: 5, offset: 23832},
+																pos: position{line: 747, col: 5, offset: 23900},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 747, col: 5, offset: 23832},
+																		pos:   position{line: 747, col: 5, offset: 23900},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 747, col: 16, offset: 23843},
+																			pos: position{line: 747, col: 16, offset: 23911},
 																			run: (*parser).callonDocumentFragment169,
 																			expr: &seqExpr{
-																				pos: position{line: 747, col: 16, offset: 23843},
+																				pos: position{line: 747, col: 16, offset: 23911},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 747, col: 16, offset: 23843},
+																						pos:        position{line: 747, col: 16, offset: 23911},
 																						val:        "====",
 																						ignoreCase: false,
 																						want:       "\"====\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 747, col: 23, offset: 23850},
+																						pos: position{line: 747, col: 23, offset: 23918},
 																						expr: &litMatcher{
-																							pos:        position{line: 747, col: 23, offset: 23850},
+																							pos:        position{line: 747, col: 23, offset: 23918},
 																							val:        "=",
 																							ignoreCase: false,
 																							want:       "\"=\"",
@@ -5008,12 +5008,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 749, col: 8, offset: 23934},
+																		pos: position{line: 749, col: 8, offset: 24002},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
+																			pos: position{line: 2862, col: 10, offset: 90584},
 																			run: (*parser).callonDocumentFragment175,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2862, col: 10, offset: 90584},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5022,28 +5022,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2884, col: 8, offset: 90982},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2871, col: 12, offset: 90755},
 																				run: (*parser).callonDocumentFragment178,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2871, col: 13, offset: 90756},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2871, col: 13, offset: 90756},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2871, col: 20, offset: 90763},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2871, col: 29, offset: 90772},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5052,9 +5052,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2881, col: 8, offset: 90932},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2881, col: 9, offset: 90933,
 																				},
 																			},
 																		},
@@ -5064,56 +5064,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 841, col: 5, offset: 26869},
+														pos: position{line: 841, col: 5, offset: 26937},
 														run: (*parser).callonDocumentFragment185,
 													},
 													&labeledExpr{
-														pos:   position{line: 844, col: 5, offset: 26961},
+														pos:   position{line: 844, col: 5, offset: 27029},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 859, col: 4, offset: 27358},
+															pos: position{line: 859, col: 4, offset: 27426},
 															expr: &actionExpr{
-																pos: position{line: 859, col: 5, offset: 27359},
+																pos: position{line: 859, col: 5, offset: 27427},
 																run: (*parser).callonDocumentFragment188,
 																expr: &seqExpr{
-																	pos: position{line: 859, col: 5, offset: 27359},
+																	pos: position{line: 859, col: 5, offset: 27427},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 859, col: 5, offset: 27359},
+																			pos: position{line: 859, col: 5, offset: 27427},
 																			expr: &choiceExpr{
-																				pos: position{line: 852, col: 5, offset: 27201},
+																				pos: position{line: 852, col: 5, offset: 27269},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 852, col: 5, offset: 27201},
+																						pos: position{line: 852, col: 5, offset: 27269},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 852, col: 5, offset: 27201},
+																								pos:   position{line: 852, col: 5, offset: 27269},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 747, col: 5, offset: 23832},
+																									pos: position{line: 747, col: 5, offset: 23900},
 																									run: (*parser).callonDocumentFragment194,
 																									expr: &seqExpr{
-																										pos: position{line: 747, col: 5, offset: 23832},
+																										pos: position{line: 747, col: 5, offset: 23900},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 747, col: 5, offset: 23832},
+																												pos:   position{line: 747, col: 5, offset: 23900},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 747, col: 16, offset: 23843},
+																													pos: position{line: 747, col: 16, offset: 23911},
 																													run: (*parser).callonDocumentFragment197,
 																													expr: &seqExpr{
-																														pos: position{line: 747, col: 16, offset: 23843},
+																														pos: position{line: 747, col: 16, offset: 23911},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 747, col: 16, offset: 23843},
+																																pos:        position{line: 747, col: 16, offset: 23911},
 																																val:        "====",
 																																ignoreCase: false,
 																																want:       "\"====\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 747, col: 23, offset: 23850},
+																																pos: position{line: 747, col: 23, offset: 23918},
 																																expr: &litMatcher{
-																																	pos:        position{line: 747, col: 23, offset: 23850},
+																																	pos:        position{line: 747, col: 23, offset: 23918},
 																																	val:        "=",
 																																	ignoreCase: false,
 																																	want:       "\"=\"",
@@ -5124,12 +5124,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 749, col: 8, offset: 23934},
+																												pos: position{line: 749, col: 8, offset: 24002},
 																												expr: &actionExpr{
-																													pos: position{line: 2852, col: 10, offset: 90239},
+																													pos: position{line: 2862, col: 10, offset: 90584},
 																													run: (*parser).callonDocumentFragment203,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2852, col: 10, offset: 90239},
+																														pos:        position{line: 2862, col: 10, offset: 90584},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5138,28 +5138,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2874, col: 8, offset: 90637},
+																												pos: position{line: 2884, col: 8, offset: 90982},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2861, col: 12, offset: 90410},
+																														pos: position{line: 2871, col: 12, offset: 90755},
 																														run: (*parser).callonDocumentFragment206,
 																														expr: &choiceExpr{
-																															pos: position{line: 2861, col: 13, offset: 90411},
+																															pos: position{line: 2871, col: 13, offset: 90756},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 13, offset: 90411},
+																																	pos:        position{line: 2871, col: 13, offset: 90756},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 20, offset: 90418},
+																																	pos:        position{line: 2871, col: 20, offset: 90763},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 29, offset: 90427},
+																																	pos:        position{line: 2871, col: 29, offset: 90772},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5168,9 +5168,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2871, col: 8, offset: 90587},
+																														pos: position{line: 2881, col: 8, offset: 90932},
 																														expr: &anyMatcher{
-																															line: 2871, col: 9, offset: 90588,
+																															line: 2881, col: 9, offset: 90933,
 																														},
 																													},
 																												},
@@ -5180,45 +5180,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 853, col: 5, offset: 27232},
+																								pos: position{line: 853, col: 5, offset: 27300},
 																								run: (*parser).callonDocumentFragment213,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2881, col: 8, offset: 90932},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2881, col: 9, offset: 90933,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 860, col: 5, offset: 27389},
+																			pos:   position{line: 860, col: 5, offset: 27457},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26093},
+																				pos: position{line: 811, col: 5, offset: 26161},
 																				run: (*parser).callonDocumentFragment217,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26093},
+																					pos: position{line: 811, col: 5, offset: 26161},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2879, col: 11, offset: 90918},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2879, col: 13, offset: 90920,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26168},
+																							pos:   position{line: 812, col: 5, offset: 26236},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2808, col: 13, offset: 89110},
 																								run: (*parser).callonDocumentFragment222,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2798, col: 13, offset: 88765},
+																									pos: position{line: 2808, col: 13, offset: 89110},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2798, col: 13, offset: 88765},
+																										pos:        position{line: 2808, col: 13, offset: 89110},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5228,28 +5228,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2884, col: 8, offset: 90982},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2871, col: 12, offset: 90755},
 																									run: (*parser).callonDocumentFragment226,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2871, col: 13, offset: 90756},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2871, col: 13, offset: 90756},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2871, col: 20, offset: 90763},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2871, col: 29, offset: 90772},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5258,9 +5258,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2881, col: 8, offset: 90932},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2881, col: 9, offset: 90933,
 																									},
 																								},
 																							},
@@ -5275,44 +5275,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 845, col: 5, offset: 26995},
+														pos:   position{line: 845, col: 5, offset: 27063},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 845, col: 9, offset: 26999},
+															pos: position{line: 845, col: 9, offset: 27067},
 															expr: &choiceExpr{
-																pos: position{line: 852, col: 5, offset: 27201},
+																pos: position{line: 852, col: 5, offset: 27269},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 852, col: 5, offset: 27201},
+																		pos: position{line: 852, col: 5, offset: 27269},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 852, col: 5, offset: 27201},
+																				pos:   position{line: 852, col: 5, offset: 27269},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 747, col: 5, offset: 23832},
+																					pos: position{line: 747, col: 5, offset: 23900},
 																					run: (*parser).callonDocumentFragment238,
 																					expr: &seqExpr{
-																						pos: position{line: 747, col: 5, offset: 23832},
+																						pos: position{line: 747, col: 5, offset: 23900},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 747, col: 5, offset: 23832},
+																								pos:   position{line: 747, col: 5, offset: 23900},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 747, col: 16, offset: 23843},
+																									pos: position{line: 747, col: 16, offset: 23911},
 																									run: (*parser).callonDocumentFragment241,
 																									expr: &seqExpr{
-																										pos: position{line: 747, col: 16, offset: 23843},
+																										pos: position{line: 747, col: 16, offset: 23911},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 747, col: 16, offset: 23843},
+																												pos:        position{line: 747, col: 16, offset: 23911},
 																												val:        "====",
 																												ignoreCase: false,
 																												want:       "\"====\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 747, col: 23, offset: 23850},
+																												pos: position{line: 747, col: 23, offset: 23918},
 																												expr: &litMatcher{
-																													pos:        position{line: 747, col: 23, offset: 23850},
+																													pos:        position{line: 747, col: 23, offset: 23918},
 																													val:        "=",
 																													ignoreCase: false,
 																													want:       "\"=\"",
@@ -5323,12 +5323,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 749, col: 8, offset: 23934},
+																								pos: position{line: 749, col: 8, offset: 24002},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2862, col: 10, offset: 90584},
 																									run: (*parser).callonDocumentFragment247,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2862, col: 10, offset: 90584},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5337,28 +5337,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
+																								pos: position{line: 2884, col: 8, offset: 90982},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
+																										pos: position{line: 2871, col: 12, offset: 90755},
 																										run: (*parser).callonDocumentFragment250,
 																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																											pos: position{line: 2871, col: 13, offset: 90756},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
+																													pos:        position{line: 2871, col: 13, offset: 90756},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
+																													pos:        position{line: 2871, col: 20, offset: 90763},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
+																													pos:        position{line: 2871, col: 29, offset: 90772},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5367,9 +5367,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
+																										pos: position{line: 2881, col: 8, offset: 90932},
 																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																											line: 2881, col: 9, offset: 90933,
 																										},
 																									},
 																								},
@@ -5379,15 +5379,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 853, col: 5, offset: 27232},
+																				pos: position{line: 853, col: 5, offset: 27300},
 																				run: (*parser).callonDocumentFragment257,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2881, col: 8, offset: 90932},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2881, col: 9, offset: 90933,
 																		},
 																	},
 																},
@@ -5398,36 +5398,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 952, col: 5, offset: 29681},
+											pos: position{line: 952, col: 5, offset: 29749},
 											run: (*parser).callonDocumentFragment260,
 											expr: &seqExpr{
-												pos: position{line: 952, col: 5, offset: 29681},
+												pos: position{line: 952, col: 5, offset: 29749},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 952, col: 5, offset: 29681},
+														pos:   position{line: 952, col: 5, offset: 29749},
 														label: "delimiter",
 														expr: &actionExpr{
-															pos: position{line: 760, col: 26, offset: 24320},
+															pos: position{line: 760, col: 26, offset: 24388},
 															run: (*parser).callonDocumentFragment263,
 															expr: &seqExpr{
-																pos: position{line: 760, col: 26, offset: 24320},
+																pos: position{line: 760, col: 26, offset: 24388},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 760, col: 26, offset: 24320},
+																		pos:        position{line: 760, col: 26, offset: 24388},
 																		val:        "```",
 																		ignoreCase: false,
 																		want:       "\"```\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 760, col: 32, offset: 24326},
+																		pos:   position{line: 760, col: 32, offset: 24394},
 																		label: "language",
 																		expr: &actionExpr{
-																			pos: position{line: 764, col: 13, offset: 24456},
+																			pos: position{line: 764, col: 13, offset: 24524},
 																			run: (*parser).callonDocumentFragment267,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 764, col: 14, offset: 24457},
+																				pos: position{line: 764, col: 14, offset: 24525},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 764, col: 14, offset: 24457},
+																					pos:        position{line: 764, col: 14, offset: 24525},
 																					val:        "[^\\r\\n`\\t ]",
 																					chars:      []rune{'\r', '\n', '`', '\t', ' '},
 																					ignoreCase: false,
@@ -5437,12 +5437,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 760, col: 52, offset: 24346},
+																		pos: position{line: 760, col: 52, offset: 24414},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
+																			pos: position{line: 2862, col: 10, offset: 90584},
 																			run: (*parser).callonDocumentFragment271,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2862, col: 10, offset: 90584},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5451,28 +5451,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2884, col: 8, offset: 90982},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2871, col: 12, offset: 90755},
 																				run: (*parser).callonDocumentFragment274,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2871, col: 13, offset: 90756},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2871, col: 13, offset: 90756},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2871, col: 20, offset: 90763},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2871, col: 29, offset: 90772},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5481,9 +5481,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2881, col: 8, offset: 90932},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2881, col: 9, offset: 90933,
 																				},
 																			},
 																		},
@@ -5493,34 +5493,34 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 953, col: 5, offset: 29727},
+														pos:   position{line: 953, col: 5, offset: 29795},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 966, col: 5, offset: 30200},
+															pos: position{line: 966, col: 5, offset: 30268},
 															expr: &actionExpr{
-																pos: position{line: 966, col: 6, offset: 30201},
+																pos: position{line: 966, col: 6, offset: 30269},
 																run: (*parser).callonDocumentFragment283,
 																expr: &seqExpr{
-																	pos: position{line: 966, col: 6, offset: 30201},
+																	pos: position{line: 966, col: 6, offset: 30269},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 966, col: 6, offset: 30201},
+																			pos: position{line: 966, col: 6, offset: 30269},
 																			expr: &seqExpr{
-																				pos: position{line: 963, col: 34, offset: 30148},
+																				pos: position{line: 963, col: 34, offset: 30216},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 963, col: 34, offset: 30148},
+																						pos:        position{line: 963, col: 34, offset: 30216},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 963, col: 40, offset: 30154},
+																						pos: position{line: 963, col: 40, offset: 30222},
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2862, col: 10, offset: 90584},
 																							run: (*parser).callonDocumentFragment289,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2862, col: 10, offset: 90584},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5529,28 +5529,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2884, col: 8, offset: 90982},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2871, col: 12, offset: 90755},
 																								run: (*parser).callonDocumentFragment292,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2871, col: 13, offset: 90756},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2871, col: 13, offset: 90756},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2871, col: 20, offset: 90763},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2871, col: 29, offset: 90772},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5559,9 +5559,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2881, col: 8, offset: 90932},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2881, col: 9, offset: 90933,
 																								},
 																							},
 																						},
@@ -5570,30 +5570,30 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 967, col: 5, offset: 30236},
+																			pos:   position{line: 967, col: 5, offset: 30304},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26093},
+																				pos: position{line: 811, col: 5, offset: 26161},
 																				run: (*parser).callonDocumentFragment300,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26093},
+																					pos: position{line: 811, col: 5, offset: 26161},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2879, col: 11, offset: 90918},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2879, col: 13, offset: 90920,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26168},
+																							pos:   position{line: 812, col: 5, offset: 26236},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2808, col: 13, offset: 89110},
 																								run: (*parser).callonDocumentFragment305,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2798, col: 13, offset: 88765},
+																									pos: position{line: 2808, col: 13, offset: 89110},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2798, col: 13, offset: 88765},
+																										pos:        position{line: 2808, col: 13, offset: 89110},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5603,28 +5603,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2884, col: 8, offset: 90982},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2871, col: 12, offset: 90755},
 																									run: (*parser).callonDocumentFragment309,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2871, col: 13, offset: 90756},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2871, col: 13, offset: 90756},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2871, col: 20, offset: 90763},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2871, col: 29, offset: 90772},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5633,9 +5633,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2881, col: 8, offset: 90932},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2881, col: 9, offset: 90933,
 																									},
 																								},
 																							},
@@ -5650,23 +5650,23 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 954, col: 5, offset: 29766},
+														pos: position{line: 954, col: 5, offset: 29834},
 														expr: &seqExpr{
-															pos: position{line: 963, col: 34, offset: 30148},
+															pos: position{line: 963, col: 34, offset: 30216},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 963, col: 34, offset: 30148},
+																	pos:        position{line: 963, col: 34, offset: 30216},
 																	val:        "```",
 																	ignoreCase: false,
 																	want:       "\"```\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 963, col: 40, offset: 30154},
+																	pos: position{line: 963, col: 40, offset: 30222},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2862, col: 10, offset: 90584},
 																		run: (*parser).callonDocumentFragment320,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2862, col: 10, offset: 90584},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5675,28 +5675,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2884, col: 8, offset: 90982},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2871, col: 12, offset: 90755},
 																			run: (*parser).callonDocumentFragment323,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2871, col: 13, offset: 90756},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2871, col: 13, offset: 90756},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2871, col: 20, offset: 90763},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2871, col: 29, offset: 90772},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5705,9 +5705,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2881, col: 8, offset: 90932},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2881, col: 9, offset: 90933,
 																			},
 																		},
 																	},
@@ -5719,39 +5719,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 868, col: 5, offset: 27542},
+											pos: position{line: 868, col: 5, offset: 27610},
 											run: (*parser).callonDocumentFragment330,
 											expr: &seqExpr{
-												pos: position{line: 868, col: 5, offset: 27542},
+												pos: position{line: 868, col: 5, offset: 27610},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 868, col: 5, offset: 27542},
+														pos:   position{line: 868, col: 5, offset: 27610},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 754, col: 5, offset: 24079},
+															pos: position{line: 754, col: 5, offset: 24147},
 															run: (*parser).callonDocumentFragment333,
 															expr: &seqExpr{
-																pos: position{line: 754, col: 5, offset: 24079},
+																pos: position{line: 754, col: 5, offset: 24147},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 754, col: 5, offset: 24079},
+																		pos:   position{line: 754, col: 5, offset: 24147},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 754, col: 16, offset: 24090},
+																			pos: position{line: 754, col: 16, offset: 24158},
 																			run: (*parser).callonDocumentFragment336,
 																			expr: &seqExpr{
-																				pos: position{line: 754, col: 16, offset: 24090},
+																				pos: position{line: 754, col: 16, offset: 24158},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 754, col: 16, offset: 24090},
+																						pos:        position{line: 754, col: 16, offset: 24158},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 754, col: 22, offset: 24096},
+																						pos: position{line: 754, col: 22, offset: 24164},
 																						expr: &litMatcher{
-																							pos:        position{line: 754, col: 22, offset: 24096},
+																							pos:        position{line: 754, col: 22, offset: 24164},
 																							val:        "`",
 																							ignoreCase: false,
 																							want:       "\"`\"",
@@ -5762,12 +5762,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 756, col: 8, offset: 24180},
+																		pos: position{line: 756, col: 8, offset: 24248},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
+																			pos: position{line: 2862, col: 10, offset: 90584},
 																			run: (*parser).callonDocumentFragment342,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2862, col: 10, offset: 90584},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5776,28 +5776,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2884, col: 8, offset: 90982},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2871, col: 12, offset: 90755},
 																				run: (*parser).callonDocumentFragment345,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2871, col: 13, offset: 90756},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2871, col: 13, offset: 90756},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2871, col: 20, offset: 90763},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2871, col: 29, offset: 90772},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5806,9 +5806,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2881, col: 8, offset: 90932},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2881, col: 9, offset: 90933,
 																				},
 																			},
 																		},
@@ -5818,56 +5818,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 869, col: 5, offset: 27580},
+														pos: position{line: 869, col: 5, offset: 27648},
 														run: (*parser).callonDocumentFragment352,
 													},
 													&labeledExpr{
-														pos:   position{line: 872, col: 5, offset: 27672},
+														pos:   position{line: 872, col: 5, offset: 27740},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 887, col: 5, offset: 28062},
+															pos: position{line: 887, col: 5, offset: 28130},
 															expr: &actionExpr{
-																pos: position{line: 887, col: 6, offset: 28063},
+																pos: position{line: 887, col: 6, offset: 28131},
 																run: (*parser).callonDocumentFragment355,
 																expr: &seqExpr{
-																	pos: position{line: 887, col: 6, offset: 28063},
+																	pos: position{line: 887, col: 6, offset: 28131},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 887, col: 6, offset: 28063},
+																			pos: position{line: 887, col: 6, offset: 28131},
 																			expr: &choiceExpr{
-																				pos: position{line: 880, col: 5, offset: 27906},
+																				pos: position{line: 880, col: 5, offset: 27974},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 880, col: 5, offset: 27906},
+																						pos: position{line: 880, col: 5, offset: 27974},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 880, col: 5, offset: 27906},
+																								pos:   position{line: 880, col: 5, offset: 27974},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 754, col: 5, offset: 24079},
+																									pos: position{line: 754, col: 5, offset: 24147},
 																									run: (*parser).callonDocumentFragment361,
 																									expr: &seqExpr{
-																										pos: position{line: 754, col: 5, offset: 24079},
+																										pos: position{line: 754, col: 5, offset: 24147},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 754, col: 5, offset: 24079},
+																												pos:   position{line: 754, col: 5, offset: 24147},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 754, col: 16, offset: 24090},
+																													pos: position{line: 754, col: 16, offset: 24158},
 																													run: (*parser).callonDocumentFragment364,
 																													expr: &seqExpr{
-																														pos: position{line: 754, col: 16, offset: 24090},
+																														pos: position{line: 754, col: 16, offset: 24158},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 754, col: 16, offset: 24090},
+																																pos:        position{line: 754, col: 16, offset: 24158},
 																																val:        "```",
 																																ignoreCase: false,
 																																want:       "\"```\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 754, col: 22, offset: 24096},
+																																pos: position{line: 754, col: 22, offset: 24164},
 																																expr: &litMatcher{
-																																	pos:        position{line: 754, col: 22, offset: 24096},
+																																	pos:        position{line: 754, col: 22, offset: 24164},
 																																	val:        "`",
 																																	ignoreCase: false,
 																																	want:       "\"`\"",
@@ -5878,12 +5878,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 756, col: 8, offset: 24180},
+																												pos: position{line: 756, col: 8, offset: 24248},
 																												expr: &actionExpr{
-																													pos: position{line: 2852, col: 10, offset: 90239},
+																													pos: position{line: 2862, col: 10, offset: 90584},
 																													run: (*parser).callonDocumentFragment370,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2852, col: 10, offset: 90239},
+																														pos:        position{line: 2862, col: 10, offset: 90584},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5892,28 +5892,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2874, col: 8, offset: 90637},
+																												pos: position{line: 2884, col: 8, offset: 90982},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2861, col: 12, offset: 90410},
+																														pos: position{line: 2871, col: 12, offset: 90755},
 																														run: (*parser).callonDocumentFragment373,
 																														expr: &choiceExpr{
-																															pos: position{line: 2861, col: 13, offset: 90411},
+																															pos: position{line: 2871, col: 13, offset: 90756},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 13, offset: 90411},
+																																	pos:        position{line: 2871, col: 13, offset: 90756},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 20, offset: 90418},
+																																	pos:        position{line: 2871, col: 20, offset: 90763},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 29, offset: 90427},
+																																	pos:        position{line: 2871, col: 29, offset: 90772},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5922,9 +5922,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2871, col: 8, offset: 90587},
+																														pos: position{line: 2881, col: 8, offset: 90932},
 																														expr: &anyMatcher{
-																															line: 2871, col: 9, offset: 90588,
+																															line: 2881, col: 9, offset: 90933,
 																														},
 																													},
 																												},
@@ -5934,45 +5934,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 881, col: 5, offset: 27936},
+																								pos: position{line: 881, col: 5, offset: 28004},
 																								run: (*parser).callonDocumentFragment380,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2881, col: 8, offset: 90932},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2881, col: 9, offset: 90933,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 888, col: 5, offset: 28092},
+																			pos:   position{line: 888, col: 5, offset: 28160},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26093},
+																				pos: position{line: 811, col: 5, offset: 26161},
 																				run: (*parser).callonDocumentFragment384,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26093},
+																					pos: position{line: 811, col: 5, offset: 26161},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2879, col: 11, offset: 90918},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2879, col: 13, offset: 90920,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26168},
+																							pos:   position{line: 812, col: 5, offset: 26236},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2808, col: 13, offset: 89110},
 																								run: (*parser).callonDocumentFragment389,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2798, col: 13, offset: 88765},
+																									pos: position{line: 2808, col: 13, offset: 89110},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2798, col: 13, offset: 88765},
+																										pos:        position{line: 2808, col: 13, offset: 89110},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5982,28 +5982,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2884, col: 8, offset: 90982},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2871, col: 12, offset: 90755},
 																									run: (*parser).callonDocumentFragment393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2871, col: 13, offset: 90756},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2871, col: 13, offset: 90756},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2871, col: 20, offset: 90763},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2871, col: 29, offset: 90772},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6012,9 +6012,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2881, col: 8, offset: 90932},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2881, col: 9, offset: 90933,
 																									},
 																								},
 																							},
@@ -6029,44 +6029,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 873, col: 5, offset: 27705},
+														pos:   position{line: 873, col: 5, offset: 27773},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 873, col: 9, offset: 27709},
+															pos: position{line: 873, col: 9, offset: 27777},
 															expr: &choiceExpr{
-																pos: position{line: 880, col: 5, offset: 27906},
+																pos: position{line: 880, col: 5, offset: 27974},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 880, col: 5, offset: 27906},
+																		pos: position{line: 880, col: 5, offset: 27974},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 880, col: 5, offset: 27906},
+																				pos:   position{line: 880, col: 5, offset: 27974},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 754, col: 5, offset: 24079},
+																					pos: position{line: 754, col: 5, offset: 24147},
 																					run: (*parser).callonDocumentFragment405,
 																					expr: &seqExpr{
-																						pos: position{line: 754, col: 5, offset: 24079},
+																						pos: position{line: 754, col: 5, offset: 24147},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 754, col: 5, offset: 24079},
+																								pos:   position{line: 754, col: 5, offset: 24147},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 754, col: 16, offset: 24090},
+																									pos: position{line: 754, col: 16, offset: 24158},
 																									run: (*parser).callonDocumentFragment408,
 																									expr: &seqExpr{
-																										pos: position{line: 754, col: 16, offset: 24090},
+																										pos: position{line: 754, col: 16, offset: 24158},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 754, col: 16, offset: 24090},
+																												pos:        position{line: 754, col: 16, offset: 24158},
 																												val:        "```",
 																												ignoreCase: false,
 																												want:       "\"```\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 754, col: 22, offset: 24096},
+																												pos: position{line: 754, col: 22, offset: 24164},
 																												expr: &litMatcher{
-																													pos:        position{line: 754, col: 22, offset: 24096},
+																													pos:        position{line: 754, col: 22, offset: 24164},
 																													val:        "`",
 																													ignoreCase: false,
 																													want:       "\"`\"",
@@ -6077,12 +6077,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 756, col: 8, offset: 24180},
+																								pos: position{line: 756, col: 8, offset: 24248},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2862, col: 10, offset: 90584},
 																									run: (*parser).callonDocumentFragment414,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2862, col: 10, offset: 90584},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6091,28 +6091,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
+																								pos: position{line: 2884, col: 8, offset: 90982},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
+																										pos: position{line: 2871, col: 12, offset: 90755},
 																										run: (*parser).callonDocumentFragment417,
 																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																											pos: position{line: 2871, col: 13, offset: 90756},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
+																													pos:        position{line: 2871, col: 13, offset: 90756},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
+																													pos:        position{line: 2871, col: 20, offset: 90763},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
+																													pos:        position{line: 2871, col: 29, offset: 90772},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6121,9 +6121,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
+																										pos: position{line: 2881, col: 8, offset: 90932},
 																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																											line: 2881, col: 9, offset: 90933,
 																										},
 																									},
 																								},
@@ -6133,15 +6133,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 881, col: 5, offset: 27936},
+																				pos: position{line: 881, col: 5, offset: 28004},
 																				run: (*parser).callonDocumentFragment424,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2881, col: 8, offset: 90932},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2881, col: 9, offset: 90933,
 																		},
 																	},
 																},
@@ -6152,39 +6152,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 896, col: 5, offset: 28247},
+											pos: position{line: 896, col: 5, offset: 28315},
 											run: (*parser).callonDocumentFragment427,
 											expr: &seqExpr{
-												pos: position{line: 896, col: 5, offset: 28247},
+												pos: position{line: 896, col: 5, offset: 28315},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 896, col: 5, offset: 28247},
+														pos:   position{line: 896, col: 5, offset: 28315},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 769, col: 5, offset: 24621},
+															pos: position{line: 769, col: 5, offset: 24689},
 															run: (*parser).callonDocumentFragment430,
 															expr: &seqExpr{
-																pos: position{line: 769, col: 5, offset: 24621},
+																pos: position{line: 769, col: 5, offset: 24689},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 769, col: 5, offset: 24621},
+																		pos:   position{line: 769, col: 5, offset: 24689},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 769, col: 16, offset: 24632},
+																			pos: position{line: 769, col: 16, offset: 24700},
 																			run: (*parser).callonDocumentFragment433,
 																			expr: &seqExpr{
-																				pos: position{line: 769, col: 16, offset: 24632},
+																				pos: position{line: 769, col: 16, offset: 24700},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 769, col: 16, offset: 24632},
+																						pos:        position{line: 769, col: 16, offset: 24700},
 																						val:        "----",
 																						ignoreCase: false,
 																						want:       "\"----\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 769, col: 23, offset: 24639},
+																						pos: position{line: 769, col: 23, offset: 24707},
 																						expr: &litMatcher{
-																							pos:        position{line: 769, col: 23, offset: 24639},
+																							pos:        position{line: 769, col: 23, offset: 24707},
 																							val:        "-",
 																							ignoreCase: false,
 																							want:       "\"-\"",
@@ -6195,12 +6195,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 771, col: 8, offset: 24723},
+																		pos: position{line: 771, col: 8, offset: 24791},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
+																			pos: position{line: 2862, col: 10, offset: 90584},
 																			run: (*parser).callonDocumentFragment439,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2862, col: 10, offset: 90584},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6209,28 +6209,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2884, col: 8, offset: 90982},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2871, col: 12, offset: 90755},
 																				run: (*parser).callonDocumentFragment442,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2871, col: 13, offset: 90756},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2871, col: 13, offset: 90756},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2871, col: 20, offset: 90763},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2871, col: 29, offset: 90772},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6239,9 +6239,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2881, col: 8, offset: 90932},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2881, col: 9, offset: 90933,
 																				},
 																			},
 																		},
@@ -6251,56 +6251,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 897, col: 5, offset: 28286},
+														pos: position{line: 897, col: 5, offset: 28354},
 														run: (*parser).callonDocumentFragment449,
 													},
 													&labeledExpr{
-														pos:   position{line: 900, col: 5, offset: 28378},
+														pos:   position{line: 900, col: 5, offset: 28446},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 915, col: 5, offset: 28776},
+															pos: position{line: 915, col: 5, offset: 28844},
 															expr: &actionExpr{
-																pos: position{line: 915, col: 6, offset: 28777},
+																pos: position{line: 915, col: 6, offset: 28845},
 																run: (*parser).callonDocumentFragment452,
 																expr: &seqExpr{
-																	pos: position{line: 915, col: 6, offset: 28777},
+																	pos: position{line: 915, col: 6, offset: 28845},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 915, col: 6, offset: 28777},
+																			pos: position{line: 915, col: 6, offset: 28845},
 																			expr: &choiceExpr{
-																				pos: position{line: 908, col: 5, offset: 28618},
+																				pos: position{line: 908, col: 5, offset: 28686},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 908, col: 5, offset: 28618},
+																						pos: position{line: 908, col: 5, offset: 28686},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 908, col: 5, offset: 28618},
+																								pos:   position{line: 908, col: 5, offset: 28686},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 769, col: 5, offset: 24621},
+																									pos: position{line: 769, col: 5, offset: 24689},
 																									run: (*parser).callonDocumentFragment458,
 																									expr: &seqExpr{
-																										pos: position{line: 769, col: 5, offset: 24621},
+																										pos: position{line: 769, col: 5, offset: 24689},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 769, col: 5, offset: 24621},
+																												pos:   position{line: 769, col: 5, offset: 24689},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 769, col: 16, offset: 24632},
+																													pos: position{line: 769, col: 16, offset: 24700},
 																													run: (*parser).callonDocumentFragment461,
 																													expr: &seqExpr{
-																														pos: position{line: 769, col: 16, offset: 24632},
+																														pos: position{line: 769, col: 16, offset: 24700},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 769, col: 16, offset: 24632},
+																																pos:        position{line: 769, col: 16, offset: 24700},
 																																val:        "----",
 																																ignoreCase: false,
 																																want:       "\"----\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 769, col: 23, offset: 24639},
+																																pos: position{line: 769, col: 23, offset: 24707},
 																																expr: &litMatcher{
-																																	pos:        position{line: 769, col: 23, offset: 24639},
+																																	pos:        position{line: 769, col: 23, offset: 24707},
 																																	val:        "-",
 																																	ignoreCase: false,
 																																	want:       "\"-\"",
@@ -6311,12 +6311,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 771, col: 8, offset: 24723},
+																												pos: position{line: 771, col: 8, offset: 24791},
 																												expr: &actionExpr{
-																													pos: position{line: 2852, col: 10, offset: 90239},
+																													pos: position{line: 2862, col: 10, offset: 90584},
 																													run: (*parser).callonDocumentFragment467,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2852, col: 10, offset: 90239},
+																														pos:        position{line: 2862, col: 10, offset: 90584},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6325,28 +6325,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2874, col: 8, offset: 90637},
+																												pos: position{line: 2884, col: 8, offset: 90982},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2861, col: 12, offset: 90410},
+																														pos: position{line: 2871, col: 12, offset: 90755},
 																														run: (*parser).callonDocumentFragment470,
 																														expr: &choiceExpr{
-																															pos: position{line: 2861, col: 13, offset: 90411},
+																															pos: position{line: 2871, col: 13, offset: 90756},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 13, offset: 90411},
+																																	pos:        position{line: 2871, col: 13, offset: 90756},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 20, offset: 90418},
+																																	pos:        position{line: 2871, col: 20, offset: 90763},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 29, offset: 90427},
+																																	pos:        position{line: 2871, col: 29, offset: 90772},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6355,9 +6355,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2871, col: 8, offset: 90587},
+																														pos: position{line: 2881, col: 8, offset: 90932},
 																														expr: &anyMatcher{
-																															line: 2871, col: 9, offset: 90588,
+																															line: 2881, col: 9, offset: 90933,
 																														},
 																													},
 																												},
@@ -6367,45 +6367,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 909, col: 5, offset: 28649},
+																								pos: position{line: 909, col: 5, offset: 28717},
 																								run: (*parser).callonDocumentFragment477,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2881, col: 8, offset: 90932},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2881, col: 9, offset: 90933,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 916, col: 5, offset: 28807},
+																			pos:   position{line: 916, col: 5, offset: 28875},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26093},
+																				pos: position{line: 811, col: 5, offset: 26161},
 																				run: (*parser).callonDocumentFragment481,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26093},
+																					pos: position{line: 811, col: 5, offset: 26161},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2879, col: 11, offset: 90918},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2879, col: 13, offset: 90920,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26168},
+																							pos:   position{line: 812, col: 5, offset: 26236},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2808, col: 13, offset: 89110},
 																								run: (*parser).callonDocumentFragment486,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2798, col: 13, offset: 88765},
+																									pos: position{line: 2808, col: 13, offset: 89110},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2798, col: 13, offset: 88765},
+																										pos:        position{line: 2808, col: 13, offset: 89110},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6415,28 +6415,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2884, col: 8, offset: 90982},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2871, col: 12, offset: 90755},
 																									run: (*parser).callonDocumentFragment490,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2871, col: 13, offset: 90756},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2871, col: 13, offset: 90756},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2871, col: 20, offset: 90763},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2871, col: 29, offset: 90772},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6445,9 +6445,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2881, col: 8, offset: 90932},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2881, col: 9, offset: 90933,
 																									},
 																								},
 																							},
@@ -6462,44 +6462,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 901, col: 5, offset: 28412},
+														pos:   position{line: 901, col: 5, offset: 28480},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 901, col: 9, offset: 28416},
+															pos: position{line: 901, col: 9, offset: 28484},
 															expr: &choiceExpr{
-																pos: position{line: 908, col: 5, offset: 28618},
+																pos: position{line: 908, col: 5, offset: 28686},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 908, col: 5, offset: 28618},
+																		pos: position{line: 908, col: 5, offset: 28686},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 908, col: 5, offset: 28618},
+																				pos:   position{line: 908, col: 5, offset: 28686},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 769, col: 5, offset: 24621},
+																					pos: position{line: 769, col: 5, offset: 24689},
 																					run: (*parser).callonDocumentFragment502,
 																					expr: &seqExpr{
-																						pos: position{line: 769, col: 5, offset: 24621},
+																						pos: position{line: 769, col: 5, offset: 24689},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 769, col: 5, offset: 24621},
+																								pos:   position{line: 769, col: 5, offset: 24689},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 769, col: 16, offset: 24632},
+																									pos: position{line: 769, col: 16, offset: 24700},
 																									run: (*parser).callonDocumentFragment505,
 																									expr: &seqExpr{
-																										pos: position{line: 769, col: 16, offset: 24632},
+																										pos: position{line: 769, col: 16, offset: 24700},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 769, col: 16, offset: 24632},
+																												pos:        position{line: 769, col: 16, offset: 24700},
 																												val:        "----",
 																												ignoreCase: false,
 																												want:       "\"----\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 769, col: 23, offset: 24639},
+																												pos: position{line: 769, col: 23, offset: 24707},
 																												expr: &litMatcher{
-																													pos:        position{line: 769, col: 23, offset: 24639},
+																													pos:        position{line: 769, col: 23, offset: 24707},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
@@ -6510,12 +6510,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 771, col: 8, offset: 24723},
+																								pos: position{line: 771, col: 8, offset: 24791},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2862, col: 10, offset: 90584},
 																									run: (*parser).callonDocumentFragment511,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2862, col: 10, offset: 90584},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6524,28 +6524,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
+																								pos: position{line: 2884, col: 8, offset: 90982},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
+																										pos: position{line: 2871, col: 12, offset: 90755},
 																										run: (*parser).callonDocumentFragment514,
 																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																											pos: position{line: 2871, col: 13, offset: 90756},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
+																													pos:        position{line: 2871, col: 13, offset: 90756},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
+																													pos:        position{line: 2871, col: 20, offset: 90763},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
+																													pos:        position{line: 2871, col: 29, offset: 90772},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6554,9 +6554,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
+																										pos: position{line: 2881, col: 8, offset: 90932},
 																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																											line: 2881, col: 9, offset: 90933,
 																										},
 																									},
 																								},
@@ -6566,15 +6566,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 909, col: 5, offset: 28649},
+																				pos: position{line: 909, col: 5, offset: 28717},
 																				run: (*parser).callonDocumentFragment521,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2881, col: 8, offset: 90932},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2881, col: 9, offset: 90933,
 																		},
 																	},
 																},
@@ -6585,39 +6585,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 924, col: 5, offset: 28962},
+											pos: position{line: 924, col: 5, offset: 29030},
 											run: (*parser).callonDocumentFragment524,
 											expr: &seqExpr{
-												pos: position{line: 924, col: 5, offset: 28962},
+												pos: position{line: 924, col: 5, offset: 29030},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 924, col: 5, offset: 28962},
+														pos:   position{line: 924, col: 5, offset: 29030},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 783, col: 5, offset: 25097},
+															pos: position{line: 783, col: 5, offset: 25165},
 															run: (*parser).callonDocumentFragment527,
 															expr: &seqExpr{
-																pos: position{line: 783, col: 5, offset: 25097},
+																pos: position{line: 783, col: 5, offset: 25165},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 783, col: 5, offset: 25097},
+																		pos:   position{line: 783, col: 5, offset: 25165},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 783, col: 16, offset: 25108},
+																			pos: position{line: 783, col: 16, offset: 25176},
 																			run: (*parser).callonDocumentFragment530,
 																			expr: &seqExpr{
-																				pos: position{line: 783, col: 16, offset: 25108},
+																				pos: position{line: 783, col: 16, offset: 25176},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 783, col: 16, offset: 25108},
+																						pos:        position{line: 783, col: 16, offset: 25176},
 																						val:        "....",
 																						ignoreCase: false,
 																						want:       "\"....\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 783, col: 23, offset: 25115},
+																						pos: position{line: 783, col: 23, offset: 25183},
 																						expr: &litMatcher{
-																							pos:        position{line: 783, col: 23, offset: 25115},
+																							pos:        position{line: 783, col: 23, offset: 25183},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -6628,12 +6628,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 785, col: 8, offset: 25199},
+																		pos: position{line: 785, col: 8, offset: 25267},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
+																			pos: position{line: 2862, col: 10, offset: 90584},
 																			run: (*parser).callonDocumentFragment536,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2862, col: 10, offset: 90584},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6642,28 +6642,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2884, col: 8, offset: 90982},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2871, col: 12, offset: 90755},
 																				run: (*parser).callonDocumentFragment539,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2871, col: 13, offset: 90756},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2871, col: 13, offset: 90756},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2871, col: 20, offset: 90763},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2871, col: 29, offset: 90772},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6672,9 +6672,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2881, col: 8, offset: 90932},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2881, col: 9, offset: 90933,
 																				},
 																			},
 																		},
@@ -6684,56 +6684,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 925, col: 5, offset: 29001},
+														pos: position{line: 925, col: 5, offset: 29069},
 														run: (*parser).callonDocumentFragment546,
 													},
 													&labeledExpr{
-														pos:   position{line: 928, col: 5, offset: 29093},
+														pos:   position{line: 928, col: 5, offset: 29161},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 943, col: 5, offset: 29491},
+															pos: position{line: 943, col: 5, offset: 29559},
 															expr: &actionExpr{
-																pos: position{line: 943, col: 6, offset: 29492},
+																pos: position{line: 943, col: 6, offset: 29560},
 																run: (*parser).callonDocumentFragment549,
 																expr: &seqExpr{
-																	pos: position{line: 943, col: 6, offset: 29492},
+																	pos: position{line: 943, col: 6, offset: 29560},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 943, col: 6, offset: 29492},
+																			pos: position{line: 943, col: 6, offset: 29560},
 																			expr: &choiceExpr{
-																				pos: position{line: 936, col: 5, offset: 29333},
+																				pos: position{line: 936, col: 5, offset: 29401},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 936, col: 5, offset: 29333},
+																						pos: position{line: 936, col: 5, offset: 29401},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 936, col: 5, offset: 29333},
+																								pos:   position{line: 936, col: 5, offset: 29401},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 783, col: 5, offset: 25097},
+																									pos: position{line: 783, col: 5, offset: 25165},
 																									run: (*parser).callonDocumentFragment555,
 																									expr: &seqExpr{
-																										pos: position{line: 783, col: 5, offset: 25097},
+																										pos: position{line: 783, col: 5, offset: 25165},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 783, col: 5, offset: 25097},
+																												pos:   position{line: 783, col: 5, offset: 25165},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 783, col: 16, offset: 25108},
+																													pos: position{line: 783, col: 16, offset: 25176},
 																													run: (*parser).callonDocumentFragment558,
 																													expr: &seqExpr{
-																														pos: position{line: 783, col: 16, offset: 25108},
+																														pos: position{line: 783, col: 16, offset: 25176},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 783, col: 16, offset: 25108},
+																																pos:        position{line: 783, col: 16, offset: 25176},
 																																val:        "....",
 																																ignoreCase: false,
 																																want:       "\"....\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 783, col: 23, offset: 25115},
+																																pos: position{line: 783, col: 23, offset: 25183},
 																																expr: &litMatcher{
-																																	pos:        position{line: 783, col: 23, offset: 25115},
+																																	pos:        position{line: 783, col: 23, offset: 25183},
 																																	val:        ".",
 																																	ignoreCase: false,
 																																	want:       "\".\"",
@@ -6744,12 +6744,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 785, col: 8, offset: 25199},
+																												pos: position{line: 785, col: 8, offset: 25267},
 																												expr: &actionExpr{
-																													pos: position{line: 2852, col: 10, offset: 90239},
+																													pos: position{line: 2862, col: 10, offset: 90584},
 																													run: (*parser).callonDocumentFragment564,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2852, col: 10, offset: 90239},
+																														pos:        position{line: 2862, col: 10, offset: 90584},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6758,28 +6758,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2874, col: 8, offset: 90637},
+																												pos: position{line: 2884, col: 8, offset: 90982},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2861, col: 12, offset: 90410},
+																														pos: position{line: 2871, col: 12, offset: 90755},
 																														run: (*parser).callonDocumentFragment567,
 																														expr: &choiceExpr{
-																															pos: position{line: 2861, col: 13, offset: 90411},
+																															pos: position{line: 2871, col: 13, offset: 90756},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 13, offset: 90411},
+																																	pos:        position{line: 2871, col: 13, offset: 90756},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 20, offset: 90418},
+																																	pos:        position{line: 2871, col: 20, offset: 90763},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 29, offset: 90427},
+																																	pos:        position{line: 2871, col: 29, offset: 90772},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6788,9 +6788,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2871, col: 8, offset: 90587},
+																														pos: position{line: 2881, col: 8, offset: 90932},
 																														expr: &anyMatcher{
-																															line: 2871, col: 9, offset: 90588,
+																															line: 2881, col: 9, offset: 90933,
 																														},
 																													},
 																												},
@@ -6800,45 +6800,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 937, col: 5, offset: 29364},
+																								pos: position{line: 937, col: 5, offset: 29432},
 																								run: (*parser).callonDocumentFragment574,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2881, col: 8, offset: 90932},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2881, col: 9, offset: 90933,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 944, col: 5, offset: 29522},
+																			pos:   position{line: 944, col: 5, offset: 29590},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26093},
+																				pos: position{line: 811, col: 5, offset: 26161},
 																				run: (*parser).callonDocumentFragment578,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26093},
+																					pos: position{line: 811, col: 5, offset: 26161},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2879, col: 11, offset: 90918},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2879, col: 13, offset: 90920,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26168},
+																							pos:   position{line: 812, col: 5, offset: 26236},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2808, col: 13, offset: 89110},
 																								run: (*parser).callonDocumentFragment583,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2798, col: 13, offset: 88765},
+																									pos: position{line: 2808, col: 13, offset: 89110},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2798, col: 13, offset: 88765},
+																										pos:        position{line: 2808, col: 13, offset: 89110},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6848,28 +6848,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2884, col: 8, offset: 90982},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2871, col: 12, offset: 90755},
 																									run: (*parser).callonDocumentFragment587,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2871, col: 13, offset: 90756},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2871, col: 13, offset: 90756},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2871, col: 20, offset: 90763},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2871, col: 29, offset: 90772},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6878,9 +6878,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2881, col: 8, offset: 90932},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2881, col: 9, offset: 90933,
 																									},
 																								},
 																							},
@@ -6895,44 +6895,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 929, col: 5, offset: 29127},
+														pos:   position{line: 929, col: 5, offset: 29195},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 929, col: 9, offset: 29131},
+															pos: position{line: 929, col: 9, offset: 29199},
 															expr: &choiceExpr{
-																pos: position{line: 936, col: 5, offset: 29333},
+																pos: position{line: 936, col: 5, offset: 29401},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 936, col: 5, offset: 29333},
+																		pos: position{line: 936, col: 5, offset: 29401},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 936, col: 5, offset: 29333},
+																				pos:   position{line: 936, col: 5, offset: 29401},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 783, col: 5, offset: 25097},
+																					pos: position{line: 783, col: 5, offset: 25165},
 																					run: (*parser).callonDocumentFragment599,
 																					expr: &seqExpr{
-																						pos: position{line: 783, col: 5, offset: 25097},
+																						pos: position{line: 783, col: 5, offset: 25165},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 783, col: 5, offset: 25097},
+																								pos:   position{line: 783, col: 5, offset: 25165},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 783, col: 16, offset: 25108},
+																									pos: position{line: 783, col: 16, offset: 25176},
 																									run: (*parser).callonDocumentFragment602,
 																									expr: &seqExpr{
-																										pos: position{line: 783, col: 16, offset: 25108},
+																										pos: position{line: 783, col: 16, offset: 25176},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 783, col: 16, offset: 25108},
+																												pos:        position{line: 783, col: 16, offset: 25176},
 																												val:        "....",
 																												ignoreCase: false,
 																												want:       "\"....\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 783, col: 23, offset: 25115},
+																												pos: position{line: 783, col: 23, offset: 25183},
 																												expr: &litMatcher{
-																													pos:        position{line: 783, col: 23, offset: 25115},
+																													pos:        position{line: 783, col: 23, offset: 25183},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -6943,12 +6943,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 785, col: 8, offset: 25199},
+																								pos: position{line: 785, col: 8, offset: 25267},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2862, col: 10, offset: 90584},
 																									run: (*parser).callonDocumentFragment608,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2862, col: 10, offset: 90584},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6957,28 +6957,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
+																								pos: position{line: 2884, col: 8, offset: 90982},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
+																										pos: position{line: 2871, col: 12, offset: 90755},
 																										run: (*parser).callonDocumentFragment611,
 																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																											pos: position{line: 2871, col: 13, offset: 90756},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
+																													pos:        position{line: 2871, col: 13, offset: 90756},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
+																													pos:        position{line: 2871, col: 20, offset: 90763},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
+																													pos:        position{line: 2871, col: 29, offset: 90772},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6987,9 +6987,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
+																										pos: position{line: 2881, col: 8, offset: 90932},
 																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																											line: 2881, col: 9, offset: 90933,
 																										},
 																									},
 																								},
@@ -6999,15 +6999,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 937, col: 5, offset: 29364},
+																				pos: position{line: 937, col: 5, offset: 29432},
 																				run: (*parser).callonDocumentFragment618,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2881, col: 8, offset: 90932},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2881, col: 9, offset: 90933,
 																		},
 																	},
 																},
@@ -7018,41 +7018,41 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 975, col: 5, offset: 30405},
+											pos: position{line: 975, col: 5, offset: 30473},
 											run: (*parser).callonDocumentFragment621,
 											expr: &seqExpr{
-												pos: position{line: 975, col: 5, offset: 30405},
+												pos: position{line: 975, col: 5, offset: 30473},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 975, col: 5, offset: 30405},
+														pos:   position{line: 975, col: 5, offset: 30473},
 														label: "firstLine",
 														expr: &actionExpr{
-															pos: position{line: 982, col: 5, offset: 30664},
+															pos: position{line: 982, col: 5, offset: 30732},
 															run: (*parser).callonDocumentFragment624,
 															expr: &seqExpr{
-																pos: position{line: 982, col: 5, offset: 30664},
+																pos: position{line: 982, col: 5, offset: 30732},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 982, col: 5, offset: 30664},
+																		pos: position{line: 982, col: 5, offset: 30732},
 																		expr: &actionExpr{
-																			pos: position{line: 677, col: 14, offset: 21489},
+																			pos: position{line: 677, col: 14, offset: 21557},
 																			run: (*parser).callonDocumentFragment627,
 																			expr: &seqExpr{
-																				pos: position{line: 677, col: 14, offset: 21489},
+																				pos: position{line: 677, col: 14, offset: 21557},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2879, col: 11, offset: 90918},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2879, col: 13, offset: 90920,
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 677, col: 21, offset: 21496},
+																						pos: position{line: 677, col: 21, offset: 21564},
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2862, col: 10, offset: 90584},
 																							run: (*parser).callonDocumentFragment632,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2862, col: 10, offset: 90584},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -7061,28 +7061,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2884, col: 8, offset: 90982},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2871, col: 12, offset: 90755},
 																								run: (*parser).callonDocumentFragment635,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2871, col: 13, offset: 90756},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2871, col: 13, offset: 90756},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2871, col: 20, offset: 90763},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2871, col: 29, offset: 90772},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -7091,9 +7091,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2881, col: 8, offset: 90932},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2881, col: 9, offset: 90933,
 																								},
 																							},
 																						},
@@ -7103,21 +7103,21 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 983, col: 5, offset: 30679},
+																		pos:        position{line: 983, col: 5, offset: 30747},
 																		val:        "> ",
 																		ignoreCase: false,
 																		want:       "\"> \"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 984, col: 5, offset: 30689},
+																		pos:   position{line: 984, col: 5, offset: 30757},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2802, col: 14, offset: 88832},
+																			pos: position{line: 2812, col: 14, offset: 89177},
 																			run: (*parser).callonDocumentFragment644,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2802, col: 14, offset: 88832},
+																				pos: position{line: 2812, col: 14, offset: 89177},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2802, col: 14, offset: 88832},
+																					pos:        position{line: 2812, col: 14, offset: 89177},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -7127,28 +7127,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2884, col: 8, offset: 90982},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2871, col: 12, offset: 90755},
 																				run: (*parser).callonDocumentFragment648,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2871, col: 13, offset: 90756},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2871, col: 13, offset: 90756},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2871, col: 20, offset: 90763},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2871, col: 29, offset: 90772},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7157,9 +7157,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2881, col: 8, offset: 90932},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2881, col: 9, offset: 90933,
 																				},
 																			},
 																		},
@@ -7169,40 +7169,40 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 976, col: 5, offset: 30442},
+														pos:   position{line: 976, col: 5, offset: 30510},
 														label: "otherLines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 976, col: 16, offset: 30453},
+															pos: position{line: 976, col: 16, offset: 30521},
 															expr: &choiceExpr{
-																pos: position{line: 976, col: 17, offset: 30454},
+																pos: position{line: 976, col: 17, offset: 30522},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 982, col: 5, offset: 30664},
+																		pos: position{line: 982, col: 5, offset: 30732},
 																		run: (*parser).callonDocumentFragment658,
 																		expr: &seqExpr{
-																			pos: position{line: 982, col: 5, offset: 30664},
+																			pos: position{line: 982, col: 5, offset: 30732},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 982, col: 5, offset: 30664},
+																					pos: position{line: 982, col: 5, offset: 30732},
 																					expr: &actionExpr{
-																						pos: position{line: 677, col: 14, offset: 21489},
+																						pos: position{line: 677, col: 14, offset: 21557},
 																						run: (*parser).callonDocumentFragment661,
 																						expr: &seqExpr{
-																							pos: position{line: 677, col: 14, offset: 21489},
+																							pos: position{line: 677, col: 14, offset: 21557},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2869, col: 11, offset: 90573},
+																									pos: position{line: 2879, col: 11, offset: 90918},
 																									expr: &anyMatcher{
-																										line: 2869, col: 13, offset: 90575,
+																										line: 2879, col: 13, offset: 90920,
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 677, col: 21, offset: 21496},
+																									pos: position{line: 677, col: 21, offset: 21564},
 																									expr: &actionExpr{
-																										pos: position{line: 2852, col: 10, offset: 90239},
+																										pos: position{line: 2862, col: 10, offset: 90584},
 																										run: (*parser).callonDocumentFragment666,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2852, col: 10, offset: 90239},
+																											pos:        position{line: 2862, col: 10, offset: 90584},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7211,28 +7211,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2874, col: 8, offset: 90637},
+																									pos: position{line: 2884, col: 8, offset: 90982},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2861, col: 12, offset: 90410},
+																											pos: position{line: 2871, col: 12, offset: 90755},
 																											run: (*parser).callonDocumentFragment669,
 																											expr: &choiceExpr{
-																												pos: position{line: 2861, col: 13, offset: 90411},
+																												pos: position{line: 2871, col: 13, offset: 90756},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 13, offset: 90411},
+																														pos:        position{line: 2871, col: 13, offset: 90756},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 20, offset: 90418},
+																														pos:        position{line: 2871, col: 20, offset: 90763},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 29, offset: 90427},
+																														pos:        position{line: 2871, col: 29, offset: 90772},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7241,9 +7241,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2871, col: 8, offset: 90587},
+																											pos: position{line: 2881, col: 8, offset: 90932},
 																											expr: &anyMatcher{
-																												line: 2871, col: 9, offset: 90588,
+																												line: 2881, col: 9, offset: 90933,
 																											},
 																										},
 																									},
@@ -7253,21 +7253,21 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 983, col: 5, offset: 30679},
+																					pos:        position{line: 983, col: 5, offset: 30747},
 																					val:        "> ",
 																					ignoreCase: false,
 																					want:       "\"> \"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 984, col: 5, offset: 30689},
+																					pos:   position{line: 984, col: 5, offset: 30757},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2802, col: 14, offset: 88832},
+																						pos: position{line: 2812, col: 14, offset: 89177},
 																						run: (*parser).callonDocumentFragment678,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2802, col: 14, offset: 88832},
+																							pos: position{line: 2812, col: 14, offset: 89177},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2802, col: 14, offset: 88832},
+																								pos:        position{line: 2812, col: 14, offset: 89177},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7277,28 +7277,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2874, col: 8, offset: 90637},
+																					pos: position{line: 2884, col: 8, offset: 90982},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2861, col: 12, offset: 90410},
+																							pos: position{line: 2871, col: 12, offset: 90755},
 																							run: (*parser).callonDocumentFragment682,
 																							expr: &choiceExpr{
-																								pos: position{line: 2861, col: 13, offset: 90411},
+																								pos: position{line: 2871, col: 13, offset: 90756},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 13, offset: 90411},
+																										pos:        position{line: 2871, col: 13, offset: 90756},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 20, offset: 90418},
+																										pos:        position{line: 2871, col: 20, offset: 90763},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 29, offset: 90427},
+																										pos:        position{line: 2871, col: 29, offset: 90772},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7307,9 +7307,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2871, col: 8, offset: 90587},
+																							pos: position{line: 2881, col: 8, offset: 90932},
 																							expr: &anyMatcher{
-																								line: 2871, col: 9, offset: 90588,
+																								line: 2881, col: 9, offset: 90933,
 																							},
 																						},
 																					},
@@ -7318,21 +7318,21 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 1784, col: 5, offset: 57614},
+																		pos: position{line: 1784, col: 5, offset: 57750},
 																		run: (*parser).callonDocumentFragment689,
 																		expr: &seqExpr{
-																			pos: position{line: 1784, col: 5, offset: 57614},
+																			pos: position{line: 1784, col: 5, offset: 57750},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1784, col: 5, offset: 57614},
+																					pos:   position{line: 1784, col: 5, offset: 57750},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2802, col: 14, offset: 88832},
+																						pos: position{line: 2812, col: 14, offset: 89177},
 																						run: (*parser).callonDocumentFragment692,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2802, col: 14, offset: 88832},
+																							pos: position{line: 2812, col: 14, offset: 89177},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2802, col: 14, offset: 88832},
+																								pos:        position{line: 2812, col: 14, offset: 89177},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7342,32 +7342,32 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1785, col: 5, offset: 57638},
+																					pos: position{line: 1785, col: 5, offset: 57774},
 																					run: (*parser).callonDocumentFragment695,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2874, col: 8, offset: 90637},
+																					pos: position{line: 2884, col: 8, offset: 90982},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2861, col: 12, offset: 90410},
+																							pos: position{line: 2871, col: 12, offset: 90755},
 																							run: (*parser).callonDocumentFragment697,
 																							expr: &choiceExpr{
-																								pos: position{line: 2861, col: 13, offset: 90411},
+																								pos: position{line: 2871, col: 13, offset: 90756},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 13, offset: 90411},
+																										pos:        position{line: 2871, col: 13, offset: 90756},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 20, offset: 90418},
+																										pos:        position{line: 2871, col: 20, offset: 90763},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 29, offset: 90427},
+																										pos:        position{line: 2871, col: 29, offset: 90772},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7376,9 +7376,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2871, col: 8, offset: 90587},
+																							pos: position{line: 2881, col: 8, offset: 90932},
 																							expr: &anyMatcher{
-																								line: 2871, col: 9, offset: 90588,
+																								line: 2881, col: 9, offset: 90933,
 																							},
 																						},
 																					},
@@ -7394,28 +7394,28 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 997, col: 5, offset: 30954},
+											pos: position{line: 997, col: 5, offset: 31022},
 											run: (*parser).callonDocumentFragment704,
 											expr: &seqExpr{
-												pos: position{line: 997, col: 5, offset: 30954},
+												pos: position{line: 997, col: 5, offset: 31022},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 997, col: 5, offset: 30954},
+														pos:   position{line: 997, col: 5, offset: 31022},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 776, col: 5, offset: 24866},
+															pos: position{line: 776, col: 5, offset: 24934},
 															run: (*parser).callonDocumentFragment707,
 															expr: &seqExpr{
-																pos: position{line: 776, col: 5, offset: 24866},
+																pos: position{line: 776, col: 5, offset: 24934},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 776, col: 5, offset: 24866},
+																		pos:   position{line: 776, col: 5, offset: 24934},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 776, col: 16, offset: 24877},
+																			pos: position{line: 776, col: 16, offset: 24945},
 																			run: (*parser).callonDocumentFragment710,
 																			expr: &litMatcher{
-																				pos:        position{line: 776, col: 16, offset: 24877},
+																				pos:        position{line: 776, col: 16, offset: 24945},
 																				val:        "--",
 																				ignoreCase: false,
 																				want:       "\"--\"",
@@ -7423,12 +7423,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 778, col: 8, offset: 24954},
+																		pos: position{line: 778, col: 8, offset: 25022},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
+																			pos: position{line: 2862, col: 10, offset: 90584},
 																			run: (*parser).callonDocumentFragment713,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2862, col: 10, offset: 90584},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7437,28 +7437,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2884, col: 8, offset: 90982},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2871, col: 12, offset: 90755},
 																				run: (*parser).callonDocumentFragment716,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2871, col: 13, offset: 90756},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2871, col: 13, offset: 90756},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2871, col: 20, offset: 90763},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2871, col: 29, offset: 90772},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7467,9 +7467,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2881, col: 8, offset: 90932},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2881, col: 9, offset: 90933,
 																				},
 																			},
 																		},
@@ -7479,35 +7479,35 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 998, col: 5, offset: 30990},
+														pos:   position{line: 998, col: 5, offset: 31058},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1008, col: 5, offset: 31258},
+															pos: position{line: 1008, col: 5, offset: 31326},
 															expr: &actionExpr{
-																pos: position{line: 1008, col: 6, offset: 31259},
+																pos: position{line: 1008, col: 6, offset: 31327},
 																run: (*parser).callonDocumentFragment725,
 																expr: &seqExpr{
-																	pos: position{line: 1008, col: 6, offset: 31259},
+																	pos: position{line: 1008, col: 6, offset: 31327},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1008, col: 6, offset: 31259},
+																			pos: position{line: 1008, col: 6, offset: 31327},
 																			expr: &choiceExpr{
-																				pos: position{line: 1005, col: 26, offset: 31207},
+																				pos: position{line: 1005, col: 26, offset: 31275},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 776, col: 5, offset: 24866},
+																						pos: position{line: 776, col: 5, offset: 24934},
 																						run: (*parser).callonDocumentFragment729,
 																						expr: &seqExpr{
-																							pos: position{line: 776, col: 5, offset: 24866},
+																							pos: position{line: 776, col: 5, offset: 24934},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 776, col: 5, offset: 24866},
+																									pos:   position{line: 776, col: 5, offset: 24934},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 776, col: 16, offset: 24877},
+																										pos: position{line: 776, col: 16, offset: 24945},
 																										run: (*parser).callonDocumentFragment732,
 																										expr: &litMatcher{
-																											pos:        position{line: 776, col: 16, offset: 24877},
+																											pos:        position{line: 776, col: 16, offset: 24945},
 																											val:        "--",
 																											ignoreCase: false,
 																											want:       "\"--\"",
@@ -7515,12 +7515,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 778, col: 8, offset: 24954},
+																									pos: position{line: 778, col: 8, offset: 25022},
 																									expr: &actionExpr{
-																										pos: position{line: 2852, col: 10, offset: 90239},
+																										pos: position{line: 2862, col: 10, offset: 90584},
 																										run: (*parser).callonDocumentFragment735,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2852, col: 10, offset: 90239},
+																											pos:        position{line: 2862, col: 10, offset: 90584},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7529,28 +7529,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2874, col: 8, offset: 90637},
+																									pos: position{line: 2884, col: 8, offset: 90982},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2861, col: 12, offset: 90410},
+																											pos: position{line: 2871, col: 12, offset: 90755},
 																											run: (*parser).callonDocumentFragment738,
 																											expr: &choiceExpr{
-																												pos: position{line: 2861, col: 13, offset: 90411},
+																												pos: position{line: 2871, col: 13, offset: 90756},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 13, offset: 90411},
+																														pos:        position{line: 2871, col: 13, offset: 90756},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 20, offset: 90418},
+																														pos:        position{line: 2871, col: 20, offset: 90763},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 29, offset: 90427},
+																														pos:        position{line: 2871, col: 29, offset: 90772},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7559,9 +7559,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2871, col: 8, offset: 90587},
+																											pos: position{line: 2881, col: 8, offset: 90932},
 																											expr: &anyMatcher{
-																												line: 2871, col: 9, offset: 90588,
+																												line: 2881, col: 9, offset: 90933,
 																											},
 																										},
 																									},
@@ -7570,39 +7570,39 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2881, col: 8, offset: 90932},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2881, col: 9, offset: 90933,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1009, col: 5, offset: 31286},
+																			pos:   position{line: 1009, col: 5, offset: 31354},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26093},
+																				pos: position{line: 811, col: 5, offset: 26161},
 																				run: (*parser).callonDocumentFragment748,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26093},
+																					pos: position{line: 811, col: 5, offset: 26161},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2879, col: 11, offset: 90918},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2879, col: 13, offset: 90920,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26168},
+																							pos:   position{line: 812, col: 5, offset: 26236},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2808, col: 13, offset: 89110},
 																								run: (*parser).callonDocumentFragment753,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2798, col: 13, offset: 88765},
+																									pos: position{line: 2808, col: 13, offset: 89110},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2798, col: 13, offset: 88765},
+																										pos:        position{line: 2808, col: 13, offset: 89110},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7612,28 +7612,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2884, col: 8, offset: 90982},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2871, col: 12, offset: 90755},
 																									run: (*parser).callonDocumentFragment757,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2871, col: 13, offset: 90756},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2871, col: 13, offset: 90756},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2871, col: 20, offset: 90763},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2871, col: 29, offset: 90772},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7642,9 +7642,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2881, col: 8, offset: 90932},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2881, col: 9, offset: 90933,
 																									},
 																								},
 																							},
@@ -7659,27 +7659,27 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 999, col: 5, offset: 31021},
+														pos:   position{line: 999, col: 5, offset: 31089},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 999, col: 9, offset: 31025},
+															pos: position{line: 999, col: 9, offset: 31093},
 															expr: &choiceExpr{
-																pos: position{line: 1005, col: 26, offset: 31207},
+																pos: position{line: 1005, col: 26, offset: 31275},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 776, col: 5, offset: 24866},
+																		pos: position{line: 776, col: 5, offset: 24934},
 																		run: (*parser).callonDocumentFragment767,
 																		expr: &seqExpr{
-																			pos: position{line: 776, col: 5, offset: 24866},
+																			pos: position{line: 776, col: 5, offset: 24934},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 776, col: 5, offset: 24866},
+																					pos:   position{line: 776, col: 5, offset: 24934},
 																					label: "delimiter",
 																					expr: &actionExpr{
-																						pos: position{line: 776, col: 16, offset: 24877},
+																						pos: position{line: 776, col: 16, offset: 24945},
 																						run: (*parser).callonDocumentFragment770,
 																						expr: &litMatcher{
-																							pos:        position{line: 776, col: 16, offset: 24877},
+																							pos:        position{line: 776, col: 16, offset: 24945},
 																							val:        "--",
 																							ignoreCase: false,
 																							want:       "\"--\"",
@@ -7687,12 +7687,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 778, col: 8, offset: 24954},
+																					pos: position{line: 778, col: 8, offset: 25022},
 																					expr: &actionExpr{
-																						pos: position{line: 2852, col: 10, offset: 90239},
+																						pos: position{line: 2862, col: 10, offset: 90584},
 																						run: (*parser).callonDocumentFragment773,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2852, col: 10, offset: 90239},
+																							pos:        position{line: 2862, col: 10, offset: 90584},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7701,28 +7701,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2874, col: 8, offset: 90637},
+																					pos: position{line: 2884, col: 8, offset: 90982},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2861, col: 12, offset: 90410},
+																							pos: position{line: 2871, col: 12, offset: 90755},
 																							run: (*parser).callonDocumentFragment776,
 																							expr: &choiceExpr{
-																								pos: position{line: 2861, col: 13, offset: 90411},
+																								pos: position{line: 2871, col: 13, offset: 90756},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 13, offset: 90411},
+																										pos:        position{line: 2871, col: 13, offset: 90756},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 20, offset: 90418},
+																										pos:        position{line: 2871, col: 20, offset: 90763},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 29, offset: 90427},
+																										pos:        position{line: 2871, col: 29, offset: 90772},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7731,9 +7731,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2871, col: 8, offset: 90587},
+																							pos: position{line: 2881, col: 8, offset: 90932},
 																							expr: &anyMatcher{
-																								line: 2871, col: 9, offset: 90588,
+																								line: 2881, col: 9, offset: 90933,
 																							},
 																						},
 																					},
@@ -7742,9 +7742,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2881, col: 8, offset: 90932},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2881, col: 9, offset: 90933,
 																		},
 																	},
 																},
@@ -7755,39 +7755,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1017, col: 5, offset: 31449},
+											pos: position{line: 1017, col: 5, offset: 31517},
 											run: (*parser).callonDocumentFragment785,
 											expr: &seqExpr{
-												pos: position{line: 1017, col: 5, offset: 31449},
+												pos: position{line: 1017, col: 5, offset: 31517},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1017, col: 5, offset: 31449},
+														pos:   position{line: 1017, col: 5, offset: 31517},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 790, col: 5, offset: 25349},
+															pos: position{line: 790, col: 5, offset: 25417},
 															run: (*parser).callonDocumentFragment788,
 															expr: &seqExpr{
-																pos: position{line: 790, col: 5, offset: 25349},
+																pos: position{line: 790, col: 5, offset: 25417},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 790, col: 5, offset: 25349},
+																		pos:   position{line: 790, col: 5, offset: 25417},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 790, col: 16, offset: 25360},
+																			pos: position{line: 790, col: 16, offset: 25428},
 																			run: (*parser).callonDocumentFragment791,
 																			expr: &seqExpr{
-																				pos: position{line: 790, col: 16, offset: 25360},
+																				pos: position{line: 790, col: 16, offset: 25428},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 790, col: 16, offset: 25360},
+																						pos:        position{line: 790, col: 16, offset: 25428},
 																						val:        "++++",
 																						ignoreCase: false,
 																						want:       "\"++++\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 790, col: 23, offset: 25367},
+																						pos: position{line: 790, col: 23, offset: 25435},
 																						expr: &litMatcher{
-																							pos:        position{line: 790, col: 23, offset: 25367},
+																							pos:        position{line: 790, col: 23, offset: 25435},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
@@ -7798,12 +7798,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 792, col: 8, offset: 25451},
+																		pos: position{line: 792, col: 8, offset: 25519},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
+																			pos: position{line: 2862, col: 10, offset: 90584},
 																			run: (*parser).callonDocumentFragment797,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2862, col: 10, offset: 90584},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7812,28 +7812,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2884, col: 8, offset: 90982},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2871, col: 12, offset: 90755},
 																				run: (*parser).callonDocumentFragment800,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2871, col: 13, offset: 90756},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2871, col: 13, offset: 90756},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2871, col: 20, offset: 90763},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2871, col: 29, offset: 90772},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7842,9 +7842,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2881, col: 8, offset: 90932},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2881, col: 9, offset: 90933,
 																				},
 																			},
 																		},
@@ -7854,56 +7854,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1018, col: 5, offset: 31492},
+														pos: position{line: 1018, col: 5, offset: 31560},
 														run: (*parser).callonDocumentFragment807,
 													},
 													&labeledExpr{
-														pos:   position{line: 1021, col: 5, offset: 31584},
+														pos:   position{line: 1021, col: 5, offset: 31652},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1036, col: 5, offset: 32014},
+															pos: position{line: 1036, col: 5, offset: 32082},
 															expr: &actionExpr{
-																pos: position{line: 1036, col: 6, offset: 32015},
+																pos: position{line: 1036, col: 6, offset: 32083},
 																run: (*parser).callonDocumentFragment810,
 																expr: &seqExpr{
-																	pos: position{line: 1036, col: 6, offset: 32015},
+																	pos: position{line: 1036, col: 6, offset: 32083},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1036, col: 6, offset: 32015},
+																			pos: position{line: 1036, col: 6, offset: 32083},
 																			expr: &choiceExpr{
-																				pos: position{line: 1029, col: 5, offset: 31848},
+																				pos: position{line: 1029, col: 5, offset: 31916},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1029, col: 5, offset: 31848},
+																						pos: position{line: 1029, col: 5, offset: 31916},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1029, col: 5, offset: 31848},
+																								pos:   position{line: 1029, col: 5, offset: 31916},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 790, col: 5, offset: 25349},
+																									pos: position{line: 790, col: 5, offset: 25417},
 																									run: (*parser).callonDocumentFragment816,
 																									expr: &seqExpr{
-																										pos: position{line: 790, col: 5, offset: 25349},
+																										pos: position{line: 790, col: 5, offset: 25417},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 790, col: 5, offset: 25349},
+																												pos:   position{line: 790, col: 5, offset: 25417},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 790, col: 16, offset: 25360},
+																													pos: position{line: 790, col: 16, offset: 25428},
 																													run: (*parser).callonDocumentFragment819,
 																													expr: &seqExpr{
-																														pos: position{line: 790, col: 16, offset: 25360},
+																														pos: position{line: 790, col: 16, offset: 25428},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 790, col: 16, offset: 25360},
+																																pos:        position{line: 790, col: 16, offset: 25428},
 																																val:        "++++",
 																																ignoreCase: false,
 																																want:       "\"++++\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 790, col: 23, offset: 25367},
+																																pos: position{line: 790, col: 23, offset: 25435},
 																																expr: &litMatcher{
-																																	pos:        position{line: 790, col: 23, offset: 25367},
+																																	pos:        position{line: 790, col: 23, offset: 25435},
 																																	val:        "+",
 																																	ignoreCase: false,
 																																	want:       "\"+\"",
@@ -7914,12 +7914,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 792, col: 8, offset: 25451},
+																												pos: position{line: 792, col: 8, offset: 25519},
 																												expr: &actionExpr{
-																													pos: position{line: 2852, col: 10, offset: 90239},
+																													pos: position{line: 2862, col: 10, offset: 90584},
 																													run: (*parser).callonDocumentFragment825,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2852, col: 10, offset: 90239},
+																														pos:        position{line: 2862, col: 10, offset: 90584},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7928,28 +7928,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2874, col: 8, offset: 90637},
+																												pos: position{line: 2884, col: 8, offset: 90982},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2861, col: 12, offset: 90410},
+																														pos: position{line: 2871, col: 12, offset: 90755},
 																														run: (*parser).callonDocumentFragment828,
 																														expr: &choiceExpr{
-																															pos: position{line: 2861, col: 13, offset: 90411},
+																															pos: position{line: 2871, col: 13, offset: 90756},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 13, offset: 90411},
+																																	pos:        position{line: 2871, col: 13, offset: 90756},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 20, offset: 90418},
+																																	pos:        position{line: 2871, col: 20, offset: 90763},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 29, offset: 90427},
+																																	pos:        position{line: 2871, col: 29, offset: 90772},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7958,9 +7958,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2871, col: 8, offset: 90587},
+																														pos: position{line: 2881, col: 8, offset: 90932},
 																														expr: &anyMatcher{
-																															line: 2871, col: 9, offset: 90588,
+																															line: 2881, col: 9, offset: 90933,
 																														},
 																													},
 																												},
@@ -7970,45 +7970,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1030, col: 5, offset: 31883},
+																								pos: position{line: 1030, col: 5, offset: 31951},
 																								run: (*parser).callonDocumentFragment835,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2881, col: 8, offset: 90932},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2881, col: 9, offset: 90933,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1037, col: 5, offset: 32049},
+																			pos:   position{line: 1037, col: 5, offset: 32117},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26093},
+																				pos: position{line: 811, col: 5, offset: 26161},
 																				run: (*parser).callonDocumentFragment839,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26093},
+																					pos: position{line: 811, col: 5, offset: 26161},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2879, col: 11, offset: 90918},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2879, col: 13, offset: 90920,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26168},
+																							pos:   position{line: 812, col: 5, offset: 26236},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2808, col: 13, offset: 89110},
 																								run: (*parser).callonDocumentFragment844,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2798, col: 13, offset: 88765},
+																									pos: position{line: 2808, col: 13, offset: 89110},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2798, col: 13, offset: 88765},
+																										pos:        position{line: 2808, col: 13, offset: 89110},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8018,28 +8018,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2884, col: 8, offset: 90982},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2871, col: 12, offset: 90755},
 																									run: (*parser).callonDocumentFragment848,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2871, col: 13, offset: 90756},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2871, col: 13, offset: 90756},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2871, col: 20, offset: 90763},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2871, col: 29, offset: 90772},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8048,9 +8048,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2881, col: 8, offset: 90932},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2881, col: 9, offset: 90933,
 																									},
 																								},
 																							},
@@ -8065,44 +8065,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1022, col: 5, offset: 31622},
+														pos:   position{line: 1022, col: 5, offset: 31690},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1022, col: 9, offset: 31626},
+															pos: position{line: 1022, col: 9, offset: 31694},
 															expr: &choiceExpr{
-																pos: position{line: 1029, col: 5, offset: 31848},
+																pos: position{line: 1029, col: 5, offset: 31916},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1029, col: 5, offset: 31848},
+																		pos: position{line: 1029, col: 5, offset: 31916},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1029, col: 5, offset: 31848},
+																				pos:   position{line: 1029, col: 5, offset: 31916},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 790, col: 5, offset: 25349},
+																					pos: position{line: 790, col: 5, offset: 25417},
 																					run: (*parser).callonDocumentFragment860,
 																					expr: &seqExpr{
-																						pos: position{line: 790, col: 5, offset: 25349},
+																						pos: position{line: 790, col: 5, offset: 25417},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 790, col: 5, offset: 25349},
+																								pos:   position{line: 790, col: 5, offset: 25417},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 790, col: 16, offset: 25360},
+																									pos: position{line: 790, col: 16, offset: 25428},
 																									run: (*parser).callonDocumentFragment863,
 																									expr: &seqExpr{
-																										pos: position{line: 790, col: 16, offset: 25360},
+																										pos: position{line: 790, col: 16, offset: 25428},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 790, col: 16, offset: 25360},
+																												pos:        position{line: 790, col: 16, offset: 25428},
 																												val:        "++++",
 																												ignoreCase: false,
 																												want:       "\"++++\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 790, col: 23, offset: 25367},
+																												pos: position{line: 790, col: 23, offset: 25435},
 																												expr: &litMatcher{
-																													pos:        position{line: 790, col: 23, offset: 25367},
+																													pos:        position{line: 790, col: 23, offset: 25435},
 																													val:        "+",
 																													ignoreCase: false,
 																													want:       "\"+\"",
@@ -8113,12 +8113,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 792, col: 8, offset: 25451},
+																								pos: position{line: 792, col: 8, offset: 25519},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2862, col: 10, offset: 90584},
 																									run: (*parser).callonDocumentFragment869,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2862, col: 10, offset: 90584},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8127,28 +8127,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
+																								pos: position{line: 2884, col: 8, offset: 90982},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
+																										pos: position{line: 2871, col: 12, offset: 90755},
 																										run: (*parser).callonDocumentFragment872,
 																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																											pos: position{line: 2871, col: 13, offset: 90756},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
+																													pos:        position{line: 2871, col: 13, offset: 90756},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
+																													pos:        position{line: 2871, col: 20, offset: 90763},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
+																													pos:        position{line: 2871, col: 29, offset: 90772},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8157,9 +8157,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
+																										pos: position{line: 2881, col: 8, offset: 90932},
 																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																											line: 2881, col: 9, offset: 90933,
 																										},
 																									},
 																								},
@@ -8169,15 +8169,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1030, col: 5, offset: 31883},
+																				pos: position{line: 1030, col: 5, offset: 31951},
 																				run: (*parser).callonDocumentFragment879,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2881, col: 8, offset: 90932},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2881, col: 9, offset: 90933,
 																		},
 																	},
 																},
@@ -8188,39 +8188,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1045, col: 5, offset: 32200},
+											pos: position{line: 1045, col: 5, offset: 32268},
 											run: (*parser).callonDocumentFragment882,
 											expr: &seqExpr{
-												pos: position{line: 1045, col: 5, offset: 32200},
+												pos: position{line: 1045, col: 5, offset: 32268},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1045, col: 5, offset: 32200},
+														pos:   position{line: 1045, col: 5, offset: 32268},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 797, col: 5, offset: 25599},
+															pos: position{line: 797, col: 5, offset: 25667},
 															run: (*parser).callonDocumentFragment885,
 															expr: &seqExpr{
-																pos: position{line: 797, col: 5, offset: 25599},
+																pos: position{line: 797, col: 5, offset: 25667},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 797, col: 5, offset: 25599},
+																		pos:   position{line: 797, col: 5, offset: 25667},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 797, col: 16, offset: 25610},
+																			pos: position{line: 797, col: 16, offset: 25678},
 																			run: (*parser).callonDocumentFragment888,
 																			expr: &seqExpr{
-																				pos: position{line: 797, col: 16, offset: 25610},
+																				pos: position{line: 797, col: 16, offset: 25678},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 797, col: 16, offset: 25610},
+																						pos:        position{line: 797, col: 16, offset: 25678},
 																						val:        "____",
 																						ignoreCase: false,
 																						want:       "\"____\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 797, col: 23, offset: 25617},
+																						pos: position{line: 797, col: 23, offset: 25685},
 																						expr: &litMatcher{
-																							pos:        position{line: 797, col: 23, offset: 25617},
+																							pos:        position{line: 797, col: 23, offset: 25685},
 																							val:        "_",
 																							ignoreCase: false,
 																							want:       "\"_\"",
@@ -8231,12 +8231,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 799, col: 8, offset: 25701},
+																		pos: position{line: 799, col: 8, offset: 25769},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
+																			pos: position{line: 2862, col: 10, offset: 90584},
 																			run: (*parser).callonDocumentFragment894,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2862, col: 10, offset: 90584},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8245,28 +8245,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2884, col: 8, offset: 90982},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2871, col: 12, offset: 90755},
 																				run: (*parser).callonDocumentFragment897,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2871, col: 13, offset: 90756},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2871, col: 13, offset: 90756},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2871, col: 20, offset: 90763},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2871, col: 29, offset: 90772},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8275,9 +8275,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2881, col: 8, offset: 90932},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2881, col: 9, offset: 90933,
 																				},
 																			},
 																		},
@@ -8287,56 +8287,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1046, col: 5, offset: 32237},
+														pos: position{line: 1046, col: 5, offset: 32305},
 														run: (*parser).callonDocumentFragment904,
 													},
 													&labeledExpr{
-														pos:   position{line: 1049, col: 5, offset: 32329},
+														pos:   position{line: 1049, col: 5, offset: 32397},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1064, col: 4, offset: 32710},
+															pos: position{line: 1064, col: 4, offset: 32778},
 															expr: &actionExpr{
-																pos: position{line: 1064, col: 5, offset: 32711},
+																pos: position{line: 1064, col: 5, offset: 32779},
 																run: (*parser).callonDocumentFragment907,
 																expr: &seqExpr{
-																	pos: position{line: 1064, col: 5, offset: 32711},
+																	pos: position{line: 1064, col: 5, offset: 32779},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1064, col: 5, offset: 32711},
+																			pos: position{line: 1064, col: 5, offset: 32779},
 																			expr: &choiceExpr{
-																				pos: position{line: 1057, col: 5, offset: 32557},
+																				pos: position{line: 1057, col: 5, offset: 32625},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1057, col: 5, offset: 32557},
+																						pos: position{line: 1057, col: 5, offset: 32625},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1057, col: 5, offset: 32557},
+																								pos:   position{line: 1057, col: 5, offset: 32625},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 797, col: 5, offset: 25599},
+																									pos: position{line: 797, col: 5, offset: 25667},
 																									run: (*parser).callonDocumentFragment913,
 																									expr: &seqExpr{
-																										pos: position{line: 797, col: 5, offset: 25599},
+																										pos: position{line: 797, col: 5, offset: 25667},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 797, col: 5, offset: 25599},
+																												pos:   position{line: 797, col: 5, offset: 25667},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 797, col: 16, offset: 25610},
+																													pos: position{line: 797, col: 16, offset: 25678},
 																													run: (*parser).callonDocumentFragment916,
 																													expr: &seqExpr{
-																														pos: position{line: 797, col: 16, offset: 25610},
+																														pos: position{line: 797, col: 16, offset: 25678},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 797, col: 16, offset: 25610},
+																																pos:        position{line: 797, col: 16, offset: 25678},
 																																val:        "____",
 																																ignoreCase: false,
 																																want:       "\"____\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 797, col: 23, offset: 25617},
+																																pos: position{line: 797, col: 23, offset: 25685},
 																																expr: &litMatcher{
-																																	pos:        position{line: 797, col: 23, offset: 25617},
+																																	pos:        position{line: 797, col: 23, offset: 25685},
 																																	val:        "_",
 																																	ignoreCase: false,
 																																	want:       "\"_\"",
@@ -8347,12 +8347,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 799, col: 8, offset: 25701},
+																												pos: position{line: 799, col: 8, offset: 25769},
 																												expr: &actionExpr{
-																													pos: position{line: 2852, col: 10, offset: 90239},
+																													pos: position{line: 2862, col: 10, offset: 90584},
 																													run: (*parser).callonDocumentFragment922,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2852, col: 10, offset: 90239},
+																														pos:        position{line: 2862, col: 10, offset: 90584},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8361,28 +8361,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2874, col: 8, offset: 90637},
+																												pos: position{line: 2884, col: 8, offset: 90982},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2861, col: 12, offset: 90410},
+																														pos: position{line: 2871, col: 12, offset: 90755},
 																														run: (*parser).callonDocumentFragment925,
 																														expr: &choiceExpr{
-																															pos: position{line: 2861, col: 13, offset: 90411},
+																															pos: position{line: 2871, col: 13, offset: 90756},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 13, offset: 90411},
+																																	pos:        position{line: 2871, col: 13, offset: 90756},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 20, offset: 90418},
+																																	pos:        position{line: 2871, col: 20, offset: 90763},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 29, offset: 90427},
+																																	pos:        position{line: 2871, col: 29, offset: 90772},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8391,9 +8391,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2871, col: 8, offset: 90587},
+																														pos: position{line: 2881, col: 8, offset: 90932},
 																														expr: &anyMatcher{
-																															line: 2871, col: 9, offset: 90588,
+																															line: 2881, col: 9, offset: 90933,
 																														},
 																													},
 																												},
@@ -8403,45 +8403,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1058, col: 5, offset: 32586},
+																								pos: position{line: 1058, col: 5, offset: 32654},
 																								run: (*parser).callonDocumentFragment932,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2881, col: 8, offset: 90932},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2881, col: 9, offset: 90933,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1065, col: 5, offset: 32739},
+																			pos:   position{line: 1065, col: 5, offset: 32807},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26093},
+																				pos: position{line: 811, col: 5, offset: 26161},
 																				run: (*parser).callonDocumentFragment936,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26093},
+																					pos: position{line: 811, col: 5, offset: 26161},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2879, col: 11, offset: 90918},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2879, col: 13, offset: 90920,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26168},
+																							pos:   position{line: 812, col: 5, offset: 26236},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2808, col: 13, offset: 89110},
 																								run: (*parser).callonDocumentFragment941,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2798, col: 13, offset: 88765},
+																									pos: position{line: 2808, col: 13, offset: 89110},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2798, col: 13, offset: 88765},
+																										pos:        position{line: 2808, col: 13, offset: 89110},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8451,28 +8451,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2884, col: 8, offset: 90982},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2871, col: 12, offset: 90755},
 																									run: (*parser).callonDocumentFragment945,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2871, col: 13, offset: 90756},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2871, col: 13, offset: 90756},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2871, col: 20, offset: 90763},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2871, col: 29, offset: 90772},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8481,9 +8481,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2881, col: 8, offset: 90932},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2881, col: 9, offset: 90933,
 																									},
 																								},
 																							},
@@ -8498,44 +8498,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1050, col: 5, offset: 32361},
+														pos:   position{line: 1050, col: 5, offset: 32429},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1050, col: 9, offset: 32365},
+															pos: position{line: 1050, col: 9, offset: 32433},
 															expr: &choiceExpr{
-																pos: position{line: 1057, col: 5, offset: 32557},
+																pos: position{line: 1057, col: 5, offset: 32625},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1057, col: 5, offset: 32557},
+																		pos: position{line: 1057, col: 5, offset: 32625},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1057, col: 5, offset: 32557},
+																				pos:   position{line: 1057, col: 5, offset: 32625},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 797, col: 5, offset: 25599},
+																					pos: position{line: 797, col: 5, offset: 25667},
 																					run: (*parser).callonDocumentFragment957,
 																					expr: &seqExpr{
-																						pos: position{line: 797, col: 5, offset: 25599},
+																						pos: position{line: 797, col: 5, offset: 25667},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 797, col: 5, offset: 25599},
+																								pos:   position{line: 797, col: 5, offset: 25667},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 797, col: 16, offset: 25610},
+																									pos: position{line: 797, col: 16, offset: 25678},
 																									run: (*parser).callonDocumentFragment960,
 																									expr: &seqExpr{
-																										pos: position{line: 797, col: 16, offset: 25610},
+																										pos: position{line: 797, col: 16, offset: 25678},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 797, col: 16, offset: 25610},
+																												pos:        position{line: 797, col: 16, offset: 25678},
 																												val:        "____",
 																												ignoreCase: false,
 																												want:       "\"____\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 797, col: 23, offset: 25617},
+																												pos: position{line: 797, col: 23, offset: 25685},
 																												expr: &litMatcher{
-																													pos:        position{line: 797, col: 23, offset: 25617},
+																													pos:        position{line: 797, col: 23, offset: 25685},
 																													val:        "_",
 																													ignoreCase: false,
 																													want:       "\"_\"",
@@ -8546,12 +8546,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 799, col: 8, offset: 25701},
+																								pos: position{line: 799, col: 8, offset: 25769},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2862, col: 10, offset: 90584},
 																									run: (*parser).callonDocumentFragment966,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2862, col: 10, offset: 90584},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8560,28 +8560,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
+																								pos: position{line: 2884, col: 8, offset: 90982},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
+																										pos: position{line: 2871, col: 12, offset: 90755},
 																										run: (*parser).callonDocumentFragment969,
 																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																											pos: position{line: 2871, col: 13, offset: 90756},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
+																													pos:        position{line: 2871, col: 13, offset: 90756},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
+																													pos:        position{line: 2871, col: 20, offset: 90763},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
+																													pos:        position{line: 2871, col: 29, offset: 90772},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8590,9 +8590,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
+																										pos: position{line: 2881, col: 8, offset: 90932},
 																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																											line: 2881, col: 9, offset: 90933,
 																										},
 																									},
 																								},
@@ -8602,15 +8602,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1058, col: 5, offset: 32586},
+																				pos: position{line: 1058, col: 5, offset: 32654},
 																				run: (*parser).callonDocumentFragment976,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2881, col: 8, offset: 90932},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2881, col: 9, offset: 90933,
 																		},
 																	},
 																},
@@ -8621,39 +8621,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1073, col: 5, offset: 32894},
+											pos: position{line: 1073, col: 5, offset: 32962},
 											run: (*parser).callonDocumentFragment979,
 											expr: &seqExpr{
-												pos: position{line: 1073, col: 5, offset: 32894},
+												pos: position{line: 1073, col: 5, offset: 32962},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1073, col: 5, offset: 32894},
+														pos:   position{line: 1073, col: 5, offset: 32962},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 804, col: 5, offset: 25845},
+															pos: position{line: 804, col: 5, offset: 25913},
 															run: (*parser).callonDocumentFragment982,
 															expr: &seqExpr{
-																pos: position{line: 804, col: 5, offset: 25845},
+																pos: position{line: 804, col: 5, offset: 25913},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 804, col: 5, offset: 25845},
+																		pos:   position{line: 804, col: 5, offset: 25913},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 804, col: 16, offset: 25856},
+																			pos: position{line: 804, col: 16, offset: 25924},
 																			run: (*parser).callonDocumentFragment985,
 																			expr: &seqExpr{
-																				pos: position{line: 804, col: 16, offset: 25856},
+																				pos: position{line: 804, col: 16, offset: 25924},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 804, col: 16, offset: 25856},
+																						pos:        position{line: 804, col: 16, offset: 25924},
 																						val:        "****",
 																						ignoreCase: false,
 																						want:       "\"****\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 804, col: 23, offset: 25863},
+																						pos: position{line: 804, col: 23, offset: 25931},
 																						expr: &litMatcher{
-																							pos:        position{line: 804, col: 23, offset: 25863},
+																							pos:        position{line: 804, col: 23, offset: 25931},
 																							val:        "*",
 																							ignoreCase: false,
 																							want:       "\"*\"",
@@ -8664,12 +8664,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 806, col: 8, offset: 25947},
+																		pos: position{line: 806, col: 8, offset: 26015},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
+																			pos: position{line: 2862, col: 10, offset: 90584},
 																			run: (*parser).callonDocumentFragment991,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2862, col: 10, offset: 90584},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8678,28 +8678,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2884, col: 8, offset: 90982},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2871, col: 12, offset: 90755},
 																				run: (*parser).callonDocumentFragment994,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2871, col: 13, offset: 90756},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2871, col: 13, offset: 90756},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2871, col: 20, offset: 90763},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2871, col: 29, offset: 90772},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8708,9 +8708,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2881, col: 8, offset: 90932},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2881, col: 9, offset: 90933,
 																				},
 																			},
 																		},
@@ -8720,56 +8720,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1074, col: 5, offset: 32933},
+														pos: position{line: 1074, col: 5, offset: 33001},
 														run: (*parser).callonDocumentFragment1001,
 													},
 													&labeledExpr{
-														pos:   position{line: 1077, col: 5, offset: 33025},
+														pos:   position{line: 1077, col: 5, offset: 33093},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1092, col: 4, offset: 33422},
+															pos: position{line: 1092, col: 4, offset: 33490},
 															expr: &actionExpr{
-																pos: position{line: 1092, col: 5, offset: 33423},
+																pos: position{line: 1092, col: 5, offset: 33491},
 																run: (*parser).callonDocumentFragment1004,
 																expr: &seqExpr{
-																	pos: position{line: 1092, col: 5, offset: 33423},
+																	pos: position{line: 1092, col: 5, offset: 33491},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1092, col: 5, offset: 33423},
+																			pos: position{line: 1092, col: 5, offset: 33491},
 																			expr: &choiceExpr{
-																				pos: position{line: 1085, col: 5, offset: 33265},
+																				pos: position{line: 1085, col: 5, offset: 33333},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1085, col: 5, offset: 33265},
+																						pos: position{line: 1085, col: 5, offset: 33333},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1085, col: 5, offset: 33265},
+																								pos:   position{line: 1085, col: 5, offset: 33333},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 804, col: 5, offset: 25845},
+																									pos: position{line: 804, col: 5, offset: 25913},
 																									run: (*parser).callonDocumentFragment1010,
 																									expr: &seqExpr{
-																										pos: position{line: 804, col: 5, offset: 25845},
+																										pos: position{line: 804, col: 5, offset: 25913},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 804, col: 5, offset: 25845},
+																												pos:   position{line: 804, col: 5, offset: 25913},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 804, col: 16, offset: 25856},
+																													pos: position{line: 804, col: 16, offset: 25924},
 																													run: (*parser).callonDocumentFragment1013,
 																													expr: &seqExpr{
-																														pos: position{line: 804, col: 16, offset: 25856},
+																														pos: position{line: 804, col: 16, offset: 25924},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 804, col: 16, offset: 25856},
+																																pos:        position{line: 804, col: 16, offset: 25924},
 																																val:        "****",
 																																ignoreCase: false,
 																																want:       "\"****\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 804, col: 23, offset: 25863},
+																																pos: position{line: 804, col: 23, offset: 25931},
 																																expr: &litMatcher{
-																																	pos:        position{line: 804, col: 23, offset: 25863},
+																																	pos:        position{line: 804, col: 23, offset: 25931},
 																																	val:        "*",
 																																	ignoreCase: false,
 																																	want:       "\"*\"",
@@ -8780,12 +8780,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 806, col: 8, offset: 25947},
+																												pos: position{line: 806, col: 8, offset: 26015},
 																												expr: &actionExpr{
-																													pos: position{line: 2852, col: 10, offset: 90239},
+																													pos: position{line: 2862, col: 10, offset: 90584},
 																													run: (*parser).callonDocumentFragment1019,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2852, col: 10, offset: 90239},
+																														pos:        position{line: 2862, col: 10, offset: 90584},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8794,28 +8794,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2874, col: 8, offset: 90637},
+																												pos: position{line: 2884, col: 8, offset: 90982},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2861, col: 12, offset: 90410},
+																														pos: position{line: 2871, col: 12, offset: 90755},
 																														run: (*parser).callonDocumentFragment1022,
 																														expr: &choiceExpr{
-																															pos: position{line: 2861, col: 13, offset: 90411},
+																															pos: position{line: 2871, col: 13, offset: 90756},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 13, offset: 90411},
+																																	pos:        position{line: 2871, col: 13, offset: 90756},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 20, offset: 90418},
+																																	pos:        position{line: 2871, col: 20, offset: 90763},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 29, offset: 90427},
+																																	pos:        position{line: 2871, col: 29, offset: 90772},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8824,9 +8824,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2871, col: 8, offset: 90587},
+																														pos: position{line: 2881, col: 8, offset: 90932},
 																														expr: &anyMatcher{
-																															line: 2871, col: 9, offset: 90588,
+																															line: 2881, col: 9, offset: 90933,
 																														},
 																													},
 																												},
@@ -8836,45 +8836,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1086, col: 5, offset: 33296},
+																								pos: position{line: 1086, col: 5, offset: 33364},
 																								run: (*parser).callonDocumentFragment1029,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2881, col: 8, offset: 90932},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2881, col: 9, offset: 90933,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1093, col: 5, offset: 33453},
+																			pos:   position{line: 1093, col: 5, offset: 33521},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26093},
+																				pos: position{line: 811, col: 5, offset: 26161},
 																				run: (*parser).callonDocumentFragment1033,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26093},
+																					pos: position{line: 811, col: 5, offset: 26161},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2879, col: 11, offset: 90918},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2879, col: 13, offset: 90920,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26168},
+																							pos:   position{line: 812, col: 5, offset: 26236},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2808, col: 13, offset: 89110},
 																								run: (*parser).callonDocumentFragment1038,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2798, col: 13, offset: 88765},
+																									pos: position{line: 2808, col: 13, offset: 89110},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2798, col: 13, offset: 88765},
+																										pos:        position{line: 2808, col: 13, offset: 89110},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8884,28 +8884,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2884, col: 8, offset: 90982},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2871, col: 12, offset: 90755},
 																									run: (*parser).callonDocumentFragment1042,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2871, col: 13, offset: 90756},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2871, col: 13, offset: 90756},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2871, col: 20, offset: 90763},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2871, col: 29, offset: 90772},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8914,9 +8914,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2881, col: 8, offset: 90932},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2881, col: 9, offset: 90933,
 																									},
 																								},
 																							},
@@ -8931,44 +8931,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1078, col: 5, offset: 33059},
+														pos:   position{line: 1078, col: 5, offset: 33127},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1078, col: 9, offset: 33063},
+															pos: position{line: 1078, col: 9, offset: 33131},
 															expr: &choiceExpr{
-																pos: position{line: 1085, col: 5, offset: 33265},
+																pos: position{line: 1085, col: 5, offset: 33333},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1085, col: 5, offset: 33265},
+																		pos: position{line: 1085, col: 5, offset: 33333},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1085, col: 5, offset: 33265},
+																				pos:   position{line: 1085, col: 5, offset: 33333},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 804, col: 5, offset: 25845},
+																					pos: position{line: 804, col: 5, offset: 25913},
 																					run: (*parser).callonDocumentFragment1054,
 																					expr: &seqExpr{
-																						pos: position{line: 804, col: 5, offset: 25845},
+																						pos: position{line: 804, col: 5, offset: 25913},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 804, col: 5, offset: 25845},
+																								pos:   position{line: 804, col: 5, offset: 25913},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 804, col: 16, offset: 25856},
+																									pos: position{line: 804, col: 16, offset: 25924},
 																									run: (*parser).callonDocumentFragment1057,
 																									expr: &seqExpr{
-																										pos: position{line: 804, col: 16, offset: 25856},
+																										pos: position{line: 804, col: 16, offset: 25924},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 804, col: 16, offset: 25856},
+																												pos:        position{line: 804, col: 16, offset: 25924},
 																												val:        "****",
 																												ignoreCase: false,
 																												want:       "\"****\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 804, col: 23, offset: 25863},
+																												pos: position{line: 804, col: 23, offset: 25931},
 																												expr: &litMatcher{
-																													pos:        position{line: 804, col: 23, offset: 25863},
+																													pos:        position{line: 804, col: 23, offset: 25931},
 																													val:        "*",
 																													ignoreCase: false,
 																													want:       "\"*\"",
@@ -8979,12 +8979,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 806, col: 8, offset: 25947},
+																								pos: position{line: 806, col: 8, offset: 26015},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2862, col: 10, offset: 90584},
 																									run: (*parser).callonDocumentFragment1063,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2862, col: 10, offset: 90584},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8993,28 +8993,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
+																								pos: position{line: 2884, col: 8, offset: 90982},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
+																										pos: position{line: 2871, col: 12, offset: 90755},
 																										run: (*parser).callonDocumentFragment1066,
 																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																											pos: position{line: 2871, col: 13, offset: 90756},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
+																													pos:        position{line: 2871, col: 13, offset: 90756},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
+																													pos:        position{line: 2871, col: 20, offset: 90763},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
+																													pos:        position{line: 2871, col: 29, offset: 90772},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -9023,9 +9023,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
+																										pos: position{line: 2881, col: 8, offset: 90932},
 																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																											line: 2881, col: 9, offset: 90933,
 																										},
 																									},
 																								},
@@ -9035,15 +9035,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1086, col: 5, offset: 33296},
+																				pos: position{line: 1086, col: 5, offset: 33364},
 																				run: (*parser).callonDocumentFragment1073,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2881, col: 8, offset: 90932},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2881, col: 9, offset: 90933,
 																		},
 																	},
 																},
@@ -9054,52 +9054,52 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2697, col: 18, offset: 85834},
+											pos: position{line: 2707, col: 18, offset: 86179},
 											run: (*parser).callonDocumentFragment1076,
 											expr: &seqExpr{
-												pos: position{line: 2697, col: 18, offset: 85834},
+												pos: position{line: 2707, col: 18, offset: 86179},
 												exprs: []interface{}{
 													&choiceExpr{
-														pos: position{line: 2698, col: 9, offset: 85844},
+														pos: position{line: 2708, col: 9, offset: 86189},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2698, col: 9, offset: 85844},
+																pos:        position{line: 2708, col: 9, offset: 86189},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2699, col: 11, offset: 85880},
+																pos:        position{line: 2709, col: 11, offset: 86225},
 																val:        "***",
 																ignoreCase: false,
 																want:       "\"***\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2699, col: 19, offset: 85888},
+																pos:        position{line: 2709, col: 19, offset: 86233},
 																val:        "* * *",
 																ignoreCase: false,
 																want:       "\"* * *\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2699, col: 29, offset: 85898},
+																pos:        position{line: 2709, col: 29, offset: 86243},
 																val:        "---",
 																ignoreCase: false,
 																want:       "\"---\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2699, col: 37, offset: 85906},
+																pos:        position{line: 2709, col: 37, offset: 86251},
 																val:        "- - -",
 																ignoreCase: false,
 																want:       "\"- - -\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2699, col: 47, offset: 85916},
+																pos:        position{line: 2709, col: 47, offset: 86261},
 																val:        "___",
 																ignoreCase: false,
 																want:       "\"___\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2699, col: 55, offset: 85924},
+																pos:        position{line: 2709, col: 55, offset: 86269},
 																val:        "_ _ _",
 																ignoreCase: false,
 																want:       "\"_ _ _\"",
@@ -9107,12 +9107,12 @@ var g = &grammar{
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2700, col: 11, offset: 85970},
+														pos: position{line: 2710, col: 11, offset: 86315},
 														expr: &actionExpr{
-															pos: position{line: 2852, col: 10, offset: 90239},
+															pos: position{line: 2862, col: 10, offset: 90584},
 															run: (*parser).callonDocumentFragment1087,
 															expr: &charClassMatcher{
-																pos:        position{line: 2852, col: 10, offset: 90239},
+																pos:        position{line: 2862, col: 10, offset: 90584},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9121,28 +9121,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2874, col: 8, offset: 90637},
+														pos: position{line: 2884, col: 8, offset: 90982},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
+																pos: position{line: 2871, col: 12, offset: 90755},
 																run: (*parser).callonDocumentFragment1090,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2871, col: 13, offset: 90756},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2871, col: 13, offset: 90756},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2871, col: 20, offset: 90763},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2871, col: 29, offset: 90772},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9151,20 +9151,20 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2881, col: 8, offset: 90932},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2881, col: 9, offset: 90933,
 																},
 															},
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2700, col: 22, offset: 85981},
+														pos: position{line: 2710, col: 22, offset: 86326},
 														expr: &actionExpr{
-															pos: position{line: 2852, col: 10, offset: 90239},
+															pos: position{line: 2862, col: 10, offset: 90584},
 															run: (*parser).callonDocumentFragment1098,
 															expr: &charClassMatcher{
-																pos:        position{line: 2852, col: 10, offset: 90239},
+																pos:        position{line: 2862, col: 10, offset: 90584},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9173,28 +9173,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2874, col: 8, offset: 90637},
+														pos: position{line: 2884, col: 8, offset: 90982},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
+																pos: position{line: 2871, col: 12, offset: 90755},
 																run: (*parser).callonDocumentFragment1101,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2871, col: 13, offset: 90756},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2871, col: 13, offset: 90756},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2871, col: 20, offset: 90763},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2871, col: 29, offset: 90772},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9203,9 +9203,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2881, col: 8, offset: 90932},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2881, col: 9, offset: 90933,
 																},
 															},
 														},
@@ -9218,24 +9218,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2588, col: 5, offset: 82770},
+											pos: position{line: 2598, col: 5, offset: 83115},
 											run: (*parser).callonDocumentFragment1109,
 											expr: &seqExpr{
-												pos: position{line: 2588, col: 5, offset: 82770},
+												pos: position{line: 2598, col: 5, offset: 83115},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2594, col: 19, offset: 82927},
+														pos:        position{line: 2604, col: 19, offset: 83272},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2594, col: 26, offset: 82934},
+														pos: position{line: 2604, col: 26, offset: 83279},
 														expr: &actionExpr{
-															pos: position{line: 2852, col: 10, offset: 90239},
+															pos: position{line: 2862, col: 10, offset: 90584},
 															run: (*parser).callonDocumentFragment1113,
 															expr: &charClassMatcher{
-																pos:        position{line: 2852, col: 10, offset: 90239},
+																pos:        position{line: 2862, col: 10, offset: 90584},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9244,28 +9244,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2874, col: 8, offset: 90637},
+														pos: position{line: 2884, col: 8, offset: 90982},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
+																pos: position{line: 2871, col: 12, offset: 90755},
 																run: (*parser).callonDocumentFragment1116,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2871, col: 13, offset: 90756},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2871, col: 13, offset: 90756},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2871, col: 20, offset: 90763},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2871, col: 29, offset: 90772},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9274,40 +9274,40 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2881, col: 8, offset: 90932},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2881, col: 9, offset: 90933,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2589, col: 5, offset: 82794},
+														pos:   position{line: 2599, col: 5, offset: 83139},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2589, col: 11, offset: 82800},
+															pos: position{line: 2599, col: 11, offset: 83145},
 															expr: &choiceExpr{
-																pos: position{line: 2589, col: 12, offset: 82801},
+																pos: position{line: 2599, col: 12, offset: 83146},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 677, col: 14, offset: 21489},
+																		pos: position{line: 677, col: 14, offset: 21557},
 																		run: (*parser).callonDocumentFragment1126,
 																		expr: &seqExpr{
-																			pos: position{line: 677, col: 14, offset: 21489},
+																			pos: position{line: 677, col: 14, offset: 21557},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2869, col: 11, offset: 90573},
+																					pos: position{line: 2879, col: 11, offset: 90918},
 																					expr: &anyMatcher{
-																						line: 2869, col: 13, offset: 90575,
+																						line: 2879, col: 13, offset: 90920,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 677, col: 21, offset: 21496},
+																					pos: position{line: 677, col: 21, offset: 21564},
 																					expr: &actionExpr{
-																						pos: position{line: 2852, col: 10, offset: 90239},
+																						pos: position{line: 2862, col: 10, offset: 90584},
 																						run: (*parser).callonDocumentFragment1131,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2852, col: 10, offset: 90239},
+																							pos:        position{line: 2862, col: 10, offset: 90584},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9316,28 +9316,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2874, col: 8, offset: 90637},
+																					pos: position{line: 2884, col: 8, offset: 90982},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2861, col: 12, offset: 90410},
+																							pos: position{line: 2871, col: 12, offset: 90755},
 																							run: (*parser).callonDocumentFragment1134,
 																							expr: &choiceExpr{
-																								pos: position{line: 2861, col: 13, offset: 90411},
+																								pos: position{line: 2871, col: 13, offset: 90756},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 13, offset: 90411},
+																										pos:        position{line: 2871, col: 13, offset: 90756},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 20, offset: 90418},
+																										pos:        position{line: 2871, col: 20, offset: 90763},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 29, offset: 90427},
+																										pos:        position{line: 2871, col: 29, offset: 90772},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9346,9 +9346,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2871, col: 8, offset: 90587},
+																							pos: position{line: 2881, col: 8, offset: 90932},
 																							expr: &anyMatcher{
-																								line: 2871, col: 9, offset: 90588,
+																								line: 2881, col: 9, offset: 90933,
 																							},
 																						},
 																					},
@@ -9357,32 +9357,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2601, col: 5, offset: 83046},
+																		pos: position{line: 2611, col: 5, offset: 83391},
 																		run: (*parser).callonDocumentFragment1141,
 																		expr: &seqExpr{
-																			pos: position{line: 2601, col: 5, offset: 83046},
+																			pos: position{line: 2611, col: 5, offset: 83391},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2601, col: 5, offset: 83046},
+																					pos: position{line: 2611, col: 5, offset: 83391},
 																					expr: &choiceExpr{
-																						pos: position{line: 2598, col: 22, offset: 83007},
+																						pos: position{line: 2608, col: 22, offset: 83352},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2594, col: 19, offset: 82927},
+																								pos: position{line: 2604, col: 19, offset: 83272},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2594, col: 19, offset: 82927},
+																										pos:        position{line: 2604, col: 19, offset: 83272},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2594, col: 26, offset: 82934},
+																										pos: position{line: 2604, col: 26, offset: 83279},
 																										expr: &actionExpr{
-																											pos: position{line: 2852, col: 10, offset: 90239},
+																											pos: position{line: 2862, col: 10, offset: 90584},
 																											run: (*parser).callonDocumentFragment1148,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2852, col: 10, offset: 90239},
+																												pos:        position{line: 2862, col: 10, offset: 90584},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9391,28 +9391,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2874, col: 8, offset: 90637},
+																										pos: position{line: 2884, col: 8, offset: 90982},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2861, col: 12, offset: 90410},
+																												pos: position{line: 2871, col: 12, offset: 90755},
 																												run: (*parser).callonDocumentFragment1151,
 																												expr: &choiceExpr{
-																													pos: position{line: 2861, col: 13, offset: 90411},
+																													pos: position{line: 2871, col: 13, offset: 90756},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2861, col: 13, offset: 90411},
+																															pos:        position{line: 2871, col: 13, offset: 90756},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2861, col: 20, offset: 90418},
+																															pos:        position{line: 2871, col: 20, offset: 90763},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2861, col: 29, offset: 90427},
+																															pos:        position{line: 2871, col: 29, offset: 90772},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9421,9 +9421,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2871, col: 8, offset: 90587},
+																												pos: position{line: 2881, col: 8, offset: 90932},
 																												expr: &anyMatcher{
-																													line: 2871, col: 9, offset: 90588,
+																													line: 2881, col: 9, offset: 90933,
 																												},
 																											},
 																										},
@@ -9431,59 +9431,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2881, col: 8, offset: 90932},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2881, col: 9, offset: 90933,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2602, col: 5, offset: 83069},
+																					pos:   position{line: 2612, col: 5, offset: 83414},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2603, col: 9, offset: 83087},
+																						pos: position{line: 2613, col: 9, offset: 83432},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2603, col: 10, offset: 83088},
+																								pos: position{line: 2613, col: 10, offset: 83433},
 																								run: (*parser).callonDocumentFragment1162,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2603, col: 10, offset: 83088},
+																									pos:   position{line: 2613, col: 10, offset: 83433},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2603, col: 17, offset: 83095},
+																										pos: position{line: 2613, col: 17, offset: 83440},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2611, col: 21, offset: 83291},
+																												pos: position{line: 2621, col: 21, offset: 83636},
 																												run: (*parser).callonDocumentFragment1165,
 																												expr: &seqExpr{
-																													pos: position{line: 2611, col: 21, offset: 83291},
+																													pos: position{line: 2621, col: 21, offset: 83636},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2611, col: 21, offset: 83291},
+																															pos:   position{line: 2621, col: 21, offset: 83636},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2611, col: 27, offset: 83297},
+																																pos: position{line: 2621, col: 27, offset: 83642},
 																																expr: &actionExpr{
-																																	pos: position{line: 2616, col: 5, offset: 83372},
+																																	pos: position{line: 2626, col: 5, offset: 83717},
 																																	run: (*parser).callonDocumentFragment1169,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2616, col: 5, offset: 83372},
+																																		pos: position{line: 2626, col: 5, offset: 83717},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2616, col: 5, offset: 83372},
+																																				pos:        position{line: 2626, col: 5, offset: 83717},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2616, col: 9, offset: 83376},
+																																				pos: position{line: 2626, col: 9, offset: 83721},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2852, col: 10, offset: 90239},
+																																					pos: position{line: 2862, col: 10, offset: 90584},
 																																					run: (*parser).callonDocumentFragment1173,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2852, col: 10, offset: 90239},
+																																						pos:        position{line: 2862, col: 10, offset: 90584},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9492,21 +9492,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2616, col: 16, offset: 83383},
+																																				pos:   position{line: 2626, col: 16, offset: 83728},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2622, col: 5, offset: 83583},
+																																					pos: position{line: 2632, col: 5, offset: 83928},
 																																					run: (*parser).callonDocumentFragment1176,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2622, col: 5, offset: 83583},
+																																						pos:   position{line: 2632, col: 5, offset: 83928},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2622, col: 14, offset: 83592},
+																																							pos: position{line: 2632, col: 14, offset: 83937},
 																																							run: (*parser).callonDocumentFragment1178,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2622, col: 14, offset: 83592},
+																																								pos: position{line: 2632, col: 14, offset: 83937},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2622, col: 14, offset: 83592},
+																																									pos:        position{line: 2632, col: 14, offset: 83937},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9523,28 +9523,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2874, col: 8, offset: 90637},
+																															pos: position{line: 2884, col: 8, offset: 90982},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2861, col: 12, offset: 90410},
+																																	pos: position{line: 2871, col: 12, offset: 90755},
 																																	run: (*parser).callonDocumentFragment1182,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2861, col: 13, offset: 90411},
+																																		pos: position{line: 2871, col: 13, offset: 90756},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2861, col: 13, offset: 90411},
+																																				pos:        position{line: 2871, col: 13, offset: 90756},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2861, col: 20, offset: 90418},
+																																				pos:        position{line: 2871, col: 20, offset: 90763},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2861, col: 29, offset: 90427},
+																																				pos:        position{line: 2871, col: 29, offset: 90772},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9553,9 +9553,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2871, col: 8, offset: 90587},
+																																	pos: position{line: 2881, col: 8, offset: 90932},
 																																	expr: &anyMatcher{
-																																		line: 2871, col: 9, offset: 90588,
+																																		line: 2881, col: 9, offset: 90933,
 																																	},
 																																},
 																															},
@@ -9564,40 +9564,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2628, col: 24, offset: 83728},
+																												pos: position{line: 2638, col: 24, offset: 84073},
 																												run: (*parser).callonDocumentFragment1189,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2628, col: 24, offset: 83728},
+																													pos:   position{line: 2638, col: 24, offset: 84073},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2628, col: 30, offset: 83734},
+																														pos: position{line: 2638, col: 30, offset: 84079},
 																														expr: &actionExpr{
-																															pos: position{line: 2633, col: 5, offset: 83810},
+																															pos: position{line: 2643, col: 5, offset: 84155},
 																															run: (*parser).callonDocumentFragment1192,
 																															expr: &seqExpr{
-																																pos: position{line: 2633, col: 5, offset: 83810},
+																																pos: position{line: 2643, col: 5, offset: 84155},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2633, col: 5, offset: 83810},
+																																		pos: position{line: 2643, col: 5, offset: 84155},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2598, col: 22, offset: 83007},
+																																			pos: position{line: 2608, col: 22, offset: 83352},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2594, col: 19, offset: 82927},
+																																					pos: position{line: 2604, col: 19, offset: 83272},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2594, col: 19, offset: 82927},
+																																							pos:        position{line: 2604, col: 19, offset: 83272},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2594, col: 26, offset: 82934},
+																																							pos: position{line: 2604, col: 26, offset: 83279},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2852, col: 10, offset: 90239},
+																																								pos: position{line: 2862, col: 10, offset: 90584},
 																																								run: (*parser).callonDocumentFragment1199,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2852, col: 10, offset: 90239},
+																																									pos:        position{line: 2862, col: 10, offset: 90584},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9606,28 +9606,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2874, col: 8, offset: 90637},
+																																							pos: position{line: 2884, col: 8, offset: 90982},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2861, col: 12, offset: 90410},
+																																									pos: position{line: 2871, col: 12, offset: 90755},
 																																									run: (*parser).callonDocumentFragment1202,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2861, col: 13, offset: 90411},
+																																										pos: position{line: 2871, col: 13, offset: 90756},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2861, col: 13, offset: 90411},
+																																												pos:        position{line: 2871, col: 13, offset: 90756},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2861, col: 20, offset: 90418},
+																																												pos:        position{line: 2871, col: 20, offset: 90763},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2861, col: 29, offset: 90427},
+																																												pos:        position{line: 2871, col: 29, offset: 90772},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9636,9 +9636,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2871, col: 8, offset: 90587},
+																																									pos: position{line: 2881, col: 8, offset: 90932},
 																																									expr: &anyMatcher{
-																																										line: 2871, col: 9, offset: 90588,
+																																										line: 2881, col: 9, offset: 90933,
 																																									},
 																																								},
 																																							},
@@ -9646,35 +9646,35 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2871, col: 8, offset: 90587},
+																																					pos: position{line: 2881, col: 8, offset: 90932},
 																																					expr: &anyMatcher{
-																																						line: 2871, col: 9, offset: 90588,
+																																						line: 2881, col: 9, offset: 90933,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2634, col: 5, offset: 83833},
+																																		pos: position{line: 2644, col: 5, offset: 84178},
 																																		expr: &actionExpr{
-																																			pos: position{line: 677, col: 14, offset: 21489},
+																																			pos: position{line: 677, col: 14, offset: 21557},
 																																			run: (*parser).callonDocumentFragment1212,
 																																			expr: &seqExpr{
-																																				pos: position{line: 677, col: 14, offset: 21489},
+																																				pos: position{line: 677, col: 14, offset: 21557},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2869, col: 11, offset: 90573},
+																																						pos: position{line: 2879, col: 11, offset: 90918},
 																																						expr: &anyMatcher{
-																																							line: 2869, col: 13, offset: 90575,
+																																							line: 2879, col: 13, offset: 90920,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 677, col: 21, offset: 21496},
+																																						pos: position{line: 677, col: 21, offset: 21564},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2852, col: 10, offset: 90239},
+																																							pos: position{line: 2862, col: 10, offset: 90584},
 																																							run: (*parser).callonDocumentFragment1217,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2852, col: 10, offset: 90239},
+																																								pos:        position{line: 2862, col: 10, offset: 90584},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9683,28 +9683,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2874, col: 8, offset: 90637},
+																																						pos: position{line: 2884, col: 8, offset: 90982},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2861, col: 12, offset: 90410},
+																																								pos: position{line: 2871, col: 12, offset: 90755},
 																																								run: (*parser).callonDocumentFragment1220,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2861, col: 13, offset: 90411},
+																																									pos: position{line: 2871, col: 13, offset: 90756},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2861, col: 13, offset: 90411},
+																																											pos:        position{line: 2871, col: 13, offset: 90756},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2861, col: 20, offset: 90418},
+																																											pos:        position{line: 2871, col: 20, offset: 90763},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2861, col: 29, offset: 90427},
+																																											pos:        position{line: 2871, col: 29, offset: 90772},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9713,9 +9713,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2871, col: 8, offset: 90587},
+																																								pos: position{line: 2881, col: 8, offset: 90932},
 																																								expr: &anyMatcher{
-																																									line: 2871, col: 9, offset: 90588,
+																																									line: 2881, col: 9, offset: 90933,
 																																								},
 																																							},
 																																						},
@@ -9725,17 +9725,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2635, col: 5, offset: 83848},
+																																		pos:   position{line: 2645, col: 5, offset: 84193},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2635, col: 12, offset: 83855},
+																																			pos: position{line: 2645, col: 12, offset: 84200},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2652, col: 20, offset: 84319},
+																																				pos: position{line: 2662, col: 20, offset: 84664},
 																																				run: (*parser).callonDocumentFragment1229,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2652, col: 20, offset: 84319},
+																																					pos: position{line: 2662, col: 20, offset: 84664},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2652, col: 20, offset: 84319},
+																																						pos:        position{line: 2662, col: 20, offset: 84664},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9746,18 +9746,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2635, col: 31, offset: 83874},
+																																		pos:        position{line: 2645, col: 31, offset: 84219},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2635, col: 35, offset: 83878},
+																																		pos: position{line: 2645, col: 35, offset: 84223},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2852, col: 10, offset: 90239},
+																																			pos: position{line: 2862, col: 10, offset: 90584},
 																																			run: (*parser).callonDocumentFragment1234,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2852, col: 10, offset: 90239},
+																																				pos:        position{line: 2862, col: 10, offset: 90584},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9766,27 +9766,27 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2635, col: 42, offset: 83885},
+																																		pos: position{line: 2645, col: 42, offset: 84230},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2861, col: 12, offset: 90410},
+																																			pos: position{line: 2871, col: 12, offset: 90755},
 																																			run: (*parser).callonDocumentFragment1237,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2861, col: 13, offset: 90411},
+																																				pos: position{line: 2871, col: 13, offset: 90756},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2861, col: 13, offset: 90411},
+																																						pos:        position{line: 2871, col: 13, offset: 90756},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2861, col: 20, offset: 90418},
+																																						pos:        position{line: 2871, col: 20, offset: 90763},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2861, col: 29, offset: 90427},
+																																						pos:        position{line: 2871, col: 29, offset: 90772},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9796,37 +9796,37 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2635, col: 51, offset: 83894},
+																																		pos:   position{line: 2645, col: 51, offset: 84239},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2641, col: 5, offset: 84053},
+																																			pos: position{line: 2651, col: 5, offset: 84398},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2642, col: 9, offset: 84063},
+																																				pos: position{line: 2652, col: 9, offset: 84408},
 																																				run: (*parser).callonDocumentFragment1244,
 																																				expr: &seqExpr{
-																																					pos: position{line: 2642, col: 9, offset: 84063},
+																																					pos: position{line: 2652, col: 9, offset: 84408},
 																																					exprs: []interface{}{
 																																						&notExpr{
-																																							pos: position{line: 2642, col: 9, offset: 84063},
+																																							pos: position{line: 2652, col: 9, offset: 84408},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2598, col: 22, offset: 83007},
+																																								pos: position{line: 2608, col: 22, offset: 83352},
 																																								alternatives: []interface{}{
 																																									&seqExpr{
-																																										pos: position{line: 2594, col: 19, offset: 82927},
+																																										pos: position{line: 2604, col: 19, offset: 83272},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2594, col: 19, offset: 82927},
+																																												pos:        position{line: 2604, col: 19, offset: 83272},
 																																												val:        "|===",
 																																												ignoreCase: false,
 																																												want:       "\"|===\"",
 																																											},
 																																											&zeroOrMoreExpr{
-																																												pos: position{line: 2594, col: 26, offset: 82934},
+																																												pos: position{line: 2604, col: 26, offset: 83279},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2852, col: 10, offset: 90239},
+																																													pos: position{line: 2862, col: 10, offset: 90584},
 																																													run: (*parser).callonDocumentFragment1251,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2852, col: 10, offset: 90239},
+																																														pos:        position{line: 2862, col: 10, offset: 90584},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -9835,28 +9835,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2874, col: 8, offset: 90637},
+																																												pos: position{line: 2884, col: 8, offset: 90982},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2861, col: 12, offset: 90410},
+																																														pos: position{line: 2871, col: 12, offset: 90755},
 																																														run: (*parser).callonDocumentFragment1254,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2861, col: 13, offset: 90411},
+																																															pos: position{line: 2871, col: 13, offset: 90756},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2861, col: 13, offset: 90411},
+																																																	pos:        position{line: 2871, col: 13, offset: 90756},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2861, col: 20, offset: 90418},
+																																																	pos:        position{line: 2871, col: 20, offset: 90763},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2861, col: 29, offset: 90427},
+																																																	pos:        position{line: 2871, col: 29, offset: 90772},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -9865,9 +9865,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2871, col: 8, offset: 90587},
+																																														pos: position{line: 2881, col: 8, offset: 90932},
 																																														expr: &anyMatcher{
-																																															line: 2871, col: 9, offset: 90588,
+																																															line: 2881, col: 9, offset: 90933,
 																																														},
 																																													},
 																																												},
@@ -9875,35 +9875,35 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2871, col: 8, offset: 90587},
+																																										pos: position{line: 2881, col: 8, offset: 90932},
 																																										expr: &anyMatcher{
-																																											line: 2871, col: 9, offset: 90588,
+																																											line: 2881, col: 9, offset: 90933,
 																																										},
 																																									},
 																																								},
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2643, col: 9, offset: 84090},
+																																							pos: position{line: 2653, col: 9, offset: 84435},
 																																							expr: &actionExpr{
-																																								pos: position{line: 677, col: 14, offset: 21489},
+																																								pos: position{line: 677, col: 14, offset: 21557},
 																																								run: (*parser).callonDocumentFragment1264,
 																																								expr: &seqExpr{
-																																									pos: position{line: 677, col: 14, offset: 21489},
+																																									pos: position{line: 677, col: 14, offset: 21557},
 																																									exprs: []interface{}{
 																																										&andExpr{
-																																											pos: position{line: 2869, col: 11, offset: 90573},
+																																											pos: position{line: 2879, col: 11, offset: 90918},
 																																											expr: &anyMatcher{
-																																												line: 2869, col: 13, offset: 90575,
+																																												line: 2879, col: 13, offset: 90920,
 																																											},
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 677, col: 21, offset: 21496},
+																																											pos: position{line: 677, col: 21, offset: 21564},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2852, col: 10, offset: 90239},
+																																												pos: position{line: 2862, col: 10, offset: 90584},
 																																												run: (*parser).callonDocumentFragment1269,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2852, col: 10, offset: 90239},
+																																													pos:        position{line: 2862, col: 10, offset: 90584},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -9912,28 +9912,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2874, col: 8, offset: 90637},
+																																											pos: position{line: 2884, col: 8, offset: 90982},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2861, col: 12, offset: 90410},
+																																													pos: position{line: 2871, col: 12, offset: 90755},
 																																													run: (*parser).callonDocumentFragment1272,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2861, col: 13, offset: 90411},
+																																														pos: position{line: 2871, col: 13, offset: 90756},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																																pos:        position{line: 2871, col: 13, offset: 90756},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																																pos:        position{line: 2871, col: 20, offset: 90763},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																																pos:        position{line: 2871, col: 29, offset: 90772},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -9942,9 +9942,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2871, col: 8, offset: 90587},
+																																													pos: position{line: 2881, col: 8, offset: 90932},
 																																													expr: &anyMatcher{
-																																														line: 2871, col: 9, offset: 90588,
+																																														line: 2881, col: 9, offset: 90933,
 																																													},
 																																												},
 																																											},
@@ -9954,22 +9954,22 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2644, col: 9, offset: 84109},
+																																							pos: position{line: 2654, col: 9, offset: 84454},
 																																							expr: &seqExpr{
-																																								pos: position{line: 2644, col: 11, offset: 84111},
+																																								pos: position{line: 2654, col: 11, offset: 84456},
 																																								exprs: []interface{}{
 																																									&labeledExpr{
-																																										pos:   position{line: 2644, col: 11, offset: 84111},
+																																										pos:   position{line: 2654, col: 11, offset: 84456},
 																																										label: "format",
 																																										expr: &zeroOrOneExpr{
-																																											pos: position{line: 2644, col: 18, offset: 84118},
+																																											pos: position{line: 2654, col: 18, offset: 84463},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2652, col: 20, offset: 84319},
+																																												pos: position{line: 2662, col: 20, offset: 84664},
 																																												run: (*parser).callonDocumentFragment1283,
 																																												expr: &zeroOrMoreExpr{
-																																													pos: position{line: 2652, col: 20, offset: 84319},
+																																													pos: position{line: 2662, col: 20, offset: 84664},
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2652, col: 20, offset: 84319},
+																																														pos:        position{line: 2662, col: 20, offset: 84664},
 																																														val:        "[^ |\\r\\n]",
 																																														chars:      []rune{' ', '|', '\r', '\n'},
 																																														ignoreCase: false,
@@ -9980,7 +9980,7 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2644, col: 37, offset: 84137},
+																																										pos:        position{line: 2654, col: 37, offset: 84482},
 																																										val:        "|",
 																																										ignoreCase: false,
 																																										want:       "\"|\"",
@@ -9989,15 +9989,15 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&labeledExpr{
-																																							pos:   position{line: 2645, col: 9, offset: 84150},
+																																							pos:   position{line: 2655, col: 9, offset: 84495},
 																																							label: "content",
 																																							expr: &actionExpr{
-																																								pos: position{line: 2645, col: 18, offset: 84159},
+																																								pos: position{line: 2655, col: 18, offset: 84504},
 																																								run: (*parser).callonDocumentFragment1288,
 																																								expr: &zeroOrMoreExpr{
-																																									pos: position{line: 2645, col: 18, offset: 84159},
+																																									pos: position{line: 2655, col: 18, offset: 84504},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2645, col: 18, offset: 84159},
+																																										pos:        position{line: 2655, col: 18, offset: 84504},
 																																										val:        "[^|\\r\\n]",
 																																										chars:      []rune{'|', '\r', '\n'},
 																																										ignoreCase: false,
@@ -10007,30 +10007,30 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&zeroOrOneExpr{
-																																							pos: position{line: 2647, col: 12, offset: 84221},
+																																							pos: position{line: 2657, col: 12, offset: 84566},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2874, col: 8, offset: 90637},
+																																								pos: position{line: 2884, col: 8, offset: 90982},
 																																								alternatives: []interface{}{
 																																									&actionExpr{
-																																										pos: position{line: 2861, col: 12, offset: 90410},
+																																										pos: position{line: 2871, col: 12, offset: 90755},
 																																										run: (*parser).callonDocumentFragment1293,
 																																										expr: &choiceExpr{
-																																											pos: position{line: 2861, col: 13, offset: 90411},
+																																											pos: position{line: 2871, col: 13, offset: 90756},
 																																											alternatives: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2861, col: 13, offset: 90411},
+																																													pos:        position{line: 2871, col: 13, offset: 90756},
 																																													val:        "\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2861, col: 20, offset: 90418},
+																																													pos:        position{line: 2871, col: 20, offset: 90763},
 																																													val:        "\r\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2861, col: 29, offset: 90427},
+																																													pos:        position{line: 2871, col: 29, offset: 90772},
 																																													val:        "\r",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\"",
@@ -10039,9 +10039,9 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2871, col: 8, offset: 90587},
+																																										pos: position{line: 2881, col: 8, offset: 90932},
 																																										expr: &anyMatcher{
-																																											line: 2871, col: 9, offset: 90588,
+																																											line: 2881, col: 9, offset: 90933,
 																																										},
 																																									},
 																																								},
@@ -10063,24 +10063,24 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 677, col: 14, offset: 21489},
+																								pos: position{line: 677, col: 14, offset: 21557},
 																								run: (*parser).callonDocumentFragment1300,
 																								expr: &seqExpr{
-																									pos: position{line: 677, col: 14, offset: 21489},
+																									pos: position{line: 677, col: 14, offset: 21557},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2869, col: 11, offset: 90573},
+																											pos: position{line: 2879, col: 11, offset: 90918},
 																											expr: &anyMatcher{
-																												line: 2869, col: 13, offset: 90575,
+																												line: 2879, col: 13, offset: 90920,
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 677, col: 21, offset: 21496},
+																											pos: position{line: 677, col: 21, offset: 21564},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
+																												pos: position{line: 2862, col: 10, offset: 90584},
 																												run: (*parser).callonDocumentFragment1305,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2862, col: 10, offset: 90584},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -10089,28 +10089,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2884, col: 8, offset: 90982},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
+																													pos: position{line: 2871, col: 12, offset: 90755},
 																													run: (*parser).callonDocumentFragment1308,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2871, col: 13, offset: 90756},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2871, col: 13, offset: 90756},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2871, col: 20, offset: 90763},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2871, col: 29, offset: 90772},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -10119,9 +10119,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2881, col: 8, offset: 90932},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2881, col: 9, offset: 90933,
 																													},
 																												},
 																											},
@@ -10140,24 +10140,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2598, col: 22, offset: 83007},
+														pos: position{line: 2608, col: 22, offset: 83352},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2594, col: 19, offset: 82927},
+																pos: position{line: 2604, col: 19, offset: 83272},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2594, col: 19, offset: 82927},
+																		pos:        position{line: 2604, col: 19, offset: 83272},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2594, col: 26, offset: 82934},
+																		pos: position{line: 2604, col: 26, offset: 83279},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
+																			pos: position{line: 2862, col: 10, offset: 90584},
 																			run: (*parser).callonDocumentFragment1319,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2862, col: 10, offset: 90584},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10166,28 +10166,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2884, col: 8, offset: 90982},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2871, col: 12, offset: 90755},
 																				run: (*parser).callonDocumentFragment1322,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2871, col: 13, offset: 90756},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2871, col: 13, offset: 90756},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2871, col: 20, offset: 90763},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2871, col: 29, offset: 90772},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10196,9 +10196,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2881, col: 8, offset: 90932},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2881, col: 9, offset: 90933,
 																				},
 																			},
 																		},
@@ -10206,9 +10206,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2881, col: 8, offset: 90932},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2881, col: 9, offset: 90933,
 																},
 															},
 														},
@@ -10217,36 +10217,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2462, col: 22, offset: 79217},
+											pos: position{line: 2472, col: 22, offset: 79562},
 											run: (*parser).callonDocumentFragment1331,
 											expr: &seqExpr{
-												pos: position{line: 2462, col: 22, offset: 79217},
+												pos: position{line: 2472, col: 22, offset: 79562},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2467, col: 31, offset: 79438},
+														pos:        position{line: 2477, col: 31, offset: 79783},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2467, col: 36, offset: 79443},
+														pos: position{line: 2477, col: 36, offset: 79788},
 														expr: &litMatcher{
-															pos:        position{line: 2467, col: 37, offset: 79444},
+															pos:        position{line: 2477, col: 37, offset: 79789},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2462, col: 49, offset: 79244},
+														pos:   position{line: 2472, col: 49, offset: 79589},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2798, col: 13, offset: 88765},
+															pos: position{line: 2808, col: 13, offset: 89110},
 															run: (*parser).callonDocumentFragment1337,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2798, col: 13, offset: 88765},
+																pos: position{line: 2808, col: 13, offset: 89110},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2798, col: 13, offset: 88765},
+																	pos:        position{line: 2808, col: 13, offset: 89110},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10256,28 +10256,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2874, col: 8, offset: 90637},
+														pos: position{line: 2884, col: 8, offset: 90982},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
+																pos: position{line: 2871, col: 12, offset: 90755},
 																run: (*parser).callonDocumentFragment1341,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2871, col: 13, offset: 90756},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2871, col: 13, offset: 90756},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2871, col: 20, offset: 90763},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2871, col: 29, offset: 90772},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10286,9 +10286,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2881, col: 8, offset: 90932},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2881, col: 9, offset: 90933,
 																},
 															},
 														},
@@ -10297,37 +10297,37 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1222, col: 5, offset: 37823},
+											pos: position{line: 1222, col: 5, offset: 37891},
 											run: (*parser).callonDocumentFragment1348,
 											expr: &seqExpr{
-												pos: position{line: 1222, col: 5, offset: 37823},
+												pos: position{line: 1222, col: 5, offset: 37891},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 1222, col: 5, offset: 37823},
+														pos: position{line: 1222, col: 5, offset: 37891},
 														run: (*parser).callonDocumentFragment1350,
 													},
 													&labeledExpr{
-														pos:   position{line: 1225, col: 5, offset: 37881},
+														pos:   position{line: 1225, col: 5, offset: 37949},
 														label: "frontmatter",
 														expr: &actionExpr{
-															pos: position{line: 1230, col: 20, offset: 37976},
+															pos: position{line: 1230, col: 20, offset: 38044},
 															run: (*parser).callonDocumentFragment1352,
 															expr: &seqExpr{
-																pos: position{line: 1230, col: 20, offset: 37976},
+																pos: position{line: 1230, col: 20, offset: 38044},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1234, col: 30, offset: 38196},
+																		pos:        position{line: 1234, col: 30, offset: 38264},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1234, col: 36, offset: 38202},
+																		pos: position{line: 1234, col: 36, offset: 38270},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
+																			pos: position{line: 2862, col: 10, offset: 90584},
 																			run: (*parser).callonDocumentFragment1356,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2862, col: 10, offset: 90584},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10336,28 +10336,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2884, col: 8, offset: 90982},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2871, col: 12, offset: 90755},
 																				run: (*parser).callonDocumentFragment1359,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2871, col: 13, offset: 90756},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2871, col: 13, offset: 90756},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2871, col: 20, offset: 90763},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2871, col: 29, offset: 90772},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10366,46 +10366,46 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2881, col: 8, offset: 90932},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2881, col: 9, offset: 90933,
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1230, col: 45, offset: 38001},
+																		pos:   position{line: 1230, col: 45, offset: 38069},
 																		label: "content",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 1230, col: 53, offset: 38009},
+																			pos: position{line: 1230, col: 53, offset: 38077},
 																			expr: &actionExpr{
-																				pos: position{line: 1236, col: 27, offset: 38240},
+																				pos: position{line: 1236, col: 27, offset: 38308},
 																				run: (*parser).callonDocumentFragment1368,
 																				expr: &zeroOrMoreExpr{
-																					pos: position{line: 1236, col: 27, offset: 38240},
+																					pos: position{line: 1236, col: 27, offset: 38308},
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1236, col: 28, offset: 38241},
+																						pos: position{line: 1236, col: 28, offset: 38309},
 																						expr: &seqExpr{
-																							pos: position{line: 1236, col: 29, offset: 38242},
+																							pos: position{line: 1236, col: 29, offset: 38310},
 																							exprs: []interface{}{
 																								&notExpr{
-																									pos: position{line: 1236, col: 29, offset: 38242},
+																									pos: position{line: 1236, col: 29, offset: 38310},
 																									expr: &seqExpr{
-																										pos: position{line: 1234, col: 30, offset: 38196},
+																										pos: position{line: 1234, col: 30, offset: 38264},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 1234, col: 30, offset: 38196},
+																												pos:        position{line: 1234, col: 30, offset: 38264},
 																												val:        "---",
 																												ignoreCase: false,
 																												want:       "\"---\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 1234, col: 36, offset: 38202},
+																												pos: position{line: 1234, col: 36, offset: 38270},
 																												expr: &actionExpr{
-																													pos: position{line: 2852, col: 10, offset: 90239},
+																													pos: position{line: 2862, col: 10, offset: 90584},
 																													run: (*parser).callonDocumentFragment1376,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2852, col: 10, offset: 90239},
+																														pos:        position{line: 2862, col: 10, offset: 90584},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -10414,28 +10414,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2874, col: 8, offset: 90637},
+																												pos: position{line: 2884, col: 8, offset: 90982},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2861, col: 12, offset: 90410},
+																														pos: position{line: 2871, col: 12, offset: 90755},
 																														run: (*parser).callonDocumentFragment1379,
 																														expr: &choiceExpr{
-																															pos: position{line: 2861, col: 13, offset: 90411},
+																															pos: position{line: 2871, col: 13, offset: 90756},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 13, offset: 90411},
+																																	pos:        position{line: 2871, col: 13, offset: 90756},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 20, offset: 90418},
+																																	pos:        position{line: 2871, col: 20, offset: 90763},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 29, offset: 90427},
+																																	pos:        position{line: 2871, col: 29, offset: 90772},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -10444,9 +10444,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2871, col: 8, offset: 90587},
+																														pos: position{line: 2881, col: 8, offset: 90932},
 																														expr: &anyMatcher{
-																															line: 2871, col: 9, offset: 90588,
+																															line: 2881, col: 9, offset: 90933,
 																														},
 																													},
 																												},
@@ -10455,7 +10455,7 @@ var g = &grammar{
 																									},
 																								},
 																								&anyMatcher{
-																									line: 1236, col: 55, offset: 38268,
+																									line: 1236, col: 55, offset: 38336,
 																								},
 																							},
 																						},
@@ -10465,18 +10465,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1234, col: 30, offset: 38196},
+																		pos:        position{line: 1234, col: 30, offset: 38264},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1234, col: 36, offset: 38202},
+																		pos: position{line: 1234, col: 36, offset: 38270},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
+																			pos: position{line: 2862, col: 10, offset: 90584},
 																			run: (*parser).callonDocumentFragment1389,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2862, col: 10, offset: 90584},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10485,28 +10485,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2884, col: 8, offset: 90982},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2871, col: 12, offset: 90755},
 																				run: (*parser).callonDocumentFragment1392,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2871, col: 13, offset: 90756},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2871, col: 13, offset: 90756},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2871, col: 20, offset: 90763},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2871, col: 29, offset: 90772},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10515,15 +10515,15 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2881, col: 8, offset: 90932},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2881, col: 9, offset: 90933,
 																				},
 																			},
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1230, col: 104, offset: 38060},
+																		pos: position{line: 1230, col: 104, offset: 38128},
 																		run: (*parser).callonDocumentFragment1399,
 																	},
 																},
@@ -10571,27 +10571,27 @@ var g = &grammar{
 									pos: position{line: 282, col: 9, offset: 8388},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 1198, col: 23, offset: 36977},
+											pos: position{line: 1198, col: 23, offset: 37045},
 											run: (*parser).callonDelimitedBlockElements7,
 											expr: &seqExpr{
-												pos: position{line: 1198, col: 23, offset: 36977},
+												pos: position{line: 1198, col: 23, offset: 37045},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 1196, col: 32, offset: 36945},
+														pos:        position{line: 1196, col: 32, offset: 37013},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 1198, col: 51, offset: 37005},
+														pos:   position{line: 1198, col: 51, offset: 37073},
 														label: "ref",
 														expr: &actionExpr{
-															pos: position{line: 1198, col: 56, offset: 37010},
+															pos: position{line: 1198, col: 56, offset: 37078},
 															run: (*parser).callonDelimitedBlockElements11,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 1198, col: 56, offset: 37010},
+																pos: position{line: 1198, col: 56, offset: 37078},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1198, col: 56, offset: 37010},
+																	pos:        position{line: 1198, col: 56, offset: 37078},
 																	val:        "[0-9]",
 																	ranges:     []rune{'0', '9'},
 																	ignoreCase: false,
@@ -10601,7 +10601,7 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 1196, col: 32, offset: 36945},
+														pos:        position{line: 1196, col: 32, offset: 37013},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
@@ -10618,9 +10618,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2871, col: 8, offset: 90587},
+							pos: position{line: 2881, col: 8, offset: 90932},
 							expr: &anyMatcher{
-								line: 2871, col: 9, offset: 90588,
+								line: 2881, col: 9, offset: 90933,
 							},
 						},
 					},
@@ -10692,12 +10692,12 @@ var g = &grammar{
 										pos: position{line: 305, col: 9, offset: 9232},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2856, col: 11, offset: 90300},
+												pos: position{line: 2866, col: 11, offset: 90645},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2856, col: 11, offset: 90300},
+													pos: position{line: 2866, col: 11, offset: 90645},
 													expr: &charClassMatcher{
-														pos:        position{line: 2856, col: 11, offset: 90300},
+														pos:        position{line: 2866, col: 11, offset: 90645},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10721,10 +10721,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 310, col: 5, offset: 9412},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2862, col: 10, offset: 90584},
 								run: (*parser).callonAttributeDeclaration21,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2862, col: 10, offset: 90584},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -10733,28 +10733,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2874, col: 8, offset: 90637},
+							pos: position{line: 2884, col: 8, offset: 90982},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2861, col: 12, offset: 90410},
+									pos: position{line: 2871, col: 12, offset: 90755},
 									run: (*parser).callonAttributeDeclaration24,
 									expr: &choiceExpr{
-										pos: position{line: 2861, col: 13, offset: 90411},
+										pos: position{line: 2871, col: 13, offset: 90756},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2861, col: 13, offset: 90411},
+												pos:        position{line: 2871, col: 13, offset: 90756},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 20, offset: 90418},
+												pos:        position{line: 2871, col: 20, offset: 90763},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 29, offset: 90427},
+												pos:        position{line: 2871, col: 29, offset: 90772},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10763,9 +10763,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2871, col: 8, offset: 90587},
+									pos: position{line: 2881, col: 8, offset: 90932},
 									expr: &anyMatcher{
-										line: 2871, col: 9, offset: 90588,
+										line: 2881, col: 9, offset: 90933,
 									},
 								},
 							},
@@ -10811,10 +10811,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 325, col: 14, offset: 9909},
 												expr: &actionExpr{
-													pos: position{line: 2852, col: 10, offset: 90239},
+													pos: position{line: 2862, col: 10, offset: 90584},
 													run: (*parser).callonAttributeDeclarationValue11,
 													expr: &charClassMatcher{
-														pos:        position{line: 2852, col: 10, offset: 90239},
+														pos:        position{line: 2862, col: 10, offset: 90584},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10823,25 +10823,25 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 2861, col: 12, offset: 90410},
+												pos: position{line: 2871, col: 12, offset: 90755},
 												run: (*parser).callonAttributeDeclarationValue13,
 												expr: &choiceExpr{
-													pos: position{line: 2861, col: 13, offset: 90411},
+													pos: position{line: 2871, col: 13, offset: 90756},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2861, col: 13, offset: 90411},
+															pos:        position{line: 2871, col: 13, offset: 90756},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2861, col: 20, offset: 90418},
+															pos:        position{line: 2871, col: 20, offset: 90763},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2861, col: 29, offset: 90427},
+															pos:        position{line: 2871, col: 29, offset: 90772},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10852,10 +10852,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 326, col: 9, offset: 9933},
 												expr: &actionExpr{
-													pos: position{line: 2852, col: 10, offset: 90239},
+													pos: position{line: 2862, col: 10, offset: 90584},
 													run: (*parser).callonAttributeDeclarationValue19,
 													expr: &charClassMatcher{
-														pos:        position{line: 2852, col: 10, offset: 90239},
+														pos:        position{line: 2862, col: 10, offset: 90584},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10925,10 +10925,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 344, col: 13, offset: 10478},
 										expr: &actionExpr{
-											pos: position{line: 2852, col: 10, offset: 90239},
+											pos: position{line: 2862, col: 10, offset: 90584},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2852, col: 10, offset: 90239},
+												pos:        position{line: 2862, col: 10, offset: 90584},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10937,28 +10937,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2874, col: 8, offset: 90637},
+										pos: position{line: 2884, col: 8, offset: 90982},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2861, col: 12, offset: 90410},
+												pos: position{line: 2871, col: 12, offset: 90755},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2861, col: 13, offset: 90411},
+													pos: position{line: 2871, col: 13, offset: 90756},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2861, col: 13, offset: 90411},
+															pos:        position{line: 2871, col: 13, offset: 90756},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2861, col: 20, offset: 90418},
+															pos:        position{line: 2871, col: 20, offset: 90763},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2861, col: 29, offset: 90427},
+															pos:        position{line: 2871, col: 29, offset: 90772},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10967,9 +10967,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2871, col: 8, offset: 90587},
+												pos: position{line: 2881, col: 8, offset: 90932},
 												expr: &anyMatcher{
-													line: 2871, col: 9, offset: 90588,
+													line: 2881, col: 9, offset: 90933,
 												},
 											},
 										},
@@ -11002,23 +11002,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2449, col: 5, offset: 78763},
+										pos: position{line: 2459, col: 5, offset: 79108},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2449, col: 5, offset: 78763},
+											pos: position{line: 2459, col: 5, offset: 79108},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2449, col: 5, offset: 78763},
+													pos: position{line: 2459, col: 5, offset: 79108},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2452, col: 5, offset: 78839},
+													pos:   position{line: 2462, col: 5, offset: 79184},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2453, col: 9, offset: 78857},
+														pos: position{line: 2463, col: 9, offset: 79202},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2453, col: 10, offset: 78858},
+															pos:        position{line: 2463, col: 10, offset: 79203},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -11030,10 +11030,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2852, col: 10, offset: 90239},
+										pos: position{line: 2862, col: 10, offset: 90584},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2852, col: 10, offset: 90239},
+											pos:        position{line: 2862, col: 10, offset: 90584},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -11041,35 +11041,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 636, col: 5, offset: 20109},
+										pos: position{line: 636, col: 5, offset: 20177},
 										run: (*parser).callonAttributeDeclarationValueElement32,
 										expr: &seqExpr{
-											pos: position{line: 636, col: 5, offset: 20109},
+											pos: position{line: 636, col: 5, offset: 20177},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 636, col: 5, offset: 20109},
+													pos: position{line: 636, col: 5, offset: 20177},
 													run: (*parser).callonAttributeDeclarationValueElement34,
 												},
 												&labeledExpr{
-													pos:   position{line: 639, col: 5, offset: 20181},
+													pos:   position{line: 639, col: 5, offset: 20249},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 639, col: 14, offset: 20190},
+														pos: position{line: 639, col: 14, offset: 20258},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 645, col: 5, offset: 20319},
+																pos: position{line: 645, col: 5, offset: 20387},
 																run: (*parser).callonAttributeDeclarationValueElement37,
 																expr: &seqExpr{
-																	pos: position{line: 645, col: 5, offset: 20319},
+																	pos: position{line: 645, col: 5, offset: 20387},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 645, col: 5, offset: 20319},
+																			pos:        position{line: 645, col: 5, offset: 20387},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 645, col: 13, offset: 20327},
+																			pos:   position{line: 645, col: 13, offset: 20395},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9729},
@@ -11101,7 +11101,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 645, col: 32, offset: 20346},
+																			pos:        position{line: 645, col: 32, offset: 20414},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11110,19 +11110,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 652, col: 5, offset: 20587},
+																pos: position{line: 652, col: 5, offset: 20655},
 																run: (*parser).callonAttributeDeclarationValueElement47,
 																expr: &seqExpr{
-																	pos: position{line: 652, col: 5, offset: 20587},
+																	pos: position{line: 652, col: 5, offset: 20655},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 652, col: 5, offset: 20587},
+																			pos:        position{line: 652, col: 5, offset: 20655},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 652, col: 9, offset: 20591},
+																			pos:   position{line: 652, col: 9, offset: 20659},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9729},
@@ -11154,7 +11154,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 652, col: 28, offset: 20610},
+																			pos:        position{line: 652, col: 28, offset: 20678},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11163,19 +11163,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 658, col: 25, offset: 20791},
+																pos: position{line: 658, col: 25, offset: 20859},
 																run: (*parser).callonAttributeDeclarationValueElement57,
 																expr: &seqExpr{
-																	pos: position{line: 658, col: 25, offset: 20791},
+																	pos: position{line: 658, col: 25, offset: 20859},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 658, col: 25, offset: 20791},
+																			pos:        position{line: 658, col: 25, offset: 20859},
 																			val:        "{counter:",
 																			ignoreCase: false,
 																			want:       "\"{counter:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 658, col: 37, offset: 20803},
+																			pos:   position{line: 658, col: 37, offset: 20871},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9729},
@@ -11207,33 +11207,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 658, col: 56, offset: 20822},
+																			pos:   position{line: 658, col: 56, offset: 20890},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 658, col: 62, offset: 20828},
+																				pos: position{line: 658, col: 62, offset: 20896},
 																				expr: &actionExpr{
-																					pos: position{line: 666, col: 17, offset: 21123},
+																					pos: position{line: 666, col: 17, offset: 21191},
 																					run: (*parser).callonAttributeDeclarationValueElement68,
 																					expr: &seqExpr{
-																						pos: position{line: 666, col: 17, offset: 21123},
+																						pos: position{line: 666, col: 17, offset: 21191},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 666, col: 17, offset: 21123},
+																								pos:        position{line: 666, col: 17, offset: 21191},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 666, col: 21, offset: 21127},
+																								pos:   position{line: 666, col: 21, offset: 21195},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 666, col: 28, offset: 21134},
+																									pos: position{line: 666, col: 28, offset: 21202},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 666, col: 28, offset: 21134},
+																											pos: position{line: 666, col: 28, offset: 21202},
 																											run: (*parser).callonAttributeDeclarationValueElement73,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 666, col: 28, offset: 21134},
+																												pos:        position{line: 666, col: 28, offset: 21202},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -11241,12 +11241,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 668, col: 9, offset: 21188},
+																											pos: position{line: 668, col: 9, offset: 21256},
 																											run: (*parser).callonAttributeDeclarationValueElement75,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 668, col: 9, offset: 21188},
+																												pos: position{line: 668, col: 9, offset: 21256},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 668, col: 9, offset: 21188},
+																													pos:        position{line: 668, col: 9, offset: 21256},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -11263,7 +11263,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 658, col: 78, offset: 20844},
+																			pos:        position{line: 658, col: 78, offset: 20912},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11272,19 +11272,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 662, col: 25, offset: 20962},
+																pos: position{line: 662, col: 25, offset: 21030},
 																run: (*parser).callonAttributeDeclarationValueElement79,
 																expr: &seqExpr{
-																	pos: position{line: 662, col: 25, offset: 20962},
+																	pos: position{line: 662, col: 25, offset: 21030},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 662, col: 25, offset: 20962},
+																			pos:        position{line: 662, col: 25, offset: 21030},
 																			val:        "{counter2:",
 																			ignoreCase: false,
 																			want:       "\"{counter2:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 662, col: 38, offset: 20975},
+																			pos:   position{line: 662, col: 38, offset: 21043},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9729},
@@ -11316,33 +11316,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 662, col: 57, offset: 20994},
+																			pos:   position{line: 662, col: 57, offset: 21062},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 662, col: 63, offset: 21000},
+																				pos: position{line: 662, col: 63, offset: 21068},
 																				expr: &actionExpr{
-																					pos: position{line: 666, col: 17, offset: 21123},
+																					pos: position{line: 666, col: 17, offset: 21191},
 																					run: (*parser).callonAttributeDeclarationValueElement90,
 																					expr: &seqExpr{
-																						pos: position{line: 666, col: 17, offset: 21123},
+																						pos: position{line: 666, col: 17, offset: 21191},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 666, col: 17, offset: 21123},
+																								pos:        position{line: 666, col: 17, offset: 21191},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 666, col: 21, offset: 21127},
+																								pos:   position{line: 666, col: 21, offset: 21195},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 666, col: 28, offset: 21134},
+																									pos: position{line: 666, col: 28, offset: 21202},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 666, col: 28, offset: 21134},
+																											pos: position{line: 666, col: 28, offset: 21202},
 																											run: (*parser).callonAttributeDeclarationValueElement95,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 666, col: 28, offset: 21134},
+																												pos:        position{line: 666, col: 28, offset: 21202},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -11350,12 +11350,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 668, col: 9, offset: 21188},
+																											pos: position{line: 668, col: 9, offset: 21256},
 																											run: (*parser).callonAttributeDeclarationValueElement97,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 668, col: 9, offset: 21188},
+																												pos: position{line: 668, col: 9, offset: 21256},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 668, col: 9, offset: 21188},
+																													pos:        position{line: 668, col: 9, offset: 21256},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -11372,7 +11372,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 662, col: 79, offset: 21016},
+																			pos:        position{line: 662, col: 79, offset: 21084},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11417,38 +11417,38 @@ var g = &grammar{
 												pos:   position{line: 372, col: 10, offset: 11462},
 												label: "anchor",
 												expr: &actionExpr{
-													pos: position{line: 404, col: 5, offset: 12337},
+													pos: position{line: 404, col: 5, offset: 12405},
 													run: (*parser).callonBlockAttributes8,
 													expr: &seqExpr{
-														pos: position{line: 404, col: 5, offset: 12337},
+														pos: position{line: 404, col: 5, offset: 12405},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 404, col: 5, offset: 12337},
+																pos:        position{line: 404, col: 5, offset: 12405},
 																val:        "[[",
 																ignoreCase: false,
 																want:       "\"[[\"",
 															},
 															&labeledExpr{
-																pos:   position{line: 405, col: 5, offset: 12347},
+																pos:   position{line: 405, col: 5, offset: 12415},
 																label: "id",
 																expr: &actionExpr{
-																	pos: position{line: 406, col: 9, offset: 12360},
+																	pos: position{line: 406, col: 9, offset: 12428},
 																	run: (*parser).callonBlockAttributes12,
 																	expr: &labeledExpr{
-																		pos:   position{line: 406, col: 9, offset: 12360},
+																		pos:   position{line: 406, col: 9, offset: 12428},
 																		label: "elements",
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 406, col: 18, offset: 12369},
+																			pos: position{line: 406, col: 18, offset: 12437},
 																			expr: &choiceExpr{
-																				pos: position{line: 407, col: 13, offset: 12383},
+																				pos: position{line: 407, col: 13, offset: 12451},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 407, col: 14, offset: 12384},
+																						pos: position{line: 407, col: 14, offset: 12452},
 																						run: (*parser).callonBlockAttributes16,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 407, col: 14, offset: 12384},
+																							pos: position{line: 407, col: 14, offset: 12452},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 407, col: 14, offset: 12384},
+																								pos:        position{line: 407, col: 14, offset: 12452},
 																								val:        "[^=\\r\\n�{]]",
 																								chars:      []rune{'=', '\r', '\n', '�', '{', ']'},
 																								ignoreCase: false,
@@ -11457,27 +11457,27 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1198, col: 23, offset: 36977},
+																						pos: position{line: 1198, col: 23, offset: 37045},
 																						run: (*parser).callonBlockAttributes19,
 																						expr: &seqExpr{
-																							pos: position{line: 1198, col: 23, offset: 36977},
+																							pos: position{line: 1198, col: 23, offset: 37045},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1196, col: 32, offset: 36945},
+																									pos:        position{line: 1196, col: 32, offset: 37013},
 																									val:        "�",
 																									ignoreCase: false,
 																									want:       "\"�\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1198, col: 51, offset: 37005},
+																									pos:   position{line: 1198, col: 51, offset: 37073},
 																									label: "ref",
 																									expr: &actionExpr{
-																										pos: position{line: 1198, col: 56, offset: 37010},
+																										pos: position{line: 1198, col: 56, offset: 37078},
 																										run: (*parser).callonBlockAttributes23,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1198, col: 56, offset: 37010},
+																											pos: position{line: 1198, col: 56, offset: 37078},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1198, col: 56, offset: 37010},
+																												pos:        position{line: 1198, col: 56, offset: 37078},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -11487,7 +11487,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1196, col: 32, offset: 36945},
+																									pos:        position{line: 1196, col: 32, offset: 37013},
 																									val:        "�",
 																									ignoreCase: false,
 																									want:       "\"�\"",
@@ -11496,35 +11496,35 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 636, col: 5, offset: 20109},
+																						pos: position{line: 636, col: 5, offset: 20177},
 																						run: (*parser).callonBlockAttributes27,
 																						expr: &seqExpr{
-																							pos: position{line: 636, col: 5, offset: 20109},
+																							pos: position{line: 636, col: 5, offset: 20177},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 636, col: 5, offset: 20109},
+																									pos: position{line: 636, col: 5, offset: 20177},
 																									run: (*parser).callonBlockAttributes29,
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 639, col: 5, offset: 20181},
+																									pos:   position{line: 639, col: 5, offset: 20249},
 																									label: "element",
 																									expr: &choiceExpr{
-																										pos: position{line: 639, col: 14, offset: 20190},
+																										pos: position{line: 639, col: 14, offset: 20258},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 645, col: 5, offset: 20319},
+																												pos: position{line: 645, col: 5, offset: 20387},
 																												run: (*parser).callonBlockAttributes32,
 																												expr: &seqExpr{
-																													pos: position{line: 645, col: 5, offset: 20319},
+																													pos: position{line: 645, col: 5, offset: 20387},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 645, col: 5, offset: 20319},
+																															pos:        position{line: 645, col: 5, offset: 20387},
 																															val:        "\\{",
 																															ignoreCase: false,
 																															want:       "\"\\\\{\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 645, col: 13, offset: 20327},
+																															pos:   position{line: 645, col: 13, offset: 20395},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 318, col: 18, offset: 9729},
@@ -11556,7 +11556,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 645, col: 32, offset: 20346},
+																															pos:        position{line: 645, col: 32, offset: 20414},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11565,19 +11565,19 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 652, col: 5, offset: 20587},
+																												pos: position{line: 652, col: 5, offset: 20655},
 																												run: (*parser).callonBlockAttributes42,
 																												expr: &seqExpr{
-																													pos: position{line: 652, col: 5, offset: 20587},
+																													pos: position{line: 652, col: 5, offset: 20655},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 652, col: 5, offset: 20587},
+																															pos:        position{line: 652, col: 5, offset: 20655},
 																															val:        "{",
 																															ignoreCase: false,
 																															want:       "\"{\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 652, col: 9, offset: 20591},
+																															pos:   position{line: 652, col: 9, offset: 20659},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 318, col: 18, offset: 9729},
@@ -11609,7 +11609,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 652, col: 28, offset: 20610},
+																															pos:        position{line: 652, col: 28, offset: 20678},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11618,19 +11618,19 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 658, col: 25, offset: 20791},
+																												pos: position{line: 658, col: 25, offset: 20859},
 																												run: (*parser).callonBlockAttributes52,
 																												expr: &seqExpr{
-																													pos: position{line: 658, col: 25, offset: 20791},
+																													pos: position{line: 658, col: 25, offset: 20859},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 658, col: 25, offset: 20791},
+																															pos:        position{line: 658, col: 25, offset: 20859},
 																															val:        "{counter:",
 																															ignoreCase: false,
 																															want:       "\"{counter:\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 658, col: 37, offset: 20803},
+																															pos:   position{line: 658, col: 37, offset: 20871},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 318, col: 18, offset: 9729},
@@ -11662,33 +11662,33 @@ var g = &grammar{
 																															},
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 658, col: 56, offset: 20822},
+																															pos:   position{line: 658, col: 56, offset: 20890},
 																															label: "start",
 																															expr: &zeroOrOneExpr{
-																																pos: position{line: 658, col: 62, offset: 20828},
+																																pos: position{line: 658, col: 62, offset: 20896},
 																																expr: &actionExpr{
-																																	pos: position{line: 666, col: 17, offset: 21123},
+																																	pos: position{line: 666, col: 17, offset: 21191},
 																																	run: (*parser).callonBlockAttributes63,
 																																	expr: &seqExpr{
-																																		pos: position{line: 666, col: 17, offset: 21123},
+																																		pos: position{line: 666, col: 17, offset: 21191},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 666, col: 17, offset: 21123},
+																																				pos:        position{line: 666, col: 17, offset: 21191},
 																																				val:        ":",
 																																				ignoreCase: false,
 																																				want:       "\":\"",
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 666, col: 21, offset: 21127},
+																																				pos:   position{line: 666, col: 21, offset: 21195},
 																																				label: "start",
 																																				expr: &choiceExpr{
-																																					pos: position{line: 666, col: 28, offset: 21134},
+																																					pos: position{line: 666, col: 28, offset: 21202},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 666, col: 28, offset: 21134},
+																																							pos: position{line: 666, col: 28, offset: 21202},
 																																							run: (*parser).callonBlockAttributes68,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 666, col: 28, offset: 21134},
+																																								pos:        position{line: 666, col: 28, offset: 21202},
 																																								val:        "[A-Za-z]",
 																																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																								ignoreCase: false,
@@ -11696,12 +11696,12 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&actionExpr{
-																																							pos: position{line: 668, col: 9, offset: 21188},
+																																							pos: position{line: 668, col: 9, offset: 21256},
 																																							run: (*parser).callonBlockAttributes70,
 																																							expr: &oneOrMoreExpr{
-																																								pos: position{line: 668, col: 9, offset: 21188},
+																																								pos: position{line: 668, col: 9, offset: 21256},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 668, col: 9, offset: 21188},
+																																									pos:        position{line: 668, col: 9, offset: 21256},
 																																									val:        "[0-9]",
 																																									ranges:     []rune{'0', '9'},
 																																									ignoreCase: false,
@@ -11718,7 +11718,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 658, col: 78, offset: 20844},
+																															pos:        position{line: 658, col: 78, offset: 20912},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11727,19 +11727,19 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 662, col: 25, offset: 20962},
+																												pos: position{line: 662, col: 25, offset: 21030},
 																												run: (*parser).callonBlockAttributes74,
 																												expr: &seqExpr{
-																													pos: position{line: 662, col: 25, offset: 20962},
+																													pos: position{line: 662, col: 25, offset: 21030},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 662, col: 25, offset: 20962},
+																															pos:        position{line: 662, col: 25, offset: 21030},
 																															val:        "{counter2:",
 																															ignoreCase: false,
 																															want:       "\"{counter2:\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 662, col: 38, offset: 20975},
+																															pos:   position{line: 662, col: 38, offset: 21043},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 318, col: 18, offset: 9729},
@@ -11771,33 +11771,33 @@ var g = &grammar{
 																															},
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 662, col: 57, offset: 20994},
+																															pos:   position{line: 662, col: 57, offset: 21062},
 																															label: "start",
 																															expr: &zeroOrOneExpr{
-																																pos: position{line: 662, col: 63, offset: 21000},
+																																pos: position{line: 662, col: 63, offset: 21068},
 																																expr: &actionExpr{
-																																	pos: position{line: 666, col: 17, offset: 21123},
+																																	pos: position{line: 666, col: 17, offset: 21191},
 																																	run: (*parser).callonBlockAttributes85,
 																																	expr: &seqExpr{
-																																		pos: position{line: 666, col: 17, offset: 21123},
+																																		pos: position{line: 666, col: 17, offset: 21191},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 666, col: 17, offset: 21123},
+																																				pos:        position{line: 666, col: 17, offset: 21191},
 																																				val:        ":",
 																																				ignoreCase: false,
 																																				want:       "\":\"",
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 666, col: 21, offset: 21127},
+																																				pos:   position{line: 666, col: 21, offset: 21195},
 																																				label: "start",
 																																				expr: &choiceExpr{
-																																					pos: position{line: 666, col: 28, offset: 21134},
+																																					pos: position{line: 666, col: 28, offset: 21202},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 666, col: 28, offset: 21134},
+																																							pos: position{line: 666, col: 28, offset: 21202},
 																																							run: (*parser).callonBlockAttributes90,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 666, col: 28, offset: 21134},
+																																								pos:        position{line: 666, col: 28, offset: 21202},
 																																								val:        "[A-Za-z]",
 																																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																								ignoreCase: false,
@@ -11805,12 +11805,12 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&actionExpr{
-																																							pos: position{line: 668, col: 9, offset: 21188},
+																																							pos: position{line: 668, col: 9, offset: 21256},
 																																							run: (*parser).callonBlockAttributes92,
 																																							expr: &oneOrMoreExpr{
-																																								pos: position{line: 668, col: 9, offset: 21188},
+																																								pos: position{line: 668, col: 9, offset: 21256},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 668, col: 9, offset: 21188},
+																																									pos:        position{line: 668, col: 9, offset: 21256},
 																																									val:        "[0-9]",
 																																									ranges:     []rune{'0', '9'},
 																																									ignoreCase: false,
@@ -11827,7 +11827,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 662, col: 79, offset: 21016},
+																															pos:        position{line: 662, col: 79, offset: 21084},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11842,10 +11842,10 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 412, col: 16, offset: 12617},
+																						pos: position{line: 412, col: 16, offset: 12685},
 																						run: (*parser).callonBlockAttributes96,
 																						expr: &litMatcher{
-																							pos:        position{line: 412, col: 16, offset: 12617},
+																							pos:        position{line: 412, col: 16, offset: 12685},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
@@ -11858,7 +11858,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 418, col: 5, offset: 12803},
+																pos:        position{line: 418, col: 5, offset: 12871},
 																val:        "]]",
 																ignoreCase: false,
 																want:       "\"]]\"",
@@ -11870,10 +11870,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 372, col: 35, offset: 11487},
 												expr: &actionExpr{
-													pos: position{line: 2852, col: 10, offset: 90239},
+													pos: position{line: 2862, col: 10, offset: 90584},
 													run: (*parser).callonBlockAttributes100,
 													expr: &charClassMatcher{
-														pos:        position{line: 2852, col: 10, offset: 90239},
+														pos:        position{line: 2862, col: 10, offset: 90584},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11882,28 +11882,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2874, col: 8, offset: 90637},
+												pos: position{line: 2884, col: 8, offset: 90982},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2861, col: 12, offset: 90410},
+														pos: position{line: 2871, col: 12, offset: 90755},
 														run: (*parser).callonBlockAttributes103,
 														expr: &choiceExpr{
-															pos: position{line: 2861, col: 13, offset: 90411},
+															pos: position{line: 2871, col: 13, offset: 90756},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2861, col: 13, offset: 90411},
+																	pos:        position{line: 2871, col: 13, offset: 90756},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2861, col: 20, offset: 90418},
+																	pos:        position{line: 2871, col: 20, offset: 90763},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2861, col: 29, offset: 90427},
+																	pos:        position{line: 2871, col: 29, offset: 90772},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11912,9 +11912,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2871, col: 8, offset: 90587},
+														pos: position{line: 2881, col: 8, offset: 90932},
 														expr: &anyMatcher{
-															line: 2871, col: 9, offset: 90588,
+															line: 2881, col: 9, offset: 90933,
 														},
 													},
 												},
@@ -11922,24 +11922,24 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 372, col: 46, offset: 11498},
 												expr: &actionExpr{
-													pos: position{line: 677, col: 14, offset: 21489},
+													pos: position{line: 677, col: 14, offset: 21557},
 													run: (*parser).callonBlockAttributes111,
 													expr: &seqExpr{
-														pos: position{line: 677, col: 14, offset: 21489},
+														pos: position{line: 677, col: 14, offset: 21557},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2869, col: 11, offset: 90573},
+																pos: position{line: 2879, col: 11, offset: 90918},
 																expr: &anyMatcher{
-																	line: 2869, col: 13, offset: 90575,
+																	line: 2879, col: 13, offset: 90920,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 677, col: 21, offset: 21496},
+																pos: position{line: 677, col: 21, offset: 21564},
 																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
+																	pos: position{line: 2862, col: 10, offset: 90584},
 																	run: (*parser).callonBlockAttributes116,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		pos:        position{line: 2862, col: 10, offset: 90584},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -11948,28 +11948,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2874, col: 8, offset: 90637},
+																pos: position{line: 2884, col: 8, offset: 90982},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2861, col: 12, offset: 90410},
+																		pos: position{line: 2871, col: 12, offset: 90755},
 																		run: (*parser).callonBlockAttributes119,
 																		expr: &choiceExpr{
-																			pos: position{line: 2861, col: 13, offset: 90411},
+																			pos: position{line: 2871, col: 13, offset: 90756},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 13, offset: 90411},
+																					pos:        position{line: 2871, col: 13, offset: 90756},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 20, offset: 90418},
+																					pos:        position{line: 2871, col: 20, offset: 90763},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 29, offset: 90427},
+																					pos:        position{line: 2871, col: 29, offset: 90772},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -11978,9 +11978,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2881, col: 8, offset: 90932},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2881, col: 9, offset: 90933,
 																		},
 																	},
 																},
@@ -12002,21 +12002,21 @@ var g = &grammar{
 												pos:   position{line: 376, col: 12, offset: 11619},
 												label: "title",
 												expr: &actionExpr{
-													pos: position{line: 423, col: 19, offset: 12922},
+													pos: position{line: 423, col: 19, offset: 12990},
 													run: (*parser).callonBlockAttributes129,
 													expr: &seqExpr{
-														pos: position{line: 423, col: 19, offset: 12922},
+														pos: position{line: 423, col: 19, offset: 12990},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 423, col: 19, offset: 12922},
+																pos:        position{line: 423, col: 19, offset: 12990},
 																val:        ".",
 																ignoreCase: false,
 																want:       "\".\"",
 															},
 															&notExpr{
-																pos: position{line: 424, col: 5, offset: 12931},
+																pos: position{line: 424, col: 5, offset: 12999},
 																expr: &charClassMatcher{
-																	pos:        position{line: 424, col: 6, offset: 12932},
+																	pos:        position{line: 424, col: 6, offset: 13000},
 																	val:        "[. ]",
 																	chars:      []rune{'.', ' '},
 																	ignoreCase: false,
@@ -12024,20 +12024,20 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 425, col: 5, offset: 13044},
+																pos:   position{line: 425, col: 5, offset: 13112},
 																label: "elements",
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 425, col: 14, offset: 13053},
+																	pos: position{line: 425, col: 14, offset: 13121},
 																	expr: &choiceExpr{
-																		pos: position{line: 426, col: 9, offset: 13063},
+																		pos: position{line: 426, col: 9, offset: 13131},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2746, col: 14, offset: 87408},
+																				pos: position{line: 2756, col: 14, offset: 87753},
 																				run: (*parser).callonBlockAttributes137,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2746, col: 14, offset: 87408},
+																					pos: position{line: 2756, col: 14, offset: 87753},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2746, col: 14, offset: 87408},
+																						pos:        position{line: 2756, col: 14, offset: 87753},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -12046,10 +12046,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2862, col: 10, offset: 90584},
 																				run: (*parser).callonBlockAttributes140,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2862, col: 10, offset: 90584},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -12057,27 +12057,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2769, col: 5, offset: 87893},
+																				pos: position{line: 2779, col: 5, offset: 88238},
 																				run: (*parser).callonBlockAttributes142,
 																				expr: &choiceExpr{
-																					pos: position{line: 2770, col: 9, offset: 87903},
+																					pos: position{line: 2780, col: 9, offset: 88248},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2770, col: 10, offset: 87904},
+																							pos:        position{line: 2780, col: 10, offset: 88249},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2772, col: 13, offset: 88001},
+																							pos: position{line: 2782, col: 13, offset: 88346},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2772, col: 13, offset: 88001},
+																									pos: position{line: 2782, col: 13, offset: 88346},
 																									run: (*parser).callonBlockAttributes146,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2775, col: 13, offset: 88101},
+																									pos:        position{line: 2785, col: 13, offset: 88446},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -12085,20 +12085,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2775, col: 19, offset: 88107},
+																							pos:        position{line: 2785, col: 19, offset: 88452},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2778, col: 13, offset: 88145},
+																							pos: position{line: 2788, col: 13, offset: 88490},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2778, col: 13, offset: 88145},
+																									pos: position{line: 2788, col: 13, offset: 88490},
 																									run: (*parser).callonBlockAttributes150,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2781, col: 14, offset: 88238},
+																									pos:        position{line: 2791, col: 14, offset: 88583},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -12107,18 +12107,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2783, col: 12, offset: 88282},
+																							pos: position{line: 2793, col: 12, offset: 88627},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2783, col: 12, offset: 88282},
+																									pos:        position{line: 2793, col: 12, offset: 88627},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2783, col: 16, offset: 88286},
+																									pos: position{line: 2793, col: 16, offset: 88631},
 																									expr: &litMatcher{
-																										pos:        position{line: 2783, col: 17, offset: 88287},
+																										pos:        position{line: 2793, col: 17, offset: 88632},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12130,19 +12130,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 645, col: 5, offset: 20319},
+																				pos: position{line: 645, col: 5, offset: 20387},
 																				run: (*parser).callonBlockAttributes156,
 																				expr: &seqExpr{
-																					pos: position{line: 645, col: 5, offset: 20319},
+																					pos: position{line: 645, col: 5, offset: 20387},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 645, col: 5, offset: 20319},
+																							pos:        position{line: 645, col: 5, offset: 20387},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 645, col: 13, offset: 20327},
+																							pos:   position{line: 645, col: 13, offset: 20395},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 318, col: 18, offset: 9729},
@@ -12174,7 +12174,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 645, col: 32, offset: 20346},
+																							pos:        position{line: 645, col: 32, offset: 20414},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -12183,19 +12183,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 652, col: 5, offset: 20587},
+																				pos: position{line: 652, col: 5, offset: 20655},
 																				run: (*parser).callonBlockAttributes166,
 																				expr: &seqExpr{
-																					pos: position{line: 652, col: 5, offset: 20587},
+																					pos: position{line: 652, col: 5, offset: 20655},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 652, col: 5, offset: 20587},
+																							pos:        position{line: 652, col: 5, offset: 20655},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 652, col: 9, offset: 20591},
+																							pos:   position{line: 652, col: 9, offset: 20659},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 318, col: 18, offset: 9729},
@@ -12227,7 +12227,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 652, col: 28, offset: 20610},
+																							pos:        position{line: 652, col: 28, offset: 20678},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -12236,10 +12236,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2791, col: 12, offset: 88547},
+																				pos: position{line: 2801, col: 12, offset: 88892},
 																				run: (*parser).callonBlockAttributes176,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2791, col: 12, offset: 88547},
+																					pos:        position{line: 2801, col: 12, offset: 88892},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12257,10 +12257,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 376, col: 35, offset: 11642},
 												expr: &actionExpr{
-													pos: position{line: 2852, col: 10, offset: 90239},
+													pos: position{line: 2862, col: 10, offset: 90584},
 													run: (*parser).callonBlockAttributes179,
 													expr: &charClassMatcher{
-														pos:        position{line: 2852, col: 10, offset: 90239},
+														pos:        position{line: 2862, col: 10, offset: 90584},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12269,28 +12269,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2874, col: 8, offset: 90637},
+												pos: position{line: 2884, col: 8, offset: 90982},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2861, col: 12, offset: 90410},
+														pos: position{line: 2871, col: 12, offset: 90755},
 														run: (*parser).callonBlockAttributes182,
 														expr: &choiceExpr{
-															pos: position{line: 2861, col: 13, offset: 90411},
+															pos: position{line: 2871, col: 13, offset: 90756},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2861, col: 13, offset: 90411},
+																	pos:        position{line: 2871, col: 13, offset: 90756},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2861, col: 20, offset: 90418},
+																	pos:        position{line: 2871, col: 20, offset: 90763},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2861, col: 29, offset: 90427},
+																	pos:        position{line: 2871, col: 29, offset: 90772},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12299,9 +12299,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2871, col: 8, offset: 90587},
+														pos: position{line: 2881, col: 8, offset: 90932},
 														expr: &anyMatcher{
-															line: 2871, col: 9, offset: 90588,
+															line: 2881, col: 9, offset: 90933,
 														},
 													},
 												},
@@ -12309,24 +12309,24 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 376, col: 46, offset: 11653},
 												expr: &actionExpr{
-													pos: position{line: 677, col: 14, offset: 21489},
+													pos: position{line: 677, col: 14, offset: 21557},
 													run: (*parser).callonBlockAttributes190,
 													expr: &seqExpr{
-														pos: position{line: 677, col: 14, offset: 21489},
+														pos: position{line: 677, col: 14, offset: 21557},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2869, col: 11, offset: 90573},
+																pos: position{line: 2879, col: 11, offset: 90918},
 																expr: &anyMatcher{
-																	line: 2869, col: 13, offset: 90575,
+																	line: 2879, col: 13, offset: 90920,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 677, col: 21, offset: 21496},
+																pos: position{line: 677, col: 21, offset: 21564},
 																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
+																	pos: position{line: 2862, col: 10, offset: 90584},
 																	run: (*parser).callonBlockAttributes195,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		pos:        position{line: 2862, col: 10, offset: 90584},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12335,28 +12335,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2874, col: 8, offset: 90637},
+																pos: position{line: 2884, col: 8, offset: 90982},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2861, col: 12, offset: 90410},
+																		pos: position{line: 2871, col: 12, offset: 90755},
 																		run: (*parser).callonBlockAttributes198,
 																		expr: &choiceExpr{
-																			pos: position{line: 2861, col: 13, offset: 90411},
+																			pos: position{line: 2871, col: 13, offset: 90756},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 13, offset: 90411},
+																					pos:        position{line: 2871, col: 13, offset: 90756},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 20, offset: 90418},
+																					pos:        position{line: 2871, col: 20, offset: 90763},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 29, offset: 90427},
+																					pos:        position{line: 2871, col: 29, offset: 90772},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12365,9 +12365,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2881, col: 8, offset: 90932},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2881, col: 9, offset: 90933,
 																		},
 																	},
 																},
@@ -12387,19 +12387,33 @@ var g = &grammar{
 										exprs: []interface{}{
 											&labeledExpr{
 												pos:   position{line: 380, col: 12, offset: 11743},
+												label: "start",
+												expr: &actionExpr{
+													pos: position{line: 2887, col: 16, offset: 91106},
+													run: (*parser).callonBlockAttributes208,
+													expr: &litMatcher{
+														pos:        position{line: 2887, col: 16, offset: 91106},
+														val:        "",
+														ignoreCase: false,
+														want:       "\"\"",
+													},
+												},
+											},
+											&labeledExpr{
+												pos:   position{line: 380, col: 32, offset: 11763},
 												label: "attributes",
 												expr: &ruleRefExpr{
-													pos:  position{line: 380, col: 24, offset: 11755},
+													pos:  position{line: 380, col: 44, offset: 11775},
 													name: "LongHandAttributes",
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 380, col: 44, offset: 11775},
+												pos: position{line: 380, col: 64, offset: 11795},
 												expr: &actionExpr{
-													pos: position{line: 2852, col: 10, offset: 90239},
-													run: (*parser).callonBlockAttributes210,
+													pos: position{line: 2862, col: 10, offset: 90584},
+													run: (*parser).callonBlockAttributes213,
 													expr: &charClassMatcher{
-														pos:        position{line: 2852, col: 10, offset: 90239},
+														pos:        position{line: 2862, col: 10, offset: 90584},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12407,29 +12421,47 @@ var g = &grammar{
 													},
 												},
 											},
+											&labeledExpr{
+												pos:   position{line: 380, col: 71, offset: 11802},
+												label: "end",
+												expr: &actionExpr{
+													pos: position{line: 2887, col: 16, offset: 91106},
+													run: (*parser).callonBlockAttributes216,
+													expr: &litMatcher{
+														pos:        position{line: 2887, col: 16, offset: 91106},
+														val:        "",
+														ignoreCase: false,
+														want:       "\"\"",
+													},
+												},
+											},
+											&andCodeExpr{
+												pos: position{line: 380, col: 89, offset: 11820},
+												run: (*parser).callonBlockAttributes218,
+											},
 											&choiceExpr{
-												pos: position{line: 2874, col: 8, offset: 90637},
+												pos: position{line: 2884, col: 8, offset: 90982},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2861, col: 12, offset: 90410},
-														run: (*parser).callonBlockAttributes213,
+														pos: position{line: 2871, col: 12, offset: 90755},
+														run: (*parser).callonBlockAttributes220,
 														expr: &choiceExpr{
-															pos: position{line: 2861, col: 13, offset: 90411},
+															pos: position{line: 2871, col: 13, offset: 90756},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2861, col: 13, offset: 90411},
+																	pos:        position{line: 2871, col: 13, offset: 90756},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2861, col: 20, offset: 90418},
+																	pos:        position{line: 2871, col: 20, offset: 90763},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2861, col: 29, offset: 90427},
+																	pos:        position{line: 2871, col: 29, offset: 90772},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12438,34 +12470,34 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2871, col: 8, offset: 90587},
+														pos: position{line: 2881, col: 8, offset: 90932},
 														expr: &anyMatcher{
-															line: 2871, col: 9, offset: 90588,
+															line: 2881, col: 9, offset: 90933,
 														},
 													},
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 380, col: 55, offset: 11786},
+												pos: position{line: 380, col: 123, offset: 11854},
 												expr: &actionExpr{
-													pos: position{line: 677, col: 14, offset: 21489},
-													run: (*parser).callonBlockAttributes221,
+													pos: position{line: 677, col: 14, offset: 21557},
+													run: (*parser).callonBlockAttributes228,
 													expr: &seqExpr{
-														pos: position{line: 677, col: 14, offset: 21489},
+														pos: position{line: 677, col: 14, offset: 21557},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2869, col: 11, offset: 90573},
+																pos: position{line: 2879, col: 11, offset: 90918},
 																expr: &anyMatcher{
-																	line: 2869, col: 13, offset: 90575,
+																	line: 2879, col: 13, offset: 90920,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 677, col: 21, offset: 21496},
+																pos: position{line: 677, col: 21, offset: 21564},
 																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
-																	run: (*parser).callonBlockAttributes226,
+																	pos: position{line: 2862, col: 10, offset: 90584},
+																	run: (*parser).callonBlockAttributes233,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		pos:        position{line: 2862, col: 10, offset: 90584},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12474,28 +12506,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2874, col: 8, offset: 90637},
+																pos: position{line: 2884, col: 8, offset: 90982},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2861, col: 12, offset: 90410},
-																		run: (*parser).callonBlockAttributes229,
+																		pos: position{line: 2871, col: 12, offset: 90755},
+																		run: (*parser).callonBlockAttributes236,
 																		expr: &choiceExpr{
-																			pos: position{line: 2861, col: 13, offset: 90411},
+																			pos: position{line: 2871, col: 13, offset: 90756},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 13, offset: 90411},
+																					pos:        position{line: 2871, col: 13, offset: 90756},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 20, offset: 90418},
+																					pos:        position{line: 2871, col: 20, offset: 90763},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 29, offset: 90427},
+																					pos:        position{line: 2871, col: 29, offset: 90772},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12504,9 +12536,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2881, col: 8, offset: 90932},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2881, col: 9, offset: 90933,
 																		},
 																	},
 																},
@@ -12526,51 +12558,51 @@ var g = &grammar{
 		},
 		{
 			name: "InlineAttributes",
-			pos:  position{line: 388, col: 1, offset: 11970},
+			pos:  position{line: 388, col: 1, offset: 12038},
 			expr: &actionExpr{
-				pos: position{line: 389, col: 5, offset: 11994},
+				pos: position{line: 389, col: 5, offset: 12062},
 				run: (*parser).callonInlineAttributes1,
 				expr: &seqExpr{
-					pos: position{line: 389, col: 5, offset: 11994},
+					pos: position{line: 389, col: 5, offset: 12062},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 389, col: 5, offset: 11994},
+							pos:        position{line: 389, col: 5, offset: 12062},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 390, col: 5, offset: 12002},
+							pos:   position{line: 390, col: 5, offset: 12070},
 							label: "attributes",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 390, col: 16, offset: 12013},
+								pos: position{line: 390, col: 16, offset: 12081},
 								expr: &actionExpr{
-									pos: position{line: 391, col: 9, offset: 12023},
+									pos: position{line: 391, col: 9, offset: 12091},
 									run: (*parser).callonInlineAttributes6,
 									expr: &seqExpr{
-										pos: position{line: 392, col: 13, offset: 12037},
+										pos: position{line: 392, col: 13, offset: 12105},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 392, col: 13, offset: 12037},
+												pos: position{line: 392, col: 13, offset: 12105},
 												expr: &litMatcher{
-													pos:        position{line: 392, col: 14, offset: 12038},
+													pos:        position{line: 392, col: 14, offset: 12106},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 393, col: 13, offset: 12070},
+												pos:   position{line: 393, col: 13, offset: 12138},
 												label: "attribute",
 												expr: &choiceExpr{
-													pos: position{line: 393, col: 24, offset: 12081},
+													pos: position{line: 393, col: 24, offset: 12149},
 													alternatives: []interface{}{
 														&ruleRefExpr{
-															pos:  position{line: 393, col: 24, offset: 12081},
+															pos:  position{line: 393, col: 24, offset: 12149},
 															name: "PositionalAttribute",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 393, col: 46, offset: 12103},
+															pos:  position{line: 393, col: 46, offset: 12171},
 															name: "NamedAttribute",
 														},
 													},
@@ -12582,7 +12614,7 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 398, col: 5, offset: 12186},
+							pos:        position{line: 398, col: 5, offset: 12254},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -12593,62 +12625,62 @@ var g = &grammar{
 		},
 		{
 			name: "LongHandAttributes",
-			pos:  position{line: 437, col: 1, offset: 13444},
+			pos:  position{line: 437, col: 1, offset: 13512},
 			expr: &actionExpr{
-				pos: position{line: 438, col: 5, offset: 13470},
+				pos: position{line: 438, col: 5, offset: 13538},
 				run: (*parser).callonLongHandAttributes1,
 				expr: &seqExpr{
-					pos: position{line: 438, col: 5, offset: 13470},
+					pos: position{line: 438, col: 5, offset: 13538},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 438, col: 5, offset: 13470},
+							pos: position{line: 438, col: 5, offset: 13538},
 							expr: &litMatcher{
-								pos:        position{line: 438, col: 6, offset: 13471},
+								pos:        position{line: 438, col: 6, offset: 13539},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 438, col: 10, offset: 13475},
+							pos:        position{line: 438, col: 10, offset: 13543},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&notExpr{
-							pos: position{line: 438, col: 14, offset: 13479},
+							pos: position{line: 438, col: 14, offset: 13547},
 							expr: &litMatcher{
-								pos:        position{line: 438, col: 15, offset: 13480},
+								pos:        position{line: 438, col: 15, offset: 13548},
 								val:        "[",
 								ignoreCase: false,
 								want:       "\"[\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 439, col: 5, offset: 13593},
+							pos:   position{line: 439, col: 5, offset: 13661},
 							label: "firstPositionalAttributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 439, col: 31, offset: 13619},
+								pos: position{line: 439, col: 31, offset: 13687},
 								expr: &ruleRefExpr{
-									pos:  position{line: 439, col: 32, offset: 13620},
+									pos:  position{line: 439, col: 32, offset: 13688},
 									name: "FirstPositionalAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 440, col: 5, offset: 13652},
+							pos:   position{line: 440, col: 5, offset: 13720},
 							label: "otherAttributes",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 440, col: 21, offset: 13668},
+								pos: position{line: 440, col: 21, offset: 13736},
 								expr: &choiceExpr{
-									pos: position{line: 440, col: 22, offset: 13669},
+									pos: position{line: 440, col: 22, offset: 13737},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 440, col: 22, offset: 13669},
+											pos:  position{line: 440, col: 22, offset: 13737},
 											name: "PositionalAttribute",
 										},
 										&ruleRefExpr{
-											pos:  position{line: 440, col: 44, offset: 13691},
+											pos:  position{line: 440, col: 44, offset: 13759},
 											name: "NamedAttribute",
 										},
 									},
@@ -12656,7 +12688,7 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 441, col: 5, offset: 13712},
+							pos:        position{line: 441, col: 5, offset: 13780},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -12667,69 +12699,69 @@ var g = &grammar{
 		},
 		{
 			name: "FirstPositionalAttributes",
-			pos:  position{line: 454, col: 1, offset: 14240},
+			pos:  position{line: 454, col: 1, offset: 14308},
 			expr: &actionExpr{
-				pos: position{line: 455, col: 5, offset: 14274},
+				pos: position{line: 455, col: 5, offset: 14342},
 				run: (*parser).callonFirstPositionalAttributes1,
 				expr: &seqExpr{
-					pos: position{line: 455, col: 5, offset: 14274},
+					pos: position{line: 455, col: 5, offset: 14342},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 455, col: 5, offset: 14274},
+							pos:   position{line: 455, col: 5, offset: 14342},
 							label: "main",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 455, col: 10, offset: 14279},
+								pos: position{line: 455, col: 10, offset: 14347},
 								expr: &ruleRefExpr{
-									pos:  position{line: 456, col: 9, offset: 14289},
+									pos:  position{line: 456, col: 9, offset: 14357},
 									name: "ShortHandAttribute",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 458, col: 5, offset: 14319},
+							pos:   position{line: 458, col: 5, offset: 14387},
 							label: "extras",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 458, col: 12, offset: 14326},
+								pos: position{line: 458, col: 12, offset: 14394},
 								expr: &actionExpr{
-									pos: position{line: 459, col: 9, offset: 14337},
+									pos: position{line: 459, col: 9, offset: 14405},
 									run: (*parser).callonFirstPositionalAttributes8,
 									expr: &seqExpr{
-										pos: position{line: 459, col: 9, offset: 14337},
+										pos: position{line: 459, col: 9, offset: 14405},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 459, col: 9, offset: 14337},
+												pos: position{line: 459, col: 9, offset: 14405},
 												expr: &litMatcher{
-													pos:        position{line: 459, col: 10, offset: 14338},
+													pos:        position{line: 459, col: 10, offset: 14406},
 													val:        ",",
 													ignoreCase: false,
 													want:       "\",\"",
 												},
 											},
 											&notExpr{
-												pos: position{line: 459, col: 14, offset: 14342},
+												pos: position{line: 459, col: 14, offset: 14410},
 												expr: &litMatcher{
-													pos:        position{line: 459, col: 15, offset: 14343},
+													pos:        position{line: 459, col: 15, offset: 14411},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 460, col: 9, offset: 14355},
+												pos:   position{line: 460, col: 9, offset: 14423},
 												label: "extra",
 												expr: &choiceExpr{
-													pos: position{line: 461, col: 13, offset: 14375},
+													pos: position{line: 461, col: 13, offset: 14443},
 													alternatives: []interface{}{
 														&ruleRefExpr{
-															pos:  position{line: 461, col: 13, offset: 14375},
+															pos:  position{line: 461, col: 13, offset: 14443},
 															name: "ShortHandIDAttribute",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 462, col: 15, offset: 14411},
+															pos:  position{line: 462, col: 15, offset: 14479},
 															name: "ShortHandOptionAttribute",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 463, col: 15, offset: 14450},
+															pos:  position{line: 463, col: 15, offset: 14518},
 															name: "ShortHandDotRoleAttribute",
 														},
 													},
@@ -12741,23 +12773,23 @@ var g = &grammar{
 							},
 						},
 						&zeroOrOneExpr{
-							pos: position{line: 466, col: 8, offset: 14526},
+							pos: position{line: 466, col: 8, offset: 14594},
 							expr: &seqExpr{
-								pos: position{line: 466, col: 9, offset: 14527},
+								pos: position{line: 466, col: 9, offset: 14595},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 466, col: 9, offset: 14527},
+										pos:        position{line: 466, col: 9, offset: 14595},
 										val:        ",",
 										ignoreCase: false,
 										want:       "\",\"",
 									},
 									&zeroOrMoreExpr{
-										pos: position{line: 466, col: 13, offset: 14531},
+										pos: position{line: 466, col: 13, offset: 14599},
 										expr: &actionExpr{
-											pos: position{line: 2852, col: 10, offset: 90239},
+											pos: position{line: 2862, col: 10, offset: 90584},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2852, col: 10, offset: 90239},
+												pos:        position{line: 2862, col: 10, offset: 90584},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -12769,7 +12801,7 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 467, col: 5, offset: 14545},
+							pos: position{line: 467, col: 5, offset: 14613},
 							run: (*parser).callonFirstPositionalAttributes25,
 						},
 					},
@@ -12778,24 +12810,24 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandIDAttribute",
-			pos:  position{line: 483, col: 1, offset: 14961},
+			pos:  position{line: 483, col: 1, offset: 15029},
 			expr: &actionExpr{
-				pos: position{line: 483, col: 25, offset: 14985},
+				pos: position{line: 483, col: 25, offset: 15053},
 				run: (*parser).callonShortHandIDAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 483, col: 25, offset: 14985},
+					pos: position{line: 483, col: 25, offset: 15053},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 483, col: 25, offset: 14985},
+							pos:        position{line: 483, col: 25, offset: 15053},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 483, col: 29, offset: 14989},
+							pos:   position{line: 483, col: 29, offset: 15057},
 							label: "id",
 							expr: &ruleRefExpr{
-								pos:  position{line: 483, col: 33, offset: 14993},
+								pos:  position{line: 483, col: 33, offset: 15061},
 								name: "ShortHandAttributeValue",
 							},
 						},
@@ -12805,15 +12837,15 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandAttribute",
-			pos:  position{line: 487, col: 1, offset: 15067},
+			pos:  position{line: 487, col: 1, offset: 15135},
 			expr: &actionExpr{
-				pos: position{line: 487, col: 23, offset: 15089},
+				pos: position{line: 487, col: 23, offset: 15157},
 				run: (*parser).callonShortHandAttribute1,
 				expr: &labeledExpr{
-					pos:   position{line: 487, col: 23, offset: 15089},
+					pos:   position{line: 487, col: 23, offset: 15157},
 					label: "value",
 					expr: &ruleRefExpr{
-						pos:  position{line: 487, col: 30, offset: 15096},
+						pos:  position{line: 487, col: 30, offset: 15164},
 						name: "ShortHandAttributeValue",
 					},
 				},
@@ -12821,24 +12853,24 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandDotRoleAttribute",
-			pos:  position{line: 492, col: 1, offset: 15222},
+			pos:  position{line: 492, col: 1, offset: 15290},
 			expr: &actionExpr{
-				pos: position{line: 492, col: 30, offset: 15251},
+				pos: position{line: 492, col: 30, offset: 15319},
 				run: (*parser).callonShortHandDotRoleAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 492, col: 30, offset: 15251},
+					pos: position{line: 492, col: 30, offset: 15319},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 492, col: 30, offset: 15251},
+							pos:        position{line: 492, col: 30, offset: 15319},
 							val:        ".",
 							ignoreCase: false,
 							want:       "\".\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 492, col: 34, offset: 15255},
+							pos:   position{line: 492, col: 34, offset: 15323},
 							label: "role",
 							expr: &ruleRefExpr{
-								pos:  position{line: 492, col: 40, offset: 15261},
+								pos:  position{line: 492, col: 40, offset: 15329},
 								name: "ShortHandAttributeValue",
 							},
 						},
@@ -12848,24 +12880,24 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandOptionAttribute",
-			pos:  position{line: 497, col: 1, offset: 15383},
+			pos:  position{line: 497, col: 1, offset: 15451},
 			expr: &actionExpr{
-				pos: position{line: 497, col: 29, offset: 15411},
+				pos: position{line: 497, col: 29, offset: 15479},
 				run: (*parser).callonShortHandOptionAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 497, col: 29, offset: 15411},
+					pos: position{line: 497, col: 29, offset: 15479},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 497, col: 29, offset: 15411},
+							pos:        position{line: 497, col: 29, offset: 15479},
 							val:        "%",
 							ignoreCase: false,
 							want:       "\"%\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 497, col: 33, offset: 15415},
+							pos:   position{line: 497, col: 33, offset: 15483},
 							label: "option",
 							expr: &ruleRefExpr{
-								pos:  position{line: 497, col: 41, offset: 15423},
+								pos:  position{line: 497, col: 41, offset: 15491},
 								name: "ShortHandAttributeValue",
 							},
 						},
@@ -12875,43 +12907,43 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandAttributeValue",
-			pos:  position{line: 502, col: 1, offset: 15536},
+			pos:  position{line: 502, col: 1, offset: 15604},
 			expr: &choiceExpr{
-				pos: position{line: 503, col: 5, offset: 15568},
+				pos: position{line: 503, col: 5, offset: 15636},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 503, col: 5, offset: 15568},
+						pos:  position{line: 503, col: 5, offset: 15636},
 						name: "SingleQuotedAttributeValue",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 504, col: 7, offset: 15602},
+						pos:  position{line: 504, col: 7, offset: 15670},
 						name: "DoubleQuotedAttributeValue",
 					},
 					&actionExpr{
-						pos: position{line: 505, col: 7, offset: 15636},
+						pos: position{line: 505, col: 7, offset: 15704},
 						run: (*parser).callonShortHandAttributeValue4,
 						expr: &seqExpr{
-							pos: position{line: 505, col: 7, offset: 15636},
+							pos: position{line: 505, col: 7, offset: 15704},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 505, col: 7, offset: 15636},
+									pos:   position{line: 505, col: 7, offset: 15704},
 									label: "elements",
 									expr: &oneOrMoreExpr{
-										pos: position{line: 505, col: 16, offset: 15645},
+										pos: position{line: 505, col: 16, offset: 15713},
 										expr: &choiceExpr{
-											pos: position{line: 508, col: 9, offset: 15827},
+											pos: position{line: 508, col: 9, offset: 15895},
 											alternatives: []interface{}{
 												&ruleRefExpr{
-													pos:  position{line: 508, col: 9, offset: 15827},
+													pos:  position{line: 508, col: 9, offset: 15895},
 													name: "QuotationMark",
 												},
 												&actionExpr{
-													pos: position{line: 509, col: 12, offset: 15853},
+													pos: position{line: 509, col: 12, offset: 15921},
 													run: (*parser).callonShortHandAttributeValue10,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 509, col: 12, offset: 15853},
+														pos: position{line: 509, col: 12, offset: 15921},
 														expr: &charClassMatcher{
-															pos:        position{line: 509, col: 12, offset: 15853},
+															pos:        position{line: 509, col: 12, offset: 15921},
 															val:        "[^,=.%# \\r\\n�{]]",
 															chars:      []rune{',', '=', '.', '%', '#', ' ', '\r', '\n', '�', '{', ']'},
 															ignoreCase: false,
@@ -12920,35 +12952,35 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 636, col: 5, offset: 20109},
+													pos: position{line: 636, col: 5, offset: 20177},
 													run: (*parser).callonShortHandAttributeValue13,
 													expr: &seqExpr{
-														pos: position{line: 636, col: 5, offset: 20109},
+														pos: position{line: 636, col: 5, offset: 20177},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 636, col: 5, offset: 20109},
+																pos: position{line: 636, col: 5, offset: 20177},
 																run: (*parser).callonShortHandAttributeValue15,
 															},
 															&labeledExpr{
-																pos:   position{line: 639, col: 5, offset: 20181},
+																pos:   position{line: 639, col: 5, offset: 20249},
 																label: "element",
 																expr: &choiceExpr{
-																	pos: position{line: 639, col: 14, offset: 20190},
+																	pos: position{line: 639, col: 14, offset: 20258},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 645, col: 5, offset: 20319},
+																			pos: position{line: 645, col: 5, offset: 20387},
 																			run: (*parser).callonShortHandAttributeValue18,
 																			expr: &seqExpr{
-																				pos: position{line: 645, col: 5, offset: 20319},
+																				pos: position{line: 645, col: 5, offset: 20387},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 645, col: 5, offset: 20319},
+																						pos:        position{line: 645, col: 5, offset: 20387},
 																						val:        "\\{",
 																						ignoreCase: false,
 																						want:       "\"\\\\{\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 645, col: 13, offset: 20327},
+																						pos:   position{line: 645, col: 13, offset: 20395},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 318, col: 18, offset: 9729},
@@ -12980,7 +13012,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 645, col: 32, offset: 20346},
+																						pos:        position{line: 645, col: 32, offset: 20414},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -12989,19 +13021,19 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 652, col: 5, offset: 20587},
+																			pos: position{line: 652, col: 5, offset: 20655},
 																			run: (*parser).callonShortHandAttributeValue28,
 																			expr: &seqExpr{
-																				pos: position{line: 652, col: 5, offset: 20587},
+																				pos: position{line: 652, col: 5, offset: 20655},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 652, col: 5, offset: 20587},
+																						pos:        position{line: 652, col: 5, offset: 20655},
 																						val:        "{",
 																						ignoreCase: false,
 																						want:       "\"{\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 652, col: 9, offset: 20591},
+																						pos:   position{line: 652, col: 9, offset: 20659},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 318, col: 18, offset: 9729},
@@ -13033,7 +13065,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 652, col: 28, offset: 20610},
+																						pos:        position{line: 652, col: 28, offset: 20678},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13042,19 +13074,19 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 658, col: 25, offset: 20791},
+																			pos: position{line: 658, col: 25, offset: 20859},
 																			run: (*parser).callonShortHandAttributeValue38,
 																			expr: &seqExpr{
-																				pos: position{line: 658, col: 25, offset: 20791},
+																				pos: position{line: 658, col: 25, offset: 20859},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 658, col: 25, offset: 20791},
+																						pos:        position{line: 658, col: 25, offset: 20859},
 																						val:        "{counter:",
 																						ignoreCase: false,
 																						want:       "\"{counter:\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 658, col: 37, offset: 20803},
+																						pos:   position{line: 658, col: 37, offset: 20871},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 318, col: 18, offset: 9729},
@@ -13086,33 +13118,33 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 658, col: 56, offset: 20822},
+																						pos:   position{line: 658, col: 56, offset: 20890},
 																						label: "start",
 																						expr: &zeroOrOneExpr{
-																							pos: position{line: 658, col: 62, offset: 20828},
+																							pos: position{line: 658, col: 62, offset: 20896},
 																							expr: &actionExpr{
-																								pos: position{line: 666, col: 17, offset: 21123},
+																								pos: position{line: 666, col: 17, offset: 21191},
 																								run: (*parser).callonShortHandAttributeValue49,
 																								expr: &seqExpr{
-																									pos: position{line: 666, col: 17, offset: 21123},
+																									pos: position{line: 666, col: 17, offset: 21191},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 666, col: 17, offset: 21123},
+																											pos:        position{line: 666, col: 17, offset: 21191},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 666, col: 21, offset: 21127},
+																											pos:   position{line: 666, col: 21, offset: 21195},
 																											label: "start",
 																											expr: &choiceExpr{
-																												pos: position{line: 666, col: 28, offset: 21134},
+																												pos: position{line: 666, col: 28, offset: 21202},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 666, col: 28, offset: 21134},
+																														pos: position{line: 666, col: 28, offset: 21202},
 																														run: (*parser).callonShortHandAttributeValue54,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 666, col: 28, offset: 21134},
+																															pos:        position{line: 666, col: 28, offset: 21202},
 																															val:        "[A-Za-z]",
 																															ranges:     []rune{'A', 'Z', 'a', 'z'},
 																															ignoreCase: false,
@@ -13120,12 +13152,12 @@ var g = &grammar{
 																														},
 																													},
 																													&actionExpr{
-																														pos: position{line: 668, col: 9, offset: 21188},
+																														pos: position{line: 668, col: 9, offset: 21256},
 																														run: (*parser).callonShortHandAttributeValue56,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 668, col: 9, offset: 21188},
+																															pos: position{line: 668, col: 9, offset: 21256},
 																															expr: &charClassMatcher{
-																																pos:        position{line: 668, col: 9, offset: 21188},
+																																pos:        position{line: 668, col: 9, offset: 21256},
 																																val:        "[0-9]",
 																																ranges:     []rune{'0', '9'},
 																																ignoreCase: false,
@@ -13142,7 +13174,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 658, col: 78, offset: 20844},
+																						pos:        position{line: 658, col: 78, offset: 20912},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13151,19 +13183,19 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 662, col: 25, offset: 20962},
+																			pos: position{line: 662, col: 25, offset: 21030},
 																			run: (*parser).callonShortHandAttributeValue60,
 																			expr: &seqExpr{
-																				pos: position{line: 662, col: 25, offset: 20962},
+																				pos: position{line: 662, col: 25, offset: 21030},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 662, col: 25, offset: 20962},
+																						pos:        position{line: 662, col: 25, offset: 21030},
 																						val:        "{counter2:",
 																						ignoreCase: false,
 																						want:       "\"{counter2:\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 662, col: 38, offset: 20975},
+																						pos:   position{line: 662, col: 38, offset: 21043},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 318, col: 18, offset: 9729},
@@ -13195,33 +13227,33 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 662, col: 57, offset: 20994},
+																						pos:   position{line: 662, col: 57, offset: 21062},
 																						label: "start",
 																						expr: &zeroOrOneExpr{
-																							pos: position{line: 662, col: 63, offset: 21000},
+																							pos: position{line: 662, col: 63, offset: 21068},
 																							expr: &actionExpr{
-																								pos: position{line: 666, col: 17, offset: 21123},
+																								pos: position{line: 666, col: 17, offset: 21191},
 																								run: (*parser).callonShortHandAttributeValue71,
 																								expr: &seqExpr{
-																									pos: position{line: 666, col: 17, offset: 21123},
+																									pos: position{line: 666, col: 17, offset: 21191},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 666, col: 17, offset: 21123},
+																											pos:        position{line: 666, col: 17, offset: 21191},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 666, col: 21, offset: 21127},
+																											pos:   position{line: 666, col: 21, offset: 21195},
 																											label: "start",
 																											expr: &choiceExpr{
-																												pos: position{line: 666, col: 28, offset: 21134},
+																												pos: position{line: 666, col: 28, offset: 21202},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 666, col: 28, offset: 21134},
+																														pos: position{line: 666, col: 28, offset: 21202},
 																														run: (*parser).callonShortHandAttributeValue76,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 666, col: 28, offset: 21134},
+																															pos:        position{line: 666, col: 28, offset: 21202},
 																															val:        "[A-Za-z]",
 																															ranges:     []rune{'A', 'Z', 'a', 'z'},
 																															ignoreCase: false,
@@ -13229,12 +13261,12 @@ var g = &grammar{
 																														},
 																													},
 																													&actionExpr{
-																														pos: position{line: 668, col: 9, offset: 21188},
+																														pos: position{line: 668, col: 9, offset: 21256},
 																														run: (*parser).callonShortHandAttributeValue78,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 668, col: 9, offset: 21188},
+																															pos: position{line: 668, col: 9, offset: 21256},
 																															expr: &charClassMatcher{
-																																pos:        position{line: 668, col: 9, offset: 21188},
+																																pos:        position{line: 668, col: 9, offset: 21256},
 																																val:        "[0-9]",
 																																ranges:     []rune{'0', '9'},
 																																ignoreCase: false,
@@ -13251,7 +13283,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 662, col: 79, offset: 21016},
+																						pos:        position{line: 662, col: 79, offset: 21084},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13266,10 +13298,10 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 514, col: 12, offset: 16021},
+													pos: position{line: 514, col: 12, offset: 16089},
 													run: (*parser).callonShortHandAttributeValue82,
 													expr: &litMatcher{
-														pos:        position{line: 514, col: 12, offset: 16021},
+														pos:        position{line: 514, col: 12, offset: 16089},
 														val:        "{",
 														ignoreCase: false,
 														want:       "\"{\"",
@@ -13280,19 +13312,19 @@ var g = &grammar{
 									},
 								},
 								&andExpr{
-									pos: position{line: 518, col: 5, offset: 16109},
+									pos: position{line: 518, col: 5, offset: 16177},
 									expr: &notExpr{
-										pos: position{line: 518, col: 7, offset: 16111},
+										pos: position{line: 518, col: 7, offset: 16179},
 										expr: &seqExpr{
-											pos: position{line: 518, col: 9, offset: 16113},
+											pos: position{line: 518, col: 9, offset: 16181},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 518, col: 9, offset: 16113},
+													pos: position{line: 518, col: 9, offset: 16181},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2862, col: 10, offset: 90584},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2862, col: 10, offset: 90584},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13301,7 +13333,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 518, col: 16, offset: 16120},
+													pos:        position{line: 518, col: 16, offset: 16188},
 													val:        "=",
 													ignoreCase: false,
 													want:       "\"=\"",
@@ -13318,45 +13350,45 @@ var g = &grammar{
 		},
 		{
 			name: "PositionalAttribute",
-			pos:  position{line: 523, col: 1, offset: 16198},
+			pos:  position{line: 523, col: 1, offset: 16266},
 			expr: &choiceExpr{
-				pos: position{line: 523, col: 24, offset: 16221},
+				pos: position{line: 523, col: 24, offset: 16289},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 524, col: 5, offset: 16227},
+						pos: position{line: 524, col: 5, offset: 16295},
 						run: (*parser).callonPositionalAttribute2,
 						expr: &seqExpr{
-							pos: position{line: 524, col: 5, offset: 16227},
+							pos: position{line: 524, col: 5, offset: 16295},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 524, col: 5, offset: 16227},
+									pos:   position{line: 524, col: 5, offset: 16295},
 									label: "value",
 									expr: &ruleRefExpr{
-										pos:  position{line: 524, col: 12, offset: 16234},
+										pos:  position{line: 524, col: 12, offset: 16302},
 										name: "AttributeValue",
 									},
 								},
 								&choiceExpr{
-									pos: position{line: 524, col: 29, offset: 16251},
+									pos: position{line: 524, col: 29, offset: 16319},
 									alternatives: []interface{}{
 										&zeroOrOneExpr{
-											pos: position{line: 524, col: 29, offset: 16251},
+											pos: position{line: 524, col: 29, offset: 16319},
 											expr: &seqExpr{
-												pos: position{line: 524, col: 30, offset: 16252},
+												pos: position{line: 524, col: 30, offset: 16320},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 524, col: 30, offset: 16252},
+														pos:        position{line: 524, col: 30, offset: 16320},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 524, col: 34, offset: 16256},
+														pos: position{line: 524, col: 34, offset: 16324},
 														expr: &actionExpr{
-															pos: position{line: 2852, col: 10, offset: 90239},
+															pos: position{line: 2862, col: 10, offset: 90584},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2852, col: 10, offset: 90239},
+																pos:        position{line: 2862, col: 10, offset: 90584},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13368,9 +13400,9 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 524, col: 45, offset: 16267},
+											pos: position{line: 524, col: 45, offset: 16335},
 											expr: &litMatcher{
-												pos:        position{line: 524, col: 46, offset: 16268},
+												pos:        position{line: 524, col: 46, offset: 16336},
 												val:        "]",
 												ignoreCase: false,
 												want:       "\"]\"",
@@ -13382,24 +13414,24 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 529, col: 6, offset: 16413},
+						pos: position{line: 529, col: 6, offset: 16481},
 						run: (*parser).callonPositionalAttribute15,
 						expr: &seqExpr{
-							pos: position{line: 529, col: 6, offset: 16413},
+							pos: position{line: 529, col: 6, offset: 16481},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 529, col: 6, offset: 16413},
+									pos:   position{line: 529, col: 6, offset: 16481},
 									label: "value",
 									expr: &seqExpr{
-										pos: position{line: 529, col: 13, offset: 16420},
+										pos: position{line: 529, col: 13, offset: 16488},
 										exprs: []interface{}{
 											&zeroOrMoreExpr{
-												pos: position{line: 529, col: 13, offset: 16420},
+												pos: position{line: 529, col: 13, offset: 16488},
 												expr: &actionExpr{
-													pos: position{line: 2852, col: 10, offset: 90239},
+													pos: position{line: 2862, col: 10, offset: 90584},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2852, col: 10, offset: 90239},
+														pos:        position{line: 2862, col: 10, offset: 90584},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13408,24 +13440,24 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 529, col: 21, offset: 16428},
+												pos: position{line: 529, col: 21, offset: 16496},
 												alternatives: []interface{}{
 													&seqExpr{
-														pos: position{line: 529, col: 22, offset: 16429},
+														pos: position{line: 529, col: 22, offset: 16497},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 529, col: 22, offset: 16429},
+																pos:        position{line: 529, col: 22, offset: 16497},
 																val:        ",",
 																ignoreCase: false,
 																want:       "\",\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 529, col: 26, offset: 16433},
+																pos: position{line: 529, col: 26, offset: 16501},
 																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
+																	pos: position{line: 2862, col: 10, offset: 90584},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		pos:        position{line: 2862, col: 10, offset: 90584},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13436,9 +13468,9 @@ var g = &grammar{
 														},
 													},
 													&andExpr{
-														pos: position{line: 529, col: 36, offset: 16443},
+														pos: position{line: 529, col: 36, offset: 16511},
 														expr: &litMatcher{
-															pos:        position{line: 529, col: 37, offset: 16444},
+															pos:        position{line: 529, col: 37, offset: 16512},
 															val:        "]",
 															ignoreCase: false,
 															want:       "\"]\"",
@@ -13450,7 +13482,7 @@ var g = &grammar{
 									},
 								},
 								&andCodeExpr{
-									pos: position{line: 530, col: 5, offset: 16454},
+									pos: position{line: 530, col: 5, offset: 16522},
 									run: (*parser).callonPositionalAttribute30,
 								},
 							},
@@ -13461,29 +13493,29 @@ var g = &grammar{
 		},
 		{
 			name: "NamedAttribute",
-			pos:  position{line: 540, col: 1, offset: 16769},
+			pos:  position{line: 540, col: 1, offset: 16837},
 			expr: &actionExpr{
-				pos: position{line: 541, col: 5, offset: 16792},
+				pos: position{line: 541, col: 5, offset: 16860},
 				run: (*parser).callonNamedAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 541, col: 5, offset: 16792},
+					pos: position{line: 541, col: 5, offset: 16860},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 541, col: 5, offset: 16792},
+							pos:   position{line: 541, col: 5, offset: 16860},
 							label: "key",
 							expr: &actionExpr{
-								pos: position{line: 549, col: 22, offset: 17080},
+								pos: position{line: 549, col: 22, offset: 17148},
 								run: (*parser).callonNamedAttribute4,
 								expr: &seqExpr{
-									pos: position{line: 549, col: 22, offset: 17080},
+									pos: position{line: 549, col: 22, offset: 17148},
 									exprs: []interface{}{
 										&notExpr{
-											pos: position{line: 549, col: 22, offset: 17080},
+											pos: position{line: 549, col: 22, offset: 17148},
 											expr: &actionExpr{
-												pos: position{line: 2852, col: 10, offset: 90239},
+												pos: position{line: 2862, col: 10, offset: 90584},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2852, col: 10, offset: 90239},
+													pos:        position{line: 2862, col: 10, offset: 90584},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13492,9 +13524,9 @@ var g = &grammar{
 											},
 										},
 										&oneOrMoreExpr{
-											pos: position{line: 549, col: 29, offset: 17087},
+											pos: position{line: 549, col: 29, offset: 17155},
 											expr: &charClassMatcher{
-												pos:        position{line: 549, col: 29, offset: 17087},
+												pos:        position{line: 549, col: 29, offset: 17155},
 												val:        "[^\\r\\n=,]]",
 												chars:      []rune{'\r', '\n', '=', ',', ']'},
 												ignoreCase: false,
@@ -13506,18 +13538,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 542, col: 5, offset: 16821},
+							pos:        position{line: 542, col: 5, offset: 16889},
 							val:        "=",
 							ignoreCase: false,
 							want:       "\"=\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 542, col: 9, offset: 16825},
+							pos: position{line: 542, col: 9, offset: 16893},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2862, col: 10, offset: 90584},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2862, col: 10, offset: 90584},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13526,31 +13558,31 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 543, col: 5, offset: 16837},
+							pos:   position{line: 543, col: 5, offset: 16905},
 							label: "value",
 							expr: &ruleRefExpr{
-								pos:  position{line: 543, col: 12, offset: 16844},
+								pos:  position{line: 543, col: 12, offset: 16912},
 								name: "AttributeValue",
 							},
 						},
 						&zeroOrOneExpr{
-							pos: position{line: 543, col: 28, offset: 16860},
+							pos: position{line: 543, col: 28, offset: 16928},
 							expr: &seqExpr{
-								pos: position{line: 543, col: 29, offset: 16861},
+								pos: position{line: 543, col: 29, offset: 16929},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 543, col: 29, offset: 16861},
+										pos:        position{line: 543, col: 29, offset: 16929},
 										val:        ",",
 										ignoreCase: false,
 										want:       "\",\"",
 									},
 									&zeroOrMoreExpr{
-										pos: position{line: 543, col: 33, offset: 16865},
+										pos: position{line: 543, col: 33, offset: 16933},
 										expr: &actionExpr{
-											pos: position{line: 2852, col: 10, offset: 90239},
+											pos: position{line: 2862, col: 10, offset: 90584},
 											run: (*parser).callonNamedAttribute21,
 											expr: &charClassMatcher{
-												pos:        position{line: 2852, col: 10, offset: 90239},
+												pos:        position{line: 2862, col: 10, offset: 90584},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13567,48 +13599,48 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeValue",
-			pos:  position{line: 553, col: 1, offset: 17144},
+			pos:  position{line: 553, col: 1, offset: 17212},
 			expr: &actionExpr{
-				pos: position{line: 554, col: 5, offset: 17167},
+				pos: position{line: 554, col: 5, offset: 17235},
 				run: (*parser).callonAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 554, col: 5, offset: 17167},
+					pos: position{line: 554, col: 5, offset: 17235},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 554, col: 5, offset: 17167},
+							pos:   position{line: 554, col: 5, offset: 17235},
 							label: "value",
 							expr: &choiceExpr{
-								pos: position{line: 555, col: 9, offset: 17183},
+								pos: position{line: 555, col: 9, offset: 17251},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 555, col: 9, offset: 17183},
+										pos:  position{line: 555, col: 9, offset: 17251},
 										name: "SingleQuotedAttributeValue",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 556, col: 11, offset: 17221},
+										pos:  position{line: 556, col: 11, offset: 17289},
 										name: "DoubleQuotedAttributeValue",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 557, col: 11, offset: 17259},
+										pos:  position{line: 557, col: 11, offset: 17327},
 										name: "UnquotedAttributeValue",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 559, col: 5, offset: 17293},
+							pos: position{line: 559, col: 5, offset: 17361},
 							expr: &notExpr{
-								pos: position{line: 559, col: 7, offset: 17295},
+								pos: position{line: 559, col: 7, offset: 17363},
 								expr: &seqExpr{
-									pos: position{line: 559, col: 9, offset: 17297},
+									pos: position{line: 559, col: 9, offset: 17365},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 559, col: 9, offset: 17297},
+											pos: position{line: 559, col: 9, offset: 17365},
 											expr: &actionExpr{
-												pos: position{line: 2852, col: 10, offset: 90239},
+												pos: position{line: 2862, col: 10, offset: 90584},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2852, col: 10, offset: 90239},
+													pos:        position{line: 2862, col: 10, offset: 90584},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13617,7 +13649,7 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 559, col: 16, offset: 17304},
+											pos:        position{line: 559, col: 16, offset: 17372},
 											val:        "=",
 											ignoreCase: false,
 											want:       "\"=\"",
@@ -13632,38 +13664,38 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedAttributeValue",
-			pos:  position{line: 563, col: 1, offset: 17345},
+			pos:  position{line: 563, col: 1, offset: 17413},
 			expr: &actionExpr{
-				pos: position{line: 564, col: 5, offset: 17380},
+				pos: position{line: 564, col: 5, offset: 17448},
 				run: (*parser).callonSingleQuotedAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 564, col: 5, offset: 17380},
+					pos: position{line: 564, col: 5, offset: 17448},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 564, col: 5, offset: 17380},
+							pos:        position{line: 564, col: 5, offset: 17448},
 							val:        "'",
 							ignoreCase: false,
 							want:       "\"'\"",
 						},
 						&notExpr{
-							pos: position{line: 564, col: 9, offset: 17384},
+							pos: position{line: 564, col: 9, offset: 17452},
 							expr: &litMatcher{
-								pos:        position{line: 564, col: 10, offset: 17385},
+								pos:        position{line: 564, col: 10, offset: 17453},
 								val:        "`",
 								ignoreCase: false,
 								want:       "\"`\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 565, col: 5, offset: 17464},
+							pos:   position{line: 565, col: 5, offset: 17532},
 							label: "content",
 							expr: &ruleRefExpr{
-								pos:  position{line: 565, col: 14, offset: 17473},
+								pos:  position{line: 565, col: 14, offset: 17541},
 								name: "SingleQuotedAttributeValueContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 566, col: 5, offset: 17512},
+							pos:        position{line: 566, col: 5, offset: 17580},
 							val:        "'",
 							ignoreCase: false,
 							want:       "\"'\"",
@@ -13674,25 +13706,25 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedAttributeValueContent",
-			pos:  position{line: 570, col: 1, offset: 17553},
+			pos:  position{line: 570, col: 1, offset: 17621},
 			expr: &actionExpr{
-				pos: position{line: 571, col: 5, offset: 17595},
+				pos: position{line: 571, col: 5, offset: 17663},
 				run: (*parser).callonSingleQuotedAttributeValueContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 571, col: 5, offset: 17595},
+					pos:   position{line: 571, col: 5, offset: 17663},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 571, col: 14, offset: 17604},
+						pos: position{line: 571, col: 14, offset: 17672},
 						expr: &choiceExpr{
-							pos: position{line: 572, col: 9, offset: 17614},
+							pos: position{line: 572, col: 9, offset: 17682},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2746, col: 14, offset: 87408},
+									pos: position{line: 2756, col: 14, offset: 87753},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2746, col: 14, offset: 87408},
+										pos: position{line: 2756, col: 14, offset: 87753},
 										expr: &charClassMatcher{
-											pos:        position{line: 2746, col: 14, offset: 87408},
+											pos:        position{line: 2756, col: 14, offset: 87753},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -13701,10 +13733,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2852, col: 10, offset: 90239},
+									pos: position{line: 2862, col: 10, offset: 90584},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2852, col: 10, offset: 90239},
+										pos:        position{line: 2862, col: 10, offset: 90584},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -13712,39 +13744,39 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 574, col: 11, offset: 17650},
+									pos:  position{line: 574, col: 11, offset: 17718},
 									name: "QuotationMark",
 								},
 								&actionExpr{
-									pos: position{line: 636, col: 5, offset: 20109},
+									pos: position{line: 636, col: 5, offset: 20177},
 									run: (*parser).callonSingleQuotedAttributeValueContent11,
 									expr: &seqExpr{
-										pos: position{line: 636, col: 5, offset: 20109},
+										pos: position{line: 636, col: 5, offset: 20177},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 636, col: 5, offset: 20109},
+												pos: position{line: 636, col: 5, offset: 20177},
 												run: (*parser).callonSingleQuotedAttributeValueContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 639, col: 5, offset: 20181},
+												pos:   position{line: 639, col: 5, offset: 20249},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 639, col: 14, offset: 20190},
+													pos: position{line: 639, col: 14, offset: 20258},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 645, col: 5, offset: 20319},
+															pos: position{line: 645, col: 5, offset: 20387},
 															run: (*parser).callonSingleQuotedAttributeValueContent16,
 															expr: &seqExpr{
-																pos: position{line: 645, col: 5, offset: 20319},
+																pos: position{line: 645, col: 5, offset: 20387},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 645, col: 5, offset: 20319},
+																		pos:        position{line: 645, col: 5, offset: 20387},
 																		val:        "\\{",
 																		ignoreCase: false,
 																		want:       "\"\\\\{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 645, col: 13, offset: 20327},
+																		pos:   position{line: 645, col: 13, offset: 20395},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9729},
@@ -13776,7 +13808,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 645, col: 32, offset: 20346},
+																		pos:        position{line: 645, col: 32, offset: 20414},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -13785,19 +13817,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 652, col: 5, offset: 20587},
+															pos: position{line: 652, col: 5, offset: 20655},
 															run: (*parser).callonSingleQuotedAttributeValueContent26,
 															expr: &seqExpr{
-																pos: position{line: 652, col: 5, offset: 20587},
+																pos: position{line: 652, col: 5, offset: 20655},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 652, col: 5, offset: 20587},
+																		pos:        position{line: 652, col: 5, offset: 20655},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 652, col: 9, offset: 20591},
+																		pos:   position{line: 652, col: 9, offset: 20659},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9729},
@@ -13829,7 +13861,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 652, col: 28, offset: 20610},
+																		pos:        position{line: 652, col: 28, offset: 20678},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -13838,19 +13870,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 658, col: 25, offset: 20791},
+															pos: position{line: 658, col: 25, offset: 20859},
 															run: (*parser).callonSingleQuotedAttributeValueContent36,
 															expr: &seqExpr{
-																pos: position{line: 658, col: 25, offset: 20791},
+																pos: position{line: 658, col: 25, offset: 20859},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 658, col: 25, offset: 20791},
+																		pos:        position{line: 658, col: 25, offset: 20859},
 																		val:        "{counter:",
 																		ignoreCase: false,
 																		want:       "\"{counter:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 658, col: 37, offset: 20803},
+																		pos:   position{line: 658, col: 37, offset: 20871},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9729},
@@ -13882,33 +13914,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 658, col: 56, offset: 20822},
+																		pos:   position{line: 658, col: 56, offset: 20890},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 658, col: 62, offset: 20828},
+																			pos: position{line: 658, col: 62, offset: 20896},
 																			expr: &actionExpr{
-																				pos: position{line: 666, col: 17, offset: 21123},
+																				pos: position{line: 666, col: 17, offset: 21191},
 																				run: (*parser).callonSingleQuotedAttributeValueContent47,
 																				expr: &seqExpr{
-																					pos: position{line: 666, col: 17, offset: 21123},
+																					pos: position{line: 666, col: 17, offset: 21191},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 666, col: 17, offset: 21123},
+																							pos:        position{line: 666, col: 17, offset: 21191},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 666, col: 21, offset: 21127},
+																							pos:   position{line: 666, col: 21, offset: 21195},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 666, col: 28, offset: 21134},
+																								pos: position{line: 666, col: 28, offset: 21202},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 666, col: 28, offset: 21134},
+																										pos: position{line: 666, col: 28, offset: 21202},
 																										run: (*parser).callonSingleQuotedAttributeValueContent52,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 666, col: 28, offset: 21134},
+																											pos:        position{line: 666, col: 28, offset: 21202},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -13916,12 +13948,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 668, col: 9, offset: 21188},
+																										pos: position{line: 668, col: 9, offset: 21256},
 																										run: (*parser).callonSingleQuotedAttributeValueContent54,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 668, col: 9, offset: 21188},
+																											pos: position{line: 668, col: 9, offset: 21256},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 668, col: 9, offset: 21188},
+																												pos:        position{line: 668, col: 9, offset: 21256},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -13938,7 +13970,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 658, col: 78, offset: 20844},
+																		pos:        position{line: 658, col: 78, offset: 20912},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -13947,19 +13979,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 662, col: 25, offset: 20962},
+															pos: position{line: 662, col: 25, offset: 21030},
 															run: (*parser).callonSingleQuotedAttributeValueContent58,
 															expr: &seqExpr{
-																pos: position{line: 662, col: 25, offset: 20962},
+																pos: position{line: 662, col: 25, offset: 21030},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 662, col: 25, offset: 20962},
+																		pos:        position{line: 662, col: 25, offset: 21030},
 																		val:        "{counter2:",
 																		ignoreCase: false,
 																		want:       "\"{counter2:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 662, col: 38, offset: 20975},
+																		pos:   position{line: 662, col: 38, offset: 21043},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9729},
@@ -13991,33 +14023,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 662, col: 57, offset: 20994},
+																		pos:   position{line: 662, col: 57, offset: 21062},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 662, col: 63, offset: 21000},
+																			pos: position{line: 662, col: 63, offset: 21068},
 																			expr: &actionExpr{
-																				pos: position{line: 666, col: 17, offset: 21123},
+																				pos: position{line: 666, col: 17, offset: 21191},
 																				run: (*parser).callonSingleQuotedAttributeValueContent69,
 																				expr: &seqExpr{
-																					pos: position{line: 666, col: 17, offset: 21123},
+																					pos: position{line: 666, col: 17, offset: 21191},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 666, col: 17, offset: 21123},
+																							pos:        position{line: 666, col: 17, offset: 21191},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 666, col: 21, offset: 21127},
+																							pos:   position{line: 666, col: 21, offset: 21195},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 666, col: 28, offset: 21134},
+																								pos: position{line: 666, col: 28, offset: 21202},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 666, col: 28, offset: 21134},
+																										pos: position{line: 666, col: 28, offset: 21202},
 																										run: (*parser).callonSingleQuotedAttributeValueContent74,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 666, col: 28, offset: 21134},
+																											pos:        position{line: 666, col: 28, offset: 21202},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14025,12 +14057,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 668, col: 9, offset: 21188},
+																										pos: position{line: 668, col: 9, offset: 21256},
 																										run: (*parser).callonSingleQuotedAttributeValueContent76,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 668, col: 9, offset: 21188},
+																											pos: position{line: 668, col: 9, offset: 21256},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 668, col: 9, offset: 21188},
+																												pos:        position{line: 668, col: 9, offset: 21256},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14047,7 +14079,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 662, col: 79, offset: 21016},
+																		pos:        position{line: 662, col: 79, offset: 21084},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14062,44 +14094,44 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 576, col: 12, offset: 17704},
+									pos: position{line: 576, col: 12, offset: 17772},
 									run: (*parser).callonSingleQuotedAttributeValueContent80,
 									expr: &litMatcher{
-										pos:        position{line: 576, col: 12, offset: 17704},
+										pos:        position{line: 576, col: 12, offset: 17772},
 										val:        "\\'",
 										ignoreCase: false,
 										want:       "\"\\\\'\"",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 579, col: 13, offset: 17806},
+									pos:        position{line: 579, col: 13, offset: 17874},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&litMatcher{
-									pos:        position{line: 579, col: 20, offset: 17813},
+									pos:        position{line: 579, col: 20, offset: 17881},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&actionExpr{
-									pos: position{line: 579, col: 27, offset: 17820},
+									pos: position{line: 579, col: 27, offset: 17888},
 									run: (*parser).callonSingleQuotedAttributeValueContent84,
 									expr: &litMatcher{
-										pos:        position{line: 579, col: 27, offset: 17820},
+										pos:        position{line: 579, col: 27, offset: 17888},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
 									},
 								},
 								&actionExpr{
-									pos: position{line: 582, col: 12, offset: 17980},
+									pos: position{line: 582, col: 12, offset: 18048},
 									run: (*parser).callonSingleQuotedAttributeValueContent86,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 582, col: 12, offset: 17980},
+										pos: position{line: 582, col: 12, offset: 18048},
 										expr: &charClassMatcher{
-											pos:        position{line: 582, col: 12, offset: 17980},
+											pos:        position{line: 582, col: 12, offset: 18048},
 											val:        "[^\\r\\n\\\\\\ ]",
 											chars:      []rune{'\r', '\n', '\\', '\'', ' '},
 											ignoreCase: false,
@@ -14115,56 +14147,56 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedAttributeValue",
-			pos:  position{line: 589, col: 1, offset: 18177},
+			pos:  position{line: 589, col: 1, offset: 18245},
 			expr: &actionExpr{
-				pos: position{line: 590, col: 5, offset: 18212},
+				pos: position{line: 590, col: 5, offset: 18280},
 				run: (*parser).callonDoubleQuotedAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 590, col: 5, offset: 18212},
+					pos: position{line: 590, col: 5, offset: 18280},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 590, col: 5, offset: 18212},
+							pos:        position{line: 590, col: 5, offset: 18280},
 							val:        "\"",
 							ignoreCase: false,
 							want:       "\"\\\"\"",
 						},
 						&notExpr{
-							pos: position{line: 590, col: 10, offset: 18217},
+							pos: position{line: 590, col: 10, offset: 18285},
 							expr: &litMatcher{
-								pos:        position{line: 590, col: 11, offset: 18218},
+								pos:        position{line: 590, col: 11, offset: 18286},
 								val:        "`",
 								ignoreCase: false,
 								want:       "\"`\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 591, col: 5, offset: 18297},
+							pos:   position{line: 591, col: 5, offset: 18365},
 							label: "content",
 							expr: &ruleRefExpr{
-								pos:  position{line: 591, col: 14, offset: 18306},
+								pos:  position{line: 591, col: 14, offset: 18374},
 								name: "DoubleQuotedAttributeValueContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 592, col: 5, offset: 18345},
+							pos:        position{line: 592, col: 5, offset: 18413},
 							val:        "\"",
 							ignoreCase: false,
 							want:       "\"\\\"\"",
 						},
 						&andExpr{
-							pos: position{line: 592, col: 10, offset: 18350},
+							pos: position{line: 592, col: 10, offset: 18418},
 							expr: &notExpr{
-								pos: position{line: 592, col: 12, offset: 18352},
+								pos: position{line: 592, col: 12, offset: 18420},
 								expr: &seqExpr{
-									pos: position{line: 592, col: 14, offset: 18354},
+									pos: position{line: 592, col: 14, offset: 18422},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 592, col: 14, offset: 18354},
+											pos: position{line: 592, col: 14, offset: 18422},
 											expr: &actionExpr{
-												pos: position{line: 2852, col: 10, offset: 90239},
+												pos: position{line: 2862, col: 10, offset: 90584},
 												run: (*parser).callonDoubleQuotedAttributeValue13,
 												expr: &charClassMatcher{
-													pos:        position{line: 2852, col: 10, offset: 90239},
+													pos:        position{line: 2862, col: 10, offset: 90584},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14173,7 +14205,7 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 592, col: 21, offset: 18361},
+											pos:        position{line: 592, col: 21, offset: 18429},
 											val:        "=",
 											ignoreCase: false,
 											want:       "\"=\"",
@@ -14188,25 +14220,25 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedAttributeValueContent",
-			pos:  position{line: 596, col: 1, offset: 18404},
+			pos:  position{line: 596, col: 1, offset: 18472},
 			expr: &actionExpr{
-				pos: position{line: 597, col: 5, offset: 18446},
+				pos: position{line: 597, col: 5, offset: 18514},
 				run: (*parser).callonDoubleQuotedAttributeValueContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 597, col: 5, offset: 18446},
+					pos:   position{line: 597, col: 5, offset: 18514},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 597, col: 14, offset: 18455},
+						pos: position{line: 597, col: 14, offset: 18523},
 						expr: &choiceExpr{
-							pos: position{line: 598, col: 9, offset: 18465},
+							pos: position{line: 598, col: 9, offset: 18533},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2746, col: 14, offset: 87408},
+									pos: position{line: 2756, col: 14, offset: 87753},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2746, col: 14, offset: 87408},
+										pos: position{line: 2756, col: 14, offset: 87753},
 										expr: &charClassMatcher{
-											pos:        position{line: 2746, col: 14, offset: 87408},
+											pos:        position{line: 2756, col: 14, offset: 87753},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14215,10 +14247,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2852, col: 10, offset: 90239},
+									pos: position{line: 2862, col: 10, offset: 90584},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2852, col: 10, offset: 90239},
+										pos:        position{line: 2862, col: 10, offset: 90584},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14226,39 +14258,39 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 600, col: 11, offset: 18501},
+									pos:  position{line: 600, col: 11, offset: 18569},
 									name: "QuotationMark",
 								},
 								&actionExpr{
-									pos: position{line: 636, col: 5, offset: 20109},
+									pos: position{line: 636, col: 5, offset: 20177},
 									run: (*parser).callonDoubleQuotedAttributeValueContent11,
 									expr: &seqExpr{
-										pos: position{line: 636, col: 5, offset: 20109},
+										pos: position{line: 636, col: 5, offset: 20177},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 636, col: 5, offset: 20109},
+												pos: position{line: 636, col: 5, offset: 20177},
 												run: (*parser).callonDoubleQuotedAttributeValueContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 639, col: 5, offset: 20181},
+												pos:   position{line: 639, col: 5, offset: 20249},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 639, col: 14, offset: 20190},
+													pos: position{line: 639, col: 14, offset: 20258},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 645, col: 5, offset: 20319},
+															pos: position{line: 645, col: 5, offset: 20387},
 															run: (*parser).callonDoubleQuotedAttributeValueContent16,
 															expr: &seqExpr{
-																pos: position{line: 645, col: 5, offset: 20319},
+																pos: position{line: 645, col: 5, offset: 20387},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 645, col: 5, offset: 20319},
+																		pos:        position{line: 645, col: 5, offset: 20387},
 																		val:        "\\{",
 																		ignoreCase: false,
 																		want:       "\"\\\\{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 645, col: 13, offset: 20327},
+																		pos:   position{line: 645, col: 13, offset: 20395},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9729},
@@ -14290,7 +14322,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 645, col: 32, offset: 20346},
+																		pos:        position{line: 645, col: 32, offset: 20414},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14299,19 +14331,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 652, col: 5, offset: 20587},
+															pos: position{line: 652, col: 5, offset: 20655},
 															run: (*parser).callonDoubleQuotedAttributeValueContent26,
 															expr: &seqExpr{
-																pos: position{line: 652, col: 5, offset: 20587},
+																pos: position{line: 652, col: 5, offset: 20655},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 652, col: 5, offset: 20587},
+																		pos:        position{line: 652, col: 5, offset: 20655},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 652, col: 9, offset: 20591},
+																		pos:   position{line: 652, col: 9, offset: 20659},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9729},
@@ -14343,7 +14375,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 652, col: 28, offset: 20610},
+																		pos:        position{line: 652, col: 28, offset: 20678},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14352,19 +14384,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 658, col: 25, offset: 20791},
+															pos: position{line: 658, col: 25, offset: 20859},
 															run: (*parser).callonDoubleQuotedAttributeValueContent36,
 															expr: &seqExpr{
-																pos: position{line: 658, col: 25, offset: 20791},
+																pos: position{line: 658, col: 25, offset: 20859},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 658, col: 25, offset: 20791},
+																		pos:        position{line: 658, col: 25, offset: 20859},
 																		val:        "{counter:",
 																		ignoreCase: false,
 																		want:       "\"{counter:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 658, col: 37, offset: 20803},
+																		pos:   position{line: 658, col: 37, offset: 20871},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9729},
@@ -14396,33 +14428,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 658, col: 56, offset: 20822},
+																		pos:   position{line: 658, col: 56, offset: 20890},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 658, col: 62, offset: 20828},
+																			pos: position{line: 658, col: 62, offset: 20896},
 																			expr: &actionExpr{
-																				pos: position{line: 666, col: 17, offset: 21123},
+																				pos: position{line: 666, col: 17, offset: 21191},
 																				run: (*parser).callonDoubleQuotedAttributeValueContent47,
 																				expr: &seqExpr{
-																					pos: position{line: 666, col: 17, offset: 21123},
+																					pos: position{line: 666, col: 17, offset: 21191},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 666, col: 17, offset: 21123},
+																							pos:        position{line: 666, col: 17, offset: 21191},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 666, col: 21, offset: 21127},
+																							pos:   position{line: 666, col: 21, offset: 21195},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 666, col: 28, offset: 21134},
+																								pos: position{line: 666, col: 28, offset: 21202},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 666, col: 28, offset: 21134},
+																										pos: position{line: 666, col: 28, offset: 21202},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent52,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 666, col: 28, offset: 21134},
+																											pos:        position{line: 666, col: 28, offset: 21202},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14430,12 +14462,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 668, col: 9, offset: 21188},
+																										pos: position{line: 668, col: 9, offset: 21256},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent54,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 668, col: 9, offset: 21188},
+																											pos: position{line: 668, col: 9, offset: 21256},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 668, col: 9, offset: 21188},
+																												pos:        position{line: 668, col: 9, offset: 21256},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14452,7 +14484,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 658, col: 78, offset: 20844},
+																		pos:        position{line: 658, col: 78, offset: 20912},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14461,19 +14493,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 662, col: 25, offset: 20962},
+															pos: position{line: 662, col: 25, offset: 21030},
 															run: (*parser).callonDoubleQuotedAttributeValueContent58,
 															expr: &seqExpr{
-																pos: position{line: 662, col: 25, offset: 20962},
+																pos: position{line: 662, col: 25, offset: 21030},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 662, col: 25, offset: 20962},
+																		pos:        position{line: 662, col: 25, offset: 21030},
 																		val:        "{counter2:",
 																		ignoreCase: false,
 																		want:       "\"{counter2:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 662, col: 38, offset: 20975},
+																		pos:   position{line: 662, col: 38, offset: 21043},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9729},
@@ -14505,33 +14537,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 662, col: 57, offset: 20994},
+																		pos:   position{line: 662, col: 57, offset: 21062},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 662, col: 63, offset: 21000},
+																			pos: position{line: 662, col: 63, offset: 21068},
 																			expr: &actionExpr{
-																				pos: position{line: 666, col: 17, offset: 21123},
+																				pos: position{line: 666, col: 17, offset: 21191},
 																				run: (*parser).callonDoubleQuotedAttributeValueContent69,
 																				expr: &seqExpr{
-																					pos: position{line: 666, col: 17, offset: 21123},
+																					pos: position{line: 666, col: 17, offset: 21191},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 666, col: 17, offset: 21123},
+																							pos:        position{line: 666, col: 17, offset: 21191},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 666, col: 21, offset: 21127},
+																							pos:   position{line: 666, col: 21, offset: 21195},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 666, col: 28, offset: 21134},
+																								pos: position{line: 666, col: 28, offset: 21202},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 666, col: 28, offset: 21134},
+																										pos: position{line: 666, col: 28, offset: 21202},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent74,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 666, col: 28, offset: 21134},
+																											pos:        position{line: 666, col: 28, offset: 21202},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14539,12 +14571,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 668, col: 9, offset: 21188},
+																										pos: position{line: 668, col: 9, offset: 21256},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent76,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 668, col: 9, offset: 21188},
+																											pos: position{line: 668, col: 9, offset: 21256},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 668, col: 9, offset: 21188},
+																												pos:        position{line: 668, col: 9, offset: 21256},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14561,7 +14593,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 662, col: 79, offset: 21016},
+																		pos:        position{line: 662, col: 79, offset: 21084},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14576,50 +14608,50 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 602, col: 12, offset: 18556},
+									pos: position{line: 602, col: 12, offset: 18624},
 									run: (*parser).callonDoubleQuotedAttributeValueContent80,
 									expr: &litMatcher{
-										pos:        position{line: 602, col: 12, offset: 18556},
+										pos:        position{line: 602, col: 12, offset: 18624},
 										val:        "\\\"",
 										ignoreCase: false,
 										want:       "\"\\\\\\\"\"",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 605, col: 13, offset: 18658},
+									pos:        position{line: 605, col: 13, offset: 18726},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&litMatcher{
-									pos:        position{line: 605, col: 21, offset: 18666},
+									pos:        position{line: 605, col: 21, offset: 18734},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&litMatcher{
-									pos:        position{line: 605, col: 29, offset: 18674},
+									pos:        position{line: 605, col: 29, offset: 18742},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&actionExpr{
-									pos: position{line: 605, col: 35, offset: 18680},
+									pos: position{line: 605, col: 35, offset: 18748},
 									run: (*parser).callonDoubleQuotedAttributeValueContent85,
 									expr: &litMatcher{
-										pos:        position{line: 605, col: 35, offset: 18680},
+										pos:        position{line: 605, col: 35, offset: 18748},
 										val:        "`",
 										ignoreCase: false,
 										want:       "\"`\"",
 									},
 								},
 								&actionExpr{
-									pos: position{line: 608, col: 12, offset: 18863},
+									pos: position{line: 608, col: 12, offset: 18931},
 									run: (*parser).callonDoubleQuotedAttributeValueContent87,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 608, col: 12, offset: 18863},
+										pos: position{line: 608, col: 12, offset: 18931},
 										expr: &charClassMatcher{
-											pos:        position{line: 608, col: 12, offset: 18863},
+											pos:        position{line: 608, col: 12, offset: 18931},
 											val:        "[^\\r\\n\\\\\"` ]",
 											chars:      []rune{'\r', '\n', '\\', '"', '`', ' '},
 											ignoreCase: false,
@@ -14635,20 +14667,20 @@ var g = &grammar{
 		},
 		{
 			name: "UnquotedAttributeValue",
-			pos:  position{line: 616, col: 1, offset: 19137},
+			pos:  position{line: 616, col: 1, offset: 19205},
 			expr: &actionExpr{
-				pos: position{line: 619, col: 5, offset: 19321},
+				pos: position{line: 619, col: 5, offset: 19389},
 				run: (*parser).callonUnquotedAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 619, col: 5, offset: 19321},
+					pos: position{line: 619, col: 5, offset: 19389},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 619, col: 5, offset: 19321},
+							pos: position{line: 619, col: 5, offset: 19389},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2862, col: 10, offset: 90584},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2862, col: 10, offset: 90584},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -14657,28 +14689,28 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 620, col: 5, offset: 19390},
+							pos:   position{line: 620, col: 5, offset: 19458},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 620, col: 14, offset: 19399},
+								pos: position{line: 620, col: 14, offset: 19467},
 								expr: &choiceExpr{
-									pos: position{line: 621, col: 9, offset: 19409},
+									pos: position{line: 621, col: 9, offset: 19477},
 									alternatives: []interface{}{
 										&seqExpr{
-											pos: position{line: 621, col: 10, offset: 19410},
+											pos: position{line: 621, col: 10, offset: 19478},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 621, col: 10, offset: 19410},
+													pos:        position{line: 621, col: 10, offset: 19478},
 													val:        "[",
 													ignoreCase: false,
 													want:       "\"[\"",
 												},
 												&ruleRefExpr{
-													pos:  position{line: 621, col: 14, offset: 19414},
+													pos:  position{line: 621, col: 14, offset: 19482},
 													name: "UnquotedAttributeValue",
 												},
 												&litMatcher{
-													pos:        position{line: 621, col: 37, offset: 19437},
+													pos:        position{line: 621, col: 37, offset: 19505},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
@@ -14686,35 +14718,35 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 636, col: 5, offset: 20109},
+											pos: position{line: 636, col: 5, offset: 20177},
 											run: (*parser).callonUnquotedAttributeValue13,
 											expr: &seqExpr{
-												pos: position{line: 636, col: 5, offset: 20109},
+												pos: position{line: 636, col: 5, offset: 20177},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 636, col: 5, offset: 20109},
+														pos: position{line: 636, col: 5, offset: 20177},
 														run: (*parser).callonUnquotedAttributeValue15,
 													},
 													&labeledExpr{
-														pos:   position{line: 639, col: 5, offset: 20181},
+														pos:   position{line: 639, col: 5, offset: 20249},
 														label: "element",
 														expr: &choiceExpr{
-															pos: position{line: 639, col: 14, offset: 20190},
+															pos: position{line: 639, col: 14, offset: 20258},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 645, col: 5, offset: 20319},
+																	pos: position{line: 645, col: 5, offset: 20387},
 																	run: (*parser).callonUnquotedAttributeValue18,
 																	expr: &seqExpr{
-																		pos: position{line: 645, col: 5, offset: 20319},
+																		pos: position{line: 645, col: 5, offset: 20387},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 645, col: 5, offset: 20319},
+																				pos:        position{line: 645, col: 5, offset: 20387},
 																				val:        "\\{",
 																				ignoreCase: false,
 																				want:       "\"\\\\{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 645, col: 13, offset: 20327},
+																				pos:   position{line: 645, col: 13, offset: 20395},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9729},
@@ -14746,7 +14778,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 645, col: 32, offset: 20346},
+																				pos:        position{line: 645, col: 32, offset: 20414},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -14755,19 +14787,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 652, col: 5, offset: 20587},
+																	pos: position{line: 652, col: 5, offset: 20655},
 																	run: (*parser).callonUnquotedAttributeValue28,
 																	expr: &seqExpr{
-																		pos: position{line: 652, col: 5, offset: 20587},
+																		pos: position{line: 652, col: 5, offset: 20655},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 652, col: 5, offset: 20587},
+																				pos:        position{line: 652, col: 5, offset: 20655},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 652, col: 9, offset: 20591},
+																				pos:   position{line: 652, col: 9, offset: 20659},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9729},
@@ -14799,7 +14831,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 652, col: 28, offset: 20610},
+																				pos:        position{line: 652, col: 28, offset: 20678},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -14808,19 +14840,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 658, col: 25, offset: 20791},
+																	pos: position{line: 658, col: 25, offset: 20859},
 																	run: (*parser).callonUnquotedAttributeValue38,
 																	expr: &seqExpr{
-																		pos: position{line: 658, col: 25, offset: 20791},
+																		pos: position{line: 658, col: 25, offset: 20859},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 658, col: 25, offset: 20791},
+																				pos:        position{line: 658, col: 25, offset: 20859},
 																				val:        "{counter:",
 																				ignoreCase: false,
 																				want:       "\"{counter:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 658, col: 37, offset: 20803},
+																				pos:   position{line: 658, col: 37, offset: 20871},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9729},
@@ -14852,33 +14884,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 658, col: 56, offset: 20822},
+																				pos:   position{line: 658, col: 56, offset: 20890},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 658, col: 62, offset: 20828},
+																					pos: position{line: 658, col: 62, offset: 20896},
 																					expr: &actionExpr{
-																						pos: position{line: 666, col: 17, offset: 21123},
+																						pos: position{line: 666, col: 17, offset: 21191},
 																						run: (*parser).callonUnquotedAttributeValue49,
 																						expr: &seqExpr{
-																							pos: position{line: 666, col: 17, offset: 21123},
+																							pos: position{line: 666, col: 17, offset: 21191},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 666, col: 17, offset: 21123},
+																									pos:        position{line: 666, col: 17, offset: 21191},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 666, col: 21, offset: 21127},
+																									pos:   position{line: 666, col: 21, offset: 21195},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 666, col: 28, offset: 21134},
+																										pos: position{line: 666, col: 28, offset: 21202},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 666, col: 28, offset: 21134},
+																												pos: position{line: 666, col: 28, offset: 21202},
 																												run: (*parser).callonUnquotedAttributeValue54,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 666, col: 28, offset: 21134},
+																													pos:        position{line: 666, col: 28, offset: 21202},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -14886,12 +14918,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 668, col: 9, offset: 21188},
+																												pos: position{line: 668, col: 9, offset: 21256},
 																												run: (*parser).callonUnquotedAttributeValue56,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 668, col: 9, offset: 21188},
+																													pos: position{line: 668, col: 9, offset: 21256},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 668, col: 9, offset: 21188},
+																														pos:        position{line: 668, col: 9, offset: 21256},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -14908,7 +14940,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 658, col: 78, offset: 20844},
+																				pos:        position{line: 658, col: 78, offset: 20912},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -14917,19 +14949,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 662, col: 25, offset: 20962},
+																	pos: position{line: 662, col: 25, offset: 21030},
 																	run: (*parser).callonUnquotedAttributeValue60,
 																	expr: &seqExpr{
-																		pos: position{line: 662, col: 25, offset: 20962},
+																		pos: position{line: 662, col: 25, offset: 21030},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 662, col: 25, offset: 20962},
+																				pos:        position{line: 662, col: 25, offset: 21030},
 																				val:        "{counter2:",
 																				ignoreCase: false,
 																				want:       "\"{counter2:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 662, col: 38, offset: 20975},
+																				pos:   position{line: 662, col: 38, offset: 21043},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9729},
@@ -14961,33 +14993,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 662, col: 57, offset: 20994},
+																				pos:   position{line: 662, col: 57, offset: 21062},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 662, col: 63, offset: 21000},
+																					pos: position{line: 662, col: 63, offset: 21068},
 																					expr: &actionExpr{
-																						pos: position{line: 666, col: 17, offset: 21123},
+																						pos: position{line: 666, col: 17, offset: 21191},
 																						run: (*parser).callonUnquotedAttributeValue71,
 																						expr: &seqExpr{
-																							pos: position{line: 666, col: 17, offset: 21123},
+																							pos: position{line: 666, col: 17, offset: 21191},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 666, col: 17, offset: 21123},
+																									pos:        position{line: 666, col: 17, offset: 21191},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 666, col: 21, offset: 21127},
+																									pos:   position{line: 666, col: 21, offset: 21195},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 666, col: 28, offset: 21134},
+																										pos: position{line: 666, col: 28, offset: 21202},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 666, col: 28, offset: 21134},
+																												pos: position{line: 666, col: 28, offset: 21202},
 																												run: (*parser).callonUnquotedAttributeValue76,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 666, col: 28, offset: 21134},
+																													pos:        position{line: 666, col: 28, offset: 21202},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -14995,12 +15027,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 668, col: 9, offset: 21188},
+																												pos: position{line: 668, col: 9, offset: 21256},
 																												run: (*parser).callonUnquotedAttributeValue78,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 668, col: 9, offset: 21188},
+																													pos: position{line: 668, col: 9, offset: 21256},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 668, col: 9, offset: 21188},
+																														pos:        position{line: 668, col: 9, offset: 21256},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -15017,7 +15049,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 662, col: 79, offset: 21016},
+																				pos:        position{line: 662, col: 79, offset: 21084},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -15032,16 +15064,16 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 622, col: 32, offset: 19524},
+											pos:        position{line: 622, col: 32, offset: 19592},
 											val:        "{",
 											ignoreCase: false,
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2852, col: 10, offset: 90239},
+											pos: position{line: 2862, col: 10, offset: 90584},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2852, col: 10, offset: 90239},
+												pos:        position{line: 2862, col: 10, offset: 90584},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -15049,12 +15081,12 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 624, col: 12, offset: 19609},
+											pos: position{line: 624, col: 12, offset: 19677},
 											run: (*parser).callonUnquotedAttributeValue85,
 											expr: &oneOrMoreExpr{
-												pos: position{line: 624, col: 12, offset: 19609},
+												pos: position{line: 624, col: 12, offset: 19677},
 												expr: &charClassMatcher{
-													pos:        position{line: 624, col: 12, offset: 19609},
+													pos:        position{line: 624, col: 12, offset: 19677},
 													val:        "[^=,]{ ]",
 													chars:      []rune{'=', ',', ']', '{', ' '},
 													ignoreCase: false,
@@ -15072,32 +15104,32 @@ var g = &grammar{
 		},
 		{
 			name: "CrossReference",
-			pos:  position{line: 684, col: 1, offset: 21750},
+			pos:  position{line: 684, col: 1, offset: 21818},
 			expr: &choiceExpr{
-				pos: position{line: 684, col: 19, offset: 21768},
+				pos: position{line: 684, col: 19, offset: 21836},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 686, col: 27, offset: 21844},
+						pos: position{line: 686, col: 27, offset: 21912},
 						run: (*parser).callonCrossReference2,
 						expr: &seqExpr{
-							pos: position{line: 686, col: 27, offset: 21844},
+							pos: position{line: 686, col: 27, offset: 21912},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 686, col: 27, offset: 21844},
+									pos:        position{line: 686, col: 27, offset: 21912},
 									val:        "<<",
 									ignoreCase: false,
 									want:       "\"<<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 686, col: 32, offset: 21849},
+									pos:   position{line: 686, col: 32, offset: 21917},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2837, col: 7, offset: 89891},
+										pos: position{line: 2847, col: 7, offset: 90236},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2837, col: 7, offset: 89891},
+											pos: position{line: 2847, col: 7, offset: 90236},
 											expr: &charClassMatcher{
-												pos:        position{line: 2837, col: 7, offset: 89891},
+												pos:        position{line: 2847, col: 7, offset: 90236},
 												val:        "[^[]<>,\\r\\n]",
 												chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 												ignoreCase: false,
@@ -15107,12 +15139,12 @@ var g = &grammar{
 									},
 								},
 								&zeroOrMoreExpr{
-									pos: position{line: 686, col: 40, offset: 21857},
+									pos: position{line: 686, col: 40, offset: 21925},
 									expr: &actionExpr{
-										pos: position{line: 2852, col: 10, offset: 90239},
+										pos: position{line: 2862, col: 10, offset: 90584},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2852, col: 10, offset: 90239},
+											pos:        position{line: 2862, col: 10, offset: 90584},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15121,18 +15153,18 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 686, col: 47, offset: 21864},
+									pos:        position{line: 686, col: 47, offset: 21932},
 									val:        ",",
 									ignoreCase: false,
 									want:       "\",\"",
 								},
 								&zeroOrMoreExpr{
-									pos: position{line: 686, col: 51, offset: 21868},
+									pos: position{line: 686, col: 51, offset: 21936},
 									expr: &actionExpr{
-										pos: position{line: 2852, col: 10, offset: 90239},
+										pos: position{line: 2862, col: 10, offset: 90584},
 										run: (*parser).callonCrossReference14,
 										expr: &charClassMatcher{
-											pos:        position{line: 2852, col: 10, offset: 90239},
+											pos:        position{line: 2862, col: 10, offset: 90584},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15141,20 +15173,20 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 686, col: 58, offset: 21875},
+									pos:   position{line: 686, col: 58, offset: 21943},
 									label: "label",
 									expr: &oneOrMoreExpr{
-										pos: position{line: 696, col: 24, offset: 22276},
+										pos: position{line: 696, col: 24, offset: 22344},
 										expr: &choiceExpr{
-											pos: position{line: 697, col: 5, offset: 22282},
+											pos: position{line: 697, col: 5, offset: 22350},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 697, col: 6, offset: 22283},
+													pos: position{line: 697, col: 6, offset: 22351},
 													run: (*parser).callonCrossReference19,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 697, col: 6, offset: 22283},
+														pos: position{line: 697, col: 6, offset: 22351},
 														expr: &charClassMatcher{
-															pos:        position{line: 697, col: 6, offset: 22283},
+															pos:        position{line: 697, col: 6, offset: 22351},
 															val:        "[^\\r\\n{<>]",
 															chars:      []rune{'\r', '\n', '{', '<', '>'},
 															ignoreCase: false,
@@ -15163,19 +15195,19 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 645, col: 5, offset: 20319},
+													pos: position{line: 645, col: 5, offset: 20387},
 													run: (*parser).callonCrossReference22,
 													expr: &seqExpr{
-														pos: position{line: 645, col: 5, offset: 20319},
+														pos: position{line: 645, col: 5, offset: 20387},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 645, col: 5, offset: 20319},
+																pos:        position{line: 645, col: 5, offset: 20387},
 																val:        "\\{",
 																ignoreCase: false,
 																want:       "\"\\\\{\"",
 															},
 															&labeledExpr{
-																pos:   position{line: 645, col: 13, offset: 20327},
+																pos:   position{line: 645, col: 13, offset: 20395},
 																label: "name",
 																expr: &actionExpr{
 																	pos: position{line: 318, col: 18, offset: 9729},
@@ -15207,7 +15239,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 645, col: 32, offset: 20346},
+																pos:        position{line: 645, col: 32, offset: 20414},
 																val:        "}",
 																ignoreCase: false,
 																want:       "\"}\"",
@@ -15216,19 +15248,19 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 652, col: 5, offset: 20587},
+													pos: position{line: 652, col: 5, offset: 20655},
 													run: (*parser).callonCrossReference32,
 													expr: &seqExpr{
-														pos: position{line: 652, col: 5, offset: 20587},
+														pos: position{line: 652, col: 5, offset: 20655},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 652, col: 5, offset: 20587},
+																pos:        position{line: 652, col: 5, offset: 20655},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
 															},
 															&labeledExpr{
-																pos:   position{line: 652, col: 9, offset: 20591},
+																pos:   position{line: 652, col: 9, offset: 20659},
 																label: "name",
 																expr: &actionExpr{
 																	pos: position{line: 318, col: 18, offset: 9729},
@@ -15260,7 +15292,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 652, col: 28, offset: 20610},
+																pos:        position{line: 652, col: 28, offset: 20678},
 																val:        "}",
 																ignoreCase: false,
 																want:       "\"}\"",
@@ -15269,10 +15301,10 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 701, col: 8, offset: 22510},
+													pos: position{line: 701, col: 8, offset: 22578},
 													run: (*parser).callonCrossReference42,
 													expr: &litMatcher{
-														pos:        position{line: 701, col: 8, offset: 22510},
+														pos:        position{line: 701, col: 8, offset: 22578},
 														val:        "{",
 														ignoreCase: false,
 														want:       "\"{\"",
@@ -15283,7 +15315,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 686, col: 86, offset: 21903},
+									pos:        position{line: 686, col: 86, offset: 21971},
 									val:        ">>",
 									ignoreCase: false,
 									want:       "\">>\"",
@@ -15292,27 +15324,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 688, col: 9, offset: 21976},
+						pos: position{line: 688, col: 9, offset: 22044},
 						run: (*parser).callonCrossReference45,
 						expr: &seqExpr{
-							pos: position{line: 688, col: 9, offset: 21976},
+							pos: position{line: 688, col: 9, offset: 22044},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 688, col: 9, offset: 21976},
+									pos:        position{line: 688, col: 9, offset: 22044},
 									val:        "<<",
 									ignoreCase: false,
 									want:       "\"<<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 688, col: 14, offset: 21981},
+									pos:   position{line: 688, col: 14, offset: 22049},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2837, col: 7, offset: 89891},
+										pos: position{line: 2847, col: 7, offset: 90236},
 										run: (*parser).callonCrossReference49,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2837, col: 7, offset: 89891},
+											pos: position{line: 2847, col: 7, offset: 90236},
 											expr: &charClassMatcher{
-												pos:        position{line: 2837, col: 7, offset: 89891},
+												pos:        position{line: 2847, col: 7, offset: 90236},
 												val:        "[^[]<>,\\r\\n]",
 												chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 												ignoreCase: false,
@@ -15322,7 +15354,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 688, col: 22, offset: 21989},
+									pos:        position{line: 688, col: 22, offset: 22057},
 									val:        ">>",
 									ignoreCase: false,
 									want:       "\">>\"",
@@ -15331,7 +15363,7 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 684, col: 44, offset: 21793},
+						pos:  position{line: 684, col: 44, offset: 21861},
 						name: "ExternalCrossReference",
 					},
 				},
@@ -15339,58 +15371,58 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalCrossReference",
-			pos:  position{line: 692, col: 1, offset: 22060},
+			pos:  position{line: 692, col: 1, offset: 22128},
 			expr: &actionExpr{
-				pos: position{line: 692, col: 27, offset: 22086},
+				pos: position{line: 692, col: 27, offset: 22154},
 				run: (*parser).callonExternalCrossReference1,
 				expr: &seqExpr{
-					pos: position{line: 692, col: 27, offset: 22086},
+					pos: position{line: 692, col: 27, offset: 22154},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 692, col: 27, offset: 22086},
+							pos:        position{line: 692, col: 27, offset: 22154},
 							val:        "xref:",
 							ignoreCase: false,
 							want:       "\"xref:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 692, col: 35, offset: 22094},
+							pos:   position{line: 692, col: 35, offset: 22162},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2806, col: 17, offset: 88902},
+								pos: position{line: 2816, col: 17, offset: 89247},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2806, col: 17, offset: 88902},
+									pos:   position{line: 2816, col: 17, offset: 89247},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2823, col: 5, offset: 89356},
+										pos: position{line: 2833, col: 5, offset: 89701},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2823, col: 5, offset: 89356},
+											pos:   position{line: 2833, col: 5, offset: 89701},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2823, col: 14, offset: 89365},
+												pos: position{line: 2833, col: 14, offset: 89710},
 												expr: &choiceExpr{
-													pos: position{line: 2824, col: 9, offset: 89375},
+													pos: position{line: 2834, col: 9, offset: 89720},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2824, col: 9, offset: 89375},
+															pos: position{line: 2834, col: 9, offset: 89720},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2824, col: 9, offset: 89375},
+																pos: position{line: 2834, col: 9, offset: 89720},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2824, col: 9, offset: 89375},
+																		pos: position{line: 2834, col: 9, offset: 89720},
 																		expr: &litMatcher{
-																			pos:        position{line: 2824, col: 10, offset: 89376},
+																			pos:        position{line: 2834, col: 10, offset: 89721},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2825, col: 9, offset: 89404},
+																		pos: position{line: 2835, col: 9, offset: 89749},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2825, col: 10, offset: 89405},
+																			pos:        position{line: 2835, col: 10, offset: 89750},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -15401,27 +15433,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2828, col: 11, offset: 89617},
+															pos: position{line: 2838, col: 11, offset: 89962},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2828, col: 11, offset: 89617},
+																	pos:        position{line: 2838, col: 11, offset: 89962},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2828, col: 19, offset: 89625},
+																	pos: position{line: 2838, col: 19, offset: 89970},
 																	expr: &seqExpr{
-																		pos: position{line: 2828, col: 21, offset: 89627},
+																		pos: position{line: 2838, col: 21, offset: 89972},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2828, col: 21, offset: 89627},
+																				pos: position{line: 2838, col: 21, offset: 89972},
 																				expr: &actionExpr{
-																					pos: position{line: 2852, col: 10, offset: 90239},
+																					pos: position{line: 2862, col: 10, offset: 90584},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2852, col: 10, offset: 90239},
+																						pos:        position{line: 2862, col: 10, offset: 90584},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -15430,11 +15462,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2828, col: 28, offset: 89634},
+																				pos: position{line: 2838, col: 28, offset: 89979},
 																				expr: &notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2881, col: 8, offset: 90932},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2881, col: 9, offset: 90933,
 																					},
 																				},
 																			},
@@ -15444,35 +15476,35 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 636, col: 5, offset: 20109},
+															pos: position{line: 636, col: 5, offset: 20177},
 															run: (*parser).callonExternalCrossReference27,
 															expr: &seqExpr{
-																pos: position{line: 636, col: 5, offset: 20109},
+																pos: position{line: 636, col: 5, offset: 20177},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 636, col: 5, offset: 20109},
+																		pos: position{line: 636, col: 5, offset: 20177},
 																		run: (*parser).callonExternalCrossReference29,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 639, col: 5, offset: 20181},
+																		pos:   position{line: 639, col: 5, offset: 20249},
 																		label: "element",
 																		expr: &choiceExpr{
-																			pos: position{line: 639, col: 14, offset: 20190},
+																			pos: position{line: 639, col: 14, offset: 20258},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 645, col: 5, offset: 20319},
+																					pos: position{line: 645, col: 5, offset: 20387},
 																					run: (*parser).callonExternalCrossReference32,
 																					expr: &seqExpr{
-																						pos: position{line: 645, col: 5, offset: 20319},
+																						pos: position{line: 645, col: 5, offset: 20387},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 645, col: 5, offset: 20319},
+																								pos:        position{line: 645, col: 5, offset: 20387},
 																								val:        "\\{",
 																								ignoreCase: false,
 																								want:       "\"\\\\{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 645, col: 13, offset: 20327},
+																								pos:   position{line: 645, col: 13, offset: 20395},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9729},
@@ -15504,7 +15536,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 645, col: 32, offset: 20346},
+																								pos:        position{line: 645, col: 32, offset: 20414},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -15513,19 +15545,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 652, col: 5, offset: 20587},
+																					pos: position{line: 652, col: 5, offset: 20655},
 																					run: (*parser).callonExternalCrossReference42,
 																					expr: &seqExpr{
-																						pos: position{line: 652, col: 5, offset: 20587},
+																						pos: position{line: 652, col: 5, offset: 20655},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 652, col: 5, offset: 20587},
+																								pos:        position{line: 652, col: 5, offset: 20655},
 																								val:        "{",
 																								ignoreCase: false,
 																								want:       "\"{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 652, col: 9, offset: 20591},
+																								pos:   position{line: 652, col: 9, offset: 20659},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9729},
@@ -15557,7 +15589,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 652, col: 28, offset: 20610},
+																								pos:        position{line: 652, col: 28, offset: 20678},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -15566,19 +15598,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 658, col: 25, offset: 20791},
+																					pos: position{line: 658, col: 25, offset: 20859},
 																					run: (*parser).callonExternalCrossReference52,
 																					expr: &seqExpr{
-																						pos: position{line: 658, col: 25, offset: 20791},
+																						pos: position{line: 658, col: 25, offset: 20859},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 658, col: 25, offset: 20791},
+																								pos:        position{line: 658, col: 25, offset: 20859},
 																								val:        "{counter:",
 																								ignoreCase: false,
 																								want:       "\"{counter:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 658, col: 37, offset: 20803},
+																								pos:   position{line: 658, col: 37, offset: 20871},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9729},
@@ -15610,33 +15642,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 658, col: 56, offset: 20822},
+																								pos:   position{line: 658, col: 56, offset: 20890},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 658, col: 62, offset: 20828},
+																									pos: position{line: 658, col: 62, offset: 20896},
 																									expr: &actionExpr{
-																										pos: position{line: 666, col: 17, offset: 21123},
+																										pos: position{line: 666, col: 17, offset: 21191},
 																										run: (*parser).callonExternalCrossReference63,
 																										expr: &seqExpr{
-																											pos: position{line: 666, col: 17, offset: 21123},
+																											pos: position{line: 666, col: 17, offset: 21191},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 666, col: 17, offset: 21123},
+																													pos:        position{line: 666, col: 17, offset: 21191},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 666, col: 21, offset: 21127},
+																													pos:   position{line: 666, col: 21, offset: 21195},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 666, col: 28, offset: 21134},
+																														pos: position{line: 666, col: 28, offset: 21202},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 666, col: 28, offset: 21134},
+																																pos: position{line: 666, col: 28, offset: 21202},
 																																run: (*parser).callonExternalCrossReference68,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 666, col: 28, offset: 21134},
+																																	pos:        position{line: 666, col: 28, offset: 21202},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -15644,12 +15676,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 668, col: 9, offset: 21188},
+																																pos: position{line: 668, col: 9, offset: 21256},
 																																run: (*parser).callonExternalCrossReference70,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 668, col: 9, offset: 21188},
+																																	pos: position{line: 668, col: 9, offset: 21256},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 668, col: 9, offset: 21188},
+																																		pos:        position{line: 668, col: 9, offset: 21256},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -15666,7 +15698,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 658, col: 78, offset: 20844},
+																								pos:        position{line: 658, col: 78, offset: 20912},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -15675,19 +15707,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 662, col: 25, offset: 20962},
+																					pos: position{line: 662, col: 25, offset: 21030},
 																					run: (*parser).callonExternalCrossReference74,
 																					expr: &seqExpr{
-																						pos: position{line: 662, col: 25, offset: 20962},
+																						pos: position{line: 662, col: 25, offset: 21030},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 662, col: 25, offset: 20962},
+																								pos:        position{line: 662, col: 25, offset: 21030},
 																								val:        "{counter2:",
 																								ignoreCase: false,
 																								want:       "\"{counter2:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 662, col: 38, offset: 20975},
+																								pos:   position{line: 662, col: 38, offset: 21043},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9729},
@@ -15719,33 +15751,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 662, col: 57, offset: 20994},
+																								pos:   position{line: 662, col: 57, offset: 21062},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 662, col: 63, offset: 21000},
+																									pos: position{line: 662, col: 63, offset: 21068},
 																									expr: &actionExpr{
-																										pos: position{line: 666, col: 17, offset: 21123},
+																										pos: position{line: 666, col: 17, offset: 21191},
 																										run: (*parser).callonExternalCrossReference85,
 																										expr: &seqExpr{
-																											pos: position{line: 666, col: 17, offset: 21123},
+																											pos: position{line: 666, col: 17, offset: 21191},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 666, col: 17, offset: 21123},
+																													pos:        position{line: 666, col: 17, offset: 21191},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 666, col: 21, offset: 21127},
+																													pos:   position{line: 666, col: 21, offset: 21195},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 666, col: 28, offset: 21134},
+																														pos: position{line: 666, col: 28, offset: 21202},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 666, col: 28, offset: 21134},
+																																pos: position{line: 666, col: 28, offset: 21202},
 																																run: (*parser).callonExternalCrossReference90,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 666, col: 28, offset: 21134},
+																																	pos:        position{line: 666, col: 28, offset: 21202},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -15753,12 +15785,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 668, col: 9, offset: 21188},
+																																pos: position{line: 668, col: 9, offset: 21256},
 																																run: (*parser).callonExternalCrossReference92,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 668, col: 9, offset: 21188},
+																																	pos: position{line: 668, col: 9, offset: 21256},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 668, col: 9, offset: 21188},
+																																		pos:        position{line: 668, col: 9, offset: 21256},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -15775,7 +15807,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 662, col: 79, offset: 21016},
+																								pos:        position{line: 662, col: 79, offset: 21084},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -15790,27 +15822,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1198, col: 23, offset: 36977},
+															pos: position{line: 1198, col: 23, offset: 37045},
 															run: (*parser).callonExternalCrossReference96,
 															expr: &seqExpr{
-																pos: position{line: 1198, col: 23, offset: 36977},
+																pos: position{line: 1198, col: 23, offset: 37045},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1196, col: 32, offset: 36945},
+																		pos:        position{line: 1196, col: 32, offset: 37013},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1198, col: 51, offset: 37005},
+																		pos:   position{line: 1198, col: 51, offset: 37073},
 																		label: "ref",
 																		expr: &actionExpr{
-																			pos: position{line: 1198, col: 56, offset: 37010},
+																			pos: position{line: 1198, col: 56, offset: 37078},
 																			run: (*parser).callonExternalCrossReference100,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1198, col: 56, offset: 37010},
+																				pos: position{line: 1198, col: 56, offset: 37078},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1198, col: 56, offset: 37010},
+																					pos:        position{line: 1198, col: 56, offset: 37078},
 																					val:        "[0-9]",
 																					ranges:     []rune{'0', '9'},
 																					ignoreCase: false,
@@ -15820,7 +15852,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1196, col: 32, offset: 36945},
+																		pos:        position{line: 1196, col: 32, offset: 37013},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
@@ -15829,10 +15861,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2831, col: 11, offset: 89754},
+															pos: position{line: 2841, col: 11, offset: 90099},
 															run: (*parser).callonExternalCrossReference104,
 															expr: &litMatcher{
-																pos:        position{line: 2831, col: 11, offset: 89754},
+																pos:        position{line: 2841, col: 11, offset: 90099},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -15847,10 +15879,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 692, col: 54, offset: 22113},
+							pos:   position{line: 692, col: 54, offset: 22181},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 692, col: 66, offset: 22125},
+								pos:  position{line: 692, col: 66, offset: 22193},
 								name: "InlineAttributes",
 							},
 						},
@@ -15860,29 +15892,29 @@ var g = &grammar{
 		},
 		{
 			name: "MarkdownQuoteAttribution",
-			pos:  position{line: 988, col: 1, offset: 30772},
+			pos:  position{line: 988, col: 1, offset: 30840},
 			expr: &actionExpr{
-				pos: position{line: 989, col: 5, offset: 30805},
+				pos: position{line: 989, col: 5, offset: 30873},
 				run: (*parser).callonMarkdownQuoteAttribution1,
 				expr: &seqExpr{
-					pos: position{line: 989, col: 5, offset: 30805},
+					pos: position{line: 989, col: 5, offset: 30873},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 989, col: 5, offset: 30805},
+							pos:        position{line: 989, col: 5, offset: 30873},
 							val:        "-- ",
 							ignoreCase: false,
 							want:       "\"-- \"",
 						},
 						&labeledExpr{
-							pos:   position{line: 989, col: 11, offset: 30811},
+							pos:   position{line: 989, col: 11, offset: 30879},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2802, col: 14, offset: 88832},
+								pos: position{line: 2812, col: 14, offset: 89177},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2802, col: 14, offset: 88832},
+									pos: position{line: 2812, col: 14, offset: 89177},
 									expr: &charClassMatcher{
-										pos:        position{line: 2802, col: 14, offset: 88832},
+										pos:        position{line: 2812, col: 14, offset: 89177},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -15892,28 +15924,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2874, col: 8, offset: 90637},
+							pos: position{line: 2884, col: 8, offset: 90982},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2861, col: 12, offset: 90410},
+									pos: position{line: 2871, col: 12, offset: 90755},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2861, col: 13, offset: 90411},
+										pos: position{line: 2871, col: 13, offset: 90756},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2861, col: 13, offset: 90411},
+												pos:        position{line: 2871, col: 13, offset: 90756},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 20, offset: 90418},
+												pos:        position{line: 2871, col: 20, offset: 90763},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 29, offset: 90427},
+												pos:        position{line: 2871, col: 29, offset: 90772},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -15922,9 +15954,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2871, col: 8, offset: 90587},
+									pos: position{line: 2881, col: 8, offset: 90932},
 									expr: &anyMatcher{
-										line: 2871, col: 9, offset: 90588,
+										line: 2881, col: 9, offset: 90933,
 									},
 								},
 							},
@@ -15935,53 +15967,53 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentHeader",
-			pos:  position{line: 1100, col: 1, offset: 33728},
+			pos:  position{line: 1100, col: 1, offset: 33796},
 			expr: &actionExpr{
-				pos: position{line: 1101, col: 5, offset: 33751},
+				pos: position{line: 1101, col: 5, offset: 33819},
 				run: (*parser).callonDocumentHeader1,
 				expr: &seqExpr{
-					pos: position{line: 1101, col: 5, offset: 33751},
+					pos: position{line: 1101, col: 5, offset: 33819},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1101, col: 5, offset: 33751},
+							pos: position{line: 1101, col: 5, offset: 33819},
 							run: (*parser).callonDocumentHeader3,
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1104, col: 5, offset: 33812},
+							pos: position{line: 1104, col: 5, offset: 33880},
 							expr: &choiceExpr{
-								pos: position{line: 1104, col: 6, offset: 33813},
+								pos: position{line: 1104, col: 6, offset: 33881},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2462, col: 22, offset: 79217},
+										pos: position{line: 2472, col: 22, offset: 79562},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2462, col: 22, offset: 79217},
+											pos: position{line: 2472, col: 22, offset: 79562},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2467, col: 31, offset: 79438},
+													pos:        position{line: 2477, col: 31, offset: 79783},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2467, col: 36, offset: 79443},
+													pos: position{line: 2477, col: 36, offset: 79788},
 													expr: &litMatcher{
-														pos:        position{line: 2467, col: 37, offset: 79444},
+														pos:        position{line: 2477, col: 37, offset: 79789},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2462, col: 49, offset: 79244},
+													pos:   position{line: 2472, col: 49, offset: 79589},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2798, col: 13, offset: 88765},
+														pos: position{line: 2808, col: 13, offset: 89110},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2798, col: 13, offset: 88765},
+															pos: position{line: 2808, col: 13, offset: 89110},
 															expr: &charClassMatcher{
-																pos:        position{line: 2798, col: 13, offset: 88765},
+																pos:        position{line: 2808, col: 13, offset: 89110},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -15991,28 +16023,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2884, col: 8, offset: 90982},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2871, col: 12, offset: 90755},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2871, col: 13, offset: 90756},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2871, col: 13, offset: 90756},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2871, col: 20, offset: 90763},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2871, col: 29, offset: 90772},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16021,9 +16053,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2881, col: 8, offset: 90932},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2881, col: 9, offset: 90933,
 															},
 														},
 													},
@@ -16032,36 +16064,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 820, col: 5, offset: 26329},
+										pos: position{line: 820, col: 5, offset: 26397},
 										run: (*parser).callonDocumentHeader23,
 										expr: &seqExpr{
-											pos: position{line: 820, col: 5, offset: 26329},
+											pos: position{line: 820, col: 5, offset: 26397},
 											exprs: []interface{}{
 												&actionExpr{
-													pos: position{line: 740, col: 5, offset: 23584},
+													pos: position{line: 740, col: 5, offset: 23652},
 													run: (*parser).callonDocumentHeader25,
 													expr: &seqExpr{
-														pos: position{line: 740, col: 5, offset: 23584},
+														pos: position{line: 740, col: 5, offset: 23652},
 														exprs: []interface{}{
 															&labeledExpr{
-																pos:   position{line: 740, col: 5, offset: 23584},
+																pos:   position{line: 740, col: 5, offset: 23652},
 																label: "delimiter",
 																expr: &actionExpr{
-																	pos: position{line: 740, col: 16, offset: 23595},
+																	pos: position{line: 740, col: 16, offset: 23663},
 																	run: (*parser).callonDocumentHeader28,
 																	expr: &seqExpr{
-																		pos: position{line: 740, col: 16, offset: 23595},
+																		pos: position{line: 740, col: 16, offset: 23663},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 740, col: 16, offset: 23595},
+																				pos:        position{line: 740, col: 16, offset: 23663},
 																				val:        "////",
 																				ignoreCase: false,
 																				want:       "\"////\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 740, col: 23, offset: 23602},
+																				pos: position{line: 740, col: 23, offset: 23670},
 																				expr: &litMatcher{
-																					pos:        position{line: 740, col: 23, offset: 23602},
+																					pos:        position{line: 740, col: 23, offset: 23670},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -16072,12 +16104,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 742, col: 8, offset: 23686},
+																pos: position{line: 742, col: 8, offset: 23754},
 																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
+																	pos: position{line: 2862, col: 10, offset: 90584},
 																	run: (*parser).callonDocumentHeader34,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		pos:        position{line: 2862, col: 10, offset: 90584},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16086,28 +16118,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2874, col: 8, offset: 90637},
+																pos: position{line: 2884, col: 8, offset: 90982},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2861, col: 12, offset: 90410},
+																		pos: position{line: 2871, col: 12, offset: 90755},
 																		run: (*parser).callonDocumentHeader37,
 																		expr: &choiceExpr{
-																			pos: position{line: 2861, col: 13, offset: 90411},
+																			pos: position{line: 2871, col: 13, offset: 90756},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 13, offset: 90411},
+																					pos:        position{line: 2871, col: 13, offset: 90756},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 20, offset: 90418},
+																					pos:        position{line: 2871, col: 20, offset: 90763},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 29, offset: 90427},
+																					pos:        position{line: 2871, col: 29, offset: 90772},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -16116,9 +16148,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2881, col: 8, offset: 90932},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2881, col: 9, offset: 90933,
 																		},
 																	},
 																},
@@ -16127,46 +16159,46 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 821, col: 5, offset: 26360},
+													pos:   position{line: 821, col: 5, offset: 26428},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 831, col: 5, offset: 26646},
+														pos: position{line: 831, col: 5, offset: 26714},
 														expr: &actionExpr{
-															pos: position{line: 831, col: 6, offset: 26647},
+															pos: position{line: 831, col: 6, offset: 26715},
 															run: (*parser).callonDocumentHeader46,
 															expr: &seqExpr{
-																pos: position{line: 831, col: 6, offset: 26647},
+																pos: position{line: 831, col: 6, offset: 26715},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 831, col: 6, offset: 26647},
+																		pos: position{line: 831, col: 6, offset: 26715},
 																		expr: &choiceExpr{
-																			pos: position{line: 828, col: 29, offset: 26589},
+																			pos: position{line: 828, col: 29, offset: 26657},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 740, col: 5, offset: 23584},
+																					pos: position{line: 740, col: 5, offset: 23652},
 																					run: (*parser).callonDocumentHeader50,
 																					expr: &seqExpr{
-																						pos: position{line: 740, col: 5, offset: 23584},
+																						pos: position{line: 740, col: 5, offset: 23652},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 740, col: 5, offset: 23584},
+																								pos:   position{line: 740, col: 5, offset: 23652},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 740, col: 16, offset: 23595},
+																									pos: position{line: 740, col: 16, offset: 23663},
 																									run: (*parser).callonDocumentHeader53,
 																									expr: &seqExpr{
-																										pos: position{line: 740, col: 16, offset: 23595},
+																										pos: position{line: 740, col: 16, offset: 23663},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 740, col: 16, offset: 23595},
+																												pos:        position{line: 740, col: 16, offset: 23663},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 740, col: 23, offset: 23602},
+																												pos: position{line: 740, col: 23, offset: 23670},
 																												expr: &litMatcher{
-																													pos:        position{line: 740, col: 23, offset: 23602},
+																													pos:        position{line: 740, col: 23, offset: 23670},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -16177,12 +16209,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 742, col: 8, offset: 23686},
+																								pos: position{line: 742, col: 8, offset: 23754},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2862, col: 10, offset: 90584},
 																									run: (*parser).callonDocumentHeader59,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2862, col: 10, offset: 90584},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -16191,28 +16223,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
+																								pos: position{line: 2884, col: 8, offset: 90982},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
+																										pos: position{line: 2871, col: 12, offset: 90755},
 																										run: (*parser).callonDocumentHeader62,
 																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																											pos: position{line: 2871, col: 13, offset: 90756},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
+																													pos:        position{line: 2871, col: 13, offset: 90756},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
+																													pos:        position{line: 2871, col: 20, offset: 90763},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
+																													pos:        position{line: 2871, col: 29, offset: 90772},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -16221,9 +16253,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
+																										pos: position{line: 2881, col: 8, offset: 90932},
 																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																											line: 2881, col: 9, offset: 90933,
 																										},
 																									},
 																								},
@@ -16232,39 +16264,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2881, col: 8, offset: 90932},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2881, col: 9, offset: 90933,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 832, col: 5, offset: 26677},
+																		pos:   position{line: 832, col: 5, offset: 26745},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26093},
+																			pos: position{line: 811, col: 5, offset: 26161},
 																			run: (*parser).callonDocumentHeader72,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26093},
+																				pos: position{line: 811, col: 5, offset: 26161},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2879, col: 11, offset: 90918},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2879, col: 13, offset: 90920,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26168},
+																						pos:   position{line: 812, col: 5, offset: 26236},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2798, col: 13, offset: 88765},
+																							pos: position{line: 2808, col: 13, offset: 89110},
 																							run: (*parser).callonDocumentHeader77,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2808, col: 13, offset: 89110},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2798, col: 13, offset: 88765},
+																									pos:        position{line: 2808, col: 13, offset: 89110},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16274,28 +16306,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2884, col: 8, offset: 90982},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2871, col: 12, offset: 90755},
 																								run: (*parser).callonDocumentHeader81,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2871, col: 13, offset: 90756},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2871, col: 13, offset: 90756},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2871, col: 20, offset: 90763},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2871, col: 29, offset: 90772},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16304,9 +16336,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2881, col: 8, offset: 90932},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2881, col: 9, offset: 90933,
 																								},
 																							},
 																						},
@@ -16321,35 +16353,35 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 822, col: 5, offset: 26394},
+													pos: position{line: 822, col: 5, offset: 26462},
 													expr: &choiceExpr{
-														pos: position{line: 828, col: 29, offset: 26589},
+														pos: position{line: 828, col: 29, offset: 26657},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 740, col: 5, offset: 23584},
+																pos: position{line: 740, col: 5, offset: 23652},
 																run: (*parser).callonDocumentHeader90,
 																expr: &seqExpr{
-																	pos: position{line: 740, col: 5, offset: 23584},
+																	pos: position{line: 740, col: 5, offset: 23652},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 740, col: 5, offset: 23584},
+																			pos:   position{line: 740, col: 5, offset: 23652},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 740, col: 16, offset: 23595},
+																				pos: position{line: 740, col: 16, offset: 23663},
 																				run: (*parser).callonDocumentHeader93,
 																				expr: &seqExpr{
-																					pos: position{line: 740, col: 16, offset: 23595},
+																					pos: position{line: 740, col: 16, offset: 23663},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 740, col: 16, offset: 23595},
+																							pos:        position{line: 740, col: 16, offset: 23663},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 740, col: 23, offset: 23602},
+																							pos: position{line: 740, col: 23, offset: 23670},
 																							expr: &litMatcher{
-																								pos:        position{line: 740, col: 23, offset: 23602},
+																								pos:        position{line: 740, col: 23, offset: 23670},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -16360,12 +16392,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 742, col: 8, offset: 23686},
+																			pos: position{line: 742, col: 8, offset: 23754},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2862, col: 10, offset: 90584},
 																				run: (*parser).callonDocumentHeader99,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2862, col: 10, offset: 90584},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -16374,28 +16406,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2884, col: 8, offset: 90982},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2871, col: 12, offset: 90755},
 																					run: (*parser).callonDocumentHeader102,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2871, col: 13, offset: 90756},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2871, col: 13, offset: 90756},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2871, col: 20, offset: 90763},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2871, col: 29, offset: 90772},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -16404,9 +16436,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2881, col: 8, offset: 90932},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2881, col: 9, offset: 90933,
 																					},
 																				},
 																			},
@@ -16415,9 +16447,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2881, col: 8, offset: 90932},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2881, col: 9, offset: 90933,
 																},
 															},
 														},
@@ -16430,49 +16462,49 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1105, col: 5, offset: 33909},
+							pos:   position{line: 1105, col: 5, offset: 33977},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1105, col: 12, offset: 33916},
+								pos:  position{line: 1105, col: 12, offset: 33984},
 								name: "DocumentTitle",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1106, col: 5, offset: 33935},
+							pos: position{line: 1106, col: 5, offset: 34003},
 							expr: &choiceExpr{
-								pos: position{line: 1106, col: 6, offset: 33936},
+								pos: position{line: 1106, col: 6, offset: 34004},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2462, col: 22, offset: 79217},
+										pos: position{line: 2472, col: 22, offset: 79562},
 										run: (*parser).callonDocumentHeader115,
 										expr: &seqExpr{
-											pos: position{line: 2462, col: 22, offset: 79217},
+											pos: position{line: 2472, col: 22, offset: 79562},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2467, col: 31, offset: 79438},
+													pos:        position{line: 2477, col: 31, offset: 79783},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2467, col: 36, offset: 79443},
+													pos: position{line: 2477, col: 36, offset: 79788},
 													expr: &litMatcher{
-														pos:        position{line: 2467, col: 37, offset: 79444},
+														pos:        position{line: 2477, col: 37, offset: 79789},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2462, col: 49, offset: 79244},
+													pos:   position{line: 2472, col: 49, offset: 79589},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2798, col: 13, offset: 88765},
+														pos: position{line: 2808, col: 13, offset: 89110},
 														run: (*parser).callonDocumentHeader121,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2798, col: 13, offset: 88765},
+															pos: position{line: 2808, col: 13, offset: 89110},
 															expr: &charClassMatcher{
-																pos:        position{line: 2798, col: 13, offset: 88765},
+																pos:        position{line: 2808, col: 13, offset: 89110},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16482,28 +16514,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2884, col: 8, offset: 90982},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2871, col: 12, offset: 90755},
 															run: (*parser).callonDocumentHeader125,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2871, col: 13, offset: 90756},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2871, col: 13, offset: 90756},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2871, col: 20, offset: 90763},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2871, col: 29, offset: 90772},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16512,9 +16544,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2881, col: 8, offset: 90932},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2881, col: 9, offset: 90933,
 															},
 														},
 													},
@@ -16523,36 +16555,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 820, col: 5, offset: 26329},
+										pos: position{line: 820, col: 5, offset: 26397},
 										run: (*parser).callonDocumentHeader132,
 										expr: &seqExpr{
-											pos: position{line: 820, col: 5, offset: 26329},
+											pos: position{line: 820, col: 5, offset: 26397},
 											exprs: []interface{}{
 												&actionExpr{
-													pos: position{line: 740, col: 5, offset: 23584},
+													pos: position{line: 740, col: 5, offset: 23652},
 													run: (*parser).callonDocumentHeader134,
 													expr: &seqExpr{
-														pos: position{line: 740, col: 5, offset: 23584},
+														pos: position{line: 740, col: 5, offset: 23652},
 														exprs: []interface{}{
 															&labeledExpr{
-																pos:   position{line: 740, col: 5, offset: 23584},
+																pos:   position{line: 740, col: 5, offset: 23652},
 																label: "delimiter",
 																expr: &actionExpr{
-																	pos: position{line: 740, col: 16, offset: 23595},
+																	pos: position{line: 740, col: 16, offset: 23663},
 																	run: (*parser).callonDocumentHeader137,
 																	expr: &seqExpr{
-																		pos: position{line: 740, col: 16, offset: 23595},
+																		pos: position{line: 740, col: 16, offset: 23663},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 740, col: 16, offset: 23595},
+																				pos:        position{line: 740, col: 16, offset: 23663},
 																				val:        "////",
 																				ignoreCase: false,
 																				want:       "\"////\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 740, col: 23, offset: 23602},
+																				pos: position{line: 740, col: 23, offset: 23670},
 																				expr: &litMatcher{
-																					pos:        position{line: 740, col: 23, offset: 23602},
+																					pos:        position{line: 740, col: 23, offset: 23670},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -16563,12 +16595,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 742, col: 8, offset: 23686},
+																pos: position{line: 742, col: 8, offset: 23754},
 																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
+																	pos: position{line: 2862, col: 10, offset: 90584},
 																	run: (*parser).callonDocumentHeader143,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		pos:        position{line: 2862, col: 10, offset: 90584},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16577,28 +16609,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2874, col: 8, offset: 90637},
+																pos: position{line: 2884, col: 8, offset: 90982},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2861, col: 12, offset: 90410},
+																		pos: position{line: 2871, col: 12, offset: 90755},
 																		run: (*parser).callonDocumentHeader146,
 																		expr: &choiceExpr{
-																			pos: position{line: 2861, col: 13, offset: 90411},
+																			pos: position{line: 2871, col: 13, offset: 90756},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 13, offset: 90411},
+																					pos:        position{line: 2871, col: 13, offset: 90756},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 20, offset: 90418},
+																					pos:        position{line: 2871, col: 20, offset: 90763},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 29, offset: 90427},
+																					pos:        position{line: 2871, col: 29, offset: 90772},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -16607,9 +16639,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2881, col: 8, offset: 90932},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2881, col: 9, offset: 90933,
 																		},
 																	},
 																},
@@ -16618,46 +16650,46 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 821, col: 5, offset: 26360},
+													pos:   position{line: 821, col: 5, offset: 26428},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 831, col: 5, offset: 26646},
+														pos: position{line: 831, col: 5, offset: 26714},
 														expr: &actionExpr{
-															pos: position{line: 831, col: 6, offset: 26647},
+															pos: position{line: 831, col: 6, offset: 26715},
 															run: (*parser).callonDocumentHeader155,
 															expr: &seqExpr{
-																pos: position{line: 831, col: 6, offset: 26647},
+																pos: position{line: 831, col: 6, offset: 26715},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 831, col: 6, offset: 26647},
+																		pos: position{line: 831, col: 6, offset: 26715},
 																		expr: &choiceExpr{
-																			pos: position{line: 828, col: 29, offset: 26589},
+																			pos: position{line: 828, col: 29, offset: 26657},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 740, col: 5, offset: 23584},
+																					pos: position{line: 740, col: 5, offset: 23652},
 																					run: (*parser).callonDocumentHeader159,
 																					expr: &seqExpr{
-																						pos: position{line: 740, col: 5, offset: 23584},
+																						pos: position{line: 740, col: 5, offset: 23652},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 740, col: 5, offset: 23584},
+																								pos:   position{line: 740, col: 5, offset: 23652},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 740, col: 16, offset: 23595},
+																									pos: position{line: 740, col: 16, offset: 23663},
 																									run: (*parser).callonDocumentHeader162,
 																									expr: &seqExpr{
-																										pos: position{line: 740, col: 16, offset: 23595},
+																										pos: position{line: 740, col: 16, offset: 23663},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 740, col: 16, offset: 23595},
+																												pos:        position{line: 740, col: 16, offset: 23663},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 740, col: 23, offset: 23602},
+																												pos: position{line: 740, col: 23, offset: 23670},
 																												expr: &litMatcher{
-																													pos:        position{line: 740, col: 23, offset: 23602},
+																													pos:        position{line: 740, col: 23, offset: 23670},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -16668,12 +16700,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 742, col: 8, offset: 23686},
+																								pos: position{line: 742, col: 8, offset: 23754},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2862, col: 10, offset: 90584},
 																									run: (*parser).callonDocumentHeader168,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2862, col: 10, offset: 90584},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -16682,28 +16714,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
+																								pos: position{line: 2884, col: 8, offset: 90982},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
+																										pos: position{line: 2871, col: 12, offset: 90755},
 																										run: (*parser).callonDocumentHeader171,
 																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																											pos: position{line: 2871, col: 13, offset: 90756},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
+																													pos:        position{line: 2871, col: 13, offset: 90756},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
+																													pos:        position{line: 2871, col: 20, offset: 90763},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
+																													pos:        position{line: 2871, col: 29, offset: 90772},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -16712,9 +16744,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
+																										pos: position{line: 2881, col: 8, offset: 90932},
 																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																											line: 2881, col: 9, offset: 90933,
 																										},
 																									},
 																								},
@@ -16723,39 +16755,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2881, col: 8, offset: 90932},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2881, col: 9, offset: 90933,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 832, col: 5, offset: 26677},
+																		pos:   position{line: 832, col: 5, offset: 26745},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26093},
+																			pos: position{line: 811, col: 5, offset: 26161},
 																			run: (*parser).callonDocumentHeader181,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26093},
+																				pos: position{line: 811, col: 5, offset: 26161},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2879, col: 11, offset: 90918},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2879, col: 13, offset: 90920,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26168},
+																						pos:   position{line: 812, col: 5, offset: 26236},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2798, col: 13, offset: 88765},
+																							pos: position{line: 2808, col: 13, offset: 89110},
 																							run: (*parser).callonDocumentHeader186,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2808, col: 13, offset: 89110},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2798, col: 13, offset: 88765},
+																									pos:        position{line: 2808, col: 13, offset: 89110},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16765,28 +16797,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2884, col: 8, offset: 90982},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2871, col: 12, offset: 90755},
 																								run: (*parser).callonDocumentHeader190,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2871, col: 13, offset: 90756},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2871, col: 13, offset: 90756},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2871, col: 20, offset: 90763},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2871, col: 29, offset: 90772},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16795,9 +16827,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2881, col: 8, offset: 90932},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2881, col: 9, offset: 90933,
 																								},
 																							},
 																						},
@@ -16812,35 +16844,35 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 822, col: 5, offset: 26394},
+													pos: position{line: 822, col: 5, offset: 26462},
 													expr: &choiceExpr{
-														pos: position{line: 828, col: 29, offset: 26589},
+														pos: position{line: 828, col: 29, offset: 26657},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 740, col: 5, offset: 23584},
+																pos: position{line: 740, col: 5, offset: 23652},
 																run: (*parser).callonDocumentHeader199,
 																expr: &seqExpr{
-																	pos: position{line: 740, col: 5, offset: 23584},
+																	pos: position{line: 740, col: 5, offset: 23652},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 740, col: 5, offset: 23584},
+																			pos:   position{line: 740, col: 5, offset: 23652},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 740, col: 16, offset: 23595},
+																				pos: position{line: 740, col: 16, offset: 23663},
 																				run: (*parser).callonDocumentHeader202,
 																				expr: &seqExpr{
-																					pos: position{line: 740, col: 16, offset: 23595},
+																					pos: position{line: 740, col: 16, offset: 23663},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 740, col: 16, offset: 23595},
+																							pos:        position{line: 740, col: 16, offset: 23663},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 740, col: 23, offset: 23602},
+																							pos: position{line: 740, col: 23, offset: 23670},
 																							expr: &litMatcher{
-																								pos:        position{line: 740, col: 23, offset: 23602},
+																								pos:        position{line: 740, col: 23, offset: 23670},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -16851,12 +16883,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 742, col: 8, offset: 23686},
+																			pos: position{line: 742, col: 8, offset: 23754},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2862, col: 10, offset: 90584},
 																				run: (*parser).callonDocumentHeader208,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2862, col: 10, offset: 90584},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -16865,28 +16897,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2884, col: 8, offset: 90982},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2871, col: 12, offset: 90755},
 																					run: (*parser).callonDocumentHeader211,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2871, col: 13, offset: 90756},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2871, col: 13, offset: 90756},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2871, col: 20, offset: 90763},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2871, col: 29, offset: 90772},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -16895,9 +16927,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2881, col: 8, offset: 90932},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2881, col: 9, offset: 90933,
 																					},
 																				},
 																			},
@@ -16906,9 +16938,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2881, col: 8, offset: 90932},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2881, col: 9, offset: 90933,
 																},
 															},
 														},
@@ -16921,41 +16953,41 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1107, col: 5, offset: 34032},
+							pos:   position{line: 1107, col: 5, offset: 34100},
 							label: "authorsAndRevision",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1107, col: 24, offset: 34051},
+								pos: position{line: 1107, col: 24, offset: 34119},
 								expr: &actionExpr{
-									pos: position{line: 1118, col: 5, offset: 34426},
+									pos: position{line: 1118, col: 5, offset: 34494},
 									run: (*parser).callonDocumentHeader222,
 									expr: &seqExpr{
-										pos: position{line: 1118, col: 5, offset: 34426},
+										pos: position{line: 1118, col: 5, offset: 34494},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1118, col: 5, offset: 34426},
+												pos: position{line: 1118, col: 5, offset: 34494},
 												expr: &litMatcher{
-													pos:        position{line: 1118, col: 6, offset: 34427},
+													pos:        position{line: 1118, col: 6, offset: 34495},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1119, col: 5, offset: 34435},
+												pos:   position{line: 1119, col: 5, offset: 34503},
 												label: "authors",
 												expr: &actionExpr{
-													pos: position{line: 1125, col: 20, offset: 34691},
+													pos: position{line: 1125, col: 20, offset: 34759},
 													run: (*parser).callonDocumentHeader227,
 													expr: &seqExpr{
-														pos: position{line: 1125, col: 20, offset: 34691},
+														pos: position{line: 1125, col: 20, offset: 34759},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 1125, col: 20, offset: 34691},
+																pos: position{line: 1125, col: 20, offset: 34759},
 																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
+																	pos: position{line: 2862, col: 10, offset: 90584},
 																	run: (*parser).callonDocumentHeader230,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		pos:        position{line: 2862, col: 10, offset: 90584},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16964,37 +16996,37 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 1125, col: 27, offset: 34698},
+																pos:   position{line: 1125, col: 27, offset: 34766},
 																label: "authors",
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 1125, col: 36, offset: 34707},
+																	pos: position{line: 1125, col: 36, offset: 34775},
 																	expr: &actionExpr{
-																		pos: position{line: 1130, col: 5, offset: 34820},
+																		pos: position{line: 1130, col: 5, offset: 34888},
 																		run: (*parser).callonDocumentHeader234,
 																		expr: &seqExpr{
-																			pos: position{line: 1130, col: 5, offset: 34820},
+																			pos: position{line: 1130, col: 5, offset: 34888},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1130, col: 5, offset: 34820},
+																					pos:   position{line: 1130, col: 5, offset: 34888},
 																					label: "fullName",
 																					expr: &zeroOrOneExpr{
-																						pos: position{line: 1130, col: 14, offset: 34829},
+																						pos: position{line: 1130, col: 14, offset: 34897},
 																						expr: &actionExpr{
-																							pos: position{line: 1141, col: 5, offset: 35209},
+																							pos: position{line: 1141, col: 5, offset: 35277},
 																							run: (*parser).callonDocumentHeader238,
 																							expr: &seqExpr{
-																								pos: position{line: 1141, col: 5, offset: 35209},
+																								pos: position{line: 1141, col: 5, offset: 35277},
 																								exprs: []interface{}{
 																									&labeledExpr{
-																										pos:   position{line: 1141, col: 5, offset: 35209},
+																										pos:   position{line: 1141, col: 5, offset: 35277},
 																										label: "part1",
 																										expr: &actionExpr{
-																											pos: position{line: 1141, col: 12, offset: 35216},
+																											pos: position{line: 1141, col: 12, offset: 35284},
 																											run: (*parser).callonDocumentHeader241,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1141, col: 12, offset: 35216},
+																												pos: position{line: 1141, col: 12, offset: 35284},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1141, col: 12, offset: 35216},
+																													pos:        position{line: 1141, col: 12, offset: 35284},
 																													val:        "[^<;\\r\\n ]",
 																													chars:      []rune{'<', ';', '\r', '\n', ' '},
 																													ignoreCase: false,
@@ -17004,12 +17036,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1144, col: 5, offset: 35296},
+																										pos: position{line: 1144, col: 5, offset: 35364},
 																										expr: &actionExpr{
-																											pos: position{line: 2852, col: 10, offset: 90239},
+																											pos: position{line: 2862, col: 10, offset: 90584},
 																											run: (*parser).callonDocumentHeader245,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2852, col: 10, offset: 90239},
+																												pos:        position{line: 2862, col: 10, offset: 90584},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17018,17 +17050,17 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1145, col: 5, offset: 35307},
+																										pos:   position{line: 1145, col: 5, offset: 35375},
 																										label: "part2",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 1145, col: 11, offset: 35313},
+																											pos: position{line: 1145, col: 11, offset: 35381},
 																											expr: &actionExpr{
-																												pos: position{line: 1145, col: 12, offset: 35314},
+																												pos: position{line: 1145, col: 12, offset: 35382},
 																												run: (*parser).callonDocumentHeader249,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1145, col: 12, offset: 35314},
+																													pos: position{line: 1145, col: 12, offset: 35382},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1145, col: 12, offset: 35314},
+																														pos:        position{line: 1145, col: 12, offset: 35382},
 																														val:        "[^<;\\r\\n ]",
 																														chars:      []rune{'<', ';', '\r', '\n', ' '},
 																														ignoreCase: false,
@@ -17039,12 +17071,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1148, col: 5, offset: 35395},
+																										pos: position{line: 1148, col: 5, offset: 35463},
 																										expr: &actionExpr{
-																											pos: position{line: 2852, col: 10, offset: 90239},
+																											pos: position{line: 2862, col: 10, offset: 90584},
 																											run: (*parser).callonDocumentHeader253,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2852, col: 10, offset: 90239},
+																												pos:        position{line: 2862, col: 10, offset: 90584},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17053,17 +17085,17 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1149, col: 5, offset: 35406},
+																										pos:   position{line: 1149, col: 5, offset: 35474},
 																										label: "part3",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 1149, col: 11, offset: 35412},
+																											pos: position{line: 1149, col: 11, offset: 35480},
 																											expr: &actionExpr{
-																												pos: position{line: 1149, col: 12, offset: 35413},
+																												pos: position{line: 1149, col: 12, offset: 35481},
 																												run: (*parser).callonDocumentHeader257,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1149, col: 12, offset: 35413},
+																													pos: position{line: 1149, col: 12, offset: 35481},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1149, col: 12, offset: 35413},
+																														pos:        position{line: 1149, col: 12, offset: 35481},
 																														val:        "[^<;\\r\\n]",
 																														chars:      []rune{'<', ';', '\r', '\n'},
 																														ignoreCase: false,
@@ -17074,12 +17106,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1152, col: 5, offset: 35492},
+																										pos: position{line: 1152, col: 5, offset: 35560},
 																										expr: &actionExpr{
-																											pos: position{line: 2852, col: 10, offset: 90239},
+																											pos: position{line: 2862, col: 10, offset: 90584},
 																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2852, col: 10, offset: 90239},
+																												pos:        position{line: 2862, col: 10, offset: 90584},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17093,38 +17125,38 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1130, col: 40, offset: 34855},
+																					pos:   position{line: 1130, col: 40, offset: 34923},
 																					label: "email",
 																					expr: &zeroOrOneExpr{
-																						pos: position{line: 1130, col: 46, offset: 34861},
+																						pos: position{line: 1130, col: 46, offset: 34929},
 																						expr: &actionExpr{
-																							pos: position{line: 1158, col: 5, offset: 35614},
+																							pos: position{line: 1158, col: 5, offset: 35682},
 																							run: (*parser).callonDocumentHeader265,
 																							expr: &seqExpr{
-																								pos: position{line: 1158, col: 5, offset: 35614},
+																								pos: position{line: 1158, col: 5, offset: 35682},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2869, col: 11, offset: 90573},
+																										pos: position{line: 2879, col: 11, offset: 90918},
 																										expr: &anyMatcher{
-																											line: 2869, col: 13, offset: 90575,
+																											line: 2879, col: 13, offset: 90920,
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1159, col: 5, offset: 35626},
+																										pos:        position{line: 1159, col: 5, offset: 35694},
 																										val:        "<",
 																										ignoreCase: false,
 																										want:       "\"<\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1160, col: 5, offset: 35635},
+																										pos:   position{line: 1160, col: 5, offset: 35703},
 																										label: "email",
 																										expr: &actionExpr{
-																											pos: position{line: 1160, col: 12, offset: 35642},
+																											pos: position{line: 1160, col: 12, offset: 35710},
 																											run: (*parser).callonDocumentHeader271,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1160, col: 13, offset: 35643},
+																												pos: position{line: 1160, col: 13, offset: 35711},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1160, col: 13, offset: 35643},
+																													pos:        position{line: 1160, col: 13, offset: 35711},
 																													val:        "[^>\\r\\n]",
 																													chars:      []rune{'>', '\r', '\n'},
 																													ignoreCase: false,
@@ -17134,7 +17166,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1163, col: 5, offset: 35703},
+																										pos:        position{line: 1163, col: 5, offset: 35771},
 																										val:        ">",
 																										ignoreCase: false,
 																										want:       "\">\"",
@@ -17145,12 +17177,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1130, col: 69, offset: 34884},
+																					pos: position{line: 1130, col: 69, offset: 34952},
 																					expr: &actionExpr{
-																						pos: position{line: 2852, col: 10, offset: 90239},
+																						pos: position{line: 2862, col: 10, offset: 90584},
 																						run: (*parser).callonDocumentHeader276,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2852, col: 10, offset: 90239},
+																							pos:        position{line: 2862, col: 10, offset: 90584},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17159,21 +17191,21 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrOneExpr{
-																					pos: position{line: 1130, col: 76, offset: 34891},
+																					pos: position{line: 1130, col: 76, offset: 34959},
 																					expr: &litMatcher{
-																						pos:        position{line: 1130, col: 76, offset: 34891},
+																						pos:        position{line: 1130, col: 76, offset: 34959},
 																						val:        ";",
 																						ignoreCase: false,
 																						want:       "\";\"",
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1130, col: 81, offset: 34896},
+																					pos: position{line: 1130, col: 81, offset: 34964},
 																					expr: &actionExpr{
-																						pos: position{line: 2852, col: 10, offset: 90239},
+																						pos: position{line: 2862, col: 10, offset: 90584},
 																						run: (*parser).callonDocumentHeader281,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2852, col: 10, offset: 90239},
+																							pos:        position{line: 2862, col: 10, offset: 90584},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17182,7 +17214,7 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1131, col: 5, offset: 34908},
+																					pos: position{line: 1131, col: 5, offset: 34976},
 																					run: (*parser).callonDocumentHeader283,
 																				},
 																			},
@@ -17191,28 +17223,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2874, col: 8, offset: 90637},
+																pos: position{line: 2884, col: 8, offset: 90982},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2861, col: 12, offset: 90410},
+																		pos: position{line: 2871, col: 12, offset: 90755},
 																		run: (*parser).callonDocumentHeader285,
 																		expr: &choiceExpr{
-																			pos: position{line: 2861, col: 13, offset: 90411},
+																			pos: position{line: 2871, col: 13, offset: 90756},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 13, offset: 90411},
+																					pos:        position{line: 2871, col: 13, offset: 90756},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 20, offset: 90418},
+																					pos:        position{line: 2871, col: 20, offset: 90763},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 29, offset: 90427},
+																					pos:        position{line: 2871, col: 29, offset: 90772},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17221,9 +17253,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2881, col: 8, offset: 90932},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2881, col: 9, offset: 90933,
 																		},
 																	},
 																},
@@ -17233,41 +17265,41 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 1120, col: 5, offset: 34465},
+												pos: position{line: 1120, col: 5, offset: 34533},
 												expr: &choiceExpr{
-													pos: position{line: 1120, col: 6, offset: 34466},
+													pos: position{line: 1120, col: 6, offset: 34534},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2462, col: 22, offset: 79217},
+															pos: position{line: 2472, col: 22, offset: 79562},
 															run: (*parser).callonDocumentHeader294,
 															expr: &seqExpr{
-																pos: position{line: 2462, col: 22, offset: 79217},
+																pos: position{line: 2472, col: 22, offset: 79562},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2467, col: 31, offset: 79438},
+																		pos:        position{line: 2477, col: 31, offset: 79783},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2467, col: 36, offset: 79443},
+																		pos: position{line: 2477, col: 36, offset: 79788},
 																		expr: &litMatcher{
-																			pos:        position{line: 2467, col: 37, offset: 79444},
+																			pos:        position{line: 2477, col: 37, offset: 79789},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2462, col: 49, offset: 79244},
+																		pos:   position{line: 2472, col: 49, offset: 79589},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2798, col: 13, offset: 88765},
+																			pos: position{line: 2808, col: 13, offset: 89110},
 																			run: (*parser).callonDocumentHeader300,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2798, col: 13, offset: 88765},
+																				pos: position{line: 2808, col: 13, offset: 89110},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2798, col: 13, offset: 88765},
+																					pos:        position{line: 2808, col: 13, offset: 89110},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -17277,28 +17309,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2884, col: 8, offset: 90982},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2871, col: 12, offset: 90755},
 																				run: (*parser).callonDocumentHeader304,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2871, col: 13, offset: 90756},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2871, col: 13, offset: 90756},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2871, col: 20, offset: 90763},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2871, col: 29, offset: 90772},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -17307,9 +17339,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2881, col: 8, offset: 90932},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2881, col: 9, offset: 90933,
 																				},
 																			},
 																		},
@@ -17318,36 +17350,36 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 820, col: 5, offset: 26329},
+															pos: position{line: 820, col: 5, offset: 26397},
 															run: (*parser).callonDocumentHeader311,
 															expr: &seqExpr{
-																pos: position{line: 820, col: 5, offset: 26329},
+																pos: position{line: 820, col: 5, offset: 26397},
 																exprs: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 740, col: 5, offset: 23584},
+																		pos: position{line: 740, col: 5, offset: 23652},
 																		run: (*parser).callonDocumentHeader313,
 																		expr: &seqExpr{
-																			pos: position{line: 740, col: 5, offset: 23584},
+																			pos: position{line: 740, col: 5, offset: 23652},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 740, col: 5, offset: 23584},
+																					pos:   position{line: 740, col: 5, offset: 23652},
 																					label: "delimiter",
 																					expr: &actionExpr{
-																						pos: position{line: 740, col: 16, offset: 23595},
+																						pos: position{line: 740, col: 16, offset: 23663},
 																						run: (*parser).callonDocumentHeader316,
 																						expr: &seqExpr{
-																							pos: position{line: 740, col: 16, offset: 23595},
+																							pos: position{line: 740, col: 16, offset: 23663},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 740, col: 16, offset: 23595},
+																									pos:        position{line: 740, col: 16, offset: 23663},
 																									val:        "////",
 																									ignoreCase: false,
 																									want:       "\"////\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 740, col: 23, offset: 23602},
+																									pos: position{line: 740, col: 23, offset: 23670},
 																									expr: &litMatcher{
-																										pos:        position{line: 740, col: 23, offset: 23602},
+																										pos:        position{line: 740, col: 23, offset: 23670},
 																										val:        "/",
 																										ignoreCase: false,
 																										want:       "\"/\"",
@@ -17358,12 +17390,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 742, col: 8, offset: 23686},
+																					pos: position{line: 742, col: 8, offset: 23754},
 																					expr: &actionExpr{
-																						pos: position{line: 2852, col: 10, offset: 90239},
+																						pos: position{line: 2862, col: 10, offset: 90584},
 																						run: (*parser).callonDocumentHeader322,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2852, col: 10, offset: 90239},
+																							pos:        position{line: 2862, col: 10, offset: 90584},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17372,28 +17404,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2874, col: 8, offset: 90637},
+																					pos: position{line: 2884, col: 8, offset: 90982},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2861, col: 12, offset: 90410},
+																							pos: position{line: 2871, col: 12, offset: 90755},
 																							run: (*parser).callonDocumentHeader325,
 																							expr: &choiceExpr{
-																								pos: position{line: 2861, col: 13, offset: 90411},
+																								pos: position{line: 2871, col: 13, offset: 90756},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 13, offset: 90411},
+																										pos:        position{line: 2871, col: 13, offset: 90756},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 20, offset: 90418},
+																										pos:        position{line: 2871, col: 20, offset: 90763},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 29, offset: 90427},
+																										pos:        position{line: 2871, col: 29, offset: 90772},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -17402,9 +17434,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2871, col: 8, offset: 90587},
+																							pos: position{line: 2881, col: 8, offset: 90932},
 																							expr: &anyMatcher{
-																								line: 2871, col: 9, offset: 90588,
+																								line: 2881, col: 9, offset: 90933,
 																							},
 																						},
 																					},
@@ -17413,46 +17445,46 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 821, col: 5, offset: 26360},
+																		pos:   position{line: 821, col: 5, offset: 26428},
 																		label: "content",
 																		expr: &zeroOrMoreExpr{
-																			pos: position{line: 831, col: 5, offset: 26646},
+																			pos: position{line: 831, col: 5, offset: 26714},
 																			expr: &actionExpr{
-																				pos: position{line: 831, col: 6, offset: 26647},
+																				pos: position{line: 831, col: 6, offset: 26715},
 																				run: (*parser).callonDocumentHeader334,
 																				expr: &seqExpr{
-																					pos: position{line: 831, col: 6, offset: 26647},
+																					pos: position{line: 831, col: 6, offset: 26715},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 831, col: 6, offset: 26647},
+																							pos: position{line: 831, col: 6, offset: 26715},
 																							expr: &choiceExpr{
-																								pos: position{line: 828, col: 29, offset: 26589},
+																								pos: position{line: 828, col: 29, offset: 26657},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 740, col: 5, offset: 23584},
+																										pos: position{line: 740, col: 5, offset: 23652},
 																										run: (*parser).callonDocumentHeader338,
 																										expr: &seqExpr{
-																											pos: position{line: 740, col: 5, offset: 23584},
+																											pos: position{line: 740, col: 5, offset: 23652},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 740, col: 5, offset: 23584},
+																													pos:   position{line: 740, col: 5, offset: 23652},
 																													label: "delimiter",
 																													expr: &actionExpr{
-																														pos: position{line: 740, col: 16, offset: 23595},
+																														pos: position{line: 740, col: 16, offset: 23663},
 																														run: (*parser).callonDocumentHeader341,
 																														expr: &seqExpr{
-																															pos: position{line: 740, col: 16, offset: 23595},
+																															pos: position{line: 740, col: 16, offset: 23663},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 740, col: 16, offset: 23595},
+																																	pos:        position{line: 740, col: 16, offset: 23663},
 																																	val:        "////",
 																																	ignoreCase: false,
 																																	want:       "\"////\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 740, col: 23, offset: 23602},
+																																	pos: position{line: 740, col: 23, offset: 23670},
 																																	expr: &litMatcher{
-																																		pos:        position{line: 740, col: 23, offset: 23602},
+																																		pos:        position{line: 740, col: 23, offset: 23670},
 																																		val:        "/",
 																																		ignoreCase: false,
 																																		want:       "\"/\"",
@@ -17463,12 +17495,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 742, col: 8, offset: 23686},
+																													pos: position{line: 742, col: 8, offset: 23754},
 																													expr: &actionExpr{
-																														pos: position{line: 2852, col: 10, offset: 90239},
+																														pos: position{line: 2862, col: 10, offset: 90584},
 																														run: (*parser).callonDocumentHeader347,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2852, col: 10, offset: 90239},
+																															pos:        position{line: 2862, col: 10, offset: 90584},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -17477,28 +17509,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2874, col: 8, offset: 90637},
+																													pos: position{line: 2884, col: 8, offset: 90982},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2861, col: 12, offset: 90410},
+																															pos: position{line: 2871, col: 12, offset: 90755},
 																															run: (*parser).callonDocumentHeader350,
 																															expr: &choiceExpr{
-																																pos: position{line: 2861, col: 13, offset: 90411},
+																																pos: position{line: 2871, col: 13, offset: 90756},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2861, col: 13, offset: 90411},
+																																		pos:        position{line: 2871, col: 13, offset: 90756},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2861, col: 20, offset: 90418},
+																																		pos:        position{line: 2871, col: 20, offset: 90763},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2861, col: 29, offset: 90427},
+																																		pos:        position{line: 2871, col: 29, offset: 90772},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -17507,9 +17539,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2871, col: 8, offset: 90587},
+																															pos: position{line: 2881, col: 8, offset: 90932},
 																															expr: &anyMatcher{
-																																line: 2871, col: 9, offset: 90588,
+																																line: 2881, col: 9, offset: 90933,
 																															},
 																														},
 																													},
@@ -17518,39 +17550,39 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
+																										pos: position{line: 2881, col: 8, offset: 90932},
 																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																											line: 2881, col: 9, offset: 90933,
 																										},
 																									},
 																								},
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 832, col: 5, offset: 26677},
+																							pos:   position{line: 832, col: 5, offset: 26745},
 																							label: "line",
 																							expr: &actionExpr{
-																								pos: position{line: 811, col: 5, offset: 26093},
+																								pos: position{line: 811, col: 5, offset: 26161},
 																								run: (*parser).callonDocumentHeader360,
 																								expr: &seqExpr{
-																									pos: position{line: 811, col: 5, offset: 26093},
+																									pos: position{line: 811, col: 5, offset: 26161},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2869, col: 11, offset: 90573},
+																											pos: position{line: 2879, col: 11, offset: 90918},
 																											expr: &anyMatcher{
-																												line: 2869, col: 13, offset: 90575,
+																												line: 2879, col: 13, offset: 90920,
 																											},
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 812, col: 5, offset: 26168},
+																											pos:   position{line: 812, col: 5, offset: 26236},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2798, col: 13, offset: 88765},
+																												pos: position{line: 2808, col: 13, offset: 89110},
 																												run: (*parser).callonDocumentHeader365,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2798, col: 13, offset: 88765},
+																													pos: position{line: 2808, col: 13, offset: 89110},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2798, col: 13, offset: 88765},
+																														pos:        position{line: 2808, col: 13, offset: 89110},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -17560,28 +17592,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2884, col: 8, offset: 90982},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
+																													pos: position{line: 2871, col: 12, offset: 90755},
 																													run: (*parser).callonDocumentHeader369,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2871, col: 13, offset: 90756},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2871, col: 13, offset: 90756},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2871, col: 20, offset: 90763},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2871, col: 29, offset: 90772},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17590,9 +17622,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2881, col: 8, offset: 90932},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2881, col: 9, offset: 90933,
 																													},
 																												},
 																											},
@@ -17607,35 +17639,35 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrOneExpr{
-																		pos: position{line: 822, col: 5, offset: 26394},
+																		pos: position{line: 822, col: 5, offset: 26462},
 																		expr: &choiceExpr{
-																			pos: position{line: 828, col: 29, offset: 26589},
+																			pos: position{line: 828, col: 29, offset: 26657},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 740, col: 5, offset: 23584},
+																					pos: position{line: 740, col: 5, offset: 23652},
 																					run: (*parser).callonDocumentHeader378,
 																					expr: &seqExpr{
-																						pos: position{line: 740, col: 5, offset: 23584},
+																						pos: position{line: 740, col: 5, offset: 23652},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 740, col: 5, offset: 23584},
+																								pos:   position{line: 740, col: 5, offset: 23652},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 740, col: 16, offset: 23595},
+																									pos: position{line: 740, col: 16, offset: 23663},
 																									run: (*parser).callonDocumentHeader381,
 																									expr: &seqExpr{
-																										pos: position{line: 740, col: 16, offset: 23595},
+																										pos: position{line: 740, col: 16, offset: 23663},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 740, col: 16, offset: 23595},
+																												pos:        position{line: 740, col: 16, offset: 23663},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 740, col: 23, offset: 23602},
+																												pos: position{line: 740, col: 23, offset: 23670},
 																												expr: &litMatcher{
-																													pos:        position{line: 740, col: 23, offset: 23602},
+																													pos:        position{line: 740, col: 23, offset: 23670},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -17646,12 +17678,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 742, col: 8, offset: 23686},
+																								pos: position{line: 742, col: 8, offset: 23754},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2862, col: 10, offset: 90584},
 																									run: (*parser).callonDocumentHeader387,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2862, col: 10, offset: 90584},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -17660,28 +17692,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
+																								pos: position{line: 2884, col: 8, offset: 90982},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
+																										pos: position{line: 2871, col: 12, offset: 90755},
 																										run: (*parser).callonDocumentHeader390,
 																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																											pos: position{line: 2871, col: 13, offset: 90756},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
+																													pos:        position{line: 2871, col: 13, offset: 90756},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
+																													pos:        position{line: 2871, col: 20, offset: 90763},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
+																													pos:        position{line: 2871, col: 29, offset: 90772},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -17690,9 +17722,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
+																										pos: position{line: 2881, col: 8, offset: 90932},
 																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																											line: 2881, col: 9, offset: 90933,
 																										},
 																									},
 																								},
@@ -17701,9 +17733,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2881, col: 8, offset: 90932},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2881, col: 9, offset: 90933,
 																					},
 																				},
 																			},
@@ -17716,23 +17748,23 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1121, col: 5, offset: 34540},
+												pos:   position{line: 1121, col: 5, offset: 34608},
 												label: "revision",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 1121, col: 14, offset: 34549},
+													pos: position{line: 1121, col: 14, offset: 34617},
 													expr: &actionExpr{
-														pos: position{line: 1169, col: 21, offset: 35892},
+														pos: position{line: 1169, col: 21, offset: 35960},
 														run: (*parser).callonDocumentHeader401,
 														expr: &seqExpr{
-															pos: position{line: 1169, col: 21, offset: 35892},
+															pos: position{line: 1169, col: 21, offset: 35960},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1169, col: 21, offset: 35892},
+																	pos: position{line: 1169, col: 21, offset: 35960},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2862, col: 10, offset: 90584},
 																		run: (*parser).callonDocumentHeader404,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2862, col: 10, offset: 90584},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -17741,55 +17773,55 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1169, col: 28, offset: 35899},
+																	pos: position{line: 1169, col: 28, offset: 35967},
 																	expr: &litMatcher{
-																		pos:        position{line: 1169, col: 29, offset: 35900},
+																		pos:        position{line: 1169, col: 29, offset: 35968},
 																		val:        ":",
 																		ignoreCase: false,
 																		want:       "\":\"",
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1169, col: 33, offset: 35904},
+																	pos:   position{line: 1169, col: 33, offset: 35972},
 																	label: "revision",
 																	expr: &choiceExpr{
-																		pos: position{line: 1170, col: 9, offset: 35923},
+																		pos: position{line: 1170, col: 9, offset: 35991},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1170, col: 10, offset: 35924},
+																				pos: position{line: 1170, col: 10, offset: 35992},
 																				run: (*parser).callonDocumentHeader410,
 																				expr: &seqExpr{
-																					pos: position{line: 1170, col: 10, offset: 35924},
+																					pos: position{line: 1170, col: 10, offset: 35992},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1170, col: 10, offset: 35924},
+																							pos:   position{line: 1170, col: 10, offset: 35992},
 																							label: "revnumber",
 																							expr: &choiceExpr{
-																								pos: position{line: 1179, col: 27, offset: 36441},
+																								pos: position{line: 1179, col: 27, offset: 36509},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1179, col: 27, offset: 36441},
+																										pos: position{line: 1179, col: 27, offset: 36509},
 																										run: (*parser).callonDocumentHeader414,
 																										expr: &seqExpr{
-																											pos: position{line: 1179, col: 27, offset: 36441},
+																											pos: position{line: 1179, col: 27, offset: 36509},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 1179, col: 27, offset: 36441},
+																													pos:        position{line: 1179, col: 27, offset: 36509},
 																													val:        "v",
 																													ignoreCase: true,
 																													want:       "\"v\"i",
 																												},
 																												&charClassMatcher{
-																													pos:        position{line: 1179, col: 32, offset: 36446},
+																													pos:        position{line: 1179, col: 32, offset: 36514},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&oneOrMoreExpr{
-																													pos: position{line: 1179, col: 38, offset: 36452},
+																													pos: position{line: 1179, col: 38, offset: 36520},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1179, col: 38, offset: 36452},
+																														pos:        position{line: 1179, col: 38, offset: 36520},
 																														val:        "[^:,\\r\\n]",
 																														chars:      []rune{':', ',', '\r', '\n'},
 																														ignoreCase: false,
@@ -17800,31 +17832,31 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1181, col: 5, offset: 36500},
+																										pos: position{line: 1181, col: 5, offset: 36568},
 																										run: (*parser).callonDocumentHeader420,
 																										expr: &seqExpr{
-																											pos: position{line: 1181, col: 5, offset: 36500},
+																											pos: position{line: 1181, col: 5, offset: 36568},
 																											exprs: []interface{}{
 																												&zeroOrOneExpr{
-																													pos: position{line: 1181, col: 5, offset: 36500},
+																													pos: position{line: 1181, col: 5, offset: 36568},
 																													expr: &litMatcher{
-																														pos:        position{line: 1181, col: 5, offset: 36500},
+																														pos:        position{line: 1181, col: 5, offset: 36568},
 																														val:        "v",
 																														ignoreCase: true,
 																														want:       "\"v\"i",
 																													},
 																												},
 																												&charClassMatcher{
-																													pos:        position{line: 1181, col: 11, offset: 36506},
+																													pos:        position{line: 1181, col: 11, offset: 36574},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&oneOrMoreExpr{
-																													pos: position{line: 1181, col: 17, offset: 36512},
+																													pos: position{line: 1181, col: 17, offset: 36580},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1181, col: 17, offset: 36512},
+																														pos:        position{line: 1181, col: 17, offset: 36580},
 																														val:        "[^:,\\r\\n]",
 																														chars:      []rune{':', ',', '\r', '\n'},
 																														ignoreCase: false,
@@ -17832,12 +17864,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 1181, col: 28, offset: 36523},
+																													pos: position{line: 1181, col: 28, offset: 36591},
 																													expr: &actionExpr{
-																														pos: position{line: 2852, col: 10, offset: 90239},
+																														pos: position{line: 2862, col: 10, offset: 90584},
 																														run: (*parser).callonDocumentHeader428,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2852, col: 10, offset: 90239},
+																															pos:        position{line: 2862, col: 10, offset: 90584},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -17846,9 +17878,9 @@ var g = &grammar{
 																													},
 																												},
 																												&andExpr{
-																													pos: position{line: 1181, col: 35, offset: 36530},
+																													pos: position{line: 1181, col: 35, offset: 36598},
 																													expr: &litMatcher{
-																														pos:        position{line: 1181, col: 36, offset: 36531},
+																														pos:        position{line: 1181, col: 36, offset: 36599},
 																														val:        ",",
 																														ignoreCase: false,
 																														want:       "\",\"",
@@ -17861,26 +17893,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1170, col: 45, offset: 35959},
+																							pos: position{line: 1170, col: 45, offset: 36027},
 																							expr: &litMatcher{
-																								pos:        position{line: 1170, col: 45, offset: 35959},
+																								pos:        position{line: 1170, col: 45, offset: 36027},
 																								val:        ",",
 																								ignoreCase: false,
 																								want:       "\",\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1170, col: 50, offset: 35964},
+																							pos:   position{line: 1170, col: 50, offset: 36032},
 																							label: "revdate",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1170, col: 58, offset: 35972},
+																								pos: position{line: 1170, col: 58, offset: 36040},
 																								expr: &actionExpr{
-																									pos: position{line: 1185, col: 25, offset: 36595},
+																									pos: position{line: 1185, col: 25, offset: 36663},
 																									run: (*parser).callonDocumentHeader436,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1185, col: 25, offset: 36595},
+																										pos: position{line: 1185, col: 25, offset: 36663},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1185, col: 25, offset: 36595},
+																											pos:        position{line: 1185, col: 25, offset: 36663},
 																											val:        "[^:\\r\\n]",
 																											chars:      []rune{':', '\r', '\n'},
 																											ignoreCase: false,
@@ -17891,26 +17923,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1170, col: 82, offset: 35996},
+																							pos: position{line: 1170, col: 82, offset: 36064},
 																							expr: &litMatcher{
-																								pos:        position{line: 1170, col: 82, offset: 35996},
+																								pos:        position{line: 1170, col: 82, offset: 36064},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1170, col: 87, offset: 36001},
+																							pos:   position{line: 1170, col: 87, offset: 36069},
 																							label: "revremark",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1170, col: 97, offset: 36011},
+																								pos: position{line: 1170, col: 97, offset: 36079},
 																								expr: &actionExpr{
-																									pos: position{line: 1189, col: 27, offset: 36667},
+																									pos: position{line: 1189, col: 27, offset: 36735},
 																									run: (*parser).callonDocumentHeader443,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1189, col: 27, offset: 36667},
+																										pos: position{line: 1189, col: 27, offset: 36735},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1189, col: 27, offset: 36667},
+																											pos:        position{line: 1189, col: 27, offset: 36735},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -17924,21 +17956,21 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1172, col: 15, offset: 36129},
+																				pos: position{line: 1172, col: 15, offset: 36197},
 																				run: (*parser).callonDocumentHeader446,
 																				expr: &seqExpr{
-																					pos: position{line: 1172, col: 15, offset: 36129},
+																					pos: position{line: 1172, col: 15, offset: 36197},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1172, col: 15, offset: 36129},
+																							pos:   position{line: 1172, col: 15, offset: 36197},
 																							label: "revdate",
 																							expr: &actionExpr{
-																								pos: position{line: 1185, col: 25, offset: 36595},
+																								pos: position{line: 1185, col: 25, offset: 36663},
 																								run: (*parser).callonDocumentHeader449,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1185, col: 25, offset: 36595},
+																									pos: position{line: 1185, col: 25, offset: 36663},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1185, col: 25, offset: 36595},
+																										pos:        position{line: 1185, col: 25, offset: 36663},
 																										val:        "[^:\\r\\n]",
 																										chars:      []rune{':', '\r', '\n'},
 																										ignoreCase: false,
@@ -17948,26 +17980,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1172, col: 46, offset: 36160},
+																							pos: position{line: 1172, col: 46, offset: 36228},
 																							expr: &litMatcher{
-																								pos:        position{line: 1172, col: 46, offset: 36160},
+																								pos:        position{line: 1172, col: 46, offset: 36228},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1172, col: 51, offset: 36165},
+																							pos:   position{line: 1172, col: 51, offset: 36233},
 																							label: "revremark",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1172, col: 61, offset: 36175},
+																								pos: position{line: 1172, col: 61, offset: 36243},
 																								expr: &actionExpr{
-																									pos: position{line: 1189, col: 27, offset: 36667},
+																									pos: position{line: 1189, col: 27, offset: 36735},
 																									run: (*parser).callonDocumentHeader456,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1189, col: 27, offset: 36667},
+																										pos: position{line: 1189, col: 27, offset: 36735},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1189, col: 27, offset: 36667},
+																											pos:        position{line: 1189, col: 27, offset: 36735},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -17984,28 +18016,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2884, col: 8, offset: 90982},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2871, col: 12, offset: 90755},
 																			run: (*parser).callonDocumentHeader460,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2871, col: 13, offset: 90756},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2871, col: 13, offset: 90756},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2871, col: 20, offset: 90763},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2871, col: 29, offset: 90772},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18014,9 +18046,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2881, col: 8, offset: 90932},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2881, col: 9, offset: 90933,
 																			},
 																		},
 																	},
@@ -18032,15 +18064,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1108, col: 5, offset: 34086},
+							pos:   position{line: 1108, col: 5, offset: 34154},
 							label: "extraElements",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1108, col: 19, offset: 34100},
+								pos: position{line: 1108, col: 19, offset: 34168},
 								expr: &choiceExpr{
-									pos: position{line: 1108, col: 20, offset: 34101},
+									pos: position{line: 1108, col: 20, offset: 34169},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 1108, col: 20, offset: 34101},
+											pos:  position{line: 1108, col: 20, offset: 34169},
 											name: "AttributeDeclaration",
 										},
 										&actionExpr{
@@ -18096,10 +18128,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 360, col: 49, offset: 10940},
 														expr: &actionExpr{
-															pos: position{line: 2852, col: 10, offset: 90239},
+															pos: position{line: 2862, col: 10, offset: 90584},
 															run: (*parser).callonDocumentHeader482,
 															expr: &charClassMatcher{
-																pos:        position{line: 2852, col: 10, offset: 90239},
+																pos:        position{line: 2862, col: 10, offset: 90584},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18108,28 +18140,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2874, col: 8, offset: 90637},
+														pos: position{line: 2884, col: 8, offset: 90982},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
+																pos: position{line: 2871, col: 12, offset: 90755},
 																run: (*parser).callonDocumentHeader485,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2871, col: 13, offset: 90756},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2871, col: 13, offset: 90756},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2871, col: 20, offset: 90763},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2871, col: 29, offset: 90772},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18138,9 +18170,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2881, col: 8, offset: 90932},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2881, col: 9, offset: 90933,
 																},
 															},
 														},
@@ -18201,10 +18233,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 39, offset: 11061},
 														expr: &actionExpr{
-															pos: position{line: 2852, col: 10, offset: 90239},
+															pos: position{line: 2862, col: 10, offset: 90584},
 															run: (*parser).callonDocumentHeader503,
 															expr: &charClassMatcher{
-																pos:        position{line: 2852, col: 10, offset: 90239},
+																pos:        position{line: 2862, col: 10, offset: 90584},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18213,28 +18245,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2874, col: 8, offset: 90637},
+														pos: position{line: 2884, col: 8, offset: 90982},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
+																pos: position{line: 2871, col: 12, offset: 90755},
 																run: (*parser).callonDocumentHeader506,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2871, col: 13, offset: 90756},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2871, col: 13, offset: 90756},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2871, col: 20, offset: 90763},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2871, col: 29, offset: 90772},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18243,9 +18275,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2881, col: 8, offset: 90932},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2881, col: 9, offset: 90933,
 																},
 															},
 														},
@@ -18254,36 +18286,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2462, col: 22, offset: 79217},
+											pos: position{line: 2472, col: 22, offset: 79562},
 											run: (*parser).callonDocumentHeader513,
 											expr: &seqExpr{
-												pos: position{line: 2462, col: 22, offset: 79217},
+												pos: position{line: 2472, col: 22, offset: 79562},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2467, col: 31, offset: 79438},
+														pos:        position{line: 2477, col: 31, offset: 79783},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2467, col: 36, offset: 79443},
+														pos: position{line: 2477, col: 36, offset: 79788},
 														expr: &litMatcher{
-															pos:        position{line: 2467, col: 37, offset: 79444},
+															pos:        position{line: 2477, col: 37, offset: 79789},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2462, col: 49, offset: 79244},
+														pos:   position{line: 2472, col: 49, offset: 79589},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2798, col: 13, offset: 88765},
+															pos: position{line: 2808, col: 13, offset: 89110},
 															run: (*parser).callonDocumentHeader519,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2798, col: 13, offset: 88765},
+																pos: position{line: 2808, col: 13, offset: 89110},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2798, col: 13, offset: 88765},
+																	pos:        position{line: 2808, col: 13, offset: 89110},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -18293,28 +18325,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2874, col: 8, offset: 90637},
+														pos: position{line: 2884, col: 8, offset: 90982},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
+																pos: position{line: 2871, col: 12, offset: 90755},
 																run: (*parser).callonDocumentHeader523,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2871, col: 13, offset: 90756},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2871, col: 13, offset: 90756},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2871, col: 20, offset: 90763},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2871, col: 29, offset: 90772},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18323,9 +18355,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2881, col: 8, offset: 90932},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2881, col: 9, offset: 90933,
 																},
 															},
 														},
@@ -18334,36 +18366,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 820, col: 5, offset: 26329},
+											pos: position{line: 820, col: 5, offset: 26397},
 											run: (*parser).callonDocumentHeader530,
 											expr: &seqExpr{
-												pos: position{line: 820, col: 5, offset: 26329},
+												pos: position{line: 820, col: 5, offset: 26397},
 												exprs: []interface{}{
 													&actionExpr{
-														pos: position{line: 740, col: 5, offset: 23584},
+														pos: position{line: 740, col: 5, offset: 23652},
 														run: (*parser).callonDocumentHeader532,
 														expr: &seqExpr{
-															pos: position{line: 740, col: 5, offset: 23584},
+															pos: position{line: 740, col: 5, offset: 23652},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 740, col: 5, offset: 23584},
+																	pos:   position{line: 740, col: 5, offset: 23652},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 740, col: 16, offset: 23595},
+																		pos: position{line: 740, col: 16, offset: 23663},
 																		run: (*parser).callonDocumentHeader535,
 																		expr: &seqExpr{
-																			pos: position{line: 740, col: 16, offset: 23595},
+																			pos: position{line: 740, col: 16, offset: 23663},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 740, col: 16, offset: 23595},
+																					pos:        position{line: 740, col: 16, offset: 23663},
 																					val:        "////",
 																					ignoreCase: false,
 																					want:       "\"////\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 740, col: 23, offset: 23602},
+																					pos: position{line: 740, col: 23, offset: 23670},
 																					expr: &litMatcher{
-																						pos:        position{line: 740, col: 23, offset: 23602},
+																						pos:        position{line: 740, col: 23, offset: 23670},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
@@ -18374,12 +18406,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 742, col: 8, offset: 23686},
+																	pos: position{line: 742, col: 8, offset: 23754},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2862, col: 10, offset: 90584},
 																		run: (*parser).callonDocumentHeader541,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2862, col: 10, offset: 90584},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18388,28 +18420,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2884, col: 8, offset: 90982},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2871, col: 12, offset: 90755},
 																			run: (*parser).callonDocumentHeader544,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2871, col: 13, offset: 90756},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2871, col: 13, offset: 90756},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2871, col: 20, offset: 90763},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2871, col: 29, offset: 90772},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18418,9 +18450,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2881, col: 8, offset: 90932},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2881, col: 9, offset: 90933,
 																			},
 																		},
 																	},
@@ -18429,46 +18461,46 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 821, col: 5, offset: 26360},
+														pos:   position{line: 821, col: 5, offset: 26428},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 831, col: 5, offset: 26646},
+															pos: position{line: 831, col: 5, offset: 26714},
 															expr: &actionExpr{
-																pos: position{line: 831, col: 6, offset: 26647},
+																pos: position{line: 831, col: 6, offset: 26715},
 																run: (*parser).callonDocumentHeader553,
 																expr: &seqExpr{
-																	pos: position{line: 831, col: 6, offset: 26647},
+																	pos: position{line: 831, col: 6, offset: 26715},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 831, col: 6, offset: 26647},
+																			pos: position{line: 831, col: 6, offset: 26715},
 																			expr: &choiceExpr{
-																				pos: position{line: 828, col: 29, offset: 26589},
+																				pos: position{line: 828, col: 29, offset: 26657},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 740, col: 5, offset: 23584},
+																						pos: position{line: 740, col: 5, offset: 23652},
 																						run: (*parser).callonDocumentHeader557,
 																						expr: &seqExpr{
-																							pos: position{line: 740, col: 5, offset: 23584},
+																							pos: position{line: 740, col: 5, offset: 23652},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 740, col: 5, offset: 23584},
+																									pos:   position{line: 740, col: 5, offset: 23652},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 740, col: 16, offset: 23595},
+																										pos: position{line: 740, col: 16, offset: 23663},
 																										run: (*parser).callonDocumentHeader560,
 																										expr: &seqExpr{
-																											pos: position{line: 740, col: 16, offset: 23595},
+																											pos: position{line: 740, col: 16, offset: 23663},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 740, col: 16, offset: 23595},
+																													pos:        position{line: 740, col: 16, offset: 23663},
 																													val:        "////",
 																													ignoreCase: false,
 																													want:       "\"////\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 740, col: 23, offset: 23602},
+																													pos: position{line: 740, col: 23, offset: 23670},
 																													expr: &litMatcher{
-																														pos:        position{line: 740, col: 23, offset: 23602},
+																														pos:        position{line: 740, col: 23, offset: 23670},
 																														val:        "/",
 																														ignoreCase: false,
 																														want:       "\"/\"",
@@ -18479,12 +18511,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 742, col: 8, offset: 23686},
+																									pos: position{line: 742, col: 8, offset: 23754},
 																									expr: &actionExpr{
-																										pos: position{line: 2852, col: 10, offset: 90239},
+																										pos: position{line: 2862, col: 10, offset: 90584},
 																										run: (*parser).callonDocumentHeader566,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2852, col: 10, offset: 90239},
+																											pos:        position{line: 2862, col: 10, offset: 90584},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -18493,28 +18525,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2874, col: 8, offset: 90637},
+																									pos: position{line: 2884, col: 8, offset: 90982},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2861, col: 12, offset: 90410},
+																											pos: position{line: 2871, col: 12, offset: 90755},
 																											run: (*parser).callonDocumentHeader569,
 																											expr: &choiceExpr{
-																												pos: position{line: 2861, col: 13, offset: 90411},
+																												pos: position{line: 2871, col: 13, offset: 90756},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 13, offset: 90411},
+																														pos:        position{line: 2871, col: 13, offset: 90756},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 20, offset: 90418},
+																														pos:        position{line: 2871, col: 20, offset: 90763},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 29, offset: 90427},
+																														pos:        position{line: 2871, col: 29, offset: 90772},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -18523,9 +18555,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2871, col: 8, offset: 90587},
+																											pos: position{line: 2881, col: 8, offset: 90932},
 																											expr: &anyMatcher{
-																												line: 2871, col: 9, offset: 90588,
+																												line: 2881, col: 9, offset: 90933,
 																											},
 																										},
 																									},
@@ -18534,39 +18566,39 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2881, col: 8, offset: 90932},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2881, col: 9, offset: 90933,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 832, col: 5, offset: 26677},
+																			pos:   position{line: 832, col: 5, offset: 26745},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26093},
+																				pos: position{line: 811, col: 5, offset: 26161},
 																				run: (*parser).callonDocumentHeader579,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26093},
+																					pos: position{line: 811, col: 5, offset: 26161},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2879, col: 11, offset: 90918},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2879, col: 13, offset: 90920,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26168},
+																							pos:   position{line: 812, col: 5, offset: 26236},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2808, col: 13, offset: 89110},
 																								run: (*parser).callonDocumentHeader584,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2798, col: 13, offset: 88765},
+																									pos: position{line: 2808, col: 13, offset: 89110},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2798, col: 13, offset: 88765},
+																										pos:        position{line: 2808, col: 13, offset: 89110},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -18576,28 +18608,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2884, col: 8, offset: 90982},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2871, col: 12, offset: 90755},
 																									run: (*parser).callonDocumentHeader588,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2871, col: 13, offset: 90756},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2871, col: 13, offset: 90756},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2871, col: 20, offset: 90763},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2871, col: 29, offset: 90772},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -18606,9 +18638,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2881, col: 8, offset: 90932},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2881, col: 9, offset: 90933,
 																									},
 																								},
 																							},
@@ -18623,35 +18655,35 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 822, col: 5, offset: 26394},
+														pos: position{line: 822, col: 5, offset: 26462},
 														expr: &choiceExpr{
-															pos: position{line: 828, col: 29, offset: 26589},
+															pos: position{line: 828, col: 29, offset: 26657},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 740, col: 5, offset: 23584},
+																	pos: position{line: 740, col: 5, offset: 23652},
 																	run: (*parser).callonDocumentHeader597,
 																	expr: &seqExpr{
-																		pos: position{line: 740, col: 5, offset: 23584},
+																		pos: position{line: 740, col: 5, offset: 23652},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 740, col: 5, offset: 23584},
+																				pos:   position{line: 740, col: 5, offset: 23652},
 																				label: "delimiter",
 																				expr: &actionExpr{
-																					pos: position{line: 740, col: 16, offset: 23595},
+																					pos: position{line: 740, col: 16, offset: 23663},
 																					run: (*parser).callonDocumentHeader600,
 																					expr: &seqExpr{
-																						pos: position{line: 740, col: 16, offset: 23595},
+																						pos: position{line: 740, col: 16, offset: 23663},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 740, col: 16, offset: 23595},
+																								pos:        position{line: 740, col: 16, offset: 23663},
 																								val:        "////",
 																								ignoreCase: false,
 																								want:       "\"////\"",
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 740, col: 23, offset: 23602},
+																								pos: position{line: 740, col: 23, offset: 23670},
 																								expr: &litMatcher{
-																									pos:        position{line: 740, col: 23, offset: 23602},
+																									pos:        position{line: 740, col: 23, offset: 23670},
 																									val:        "/",
 																									ignoreCase: false,
 																									want:       "\"/\"",
@@ -18662,12 +18694,12 @@ var g = &grammar{
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 742, col: 8, offset: 23686},
+																				pos: position{line: 742, col: 8, offset: 23754},
 																				expr: &actionExpr{
-																					pos: position{line: 2852, col: 10, offset: 90239},
+																					pos: position{line: 2862, col: 10, offset: 90584},
 																					run: (*parser).callonDocumentHeader606,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2852, col: 10, offset: 90239},
+																						pos:        position{line: 2862, col: 10, offset: 90584},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -18676,28 +18708,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2874, col: 8, offset: 90637},
+																				pos: position{line: 2884, col: 8, offset: 90982},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2861, col: 12, offset: 90410},
+																						pos: position{line: 2871, col: 12, offset: 90755},
 																						run: (*parser).callonDocumentHeader609,
 																						expr: &choiceExpr{
-																							pos: position{line: 2861, col: 13, offset: 90411},
+																							pos: position{line: 2871, col: 13, offset: 90756},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 13, offset: 90411},
+																									pos:        position{line: 2871, col: 13, offset: 90756},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 20, offset: 90418},
+																									pos:        position{line: 2871, col: 20, offset: 90763},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 29, offset: 90427},
+																									pos:        position{line: 2871, col: 29, offset: 90772},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -18706,9 +18738,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2881, col: 8, offset: 90932},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2881, col: 9, offset: 90933,
 																						},
 																					},
 																				},
@@ -18717,9 +18749,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2881, col: 8, offset: 90932},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2881, col: 9, offset: 90933,
 																	},
 																},
 															},
@@ -18738,26 +18770,26 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentTitle",
-			pos:  position{line: 1112, col: 1, offset: 34298},
+			pos:  position{line: 1112, col: 1, offset: 34366},
 			expr: &actionExpr{
-				pos: position{line: 1113, col: 5, offset: 34320},
+				pos: position{line: 1113, col: 5, offset: 34388},
 				run: (*parser).callonDocumentTitle1,
 				expr: &seqExpr{
-					pos: position{line: 1113, col: 5, offset: 34320},
+					pos: position{line: 1113, col: 5, offset: 34388},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1113, col: 5, offset: 34320},
+							pos:        position{line: 1113, col: 5, offset: 34388},
 							val:        "=",
 							ignoreCase: false,
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2856, col: 11, offset: 90300},
+							pos: position{line: 2866, col: 11, offset: 90645},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2856, col: 11, offset: 90300},
+								pos: position{line: 2866, col: 11, offset: 90645},
 								expr: &charClassMatcher{
-									pos:        position{line: 2856, col: 11, offset: 90300},
+									pos:        position{line: 2866, col: 11, offset: 90645},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18766,36 +18798,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1113, col: 16, offset: 34331},
+							pos:   position{line: 1113, col: 16, offset: 34399},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1113, col: 23, offset: 34338},
+								pos:  position{line: 1113, col: 23, offset: 34406},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2874, col: 8, offset: 90637},
+							pos: position{line: 2884, col: 8, offset: 90982},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2861, col: 12, offset: 90410},
+									pos: position{line: 2871, col: 12, offset: 90755},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2861, col: 13, offset: 90411},
+										pos: position{line: 2871, col: 13, offset: 90756},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2861, col: 13, offset: 90411},
+												pos:        position{line: 2871, col: 13, offset: 90756},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 20, offset: 90418},
+												pos:        position{line: 2871, col: 20, offset: 90763},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 29, offset: 90427},
+												pos:        position{line: 2871, col: 29, offset: 90772},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -18804,9 +18836,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2871, col: 8, offset: 90587},
+									pos: position{line: 2881, col: 8, offset: 90932},
 									expr: &anyMatcher{
-										line: 2871, col: 9, offset: 90588,
+										line: 2881, col: 9, offset: 90933,
 									},
 								},
 							},
@@ -18817,23 +18849,23 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentAuthorFullName",
-			pos:  position{line: 1140, col: 1, offset: 35178},
+			pos:  position{line: 1140, col: 1, offset: 35246},
 			expr: &actionExpr{
-				pos: position{line: 1141, col: 5, offset: 35209},
+				pos: position{line: 1141, col: 5, offset: 35277},
 				run: (*parser).callonDocumentAuthorFullName1,
 				expr: &seqExpr{
-					pos: position{line: 1141, col: 5, offset: 35209},
+					pos: position{line: 1141, col: 5, offset: 35277},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1141, col: 5, offset: 35209},
+							pos:   position{line: 1141, col: 5, offset: 35277},
 							label: "part1",
 							expr: &actionExpr{
-								pos: position{line: 1141, col: 12, offset: 35216},
+								pos: position{line: 1141, col: 12, offset: 35284},
 								run: (*parser).callonDocumentAuthorFullName4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1141, col: 12, offset: 35216},
+									pos: position{line: 1141, col: 12, offset: 35284},
 									expr: &charClassMatcher{
-										pos:        position{line: 1141, col: 12, offset: 35216},
+										pos:        position{line: 1141, col: 12, offset: 35284},
 										val:        "[^<;\\r\\n ]",
 										chars:      []rune{'<', ';', '\r', '\n', ' '},
 										ignoreCase: false,
@@ -18843,12 +18875,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1144, col: 5, offset: 35296},
+							pos: position{line: 1144, col: 5, offset: 35364},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2862, col: 10, offset: 90584},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2862, col: 10, offset: 90584},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18857,17 +18889,17 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1145, col: 5, offset: 35307},
+							pos:   position{line: 1145, col: 5, offset: 35375},
 							label: "part2",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1145, col: 11, offset: 35313},
+								pos: position{line: 1145, col: 11, offset: 35381},
 								expr: &actionExpr{
-									pos: position{line: 1145, col: 12, offset: 35314},
+									pos: position{line: 1145, col: 12, offset: 35382},
 									run: (*parser).callonDocumentAuthorFullName12,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1145, col: 12, offset: 35314},
+										pos: position{line: 1145, col: 12, offset: 35382},
 										expr: &charClassMatcher{
-											pos:        position{line: 1145, col: 12, offset: 35314},
+											pos:        position{line: 1145, col: 12, offset: 35382},
 											val:        "[^<;\\r\\n ]",
 											chars:      []rune{'<', ';', '\r', '\n', ' '},
 											ignoreCase: false,
@@ -18878,12 +18910,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1148, col: 5, offset: 35395},
+							pos: position{line: 1148, col: 5, offset: 35463},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2862, col: 10, offset: 90584},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2862, col: 10, offset: 90584},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18892,17 +18924,17 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1149, col: 5, offset: 35406},
+							pos:   position{line: 1149, col: 5, offset: 35474},
 							label: "part3",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1149, col: 11, offset: 35412},
+								pos: position{line: 1149, col: 11, offset: 35480},
 								expr: &actionExpr{
-									pos: position{line: 1149, col: 12, offset: 35413},
+									pos: position{line: 1149, col: 12, offset: 35481},
 									run: (*parser).callonDocumentAuthorFullName20,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1149, col: 12, offset: 35413},
+										pos: position{line: 1149, col: 12, offset: 35481},
 										expr: &charClassMatcher{
-											pos:        position{line: 1149, col: 12, offset: 35413},
+											pos:        position{line: 1149, col: 12, offset: 35481},
 											val:        "[^<;\\r\\n]",
 											chars:      []rune{'<', ';', '\r', '\n'},
 											ignoreCase: false,
@@ -18913,12 +18945,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1152, col: 5, offset: 35492},
+							pos: position{line: 1152, col: 5, offset: 35560},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2862, col: 10, offset: 90584},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2862, col: 10, offset: 90584},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18932,28 +18964,28 @@ var g = &grammar{
 		},
 		{
 			name: "InlineButton",
-			pos:  position{line: 1265, col: 1, offset: 39221},
+			pos:  position{line: 1265, col: 1, offset: 39289},
 			expr: &actionExpr{
-				pos: position{line: 1266, col: 5, offset: 39242},
+				pos: position{line: 1266, col: 5, offset: 39310},
 				run: (*parser).callonInlineButton1,
 				expr: &seqExpr{
-					pos: position{line: 1266, col: 5, offset: 39242},
+					pos: position{line: 1266, col: 5, offset: 39310},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1266, col: 5, offset: 39242},
+							pos: position{line: 1266, col: 5, offset: 39310},
 							run: (*parser).callonInlineButton3,
 						},
 						&litMatcher{
-							pos:        position{line: 1269, col: 5, offset: 39301},
+							pos:        position{line: 1269, col: 5, offset: 39369},
 							val:        "btn:",
 							ignoreCase: false,
 							want:       "\"btn:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1269, col: 12, offset: 39308},
+							pos:   position{line: 1269, col: 12, offset: 39376},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1269, col: 24, offset: 39320},
+								pos:  position{line: 1269, col: 24, offset: 39388},
 								name: "InlineAttributes",
 							},
 						},
@@ -18963,33 +18995,33 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMenu",
-			pos:  position{line: 1276, col: 1, offset: 39608},
+			pos:  position{line: 1276, col: 1, offset: 39676},
 			expr: &actionExpr{
-				pos: position{line: 1277, col: 5, offset: 39627},
+				pos: position{line: 1277, col: 5, offset: 39695},
 				run: (*parser).callonInlineMenu1,
 				expr: &seqExpr{
-					pos: position{line: 1277, col: 5, offset: 39627},
+					pos: position{line: 1277, col: 5, offset: 39695},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1277, col: 5, offset: 39627},
+							pos: position{line: 1277, col: 5, offset: 39695},
 							run: (*parser).callonInlineMenu3,
 						},
 						&litMatcher{
-							pos:        position{line: 1280, col: 5, offset: 39686},
+							pos:        position{line: 1280, col: 5, offset: 39754},
 							val:        "menu:",
 							ignoreCase: false,
 							want:       "\"menu:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1280, col: 13, offset: 39694},
+							pos:   position{line: 1280, col: 13, offset: 39762},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2837, col: 7, offset: 89891},
+								pos: position{line: 2847, col: 7, offset: 90236},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2837, col: 7, offset: 89891},
+									pos: position{line: 2847, col: 7, offset: 90236},
 									expr: &charClassMatcher{
-										pos:        position{line: 2837, col: 7, offset: 89891},
+										pos:        position{line: 2847, col: 7, offset: 90236},
 										val:        "[^[]<>,\\r\\n]",
 										chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 										ignoreCase: false,
@@ -18999,10 +19031,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1280, col: 21, offset: 39702},
+							pos:   position{line: 1280, col: 21, offset: 39770},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1280, col: 33, offset: 39714},
+								pos:  position{line: 1280, col: 33, offset: 39782},
 								name: "InlineAttributes",
 							},
 						},
@@ -19012,29 +19044,29 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTerm",
-			pos:  position{line: 1287, col: 1, offset: 40013},
+			pos:  position{line: 1287, col: 1, offset: 40081},
 			expr: &actionExpr{
-				pos: position{line: 1287, col: 14, offset: 40026},
+				pos: position{line: 1287, col: 14, offset: 40094},
 				run: (*parser).callonIndexTerm1,
 				expr: &seqExpr{
-					pos: position{line: 1287, col: 14, offset: 40026},
+					pos: position{line: 1287, col: 14, offset: 40094},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1287, col: 14, offset: 40026},
+							pos:        position{line: 1287, col: 14, offset: 40094},
 							val:        "((",
 							ignoreCase: false,
 							want:       "\"((\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1287, col: 19, offset: 40031},
+							pos:   position{line: 1287, col: 19, offset: 40099},
 							label: "term",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1287, col: 25, offset: 40037},
+								pos:  position{line: 1287, col: 25, offset: 40105},
 								name: "IndexTermContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1287, col: 43, offset: 40055},
+							pos:        position{line: 1287, col: 43, offset: 40123},
 							val:        "))",
 							ignoreCase: false,
 							want:       "\"))\"",
@@ -19045,25 +19077,25 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTermContent",
-			pos:  position{line: 1291, col: 1, offset: 40124},
+			pos:  position{line: 1291, col: 1, offset: 40192},
 			expr: &actionExpr{
-				pos: position{line: 1291, col: 21, offset: 40144},
+				pos: position{line: 1291, col: 21, offset: 40212},
 				run: (*parser).callonIndexTermContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 1291, col: 21, offset: 40144},
+					pos:   position{line: 1291, col: 21, offset: 40212},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 1291, col: 30, offset: 40153},
+						pos: position{line: 1291, col: 30, offset: 40221},
 						expr: &choiceExpr{
-							pos: position{line: 1291, col: 31, offset: 40154},
+							pos: position{line: 1291, col: 31, offset: 40222},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2746, col: 14, offset: 87408},
+									pos: position{line: 2756, col: 14, offset: 87753},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2746, col: 14, offset: 87408},
+										pos: position{line: 2756, col: 14, offset: 87753},
 										expr: &charClassMatcher{
-											pos:        position{line: 2746, col: 14, offset: 87408},
+											pos:        position{line: 2756, col: 14, offset: 87753},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -19072,14 +19104,14 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 1291, col: 43, offset: 40166},
+									pos:  position{line: 1291, col: 43, offset: 40234},
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2852, col: 10, offset: 90239},
+									pos: position{line: 2862, col: 10, offset: 90584},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2852, col: 10, offset: 90239},
+										pos:        position{line: 2862, col: 10, offset: 90584},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -19087,23 +19119,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2449, col: 5, offset: 78763},
+									pos: position{line: 2459, col: 5, offset: 79108},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2449, col: 5, offset: 78763},
+										pos: position{line: 2459, col: 5, offset: 79108},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2449, col: 5, offset: 78763},
+												pos: position{line: 2459, col: 5, offset: 79108},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2452, col: 5, offset: 78839},
+												pos:   position{line: 2462, col: 5, offset: 79184},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2453, col: 9, offset: 78857},
+													pos: position{line: 2463, col: 9, offset: 79202},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2453, col: 10, offset: 78858},
+														pos:        position{line: 2463, col: 10, offset: 79203},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -19115,27 +19147,27 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1198, col: 23, offset: 36977},
+									pos: position{line: 1198, col: 23, offset: 37045},
 									run: (*parser).callonIndexTermContent17,
 									expr: &seqExpr{
-										pos: position{line: 1198, col: 23, offset: 36977},
+										pos: position{line: 1198, col: 23, offset: 37045},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 1196, col: 32, offset: 36945},
+												pos:        position{line: 1196, col: 32, offset: 37013},
 												val:        "�",
 												ignoreCase: false,
 												want:       "\"�\"",
 											},
 											&labeledExpr{
-												pos:   position{line: 1198, col: 51, offset: 37005},
+												pos:   position{line: 1198, col: 51, offset: 37073},
 												label: "ref",
 												expr: &actionExpr{
-													pos: position{line: 1198, col: 56, offset: 37010},
+													pos: position{line: 1198, col: 56, offset: 37078},
 													run: (*parser).callonIndexTermContent21,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1198, col: 56, offset: 37010},
+														pos: position{line: 1198, col: 56, offset: 37078},
 														expr: &charClassMatcher{
-															pos:        position{line: 1198, col: 56, offset: 37010},
+															pos:        position{line: 1198, col: 56, offset: 37078},
 															val:        "[0-9]",
 															ranges:     []rune{'0', '9'},
 															ignoreCase: false,
@@ -19145,7 +19177,7 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 1196, col: 32, offset: 36945},
+												pos:        position{line: 1196, col: 32, offset: 37013},
 												val:        "�",
 												ignoreCase: false,
 												want:       "\"�\"",
@@ -19154,22 +19186,22 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1291, col: 104, offset: 40227},
+									pos: position{line: 1291, col: 104, offset: 40295},
 									run: (*parser).callonIndexTermContent25,
 									expr: &seqExpr{
-										pos: position{line: 1291, col: 105, offset: 40228},
+										pos: position{line: 1291, col: 105, offset: 40296},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1291, col: 105, offset: 40228},
+												pos: position{line: 1291, col: 105, offset: 40296},
 												expr: &litMatcher{
-													pos:        position{line: 1291, col: 106, offset: 40229},
+													pos:        position{line: 1291, col: 106, offset: 40297},
 													val:        "))",
 													ignoreCase: false,
 													want:       "\"))\"",
 												},
 											},
 											&anyMatcher{
-												line: 1291, col: 111, offset: 40234,
+												line: 1291, col: 111, offset: 40302,
 											},
 										},
 									},
@@ -19182,65 +19214,79 @@ var g = &grammar{
 		},
 		{
 			name: "ImageBlock",
-			pos:  position{line: 1311, col: 1, offset: 40943},
+			pos:  position{line: 1311, col: 1, offset: 41011},
 			expr: &actionExpr{
-				pos: position{line: 1312, col: 5, offset: 40962},
+				pos: position{line: 1312, col: 5, offset: 41030},
 				run: (*parser).callonImageBlock1,
 				expr: &seqExpr{
-					pos: position{line: 1312, col: 5, offset: 40962},
+					pos: position{line: 1312, col: 5, offset: 41030},
 					exprs: []interface{}{
+						&labeledExpr{
+							pos:   position{line: 1312, col: 5, offset: 41030},
+							label: "start",
+							expr: &actionExpr{
+								pos: position{line: 2887, col: 16, offset: 91106},
+								run: (*parser).callonImageBlock4,
+								expr: &litMatcher{
+									pos:        position{line: 2887, col: 16, offset: 91106},
+									val:        "",
+									ignoreCase: false,
+									want:       "\"\"",
+								},
+							},
+						},
 						&litMatcher{
-							pos:        position{line: 1312, col: 5, offset: 40962},
+							pos:        position{line: 1312, col: 25, offset: 41050},
 							val:        "image::",
 							ignoreCase: false,
 							want:       "\"image::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1312, col: 15, offset: 40972},
+							pos:   position{line: 1312, col: 35, offset: 41060},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2810, col: 13, offset: 88998},
-								run: (*parser).callonImageBlock5,
+								pos: position{line: 2820, col: 13, offset: 89343},
+								run: (*parser).callonImageBlock8,
 								expr: &seqExpr{
-									pos: position{line: 2810, col: 13, offset: 88998},
+									pos: position{line: 2820, col: 13, offset: 89343},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2810, col: 13, offset: 88998},
+											pos:   position{line: 2820, col: 13, offset: 89343},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2810, col: 20, offset: 89005},
+												pos: position{line: 2820, col: 20, offset: 89350},
 												expr: &actionExpr{
-													pos: position{line: 2818, col: 11, offset: 89244},
-													run: (*parser).callonImageBlock9,
+													pos: position{line: 2828, col: 11, offset: 89589},
+													run: (*parser).callonImageBlock12,
 													expr: &choiceExpr{
-														pos: position{line: 2818, col: 12, offset: 89245},
+														pos: position{line: 2828, col: 12, offset: 89590},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2818, col: 12, offset: 89245},
+																pos:        position{line: 2828, col: 12, offset: 89590},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2818, col: 24, offset: 89257},
+																pos:        position{line: 2828, col: 24, offset: 89602},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2818, col: 37, offset: 89270},
+																pos:        position{line: 2828, col: 37, offset: 89615},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2818, col: 48, offset: 89281},
+																pos:        position{line: 2828, col: 48, offset: 89626},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2818, col: 59, offset: 89292},
+																pos:        position{line: 2828, col: 59, offset: 89637},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19251,38 +19297,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2810, col: 30, offset: 89015},
+											pos:   position{line: 2820, col: 30, offset: 89360},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2823, col: 5, offset: 89356},
-												run: (*parser).callonImageBlock17,
+												pos: position{line: 2833, col: 5, offset: 89701},
+												run: (*parser).callonImageBlock20,
 												expr: &labeledExpr{
-													pos:   position{line: 2823, col: 5, offset: 89356},
+													pos:   position{line: 2833, col: 5, offset: 89701},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2823, col: 14, offset: 89365},
+														pos: position{line: 2833, col: 14, offset: 89710},
 														expr: &choiceExpr{
-															pos: position{line: 2824, col: 9, offset: 89375},
+															pos: position{line: 2834, col: 9, offset: 89720},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2824, col: 9, offset: 89375},
-																	run: (*parser).callonImageBlock21,
+																	pos: position{line: 2834, col: 9, offset: 89720},
+																	run: (*parser).callonImageBlock24,
 																	expr: &seqExpr{
-																		pos: position{line: 2824, col: 9, offset: 89375},
+																		pos: position{line: 2834, col: 9, offset: 89720},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2824, col: 9, offset: 89375},
+																				pos: position{line: 2834, col: 9, offset: 89720},
 																				expr: &litMatcher{
-																					pos:        position{line: 2824, col: 10, offset: 89376},
+																					pos:        position{line: 2834, col: 10, offset: 89721},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2825, col: 9, offset: 89404},
+																				pos: position{line: 2835, col: 9, offset: 89749},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2825, col: 10, offset: 89405},
+																					pos:        position{line: 2835, col: 10, offset: 89750},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19293,27 +19339,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2828, col: 11, offset: 89617},
+																	pos: position{line: 2838, col: 11, offset: 89962},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2828, col: 11, offset: 89617},
+																			pos:        position{line: 2838, col: 11, offset: 89962},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2828, col: 19, offset: 89625},
+																			pos: position{line: 2838, col: 19, offset: 89970},
 																			expr: &seqExpr{
-																				pos: position{line: 2828, col: 21, offset: 89627},
+																				pos: position{line: 2838, col: 21, offset: 89972},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2828, col: 21, offset: 89627},
+																						pos: position{line: 2838, col: 21, offset: 89972},
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
-																							run: (*parser).callonImageBlock32,
+																							pos: position{line: 2862, col: 10, offset: 90584},
+																							run: (*parser).callonImageBlock35,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2862, col: 10, offset: 90584},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19322,11 +19368,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2828, col: 28, offset: 89634},
+																						pos: position{line: 2838, col: 28, offset: 89979},
 																						expr: &notExpr{
-																							pos: position{line: 2871, col: 8, offset: 90587},
+																							pos: position{line: 2881, col: 8, offset: 90932},
 																							expr: &anyMatcher{
-																								line: 2871, col: 9, offset: 90588,
+																								line: 2881, col: 9, offset: 90933,
 																							},
 																						},
 																					},
@@ -19336,39 +19382,39 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 636, col: 5, offset: 20109},
-																	run: (*parser).callonImageBlock37,
+																	pos: position{line: 636, col: 5, offset: 20177},
+																	run: (*parser).callonImageBlock40,
 																	expr: &seqExpr{
-																		pos: position{line: 636, col: 5, offset: 20109},
+																		pos: position{line: 636, col: 5, offset: 20177},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 636, col: 5, offset: 20109},
-																				run: (*parser).callonImageBlock39,
+																				pos: position{line: 636, col: 5, offset: 20177},
+																				run: (*parser).callonImageBlock42,
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 639, col: 5, offset: 20181},
+																				pos:   position{line: 639, col: 5, offset: 20249},
 																				label: "element",
 																				expr: &choiceExpr{
-																					pos: position{line: 639, col: 14, offset: 20190},
+																					pos: position{line: 639, col: 14, offset: 20258},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 645, col: 5, offset: 20319},
-																							run: (*parser).callonImageBlock42,
+																							pos: position{line: 645, col: 5, offset: 20387},
+																							run: (*parser).callonImageBlock45,
 																							expr: &seqExpr{
-																								pos: position{line: 645, col: 5, offset: 20319},
+																								pos: position{line: 645, col: 5, offset: 20387},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 645, col: 5, offset: 20319},
+																										pos:        position{line: 645, col: 5, offset: 20387},
 																										val:        "\\{",
 																										ignoreCase: false,
 																										want:       "\"\\\\{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 645, col: 13, offset: 20327},
+																										pos:   position{line: 645, col: 13, offset: 20395},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9729},
-																											run: (*parser).callonImageBlock46,
+																											run: (*parser).callonImageBlock49,
 																											expr: &seqExpr{
 																												pos: position{line: 318, col: 18, offset: 9729},
 																												exprs: []interface{}{
@@ -19396,7 +19442,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 645, col: 32, offset: 20346},
+																										pos:        position{line: 645, col: 32, offset: 20414},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -19405,23 +19451,23 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 652, col: 5, offset: 20587},
-																							run: (*parser).callonImageBlock52,
+																							pos: position{line: 652, col: 5, offset: 20655},
+																							run: (*parser).callonImageBlock55,
 																							expr: &seqExpr{
-																								pos: position{line: 652, col: 5, offset: 20587},
+																								pos: position{line: 652, col: 5, offset: 20655},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 652, col: 5, offset: 20587},
+																										pos:        position{line: 652, col: 5, offset: 20655},
 																										val:        "{",
 																										ignoreCase: false,
 																										want:       "\"{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 652, col: 9, offset: 20591},
+																										pos:   position{line: 652, col: 9, offset: 20659},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9729},
-																											run: (*parser).callonImageBlock56,
+																											run: (*parser).callonImageBlock59,
 																											expr: &seqExpr{
 																												pos: position{line: 318, col: 18, offset: 9729},
 																												exprs: []interface{}{
@@ -19449,7 +19495,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 652, col: 28, offset: 20610},
+																										pos:        position{line: 652, col: 28, offset: 20678},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -19458,23 +19504,23 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 658, col: 25, offset: 20791},
-																							run: (*parser).callonImageBlock62,
+																							pos: position{line: 658, col: 25, offset: 20859},
+																							run: (*parser).callonImageBlock65,
 																							expr: &seqExpr{
-																								pos: position{line: 658, col: 25, offset: 20791},
+																								pos: position{line: 658, col: 25, offset: 20859},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 658, col: 25, offset: 20791},
+																										pos:        position{line: 658, col: 25, offset: 20859},
 																										val:        "{counter:",
 																										ignoreCase: false,
 																										want:       "\"{counter:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 658, col: 37, offset: 20803},
+																										pos:   position{line: 658, col: 37, offset: 20871},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9729},
-																											run: (*parser).callonImageBlock66,
+																											run: (*parser).callonImageBlock69,
 																											expr: &seqExpr{
 																												pos: position{line: 318, col: 18, offset: 9729},
 																												exprs: []interface{}{
@@ -19502,33 +19548,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 658, col: 56, offset: 20822},
+																										pos:   position{line: 658, col: 56, offset: 20890},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 658, col: 62, offset: 20828},
+																											pos: position{line: 658, col: 62, offset: 20896},
 																											expr: &actionExpr{
-																												pos: position{line: 666, col: 17, offset: 21123},
-																												run: (*parser).callonImageBlock73,
+																												pos: position{line: 666, col: 17, offset: 21191},
+																												run: (*parser).callonImageBlock76,
 																												expr: &seqExpr{
-																													pos: position{line: 666, col: 17, offset: 21123},
+																													pos: position{line: 666, col: 17, offset: 21191},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 666, col: 17, offset: 21123},
+																															pos:        position{line: 666, col: 17, offset: 21191},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 666, col: 21, offset: 21127},
+																															pos:   position{line: 666, col: 21, offset: 21195},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 666, col: 28, offset: 21134},
+																																pos: position{line: 666, col: 28, offset: 21202},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
-																																		run: (*parser).callonImageBlock78,
+																																		pos: position{line: 666, col: 28, offset: 21202},
+																																		run: (*parser).callonImageBlock81,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 666, col: 28, offset: 21134},
+																																			pos:        position{line: 666, col: 28, offset: 21202},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -19536,12 +19582,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 668, col: 9, offset: 21188},
-																																		run: (*parser).callonImageBlock80,
+																																		pos: position{line: 668, col: 9, offset: 21256},
+																																		run: (*parser).callonImageBlock83,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 668, col: 9, offset: 21188},
+																																			pos: position{line: 668, col: 9, offset: 21256},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 668, col: 9, offset: 21188},
+																																				pos:        position{line: 668, col: 9, offset: 21256},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -19558,7 +19604,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 658, col: 78, offset: 20844},
+																										pos:        position{line: 658, col: 78, offset: 20912},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -19567,23 +19613,23 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 662, col: 25, offset: 20962},
-																							run: (*parser).callonImageBlock84,
+																							pos: position{line: 662, col: 25, offset: 21030},
+																							run: (*parser).callonImageBlock87,
 																							expr: &seqExpr{
-																								pos: position{line: 662, col: 25, offset: 20962},
+																								pos: position{line: 662, col: 25, offset: 21030},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 662, col: 25, offset: 20962},
+																										pos:        position{line: 662, col: 25, offset: 21030},
 																										val:        "{counter2:",
 																										ignoreCase: false,
 																										want:       "\"{counter2:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 662, col: 38, offset: 20975},
+																										pos:   position{line: 662, col: 38, offset: 21043},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9729},
-																											run: (*parser).callonImageBlock88,
+																											run: (*parser).callonImageBlock91,
 																											expr: &seqExpr{
 																												pos: position{line: 318, col: 18, offset: 9729},
 																												exprs: []interface{}{
@@ -19611,33 +19657,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 662, col: 57, offset: 20994},
+																										pos:   position{line: 662, col: 57, offset: 21062},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 662, col: 63, offset: 21000},
+																											pos: position{line: 662, col: 63, offset: 21068},
 																											expr: &actionExpr{
-																												pos: position{line: 666, col: 17, offset: 21123},
-																												run: (*parser).callonImageBlock95,
+																												pos: position{line: 666, col: 17, offset: 21191},
+																												run: (*parser).callonImageBlock98,
 																												expr: &seqExpr{
-																													pos: position{line: 666, col: 17, offset: 21123},
+																													pos: position{line: 666, col: 17, offset: 21191},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 666, col: 17, offset: 21123},
+																															pos:        position{line: 666, col: 17, offset: 21191},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 666, col: 21, offset: 21127},
+																															pos:   position{line: 666, col: 21, offset: 21195},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 666, col: 28, offset: 21134},
+																																pos: position{line: 666, col: 28, offset: 21202},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
-																																		run: (*parser).callonImageBlock100,
+																																		pos: position{line: 666, col: 28, offset: 21202},
+																																		run: (*parser).callonImageBlock103,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 666, col: 28, offset: 21134},
+																																			pos:        position{line: 666, col: 28, offset: 21202},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -19645,12 +19691,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 668, col: 9, offset: 21188},
-																																		run: (*parser).callonImageBlock102,
+																																		pos: position{line: 668, col: 9, offset: 21256},
+																																		run: (*parser).callonImageBlock105,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 668, col: 9, offset: 21188},
+																																			pos: position{line: 668, col: 9, offset: 21256},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 668, col: 9, offset: 21188},
+																																				pos:        position{line: 668, col: 9, offset: 21256},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -19667,7 +19713,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 662, col: 79, offset: 21016},
+																										pos:        position{line: 662, col: 79, offset: 21084},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -19682,27 +19728,27 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1198, col: 23, offset: 36977},
-																	run: (*parser).callonImageBlock106,
+																	pos: position{line: 1198, col: 23, offset: 37045},
+																	run: (*parser).callonImageBlock109,
 																	expr: &seqExpr{
-																		pos: position{line: 1198, col: 23, offset: 36977},
+																		pos: position{line: 1198, col: 23, offset: 37045},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1196, col: 32, offset: 36945},
+																				pos:        position{line: 1196, col: 32, offset: 37013},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1198, col: 51, offset: 37005},
+																				pos:   position{line: 1198, col: 51, offset: 37073},
 																				label: "ref",
 																				expr: &actionExpr{
-																					pos: position{line: 1198, col: 56, offset: 37010},
-																					run: (*parser).callonImageBlock110,
+																					pos: position{line: 1198, col: 56, offset: 37078},
+																					run: (*parser).callonImageBlock113,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1198, col: 56, offset: 37010},
+																						pos: position{line: 1198, col: 56, offset: 37078},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 1198, col: 56, offset: 37010},
+																							pos:        position{line: 1198, col: 56, offset: 37078},
 																							val:        "[0-9]",
 																							ranges:     []rune{'0', '9'},
 																							ignoreCase: false,
@@ -19712,7 +19758,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1196, col: 32, offset: 36945},
+																				pos:        position{line: 1196, col: 32, offset: 37013},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
@@ -19721,10 +19767,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2831, col: 11, offset: 89754},
-																	run: (*parser).callonImageBlock114,
+																	pos: position{line: 2841, col: 11, offset: 90099},
+																	run: (*parser).callonImageBlock117,
 																	expr: &litMatcher{
-																		pos:        position{line: 2831, col: 11, offset: 89754},
+																		pos:        position{line: 2841, col: 11, offset: 90099},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -19741,20 +19787,20 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1312, col: 31, offset: 40988},
+							pos:   position{line: 1312, col: 51, offset: 41076},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1312, col: 43, offset: 41000},
+								pos:  position{line: 1312, col: 63, offset: 41088},
 								name: "InlineAttributes",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1312, col: 61, offset: 41018},
+							pos: position{line: 1312, col: 81, offset: 41106},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
-								run: (*parser).callonImageBlock119,
+								pos: position{line: 2862, col: 10, offset: 90584},
+								run: (*parser).callonImageBlock122,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2862, col: 10, offset: 90584},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19762,29 +19808,47 @@ var g = &grammar{
 								},
 							},
 						},
+						&labeledExpr{
+							pos:   position{line: 1312, col: 88, offset: 41113},
+							label: "end",
+							expr: &actionExpr{
+								pos: position{line: 2887, col: 16, offset: 91106},
+								run: (*parser).callonImageBlock125,
+								expr: &litMatcher{
+									pos:        position{line: 2887, col: 16, offset: 91106},
+									val:        "",
+									ignoreCase: false,
+									want:       "\"\"",
+								},
+							},
+						},
+						&andCodeExpr{
+							pos: position{line: 1312, col: 106, offset: 41131},
+							run: (*parser).callonImageBlock127,
+						},
 						&choiceExpr{
-							pos: position{line: 2874, col: 8, offset: 90637},
+							pos: position{line: 2884, col: 8, offset: 90982},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2861, col: 12, offset: 90410},
-									run: (*parser).callonImageBlock122,
+									pos: position{line: 2871, col: 12, offset: 90755},
+									run: (*parser).callonImageBlock129,
 									expr: &choiceExpr{
-										pos: position{line: 2861, col: 13, offset: 90411},
+										pos: position{line: 2871, col: 13, offset: 90756},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2861, col: 13, offset: 90411},
+												pos:        position{line: 2871, col: 13, offset: 90756},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 20, offset: 90418},
+												pos:        position{line: 2871, col: 20, offset: 90763},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 29, offset: 90427},
+												pos:        position{line: 2871, col: 29, offset: 90772},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19793,9 +19857,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2871, col: 8, offset: 90587},
+									pos: position{line: 2881, col: 8, offset: 90932},
 									expr: &anyMatcher{
-										line: 2871, col: 9, offset: 90588,
+										line: 2881, col: 9, offset: 90933,
 									},
 								},
 							},
@@ -19806,74 +19870,74 @@ var g = &grammar{
 		},
 		{
 			name: "InlineImage",
-			pos:  position{line: 1317, col: 1, offset: 41235},
+			pos:  position{line: 1317, col: 1, offset: 41371},
 			expr: &actionExpr{
-				pos: position{line: 1317, col: 16, offset: 41250},
+				pos: position{line: 1317, col: 16, offset: 41386},
 				run: (*parser).callonInlineImage1,
 				expr: &seqExpr{
-					pos: position{line: 1317, col: 16, offset: 41250},
+					pos: position{line: 1317, col: 16, offset: 41386},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1317, col: 16, offset: 41250},
+							pos:        position{line: 1317, col: 16, offset: 41386},
 							val:        "image:",
 							ignoreCase: false,
 							want:       "\"image:\"",
 						},
 						&notExpr{
-							pos: position{line: 1317, col: 25, offset: 41259},
+							pos: position{line: 1317, col: 25, offset: 41395},
 							expr: &litMatcher{
-								pos:        position{line: 1317, col: 26, offset: 41260},
+								pos:        position{line: 1317, col: 26, offset: 41396},
 								val:        ":",
 								ignoreCase: false,
 								want:       "\":\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1317, col: 30, offset: 41264},
+							pos:   position{line: 1317, col: 30, offset: 41400},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2810, col: 13, offset: 88998},
+								pos: position{line: 2820, col: 13, offset: 89343},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2810, col: 13, offset: 88998},
+									pos: position{line: 2820, col: 13, offset: 89343},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2810, col: 13, offset: 88998},
+											pos:   position{line: 2820, col: 13, offset: 89343},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2810, col: 20, offset: 89005},
+												pos: position{line: 2820, col: 20, offset: 89350},
 												expr: &actionExpr{
-													pos: position{line: 2818, col: 11, offset: 89244},
+													pos: position{line: 2828, col: 11, offset: 89589},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2818, col: 12, offset: 89245},
+														pos: position{line: 2828, col: 12, offset: 89590},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2818, col: 12, offset: 89245},
+																pos:        position{line: 2828, col: 12, offset: 89590},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2818, col: 24, offset: 89257},
+																pos:        position{line: 2828, col: 24, offset: 89602},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2818, col: 37, offset: 89270},
+																pos:        position{line: 2828, col: 37, offset: 89615},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2818, col: 48, offset: 89281},
+																pos:        position{line: 2828, col: 48, offset: 89626},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2818, col: 59, offset: 89292},
+																pos:        position{line: 2828, col: 59, offset: 89637},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19884,38 +19948,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2810, col: 30, offset: 89015},
+											pos:   position{line: 2820, col: 30, offset: 89360},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2823, col: 5, offset: 89356},
+												pos: position{line: 2833, col: 5, offset: 89701},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2823, col: 5, offset: 89356},
+													pos:   position{line: 2833, col: 5, offset: 89701},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2823, col: 14, offset: 89365},
+														pos: position{line: 2833, col: 14, offset: 89710},
 														expr: &choiceExpr{
-															pos: position{line: 2824, col: 9, offset: 89375},
+															pos: position{line: 2834, col: 9, offset: 89720},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2824, col: 9, offset: 89375},
+																	pos: position{line: 2834, col: 9, offset: 89720},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2824, col: 9, offset: 89375},
+																		pos: position{line: 2834, col: 9, offset: 89720},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2824, col: 9, offset: 89375},
+																				pos: position{line: 2834, col: 9, offset: 89720},
 																				expr: &litMatcher{
-																					pos:        position{line: 2824, col: 10, offset: 89376},
+																					pos:        position{line: 2834, col: 10, offset: 89721},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2825, col: 9, offset: 89404},
+																				pos: position{line: 2835, col: 9, offset: 89749},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2825, col: 10, offset: 89405},
+																					pos:        position{line: 2835, col: 10, offset: 89750},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19926,27 +19990,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2828, col: 11, offset: 89617},
+																	pos: position{line: 2838, col: 11, offset: 89962},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2828, col: 11, offset: 89617},
+																			pos:        position{line: 2838, col: 11, offset: 89962},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2828, col: 19, offset: 89625},
+																			pos: position{line: 2838, col: 19, offset: 89970},
 																			expr: &seqExpr{
-																				pos: position{line: 2828, col: 21, offset: 89627},
+																				pos: position{line: 2838, col: 21, offset: 89972},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2828, col: 21, offset: 89627},
+																						pos: position{line: 2838, col: 21, offset: 89972},
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2862, col: 10, offset: 90584},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2862, col: 10, offset: 90584},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19955,11 +20019,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2828, col: 28, offset: 89634},
+																						pos: position{line: 2838, col: 28, offset: 89979},
 																						expr: &notExpr{
-																							pos: position{line: 2871, col: 8, offset: 90587},
+																							pos: position{line: 2881, col: 8, offset: 90932},
 																							expr: &anyMatcher{
-																								line: 2871, col: 9, offset: 90588,
+																								line: 2881, col: 9, offset: 90933,
 																							},
 																						},
 																					},
@@ -19969,35 +20033,35 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 636, col: 5, offset: 20109},
+																	pos: position{line: 636, col: 5, offset: 20177},
 																	run: (*parser).callonInlineImage39,
 																	expr: &seqExpr{
-																		pos: position{line: 636, col: 5, offset: 20109},
+																		pos: position{line: 636, col: 5, offset: 20177},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 636, col: 5, offset: 20109},
+																				pos: position{line: 636, col: 5, offset: 20177},
 																				run: (*parser).callonInlineImage41,
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 639, col: 5, offset: 20181},
+																				pos:   position{line: 639, col: 5, offset: 20249},
 																				label: "element",
 																				expr: &choiceExpr{
-																					pos: position{line: 639, col: 14, offset: 20190},
+																					pos: position{line: 639, col: 14, offset: 20258},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 645, col: 5, offset: 20319},
+																							pos: position{line: 645, col: 5, offset: 20387},
 																							run: (*parser).callonInlineImage44,
 																							expr: &seqExpr{
-																								pos: position{line: 645, col: 5, offset: 20319},
+																								pos: position{line: 645, col: 5, offset: 20387},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 645, col: 5, offset: 20319},
+																										pos:        position{line: 645, col: 5, offset: 20387},
 																										val:        "\\{",
 																										ignoreCase: false,
 																										want:       "\"\\\\{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 645, col: 13, offset: 20327},
+																										pos:   position{line: 645, col: 13, offset: 20395},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9729},
@@ -20029,7 +20093,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 645, col: 32, offset: 20346},
+																										pos:        position{line: 645, col: 32, offset: 20414},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20038,19 +20102,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 652, col: 5, offset: 20587},
+																							pos: position{line: 652, col: 5, offset: 20655},
 																							run: (*parser).callonInlineImage54,
 																							expr: &seqExpr{
-																								pos: position{line: 652, col: 5, offset: 20587},
+																								pos: position{line: 652, col: 5, offset: 20655},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 652, col: 5, offset: 20587},
+																										pos:        position{line: 652, col: 5, offset: 20655},
 																										val:        "{",
 																										ignoreCase: false,
 																										want:       "\"{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 652, col: 9, offset: 20591},
+																										pos:   position{line: 652, col: 9, offset: 20659},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9729},
@@ -20082,7 +20146,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 652, col: 28, offset: 20610},
+																										pos:        position{line: 652, col: 28, offset: 20678},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20091,19 +20155,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 658, col: 25, offset: 20791},
+																							pos: position{line: 658, col: 25, offset: 20859},
 																							run: (*parser).callonInlineImage64,
 																							expr: &seqExpr{
-																								pos: position{line: 658, col: 25, offset: 20791},
+																								pos: position{line: 658, col: 25, offset: 20859},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 658, col: 25, offset: 20791},
+																										pos:        position{line: 658, col: 25, offset: 20859},
 																										val:        "{counter:",
 																										ignoreCase: false,
 																										want:       "\"{counter:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 658, col: 37, offset: 20803},
+																										pos:   position{line: 658, col: 37, offset: 20871},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9729},
@@ -20135,33 +20199,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 658, col: 56, offset: 20822},
+																										pos:   position{line: 658, col: 56, offset: 20890},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 658, col: 62, offset: 20828},
+																											pos: position{line: 658, col: 62, offset: 20896},
 																											expr: &actionExpr{
-																												pos: position{line: 666, col: 17, offset: 21123},
+																												pos: position{line: 666, col: 17, offset: 21191},
 																												run: (*parser).callonInlineImage75,
 																												expr: &seqExpr{
-																													pos: position{line: 666, col: 17, offset: 21123},
+																													pos: position{line: 666, col: 17, offset: 21191},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 666, col: 17, offset: 21123},
+																															pos:        position{line: 666, col: 17, offset: 21191},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 666, col: 21, offset: 21127},
+																															pos:   position{line: 666, col: 21, offset: 21195},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 666, col: 28, offset: 21134},
+																																pos: position{line: 666, col: 28, offset: 21202},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 666, col: 28, offset: 21202},
 																																		run: (*parser).callonInlineImage80,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 666, col: 28, offset: 21134},
+																																			pos:        position{line: 666, col: 28, offset: 21202},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -20169,12 +20233,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 668, col: 9, offset: 21188},
+																																		pos: position{line: 668, col: 9, offset: 21256},
 																																		run: (*parser).callonInlineImage82,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 668, col: 9, offset: 21188},
+																																			pos: position{line: 668, col: 9, offset: 21256},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 668, col: 9, offset: 21188},
+																																				pos:        position{line: 668, col: 9, offset: 21256},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20191,7 +20255,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 658, col: 78, offset: 20844},
+																										pos:        position{line: 658, col: 78, offset: 20912},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20200,19 +20264,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 662, col: 25, offset: 20962},
+																							pos: position{line: 662, col: 25, offset: 21030},
 																							run: (*parser).callonInlineImage86,
 																							expr: &seqExpr{
-																								pos: position{line: 662, col: 25, offset: 20962},
+																								pos: position{line: 662, col: 25, offset: 21030},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 662, col: 25, offset: 20962},
+																										pos:        position{line: 662, col: 25, offset: 21030},
 																										val:        "{counter2:",
 																										ignoreCase: false,
 																										want:       "\"{counter2:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 662, col: 38, offset: 20975},
+																										pos:   position{line: 662, col: 38, offset: 21043},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9729},
@@ -20244,33 +20308,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 662, col: 57, offset: 20994},
+																										pos:   position{line: 662, col: 57, offset: 21062},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 662, col: 63, offset: 21000},
+																											pos: position{line: 662, col: 63, offset: 21068},
 																											expr: &actionExpr{
-																												pos: position{line: 666, col: 17, offset: 21123},
+																												pos: position{line: 666, col: 17, offset: 21191},
 																												run: (*parser).callonInlineImage97,
 																												expr: &seqExpr{
-																													pos: position{line: 666, col: 17, offset: 21123},
+																													pos: position{line: 666, col: 17, offset: 21191},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 666, col: 17, offset: 21123},
+																															pos:        position{line: 666, col: 17, offset: 21191},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 666, col: 21, offset: 21127},
+																															pos:   position{line: 666, col: 21, offset: 21195},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 666, col: 28, offset: 21134},
+																																pos: position{line: 666, col: 28, offset: 21202},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 666, col: 28, offset: 21202},
 																																		run: (*parser).callonInlineImage102,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 666, col: 28, offset: 21134},
+																																			pos:        position{line: 666, col: 28, offset: 21202},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -20278,12 +20342,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 668, col: 9, offset: 21188},
+																																		pos: position{line: 668, col: 9, offset: 21256},
 																																		run: (*parser).callonInlineImage104,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 668, col: 9, offset: 21188},
+																																			pos: position{line: 668, col: 9, offset: 21256},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 668, col: 9, offset: 21188},
+																																				pos:        position{line: 668, col: 9, offset: 21256},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20300,7 +20364,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 662, col: 79, offset: 21016},
+																										pos:        position{line: 662, col: 79, offset: 21084},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20315,27 +20379,27 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1198, col: 23, offset: 36977},
+																	pos: position{line: 1198, col: 23, offset: 37045},
 																	run: (*parser).callonInlineImage108,
 																	expr: &seqExpr{
-																		pos: position{line: 1198, col: 23, offset: 36977},
+																		pos: position{line: 1198, col: 23, offset: 37045},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1196, col: 32, offset: 36945},
+																				pos:        position{line: 1196, col: 32, offset: 37013},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1198, col: 51, offset: 37005},
+																				pos:   position{line: 1198, col: 51, offset: 37073},
 																				label: "ref",
 																				expr: &actionExpr{
-																					pos: position{line: 1198, col: 56, offset: 37010},
+																					pos: position{line: 1198, col: 56, offset: 37078},
 																					run: (*parser).callonInlineImage112,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1198, col: 56, offset: 37010},
+																						pos: position{line: 1198, col: 56, offset: 37078},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 1198, col: 56, offset: 37010},
+																							pos:        position{line: 1198, col: 56, offset: 37078},
 																							val:        "[0-9]",
 																							ranges:     []rune{'0', '9'},
 																							ignoreCase: false,
@@ -20345,7 +20409,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1196, col: 32, offset: 36945},
+																				pos:        position{line: 1196, col: 32, offset: 37013},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
@@ -20354,10 +20418,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2831, col: 11, offset: 89754},
+																	pos: position{line: 2841, col: 11, offset: 90099},
 																	run: (*parser).callonInlineImage116,
 																	expr: &litMatcher{
-																		pos:        position{line: 2831, col: 11, offset: 89754},
+																		pos:        position{line: 2841, col: 11, offset: 90099},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20374,10 +20438,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1317, col: 46, offset: 41280},
+							pos:   position{line: 1317, col: 46, offset: 41416},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1317, col: 58, offset: 41292},
+								pos:  position{line: 1317, col: 58, offset: 41428},
 								name: "InlineAttributes",
 							},
 						},
@@ -20387,29 +20451,29 @@ var g = &grammar{
 		},
 		{
 			name: "InlineIcon",
-			pos:  position{line: 1324, col: 1, offset: 41688},
+			pos:  position{line: 1324, col: 1, offset: 41824},
 			expr: &actionExpr{
-				pos: position{line: 1324, col: 15, offset: 41702},
+				pos: position{line: 1324, col: 15, offset: 41838},
 				run: (*parser).callonInlineIcon1,
 				expr: &seqExpr{
-					pos: position{line: 1324, col: 15, offset: 41702},
+					pos: position{line: 1324, col: 15, offset: 41838},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1324, col: 15, offset: 41702},
+							pos:        position{line: 1324, col: 15, offset: 41838},
 							val:        "icon:",
 							ignoreCase: false,
 							want:       "\"icon:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1324, col: 23, offset: 41710},
+							pos:   position{line: 1324, col: 23, offset: 41846},
 							label: "icon",
 							expr: &actionExpr{
-								pos: position{line: 1324, col: 29, offset: 41716},
+								pos: position{line: 1324, col: 29, offset: 41852},
 								run: (*parser).callonInlineIcon5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1324, col: 29, offset: 41716},
+									pos: position{line: 1324, col: 29, offset: 41852},
 									expr: &charClassMatcher{
-										pos:        position{line: 1324, col: 29, offset: 41716},
+										pos:        position{line: 1324, col: 29, offset: 41852},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20420,10 +20484,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1324, col: 73, offset: 41760},
+							pos:   position{line: 1324, col: 73, offset: 41896},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1324, col: 85, offset: 41772},
+								pos:  position{line: 1324, col: 85, offset: 41908},
 								name: "InlineAttributes",
 							},
 						},
@@ -20433,31 +20497,31 @@ var g = &grammar{
 		},
 		{
 			name: "InlineFootnote",
-			pos:  position{line: 1331, col: 1, offset: 42138},
+			pos:  position{line: 1331, col: 1, offset: 42274},
 			expr: &actionExpr{
-				pos: position{line: 1331, col: 19, offset: 42156},
+				pos: position{line: 1331, col: 19, offset: 42292},
 				run: (*parser).callonInlineFootnote1,
 				expr: &seqExpr{
-					pos: position{line: 1331, col: 19, offset: 42156},
+					pos: position{line: 1331, col: 19, offset: 42292},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1331, col: 19, offset: 42156},
+							pos:        position{line: 1331, col: 19, offset: 42292},
 							val:        "footnote:",
 							ignoreCase: false,
 							want:       "\"footnote:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1331, col: 31, offset: 42168},
+							pos:   position{line: 1331, col: 31, offset: 42304},
 							label: "ref",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1331, col: 35, offset: 42172},
+								pos: position{line: 1331, col: 35, offset: 42308},
 								expr: &actionExpr{
-									pos: position{line: 1335, col: 16, offset: 42332},
+									pos: position{line: 1335, col: 16, offset: 42468},
 									run: (*parser).callonInlineFootnote6,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1335, col: 16, offset: 42332},
+										pos: position{line: 1335, col: 16, offset: 42468},
 										expr: &charClassMatcher{
-											pos:        position{line: 1335, col: 16, offset: 42332},
+											pos:        position{line: 1335, col: 16, offset: 42468},
 											val:        "[_-\\pL\\pN]",
 											chars:      []rune{'_', '-'},
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20469,21 +20533,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1331, col: 50, offset: 42187},
+							pos:        position{line: 1331, col: 50, offset: 42323},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1331, col: 54, offset: 42191},
+							pos:   position{line: 1331, col: 54, offset: 42327},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1331, col: 64, offset: 42201},
+								pos:  position{line: 1331, col: 64, offset: 42337},
 								name: "FootnoteElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1331, col: 82, offset: 42219},
+							pos:        position{line: 1331, col: 82, offset: 42355},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -20494,17 +20558,17 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElements",
-			pos:  position{line: 1337, col: 1, offset: 42376},
+			pos:  position{line: 1337, col: 1, offset: 42512},
 			expr: &actionExpr{
-				pos: position{line: 1337, col: 21, offset: 42396},
+				pos: position{line: 1337, col: 21, offset: 42532},
 				run: (*parser).callonFootnoteElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1337, col: 21, offset: 42396},
+					pos:   position{line: 1337, col: 21, offset: 42532},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1337, col: 30, offset: 42405},
+						pos: position{line: 1337, col: 30, offset: 42541},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1337, col: 31, offset: 42406},
+							pos:  position{line: 1337, col: 31, offset: 42542},
 							name: "FootnoteElement",
 						},
 					},
@@ -20513,44 +20577,44 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElement",
-			pos:  position{line: 1341, col: 1, offset: 42498},
+			pos:  position{line: 1341, col: 1, offset: 42634},
 			expr: &actionExpr{
-				pos: position{line: 1342, col: 5, offset: 42522},
+				pos: position{line: 1342, col: 5, offset: 42658},
 				run: (*parser).callonFootnoteElement1,
 				expr: &seqExpr{
-					pos: position{line: 1342, col: 5, offset: 42522},
+					pos: position{line: 1342, col: 5, offset: 42658},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1342, col: 5, offset: 42522},
+							pos: position{line: 1342, col: 5, offset: 42658},
 							expr: &litMatcher{
-								pos:        position{line: 1342, col: 6, offset: 42523},
+								pos:        position{line: 1342, col: 6, offset: 42659},
 								val:        "]",
 								ignoreCase: false,
 								want:       "\"]\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1343, col: 5, offset: 42532},
+							pos:   position{line: 1343, col: 5, offset: 42668},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1344, col: 9, offset: 42550},
+								pos: position{line: 1344, col: 9, offset: 42686},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2751, col: 5, offset: 87481},
+										pos: position{line: 2761, col: 5, offset: 87826},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2751, col: 5, offset: 87481},
+											pos: position{line: 2761, col: 5, offset: 87826},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2751, col: 5, offset: 87481},
+													pos:   position{line: 2761, col: 5, offset: 87826},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2751, col: 11, offset: 87487},
+														pos: position{line: 2761, col: 11, offset: 87832},
 														run: (*parser).callonFootnoteElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2751, col: 11, offset: 87487},
+															pos: position{line: 2761, col: 11, offset: 87832},
 															expr: &charClassMatcher{
-																pos:        position{line: 2751, col: 11, offset: 87487},
+																pos:        position{line: 2761, col: 11, offset: 87832},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -20560,36 +20624,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2754, col: 5, offset: 87545},
+													pos: position{line: 2764, col: 5, offset: 87890},
 													expr: &seqExpr{
-														pos: position{line: 2755, col: 9, offset: 87556},
+														pos: position{line: 2765, col: 9, offset: 87901},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2755, col: 9, offset: 87556},
+																pos:        position{line: 2765, col: 9, offset: 87901},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2756, col: 9, offset: 87605},
+																pos: position{line: 2766, col: 9, offset: 87950},
 																run: (*parser).callonFootnoteElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2760, col: 5, offset: 87685},
+													pos: position{line: 2770, col: 5, offset: 88030},
 													expr: &seqExpr{
-														pos: position{line: 2761, col: 9, offset: 87696},
+														pos: position{line: 2771, col: 9, offset: 88041},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2761, col: 9, offset: 87696},
+																pos:        position{line: 2771, col: 9, offset: 88041},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2761, col: 13, offset: 87700},
+																pos:        position{line: 2771, col: 13, offset: 88045},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -20602,12 +20666,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2856, col: 11, offset: 90300},
+										pos: position{line: 2866, col: 11, offset: 90645},
 										run: (*parser).callonFootnoteElement21,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2856, col: 11, offset: 90300},
+											pos: position{line: 2866, col: 11, offset: 90645},
 											expr: &charClassMatcher{
-												pos:        position{line: 2856, col: 11, offset: 90300},
+												pos:        position{line: 2866, col: 11, offset: 90645},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -20616,21 +20680,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2480, col: 5, offset: 79934},
+										pos: position{line: 2490, col: 5, offset: 80279},
 										run: (*parser).callonFootnoteElement24,
 										expr: &seqExpr{
-											pos: position{line: 2480, col: 5, offset: 79934},
+											pos: position{line: 2490, col: 5, offset: 80279},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2480, col: 5, offset: 79934},
+													pos:        position{line: 2490, col: 5, offset: 80279},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2480, col: 10, offset: 79939},
+													pos: position{line: 2490, col: 10, offset: 80284},
 													expr: &charClassMatcher{
-														pos:        position{line: 2480, col: 11, offset: 79940},
+														pos:        position{line: 2490, col: 11, offset: 80285},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -20641,29 +20705,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2486, col: 5, offset: 80132},
+										pos: position{line: 2496, col: 5, offset: 80477},
 										run: (*parser).callonFootnoteElement29,
 										expr: &seqExpr{
-											pos: position{line: 2486, col: 5, offset: 80132},
+											pos: position{line: 2496, col: 5, offset: 80477},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2486, col: 5, offset: 80132},
+													pos: position{line: 2496, col: 5, offset: 80477},
 													run: (*parser).callonFootnoteElement31,
 												},
 												&andCodeExpr{
-													pos: position{line: 2489, col: 5, offset: 80203},
+													pos: position{line: 2499, col: 5, offset: 80548},
 													run: (*parser).callonFootnoteElement32,
 												},
 												&litMatcher{
-													pos:        position{line: 2493, col: 5, offset: 80328},
+													pos:        position{line: 2503, col: 5, offset: 80673},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2493, col: 9, offset: 80332},
+													pos: position{line: 2503, col: 9, offset: 80677},
 													expr: &charClassMatcher{
-														pos:        position{line: 2493, col: 10, offset: 80333},
+														pos:        position{line: 2503, col: 10, offset: 80678},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -20674,35 +20738,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1347, col: 11, offset: 42617},
+										pos:  position{line: 1347, col: 11, offset: 42753},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1348, col: 11, offset: 42633},
+										pos:  position{line: 1348, col: 11, offset: 42769},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2769, col: 5, offset: 87893},
+										pos: position{line: 2779, col: 5, offset: 88238},
 										run: (*parser).callonFootnoteElement38,
 										expr: &choiceExpr{
-											pos: position{line: 2770, col: 9, offset: 87903},
+											pos: position{line: 2780, col: 9, offset: 88248},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2770, col: 10, offset: 87904},
+													pos:        position{line: 2780, col: 10, offset: 88249},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2772, col: 13, offset: 88001},
+													pos: position{line: 2782, col: 13, offset: 88346},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2772, col: 13, offset: 88001},
+															pos: position{line: 2782, col: 13, offset: 88346},
 															run: (*parser).callonFootnoteElement42,
 														},
 														&litMatcher{
-															pos:        position{line: 2775, col: 13, offset: 88101},
+															pos:        position{line: 2785, col: 13, offset: 88446},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -20710,20 +20774,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2775, col: 19, offset: 88107},
+													pos:        position{line: 2785, col: 19, offset: 88452},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2778, col: 13, offset: 88145},
+													pos: position{line: 2788, col: 13, offset: 88490},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2778, col: 13, offset: 88145},
+															pos: position{line: 2788, col: 13, offset: 88490},
 															run: (*parser).callonFootnoteElement46,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2781, col: 14, offset: 88238},
+															pos:        position{line: 2791, col: 14, offset: 88583},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -20732,18 +20796,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2783, col: 12, offset: 88282},
+													pos: position{line: 2793, col: 12, offset: 88627},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2783, col: 12, offset: 88282},
+															pos:        position{line: 2793, col: 12, offset: 88627},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2783, col: 16, offset: 88286},
+															pos: position{line: 2793, col: 16, offset: 88631},
 															expr: &litMatcher{
-																pos:        position{line: 2783, col: 17, offset: 88287},
+																pos:        position{line: 2793, col: 17, offset: 88632},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -20755,36 +20819,36 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1350, col: 11, offset: 42706},
+										pos:  position{line: 1350, col: 11, offset: 42842},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 1206, col: 5, offset: 37423},
+										pos: position{line: 1206, col: 5, offset: 37491},
 										run: (*parser).callonFootnoteElement53,
 										expr: &seqExpr{
-											pos: position{line: 1206, col: 5, offset: 37423},
+											pos: position{line: 1206, col: 5, offset: 37491},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 1206, col: 5, offset: 37423},
+													pos: position{line: 1206, col: 5, offset: 37491},
 													run: (*parser).callonFootnoteElement55,
 												},
 												&litMatcher{
-													pos:        position{line: 1209, col: 5, offset: 37499},
+													pos:        position{line: 1209, col: 5, offset: 37567},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&andCodeExpr{
-													pos: position{line: 1210, col: 5, offset: 37507},
+													pos: position{line: 1210, col: 5, offset: 37575},
 													run: (*parser).callonFootnoteElement57,
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1214, col: 5, offset: 37594},
+													pos: position{line: 1214, col: 5, offset: 37662},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2862, col: 10, offset: 90584},
 														run: (*parser).callonFootnoteElement59,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2862, col: 10, offset: 90584},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -20793,30 +20857,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 1214, col: 12, offset: 37601},
+													pos: position{line: 1214, col: 12, offset: 37669},
 													expr: &choiceExpr{
-														pos: position{line: 2874, col: 8, offset: 90637},
+														pos: position{line: 2884, col: 8, offset: 90982},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
+																pos: position{line: 2871, col: 12, offset: 90755},
 																run: (*parser).callonFootnoteElement63,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2871, col: 13, offset: 90756},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2871, col: 13, offset: 90756},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2871, col: 20, offset: 90763},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2871, col: 29, offset: 90772},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -20825,9 +20889,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2881, col: 8, offset: 90932},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2881, col: 9, offset: 90933,
 																},
 															},
 														},
@@ -20837,35 +20901,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 636, col: 5, offset: 20109},
+										pos: position{line: 636, col: 5, offset: 20177},
 										run: (*parser).callonFootnoteElement70,
 										expr: &seqExpr{
-											pos: position{line: 636, col: 5, offset: 20109},
+											pos: position{line: 636, col: 5, offset: 20177},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 636, col: 5, offset: 20109},
+													pos: position{line: 636, col: 5, offset: 20177},
 													run: (*parser).callonFootnoteElement72,
 												},
 												&labeledExpr{
-													pos:   position{line: 639, col: 5, offset: 20181},
+													pos:   position{line: 639, col: 5, offset: 20249},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 639, col: 14, offset: 20190},
+														pos: position{line: 639, col: 14, offset: 20258},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 645, col: 5, offset: 20319},
+																pos: position{line: 645, col: 5, offset: 20387},
 																run: (*parser).callonFootnoteElement75,
 																expr: &seqExpr{
-																	pos: position{line: 645, col: 5, offset: 20319},
+																	pos: position{line: 645, col: 5, offset: 20387},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 645, col: 5, offset: 20319},
+																			pos:        position{line: 645, col: 5, offset: 20387},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 645, col: 13, offset: 20327},
+																			pos:   position{line: 645, col: 13, offset: 20395},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9729},
@@ -20897,7 +20961,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 645, col: 32, offset: 20346},
+																			pos:        position{line: 645, col: 32, offset: 20414},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -20906,19 +20970,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 652, col: 5, offset: 20587},
+																pos: position{line: 652, col: 5, offset: 20655},
 																run: (*parser).callonFootnoteElement85,
 																expr: &seqExpr{
-																	pos: position{line: 652, col: 5, offset: 20587},
+																	pos: position{line: 652, col: 5, offset: 20655},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 652, col: 5, offset: 20587},
+																			pos:        position{line: 652, col: 5, offset: 20655},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 652, col: 9, offset: 20591},
+																			pos:   position{line: 652, col: 9, offset: 20659},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9729},
@@ -20950,7 +21014,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 652, col: 28, offset: 20610},
+																			pos:        position{line: 652, col: 28, offset: 20678},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -20959,19 +21023,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 658, col: 25, offset: 20791},
+																pos: position{line: 658, col: 25, offset: 20859},
 																run: (*parser).callonFootnoteElement95,
 																expr: &seqExpr{
-																	pos: position{line: 658, col: 25, offset: 20791},
+																	pos: position{line: 658, col: 25, offset: 20859},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 658, col: 25, offset: 20791},
+																			pos:        position{line: 658, col: 25, offset: 20859},
 																			val:        "{counter:",
 																			ignoreCase: false,
 																			want:       "\"{counter:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 658, col: 37, offset: 20803},
+																			pos:   position{line: 658, col: 37, offset: 20871},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9729},
@@ -21003,33 +21067,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 658, col: 56, offset: 20822},
+																			pos:   position{line: 658, col: 56, offset: 20890},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 658, col: 62, offset: 20828},
+																				pos: position{line: 658, col: 62, offset: 20896},
 																				expr: &actionExpr{
-																					pos: position{line: 666, col: 17, offset: 21123},
+																					pos: position{line: 666, col: 17, offset: 21191},
 																					run: (*parser).callonFootnoteElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 666, col: 17, offset: 21123},
+																						pos: position{line: 666, col: 17, offset: 21191},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 666, col: 17, offset: 21123},
+																								pos:        position{line: 666, col: 17, offset: 21191},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 666, col: 21, offset: 21127},
+																								pos:   position{line: 666, col: 21, offset: 21195},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 666, col: 28, offset: 21134},
+																									pos: position{line: 666, col: 28, offset: 21202},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 666, col: 28, offset: 21134},
+																											pos: position{line: 666, col: 28, offset: 21202},
 																											run: (*parser).callonFootnoteElement111,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 666, col: 28, offset: 21134},
+																												pos:        position{line: 666, col: 28, offset: 21202},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -21037,12 +21101,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 668, col: 9, offset: 21188},
+																											pos: position{line: 668, col: 9, offset: 21256},
 																											run: (*parser).callonFootnoteElement113,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 668, col: 9, offset: 21188},
+																												pos: position{line: 668, col: 9, offset: 21256},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 668, col: 9, offset: 21188},
+																													pos:        position{line: 668, col: 9, offset: 21256},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -21059,7 +21123,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 658, col: 78, offset: 20844},
+																			pos:        position{line: 658, col: 78, offset: 20912},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21068,19 +21132,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 662, col: 25, offset: 20962},
+																pos: position{line: 662, col: 25, offset: 21030},
 																run: (*parser).callonFootnoteElement117,
 																expr: &seqExpr{
-																	pos: position{line: 662, col: 25, offset: 20962},
+																	pos: position{line: 662, col: 25, offset: 21030},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 662, col: 25, offset: 20962},
+																			pos:        position{line: 662, col: 25, offset: 21030},
 																			val:        "{counter2:",
 																			ignoreCase: false,
 																			want:       "\"{counter2:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 662, col: 38, offset: 20975},
+																			pos:   position{line: 662, col: 38, offset: 21043},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9729},
@@ -21112,33 +21176,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 662, col: 57, offset: 20994},
+																			pos:   position{line: 662, col: 57, offset: 21062},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 662, col: 63, offset: 21000},
+																				pos: position{line: 662, col: 63, offset: 21068},
 																				expr: &actionExpr{
-																					pos: position{line: 666, col: 17, offset: 21123},
+																					pos: position{line: 666, col: 17, offset: 21191},
 																					run: (*parser).callonFootnoteElement128,
 																					expr: &seqExpr{
-																						pos: position{line: 666, col: 17, offset: 21123},
+																						pos: position{line: 666, col: 17, offset: 21191},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 666, col: 17, offset: 21123},
+																								pos:        position{line: 666, col: 17, offset: 21191},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 666, col: 21, offset: 21127},
+																								pos:   position{line: 666, col: 21, offset: 21195},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 666, col: 28, offset: 21134},
+																									pos: position{line: 666, col: 28, offset: 21202},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 666, col: 28, offset: 21134},
+																											pos: position{line: 666, col: 28, offset: 21202},
 																											run: (*parser).callonFootnoteElement133,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 666, col: 28, offset: 21134},
+																												pos:        position{line: 666, col: 28, offset: 21202},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -21146,12 +21210,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 668, col: 9, offset: 21188},
+																											pos: position{line: 668, col: 9, offset: 21256},
 																											run: (*parser).callonFootnoteElement135,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 668, col: 9, offset: 21188},
+																												pos: position{line: 668, col: 9, offset: 21256},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 668, col: 9, offset: 21188},
+																													pos:        position{line: 668, col: 9, offset: 21256},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -21168,7 +21232,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 662, col: 79, offset: 21016},
+																			pos:        position{line: 662, col: 79, offset: 21084},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21183,23 +21247,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2449, col: 5, offset: 78763},
+										pos: position{line: 2459, col: 5, offset: 79108},
 										run: (*parser).callonFootnoteElement139,
 										expr: &seqExpr{
-											pos: position{line: 2449, col: 5, offset: 78763},
+											pos: position{line: 2459, col: 5, offset: 79108},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2449, col: 5, offset: 78763},
+													pos: position{line: 2459, col: 5, offset: 79108},
 													run: (*parser).callonFootnoteElement141,
 												},
 												&labeledExpr{
-													pos:   position{line: 2452, col: 5, offset: 78839},
+													pos:   position{line: 2462, col: 5, offset: 79184},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2453, col: 9, offset: 78857},
+														pos: position{line: 2463, col: 9, offset: 79202},
 														run: (*parser).callonFootnoteElement143,
 														expr: &charClassMatcher{
-															pos:        position{line: 2453, col: 10, offset: 78858},
+															pos:        position{line: 2463, col: 10, offset: 79203},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -21211,25 +21275,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2861, col: 12, offset: 90410},
+										pos: position{line: 2871, col: 12, offset: 90755},
 										run: (*parser).callonFootnoteElement145,
 										expr: &choiceExpr{
-											pos: position{line: 2861, col: 13, offset: 90411},
+											pos: position{line: 2871, col: 13, offset: 90756},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2861, col: 13, offset: 90411},
+													pos:        position{line: 2871, col: 13, offset: 90756},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2861, col: 20, offset: 90418},
+													pos:        position{line: 2871, col: 20, offset: 90763},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2861, col: 29, offset: 90427},
+													pos:        position{line: 2871, col: 29, offset: 90772},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -21238,10 +21302,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2791, col: 12, offset: 88547},
+										pos: position{line: 2801, col: 12, offset: 88892},
 										run: (*parser).callonFootnoteElement150,
 										expr: &charClassMatcher{
-											pos:        position{line: 2791, col: 12, offset: 88547},
+											pos:        position{line: 2801, col: 12, offset: 88892},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -21257,32 +21321,32 @@ var g = &grammar{
 		},
 		{
 			name: "PassthroughMacro",
-			pos:  position{line: 1389, col: 1, offset: 44551},
+			pos:  position{line: 1389, col: 1, offset: 44687},
 			expr: &choiceExpr{
-				pos: position{line: 1389, col: 21, offset: 44571},
+				pos: position{line: 1389, col: 21, offset: 44707},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1389, col: 21, offset: 44571},
+						pos: position{line: 1389, col: 21, offset: 44707},
 						run: (*parser).callonPassthroughMacro2,
 						expr: &seqExpr{
-							pos: position{line: 1389, col: 21, offset: 44571},
+							pos: position{line: 1389, col: 21, offset: 44707},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1389, col: 21, offset: 44571},
+									pos:        position{line: 1389, col: 21, offset: 44707},
 									val:        "pass:[",
 									ignoreCase: false,
 									want:       "\"pass:[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1389, col: 30, offset: 44580},
+									pos:   position{line: 1389, col: 30, offset: 44716},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1389, col: 38, offset: 44588},
+										pos: position{line: 1389, col: 38, offset: 44724},
 										expr: &actionExpr{
-											pos: position{line: 1395, col: 30, offset: 44914},
+											pos: position{line: 1395, col: 30, offset: 45050},
 											run: (*parser).callonPassthroughMacro7,
 											expr: &charClassMatcher{
-												pos:        position{line: 1395, col: 30, offset: 44914},
+												pos:        position{line: 1395, col: 30, offset: 45050},
 												val:        "[^]]",
 												chars:      []rune{']'},
 												ignoreCase: false,
@@ -21292,7 +21356,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1389, col: 67, offset: 44617},
+									pos:        position{line: 1389, col: 67, offset: 44753},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -21301,34 +21365,34 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1391, col: 9, offset: 44721},
+						pos: position{line: 1391, col: 9, offset: 44857},
 						run: (*parser).callonPassthroughMacro10,
 						expr: &seqExpr{
-							pos: position{line: 1391, col: 9, offset: 44721},
+							pos: position{line: 1391, col: 9, offset: 44857},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1391, col: 9, offset: 44721},
+									pos:        position{line: 1391, col: 9, offset: 44857},
 									val:        "pass:q[",
 									ignoreCase: false,
 									want:       "\"pass:q[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1391, col: 19, offset: 44731},
+									pos:   position{line: 1391, col: 19, offset: 44867},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1391, col: 27, offset: 44739},
+										pos: position{line: 1391, col: 27, offset: 44875},
 										expr: &choiceExpr{
-											pos: position{line: 1391, col: 28, offset: 44740},
+											pos: position{line: 1391, col: 28, offset: 44876},
 											alternatives: []interface{}{
 												&ruleRefExpr{
-													pos:  position{line: 1391, col: 28, offset: 44740},
+													pos:  position{line: 1391, col: 28, offset: 44876},
 													name: "QuotedText",
 												},
 												&actionExpr{
-													pos: position{line: 1395, col: 30, offset: 44914},
+													pos: position{line: 1395, col: 30, offset: 45050},
 													run: (*parser).callonPassthroughMacro17,
 													expr: &charClassMatcher{
-														pos:        position{line: 1395, col: 30, offset: 44914},
+														pos:        position{line: 1395, col: 30, offset: 45050},
 														val:        "[^]]",
 														chars:      []rune{']'},
 														ignoreCase: false,
@@ -21340,7 +21404,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1391, col: 69, offset: 44781},
+									pos:        position{line: 1391, col: 69, offset: 44917},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -21353,75 +21417,75 @@ var g = &grammar{
 		},
 		{
 			name: "Link",
-			pos:  position{line: 1402, col: 1, offset: 45170},
+			pos:  position{line: 1402, col: 1, offset: 45306},
 			expr: &choiceExpr{
-				pos: position{line: 1402, col: 9, offset: 45178},
+				pos: position{line: 1402, col: 9, offset: 45314},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1405, col: 5, offset: 45247},
+						pos: position{line: 1405, col: 5, offset: 45383},
 						run: (*parser).callonLink2,
 						expr: &seqExpr{
-							pos: position{line: 1405, col: 5, offset: 45247},
+							pos: position{line: 1405, col: 5, offset: 45383},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1405, col: 5, offset: 45247},
+									pos:        position{line: 1405, col: 5, offset: 45383},
 									val:        "<",
 									ignoreCase: false,
 									want:       "\"<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1406, col: 5, offset: 45256},
+									pos:   position{line: 1406, col: 5, offset: 45392},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2814, col: 23, offset: 89125},
+										pos: position{line: 2824, col: 23, offset: 89470},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2814, col: 23, offset: 89125},
+											pos: position{line: 2824, col: 23, offset: 89470},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2814, col: 23, offset: 89125},
+													pos: position{line: 2824, col: 23, offset: 89470},
 													expr: &litMatcher{
-														pos:        position{line: 2814, col: 24, offset: 89126},
+														pos:        position{line: 2824, col: 24, offset: 89471},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2814, col: 28, offset: 89130},
+													pos:   position{line: 2824, col: 28, offset: 89475},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2818, col: 11, offset: 89244},
+														pos: position{line: 2828, col: 11, offset: 89589},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2818, col: 12, offset: 89245},
+															pos: position{line: 2828, col: 12, offset: 89590},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2818, col: 12, offset: 89245},
+																	pos:        position{line: 2828, col: 12, offset: 89590},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2818, col: 24, offset: 89257},
+																	pos:        position{line: 2828, col: 24, offset: 89602},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2818, col: 37, offset: 89270},
+																	pos:        position{line: 2828, col: 37, offset: 89615},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2818, col: 48, offset: 89281},
+																	pos:        position{line: 2828, col: 48, offset: 89626},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2818, col: 59, offset: 89292},
+																	pos:        position{line: 2828, col: 59, offset: 89637},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -21431,38 +21495,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2814, col: 44, offset: 89146},
+													pos:   position{line: 2824, col: 44, offset: 89491},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2823, col: 5, offset: 89356},
+														pos: position{line: 2833, col: 5, offset: 89701},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2823, col: 5, offset: 89356},
+															pos:   position{line: 2833, col: 5, offset: 89701},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2823, col: 14, offset: 89365},
+																pos: position{line: 2833, col: 14, offset: 89710},
 																expr: &choiceExpr{
-																	pos: position{line: 2824, col: 9, offset: 89375},
+																	pos: position{line: 2834, col: 9, offset: 89720},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2824, col: 9, offset: 89375},
+																			pos: position{line: 2834, col: 9, offset: 89720},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2824, col: 9, offset: 89375},
+																				pos: position{line: 2834, col: 9, offset: 89720},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2824, col: 9, offset: 89375},
+																						pos: position{line: 2834, col: 9, offset: 89720},
 																						expr: &litMatcher{
-																							pos:        position{line: 2824, col: 10, offset: 89376},
+																							pos:        position{line: 2834, col: 10, offset: 89721},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2825, col: 9, offset: 89404},
+																						pos: position{line: 2835, col: 9, offset: 89749},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2825, col: 10, offset: 89405},
+																							pos:        position{line: 2835, col: 10, offset: 89750},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -21473,27 +21537,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2828, col: 11, offset: 89617},
+																			pos: position{line: 2838, col: 11, offset: 89962},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2828, col: 11, offset: 89617},
+																					pos:        position{line: 2838, col: 11, offset: 89962},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2828, col: 19, offset: 89625},
+																					pos: position{line: 2838, col: 19, offset: 89970},
 																					expr: &seqExpr{
-																						pos: position{line: 2828, col: 21, offset: 89627},
+																						pos: position{line: 2838, col: 21, offset: 89972},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2828, col: 21, offset: 89627},
+																								pos: position{line: 2838, col: 21, offset: 89972},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2862, col: 10, offset: 90584},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2862, col: 10, offset: 90584},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -21502,11 +21566,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2828, col: 28, offset: 89634},
+																								pos: position{line: 2838, col: 28, offset: 89979},
 																								expr: &notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2881, col: 8, offset: 90932},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2881, col: 9, offset: 90933,
 																									},
 																								},
 																							},
@@ -21516,35 +21580,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 636, col: 5, offset: 20109},
+																			pos: position{line: 636, col: 5, offset: 20177},
 																			run: (*parser).callonLink39,
 																			expr: &seqExpr{
-																				pos: position{line: 636, col: 5, offset: 20109},
+																				pos: position{line: 636, col: 5, offset: 20177},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 636, col: 5, offset: 20109},
+																						pos: position{line: 636, col: 5, offset: 20177},
 																						run: (*parser).callonLink41,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 639, col: 5, offset: 20181},
+																						pos:   position{line: 639, col: 5, offset: 20249},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 639, col: 14, offset: 20190},
+																							pos: position{line: 639, col: 14, offset: 20258},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 645, col: 5, offset: 20319},
+																									pos: position{line: 645, col: 5, offset: 20387},
 																									run: (*parser).callonLink44,
 																									expr: &seqExpr{
-																										pos: position{line: 645, col: 5, offset: 20319},
+																										pos: position{line: 645, col: 5, offset: 20387},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 645, col: 5, offset: 20319},
+																												pos:        position{line: 645, col: 5, offset: 20387},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 645, col: 13, offset: 20327},
+																												pos:   position{line: 645, col: 13, offset: 20395},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9729},
@@ -21576,7 +21640,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 645, col: 32, offset: 20346},
+																												pos:        position{line: 645, col: 32, offset: 20414},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -21585,19 +21649,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 652, col: 5, offset: 20587},
+																									pos: position{line: 652, col: 5, offset: 20655},
 																									run: (*parser).callonLink54,
 																									expr: &seqExpr{
-																										pos: position{line: 652, col: 5, offset: 20587},
+																										pos: position{line: 652, col: 5, offset: 20655},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 652, col: 5, offset: 20587},
+																												pos:        position{line: 652, col: 5, offset: 20655},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 652, col: 9, offset: 20591},
+																												pos:   position{line: 652, col: 9, offset: 20659},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9729},
@@ -21629,7 +21693,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 652, col: 28, offset: 20610},
+																												pos:        position{line: 652, col: 28, offset: 20678},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -21638,19 +21702,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 658, col: 25, offset: 20791},
+																									pos: position{line: 658, col: 25, offset: 20859},
 																									run: (*parser).callonLink64,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 25, offset: 20791},
+																										pos: position{line: 658, col: 25, offset: 20859},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 658, col: 25, offset: 20791},
+																												pos:        position{line: 658, col: 25, offset: 20859},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 37, offset: 20803},
+																												pos:   position{line: 658, col: 37, offset: 20871},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9729},
@@ -21682,33 +21746,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 56, offset: 20822},
+																												pos:   position{line: 658, col: 56, offset: 20890},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 658, col: 62, offset: 20828},
+																													pos: position{line: 658, col: 62, offset: 20896},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21123},
+																														pos: position{line: 666, col: 17, offset: 21191},
 																														run: (*parser).callonLink75,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21123},
+																															pos: position{line: 666, col: 17, offset: 21191},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21123},
+																																	pos:        position{line: 666, col: 17, offset: 21191},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21127},
+																																	pos:   position{line: 666, col: 21, offset: 21195},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 666, col: 28, offset: 21202},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21134},
+																																				pos: position{line: 666, col: 28, offset: 21202},
 																																				run: (*parser).callonLink80,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21134},
+																																					pos:        position{line: 666, col: 28, offset: 21202},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -21716,12 +21780,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21188},
+																																				pos: position{line: 668, col: 9, offset: 21256},
 																																				run: (*parser).callonLink82,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21188},
+																																					pos: position{line: 668, col: 9, offset: 21256},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21188},
+																																						pos:        position{line: 668, col: 9, offset: 21256},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -21738,7 +21802,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 78, offset: 20844},
+																												pos:        position{line: 658, col: 78, offset: 20912},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -21747,19 +21811,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 662, col: 25, offset: 20962},
+																									pos: position{line: 662, col: 25, offset: 21030},
 																									run: (*parser).callonLink86,
 																									expr: &seqExpr{
-																										pos: position{line: 662, col: 25, offset: 20962},
+																										pos: position{line: 662, col: 25, offset: 21030},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 662, col: 25, offset: 20962},
+																												pos:        position{line: 662, col: 25, offset: 21030},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 38, offset: 20975},
+																												pos:   position{line: 662, col: 38, offset: 21043},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9729},
@@ -21791,33 +21855,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 57, offset: 20994},
+																												pos:   position{line: 662, col: 57, offset: 21062},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 662, col: 63, offset: 21000},
+																													pos: position{line: 662, col: 63, offset: 21068},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21123},
+																														pos: position{line: 666, col: 17, offset: 21191},
 																														run: (*parser).callonLink97,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21123},
+																															pos: position{line: 666, col: 17, offset: 21191},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21123},
+																																	pos:        position{line: 666, col: 17, offset: 21191},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21127},
+																																	pos:   position{line: 666, col: 21, offset: 21195},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 666, col: 28, offset: 21202},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21134},
+																																				pos: position{line: 666, col: 28, offset: 21202},
 																																				run: (*parser).callonLink102,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21134},
+																																					pos:        position{line: 666, col: 28, offset: 21202},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -21825,12 +21889,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21188},
+																																				pos: position{line: 668, col: 9, offset: 21256},
 																																				run: (*parser).callonLink104,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21188},
+																																					pos: position{line: 668, col: 9, offset: 21256},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21188},
+																																						pos:        position{line: 668, col: 9, offset: 21256},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -21847,7 +21911,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 662, col: 79, offset: 21016},
+																												pos:        position{line: 662, col: 79, offset: 21084},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -21862,27 +21926,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1198, col: 23, offset: 36977},
+																			pos: position{line: 1198, col: 23, offset: 37045},
 																			run: (*parser).callonLink108,
 																			expr: &seqExpr{
-																				pos: position{line: 1198, col: 23, offset: 36977},
+																				pos: position{line: 1198, col: 23, offset: 37045},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36945},
+																						pos:        position{line: 1196, col: 32, offset: 37013},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1198, col: 51, offset: 37005},
+																						pos:   position{line: 1198, col: 51, offset: 37073},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1198, col: 56, offset: 37010},
+																							pos: position{line: 1198, col: 56, offset: 37078},
 																							run: (*parser).callonLink112,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1198, col: 56, offset: 37010},
+																								pos: position{line: 1198, col: 56, offset: 37078},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1198, col: 56, offset: 37010},
+																									pos:        position{line: 1198, col: 56, offset: 37078},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -21892,7 +21956,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36945},
+																						pos:        position{line: 1196, col: 32, offset: 37013},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -21901,10 +21965,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2831, col: 11, offset: 89754},
+																			pos: position{line: 2841, col: 11, offset: 90099},
 																			run: (*parser).callonLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2831, col: 11, offset: 89754},
+																				pos:        position{line: 2841, col: 11, offset: 90099},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -21921,7 +21985,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1411, col: 5, offset: 45475},
+									pos:        position{line: 1411, col: 5, offset: 45611},
 									val:        ">",
 									ignoreCase: false,
 									want:       "\">\"",
@@ -21930,38 +21994,38 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1402, col: 19, offset: 45188},
+						pos:  position{line: 1402, col: 19, offset: 45324},
 						name: "RelativeLink",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1402, col: 34, offset: 45203},
+						pos:  position{line: 1402, col: 34, offset: 45339},
 						name: "ExternalLink",
 					},
 					&actionExpr{
-						pos: position{line: 1440, col: 17, offset: 46468},
+						pos: position{line: 1440, col: 17, offset: 46604},
 						run: (*parser).callonLink121,
 						expr: &seqExpr{
-							pos: position{line: 1440, col: 17, offset: 46468},
+							pos: position{line: 1440, col: 17, offset: 46604},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1440, col: 17, offset: 46468},
+									pos:   position{line: 1440, col: 17, offset: 46604},
 									label: "local",
 									expr: &actionExpr{
-										pos: position{line: 1445, col: 5, offset: 46633},
+										pos: position{line: 1445, col: 5, offset: 46769},
 										run: (*parser).callonLink124,
 										expr: &seqExpr{
-											pos: position{line: 1445, col: 5, offset: 46633},
+											pos: position{line: 1445, col: 5, offset: 46769},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1445, col: 5, offset: 46633},
+													pos:   position{line: 1445, col: 5, offset: 46769},
 													label: "local",
 													expr: &actionExpr{
-														pos: position{line: 1445, col: 12, offset: 46640},
+														pos: position{line: 1445, col: 12, offset: 46776},
 														run: (*parser).callonLink127,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1445, col: 12, offset: 46640},
+															pos: position{line: 1445, col: 12, offset: 46776},
 															expr: &charClassMatcher{
-																pos:        position{line: 1445, col: 12, offset: 46640},
+																pos:        position{line: 1445, col: 12, offset: 46776},
 																val:        "[!#$%&\\*=?^_`{|}~.+-/\\pL\\pN]",
 																chars:      []rune{'!', '#', '$', '%', '&', '\'', '*', '=', '?', '^', '_', '`', '{', '|', '}', '~', '.'},
 																ranges:     []rune{'+', '/'},
@@ -21973,7 +22037,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1448, col: 5, offset: 46724},
+													pos: position{line: 1448, col: 5, offset: 46860},
 													run: (*parser).callonLink130,
 												},
 											},
@@ -21981,33 +22045,33 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1440, col: 43, offset: 46494},
+									pos:        position{line: 1440, col: 43, offset: 46630},
 									val:        "@",
 									ignoreCase: false,
 									want:       "\"@\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1440, col: 47, offset: 46498},
+									pos:   position{line: 1440, col: 47, offset: 46634},
 									label: "domain",
 									expr: &actionExpr{
-										pos: position{line: 1457, col: 23, offset: 47018},
+										pos: position{line: 1457, col: 23, offset: 47154},
 										run: (*parser).callonLink133,
 										expr: &seqExpr{
-											pos: position{line: 1457, col: 23, offset: 47018},
+											pos: position{line: 1457, col: 23, offset: 47154},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1457, col: 23, offset: 47018},
+													pos:   position{line: 1457, col: 23, offset: 47154},
 													label: "domain",
 													expr: &actionExpr{
-														pos: position{line: 1457, col: 31, offset: 47026},
+														pos: position{line: 1457, col: 31, offset: 47162},
 														run: (*parser).callonLink136,
 														expr: &seqExpr{
-															pos: position{line: 1457, col: 31, offset: 47026},
+															pos: position{line: 1457, col: 31, offset: 47162},
 															exprs: []interface{}{
 																&oneOrMoreExpr{
-																	pos: position{line: 1457, col: 31, offset: 47026},
+																	pos: position{line: 1457, col: 31, offset: 47162},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 1457, col: 31, offset: 47026},
+																		pos:        position{line: 1457, col: 31, offset: 47162},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -22015,20 +22079,20 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 1457, col: 41, offset: 47036},
+																	pos: position{line: 1457, col: 41, offset: 47172},
 																	expr: &seqExpr{
-																		pos: position{line: 1457, col: 42, offset: 47037},
+																		pos: position{line: 1457, col: 42, offset: 47173},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1457, col: 42, offset: 47037},
+																				pos:        position{line: 1457, col: 42, offset: 47173},
 																				val:        ".",
 																				ignoreCase: false,
 																				want:       "\".\"",
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 1457, col: 46, offset: 47041},
+																				pos: position{line: 1457, col: 46, offset: 47177},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1457, col: 46, offset: 47041},
+																					pos:        position{line: 1457, col: 46, offset: 47177},
 																					val:        "[-\\pL\\pN]",
 																					chars:      []rune{'-'},
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22044,7 +22108,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1460, col: 5, offset: 47102},
+													pos: position{line: 1460, col: 5, offset: 47238},
 													run: (*parser).callonLink145,
 												},
 											},
@@ -22059,68 +22123,68 @@ var g = &grammar{
 		},
 		{
 			name: "RelativeLink",
-			pos:  position{line: 1417, col: 1, offset: 45623},
+			pos:  position{line: 1417, col: 1, offset: 45759},
 			expr: &choiceExpr{
-				pos: position{line: 1419, col: 5, offset: 45659},
+				pos: position{line: 1419, col: 5, offset: 45795},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1419, col: 5, offset: 45659},
+						pos: position{line: 1419, col: 5, offset: 45795},
 						run: (*parser).callonRelativeLink2,
 						expr: &seqExpr{
-							pos: position{line: 1419, col: 5, offset: 45659},
+							pos: position{line: 1419, col: 5, offset: 45795},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1419, col: 5, offset: 45659},
+									pos:        position{line: 1419, col: 5, offset: 45795},
 									val:        "\\link:",
 									ignoreCase: false,
 									want:       "\"\\\\link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1419, col: 17, offset: 45671},
+									pos:   position{line: 1419, col: 17, offset: 45807},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2810, col: 13, offset: 88998},
+										pos: position{line: 2820, col: 13, offset: 89343},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2810, col: 13, offset: 88998},
+											pos: position{line: 2820, col: 13, offset: 89343},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2810, col: 13, offset: 88998},
+													pos:   position{line: 2820, col: 13, offset: 89343},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2810, col: 20, offset: 89005},
+														pos: position{line: 2820, col: 20, offset: 89350},
 														expr: &actionExpr{
-															pos: position{line: 2818, col: 11, offset: 89244},
+															pos: position{line: 2828, col: 11, offset: 89589},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2818, col: 12, offset: 89245},
+																pos: position{line: 2828, col: 12, offset: 89590},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2818, col: 12, offset: 89245},
+																		pos:        position{line: 2828, col: 12, offset: 89590},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2818, col: 24, offset: 89257},
+																		pos:        position{line: 2828, col: 24, offset: 89602},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2818, col: 37, offset: 89270},
+																		pos:        position{line: 2828, col: 37, offset: 89615},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2818, col: 48, offset: 89281},
+																		pos:        position{line: 2828, col: 48, offset: 89626},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2818, col: 59, offset: 89292},
+																		pos:        position{line: 2828, col: 59, offset: 89637},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22131,38 +22195,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2810, col: 30, offset: 89015},
+													pos:   position{line: 2820, col: 30, offset: 89360},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2823, col: 5, offset: 89356},
+														pos: position{line: 2833, col: 5, offset: 89701},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2823, col: 5, offset: 89356},
+															pos:   position{line: 2833, col: 5, offset: 89701},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2823, col: 14, offset: 89365},
+																pos: position{line: 2833, col: 14, offset: 89710},
 																expr: &choiceExpr{
-																	pos: position{line: 2824, col: 9, offset: 89375},
+																	pos: position{line: 2834, col: 9, offset: 89720},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2824, col: 9, offset: 89375},
+																			pos: position{line: 2834, col: 9, offset: 89720},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2824, col: 9, offset: 89375},
+																				pos: position{line: 2834, col: 9, offset: 89720},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2824, col: 9, offset: 89375},
+																						pos: position{line: 2834, col: 9, offset: 89720},
 																						expr: &litMatcher{
-																							pos:        position{line: 2824, col: 10, offset: 89376},
+																							pos:        position{line: 2834, col: 10, offset: 89721},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2825, col: 9, offset: 89404},
+																						pos: position{line: 2835, col: 9, offset: 89749},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2825, col: 10, offset: 89405},
+																							pos:        position{line: 2835, col: 10, offset: 89750},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22173,27 +22237,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2828, col: 11, offset: 89617},
+																			pos: position{line: 2838, col: 11, offset: 89962},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2828, col: 11, offset: 89617},
+																					pos:        position{line: 2838, col: 11, offset: 89962},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2828, col: 19, offset: 89625},
+																					pos: position{line: 2838, col: 19, offset: 89970},
 																					expr: &seqExpr{
-																						pos: position{line: 2828, col: 21, offset: 89627},
+																						pos: position{line: 2838, col: 21, offset: 89972},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2828, col: 21, offset: 89627},
+																								pos: position{line: 2838, col: 21, offset: 89972},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2862, col: 10, offset: 90584},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2862, col: 10, offset: 90584},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22202,11 +22266,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2828, col: 28, offset: 89634},
+																								pos: position{line: 2838, col: 28, offset: 89979},
 																								expr: &notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2881, col: 8, offset: 90932},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2881, col: 9, offset: 90933,
 																									},
 																								},
 																							},
@@ -22216,35 +22280,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 636, col: 5, offset: 20109},
+																			pos: position{line: 636, col: 5, offset: 20177},
 																			run: (*parser).callonRelativeLink38,
 																			expr: &seqExpr{
-																				pos: position{line: 636, col: 5, offset: 20109},
+																				pos: position{line: 636, col: 5, offset: 20177},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 636, col: 5, offset: 20109},
+																						pos: position{line: 636, col: 5, offset: 20177},
 																						run: (*parser).callonRelativeLink40,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 639, col: 5, offset: 20181},
+																						pos:   position{line: 639, col: 5, offset: 20249},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 639, col: 14, offset: 20190},
+																							pos: position{line: 639, col: 14, offset: 20258},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 645, col: 5, offset: 20319},
+																									pos: position{line: 645, col: 5, offset: 20387},
 																									run: (*parser).callonRelativeLink43,
 																									expr: &seqExpr{
-																										pos: position{line: 645, col: 5, offset: 20319},
+																										pos: position{line: 645, col: 5, offset: 20387},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 645, col: 5, offset: 20319},
+																												pos:        position{line: 645, col: 5, offset: 20387},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 645, col: 13, offset: 20327},
+																												pos:   position{line: 645, col: 13, offset: 20395},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9729},
@@ -22276,7 +22340,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 645, col: 32, offset: 20346},
+																												pos:        position{line: 645, col: 32, offset: 20414},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22285,19 +22349,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 652, col: 5, offset: 20587},
+																									pos: position{line: 652, col: 5, offset: 20655},
 																									run: (*parser).callonRelativeLink53,
 																									expr: &seqExpr{
-																										pos: position{line: 652, col: 5, offset: 20587},
+																										pos: position{line: 652, col: 5, offset: 20655},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 652, col: 5, offset: 20587},
+																												pos:        position{line: 652, col: 5, offset: 20655},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 652, col: 9, offset: 20591},
+																												pos:   position{line: 652, col: 9, offset: 20659},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9729},
@@ -22329,7 +22393,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 652, col: 28, offset: 20610},
+																												pos:        position{line: 652, col: 28, offset: 20678},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22338,19 +22402,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 658, col: 25, offset: 20791},
+																									pos: position{line: 658, col: 25, offset: 20859},
 																									run: (*parser).callonRelativeLink63,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 25, offset: 20791},
+																										pos: position{line: 658, col: 25, offset: 20859},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 658, col: 25, offset: 20791},
+																												pos:        position{line: 658, col: 25, offset: 20859},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 37, offset: 20803},
+																												pos:   position{line: 658, col: 37, offset: 20871},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9729},
@@ -22382,33 +22446,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 56, offset: 20822},
+																												pos:   position{line: 658, col: 56, offset: 20890},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 658, col: 62, offset: 20828},
+																													pos: position{line: 658, col: 62, offset: 20896},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21123},
+																														pos: position{line: 666, col: 17, offset: 21191},
 																														run: (*parser).callonRelativeLink74,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21123},
+																															pos: position{line: 666, col: 17, offset: 21191},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21123},
+																																	pos:        position{line: 666, col: 17, offset: 21191},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21127},
+																																	pos:   position{line: 666, col: 21, offset: 21195},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 666, col: 28, offset: 21202},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21134},
+																																				pos: position{line: 666, col: 28, offset: 21202},
 																																				run: (*parser).callonRelativeLink79,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21134},
+																																					pos:        position{line: 666, col: 28, offset: 21202},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22416,12 +22480,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21188},
+																																				pos: position{line: 668, col: 9, offset: 21256},
 																																				run: (*parser).callonRelativeLink81,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21188},
+																																					pos: position{line: 668, col: 9, offset: 21256},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21188},
+																																						pos:        position{line: 668, col: 9, offset: 21256},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -22438,7 +22502,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 78, offset: 20844},
+																												pos:        position{line: 658, col: 78, offset: 20912},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22447,19 +22511,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 662, col: 25, offset: 20962},
+																									pos: position{line: 662, col: 25, offset: 21030},
 																									run: (*parser).callonRelativeLink85,
 																									expr: &seqExpr{
-																										pos: position{line: 662, col: 25, offset: 20962},
+																										pos: position{line: 662, col: 25, offset: 21030},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 662, col: 25, offset: 20962},
+																												pos:        position{line: 662, col: 25, offset: 21030},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 38, offset: 20975},
+																												pos:   position{line: 662, col: 38, offset: 21043},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9729},
@@ -22491,33 +22555,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 57, offset: 20994},
+																												pos:   position{line: 662, col: 57, offset: 21062},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 662, col: 63, offset: 21000},
+																													pos: position{line: 662, col: 63, offset: 21068},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21123},
+																														pos: position{line: 666, col: 17, offset: 21191},
 																														run: (*parser).callonRelativeLink96,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21123},
+																															pos: position{line: 666, col: 17, offset: 21191},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21123},
+																																	pos:        position{line: 666, col: 17, offset: 21191},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21127},
+																																	pos:   position{line: 666, col: 21, offset: 21195},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 666, col: 28, offset: 21202},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21134},
+																																				pos: position{line: 666, col: 28, offset: 21202},
 																																				run: (*parser).callonRelativeLink101,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21134},
+																																					pos:        position{line: 666, col: 28, offset: 21202},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22525,12 +22589,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21188},
+																																				pos: position{line: 668, col: 9, offset: 21256},
 																																				run: (*parser).callonRelativeLink103,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21188},
+																																					pos: position{line: 668, col: 9, offset: 21256},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21188},
+																																						pos:        position{line: 668, col: 9, offset: 21256},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -22547,7 +22611,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 662, col: 79, offset: 21016},
+																												pos:        position{line: 662, col: 79, offset: 21084},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22562,27 +22626,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1198, col: 23, offset: 36977},
+																			pos: position{line: 1198, col: 23, offset: 37045},
 																			run: (*parser).callonRelativeLink107,
 																			expr: &seqExpr{
-																				pos: position{line: 1198, col: 23, offset: 36977},
+																				pos: position{line: 1198, col: 23, offset: 37045},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36945},
+																						pos:        position{line: 1196, col: 32, offset: 37013},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1198, col: 51, offset: 37005},
+																						pos:   position{line: 1198, col: 51, offset: 37073},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1198, col: 56, offset: 37010},
+																							pos: position{line: 1198, col: 56, offset: 37078},
 																							run: (*parser).callonRelativeLink111,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1198, col: 56, offset: 37010},
+																								pos: position{line: 1198, col: 56, offset: 37078},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1198, col: 56, offset: 37010},
+																									pos:        position{line: 1198, col: 56, offset: 37078},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -22592,7 +22656,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36945},
+																						pos:        position{line: 1196, col: 32, offset: 37013},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -22601,10 +22665,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2831, col: 11, offset: 89754},
+																			pos: position{line: 2841, col: 11, offset: 90099},
 																			run: (*parser).callonRelativeLink115,
 																			expr: &litMatcher{
-																				pos:        position{line: 2831, col: 11, offset: 89754},
+																				pos:        position{line: 2841, col: 11, offset: 90099},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22621,10 +22685,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1419, col: 32, offset: 45686},
+									pos:   position{line: 1419, col: 32, offset: 45822},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1419, col: 44, offset: 45698},
+										pos:  position{line: 1419, col: 44, offset: 45834},
 										name: "InlineAttributes",
 									},
 								},
@@ -22632,63 +22696,63 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1424, col: 5, offset: 45830},
+						pos: position{line: 1424, col: 5, offset: 45966},
 						run: (*parser).callonRelativeLink119,
 						expr: &seqExpr{
-							pos: position{line: 1424, col: 5, offset: 45830},
+							pos: position{line: 1424, col: 5, offset: 45966},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1424, col: 5, offset: 45830},
+									pos:        position{line: 1424, col: 5, offset: 45966},
 									val:        "link:",
 									ignoreCase: false,
 									want:       "\"link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1424, col: 13, offset: 45838},
+									pos:   position{line: 1424, col: 13, offset: 45974},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2810, col: 13, offset: 88998},
+										pos: position{line: 2820, col: 13, offset: 89343},
 										run: (*parser).callonRelativeLink123,
 										expr: &seqExpr{
-											pos: position{line: 2810, col: 13, offset: 88998},
+											pos: position{line: 2820, col: 13, offset: 89343},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2810, col: 13, offset: 88998},
+													pos:   position{line: 2820, col: 13, offset: 89343},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2810, col: 20, offset: 89005},
+														pos: position{line: 2820, col: 20, offset: 89350},
 														expr: &actionExpr{
-															pos: position{line: 2818, col: 11, offset: 89244},
+															pos: position{line: 2828, col: 11, offset: 89589},
 															run: (*parser).callonRelativeLink127,
 															expr: &choiceExpr{
-																pos: position{line: 2818, col: 12, offset: 89245},
+																pos: position{line: 2828, col: 12, offset: 89590},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2818, col: 12, offset: 89245},
+																		pos:        position{line: 2828, col: 12, offset: 89590},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2818, col: 24, offset: 89257},
+																		pos:        position{line: 2828, col: 24, offset: 89602},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2818, col: 37, offset: 89270},
+																		pos:        position{line: 2828, col: 37, offset: 89615},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2818, col: 48, offset: 89281},
+																		pos:        position{line: 2828, col: 48, offset: 89626},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2818, col: 59, offset: 89292},
+																		pos:        position{line: 2828, col: 59, offset: 89637},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22699,38 +22763,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2810, col: 30, offset: 89015},
+													pos:   position{line: 2820, col: 30, offset: 89360},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2823, col: 5, offset: 89356},
+														pos: position{line: 2833, col: 5, offset: 89701},
 														run: (*parser).callonRelativeLink135,
 														expr: &labeledExpr{
-															pos:   position{line: 2823, col: 5, offset: 89356},
+															pos:   position{line: 2833, col: 5, offset: 89701},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2823, col: 14, offset: 89365},
+																pos: position{line: 2833, col: 14, offset: 89710},
 																expr: &choiceExpr{
-																	pos: position{line: 2824, col: 9, offset: 89375},
+																	pos: position{line: 2834, col: 9, offset: 89720},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2824, col: 9, offset: 89375},
+																			pos: position{line: 2834, col: 9, offset: 89720},
 																			run: (*parser).callonRelativeLink139,
 																			expr: &seqExpr{
-																				pos: position{line: 2824, col: 9, offset: 89375},
+																				pos: position{line: 2834, col: 9, offset: 89720},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2824, col: 9, offset: 89375},
+																						pos: position{line: 2834, col: 9, offset: 89720},
 																						expr: &litMatcher{
-																							pos:        position{line: 2824, col: 10, offset: 89376},
+																							pos:        position{line: 2834, col: 10, offset: 89721},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2825, col: 9, offset: 89404},
+																						pos: position{line: 2835, col: 9, offset: 89749},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2825, col: 10, offset: 89405},
+																							pos:        position{line: 2835, col: 10, offset: 89750},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22741,27 +22805,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2828, col: 11, offset: 89617},
+																			pos: position{line: 2838, col: 11, offset: 89962},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2828, col: 11, offset: 89617},
+																					pos:        position{line: 2838, col: 11, offset: 89962},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2828, col: 19, offset: 89625},
+																					pos: position{line: 2838, col: 19, offset: 89970},
 																					expr: &seqExpr{
-																						pos: position{line: 2828, col: 21, offset: 89627},
+																						pos: position{line: 2838, col: 21, offset: 89972},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2828, col: 21, offset: 89627},
+																								pos: position{line: 2838, col: 21, offset: 89972},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2862, col: 10, offset: 90584},
 																									run: (*parser).callonRelativeLink150,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2862, col: 10, offset: 90584},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22770,11 +22834,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2828, col: 28, offset: 89634},
+																								pos: position{line: 2838, col: 28, offset: 89979},
 																								expr: &notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2881, col: 8, offset: 90932},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2881, col: 9, offset: 90933,
 																									},
 																								},
 																							},
@@ -22784,35 +22848,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 636, col: 5, offset: 20109},
+																			pos: position{line: 636, col: 5, offset: 20177},
 																			run: (*parser).callonRelativeLink155,
 																			expr: &seqExpr{
-																				pos: position{line: 636, col: 5, offset: 20109},
+																				pos: position{line: 636, col: 5, offset: 20177},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 636, col: 5, offset: 20109},
+																						pos: position{line: 636, col: 5, offset: 20177},
 																						run: (*parser).callonRelativeLink157,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 639, col: 5, offset: 20181},
+																						pos:   position{line: 639, col: 5, offset: 20249},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 639, col: 14, offset: 20190},
+																							pos: position{line: 639, col: 14, offset: 20258},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 645, col: 5, offset: 20319},
+																									pos: position{line: 645, col: 5, offset: 20387},
 																									run: (*parser).callonRelativeLink160,
 																									expr: &seqExpr{
-																										pos: position{line: 645, col: 5, offset: 20319},
+																										pos: position{line: 645, col: 5, offset: 20387},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 645, col: 5, offset: 20319},
+																												pos:        position{line: 645, col: 5, offset: 20387},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 645, col: 13, offset: 20327},
+																												pos:   position{line: 645, col: 13, offset: 20395},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9729},
@@ -22844,7 +22908,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 645, col: 32, offset: 20346},
+																												pos:        position{line: 645, col: 32, offset: 20414},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22853,19 +22917,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 652, col: 5, offset: 20587},
+																									pos: position{line: 652, col: 5, offset: 20655},
 																									run: (*parser).callonRelativeLink170,
 																									expr: &seqExpr{
-																										pos: position{line: 652, col: 5, offset: 20587},
+																										pos: position{line: 652, col: 5, offset: 20655},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 652, col: 5, offset: 20587},
+																												pos:        position{line: 652, col: 5, offset: 20655},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 652, col: 9, offset: 20591},
+																												pos:   position{line: 652, col: 9, offset: 20659},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9729},
@@ -22897,7 +22961,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 652, col: 28, offset: 20610},
+																												pos:        position{line: 652, col: 28, offset: 20678},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22906,19 +22970,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 658, col: 25, offset: 20791},
+																									pos: position{line: 658, col: 25, offset: 20859},
 																									run: (*parser).callonRelativeLink180,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 25, offset: 20791},
+																										pos: position{line: 658, col: 25, offset: 20859},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 658, col: 25, offset: 20791},
+																												pos:        position{line: 658, col: 25, offset: 20859},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 37, offset: 20803},
+																												pos:   position{line: 658, col: 37, offset: 20871},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9729},
@@ -22950,33 +23014,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 56, offset: 20822},
+																												pos:   position{line: 658, col: 56, offset: 20890},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 658, col: 62, offset: 20828},
+																													pos: position{line: 658, col: 62, offset: 20896},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21123},
+																														pos: position{line: 666, col: 17, offset: 21191},
 																														run: (*parser).callonRelativeLink191,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21123},
+																															pos: position{line: 666, col: 17, offset: 21191},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21123},
+																																	pos:        position{line: 666, col: 17, offset: 21191},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21127},
+																																	pos:   position{line: 666, col: 21, offset: 21195},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 666, col: 28, offset: 21202},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21134},
+																																				pos: position{line: 666, col: 28, offset: 21202},
 																																				run: (*parser).callonRelativeLink196,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21134},
+																																					pos:        position{line: 666, col: 28, offset: 21202},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22984,12 +23048,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21188},
+																																				pos: position{line: 668, col: 9, offset: 21256},
 																																				run: (*parser).callonRelativeLink198,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21188},
+																																					pos: position{line: 668, col: 9, offset: 21256},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21188},
+																																						pos:        position{line: 668, col: 9, offset: 21256},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23006,7 +23070,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 78, offset: 20844},
+																												pos:        position{line: 658, col: 78, offset: 20912},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23015,19 +23079,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 662, col: 25, offset: 20962},
+																									pos: position{line: 662, col: 25, offset: 21030},
 																									run: (*parser).callonRelativeLink202,
 																									expr: &seqExpr{
-																										pos: position{line: 662, col: 25, offset: 20962},
+																										pos: position{line: 662, col: 25, offset: 21030},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 662, col: 25, offset: 20962},
+																												pos:        position{line: 662, col: 25, offset: 21030},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 38, offset: 20975},
+																												pos:   position{line: 662, col: 38, offset: 21043},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9729},
@@ -23059,33 +23123,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 57, offset: 20994},
+																												pos:   position{line: 662, col: 57, offset: 21062},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 662, col: 63, offset: 21000},
+																													pos: position{line: 662, col: 63, offset: 21068},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21123},
+																														pos: position{line: 666, col: 17, offset: 21191},
 																														run: (*parser).callonRelativeLink213,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21123},
+																															pos: position{line: 666, col: 17, offset: 21191},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21123},
+																																	pos:        position{line: 666, col: 17, offset: 21191},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21127},
+																																	pos:   position{line: 666, col: 21, offset: 21195},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 666, col: 28, offset: 21202},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21134},
+																																				pos: position{line: 666, col: 28, offset: 21202},
 																																				run: (*parser).callonRelativeLink218,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21134},
+																																					pos:        position{line: 666, col: 28, offset: 21202},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23093,12 +23157,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21188},
+																																				pos: position{line: 668, col: 9, offset: 21256},
 																																				run: (*parser).callonRelativeLink220,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21188},
+																																					pos: position{line: 668, col: 9, offset: 21256},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21188},
+																																						pos:        position{line: 668, col: 9, offset: 21256},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23115,7 +23179,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 662, col: 79, offset: 21016},
+																												pos:        position{line: 662, col: 79, offset: 21084},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23130,27 +23194,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1198, col: 23, offset: 36977},
+																			pos: position{line: 1198, col: 23, offset: 37045},
 																			run: (*parser).callonRelativeLink224,
 																			expr: &seqExpr{
-																				pos: position{line: 1198, col: 23, offset: 36977},
+																				pos: position{line: 1198, col: 23, offset: 37045},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36945},
+																						pos:        position{line: 1196, col: 32, offset: 37013},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1198, col: 51, offset: 37005},
+																						pos:   position{line: 1198, col: 51, offset: 37073},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1198, col: 56, offset: 37010},
+																							pos: position{line: 1198, col: 56, offset: 37078},
 																							run: (*parser).callonRelativeLink228,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1198, col: 56, offset: 37010},
+																								pos: position{line: 1198, col: 56, offset: 37078},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1198, col: 56, offset: 37010},
+																									pos:        position{line: 1198, col: 56, offset: 37078},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -23160,7 +23224,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36945},
+																						pos:        position{line: 1196, col: 32, offset: 37013},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -23169,10 +23233,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2831, col: 11, offset: 89754},
+																			pos: position{line: 2841, col: 11, offset: 90099},
 																			run: (*parser).callonRelativeLink232,
 																			expr: &litMatcher{
-																				pos:        position{line: 2831, col: 11, offset: 89754},
+																				pos:        position{line: 2841, col: 11, offset: 90099},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23189,10 +23253,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1424, col: 28, offset: 45853},
+									pos:   position{line: 1424, col: 28, offset: 45989},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1424, col: 40, offset: 45865},
+										pos:  position{line: 1424, col: 40, offset: 46001},
 										name: "InlineAttributes",
 									},
 								},
@@ -23204,75 +23268,75 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalLink",
-			pos:  position{line: 1428, col: 1, offset: 45981},
+			pos:  position{line: 1428, col: 1, offset: 46117},
 			expr: &choiceExpr{
-				pos: position{line: 1431, col: 5, offset: 46143},
+				pos: position{line: 1431, col: 5, offset: 46279},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1431, col: 5, offset: 46143},
+						pos: position{line: 1431, col: 5, offset: 46279},
 						run: (*parser).callonExternalLink2,
 						expr: &seqExpr{
-							pos: position{line: 1431, col: 5, offset: 46143},
+							pos: position{line: 1431, col: 5, offset: 46279},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1431, col: 5, offset: 46143},
+									pos:        position{line: 1431, col: 5, offset: 46279},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1431, col: 9, offset: 46147},
+									pos:   position{line: 1431, col: 9, offset: 46283},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2814, col: 23, offset: 89125},
+										pos: position{line: 2824, col: 23, offset: 89470},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2814, col: 23, offset: 89125},
+											pos: position{line: 2824, col: 23, offset: 89470},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2814, col: 23, offset: 89125},
+													pos: position{line: 2824, col: 23, offset: 89470},
 													expr: &litMatcher{
-														pos:        position{line: 2814, col: 24, offset: 89126},
+														pos:        position{line: 2824, col: 24, offset: 89471},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2814, col: 28, offset: 89130},
+													pos:   position{line: 2824, col: 28, offset: 89475},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2818, col: 11, offset: 89244},
+														pos: position{line: 2828, col: 11, offset: 89589},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2818, col: 12, offset: 89245},
+															pos: position{line: 2828, col: 12, offset: 89590},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2818, col: 12, offset: 89245},
+																	pos:        position{line: 2828, col: 12, offset: 89590},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2818, col: 24, offset: 89257},
+																	pos:        position{line: 2828, col: 24, offset: 89602},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2818, col: 37, offset: 89270},
+																	pos:        position{line: 2828, col: 37, offset: 89615},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2818, col: 48, offset: 89281},
+																	pos:        position{line: 2828, col: 48, offset: 89626},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2818, col: 59, offset: 89292},
+																	pos:        position{line: 2828, col: 59, offset: 89637},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23282,38 +23346,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2814, col: 44, offset: 89146},
+													pos:   position{line: 2824, col: 44, offset: 89491},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2823, col: 5, offset: 89356},
+														pos: position{line: 2833, col: 5, offset: 89701},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2823, col: 5, offset: 89356},
+															pos:   position{line: 2833, col: 5, offset: 89701},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2823, col: 14, offset: 89365},
+																pos: position{line: 2833, col: 14, offset: 89710},
 																expr: &choiceExpr{
-																	pos: position{line: 2824, col: 9, offset: 89375},
+																	pos: position{line: 2834, col: 9, offset: 89720},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2824, col: 9, offset: 89375},
+																			pos: position{line: 2834, col: 9, offset: 89720},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2824, col: 9, offset: 89375},
+																				pos: position{line: 2834, col: 9, offset: 89720},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2824, col: 9, offset: 89375},
+																						pos: position{line: 2834, col: 9, offset: 89720},
 																						expr: &litMatcher{
-																							pos:        position{line: 2824, col: 10, offset: 89376},
+																							pos:        position{line: 2834, col: 10, offset: 89721},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2825, col: 9, offset: 89404},
+																						pos: position{line: 2835, col: 9, offset: 89749},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2825, col: 10, offset: 89405},
+																							pos:        position{line: 2835, col: 10, offset: 89750},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23324,27 +23388,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2828, col: 11, offset: 89617},
+																			pos: position{line: 2838, col: 11, offset: 89962},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2828, col: 11, offset: 89617},
+																					pos:        position{line: 2838, col: 11, offset: 89962},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2828, col: 19, offset: 89625},
+																					pos: position{line: 2838, col: 19, offset: 89970},
 																					expr: &seqExpr{
-																						pos: position{line: 2828, col: 21, offset: 89627},
+																						pos: position{line: 2838, col: 21, offset: 89972},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2828, col: 21, offset: 89627},
+																								pos: position{line: 2838, col: 21, offset: 89972},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2862, col: 10, offset: 90584},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2862, col: 10, offset: 90584},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23353,11 +23417,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2828, col: 28, offset: 89634},
+																								pos: position{line: 2838, col: 28, offset: 89979},
 																								expr: &notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2881, col: 8, offset: 90932},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2881, col: 9, offset: 90933,
 																									},
 																								},
 																							},
@@ -23367,35 +23431,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 636, col: 5, offset: 20109},
+																			pos: position{line: 636, col: 5, offset: 20177},
 																			run: (*parser).callonExternalLink39,
 																			expr: &seqExpr{
-																				pos: position{line: 636, col: 5, offset: 20109},
+																				pos: position{line: 636, col: 5, offset: 20177},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 636, col: 5, offset: 20109},
+																						pos: position{line: 636, col: 5, offset: 20177},
 																						run: (*parser).callonExternalLink41,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 639, col: 5, offset: 20181},
+																						pos:   position{line: 639, col: 5, offset: 20249},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 639, col: 14, offset: 20190},
+																							pos: position{line: 639, col: 14, offset: 20258},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 645, col: 5, offset: 20319},
+																									pos: position{line: 645, col: 5, offset: 20387},
 																									run: (*parser).callonExternalLink44,
 																									expr: &seqExpr{
-																										pos: position{line: 645, col: 5, offset: 20319},
+																										pos: position{line: 645, col: 5, offset: 20387},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 645, col: 5, offset: 20319},
+																												pos:        position{line: 645, col: 5, offset: 20387},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 645, col: 13, offset: 20327},
+																												pos:   position{line: 645, col: 13, offset: 20395},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9729},
@@ -23427,7 +23491,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 645, col: 32, offset: 20346},
+																												pos:        position{line: 645, col: 32, offset: 20414},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23436,19 +23500,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 652, col: 5, offset: 20587},
+																									pos: position{line: 652, col: 5, offset: 20655},
 																									run: (*parser).callonExternalLink54,
 																									expr: &seqExpr{
-																										pos: position{line: 652, col: 5, offset: 20587},
+																										pos: position{line: 652, col: 5, offset: 20655},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 652, col: 5, offset: 20587},
+																												pos:        position{line: 652, col: 5, offset: 20655},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 652, col: 9, offset: 20591},
+																												pos:   position{line: 652, col: 9, offset: 20659},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9729},
@@ -23480,7 +23544,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 652, col: 28, offset: 20610},
+																												pos:        position{line: 652, col: 28, offset: 20678},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23489,19 +23553,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 658, col: 25, offset: 20791},
+																									pos: position{line: 658, col: 25, offset: 20859},
 																									run: (*parser).callonExternalLink64,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 25, offset: 20791},
+																										pos: position{line: 658, col: 25, offset: 20859},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 658, col: 25, offset: 20791},
+																												pos:        position{line: 658, col: 25, offset: 20859},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 37, offset: 20803},
+																												pos:   position{line: 658, col: 37, offset: 20871},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9729},
@@ -23533,33 +23597,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 56, offset: 20822},
+																												pos:   position{line: 658, col: 56, offset: 20890},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 658, col: 62, offset: 20828},
+																													pos: position{line: 658, col: 62, offset: 20896},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21123},
+																														pos: position{line: 666, col: 17, offset: 21191},
 																														run: (*parser).callonExternalLink75,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21123},
+																															pos: position{line: 666, col: 17, offset: 21191},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21123},
+																																	pos:        position{line: 666, col: 17, offset: 21191},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21127},
+																																	pos:   position{line: 666, col: 21, offset: 21195},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 666, col: 28, offset: 21202},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21134},
+																																				pos: position{line: 666, col: 28, offset: 21202},
 																																				run: (*parser).callonExternalLink80,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21134},
+																																					pos:        position{line: 666, col: 28, offset: 21202},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23567,12 +23631,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21188},
+																																				pos: position{line: 668, col: 9, offset: 21256},
 																																				run: (*parser).callonExternalLink82,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21188},
+																																					pos: position{line: 668, col: 9, offset: 21256},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21188},
+																																						pos:        position{line: 668, col: 9, offset: 21256},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23589,7 +23653,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 78, offset: 20844},
+																												pos:        position{line: 658, col: 78, offset: 20912},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23598,19 +23662,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 662, col: 25, offset: 20962},
+																									pos: position{line: 662, col: 25, offset: 21030},
 																									run: (*parser).callonExternalLink86,
 																									expr: &seqExpr{
-																										pos: position{line: 662, col: 25, offset: 20962},
+																										pos: position{line: 662, col: 25, offset: 21030},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 662, col: 25, offset: 20962},
+																												pos:        position{line: 662, col: 25, offset: 21030},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 38, offset: 20975},
+																												pos:   position{line: 662, col: 38, offset: 21043},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9729},
@@ -23642,33 +23706,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 57, offset: 20994},
+																												pos:   position{line: 662, col: 57, offset: 21062},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 662, col: 63, offset: 21000},
+																													pos: position{line: 662, col: 63, offset: 21068},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21123},
+																														pos: position{line: 666, col: 17, offset: 21191},
 																														run: (*parser).callonExternalLink97,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21123},
+																															pos: position{line: 666, col: 17, offset: 21191},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21123},
+																																	pos:        position{line: 666, col: 17, offset: 21191},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21127},
+																																	pos:   position{line: 666, col: 21, offset: 21195},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 666, col: 28, offset: 21202},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21134},
+																																				pos: position{line: 666, col: 28, offset: 21202},
 																																				run: (*parser).callonExternalLink102,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21134},
+																																					pos:        position{line: 666, col: 28, offset: 21202},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23676,12 +23740,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21188},
+																																				pos: position{line: 668, col: 9, offset: 21256},
 																																				run: (*parser).callonExternalLink104,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21188},
+																																					pos: position{line: 668, col: 9, offset: 21256},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21188},
+																																						pos:        position{line: 668, col: 9, offset: 21256},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23698,7 +23762,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 662, col: 79, offset: 21016},
+																												pos:        position{line: 662, col: 79, offset: 21084},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23713,27 +23777,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1198, col: 23, offset: 36977},
+																			pos: position{line: 1198, col: 23, offset: 37045},
 																			run: (*parser).callonExternalLink108,
 																			expr: &seqExpr{
-																				pos: position{line: 1198, col: 23, offset: 36977},
+																				pos: position{line: 1198, col: 23, offset: 37045},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36945},
+																						pos:        position{line: 1196, col: 32, offset: 37013},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1198, col: 51, offset: 37005},
+																						pos:   position{line: 1198, col: 51, offset: 37073},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1198, col: 56, offset: 37010},
+																							pos: position{line: 1198, col: 56, offset: 37078},
 																							run: (*parser).callonExternalLink112,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1198, col: 56, offset: 37010},
+																								pos: position{line: 1198, col: 56, offset: 37078},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1198, col: 56, offset: 37010},
+																									pos:        position{line: 1198, col: 56, offset: 37078},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -23743,7 +23807,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36945},
+																						pos:        position{line: 1196, col: 32, offset: 37013},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -23752,10 +23816,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2831, col: 11, offset: 89754},
+																			pos: position{line: 2841, col: 11, offset: 90099},
 																			run: (*parser).callonExternalLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2831, col: 11, offset: 89754},
+																				pos:        position{line: 2841, col: 11, offset: 90099},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23772,12 +23836,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1431, col: 34, offset: 46172},
+									pos:   position{line: 1431, col: 34, offset: 46308},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1431, col: 45, offset: 46183},
+										pos: position{line: 1431, col: 45, offset: 46319},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1431, col: 46, offset: 46184},
+											pos:  position{line: 1431, col: 46, offset: 46320},
 											name: "InlineAttributes",
 										},
 									},
@@ -23786,64 +23850,64 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1436, col: 5, offset: 46317},
+						pos: position{line: 1436, col: 5, offset: 46453},
 						run: (*parser).callonExternalLink121,
 						expr: &seqExpr{
-							pos: position{line: 1436, col: 5, offset: 46317},
+							pos: position{line: 1436, col: 5, offset: 46453},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1436, col: 5, offset: 46317},
+									pos:   position{line: 1436, col: 5, offset: 46453},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2814, col: 23, offset: 89125},
+										pos: position{line: 2824, col: 23, offset: 89470},
 										run: (*parser).callonExternalLink124,
 										expr: &seqExpr{
-											pos: position{line: 2814, col: 23, offset: 89125},
+											pos: position{line: 2824, col: 23, offset: 89470},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2814, col: 23, offset: 89125},
+													pos: position{line: 2824, col: 23, offset: 89470},
 													expr: &litMatcher{
-														pos:        position{line: 2814, col: 24, offset: 89126},
+														pos:        position{line: 2824, col: 24, offset: 89471},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2814, col: 28, offset: 89130},
+													pos:   position{line: 2824, col: 28, offset: 89475},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2818, col: 11, offset: 89244},
+														pos: position{line: 2828, col: 11, offset: 89589},
 														run: (*parser).callonExternalLink129,
 														expr: &choiceExpr{
-															pos: position{line: 2818, col: 12, offset: 89245},
+															pos: position{line: 2828, col: 12, offset: 89590},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2818, col: 12, offset: 89245},
+																	pos:        position{line: 2828, col: 12, offset: 89590},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2818, col: 24, offset: 89257},
+																	pos:        position{line: 2828, col: 24, offset: 89602},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2818, col: 37, offset: 89270},
+																	pos:        position{line: 2828, col: 37, offset: 89615},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2818, col: 48, offset: 89281},
+																	pos:        position{line: 2828, col: 48, offset: 89626},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2818, col: 59, offset: 89292},
+																	pos:        position{line: 2828, col: 59, offset: 89637},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23853,38 +23917,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2814, col: 44, offset: 89146},
+													pos:   position{line: 2824, col: 44, offset: 89491},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2823, col: 5, offset: 89356},
+														pos: position{line: 2833, col: 5, offset: 89701},
 														run: (*parser).callonExternalLink137,
 														expr: &labeledExpr{
-															pos:   position{line: 2823, col: 5, offset: 89356},
+															pos:   position{line: 2833, col: 5, offset: 89701},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2823, col: 14, offset: 89365},
+																pos: position{line: 2833, col: 14, offset: 89710},
 																expr: &choiceExpr{
-																	pos: position{line: 2824, col: 9, offset: 89375},
+																	pos: position{line: 2834, col: 9, offset: 89720},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2824, col: 9, offset: 89375},
+																			pos: position{line: 2834, col: 9, offset: 89720},
 																			run: (*parser).callonExternalLink141,
 																			expr: &seqExpr{
-																				pos: position{line: 2824, col: 9, offset: 89375},
+																				pos: position{line: 2834, col: 9, offset: 89720},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2824, col: 9, offset: 89375},
+																						pos: position{line: 2834, col: 9, offset: 89720},
 																						expr: &litMatcher{
-																							pos:        position{line: 2824, col: 10, offset: 89376},
+																							pos:        position{line: 2834, col: 10, offset: 89721},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2825, col: 9, offset: 89404},
+																						pos: position{line: 2835, col: 9, offset: 89749},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2825, col: 10, offset: 89405},
+																							pos:        position{line: 2835, col: 10, offset: 89750},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23895,27 +23959,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2828, col: 11, offset: 89617},
+																			pos: position{line: 2838, col: 11, offset: 89962},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2828, col: 11, offset: 89617},
+																					pos:        position{line: 2838, col: 11, offset: 89962},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2828, col: 19, offset: 89625},
+																					pos: position{line: 2838, col: 19, offset: 89970},
 																					expr: &seqExpr{
-																						pos: position{line: 2828, col: 21, offset: 89627},
+																						pos: position{line: 2838, col: 21, offset: 89972},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2828, col: 21, offset: 89627},
+																								pos: position{line: 2838, col: 21, offset: 89972},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2862, col: 10, offset: 90584},
 																									run: (*parser).callonExternalLink152,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2862, col: 10, offset: 90584},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23924,11 +23988,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2828, col: 28, offset: 89634},
+																								pos: position{line: 2838, col: 28, offset: 89979},
 																								expr: &notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2881, col: 8, offset: 90932},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2881, col: 9, offset: 90933,
 																									},
 																								},
 																							},
@@ -23938,35 +24002,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 636, col: 5, offset: 20109},
+																			pos: position{line: 636, col: 5, offset: 20177},
 																			run: (*parser).callonExternalLink157,
 																			expr: &seqExpr{
-																				pos: position{line: 636, col: 5, offset: 20109},
+																				pos: position{line: 636, col: 5, offset: 20177},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 636, col: 5, offset: 20109},
+																						pos: position{line: 636, col: 5, offset: 20177},
 																						run: (*parser).callonExternalLink159,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 639, col: 5, offset: 20181},
+																						pos:   position{line: 639, col: 5, offset: 20249},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 639, col: 14, offset: 20190},
+																							pos: position{line: 639, col: 14, offset: 20258},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 645, col: 5, offset: 20319},
+																									pos: position{line: 645, col: 5, offset: 20387},
 																									run: (*parser).callonExternalLink162,
 																									expr: &seqExpr{
-																										pos: position{line: 645, col: 5, offset: 20319},
+																										pos: position{line: 645, col: 5, offset: 20387},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 645, col: 5, offset: 20319},
+																												pos:        position{line: 645, col: 5, offset: 20387},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 645, col: 13, offset: 20327},
+																												pos:   position{line: 645, col: 13, offset: 20395},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9729},
@@ -23998,7 +24062,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 645, col: 32, offset: 20346},
+																												pos:        position{line: 645, col: 32, offset: 20414},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24007,19 +24071,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 652, col: 5, offset: 20587},
+																									pos: position{line: 652, col: 5, offset: 20655},
 																									run: (*parser).callonExternalLink172,
 																									expr: &seqExpr{
-																										pos: position{line: 652, col: 5, offset: 20587},
+																										pos: position{line: 652, col: 5, offset: 20655},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 652, col: 5, offset: 20587},
+																												pos:        position{line: 652, col: 5, offset: 20655},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 652, col: 9, offset: 20591},
+																												pos:   position{line: 652, col: 9, offset: 20659},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9729},
@@ -24051,7 +24115,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 652, col: 28, offset: 20610},
+																												pos:        position{line: 652, col: 28, offset: 20678},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24060,19 +24124,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 658, col: 25, offset: 20791},
+																									pos: position{line: 658, col: 25, offset: 20859},
 																									run: (*parser).callonExternalLink182,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 25, offset: 20791},
+																										pos: position{line: 658, col: 25, offset: 20859},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 658, col: 25, offset: 20791},
+																												pos:        position{line: 658, col: 25, offset: 20859},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 37, offset: 20803},
+																												pos:   position{line: 658, col: 37, offset: 20871},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9729},
@@ -24104,33 +24168,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 56, offset: 20822},
+																												pos:   position{line: 658, col: 56, offset: 20890},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 658, col: 62, offset: 20828},
+																													pos: position{line: 658, col: 62, offset: 20896},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21123},
+																														pos: position{line: 666, col: 17, offset: 21191},
 																														run: (*parser).callonExternalLink193,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21123},
+																															pos: position{line: 666, col: 17, offset: 21191},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21123},
+																																	pos:        position{line: 666, col: 17, offset: 21191},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21127},
+																																	pos:   position{line: 666, col: 21, offset: 21195},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 666, col: 28, offset: 21202},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21134},
+																																				pos: position{line: 666, col: 28, offset: 21202},
 																																				run: (*parser).callonExternalLink198,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21134},
+																																					pos:        position{line: 666, col: 28, offset: 21202},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24138,12 +24202,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21188},
+																																				pos: position{line: 668, col: 9, offset: 21256},
 																																				run: (*parser).callonExternalLink200,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21188},
+																																					pos: position{line: 668, col: 9, offset: 21256},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21188},
+																																						pos:        position{line: 668, col: 9, offset: 21256},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24160,7 +24224,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 78, offset: 20844},
+																												pos:        position{line: 658, col: 78, offset: 20912},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24169,19 +24233,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 662, col: 25, offset: 20962},
+																									pos: position{line: 662, col: 25, offset: 21030},
 																									run: (*parser).callonExternalLink204,
 																									expr: &seqExpr{
-																										pos: position{line: 662, col: 25, offset: 20962},
+																										pos: position{line: 662, col: 25, offset: 21030},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 662, col: 25, offset: 20962},
+																												pos:        position{line: 662, col: 25, offset: 21030},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 38, offset: 20975},
+																												pos:   position{line: 662, col: 38, offset: 21043},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9729},
@@ -24213,33 +24277,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 57, offset: 20994},
+																												pos:   position{line: 662, col: 57, offset: 21062},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 662, col: 63, offset: 21000},
+																													pos: position{line: 662, col: 63, offset: 21068},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21123},
+																														pos: position{line: 666, col: 17, offset: 21191},
 																														run: (*parser).callonExternalLink215,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21123},
+																															pos: position{line: 666, col: 17, offset: 21191},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21123},
+																																	pos:        position{line: 666, col: 17, offset: 21191},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21127},
+																																	pos:   position{line: 666, col: 21, offset: 21195},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 666, col: 28, offset: 21202},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21134},
+																																				pos: position{line: 666, col: 28, offset: 21202},
 																																				run: (*parser).callonExternalLink220,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21134},
+																																					pos:        position{line: 666, col: 28, offset: 21202},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24247,12 +24311,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21188},
+																																				pos: position{line: 668, col: 9, offset: 21256},
 																																				run: (*parser).callonExternalLink222,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21188},
+																																					pos: position{line: 668, col: 9, offset: 21256},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21188},
+																																						pos:        position{line: 668, col: 9, offset: 21256},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24269,7 +24333,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 662, col: 79, offset: 21016},
+																												pos:        position{line: 662, col: 79, offset: 21084},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24284,27 +24348,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1198, col: 23, offset: 36977},
+																			pos: position{line: 1198, col: 23, offset: 37045},
 																			run: (*parser).callonExternalLink226,
 																			expr: &seqExpr{
-																				pos: position{line: 1198, col: 23, offset: 36977},
+																				pos: position{line: 1198, col: 23, offset: 37045},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36945},
+																						pos:        position{line: 1196, col: 32, offset: 37013},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1198, col: 51, offset: 37005},
+																						pos:   position{line: 1198, col: 51, offset: 37073},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1198, col: 56, offset: 37010},
+																							pos: position{line: 1198, col: 56, offset: 37078},
 																							run: (*parser).callonExternalLink230,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1198, col: 56, offset: 37010},
+																								pos: position{line: 1198, col: 56, offset: 37078},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1198, col: 56, offset: 37010},
+																									pos:        position{line: 1198, col: 56, offset: 37078},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -24314,7 +24378,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36945},
+																						pos:        position{line: 1196, col: 32, offset: 37013},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -24323,10 +24387,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2831, col: 11, offset: 89754},
+																			pos: position{line: 2841, col: 11, offset: 90099},
 																			run: (*parser).callonExternalLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2831, col: 11, offset: 89754},
+																				pos:        position{line: 2841, col: 11, offset: 90099},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24343,12 +24407,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1436, col: 30, offset: 46342},
+									pos:   position{line: 1436, col: 30, offset: 46478},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1436, col: 41, offset: 46353},
+										pos: position{line: 1436, col: 41, offset: 46489},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1436, col: 42, offset: 46354},
+											pos:  position{line: 1436, col: 42, offset: 46490},
 											name: "InlineAttributes",
 										},
 									},
@@ -24361,41 +24425,41 @@ var g = &grammar{
 		},
 		{
 			name: "ListElements",
-			pos:  position{line: 1470, col: 1, offset: 47495},
+			pos:  position{line: 1470, col: 1, offset: 47631},
 			expr: &actionExpr{
-				pos: position{line: 1471, col: 5, offset: 47516},
+				pos: position{line: 1471, col: 5, offset: 47652},
 				run: (*parser).callonListElements1,
 				expr: &seqExpr{
-					pos: position{line: 1471, col: 5, offset: 47516},
+					pos: position{line: 1471, col: 5, offset: 47652},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1471, col: 5, offset: 47516},
+							pos:   position{line: 1471, col: 5, offset: 47652},
 							label: "firstElement",
 							expr: &choiceExpr{
-								pos: position{line: 1477, col: 5, offset: 47718},
+								pos: position{line: 1477, col: 5, offset: 47854},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1570, col: 5, offset: 50652},
+										pos: position{line: 1570, col: 5, offset: 50788},
 										run: (*parser).callonListElements5,
 										expr: &seqExpr{
-											pos: position{line: 1570, col: 5, offset: 50652},
+											pos: position{line: 1570, col: 5, offset: 50788},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1570, col: 5, offset: 50652},
+													pos:   position{line: 1570, col: 5, offset: 50788},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1577, col: 5, offset: 50860},
+														pos: position{line: 1577, col: 5, offset: 50996},
 														run: (*parser).callonListElements8,
 														expr: &seqExpr{
-															pos: position{line: 1577, col: 5, offset: 50860},
+															pos: position{line: 1577, col: 5, offset: 50996},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1577, col: 5, offset: 50860},
+																	pos: position{line: 1577, col: 5, offset: 50996},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2862, col: 10, offset: 90584},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2862, col: 10, offset: 90584},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24404,27 +24468,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1577, col: 12, offset: 50867},
+																	pos:   position{line: 1577, col: 12, offset: 51003},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1579, col: 9, offset: 50930},
+																		pos: position{line: 1579, col: 9, offset: 51066},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1579, col: 9, offset: 50930},
+																				pos: position{line: 1579, col: 9, offset: 51066},
 																				run: (*parser).callonListElements15,
 																				expr: &seqExpr{
-																					pos: position{line: 1579, col: 9, offset: 50930},
+																					pos: position{line: 1579, col: 9, offset: 51066},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1579, col: 9, offset: 50930},
+																							pos:   position{line: 1579, col: 9, offset: 51066},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1579, col: 16, offset: 50937},
+																								pos: position{line: 1579, col: 16, offset: 51073},
 																								run: (*parser).callonListElements18,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1579, col: 16, offset: 50937},
+																									pos: position{line: 1579, col: 16, offset: 51073},
 																									expr: &litMatcher{
-																										pos:        position{line: 1579, col: 17, offset: 50938},
+																										pos:        position{line: 1579, col: 17, offset: 51074},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -24433,22 +24497,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1583, col: 9, offset: 51038},
+																							pos: position{line: 1583, col: 9, offset: 51174},
 																							run: (*parser).callonListElements21,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1602, col: 11, offset: 51755},
+																				pos: position{line: 1602, col: 11, offset: 51891},
 																				run: (*parser).callonListElements22,
 																				expr: &seqExpr{
-																					pos: position{line: 1602, col: 11, offset: 51755},
+																					pos: position{line: 1602, col: 11, offset: 51891},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1602, col: 11, offset: 51755},
+																							pos: position{line: 1602, col: 11, offset: 51891},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1602, col: 12, offset: 51756},
+																								pos:        position{line: 1602, col: 12, offset: 51892},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -24456,7 +24520,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1602, col: 20, offset: 51764},
+																							pos:        position{line: 1602, col: 20, offset: 51900},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24465,20 +24529,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1604, col: 13, offset: 51881},
+																				pos: position{line: 1604, col: 13, offset: 52017},
 																				run: (*parser).callonListElements27,
 																				expr: &seqExpr{
-																					pos: position{line: 1604, col: 13, offset: 51881},
+																					pos: position{line: 1604, col: 13, offset: 52017},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1604, col: 14, offset: 51882},
+																							pos:        position{line: 1604, col: 14, offset: 52018},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1604, col: 21, offset: 51889},
+																							pos:        position{line: 1604, col: 21, offset: 52025},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24487,20 +24551,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1606, col: 13, offset: 52009},
+																				pos: position{line: 1606, col: 13, offset: 52145},
 																				run: (*parser).callonListElements31,
 																				expr: &seqExpr{
-																					pos: position{line: 1606, col: 13, offset: 52009},
+																					pos: position{line: 1606, col: 13, offset: 52145},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1606, col: 14, offset: 52010},
+																							pos:        position{line: 1606, col: 14, offset: 52146},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1606, col: 21, offset: 52017},
+																							pos:        position{line: 1606, col: 21, offset: 52153},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24509,15 +24573,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1608, col: 13, offset: 52137},
+																				pos: position{line: 1608, col: 13, offset: 52273},
 																				run: (*parser).callonListElements35,
 																				expr: &seqExpr{
-																					pos: position{line: 1608, col: 13, offset: 52137},
+																					pos: position{line: 1608, col: 13, offset: 52273},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1608, col: 13, offset: 52137},
+																							pos: position{line: 1608, col: 13, offset: 52273},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1608, col: 14, offset: 52138},
+																								pos:        position{line: 1608, col: 14, offset: 52274},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -24525,7 +24589,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1608, col: 26, offset: 52150},
+																							pos:        position{line: 1608, col: 26, offset: 52286},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -24534,15 +24598,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1610, col: 13, offset: 52270},
+																				pos: position{line: 1610, col: 13, offset: 52406},
 																				run: (*parser).callonListElements40,
 																				expr: &seqExpr{
-																					pos: position{line: 1610, col: 13, offset: 52270},
+																					pos: position{line: 1610, col: 13, offset: 52406},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1610, col: 13, offset: 52270},
+																							pos: position{line: 1610, col: 13, offset: 52406},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1610, col: 14, offset: 52271},
+																								pos:        position{line: 1610, col: 14, offset: 52407},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -24550,7 +24614,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1610, col: 26, offset: 52283},
+																							pos:        position{line: 1610, col: 26, offset: 52419},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -24562,12 +24626,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2856, col: 11, offset: 90300},
+																	pos: position{line: 2866, col: 11, offset: 90645},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2866, col: 11, offset: 90645},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2856, col: 11, offset: 90300},
+																			pos:        position{line: 2866, col: 11, offset: 90645},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24580,26 +24644,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1571, col: 5, offset: 50691},
+													pos:   position{line: 1571, col: 5, offset: 50827},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1518, col: 5, offset: 49158},
+														pos: position{line: 1518, col: 5, offset: 49294},
 														run: (*parser).callonListElements49,
 														expr: &seqExpr{
-															pos: position{line: 1518, col: 5, offset: 49158},
+															pos: position{line: 1518, col: 5, offset: 49294},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1518, col: 5, offset: 49158},
+																	pos:   position{line: 1518, col: 5, offset: 49294},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1518, col: 14, offset: 49167},
+																		pos: position{line: 1518, col: 14, offset: 49303},
 																		expr: &actionExpr{
-																			pos: position{line: 1518, col: 15, offset: 49168},
+																			pos: position{line: 1518, col: 15, offset: 49304},
 																			run: (*parser).callonListElements53,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1518, col: 15, offset: 49168},
+																				pos: position{line: 1518, col: 15, offset: 49304},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1518, col: 15, offset: 49168},
+																					pos:        position{line: 1518, col: 15, offset: 49304},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -24610,28 +24674,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2884, col: 8, offset: 90982},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2871, col: 12, offset: 90755},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2871, col: 13, offset: 90756},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2871, col: 13, offset: 90756},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2871, col: 20, offset: 90763},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2871, col: 29, offset: 90772},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -24640,9 +24704,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2881, col: 8, offset: 90932},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2881, col: 9, offset: 90933,
 																			},
 																		},
 																	},
@@ -24655,27 +24719,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1620, col: 5, offset: 52549},
+										pos: position{line: 1620, col: 5, offset: 52685},
 										run: (*parser).callonListElements64,
 										expr: &seqExpr{
-											pos: position{line: 1620, col: 5, offset: 52549},
+											pos: position{line: 1620, col: 5, offset: 52685},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1620, col: 5, offset: 52549},
+													pos:   position{line: 1620, col: 5, offset: 52685},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1627, col: 5, offset: 52822},
+														pos: position{line: 1627, col: 5, offset: 52958},
 														run: (*parser).callonListElements67,
 														expr: &seqExpr{
-															pos: position{line: 1627, col: 5, offset: 52822},
+															pos: position{line: 1627, col: 5, offset: 52958},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1627, col: 5, offset: 52822},
+																	pos: position{line: 1627, col: 5, offset: 52958},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2862, col: 10, offset: 90584},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2862, col: 10, offset: 90584},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24684,24 +24748,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1628, col: 5, offset: 52834},
+																	pos:   position{line: 1628, col: 5, offset: 52970},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1629, col: 9, offset: 52850},
+																		pos: position{line: 1629, col: 9, offset: 52986},
 																		run: (*parser).callonListElements73,
 																		expr: &choiceExpr{
-																			pos: position{line: 1629, col: 10, offset: 52851},
+																			pos: position{line: 1629, col: 10, offset: 52987},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1629, col: 11, offset: 52852},
+																					pos:        position{line: 1629, col: 11, offset: 52988},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1629, col: 18, offset: 52859},
+																					pos: position{line: 1629, col: 18, offset: 52995},
 																					expr: &litMatcher{
-																						pos:        position{line: 1629, col: 19, offset: 52860},
+																						pos:        position{line: 1629, col: 19, offset: 52996},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -24712,16 +24776,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1632, col: 7, offset: 52950},
+																	pos: position{line: 1632, col: 7, offset: 53086},
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2856, col: 11, offset: 90300},
+																	pos: position{line: 2866, col: 11, offset: 90645},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2866, col: 11, offset: 90645},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2856, col: 11, offset: 90300},
+																			pos:        position{line: 2866, col: 11, offset: 90645},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24734,56 +24798,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1621, col: 5, offset: 52590},
+													pos:   position{line: 1621, col: 5, offset: 52726},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1621, col: 16, offset: 52601},
+														pos: position{line: 1621, col: 16, offset: 52737},
 														expr: &actionExpr{
-															pos: position{line: 1642, col: 5, offset: 53215},
+															pos: position{line: 1642, col: 5, offset: 53351},
 															run: (*parser).callonListElements84,
 															expr: &seqExpr{
-																pos: position{line: 1642, col: 5, offset: 53215},
+																pos: position{line: 1642, col: 5, offset: 53351},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1642, col: 5, offset: 53215},
+																		pos: position{line: 1642, col: 5, offset: 53351},
 																		expr: &litMatcher{
-																			pos:        position{line: 1642, col: 6, offset: 53216},
+																			pos:        position{line: 1642, col: 6, offset: 53352},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1642, col: 10, offset: 53220},
+																		pos:   position{line: 1642, col: 10, offset: 53356},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1643, col: 7, offset: 53234},
+																			pos: position{line: 1643, col: 7, offset: 53370},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1643, col: 7, offset: 53234},
+																					pos: position{line: 1643, col: 7, offset: 53370},
 																					run: (*parser).callonListElements90,
 																					expr: &litMatcher{
-																						pos:        position{line: 1643, col: 7, offset: 53234},
+																						pos:        position{line: 1643, col: 7, offset: 53370},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1644, col: 7, offset: 53279},
+																					pos: position{line: 1644, col: 7, offset: 53415},
 																					run: (*parser).callonListElements92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1644, col: 7, offset: 53279},
+																						pos:        position{line: 1644, col: 7, offset: 53415},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1645, col: 7, offset: 53322},
+																					pos: position{line: 1645, col: 7, offset: 53458},
 																					run: (*parser).callonListElements94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1645, col: 7, offset: 53322},
+																						pos:        position{line: 1645, col: 7, offset: 53458},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -24793,12 +24857,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2866, col: 11, offset: 90645},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2856, col: 11, offset: 90300},
+																			pos: position{line: 2866, col: 11, offset: 90645},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2856, col: 11, offset: 90300},
+																				pos:        position{line: 2866, col: 11, offset: 90645},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -24812,26 +24876,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1622, col: 5, offset: 52640},
+													pos:   position{line: 1622, col: 5, offset: 52776},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1518, col: 5, offset: 49158},
+														pos: position{line: 1518, col: 5, offset: 49294},
 														run: (*parser).callonListElements100,
 														expr: &seqExpr{
-															pos: position{line: 1518, col: 5, offset: 49158},
+															pos: position{line: 1518, col: 5, offset: 49294},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1518, col: 5, offset: 49158},
+																	pos:   position{line: 1518, col: 5, offset: 49294},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1518, col: 14, offset: 49167},
+																		pos: position{line: 1518, col: 14, offset: 49303},
 																		expr: &actionExpr{
-																			pos: position{line: 1518, col: 15, offset: 49168},
+																			pos: position{line: 1518, col: 15, offset: 49304},
 																			run: (*parser).callonListElements104,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1518, col: 15, offset: 49168},
+																				pos: position{line: 1518, col: 15, offset: 49304},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1518, col: 15, offset: 49168},
+																					pos:        position{line: 1518, col: 15, offset: 49304},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -24842,28 +24906,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2884, col: 8, offset: 90982},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2871, col: 12, offset: 90755},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2871, col: 13, offset: 90756},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2871, col: 13, offset: 90756},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2871, col: 20, offset: 90763},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2871, col: 29, offset: 90772},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -24872,9 +24936,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2881, col: 8, offset: 90932},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2881, col: 9, offset: 90933,
 																			},
 																		},
 																	},
@@ -24887,36 +24951,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1710, col: 5, offset: 55162},
+										pos: position{line: 1710, col: 5, offset: 55298},
 										run: (*parser).callonListElements115,
 										expr: &seqExpr{
-											pos: position{line: 1710, col: 5, offset: 55162},
+											pos: position{line: 1710, col: 5, offset: 55298},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1710, col: 5, offset: 55162},
+													pos:   position{line: 1710, col: 5, offset: 55298},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1716, col: 5, offset: 55359},
+														pos: position{line: 1716, col: 5, offset: 55495},
 														run: (*parser).callonListElements118,
 														expr: &seqExpr{
-															pos: position{line: 1716, col: 5, offset: 55359},
+															pos: position{line: 1716, col: 5, offset: 55495},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1716, col: 5, offset: 55359},
+																	pos:        position{line: 1716, col: 5, offset: 55495},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1716, col: 9, offset: 55363},
+																	pos:   position{line: 1716, col: 9, offset: 55499},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1716, col: 14, offset: 55368},
+																		pos: position{line: 1716, col: 14, offset: 55504},
 																		run: (*parser).callonListElements122,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1716, col: 14, offset: 55368},
+																			pos: position{line: 1716, col: 14, offset: 55504},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1716, col: 14, offset: 55368},
+																				pos:        position{line: 1716, col: 14, offset: 55504},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -24926,18 +24990,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1716, col: 62, offset: 55416},
+																	pos:        position{line: 1716, col: 62, offset: 55552},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2856, col: 11, offset: 90300},
+																	pos: position{line: 2866, col: 11, offset: 90645},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2866, col: 11, offset: 90645},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2856, col: 11, offset: 90300},
+																			pos:        position{line: 2866, col: 11, offset: 90645},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24950,26 +25014,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1711, col: 5, offset: 55198},
+													pos:   position{line: 1711, col: 5, offset: 55334},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1518, col: 5, offset: 49158},
+														pos: position{line: 1518, col: 5, offset: 49294},
 														run: (*parser).callonListElements130,
 														expr: &seqExpr{
-															pos: position{line: 1518, col: 5, offset: 49158},
+															pos: position{line: 1518, col: 5, offset: 49294},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1518, col: 5, offset: 49158},
+																	pos:   position{line: 1518, col: 5, offset: 49294},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1518, col: 14, offset: 49167},
+																		pos: position{line: 1518, col: 14, offset: 49303},
 																		expr: &actionExpr{
-																			pos: position{line: 1518, col: 15, offset: 49168},
+																			pos: position{line: 1518, col: 15, offset: 49304},
 																			run: (*parser).callonListElements134,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1518, col: 15, offset: 49168},
+																				pos: position{line: 1518, col: 15, offset: 49304},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1518, col: 15, offset: 49168},
+																					pos:        position{line: 1518, col: 15, offset: 49304},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -24980,28 +25044,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2884, col: 8, offset: 90982},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2871, col: 12, offset: 90755},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2871, col: 13, offset: 90756},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2871, col: 13, offset: 90756},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2871, col: 20, offset: 90763},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2871, col: 29, offset: 90772},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25010,9 +25074,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2881, col: 8, offset: 90932},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2881, col: 9, offset: 90933,
 																			},
 																		},
 																	},
@@ -25025,40 +25089,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1654, col: 5, offset: 53515},
+										pos: position{line: 1654, col: 5, offset: 53651},
 										run: (*parser).callonListElements145,
 										expr: &seqExpr{
-											pos: position{line: 1654, col: 5, offset: 53515},
+											pos: position{line: 1654, col: 5, offset: 53651},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1654, col: 5, offset: 53515},
+													pos:   position{line: 1654, col: 5, offset: 53651},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1662, col: 5, offset: 53841},
+														pos: position{line: 1662, col: 5, offset: 53977},
 														run: (*parser).callonListElements148,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1662, col: 5, offset: 53841},
+															pos: position{line: 1662, col: 5, offset: 53977},
 															expr: &seqExpr{
-																pos: position{line: 1662, col: 6, offset: 53842},
+																pos: position{line: 1662, col: 6, offset: 53978},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1662, col: 6, offset: 53842},
+																		pos: position{line: 1662, col: 6, offset: 53978},
 																		expr: &actionExpr{
-																			pos: position{line: 1667, col: 5, offset: 53992},
+																			pos: position{line: 1667, col: 5, offset: 54128},
 																			run: (*parser).callonListElements152,
 																			expr: &seqExpr{
-																				pos: position{line: 1667, col: 5, offset: 53992},
+																				pos: position{line: 1667, col: 5, offset: 54128},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 1667, col: 5, offset: 53992},
+																						pos:   position{line: 1667, col: 5, offset: 54128},
 																						label: "separator",
 																						expr: &actionExpr{
-																							pos: position{line: 1667, col: 16, offset: 54003},
+																							pos: position{line: 1667, col: 16, offset: 54139},
 																							run: (*parser).callonListElements155,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1667, col: 16, offset: 54003},
+																								pos: position{line: 1667, col: 16, offset: 54139},
 																								expr: &litMatcher{
-																									pos:        position{line: 1667, col: 17, offset: 54004},
+																									pos:        position{line: 1667, col: 17, offset: 54140},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
@@ -25067,7 +25131,7 @@ var g = &grammar{
 																						},
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1670, col: 5, offset: 54061},
+																						pos: position{line: 1670, col: 5, offset: 54197},
 																						run: (*parser).callonListElements158,
 																					},
 																				},
@@ -25075,30 +25139,30 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1662, col: 35, offset: 53871},
+																		pos: position{line: 1662, col: 35, offset: 54007},
 																		expr: &choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2884, col: 8, offset: 90982},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2871, col: 12, offset: 90755},
 																					run: (*parser).callonListElements161,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2871, col: 13, offset: 90756},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2871, col: 13, offset: 90756},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2871, col: 20, offset: 90763},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2871, col: 29, offset: 90772},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25107,16 +25171,16 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2881, col: 8, offset: 90932},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2881, col: 9, offset: 90933,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&anyMatcher{
-																		line: 1662, col: 40, offset: 53876,
+																		line: 1662, col: 40, offset: 54012,
 																	},
 																},
 															},
@@ -25124,24 +25188,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1655, col: 5, offset: 53550},
+													pos:   position{line: 1655, col: 5, offset: 53686},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1667, col: 5, offset: 53992},
+														pos: position{line: 1667, col: 5, offset: 54128},
 														run: (*parser).callonListElements170,
 														expr: &seqExpr{
-															pos: position{line: 1667, col: 5, offset: 53992},
+															pos: position{line: 1667, col: 5, offset: 54128},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1667, col: 5, offset: 53992},
+																	pos:   position{line: 1667, col: 5, offset: 54128},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1667, col: 16, offset: 54003},
+																		pos: position{line: 1667, col: 16, offset: 54139},
 																		run: (*parser).callonListElements173,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1667, col: 16, offset: 54003},
+																			pos: position{line: 1667, col: 16, offset: 54139},
 																			expr: &litMatcher{
-																				pos:        position{line: 1667, col: 17, offset: 54004},
+																				pos:        position{line: 1667, col: 17, offset: 54140},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -25150,7 +25214,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1670, col: 5, offset: 54061},
+																	pos: position{line: 1670, col: 5, offset: 54197},
 																	run: (*parser).callonListElements176,
 																},
 															},
@@ -25158,24 +25222,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1656, col: 5, offset: 53595},
+													pos:   position{line: 1656, col: 5, offset: 53731},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1678, col: 5, offset: 54310},
+														pos: position{line: 1678, col: 5, offset: 54446},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1680, col: 9, offset: 54376},
+																pos: position{line: 1680, col: 9, offset: 54512},
 																run: (*parser).callonListElements179,
 																expr: &seqExpr{
-																	pos: position{line: 1680, col: 9, offset: 54376},
+																	pos: position{line: 1680, col: 9, offset: 54512},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1680, col: 9, offset: 54376},
+																			pos: position{line: 1680, col: 9, offset: 54512},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2862, col: 10, offset: 90584},
 																				run: (*parser).callonListElements182,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2862, col: 10, offset: 90584},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25184,28 +25248,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2884, col: 8, offset: 90982},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2871, col: 12, offset: 90755},
 																					run: (*parser).callonListElements185,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2871, col: 13, offset: 90756},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2871, col: 13, offset: 90756},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2871, col: 20, offset: 90763},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2871, col: 29, offset: 90772},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25214,34 +25278,34 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2881, col: 8, offset: 90932},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2881, col: 9, offset: 90933,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1681, col: 9, offset: 54395},
+																			pos: position{line: 1681, col: 9, offset: 54531},
 																			expr: &actionExpr{
-																				pos: position{line: 677, col: 14, offset: 21489},
+																				pos: position{line: 677, col: 14, offset: 21557},
 																				run: (*parser).callonListElements193,
 																				expr: &seqExpr{
-																					pos: position{line: 677, col: 14, offset: 21489},
+																					pos: position{line: 677, col: 14, offset: 21557},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2879, col: 11, offset: 90918},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2879, col: 13, offset: 90920,
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 677, col: 21, offset: 21496},
+																							pos: position{line: 677, col: 21, offset: 21564},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2862, col: 10, offset: 90584},
 																								run: (*parser).callonListElements198,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2862, col: 10, offset: 90584},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25250,28 +25314,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2884, col: 8, offset: 90982},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2871, col: 12, offset: 90755},
 																									run: (*parser).callonListElements201,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2871, col: 13, offset: 90756},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2871, col: 13, offset: 90756},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2871, col: 20, offset: 90763},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2871, col: 29, offset: 90772},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25280,9 +25344,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2881, col: 8, offset: 90932},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2881, col: 9, offset: 90933,
 																									},
 																								},
 																							},
@@ -25295,18 +25359,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1687, col: 9, offset: 54524},
+																pos: position{line: 1687, col: 9, offset: 54660},
 																run: (*parser).callonListElements208,
 																expr: &seqExpr{
-																	pos: position{line: 1687, col: 9, offset: 54524},
+																	pos: position{line: 1687, col: 9, offset: 54660},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2856, col: 11, offset: 90300},
+																			pos: position{line: 2866, col: 11, offset: 90645},
 																			run: (*parser).callonListElements210,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2856, col: 11, offset: 90300},
+																				pos: position{line: 2866, col: 11, offset: 90645},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2856, col: 11, offset: 90300},
+																					pos:        position{line: 2866, col: 11, offset: 90645},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25315,15 +25379,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1688, col: 9, offset: 54597},
+																			pos:   position{line: 1688, col: 9, offset: 54733},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1688, col: 18, offset: 54606},
+																				pos: position{line: 1688, col: 18, offset: 54742},
 																				run: (*parser).callonListElements214,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1688, col: 18, offset: 54606},
+																					pos: position{line: 1688, col: 18, offset: 54742},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1688, col: 18, offset: 54606},
+																						pos:        position{line: 1688, col: 18, offset: 54742},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -25333,28 +25397,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2884, col: 8, offset: 90982},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2871, col: 12, offset: 90755},
 																					run: (*parser).callonListElements218,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2871, col: 13, offset: 90756},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2871, col: 13, offset: 90756},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2871, col: 20, offset: 90763},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2871, col: 29, offset: 90772},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25363,9 +25427,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2881, col: 8, offset: 90932},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2881, col: 9, offset: 90933,
 																					},
 																				},
 																			},
@@ -25383,10 +25447,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1472, col: 5, offset: 47547},
+							pos:   position{line: 1472, col: 5, offset: 47683},
 							label: "extraElements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1472, col: 20, offset: 47562},
+								pos:  position{line: 1472, col: 20, offset: 47698},
 								name: "ExtraListElements",
 							},
 						},
@@ -25396,17 +25460,17 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElements",
-			pos:  position{line: 1482, col: 1, offset: 47817},
+			pos:  position{line: 1482, col: 1, offset: 47953},
 			expr: &actionExpr{
-				pos: position{line: 1482, col: 22, offset: 47838},
+				pos: position{line: 1482, col: 22, offset: 47974},
 				run: (*parser).callonExtraListElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1482, col: 22, offset: 47838},
+					pos:   position{line: 1482, col: 22, offset: 47974},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1482, col: 31, offset: 47847},
+						pos: position{line: 1482, col: 31, offset: 47983},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1482, col: 32, offset: 47848},
+							pos:  position{line: 1482, col: 32, offset: 47984},
 							name: "ExtraListElement",
 						},
 					},
@@ -25415,52 +25479,52 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElement",
-			pos:  position{line: 1486, col: 1, offset: 47928},
+			pos:  position{line: 1486, col: 1, offset: 48064},
 			expr: &actionExpr{
-				pos: position{line: 1487, col: 5, offset: 48067},
+				pos: position{line: 1487, col: 5, offset: 48203},
 				run: (*parser).callonExtraListElement1,
 				expr: &seqExpr{
-					pos: position{line: 1487, col: 5, offset: 48067},
+					pos: position{line: 1487, col: 5, offset: 48203},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2869, col: 11, offset: 90573},
+							pos: position{line: 2879, col: 11, offset: 90918},
 							expr: &anyMatcher{
-								line: 2869, col: 13, offset: 90575,
+								line: 2879, col: 13, offset: 90920,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1488, col: 5, offset: 48079},
+							pos:   position{line: 1488, col: 5, offset: 48215},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1489, col: 9, offset: 48097},
+								pos: position{line: 1489, col: 9, offset: 48233},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1489, col: 13, offset: 48101},
+										pos: position{line: 1489, col: 13, offset: 48237},
 										run: (*parser).callonExtraListElement7,
 										expr: &seqExpr{
-											pos: position{line: 1489, col: 13, offset: 48101},
+											pos: position{line: 1489, col: 13, offset: 48237},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 1489, col: 13, offset: 48101},
+													pos: position{line: 1489, col: 13, offset: 48237},
 													expr: &actionExpr{
-														pos: position{line: 677, col: 14, offset: 21489},
+														pos: position{line: 677, col: 14, offset: 21557},
 														run: (*parser).callonExtraListElement10,
 														expr: &seqExpr{
-															pos: position{line: 677, col: 14, offset: 21489},
+															pos: position{line: 677, col: 14, offset: 21557},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2869, col: 11, offset: 90573},
+																	pos: position{line: 2879, col: 11, offset: 90918},
 																	expr: &anyMatcher{
-																		line: 2869, col: 13, offset: 90575,
+																		line: 2879, col: 13, offset: 90920,
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 677, col: 21, offset: 21496},
+																	pos: position{line: 677, col: 21, offset: 21564},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2862, col: 10, offset: 90584},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2862, col: 10, offset: 90584},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25469,28 +25533,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2884, col: 8, offset: 90982},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2871, col: 12, offset: 90755},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2871, col: 13, offset: 90756},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2871, col: 13, offset: 90756},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2871, col: 20, offset: 90763},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2871, col: 29, offset: 90772},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25499,9 +25563,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2881, col: 8, offset: 90932},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2881, col: 9, offset: 90933,
 																			},
 																		},
 																	},
@@ -25511,33 +25575,33 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1490, col: 13, offset: 48125},
+													pos:   position{line: 1490, col: 13, offset: 48261},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1490, col: 22, offset: 48134},
+														pos: position{line: 1490, col: 22, offset: 48270},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1570, col: 5, offset: 50652},
+																pos: position{line: 1570, col: 5, offset: 50788},
 																run: (*parser).callonExtraListElement27,
 																expr: &seqExpr{
-																	pos: position{line: 1570, col: 5, offset: 50652},
+																	pos: position{line: 1570, col: 5, offset: 50788},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1570, col: 5, offset: 50652},
+																			pos:   position{line: 1570, col: 5, offset: 50788},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1577, col: 5, offset: 50860},
+																				pos: position{line: 1577, col: 5, offset: 50996},
 																				run: (*parser).callonExtraListElement30,
 																				expr: &seqExpr{
-																					pos: position{line: 1577, col: 5, offset: 50860},
+																					pos: position{line: 1577, col: 5, offset: 50996},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1577, col: 5, offset: 50860},
+																							pos: position{line: 1577, col: 5, offset: 50996},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2862, col: 10, offset: 90584},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2862, col: 10, offset: 90584},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25546,27 +25610,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1577, col: 12, offset: 50867},
+																							pos:   position{line: 1577, col: 12, offset: 51003},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1579, col: 9, offset: 50930},
+																								pos: position{line: 1579, col: 9, offset: 51066},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1579, col: 9, offset: 50930},
+																										pos: position{line: 1579, col: 9, offset: 51066},
 																										run: (*parser).callonExtraListElement37,
 																										expr: &seqExpr{
-																											pos: position{line: 1579, col: 9, offset: 50930},
+																											pos: position{line: 1579, col: 9, offset: 51066},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1579, col: 9, offset: 50930},
+																													pos:   position{line: 1579, col: 9, offset: 51066},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1579, col: 16, offset: 50937},
+																														pos: position{line: 1579, col: 16, offset: 51073},
 																														run: (*parser).callonExtraListElement40,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1579, col: 16, offset: 50937},
+																															pos: position{line: 1579, col: 16, offset: 51073},
 																															expr: &litMatcher{
-																																pos:        position{line: 1579, col: 17, offset: 50938},
+																																pos:        position{line: 1579, col: 17, offset: 51074},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -25575,22 +25639,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1583, col: 9, offset: 51038},
+																													pos: position{line: 1583, col: 9, offset: 51174},
 																													run: (*parser).callonExtraListElement43,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1602, col: 11, offset: 51755},
+																										pos: position{line: 1602, col: 11, offset: 51891},
 																										run: (*parser).callonExtraListElement44,
 																										expr: &seqExpr{
-																											pos: position{line: 1602, col: 11, offset: 51755},
+																											pos: position{line: 1602, col: 11, offset: 51891},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1602, col: 11, offset: 51755},
+																													pos: position{line: 1602, col: 11, offset: 51891},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1602, col: 12, offset: 51756},
+																														pos:        position{line: 1602, col: 12, offset: 51892},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -25598,7 +25662,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1602, col: 20, offset: 51764},
+																													pos:        position{line: 1602, col: 20, offset: 51900},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -25607,20 +25671,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1604, col: 13, offset: 51881},
+																										pos: position{line: 1604, col: 13, offset: 52017},
 																										run: (*parser).callonExtraListElement49,
 																										expr: &seqExpr{
-																											pos: position{line: 1604, col: 13, offset: 51881},
+																											pos: position{line: 1604, col: 13, offset: 52017},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1604, col: 14, offset: 51882},
+																													pos:        position{line: 1604, col: 14, offset: 52018},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1604, col: 21, offset: 51889},
+																													pos:        position{line: 1604, col: 21, offset: 52025},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -25629,20 +25693,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1606, col: 13, offset: 52009},
+																										pos: position{line: 1606, col: 13, offset: 52145},
 																										run: (*parser).callonExtraListElement53,
 																										expr: &seqExpr{
-																											pos: position{line: 1606, col: 13, offset: 52009},
+																											pos: position{line: 1606, col: 13, offset: 52145},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1606, col: 14, offset: 52010},
+																													pos:        position{line: 1606, col: 14, offset: 52146},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1606, col: 21, offset: 52017},
+																													pos:        position{line: 1606, col: 21, offset: 52153},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -25651,15 +25715,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1608, col: 13, offset: 52137},
+																										pos: position{line: 1608, col: 13, offset: 52273},
 																										run: (*parser).callonExtraListElement57,
 																										expr: &seqExpr{
-																											pos: position{line: 1608, col: 13, offset: 52137},
+																											pos: position{line: 1608, col: 13, offset: 52273},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1608, col: 13, offset: 52137},
+																													pos: position{line: 1608, col: 13, offset: 52273},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1608, col: 14, offset: 52138},
+																														pos:        position{line: 1608, col: 14, offset: 52274},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -25667,7 +25731,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1608, col: 26, offset: 52150},
+																													pos:        position{line: 1608, col: 26, offset: 52286},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -25676,15 +25740,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1610, col: 13, offset: 52270},
+																										pos: position{line: 1610, col: 13, offset: 52406},
 																										run: (*parser).callonExtraListElement62,
 																										expr: &seqExpr{
-																											pos: position{line: 1610, col: 13, offset: 52270},
+																											pos: position{line: 1610, col: 13, offset: 52406},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1610, col: 13, offset: 52270},
+																													pos: position{line: 1610, col: 13, offset: 52406},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1610, col: 14, offset: 52271},
+																														pos:        position{line: 1610, col: 14, offset: 52407},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -25692,7 +25756,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1610, col: 26, offset: 52283},
+																													pos:        position{line: 1610, col: 26, offset: 52419},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -25704,12 +25768,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2856, col: 11, offset: 90300},
+																							pos: position{line: 2866, col: 11, offset: 90645},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2856, col: 11, offset: 90300},
+																								pos: position{line: 2866, col: 11, offset: 90645},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2856, col: 11, offset: 90300},
+																									pos:        position{line: 2866, col: 11, offset: 90645},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25722,26 +25786,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1571, col: 5, offset: 50691},
+																			pos:   position{line: 1571, col: 5, offset: 50827},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1518, col: 5, offset: 49158},
+																				pos: position{line: 1518, col: 5, offset: 49294},
 																				run: (*parser).callonExtraListElement71,
 																				expr: &seqExpr{
-																					pos: position{line: 1518, col: 5, offset: 49158},
+																					pos: position{line: 1518, col: 5, offset: 49294},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1518, col: 5, offset: 49158},
+																							pos:   position{line: 1518, col: 5, offset: 49294},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1518, col: 14, offset: 49167},
+																								pos: position{line: 1518, col: 14, offset: 49303},
 																								expr: &actionExpr{
-																									pos: position{line: 1518, col: 15, offset: 49168},
+																									pos: position{line: 1518, col: 15, offset: 49304},
 																									run: (*parser).callonExtraListElement75,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1518, col: 15, offset: 49168},
+																										pos: position{line: 1518, col: 15, offset: 49304},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1518, col: 15, offset: 49168},
+																											pos:        position{line: 1518, col: 15, offset: 49304},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -25752,28 +25816,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2884, col: 8, offset: 90982},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2871, col: 12, offset: 90755},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2871, col: 13, offset: 90756},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2871, col: 13, offset: 90756},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2871, col: 20, offset: 90763},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2871, col: 29, offset: 90772},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25782,9 +25846,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2881, col: 8, offset: 90932},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2881, col: 9, offset: 90933,
 																									},
 																								},
 																							},
@@ -25797,27 +25861,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1620, col: 5, offset: 52549},
+																pos: position{line: 1620, col: 5, offset: 52685},
 																run: (*parser).callonExtraListElement86,
 																expr: &seqExpr{
-																	pos: position{line: 1620, col: 5, offset: 52549},
+																	pos: position{line: 1620, col: 5, offset: 52685},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1620, col: 5, offset: 52549},
+																			pos:   position{line: 1620, col: 5, offset: 52685},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1627, col: 5, offset: 52822},
+																				pos: position{line: 1627, col: 5, offset: 52958},
 																				run: (*parser).callonExtraListElement89,
 																				expr: &seqExpr{
-																					pos: position{line: 1627, col: 5, offset: 52822},
+																					pos: position{line: 1627, col: 5, offset: 52958},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1627, col: 5, offset: 52822},
+																							pos: position{line: 1627, col: 5, offset: 52958},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2862, col: 10, offset: 90584},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2862, col: 10, offset: 90584},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25826,24 +25890,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1628, col: 5, offset: 52834},
+																							pos:   position{line: 1628, col: 5, offset: 52970},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1629, col: 9, offset: 52850},
+																								pos: position{line: 1629, col: 9, offset: 52986},
 																								run: (*parser).callonExtraListElement95,
 																								expr: &choiceExpr{
-																									pos: position{line: 1629, col: 10, offset: 52851},
+																									pos: position{line: 1629, col: 10, offset: 52987},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1629, col: 11, offset: 52852},
+																											pos:        position{line: 1629, col: 11, offset: 52988},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1629, col: 18, offset: 52859},
+																											pos: position{line: 1629, col: 18, offset: 52995},
 																											expr: &litMatcher{
-																												pos:        position{line: 1629, col: 19, offset: 52860},
+																												pos:        position{line: 1629, col: 19, offset: 52996},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -25854,16 +25918,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1632, col: 7, offset: 52950},
+																							pos: position{line: 1632, col: 7, offset: 53086},
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2856, col: 11, offset: 90300},
+																							pos: position{line: 2866, col: 11, offset: 90645},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2856, col: 11, offset: 90300},
+																								pos: position{line: 2866, col: 11, offset: 90645},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2856, col: 11, offset: 90300},
+																									pos:        position{line: 2866, col: 11, offset: 90645},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25876,56 +25940,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1621, col: 5, offset: 52590},
+																			pos:   position{line: 1621, col: 5, offset: 52726},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1621, col: 16, offset: 52601},
+																				pos: position{line: 1621, col: 16, offset: 52737},
 																				expr: &actionExpr{
-																					pos: position{line: 1642, col: 5, offset: 53215},
+																					pos: position{line: 1642, col: 5, offset: 53351},
 																					run: (*parser).callonExtraListElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 1642, col: 5, offset: 53215},
+																						pos: position{line: 1642, col: 5, offset: 53351},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1642, col: 5, offset: 53215},
+																								pos: position{line: 1642, col: 5, offset: 53351},
 																								expr: &litMatcher{
-																									pos:        position{line: 1642, col: 6, offset: 53216},
+																									pos:        position{line: 1642, col: 6, offset: 53352},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1642, col: 10, offset: 53220},
+																								pos:   position{line: 1642, col: 10, offset: 53356},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1643, col: 7, offset: 53234},
+																									pos: position{line: 1643, col: 7, offset: 53370},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1643, col: 7, offset: 53234},
+																											pos: position{line: 1643, col: 7, offset: 53370},
 																											run: (*parser).callonExtraListElement112,
 																											expr: &litMatcher{
-																												pos:        position{line: 1643, col: 7, offset: 53234},
+																												pos:        position{line: 1643, col: 7, offset: 53370},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1644, col: 7, offset: 53279},
+																											pos: position{line: 1644, col: 7, offset: 53415},
 																											run: (*parser).callonExtraListElement114,
 																											expr: &litMatcher{
-																												pos:        position{line: 1644, col: 7, offset: 53279},
+																												pos:        position{line: 1644, col: 7, offset: 53415},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1645, col: 7, offset: 53322},
+																											pos: position{line: 1645, col: 7, offset: 53458},
 																											run: (*parser).callonExtraListElement116,
 																											expr: &litMatcher{
-																												pos:        position{line: 1645, col: 7, offset: 53322},
+																												pos:        position{line: 1645, col: 7, offset: 53458},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -25935,12 +25999,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2856, col: 11, offset: 90300},
+																								pos: position{line: 2866, col: 11, offset: 90645},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2856, col: 11, offset: 90300},
+																									pos: position{line: 2866, col: 11, offset: 90645},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2856, col: 11, offset: 90300},
+																										pos:        position{line: 2866, col: 11, offset: 90645},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -25954,26 +26018,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1622, col: 5, offset: 52640},
+																			pos:   position{line: 1622, col: 5, offset: 52776},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1518, col: 5, offset: 49158},
+																				pos: position{line: 1518, col: 5, offset: 49294},
 																				run: (*parser).callonExtraListElement122,
 																				expr: &seqExpr{
-																					pos: position{line: 1518, col: 5, offset: 49158},
+																					pos: position{line: 1518, col: 5, offset: 49294},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1518, col: 5, offset: 49158},
+																							pos:   position{line: 1518, col: 5, offset: 49294},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1518, col: 14, offset: 49167},
+																								pos: position{line: 1518, col: 14, offset: 49303},
 																								expr: &actionExpr{
-																									pos: position{line: 1518, col: 15, offset: 49168},
+																									pos: position{line: 1518, col: 15, offset: 49304},
 																									run: (*parser).callonExtraListElement126,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1518, col: 15, offset: 49168},
+																										pos: position{line: 1518, col: 15, offset: 49304},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1518, col: 15, offset: 49168},
+																											pos:        position{line: 1518, col: 15, offset: 49304},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -25984,28 +26048,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2884, col: 8, offset: 90982},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2871, col: 12, offset: 90755},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2871, col: 13, offset: 90756},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2871, col: 13, offset: 90756},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2871, col: 20, offset: 90763},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2871, col: 29, offset: 90772},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26014,9 +26078,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2881, col: 8, offset: 90932},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2881, col: 9, offset: 90933,
 																									},
 																								},
 																							},
@@ -26029,36 +26093,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1710, col: 5, offset: 55162},
+																pos: position{line: 1710, col: 5, offset: 55298},
 																run: (*parser).callonExtraListElement137,
 																expr: &seqExpr{
-																	pos: position{line: 1710, col: 5, offset: 55162},
+																	pos: position{line: 1710, col: 5, offset: 55298},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1710, col: 5, offset: 55162},
+																			pos:   position{line: 1710, col: 5, offset: 55298},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1716, col: 5, offset: 55359},
+																				pos: position{line: 1716, col: 5, offset: 55495},
 																				run: (*parser).callonExtraListElement140,
 																				expr: &seqExpr{
-																					pos: position{line: 1716, col: 5, offset: 55359},
+																					pos: position{line: 1716, col: 5, offset: 55495},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1716, col: 5, offset: 55359},
+																							pos:        position{line: 1716, col: 5, offset: 55495},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1716, col: 9, offset: 55363},
+																							pos:   position{line: 1716, col: 9, offset: 55499},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1716, col: 14, offset: 55368},
+																								pos: position{line: 1716, col: 14, offset: 55504},
 																								run: (*parser).callonExtraListElement144,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1716, col: 14, offset: 55368},
+																									pos: position{line: 1716, col: 14, offset: 55504},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1716, col: 14, offset: 55368},
+																										pos:        position{line: 1716, col: 14, offset: 55504},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -26068,18 +26132,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1716, col: 62, offset: 55416},
+																							pos:        position{line: 1716, col: 62, offset: 55552},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2856, col: 11, offset: 90300},
+																							pos: position{line: 2866, col: 11, offset: 90645},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2856, col: 11, offset: 90300},
+																								pos: position{line: 2866, col: 11, offset: 90645},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2856, col: 11, offset: 90300},
+																									pos:        position{line: 2866, col: 11, offset: 90645},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26092,26 +26156,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1711, col: 5, offset: 55198},
+																			pos:   position{line: 1711, col: 5, offset: 55334},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1518, col: 5, offset: 49158},
+																				pos: position{line: 1518, col: 5, offset: 49294},
 																				run: (*parser).callonExtraListElement152,
 																				expr: &seqExpr{
-																					pos: position{line: 1518, col: 5, offset: 49158},
+																					pos: position{line: 1518, col: 5, offset: 49294},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1518, col: 5, offset: 49158},
+																							pos:   position{line: 1518, col: 5, offset: 49294},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1518, col: 14, offset: 49167},
+																								pos: position{line: 1518, col: 14, offset: 49303},
 																								expr: &actionExpr{
-																									pos: position{line: 1518, col: 15, offset: 49168},
+																									pos: position{line: 1518, col: 15, offset: 49304},
 																									run: (*parser).callonExtraListElement156,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1518, col: 15, offset: 49168},
+																										pos: position{line: 1518, col: 15, offset: 49304},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1518, col: 15, offset: 49168},
+																											pos:        position{line: 1518, col: 15, offset: 49304},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26122,28 +26186,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2884, col: 8, offset: 90982},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2871, col: 12, offset: 90755},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2871, col: 13, offset: 90756},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2871, col: 13, offset: 90756},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2871, col: 20, offset: 90763},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2871, col: 29, offset: 90772},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26152,9 +26216,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2881, col: 8, offset: 90932},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2881, col: 9, offset: 90933,
 																									},
 																								},
 																							},
@@ -26167,40 +26231,40 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1654, col: 5, offset: 53515},
+																pos: position{line: 1654, col: 5, offset: 53651},
 																run: (*parser).callonExtraListElement167,
 																expr: &seqExpr{
-																	pos: position{line: 1654, col: 5, offset: 53515},
+																	pos: position{line: 1654, col: 5, offset: 53651},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1654, col: 5, offset: 53515},
+																			pos:   position{line: 1654, col: 5, offset: 53651},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1662, col: 5, offset: 53841},
+																				pos: position{line: 1662, col: 5, offset: 53977},
 																				run: (*parser).callonExtraListElement170,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1662, col: 5, offset: 53841},
+																					pos: position{line: 1662, col: 5, offset: 53977},
 																					expr: &seqExpr{
-																						pos: position{line: 1662, col: 6, offset: 53842},
+																						pos: position{line: 1662, col: 6, offset: 53978},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1662, col: 6, offset: 53842},
+																								pos: position{line: 1662, col: 6, offset: 53978},
 																								expr: &actionExpr{
-																									pos: position{line: 1667, col: 5, offset: 53992},
+																									pos: position{line: 1667, col: 5, offset: 54128},
 																									run: (*parser).callonExtraListElement174,
 																									expr: &seqExpr{
-																										pos: position{line: 1667, col: 5, offset: 53992},
+																										pos: position{line: 1667, col: 5, offset: 54128},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1667, col: 5, offset: 53992},
+																												pos:   position{line: 1667, col: 5, offset: 54128},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1667, col: 16, offset: 54003},
+																													pos: position{line: 1667, col: 16, offset: 54139},
 																													run: (*parser).callonExtraListElement177,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1667, col: 16, offset: 54003},
+																														pos: position{line: 1667, col: 16, offset: 54139},
 																														expr: &litMatcher{
-																															pos:        position{line: 1667, col: 17, offset: 54004},
+																															pos:        position{line: 1667, col: 17, offset: 54140},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -26209,7 +26273,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1670, col: 5, offset: 54061},
+																												pos: position{line: 1670, col: 5, offset: 54197},
 																												run: (*parser).callonExtraListElement180,
 																											},
 																										},
@@ -26217,30 +26281,30 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1662, col: 35, offset: 53871},
+																								pos: position{line: 1662, col: 35, offset: 54007},
 																								expr: &choiceExpr{
-																									pos: position{line: 2874, col: 8, offset: 90637},
+																									pos: position{line: 2884, col: 8, offset: 90982},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2861, col: 12, offset: 90410},
+																											pos: position{line: 2871, col: 12, offset: 90755},
 																											run: (*parser).callonExtraListElement183,
 																											expr: &choiceExpr{
-																												pos: position{line: 2861, col: 13, offset: 90411},
+																												pos: position{line: 2871, col: 13, offset: 90756},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 13, offset: 90411},
+																														pos:        position{line: 2871, col: 13, offset: 90756},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 20, offset: 90418},
+																														pos:        position{line: 2871, col: 20, offset: 90763},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 29, offset: 90427},
+																														pos:        position{line: 2871, col: 29, offset: 90772},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26249,16 +26313,16 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2871, col: 8, offset: 90587},
+																											pos: position{line: 2881, col: 8, offset: 90932},
 																											expr: &anyMatcher{
-																												line: 2871, col: 9, offset: 90588,
+																												line: 2881, col: 9, offset: 90933,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1662, col: 40, offset: 53876,
+																								line: 1662, col: 40, offset: 54012,
 																							},
 																						},
 																					},
@@ -26266,24 +26330,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1655, col: 5, offset: 53550},
+																			pos:   position{line: 1655, col: 5, offset: 53686},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1667, col: 5, offset: 53992},
+																				pos: position{line: 1667, col: 5, offset: 54128},
 																				run: (*parser).callonExtraListElement192,
 																				expr: &seqExpr{
-																					pos: position{line: 1667, col: 5, offset: 53992},
+																					pos: position{line: 1667, col: 5, offset: 54128},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1667, col: 5, offset: 53992},
+																							pos:   position{line: 1667, col: 5, offset: 54128},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1667, col: 16, offset: 54003},
+																								pos: position{line: 1667, col: 16, offset: 54139},
 																								run: (*parser).callonExtraListElement195,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1667, col: 16, offset: 54003},
+																									pos: position{line: 1667, col: 16, offset: 54139},
 																									expr: &litMatcher{
-																										pos:        position{line: 1667, col: 17, offset: 54004},
+																										pos:        position{line: 1667, col: 17, offset: 54140},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -26292,7 +26356,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1670, col: 5, offset: 54061},
+																							pos: position{line: 1670, col: 5, offset: 54197},
 																							run: (*parser).callonExtraListElement198,
 																						},
 																					},
@@ -26300,24 +26364,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1656, col: 5, offset: 53595},
+																			pos:   position{line: 1656, col: 5, offset: 53731},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1678, col: 5, offset: 54310},
+																				pos: position{line: 1678, col: 5, offset: 54446},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1680, col: 9, offset: 54376},
+																						pos: position{line: 1680, col: 9, offset: 54512},
 																						run: (*parser).callonExtraListElement201,
 																						expr: &seqExpr{
-																							pos: position{line: 1680, col: 9, offset: 54376},
+																							pos: position{line: 1680, col: 9, offset: 54512},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1680, col: 9, offset: 54376},
+																									pos: position{line: 1680, col: 9, offset: 54512},
 																									expr: &actionExpr{
-																										pos: position{line: 2852, col: 10, offset: 90239},
+																										pos: position{line: 2862, col: 10, offset: 90584},
 																										run: (*parser).callonExtraListElement204,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2852, col: 10, offset: 90239},
+																											pos:        position{line: 2862, col: 10, offset: 90584},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26326,28 +26390,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2874, col: 8, offset: 90637},
+																									pos: position{line: 2884, col: 8, offset: 90982},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2861, col: 12, offset: 90410},
+																											pos: position{line: 2871, col: 12, offset: 90755},
 																											run: (*parser).callonExtraListElement207,
 																											expr: &choiceExpr{
-																												pos: position{line: 2861, col: 13, offset: 90411},
+																												pos: position{line: 2871, col: 13, offset: 90756},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 13, offset: 90411},
+																														pos:        position{line: 2871, col: 13, offset: 90756},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 20, offset: 90418},
+																														pos:        position{line: 2871, col: 20, offset: 90763},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 29, offset: 90427},
+																														pos:        position{line: 2871, col: 29, offset: 90772},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26356,34 +26420,34 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2871, col: 8, offset: 90587},
+																											pos: position{line: 2881, col: 8, offset: 90932},
 																											expr: &anyMatcher{
-																												line: 2871, col: 9, offset: 90588,
+																												line: 2881, col: 9, offset: 90933,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1681, col: 9, offset: 54395},
+																									pos: position{line: 1681, col: 9, offset: 54531},
 																									expr: &actionExpr{
-																										pos: position{line: 677, col: 14, offset: 21489},
+																										pos: position{line: 677, col: 14, offset: 21557},
 																										run: (*parser).callonExtraListElement215,
 																										expr: &seqExpr{
-																											pos: position{line: 677, col: 14, offset: 21489},
+																											pos: position{line: 677, col: 14, offset: 21557},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2869, col: 11, offset: 90573},
+																													pos: position{line: 2879, col: 11, offset: 90918},
 																													expr: &anyMatcher{
-																														line: 2869, col: 13, offset: 90575,
+																														line: 2879, col: 13, offset: 90920,
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 677, col: 21, offset: 21496},
+																													pos: position{line: 677, col: 21, offset: 21564},
 																													expr: &actionExpr{
-																														pos: position{line: 2852, col: 10, offset: 90239},
+																														pos: position{line: 2862, col: 10, offset: 90584},
 																														run: (*parser).callonExtraListElement220,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2852, col: 10, offset: 90239},
+																															pos:        position{line: 2862, col: 10, offset: 90584},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -26392,28 +26456,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2874, col: 8, offset: 90637},
+																													pos: position{line: 2884, col: 8, offset: 90982},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2861, col: 12, offset: 90410},
+																															pos: position{line: 2871, col: 12, offset: 90755},
 																															run: (*parser).callonExtraListElement223,
 																															expr: &choiceExpr{
-																																pos: position{line: 2861, col: 13, offset: 90411},
+																																pos: position{line: 2871, col: 13, offset: 90756},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2861, col: 13, offset: 90411},
+																																		pos:        position{line: 2871, col: 13, offset: 90756},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2861, col: 20, offset: 90418},
+																																		pos:        position{line: 2871, col: 20, offset: 90763},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2861, col: 29, offset: 90427},
+																																		pos:        position{line: 2871, col: 29, offset: 90772},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -26422,9 +26486,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2871, col: 8, offset: 90587},
+																															pos: position{line: 2881, col: 8, offset: 90932},
 																															expr: &anyMatcher{
-																																line: 2871, col: 9, offset: 90588,
+																																line: 2881, col: 9, offset: 90933,
 																															},
 																														},
 																													},
@@ -26437,18 +26501,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1687, col: 9, offset: 54524},
+																						pos: position{line: 1687, col: 9, offset: 54660},
 																						run: (*parser).callonExtraListElement230,
 																						expr: &seqExpr{
-																							pos: position{line: 1687, col: 9, offset: 54524},
+																							pos: position{line: 1687, col: 9, offset: 54660},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2856, col: 11, offset: 90300},
+																									pos: position{line: 2866, col: 11, offset: 90645},
 																									run: (*parser).callonExtraListElement232,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2856, col: 11, offset: 90300},
+																										pos: position{line: 2866, col: 11, offset: 90645},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2856, col: 11, offset: 90300},
+																											pos:        position{line: 2866, col: 11, offset: 90645},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26457,15 +26521,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1688, col: 9, offset: 54597},
+																									pos:   position{line: 1688, col: 9, offset: 54733},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1688, col: 18, offset: 54606},
+																										pos: position{line: 1688, col: 18, offset: 54742},
 																										run: (*parser).callonExtraListElement236,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1688, col: 18, offset: 54606},
+																											pos: position{line: 1688, col: 18, offset: 54742},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1688, col: 18, offset: 54606},
+																												pos:        position{line: 1688, col: 18, offset: 54742},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -26475,28 +26539,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2874, col: 8, offset: 90637},
+																									pos: position{line: 2884, col: 8, offset: 90982},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2861, col: 12, offset: 90410},
+																											pos: position{line: 2871, col: 12, offset: 90755},
 																											run: (*parser).callonExtraListElement240,
 																											expr: &choiceExpr{
-																												pos: position{line: 2861, col: 13, offset: 90411},
+																												pos: position{line: 2871, col: 13, offset: 90756},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 13, offset: 90411},
+																														pos:        position{line: 2871, col: 13, offset: 90756},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 20, offset: 90418},
+																														pos:        position{line: 2871, col: 20, offset: 90763},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 29, offset: 90427},
+																														pos:        position{line: 2871, col: 29, offset: 90772},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26505,9 +26569,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2871, col: 8, offset: 90587},
+																											pos: position{line: 2881, col: 8, offset: 90932},
 																											expr: &anyMatcher{
-																												line: 2871, col: 9, offset: 90588,
+																												line: 2881, col: 9, offset: 90933,
 																											},
 																										},
 																									},
@@ -26528,50 +26592,50 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1493, col: 13, offset: 48285},
+										pos: position{line: 1493, col: 13, offset: 48421},
 										run: (*parser).callonExtraListElement247,
 										expr: &seqExpr{
-											pos: position{line: 1493, col: 13, offset: 48285},
+											pos: position{line: 1493, col: 13, offset: 48421},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1493, col: 13, offset: 48285},
+													pos:   position{line: 1493, col: 13, offset: 48421},
 													label: "attributes",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1493, col: 24, offset: 48296},
+														pos: position{line: 1493, col: 24, offset: 48432},
 														expr: &ruleRefExpr{
-															pos:  position{line: 1493, col: 25, offset: 48297},
+															pos:  position{line: 1493, col: 25, offset: 48433},
 															name: "BlockAttributes",
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1494, col: 13, offset: 48328},
+													pos:   position{line: 1494, col: 13, offset: 48464},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1494, col: 22, offset: 48337},
+														pos: position{line: 1494, col: 22, offset: 48473},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1570, col: 5, offset: 50652},
+																pos: position{line: 1570, col: 5, offset: 50788},
 																run: (*parser).callonExtraListElement254,
 																expr: &seqExpr{
-																	pos: position{line: 1570, col: 5, offset: 50652},
+																	pos: position{line: 1570, col: 5, offset: 50788},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1570, col: 5, offset: 50652},
+																			pos:   position{line: 1570, col: 5, offset: 50788},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1577, col: 5, offset: 50860},
+																				pos: position{line: 1577, col: 5, offset: 50996},
 																				run: (*parser).callonExtraListElement257,
 																				expr: &seqExpr{
-																					pos: position{line: 1577, col: 5, offset: 50860},
+																					pos: position{line: 1577, col: 5, offset: 50996},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1577, col: 5, offset: 50860},
+																							pos: position{line: 1577, col: 5, offset: 50996},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2862, col: 10, offset: 90584},
 																								run: (*parser).callonExtraListElement260,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2862, col: 10, offset: 90584},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26580,27 +26644,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1577, col: 12, offset: 50867},
+																							pos:   position{line: 1577, col: 12, offset: 51003},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1579, col: 9, offset: 50930},
+																								pos: position{line: 1579, col: 9, offset: 51066},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1579, col: 9, offset: 50930},
+																										pos: position{line: 1579, col: 9, offset: 51066},
 																										run: (*parser).callonExtraListElement264,
 																										expr: &seqExpr{
-																											pos: position{line: 1579, col: 9, offset: 50930},
+																											pos: position{line: 1579, col: 9, offset: 51066},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1579, col: 9, offset: 50930},
+																													pos:   position{line: 1579, col: 9, offset: 51066},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1579, col: 16, offset: 50937},
+																														pos: position{line: 1579, col: 16, offset: 51073},
 																														run: (*parser).callonExtraListElement267,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1579, col: 16, offset: 50937},
+																															pos: position{line: 1579, col: 16, offset: 51073},
 																															expr: &litMatcher{
-																																pos:        position{line: 1579, col: 17, offset: 50938},
+																																pos:        position{line: 1579, col: 17, offset: 51074},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -26609,22 +26673,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1583, col: 9, offset: 51038},
+																													pos: position{line: 1583, col: 9, offset: 51174},
 																													run: (*parser).callonExtraListElement270,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1602, col: 11, offset: 51755},
+																										pos: position{line: 1602, col: 11, offset: 51891},
 																										run: (*parser).callonExtraListElement271,
 																										expr: &seqExpr{
-																											pos: position{line: 1602, col: 11, offset: 51755},
+																											pos: position{line: 1602, col: 11, offset: 51891},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1602, col: 11, offset: 51755},
+																													pos: position{line: 1602, col: 11, offset: 51891},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1602, col: 12, offset: 51756},
+																														pos:        position{line: 1602, col: 12, offset: 51892},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -26632,7 +26696,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1602, col: 20, offset: 51764},
+																													pos:        position{line: 1602, col: 20, offset: 51900},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26641,20 +26705,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1604, col: 13, offset: 51881},
+																										pos: position{line: 1604, col: 13, offset: 52017},
 																										run: (*parser).callonExtraListElement276,
 																										expr: &seqExpr{
-																											pos: position{line: 1604, col: 13, offset: 51881},
+																											pos: position{line: 1604, col: 13, offset: 52017},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1604, col: 14, offset: 51882},
+																													pos:        position{line: 1604, col: 14, offset: 52018},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1604, col: 21, offset: 51889},
+																													pos:        position{line: 1604, col: 21, offset: 52025},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26663,20 +26727,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1606, col: 13, offset: 52009},
+																										pos: position{line: 1606, col: 13, offset: 52145},
 																										run: (*parser).callonExtraListElement280,
 																										expr: &seqExpr{
-																											pos: position{line: 1606, col: 13, offset: 52009},
+																											pos: position{line: 1606, col: 13, offset: 52145},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1606, col: 14, offset: 52010},
+																													pos:        position{line: 1606, col: 14, offset: 52146},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1606, col: 21, offset: 52017},
+																													pos:        position{line: 1606, col: 21, offset: 52153},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26685,15 +26749,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1608, col: 13, offset: 52137},
+																										pos: position{line: 1608, col: 13, offset: 52273},
 																										run: (*parser).callonExtraListElement284,
 																										expr: &seqExpr{
-																											pos: position{line: 1608, col: 13, offset: 52137},
+																											pos: position{line: 1608, col: 13, offset: 52273},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1608, col: 13, offset: 52137},
+																													pos: position{line: 1608, col: 13, offset: 52273},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1608, col: 14, offset: 52138},
+																														pos:        position{line: 1608, col: 14, offset: 52274},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -26701,7 +26765,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1608, col: 26, offset: 52150},
+																													pos:        position{line: 1608, col: 26, offset: 52286},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26710,15 +26774,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1610, col: 13, offset: 52270},
+																										pos: position{line: 1610, col: 13, offset: 52406},
 																										run: (*parser).callonExtraListElement289,
 																										expr: &seqExpr{
-																											pos: position{line: 1610, col: 13, offset: 52270},
+																											pos: position{line: 1610, col: 13, offset: 52406},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1610, col: 13, offset: 52270},
+																													pos: position{line: 1610, col: 13, offset: 52406},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1610, col: 14, offset: 52271},
+																														pos:        position{line: 1610, col: 14, offset: 52407},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -26726,7 +26790,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1610, col: 26, offset: 52283},
+																													pos:        position{line: 1610, col: 26, offset: 52419},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26738,12 +26802,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2856, col: 11, offset: 90300},
+																							pos: position{line: 2866, col: 11, offset: 90645},
 																							run: (*parser).callonExtraListElement294,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2856, col: 11, offset: 90300},
+																								pos: position{line: 2866, col: 11, offset: 90645},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2856, col: 11, offset: 90300},
+																									pos:        position{line: 2866, col: 11, offset: 90645},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26756,26 +26820,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1571, col: 5, offset: 50691},
+																			pos:   position{line: 1571, col: 5, offset: 50827},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1518, col: 5, offset: 49158},
+																				pos: position{line: 1518, col: 5, offset: 49294},
 																				run: (*parser).callonExtraListElement298,
 																				expr: &seqExpr{
-																					pos: position{line: 1518, col: 5, offset: 49158},
+																					pos: position{line: 1518, col: 5, offset: 49294},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1518, col: 5, offset: 49158},
+																							pos:   position{line: 1518, col: 5, offset: 49294},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1518, col: 14, offset: 49167},
+																								pos: position{line: 1518, col: 14, offset: 49303},
 																								expr: &actionExpr{
-																									pos: position{line: 1518, col: 15, offset: 49168},
+																									pos: position{line: 1518, col: 15, offset: 49304},
 																									run: (*parser).callonExtraListElement302,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1518, col: 15, offset: 49168},
+																										pos: position{line: 1518, col: 15, offset: 49304},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1518, col: 15, offset: 49168},
+																											pos:        position{line: 1518, col: 15, offset: 49304},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26786,28 +26850,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2884, col: 8, offset: 90982},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2871, col: 12, offset: 90755},
 																									run: (*parser).callonExtraListElement306,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2871, col: 13, offset: 90756},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2871, col: 13, offset: 90756},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2871, col: 20, offset: 90763},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2871, col: 29, offset: 90772},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26816,9 +26880,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2881, col: 8, offset: 90932},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2881, col: 9, offset: 90933,
 																									},
 																								},
 																							},
@@ -26831,27 +26895,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1620, col: 5, offset: 52549},
+																pos: position{line: 1620, col: 5, offset: 52685},
 																run: (*parser).callonExtraListElement313,
 																expr: &seqExpr{
-																	pos: position{line: 1620, col: 5, offset: 52549},
+																	pos: position{line: 1620, col: 5, offset: 52685},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1620, col: 5, offset: 52549},
+																			pos:   position{line: 1620, col: 5, offset: 52685},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1627, col: 5, offset: 52822},
+																				pos: position{line: 1627, col: 5, offset: 52958},
 																				run: (*parser).callonExtraListElement316,
 																				expr: &seqExpr{
-																					pos: position{line: 1627, col: 5, offset: 52822},
+																					pos: position{line: 1627, col: 5, offset: 52958},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1627, col: 5, offset: 52822},
+																							pos: position{line: 1627, col: 5, offset: 52958},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2862, col: 10, offset: 90584},
 																								run: (*parser).callonExtraListElement319,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2862, col: 10, offset: 90584},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26860,24 +26924,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1628, col: 5, offset: 52834},
+																							pos:   position{line: 1628, col: 5, offset: 52970},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1629, col: 9, offset: 52850},
+																								pos: position{line: 1629, col: 9, offset: 52986},
 																								run: (*parser).callonExtraListElement322,
 																								expr: &choiceExpr{
-																									pos: position{line: 1629, col: 10, offset: 52851},
+																									pos: position{line: 1629, col: 10, offset: 52987},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1629, col: 11, offset: 52852},
+																											pos:        position{line: 1629, col: 11, offset: 52988},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1629, col: 18, offset: 52859},
+																											pos: position{line: 1629, col: 18, offset: 52995},
 																											expr: &litMatcher{
-																												pos:        position{line: 1629, col: 19, offset: 52860},
+																												pos:        position{line: 1629, col: 19, offset: 52996},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -26888,16 +26952,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1632, col: 7, offset: 52950},
+																							pos: position{line: 1632, col: 7, offset: 53086},
 																							run: (*parser).callonExtraListElement327,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2856, col: 11, offset: 90300},
+																							pos: position{line: 2866, col: 11, offset: 90645},
 																							run: (*parser).callonExtraListElement328,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2856, col: 11, offset: 90300},
+																								pos: position{line: 2866, col: 11, offset: 90645},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2856, col: 11, offset: 90300},
+																									pos:        position{line: 2866, col: 11, offset: 90645},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26910,56 +26974,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1621, col: 5, offset: 52590},
+																			pos:   position{line: 1621, col: 5, offset: 52726},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1621, col: 16, offset: 52601},
+																				pos: position{line: 1621, col: 16, offset: 52737},
 																				expr: &actionExpr{
-																					pos: position{line: 1642, col: 5, offset: 53215},
+																					pos: position{line: 1642, col: 5, offset: 53351},
 																					run: (*parser).callonExtraListElement333,
 																					expr: &seqExpr{
-																						pos: position{line: 1642, col: 5, offset: 53215},
+																						pos: position{line: 1642, col: 5, offset: 53351},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1642, col: 5, offset: 53215},
+																								pos: position{line: 1642, col: 5, offset: 53351},
 																								expr: &litMatcher{
-																									pos:        position{line: 1642, col: 6, offset: 53216},
+																									pos:        position{line: 1642, col: 6, offset: 53352},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1642, col: 10, offset: 53220},
+																								pos:   position{line: 1642, col: 10, offset: 53356},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1643, col: 7, offset: 53234},
+																									pos: position{line: 1643, col: 7, offset: 53370},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1643, col: 7, offset: 53234},
+																											pos: position{line: 1643, col: 7, offset: 53370},
 																											run: (*parser).callonExtraListElement339,
 																											expr: &litMatcher{
-																												pos:        position{line: 1643, col: 7, offset: 53234},
+																												pos:        position{line: 1643, col: 7, offset: 53370},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1644, col: 7, offset: 53279},
+																											pos: position{line: 1644, col: 7, offset: 53415},
 																											run: (*parser).callonExtraListElement341,
 																											expr: &litMatcher{
-																												pos:        position{line: 1644, col: 7, offset: 53279},
+																												pos:        position{line: 1644, col: 7, offset: 53415},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1645, col: 7, offset: 53322},
+																											pos: position{line: 1645, col: 7, offset: 53458},
 																											run: (*parser).callonExtraListElement343,
 																											expr: &litMatcher{
-																												pos:        position{line: 1645, col: 7, offset: 53322},
+																												pos:        position{line: 1645, col: 7, offset: 53458},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -26969,12 +27033,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2856, col: 11, offset: 90300},
+																								pos: position{line: 2866, col: 11, offset: 90645},
 																								run: (*parser).callonExtraListElement345,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2856, col: 11, offset: 90300},
+																									pos: position{line: 2866, col: 11, offset: 90645},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2856, col: 11, offset: 90300},
+																										pos:        position{line: 2866, col: 11, offset: 90645},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -26988,26 +27052,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1622, col: 5, offset: 52640},
+																			pos:   position{line: 1622, col: 5, offset: 52776},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1518, col: 5, offset: 49158},
+																				pos: position{line: 1518, col: 5, offset: 49294},
 																				run: (*parser).callonExtraListElement349,
 																				expr: &seqExpr{
-																					pos: position{line: 1518, col: 5, offset: 49158},
+																					pos: position{line: 1518, col: 5, offset: 49294},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1518, col: 5, offset: 49158},
+																							pos:   position{line: 1518, col: 5, offset: 49294},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1518, col: 14, offset: 49167},
+																								pos: position{line: 1518, col: 14, offset: 49303},
 																								expr: &actionExpr{
-																									pos: position{line: 1518, col: 15, offset: 49168},
+																									pos: position{line: 1518, col: 15, offset: 49304},
 																									run: (*parser).callonExtraListElement353,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1518, col: 15, offset: 49168},
+																										pos: position{line: 1518, col: 15, offset: 49304},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1518, col: 15, offset: 49168},
+																											pos:        position{line: 1518, col: 15, offset: 49304},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27018,28 +27082,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2884, col: 8, offset: 90982},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2871, col: 12, offset: 90755},
 																									run: (*parser).callonExtraListElement357,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2871, col: 13, offset: 90756},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2871, col: 13, offset: 90756},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2871, col: 20, offset: 90763},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2871, col: 29, offset: 90772},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27048,9 +27112,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2881, col: 8, offset: 90932},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2881, col: 9, offset: 90933,
 																									},
 																								},
 																							},
@@ -27063,36 +27127,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1710, col: 5, offset: 55162},
+																pos: position{line: 1710, col: 5, offset: 55298},
 																run: (*parser).callonExtraListElement364,
 																expr: &seqExpr{
-																	pos: position{line: 1710, col: 5, offset: 55162},
+																	pos: position{line: 1710, col: 5, offset: 55298},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1710, col: 5, offset: 55162},
+																			pos:   position{line: 1710, col: 5, offset: 55298},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1716, col: 5, offset: 55359},
+																				pos: position{line: 1716, col: 5, offset: 55495},
 																				run: (*parser).callonExtraListElement367,
 																				expr: &seqExpr{
-																					pos: position{line: 1716, col: 5, offset: 55359},
+																					pos: position{line: 1716, col: 5, offset: 55495},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1716, col: 5, offset: 55359},
+																							pos:        position{line: 1716, col: 5, offset: 55495},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1716, col: 9, offset: 55363},
+																							pos:   position{line: 1716, col: 9, offset: 55499},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1716, col: 14, offset: 55368},
+																								pos: position{line: 1716, col: 14, offset: 55504},
 																								run: (*parser).callonExtraListElement371,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1716, col: 14, offset: 55368},
+																									pos: position{line: 1716, col: 14, offset: 55504},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1716, col: 14, offset: 55368},
+																										pos:        position{line: 1716, col: 14, offset: 55504},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -27102,18 +27166,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1716, col: 62, offset: 55416},
+																							pos:        position{line: 1716, col: 62, offset: 55552},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2856, col: 11, offset: 90300},
+																							pos: position{line: 2866, col: 11, offset: 90645},
 																							run: (*parser).callonExtraListElement375,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2856, col: 11, offset: 90300},
+																								pos: position{line: 2866, col: 11, offset: 90645},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2856, col: 11, offset: 90300},
+																									pos:        position{line: 2866, col: 11, offset: 90645},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27126,26 +27190,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1711, col: 5, offset: 55198},
+																			pos:   position{line: 1711, col: 5, offset: 55334},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1518, col: 5, offset: 49158},
+																				pos: position{line: 1518, col: 5, offset: 49294},
 																				run: (*parser).callonExtraListElement379,
 																				expr: &seqExpr{
-																					pos: position{line: 1518, col: 5, offset: 49158},
+																					pos: position{line: 1518, col: 5, offset: 49294},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1518, col: 5, offset: 49158},
+																							pos:   position{line: 1518, col: 5, offset: 49294},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1518, col: 14, offset: 49167},
+																								pos: position{line: 1518, col: 14, offset: 49303},
 																								expr: &actionExpr{
-																									pos: position{line: 1518, col: 15, offset: 49168},
+																									pos: position{line: 1518, col: 15, offset: 49304},
 																									run: (*parser).callonExtraListElement383,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1518, col: 15, offset: 49168},
+																										pos: position{line: 1518, col: 15, offset: 49304},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1518, col: 15, offset: 49168},
+																											pos:        position{line: 1518, col: 15, offset: 49304},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27156,28 +27220,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2884, col: 8, offset: 90982},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2871, col: 12, offset: 90755},
 																									run: (*parser).callonExtraListElement387,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2871, col: 13, offset: 90756},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2871, col: 13, offset: 90756},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2871, col: 20, offset: 90763},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2871, col: 29, offset: 90772},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27186,9 +27250,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2881, col: 8, offset: 90932},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2881, col: 9, offset: 90933,
 																									},
 																								},
 																							},
@@ -27201,40 +27265,40 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1654, col: 5, offset: 53515},
+																pos: position{line: 1654, col: 5, offset: 53651},
 																run: (*parser).callonExtraListElement394,
 																expr: &seqExpr{
-																	pos: position{line: 1654, col: 5, offset: 53515},
+																	pos: position{line: 1654, col: 5, offset: 53651},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1654, col: 5, offset: 53515},
+																			pos:   position{line: 1654, col: 5, offset: 53651},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1662, col: 5, offset: 53841},
+																				pos: position{line: 1662, col: 5, offset: 53977},
 																				run: (*parser).callonExtraListElement397,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1662, col: 5, offset: 53841},
+																					pos: position{line: 1662, col: 5, offset: 53977},
 																					expr: &seqExpr{
-																						pos: position{line: 1662, col: 6, offset: 53842},
+																						pos: position{line: 1662, col: 6, offset: 53978},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1662, col: 6, offset: 53842},
+																								pos: position{line: 1662, col: 6, offset: 53978},
 																								expr: &actionExpr{
-																									pos: position{line: 1667, col: 5, offset: 53992},
+																									pos: position{line: 1667, col: 5, offset: 54128},
 																									run: (*parser).callonExtraListElement401,
 																									expr: &seqExpr{
-																										pos: position{line: 1667, col: 5, offset: 53992},
+																										pos: position{line: 1667, col: 5, offset: 54128},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1667, col: 5, offset: 53992},
+																												pos:   position{line: 1667, col: 5, offset: 54128},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1667, col: 16, offset: 54003},
+																													pos: position{line: 1667, col: 16, offset: 54139},
 																													run: (*parser).callonExtraListElement404,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1667, col: 16, offset: 54003},
+																														pos: position{line: 1667, col: 16, offset: 54139},
 																														expr: &litMatcher{
-																															pos:        position{line: 1667, col: 17, offset: 54004},
+																															pos:        position{line: 1667, col: 17, offset: 54140},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -27243,7 +27307,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1670, col: 5, offset: 54061},
+																												pos: position{line: 1670, col: 5, offset: 54197},
 																												run: (*parser).callonExtraListElement407,
 																											},
 																										},
@@ -27251,30 +27315,30 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1662, col: 35, offset: 53871},
+																								pos: position{line: 1662, col: 35, offset: 54007},
 																								expr: &choiceExpr{
-																									pos: position{line: 2874, col: 8, offset: 90637},
+																									pos: position{line: 2884, col: 8, offset: 90982},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2861, col: 12, offset: 90410},
+																											pos: position{line: 2871, col: 12, offset: 90755},
 																											run: (*parser).callonExtraListElement410,
 																											expr: &choiceExpr{
-																												pos: position{line: 2861, col: 13, offset: 90411},
+																												pos: position{line: 2871, col: 13, offset: 90756},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 13, offset: 90411},
+																														pos:        position{line: 2871, col: 13, offset: 90756},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 20, offset: 90418},
+																														pos:        position{line: 2871, col: 20, offset: 90763},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 29, offset: 90427},
+																														pos:        position{line: 2871, col: 29, offset: 90772},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27283,16 +27347,16 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2871, col: 8, offset: 90587},
+																											pos: position{line: 2881, col: 8, offset: 90932},
 																											expr: &anyMatcher{
-																												line: 2871, col: 9, offset: 90588,
+																												line: 2881, col: 9, offset: 90933,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1662, col: 40, offset: 53876,
+																								line: 1662, col: 40, offset: 54012,
 																							},
 																						},
 																					},
@@ -27300,24 +27364,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1655, col: 5, offset: 53550},
+																			pos:   position{line: 1655, col: 5, offset: 53686},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1667, col: 5, offset: 53992},
+																				pos: position{line: 1667, col: 5, offset: 54128},
 																				run: (*parser).callonExtraListElement419,
 																				expr: &seqExpr{
-																					pos: position{line: 1667, col: 5, offset: 53992},
+																					pos: position{line: 1667, col: 5, offset: 54128},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1667, col: 5, offset: 53992},
+																							pos:   position{line: 1667, col: 5, offset: 54128},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1667, col: 16, offset: 54003},
+																								pos: position{line: 1667, col: 16, offset: 54139},
 																								run: (*parser).callonExtraListElement422,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1667, col: 16, offset: 54003},
+																									pos: position{line: 1667, col: 16, offset: 54139},
 																									expr: &litMatcher{
-																										pos:        position{line: 1667, col: 17, offset: 54004},
+																										pos:        position{line: 1667, col: 17, offset: 54140},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -27326,7 +27390,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1670, col: 5, offset: 54061},
+																							pos: position{line: 1670, col: 5, offset: 54197},
 																							run: (*parser).callonExtraListElement425,
 																						},
 																					},
@@ -27334,24 +27398,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1656, col: 5, offset: 53595},
+																			pos:   position{line: 1656, col: 5, offset: 53731},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1678, col: 5, offset: 54310},
+																				pos: position{line: 1678, col: 5, offset: 54446},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1680, col: 9, offset: 54376},
+																						pos: position{line: 1680, col: 9, offset: 54512},
 																						run: (*parser).callonExtraListElement428,
 																						expr: &seqExpr{
-																							pos: position{line: 1680, col: 9, offset: 54376},
+																							pos: position{line: 1680, col: 9, offset: 54512},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1680, col: 9, offset: 54376},
+																									pos: position{line: 1680, col: 9, offset: 54512},
 																									expr: &actionExpr{
-																										pos: position{line: 2852, col: 10, offset: 90239},
+																										pos: position{line: 2862, col: 10, offset: 90584},
 																										run: (*parser).callonExtraListElement431,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2852, col: 10, offset: 90239},
+																											pos:        position{line: 2862, col: 10, offset: 90584},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27360,28 +27424,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2874, col: 8, offset: 90637},
+																									pos: position{line: 2884, col: 8, offset: 90982},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2861, col: 12, offset: 90410},
+																											pos: position{line: 2871, col: 12, offset: 90755},
 																											run: (*parser).callonExtraListElement434,
 																											expr: &choiceExpr{
-																												pos: position{line: 2861, col: 13, offset: 90411},
+																												pos: position{line: 2871, col: 13, offset: 90756},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 13, offset: 90411},
+																														pos:        position{line: 2871, col: 13, offset: 90756},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 20, offset: 90418},
+																														pos:        position{line: 2871, col: 20, offset: 90763},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 29, offset: 90427},
+																														pos:        position{line: 2871, col: 29, offset: 90772},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27390,34 +27454,34 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2871, col: 8, offset: 90587},
+																											pos: position{line: 2881, col: 8, offset: 90932},
 																											expr: &anyMatcher{
-																												line: 2871, col: 9, offset: 90588,
+																												line: 2881, col: 9, offset: 90933,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1681, col: 9, offset: 54395},
+																									pos: position{line: 1681, col: 9, offset: 54531},
 																									expr: &actionExpr{
-																										pos: position{line: 677, col: 14, offset: 21489},
+																										pos: position{line: 677, col: 14, offset: 21557},
 																										run: (*parser).callonExtraListElement442,
 																										expr: &seqExpr{
-																											pos: position{line: 677, col: 14, offset: 21489},
+																											pos: position{line: 677, col: 14, offset: 21557},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2869, col: 11, offset: 90573},
+																													pos: position{line: 2879, col: 11, offset: 90918},
 																													expr: &anyMatcher{
-																														line: 2869, col: 13, offset: 90575,
+																														line: 2879, col: 13, offset: 90920,
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 677, col: 21, offset: 21496},
+																													pos: position{line: 677, col: 21, offset: 21564},
 																													expr: &actionExpr{
-																														pos: position{line: 2852, col: 10, offset: 90239},
+																														pos: position{line: 2862, col: 10, offset: 90584},
 																														run: (*parser).callonExtraListElement447,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2852, col: 10, offset: 90239},
+																															pos:        position{line: 2862, col: 10, offset: 90584},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27426,28 +27490,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2874, col: 8, offset: 90637},
+																													pos: position{line: 2884, col: 8, offset: 90982},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2861, col: 12, offset: 90410},
+																															pos: position{line: 2871, col: 12, offset: 90755},
 																															run: (*parser).callonExtraListElement450,
 																															expr: &choiceExpr{
-																																pos: position{line: 2861, col: 13, offset: 90411},
+																																pos: position{line: 2871, col: 13, offset: 90756},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2861, col: 13, offset: 90411},
+																																		pos:        position{line: 2871, col: 13, offset: 90756},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2861, col: 20, offset: 90418},
+																																		pos:        position{line: 2871, col: 20, offset: 90763},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2861, col: 29, offset: 90427},
+																																		pos:        position{line: 2871, col: 29, offset: 90772},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -27456,9 +27520,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2871, col: 8, offset: 90587},
+																															pos: position{line: 2881, col: 8, offset: 90932},
 																															expr: &anyMatcher{
-																																line: 2871, col: 9, offset: 90588,
+																																line: 2881, col: 9, offset: 90933,
 																															},
 																														},
 																													},
@@ -27471,18 +27535,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1687, col: 9, offset: 54524},
+																						pos: position{line: 1687, col: 9, offset: 54660},
 																						run: (*parser).callonExtraListElement457,
 																						expr: &seqExpr{
-																							pos: position{line: 1687, col: 9, offset: 54524},
+																							pos: position{line: 1687, col: 9, offset: 54660},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2856, col: 11, offset: 90300},
+																									pos: position{line: 2866, col: 11, offset: 90645},
 																									run: (*parser).callonExtraListElement459,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2856, col: 11, offset: 90300},
+																										pos: position{line: 2866, col: 11, offset: 90645},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2856, col: 11, offset: 90300},
+																											pos:        position{line: 2866, col: 11, offset: 90645},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27491,15 +27555,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1688, col: 9, offset: 54597},
+																									pos:   position{line: 1688, col: 9, offset: 54733},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1688, col: 18, offset: 54606},
+																										pos: position{line: 1688, col: 18, offset: 54742},
 																										run: (*parser).callonExtraListElement463,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1688, col: 18, offset: 54606},
+																											pos: position{line: 1688, col: 18, offset: 54742},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1688, col: 18, offset: 54606},
+																												pos:        position{line: 1688, col: 18, offset: 54742},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -27509,28 +27573,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2874, col: 8, offset: 90637},
+																									pos: position{line: 2884, col: 8, offset: 90982},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2861, col: 12, offset: 90410},
+																											pos: position{line: 2871, col: 12, offset: 90755},
 																											run: (*parser).callonExtraListElement467,
 																											expr: &choiceExpr{
-																												pos: position{line: 2861, col: 13, offset: 90411},
+																												pos: position{line: 2871, col: 13, offset: 90756},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 13, offset: 90411},
+																														pos:        position{line: 2871, col: 13, offset: 90756},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 20, offset: 90418},
+																														pos:        position{line: 2871, col: 20, offset: 90763},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 29, offset: 90427},
+																														pos:        position{line: 2871, col: 29, offset: 90772},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27539,9 +27603,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2871, col: 8, offset: 90587},
+																											pos: position{line: 2881, col: 8, offset: 90932},
 																											expr: &anyMatcher{
-																												line: 2871, col: 9, offset: 90588,
+																												line: 2881, col: 9, offset: 90933,
 																											},
 																										},
 																									},
@@ -27562,40 +27626,40 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1497, col: 11, offset: 48522},
+										pos:  position{line: 1497, col: 11, offset: 48658},
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2462, col: 22, offset: 79217},
+										pos: position{line: 2472, col: 22, offset: 79562},
 										run: (*parser).callonExtraListElement475,
 										expr: &seqExpr{
-											pos: position{line: 2462, col: 22, offset: 79217},
+											pos: position{line: 2472, col: 22, offset: 79562},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2467, col: 31, offset: 79438},
+													pos:        position{line: 2477, col: 31, offset: 79783},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2467, col: 36, offset: 79443},
+													pos: position{line: 2477, col: 36, offset: 79788},
 													expr: &litMatcher{
-														pos:        position{line: 2467, col: 37, offset: 79444},
+														pos:        position{line: 2477, col: 37, offset: 79789},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2462, col: 49, offset: 79244},
+													pos:   position{line: 2472, col: 49, offset: 79589},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2798, col: 13, offset: 88765},
+														pos: position{line: 2808, col: 13, offset: 89110},
 														run: (*parser).callonExtraListElement481,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2798, col: 13, offset: 88765},
+															pos: position{line: 2808, col: 13, offset: 89110},
 															expr: &charClassMatcher{
-																pos:        position{line: 2798, col: 13, offset: 88765},
+																pos:        position{line: 2808, col: 13, offset: 89110},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -27605,28 +27669,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2884, col: 8, offset: 90982},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2871, col: 12, offset: 90755},
 															run: (*parser).callonExtraListElement485,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2871, col: 13, offset: 90756},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2871, col: 13, offset: 90756},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2871, col: 20, offset: 90763},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2871, col: 29, offset: 90772},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -27635,9 +27699,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2881, col: 8, offset: 90932},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2881, col: 9, offset: 90933,
 															},
 														},
 													},
@@ -27646,32 +27710,32 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1505, col: 5, offset: 48800},
+										pos: position{line: 1505, col: 5, offset: 48936},
 										run: (*parser).callonExtraListElement492,
 										expr: &seqExpr{
-											pos: position{line: 1505, col: 5, offset: 48800},
+											pos: position{line: 1505, col: 5, offset: 48936},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 1505, col: 5, offset: 48800},
+													pos: position{line: 1505, col: 5, offset: 48936},
 													expr: &actionExpr{
-														pos: position{line: 677, col: 14, offset: 21489},
+														pos: position{line: 677, col: 14, offset: 21557},
 														run: (*parser).callonExtraListElement495,
 														expr: &seqExpr{
-															pos: position{line: 677, col: 14, offset: 21489},
+															pos: position{line: 677, col: 14, offset: 21557},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2869, col: 11, offset: 90573},
+																	pos: position{line: 2879, col: 11, offset: 90918},
 																	expr: &anyMatcher{
-																		line: 2869, col: 13, offset: 90575,
+																		line: 2879, col: 13, offset: 90920,
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 677, col: 21, offset: 21496},
+																	pos: position{line: 677, col: 21, offset: 21564},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2862, col: 10, offset: 90584},
 																		run: (*parser).callonExtraListElement500,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2862, col: 10, offset: 90584},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27680,28 +27744,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2884, col: 8, offset: 90982},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2871, col: 12, offset: 90755},
 																			run: (*parser).callonExtraListElement503,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2871, col: 13, offset: 90756},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2871, col: 13, offset: 90756},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2871, col: 20, offset: 90763},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2871, col: 29, offset: 90772},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -27710,9 +27774,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2881, col: 8, offset: 90932},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2881, col: 9, offset: 90933,
 																			},
 																		},
 																	},
@@ -27722,23 +27786,23 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1506, col: 5, offset: 48815},
+													pos: position{line: 1506, col: 5, offset: 48951},
 													expr: &seqExpr{
-														pos: position{line: 1536, col: 27, offset: 49641},
+														pos: position{line: 1536, col: 27, offset: 49777},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 1536, col: 27, offset: 49641},
+																pos:        position{line: 1536, col: 27, offset: 49777},
 																val:        "+",
 																ignoreCase: false,
 																want:       "\"+\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 1536, col: 31, offset: 49645},
+																pos: position{line: 1536, col: 31, offset: 49781},
 																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
+																	pos: position{line: 2862, col: 10, offset: 90584},
 																	run: (*parser).callonExtraListElement514,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		pos:        position{line: 2862, col: 10, offset: 90584},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -27747,25 +27811,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
+																pos: position{line: 2871, col: 12, offset: 90755},
 																run: (*parser).callonExtraListElement516,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2871, col: 13, offset: 90756},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2871, col: 13, offset: 90756},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2871, col: 20, offset: 90763},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2871, col: 29, offset: 90772},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -27777,20 +27841,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1507, col: 5, offset: 48843},
+													pos: position{line: 1507, col: 5, offset: 48979},
 													expr: &actionExpr{
-														pos: position{line: 1577, col: 5, offset: 50860},
+														pos: position{line: 1577, col: 5, offset: 50996},
 														run: (*parser).callonExtraListElement522,
 														expr: &seqExpr{
-															pos: position{line: 1577, col: 5, offset: 50860},
+															pos: position{line: 1577, col: 5, offset: 50996},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1577, col: 5, offset: 50860},
+																	pos: position{line: 1577, col: 5, offset: 50996},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2862, col: 10, offset: 90584},
 																		run: (*parser).callonExtraListElement525,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2862, col: 10, offset: 90584},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27799,27 +27863,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1577, col: 12, offset: 50867},
+																	pos:   position{line: 1577, col: 12, offset: 51003},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1579, col: 9, offset: 50930},
+																		pos: position{line: 1579, col: 9, offset: 51066},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1579, col: 9, offset: 50930},
+																				pos: position{line: 1579, col: 9, offset: 51066},
 																				run: (*parser).callonExtraListElement529,
 																				expr: &seqExpr{
-																					pos: position{line: 1579, col: 9, offset: 50930},
+																					pos: position{line: 1579, col: 9, offset: 51066},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1579, col: 9, offset: 50930},
+																							pos:   position{line: 1579, col: 9, offset: 51066},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1579, col: 16, offset: 50937},
+																								pos: position{line: 1579, col: 16, offset: 51073},
 																								run: (*parser).callonExtraListElement532,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1579, col: 16, offset: 50937},
+																									pos: position{line: 1579, col: 16, offset: 51073},
 																									expr: &litMatcher{
-																										pos:        position{line: 1579, col: 17, offset: 50938},
+																										pos:        position{line: 1579, col: 17, offset: 51074},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -27828,22 +27892,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1583, col: 9, offset: 51038},
+																							pos: position{line: 1583, col: 9, offset: 51174},
 																							run: (*parser).callonExtraListElement535,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1602, col: 11, offset: 51755},
+																				pos: position{line: 1602, col: 11, offset: 51891},
 																				run: (*parser).callonExtraListElement536,
 																				expr: &seqExpr{
-																					pos: position{line: 1602, col: 11, offset: 51755},
+																					pos: position{line: 1602, col: 11, offset: 51891},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1602, col: 11, offset: 51755},
+																							pos: position{line: 1602, col: 11, offset: 51891},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1602, col: 12, offset: 51756},
+																								pos:        position{line: 1602, col: 12, offset: 51892},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -27851,7 +27915,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1602, col: 20, offset: 51764},
+																							pos:        position{line: 1602, col: 20, offset: 51900},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -27860,20 +27924,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1604, col: 13, offset: 51881},
+																				pos: position{line: 1604, col: 13, offset: 52017},
 																				run: (*parser).callonExtraListElement541,
 																				expr: &seqExpr{
-																					pos: position{line: 1604, col: 13, offset: 51881},
+																					pos: position{line: 1604, col: 13, offset: 52017},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1604, col: 14, offset: 51882},
+																							pos:        position{line: 1604, col: 14, offset: 52018},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1604, col: 21, offset: 51889},
+																							pos:        position{line: 1604, col: 21, offset: 52025},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -27882,20 +27946,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1606, col: 13, offset: 52009},
+																				pos: position{line: 1606, col: 13, offset: 52145},
 																				run: (*parser).callonExtraListElement545,
 																				expr: &seqExpr{
-																					pos: position{line: 1606, col: 13, offset: 52009},
+																					pos: position{line: 1606, col: 13, offset: 52145},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1606, col: 14, offset: 52010},
+																							pos:        position{line: 1606, col: 14, offset: 52146},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1606, col: 21, offset: 52017},
+																							pos:        position{line: 1606, col: 21, offset: 52153},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -27904,15 +27968,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1608, col: 13, offset: 52137},
+																				pos: position{line: 1608, col: 13, offset: 52273},
 																				run: (*parser).callonExtraListElement549,
 																				expr: &seqExpr{
-																					pos: position{line: 1608, col: 13, offset: 52137},
+																					pos: position{line: 1608, col: 13, offset: 52273},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1608, col: 13, offset: 52137},
+																							pos: position{line: 1608, col: 13, offset: 52273},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1608, col: 14, offset: 52138},
+																								pos:        position{line: 1608, col: 14, offset: 52274},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -27920,7 +27984,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1608, col: 26, offset: 52150},
+																							pos:        position{line: 1608, col: 26, offset: 52286},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -27929,15 +27993,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1610, col: 13, offset: 52270},
+																				pos: position{line: 1610, col: 13, offset: 52406},
 																				run: (*parser).callonExtraListElement554,
 																				expr: &seqExpr{
-																					pos: position{line: 1610, col: 13, offset: 52270},
+																					pos: position{line: 1610, col: 13, offset: 52406},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1610, col: 13, offset: 52270},
+																							pos: position{line: 1610, col: 13, offset: 52406},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1610, col: 14, offset: 52271},
+																								pos:        position{line: 1610, col: 14, offset: 52407},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -27945,7 +28009,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1610, col: 26, offset: 52283},
+																							pos:        position{line: 1610, col: 26, offset: 52419},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -27957,12 +28021,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2856, col: 11, offset: 90300},
+																	pos: position{line: 2866, col: 11, offset: 90645},
 																	run: (*parser).callonExtraListElement559,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2866, col: 11, offset: 90645},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2856, col: 11, offset: 90300},
+																			pos:        position{line: 2866, col: 11, offset: 90645},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27975,20 +28039,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1508, col: 5, offset: 48873},
+													pos: position{line: 1508, col: 5, offset: 49009},
 													expr: &actionExpr{
-														pos: position{line: 1627, col: 5, offset: 52822},
+														pos: position{line: 1627, col: 5, offset: 52958},
 														run: (*parser).callonExtraListElement563,
 														expr: &seqExpr{
-															pos: position{line: 1627, col: 5, offset: 52822},
+															pos: position{line: 1627, col: 5, offset: 52958},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1627, col: 5, offset: 52822},
+																	pos: position{line: 1627, col: 5, offset: 52958},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2862, col: 10, offset: 90584},
 																		run: (*parser).callonExtraListElement566,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2862, col: 10, offset: 90584},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27997,24 +28061,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1628, col: 5, offset: 52834},
+																	pos:   position{line: 1628, col: 5, offset: 52970},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1629, col: 9, offset: 52850},
+																		pos: position{line: 1629, col: 9, offset: 52986},
 																		run: (*parser).callonExtraListElement569,
 																		expr: &choiceExpr{
-																			pos: position{line: 1629, col: 10, offset: 52851},
+																			pos: position{line: 1629, col: 10, offset: 52987},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1629, col: 11, offset: 52852},
+																					pos:        position{line: 1629, col: 11, offset: 52988},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1629, col: 18, offset: 52859},
+																					pos: position{line: 1629, col: 18, offset: 52995},
 																					expr: &litMatcher{
-																						pos:        position{line: 1629, col: 19, offset: 52860},
+																						pos:        position{line: 1629, col: 19, offset: 52996},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -28025,16 +28089,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1632, col: 7, offset: 52950},
+																	pos: position{line: 1632, col: 7, offset: 53086},
 																	run: (*parser).callonExtraListElement574,
 																},
 																&actionExpr{
-																	pos: position{line: 2856, col: 11, offset: 90300},
+																	pos: position{line: 2866, col: 11, offset: 90645},
 																	run: (*parser).callonExtraListElement575,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2866, col: 11, offset: 90645},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2856, col: 11, offset: 90300},
+																			pos:        position{line: 2866, col: 11, offset: 90645},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28047,29 +28111,29 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1509, col: 5, offset: 48905},
+													pos: position{line: 1509, col: 5, offset: 49041},
 													expr: &actionExpr{
-														pos: position{line: 1716, col: 5, offset: 55359},
+														pos: position{line: 1716, col: 5, offset: 55495},
 														run: (*parser).callonExtraListElement579,
 														expr: &seqExpr{
-															pos: position{line: 1716, col: 5, offset: 55359},
+															pos: position{line: 1716, col: 5, offset: 55495},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1716, col: 5, offset: 55359},
+																	pos:        position{line: 1716, col: 5, offset: 55495},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1716, col: 9, offset: 55363},
+																	pos:   position{line: 1716, col: 9, offset: 55499},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1716, col: 14, offset: 55368},
+																		pos: position{line: 1716, col: 14, offset: 55504},
 																		run: (*parser).callonExtraListElement583,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1716, col: 14, offset: 55368},
+																			pos: position{line: 1716, col: 14, offset: 55504},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1716, col: 14, offset: 55368},
+																				pos:        position{line: 1716, col: 14, offset: 55504},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -28079,18 +28143,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1716, col: 62, offset: 55416},
+																	pos:        position{line: 1716, col: 62, offset: 55552},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2856, col: 11, offset: 90300},
+																	pos: position{line: 2866, col: 11, offset: 90645},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2866, col: 11, offset: 90645},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2856, col: 11, offset: 90300},
+																			pos:        position{line: 2866, col: 11, offset: 90645},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28103,36 +28167,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1510, col: 5, offset: 48935},
+													pos: position{line: 1510, col: 5, offset: 49071},
 													expr: &seqExpr{
-														pos: position{line: 1510, col: 7, offset: 48937},
+														pos: position{line: 1510, col: 7, offset: 49073},
 														exprs: []interface{}{
 															&actionExpr{
-																pos: position{line: 1662, col: 5, offset: 53841},
+																pos: position{line: 1662, col: 5, offset: 53977},
 																run: (*parser).callonExtraListElement592,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 1662, col: 5, offset: 53841},
+																	pos: position{line: 1662, col: 5, offset: 53977},
 																	expr: &seqExpr{
-																		pos: position{line: 1662, col: 6, offset: 53842},
+																		pos: position{line: 1662, col: 6, offset: 53978},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1662, col: 6, offset: 53842},
+																				pos: position{line: 1662, col: 6, offset: 53978},
 																				expr: &actionExpr{
-																					pos: position{line: 1667, col: 5, offset: 53992},
+																					pos: position{line: 1667, col: 5, offset: 54128},
 																					run: (*parser).callonExtraListElement596,
 																					expr: &seqExpr{
-																						pos: position{line: 1667, col: 5, offset: 53992},
+																						pos: position{line: 1667, col: 5, offset: 54128},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1667, col: 5, offset: 53992},
+																								pos:   position{line: 1667, col: 5, offset: 54128},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1667, col: 16, offset: 54003},
+																									pos: position{line: 1667, col: 16, offset: 54139},
 																									run: (*parser).callonExtraListElement599,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1667, col: 16, offset: 54003},
+																										pos: position{line: 1667, col: 16, offset: 54139},
 																										expr: &litMatcher{
-																											pos:        position{line: 1667, col: 17, offset: 54004},
+																											pos:        position{line: 1667, col: 17, offset: 54140},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -28141,7 +28205,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1670, col: 5, offset: 54061},
+																								pos: position{line: 1670, col: 5, offset: 54197},
 																								run: (*parser).callonExtraListElement602,
 																							},
 																						},
@@ -28149,30 +28213,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1662, col: 35, offset: 53871},
+																				pos: position{line: 1662, col: 35, offset: 54007},
 																				expr: &choiceExpr{
-																					pos: position{line: 2874, col: 8, offset: 90637},
+																					pos: position{line: 2884, col: 8, offset: 90982},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2861, col: 12, offset: 90410},
+																							pos: position{line: 2871, col: 12, offset: 90755},
 																							run: (*parser).callonExtraListElement605,
 																							expr: &choiceExpr{
-																								pos: position{line: 2861, col: 13, offset: 90411},
+																								pos: position{line: 2871, col: 13, offset: 90756},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 13, offset: 90411},
+																										pos:        position{line: 2871, col: 13, offset: 90756},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 20, offset: 90418},
+																										pos:        position{line: 2871, col: 20, offset: 90763},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 29, offset: 90427},
+																										pos:        position{line: 2871, col: 29, offset: 90772},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -28181,37 +28245,37 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2871, col: 8, offset: 90587},
+																							pos: position{line: 2881, col: 8, offset: 90932},
 																							expr: &anyMatcher{
-																								line: 2871, col: 9, offset: 90588,
+																								line: 2881, col: 9, offset: 90933,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1662, col: 40, offset: 53876,
+																				line: 1662, col: 40, offset: 54012,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1667, col: 5, offset: 53992},
+																pos: position{line: 1667, col: 5, offset: 54128},
 																run: (*parser).callonExtraListElement613,
 																expr: &seqExpr{
-																	pos: position{line: 1667, col: 5, offset: 53992},
+																	pos: position{line: 1667, col: 5, offset: 54128},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1667, col: 5, offset: 53992},
+																			pos:   position{line: 1667, col: 5, offset: 54128},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1667, col: 16, offset: 54003},
+																				pos: position{line: 1667, col: 16, offset: 54139},
 																				run: (*parser).callonExtraListElement616,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1667, col: 16, offset: 54003},
+																					pos: position{line: 1667, col: 16, offset: 54139},
 																					expr: &litMatcher{
-																						pos:        position{line: 1667, col: 17, offset: 54004},
+																						pos:        position{line: 1667, col: 17, offset: 54140},
 																						val:        ":",
 																						ignoreCase: false,
 																						want:       "\":\"",
@@ -28220,7 +28284,7 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1670, col: 5, offset: 54061},
+																			pos: position{line: 1670, col: 5, offset: 54197},
 																			run: (*parser).callonExtraListElement619,
 																		},
 																	},
@@ -28230,17 +28294,17 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1511, col: 5, offset: 48993},
+													pos: position{line: 1511, col: 5, offset: 49129},
 													expr: &actionExpr{
-														pos: position{line: 724, col: 5, offset: 23042},
+														pos: position{line: 724, col: 5, offset: 23110},
 														run: (*parser).callonExtraListElement621,
 														expr: &seqExpr{
-															pos: position{line: 724, col: 5, offset: 23042},
+															pos: position{line: 724, col: 5, offset: 23110},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 724, col: 5, offset: 23042},
+																	pos: position{line: 724, col: 5, offset: 23110},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2742, col: 13, offset: 87334},
+																		pos:        position{line: 2752, col: 13, offset: 87679},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -28248,36 +28312,36 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 725, col: 5, offset: 23072},
+																	pos:   position{line: 725, col: 5, offset: 23140},
 																	label: "delimiter",
 																	expr: &choiceExpr{
-																		pos: position{line: 726, col: 9, offset: 23092},
+																		pos: position{line: 726, col: 9, offset: 23160},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 740, col: 5, offset: 23584},
+																				pos: position{line: 740, col: 5, offset: 23652},
 																				run: (*parser).callonExtraListElement627,
 																				expr: &seqExpr{
-																					pos: position{line: 740, col: 5, offset: 23584},
+																					pos: position{line: 740, col: 5, offset: 23652},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 740, col: 5, offset: 23584},
+																							pos:   position{line: 740, col: 5, offset: 23652},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 740, col: 16, offset: 23595},
+																								pos: position{line: 740, col: 16, offset: 23663},
 																								run: (*parser).callonExtraListElement630,
 																								expr: &seqExpr{
-																									pos: position{line: 740, col: 16, offset: 23595},
+																									pos: position{line: 740, col: 16, offset: 23663},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 740, col: 16, offset: 23595},
+																											pos:        position{line: 740, col: 16, offset: 23663},
 																											val:        "////",
 																											ignoreCase: false,
 																											want:       "\"////\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 740, col: 23, offset: 23602},
+																											pos: position{line: 740, col: 23, offset: 23670},
 																											expr: &litMatcher{
-																												pos:        position{line: 740, col: 23, offset: 23602},
+																												pos:        position{line: 740, col: 23, offset: 23670},
 																												val:        "/",
 																												ignoreCase: false,
 																												want:       "\"/\"",
@@ -28288,12 +28352,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 742, col: 8, offset: 23686},
+																							pos: position{line: 742, col: 8, offset: 23754},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2862, col: 10, offset: 90584},
 																								run: (*parser).callonExtraListElement636,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2862, col: 10, offset: 90584},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28302,28 +28366,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2884, col: 8, offset: 90982},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2871, col: 12, offset: 90755},
 																									run: (*parser).callonExtraListElement639,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2871, col: 13, offset: 90756},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2871, col: 13, offset: 90756},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2871, col: 20, offset: 90763},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2871, col: 29, offset: 90772},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28332,9 +28396,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2881, col: 8, offset: 90932},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2881, col: 9, offset: 90933,
 																									},
 																								},
 																							},
@@ -28343,30 +28407,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 747, col: 5, offset: 23832},
+																				pos: position{line: 747, col: 5, offset: 23900},
 																				run: (*parser).callonExtraListElement646,
 																				expr: &seqExpr{
-																					pos: position{line: 747, col: 5, offset: 23832},
+																					pos: position{line: 747, col: 5, offset: 23900},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 747, col: 5, offset: 23832},
+																							pos:   position{line: 747, col: 5, offset: 23900},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 747, col: 16, offset: 23843},
+																								pos: position{line: 747, col: 16, offset: 23911},
 																								run: (*parser).callonExtraListElement649,
 																								expr: &seqExpr{
-																									pos: position{line: 747, col: 16, offset: 23843},
+																									pos: position{line: 747, col: 16, offset: 23911},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 747, col: 16, offset: 23843},
+																											pos:        position{line: 747, col: 16, offset: 23911},
 																											val:        "====",
 																											ignoreCase: false,
 																											want:       "\"====\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 747, col: 23, offset: 23850},
+																											pos: position{line: 747, col: 23, offset: 23918},
 																											expr: &litMatcher{
-																												pos:        position{line: 747, col: 23, offset: 23850},
+																												pos:        position{line: 747, col: 23, offset: 23918},
 																												val:        "=",
 																												ignoreCase: false,
 																												want:       "\"=\"",
@@ -28377,12 +28441,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 749, col: 8, offset: 23934},
+																							pos: position{line: 749, col: 8, offset: 24002},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2862, col: 10, offset: 90584},
 																								run: (*parser).callonExtraListElement655,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2862, col: 10, offset: 90584},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28391,28 +28455,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2884, col: 8, offset: 90982},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2871, col: 12, offset: 90755},
 																									run: (*parser).callonExtraListElement658,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2871, col: 13, offset: 90756},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2871, col: 13, offset: 90756},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2871, col: 20, offset: 90763},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2871, col: 29, offset: 90772},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28421,9 +28485,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2881, col: 8, offset: 90932},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2881, col: 9, offset: 90933,
 																									},
 																								},
 																							},
@@ -28432,27 +28496,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 760, col: 26, offset: 24320},
+																				pos: position{line: 760, col: 26, offset: 24388},
 																				run: (*parser).callonExtraListElement665,
 																				expr: &seqExpr{
-																					pos: position{line: 760, col: 26, offset: 24320},
+																					pos: position{line: 760, col: 26, offset: 24388},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 760, col: 26, offset: 24320},
+																							pos:        position{line: 760, col: 26, offset: 24388},
 																							val:        "```",
 																							ignoreCase: false,
 																							want:       "\"```\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 760, col: 32, offset: 24326},
+																							pos:   position{line: 760, col: 32, offset: 24394},
 																							label: "language",
 																							expr: &actionExpr{
-																								pos: position{line: 764, col: 13, offset: 24456},
+																								pos: position{line: 764, col: 13, offset: 24524},
 																								run: (*parser).callonExtraListElement669,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 764, col: 14, offset: 24457},
+																									pos: position{line: 764, col: 14, offset: 24525},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 764, col: 14, offset: 24457},
+																										pos:        position{line: 764, col: 14, offset: 24525},
 																										val:        "[^\\r\\n`\\t ]",
 																										chars:      []rune{'\r', '\n', '`', '\t', ' '},
 																										ignoreCase: false,
@@ -28462,12 +28526,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 760, col: 52, offset: 24346},
+																							pos: position{line: 760, col: 52, offset: 24414},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2862, col: 10, offset: 90584},
 																								run: (*parser).callonExtraListElement673,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2862, col: 10, offset: 90584},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28476,28 +28540,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2884, col: 8, offset: 90982},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2871, col: 12, offset: 90755},
 																									run: (*parser).callonExtraListElement676,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2871, col: 13, offset: 90756},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2871, col: 13, offset: 90756},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2871, col: 20, offset: 90763},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2871, col: 29, offset: 90772},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28506,9 +28570,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2881, col: 8, offset: 90932},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2881, col: 9, offset: 90933,
 																									},
 																								},
 																							},
@@ -28517,30 +28581,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 754, col: 5, offset: 24079},
+																				pos: position{line: 754, col: 5, offset: 24147},
 																				run: (*parser).callonExtraListElement683,
 																				expr: &seqExpr{
-																					pos: position{line: 754, col: 5, offset: 24079},
+																					pos: position{line: 754, col: 5, offset: 24147},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 754, col: 5, offset: 24079},
+																							pos:   position{line: 754, col: 5, offset: 24147},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 754, col: 16, offset: 24090},
+																								pos: position{line: 754, col: 16, offset: 24158},
 																								run: (*parser).callonExtraListElement686,
 																								expr: &seqExpr{
-																									pos: position{line: 754, col: 16, offset: 24090},
+																									pos: position{line: 754, col: 16, offset: 24158},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 754, col: 16, offset: 24090},
+																											pos:        position{line: 754, col: 16, offset: 24158},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 754, col: 22, offset: 24096},
+																											pos: position{line: 754, col: 22, offset: 24164},
 																											expr: &litMatcher{
-																												pos:        position{line: 754, col: 22, offset: 24096},
+																												pos:        position{line: 754, col: 22, offset: 24164},
 																												val:        "`",
 																												ignoreCase: false,
 																												want:       "\"`\"",
@@ -28551,12 +28615,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 756, col: 8, offset: 24180},
+																							pos: position{line: 756, col: 8, offset: 24248},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2862, col: 10, offset: 90584},
 																								run: (*parser).callonExtraListElement692,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2862, col: 10, offset: 90584},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28565,28 +28629,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2884, col: 8, offset: 90982},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2871, col: 12, offset: 90755},
 																									run: (*parser).callonExtraListElement695,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2871, col: 13, offset: 90756},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2871, col: 13, offset: 90756},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2871, col: 20, offset: 90763},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2871, col: 29, offset: 90772},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28595,9 +28659,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2881, col: 8, offset: 90932},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2881, col: 9, offset: 90933,
 																									},
 																								},
 																							},
@@ -28606,30 +28670,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 769, col: 5, offset: 24621},
+																				pos: position{line: 769, col: 5, offset: 24689},
 																				run: (*parser).callonExtraListElement702,
 																				expr: &seqExpr{
-																					pos: position{line: 769, col: 5, offset: 24621},
+																					pos: position{line: 769, col: 5, offset: 24689},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 769, col: 5, offset: 24621},
+																							pos:   position{line: 769, col: 5, offset: 24689},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 769, col: 16, offset: 24632},
+																								pos: position{line: 769, col: 16, offset: 24700},
 																								run: (*parser).callonExtraListElement705,
 																								expr: &seqExpr{
-																									pos: position{line: 769, col: 16, offset: 24632},
+																									pos: position{line: 769, col: 16, offset: 24700},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 769, col: 16, offset: 24632},
+																											pos:        position{line: 769, col: 16, offset: 24700},
 																											val:        "----",
 																											ignoreCase: false,
 																											want:       "\"----\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 769, col: 23, offset: 24639},
+																											pos: position{line: 769, col: 23, offset: 24707},
 																											expr: &litMatcher{
-																												pos:        position{line: 769, col: 23, offset: 24639},
+																												pos:        position{line: 769, col: 23, offset: 24707},
 																												val:        "-",
 																												ignoreCase: false,
 																												want:       "\"-\"",
@@ -28640,12 +28704,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 771, col: 8, offset: 24723},
+																							pos: position{line: 771, col: 8, offset: 24791},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2862, col: 10, offset: 90584},
 																								run: (*parser).callonExtraListElement711,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2862, col: 10, offset: 90584},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28654,28 +28718,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2884, col: 8, offset: 90982},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2871, col: 12, offset: 90755},
 																									run: (*parser).callonExtraListElement714,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2871, col: 13, offset: 90756},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2871, col: 13, offset: 90756},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2871, col: 20, offset: 90763},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2871, col: 29, offset: 90772},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28684,9 +28748,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2881, col: 8, offset: 90932},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2881, col: 9, offset: 90933,
 																									},
 																								},
 																							},
@@ -28695,30 +28759,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 783, col: 5, offset: 25097},
+																				pos: position{line: 783, col: 5, offset: 25165},
 																				run: (*parser).callonExtraListElement721,
 																				expr: &seqExpr{
-																					pos: position{line: 783, col: 5, offset: 25097},
+																					pos: position{line: 783, col: 5, offset: 25165},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 783, col: 5, offset: 25097},
+																							pos:   position{line: 783, col: 5, offset: 25165},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 783, col: 16, offset: 25108},
+																								pos: position{line: 783, col: 16, offset: 25176},
 																								run: (*parser).callonExtraListElement724,
 																								expr: &seqExpr{
-																									pos: position{line: 783, col: 16, offset: 25108},
+																									pos: position{line: 783, col: 16, offset: 25176},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 783, col: 16, offset: 25108},
+																											pos:        position{line: 783, col: 16, offset: 25176},
 																											val:        "....",
 																											ignoreCase: false,
 																											want:       "\"....\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 783, col: 23, offset: 25115},
+																											pos: position{line: 783, col: 23, offset: 25183},
 																											expr: &litMatcher{
-																												pos:        position{line: 783, col: 23, offset: 25115},
+																												pos:        position{line: 783, col: 23, offset: 25183},
 																												val:        ".",
 																												ignoreCase: false,
 																												want:       "\".\"",
@@ -28729,12 +28793,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 785, col: 8, offset: 25199},
+																							pos: position{line: 785, col: 8, offset: 25267},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2862, col: 10, offset: 90584},
 																								run: (*parser).callonExtraListElement730,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2862, col: 10, offset: 90584},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28743,28 +28807,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2884, col: 8, offset: 90982},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2871, col: 12, offset: 90755},
 																									run: (*parser).callonExtraListElement733,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2871, col: 13, offset: 90756},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2871, col: 13, offset: 90756},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2871, col: 20, offset: 90763},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2871, col: 29, offset: 90772},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28773,9 +28837,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2881, col: 8, offset: 90932},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2881, col: 9, offset: 90933,
 																									},
 																								},
 																							},
@@ -28784,30 +28848,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 790, col: 5, offset: 25349},
+																				pos: position{line: 790, col: 5, offset: 25417},
 																				run: (*parser).callonExtraListElement740,
 																				expr: &seqExpr{
-																					pos: position{line: 790, col: 5, offset: 25349},
+																					pos: position{line: 790, col: 5, offset: 25417},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 790, col: 5, offset: 25349},
+																							pos:   position{line: 790, col: 5, offset: 25417},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 790, col: 16, offset: 25360},
+																								pos: position{line: 790, col: 16, offset: 25428},
 																								run: (*parser).callonExtraListElement743,
 																								expr: &seqExpr{
-																									pos: position{line: 790, col: 16, offset: 25360},
+																									pos: position{line: 790, col: 16, offset: 25428},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 790, col: 16, offset: 25360},
+																											pos:        position{line: 790, col: 16, offset: 25428},
 																											val:        "++++",
 																											ignoreCase: false,
 																											want:       "\"++++\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 790, col: 23, offset: 25367},
+																											pos: position{line: 790, col: 23, offset: 25435},
 																											expr: &litMatcher{
-																												pos:        position{line: 790, col: 23, offset: 25367},
+																												pos:        position{line: 790, col: 23, offset: 25435},
 																												val:        "+",
 																												ignoreCase: false,
 																												want:       "\"+\"",
@@ -28818,12 +28882,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 792, col: 8, offset: 25451},
+																							pos: position{line: 792, col: 8, offset: 25519},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2862, col: 10, offset: 90584},
 																								run: (*parser).callonExtraListElement749,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2862, col: 10, offset: 90584},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28832,28 +28896,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2884, col: 8, offset: 90982},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2871, col: 12, offset: 90755},
 																									run: (*parser).callonExtraListElement752,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2871, col: 13, offset: 90756},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2871, col: 13, offset: 90756},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2871, col: 20, offset: 90763},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2871, col: 29, offset: 90772},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28862,9 +28926,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2881, col: 8, offset: 90932},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2881, col: 9, offset: 90933,
 																									},
 																								},
 																							},
@@ -28873,30 +28937,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 797, col: 5, offset: 25599},
+																				pos: position{line: 797, col: 5, offset: 25667},
 																				run: (*parser).callonExtraListElement759,
 																				expr: &seqExpr{
-																					pos: position{line: 797, col: 5, offset: 25599},
+																					pos: position{line: 797, col: 5, offset: 25667},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 797, col: 5, offset: 25599},
+																							pos:   position{line: 797, col: 5, offset: 25667},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 797, col: 16, offset: 25610},
+																								pos: position{line: 797, col: 16, offset: 25678},
 																								run: (*parser).callonExtraListElement762,
 																								expr: &seqExpr{
-																									pos: position{line: 797, col: 16, offset: 25610},
+																									pos: position{line: 797, col: 16, offset: 25678},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 797, col: 16, offset: 25610},
+																											pos:        position{line: 797, col: 16, offset: 25678},
 																											val:        "____",
 																											ignoreCase: false,
 																											want:       "\"____\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 797, col: 23, offset: 25617},
+																											pos: position{line: 797, col: 23, offset: 25685},
 																											expr: &litMatcher{
-																												pos:        position{line: 797, col: 23, offset: 25617},
+																												pos:        position{line: 797, col: 23, offset: 25685},
 																												val:        "_",
 																												ignoreCase: false,
 																												want:       "\"_\"",
@@ -28907,12 +28971,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 799, col: 8, offset: 25701},
+																							pos: position{line: 799, col: 8, offset: 25769},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2862, col: 10, offset: 90584},
 																								run: (*parser).callonExtraListElement768,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2862, col: 10, offset: 90584},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28921,28 +28985,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2884, col: 8, offset: 90982},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2871, col: 12, offset: 90755},
 																									run: (*parser).callonExtraListElement771,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2871, col: 13, offset: 90756},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2871, col: 13, offset: 90756},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2871, col: 20, offset: 90763},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2871, col: 29, offset: 90772},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28951,9 +29015,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2881, col: 8, offset: 90932},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2881, col: 9, offset: 90933,
 																									},
 																								},
 																							},
@@ -28962,30 +29026,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 804, col: 5, offset: 25845},
+																				pos: position{line: 804, col: 5, offset: 25913},
 																				run: (*parser).callonExtraListElement778,
 																				expr: &seqExpr{
-																					pos: position{line: 804, col: 5, offset: 25845},
+																					pos: position{line: 804, col: 5, offset: 25913},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 804, col: 5, offset: 25845},
+																							pos:   position{line: 804, col: 5, offset: 25913},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 804, col: 16, offset: 25856},
+																								pos: position{line: 804, col: 16, offset: 25924},
 																								run: (*parser).callonExtraListElement781,
 																								expr: &seqExpr{
-																									pos: position{line: 804, col: 16, offset: 25856},
+																									pos: position{line: 804, col: 16, offset: 25924},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 804, col: 16, offset: 25856},
+																											pos:        position{line: 804, col: 16, offset: 25924},
 																											val:        "****",
 																											ignoreCase: false,
 																											want:       "\"****\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 804, col: 23, offset: 25863},
+																											pos: position{line: 804, col: 23, offset: 25931},
 																											expr: &litMatcher{
-																												pos:        position{line: 804, col: 23, offset: 25863},
+																												pos:        position{line: 804, col: 23, offset: 25931},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -28996,12 +29060,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 806, col: 8, offset: 25947},
+																							pos: position{line: 806, col: 8, offset: 26015},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2862, col: 10, offset: 90584},
 																								run: (*parser).callonExtraListElement787,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2862, col: 10, offset: 90584},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29010,28 +29074,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2884, col: 8, offset: 90982},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2871, col: 12, offset: 90755},
 																									run: (*parser).callonExtraListElement790,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2871, col: 13, offset: 90756},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2871, col: 13, offset: 90756},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2871, col: 20, offset: 90763},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2871, col: 29, offset: 90772},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29040,9 +29104,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2881, col: 8, offset: 90932},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2881, col: 9, offset: 90933,
 																									},
 																								},
 																							},
@@ -29058,15 +29122,15 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1512, col: 5, offset: 49013},
+													pos:   position{line: 1512, col: 5, offset: 49149},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2802, col: 14, offset: 88832},
+														pos: position{line: 2812, col: 14, offset: 89177},
 														run: (*parser).callonExtraListElement798,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2802, col: 14, offset: 88832},
+															pos: position{line: 2812, col: 14, offset: 89177},
 															expr: &charClassMatcher{
-																pos:        position{line: 2802, col: 14, offset: 88832},
+																pos:        position{line: 2812, col: 14, offset: 89177},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -29076,28 +29140,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2884, col: 8, offset: 90982},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2871, col: 12, offset: 90755},
 															run: (*parser).callonExtraListElement802,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2871, col: 13, offset: 90756},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2871, col: 13, offset: 90756},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2871, col: 20, offset: 90763},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2871, col: 29, offset: 90772},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -29106,9 +29170,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2881, col: 8, offset: 90932},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2881, col: 9, offset: 90933,
 															},
 														},
 													},
@@ -29125,28 +29189,28 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuation",
-			pos:  position{line: 1528, col: 1, offset: 49404},
+			pos:  position{line: 1528, col: 1, offset: 49540},
 			expr: &actionExpr{
-				pos: position{line: 1529, col: 5, offset: 49429},
+				pos: position{line: 1529, col: 5, offset: 49565},
 				run: (*parser).callonListContinuation1,
 				expr: &seqExpr{
-					pos: position{line: 1529, col: 5, offset: 49429},
+					pos: position{line: 1529, col: 5, offset: 49565},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1529, col: 5, offset: 49429},
+							pos:   position{line: 1529, col: 5, offset: 49565},
 							label: "offset",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1529, col: 12, offset: 49436},
+								pos: position{line: 1529, col: 12, offset: 49572},
 								expr: &seqExpr{
-									pos: position{line: 1529, col: 13, offset: 49437},
+									pos: position{line: 1529, col: 13, offset: 49573},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 1529, col: 13, offset: 49437},
+											pos: position{line: 1529, col: 13, offset: 49573},
 											expr: &actionExpr{
-												pos: position{line: 2852, col: 10, offset: 90239},
+												pos: position{line: 2862, col: 10, offset: 90584},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2852, col: 10, offset: 90239},
+													pos:        position{line: 2862, col: 10, offset: 90584},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -29155,25 +29219,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2861, col: 12, offset: 90410},
+											pos: position{line: 2871, col: 12, offset: 90755},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2861, col: 13, offset: 90411},
+												pos: position{line: 2871, col: 13, offset: 90756},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2861, col: 13, offset: 90411},
+														pos:        position{line: 2871, col: 13, offset: 90756},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2861, col: 20, offset: 90418},
+														pos:        position{line: 2871, col: 20, offset: 90763},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2861, col: 29, offset: 90427},
+														pos:        position{line: 2871, col: 29, offset: 90772},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -29186,18 +29250,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1536, col: 27, offset: 49641},
+							pos:        position{line: 1536, col: 27, offset: 49777},
 							val:        "+",
 							ignoreCase: false,
 							want:       "\"+\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1536, col: 31, offset: 49645},
+							pos: position{line: 1536, col: 31, offset: 49781},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2862, col: 10, offset: 90584},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2862, col: 10, offset: 90584},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -29206,25 +29270,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2861, col: 12, offset: 90410},
+							pos: position{line: 2871, col: 12, offset: 90755},
 							run: (*parser).callonListContinuation18,
 							expr: &choiceExpr{
-								pos: position{line: 2861, col: 13, offset: 90411},
+								pos: position{line: 2871, col: 13, offset: 90756},
 								alternatives: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2861, col: 13, offset: 90411},
+										pos:        position{line: 2871, col: 13, offset: 90756},
 										val:        "\n",
 										ignoreCase: false,
 										want:       "\"\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2861, col: 20, offset: 90418},
+										pos:        position{line: 2871, col: 20, offset: 90763},
 										val:        "\r\n",
 										ignoreCase: false,
 										want:       "\"\\r\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2861, col: 29, offset: 90427},
+										pos:        position{line: 2871, col: 29, offset: 90772},
 										val:        "\r",
 										ignoreCase: false,
 										want:       "\"\\r\"",
@@ -29233,12 +29297,12 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1531, col: 5, offset: 49486},
+							pos:   position{line: 1531, col: 5, offset: 49622},
 							label: "element",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1531, col: 13, offset: 49494},
+								pos: position{line: 1531, col: 13, offset: 49630},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1531, col: 13, offset: 49494},
+									pos:  position{line: 1531, col: 13, offset: 49630},
 									name: "ListContinuationElement",
 								},
 							},
@@ -29249,46 +29313,46 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuationElement",
-			pos:  position{line: 1538, col: 1, offset: 49661},
+			pos:  position{line: 1538, col: 1, offset: 49797},
 			expr: &actionExpr{
-				pos: position{line: 1539, col: 5, offset: 49732},
+				pos: position{line: 1539, col: 5, offset: 49868},
 				run: (*parser).callonListContinuationElement1,
 				expr: &seqExpr{
-					pos: position{line: 1539, col: 5, offset: 49732},
+					pos: position{line: 1539, col: 5, offset: 49868},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2869, col: 11, offset: 90573},
+							pos: position{line: 2879, col: 11, offset: 90918},
 							expr: &anyMatcher{
-								line: 2869, col: 13, offset: 90575,
+								line: 2879, col: 13, offset: 90920,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1540, col: 5, offset: 49760},
+							pos: position{line: 1540, col: 5, offset: 49896},
 							expr: &choiceExpr{
-								pos: position{line: 1477, col: 5, offset: 47718},
+								pos: position{line: 1477, col: 5, offset: 47854},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1570, col: 5, offset: 50652},
+										pos: position{line: 1570, col: 5, offset: 50788},
 										run: (*parser).callonListContinuationElement7,
 										expr: &seqExpr{
-											pos: position{line: 1570, col: 5, offset: 50652},
+											pos: position{line: 1570, col: 5, offset: 50788},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1570, col: 5, offset: 50652},
+													pos:   position{line: 1570, col: 5, offset: 50788},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1577, col: 5, offset: 50860},
+														pos: position{line: 1577, col: 5, offset: 50996},
 														run: (*parser).callonListContinuationElement10,
 														expr: &seqExpr{
-															pos: position{line: 1577, col: 5, offset: 50860},
+															pos: position{line: 1577, col: 5, offset: 50996},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1577, col: 5, offset: 50860},
+																	pos: position{line: 1577, col: 5, offset: 50996},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2862, col: 10, offset: 90584},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2862, col: 10, offset: 90584},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29297,27 +29361,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1577, col: 12, offset: 50867},
+																	pos:   position{line: 1577, col: 12, offset: 51003},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1579, col: 9, offset: 50930},
+																		pos: position{line: 1579, col: 9, offset: 51066},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1579, col: 9, offset: 50930},
+																				pos: position{line: 1579, col: 9, offset: 51066},
 																				run: (*parser).callonListContinuationElement17,
 																				expr: &seqExpr{
-																					pos: position{line: 1579, col: 9, offset: 50930},
+																					pos: position{line: 1579, col: 9, offset: 51066},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1579, col: 9, offset: 50930},
+																							pos:   position{line: 1579, col: 9, offset: 51066},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1579, col: 16, offset: 50937},
+																								pos: position{line: 1579, col: 16, offset: 51073},
 																								run: (*parser).callonListContinuationElement20,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1579, col: 16, offset: 50937},
+																									pos: position{line: 1579, col: 16, offset: 51073},
 																									expr: &litMatcher{
-																										pos:        position{line: 1579, col: 17, offset: 50938},
+																										pos:        position{line: 1579, col: 17, offset: 51074},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -29326,22 +29390,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1583, col: 9, offset: 51038},
+																							pos: position{line: 1583, col: 9, offset: 51174},
 																							run: (*parser).callonListContinuationElement23,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1602, col: 11, offset: 51755},
+																				pos: position{line: 1602, col: 11, offset: 51891},
 																				run: (*parser).callonListContinuationElement24,
 																				expr: &seqExpr{
-																					pos: position{line: 1602, col: 11, offset: 51755},
+																					pos: position{line: 1602, col: 11, offset: 51891},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1602, col: 11, offset: 51755},
+																							pos: position{line: 1602, col: 11, offset: 51891},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1602, col: 12, offset: 51756},
+																								pos:        position{line: 1602, col: 12, offset: 51892},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -29349,7 +29413,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1602, col: 20, offset: 51764},
+																							pos:        position{line: 1602, col: 20, offset: 51900},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29358,20 +29422,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1604, col: 13, offset: 51881},
+																				pos: position{line: 1604, col: 13, offset: 52017},
 																				run: (*parser).callonListContinuationElement29,
 																				expr: &seqExpr{
-																					pos: position{line: 1604, col: 13, offset: 51881},
+																					pos: position{line: 1604, col: 13, offset: 52017},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1604, col: 14, offset: 51882},
+																							pos:        position{line: 1604, col: 14, offset: 52018},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1604, col: 21, offset: 51889},
+																							pos:        position{line: 1604, col: 21, offset: 52025},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29380,20 +29444,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1606, col: 13, offset: 52009},
+																				pos: position{line: 1606, col: 13, offset: 52145},
 																				run: (*parser).callonListContinuationElement33,
 																				expr: &seqExpr{
-																					pos: position{line: 1606, col: 13, offset: 52009},
+																					pos: position{line: 1606, col: 13, offset: 52145},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1606, col: 14, offset: 52010},
+																							pos:        position{line: 1606, col: 14, offset: 52146},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1606, col: 21, offset: 52017},
+																							pos:        position{line: 1606, col: 21, offset: 52153},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29402,15 +29466,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1608, col: 13, offset: 52137},
+																				pos: position{line: 1608, col: 13, offset: 52273},
 																				run: (*parser).callonListContinuationElement37,
 																				expr: &seqExpr{
-																					pos: position{line: 1608, col: 13, offset: 52137},
+																					pos: position{line: 1608, col: 13, offset: 52273},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1608, col: 13, offset: 52137},
+																							pos: position{line: 1608, col: 13, offset: 52273},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1608, col: 14, offset: 52138},
+																								pos:        position{line: 1608, col: 14, offset: 52274},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -29418,7 +29482,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1608, col: 26, offset: 52150},
+																							pos:        position{line: 1608, col: 26, offset: 52286},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -29427,15 +29491,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1610, col: 13, offset: 52270},
+																				pos: position{line: 1610, col: 13, offset: 52406},
 																				run: (*parser).callonListContinuationElement42,
 																				expr: &seqExpr{
-																					pos: position{line: 1610, col: 13, offset: 52270},
+																					pos: position{line: 1610, col: 13, offset: 52406},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1610, col: 13, offset: 52270},
+																							pos: position{line: 1610, col: 13, offset: 52406},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1610, col: 14, offset: 52271},
+																								pos:        position{line: 1610, col: 14, offset: 52407},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -29443,7 +29507,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1610, col: 26, offset: 52283},
+																							pos:        position{line: 1610, col: 26, offset: 52419},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -29455,12 +29519,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2856, col: 11, offset: 90300},
+																	pos: position{line: 2866, col: 11, offset: 90645},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2866, col: 11, offset: 90645},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2856, col: 11, offset: 90300},
+																			pos:        position{line: 2866, col: 11, offset: 90645},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29473,26 +29537,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1571, col: 5, offset: 50691},
+													pos:   position{line: 1571, col: 5, offset: 50827},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1518, col: 5, offset: 49158},
+														pos: position{line: 1518, col: 5, offset: 49294},
 														run: (*parser).callonListContinuationElement51,
 														expr: &seqExpr{
-															pos: position{line: 1518, col: 5, offset: 49158},
+															pos: position{line: 1518, col: 5, offset: 49294},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1518, col: 5, offset: 49158},
+																	pos:   position{line: 1518, col: 5, offset: 49294},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1518, col: 14, offset: 49167},
+																		pos: position{line: 1518, col: 14, offset: 49303},
 																		expr: &actionExpr{
-																			pos: position{line: 1518, col: 15, offset: 49168},
+																			pos: position{line: 1518, col: 15, offset: 49304},
 																			run: (*parser).callonListContinuationElement55,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1518, col: 15, offset: 49168},
+																				pos: position{line: 1518, col: 15, offset: 49304},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1518, col: 15, offset: 49168},
+																					pos:        position{line: 1518, col: 15, offset: 49304},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -29503,28 +29567,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2884, col: 8, offset: 90982},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2871, col: 12, offset: 90755},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2871, col: 13, offset: 90756},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2871, col: 13, offset: 90756},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2871, col: 20, offset: 90763},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2871, col: 29, offset: 90772},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29533,9 +29597,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2881, col: 8, offset: 90932},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2881, col: 9, offset: 90933,
 																			},
 																		},
 																	},
@@ -29548,27 +29612,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1620, col: 5, offset: 52549},
+										pos: position{line: 1620, col: 5, offset: 52685},
 										run: (*parser).callonListContinuationElement66,
 										expr: &seqExpr{
-											pos: position{line: 1620, col: 5, offset: 52549},
+											pos: position{line: 1620, col: 5, offset: 52685},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1620, col: 5, offset: 52549},
+													pos:   position{line: 1620, col: 5, offset: 52685},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1627, col: 5, offset: 52822},
+														pos: position{line: 1627, col: 5, offset: 52958},
 														run: (*parser).callonListContinuationElement69,
 														expr: &seqExpr{
-															pos: position{line: 1627, col: 5, offset: 52822},
+															pos: position{line: 1627, col: 5, offset: 52958},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1627, col: 5, offset: 52822},
+																	pos: position{line: 1627, col: 5, offset: 52958},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2862, col: 10, offset: 90584},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2862, col: 10, offset: 90584},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29577,24 +29641,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1628, col: 5, offset: 52834},
+																	pos:   position{line: 1628, col: 5, offset: 52970},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1629, col: 9, offset: 52850},
+																		pos: position{line: 1629, col: 9, offset: 52986},
 																		run: (*parser).callonListContinuationElement75,
 																		expr: &choiceExpr{
-																			pos: position{line: 1629, col: 10, offset: 52851},
+																			pos: position{line: 1629, col: 10, offset: 52987},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1629, col: 11, offset: 52852},
+																					pos:        position{line: 1629, col: 11, offset: 52988},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1629, col: 18, offset: 52859},
+																					pos: position{line: 1629, col: 18, offset: 52995},
 																					expr: &litMatcher{
-																						pos:        position{line: 1629, col: 19, offset: 52860},
+																						pos:        position{line: 1629, col: 19, offset: 52996},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -29605,16 +29669,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1632, col: 7, offset: 52950},
+																	pos: position{line: 1632, col: 7, offset: 53086},
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2856, col: 11, offset: 90300},
+																	pos: position{line: 2866, col: 11, offset: 90645},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2866, col: 11, offset: 90645},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2856, col: 11, offset: 90300},
+																			pos:        position{line: 2866, col: 11, offset: 90645},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29627,56 +29691,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1621, col: 5, offset: 52590},
+													pos:   position{line: 1621, col: 5, offset: 52726},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1621, col: 16, offset: 52601},
+														pos: position{line: 1621, col: 16, offset: 52737},
 														expr: &actionExpr{
-															pos: position{line: 1642, col: 5, offset: 53215},
+															pos: position{line: 1642, col: 5, offset: 53351},
 															run: (*parser).callonListContinuationElement86,
 															expr: &seqExpr{
-																pos: position{line: 1642, col: 5, offset: 53215},
+																pos: position{line: 1642, col: 5, offset: 53351},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1642, col: 5, offset: 53215},
+																		pos: position{line: 1642, col: 5, offset: 53351},
 																		expr: &litMatcher{
-																			pos:        position{line: 1642, col: 6, offset: 53216},
+																			pos:        position{line: 1642, col: 6, offset: 53352},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1642, col: 10, offset: 53220},
+																		pos:   position{line: 1642, col: 10, offset: 53356},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1643, col: 7, offset: 53234},
+																			pos: position{line: 1643, col: 7, offset: 53370},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1643, col: 7, offset: 53234},
+																					pos: position{line: 1643, col: 7, offset: 53370},
 																					run: (*parser).callonListContinuationElement92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1643, col: 7, offset: 53234},
+																						pos:        position{line: 1643, col: 7, offset: 53370},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1644, col: 7, offset: 53279},
+																					pos: position{line: 1644, col: 7, offset: 53415},
 																					run: (*parser).callonListContinuationElement94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1644, col: 7, offset: 53279},
+																						pos:        position{line: 1644, col: 7, offset: 53415},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1645, col: 7, offset: 53322},
+																					pos: position{line: 1645, col: 7, offset: 53458},
 																					run: (*parser).callonListContinuationElement96,
 																					expr: &litMatcher{
-																						pos:        position{line: 1645, col: 7, offset: 53322},
+																						pos:        position{line: 1645, col: 7, offset: 53458},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -29686,12 +29750,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2866, col: 11, offset: 90645},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2856, col: 11, offset: 90300},
+																			pos: position{line: 2866, col: 11, offset: 90645},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2856, col: 11, offset: 90300},
+																				pos:        position{line: 2866, col: 11, offset: 90645},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -29705,26 +29769,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1622, col: 5, offset: 52640},
+													pos:   position{line: 1622, col: 5, offset: 52776},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1518, col: 5, offset: 49158},
+														pos: position{line: 1518, col: 5, offset: 49294},
 														run: (*parser).callonListContinuationElement102,
 														expr: &seqExpr{
-															pos: position{line: 1518, col: 5, offset: 49158},
+															pos: position{line: 1518, col: 5, offset: 49294},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1518, col: 5, offset: 49158},
+																	pos:   position{line: 1518, col: 5, offset: 49294},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1518, col: 14, offset: 49167},
+																		pos: position{line: 1518, col: 14, offset: 49303},
 																		expr: &actionExpr{
-																			pos: position{line: 1518, col: 15, offset: 49168},
+																			pos: position{line: 1518, col: 15, offset: 49304},
 																			run: (*parser).callonListContinuationElement106,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1518, col: 15, offset: 49168},
+																				pos: position{line: 1518, col: 15, offset: 49304},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1518, col: 15, offset: 49168},
+																					pos:        position{line: 1518, col: 15, offset: 49304},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -29735,28 +29799,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2884, col: 8, offset: 90982},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2871, col: 12, offset: 90755},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2871, col: 13, offset: 90756},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2871, col: 13, offset: 90756},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2871, col: 20, offset: 90763},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2871, col: 29, offset: 90772},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29765,9 +29829,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2881, col: 8, offset: 90932},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2881, col: 9, offset: 90933,
 																			},
 																		},
 																	},
@@ -29780,36 +29844,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1710, col: 5, offset: 55162},
+										pos: position{line: 1710, col: 5, offset: 55298},
 										run: (*parser).callonListContinuationElement117,
 										expr: &seqExpr{
-											pos: position{line: 1710, col: 5, offset: 55162},
+											pos: position{line: 1710, col: 5, offset: 55298},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1710, col: 5, offset: 55162},
+													pos:   position{line: 1710, col: 5, offset: 55298},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1716, col: 5, offset: 55359},
+														pos: position{line: 1716, col: 5, offset: 55495},
 														run: (*parser).callonListContinuationElement120,
 														expr: &seqExpr{
-															pos: position{line: 1716, col: 5, offset: 55359},
+															pos: position{line: 1716, col: 5, offset: 55495},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1716, col: 5, offset: 55359},
+																	pos:        position{line: 1716, col: 5, offset: 55495},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1716, col: 9, offset: 55363},
+																	pos:   position{line: 1716, col: 9, offset: 55499},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1716, col: 14, offset: 55368},
+																		pos: position{line: 1716, col: 14, offset: 55504},
 																		run: (*parser).callonListContinuationElement124,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1716, col: 14, offset: 55368},
+																			pos: position{line: 1716, col: 14, offset: 55504},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1716, col: 14, offset: 55368},
+																				pos:        position{line: 1716, col: 14, offset: 55504},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -29819,18 +29883,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1716, col: 62, offset: 55416},
+																	pos:        position{line: 1716, col: 62, offset: 55552},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2856, col: 11, offset: 90300},
+																	pos: position{line: 2866, col: 11, offset: 90645},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2866, col: 11, offset: 90645},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2856, col: 11, offset: 90300},
+																			pos:        position{line: 2866, col: 11, offset: 90645},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29843,26 +29907,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1711, col: 5, offset: 55198},
+													pos:   position{line: 1711, col: 5, offset: 55334},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1518, col: 5, offset: 49158},
+														pos: position{line: 1518, col: 5, offset: 49294},
 														run: (*parser).callonListContinuationElement132,
 														expr: &seqExpr{
-															pos: position{line: 1518, col: 5, offset: 49158},
+															pos: position{line: 1518, col: 5, offset: 49294},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1518, col: 5, offset: 49158},
+																	pos:   position{line: 1518, col: 5, offset: 49294},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1518, col: 14, offset: 49167},
+																		pos: position{line: 1518, col: 14, offset: 49303},
 																		expr: &actionExpr{
-																			pos: position{line: 1518, col: 15, offset: 49168},
+																			pos: position{line: 1518, col: 15, offset: 49304},
 																			run: (*parser).callonListContinuationElement136,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1518, col: 15, offset: 49168},
+																				pos: position{line: 1518, col: 15, offset: 49304},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1518, col: 15, offset: 49168},
+																					pos:        position{line: 1518, col: 15, offset: 49304},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -29873,28 +29937,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2884, col: 8, offset: 90982},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2871, col: 12, offset: 90755},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2871, col: 13, offset: 90756},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2871, col: 13, offset: 90756},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2871, col: 20, offset: 90763},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2871, col: 29, offset: 90772},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29903,9 +29967,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2881, col: 8, offset: 90932},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2881, col: 9, offset: 90933,
 																			},
 																		},
 																	},
@@ -29918,40 +29982,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1654, col: 5, offset: 53515},
+										pos: position{line: 1654, col: 5, offset: 53651},
 										run: (*parser).callonListContinuationElement147,
 										expr: &seqExpr{
-											pos: position{line: 1654, col: 5, offset: 53515},
+											pos: position{line: 1654, col: 5, offset: 53651},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1654, col: 5, offset: 53515},
+													pos:   position{line: 1654, col: 5, offset: 53651},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1662, col: 5, offset: 53841},
+														pos: position{line: 1662, col: 5, offset: 53977},
 														run: (*parser).callonListContinuationElement150,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1662, col: 5, offset: 53841},
+															pos: position{line: 1662, col: 5, offset: 53977},
 															expr: &seqExpr{
-																pos: position{line: 1662, col: 6, offset: 53842},
+																pos: position{line: 1662, col: 6, offset: 53978},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1662, col: 6, offset: 53842},
+																		pos: position{line: 1662, col: 6, offset: 53978},
 																		expr: &actionExpr{
-																			pos: position{line: 1667, col: 5, offset: 53992},
+																			pos: position{line: 1667, col: 5, offset: 54128},
 																			run: (*parser).callonListContinuationElement154,
 																			expr: &seqExpr{
-																				pos: position{line: 1667, col: 5, offset: 53992},
+																				pos: position{line: 1667, col: 5, offset: 54128},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 1667, col: 5, offset: 53992},
+																						pos:   position{line: 1667, col: 5, offset: 54128},
 																						label: "separator",
 																						expr: &actionExpr{
-																							pos: position{line: 1667, col: 16, offset: 54003},
+																							pos: position{line: 1667, col: 16, offset: 54139},
 																							run: (*parser).callonListContinuationElement157,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1667, col: 16, offset: 54003},
+																								pos: position{line: 1667, col: 16, offset: 54139},
 																								expr: &litMatcher{
-																									pos:        position{line: 1667, col: 17, offset: 54004},
+																									pos:        position{line: 1667, col: 17, offset: 54140},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
@@ -29960,7 +30024,7 @@ var g = &grammar{
 																						},
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1670, col: 5, offset: 54061},
+																						pos: position{line: 1670, col: 5, offset: 54197},
 																						run: (*parser).callonListContinuationElement160,
 																					},
 																				},
@@ -29968,30 +30032,30 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1662, col: 35, offset: 53871},
+																		pos: position{line: 1662, col: 35, offset: 54007},
 																		expr: &choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2884, col: 8, offset: 90982},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2871, col: 12, offset: 90755},
 																					run: (*parser).callonListContinuationElement163,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2871, col: 13, offset: 90756},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2871, col: 13, offset: 90756},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2871, col: 20, offset: 90763},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2871, col: 29, offset: 90772},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30000,16 +30064,16 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2881, col: 8, offset: 90932},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2881, col: 9, offset: 90933,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&anyMatcher{
-																		line: 1662, col: 40, offset: 53876,
+																		line: 1662, col: 40, offset: 54012,
 																	},
 																},
 															},
@@ -30017,24 +30081,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1655, col: 5, offset: 53550},
+													pos:   position{line: 1655, col: 5, offset: 53686},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1667, col: 5, offset: 53992},
+														pos: position{line: 1667, col: 5, offset: 54128},
 														run: (*parser).callonListContinuationElement172,
 														expr: &seqExpr{
-															pos: position{line: 1667, col: 5, offset: 53992},
+															pos: position{line: 1667, col: 5, offset: 54128},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1667, col: 5, offset: 53992},
+																	pos:   position{line: 1667, col: 5, offset: 54128},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1667, col: 16, offset: 54003},
+																		pos: position{line: 1667, col: 16, offset: 54139},
 																		run: (*parser).callonListContinuationElement175,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1667, col: 16, offset: 54003},
+																			pos: position{line: 1667, col: 16, offset: 54139},
 																			expr: &litMatcher{
-																				pos:        position{line: 1667, col: 17, offset: 54004},
+																				pos:        position{line: 1667, col: 17, offset: 54140},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -30043,7 +30107,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1670, col: 5, offset: 54061},
+																	pos: position{line: 1670, col: 5, offset: 54197},
 																	run: (*parser).callonListContinuationElement178,
 																},
 															},
@@ -30051,24 +30115,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1656, col: 5, offset: 53595},
+													pos:   position{line: 1656, col: 5, offset: 53731},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1678, col: 5, offset: 54310},
+														pos: position{line: 1678, col: 5, offset: 54446},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1680, col: 9, offset: 54376},
+																pos: position{line: 1680, col: 9, offset: 54512},
 																run: (*parser).callonListContinuationElement181,
 																expr: &seqExpr{
-																	pos: position{line: 1680, col: 9, offset: 54376},
+																	pos: position{line: 1680, col: 9, offset: 54512},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1680, col: 9, offset: 54376},
+																			pos: position{line: 1680, col: 9, offset: 54512},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2862, col: 10, offset: 90584},
 																				run: (*parser).callonListContinuationElement184,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2862, col: 10, offset: 90584},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30077,28 +30141,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2884, col: 8, offset: 90982},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2871, col: 12, offset: 90755},
 																					run: (*parser).callonListContinuationElement187,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2871, col: 13, offset: 90756},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2871, col: 13, offset: 90756},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2871, col: 20, offset: 90763},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2871, col: 29, offset: 90772},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30107,34 +30171,34 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2881, col: 8, offset: 90932},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2881, col: 9, offset: 90933,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1681, col: 9, offset: 54395},
+																			pos: position{line: 1681, col: 9, offset: 54531},
 																			expr: &actionExpr{
-																				pos: position{line: 677, col: 14, offset: 21489},
+																				pos: position{line: 677, col: 14, offset: 21557},
 																				run: (*parser).callonListContinuationElement195,
 																				expr: &seqExpr{
-																					pos: position{line: 677, col: 14, offset: 21489},
+																					pos: position{line: 677, col: 14, offset: 21557},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2879, col: 11, offset: 90918},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2879, col: 13, offset: 90920,
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 677, col: 21, offset: 21496},
+																							pos: position{line: 677, col: 21, offset: 21564},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2862, col: 10, offset: 90584},
 																								run: (*parser).callonListContinuationElement200,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2862, col: 10, offset: 90584},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30143,28 +30207,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2884, col: 8, offset: 90982},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2871, col: 12, offset: 90755},
 																									run: (*parser).callonListContinuationElement203,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2871, col: 13, offset: 90756},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2871, col: 13, offset: 90756},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2871, col: 20, offset: 90763},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2871, col: 29, offset: 90772},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30173,9 +30237,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2881, col: 8, offset: 90932},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2881, col: 9, offset: 90933,
 																									},
 																								},
 																							},
@@ -30188,18 +30252,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1687, col: 9, offset: 54524},
+																pos: position{line: 1687, col: 9, offset: 54660},
 																run: (*parser).callonListContinuationElement210,
 																expr: &seqExpr{
-																	pos: position{line: 1687, col: 9, offset: 54524},
+																	pos: position{line: 1687, col: 9, offset: 54660},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2856, col: 11, offset: 90300},
+																			pos: position{line: 2866, col: 11, offset: 90645},
 																			run: (*parser).callonListContinuationElement212,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2856, col: 11, offset: 90300},
+																				pos: position{line: 2866, col: 11, offset: 90645},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2856, col: 11, offset: 90300},
+																					pos:        position{line: 2866, col: 11, offset: 90645},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30208,15 +30272,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1688, col: 9, offset: 54597},
+																			pos:   position{line: 1688, col: 9, offset: 54733},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1688, col: 18, offset: 54606},
+																				pos: position{line: 1688, col: 18, offset: 54742},
 																				run: (*parser).callonListContinuationElement216,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1688, col: 18, offset: 54606},
+																					pos: position{line: 1688, col: 18, offset: 54742},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1688, col: 18, offset: 54606},
+																						pos:        position{line: 1688, col: 18, offset: 54742},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -30226,28 +30290,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2884, col: 8, offset: 90982},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2871, col: 12, offset: 90755},
 																					run: (*parser).callonListContinuationElement220,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2871, col: 13, offset: 90756},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2871, col: 13, offset: 90756},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2871, col: 20, offset: 90763},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2871, col: 29, offset: 90772},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30256,9 +30320,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2881, col: 8, offset: 90932},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2881, col: 9, offset: 90933,
 																					},
 																				},
 																			},
@@ -30276,41 +30340,41 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1541, col: 5, offset: 49777},
+							pos:   position{line: 1541, col: 5, offset: 49913},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1541, col: 16, offset: 49788},
+								pos: position{line: 1541, col: 16, offset: 49924},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1541, col: 17, offset: 49789},
+									pos:  position{line: 1541, col: 17, offset: 49925},
 									name: "BlockAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1542, col: 5, offset: 49811},
+							pos:   position{line: 1542, col: 5, offset: 49947},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1543, col: 9, offset: 49829},
+								pos: position{line: 1543, col: 9, offset: 49965},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 677, col: 14, offset: 21489},
+										pos: position{line: 677, col: 14, offset: 21557},
 										run: (*parser).callonListContinuationElement232,
 										expr: &seqExpr{
-											pos: position{line: 677, col: 14, offset: 21489},
+											pos: position{line: 677, col: 14, offset: 21557},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2869, col: 11, offset: 90573},
+													pos: position{line: 2879, col: 11, offset: 90918},
 													expr: &anyMatcher{
-														line: 2869, col: 13, offset: 90575,
+														line: 2879, col: 13, offset: 90920,
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 677, col: 21, offset: 21496},
+													pos: position{line: 677, col: 21, offset: 21564},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2862, col: 10, offset: 90584},
 														run: (*parser).callonListContinuationElement237,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2862, col: 10, offset: 90584},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30319,28 +30383,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2884, col: 8, offset: 90982},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2871, col: 12, offset: 90755},
 															run: (*parser).callonListContinuationElement240,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2871, col: 13, offset: 90756},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2871, col: 13, offset: 90756},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2871, col: 20, offset: 90763},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2871, col: 29, offset: 90772},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30349,9 +30413,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2881, col: 8, offset: 90932},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2881, col: 9, offset: 90933,
 															},
 														},
 													},
@@ -30360,7 +30424,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1544, col: 11, offset: 49849},
+										pos:  position{line: 1544, col: 11, offset: 49985},
 										name: "AttributeDeclaration",
 									},
 									&actionExpr{
@@ -30416,10 +30480,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 360, col: 49, offset: 10940},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2862, col: 10, offset: 90584},
 														run: (*parser).callonListContinuationElement259,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2862, col: 10, offset: 90584},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30428,28 +30492,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2884, col: 8, offset: 90982},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2871, col: 12, offset: 90755},
 															run: (*parser).callonListContinuationElement262,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2871, col: 13, offset: 90756},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2871, col: 13, offset: 90756},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2871, col: 20, offset: 90763},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2871, col: 29, offset: 90772},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30458,9 +30522,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2881, col: 8, offset: 90932},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2881, col: 9, offset: 90933,
 															},
 														},
 													},
@@ -30521,10 +30585,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 39, offset: 11061},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2862, col: 10, offset: 90584},
 														run: (*parser).callonListContinuationElement280,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2862, col: 10, offset: 90584},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30533,28 +30597,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2884, col: 8, offset: 90982},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2871, col: 12, offset: 90755},
 															run: (*parser).callonListContinuationElement283,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2871, col: 13, offset: 90756},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2871, col: 13, offset: 90756},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2871, col: 20, offset: 90763},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2871, col: 29, offset: 90772},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30563,9 +30627,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2881, col: 8, offset: 90932},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2881, col: 9, offset: 90933,
 															},
 														},
 													},
@@ -30574,36 +30638,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 820, col: 5, offset: 26329},
+										pos: position{line: 820, col: 5, offset: 26397},
 										run: (*parser).callonListContinuationElement290,
 										expr: &seqExpr{
-											pos: position{line: 820, col: 5, offset: 26329},
+											pos: position{line: 820, col: 5, offset: 26397},
 											exprs: []interface{}{
 												&actionExpr{
-													pos: position{line: 740, col: 5, offset: 23584},
+													pos: position{line: 740, col: 5, offset: 23652},
 													run: (*parser).callonListContinuationElement292,
 													expr: &seqExpr{
-														pos: position{line: 740, col: 5, offset: 23584},
+														pos: position{line: 740, col: 5, offset: 23652},
 														exprs: []interface{}{
 															&labeledExpr{
-																pos:   position{line: 740, col: 5, offset: 23584},
+																pos:   position{line: 740, col: 5, offset: 23652},
 																label: "delimiter",
 																expr: &actionExpr{
-																	pos: position{line: 740, col: 16, offset: 23595},
+																	pos: position{line: 740, col: 16, offset: 23663},
 																	run: (*parser).callonListContinuationElement295,
 																	expr: &seqExpr{
-																		pos: position{line: 740, col: 16, offset: 23595},
+																		pos: position{line: 740, col: 16, offset: 23663},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 740, col: 16, offset: 23595},
+																				pos:        position{line: 740, col: 16, offset: 23663},
 																				val:        "////",
 																				ignoreCase: false,
 																				want:       "\"////\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 740, col: 23, offset: 23602},
+																				pos: position{line: 740, col: 23, offset: 23670},
 																				expr: &litMatcher{
-																					pos:        position{line: 740, col: 23, offset: 23602},
+																					pos:        position{line: 740, col: 23, offset: 23670},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -30614,12 +30678,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 742, col: 8, offset: 23686},
+																pos: position{line: 742, col: 8, offset: 23754},
 																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
+																	pos: position{line: 2862, col: 10, offset: 90584},
 																	run: (*parser).callonListContinuationElement301,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		pos:        position{line: 2862, col: 10, offset: 90584},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -30628,28 +30692,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2874, col: 8, offset: 90637},
+																pos: position{line: 2884, col: 8, offset: 90982},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2861, col: 12, offset: 90410},
+																		pos: position{line: 2871, col: 12, offset: 90755},
 																		run: (*parser).callonListContinuationElement304,
 																		expr: &choiceExpr{
-																			pos: position{line: 2861, col: 13, offset: 90411},
+																			pos: position{line: 2871, col: 13, offset: 90756},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 13, offset: 90411},
+																					pos:        position{line: 2871, col: 13, offset: 90756},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 20, offset: 90418},
+																					pos:        position{line: 2871, col: 20, offset: 90763},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 29, offset: 90427},
+																					pos:        position{line: 2871, col: 29, offset: 90772},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -30658,9 +30722,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2881, col: 8, offset: 90932},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2881, col: 9, offset: 90933,
 																		},
 																	},
 																},
@@ -30669,46 +30733,46 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 821, col: 5, offset: 26360},
+													pos:   position{line: 821, col: 5, offset: 26428},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 831, col: 5, offset: 26646},
+														pos: position{line: 831, col: 5, offset: 26714},
 														expr: &actionExpr{
-															pos: position{line: 831, col: 6, offset: 26647},
+															pos: position{line: 831, col: 6, offset: 26715},
 															run: (*parser).callonListContinuationElement313,
 															expr: &seqExpr{
-																pos: position{line: 831, col: 6, offset: 26647},
+																pos: position{line: 831, col: 6, offset: 26715},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 831, col: 6, offset: 26647},
+																		pos: position{line: 831, col: 6, offset: 26715},
 																		expr: &choiceExpr{
-																			pos: position{line: 828, col: 29, offset: 26589},
+																			pos: position{line: 828, col: 29, offset: 26657},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 740, col: 5, offset: 23584},
+																					pos: position{line: 740, col: 5, offset: 23652},
 																					run: (*parser).callonListContinuationElement317,
 																					expr: &seqExpr{
-																						pos: position{line: 740, col: 5, offset: 23584},
+																						pos: position{line: 740, col: 5, offset: 23652},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 740, col: 5, offset: 23584},
+																								pos:   position{line: 740, col: 5, offset: 23652},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 740, col: 16, offset: 23595},
+																									pos: position{line: 740, col: 16, offset: 23663},
 																									run: (*parser).callonListContinuationElement320,
 																									expr: &seqExpr{
-																										pos: position{line: 740, col: 16, offset: 23595},
+																										pos: position{line: 740, col: 16, offset: 23663},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 740, col: 16, offset: 23595},
+																												pos:        position{line: 740, col: 16, offset: 23663},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 740, col: 23, offset: 23602},
+																												pos: position{line: 740, col: 23, offset: 23670},
 																												expr: &litMatcher{
-																													pos:        position{line: 740, col: 23, offset: 23602},
+																													pos:        position{line: 740, col: 23, offset: 23670},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -30719,12 +30783,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 742, col: 8, offset: 23686},
+																								pos: position{line: 742, col: 8, offset: 23754},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2862, col: 10, offset: 90584},
 																									run: (*parser).callonListContinuationElement326,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2862, col: 10, offset: 90584},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -30733,28 +30797,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
+																								pos: position{line: 2884, col: 8, offset: 90982},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
+																										pos: position{line: 2871, col: 12, offset: 90755},
 																										run: (*parser).callonListContinuationElement329,
 																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																											pos: position{line: 2871, col: 13, offset: 90756},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
+																													pos:        position{line: 2871, col: 13, offset: 90756},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
+																													pos:        position{line: 2871, col: 20, offset: 90763},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
+																													pos:        position{line: 2871, col: 29, offset: 90772},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -30763,9 +30827,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
+																										pos: position{line: 2881, col: 8, offset: 90932},
 																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																											line: 2881, col: 9, offset: 90933,
 																										},
 																									},
 																								},
@@ -30774,39 +30838,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2881, col: 8, offset: 90932},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2881, col: 9, offset: 90933,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 832, col: 5, offset: 26677},
+																		pos:   position{line: 832, col: 5, offset: 26745},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26093},
+																			pos: position{line: 811, col: 5, offset: 26161},
 																			run: (*parser).callonListContinuationElement339,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26093},
+																				pos: position{line: 811, col: 5, offset: 26161},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2879, col: 11, offset: 90918},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2879, col: 13, offset: 90920,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26168},
+																						pos:   position{line: 812, col: 5, offset: 26236},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2798, col: 13, offset: 88765},
+																							pos: position{line: 2808, col: 13, offset: 89110},
 																							run: (*parser).callonListContinuationElement344,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2808, col: 13, offset: 89110},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2798, col: 13, offset: 88765},
+																									pos:        position{line: 2808, col: 13, offset: 89110},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -30816,28 +30880,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2884, col: 8, offset: 90982},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2871, col: 12, offset: 90755},
 																								run: (*parser).callonListContinuationElement348,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2871, col: 13, offset: 90756},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2871, col: 13, offset: 90756},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2871, col: 20, offset: 90763},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2871, col: 29, offset: 90772},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -30846,9 +30910,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2881, col: 8, offset: 90932},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2881, col: 9, offset: 90933,
 																								},
 																							},
 																						},
@@ -30863,35 +30927,35 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 822, col: 5, offset: 26394},
+													pos: position{line: 822, col: 5, offset: 26462},
 													expr: &choiceExpr{
-														pos: position{line: 828, col: 29, offset: 26589},
+														pos: position{line: 828, col: 29, offset: 26657},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 740, col: 5, offset: 23584},
+																pos: position{line: 740, col: 5, offset: 23652},
 																run: (*parser).callonListContinuationElement357,
 																expr: &seqExpr{
-																	pos: position{line: 740, col: 5, offset: 23584},
+																	pos: position{line: 740, col: 5, offset: 23652},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 740, col: 5, offset: 23584},
+																			pos:   position{line: 740, col: 5, offset: 23652},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 740, col: 16, offset: 23595},
+																				pos: position{line: 740, col: 16, offset: 23663},
 																				run: (*parser).callonListContinuationElement360,
 																				expr: &seqExpr{
-																					pos: position{line: 740, col: 16, offset: 23595},
+																					pos: position{line: 740, col: 16, offset: 23663},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 740, col: 16, offset: 23595},
+																							pos:        position{line: 740, col: 16, offset: 23663},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 740, col: 23, offset: 23602},
+																							pos: position{line: 740, col: 23, offset: 23670},
 																							expr: &litMatcher{
-																								pos:        position{line: 740, col: 23, offset: 23602},
+																								pos:        position{line: 740, col: 23, offset: 23670},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -30902,12 +30966,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 742, col: 8, offset: 23686},
+																			pos: position{line: 742, col: 8, offset: 23754},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2862, col: 10, offset: 90584},
 																				run: (*parser).callonListContinuationElement366,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2862, col: 10, offset: 90584},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30916,28 +30980,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2884, col: 8, offset: 90982},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2871, col: 12, offset: 90755},
 																					run: (*parser).callonListContinuationElement369,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2871, col: 13, offset: 90756},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2871, col: 13, offset: 90756},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2871, col: 20, offset: 90763},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2871, col: 29, offset: 90772},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30946,9 +31010,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2881, col: 8, offset: 90932},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2881, col: 9, offset: 90933,
 																					},
 																				},
 																			},
@@ -30957,9 +31021,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2881, col: 8, offset: 90932},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2881, col: 9, offset: 90933,
 																},
 															},
 														},
@@ -30969,39 +31033,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 840, col: 5, offset: 26830},
+										pos: position{line: 840, col: 5, offset: 26898},
 										run: (*parser).callonListContinuationElement378,
 										expr: &seqExpr{
-											pos: position{line: 840, col: 5, offset: 26830},
+											pos: position{line: 840, col: 5, offset: 26898},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 840, col: 5, offset: 26830},
+													pos:   position{line: 840, col: 5, offset: 26898},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 747, col: 5, offset: 23832},
+														pos: position{line: 747, col: 5, offset: 23900},
 														run: (*parser).callonListContinuationElement381,
 														expr: &seqExpr{
-															pos: position{line: 747, col: 5, offset: 23832},
+															pos: position{line: 747, col: 5, offset: 23900},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 747, col: 5, offset: 23832},
+																	pos:   position{line: 747, col: 5, offset: 23900},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 747, col: 16, offset: 23843},
+																		pos: position{line: 747, col: 16, offset: 23911},
 																		run: (*parser).callonListContinuationElement384,
 																		expr: &seqExpr{
-																			pos: position{line: 747, col: 16, offset: 23843},
+																			pos: position{line: 747, col: 16, offset: 23911},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 747, col: 16, offset: 23843},
+																					pos:        position{line: 747, col: 16, offset: 23911},
 																					val:        "====",
 																					ignoreCase: false,
 																					want:       "\"====\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 747, col: 23, offset: 23850},
+																					pos: position{line: 747, col: 23, offset: 23918},
 																					expr: &litMatcher{
-																						pos:        position{line: 747, col: 23, offset: 23850},
+																						pos:        position{line: 747, col: 23, offset: 23918},
 																						val:        "=",
 																						ignoreCase: false,
 																						want:       "\"=\"",
@@ -31012,12 +31076,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 749, col: 8, offset: 23934},
+																	pos: position{line: 749, col: 8, offset: 24002},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2862, col: 10, offset: 90584},
 																		run: (*parser).callonListContinuationElement390,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2862, col: 10, offset: 90584},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31026,28 +31090,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2884, col: 8, offset: 90982},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2871, col: 12, offset: 90755},
 																			run: (*parser).callonListContinuationElement393,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2871, col: 13, offset: 90756},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2871, col: 13, offset: 90756},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2871, col: 20, offset: 90763},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2871, col: 29, offset: 90772},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31056,9 +31120,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2881, col: 8, offset: 90932},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2881, col: 9, offset: 90933,
 																			},
 																		},
 																	},
@@ -31068,56 +31132,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 841, col: 5, offset: 26869},
+													pos: position{line: 841, col: 5, offset: 26937},
 													run: (*parser).callonListContinuationElement400,
 												},
 												&labeledExpr{
-													pos:   position{line: 844, col: 5, offset: 26961},
+													pos:   position{line: 844, col: 5, offset: 27029},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 859, col: 4, offset: 27358},
+														pos: position{line: 859, col: 4, offset: 27426},
 														expr: &actionExpr{
-															pos: position{line: 859, col: 5, offset: 27359},
+															pos: position{line: 859, col: 5, offset: 27427},
 															run: (*parser).callonListContinuationElement403,
 															expr: &seqExpr{
-																pos: position{line: 859, col: 5, offset: 27359},
+																pos: position{line: 859, col: 5, offset: 27427},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 859, col: 5, offset: 27359},
+																		pos: position{line: 859, col: 5, offset: 27427},
 																		expr: &choiceExpr{
-																			pos: position{line: 852, col: 5, offset: 27201},
+																			pos: position{line: 852, col: 5, offset: 27269},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 852, col: 5, offset: 27201},
+																					pos: position{line: 852, col: 5, offset: 27269},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 852, col: 5, offset: 27201},
+																							pos:   position{line: 852, col: 5, offset: 27269},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 747, col: 5, offset: 23832},
+																								pos: position{line: 747, col: 5, offset: 23900},
 																								run: (*parser).callonListContinuationElement409,
 																								expr: &seqExpr{
-																									pos: position{line: 747, col: 5, offset: 23832},
+																									pos: position{line: 747, col: 5, offset: 23900},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 747, col: 5, offset: 23832},
+																											pos:   position{line: 747, col: 5, offset: 23900},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 747, col: 16, offset: 23843},
+																												pos: position{line: 747, col: 16, offset: 23911},
 																												run: (*parser).callonListContinuationElement412,
 																												expr: &seqExpr{
-																													pos: position{line: 747, col: 16, offset: 23843},
+																													pos: position{line: 747, col: 16, offset: 23911},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 747, col: 16, offset: 23843},
+																															pos:        position{line: 747, col: 16, offset: 23911},
 																															val:        "====",
 																															ignoreCase: false,
 																															want:       "\"====\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 747, col: 23, offset: 23850},
+																															pos: position{line: 747, col: 23, offset: 23918},
 																															expr: &litMatcher{
-																																pos:        position{line: 747, col: 23, offset: 23850},
+																																pos:        position{line: 747, col: 23, offset: 23918},
 																																val:        "=",
 																																ignoreCase: false,
 																																want:       "\"=\"",
@@ -31128,12 +31192,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 749, col: 8, offset: 23934},
+																											pos: position{line: 749, col: 8, offset: 24002},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
+																												pos: position{line: 2862, col: 10, offset: 90584},
 																												run: (*parser).callonListContinuationElement418,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2862, col: 10, offset: 90584},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31142,28 +31206,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2884, col: 8, offset: 90982},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
+																													pos: position{line: 2871, col: 12, offset: 90755},
 																													run: (*parser).callonListContinuationElement421,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2871, col: 13, offset: 90756},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2871, col: 13, offset: 90756},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2871, col: 20, offset: 90763},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2871, col: 29, offset: 90772},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31172,9 +31236,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2881, col: 8, offset: 90932},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2881, col: 9, offset: 90933,
 																													},
 																												},
 																											},
@@ -31184,45 +31248,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 853, col: 5, offset: 27232},
+																							pos: position{line: 853, col: 5, offset: 27300},
 																							run: (*parser).callonListContinuationElement428,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2881, col: 8, offset: 90932},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2881, col: 9, offset: 90933,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 860, col: 5, offset: 27389},
+																		pos:   position{line: 860, col: 5, offset: 27457},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26093},
+																			pos: position{line: 811, col: 5, offset: 26161},
 																			run: (*parser).callonListContinuationElement432,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26093},
+																				pos: position{line: 811, col: 5, offset: 26161},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2879, col: 11, offset: 90918},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2879, col: 13, offset: 90920,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26168},
+																						pos:   position{line: 812, col: 5, offset: 26236},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2798, col: 13, offset: 88765},
+																							pos: position{line: 2808, col: 13, offset: 89110},
 																							run: (*parser).callonListContinuationElement437,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2808, col: 13, offset: 89110},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2798, col: 13, offset: 88765},
+																									pos:        position{line: 2808, col: 13, offset: 89110},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31232,28 +31296,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2884, col: 8, offset: 90982},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2871, col: 12, offset: 90755},
 																								run: (*parser).callonListContinuationElement441,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2871, col: 13, offset: 90756},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2871, col: 13, offset: 90756},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2871, col: 20, offset: 90763},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2871, col: 29, offset: 90772},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31262,9 +31326,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2881, col: 8, offset: 90932},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2881, col: 9, offset: 90933,
 																								},
 																							},
 																						},
@@ -31279,44 +31343,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 845, col: 5, offset: 26995},
+													pos:   position{line: 845, col: 5, offset: 27063},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 845, col: 9, offset: 26999},
+														pos: position{line: 845, col: 9, offset: 27067},
 														expr: &choiceExpr{
-															pos: position{line: 852, col: 5, offset: 27201},
+															pos: position{line: 852, col: 5, offset: 27269},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 852, col: 5, offset: 27201},
+																	pos: position{line: 852, col: 5, offset: 27269},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 852, col: 5, offset: 27201},
+																			pos:   position{line: 852, col: 5, offset: 27269},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 747, col: 5, offset: 23832},
+																				pos: position{line: 747, col: 5, offset: 23900},
 																				run: (*parser).callonListContinuationElement453,
 																				expr: &seqExpr{
-																					pos: position{line: 747, col: 5, offset: 23832},
+																					pos: position{line: 747, col: 5, offset: 23900},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 747, col: 5, offset: 23832},
+																							pos:   position{line: 747, col: 5, offset: 23900},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 747, col: 16, offset: 23843},
+																								pos: position{line: 747, col: 16, offset: 23911},
 																								run: (*parser).callonListContinuationElement456,
 																								expr: &seqExpr{
-																									pos: position{line: 747, col: 16, offset: 23843},
+																									pos: position{line: 747, col: 16, offset: 23911},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 747, col: 16, offset: 23843},
+																											pos:        position{line: 747, col: 16, offset: 23911},
 																											val:        "====",
 																											ignoreCase: false,
 																											want:       "\"====\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 747, col: 23, offset: 23850},
+																											pos: position{line: 747, col: 23, offset: 23918},
 																											expr: &litMatcher{
-																												pos:        position{line: 747, col: 23, offset: 23850},
+																												pos:        position{line: 747, col: 23, offset: 23918},
 																												val:        "=",
 																												ignoreCase: false,
 																												want:       "\"=\"",
@@ -31327,12 +31391,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 749, col: 8, offset: 23934},
+																							pos: position{line: 749, col: 8, offset: 24002},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2862, col: 10, offset: 90584},
 																								run: (*parser).callonListContinuationElement462,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2862, col: 10, offset: 90584},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -31341,28 +31405,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2884, col: 8, offset: 90982},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2871, col: 12, offset: 90755},
 																									run: (*parser).callonListContinuationElement465,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2871, col: 13, offset: 90756},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2871, col: 13, offset: 90756},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2871, col: 20, offset: 90763},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2871, col: 29, offset: 90772},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -31371,9 +31435,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2881, col: 8, offset: 90932},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2881, col: 9, offset: 90933,
 																									},
 																								},
 																							},
@@ -31383,15 +31447,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 853, col: 5, offset: 27232},
+																			pos: position{line: 853, col: 5, offset: 27300},
 																			run: (*parser).callonListContinuationElement472,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2881, col: 8, offset: 90932},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2881, col: 9, offset: 90933,
 																	},
 																},
 															},
@@ -31402,36 +31466,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 952, col: 5, offset: 29681},
+										pos: position{line: 952, col: 5, offset: 29749},
 										run: (*parser).callonListContinuationElement475,
 										expr: &seqExpr{
-											pos: position{line: 952, col: 5, offset: 29681},
+											pos: position{line: 952, col: 5, offset: 29749},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 952, col: 5, offset: 29681},
+													pos:   position{line: 952, col: 5, offset: 29749},
 													label: "delimiter",
 													expr: &actionExpr{
-														pos: position{line: 760, col: 26, offset: 24320},
+														pos: position{line: 760, col: 26, offset: 24388},
 														run: (*parser).callonListContinuationElement478,
 														expr: &seqExpr{
-															pos: position{line: 760, col: 26, offset: 24320},
+															pos: position{line: 760, col: 26, offset: 24388},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 760, col: 26, offset: 24320},
+																	pos:        position{line: 760, col: 26, offset: 24388},
 																	val:        "```",
 																	ignoreCase: false,
 																	want:       "\"```\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 760, col: 32, offset: 24326},
+																	pos:   position{line: 760, col: 32, offset: 24394},
 																	label: "language",
 																	expr: &actionExpr{
-																		pos: position{line: 764, col: 13, offset: 24456},
+																		pos: position{line: 764, col: 13, offset: 24524},
 																		run: (*parser).callonListContinuationElement482,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 764, col: 14, offset: 24457},
+																			pos: position{line: 764, col: 14, offset: 24525},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 764, col: 14, offset: 24457},
+																				pos:        position{line: 764, col: 14, offset: 24525},
 																				val:        "[^\\r\\n`\\t ]",
 																				chars:      []rune{'\r', '\n', '`', '\t', ' '},
 																				ignoreCase: false,
@@ -31441,12 +31505,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 760, col: 52, offset: 24346},
+																	pos: position{line: 760, col: 52, offset: 24414},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2862, col: 10, offset: 90584},
 																		run: (*parser).callonListContinuationElement486,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2862, col: 10, offset: 90584},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31455,28 +31519,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2884, col: 8, offset: 90982},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2871, col: 12, offset: 90755},
 																			run: (*parser).callonListContinuationElement489,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2871, col: 13, offset: 90756},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2871, col: 13, offset: 90756},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2871, col: 20, offset: 90763},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2871, col: 29, offset: 90772},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31485,9 +31549,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2881, col: 8, offset: 90932},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2881, col: 9, offset: 90933,
 																			},
 																		},
 																	},
@@ -31497,34 +31561,34 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 953, col: 5, offset: 29727},
+													pos:   position{line: 953, col: 5, offset: 29795},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 966, col: 5, offset: 30200},
+														pos: position{line: 966, col: 5, offset: 30268},
 														expr: &actionExpr{
-															pos: position{line: 966, col: 6, offset: 30201},
+															pos: position{line: 966, col: 6, offset: 30269},
 															run: (*parser).callonListContinuationElement498,
 															expr: &seqExpr{
-																pos: position{line: 966, col: 6, offset: 30201},
+																pos: position{line: 966, col: 6, offset: 30269},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 966, col: 6, offset: 30201},
+																		pos: position{line: 966, col: 6, offset: 30269},
 																		expr: &seqExpr{
-																			pos: position{line: 963, col: 34, offset: 30148},
+																			pos: position{line: 963, col: 34, offset: 30216},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 963, col: 34, offset: 30148},
+																					pos:        position{line: 963, col: 34, offset: 30216},
 																					val:        "```",
 																					ignoreCase: false,
 																					want:       "\"```\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 963, col: 40, offset: 30154},
+																					pos: position{line: 963, col: 40, offset: 30222},
 																					expr: &actionExpr{
-																						pos: position{line: 2852, col: 10, offset: 90239},
+																						pos: position{line: 2862, col: 10, offset: 90584},
 																						run: (*parser).callonListContinuationElement504,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2852, col: 10, offset: 90239},
+																							pos:        position{line: 2862, col: 10, offset: 90584},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -31533,28 +31597,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2874, col: 8, offset: 90637},
+																					pos: position{line: 2884, col: 8, offset: 90982},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2861, col: 12, offset: 90410},
+																							pos: position{line: 2871, col: 12, offset: 90755},
 																							run: (*parser).callonListContinuationElement507,
 																							expr: &choiceExpr{
-																								pos: position{line: 2861, col: 13, offset: 90411},
+																								pos: position{line: 2871, col: 13, offset: 90756},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 13, offset: 90411},
+																										pos:        position{line: 2871, col: 13, offset: 90756},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 20, offset: 90418},
+																										pos:        position{line: 2871, col: 20, offset: 90763},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 29, offset: 90427},
+																										pos:        position{line: 2871, col: 29, offset: 90772},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -31563,9 +31627,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2871, col: 8, offset: 90587},
+																							pos: position{line: 2881, col: 8, offset: 90932},
 																							expr: &anyMatcher{
-																								line: 2871, col: 9, offset: 90588,
+																								line: 2881, col: 9, offset: 90933,
 																							},
 																						},
 																					},
@@ -31574,30 +31638,30 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 967, col: 5, offset: 30236},
+																		pos:   position{line: 967, col: 5, offset: 30304},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26093},
+																			pos: position{line: 811, col: 5, offset: 26161},
 																			run: (*parser).callonListContinuationElement515,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26093},
+																				pos: position{line: 811, col: 5, offset: 26161},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2879, col: 11, offset: 90918},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2879, col: 13, offset: 90920,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26168},
+																						pos:   position{line: 812, col: 5, offset: 26236},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2798, col: 13, offset: 88765},
+																							pos: position{line: 2808, col: 13, offset: 89110},
 																							run: (*parser).callonListContinuationElement520,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2808, col: 13, offset: 89110},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2798, col: 13, offset: 88765},
+																									pos:        position{line: 2808, col: 13, offset: 89110},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31607,28 +31671,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2884, col: 8, offset: 90982},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2871, col: 12, offset: 90755},
 																								run: (*parser).callonListContinuationElement524,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2871, col: 13, offset: 90756},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2871, col: 13, offset: 90756},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2871, col: 20, offset: 90763},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2871, col: 29, offset: 90772},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31637,9 +31701,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2881, col: 8, offset: 90932},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2881, col: 9, offset: 90933,
 																								},
 																							},
 																						},
@@ -31654,23 +31718,23 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 954, col: 5, offset: 29766},
+													pos: position{line: 954, col: 5, offset: 29834},
 													expr: &seqExpr{
-														pos: position{line: 963, col: 34, offset: 30148},
+														pos: position{line: 963, col: 34, offset: 30216},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 963, col: 34, offset: 30148},
+																pos:        position{line: 963, col: 34, offset: 30216},
 																val:        "```",
 																ignoreCase: false,
 																want:       "\"```\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 963, col: 40, offset: 30154},
+																pos: position{line: 963, col: 40, offset: 30222},
 																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
+																	pos: position{line: 2862, col: 10, offset: 90584},
 																	run: (*parser).callonListContinuationElement535,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		pos:        position{line: 2862, col: 10, offset: 90584},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -31679,28 +31743,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2874, col: 8, offset: 90637},
+																pos: position{line: 2884, col: 8, offset: 90982},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2861, col: 12, offset: 90410},
+																		pos: position{line: 2871, col: 12, offset: 90755},
 																		run: (*parser).callonListContinuationElement538,
 																		expr: &choiceExpr{
-																			pos: position{line: 2861, col: 13, offset: 90411},
+																			pos: position{line: 2871, col: 13, offset: 90756},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 13, offset: 90411},
+																					pos:        position{line: 2871, col: 13, offset: 90756},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 20, offset: 90418},
+																					pos:        position{line: 2871, col: 20, offset: 90763},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 29, offset: 90427},
+																					pos:        position{line: 2871, col: 29, offset: 90772},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -31709,9 +31773,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2881, col: 8, offset: 90932},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2881, col: 9, offset: 90933,
 																		},
 																	},
 																},
@@ -31723,39 +31787,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 868, col: 5, offset: 27542},
+										pos: position{line: 868, col: 5, offset: 27610},
 										run: (*parser).callonListContinuationElement545,
 										expr: &seqExpr{
-											pos: position{line: 868, col: 5, offset: 27542},
+											pos: position{line: 868, col: 5, offset: 27610},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 868, col: 5, offset: 27542},
+													pos:   position{line: 868, col: 5, offset: 27610},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 754, col: 5, offset: 24079},
+														pos: position{line: 754, col: 5, offset: 24147},
 														run: (*parser).callonListContinuationElement548,
 														expr: &seqExpr{
-															pos: position{line: 754, col: 5, offset: 24079},
+															pos: position{line: 754, col: 5, offset: 24147},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 754, col: 5, offset: 24079},
+																	pos:   position{line: 754, col: 5, offset: 24147},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 754, col: 16, offset: 24090},
+																		pos: position{line: 754, col: 16, offset: 24158},
 																		run: (*parser).callonListContinuationElement551,
 																		expr: &seqExpr{
-																			pos: position{line: 754, col: 16, offset: 24090},
+																			pos: position{line: 754, col: 16, offset: 24158},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 754, col: 16, offset: 24090},
+																					pos:        position{line: 754, col: 16, offset: 24158},
 																					val:        "```",
 																					ignoreCase: false,
 																					want:       "\"```\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 754, col: 22, offset: 24096},
+																					pos: position{line: 754, col: 22, offset: 24164},
 																					expr: &litMatcher{
-																						pos:        position{line: 754, col: 22, offset: 24096},
+																						pos:        position{line: 754, col: 22, offset: 24164},
 																						val:        "`",
 																						ignoreCase: false,
 																						want:       "\"`\"",
@@ -31766,12 +31830,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 756, col: 8, offset: 24180},
+																	pos: position{line: 756, col: 8, offset: 24248},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2862, col: 10, offset: 90584},
 																		run: (*parser).callonListContinuationElement557,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2862, col: 10, offset: 90584},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31780,28 +31844,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2884, col: 8, offset: 90982},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2871, col: 12, offset: 90755},
 																			run: (*parser).callonListContinuationElement560,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2871, col: 13, offset: 90756},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2871, col: 13, offset: 90756},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2871, col: 20, offset: 90763},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2871, col: 29, offset: 90772},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31810,9 +31874,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2881, col: 8, offset: 90932},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2881, col: 9, offset: 90933,
 																			},
 																		},
 																	},
@@ -31822,56 +31886,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 869, col: 5, offset: 27580},
+													pos: position{line: 869, col: 5, offset: 27648},
 													run: (*parser).callonListContinuationElement567,
 												},
 												&labeledExpr{
-													pos:   position{line: 872, col: 5, offset: 27672},
+													pos:   position{line: 872, col: 5, offset: 27740},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 887, col: 5, offset: 28062},
+														pos: position{line: 887, col: 5, offset: 28130},
 														expr: &actionExpr{
-															pos: position{line: 887, col: 6, offset: 28063},
+															pos: position{line: 887, col: 6, offset: 28131},
 															run: (*parser).callonListContinuationElement570,
 															expr: &seqExpr{
-																pos: position{line: 887, col: 6, offset: 28063},
+																pos: position{line: 887, col: 6, offset: 28131},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 887, col: 6, offset: 28063},
+																		pos: position{line: 887, col: 6, offset: 28131},
 																		expr: &choiceExpr{
-																			pos: position{line: 880, col: 5, offset: 27906},
+																			pos: position{line: 880, col: 5, offset: 27974},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 880, col: 5, offset: 27906},
+																					pos: position{line: 880, col: 5, offset: 27974},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 880, col: 5, offset: 27906},
+																							pos:   position{line: 880, col: 5, offset: 27974},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 754, col: 5, offset: 24079},
+																								pos: position{line: 754, col: 5, offset: 24147},
 																								run: (*parser).callonListContinuationElement576,
 																								expr: &seqExpr{
-																									pos: position{line: 754, col: 5, offset: 24079},
+																									pos: position{line: 754, col: 5, offset: 24147},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 754, col: 5, offset: 24079},
+																											pos:   position{line: 754, col: 5, offset: 24147},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 754, col: 16, offset: 24090},
+																												pos: position{line: 754, col: 16, offset: 24158},
 																												run: (*parser).callonListContinuationElement579,
 																												expr: &seqExpr{
-																													pos: position{line: 754, col: 16, offset: 24090},
+																													pos: position{line: 754, col: 16, offset: 24158},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 754, col: 16, offset: 24090},
+																															pos:        position{line: 754, col: 16, offset: 24158},
 																															val:        "```",
 																															ignoreCase: false,
 																															want:       "\"```\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 754, col: 22, offset: 24096},
+																															pos: position{line: 754, col: 22, offset: 24164},
 																															expr: &litMatcher{
-																																pos:        position{line: 754, col: 22, offset: 24096},
+																																pos:        position{line: 754, col: 22, offset: 24164},
 																																val:        "`",
 																																ignoreCase: false,
 																																want:       "\"`\"",
@@ -31882,12 +31946,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 756, col: 8, offset: 24180},
+																											pos: position{line: 756, col: 8, offset: 24248},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
+																												pos: position{line: 2862, col: 10, offset: 90584},
 																												run: (*parser).callonListContinuationElement585,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2862, col: 10, offset: 90584},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31896,28 +31960,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2884, col: 8, offset: 90982},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
+																													pos: position{line: 2871, col: 12, offset: 90755},
 																													run: (*parser).callonListContinuationElement588,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2871, col: 13, offset: 90756},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2871, col: 13, offset: 90756},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2871, col: 20, offset: 90763},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2871, col: 29, offset: 90772},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31926,9 +31990,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2881, col: 8, offset: 90932},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2881, col: 9, offset: 90933,
 																													},
 																												},
 																											},
@@ -31938,45 +32002,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 881, col: 5, offset: 27936},
+																							pos: position{line: 881, col: 5, offset: 28004},
 																							run: (*parser).callonListContinuationElement595,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2881, col: 8, offset: 90932},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2881, col: 9, offset: 90933,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 888, col: 5, offset: 28092},
+																		pos:   position{line: 888, col: 5, offset: 28160},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26093},
+																			pos: position{line: 811, col: 5, offset: 26161},
 																			run: (*parser).callonListContinuationElement599,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26093},
+																				pos: position{line: 811, col: 5, offset: 26161},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2879, col: 11, offset: 90918},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2879, col: 13, offset: 90920,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26168},
+																						pos:   position{line: 812, col: 5, offset: 26236},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2798, col: 13, offset: 88765},
+																							pos: position{line: 2808, col: 13, offset: 89110},
 																							run: (*parser).callonListContinuationElement604,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2808, col: 13, offset: 89110},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2798, col: 13, offset: 88765},
+																									pos:        position{line: 2808, col: 13, offset: 89110},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31986,28 +32050,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2884, col: 8, offset: 90982},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2871, col: 12, offset: 90755},
 																								run: (*parser).callonListContinuationElement608,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2871, col: 13, offset: 90756},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2871, col: 13, offset: 90756},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2871, col: 20, offset: 90763},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2871, col: 29, offset: 90772},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32016,9 +32080,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2881, col: 8, offset: 90932},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2881, col: 9, offset: 90933,
 																								},
 																							},
 																						},
@@ -32033,44 +32097,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 873, col: 5, offset: 27705},
+													pos:   position{line: 873, col: 5, offset: 27773},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 873, col: 9, offset: 27709},
+														pos: position{line: 873, col: 9, offset: 27777},
 														expr: &choiceExpr{
-															pos: position{line: 880, col: 5, offset: 27906},
+															pos: position{line: 880, col: 5, offset: 27974},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 880, col: 5, offset: 27906},
+																	pos: position{line: 880, col: 5, offset: 27974},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 880, col: 5, offset: 27906},
+																			pos:   position{line: 880, col: 5, offset: 27974},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 754, col: 5, offset: 24079},
+																				pos: position{line: 754, col: 5, offset: 24147},
 																				run: (*parser).callonListContinuationElement620,
 																				expr: &seqExpr{
-																					pos: position{line: 754, col: 5, offset: 24079},
+																					pos: position{line: 754, col: 5, offset: 24147},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 754, col: 5, offset: 24079},
+																							pos:   position{line: 754, col: 5, offset: 24147},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 754, col: 16, offset: 24090},
+																								pos: position{line: 754, col: 16, offset: 24158},
 																								run: (*parser).callonListContinuationElement623,
 																								expr: &seqExpr{
-																									pos: position{line: 754, col: 16, offset: 24090},
+																									pos: position{line: 754, col: 16, offset: 24158},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 754, col: 16, offset: 24090},
+																											pos:        position{line: 754, col: 16, offset: 24158},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 754, col: 22, offset: 24096},
+																											pos: position{line: 754, col: 22, offset: 24164},
 																											expr: &litMatcher{
-																												pos:        position{line: 754, col: 22, offset: 24096},
+																												pos:        position{line: 754, col: 22, offset: 24164},
 																												val:        "`",
 																												ignoreCase: false,
 																												want:       "\"`\"",
@@ -32081,12 +32145,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 756, col: 8, offset: 24180},
+																							pos: position{line: 756, col: 8, offset: 24248},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2862, col: 10, offset: 90584},
 																								run: (*parser).callonListContinuationElement629,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2862, col: 10, offset: 90584},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32095,28 +32159,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2884, col: 8, offset: 90982},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2871, col: 12, offset: 90755},
 																									run: (*parser).callonListContinuationElement632,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2871, col: 13, offset: 90756},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2871, col: 13, offset: 90756},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2871, col: 20, offset: 90763},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2871, col: 29, offset: 90772},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32125,9 +32189,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2881, col: 8, offset: 90932},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2881, col: 9, offset: 90933,
 																									},
 																								},
 																							},
@@ -32137,15 +32201,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 881, col: 5, offset: 27936},
+																			pos: position{line: 881, col: 5, offset: 28004},
 																			run: (*parser).callonListContinuationElement639,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2881, col: 8, offset: 90932},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2881, col: 9, offset: 90933,
 																	},
 																},
 															},
@@ -32156,39 +32220,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 896, col: 5, offset: 28247},
+										pos: position{line: 896, col: 5, offset: 28315},
 										run: (*parser).callonListContinuationElement642,
 										expr: &seqExpr{
-											pos: position{line: 896, col: 5, offset: 28247},
+											pos: position{line: 896, col: 5, offset: 28315},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 896, col: 5, offset: 28247},
+													pos:   position{line: 896, col: 5, offset: 28315},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 769, col: 5, offset: 24621},
+														pos: position{line: 769, col: 5, offset: 24689},
 														run: (*parser).callonListContinuationElement645,
 														expr: &seqExpr{
-															pos: position{line: 769, col: 5, offset: 24621},
+															pos: position{line: 769, col: 5, offset: 24689},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 769, col: 5, offset: 24621},
+																	pos:   position{line: 769, col: 5, offset: 24689},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 769, col: 16, offset: 24632},
+																		pos: position{line: 769, col: 16, offset: 24700},
 																		run: (*parser).callonListContinuationElement648,
 																		expr: &seqExpr{
-																			pos: position{line: 769, col: 16, offset: 24632},
+																			pos: position{line: 769, col: 16, offset: 24700},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 769, col: 16, offset: 24632},
+																					pos:        position{line: 769, col: 16, offset: 24700},
 																					val:        "----",
 																					ignoreCase: false,
 																					want:       "\"----\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 769, col: 23, offset: 24639},
+																					pos: position{line: 769, col: 23, offset: 24707},
 																					expr: &litMatcher{
-																						pos:        position{line: 769, col: 23, offset: 24639},
+																						pos:        position{line: 769, col: 23, offset: 24707},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
@@ -32199,12 +32263,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 771, col: 8, offset: 24723},
+																	pos: position{line: 771, col: 8, offset: 24791},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2862, col: 10, offset: 90584},
 																		run: (*parser).callonListContinuationElement654,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2862, col: 10, offset: 90584},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32213,28 +32277,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2884, col: 8, offset: 90982},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2871, col: 12, offset: 90755},
 																			run: (*parser).callonListContinuationElement657,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2871, col: 13, offset: 90756},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2871, col: 13, offset: 90756},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2871, col: 20, offset: 90763},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2871, col: 29, offset: 90772},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32243,9 +32307,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2881, col: 8, offset: 90932},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2881, col: 9, offset: 90933,
 																			},
 																		},
 																	},
@@ -32255,56 +32319,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 897, col: 5, offset: 28286},
+													pos: position{line: 897, col: 5, offset: 28354},
 													run: (*parser).callonListContinuationElement664,
 												},
 												&labeledExpr{
-													pos:   position{line: 900, col: 5, offset: 28378},
+													pos:   position{line: 900, col: 5, offset: 28446},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 915, col: 5, offset: 28776},
+														pos: position{line: 915, col: 5, offset: 28844},
 														expr: &actionExpr{
-															pos: position{line: 915, col: 6, offset: 28777},
+															pos: position{line: 915, col: 6, offset: 28845},
 															run: (*parser).callonListContinuationElement667,
 															expr: &seqExpr{
-																pos: position{line: 915, col: 6, offset: 28777},
+																pos: position{line: 915, col: 6, offset: 28845},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 915, col: 6, offset: 28777},
+																		pos: position{line: 915, col: 6, offset: 28845},
 																		expr: &choiceExpr{
-																			pos: position{line: 908, col: 5, offset: 28618},
+																			pos: position{line: 908, col: 5, offset: 28686},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 908, col: 5, offset: 28618},
+																					pos: position{line: 908, col: 5, offset: 28686},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 908, col: 5, offset: 28618},
+																							pos:   position{line: 908, col: 5, offset: 28686},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 769, col: 5, offset: 24621},
+																								pos: position{line: 769, col: 5, offset: 24689},
 																								run: (*parser).callonListContinuationElement673,
 																								expr: &seqExpr{
-																									pos: position{line: 769, col: 5, offset: 24621},
+																									pos: position{line: 769, col: 5, offset: 24689},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 769, col: 5, offset: 24621},
+																											pos:   position{line: 769, col: 5, offset: 24689},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 769, col: 16, offset: 24632},
+																												pos: position{line: 769, col: 16, offset: 24700},
 																												run: (*parser).callonListContinuationElement676,
 																												expr: &seqExpr{
-																													pos: position{line: 769, col: 16, offset: 24632},
+																													pos: position{line: 769, col: 16, offset: 24700},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 769, col: 16, offset: 24632},
+																															pos:        position{line: 769, col: 16, offset: 24700},
 																															val:        "----",
 																															ignoreCase: false,
 																															want:       "\"----\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 769, col: 23, offset: 24639},
+																															pos: position{line: 769, col: 23, offset: 24707},
 																															expr: &litMatcher{
-																																pos:        position{line: 769, col: 23, offset: 24639},
+																																pos:        position{line: 769, col: 23, offset: 24707},
 																																val:        "-",
 																																ignoreCase: false,
 																																want:       "\"-\"",
@@ -32315,12 +32379,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 771, col: 8, offset: 24723},
+																											pos: position{line: 771, col: 8, offset: 24791},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
+																												pos: position{line: 2862, col: 10, offset: 90584},
 																												run: (*parser).callonListContinuationElement682,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2862, col: 10, offset: 90584},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32329,28 +32393,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2884, col: 8, offset: 90982},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
+																													pos: position{line: 2871, col: 12, offset: 90755},
 																													run: (*parser).callonListContinuationElement685,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2871, col: 13, offset: 90756},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2871, col: 13, offset: 90756},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2871, col: 20, offset: 90763},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2871, col: 29, offset: 90772},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32359,9 +32423,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2881, col: 8, offset: 90932},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2881, col: 9, offset: 90933,
 																													},
 																												},
 																											},
@@ -32371,45 +32435,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 909, col: 5, offset: 28649},
+																							pos: position{line: 909, col: 5, offset: 28717},
 																							run: (*parser).callonListContinuationElement692,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2881, col: 8, offset: 90932},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2881, col: 9, offset: 90933,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 916, col: 5, offset: 28807},
+																		pos:   position{line: 916, col: 5, offset: 28875},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26093},
+																			pos: position{line: 811, col: 5, offset: 26161},
 																			run: (*parser).callonListContinuationElement696,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26093},
+																				pos: position{line: 811, col: 5, offset: 26161},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2879, col: 11, offset: 90918},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2879, col: 13, offset: 90920,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26168},
+																						pos:   position{line: 812, col: 5, offset: 26236},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2798, col: 13, offset: 88765},
+																							pos: position{line: 2808, col: 13, offset: 89110},
 																							run: (*parser).callonListContinuationElement701,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2808, col: 13, offset: 89110},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2798, col: 13, offset: 88765},
+																									pos:        position{line: 2808, col: 13, offset: 89110},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32419,28 +32483,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2884, col: 8, offset: 90982},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2871, col: 12, offset: 90755},
 																								run: (*parser).callonListContinuationElement705,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2871, col: 13, offset: 90756},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2871, col: 13, offset: 90756},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2871, col: 20, offset: 90763},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2871, col: 29, offset: 90772},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32449,9 +32513,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2881, col: 8, offset: 90932},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2881, col: 9, offset: 90933,
 																								},
 																							},
 																						},
@@ -32466,44 +32530,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 901, col: 5, offset: 28412},
+													pos:   position{line: 901, col: 5, offset: 28480},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 901, col: 9, offset: 28416},
+														pos: position{line: 901, col: 9, offset: 28484},
 														expr: &choiceExpr{
-															pos: position{line: 908, col: 5, offset: 28618},
+															pos: position{line: 908, col: 5, offset: 28686},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 908, col: 5, offset: 28618},
+																	pos: position{line: 908, col: 5, offset: 28686},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 908, col: 5, offset: 28618},
+																			pos:   position{line: 908, col: 5, offset: 28686},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 769, col: 5, offset: 24621},
+																				pos: position{line: 769, col: 5, offset: 24689},
 																				run: (*parser).callonListContinuationElement717,
 																				expr: &seqExpr{
-																					pos: position{line: 769, col: 5, offset: 24621},
+																					pos: position{line: 769, col: 5, offset: 24689},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 769, col: 5, offset: 24621},
+																							pos:   position{line: 769, col: 5, offset: 24689},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 769, col: 16, offset: 24632},
+																								pos: position{line: 769, col: 16, offset: 24700},
 																								run: (*parser).callonListContinuationElement720,
 																								expr: &seqExpr{
-																									pos: position{line: 769, col: 16, offset: 24632},
+																									pos: position{line: 769, col: 16, offset: 24700},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 769, col: 16, offset: 24632},
+																											pos:        position{line: 769, col: 16, offset: 24700},
 																											val:        "----",
 																											ignoreCase: false,
 																											want:       "\"----\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 769, col: 23, offset: 24639},
+																											pos: position{line: 769, col: 23, offset: 24707},
 																											expr: &litMatcher{
-																												pos:        position{line: 769, col: 23, offset: 24639},
+																												pos:        position{line: 769, col: 23, offset: 24707},
 																												val:        "-",
 																												ignoreCase: false,
 																												want:       "\"-\"",
@@ -32514,12 +32578,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 771, col: 8, offset: 24723},
+																							pos: position{line: 771, col: 8, offset: 24791},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2862, col: 10, offset: 90584},
 																								run: (*parser).callonListContinuationElement726,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2862, col: 10, offset: 90584},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32528,28 +32592,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2884, col: 8, offset: 90982},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2871, col: 12, offset: 90755},
 																									run: (*parser).callonListContinuationElement729,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2871, col: 13, offset: 90756},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2871, col: 13, offset: 90756},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2871, col: 20, offset: 90763},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2871, col: 29, offset: 90772},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32558,9 +32622,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2881, col: 8, offset: 90932},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2881, col: 9, offset: 90933,
 																									},
 																								},
 																							},
@@ -32570,15 +32634,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 909, col: 5, offset: 28649},
+																			pos: position{line: 909, col: 5, offset: 28717},
 																			run: (*parser).callonListContinuationElement736,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2881, col: 8, offset: 90932},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2881, col: 9, offset: 90933,
 																	},
 																},
 															},
@@ -32589,39 +32653,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 924, col: 5, offset: 28962},
+										pos: position{line: 924, col: 5, offset: 29030},
 										run: (*parser).callonListContinuationElement739,
 										expr: &seqExpr{
-											pos: position{line: 924, col: 5, offset: 28962},
+											pos: position{line: 924, col: 5, offset: 29030},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 924, col: 5, offset: 28962},
+													pos:   position{line: 924, col: 5, offset: 29030},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 783, col: 5, offset: 25097},
+														pos: position{line: 783, col: 5, offset: 25165},
 														run: (*parser).callonListContinuationElement742,
 														expr: &seqExpr{
-															pos: position{line: 783, col: 5, offset: 25097},
+															pos: position{line: 783, col: 5, offset: 25165},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 783, col: 5, offset: 25097},
+																	pos:   position{line: 783, col: 5, offset: 25165},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 783, col: 16, offset: 25108},
+																		pos: position{line: 783, col: 16, offset: 25176},
 																		run: (*parser).callonListContinuationElement745,
 																		expr: &seqExpr{
-																			pos: position{line: 783, col: 16, offset: 25108},
+																			pos: position{line: 783, col: 16, offset: 25176},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 783, col: 16, offset: 25108},
+																					pos:        position{line: 783, col: 16, offset: 25176},
 																					val:        "....",
 																					ignoreCase: false,
 																					want:       "\"....\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 783, col: 23, offset: 25115},
+																					pos: position{line: 783, col: 23, offset: 25183},
 																					expr: &litMatcher{
-																						pos:        position{line: 783, col: 23, offset: 25115},
+																						pos:        position{line: 783, col: 23, offset: 25183},
 																						val:        ".",
 																						ignoreCase: false,
 																						want:       "\".\"",
@@ -32632,12 +32696,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 785, col: 8, offset: 25199},
+																	pos: position{line: 785, col: 8, offset: 25267},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2862, col: 10, offset: 90584},
 																		run: (*parser).callonListContinuationElement751,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2862, col: 10, offset: 90584},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32646,28 +32710,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2884, col: 8, offset: 90982},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2871, col: 12, offset: 90755},
 																			run: (*parser).callonListContinuationElement754,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2871, col: 13, offset: 90756},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2871, col: 13, offset: 90756},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2871, col: 20, offset: 90763},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2871, col: 29, offset: 90772},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32676,9 +32740,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2881, col: 8, offset: 90932},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2881, col: 9, offset: 90933,
 																			},
 																		},
 																	},
@@ -32688,56 +32752,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 925, col: 5, offset: 29001},
+													pos: position{line: 925, col: 5, offset: 29069},
 													run: (*parser).callonListContinuationElement761,
 												},
 												&labeledExpr{
-													pos:   position{line: 928, col: 5, offset: 29093},
+													pos:   position{line: 928, col: 5, offset: 29161},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 943, col: 5, offset: 29491},
+														pos: position{line: 943, col: 5, offset: 29559},
 														expr: &actionExpr{
-															pos: position{line: 943, col: 6, offset: 29492},
+															pos: position{line: 943, col: 6, offset: 29560},
 															run: (*parser).callonListContinuationElement764,
 															expr: &seqExpr{
-																pos: position{line: 943, col: 6, offset: 29492},
+																pos: position{line: 943, col: 6, offset: 29560},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 943, col: 6, offset: 29492},
+																		pos: position{line: 943, col: 6, offset: 29560},
 																		expr: &choiceExpr{
-																			pos: position{line: 936, col: 5, offset: 29333},
+																			pos: position{line: 936, col: 5, offset: 29401},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 936, col: 5, offset: 29333},
+																					pos: position{line: 936, col: 5, offset: 29401},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 936, col: 5, offset: 29333},
+																							pos:   position{line: 936, col: 5, offset: 29401},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 783, col: 5, offset: 25097},
+																								pos: position{line: 783, col: 5, offset: 25165},
 																								run: (*parser).callonListContinuationElement770,
 																								expr: &seqExpr{
-																									pos: position{line: 783, col: 5, offset: 25097},
+																									pos: position{line: 783, col: 5, offset: 25165},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 783, col: 5, offset: 25097},
+																											pos:   position{line: 783, col: 5, offset: 25165},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 783, col: 16, offset: 25108},
+																												pos: position{line: 783, col: 16, offset: 25176},
 																												run: (*parser).callonListContinuationElement773,
 																												expr: &seqExpr{
-																													pos: position{line: 783, col: 16, offset: 25108},
+																													pos: position{line: 783, col: 16, offset: 25176},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 783, col: 16, offset: 25108},
+																															pos:        position{line: 783, col: 16, offset: 25176},
 																															val:        "....",
 																															ignoreCase: false,
 																															want:       "\"....\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 783, col: 23, offset: 25115},
+																															pos: position{line: 783, col: 23, offset: 25183},
 																															expr: &litMatcher{
-																																pos:        position{line: 783, col: 23, offset: 25115},
+																																pos:        position{line: 783, col: 23, offset: 25183},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -32748,12 +32812,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 785, col: 8, offset: 25199},
+																											pos: position{line: 785, col: 8, offset: 25267},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
+																												pos: position{line: 2862, col: 10, offset: 90584},
 																												run: (*parser).callonListContinuationElement779,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2862, col: 10, offset: 90584},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32762,28 +32826,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2884, col: 8, offset: 90982},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
+																													pos: position{line: 2871, col: 12, offset: 90755},
 																													run: (*parser).callonListContinuationElement782,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2871, col: 13, offset: 90756},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2871, col: 13, offset: 90756},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2871, col: 20, offset: 90763},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2871, col: 29, offset: 90772},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32792,9 +32856,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2881, col: 8, offset: 90932},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2881, col: 9, offset: 90933,
 																													},
 																												},
 																											},
@@ -32804,45 +32868,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 937, col: 5, offset: 29364},
+																							pos: position{line: 937, col: 5, offset: 29432},
 																							run: (*parser).callonListContinuationElement789,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2881, col: 8, offset: 90932},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2881, col: 9, offset: 90933,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 944, col: 5, offset: 29522},
+																		pos:   position{line: 944, col: 5, offset: 29590},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26093},
+																			pos: position{line: 811, col: 5, offset: 26161},
 																			run: (*parser).callonListContinuationElement793,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26093},
+																				pos: position{line: 811, col: 5, offset: 26161},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2879, col: 11, offset: 90918},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2879, col: 13, offset: 90920,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26168},
+																						pos:   position{line: 812, col: 5, offset: 26236},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2798, col: 13, offset: 88765},
+																							pos: position{line: 2808, col: 13, offset: 89110},
 																							run: (*parser).callonListContinuationElement798,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2808, col: 13, offset: 89110},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2798, col: 13, offset: 88765},
+																									pos:        position{line: 2808, col: 13, offset: 89110},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32852,28 +32916,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2884, col: 8, offset: 90982},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2871, col: 12, offset: 90755},
 																								run: (*parser).callonListContinuationElement802,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2871, col: 13, offset: 90756},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2871, col: 13, offset: 90756},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2871, col: 20, offset: 90763},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2871, col: 29, offset: 90772},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32882,9 +32946,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2881, col: 8, offset: 90932},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2881, col: 9, offset: 90933,
 																								},
 																							},
 																						},
@@ -32899,44 +32963,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 929, col: 5, offset: 29127},
+													pos:   position{line: 929, col: 5, offset: 29195},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 929, col: 9, offset: 29131},
+														pos: position{line: 929, col: 9, offset: 29199},
 														expr: &choiceExpr{
-															pos: position{line: 936, col: 5, offset: 29333},
+															pos: position{line: 936, col: 5, offset: 29401},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 936, col: 5, offset: 29333},
+																	pos: position{line: 936, col: 5, offset: 29401},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 936, col: 5, offset: 29333},
+																			pos:   position{line: 936, col: 5, offset: 29401},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 783, col: 5, offset: 25097},
+																				pos: position{line: 783, col: 5, offset: 25165},
 																				run: (*parser).callonListContinuationElement814,
 																				expr: &seqExpr{
-																					pos: position{line: 783, col: 5, offset: 25097},
+																					pos: position{line: 783, col: 5, offset: 25165},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 783, col: 5, offset: 25097},
+																							pos:   position{line: 783, col: 5, offset: 25165},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 783, col: 16, offset: 25108},
+																								pos: position{line: 783, col: 16, offset: 25176},
 																								run: (*parser).callonListContinuationElement817,
 																								expr: &seqExpr{
-																									pos: position{line: 783, col: 16, offset: 25108},
+																									pos: position{line: 783, col: 16, offset: 25176},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 783, col: 16, offset: 25108},
+																											pos:        position{line: 783, col: 16, offset: 25176},
 																											val:        "....",
 																											ignoreCase: false,
 																											want:       "\"....\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 783, col: 23, offset: 25115},
+																											pos: position{line: 783, col: 23, offset: 25183},
 																											expr: &litMatcher{
-																												pos:        position{line: 783, col: 23, offset: 25115},
+																												pos:        position{line: 783, col: 23, offset: 25183},
 																												val:        ".",
 																												ignoreCase: false,
 																												want:       "\".\"",
@@ -32947,12 +33011,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 785, col: 8, offset: 25199},
+																							pos: position{line: 785, col: 8, offset: 25267},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2862, col: 10, offset: 90584},
 																								run: (*parser).callonListContinuationElement823,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2862, col: 10, offset: 90584},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32961,28 +33025,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2884, col: 8, offset: 90982},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2871, col: 12, offset: 90755},
 																									run: (*parser).callonListContinuationElement826,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2871, col: 13, offset: 90756},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2871, col: 13, offset: 90756},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2871, col: 20, offset: 90763},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2871, col: 29, offset: 90772},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32991,9 +33055,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2881, col: 8, offset: 90932},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2881, col: 9, offset: 90933,
 																									},
 																								},
 																							},
@@ -33003,15 +33067,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 937, col: 5, offset: 29364},
+																			pos: position{line: 937, col: 5, offset: 29432},
 																			run: (*parser).callonListContinuationElement833,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2881, col: 8, offset: 90932},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2881, col: 9, offset: 90933,
 																	},
 																},
 															},
@@ -33022,41 +33086,41 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 975, col: 5, offset: 30405},
+										pos: position{line: 975, col: 5, offset: 30473},
 										run: (*parser).callonListContinuationElement836,
 										expr: &seqExpr{
-											pos: position{line: 975, col: 5, offset: 30405},
+											pos: position{line: 975, col: 5, offset: 30473},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 975, col: 5, offset: 30405},
+													pos:   position{line: 975, col: 5, offset: 30473},
 													label: "firstLine",
 													expr: &actionExpr{
-														pos: position{line: 982, col: 5, offset: 30664},
+														pos: position{line: 982, col: 5, offset: 30732},
 														run: (*parser).callonListContinuationElement839,
 														expr: &seqExpr{
-															pos: position{line: 982, col: 5, offset: 30664},
+															pos: position{line: 982, col: 5, offset: 30732},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 982, col: 5, offset: 30664},
+																	pos: position{line: 982, col: 5, offset: 30732},
 																	expr: &actionExpr{
-																		pos: position{line: 677, col: 14, offset: 21489},
+																		pos: position{line: 677, col: 14, offset: 21557},
 																		run: (*parser).callonListContinuationElement842,
 																		expr: &seqExpr{
-																			pos: position{line: 677, col: 14, offset: 21489},
+																			pos: position{line: 677, col: 14, offset: 21557},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2869, col: 11, offset: 90573},
+																					pos: position{line: 2879, col: 11, offset: 90918},
 																					expr: &anyMatcher{
-																						line: 2869, col: 13, offset: 90575,
+																						line: 2879, col: 13, offset: 90920,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 677, col: 21, offset: 21496},
+																					pos: position{line: 677, col: 21, offset: 21564},
 																					expr: &actionExpr{
-																						pos: position{line: 2852, col: 10, offset: 90239},
+																						pos: position{line: 2862, col: 10, offset: 90584},
 																						run: (*parser).callonListContinuationElement847,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2852, col: 10, offset: 90239},
+																							pos:        position{line: 2862, col: 10, offset: 90584},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -33065,28 +33129,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2874, col: 8, offset: 90637},
+																					pos: position{line: 2884, col: 8, offset: 90982},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2861, col: 12, offset: 90410},
+																							pos: position{line: 2871, col: 12, offset: 90755},
 																							run: (*parser).callonListContinuationElement850,
 																							expr: &choiceExpr{
-																								pos: position{line: 2861, col: 13, offset: 90411},
+																								pos: position{line: 2871, col: 13, offset: 90756},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 13, offset: 90411},
+																										pos:        position{line: 2871, col: 13, offset: 90756},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 20, offset: 90418},
+																										pos:        position{line: 2871, col: 20, offset: 90763},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 29, offset: 90427},
+																										pos:        position{line: 2871, col: 29, offset: 90772},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -33095,9 +33159,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2871, col: 8, offset: 90587},
+																							pos: position{line: 2881, col: 8, offset: 90932},
 																							expr: &anyMatcher{
-																								line: 2871, col: 9, offset: 90588,
+																								line: 2881, col: 9, offset: 90933,
 																							},
 																						},
 																					},
@@ -33107,21 +33171,21 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 983, col: 5, offset: 30679},
+																	pos:        position{line: 983, col: 5, offset: 30747},
 																	val:        "> ",
 																	ignoreCase: false,
 																	want:       "\"> \"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 984, col: 5, offset: 30689},
+																	pos:   position{line: 984, col: 5, offset: 30757},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2802, col: 14, offset: 88832},
+																		pos: position{line: 2812, col: 14, offset: 89177},
 																		run: (*parser).callonListContinuationElement859,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2802, col: 14, offset: 88832},
+																			pos: position{line: 2812, col: 14, offset: 89177},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2802, col: 14, offset: 88832},
+																				pos:        position{line: 2812, col: 14, offset: 89177},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -33131,28 +33195,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2884, col: 8, offset: 90982},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2871, col: 12, offset: 90755},
 																			run: (*parser).callonListContinuationElement863,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2871, col: 13, offset: 90756},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2871, col: 13, offset: 90756},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2871, col: 20, offset: 90763},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2871, col: 29, offset: 90772},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33161,9 +33225,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2881, col: 8, offset: 90932},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2881, col: 9, offset: 90933,
 																			},
 																		},
 																	},
@@ -33173,40 +33237,40 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 976, col: 5, offset: 30442},
+													pos:   position{line: 976, col: 5, offset: 30510},
 													label: "otherLines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 976, col: 16, offset: 30453},
+														pos: position{line: 976, col: 16, offset: 30521},
 														expr: &choiceExpr{
-															pos: position{line: 976, col: 17, offset: 30454},
+															pos: position{line: 976, col: 17, offset: 30522},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 982, col: 5, offset: 30664},
+																	pos: position{line: 982, col: 5, offset: 30732},
 																	run: (*parser).callonListContinuationElement873,
 																	expr: &seqExpr{
-																		pos: position{line: 982, col: 5, offset: 30664},
+																		pos: position{line: 982, col: 5, offset: 30732},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 982, col: 5, offset: 30664},
+																				pos: position{line: 982, col: 5, offset: 30732},
 																				expr: &actionExpr{
-																					pos: position{line: 677, col: 14, offset: 21489},
+																					pos: position{line: 677, col: 14, offset: 21557},
 																					run: (*parser).callonListContinuationElement876,
 																					expr: &seqExpr{
-																						pos: position{line: 677, col: 14, offset: 21489},
+																						pos: position{line: 677, col: 14, offset: 21557},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2869, col: 11, offset: 90573},
+																								pos: position{line: 2879, col: 11, offset: 90918},
 																								expr: &anyMatcher{
-																									line: 2869, col: 13, offset: 90575,
+																									line: 2879, col: 13, offset: 90920,
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 677, col: 21, offset: 21496},
+																								pos: position{line: 677, col: 21, offset: 21564},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2862, col: 10, offset: 90584},
 																									run: (*parser).callonListContinuationElement881,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2862, col: 10, offset: 90584},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33215,28 +33279,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
+																								pos: position{line: 2884, col: 8, offset: 90982},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
+																										pos: position{line: 2871, col: 12, offset: 90755},
 																										run: (*parser).callonListContinuationElement884,
 																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																											pos: position{line: 2871, col: 13, offset: 90756},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
+																													pos:        position{line: 2871, col: 13, offset: 90756},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
+																													pos:        position{line: 2871, col: 20, offset: 90763},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
+																													pos:        position{line: 2871, col: 29, offset: 90772},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33245,9 +33309,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
+																										pos: position{line: 2881, col: 8, offset: 90932},
 																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																											line: 2881, col: 9, offset: 90933,
 																										},
 																									},
 																								},
@@ -33257,21 +33321,21 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 983, col: 5, offset: 30679},
+																				pos:        position{line: 983, col: 5, offset: 30747},
 																				val:        "> ",
 																				ignoreCase: false,
 																				want:       "\"> \"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 984, col: 5, offset: 30689},
+																				pos:   position{line: 984, col: 5, offset: 30757},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2802, col: 14, offset: 88832},
+																					pos: position{line: 2812, col: 14, offset: 89177},
 																					run: (*parser).callonListContinuationElement893,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2802, col: 14, offset: 88832},
+																						pos: position{line: 2812, col: 14, offset: 89177},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2802, col: 14, offset: 88832},
+																							pos:        position{line: 2812, col: 14, offset: 89177},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33281,28 +33345,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2874, col: 8, offset: 90637},
+																				pos: position{line: 2884, col: 8, offset: 90982},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2861, col: 12, offset: 90410},
+																						pos: position{line: 2871, col: 12, offset: 90755},
 																						run: (*parser).callonListContinuationElement897,
 																						expr: &choiceExpr{
-																							pos: position{line: 2861, col: 13, offset: 90411},
+																							pos: position{line: 2871, col: 13, offset: 90756},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 13, offset: 90411},
+																									pos:        position{line: 2871, col: 13, offset: 90756},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 20, offset: 90418},
+																									pos:        position{line: 2871, col: 20, offset: 90763},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 29, offset: 90427},
+																									pos:        position{line: 2871, col: 29, offset: 90772},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33311,9 +33375,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2881, col: 8, offset: 90932},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2881, col: 9, offset: 90933,
 																						},
 																					},
 																				},
@@ -33322,21 +33386,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1784, col: 5, offset: 57614},
+																	pos: position{line: 1784, col: 5, offset: 57750},
 																	run: (*parser).callonListContinuationElement904,
 																	expr: &seqExpr{
-																		pos: position{line: 1784, col: 5, offset: 57614},
+																		pos: position{line: 1784, col: 5, offset: 57750},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1784, col: 5, offset: 57614},
+																				pos:   position{line: 1784, col: 5, offset: 57750},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2802, col: 14, offset: 88832},
+																					pos: position{line: 2812, col: 14, offset: 89177},
 																					run: (*parser).callonListContinuationElement907,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2802, col: 14, offset: 88832},
+																						pos: position{line: 2812, col: 14, offset: 89177},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2802, col: 14, offset: 88832},
+																							pos:        position{line: 2812, col: 14, offset: 89177},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33346,32 +33410,32 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1785, col: 5, offset: 57638},
+																				pos: position{line: 1785, col: 5, offset: 57774},
 																				run: (*parser).callonListContinuationElement910,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2874, col: 8, offset: 90637},
+																				pos: position{line: 2884, col: 8, offset: 90982},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2861, col: 12, offset: 90410},
+																						pos: position{line: 2871, col: 12, offset: 90755},
 																						run: (*parser).callonListContinuationElement912,
 																						expr: &choiceExpr{
-																							pos: position{line: 2861, col: 13, offset: 90411},
+																							pos: position{line: 2871, col: 13, offset: 90756},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 13, offset: 90411},
+																									pos:        position{line: 2871, col: 13, offset: 90756},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 20, offset: 90418},
+																									pos:        position{line: 2871, col: 20, offset: 90763},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 29, offset: 90427},
+																									pos:        position{line: 2871, col: 29, offset: 90772},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33380,9 +33444,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2881, col: 8, offset: 90932},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2881, col: 9, offset: 90933,
 																						},
 																					},
 																				},
@@ -33398,28 +33462,28 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 997, col: 5, offset: 30954},
+										pos: position{line: 997, col: 5, offset: 31022},
 										run: (*parser).callonListContinuationElement919,
 										expr: &seqExpr{
-											pos: position{line: 997, col: 5, offset: 30954},
+											pos: position{line: 997, col: 5, offset: 31022},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 997, col: 5, offset: 30954},
+													pos:   position{line: 997, col: 5, offset: 31022},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 776, col: 5, offset: 24866},
+														pos: position{line: 776, col: 5, offset: 24934},
 														run: (*parser).callonListContinuationElement922,
 														expr: &seqExpr{
-															pos: position{line: 776, col: 5, offset: 24866},
+															pos: position{line: 776, col: 5, offset: 24934},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 776, col: 5, offset: 24866},
+																	pos:   position{line: 776, col: 5, offset: 24934},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 776, col: 16, offset: 24877},
+																		pos: position{line: 776, col: 16, offset: 24945},
 																		run: (*parser).callonListContinuationElement925,
 																		expr: &litMatcher{
-																			pos:        position{line: 776, col: 16, offset: 24877},
+																			pos:        position{line: 776, col: 16, offset: 24945},
 																			val:        "--",
 																			ignoreCase: false,
 																			want:       "\"--\"",
@@ -33427,12 +33491,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 778, col: 8, offset: 24954},
+																	pos: position{line: 778, col: 8, offset: 25022},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2862, col: 10, offset: 90584},
 																		run: (*parser).callonListContinuationElement928,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2862, col: 10, offset: 90584},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33441,28 +33505,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2884, col: 8, offset: 90982},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2871, col: 12, offset: 90755},
 																			run: (*parser).callonListContinuationElement931,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2871, col: 13, offset: 90756},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2871, col: 13, offset: 90756},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2871, col: 20, offset: 90763},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2871, col: 29, offset: 90772},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33471,9 +33535,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2881, col: 8, offset: 90932},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2881, col: 9, offset: 90933,
 																			},
 																		},
 																	},
@@ -33483,35 +33547,35 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 998, col: 5, offset: 30990},
+													pos:   position{line: 998, col: 5, offset: 31058},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1008, col: 5, offset: 31258},
+														pos: position{line: 1008, col: 5, offset: 31326},
 														expr: &actionExpr{
-															pos: position{line: 1008, col: 6, offset: 31259},
+															pos: position{line: 1008, col: 6, offset: 31327},
 															run: (*parser).callonListContinuationElement940,
 															expr: &seqExpr{
-																pos: position{line: 1008, col: 6, offset: 31259},
+																pos: position{line: 1008, col: 6, offset: 31327},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1008, col: 6, offset: 31259},
+																		pos: position{line: 1008, col: 6, offset: 31327},
 																		expr: &choiceExpr{
-																			pos: position{line: 1005, col: 26, offset: 31207},
+																			pos: position{line: 1005, col: 26, offset: 31275},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 776, col: 5, offset: 24866},
+																					pos: position{line: 776, col: 5, offset: 24934},
 																					run: (*parser).callonListContinuationElement944,
 																					expr: &seqExpr{
-																						pos: position{line: 776, col: 5, offset: 24866},
+																						pos: position{line: 776, col: 5, offset: 24934},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 776, col: 5, offset: 24866},
+																								pos:   position{line: 776, col: 5, offset: 24934},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 776, col: 16, offset: 24877},
+																									pos: position{line: 776, col: 16, offset: 24945},
 																									run: (*parser).callonListContinuationElement947,
 																									expr: &litMatcher{
-																										pos:        position{line: 776, col: 16, offset: 24877},
+																										pos:        position{line: 776, col: 16, offset: 24945},
 																										val:        "--",
 																										ignoreCase: false,
 																										want:       "\"--\"",
@@ -33519,12 +33583,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 778, col: 8, offset: 24954},
+																								pos: position{line: 778, col: 8, offset: 25022},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2862, col: 10, offset: 90584},
 																									run: (*parser).callonListContinuationElement950,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2862, col: 10, offset: 90584},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33533,28 +33597,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
+																								pos: position{line: 2884, col: 8, offset: 90982},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
+																										pos: position{line: 2871, col: 12, offset: 90755},
 																										run: (*parser).callonListContinuationElement953,
 																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																											pos: position{line: 2871, col: 13, offset: 90756},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
+																													pos:        position{line: 2871, col: 13, offset: 90756},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
+																													pos:        position{line: 2871, col: 20, offset: 90763},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
+																													pos:        position{line: 2871, col: 29, offset: 90772},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33563,9 +33627,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
+																										pos: position{line: 2881, col: 8, offset: 90932},
 																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																											line: 2881, col: 9, offset: 90933,
 																										},
 																									},
 																								},
@@ -33574,39 +33638,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2881, col: 8, offset: 90932},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2881, col: 9, offset: 90933,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1009, col: 5, offset: 31286},
+																		pos:   position{line: 1009, col: 5, offset: 31354},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26093},
+																			pos: position{line: 811, col: 5, offset: 26161},
 																			run: (*parser).callonListContinuationElement963,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26093},
+																				pos: position{line: 811, col: 5, offset: 26161},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2879, col: 11, offset: 90918},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2879, col: 13, offset: 90920,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26168},
+																						pos:   position{line: 812, col: 5, offset: 26236},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2798, col: 13, offset: 88765},
+																							pos: position{line: 2808, col: 13, offset: 89110},
 																							run: (*parser).callonListContinuationElement968,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2808, col: 13, offset: 89110},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2798, col: 13, offset: 88765},
+																									pos:        position{line: 2808, col: 13, offset: 89110},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33616,28 +33680,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2884, col: 8, offset: 90982},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2871, col: 12, offset: 90755},
 																								run: (*parser).callonListContinuationElement972,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2871, col: 13, offset: 90756},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2871, col: 13, offset: 90756},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2871, col: 20, offset: 90763},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2871, col: 29, offset: 90772},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33646,9 +33710,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2881, col: 8, offset: 90932},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2881, col: 9, offset: 90933,
 																								},
 																							},
 																						},
@@ -33663,27 +33727,27 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 999, col: 5, offset: 31021},
+													pos:   position{line: 999, col: 5, offset: 31089},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 999, col: 9, offset: 31025},
+														pos: position{line: 999, col: 9, offset: 31093},
 														expr: &choiceExpr{
-															pos: position{line: 1005, col: 26, offset: 31207},
+															pos: position{line: 1005, col: 26, offset: 31275},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 776, col: 5, offset: 24866},
+																	pos: position{line: 776, col: 5, offset: 24934},
 																	run: (*parser).callonListContinuationElement982,
 																	expr: &seqExpr{
-																		pos: position{line: 776, col: 5, offset: 24866},
+																		pos: position{line: 776, col: 5, offset: 24934},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 776, col: 5, offset: 24866},
+																				pos:   position{line: 776, col: 5, offset: 24934},
 																				label: "delimiter",
 																				expr: &actionExpr{
-																					pos: position{line: 776, col: 16, offset: 24877},
+																					pos: position{line: 776, col: 16, offset: 24945},
 																					run: (*parser).callonListContinuationElement985,
 																					expr: &litMatcher{
-																						pos:        position{line: 776, col: 16, offset: 24877},
+																						pos:        position{line: 776, col: 16, offset: 24945},
 																						val:        "--",
 																						ignoreCase: false,
 																						want:       "\"--\"",
@@ -33691,12 +33755,12 @@ var g = &grammar{
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 778, col: 8, offset: 24954},
+																				pos: position{line: 778, col: 8, offset: 25022},
 																				expr: &actionExpr{
-																					pos: position{line: 2852, col: 10, offset: 90239},
+																					pos: position{line: 2862, col: 10, offset: 90584},
 																					run: (*parser).callonListContinuationElement988,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2852, col: 10, offset: 90239},
+																						pos:        position{line: 2862, col: 10, offset: 90584},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -33705,28 +33769,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2874, col: 8, offset: 90637},
+																				pos: position{line: 2884, col: 8, offset: 90982},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2861, col: 12, offset: 90410},
+																						pos: position{line: 2871, col: 12, offset: 90755},
 																						run: (*parser).callonListContinuationElement991,
 																						expr: &choiceExpr{
-																							pos: position{line: 2861, col: 13, offset: 90411},
+																							pos: position{line: 2871, col: 13, offset: 90756},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 13, offset: 90411},
+																									pos:        position{line: 2871, col: 13, offset: 90756},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 20, offset: 90418},
+																									pos:        position{line: 2871, col: 20, offset: 90763},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 29, offset: 90427},
+																									pos:        position{line: 2871, col: 29, offset: 90772},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33735,9 +33799,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2881, col: 8, offset: 90932},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2881, col: 9, offset: 90933,
 																						},
 																					},
 																				},
@@ -33746,9 +33810,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2881, col: 8, offset: 90932},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2881, col: 9, offset: 90933,
 																	},
 																},
 															},
@@ -33759,39 +33823,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1017, col: 5, offset: 31449},
+										pos: position{line: 1017, col: 5, offset: 31517},
 										run: (*parser).callonListContinuationElement1000,
 										expr: &seqExpr{
-											pos: position{line: 1017, col: 5, offset: 31449},
+											pos: position{line: 1017, col: 5, offset: 31517},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1017, col: 5, offset: 31449},
+													pos:   position{line: 1017, col: 5, offset: 31517},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 790, col: 5, offset: 25349},
+														pos: position{line: 790, col: 5, offset: 25417},
 														run: (*parser).callonListContinuationElement1003,
 														expr: &seqExpr{
-															pos: position{line: 790, col: 5, offset: 25349},
+															pos: position{line: 790, col: 5, offset: 25417},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 790, col: 5, offset: 25349},
+																	pos:   position{line: 790, col: 5, offset: 25417},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 790, col: 16, offset: 25360},
+																		pos: position{line: 790, col: 16, offset: 25428},
 																		run: (*parser).callonListContinuationElement1006,
 																		expr: &seqExpr{
-																			pos: position{line: 790, col: 16, offset: 25360},
+																			pos: position{line: 790, col: 16, offset: 25428},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 790, col: 16, offset: 25360},
+																					pos:        position{line: 790, col: 16, offset: 25428},
 																					val:        "++++",
 																					ignoreCase: false,
 																					want:       "\"++++\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 790, col: 23, offset: 25367},
+																					pos: position{line: 790, col: 23, offset: 25435},
 																					expr: &litMatcher{
-																						pos:        position{line: 790, col: 23, offset: 25367},
+																						pos:        position{line: 790, col: 23, offset: 25435},
 																						val:        "+",
 																						ignoreCase: false,
 																						want:       "\"+\"",
@@ -33802,12 +33866,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 792, col: 8, offset: 25451},
+																	pos: position{line: 792, col: 8, offset: 25519},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2862, col: 10, offset: 90584},
 																		run: (*parser).callonListContinuationElement1012,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2862, col: 10, offset: 90584},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33816,28 +33880,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2884, col: 8, offset: 90982},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2871, col: 12, offset: 90755},
 																			run: (*parser).callonListContinuationElement1015,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2871, col: 13, offset: 90756},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2871, col: 13, offset: 90756},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2871, col: 20, offset: 90763},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2871, col: 29, offset: 90772},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33846,9 +33910,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2881, col: 8, offset: 90932},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2881, col: 9, offset: 90933,
 																			},
 																		},
 																	},
@@ -33858,56 +33922,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1018, col: 5, offset: 31492},
+													pos: position{line: 1018, col: 5, offset: 31560},
 													run: (*parser).callonListContinuationElement1022,
 												},
 												&labeledExpr{
-													pos:   position{line: 1021, col: 5, offset: 31584},
+													pos:   position{line: 1021, col: 5, offset: 31652},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1036, col: 5, offset: 32014},
+														pos: position{line: 1036, col: 5, offset: 32082},
 														expr: &actionExpr{
-															pos: position{line: 1036, col: 6, offset: 32015},
+															pos: position{line: 1036, col: 6, offset: 32083},
 															run: (*parser).callonListContinuationElement1025,
 															expr: &seqExpr{
-																pos: position{line: 1036, col: 6, offset: 32015},
+																pos: position{line: 1036, col: 6, offset: 32083},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1036, col: 6, offset: 32015},
+																		pos: position{line: 1036, col: 6, offset: 32083},
 																		expr: &choiceExpr{
-																			pos: position{line: 1029, col: 5, offset: 31848},
+																			pos: position{line: 1029, col: 5, offset: 31916},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1029, col: 5, offset: 31848},
+																					pos: position{line: 1029, col: 5, offset: 31916},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1029, col: 5, offset: 31848},
+																							pos:   position{line: 1029, col: 5, offset: 31916},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 790, col: 5, offset: 25349},
+																								pos: position{line: 790, col: 5, offset: 25417},
 																								run: (*parser).callonListContinuationElement1031,
 																								expr: &seqExpr{
-																									pos: position{line: 790, col: 5, offset: 25349},
+																									pos: position{line: 790, col: 5, offset: 25417},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 790, col: 5, offset: 25349},
+																											pos:   position{line: 790, col: 5, offset: 25417},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 790, col: 16, offset: 25360},
+																												pos: position{line: 790, col: 16, offset: 25428},
 																												run: (*parser).callonListContinuationElement1034,
 																												expr: &seqExpr{
-																													pos: position{line: 790, col: 16, offset: 25360},
+																													pos: position{line: 790, col: 16, offset: 25428},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 790, col: 16, offset: 25360},
+																															pos:        position{line: 790, col: 16, offset: 25428},
 																															val:        "++++",
 																															ignoreCase: false,
 																															want:       "\"++++\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 790, col: 23, offset: 25367},
+																															pos: position{line: 790, col: 23, offset: 25435},
 																															expr: &litMatcher{
-																																pos:        position{line: 790, col: 23, offset: 25367},
+																																pos:        position{line: 790, col: 23, offset: 25435},
 																																val:        "+",
 																																ignoreCase: false,
 																																want:       "\"+\"",
@@ -33918,12 +33982,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 792, col: 8, offset: 25451},
+																											pos: position{line: 792, col: 8, offset: 25519},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
+																												pos: position{line: 2862, col: 10, offset: 90584},
 																												run: (*parser).callonListContinuationElement1040,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2862, col: 10, offset: 90584},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33932,28 +33996,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2884, col: 8, offset: 90982},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
+																													pos: position{line: 2871, col: 12, offset: 90755},
 																													run: (*parser).callonListContinuationElement1043,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2871, col: 13, offset: 90756},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2871, col: 13, offset: 90756},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2871, col: 20, offset: 90763},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2871, col: 29, offset: 90772},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33962,9 +34026,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2881, col: 8, offset: 90932},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2881, col: 9, offset: 90933,
 																													},
 																												},
 																											},
@@ -33974,45 +34038,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1030, col: 5, offset: 31883},
+																							pos: position{line: 1030, col: 5, offset: 31951},
 																							run: (*parser).callonListContinuationElement1050,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2881, col: 8, offset: 90932},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2881, col: 9, offset: 90933,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1037, col: 5, offset: 32049},
+																		pos:   position{line: 1037, col: 5, offset: 32117},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26093},
+																			pos: position{line: 811, col: 5, offset: 26161},
 																			run: (*parser).callonListContinuationElement1054,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26093},
+																				pos: position{line: 811, col: 5, offset: 26161},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2879, col: 11, offset: 90918},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2879, col: 13, offset: 90920,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26168},
+																						pos:   position{line: 812, col: 5, offset: 26236},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2798, col: 13, offset: 88765},
+																							pos: position{line: 2808, col: 13, offset: 89110},
 																							run: (*parser).callonListContinuationElement1059,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2808, col: 13, offset: 89110},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2798, col: 13, offset: 88765},
+																									pos:        position{line: 2808, col: 13, offset: 89110},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34022,28 +34086,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2884, col: 8, offset: 90982},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2871, col: 12, offset: 90755},
 																								run: (*parser).callonListContinuationElement1063,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2871, col: 13, offset: 90756},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2871, col: 13, offset: 90756},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2871, col: 20, offset: 90763},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2871, col: 29, offset: 90772},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34052,9 +34116,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2881, col: 8, offset: 90932},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2881, col: 9, offset: 90933,
 																								},
 																							},
 																						},
@@ -34069,44 +34133,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1022, col: 5, offset: 31622},
+													pos:   position{line: 1022, col: 5, offset: 31690},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1022, col: 9, offset: 31626},
+														pos: position{line: 1022, col: 9, offset: 31694},
 														expr: &choiceExpr{
-															pos: position{line: 1029, col: 5, offset: 31848},
+															pos: position{line: 1029, col: 5, offset: 31916},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1029, col: 5, offset: 31848},
+																	pos: position{line: 1029, col: 5, offset: 31916},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1029, col: 5, offset: 31848},
+																			pos:   position{line: 1029, col: 5, offset: 31916},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 790, col: 5, offset: 25349},
+																				pos: position{line: 790, col: 5, offset: 25417},
 																				run: (*parser).callonListContinuationElement1075,
 																				expr: &seqExpr{
-																					pos: position{line: 790, col: 5, offset: 25349},
+																					pos: position{line: 790, col: 5, offset: 25417},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 790, col: 5, offset: 25349},
+																							pos:   position{line: 790, col: 5, offset: 25417},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 790, col: 16, offset: 25360},
+																								pos: position{line: 790, col: 16, offset: 25428},
 																								run: (*parser).callonListContinuationElement1078,
 																								expr: &seqExpr{
-																									pos: position{line: 790, col: 16, offset: 25360},
+																									pos: position{line: 790, col: 16, offset: 25428},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 790, col: 16, offset: 25360},
+																											pos:        position{line: 790, col: 16, offset: 25428},
 																											val:        "++++",
 																											ignoreCase: false,
 																											want:       "\"++++\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 790, col: 23, offset: 25367},
+																											pos: position{line: 790, col: 23, offset: 25435},
 																											expr: &litMatcher{
-																												pos:        position{line: 790, col: 23, offset: 25367},
+																												pos:        position{line: 790, col: 23, offset: 25435},
 																												val:        "+",
 																												ignoreCase: false,
 																												want:       "\"+\"",
@@ -34117,12 +34181,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 792, col: 8, offset: 25451},
+																							pos: position{line: 792, col: 8, offset: 25519},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2862, col: 10, offset: 90584},
 																								run: (*parser).callonListContinuationElement1084,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2862, col: 10, offset: 90584},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34131,28 +34195,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2884, col: 8, offset: 90982},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2871, col: 12, offset: 90755},
 																									run: (*parser).callonListContinuationElement1087,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2871, col: 13, offset: 90756},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2871, col: 13, offset: 90756},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2871, col: 20, offset: 90763},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2871, col: 29, offset: 90772},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34161,9 +34225,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2881, col: 8, offset: 90932},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2881, col: 9, offset: 90933,
 																									},
 																								},
 																							},
@@ -34173,15 +34237,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1030, col: 5, offset: 31883},
+																			pos: position{line: 1030, col: 5, offset: 31951},
 																			run: (*parser).callonListContinuationElement1094,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2881, col: 8, offset: 90932},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2881, col: 9, offset: 90933,
 																	},
 																},
 															},
@@ -34192,39 +34256,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1045, col: 5, offset: 32200},
+										pos: position{line: 1045, col: 5, offset: 32268},
 										run: (*parser).callonListContinuationElement1097,
 										expr: &seqExpr{
-											pos: position{line: 1045, col: 5, offset: 32200},
+											pos: position{line: 1045, col: 5, offset: 32268},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1045, col: 5, offset: 32200},
+													pos:   position{line: 1045, col: 5, offset: 32268},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 797, col: 5, offset: 25599},
+														pos: position{line: 797, col: 5, offset: 25667},
 														run: (*parser).callonListContinuationElement1100,
 														expr: &seqExpr{
-															pos: position{line: 797, col: 5, offset: 25599},
+															pos: position{line: 797, col: 5, offset: 25667},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 797, col: 5, offset: 25599},
+																	pos:   position{line: 797, col: 5, offset: 25667},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 797, col: 16, offset: 25610},
+																		pos: position{line: 797, col: 16, offset: 25678},
 																		run: (*parser).callonListContinuationElement1103,
 																		expr: &seqExpr{
-																			pos: position{line: 797, col: 16, offset: 25610},
+																			pos: position{line: 797, col: 16, offset: 25678},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 797, col: 16, offset: 25610},
+																					pos:        position{line: 797, col: 16, offset: 25678},
 																					val:        "____",
 																					ignoreCase: false,
 																					want:       "\"____\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 797, col: 23, offset: 25617},
+																					pos: position{line: 797, col: 23, offset: 25685},
 																					expr: &litMatcher{
-																						pos:        position{line: 797, col: 23, offset: 25617},
+																						pos:        position{line: 797, col: 23, offset: 25685},
 																						val:        "_",
 																						ignoreCase: false,
 																						want:       "\"_\"",
@@ -34235,12 +34299,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 799, col: 8, offset: 25701},
+																	pos: position{line: 799, col: 8, offset: 25769},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2862, col: 10, offset: 90584},
 																		run: (*parser).callonListContinuationElement1109,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2862, col: 10, offset: 90584},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34249,28 +34313,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2884, col: 8, offset: 90982},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2871, col: 12, offset: 90755},
 																			run: (*parser).callonListContinuationElement1112,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2871, col: 13, offset: 90756},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2871, col: 13, offset: 90756},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2871, col: 20, offset: 90763},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2871, col: 29, offset: 90772},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34279,9 +34343,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2881, col: 8, offset: 90932},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2881, col: 9, offset: 90933,
 																			},
 																		},
 																	},
@@ -34291,56 +34355,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1046, col: 5, offset: 32237},
+													pos: position{line: 1046, col: 5, offset: 32305},
 													run: (*parser).callonListContinuationElement1119,
 												},
 												&labeledExpr{
-													pos:   position{line: 1049, col: 5, offset: 32329},
+													pos:   position{line: 1049, col: 5, offset: 32397},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1064, col: 4, offset: 32710},
+														pos: position{line: 1064, col: 4, offset: 32778},
 														expr: &actionExpr{
-															pos: position{line: 1064, col: 5, offset: 32711},
+															pos: position{line: 1064, col: 5, offset: 32779},
 															run: (*parser).callonListContinuationElement1122,
 															expr: &seqExpr{
-																pos: position{line: 1064, col: 5, offset: 32711},
+																pos: position{line: 1064, col: 5, offset: 32779},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1064, col: 5, offset: 32711},
+																		pos: position{line: 1064, col: 5, offset: 32779},
 																		expr: &choiceExpr{
-																			pos: position{line: 1057, col: 5, offset: 32557},
+																			pos: position{line: 1057, col: 5, offset: 32625},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1057, col: 5, offset: 32557},
+																					pos: position{line: 1057, col: 5, offset: 32625},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1057, col: 5, offset: 32557},
+																							pos:   position{line: 1057, col: 5, offset: 32625},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 797, col: 5, offset: 25599},
+																								pos: position{line: 797, col: 5, offset: 25667},
 																								run: (*parser).callonListContinuationElement1128,
 																								expr: &seqExpr{
-																									pos: position{line: 797, col: 5, offset: 25599},
+																									pos: position{line: 797, col: 5, offset: 25667},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 797, col: 5, offset: 25599},
+																											pos:   position{line: 797, col: 5, offset: 25667},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 797, col: 16, offset: 25610},
+																												pos: position{line: 797, col: 16, offset: 25678},
 																												run: (*parser).callonListContinuationElement1131,
 																												expr: &seqExpr{
-																													pos: position{line: 797, col: 16, offset: 25610},
+																													pos: position{line: 797, col: 16, offset: 25678},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 797, col: 16, offset: 25610},
+																															pos:        position{line: 797, col: 16, offset: 25678},
 																															val:        "____",
 																															ignoreCase: false,
 																															want:       "\"____\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 797, col: 23, offset: 25617},
+																															pos: position{line: 797, col: 23, offset: 25685},
 																															expr: &litMatcher{
-																																pos:        position{line: 797, col: 23, offset: 25617},
+																																pos:        position{line: 797, col: 23, offset: 25685},
 																																val:        "_",
 																																ignoreCase: false,
 																																want:       "\"_\"",
@@ -34351,12 +34415,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 799, col: 8, offset: 25701},
+																											pos: position{line: 799, col: 8, offset: 25769},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
+																												pos: position{line: 2862, col: 10, offset: 90584},
 																												run: (*parser).callonListContinuationElement1137,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2862, col: 10, offset: 90584},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34365,28 +34429,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2884, col: 8, offset: 90982},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
+																													pos: position{line: 2871, col: 12, offset: 90755},
 																													run: (*parser).callonListContinuationElement1140,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2871, col: 13, offset: 90756},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2871, col: 13, offset: 90756},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2871, col: 20, offset: 90763},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2871, col: 29, offset: 90772},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34395,9 +34459,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2881, col: 8, offset: 90932},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2881, col: 9, offset: 90933,
 																													},
 																												},
 																											},
@@ -34407,45 +34471,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1058, col: 5, offset: 32586},
+																							pos: position{line: 1058, col: 5, offset: 32654},
 																							run: (*parser).callonListContinuationElement1147,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2881, col: 8, offset: 90932},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2881, col: 9, offset: 90933,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1065, col: 5, offset: 32739},
+																		pos:   position{line: 1065, col: 5, offset: 32807},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26093},
+																			pos: position{line: 811, col: 5, offset: 26161},
 																			run: (*parser).callonListContinuationElement1151,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26093},
+																				pos: position{line: 811, col: 5, offset: 26161},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2879, col: 11, offset: 90918},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2879, col: 13, offset: 90920,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26168},
+																						pos:   position{line: 812, col: 5, offset: 26236},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2798, col: 13, offset: 88765},
+																							pos: position{line: 2808, col: 13, offset: 89110},
 																							run: (*parser).callonListContinuationElement1156,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2808, col: 13, offset: 89110},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2798, col: 13, offset: 88765},
+																									pos:        position{line: 2808, col: 13, offset: 89110},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34455,28 +34519,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2884, col: 8, offset: 90982},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2871, col: 12, offset: 90755},
 																								run: (*parser).callonListContinuationElement1160,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2871, col: 13, offset: 90756},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2871, col: 13, offset: 90756},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2871, col: 20, offset: 90763},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2871, col: 29, offset: 90772},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34485,9 +34549,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2881, col: 8, offset: 90932},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2881, col: 9, offset: 90933,
 																								},
 																							},
 																						},
@@ -34502,44 +34566,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1050, col: 5, offset: 32361},
+													pos:   position{line: 1050, col: 5, offset: 32429},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1050, col: 9, offset: 32365},
+														pos: position{line: 1050, col: 9, offset: 32433},
 														expr: &choiceExpr{
-															pos: position{line: 1057, col: 5, offset: 32557},
+															pos: position{line: 1057, col: 5, offset: 32625},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1057, col: 5, offset: 32557},
+																	pos: position{line: 1057, col: 5, offset: 32625},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1057, col: 5, offset: 32557},
+																			pos:   position{line: 1057, col: 5, offset: 32625},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 797, col: 5, offset: 25599},
+																				pos: position{line: 797, col: 5, offset: 25667},
 																				run: (*parser).callonListContinuationElement1172,
 																				expr: &seqExpr{
-																					pos: position{line: 797, col: 5, offset: 25599},
+																					pos: position{line: 797, col: 5, offset: 25667},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 797, col: 5, offset: 25599},
+																							pos:   position{line: 797, col: 5, offset: 25667},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 797, col: 16, offset: 25610},
+																								pos: position{line: 797, col: 16, offset: 25678},
 																								run: (*parser).callonListContinuationElement1175,
 																								expr: &seqExpr{
-																									pos: position{line: 797, col: 16, offset: 25610},
+																									pos: position{line: 797, col: 16, offset: 25678},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 797, col: 16, offset: 25610},
+																											pos:        position{line: 797, col: 16, offset: 25678},
 																											val:        "____",
 																											ignoreCase: false,
 																											want:       "\"____\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 797, col: 23, offset: 25617},
+																											pos: position{line: 797, col: 23, offset: 25685},
 																											expr: &litMatcher{
-																												pos:        position{line: 797, col: 23, offset: 25617},
+																												pos:        position{line: 797, col: 23, offset: 25685},
 																												val:        "_",
 																												ignoreCase: false,
 																												want:       "\"_\"",
@@ -34550,12 +34614,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 799, col: 8, offset: 25701},
+																							pos: position{line: 799, col: 8, offset: 25769},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2862, col: 10, offset: 90584},
 																								run: (*parser).callonListContinuationElement1181,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2862, col: 10, offset: 90584},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34564,28 +34628,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2884, col: 8, offset: 90982},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2871, col: 12, offset: 90755},
 																									run: (*parser).callonListContinuationElement1184,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2871, col: 13, offset: 90756},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2871, col: 13, offset: 90756},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2871, col: 20, offset: 90763},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2871, col: 29, offset: 90772},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34594,9 +34658,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2881, col: 8, offset: 90932},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2881, col: 9, offset: 90933,
 																									},
 																								},
 																							},
@@ -34606,15 +34670,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1058, col: 5, offset: 32586},
+																			pos: position{line: 1058, col: 5, offset: 32654},
 																			run: (*parser).callonListContinuationElement1191,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2881, col: 8, offset: 90932},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2881, col: 9, offset: 90933,
 																	},
 																},
 															},
@@ -34625,39 +34689,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1073, col: 5, offset: 32894},
+										pos: position{line: 1073, col: 5, offset: 32962},
 										run: (*parser).callonListContinuationElement1194,
 										expr: &seqExpr{
-											pos: position{line: 1073, col: 5, offset: 32894},
+											pos: position{line: 1073, col: 5, offset: 32962},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1073, col: 5, offset: 32894},
+													pos:   position{line: 1073, col: 5, offset: 32962},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 804, col: 5, offset: 25845},
+														pos: position{line: 804, col: 5, offset: 25913},
 														run: (*parser).callonListContinuationElement1197,
 														expr: &seqExpr{
-															pos: position{line: 804, col: 5, offset: 25845},
+															pos: position{line: 804, col: 5, offset: 25913},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 804, col: 5, offset: 25845},
+																	pos:   position{line: 804, col: 5, offset: 25913},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 804, col: 16, offset: 25856},
+																		pos: position{line: 804, col: 16, offset: 25924},
 																		run: (*parser).callonListContinuationElement1200,
 																		expr: &seqExpr{
-																			pos: position{line: 804, col: 16, offset: 25856},
+																			pos: position{line: 804, col: 16, offset: 25924},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 804, col: 16, offset: 25856},
+																					pos:        position{line: 804, col: 16, offset: 25924},
 																					val:        "****",
 																					ignoreCase: false,
 																					want:       "\"****\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 804, col: 23, offset: 25863},
+																					pos: position{line: 804, col: 23, offset: 25931},
 																					expr: &litMatcher{
-																						pos:        position{line: 804, col: 23, offset: 25863},
+																						pos:        position{line: 804, col: 23, offset: 25931},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -34668,12 +34732,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 806, col: 8, offset: 25947},
+																	pos: position{line: 806, col: 8, offset: 26015},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2862, col: 10, offset: 90584},
 																		run: (*parser).callonListContinuationElement1206,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2862, col: 10, offset: 90584},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34682,28 +34746,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2884, col: 8, offset: 90982},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2871, col: 12, offset: 90755},
 																			run: (*parser).callonListContinuationElement1209,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2871, col: 13, offset: 90756},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2871, col: 13, offset: 90756},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2871, col: 20, offset: 90763},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2871, col: 29, offset: 90772},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34712,9 +34776,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2881, col: 8, offset: 90932},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2881, col: 9, offset: 90933,
 																			},
 																		},
 																	},
@@ -34724,56 +34788,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1074, col: 5, offset: 32933},
+													pos: position{line: 1074, col: 5, offset: 33001},
 													run: (*parser).callonListContinuationElement1216,
 												},
 												&labeledExpr{
-													pos:   position{line: 1077, col: 5, offset: 33025},
+													pos:   position{line: 1077, col: 5, offset: 33093},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1092, col: 4, offset: 33422},
+														pos: position{line: 1092, col: 4, offset: 33490},
 														expr: &actionExpr{
-															pos: position{line: 1092, col: 5, offset: 33423},
+															pos: position{line: 1092, col: 5, offset: 33491},
 															run: (*parser).callonListContinuationElement1219,
 															expr: &seqExpr{
-																pos: position{line: 1092, col: 5, offset: 33423},
+																pos: position{line: 1092, col: 5, offset: 33491},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1092, col: 5, offset: 33423},
+																		pos: position{line: 1092, col: 5, offset: 33491},
 																		expr: &choiceExpr{
-																			pos: position{line: 1085, col: 5, offset: 33265},
+																			pos: position{line: 1085, col: 5, offset: 33333},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1085, col: 5, offset: 33265},
+																					pos: position{line: 1085, col: 5, offset: 33333},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1085, col: 5, offset: 33265},
+																							pos:   position{line: 1085, col: 5, offset: 33333},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 804, col: 5, offset: 25845},
+																								pos: position{line: 804, col: 5, offset: 25913},
 																								run: (*parser).callonListContinuationElement1225,
 																								expr: &seqExpr{
-																									pos: position{line: 804, col: 5, offset: 25845},
+																									pos: position{line: 804, col: 5, offset: 25913},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 804, col: 5, offset: 25845},
+																											pos:   position{line: 804, col: 5, offset: 25913},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 804, col: 16, offset: 25856},
+																												pos: position{line: 804, col: 16, offset: 25924},
 																												run: (*parser).callonListContinuationElement1228,
 																												expr: &seqExpr{
-																													pos: position{line: 804, col: 16, offset: 25856},
+																													pos: position{line: 804, col: 16, offset: 25924},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 804, col: 16, offset: 25856},
+																															pos:        position{line: 804, col: 16, offset: 25924},
 																															val:        "****",
 																															ignoreCase: false,
 																															want:       "\"****\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 804, col: 23, offset: 25863},
+																															pos: position{line: 804, col: 23, offset: 25931},
 																															expr: &litMatcher{
-																																pos:        position{line: 804, col: 23, offset: 25863},
+																																pos:        position{line: 804, col: 23, offset: 25931},
 																																val:        "*",
 																																ignoreCase: false,
 																																want:       "\"*\"",
@@ -34784,12 +34848,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 806, col: 8, offset: 25947},
+																											pos: position{line: 806, col: 8, offset: 26015},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
+																												pos: position{line: 2862, col: 10, offset: 90584},
 																												run: (*parser).callonListContinuationElement1234,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2862, col: 10, offset: 90584},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34798,28 +34862,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2884, col: 8, offset: 90982},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
+																													pos: position{line: 2871, col: 12, offset: 90755},
 																													run: (*parser).callonListContinuationElement1237,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2871, col: 13, offset: 90756},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2871, col: 13, offset: 90756},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2871, col: 20, offset: 90763},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2871, col: 29, offset: 90772},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34828,9 +34892,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2881, col: 8, offset: 90932},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2881, col: 9, offset: 90933,
 																													},
 																												},
 																											},
@@ -34840,45 +34904,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1086, col: 5, offset: 33296},
+																							pos: position{line: 1086, col: 5, offset: 33364},
 																							run: (*parser).callonListContinuationElement1244,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2881, col: 8, offset: 90932},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2881, col: 9, offset: 90933,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1093, col: 5, offset: 33453},
+																		pos:   position{line: 1093, col: 5, offset: 33521},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26093},
+																			pos: position{line: 811, col: 5, offset: 26161},
 																			run: (*parser).callonListContinuationElement1248,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26093},
+																				pos: position{line: 811, col: 5, offset: 26161},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2879, col: 11, offset: 90918},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2879, col: 13, offset: 90920,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26168},
+																						pos:   position{line: 812, col: 5, offset: 26236},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2798, col: 13, offset: 88765},
+																							pos: position{line: 2808, col: 13, offset: 89110},
 																							run: (*parser).callonListContinuationElement1253,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2808, col: 13, offset: 89110},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2798, col: 13, offset: 88765},
+																									pos:        position{line: 2808, col: 13, offset: 89110},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34888,28 +34952,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2884, col: 8, offset: 90982},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2871, col: 12, offset: 90755},
 																								run: (*parser).callonListContinuationElement1257,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2871, col: 13, offset: 90756},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2871, col: 13, offset: 90756},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2871, col: 20, offset: 90763},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2871, col: 29, offset: 90772},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34918,9 +34982,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2881, col: 8, offset: 90932},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2881, col: 9, offset: 90933,
 																								},
 																							},
 																						},
@@ -34935,44 +34999,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1078, col: 5, offset: 33059},
+													pos:   position{line: 1078, col: 5, offset: 33127},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1078, col: 9, offset: 33063},
+														pos: position{line: 1078, col: 9, offset: 33131},
 														expr: &choiceExpr{
-															pos: position{line: 1085, col: 5, offset: 33265},
+															pos: position{line: 1085, col: 5, offset: 33333},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1085, col: 5, offset: 33265},
+																	pos: position{line: 1085, col: 5, offset: 33333},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1085, col: 5, offset: 33265},
+																			pos:   position{line: 1085, col: 5, offset: 33333},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 804, col: 5, offset: 25845},
+																				pos: position{line: 804, col: 5, offset: 25913},
 																				run: (*parser).callonListContinuationElement1269,
 																				expr: &seqExpr{
-																					pos: position{line: 804, col: 5, offset: 25845},
+																					pos: position{line: 804, col: 5, offset: 25913},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 804, col: 5, offset: 25845},
+																							pos:   position{line: 804, col: 5, offset: 25913},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 804, col: 16, offset: 25856},
+																								pos: position{line: 804, col: 16, offset: 25924},
 																								run: (*parser).callonListContinuationElement1272,
 																								expr: &seqExpr{
-																									pos: position{line: 804, col: 16, offset: 25856},
+																									pos: position{line: 804, col: 16, offset: 25924},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 804, col: 16, offset: 25856},
+																											pos:        position{line: 804, col: 16, offset: 25924},
 																											val:        "****",
 																											ignoreCase: false,
 																											want:       "\"****\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 804, col: 23, offset: 25863},
+																											pos: position{line: 804, col: 23, offset: 25931},
 																											expr: &litMatcher{
-																												pos:        position{line: 804, col: 23, offset: 25863},
+																												pos:        position{line: 804, col: 23, offset: 25931},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -34983,12 +35047,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 806, col: 8, offset: 25947},
+																							pos: position{line: 806, col: 8, offset: 26015},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2862, col: 10, offset: 90584},
 																								run: (*parser).callonListContinuationElement1278,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2862, col: 10, offset: 90584},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34997,28 +35061,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2884, col: 8, offset: 90982},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2871, col: 12, offset: 90755},
 																									run: (*parser).callonListContinuationElement1281,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2871, col: 13, offset: 90756},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2871, col: 13, offset: 90756},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2871, col: 20, offset: 90763},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2871, col: 29, offset: 90772},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35027,9 +35091,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2881, col: 8, offset: 90932},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2881, col: 9, offset: 90933,
 																									},
 																								},
 																							},
@@ -35039,15 +35103,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1086, col: 5, offset: 33296},
+																			pos: position{line: 1086, col: 5, offset: 33364},
 																			run: (*parser).callonListContinuationElement1288,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2881, col: 8, offset: 90932},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2881, col: 9, offset: 90933,
 																	},
 																},
 															},
@@ -35058,52 +35122,52 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2697, col: 18, offset: 85834},
+										pos: position{line: 2707, col: 18, offset: 86179},
 										run: (*parser).callonListContinuationElement1291,
 										expr: &seqExpr{
-											pos: position{line: 2697, col: 18, offset: 85834},
+											pos: position{line: 2707, col: 18, offset: 86179},
 											exprs: []interface{}{
 												&choiceExpr{
-													pos: position{line: 2698, col: 9, offset: 85844},
+													pos: position{line: 2708, col: 9, offset: 86189},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2698, col: 9, offset: 85844},
+															pos:        position{line: 2708, col: 9, offset: 86189},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2699, col: 11, offset: 85880},
+															pos:        position{line: 2709, col: 11, offset: 86225},
 															val:        "***",
 															ignoreCase: false,
 															want:       "\"***\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2699, col: 19, offset: 85888},
+															pos:        position{line: 2709, col: 19, offset: 86233},
 															val:        "* * *",
 															ignoreCase: false,
 															want:       "\"* * *\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2699, col: 29, offset: 85898},
+															pos:        position{line: 2709, col: 29, offset: 86243},
 															val:        "---",
 															ignoreCase: false,
 															want:       "\"---\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2699, col: 37, offset: 85906},
+															pos:        position{line: 2709, col: 37, offset: 86251},
 															val:        "- - -",
 															ignoreCase: false,
 															want:       "\"- - -\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2699, col: 47, offset: 85916},
+															pos:        position{line: 2709, col: 47, offset: 86261},
 															val:        "___",
 															ignoreCase: false,
 															want:       "\"___\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2699, col: 55, offset: 85924},
+															pos:        position{line: 2709, col: 55, offset: 86269},
 															val:        "_ _ _",
 															ignoreCase: false,
 															want:       "\"_ _ _\"",
@@ -35111,12 +35175,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2700, col: 11, offset: 85970},
+													pos: position{line: 2710, col: 11, offset: 86315},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2862, col: 10, offset: 90584},
 														run: (*parser).callonListContinuationElement1302,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2862, col: 10, offset: 90584},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35125,28 +35189,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2884, col: 8, offset: 90982},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2871, col: 12, offset: 90755},
 															run: (*parser).callonListContinuationElement1305,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2871, col: 13, offset: 90756},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2871, col: 13, offset: 90756},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2871, col: 20, offset: 90763},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2871, col: 29, offset: 90772},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35155,20 +35219,20 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2881, col: 8, offset: 90932},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2881, col: 9, offset: 90933,
 															},
 														},
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2700, col: 22, offset: 85981},
+													pos: position{line: 2710, col: 22, offset: 86326},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2862, col: 10, offset: 90584},
 														run: (*parser).callonListContinuationElement1313,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2862, col: 10, offset: 90584},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35177,28 +35241,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2884, col: 8, offset: 90982},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2871, col: 12, offset: 90755},
 															run: (*parser).callonListContinuationElement1316,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2871, col: 13, offset: 90756},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2871, col: 13, offset: 90756},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2871, col: 20, offset: 90763},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2871, col: 29, offset: 90772},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35207,9 +35271,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2881, col: 8, offset: 90932},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2881, col: 9, offset: 90933,
 															},
 														},
 													},
@@ -35218,28 +35282,28 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1548, col: 11, offset: 49991},
+										pos:  position{line: 1548, col: 11, offset: 50127},
 										name: "ImageBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2588, col: 5, offset: 82770},
+										pos: position{line: 2598, col: 5, offset: 83115},
 										run: (*parser).callonListContinuationElement1324,
 										expr: &seqExpr{
-											pos: position{line: 2588, col: 5, offset: 82770},
+											pos: position{line: 2598, col: 5, offset: 83115},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2594, col: 19, offset: 82927},
+													pos:        position{line: 2604, col: 19, offset: 83272},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2594, col: 26, offset: 82934},
+													pos: position{line: 2604, col: 26, offset: 83279},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2862, col: 10, offset: 90584},
 														run: (*parser).callonListContinuationElement1328,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2862, col: 10, offset: 90584},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35248,28 +35312,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2884, col: 8, offset: 90982},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2871, col: 12, offset: 90755},
 															run: (*parser).callonListContinuationElement1331,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2871, col: 13, offset: 90756},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2871, col: 13, offset: 90756},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2871, col: 20, offset: 90763},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2871, col: 29, offset: 90772},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35278,40 +35342,40 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2881, col: 8, offset: 90932},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2881, col: 9, offset: 90933,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2589, col: 5, offset: 82794},
+													pos:   position{line: 2599, col: 5, offset: 83139},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2589, col: 11, offset: 82800},
+														pos: position{line: 2599, col: 11, offset: 83145},
 														expr: &choiceExpr{
-															pos: position{line: 2589, col: 12, offset: 82801},
+															pos: position{line: 2599, col: 12, offset: 83146},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 677, col: 14, offset: 21489},
+																	pos: position{line: 677, col: 14, offset: 21557},
 																	run: (*parser).callonListContinuationElement1341,
 																	expr: &seqExpr{
-																		pos: position{line: 677, col: 14, offset: 21489},
+																		pos: position{line: 677, col: 14, offset: 21557},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2869, col: 11, offset: 90573},
+																				pos: position{line: 2879, col: 11, offset: 90918},
 																				expr: &anyMatcher{
-																					line: 2869, col: 13, offset: 90575,
+																					line: 2879, col: 13, offset: 90920,
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 677, col: 21, offset: 21496},
+																				pos: position{line: 677, col: 21, offset: 21564},
 																				expr: &actionExpr{
-																					pos: position{line: 2852, col: 10, offset: 90239},
+																					pos: position{line: 2862, col: 10, offset: 90584},
 																					run: (*parser).callonListContinuationElement1346,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2852, col: 10, offset: 90239},
+																						pos:        position{line: 2862, col: 10, offset: 90584},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -35320,28 +35384,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2874, col: 8, offset: 90637},
+																				pos: position{line: 2884, col: 8, offset: 90982},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2861, col: 12, offset: 90410},
+																						pos: position{line: 2871, col: 12, offset: 90755},
 																						run: (*parser).callonListContinuationElement1349,
 																						expr: &choiceExpr{
-																							pos: position{line: 2861, col: 13, offset: 90411},
+																							pos: position{line: 2871, col: 13, offset: 90756},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 13, offset: 90411},
+																									pos:        position{line: 2871, col: 13, offset: 90756},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 20, offset: 90418},
+																									pos:        position{line: 2871, col: 20, offset: 90763},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 29, offset: 90427},
+																									pos:        position{line: 2871, col: 29, offset: 90772},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35350,9 +35414,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2881, col: 8, offset: 90932},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2881, col: 9, offset: 90933,
 																						},
 																					},
 																				},
@@ -35361,32 +35425,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2601, col: 5, offset: 83046},
+																	pos: position{line: 2611, col: 5, offset: 83391},
 																	run: (*parser).callonListContinuationElement1356,
 																	expr: &seqExpr{
-																		pos: position{line: 2601, col: 5, offset: 83046},
+																		pos: position{line: 2611, col: 5, offset: 83391},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2601, col: 5, offset: 83046},
+																				pos: position{line: 2611, col: 5, offset: 83391},
 																				expr: &choiceExpr{
-																					pos: position{line: 2598, col: 22, offset: 83007},
+																					pos: position{line: 2608, col: 22, offset: 83352},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2594, col: 19, offset: 82927},
+																							pos: position{line: 2604, col: 19, offset: 83272},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2594, col: 19, offset: 82927},
+																									pos:        position{line: 2604, col: 19, offset: 83272},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2594, col: 26, offset: 82934},
+																									pos: position{line: 2604, col: 26, offset: 83279},
 																									expr: &actionExpr{
-																										pos: position{line: 2852, col: 10, offset: 90239},
+																										pos: position{line: 2862, col: 10, offset: 90584},
 																										run: (*parser).callonListContinuationElement1363,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2852, col: 10, offset: 90239},
+																											pos:        position{line: 2862, col: 10, offset: 90584},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -35395,28 +35459,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2874, col: 8, offset: 90637},
+																									pos: position{line: 2884, col: 8, offset: 90982},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2861, col: 12, offset: 90410},
+																											pos: position{line: 2871, col: 12, offset: 90755},
 																											run: (*parser).callonListContinuationElement1366,
 																											expr: &choiceExpr{
-																												pos: position{line: 2861, col: 13, offset: 90411},
+																												pos: position{line: 2871, col: 13, offset: 90756},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 13, offset: 90411},
+																														pos:        position{line: 2871, col: 13, offset: 90756},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 20, offset: 90418},
+																														pos:        position{line: 2871, col: 20, offset: 90763},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 29, offset: 90427},
+																														pos:        position{line: 2871, col: 29, offset: 90772},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -35425,9 +35489,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2871, col: 8, offset: 90587},
+																											pos: position{line: 2881, col: 8, offset: 90932},
 																											expr: &anyMatcher{
-																												line: 2871, col: 9, offset: 90588,
+																												line: 2881, col: 9, offset: 90933,
 																											},
 																										},
 																									},
@@ -35435,59 +35499,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2871, col: 8, offset: 90587},
+																							pos: position{line: 2881, col: 8, offset: 90932},
 																							expr: &anyMatcher{
-																								line: 2871, col: 9, offset: 90588,
+																								line: 2881, col: 9, offset: 90933,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2602, col: 5, offset: 83069},
+																				pos:   position{line: 2612, col: 5, offset: 83414},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2603, col: 9, offset: 83087},
+																					pos: position{line: 2613, col: 9, offset: 83432},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2603, col: 10, offset: 83088},
+																							pos: position{line: 2613, col: 10, offset: 83433},
 																							run: (*parser).callonListContinuationElement1377,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2603, col: 10, offset: 83088},
+																								pos:   position{line: 2613, col: 10, offset: 83433},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2603, col: 17, offset: 83095},
+																									pos: position{line: 2613, col: 17, offset: 83440},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2611, col: 21, offset: 83291},
+																											pos: position{line: 2621, col: 21, offset: 83636},
 																											run: (*parser).callonListContinuationElement1380,
 																											expr: &seqExpr{
-																												pos: position{line: 2611, col: 21, offset: 83291},
+																												pos: position{line: 2621, col: 21, offset: 83636},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2611, col: 21, offset: 83291},
+																														pos:   position{line: 2621, col: 21, offset: 83636},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2611, col: 27, offset: 83297},
+																															pos: position{line: 2621, col: 27, offset: 83642},
 																															expr: &actionExpr{
-																																pos: position{line: 2616, col: 5, offset: 83372},
+																																pos: position{line: 2626, col: 5, offset: 83717},
 																																run: (*parser).callonListContinuationElement1384,
 																																expr: &seqExpr{
-																																	pos: position{line: 2616, col: 5, offset: 83372},
+																																	pos: position{line: 2626, col: 5, offset: 83717},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2616, col: 5, offset: 83372},
+																																			pos:        position{line: 2626, col: 5, offset: 83717},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2616, col: 9, offset: 83376},
+																																			pos: position{line: 2626, col: 9, offset: 83721},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2852, col: 10, offset: 90239},
+																																				pos: position{line: 2862, col: 10, offset: 90584},
 																																				run: (*parser).callonListContinuationElement1388,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2852, col: 10, offset: 90239},
+																																					pos:        position{line: 2862, col: 10, offset: 90584},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -35496,21 +35560,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2616, col: 16, offset: 83383},
+																																			pos:   position{line: 2626, col: 16, offset: 83728},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2622, col: 5, offset: 83583},
+																																				pos: position{line: 2632, col: 5, offset: 83928},
 																																				run: (*parser).callonListContinuationElement1391,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2622, col: 5, offset: 83583},
+																																					pos:   position{line: 2632, col: 5, offset: 83928},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2622, col: 14, offset: 83592},
+																																						pos: position{line: 2632, col: 14, offset: 83937},
 																																						run: (*parser).callonListContinuationElement1393,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2622, col: 14, offset: 83592},
+																																							pos: position{line: 2632, col: 14, offset: 83937},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2622, col: 14, offset: 83592},
+																																								pos:        position{line: 2632, col: 14, offset: 83937},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -35527,28 +35591,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2874, col: 8, offset: 90637},
+																														pos: position{line: 2884, col: 8, offset: 90982},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2861, col: 12, offset: 90410},
+																																pos: position{line: 2871, col: 12, offset: 90755},
 																																run: (*parser).callonListContinuationElement1397,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2861, col: 13, offset: 90411},
+																																	pos: position{line: 2871, col: 13, offset: 90756},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2861, col: 13, offset: 90411},
+																																			pos:        position{line: 2871, col: 13, offset: 90756},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2861, col: 20, offset: 90418},
+																																			pos:        position{line: 2871, col: 20, offset: 90763},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2861, col: 29, offset: 90427},
+																																			pos:        position{line: 2871, col: 29, offset: 90772},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -35557,9 +35621,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2871, col: 8, offset: 90587},
+																																pos: position{line: 2881, col: 8, offset: 90932},
 																																expr: &anyMatcher{
-																																	line: 2871, col: 9, offset: 90588,
+																																	line: 2881, col: 9, offset: 90933,
 																																},
 																															},
 																														},
@@ -35568,40 +35632,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2628, col: 24, offset: 83728},
+																											pos: position{line: 2638, col: 24, offset: 84073},
 																											run: (*parser).callonListContinuationElement1404,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2628, col: 24, offset: 83728},
+																												pos:   position{line: 2638, col: 24, offset: 84073},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2628, col: 30, offset: 83734},
+																													pos: position{line: 2638, col: 30, offset: 84079},
 																													expr: &actionExpr{
-																														pos: position{line: 2633, col: 5, offset: 83810},
+																														pos: position{line: 2643, col: 5, offset: 84155},
 																														run: (*parser).callonListContinuationElement1407,
 																														expr: &seqExpr{
-																															pos: position{line: 2633, col: 5, offset: 83810},
+																															pos: position{line: 2643, col: 5, offset: 84155},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2633, col: 5, offset: 83810},
+																																	pos: position{line: 2643, col: 5, offset: 84155},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2598, col: 22, offset: 83007},
+																																		pos: position{line: 2608, col: 22, offset: 83352},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2594, col: 19, offset: 82927},
+																																				pos: position{line: 2604, col: 19, offset: 83272},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2594, col: 19, offset: 82927},
+																																						pos:        position{line: 2604, col: 19, offset: 83272},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2594, col: 26, offset: 82934},
+																																						pos: position{line: 2604, col: 26, offset: 83279},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2852, col: 10, offset: 90239},
+																																							pos: position{line: 2862, col: 10, offset: 90584},
 																																							run: (*parser).callonListContinuationElement1414,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2852, col: 10, offset: 90239},
+																																								pos:        position{line: 2862, col: 10, offset: 90584},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -35610,28 +35674,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2874, col: 8, offset: 90637},
+																																						pos: position{line: 2884, col: 8, offset: 90982},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2861, col: 12, offset: 90410},
+																																								pos: position{line: 2871, col: 12, offset: 90755},
 																																								run: (*parser).callonListContinuationElement1417,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2861, col: 13, offset: 90411},
+																																									pos: position{line: 2871, col: 13, offset: 90756},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2861, col: 13, offset: 90411},
+																																											pos:        position{line: 2871, col: 13, offset: 90756},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2861, col: 20, offset: 90418},
+																																											pos:        position{line: 2871, col: 20, offset: 90763},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2861, col: 29, offset: 90427},
+																																											pos:        position{line: 2871, col: 29, offset: 90772},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -35640,9 +35704,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2871, col: 8, offset: 90587},
+																																								pos: position{line: 2881, col: 8, offset: 90932},
 																																								expr: &anyMatcher{
-																																									line: 2871, col: 9, offset: 90588,
+																																									line: 2881, col: 9, offset: 90933,
 																																								},
 																																							},
 																																						},
@@ -35650,35 +35714,35 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2871, col: 8, offset: 90587},
+																																				pos: position{line: 2881, col: 8, offset: 90932},
 																																				expr: &anyMatcher{
-																																					line: 2871, col: 9, offset: 90588,
+																																					line: 2881, col: 9, offset: 90933,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2634, col: 5, offset: 83833},
+																																	pos: position{line: 2644, col: 5, offset: 84178},
 																																	expr: &actionExpr{
-																																		pos: position{line: 677, col: 14, offset: 21489},
+																																		pos: position{line: 677, col: 14, offset: 21557},
 																																		run: (*parser).callonListContinuationElement1427,
 																																		expr: &seqExpr{
-																																			pos: position{line: 677, col: 14, offset: 21489},
+																																			pos: position{line: 677, col: 14, offset: 21557},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2869, col: 11, offset: 90573},
+																																					pos: position{line: 2879, col: 11, offset: 90918},
 																																					expr: &anyMatcher{
-																																						line: 2869, col: 13, offset: 90575,
+																																						line: 2879, col: 13, offset: 90920,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
-																																					pos: position{line: 677, col: 21, offset: 21496},
+																																					pos: position{line: 677, col: 21, offset: 21564},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2852, col: 10, offset: 90239},
+																																						pos: position{line: 2862, col: 10, offset: 90584},
 																																						run: (*parser).callonListContinuationElement1432,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2852, col: 10, offset: 90239},
+																																							pos:        position{line: 2862, col: 10, offset: 90584},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -35687,28 +35751,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2874, col: 8, offset: 90637},
+																																					pos: position{line: 2884, col: 8, offset: 90982},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2861, col: 12, offset: 90410},
+																																							pos: position{line: 2871, col: 12, offset: 90755},
 																																							run: (*parser).callonListContinuationElement1435,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2861, col: 13, offset: 90411},
+																																								pos: position{line: 2871, col: 13, offset: 90756},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2861, col: 13, offset: 90411},
+																																										pos:        position{line: 2871, col: 13, offset: 90756},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2861, col: 20, offset: 90418},
+																																										pos:        position{line: 2871, col: 20, offset: 90763},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2861, col: 29, offset: 90427},
+																																										pos:        position{line: 2871, col: 29, offset: 90772},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -35717,9 +35781,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2871, col: 8, offset: 90587},
+																																							pos: position{line: 2881, col: 8, offset: 90932},
 																																							expr: &anyMatcher{
-																																								line: 2871, col: 9, offset: 90588,
+																																								line: 2881, col: 9, offset: 90933,
 																																							},
 																																						},
 																																					},
@@ -35729,17 +35793,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2635, col: 5, offset: 83848},
+																																	pos:   position{line: 2645, col: 5, offset: 84193},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2635, col: 12, offset: 83855},
+																																		pos: position{line: 2645, col: 12, offset: 84200},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2652, col: 20, offset: 84319},
+																																			pos: position{line: 2662, col: 20, offset: 84664},
 																																			run: (*parser).callonListContinuationElement1444,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2652, col: 20, offset: 84319},
+																																				pos: position{line: 2662, col: 20, offset: 84664},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2652, col: 20, offset: 84319},
+																																					pos:        position{line: 2662, col: 20, offset: 84664},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -35750,18 +35814,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2635, col: 31, offset: 83874},
+																																	pos:        position{line: 2645, col: 31, offset: 84219},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2635, col: 35, offset: 83878},
+																																	pos: position{line: 2645, col: 35, offset: 84223},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2852, col: 10, offset: 90239},
+																																		pos: position{line: 2862, col: 10, offset: 90584},
 																																		run: (*parser).callonListContinuationElement1449,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2852, col: 10, offset: 90239},
+																																			pos:        position{line: 2862, col: 10, offset: 90584},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -35770,27 +35834,27 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2635, col: 42, offset: 83885},
+																																	pos: position{line: 2645, col: 42, offset: 84230},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2861, col: 12, offset: 90410},
+																																		pos: position{line: 2871, col: 12, offset: 90755},
 																																		run: (*parser).callonListContinuationElement1452,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2861, col: 13, offset: 90411},
+																																			pos: position{line: 2871, col: 13, offset: 90756},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2861, col: 13, offset: 90411},
+																																					pos:        position{line: 2871, col: 13, offset: 90756},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2861, col: 20, offset: 90418},
+																																					pos:        position{line: 2871, col: 20, offset: 90763},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2861, col: 29, offset: 90427},
+																																					pos:        position{line: 2871, col: 29, offset: 90772},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -35800,37 +35864,37 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2635, col: 51, offset: 83894},
+																																	pos:   position{line: 2645, col: 51, offset: 84239},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2641, col: 5, offset: 84053},
+																																		pos: position{line: 2651, col: 5, offset: 84398},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2642, col: 9, offset: 84063},
+																																			pos: position{line: 2652, col: 9, offset: 84408},
 																																			run: (*parser).callonListContinuationElement1459,
 																																			expr: &seqExpr{
-																																				pos: position{line: 2642, col: 9, offset: 84063},
+																																				pos: position{line: 2652, col: 9, offset: 84408},
 																																				exprs: []interface{}{
 																																					&notExpr{
-																																						pos: position{line: 2642, col: 9, offset: 84063},
+																																						pos: position{line: 2652, col: 9, offset: 84408},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2598, col: 22, offset: 83007},
+																																							pos: position{line: 2608, col: 22, offset: 83352},
 																																							alternatives: []interface{}{
 																																								&seqExpr{
-																																									pos: position{line: 2594, col: 19, offset: 82927},
+																																									pos: position{line: 2604, col: 19, offset: 83272},
 																																									exprs: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2594, col: 19, offset: 82927},
+																																											pos:        position{line: 2604, col: 19, offset: 83272},
 																																											val:        "|===",
 																																											ignoreCase: false,
 																																											want:       "\"|===\"",
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 2594, col: 26, offset: 82934},
+																																											pos: position{line: 2604, col: 26, offset: 83279},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2852, col: 10, offset: 90239},
+																																												pos: position{line: 2862, col: 10, offset: 90584},
 																																												run: (*parser).callonListContinuationElement1466,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2852, col: 10, offset: 90239},
+																																													pos:        position{line: 2862, col: 10, offset: 90584},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -35839,28 +35903,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2874, col: 8, offset: 90637},
+																																											pos: position{line: 2884, col: 8, offset: 90982},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2861, col: 12, offset: 90410},
+																																													pos: position{line: 2871, col: 12, offset: 90755},
 																																													run: (*parser).callonListContinuationElement1469,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2861, col: 13, offset: 90411},
+																																														pos: position{line: 2871, col: 13, offset: 90756},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																																pos:        position{line: 2871, col: 13, offset: 90756},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																																pos:        position{line: 2871, col: 20, offset: 90763},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																																pos:        position{line: 2871, col: 29, offset: 90772},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -35869,9 +35933,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2871, col: 8, offset: 90587},
+																																													pos: position{line: 2881, col: 8, offset: 90932},
 																																													expr: &anyMatcher{
-																																														line: 2871, col: 9, offset: 90588,
+																																														line: 2881, col: 9, offset: 90933,
 																																													},
 																																												},
 																																											},
@@ -35879,35 +35943,35 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2871, col: 8, offset: 90587},
+																																									pos: position{line: 2881, col: 8, offset: 90932},
 																																									expr: &anyMatcher{
-																																										line: 2871, col: 9, offset: 90588,
+																																										line: 2881, col: 9, offset: 90933,
 																																									},
 																																								},
 																																							},
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2643, col: 9, offset: 84090},
+																																						pos: position{line: 2653, col: 9, offset: 84435},
 																																						expr: &actionExpr{
-																																							pos: position{line: 677, col: 14, offset: 21489},
+																																							pos: position{line: 677, col: 14, offset: 21557},
 																																							run: (*parser).callonListContinuationElement1479,
 																																							expr: &seqExpr{
-																																								pos: position{line: 677, col: 14, offset: 21489},
+																																								pos: position{line: 677, col: 14, offset: 21557},
 																																								exprs: []interface{}{
 																																									&andExpr{
-																																										pos: position{line: 2869, col: 11, offset: 90573},
+																																										pos: position{line: 2879, col: 11, offset: 90918},
 																																										expr: &anyMatcher{
-																																											line: 2869, col: 13, offset: 90575,
+																																											line: 2879, col: 13, offset: 90920,
 																																										},
 																																									},
 																																									&zeroOrMoreExpr{
-																																										pos: position{line: 677, col: 21, offset: 21496},
+																																										pos: position{line: 677, col: 21, offset: 21564},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2852, col: 10, offset: 90239},
+																																											pos: position{line: 2862, col: 10, offset: 90584},
 																																											run: (*parser).callonListContinuationElement1484,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2852, col: 10, offset: 90239},
+																																												pos:        position{line: 2862, col: 10, offset: 90584},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -35916,28 +35980,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2874, col: 8, offset: 90637},
+																																										pos: position{line: 2884, col: 8, offset: 90982},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2861, col: 12, offset: 90410},
+																																												pos: position{line: 2871, col: 12, offset: 90755},
 																																												run: (*parser).callonListContinuationElement1487,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2861, col: 13, offset: 90411},
+																																													pos: position{line: 2871, col: 13, offset: 90756},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2861, col: 13, offset: 90411},
+																																															pos:        position{line: 2871, col: 13, offset: 90756},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2861, col: 20, offset: 90418},
+																																															pos:        position{line: 2871, col: 20, offset: 90763},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2861, col: 29, offset: 90427},
+																																															pos:        position{line: 2871, col: 29, offset: 90772},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -35946,9 +36010,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2871, col: 8, offset: 90587},
+																																												pos: position{line: 2881, col: 8, offset: 90932},
 																																												expr: &anyMatcher{
-																																													line: 2871, col: 9, offset: 90588,
+																																													line: 2881, col: 9, offset: 90933,
 																																												},
 																																											},
 																																										},
@@ -35958,22 +36022,22 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2644, col: 9, offset: 84109},
+																																						pos: position{line: 2654, col: 9, offset: 84454},
 																																						expr: &seqExpr{
-																																							pos: position{line: 2644, col: 11, offset: 84111},
+																																							pos: position{line: 2654, col: 11, offset: 84456},
 																																							exprs: []interface{}{
 																																								&labeledExpr{
-																																									pos:   position{line: 2644, col: 11, offset: 84111},
+																																									pos:   position{line: 2654, col: 11, offset: 84456},
 																																									label: "format",
 																																									expr: &zeroOrOneExpr{
-																																										pos: position{line: 2644, col: 18, offset: 84118},
+																																										pos: position{line: 2654, col: 18, offset: 84463},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2652, col: 20, offset: 84319},
+																																											pos: position{line: 2662, col: 20, offset: 84664},
 																																											run: (*parser).callonListContinuationElement1498,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2652, col: 20, offset: 84319},
+																																												pos: position{line: 2662, col: 20, offset: 84664},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2652, col: 20, offset: 84319},
+																																													pos:        position{line: 2662, col: 20, offset: 84664},
 																																													val:        "[^ |\\r\\n]",
 																																													chars:      []rune{' ', '|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -35984,7 +36048,7 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&litMatcher{
-																																									pos:        position{line: 2644, col: 37, offset: 84137},
+																																									pos:        position{line: 2654, col: 37, offset: 84482},
 																																									val:        "|",
 																																									ignoreCase: false,
 																																									want:       "\"|\"",
@@ -35993,15 +36057,15 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2645, col: 9, offset: 84150},
+																																						pos:   position{line: 2655, col: 9, offset: 84495},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2645, col: 18, offset: 84159},
+																																							pos: position{line: 2655, col: 18, offset: 84504},
 																																							run: (*parser).callonListContinuationElement1503,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2645, col: 18, offset: 84159},
+																																								pos: position{line: 2655, col: 18, offset: 84504},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2645, col: 18, offset: 84159},
+																																									pos:        position{line: 2655, col: 18, offset: 84504},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -36011,30 +36075,30 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&zeroOrOneExpr{
-																																						pos: position{line: 2647, col: 12, offset: 84221},
+																																						pos: position{line: 2657, col: 12, offset: 84566},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2874, col: 8, offset: 90637},
+																																							pos: position{line: 2884, col: 8, offset: 90982},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2861, col: 12, offset: 90410},
+																																									pos: position{line: 2871, col: 12, offset: 90755},
 																																									run: (*parser).callonListContinuationElement1508,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2861, col: 13, offset: 90411},
+																																										pos: position{line: 2871, col: 13, offset: 90756},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2861, col: 13, offset: 90411},
+																																												pos:        position{line: 2871, col: 13, offset: 90756},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2861, col: 20, offset: 90418},
+																																												pos:        position{line: 2871, col: 20, offset: 90763},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2861, col: 29, offset: 90427},
+																																												pos:        position{line: 2871, col: 29, offset: 90772},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -36043,9 +36107,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2871, col: 8, offset: 90587},
+																																									pos: position{line: 2881, col: 8, offset: 90932},
 																																									expr: &anyMatcher{
-																																										line: 2871, col: 9, offset: 90588,
+																																										line: 2881, col: 9, offset: 90933,
 																																									},
 																																								},
 																																							},
@@ -36067,24 +36131,24 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 677, col: 14, offset: 21489},
+																							pos: position{line: 677, col: 14, offset: 21557},
 																							run: (*parser).callonListContinuationElement1515,
 																							expr: &seqExpr{
-																								pos: position{line: 677, col: 14, offset: 21489},
+																								pos: position{line: 677, col: 14, offset: 21557},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2869, col: 11, offset: 90573},
+																										pos: position{line: 2879, col: 11, offset: 90918},
 																										expr: &anyMatcher{
-																											line: 2869, col: 13, offset: 90575,
+																											line: 2879, col: 13, offset: 90920,
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 677, col: 21, offset: 21496},
+																										pos: position{line: 677, col: 21, offset: 21564},
 																										expr: &actionExpr{
-																											pos: position{line: 2852, col: 10, offset: 90239},
+																											pos: position{line: 2862, col: 10, offset: 90584},
 																											run: (*parser).callonListContinuationElement1520,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2852, col: 10, offset: 90239},
+																												pos:        position{line: 2862, col: 10, offset: 90584},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -36093,28 +36157,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2874, col: 8, offset: 90637},
+																										pos: position{line: 2884, col: 8, offset: 90982},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2861, col: 12, offset: 90410},
+																												pos: position{line: 2871, col: 12, offset: 90755},
 																												run: (*parser).callonListContinuationElement1523,
 																												expr: &choiceExpr{
-																													pos: position{line: 2861, col: 13, offset: 90411},
+																													pos: position{line: 2871, col: 13, offset: 90756},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2861, col: 13, offset: 90411},
+																															pos:        position{line: 2871, col: 13, offset: 90756},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2861, col: 20, offset: 90418},
+																															pos:        position{line: 2871, col: 20, offset: 90763},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2861, col: 29, offset: 90427},
+																															pos:        position{line: 2871, col: 29, offset: 90772},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -36123,9 +36187,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2871, col: 8, offset: 90587},
+																												pos: position{line: 2881, col: 8, offset: 90932},
 																												expr: &anyMatcher{
-																													line: 2871, col: 9, offset: 90588,
+																													line: 2881, col: 9, offset: 90933,
 																												},
 																											},
 																										},
@@ -36144,24 +36208,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2598, col: 22, offset: 83007},
+													pos: position{line: 2608, col: 22, offset: 83352},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2594, col: 19, offset: 82927},
+															pos: position{line: 2604, col: 19, offset: 83272},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2594, col: 19, offset: 82927},
+																	pos:        position{line: 2604, col: 19, offset: 83272},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2594, col: 26, offset: 82934},
+																	pos: position{line: 2604, col: 26, offset: 83279},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2862, col: 10, offset: 90584},
 																		run: (*parser).callonListContinuationElement1534,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2862, col: 10, offset: 90584},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -36170,28 +36234,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2884, col: 8, offset: 90982},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2871, col: 12, offset: 90755},
 																			run: (*parser).callonListContinuationElement1537,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2871, col: 13, offset: 90756},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2871, col: 13, offset: 90756},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2871, col: 20, offset: 90763},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2871, col: 29, offset: 90772},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36200,9 +36264,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2881, col: 8, offset: 90932},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2881, col: 9, offset: 90933,
 																			},
 																		},
 																	},
@@ -36210,9 +36274,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2881, col: 8, offset: 90932},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2881, col: 9, offset: 90933,
 															},
 														},
 													},
@@ -36221,36 +36285,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2462, col: 22, offset: 79217},
+										pos: position{line: 2472, col: 22, offset: 79562},
 										run: (*parser).callonListContinuationElement1546,
 										expr: &seqExpr{
-											pos: position{line: 2462, col: 22, offset: 79217},
+											pos: position{line: 2472, col: 22, offset: 79562},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2467, col: 31, offset: 79438},
+													pos:        position{line: 2477, col: 31, offset: 79783},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2467, col: 36, offset: 79443},
+													pos: position{line: 2477, col: 36, offset: 79788},
 													expr: &litMatcher{
-														pos:        position{line: 2467, col: 37, offset: 79444},
+														pos:        position{line: 2477, col: 37, offset: 79789},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2462, col: 49, offset: 79244},
+													pos:   position{line: 2472, col: 49, offset: 79589},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2798, col: 13, offset: 88765},
+														pos: position{line: 2808, col: 13, offset: 89110},
 														run: (*parser).callonListContinuationElement1552,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2798, col: 13, offset: 88765},
+															pos: position{line: 2808, col: 13, offset: 89110},
 															expr: &charClassMatcher{
-																pos:        position{line: 2798, col: 13, offset: 88765},
+																pos:        position{line: 2808, col: 13, offset: 89110},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -36260,28 +36324,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2884, col: 8, offset: 90982},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2871, col: 12, offset: 90755},
 															run: (*parser).callonListContinuationElement1556,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2871, col: 13, offset: 90756},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2871, col: 13, offset: 90756},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2871, col: 20, offset: 90763},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2871, col: 29, offset: 90772},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36290,9 +36354,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2881, col: 8, offset: 90932},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2881, col: 9, offset: 90933,
 															},
 														},
 													},
@@ -36301,94 +36365,94 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1561, col: 5, offset: 50421},
+										pos: position{line: 1561, col: 5, offset: 50557},
 										run: (*parser).callonListContinuationElement1563,
 										expr: &seqExpr{
-											pos: position{line: 1561, col: 5, offset: 50421},
+											pos: position{line: 1561, col: 5, offset: 50557},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1561, col: 5, offset: 50421},
+													pos:   position{line: 1561, col: 5, offset: 50557},
 													label: "style",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1561, col: 11, offset: 50427},
+														pos: position{line: 1561, col: 11, offset: 50563},
 														expr: &actionExpr{
-															pos: position{line: 1725, col: 5, offset: 55744},
+															pos: position{line: 1725, col: 5, offset: 55880},
 															run: (*parser).callonListContinuationElement1567,
 															expr: &seqExpr{
-																pos: position{line: 1725, col: 5, offset: 55744},
+																pos: position{line: 1725, col: 5, offset: 55880},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1725, col: 5, offset: 55744},
+																		pos: position{line: 1725, col: 5, offset: 55880},
 																		run: (*parser).callonListContinuationElement1569,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1728, col: 5, offset: 55807},
+																		pos:   position{line: 1728, col: 5, offset: 55943},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1728, col: 12, offset: 55814},
+																			pos: position{line: 1728, col: 12, offset: 55950},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1728, col: 12, offset: 55814},
+																					pos: position{line: 1728, col: 12, offset: 55950},
 																					run: (*parser).callonListContinuationElement1572,
 																					expr: &litMatcher{
-																						pos:        position{line: 1728, col: 12, offset: 55814},
+																						pos:        position{line: 1728, col: 12, offset: 55950},
 																						val:        "TIP: ",
 																						ignoreCase: false,
 																						want:       "\"TIP: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1730, col: 13, offset: 55870},
+																					pos: position{line: 1730, col: 13, offset: 56006},
 																					run: (*parser).callonListContinuationElement1574,
 																					expr: &litMatcher{
-																						pos:        position{line: 1730, col: 13, offset: 55870},
+																						pos:        position{line: 1730, col: 13, offset: 56006},
 																						val:        "NOTE: ",
 																						ignoreCase: false,
 																						want:       "\"NOTE: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1732, col: 13, offset: 55928},
+																					pos: position{line: 1732, col: 13, offset: 56064},
 																					run: (*parser).callonListContinuationElement1576,
 																					expr: &litMatcher{
-																						pos:        position{line: 1732, col: 13, offset: 55928},
+																						pos:        position{line: 1732, col: 13, offset: 56064},
 																						val:        "IMPORTANT: ",
 																						ignoreCase: false,
 																						want:       "\"IMPORTANT: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1734, col: 13, offset: 55996},
+																					pos: position{line: 1734, col: 13, offset: 56132},
 																					run: (*parser).callonListContinuationElement1578,
 																					expr: &litMatcher{
-																						pos:        position{line: 1734, col: 13, offset: 55996},
+																						pos:        position{line: 1734, col: 13, offset: 56132},
 																						val:        "WARNING: ",
 																						ignoreCase: false,
 																						want:       "\"WARNING: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1736, col: 13, offset: 56060},
+																					pos: position{line: 1736, col: 13, offset: 56196},
 																					run: (*parser).callonListContinuationElement1580,
 																					expr: &litMatcher{
-																						pos:        position{line: 1736, col: 13, offset: 56060},
+																						pos:        position{line: 1736, col: 13, offset: 56196},
 																						val:        "CAUTION: ",
 																						ignoreCase: false,
 																						want:       "\"CAUTION: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1738, col: 13, offset: 56124},
+																					pos: position{line: 1738, col: 13, offset: 56260},
 																					run: (*parser).callonListContinuationElement1582,
 																					expr: &andExpr{
-																						pos: position{line: 1738, col: 13, offset: 56124},
+																						pos: position{line: 1738, col: 13, offset: 56260},
 																						expr: &actionExpr{
-																							pos: position{line: 2856, col: 11, offset: 90300},
+																							pos: position{line: 2866, col: 11, offset: 90645},
 																							run: (*parser).callonListContinuationElement1584,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2856, col: 11, offset: 90300},
+																								pos: position{line: 2866, col: 11, offset: 90645},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2856, col: 11, offset: 90300},
+																									pos:        position{line: 2866, col: 11, offset: 90645},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36402,17 +36466,17 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1740, col: 12, offset: 56194},
+																		pos: position{line: 1740, col: 12, offset: 56330},
 																		expr: &seqExpr{
-																			pos: position{line: 1740, col: 14, offset: 56196},
+																			pos: position{line: 1740, col: 14, offset: 56332},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1740, col: 14, offset: 56196},
+																					pos: position{line: 1740, col: 14, offset: 56332},
 																					expr: &actionExpr{
-																						pos: position{line: 2852, col: 10, offset: 90239},
+																						pos: position{line: 2862, col: 10, offset: 90584},
 																						run: (*parser).callonListContinuationElement1590,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2852, col: 10, offset: 90239},
+																							pos:        position{line: 2862, col: 10, offset: 90584},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36421,28 +36485,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2874, col: 8, offset: 90637},
+																					pos: position{line: 2884, col: 8, offset: 90982},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2861, col: 12, offset: 90410},
+																							pos: position{line: 2871, col: 12, offset: 90755},
 																							run: (*parser).callonListContinuationElement1593,
 																							expr: &choiceExpr{
-																								pos: position{line: 2861, col: 13, offset: 90411},
+																								pos: position{line: 2871, col: 13, offset: 90756},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 13, offset: 90411},
+																										pos:        position{line: 2871, col: 13, offset: 90756},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 20, offset: 90418},
+																										pos:        position{line: 2871, col: 20, offset: 90763},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 29, offset: 90427},
+																										pos:        position{line: 2871, col: 29, offset: 90772},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -36451,9 +36515,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2871, col: 8, offset: 90587},
+																							pos: position{line: 2881, col: 8, offset: 90932},
 																							expr: &anyMatcher{
-																								line: 2871, col: 9, offset: 90588,
+																								line: 2881, col: 9, offset: 90933,
 																							},
 																						},
 																					},
@@ -36467,35 +36531,35 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1562, col: 5, offset: 50450},
+													pos:   position{line: 1562, col: 5, offset: 50586},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1505, col: 5, offset: 48800},
+														pos: position{line: 1505, col: 5, offset: 48936},
 														run: (*parser).callonListContinuationElement1601,
 														expr: &seqExpr{
-															pos: position{line: 1505, col: 5, offset: 48800},
+															pos: position{line: 1505, col: 5, offset: 48936},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1505, col: 5, offset: 48800},
+																	pos: position{line: 1505, col: 5, offset: 48936},
 																	expr: &actionExpr{
-																		pos: position{line: 677, col: 14, offset: 21489},
+																		pos: position{line: 677, col: 14, offset: 21557},
 																		run: (*parser).callonListContinuationElement1604,
 																		expr: &seqExpr{
-																			pos: position{line: 677, col: 14, offset: 21489},
+																			pos: position{line: 677, col: 14, offset: 21557},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2869, col: 11, offset: 90573},
+																					pos: position{line: 2879, col: 11, offset: 90918},
 																					expr: &anyMatcher{
-																						line: 2869, col: 13, offset: 90575,
+																						line: 2879, col: 13, offset: 90920,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 677, col: 21, offset: 21496},
+																					pos: position{line: 677, col: 21, offset: 21564},
 																					expr: &actionExpr{
-																						pos: position{line: 2852, col: 10, offset: 90239},
+																						pos: position{line: 2862, col: 10, offset: 90584},
 																						run: (*parser).callonListContinuationElement1609,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2852, col: 10, offset: 90239},
+																							pos:        position{line: 2862, col: 10, offset: 90584},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36504,28 +36568,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2874, col: 8, offset: 90637},
+																					pos: position{line: 2884, col: 8, offset: 90982},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2861, col: 12, offset: 90410},
+																							pos: position{line: 2871, col: 12, offset: 90755},
 																							run: (*parser).callonListContinuationElement1612,
 																							expr: &choiceExpr{
-																								pos: position{line: 2861, col: 13, offset: 90411},
+																								pos: position{line: 2871, col: 13, offset: 90756},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 13, offset: 90411},
+																										pos:        position{line: 2871, col: 13, offset: 90756},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 20, offset: 90418},
+																										pos:        position{line: 2871, col: 20, offset: 90763},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 29, offset: 90427},
+																										pos:        position{line: 2871, col: 29, offset: 90772},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -36534,9 +36598,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2871, col: 8, offset: 90587},
+																							pos: position{line: 2881, col: 8, offset: 90932},
 																							expr: &anyMatcher{
-																								line: 2871, col: 9, offset: 90588,
+																								line: 2881, col: 9, offset: 90933,
 																							},
 																						},
 																					},
@@ -36546,23 +36610,23 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1506, col: 5, offset: 48815},
+																	pos: position{line: 1506, col: 5, offset: 48951},
 																	expr: &seqExpr{
-																		pos: position{line: 1536, col: 27, offset: 49641},
+																		pos: position{line: 1536, col: 27, offset: 49777},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1536, col: 27, offset: 49641},
+																				pos:        position{line: 1536, col: 27, offset: 49777},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 1536, col: 31, offset: 49645},
+																				pos: position{line: 1536, col: 31, offset: 49781},
 																				expr: &actionExpr{
-																					pos: position{line: 2852, col: 10, offset: 90239},
+																					pos: position{line: 2862, col: 10, offset: 90584},
 																					run: (*parser).callonListContinuationElement1623,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2852, col: 10, offset: 90239},
+																						pos:        position{line: 2862, col: 10, offset: 90584},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -36571,25 +36635,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2871, col: 12, offset: 90755},
 																				run: (*parser).callonListContinuationElement1625,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2871, col: 13, offset: 90756},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2871, col: 13, offset: 90756},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2871, col: 20, offset: 90763},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2871, col: 29, offset: 90772},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -36601,20 +36665,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1507, col: 5, offset: 48843},
+																	pos: position{line: 1507, col: 5, offset: 48979},
 																	expr: &actionExpr{
-																		pos: position{line: 1577, col: 5, offset: 50860},
+																		pos: position{line: 1577, col: 5, offset: 50996},
 																		run: (*parser).callonListContinuationElement1631,
 																		expr: &seqExpr{
-																			pos: position{line: 1577, col: 5, offset: 50860},
+																			pos: position{line: 1577, col: 5, offset: 50996},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1577, col: 5, offset: 50860},
+																					pos: position{line: 1577, col: 5, offset: 50996},
 																					expr: &actionExpr{
-																						pos: position{line: 2852, col: 10, offset: 90239},
+																						pos: position{line: 2862, col: 10, offset: 90584},
 																						run: (*parser).callonListContinuationElement1634,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2852, col: 10, offset: 90239},
+																							pos:        position{line: 2862, col: 10, offset: 90584},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36623,27 +36687,27 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1577, col: 12, offset: 50867},
+																					pos:   position{line: 1577, col: 12, offset: 51003},
 																					label: "prefix",
 																					expr: &choiceExpr{
-																						pos: position{line: 1579, col: 9, offset: 50930},
+																						pos: position{line: 1579, col: 9, offset: 51066},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 1579, col: 9, offset: 50930},
+																								pos: position{line: 1579, col: 9, offset: 51066},
 																								run: (*parser).callonListContinuationElement1638,
 																								expr: &seqExpr{
-																									pos: position{line: 1579, col: 9, offset: 50930},
+																									pos: position{line: 1579, col: 9, offset: 51066},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 1579, col: 9, offset: 50930},
+																											pos:   position{line: 1579, col: 9, offset: 51066},
 																											label: "depth",
 																											expr: &actionExpr{
-																												pos: position{line: 1579, col: 16, offset: 50937},
+																												pos: position{line: 1579, col: 16, offset: 51073},
 																												run: (*parser).callonListContinuationElement1641,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1579, col: 16, offset: 50937},
+																													pos: position{line: 1579, col: 16, offset: 51073},
 																													expr: &litMatcher{
-																														pos:        position{line: 1579, col: 17, offset: 50938},
+																														pos:        position{line: 1579, col: 17, offset: 51074},
 																														val:        ".",
 																														ignoreCase: false,
 																														want:       "\".\"",
@@ -36652,22 +36716,22 @@ var g = &grammar{
 																											},
 																										},
 																										&andCodeExpr{
-																											pos: position{line: 1583, col: 9, offset: 51038},
+																											pos: position{line: 1583, col: 9, offset: 51174},
 																											run: (*parser).callonListContinuationElement1644,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1602, col: 11, offset: 51755},
+																								pos: position{line: 1602, col: 11, offset: 51891},
 																								run: (*parser).callonListContinuationElement1645,
 																								expr: &seqExpr{
-																									pos: position{line: 1602, col: 11, offset: 51755},
+																									pos: position{line: 1602, col: 11, offset: 51891},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1602, col: 11, offset: 51755},
+																											pos: position{line: 1602, col: 11, offset: 51891},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1602, col: 12, offset: 51756},
+																												pos:        position{line: 1602, col: 12, offset: 51892},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -36675,7 +36739,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1602, col: 20, offset: 51764},
+																											pos:        position{line: 1602, col: 20, offset: 51900},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -36684,20 +36748,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1604, col: 13, offset: 51881},
+																								pos: position{line: 1604, col: 13, offset: 52017},
 																								run: (*parser).callonListContinuationElement1650,
 																								expr: &seqExpr{
-																									pos: position{line: 1604, col: 13, offset: 51881},
+																									pos: position{line: 1604, col: 13, offset: 52017},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1604, col: 14, offset: 51882},
+																											pos:        position{line: 1604, col: 14, offset: 52018},
 																											val:        "[a-z]",
 																											ranges:     []rune{'a', 'z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1604, col: 21, offset: 51889},
+																											pos:        position{line: 1604, col: 21, offset: 52025},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -36706,20 +36770,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1606, col: 13, offset: 52009},
+																								pos: position{line: 1606, col: 13, offset: 52145},
 																								run: (*parser).callonListContinuationElement1654,
 																								expr: &seqExpr{
-																									pos: position{line: 1606, col: 13, offset: 52009},
+																									pos: position{line: 1606, col: 13, offset: 52145},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1606, col: 14, offset: 52010},
+																											pos:        position{line: 1606, col: 14, offset: 52146},
 																											val:        "[A-Z]",
 																											ranges:     []rune{'A', 'Z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1606, col: 21, offset: 52017},
+																											pos:        position{line: 1606, col: 21, offset: 52153},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -36728,15 +36792,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1608, col: 13, offset: 52137},
+																								pos: position{line: 1608, col: 13, offset: 52273},
 																								run: (*parser).callonListContinuationElement1658,
 																								expr: &seqExpr{
-																									pos: position{line: 1608, col: 13, offset: 52137},
+																									pos: position{line: 1608, col: 13, offset: 52273},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1608, col: 13, offset: 52137},
+																											pos: position{line: 1608, col: 13, offset: 52273},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1608, col: 14, offset: 52138},
+																												pos:        position{line: 1608, col: 14, offset: 52274},
 																												val:        "[ivxdlcm]",
 																												chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																												ignoreCase: false,
@@ -36744,7 +36808,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1608, col: 26, offset: 52150},
+																											pos:        position{line: 1608, col: 26, offset: 52286},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -36753,15 +36817,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1610, col: 13, offset: 52270},
+																								pos: position{line: 1610, col: 13, offset: 52406},
 																								run: (*parser).callonListContinuationElement1663,
 																								expr: &seqExpr{
-																									pos: position{line: 1610, col: 13, offset: 52270},
+																									pos: position{line: 1610, col: 13, offset: 52406},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1610, col: 13, offset: 52270},
+																											pos: position{line: 1610, col: 13, offset: 52406},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1610, col: 14, offset: 52271},
+																												pos:        position{line: 1610, col: 14, offset: 52407},
 																												val:        "[IVXDLCM]",
 																												chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																												ignoreCase: false,
@@ -36769,7 +36833,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1610, col: 26, offset: 52283},
+																											pos:        position{line: 1610, col: 26, offset: 52419},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -36781,12 +36845,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2856, col: 11, offset: 90300},
+																					pos: position{line: 2866, col: 11, offset: 90645},
 																					run: (*parser).callonListContinuationElement1668,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2856, col: 11, offset: 90300},
+																						pos: position{line: 2866, col: 11, offset: 90645},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2856, col: 11, offset: 90300},
+																							pos:        position{line: 2866, col: 11, offset: 90645},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36799,20 +36863,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1508, col: 5, offset: 48873},
+																	pos: position{line: 1508, col: 5, offset: 49009},
 																	expr: &actionExpr{
-																		pos: position{line: 1627, col: 5, offset: 52822},
+																		pos: position{line: 1627, col: 5, offset: 52958},
 																		run: (*parser).callonListContinuationElement1672,
 																		expr: &seqExpr{
-																			pos: position{line: 1627, col: 5, offset: 52822},
+																			pos: position{line: 1627, col: 5, offset: 52958},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1627, col: 5, offset: 52822},
+																					pos: position{line: 1627, col: 5, offset: 52958},
 																					expr: &actionExpr{
-																						pos: position{line: 2852, col: 10, offset: 90239},
+																						pos: position{line: 2862, col: 10, offset: 90584},
 																						run: (*parser).callonListContinuationElement1675,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2852, col: 10, offset: 90239},
+																							pos:        position{line: 2862, col: 10, offset: 90584},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36821,24 +36885,24 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1628, col: 5, offset: 52834},
+																					pos:   position{line: 1628, col: 5, offset: 52970},
 																					label: "style",
 																					expr: &actionExpr{
-																						pos: position{line: 1629, col: 9, offset: 52850},
+																						pos: position{line: 1629, col: 9, offset: 52986},
 																						run: (*parser).callonListContinuationElement1678,
 																						expr: &choiceExpr{
-																							pos: position{line: 1629, col: 10, offset: 52851},
+																							pos: position{line: 1629, col: 10, offset: 52987},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1629, col: 11, offset: 52852},
+																									pos:        position{line: 1629, col: 11, offset: 52988},
 																									val:        "-",
 																									ignoreCase: false,
 																									want:       "\"-\"",
 																								},
 																								&oneOrMoreExpr{
-																									pos: position{line: 1629, col: 18, offset: 52859},
+																									pos: position{line: 1629, col: 18, offset: 52995},
 																									expr: &litMatcher{
-																										pos:        position{line: 1629, col: 19, offset: 52860},
+																										pos:        position{line: 1629, col: 19, offset: 52996},
 																										val:        "*",
 																										ignoreCase: false,
 																										want:       "\"*\"",
@@ -36849,16 +36913,16 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1632, col: 7, offset: 52950},
+																					pos: position{line: 1632, col: 7, offset: 53086},
 																					run: (*parser).callonListContinuationElement1683,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2856, col: 11, offset: 90300},
+																					pos: position{line: 2866, col: 11, offset: 90645},
 																					run: (*parser).callonListContinuationElement1684,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2856, col: 11, offset: 90300},
+																						pos: position{line: 2866, col: 11, offset: 90645},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2856, col: 11, offset: 90300},
+																							pos:        position{line: 2866, col: 11, offset: 90645},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36871,29 +36935,29 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1509, col: 5, offset: 48905},
+																	pos: position{line: 1509, col: 5, offset: 49041},
 																	expr: &actionExpr{
-																		pos: position{line: 1716, col: 5, offset: 55359},
+																		pos: position{line: 1716, col: 5, offset: 55495},
 																		run: (*parser).callonListContinuationElement1688,
 																		expr: &seqExpr{
-																			pos: position{line: 1716, col: 5, offset: 55359},
+																			pos: position{line: 1716, col: 5, offset: 55495},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1716, col: 5, offset: 55359},
+																					pos:        position{line: 1716, col: 5, offset: 55495},
 																					val:        "<",
 																					ignoreCase: false,
 																					want:       "\"<\"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1716, col: 9, offset: 55363},
+																					pos:   position{line: 1716, col: 9, offset: 55499},
 																					label: "ref",
 																					expr: &actionExpr{
-																						pos: position{line: 1716, col: 14, offset: 55368},
+																						pos: position{line: 1716, col: 14, offset: 55504},
 																						run: (*parser).callonListContinuationElement1692,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 1716, col: 14, offset: 55368},
+																							pos: position{line: 1716, col: 14, offset: 55504},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1716, col: 14, offset: 55368},
+																								pos:        position{line: 1716, col: 14, offset: 55504},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -36903,18 +36967,18 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 1716, col: 62, offset: 55416},
+																					pos:        position{line: 1716, col: 62, offset: 55552},
 																					val:        ">",
 																					ignoreCase: false,
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2856, col: 11, offset: 90300},
+																					pos: position{line: 2866, col: 11, offset: 90645},
 																					run: (*parser).callonListContinuationElement1696,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2856, col: 11, offset: 90300},
+																						pos: position{line: 2866, col: 11, offset: 90645},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2856, col: 11, offset: 90300},
+																							pos:        position{line: 2866, col: 11, offset: 90645},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36927,36 +36991,36 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1510, col: 5, offset: 48935},
+																	pos: position{line: 1510, col: 5, offset: 49071},
 																	expr: &seqExpr{
-																		pos: position{line: 1510, col: 7, offset: 48937},
+																		pos: position{line: 1510, col: 7, offset: 49073},
 																		exprs: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1662, col: 5, offset: 53841},
+																				pos: position{line: 1662, col: 5, offset: 53977},
 																				run: (*parser).callonListContinuationElement1701,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1662, col: 5, offset: 53841},
+																					pos: position{line: 1662, col: 5, offset: 53977},
 																					expr: &seqExpr{
-																						pos: position{line: 1662, col: 6, offset: 53842},
+																						pos: position{line: 1662, col: 6, offset: 53978},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1662, col: 6, offset: 53842},
+																								pos: position{line: 1662, col: 6, offset: 53978},
 																								expr: &actionExpr{
-																									pos: position{line: 1667, col: 5, offset: 53992},
+																									pos: position{line: 1667, col: 5, offset: 54128},
 																									run: (*parser).callonListContinuationElement1705,
 																									expr: &seqExpr{
-																										pos: position{line: 1667, col: 5, offset: 53992},
+																										pos: position{line: 1667, col: 5, offset: 54128},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1667, col: 5, offset: 53992},
+																												pos:   position{line: 1667, col: 5, offset: 54128},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1667, col: 16, offset: 54003},
+																													pos: position{line: 1667, col: 16, offset: 54139},
 																													run: (*parser).callonListContinuationElement1708,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1667, col: 16, offset: 54003},
+																														pos: position{line: 1667, col: 16, offset: 54139},
 																														expr: &litMatcher{
-																															pos:        position{line: 1667, col: 17, offset: 54004},
+																															pos:        position{line: 1667, col: 17, offset: 54140},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -36965,7 +37029,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1670, col: 5, offset: 54061},
+																												pos: position{line: 1670, col: 5, offset: 54197},
 																												run: (*parser).callonListContinuationElement1711,
 																											},
 																										},
@@ -36973,30 +37037,30 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1662, col: 35, offset: 53871},
+																								pos: position{line: 1662, col: 35, offset: 54007},
 																								expr: &choiceExpr{
-																									pos: position{line: 2874, col: 8, offset: 90637},
+																									pos: position{line: 2884, col: 8, offset: 90982},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2861, col: 12, offset: 90410},
+																											pos: position{line: 2871, col: 12, offset: 90755},
 																											run: (*parser).callonListContinuationElement1714,
 																											expr: &choiceExpr{
-																												pos: position{line: 2861, col: 13, offset: 90411},
+																												pos: position{line: 2871, col: 13, offset: 90756},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 13, offset: 90411},
+																														pos:        position{line: 2871, col: 13, offset: 90756},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 20, offset: 90418},
+																														pos:        position{line: 2871, col: 20, offset: 90763},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 29, offset: 90427},
+																														pos:        position{line: 2871, col: 29, offset: 90772},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -37005,37 +37069,37 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2871, col: 8, offset: 90587},
+																											pos: position{line: 2881, col: 8, offset: 90932},
 																											expr: &anyMatcher{
-																												line: 2871, col: 9, offset: 90588,
+																												line: 2881, col: 9, offset: 90933,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1662, col: 40, offset: 53876,
+																								line: 1662, col: 40, offset: 54012,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1667, col: 5, offset: 53992},
+																				pos: position{line: 1667, col: 5, offset: 54128},
 																				run: (*parser).callonListContinuationElement1722,
 																				expr: &seqExpr{
-																					pos: position{line: 1667, col: 5, offset: 53992},
+																					pos: position{line: 1667, col: 5, offset: 54128},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1667, col: 5, offset: 53992},
+																							pos:   position{line: 1667, col: 5, offset: 54128},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1667, col: 16, offset: 54003},
+																								pos: position{line: 1667, col: 16, offset: 54139},
 																								run: (*parser).callonListContinuationElement1725,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1667, col: 16, offset: 54003},
+																									pos: position{line: 1667, col: 16, offset: 54139},
 																									expr: &litMatcher{
-																										pos:        position{line: 1667, col: 17, offset: 54004},
+																										pos:        position{line: 1667, col: 17, offset: 54140},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -37044,7 +37108,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1670, col: 5, offset: 54061},
+																							pos: position{line: 1670, col: 5, offset: 54197},
 																							run: (*parser).callonListContinuationElement1728,
 																						},
 																					},
@@ -37054,17 +37118,17 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1511, col: 5, offset: 48993},
+																	pos: position{line: 1511, col: 5, offset: 49129},
 																	expr: &actionExpr{
-																		pos: position{line: 724, col: 5, offset: 23042},
+																		pos: position{line: 724, col: 5, offset: 23110},
 																		run: (*parser).callonListContinuationElement1730,
 																		expr: &seqExpr{
-																			pos: position{line: 724, col: 5, offset: 23042},
+																			pos: position{line: 724, col: 5, offset: 23110},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 724, col: 5, offset: 23042},
+																					pos: position{line: 724, col: 5, offset: 23110},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2742, col: 13, offset: 87334},
+																						pos:        position{line: 2752, col: 13, offset: 87679},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -37072,36 +37136,36 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 725, col: 5, offset: 23072},
+																					pos:   position{line: 725, col: 5, offset: 23140},
 																					label: "delimiter",
 																					expr: &choiceExpr{
-																						pos: position{line: 726, col: 9, offset: 23092},
+																						pos: position{line: 726, col: 9, offset: 23160},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 740, col: 5, offset: 23584},
+																								pos: position{line: 740, col: 5, offset: 23652},
 																								run: (*parser).callonListContinuationElement1736,
 																								expr: &seqExpr{
-																									pos: position{line: 740, col: 5, offset: 23584},
+																									pos: position{line: 740, col: 5, offset: 23652},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 740, col: 5, offset: 23584},
+																											pos:   position{line: 740, col: 5, offset: 23652},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 740, col: 16, offset: 23595},
+																												pos: position{line: 740, col: 16, offset: 23663},
 																												run: (*parser).callonListContinuationElement1739,
 																												expr: &seqExpr{
-																													pos: position{line: 740, col: 16, offset: 23595},
+																													pos: position{line: 740, col: 16, offset: 23663},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 740, col: 16, offset: 23595},
+																															pos:        position{line: 740, col: 16, offset: 23663},
 																															val:        "////",
 																															ignoreCase: false,
 																															want:       "\"////\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 740, col: 23, offset: 23602},
+																															pos: position{line: 740, col: 23, offset: 23670},
 																															expr: &litMatcher{
-																																pos:        position{line: 740, col: 23, offset: 23602},
+																																pos:        position{line: 740, col: 23, offset: 23670},
 																																val:        "/",
 																																ignoreCase: false,
 																																want:       "\"/\"",
@@ -37112,12 +37176,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 742, col: 8, offset: 23686},
+																											pos: position{line: 742, col: 8, offset: 23754},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
+																												pos: position{line: 2862, col: 10, offset: 90584},
 																												run: (*parser).callonListContinuationElement1745,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2862, col: 10, offset: 90584},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37126,28 +37190,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2884, col: 8, offset: 90982},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
+																													pos: position{line: 2871, col: 12, offset: 90755},
 																													run: (*parser).callonListContinuationElement1748,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2871, col: 13, offset: 90756},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2871, col: 13, offset: 90756},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2871, col: 20, offset: 90763},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2871, col: 29, offset: 90772},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37156,9 +37220,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2881, col: 8, offset: 90932},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2881, col: 9, offset: 90933,
 																													},
 																												},
 																											},
@@ -37167,30 +37231,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 747, col: 5, offset: 23832},
+																								pos: position{line: 747, col: 5, offset: 23900},
 																								run: (*parser).callonListContinuationElement1755,
 																								expr: &seqExpr{
-																									pos: position{line: 747, col: 5, offset: 23832},
+																									pos: position{line: 747, col: 5, offset: 23900},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 747, col: 5, offset: 23832},
+																											pos:   position{line: 747, col: 5, offset: 23900},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 747, col: 16, offset: 23843},
+																												pos: position{line: 747, col: 16, offset: 23911},
 																												run: (*parser).callonListContinuationElement1758,
 																												expr: &seqExpr{
-																													pos: position{line: 747, col: 16, offset: 23843},
+																													pos: position{line: 747, col: 16, offset: 23911},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 747, col: 16, offset: 23843},
+																															pos:        position{line: 747, col: 16, offset: 23911},
 																															val:        "====",
 																															ignoreCase: false,
 																															want:       "\"====\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 747, col: 23, offset: 23850},
+																															pos: position{line: 747, col: 23, offset: 23918},
 																															expr: &litMatcher{
-																																pos:        position{line: 747, col: 23, offset: 23850},
+																																pos:        position{line: 747, col: 23, offset: 23918},
 																																val:        "=",
 																																ignoreCase: false,
 																																want:       "\"=\"",
@@ -37201,12 +37265,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 749, col: 8, offset: 23934},
+																											pos: position{line: 749, col: 8, offset: 24002},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
+																												pos: position{line: 2862, col: 10, offset: 90584},
 																												run: (*parser).callonListContinuationElement1764,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2862, col: 10, offset: 90584},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37215,28 +37279,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2884, col: 8, offset: 90982},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
+																													pos: position{line: 2871, col: 12, offset: 90755},
 																													run: (*parser).callonListContinuationElement1767,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2871, col: 13, offset: 90756},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2871, col: 13, offset: 90756},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2871, col: 20, offset: 90763},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2871, col: 29, offset: 90772},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37245,9 +37309,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2881, col: 8, offset: 90932},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2881, col: 9, offset: 90933,
 																													},
 																												},
 																											},
@@ -37256,27 +37320,27 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 760, col: 26, offset: 24320},
+																								pos: position{line: 760, col: 26, offset: 24388},
 																								run: (*parser).callonListContinuationElement1774,
 																								expr: &seqExpr{
-																									pos: position{line: 760, col: 26, offset: 24320},
+																									pos: position{line: 760, col: 26, offset: 24388},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 760, col: 26, offset: 24320},
+																											pos:        position{line: 760, col: 26, offset: 24388},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 760, col: 32, offset: 24326},
+																											pos:   position{line: 760, col: 32, offset: 24394},
 																											label: "language",
 																											expr: &actionExpr{
-																												pos: position{line: 764, col: 13, offset: 24456},
+																												pos: position{line: 764, col: 13, offset: 24524},
 																												run: (*parser).callonListContinuationElement1778,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 764, col: 14, offset: 24457},
+																													pos: position{line: 764, col: 14, offset: 24525},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 764, col: 14, offset: 24457},
+																														pos:        position{line: 764, col: 14, offset: 24525},
 																														val:        "[^\\r\\n`\\t ]",
 																														chars:      []rune{'\r', '\n', '`', '\t', ' '},
 																														ignoreCase: false,
@@ -37286,12 +37350,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 760, col: 52, offset: 24346},
+																											pos: position{line: 760, col: 52, offset: 24414},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
+																												pos: position{line: 2862, col: 10, offset: 90584},
 																												run: (*parser).callonListContinuationElement1782,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2862, col: 10, offset: 90584},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37300,28 +37364,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2884, col: 8, offset: 90982},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
+																													pos: position{line: 2871, col: 12, offset: 90755},
 																													run: (*parser).callonListContinuationElement1785,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2871, col: 13, offset: 90756},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2871, col: 13, offset: 90756},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2871, col: 20, offset: 90763},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2871, col: 29, offset: 90772},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37330,9 +37394,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2881, col: 8, offset: 90932},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2881, col: 9, offset: 90933,
 																													},
 																												},
 																											},
@@ -37341,30 +37405,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 754, col: 5, offset: 24079},
+																								pos: position{line: 754, col: 5, offset: 24147},
 																								run: (*parser).callonListContinuationElement1792,
 																								expr: &seqExpr{
-																									pos: position{line: 754, col: 5, offset: 24079},
+																									pos: position{line: 754, col: 5, offset: 24147},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 754, col: 5, offset: 24079},
+																											pos:   position{line: 754, col: 5, offset: 24147},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 754, col: 16, offset: 24090},
+																												pos: position{line: 754, col: 16, offset: 24158},
 																												run: (*parser).callonListContinuationElement1795,
 																												expr: &seqExpr{
-																													pos: position{line: 754, col: 16, offset: 24090},
+																													pos: position{line: 754, col: 16, offset: 24158},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 754, col: 16, offset: 24090},
+																															pos:        position{line: 754, col: 16, offset: 24158},
 																															val:        "```",
 																															ignoreCase: false,
 																															want:       "\"```\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 754, col: 22, offset: 24096},
+																															pos: position{line: 754, col: 22, offset: 24164},
 																															expr: &litMatcher{
-																																pos:        position{line: 754, col: 22, offset: 24096},
+																																pos:        position{line: 754, col: 22, offset: 24164},
 																																val:        "`",
 																																ignoreCase: false,
 																																want:       "\"`\"",
@@ -37375,12 +37439,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 756, col: 8, offset: 24180},
+																											pos: position{line: 756, col: 8, offset: 24248},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
+																												pos: position{line: 2862, col: 10, offset: 90584},
 																												run: (*parser).callonListContinuationElement1801,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2862, col: 10, offset: 90584},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37389,28 +37453,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2884, col: 8, offset: 90982},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
+																													pos: position{line: 2871, col: 12, offset: 90755},
 																													run: (*parser).callonListContinuationElement1804,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2871, col: 13, offset: 90756},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2871, col: 13, offset: 90756},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2871, col: 20, offset: 90763},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2871, col: 29, offset: 90772},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37419,9 +37483,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2881, col: 8, offset: 90932},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2881, col: 9, offset: 90933,
 																													},
 																												},
 																											},
@@ -37430,30 +37494,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 769, col: 5, offset: 24621},
+																								pos: position{line: 769, col: 5, offset: 24689},
 																								run: (*parser).callonListContinuationElement1811,
 																								expr: &seqExpr{
-																									pos: position{line: 769, col: 5, offset: 24621},
+																									pos: position{line: 769, col: 5, offset: 24689},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 769, col: 5, offset: 24621},
+																											pos:   position{line: 769, col: 5, offset: 24689},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 769, col: 16, offset: 24632},
+																												pos: position{line: 769, col: 16, offset: 24700},
 																												run: (*parser).callonListContinuationElement1814,
 																												expr: &seqExpr{
-																													pos: position{line: 769, col: 16, offset: 24632},
+																													pos: position{line: 769, col: 16, offset: 24700},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 769, col: 16, offset: 24632},
+																															pos:        position{line: 769, col: 16, offset: 24700},
 																															val:        "----",
 																															ignoreCase: false,
 																															want:       "\"----\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 769, col: 23, offset: 24639},
+																															pos: position{line: 769, col: 23, offset: 24707},
 																															expr: &litMatcher{
-																																pos:        position{line: 769, col: 23, offset: 24639},
+																																pos:        position{line: 769, col: 23, offset: 24707},
 																																val:        "-",
 																																ignoreCase: false,
 																																want:       "\"-\"",
@@ -37464,12 +37528,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 771, col: 8, offset: 24723},
+																											pos: position{line: 771, col: 8, offset: 24791},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
+																												pos: position{line: 2862, col: 10, offset: 90584},
 																												run: (*parser).callonListContinuationElement1820,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2862, col: 10, offset: 90584},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37478,28 +37542,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2884, col: 8, offset: 90982},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
+																													pos: position{line: 2871, col: 12, offset: 90755},
 																													run: (*parser).callonListContinuationElement1823,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2871, col: 13, offset: 90756},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2871, col: 13, offset: 90756},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2871, col: 20, offset: 90763},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2871, col: 29, offset: 90772},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37508,9 +37572,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2881, col: 8, offset: 90932},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2881, col: 9, offset: 90933,
 																													},
 																												},
 																											},
@@ -37519,30 +37583,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 783, col: 5, offset: 25097},
+																								pos: position{line: 783, col: 5, offset: 25165},
 																								run: (*parser).callonListContinuationElement1830,
 																								expr: &seqExpr{
-																									pos: position{line: 783, col: 5, offset: 25097},
+																									pos: position{line: 783, col: 5, offset: 25165},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 783, col: 5, offset: 25097},
+																											pos:   position{line: 783, col: 5, offset: 25165},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 783, col: 16, offset: 25108},
+																												pos: position{line: 783, col: 16, offset: 25176},
 																												run: (*parser).callonListContinuationElement1833,
 																												expr: &seqExpr{
-																													pos: position{line: 783, col: 16, offset: 25108},
+																													pos: position{line: 783, col: 16, offset: 25176},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 783, col: 16, offset: 25108},
+																															pos:        position{line: 783, col: 16, offset: 25176},
 																															val:        "....",
 																															ignoreCase: false,
 																															want:       "\"....\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 783, col: 23, offset: 25115},
+																															pos: position{line: 783, col: 23, offset: 25183},
 																															expr: &litMatcher{
-																																pos:        position{line: 783, col: 23, offset: 25115},
+																																pos:        position{line: 783, col: 23, offset: 25183},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -37553,12 +37617,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 785, col: 8, offset: 25199},
+																											pos: position{line: 785, col: 8, offset: 25267},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
+																												pos: position{line: 2862, col: 10, offset: 90584},
 																												run: (*parser).callonListContinuationElement1839,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2862, col: 10, offset: 90584},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37567,28 +37631,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2884, col: 8, offset: 90982},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
+																													pos: position{line: 2871, col: 12, offset: 90755},
 																													run: (*parser).callonListContinuationElement1842,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2871, col: 13, offset: 90756},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2871, col: 13, offset: 90756},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2871, col: 20, offset: 90763},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2871, col: 29, offset: 90772},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37597,9 +37661,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2881, col: 8, offset: 90932},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2881, col: 9, offset: 90933,
 																													},
 																												},
 																											},
@@ -37608,30 +37672,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 790, col: 5, offset: 25349},
+																								pos: position{line: 790, col: 5, offset: 25417},
 																								run: (*parser).callonListContinuationElement1849,
 																								expr: &seqExpr{
-																									pos: position{line: 790, col: 5, offset: 25349},
+																									pos: position{line: 790, col: 5, offset: 25417},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 790, col: 5, offset: 25349},
+																											pos:   position{line: 790, col: 5, offset: 25417},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 790, col: 16, offset: 25360},
+																												pos: position{line: 790, col: 16, offset: 25428},
 																												run: (*parser).callonListContinuationElement1852,
 																												expr: &seqExpr{
-																													pos: position{line: 790, col: 16, offset: 25360},
+																													pos: position{line: 790, col: 16, offset: 25428},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 790, col: 16, offset: 25360},
+																															pos:        position{line: 790, col: 16, offset: 25428},
 																															val:        "++++",
 																															ignoreCase: false,
 																															want:       "\"++++\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 790, col: 23, offset: 25367},
+																															pos: position{line: 790, col: 23, offset: 25435},
 																															expr: &litMatcher{
-																																pos:        position{line: 790, col: 23, offset: 25367},
+																																pos:        position{line: 790, col: 23, offset: 25435},
 																																val:        "+",
 																																ignoreCase: false,
 																																want:       "\"+\"",
@@ -37642,12 +37706,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 792, col: 8, offset: 25451},
+																											pos: position{line: 792, col: 8, offset: 25519},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
+																												pos: position{line: 2862, col: 10, offset: 90584},
 																												run: (*parser).callonListContinuationElement1858,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2862, col: 10, offset: 90584},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37656,28 +37720,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2884, col: 8, offset: 90982},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
+																													pos: position{line: 2871, col: 12, offset: 90755},
 																													run: (*parser).callonListContinuationElement1861,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2871, col: 13, offset: 90756},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2871, col: 13, offset: 90756},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2871, col: 20, offset: 90763},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2871, col: 29, offset: 90772},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37686,9 +37750,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2881, col: 8, offset: 90932},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2881, col: 9, offset: 90933,
 																													},
 																												},
 																											},
@@ -37697,30 +37761,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 797, col: 5, offset: 25599},
+																								pos: position{line: 797, col: 5, offset: 25667},
 																								run: (*parser).callonListContinuationElement1868,
 																								expr: &seqExpr{
-																									pos: position{line: 797, col: 5, offset: 25599},
+																									pos: position{line: 797, col: 5, offset: 25667},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 797, col: 5, offset: 25599},
+																											pos:   position{line: 797, col: 5, offset: 25667},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 797, col: 16, offset: 25610},
+																												pos: position{line: 797, col: 16, offset: 25678},
 																												run: (*parser).callonListContinuationElement1871,
 																												expr: &seqExpr{
-																													pos: position{line: 797, col: 16, offset: 25610},
+																													pos: position{line: 797, col: 16, offset: 25678},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 797, col: 16, offset: 25610},
+																															pos:        position{line: 797, col: 16, offset: 25678},
 																															val:        "____",
 																															ignoreCase: false,
 																															want:       "\"____\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 797, col: 23, offset: 25617},
+																															pos: position{line: 797, col: 23, offset: 25685},
 																															expr: &litMatcher{
-																																pos:        position{line: 797, col: 23, offset: 25617},
+																																pos:        position{line: 797, col: 23, offset: 25685},
 																																val:        "_",
 																																ignoreCase: false,
 																																want:       "\"_\"",
@@ -37731,12 +37795,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 799, col: 8, offset: 25701},
+																											pos: position{line: 799, col: 8, offset: 25769},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
+																												pos: position{line: 2862, col: 10, offset: 90584},
 																												run: (*parser).callonListContinuationElement1877,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2862, col: 10, offset: 90584},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37745,28 +37809,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2884, col: 8, offset: 90982},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
+																													pos: position{line: 2871, col: 12, offset: 90755},
 																													run: (*parser).callonListContinuationElement1880,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2871, col: 13, offset: 90756},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2871, col: 13, offset: 90756},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2871, col: 20, offset: 90763},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2871, col: 29, offset: 90772},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37775,9 +37839,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2881, col: 8, offset: 90932},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2881, col: 9, offset: 90933,
 																													},
 																												},
 																											},
@@ -37786,30 +37850,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 804, col: 5, offset: 25845},
+																								pos: position{line: 804, col: 5, offset: 25913},
 																								run: (*parser).callonListContinuationElement1887,
 																								expr: &seqExpr{
-																									pos: position{line: 804, col: 5, offset: 25845},
+																									pos: position{line: 804, col: 5, offset: 25913},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 804, col: 5, offset: 25845},
+																											pos:   position{line: 804, col: 5, offset: 25913},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 804, col: 16, offset: 25856},
+																												pos: position{line: 804, col: 16, offset: 25924},
 																												run: (*parser).callonListContinuationElement1890,
 																												expr: &seqExpr{
-																													pos: position{line: 804, col: 16, offset: 25856},
+																													pos: position{line: 804, col: 16, offset: 25924},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 804, col: 16, offset: 25856},
+																															pos:        position{line: 804, col: 16, offset: 25924},
 																															val:        "****",
 																															ignoreCase: false,
 																															want:       "\"****\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 804, col: 23, offset: 25863},
+																															pos: position{line: 804, col: 23, offset: 25931},
 																															expr: &litMatcher{
-																																pos:        position{line: 804, col: 23, offset: 25863},
+																																pos:        position{line: 804, col: 23, offset: 25931},
 																																val:        "*",
 																																ignoreCase: false,
 																																want:       "\"*\"",
@@ -37820,12 +37884,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 806, col: 8, offset: 25947},
+																											pos: position{line: 806, col: 8, offset: 26015},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
+																												pos: position{line: 2862, col: 10, offset: 90584},
 																												run: (*parser).callonListContinuationElement1896,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2862, col: 10, offset: 90584},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37834,28 +37898,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2884, col: 8, offset: 90982},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
+																													pos: position{line: 2871, col: 12, offset: 90755},
 																													run: (*parser).callonListContinuationElement1899,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2871, col: 13, offset: 90756},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2871, col: 13, offset: 90756},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2871, col: 20, offset: 90763},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2871, col: 29, offset: 90772},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37864,9 +37928,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2881, col: 8, offset: 90932},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2881, col: 9, offset: 90933,
 																													},
 																												},
 																											},
@@ -37882,15 +37946,15 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1512, col: 5, offset: 49013},
+																	pos:   position{line: 1512, col: 5, offset: 49149},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2802, col: 14, offset: 88832},
+																		pos: position{line: 2812, col: 14, offset: 89177},
 																		run: (*parser).callonListContinuationElement1907,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2802, col: 14, offset: 88832},
+																			pos: position{line: 2812, col: 14, offset: 89177},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2802, col: 14, offset: 88832},
+																				pos:        position{line: 2812, col: 14, offset: 89177},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -37900,28 +37964,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2884, col: 8, offset: 90982},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2871, col: 12, offset: 90755},
 																			run: (*parser).callonListContinuationElement1911,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2871, col: 13, offset: 90756},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2871, col: 13, offset: 90756},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2871, col: 20, offset: 90763},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2871, col: 29, offset: 90772},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -37930,9 +37994,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2881, col: 8, offset: 90932},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2881, col: 9, offset: 90933,
 																			},
 																		},
 																	},
@@ -37953,33 +38017,33 @@ var g = &grammar{
 		},
 		{
 			name: "Callout",
-			pos:  position{line: 1700, col: 1, offset: 54853},
+			pos:  position{line: 1700, col: 1, offset: 54989},
 			expr: &actionExpr{
-				pos: position{line: 1702, col: 5, offset: 54931},
+				pos: position{line: 1702, col: 5, offset: 55067},
 				run: (*parser).callonCallout1,
 				expr: &seqExpr{
-					pos: position{line: 1702, col: 5, offset: 54931},
+					pos: position{line: 1702, col: 5, offset: 55067},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1702, col: 5, offset: 54931},
+							pos: position{line: 1702, col: 5, offset: 55067},
 							run: (*parser).callonCallout3,
 						},
 						&litMatcher{
-							pos:        position{line: 1705, col: 5, offset: 54998},
+							pos:        position{line: 1705, col: 5, offset: 55134},
 							val:        "<",
 							ignoreCase: false,
 							want:       "\"<\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1705, col: 9, offset: 55002},
+							pos:   position{line: 1705, col: 9, offset: 55138},
 							label: "ref",
 							expr: &actionExpr{
-								pos: position{line: 1705, col: 14, offset: 55007},
+								pos: position{line: 1705, col: 14, offset: 55143},
 								run: (*parser).callonCallout6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1705, col: 14, offset: 55007},
+									pos: position{line: 1705, col: 14, offset: 55143},
 									expr: &charClassMatcher{
-										pos:        position{line: 1705, col: 14, offset: 55007},
+										pos:        position{line: 1705, col: 14, offset: 55143},
 										val:        "[0-9]",
 										ranges:     []rune{'0', '9'},
 										ignoreCase: false,
@@ -37989,18 +38053,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1705, col: 62, offset: 55055},
+							pos:        position{line: 1705, col: 62, offset: 55191},
 							val:        ">",
 							ignoreCase: false,
 							want:       "\">\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1705, col: 66, offset: 55059},
+							pos: position{line: 1705, col: 66, offset: 55195},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2862, col: 10, offset: 90584},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2862, col: 10, offset: 90584},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -38009,30 +38073,30 @@ var g = &grammar{
 							},
 						},
 						&andExpr{
-							pos: position{line: 1705, col: 73, offset: 55066},
+							pos: position{line: 1705, col: 73, offset: 55202},
 							expr: &choiceExpr{
-								pos: position{line: 1705, col: 75, offset: 55068},
+								pos: position{line: 1705, col: 75, offset: 55204},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2861, col: 12, offset: 90410},
+										pos: position{line: 2871, col: 12, offset: 90755},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2861, col: 13, offset: 90411},
+											pos: position{line: 2871, col: 13, offset: 90756},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2861, col: 13, offset: 90411},
+													pos:        position{line: 2871, col: 13, offset: 90756},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2861, col: 20, offset: 90418},
+													pos:        position{line: 2871, col: 20, offset: 90763},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2861, col: 29, offset: 90427},
+													pos:        position{line: 2871, col: 29, offset: 90772},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -38041,13 +38105,13 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2871, col: 8, offset: 90587},
+										pos: position{line: 2881, col: 8, offset: 90932},
 										expr: &anyMatcher{
-											line: 2871, col: 9, offset: 90588,
+											line: 2881, col: 9, offset: 90933,
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1705, col: 81, offset: 55074},
+										pos:  position{line: 1705, col: 81, offset: 55210},
 										name: "Callout",
 									},
 								},
@@ -38059,44 +38123,44 @@ var g = &grammar{
 		},
 		{
 			name: "ShortcutParagraph",
-			pos:  position{line: 1744, col: 1, offset: 56251},
+			pos:  position{line: 1744, col: 1, offset: 56387},
 			expr: &actionExpr{
-				pos: position{line: 1746, col: 5, offset: 56325},
+				pos: position{line: 1746, col: 5, offset: 56461},
 				run: (*parser).callonShortcutParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1746, col: 5, offset: 56325},
+					pos: position{line: 1746, col: 5, offset: 56461},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 1746, col: 5, offset: 56325},
+							pos: position{line: 1746, col: 5, offset: 56461},
 							expr: &seqExpr{
-								pos: position{line: 1746, col: 7, offset: 56327},
+								pos: position{line: 1746, col: 7, offset: 56463},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2742, col: 13, offset: 87334},
+										pos:        position{line: 2752, col: 13, offset: 87679},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
 										inverted:   false,
 									},
 									&notExpr{
-										pos: position{line: 1746, col: 16, offset: 56336},
+										pos: position{line: 1746, col: 16, offset: 56472},
 										expr: &seqExpr{
-											pos: position{line: 1746, col: 18, offset: 56338},
+											pos: position{line: 1746, col: 18, offset: 56474},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 1746, col: 19, offset: 56339},
+													pos:        position{line: 1746, col: 19, offset: 56475},
 													val:        "[.)]",
 													chars:      []rune{'.', ')'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2856, col: 11, offset: 90300},
+													pos: position{line: 2866, col: 11, offset: 90645},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2856, col: 11, offset: 90300},
+														pos: position{line: 2866, col: 11, offset: 90645},
 														expr: &charClassMatcher{
-															pos:        position{line: 2856, col: 11, offset: 90300},
+															pos:        position{line: 2866, col: 11, offset: 90645},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -38111,88 +38175,88 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1747, col: 5, offset: 56479},
+							pos:   position{line: 1747, col: 5, offset: 56615},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1747, col: 11, offset: 56485},
+								pos: position{line: 1747, col: 11, offset: 56621},
 								expr: &actionExpr{
-									pos: position{line: 1725, col: 5, offset: 55744},
+									pos: position{line: 1725, col: 5, offset: 55880},
 									run: (*parser).callonShortcutParagraph14,
 									expr: &seqExpr{
-										pos: position{line: 1725, col: 5, offset: 55744},
+										pos: position{line: 1725, col: 5, offset: 55880},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1725, col: 5, offset: 55744},
+												pos: position{line: 1725, col: 5, offset: 55880},
 												run: (*parser).callonShortcutParagraph16,
 											},
 											&labeledExpr{
-												pos:   position{line: 1728, col: 5, offset: 55807},
+												pos:   position{line: 1728, col: 5, offset: 55943},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1728, col: 12, offset: 55814},
+													pos: position{line: 1728, col: 12, offset: 55950},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1728, col: 12, offset: 55814},
+															pos: position{line: 1728, col: 12, offset: 55950},
 															run: (*parser).callonShortcutParagraph19,
 															expr: &litMatcher{
-																pos:        position{line: 1728, col: 12, offset: 55814},
+																pos:        position{line: 1728, col: 12, offset: 55950},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1730, col: 13, offset: 55870},
+															pos: position{line: 1730, col: 13, offset: 56006},
 															run: (*parser).callonShortcutParagraph21,
 															expr: &litMatcher{
-																pos:        position{line: 1730, col: 13, offset: 55870},
+																pos:        position{line: 1730, col: 13, offset: 56006},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1732, col: 13, offset: 55928},
+															pos: position{line: 1732, col: 13, offset: 56064},
 															run: (*parser).callonShortcutParagraph23,
 															expr: &litMatcher{
-																pos:        position{line: 1732, col: 13, offset: 55928},
+																pos:        position{line: 1732, col: 13, offset: 56064},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1734, col: 13, offset: 55996},
+															pos: position{line: 1734, col: 13, offset: 56132},
 															run: (*parser).callonShortcutParagraph25,
 															expr: &litMatcher{
-																pos:        position{line: 1734, col: 13, offset: 55996},
+																pos:        position{line: 1734, col: 13, offset: 56132},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1736, col: 13, offset: 56060},
+															pos: position{line: 1736, col: 13, offset: 56196},
 															run: (*parser).callonShortcutParagraph27,
 															expr: &litMatcher{
-																pos:        position{line: 1736, col: 13, offset: 56060},
+																pos:        position{line: 1736, col: 13, offset: 56196},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1738, col: 13, offset: 56124},
+															pos: position{line: 1738, col: 13, offset: 56260},
 															run: (*parser).callonShortcutParagraph29,
 															expr: &andExpr{
-																pos: position{line: 1738, col: 13, offset: 56124},
+																pos: position{line: 1738, col: 13, offset: 56260},
 																expr: &actionExpr{
-																	pos: position{line: 2856, col: 11, offset: 90300},
+																	pos: position{line: 2866, col: 11, offset: 90645},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2866, col: 11, offset: 90645},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2856, col: 11, offset: 90300},
+																			pos:        position{line: 2866, col: 11, offset: 90645},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -38206,17 +38270,17 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1740, col: 12, offset: 56194},
+												pos: position{line: 1740, col: 12, offset: 56330},
 												expr: &seqExpr{
-													pos: position{line: 1740, col: 14, offset: 56196},
+													pos: position{line: 1740, col: 14, offset: 56332},
 													exprs: []interface{}{
 														&zeroOrMoreExpr{
-															pos: position{line: 1740, col: 14, offset: 56196},
+															pos: position{line: 1740, col: 14, offset: 56332},
 															expr: &actionExpr{
-																pos: position{line: 2852, col: 10, offset: 90239},
+																pos: position{line: 2862, col: 10, offset: 90584},
 																run: (*parser).callonShortcutParagraph37,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2852, col: 10, offset: 90239},
+																	pos:        position{line: 2862, col: 10, offset: 90584},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -38225,28 +38289,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2874, col: 8, offset: 90637},
+															pos: position{line: 2884, col: 8, offset: 90982},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2861, col: 12, offset: 90410},
+																	pos: position{line: 2871, col: 12, offset: 90755},
 																	run: (*parser).callonShortcutParagraph40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2861, col: 13, offset: 90411},
+																		pos: position{line: 2871, col: 13, offset: 90756},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2861, col: 13, offset: 90411},
+																				pos:        position{line: 2871, col: 13, offset: 90756},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2861, col: 20, offset: 90418},
+																				pos:        position{line: 2871, col: 20, offset: 90763},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2861, col: 29, offset: 90427},
+																				pos:        position{line: 2871, col: 29, offset: 90772},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -38255,9 +38319,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2881, col: 8, offset: 90932},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2881, col: 9, offset: 90933,
 																	},
 																},
 															},
@@ -38271,24 +38335,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1748, col: 5, offset: 56507},
+							pos:   position{line: 1748, col: 5, offset: 56643},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1784, col: 5, offset: 57614},
+								pos: position{line: 1784, col: 5, offset: 57750},
 								run: (*parser).callonShortcutParagraph48,
 								expr: &seqExpr{
-									pos: position{line: 1784, col: 5, offset: 57614},
+									pos: position{line: 1784, col: 5, offset: 57750},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1784, col: 5, offset: 57614},
+											pos:   position{line: 1784, col: 5, offset: 57750},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2802, col: 14, offset: 88832},
+												pos: position{line: 2812, col: 14, offset: 89177},
 												run: (*parser).callonShortcutParagraph51,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2802, col: 14, offset: 88832},
+													pos: position{line: 2812, col: 14, offset: 89177},
 													expr: &charClassMatcher{
-														pos:        position{line: 2802, col: 14, offset: 88832},
+														pos:        position{line: 2812, col: 14, offset: 89177},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -38298,32 +38362,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1785, col: 5, offset: 57638},
+											pos: position{line: 1785, col: 5, offset: 57774},
 											run: (*parser).callonShortcutParagraph54,
 										},
 										&choiceExpr{
-											pos: position{line: 2874, col: 8, offset: 90637},
+											pos: position{line: 2884, col: 8, offset: 90982},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2861, col: 12, offset: 90410},
+													pos: position{line: 2871, col: 12, offset: 90755},
 													run: (*parser).callonShortcutParagraph56,
 													expr: &choiceExpr{
-														pos: position{line: 2861, col: 13, offset: 90411},
+														pos: position{line: 2871, col: 13, offset: 90756},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2861, col: 13, offset: 90411},
+																pos:        position{line: 2871, col: 13, offset: 90756},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2861, col: 20, offset: 90418},
+																pos:        position{line: 2871, col: 20, offset: 90763},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2861, col: 29, offset: 90427},
+																pos:        position{line: 2871, col: 29, offset: 90772},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -38332,9 +38396,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2871, col: 8, offset: 90587},
+													pos: position{line: 2881, col: 8, offset: 90932},
 													expr: &anyMatcher{
-														line: 2871, col: 9, offset: 90588,
+														line: 2881, col: 9, offset: 90933,
 													},
 												},
 											},
@@ -38344,47 +38408,47 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1749, col: 5, offset: 56541},
+							pos: position{line: 1749, col: 5, offset: 56677},
 							run: (*parser).callonShortcutParagraph63,
 						},
 						&labeledExpr{
-							pos:   position{line: 1756, col: 5, offset: 56871},
+							pos:   position{line: 1756, col: 5, offset: 57007},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1756, col: 16, offset: 56882},
+								pos: position{line: 1756, col: 16, offset: 57018},
 								expr: &actionExpr{
-									pos: position{line: 1757, col: 9, offset: 56892},
+									pos: position{line: 1757, col: 9, offset: 57028},
 									run: (*parser).callonShortcutParagraph66,
 									expr: &seqExpr{
-										pos: position{line: 1757, col: 9, offset: 56892},
+										pos: position{line: 1757, col: 9, offset: 57028},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2869, col: 11, offset: 90573},
+												pos: position{line: 2879, col: 11, offset: 90918},
 												expr: &anyMatcher{
-													line: 2869, col: 13, offset: 90575,
+													line: 2879, col: 13, offset: 90920,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1758, col: 9, offset: 56908},
+												pos: position{line: 1758, col: 9, offset: 57044},
 												expr: &actionExpr{
-													pos: position{line: 677, col: 14, offset: 21489},
+													pos: position{line: 677, col: 14, offset: 21557},
 													run: (*parser).callonShortcutParagraph71,
 													expr: &seqExpr{
-														pos: position{line: 677, col: 14, offset: 21489},
+														pos: position{line: 677, col: 14, offset: 21557},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2869, col: 11, offset: 90573},
+																pos: position{line: 2879, col: 11, offset: 90918},
 																expr: &anyMatcher{
-																	line: 2869, col: 13, offset: 90575,
+																	line: 2879, col: 13, offset: 90920,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 677, col: 21, offset: 21496},
+																pos: position{line: 677, col: 21, offset: 21564},
 																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
+																	pos: position{line: 2862, col: 10, offset: 90584},
 																	run: (*parser).callonShortcutParagraph76,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		pos:        position{line: 2862, col: 10, offset: 90584},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -38393,28 +38457,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2874, col: 8, offset: 90637},
+																pos: position{line: 2884, col: 8, offset: 90982},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2861, col: 12, offset: 90410},
+																		pos: position{line: 2871, col: 12, offset: 90755},
 																		run: (*parser).callonShortcutParagraph79,
 																		expr: &choiceExpr{
-																			pos: position{line: 2861, col: 13, offset: 90411},
+																			pos: position{line: 2871, col: 13, offset: 90756},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 13, offset: 90411},
+																					pos:        position{line: 2871, col: 13, offset: 90756},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 20, offset: 90418},
+																					pos:        position{line: 2871, col: 20, offset: 90763},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 29, offset: 90427},
+																					pos:        position{line: 2871, col: 29, offset: 90772},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -38423,9 +38487,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2881, col: 8, offset: 90932},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2881, col: 9, offset: 90933,
 																		},
 																	},
 																},
@@ -38435,24 +38499,24 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1759, col: 9, offset: 56927},
+												pos: position{line: 1759, col: 9, offset: 57063},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1759, col: 10, offset: 56928},
+													pos:  position{line: 1759, col: 10, offset: 57064},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1760, col: 9, offset: 56952},
+												pos: position{line: 1760, col: 9, offset: 57088},
 												expr: &actionExpr{
-													pos: position{line: 724, col: 5, offset: 23042},
+													pos: position{line: 724, col: 5, offset: 23110},
 													run: (*parser).callonShortcutParagraph89,
 													expr: &seqExpr{
-														pos: position{line: 724, col: 5, offset: 23042},
+														pos: position{line: 724, col: 5, offset: 23110},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 724, col: 5, offset: 23042},
+																pos: position{line: 724, col: 5, offset: 23110},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2742, col: 13, offset: 87334},
+																	pos:        position{line: 2752, col: 13, offset: 87679},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -38460,36 +38524,36 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 725, col: 5, offset: 23072},
+																pos:   position{line: 725, col: 5, offset: 23140},
 																label: "delimiter",
 																expr: &choiceExpr{
-																	pos: position{line: 726, col: 9, offset: 23092},
+																	pos: position{line: 726, col: 9, offset: 23160},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 740, col: 5, offset: 23584},
+																			pos: position{line: 740, col: 5, offset: 23652},
 																			run: (*parser).callonShortcutParagraph95,
 																			expr: &seqExpr{
-																				pos: position{line: 740, col: 5, offset: 23584},
+																				pos: position{line: 740, col: 5, offset: 23652},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 740, col: 5, offset: 23584},
+																						pos:   position{line: 740, col: 5, offset: 23652},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 740, col: 16, offset: 23595},
+																							pos: position{line: 740, col: 16, offset: 23663},
 																							run: (*parser).callonShortcutParagraph98,
 																							expr: &seqExpr{
-																								pos: position{line: 740, col: 16, offset: 23595},
+																								pos: position{line: 740, col: 16, offset: 23663},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 740, col: 16, offset: 23595},
+																										pos:        position{line: 740, col: 16, offset: 23663},
 																										val:        "////",
 																										ignoreCase: false,
 																										want:       "\"////\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 740, col: 23, offset: 23602},
+																										pos: position{line: 740, col: 23, offset: 23670},
 																										expr: &litMatcher{
-																											pos:        position{line: 740, col: 23, offset: 23602},
+																											pos:        position{line: 740, col: 23, offset: 23670},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -38500,12 +38564,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 742, col: 8, offset: 23686},
+																						pos: position{line: 742, col: 8, offset: 23754},
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2862, col: 10, offset: 90584},
 																							run: (*parser).callonShortcutParagraph104,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2862, col: 10, offset: 90584},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38514,28 +38578,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2884, col: 8, offset: 90982},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2871, col: 12, offset: 90755},
 																								run: (*parser).callonShortcutParagraph107,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2871, col: 13, offset: 90756},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2871, col: 13, offset: 90756},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2871, col: 20, offset: 90763},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2871, col: 29, offset: 90772},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38544,9 +38608,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2881, col: 8, offset: 90932},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2881, col: 9, offset: 90933,
 																								},
 																							},
 																						},
@@ -38555,30 +38619,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 747, col: 5, offset: 23832},
+																			pos: position{line: 747, col: 5, offset: 23900},
 																			run: (*parser).callonShortcutParagraph114,
 																			expr: &seqExpr{
-																				pos: position{line: 747, col: 5, offset: 23832},
+																				pos: position{line: 747, col: 5, offset: 23900},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 747, col: 5, offset: 23832},
+																						pos:   position{line: 747, col: 5, offset: 23900},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 747, col: 16, offset: 23843},
+																							pos: position{line: 747, col: 16, offset: 23911},
 																							run: (*parser).callonShortcutParagraph117,
 																							expr: &seqExpr{
-																								pos: position{line: 747, col: 16, offset: 23843},
+																								pos: position{line: 747, col: 16, offset: 23911},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 747, col: 16, offset: 23843},
+																										pos:        position{line: 747, col: 16, offset: 23911},
 																										val:        "====",
 																										ignoreCase: false,
 																										want:       "\"====\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 747, col: 23, offset: 23850},
+																										pos: position{line: 747, col: 23, offset: 23918},
 																										expr: &litMatcher{
-																											pos:        position{line: 747, col: 23, offset: 23850},
+																											pos:        position{line: 747, col: 23, offset: 23918},
 																											val:        "=",
 																											ignoreCase: false,
 																											want:       "\"=\"",
@@ -38589,12 +38653,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 749, col: 8, offset: 23934},
+																						pos: position{line: 749, col: 8, offset: 24002},
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2862, col: 10, offset: 90584},
 																							run: (*parser).callonShortcutParagraph123,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2862, col: 10, offset: 90584},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38603,28 +38667,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2884, col: 8, offset: 90982},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2871, col: 12, offset: 90755},
 																								run: (*parser).callonShortcutParagraph126,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2871, col: 13, offset: 90756},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2871, col: 13, offset: 90756},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2871, col: 20, offset: 90763},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2871, col: 29, offset: 90772},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38633,9 +38697,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2881, col: 8, offset: 90932},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2881, col: 9, offset: 90933,
 																								},
 																							},
 																						},
@@ -38644,27 +38708,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 760, col: 26, offset: 24320},
+																			pos: position{line: 760, col: 26, offset: 24388},
 																			run: (*parser).callonShortcutParagraph133,
 																			expr: &seqExpr{
-																				pos: position{line: 760, col: 26, offset: 24320},
+																				pos: position{line: 760, col: 26, offset: 24388},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 760, col: 26, offset: 24320},
+																						pos:        position{line: 760, col: 26, offset: 24388},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 760, col: 32, offset: 24326},
+																						pos:   position{line: 760, col: 32, offset: 24394},
 																						label: "language",
 																						expr: &actionExpr{
-																							pos: position{line: 764, col: 13, offset: 24456},
+																							pos: position{line: 764, col: 13, offset: 24524},
 																							run: (*parser).callonShortcutParagraph137,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 764, col: 14, offset: 24457},
+																								pos: position{line: 764, col: 14, offset: 24525},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 764, col: 14, offset: 24457},
+																									pos:        position{line: 764, col: 14, offset: 24525},
 																									val:        "[^\\r\\n`\\t ]",
 																									chars:      []rune{'\r', '\n', '`', '\t', ' '},
 																									ignoreCase: false,
@@ -38674,12 +38738,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 760, col: 52, offset: 24346},
+																						pos: position{line: 760, col: 52, offset: 24414},
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2862, col: 10, offset: 90584},
 																							run: (*parser).callonShortcutParagraph141,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2862, col: 10, offset: 90584},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38688,28 +38752,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2884, col: 8, offset: 90982},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2871, col: 12, offset: 90755},
 																								run: (*parser).callonShortcutParagraph144,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2871, col: 13, offset: 90756},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2871, col: 13, offset: 90756},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2871, col: 20, offset: 90763},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2871, col: 29, offset: 90772},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38718,9 +38782,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2881, col: 8, offset: 90932},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2881, col: 9, offset: 90933,
 																								},
 																							},
 																						},
@@ -38729,30 +38793,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 754, col: 5, offset: 24079},
+																			pos: position{line: 754, col: 5, offset: 24147},
 																			run: (*parser).callonShortcutParagraph151,
 																			expr: &seqExpr{
-																				pos: position{line: 754, col: 5, offset: 24079},
+																				pos: position{line: 754, col: 5, offset: 24147},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 754, col: 5, offset: 24079},
+																						pos:   position{line: 754, col: 5, offset: 24147},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 754, col: 16, offset: 24090},
+																							pos: position{line: 754, col: 16, offset: 24158},
 																							run: (*parser).callonShortcutParagraph154,
 																							expr: &seqExpr{
-																								pos: position{line: 754, col: 16, offset: 24090},
+																								pos: position{line: 754, col: 16, offset: 24158},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 754, col: 16, offset: 24090},
+																										pos:        position{line: 754, col: 16, offset: 24158},
 																										val:        "```",
 																										ignoreCase: false,
 																										want:       "\"```\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 754, col: 22, offset: 24096},
+																										pos: position{line: 754, col: 22, offset: 24164},
 																										expr: &litMatcher{
-																											pos:        position{line: 754, col: 22, offset: 24096},
+																											pos:        position{line: 754, col: 22, offset: 24164},
 																											val:        "`",
 																											ignoreCase: false,
 																											want:       "\"`\"",
@@ -38763,12 +38827,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 756, col: 8, offset: 24180},
+																						pos: position{line: 756, col: 8, offset: 24248},
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2862, col: 10, offset: 90584},
 																							run: (*parser).callonShortcutParagraph160,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2862, col: 10, offset: 90584},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38777,28 +38841,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2884, col: 8, offset: 90982},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2871, col: 12, offset: 90755},
 																								run: (*parser).callonShortcutParagraph163,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2871, col: 13, offset: 90756},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2871, col: 13, offset: 90756},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2871, col: 20, offset: 90763},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2871, col: 29, offset: 90772},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38807,9 +38871,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2881, col: 8, offset: 90932},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2881, col: 9, offset: 90933,
 																								},
 																							},
 																						},
@@ -38818,30 +38882,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 769, col: 5, offset: 24621},
+																			pos: position{line: 769, col: 5, offset: 24689},
 																			run: (*parser).callonShortcutParagraph170,
 																			expr: &seqExpr{
-																				pos: position{line: 769, col: 5, offset: 24621},
+																				pos: position{line: 769, col: 5, offset: 24689},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 769, col: 5, offset: 24621},
+																						pos:   position{line: 769, col: 5, offset: 24689},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 769, col: 16, offset: 24632},
+																							pos: position{line: 769, col: 16, offset: 24700},
 																							run: (*parser).callonShortcutParagraph173,
 																							expr: &seqExpr{
-																								pos: position{line: 769, col: 16, offset: 24632},
+																								pos: position{line: 769, col: 16, offset: 24700},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 769, col: 16, offset: 24632},
+																										pos:        position{line: 769, col: 16, offset: 24700},
 																										val:        "----",
 																										ignoreCase: false,
 																										want:       "\"----\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 769, col: 23, offset: 24639},
+																										pos: position{line: 769, col: 23, offset: 24707},
 																										expr: &litMatcher{
-																											pos:        position{line: 769, col: 23, offset: 24639},
+																											pos:        position{line: 769, col: 23, offset: 24707},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
@@ -38852,12 +38916,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 771, col: 8, offset: 24723},
+																						pos: position{line: 771, col: 8, offset: 24791},
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2862, col: 10, offset: 90584},
 																							run: (*parser).callonShortcutParagraph179,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2862, col: 10, offset: 90584},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38866,28 +38930,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2884, col: 8, offset: 90982},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2871, col: 12, offset: 90755},
 																								run: (*parser).callonShortcutParagraph182,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2871, col: 13, offset: 90756},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2871, col: 13, offset: 90756},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2871, col: 20, offset: 90763},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2871, col: 29, offset: 90772},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38896,9 +38960,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2881, col: 8, offset: 90932},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2881, col: 9, offset: 90933,
 																								},
 																							},
 																						},
@@ -38907,30 +38971,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 783, col: 5, offset: 25097},
+																			pos: position{line: 783, col: 5, offset: 25165},
 																			run: (*parser).callonShortcutParagraph189,
 																			expr: &seqExpr{
-																				pos: position{line: 783, col: 5, offset: 25097},
+																				pos: position{line: 783, col: 5, offset: 25165},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 783, col: 5, offset: 25097},
+																						pos:   position{line: 783, col: 5, offset: 25165},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 783, col: 16, offset: 25108},
+																							pos: position{line: 783, col: 16, offset: 25176},
 																							run: (*parser).callonShortcutParagraph192,
 																							expr: &seqExpr{
-																								pos: position{line: 783, col: 16, offset: 25108},
+																								pos: position{line: 783, col: 16, offset: 25176},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 783, col: 16, offset: 25108},
+																										pos:        position{line: 783, col: 16, offset: 25176},
 																										val:        "....",
 																										ignoreCase: false,
 																										want:       "\"....\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 783, col: 23, offset: 25115},
+																										pos: position{line: 783, col: 23, offset: 25183},
 																										expr: &litMatcher{
-																											pos:        position{line: 783, col: 23, offset: 25115},
+																											pos:        position{line: 783, col: 23, offset: 25183},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -38941,12 +39005,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 785, col: 8, offset: 25199},
+																						pos: position{line: 785, col: 8, offset: 25267},
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2862, col: 10, offset: 90584},
 																							run: (*parser).callonShortcutParagraph198,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2862, col: 10, offset: 90584},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38955,28 +39019,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2884, col: 8, offset: 90982},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2871, col: 12, offset: 90755},
 																								run: (*parser).callonShortcutParagraph201,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2871, col: 13, offset: 90756},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2871, col: 13, offset: 90756},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2871, col: 20, offset: 90763},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2871, col: 29, offset: 90772},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38985,9 +39049,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2881, col: 8, offset: 90932},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2881, col: 9, offset: 90933,
 																								},
 																							},
 																						},
@@ -38996,30 +39060,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 790, col: 5, offset: 25349},
+																			pos: position{line: 790, col: 5, offset: 25417},
 																			run: (*parser).callonShortcutParagraph208,
 																			expr: &seqExpr{
-																				pos: position{line: 790, col: 5, offset: 25349},
+																				pos: position{line: 790, col: 5, offset: 25417},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 790, col: 5, offset: 25349},
+																						pos:   position{line: 790, col: 5, offset: 25417},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 790, col: 16, offset: 25360},
+																							pos: position{line: 790, col: 16, offset: 25428},
 																							run: (*parser).callonShortcutParagraph211,
 																							expr: &seqExpr{
-																								pos: position{line: 790, col: 16, offset: 25360},
+																								pos: position{line: 790, col: 16, offset: 25428},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 790, col: 16, offset: 25360},
+																										pos:        position{line: 790, col: 16, offset: 25428},
 																										val:        "++++",
 																										ignoreCase: false,
 																										want:       "\"++++\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 790, col: 23, offset: 25367},
+																										pos: position{line: 790, col: 23, offset: 25435},
 																										expr: &litMatcher{
-																											pos:        position{line: 790, col: 23, offset: 25367},
+																											pos:        position{line: 790, col: 23, offset: 25435},
 																											val:        "+",
 																											ignoreCase: false,
 																											want:       "\"+\"",
@@ -39030,12 +39094,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 792, col: 8, offset: 25451},
+																						pos: position{line: 792, col: 8, offset: 25519},
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2862, col: 10, offset: 90584},
 																							run: (*parser).callonShortcutParagraph217,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2862, col: 10, offset: 90584},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39044,28 +39108,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2884, col: 8, offset: 90982},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2871, col: 12, offset: 90755},
 																								run: (*parser).callonShortcutParagraph220,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2871, col: 13, offset: 90756},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2871, col: 13, offset: 90756},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2871, col: 20, offset: 90763},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2871, col: 29, offset: 90772},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39074,9 +39138,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2881, col: 8, offset: 90932},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2881, col: 9, offset: 90933,
 																								},
 																							},
 																						},
@@ -39085,30 +39149,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 797, col: 5, offset: 25599},
+																			pos: position{line: 797, col: 5, offset: 25667},
 																			run: (*parser).callonShortcutParagraph227,
 																			expr: &seqExpr{
-																				pos: position{line: 797, col: 5, offset: 25599},
+																				pos: position{line: 797, col: 5, offset: 25667},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 797, col: 5, offset: 25599},
+																						pos:   position{line: 797, col: 5, offset: 25667},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 797, col: 16, offset: 25610},
+																							pos: position{line: 797, col: 16, offset: 25678},
 																							run: (*parser).callonShortcutParagraph230,
 																							expr: &seqExpr{
-																								pos: position{line: 797, col: 16, offset: 25610},
+																								pos: position{line: 797, col: 16, offset: 25678},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 797, col: 16, offset: 25610},
+																										pos:        position{line: 797, col: 16, offset: 25678},
 																										val:        "____",
 																										ignoreCase: false,
 																										want:       "\"____\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 797, col: 23, offset: 25617},
+																										pos: position{line: 797, col: 23, offset: 25685},
 																										expr: &litMatcher{
-																											pos:        position{line: 797, col: 23, offset: 25617},
+																											pos:        position{line: 797, col: 23, offset: 25685},
 																											val:        "_",
 																											ignoreCase: false,
 																											want:       "\"_\"",
@@ -39119,12 +39183,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 799, col: 8, offset: 25701},
+																						pos: position{line: 799, col: 8, offset: 25769},
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2862, col: 10, offset: 90584},
 																							run: (*parser).callonShortcutParagraph236,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2862, col: 10, offset: 90584},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39133,28 +39197,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2884, col: 8, offset: 90982},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2871, col: 12, offset: 90755},
 																								run: (*parser).callonShortcutParagraph239,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2871, col: 13, offset: 90756},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2871, col: 13, offset: 90756},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2871, col: 20, offset: 90763},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2871, col: 29, offset: 90772},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39163,9 +39227,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2881, col: 8, offset: 90932},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2881, col: 9, offset: 90933,
 																								},
 																							},
 																						},
@@ -39174,30 +39238,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 804, col: 5, offset: 25845},
+																			pos: position{line: 804, col: 5, offset: 25913},
 																			run: (*parser).callonShortcutParagraph246,
 																			expr: &seqExpr{
-																				pos: position{line: 804, col: 5, offset: 25845},
+																				pos: position{line: 804, col: 5, offset: 25913},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 804, col: 5, offset: 25845},
+																						pos:   position{line: 804, col: 5, offset: 25913},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 804, col: 16, offset: 25856},
+																							pos: position{line: 804, col: 16, offset: 25924},
 																							run: (*parser).callonShortcutParagraph249,
 																							expr: &seqExpr{
-																								pos: position{line: 804, col: 16, offset: 25856},
+																								pos: position{line: 804, col: 16, offset: 25924},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 804, col: 16, offset: 25856},
+																										pos:        position{line: 804, col: 16, offset: 25924},
 																										val:        "****",
 																										ignoreCase: false,
 																										want:       "\"****\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 804, col: 23, offset: 25863},
+																										pos: position{line: 804, col: 23, offset: 25931},
 																										expr: &litMatcher{
-																											pos:        position{line: 804, col: 23, offset: 25863},
+																											pos:        position{line: 804, col: 23, offset: 25931},
 																											val:        "*",
 																											ignoreCase: false,
 																											want:       "\"*\"",
@@ -39208,12 +39272,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 806, col: 8, offset: 25947},
+																						pos: position{line: 806, col: 8, offset: 26015},
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2862, col: 10, offset: 90584},
 																							run: (*parser).callonShortcutParagraph255,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2862, col: 10, offset: 90584},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39222,28 +39286,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2884, col: 8, offset: 90982},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2871, col: 12, offset: 90755},
 																								run: (*parser).callonShortcutParagraph258,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2871, col: 13, offset: 90756},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2871, col: 13, offset: 90756},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2871, col: 20, offset: 90763},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2871, col: 29, offset: 90772},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39252,9 +39316,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2881, col: 8, offset: 90932},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2881, col: 9, offset: 90933,
 																								},
 																							},
 																						},
@@ -39270,23 +39334,23 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1761, col: 9, offset: 56976},
+												pos: position{line: 1761, col: 9, offset: 57112},
 												expr: &seqExpr{
-													pos: position{line: 1536, col: 27, offset: 49641},
+													pos: position{line: 1536, col: 27, offset: 49777},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 1536, col: 27, offset: 49641},
+															pos:        position{line: 1536, col: 27, offset: 49777},
 															val:        "+",
 															ignoreCase: false,
 															want:       "\"+\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 1536, col: 31, offset: 49645},
+															pos: position{line: 1536, col: 31, offset: 49781},
 															expr: &actionExpr{
-																pos: position{line: 2852, col: 10, offset: 90239},
+																pos: position{line: 2862, col: 10, offset: 90584},
 																run: (*parser).callonShortcutParagraph269,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2852, col: 10, offset: 90239},
+																	pos:        position{line: 2862, col: 10, offset: 90584},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -39295,25 +39359,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2871, col: 12, offset: 90755},
 															run: (*parser).callonShortcutParagraph271,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2871, col: 13, offset: 90756},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2871, col: 13, offset: 90756},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2871, col: 20, offset: 90763},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2871, col: 29, offset: 90772},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -39325,42 +39389,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1762, col: 9, offset: 57008},
+												pos:   position{line: 1762, col: 9, offset: 57144},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1762, col: 15, offset: 57014},
+													pos: position{line: 1762, col: 15, offset: 57150},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2462, col: 22, offset: 79217},
+															pos: position{line: 2472, col: 22, offset: 79562},
 															run: (*parser).callonShortcutParagraph278,
 															expr: &seqExpr{
-																pos: position{line: 2462, col: 22, offset: 79217},
+																pos: position{line: 2472, col: 22, offset: 79562},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2467, col: 31, offset: 79438},
+																		pos:        position{line: 2477, col: 31, offset: 79783},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2467, col: 36, offset: 79443},
+																		pos: position{line: 2477, col: 36, offset: 79788},
 																		expr: &litMatcher{
-																			pos:        position{line: 2467, col: 37, offset: 79444},
+																			pos:        position{line: 2477, col: 37, offset: 79789},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2462, col: 49, offset: 79244},
+																		pos:   position{line: 2472, col: 49, offset: 79589},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2798, col: 13, offset: 88765},
+																			pos: position{line: 2808, col: 13, offset: 89110},
 																			run: (*parser).callonShortcutParagraph284,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2798, col: 13, offset: 88765},
+																				pos: position{line: 2808, col: 13, offset: 89110},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2798, col: 13, offset: 88765},
+																					pos:        position{line: 2808, col: 13, offset: 89110},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39370,28 +39434,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2884, col: 8, offset: 90982},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2871, col: 12, offset: 90755},
 																				run: (*parser).callonShortcutParagraph288,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2871, col: 13, offset: 90756},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2871, col: 13, offset: 90756},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2871, col: 20, offset: 90763},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2871, col: 29, offset: 90772},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39400,9 +39464,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2881, col: 8, offset: 90932},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2881, col: 9, offset: 90933,
 																				},
 																			},
 																		},
@@ -39411,21 +39475,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1784, col: 5, offset: 57614},
+															pos: position{line: 1784, col: 5, offset: 57750},
 															run: (*parser).callonShortcutParagraph295,
 															expr: &seqExpr{
-																pos: position{line: 1784, col: 5, offset: 57614},
+																pos: position{line: 1784, col: 5, offset: 57750},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1784, col: 5, offset: 57614},
+																		pos:   position{line: 1784, col: 5, offset: 57750},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2802, col: 14, offset: 88832},
+																			pos: position{line: 2812, col: 14, offset: 89177},
 																			run: (*parser).callonShortcutParagraph298,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2802, col: 14, offset: 88832},
+																				pos: position{line: 2812, col: 14, offset: 89177},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2802, col: 14, offset: 88832},
+																					pos:        position{line: 2812, col: 14, offset: 89177},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39435,32 +39499,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1785, col: 5, offset: 57638},
+																		pos: position{line: 1785, col: 5, offset: 57774},
 																		run: (*parser).callonShortcutParagraph301,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2884, col: 8, offset: 90982},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2871, col: 12, offset: 90755},
 																				run: (*parser).callonShortcutParagraph303,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2871, col: 13, offset: 90756},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2871, col: 13, offset: 90756},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2871, col: 20, offset: 90763},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2871, col: 29, offset: 90772},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39469,9 +39533,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2881, col: 8, offset: 90932},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2881, col: 9, offset: 90933,
 																				},
 																			},
 																		},
@@ -39493,96 +39557,96 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraph",
-			pos:  position{line: 1769, col: 1, offset: 57218},
+			pos:  position{line: 1769, col: 1, offset: 57354},
 			expr: &actionExpr{
-				pos: position{line: 1770, col: 5, offset: 57236},
+				pos: position{line: 1770, col: 5, offset: 57372},
 				run: (*parser).callonParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1770, col: 5, offset: 57236},
+					pos: position{line: 1770, col: 5, offset: 57372},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1770, col: 5, offset: 57236},
+							pos:   position{line: 1770, col: 5, offset: 57372},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1770, col: 11, offset: 57242},
+								pos: position{line: 1770, col: 11, offset: 57378},
 								expr: &actionExpr{
-									pos: position{line: 1725, col: 5, offset: 55744},
+									pos: position{line: 1725, col: 5, offset: 55880},
 									run: (*parser).callonParagraph5,
 									expr: &seqExpr{
-										pos: position{line: 1725, col: 5, offset: 55744},
+										pos: position{line: 1725, col: 5, offset: 55880},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1725, col: 5, offset: 55744},
+												pos: position{line: 1725, col: 5, offset: 55880},
 												run: (*parser).callonParagraph7,
 											},
 											&labeledExpr{
-												pos:   position{line: 1728, col: 5, offset: 55807},
+												pos:   position{line: 1728, col: 5, offset: 55943},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1728, col: 12, offset: 55814},
+													pos: position{line: 1728, col: 12, offset: 55950},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1728, col: 12, offset: 55814},
+															pos: position{line: 1728, col: 12, offset: 55950},
 															run: (*parser).callonParagraph10,
 															expr: &litMatcher{
-																pos:        position{line: 1728, col: 12, offset: 55814},
+																pos:        position{line: 1728, col: 12, offset: 55950},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1730, col: 13, offset: 55870},
+															pos: position{line: 1730, col: 13, offset: 56006},
 															run: (*parser).callonParagraph12,
 															expr: &litMatcher{
-																pos:        position{line: 1730, col: 13, offset: 55870},
+																pos:        position{line: 1730, col: 13, offset: 56006},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1732, col: 13, offset: 55928},
+															pos: position{line: 1732, col: 13, offset: 56064},
 															run: (*parser).callonParagraph14,
 															expr: &litMatcher{
-																pos:        position{line: 1732, col: 13, offset: 55928},
+																pos:        position{line: 1732, col: 13, offset: 56064},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1734, col: 13, offset: 55996},
+															pos: position{line: 1734, col: 13, offset: 56132},
 															run: (*parser).callonParagraph16,
 															expr: &litMatcher{
-																pos:        position{line: 1734, col: 13, offset: 55996},
+																pos:        position{line: 1734, col: 13, offset: 56132},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1736, col: 13, offset: 56060},
+															pos: position{line: 1736, col: 13, offset: 56196},
 															run: (*parser).callonParagraph18,
 															expr: &litMatcher{
-																pos:        position{line: 1736, col: 13, offset: 56060},
+																pos:        position{line: 1736, col: 13, offset: 56196},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1738, col: 13, offset: 56124},
+															pos: position{line: 1738, col: 13, offset: 56260},
 															run: (*parser).callonParagraph20,
 															expr: &andExpr{
-																pos: position{line: 1738, col: 13, offset: 56124},
+																pos: position{line: 1738, col: 13, offset: 56260},
 																expr: &actionExpr{
-																	pos: position{line: 2856, col: 11, offset: 90300},
+																	pos: position{line: 2866, col: 11, offset: 90645},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2866, col: 11, offset: 90645},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2856, col: 11, offset: 90300},
+																			pos:        position{line: 2866, col: 11, offset: 90645},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -39596,17 +39660,17 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1740, col: 12, offset: 56194},
+												pos: position{line: 1740, col: 12, offset: 56330},
 												expr: &seqExpr{
-													pos: position{line: 1740, col: 14, offset: 56196},
+													pos: position{line: 1740, col: 14, offset: 56332},
 													exprs: []interface{}{
 														&zeroOrMoreExpr{
-															pos: position{line: 1740, col: 14, offset: 56196},
+															pos: position{line: 1740, col: 14, offset: 56332},
 															expr: &actionExpr{
-																pos: position{line: 2852, col: 10, offset: 90239},
+																pos: position{line: 2862, col: 10, offset: 90584},
 																run: (*parser).callonParagraph28,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2852, col: 10, offset: 90239},
+																	pos:        position{line: 2862, col: 10, offset: 90584},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -39615,28 +39679,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2874, col: 8, offset: 90637},
+															pos: position{line: 2884, col: 8, offset: 90982},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2861, col: 12, offset: 90410},
+																	pos: position{line: 2871, col: 12, offset: 90755},
 																	run: (*parser).callonParagraph31,
 																	expr: &choiceExpr{
-																		pos: position{line: 2861, col: 13, offset: 90411},
+																		pos: position{line: 2871, col: 13, offset: 90756},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2861, col: 13, offset: 90411},
+																				pos:        position{line: 2871, col: 13, offset: 90756},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2861, col: 20, offset: 90418},
+																				pos:        position{line: 2871, col: 20, offset: 90763},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2861, col: 29, offset: 90427},
+																				pos:        position{line: 2871, col: 29, offset: 90772},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -39645,9 +39709,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2881, col: 8, offset: 90932},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2881, col: 9, offset: 90933,
 																	},
 																},
 															},
@@ -39661,24 +39725,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1771, col: 5, offset: 57265},
+							pos:   position{line: 1771, col: 5, offset: 57401},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1784, col: 5, offset: 57614},
+								pos: position{line: 1784, col: 5, offset: 57750},
 								run: (*parser).callonParagraph39,
 								expr: &seqExpr{
-									pos: position{line: 1784, col: 5, offset: 57614},
+									pos: position{line: 1784, col: 5, offset: 57750},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1784, col: 5, offset: 57614},
+											pos:   position{line: 1784, col: 5, offset: 57750},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2802, col: 14, offset: 88832},
+												pos: position{line: 2812, col: 14, offset: 89177},
 												run: (*parser).callonParagraph42,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2802, col: 14, offset: 88832},
+													pos: position{line: 2812, col: 14, offset: 89177},
 													expr: &charClassMatcher{
-														pos:        position{line: 2802, col: 14, offset: 88832},
+														pos:        position{line: 2812, col: 14, offset: 89177},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -39688,32 +39752,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1785, col: 5, offset: 57638},
+											pos: position{line: 1785, col: 5, offset: 57774},
 											run: (*parser).callonParagraph45,
 										},
 										&choiceExpr{
-											pos: position{line: 2874, col: 8, offset: 90637},
+											pos: position{line: 2884, col: 8, offset: 90982},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2861, col: 12, offset: 90410},
+													pos: position{line: 2871, col: 12, offset: 90755},
 													run: (*parser).callonParagraph47,
 													expr: &choiceExpr{
-														pos: position{line: 2861, col: 13, offset: 90411},
+														pos: position{line: 2871, col: 13, offset: 90756},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2861, col: 13, offset: 90411},
+																pos:        position{line: 2871, col: 13, offset: 90756},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2861, col: 20, offset: 90418},
+																pos:        position{line: 2871, col: 20, offset: 90763},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2861, col: 29, offset: 90427},
+																pos:        position{line: 2871, col: 29, offset: 90772},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -39722,9 +39786,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2871, col: 8, offset: 90587},
+													pos: position{line: 2881, col: 8, offset: 90932},
 													expr: &anyMatcher{
-														line: 2871, col: 9, offset: 90588,
+														line: 2881, col: 9, offset: 90933,
 													},
 												},
 											},
@@ -39734,43 +39798,43 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1772, col: 5, offset: 57299},
+							pos:   position{line: 1772, col: 5, offset: 57435},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1772, col: 16, offset: 57310},
+								pos: position{line: 1772, col: 16, offset: 57446},
 								expr: &actionExpr{
-									pos: position{line: 1773, col: 9, offset: 57320},
+									pos: position{line: 1773, col: 9, offset: 57456},
 									run: (*parser).callonParagraph56,
 									expr: &seqExpr{
-										pos: position{line: 1773, col: 9, offset: 57320},
+										pos: position{line: 1773, col: 9, offset: 57456},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2869, col: 11, offset: 90573},
+												pos: position{line: 2879, col: 11, offset: 90918},
 												expr: &anyMatcher{
-													line: 2869, col: 13, offset: 90575,
+													line: 2879, col: 13, offset: 90920,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1774, col: 9, offset: 57335},
+												pos: position{line: 1774, col: 9, offset: 57471},
 												expr: &actionExpr{
-													pos: position{line: 677, col: 14, offset: 21489},
+													pos: position{line: 677, col: 14, offset: 21557},
 													run: (*parser).callonParagraph61,
 													expr: &seqExpr{
-														pos: position{line: 677, col: 14, offset: 21489},
+														pos: position{line: 677, col: 14, offset: 21557},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2869, col: 11, offset: 90573},
+																pos: position{line: 2879, col: 11, offset: 90918},
 																expr: &anyMatcher{
-																	line: 2869, col: 13, offset: 90575,
+																	line: 2879, col: 13, offset: 90920,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 677, col: 21, offset: 21496},
+																pos: position{line: 677, col: 21, offset: 21564},
 																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
+																	pos: position{line: 2862, col: 10, offset: 90584},
 																	run: (*parser).callonParagraph66,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		pos:        position{line: 2862, col: 10, offset: 90584},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -39779,28 +39843,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2874, col: 8, offset: 90637},
+																pos: position{line: 2884, col: 8, offset: 90982},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2861, col: 12, offset: 90410},
+																		pos: position{line: 2871, col: 12, offset: 90755},
 																		run: (*parser).callonParagraph69,
 																		expr: &choiceExpr{
-																			pos: position{line: 2861, col: 13, offset: 90411},
+																			pos: position{line: 2871, col: 13, offset: 90756},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 13, offset: 90411},
+																					pos:        position{line: 2871, col: 13, offset: 90756},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 20, offset: 90418},
+																					pos:        position{line: 2871, col: 20, offset: 90763},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 29, offset: 90427},
+																					pos:        position{line: 2871, col: 29, offset: 90772},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -39809,9 +39873,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2881, col: 8, offset: 90932},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2881, col: 9, offset: 90933,
 																		},
 																	},
 																},
@@ -39821,49 +39885,49 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1775, col: 9, offset: 57354},
+												pos: position{line: 1775, col: 9, offset: 57490},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1775, col: 10, offset: 57355},
+													pos:  position{line: 1775, col: 10, offset: 57491},
 													name: "BlockAttributes",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1776, col: 9, offset: 57379},
+												pos:   position{line: 1776, col: 9, offset: 57515},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1776, col: 15, offset: 57385},
+													pos: position{line: 1776, col: 15, offset: 57521},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2462, col: 22, offset: 79217},
+															pos: position{line: 2472, col: 22, offset: 79562},
 															run: (*parser).callonParagraph80,
 															expr: &seqExpr{
-																pos: position{line: 2462, col: 22, offset: 79217},
+																pos: position{line: 2472, col: 22, offset: 79562},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2467, col: 31, offset: 79438},
+																		pos:        position{line: 2477, col: 31, offset: 79783},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2467, col: 36, offset: 79443},
+																		pos: position{line: 2477, col: 36, offset: 79788},
 																		expr: &litMatcher{
-																			pos:        position{line: 2467, col: 37, offset: 79444},
+																			pos:        position{line: 2477, col: 37, offset: 79789},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2462, col: 49, offset: 79244},
+																		pos:   position{line: 2472, col: 49, offset: 79589},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2798, col: 13, offset: 88765},
+																			pos: position{line: 2808, col: 13, offset: 89110},
 																			run: (*parser).callonParagraph86,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2798, col: 13, offset: 88765},
+																				pos: position{line: 2808, col: 13, offset: 89110},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2798, col: 13, offset: 88765},
+																					pos:        position{line: 2808, col: 13, offset: 89110},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39873,28 +39937,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2884, col: 8, offset: 90982},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2871, col: 12, offset: 90755},
 																				run: (*parser).callonParagraph90,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2871, col: 13, offset: 90756},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2871, col: 13, offset: 90756},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2871, col: 20, offset: 90763},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2871, col: 29, offset: 90772},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39903,9 +39967,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2881, col: 8, offset: 90932},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2881, col: 9, offset: 90933,
 																				},
 																			},
 																		},
@@ -39914,21 +39978,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1784, col: 5, offset: 57614},
+															pos: position{line: 1784, col: 5, offset: 57750},
 															run: (*parser).callonParagraph97,
 															expr: &seqExpr{
-																pos: position{line: 1784, col: 5, offset: 57614},
+																pos: position{line: 1784, col: 5, offset: 57750},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1784, col: 5, offset: 57614},
+																		pos:   position{line: 1784, col: 5, offset: 57750},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2802, col: 14, offset: 88832},
+																			pos: position{line: 2812, col: 14, offset: 89177},
 																			run: (*parser).callonParagraph100,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2802, col: 14, offset: 88832},
+																				pos: position{line: 2812, col: 14, offset: 89177},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2802, col: 14, offset: 88832},
+																					pos:        position{line: 2812, col: 14, offset: 89177},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39938,32 +40002,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1785, col: 5, offset: 57638},
+																		pos: position{line: 1785, col: 5, offset: 57774},
 																		run: (*parser).callonParagraph103,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2884, col: 8, offset: 90982},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2871, col: 12, offset: 90755},
 																				run: (*parser).callonParagraph105,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2871, col: 13, offset: 90756},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2871, col: 13, offset: 90756},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2871, col: 20, offset: 90763},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2871, col: 29, offset: 90772},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39972,9 +40036,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2881, col: 8, offset: 90932},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2881, col: 9, offset: 90933,
 																				},
 																			},
 																		},
@@ -39996,16 +40060,16 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedText",
-			pos:  position{line: 1795, col: 1, offset: 58120},
+			pos:  position{line: 1795, col: 1, offset: 58256},
 			expr: &choiceExpr{
-				pos: position{line: 1795, col: 15, offset: 58134},
+				pos: position{line: 1795, col: 15, offset: 58270},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1795, col: 15, offset: 58134},
+						pos:  position{line: 1795, col: 15, offset: 58270},
 						name: "EscapedQuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1795, col: 35, offset: 58154},
+						pos:  position{line: 1795, col: 35, offset: 58290},
 						name: "UnescapedQuotedText",
 					},
 				},
@@ -40013,65 +40077,65 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedQuotedText",
-			pos:  position{line: 1797, col: 1, offset: 58175},
+			pos:  position{line: 1797, col: 1, offset: 58311},
 			expr: &actionExpr{
-				pos: position{line: 1798, col: 5, offset: 58200},
+				pos: position{line: 1798, col: 5, offset: 58336},
 				run: (*parser).callonEscapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1798, col: 5, offset: 58200},
+					pos: position{line: 1798, col: 5, offset: 58336},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1798, col: 5, offset: 58200},
+							pos:   position{line: 1798, col: 5, offset: 58336},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1798, col: 16, offset: 58211},
+								pos: position{line: 1798, col: 16, offset: 58347},
 								expr: &actionExpr{
-									pos: position{line: 1798, col: 17, offset: 58212},
+									pos: position{line: 1798, col: 17, offset: 58348},
 									run: (*parser).callonEscapedQuotedText5,
 									expr: &ruleRefExpr{
-										pos:  position{line: 1798, col: 17, offset: 58212},
+										pos:  position{line: 1798, col: 17, offset: 58348},
 										name: "LongHandAttributes",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 1801, col: 5, offset: 58280},
+							pos: position{line: 1801, col: 5, offset: 58416},
 							expr: &litMatcher{
-								pos:        position{line: 1801, col: 7, offset: 58282},
+								pos:        position{line: 1801, col: 7, offset: 58418},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1802, col: 5, offset: 58291},
+							pos:   position{line: 1802, col: 5, offset: 58427},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1803, col: 9, offset: 58309},
+								pos: position{line: 1803, col: 9, offset: 58445},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1803, col: 9, offset: 58309},
+										pos:  position{line: 1803, col: 9, offset: 58445},
 										name: "EscapedBoldText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1804, col: 11, offset: 58336},
+										pos:  position{line: 1804, col: 11, offset: 58472},
 										name: "EscapedItalicText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1805, col: 11, offset: 58364},
+										pos:  position{line: 1805, col: 11, offset: 58500},
 										name: "EscapedMonospaceText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1806, col: 11, offset: 58395},
+										pos:  position{line: 1806, col: 11, offset: 58531},
 										name: "EscapedMarkedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1807, col: 11, offset: 58423},
+										pos:  position{line: 1807, col: 11, offset: 58559},
 										name: "EscapedSubscriptText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1808, col: 11, offset: 58454},
+										pos:  position{line: 1808, col: 11, offset: 58590},
 										name: "EscapedSuperscriptText",
 									},
 								},
@@ -40083,36 +40147,36 @@ var g = &grammar{
 		},
 		{
 			name: "UnescapedQuotedText",
-			pos:  position{line: 1813, col: 1, offset: 58574},
+			pos:  position{line: 1813, col: 1, offset: 58710},
 			expr: &actionExpr{
-				pos: position{line: 1814, col: 5, offset: 58616},
+				pos: position{line: 1814, col: 5, offset: 58752},
 				run: (*parser).callonUnescapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1814, col: 5, offset: 58616},
+					pos: position{line: 1814, col: 5, offset: 58752},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1814, col: 5, offset: 58616},
+							pos:   position{line: 1814, col: 5, offset: 58752},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1814, col: 16, offset: 58627},
+								pos: position{line: 1814, col: 16, offset: 58763},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1814, col: 17, offset: 58628},
+									pos:  position{line: 1814, col: 17, offset: 58764},
 									name: "LongHandAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1815, col: 5, offset: 58653},
+							pos:   position{line: 1815, col: 5, offset: 58789},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1815, col: 14, offset: 58662},
+								pos: position{line: 1815, col: 14, offset: 58798},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1815, col: 14, offset: 58662},
+										pos:  position{line: 1815, col: 14, offset: 58798},
 										name: "SingleQuotedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1815, col: 33, offset: 58681},
+										pos:  position{line: 1815, col: 33, offset: 58817},
 										name: "DoubleQuotedText",
 									},
 								},
@@ -40124,32 +40188,32 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedText",
-			pos:  position{line: 1823, col: 1, offset: 58912},
+			pos:  position{line: 1823, col: 1, offset: 59048},
 			expr: &choiceExpr{
-				pos: position{line: 1824, col: 5, offset: 58937},
+				pos: position{line: 1824, col: 5, offset: 59073},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1824, col: 5, offset: 58937},
+						pos:  position{line: 1824, col: 5, offset: 59073},
 						name: "SingleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1825, col: 7, offset: 58964},
+						pos:  position{line: 1825, col: 7, offset: 59100},
 						name: "SingleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1826, col: 7, offset: 58992},
+						pos:  position{line: 1826, col: 7, offset: 59128},
 						name: "SingleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1827, col: 7, offset: 59024},
+						pos:  position{line: 1827, col: 7, offset: 59160},
 						name: "SingleQuoteMarkedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1828, col: 7, offset: 59052},
+						pos:  position{line: 1828, col: 7, offset: 59188},
 						name: "SubscriptText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1829, col: 7, offset: 59073},
+						pos:  position{line: 1829, col: 7, offset: 59209},
 						name: "SuperscriptText",
 					},
 				},
@@ -40157,24 +40221,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedText",
-			pos:  position{line: 1831, col: 1, offset: 59091},
+			pos:  position{line: 1831, col: 1, offset: 59227},
 			expr: &choiceExpr{
-				pos: position{line: 1832, col: 5, offset: 59116},
+				pos: position{line: 1832, col: 5, offset: 59252},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1832, col: 5, offset: 59116},
+						pos:  position{line: 1832, col: 5, offset: 59252},
 						name: "DoubleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1833, col: 7, offset: 59142},
+						pos:  position{line: 1833, col: 7, offset: 59278},
 						name: "DoubleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1834, col: 7, offset: 59170},
+						pos:  position{line: 1834, col: 7, offset: 59306},
 						name: "DoubleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1835, col: 7, offset: 59201},
+						pos:  position{line: 1835, col: 7, offset: 59337},
 						name: "DoubleQuoteMarkedText",
 					},
 				},
@@ -40182,26 +40246,26 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedTextElement",
-			pos:  position{line: 1849, col: 1, offset: 59555},
+			pos:  position{line: 1849, col: 1, offset: 59691},
 			expr: &choiceExpr{
-				pos: position{line: 1850, col: 5, offset: 59581},
+				pos: position{line: 1850, col: 5, offset: 59717},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2751, col: 5, offset: 87481},
+						pos: position{line: 2761, col: 5, offset: 87826},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2751, col: 5, offset: 87481},
+							pos: position{line: 2761, col: 5, offset: 87826},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2751, col: 5, offset: 87481},
+									pos:   position{line: 2761, col: 5, offset: 87826},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2751, col: 11, offset: 87487},
+										pos: position{line: 2761, col: 11, offset: 87832},
 										run: (*parser).callonQuotedTextElement5,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2751, col: 11, offset: 87487},
+											pos: position{line: 2761, col: 11, offset: 87832},
 											expr: &charClassMatcher{
-												pos:        position{line: 2751, col: 11, offset: 87487},
+												pos:        position{line: 2761, col: 11, offset: 87832},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40211,36 +40275,36 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2754, col: 5, offset: 87545},
+									pos: position{line: 2764, col: 5, offset: 87890},
 									expr: &seqExpr{
-										pos: position{line: 2755, col: 9, offset: 87556},
+										pos: position{line: 2765, col: 9, offset: 87901},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2755, col: 9, offset: 87556},
+												pos:        position{line: 2765, col: 9, offset: 87901},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2756, col: 9, offset: 87605},
+												pos: position{line: 2766, col: 9, offset: 87950},
 												run: (*parser).callonQuotedTextElement11,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2760, col: 5, offset: 87685},
+									pos: position{line: 2770, col: 5, offset: 88030},
 									expr: &seqExpr{
-										pos: position{line: 2761, col: 9, offset: 87696},
+										pos: position{line: 2771, col: 9, offset: 88041},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2761, col: 9, offset: 87696},
+												pos:        position{line: 2771, col: 9, offset: 88041},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2761, col: 13, offset: 87700},
+												pos:        position{line: 2771, col: 13, offset: 88045},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40253,12 +40317,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2856, col: 11, offset: 90300},
+						pos: position{line: 2866, col: 11, offset: 90645},
 						run: (*parser).callonQuotedTextElement16,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2856, col: 11, offset: 90300},
+							pos: position{line: 2866, col: 11, offset: 90645},
 							expr: &charClassMatcher{
-								pos:        position{line: 2856, col: 11, offset: 90300},
+								pos:        position{line: 2866, col: 11, offset: 90645},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -40267,25 +40331,25 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1852, col: 7, offset: 59644},
+						pos:  position{line: 1852, col: 7, offset: 59780},
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2480, col: 5, offset: 79934},
+						pos: position{line: 2490, col: 5, offset: 80279},
 						run: (*parser).callonQuotedTextElement20,
 						expr: &seqExpr{
-							pos: position{line: 2480, col: 5, offset: 79934},
+							pos: position{line: 2490, col: 5, offset: 80279},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2480, col: 5, offset: 79934},
+									pos:        position{line: 2490, col: 5, offset: 80279},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2480, col: 10, offset: 79939},
+									pos: position{line: 2490, col: 10, offset: 80284},
 									expr: &charClassMatcher{
-										pos:        position{line: 2480, col: 11, offset: 79940},
+										pos:        position{line: 2490, col: 11, offset: 80285},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -40296,29 +40360,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2486, col: 5, offset: 80132},
+						pos: position{line: 2496, col: 5, offset: 80477},
 						run: (*parser).callonQuotedTextElement25,
 						expr: &seqExpr{
-							pos: position{line: 2486, col: 5, offset: 80132},
+							pos: position{line: 2496, col: 5, offset: 80477},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2486, col: 5, offset: 80132},
+									pos: position{line: 2496, col: 5, offset: 80477},
 									run: (*parser).callonQuotedTextElement27,
 								},
 								&andCodeExpr{
-									pos: position{line: 2489, col: 5, offset: 80203},
+									pos: position{line: 2499, col: 5, offset: 80548},
 									run: (*parser).callonQuotedTextElement28,
 								},
 								&litMatcher{
-									pos:        position{line: 2493, col: 5, offset: 80328},
+									pos:        position{line: 2503, col: 5, offset: 80673},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2493, col: 9, offset: 80332},
+									pos: position{line: 2503, col: 9, offset: 80677},
 									expr: &charClassMatcher{
-										pos:        position{line: 2493, col: 10, offset: 80333},
+										pos:        position{line: 2503, col: 10, offset: 80678},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -40329,27 +40393,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2769, col: 5, offset: 87893},
+						pos: position{line: 2779, col: 5, offset: 88238},
 						run: (*parser).callonQuotedTextElement32,
 						expr: &choiceExpr{
-							pos: position{line: 2770, col: 9, offset: 87903},
+							pos: position{line: 2780, col: 9, offset: 88248},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2770, col: 10, offset: 87904},
+									pos:        position{line: 2780, col: 10, offset: 88249},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2772, col: 13, offset: 88001},
+									pos: position{line: 2782, col: 13, offset: 88346},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2772, col: 13, offset: 88001},
+											pos: position{line: 2782, col: 13, offset: 88346},
 											run: (*parser).callonQuotedTextElement36,
 										},
 										&litMatcher{
-											pos:        position{line: 2775, col: 13, offset: 88101},
+											pos:        position{line: 2785, col: 13, offset: 88446},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -40357,20 +40421,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2775, col: 19, offset: 88107},
+									pos:        position{line: 2785, col: 19, offset: 88452},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2778, col: 13, offset: 88145},
+									pos: position{line: 2788, col: 13, offset: 88490},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2778, col: 13, offset: 88145},
+											pos: position{line: 2788, col: 13, offset: 88490},
 											run: (*parser).callonQuotedTextElement40,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2781, col: 14, offset: 88238},
+											pos:        position{line: 2791, col: 14, offset: 88583},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -40379,18 +40443,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2783, col: 12, offset: 88282},
+									pos: position{line: 2793, col: 12, offset: 88627},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2783, col: 12, offset: 88282},
+											pos:        position{line: 2793, col: 12, offset: 88627},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2783, col: 16, offset: 88286},
+											pos: position{line: 2793, col: 16, offset: 88631},
 											expr: &litMatcher{
-												pos:        position{line: 2783, col: 17, offset: 88287},
+												pos:        position{line: 2793, col: 17, offset: 88632},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -40402,35 +40466,35 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 636, col: 5, offset: 20109},
+						pos: position{line: 636, col: 5, offset: 20177},
 						run: (*parser).callonQuotedTextElement46,
 						expr: &seqExpr{
-							pos: position{line: 636, col: 5, offset: 20109},
+							pos: position{line: 636, col: 5, offset: 20177},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 636, col: 5, offset: 20109},
+									pos: position{line: 636, col: 5, offset: 20177},
 									run: (*parser).callonQuotedTextElement48,
 								},
 								&labeledExpr{
-									pos:   position{line: 639, col: 5, offset: 20181},
+									pos:   position{line: 639, col: 5, offset: 20249},
 									label: "element",
 									expr: &choiceExpr{
-										pos: position{line: 639, col: 14, offset: 20190},
+										pos: position{line: 639, col: 14, offset: 20258},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 645, col: 5, offset: 20319},
+												pos: position{line: 645, col: 5, offset: 20387},
 												run: (*parser).callonQuotedTextElement51,
 												expr: &seqExpr{
-													pos: position{line: 645, col: 5, offset: 20319},
+													pos: position{line: 645, col: 5, offset: 20387},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 645, col: 5, offset: 20319},
+															pos:        position{line: 645, col: 5, offset: 20387},
 															val:        "\\{",
 															ignoreCase: false,
 															want:       "\"\\\\{\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 645, col: 13, offset: 20327},
+															pos:   position{line: 645, col: 13, offset: 20395},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 318, col: 18, offset: 9729},
@@ -40462,7 +40526,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 645, col: 32, offset: 20346},
+															pos:        position{line: 645, col: 32, offset: 20414},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -40471,19 +40535,19 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 652, col: 5, offset: 20587},
+												pos: position{line: 652, col: 5, offset: 20655},
 												run: (*parser).callonQuotedTextElement61,
 												expr: &seqExpr{
-													pos: position{line: 652, col: 5, offset: 20587},
+													pos: position{line: 652, col: 5, offset: 20655},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 652, col: 5, offset: 20587},
+															pos:        position{line: 652, col: 5, offset: 20655},
 															val:        "{",
 															ignoreCase: false,
 															want:       "\"{\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 652, col: 9, offset: 20591},
+															pos:   position{line: 652, col: 9, offset: 20659},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 318, col: 18, offset: 9729},
@@ -40515,7 +40579,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 652, col: 28, offset: 20610},
+															pos:        position{line: 652, col: 28, offset: 20678},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -40524,19 +40588,19 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 658, col: 25, offset: 20791},
+												pos: position{line: 658, col: 25, offset: 20859},
 												run: (*parser).callonQuotedTextElement71,
 												expr: &seqExpr{
-													pos: position{line: 658, col: 25, offset: 20791},
+													pos: position{line: 658, col: 25, offset: 20859},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 658, col: 25, offset: 20791},
+															pos:        position{line: 658, col: 25, offset: 20859},
 															val:        "{counter:",
 															ignoreCase: false,
 															want:       "\"{counter:\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 658, col: 37, offset: 20803},
+															pos:   position{line: 658, col: 37, offset: 20871},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 318, col: 18, offset: 9729},
@@ -40568,33 +40632,33 @@ var g = &grammar{
 															},
 														},
 														&labeledExpr{
-															pos:   position{line: 658, col: 56, offset: 20822},
+															pos:   position{line: 658, col: 56, offset: 20890},
 															label: "start",
 															expr: &zeroOrOneExpr{
-																pos: position{line: 658, col: 62, offset: 20828},
+																pos: position{line: 658, col: 62, offset: 20896},
 																expr: &actionExpr{
-																	pos: position{line: 666, col: 17, offset: 21123},
+																	pos: position{line: 666, col: 17, offset: 21191},
 																	run: (*parser).callonQuotedTextElement82,
 																	expr: &seqExpr{
-																		pos: position{line: 666, col: 17, offset: 21123},
+																		pos: position{line: 666, col: 17, offset: 21191},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 666, col: 17, offset: 21123},
+																				pos:        position{line: 666, col: 17, offset: 21191},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 666, col: 21, offset: 21127},
+																				pos:   position{line: 666, col: 21, offset: 21195},
 																				label: "start",
 																				expr: &choiceExpr{
-																					pos: position{line: 666, col: 28, offset: 21134},
+																					pos: position{line: 666, col: 28, offset: 21202},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 666, col: 28, offset: 21134},
+																							pos: position{line: 666, col: 28, offset: 21202},
 																							run: (*parser).callonQuotedTextElement87,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 666, col: 28, offset: 21134},
+																								pos:        position{line: 666, col: 28, offset: 21202},
 																								val:        "[A-Za-z]",
 																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																								ignoreCase: false,
@@ -40602,12 +40666,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 668, col: 9, offset: 21188},
+																							pos: position{line: 668, col: 9, offset: 21256},
 																							run: (*parser).callonQuotedTextElement89,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 668, col: 9, offset: 21188},
+																								pos: position{line: 668, col: 9, offset: 21256},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 668, col: 9, offset: 21188},
+																									pos:        position{line: 668, col: 9, offset: 21256},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -40624,7 +40688,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 658, col: 78, offset: 20844},
+															pos:        position{line: 658, col: 78, offset: 20912},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -40633,19 +40697,19 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 662, col: 25, offset: 20962},
+												pos: position{line: 662, col: 25, offset: 21030},
 												run: (*parser).callonQuotedTextElement93,
 												expr: &seqExpr{
-													pos: position{line: 662, col: 25, offset: 20962},
+													pos: position{line: 662, col: 25, offset: 21030},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 662, col: 25, offset: 20962},
+															pos:        position{line: 662, col: 25, offset: 21030},
 															val:        "{counter2:",
 															ignoreCase: false,
 															want:       "\"{counter2:\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 662, col: 38, offset: 20975},
+															pos:   position{line: 662, col: 38, offset: 21043},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 318, col: 18, offset: 9729},
@@ -40677,33 +40741,33 @@ var g = &grammar{
 															},
 														},
 														&labeledExpr{
-															pos:   position{line: 662, col: 57, offset: 20994},
+															pos:   position{line: 662, col: 57, offset: 21062},
 															label: "start",
 															expr: &zeroOrOneExpr{
-																pos: position{line: 662, col: 63, offset: 21000},
+																pos: position{line: 662, col: 63, offset: 21068},
 																expr: &actionExpr{
-																	pos: position{line: 666, col: 17, offset: 21123},
+																	pos: position{line: 666, col: 17, offset: 21191},
 																	run: (*parser).callonQuotedTextElement104,
 																	expr: &seqExpr{
-																		pos: position{line: 666, col: 17, offset: 21123},
+																		pos: position{line: 666, col: 17, offset: 21191},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 666, col: 17, offset: 21123},
+																				pos:        position{line: 666, col: 17, offset: 21191},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 666, col: 21, offset: 21127},
+																				pos:   position{line: 666, col: 21, offset: 21195},
 																				label: "start",
 																				expr: &choiceExpr{
-																					pos: position{line: 666, col: 28, offset: 21134},
+																					pos: position{line: 666, col: 28, offset: 21202},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 666, col: 28, offset: 21134},
+																							pos: position{line: 666, col: 28, offset: 21202},
 																							run: (*parser).callonQuotedTextElement109,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 666, col: 28, offset: 21134},
+																								pos:        position{line: 666, col: 28, offset: 21202},
 																								val:        "[A-Za-z]",
 																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																								ignoreCase: false,
@@ -40711,12 +40775,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 668, col: 9, offset: 21188},
+																							pos: position{line: 668, col: 9, offset: 21256},
 																							run: (*parser).callonQuotedTextElement111,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 668, col: 9, offset: 21188},
+																								pos: position{line: 668, col: 9, offset: 21256},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 668, col: 9, offset: 21188},
+																									pos:        position{line: 668, col: 9, offset: 21256},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -40733,7 +40797,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 662, col: 79, offset: 21016},
+															pos:        position{line: 662, col: 79, offset: 21084},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -40748,31 +40812,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2865, col: 18, offset: 90510},
+						pos: position{line: 2875, col: 18, offset: 90855},
 						run: (*parser).callonQuotedTextElement115,
 						expr: &seqExpr{
-							pos: position{line: 2865, col: 18, offset: 90510},
+							pos: position{line: 2875, col: 18, offset: 90855},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2861, col: 12, offset: 90410},
+									pos: position{line: 2871, col: 12, offset: 90755},
 									run: (*parser).callonQuotedTextElement117,
 									expr: &choiceExpr{
-										pos: position{line: 2861, col: 13, offset: 90411},
+										pos: position{line: 2871, col: 13, offset: 90756},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2861, col: 13, offset: 90411},
+												pos:        position{line: 2871, col: 13, offset: 90756},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 20, offset: 90418},
+												pos:        position{line: 2871, col: 20, offset: 90763},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 29, offset: 90427},
+												pos:        position{line: 2871, col: 29, offset: 90772},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -40781,27 +40845,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2865, col: 26, offset: 90518},
+									pos: position{line: 2875, col: 26, offset: 90863},
 									expr: &actionExpr{
-										pos: position{line: 2861, col: 12, offset: 90410},
+										pos: position{line: 2871, col: 12, offset: 90755},
 										run: (*parser).callonQuotedTextElement123,
 										expr: &choiceExpr{
-											pos: position{line: 2861, col: 13, offset: 90411},
+											pos: position{line: 2871, col: 13, offset: 90756},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2861, col: 13, offset: 90411},
+													pos:        position{line: 2871, col: 13, offset: 90756},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2861, col: 20, offset: 90418},
+													pos:        position{line: 2871, col: 20, offset: 90763},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2861, col: 29, offset: 90427},
+													pos:        position{line: 2871, col: 29, offset: 90772},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -40814,31 +40878,31 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1857, col: 7, offset: 59811},
+						pos:  position{line: 1857, col: 7, offset: 59947},
 						name: "QuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1858, col: 7, offset: 59858},
+						pos:  position{line: 1858, col: 7, offset: 59994},
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2449, col: 5, offset: 78763},
+						pos: position{line: 2459, col: 5, offset: 79108},
 						run: (*parser).callonQuotedTextElement130,
 						expr: &seqExpr{
-							pos: position{line: 2449, col: 5, offset: 78763},
+							pos: position{line: 2459, col: 5, offset: 79108},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2449, col: 5, offset: 78763},
+									pos: position{line: 2459, col: 5, offset: 79108},
 									run: (*parser).callonQuotedTextElement132,
 								},
 								&labeledExpr{
-									pos:   position{line: 2452, col: 5, offset: 78839},
+									pos:   position{line: 2462, col: 5, offset: 79184},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2453, col: 9, offset: 78857},
+										pos: position{line: 2463, col: 9, offset: 79202},
 										run: (*parser).callonQuotedTextElement134,
 										expr: &charClassMatcher{
-											pos:        position{line: 2453, col: 10, offset: 78858},
+											pos:        position{line: 2463, col: 10, offset: 79203},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -40850,27 +40914,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1198, col: 23, offset: 36977},
+						pos: position{line: 1198, col: 23, offset: 37045},
 						run: (*parser).callonQuotedTextElement136,
 						expr: &seqExpr{
-							pos: position{line: 1198, col: 23, offset: 36977},
+							pos: position{line: 1198, col: 23, offset: 37045},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1196, col: 32, offset: 36945},
+									pos:        position{line: 1196, col: 32, offset: 37013},
 									val:        "�",
 									ignoreCase: false,
 									want:       "\"�\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1198, col: 51, offset: 37005},
+									pos:   position{line: 1198, col: 51, offset: 37073},
 									label: "ref",
 									expr: &actionExpr{
-										pos: position{line: 1198, col: 56, offset: 37010},
+										pos: position{line: 1198, col: 56, offset: 37078},
 										run: (*parser).callonQuotedTextElement140,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1198, col: 56, offset: 37010},
+											pos: position{line: 1198, col: 56, offset: 37078},
 											expr: &charClassMatcher{
-												pos:        position{line: 1198, col: 56, offset: 37010},
+												pos:        position{line: 1198, col: 56, offset: 37078},
 												val:        "[0-9]",
 												ranges:     []rune{'0', '9'},
 												ignoreCase: false,
@@ -40880,7 +40944,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1196, col: 32, offset: 36945},
+									pos:        position{line: 1196, col: 32, offset: 37013},
 									val:        "�",
 									ignoreCase: false,
 									want:       "\"�\"",
@@ -40889,10 +40953,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2791, col: 12, offset: 88547},
+						pos: position{line: 2801, col: 12, offset: 88892},
 						run: (*parser).callonQuotedTextElement144,
 						expr: &charClassMatcher{
-							pos:        position{line: 2791, col: 12, offset: 88547},
+							pos:        position{line: 2801, col: 12, offset: 88892},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -40904,29 +40968,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldText",
-			pos:  position{line: 1876, col: 1, offset: 60328},
+			pos:  position{line: 1876, col: 1, offset: 60464},
 			expr: &actionExpr{
-				pos: position{line: 1877, col: 5, offset: 60356},
+				pos: position{line: 1877, col: 5, offset: 60492},
 				run: (*parser).callonDoubleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1877, col: 5, offset: 60356},
+					pos: position{line: 1877, col: 5, offset: 60492},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1872, col: 38, offset: 60281},
+							pos:        position{line: 1872, col: 38, offset: 60417},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1878, col: 5, offset: 60395},
+							pos:   position{line: 1878, col: 5, offset: 60531},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1878, col: 15, offset: 60405},
+								pos:  position{line: 1878, col: 15, offset: 60541},
 								name: "DoubleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1874, col: 36, offset: 60322},
+							pos:        position{line: 1874, col: 36, offset: 60458},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
@@ -40937,44 +41001,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElements",
-			pos:  position{line: 1883, col: 1, offset: 60565},
+			pos:  position{line: 1883, col: 1, offset: 60701},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1883, col: 32, offset: 60596},
+				pos: position{line: 1883, col: 32, offset: 60732},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1883, col: 32, offset: 60596},
+					pos:  position{line: 1883, col: 32, offset: 60732},
 					name: "DoubleQuoteBoldTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteBoldTextElement",
-			pos:  position{line: 1885, col: 1, offset: 60627},
+			pos:  position{line: 1885, col: 1, offset: 60763},
 			expr: &actionExpr{
-				pos: position{line: 1886, col: 5, offset: 60662},
+				pos: position{line: 1886, col: 5, offset: 60798},
 				run: (*parser).callonDoubleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1886, col: 5, offset: 60662},
+					pos: position{line: 1886, col: 5, offset: 60798},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2869, col: 11, offset: 90573},
+							pos: position{line: 2879, col: 11, offset: 90918},
 							expr: &anyMatcher{
-								line: 2869, col: 13, offset: 90575,
+								line: 2879, col: 13, offset: 90920,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1887, col: 5, offset: 60673},
+							pos: position{line: 1887, col: 5, offset: 60809},
 							expr: &litMatcher{
-								pos:        position{line: 1874, col: 36, offset: 60322},
+								pos:        position{line: 1874, col: 36, offset: 60458},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1888, col: 5, offset: 60710},
+							pos:   position{line: 1888, col: 5, offset: 60846},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1888, col: 14, offset: 60719},
+								pos:  position{line: 1888, col: 14, offset: 60855},
 								name: "QuotedTextElement",
 							},
 						},
@@ -40984,29 +41048,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldText",
-			pos:  position{line: 1913, col: 1, offset: 61399},
+			pos:  position{line: 1913, col: 1, offset: 61535},
 			expr: &actionExpr{
-				pos: position{line: 1914, col: 5, offset: 61427},
+				pos: position{line: 1914, col: 5, offset: 61563},
 				run: (*parser).callonSingleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1914, col: 5, offset: 61427},
+					pos: position{line: 1914, col: 5, offset: 61563},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1897, col: 5, offset: 60953},
+							pos:        position{line: 1897, col: 5, offset: 61089},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1898, col: 5, offset: 60962},
+							pos: position{line: 1898, col: 5, offset: 61098},
 							run: (*parser).callonSingleQuoteBoldText4,
 						},
 						&andExpr{
-							pos: position{line: 1902, col: 5, offset: 61080},
+							pos: position{line: 1902, col: 5, offset: 61216},
 							expr: &notExpr{
-								pos: position{line: 1902, col: 7, offset: 61082},
+								pos: position{line: 1902, col: 7, offset: 61218},
 								expr: &litMatcher{
-									pos:        position{line: 1902, col: 8, offset: 61083},
+									pos:        position{line: 1902, col: 8, offset: 61219},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41014,38 +41078,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1915, col: 5, offset: 61465},
+							pos:   position{line: 1915, col: 5, offset: 61601},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1915, col: 15, offset: 61475},
+								pos:  position{line: 1915, col: 15, offset: 61611},
 								name: "SingleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1905, col: 5, offset: 61203},
+							pos:        position{line: 1905, col: 5, offset: 61339},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&notExpr{
-							pos: position{line: 1906, col: 5, offset: 61212},
+							pos: position{line: 1906, col: 5, offset: 61348},
 							expr: &litMatcher{
-								pos:        position{line: 1906, col: 6, offset: 61213},
+								pos:        position{line: 1906, col: 6, offset: 61349},
 								val:        "*",
 								ignoreCase: false,
 								want:       "\"*\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1907, col: 5, offset: 61276},
+							pos: position{line: 1907, col: 5, offset: 61412},
 							run: (*parser).callonSingleQuoteBoldText13,
 						},
 						&andExpr{
-							pos: position{line: 1911, col: 5, offset: 61385},
+							pos: position{line: 1911, col: 5, offset: 61521},
 							expr: &notExpr{
-								pos: position{line: 1911, col: 7, offset: 61387},
+								pos: position{line: 1911, col: 7, offset: 61523},
 								expr: &charClassMatcher{
-									pos:        position{line: 2742, col: 13, offset: 87334},
+									pos:        position{line: 2752, col: 13, offset: 87679},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -41059,20 +41123,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElements",
-			pos:  position{line: 1920, col: 1, offset: 61635},
+			pos:  position{line: 1920, col: 1, offset: 61771},
 			expr: &actionExpr{
-				pos: position{line: 1921, col: 5, offset: 61672},
+				pos: position{line: 1921, col: 5, offset: 61808},
 				run: (*parser).callonSingleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1921, col: 5, offset: 61672},
+					pos: position{line: 1921, col: 5, offset: 61808},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1921, col: 5, offset: 61672},
+							pos: position{line: 1921, col: 5, offset: 61808},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2862, col: 10, offset: 90584},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2862, col: 10, offset: 90584},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41081,18 +41145,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1922, col: 5, offset: 61711},
+							pos:   position{line: 1922, col: 5, offset: 61847},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1922, col: 14, offset: 61720},
+								pos: position{line: 1922, col: 14, offset: 61856},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1922, col: 15, offset: 61721},
+									pos:  position{line: 1922, col: 15, offset: 61857},
 									name: "SingleQuoteBoldTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1923, col: 5, offset: 61755},
+							pos: position{line: 1923, col: 5, offset: 61891},
 							run: (*parser).callonSingleQuoteBoldTextElements9,
 						},
 					},
@@ -41101,49 +41165,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElement",
-			pos:  position{line: 1929, col: 1, offset: 61896},
+			pos:  position{line: 1929, col: 1, offset: 62032},
 			expr: &actionExpr{
-				pos: position{line: 1930, col: 5, offset: 61931},
+				pos: position{line: 1930, col: 5, offset: 62067},
 				run: (*parser).callonSingleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1930, col: 5, offset: 61931},
+					pos: position{line: 1930, col: 5, offset: 62067},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2869, col: 11, offset: 90573},
+							pos: position{line: 2879, col: 11, offset: 90918},
 							expr: &anyMatcher{
-								line: 2869, col: 13, offset: 90575,
+								line: 2879, col: 13, offset: 90920,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1931, col: 5, offset: 61959},
+							pos: position{line: 1931, col: 5, offset: 62095},
 							expr: &seqExpr{
-								pos: position{line: 1905, col: 5, offset: 61203},
+								pos: position{line: 1905, col: 5, offset: 61339},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1905, col: 5, offset: 61203},
+										pos:        position{line: 1905, col: 5, offset: 61339},
 										val:        "*",
 										ignoreCase: false,
 										want:       "\"*\"",
 									},
 									&notExpr{
-										pos: position{line: 1906, col: 5, offset: 61212},
+										pos: position{line: 1906, col: 5, offset: 61348},
 										expr: &litMatcher{
-											pos:        position{line: 1906, col: 6, offset: 61213},
+											pos:        position{line: 1906, col: 6, offset: 61349},
 											val:        "*",
 											ignoreCase: false,
 											want:       "\"*\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1907, col: 5, offset: 61276},
+										pos: position{line: 1907, col: 5, offset: 61412},
 										run: (*parser).callonSingleQuoteBoldTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 1911, col: 5, offset: 61385},
+										pos: position{line: 1911, col: 5, offset: 61521},
 										expr: &notExpr{
-											pos: position{line: 1911, col: 7, offset: 61387},
+											pos: position{line: 1911, col: 7, offset: 61523},
 											expr: &charClassMatcher{
-												pos:        position{line: 2742, col: 13, offset: 87334},
+												pos:        position{line: 2752, col: 13, offset: 87679},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41155,10 +41219,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1932, col: 5, offset: 61996},
+							pos:   position{line: 1932, col: 5, offset: 62132},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1932, col: 14, offset: 62005},
+								pos:  position{line: 1932, col: 14, offset: 62141},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41168,35 +41232,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedBoldText",
-			pos:  position{line: 1937, col: 1, offset: 62093},
+			pos:  position{line: 1937, col: 1, offset: 62229},
 			expr: &choiceExpr{
-				pos: position{line: 1939, col: 5, offset: 62154},
+				pos: position{line: 1939, col: 5, offset: 62290},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1939, col: 5, offset: 62154},
+						pos: position{line: 1939, col: 5, offset: 62290},
 						run: (*parser).callonEscapedBoldText2,
 						expr: &seqExpr{
-							pos: position{line: 1939, col: 5, offset: 62154},
+							pos: position{line: 1939, col: 5, offset: 62290},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1939, col: 5, offset: 62154},
+									pos:   position{line: 1939, col: 5, offset: 62290},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1845, col: 25, offset: 59501},
+										pos: position{line: 1845, col: 25, offset: 59637},
 										run: (*parser).callonEscapedBoldText5,
 										expr: &seqExpr{
-											pos: position{line: 1845, col: 25, offset: 59501},
+											pos: position{line: 1845, col: 25, offset: 59637},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1845, col: 25, offset: 59501},
+													pos:        position{line: 1845, col: 25, offset: 59637},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1845, col: 30, offset: 59506},
+													pos: position{line: 1845, col: 30, offset: 59642},
 													expr: &litMatcher{
-														pos:        position{line: 1845, col: 30, offset: 59506},
+														pos:        position{line: 1845, col: 30, offset: 59642},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -41207,21 +41271,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1939, col: 40, offset: 62189},
+									pos:        position{line: 1939, col: 40, offset: 62325},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1939, col: 45, offset: 62194},
+									pos:   position{line: 1939, col: 45, offset: 62330},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1939, col: 55, offset: 62204},
+										pos:  position{line: 1939, col: 55, offset: 62340},
 										name: "DoubleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1939, col: 84, offset: 62233},
+									pos:        position{line: 1939, col: 84, offset: 62369},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
@@ -41230,21 +41294,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1943, col: 7, offset: 62397},
+						pos: position{line: 1943, col: 7, offset: 62533},
 						run: (*parser).callonEscapedBoldText14,
 						expr: &seqExpr{
-							pos: position{line: 1943, col: 7, offset: 62397},
+							pos: position{line: 1943, col: 7, offset: 62533},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1943, col: 7, offset: 62397},
+									pos:   position{line: 1943, col: 7, offset: 62533},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1841, col: 25, offset: 59428},
+										pos: position{line: 1841, col: 25, offset: 59564},
 										run: (*parser).callonEscapedBoldText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1841, col: 25, offset: 59428},
+											pos: position{line: 1841, col: 25, offset: 59564},
 											expr: &litMatcher{
-												pos:        position{line: 1841, col: 25, offset: 59428},
+												pos:        position{line: 1841, col: 25, offset: 59564},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41253,21 +41317,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1943, col: 42, offset: 62432},
+									pos:        position{line: 1943, col: 42, offset: 62568},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1943, col: 47, offset: 62437},
+									pos:   position{line: 1943, col: 47, offset: 62573},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1943, col: 57, offset: 62447},
+										pos:  position{line: 1943, col: 57, offset: 62583},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1943, col: 86, offset: 62476},
+									pos:        position{line: 1943, col: 86, offset: 62612},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41276,21 +41340,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1948, col: 7, offset: 62678},
+						pos: position{line: 1948, col: 7, offset: 62814},
 						run: (*parser).callonEscapedBoldText24,
 						expr: &seqExpr{
-							pos: position{line: 1948, col: 7, offset: 62678},
+							pos: position{line: 1948, col: 7, offset: 62814},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1948, col: 7, offset: 62678},
+									pos:   position{line: 1948, col: 7, offset: 62814},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1841, col: 25, offset: 59428},
+										pos: position{line: 1841, col: 25, offset: 59564},
 										run: (*parser).callonEscapedBoldText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1841, col: 25, offset: 59428},
+											pos: position{line: 1841, col: 25, offset: 59564},
 											expr: &litMatcher{
-												pos:        position{line: 1841, col: 25, offset: 59428},
+												pos:        position{line: 1841, col: 25, offset: 59564},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41299,21 +41363,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1948, col: 42, offset: 62713},
+									pos:        position{line: 1948, col: 42, offset: 62849},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1948, col: 46, offset: 62717},
+									pos:   position{line: 1948, col: 46, offset: 62853},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1948, col: 56, offset: 62727},
+										pos:  position{line: 1948, col: 56, offset: 62863},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1948, col: 85, offset: 62756},
+									pos:        position{line: 1948, col: 85, offset: 62892},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41326,29 +41390,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicText",
-			pos:  position{line: 1965, col: 1, offset: 63236},
+			pos:  position{line: 1965, col: 1, offset: 63372},
 			expr: &actionExpr{
-				pos: position{line: 1966, col: 5, offset: 63266},
+				pos: position{line: 1966, col: 5, offset: 63402},
 				run: (*parser).callonDoubleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 1966, col: 5, offset: 63266},
+					pos: position{line: 1966, col: 5, offset: 63402},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1961, col: 40, offset: 63187},
+							pos:        position{line: 1961, col: 40, offset: 63323},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1967, col: 5, offset: 63307},
+							pos:   position{line: 1967, col: 5, offset: 63443},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1967, col: 15, offset: 63317},
+								pos:  position{line: 1967, col: 15, offset: 63453},
 								name: "DoubleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1963, col: 38, offset: 63230},
+							pos:        position{line: 1963, col: 38, offset: 63366},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
@@ -41359,44 +41423,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElements",
-			pos:  position{line: 1972, col: 1, offset: 63482},
+			pos:  position{line: 1972, col: 1, offset: 63618},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1972, col: 34, offset: 63515},
+				pos: position{line: 1972, col: 34, offset: 63651},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1972, col: 34, offset: 63515},
+					pos:  position{line: 1972, col: 34, offset: 63651},
 					name: "DoubleQuoteItalicTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteItalicTextElement",
-			pos:  position{line: 1974, col: 1, offset: 63547},
+			pos:  position{line: 1974, col: 1, offset: 63683},
 			expr: &actionExpr{
-				pos: position{line: 1975, col: 5, offset: 63584},
+				pos: position{line: 1975, col: 5, offset: 63720},
 				run: (*parser).callonDoubleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1975, col: 5, offset: 63584},
+					pos: position{line: 1975, col: 5, offset: 63720},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2869, col: 11, offset: 90573},
+							pos: position{line: 2879, col: 11, offset: 90918},
 							expr: &anyMatcher{
-								line: 2869, col: 13, offset: 90575,
+								line: 2879, col: 13, offset: 90920,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1976, col: 5, offset: 63595},
+							pos: position{line: 1976, col: 5, offset: 63731},
 							expr: &litMatcher{
-								pos:        position{line: 1963, col: 38, offset: 63230},
+								pos:        position{line: 1963, col: 38, offset: 63366},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1977, col: 5, offset: 63634},
+							pos:   position{line: 1977, col: 5, offset: 63770},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1977, col: 14, offset: 63643},
+								pos:  position{line: 1977, col: 14, offset: 63779},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41406,29 +41470,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicText",
-			pos:  position{line: 2003, col: 1, offset: 64327},
+			pos:  position{line: 2003, col: 1, offset: 64463},
 			expr: &actionExpr{
-				pos: position{line: 2004, col: 5, offset: 64357},
+				pos: position{line: 2004, col: 5, offset: 64493},
 				run: (*parser).callonSingleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2004, col: 5, offset: 64357},
+					pos: position{line: 2004, col: 5, offset: 64493},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1986, col: 5, offset: 63885},
+							pos:        position{line: 1986, col: 5, offset: 64021},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1987, col: 5, offset: 63894},
+							pos: position{line: 1987, col: 5, offset: 64030},
 							run: (*parser).callonSingleQuoteItalicText4,
 						},
 						&andExpr{
-							pos: position{line: 1991, col: 5, offset: 64014},
+							pos: position{line: 1991, col: 5, offset: 64150},
 							expr: &notExpr{
-								pos: position{line: 1991, col: 7, offset: 64016},
+								pos: position{line: 1991, col: 7, offset: 64152},
 								expr: &litMatcher{
-									pos:        position{line: 1991, col: 8, offset: 64017},
+									pos:        position{line: 1991, col: 8, offset: 64153},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -41436,38 +41500,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2005, col: 5, offset: 64397},
+							pos:   position{line: 2005, col: 5, offset: 64533},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2005, col: 15, offset: 64407},
+								pos:  position{line: 2005, col: 15, offset: 64543},
 								name: "SingleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1995, col: 5, offset: 64127},
+							pos:        position{line: 1995, col: 5, offset: 64263},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&notExpr{
-							pos: position{line: 1996, col: 5, offset: 64136},
+							pos: position{line: 1996, col: 5, offset: 64272},
 							expr: &litMatcher{
-								pos:        position{line: 1996, col: 6, offset: 64137},
+								pos:        position{line: 1996, col: 6, offset: 64273},
 								val:        "_",
 								ignoreCase: false,
 								want:       "\"_\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1997, col: 5, offset: 64202},
+							pos: position{line: 1997, col: 5, offset: 64338},
 							run: (*parser).callonSingleQuoteItalicText13,
 						},
 						&andExpr{
-							pos: position{line: 2001, col: 5, offset: 64313},
+							pos: position{line: 2001, col: 5, offset: 64449},
 							expr: &notExpr{
-								pos: position{line: 2001, col: 7, offset: 64315},
+								pos: position{line: 2001, col: 7, offset: 64451},
 								expr: &charClassMatcher{
-									pos:        position{line: 2742, col: 13, offset: 87334},
+									pos:        position{line: 2752, col: 13, offset: 87679},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -41481,20 +41545,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElements",
-			pos:  position{line: 2010, col: 1, offset: 64574},
+			pos:  position{line: 2010, col: 1, offset: 64710},
 			expr: &actionExpr{
-				pos: position{line: 2011, col: 5, offset: 64612},
+				pos: position{line: 2011, col: 5, offset: 64748},
 				run: (*parser).callonSingleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2011, col: 5, offset: 64612},
+					pos: position{line: 2011, col: 5, offset: 64748},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2011, col: 5, offset: 64612},
+							pos: position{line: 2011, col: 5, offset: 64748},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2862, col: 10, offset: 90584},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2862, col: 10, offset: 90584},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41503,18 +41567,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2012, col: 5, offset: 64651},
+							pos:   position{line: 2012, col: 5, offset: 64787},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2012, col: 14, offset: 64660},
+								pos: position{line: 2012, col: 14, offset: 64796},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2012, col: 15, offset: 64661},
+									pos:  position{line: 2012, col: 15, offset: 64797},
 									name: "SingleQuoteItalicTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2013, col: 5, offset: 64696},
+							pos: position{line: 2013, col: 5, offset: 64832},
 							run: (*parser).callonSingleQuoteItalicTextElements9,
 						},
 					},
@@ -41523,49 +41587,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElement",
-			pos:  position{line: 2019, col: 1, offset: 64837},
+			pos:  position{line: 2019, col: 1, offset: 64973},
 			expr: &actionExpr{
-				pos: position{line: 2020, col: 5, offset: 64874},
+				pos: position{line: 2020, col: 5, offset: 65010},
 				run: (*parser).callonSingleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2020, col: 5, offset: 64874},
+					pos: position{line: 2020, col: 5, offset: 65010},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2869, col: 11, offset: 90573},
+							pos: position{line: 2879, col: 11, offset: 90918},
 							expr: &anyMatcher{
-								line: 2869, col: 13, offset: 90575,
+								line: 2879, col: 13, offset: 90920,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2021, col: 5, offset: 64885},
+							pos: position{line: 2021, col: 5, offset: 65021},
 							expr: &seqExpr{
-								pos: position{line: 1995, col: 5, offset: 64127},
+								pos: position{line: 1995, col: 5, offset: 64263},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1995, col: 5, offset: 64127},
+										pos:        position{line: 1995, col: 5, offset: 64263},
 										val:        "_",
 										ignoreCase: false,
 										want:       "\"_\"",
 									},
 									&notExpr{
-										pos: position{line: 1996, col: 5, offset: 64136},
+										pos: position{line: 1996, col: 5, offset: 64272},
 										expr: &litMatcher{
-											pos:        position{line: 1996, col: 6, offset: 64137},
+											pos:        position{line: 1996, col: 6, offset: 64273},
 											val:        "_",
 											ignoreCase: false,
 											want:       "\"_\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1997, col: 5, offset: 64202},
+										pos: position{line: 1997, col: 5, offset: 64338},
 										run: (*parser).callonSingleQuoteItalicTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2001, col: 5, offset: 64313},
+										pos: position{line: 2001, col: 5, offset: 64449},
 										expr: &notExpr{
-											pos: position{line: 2001, col: 7, offset: 64315},
+											pos: position{line: 2001, col: 7, offset: 64451},
 											expr: &charClassMatcher{
-												pos:        position{line: 2742, col: 13, offset: 87334},
+												pos:        position{line: 2752, col: 13, offset: 87679},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41577,10 +41641,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2022, col: 5, offset: 64924},
+							pos:   position{line: 2022, col: 5, offset: 65060},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2022, col: 14, offset: 64933},
+								pos:  position{line: 2022, col: 14, offset: 65069},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41590,35 +41654,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedItalicText",
-			pos:  position{line: 2027, col: 1, offset: 65021},
+			pos:  position{line: 2027, col: 1, offset: 65157},
 			expr: &choiceExpr{
-				pos: position{line: 2029, col: 5, offset: 65086},
+				pos: position{line: 2029, col: 5, offset: 65222},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2029, col: 5, offset: 65086},
+						pos: position{line: 2029, col: 5, offset: 65222},
 						run: (*parser).callonEscapedItalicText2,
 						expr: &seqExpr{
-							pos: position{line: 2029, col: 5, offset: 65086},
+							pos: position{line: 2029, col: 5, offset: 65222},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2029, col: 5, offset: 65086},
+									pos:   position{line: 2029, col: 5, offset: 65222},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1845, col: 25, offset: 59501},
+										pos: position{line: 1845, col: 25, offset: 59637},
 										run: (*parser).callonEscapedItalicText5,
 										expr: &seqExpr{
-											pos: position{line: 1845, col: 25, offset: 59501},
+											pos: position{line: 1845, col: 25, offset: 59637},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1845, col: 25, offset: 59501},
+													pos:        position{line: 1845, col: 25, offset: 59637},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1845, col: 30, offset: 59506},
+													pos: position{line: 1845, col: 30, offset: 59642},
 													expr: &litMatcher{
-														pos:        position{line: 1845, col: 30, offset: 59506},
+														pos:        position{line: 1845, col: 30, offset: 59642},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -41629,21 +41693,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2029, col: 40, offset: 65121},
+									pos:        position{line: 2029, col: 40, offset: 65257},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2029, col: 45, offset: 65126},
+									pos:   position{line: 2029, col: 45, offset: 65262},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2029, col: 55, offset: 65136},
+										pos:  position{line: 2029, col: 55, offset: 65272},
 										name: "DoubleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2029, col: 86, offset: 65167},
+									pos:        position{line: 2029, col: 86, offset: 65303},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
@@ -41652,21 +41716,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2033, col: 7, offset: 65332},
+						pos: position{line: 2033, col: 7, offset: 65468},
 						run: (*parser).callonEscapedItalicText14,
 						expr: &seqExpr{
-							pos: position{line: 2033, col: 7, offset: 65332},
+							pos: position{line: 2033, col: 7, offset: 65468},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2033, col: 7, offset: 65332},
+									pos:   position{line: 2033, col: 7, offset: 65468},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1841, col: 25, offset: 59428},
+										pos: position{line: 1841, col: 25, offset: 59564},
 										run: (*parser).callonEscapedItalicText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1841, col: 25, offset: 59428},
+											pos: position{line: 1841, col: 25, offset: 59564},
 											expr: &litMatcher{
-												pos:        position{line: 1841, col: 25, offset: 59428},
+												pos:        position{line: 1841, col: 25, offset: 59564},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41675,21 +41739,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2033, col: 42, offset: 65367},
+									pos:        position{line: 2033, col: 42, offset: 65503},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2033, col: 47, offset: 65372},
+									pos:   position{line: 2033, col: 47, offset: 65508},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2033, col: 57, offset: 65382},
+										pos:  position{line: 2033, col: 57, offset: 65518},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2033, col: 88, offset: 65413},
+									pos:        position{line: 2033, col: 88, offset: 65549},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -41698,21 +41762,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2038, col: 7, offset: 65654},
+						pos: position{line: 2038, col: 7, offset: 65790},
 						run: (*parser).callonEscapedItalicText24,
 						expr: &seqExpr{
-							pos: position{line: 2038, col: 7, offset: 65654},
+							pos: position{line: 2038, col: 7, offset: 65790},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2038, col: 7, offset: 65654},
+									pos:   position{line: 2038, col: 7, offset: 65790},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1841, col: 25, offset: 59428},
+										pos: position{line: 1841, col: 25, offset: 59564},
 										run: (*parser).callonEscapedItalicText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1841, col: 25, offset: 59428},
+											pos: position{line: 1841, col: 25, offset: 59564},
 											expr: &litMatcher{
-												pos:        position{line: 1841, col: 25, offset: 59428},
+												pos:        position{line: 1841, col: 25, offset: 59564},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41721,21 +41785,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2038, col: 42, offset: 65689},
+									pos:        position{line: 2038, col: 42, offset: 65825},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2038, col: 46, offset: 65693},
+									pos:   position{line: 2038, col: 46, offset: 65829},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2038, col: 56, offset: 65703},
+										pos:  position{line: 2038, col: 56, offset: 65839},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2038, col: 87, offset: 65734},
+									pos:        position{line: 2038, col: 87, offset: 65870},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -41748,29 +41812,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceText",
-			pos:  position{line: 2055, col: 1, offset: 66298},
+			pos:  position{line: 2055, col: 1, offset: 66434},
 			expr: &actionExpr{
-				pos: position{line: 2056, col: 5, offset: 66331},
+				pos: position{line: 2056, col: 5, offset: 66467},
 				run: (*parser).callonDoubleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2056, col: 5, offset: 66331},
+					pos: position{line: 2056, col: 5, offset: 66467},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2051, col: 43, offset: 66246},
+							pos:        position{line: 2051, col: 43, offset: 66382},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2057, col: 5, offset: 66375},
+							pos:   position{line: 2057, col: 5, offset: 66511},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2057, col: 15, offset: 66385},
+								pos:  position{line: 2057, col: 15, offset: 66521},
 								name: "DoubleQuoteMonospaceTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2053, col: 41, offset: 66292},
+							pos:        position{line: 2053, col: 41, offset: 66428},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
@@ -41781,44 +41845,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElements",
-			pos:  position{line: 2062, col: 1, offset: 66560},
+			pos:  position{line: 2062, col: 1, offset: 66696},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 2062, col: 37, offset: 66596},
+				pos: position{line: 2062, col: 37, offset: 66732},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2062, col: 37, offset: 66596},
+					pos:  position{line: 2062, col: 37, offset: 66732},
 					name: "DoubleQuoteMonospaceTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElement",
-			pos:  position{line: 2064, col: 1, offset: 66663},
+			pos:  position{line: 2064, col: 1, offset: 66799},
 			expr: &actionExpr{
-				pos: position{line: 2065, col: 5, offset: 66703},
+				pos: position{line: 2065, col: 5, offset: 66839},
 				run: (*parser).callonDoubleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2065, col: 5, offset: 66703},
+					pos: position{line: 2065, col: 5, offset: 66839},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2869, col: 11, offset: 90573},
+							pos: position{line: 2879, col: 11, offset: 90918},
 							expr: &anyMatcher{
-								line: 2869, col: 13, offset: 90575,
+								line: 2879, col: 13, offset: 90920,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2066, col: 5, offset: 66714},
+							pos: position{line: 2066, col: 5, offset: 66850},
 							expr: &litMatcher{
-								pos:        position{line: 2053, col: 41, offset: 66292},
+								pos:        position{line: 2053, col: 41, offset: 66428},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2067, col: 5, offset: 66756},
+							pos:   position{line: 2067, col: 5, offset: 66892},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2067, col: 14, offset: 66765},
+								pos:  position{line: 2067, col: 14, offset: 66901},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41828,33 +41892,33 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextEndDelimiter",
-			pos:  position{line: 2085, col: 1, offset: 67307},
+			pos:  position{line: 2085, col: 1, offset: 67443},
 			expr: &seqExpr{
-				pos: position{line: 2086, col: 5, offset: 67352},
+				pos: position{line: 2086, col: 5, offset: 67488},
 				exprs: []interface{}{
 					&notExpr{
-						pos: position{line: 2086, col: 5, offset: 67352},
+						pos: position{line: 2086, col: 5, offset: 67488},
 						expr: &ruleRefExpr{
-							pos:  position{line: 2086, col: 6, offset: 67353},
+							pos:  position{line: 2086, col: 6, offset: 67489},
 							name: "QuotationMark",
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 2087, col: 5, offset: 67372},
+						pos:        position{line: 2087, col: 5, offset: 67508},
 						val:        "`",
 						ignoreCase: false,
 						want:       "\"`\"",
 					},
 					&andCodeExpr{
-						pos: position{line: 2088, col: 5, offset: 67380},
+						pos: position{line: 2088, col: 5, offset: 67516},
 						run: (*parser).callonSingleQuoteMonospaceTextEndDelimiter5,
 					},
 					&andExpr{
-						pos: position{line: 2092, col: 5, offset: 67494},
+						pos: position{line: 2092, col: 5, offset: 67630},
 						expr: &notExpr{
-							pos: position{line: 2092, col: 7, offset: 67496},
+							pos: position{line: 2092, col: 7, offset: 67632},
 							expr: &charClassMatcher{
-								pos:        position{line: 2742, col: 13, offset: 87334},
+								pos:        position{line: 2752, col: 13, offset: 87679},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -41867,29 +41931,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceText",
-			pos:  position{line: 2095, col: 1, offset: 67513},
+			pos:  position{line: 2095, col: 1, offset: 67649},
 			expr: &actionExpr{
-				pos: position{line: 2096, col: 5, offset: 67546},
+				pos: position{line: 2096, col: 5, offset: 67682},
 				run: (*parser).callonSingleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2096, col: 5, offset: 67546},
+					pos: position{line: 2096, col: 5, offset: 67682},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2078, col: 5, offset: 67109},
+							pos:        position{line: 2078, col: 5, offset: 67245},
 							val:        "`",
 							ignoreCase: false,
 							want:       "\"`\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2079, col: 5, offset: 67118},
+							pos: position{line: 2079, col: 5, offset: 67254},
 							run: (*parser).callonSingleQuoteMonospaceText4,
 						},
 						&andExpr{
-							pos: position{line: 2083, col: 5, offset: 67241},
+							pos: position{line: 2083, col: 5, offset: 67377},
 							expr: &notExpr{
-								pos: position{line: 2083, col: 7, offset: 67243},
+								pos: position{line: 2083, col: 7, offset: 67379},
 								expr: &litMatcher{
-									pos:        position{line: 2083, col: 8, offset: 67244},
+									pos:        position{line: 2083, col: 8, offset: 67380},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -41897,15 +41961,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2097, col: 5, offset: 67590},
+							pos:   position{line: 2097, col: 5, offset: 67726},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2097, col: 15, offset: 67600},
+								pos:  position{line: 2097, col: 15, offset: 67736},
 								name: "SingleQuoteMonospaceTextElements",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 2098, col: 5, offset: 67639},
+							pos:  position{line: 2098, col: 5, offset: 67775},
 							name: "SingleQuoteMonospaceTextEndDelimiter",
 						},
 					},
@@ -41914,20 +41978,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElements",
-			pos:  position{line: 2102, col: 1, offset: 67776},
+			pos:  position{line: 2102, col: 1, offset: 67912},
 			expr: &actionExpr{
-				pos: position{line: 2103, col: 5, offset: 67817},
+				pos: position{line: 2103, col: 5, offset: 67953},
 				run: (*parser).callonSingleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2103, col: 5, offset: 67817},
+					pos: position{line: 2103, col: 5, offset: 67953},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2103, col: 5, offset: 67817},
+							pos: position{line: 2103, col: 5, offset: 67953},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2862, col: 10, offset: 90584},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2862, col: 10, offset: 90584},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41936,18 +42000,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2104, col: 5, offset: 67856},
+							pos:   position{line: 2104, col: 5, offset: 67992},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2104, col: 14, offset: 67865},
+								pos: position{line: 2104, col: 14, offset: 68001},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2104, col: 15, offset: 67866},
+									pos:  position{line: 2104, col: 15, offset: 68002},
 									name: "SingleQuoteMonospaceTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2105, col: 5, offset: 67904},
+							pos: position{line: 2105, col: 5, offset: 68040},
 							run: (*parser).callonSingleQuoteMonospaceTextElements9,
 						},
 					},
@@ -41956,31 +42020,31 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElement",
-			pos:  position{line: 2111, col: 1, offset: 68045},
+			pos:  position{line: 2111, col: 1, offset: 68181},
 			expr: &actionExpr{
-				pos: position{line: 2112, col: 5, offset: 68085},
+				pos: position{line: 2112, col: 5, offset: 68221},
 				run: (*parser).callonSingleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2112, col: 5, offset: 68085},
+					pos: position{line: 2112, col: 5, offset: 68221},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2869, col: 11, offset: 90573},
+							pos: position{line: 2879, col: 11, offset: 90918},
 							expr: &anyMatcher{
-								line: 2869, col: 13, offset: 90575,
+								line: 2879, col: 13, offset: 90920,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2113, col: 5, offset: 68096},
+							pos: position{line: 2113, col: 5, offset: 68232},
 							expr: &ruleRefExpr{
-								pos:  position{line: 2113, col: 6, offset: 68097},
+								pos:  position{line: 2113, col: 6, offset: 68233},
 								name: "SingleQuoteMonospaceTextEndDelimiter",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2114, col: 5, offset: 68138},
+							pos:   position{line: 2114, col: 5, offset: 68274},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2114, col: 14, offset: 68147},
+								pos:  position{line: 2114, col: 14, offset: 68283},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41990,35 +42054,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMonospaceText",
-			pos:  position{line: 2119, col: 1, offset: 68235},
+			pos:  position{line: 2119, col: 1, offset: 68371},
 			expr: &choiceExpr{
-				pos: position{line: 2121, col: 5, offset: 68306},
+				pos: position{line: 2121, col: 5, offset: 68442},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2121, col: 5, offset: 68306},
+						pos: position{line: 2121, col: 5, offset: 68442},
 						run: (*parser).callonEscapedMonospaceText2,
 						expr: &seqExpr{
-							pos: position{line: 2121, col: 5, offset: 68306},
+							pos: position{line: 2121, col: 5, offset: 68442},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2121, col: 5, offset: 68306},
+									pos:   position{line: 2121, col: 5, offset: 68442},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1845, col: 25, offset: 59501},
+										pos: position{line: 1845, col: 25, offset: 59637},
 										run: (*parser).callonEscapedMonospaceText5,
 										expr: &seqExpr{
-											pos: position{line: 1845, col: 25, offset: 59501},
+											pos: position{line: 1845, col: 25, offset: 59637},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1845, col: 25, offset: 59501},
+													pos:        position{line: 1845, col: 25, offset: 59637},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1845, col: 30, offset: 59506},
+													pos: position{line: 1845, col: 30, offset: 59642},
 													expr: &litMatcher{
-														pos:        position{line: 1845, col: 30, offset: 59506},
+														pos:        position{line: 1845, col: 30, offset: 59642},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42029,21 +42093,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2121, col: 40, offset: 68341},
+									pos:        position{line: 2121, col: 40, offset: 68477},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2121, col: 45, offset: 68346},
+									pos:   position{line: 2121, col: 45, offset: 68482},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2121, col: 55, offset: 68356},
+										pos:  position{line: 2121, col: 55, offset: 68492},
 										name: "DoubleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2121, col: 89, offset: 68390},
+									pos:        position{line: 2121, col: 89, offset: 68526},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
@@ -42052,21 +42116,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2125, col: 7, offset: 68559},
+						pos: position{line: 2125, col: 7, offset: 68695},
 						run: (*parser).callonEscapedMonospaceText14,
 						expr: &seqExpr{
-							pos: position{line: 2125, col: 7, offset: 68559},
+							pos: position{line: 2125, col: 7, offset: 68695},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2125, col: 7, offset: 68559},
+									pos:   position{line: 2125, col: 7, offset: 68695},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1841, col: 25, offset: 59428},
+										pos: position{line: 1841, col: 25, offset: 59564},
 										run: (*parser).callonEscapedMonospaceText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1841, col: 25, offset: 59428},
+											pos: position{line: 1841, col: 25, offset: 59564},
 											expr: &litMatcher{
-												pos:        position{line: 1841, col: 25, offset: 59428},
+												pos:        position{line: 1841, col: 25, offset: 59564},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42075,21 +42139,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2125, col: 42, offset: 68594},
+									pos:        position{line: 2125, col: 42, offset: 68730},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2125, col: 47, offset: 68599},
+									pos:   position{line: 2125, col: 47, offset: 68735},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2125, col: 57, offset: 68609},
+										pos:  position{line: 2125, col: 57, offset: 68745},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2125, col: 91, offset: 68643},
+									pos:        position{line: 2125, col: 91, offset: 68779},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42098,21 +42162,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2130, col: 7, offset: 68849},
+						pos: position{line: 2130, col: 7, offset: 68985},
 						run: (*parser).callonEscapedMonospaceText24,
 						expr: &seqExpr{
-							pos: position{line: 2130, col: 7, offset: 68849},
+							pos: position{line: 2130, col: 7, offset: 68985},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2130, col: 7, offset: 68849},
+									pos:   position{line: 2130, col: 7, offset: 68985},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1841, col: 25, offset: 59428},
+										pos: position{line: 1841, col: 25, offset: 59564},
 										run: (*parser).callonEscapedMonospaceText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1841, col: 25, offset: 59428},
+											pos: position{line: 1841, col: 25, offset: 59564},
 											expr: &litMatcher{
-												pos:        position{line: 1841, col: 25, offset: 59428},
+												pos:        position{line: 1841, col: 25, offset: 59564},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42121,21 +42185,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2130, col: 42, offset: 68884},
+									pos:        position{line: 2130, col: 42, offset: 69020},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2130, col: 46, offset: 68888},
+									pos:   position{line: 2130, col: 46, offset: 69024},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2130, col: 56, offset: 68898},
+										pos:  position{line: 2130, col: 56, offset: 69034},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2130, col: 90, offset: 68932},
+									pos:        position{line: 2130, col: 90, offset: 69068},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42148,29 +42212,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedText",
-			pos:  position{line: 2147, col: 1, offset: 69417},
+			pos:  position{line: 2147, col: 1, offset: 69553},
 			expr: &actionExpr{
-				pos: position{line: 2148, col: 5, offset: 69447},
+				pos: position{line: 2148, col: 5, offset: 69583},
 				run: (*parser).callonDoubleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2148, col: 5, offset: 69447},
+					pos: position{line: 2148, col: 5, offset: 69583},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2143, col: 40, offset: 69368},
+							pos:        position{line: 2143, col: 40, offset: 69504},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2149, col: 5, offset: 69488},
+							pos:   position{line: 2149, col: 5, offset: 69624},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2149, col: 15, offset: 69498},
+								pos:  position{line: 2149, col: 15, offset: 69634},
 								name: "DoubleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2145, col: 38, offset: 69411},
+							pos:        position{line: 2145, col: 38, offset: 69547},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
@@ -42181,44 +42245,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElements",
-			pos:  position{line: 2154, col: 1, offset: 69664},
+			pos:  position{line: 2154, col: 1, offset: 69800},
 			expr: &zeroOrMoreExpr{
-				pos: position{line: 2154, col: 34, offset: 69697},
+				pos: position{line: 2154, col: 34, offset: 69833},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2154, col: 34, offset: 69697},
+					pos:  position{line: 2154, col: 34, offset: 69833},
 					name: "DoubleQuoteMarkedTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMarkedTextElement",
-			pos:  position{line: 2156, col: 1, offset: 69728},
+			pos:  position{line: 2156, col: 1, offset: 69864},
 			expr: &actionExpr{
-				pos: position{line: 2157, col: 5, offset: 69797},
+				pos: position{line: 2157, col: 5, offset: 69933},
 				run: (*parser).callonDoubleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2157, col: 5, offset: 69797},
+					pos: position{line: 2157, col: 5, offset: 69933},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2869, col: 11, offset: 90573},
+							pos: position{line: 2879, col: 11, offset: 90918},
 							expr: &anyMatcher{
-								line: 2869, col: 13, offset: 90575,
+								line: 2879, col: 13, offset: 90920,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2158, col: 5, offset: 69808},
+							pos: position{line: 2158, col: 5, offset: 69944},
 							expr: &litMatcher{
-								pos:        position{line: 2145, col: 38, offset: 69411},
+								pos:        position{line: 2145, col: 38, offset: 69547},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2159, col: 5, offset: 69847},
+							pos:   position{line: 2159, col: 5, offset: 69983},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2159, col: 14, offset: 69856},
+								pos:  position{line: 2159, col: 14, offset: 69992},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42228,29 +42292,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedText",
-			pos:  position{line: 2184, col: 1, offset: 70538},
+			pos:  position{line: 2184, col: 1, offset: 70674},
 			expr: &actionExpr{
-				pos: position{line: 2185, col: 5, offset: 70568},
+				pos: position{line: 2185, col: 5, offset: 70704},
 				run: (*parser).callonSingleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2185, col: 5, offset: 70568},
+					pos: position{line: 2185, col: 5, offset: 70704},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2168, col: 5, offset: 70104},
+							pos:        position{line: 2168, col: 5, offset: 70240},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2169, col: 5, offset: 70113},
+							pos: position{line: 2169, col: 5, offset: 70249},
 							run: (*parser).callonSingleQuoteMarkedText4,
 						},
 						&andExpr{
-							pos: position{line: 2173, col: 5, offset: 70233},
+							pos: position{line: 2173, col: 5, offset: 70369},
 							expr: &notExpr{
-								pos: position{line: 2173, col: 7, offset: 70235},
+								pos: position{line: 2173, col: 7, offset: 70371},
 								expr: &litMatcher{
-									pos:        position{line: 2173, col: 8, offset: 70236},
+									pos:        position{line: 2173, col: 8, offset: 70372},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -42258,38 +42322,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2186, col: 5, offset: 70608},
+							pos:   position{line: 2186, col: 5, offset: 70744},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2186, col: 15, offset: 70618},
+								pos:  position{line: 2186, col: 15, offset: 70754},
 								name: "SingleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2176, col: 5, offset: 70341},
+							pos:        position{line: 2176, col: 5, offset: 70477},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&notExpr{
-							pos: position{line: 2177, col: 5, offset: 70349},
+							pos: position{line: 2177, col: 5, offset: 70485},
 							expr: &litMatcher{
-								pos:        position{line: 2177, col: 6, offset: 70350},
+								pos:        position{line: 2177, col: 6, offset: 70486},
 								val:        "#",
 								ignoreCase: false,
 								want:       "\"#\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2178, col: 5, offset: 70413},
+							pos: position{line: 2178, col: 5, offset: 70549},
 							run: (*parser).callonSingleQuoteMarkedText13,
 						},
 						&andExpr{
-							pos: position{line: 2182, col: 5, offset: 70524},
+							pos: position{line: 2182, col: 5, offset: 70660},
 							expr: &notExpr{
-								pos: position{line: 2182, col: 7, offset: 70526},
+								pos: position{line: 2182, col: 7, offset: 70662},
 								expr: &charClassMatcher{
-									pos:        position{line: 2742, col: 13, offset: 87334},
+									pos:        position{line: 2752, col: 13, offset: 87679},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -42303,20 +42367,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElements",
-			pos:  position{line: 2191, col: 1, offset: 70785},
+			pos:  position{line: 2191, col: 1, offset: 70921},
 			expr: &actionExpr{
-				pos: position{line: 2192, col: 5, offset: 70823},
+				pos: position{line: 2192, col: 5, offset: 70959},
 				run: (*parser).callonSingleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2192, col: 5, offset: 70823},
+					pos: position{line: 2192, col: 5, offset: 70959},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2192, col: 5, offset: 70823},
+							pos: position{line: 2192, col: 5, offset: 70959},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2862, col: 10, offset: 90584},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2862, col: 10, offset: 90584},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42325,18 +42389,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2193, col: 5, offset: 70862},
+							pos:   position{line: 2193, col: 5, offset: 70998},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2193, col: 14, offset: 70871},
+								pos: position{line: 2193, col: 14, offset: 71007},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2193, col: 15, offset: 70872},
+									pos:  position{line: 2193, col: 15, offset: 71008},
 									name: "SingleQuoteMarkedTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2194, col: 5, offset: 70908},
+							pos: position{line: 2194, col: 5, offset: 71044},
 							run: (*parser).callonSingleQuoteMarkedTextElements9,
 						},
 					},
@@ -42345,49 +42409,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElement",
-			pos:  position{line: 2200, col: 1, offset: 71049},
+			pos:  position{line: 2200, col: 1, offset: 71185},
 			expr: &actionExpr{
-				pos: position{line: 2201, col: 5, offset: 71086},
+				pos: position{line: 2201, col: 5, offset: 71222},
 				run: (*parser).callonSingleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2201, col: 5, offset: 71086},
+					pos: position{line: 2201, col: 5, offset: 71222},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2869, col: 11, offset: 90573},
+							pos: position{line: 2879, col: 11, offset: 90918},
 							expr: &anyMatcher{
-								line: 2869, col: 13, offset: 90575,
+								line: 2879, col: 13, offset: 90920,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2202, col: 5, offset: 71097},
+							pos: position{line: 2202, col: 5, offset: 71233},
 							expr: &seqExpr{
-								pos: position{line: 2176, col: 5, offset: 70341},
+								pos: position{line: 2176, col: 5, offset: 70477},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2176, col: 5, offset: 70341},
+										pos:        position{line: 2176, col: 5, offset: 70477},
 										val:        "#",
 										ignoreCase: false,
 										want:       "\"#\"",
 									},
 									&notExpr{
-										pos: position{line: 2177, col: 5, offset: 70349},
+										pos: position{line: 2177, col: 5, offset: 70485},
 										expr: &litMatcher{
-											pos:        position{line: 2177, col: 6, offset: 70350},
+											pos:        position{line: 2177, col: 6, offset: 70486},
 											val:        "#",
 											ignoreCase: false,
 											want:       "\"#\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2178, col: 5, offset: 70413},
+										pos: position{line: 2178, col: 5, offset: 70549},
 										run: (*parser).callonSingleQuoteMarkedTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2182, col: 5, offset: 70524},
+										pos: position{line: 2182, col: 5, offset: 70660},
 										expr: &notExpr{
-											pos: position{line: 2182, col: 7, offset: 70526},
+											pos: position{line: 2182, col: 7, offset: 70662},
 											expr: &charClassMatcher{
-												pos:        position{line: 2742, col: 13, offset: 87334},
+												pos:        position{line: 2752, col: 13, offset: 87679},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42399,10 +42463,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2203, col: 5, offset: 71136},
+							pos:   position{line: 2203, col: 5, offset: 71272},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2203, col: 14, offset: 71145},
+								pos:  position{line: 2203, col: 14, offset: 71281},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42412,35 +42476,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMarkedText",
-			pos:  position{line: 2208, col: 1, offset: 71233},
+			pos:  position{line: 2208, col: 1, offset: 71369},
 			expr: &choiceExpr{
-				pos: position{line: 2210, col: 5, offset: 71297},
+				pos: position{line: 2210, col: 5, offset: 71433},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2210, col: 5, offset: 71297},
+						pos: position{line: 2210, col: 5, offset: 71433},
 						run: (*parser).callonEscapedMarkedText2,
 						expr: &seqExpr{
-							pos: position{line: 2210, col: 5, offset: 71297},
+							pos: position{line: 2210, col: 5, offset: 71433},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2210, col: 5, offset: 71297},
+									pos:   position{line: 2210, col: 5, offset: 71433},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1845, col: 25, offset: 59501},
+										pos: position{line: 1845, col: 25, offset: 59637},
 										run: (*parser).callonEscapedMarkedText5,
 										expr: &seqExpr{
-											pos: position{line: 1845, col: 25, offset: 59501},
+											pos: position{line: 1845, col: 25, offset: 59637},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1845, col: 25, offset: 59501},
+													pos:        position{line: 1845, col: 25, offset: 59637},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1845, col: 30, offset: 59506},
+													pos: position{line: 1845, col: 30, offset: 59642},
 													expr: &litMatcher{
-														pos:        position{line: 1845, col: 30, offset: 59506},
+														pos:        position{line: 1845, col: 30, offset: 59642},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42451,21 +42515,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2210, col: 40, offset: 71332},
+									pos:        position{line: 2210, col: 40, offset: 71468},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2210, col: 45, offset: 71337},
+									pos:   position{line: 2210, col: 45, offset: 71473},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2210, col: 55, offset: 71347},
+										pos:  position{line: 2210, col: 55, offset: 71483},
 										name: "DoubleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2210, col: 86, offset: 71378},
+									pos:        position{line: 2210, col: 86, offset: 71514},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
@@ -42474,21 +42538,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2214, col: 7, offset: 71543},
+						pos: position{line: 2214, col: 7, offset: 71679},
 						run: (*parser).callonEscapedMarkedText14,
 						expr: &seqExpr{
-							pos: position{line: 2214, col: 7, offset: 71543},
+							pos: position{line: 2214, col: 7, offset: 71679},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2214, col: 7, offset: 71543},
+									pos:   position{line: 2214, col: 7, offset: 71679},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1841, col: 25, offset: 59428},
+										pos: position{line: 1841, col: 25, offset: 59564},
 										run: (*parser).callonEscapedMarkedText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1841, col: 25, offset: 59428},
+											pos: position{line: 1841, col: 25, offset: 59564},
 											expr: &litMatcher{
-												pos:        position{line: 1841, col: 25, offset: 59428},
+												pos:        position{line: 1841, col: 25, offset: 59564},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42497,21 +42561,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2214, col: 42, offset: 71578},
+									pos:        position{line: 2214, col: 42, offset: 71714},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2214, col: 47, offset: 71583},
+									pos:   position{line: 2214, col: 47, offset: 71719},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2214, col: 57, offset: 71593},
+										pos:  position{line: 2214, col: 57, offset: 71729},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2214, col: 88, offset: 71624},
+									pos:        position{line: 2214, col: 88, offset: 71760},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -42520,21 +42584,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2219, col: 7, offset: 71827},
+						pos: position{line: 2219, col: 7, offset: 71963},
 						run: (*parser).callonEscapedMarkedText24,
 						expr: &seqExpr{
-							pos: position{line: 2219, col: 7, offset: 71827},
+							pos: position{line: 2219, col: 7, offset: 71963},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2219, col: 7, offset: 71827},
+									pos:   position{line: 2219, col: 7, offset: 71963},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1841, col: 25, offset: 59428},
+										pos: position{line: 1841, col: 25, offset: 59564},
 										run: (*parser).callonEscapedMarkedText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1841, col: 25, offset: 59428},
+											pos: position{line: 1841, col: 25, offset: 59564},
 											expr: &litMatcher{
-												pos:        position{line: 1841, col: 25, offset: 59428},
+												pos:        position{line: 1841, col: 25, offset: 59564},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42543,21 +42607,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2219, col: 42, offset: 71862},
+									pos:        position{line: 2219, col: 42, offset: 71998},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2219, col: 46, offset: 71866},
+									pos:   position{line: 2219, col: 46, offset: 72002},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2219, col: 56, offset: 71876},
+										pos:  position{line: 2219, col: 56, offset: 72012},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2219, col: 87, offset: 71907},
+									pos:        position{line: 2219, col: 87, offset: 72043},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -42570,29 +42634,29 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptText",
-			pos:  position{line: 2226, col: 1, offset: 72174},
+			pos:  position{line: 2226, col: 1, offset: 72310},
 			expr: &actionExpr{
-				pos: position{line: 2227, col: 5, offset: 72196},
+				pos: position{line: 2227, col: 5, offset: 72332},
 				run: (*parser).callonSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2227, col: 5, offset: 72196},
+					pos: position{line: 2227, col: 5, offset: 72332},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2233, col: 27, offset: 72411},
+							pos:        position{line: 2233, col: 27, offset: 72547},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2228, col: 5, offset: 72223},
+							pos:   position{line: 2228, col: 5, offset: 72359},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2228, col: 14, offset: 72232},
+								pos:  position{line: 2228, col: 14, offset: 72368},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2233, col: 27, offset: 72411},
+							pos:        position{line: 2233, col: 27, offset: 72547},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -42603,43 +42667,43 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptTextElement",
-			pos:  position{line: 2235, col: 1, offset: 72416},
+			pos:  position{line: 2235, col: 1, offset: 72552},
 			expr: &choiceExpr{
-				pos: position{line: 2235, col: 25, offset: 72440},
+				pos: position{line: 2235, col: 25, offset: 72576},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2235, col: 25, offset: 72440},
+						pos:  position{line: 2235, col: 25, offset: 72576},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2237, col: 21, offset: 72492},
+						pos: position{line: 2237, col: 21, offset: 72628},
 						run: (*parser).callonSubscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2237, col: 21, offset: 72492},
+							pos:   position{line: 2237, col: 21, offset: 72628},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2237, col: 30, offset: 72501},
+								pos: position{line: 2237, col: 30, offset: 72637},
 								expr: &choiceExpr{
-									pos: position{line: 2237, col: 31, offset: 72502},
+									pos: position{line: 2237, col: 31, offset: 72638},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2449, col: 5, offset: 78763},
+											pos: position{line: 2459, col: 5, offset: 79108},
 											run: (*parser).callonSubscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2449, col: 5, offset: 78763},
+												pos: position{line: 2459, col: 5, offset: 79108},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2449, col: 5, offset: 78763},
+														pos: position{line: 2459, col: 5, offset: 79108},
 														run: (*parser).callonSubscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2452, col: 5, offset: 78839},
+														pos:   position{line: 2462, col: 5, offset: 79184},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2453, col: 9, offset: 78857},
+															pos: position{line: 2463, col: 9, offset: 79202},
 															run: (*parser).callonSubscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2453, col: 10, offset: 78858},
+																pos:        position{line: 2463, col: 10, offset: 79203},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -42651,7 +42715,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2237, col: 50, offset: 72521},
+											pos:        position{line: 2237, col: 50, offset: 72657},
 											val:        "[^\\r\\n ~]",
 											chars:      []rune{'\r', '\n', ' ', '~'},
 											ignoreCase: false,
@@ -42667,23 +42731,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2241, col: 1, offset: 72571},
+			pos:  position{line: 2241, col: 1, offset: 72707},
 			expr: &actionExpr{
-				pos: position{line: 2243, col: 5, offset: 72638},
+				pos: position{line: 2243, col: 5, offset: 72774},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2243, col: 5, offset: 72638},
+					pos: position{line: 2243, col: 5, offset: 72774},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2243, col: 5, offset: 72638},
+							pos:   position{line: 2243, col: 5, offset: 72774},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1841, col: 25, offset: 59428},
+								pos: position{line: 1841, col: 25, offset: 59564},
 								run: (*parser).callonEscapedSubscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1841, col: 25, offset: 59428},
+									pos: position{line: 1841, col: 25, offset: 59564},
 									expr: &litMatcher{
-										pos:        position{line: 1841, col: 25, offset: 59428},
+										pos:        position{line: 1841, col: 25, offset: 59564},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -42692,21 +42756,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2233, col: 27, offset: 72411},
+							pos:        position{line: 2233, col: 27, offset: 72547},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2245, col: 5, offset: 72706},
+							pos:   position{line: 2245, col: 5, offset: 72842},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2245, col: 14, offset: 72715},
+								pos:  position{line: 2245, col: 14, offset: 72851},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2233, col: 27, offset: 72411},
+							pos:        position{line: 2233, col: 27, offset: 72547},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -42717,29 +42781,29 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2253, col: 1, offset: 72978},
+			pos:  position{line: 2253, col: 1, offset: 73114},
 			expr: &actionExpr{
-				pos: position{line: 2254, col: 5, offset: 73002},
+				pos: position{line: 2254, col: 5, offset: 73138},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2254, col: 5, offset: 73002},
+					pos: position{line: 2254, col: 5, offset: 73138},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2260, col: 29, offset: 73229},
+							pos:        position{line: 2260, col: 29, offset: 73365},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2255, col: 5, offset: 73032},
+							pos:   position{line: 2255, col: 5, offset: 73168},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2255, col: 14, offset: 73041},
+								pos:  position{line: 2255, col: 14, offset: 73177},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2260, col: 29, offset: 73229},
+							pos:        position{line: 2260, col: 29, offset: 73365},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -42750,43 +42814,43 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2262, col: 1, offset: 73234},
+			pos:  position{line: 2262, col: 1, offset: 73370},
 			expr: &choiceExpr{
-				pos: position{line: 2262, col: 27, offset: 73260},
+				pos: position{line: 2262, col: 27, offset: 73396},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2262, col: 27, offset: 73260},
+						pos:  position{line: 2262, col: 27, offset: 73396},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2264, col: 23, offset: 73316},
+						pos: position{line: 2264, col: 23, offset: 73452},
 						run: (*parser).callonSuperscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2264, col: 23, offset: 73316},
+							pos:   position{line: 2264, col: 23, offset: 73452},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2264, col: 32, offset: 73325},
+								pos: position{line: 2264, col: 32, offset: 73461},
 								expr: &choiceExpr{
-									pos: position{line: 2264, col: 33, offset: 73326},
+									pos: position{line: 2264, col: 33, offset: 73462},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2449, col: 5, offset: 78763},
+											pos: position{line: 2459, col: 5, offset: 79108},
 											run: (*parser).callonSuperscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2449, col: 5, offset: 78763},
+												pos: position{line: 2459, col: 5, offset: 79108},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2449, col: 5, offset: 78763},
+														pos: position{line: 2459, col: 5, offset: 79108},
 														run: (*parser).callonSuperscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2452, col: 5, offset: 78839},
+														pos:   position{line: 2462, col: 5, offset: 79184},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2453, col: 9, offset: 78857},
+															pos: position{line: 2463, col: 9, offset: 79202},
 															run: (*parser).callonSuperscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2453, col: 10, offset: 78858},
+																pos:        position{line: 2463, col: 10, offset: 79203},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -42798,7 +42862,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2264, col: 52, offset: 73345},
+											pos:        position{line: 2264, col: 52, offset: 73481},
 											val:        "[^\\r\\n ^]",
 											chars:      []rune{'\r', '\n', ' ', '^'},
 											ignoreCase: false,
@@ -42814,23 +42878,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2268, col: 1, offset: 73395},
+			pos:  position{line: 2268, col: 1, offset: 73531},
 			expr: &actionExpr{
-				pos: position{line: 2270, col: 5, offset: 73467},
+				pos: position{line: 2270, col: 5, offset: 73603},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2270, col: 5, offset: 73467},
+					pos: position{line: 2270, col: 5, offset: 73603},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2270, col: 5, offset: 73467},
+							pos:   position{line: 2270, col: 5, offset: 73603},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1841, col: 25, offset: 59428},
+								pos: position{line: 1841, col: 25, offset: 59564},
 								run: (*parser).callonEscapedSuperscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1841, col: 25, offset: 59428},
+									pos: position{line: 1841, col: 25, offset: 59564},
 									expr: &litMatcher{
-										pos:        position{line: 1841, col: 25, offset: 59428},
+										pos:        position{line: 1841, col: 25, offset: 59564},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -42839,21 +42903,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2260, col: 29, offset: 73229},
+							pos:        position{line: 2260, col: 29, offset: 73365},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2272, col: 5, offset: 73537},
+							pos:   position{line: 2272, col: 5, offset: 73673},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2272, col: 14, offset: 73546},
+								pos:  position{line: 2272, col: 14, offset: 73682},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2260, col: 29, offset: 73229},
+							pos:        position{line: 2260, col: 29, offset: 73365},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -42864,27 +42928,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2281, col: 1, offset: 74015},
+			pos:  position{line: 2281, col: 1, offset: 74151},
 			expr: &actionExpr{
-				pos: position{line: 2282, col: 5, offset: 74031},
+				pos: position{line: 2282, col: 5, offset: 74167},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2282, col: 5, offset: 74031},
+					pos: position{line: 2282, col: 5, offset: 74167},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2282, col: 5, offset: 74031},
+							pos: position{line: 2282, col: 5, offset: 74167},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2285, col: 5, offset: 74094},
+							pos:   position{line: 2285, col: 5, offset: 74230},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2285, col: 12, offset: 74101},
+								pos: position{line: 2285, col: 12, offset: 74237},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2285, col: 12, offset: 74101},
+									pos: position{line: 2285, col: 12, offset: 74237},
 									expr: &litMatcher{
-										pos:        position{line: 2285, col: 13, offset: 74102},
+										pos:        position{line: 2285, col: 13, offset: 74238},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -42893,16 +42957,16 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2289, col: 5, offset: 74210},
+							pos: position{line: 2289, col: 5, offset: 74346},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2856, col: 11, offset: 90300},
+							pos: position{line: 2866, col: 11, offset: 90645},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2856, col: 11, offset: 90300},
+								pos: position{line: 2866, col: 11, offset: 90645},
 								expr: &charClassMatcher{
-									pos:        position{line: 2856, col: 11, offset: 90300},
+									pos:        position{line: 2866, col: 11, offset: 90645},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42911,36 +42975,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2293, col: 12, offset: 74369},
+							pos:   position{line: 2293, col: 12, offset: 74505},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2293, col: 19, offset: 74376},
+								pos:  position{line: 2293, col: 19, offset: 74512},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2874, col: 8, offset: 90637},
+							pos: position{line: 2884, col: 8, offset: 90982},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2861, col: 12, offset: 90410},
+									pos: position{line: 2871, col: 12, offset: 90755},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2861, col: 13, offset: 90411},
+										pos: position{line: 2871, col: 13, offset: 90756},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2861, col: 13, offset: 90411},
+												pos:        position{line: 2871, col: 13, offset: 90756},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 20, offset: 90418},
+												pos:        position{line: 2871, col: 20, offset: 90763},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 29, offset: 90427},
+												pos:        position{line: 2871, col: 29, offset: 90772},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -42949,9 +43013,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2871, col: 8, offset: 90587},
+									pos: position{line: 2881, col: 8, offset: 90932},
 									expr: &anyMatcher{
-										line: 2871, col: 9, offset: 90588,
+										line: 2881, col: 9, offset: 90933,
 									},
 								},
 							},
@@ -42962,24 +43026,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2297, col: 1, offset: 74472},
+			pos:  position{line: 2297, col: 1, offset: 74608},
 			expr: &actionExpr{
-				pos: position{line: 2298, col: 5, offset: 74493},
+				pos: position{line: 2298, col: 5, offset: 74629},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2298, col: 5, offset: 74493},
+					pos: position{line: 2298, col: 5, offset: 74629},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2298, col: 5, offset: 74493},
+							pos: position{line: 2298, col: 5, offset: 74629},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2303, col: 5, offset: 74608},
+							pos:   position{line: 2303, col: 5, offset: 74744},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2303, col: 14, offset: 74617},
+								pos: position{line: 2303, col: 14, offset: 74753},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2303, col: 15, offset: 74618},
+									pos:  position{line: 2303, col: 15, offset: 74754},
 									name: "SectionTitleElement",
 								},
 							},
@@ -42990,38 +43054,38 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2307, col: 1, offset: 74699},
+			pos:  position{line: 2307, col: 1, offset: 74835},
 			expr: &actionExpr{
-				pos: position{line: 2308, col: 5, offset: 74726},
+				pos: position{line: 2308, col: 5, offset: 74862},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2308, col: 5, offset: 74726},
+					pos: position{line: 2308, col: 5, offset: 74862},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2308, col: 5, offset: 74726},
+							pos: position{line: 2308, col: 5, offset: 74862},
 							expr: &choiceExpr{
-								pos: position{line: 2874, col: 8, offset: 90637},
+								pos: position{line: 2884, col: 8, offset: 90982},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2861, col: 12, offset: 90410},
+										pos: position{line: 2871, col: 12, offset: 90755},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2861, col: 13, offset: 90411},
+											pos: position{line: 2871, col: 13, offset: 90756},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2861, col: 13, offset: 90411},
+													pos:        position{line: 2871, col: 13, offset: 90756},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2861, col: 20, offset: 90418},
+													pos:        position{line: 2871, col: 20, offset: 90763},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2861, col: 29, offset: 90427},
+													pos:        position{line: 2871, col: 29, offset: 90772},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -43030,36 +43094,87 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2871, col: 8, offset: 90587},
+										pos: position{line: 2881, col: 8, offset: 90932},
 										expr: &anyMatcher{
-											line: 2871, col: 9, offset: 90588,
+											line: 2881, col: 9, offset: 90933,
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2309, col: 5, offset: 74735},
+							pos:   position{line: 2309, col: 5, offset: 74871},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2310, col: 9, offset: 74753},
+								pos: position{line: 2309, col: 14, offset: 74880},
 								alternatives: []interface{}{
+									&ruleRefExpr{
+										pos:  position{line: 2309, col: 14, offset: 74880},
+										name: "SectionTitleLineElement",
+									},
 									&actionExpr{
-										pos: position{line: 2751, col: 5, offset: 87481},
-										run: (*parser).callonSectionTitleElement14,
+										pos: position{line: 2801, col: 12, offset: 88892},
+										run: (*parser).callonSectionTitleElement15,
+										expr: &charClassMatcher{
+											pos:        position{line: 2801, col: 12, offset: 88892},
+											val:        "[^\\r\\n]",
+											chars:      []rune{'\r', '\n'},
+											ignoreCase: false,
+											inverted:   true,
+										},
+									},
+								},
+							},
+						},
+					},
+				},
+			},
+		},
+		{
+			name: "SectionTitleLineElement",
+			pos:  position{line: 2314, col: 1, offset: 74984},
+			expr: &actionExpr{
+				pos: position{line: 2315, col: 5, offset: 75015},
+				run: (*parser).callonSectionTitleLineElement1,
+				expr: &seqExpr{
+					pos: position{line: 2315, col: 5, offset: 75015},
+					exprs: []interface{}{
+						&labeledExpr{
+							pos:   position{line: 2315, col: 5, offset: 75015},
+							label: "start",
+							expr: &actionExpr{
+								pos: position{line: 2887, col: 16, offset: 91106},
+								run: (*parser).callonSectionTitleLineElement4,
+								expr: &litMatcher{
+									pos:        position{line: 2887, col: 16, offset: 91106},
+									val:        "",
+									ignoreCase: false,
+									want:       "\"\"",
+								},
+							},
+						},
+						&labeledExpr{
+							pos:   position{line: 2316, col: 5, offset: 75039},
+							label: "element",
+							expr: &choiceExpr{
+								pos: position{line: 2317, col: 9, offset: 75057},
+								alternatives: []interface{}{
+									&actionExpr{
+										pos: position{line: 2761, col: 5, offset: 87826},
+										run: (*parser).callonSectionTitleLineElement8,
 										expr: &seqExpr{
-											pos: position{line: 2751, col: 5, offset: 87481},
+											pos: position{line: 2761, col: 5, offset: 87826},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2751, col: 5, offset: 87481},
+													pos:   position{line: 2761, col: 5, offset: 87826},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2751, col: 11, offset: 87487},
-														run: (*parser).callonSectionTitleElement17,
+														pos: position{line: 2761, col: 11, offset: 87832},
+														run: (*parser).callonSectionTitleLineElement11,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2751, col: 11, offset: 87487},
+															pos: position{line: 2761, col: 11, offset: 87832},
 															expr: &charClassMatcher{
-																pos:        position{line: 2751, col: 11, offset: 87487},
+																pos:        position{line: 2761, col: 11, offset: 87832},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -43069,36 +43184,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2754, col: 5, offset: 87545},
+													pos: position{line: 2764, col: 5, offset: 87890},
 													expr: &seqExpr{
-														pos: position{line: 2755, col: 9, offset: 87556},
+														pos: position{line: 2765, col: 9, offset: 87901},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2755, col: 9, offset: 87556},
+																pos:        position{line: 2765, col: 9, offset: 87901},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2756, col: 9, offset: 87605},
-																run: (*parser).callonSectionTitleElement23,
+																pos: position{line: 2766, col: 9, offset: 87950},
+																run: (*parser).callonSectionTitleLineElement17,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2760, col: 5, offset: 87685},
+													pos: position{line: 2770, col: 5, offset: 88030},
 													expr: &seqExpr{
-														pos: position{line: 2761, col: 9, offset: 87696},
+														pos: position{line: 2771, col: 9, offset: 88041},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2761, col: 9, offset: 87696},
+																pos:        position{line: 2771, col: 9, offset: 88041},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2761, col: 13, offset: 87700},
+																pos:        position{line: 2771, col: 13, offset: 88045},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -43111,12 +43226,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2856, col: 11, offset: 90300},
-										run: (*parser).callonSectionTitleElement28,
+										pos: position{line: 2866, col: 11, offset: 90645},
+										run: (*parser).callonSectionTitleLineElement22,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2856, col: 11, offset: 90300},
+											pos: position{line: 2866, col: 11, offset: 90645},
 											expr: &charClassMatcher{
-												pos:        position{line: 2856, col: 11, offset: 90300},
+												pos:        position{line: 2866, col: 11, offset: 90645},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -43125,21 +43240,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2480, col: 5, offset: 79934},
-										run: (*parser).callonSectionTitleElement31,
+										pos: position{line: 2490, col: 5, offset: 80279},
+										run: (*parser).callonSectionTitleLineElement25,
 										expr: &seqExpr{
-											pos: position{line: 2480, col: 5, offset: 79934},
+											pos: position{line: 2490, col: 5, offset: 80279},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2480, col: 5, offset: 79934},
+													pos:        position{line: 2490, col: 5, offset: 80279},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2480, col: 10, offset: 79939},
+													pos: position{line: 2490, col: 10, offset: 80284},
 													expr: &charClassMatcher{
-														pos:        position{line: 2480, col: 11, offset: 79940},
+														pos:        position{line: 2490, col: 11, offset: 80285},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -43150,29 +43265,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2486, col: 5, offset: 80132},
-										run: (*parser).callonSectionTitleElement36,
+										pos: position{line: 2496, col: 5, offset: 80477},
+										run: (*parser).callonSectionTitleLineElement30,
 										expr: &seqExpr{
-											pos: position{line: 2486, col: 5, offset: 80132},
+											pos: position{line: 2496, col: 5, offset: 80477},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2486, col: 5, offset: 80132},
-													run: (*parser).callonSectionTitleElement38,
+													pos: position{line: 2496, col: 5, offset: 80477},
+													run: (*parser).callonSectionTitleLineElement32,
 												},
 												&andCodeExpr{
-													pos: position{line: 2489, col: 5, offset: 80203},
-													run: (*parser).callonSectionTitleElement39,
+													pos: position{line: 2499, col: 5, offset: 80548},
+													run: (*parser).callonSectionTitleLineElement33,
 												},
 												&litMatcher{
-													pos:        position{line: 2493, col: 5, offset: 80328},
+													pos:        position{line: 2503, col: 5, offset: 80673},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2493, col: 9, offset: 80332},
+													pos: position{line: 2503, col: 9, offset: 80677},
 													expr: &charClassMatcher{
-														pos:        position{line: 2493, col: 10, offset: 80333},
+														pos:        position{line: 2503, col: 10, offset: 80678},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -43183,31 +43298,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2313, col: 11, offset: 74818},
+										pos:  position{line: 2320, col: 11, offset: 75122},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2769, col: 5, offset: 87893},
-										run: (*parser).callonSectionTitleElement44,
+										pos: position{line: 2779, col: 5, offset: 88238},
+										run: (*parser).callonSectionTitleLineElement38,
 										expr: &choiceExpr{
-											pos: position{line: 2770, col: 9, offset: 87903},
+											pos: position{line: 2780, col: 9, offset: 88248},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2770, col: 10, offset: 87904},
+													pos:        position{line: 2780, col: 10, offset: 88249},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2772, col: 13, offset: 88001},
+													pos: position{line: 2782, col: 13, offset: 88346},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2772, col: 13, offset: 88001},
-															run: (*parser).callonSectionTitleElement48,
+															pos: position{line: 2782, col: 13, offset: 88346},
+															run: (*parser).callonSectionTitleLineElement42,
 														},
 														&litMatcher{
-															pos:        position{line: 2775, col: 13, offset: 88101},
+															pos:        position{line: 2785, col: 13, offset: 88446},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -43215,20 +43330,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2775, col: 19, offset: 88107},
+													pos:        position{line: 2785, col: 19, offset: 88452},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2778, col: 13, offset: 88145},
+													pos: position{line: 2788, col: 13, offset: 88490},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2778, col: 13, offset: 88145},
-															run: (*parser).callonSectionTitleElement52,
+															pos: position{line: 2788, col: 13, offset: 88490},
+															run: (*parser).callonSectionTitleLineElement46,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2781, col: 14, offset: 88238},
+															pos:        position{line: 2791, col: 14, offset: 88583},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -43237,18 +43352,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2783, col: 12, offset: 88282},
+													pos: position{line: 2793, col: 12, offset: 88627},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2783, col: 12, offset: 88282},
+															pos:        position{line: 2793, col: 12, offset: 88627},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2783, col: 16, offset: 88286},
+															pos: position{line: 2793, col: 16, offset: 88631},
 															expr: &litMatcher{
-																pos:        position{line: 2783, col: 17, offset: 88287},
+																pos:        position{line: 2793, col: 17, offset: 88632},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -43260,35 +43375,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2315, col: 11, offset: 74891},
+										pos:  position{line: 2322, col: 11, offset: 75195},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2316, col: 11, offset: 74907},
+										pos:  position{line: 2323, col: 11, offset: 75211},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2317, col: 11, offset: 74935},
+										pos:  position{line: 2324, col: 11, offset: 75239},
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2449, col: 5, offset: 78763},
-										run: (*parser).callonSectionTitleElement61,
+										pos: position{line: 2459, col: 5, offset: 79108},
+										run: (*parser).callonSectionTitleLineElement55,
 										expr: &seqExpr{
-											pos: position{line: 2449, col: 5, offset: 78763},
+											pos: position{line: 2459, col: 5, offset: 79108},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2449, col: 5, offset: 78763},
-													run: (*parser).callonSectionTitleElement63,
+													pos: position{line: 2459, col: 5, offset: 79108},
+													run: (*parser).callonSectionTitleLineElement57,
 												},
 												&labeledExpr{
-													pos:   position{line: 2452, col: 5, offset: 78839},
+													pos:   position{line: 2462, col: 5, offset: 79184},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2453, col: 9, offset: 78857},
-														run: (*parser).callonSectionTitleElement65,
+														pos: position{line: 2463, col: 9, offset: 79202},
+														run: (*parser).callonSectionTitleLineElement59,
 														expr: &charClassMatcher{
-															pos:        position{line: 2453, col: 10, offset: 78858},
+															pos:        position{line: 2463, col: 10, offset: 79203},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -43300,43 +43415,43 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2319, col: 11, offset: 75020},
+										pos:  position{line: 2326, col: 11, offset: 75324},
 										name: "InlineIcon",
 									},
 									&actionExpr{
-										pos: position{line: 636, col: 5, offset: 20109},
-										run: (*parser).callonSectionTitleElement68,
+										pos: position{line: 636, col: 5, offset: 20177},
+										run: (*parser).callonSectionTitleLineElement62,
 										expr: &seqExpr{
-											pos: position{line: 636, col: 5, offset: 20109},
+											pos: position{line: 636, col: 5, offset: 20177},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 636, col: 5, offset: 20109},
-													run: (*parser).callonSectionTitleElement70,
+													pos: position{line: 636, col: 5, offset: 20177},
+													run: (*parser).callonSectionTitleLineElement64,
 												},
 												&labeledExpr{
-													pos:   position{line: 639, col: 5, offset: 20181},
+													pos:   position{line: 639, col: 5, offset: 20249},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 639, col: 14, offset: 20190},
+														pos: position{line: 639, col: 14, offset: 20258},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 645, col: 5, offset: 20319},
-																run: (*parser).callonSectionTitleElement73,
+																pos: position{line: 645, col: 5, offset: 20387},
+																run: (*parser).callonSectionTitleLineElement67,
 																expr: &seqExpr{
-																	pos: position{line: 645, col: 5, offset: 20319},
+																	pos: position{line: 645, col: 5, offset: 20387},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 645, col: 5, offset: 20319},
+																			pos:        position{line: 645, col: 5, offset: 20387},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 645, col: 13, offset: 20327},
+																			pos:   position{line: 645, col: 13, offset: 20395},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9729},
-																				run: (*parser).callonSectionTitleElement77,
+																				run: (*parser).callonSectionTitleLineElement71,
 																				expr: &seqExpr{
 																					pos: position{line: 318, col: 18, offset: 9729},
 																					exprs: []interface{}{
@@ -43364,7 +43479,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 645, col: 32, offset: 20346},
+																			pos:        position{line: 645, col: 32, offset: 20414},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -43373,23 +43488,23 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 652, col: 5, offset: 20587},
-																run: (*parser).callonSectionTitleElement83,
+																pos: position{line: 652, col: 5, offset: 20655},
+																run: (*parser).callonSectionTitleLineElement77,
 																expr: &seqExpr{
-																	pos: position{line: 652, col: 5, offset: 20587},
+																	pos: position{line: 652, col: 5, offset: 20655},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 652, col: 5, offset: 20587},
+																			pos:        position{line: 652, col: 5, offset: 20655},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 652, col: 9, offset: 20591},
+																			pos:   position{line: 652, col: 9, offset: 20659},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9729},
-																				run: (*parser).callonSectionTitleElement87,
+																				run: (*parser).callonSectionTitleLineElement81,
 																				expr: &seqExpr{
 																					pos: position{line: 318, col: 18, offset: 9729},
 																					exprs: []interface{}{
@@ -43417,7 +43532,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 652, col: 28, offset: 20610},
+																			pos:        position{line: 652, col: 28, offset: 20678},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -43426,23 +43541,23 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 658, col: 25, offset: 20791},
-																run: (*parser).callonSectionTitleElement93,
+																pos: position{line: 658, col: 25, offset: 20859},
+																run: (*parser).callonSectionTitleLineElement87,
 																expr: &seqExpr{
-																	pos: position{line: 658, col: 25, offset: 20791},
+																	pos: position{line: 658, col: 25, offset: 20859},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 658, col: 25, offset: 20791},
+																			pos:        position{line: 658, col: 25, offset: 20859},
 																			val:        "{counter:",
 																			ignoreCase: false,
 																			want:       "\"{counter:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 658, col: 37, offset: 20803},
+																			pos:   position{line: 658, col: 37, offset: 20871},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9729},
-																				run: (*parser).callonSectionTitleElement97,
+																				run: (*parser).callonSectionTitleLineElement91,
 																				expr: &seqExpr{
 																					pos: position{line: 318, col: 18, offset: 9729},
 																					exprs: []interface{}{
@@ -43470,33 +43585,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 658, col: 56, offset: 20822},
+																			pos:   position{line: 658, col: 56, offset: 20890},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 658, col: 62, offset: 20828},
+																				pos: position{line: 658, col: 62, offset: 20896},
 																				expr: &actionExpr{
-																					pos: position{line: 666, col: 17, offset: 21123},
-																					run: (*parser).callonSectionTitleElement104,
+																					pos: position{line: 666, col: 17, offset: 21191},
+																					run: (*parser).callonSectionTitleLineElement98,
 																					expr: &seqExpr{
-																						pos: position{line: 666, col: 17, offset: 21123},
+																						pos: position{line: 666, col: 17, offset: 21191},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 666, col: 17, offset: 21123},
+																								pos:        position{line: 666, col: 17, offset: 21191},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 666, col: 21, offset: 21127},
+																								pos:   position{line: 666, col: 21, offset: 21195},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 666, col: 28, offset: 21134},
+																									pos: position{line: 666, col: 28, offset: 21202},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 666, col: 28, offset: 21134},
-																											run: (*parser).callonSectionTitleElement109,
+																											pos: position{line: 666, col: 28, offset: 21202},
+																											run: (*parser).callonSectionTitleLineElement103,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 666, col: 28, offset: 21134},
+																												pos:        position{line: 666, col: 28, offset: 21202},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -43504,12 +43619,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 668, col: 9, offset: 21188},
-																											run: (*parser).callonSectionTitleElement111,
+																											pos: position{line: 668, col: 9, offset: 21256},
+																											run: (*parser).callonSectionTitleLineElement105,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 668, col: 9, offset: 21188},
+																												pos: position{line: 668, col: 9, offset: 21256},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 668, col: 9, offset: 21188},
+																													pos:        position{line: 668, col: 9, offset: 21256},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -43526,7 +43641,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 658, col: 78, offset: 20844},
+																			pos:        position{line: 658, col: 78, offset: 20912},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -43535,23 +43650,23 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 662, col: 25, offset: 20962},
-																run: (*parser).callonSectionTitleElement115,
+																pos: position{line: 662, col: 25, offset: 21030},
+																run: (*parser).callonSectionTitleLineElement109,
 																expr: &seqExpr{
-																	pos: position{line: 662, col: 25, offset: 20962},
+																	pos: position{line: 662, col: 25, offset: 21030},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 662, col: 25, offset: 20962},
+																			pos:        position{line: 662, col: 25, offset: 21030},
 																			val:        "{counter2:",
 																			ignoreCase: false,
 																			want:       "\"{counter2:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 662, col: 38, offset: 20975},
+																			pos:   position{line: 662, col: 38, offset: 21043},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9729},
-																				run: (*parser).callonSectionTitleElement119,
+																				run: (*parser).callonSectionTitleLineElement113,
 																				expr: &seqExpr{
 																					pos: position{line: 318, col: 18, offset: 9729},
 																					exprs: []interface{}{
@@ -43579,33 +43694,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 662, col: 57, offset: 20994},
+																			pos:   position{line: 662, col: 57, offset: 21062},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 662, col: 63, offset: 21000},
+																				pos: position{line: 662, col: 63, offset: 21068},
 																				expr: &actionExpr{
-																					pos: position{line: 666, col: 17, offset: 21123},
-																					run: (*parser).callonSectionTitleElement126,
+																					pos: position{line: 666, col: 17, offset: 21191},
+																					run: (*parser).callonSectionTitleLineElement120,
 																					expr: &seqExpr{
-																						pos: position{line: 666, col: 17, offset: 21123},
+																						pos: position{line: 666, col: 17, offset: 21191},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 666, col: 17, offset: 21123},
+																								pos:        position{line: 666, col: 17, offset: 21191},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 666, col: 21, offset: 21127},
+																								pos:   position{line: 666, col: 21, offset: 21195},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 666, col: 28, offset: 21134},
+																									pos: position{line: 666, col: 28, offset: 21202},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 666, col: 28, offset: 21134},
-																											run: (*parser).callonSectionTitleElement131,
+																											pos: position{line: 666, col: 28, offset: 21202},
+																											run: (*parser).callonSectionTitleLineElement125,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 666, col: 28, offset: 21134},
+																												pos:        position{line: 666, col: 28, offset: 21202},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -43613,12 +43728,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 668, col: 9, offset: 21188},
-																											run: (*parser).callonSectionTitleElement133,
+																											pos: position{line: 668, col: 9, offset: 21256},
+																											run: (*parser).callonSectionTitleLineElement127,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 668, col: 9, offset: 21188},
+																												pos: position{line: 668, col: 9, offset: 21256},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 668, col: 9, offset: 21188},
+																													pos:        position{line: 668, col: 9, offset: 21256},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -43635,7 +43750,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 662, col: 79, offset: 21016},
+																			pos:        position{line: 662, col: 79, offset: 21084},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -43650,27 +43765,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1198, col: 23, offset: 36977},
-										run: (*parser).callonSectionTitleElement137,
+										pos: position{line: 1198, col: 23, offset: 37045},
+										run: (*parser).callonSectionTitleLineElement131,
 										expr: &seqExpr{
-											pos: position{line: 1198, col: 23, offset: 36977},
+											pos: position{line: 1198, col: 23, offset: 37045},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1196, col: 32, offset: 36945},
+													pos:        position{line: 1196, col: 32, offset: 37013},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1198, col: 51, offset: 37005},
+													pos:   position{line: 1198, col: 51, offset: 37073},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1198, col: 56, offset: 37010},
-														run: (*parser).callonSectionTitleElement141,
+														pos: position{line: 1198, col: 56, offset: 37078},
+														run: (*parser).callonSectionTitleLineElement135,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1198, col: 56, offset: 37010},
+															pos: position{line: 1198, col: 56, offset: 37078},
 															expr: &charClassMatcher{
-																pos:        position{line: 1198, col: 56, offset: 37010},
+																pos:        position{line: 1198, col: 56, offset: 37078},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -43680,7 +43795,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1196, col: 32, offset: 36945},
+													pos:        position{line: 1196, col: 32, offset: 37013},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
@@ -43689,51 +43804,51 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2332, col: 5, offset: 75473},
-										run: (*parser).callonSectionTitleElement145,
+										pos: position{line: 2342, col: 5, offset: 75818},
+										run: (*parser).callonSectionTitleLineElement139,
 										expr: &seqExpr{
-											pos: position{line: 2332, col: 5, offset: 75473},
+											pos: position{line: 2342, col: 5, offset: 75818},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2332, col: 5, offset: 75473},
-													run: (*parser).callonSectionTitleElement147,
+													pos: position{line: 2342, col: 5, offset: 75818},
+													run: (*parser).callonSectionTitleLineElement141,
 												},
 												&labeledExpr{
-													pos:   position{line: 2335, col: 5, offset: 75528},
+													pos:   position{line: 2345, col: 5, offset: 75873},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 404, col: 5, offset: 12337},
-														run: (*parser).callonSectionTitleElement149,
+														pos: position{line: 404, col: 5, offset: 12405},
+														run: (*parser).callonSectionTitleLineElement143,
 														expr: &seqExpr{
-															pos: position{line: 404, col: 5, offset: 12337},
+															pos: position{line: 404, col: 5, offset: 12405},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 404, col: 5, offset: 12337},
+																	pos:        position{line: 404, col: 5, offset: 12405},
 																	val:        "[[",
 																	ignoreCase: false,
 																	want:       "\"[[\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 405, col: 5, offset: 12347},
+																	pos:   position{line: 405, col: 5, offset: 12415},
 																	label: "id",
 																	expr: &actionExpr{
-																		pos: position{line: 406, col: 9, offset: 12360},
-																		run: (*parser).callonSectionTitleElement153,
+																		pos: position{line: 406, col: 9, offset: 12428},
+																		run: (*parser).callonSectionTitleLineElement147,
 																		expr: &labeledExpr{
-																			pos:   position{line: 406, col: 9, offset: 12360},
+																			pos:   position{line: 406, col: 9, offset: 12428},
 																			label: "elements",
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 406, col: 18, offset: 12369},
+																				pos: position{line: 406, col: 18, offset: 12437},
 																				expr: &choiceExpr{
-																					pos: position{line: 407, col: 13, offset: 12383},
+																					pos: position{line: 407, col: 13, offset: 12451},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 407, col: 14, offset: 12384},
-																							run: (*parser).callonSectionTitleElement157,
+																							pos: position{line: 407, col: 14, offset: 12452},
+																							run: (*parser).callonSectionTitleLineElement151,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 407, col: 14, offset: 12384},
+																								pos: position{line: 407, col: 14, offset: 12452},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 407, col: 14, offset: 12384},
+																									pos:        position{line: 407, col: 14, offset: 12452},
 																									val:        "[^=\\r\\n�{]]",
 																									chars:      []rune{'=', '\r', '\n', '�', '{', ']'},
 																									ignoreCase: false,
@@ -43742,27 +43857,27 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 1198, col: 23, offset: 36977},
-																							run: (*parser).callonSectionTitleElement160,
+																							pos: position{line: 1198, col: 23, offset: 37045},
+																							run: (*parser).callonSectionTitleLineElement154,
 																							expr: &seqExpr{
-																								pos: position{line: 1198, col: 23, offset: 36977},
+																								pos: position{line: 1198, col: 23, offset: 37045},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 1196, col: 32, offset: 36945},
+																										pos:        position{line: 1196, col: 32, offset: 37013},
 																										val:        "�",
 																										ignoreCase: false,
 																										want:       "\"�\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1198, col: 51, offset: 37005},
+																										pos:   position{line: 1198, col: 51, offset: 37073},
 																										label: "ref",
 																										expr: &actionExpr{
-																											pos: position{line: 1198, col: 56, offset: 37010},
-																											run: (*parser).callonSectionTitleElement164,
+																											pos: position{line: 1198, col: 56, offset: 37078},
+																											run: (*parser).callonSectionTitleLineElement158,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1198, col: 56, offset: 37010},
+																												pos: position{line: 1198, col: 56, offset: 37078},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1198, col: 56, offset: 37010},
+																													pos:        position{line: 1198, col: 56, offset: 37078},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -43772,7 +43887,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1196, col: 32, offset: 36945},
+																										pos:        position{line: 1196, col: 32, offset: 37013},
 																										val:        "�",
 																										ignoreCase: false,
 																										want:       "\"�\"",
@@ -43781,39 +43896,39 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 636, col: 5, offset: 20109},
-																							run: (*parser).callonSectionTitleElement168,
+																							pos: position{line: 636, col: 5, offset: 20177},
+																							run: (*parser).callonSectionTitleLineElement162,
 																							expr: &seqExpr{
-																								pos: position{line: 636, col: 5, offset: 20109},
+																								pos: position{line: 636, col: 5, offset: 20177},
 																								exprs: []interface{}{
 																									&andCodeExpr{
-																										pos: position{line: 636, col: 5, offset: 20109},
-																										run: (*parser).callonSectionTitleElement170,
+																										pos: position{line: 636, col: 5, offset: 20177},
+																										run: (*parser).callonSectionTitleLineElement164,
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 639, col: 5, offset: 20181},
+																										pos:   position{line: 639, col: 5, offset: 20249},
 																										label: "element",
 																										expr: &choiceExpr{
-																											pos: position{line: 639, col: 14, offset: 20190},
+																											pos: position{line: 639, col: 14, offset: 20258},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 645, col: 5, offset: 20319},
-																													run: (*parser).callonSectionTitleElement173,
+																													pos: position{line: 645, col: 5, offset: 20387},
+																													run: (*parser).callonSectionTitleLineElement167,
 																													expr: &seqExpr{
-																														pos: position{line: 645, col: 5, offset: 20319},
+																														pos: position{line: 645, col: 5, offset: 20387},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 645, col: 5, offset: 20319},
+																																pos:        position{line: 645, col: 5, offset: 20387},
 																																val:        "\\{",
 																																ignoreCase: false,
 																																want:       "\"\\\\{\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 645, col: 13, offset: 20327},
+																																pos:   position{line: 645, col: 13, offset: 20395},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 318, col: 18, offset: 9729},
-																																	run: (*parser).callonSectionTitleElement177,
+																																	run: (*parser).callonSectionTitleLineElement171,
 																																	expr: &seqExpr{
 																																		pos: position{line: 318, col: 18, offset: 9729},
 																																		exprs: []interface{}{
@@ -43841,7 +43956,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 645, col: 32, offset: 20346},
+																																pos:        position{line: 645, col: 32, offset: 20414},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -43850,23 +43965,23 @@ var g = &grammar{
 																													},
 																												},
 																												&actionExpr{
-																													pos: position{line: 652, col: 5, offset: 20587},
-																													run: (*parser).callonSectionTitleElement183,
+																													pos: position{line: 652, col: 5, offset: 20655},
+																													run: (*parser).callonSectionTitleLineElement177,
 																													expr: &seqExpr{
-																														pos: position{line: 652, col: 5, offset: 20587},
+																														pos: position{line: 652, col: 5, offset: 20655},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 652, col: 5, offset: 20587},
+																																pos:        position{line: 652, col: 5, offset: 20655},
 																																val:        "{",
 																																ignoreCase: false,
 																																want:       "\"{\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 652, col: 9, offset: 20591},
+																																pos:   position{line: 652, col: 9, offset: 20659},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 318, col: 18, offset: 9729},
-																																	run: (*parser).callonSectionTitleElement187,
+																																	run: (*parser).callonSectionTitleLineElement181,
 																																	expr: &seqExpr{
 																																		pos: position{line: 318, col: 18, offset: 9729},
 																																		exprs: []interface{}{
@@ -43894,7 +44009,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 652, col: 28, offset: 20610},
+																																pos:        position{line: 652, col: 28, offset: 20678},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -43903,23 +44018,23 @@ var g = &grammar{
 																													},
 																												},
 																												&actionExpr{
-																													pos: position{line: 658, col: 25, offset: 20791},
-																													run: (*parser).callonSectionTitleElement193,
+																													pos: position{line: 658, col: 25, offset: 20859},
+																													run: (*parser).callonSectionTitleLineElement187,
 																													expr: &seqExpr{
-																														pos: position{line: 658, col: 25, offset: 20791},
+																														pos: position{line: 658, col: 25, offset: 20859},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 658, col: 25, offset: 20791},
+																																pos:        position{line: 658, col: 25, offset: 20859},
 																																val:        "{counter:",
 																																ignoreCase: false,
 																																want:       "\"{counter:\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 658, col: 37, offset: 20803},
+																																pos:   position{line: 658, col: 37, offset: 20871},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 318, col: 18, offset: 9729},
-																																	run: (*parser).callonSectionTitleElement197,
+																																	run: (*parser).callonSectionTitleLineElement191,
 																																	expr: &seqExpr{
 																																		pos: position{line: 318, col: 18, offset: 9729},
 																																		exprs: []interface{}{
@@ -43947,33 +44062,33 @@ var g = &grammar{
 																																},
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 658, col: 56, offset: 20822},
+																																pos:   position{line: 658, col: 56, offset: 20890},
 																																label: "start",
 																																expr: &zeroOrOneExpr{
-																																	pos: position{line: 658, col: 62, offset: 20828},
+																																	pos: position{line: 658, col: 62, offset: 20896},
 																																	expr: &actionExpr{
-																																		pos: position{line: 666, col: 17, offset: 21123},
-																																		run: (*parser).callonSectionTitleElement204,
+																																		pos: position{line: 666, col: 17, offset: 21191},
+																																		run: (*parser).callonSectionTitleLineElement198,
 																																		expr: &seqExpr{
-																																			pos: position{line: 666, col: 17, offset: 21123},
+																																			pos: position{line: 666, col: 17, offset: 21191},
 																																			exprs: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 666, col: 17, offset: 21123},
+																																					pos:        position{line: 666, col: 17, offset: 21191},
 																																					val:        ":",
 																																					ignoreCase: false,
 																																					want:       "\":\"",
 																																				},
 																																				&labeledExpr{
-																																					pos:   position{line: 666, col: 21, offset: 21127},
+																																					pos:   position{line: 666, col: 21, offset: 21195},
 																																					label: "start",
 																																					expr: &choiceExpr{
-																																						pos: position{line: 666, col: 28, offset: 21134},
+																																						pos: position{line: 666, col: 28, offset: 21202},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 666, col: 28, offset: 21134},
-																																								run: (*parser).callonSectionTitleElement209,
+																																								pos: position{line: 666, col: 28, offset: 21202},
+																																								run: (*parser).callonSectionTitleLineElement203,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 666, col: 28, offset: 21134},
+																																									pos:        position{line: 666, col: 28, offset: 21202},
 																																									val:        "[A-Za-z]",
 																																									ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																									ignoreCase: false,
@@ -43981,12 +44096,12 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&actionExpr{
-																																								pos: position{line: 668, col: 9, offset: 21188},
-																																								run: (*parser).callonSectionTitleElement211,
+																																								pos: position{line: 668, col: 9, offset: 21256},
+																																								run: (*parser).callonSectionTitleLineElement205,
 																																								expr: &oneOrMoreExpr{
-																																									pos: position{line: 668, col: 9, offset: 21188},
+																																									pos: position{line: 668, col: 9, offset: 21256},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 668, col: 9, offset: 21188},
+																																										pos:        position{line: 668, col: 9, offset: 21256},
 																																										val:        "[0-9]",
 																																										ranges:     []rune{'0', '9'},
 																																										ignoreCase: false,
@@ -44003,7 +44118,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 658, col: 78, offset: 20844},
+																																pos:        position{line: 658, col: 78, offset: 20912},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -44012,23 +44127,23 @@ var g = &grammar{
 																													},
 																												},
 																												&actionExpr{
-																													pos: position{line: 662, col: 25, offset: 20962},
-																													run: (*parser).callonSectionTitleElement215,
+																													pos: position{line: 662, col: 25, offset: 21030},
+																													run: (*parser).callonSectionTitleLineElement209,
 																													expr: &seqExpr{
-																														pos: position{line: 662, col: 25, offset: 20962},
+																														pos: position{line: 662, col: 25, offset: 21030},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 662, col: 25, offset: 20962},
+																																pos:        position{line: 662, col: 25, offset: 21030},
 																																val:        "{counter2:",
 																																ignoreCase: false,
 																																want:       "\"{counter2:\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 662, col: 38, offset: 20975},
+																																pos:   position{line: 662, col: 38, offset: 21043},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 318, col: 18, offset: 9729},
-																																	run: (*parser).callonSectionTitleElement219,
+																																	run: (*parser).callonSectionTitleLineElement213,
 																																	expr: &seqExpr{
 																																		pos: position{line: 318, col: 18, offset: 9729},
 																																		exprs: []interface{}{
@@ -44056,33 +44171,33 @@ var g = &grammar{
 																																},
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 662, col: 57, offset: 20994},
+																																pos:   position{line: 662, col: 57, offset: 21062},
 																																label: "start",
 																																expr: &zeroOrOneExpr{
-																																	pos: position{line: 662, col: 63, offset: 21000},
+																																	pos: position{line: 662, col: 63, offset: 21068},
 																																	expr: &actionExpr{
-																																		pos: position{line: 666, col: 17, offset: 21123},
-																																		run: (*parser).callonSectionTitleElement226,
+																																		pos: position{line: 666, col: 17, offset: 21191},
+																																		run: (*parser).callonSectionTitleLineElement220,
 																																		expr: &seqExpr{
-																																			pos: position{line: 666, col: 17, offset: 21123},
+																																			pos: position{line: 666, col: 17, offset: 21191},
 																																			exprs: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 666, col: 17, offset: 21123},
+																																					pos:        position{line: 666, col: 17, offset: 21191},
 																																					val:        ":",
 																																					ignoreCase: false,
 																																					want:       "\":\"",
 																																				},
 																																				&labeledExpr{
-																																					pos:   position{line: 666, col: 21, offset: 21127},
+																																					pos:   position{line: 666, col: 21, offset: 21195},
 																																					label: "start",
 																																					expr: &choiceExpr{
-																																						pos: position{line: 666, col: 28, offset: 21134},
+																																						pos: position{line: 666, col: 28, offset: 21202},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 666, col: 28, offset: 21134},
-																																								run: (*parser).callonSectionTitleElement231,
+																																								pos: position{line: 666, col: 28, offset: 21202},
+																																								run: (*parser).callonSectionTitleLineElement225,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 666, col: 28, offset: 21134},
+																																									pos:        position{line: 666, col: 28, offset: 21202},
 																																									val:        "[A-Za-z]",
 																																									ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																									ignoreCase: false,
@@ -44090,12 +44205,12 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&actionExpr{
-																																								pos: position{line: 668, col: 9, offset: 21188},
-																																								run: (*parser).callonSectionTitleElement233,
+																																								pos: position{line: 668, col: 9, offset: 21256},
+																																								run: (*parser).callonSectionTitleLineElement227,
 																																								expr: &oneOrMoreExpr{
-																																									pos: position{line: 668, col: 9, offset: 21188},
+																																									pos: position{line: 668, col: 9, offset: 21256},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 668, col: 9, offset: 21188},
+																																										pos:        position{line: 668, col: 9, offset: 21256},
 																																										val:        "[0-9]",
 																																										ranges:     []rune{'0', '9'},
 																																										ignoreCase: false,
@@ -44112,7 +44227,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 662, col: 79, offset: 21016},
+																																pos:        position{line: 662, col: 79, offset: 21084},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -44127,10 +44242,10 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 412, col: 16, offset: 12617},
-																							run: (*parser).callonSectionTitleElement237,
+																							pos: position{line: 412, col: 16, offset: 12685},
+																							run: (*parser).callonSectionTitleLineElement231,
 																							expr: &litMatcher{
-																								pos:        position{line: 412, col: 16, offset: 12617},
+																								pos:        position{line: 412, col: 16, offset: 12685},
 																								val:        "{",
 																								ignoreCase: false,
 																								want:       "\"{\"",
@@ -44143,7 +44258,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 418, col: 5, offset: 12803},
+																	pos:        position{line: 418, col: 5, offset: 12871},
 																	val:        "]]",
 																	ignoreCase: false,
 																	want:       "\"]]\"",
@@ -44153,12 +44268,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2335, col: 26, offset: 75549},
+													pos: position{line: 2345, col: 26, offset: 75894},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
-														run: (*parser).callonSectionTitleElement241,
+														pos: position{line: 2862, col: 10, offset: 90584},
+														run: (*parser).callonSectionTitleLineElement235,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2862, col: 10, offset: 90584},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -44167,30 +44282,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 2335, col: 33, offset: 75556},
+													pos: position{line: 2345, col: 33, offset: 75901},
 													expr: &choiceExpr{
-														pos: position{line: 2874, col: 8, offset: 90637},
+														pos: position{line: 2884, col: 8, offset: 90982},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
-																run: (*parser).callonSectionTitleElement245,
+																pos: position{line: 2871, col: 12, offset: 90755},
+																run: (*parser).callonSectionTitleLineElement239,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2871, col: 13, offset: 90756},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2871, col: 13, offset: 90756},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2871, col: 20, offset: 90763},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2871, col: 29, offset: 90772},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -44199,9 +44314,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2881, col: 8, offset: 90932},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2881, col: 9, offset: 90933,
 																},
 															},
 														},
@@ -44211,27 +44326,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1253, col: 5, offset: 38737},
-										run: (*parser).callonSectionTitleElement252,
+										pos: position{line: 1253, col: 5, offset: 38805},
+										run: (*parser).callonSectionTitleLineElement246,
 										expr: &seqExpr{
-											pos: position{line: 1253, col: 5, offset: 38737},
+											pos: position{line: 1253, col: 5, offset: 38805},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1253, col: 5, offset: 38737},
+													pos:        position{line: 1253, col: 5, offset: 38805},
 													val:        "\\[[",
 													ignoreCase: false,
 													want:       "\"\\\\[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1253, col: 14, offset: 38746},
+													pos:   position{line: 1253, col: 14, offset: 38814},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2837, col: 7, offset: 89891},
-														run: (*parser).callonSectionTitleElement256,
+														pos: position{line: 2847, col: 7, offset: 90236},
+														run: (*parser).callonSectionTitleLineElement250,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2837, col: 7, offset: 89891},
+															pos: position{line: 2847, col: 7, offset: 90236},
 															expr: &charClassMatcher{
-																pos:        position{line: 2837, col: 7, offset: 89891},
+																pos:        position{line: 2847, col: 7, offset: 90236},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -44241,7 +44356,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1253, col: 22, offset: 38754},
+													pos:        position{line: 1253, col: 22, offset: 38822},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -44250,27 +44365,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1258, col: 5, offset: 38873},
-										run: (*parser).callonSectionTitleElement260,
+										pos: position{line: 1258, col: 5, offset: 38941},
+										run: (*parser).callonSectionTitleLineElement254,
 										expr: &seqExpr{
-											pos: position{line: 1258, col: 5, offset: 38873},
+											pos: position{line: 1258, col: 5, offset: 38941},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1258, col: 5, offset: 38873},
+													pos:        position{line: 1258, col: 5, offset: 38941},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1258, col: 10, offset: 38878},
+													pos:   position{line: 1258, col: 10, offset: 38946},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2837, col: 7, offset: 89891},
-														run: (*parser).callonSectionTitleElement264,
+														pos: position{line: 2847, col: 7, offset: 90236},
+														run: (*parser).callonSectionTitleLineElement258,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2837, col: 7, offset: 89891},
+															pos: position{line: 2847, col: 7, offset: 90236},
 															expr: &charClassMatcher{
-																pos:        position{line: 2837, col: 7, offset: 89891},
+																pos:        position{line: 2847, col: 7, offset: 90236},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -44280,7 +44395,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1258, col: 18, offset: 38886},
+													pos:        position{line: 1258, col: 18, offset: 38954},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -44289,75 +44404,82 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2324, col: 11, offset: 75274},
+										pos:  position{line: 2331, col: 11, offset: 75578},
 										name: "InlineFootnote",
 									},
-									&actionExpr{
-										pos: position{line: 2791, col: 12, offset: 88547},
-										run: (*parser).callonSectionTitleElement269,
-										expr: &charClassMatcher{
-											pos:        position{line: 2791, col: 12, offset: 88547},
-											val:        "[^\\r\\n]",
-											chars:      []rune{'\r', '\n'},
-											ignoreCase: false,
-											inverted:   true,
-										},
-									},
 								},
 							},
 						},
+						&labeledExpr{
+							pos:   position{line: 2332, col: 5, offset: 75598},
+							label: "end",
+							expr: &actionExpr{
+								pos: position{line: 2887, col: 16, offset: 91106},
+								run: (*parser).callonSectionTitleLineElement264,
+								expr: &litMatcher{
+									pos:        position{line: 2887, col: 16, offset: 91106},
+									val:        "",
+									ignoreCase: false,
+									want:       "\"\"",
+								},
+							},
+						},
+						&andCodeExpr{
+							pos: position{line: 2333, col: 5, offset: 75620},
+							run: (*parser).callonSectionTitleLineElement266,
+						},
 					},
 				},
 			},
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2345, col: 1, offset: 75818},
+			pos:  position{line: 2355, col: 1, offset: 76163},
 			expr: &actionExpr{
-				pos: position{line: 2346, col: 5, offset: 75905},
+				pos: position{line: 2356, col: 5, offset: 76250},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2346, col: 5, offset: 75905},
+					pos: position{line: 2356, col: 5, offset: 76250},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2346, col: 5, offset: 75905},
+							pos:   position{line: 2356, col: 5, offset: 76250},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2346, col: 14, offset: 75914},
+								pos: position{line: 2356, col: 14, offset: 76259},
 								expr: &actionExpr{
-									pos: position{line: 2348, col: 9, offset: 75940},
+									pos: position{line: 2358, col: 9, offset: 76285},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2348, col: 9, offset: 75940},
+										pos: position{line: 2358, col: 9, offset: 76285},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2869, col: 11, offset: 90573},
+												pos: position{line: 2879, col: 11, offset: 90918},
 												expr: &anyMatcher{
-													line: 2869, col: 13, offset: 90575,
+													line: 2879, col: 13, offset: 90920,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2349, col: 9, offset: 75955},
+												pos:   position{line: 2359, col: 9, offset: 76300},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2350, col: 13, offset: 75977},
+													pos: position{line: 2360, col: 13, offset: 76322},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2751, col: 5, offset: 87481},
+															pos: position{line: 2761, col: 5, offset: 87826},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2751, col: 5, offset: 87481},
+																pos: position{line: 2761, col: 5, offset: 87826},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 2751, col: 5, offset: 87481},
+																		pos:   position{line: 2761, col: 5, offset: 87826},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2751, col: 11, offset: 87487},
+																			pos: position{line: 2761, col: 11, offset: 87832},
 																			run: (*parser).callonNormalGroup14,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2751, col: 11, offset: 87487},
+																				pos: position{line: 2761, col: 11, offset: 87832},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2751, col: 11, offset: 87487},
+																					pos:        position{line: 2761, col: 11, offset: 87832},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -44367,36 +44489,36 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2754, col: 5, offset: 87545},
+																		pos: position{line: 2764, col: 5, offset: 87890},
 																		expr: &seqExpr{
-																			pos: position{line: 2755, col: 9, offset: 87556},
+																			pos: position{line: 2765, col: 9, offset: 87901},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2755, col: 9, offset: 87556},
+																					pos:        position{line: 2765, col: 9, offset: 87901},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2756, col: 9, offset: 87605},
+																					pos: position{line: 2766, col: 9, offset: 87950},
 																					run: (*parser).callonNormalGroup20,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2760, col: 5, offset: 87685},
+																		pos: position{line: 2770, col: 5, offset: 88030},
 																		expr: &seqExpr{
-																			pos: position{line: 2761, col: 9, offset: 87696},
+																			pos: position{line: 2771, col: 9, offset: 88041},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2761, col: 9, offset: 87696},
+																					pos:        position{line: 2771, col: 9, offset: 88041},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2761, col: 13, offset: 87700},
+																					pos:        position{line: 2771, col: 13, offset: 88045},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -44409,12 +44531,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2856, col: 11, offset: 90300},
+															pos: position{line: 2866, col: 11, offset: 90645},
 															run: (*parser).callonNormalGroup25,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2856, col: 11, offset: 90300},
+																pos: position{line: 2866, col: 11, offset: 90645},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2856, col: 11, offset: 90300},
+																	pos:        position{line: 2866, col: 11, offset: 90645},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -44423,25 +44545,25 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2352, col: 15, offset: 76023},
+															pos:  position{line: 2362, col: 15, offset: 76368},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2480, col: 5, offset: 79934},
+															pos: position{line: 2490, col: 5, offset: 80279},
 															run: (*parser).callonNormalGroup29,
 															expr: &seqExpr{
-																pos: position{line: 2480, col: 5, offset: 79934},
+																pos: position{line: 2490, col: 5, offset: 80279},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2480, col: 5, offset: 79934},
+																		pos:        position{line: 2490, col: 5, offset: 80279},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2480, col: 10, offset: 79939},
+																		pos: position{line: 2490, col: 10, offset: 80284},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2480, col: 11, offset: 79940},
+																			pos:        position{line: 2490, col: 11, offset: 80285},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -44452,29 +44574,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2486, col: 5, offset: 80132},
+															pos: position{line: 2496, col: 5, offset: 80477},
 															run: (*parser).callonNormalGroup34,
 															expr: &seqExpr{
-																pos: position{line: 2486, col: 5, offset: 80132},
+																pos: position{line: 2496, col: 5, offset: 80477},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2486, col: 5, offset: 80132},
+																		pos: position{line: 2496, col: 5, offset: 80477},
 																		run: (*parser).callonNormalGroup36,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2489, col: 5, offset: 80203},
+																		pos: position{line: 2499, col: 5, offset: 80548},
 																		run: (*parser).callonNormalGroup37,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2493, col: 5, offset: 80328},
+																		pos:        position{line: 2503, col: 5, offset: 80673},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2493, col: 9, offset: 80332},
+																		pos: position{line: 2503, col: 9, offset: 80677},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2493, col: 10, offset: 80333},
+																			pos:        position{line: 2503, col: 10, offset: 80678},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -44485,27 +44607,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2769, col: 5, offset: 87893},
+															pos: position{line: 2779, col: 5, offset: 88238},
 															run: (*parser).callonNormalGroup41,
 															expr: &choiceExpr{
-																pos: position{line: 2770, col: 9, offset: 87903},
+																pos: position{line: 2780, col: 9, offset: 88248},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2770, col: 10, offset: 87904},
+																		pos:        position{line: 2780, col: 10, offset: 88249},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2772, col: 13, offset: 88001},
+																		pos: position{line: 2782, col: 13, offset: 88346},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2772, col: 13, offset: 88001},
+																				pos: position{line: 2782, col: 13, offset: 88346},
 																				run: (*parser).callonNormalGroup45,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2775, col: 13, offset: 88101},
+																				pos:        position{line: 2785, col: 13, offset: 88446},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -44513,20 +44635,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2775, col: 19, offset: 88107},
+																		pos:        position{line: 2785, col: 19, offset: 88452},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2778, col: 13, offset: 88145},
+																		pos: position{line: 2788, col: 13, offset: 88490},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2778, col: 13, offset: 88145},
+																				pos: position{line: 2788, col: 13, offset: 88490},
 																				run: (*parser).callonNormalGroup49,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2781, col: 14, offset: 88238},
+																				pos:        position{line: 2791, col: 14, offset: 88583},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -44535,18 +44657,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2783, col: 12, offset: 88282},
+																		pos: position{line: 2793, col: 12, offset: 88627},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2783, col: 12, offset: 88282},
+																				pos:        position{line: 2793, col: 12, offset: 88627},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2783, col: 16, offset: 88286},
+																				pos: position{line: 2793, col: 16, offset: 88631},
 																				expr: &litMatcher{
-																					pos:        position{line: 2783, col: 17, offset: 88287},
+																					pos:        position{line: 2793, col: 17, offset: 88632},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -44558,25 +44680,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2871, col: 12, offset: 90755},
 															run: (*parser).callonNormalGroup55,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2871, col: 13, offset: 90756},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2871, col: 13, offset: 90756},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2871, col: 20, offset: 90763},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2871, col: 29, offset: 90772},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -44585,35 +44707,35 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 636, col: 5, offset: 20109},
+															pos: position{line: 636, col: 5, offset: 20177},
 															run: (*parser).callonNormalGroup60,
 															expr: &seqExpr{
-																pos: position{line: 636, col: 5, offset: 20109},
+																pos: position{line: 636, col: 5, offset: 20177},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 636, col: 5, offset: 20109},
+																		pos: position{line: 636, col: 5, offset: 20177},
 																		run: (*parser).callonNormalGroup62,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 639, col: 5, offset: 20181},
+																		pos:   position{line: 639, col: 5, offset: 20249},
 																		label: "element",
 																		expr: &choiceExpr{
-																			pos: position{line: 639, col: 14, offset: 20190},
+																			pos: position{line: 639, col: 14, offset: 20258},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 645, col: 5, offset: 20319},
+																					pos: position{line: 645, col: 5, offset: 20387},
 																					run: (*parser).callonNormalGroup65,
 																					expr: &seqExpr{
-																						pos: position{line: 645, col: 5, offset: 20319},
+																						pos: position{line: 645, col: 5, offset: 20387},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 645, col: 5, offset: 20319},
+																								pos:        position{line: 645, col: 5, offset: 20387},
 																								val:        "\\{",
 																								ignoreCase: false,
 																								want:       "\"\\\\{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 645, col: 13, offset: 20327},
+																								pos:   position{line: 645, col: 13, offset: 20395},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9729},
@@ -44645,7 +44767,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 645, col: 32, offset: 20346},
+																								pos:        position{line: 645, col: 32, offset: 20414},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -44654,19 +44776,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 652, col: 5, offset: 20587},
+																					pos: position{line: 652, col: 5, offset: 20655},
 																					run: (*parser).callonNormalGroup75,
 																					expr: &seqExpr{
-																						pos: position{line: 652, col: 5, offset: 20587},
+																						pos: position{line: 652, col: 5, offset: 20655},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 652, col: 5, offset: 20587},
+																								pos:        position{line: 652, col: 5, offset: 20655},
 																								val:        "{",
 																								ignoreCase: false,
 																								want:       "\"{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 652, col: 9, offset: 20591},
+																								pos:   position{line: 652, col: 9, offset: 20659},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9729},
@@ -44698,7 +44820,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 652, col: 28, offset: 20610},
+																								pos:        position{line: 652, col: 28, offset: 20678},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -44707,19 +44829,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 658, col: 25, offset: 20791},
+																					pos: position{line: 658, col: 25, offset: 20859},
 																					run: (*parser).callonNormalGroup85,
 																					expr: &seqExpr{
-																						pos: position{line: 658, col: 25, offset: 20791},
+																						pos: position{line: 658, col: 25, offset: 20859},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 658, col: 25, offset: 20791},
+																								pos:        position{line: 658, col: 25, offset: 20859},
 																								val:        "{counter:",
 																								ignoreCase: false,
 																								want:       "\"{counter:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 658, col: 37, offset: 20803},
+																								pos:   position{line: 658, col: 37, offset: 20871},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9729},
@@ -44751,33 +44873,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 658, col: 56, offset: 20822},
+																								pos:   position{line: 658, col: 56, offset: 20890},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 658, col: 62, offset: 20828},
+																									pos: position{line: 658, col: 62, offset: 20896},
 																									expr: &actionExpr{
-																										pos: position{line: 666, col: 17, offset: 21123},
+																										pos: position{line: 666, col: 17, offset: 21191},
 																										run: (*parser).callonNormalGroup96,
 																										expr: &seqExpr{
-																											pos: position{line: 666, col: 17, offset: 21123},
+																											pos: position{line: 666, col: 17, offset: 21191},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 666, col: 17, offset: 21123},
+																													pos:        position{line: 666, col: 17, offset: 21191},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 666, col: 21, offset: 21127},
+																													pos:   position{line: 666, col: 21, offset: 21195},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 666, col: 28, offset: 21134},
+																														pos: position{line: 666, col: 28, offset: 21202},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 666, col: 28, offset: 21134},
+																																pos: position{line: 666, col: 28, offset: 21202},
 																																run: (*parser).callonNormalGroup101,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 666, col: 28, offset: 21134},
+																																	pos:        position{line: 666, col: 28, offset: 21202},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -44785,12 +44907,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 668, col: 9, offset: 21188},
+																																pos: position{line: 668, col: 9, offset: 21256},
 																																run: (*parser).callonNormalGroup103,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 668, col: 9, offset: 21188},
+																																	pos: position{line: 668, col: 9, offset: 21256},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 668, col: 9, offset: 21188},
+																																		pos:        position{line: 668, col: 9, offset: 21256},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -44807,7 +44929,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 658, col: 78, offset: 20844},
+																								pos:        position{line: 658, col: 78, offset: 20912},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -44816,19 +44938,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 662, col: 25, offset: 20962},
+																					pos: position{line: 662, col: 25, offset: 21030},
 																					run: (*parser).callonNormalGroup107,
 																					expr: &seqExpr{
-																						pos: position{line: 662, col: 25, offset: 20962},
+																						pos: position{line: 662, col: 25, offset: 21030},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 662, col: 25, offset: 20962},
+																								pos:        position{line: 662, col: 25, offset: 21030},
 																								val:        "{counter2:",
 																								ignoreCase: false,
 																								want:       "\"{counter2:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 662, col: 38, offset: 20975},
+																								pos:   position{line: 662, col: 38, offset: 21043},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9729},
@@ -44860,33 +44982,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 662, col: 57, offset: 20994},
+																								pos:   position{line: 662, col: 57, offset: 21062},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 662, col: 63, offset: 21000},
+																									pos: position{line: 662, col: 63, offset: 21068},
 																									expr: &actionExpr{
-																										pos: position{line: 666, col: 17, offset: 21123},
+																										pos: position{line: 666, col: 17, offset: 21191},
 																										run: (*parser).callonNormalGroup118,
 																										expr: &seqExpr{
-																											pos: position{line: 666, col: 17, offset: 21123},
+																											pos: position{line: 666, col: 17, offset: 21191},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 666, col: 17, offset: 21123},
+																													pos:        position{line: 666, col: 17, offset: 21191},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 666, col: 21, offset: 21127},
+																													pos:   position{line: 666, col: 21, offset: 21195},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 666, col: 28, offset: 21134},
+																														pos: position{line: 666, col: 28, offset: 21202},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 666, col: 28, offset: 21134},
+																																pos: position{line: 666, col: 28, offset: 21202},
 																																run: (*parser).callonNormalGroup123,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 666, col: 28, offset: 21134},
+																																	pos:        position{line: 666, col: 28, offset: 21202},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -44894,12 +45016,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 668, col: 9, offset: 21188},
+																																pos: position{line: 668, col: 9, offset: 21256},
 																																run: (*parser).callonNormalGroup125,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 668, col: 9, offset: 21188},
+																																	pos: position{line: 668, col: 9, offset: 21256},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 668, col: 9, offset: 21188},
+																																		pos:        position{line: 668, col: 9, offset: 21256},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -44916,7 +45038,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 662, col: 79, offset: 21016},
+																								pos:        position{line: 662, col: 79, offset: 21084},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -44931,35 +45053,35 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2357, col: 15, offset: 76190},
+															pos:  position{line: 2367, col: 15, offset: 76535},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2358, col: 15, offset: 76210},
+															pos:  position{line: 2368, col: 15, offset: 76555},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2359, col: 15, offset: 76299},
+															pos:  position{line: 2369, col: 15, offset: 76644},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2449, col: 5, offset: 78763},
+															pos: position{line: 2459, col: 5, offset: 79108},
 															run: (*parser).callonNormalGroup132,
 															expr: &seqExpr{
-																pos: position{line: 2449, col: 5, offset: 78763},
+																pos: position{line: 2459, col: 5, offset: 79108},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2449, col: 5, offset: 78763},
+																		pos: position{line: 2459, col: 5, offset: 79108},
 																		run: (*parser).callonNormalGroup134,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2452, col: 5, offset: 78839},
+																		pos:   position{line: 2462, col: 5, offset: 79184},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2453, col: 9, offset: 78857},
+																			pos: position{line: 2463, col: 9, offset: 79202},
 																			run: (*parser).callonNormalGroup136,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2453, col: 10, offset: 78858},
+																				pos:        position{line: 2463, col: 10, offset: 79203},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -44971,32 +45093,32 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1206, col: 5, offset: 37423},
+															pos: position{line: 1206, col: 5, offset: 37491},
 															run: (*parser).callonNormalGroup138,
 															expr: &seqExpr{
-																pos: position{line: 1206, col: 5, offset: 37423},
+																pos: position{line: 1206, col: 5, offset: 37491},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1206, col: 5, offset: 37423},
+																		pos: position{line: 1206, col: 5, offset: 37491},
 																		run: (*parser).callonNormalGroup140,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1209, col: 5, offset: 37499},
+																		pos:        position{line: 1209, col: 5, offset: 37567},
 																		val:        "+",
 																		ignoreCase: false,
 																		want:       "\"+\"",
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1210, col: 5, offset: 37507},
+																		pos: position{line: 1210, col: 5, offset: 37575},
 																		run: (*parser).callonNormalGroup142,
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1214, col: 5, offset: 37594},
+																		pos: position{line: 1214, col: 5, offset: 37662},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
+																			pos: position{line: 2862, col: 10, offset: 90584},
 																			run: (*parser).callonNormalGroup144,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2862, col: 10, offset: 90584},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45005,30 +45127,30 @@ var g = &grammar{
 																		},
 																	},
 																	&andExpr{
-																		pos: position{line: 1214, col: 12, offset: 37601},
+																		pos: position{line: 1214, col: 12, offset: 37669},
 																		expr: &choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2884, col: 8, offset: 90982},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2871, col: 12, offset: 90755},
 																					run: (*parser).callonNormalGroup148,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2871, col: 13, offset: 90756},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2871, col: 13, offset: 90756},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2871, col: 20, offset: 90763},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2871, col: 29, offset: 90772},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -45037,9 +45159,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2881, col: 8, offset: 90932},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2881, col: 9, offset: 90933,
 																					},
 																				},
 																			},
@@ -45049,31 +45171,31 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2362, col: 15, offset: 76481},
+															pos:  position{line: 2372, col: 15, offset: 76826},
 															name: "InlinePassthrough",
 														},
 														&actionExpr{
-															pos: position{line: 1198, col: 23, offset: 36977},
+															pos: position{line: 1198, col: 23, offset: 37045},
 															run: (*parser).callonNormalGroup156,
 															expr: &seqExpr{
-																pos: position{line: 1198, col: 23, offset: 36977},
+																pos: position{line: 1198, col: 23, offset: 37045},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1196, col: 32, offset: 36945},
+																		pos:        position{line: 1196, col: 32, offset: 37013},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1198, col: 51, offset: 37005},
+																		pos:   position{line: 1198, col: 51, offset: 37073},
 																		label: "ref",
 																		expr: &actionExpr{
-																			pos: position{line: 1198, col: 56, offset: 37010},
+																			pos: position{line: 1198, col: 56, offset: 37078},
 																			run: (*parser).callonNormalGroup160,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1198, col: 56, offset: 37010},
+																				pos: position{line: 1198, col: 56, offset: 37078},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1198, col: 56, offset: 37010},
+																					pos:        position{line: 1198, col: 56, offset: 37078},
 																					val:        "[0-9]",
 																					ranges:     []rune{'0', '9'},
 																					ignoreCase: false,
@@ -45083,7 +45205,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1196, col: 32, offset: 36945},
+																		pos:        position{line: 1196, col: 32, offset: 37013},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
@@ -45092,10 +45214,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2791, col: 12, offset: 88547},
+															pos: position{line: 2801, col: 12, offset: 88892},
 															run: (*parser).callonNormalGroup164,
 															expr: &charClassMatcher{
-																pos:        position{line: 2791, col: 12, offset: 88547},
+																pos:        position{line: 2801, col: 12, offset: 88892},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -45111,9 +45233,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2871, col: 8, offset: 90587},
+							pos: position{line: 2881, col: 8, offset: 90932},
 							expr: &anyMatcher{
-								line: 2871, col: 9, offset: 90588,
+								line: 2881, col: 9, offset: 90933,
 							},
 						},
 					},
@@ -45122,28 +45244,28 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2373, col: 1, offset: 76919},
+			pos:  position{line: 2383, col: 1, offset: 77264},
 			expr: &actionExpr{
-				pos: position{line: 2374, col: 5, offset: 76952},
+				pos: position{line: 2384, col: 5, offset: 77297},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2374, col: 5, offset: 76952},
+					pos: position{line: 2384, col: 5, offset: 77297},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2374, col: 5, offset: 76952},
+							pos:   position{line: 2384, col: 5, offset: 77297},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2374, col: 14, offset: 76961},
+								pos: position{line: 2384, col: 14, offset: 77306},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2374, col: 15, offset: 76962},
+									pos:  position{line: 2384, col: 15, offset: 77307},
 									name: "AttributeStructuredValueElement",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2871, col: 8, offset: 90587},
+							pos: position{line: 2881, col: 8, offset: 90932},
 							expr: &anyMatcher{
-								line: 2871, col: 9, offset: 90588,
+								line: 2881, col: 9, offset: 90933,
 							},
 						},
 					},
@@ -45152,41 +45274,41 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2378, col: 1, offset: 77059},
+			pos:  position{line: 2388, col: 1, offset: 77404},
 			expr: &actionExpr{
-				pos: position{line: 2379, col: 5, offset: 77099},
+				pos: position{line: 2389, col: 5, offset: 77444},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2379, col: 5, offset: 77099},
+					pos: position{line: 2389, col: 5, offset: 77444},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2869, col: 11, offset: 90573},
+							pos: position{line: 2879, col: 11, offset: 90918},
 							expr: &anyMatcher{
-								line: 2869, col: 13, offset: 90575,
+								line: 2879, col: 13, offset: 90920,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2380, col: 5, offset: 77110},
+							pos:   position{line: 2390, col: 5, offset: 77455},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2381, col: 9, offset: 77128},
+								pos: position{line: 2391, col: 9, offset: 77473},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2751, col: 5, offset: 87481},
+										pos: position{line: 2761, col: 5, offset: 87826},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2751, col: 5, offset: 87481},
+											pos: position{line: 2761, col: 5, offset: 87826},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2751, col: 5, offset: 87481},
+													pos:   position{line: 2761, col: 5, offset: 87826},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2751, col: 11, offset: 87487},
+														pos: position{line: 2761, col: 11, offset: 87832},
 														run: (*parser).callonAttributeStructuredValueElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2751, col: 11, offset: 87487},
+															pos: position{line: 2761, col: 11, offset: 87832},
 															expr: &charClassMatcher{
-																pos:        position{line: 2751, col: 11, offset: 87487},
+																pos:        position{line: 2761, col: 11, offset: 87832},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45196,36 +45318,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2754, col: 5, offset: 87545},
+													pos: position{line: 2764, col: 5, offset: 87890},
 													expr: &seqExpr{
-														pos: position{line: 2755, col: 9, offset: 87556},
+														pos: position{line: 2765, col: 9, offset: 87901},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2755, col: 9, offset: 87556},
+																pos:        position{line: 2765, col: 9, offset: 87901},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2756, col: 9, offset: 87605},
+																pos: position{line: 2766, col: 9, offset: 87950},
 																run: (*parser).callonAttributeStructuredValueElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2760, col: 5, offset: 87685},
+													pos: position{line: 2770, col: 5, offset: 88030},
 													expr: &seqExpr{
-														pos: position{line: 2761, col: 9, offset: 87696},
+														pos: position{line: 2771, col: 9, offset: 88041},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2761, col: 9, offset: 87696},
+																pos:        position{line: 2771, col: 9, offset: 88041},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2761, col: 13, offset: 87700},
+																pos:        position{line: 2771, col: 13, offset: 88045},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45238,10 +45360,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2852, col: 10, offset: 90239},
+										pos: position{line: 2862, col: 10, offset: 90584},
 										run: (*parser).callonAttributeStructuredValueElement21,
 										expr: &charClassMatcher{
-											pos:        position{line: 2852, col: 10, offset: 90239},
+											pos:        position{line: 2862, col: 10, offset: 90584},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -45249,31 +45371,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2383, col: 11, offset: 77166},
+										pos:  position{line: 2393, col: 11, offset: 77511},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2769, col: 5, offset: 87893},
+										pos: position{line: 2779, col: 5, offset: 88238},
 										run: (*parser).callonAttributeStructuredValueElement24,
 										expr: &choiceExpr{
-											pos: position{line: 2770, col: 9, offset: 87903},
+											pos: position{line: 2780, col: 9, offset: 88248},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2770, col: 10, offset: 87904},
+													pos:        position{line: 2780, col: 10, offset: 88249},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2772, col: 13, offset: 88001},
+													pos: position{line: 2782, col: 13, offset: 88346},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2772, col: 13, offset: 88001},
+															pos: position{line: 2782, col: 13, offset: 88346},
 															run: (*parser).callonAttributeStructuredValueElement28,
 														},
 														&litMatcher{
-															pos:        position{line: 2775, col: 13, offset: 88101},
+															pos:        position{line: 2785, col: 13, offset: 88446},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -45281,20 +45403,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2775, col: 19, offset: 88107},
+													pos:        position{line: 2785, col: 19, offset: 88452},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2778, col: 13, offset: 88145},
+													pos: position{line: 2788, col: 13, offset: 88490},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2778, col: 13, offset: 88145},
+															pos: position{line: 2788, col: 13, offset: 88490},
 															run: (*parser).callonAttributeStructuredValueElement32,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2781, col: 14, offset: 88238},
+															pos:        position{line: 2791, col: 14, offset: 88583},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -45303,18 +45425,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2783, col: 12, offset: 88282},
+													pos: position{line: 2793, col: 12, offset: 88627},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2783, col: 12, offset: 88282},
+															pos:        position{line: 2793, col: 12, offset: 88627},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2783, col: 16, offset: 88286},
+															pos: position{line: 2793, col: 16, offset: 88631},
 															expr: &litMatcher{
-																pos:        position{line: 2783, col: 17, offset: 88287},
+																pos:        position{line: 2793, col: 17, offset: 88632},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -45326,31 +45448,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2385, col: 11, offset: 77239},
+										pos:  position{line: 2395, col: 11, offset: 77584},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2386, col: 11, offset: 77255},
+										pos:  position{line: 2396, col: 11, offset: 77600},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2449, col: 5, offset: 78763},
+										pos: position{line: 2459, col: 5, offset: 79108},
 										run: (*parser).callonAttributeStructuredValueElement40,
 										expr: &seqExpr{
-											pos: position{line: 2449, col: 5, offset: 78763},
+											pos: position{line: 2459, col: 5, offset: 79108},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2449, col: 5, offset: 78763},
+													pos: position{line: 2459, col: 5, offset: 79108},
 													run: (*parser).callonAttributeStructuredValueElement42,
 												},
 												&labeledExpr{
-													pos:   position{line: 2452, col: 5, offset: 78839},
+													pos:   position{line: 2462, col: 5, offset: 79184},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2453, col: 9, offset: 78857},
+														pos: position{line: 2463, col: 9, offset: 79202},
 														run: (*parser).callonAttributeStructuredValueElement44,
 														expr: &charClassMatcher{
-															pos:        position{line: 2453, col: 10, offset: 78858},
+															pos:        position{line: 2463, col: 10, offset: 79203},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -45362,27 +45484,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1198, col: 23, offset: 36977},
+										pos: position{line: 1198, col: 23, offset: 37045},
 										run: (*parser).callonAttributeStructuredValueElement46,
 										expr: &seqExpr{
-											pos: position{line: 1198, col: 23, offset: 36977},
+											pos: position{line: 1198, col: 23, offset: 37045},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1196, col: 32, offset: 36945},
+													pos:        position{line: 1196, col: 32, offset: 37013},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1198, col: 51, offset: 37005},
+													pos:   position{line: 1198, col: 51, offset: 37073},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1198, col: 56, offset: 37010},
+														pos: position{line: 1198, col: 56, offset: 37078},
 														run: (*parser).callonAttributeStructuredValueElement50,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1198, col: 56, offset: 37010},
+															pos: position{line: 1198, col: 56, offset: 37078},
 															expr: &charClassMatcher{
-																pos:        position{line: 1198, col: 56, offset: 37010},
+																pos:        position{line: 1198, col: 56, offset: 37078},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -45392,7 +45514,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1196, col: 32, offset: 36945},
+													pos:        position{line: 1196, col: 32, offset: 37013},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
@@ -45401,25 +45523,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2861, col: 12, offset: 90410},
+										pos: position{line: 2871, col: 12, offset: 90755},
 										run: (*parser).callonAttributeStructuredValueElement54,
 										expr: &choiceExpr{
-											pos: position{line: 2861, col: 13, offset: 90411},
+											pos: position{line: 2871, col: 13, offset: 90756},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2861, col: 13, offset: 90411},
+													pos:        position{line: 2871, col: 13, offset: 90756},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2861, col: 20, offset: 90418},
+													pos:        position{line: 2871, col: 20, offset: 90763},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2861, col: 29, offset: 90427},
+													pos:        position{line: 2871, col: 29, offset: 90772},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -45428,10 +45550,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2791, col: 12, offset: 88547},
+										pos: position{line: 2801, col: 12, offset: 88892},
 										run: (*parser).callonAttributeStructuredValueElement59,
 										expr: &charClassMatcher{
-											pos:        position{line: 2791, col: 12, offset: 88547},
+											pos:        position{line: 2801, col: 12, offset: 88892},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -45447,73 +45569,73 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2397, col: 1, offset: 77525},
+			pos:  position{line: 2407, col: 1, offset: 77870},
 			expr: &actionExpr{
-				pos: position{line: 2399, col: 5, offset: 77607},
+				pos: position{line: 2409, col: 5, offset: 77952},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2399, col: 5, offset: 77607},
+					pos: position{line: 2409, col: 5, offset: 77952},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2399, col: 5, offset: 77607},
+							pos: position{line: 2409, col: 5, offset: 77952},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2402, col: 5, offset: 77672},
+							pos:   position{line: 2412, col: 5, offset: 78017},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2403, col: 9, offset: 77690},
+								pos: position{line: 2413, col: 9, offset: 78035},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2403, col: 9, offset: 77690},
+										pos:  position{line: 2413, col: 9, offset: 78035},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2404, col: 11, offset: 77711},
+										pos:  position{line: 2414, col: 11, offset: 78056},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2405, col: 11, offset: 77734},
+										pos:  position{line: 2415, col: 11, offset: 78079},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2406, col: 11, offset: 77750},
+										pos:  position{line: 2416, col: 11, offset: 78095},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2407, col: 11, offset: 77779},
+										pos:  position{line: 2417, col: 11, offset: 78124},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2408, col: 11, offset: 77805},
+										pos:  position{line: 2418, col: 11, offset: 78150},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2409, col: 11, offset: 77831},
+										pos:  position{line: 2419, col: 11, offset: 78176},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
-										pos: position{line: 1253, col: 5, offset: 38737},
+										pos: position{line: 1253, col: 5, offset: 38805},
 										run: (*parser).callonInlineMacro13,
 										expr: &seqExpr{
-											pos: position{line: 1253, col: 5, offset: 38737},
+											pos: position{line: 1253, col: 5, offset: 38805},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1253, col: 5, offset: 38737},
+													pos:        position{line: 1253, col: 5, offset: 38805},
 													val:        "\\[[",
 													ignoreCase: false,
 													want:       "\"\\\\[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1253, col: 14, offset: 38746},
+													pos:   position{line: 1253, col: 14, offset: 38814},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2837, col: 7, offset: 89891},
+														pos: position{line: 2847, col: 7, offset: 90236},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2837, col: 7, offset: 89891},
+															pos: position{line: 2847, col: 7, offset: 90236},
 															expr: &charClassMatcher{
-																pos:        position{line: 2837, col: 7, offset: 89891},
+																pos:        position{line: 2847, col: 7, offset: 90236},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -45523,7 +45645,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1253, col: 22, offset: 38754},
+													pos:        position{line: 1253, col: 22, offset: 38822},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -45532,27 +45654,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1258, col: 5, offset: 38873},
+										pos: position{line: 1258, col: 5, offset: 38941},
 										run: (*parser).callonInlineMacro21,
 										expr: &seqExpr{
-											pos: position{line: 1258, col: 5, offset: 38873},
+											pos: position{line: 1258, col: 5, offset: 38941},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1258, col: 5, offset: 38873},
+													pos:        position{line: 1258, col: 5, offset: 38941},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1258, col: 10, offset: 38878},
+													pos:   position{line: 1258, col: 10, offset: 38946},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2837, col: 7, offset: 89891},
+														pos: position{line: 2847, col: 7, offset: 90236},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2837, col: 7, offset: 89891},
+															pos: position{line: 2847, col: 7, offset: 90236},
 															expr: &charClassMatcher{
-																pos:        position{line: 2837, col: 7, offset: 89891},
+																pos:        position{line: 2847, col: 7, offset: 90236},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -45562,7 +45684,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1258, col: 18, offset: 38886},
+													pos:        position{line: 1258, col: 18, offset: 38954},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -45571,40 +45693,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1297, col: 23, offset: 40362},
+										pos: position{line: 1297, col: 23, offset: 40430},
 										run: (*parser).callonInlineMacro29,
 										expr: &seqExpr{
-											pos: position{line: 1297, col: 23, offset: 40362},
+											pos: position{line: 1297, col: 23, offset: 40430},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1297, col: 23, offset: 40362},
+													pos:        position{line: 1297, col: 23, offset: 40430},
 													val:        "(((",
 													ignoreCase: false,
 													want:       "\"(((\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1297, col: 29, offset: 40368},
+													pos:   position{line: 1297, col: 29, offset: 40436},
 													label: "term1",
 													expr: &actionExpr{
-														pos: position{line: 1304, col: 30, offset: 40699},
+														pos: position{line: 1304, col: 30, offset: 40767},
 														run: (*parser).callonInlineMacro33,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1304, col: 30, offset: 40699},
+															pos: position{line: 1304, col: 30, offset: 40767},
 															expr: &choiceExpr{
-																pos: position{line: 1304, col: 31, offset: 40700},
+																pos: position{line: 1304, col: 31, offset: 40768},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2742, col: 13, offset: 87334},
+																		pos:        position{line: 2752, col: 13, offset: 87679},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2862, col: 10, offset: 90584},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2862, col: 10, offset: 90584},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -45617,23 +45739,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1298, col: 5, offset: 40407},
+													pos:   position{line: 1298, col: 5, offset: 40475},
 													label: "term2",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1298, col: 11, offset: 40413},
+														pos: position{line: 1298, col: 11, offset: 40481},
 														expr: &actionExpr{
-															pos: position{line: 1298, col: 12, offset: 40414},
+															pos: position{line: 1298, col: 12, offset: 40482},
 															run: (*parser).callonInlineMacro41,
 															expr: &seqExpr{
-																pos: position{line: 1298, col: 12, offset: 40414},
+																pos: position{line: 1298, col: 12, offset: 40482},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1298, col: 12, offset: 40414},
+																		pos: position{line: 1298, col: 12, offset: 40482},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
+																			pos: position{line: 2862, col: 10, offset: 90584},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2862, col: 10, offset: 90584},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45642,18 +45764,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1298, col: 19, offset: 40421},
+																		pos:        position{line: 1298, col: 19, offset: 40489},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1298, col: 23, offset: 40425},
+																		pos: position{line: 1298, col: 23, offset: 40493},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
+																			pos: position{line: 2862, col: 10, offset: 90584},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2862, col: 10, offset: 90584},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45662,28 +45784,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1298, col: 30, offset: 40432},
+																		pos:   position{line: 1298, col: 30, offset: 40500},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1304, col: 30, offset: 40699},
+																			pos: position{line: 1304, col: 30, offset: 40767},
 																			run: (*parser).callonInlineMacro51,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1304, col: 30, offset: 40699},
+																				pos: position{line: 1304, col: 30, offset: 40767},
 																				expr: &choiceExpr{
-																					pos: position{line: 1304, col: 31, offset: 40700},
+																					pos: position{line: 1304, col: 31, offset: 40768},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2742, col: 13, offset: 87334},
+																							pos:        position{line: 2752, col: 13, offset: 87679},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2862, col: 10, offset: 90584},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2862, col: 10, offset: 90584},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -45701,23 +45823,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1299, col: 5, offset: 40499},
+													pos:   position{line: 1299, col: 5, offset: 40567},
 													label: "term3",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1299, col: 11, offset: 40505},
+														pos: position{line: 1299, col: 11, offset: 40573},
 														expr: &actionExpr{
-															pos: position{line: 1299, col: 12, offset: 40506},
+															pos: position{line: 1299, col: 12, offset: 40574},
 															run: (*parser).callonInlineMacro59,
 															expr: &seqExpr{
-																pos: position{line: 1299, col: 12, offset: 40506},
+																pos: position{line: 1299, col: 12, offset: 40574},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1299, col: 12, offset: 40506},
+																		pos: position{line: 1299, col: 12, offset: 40574},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
+																			pos: position{line: 2862, col: 10, offset: 90584},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2862, col: 10, offset: 90584},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45726,18 +45848,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1299, col: 19, offset: 40513},
+																		pos:        position{line: 1299, col: 19, offset: 40581},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1299, col: 23, offset: 40517},
+																		pos: position{line: 1299, col: 23, offset: 40585},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
+																			pos: position{line: 2862, col: 10, offset: 90584},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2862, col: 10, offset: 90584},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45746,28 +45868,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1299, col: 30, offset: 40524},
+																		pos:   position{line: 1299, col: 30, offset: 40592},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1304, col: 30, offset: 40699},
+																			pos: position{line: 1304, col: 30, offset: 40767},
 																			run: (*parser).callonInlineMacro69,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1304, col: 30, offset: 40699},
+																				pos: position{line: 1304, col: 30, offset: 40767},
 																				expr: &choiceExpr{
-																					pos: position{line: 1304, col: 31, offset: 40700},
+																					pos: position{line: 1304, col: 31, offset: 40768},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2742, col: 13, offset: 87334},
+																							pos:        position{line: 2752, col: 13, offset: 87679},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2862, col: 10, offset: 90584},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2862, col: 10, offset: 90584},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -45785,7 +45907,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1300, col: 5, offset: 40591},
+													pos:        position{line: 1300, col: 5, offset: 40659},
 													val:        ")))",
 													ignoreCase: false,
 													want:       "\")))\"",
@@ -45794,15 +45916,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2412, col: 11, offset: 77910},
+										pos:  position{line: 2422, col: 11, offset: 78255},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2413, col: 11, offset: 77930},
+										pos:  position{line: 2423, col: 11, offset: 78275},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2414, col: 11, offset: 77953},
+										pos:  position{line: 2424, col: 11, offset: 78298},
 										name: "InlineMenu",
 									},
 								},
@@ -45814,80 +45936,80 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2418, col: 1, offset: 78010},
+			pos:  position{line: 2428, col: 1, offset: 78355},
 			expr: &actionExpr{
-				pos: position{line: 2420, col: 5, offset: 78098},
+				pos: position{line: 2430, col: 5, offset: 78443},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2420, col: 5, offset: 78098},
+					pos: position{line: 2430, col: 5, offset: 78443},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2420, col: 5, offset: 78098},
+							pos: position{line: 2430, col: 5, offset: 78443},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2423, col: 5, offset: 78175},
+							pos:   position{line: 2433, col: 5, offset: 78520},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2424, col: 9, offset: 78193},
+								pos: position{line: 2434, col: 9, offset: 78538},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1379, col: 26, offset: 43969},
+										pos: position{line: 1379, col: 26, offset: 44105},
 										run: (*parser).callonInlinePassthrough6,
 										expr: &seqExpr{
-											pos: position{line: 1379, col: 26, offset: 43969},
+											pos: position{line: 1379, col: 26, offset: 44105},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1377, col: 32, offset: 43937},
+													pos:        position{line: 1377, col: 32, offset: 44073},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1379, col: 54, offset: 43997},
+													pos:   position{line: 1379, col: 54, offset: 44133},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1383, col: 33, offset: 44210},
+														pos: position{line: 1383, col: 33, offset: 44346},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1383, col: 34, offset: 44211},
+																pos: position{line: 1383, col: 34, offset: 44347},
 																run: (*parser).callonInlinePassthrough11,
 																expr: &zeroOrMoreExpr{
-																	pos: position{line: 1383, col: 34, offset: 44211},
+																	pos: position{line: 1383, col: 34, offset: 44347},
 																	expr: &seqExpr{
-																		pos: position{line: 1383, col: 35, offset: 44212},
+																		pos: position{line: 1383, col: 35, offset: 44348},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1383, col: 35, offset: 44212},
+																				pos: position{line: 1383, col: 35, offset: 44348},
 																				expr: &litMatcher{
-																					pos:        position{line: 1377, col: 32, offset: 43937},
+																					pos:        position{line: 1377, col: 32, offset: 44073},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1383, col: 64, offset: 44241,
+																				line: 1383, col: 64, offset: 44377,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1385, col: 11, offset: 44414},
+																pos: position{line: 1385, col: 11, offset: 44550},
 																run: (*parser).callonInlinePassthrough17,
 																expr: &zeroOrOneExpr{
-																	pos: position{line: 1385, col: 11, offset: 44414},
+																	pos: position{line: 1385, col: 11, offset: 44550},
 																	expr: &seqExpr{
-																		pos: position{line: 1385, col: 12, offset: 44415},
+																		pos: position{line: 1385, col: 12, offset: 44551},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1385, col: 12, offset: 44415},
+																				pos: position{line: 1385, col: 12, offset: 44551},
 																				expr: &actionExpr{
-																					pos: position{line: 2852, col: 10, offset: 90239},
+																					pos: position{line: 2862, col: 10, offset: 90584},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2852, col: 10, offset: 90239},
+																						pos:        position{line: 2862, col: 10, offset: 90584},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -45896,27 +46018,27 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1385, col: 19, offset: 44422},
+																				pos: position{line: 1385, col: 19, offset: 44558},
 																				expr: &actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2871, col: 12, offset: 90755},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2871, col: 13, offset: 90756},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2871, col: 13, offset: 90756},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2871, col: 20, offset: 90763},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2871, col: 29, offset: 90772},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -45926,16 +46048,16 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1385, col: 28, offset: 44431},
+																				pos: position{line: 1385, col: 28, offset: 44567},
 																				expr: &litMatcher{
-																					pos:        position{line: 1377, col: 32, offset: 43937},
+																					pos:        position{line: 1377, col: 32, offset: 44073},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1385, col: 57, offset: 44460,
+																				line: 1385, col: 57, offset: 44596,
 																			},
 																		},
 																	},
@@ -45945,15 +46067,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1377, col: 32, offset: 43937},
+													pos:        position{line: 1377, col: 32, offset: 44073},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&notExpr{
-													pos: position{line: 1379, col: 121, offset: 44064},
+													pos: position{line: 1379, col: 121, offset: 44200},
 													expr: &charClassMatcher{
-														pos:        position{line: 2742, col: 13, offset: 87334},
+														pos:        position{line: 2752, col: 13, offset: 87679},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -45964,45 +46086,45 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1367, col: 26, offset: 43252},
+										pos: position{line: 1367, col: 26, offset: 43388},
 										run: (*parser).callonInlinePassthrough35,
 										expr: &seqExpr{
-											pos: position{line: 1367, col: 26, offset: 43252},
+											pos: position{line: 1367, col: 26, offset: 43388},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1365, col: 32, offset: 43222},
+													pos:        position{line: 1365, col: 32, offset: 43358},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1367, col: 54, offset: 43280},
+													pos:   position{line: 1367, col: 54, offset: 43416},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1371, col: 33, offset: 43493},
+														pos: position{line: 1371, col: 33, offset: 43629},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1371, col: 34, offset: 43494},
+																pos: position{line: 1371, col: 34, offset: 43630},
 																run: (*parser).callonInlinePassthrough40,
 																expr: &seqExpr{
-																	pos: position{line: 1371, col: 34, offset: 43494},
+																	pos: position{line: 1371, col: 34, offset: 43630},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1371, col: 35, offset: 43495},
+																			pos: position{line: 1371, col: 35, offset: 43631},
 																			expr: &litMatcher{
-																				pos:        position{line: 1365, col: 32, offset: 43222},
+																				pos:        position{line: 1365, col: 32, offset: 43358},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1371, col: 64, offset: 43524},
+																			pos: position{line: 1371, col: 64, offset: 43660},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2862, col: 10, offset: 90584},
 																				run: (*parser).callonInlinePassthrough45,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2862, col: 10, offset: 90584},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -46011,27 +46133,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1371, col: 71, offset: 43531},
+																			pos: position{line: 1371, col: 71, offset: 43667},
 																			expr: &actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2871, col: 12, offset: 90755},
 																				run: (*parser).callonInlinePassthrough48,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2871, col: 13, offset: 90756},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2871, col: 13, offset: 90756},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2871, col: 20, offset: 90763},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2871, col: 29, offset: 90772},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -46041,25 +46163,25 @@ var g = &grammar{
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1371, col: 80, offset: 43540,
+																			line: 1371, col: 80, offset: 43676,
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1371, col: 83, offset: 43543},
+																			pos: position{line: 1371, col: 83, offset: 43679},
 																			expr: &seqExpr{
-																				pos: position{line: 1371, col: 84, offset: 43544},
+																				pos: position{line: 1371, col: 84, offset: 43680},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1371, col: 84, offset: 43544},
+																						pos: position{line: 1371, col: 84, offset: 43680},
 																						expr: &seqExpr{
-																							pos: position{line: 1371, col: 86, offset: 43546},
+																							pos: position{line: 1371, col: 86, offset: 43682},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2856, col: 11, offset: 90300},
+																									pos: position{line: 2866, col: 11, offset: 90645},
 																									run: (*parser).callonInlinePassthrough58,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2856, col: 11, offset: 90300},
+																										pos: position{line: 2866, col: 11, offset: 90645},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2856, col: 11, offset: 90300},
+																											pos:        position{line: 2866, col: 11, offset: 90645},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -46068,7 +46190,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1365, col: 32, offset: 43222},
+																									pos:        position{line: 1365, col: 32, offset: 43358},
 																									val:        "+",
 																									ignoreCase: false,
 																									want:       "\"+\"",
@@ -46077,36 +46199,36 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1371, col: 122, offset: 43582},
+																						pos: position{line: 1371, col: 122, offset: 43718},
 																						expr: &litMatcher{
-																							pos:        position{line: 1365, col: 32, offset: 43222},
+																							pos:        position{line: 1365, col: 32, offset: 43358},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1371, col: 151, offset: 43611},
+																						pos: position{line: 1371, col: 151, offset: 43747},
 																						expr: &actionExpr{
-																							pos: position{line: 2861, col: 12, offset: 90410},
+																							pos: position{line: 2871, col: 12, offset: 90755},
 																							run: (*parser).callonInlinePassthrough65,
 																							expr: &choiceExpr{
-																								pos: position{line: 2861, col: 13, offset: 90411},
+																								pos: position{line: 2871, col: 13, offset: 90756},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 13, offset: 90411},
+																										pos:        position{line: 2871, col: 13, offset: 90756},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 20, offset: 90418},
+																										pos:        position{line: 2871, col: 20, offset: 90763},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 29, offset: 90427},
+																										pos:        position{line: 2871, col: 29, offset: 90772},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -46116,7 +46238,7 @@ var g = &grammar{
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1371, col: 160, offset: 43620,
+																						line: 1371, col: 160, offset: 43756,
 																					},
 																				},
 																			},
@@ -46125,18 +46247,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1373, col: 11, offset: 43770},
+																pos: position{line: 1373, col: 11, offset: 43906},
 																run: (*parser).callonInlinePassthrough71,
 																expr: &seqExpr{
-																	pos: position{line: 1373, col: 12, offset: 43771},
+																	pos: position{line: 1373, col: 12, offset: 43907},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1373, col: 12, offset: 43771},
+																			pos: position{line: 1373, col: 12, offset: 43907},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2862, col: 10, offset: 90584},
 																				run: (*parser).callonInlinePassthrough74,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2862, col: 10, offset: 90584},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -46145,27 +46267,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1373, col: 19, offset: 43778},
+																			pos: position{line: 1373, col: 19, offset: 43914},
 																			expr: &actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2871, col: 12, offset: 90755},
 																				run: (*parser).callonInlinePassthrough77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2871, col: 13, offset: 90756},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2871, col: 13, offset: 90756},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2871, col: 20, offset: 90763},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2871, col: 29, offset: 90772},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -46175,16 +46297,16 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1373, col: 28, offset: 43787},
+																			pos: position{line: 1373, col: 28, offset: 43923},
 																			expr: &litMatcher{
-																				pos:        position{line: 1365, col: 32, offset: 43222},
+																				pos:        position{line: 1365, col: 32, offset: 43358},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1373, col: 57, offset: 43816,
+																			line: 1373, col: 57, offset: 43952,
 																		},
 																	},
 																},
@@ -46193,15 +46315,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1365, col: 32, offset: 43222},
+													pos:        position{line: 1365, col: 32, offset: 43358},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&notExpr{
-													pos: position{line: 1367, col: 121, offset: 43347},
+													pos: position{line: 1367, col: 121, offset: 43483},
 													expr: &charClassMatcher{
-														pos:        position{line: 2742, col: 13, offset: 87334},
+														pos:        position{line: 2752, col: 13, offset: 87679},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -46212,7 +46334,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2424, col: 57, offset: 78241},
+										pos:  position{line: 2434, col: 57, offset: 78586},
 										name: "PassthroughMacro",
 									},
 								},
@@ -46224,16 +46346,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2429, col: 1, offset: 78301},
+			pos:  position{line: 2439, col: 1, offset: 78646},
 			expr: &seqExpr{
-				pos: position{line: 2431, col: 5, offset: 78377},
+				pos: position{line: 2441, col: 5, offset: 78722},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2431, col: 5, offset: 78377},
+						pos: position{line: 2441, col: 5, offset: 78722},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2434, col: 5, offset: 78442},
+						pos:  position{line: 2444, col: 5, offset: 78787},
 						name: "QuotedText",
 					},
 				},
@@ -46241,22 +46363,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2436, col: 1, offset: 78455},
+			pos:  position{line: 2446, col: 1, offset: 78800},
 			expr: &actionExpr{
-				pos: position{line: 2438, col: 5, offset: 78537},
+				pos: position{line: 2448, col: 5, offset: 78882},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2438, col: 5, offset: 78537},
+					pos: position{line: 2448, col: 5, offset: 78882},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2438, col: 5, offset: 78537},
+							pos: position{line: 2448, col: 5, offset: 78882},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2441, col: 5, offset: 78608},
+							pos:   position{line: 2451, col: 5, offset: 78953},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2442, col: 9, offset: 78626},
+								pos:  position{line: 2452, col: 9, offset: 78971},
 								name: "Symbol",
 							},
 						},
@@ -46266,93 +46388,93 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2497, col: 1, offset: 80385},
+			pos:  position{line: 2507, col: 1, offset: 80730},
 			expr: &choiceExpr{
-				pos: position{line: 2499, col: 5, offset: 80415},
+				pos: position{line: 2509, col: 5, offset: 80760},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2499, col: 5, offset: 80415},
+						pos: position{line: 2509, col: 5, offset: 80760},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2499, col: 5, offset: 80415},
+							pos: position{line: 2509, col: 5, offset: 80760},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2499, col: 5, offset: 80415},
+									pos:        position{line: 2509, col: 5, offset: 80760},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2499, col: 10, offset: 80420},
+									pos: position{line: 2509, col: 10, offset: 80765},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2499, col: 10, offset: 80420},
+											pos:  position{line: 2509, col: 10, offset: 80765},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2528, col: 14, offset: 81554},
+											pos: position{line: 2538, col: 14, offset: 81899},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2528, col: 14, offset: 81554},
+												pos:        position{line: 2538, col: 14, offset: 81899},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2532, col: 14, offset: 81620},
+											pos: position{line: 2542, col: 14, offset: 81965},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2532, col: 14, offset: 81620},
+												pos:        position{line: 2542, col: 14, offset: 81965},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2536, col: 15, offset: 81689},
+											pos: position{line: 2546, col: 15, offset: 82034},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2536, col: 15, offset: 81689},
+												pos:        position{line: 2546, col: 15, offset: 82034},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2540, col: 13, offset: 81754},
+											pos: position{line: 2550, col: 13, offset: 82099},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2540, col: 13, offset: 81754},
+												pos:        position{line: 2550, col: 13, offset: 82099},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2547, col: 5, offset: 81892},
+											pos: position{line: 2557, col: 5, offset: 82237},
 											run: (*parser).callonSymbol15,
 											expr: &seqExpr{
-												pos: position{line: 2547, col: 5, offset: 81892},
+												pos: position{line: 2557, col: 5, offset: 82237},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2547, col: 5, offset: 81892},
+														pos:        position{line: 2557, col: 5, offset: 82237},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2548, col: 5, offset: 81902},
+														pos: position{line: 2558, col: 5, offset: 82247},
 														run: (*parser).callonSymbol18,
 													},
 													&choiceExpr{
-														pos: position{line: 2552, col: 6, offset: 81989},
+														pos: position{line: 2562, col: 6, offset: 82334},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2852, col: 10, offset: 90239},
+																pos: position{line: 2862, col: 10, offset: 90584},
 																run: (*parser).callonSymbol20,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2852, col: 10, offset: 90239},
+																	pos:        position{line: 2862, col: 10, offset: 90584},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -46360,30 +46482,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2552, col: 14, offset: 81997},
+																pos: position{line: 2562, col: 14, offset: 82342},
 																expr: &choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2884, col: 8, offset: 90982},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2871, col: 12, offset: 90755},
 																			run: (*parser).callonSymbol24,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2871, col: 13, offset: 90756},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2871, col: 13, offset: 90756},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2871, col: 20, offset: 90763},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2871, col: 29, offset: 90772},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -46392,9 +46514,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2881, col: 8, offset: 90932},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2881, col: 9, offset: 90933,
 																			},
 																		},
 																	},
@@ -46406,53 +46528,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2557, col: 5, offset: 82117},
+											pos: position{line: 2567, col: 5, offset: 82462},
 											run: (*parser).callonSymbol31,
 											expr: &seqExpr{
-												pos: position{line: 2557, col: 5, offset: 82117},
+												pos: position{line: 2567, col: 5, offset: 82462},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2557, col: 5, offset: 82117},
+														pos:        position{line: 2567, col: 5, offset: 82462},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2558, col: 5, offset: 82127},
+														pos: position{line: 2568, col: 5, offset: 82472},
 														run: (*parser).callonSymbol34,
 													},
 													&andExpr{
-														pos: position{line: 2562, col: 5, offset: 82216},
+														pos: position{line: 2572, col: 5, offset: 82561},
 														expr: &choiceExpr{
-															pos: position{line: 2562, col: 7, offset: 82218},
+															pos: position{line: 2572, col: 7, offset: 82563},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2742, col: 13, offset: 87334},
+																	pos:        position{line: 2752, col: 13, offset: 87679},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2861, col: 12, offset: 90410},
+																	pos: position{line: 2871, col: 12, offset: 90755},
 																	run: (*parser).callonSymbol38,
 																	expr: &choiceExpr{
-																		pos: position{line: 2861, col: 13, offset: 90411},
+																		pos: position{line: 2871, col: 13, offset: 90756},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2861, col: 13, offset: 90411},
+																				pos:        position{line: 2871, col: 13, offset: 90756},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2861, col: 20, offset: 90418},
+																				pos:        position{line: 2871, col: 20, offset: 90763},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2861, col: 29, offset: 90427},
+																				pos:        position{line: 2871, col: 29, offset: 90772},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -46461,9 +46583,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2881, col: 8, offset: 90932},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2881, col: 9, offset: 90933,
 																	},
 																},
 															},
@@ -46478,63 +46600,63 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2502, col: 7, offset: 80584},
+						pos: position{line: 2512, col: 7, offset: 80929},
 						run: (*parser).callonSymbol45,
 						expr: &seqExpr{
-							pos: position{line: 2502, col: 7, offset: 80584},
+							pos: position{line: 2512, col: 7, offset: 80929},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2502, col: 7, offset: 80584},
+									pos:        position{line: 2512, col: 7, offset: 80929},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2502, col: 11, offset: 80588},
+									pos:   position{line: 2512, col: 11, offset: 80933},
 									label: "elements",
 									expr: &choiceExpr{
-										pos: position{line: 2502, col: 21, offset: 80598},
+										pos: position{line: 2512, col: 21, offset: 80943},
 										alternatives: []interface{}{
 											&seqExpr{
-												pos: position{line: 2502, col: 21, offset: 80598},
+												pos: position{line: 2512, col: 21, offset: 80943},
 												exprs: []interface{}{
 													&charClassMatcher{
-														pos:        position{line: 2502, col: 21, offset: 80598},
+														pos:        position{line: 2512, col: 21, offset: 80943},
 														val:        "[-=]",
 														chars:      []rune{'-', '='},
 														ignoreCase: false,
 														inverted:   false,
 													},
 													&andExpr{
-														pos: position{line: 2502, col: 26, offset: 80603},
+														pos: position{line: 2512, col: 26, offset: 80948},
 														expr: &litMatcher{
-															pos:        position{line: 2502, col: 27, offset: 80604},
+															pos:        position{line: 2512, col: 27, offset: 80949},
 															val:        ">",
 															ignoreCase: false,
 															want:       "\">\"",
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2502, col: 32, offset: 80609},
+														pos: position{line: 2512, col: 32, offset: 80954},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2449, col: 5, offset: 78763},
+																pos: position{line: 2459, col: 5, offset: 79108},
 																run: (*parser).callonSymbol55,
 																expr: &seqExpr{
-																	pos: position{line: 2449, col: 5, offset: 78763},
+																	pos: position{line: 2459, col: 5, offset: 79108},
 																	exprs: []interface{}{
 																		&andCodeExpr{
-																			pos: position{line: 2449, col: 5, offset: 78763},
+																			pos: position{line: 2459, col: 5, offset: 79108},
 																			run: (*parser).callonSymbol57,
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 2452, col: 5, offset: 78839},
+																			pos:   position{line: 2462, col: 5, offset: 79184},
 																			label: "element",
 																			expr: &actionExpr{
-																				pos: position{line: 2453, col: 9, offset: 78857},
+																				pos: position{line: 2463, col: 9, offset: 79202},
 																				run: (*parser).callonSymbol59,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2453, col: 10, offset: 78858},
+																					pos:        position{line: 2463, col: 10, offset: 79203},
 																					val:        "[<>&]",
 																					chars:      []rune{'<', '>', '&'},
 																					ignoreCase: false,
@@ -46546,28 +46668,28 @@ var g = &grammar{
 																},
 															},
 															&anyMatcher{
-																line: 2502, col: 51, offset: 80628,
+																line: 2512, col: 51, offset: 80973,
 															},
 														},
 													},
 												},
 											},
 											&seqExpr{
-												pos: position{line: 2502, col: 56, offset: 80633},
+												pos: position{line: 2512, col: 56, offset: 80978},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2502, col: 56, offset: 80633},
+														pos: position{line: 2512, col: 56, offset: 80978},
 														expr: &choiceExpr{
-															pos: position{line: 2502, col: 58, offset: 80635},
+															pos: position{line: 2512, col: 58, offset: 80980},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2502, col: 58, offset: 80635},
+																	pos:        position{line: 2512, col: 58, offset: 80980},
 																	val:        "<-",
 																	ignoreCase: false,
 																	want:       "\"<-\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2502, col: 65, offset: 80642},
+																	pos:        position{line: 2512, col: 65, offset: 80987},
 																	val:        "<=",
 																	ignoreCase: false,
 																	want:       "\"<=\"",
@@ -46576,26 +46698,26 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2502, col: 72, offset: 80649},
+														pos: position{line: 2512, col: 72, offset: 80994},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2449, col: 5, offset: 78763},
+																pos: position{line: 2459, col: 5, offset: 79108},
 																run: (*parser).callonSymbol68,
 																expr: &seqExpr{
-																	pos: position{line: 2449, col: 5, offset: 78763},
+																	pos: position{line: 2459, col: 5, offset: 79108},
 																	exprs: []interface{}{
 																		&andCodeExpr{
-																			pos: position{line: 2449, col: 5, offset: 78763},
+																			pos: position{line: 2459, col: 5, offset: 79108},
 																			run: (*parser).callonSymbol70,
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 2452, col: 5, offset: 78839},
+																			pos:   position{line: 2462, col: 5, offset: 79184},
 																			label: "element",
 																			expr: &actionExpr{
-																				pos: position{line: 2453, col: 9, offset: 78857},
+																				pos: position{line: 2463, col: 9, offset: 79202},
 																				run: (*parser).callonSymbol72,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2453, col: 10, offset: 78858},
+																					pos:        position{line: 2463, col: 10, offset: 79203},
 																					val:        "[<>&]",
 																					chars:      []rune{'<', '>', '&'},
 																					ignoreCase: false,
@@ -46607,12 +46729,12 @@ var g = &grammar{
 																},
 															},
 															&anyMatcher{
-																line: 2502, col: 91, offset: 80668,
+																line: 2512, col: 91, offset: 81013,
 															},
 														},
 													},
 													&anyMatcher{
-														line: 2502, col: 94, offset: 80671,
+														line: 2512, col: 94, offset: 81016,
 													},
 												},
 											},
@@ -46623,73 +46745,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2503, col: 7, offset: 80705},
+						pos:  position{line: 2513, col: 7, offset: 81050},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2528, col: 14, offset: 81554},
+						pos: position{line: 2538, col: 14, offset: 81899},
 						run: (*parser).callonSymbol77,
 						expr: &litMatcher{
-							pos:        position{line: 2528, col: 14, offset: 81554},
+							pos:        position{line: 2538, col: 14, offset: 81899},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2532, col: 14, offset: 81620},
+						pos: position{line: 2542, col: 14, offset: 81965},
 						run: (*parser).callonSymbol79,
 						expr: &litMatcher{
-							pos:        position{line: 2532, col: 14, offset: 81620},
+							pos:        position{line: 2542, col: 14, offset: 81965},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2536, col: 15, offset: 81689},
+						pos: position{line: 2546, col: 15, offset: 82034},
 						run: (*parser).callonSymbol81,
 						expr: &litMatcher{
-							pos:        position{line: 2536, col: 15, offset: 81689},
+							pos:        position{line: 2546, col: 15, offset: 82034},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2540, col: 13, offset: 81754},
+						pos: position{line: 2550, col: 13, offset: 82099},
 						run: (*parser).callonSymbol83,
 						expr: &litMatcher{
-							pos:        position{line: 2540, col: 13, offset: 81754},
+							pos:        position{line: 2550, col: 13, offset: 82099},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2547, col: 5, offset: 81892},
+						pos: position{line: 2557, col: 5, offset: 82237},
 						run: (*parser).callonSymbol85,
 						expr: &seqExpr{
-							pos: position{line: 2547, col: 5, offset: 81892},
+							pos: position{line: 2557, col: 5, offset: 82237},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2547, col: 5, offset: 81892},
+									pos:        position{line: 2557, col: 5, offset: 82237},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2548, col: 5, offset: 81902},
+									pos: position{line: 2558, col: 5, offset: 82247},
 									run: (*parser).callonSymbol88,
 								},
 								&choiceExpr{
-									pos: position{line: 2552, col: 6, offset: 81989},
+									pos: position{line: 2562, col: 6, offset: 82334},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2852, col: 10, offset: 90239},
+											pos: position{line: 2862, col: 10, offset: 90584},
 											run: (*parser).callonSymbol90,
 											expr: &charClassMatcher{
-												pos:        position{line: 2852, col: 10, offset: 90239},
+												pos:        position{line: 2862, col: 10, offset: 90584},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -46697,30 +46819,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2552, col: 14, offset: 81997},
+											pos: position{line: 2562, col: 14, offset: 82342},
 											expr: &choiceExpr{
-												pos: position{line: 2874, col: 8, offset: 90637},
+												pos: position{line: 2884, col: 8, offset: 90982},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2861, col: 12, offset: 90410},
+														pos: position{line: 2871, col: 12, offset: 90755},
 														run: (*parser).callonSymbol94,
 														expr: &choiceExpr{
-															pos: position{line: 2861, col: 13, offset: 90411},
+															pos: position{line: 2871, col: 13, offset: 90756},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2861, col: 13, offset: 90411},
+																	pos:        position{line: 2871, col: 13, offset: 90756},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2861, col: 20, offset: 90418},
+																	pos:        position{line: 2871, col: 20, offset: 90763},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2861, col: 29, offset: 90427},
+																	pos:        position{line: 2871, col: 29, offset: 90772},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -46729,9 +46851,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2871, col: 8, offset: 90587},
+														pos: position{line: 2881, col: 8, offset: 90932},
 														expr: &anyMatcher{
-															line: 2871, col: 9, offset: 90588,
+															line: 2881, col: 9, offset: 90933,
 														},
 													},
 												},
@@ -46743,53 +46865,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2557, col: 5, offset: 82117},
+						pos: position{line: 2567, col: 5, offset: 82462},
 						run: (*parser).callonSymbol101,
 						expr: &seqExpr{
-							pos: position{line: 2557, col: 5, offset: 82117},
+							pos: position{line: 2567, col: 5, offset: 82462},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2557, col: 5, offset: 82117},
+									pos:        position{line: 2567, col: 5, offset: 82462},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2558, col: 5, offset: 82127},
+									pos: position{line: 2568, col: 5, offset: 82472},
 									run: (*parser).callonSymbol104,
 								},
 								&andExpr{
-									pos: position{line: 2562, col: 5, offset: 82216},
+									pos: position{line: 2572, col: 5, offset: 82561},
 									expr: &choiceExpr{
-										pos: position{line: 2562, col: 7, offset: 82218},
+										pos: position{line: 2572, col: 7, offset: 82563},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2742, col: 13, offset: 87334},
+												pos:        position{line: 2752, col: 13, offset: 87679},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2861, col: 12, offset: 90410},
+												pos: position{line: 2871, col: 12, offset: 90755},
 												run: (*parser).callonSymbol108,
 												expr: &choiceExpr{
-													pos: position{line: 2861, col: 13, offset: 90411},
+													pos: position{line: 2871, col: 13, offset: 90756},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2861, col: 13, offset: 90411},
+															pos:        position{line: 2871, col: 13, offset: 90756},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2861, col: 20, offset: 90418},
+															pos:        position{line: 2871, col: 20, offset: 90763},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2861, col: 29, offset: 90427},
+															pos:        position{line: 2871, col: 29, offset: 90772},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -46798,9 +46920,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2871, col: 8, offset: 90587},
+												pos: position{line: 2881, col: 8, offset: 90932},
 												expr: &anyMatcher{
-													line: 2871, col: 9, offset: 90588,
+													line: 2881, col: 9, offset: 90933,
 												},
 											},
 										},
@@ -46810,40 +46932,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2568, col: 21, offset: 82306},
+						pos: position{line: 2578, col: 21, offset: 82651},
 						run: (*parser).callonSymbol115,
 						expr: &litMatcher{
-							pos:        position{line: 2568, col: 21, offset: 82306},
+							pos:        position{line: 2578, col: 21, offset: 82651},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2572, col: 20, offset: 82376},
+						pos: position{line: 2582, col: 20, offset: 82721},
 						run: (*parser).callonSymbol117,
 						expr: &litMatcher{
-							pos:        position{line: 2572, col: 20, offset: 82376},
+							pos:        position{line: 2582, col: 20, offset: 82721},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2576, col: 21, offset: 82447},
+						pos: position{line: 2586, col: 21, offset: 82792},
 						run: (*parser).callonSymbol119,
 						expr: &litMatcher{
-							pos:        position{line: 2576, col: 21, offset: 82447},
+							pos:        position{line: 2586, col: 21, offset: 82792},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2580, col: 20, offset: 82517},
+						pos: position{line: 2590, col: 20, offset: 82862},
 						run: (*parser).callonSymbol121,
 						expr: &litMatcher{
-							pos:        position{line: 2580, col: 20, offset: 82517},
+							pos:        position{line: 2590, col: 20, offset: 82862},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -46854,43 +46976,43 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2514, col: 1, offset: 80895},
+			pos:  position{line: 2524, col: 1, offset: 81240},
 			expr: &choiceExpr{
-				pos: position{line: 2515, col: 5, offset: 80917},
+				pos: position{line: 2525, col: 5, offset: 81262},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2515, col: 5, offset: 80917},
+						pos: position{line: 2525, col: 5, offset: 81262},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2515, col: 5, offset: 80917},
+							pos: position{line: 2525, col: 5, offset: 81262},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2515, col: 5, offset: 80917},
+									pos:        position{line: 2525, col: 5, offset: 81262},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2515, col: 11, offset: 80923},
+									pos: position{line: 2525, col: 11, offset: 81268},
 									expr: &seqExpr{
-										pos: position{line: 2078, col: 5, offset: 67109},
+										pos: position{line: 2078, col: 5, offset: 67245},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2078, col: 5, offset: 67109},
+												pos:        position{line: 2078, col: 5, offset: 67245},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2079, col: 5, offset: 67118},
+												pos: position{line: 2079, col: 5, offset: 67254},
 												run: (*parser).callonQuotationMark8,
 											},
 											&andExpr{
-												pos: position{line: 2083, col: 5, offset: 67241},
+												pos: position{line: 2083, col: 5, offset: 67377},
 												expr: &notExpr{
-													pos: position{line: 2083, col: 7, offset: 67243},
+													pos: position{line: 2083, col: 7, offset: 67379},
 													expr: &litMatcher{
-														pos:        position{line: 2083, col: 8, offset: 67244},
+														pos:        position{line: 2083, col: 8, offset: 67380},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -46904,21 +47026,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2518, col: 7, offset: 81076},
+						pos: position{line: 2528, col: 7, offset: 81421},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2518, col: 7, offset: 81076},
+							pos: position{line: 2528, col: 7, offset: 81421},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2518, col: 7, offset: 81076},
+									pos:        position{line: 2528, col: 7, offset: 81421},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2518, col: 13, offset: 81082},
+									pos: position{line: 2528, col: 13, offset: 81427},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2518, col: 14, offset: 81083},
+										pos:  position{line: 2528, col: 14, offset: 81428},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -46926,38 +47048,38 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2521, col: 7, offset: 81233},
+						pos: position{line: 2531, col: 7, offset: 81578},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2521, col: 7, offset: 81233},
+							pos: position{line: 2531, col: 7, offset: 81578},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2521, col: 7, offset: 81233},
+									pos:        position{line: 2531, col: 7, offset: 81578},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2521, col: 12, offset: 81238},
+									pos: position{line: 2531, col: 12, offset: 81583},
 									expr: &seqExpr{
-										pos: position{line: 2078, col: 5, offset: 67109},
+										pos: position{line: 2078, col: 5, offset: 67245},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2078, col: 5, offset: 67109},
+												pos:        position{line: 2078, col: 5, offset: 67245},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2079, col: 5, offset: 67118},
+												pos: position{line: 2079, col: 5, offset: 67254},
 												run: (*parser).callonQuotationMark23,
 											},
 											&andExpr{
-												pos: position{line: 2083, col: 5, offset: 67241},
+												pos: position{line: 2083, col: 5, offset: 67377},
 												expr: &notExpr{
-													pos: position{line: 2083, col: 7, offset: 67243},
+													pos: position{line: 2083, col: 7, offset: 67379},
 													expr: &litMatcher{
-														pos:        position{line: 2083, col: 8, offset: 67244},
+														pos:        position{line: 2083, col: 8, offset: 67380},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -46971,21 +47093,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2524, col: 7, offset: 81391},
+						pos: position{line: 2534, col: 7, offset: 81736},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2524, col: 7, offset: 81391},
+							pos: position{line: 2534, col: 7, offset: 81736},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2524, col: 7, offset: 81391},
+									pos:        position{line: 2534, col: 7, offset: 81736},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2524, col: 12, offset: 81396},
+									pos: position{line: 2534, col: 12, offset: 81741},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2524, col: 13, offset: 81397},
+										pos:  position{line: 2534, col: 13, offset: 81742},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -46997,63 +47119,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2657, col: 1, offset: 84419},
+			pos:  position{line: 2667, col: 1, offset: 84764},
 			expr: &actionExpr{
-				pos: position{line: 2657, col: 26, offset: 84444},
+				pos: position{line: 2667, col: 26, offset: 84789},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2657, col: 26, offset: 84444},
+					pos: position{line: 2667, col: 26, offset: 84789},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2657, col: 26, offset: 84444},
+							pos:   position{line: 2667, col: 26, offset: 84789},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2657, col: 31, offset: 84449},
+								pos: position{line: 2667, col: 31, offset: 84794},
 								expr: &actionExpr{
-									pos: position{line: 2662, col: 5, offset: 84512},
+									pos: position{line: 2672, col: 5, offset: 84857},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2662, col: 5, offset: 84512},
+										pos: position{line: 2672, col: 5, offset: 84857},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2869, col: 11, offset: 90573},
+												pos: position{line: 2879, col: 11, offset: 90918},
 												expr: &anyMatcher{
-													line: 2869, col: 13, offset: 90575,
+													line: 2879, col: 13, offset: 90920,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2665, col: 5, offset: 84638},
+												pos:   position{line: 2675, col: 5, offset: 84983},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2665, col: 16, offset: 84649},
+													pos: position{line: 2675, col: 16, offset: 84994},
 													expr: &actionExpr{
-														pos: position{line: 2665, col: 17, offset: 84650},
+														pos: position{line: 2675, col: 17, offset: 84995},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2665, col: 17, offset: 84650},
+															pos: position{line: 2675, col: 17, offset: 84995},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2665, col: 17, offset: 84650},
+																	pos:   position{line: 2675, col: 17, offset: 84995},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2844, col: 12, offset: 90066},
+																		pos: position{line: 2854, col: 12, offset: 90411},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2844, col: 13, offset: 90067},
+																			pos: position{line: 2854, col: 13, offset: 90412},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2844, col: 13, offset: 90067},
+																					pos: position{line: 2854, col: 13, offset: 90412},
 																					expr: &litMatcher{
-																						pos:        position{line: 2844, col: 13, offset: 90067},
+																						pos:        position{line: 2854, col: 13, offset: 90412},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2844, col: 18, offset: 90072},
+																					pos: position{line: 2854, col: 18, offset: 90417},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2844, col: 18, offset: 90072},
+																						pos:        position{line: 2854, col: 18, offset: 90417},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -47065,7 +47187,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2665, col: 27, offset: 84660},
+																	pos:        position{line: 2675, col: 27, offset: 85005},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -47076,38 +47198,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2666, col: 5, offset: 84688},
+												pos:   position{line: 2676, col: 5, offset: 85033},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2666, col: 12, offset: 84695},
+													pos: position{line: 2676, col: 12, offset: 85040},
 													expr: &choiceExpr{
-														pos: position{line: 2667, col: 9, offset: 84705},
+														pos: position{line: 2677, col: 9, offset: 85050},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2667, col: 9, offset: 84705},
+																pos: position{line: 2677, col: 9, offset: 85050},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2667, col: 9, offset: 84705},
+																	pos:        position{line: 2677, col: 9, offset: 85050},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2668, col: 11, offset: 84752},
+																pos: position{line: 2678, col: 11, offset: 85097},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2668, col: 11, offset: 84752},
+																	pos:        position{line: 2678, col: 11, offset: 85097},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2669, col: 11, offset: 84800},
+																pos: position{line: 2679, col: 11, offset: 85145},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2669, col: 11, offset: 84800},
+																	pos:        position{line: 2679, col: 11, offset: 85145},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -47118,38 +47240,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2671, col: 5, offset: 84850},
+												pos:   position{line: 2681, col: 5, offset: 85195},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2671, col: 12, offset: 84857},
+													pos: position{line: 2681, col: 12, offset: 85202},
 													expr: &choiceExpr{
-														pos: position{line: 2672, col: 9, offset: 84867},
+														pos: position{line: 2682, col: 9, offset: 85212},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2672, col: 9, offset: 84867},
+																pos: position{line: 2682, col: 9, offset: 85212},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2672, col: 9, offset: 84867},
+																	pos:        position{line: 2682, col: 9, offset: 85212},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2673, col: 11, offset: 84914},
+																pos: position{line: 2683, col: 11, offset: 85259},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2673, col: 11, offset: 84914},
+																	pos:        position{line: 2683, col: 11, offset: 85259},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2674, col: 11, offset: 84964},
+																pos: position{line: 2684, col: 11, offset: 85309},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2674, col: 11, offset: 84964},
+																	pos:        position{line: 2684, col: 11, offset: 85309},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -47160,32 +47282,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2676, col: 5, offset: 85015},
+												pos:   position{line: 2686, col: 5, offset: 85360},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2676, col: 12, offset: 85022},
+													pos: position{line: 2686, col: 12, offset: 85367},
 													expr: &choiceExpr{
-														pos: position{line: 2676, col: 13, offset: 85023},
+														pos: position{line: 2686, col: 13, offset: 85368},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2844, col: 12, offset: 90066},
+																pos: position{line: 2854, col: 12, offset: 90411},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2844, col: 13, offset: 90067},
+																	pos: position{line: 2854, col: 13, offset: 90412},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2844, col: 13, offset: 90067},
+																			pos: position{line: 2854, col: 13, offset: 90412},
 																			expr: &litMatcher{
-																				pos:        position{line: 2844, col: 13, offset: 90067},
+																				pos:        position{line: 2854, col: 13, offset: 90412},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2844, col: 18, offset: 90072},
+																			pos: position{line: 2854, col: 18, offset: 90417},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2844, col: 18, offset: 90072},
+																				pos:        position{line: 2854, col: 18, offset: 90417},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -47196,10 +47318,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2676, col: 24, offset: 85034},
+																pos: position{line: 2686, col: 24, offset: 85379},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2676, col: 24, offset: 85034},
+																	pos:        position{line: 2686, col: 24, offset: 85379},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -47210,15 +47332,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2677, col: 5, offset: 85076},
+												pos:   position{line: 2687, col: 5, offset: 85421},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2677, col: 11, offset: 85082},
+													pos: position{line: 2687, col: 11, offset: 85427},
 													expr: &actionExpr{
-														pos: position{line: 2677, col: 12, offset: 85083},
+														pos: position{line: 2687, col: 12, offset: 85428},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2677, col: 12, offset: 85083},
+															pos:        position{line: 2687, col: 12, offset: 85428},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -47228,12 +47350,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2679, col: 5, offset: 85213},
+												pos:   position{line: 2689, col: 5, offset: 85558},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2679, col: 11, offset: 85219},
+													pos: position{line: 2689, col: 11, offset: 85564},
 													expr: &litMatcher{
-														pos:        position{line: 2679, col: 12, offset: 85220},
+														pos:        position{line: 2689, col: 12, offset: 85565},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -47241,7 +47363,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2680, col: 5, offset: 85230},
+												pos: position{line: 2690, col: 5, offset: 85575},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -47250,9 +47372,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2871, col: 8, offset: 90587},
+							pos: position{line: 2881, col: 8, offset: 90932},
 							expr: &anyMatcher{
-								line: 2871, col: 9, offset: 90588,
+								line: 2881, col: 9, offset: 90933,
 							},
 						},
 					},
@@ -47261,23 +47383,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2707, col: 1, offset: 86234},
+			pos:  position{line: 2717, col: 1, offset: 86579},
 			expr: &actionExpr{
-				pos: position{line: 2708, col: 5, offset: 86257},
+				pos: position{line: 2718, col: 5, offset: 86602},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2708, col: 5, offset: 86257},
+					pos: position{line: 2718, col: 5, offset: 86602},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2708, col: 5, offset: 86257},
+							pos:   position{line: 2718, col: 5, offset: 86602},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2731, col: 18, offset: 86998},
+								pos: position{line: 2741, col: 18, offset: 87343},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2731, col: 19, offset: 86999},
+									pos: position{line: 2741, col: 19, offset: 87344},
 									expr: &charClassMatcher{
-										pos:        position{line: 2731, col: 19, offset: 86999},
+										pos:        position{line: 2741, col: 19, offset: 87344},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47288,25 +47410,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2709, col: 5, offset: 86283},
+							pos: position{line: 2719, col: 5, offset: 86628},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2713, col: 5, offset: 86411},
+							pos:        position{line: 2723, col: 5, offset: 86756},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2714, col: 5, offset: 86421},
+							pos:   position{line: 2724, col: 5, offset: 86766},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2735, col: 19, offset: 87074},
+								pos: position{line: 2745, col: 19, offset: 87419},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2735, col: 19, offset: 87074},
+									pos: position{line: 2745, col: 19, offset: 87419},
 									expr: &charClassMatcher{
-										pos:        position{line: 2735, col: 19, offset: 87074},
+										pos:        position{line: 2745, col: 19, offset: 87419},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -47316,36 +47438,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2715, col: 5, offset: 86449},
+							pos:   position{line: 2725, col: 5, offset: 86794},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2715, col: 17, offset: 86461},
+								pos:  position{line: 2725, col: 17, offset: 86806},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2874, col: 8, offset: 90637},
+							pos: position{line: 2884, col: 8, offset: 90982},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2861, col: 12, offset: 90410},
+									pos: position{line: 2871, col: 12, offset: 90755},
 									run: (*parser).callonUserMacroBlock16,
 									expr: &choiceExpr{
-										pos: position{line: 2861, col: 13, offset: 90411},
+										pos: position{line: 2871, col: 13, offset: 90756},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2861, col: 13, offset: 90411},
+												pos:        position{line: 2871, col: 13, offset: 90756},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 20, offset: 90418},
+												pos:        position{line: 2871, col: 20, offset: 90763},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 29, offset: 90427},
+												pos:        position{line: 2871, col: 29, offset: 90772},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -47354,9 +47476,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2871, col: 8, offset: 90587},
+									pos: position{line: 2881, col: 8, offset: 90932},
 									expr: &anyMatcher{
-										line: 2871, col: 9, offset: 90588,
+										line: 2881, col: 9, offset: 90933,
 									},
 								},
 							},
@@ -47367,23 +47489,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2719, col: 1, offset: 86609},
+			pos:  position{line: 2729, col: 1, offset: 86954},
 			expr: &actionExpr{
-				pos: position{line: 2720, col: 5, offset: 86633},
+				pos: position{line: 2730, col: 5, offset: 86978},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2720, col: 5, offset: 86633},
+					pos: position{line: 2730, col: 5, offset: 86978},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2720, col: 5, offset: 86633},
+							pos:   position{line: 2730, col: 5, offset: 86978},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2731, col: 18, offset: 86998},
+								pos: position{line: 2741, col: 18, offset: 87343},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2731, col: 19, offset: 86999},
+									pos: position{line: 2741, col: 19, offset: 87344},
 									expr: &charClassMatcher{
-										pos:        position{line: 2731, col: 19, offset: 86999},
+										pos:        position{line: 2741, col: 19, offset: 87344},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47394,25 +47516,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2721, col: 5, offset: 86659},
+							pos: position{line: 2731, col: 5, offset: 87004},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2725, col: 5, offset: 86787},
+							pos:        position{line: 2735, col: 5, offset: 87132},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2726, col: 5, offset: 86796},
+							pos:   position{line: 2736, col: 5, offset: 87141},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2735, col: 19, offset: 87074},
+								pos: position{line: 2745, col: 19, offset: 87419},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2735, col: 19, offset: 87074},
+									pos: position{line: 2745, col: 19, offset: 87419},
 									expr: &charClassMatcher{
-										pos:        position{line: 2735, col: 19, offset: 87074},
+										pos:        position{line: 2745, col: 19, offset: 87419},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -47422,10 +47544,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2727, col: 5, offset: 86824},
+							pos:   position{line: 2737, col: 5, offset: 87169},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2727, col: 17, offset: 86836},
+								pos:  position{line: 2737, col: 17, offset: 87181},
 								name: "InlineAttributes",
 							},
 						},
@@ -47435,43 +47557,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2806, col: 1, offset: 88886},
+			pos:  position{line: 2816, col: 1, offset: 89231},
 			expr: &actionExpr{
-				pos: position{line: 2806, col: 17, offset: 88902},
+				pos: position{line: 2816, col: 17, offset: 89247},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2806, col: 17, offset: 88902},
+					pos:   position{line: 2816, col: 17, offset: 89247},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2823, col: 5, offset: 89356},
+						pos: position{line: 2833, col: 5, offset: 89701},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2823, col: 5, offset: 89356},
+							pos:   position{line: 2833, col: 5, offset: 89701},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2823, col: 14, offset: 89365},
+								pos: position{line: 2833, col: 14, offset: 89710},
 								expr: &choiceExpr{
-									pos: position{line: 2824, col: 9, offset: 89375},
+									pos: position{line: 2834, col: 9, offset: 89720},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2824, col: 9, offset: 89375},
+											pos: position{line: 2834, col: 9, offset: 89720},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2824, col: 9, offset: 89375},
+												pos: position{line: 2834, col: 9, offset: 89720},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2824, col: 9, offset: 89375},
+														pos: position{line: 2834, col: 9, offset: 89720},
 														expr: &litMatcher{
-															pos:        position{line: 2824, col: 10, offset: 89376},
+															pos:        position{line: 2834, col: 10, offset: 89721},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2825, col: 9, offset: 89404},
+														pos: position{line: 2835, col: 9, offset: 89749},
 														expr: &charClassMatcher{
-															pos:        position{line: 2825, col: 10, offset: 89405},
+															pos:        position{line: 2835, col: 10, offset: 89750},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -47482,27 +47604,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2828, col: 11, offset: 89617},
+											pos: position{line: 2838, col: 11, offset: 89962},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2828, col: 11, offset: 89617},
+													pos:        position{line: 2838, col: 11, offset: 89962},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2828, col: 19, offset: 89625},
+													pos: position{line: 2838, col: 19, offset: 89970},
 													expr: &seqExpr{
-														pos: position{line: 2828, col: 21, offset: 89627},
+														pos: position{line: 2838, col: 21, offset: 89972},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2828, col: 21, offset: 89627},
+																pos: position{line: 2838, col: 21, offset: 89972},
 																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
+																	pos: position{line: 2862, col: 10, offset: 90584},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		pos:        position{line: 2862, col: 10, offset: 90584},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -47511,11 +47633,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2828, col: 28, offset: 89634},
+																pos: position{line: 2838, col: 28, offset: 89979},
 																expr: &notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2881, col: 8, offset: 90932},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2881, col: 9, offset: 90933,
 																	},
 																},
 															},
@@ -47525,35 +47647,35 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 636, col: 5, offset: 20109},
+											pos: position{line: 636, col: 5, offset: 20177},
 											run: (*parser).callonFileLocation23,
 											expr: &seqExpr{
-												pos: position{line: 636, col: 5, offset: 20109},
+												pos: position{line: 636, col: 5, offset: 20177},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 636, col: 5, offset: 20109},
+														pos: position{line: 636, col: 5, offset: 20177},
 														run: (*parser).callonFileLocation25,
 													},
 													&labeledExpr{
-														pos:   position{line: 639, col: 5, offset: 20181},
+														pos:   position{line: 639, col: 5, offset: 20249},
 														label: "element",
 														expr: &choiceExpr{
-															pos: position{line: 639, col: 14, offset: 20190},
+															pos: position{line: 639, col: 14, offset: 20258},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 645, col: 5, offset: 20319},
+																	pos: position{line: 645, col: 5, offset: 20387},
 																	run: (*parser).callonFileLocation28,
 																	expr: &seqExpr{
-																		pos: position{line: 645, col: 5, offset: 20319},
+																		pos: position{line: 645, col: 5, offset: 20387},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 645, col: 5, offset: 20319},
+																				pos:        position{line: 645, col: 5, offset: 20387},
 																				val:        "\\{",
 																				ignoreCase: false,
 																				want:       "\"\\\\{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 645, col: 13, offset: 20327},
+																				pos:   position{line: 645, col: 13, offset: 20395},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9729},
@@ -47585,7 +47707,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 645, col: 32, offset: 20346},
+																				pos:        position{line: 645, col: 32, offset: 20414},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -47594,19 +47716,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 652, col: 5, offset: 20587},
+																	pos: position{line: 652, col: 5, offset: 20655},
 																	run: (*parser).callonFileLocation38,
 																	expr: &seqExpr{
-																		pos: position{line: 652, col: 5, offset: 20587},
+																		pos: position{line: 652, col: 5, offset: 20655},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 652, col: 5, offset: 20587},
+																				pos:        position{line: 652, col: 5, offset: 20655},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 652, col: 9, offset: 20591},
+																				pos:   position{line: 652, col: 9, offset: 20659},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9729},
@@ -47638,7 +47760,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 652, col: 28, offset: 20610},
+																				pos:        position{line: 652, col: 28, offset: 20678},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -47647,19 +47769,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 658, col: 25, offset: 20791},
+																	pos: position{line: 658, col: 25, offset: 20859},
 																	run: (*parser).callonFileLocation48,
 																	expr: &seqExpr{
-																		pos: position{line: 658, col: 25, offset: 20791},
+																		pos: position{line: 658, col: 25, offset: 20859},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 658, col: 25, offset: 20791},
+																				pos:        position{line: 658, col: 25, offset: 20859},
 																				val:        "{counter:",
 																				ignoreCase: false,
 																				want:       "\"{counter:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 658, col: 37, offset: 20803},
+																				pos:   position{line: 658, col: 37, offset: 20871},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9729},
@@ -47691,33 +47813,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 658, col: 56, offset: 20822},
+																				pos:   position{line: 658, col: 56, offset: 20890},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 658, col: 62, offset: 20828},
+																					pos: position{line: 658, col: 62, offset: 20896},
 																					expr: &actionExpr{
-																						pos: position{line: 666, col: 17, offset: 21123},
+																						pos: position{line: 666, col: 17, offset: 21191},
 																						run: (*parser).callonFileLocation59,
 																						expr: &seqExpr{
-																							pos: position{line: 666, col: 17, offset: 21123},
+																							pos: position{line: 666, col: 17, offset: 21191},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 666, col: 17, offset: 21123},
+																									pos:        position{line: 666, col: 17, offset: 21191},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 666, col: 21, offset: 21127},
+																									pos:   position{line: 666, col: 21, offset: 21195},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 666, col: 28, offset: 21134},
+																										pos: position{line: 666, col: 28, offset: 21202},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 666, col: 28, offset: 21134},
+																												pos: position{line: 666, col: 28, offset: 21202},
 																												run: (*parser).callonFileLocation64,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 666, col: 28, offset: 21134},
+																													pos:        position{line: 666, col: 28, offset: 21202},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -47725,12 +47847,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 668, col: 9, offset: 21188},
+																												pos: position{line: 668, col: 9, offset: 21256},
 																												run: (*parser).callonFileLocation66,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 668, col: 9, offset: 21188},
+																													pos: position{line: 668, col: 9, offset: 21256},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 668, col: 9, offset: 21188},
+																														pos:        position{line: 668, col: 9, offset: 21256},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -47747,7 +47869,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 658, col: 78, offset: 20844},
+																				pos:        position{line: 658, col: 78, offset: 20912},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -47756,19 +47878,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 662, col: 25, offset: 20962},
+																	pos: position{line: 662, col: 25, offset: 21030},
 																	run: (*parser).callonFileLocation70,
 																	expr: &seqExpr{
-																		pos: position{line: 662, col: 25, offset: 20962},
+																		pos: position{line: 662, col: 25, offset: 21030},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 662, col: 25, offset: 20962},
+																				pos:        position{line: 662, col: 25, offset: 21030},
 																				val:        "{counter2:",
 																				ignoreCase: false,
 																				want:       "\"{counter2:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 662, col: 38, offset: 20975},
+																				pos:   position{line: 662, col: 38, offset: 21043},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9729},
@@ -47800,33 +47922,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 662, col: 57, offset: 20994},
+																				pos:   position{line: 662, col: 57, offset: 21062},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 662, col: 63, offset: 21000},
+																					pos: position{line: 662, col: 63, offset: 21068},
 																					expr: &actionExpr{
-																						pos: position{line: 666, col: 17, offset: 21123},
+																						pos: position{line: 666, col: 17, offset: 21191},
 																						run: (*parser).callonFileLocation81,
 																						expr: &seqExpr{
-																							pos: position{line: 666, col: 17, offset: 21123},
+																							pos: position{line: 666, col: 17, offset: 21191},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 666, col: 17, offset: 21123},
+																									pos:        position{line: 666, col: 17, offset: 21191},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 666, col: 21, offset: 21127},
+																									pos:   position{line: 666, col: 21, offset: 21195},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 666, col: 28, offset: 21134},
+																										pos: position{line: 666, col: 28, offset: 21202},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 666, col: 28, offset: 21134},
+																												pos: position{line: 666, col: 28, offset: 21202},
 																												run: (*parser).callonFileLocation86,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 666, col: 28, offset: 21134},
+																													pos:        position{line: 666, col: 28, offset: 21202},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -47834,12 +47956,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 668, col: 9, offset: 21188},
+																												pos: position{line: 668, col: 9, offset: 21256},
 																												run: (*parser).callonFileLocation88,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 668, col: 9, offset: 21188},
+																													pos: position{line: 668, col: 9, offset: 21256},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 668, col: 9, offset: 21188},
+																														pos:        position{line: 668, col: 9, offset: 21256},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -47856,7 +47978,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 662, col: 79, offset: 21016},
+																				pos:        position{line: 662, col: 79, offset: 21084},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -47871,27 +47993,27 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1198, col: 23, offset: 36977},
+											pos: position{line: 1198, col: 23, offset: 37045},
 											run: (*parser).callonFileLocation92,
 											expr: &seqExpr{
-												pos: position{line: 1198, col: 23, offset: 36977},
+												pos: position{line: 1198, col: 23, offset: 37045},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 1196, col: 32, offset: 36945},
+														pos:        position{line: 1196, col: 32, offset: 37013},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 1198, col: 51, offset: 37005},
+														pos:   position{line: 1198, col: 51, offset: 37073},
 														label: "ref",
 														expr: &actionExpr{
-															pos: position{line: 1198, col: 56, offset: 37010},
+															pos: position{line: 1198, col: 56, offset: 37078},
 															run: (*parser).callonFileLocation96,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 1198, col: 56, offset: 37010},
+																pos: position{line: 1198, col: 56, offset: 37078},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1198, col: 56, offset: 37010},
+																	pos:        position{line: 1198, col: 56, offset: 37078},
 																	val:        "[0-9]",
 																	ranges:     []rune{'0', '9'},
 																	ignoreCase: false,
@@ -47901,7 +48023,7 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 1196, col: 32, offset: 36945},
+														pos:        position{line: 1196, col: 32, offset: 37013},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
@@ -47910,10 +48032,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2831, col: 11, offset: 89754},
+											pos: position{line: 2841, col: 11, offset: 90099},
 											run: (*parser).callonFileLocation100,
 											expr: &litMatcher{
-												pos:        position{line: 2831, col: 11, offset: 89754},
+												pos:        position{line: 2841, col: 11, offset: 90099},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -54323,21 +54445,21 @@ func (p *parser) callonBlockAttributes126() (interface{}, error) {
 	return p.cur.onBlockAttributes126(stack["title"])
 }
 
-func (c *current) onBlockAttributes210() (interface{}, error) {
-
-	return string(c.text), nil
+func (c *current) onBlockAttributes208() (interface{}, error) {
+	return c.currentLine(), nil
 
 }
 
-func (p *parser) callonBlockAttributes210() (interface{}, error) {
+func (p *parser) callonBlockAttributes208() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes210()
+	return p.cur.onBlockAttributes208()
 }
 
 func (c *current) onBlockAttributes213() (interface{}, error) {
-	// TODO: just use "\n"
+
 	return string(c.text), nil
+
 }
 
 func (p *parser) callonBlockAttributes213() (interface{}, error) {
@@ -54346,41 +54468,73 @@ func (p *parser) callonBlockAttributes213() (interface{}, error) {
 	return p.cur.onBlockAttributes213()
 }
 
-func (c *current) onBlockAttributes226() (interface{}, error) {
+func (c *current) onBlockAttributes216() (interface{}, error) {
+	return c.currentLine(), nil
+
+}
+
+func (p *parser) callonBlockAttributes216() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onBlockAttributes216()
+}
+
+func (c *current) onBlockAttributes218(start, attributes, end interface{}) (bool, error) {
+	return start == end, nil
+}
+
+func (p *parser) callonBlockAttributes218() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onBlockAttributes218(stack["start"], stack["attributes"], stack["end"])
+}
+
+func (c *current) onBlockAttributes220() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonBlockAttributes220() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onBlockAttributes220()
+}
+
+func (c *current) onBlockAttributes233() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes226() (interface{}, error) {
+func (p *parser) callonBlockAttributes233() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes226()
+	return p.cur.onBlockAttributes233()
 }
 
-func (c *current) onBlockAttributes229() (interface{}, error) {
+func (c *current) onBlockAttributes236() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonBlockAttributes229() (interface{}, error) {
+func (p *parser) callonBlockAttributes236() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes229()
+	return p.cur.onBlockAttributes236()
 }
 
-func (c *current) onBlockAttributes221() (interface{}, error) {
+func (c *current) onBlockAttributes228() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonBlockAttributes221() (interface{}, error) {
+func (p *parser) callonBlockAttributes228() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes221()
+	return p.cur.onBlockAttributes228()
 }
 
-func (c *current) onBlockAttributes205(attributes interface{}) (interface{}, error) {
+func (c *current) onBlockAttributes205(start, attributes, end interface{}) (interface{}, error) {
 	return attributes, nil
 
 }
@@ -54388,7 +54542,7 @@ func (c *current) onBlockAttributes205(attributes interface{}) (interface{}, err
 func (p *parser) callonBlockAttributes205() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes205(stack["attributes"])
+	return p.cur.onBlockAttributes205(stack["start"], stack["attributes"], stack["end"])
 }
 
 func (c *current) onBlockAttributes1(attributes interface{}) (interface{}, error) {
@@ -57768,63 +57922,74 @@ func (p *parser) callonIndexTermContent1() (interface{}, error) {
 	return p.cur.onIndexTermContent1(stack["elements"])
 }
 
-func (c *current) onImageBlock9() (interface{}, error) {
+func (c *current) onImageBlock4() (interface{}, error) {
+	return c.currentLine(), nil
+
+}
+
+func (p *parser) callonImageBlock4() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onImageBlock4()
+}
+
+func (c *current) onImageBlock12() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonImageBlock9() (interface{}, error) {
+func (p *parser) callonImageBlock12() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onImageBlock9()
+	return p.cur.onImageBlock12()
 }
 
-func (c *current) onImageBlock21() (interface{}, error) {
+func (c *current) onImageBlock24() (interface{}, error) {
 	// excluding EOL, space, "{", "[", "]". Also, punctuation chars and `<` and `>` special chars are treated separately below
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonImageBlock21() (interface{}, error) {
+func (p *parser) callonImageBlock24() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onImageBlock21()
+	return p.cur.onImageBlock24()
 }
 
-func (c *current) onImageBlock32() (interface{}, error) {
+func (c *current) onImageBlock35() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonImageBlock32() (interface{}, error) {
+func (p *parser) callonImageBlock35() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onImageBlock32()
+	return p.cur.onImageBlock35()
 }
 
-func (c *current) onImageBlock39() (bool, error) {
+func (c *current) onImageBlock42() (bool, error) {
 	return c.isSubstitutionEnabled(AttributeRefs), nil
 
 }
 
-func (p *parser) callonImageBlock39() (bool, error) {
+func (p *parser) callonImageBlock42() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onImageBlock39()
+	return p.cur.onImageBlock42()
 }
 
-func (c *current) onImageBlock46() (interface{}, error) {
+func (c *current) onImageBlock49() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonImageBlock46() (interface{}, error) {
+func (p *parser) callonImageBlock49() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onImageBlock46()
+	return p.cur.onImageBlock49()
 }
 
-func (c *current) onImageBlock42(name interface{}) (interface{}, error) {
+func (c *current) onImageBlock45(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -57832,233 +57997,254 @@ func (c *current) onImageBlock42(name interface{}) (interface{}, error) {
 
 }
 
-func (p *parser) callonImageBlock42() (interface{}, error) {
+func (p *parser) callonImageBlock45() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onImageBlock42(stack["name"])
+	return p.cur.onImageBlock45(stack["name"])
 }
 
-func (c *current) onImageBlock56() (interface{}, error) {
+func (c *current) onImageBlock59() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonImageBlock56() (interface{}, error) {
+func (p *parser) callonImageBlock59() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onImageBlock56()
+	return p.cur.onImageBlock59()
 }
 
-func (c *current) onImageBlock52(name interface{}) (interface{}, error) {
+func (c *current) onImageBlock55(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonImageBlock52() (interface{}, error) {
+func (p *parser) callonImageBlock55() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onImageBlock52(stack["name"])
+	return p.cur.onImageBlock55(stack["name"])
 }
 
-func (c *current) onImageBlock66() (interface{}, error) {
+func (c *current) onImageBlock69() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonImageBlock66() (interface{}, error) {
+func (p *parser) callonImageBlock69() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onImageBlock66()
+	return p.cur.onImageBlock69()
 }
 
-func (c *current) onImageBlock78() (interface{}, error) {
+func (c *current) onImageBlock81() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonImageBlock78() (interface{}, error) {
+func (p *parser) callonImageBlock81() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onImageBlock78()
+	return p.cur.onImageBlock81()
 }
 
-func (c *current) onImageBlock80() (interface{}, error) {
+func (c *current) onImageBlock83() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonImageBlock80() (interface{}, error) {
+func (p *parser) callonImageBlock83() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onImageBlock80()
+	return p.cur.onImageBlock83()
 }
 
-func (c *current) onImageBlock73(start interface{}) (interface{}, error) {
+func (c *current) onImageBlock76(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonImageBlock73() (interface{}, error) {
+func (p *parser) callonImageBlock76() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onImageBlock73(stack["start"])
+	return p.cur.onImageBlock76(stack["start"])
 }
 
-func (c *current) onImageBlock62(name, start interface{}) (interface{}, error) {
+func (c *current) onImageBlock65(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
 }
 
-func (p *parser) callonImageBlock62() (interface{}, error) {
+func (p *parser) callonImageBlock65() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onImageBlock62(stack["name"], stack["start"])
+	return p.cur.onImageBlock65(stack["name"], stack["start"])
 }
 
-func (c *current) onImageBlock88() (interface{}, error) {
+func (c *current) onImageBlock91() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonImageBlock88() (interface{}, error) {
+func (p *parser) callonImageBlock91() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onImageBlock88()
+	return p.cur.onImageBlock91()
 }
 
-func (c *current) onImageBlock100() (interface{}, error) {
+func (c *current) onImageBlock103() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonImageBlock100() (interface{}, error) {
+func (p *parser) callonImageBlock103() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onImageBlock100()
+	return p.cur.onImageBlock103()
 }
 
-func (c *current) onImageBlock102() (interface{}, error) {
+func (c *current) onImageBlock105() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonImageBlock102() (interface{}, error) {
+func (p *parser) callonImageBlock105() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onImageBlock102()
+	return p.cur.onImageBlock105()
 }
 
-func (c *current) onImageBlock95(start interface{}) (interface{}, error) {
+func (c *current) onImageBlock98(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonImageBlock95() (interface{}, error) {
+func (p *parser) callonImageBlock98() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onImageBlock95(stack["start"])
+	return p.cur.onImageBlock98(stack["start"])
 }
 
-func (c *current) onImageBlock84(name, start interface{}) (interface{}, error) {
+func (c *current) onImageBlock87(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
 }
 
-func (p *parser) callonImageBlock84() (interface{}, error) {
+func (p *parser) callonImageBlock87() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onImageBlock84(stack["name"], stack["start"])
+	return p.cur.onImageBlock87(stack["name"], stack["start"])
 }
 
-func (c *current) onImageBlock37(element interface{}) (interface{}, error) {
+func (c *current) onImageBlock40(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonImageBlock37() (interface{}, error) {
+func (p *parser) callonImageBlock40() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onImageBlock37(stack["element"])
+	return p.cur.onImageBlock40(stack["element"])
 }
 
-func (c *current) onImageBlock110() (interface{}, error) {
+func (c *current) onImageBlock113() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonImageBlock110() (interface{}, error) {
+func (p *parser) callonImageBlock113() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onImageBlock110()
+	return p.cur.onImageBlock113()
 }
 
-func (c *current) onImageBlock106(ref interface{}) (interface{}, error) {
+func (c *current) onImageBlock109(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
 
-func (p *parser) callonImageBlock106() (interface{}, error) {
+func (p *parser) callonImageBlock109() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onImageBlock106(stack["ref"])
+	return p.cur.onImageBlock109(stack["ref"])
 }
 
-func (c *current) onImageBlock114() (interface{}, error) {
+func (c *current) onImageBlock117() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonImageBlock114() (interface{}, error) {
+func (p *parser) callonImageBlock117() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onImageBlock114()
+	return p.cur.onImageBlock117()
 }
 
-func (c *current) onImageBlock17(elements interface{}) (interface{}, error) {
+func (c *current) onImageBlock20(elements interface{}) (interface{}, error) {
 	return types.NewInlineElements(elements.([]interface{}))
 
 }
 
-func (p *parser) callonImageBlock17() (interface{}, error) {
+func (p *parser) callonImageBlock20() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onImageBlock17(stack["elements"])
+	return p.cur.onImageBlock20(stack["elements"])
 }
 
-func (c *current) onImageBlock5(scheme, path interface{}) (interface{}, error) {
+func (c *current) onImageBlock8(scheme, path interface{}) (interface{}, error) {
 	return types.NewLocation(scheme, path.([]interface{}))
 
 }
 
-func (p *parser) callonImageBlock5() (interface{}, error) {
+func (p *parser) callonImageBlock8() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onImageBlock5(stack["scheme"], stack["path"])
+	return p.cur.onImageBlock8(stack["scheme"], stack["path"])
 }
 
-func (c *current) onImageBlock119() (interface{}, error) {
+func (c *current) onImageBlock122() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonImageBlock119() (interface{}, error) {
+func (p *parser) callonImageBlock122() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onImageBlock119()
+	return p.cur.onImageBlock122()
 }
 
-func (c *current) onImageBlock122() (interface{}, error) {
+func (c *current) onImageBlock125() (interface{}, error) {
+	return c.currentLine(), nil
+
+}
+
+func (p *parser) callonImageBlock125() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onImageBlock125()
+}
+
+func (c *current) onImageBlock127(start, path, attributes, end interface{}) (bool, error) {
+	return start == end, nil
+}
+
+func (p *parser) callonImageBlock127() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onImageBlock127(stack["start"], stack["path"], stack["attributes"], stack["end"])
+}
+
+func (c *current) onImageBlock129() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonImageBlock122() (interface{}, error) {
+func (p *parser) callonImageBlock129() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onImageBlock122()
+	return p.cur.onImageBlock129()
 }
 
-func (c *current) onImageBlock1(path, attributes interface{}) (interface{}, error) {
+func (c *current) onImageBlock1(start, path, attributes, end interface{}) (interface{}, error) {
 	// 'imagesdir' attribute is added after applying the attribute substitutions on the image location
 	return types.NewImageBlock(path.(*types.Location), attributes.(types.Attributes))
 
@@ -58067,7 +58253,7 @@ func (c *current) onImageBlock1(path, attributes interface{}) (interface{}, erro
 func (p *parser) callonImageBlock1() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onImageBlock1(stack["path"], stack["attributes"])
+	return p.cur.onImageBlock1(stack["start"], stack["path"], stack["attributes"], stack["end"])
 }
 
 func (c *current) onInlineImage11() (interface{}, error) {
@@ -70541,191 +70727,229 @@ func (p *parser) callonSectionTitleElement5() (interface{}, error) {
 	return p.cur.onSectionTitleElement5()
 }
 
-func (c *current) onSectionTitleElement17() (interface{}, error) {
+func (c *current) onSectionTitleElement15() (interface{}, error) {
+
+	if log.IsLevelEnabled(log.DebugLevel) {
+		log.Debugf("matching anychar '%s' at position %v", string(c.text), c.pos.String())
+	}
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonSectionTitleElement15() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSectionTitleElement15()
+}
+
+func (c *current) onSectionTitleElement1(element interface{}) (interface{}, error) {
+	c.trackElement(element)
+	return element, nil
+
+}
+
+func (p *parser) callonSectionTitleElement1() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSectionTitleElement1(stack["element"])
+}
+
+func (c *current) onSectionTitleLineElement4() (interface{}, error) {
+	return c.currentLine(), nil
+
+}
+
+func (p *parser) callonSectionTitleLineElement4() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSectionTitleLineElement4()
+}
+
+func (c *current) onSectionTitleLineElement11() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement17() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement11() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement17()
+	return p.cur.onSectionTitleLineElement11()
 }
 
-func (c *current) onSectionTitleElement23() (bool, error) {
+func (c *current) onSectionTitleLineElement17() (bool, error) {
 	return c.isInlineMacro(string(c.text)), nil
 
 }
 
-func (p *parser) callonSectionTitleElement23() (bool, error) {
+func (p *parser) callonSectionTitleLineElement17() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement23()
+	return p.cur.onSectionTitleLineElement17()
 }
 
-func (c *current) onSectionTitleElement14(text interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement8(text interface{}) (interface{}, error) {
 	log.Debugf("new text: '%v'", string(c.text))
 	return types.NewStringElement(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement14() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement8() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement14(stack["text"])
+	return p.cur.onSectionTitleLineElement8(stack["text"])
 }
 
-func (c *current) onSectionTitleElement28() (interface{}, error) {
+func (c *current) onSectionTitleLineElement22() (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement28() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement22() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement28()
+	return p.cur.onSectionTitleLineElement22()
 }
 
-func (c *current) onSectionTitleElement31() (interface{}, error) {
+func (c *current) onSectionTitleLineElement25() (interface{}, error) {
 	//log.Debug("matched escaped apostrophe")
 	return types.NewStringElement(`'`) // retain the apostrophe, but discard the `\` escape char
 
 }
 
-func (p *parser) callonSectionTitleElement31() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement25() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement31()
+	return p.cur.onSectionTitleLineElement25()
 }
 
-func (c *current) onSectionTitleElement38() (bool, error) {
+func (c *current) onSectionTitleLineElement32() (bool, error) {
 	return c.isSubstitutionEnabled(Replacements), nil
 
 }
 
-func (p *parser) callonSectionTitleElement38() (bool, error) {
+func (p *parser) callonSectionTitleLineElement32() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement38()
+	return p.cur.onSectionTitleLineElement32()
 }
 
-func (c *current) onSectionTitleElement39() (bool, error) {
+func (c *current) onSectionTitleLineElement33() (bool, error) {
 	//log.Debugf("TypographicQuote at pos %s", c.pos.String())
 	return c.isPrecededByAlphanum(), nil
 
 }
 
-func (p *parser) callonSectionTitleElement39() (bool, error) {
+func (p *parser) callonSectionTitleLineElement33() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement39()
+	return p.cur.onSectionTitleLineElement33()
 }
 
-func (c *current) onSectionTitleElement36() (interface{}, error) {
+func (c *current) onSectionTitleLineElement30() (interface{}, error) {
 	return types.NewSymbol("'")
 
 }
 
-func (p *parser) callonSectionTitleElement36() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement30() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement36()
+	return p.cur.onSectionTitleLineElement30()
 }
 
-func (c *current) onSectionTitleElement48() (bool, error) {
+func (c *current) onSectionTitleLineElement42() (bool, error) {
 
 	return c.allSubstitutionsDisabled(Macros, Quotes), nil
 
 }
 
-func (p *parser) callonSectionTitleElement48() (bool, error) {
+func (p *parser) callonSectionTitleLineElement42() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement48()
+	return p.cur.onSectionTitleLineElement42()
 }
 
-func (c *current) onSectionTitleElement52() (bool, error) {
+func (c *current) onSectionTitleLineElement46() (bool, error) {
 
 	return c.isSubstitutionDisabled(Quotes), nil
 
 }
 
-func (p *parser) callonSectionTitleElement52() (bool, error) {
+func (p *parser) callonSectionTitleLineElement46() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement52()
+	return p.cur.onSectionTitleLineElement46()
 }
 
-func (c *current) onSectionTitleElement44() (interface{}, error) {
+func (c *current) onSectionTitleLineElement38() (interface{}, error) {
 
 	log.Debugf("new punctuation: '%v'", string(c.text))
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement44() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement38() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement44()
+	return p.cur.onSectionTitleLineElement38()
 }
 
-func (c *current) onSectionTitleElement63() (bool, error) {
+func (c *current) onSectionTitleLineElement57() (bool, error) {
 	return c.isSubstitutionEnabled(SpecialCharacters), nil
 
 }
 
-func (p *parser) callonSectionTitleElement63() (bool, error) {
+func (p *parser) callonSectionTitleLineElement57() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement63()
+	return p.cur.onSectionTitleLineElement57()
 }
 
-func (c *current) onSectionTitleElement65() (interface{}, error) {
+func (c *current) onSectionTitleLineElement59() (interface{}, error) {
 	return types.NewSpecialCharacter(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement65() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement59() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement65()
+	return p.cur.onSectionTitleLineElement59()
 }
 
-func (c *current) onSectionTitleElement61(element interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement55(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonSectionTitleElement61() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement55() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement61(stack["element"])
+	return p.cur.onSectionTitleLineElement55(stack["element"])
 }
 
-func (c *current) onSectionTitleElement70() (bool, error) {
+func (c *current) onSectionTitleLineElement64() (bool, error) {
 	return c.isSubstitutionEnabled(AttributeRefs), nil
 
 }
 
-func (p *parser) callonSectionTitleElement70() (bool, error) {
+func (p *parser) callonSectionTitleLineElement64() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement70()
+	return p.cur.onSectionTitleLineElement64()
 }
 
-func (c *current) onSectionTitleElement77() (interface{}, error) {
+func (c *current) onSectionTitleLineElement71() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement77() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement71() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement77()
+	return p.cur.onSectionTitleLineElement71()
 }
 
-func (c *current) onSectionTitleElement73(name interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement67(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -70733,242 +70957,242 @@ func (c *current) onSectionTitleElement73(name interface{}) (interface{}, error)
 
 }
 
-func (p *parser) callonSectionTitleElement73() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement67() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement73(stack["name"])
+	return p.cur.onSectionTitleLineElement67(stack["name"])
 }
 
-func (c *current) onSectionTitleElement87() (interface{}, error) {
+func (c *current) onSectionTitleLineElement81() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement87() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement81() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement87()
+	return p.cur.onSectionTitleLineElement81()
 }
 
-func (c *current) onSectionTitleElement83(name interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement77(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement83() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement77() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement83(stack["name"])
+	return p.cur.onSectionTitleLineElement77(stack["name"])
 }
 
-func (c *current) onSectionTitleElement97() (interface{}, error) {
+func (c *current) onSectionTitleLineElement91() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement97() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement91() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement97()
+	return p.cur.onSectionTitleLineElement91()
 }
 
-func (c *current) onSectionTitleElement109() (interface{}, error) {
+func (c *current) onSectionTitleLineElement103() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement109() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement103() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement109()
+	return p.cur.onSectionTitleLineElement103()
 }
 
-func (c *current) onSectionTitleElement111() (interface{}, error) {
+func (c *current) onSectionTitleLineElement105() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement111() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement105() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement111()
+	return p.cur.onSectionTitleLineElement105()
 }
 
-func (c *current) onSectionTitleElement104(start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement98(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonSectionTitleElement104() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement98() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement104(stack["start"])
+	return p.cur.onSectionTitleLineElement98(stack["start"])
 }
 
-func (c *current) onSectionTitleElement93(name, start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement87(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
 }
 
-func (p *parser) callonSectionTitleElement93() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement87() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement93(stack["name"], stack["start"])
+	return p.cur.onSectionTitleLineElement87(stack["name"], stack["start"])
 }
 
-func (c *current) onSectionTitleElement119() (interface{}, error) {
+func (c *current) onSectionTitleLineElement113() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement119() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement113() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement119()
+	return p.cur.onSectionTitleLineElement113()
 }
 
-func (c *current) onSectionTitleElement131() (interface{}, error) {
+func (c *current) onSectionTitleLineElement125() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement131() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement125() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement131()
+	return p.cur.onSectionTitleLineElement125()
 }
 
-func (c *current) onSectionTitleElement133() (interface{}, error) {
+func (c *current) onSectionTitleLineElement127() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement133() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement127() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement133()
+	return p.cur.onSectionTitleLineElement127()
 }
 
-func (c *current) onSectionTitleElement126(start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement120(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonSectionTitleElement126() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement120() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement126(stack["start"])
+	return p.cur.onSectionTitleLineElement120(stack["start"])
 }
 
-func (c *current) onSectionTitleElement115(name, start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement109(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
 }
 
-func (p *parser) callonSectionTitleElement115() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement109() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement115(stack["name"], stack["start"])
+	return p.cur.onSectionTitleLineElement109(stack["name"], stack["start"])
 }
 
-func (c *current) onSectionTitleElement68(element interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement62(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonSectionTitleElement68() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement62() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement68(stack["element"])
+	return p.cur.onSectionTitleLineElement62(stack["element"])
 }
 
-func (c *current) onSectionTitleElement141() (interface{}, error) {
+func (c *current) onSectionTitleLineElement135() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonSectionTitleElement141() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement135() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement141()
+	return p.cur.onSectionTitleLineElement135()
 }
 
-func (c *current) onSectionTitleElement137(ref interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement131(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
 
-func (p *parser) callonSectionTitleElement137() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement131() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement137(stack["ref"])
+	return p.cur.onSectionTitleLineElement131(stack["ref"])
 }
 
-func (c *current) onSectionTitleElement147() (bool, error) {
+func (c *current) onSectionTitleLineElement141() (bool, error) {
 	return c.isPrecededBySpace(), nil
 
 }
 
-func (p *parser) callonSectionTitleElement147() (bool, error) {
+func (p *parser) callonSectionTitleLineElement141() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement147()
+	return p.cur.onSectionTitleLineElement141()
 }
 
-func (c *current) onSectionTitleElement157() (interface{}, error) {
+func (c *current) onSectionTitleLineElement151() (interface{}, error) {
 	// spaces, commas and dots are allowed in this syntax
 	return types.NewStringElement(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement157() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement151() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement157()
+	return p.cur.onSectionTitleLineElement151()
 }
 
-func (c *current) onSectionTitleElement164() (interface{}, error) {
+func (c *current) onSectionTitleLineElement158() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonSectionTitleElement164() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement158() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement164()
+	return p.cur.onSectionTitleLineElement158()
 }
 
-func (c *current) onSectionTitleElement160(ref interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement154(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
 
-func (p *parser) callonSectionTitleElement160() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement154() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement160(stack["ref"])
+	return p.cur.onSectionTitleLineElement154(stack["ref"])
 }
 
-func (c *current) onSectionTitleElement170() (bool, error) {
+func (c *current) onSectionTitleLineElement164() (bool, error) {
 	return c.isSubstitutionEnabled(AttributeRefs), nil
 
 }
 
-func (p *parser) callonSectionTitleElement170() (bool, error) {
+func (p *parser) callonSectionTitleLineElement164() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement170()
+	return p.cur.onSectionTitleLineElement164()
 }
 
-func (c *current) onSectionTitleElement177() (interface{}, error) {
+func (c *current) onSectionTitleLineElement171() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement177() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement171() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement177()
+	return p.cur.onSectionTitleLineElement171()
 }
 
-func (c *current) onSectionTitleElement173(name interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement167(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -70976,297 +71200,303 @@ func (c *current) onSectionTitleElement173(name interface{}) (interface{}, error
 
 }
 
-func (p *parser) callonSectionTitleElement173() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement167() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement173(stack["name"])
+	return p.cur.onSectionTitleLineElement167(stack["name"])
 }
 
-func (c *current) onSectionTitleElement187() (interface{}, error) {
+func (c *current) onSectionTitleLineElement181() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement187() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement181() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement187()
+	return p.cur.onSectionTitleLineElement181()
 }
 
-func (c *current) onSectionTitleElement183(name interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement177(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement183() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement177() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement183(stack["name"])
+	return p.cur.onSectionTitleLineElement177(stack["name"])
 }
 
-func (c *current) onSectionTitleElement197() (interface{}, error) {
+func (c *current) onSectionTitleLineElement191() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement197() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement191() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement197()
+	return p.cur.onSectionTitleLineElement191()
 }
 
-func (c *current) onSectionTitleElement209() (interface{}, error) {
+func (c *current) onSectionTitleLineElement203() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement209() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement203() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement209()
+	return p.cur.onSectionTitleLineElement203()
 }
 
-func (c *current) onSectionTitleElement211() (interface{}, error) {
+func (c *current) onSectionTitleLineElement205() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement211() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement205() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement211()
+	return p.cur.onSectionTitleLineElement205()
 }
 
-func (c *current) onSectionTitleElement204(start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement198(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonSectionTitleElement204() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement198() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement204(stack["start"])
+	return p.cur.onSectionTitleLineElement198(stack["start"])
 }
 
-func (c *current) onSectionTitleElement193(name, start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement187(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
 }
 
-func (p *parser) callonSectionTitleElement193() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement187() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement193(stack["name"], stack["start"])
+	return p.cur.onSectionTitleLineElement187(stack["name"], stack["start"])
 }
 
-func (c *current) onSectionTitleElement219() (interface{}, error) {
+func (c *current) onSectionTitleLineElement213() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement219() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement213() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement219()
+	return p.cur.onSectionTitleLineElement213()
 }
 
-func (c *current) onSectionTitleElement231() (interface{}, error) {
+func (c *current) onSectionTitleLineElement225() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement231() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement225() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement231()
+	return p.cur.onSectionTitleLineElement225()
 }
 
-func (c *current) onSectionTitleElement233() (interface{}, error) {
+func (c *current) onSectionTitleLineElement227() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement233() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement227() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement233()
+	return p.cur.onSectionTitleLineElement227()
 }
 
-func (c *current) onSectionTitleElement226(start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement220(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonSectionTitleElement226() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement220() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement226(stack["start"])
+	return p.cur.onSectionTitleLineElement220(stack["start"])
 }
 
-func (c *current) onSectionTitleElement215(name, start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement209(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
 }
 
-func (p *parser) callonSectionTitleElement215() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement209() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement215(stack["name"], stack["start"])
+	return p.cur.onSectionTitleLineElement209(stack["name"], stack["start"])
 }
 
-func (c *current) onSectionTitleElement168(element interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement162(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonSectionTitleElement168() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement162() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement168(stack["element"])
+	return p.cur.onSectionTitleLineElement162(stack["element"])
 }
 
-func (c *current) onSectionTitleElement237() (interface{}, error) {
+func (c *current) onSectionTitleLineElement231() (interface{}, error) {
 
 	return types.NewStringElement(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement237() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement231() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement237()
+	return p.cur.onSectionTitleLineElement231()
 }
 
-func (c *current) onSectionTitleElement153(elements interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement147(elements interface{}) (interface{}, error) {
 	return types.Reduce(elements, strings.TrimSpace), nil
 
 }
 
-func (p *parser) callonSectionTitleElement153() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement147() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement153(stack["elements"])
+	return p.cur.onSectionTitleLineElement147(stack["elements"])
 }
 
-func (c *current) onSectionTitleElement149(id interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement143(id interface{}) (interface{}, error) {
 	return types.NewIDAttribute(id)
 
 }
 
-func (p *parser) callonSectionTitleElement149() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement143() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement149(stack["id"])
+	return p.cur.onSectionTitleLineElement143(stack["id"])
 }
 
-func (c *current) onSectionTitleElement241() (interface{}, error) {
+func (c *current) onSectionTitleLineElement235() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement241() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement235() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement241()
+	return p.cur.onSectionTitleLineElement235()
 }
 
-func (c *current) onSectionTitleElement245() (interface{}, error) {
+func (c *current) onSectionTitleLineElement239() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonSectionTitleElement245() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement239() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement245()
+	return p.cur.onSectionTitleLineElement239()
 }
 
-func (c *current) onSectionTitleElement145(id interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement139(id interface{}) (interface{}, error) {
 
 	return id, nil
 
 }
 
-func (p *parser) callonSectionTitleElement145() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement139() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement145(stack["id"])
+	return p.cur.onSectionTitleLineElement139(stack["id"])
 }
 
-func (c *current) onSectionTitleElement256() (interface{}, error) {
+func (c *current) onSectionTitleLineElement250() (interface{}, error) {
 	// previously:(Alphas / (!Newline !Space !"[" !"]" !"<<" !">>" !","  .))+
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement256() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement250() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement256()
+	return p.cur.onSectionTitleLineElement250()
 }
 
-func (c *current) onSectionTitleElement252(id interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement246(id interface{}) (interface{}, error) {
 	return types.NewStringElement(strings.TrimPrefix(string(c.text), `\`))
 
 }
 
-func (p *parser) callonSectionTitleElement252() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement246() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement252(stack["id"])
+	return p.cur.onSectionTitleLineElement246(stack["id"])
 }
 
-func (c *current) onSectionTitleElement264() (interface{}, error) {
+func (c *current) onSectionTitleLineElement258() (interface{}, error) {
 	// previously:(Alphas / (!Newline !Space !"[" !"]" !"<<" !">>" !","  .))+
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement264() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement258() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement264()
+	return p.cur.onSectionTitleLineElement258()
 }
 
-func (c *current) onSectionTitleElement260(id interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement254(id interface{}) (interface{}, error) {
 	// no EOL here since there can be multiple InlineElementID on the same line
 	return types.NewInlineAnchor(id.(string))
 
 }
 
-func (p *parser) callonSectionTitleElement260() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement254() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement260(stack["id"])
+	return p.cur.onSectionTitleLineElement254(stack["id"])
 }
 
-func (c *current) onSectionTitleElement269() (interface{}, error) {
+func (c *current) onSectionTitleLineElement264() (interface{}, error) {
+	return c.currentLine(), nil
 
-	if log.IsLevelEnabled(log.DebugLevel) {
-		log.Debugf("matching anychar '%s' at position %v", string(c.text), c.pos.String())
-	}
-	return string(c.text), nil
+}
 
+func (p *parser) callonSectionTitleLineElement264() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSectionTitleLineElement264()
 }
 
-func (p *parser) callonSectionTitleElement269() (interface{}, error) {
+func (c *current) onSectionTitleLineElement266(start, element, end interface{}) (bool, error) {
+	return start == end, nil // titles are on a single line
+
+}
+
+func (p *parser) callonSectionTitleLineElement266() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement269()
+	return p.cur.onSectionTitleLineElement266(stack["start"], stack["element"], stack["end"])
 }
 
-func (c *current) onSectionTitleElement1(element interface{}) (interface{}, error) {
-	c.trackElement(element)
+func (c *current) onSectionTitleLineElement1(start, element, end interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonSectionTitleElement1() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement1() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement1(stack["element"])
+	return p.cur.onSectionTitleLineElement1(stack["start"], stack["element"], stack["end"])
 }
 
 func (c *current) onNormalGroup14() (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index e04ada4..1c355c1 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -377,7 +377,7 @@ BlockAttributes <-
             return title, nil
         })
         // default syntax
-        / (attributes:(LongHandAttributes) Space* EOL BlankLine*{
+        / (start:(CurrentLine) attributes:(LongHandAttributes) Space* end:(CurrentLine) &{ return start == end, nil } EOL BlankLine*{
             return attributes, nil
         })
     )+ {
@@ -1309,7 +1309,7 @@ ConcealedIndexTermContent <- (Alphanum / Space)+ {
 // Images
 // -------------------------------------------------------------------------------------
 ImageBlock <- 
-    "image::" path:(Location) attributes:(InlineAttributes) Space* EOL {
+    start:(CurrentLine) "image::" path:(Location) attributes:(InlineAttributes) Space* end:(CurrentLine) &{ return start == end, nil } EOL {
         // 'imagesdir' attribute is added after applying the attribute substitutions on the image location
         return types.NewImageBlock(path.(*types.Location), attributes.(types.Attributes))
     }
@@ -2306,6 +2306,13 @@ SectionTitle <-
 
 SectionTitleElement <-
     !EOL
+    element:(SectionTitleLineElement / AnyChar) {
+        c.trackElement(element)
+        return element, nil
+    }
+
+SectionTitleLineElement <-
+    start:(CurrentLine)
     element:(
         InlineText
         / Spaces
@@ -2321,11 +2328,14 @@ SectionTitleElement <-
         / ElementPlaceHolder // needed when parsing a second time, after first pass returned attribute substitutions
         / SectionTitleLegacyID
         / InlineAnchor // must be after LegacyElementID
-        / InlineFootnote
-        / AnyChar) {
-            c.trackElement(element)
-            return element, nil
-        }
+        / InlineFootnote)
+    end:(CurrentLine)
+    &{
+        return start == end, nil // titles are on a single line
+    }
+    {
+        return element, nil
+    }
 
 SectionTitleLegacyID <-
     // (legacy) element ID, must be preceded by a space
@@ -2871,4 +2881,9 @@ NotEOF <- &(.)
 EOF <- !.
 
 // TODO: remove and use `EOF` instead?
-EOL <- Newline / EOF
\ No newline at end of file
+EOL <- Newline / EOF
+
+// the line of the current position, to check that elements do not continue on the next lines
+CurrentLine <- "" {
+        return c.currentLine(), nil
+    }
-- 
2.43.0


From afa03f06b150f2332a4e3ef35fd4fecc9f7bb6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:35 +0000
Subject: [PATCH 080/143] fix: values of attributes with '=' were cut in the
 command line

---
 cmd/libasciidoc/root_cmd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/libasciidoc/root_cmd.go b/cmd/libasciidoc/root_cmd.go
index 27a188b..1a5fc99 100644
--- a/cmd/libasciidoc/root_cmd.go
+++ b/cmd/libasciidoc/root_cmd.go
@@ -126,7 +126,7 @@ func getOut(cmd *cobra.Command, sourcePath, outputName string) (io.Writer, close
 func parseAttributes(attributes []string) map[string]interface{} {
 	result := make(map[string]interface{}, len(attributes))
 	for _, attr := range attributes {
-		data := strings.Split(attr, "=")
+		data := strings.SplitN(attr, "=", 2) // the value may contain `=`, too
 		if len(data) > 1 {
 			result[data[0]] = data[1]
 		} else {
-- 
2.43.0


From 9b73aa999dc64c979d234c7a2988c426b4430bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:00 +0000
Subject: [PATCH 081/143] fix: the attributes given to WithAttributes replaced
 the ones of the backend, and were changed

---
 pkg/configuration/configuration.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/configuration/configuration.go b/pkg/configuration/configuration.go
index 69ab6c2..706f930 100644
--- a/pkg/configuration/configuration.go
+++ b/pkg/configuration/configuration.go
@@ -65,7 +65,10 @@ func WithLastUpdated(value time.Time) Setting {
 // WithAttributes function to set the `attribute overrides`
 func WithAttributes(attrs map[string]interface{}) Setting {
 	return func(config *Configuration) {
-		config.Attributes = attrs
+		// keep the other attributes, and do not change the given ones afterwards
+		for k, v := range attrs {
+			config.Attributes[k] = v
+		}
 	}
 }
 
-- 
2.43.0


From 053b869235db7edccf0745016f7b7e4336507158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:10 +0000
Subject: [PATCH 082/143] fix: the command overwrote its input file, and
 skipped the files it could not write without an error

---
 cmd/libasciidoc/root_cmd.go | 66 +++++++++++++++++++------------------
 1 file changed, 34 insertions(+), 32 deletions(-)

diff --git a/cmd/libasciidoc/root_cmd.go b/cmd/libasciidoc/root_cmd.go
index 1a5fc99..6dd6b01 100644
--- a/cmd/libasciidoc/root_cmd.go
+++ b/cmd/libasciidoc/root_cmd.go
@@ -10,6 +10,7 @@ import (
 	"github.com/bytesparadise/libasciidoc"
 	"github.com/bytesparadise/libasciidoc/pkg/configuration"
 
+	"github.com/pkg/errors"
 	pkgprofile "github.com/pkg/profile"
 	log "github.com/sirupsen/logrus"
 	"github.com/spf13/cobra"
@@ -54,20 +55,21 @@ func NewRootCmd() *cobra.Command {
 			}
 			attrs := parseAttributes(attributes)
 			for _, sourcePath := range args {
-				out, close := getOut(cmd, sourcePath, outputName)
-				if out != nil {
-					defer close() //nolint:errcheck
-					// log.Debugf("Starting to process file %v", path)
-					config := configuration.NewConfiguration(
-						configuration.WithFilename(sourcePath),
-						configuration.WithAttributes(attrs),
-						configuration.WithCSS(css),
-						configuration.WithBackEnd(backend),
-						configuration.WithHeaderFooter(!noHeaderFooter))
-					_, err := libasciidoc.ConvertFile(out, config)
-					if err != nil {
-						return err
-					}
+				out, close, err := getOut(cmd, sourcePath, outputName)
+				if err != nil {
+					return err
+				}
+				defer close() //nolint:errcheck
+				// log.Debugf("Starting to process file %v", path)
+				config := configuration.NewConfiguration(
+					configuration.WithFilename(sourcePath),
+					configuration.WithAttributes(attrs),
+					configuration.WithCSS(css),
+					configuration.WithBackEnd(backend),
+					configuration.WithHeaderFooter(!noHeaderFooter))
+				_, err = libasciidoc.ConvertFile(out, config)
+				if err != nil {
+					return err
 				}
 			}
 			return nil
@@ -97,29 +99,29 @@ func newCloseFileFunc(c io.Closer) closeFunc {
 	}
 }
 
-func getOut(cmd *cobra.Command, sourcePath, outputName string) (io.Writer, closeFunc) {
+func getOut(cmd *cobra.Command, sourcePath, outputName string) (io.Writer, closeFunc, error) {
 	if outputName == "-" {
 		// outfile is STDOUT
-		return cmd.OutOrStdout(), defaultCloseFunc()
-	} else if outputName != "" {
-		// outfile is specified in the command line
-		outfile, e := os.Create(outputName)
-		if e != nil {
-			log.Warnf("Cannot create output file - %v, skipping", outputName)
-		}
-		return outfile, newCloseFileFunc(outfile)
-	} else if sourcePath != "" {
+		return cmd.OutOrStdout(), defaultCloseFunc(), nil
+	}
+	if outputName == "" {
 		// outfile is based on sourcePath
 		path, _ := filepath.Abs(sourcePath)
-		outname := strings.TrimSuffix(path, filepath.Ext(path)) + ".html"
-		outfile, err := os.Create(outname)
-		if err != nil {
-			log.Warnf("Cannot create output file - %v, skipping", outname)
-			return nil, nil
-		}
-		return outfile, newCloseFileFunc(outfile)
+		outputName = strings.TrimSuffix(path, filepath.Ext(path)) + ".html"
+	}
+	// do not create nor overwrite any file if the source cannot be read, or if it is the output, too
+	source, err := os.Stat(sourcePath)
+	if err != nil {
+		return nil, nil, errors.Wrapf(err, "error opening %s", sourcePath)
+	}
+	if out, err := os.Stat(outputName); err == nil && os.SameFile(source, out) {
+		return nil, nil, errors.Errorf("the input and output files are the same: %s", sourcePath)
+	}
+	outfile, err := os.Create(outputName)
+	if err != nil {
+		return nil, nil, errors.Wrap(err, "cannot create output file")
 	}
-	return cmd.OutOrStdout(), defaultCloseFunc()
+	return outfile, newCloseFileFunc(outfile), nil
 }
 
 // converts the `name`, `!name` and `name=value` into a map
-- 
2.43.0


From 3c1cae8c0db9cbf94a2e9235589c984921e1e911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:15 +0000
Subject: [PATCH 083/143] fix: references to attributes of the front-matter and
 the configuration which are not strings failed

---
 pkg/parser/document_processing_apply_substitutions.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 3f42b7a..7dfee8c 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -587,10 +587,14 @@ func valueForAttributeRef(ctx *ParseContext, a *types.AttributeReference) (inter
 	case nil: // declared without a value
 		return "", true, nil
 	case []interface{}:
-		s, err := sgml.RenderPlainText(v)
-		return s, true, err
+		if s, err := sgml.RenderPlainText(v); err == nil {
+			return s, true, nil
+		}
+		return strings.Trim(fmt.Sprint(v), "[]"), true, nil // sequence of values in the front-matter
 	case *types.DocumentAuthorFullName:
 		return v.FullName(), true, nil
+	case bool, int, int64, uint64, float64, time.Time, map[interface{}]interface{}: // in the configuration or in the front-matter
+		return fmt.Sprint(v), true, nil
 	default:
 		return v, true, nil
 	}
-- 
2.43.0


From 748bbc769822cb53688d5cdef13a47c31f3c4c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:26 +0000
Subject: [PATCH 084/143] fix: comments within list elements split their
 paragraphs, the ones with '::' were list elements, and the last ones in
 paragraphs with line breaks gave a break

---
 pkg/parser/parser.go           | 15494 ++++++++++++++++---------------
 pkg/parser/parser.peg          |     1 +
 pkg/renderer/sgml/paragraph.go |     3 +-
 pkg/types/types.go             |     2 +
 4 files changed, 7836 insertions(+), 7664 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index a93ece7..b99e8b2 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 360, col: 49, offset: 10940},
 													expr: &actionExpr{
-														pos: position{line: 2862, col: 10, offset: 90584},
+														pos: position{line: 2863, col: 10, offset: 90616},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2862, col: 10, offset: 90584},
+															pos:        position{line: 2863, col: 10, offset: 90616},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2884, col: 8, offset: 90982},
+													pos: position{line: 2885, col: 8, offset: 91014},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2871, col: 12, offset: 90755},
+															pos: position{line: 2872, col: 12, offset: 90787},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2871, col: 13, offset: 90756},
+																pos: position{line: 2872, col: 13, offset: 90788},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2871, col: 13, offset: 90756},
+																		pos:        position{line: 2872, col: 13, offset: 90788},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2871, col: 20, offset: 90763},
+																		pos:        position{line: 2872, col: 20, offset: 90795},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2871, col: 29, offset: 90772},
+																		pos:        position{line: 2872, col: 29, offset: 90804},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2881, col: 8, offset: 90932},
+															pos: position{line: 2882, col: 8, offset: 90964},
 															expr: &anyMatcher{
-																line: 2881, col: 9, offset: 90933,
+																line: 2882, col: 9, offset: 90965,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 39, offset: 11061},
 													expr: &actionExpr{
-														pos: position{line: 2862, col: 10, offset: 90584},
+														pos: position{line: 2863, col: 10, offset: 90616},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2862, col: 10, offset: 90584},
+															pos:        position{line: 2863, col: 10, offset: 90616},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2884, col: 8, offset: 90982},
+													pos: position{line: 2885, col: 8, offset: 91014},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2871, col: 12, offset: 90755},
+															pos: position{line: 2872, col: 12, offset: 90787},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2871, col: 13, offset: 90756},
+																pos: position{line: 2872, col: 13, offset: 90788},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2871, col: 13, offset: 90756},
+																		pos:        position{line: 2872, col: 13, offset: 90788},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2871, col: 20, offset: 90763},
+																		pos:        position{line: 2872, col: 20, offset: 90795},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2871, col: 29, offset: 90772},
+																		pos:        position{line: 2872, col: 29, offset: 90804},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2881, col: 8, offset: 90932},
+															pos: position{line: 2882, col: 8, offset: 90964},
 															expr: &anyMatcher{
-																line: 2881, col: 9, offset: 90933,
+																line: 2882, col: 9, offset: 90965,
 															},
 														},
 													},
@@ -321,10 +321,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 78, col: 41, offset: 2149},
 																						expr: &actionExpr{
-																							pos: position{line: 2862, col: 10, offset: 90584},
+																							pos: position{line: 2863, col: 10, offset: 90616},
 																							run: (*parser).callonDocumentRawLine66,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2862, col: 10, offset: 90584},
+																								pos:        position{line: 2863, col: 10, offset: 90616},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -333,9 +333,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2881, col: 8, offset: 90932},
+																						pos: position{line: 2882, col: 8, offset: 90964},
 																						expr: &anyMatcher{
-																							line: 2881, col: 9, offset: 90933,
+																							line: 2882, col: 9, offset: 90965,
 																						},
 																					},
 																				},
@@ -363,10 +363,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2862, col: 10, offset: 90584},
+														pos: position{line: 2863, col: 10, offset: 90616},
 														run: (*parser).callonDocumentRawLine73,
 														expr: &charClassMatcher{
-															pos:        position{line: 2862, col: 10, offset: 90584},
+															pos:        position{line: 2863, col: 10, offset: 90616},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -375,9 +375,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2881, col: 8, offset: 90932},
+													pos: position{line: 2882, col: 8, offset: 90964},
 													expr: &anyMatcher{
-														line: 2881, col: 9, offset: 90933,
+														line: 2882, col: 9, offset: 90965,
 													},
 												},
 											},
@@ -446,10 +446,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 78, col: 41, offset: 2149},
 																						expr: &actionExpr{
-																							pos: position{line: 2862, col: 10, offset: 90584},
+																							pos: position{line: 2863, col: 10, offset: 90616},
 																							run: (*parser).callonDocumentRawLine94,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2862, col: 10, offset: 90584},
+																								pos:        position{line: 2863, col: 10, offset: 90616},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -458,9 +458,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2881, col: 8, offset: 90932},
+																						pos: position{line: 2882, col: 8, offset: 90964},
 																						expr: &anyMatcher{
-																							line: 2881, col: 9, offset: 90933,
+																							line: 2882, col: 9, offset: 90965,
 																						},
 																					},
 																				},
@@ -488,10 +488,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2862, col: 10, offset: 90584},
+														pos: position{line: 2863, col: 10, offset: 90616},
 														run: (*parser).callonDocumentRawLine101,
 														expr: &charClassMatcher{
-															pos:        position{line: 2862, col: 10, offset: 90584},
+															pos:        position{line: 2863, col: 10, offset: 90616},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -500,9 +500,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2881, col: 8, offset: 90932},
+													pos: position{line: 2882, col: 8, offset: 90964},
 													expr: &anyMatcher{
-														line: 2881, col: 9, offset: 90933,
+														line: 2882, col: 9, offset: 90965,
 													},
 												},
 											},
@@ -972,24 +972,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2858, col: 10, offset: 90487},
+																pos: position{line: 2859, col: 10, offset: 90519},
 																run: (*parser).callonDocumentRawLine197,
 																expr: &seqExpr{
-																	pos: position{line: 2858, col: 11, offset: 90488},
+																	pos: position{line: 2859, col: 11, offset: 90520},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2858, col: 11, offset: 90488},
+																			pos: position{line: 2859, col: 11, offset: 90520},
 																			expr: &litMatcher{
-																				pos:        position{line: 2858, col: 11, offset: 90488},
+																				pos:        position{line: 2859, col: 11, offset: 90520},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2858, col: 16, offset: 90493},
+																			pos: position{line: 2859, col: 16, offset: 90525},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2858, col: 16, offset: 90493},
+																				pos:        position{line: 2859, col: 16, offset: 90525},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -997,15 +997,15 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2858, col: 23, offset: 90500},
+																			pos:        position{line: 2859, col: 23, offset: 90532},
 																			val:        ".",
 																			ignoreCase: false,
 																			want:       "\".\"",
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2858, col: 27, offset: 90504},
+																			pos: position{line: 2859, col: 27, offset: 90536},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2858, col: 27, offset: 90504},
+																				pos:        position{line: 2859, col: 27, offset: 90536},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1016,24 +1016,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2854, col: 12, offset: 90411},
+																pos: position{line: 2855, col: 12, offset: 90443},
 																run: (*parser).callonDocumentRawLine206,
 																expr: &seqExpr{
-																	pos: position{line: 2854, col: 13, offset: 90412},
+																	pos: position{line: 2855, col: 13, offset: 90444},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2854, col: 13, offset: 90412},
+																			pos: position{line: 2855, col: 13, offset: 90444},
 																			expr: &litMatcher{
-																				pos:        position{line: 2854, col: 13, offset: 90412},
+																				pos:        position{line: 2855, col: 13, offset: 90444},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2854, col: 18, offset: 90417},
+																			pos: position{line: 2855, col: 18, offset: 90449},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2854, col: 18, offset: 90417},
+																				pos:        position{line: 2855, col: 18, offset: 90449},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1049,10 +1049,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2280},
 													expr: &actionExpr{
-														pos: position{line: 2862, col: 10, offset: 90584},
+														pos: position{line: 2863, col: 10, offset: 90616},
 														run: (*parser).callonDocumentRawLine213,
 														expr: &charClassMatcher{
-															pos:        position{line: 2862, col: 10, offset: 90584},
+															pos:        position{line: 2863, col: 10, offset: 90616},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1132,10 +1132,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2326},
 													expr: &actionExpr{
-														pos: position{line: 2862, col: 10, offset: 90584},
+														pos: position{line: 2863, col: 10, offset: 90616},
 														run: (*parser).callonDocumentRawLine230,
 														expr: &charClassMatcher{
-															pos:        position{line: 2862, col: 10, offset: 90584},
+															pos:        position{line: 2863, col: 10, offset: 90616},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1595,24 +1595,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2858, col: 10, offset: 90487},
+																pos: position{line: 2859, col: 10, offset: 90519},
 																run: (*parser).callonDocumentRawLine321,
 																expr: &seqExpr{
-																	pos: position{line: 2858, col: 11, offset: 90488},
+																	pos: position{line: 2859, col: 11, offset: 90520},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2858, col: 11, offset: 90488},
+																			pos: position{line: 2859, col: 11, offset: 90520},
 																			expr: &litMatcher{
-																				pos:        position{line: 2858, col: 11, offset: 90488},
+																				pos:        position{line: 2859, col: 11, offset: 90520},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2858, col: 16, offset: 90493},
+																			pos: position{line: 2859, col: 16, offset: 90525},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2858, col: 16, offset: 90493},
+																				pos:        position{line: 2859, col: 16, offset: 90525},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1620,15 +1620,15 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2858, col: 23, offset: 90500},
+																			pos:        position{line: 2859, col: 23, offset: 90532},
 																			val:        ".",
 																			ignoreCase: false,
 																			want:       "\".\"",
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2858, col: 27, offset: 90504},
+																			pos: position{line: 2859, col: 27, offset: 90536},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2858, col: 27, offset: 90504},
+																				pos:        position{line: 2859, col: 27, offset: 90536},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1639,24 +1639,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2854, col: 12, offset: 90411},
+																pos: position{line: 2855, col: 12, offset: 90443},
 																run: (*parser).callonDocumentRawLine330,
 																expr: &seqExpr{
-																	pos: position{line: 2854, col: 13, offset: 90412},
+																	pos: position{line: 2855, col: 13, offset: 90444},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2854, col: 13, offset: 90412},
+																			pos: position{line: 2855, col: 13, offset: 90444},
 																			expr: &litMatcher{
-																				pos:        position{line: 2854, col: 13, offset: 90412},
+																				pos:        position{line: 2855, col: 13, offset: 90444},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2854, col: 18, offset: 90417},
+																			pos: position{line: 2855, col: 18, offset: 90449},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2854, col: 18, offset: 90417},
+																				pos:        position{line: 2855, col: 18, offset: 90449},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1678,10 +1678,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2378},
 													expr: &actionExpr{
-														pos: position{line: 2862, col: 10, offset: 90584},
+														pos: position{line: 2863, col: 10, offset: 90616},
 														run: (*parser).callonDocumentRawLine338,
 														expr: &charClassMatcher{
-															pos:        position{line: 2862, col: 10, offset: 90584},
+															pos:        position{line: 2863, col: 10, offset: 90616},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1690,9 +1690,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2881, col: 8, offset: 90932},
+													pos: position{line: 2882, col: 8, offset: 90964},
 													expr: &anyMatcher{
-														line: 2881, col: 9, offset: 90933,
+														line: 2882, col: 9, offset: 90965,
 													},
 												},
 											},
@@ -1764,10 +1764,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 78, col: 41, offset: 2149},
 																						expr: &actionExpr{
-																							pos: position{line: 2862, col: 10, offset: 90584},
+																							pos: position{line: 2863, col: 10, offset: 90616},
 																							run: (*parser).callonDocumentRawLine360,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2862, col: 10, offset: 90584},
+																								pos:        position{line: 2863, col: 10, offset: 90616},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -1776,9 +1776,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2881, col: 8, offset: 90932},
+																						pos: position{line: 2882, col: 8, offset: 90964},
 																						expr: &anyMatcher{
-																							line: 2881, col: 9, offset: 90933,
+																							line: 2882, col: 9, offset: 90965,
 																						},
 																					},
 																				},
@@ -1806,10 +1806,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3474},
 													expr: &actionExpr{
-														pos: position{line: 2862, col: 10, offset: 90584},
+														pos: position{line: 2863, col: 10, offset: 90616},
 														run: (*parser).callonDocumentRawLine367,
 														expr: &charClassMatcher{
-															pos:        position{line: 2862, col: 10, offset: 90584},
+															pos:        position{line: 2863, col: 10, offset: 90616},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1818,9 +1818,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2881, col: 8, offset: 90932},
+													pos: position{line: 2882, col: 8, offset: 90964},
 													expr: &anyMatcher{
-														line: 2881, col: 9, offset: 90933,
+														line: 2882, col: 9, offset: 90965,
 													},
 												},
 											},
@@ -1835,7 +1835,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 724, col: 5, offset: 23110},
 													expr: &charClassMatcher{
-														pos:        position{line: 2752, col: 13, offset: 87679},
+														pos:        position{line: 2753, col: 13, offset: 87711},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1885,10 +1885,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 742, col: 8, offset: 23754},
 																			expr: &actionExpr{
-																				pos: position{line: 2862, col: 10, offset: 90584},
+																				pos: position{line: 2863, col: 10, offset: 90616},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2862, col: 10, offset: 90584},
+																					pos:        position{line: 2863, col: 10, offset: 90616},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1897,28 +1897,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2884, col: 8, offset: 90982},
+																			pos: position{line: 2885, col: 8, offset: 91014},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2871, col: 12, offset: 90755},
+																					pos: position{line: 2872, col: 12, offset: 90787},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2871, col: 13, offset: 90756},
+																						pos: position{line: 2872, col: 13, offset: 90788},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2871, col: 13, offset: 90756},
+																								pos:        position{line: 2872, col: 13, offset: 90788},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2871, col: 20, offset: 90763},
+																								pos:        position{line: 2872, col: 20, offset: 90795},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2871, col: 29, offset: 90772},
+																								pos:        position{line: 2872, col: 29, offset: 90804},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1927,9 +1927,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2881, col: 8, offset: 90932},
+																					pos: position{line: 2882, col: 8, offset: 90964},
 																					expr: &anyMatcher{
-																						line: 2881, col: 9, offset: 90933,
+																						line: 2882, col: 9, offset: 90965,
 																					},
 																				},
 																			},
@@ -1974,10 +1974,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 749, col: 8, offset: 24002},
 																			expr: &actionExpr{
-																				pos: position{line: 2862, col: 10, offset: 90584},
+																				pos: position{line: 2863, col: 10, offset: 90616},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2862, col: 10, offset: 90584},
+																					pos:        position{line: 2863, col: 10, offset: 90616},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1986,28 +1986,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2884, col: 8, offset: 90982},
+																			pos: position{line: 2885, col: 8, offset: 91014},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2871, col: 12, offset: 90755},
+																					pos: position{line: 2872, col: 12, offset: 90787},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2871, col: 13, offset: 90756},
+																						pos: position{line: 2872, col: 13, offset: 90788},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2871, col: 13, offset: 90756},
+																								pos:        position{line: 2872, col: 13, offset: 90788},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2871, col: 20, offset: 90763},
+																								pos:        position{line: 2872, col: 20, offset: 90795},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2871, col: 29, offset: 90772},
+																								pos:        position{line: 2872, col: 29, offset: 90804},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2016,9 +2016,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2881, col: 8, offset: 90932},
+																					pos: position{line: 2882, col: 8, offset: 90964},
 																					expr: &anyMatcher{
-																						line: 2881, col: 9, offset: 90933,
+																						line: 2882, col: 9, offset: 90965,
 																					},
 																				},
 																			},
@@ -2059,10 +2059,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 760, col: 52, offset: 24414},
 																			expr: &actionExpr{
-																				pos: position{line: 2862, col: 10, offset: 90584},
+																				pos: position{line: 2863, col: 10, offset: 90616},
 																				run: (*parser).callonDocumentRawLine423,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2862, col: 10, offset: 90584},
+																					pos:        position{line: 2863, col: 10, offset: 90616},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2071,28 +2071,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2884, col: 8, offset: 90982},
+																			pos: position{line: 2885, col: 8, offset: 91014},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2871, col: 12, offset: 90755},
+																					pos: position{line: 2872, col: 12, offset: 90787},
 																					run: (*parser).callonDocumentRawLine426,
 																					expr: &choiceExpr{
-																						pos: position{line: 2871, col: 13, offset: 90756},
+																						pos: position{line: 2872, col: 13, offset: 90788},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2871, col: 13, offset: 90756},
+																								pos:        position{line: 2872, col: 13, offset: 90788},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2871, col: 20, offset: 90763},
+																								pos:        position{line: 2872, col: 20, offset: 90795},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2871, col: 29, offset: 90772},
+																								pos:        position{line: 2872, col: 29, offset: 90804},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2101,9 +2101,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2881, col: 8, offset: 90932},
+																					pos: position{line: 2882, col: 8, offset: 90964},
 																					expr: &anyMatcher{
-																						line: 2881, col: 9, offset: 90933,
+																						line: 2882, col: 9, offset: 90965,
 																					},
 																				},
 																			},
@@ -2148,10 +2148,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 756, col: 8, offset: 24248},
 																			expr: &actionExpr{
-																				pos: position{line: 2862, col: 10, offset: 90584},
+																				pos: position{line: 2863, col: 10, offset: 90616},
 																				run: (*parser).callonDocumentRawLine442,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2862, col: 10, offset: 90584},
+																					pos:        position{line: 2863, col: 10, offset: 90616},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2160,28 +2160,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2884, col: 8, offset: 90982},
+																			pos: position{line: 2885, col: 8, offset: 91014},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2871, col: 12, offset: 90755},
+																					pos: position{line: 2872, col: 12, offset: 90787},
 																					run: (*parser).callonDocumentRawLine445,
 																					expr: &choiceExpr{
-																						pos: position{line: 2871, col: 13, offset: 90756},
+																						pos: position{line: 2872, col: 13, offset: 90788},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2871, col: 13, offset: 90756},
+																								pos:        position{line: 2872, col: 13, offset: 90788},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2871, col: 20, offset: 90763},
+																								pos:        position{line: 2872, col: 20, offset: 90795},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2871, col: 29, offset: 90772},
+																								pos:        position{line: 2872, col: 29, offset: 90804},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2190,9 +2190,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2881, col: 8, offset: 90932},
+																					pos: position{line: 2882, col: 8, offset: 90964},
 																					expr: &anyMatcher{
-																						line: 2881, col: 9, offset: 90933,
+																						line: 2882, col: 9, offset: 90965,
 																					},
 																				},
 																			},
@@ -2237,10 +2237,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 771, col: 8, offset: 24791},
 																			expr: &actionExpr{
-																				pos: position{line: 2862, col: 10, offset: 90584},
+																				pos: position{line: 2863, col: 10, offset: 90616},
 																				run: (*parser).callonDocumentRawLine461,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2862, col: 10, offset: 90584},
+																					pos:        position{line: 2863, col: 10, offset: 90616},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2249,28 +2249,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2884, col: 8, offset: 90982},
+																			pos: position{line: 2885, col: 8, offset: 91014},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2871, col: 12, offset: 90755},
+																					pos: position{line: 2872, col: 12, offset: 90787},
 																					run: (*parser).callonDocumentRawLine464,
 																					expr: &choiceExpr{
-																						pos: position{line: 2871, col: 13, offset: 90756},
+																						pos: position{line: 2872, col: 13, offset: 90788},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2871, col: 13, offset: 90756},
+																								pos:        position{line: 2872, col: 13, offset: 90788},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2871, col: 20, offset: 90763},
+																								pos:        position{line: 2872, col: 20, offset: 90795},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2871, col: 29, offset: 90772},
+																								pos:        position{line: 2872, col: 29, offset: 90804},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2279,9 +2279,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2881, col: 8, offset: 90932},
+																					pos: position{line: 2882, col: 8, offset: 90964},
 																					expr: &anyMatcher{
-																						line: 2881, col: 9, offset: 90933,
+																						line: 2882, col: 9, offset: 90965,
 																					},
 																				},
 																			},
@@ -2326,10 +2326,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 785, col: 8, offset: 25267},
 																			expr: &actionExpr{
-																				pos: position{line: 2862, col: 10, offset: 90584},
+																				pos: position{line: 2863, col: 10, offset: 90616},
 																				run: (*parser).callonDocumentRawLine480,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2862, col: 10, offset: 90584},
+																					pos:        position{line: 2863, col: 10, offset: 90616},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2338,28 +2338,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2884, col: 8, offset: 90982},
+																			pos: position{line: 2885, col: 8, offset: 91014},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2871, col: 12, offset: 90755},
+																					pos: position{line: 2872, col: 12, offset: 90787},
 																					run: (*parser).callonDocumentRawLine483,
 																					expr: &choiceExpr{
-																						pos: position{line: 2871, col: 13, offset: 90756},
+																						pos: position{line: 2872, col: 13, offset: 90788},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2871, col: 13, offset: 90756},
+																								pos:        position{line: 2872, col: 13, offset: 90788},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2871, col: 20, offset: 90763},
+																								pos:        position{line: 2872, col: 20, offset: 90795},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2871, col: 29, offset: 90772},
+																								pos:        position{line: 2872, col: 29, offset: 90804},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2368,9 +2368,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2881, col: 8, offset: 90932},
+																					pos: position{line: 2882, col: 8, offset: 90964},
 																					expr: &anyMatcher{
-																						line: 2881, col: 9, offset: 90933,
+																						line: 2882, col: 9, offset: 90965,
 																					},
 																				},
 																			},
@@ -2415,10 +2415,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 792, col: 8, offset: 25519},
 																			expr: &actionExpr{
-																				pos: position{line: 2862, col: 10, offset: 90584},
+																				pos: position{line: 2863, col: 10, offset: 90616},
 																				run: (*parser).callonDocumentRawLine499,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2862, col: 10, offset: 90584},
+																					pos:        position{line: 2863, col: 10, offset: 90616},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2427,28 +2427,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2884, col: 8, offset: 90982},
+																			pos: position{line: 2885, col: 8, offset: 91014},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2871, col: 12, offset: 90755},
+																					pos: position{line: 2872, col: 12, offset: 90787},
 																					run: (*parser).callonDocumentRawLine502,
 																					expr: &choiceExpr{
-																						pos: position{line: 2871, col: 13, offset: 90756},
+																						pos: position{line: 2872, col: 13, offset: 90788},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2871, col: 13, offset: 90756},
+																								pos:        position{line: 2872, col: 13, offset: 90788},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2871, col: 20, offset: 90763},
+																								pos:        position{line: 2872, col: 20, offset: 90795},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2871, col: 29, offset: 90772},
+																								pos:        position{line: 2872, col: 29, offset: 90804},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2457,9 +2457,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2881, col: 8, offset: 90932},
+																					pos: position{line: 2882, col: 8, offset: 90964},
 																					expr: &anyMatcher{
-																						line: 2881, col: 9, offset: 90933,
+																						line: 2882, col: 9, offset: 90965,
 																					},
 																				},
 																			},
@@ -2504,10 +2504,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 799, col: 8, offset: 25769},
 																			expr: &actionExpr{
-																				pos: position{line: 2862, col: 10, offset: 90584},
+																				pos: position{line: 2863, col: 10, offset: 90616},
 																				run: (*parser).callonDocumentRawLine518,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2862, col: 10, offset: 90584},
+																					pos:        position{line: 2863, col: 10, offset: 90616},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2516,28 +2516,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2884, col: 8, offset: 90982},
+																			pos: position{line: 2885, col: 8, offset: 91014},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2871, col: 12, offset: 90755},
+																					pos: position{line: 2872, col: 12, offset: 90787},
 																					run: (*parser).callonDocumentRawLine521,
 																					expr: &choiceExpr{
-																						pos: position{line: 2871, col: 13, offset: 90756},
+																						pos: position{line: 2872, col: 13, offset: 90788},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2871, col: 13, offset: 90756},
+																								pos:        position{line: 2872, col: 13, offset: 90788},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2871, col: 20, offset: 90763},
+																								pos:        position{line: 2872, col: 20, offset: 90795},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2871, col: 29, offset: 90772},
+																								pos:        position{line: 2872, col: 29, offset: 90804},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2546,9 +2546,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2881, col: 8, offset: 90932},
+																					pos: position{line: 2882, col: 8, offset: 90964},
 																					expr: &anyMatcher{
-																						line: 2881, col: 9, offset: 90933,
+																						line: 2882, col: 9, offset: 90965,
 																					},
 																				},
 																			},
@@ -2593,10 +2593,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 806, col: 8, offset: 26015},
 																			expr: &actionExpr{
-																				pos: position{line: 2862, col: 10, offset: 90584},
+																				pos: position{line: 2863, col: 10, offset: 90616},
 																				run: (*parser).callonDocumentRawLine537,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2862, col: 10, offset: 90584},
+																					pos:        position{line: 2863, col: 10, offset: 90616},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2605,28 +2605,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2884, col: 8, offset: 90982},
+																			pos: position{line: 2885, col: 8, offset: 91014},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2871, col: 12, offset: 90755},
+																					pos: position{line: 2872, col: 12, offset: 90787},
 																					run: (*parser).callonDocumentRawLine540,
 																					expr: &choiceExpr{
-																						pos: position{line: 2871, col: 13, offset: 90756},
+																						pos: position{line: 2872, col: 13, offset: 90788},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2871, col: 13, offset: 90756},
+																								pos:        position{line: 2872, col: 13, offset: 90788},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2871, col: 20, offset: 90763},
+																								pos:        position{line: 2872, col: 20, offset: 90795},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2871, col: 29, offset: 90772},
+																								pos:        position{line: 2872, col: 29, offset: 90804},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2635,9 +2635,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2881, col: 8, offset: 90932},
+																					pos: position{line: 2882, col: 8, offset: 90964},
 																					expr: &anyMatcher{
-																						line: 2881, col: 9, offset: 90933,
+																						line: 2882, col: 9, offset: 90965,
 																					},
 																				},
 																			},
@@ -2687,12 +2687,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine555,
 												},
 												&actionExpr{
-													pos: position{line: 2866, col: 11, offset: 90645},
+													pos: position{line: 2867, col: 11, offset: 90677},
 													run: (*parser).callonDocumentRawLine556,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2866, col: 11, offset: 90645},
+														pos: position{line: 2867, col: 11, offset: 90677},
 														expr: &charClassMatcher{
-															pos:        position{line: 2866, col: 11, offset: 90645},
+															pos:        position{line: 2867, col: 11, offset: 90677},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2701,12 +2701,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2812, col: 14, offset: 89177},
+													pos: position{line: 2813, col: 14, offset: 89209},
 													run: (*parser).callonDocumentRawLine559,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2812, col: 14, offset: 89177},
+														pos: position{line: 2813, col: 14, offset: 89209},
 														expr: &charClassMatcher{
-															pos:        position{line: 2812, col: 14, offset: 89177},
+															pos:        position{line: 2813, col: 14, offset: 89209},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2715,9 +2715,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2881, col: 8, offset: 90932},
+													pos: position{line: 2882, col: 8, offset: 90964},
 													expr: &anyMatcher{
-														line: 2881, col: 9, offset: 90933,
+														line: 2882, col: 9, offset: 90965,
 													},
 												},
 											},
@@ -2727,9 +2727,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2881, col: 8, offset: 90932},
+							pos: position{line: 2882, col: 8, offset: 90964},
 							expr: &anyMatcher{
-								line: 2881, col: 9, offset: 90933,
+								line: 2882, col: 9, offset: 90965,
 							},
 						},
 					},
@@ -2764,41 +2764,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2816, col: 17, offset: 89247},
+												pos: position{line: 2817, col: 17, offset: 89279},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2816, col: 17, offset: 89247},
+													pos:   position{line: 2817, col: 17, offset: 89279},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2833, col: 5, offset: 89701},
+														pos: position{line: 2834, col: 5, offset: 89733},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2833, col: 5, offset: 89701},
+															pos:   position{line: 2834, col: 5, offset: 89733},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2833, col: 14, offset: 89710},
+																pos: position{line: 2834, col: 14, offset: 89742},
 																expr: &choiceExpr{
-																	pos: position{line: 2834, col: 9, offset: 89720},
+																	pos: position{line: 2835, col: 9, offset: 89752},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2834, col: 9, offset: 89720},
+																			pos: position{line: 2835, col: 9, offset: 89752},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2834, col: 9, offset: 89720},
+																				pos: position{line: 2835, col: 9, offset: 89752},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2834, col: 9, offset: 89720},
+																						pos: position{line: 2835, col: 9, offset: 89752},
 																						expr: &litMatcher{
-																							pos:        position{line: 2834, col: 10, offset: 89721},
+																							pos:        position{line: 2835, col: 10, offset: 89753},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2835, col: 9, offset: 89749},
+																						pos: position{line: 2836, col: 9, offset: 89781},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2835, col: 10, offset: 89750},
+																							pos:        position{line: 2836, col: 10, offset: 89782},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2809,27 +2809,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2838, col: 11, offset: 89962},
+																			pos: position{line: 2839, col: 11, offset: 89994},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2838, col: 11, offset: 89962},
+																					pos:        position{line: 2839, col: 11, offset: 89994},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2838, col: 19, offset: 89970},
+																					pos: position{line: 2839, col: 19, offset: 90002},
 																					expr: &seqExpr{
-																						pos: position{line: 2838, col: 21, offset: 89972},
+																						pos: position{line: 2839, col: 21, offset: 90004},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2838, col: 21, offset: 89972},
+																								pos: position{line: 2839, col: 21, offset: 90004},
 																								expr: &actionExpr{
-																									pos: position{line: 2862, col: 10, offset: 90584},
+																									pos: position{line: 2863, col: 10, offset: 90616},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2862, col: 10, offset: 90584},
+																										pos:        position{line: 2863, col: 10, offset: 90616},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2838,11 +2838,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2838, col: 28, offset: 89979},
+																								pos: position{line: 2839, col: 28, offset: 90011},
 																								expr: &notExpr{
-																									pos: position{line: 2881, col: 8, offset: 90932},
+																									pos: position{line: 2882, col: 8, offset: 90964},
 																									expr: &anyMatcher{
-																										line: 2881, col: 9, offset: 90933,
+																										line: 2882, col: 9, offset: 90965,
 																									},
 																								},
 																							},
@@ -3237,10 +3237,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2841, col: 11, offset: 90099},
+																			pos: position{line: 2842, col: 11, offset: 90131},
 																			run: (*parser).callonFileInclusion107,
 																			expr: &litMatcher{
-																				pos:        position{line: 2841, col: 11, offset: 90099},
+																				pos:        position{line: 2842, col: 11, offset: 90131},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3269,10 +3269,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2862, col: 10, offset: 90584},
+								pos: position{line: 2863, col: 10, offset: 90616},
 								run: (*parser).callonFileInclusion112,
 								expr: &charClassMatcher{
-									pos:        position{line: 2862, col: 10, offset: 90584},
+									pos:        position{line: 2863, col: 10, offset: 90616},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3281,28 +3281,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2884, col: 8, offset: 90982},
+							pos: position{line: 2885, col: 8, offset: 91014},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2871, col: 12, offset: 90755},
+									pos: position{line: 2872, col: 12, offset: 90787},
 									run: (*parser).callonFileInclusion115,
 									expr: &choiceExpr{
-										pos: position{line: 2871, col: 13, offset: 90756},
+										pos: position{line: 2872, col: 13, offset: 90788},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2871, col: 13, offset: 90756},
+												pos:        position{line: 2872, col: 13, offset: 90788},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2871, col: 20, offset: 90763},
+												pos:        position{line: 2872, col: 20, offset: 90795},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2871, col: 29, offset: 90772},
+												pos:        position{line: 2872, col: 29, offset: 90804},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3311,9 +3311,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2881, col: 8, offset: 90932},
+									pos: position{line: 2882, col: 8, offset: 90964},
 									expr: &anyMatcher{
-										line: 2881, col: 9, offset: 90933,
+										line: 2882, col: 9, offset: 90965,
 									},
 								},
 							},
@@ -3359,24 +3359,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2854, col: 12, offset: 90411},
+																				pos: position{line: 2855, col: 12, offset: 90443},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2854, col: 13, offset: 90412},
+																					pos: position{line: 2855, col: 13, offset: 90444},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2854, col: 13, offset: 90412},
+																							pos: position{line: 2855, col: 13, offset: 90444},
 																							expr: &litMatcher{
-																								pos:        position{line: 2854, col: 13, offset: 90412},
+																								pos:        position{line: 2855, col: 13, offset: 90444},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2854, col: 18, offset: 90417},
+																							pos: position{line: 2855, col: 18, offset: 90449},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2854, col: 18, offset: 90417},
+																								pos:        position{line: 2855, col: 18, offset: 90449},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3397,24 +3397,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2854, col: 12, offset: 90411},
+																				pos: position{line: 2855, col: 12, offset: 90443},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2854, col: 13, offset: 90412},
+																					pos: position{line: 2855, col: 13, offset: 90444},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2854, col: 13, offset: 90412},
+																							pos: position{line: 2855, col: 13, offset: 90444},
 																							expr: &litMatcher{
-																								pos:        position{line: 2854, col: 13, offset: 90412},
+																								pos:        position{line: 2855, col: 13, offset: 90444},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2854, col: 18, offset: 90417},
+																							pos: position{line: 2855, col: 18, offset: 90449},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2854, col: 18, offset: 90417},
+																								pos:        position{line: 2855, col: 18, offset: 90449},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3435,24 +3435,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2854, col: 12, offset: 90411},
+																		pos: position{line: 2855, col: 12, offset: 90443},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2854, col: 13, offset: 90412},
+																			pos: position{line: 2855, col: 13, offset: 90444},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2854, col: 13, offset: 90412},
+																					pos: position{line: 2855, col: 13, offset: 90444},
 																					expr: &litMatcher{
-																						pos:        position{line: 2854, col: 13, offset: 90412},
+																						pos:        position{line: 2855, col: 13, offset: 90444},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2854, col: 18, offset: 90417},
+																					pos: position{line: 2855, col: 18, offset: 90449},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2854, col: 18, offset: 90417},
+																						pos:        position{line: 2855, col: 18, offset: 90449},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3501,24 +3501,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2854, col: 12, offset: 90411},
+																									pos: position{line: 2855, col: 12, offset: 90443},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2854, col: 13, offset: 90412},
+																										pos: position{line: 2855, col: 13, offset: 90444},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2854, col: 13, offset: 90412},
+																												pos: position{line: 2855, col: 13, offset: 90444},
 																												expr: &litMatcher{
-																													pos:        position{line: 2854, col: 13, offset: 90412},
+																													pos:        position{line: 2855, col: 13, offset: 90444},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2854, col: 18, offset: 90417},
+																												pos: position{line: 2855, col: 18, offset: 90449},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2854, col: 18, offset: 90417},
+																													pos:        position{line: 2855, col: 18, offset: 90449},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3539,24 +3539,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2854, col: 12, offset: 90411},
+																									pos: position{line: 2855, col: 12, offset: 90443},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2854, col: 13, offset: 90412},
+																										pos: position{line: 2855, col: 13, offset: 90444},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2854, col: 13, offset: 90412},
+																												pos: position{line: 2855, col: 13, offset: 90444},
 																												expr: &litMatcher{
-																													pos:        position{line: 2854, col: 13, offset: 90412},
+																													pos:        position{line: 2855, col: 13, offset: 90444},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2854, col: 18, offset: 90417},
+																												pos: position{line: 2855, col: 18, offset: 90449},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2854, col: 18, offset: 90417},
+																													pos:        position{line: 2855, col: 18, offset: 90449},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3577,24 +3577,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2854, col: 12, offset: 90411},
+																							pos: position{line: 2855, col: 12, offset: 90443},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2854, col: 13, offset: 90412},
+																								pos: position{line: 2855, col: 13, offset: 90444},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2854, col: 13, offset: 90412},
+																										pos: position{line: 2855, col: 13, offset: 90444},
 																										expr: &litMatcher{
-																											pos:        position{line: 2854, col: 13, offset: 90412},
+																											pos:        position{line: 2855, col: 13, offset: 90444},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2854, col: 18, offset: 90417},
+																										pos: position{line: 2855, col: 18, offset: 90449},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2854, col: 18, offset: 90417},
+																											pos:        position{line: 2855, col: 18, offset: 90449},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3627,24 +3627,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2854, col: 12, offset: 90411},
+														pos: position{line: 2855, col: 12, offset: 90443},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2854, col: 13, offset: 90412},
+															pos: position{line: 2855, col: 13, offset: 90444},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2854, col: 13, offset: 90412},
+																	pos: position{line: 2855, col: 13, offset: 90444},
 																	expr: &litMatcher{
-																		pos:        position{line: 2854, col: 13, offset: 90412},
+																		pos:        position{line: 2855, col: 13, offset: 90444},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2854, col: 18, offset: 90417},
+																	pos: position{line: 2855, col: 18, offset: 90449},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2854, col: 18, offset: 90417},
+																		pos:        position{line: 2855, col: 18, offset: 90449},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3665,24 +3665,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2854, col: 12, offset: 90411},
+														pos: position{line: 2855, col: 12, offset: 90443},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2854, col: 13, offset: 90412},
+															pos: position{line: 2855, col: 13, offset: 90444},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2854, col: 13, offset: 90412},
+																	pos: position{line: 2855, col: 13, offset: 90444},
 																	expr: &litMatcher{
-																		pos:        position{line: 2854, col: 13, offset: 90412},
+																		pos:        position{line: 2855, col: 13, offset: 90444},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2854, col: 18, offset: 90417},
+																	pos: position{line: 2855, col: 18, offset: 90449},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2854, col: 18, offset: 90417},
+																		pos:        position{line: 2855, col: 18, offset: 90449},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3703,24 +3703,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2854, col: 12, offset: 90411},
+												pos: position{line: 2855, col: 12, offset: 90443},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2854, col: 13, offset: 90412},
+													pos: position{line: 2855, col: 13, offset: 90444},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2854, col: 13, offset: 90412},
+															pos: position{line: 2855, col: 13, offset: 90444},
 															expr: &litMatcher{
-																pos:        position{line: 2854, col: 13, offset: 90412},
+																pos:        position{line: 2855, col: 13, offset: 90444},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2854, col: 18, offset: 90417},
+															pos: position{line: 2855, col: 18, offset: 90449},
 															expr: &charClassMatcher{
-																pos:        position{line: 2854, col: 18, offset: 90417},
+																pos:        position{line: 2855, col: 18, offset: 90449},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3736,9 +3736,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2881, col: 8, offset: 90932},
+							pos: position{line: 2882, col: 8, offset: 90964},
 							expr: &anyMatcher{
-								line: 2881, col: 9, offset: 90933,
+								line: 2882, col: 9, offset: 90965,
 							},
 						},
 					},
@@ -4063,9 +4063,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2881, col: 8, offset: 90932},
+							pos: position{line: 2882, col: 8, offset: 90964},
 							expr: &anyMatcher{
-								line: 2881, col: 9, offset: 90933,
+								line: 2882, col: 9, offset: 90965,
 							},
 						},
 					},
@@ -4189,28 +4189,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2884, col: 8, offset: 90982},
+							pos: position{line: 2885, col: 8, offset: 91014},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2871, col: 12, offset: 90755},
+									pos: position{line: 2872, col: 12, offset: 90787},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2871, col: 13, offset: 90756},
+										pos: position{line: 2872, col: 13, offset: 90788},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2871, col: 13, offset: 90756},
+												pos:        position{line: 2872, col: 13, offset: 90788},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2871, col: 20, offset: 90763},
+												pos:        position{line: 2872, col: 20, offset: 90795},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2871, col: 29, offset: 90772},
+												pos:        position{line: 2872, col: 29, offset: 90804},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4219,9 +4219,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2881, col: 8, offset: 90932},
+									pos: position{line: 2882, col: 8, offset: 90964},
 									expr: &anyMatcher{
-										line: 2881, col: 9, offset: 90933,
+										line: 2882, col: 9, offset: 90965,
 									},
 								},
 							},
@@ -4240,9 +4240,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2879, col: 11, offset: 90918},
+							pos: position{line: 2880, col: 11, offset: 90950},
 							expr: &anyMatcher{
-								line: 2879, col: 13, offset: 90920,
+								line: 2880, col: 13, offset: 90952,
 							},
 						},
 						&labeledExpr{
@@ -4337,10 +4337,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 360, col: 49, offset: 10940},
 														expr: &actionExpr{
-															pos: position{line: 2862, col: 10, offset: 90584},
+															pos: position{line: 2863, col: 10, offset: 90616},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2862, col: 10, offset: 90584},
+																pos:        position{line: 2863, col: 10, offset: 90616},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4349,28 +4349,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2884, col: 8, offset: 90982},
+														pos: position{line: 2885, col: 8, offset: 91014},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2871, col: 12, offset: 90755},
+																pos: position{line: 2872, col: 12, offset: 90787},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2871, col: 13, offset: 90756},
+																	pos: position{line: 2872, col: 13, offset: 90788},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2871, col: 13, offset: 90756},
+																			pos:        position{line: 2872, col: 13, offset: 90788},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2871, col: 20, offset: 90763},
+																			pos:        position{line: 2872, col: 20, offset: 90795},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2871, col: 29, offset: 90772},
+																			pos:        position{line: 2872, col: 29, offset: 90804},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4379,9 +4379,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2881, col: 8, offset: 90932},
+																pos: position{line: 2882, col: 8, offset: 90964},
 																expr: &anyMatcher{
-																	line: 2881, col: 9, offset: 90933,
+																	line: 2882, col: 9, offset: 90965,
 																},
 															},
 														},
@@ -4442,10 +4442,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 39, offset: 11061},
 														expr: &actionExpr{
-															pos: position{line: 2862, col: 10, offset: 90584},
+															pos: position{line: 2863, col: 10, offset: 90616},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2862, col: 10, offset: 90584},
+																pos:        position{line: 2863, col: 10, offset: 90616},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4454,28 +4454,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2884, col: 8, offset: 90982},
+														pos: position{line: 2885, col: 8, offset: 91014},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2871, col: 12, offset: 90755},
+																pos: position{line: 2872, col: 12, offset: 90787},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2871, col: 13, offset: 90756},
+																	pos: position{line: 2872, col: 13, offset: 90788},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2871, col: 13, offset: 90756},
+																			pos:        position{line: 2872, col: 13, offset: 90788},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2871, col: 20, offset: 90763},
+																			pos:        position{line: 2872, col: 20, offset: 90795},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2871, col: 29, offset: 90772},
+																			pos:        position{line: 2872, col: 29, offset: 90804},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4484,9 +4484,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2881, col: 8, offset: 90932},
+																pos: position{line: 2882, col: 8, offset: 90964},
 																expr: &anyMatcher{
-																	line: 2881, col: 9, offset: 90933,
+																	line: 2882, col: 9, offset: 90965,
 																},
 															},
 														},
@@ -4501,18 +4501,18 @@ var g = &grammar{
 												pos: position{line: 677, col: 14, offset: 21557},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2879, col: 11, offset: 90918},
+														pos: position{line: 2880, col: 11, offset: 90950},
 														expr: &anyMatcher{
-															line: 2879, col: 13, offset: 90920,
+															line: 2880, col: 13, offset: 90952,
 														},
 													},
 													&zeroOrMoreExpr{
 														pos: position{line: 677, col: 21, offset: 21564},
 														expr: &actionExpr{
-															pos: position{line: 2862, col: 10, offset: 90584},
+															pos: position{line: 2863, col: 10, offset: 90616},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2862, col: 10, offset: 90584},
+																pos:        position{line: 2863, col: 10, offset: 90616},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4521,28 +4521,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2884, col: 8, offset: 90982},
+														pos: position{line: 2885, col: 8, offset: 91014},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2871, col: 12, offset: 90755},
+																pos: position{line: 2872, col: 12, offset: 90787},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2871, col: 13, offset: 90756},
+																	pos: position{line: 2872, col: 13, offset: 90788},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2871, col: 13, offset: 90756},
+																			pos:        position{line: 2872, col: 13, offset: 90788},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2871, col: 20, offset: 90763},
+																			pos:        position{line: 2872, col: 20, offset: 90795},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2871, col: 29, offset: 90772},
+																			pos:        position{line: 2872, col: 29, offset: 90804},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4551,9 +4551,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2881, col: 8, offset: 90932},
+																pos: position{line: 2882, col: 8, offset: 90964},
 																expr: &anyMatcher{
-																	line: 2881, col: 9, offset: 90933,
+																	line: 2882, col: 9, offset: 90965,
 																},
 															},
 														},
@@ -4612,10 +4612,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 742, col: 8, offset: 23754},
 																	expr: &actionExpr{
-																		pos: position{line: 2862, col: 10, offset: 90584},
+																		pos: position{line: 2863, col: 10, offset: 90616},
 																		run: (*parser).callonDocumentFragment86,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2862, col: 10, offset: 90584},
+																			pos:        position{line: 2863, col: 10, offset: 90616},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -4624,28 +4624,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2884, col: 8, offset: 90982},
+																	pos: position{line: 2885, col: 8, offset: 91014},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2871, col: 12, offset: 90755},
+																			pos: position{line: 2872, col: 12, offset: 90787},
 																			run: (*parser).callonDocumentFragment89,
 																			expr: &choiceExpr{
-																				pos: position{line: 2871, col: 13, offset: 90756},
+																				pos: position{line: 2872, col: 13, offset: 90788},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 13, offset: 90756},
+																						pos:        position{line: 2872, col: 13, offset: 90788},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 20, offset: 90763},
+																						pos:        position{line: 2872, col: 20, offset: 90795},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 29, offset: 90772},
+																						pos:        position{line: 2872, col: 29, offset: 90804},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -4654,9 +4654,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2881, col: 8, offset: 90932},
+																			pos: position{line: 2882, col: 8, offset: 90964},
 																			expr: &anyMatcher{
-																				line: 2881, col: 9, offset: 90933,
+																				line: 2882, col: 9, offset: 90965,
 																			},
 																		},
 																	},
@@ -4717,10 +4717,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 742, col: 8, offset: 23754},
 																									expr: &actionExpr{
-																										pos: position{line: 2862, col: 10, offset: 90584},
+																										pos: position{line: 2863, col: 10, offset: 90616},
 																										run: (*parser).callonDocumentFragment111,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2862, col: 10, offset: 90584},
+																											pos:        position{line: 2863, col: 10, offset: 90616},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -4729,28 +4729,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2884, col: 8, offset: 90982},
+																									pos: position{line: 2885, col: 8, offset: 91014},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2871, col: 12, offset: 90755},
+																											pos: position{line: 2872, col: 12, offset: 90787},
 																											run: (*parser).callonDocumentFragment114,
 																											expr: &choiceExpr{
-																												pos: position{line: 2871, col: 13, offset: 90756},
+																												pos: position{line: 2872, col: 13, offset: 90788},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2871, col: 13, offset: 90756},
+																														pos:        position{line: 2872, col: 13, offset: 90788},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2871, col: 20, offset: 90763},
+																														pos:        position{line: 2872, col: 20, offset: 90795},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2871, col: 29, offset: 90772},
+																														pos:        position{line: 2872, col: 29, offset: 90804},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -4759,9 +4759,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2881, col: 8, offset: 90932},
+																											pos: position{line: 2882, col: 8, offset: 90964},
 																											expr: &anyMatcher{
-																												line: 2881, col: 9, offset: 90933,
+																												line: 2882, col: 9, offset: 90965,
 																											},
 																										},
 																									},
@@ -4770,9 +4770,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2881, col: 8, offset: 90932},
+																						pos: position{line: 2882, col: 8, offset: 90964},
 																						expr: &anyMatcher{
-																							line: 2881, col: 9, offset: 90933,
+																							line: 2882, col: 9, offset: 90965,
 																						},
 																					},
 																				},
@@ -4788,21 +4788,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26161},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2879, col: 11, offset: 90918},
+																							pos: position{line: 2880, col: 11, offset: 90950},
 																							expr: &anyMatcher{
-																								line: 2879, col: 13, offset: 90920,
+																								line: 2880, col: 13, offset: 90952,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26236},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2808, col: 13, offset: 89110},
+																								pos: position{line: 2809, col: 13, offset: 89142},
 																								run: (*parser).callonDocumentFragment129,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2808, col: 13, offset: 89110},
+																									pos: position{line: 2809, col: 13, offset: 89142},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2808, col: 13, offset: 89110},
+																										pos:        position{line: 2809, col: 13, offset: 89142},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4812,28 +4812,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2884, col: 8, offset: 90982},
+																							pos: position{line: 2885, col: 8, offset: 91014},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2871, col: 12, offset: 90755},
+																									pos: position{line: 2872, col: 12, offset: 90787},
 																									run: (*parser).callonDocumentFragment133,
 																									expr: &choiceExpr{
-																										pos: position{line: 2871, col: 13, offset: 90756},
+																										pos: position{line: 2872, col: 13, offset: 90788},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 13, offset: 90756},
+																												pos:        position{line: 2872, col: 13, offset: 90788},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 20, offset: 90763},
+																												pos:        position{line: 2872, col: 20, offset: 90795},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 29, offset: 90772},
+																												pos:        position{line: 2872, col: 29, offset: 90804},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4842,9 +4842,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2881, col: 8, offset: 90932},
+																									pos: position{line: 2882, col: 8, offset: 90964},
 																									expr: &anyMatcher{
-																										line: 2881, col: 9, offset: 90933,
+																										line: 2882, col: 9, offset: 90965,
 																									},
 																								},
 																							},
@@ -4900,10 +4900,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 742, col: 8, offset: 23754},
 																				expr: &actionExpr{
-																					pos: position{line: 2862, col: 10, offset: 90584},
+																					pos: position{line: 2863, col: 10, offset: 90616},
 																					run: (*parser).callonDocumentFragment151,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2862, col: 10, offset: 90584},
+																						pos:        position{line: 2863, col: 10, offset: 90616},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -4912,28 +4912,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2884, col: 8, offset: 90982},
+																				pos: position{line: 2885, col: 8, offset: 91014},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2871, col: 12, offset: 90755},
+																						pos: position{line: 2872, col: 12, offset: 90787},
 																						run: (*parser).callonDocumentFragment154,
 																						expr: &choiceExpr{
-																							pos: position{line: 2871, col: 13, offset: 90756},
+																							pos: position{line: 2872, col: 13, offset: 90788},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2871, col: 13, offset: 90756},
+																									pos:        position{line: 2872, col: 13, offset: 90788},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2871, col: 20, offset: 90763},
+																									pos:        position{line: 2872, col: 20, offset: 90795},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2871, col: 29, offset: 90772},
+																									pos:        position{line: 2872, col: 29, offset: 90804},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -4942,9 +4942,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2881, col: 8, offset: 90932},
+																						pos: position{line: 2882, col: 8, offset: 90964},
 																						expr: &anyMatcher{
-																							line: 2881, col: 9, offset: 90933,
+																							line: 2882, col: 9, offset: 90965,
 																						},
 																					},
 																				},
@@ -4953,9 +4953,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2881, col: 8, offset: 90932},
+																	pos: position{line: 2882, col: 8, offset: 90964},
 																	expr: &anyMatcher{
-																		line: 2881, col: 9, offset: 90933,
+																		line: 2882, col: 9, offset: 90965,
 																	},
 																},
 															},
@@ -5010,10 +5010,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 749, col: 8, offset: 24002},
 																		expr: &actionExpr{
-																			pos: position{line: 2862, col: 10, offset: 90584},
+																			pos: position{line: 2863, col: 10, offset: 90616},
 																			run: (*parser).callonDocumentFragment175,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2862, col: 10, offset: 90584},
+																				pos:        position{line: 2863, col: 10, offset: 90616},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5022,28 +5022,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2884, col: 8, offset: 90982},
+																		pos: position{line: 2885, col: 8, offset: 91014},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2871, col: 12, offset: 90755},
+																				pos: position{line: 2872, col: 12, offset: 90787},
 																				run: (*parser).callonDocumentFragment178,
 																				expr: &choiceExpr{
-																					pos: position{line: 2871, col: 13, offset: 90756},
+																					pos: position{line: 2872, col: 13, offset: 90788},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 13, offset: 90756},
+																							pos:        position{line: 2872, col: 13, offset: 90788},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 20, offset: 90763},
+																							pos:        position{line: 2872, col: 20, offset: 90795},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 29, offset: 90772},
+																							pos:        position{line: 2872, col: 29, offset: 90804},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5052,9 +5052,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2881, col: 8, offset: 90932},
+																				pos: position{line: 2882, col: 8, offset: 90964},
 																				expr: &anyMatcher{
-																					line: 2881, col: 9, offset: 90933,
+																					line: 2882, col: 9, offset: 90965,
 																				},
 																			},
 																		},
@@ -5126,10 +5126,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 749, col: 8, offset: 24002},
 																												expr: &actionExpr{
-																													pos: position{line: 2862, col: 10, offset: 90584},
+																													pos: position{line: 2863, col: 10, offset: 90616},
 																													run: (*parser).callonDocumentFragment203,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2862, col: 10, offset: 90584},
+																														pos:        position{line: 2863, col: 10, offset: 90616},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5138,28 +5138,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2884, col: 8, offset: 90982},
+																												pos: position{line: 2885, col: 8, offset: 91014},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2871, col: 12, offset: 90755},
+																														pos: position{line: 2872, col: 12, offset: 90787},
 																														run: (*parser).callonDocumentFragment206,
 																														expr: &choiceExpr{
-																															pos: position{line: 2871, col: 13, offset: 90756},
+																															pos: position{line: 2872, col: 13, offset: 90788},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2871, col: 13, offset: 90756},
+																																	pos:        position{line: 2872, col: 13, offset: 90788},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2871, col: 20, offset: 90763},
+																																	pos:        position{line: 2872, col: 20, offset: 90795},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2871, col: 29, offset: 90772},
+																																	pos:        position{line: 2872, col: 29, offset: 90804},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5168,9 +5168,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2881, col: 8, offset: 90932},
+																														pos: position{line: 2882, col: 8, offset: 90964},
 																														expr: &anyMatcher{
-																															line: 2881, col: 9, offset: 90933,
+																															line: 2882, col: 9, offset: 90965,
 																														},
 																													},
 																												},
@@ -5186,9 +5186,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2881, col: 8, offset: 90932},
+																						pos: position{line: 2882, col: 8, offset: 90964},
 																						expr: &anyMatcher{
-																							line: 2881, col: 9, offset: 90933,
+																							line: 2882, col: 9, offset: 90965,
 																						},
 																					},
 																				},
@@ -5204,21 +5204,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26161},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2879, col: 11, offset: 90918},
+																							pos: position{line: 2880, col: 11, offset: 90950},
 																							expr: &anyMatcher{
-																								line: 2879, col: 13, offset: 90920,
+																								line: 2880, col: 13, offset: 90952,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26236},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2808, col: 13, offset: 89110},
+																								pos: position{line: 2809, col: 13, offset: 89142},
 																								run: (*parser).callonDocumentFragment222,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2808, col: 13, offset: 89110},
+																									pos: position{line: 2809, col: 13, offset: 89142},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2808, col: 13, offset: 89110},
+																										pos:        position{line: 2809, col: 13, offset: 89142},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5228,28 +5228,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2884, col: 8, offset: 90982},
+																							pos: position{line: 2885, col: 8, offset: 91014},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2871, col: 12, offset: 90755},
+																									pos: position{line: 2872, col: 12, offset: 90787},
 																									run: (*parser).callonDocumentFragment226,
 																									expr: &choiceExpr{
-																										pos: position{line: 2871, col: 13, offset: 90756},
+																										pos: position{line: 2872, col: 13, offset: 90788},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 13, offset: 90756},
+																												pos:        position{line: 2872, col: 13, offset: 90788},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 20, offset: 90763},
+																												pos:        position{line: 2872, col: 20, offset: 90795},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 29, offset: 90772},
+																												pos:        position{line: 2872, col: 29, offset: 90804},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5258,9 +5258,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2881, col: 8, offset: 90932},
+																									pos: position{line: 2882, col: 8, offset: 90964},
 																									expr: &anyMatcher{
-																										line: 2881, col: 9, offset: 90933,
+																										line: 2882, col: 9, offset: 90965,
 																									},
 																								},
 																							},
@@ -5325,10 +5325,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 749, col: 8, offset: 24002},
 																								expr: &actionExpr{
-																									pos: position{line: 2862, col: 10, offset: 90584},
+																									pos: position{line: 2863, col: 10, offset: 90616},
 																									run: (*parser).callonDocumentFragment247,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2862, col: 10, offset: 90584},
+																										pos:        position{line: 2863, col: 10, offset: 90616},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5337,28 +5337,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2884, col: 8, offset: 90982},
+																								pos: position{line: 2885, col: 8, offset: 91014},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2871, col: 12, offset: 90755},
+																										pos: position{line: 2872, col: 12, offset: 90787},
 																										run: (*parser).callonDocumentFragment250,
 																										expr: &choiceExpr{
-																											pos: position{line: 2871, col: 13, offset: 90756},
+																											pos: position{line: 2872, col: 13, offset: 90788},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2871, col: 13, offset: 90756},
+																													pos:        position{line: 2872, col: 13, offset: 90788},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2871, col: 20, offset: 90763},
+																													pos:        position{line: 2872, col: 20, offset: 90795},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2871, col: 29, offset: 90772},
+																													pos:        position{line: 2872, col: 29, offset: 90804},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5367,9 +5367,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2881, col: 8, offset: 90932},
+																										pos: position{line: 2882, col: 8, offset: 90964},
 																										expr: &anyMatcher{
-																											line: 2881, col: 9, offset: 90933,
+																											line: 2882, col: 9, offset: 90965,
 																										},
 																									},
 																								},
@@ -5385,9 +5385,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2881, col: 8, offset: 90932},
+																		pos: position{line: 2882, col: 8, offset: 90964},
 																		expr: &anyMatcher{
-																			line: 2881, col: 9, offset: 90933,
+																			line: 2882, col: 9, offset: 90965,
 																		},
 																	},
 																},
@@ -5439,10 +5439,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 760, col: 52, offset: 24414},
 																		expr: &actionExpr{
-																			pos: position{line: 2862, col: 10, offset: 90584},
+																			pos: position{line: 2863, col: 10, offset: 90616},
 																			run: (*parser).callonDocumentFragment271,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2862, col: 10, offset: 90584},
+																				pos:        position{line: 2863, col: 10, offset: 90616},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5451,28 +5451,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2884, col: 8, offset: 90982},
+																		pos: position{line: 2885, col: 8, offset: 91014},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2871, col: 12, offset: 90755},
+																				pos: position{line: 2872, col: 12, offset: 90787},
 																				run: (*parser).callonDocumentFragment274,
 																				expr: &choiceExpr{
-																					pos: position{line: 2871, col: 13, offset: 90756},
+																					pos: position{line: 2872, col: 13, offset: 90788},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 13, offset: 90756},
+																							pos:        position{line: 2872, col: 13, offset: 90788},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 20, offset: 90763},
+																							pos:        position{line: 2872, col: 20, offset: 90795},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 29, offset: 90772},
+																							pos:        position{line: 2872, col: 29, offset: 90804},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5481,9 +5481,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2881, col: 8, offset: 90932},
+																				pos: position{line: 2882, col: 8, offset: 90964},
 																				expr: &anyMatcher{
-																					line: 2881, col: 9, offset: 90933,
+																					line: 2882, col: 9, offset: 90965,
 																				},
 																			},
 																		},
@@ -5517,10 +5517,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 963, col: 40, offset: 30222},
 																						expr: &actionExpr{
-																							pos: position{line: 2862, col: 10, offset: 90584},
+																							pos: position{line: 2863, col: 10, offset: 90616},
 																							run: (*parser).callonDocumentFragment289,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2862, col: 10, offset: 90584},
+																								pos:        position{line: 2863, col: 10, offset: 90616},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5529,28 +5529,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2884, col: 8, offset: 90982},
+																						pos: position{line: 2885, col: 8, offset: 91014},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2871, col: 12, offset: 90755},
+																								pos: position{line: 2872, col: 12, offset: 90787},
 																								run: (*parser).callonDocumentFragment292,
 																								expr: &choiceExpr{
-																									pos: position{line: 2871, col: 13, offset: 90756},
+																									pos: position{line: 2872, col: 13, offset: 90788},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 13, offset: 90756},
+																											pos:        position{line: 2872, col: 13, offset: 90788},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 20, offset: 90763},
+																											pos:        position{line: 2872, col: 20, offset: 90795},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 29, offset: 90772},
+																											pos:        position{line: 2872, col: 29, offset: 90804},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5559,9 +5559,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2881, col: 8, offset: 90932},
+																								pos: position{line: 2882, col: 8, offset: 90964},
 																								expr: &anyMatcher{
-																									line: 2881, col: 9, offset: 90933,
+																									line: 2882, col: 9, offset: 90965,
 																								},
 																							},
 																						},
@@ -5579,21 +5579,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26161},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2879, col: 11, offset: 90918},
+																							pos: position{line: 2880, col: 11, offset: 90950},
 																							expr: &anyMatcher{
-																								line: 2879, col: 13, offset: 90920,
+																								line: 2880, col: 13, offset: 90952,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26236},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2808, col: 13, offset: 89110},
+																								pos: position{line: 2809, col: 13, offset: 89142},
 																								run: (*parser).callonDocumentFragment305,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2808, col: 13, offset: 89110},
+																									pos: position{line: 2809, col: 13, offset: 89142},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2808, col: 13, offset: 89110},
+																										pos:        position{line: 2809, col: 13, offset: 89142},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5603,28 +5603,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2884, col: 8, offset: 90982},
+																							pos: position{line: 2885, col: 8, offset: 91014},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2871, col: 12, offset: 90755},
+																									pos: position{line: 2872, col: 12, offset: 90787},
 																									run: (*parser).callonDocumentFragment309,
 																									expr: &choiceExpr{
-																										pos: position{line: 2871, col: 13, offset: 90756},
+																										pos: position{line: 2872, col: 13, offset: 90788},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 13, offset: 90756},
+																												pos:        position{line: 2872, col: 13, offset: 90788},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 20, offset: 90763},
+																												pos:        position{line: 2872, col: 20, offset: 90795},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 29, offset: 90772},
+																												pos:        position{line: 2872, col: 29, offset: 90804},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5633,9 +5633,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2881, col: 8, offset: 90932},
+																									pos: position{line: 2882, col: 8, offset: 90964},
 																									expr: &anyMatcher{
-																										line: 2881, col: 9, offset: 90933,
+																										line: 2882, col: 9, offset: 90965,
 																									},
 																								},
 																							},
@@ -5663,10 +5663,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 963, col: 40, offset: 30222},
 																	expr: &actionExpr{
-																		pos: position{line: 2862, col: 10, offset: 90584},
+																		pos: position{line: 2863, col: 10, offset: 90616},
 																		run: (*parser).callonDocumentFragment320,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2862, col: 10, offset: 90584},
+																			pos:        position{line: 2863, col: 10, offset: 90616},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5675,28 +5675,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2884, col: 8, offset: 90982},
+																	pos: position{line: 2885, col: 8, offset: 91014},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2871, col: 12, offset: 90755},
+																			pos: position{line: 2872, col: 12, offset: 90787},
 																			run: (*parser).callonDocumentFragment323,
 																			expr: &choiceExpr{
-																				pos: position{line: 2871, col: 13, offset: 90756},
+																				pos: position{line: 2872, col: 13, offset: 90788},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 13, offset: 90756},
+																						pos:        position{line: 2872, col: 13, offset: 90788},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 20, offset: 90763},
+																						pos:        position{line: 2872, col: 20, offset: 90795},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 29, offset: 90772},
+																						pos:        position{line: 2872, col: 29, offset: 90804},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5705,9 +5705,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2881, col: 8, offset: 90932},
+																			pos: position{line: 2882, col: 8, offset: 90964},
 																			expr: &anyMatcher{
-																				line: 2881, col: 9, offset: 90933,
+																				line: 2882, col: 9, offset: 90965,
 																			},
 																		},
 																	},
@@ -5764,10 +5764,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 756, col: 8, offset: 24248},
 																		expr: &actionExpr{
-																			pos: position{line: 2862, col: 10, offset: 90584},
+																			pos: position{line: 2863, col: 10, offset: 90616},
 																			run: (*parser).callonDocumentFragment342,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2862, col: 10, offset: 90584},
+																				pos:        position{line: 2863, col: 10, offset: 90616},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5776,28 +5776,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2884, col: 8, offset: 90982},
+																		pos: position{line: 2885, col: 8, offset: 91014},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2871, col: 12, offset: 90755},
+																				pos: position{line: 2872, col: 12, offset: 90787},
 																				run: (*parser).callonDocumentFragment345,
 																				expr: &choiceExpr{
-																					pos: position{line: 2871, col: 13, offset: 90756},
+																					pos: position{line: 2872, col: 13, offset: 90788},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 13, offset: 90756},
+																							pos:        position{line: 2872, col: 13, offset: 90788},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 20, offset: 90763},
+																							pos:        position{line: 2872, col: 20, offset: 90795},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 29, offset: 90772},
+																							pos:        position{line: 2872, col: 29, offset: 90804},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5806,9 +5806,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2881, col: 8, offset: 90932},
+																				pos: position{line: 2882, col: 8, offset: 90964},
 																				expr: &anyMatcher{
-																					line: 2881, col: 9, offset: 90933,
+																					line: 2882, col: 9, offset: 90965,
 																				},
 																			},
 																		},
@@ -5880,10 +5880,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 756, col: 8, offset: 24248},
 																												expr: &actionExpr{
-																													pos: position{line: 2862, col: 10, offset: 90584},
+																													pos: position{line: 2863, col: 10, offset: 90616},
 																													run: (*parser).callonDocumentFragment370,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2862, col: 10, offset: 90584},
+																														pos:        position{line: 2863, col: 10, offset: 90616},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5892,28 +5892,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2884, col: 8, offset: 90982},
+																												pos: position{line: 2885, col: 8, offset: 91014},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2871, col: 12, offset: 90755},
+																														pos: position{line: 2872, col: 12, offset: 90787},
 																														run: (*parser).callonDocumentFragment373,
 																														expr: &choiceExpr{
-																															pos: position{line: 2871, col: 13, offset: 90756},
+																															pos: position{line: 2872, col: 13, offset: 90788},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2871, col: 13, offset: 90756},
+																																	pos:        position{line: 2872, col: 13, offset: 90788},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2871, col: 20, offset: 90763},
+																																	pos:        position{line: 2872, col: 20, offset: 90795},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2871, col: 29, offset: 90772},
+																																	pos:        position{line: 2872, col: 29, offset: 90804},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5922,9 +5922,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2881, col: 8, offset: 90932},
+																														pos: position{line: 2882, col: 8, offset: 90964},
 																														expr: &anyMatcher{
-																															line: 2881, col: 9, offset: 90933,
+																															line: 2882, col: 9, offset: 90965,
 																														},
 																													},
 																												},
@@ -5940,9 +5940,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2881, col: 8, offset: 90932},
+																						pos: position{line: 2882, col: 8, offset: 90964},
 																						expr: &anyMatcher{
-																							line: 2881, col: 9, offset: 90933,
+																							line: 2882, col: 9, offset: 90965,
 																						},
 																					},
 																				},
@@ -5958,21 +5958,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26161},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2879, col: 11, offset: 90918},
+																							pos: position{line: 2880, col: 11, offset: 90950},
 																							expr: &anyMatcher{
-																								line: 2879, col: 13, offset: 90920,
+																								line: 2880, col: 13, offset: 90952,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26236},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2808, col: 13, offset: 89110},
+																								pos: position{line: 2809, col: 13, offset: 89142},
 																								run: (*parser).callonDocumentFragment389,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2808, col: 13, offset: 89110},
+																									pos: position{line: 2809, col: 13, offset: 89142},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2808, col: 13, offset: 89110},
+																										pos:        position{line: 2809, col: 13, offset: 89142},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5982,28 +5982,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2884, col: 8, offset: 90982},
+																							pos: position{line: 2885, col: 8, offset: 91014},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2871, col: 12, offset: 90755},
+																									pos: position{line: 2872, col: 12, offset: 90787},
 																									run: (*parser).callonDocumentFragment393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2871, col: 13, offset: 90756},
+																										pos: position{line: 2872, col: 13, offset: 90788},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 13, offset: 90756},
+																												pos:        position{line: 2872, col: 13, offset: 90788},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 20, offset: 90763},
+																												pos:        position{line: 2872, col: 20, offset: 90795},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 29, offset: 90772},
+																												pos:        position{line: 2872, col: 29, offset: 90804},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6012,9 +6012,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2881, col: 8, offset: 90932},
+																									pos: position{line: 2882, col: 8, offset: 90964},
 																									expr: &anyMatcher{
-																										line: 2881, col: 9, offset: 90933,
+																										line: 2882, col: 9, offset: 90965,
 																									},
 																								},
 																							},
@@ -6079,10 +6079,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 756, col: 8, offset: 24248},
 																								expr: &actionExpr{
-																									pos: position{line: 2862, col: 10, offset: 90584},
+																									pos: position{line: 2863, col: 10, offset: 90616},
 																									run: (*parser).callonDocumentFragment414,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2862, col: 10, offset: 90584},
+																										pos:        position{line: 2863, col: 10, offset: 90616},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6091,28 +6091,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2884, col: 8, offset: 90982},
+																								pos: position{line: 2885, col: 8, offset: 91014},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2871, col: 12, offset: 90755},
+																										pos: position{line: 2872, col: 12, offset: 90787},
 																										run: (*parser).callonDocumentFragment417,
 																										expr: &choiceExpr{
-																											pos: position{line: 2871, col: 13, offset: 90756},
+																											pos: position{line: 2872, col: 13, offset: 90788},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2871, col: 13, offset: 90756},
+																													pos:        position{line: 2872, col: 13, offset: 90788},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2871, col: 20, offset: 90763},
+																													pos:        position{line: 2872, col: 20, offset: 90795},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2871, col: 29, offset: 90772},
+																													pos:        position{line: 2872, col: 29, offset: 90804},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6121,9 +6121,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2881, col: 8, offset: 90932},
+																										pos: position{line: 2882, col: 8, offset: 90964},
 																										expr: &anyMatcher{
-																											line: 2881, col: 9, offset: 90933,
+																											line: 2882, col: 9, offset: 90965,
 																										},
 																									},
 																								},
@@ -6139,9 +6139,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2881, col: 8, offset: 90932},
+																		pos: position{line: 2882, col: 8, offset: 90964},
 																		expr: &anyMatcher{
-																			line: 2881, col: 9, offset: 90933,
+																			line: 2882, col: 9, offset: 90965,
 																		},
 																	},
 																},
@@ -6197,10 +6197,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 771, col: 8, offset: 24791},
 																		expr: &actionExpr{
-																			pos: position{line: 2862, col: 10, offset: 90584},
+																			pos: position{line: 2863, col: 10, offset: 90616},
 																			run: (*parser).callonDocumentFragment439,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2862, col: 10, offset: 90584},
+																				pos:        position{line: 2863, col: 10, offset: 90616},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6209,28 +6209,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2884, col: 8, offset: 90982},
+																		pos: position{line: 2885, col: 8, offset: 91014},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2871, col: 12, offset: 90755},
+																				pos: position{line: 2872, col: 12, offset: 90787},
 																				run: (*parser).callonDocumentFragment442,
 																				expr: &choiceExpr{
-																					pos: position{line: 2871, col: 13, offset: 90756},
+																					pos: position{line: 2872, col: 13, offset: 90788},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 13, offset: 90756},
+																							pos:        position{line: 2872, col: 13, offset: 90788},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 20, offset: 90763},
+																							pos:        position{line: 2872, col: 20, offset: 90795},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 29, offset: 90772},
+																							pos:        position{line: 2872, col: 29, offset: 90804},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6239,9 +6239,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2881, col: 8, offset: 90932},
+																				pos: position{line: 2882, col: 8, offset: 90964},
 																				expr: &anyMatcher{
-																					line: 2881, col: 9, offset: 90933,
+																					line: 2882, col: 9, offset: 90965,
 																				},
 																			},
 																		},
@@ -6313,10 +6313,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 771, col: 8, offset: 24791},
 																												expr: &actionExpr{
-																													pos: position{line: 2862, col: 10, offset: 90584},
+																													pos: position{line: 2863, col: 10, offset: 90616},
 																													run: (*parser).callonDocumentFragment467,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2862, col: 10, offset: 90584},
+																														pos:        position{line: 2863, col: 10, offset: 90616},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6325,28 +6325,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2884, col: 8, offset: 90982},
+																												pos: position{line: 2885, col: 8, offset: 91014},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2871, col: 12, offset: 90755},
+																														pos: position{line: 2872, col: 12, offset: 90787},
 																														run: (*parser).callonDocumentFragment470,
 																														expr: &choiceExpr{
-																															pos: position{line: 2871, col: 13, offset: 90756},
+																															pos: position{line: 2872, col: 13, offset: 90788},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2871, col: 13, offset: 90756},
+																																	pos:        position{line: 2872, col: 13, offset: 90788},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2871, col: 20, offset: 90763},
+																																	pos:        position{line: 2872, col: 20, offset: 90795},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2871, col: 29, offset: 90772},
+																																	pos:        position{line: 2872, col: 29, offset: 90804},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6355,9 +6355,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2881, col: 8, offset: 90932},
+																														pos: position{line: 2882, col: 8, offset: 90964},
 																														expr: &anyMatcher{
-																															line: 2881, col: 9, offset: 90933,
+																															line: 2882, col: 9, offset: 90965,
 																														},
 																													},
 																												},
@@ -6373,9 +6373,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2881, col: 8, offset: 90932},
+																						pos: position{line: 2882, col: 8, offset: 90964},
 																						expr: &anyMatcher{
-																							line: 2881, col: 9, offset: 90933,
+																							line: 2882, col: 9, offset: 90965,
 																						},
 																					},
 																				},
@@ -6391,21 +6391,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26161},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2879, col: 11, offset: 90918},
+																							pos: position{line: 2880, col: 11, offset: 90950},
 																							expr: &anyMatcher{
-																								line: 2879, col: 13, offset: 90920,
+																								line: 2880, col: 13, offset: 90952,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26236},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2808, col: 13, offset: 89110},
+																								pos: position{line: 2809, col: 13, offset: 89142},
 																								run: (*parser).callonDocumentFragment486,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2808, col: 13, offset: 89110},
+																									pos: position{line: 2809, col: 13, offset: 89142},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2808, col: 13, offset: 89110},
+																										pos:        position{line: 2809, col: 13, offset: 89142},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6415,28 +6415,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2884, col: 8, offset: 90982},
+																							pos: position{line: 2885, col: 8, offset: 91014},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2871, col: 12, offset: 90755},
+																									pos: position{line: 2872, col: 12, offset: 90787},
 																									run: (*parser).callonDocumentFragment490,
 																									expr: &choiceExpr{
-																										pos: position{line: 2871, col: 13, offset: 90756},
+																										pos: position{line: 2872, col: 13, offset: 90788},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 13, offset: 90756},
+																												pos:        position{line: 2872, col: 13, offset: 90788},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 20, offset: 90763},
+																												pos:        position{line: 2872, col: 20, offset: 90795},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 29, offset: 90772},
+																												pos:        position{line: 2872, col: 29, offset: 90804},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6445,9 +6445,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2881, col: 8, offset: 90932},
+																									pos: position{line: 2882, col: 8, offset: 90964},
 																									expr: &anyMatcher{
-																										line: 2881, col: 9, offset: 90933,
+																										line: 2882, col: 9, offset: 90965,
 																									},
 																								},
 																							},
@@ -6512,10 +6512,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 771, col: 8, offset: 24791},
 																								expr: &actionExpr{
-																									pos: position{line: 2862, col: 10, offset: 90584},
+																									pos: position{line: 2863, col: 10, offset: 90616},
 																									run: (*parser).callonDocumentFragment511,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2862, col: 10, offset: 90584},
+																										pos:        position{line: 2863, col: 10, offset: 90616},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6524,28 +6524,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2884, col: 8, offset: 90982},
+																								pos: position{line: 2885, col: 8, offset: 91014},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2871, col: 12, offset: 90755},
+																										pos: position{line: 2872, col: 12, offset: 90787},
 																										run: (*parser).callonDocumentFragment514,
 																										expr: &choiceExpr{
-																											pos: position{line: 2871, col: 13, offset: 90756},
+																											pos: position{line: 2872, col: 13, offset: 90788},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2871, col: 13, offset: 90756},
+																													pos:        position{line: 2872, col: 13, offset: 90788},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2871, col: 20, offset: 90763},
+																													pos:        position{line: 2872, col: 20, offset: 90795},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2871, col: 29, offset: 90772},
+																													pos:        position{line: 2872, col: 29, offset: 90804},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6554,9 +6554,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2881, col: 8, offset: 90932},
+																										pos: position{line: 2882, col: 8, offset: 90964},
 																										expr: &anyMatcher{
-																											line: 2881, col: 9, offset: 90933,
+																											line: 2882, col: 9, offset: 90965,
 																										},
 																									},
 																								},
@@ -6572,9 +6572,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2881, col: 8, offset: 90932},
+																		pos: position{line: 2882, col: 8, offset: 90964},
 																		expr: &anyMatcher{
-																			line: 2881, col: 9, offset: 90933,
+																			line: 2882, col: 9, offset: 90965,
 																		},
 																	},
 																},
@@ -6630,10 +6630,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 785, col: 8, offset: 25267},
 																		expr: &actionExpr{
-																			pos: position{line: 2862, col: 10, offset: 90584},
+																			pos: position{line: 2863, col: 10, offset: 90616},
 																			run: (*parser).callonDocumentFragment536,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2862, col: 10, offset: 90584},
+																				pos:        position{line: 2863, col: 10, offset: 90616},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6642,28 +6642,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2884, col: 8, offset: 90982},
+																		pos: position{line: 2885, col: 8, offset: 91014},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2871, col: 12, offset: 90755},
+																				pos: position{line: 2872, col: 12, offset: 90787},
 																				run: (*parser).callonDocumentFragment539,
 																				expr: &choiceExpr{
-																					pos: position{line: 2871, col: 13, offset: 90756},
+																					pos: position{line: 2872, col: 13, offset: 90788},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 13, offset: 90756},
+																							pos:        position{line: 2872, col: 13, offset: 90788},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 20, offset: 90763},
+																							pos:        position{line: 2872, col: 20, offset: 90795},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 29, offset: 90772},
+																							pos:        position{line: 2872, col: 29, offset: 90804},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6672,9 +6672,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2881, col: 8, offset: 90932},
+																				pos: position{line: 2882, col: 8, offset: 90964},
 																				expr: &anyMatcher{
-																					line: 2881, col: 9, offset: 90933,
+																					line: 2882, col: 9, offset: 90965,
 																				},
 																			},
 																		},
@@ -6746,10 +6746,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 785, col: 8, offset: 25267},
 																												expr: &actionExpr{
-																													pos: position{line: 2862, col: 10, offset: 90584},
+																													pos: position{line: 2863, col: 10, offset: 90616},
 																													run: (*parser).callonDocumentFragment564,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2862, col: 10, offset: 90584},
+																														pos:        position{line: 2863, col: 10, offset: 90616},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6758,28 +6758,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2884, col: 8, offset: 90982},
+																												pos: position{line: 2885, col: 8, offset: 91014},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2871, col: 12, offset: 90755},
+																														pos: position{line: 2872, col: 12, offset: 90787},
 																														run: (*parser).callonDocumentFragment567,
 																														expr: &choiceExpr{
-																															pos: position{line: 2871, col: 13, offset: 90756},
+																															pos: position{line: 2872, col: 13, offset: 90788},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2871, col: 13, offset: 90756},
+																																	pos:        position{line: 2872, col: 13, offset: 90788},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2871, col: 20, offset: 90763},
+																																	pos:        position{line: 2872, col: 20, offset: 90795},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2871, col: 29, offset: 90772},
+																																	pos:        position{line: 2872, col: 29, offset: 90804},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6788,9 +6788,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2881, col: 8, offset: 90932},
+																														pos: position{line: 2882, col: 8, offset: 90964},
 																														expr: &anyMatcher{
-																															line: 2881, col: 9, offset: 90933,
+																															line: 2882, col: 9, offset: 90965,
 																														},
 																													},
 																												},
@@ -6806,9 +6806,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2881, col: 8, offset: 90932},
+																						pos: position{line: 2882, col: 8, offset: 90964},
 																						expr: &anyMatcher{
-																							line: 2881, col: 9, offset: 90933,
+																							line: 2882, col: 9, offset: 90965,
 																						},
 																					},
 																				},
@@ -6824,21 +6824,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26161},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2879, col: 11, offset: 90918},
+																							pos: position{line: 2880, col: 11, offset: 90950},
 																							expr: &anyMatcher{
-																								line: 2879, col: 13, offset: 90920,
+																								line: 2880, col: 13, offset: 90952,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26236},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2808, col: 13, offset: 89110},
+																								pos: position{line: 2809, col: 13, offset: 89142},
 																								run: (*parser).callonDocumentFragment583,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2808, col: 13, offset: 89110},
+																									pos: position{line: 2809, col: 13, offset: 89142},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2808, col: 13, offset: 89110},
+																										pos:        position{line: 2809, col: 13, offset: 89142},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6848,28 +6848,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2884, col: 8, offset: 90982},
+																							pos: position{line: 2885, col: 8, offset: 91014},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2871, col: 12, offset: 90755},
+																									pos: position{line: 2872, col: 12, offset: 90787},
 																									run: (*parser).callonDocumentFragment587,
 																									expr: &choiceExpr{
-																										pos: position{line: 2871, col: 13, offset: 90756},
+																										pos: position{line: 2872, col: 13, offset: 90788},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 13, offset: 90756},
+																												pos:        position{line: 2872, col: 13, offset: 90788},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 20, offset: 90763},
+																												pos:        position{line: 2872, col: 20, offset: 90795},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 29, offset: 90772},
+																												pos:        position{line: 2872, col: 29, offset: 90804},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6878,9 +6878,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2881, col: 8, offset: 90932},
+																									pos: position{line: 2882, col: 8, offset: 90964},
 																									expr: &anyMatcher{
-																										line: 2881, col: 9, offset: 90933,
+																										line: 2882, col: 9, offset: 90965,
 																									},
 																								},
 																							},
@@ -6945,10 +6945,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 785, col: 8, offset: 25267},
 																								expr: &actionExpr{
-																									pos: position{line: 2862, col: 10, offset: 90584},
+																									pos: position{line: 2863, col: 10, offset: 90616},
 																									run: (*parser).callonDocumentFragment608,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2862, col: 10, offset: 90584},
+																										pos:        position{line: 2863, col: 10, offset: 90616},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6957,28 +6957,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2884, col: 8, offset: 90982},
+																								pos: position{line: 2885, col: 8, offset: 91014},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2871, col: 12, offset: 90755},
+																										pos: position{line: 2872, col: 12, offset: 90787},
 																										run: (*parser).callonDocumentFragment611,
 																										expr: &choiceExpr{
-																											pos: position{line: 2871, col: 13, offset: 90756},
+																											pos: position{line: 2872, col: 13, offset: 90788},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2871, col: 13, offset: 90756},
+																													pos:        position{line: 2872, col: 13, offset: 90788},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2871, col: 20, offset: 90763},
+																													pos:        position{line: 2872, col: 20, offset: 90795},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2871, col: 29, offset: 90772},
+																													pos:        position{line: 2872, col: 29, offset: 90804},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6987,9 +6987,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2881, col: 8, offset: 90932},
+																										pos: position{line: 2882, col: 8, offset: 90964},
 																										expr: &anyMatcher{
-																											line: 2881, col: 9, offset: 90933,
+																											line: 2882, col: 9, offset: 90965,
 																										},
 																									},
 																								},
@@ -7005,9 +7005,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2881, col: 8, offset: 90932},
+																		pos: position{line: 2882, col: 8, offset: 90964},
 																		expr: &anyMatcher{
-																			line: 2881, col: 9, offset: 90933,
+																			line: 2882, col: 9, offset: 90965,
 																		},
 																	},
 																},
@@ -7041,18 +7041,18 @@ var g = &grammar{
 																				pos: position{line: 677, col: 14, offset: 21557},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2879, col: 11, offset: 90918},
+																						pos: position{line: 2880, col: 11, offset: 90950},
 																						expr: &anyMatcher{
-																							line: 2879, col: 13, offset: 90920,
+																							line: 2880, col: 13, offset: 90952,
 																						},
 																					},
 																					&zeroOrMoreExpr{
 																						pos: position{line: 677, col: 21, offset: 21564},
 																						expr: &actionExpr{
-																							pos: position{line: 2862, col: 10, offset: 90584},
+																							pos: position{line: 2863, col: 10, offset: 90616},
 																							run: (*parser).callonDocumentFragment632,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2862, col: 10, offset: 90584},
+																								pos:        position{line: 2863, col: 10, offset: 90616},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -7061,28 +7061,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2884, col: 8, offset: 90982},
+																						pos: position{line: 2885, col: 8, offset: 91014},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2871, col: 12, offset: 90755},
+																								pos: position{line: 2872, col: 12, offset: 90787},
 																								run: (*parser).callonDocumentFragment635,
 																								expr: &choiceExpr{
-																									pos: position{line: 2871, col: 13, offset: 90756},
+																									pos: position{line: 2872, col: 13, offset: 90788},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 13, offset: 90756},
+																											pos:        position{line: 2872, col: 13, offset: 90788},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 20, offset: 90763},
+																											pos:        position{line: 2872, col: 20, offset: 90795},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 29, offset: 90772},
+																											pos:        position{line: 2872, col: 29, offset: 90804},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -7091,9 +7091,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2881, col: 8, offset: 90932},
+																								pos: position{line: 2882, col: 8, offset: 90964},
 																								expr: &anyMatcher{
-																									line: 2881, col: 9, offset: 90933,
+																									line: 2882, col: 9, offset: 90965,
 																								},
 																							},
 																						},
@@ -7112,12 +7112,12 @@ var g = &grammar{
 																		pos:   position{line: 984, col: 5, offset: 30757},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2812, col: 14, offset: 89177},
+																			pos: position{line: 2813, col: 14, offset: 89209},
 																			run: (*parser).callonDocumentFragment644,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2812, col: 14, offset: 89177},
+																				pos: position{line: 2813, col: 14, offset: 89209},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2812, col: 14, offset: 89177},
+																					pos:        position{line: 2813, col: 14, offset: 89209},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -7127,28 +7127,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2884, col: 8, offset: 90982},
+																		pos: position{line: 2885, col: 8, offset: 91014},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2871, col: 12, offset: 90755},
+																				pos: position{line: 2872, col: 12, offset: 90787},
 																				run: (*parser).callonDocumentFragment648,
 																				expr: &choiceExpr{
-																					pos: position{line: 2871, col: 13, offset: 90756},
+																					pos: position{line: 2872, col: 13, offset: 90788},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 13, offset: 90756},
+																							pos:        position{line: 2872, col: 13, offset: 90788},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 20, offset: 90763},
+																							pos:        position{line: 2872, col: 20, offset: 90795},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 29, offset: 90772},
+																							pos:        position{line: 2872, col: 29, offset: 90804},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7157,9 +7157,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2881, col: 8, offset: 90932},
+																				pos: position{line: 2882, col: 8, offset: 90964},
 																				expr: &anyMatcher{
-																					line: 2881, col: 9, offset: 90933,
+																					line: 2882, col: 9, offset: 90965,
 																				},
 																			},
 																		},
@@ -7191,18 +7191,18 @@ var g = &grammar{
 																							pos: position{line: 677, col: 14, offset: 21557},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2879, col: 11, offset: 90918},
+																									pos: position{line: 2880, col: 11, offset: 90950},
 																									expr: &anyMatcher{
-																										line: 2879, col: 13, offset: 90920,
+																										line: 2880, col: 13, offset: 90952,
 																									},
 																								},
 																								&zeroOrMoreExpr{
 																									pos: position{line: 677, col: 21, offset: 21564},
 																									expr: &actionExpr{
-																										pos: position{line: 2862, col: 10, offset: 90584},
+																										pos: position{line: 2863, col: 10, offset: 90616},
 																										run: (*parser).callonDocumentFragment666,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2862, col: 10, offset: 90584},
+																											pos:        position{line: 2863, col: 10, offset: 90616},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7211,28 +7211,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2884, col: 8, offset: 90982},
+																									pos: position{line: 2885, col: 8, offset: 91014},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2871, col: 12, offset: 90755},
+																											pos: position{line: 2872, col: 12, offset: 90787},
 																											run: (*parser).callonDocumentFragment669,
 																											expr: &choiceExpr{
-																												pos: position{line: 2871, col: 13, offset: 90756},
+																												pos: position{line: 2872, col: 13, offset: 90788},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2871, col: 13, offset: 90756},
+																														pos:        position{line: 2872, col: 13, offset: 90788},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2871, col: 20, offset: 90763},
+																														pos:        position{line: 2872, col: 20, offset: 90795},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2871, col: 29, offset: 90772},
+																														pos:        position{line: 2872, col: 29, offset: 90804},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7241,9 +7241,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2881, col: 8, offset: 90932},
+																											pos: position{line: 2882, col: 8, offset: 90964},
 																											expr: &anyMatcher{
-																												line: 2881, col: 9, offset: 90933,
+																												line: 2882, col: 9, offset: 90965,
 																											},
 																										},
 																									},
@@ -7262,12 +7262,12 @@ var g = &grammar{
 																					pos:   position{line: 984, col: 5, offset: 30757},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2812, col: 14, offset: 89177},
+																						pos: position{line: 2813, col: 14, offset: 89209},
 																						run: (*parser).callonDocumentFragment678,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2812, col: 14, offset: 89177},
+																							pos: position{line: 2813, col: 14, offset: 89209},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2812, col: 14, offset: 89177},
+																								pos:        position{line: 2813, col: 14, offset: 89209},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7277,28 +7277,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2884, col: 8, offset: 90982},
+																					pos: position{line: 2885, col: 8, offset: 91014},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2871, col: 12, offset: 90755},
+																							pos: position{line: 2872, col: 12, offset: 90787},
 																							run: (*parser).callonDocumentFragment682,
 																							expr: &choiceExpr{
-																								pos: position{line: 2871, col: 13, offset: 90756},
+																								pos: position{line: 2872, col: 13, offset: 90788},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2871, col: 13, offset: 90756},
+																										pos:        position{line: 2872, col: 13, offset: 90788},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2871, col: 20, offset: 90763},
+																										pos:        position{line: 2872, col: 20, offset: 90795},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2871, col: 29, offset: 90772},
+																										pos:        position{line: 2872, col: 29, offset: 90804},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7307,9 +7307,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2881, col: 8, offset: 90932},
+																							pos: position{line: 2882, col: 8, offset: 90964},
 																							expr: &anyMatcher{
-																								line: 2881, col: 9, offset: 90933,
+																								line: 2882, col: 9, offset: 90965,
 																							},
 																						},
 																					},
@@ -7318,21 +7318,21 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 1784, col: 5, offset: 57750},
+																		pos: position{line: 1785, col: 5, offset: 57782},
 																		run: (*parser).callonDocumentFragment689,
 																		expr: &seqExpr{
-																			pos: position{line: 1784, col: 5, offset: 57750},
+																			pos: position{line: 1785, col: 5, offset: 57782},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1784, col: 5, offset: 57750},
+																					pos:   position{line: 1785, col: 5, offset: 57782},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2812, col: 14, offset: 89177},
+																						pos: position{line: 2813, col: 14, offset: 89209},
 																						run: (*parser).callonDocumentFragment692,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2812, col: 14, offset: 89177},
+																							pos: position{line: 2813, col: 14, offset: 89209},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2812, col: 14, offset: 89177},
+																								pos:        position{line: 2813, col: 14, offset: 89209},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7342,32 +7342,32 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1785, col: 5, offset: 57774},
+																					pos: position{line: 1786, col: 5, offset: 57806},
 																					run: (*parser).callonDocumentFragment695,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2884, col: 8, offset: 90982},
+																					pos: position{line: 2885, col: 8, offset: 91014},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2871, col: 12, offset: 90755},
+																							pos: position{line: 2872, col: 12, offset: 90787},
 																							run: (*parser).callonDocumentFragment697,
 																							expr: &choiceExpr{
-																								pos: position{line: 2871, col: 13, offset: 90756},
+																								pos: position{line: 2872, col: 13, offset: 90788},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2871, col: 13, offset: 90756},
+																										pos:        position{line: 2872, col: 13, offset: 90788},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2871, col: 20, offset: 90763},
+																										pos:        position{line: 2872, col: 20, offset: 90795},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2871, col: 29, offset: 90772},
+																										pos:        position{line: 2872, col: 29, offset: 90804},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7376,9 +7376,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2881, col: 8, offset: 90932},
+																							pos: position{line: 2882, col: 8, offset: 90964},
 																							expr: &anyMatcher{
-																								line: 2881, col: 9, offset: 90933,
+																								line: 2882, col: 9, offset: 90965,
 																							},
 																						},
 																					},
@@ -7425,10 +7425,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 778, col: 8, offset: 25022},
 																		expr: &actionExpr{
-																			pos: position{line: 2862, col: 10, offset: 90584},
+																			pos: position{line: 2863, col: 10, offset: 90616},
 																			run: (*parser).callonDocumentFragment713,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2862, col: 10, offset: 90584},
+																				pos:        position{line: 2863, col: 10, offset: 90616},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7437,28 +7437,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2884, col: 8, offset: 90982},
+																		pos: position{line: 2885, col: 8, offset: 91014},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2871, col: 12, offset: 90755},
+																				pos: position{line: 2872, col: 12, offset: 90787},
 																				run: (*parser).callonDocumentFragment716,
 																				expr: &choiceExpr{
-																					pos: position{line: 2871, col: 13, offset: 90756},
+																					pos: position{line: 2872, col: 13, offset: 90788},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 13, offset: 90756},
+																							pos:        position{line: 2872, col: 13, offset: 90788},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 20, offset: 90763},
+																							pos:        position{line: 2872, col: 20, offset: 90795},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 29, offset: 90772},
+																							pos:        position{line: 2872, col: 29, offset: 90804},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7467,9 +7467,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2881, col: 8, offset: 90932},
+																				pos: position{line: 2882, col: 8, offset: 90964},
 																				expr: &anyMatcher{
-																					line: 2881, col: 9, offset: 90933,
+																					line: 2882, col: 9, offset: 90965,
 																				},
 																			},
 																		},
@@ -7517,10 +7517,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 778, col: 8, offset: 25022},
 																									expr: &actionExpr{
-																										pos: position{line: 2862, col: 10, offset: 90584},
+																										pos: position{line: 2863, col: 10, offset: 90616},
 																										run: (*parser).callonDocumentFragment735,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2862, col: 10, offset: 90584},
+																											pos:        position{line: 2863, col: 10, offset: 90616},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7529,28 +7529,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2884, col: 8, offset: 90982},
+																									pos: position{line: 2885, col: 8, offset: 91014},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2871, col: 12, offset: 90755},
+																											pos: position{line: 2872, col: 12, offset: 90787},
 																											run: (*parser).callonDocumentFragment738,
 																											expr: &choiceExpr{
-																												pos: position{line: 2871, col: 13, offset: 90756},
+																												pos: position{line: 2872, col: 13, offset: 90788},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2871, col: 13, offset: 90756},
+																														pos:        position{line: 2872, col: 13, offset: 90788},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2871, col: 20, offset: 90763},
+																														pos:        position{line: 2872, col: 20, offset: 90795},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2871, col: 29, offset: 90772},
+																														pos:        position{line: 2872, col: 29, offset: 90804},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7559,9 +7559,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2881, col: 8, offset: 90932},
+																											pos: position{line: 2882, col: 8, offset: 90964},
 																											expr: &anyMatcher{
-																												line: 2881, col: 9, offset: 90933,
+																												line: 2882, col: 9, offset: 90965,
 																											},
 																										},
 																									},
@@ -7570,9 +7570,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2881, col: 8, offset: 90932},
+																						pos: position{line: 2882, col: 8, offset: 90964},
 																						expr: &anyMatcher{
-																							line: 2881, col: 9, offset: 90933,
+																							line: 2882, col: 9, offset: 90965,
 																						},
 																					},
 																				},
@@ -7588,21 +7588,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26161},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2879, col: 11, offset: 90918},
+																							pos: position{line: 2880, col: 11, offset: 90950},
 																							expr: &anyMatcher{
-																								line: 2879, col: 13, offset: 90920,
+																								line: 2880, col: 13, offset: 90952,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26236},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2808, col: 13, offset: 89110},
+																								pos: position{line: 2809, col: 13, offset: 89142},
 																								run: (*parser).callonDocumentFragment753,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2808, col: 13, offset: 89110},
+																									pos: position{line: 2809, col: 13, offset: 89142},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2808, col: 13, offset: 89110},
+																										pos:        position{line: 2809, col: 13, offset: 89142},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7612,28 +7612,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2884, col: 8, offset: 90982},
+																							pos: position{line: 2885, col: 8, offset: 91014},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2871, col: 12, offset: 90755},
+																									pos: position{line: 2872, col: 12, offset: 90787},
 																									run: (*parser).callonDocumentFragment757,
 																									expr: &choiceExpr{
-																										pos: position{line: 2871, col: 13, offset: 90756},
+																										pos: position{line: 2872, col: 13, offset: 90788},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 13, offset: 90756},
+																												pos:        position{line: 2872, col: 13, offset: 90788},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 20, offset: 90763},
+																												pos:        position{line: 2872, col: 20, offset: 90795},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 29, offset: 90772},
+																												pos:        position{line: 2872, col: 29, offset: 90804},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7642,9 +7642,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2881, col: 8, offset: 90932},
+																									pos: position{line: 2882, col: 8, offset: 90964},
 																									expr: &anyMatcher{
-																										line: 2881, col: 9, offset: 90933,
+																										line: 2882, col: 9, offset: 90965,
 																									},
 																								},
 																							},
@@ -7689,10 +7689,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 778, col: 8, offset: 25022},
 																					expr: &actionExpr{
-																						pos: position{line: 2862, col: 10, offset: 90584},
+																						pos: position{line: 2863, col: 10, offset: 90616},
 																						run: (*parser).callonDocumentFragment773,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2862, col: 10, offset: 90584},
+																							pos:        position{line: 2863, col: 10, offset: 90616},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7701,28 +7701,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2884, col: 8, offset: 90982},
+																					pos: position{line: 2885, col: 8, offset: 91014},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2871, col: 12, offset: 90755},
+																							pos: position{line: 2872, col: 12, offset: 90787},
 																							run: (*parser).callonDocumentFragment776,
 																							expr: &choiceExpr{
-																								pos: position{line: 2871, col: 13, offset: 90756},
+																								pos: position{line: 2872, col: 13, offset: 90788},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2871, col: 13, offset: 90756},
+																										pos:        position{line: 2872, col: 13, offset: 90788},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2871, col: 20, offset: 90763},
+																										pos:        position{line: 2872, col: 20, offset: 90795},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2871, col: 29, offset: 90772},
+																										pos:        position{line: 2872, col: 29, offset: 90804},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7731,9 +7731,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2881, col: 8, offset: 90932},
+																							pos: position{line: 2882, col: 8, offset: 90964},
 																							expr: &anyMatcher{
-																								line: 2881, col: 9, offset: 90933,
+																								line: 2882, col: 9, offset: 90965,
 																							},
 																						},
 																					},
@@ -7742,9 +7742,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2881, col: 8, offset: 90932},
+																		pos: position{line: 2882, col: 8, offset: 90964},
 																		expr: &anyMatcher{
-																			line: 2881, col: 9, offset: 90933,
+																			line: 2882, col: 9, offset: 90965,
 																		},
 																	},
 																},
@@ -7800,10 +7800,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 792, col: 8, offset: 25519},
 																		expr: &actionExpr{
-																			pos: position{line: 2862, col: 10, offset: 90584},
+																			pos: position{line: 2863, col: 10, offset: 90616},
 																			run: (*parser).callonDocumentFragment797,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2862, col: 10, offset: 90584},
+																				pos:        position{line: 2863, col: 10, offset: 90616},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7812,28 +7812,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2884, col: 8, offset: 90982},
+																		pos: position{line: 2885, col: 8, offset: 91014},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2871, col: 12, offset: 90755},
+																				pos: position{line: 2872, col: 12, offset: 90787},
 																				run: (*parser).callonDocumentFragment800,
 																				expr: &choiceExpr{
-																					pos: position{line: 2871, col: 13, offset: 90756},
+																					pos: position{line: 2872, col: 13, offset: 90788},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 13, offset: 90756},
+																							pos:        position{line: 2872, col: 13, offset: 90788},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 20, offset: 90763},
+																							pos:        position{line: 2872, col: 20, offset: 90795},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 29, offset: 90772},
+																							pos:        position{line: 2872, col: 29, offset: 90804},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7842,9 +7842,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2881, col: 8, offset: 90932},
+																				pos: position{line: 2882, col: 8, offset: 90964},
 																				expr: &anyMatcher{
-																					line: 2881, col: 9, offset: 90933,
+																					line: 2882, col: 9, offset: 90965,
 																				},
 																			},
 																		},
@@ -7916,10 +7916,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 792, col: 8, offset: 25519},
 																												expr: &actionExpr{
-																													pos: position{line: 2862, col: 10, offset: 90584},
+																													pos: position{line: 2863, col: 10, offset: 90616},
 																													run: (*parser).callonDocumentFragment825,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2862, col: 10, offset: 90584},
+																														pos:        position{line: 2863, col: 10, offset: 90616},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7928,28 +7928,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2884, col: 8, offset: 90982},
+																												pos: position{line: 2885, col: 8, offset: 91014},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2871, col: 12, offset: 90755},
+																														pos: position{line: 2872, col: 12, offset: 90787},
 																														run: (*parser).callonDocumentFragment828,
 																														expr: &choiceExpr{
-																															pos: position{line: 2871, col: 13, offset: 90756},
+																															pos: position{line: 2872, col: 13, offset: 90788},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2871, col: 13, offset: 90756},
+																																	pos:        position{line: 2872, col: 13, offset: 90788},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2871, col: 20, offset: 90763},
+																																	pos:        position{line: 2872, col: 20, offset: 90795},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2871, col: 29, offset: 90772},
+																																	pos:        position{line: 2872, col: 29, offset: 90804},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7958,9 +7958,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2881, col: 8, offset: 90932},
+																														pos: position{line: 2882, col: 8, offset: 90964},
 																														expr: &anyMatcher{
-																															line: 2881, col: 9, offset: 90933,
+																															line: 2882, col: 9, offset: 90965,
 																														},
 																													},
 																												},
@@ -7976,9 +7976,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2881, col: 8, offset: 90932},
+																						pos: position{line: 2882, col: 8, offset: 90964},
 																						expr: &anyMatcher{
-																							line: 2881, col: 9, offset: 90933,
+																							line: 2882, col: 9, offset: 90965,
 																						},
 																					},
 																				},
@@ -7994,21 +7994,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26161},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2879, col: 11, offset: 90918},
+																							pos: position{line: 2880, col: 11, offset: 90950},
 																							expr: &anyMatcher{
-																								line: 2879, col: 13, offset: 90920,
+																								line: 2880, col: 13, offset: 90952,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26236},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2808, col: 13, offset: 89110},
+																								pos: position{line: 2809, col: 13, offset: 89142},
 																								run: (*parser).callonDocumentFragment844,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2808, col: 13, offset: 89110},
+																									pos: position{line: 2809, col: 13, offset: 89142},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2808, col: 13, offset: 89110},
+																										pos:        position{line: 2809, col: 13, offset: 89142},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8018,28 +8018,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2884, col: 8, offset: 90982},
+																							pos: position{line: 2885, col: 8, offset: 91014},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2871, col: 12, offset: 90755},
+																									pos: position{line: 2872, col: 12, offset: 90787},
 																									run: (*parser).callonDocumentFragment848,
 																									expr: &choiceExpr{
-																										pos: position{line: 2871, col: 13, offset: 90756},
+																										pos: position{line: 2872, col: 13, offset: 90788},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 13, offset: 90756},
+																												pos:        position{line: 2872, col: 13, offset: 90788},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 20, offset: 90763},
+																												pos:        position{line: 2872, col: 20, offset: 90795},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 29, offset: 90772},
+																												pos:        position{line: 2872, col: 29, offset: 90804},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8048,9 +8048,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2881, col: 8, offset: 90932},
+																									pos: position{line: 2882, col: 8, offset: 90964},
 																									expr: &anyMatcher{
-																										line: 2881, col: 9, offset: 90933,
+																										line: 2882, col: 9, offset: 90965,
 																									},
 																								},
 																							},
@@ -8115,10 +8115,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 792, col: 8, offset: 25519},
 																								expr: &actionExpr{
-																									pos: position{line: 2862, col: 10, offset: 90584},
+																									pos: position{line: 2863, col: 10, offset: 90616},
 																									run: (*parser).callonDocumentFragment869,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2862, col: 10, offset: 90584},
+																										pos:        position{line: 2863, col: 10, offset: 90616},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8127,28 +8127,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2884, col: 8, offset: 90982},
+																								pos: position{line: 2885, col: 8, offset: 91014},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2871, col: 12, offset: 90755},
+																										pos: position{line: 2872, col: 12, offset: 90787},
 																										run: (*parser).callonDocumentFragment872,
 																										expr: &choiceExpr{
-																											pos: position{line: 2871, col: 13, offset: 90756},
+																											pos: position{line: 2872, col: 13, offset: 90788},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2871, col: 13, offset: 90756},
+																													pos:        position{line: 2872, col: 13, offset: 90788},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2871, col: 20, offset: 90763},
+																													pos:        position{line: 2872, col: 20, offset: 90795},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2871, col: 29, offset: 90772},
+																													pos:        position{line: 2872, col: 29, offset: 90804},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8157,9 +8157,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2881, col: 8, offset: 90932},
+																										pos: position{line: 2882, col: 8, offset: 90964},
 																										expr: &anyMatcher{
-																											line: 2881, col: 9, offset: 90933,
+																											line: 2882, col: 9, offset: 90965,
 																										},
 																									},
 																								},
@@ -8175,9 +8175,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2881, col: 8, offset: 90932},
+																		pos: position{line: 2882, col: 8, offset: 90964},
 																		expr: &anyMatcher{
-																			line: 2881, col: 9, offset: 90933,
+																			line: 2882, col: 9, offset: 90965,
 																		},
 																	},
 																},
@@ -8233,10 +8233,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 799, col: 8, offset: 25769},
 																		expr: &actionExpr{
-																			pos: position{line: 2862, col: 10, offset: 90584},
+																			pos: position{line: 2863, col: 10, offset: 90616},
 																			run: (*parser).callonDocumentFragment894,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2862, col: 10, offset: 90584},
+																				pos:        position{line: 2863, col: 10, offset: 90616},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8245,28 +8245,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2884, col: 8, offset: 90982},
+																		pos: position{line: 2885, col: 8, offset: 91014},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2871, col: 12, offset: 90755},
+																				pos: position{line: 2872, col: 12, offset: 90787},
 																				run: (*parser).callonDocumentFragment897,
 																				expr: &choiceExpr{
-																					pos: position{line: 2871, col: 13, offset: 90756},
+																					pos: position{line: 2872, col: 13, offset: 90788},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 13, offset: 90756},
+																							pos:        position{line: 2872, col: 13, offset: 90788},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 20, offset: 90763},
+																							pos:        position{line: 2872, col: 20, offset: 90795},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 29, offset: 90772},
+																							pos:        position{line: 2872, col: 29, offset: 90804},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8275,9 +8275,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2881, col: 8, offset: 90932},
+																				pos: position{line: 2882, col: 8, offset: 90964},
 																				expr: &anyMatcher{
-																					line: 2881, col: 9, offset: 90933,
+																					line: 2882, col: 9, offset: 90965,
 																				},
 																			},
 																		},
@@ -8349,10 +8349,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 799, col: 8, offset: 25769},
 																												expr: &actionExpr{
-																													pos: position{line: 2862, col: 10, offset: 90584},
+																													pos: position{line: 2863, col: 10, offset: 90616},
 																													run: (*parser).callonDocumentFragment922,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2862, col: 10, offset: 90584},
+																														pos:        position{line: 2863, col: 10, offset: 90616},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8361,28 +8361,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2884, col: 8, offset: 90982},
+																												pos: position{line: 2885, col: 8, offset: 91014},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2871, col: 12, offset: 90755},
+																														pos: position{line: 2872, col: 12, offset: 90787},
 																														run: (*parser).callonDocumentFragment925,
 																														expr: &choiceExpr{
-																															pos: position{line: 2871, col: 13, offset: 90756},
+																															pos: position{line: 2872, col: 13, offset: 90788},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2871, col: 13, offset: 90756},
+																																	pos:        position{line: 2872, col: 13, offset: 90788},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2871, col: 20, offset: 90763},
+																																	pos:        position{line: 2872, col: 20, offset: 90795},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2871, col: 29, offset: 90772},
+																																	pos:        position{line: 2872, col: 29, offset: 90804},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8391,9 +8391,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2881, col: 8, offset: 90932},
+																														pos: position{line: 2882, col: 8, offset: 90964},
 																														expr: &anyMatcher{
-																															line: 2881, col: 9, offset: 90933,
+																															line: 2882, col: 9, offset: 90965,
 																														},
 																													},
 																												},
@@ -8409,9 +8409,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2881, col: 8, offset: 90932},
+																						pos: position{line: 2882, col: 8, offset: 90964},
 																						expr: &anyMatcher{
-																							line: 2881, col: 9, offset: 90933,
+																							line: 2882, col: 9, offset: 90965,
 																						},
 																					},
 																				},
@@ -8427,21 +8427,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26161},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2879, col: 11, offset: 90918},
+																							pos: position{line: 2880, col: 11, offset: 90950},
 																							expr: &anyMatcher{
-																								line: 2879, col: 13, offset: 90920,
+																								line: 2880, col: 13, offset: 90952,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26236},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2808, col: 13, offset: 89110},
+																								pos: position{line: 2809, col: 13, offset: 89142},
 																								run: (*parser).callonDocumentFragment941,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2808, col: 13, offset: 89110},
+																									pos: position{line: 2809, col: 13, offset: 89142},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2808, col: 13, offset: 89110},
+																										pos:        position{line: 2809, col: 13, offset: 89142},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8451,28 +8451,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2884, col: 8, offset: 90982},
+																							pos: position{line: 2885, col: 8, offset: 91014},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2871, col: 12, offset: 90755},
+																									pos: position{line: 2872, col: 12, offset: 90787},
 																									run: (*parser).callonDocumentFragment945,
 																									expr: &choiceExpr{
-																										pos: position{line: 2871, col: 13, offset: 90756},
+																										pos: position{line: 2872, col: 13, offset: 90788},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 13, offset: 90756},
+																												pos:        position{line: 2872, col: 13, offset: 90788},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 20, offset: 90763},
+																												pos:        position{line: 2872, col: 20, offset: 90795},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 29, offset: 90772},
+																												pos:        position{line: 2872, col: 29, offset: 90804},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8481,9 +8481,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2881, col: 8, offset: 90932},
+																									pos: position{line: 2882, col: 8, offset: 90964},
 																									expr: &anyMatcher{
-																										line: 2881, col: 9, offset: 90933,
+																										line: 2882, col: 9, offset: 90965,
 																									},
 																								},
 																							},
@@ -8548,10 +8548,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 799, col: 8, offset: 25769},
 																								expr: &actionExpr{
-																									pos: position{line: 2862, col: 10, offset: 90584},
+																									pos: position{line: 2863, col: 10, offset: 90616},
 																									run: (*parser).callonDocumentFragment966,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2862, col: 10, offset: 90584},
+																										pos:        position{line: 2863, col: 10, offset: 90616},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8560,28 +8560,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2884, col: 8, offset: 90982},
+																								pos: position{line: 2885, col: 8, offset: 91014},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2871, col: 12, offset: 90755},
+																										pos: position{line: 2872, col: 12, offset: 90787},
 																										run: (*parser).callonDocumentFragment969,
 																										expr: &choiceExpr{
-																											pos: position{line: 2871, col: 13, offset: 90756},
+																											pos: position{line: 2872, col: 13, offset: 90788},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2871, col: 13, offset: 90756},
+																													pos:        position{line: 2872, col: 13, offset: 90788},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2871, col: 20, offset: 90763},
+																													pos:        position{line: 2872, col: 20, offset: 90795},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2871, col: 29, offset: 90772},
+																													pos:        position{line: 2872, col: 29, offset: 90804},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8590,9 +8590,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2881, col: 8, offset: 90932},
+																										pos: position{line: 2882, col: 8, offset: 90964},
 																										expr: &anyMatcher{
-																											line: 2881, col: 9, offset: 90933,
+																											line: 2882, col: 9, offset: 90965,
 																										},
 																									},
 																								},
@@ -8608,9 +8608,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2881, col: 8, offset: 90932},
+																		pos: position{line: 2882, col: 8, offset: 90964},
 																		expr: &anyMatcher{
-																			line: 2881, col: 9, offset: 90933,
+																			line: 2882, col: 9, offset: 90965,
 																		},
 																	},
 																},
@@ -8666,10 +8666,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 806, col: 8, offset: 26015},
 																		expr: &actionExpr{
-																			pos: position{line: 2862, col: 10, offset: 90584},
+																			pos: position{line: 2863, col: 10, offset: 90616},
 																			run: (*parser).callonDocumentFragment991,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2862, col: 10, offset: 90584},
+																				pos:        position{line: 2863, col: 10, offset: 90616},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8678,28 +8678,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2884, col: 8, offset: 90982},
+																		pos: position{line: 2885, col: 8, offset: 91014},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2871, col: 12, offset: 90755},
+																				pos: position{line: 2872, col: 12, offset: 90787},
 																				run: (*parser).callonDocumentFragment994,
 																				expr: &choiceExpr{
-																					pos: position{line: 2871, col: 13, offset: 90756},
+																					pos: position{line: 2872, col: 13, offset: 90788},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 13, offset: 90756},
+																							pos:        position{line: 2872, col: 13, offset: 90788},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 20, offset: 90763},
+																							pos:        position{line: 2872, col: 20, offset: 90795},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 29, offset: 90772},
+																							pos:        position{line: 2872, col: 29, offset: 90804},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8708,9 +8708,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2881, col: 8, offset: 90932},
+																				pos: position{line: 2882, col: 8, offset: 90964},
 																				expr: &anyMatcher{
-																					line: 2881, col: 9, offset: 90933,
+																					line: 2882, col: 9, offset: 90965,
 																				},
 																			},
 																		},
@@ -8782,10 +8782,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 806, col: 8, offset: 26015},
 																												expr: &actionExpr{
-																													pos: position{line: 2862, col: 10, offset: 90584},
+																													pos: position{line: 2863, col: 10, offset: 90616},
 																													run: (*parser).callonDocumentFragment1019,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2862, col: 10, offset: 90584},
+																														pos:        position{line: 2863, col: 10, offset: 90616},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8794,28 +8794,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2884, col: 8, offset: 90982},
+																												pos: position{line: 2885, col: 8, offset: 91014},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2871, col: 12, offset: 90755},
+																														pos: position{line: 2872, col: 12, offset: 90787},
 																														run: (*parser).callonDocumentFragment1022,
 																														expr: &choiceExpr{
-																															pos: position{line: 2871, col: 13, offset: 90756},
+																															pos: position{line: 2872, col: 13, offset: 90788},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2871, col: 13, offset: 90756},
+																																	pos:        position{line: 2872, col: 13, offset: 90788},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2871, col: 20, offset: 90763},
+																																	pos:        position{line: 2872, col: 20, offset: 90795},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2871, col: 29, offset: 90772},
+																																	pos:        position{line: 2872, col: 29, offset: 90804},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8824,9 +8824,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2881, col: 8, offset: 90932},
+																														pos: position{line: 2882, col: 8, offset: 90964},
 																														expr: &anyMatcher{
-																															line: 2881, col: 9, offset: 90933,
+																															line: 2882, col: 9, offset: 90965,
 																														},
 																													},
 																												},
@@ -8842,9 +8842,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2881, col: 8, offset: 90932},
+																						pos: position{line: 2882, col: 8, offset: 90964},
 																						expr: &anyMatcher{
-																							line: 2881, col: 9, offset: 90933,
+																							line: 2882, col: 9, offset: 90965,
 																						},
 																					},
 																				},
@@ -8860,21 +8860,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26161},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2879, col: 11, offset: 90918},
+																							pos: position{line: 2880, col: 11, offset: 90950},
 																							expr: &anyMatcher{
-																								line: 2879, col: 13, offset: 90920,
+																								line: 2880, col: 13, offset: 90952,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26236},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2808, col: 13, offset: 89110},
+																								pos: position{line: 2809, col: 13, offset: 89142},
 																								run: (*parser).callonDocumentFragment1038,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2808, col: 13, offset: 89110},
+																									pos: position{line: 2809, col: 13, offset: 89142},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2808, col: 13, offset: 89110},
+																										pos:        position{line: 2809, col: 13, offset: 89142},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8884,28 +8884,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2884, col: 8, offset: 90982},
+																							pos: position{line: 2885, col: 8, offset: 91014},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2871, col: 12, offset: 90755},
+																									pos: position{line: 2872, col: 12, offset: 90787},
 																									run: (*parser).callonDocumentFragment1042,
 																									expr: &choiceExpr{
-																										pos: position{line: 2871, col: 13, offset: 90756},
+																										pos: position{line: 2872, col: 13, offset: 90788},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 13, offset: 90756},
+																												pos:        position{line: 2872, col: 13, offset: 90788},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 20, offset: 90763},
+																												pos:        position{line: 2872, col: 20, offset: 90795},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 29, offset: 90772},
+																												pos:        position{line: 2872, col: 29, offset: 90804},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8914,9 +8914,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2881, col: 8, offset: 90932},
+																									pos: position{line: 2882, col: 8, offset: 90964},
 																									expr: &anyMatcher{
-																										line: 2881, col: 9, offset: 90933,
+																										line: 2882, col: 9, offset: 90965,
 																									},
 																								},
 																							},
@@ -8981,10 +8981,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 806, col: 8, offset: 26015},
 																								expr: &actionExpr{
-																									pos: position{line: 2862, col: 10, offset: 90584},
+																									pos: position{line: 2863, col: 10, offset: 90616},
 																									run: (*parser).callonDocumentFragment1063,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2862, col: 10, offset: 90584},
+																										pos:        position{line: 2863, col: 10, offset: 90616},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8993,28 +8993,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2884, col: 8, offset: 90982},
+																								pos: position{line: 2885, col: 8, offset: 91014},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2871, col: 12, offset: 90755},
+																										pos: position{line: 2872, col: 12, offset: 90787},
 																										run: (*parser).callonDocumentFragment1066,
 																										expr: &choiceExpr{
-																											pos: position{line: 2871, col: 13, offset: 90756},
+																											pos: position{line: 2872, col: 13, offset: 90788},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2871, col: 13, offset: 90756},
+																													pos:        position{line: 2872, col: 13, offset: 90788},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2871, col: 20, offset: 90763},
+																													pos:        position{line: 2872, col: 20, offset: 90795},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2871, col: 29, offset: 90772},
+																													pos:        position{line: 2872, col: 29, offset: 90804},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -9023,9 +9023,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2881, col: 8, offset: 90932},
+																										pos: position{line: 2882, col: 8, offset: 90964},
 																										expr: &anyMatcher{
-																											line: 2881, col: 9, offset: 90933,
+																											line: 2882, col: 9, offset: 90965,
 																										},
 																									},
 																								},
@@ -9041,9 +9041,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2881, col: 8, offset: 90932},
+																		pos: position{line: 2882, col: 8, offset: 90964},
 																		expr: &anyMatcher{
-																			line: 2881, col: 9, offset: 90933,
+																			line: 2882, col: 9, offset: 90965,
 																		},
 																	},
 																},
@@ -9054,52 +9054,52 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2707, col: 18, offset: 86179},
+											pos: position{line: 2708, col: 18, offset: 86211},
 											run: (*parser).callonDocumentFragment1076,
 											expr: &seqExpr{
-												pos: position{line: 2707, col: 18, offset: 86179},
+												pos: position{line: 2708, col: 18, offset: 86211},
 												exprs: []interface{}{
 													&choiceExpr{
-														pos: position{line: 2708, col: 9, offset: 86189},
+														pos: position{line: 2709, col: 9, offset: 86221},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2708, col: 9, offset: 86189},
+																pos:        position{line: 2709, col: 9, offset: 86221},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2709, col: 11, offset: 86225},
+																pos:        position{line: 2710, col: 11, offset: 86257},
 																val:        "***",
 																ignoreCase: false,
 																want:       "\"***\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2709, col: 19, offset: 86233},
+																pos:        position{line: 2710, col: 19, offset: 86265},
 																val:        "* * *",
 																ignoreCase: false,
 																want:       "\"* * *\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2709, col: 29, offset: 86243},
+																pos:        position{line: 2710, col: 29, offset: 86275},
 																val:        "---",
 																ignoreCase: false,
 																want:       "\"---\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2709, col: 37, offset: 86251},
+																pos:        position{line: 2710, col: 37, offset: 86283},
 																val:        "- - -",
 																ignoreCase: false,
 																want:       "\"- - -\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2709, col: 47, offset: 86261},
+																pos:        position{line: 2710, col: 47, offset: 86293},
 																val:        "___",
 																ignoreCase: false,
 																want:       "\"___\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2709, col: 55, offset: 86269},
+																pos:        position{line: 2710, col: 55, offset: 86301},
 																val:        "_ _ _",
 																ignoreCase: false,
 																want:       "\"_ _ _\"",
@@ -9107,12 +9107,12 @@ var g = &grammar{
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2710, col: 11, offset: 86315},
+														pos: position{line: 2711, col: 11, offset: 86347},
 														expr: &actionExpr{
-															pos: position{line: 2862, col: 10, offset: 90584},
+															pos: position{line: 2863, col: 10, offset: 90616},
 															run: (*parser).callonDocumentFragment1087,
 															expr: &charClassMatcher{
-																pos:        position{line: 2862, col: 10, offset: 90584},
+																pos:        position{line: 2863, col: 10, offset: 90616},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9121,28 +9121,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2884, col: 8, offset: 90982},
+														pos: position{line: 2885, col: 8, offset: 91014},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2871, col: 12, offset: 90755},
+																pos: position{line: 2872, col: 12, offset: 90787},
 																run: (*parser).callonDocumentFragment1090,
 																expr: &choiceExpr{
-																	pos: position{line: 2871, col: 13, offset: 90756},
+																	pos: position{line: 2872, col: 13, offset: 90788},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2871, col: 13, offset: 90756},
+																			pos:        position{line: 2872, col: 13, offset: 90788},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2871, col: 20, offset: 90763},
+																			pos:        position{line: 2872, col: 20, offset: 90795},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2871, col: 29, offset: 90772},
+																			pos:        position{line: 2872, col: 29, offset: 90804},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9151,20 +9151,20 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2881, col: 8, offset: 90932},
+																pos: position{line: 2882, col: 8, offset: 90964},
 																expr: &anyMatcher{
-																	line: 2881, col: 9, offset: 90933,
+																	line: 2882, col: 9, offset: 90965,
 																},
 															},
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2710, col: 22, offset: 86326},
+														pos: position{line: 2711, col: 22, offset: 86358},
 														expr: &actionExpr{
-															pos: position{line: 2862, col: 10, offset: 90584},
+															pos: position{line: 2863, col: 10, offset: 90616},
 															run: (*parser).callonDocumentFragment1098,
 															expr: &charClassMatcher{
-																pos:        position{line: 2862, col: 10, offset: 90584},
+																pos:        position{line: 2863, col: 10, offset: 90616},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9173,28 +9173,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2884, col: 8, offset: 90982},
+														pos: position{line: 2885, col: 8, offset: 91014},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2871, col: 12, offset: 90755},
+																pos: position{line: 2872, col: 12, offset: 90787},
 																run: (*parser).callonDocumentFragment1101,
 																expr: &choiceExpr{
-																	pos: position{line: 2871, col: 13, offset: 90756},
+																	pos: position{line: 2872, col: 13, offset: 90788},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2871, col: 13, offset: 90756},
+																			pos:        position{line: 2872, col: 13, offset: 90788},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2871, col: 20, offset: 90763},
+																			pos:        position{line: 2872, col: 20, offset: 90795},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2871, col: 29, offset: 90772},
+																			pos:        position{line: 2872, col: 29, offset: 90804},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9203,9 +9203,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2881, col: 8, offset: 90932},
+																pos: position{line: 2882, col: 8, offset: 90964},
 																expr: &anyMatcher{
-																	line: 2881, col: 9, offset: 90933,
+																	line: 2882, col: 9, offset: 90965,
 																},
 															},
 														},
@@ -9218,24 +9218,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2598, col: 5, offset: 83115},
+											pos: position{line: 2599, col: 5, offset: 83147},
 											run: (*parser).callonDocumentFragment1109,
 											expr: &seqExpr{
-												pos: position{line: 2598, col: 5, offset: 83115},
+												pos: position{line: 2599, col: 5, offset: 83147},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2604, col: 19, offset: 83272},
+														pos:        position{line: 2605, col: 19, offset: 83304},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2604, col: 26, offset: 83279},
+														pos: position{line: 2605, col: 26, offset: 83311},
 														expr: &actionExpr{
-															pos: position{line: 2862, col: 10, offset: 90584},
+															pos: position{line: 2863, col: 10, offset: 90616},
 															run: (*parser).callonDocumentFragment1113,
 															expr: &charClassMatcher{
-																pos:        position{line: 2862, col: 10, offset: 90584},
+																pos:        position{line: 2863, col: 10, offset: 90616},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9244,28 +9244,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2884, col: 8, offset: 90982},
+														pos: position{line: 2885, col: 8, offset: 91014},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2871, col: 12, offset: 90755},
+																pos: position{line: 2872, col: 12, offset: 90787},
 																run: (*parser).callonDocumentFragment1116,
 																expr: &choiceExpr{
-																	pos: position{line: 2871, col: 13, offset: 90756},
+																	pos: position{line: 2872, col: 13, offset: 90788},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2871, col: 13, offset: 90756},
+																			pos:        position{line: 2872, col: 13, offset: 90788},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2871, col: 20, offset: 90763},
+																			pos:        position{line: 2872, col: 20, offset: 90795},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2871, col: 29, offset: 90772},
+																			pos:        position{line: 2872, col: 29, offset: 90804},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9274,20 +9274,20 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2881, col: 8, offset: 90932},
+																pos: position{line: 2882, col: 8, offset: 90964},
 																expr: &anyMatcher{
-																	line: 2881, col: 9, offset: 90933,
+																	line: 2882, col: 9, offset: 90965,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2599, col: 5, offset: 83139},
+														pos:   position{line: 2600, col: 5, offset: 83171},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2599, col: 11, offset: 83145},
+															pos: position{line: 2600, col: 11, offset: 83177},
 															expr: &choiceExpr{
-																pos: position{line: 2599, col: 12, offset: 83146},
+																pos: position{line: 2600, col: 12, offset: 83178},
 																alternatives: []interface{}{
 																	&actionExpr{
 																		pos: position{line: 677, col: 14, offset: 21557},
@@ -9296,18 +9296,18 @@ var g = &grammar{
 																			pos: position{line: 677, col: 14, offset: 21557},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2879, col: 11, offset: 90918},
+																					pos: position{line: 2880, col: 11, offset: 90950},
 																					expr: &anyMatcher{
-																						line: 2879, col: 13, offset: 90920,
+																						line: 2880, col: 13, offset: 90952,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21564},
 																					expr: &actionExpr{
-																						pos: position{line: 2862, col: 10, offset: 90584},
+																						pos: position{line: 2863, col: 10, offset: 90616},
 																						run: (*parser).callonDocumentFragment1131,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2862, col: 10, offset: 90584},
+																							pos:        position{line: 2863, col: 10, offset: 90616},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9316,28 +9316,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2884, col: 8, offset: 90982},
+																					pos: position{line: 2885, col: 8, offset: 91014},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2871, col: 12, offset: 90755},
+																							pos: position{line: 2872, col: 12, offset: 90787},
 																							run: (*parser).callonDocumentFragment1134,
 																							expr: &choiceExpr{
-																								pos: position{line: 2871, col: 13, offset: 90756},
+																								pos: position{line: 2872, col: 13, offset: 90788},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2871, col: 13, offset: 90756},
+																										pos:        position{line: 2872, col: 13, offset: 90788},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2871, col: 20, offset: 90763},
+																										pos:        position{line: 2872, col: 20, offset: 90795},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2871, col: 29, offset: 90772},
+																										pos:        position{line: 2872, col: 29, offset: 90804},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9346,9 +9346,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2881, col: 8, offset: 90932},
+																							pos: position{line: 2882, col: 8, offset: 90964},
 																							expr: &anyMatcher{
-																								line: 2881, col: 9, offset: 90933,
+																								line: 2882, col: 9, offset: 90965,
 																							},
 																						},
 																					},
@@ -9357,32 +9357,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2611, col: 5, offset: 83391},
+																		pos: position{line: 2612, col: 5, offset: 83423},
 																		run: (*parser).callonDocumentFragment1141,
 																		expr: &seqExpr{
-																			pos: position{line: 2611, col: 5, offset: 83391},
+																			pos: position{line: 2612, col: 5, offset: 83423},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2611, col: 5, offset: 83391},
+																					pos: position{line: 2612, col: 5, offset: 83423},
 																					expr: &choiceExpr{
-																						pos: position{line: 2608, col: 22, offset: 83352},
+																						pos: position{line: 2609, col: 22, offset: 83384},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2604, col: 19, offset: 83272},
+																								pos: position{line: 2605, col: 19, offset: 83304},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2604, col: 19, offset: 83272},
+																										pos:        position{line: 2605, col: 19, offset: 83304},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2604, col: 26, offset: 83279},
+																										pos: position{line: 2605, col: 26, offset: 83311},
 																										expr: &actionExpr{
-																											pos: position{line: 2862, col: 10, offset: 90584},
+																											pos: position{line: 2863, col: 10, offset: 90616},
 																											run: (*parser).callonDocumentFragment1148,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2862, col: 10, offset: 90584},
+																												pos:        position{line: 2863, col: 10, offset: 90616},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9391,28 +9391,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2884, col: 8, offset: 90982},
+																										pos: position{line: 2885, col: 8, offset: 91014},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2871, col: 12, offset: 90755},
+																												pos: position{line: 2872, col: 12, offset: 90787},
 																												run: (*parser).callonDocumentFragment1151,
 																												expr: &choiceExpr{
-																													pos: position{line: 2871, col: 13, offset: 90756},
+																													pos: position{line: 2872, col: 13, offset: 90788},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2871, col: 13, offset: 90756},
+																															pos:        position{line: 2872, col: 13, offset: 90788},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2871, col: 20, offset: 90763},
+																															pos:        position{line: 2872, col: 20, offset: 90795},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2871, col: 29, offset: 90772},
+																															pos:        position{line: 2872, col: 29, offset: 90804},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9421,9 +9421,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2881, col: 8, offset: 90932},
+																												pos: position{line: 2882, col: 8, offset: 90964},
 																												expr: &anyMatcher{
-																													line: 2881, col: 9, offset: 90933,
+																													line: 2882, col: 9, offset: 90965,
 																												},
 																											},
 																										},
@@ -9431,59 +9431,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2881, col: 8, offset: 90932},
+																								pos: position{line: 2882, col: 8, offset: 90964},
 																								expr: &anyMatcher{
-																									line: 2881, col: 9, offset: 90933,
+																									line: 2882, col: 9, offset: 90965,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2612, col: 5, offset: 83414},
+																					pos:   position{line: 2613, col: 5, offset: 83446},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2613, col: 9, offset: 83432},
+																						pos: position{line: 2614, col: 9, offset: 83464},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2613, col: 10, offset: 83433},
+																								pos: position{line: 2614, col: 10, offset: 83465},
 																								run: (*parser).callonDocumentFragment1162,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2613, col: 10, offset: 83433},
+																									pos:   position{line: 2614, col: 10, offset: 83465},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2613, col: 17, offset: 83440},
+																										pos: position{line: 2614, col: 17, offset: 83472},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2621, col: 21, offset: 83636},
+																												pos: position{line: 2622, col: 21, offset: 83668},
 																												run: (*parser).callonDocumentFragment1165,
 																												expr: &seqExpr{
-																													pos: position{line: 2621, col: 21, offset: 83636},
+																													pos: position{line: 2622, col: 21, offset: 83668},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2621, col: 21, offset: 83636},
+																															pos:   position{line: 2622, col: 21, offset: 83668},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2621, col: 27, offset: 83642},
+																																pos: position{line: 2622, col: 27, offset: 83674},
 																																expr: &actionExpr{
-																																	pos: position{line: 2626, col: 5, offset: 83717},
+																																	pos: position{line: 2627, col: 5, offset: 83749},
 																																	run: (*parser).callonDocumentFragment1169,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2626, col: 5, offset: 83717},
+																																		pos: position{line: 2627, col: 5, offset: 83749},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2626, col: 5, offset: 83717},
+																																				pos:        position{line: 2627, col: 5, offset: 83749},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2626, col: 9, offset: 83721},
+																																				pos: position{line: 2627, col: 9, offset: 83753},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2862, col: 10, offset: 90584},
+																																					pos: position{line: 2863, col: 10, offset: 90616},
 																																					run: (*parser).callonDocumentFragment1173,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2862, col: 10, offset: 90584},
+																																						pos:        position{line: 2863, col: 10, offset: 90616},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9492,21 +9492,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2626, col: 16, offset: 83728},
+																																				pos:   position{line: 2627, col: 16, offset: 83760},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2632, col: 5, offset: 83928},
+																																					pos: position{line: 2633, col: 5, offset: 83960},
 																																					run: (*parser).callonDocumentFragment1176,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2632, col: 5, offset: 83928},
+																																						pos:   position{line: 2633, col: 5, offset: 83960},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2632, col: 14, offset: 83937},
+																																							pos: position{line: 2633, col: 14, offset: 83969},
 																																							run: (*parser).callonDocumentFragment1178,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2632, col: 14, offset: 83937},
+																																								pos: position{line: 2633, col: 14, offset: 83969},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2632, col: 14, offset: 83937},
+																																									pos:        position{line: 2633, col: 14, offset: 83969},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9523,28 +9523,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2884, col: 8, offset: 90982},
+																															pos: position{line: 2885, col: 8, offset: 91014},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2871, col: 12, offset: 90755},
+																																	pos: position{line: 2872, col: 12, offset: 90787},
 																																	run: (*parser).callonDocumentFragment1182,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2871, col: 13, offset: 90756},
+																																		pos: position{line: 2872, col: 13, offset: 90788},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2871, col: 13, offset: 90756},
+																																				pos:        position{line: 2872, col: 13, offset: 90788},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2871, col: 20, offset: 90763},
+																																				pos:        position{line: 2872, col: 20, offset: 90795},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2871, col: 29, offset: 90772},
+																																				pos:        position{line: 2872, col: 29, offset: 90804},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9553,9 +9553,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2881, col: 8, offset: 90932},
+																																	pos: position{line: 2882, col: 8, offset: 90964},
 																																	expr: &anyMatcher{
-																																		line: 2881, col: 9, offset: 90933,
+																																		line: 2882, col: 9, offset: 90965,
 																																	},
 																																},
 																															},
@@ -9564,40 +9564,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2638, col: 24, offset: 84073},
+																												pos: position{line: 2639, col: 24, offset: 84105},
 																												run: (*parser).callonDocumentFragment1189,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2638, col: 24, offset: 84073},
+																													pos:   position{line: 2639, col: 24, offset: 84105},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2638, col: 30, offset: 84079},
+																														pos: position{line: 2639, col: 30, offset: 84111},
 																														expr: &actionExpr{
-																															pos: position{line: 2643, col: 5, offset: 84155},
+																															pos: position{line: 2644, col: 5, offset: 84187},
 																															run: (*parser).callonDocumentFragment1192,
 																															expr: &seqExpr{
-																																pos: position{line: 2643, col: 5, offset: 84155},
+																																pos: position{line: 2644, col: 5, offset: 84187},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2643, col: 5, offset: 84155},
+																																		pos: position{line: 2644, col: 5, offset: 84187},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2608, col: 22, offset: 83352},
+																																			pos: position{line: 2609, col: 22, offset: 83384},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2604, col: 19, offset: 83272},
+																																					pos: position{line: 2605, col: 19, offset: 83304},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2604, col: 19, offset: 83272},
+																																							pos:        position{line: 2605, col: 19, offset: 83304},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2604, col: 26, offset: 83279},
+																																							pos: position{line: 2605, col: 26, offset: 83311},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2862, col: 10, offset: 90584},
+																																								pos: position{line: 2863, col: 10, offset: 90616},
 																																								run: (*parser).callonDocumentFragment1199,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2862, col: 10, offset: 90584},
+																																									pos:        position{line: 2863, col: 10, offset: 90616},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9606,28 +9606,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2884, col: 8, offset: 90982},
+																																							pos: position{line: 2885, col: 8, offset: 91014},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2871, col: 12, offset: 90755},
+																																									pos: position{line: 2872, col: 12, offset: 90787},
 																																									run: (*parser).callonDocumentFragment1202,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2871, col: 13, offset: 90756},
+																																										pos: position{line: 2872, col: 13, offset: 90788},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2871, col: 13, offset: 90756},
+																																												pos:        position{line: 2872, col: 13, offset: 90788},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2871, col: 20, offset: 90763},
+																																												pos:        position{line: 2872, col: 20, offset: 90795},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2871, col: 29, offset: 90772},
+																																												pos:        position{line: 2872, col: 29, offset: 90804},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9636,9 +9636,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2881, col: 8, offset: 90932},
+																																									pos: position{line: 2882, col: 8, offset: 90964},
 																																									expr: &anyMatcher{
-																																										line: 2881, col: 9, offset: 90933,
+																																										line: 2882, col: 9, offset: 90965,
 																																									},
 																																								},
 																																							},
@@ -9646,16 +9646,16 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2881, col: 8, offset: 90932},
+																																					pos: position{line: 2882, col: 8, offset: 90964},
 																																					expr: &anyMatcher{
-																																						line: 2881, col: 9, offset: 90933,
+																																						line: 2882, col: 9, offset: 90965,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2644, col: 5, offset: 84178},
+																																		pos: position{line: 2645, col: 5, offset: 84210},
 																																		expr: &actionExpr{
 																																			pos: position{line: 677, col: 14, offset: 21557},
 																																			run: (*parser).callonDocumentFragment1212,
@@ -9663,18 +9663,18 @@ var g = &grammar{
 																																				pos: position{line: 677, col: 14, offset: 21557},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2879, col: 11, offset: 90918},
+																																						pos: position{line: 2880, col: 11, offset: 90950},
 																																						expr: &anyMatcher{
-																																							line: 2879, col: 13, offset: 90920,
+																																							line: 2880, col: 13, offset: 90952,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
 																																						pos: position{line: 677, col: 21, offset: 21564},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2862, col: 10, offset: 90584},
+																																							pos: position{line: 2863, col: 10, offset: 90616},
 																																							run: (*parser).callonDocumentFragment1217,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2862, col: 10, offset: 90584},
+																																								pos:        position{line: 2863, col: 10, offset: 90616},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9683,28 +9683,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2884, col: 8, offset: 90982},
+																																						pos: position{line: 2885, col: 8, offset: 91014},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2871, col: 12, offset: 90755},
+																																								pos: position{line: 2872, col: 12, offset: 90787},
 																																								run: (*parser).callonDocumentFragment1220,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2871, col: 13, offset: 90756},
+																																									pos: position{line: 2872, col: 13, offset: 90788},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2871, col: 13, offset: 90756},
+																																											pos:        position{line: 2872, col: 13, offset: 90788},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2871, col: 20, offset: 90763},
+																																											pos:        position{line: 2872, col: 20, offset: 90795},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2871, col: 29, offset: 90772},
+																																											pos:        position{line: 2872, col: 29, offset: 90804},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9713,9 +9713,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2881, col: 8, offset: 90932},
+																																								pos: position{line: 2882, col: 8, offset: 90964},
 																																								expr: &anyMatcher{
-																																									line: 2881, col: 9, offset: 90933,
+																																									line: 2882, col: 9, offset: 90965,
 																																								},
 																																							},
 																																						},
@@ -9725,17 +9725,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2645, col: 5, offset: 84193},
+																																		pos:   position{line: 2646, col: 5, offset: 84225},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2645, col: 12, offset: 84200},
+																																			pos: position{line: 2646, col: 12, offset: 84232},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2662, col: 20, offset: 84664},
+																																				pos: position{line: 2663, col: 20, offset: 84696},
 																																				run: (*parser).callonDocumentFragment1229,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2662, col: 20, offset: 84664},
+																																					pos: position{line: 2663, col: 20, offset: 84696},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2662, col: 20, offset: 84664},
+																																						pos:        position{line: 2663, col: 20, offset: 84696},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9746,18 +9746,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2645, col: 31, offset: 84219},
+																																		pos:        position{line: 2646, col: 31, offset: 84251},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2645, col: 35, offset: 84223},
+																																		pos: position{line: 2646, col: 35, offset: 84255},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2862, col: 10, offset: 90584},
+																																			pos: position{line: 2863, col: 10, offset: 90616},
 																																			run: (*parser).callonDocumentFragment1234,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2862, col: 10, offset: 90584},
+																																				pos:        position{line: 2863, col: 10, offset: 90616},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9766,27 +9766,27 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2645, col: 42, offset: 84230},
+																																		pos: position{line: 2646, col: 42, offset: 84262},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2871, col: 12, offset: 90755},
+																																			pos: position{line: 2872, col: 12, offset: 90787},
 																																			run: (*parser).callonDocumentFragment1237,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2871, col: 13, offset: 90756},
+																																				pos: position{line: 2872, col: 13, offset: 90788},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2871, col: 13, offset: 90756},
+																																						pos:        position{line: 2872, col: 13, offset: 90788},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2871, col: 20, offset: 90763},
+																																						pos:        position{line: 2872, col: 20, offset: 90795},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2871, col: 29, offset: 90772},
+																																						pos:        position{line: 2872, col: 29, offset: 90804},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9796,37 +9796,37 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2645, col: 51, offset: 84239},
+																																		pos:   position{line: 2646, col: 51, offset: 84271},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2651, col: 5, offset: 84398},
+																																			pos: position{line: 2652, col: 5, offset: 84430},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2652, col: 9, offset: 84408},
+																																				pos: position{line: 2653, col: 9, offset: 84440},
 																																				run: (*parser).callonDocumentFragment1244,
 																																				expr: &seqExpr{
-																																					pos: position{line: 2652, col: 9, offset: 84408},
+																																					pos: position{line: 2653, col: 9, offset: 84440},
 																																					exprs: []interface{}{
 																																						&notExpr{
-																																							pos: position{line: 2652, col: 9, offset: 84408},
+																																							pos: position{line: 2653, col: 9, offset: 84440},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2608, col: 22, offset: 83352},
+																																								pos: position{line: 2609, col: 22, offset: 83384},
 																																								alternatives: []interface{}{
 																																									&seqExpr{
-																																										pos: position{line: 2604, col: 19, offset: 83272},
+																																										pos: position{line: 2605, col: 19, offset: 83304},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2604, col: 19, offset: 83272},
+																																												pos:        position{line: 2605, col: 19, offset: 83304},
 																																												val:        "|===",
 																																												ignoreCase: false,
 																																												want:       "\"|===\"",
 																																											},
 																																											&zeroOrMoreExpr{
-																																												pos: position{line: 2604, col: 26, offset: 83279},
+																																												pos: position{line: 2605, col: 26, offset: 83311},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2862, col: 10, offset: 90584},
+																																													pos: position{line: 2863, col: 10, offset: 90616},
 																																													run: (*parser).callonDocumentFragment1251,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2862, col: 10, offset: 90584},
+																																														pos:        position{line: 2863, col: 10, offset: 90616},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -9835,28 +9835,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2884, col: 8, offset: 90982},
+																																												pos: position{line: 2885, col: 8, offset: 91014},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2871, col: 12, offset: 90755},
+																																														pos: position{line: 2872, col: 12, offset: 90787},
 																																														run: (*parser).callonDocumentFragment1254,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2871, col: 13, offset: 90756},
+																																															pos: position{line: 2872, col: 13, offset: 90788},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2871, col: 13, offset: 90756},
+																																																	pos:        position{line: 2872, col: 13, offset: 90788},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2871, col: 20, offset: 90763},
+																																																	pos:        position{line: 2872, col: 20, offset: 90795},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2871, col: 29, offset: 90772},
+																																																	pos:        position{line: 2872, col: 29, offset: 90804},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -9865,9 +9865,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2881, col: 8, offset: 90932},
+																																														pos: position{line: 2882, col: 8, offset: 90964},
 																																														expr: &anyMatcher{
-																																															line: 2881, col: 9, offset: 90933,
+																																															line: 2882, col: 9, offset: 90965,
 																																														},
 																																													},
 																																												},
@@ -9875,16 +9875,16 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2881, col: 8, offset: 90932},
+																																										pos: position{line: 2882, col: 8, offset: 90964},
 																																										expr: &anyMatcher{
-																																											line: 2881, col: 9, offset: 90933,
+																																											line: 2882, col: 9, offset: 90965,
 																																										},
 																																									},
 																																								},
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2653, col: 9, offset: 84435},
+																																							pos: position{line: 2654, col: 9, offset: 84467},
 																																							expr: &actionExpr{
 																																								pos: position{line: 677, col: 14, offset: 21557},
 																																								run: (*parser).callonDocumentFragment1264,
@@ -9892,18 +9892,18 @@ var g = &grammar{
 																																									pos: position{line: 677, col: 14, offset: 21557},
 																																									exprs: []interface{}{
 																																										&andExpr{
-																																											pos: position{line: 2879, col: 11, offset: 90918},
+																																											pos: position{line: 2880, col: 11, offset: 90950},
 																																											expr: &anyMatcher{
-																																												line: 2879, col: 13, offset: 90920,
+																																												line: 2880, col: 13, offset: 90952,
 																																											},
 																																										},
 																																										&zeroOrMoreExpr{
 																																											pos: position{line: 677, col: 21, offset: 21564},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2862, col: 10, offset: 90584},
+																																												pos: position{line: 2863, col: 10, offset: 90616},
 																																												run: (*parser).callonDocumentFragment1269,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2862, col: 10, offset: 90584},
+																																													pos:        position{line: 2863, col: 10, offset: 90616},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -9912,28 +9912,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2884, col: 8, offset: 90982},
+																																											pos: position{line: 2885, col: 8, offset: 91014},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2871, col: 12, offset: 90755},
+																																													pos: position{line: 2872, col: 12, offset: 90787},
 																																													run: (*parser).callonDocumentFragment1272,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2871, col: 13, offset: 90756},
+																																														pos: position{line: 2872, col: 13, offset: 90788},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2871, col: 13, offset: 90756},
+																																																pos:        position{line: 2872, col: 13, offset: 90788},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2871, col: 20, offset: 90763},
+																																																pos:        position{line: 2872, col: 20, offset: 90795},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2871, col: 29, offset: 90772},
+																																																pos:        position{line: 2872, col: 29, offset: 90804},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -9942,9 +9942,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2881, col: 8, offset: 90932},
+																																													pos: position{line: 2882, col: 8, offset: 90964},
 																																													expr: &anyMatcher{
-																																														line: 2881, col: 9, offset: 90933,
+																																														line: 2882, col: 9, offset: 90965,
 																																													},
 																																												},
 																																											},
@@ -9954,22 +9954,22 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2654, col: 9, offset: 84454},
+																																							pos: position{line: 2655, col: 9, offset: 84486},
 																																							expr: &seqExpr{
-																																								pos: position{line: 2654, col: 11, offset: 84456},
+																																								pos: position{line: 2655, col: 11, offset: 84488},
 																																								exprs: []interface{}{
 																																									&labeledExpr{
-																																										pos:   position{line: 2654, col: 11, offset: 84456},
+																																										pos:   position{line: 2655, col: 11, offset: 84488},
 																																										label: "format",
 																																										expr: &zeroOrOneExpr{
-																																											pos: position{line: 2654, col: 18, offset: 84463},
+																																											pos: position{line: 2655, col: 18, offset: 84495},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2662, col: 20, offset: 84664},
+																																												pos: position{line: 2663, col: 20, offset: 84696},
 																																												run: (*parser).callonDocumentFragment1283,
 																																												expr: &zeroOrMoreExpr{
-																																													pos: position{line: 2662, col: 20, offset: 84664},
+																																													pos: position{line: 2663, col: 20, offset: 84696},
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2662, col: 20, offset: 84664},
+																																														pos:        position{line: 2663, col: 20, offset: 84696},
 																																														val:        "[^ |\\r\\n]",
 																																														chars:      []rune{' ', '|', '\r', '\n'},
 																																														ignoreCase: false,
@@ -9980,7 +9980,7 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2654, col: 37, offset: 84482},
+																																										pos:        position{line: 2655, col: 37, offset: 84514},
 																																										val:        "|",
 																																										ignoreCase: false,
 																																										want:       "\"|\"",
@@ -9989,15 +9989,15 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&labeledExpr{
-																																							pos:   position{line: 2655, col: 9, offset: 84495},
+																																							pos:   position{line: 2656, col: 9, offset: 84527},
 																																							label: "content",
 																																							expr: &actionExpr{
-																																								pos: position{line: 2655, col: 18, offset: 84504},
+																																								pos: position{line: 2656, col: 18, offset: 84536},
 																																								run: (*parser).callonDocumentFragment1288,
 																																								expr: &zeroOrMoreExpr{
-																																									pos: position{line: 2655, col: 18, offset: 84504},
+																																									pos: position{line: 2656, col: 18, offset: 84536},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2655, col: 18, offset: 84504},
+																																										pos:        position{line: 2656, col: 18, offset: 84536},
 																																										val:        "[^|\\r\\n]",
 																																										chars:      []rune{'|', '\r', '\n'},
 																																										ignoreCase: false,
@@ -10007,30 +10007,30 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&zeroOrOneExpr{
-																																							pos: position{line: 2657, col: 12, offset: 84566},
+																																							pos: position{line: 2658, col: 12, offset: 84598},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2884, col: 8, offset: 90982},
+																																								pos: position{line: 2885, col: 8, offset: 91014},
 																																								alternatives: []interface{}{
 																																									&actionExpr{
-																																										pos: position{line: 2871, col: 12, offset: 90755},
+																																										pos: position{line: 2872, col: 12, offset: 90787},
 																																										run: (*parser).callonDocumentFragment1293,
 																																										expr: &choiceExpr{
-																																											pos: position{line: 2871, col: 13, offset: 90756},
+																																											pos: position{line: 2872, col: 13, offset: 90788},
 																																											alternatives: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2871, col: 13, offset: 90756},
+																																													pos:        position{line: 2872, col: 13, offset: 90788},
 																																													val:        "\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2871, col: 20, offset: 90763},
+																																													pos:        position{line: 2872, col: 20, offset: 90795},
 																																													val:        "\r\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2871, col: 29, offset: 90772},
+																																													pos:        position{line: 2872, col: 29, offset: 90804},
 																																													val:        "\r",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\"",
@@ -10039,9 +10039,9 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2881, col: 8, offset: 90932},
+																																										pos: position{line: 2882, col: 8, offset: 90964},
 																																										expr: &anyMatcher{
-																																											line: 2881, col: 9, offset: 90933,
+																																											line: 2882, col: 9, offset: 90965,
 																																										},
 																																									},
 																																								},
@@ -10069,18 +10069,18 @@ var g = &grammar{
 																									pos: position{line: 677, col: 14, offset: 21557},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2879, col: 11, offset: 90918},
+																											pos: position{line: 2880, col: 11, offset: 90950},
 																											expr: &anyMatcher{
-																												line: 2879, col: 13, offset: 90920,
+																												line: 2880, col: 13, offset: 90952,
 																											},
 																										},
 																										&zeroOrMoreExpr{
 																											pos: position{line: 677, col: 21, offset: 21564},
 																											expr: &actionExpr{
-																												pos: position{line: 2862, col: 10, offset: 90584},
+																												pos: position{line: 2863, col: 10, offset: 90616},
 																												run: (*parser).callonDocumentFragment1305,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2862, col: 10, offset: 90584},
+																													pos:        position{line: 2863, col: 10, offset: 90616},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -10089,28 +10089,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2884, col: 8, offset: 90982},
+																											pos: position{line: 2885, col: 8, offset: 91014},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2871, col: 12, offset: 90755},
+																													pos: position{line: 2872, col: 12, offset: 90787},
 																													run: (*parser).callonDocumentFragment1308,
 																													expr: &choiceExpr{
-																														pos: position{line: 2871, col: 13, offset: 90756},
+																														pos: position{line: 2872, col: 13, offset: 90788},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2871, col: 13, offset: 90756},
+																																pos:        position{line: 2872, col: 13, offset: 90788},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2871, col: 20, offset: 90763},
+																																pos:        position{line: 2872, col: 20, offset: 90795},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2871, col: 29, offset: 90772},
+																																pos:        position{line: 2872, col: 29, offset: 90804},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -10119,9 +10119,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2881, col: 8, offset: 90932},
+																													pos: position{line: 2882, col: 8, offset: 90964},
 																													expr: &anyMatcher{
-																														line: 2881, col: 9, offset: 90933,
+																														line: 2882, col: 9, offset: 90965,
 																													},
 																												},
 																											},
@@ -10140,24 +10140,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2608, col: 22, offset: 83352},
+														pos: position{line: 2609, col: 22, offset: 83384},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2604, col: 19, offset: 83272},
+																pos: position{line: 2605, col: 19, offset: 83304},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2604, col: 19, offset: 83272},
+																		pos:        position{line: 2605, col: 19, offset: 83304},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2604, col: 26, offset: 83279},
+																		pos: position{line: 2605, col: 26, offset: 83311},
 																		expr: &actionExpr{
-																			pos: position{line: 2862, col: 10, offset: 90584},
+																			pos: position{line: 2863, col: 10, offset: 90616},
 																			run: (*parser).callonDocumentFragment1319,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2862, col: 10, offset: 90584},
+																				pos:        position{line: 2863, col: 10, offset: 90616},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10166,28 +10166,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2884, col: 8, offset: 90982},
+																		pos: position{line: 2885, col: 8, offset: 91014},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2871, col: 12, offset: 90755},
+																				pos: position{line: 2872, col: 12, offset: 90787},
 																				run: (*parser).callonDocumentFragment1322,
 																				expr: &choiceExpr{
-																					pos: position{line: 2871, col: 13, offset: 90756},
+																					pos: position{line: 2872, col: 13, offset: 90788},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 13, offset: 90756},
+																							pos:        position{line: 2872, col: 13, offset: 90788},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 20, offset: 90763},
+																							pos:        position{line: 2872, col: 20, offset: 90795},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 29, offset: 90772},
+																							pos:        position{line: 2872, col: 29, offset: 90804},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10196,9 +10196,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2881, col: 8, offset: 90932},
+																				pos: position{line: 2882, col: 8, offset: 90964},
 																				expr: &anyMatcher{
-																					line: 2881, col: 9, offset: 90933,
+																					line: 2882, col: 9, offset: 90965,
 																				},
 																			},
 																		},
@@ -10206,9 +10206,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2881, col: 8, offset: 90932},
+																pos: position{line: 2882, col: 8, offset: 90964},
 																expr: &anyMatcher{
-																	line: 2881, col: 9, offset: 90933,
+																	line: 2882, col: 9, offset: 90965,
 																},
 															},
 														},
@@ -10217,36 +10217,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2472, col: 22, offset: 79562},
+											pos: position{line: 2473, col: 22, offset: 79594},
 											run: (*parser).callonDocumentFragment1331,
 											expr: &seqExpr{
-												pos: position{line: 2472, col: 22, offset: 79562},
+												pos: position{line: 2473, col: 22, offset: 79594},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2477, col: 31, offset: 79783},
+														pos:        position{line: 2478, col: 31, offset: 79815},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2477, col: 36, offset: 79788},
+														pos: position{line: 2478, col: 36, offset: 79820},
 														expr: &litMatcher{
-															pos:        position{line: 2477, col: 37, offset: 79789},
+															pos:        position{line: 2478, col: 37, offset: 79821},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2472, col: 49, offset: 79589},
+														pos:   position{line: 2473, col: 49, offset: 79621},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2808, col: 13, offset: 89110},
+															pos: position{line: 2809, col: 13, offset: 89142},
 															run: (*parser).callonDocumentFragment1337,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2808, col: 13, offset: 89110},
+																pos: position{line: 2809, col: 13, offset: 89142},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2808, col: 13, offset: 89110},
+																	pos:        position{line: 2809, col: 13, offset: 89142},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10256,28 +10256,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2884, col: 8, offset: 90982},
+														pos: position{line: 2885, col: 8, offset: 91014},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2871, col: 12, offset: 90755},
+																pos: position{line: 2872, col: 12, offset: 90787},
 																run: (*parser).callonDocumentFragment1341,
 																expr: &choiceExpr{
-																	pos: position{line: 2871, col: 13, offset: 90756},
+																	pos: position{line: 2872, col: 13, offset: 90788},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2871, col: 13, offset: 90756},
+																			pos:        position{line: 2872, col: 13, offset: 90788},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2871, col: 20, offset: 90763},
+																			pos:        position{line: 2872, col: 20, offset: 90795},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2871, col: 29, offset: 90772},
+																			pos:        position{line: 2872, col: 29, offset: 90804},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10286,9 +10286,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2881, col: 8, offset: 90932},
+																pos: position{line: 2882, col: 8, offset: 90964},
 																expr: &anyMatcher{
-																	line: 2881, col: 9, offset: 90933,
+																	line: 2882, col: 9, offset: 90965,
 																},
 															},
 														},
@@ -10324,10 +10324,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1234, col: 36, offset: 38270},
 																		expr: &actionExpr{
-																			pos: position{line: 2862, col: 10, offset: 90584},
+																			pos: position{line: 2863, col: 10, offset: 90616},
 																			run: (*parser).callonDocumentFragment1356,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2862, col: 10, offset: 90584},
+																				pos:        position{line: 2863, col: 10, offset: 90616},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10336,28 +10336,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2884, col: 8, offset: 90982},
+																		pos: position{line: 2885, col: 8, offset: 91014},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2871, col: 12, offset: 90755},
+																				pos: position{line: 2872, col: 12, offset: 90787},
 																				run: (*parser).callonDocumentFragment1359,
 																				expr: &choiceExpr{
-																					pos: position{line: 2871, col: 13, offset: 90756},
+																					pos: position{line: 2872, col: 13, offset: 90788},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 13, offset: 90756},
+																							pos:        position{line: 2872, col: 13, offset: 90788},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 20, offset: 90763},
+																							pos:        position{line: 2872, col: 20, offset: 90795},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 29, offset: 90772},
+																							pos:        position{line: 2872, col: 29, offset: 90804},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10366,9 +10366,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2881, col: 8, offset: 90932},
+																				pos: position{line: 2882, col: 8, offset: 90964},
 																				expr: &anyMatcher{
-																					line: 2881, col: 9, offset: 90933,
+																					line: 2882, col: 9, offset: 90965,
 																				},
 																			},
 																		},
@@ -10402,10 +10402,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 1234, col: 36, offset: 38270},
 																												expr: &actionExpr{
-																													pos: position{line: 2862, col: 10, offset: 90584},
+																													pos: position{line: 2863, col: 10, offset: 90616},
 																													run: (*parser).callonDocumentFragment1376,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2862, col: 10, offset: 90584},
+																														pos:        position{line: 2863, col: 10, offset: 90616},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -10414,28 +10414,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2884, col: 8, offset: 90982},
+																												pos: position{line: 2885, col: 8, offset: 91014},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2871, col: 12, offset: 90755},
+																														pos: position{line: 2872, col: 12, offset: 90787},
 																														run: (*parser).callonDocumentFragment1379,
 																														expr: &choiceExpr{
-																															pos: position{line: 2871, col: 13, offset: 90756},
+																															pos: position{line: 2872, col: 13, offset: 90788},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2871, col: 13, offset: 90756},
+																																	pos:        position{line: 2872, col: 13, offset: 90788},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2871, col: 20, offset: 90763},
+																																	pos:        position{line: 2872, col: 20, offset: 90795},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2871, col: 29, offset: 90772},
+																																	pos:        position{line: 2872, col: 29, offset: 90804},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -10444,9 +10444,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2881, col: 8, offset: 90932},
+																														pos: position{line: 2882, col: 8, offset: 90964},
 																														expr: &anyMatcher{
-																															line: 2881, col: 9, offset: 90933,
+																															line: 2882, col: 9, offset: 90965,
 																														},
 																													},
 																												},
@@ -10473,10 +10473,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1234, col: 36, offset: 38270},
 																		expr: &actionExpr{
-																			pos: position{line: 2862, col: 10, offset: 90584},
+																			pos: position{line: 2863, col: 10, offset: 90616},
 																			run: (*parser).callonDocumentFragment1389,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2862, col: 10, offset: 90584},
+																				pos:        position{line: 2863, col: 10, offset: 90616},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10485,28 +10485,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2884, col: 8, offset: 90982},
+																		pos: position{line: 2885, col: 8, offset: 91014},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2871, col: 12, offset: 90755},
+																				pos: position{line: 2872, col: 12, offset: 90787},
 																				run: (*parser).callonDocumentFragment1392,
 																				expr: &choiceExpr{
-																					pos: position{line: 2871, col: 13, offset: 90756},
+																					pos: position{line: 2872, col: 13, offset: 90788},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 13, offset: 90756},
+																							pos:        position{line: 2872, col: 13, offset: 90788},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 20, offset: 90763},
+																							pos:        position{line: 2872, col: 20, offset: 90795},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 29, offset: 90772},
+																							pos:        position{line: 2872, col: 29, offset: 90804},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10515,9 +10515,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2881, col: 8, offset: 90932},
+																				pos: position{line: 2882, col: 8, offset: 90964},
 																				expr: &anyMatcher{
-																					line: 2881, col: 9, offset: 90933,
+																					line: 2882, col: 9, offset: 90965,
 																				},
 																			},
 																		},
@@ -10618,9 +10618,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2881, col: 8, offset: 90932},
+							pos: position{line: 2882, col: 8, offset: 90964},
 							expr: &anyMatcher{
-								line: 2881, col: 9, offset: 90933,
+								line: 2882, col: 9, offset: 90965,
 							},
 						},
 					},
@@ -10692,12 +10692,12 @@ var g = &grammar{
 										pos: position{line: 305, col: 9, offset: 9232},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2866, col: 11, offset: 90645},
+												pos: position{line: 2867, col: 11, offset: 90677},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2866, col: 11, offset: 90645},
+													pos: position{line: 2867, col: 11, offset: 90677},
 													expr: &charClassMatcher{
-														pos:        position{line: 2866, col: 11, offset: 90645},
+														pos:        position{line: 2867, col: 11, offset: 90677},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10721,10 +10721,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 310, col: 5, offset: 9412},
 							expr: &actionExpr{
-								pos: position{line: 2862, col: 10, offset: 90584},
+								pos: position{line: 2863, col: 10, offset: 90616},
 								run: (*parser).callonAttributeDeclaration21,
 								expr: &charClassMatcher{
-									pos:        position{line: 2862, col: 10, offset: 90584},
+									pos:        position{line: 2863, col: 10, offset: 90616},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -10733,28 +10733,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2884, col: 8, offset: 90982},
+							pos: position{line: 2885, col: 8, offset: 91014},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2871, col: 12, offset: 90755},
+									pos: position{line: 2872, col: 12, offset: 90787},
 									run: (*parser).callonAttributeDeclaration24,
 									expr: &choiceExpr{
-										pos: position{line: 2871, col: 13, offset: 90756},
+										pos: position{line: 2872, col: 13, offset: 90788},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2871, col: 13, offset: 90756},
+												pos:        position{line: 2872, col: 13, offset: 90788},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2871, col: 20, offset: 90763},
+												pos:        position{line: 2872, col: 20, offset: 90795},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2871, col: 29, offset: 90772},
+												pos:        position{line: 2872, col: 29, offset: 90804},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10763,9 +10763,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2881, col: 8, offset: 90932},
+									pos: position{line: 2882, col: 8, offset: 90964},
 									expr: &anyMatcher{
-										line: 2881, col: 9, offset: 90933,
+										line: 2882, col: 9, offset: 90965,
 									},
 								},
 							},
@@ -10811,10 +10811,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 325, col: 14, offset: 9909},
 												expr: &actionExpr{
-													pos: position{line: 2862, col: 10, offset: 90584},
+													pos: position{line: 2863, col: 10, offset: 90616},
 													run: (*parser).callonAttributeDeclarationValue11,
 													expr: &charClassMatcher{
-														pos:        position{line: 2862, col: 10, offset: 90584},
+														pos:        position{line: 2863, col: 10, offset: 90616},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10823,25 +10823,25 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 2871, col: 12, offset: 90755},
+												pos: position{line: 2872, col: 12, offset: 90787},
 												run: (*parser).callonAttributeDeclarationValue13,
 												expr: &choiceExpr{
-													pos: position{line: 2871, col: 13, offset: 90756},
+													pos: position{line: 2872, col: 13, offset: 90788},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2871, col: 13, offset: 90756},
+															pos:        position{line: 2872, col: 13, offset: 90788},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2871, col: 20, offset: 90763},
+															pos:        position{line: 2872, col: 20, offset: 90795},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2871, col: 29, offset: 90772},
+															pos:        position{line: 2872, col: 29, offset: 90804},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10852,10 +10852,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 326, col: 9, offset: 9933},
 												expr: &actionExpr{
-													pos: position{line: 2862, col: 10, offset: 90584},
+													pos: position{line: 2863, col: 10, offset: 90616},
 													run: (*parser).callonAttributeDeclarationValue19,
 													expr: &charClassMatcher{
-														pos:        position{line: 2862, col: 10, offset: 90584},
+														pos:        position{line: 2863, col: 10, offset: 90616},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10925,10 +10925,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 344, col: 13, offset: 10478},
 										expr: &actionExpr{
-											pos: position{line: 2862, col: 10, offset: 90584},
+											pos: position{line: 2863, col: 10, offset: 90616},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2862, col: 10, offset: 90584},
+												pos:        position{line: 2863, col: 10, offset: 90616},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10937,28 +10937,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2884, col: 8, offset: 90982},
+										pos: position{line: 2885, col: 8, offset: 91014},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2871, col: 12, offset: 90755},
+												pos: position{line: 2872, col: 12, offset: 90787},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2871, col: 13, offset: 90756},
+													pos: position{line: 2872, col: 13, offset: 90788},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2871, col: 13, offset: 90756},
+															pos:        position{line: 2872, col: 13, offset: 90788},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2871, col: 20, offset: 90763},
+															pos:        position{line: 2872, col: 20, offset: 90795},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2871, col: 29, offset: 90772},
+															pos:        position{line: 2872, col: 29, offset: 90804},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10967,9 +10967,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2881, col: 8, offset: 90932},
+												pos: position{line: 2882, col: 8, offset: 90964},
 												expr: &anyMatcher{
-													line: 2881, col: 9, offset: 90933,
+													line: 2882, col: 9, offset: 90965,
 												},
 											},
 										},
@@ -11002,23 +11002,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2459, col: 5, offset: 79108},
+										pos: position{line: 2460, col: 5, offset: 79140},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2459, col: 5, offset: 79108},
+											pos: position{line: 2460, col: 5, offset: 79140},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2459, col: 5, offset: 79108},
+													pos: position{line: 2460, col: 5, offset: 79140},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2462, col: 5, offset: 79184},
+													pos:   position{line: 2463, col: 5, offset: 79216},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2463, col: 9, offset: 79202},
+														pos: position{line: 2464, col: 9, offset: 79234},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2463, col: 10, offset: 79203},
+															pos:        position{line: 2464, col: 10, offset: 79235},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -11030,10 +11030,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2862, col: 10, offset: 90584},
+										pos: position{line: 2863, col: 10, offset: 90616},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2862, col: 10, offset: 90584},
+											pos:        position{line: 2863, col: 10, offset: 90616},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -11870,10 +11870,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 372, col: 35, offset: 11487},
 												expr: &actionExpr{
-													pos: position{line: 2862, col: 10, offset: 90584},
+													pos: position{line: 2863, col: 10, offset: 90616},
 													run: (*parser).callonBlockAttributes100,
 													expr: &charClassMatcher{
-														pos:        position{line: 2862, col: 10, offset: 90584},
+														pos:        position{line: 2863, col: 10, offset: 90616},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11882,28 +11882,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2884, col: 8, offset: 90982},
+												pos: position{line: 2885, col: 8, offset: 91014},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2871, col: 12, offset: 90755},
+														pos: position{line: 2872, col: 12, offset: 90787},
 														run: (*parser).callonBlockAttributes103,
 														expr: &choiceExpr{
-															pos: position{line: 2871, col: 13, offset: 90756},
+															pos: position{line: 2872, col: 13, offset: 90788},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2871, col: 13, offset: 90756},
+																	pos:        position{line: 2872, col: 13, offset: 90788},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2871, col: 20, offset: 90763},
+																	pos:        position{line: 2872, col: 20, offset: 90795},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2871, col: 29, offset: 90772},
+																	pos:        position{line: 2872, col: 29, offset: 90804},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11912,9 +11912,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2881, col: 8, offset: 90932},
+														pos: position{line: 2882, col: 8, offset: 90964},
 														expr: &anyMatcher{
-															line: 2881, col: 9, offset: 90933,
+															line: 2882, col: 9, offset: 90965,
 														},
 													},
 												},
@@ -11928,18 +11928,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21557},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2879, col: 11, offset: 90918},
+																pos: position{line: 2880, col: 11, offset: 90950},
 																expr: &anyMatcher{
-																	line: 2879, col: 13, offset: 90920,
+																	line: 2880, col: 13, offset: 90952,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21564},
 																expr: &actionExpr{
-																	pos: position{line: 2862, col: 10, offset: 90584},
+																	pos: position{line: 2863, col: 10, offset: 90616},
 																	run: (*parser).callonBlockAttributes116,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2862, col: 10, offset: 90584},
+																		pos:        position{line: 2863, col: 10, offset: 90616},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -11948,28 +11948,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2884, col: 8, offset: 90982},
+																pos: position{line: 2885, col: 8, offset: 91014},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2871, col: 12, offset: 90755},
+																		pos: position{line: 2872, col: 12, offset: 90787},
 																		run: (*parser).callonBlockAttributes119,
 																		expr: &choiceExpr{
-																			pos: position{line: 2871, col: 13, offset: 90756},
+																			pos: position{line: 2872, col: 13, offset: 90788},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2871, col: 13, offset: 90756},
+																					pos:        position{line: 2872, col: 13, offset: 90788},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2871, col: 20, offset: 90763},
+																					pos:        position{line: 2872, col: 20, offset: 90795},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2871, col: 29, offset: 90772},
+																					pos:        position{line: 2872, col: 29, offset: 90804},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -11978,9 +11978,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2881, col: 8, offset: 90932},
+																		pos: position{line: 2882, col: 8, offset: 90964},
 																		expr: &anyMatcher{
-																			line: 2881, col: 9, offset: 90933,
+																			line: 2882, col: 9, offset: 90965,
 																		},
 																	},
 																},
@@ -12032,12 +12032,12 @@ var g = &grammar{
 																		pos: position{line: 426, col: 9, offset: 13131},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2756, col: 14, offset: 87753},
+																				pos: position{line: 2757, col: 14, offset: 87785},
 																				run: (*parser).callonBlockAttributes137,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2756, col: 14, offset: 87753},
+																					pos: position{line: 2757, col: 14, offset: 87785},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2756, col: 14, offset: 87753},
+																						pos:        position{line: 2757, col: 14, offset: 87785},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -12046,10 +12046,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2862, col: 10, offset: 90584},
+																				pos: position{line: 2863, col: 10, offset: 90616},
 																				run: (*parser).callonBlockAttributes140,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2862, col: 10, offset: 90584},
+																					pos:        position{line: 2863, col: 10, offset: 90616},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -12057,27 +12057,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2779, col: 5, offset: 88238},
+																				pos: position{line: 2780, col: 5, offset: 88270},
 																				run: (*parser).callonBlockAttributes142,
 																				expr: &choiceExpr{
-																					pos: position{line: 2780, col: 9, offset: 88248},
+																					pos: position{line: 2781, col: 9, offset: 88280},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2780, col: 10, offset: 88249},
+																							pos:        position{line: 2781, col: 10, offset: 88281},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2782, col: 13, offset: 88346},
+																							pos: position{line: 2783, col: 13, offset: 88378},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2782, col: 13, offset: 88346},
+																									pos: position{line: 2783, col: 13, offset: 88378},
 																									run: (*parser).callonBlockAttributes146,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2785, col: 13, offset: 88446},
+																									pos:        position{line: 2786, col: 13, offset: 88478},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -12085,20 +12085,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2785, col: 19, offset: 88452},
+																							pos:        position{line: 2786, col: 19, offset: 88484},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2788, col: 13, offset: 88490},
+																							pos: position{line: 2789, col: 13, offset: 88522},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2788, col: 13, offset: 88490},
+																									pos: position{line: 2789, col: 13, offset: 88522},
 																									run: (*parser).callonBlockAttributes150,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2791, col: 14, offset: 88583},
+																									pos:        position{line: 2792, col: 14, offset: 88615},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -12107,18 +12107,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2793, col: 12, offset: 88627},
+																							pos: position{line: 2794, col: 12, offset: 88659},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2793, col: 12, offset: 88627},
+																									pos:        position{line: 2794, col: 12, offset: 88659},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2793, col: 16, offset: 88631},
+																									pos: position{line: 2794, col: 16, offset: 88663},
 																									expr: &litMatcher{
-																										pos:        position{line: 2793, col: 17, offset: 88632},
+																										pos:        position{line: 2794, col: 17, offset: 88664},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12236,10 +12236,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2801, col: 12, offset: 88892},
+																				pos: position{line: 2802, col: 12, offset: 88924},
 																				run: (*parser).callonBlockAttributes176,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2801, col: 12, offset: 88892},
+																					pos:        position{line: 2802, col: 12, offset: 88924},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12257,10 +12257,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 376, col: 35, offset: 11642},
 												expr: &actionExpr{
-													pos: position{line: 2862, col: 10, offset: 90584},
+													pos: position{line: 2863, col: 10, offset: 90616},
 													run: (*parser).callonBlockAttributes179,
 													expr: &charClassMatcher{
-														pos:        position{line: 2862, col: 10, offset: 90584},
+														pos:        position{line: 2863, col: 10, offset: 90616},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12269,28 +12269,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2884, col: 8, offset: 90982},
+												pos: position{line: 2885, col: 8, offset: 91014},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2871, col: 12, offset: 90755},
+														pos: position{line: 2872, col: 12, offset: 90787},
 														run: (*parser).callonBlockAttributes182,
 														expr: &choiceExpr{
-															pos: position{line: 2871, col: 13, offset: 90756},
+															pos: position{line: 2872, col: 13, offset: 90788},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2871, col: 13, offset: 90756},
+																	pos:        position{line: 2872, col: 13, offset: 90788},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2871, col: 20, offset: 90763},
+																	pos:        position{line: 2872, col: 20, offset: 90795},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2871, col: 29, offset: 90772},
+																	pos:        position{line: 2872, col: 29, offset: 90804},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12299,9 +12299,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2881, col: 8, offset: 90932},
+														pos: position{line: 2882, col: 8, offset: 90964},
 														expr: &anyMatcher{
-															line: 2881, col: 9, offset: 90933,
+															line: 2882, col: 9, offset: 90965,
 														},
 													},
 												},
@@ -12315,18 +12315,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21557},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2879, col: 11, offset: 90918},
+																pos: position{line: 2880, col: 11, offset: 90950},
 																expr: &anyMatcher{
-																	line: 2879, col: 13, offset: 90920,
+																	line: 2880, col: 13, offset: 90952,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21564},
 																expr: &actionExpr{
-																	pos: position{line: 2862, col: 10, offset: 90584},
+																	pos: position{line: 2863, col: 10, offset: 90616},
 																	run: (*parser).callonBlockAttributes195,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2862, col: 10, offset: 90584},
+																		pos:        position{line: 2863, col: 10, offset: 90616},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12335,28 +12335,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2884, col: 8, offset: 90982},
+																pos: position{line: 2885, col: 8, offset: 91014},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2871, col: 12, offset: 90755},
+																		pos: position{line: 2872, col: 12, offset: 90787},
 																		run: (*parser).callonBlockAttributes198,
 																		expr: &choiceExpr{
-																			pos: position{line: 2871, col: 13, offset: 90756},
+																			pos: position{line: 2872, col: 13, offset: 90788},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2871, col: 13, offset: 90756},
+																					pos:        position{line: 2872, col: 13, offset: 90788},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2871, col: 20, offset: 90763},
+																					pos:        position{line: 2872, col: 20, offset: 90795},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2871, col: 29, offset: 90772},
+																					pos:        position{line: 2872, col: 29, offset: 90804},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12365,9 +12365,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2881, col: 8, offset: 90932},
+																		pos: position{line: 2882, col: 8, offset: 90964},
 																		expr: &anyMatcher{
-																			line: 2881, col: 9, offset: 90933,
+																			line: 2882, col: 9, offset: 90965,
 																		},
 																	},
 																},
@@ -12389,10 +12389,10 @@ var g = &grammar{
 												pos:   position{line: 380, col: 12, offset: 11743},
 												label: "start",
 												expr: &actionExpr{
-													pos: position{line: 2887, col: 16, offset: 91106},
+													pos: position{line: 2888, col: 16, offset: 91138},
 													run: (*parser).callonBlockAttributes208,
 													expr: &litMatcher{
-														pos:        position{line: 2887, col: 16, offset: 91106},
+														pos:        position{line: 2888, col: 16, offset: 91138},
 														val:        "",
 														ignoreCase: false,
 														want:       "\"\"",
@@ -12410,10 +12410,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 380, col: 64, offset: 11795},
 												expr: &actionExpr{
-													pos: position{line: 2862, col: 10, offset: 90584},
+													pos: position{line: 2863, col: 10, offset: 90616},
 													run: (*parser).callonBlockAttributes213,
 													expr: &charClassMatcher{
-														pos:        position{line: 2862, col: 10, offset: 90584},
+														pos:        position{line: 2863, col: 10, offset: 90616},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12425,10 +12425,10 @@ var g = &grammar{
 												pos:   position{line: 380, col: 71, offset: 11802},
 												label: "end",
 												expr: &actionExpr{
-													pos: position{line: 2887, col: 16, offset: 91106},
+													pos: position{line: 2888, col: 16, offset: 91138},
 													run: (*parser).callonBlockAttributes216,
 													expr: &litMatcher{
-														pos:        position{line: 2887, col: 16, offset: 91106},
+														pos:        position{line: 2888, col: 16, offset: 91138},
 														val:        "",
 														ignoreCase: false,
 														want:       "\"\"",
@@ -12440,28 +12440,28 @@ var g = &grammar{
 												run: (*parser).callonBlockAttributes218,
 											},
 											&choiceExpr{
-												pos: position{line: 2884, col: 8, offset: 90982},
+												pos: position{line: 2885, col: 8, offset: 91014},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2871, col: 12, offset: 90755},
+														pos: position{line: 2872, col: 12, offset: 90787},
 														run: (*parser).callonBlockAttributes220,
 														expr: &choiceExpr{
-															pos: position{line: 2871, col: 13, offset: 90756},
+															pos: position{line: 2872, col: 13, offset: 90788},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2871, col: 13, offset: 90756},
+																	pos:        position{line: 2872, col: 13, offset: 90788},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2871, col: 20, offset: 90763},
+																	pos:        position{line: 2872, col: 20, offset: 90795},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2871, col: 29, offset: 90772},
+																	pos:        position{line: 2872, col: 29, offset: 90804},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12470,9 +12470,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2881, col: 8, offset: 90932},
+														pos: position{line: 2882, col: 8, offset: 90964},
 														expr: &anyMatcher{
-															line: 2881, col: 9, offset: 90933,
+															line: 2882, col: 9, offset: 90965,
 														},
 													},
 												},
@@ -12486,18 +12486,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21557},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2879, col: 11, offset: 90918},
+																pos: position{line: 2880, col: 11, offset: 90950},
 																expr: &anyMatcher{
-																	line: 2879, col: 13, offset: 90920,
+																	line: 2880, col: 13, offset: 90952,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21564},
 																expr: &actionExpr{
-																	pos: position{line: 2862, col: 10, offset: 90584},
+																	pos: position{line: 2863, col: 10, offset: 90616},
 																	run: (*parser).callonBlockAttributes233,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2862, col: 10, offset: 90584},
+																		pos:        position{line: 2863, col: 10, offset: 90616},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12506,28 +12506,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2884, col: 8, offset: 90982},
+																pos: position{line: 2885, col: 8, offset: 91014},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2871, col: 12, offset: 90755},
+																		pos: position{line: 2872, col: 12, offset: 90787},
 																		run: (*parser).callonBlockAttributes236,
 																		expr: &choiceExpr{
-																			pos: position{line: 2871, col: 13, offset: 90756},
+																			pos: position{line: 2872, col: 13, offset: 90788},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2871, col: 13, offset: 90756},
+																					pos:        position{line: 2872, col: 13, offset: 90788},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2871, col: 20, offset: 90763},
+																					pos:        position{line: 2872, col: 20, offset: 90795},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2871, col: 29, offset: 90772},
+																					pos:        position{line: 2872, col: 29, offset: 90804},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12536,9 +12536,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2881, col: 8, offset: 90932},
+																		pos: position{line: 2882, col: 8, offset: 90964},
 																		expr: &anyMatcher{
-																			line: 2881, col: 9, offset: 90933,
+																			line: 2882, col: 9, offset: 90965,
 																		},
 																	},
 																},
@@ -12786,10 +12786,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 466, col: 13, offset: 14599},
 										expr: &actionExpr{
-											pos: position{line: 2862, col: 10, offset: 90584},
+											pos: position{line: 2863, col: 10, offset: 90616},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2862, col: 10, offset: 90584},
+												pos:        position{line: 2863, col: 10, offset: 90616},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13321,10 +13321,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 518, col: 9, offset: 16181},
 													expr: &actionExpr{
-														pos: position{line: 2862, col: 10, offset: 90584},
+														pos: position{line: 2863, col: 10, offset: 90616},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2862, col: 10, offset: 90584},
+															pos:        position{line: 2863, col: 10, offset: 90616},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13385,10 +13385,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 524, col: 34, offset: 16324},
 														expr: &actionExpr{
-															pos: position{line: 2862, col: 10, offset: 90584},
+															pos: position{line: 2863, col: 10, offset: 90616},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2862, col: 10, offset: 90584},
+																pos:        position{line: 2863, col: 10, offset: 90616},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13428,10 +13428,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 529, col: 13, offset: 16488},
 												expr: &actionExpr{
-													pos: position{line: 2862, col: 10, offset: 90584},
+													pos: position{line: 2863, col: 10, offset: 90616},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2862, col: 10, offset: 90584},
+														pos:        position{line: 2863, col: 10, offset: 90616},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13454,10 +13454,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 529, col: 26, offset: 16501},
 																expr: &actionExpr{
-																	pos: position{line: 2862, col: 10, offset: 90584},
+																	pos: position{line: 2863, col: 10, offset: 90616},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2862, col: 10, offset: 90584},
+																		pos:        position{line: 2863, col: 10, offset: 90616},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13512,10 +13512,10 @@ var g = &grammar{
 										&notExpr{
 											pos: position{line: 549, col: 22, offset: 17148},
 											expr: &actionExpr{
-												pos: position{line: 2862, col: 10, offset: 90584},
+												pos: position{line: 2863, col: 10, offset: 90616},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2862, col: 10, offset: 90584},
+													pos:        position{line: 2863, col: 10, offset: 90616},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13546,10 +13546,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 542, col: 9, offset: 16893},
 							expr: &actionExpr{
-								pos: position{line: 2862, col: 10, offset: 90584},
+								pos: position{line: 2863, col: 10, offset: 90616},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2862, col: 10, offset: 90584},
+									pos:        position{line: 2863, col: 10, offset: 90616},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13579,10 +13579,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 543, col: 33, offset: 16933},
 										expr: &actionExpr{
-											pos: position{line: 2862, col: 10, offset: 90584},
+											pos: position{line: 2863, col: 10, offset: 90616},
 											run: (*parser).callonNamedAttribute21,
 											expr: &charClassMatcher{
-												pos:        position{line: 2862, col: 10, offset: 90584},
+												pos:        position{line: 2863, col: 10, offset: 90616},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13637,10 +13637,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 559, col: 9, offset: 17365},
 											expr: &actionExpr{
-												pos: position{line: 2862, col: 10, offset: 90584},
+												pos: position{line: 2863, col: 10, offset: 90616},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2862, col: 10, offset: 90584},
+													pos:        position{line: 2863, col: 10, offset: 90616},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13719,12 +13719,12 @@ var g = &grammar{
 							pos: position{line: 572, col: 9, offset: 17682},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2756, col: 14, offset: 87753},
+									pos: position{line: 2757, col: 14, offset: 87785},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2756, col: 14, offset: 87753},
+										pos: position{line: 2757, col: 14, offset: 87785},
 										expr: &charClassMatcher{
-											pos:        position{line: 2756, col: 14, offset: 87753},
+											pos:        position{line: 2757, col: 14, offset: 87785},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -13733,10 +13733,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2862, col: 10, offset: 90584},
+									pos: position{line: 2863, col: 10, offset: 90616},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2862, col: 10, offset: 90584},
+										pos:        position{line: 2863, col: 10, offset: 90616},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14193,10 +14193,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 592, col: 14, offset: 18422},
 											expr: &actionExpr{
-												pos: position{line: 2862, col: 10, offset: 90584},
+												pos: position{line: 2863, col: 10, offset: 90616},
 												run: (*parser).callonDoubleQuotedAttributeValue13,
 												expr: &charClassMatcher{
-													pos:        position{line: 2862, col: 10, offset: 90584},
+													pos:        position{line: 2863, col: 10, offset: 90616},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14233,12 +14233,12 @@ var g = &grammar{
 							pos: position{line: 598, col: 9, offset: 18533},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2756, col: 14, offset: 87753},
+									pos: position{line: 2757, col: 14, offset: 87785},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2756, col: 14, offset: 87753},
+										pos: position{line: 2757, col: 14, offset: 87785},
 										expr: &charClassMatcher{
-											pos:        position{line: 2756, col: 14, offset: 87753},
+											pos:        position{line: 2757, col: 14, offset: 87785},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14247,10 +14247,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2862, col: 10, offset: 90584},
+									pos: position{line: 2863, col: 10, offset: 90616},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2862, col: 10, offset: 90584},
+										pos:        position{line: 2863, col: 10, offset: 90616},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14677,10 +14677,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 619, col: 5, offset: 19389},
 							expr: &actionExpr{
-								pos: position{line: 2862, col: 10, offset: 90584},
+								pos: position{line: 2863, col: 10, offset: 90616},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2862, col: 10, offset: 90584},
+									pos:        position{line: 2863, col: 10, offset: 90616},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -15070,10 +15070,10 @@ var g = &grammar{
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2862, col: 10, offset: 90584},
+											pos: position{line: 2863, col: 10, offset: 90616},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2862, col: 10, offset: 90584},
+												pos:        position{line: 2863, col: 10, offset: 90616},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -15124,12 +15124,12 @@ var g = &grammar{
 									pos:   position{line: 686, col: 32, offset: 21917},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2847, col: 7, offset: 90236},
+										pos: position{line: 2848, col: 7, offset: 90268},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2847, col: 7, offset: 90236},
+											pos: position{line: 2848, col: 7, offset: 90268},
 											expr: &charClassMatcher{
-												pos:        position{line: 2847, col: 7, offset: 90236},
+												pos:        position{line: 2848, col: 7, offset: 90268},
 												val:        "[^[]<>,\\r\\n]",
 												chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 												ignoreCase: false,
@@ -15141,10 +15141,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 686, col: 40, offset: 21925},
 									expr: &actionExpr{
-										pos: position{line: 2862, col: 10, offset: 90584},
+										pos: position{line: 2863, col: 10, offset: 90616},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2862, col: 10, offset: 90584},
+											pos:        position{line: 2863, col: 10, offset: 90616},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15161,10 +15161,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 686, col: 51, offset: 21936},
 									expr: &actionExpr{
-										pos: position{line: 2862, col: 10, offset: 90584},
+										pos: position{line: 2863, col: 10, offset: 90616},
 										run: (*parser).callonCrossReference14,
 										expr: &charClassMatcher{
-											pos:        position{line: 2862, col: 10, offset: 90584},
+											pos:        position{line: 2863, col: 10, offset: 90616},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15339,12 +15339,12 @@ var g = &grammar{
 									pos:   position{line: 688, col: 14, offset: 22049},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2847, col: 7, offset: 90236},
+										pos: position{line: 2848, col: 7, offset: 90268},
 										run: (*parser).callonCrossReference49,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2847, col: 7, offset: 90236},
+											pos: position{line: 2848, col: 7, offset: 90268},
 											expr: &charClassMatcher{
-												pos:        position{line: 2847, col: 7, offset: 90236},
+												pos:        position{line: 2848, col: 7, offset: 90268},
 												val:        "[^[]<>,\\r\\n]",
 												chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 												ignoreCase: false,
@@ -15388,41 +15388,41 @@ var g = &grammar{
 							pos:   position{line: 692, col: 35, offset: 22162},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2816, col: 17, offset: 89247},
+								pos: position{line: 2817, col: 17, offset: 89279},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2816, col: 17, offset: 89247},
+									pos:   position{line: 2817, col: 17, offset: 89279},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2833, col: 5, offset: 89701},
+										pos: position{line: 2834, col: 5, offset: 89733},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2833, col: 5, offset: 89701},
+											pos:   position{line: 2834, col: 5, offset: 89733},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2833, col: 14, offset: 89710},
+												pos: position{line: 2834, col: 14, offset: 89742},
 												expr: &choiceExpr{
-													pos: position{line: 2834, col: 9, offset: 89720},
+													pos: position{line: 2835, col: 9, offset: 89752},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2834, col: 9, offset: 89720},
+															pos: position{line: 2835, col: 9, offset: 89752},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2834, col: 9, offset: 89720},
+																pos: position{line: 2835, col: 9, offset: 89752},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2834, col: 9, offset: 89720},
+																		pos: position{line: 2835, col: 9, offset: 89752},
 																		expr: &litMatcher{
-																			pos:        position{line: 2834, col: 10, offset: 89721},
+																			pos:        position{line: 2835, col: 10, offset: 89753},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2835, col: 9, offset: 89749},
+																		pos: position{line: 2836, col: 9, offset: 89781},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2835, col: 10, offset: 89750},
+																			pos:        position{line: 2836, col: 10, offset: 89782},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -15433,27 +15433,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2838, col: 11, offset: 89962},
+															pos: position{line: 2839, col: 11, offset: 89994},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2838, col: 11, offset: 89962},
+																	pos:        position{line: 2839, col: 11, offset: 89994},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2838, col: 19, offset: 89970},
+																	pos: position{line: 2839, col: 19, offset: 90002},
 																	expr: &seqExpr{
-																		pos: position{line: 2838, col: 21, offset: 89972},
+																		pos: position{line: 2839, col: 21, offset: 90004},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2838, col: 21, offset: 89972},
+																				pos: position{line: 2839, col: 21, offset: 90004},
 																				expr: &actionExpr{
-																					pos: position{line: 2862, col: 10, offset: 90584},
+																					pos: position{line: 2863, col: 10, offset: 90616},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2862, col: 10, offset: 90584},
+																						pos:        position{line: 2863, col: 10, offset: 90616},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -15462,11 +15462,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2838, col: 28, offset: 89979},
+																				pos: position{line: 2839, col: 28, offset: 90011},
 																				expr: &notExpr{
-																					pos: position{line: 2881, col: 8, offset: 90932},
+																					pos: position{line: 2882, col: 8, offset: 90964},
 																					expr: &anyMatcher{
-																						line: 2881, col: 9, offset: 90933,
+																						line: 2882, col: 9, offset: 90965,
 																					},
 																				},
 																			},
@@ -15861,10 +15861,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2841, col: 11, offset: 90099},
+															pos: position{line: 2842, col: 11, offset: 90131},
 															run: (*parser).callonExternalCrossReference104,
 															expr: &litMatcher{
-																pos:        position{line: 2841, col: 11, offset: 90099},
+																pos:        position{line: 2842, col: 11, offset: 90131},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -15909,12 +15909,12 @@ var g = &grammar{
 							pos:   position{line: 989, col: 11, offset: 30879},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2812, col: 14, offset: 89177},
+								pos: position{line: 2813, col: 14, offset: 89209},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2812, col: 14, offset: 89177},
+									pos: position{line: 2813, col: 14, offset: 89209},
 									expr: &charClassMatcher{
-										pos:        position{line: 2812, col: 14, offset: 89177},
+										pos:        position{line: 2813, col: 14, offset: 89209},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -15924,28 +15924,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2884, col: 8, offset: 90982},
+							pos: position{line: 2885, col: 8, offset: 91014},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2871, col: 12, offset: 90755},
+									pos: position{line: 2872, col: 12, offset: 90787},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2871, col: 13, offset: 90756},
+										pos: position{line: 2872, col: 13, offset: 90788},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2871, col: 13, offset: 90756},
+												pos:        position{line: 2872, col: 13, offset: 90788},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2871, col: 20, offset: 90763},
+												pos:        position{line: 2872, col: 20, offset: 90795},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2871, col: 29, offset: 90772},
+												pos:        position{line: 2872, col: 29, offset: 90804},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -15954,9 +15954,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2881, col: 8, offset: 90932},
+									pos: position{line: 2882, col: 8, offset: 90964},
 									expr: &anyMatcher{
-										line: 2881, col: 9, offset: 90933,
+										line: 2882, col: 9, offset: 90965,
 									},
 								},
 							},
@@ -15984,36 +15984,36 @@ var g = &grammar{
 								pos: position{line: 1104, col: 6, offset: 33881},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2472, col: 22, offset: 79562},
+										pos: position{line: 2473, col: 22, offset: 79594},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2472, col: 22, offset: 79562},
+											pos: position{line: 2473, col: 22, offset: 79594},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2477, col: 31, offset: 79783},
+													pos:        position{line: 2478, col: 31, offset: 79815},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2477, col: 36, offset: 79788},
+													pos: position{line: 2478, col: 36, offset: 79820},
 													expr: &litMatcher{
-														pos:        position{line: 2477, col: 37, offset: 79789},
+														pos:        position{line: 2478, col: 37, offset: 79821},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2472, col: 49, offset: 79589},
+													pos:   position{line: 2473, col: 49, offset: 79621},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2808, col: 13, offset: 89110},
+														pos: position{line: 2809, col: 13, offset: 89142},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2808, col: 13, offset: 89110},
+															pos: position{line: 2809, col: 13, offset: 89142},
 															expr: &charClassMatcher{
-																pos:        position{line: 2808, col: 13, offset: 89110},
+																pos:        position{line: 2809, col: 13, offset: 89142},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16023,28 +16023,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2884, col: 8, offset: 90982},
+													pos: position{line: 2885, col: 8, offset: 91014},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2871, col: 12, offset: 90755},
+															pos: position{line: 2872, col: 12, offset: 90787},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2871, col: 13, offset: 90756},
+																pos: position{line: 2872, col: 13, offset: 90788},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2871, col: 13, offset: 90756},
+																		pos:        position{line: 2872, col: 13, offset: 90788},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2871, col: 20, offset: 90763},
+																		pos:        position{line: 2872, col: 20, offset: 90795},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2871, col: 29, offset: 90772},
+																		pos:        position{line: 2872, col: 29, offset: 90804},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16053,9 +16053,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2881, col: 8, offset: 90932},
+															pos: position{line: 2882, col: 8, offset: 90964},
 															expr: &anyMatcher{
-																line: 2881, col: 9, offset: 90933,
+																line: 2882, col: 9, offset: 90965,
 															},
 														},
 													},
@@ -16106,10 +16106,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 742, col: 8, offset: 23754},
 																expr: &actionExpr{
-																	pos: position{line: 2862, col: 10, offset: 90584},
+																	pos: position{line: 2863, col: 10, offset: 90616},
 																	run: (*parser).callonDocumentHeader34,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2862, col: 10, offset: 90584},
+																		pos:        position{line: 2863, col: 10, offset: 90616},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16118,28 +16118,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2884, col: 8, offset: 90982},
+																pos: position{line: 2885, col: 8, offset: 91014},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2871, col: 12, offset: 90755},
+																		pos: position{line: 2872, col: 12, offset: 90787},
 																		run: (*parser).callonDocumentHeader37,
 																		expr: &choiceExpr{
-																			pos: position{line: 2871, col: 13, offset: 90756},
+																			pos: position{line: 2872, col: 13, offset: 90788},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2871, col: 13, offset: 90756},
+																					pos:        position{line: 2872, col: 13, offset: 90788},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2871, col: 20, offset: 90763},
+																					pos:        position{line: 2872, col: 20, offset: 90795},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2871, col: 29, offset: 90772},
+																					pos:        position{line: 2872, col: 29, offset: 90804},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -16148,9 +16148,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2881, col: 8, offset: 90932},
+																		pos: position{line: 2882, col: 8, offset: 90964},
 																		expr: &anyMatcher{
-																			line: 2881, col: 9, offset: 90933,
+																			line: 2882, col: 9, offset: 90965,
 																		},
 																	},
 																},
@@ -16211,10 +16211,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 742, col: 8, offset: 23754},
 																								expr: &actionExpr{
-																									pos: position{line: 2862, col: 10, offset: 90584},
+																									pos: position{line: 2863, col: 10, offset: 90616},
 																									run: (*parser).callonDocumentHeader59,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2862, col: 10, offset: 90584},
+																										pos:        position{line: 2863, col: 10, offset: 90616},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -16223,28 +16223,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2884, col: 8, offset: 90982},
+																								pos: position{line: 2885, col: 8, offset: 91014},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2871, col: 12, offset: 90755},
+																										pos: position{line: 2872, col: 12, offset: 90787},
 																										run: (*parser).callonDocumentHeader62,
 																										expr: &choiceExpr{
-																											pos: position{line: 2871, col: 13, offset: 90756},
+																											pos: position{line: 2872, col: 13, offset: 90788},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2871, col: 13, offset: 90756},
+																													pos:        position{line: 2872, col: 13, offset: 90788},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2871, col: 20, offset: 90763},
+																													pos:        position{line: 2872, col: 20, offset: 90795},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2871, col: 29, offset: 90772},
+																													pos:        position{line: 2872, col: 29, offset: 90804},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -16253,9 +16253,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2881, col: 8, offset: 90932},
+																										pos: position{line: 2882, col: 8, offset: 90964},
 																										expr: &anyMatcher{
-																											line: 2881, col: 9, offset: 90933,
+																											line: 2882, col: 9, offset: 90965,
 																										},
 																									},
 																								},
@@ -16264,9 +16264,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2881, col: 8, offset: 90932},
+																					pos: position{line: 2882, col: 8, offset: 90964},
 																					expr: &anyMatcher{
-																						line: 2881, col: 9, offset: 90933,
+																						line: 2882, col: 9, offset: 90965,
 																					},
 																				},
 																			},
@@ -16282,21 +16282,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26161},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2879, col: 11, offset: 90918},
+																						pos: position{line: 2880, col: 11, offset: 90950},
 																						expr: &anyMatcher{
-																							line: 2879, col: 13, offset: 90920,
+																							line: 2880, col: 13, offset: 90952,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26236},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2808, col: 13, offset: 89110},
+																							pos: position{line: 2809, col: 13, offset: 89142},
 																							run: (*parser).callonDocumentHeader77,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2808, col: 13, offset: 89110},
+																								pos: position{line: 2809, col: 13, offset: 89142},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2808, col: 13, offset: 89110},
+																									pos:        position{line: 2809, col: 13, offset: 89142},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16306,28 +16306,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2884, col: 8, offset: 90982},
+																						pos: position{line: 2885, col: 8, offset: 91014},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2871, col: 12, offset: 90755},
+																								pos: position{line: 2872, col: 12, offset: 90787},
 																								run: (*parser).callonDocumentHeader81,
 																								expr: &choiceExpr{
-																									pos: position{line: 2871, col: 13, offset: 90756},
+																									pos: position{line: 2872, col: 13, offset: 90788},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 13, offset: 90756},
+																											pos:        position{line: 2872, col: 13, offset: 90788},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 20, offset: 90763},
+																											pos:        position{line: 2872, col: 20, offset: 90795},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 29, offset: 90772},
+																											pos:        position{line: 2872, col: 29, offset: 90804},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16336,9 +16336,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2881, col: 8, offset: 90932},
+																								pos: position{line: 2882, col: 8, offset: 90964},
 																								expr: &anyMatcher{
-																									line: 2881, col: 9, offset: 90933,
+																									line: 2882, col: 9, offset: 90965,
 																								},
 																							},
 																						},
@@ -16394,10 +16394,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 742, col: 8, offset: 23754},
 																			expr: &actionExpr{
-																				pos: position{line: 2862, col: 10, offset: 90584},
+																				pos: position{line: 2863, col: 10, offset: 90616},
 																				run: (*parser).callonDocumentHeader99,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2862, col: 10, offset: 90584},
+																					pos:        position{line: 2863, col: 10, offset: 90616},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -16406,28 +16406,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2884, col: 8, offset: 90982},
+																			pos: position{line: 2885, col: 8, offset: 91014},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2871, col: 12, offset: 90755},
+																					pos: position{line: 2872, col: 12, offset: 90787},
 																					run: (*parser).callonDocumentHeader102,
 																					expr: &choiceExpr{
-																						pos: position{line: 2871, col: 13, offset: 90756},
+																						pos: position{line: 2872, col: 13, offset: 90788},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2871, col: 13, offset: 90756},
+																								pos:        position{line: 2872, col: 13, offset: 90788},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2871, col: 20, offset: 90763},
+																								pos:        position{line: 2872, col: 20, offset: 90795},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2871, col: 29, offset: 90772},
+																								pos:        position{line: 2872, col: 29, offset: 90804},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -16436,9 +16436,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2881, col: 8, offset: 90932},
+																					pos: position{line: 2882, col: 8, offset: 90964},
 																					expr: &anyMatcher{
-																						line: 2881, col: 9, offset: 90933,
+																						line: 2882, col: 9, offset: 90965,
 																					},
 																				},
 																			},
@@ -16447,9 +16447,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2881, col: 8, offset: 90932},
+																pos: position{line: 2882, col: 8, offset: 90964},
 																expr: &anyMatcher{
-																	line: 2881, col: 9, offset: 90933,
+																	line: 2882, col: 9, offset: 90965,
 																},
 															},
 														},
@@ -16475,36 +16475,36 @@ var g = &grammar{
 								pos: position{line: 1106, col: 6, offset: 34004},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2472, col: 22, offset: 79562},
+										pos: position{line: 2473, col: 22, offset: 79594},
 										run: (*parser).callonDocumentHeader115,
 										expr: &seqExpr{
-											pos: position{line: 2472, col: 22, offset: 79562},
+											pos: position{line: 2473, col: 22, offset: 79594},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2477, col: 31, offset: 79783},
+													pos:        position{line: 2478, col: 31, offset: 79815},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2477, col: 36, offset: 79788},
+													pos: position{line: 2478, col: 36, offset: 79820},
 													expr: &litMatcher{
-														pos:        position{line: 2477, col: 37, offset: 79789},
+														pos:        position{line: 2478, col: 37, offset: 79821},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2472, col: 49, offset: 79589},
+													pos:   position{line: 2473, col: 49, offset: 79621},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2808, col: 13, offset: 89110},
+														pos: position{line: 2809, col: 13, offset: 89142},
 														run: (*parser).callonDocumentHeader121,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2808, col: 13, offset: 89110},
+															pos: position{line: 2809, col: 13, offset: 89142},
 															expr: &charClassMatcher{
-																pos:        position{line: 2808, col: 13, offset: 89110},
+																pos:        position{line: 2809, col: 13, offset: 89142},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16514,28 +16514,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2884, col: 8, offset: 90982},
+													pos: position{line: 2885, col: 8, offset: 91014},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2871, col: 12, offset: 90755},
+															pos: position{line: 2872, col: 12, offset: 90787},
 															run: (*parser).callonDocumentHeader125,
 															expr: &choiceExpr{
-																pos: position{line: 2871, col: 13, offset: 90756},
+																pos: position{line: 2872, col: 13, offset: 90788},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2871, col: 13, offset: 90756},
+																		pos:        position{line: 2872, col: 13, offset: 90788},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2871, col: 20, offset: 90763},
+																		pos:        position{line: 2872, col: 20, offset: 90795},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2871, col: 29, offset: 90772},
+																		pos:        position{line: 2872, col: 29, offset: 90804},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16544,9 +16544,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2881, col: 8, offset: 90932},
+															pos: position{line: 2882, col: 8, offset: 90964},
 															expr: &anyMatcher{
-																line: 2881, col: 9, offset: 90933,
+																line: 2882, col: 9, offset: 90965,
 															},
 														},
 													},
@@ -16597,10 +16597,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 742, col: 8, offset: 23754},
 																expr: &actionExpr{
-																	pos: position{line: 2862, col: 10, offset: 90584},
+																	pos: position{line: 2863, col: 10, offset: 90616},
 																	run: (*parser).callonDocumentHeader143,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2862, col: 10, offset: 90584},
+																		pos:        position{line: 2863, col: 10, offset: 90616},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16609,28 +16609,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2884, col: 8, offset: 90982},
+																pos: position{line: 2885, col: 8, offset: 91014},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2871, col: 12, offset: 90755},
+																		pos: position{line: 2872, col: 12, offset: 90787},
 																		run: (*parser).callonDocumentHeader146,
 																		expr: &choiceExpr{
-																			pos: position{line: 2871, col: 13, offset: 90756},
+																			pos: position{line: 2872, col: 13, offset: 90788},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2871, col: 13, offset: 90756},
+																					pos:        position{line: 2872, col: 13, offset: 90788},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2871, col: 20, offset: 90763},
+																					pos:        position{line: 2872, col: 20, offset: 90795},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2871, col: 29, offset: 90772},
+																					pos:        position{line: 2872, col: 29, offset: 90804},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -16639,9 +16639,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2881, col: 8, offset: 90932},
+																		pos: position{line: 2882, col: 8, offset: 90964},
 																		expr: &anyMatcher{
-																			line: 2881, col: 9, offset: 90933,
+																			line: 2882, col: 9, offset: 90965,
 																		},
 																	},
 																},
@@ -16702,10 +16702,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 742, col: 8, offset: 23754},
 																								expr: &actionExpr{
-																									pos: position{line: 2862, col: 10, offset: 90584},
+																									pos: position{line: 2863, col: 10, offset: 90616},
 																									run: (*parser).callonDocumentHeader168,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2862, col: 10, offset: 90584},
+																										pos:        position{line: 2863, col: 10, offset: 90616},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -16714,28 +16714,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2884, col: 8, offset: 90982},
+																								pos: position{line: 2885, col: 8, offset: 91014},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2871, col: 12, offset: 90755},
+																										pos: position{line: 2872, col: 12, offset: 90787},
 																										run: (*parser).callonDocumentHeader171,
 																										expr: &choiceExpr{
-																											pos: position{line: 2871, col: 13, offset: 90756},
+																											pos: position{line: 2872, col: 13, offset: 90788},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2871, col: 13, offset: 90756},
+																													pos:        position{line: 2872, col: 13, offset: 90788},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2871, col: 20, offset: 90763},
+																													pos:        position{line: 2872, col: 20, offset: 90795},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2871, col: 29, offset: 90772},
+																													pos:        position{line: 2872, col: 29, offset: 90804},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -16744,9 +16744,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2881, col: 8, offset: 90932},
+																										pos: position{line: 2882, col: 8, offset: 90964},
 																										expr: &anyMatcher{
-																											line: 2881, col: 9, offset: 90933,
+																											line: 2882, col: 9, offset: 90965,
 																										},
 																									},
 																								},
@@ -16755,9 +16755,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2881, col: 8, offset: 90932},
+																					pos: position{line: 2882, col: 8, offset: 90964},
 																					expr: &anyMatcher{
-																						line: 2881, col: 9, offset: 90933,
+																						line: 2882, col: 9, offset: 90965,
 																					},
 																				},
 																			},
@@ -16773,21 +16773,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26161},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2879, col: 11, offset: 90918},
+																						pos: position{line: 2880, col: 11, offset: 90950},
 																						expr: &anyMatcher{
-																							line: 2879, col: 13, offset: 90920,
+																							line: 2880, col: 13, offset: 90952,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26236},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2808, col: 13, offset: 89110},
+																							pos: position{line: 2809, col: 13, offset: 89142},
 																							run: (*parser).callonDocumentHeader186,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2808, col: 13, offset: 89110},
+																								pos: position{line: 2809, col: 13, offset: 89142},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2808, col: 13, offset: 89110},
+																									pos:        position{line: 2809, col: 13, offset: 89142},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16797,28 +16797,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2884, col: 8, offset: 90982},
+																						pos: position{line: 2885, col: 8, offset: 91014},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2871, col: 12, offset: 90755},
+																								pos: position{line: 2872, col: 12, offset: 90787},
 																								run: (*parser).callonDocumentHeader190,
 																								expr: &choiceExpr{
-																									pos: position{line: 2871, col: 13, offset: 90756},
+																									pos: position{line: 2872, col: 13, offset: 90788},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 13, offset: 90756},
+																											pos:        position{line: 2872, col: 13, offset: 90788},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 20, offset: 90763},
+																											pos:        position{line: 2872, col: 20, offset: 90795},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 29, offset: 90772},
+																											pos:        position{line: 2872, col: 29, offset: 90804},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16827,9 +16827,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2881, col: 8, offset: 90932},
+																								pos: position{line: 2882, col: 8, offset: 90964},
 																								expr: &anyMatcher{
-																									line: 2881, col: 9, offset: 90933,
+																									line: 2882, col: 9, offset: 90965,
 																								},
 																							},
 																						},
@@ -16885,10 +16885,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 742, col: 8, offset: 23754},
 																			expr: &actionExpr{
-																				pos: position{line: 2862, col: 10, offset: 90584},
+																				pos: position{line: 2863, col: 10, offset: 90616},
 																				run: (*parser).callonDocumentHeader208,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2862, col: 10, offset: 90584},
+																					pos:        position{line: 2863, col: 10, offset: 90616},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -16897,28 +16897,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2884, col: 8, offset: 90982},
+																			pos: position{line: 2885, col: 8, offset: 91014},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2871, col: 12, offset: 90755},
+																					pos: position{line: 2872, col: 12, offset: 90787},
 																					run: (*parser).callonDocumentHeader211,
 																					expr: &choiceExpr{
-																						pos: position{line: 2871, col: 13, offset: 90756},
+																						pos: position{line: 2872, col: 13, offset: 90788},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2871, col: 13, offset: 90756},
+																								pos:        position{line: 2872, col: 13, offset: 90788},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2871, col: 20, offset: 90763},
+																								pos:        position{line: 2872, col: 20, offset: 90795},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2871, col: 29, offset: 90772},
+																								pos:        position{line: 2872, col: 29, offset: 90804},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -16927,9 +16927,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2881, col: 8, offset: 90932},
+																					pos: position{line: 2882, col: 8, offset: 90964},
 																					expr: &anyMatcher{
-																						line: 2881, col: 9, offset: 90933,
+																						line: 2882, col: 9, offset: 90965,
 																					},
 																				},
 																			},
@@ -16938,9 +16938,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2881, col: 8, offset: 90932},
+																pos: position{line: 2882, col: 8, offset: 90964},
 																expr: &anyMatcher{
-																	line: 2881, col: 9, offset: 90933,
+																	line: 2882, col: 9, offset: 90965,
 																},
 															},
 														},
@@ -16984,10 +16984,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1125, col: 20, offset: 34759},
 																expr: &actionExpr{
-																	pos: position{line: 2862, col: 10, offset: 90584},
+																	pos: position{line: 2863, col: 10, offset: 90616},
 																	run: (*parser).callonDocumentHeader230,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2862, col: 10, offset: 90584},
+																		pos:        position{line: 2863, col: 10, offset: 90616},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17038,10 +17038,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1144, col: 5, offset: 35364},
 																										expr: &actionExpr{
-																											pos: position{line: 2862, col: 10, offset: 90584},
+																											pos: position{line: 2863, col: 10, offset: 90616},
 																											run: (*parser).callonDocumentHeader245,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2862, col: 10, offset: 90584},
+																												pos:        position{line: 2863, col: 10, offset: 90616},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17073,10 +17073,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1148, col: 5, offset: 35463},
 																										expr: &actionExpr{
-																											pos: position{line: 2862, col: 10, offset: 90584},
+																											pos: position{line: 2863, col: 10, offset: 90616},
 																											run: (*parser).callonDocumentHeader253,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2862, col: 10, offset: 90584},
+																												pos:        position{line: 2863, col: 10, offset: 90616},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17108,10 +17108,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1152, col: 5, offset: 35560},
 																										expr: &actionExpr{
-																											pos: position{line: 2862, col: 10, offset: 90584},
+																											pos: position{line: 2863, col: 10, offset: 90616},
 																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2862, col: 10, offset: 90584},
+																												pos:        position{line: 2863, col: 10, offset: 90616},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17136,9 +17136,9 @@ var g = &grammar{
 																								pos: position{line: 1158, col: 5, offset: 35682},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2879, col: 11, offset: 90918},
+																										pos: position{line: 2880, col: 11, offset: 90950},
 																										expr: &anyMatcher{
-																											line: 2879, col: 13, offset: 90920,
+																											line: 2880, col: 13, offset: 90952,
 																										},
 																									},
 																									&litMatcher{
@@ -17179,10 +17179,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1130, col: 69, offset: 34952},
 																					expr: &actionExpr{
-																						pos: position{line: 2862, col: 10, offset: 90584},
+																						pos: position{line: 2863, col: 10, offset: 90616},
 																						run: (*parser).callonDocumentHeader276,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2862, col: 10, offset: 90584},
+																							pos:        position{line: 2863, col: 10, offset: 90616},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17202,10 +17202,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1130, col: 81, offset: 34964},
 																					expr: &actionExpr{
-																						pos: position{line: 2862, col: 10, offset: 90584},
+																						pos: position{line: 2863, col: 10, offset: 90616},
 																						run: (*parser).callonDocumentHeader281,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2862, col: 10, offset: 90584},
+																							pos:        position{line: 2863, col: 10, offset: 90616},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17223,28 +17223,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2884, col: 8, offset: 90982},
+																pos: position{line: 2885, col: 8, offset: 91014},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2871, col: 12, offset: 90755},
+																		pos: position{line: 2872, col: 12, offset: 90787},
 																		run: (*parser).callonDocumentHeader285,
 																		expr: &choiceExpr{
-																			pos: position{line: 2871, col: 13, offset: 90756},
+																			pos: position{line: 2872, col: 13, offset: 90788},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2871, col: 13, offset: 90756},
+																					pos:        position{line: 2872, col: 13, offset: 90788},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2871, col: 20, offset: 90763},
+																					pos:        position{line: 2872, col: 20, offset: 90795},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2871, col: 29, offset: 90772},
+																					pos:        position{line: 2872, col: 29, offset: 90804},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17253,9 +17253,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2881, col: 8, offset: 90932},
+																		pos: position{line: 2882, col: 8, offset: 90964},
 																		expr: &anyMatcher{
-																			line: 2881, col: 9, offset: 90933,
+																			line: 2882, col: 9, offset: 90965,
 																		},
 																	},
 																},
@@ -17270,36 +17270,36 @@ var g = &grammar{
 													pos: position{line: 1120, col: 6, offset: 34534},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2472, col: 22, offset: 79562},
+															pos: position{line: 2473, col: 22, offset: 79594},
 															run: (*parser).callonDocumentHeader294,
 															expr: &seqExpr{
-																pos: position{line: 2472, col: 22, offset: 79562},
+																pos: position{line: 2473, col: 22, offset: 79594},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2477, col: 31, offset: 79783},
+																		pos:        position{line: 2478, col: 31, offset: 79815},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2477, col: 36, offset: 79788},
+																		pos: position{line: 2478, col: 36, offset: 79820},
 																		expr: &litMatcher{
-																			pos:        position{line: 2477, col: 37, offset: 79789},
+																			pos:        position{line: 2478, col: 37, offset: 79821},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2472, col: 49, offset: 79589},
+																		pos:   position{line: 2473, col: 49, offset: 79621},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2808, col: 13, offset: 89110},
+																			pos: position{line: 2809, col: 13, offset: 89142},
 																			run: (*parser).callonDocumentHeader300,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2808, col: 13, offset: 89110},
+																				pos: position{line: 2809, col: 13, offset: 89142},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2808, col: 13, offset: 89110},
+																					pos:        position{line: 2809, col: 13, offset: 89142},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -17309,28 +17309,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2884, col: 8, offset: 90982},
+																		pos: position{line: 2885, col: 8, offset: 91014},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2871, col: 12, offset: 90755},
+																				pos: position{line: 2872, col: 12, offset: 90787},
 																				run: (*parser).callonDocumentHeader304,
 																				expr: &choiceExpr{
-																					pos: position{line: 2871, col: 13, offset: 90756},
+																					pos: position{line: 2872, col: 13, offset: 90788},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 13, offset: 90756},
+																							pos:        position{line: 2872, col: 13, offset: 90788},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 20, offset: 90763},
+																							pos:        position{line: 2872, col: 20, offset: 90795},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 29, offset: 90772},
+																							pos:        position{line: 2872, col: 29, offset: 90804},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -17339,9 +17339,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2881, col: 8, offset: 90932},
+																				pos: position{line: 2882, col: 8, offset: 90964},
 																				expr: &anyMatcher{
-																					line: 2881, col: 9, offset: 90933,
+																					line: 2882, col: 9, offset: 90965,
 																				},
 																			},
 																		},
@@ -17392,10 +17392,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 742, col: 8, offset: 23754},
 																					expr: &actionExpr{
-																						pos: position{line: 2862, col: 10, offset: 90584},
+																						pos: position{line: 2863, col: 10, offset: 90616},
 																						run: (*parser).callonDocumentHeader322,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2862, col: 10, offset: 90584},
+																							pos:        position{line: 2863, col: 10, offset: 90616},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17404,28 +17404,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2884, col: 8, offset: 90982},
+																					pos: position{line: 2885, col: 8, offset: 91014},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2871, col: 12, offset: 90755},
+																							pos: position{line: 2872, col: 12, offset: 90787},
 																							run: (*parser).callonDocumentHeader325,
 																							expr: &choiceExpr{
-																								pos: position{line: 2871, col: 13, offset: 90756},
+																								pos: position{line: 2872, col: 13, offset: 90788},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2871, col: 13, offset: 90756},
+																										pos:        position{line: 2872, col: 13, offset: 90788},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2871, col: 20, offset: 90763},
+																										pos:        position{line: 2872, col: 20, offset: 90795},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2871, col: 29, offset: 90772},
+																										pos:        position{line: 2872, col: 29, offset: 90804},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -17434,9 +17434,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2881, col: 8, offset: 90932},
+																							pos: position{line: 2882, col: 8, offset: 90964},
 																							expr: &anyMatcher{
-																								line: 2881, col: 9, offset: 90933,
+																								line: 2882, col: 9, offset: 90965,
 																							},
 																						},
 																					},
@@ -17497,10 +17497,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 742, col: 8, offset: 23754},
 																													expr: &actionExpr{
-																														pos: position{line: 2862, col: 10, offset: 90584},
+																														pos: position{line: 2863, col: 10, offset: 90616},
 																														run: (*parser).callonDocumentHeader347,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2862, col: 10, offset: 90584},
+																															pos:        position{line: 2863, col: 10, offset: 90616},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -17509,28 +17509,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2884, col: 8, offset: 90982},
+																													pos: position{line: 2885, col: 8, offset: 91014},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2871, col: 12, offset: 90755},
+																															pos: position{line: 2872, col: 12, offset: 90787},
 																															run: (*parser).callonDocumentHeader350,
 																															expr: &choiceExpr{
-																																pos: position{line: 2871, col: 13, offset: 90756},
+																																pos: position{line: 2872, col: 13, offset: 90788},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2871, col: 13, offset: 90756},
+																																		pos:        position{line: 2872, col: 13, offset: 90788},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2871, col: 20, offset: 90763},
+																																		pos:        position{line: 2872, col: 20, offset: 90795},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2871, col: 29, offset: 90772},
+																																		pos:        position{line: 2872, col: 29, offset: 90804},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -17539,9 +17539,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2881, col: 8, offset: 90932},
+																															pos: position{line: 2882, col: 8, offset: 90964},
 																															expr: &anyMatcher{
-																																line: 2881, col: 9, offset: 90933,
+																																line: 2882, col: 9, offset: 90965,
 																															},
 																														},
 																													},
@@ -17550,9 +17550,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2881, col: 8, offset: 90932},
+																										pos: position{line: 2882, col: 8, offset: 90964},
 																										expr: &anyMatcher{
-																											line: 2881, col: 9, offset: 90933,
+																											line: 2882, col: 9, offset: 90965,
 																										},
 																									},
 																								},
@@ -17568,21 +17568,21 @@ var g = &grammar{
 																									pos: position{line: 811, col: 5, offset: 26161},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2879, col: 11, offset: 90918},
+																											pos: position{line: 2880, col: 11, offset: 90950},
 																											expr: &anyMatcher{
-																												line: 2879, col: 13, offset: 90920,
+																												line: 2880, col: 13, offset: 90952,
 																											},
 																										},
 																										&labeledExpr{
 																											pos:   position{line: 812, col: 5, offset: 26236},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2808, col: 13, offset: 89110},
+																												pos: position{line: 2809, col: 13, offset: 89142},
 																												run: (*parser).callonDocumentHeader365,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2808, col: 13, offset: 89110},
+																													pos: position{line: 2809, col: 13, offset: 89142},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2808, col: 13, offset: 89110},
+																														pos:        position{line: 2809, col: 13, offset: 89142},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -17592,28 +17592,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2884, col: 8, offset: 90982},
+																											pos: position{line: 2885, col: 8, offset: 91014},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2871, col: 12, offset: 90755},
+																													pos: position{line: 2872, col: 12, offset: 90787},
 																													run: (*parser).callonDocumentHeader369,
 																													expr: &choiceExpr{
-																														pos: position{line: 2871, col: 13, offset: 90756},
+																														pos: position{line: 2872, col: 13, offset: 90788},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2871, col: 13, offset: 90756},
+																																pos:        position{line: 2872, col: 13, offset: 90788},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2871, col: 20, offset: 90763},
+																																pos:        position{line: 2872, col: 20, offset: 90795},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2871, col: 29, offset: 90772},
+																																pos:        position{line: 2872, col: 29, offset: 90804},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17622,9 +17622,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2881, col: 8, offset: 90932},
+																													pos: position{line: 2882, col: 8, offset: 90964},
 																													expr: &anyMatcher{
-																														line: 2881, col: 9, offset: 90933,
+																														line: 2882, col: 9, offset: 90965,
 																													},
 																												},
 																											},
@@ -17680,10 +17680,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 742, col: 8, offset: 23754},
 																								expr: &actionExpr{
-																									pos: position{line: 2862, col: 10, offset: 90584},
+																									pos: position{line: 2863, col: 10, offset: 90616},
 																									run: (*parser).callonDocumentHeader387,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2862, col: 10, offset: 90584},
+																										pos:        position{line: 2863, col: 10, offset: 90616},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -17692,28 +17692,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2884, col: 8, offset: 90982},
+																								pos: position{line: 2885, col: 8, offset: 91014},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2871, col: 12, offset: 90755},
+																										pos: position{line: 2872, col: 12, offset: 90787},
 																										run: (*parser).callonDocumentHeader390,
 																										expr: &choiceExpr{
-																											pos: position{line: 2871, col: 13, offset: 90756},
+																											pos: position{line: 2872, col: 13, offset: 90788},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2871, col: 13, offset: 90756},
+																													pos:        position{line: 2872, col: 13, offset: 90788},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2871, col: 20, offset: 90763},
+																													pos:        position{line: 2872, col: 20, offset: 90795},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2871, col: 29, offset: 90772},
+																													pos:        position{line: 2872, col: 29, offset: 90804},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -17722,9 +17722,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2881, col: 8, offset: 90932},
+																										pos: position{line: 2882, col: 8, offset: 90964},
 																										expr: &anyMatcher{
-																											line: 2881, col: 9, offset: 90933,
+																											line: 2882, col: 9, offset: 90965,
 																										},
 																									},
 																								},
@@ -17733,9 +17733,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2881, col: 8, offset: 90932},
+																					pos: position{line: 2882, col: 8, offset: 90964},
 																					expr: &anyMatcher{
-																						line: 2881, col: 9, offset: 90933,
+																						line: 2882, col: 9, offset: 90965,
 																					},
 																				},
 																			},
@@ -17761,10 +17761,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1169, col: 21, offset: 35960},
 																	expr: &actionExpr{
-																		pos: position{line: 2862, col: 10, offset: 90584},
+																		pos: position{line: 2863, col: 10, offset: 90616},
 																		run: (*parser).callonDocumentHeader404,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2862, col: 10, offset: 90584},
+																			pos:        position{line: 2863, col: 10, offset: 90616},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -17866,10 +17866,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 1181, col: 28, offset: 36591},
 																													expr: &actionExpr{
-																														pos: position{line: 2862, col: 10, offset: 90584},
+																														pos: position{line: 2863, col: 10, offset: 90616},
 																														run: (*parser).callonDocumentHeader428,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2862, col: 10, offset: 90584},
+																															pos:        position{line: 2863, col: 10, offset: 90616},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -18016,28 +18016,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2884, col: 8, offset: 90982},
+																	pos: position{line: 2885, col: 8, offset: 91014},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2871, col: 12, offset: 90755},
+																			pos: position{line: 2872, col: 12, offset: 90787},
 																			run: (*parser).callonDocumentHeader460,
 																			expr: &choiceExpr{
-																				pos: position{line: 2871, col: 13, offset: 90756},
+																				pos: position{line: 2872, col: 13, offset: 90788},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 13, offset: 90756},
+																						pos:        position{line: 2872, col: 13, offset: 90788},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 20, offset: 90763},
+																						pos:        position{line: 2872, col: 20, offset: 90795},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 29, offset: 90772},
+																						pos:        position{line: 2872, col: 29, offset: 90804},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18046,9 +18046,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2881, col: 8, offset: 90932},
+																			pos: position{line: 2882, col: 8, offset: 90964},
 																			expr: &anyMatcher{
-																				line: 2881, col: 9, offset: 90933,
+																				line: 2882, col: 9, offset: 90965,
 																			},
 																		},
 																	},
@@ -18128,10 +18128,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 360, col: 49, offset: 10940},
 														expr: &actionExpr{
-															pos: position{line: 2862, col: 10, offset: 90584},
+															pos: position{line: 2863, col: 10, offset: 90616},
 															run: (*parser).callonDocumentHeader482,
 															expr: &charClassMatcher{
-																pos:        position{line: 2862, col: 10, offset: 90584},
+																pos:        position{line: 2863, col: 10, offset: 90616},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18140,28 +18140,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2884, col: 8, offset: 90982},
+														pos: position{line: 2885, col: 8, offset: 91014},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2871, col: 12, offset: 90755},
+																pos: position{line: 2872, col: 12, offset: 90787},
 																run: (*parser).callonDocumentHeader485,
 																expr: &choiceExpr{
-																	pos: position{line: 2871, col: 13, offset: 90756},
+																	pos: position{line: 2872, col: 13, offset: 90788},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2871, col: 13, offset: 90756},
+																			pos:        position{line: 2872, col: 13, offset: 90788},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2871, col: 20, offset: 90763},
+																			pos:        position{line: 2872, col: 20, offset: 90795},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2871, col: 29, offset: 90772},
+																			pos:        position{line: 2872, col: 29, offset: 90804},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18170,9 +18170,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2881, col: 8, offset: 90932},
+																pos: position{line: 2882, col: 8, offset: 90964},
 																expr: &anyMatcher{
-																	line: 2881, col: 9, offset: 90933,
+																	line: 2882, col: 9, offset: 90965,
 																},
 															},
 														},
@@ -18233,10 +18233,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 39, offset: 11061},
 														expr: &actionExpr{
-															pos: position{line: 2862, col: 10, offset: 90584},
+															pos: position{line: 2863, col: 10, offset: 90616},
 															run: (*parser).callonDocumentHeader503,
 															expr: &charClassMatcher{
-																pos:        position{line: 2862, col: 10, offset: 90584},
+																pos:        position{line: 2863, col: 10, offset: 90616},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18245,28 +18245,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2884, col: 8, offset: 90982},
+														pos: position{line: 2885, col: 8, offset: 91014},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2871, col: 12, offset: 90755},
+																pos: position{line: 2872, col: 12, offset: 90787},
 																run: (*parser).callonDocumentHeader506,
 																expr: &choiceExpr{
-																	pos: position{line: 2871, col: 13, offset: 90756},
+																	pos: position{line: 2872, col: 13, offset: 90788},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2871, col: 13, offset: 90756},
+																			pos:        position{line: 2872, col: 13, offset: 90788},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2871, col: 20, offset: 90763},
+																			pos:        position{line: 2872, col: 20, offset: 90795},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2871, col: 29, offset: 90772},
+																			pos:        position{line: 2872, col: 29, offset: 90804},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18275,9 +18275,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2881, col: 8, offset: 90932},
+																pos: position{line: 2882, col: 8, offset: 90964},
 																expr: &anyMatcher{
-																	line: 2881, col: 9, offset: 90933,
+																	line: 2882, col: 9, offset: 90965,
 																},
 															},
 														},
@@ -18286,36 +18286,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2472, col: 22, offset: 79562},
+											pos: position{line: 2473, col: 22, offset: 79594},
 											run: (*parser).callonDocumentHeader513,
 											expr: &seqExpr{
-												pos: position{line: 2472, col: 22, offset: 79562},
+												pos: position{line: 2473, col: 22, offset: 79594},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2477, col: 31, offset: 79783},
+														pos:        position{line: 2478, col: 31, offset: 79815},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2477, col: 36, offset: 79788},
+														pos: position{line: 2478, col: 36, offset: 79820},
 														expr: &litMatcher{
-															pos:        position{line: 2477, col: 37, offset: 79789},
+															pos:        position{line: 2478, col: 37, offset: 79821},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2472, col: 49, offset: 79589},
+														pos:   position{line: 2473, col: 49, offset: 79621},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2808, col: 13, offset: 89110},
+															pos: position{line: 2809, col: 13, offset: 89142},
 															run: (*parser).callonDocumentHeader519,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2808, col: 13, offset: 89110},
+																pos: position{line: 2809, col: 13, offset: 89142},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2808, col: 13, offset: 89110},
+																	pos:        position{line: 2809, col: 13, offset: 89142},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -18325,28 +18325,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2884, col: 8, offset: 90982},
+														pos: position{line: 2885, col: 8, offset: 91014},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2871, col: 12, offset: 90755},
+																pos: position{line: 2872, col: 12, offset: 90787},
 																run: (*parser).callonDocumentHeader523,
 																expr: &choiceExpr{
-																	pos: position{line: 2871, col: 13, offset: 90756},
+																	pos: position{line: 2872, col: 13, offset: 90788},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2871, col: 13, offset: 90756},
+																			pos:        position{line: 2872, col: 13, offset: 90788},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2871, col: 20, offset: 90763},
+																			pos:        position{line: 2872, col: 20, offset: 90795},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2871, col: 29, offset: 90772},
+																			pos:        position{line: 2872, col: 29, offset: 90804},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18355,9 +18355,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2881, col: 8, offset: 90932},
+																pos: position{line: 2882, col: 8, offset: 90964},
 																expr: &anyMatcher{
-																	line: 2881, col: 9, offset: 90933,
+																	line: 2882, col: 9, offset: 90965,
 																},
 															},
 														},
@@ -18408,10 +18408,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 742, col: 8, offset: 23754},
 																	expr: &actionExpr{
-																		pos: position{line: 2862, col: 10, offset: 90584},
+																		pos: position{line: 2863, col: 10, offset: 90616},
 																		run: (*parser).callonDocumentHeader541,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2862, col: 10, offset: 90584},
+																			pos:        position{line: 2863, col: 10, offset: 90616},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18420,28 +18420,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2884, col: 8, offset: 90982},
+																	pos: position{line: 2885, col: 8, offset: 91014},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2871, col: 12, offset: 90755},
+																			pos: position{line: 2872, col: 12, offset: 90787},
 																			run: (*parser).callonDocumentHeader544,
 																			expr: &choiceExpr{
-																				pos: position{line: 2871, col: 13, offset: 90756},
+																				pos: position{line: 2872, col: 13, offset: 90788},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 13, offset: 90756},
+																						pos:        position{line: 2872, col: 13, offset: 90788},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 20, offset: 90763},
+																						pos:        position{line: 2872, col: 20, offset: 90795},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 29, offset: 90772},
+																						pos:        position{line: 2872, col: 29, offset: 90804},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18450,9 +18450,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2881, col: 8, offset: 90932},
+																			pos: position{line: 2882, col: 8, offset: 90964},
 																			expr: &anyMatcher{
-																				line: 2881, col: 9, offset: 90933,
+																				line: 2882, col: 9, offset: 90965,
 																			},
 																		},
 																	},
@@ -18513,10 +18513,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 742, col: 8, offset: 23754},
 																									expr: &actionExpr{
-																										pos: position{line: 2862, col: 10, offset: 90584},
+																										pos: position{line: 2863, col: 10, offset: 90616},
 																										run: (*parser).callonDocumentHeader566,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2862, col: 10, offset: 90584},
+																											pos:        position{line: 2863, col: 10, offset: 90616},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -18525,28 +18525,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2884, col: 8, offset: 90982},
+																									pos: position{line: 2885, col: 8, offset: 91014},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2871, col: 12, offset: 90755},
+																											pos: position{line: 2872, col: 12, offset: 90787},
 																											run: (*parser).callonDocumentHeader569,
 																											expr: &choiceExpr{
-																												pos: position{line: 2871, col: 13, offset: 90756},
+																												pos: position{line: 2872, col: 13, offset: 90788},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2871, col: 13, offset: 90756},
+																														pos:        position{line: 2872, col: 13, offset: 90788},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2871, col: 20, offset: 90763},
+																														pos:        position{line: 2872, col: 20, offset: 90795},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2871, col: 29, offset: 90772},
+																														pos:        position{line: 2872, col: 29, offset: 90804},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -18555,9 +18555,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2881, col: 8, offset: 90932},
+																											pos: position{line: 2882, col: 8, offset: 90964},
 																											expr: &anyMatcher{
-																												line: 2881, col: 9, offset: 90933,
+																												line: 2882, col: 9, offset: 90965,
 																											},
 																										},
 																									},
@@ -18566,9 +18566,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2881, col: 8, offset: 90932},
+																						pos: position{line: 2882, col: 8, offset: 90964},
 																						expr: &anyMatcher{
-																							line: 2881, col: 9, offset: 90933,
+																							line: 2882, col: 9, offset: 90965,
 																						},
 																					},
 																				},
@@ -18584,21 +18584,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26161},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2879, col: 11, offset: 90918},
+																							pos: position{line: 2880, col: 11, offset: 90950},
 																							expr: &anyMatcher{
-																								line: 2879, col: 13, offset: 90920,
+																								line: 2880, col: 13, offset: 90952,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26236},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2808, col: 13, offset: 89110},
+																								pos: position{line: 2809, col: 13, offset: 89142},
 																								run: (*parser).callonDocumentHeader584,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2808, col: 13, offset: 89110},
+																									pos: position{line: 2809, col: 13, offset: 89142},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2808, col: 13, offset: 89110},
+																										pos:        position{line: 2809, col: 13, offset: 89142},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -18608,28 +18608,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2884, col: 8, offset: 90982},
+																							pos: position{line: 2885, col: 8, offset: 91014},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2871, col: 12, offset: 90755},
+																									pos: position{line: 2872, col: 12, offset: 90787},
 																									run: (*parser).callonDocumentHeader588,
 																									expr: &choiceExpr{
-																										pos: position{line: 2871, col: 13, offset: 90756},
+																										pos: position{line: 2872, col: 13, offset: 90788},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 13, offset: 90756},
+																												pos:        position{line: 2872, col: 13, offset: 90788},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 20, offset: 90763},
+																												pos:        position{line: 2872, col: 20, offset: 90795},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 29, offset: 90772},
+																												pos:        position{line: 2872, col: 29, offset: 90804},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -18638,9 +18638,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2881, col: 8, offset: 90932},
+																									pos: position{line: 2882, col: 8, offset: 90964},
 																									expr: &anyMatcher{
-																										line: 2881, col: 9, offset: 90933,
+																										line: 2882, col: 9, offset: 90965,
 																									},
 																								},
 																							},
@@ -18696,10 +18696,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 742, col: 8, offset: 23754},
 																				expr: &actionExpr{
-																					pos: position{line: 2862, col: 10, offset: 90584},
+																					pos: position{line: 2863, col: 10, offset: 90616},
 																					run: (*parser).callonDocumentHeader606,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2862, col: 10, offset: 90584},
+																						pos:        position{line: 2863, col: 10, offset: 90616},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -18708,28 +18708,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2884, col: 8, offset: 90982},
+																				pos: position{line: 2885, col: 8, offset: 91014},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2871, col: 12, offset: 90755},
+																						pos: position{line: 2872, col: 12, offset: 90787},
 																						run: (*parser).callonDocumentHeader609,
 																						expr: &choiceExpr{
-																							pos: position{line: 2871, col: 13, offset: 90756},
+																							pos: position{line: 2872, col: 13, offset: 90788},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2871, col: 13, offset: 90756},
+																									pos:        position{line: 2872, col: 13, offset: 90788},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2871, col: 20, offset: 90763},
+																									pos:        position{line: 2872, col: 20, offset: 90795},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2871, col: 29, offset: 90772},
+																									pos:        position{line: 2872, col: 29, offset: 90804},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -18738,9 +18738,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2881, col: 8, offset: 90932},
+																						pos: position{line: 2882, col: 8, offset: 90964},
 																						expr: &anyMatcher{
-																							line: 2881, col: 9, offset: 90933,
+																							line: 2882, col: 9, offset: 90965,
 																						},
 																					},
 																				},
@@ -18749,9 +18749,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2881, col: 8, offset: 90932},
+																	pos: position{line: 2882, col: 8, offset: 90964},
 																	expr: &anyMatcher{
-																		line: 2881, col: 9, offset: 90933,
+																		line: 2882, col: 9, offset: 90965,
 																	},
 																},
 															},
@@ -18784,12 +18784,12 @@ var g = &grammar{
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2866, col: 11, offset: 90645},
+							pos: position{line: 2867, col: 11, offset: 90677},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2866, col: 11, offset: 90645},
+								pos: position{line: 2867, col: 11, offset: 90677},
 								expr: &charClassMatcher{
-									pos:        position{line: 2866, col: 11, offset: 90645},
+									pos:        position{line: 2867, col: 11, offset: 90677},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18806,28 +18806,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2884, col: 8, offset: 90982},
+							pos: position{line: 2885, col: 8, offset: 91014},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2871, col: 12, offset: 90755},
+									pos: position{line: 2872, col: 12, offset: 90787},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2871, col: 13, offset: 90756},
+										pos: position{line: 2872, col: 13, offset: 90788},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2871, col: 13, offset: 90756},
+												pos:        position{line: 2872, col: 13, offset: 90788},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2871, col: 20, offset: 90763},
+												pos:        position{line: 2872, col: 20, offset: 90795},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2871, col: 29, offset: 90772},
+												pos:        position{line: 2872, col: 29, offset: 90804},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -18836,9 +18836,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2881, col: 8, offset: 90932},
+									pos: position{line: 2882, col: 8, offset: 90964},
 									expr: &anyMatcher{
-										line: 2881, col: 9, offset: 90933,
+										line: 2882, col: 9, offset: 90965,
 									},
 								},
 							},
@@ -18877,10 +18877,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1144, col: 5, offset: 35364},
 							expr: &actionExpr{
-								pos: position{line: 2862, col: 10, offset: 90584},
+								pos: position{line: 2863, col: 10, offset: 90616},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2862, col: 10, offset: 90584},
+									pos:        position{line: 2863, col: 10, offset: 90616},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18912,10 +18912,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1148, col: 5, offset: 35463},
 							expr: &actionExpr{
-								pos: position{line: 2862, col: 10, offset: 90584},
+								pos: position{line: 2863, col: 10, offset: 90616},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2862, col: 10, offset: 90584},
+									pos:        position{line: 2863, col: 10, offset: 90616},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18947,10 +18947,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1152, col: 5, offset: 35560},
 							expr: &actionExpr{
-								pos: position{line: 2862, col: 10, offset: 90584},
+								pos: position{line: 2863, col: 10, offset: 90616},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2862, col: 10, offset: 90584},
+									pos:        position{line: 2863, col: 10, offset: 90616},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19016,12 +19016,12 @@ var g = &grammar{
 							pos:   position{line: 1280, col: 13, offset: 39762},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2847, col: 7, offset: 90236},
+								pos: position{line: 2848, col: 7, offset: 90268},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2847, col: 7, offset: 90236},
+									pos: position{line: 2848, col: 7, offset: 90268},
 									expr: &charClassMatcher{
-										pos:        position{line: 2847, col: 7, offset: 90236},
+										pos:        position{line: 2848, col: 7, offset: 90268},
 										val:        "[^[]<>,\\r\\n]",
 										chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 										ignoreCase: false,
@@ -19090,12 +19090,12 @@ var g = &grammar{
 							pos: position{line: 1291, col: 31, offset: 40222},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2756, col: 14, offset: 87753},
+									pos: position{line: 2757, col: 14, offset: 87785},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2756, col: 14, offset: 87753},
+										pos: position{line: 2757, col: 14, offset: 87785},
 										expr: &charClassMatcher{
-											pos:        position{line: 2756, col: 14, offset: 87753},
+											pos:        position{line: 2757, col: 14, offset: 87785},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -19108,10 +19108,10 @@ var g = &grammar{
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2862, col: 10, offset: 90584},
+									pos: position{line: 2863, col: 10, offset: 90616},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2862, col: 10, offset: 90584},
+										pos:        position{line: 2863, col: 10, offset: 90616},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -19119,23 +19119,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2459, col: 5, offset: 79108},
+									pos: position{line: 2460, col: 5, offset: 79140},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2459, col: 5, offset: 79108},
+										pos: position{line: 2460, col: 5, offset: 79140},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2459, col: 5, offset: 79108},
+												pos: position{line: 2460, col: 5, offset: 79140},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2462, col: 5, offset: 79184},
+												pos:   position{line: 2463, col: 5, offset: 79216},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2463, col: 9, offset: 79202},
+													pos: position{line: 2464, col: 9, offset: 79234},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2463, col: 10, offset: 79203},
+														pos:        position{line: 2464, col: 10, offset: 79235},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -19225,10 +19225,10 @@ var g = &grammar{
 							pos:   position{line: 1312, col: 5, offset: 41030},
 							label: "start",
 							expr: &actionExpr{
-								pos: position{line: 2887, col: 16, offset: 91106},
+								pos: position{line: 2888, col: 16, offset: 91138},
 								run: (*parser).callonImageBlock4,
 								expr: &litMatcher{
-									pos:        position{line: 2887, col: 16, offset: 91106},
+									pos:        position{line: 2888, col: 16, offset: 91138},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -19245,48 +19245,48 @@ var g = &grammar{
 							pos:   position{line: 1312, col: 35, offset: 41060},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2820, col: 13, offset: 89343},
+								pos: position{line: 2821, col: 13, offset: 89375},
 								run: (*parser).callonImageBlock8,
 								expr: &seqExpr{
-									pos: position{line: 2820, col: 13, offset: 89343},
+									pos: position{line: 2821, col: 13, offset: 89375},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2820, col: 13, offset: 89343},
+											pos:   position{line: 2821, col: 13, offset: 89375},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2820, col: 20, offset: 89350},
+												pos: position{line: 2821, col: 20, offset: 89382},
 												expr: &actionExpr{
-													pos: position{line: 2828, col: 11, offset: 89589},
+													pos: position{line: 2829, col: 11, offset: 89621},
 													run: (*parser).callonImageBlock12,
 													expr: &choiceExpr{
-														pos: position{line: 2828, col: 12, offset: 89590},
+														pos: position{line: 2829, col: 12, offset: 89622},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2828, col: 12, offset: 89590},
+																pos:        position{line: 2829, col: 12, offset: 89622},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2828, col: 24, offset: 89602},
+																pos:        position{line: 2829, col: 24, offset: 89634},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2828, col: 37, offset: 89615},
+																pos:        position{line: 2829, col: 37, offset: 89647},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2828, col: 48, offset: 89626},
+																pos:        position{line: 2829, col: 48, offset: 89658},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2828, col: 59, offset: 89637},
+																pos:        position{line: 2829, col: 59, offset: 89669},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19297,38 +19297,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2820, col: 30, offset: 89360},
+											pos:   position{line: 2821, col: 30, offset: 89392},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2833, col: 5, offset: 89701},
+												pos: position{line: 2834, col: 5, offset: 89733},
 												run: (*parser).callonImageBlock20,
 												expr: &labeledExpr{
-													pos:   position{line: 2833, col: 5, offset: 89701},
+													pos:   position{line: 2834, col: 5, offset: 89733},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2833, col: 14, offset: 89710},
+														pos: position{line: 2834, col: 14, offset: 89742},
 														expr: &choiceExpr{
-															pos: position{line: 2834, col: 9, offset: 89720},
+															pos: position{line: 2835, col: 9, offset: 89752},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2834, col: 9, offset: 89720},
+																	pos: position{line: 2835, col: 9, offset: 89752},
 																	run: (*parser).callonImageBlock24,
 																	expr: &seqExpr{
-																		pos: position{line: 2834, col: 9, offset: 89720},
+																		pos: position{line: 2835, col: 9, offset: 89752},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2834, col: 9, offset: 89720},
+																				pos: position{line: 2835, col: 9, offset: 89752},
 																				expr: &litMatcher{
-																					pos:        position{line: 2834, col: 10, offset: 89721},
+																					pos:        position{line: 2835, col: 10, offset: 89753},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2835, col: 9, offset: 89749},
+																				pos: position{line: 2836, col: 9, offset: 89781},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2835, col: 10, offset: 89750},
+																					pos:        position{line: 2836, col: 10, offset: 89782},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19339,27 +19339,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2838, col: 11, offset: 89962},
+																	pos: position{line: 2839, col: 11, offset: 89994},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2838, col: 11, offset: 89962},
+																			pos:        position{line: 2839, col: 11, offset: 89994},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2838, col: 19, offset: 89970},
+																			pos: position{line: 2839, col: 19, offset: 90002},
 																			expr: &seqExpr{
-																				pos: position{line: 2838, col: 21, offset: 89972},
+																				pos: position{line: 2839, col: 21, offset: 90004},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2838, col: 21, offset: 89972},
+																						pos: position{line: 2839, col: 21, offset: 90004},
 																						expr: &actionExpr{
-																							pos: position{line: 2862, col: 10, offset: 90584},
+																							pos: position{line: 2863, col: 10, offset: 90616},
 																							run: (*parser).callonImageBlock35,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2862, col: 10, offset: 90584},
+																								pos:        position{line: 2863, col: 10, offset: 90616},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19368,11 +19368,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2838, col: 28, offset: 89979},
+																						pos: position{line: 2839, col: 28, offset: 90011},
 																						expr: &notExpr{
-																							pos: position{line: 2881, col: 8, offset: 90932},
+																							pos: position{line: 2882, col: 8, offset: 90964},
 																							expr: &anyMatcher{
-																								line: 2881, col: 9, offset: 90933,
+																								line: 2882, col: 9, offset: 90965,
 																							},
 																						},
 																					},
@@ -19767,10 +19767,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2841, col: 11, offset: 90099},
+																	pos: position{line: 2842, col: 11, offset: 90131},
 																	run: (*parser).callonImageBlock117,
 																	expr: &litMatcher{
-																		pos:        position{line: 2841, col: 11, offset: 90099},
+																		pos:        position{line: 2842, col: 11, offset: 90131},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -19797,10 +19797,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1312, col: 81, offset: 41106},
 							expr: &actionExpr{
-								pos: position{line: 2862, col: 10, offset: 90584},
+								pos: position{line: 2863, col: 10, offset: 90616},
 								run: (*parser).callonImageBlock122,
 								expr: &charClassMatcher{
-									pos:        position{line: 2862, col: 10, offset: 90584},
+									pos:        position{line: 2863, col: 10, offset: 90616},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19812,10 +19812,10 @@ var g = &grammar{
 							pos:   position{line: 1312, col: 88, offset: 41113},
 							label: "end",
 							expr: &actionExpr{
-								pos: position{line: 2887, col: 16, offset: 91106},
+								pos: position{line: 2888, col: 16, offset: 91138},
 								run: (*parser).callonImageBlock125,
 								expr: &litMatcher{
-									pos:        position{line: 2887, col: 16, offset: 91106},
+									pos:        position{line: 2888, col: 16, offset: 91138},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -19827,28 +19827,28 @@ var g = &grammar{
 							run: (*parser).callonImageBlock127,
 						},
 						&choiceExpr{
-							pos: position{line: 2884, col: 8, offset: 90982},
+							pos: position{line: 2885, col: 8, offset: 91014},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2871, col: 12, offset: 90755},
+									pos: position{line: 2872, col: 12, offset: 90787},
 									run: (*parser).callonImageBlock129,
 									expr: &choiceExpr{
-										pos: position{line: 2871, col: 13, offset: 90756},
+										pos: position{line: 2872, col: 13, offset: 90788},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2871, col: 13, offset: 90756},
+												pos:        position{line: 2872, col: 13, offset: 90788},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2871, col: 20, offset: 90763},
+												pos:        position{line: 2872, col: 20, offset: 90795},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2871, col: 29, offset: 90772},
+												pos:        position{line: 2872, col: 29, offset: 90804},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19857,9 +19857,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2881, col: 8, offset: 90932},
+									pos: position{line: 2882, col: 8, offset: 90964},
 									expr: &anyMatcher{
-										line: 2881, col: 9, offset: 90933,
+										line: 2882, col: 9, offset: 90965,
 									},
 								},
 							},
@@ -19896,48 +19896,48 @@ var g = &grammar{
 							pos:   position{line: 1317, col: 30, offset: 41400},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2820, col: 13, offset: 89343},
+								pos: position{line: 2821, col: 13, offset: 89375},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2820, col: 13, offset: 89343},
+									pos: position{line: 2821, col: 13, offset: 89375},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2820, col: 13, offset: 89343},
+											pos:   position{line: 2821, col: 13, offset: 89375},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2820, col: 20, offset: 89350},
+												pos: position{line: 2821, col: 20, offset: 89382},
 												expr: &actionExpr{
-													pos: position{line: 2828, col: 11, offset: 89589},
+													pos: position{line: 2829, col: 11, offset: 89621},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2828, col: 12, offset: 89590},
+														pos: position{line: 2829, col: 12, offset: 89622},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2828, col: 12, offset: 89590},
+																pos:        position{line: 2829, col: 12, offset: 89622},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2828, col: 24, offset: 89602},
+																pos:        position{line: 2829, col: 24, offset: 89634},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2828, col: 37, offset: 89615},
+																pos:        position{line: 2829, col: 37, offset: 89647},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2828, col: 48, offset: 89626},
+																pos:        position{line: 2829, col: 48, offset: 89658},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2828, col: 59, offset: 89637},
+																pos:        position{line: 2829, col: 59, offset: 89669},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19948,38 +19948,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2820, col: 30, offset: 89360},
+											pos:   position{line: 2821, col: 30, offset: 89392},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2833, col: 5, offset: 89701},
+												pos: position{line: 2834, col: 5, offset: 89733},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2833, col: 5, offset: 89701},
+													pos:   position{line: 2834, col: 5, offset: 89733},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2833, col: 14, offset: 89710},
+														pos: position{line: 2834, col: 14, offset: 89742},
 														expr: &choiceExpr{
-															pos: position{line: 2834, col: 9, offset: 89720},
+															pos: position{line: 2835, col: 9, offset: 89752},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2834, col: 9, offset: 89720},
+																	pos: position{line: 2835, col: 9, offset: 89752},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2834, col: 9, offset: 89720},
+																		pos: position{line: 2835, col: 9, offset: 89752},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2834, col: 9, offset: 89720},
+																				pos: position{line: 2835, col: 9, offset: 89752},
 																				expr: &litMatcher{
-																					pos:        position{line: 2834, col: 10, offset: 89721},
+																					pos:        position{line: 2835, col: 10, offset: 89753},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2835, col: 9, offset: 89749},
+																				pos: position{line: 2836, col: 9, offset: 89781},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2835, col: 10, offset: 89750},
+																					pos:        position{line: 2836, col: 10, offset: 89782},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19990,27 +19990,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2838, col: 11, offset: 89962},
+																	pos: position{line: 2839, col: 11, offset: 89994},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2838, col: 11, offset: 89962},
+																			pos:        position{line: 2839, col: 11, offset: 89994},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2838, col: 19, offset: 89970},
+																			pos: position{line: 2839, col: 19, offset: 90002},
 																			expr: &seqExpr{
-																				pos: position{line: 2838, col: 21, offset: 89972},
+																				pos: position{line: 2839, col: 21, offset: 90004},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2838, col: 21, offset: 89972},
+																						pos: position{line: 2839, col: 21, offset: 90004},
 																						expr: &actionExpr{
-																							pos: position{line: 2862, col: 10, offset: 90584},
+																							pos: position{line: 2863, col: 10, offset: 90616},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2862, col: 10, offset: 90584},
+																								pos:        position{line: 2863, col: 10, offset: 90616},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20019,11 +20019,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2838, col: 28, offset: 89979},
+																						pos: position{line: 2839, col: 28, offset: 90011},
 																						expr: &notExpr{
-																							pos: position{line: 2881, col: 8, offset: 90932},
+																							pos: position{line: 2882, col: 8, offset: 90964},
 																							expr: &anyMatcher{
-																								line: 2881, col: 9, offset: 90933,
+																								line: 2882, col: 9, offset: 90965,
 																							},
 																						},
 																					},
@@ -20418,10 +20418,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2841, col: 11, offset: 90099},
+																	pos: position{line: 2842, col: 11, offset: 90131},
 																	run: (*parser).callonInlineImage116,
 																	expr: &litMatcher{
-																		pos:        position{line: 2841, col: 11, offset: 90099},
+																		pos:        position{line: 2842, col: 11, offset: 90131},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20600,21 +20600,21 @@ var g = &grammar{
 								pos: position{line: 1344, col: 9, offset: 42686},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2761, col: 5, offset: 87826},
+										pos: position{line: 2762, col: 5, offset: 87858},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2761, col: 5, offset: 87826},
+											pos: position{line: 2762, col: 5, offset: 87858},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2761, col: 5, offset: 87826},
+													pos:   position{line: 2762, col: 5, offset: 87858},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2761, col: 11, offset: 87832},
+														pos: position{line: 2762, col: 11, offset: 87864},
 														run: (*parser).callonFootnoteElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2761, col: 11, offset: 87832},
+															pos: position{line: 2762, col: 11, offset: 87864},
 															expr: &charClassMatcher{
-																pos:        position{line: 2761, col: 11, offset: 87832},
+																pos:        position{line: 2762, col: 11, offset: 87864},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -20624,36 +20624,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2764, col: 5, offset: 87890},
+													pos: position{line: 2765, col: 5, offset: 87922},
 													expr: &seqExpr{
-														pos: position{line: 2765, col: 9, offset: 87901},
+														pos: position{line: 2766, col: 9, offset: 87933},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2765, col: 9, offset: 87901},
+																pos:        position{line: 2766, col: 9, offset: 87933},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2766, col: 9, offset: 87950},
+																pos: position{line: 2767, col: 9, offset: 87982},
 																run: (*parser).callonFootnoteElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2770, col: 5, offset: 88030},
+													pos: position{line: 2771, col: 5, offset: 88062},
 													expr: &seqExpr{
-														pos: position{line: 2771, col: 9, offset: 88041},
+														pos: position{line: 2772, col: 9, offset: 88073},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2771, col: 9, offset: 88041},
+																pos:        position{line: 2772, col: 9, offset: 88073},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2771, col: 13, offset: 88045},
+																pos:        position{line: 2772, col: 13, offset: 88077},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -20666,12 +20666,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2866, col: 11, offset: 90645},
+										pos: position{line: 2867, col: 11, offset: 90677},
 										run: (*parser).callonFootnoteElement21,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2866, col: 11, offset: 90645},
+											pos: position{line: 2867, col: 11, offset: 90677},
 											expr: &charClassMatcher{
-												pos:        position{line: 2866, col: 11, offset: 90645},
+												pos:        position{line: 2867, col: 11, offset: 90677},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -20680,21 +20680,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2490, col: 5, offset: 80279},
+										pos: position{line: 2491, col: 5, offset: 80311},
 										run: (*parser).callonFootnoteElement24,
 										expr: &seqExpr{
-											pos: position{line: 2490, col: 5, offset: 80279},
+											pos: position{line: 2491, col: 5, offset: 80311},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2490, col: 5, offset: 80279},
+													pos:        position{line: 2491, col: 5, offset: 80311},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2490, col: 10, offset: 80284},
+													pos: position{line: 2491, col: 10, offset: 80316},
 													expr: &charClassMatcher{
-														pos:        position{line: 2490, col: 11, offset: 80285},
+														pos:        position{line: 2491, col: 11, offset: 80317},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -20705,29 +20705,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2496, col: 5, offset: 80477},
+										pos: position{line: 2497, col: 5, offset: 80509},
 										run: (*parser).callonFootnoteElement29,
 										expr: &seqExpr{
-											pos: position{line: 2496, col: 5, offset: 80477},
+											pos: position{line: 2497, col: 5, offset: 80509},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2496, col: 5, offset: 80477},
+													pos: position{line: 2497, col: 5, offset: 80509},
 													run: (*parser).callonFootnoteElement31,
 												},
 												&andCodeExpr{
-													pos: position{line: 2499, col: 5, offset: 80548},
+													pos: position{line: 2500, col: 5, offset: 80580},
 													run: (*parser).callonFootnoteElement32,
 												},
 												&litMatcher{
-													pos:        position{line: 2503, col: 5, offset: 80673},
+													pos:        position{line: 2504, col: 5, offset: 80705},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2503, col: 9, offset: 80677},
+													pos: position{line: 2504, col: 9, offset: 80709},
 													expr: &charClassMatcher{
-														pos:        position{line: 2503, col: 10, offset: 80678},
+														pos:        position{line: 2504, col: 10, offset: 80710},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -20746,27 +20746,27 @@ var g = &grammar{
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2779, col: 5, offset: 88238},
+										pos: position{line: 2780, col: 5, offset: 88270},
 										run: (*parser).callonFootnoteElement38,
 										expr: &choiceExpr{
-											pos: position{line: 2780, col: 9, offset: 88248},
+											pos: position{line: 2781, col: 9, offset: 88280},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2780, col: 10, offset: 88249},
+													pos:        position{line: 2781, col: 10, offset: 88281},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2782, col: 13, offset: 88346},
+													pos: position{line: 2783, col: 13, offset: 88378},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2782, col: 13, offset: 88346},
+															pos: position{line: 2783, col: 13, offset: 88378},
 															run: (*parser).callonFootnoteElement42,
 														},
 														&litMatcher{
-															pos:        position{line: 2785, col: 13, offset: 88446},
+															pos:        position{line: 2786, col: 13, offset: 88478},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -20774,20 +20774,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2785, col: 19, offset: 88452},
+													pos:        position{line: 2786, col: 19, offset: 88484},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2788, col: 13, offset: 88490},
+													pos: position{line: 2789, col: 13, offset: 88522},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2788, col: 13, offset: 88490},
+															pos: position{line: 2789, col: 13, offset: 88522},
 															run: (*parser).callonFootnoteElement46,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2791, col: 14, offset: 88583},
+															pos:        position{line: 2792, col: 14, offset: 88615},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -20796,18 +20796,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2793, col: 12, offset: 88627},
+													pos: position{line: 2794, col: 12, offset: 88659},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2793, col: 12, offset: 88627},
+															pos:        position{line: 2794, col: 12, offset: 88659},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2793, col: 16, offset: 88631},
+															pos: position{line: 2794, col: 16, offset: 88663},
 															expr: &litMatcher{
-																pos:        position{line: 2793, col: 17, offset: 88632},
+																pos:        position{line: 2794, col: 17, offset: 88664},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -20845,10 +20845,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 1214, col: 5, offset: 37662},
 													expr: &actionExpr{
-														pos: position{line: 2862, col: 10, offset: 90584},
+														pos: position{line: 2863, col: 10, offset: 90616},
 														run: (*parser).callonFootnoteElement59,
 														expr: &charClassMatcher{
-															pos:        position{line: 2862, col: 10, offset: 90584},
+															pos:        position{line: 2863, col: 10, offset: 90616},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -20859,28 +20859,28 @@ var g = &grammar{
 												&andExpr{
 													pos: position{line: 1214, col: 12, offset: 37669},
 													expr: &choiceExpr{
-														pos: position{line: 2884, col: 8, offset: 90982},
+														pos: position{line: 2885, col: 8, offset: 91014},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2871, col: 12, offset: 90755},
+																pos: position{line: 2872, col: 12, offset: 90787},
 																run: (*parser).callonFootnoteElement63,
 																expr: &choiceExpr{
-																	pos: position{line: 2871, col: 13, offset: 90756},
+																	pos: position{line: 2872, col: 13, offset: 90788},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2871, col: 13, offset: 90756},
+																			pos:        position{line: 2872, col: 13, offset: 90788},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2871, col: 20, offset: 90763},
+																			pos:        position{line: 2872, col: 20, offset: 90795},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2871, col: 29, offset: 90772},
+																			pos:        position{line: 2872, col: 29, offset: 90804},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -20889,9 +20889,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2881, col: 8, offset: 90932},
+																pos: position{line: 2882, col: 8, offset: 90964},
 																expr: &anyMatcher{
-																	line: 2881, col: 9, offset: 90933,
+																	line: 2882, col: 9, offset: 90965,
 																},
 															},
 														},
@@ -21247,23 +21247,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2459, col: 5, offset: 79108},
+										pos: position{line: 2460, col: 5, offset: 79140},
 										run: (*parser).callonFootnoteElement139,
 										expr: &seqExpr{
-											pos: position{line: 2459, col: 5, offset: 79108},
+											pos: position{line: 2460, col: 5, offset: 79140},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2459, col: 5, offset: 79108},
+													pos: position{line: 2460, col: 5, offset: 79140},
 													run: (*parser).callonFootnoteElement141,
 												},
 												&labeledExpr{
-													pos:   position{line: 2462, col: 5, offset: 79184},
+													pos:   position{line: 2463, col: 5, offset: 79216},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2463, col: 9, offset: 79202},
+														pos: position{line: 2464, col: 9, offset: 79234},
 														run: (*parser).callonFootnoteElement143,
 														expr: &charClassMatcher{
-															pos:        position{line: 2463, col: 10, offset: 79203},
+															pos:        position{line: 2464, col: 10, offset: 79235},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -21275,25 +21275,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2871, col: 12, offset: 90755},
+										pos: position{line: 2872, col: 12, offset: 90787},
 										run: (*parser).callonFootnoteElement145,
 										expr: &choiceExpr{
-											pos: position{line: 2871, col: 13, offset: 90756},
+											pos: position{line: 2872, col: 13, offset: 90788},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2871, col: 13, offset: 90756},
+													pos:        position{line: 2872, col: 13, offset: 90788},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2871, col: 20, offset: 90763},
+													pos:        position{line: 2872, col: 20, offset: 90795},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2871, col: 29, offset: 90772},
+													pos:        position{line: 2872, col: 29, offset: 90804},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -21302,10 +21302,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2801, col: 12, offset: 88892},
+										pos: position{line: 2802, col: 12, offset: 88924},
 										run: (*parser).callonFootnoteElement150,
 										expr: &charClassMatcher{
-											pos:        position{line: 2801, col: 12, offset: 88892},
+											pos:        position{line: 2802, col: 12, offset: 88924},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -21437,55 +21437,55 @@ var g = &grammar{
 									pos:   position{line: 1406, col: 5, offset: 45392},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2824, col: 23, offset: 89470},
+										pos: position{line: 2825, col: 23, offset: 89502},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2824, col: 23, offset: 89470},
+											pos: position{line: 2825, col: 23, offset: 89502},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2824, col: 23, offset: 89470},
+													pos: position{line: 2825, col: 23, offset: 89502},
 													expr: &litMatcher{
-														pos:        position{line: 2824, col: 24, offset: 89471},
+														pos:        position{line: 2825, col: 24, offset: 89503},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2824, col: 28, offset: 89475},
+													pos:   position{line: 2825, col: 28, offset: 89507},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2828, col: 11, offset: 89589},
+														pos: position{line: 2829, col: 11, offset: 89621},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2828, col: 12, offset: 89590},
+															pos: position{line: 2829, col: 12, offset: 89622},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2828, col: 12, offset: 89590},
+																	pos:        position{line: 2829, col: 12, offset: 89622},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2828, col: 24, offset: 89602},
+																	pos:        position{line: 2829, col: 24, offset: 89634},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2828, col: 37, offset: 89615},
+																	pos:        position{line: 2829, col: 37, offset: 89647},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2828, col: 48, offset: 89626},
+																	pos:        position{line: 2829, col: 48, offset: 89658},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2828, col: 59, offset: 89637},
+																	pos:        position{line: 2829, col: 59, offset: 89669},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -21495,38 +21495,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2824, col: 44, offset: 89491},
+													pos:   position{line: 2825, col: 44, offset: 89523},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2833, col: 5, offset: 89701},
+														pos: position{line: 2834, col: 5, offset: 89733},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2833, col: 5, offset: 89701},
+															pos:   position{line: 2834, col: 5, offset: 89733},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2833, col: 14, offset: 89710},
+																pos: position{line: 2834, col: 14, offset: 89742},
 																expr: &choiceExpr{
-																	pos: position{line: 2834, col: 9, offset: 89720},
+																	pos: position{line: 2835, col: 9, offset: 89752},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2834, col: 9, offset: 89720},
+																			pos: position{line: 2835, col: 9, offset: 89752},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2834, col: 9, offset: 89720},
+																				pos: position{line: 2835, col: 9, offset: 89752},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2834, col: 9, offset: 89720},
+																						pos: position{line: 2835, col: 9, offset: 89752},
 																						expr: &litMatcher{
-																							pos:        position{line: 2834, col: 10, offset: 89721},
+																							pos:        position{line: 2835, col: 10, offset: 89753},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2835, col: 9, offset: 89749},
+																						pos: position{line: 2836, col: 9, offset: 89781},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2835, col: 10, offset: 89750},
+																							pos:        position{line: 2836, col: 10, offset: 89782},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -21537,27 +21537,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2838, col: 11, offset: 89962},
+																			pos: position{line: 2839, col: 11, offset: 89994},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2838, col: 11, offset: 89962},
+																					pos:        position{line: 2839, col: 11, offset: 89994},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2838, col: 19, offset: 89970},
+																					pos: position{line: 2839, col: 19, offset: 90002},
 																					expr: &seqExpr{
-																						pos: position{line: 2838, col: 21, offset: 89972},
+																						pos: position{line: 2839, col: 21, offset: 90004},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2838, col: 21, offset: 89972},
+																								pos: position{line: 2839, col: 21, offset: 90004},
 																								expr: &actionExpr{
-																									pos: position{line: 2862, col: 10, offset: 90584},
+																									pos: position{line: 2863, col: 10, offset: 90616},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2862, col: 10, offset: 90584},
+																										pos:        position{line: 2863, col: 10, offset: 90616},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -21566,11 +21566,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2838, col: 28, offset: 89979},
+																								pos: position{line: 2839, col: 28, offset: 90011},
 																								expr: &notExpr{
-																									pos: position{line: 2881, col: 8, offset: 90932},
+																									pos: position{line: 2882, col: 8, offset: 90964},
 																									expr: &anyMatcher{
-																										line: 2881, col: 9, offset: 90933,
+																										line: 2882, col: 9, offset: 90965,
 																									},
 																								},
 																							},
@@ -21965,10 +21965,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2841, col: 11, offset: 90099},
+																			pos: position{line: 2842, col: 11, offset: 90131},
 																			run: (*parser).callonLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2841, col: 11, offset: 90099},
+																				pos:        position{line: 2842, col: 11, offset: 90131},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22143,48 +22143,48 @@ var g = &grammar{
 									pos:   position{line: 1419, col: 17, offset: 45807},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2820, col: 13, offset: 89343},
+										pos: position{line: 2821, col: 13, offset: 89375},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2820, col: 13, offset: 89343},
+											pos: position{line: 2821, col: 13, offset: 89375},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2820, col: 13, offset: 89343},
+													pos:   position{line: 2821, col: 13, offset: 89375},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2820, col: 20, offset: 89350},
+														pos: position{line: 2821, col: 20, offset: 89382},
 														expr: &actionExpr{
-															pos: position{line: 2828, col: 11, offset: 89589},
+															pos: position{line: 2829, col: 11, offset: 89621},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2828, col: 12, offset: 89590},
+																pos: position{line: 2829, col: 12, offset: 89622},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2828, col: 12, offset: 89590},
+																		pos:        position{line: 2829, col: 12, offset: 89622},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2828, col: 24, offset: 89602},
+																		pos:        position{line: 2829, col: 24, offset: 89634},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2828, col: 37, offset: 89615},
+																		pos:        position{line: 2829, col: 37, offset: 89647},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2828, col: 48, offset: 89626},
+																		pos:        position{line: 2829, col: 48, offset: 89658},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2828, col: 59, offset: 89637},
+																		pos:        position{line: 2829, col: 59, offset: 89669},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22195,38 +22195,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2820, col: 30, offset: 89360},
+													pos:   position{line: 2821, col: 30, offset: 89392},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2833, col: 5, offset: 89701},
+														pos: position{line: 2834, col: 5, offset: 89733},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2833, col: 5, offset: 89701},
+															pos:   position{line: 2834, col: 5, offset: 89733},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2833, col: 14, offset: 89710},
+																pos: position{line: 2834, col: 14, offset: 89742},
 																expr: &choiceExpr{
-																	pos: position{line: 2834, col: 9, offset: 89720},
+																	pos: position{line: 2835, col: 9, offset: 89752},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2834, col: 9, offset: 89720},
+																			pos: position{line: 2835, col: 9, offset: 89752},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2834, col: 9, offset: 89720},
+																				pos: position{line: 2835, col: 9, offset: 89752},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2834, col: 9, offset: 89720},
+																						pos: position{line: 2835, col: 9, offset: 89752},
 																						expr: &litMatcher{
-																							pos:        position{line: 2834, col: 10, offset: 89721},
+																							pos:        position{line: 2835, col: 10, offset: 89753},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2835, col: 9, offset: 89749},
+																						pos: position{line: 2836, col: 9, offset: 89781},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2835, col: 10, offset: 89750},
+																							pos:        position{line: 2836, col: 10, offset: 89782},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22237,27 +22237,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2838, col: 11, offset: 89962},
+																			pos: position{line: 2839, col: 11, offset: 89994},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2838, col: 11, offset: 89962},
+																					pos:        position{line: 2839, col: 11, offset: 89994},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2838, col: 19, offset: 89970},
+																					pos: position{line: 2839, col: 19, offset: 90002},
 																					expr: &seqExpr{
-																						pos: position{line: 2838, col: 21, offset: 89972},
+																						pos: position{line: 2839, col: 21, offset: 90004},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2838, col: 21, offset: 89972},
+																								pos: position{line: 2839, col: 21, offset: 90004},
 																								expr: &actionExpr{
-																									pos: position{line: 2862, col: 10, offset: 90584},
+																									pos: position{line: 2863, col: 10, offset: 90616},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2862, col: 10, offset: 90584},
+																										pos:        position{line: 2863, col: 10, offset: 90616},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22266,11 +22266,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2838, col: 28, offset: 89979},
+																								pos: position{line: 2839, col: 28, offset: 90011},
 																								expr: &notExpr{
-																									pos: position{line: 2881, col: 8, offset: 90932},
+																									pos: position{line: 2882, col: 8, offset: 90964},
 																									expr: &anyMatcher{
-																										line: 2881, col: 9, offset: 90933,
+																										line: 2882, col: 9, offset: 90965,
 																									},
 																								},
 																							},
@@ -22665,10 +22665,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2841, col: 11, offset: 90099},
+																			pos: position{line: 2842, col: 11, offset: 90131},
 																			run: (*parser).callonRelativeLink115,
 																			expr: &litMatcher{
-																				pos:        position{line: 2841, col: 11, offset: 90099},
+																				pos:        position{line: 2842, col: 11, offset: 90131},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22711,48 +22711,48 @@ var g = &grammar{
 									pos:   position{line: 1424, col: 13, offset: 45974},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2820, col: 13, offset: 89343},
+										pos: position{line: 2821, col: 13, offset: 89375},
 										run: (*parser).callonRelativeLink123,
 										expr: &seqExpr{
-											pos: position{line: 2820, col: 13, offset: 89343},
+											pos: position{line: 2821, col: 13, offset: 89375},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2820, col: 13, offset: 89343},
+													pos:   position{line: 2821, col: 13, offset: 89375},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2820, col: 20, offset: 89350},
+														pos: position{line: 2821, col: 20, offset: 89382},
 														expr: &actionExpr{
-															pos: position{line: 2828, col: 11, offset: 89589},
+															pos: position{line: 2829, col: 11, offset: 89621},
 															run: (*parser).callonRelativeLink127,
 															expr: &choiceExpr{
-																pos: position{line: 2828, col: 12, offset: 89590},
+																pos: position{line: 2829, col: 12, offset: 89622},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2828, col: 12, offset: 89590},
+																		pos:        position{line: 2829, col: 12, offset: 89622},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2828, col: 24, offset: 89602},
+																		pos:        position{line: 2829, col: 24, offset: 89634},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2828, col: 37, offset: 89615},
+																		pos:        position{line: 2829, col: 37, offset: 89647},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2828, col: 48, offset: 89626},
+																		pos:        position{line: 2829, col: 48, offset: 89658},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2828, col: 59, offset: 89637},
+																		pos:        position{line: 2829, col: 59, offset: 89669},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22763,38 +22763,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2820, col: 30, offset: 89360},
+													pos:   position{line: 2821, col: 30, offset: 89392},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2833, col: 5, offset: 89701},
+														pos: position{line: 2834, col: 5, offset: 89733},
 														run: (*parser).callonRelativeLink135,
 														expr: &labeledExpr{
-															pos:   position{line: 2833, col: 5, offset: 89701},
+															pos:   position{line: 2834, col: 5, offset: 89733},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2833, col: 14, offset: 89710},
+																pos: position{line: 2834, col: 14, offset: 89742},
 																expr: &choiceExpr{
-																	pos: position{line: 2834, col: 9, offset: 89720},
+																	pos: position{line: 2835, col: 9, offset: 89752},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2834, col: 9, offset: 89720},
+																			pos: position{line: 2835, col: 9, offset: 89752},
 																			run: (*parser).callonRelativeLink139,
 																			expr: &seqExpr{
-																				pos: position{line: 2834, col: 9, offset: 89720},
+																				pos: position{line: 2835, col: 9, offset: 89752},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2834, col: 9, offset: 89720},
+																						pos: position{line: 2835, col: 9, offset: 89752},
 																						expr: &litMatcher{
-																							pos:        position{line: 2834, col: 10, offset: 89721},
+																							pos:        position{line: 2835, col: 10, offset: 89753},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2835, col: 9, offset: 89749},
+																						pos: position{line: 2836, col: 9, offset: 89781},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2835, col: 10, offset: 89750},
+																							pos:        position{line: 2836, col: 10, offset: 89782},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22805,27 +22805,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2838, col: 11, offset: 89962},
+																			pos: position{line: 2839, col: 11, offset: 89994},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2838, col: 11, offset: 89962},
+																					pos:        position{line: 2839, col: 11, offset: 89994},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2838, col: 19, offset: 89970},
+																					pos: position{line: 2839, col: 19, offset: 90002},
 																					expr: &seqExpr{
-																						pos: position{line: 2838, col: 21, offset: 89972},
+																						pos: position{line: 2839, col: 21, offset: 90004},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2838, col: 21, offset: 89972},
+																								pos: position{line: 2839, col: 21, offset: 90004},
 																								expr: &actionExpr{
-																									pos: position{line: 2862, col: 10, offset: 90584},
+																									pos: position{line: 2863, col: 10, offset: 90616},
 																									run: (*parser).callonRelativeLink150,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2862, col: 10, offset: 90584},
+																										pos:        position{line: 2863, col: 10, offset: 90616},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22834,11 +22834,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2838, col: 28, offset: 89979},
+																								pos: position{line: 2839, col: 28, offset: 90011},
 																								expr: &notExpr{
-																									pos: position{line: 2881, col: 8, offset: 90932},
+																									pos: position{line: 2882, col: 8, offset: 90964},
 																									expr: &anyMatcher{
-																										line: 2881, col: 9, offset: 90933,
+																										line: 2882, col: 9, offset: 90965,
 																									},
 																								},
 																							},
@@ -23233,10 +23233,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2841, col: 11, offset: 90099},
+																			pos: position{line: 2842, col: 11, offset: 90131},
 																			run: (*parser).callonRelativeLink232,
 																			expr: &litMatcher{
-																				pos:        position{line: 2841, col: 11, offset: 90099},
+																				pos:        position{line: 2842, col: 11, offset: 90131},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23288,55 +23288,55 @@ var g = &grammar{
 									pos:   position{line: 1431, col: 9, offset: 46283},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2824, col: 23, offset: 89470},
+										pos: position{line: 2825, col: 23, offset: 89502},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2824, col: 23, offset: 89470},
+											pos: position{line: 2825, col: 23, offset: 89502},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2824, col: 23, offset: 89470},
+													pos: position{line: 2825, col: 23, offset: 89502},
 													expr: &litMatcher{
-														pos:        position{line: 2824, col: 24, offset: 89471},
+														pos:        position{line: 2825, col: 24, offset: 89503},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2824, col: 28, offset: 89475},
+													pos:   position{line: 2825, col: 28, offset: 89507},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2828, col: 11, offset: 89589},
+														pos: position{line: 2829, col: 11, offset: 89621},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2828, col: 12, offset: 89590},
+															pos: position{line: 2829, col: 12, offset: 89622},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2828, col: 12, offset: 89590},
+																	pos:        position{line: 2829, col: 12, offset: 89622},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2828, col: 24, offset: 89602},
+																	pos:        position{line: 2829, col: 24, offset: 89634},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2828, col: 37, offset: 89615},
+																	pos:        position{line: 2829, col: 37, offset: 89647},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2828, col: 48, offset: 89626},
+																	pos:        position{line: 2829, col: 48, offset: 89658},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2828, col: 59, offset: 89637},
+																	pos:        position{line: 2829, col: 59, offset: 89669},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23346,38 +23346,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2824, col: 44, offset: 89491},
+													pos:   position{line: 2825, col: 44, offset: 89523},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2833, col: 5, offset: 89701},
+														pos: position{line: 2834, col: 5, offset: 89733},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2833, col: 5, offset: 89701},
+															pos:   position{line: 2834, col: 5, offset: 89733},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2833, col: 14, offset: 89710},
+																pos: position{line: 2834, col: 14, offset: 89742},
 																expr: &choiceExpr{
-																	pos: position{line: 2834, col: 9, offset: 89720},
+																	pos: position{line: 2835, col: 9, offset: 89752},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2834, col: 9, offset: 89720},
+																			pos: position{line: 2835, col: 9, offset: 89752},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2834, col: 9, offset: 89720},
+																				pos: position{line: 2835, col: 9, offset: 89752},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2834, col: 9, offset: 89720},
+																						pos: position{line: 2835, col: 9, offset: 89752},
 																						expr: &litMatcher{
-																							pos:        position{line: 2834, col: 10, offset: 89721},
+																							pos:        position{line: 2835, col: 10, offset: 89753},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2835, col: 9, offset: 89749},
+																						pos: position{line: 2836, col: 9, offset: 89781},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2835, col: 10, offset: 89750},
+																							pos:        position{line: 2836, col: 10, offset: 89782},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23388,27 +23388,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2838, col: 11, offset: 89962},
+																			pos: position{line: 2839, col: 11, offset: 89994},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2838, col: 11, offset: 89962},
+																					pos:        position{line: 2839, col: 11, offset: 89994},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2838, col: 19, offset: 89970},
+																					pos: position{line: 2839, col: 19, offset: 90002},
 																					expr: &seqExpr{
-																						pos: position{line: 2838, col: 21, offset: 89972},
+																						pos: position{line: 2839, col: 21, offset: 90004},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2838, col: 21, offset: 89972},
+																								pos: position{line: 2839, col: 21, offset: 90004},
 																								expr: &actionExpr{
-																									pos: position{line: 2862, col: 10, offset: 90584},
+																									pos: position{line: 2863, col: 10, offset: 90616},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2862, col: 10, offset: 90584},
+																										pos:        position{line: 2863, col: 10, offset: 90616},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23417,11 +23417,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2838, col: 28, offset: 89979},
+																								pos: position{line: 2839, col: 28, offset: 90011},
 																								expr: &notExpr{
-																									pos: position{line: 2881, col: 8, offset: 90932},
+																									pos: position{line: 2882, col: 8, offset: 90964},
 																									expr: &anyMatcher{
-																										line: 2881, col: 9, offset: 90933,
+																										line: 2882, col: 9, offset: 90965,
 																									},
 																								},
 																							},
@@ -23816,10 +23816,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2841, col: 11, offset: 90099},
+																			pos: position{line: 2842, col: 11, offset: 90131},
 																			run: (*parser).callonExternalLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2841, col: 11, offset: 90099},
+																				pos:        position{line: 2842, col: 11, offset: 90131},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23859,55 +23859,55 @@ var g = &grammar{
 									pos:   position{line: 1436, col: 5, offset: 46453},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2824, col: 23, offset: 89470},
+										pos: position{line: 2825, col: 23, offset: 89502},
 										run: (*parser).callonExternalLink124,
 										expr: &seqExpr{
-											pos: position{line: 2824, col: 23, offset: 89470},
+											pos: position{line: 2825, col: 23, offset: 89502},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2824, col: 23, offset: 89470},
+													pos: position{line: 2825, col: 23, offset: 89502},
 													expr: &litMatcher{
-														pos:        position{line: 2824, col: 24, offset: 89471},
+														pos:        position{line: 2825, col: 24, offset: 89503},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2824, col: 28, offset: 89475},
+													pos:   position{line: 2825, col: 28, offset: 89507},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2828, col: 11, offset: 89589},
+														pos: position{line: 2829, col: 11, offset: 89621},
 														run: (*parser).callonExternalLink129,
 														expr: &choiceExpr{
-															pos: position{line: 2828, col: 12, offset: 89590},
+															pos: position{line: 2829, col: 12, offset: 89622},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2828, col: 12, offset: 89590},
+																	pos:        position{line: 2829, col: 12, offset: 89622},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2828, col: 24, offset: 89602},
+																	pos:        position{line: 2829, col: 24, offset: 89634},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2828, col: 37, offset: 89615},
+																	pos:        position{line: 2829, col: 37, offset: 89647},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2828, col: 48, offset: 89626},
+																	pos:        position{line: 2829, col: 48, offset: 89658},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2828, col: 59, offset: 89637},
+																	pos:        position{line: 2829, col: 59, offset: 89669},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23917,38 +23917,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2824, col: 44, offset: 89491},
+													pos:   position{line: 2825, col: 44, offset: 89523},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2833, col: 5, offset: 89701},
+														pos: position{line: 2834, col: 5, offset: 89733},
 														run: (*parser).callonExternalLink137,
 														expr: &labeledExpr{
-															pos:   position{line: 2833, col: 5, offset: 89701},
+															pos:   position{line: 2834, col: 5, offset: 89733},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2833, col: 14, offset: 89710},
+																pos: position{line: 2834, col: 14, offset: 89742},
 																expr: &choiceExpr{
-																	pos: position{line: 2834, col: 9, offset: 89720},
+																	pos: position{line: 2835, col: 9, offset: 89752},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2834, col: 9, offset: 89720},
+																			pos: position{line: 2835, col: 9, offset: 89752},
 																			run: (*parser).callonExternalLink141,
 																			expr: &seqExpr{
-																				pos: position{line: 2834, col: 9, offset: 89720},
+																				pos: position{line: 2835, col: 9, offset: 89752},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2834, col: 9, offset: 89720},
+																						pos: position{line: 2835, col: 9, offset: 89752},
 																						expr: &litMatcher{
-																							pos:        position{line: 2834, col: 10, offset: 89721},
+																							pos:        position{line: 2835, col: 10, offset: 89753},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2835, col: 9, offset: 89749},
+																						pos: position{line: 2836, col: 9, offset: 89781},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2835, col: 10, offset: 89750},
+																							pos:        position{line: 2836, col: 10, offset: 89782},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23959,27 +23959,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2838, col: 11, offset: 89962},
+																			pos: position{line: 2839, col: 11, offset: 89994},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2838, col: 11, offset: 89962},
+																					pos:        position{line: 2839, col: 11, offset: 89994},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2838, col: 19, offset: 89970},
+																					pos: position{line: 2839, col: 19, offset: 90002},
 																					expr: &seqExpr{
-																						pos: position{line: 2838, col: 21, offset: 89972},
+																						pos: position{line: 2839, col: 21, offset: 90004},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2838, col: 21, offset: 89972},
+																								pos: position{line: 2839, col: 21, offset: 90004},
 																								expr: &actionExpr{
-																									pos: position{line: 2862, col: 10, offset: 90584},
+																									pos: position{line: 2863, col: 10, offset: 90616},
 																									run: (*parser).callonExternalLink152,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2862, col: 10, offset: 90584},
+																										pos:        position{line: 2863, col: 10, offset: 90616},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23988,11 +23988,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2838, col: 28, offset: 89979},
+																								pos: position{line: 2839, col: 28, offset: 90011},
 																								expr: &notExpr{
-																									pos: position{line: 2881, col: 8, offset: 90932},
+																									pos: position{line: 2882, col: 8, offset: 90964},
 																									expr: &anyMatcher{
-																										line: 2881, col: 9, offset: 90933,
+																										line: 2882, col: 9, offset: 90965,
 																									},
 																								},
 																							},
@@ -24387,10 +24387,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2841, col: 11, offset: 90099},
+																			pos: position{line: 2842, col: 11, offset: 90131},
 																			run: (*parser).callonExternalLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2841, col: 11, offset: 90099},
+																				pos:        position{line: 2842, col: 11, offset: 90131},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24456,10 +24456,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1577, col: 5, offset: 50996},
 																	expr: &actionExpr{
-																		pos: position{line: 2862, col: 10, offset: 90584},
+																		pos: position{line: 2863, col: 10, offset: 90616},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2862, col: 10, offset: 90584},
+																			pos:        position{line: 2863, col: 10, offset: 90616},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24626,12 +24626,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2866, col: 11, offset: 90645},
+																	pos: position{line: 2867, col: 11, offset: 90677},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2866, col: 11, offset: 90645},
+																		pos: position{line: 2867, col: 11, offset: 90677},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2866, col: 11, offset: 90645},
+																			pos:        position{line: 2867, col: 11, offset: 90677},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24674,28 +24674,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2884, col: 8, offset: 90982},
+																	pos: position{line: 2885, col: 8, offset: 91014},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2871, col: 12, offset: 90755},
+																			pos: position{line: 2872, col: 12, offset: 90787},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2871, col: 13, offset: 90756},
+																				pos: position{line: 2872, col: 13, offset: 90788},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 13, offset: 90756},
+																						pos:        position{line: 2872, col: 13, offset: 90788},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 20, offset: 90763},
+																						pos:        position{line: 2872, col: 20, offset: 90795},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 29, offset: 90772},
+																						pos:        position{line: 2872, col: 29, offset: 90804},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -24704,9 +24704,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2881, col: 8, offset: 90932},
+																			pos: position{line: 2882, col: 8, offset: 90964},
 																			expr: &anyMatcher{
-																				line: 2881, col: 9, offset: 90933,
+																				line: 2882, col: 9, offset: 90965,
 																			},
 																		},
 																	},
@@ -24736,10 +24736,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1627, col: 5, offset: 52958},
 																	expr: &actionExpr{
-																		pos: position{line: 2862, col: 10, offset: 90584},
+																		pos: position{line: 2863, col: 10, offset: 90616},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2862, col: 10, offset: 90584},
+																			pos:        position{line: 2863, col: 10, offset: 90616},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24780,12 +24780,12 @@ var g = &grammar{
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2866, col: 11, offset: 90645},
+																	pos: position{line: 2867, col: 11, offset: 90677},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2866, col: 11, offset: 90645},
+																		pos: position{line: 2867, col: 11, offset: 90677},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2866, col: 11, offset: 90645},
+																			pos:        position{line: 2867, col: 11, offset: 90677},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24857,12 +24857,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2866, col: 11, offset: 90645},
+																		pos: position{line: 2867, col: 11, offset: 90677},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2866, col: 11, offset: 90645},
+																			pos: position{line: 2867, col: 11, offset: 90677},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2866, col: 11, offset: 90645},
+																				pos:        position{line: 2867, col: 11, offset: 90677},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -24906,28 +24906,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2884, col: 8, offset: 90982},
+																	pos: position{line: 2885, col: 8, offset: 91014},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2871, col: 12, offset: 90755},
+																			pos: position{line: 2872, col: 12, offset: 90787},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2871, col: 13, offset: 90756},
+																				pos: position{line: 2872, col: 13, offset: 90788},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 13, offset: 90756},
+																						pos:        position{line: 2872, col: 13, offset: 90788},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 20, offset: 90763},
+																						pos:        position{line: 2872, col: 20, offset: 90795},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 29, offset: 90772},
+																						pos:        position{line: 2872, col: 29, offset: 90804},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -24936,9 +24936,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2881, col: 8, offset: 90932},
+																			pos: position{line: 2882, col: 8, offset: 90964},
 																			expr: &anyMatcher{
-																				line: 2881, col: 9, offset: 90933,
+																				line: 2882, col: 9, offset: 90965,
 																			},
 																		},
 																	},
@@ -24951,36 +24951,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1710, col: 5, offset: 55298},
+										pos: position{line: 1711, col: 5, offset: 55330},
 										run: (*parser).callonListElements115,
 										expr: &seqExpr{
-											pos: position{line: 1710, col: 5, offset: 55298},
+											pos: position{line: 1711, col: 5, offset: 55330},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1710, col: 5, offset: 55298},
+													pos:   position{line: 1711, col: 5, offset: 55330},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1716, col: 5, offset: 55495},
+														pos: position{line: 1717, col: 5, offset: 55527},
 														run: (*parser).callonListElements118,
 														expr: &seqExpr{
-															pos: position{line: 1716, col: 5, offset: 55495},
+															pos: position{line: 1717, col: 5, offset: 55527},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1716, col: 5, offset: 55495},
+																	pos:        position{line: 1717, col: 5, offset: 55527},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1716, col: 9, offset: 55499},
+																	pos:   position{line: 1717, col: 9, offset: 55531},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1716, col: 14, offset: 55504},
+																		pos: position{line: 1717, col: 14, offset: 55536},
 																		run: (*parser).callonListElements122,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1716, col: 14, offset: 55504},
+																			pos: position{line: 1717, col: 14, offset: 55536},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1716, col: 14, offset: 55504},
+																				pos:        position{line: 1717, col: 14, offset: 55536},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -24990,18 +24990,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1716, col: 62, offset: 55552},
+																	pos:        position{line: 1717, col: 62, offset: 55584},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2866, col: 11, offset: 90645},
+																	pos: position{line: 2867, col: 11, offset: 90677},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2866, col: 11, offset: 90645},
+																		pos: position{line: 2867, col: 11, offset: 90677},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2866, col: 11, offset: 90645},
+																			pos:        position{line: 2867, col: 11, offset: 90677},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25014,7 +25014,7 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1711, col: 5, offset: 55334},
+													pos:   position{line: 1712, col: 5, offset: 55366},
 													label: "description",
 													expr: &actionExpr{
 														pos: position{line: 1518, col: 5, offset: 49294},
@@ -25044,28 +25044,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2884, col: 8, offset: 90982},
+																	pos: position{line: 2885, col: 8, offset: 91014},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2871, col: 12, offset: 90755},
+																			pos: position{line: 2872, col: 12, offset: 90787},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2871, col: 13, offset: 90756},
+																				pos: position{line: 2872, col: 13, offset: 90788},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 13, offset: 90756},
+																						pos:        position{line: 2872, col: 13, offset: 90788},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 20, offset: 90763},
+																						pos:        position{line: 2872, col: 20, offset: 90795},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 29, offset: 90772},
+																						pos:        position{line: 2872, col: 29, offset: 90804},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25074,9 +25074,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2881, col: 8, offset: 90932},
+																			pos: position{line: 2882, col: 8, offset: 90964},
 																			expr: &anyMatcher{
-																				line: 2881, col: 9, offset: 90933,
+																				line: 2882, col: 9, offset: 90965,
 																			},
 																		},
 																	},
@@ -25100,88 +25100,116 @@ var g = &grammar{
 													expr: &actionExpr{
 														pos: position{line: 1662, col: 5, offset: 53977},
 														run: (*parser).callonListElements148,
-														expr: &oneOrMoreExpr{
+														expr: &seqExpr{
 															pos: position{line: 1662, col: 5, offset: 53977},
-															expr: &seqExpr{
-																pos: position{line: 1662, col: 6, offset: 53978},
-																exprs: []interface{}{
-																	&notExpr{
-																		pos: position{line: 1662, col: 6, offset: 53978},
-																		expr: &actionExpr{
-																			pos: position{line: 1667, col: 5, offset: 54128},
-																			run: (*parser).callonListElements152,
-																			expr: &seqExpr{
-																				pos: position{line: 1667, col: 5, offset: 54128},
-																				exprs: []interface{}{
-																					&labeledExpr{
-																						pos:   position{line: 1667, col: 5, offset: 54128},
-																						label: "separator",
-																						expr: &actionExpr{
-																							pos: position{line: 1667, col: 16, offset: 54139},
-																							run: (*parser).callonListElements155,
-																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1667, col: 16, offset: 54139},
-																								expr: &litMatcher{
-																									pos:        position{line: 1667, col: 17, offset: 54140},
-																									val:        ":",
-																									ignoreCase: false,
-																									want:       "\":\"",
-																								},
-																							},
-																						},
-																					},
-																					&andCodeExpr{
-																						pos: position{line: 1670, col: 5, offset: 54197},
-																						run: (*parser).callonListElements158,
-																					},
+															exprs: []interface{}{
+																&notExpr{
+																	pos: position{line: 1662, col: 5, offset: 53977},
+																	expr: &seqExpr{
+																		pos: position{line: 2478, col: 31, offset: 79815},
+																		exprs: []interface{}{
+																			&litMatcher{
+																				pos:        position{line: 2478, col: 31, offset: 79815},
+																				val:        "//",
+																				ignoreCase: false,
+																				want:       "\"//\"",
+																			},
+																			&notExpr{
+																				pos: position{line: 2478, col: 36, offset: 79820},
+																				expr: &litMatcher{
+																					pos:        position{line: 2478, col: 37, offset: 79821},
+																					val:        "//",
+																					ignoreCase: false,
+																					want:       "\"//\"",
 																				},
 																			},
 																		},
 																	},
-																	&notExpr{
-																		pos: position{line: 1662, col: 35, offset: 54007},
-																		expr: &choiceExpr{
-																			pos: position{line: 2884, col: 8, offset: 90982},
-																			alternatives: []interface{}{
-																				&actionExpr{
-																					pos: position{line: 2871, col: 12, offset: 90755},
-																					run: (*parser).callonListElements161,
-																					expr: &choiceExpr{
-																						pos: position{line: 2871, col: 13, offset: 90756},
-																						alternatives: []interface{}{
-																							&litMatcher{
-																								pos:        position{line: 2871, col: 13, offset: 90756},
-																								val:        "\n",
-																								ignoreCase: false,
-																								want:       "\"\\n\"",
-																							},
-																							&litMatcher{
-																								pos:        position{line: 2871, col: 20, offset: 90763},
-																								val:        "\r\n",
-																								ignoreCase: false,
-																								want:       "\"\\r\\n\"",
+																},
+																&oneOrMoreExpr{
+																	pos: position{line: 1663, col: 5, offset: 54009},
+																	expr: &seqExpr{
+																		pos: position{line: 1663, col: 6, offset: 54010},
+																		exprs: []interface{}{
+																			&notExpr{
+																				pos: position{line: 1663, col: 6, offset: 54010},
+																				expr: &actionExpr{
+																					pos: position{line: 1668, col: 5, offset: 54160},
+																					run: (*parser).callonListElements158,
+																					expr: &seqExpr{
+																						pos: position{line: 1668, col: 5, offset: 54160},
+																						exprs: []interface{}{
+																							&labeledExpr{
+																								pos:   position{line: 1668, col: 5, offset: 54160},
+																								label: "separator",
+																								expr: &actionExpr{
+																									pos: position{line: 1668, col: 16, offset: 54171},
+																									run: (*parser).callonListElements161,
+																									expr: &oneOrMoreExpr{
+																										pos: position{line: 1668, col: 16, offset: 54171},
+																										expr: &litMatcher{
+																											pos:        position{line: 1668, col: 17, offset: 54172},
+																											val:        ":",
+																											ignoreCase: false,
+																											want:       "\":\"",
+																										},
+																									},
+																								},
 																							},
-																							&litMatcher{
-																								pos:        position{line: 2871, col: 29, offset: 90772},
-																								val:        "\r",
-																								ignoreCase: false,
-																								want:       "\"\\r\"",
+																							&andCodeExpr{
+																								pos: position{line: 1671, col: 5, offset: 54229},
+																								run: (*parser).callonListElements164,
 																							},
 																						},
 																					},
 																				},
-																				&notExpr{
-																					pos: position{line: 2881, col: 8, offset: 90932},
-																					expr: &anyMatcher{
-																						line: 2881, col: 9, offset: 90933,
+																			},
+																			&notExpr{
+																				pos: position{line: 1663, col: 35, offset: 54039},
+																				expr: &choiceExpr{
+																					pos: position{line: 2885, col: 8, offset: 91014},
+																					alternatives: []interface{}{
+																						&actionExpr{
+																							pos: position{line: 2872, col: 12, offset: 90787},
+																							run: (*parser).callonListElements167,
+																							expr: &choiceExpr{
+																								pos: position{line: 2872, col: 13, offset: 90788},
+																								alternatives: []interface{}{
+																									&litMatcher{
+																										pos:        position{line: 2872, col: 13, offset: 90788},
+																										val:        "\n",
+																										ignoreCase: false,
+																										want:       "\"\\n\"",
+																									},
+																									&litMatcher{
+																										pos:        position{line: 2872, col: 20, offset: 90795},
+																										val:        "\r\n",
+																										ignoreCase: false,
+																										want:       "\"\\r\\n\"",
+																									},
+																									&litMatcher{
+																										pos:        position{line: 2872, col: 29, offset: 90804},
+																										val:        "\r",
+																										ignoreCase: false,
+																										want:       "\"\\r\"",
+																									},
+																								},
+																							},
+																						},
+																						&notExpr{
+																							pos: position{line: 2882, col: 8, offset: 90964},
+																							expr: &anyMatcher{
+																								line: 2882, col: 9, offset: 90965,
+																							},
+																						},
 																					},
 																				},
 																			},
+																			&anyMatcher{
+																				line: 1663, col: 40, offset: 54044,
+																			},
 																		},
 																	},
-																	&anyMatcher{
-																		line: 1662, col: 40, offset: 54012,
-																	},
 																},
 															},
 														},
@@ -25191,21 +25219,21 @@ var g = &grammar{
 													pos:   position{line: 1655, col: 5, offset: 53686},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1667, col: 5, offset: 54128},
-														run: (*parser).callonListElements170,
+														pos: position{line: 1668, col: 5, offset: 54160},
+														run: (*parser).callonListElements176,
 														expr: &seqExpr{
-															pos: position{line: 1667, col: 5, offset: 54128},
+															pos: position{line: 1668, col: 5, offset: 54160},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1667, col: 5, offset: 54128},
+																	pos:   position{line: 1668, col: 5, offset: 54160},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1667, col: 16, offset: 54139},
-																		run: (*parser).callonListElements173,
+																		pos: position{line: 1668, col: 16, offset: 54171},
+																		run: (*parser).callonListElements179,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1667, col: 16, offset: 54139},
+																			pos: position{line: 1668, col: 16, offset: 54171},
 																			expr: &litMatcher{
-																				pos:        position{line: 1667, col: 17, offset: 54140},
+																				pos:        position{line: 1668, col: 17, offset: 54172},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -25214,8 +25242,8 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1670, col: 5, offset: 54197},
-																	run: (*parser).callonListElements176,
+																	pos: position{line: 1671, col: 5, offset: 54229},
+																	run: (*parser).callonListElements182,
 																},
 															},
 														},
@@ -25225,21 +25253,21 @@ var g = &grammar{
 													pos:   position{line: 1656, col: 5, offset: 53731},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1678, col: 5, offset: 54446},
+														pos: position{line: 1679, col: 5, offset: 54478},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1680, col: 9, offset: 54512},
-																run: (*parser).callonListElements179,
+																pos: position{line: 1681, col: 9, offset: 54544},
+																run: (*parser).callonListElements185,
 																expr: &seqExpr{
-																	pos: position{line: 1680, col: 9, offset: 54512},
+																	pos: position{line: 1681, col: 9, offset: 54544},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1680, col: 9, offset: 54512},
+																			pos: position{line: 1681, col: 9, offset: 54544},
 																			expr: &actionExpr{
-																				pos: position{line: 2862, col: 10, offset: 90584},
-																				run: (*parser).callonListElements182,
+																				pos: position{line: 2863, col: 10, offset: 90616},
+																				run: (*parser).callonListElements188,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2862, col: 10, offset: 90584},
+																					pos:        position{line: 2863, col: 10, offset: 90616},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25248,28 +25276,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2884, col: 8, offset: 90982},
+																			pos: position{line: 2885, col: 8, offset: 91014},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2871, col: 12, offset: 90755},
-																					run: (*parser).callonListElements185,
+																					pos: position{line: 2872, col: 12, offset: 90787},
+																					run: (*parser).callonListElements191,
 																					expr: &choiceExpr{
-																						pos: position{line: 2871, col: 13, offset: 90756},
+																						pos: position{line: 2872, col: 13, offset: 90788},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2871, col: 13, offset: 90756},
+																								pos:        position{line: 2872, col: 13, offset: 90788},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2871, col: 20, offset: 90763},
+																								pos:        position{line: 2872, col: 20, offset: 90795},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2871, col: 29, offset: 90772},
+																								pos:        position{line: 2872, col: 29, offset: 90804},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25278,34 +25306,34 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2881, col: 8, offset: 90932},
+																					pos: position{line: 2882, col: 8, offset: 90964},
 																					expr: &anyMatcher{
-																						line: 2881, col: 9, offset: 90933,
+																						line: 2882, col: 9, offset: 90965,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1681, col: 9, offset: 54531},
+																			pos: position{line: 1682, col: 9, offset: 54563},
 																			expr: &actionExpr{
 																				pos: position{line: 677, col: 14, offset: 21557},
-																				run: (*parser).callonListElements193,
+																				run: (*parser).callonListElements199,
 																				expr: &seqExpr{
 																					pos: position{line: 677, col: 14, offset: 21557},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2879, col: 11, offset: 90918},
+																							pos: position{line: 2880, col: 11, offset: 90950},
 																							expr: &anyMatcher{
-																								line: 2879, col: 13, offset: 90920,
+																								line: 2880, col: 13, offset: 90952,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 677, col: 21, offset: 21564},
 																							expr: &actionExpr{
-																								pos: position{line: 2862, col: 10, offset: 90584},
-																								run: (*parser).callonListElements198,
+																								pos: position{line: 2863, col: 10, offset: 90616},
+																								run: (*parser).callonListElements204,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2862, col: 10, offset: 90584},
+																									pos:        position{line: 2863, col: 10, offset: 90616},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25314,28 +25342,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2884, col: 8, offset: 90982},
+																							pos: position{line: 2885, col: 8, offset: 91014},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2871, col: 12, offset: 90755},
-																									run: (*parser).callonListElements201,
+																									pos: position{line: 2872, col: 12, offset: 90787},
+																									run: (*parser).callonListElements207,
 																									expr: &choiceExpr{
-																										pos: position{line: 2871, col: 13, offset: 90756},
+																										pos: position{line: 2872, col: 13, offset: 90788},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 13, offset: 90756},
+																												pos:        position{line: 2872, col: 13, offset: 90788},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 20, offset: 90763},
+																												pos:        position{line: 2872, col: 20, offset: 90795},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 29, offset: 90772},
+																												pos:        position{line: 2872, col: 29, offset: 90804},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25344,9 +25372,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2881, col: 8, offset: 90932},
+																									pos: position{line: 2882, col: 8, offset: 90964},
 																									expr: &anyMatcher{
-																										line: 2881, col: 9, offset: 90933,
+																										line: 2882, col: 9, offset: 90965,
 																									},
 																								},
 																							},
@@ -25359,18 +25387,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1687, col: 9, offset: 54660},
-																run: (*parser).callonListElements208,
+																pos: position{line: 1688, col: 9, offset: 54692},
+																run: (*parser).callonListElements214,
 																expr: &seqExpr{
-																	pos: position{line: 1687, col: 9, offset: 54660},
+																	pos: position{line: 1688, col: 9, offset: 54692},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2866, col: 11, offset: 90645},
-																			run: (*parser).callonListElements210,
+																			pos: position{line: 2867, col: 11, offset: 90677},
+																			run: (*parser).callonListElements216,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2866, col: 11, offset: 90645},
+																				pos: position{line: 2867, col: 11, offset: 90677},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2866, col: 11, offset: 90645},
+																					pos:        position{line: 2867, col: 11, offset: 90677},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25379,15 +25407,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1688, col: 9, offset: 54733},
+																			pos:   position{line: 1689, col: 9, offset: 54765},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1688, col: 18, offset: 54742},
-																				run: (*parser).callonListElements214,
+																				pos: position{line: 1689, col: 18, offset: 54774},
+																				run: (*parser).callonListElements220,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1688, col: 18, offset: 54742},
+																					pos: position{line: 1689, col: 18, offset: 54774},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1688, col: 18, offset: 54742},
+																						pos:        position{line: 1689, col: 18, offset: 54774},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -25397,28 +25425,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2884, col: 8, offset: 90982},
+																			pos: position{line: 2885, col: 8, offset: 91014},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2871, col: 12, offset: 90755},
-																					run: (*parser).callonListElements218,
+																					pos: position{line: 2872, col: 12, offset: 90787},
+																					run: (*parser).callonListElements224,
 																					expr: &choiceExpr{
-																						pos: position{line: 2871, col: 13, offset: 90756},
+																						pos: position{line: 2872, col: 13, offset: 90788},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2871, col: 13, offset: 90756},
+																								pos:        position{line: 2872, col: 13, offset: 90788},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2871, col: 20, offset: 90763},
+																								pos:        position{line: 2872, col: 20, offset: 90795},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2871, col: 29, offset: 90772},
+																								pos:        position{line: 2872, col: 29, offset: 90804},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25427,9 +25455,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2881, col: 8, offset: 90932},
+																					pos: position{line: 2882, col: 8, offset: 90964},
 																					expr: &anyMatcher{
-																						line: 2881, col: 9, offset: 90933,
+																						line: 2882, col: 9, offset: 90965,
 																					},
 																				},
 																			},
@@ -25487,9 +25515,9 @@ var g = &grammar{
 					pos: position{line: 1487, col: 5, offset: 48203},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2879, col: 11, offset: 90918},
+							pos: position{line: 2880, col: 11, offset: 90950},
 							expr: &anyMatcher{
-								line: 2879, col: 13, offset: 90920,
+								line: 2880, col: 13, offset: 90952,
 							},
 						},
 						&labeledExpr{
@@ -25513,18 +25541,18 @@ var g = &grammar{
 															pos: position{line: 677, col: 14, offset: 21557},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2879, col: 11, offset: 90918},
+																	pos: position{line: 2880, col: 11, offset: 90950},
 																	expr: &anyMatcher{
-																		line: 2879, col: 13, offset: 90920,
+																		line: 2880, col: 13, offset: 90952,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 677, col: 21, offset: 21564},
 																	expr: &actionExpr{
-																		pos: position{line: 2862, col: 10, offset: 90584},
+																		pos: position{line: 2863, col: 10, offset: 90616},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2862, col: 10, offset: 90584},
+																			pos:        position{line: 2863, col: 10, offset: 90616},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25533,28 +25561,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2884, col: 8, offset: 90982},
+																	pos: position{line: 2885, col: 8, offset: 91014},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2871, col: 12, offset: 90755},
+																			pos: position{line: 2872, col: 12, offset: 90787},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2871, col: 13, offset: 90756},
+																				pos: position{line: 2872, col: 13, offset: 90788},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 13, offset: 90756},
+																						pos:        position{line: 2872, col: 13, offset: 90788},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 20, offset: 90763},
+																						pos:        position{line: 2872, col: 20, offset: 90795},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 29, offset: 90772},
+																						pos:        position{line: 2872, col: 29, offset: 90804},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25563,9 +25591,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2881, col: 8, offset: 90932},
+																			pos: position{line: 2882, col: 8, offset: 90964},
 																			expr: &anyMatcher{
-																				line: 2881, col: 9, offset: 90933,
+																				line: 2882, col: 9, offset: 90965,
 																			},
 																		},
 																	},
@@ -25598,10 +25626,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1577, col: 5, offset: 50996},
 																							expr: &actionExpr{
-																								pos: position{line: 2862, col: 10, offset: 90584},
+																								pos: position{line: 2863, col: 10, offset: 90616},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2862, col: 10, offset: 90584},
+																									pos:        position{line: 2863, col: 10, offset: 90616},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25768,12 +25796,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2866, col: 11, offset: 90645},
+																							pos: position{line: 2867, col: 11, offset: 90677},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2866, col: 11, offset: 90645},
+																								pos: position{line: 2867, col: 11, offset: 90677},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2866, col: 11, offset: 90645},
+																									pos:        position{line: 2867, col: 11, offset: 90677},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25816,28 +25844,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2884, col: 8, offset: 90982},
+																							pos: position{line: 2885, col: 8, offset: 91014},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2871, col: 12, offset: 90755},
+																									pos: position{line: 2872, col: 12, offset: 90787},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2871, col: 13, offset: 90756},
+																										pos: position{line: 2872, col: 13, offset: 90788},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 13, offset: 90756},
+																												pos:        position{line: 2872, col: 13, offset: 90788},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 20, offset: 90763},
+																												pos:        position{line: 2872, col: 20, offset: 90795},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 29, offset: 90772},
+																												pos:        position{line: 2872, col: 29, offset: 90804},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25846,9 +25874,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2881, col: 8, offset: 90932},
+																									pos: position{line: 2882, col: 8, offset: 90964},
 																									expr: &anyMatcher{
-																										line: 2881, col: 9, offset: 90933,
+																										line: 2882, col: 9, offset: 90965,
 																									},
 																								},
 																							},
@@ -25878,10 +25906,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1627, col: 5, offset: 52958},
 																							expr: &actionExpr{
-																								pos: position{line: 2862, col: 10, offset: 90584},
+																								pos: position{line: 2863, col: 10, offset: 90616},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2862, col: 10, offset: 90584},
+																									pos:        position{line: 2863, col: 10, offset: 90616},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25922,12 +25950,12 @@ var g = &grammar{
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2866, col: 11, offset: 90645},
+																							pos: position{line: 2867, col: 11, offset: 90677},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2866, col: 11, offset: 90645},
+																								pos: position{line: 2867, col: 11, offset: 90677},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2866, col: 11, offset: 90645},
+																									pos:        position{line: 2867, col: 11, offset: 90677},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25999,12 +26027,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2866, col: 11, offset: 90645},
+																								pos: position{line: 2867, col: 11, offset: 90677},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2866, col: 11, offset: 90645},
+																									pos: position{line: 2867, col: 11, offset: 90677},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2866, col: 11, offset: 90645},
+																										pos:        position{line: 2867, col: 11, offset: 90677},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -26048,28 +26076,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2884, col: 8, offset: 90982},
+																							pos: position{line: 2885, col: 8, offset: 91014},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2871, col: 12, offset: 90755},
+																									pos: position{line: 2872, col: 12, offset: 90787},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2871, col: 13, offset: 90756},
+																										pos: position{line: 2872, col: 13, offset: 90788},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 13, offset: 90756},
+																												pos:        position{line: 2872, col: 13, offset: 90788},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 20, offset: 90763},
+																												pos:        position{line: 2872, col: 20, offset: 90795},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 29, offset: 90772},
+																												pos:        position{line: 2872, col: 29, offset: 90804},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26078,9 +26106,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2881, col: 8, offset: 90932},
+																									pos: position{line: 2882, col: 8, offset: 90964},
 																									expr: &anyMatcher{
-																										line: 2881, col: 9, offset: 90933,
+																										line: 2882, col: 9, offset: 90965,
 																									},
 																								},
 																							},
@@ -26093,36 +26121,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1710, col: 5, offset: 55298},
+																pos: position{line: 1711, col: 5, offset: 55330},
 																run: (*parser).callonExtraListElement137,
 																expr: &seqExpr{
-																	pos: position{line: 1710, col: 5, offset: 55298},
+																	pos: position{line: 1711, col: 5, offset: 55330},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1710, col: 5, offset: 55298},
+																			pos:   position{line: 1711, col: 5, offset: 55330},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1716, col: 5, offset: 55495},
+																				pos: position{line: 1717, col: 5, offset: 55527},
 																				run: (*parser).callonExtraListElement140,
 																				expr: &seqExpr{
-																					pos: position{line: 1716, col: 5, offset: 55495},
+																					pos: position{line: 1717, col: 5, offset: 55527},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1716, col: 5, offset: 55495},
+																							pos:        position{line: 1717, col: 5, offset: 55527},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1716, col: 9, offset: 55499},
+																							pos:   position{line: 1717, col: 9, offset: 55531},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1716, col: 14, offset: 55504},
+																								pos: position{line: 1717, col: 14, offset: 55536},
 																								run: (*parser).callonExtraListElement144,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1716, col: 14, offset: 55504},
+																									pos: position{line: 1717, col: 14, offset: 55536},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1716, col: 14, offset: 55504},
+																										pos:        position{line: 1717, col: 14, offset: 55536},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -26132,18 +26160,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1716, col: 62, offset: 55552},
+																							pos:        position{line: 1717, col: 62, offset: 55584},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2866, col: 11, offset: 90645},
+																							pos: position{line: 2867, col: 11, offset: 90677},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2866, col: 11, offset: 90645},
+																								pos: position{line: 2867, col: 11, offset: 90677},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2866, col: 11, offset: 90645},
+																									pos:        position{line: 2867, col: 11, offset: 90677},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26156,7 +26184,7 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1711, col: 5, offset: 55334},
+																			pos:   position{line: 1712, col: 5, offset: 55366},
 																			label: "description",
 																			expr: &actionExpr{
 																				pos: position{line: 1518, col: 5, offset: 49294},
@@ -26186,28 +26214,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2884, col: 8, offset: 90982},
+																							pos: position{line: 2885, col: 8, offset: 91014},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2871, col: 12, offset: 90755},
+																									pos: position{line: 2872, col: 12, offset: 90787},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2871, col: 13, offset: 90756},
+																										pos: position{line: 2872, col: 13, offset: 90788},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 13, offset: 90756},
+																												pos:        position{line: 2872, col: 13, offset: 90788},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 20, offset: 90763},
+																												pos:        position{line: 2872, col: 20, offset: 90795},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 29, offset: 90772},
+																												pos:        position{line: 2872, col: 29, offset: 90804},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26216,9 +26244,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2881, col: 8, offset: 90932},
+																									pos: position{line: 2882, col: 8, offset: 90964},
 																									expr: &anyMatcher{
-																										line: 2881, col: 9, offset: 90933,
+																										line: 2882, col: 9, offset: 90965,
 																									},
 																								},
 																							},
@@ -26242,88 +26270,116 @@ var g = &grammar{
 																			expr: &actionExpr{
 																				pos: position{line: 1662, col: 5, offset: 53977},
 																				run: (*parser).callonExtraListElement170,
-																				expr: &oneOrMoreExpr{
+																				expr: &seqExpr{
 																					pos: position{line: 1662, col: 5, offset: 53977},
-																					expr: &seqExpr{
-																						pos: position{line: 1662, col: 6, offset: 53978},
-																						exprs: []interface{}{
-																							&notExpr{
-																								pos: position{line: 1662, col: 6, offset: 53978},
-																								expr: &actionExpr{
-																									pos: position{line: 1667, col: 5, offset: 54128},
-																									run: (*parser).callonExtraListElement174,
-																									expr: &seqExpr{
-																										pos: position{line: 1667, col: 5, offset: 54128},
-																										exprs: []interface{}{
-																											&labeledExpr{
-																												pos:   position{line: 1667, col: 5, offset: 54128},
-																												label: "separator",
-																												expr: &actionExpr{
-																													pos: position{line: 1667, col: 16, offset: 54139},
-																													run: (*parser).callonExtraListElement177,
-																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1667, col: 16, offset: 54139},
-																														expr: &litMatcher{
-																															pos:        position{line: 1667, col: 17, offset: 54140},
-																															val:        ":",
-																															ignoreCase: false,
-																															want:       "\":\"",
-																														},
-																													},
-																												},
-																											},
-																											&andCodeExpr{
-																												pos: position{line: 1670, col: 5, offset: 54197},
-																												run: (*parser).callonExtraListElement180,
-																											},
+																					exprs: []interface{}{
+																						&notExpr{
+																							pos: position{line: 1662, col: 5, offset: 53977},
+																							expr: &seqExpr{
+																								pos: position{line: 2478, col: 31, offset: 79815},
+																								exprs: []interface{}{
+																									&litMatcher{
+																										pos:        position{line: 2478, col: 31, offset: 79815},
+																										val:        "//",
+																										ignoreCase: false,
+																										want:       "\"//\"",
+																									},
+																									&notExpr{
+																										pos: position{line: 2478, col: 36, offset: 79820},
+																										expr: &litMatcher{
+																											pos:        position{line: 2478, col: 37, offset: 79821},
+																											val:        "//",
+																											ignoreCase: false,
+																											want:       "\"//\"",
 																										},
 																									},
 																								},
 																							},
-																							&notExpr{
-																								pos: position{line: 1662, col: 35, offset: 54007},
-																								expr: &choiceExpr{
-																									pos: position{line: 2884, col: 8, offset: 90982},
-																									alternatives: []interface{}{
-																										&actionExpr{
-																											pos: position{line: 2871, col: 12, offset: 90755},
-																											run: (*parser).callonExtraListElement183,
-																											expr: &choiceExpr{
-																												pos: position{line: 2871, col: 13, offset: 90756},
-																												alternatives: []interface{}{
-																													&litMatcher{
-																														pos:        position{line: 2871, col: 13, offset: 90756},
-																														val:        "\n",
-																														ignoreCase: false,
-																														want:       "\"\\n\"",
-																													},
-																													&litMatcher{
-																														pos:        position{line: 2871, col: 20, offset: 90763},
-																														val:        "\r\n",
-																														ignoreCase: false,
-																														want:       "\"\\r\\n\"",
+																						},
+																						&oneOrMoreExpr{
+																							pos: position{line: 1663, col: 5, offset: 54009},
+																							expr: &seqExpr{
+																								pos: position{line: 1663, col: 6, offset: 54010},
+																								exprs: []interface{}{
+																									&notExpr{
+																										pos: position{line: 1663, col: 6, offset: 54010},
+																										expr: &actionExpr{
+																											pos: position{line: 1668, col: 5, offset: 54160},
+																											run: (*parser).callonExtraListElement180,
+																											expr: &seqExpr{
+																												pos: position{line: 1668, col: 5, offset: 54160},
+																												exprs: []interface{}{
+																													&labeledExpr{
+																														pos:   position{line: 1668, col: 5, offset: 54160},
+																														label: "separator",
+																														expr: &actionExpr{
+																															pos: position{line: 1668, col: 16, offset: 54171},
+																															run: (*parser).callonExtraListElement183,
+																															expr: &oneOrMoreExpr{
+																																pos: position{line: 1668, col: 16, offset: 54171},
+																																expr: &litMatcher{
+																																	pos:        position{line: 1668, col: 17, offset: 54172},
+																																	val:        ":",
+																																	ignoreCase: false,
+																																	want:       "\":\"",
+																																},
+																															},
+																														},
 																													},
-																													&litMatcher{
-																														pos:        position{line: 2871, col: 29, offset: 90772},
-																														val:        "\r",
-																														ignoreCase: false,
-																														want:       "\"\\r\"",
+																													&andCodeExpr{
+																														pos: position{line: 1671, col: 5, offset: 54229},
+																														run: (*parser).callonExtraListElement186,
 																													},
 																												},
 																											},
 																										},
-																										&notExpr{
-																											pos: position{line: 2881, col: 8, offset: 90932},
-																											expr: &anyMatcher{
-																												line: 2881, col: 9, offset: 90933,
+																									},
+																									&notExpr{
+																										pos: position{line: 1663, col: 35, offset: 54039},
+																										expr: &choiceExpr{
+																											pos: position{line: 2885, col: 8, offset: 91014},
+																											alternatives: []interface{}{
+																												&actionExpr{
+																													pos: position{line: 2872, col: 12, offset: 90787},
+																													run: (*parser).callonExtraListElement189,
+																													expr: &choiceExpr{
+																														pos: position{line: 2872, col: 13, offset: 90788},
+																														alternatives: []interface{}{
+																															&litMatcher{
+																																pos:        position{line: 2872, col: 13, offset: 90788},
+																																val:        "\n",
+																																ignoreCase: false,
+																																want:       "\"\\n\"",
+																															},
+																															&litMatcher{
+																																pos:        position{line: 2872, col: 20, offset: 90795},
+																																val:        "\r\n",
+																																ignoreCase: false,
+																																want:       "\"\\r\\n\"",
+																															},
+																															&litMatcher{
+																																pos:        position{line: 2872, col: 29, offset: 90804},
+																																val:        "\r",
+																																ignoreCase: false,
+																																want:       "\"\\r\"",
+																															},
+																														},
+																													},
+																												},
+																												&notExpr{
+																													pos: position{line: 2882, col: 8, offset: 90964},
+																													expr: &anyMatcher{
+																														line: 2882, col: 9, offset: 90965,
+																													},
+																												},
 																											},
 																										},
 																									},
+																									&anyMatcher{
+																										line: 1663, col: 40, offset: 54044,
+																									},
 																								},
 																							},
-																							&anyMatcher{
-																								line: 1662, col: 40, offset: 54012,
-																							},
 																						},
 																					},
 																				},
@@ -26333,21 +26389,21 @@ var g = &grammar{
 																			pos:   position{line: 1655, col: 5, offset: 53686},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1667, col: 5, offset: 54128},
-																				run: (*parser).callonExtraListElement192,
+																				pos: position{line: 1668, col: 5, offset: 54160},
+																				run: (*parser).callonExtraListElement198,
 																				expr: &seqExpr{
-																					pos: position{line: 1667, col: 5, offset: 54128},
+																					pos: position{line: 1668, col: 5, offset: 54160},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1667, col: 5, offset: 54128},
+																							pos:   position{line: 1668, col: 5, offset: 54160},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1667, col: 16, offset: 54139},
-																								run: (*parser).callonExtraListElement195,
+																								pos: position{line: 1668, col: 16, offset: 54171},
+																								run: (*parser).callonExtraListElement201,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1667, col: 16, offset: 54139},
+																									pos: position{line: 1668, col: 16, offset: 54171},
 																									expr: &litMatcher{
-																										pos:        position{line: 1667, col: 17, offset: 54140},
+																										pos:        position{line: 1668, col: 17, offset: 54172},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -26356,8 +26412,8 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1670, col: 5, offset: 54197},
-																							run: (*parser).callonExtraListElement198,
+																							pos: position{line: 1671, col: 5, offset: 54229},
+																							run: (*parser).callonExtraListElement204,
 																						},
 																					},
 																				},
@@ -26367,21 +26423,21 @@ var g = &grammar{
 																			pos:   position{line: 1656, col: 5, offset: 53731},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1678, col: 5, offset: 54446},
+																				pos: position{line: 1679, col: 5, offset: 54478},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1680, col: 9, offset: 54512},
-																						run: (*parser).callonExtraListElement201,
+																						pos: position{line: 1681, col: 9, offset: 54544},
+																						run: (*parser).callonExtraListElement207,
 																						expr: &seqExpr{
-																							pos: position{line: 1680, col: 9, offset: 54512},
+																							pos: position{line: 1681, col: 9, offset: 54544},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1680, col: 9, offset: 54512},
+																									pos: position{line: 1681, col: 9, offset: 54544},
 																									expr: &actionExpr{
-																										pos: position{line: 2862, col: 10, offset: 90584},
-																										run: (*parser).callonExtraListElement204,
+																										pos: position{line: 2863, col: 10, offset: 90616},
+																										run: (*parser).callonExtraListElement210,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2862, col: 10, offset: 90584},
+																											pos:        position{line: 2863, col: 10, offset: 90616},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26390,28 +26446,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2884, col: 8, offset: 90982},
+																									pos: position{line: 2885, col: 8, offset: 91014},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2871, col: 12, offset: 90755},
-																											run: (*parser).callonExtraListElement207,
+																											pos: position{line: 2872, col: 12, offset: 90787},
+																											run: (*parser).callonExtraListElement213,
 																											expr: &choiceExpr{
-																												pos: position{line: 2871, col: 13, offset: 90756},
+																												pos: position{line: 2872, col: 13, offset: 90788},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2871, col: 13, offset: 90756},
+																														pos:        position{line: 2872, col: 13, offset: 90788},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2871, col: 20, offset: 90763},
+																														pos:        position{line: 2872, col: 20, offset: 90795},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2871, col: 29, offset: 90772},
+																														pos:        position{line: 2872, col: 29, offset: 90804},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26420,34 +26476,34 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2881, col: 8, offset: 90932},
+																											pos: position{line: 2882, col: 8, offset: 90964},
 																											expr: &anyMatcher{
-																												line: 2881, col: 9, offset: 90933,
+																												line: 2882, col: 9, offset: 90965,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1681, col: 9, offset: 54531},
+																									pos: position{line: 1682, col: 9, offset: 54563},
 																									expr: &actionExpr{
 																										pos: position{line: 677, col: 14, offset: 21557},
-																										run: (*parser).callonExtraListElement215,
+																										run: (*parser).callonExtraListElement221,
 																										expr: &seqExpr{
 																											pos: position{line: 677, col: 14, offset: 21557},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2879, col: 11, offset: 90918},
+																													pos: position{line: 2880, col: 11, offset: 90950},
 																													expr: &anyMatcher{
-																														line: 2879, col: 13, offset: 90920,
+																														line: 2880, col: 13, offset: 90952,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 677, col: 21, offset: 21564},
 																													expr: &actionExpr{
-																														pos: position{line: 2862, col: 10, offset: 90584},
-																														run: (*parser).callonExtraListElement220,
+																														pos: position{line: 2863, col: 10, offset: 90616},
+																														run: (*parser).callonExtraListElement226,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2862, col: 10, offset: 90584},
+																															pos:        position{line: 2863, col: 10, offset: 90616},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -26456,28 +26512,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2884, col: 8, offset: 90982},
+																													pos: position{line: 2885, col: 8, offset: 91014},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2871, col: 12, offset: 90755},
-																															run: (*parser).callonExtraListElement223,
+																															pos: position{line: 2872, col: 12, offset: 90787},
+																															run: (*parser).callonExtraListElement229,
 																															expr: &choiceExpr{
-																																pos: position{line: 2871, col: 13, offset: 90756},
+																																pos: position{line: 2872, col: 13, offset: 90788},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2871, col: 13, offset: 90756},
+																																		pos:        position{line: 2872, col: 13, offset: 90788},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2871, col: 20, offset: 90763},
+																																		pos:        position{line: 2872, col: 20, offset: 90795},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2871, col: 29, offset: 90772},
+																																		pos:        position{line: 2872, col: 29, offset: 90804},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -26486,9 +26542,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2881, col: 8, offset: 90932},
+																															pos: position{line: 2882, col: 8, offset: 90964},
 																															expr: &anyMatcher{
-																																line: 2881, col: 9, offset: 90933,
+																																line: 2882, col: 9, offset: 90965,
 																															},
 																														},
 																													},
@@ -26501,18 +26557,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1687, col: 9, offset: 54660},
-																						run: (*parser).callonExtraListElement230,
+																						pos: position{line: 1688, col: 9, offset: 54692},
+																						run: (*parser).callonExtraListElement236,
 																						expr: &seqExpr{
-																							pos: position{line: 1687, col: 9, offset: 54660},
+																							pos: position{line: 1688, col: 9, offset: 54692},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2866, col: 11, offset: 90645},
-																									run: (*parser).callonExtraListElement232,
+																									pos: position{line: 2867, col: 11, offset: 90677},
+																									run: (*parser).callonExtraListElement238,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2866, col: 11, offset: 90645},
+																										pos: position{line: 2867, col: 11, offset: 90677},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2866, col: 11, offset: 90645},
+																											pos:        position{line: 2867, col: 11, offset: 90677},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26521,15 +26577,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1688, col: 9, offset: 54733},
+																									pos:   position{line: 1689, col: 9, offset: 54765},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1688, col: 18, offset: 54742},
-																										run: (*parser).callonExtraListElement236,
+																										pos: position{line: 1689, col: 18, offset: 54774},
+																										run: (*parser).callonExtraListElement242,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1688, col: 18, offset: 54742},
+																											pos: position{line: 1689, col: 18, offset: 54774},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1688, col: 18, offset: 54742},
+																												pos:        position{line: 1689, col: 18, offset: 54774},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -26539,28 +26595,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2884, col: 8, offset: 90982},
+																									pos: position{line: 2885, col: 8, offset: 91014},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2871, col: 12, offset: 90755},
-																											run: (*parser).callonExtraListElement240,
+																											pos: position{line: 2872, col: 12, offset: 90787},
+																											run: (*parser).callonExtraListElement246,
 																											expr: &choiceExpr{
-																												pos: position{line: 2871, col: 13, offset: 90756},
+																												pos: position{line: 2872, col: 13, offset: 90788},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2871, col: 13, offset: 90756},
+																														pos:        position{line: 2872, col: 13, offset: 90788},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2871, col: 20, offset: 90763},
+																														pos:        position{line: 2872, col: 20, offset: 90795},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2871, col: 29, offset: 90772},
+																														pos:        position{line: 2872, col: 29, offset: 90804},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26569,9 +26625,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2881, col: 8, offset: 90932},
+																											pos: position{line: 2882, col: 8, offset: 90964},
 																											expr: &anyMatcher{
-																												line: 2881, col: 9, offset: 90933,
+																												line: 2882, col: 9, offset: 90965,
 																											},
 																										},
 																									},
@@ -26593,7 +26649,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1493, col: 13, offset: 48421},
-										run: (*parser).callonExtraListElement247,
+										run: (*parser).callonExtraListElement253,
 										expr: &seqExpr{
 											pos: position{line: 1493, col: 13, offset: 48421},
 											exprs: []interface{}{
@@ -26616,7 +26672,7 @@ var g = &grammar{
 														alternatives: []interface{}{
 															&actionExpr{
 																pos: position{line: 1570, col: 5, offset: 50788},
-																run: (*parser).callonExtraListElement254,
+																run: (*parser).callonExtraListElement260,
 																expr: &seqExpr{
 																	pos: position{line: 1570, col: 5, offset: 50788},
 																	exprs: []interface{}{
@@ -26625,17 +26681,17 @@ var g = &grammar{
 																			label: "prefix",
 																			expr: &actionExpr{
 																				pos: position{line: 1577, col: 5, offset: 50996},
-																				run: (*parser).callonExtraListElement257,
+																				run: (*parser).callonExtraListElement263,
 																				expr: &seqExpr{
 																					pos: position{line: 1577, col: 5, offset: 50996},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1577, col: 5, offset: 50996},
 																							expr: &actionExpr{
-																								pos: position{line: 2862, col: 10, offset: 90584},
-																								run: (*parser).callonExtraListElement260,
+																								pos: position{line: 2863, col: 10, offset: 90616},
+																								run: (*parser).callonExtraListElement266,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2862, col: 10, offset: 90584},
+																									pos:        position{line: 2863, col: 10, offset: 90616},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26651,7 +26707,7 @@ var g = &grammar{
 																								alternatives: []interface{}{
 																									&actionExpr{
 																										pos: position{line: 1579, col: 9, offset: 51066},
-																										run: (*parser).callonExtraListElement264,
+																										run: (*parser).callonExtraListElement270,
 																										expr: &seqExpr{
 																											pos: position{line: 1579, col: 9, offset: 51066},
 																											exprs: []interface{}{
@@ -26660,7 +26716,7 @@ var g = &grammar{
 																													label: "depth",
 																													expr: &actionExpr{
 																														pos: position{line: 1579, col: 16, offset: 51073},
-																														run: (*parser).callonExtraListElement267,
+																														run: (*parser).callonExtraListElement273,
 																														expr: &oneOrMoreExpr{
 																															pos: position{line: 1579, col: 16, offset: 51073},
 																															expr: &litMatcher{
@@ -26674,14 +26730,14 @@ var g = &grammar{
 																												},
 																												&andCodeExpr{
 																													pos: position{line: 1583, col: 9, offset: 51174},
-																													run: (*parser).callonExtraListElement270,
+																													run: (*parser).callonExtraListElement276,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
 																										pos: position{line: 1602, col: 11, offset: 51891},
-																										run: (*parser).callonExtraListElement271,
+																										run: (*parser).callonExtraListElement277,
 																										expr: &seqExpr{
 																											pos: position{line: 1602, col: 11, offset: 51891},
 																											exprs: []interface{}{
@@ -26706,7 +26762,7 @@ var g = &grammar{
 																									},
 																									&actionExpr{
 																										pos: position{line: 1604, col: 13, offset: 52017},
-																										run: (*parser).callonExtraListElement276,
+																										run: (*parser).callonExtraListElement282,
 																										expr: &seqExpr{
 																											pos: position{line: 1604, col: 13, offset: 52017},
 																											exprs: []interface{}{
@@ -26728,7 +26784,7 @@ var g = &grammar{
 																									},
 																									&actionExpr{
 																										pos: position{line: 1606, col: 13, offset: 52145},
-																										run: (*parser).callonExtraListElement280,
+																										run: (*parser).callonExtraListElement286,
 																										expr: &seqExpr{
 																											pos: position{line: 1606, col: 13, offset: 52145},
 																											exprs: []interface{}{
@@ -26750,7 +26806,7 @@ var g = &grammar{
 																									},
 																									&actionExpr{
 																										pos: position{line: 1608, col: 13, offset: 52273},
-																										run: (*parser).callonExtraListElement284,
+																										run: (*parser).callonExtraListElement290,
 																										expr: &seqExpr{
 																											pos: position{line: 1608, col: 13, offset: 52273},
 																											exprs: []interface{}{
@@ -26775,7 +26831,7 @@ var g = &grammar{
 																									},
 																									&actionExpr{
 																										pos: position{line: 1610, col: 13, offset: 52406},
-																										run: (*parser).callonExtraListElement289,
+																										run: (*parser).callonExtraListElement295,
 																										expr: &seqExpr{
 																											pos: position{line: 1610, col: 13, offset: 52406},
 																											exprs: []interface{}{
@@ -26802,12 +26858,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2866, col: 11, offset: 90645},
-																							run: (*parser).callonExtraListElement294,
+																							pos: position{line: 2867, col: 11, offset: 90677},
+																							run: (*parser).callonExtraListElement300,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2866, col: 11, offset: 90645},
+																								pos: position{line: 2867, col: 11, offset: 90677},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2866, col: 11, offset: 90645},
+																									pos:        position{line: 2867, col: 11, offset: 90677},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26824,7 +26880,7 @@ var g = &grammar{
 																			label: "content",
 																			expr: &actionExpr{
 																				pos: position{line: 1518, col: 5, offset: 49294},
-																				run: (*parser).callonExtraListElement298,
+																				run: (*parser).callonExtraListElement304,
 																				expr: &seqExpr{
 																					pos: position{line: 1518, col: 5, offset: 49294},
 																					exprs: []interface{}{
@@ -26835,7 +26891,7 @@ var g = &grammar{
 																								pos: position{line: 1518, col: 14, offset: 49303},
 																								expr: &actionExpr{
 																									pos: position{line: 1518, col: 15, offset: 49304},
-																									run: (*parser).callonExtraListElement302,
+																									run: (*parser).callonExtraListElement308,
 																									expr: &oneOrMoreExpr{
 																										pos: position{line: 1518, col: 15, offset: 49304},
 																										expr: &charClassMatcher{
@@ -26850,28 +26906,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2884, col: 8, offset: 90982},
+																							pos: position{line: 2885, col: 8, offset: 91014},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2871, col: 12, offset: 90755},
-																									run: (*parser).callonExtraListElement306,
+																									pos: position{line: 2872, col: 12, offset: 90787},
+																									run: (*parser).callonExtraListElement312,
 																									expr: &choiceExpr{
-																										pos: position{line: 2871, col: 13, offset: 90756},
+																										pos: position{line: 2872, col: 13, offset: 90788},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 13, offset: 90756},
+																												pos:        position{line: 2872, col: 13, offset: 90788},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 20, offset: 90763},
+																												pos:        position{line: 2872, col: 20, offset: 90795},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 29, offset: 90772},
+																												pos:        position{line: 2872, col: 29, offset: 90804},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26880,9 +26936,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2881, col: 8, offset: 90932},
+																									pos: position{line: 2882, col: 8, offset: 90964},
 																									expr: &anyMatcher{
-																										line: 2881, col: 9, offset: 90933,
+																										line: 2882, col: 9, offset: 90965,
 																									},
 																								},
 																							},
@@ -26896,7 +26952,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 1620, col: 5, offset: 52685},
-																run: (*parser).callonExtraListElement313,
+																run: (*parser).callonExtraListElement319,
 																expr: &seqExpr{
 																	pos: position{line: 1620, col: 5, offset: 52685},
 																	exprs: []interface{}{
@@ -26905,17 +26961,17 @@ var g = &grammar{
 																			label: "prefix",
 																			expr: &actionExpr{
 																				pos: position{line: 1627, col: 5, offset: 52958},
-																				run: (*parser).callonExtraListElement316,
+																				run: (*parser).callonExtraListElement322,
 																				expr: &seqExpr{
 																					pos: position{line: 1627, col: 5, offset: 52958},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1627, col: 5, offset: 52958},
 																							expr: &actionExpr{
-																								pos: position{line: 2862, col: 10, offset: 90584},
-																								run: (*parser).callonExtraListElement319,
+																								pos: position{line: 2863, col: 10, offset: 90616},
+																								run: (*parser).callonExtraListElement325,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2862, col: 10, offset: 90584},
+																									pos:        position{line: 2863, col: 10, offset: 90616},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26928,7 +26984,7 @@ var g = &grammar{
 																							label: "style",
 																							expr: &actionExpr{
 																								pos: position{line: 1629, col: 9, offset: 52986},
-																								run: (*parser).callonExtraListElement322,
+																								run: (*parser).callonExtraListElement328,
 																								expr: &choiceExpr{
 																									pos: position{line: 1629, col: 10, offset: 52987},
 																									alternatives: []interface{}{
@@ -26953,15 +27009,15 @@ var g = &grammar{
 																						},
 																						&andCodeExpr{
 																							pos: position{line: 1632, col: 7, offset: 53086},
-																							run: (*parser).callonExtraListElement327,
+																							run: (*parser).callonExtraListElement333,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2866, col: 11, offset: 90645},
-																							run: (*parser).callonExtraListElement328,
+																							pos: position{line: 2867, col: 11, offset: 90677},
+																							run: (*parser).callonExtraListElement334,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2866, col: 11, offset: 90645},
+																								pos: position{line: 2867, col: 11, offset: 90677},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2866, col: 11, offset: 90645},
+																									pos:        position{line: 2867, col: 11, offset: 90677},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26980,7 +27036,7 @@ var g = &grammar{
 																				pos: position{line: 1621, col: 16, offset: 52737},
 																				expr: &actionExpr{
 																					pos: position{line: 1642, col: 5, offset: 53351},
-																					run: (*parser).callonExtraListElement333,
+																					run: (*parser).callonExtraListElement339,
 																					expr: &seqExpr{
 																						pos: position{line: 1642, col: 5, offset: 53351},
 																						exprs: []interface{}{
@@ -27001,7 +27057,7 @@ var g = &grammar{
 																									alternatives: []interface{}{
 																										&actionExpr{
 																											pos: position{line: 1643, col: 7, offset: 53370},
-																											run: (*parser).callonExtraListElement339,
+																											run: (*parser).callonExtraListElement345,
 																											expr: &litMatcher{
 																												pos:        position{line: 1643, col: 7, offset: 53370},
 																												val:        "[ ]",
@@ -27011,7 +27067,7 @@ var g = &grammar{
 																										},
 																										&actionExpr{
 																											pos: position{line: 1644, col: 7, offset: 53415},
-																											run: (*parser).callonExtraListElement341,
+																											run: (*parser).callonExtraListElement347,
 																											expr: &litMatcher{
 																												pos:        position{line: 1644, col: 7, offset: 53415},
 																												val:        "[*]",
@@ -27021,7 +27077,7 @@ var g = &grammar{
 																										},
 																										&actionExpr{
 																											pos: position{line: 1645, col: 7, offset: 53458},
-																											run: (*parser).callonExtraListElement343,
+																											run: (*parser).callonExtraListElement349,
 																											expr: &litMatcher{
 																												pos:        position{line: 1645, col: 7, offset: 53458},
 																												val:        "[x]",
@@ -27033,12 +27089,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2866, col: 11, offset: 90645},
-																								run: (*parser).callonExtraListElement345,
+																								pos: position{line: 2867, col: 11, offset: 90677},
+																								run: (*parser).callonExtraListElement351,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2866, col: 11, offset: 90645},
+																									pos: position{line: 2867, col: 11, offset: 90677},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2866, col: 11, offset: 90645},
+																										pos:        position{line: 2867, col: 11, offset: 90677},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27056,7 +27112,7 @@ var g = &grammar{
 																			label: "content",
 																			expr: &actionExpr{
 																				pos: position{line: 1518, col: 5, offset: 49294},
-																				run: (*parser).callonExtraListElement349,
+																				run: (*parser).callonExtraListElement355,
 																				expr: &seqExpr{
 																					pos: position{line: 1518, col: 5, offset: 49294},
 																					exprs: []interface{}{
@@ -27067,7 +27123,7 @@ var g = &grammar{
 																								pos: position{line: 1518, col: 14, offset: 49303},
 																								expr: &actionExpr{
 																									pos: position{line: 1518, col: 15, offset: 49304},
-																									run: (*parser).callonExtraListElement353,
+																									run: (*parser).callonExtraListElement359,
 																									expr: &oneOrMoreExpr{
 																										pos: position{line: 1518, col: 15, offset: 49304},
 																										expr: &charClassMatcher{
@@ -27082,28 +27138,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2884, col: 8, offset: 90982},
+																							pos: position{line: 2885, col: 8, offset: 91014},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2871, col: 12, offset: 90755},
-																									run: (*parser).callonExtraListElement357,
+																									pos: position{line: 2872, col: 12, offset: 90787},
+																									run: (*parser).callonExtraListElement363,
 																									expr: &choiceExpr{
-																										pos: position{line: 2871, col: 13, offset: 90756},
+																										pos: position{line: 2872, col: 13, offset: 90788},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 13, offset: 90756},
+																												pos:        position{line: 2872, col: 13, offset: 90788},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 20, offset: 90763},
+																												pos:        position{line: 2872, col: 20, offset: 90795},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 29, offset: 90772},
+																												pos:        position{line: 2872, col: 29, offset: 90804},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27112,9 +27168,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2881, col: 8, offset: 90932},
+																									pos: position{line: 2882, col: 8, offset: 90964},
 																									expr: &anyMatcher{
-																										line: 2881, col: 9, offset: 90933,
+																										line: 2882, col: 9, offset: 90965,
 																									},
 																								},
 																							},
@@ -27127,36 +27183,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1710, col: 5, offset: 55298},
-																run: (*parser).callonExtraListElement364,
+																pos: position{line: 1711, col: 5, offset: 55330},
+																run: (*parser).callonExtraListElement370,
 																expr: &seqExpr{
-																	pos: position{line: 1710, col: 5, offset: 55298},
+																	pos: position{line: 1711, col: 5, offset: 55330},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1710, col: 5, offset: 55298},
+																			pos:   position{line: 1711, col: 5, offset: 55330},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1716, col: 5, offset: 55495},
-																				run: (*parser).callonExtraListElement367,
+																				pos: position{line: 1717, col: 5, offset: 55527},
+																				run: (*parser).callonExtraListElement373,
 																				expr: &seqExpr{
-																					pos: position{line: 1716, col: 5, offset: 55495},
+																					pos: position{line: 1717, col: 5, offset: 55527},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1716, col: 5, offset: 55495},
+																							pos:        position{line: 1717, col: 5, offset: 55527},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1716, col: 9, offset: 55499},
+																							pos:   position{line: 1717, col: 9, offset: 55531},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1716, col: 14, offset: 55504},
-																								run: (*parser).callonExtraListElement371,
+																								pos: position{line: 1717, col: 14, offset: 55536},
+																								run: (*parser).callonExtraListElement377,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1716, col: 14, offset: 55504},
+																									pos: position{line: 1717, col: 14, offset: 55536},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1716, col: 14, offset: 55504},
+																										pos:        position{line: 1717, col: 14, offset: 55536},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -27166,18 +27222,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1716, col: 62, offset: 55552},
+																							pos:        position{line: 1717, col: 62, offset: 55584},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2866, col: 11, offset: 90645},
-																							run: (*parser).callonExtraListElement375,
+																							pos: position{line: 2867, col: 11, offset: 90677},
+																							run: (*parser).callonExtraListElement381,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2866, col: 11, offset: 90645},
+																								pos: position{line: 2867, col: 11, offset: 90677},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2866, col: 11, offset: 90645},
+																									pos:        position{line: 2867, col: 11, offset: 90677},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27190,11 +27246,11 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1711, col: 5, offset: 55334},
+																			pos:   position{line: 1712, col: 5, offset: 55366},
 																			label: "description",
 																			expr: &actionExpr{
 																				pos: position{line: 1518, col: 5, offset: 49294},
-																				run: (*parser).callonExtraListElement379,
+																				run: (*parser).callonExtraListElement385,
 																				expr: &seqExpr{
 																					pos: position{line: 1518, col: 5, offset: 49294},
 																					exprs: []interface{}{
@@ -27205,7 +27261,7 @@ var g = &grammar{
 																								pos: position{line: 1518, col: 14, offset: 49303},
 																								expr: &actionExpr{
 																									pos: position{line: 1518, col: 15, offset: 49304},
-																									run: (*parser).callonExtraListElement383,
+																									run: (*parser).callonExtraListElement389,
 																									expr: &oneOrMoreExpr{
 																										pos: position{line: 1518, col: 15, offset: 49304},
 																										expr: &charClassMatcher{
@@ -27220,28 +27276,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2884, col: 8, offset: 90982},
+																							pos: position{line: 2885, col: 8, offset: 91014},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2871, col: 12, offset: 90755},
-																									run: (*parser).callonExtraListElement387,
+																									pos: position{line: 2872, col: 12, offset: 90787},
+																									run: (*parser).callonExtraListElement393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2871, col: 13, offset: 90756},
+																										pos: position{line: 2872, col: 13, offset: 90788},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 13, offset: 90756},
+																												pos:        position{line: 2872, col: 13, offset: 90788},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 20, offset: 90763},
+																												pos:        position{line: 2872, col: 20, offset: 90795},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 29, offset: 90772},
+																												pos:        position{line: 2872, col: 29, offset: 90804},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27250,9 +27306,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2881, col: 8, offset: 90932},
+																									pos: position{line: 2882, col: 8, offset: 90964},
 																									expr: &anyMatcher{
-																										line: 2881, col: 9, offset: 90933,
+																										line: 2882, col: 9, offset: 90965,
 																									},
 																								},
 																							},
@@ -27266,7 +27322,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 1654, col: 5, offset: 53651},
-																run: (*parser).callonExtraListElement394,
+																run: (*parser).callonExtraListElement400,
 																expr: &seqExpr{
 																	pos: position{line: 1654, col: 5, offset: 53651},
 																	exprs: []interface{}{
@@ -27275,89 +27331,117 @@ var g = &grammar{
 																			label: "term",
 																			expr: &actionExpr{
 																				pos: position{line: 1662, col: 5, offset: 53977},
-																				run: (*parser).callonExtraListElement397,
-																				expr: &oneOrMoreExpr{
+																				run: (*parser).callonExtraListElement403,
+																				expr: &seqExpr{
 																					pos: position{line: 1662, col: 5, offset: 53977},
-																					expr: &seqExpr{
-																						pos: position{line: 1662, col: 6, offset: 53978},
-																						exprs: []interface{}{
-																							&notExpr{
-																								pos: position{line: 1662, col: 6, offset: 53978},
-																								expr: &actionExpr{
-																									pos: position{line: 1667, col: 5, offset: 54128},
-																									run: (*parser).callonExtraListElement401,
-																									expr: &seqExpr{
-																										pos: position{line: 1667, col: 5, offset: 54128},
-																										exprs: []interface{}{
-																											&labeledExpr{
-																												pos:   position{line: 1667, col: 5, offset: 54128},
-																												label: "separator",
-																												expr: &actionExpr{
-																													pos: position{line: 1667, col: 16, offset: 54139},
-																													run: (*parser).callonExtraListElement404,
-																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1667, col: 16, offset: 54139},
-																														expr: &litMatcher{
-																															pos:        position{line: 1667, col: 17, offset: 54140},
-																															val:        ":",
-																															ignoreCase: false,
-																															want:       "\":\"",
-																														},
-																													},
-																												},
-																											},
-																											&andCodeExpr{
-																												pos: position{line: 1670, col: 5, offset: 54197},
-																												run: (*parser).callonExtraListElement407,
-																											},
+																					exprs: []interface{}{
+																						&notExpr{
+																							pos: position{line: 1662, col: 5, offset: 53977},
+																							expr: &seqExpr{
+																								pos: position{line: 2478, col: 31, offset: 79815},
+																								exprs: []interface{}{
+																									&litMatcher{
+																										pos:        position{line: 2478, col: 31, offset: 79815},
+																										val:        "//",
+																										ignoreCase: false,
+																										want:       "\"//\"",
+																									},
+																									&notExpr{
+																										pos: position{line: 2478, col: 36, offset: 79820},
+																										expr: &litMatcher{
+																											pos:        position{line: 2478, col: 37, offset: 79821},
+																											val:        "//",
+																											ignoreCase: false,
+																											want:       "\"//\"",
 																										},
 																									},
 																								},
 																							},
-																							&notExpr{
-																								pos: position{line: 1662, col: 35, offset: 54007},
-																								expr: &choiceExpr{
-																									pos: position{line: 2884, col: 8, offset: 90982},
-																									alternatives: []interface{}{
-																										&actionExpr{
-																											pos: position{line: 2871, col: 12, offset: 90755},
-																											run: (*parser).callonExtraListElement410,
-																											expr: &choiceExpr{
-																												pos: position{line: 2871, col: 13, offset: 90756},
-																												alternatives: []interface{}{
-																													&litMatcher{
-																														pos:        position{line: 2871, col: 13, offset: 90756},
-																														val:        "\n",
-																														ignoreCase: false,
-																														want:       "\"\\n\"",
+																						},
+																						&oneOrMoreExpr{
+																							pos: position{line: 1663, col: 5, offset: 54009},
+																							expr: &seqExpr{
+																								pos: position{line: 1663, col: 6, offset: 54010},
+																								exprs: []interface{}{
+																									&notExpr{
+																										pos: position{line: 1663, col: 6, offset: 54010},
+																										expr: &actionExpr{
+																											pos: position{line: 1668, col: 5, offset: 54160},
+																											run: (*parser).callonExtraListElement413,
+																											expr: &seqExpr{
+																												pos: position{line: 1668, col: 5, offset: 54160},
+																												exprs: []interface{}{
+																													&labeledExpr{
+																														pos:   position{line: 1668, col: 5, offset: 54160},
+																														label: "separator",
+																														expr: &actionExpr{
+																															pos: position{line: 1668, col: 16, offset: 54171},
+																															run: (*parser).callonExtraListElement416,
+																															expr: &oneOrMoreExpr{
+																																pos: position{line: 1668, col: 16, offset: 54171},
+																																expr: &litMatcher{
+																																	pos:        position{line: 1668, col: 17, offset: 54172},
+																																	val:        ":",
+																																	ignoreCase: false,
+																																	want:       "\":\"",
+																																},
+																															},
+																														},
 																													},
-																													&litMatcher{
-																														pos:        position{line: 2871, col: 20, offset: 90763},
-																														val:        "\r\n",
-																														ignoreCase: false,
-																														want:       "\"\\r\\n\"",
-																													},
-																													&litMatcher{
-																														pos:        position{line: 2871, col: 29, offset: 90772},
-																														val:        "\r",
-																														ignoreCase: false,
-																														want:       "\"\\r\"",
+																													&andCodeExpr{
+																														pos: position{line: 1671, col: 5, offset: 54229},
+																														run: (*parser).callonExtraListElement419,
 																													},
 																												},
 																											},
 																										},
-																										&notExpr{
-																											pos: position{line: 2881, col: 8, offset: 90932},
-																											expr: &anyMatcher{
-																												line: 2881, col: 9, offset: 90933,
+																									},
+																									&notExpr{
+																										pos: position{line: 1663, col: 35, offset: 54039},
+																										expr: &choiceExpr{
+																											pos: position{line: 2885, col: 8, offset: 91014},
+																											alternatives: []interface{}{
+																												&actionExpr{
+																													pos: position{line: 2872, col: 12, offset: 90787},
+																													run: (*parser).callonExtraListElement422,
+																													expr: &choiceExpr{
+																														pos: position{line: 2872, col: 13, offset: 90788},
+																														alternatives: []interface{}{
+																															&litMatcher{
+																																pos:        position{line: 2872, col: 13, offset: 90788},
+																																val:        "\n",
+																																ignoreCase: false,
+																																want:       "\"\\n\"",
+																															},
+																															&litMatcher{
+																																pos:        position{line: 2872, col: 20, offset: 90795},
+																																val:        "\r\n",
+																																ignoreCase: false,
+																																want:       "\"\\r\\n\"",
+																															},
+																															&litMatcher{
+																																pos:        position{line: 2872, col: 29, offset: 90804},
+																																val:        "\r",
+																																ignoreCase: false,
+																																want:       "\"\\r\"",
+																															},
+																														},
+																													},
+																												},
+																												&notExpr{
+																													pos: position{line: 2882, col: 8, offset: 90964},
+																													expr: &anyMatcher{
+																														line: 2882, col: 9, offset: 90965,
+																													},
+																												},
 																											},
 																										},
 																									},
+																									&anyMatcher{
+																										line: 1663, col: 40, offset: 54044,
+																									},
 																								},
 																							},
-																							&anyMatcher{
-																								line: 1662, col: 40, offset: 54012,
-																							},
 																						},
 																					},
 																				},
@@ -27367,21 +27451,21 @@ var g = &grammar{
 																			pos:   position{line: 1655, col: 5, offset: 53686},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1667, col: 5, offset: 54128},
-																				run: (*parser).callonExtraListElement419,
+																				pos: position{line: 1668, col: 5, offset: 54160},
+																				run: (*parser).callonExtraListElement431,
 																				expr: &seqExpr{
-																					pos: position{line: 1667, col: 5, offset: 54128},
+																					pos: position{line: 1668, col: 5, offset: 54160},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1667, col: 5, offset: 54128},
+																							pos:   position{line: 1668, col: 5, offset: 54160},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1667, col: 16, offset: 54139},
-																								run: (*parser).callonExtraListElement422,
+																								pos: position{line: 1668, col: 16, offset: 54171},
+																								run: (*parser).callonExtraListElement434,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1667, col: 16, offset: 54139},
+																									pos: position{line: 1668, col: 16, offset: 54171},
 																									expr: &litMatcher{
-																										pos:        position{line: 1667, col: 17, offset: 54140},
+																										pos:        position{line: 1668, col: 17, offset: 54172},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -27390,8 +27474,8 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1670, col: 5, offset: 54197},
-																							run: (*parser).callonExtraListElement425,
+																							pos: position{line: 1671, col: 5, offset: 54229},
+																							run: (*parser).callonExtraListElement437,
 																						},
 																					},
 																				},
@@ -27401,21 +27485,21 @@ var g = &grammar{
 																			pos:   position{line: 1656, col: 5, offset: 53731},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1678, col: 5, offset: 54446},
+																				pos: position{line: 1679, col: 5, offset: 54478},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1680, col: 9, offset: 54512},
-																						run: (*parser).callonExtraListElement428,
+																						pos: position{line: 1681, col: 9, offset: 54544},
+																						run: (*parser).callonExtraListElement440,
 																						expr: &seqExpr{
-																							pos: position{line: 1680, col: 9, offset: 54512},
+																							pos: position{line: 1681, col: 9, offset: 54544},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1680, col: 9, offset: 54512},
+																									pos: position{line: 1681, col: 9, offset: 54544},
 																									expr: &actionExpr{
-																										pos: position{line: 2862, col: 10, offset: 90584},
-																										run: (*parser).callonExtraListElement431,
+																										pos: position{line: 2863, col: 10, offset: 90616},
+																										run: (*parser).callonExtraListElement443,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2862, col: 10, offset: 90584},
+																											pos:        position{line: 2863, col: 10, offset: 90616},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27424,28 +27508,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2884, col: 8, offset: 90982},
+																									pos: position{line: 2885, col: 8, offset: 91014},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2871, col: 12, offset: 90755},
-																											run: (*parser).callonExtraListElement434,
+																											pos: position{line: 2872, col: 12, offset: 90787},
+																											run: (*parser).callonExtraListElement446,
 																											expr: &choiceExpr{
-																												pos: position{line: 2871, col: 13, offset: 90756},
+																												pos: position{line: 2872, col: 13, offset: 90788},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2871, col: 13, offset: 90756},
+																														pos:        position{line: 2872, col: 13, offset: 90788},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2871, col: 20, offset: 90763},
+																														pos:        position{line: 2872, col: 20, offset: 90795},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2871, col: 29, offset: 90772},
+																														pos:        position{line: 2872, col: 29, offset: 90804},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27454,34 +27538,34 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2881, col: 8, offset: 90932},
+																											pos: position{line: 2882, col: 8, offset: 90964},
 																											expr: &anyMatcher{
-																												line: 2881, col: 9, offset: 90933,
+																												line: 2882, col: 9, offset: 90965,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1681, col: 9, offset: 54531},
+																									pos: position{line: 1682, col: 9, offset: 54563},
 																									expr: &actionExpr{
 																										pos: position{line: 677, col: 14, offset: 21557},
-																										run: (*parser).callonExtraListElement442,
+																										run: (*parser).callonExtraListElement454,
 																										expr: &seqExpr{
 																											pos: position{line: 677, col: 14, offset: 21557},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2879, col: 11, offset: 90918},
+																													pos: position{line: 2880, col: 11, offset: 90950},
 																													expr: &anyMatcher{
-																														line: 2879, col: 13, offset: 90920,
+																														line: 2880, col: 13, offset: 90952,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 677, col: 21, offset: 21564},
 																													expr: &actionExpr{
-																														pos: position{line: 2862, col: 10, offset: 90584},
-																														run: (*parser).callonExtraListElement447,
+																														pos: position{line: 2863, col: 10, offset: 90616},
+																														run: (*parser).callonExtraListElement459,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2862, col: 10, offset: 90584},
+																															pos:        position{line: 2863, col: 10, offset: 90616},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27490,28 +27574,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2884, col: 8, offset: 90982},
+																													pos: position{line: 2885, col: 8, offset: 91014},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2871, col: 12, offset: 90755},
-																															run: (*parser).callonExtraListElement450,
+																															pos: position{line: 2872, col: 12, offset: 90787},
+																															run: (*parser).callonExtraListElement462,
 																															expr: &choiceExpr{
-																																pos: position{line: 2871, col: 13, offset: 90756},
+																																pos: position{line: 2872, col: 13, offset: 90788},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2871, col: 13, offset: 90756},
+																																		pos:        position{line: 2872, col: 13, offset: 90788},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2871, col: 20, offset: 90763},
+																																		pos:        position{line: 2872, col: 20, offset: 90795},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2871, col: 29, offset: 90772},
+																																		pos:        position{line: 2872, col: 29, offset: 90804},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -27520,9 +27604,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2881, col: 8, offset: 90932},
+																															pos: position{line: 2882, col: 8, offset: 90964},
 																															expr: &anyMatcher{
-																																line: 2881, col: 9, offset: 90933,
+																																line: 2882, col: 9, offset: 90965,
 																															},
 																														},
 																													},
@@ -27535,18 +27619,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1687, col: 9, offset: 54660},
-																						run: (*parser).callonExtraListElement457,
+																						pos: position{line: 1688, col: 9, offset: 54692},
+																						run: (*parser).callonExtraListElement469,
 																						expr: &seqExpr{
-																							pos: position{line: 1687, col: 9, offset: 54660},
+																							pos: position{line: 1688, col: 9, offset: 54692},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2866, col: 11, offset: 90645},
-																									run: (*parser).callonExtraListElement459,
+																									pos: position{line: 2867, col: 11, offset: 90677},
+																									run: (*parser).callonExtraListElement471,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2866, col: 11, offset: 90645},
+																										pos: position{line: 2867, col: 11, offset: 90677},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2866, col: 11, offset: 90645},
+																											pos:        position{line: 2867, col: 11, offset: 90677},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27555,15 +27639,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1688, col: 9, offset: 54733},
+																									pos:   position{line: 1689, col: 9, offset: 54765},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1688, col: 18, offset: 54742},
-																										run: (*parser).callonExtraListElement463,
+																										pos: position{line: 1689, col: 18, offset: 54774},
+																										run: (*parser).callonExtraListElement475,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1688, col: 18, offset: 54742},
+																											pos: position{line: 1689, col: 18, offset: 54774},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1688, col: 18, offset: 54742},
+																												pos:        position{line: 1689, col: 18, offset: 54774},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -27573,28 +27657,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2884, col: 8, offset: 90982},
+																									pos: position{line: 2885, col: 8, offset: 91014},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2871, col: 12, offset: 90755},
-																											run: (*parser).callonExtraListElement467,
+																											pos: position{line: 2872, col: 12, offset: 90787},
+																											run: (*parser).callonExtraListElement479,
 																											expr: &choiceExpr{
-																												pos: position{line: 2871, col: 13, offset: 90756},
+																												pos: position{line: 2872, col: 13, offset: 90788},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2871, col: 13, offset: 90756},
+																														pos:        position{line: 2872, col: 13, offset: 90788},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2871, col: 20, offset: 90763},
+																														pos:        position{line: 2872, col: 20, offset: 90795},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2871, col: 29, offset: 90772},
+																														pos:        position{line: 2872, col: 29, offset: 90804},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27603,9 +27687,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2881, col: 8, offset: 90932},
+																											pos: position{line: 2882, col: 8, offset: 90964},
 																											expr: &anyMatcher{
-																												line: 2881, col: 9, offset: 90933,
+																												line: 2882, col: 9, offset: 90965,
 																											},
 																										},
 																									},
@@ -27630,36 +27714,36 @@ var g = &grammar{
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2472, col: 22, offset: 79562},
-										run: (*parser).callonExtraListElement475,
+										pos: position{line: 2473, col: 22, offset: 79594},
+										run: (*parser).callonExtraListElement487,
 										expr: &seqExpr{
-											pos: position{line: 2472, col: 22, offset: 79562},
+											pos: position{line: 2473, col: 22, offset: 79594},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2477, col: 31, offset: 79783},
+													pos:        position{line: 2478, col: 31, offset: 79815},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2477, col: 36, offset: 79788},
+													pos: position{line: 2478, col: 36, offset: 79820},
 													expr: &litMatcher{
-														pos:        position{line: 2477, col: 37, offset: 79789},
+														pos:        position{line: 2478, col: 37, offset: 79821},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2472, col: 49, offset: 79589},
+													pos:   position{line: 2473, col: 49, offset: 79621},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2808, col: 13, offset: 89110},
-														run: (*parser).callonExtraListElement481,
+														pos: position{line: 2809, col: 13, offset: 89142},
+														run: (*parser).callonExtraListElement493,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2808, col: 13, offset: 89110},
+															pos: position{line: 2809, col: 13, offset: 89142},
 															expr: &charClassMatcher{
-																pos:        position{line: 2808, col: 13, offset: 89110},
+																pos:        position{line: 2809, col: 13, offset: 89142},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -27669,28 +27753,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2884, col: 8, offset: 90982},
+													pos: position{line: 2885, col: 8, offset: 91014},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2871, col: 12, offset: 90755},
-															run: (*parser).callonExtraListElement485,
+															pos: position{line: 2872, col: 12, offset: 90787},
+															run: (*parser).callonExtraListElement497,
 															expr: &choiceExpr{
-																pos: position{line: 2871, col: 13, offset: 90756},
+																pos: position{line: 2872, col: 13, offset: 90788},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2871, col: 13, offset: 90756},
+																		pos:        position{line: 2872, col: 13, offset: 90788},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2871, col: 20, offset: 90763},
+																		pos:        position{line: 2872, col: 20, offset: 90795},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2871, col: 29, offset: 90772},
+																		pos:        position{line: 2872, col: 29, offset: 90804},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -27699,9 +27783,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2881, col: 8, offset: 90932},
+															pos: position{line: 2882, col: 8, offset: 90964},
 															expr: &anyMatcher{
-																line: 2881, col: 9, offset: 90933,
+																line: 2882, col: 9, offset: 90965,
 															},
 														},
 													},
@@ -27711,7 +27795,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1505, col: 5, offset: 48936},
-										run: (*parser).callonExtraListElement492,
+										run: (*parser).callonExtraListElement504,
 										expr: &seqExpr{
 											pos: position{line: 1505, col: 5, offset: 48936},
 											exprs: []interface{}{
@@ -27719,23 +27803,23 @@ var g = &grammar{
 													pos: position{line: 1505, col: 5, offset: 48936},
 													expr: &actionExpr{
 														pos: position{line: 677, col: 14, offset: 21557},
-														run: (*parser).callonExtraListElement495,
+														run: (*parser).callonExtraListElement507,
 														expr: &seqExpr{
 															pos: position{line: 677, col: 14, offset: 21557},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2879, col: 11, offset: 90918},
+																	pos: position{line: 2880, col: 11, offset: 90950},
 																	expr: &anyMatcher{
-																		line: 2879, col: 13, offset: 90920,
+																		line: 2880, col: 13, offset: 90952,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 677, col: 21, offset: 21564},
 																	expr: &actionExpr{
-																		pos: position{line: 2862, col: 10, offset: 90584},
-																		run: (*parser).callonExtraListElement500,
+																		pos: position{line: 2863, col: 10, offset: 90616},
+																		run: (*parser).callonExtraListElement512,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2862, col: 10, offset: 90584},
+																			pos:        position{line: 2863, col: 10, offset: 90616},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27744,28 +27828,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2884, col: 8, offset: 90982},
+																	pos: position{line: 2885, col: 8, offset: 91014},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2871, col: 12, offset: 90755},
-																			run: (*parser).callonExtraListElement503,
+																			pos: position{line: 2872, col: 12, offset: 90787},
+																			run: (*parser).callonExtraListElement515,
 																			expr: &choiceExpr{
-																				pos: position{line: 2871, col: 13, offset: 90756},
+																				pos: position{line: 2872, col: 13, offset: 90788},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 13, offset: 90756},
+																						pos:        position{line: 2872, col: 13, offset: 90788},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 20, offset: 90763},
+																						pos:        position{line: 2872, col: 20, offset: 90795},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 29, offset: 90772},
+																						pos:        position{line: 2872, col: 29, offset: 90804},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -27774,9 +27858,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2881, col: 8, offset: 90932},
+																			pos: position{line: 2882, col: 8, offset: 90964},
 																			expr: &anyMatcher{
-																				line: 2881, col: 9, offset: 90933,
+																				line: 2882, col: 9, offset: 90965,
 																			},
 																		},
 																	},
@@ -27799,10 +27883,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1536, col: 31, offset: 49781},
 																expr: &actionExpr{
-																	pos: position{line: 2862, col: 10, offset: 90584},
-																	run: (*parser).callonExtraListElement514,
+																	pos: position{line: 2863, col: 10, offset: 90616},
+																	run: (*parser).callonExtraListElement526,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2862, col: 10, offset: 90584},
+																		pos:        position{line: 2863, col: 10, offset: 90616},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -27811,25 +27895,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2871, col: 12, offset: 90755},
-																run: (*parser).callonExtraListElement516,
+																pos: position{line: 2872, col: 12, offset: 90787},
+																run: (*parser).callonExtraListElement528,
 																expr: &choiceExpr{
-																	pos: position{line: 2871, col: 13, offset: 90756},
+																	pos: position{line: 2872, col: 13, offset: 90788},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2871, col: 13, offset: 90756},
+																			pos:        position{line: 2872, col: 13, offset: 90788},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2871, col: 20, offset: 90763},
+																			pos:        position{line: 2872, col: 20, offset: 90795},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2871, col: 29, offset: 90772},
+																			pos:        position{line: 2872, col: 29, offset: 90804},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -27844,17 +27928,17 @@ var g = &grammar{
 													pos: position{line: 1507, col: 5, offset: 48979},
 													expr: &actionExpr{
 														pos: position{line: 1577, col: 5, offset: 50996},
-														run: (*parser).callonExtraListElement522,
+														run: (*parser).callonExtraListElement534,
 														expr: &seqExpr{
 															pos: position{line: 1577, col: 5, offset: 50996},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1577, col: 5, offset: 50996},
 																	expr: &actionExpr{
-																		pos: position{line: 2862, col: 10, offset: 90584},
-																		run: (*parser).callonExtraListElement525,
+																		pos: position{line: 2863, col: 10, offset: 90616},
+																		run: (*parser).callonExtraListElement537,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2862, col: 10, offset: 90584},
+																			pos:        position{line: 2863, col: 10, offset: 90616},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27870,7 +27954,7 @@ var g = &grammar{
 																		alternatives: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 1579, col: 9, offset: 51066},
-																				run: (*parser).callonExtraListElement529,
+																				run: (*parser).callonExtraListElement541,
 																				expr: &seqExpr{
 																					pos: position{line: 1579, col: 9, offset: 51066},
 																					exprs: []interface{}{
@@ -27879,7 +27963,7 @@ var g = &grammar{
 																							label: "depth",
 																							expr: &actionExpr{
 																								pos: position{line: 1579, col: 16, offset: 51073},
-																								run: (*parser).callonExtraListElement532,
+																								run: (*parser).callonExtraListElement544,
 																								expr: &oneOrMoreExpr{
 																									pos: position{line: 1579, col: 16, offset: 51073},
 																									expr: &litMatcher{
@@ -27893,14 +27977,14 @@ var g = &grammar{
 																						},
 																						&andCodeExpr{
 																							pos: position{line: 1583, col: 9, offset: 51174},
-																							run: (*parser).callonExtraListElement535,
+																							run: (*parser).callonExtraListElement547,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
 																				pos: position{line: 1602, col: 11, offset: 51891},
-																				run: (*parser).callonExtraListElement536,
+																				run: (*parser).callonExtraListElement548,
 																				expr: &seqExpr{
 																					pos: position{line: 1602, col: 11, offset: 51891},
 																					exprs: []interface{}{
@@ -27925,7 +28009,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 1604, col: 13, offset: 52017},
-																				run: (*parser).callonExtraListElement541,
+																				run: (*parser).callonExtraListElement553,
 																				expr: &seqExpr{
 																					pos: position{line: 1604, col: 13, offset: 52017},
 																					exprs: []interface{}{
@@ -27947,7 +28031,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 1606, col: 13, offset: 52145},
-																				run: (*parser).callonExtraListElement545,
+																				run: (*parser).callonExtraListElement557,
 																				expr: &seqExpr{
 																					pos: position{line: 1606, col: 13, offset: 52145},
 																					exprs: []interface{}{
@@ -27969,7 +28053,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 1608, col: 13, offset: 52273},
-																				run: (*parser).callonExtraListElement549,
+																				run: (*parser).callonExtraListElement561,
 																				expr: &seqExpr{
 																					pos: position{line: 1608, col: 13, offset: 52273},
 																					exprs: []interface{}{
@@ -27994,7 +28078,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 1610, col: 13, offset: 52406},
-																				run: (*parser).callonExtraListElement554,
+																				run: (*parser).callonExtraListElement566,
 																				expr: &seqExpr{
 																					pos: position{line: 1610, col: 13, offset: 52406},
 																					exprs: []interface{}{
@@ -28021,12 +28105,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2866, col: 11, offset: 90645},
-																	run: (*parser).callonExtraListElement559,
+																	pos: position{line: 2867, col: 11, offset: 90677},
+																	run: (*parser).callonExtraListElement571,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2866, col: 11, offset: 90645},
+																		pos: position{line: 2867, col: 11, offset: 90677},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2866, col: 11, offset: 90645},
+																			pos:        position{line: 2867, col: 11, offset: 90677},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28042,17 +28126,17 @@ var g = &grammar{
 													pos: position{line: 1508, col: 5, offset: 49009},
 													expr: &actionExpr{
 														pos: position{line: 1627, col: 5, offset: 52958},
-														run: (*parser).callonExtraListElement563,
+														run: (*parser).callonExtraListElement575,
 														expr: &seqExpr{
 															pos: position{line: 1627, col: 5, offset: 52958},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1627, col: 5, offset: 52958},
 																	expr: &actionExpr{
-																		pos: position{line: 2862, col: 10, offset: 90584},
-																		run: (*parser).callonExtraListElement566,
+																		pos: position{line: 2863, col: 10, offset: 90616},
+																		run: (*parser).callonExtraListElement578,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2862, col: 10, offset: 90584},
+																			pos:        position{line: 2863, col: 10, offset: 90616},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28065,7 +28149,7 @@ var g = &grammar{
 																	label: "style",
 																	expr: &actionExpr{
 																		pos: position{line: 1629, col: 9, offset: 52986},
-																		run: (*parser).callonExtraListElement569,
+																		run: (*parser).callonExtraListElement581,
 																		expr: &choiceExpr{
 																			pos: position{line: 1629, col: 10, offset: 52987},
 																			alternatives: []interface{}{
@@ -28090,15 +28174,15 @@ var g = &grammar{
 																},
 																&andCodeExpr{
 																	pos: position{line: 1632, col: 7, offset: 53086},
-																	run: (*parser).callonExtraListElement574,
+																	run: (*parser).callonExtraListElement586,
 																},
 																&actionExpr{
-																	pos: position{line: 2866, col: 11, offset: 90645},
-																	run: (*parser).callonExtraListElement575,
+																	pos: position{line: 2867, col: 11, offset: 90677},
+																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2866, col: 11, offset: 90645},
+																		pos: position{line: 2867, col: 11, offset: 90677},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2866, col: 11, offset: 90645},
+																			pos:        position{line: 2867, col: 11, offset: 90677},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28113,27 +28197,27 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1509, col: 5, offset: 49041},
 													expr: &actionExpr{
-														pos: position{line: 1716, col: 5, offset: 55495},
-														run: (*parser).callonExtraListElement579,
+														pos: position{line: 1717, col: 5, offset: 55527},
+														run: (*parser).callonExtraListElement591,
 														expr: &seqExpr{
-															pos: position{line: 1716, col: 5, offset: 55495},
+															pos: position{line: 1717, col: 5, offset: 55527},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1716, col: 5, offset: 55495},
+																	pos:        position{line: 1717, col: 5, offset: 55527},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1716, col: 9, offset: 55499},
+																	pos:   position{line: 1717, col: 9, offset: 55531},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1716, col: 14, offset: 55504},
-																		run: (*parser).callonExtraListElement583,
+																		pos: position{line: 1717, col: 14, offset: 55536},
+																		run: (*parser).callonExtraListElement595,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1716, col: 14, offset: 55504},
+																			pos: position{line: 1717, col: 14, offset: 55536},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1716, col: 14, offset: 55504},
+																				pos:        position{line: 1717, col: 14, offset: 55536},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -28143,18 +28227,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1716, col: 62, offset: 55552},
+																	pos:        position{line: 1717, col: 62, offset: 55584},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2866, col: 11, offset: 90645},
-																	run: (*parser).callonExtraListElement587,
+																	pos: position{line: 2867, col: 11, offset: 90677},
+																	run: (*parser).callonExtraListElement599,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2866, col: 11, offset: 90645},
+																		pos: position{line: 2867, col: 11, offset: 90677},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2866, col: 11, offset: 90645},
+																			pos:        position{line: 2867, col: 11, offset: 90677},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28173,109 +28257,137 @@ var g = &grammar{
 														exprs: []interface{}{
 															&actionExpr{
 																pos: position{line: 1662, col: 5, offset: 53977},
-																run: (*parser).callonExtraListElement592,
-																expr: &oneOrMoreExpr{
+																run: (*parser).callonExtraListElement604,
+																expr: &seqExpr{
 																	pos: position{line: 1662, col: 5, offset: 53977},
-																	expr: &seqExpr{
-																		pos: position{line: 1662, col: 6, offset: 53978},
-																		exprs: []interface{}{
-																			&notExpr{
-																				pos: position{line: 1662, col: 6, offset: 53978},
-																				expr: &actionExpr{
-																					pos: position{line: 1667, col: 5, offset: 54128},
-																					run: (*parser).callonExtraListElement596,
-																					expr: &seqExpr{
-																						pos: position{line: 1667, col: 5, offset: 54128},
-																						exprs: []interface{}{
-																							&labeledExpr{
-																								pos:   position{line: 1667, col: 5, offset: 54128},
-																								label: "separator",
-																								expr: &actionExpr{
-																									pos: position{line: 1667, col: 16, offset: 54139},
-																									run: (*parser).callonExtraListElement599,
-																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1667, col: 16, offset: 54139},
-																										expr: &litMatcher{
-																											pos:        position{line: 1667, col: 17, offset: 54140},
-																											val:        ":",
-																											ignoreCase: false,
-																											want:       "\":\"",
-																										},
-																									},
-																								},
-																							},
-																							&andCodeExpr{
-																								pos: position{line: 1670, col: 5, offset: 54197},
-																								run: (*parser).callonExtraListElement602,
-																							},
+																	exprs: []interface{}{
+																		&notExpr{
+																			pos: position{line: 1662, col: 5, offset: 53977},
+																			expr: &seqExpr{
+																				pos: position{line: 2478, col: 31, offset: 79815},
+																				exprs: []interface{}{
+																					&litMatcher{
+																						pos:        position{line: 2478, col: 31, offset: 79815},
+																						val:        "//",
+																						ignoreCase: false,
+																						want:       "\"//\"",
+																					},
+																					&notExpr{
+																						pos: position{line: 2478, col: 36, offset: 79820},
+																						expr: &litMatcher{
+																							pos:        position{line: 2478, col: 37, offset: 79821},
+																							val:        "//",
+																							ignoreCase: false,
+																							want:       "\"//\"",
 																						},
 																					},
 																				},
 																			},
-																			&notExpr{
-																				pos: position{line: 1662, col: 35, offset: 54007},
-																				expr: &choiceExpr{
-																					pos: position{line: 2884, col: 8, offset: 90982},
-																					alternatives: []interface{}{
-																						&actionExpr{
-																							pos: position{line: 2871, col: 12, offset: 90755},
-																							run: (*parser).callonExtraListElement605,
-																							expr: &choiceExpr{
-																								pos: position{line: 2871, col: 13, offset: 90756},
-																								alternatives: []interface{}{
-																									&litMatcher{
-																										pos:        position{line: 2871, col: 13, offset: 90756},
-																										val:        "\n",
-																										ignoreCase: false,
-																										want:       "\"\\n\"",
-																									},
-																									&litMatcher{
-																										pos:        position{line: 2871, col: 20, offset: 90763},
-																										val:        "\r\n",
-																										ignoreCase: false,
-																										want:       "\"\\r\\n\"",
+																		},
+																		&oneOrMoreExpr{
+																			pos: position{line: 1663, col: 5, offset: 54009},
+																			expr: &seqExpr{
+																				pos: position{line: 1663, col: 6, offset: 54010},
+																				exprs: []interface{}{
+																					&notExpr{
+																						pos: position{line: 1663, col: 6, offset: 54010},
+																						expr: &actionExpr{
+																							pos: position{line: 1668, col: 5, offset: 54160},
+																							run: (*parser).callonExtraListElement614,
+																							expr: &seqExpr{
+																								pos: position{line: 1668, col: 5, offset: 54160},
+																								exprs: []interface{}{
+																									&labeledExpr{
+																										pos:   position{line: 1668, col: 5, offset: 54160},
+																										label: "separator",
+																										expr: &actionExpr{
+																											pos: position{line: 1668, col: 16, offset: 54171},
+																											run: (*parser).callonExtraListElement617,
+																											expr: &oneOrMoreExpr{
+																												pos: position{line: 1668, col: 16, offset: 54171},
+																												expr: &litMatcher{
+																													pos:        position{line: 1668, col: 17, offset: 54172},
+																													val:        ":",
+																													ignoreCase: false,
+																													want:       "\":\"",
+																												},
+																											},
+																										},
 																									},
-																									&litMatcher{
-																										pos:        position{line: 2871, col: 29, offset: 90772},
-																										val:        "\r",
-																										ignoreCase: false,
-																										want:       "\"\\r\"",
+																									&andCodeExpr{
+																										pos: position{line: 1671, col: 5, offset: 54229},
+																										run: (*parser).callonExtraListElement620,
 																									},
 																								},
 																							},
 																						},
-																						&notExpr{
-																							pos: position{line: 2881, col: 8, offset: 90932},
-																							expr: &anyMatcher{
-																								line: 2881, col: 9, offset: 90933,
+																					},
+																					&notExpr{
+																						pos: position{line: 1663, col: 35, offset: 54039},
+																						expr: &choiceExpr{
+																							pos: position{line: 2885, col: 8, offset: 91014},
+																							alternatives: []interface{}{
+																								&actionExpr{
+																									pos: position{line: 2872, col: 12, offset: 90787},
+																									run: (*parser).callonExtraListElement623,
+																									expr: &choiceExpr{
+																										pos: position{line: 2872, col: 13, offset: 90788},
+																										alternatives: []interface{}{
+																											&litMatcher{
+																												pos:        position{line: 2872, col: 13, offset: 90788},
+																												val:        "\n",
+																												ignoreCase: false,
+																												want:       "\"\\n\"",
+																											},
+																											&litMatcher{
+																												pos:        position{line: 2872, col: 20, offset: 90795},
+																												val:        "\r\n",
+																												ignoreCase: false,
+																												want:       "\"\\r\\n\"",
+																											},
+																											&litMatcher{
+																												pos:        position{line: 2872, col: 29, offset: 90804},
+																												val:        "\r",
+																												ignoreCase: false,
+																												want:       "\"\\r\"",
+																											},
+																										},
+																									},
+																								},
+																								&notExpr{
+																									pos: position{line: 2882, col: 8, offset: 90964},
+																									expr: &anyMatcher{
+																										line: 2882, col: 9, offset: 90965,
+																									},
+																								},
 																							},
 																						},
 																					},
+																					&anyMatcher{
+																						line: 1663, col: 40, offset: 54044,
+																					},
 																				},
 																			},
-																			&anyMatcher{
-																				line: 1662, col: 40, offset: 54012,
-																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1667, col: 5, offset: 54128},
-																run: (*parser).callonExtraListElement613,
+																pos: position{line: 1668, col: 5, offset: 54160},
+																run: (*parser).callonExtraListElement631,
 																expr: &seqExpr{
-																	pos: position{line: 1667, col: 5, offset: 54128},
+																	pos: position{line: 1668, col: 5, offset: 54160},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1667, col: 5, offset: 54128},
+																			pos:   position{line: 1668, col: 5, offset: 54160},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1667, col: 16, offset: 54139},
-																				run: (*parser).callonExtraListElement616,
+																				pos: position{line: 1668, col: 16, offset: 54171},
+																				run: (*parser).callonExtraListElement634,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1667, col: 16, offset: 54139},
+																					pos: position{line: 1668, col: 16, offset: 54171},
 																					expr: &litMatcher{
-																						pos:        position{line: 1667, col: 17, offset: 54140},
+																						pos:        position{line: 1668, col: 17, offset: 54172},
 																						val:        ":",
 																						ignoreCase: false,
 																						want:       "\":\"",
@@ -28284,8 +28396,8 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1670, col: 5, offset: 54197},
-																			run: (*parser).callonExtraListElement619,
+																			pos: position{line: 1671, col: 5, offset: 54229},
+																			run: (*parser).callonExtraListElement637,
 																		},
 																	},
 																},
@@ -28297,14 +28409,14 @@ var g = &grammar{
 													pos: position{line: 1511, col: 5, offset: 49129},
 													expr: &actionExpr{
 														pos: position{line: 724, col: 5, offset: 23110},
-														run: (*parser).callonExtraListElement621,
+														run: (*parser).callonExtraListElement639,
 														expr: &seqExpr{
 															pos: position{line: 724, col: 5, offset: 23110},
 															exprs: []interface{}{
 																&notExpr{
 																	pos: position{line: 724, col: 5, offset: 23110},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2752, col: 13, offset: 87679},
+																		pos:        position{line: 2753, col: 13, offset: 87711},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -28319,7 +28431,7 @@ var g = &grammar{
 																		alternatives: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 740, col: 5, offset: 23652},
-																				run: (*parser).callonExtraListElement627,
+																				run: (*parser).callonExtraListElement645,
 																				expr: &seqExpr{
 																					pos: position{line: 740, col: 5, offset: 23652},
 																					exprs: []interface{}{
@@ -28328,7 +28440,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 740, col: 16, offset: 23663},
-																								run: (*parser).callonExtraListElement630,
+																								run: (*parser).callonExtraListElement648,
 																								expr: &seqExpr{
 																									pos: position{line: 740, col: 16, offset: 23663},
 																									exprs: []interface{}{
@@ -28354,10 +28466,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 742, col: 8, offset: 23754},
 																							expr: &actionExpr{
-																								pos: position{line: 2862, col: 10, offset: 90584},
-																								run: (*parser).callonExtraListElement636,
+																								pos: position{line: 2863, col: 10, offset: 90616},
+																								run: (*parser).callonExtraListElement654,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2862, col: 10, offset: 90584},
+																									pos:        position{line: 2863, col: 10, offset: 90616},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28366,28 +28478,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2884, col: 8, offset: 90982},
+																							pos: position{line: 2885, col: 8, offset: 91014},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2871, col: 12, offset: 90755},
-																									run: (*parser).callonExtraListElement639,
+																									pos: position{line: 2872, col: 12, offset: 90787},
+																									run: (*parser).callonExtraListElement657,
 																									expr: &choiceExpr{
-																										pos: position{line: 2871, col: 13, offset: 90756},
+																										pos: position{line: 2872, col: 13, offset: 90788},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 13, offset: 90756},
+																												pos:        position{line: 2872, col: 13, offset: 90788},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 20, offset: 90763},
+																												pos:        position{line: 2872, col: 20, offset: 90795},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 29, offset: 90772},
+																												pos:        position{line: 2872, col: 29, offset: 90804},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28396,9 +28508,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2881, col: 8, offset: 90932},
+																									pos: position{line: 2882, col: 8, offset: 90964},
 																									expr: &anyMatcher{
-																										line: 2881, col: 9, offset: 90933,
+																										line: 2882, col: 9, offset: 90965,
 																									},
 																								},
 																							},
@@ -28408,7 +28520,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 747, col: 5, offset: 23900},
-																				run: (*parser).callonExtraListElement646,
+																				run: (*parser).callonExtraListElement664,
 																				expr: &seqExpr{
 																					pos: position{line: 747, col: 5, offset: 23900},
 																					exprs: []interface{}{
@@ -28417,7 +28529,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 747, col: 16, offset: 23911},
-																								run: (*parser).callonExtraListElement649,
+																								run: (*parser).callonExtraListElement667,
 																								expr: &seqExpr{
 																									pos: position{line: 747, col: 16, offset: 23911},
 																									exprs: []interface{}{
@@ -28443,10 +28555,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 749, col: 8, offset: 24002},
 																							expr: &actionExpr{
-																								pos: position{line: 2862, col: 10, offset: 90584},
-																								run: (*parser).callonExtraListElement655,
+																								pos: position{line: 2863, col: 10, offset: 90616},
+																								run: (*parser).callonExtraListElement673,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2862, col: 10, offset: 90584},
+																									pos:        position{line: 2863, col: 10, offset: 90616},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28455,28 +28567,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2884, col: 8, offset: 90982},
+																							pos: position{line: 2885, col: 8, offset: 91014},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2871, col: 12, offset: 90755},
-																									run: (*parser).callonExtraListElement658,
+																									pos: position{line: 2872, col: 12, offset: 90787},
+																									run: (*parser).callonExtraListElement676,
 																									expr: &choiceExpr{
-																										pos: position{line: 2871, col: 13, offset: 90756},
+																										pos: position{line: 2872, col: 13, offset: 90788},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 13, offset: 90756},
+																												pos:        position{line: 2872, col: 13, offset: 90788},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 20, offset: 90763},
+																												pos:        position{line: 2872, col: 20, offset: 90795},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 29, offset: 90772},
+																												pos:        position{line: 2872, col: 29, offset: 90804},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28485,9 +28597,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2881, col: 8, offset: 90932},
+																									pos: position{line: 2882, col: 8, offset: 90964},
 																									expr: &anyMatcher{
-																										line: 2881, col: 9, offset: 90933,
+																										line: 2882, col: 9, offset: 90965,
 																									},
 																								},
 																							},
@@ -28497,7 +28609,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 760, col: 26, offset: 24388},
-																				run: (*parser).callonExtraListElement665,
+																				run: (*parser).callonExtraListElement683,
 																				expr: &seqExpr{
 																					pos: position{line: 760, col: 26, offset: 24388},
 																					exprs: []interface{}{
@@ -28512,7 +28624,7 @@ var g = &grammar{
 																							label: "language",
 																							expr: &actionExpr{
 																								pos: position{line: 764, col: 13, offset: 24524},
-																								run: (*parser).callonExtraListElement669,
+																								run: (*parser).callonExtraListElement687,
 																								expr: &oneOrMoreExpr{
 																									pos: position{line: 764, col: 14, offset: 24525},
 																									expr: &charClassMatcher{
@@ -28528,10 +28640,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 760, col: 52, offset: 24414},
 																							expr: &actionExpr{
-																								pos: position{line: 2862, col: 10, offset: 90584},
-																								run: (*parser).callonExtraListElement673,
+																								pos: position{line: 2863, col: 10, offset: 90616},
+																								run: (*parser).callonExtraListElement691,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2862, col: 10, offset: 90584},
+																									pos:        position{line: 2863, col: 10, offset: 90616},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28540,28 +28652,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2884, col: 8, offset: 90982},
+																							pos: position{line: 2885, col: 8, offset: 91014},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2871, col: 12, offset: 90755},
-																									run: (*parser).callonExtraListElement676,
+																									pos: position{line: 2872, col: 12, offset: 90787},
+																									run: (*parser).callonExtraListElement694,
 																									expr: &choiceExpr{
-																										pos: position{line: 2871, col: 13, offset: 90756},
+																										pos: position{line: 2872, col: 13, offset: 90788},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 13, offset: 90756},
+																												pos:        position{line: 2872, col: 13, offset: 90788},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 20, offset: 90763},
+																												pos:        position{line: 2872, col: 20, offset: 90795},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 29, offset: 90772},
+																												pos:        position{line: 2872, col: 29, offset: 90804},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28570,9 +28682,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2881, col: 8, offset: 90932},
+																									pos: position{line: 2882, col: 8, offset: 90964},
 																									expr: &anyMatcher{
-																										line: 2881, col: 9, offset: 90933,
+																										line: 2882, col: 9, offset: 90965,
 																									},
 																								},
 																							},
@@ -28582,7 +28694,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 754, col: 5, offset: 24147},
-																				run: (*parser).callonExtraListElement683,
+																				run: (*parser).callonExtraListElement701,
 																				expr: &seqExpr{
 																					pos: position{line: 754, col: 5, offset: 24147},
 																					exprs: []interface{}{
@@ -28591,7 +28703,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 754, col: 16, offset: 24158},
-																								run: (*parser).callonExtraListElement686,
+																								run: (*parser).callonExtraListElement704,
 																								expr: &seqExpr{
 																									pos: position{line: 754, col: 16, offset: 24158},
 																									exprs: []interface{}{
@@ -28617,10 +28729,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 756, col: 8, offset: 24248},
 																							expr: &actionExpr{
-																								pos: position{line: 2862, col: 10, offset: 90584},
-																								run: (*parser).callonExtraListElement692,
+																								pos: position{line: 2863, col: 10, offset: 90616},
+																								run: (*parser).callonExtraListElement710,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2862, col: 10, offset: 90584},
+																									pos:        position{line: 2863, col: 10, offset: 90616},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28629,28 +28741,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2884, col: 8, offset: 90982},
+																							pos: position{line: 2885, col: 8, offset: 91014},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2871, col: 12, offset: 90755},
-																									run: (*parser).callonExtraListElement695,
+																									pos: position{line: 2872, col: 12, offset: 90787},
+																									run: (*parser).callonExtraListElement713,
 																									expr: &choiceExpr{
-																										pos: position{line: 2871, col: 13, offset: 90756},
+																										pos: position{line: 2872, col: 13, offset: 90788},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 13, offset: 90756},
+																												pos:        position{line: 2872, col: 13, offset: 90788},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 20, offset: 90763},
+																												pos:        position{line: 2872, col: 20, offset: 90795},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 29, offset: 90772},
+																												pos:        position{line: 2872, col: 29, offset: 90804},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28659,9 +28771,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2881, col: 8, offset: 90932},
+																									pos: position{line: 2882, col: 8, offset: 90964},
 																									expr: &anyMatcher{
-																										line: 2881, col: 9, offset: 90933,
+																										line: 2882, col: 9, offset: 90965,
 																									},
 																								},
 																							},
@@ -28671,7 +28783,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 769, col: 5, offset: 24689},
-																				run: (*parser).callonExtraListElement702,
+																				run: (*parser).callonExtraListElement720,
 																				expr: &seqExpr{
 																					pos: position{line: 769, col: 5, offset: 24689},
 																					exprs: []interface{}{
@@ -28680,7 +28792,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 769, col: 16, offset: 24700},
-																								run: (*parser).callonExtraListElement705,
+																								run: (*parser).callonExtraListElement723,
 																								expr: &seqExpr{
 																									pos: position{line: 769, col: 16, offset: 24700},
 																									exprs: []interface{}{
@@ -28706,10 +28818,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 771, col: 8, offset: 24791},
 																							expr: &actionExpr{
-																								pos: position{line: 2862, col: 10, offset: 90584},
-																								run: (*parser).callonExtraListElement711,
+																								pos: position{line: 2863, col: 10, offset: 90616},
+																								run: (*parser).callonExtraListElement729,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2862, col: 10, offset: 90584},
+																									pos:        position{line: 2863, col: 10, offset: 90616},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28718,28 +28830,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2884, col: 8, offset: 90982},
+																							pos: position{line: 2885, col: 8, offset: 91014},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2871, col: 12, offset: 90755},
-																									run: (*parser).callonExtraListElement714,
+																									pos: position{line: 2872, col: 12, offset: 90787},
+																									run: (*parser).callonExtraListElement732,
 																									expr: &choiceExpr{
-																										pos: position{line: 2871, col: 13, offset: 90756},
+																										pos: position{line: 2872, col: 13, offset: 90788},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 13, offset: 90756},
+																												pos:        position{line: 2872, col: 13, offset: 90788},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 20, offset: 90763},
+																												pos:        position{line: 2872, col: 20, offset: 90795},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 29, offset: 90772},
+																												pos:        position{line: 2872, col: 29, offset: 90804},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28748,9 +28860,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2881, col: 8, offset: 90932},
+																									pos: position{line: 2882, col: 8, offset: 90964},
 																									expr: &anyMatcher{
-																										line: 2881, col: 9, offset: 90933,
+																										line: 2882, col: 9, offset: 90965,
 																									},
 																								},
 																							},
@@ -28760,7 +28872,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 783, col: 5, offset: 25165},
-																				run: (*parser).callonExtraListElement721,
+																				run: (*parser).callonExtraListElement739,
 																				expr: &seqExpr{
 																					pos: position{line: 783, col: 5, offset: 25165},
 																					exprs: []interface{}{
@@ -28769,7 +28881,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 783, col: 16, offset: 25176},
-																								run: (*parser).callonExtraListElement724,
+																								run: (*parser).callonExtraListElement742,
 																								expr: &seqExpr{
 																									pos: position{line: 783, col: 16, offset: 25176},
 																									exprs: []interface{}{
@@ -28795,10 +28907,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 785, col: 8, offset: 25267},
 																							expr: &actionExpr{
-																								pos: position{line: 2862, col: 10, offset: 90584},
-																								run: (*parser).callonExtraListElement730,
+																								pos: position{line: 2863, col: 10, offset: 90616},
+																								run: (*parser).callonExtraListElement748,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2862, col: 10, offset: 90584},
+																									pos:        position{line: 2863, col: 10, offset: 90616},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28807,28 +28919,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2884, col: 8, offset: 90982},
+																							pos: position{line: 2885, col: 8, offset: 91014},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2871, col: 12, offset: 90755},
-																									run: (*parser).callonExtraListElement733,
+																									pos: position{line: 2872, col: 12, offset: 90787},
+																									run: (*parser).callonExtraListElement751,
 																									expr: &choiceExpr{
-																										pos: position{line: 2871, col: 13, offset: 90756},
+																										pos: position{line: 2872, col: 13, offset: 90788},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 13, offset: 90756},
+																												pos:        position{line: 2872, col: 13, offset: 90788},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 20, offset: 90763},
+																												pos:        position{line: 2872, col: 20, offset: 90795},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 29, offset: 90772},
+																												pos:        position{line: 2872, col: 29, offset: 90804},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28837,9 +28949,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2881, col: 8, offset: 90932},
+																									pos: position{line: 2882, col: 8, offset: 90964},
 																									expr: &anyMatcher{
-																										line: 2881, col: 9, offset: 90933,
+																										line: 2882, col: 9, offset: 90965,
 																									},
 																								},
 																							},
@@ -28849,7 +28961,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 790, col: 5, offset: 25417},
-																				run: (*parser).callonExtraListElement740,
+																				run: (*parser).callonExtraListElement758,
 																				expr: &seqExpr{
 																					pos: position{line: 790, col: 5, offset: 25417},
 																					exprs: []interface{}{
@@ -28858,7 +28970,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 790, col: 16, offset: 25428},
-																								run: (*parser).callonExtraListElement743,
+																								run: (*parser).callonExtraListElement761,
 																								expr: &seqExpr{
 																									pos: position{line: 790, col: 16, offset: 25428},
 																									exprs: []interface{}{
@@ -28884,10 +28996,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 792, col: 8, offset: 25519},
 																							expr: &actionExpr{
-																								pos: position{line: 2862, col: 10, offset: 90584},
-																								run: (*parser).callonExtraListElement749,
+																								pos: position{line: 2863, col: 10, offset: 90616},
+																								run: (*parser).callonExtraListElement767,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2862, col: 10, offset: 90584},
+																									pos:        position{line: 2863, col: 10, offset: 90616},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28896,28 +29008,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2884, col: 8, offset: 90982},
+																							pos: position{line: 2885, col: 8, offset: 91014},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2871, col: 12, offset: 90755},
-																									run: (*parser).callonExtraListElement752,
+																									pos: position{line: 2872, col: 12, offset: 90787},
+																									run: (*parser).callonExtraListElement770,
 																									expr: &choiceExpr{
-																										pos: position{line: 2871, col: 13, offset: 90756},
+																										pos: position{line: 2872, col: 13, offset: 90788},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 13, offset: 90756},
+																												pos:        position{line: 2872, col: 13, offset: 90788},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 20, offset: 90763},
+																												pos:        position{line: 2872, col: 20, offset: 90795},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 29, offset: 90772},
+																												pos:        position{line: 2872, col: 29, offset: 90804},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28926,9 +29038,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2881, col: 8, offset: 90932},
+																									pos: position{line: 2882, col: 8, offset: 90964},
 																									expr: &anyMatcher{
-																										line: 2881, col: 9, offset: 90933,
+																										line: 2882, col: 9, offset: 90965,
 																									},
 																								},
 																							},
@@ -28938,7 +29050,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 797, col: 5, offset: 25667},
-																				run: (*parser).callonExtraListElement759,
+																				run: (*parser).callonExtraListElement777,
 																				expr: &seqExpr{
 																					pos: position{line: 797, col: 5, offset: 25667},
 																					exprs: []interface{}{
@@ -28947,7 +29059,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 797, col: 16, offset: 25678},
-																								run: (*parser).callonExtraListElement762,
+																								run: (*parser).callonExtraListElement780,
 																								expr: &seqExpr{
 																									pos: position{line: 797, col: 16, offset: 25678},
 																									exprs: []interface{}{
@@ -28973,10 +29085,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 799, col: 8, offset: 25769},
 																							expr: &actionExpr{
-																								pos: position{line: 2862, col: 10, offset: 90584},
-																								run: (*parser).callonExtraListElement768,
+																								pos: position{line: 2863, col: 10, offset: 90616},
+																								run: (*parser).callonExtraListElement786,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2862, col: 10, offset: 90584},
+																									pos:        position{line: 2863, col: 10, offset: 90616},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28985,28 +29097,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2884, col: 8, offset: 90982},
+																							pos: position{line: 2885, col: 8, offset: 91014},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2871, col: 12, offset: 90755},
-																									run: (*parser).callonExtraListElement771,
+																									pos: position{line: 2872, col: 12, offset: 90787},
+																									run: (*parser).callonExtraListElement789,
 																									expr: &choiceExpr{
-																										pos: position{line: 2871, col: 13, offset: 90756},
+																										pos: position{line: 2872, col: 13, offset: 90788},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 13, offset: 90756},
+																												pos:        position{line: 2872, col: 13, offset: 90788},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 20, offset: 90763},
+																												pos:        position{line: 2872, col: 20, offset: 90795},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 29, offset: 90772},
+																												pos:        position{line: 2872, col: 29, offset: 90804},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29015,9 +29127,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2881, col: 8, offset: 90932},
+																									pos: position{line: 2882, col: 8, offset: 90964},
 																									expr: &anyMatcher{
-																										line: 2881, col: 9, offset: 90933,
+																										line: 2882, col: 9, offset: 90965,
 																									},
 																								},
 																							},
@@ -29027,7 +29139,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 804, col: 5, offset: 25913},
-																				run: (*parser).callonExtraListElement778,
+																				run: (*parser).callonExtraListElement796,
 																				expr: &seqExpr{
 																					pos: position{line: 804, col: 5, offset: 25913},
 																					exprs: []interface{}{
@@ -29036,7 +29148,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 804, col: 16, offset: 25924},
-																								run: (*parser).callonExtraListElement781,
+																								run: (*parser).callonExtraListElement799,
 																								expr: &seqExpr{
 																									pos: position{line: 804, col: 16, offset: 25924},
 																									exprs: []interface{}{
@@ -29062,10 +29174,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 806, col: 8, offset: 26015},
 																							expr: &actionExpr{
-																								pos: position{line: 2862, col: 10, offset: 90584},
-																								run: (*parser).callonExtraListElement787,
+																								pos: position{line: 2863, col: 10, offset: 90616},
+																								run: (*parser).callonExtraListElement805,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2862, col: 10, offset: 90584},
+																									pos:        position{line: 2863, col: 10, offset: 90616},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29074,28 +29186,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2884, col: 8, offset: 90982},
+																							pos: position{line: 2885, col: 8, offset: 91014},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2871, col: 12, offset: 90755},
-																									run: (*parser).callonExtraListElement790,
+																									pos: position{line: 2872, col: 12, offset: 90787},
+																									run: (*parser).callonExtraListElement808,
 																									expr: &choiceExpr{
-																										pos: position{line: 2871, col: 13, offset: 90756},
+																										pos: position{line: 2872, col: 13, offset: 90788},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 13, offset: 90756},
+																												pos:        position{line: 2872, col: 13, offset: 90788},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 20, offset: 90763},
+																												pos:        position{line: 2872, col: 20, offset: 90795},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 29, offset: 90772},
+																												pos:        position{line: 2872, col: 29, offset: 90804},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29104,9 +29216,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2881, col: 8, offset: 90932},
+																									pos: position{line: 2882, col: 8, offset: 90964},
 																									expr: &anyMatcher{
-																										line: 2881, col: 9, offset: 90933,
+																										line: 2882, col: 9, offset: 90965,
 																									},
 																								},
 																							},
@@ -29125,12 +29237,12 @@ var g = &grammar{
 													pos:   position{line: 1512, col: 5, offset: 49149},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2812, col: 14, offset: 89177},
-														run: (*parser).callonExtraListElement798,
+														pos: position{line: 2813, col: 14, offset: 89209},
+														run: (*parser).callonExtraListElement816,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2812, col: 14, offset: 89177},
+															pos: position{line: 2813, col: 14, offset: 89209},
 															expr: &charClassMatcher{
-																pos:        position{line: 2812, col: 14, offset: 89177},
+																pos:        position{line: 2813, col: 14, offset: 89209},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -29140,28 +29252,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2884, col: 8, offset: 90982},
+													pos: position{line: 2885, col: 8, offset: 91014},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2871, col: 12, offset: 90755},
-															run: (*parser).callonExtraListElement802,
+															pos: position{line: 2872, col: 12, offset: 90787},
+															run: (*parser).callonExtraListElement820,
 															expr: &choiceExpr{
-																pos: position{line: 2871, col: 13, offset: 90756},
+																pos: position{line: 2872, col: 13, offset: 90788},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2871, col: 13, offset: 90756},
+																		pos:        position{line: 2872, col: 13, offset: 90788},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2871, col: 20, offset: 90763},
+																		pos:        position{line: 2872, col: 20, offset: 90795},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2871, col: 29, offset: 90772},
+																		pos:        position{line: 2872, col: 29, offset: 90804},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -29170,9 +29282,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2881, col: 8, offset: 90932},
+															pos: position{line: 2882, col: 8, offset: 90964},
 															expr: &anyMatcher{
-																line: 2881, col: 9, offset: 90933,
+																line: 2882, col: 9, offset: 90965,
 															},
 														},
 													},
@@ -29207,10 +29319,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 1529, col: 13, offset: 49573},
 											expr: &actionExpr{
-												pos: position{line: 2862, col: 10, offset: 90584},
+												pos: position{line: 2863, col: 10, offset: 90616},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2862, col: 10, offset: 90584},
+													pos:        position{line: 2863, col: 10, offset: 90616},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -29219,25 +29331,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2871, col: 12, offset: 90755},
+											pos: position{line: 2872, col: 12, offset: 90787},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2871, col: 13, offset: 90756},
+												pos: position{line: 2872, col: 13, offset: 90788},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2871, col: 13, offset: 90756},
+														pos:        position{line: 2872, col: 13, offset: 90788},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2871, col: 20, offset: 90763},
+														pos:        position{line: 2872, col: 20, offset: 90795},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2871, col: 29, offset: 90772},
+														pos:        position{line: 2872, col: 29, offset: 90804},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -29258,10 +29370,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1536, col: 31, offset: 49781},
 							expr: &actionExpr{
-								pos: position{line: 2862, col: 10, offset: 90584},
+								pos: position{line: 2863, col: 10, offset: 90616},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2862, col: 10, offset: 90584},
+									pos:        position{line: 2863, col: 10, offset: 90616},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -29270,25 +29382,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2871, col: 12, offset: 90755},
+							pos: position{line: 2872, col: 12, offset: 90787},
 							run: (*parser).callonListContinuation18,
 							expr: &choiceExpr{
-								pos: position{line: 2871, col: 13, offset: 90756},
+								pos: position{line: 2872, col: 13, offset: 90788},
 								alternatives: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2871, col: 13, offset: 90756},
+										pos:        position{line: 2872, col: 13, offset: 90788},
 										val:        "\n",
 										ignoreCase: false,
 										want:       "\"\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2871, col: 20, offset: 90763},
+										pos:        position{line: 2872, col: 20, offset: 90795},
 										val:        "\r\n",
 										ignoreCase: false,
 										want:       "\"\\r\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2871, col: 29, offset: 90772},
+										pos:        position{line: 2872, col: 29, offset: 90804},
 										val:        "\r",
 										ignoreCase: false,
 										want:       "\"\\r\"",
@@ -29321,9 +29433,9 @@ var g = &grammar{
 					pos: position{line: 1539, col: 5, offset: 49868},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2879, col: 11, offset: 90918},
+							pos: position{line: 2880, col: 11, offset: 90950},
 							expr: &anyMatcher{
-								line: 2879, col: 13, offset: 90920,
+								line: 2880, col: 13, offset: 90952,
 							},
 						},
 						&notExpr{
@@ -29349,10 +29461,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1577, col: 5, offset: 50996},
 																	expr: &actionExpr{
-																		pos: position{line: 2862, col: 10, offset: 90584},
+																		pos: position{line: 2863, col: 10, offset: 90616},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2862, col: 10, offset: 90584},
+																			pos:        position{line: 2863, col: 10, offset: 90616},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29519,12 +29631,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2866, col: 11, offset: 90645},
+																	pos: position{line: 2867, col: 11, offset: 90677},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2866, col: 11, offset: 90645},
+																		pos: position{line: 2867, col: 11, offset: 90677},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2866, col: 11, offset: 90645},
+																			pos:        position{line: 2867, col: 11, offset: 90677},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29567,28 +29679,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2884, col: 8, offset: 90982},
+																	pos: position{line: 2885, col: 8, offset: 91014},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2871, col: 12, offset: 90755},
+																			pos: position{line: 2872, col: 12, offset: 90787},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2871, col: 13, offset: 90756},
+																				pos: position{line: 2872, col: 13, offset: 90788},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 13, offset: 90756},
+																						pos:        position{line: 2872, col: 13, offset: 90788},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 20, offset: 90763},
+																						pos:        position{line: 2872, col: 20, offset: 90795},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 29, offset: 90772},
+																						pos:        position{line: 2872, col: 29, offset: 90804},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29597,9 +29709,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2881, col: 8, offset: 90932},
+																			pos: position{line: 2882, col: 8, offset: 90964},
 																			expr: &anyMatcher{
-																				line: 2881, col: 9, offset: 90933,
+																				line: 2882, col: 9, offset: 90965,
 																			},
 																		},
 																	},
@@ -29629,10 +29741,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1627, col: 5, offset: 52958},
 																	expr: &actionExpr{
-																		pos: position{line: 2862, col: 10, offset: 90584},
+																		pos: position{line: 2863, col: 10, offset: 90616},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2862, col: 10, offset: 90584},
+																			pos:        position{line: 2863, col: 10, offset: 90616},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29673,12 +29785,12 @@ var g = &grammar{
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2866, col: 11, offset: 90645},
+																	pos: position{line: 2867, col: 11, offset: 90677},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2866, col: 11, offset: 90645},
+																		pos: position{line: 2867, col: 11, offset: 90677},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2866, col: 11, offset: 90645},
+																			pos:        position{line: 2867, col: 11, offset: 90677},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29750,12 +29862,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2866, col: 11, offset: 90645},
+																		pos: position{line: 2867, col: 11, offset: 90677},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2866, col: 11, offset: 90645},
+																			pos: position{line: 2867, col: 11, offset: 90677},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2866, col: 11, offset: 90645},
+																				pos:        position{line: 2867, col: 11, offset: 90677},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -29799,28 +29911,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2884, col: 8, offset: 90982},
+																	pos: position{line: 2885, col: 8, offset: 91014},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2871, col: 12, offset: 90755},
+																			pos: position{line: 2872, col: 12, offset: 90787},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2871, col: 13, offset: 90756},
+																				pos: position{line: 2872, col: 13, offset: 90788},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 13, offset: 90756},
+																						pos:        position{line: 2872, col: 13, offset: 90788},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 20, offset: 90763},
+																						pos:        position{line: 2872, col: 20, offset: 90795},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 29, offset: 90772},
+																						pos:        position{line: 2872, col: 29, offset: 90804},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29829,9 +29941,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2881, col: 8, offset: 90932},
+																			pos: position{line: 2882, col: 8, offset: 90964},
 																			expr: &anyMatcher{
-																				line: 2881, col: 9, offset: 90933,
+																				line: 2882, col: 9, offset: 90965,
 																			},
 																		},
 																	},
@@ -29844,36 +29956,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1710, col: 5, offset: 55298},
+										pos: position{line: 1711, col: 5, offset: 55330},
 										run: (*parser).callonListContinuationElement117,
 										expr: &seqExpr{
-											pos: position{line: 1710, col: 5, offset: 55298},
+											pos: position{line: 1711, col: 5, offset: 55330},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1710, col: 5, offset: 55298},
+													pos:   position{line: 1711, col: 5, offset: 55330},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1716, col: 5, offset: 55495},
+														pos: position{line: 1717, col: 5, offset: 55527},
 														run: (*parser).callonListContinuationElement120,
 														expr: &seqExpr{
-															pos: position{line: 1716, col: 5, offset: 55495},
+															pos: position{line: 1717, col: 5, offset: 55527},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1716, col: 5, offset: 55495},
+																	pos:        position{line: 1717, col: 5, offset: 55527},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1716, col: 9, offset: 55499},
+																	pos:   position{line: 1717, col: 9, offset: 55531},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1716, col: 14, offset: 55504},
+																		pos: position{line: 1717, col: 14, offset: 55536},
 																		run: (*parser).callonListContinuationElement124,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1716, col: 14, offset: 55504},
+																			pos: position{line: 1717, col: 14, offset: 55536},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1716, col: 14, offset: 55504},
+																				pos:        position{line: 1717, col: 14, offset: 55536},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -29883,18 +29995,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1716, col: 62, offset: 55552},
+																	pos:        position{line: 1717, col: 62, offset: 55584},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2866, col: 11, offset: 90645},
+																	pos: position{line: 2867, col: 11, offset: 90677},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2866, col: 11, offset: 90645},
+																		pos: position{line: 2867, col: 11, offset: 90677},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2866, col: 11, offset: 90645},
+																			pos:        position{line: 2867, col: 11, offset: 90677},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29907,7 +30019,7 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1711, col: 5, offset: 55334},
+													pos:   position{line: 1712, col: 5, offset: 55366},
 													label: "description",
 													expr: &actionExpr{
 														pos: position{line: 1518, col: 5, offset: 49294},
@@ -29937,28 +30049,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2884, col: 8, offset: 90982},
+																	pos: position{line: 2885, col: 8, offset: 91014},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2871, col: 12, offset: 90755},
+																			pos: position{line: 2872, col: 12, offset: 90787},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2871, col: 13, offset: 90756},
+																				pos: position{line: 2872, col: 13, offset: 90788},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 13, offset: 90756},
+																						pos:        position{line: 2872, col: 13, offset: 90788},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 20, offset: 90763},
+																						pos:        position{line: 2872, col: 20, offset: 90795},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 29, offset: 90772},
+																						pos:        position{line: 2872, col: 29, offset: 90804},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29967,9 +30079,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2881, col: 8, offset: 90932},
+																			pos: position{line: 2882, col: 8, offset: 90964},
 																			expr: &anyMatcher{
-																				line: 2881, col: 9, offset: 90933,
+																				line: 2882, col: 9, offset: 90965,
 																			},
 																		},
 																	},
@@ -29993,88 +30105,116 @@ var g = &grammar{
 													expr: &actionExpr{
 														pos: position{line: 1662, col: 5, offset: 53977},
 														run: (*parser).callonListContinuationElement150,
-														expr: &oneOrMoreExpr{
+														expr: &seqExpr{
 															pos: position{line: 1662, col: 5, offset: 53977},
-															expr: &seqExpr{
-																pos: position{line: 1662, col: 6, offset: 53978},
-																exprs: []interface{}{
-																	&notExpr{
-																		pos: position{line: 1662, col: 6, offset: 53978},
-																		expr: &actionExpr{
-																			pos: position{line: 1667, col: 5, offset: 54128},
-																			run: (*parser).callonListContinuationElement154,
-																			expr: &seqExpr{
-																				pos: position{line: 1667, col: 5, offset: 54128},
-																				exprs: []interface{}{
-																					&labeledExpr{
-																						pos:   position{line: 1667, col: 5, offset: 54128},
-																						label: "separator",
-																						expr: &actionExpr{
-																							pos: position{line: 1667, col: 16, offset: 54139},
-																							run: (*parser).callonListContinuationElement157,
-																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1667, col: 16, offset: 54139},
-																								expr: &litMatcher{
-																									pos:        position{line: 1667, col: 17, offset: 54140},
-																									val:        ":",
-																									ignoreCase: false,
-																									want:       "\":\"",
-																								},
-																							},
-																						},
-																					},
-																					&andCodeExpr{
-																						pos: position{line: 1670, col: 5, offset: 54197},
-																						run: (*parser).callonListContinuationElement160,
-																					},
+															exprs: []interface{}{
+																&notExpr{
+																	pos: position{line: 1662, col: 5, offset: 53977},
+																	expr: &seqExpr{
+																		pos: position{line: 2478, col: 31, offset: 79815},
+																		exprs: []interface{}{
+																			&litMatcher{
+																				pos:        position{line: 2478, col: 31, offset: 79815},
+																				val:        "//",
+																				ignoreCase: false,
+																				want:       "\"//\"",
+																			},
+																			&notExpr{
+																				pos: position{line: 2478, col: 36, offset: 79820},
+																				expr: &litMatcher{
+																					pos:        position{line: 2478, col: 37, offset: 79821},
+																					val:        "//",
+																					ignoreCase: false,
+																					want:       "\"//\"",
 																				},
 																			},
 																		},
 																	},
-																	&notExpr{
-																		pos: position{line: 1662, col: 35, offset: 54007},
-																		expr: &choiceExpr{
-																			pos: position{line: 2884, col: 8, offset: 90982},
-																			alternatives: []interface{}{
-																				&actionExpr{
-																					pos: position{line: 2871, col: 12, offset: 90755},
-																					run: (*parser).callonListContinuationElement163,
-																					expr: &choiceExpr{
-																						pos: position{line: 2871, col: 13, offset: 90756},
-																						alternatives: []interface{}{
-																							&litMatcher{
-																								pos:        position{line: 2871, col: 13, offset: 90756},
-																								val:        "\n",
-																								ignoreCase: false,
-																								want:       "\"\\n\"",
-																							},
-																							&litMatcher{
-																								pos:        position{line: 2871, col: 20, offset: 90763},
-																								val:        "\r\n",
-																								ignoreCase: false,
-																								want:       "\"\\r\\n\"",
+																},
+																&oneOrMoreExpr{
+																	pos: position{line: 1663, col: 5, offset: 54009},
+																	expr: &seqExpr{
+																		pos: position{line: 1663, col: 6, offset: 54010},
+																		exprs: []interface{}{
+																			&notExpr{
+																				pos: position{line: 1663, col: 6, offset: 54010},
+																				expr: &actionExpr{
+																					pos: position{line: 1668, col: 5, offset: 54160},
+																					run: (*parser).callonListContinuationElement160,
+																					expr: &seqExpr{
+																						pos: position{line: 1668, col: 5, offset: 54160},
+																						exprs: []interface{}{
+																							&labeledExpr{
+																								pos:   position{line: 1668, col: 5, offset: 54160},
+																								label: "separator",
+																								expr: &actionExpr{
+																									pos: position{line: 1668, col: 16, offset: 54171},
+																									run: (*parser).callonListContinuationElement163,
+																									expr: &oneOrMoreExpr{
+																										pos: position{line: 1668, col: 16, offset: 54171},
+																										expr: &litMatcher{
+																											pos:        position{line: 1668, col: 17, offset: 54172},
+																											val:        ":",
+																											ignoreCase: false,
+																											want:       "\":\"",
+																										},
+																									},
+																								},
 																							},
-																							&litMatcher{
-																								pos:        position{line: 2871, col: 29, offset: 90772},
-																								val:        "\r",
-																								ignoreCase: false,
-																								want:       "\"\\r\"",
+																							&andCodeExpr{
+																								pos: position{line: 1671, col: 5, offset: 54229},
+																								run: (*parser).callonListContinuationElement166,
 																							},
 																						},
 																					},
 																				},
-																				&notExpr{
-																					pos: position{line: 2881, col: 8, offset: 90932},
-																					expr: &anyMatcher{
-																						line: 2881, col: 9, offset: 90933,
+																			},
+																			&notExpr{
+																				pos: position{line: 1663, col: 35, offset: 54039},
+																				expr: &choiceExpr{
+																					pos: position{line: 2885, col: 8, offset: 91014},
+																					alternatives: []interface{}{
+																						&actionExpr{
+																							pos: position{line: 2872, col: 12, offset: 90787},
+																							run: (*parser).callonListContinuationElement169,
+																							expr: &choiceExpr{
+																								pos: position{line: 2872, col: 13, offset: 90788},
+																								alternatives: []interface{}{
+																									&litMatcher{
+																										pos:        position{line: 2872, col: 13, offset: 90788},
+																										val:        "\n",
+																										ignoreCase: false,
+																										want:       "\"\\n\"",
+																									},
+																									&litMatcher{
+																										pos:        position{line: 2872, col: 20, offset: 90795},
+																										val:        "\r\n",
+																										ignoreCase: false,
+																										want:       "\"\\r\\n\"",
+																									},
+																									&litMatcher{
+																										pos:        position{line: 2872, col: 29, offset: 90804},
+																										val:        "\r",
+																										ignoreCase: false,
+																										want:       "\"\\r\"",
+																									},
+																								},
+																							},
+																						},
+																						&notExpr{
+																							pos: position{line: 2882, col: 8, offset: 90964},
+																							expr: &anyMatcher{
+																								line: 2882, col: 9, offset: 90965,
+																							},
+																						},
 																					},
 																				},
 																			},
+																			&anyMatcher{
+																				line: 1663, col: 40, offset: 54044,
+																			},
 																		},
 																	},
-																	&anyMatcher{
-																		line: 1662, col: 40, offset: 54012,
-																	},
 																},
 															},
 														},
@@ -30084,21 +30224,21 @@ var g = &grammar{
 													pos:   position{line: 1655, col: 5, offset: 53686},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1667, col: 5, offset: 54128},
-														run: (*parser).callonListContinuationElement172,
+														pos: position{line: 1668, col: 5, offset: 54160},
+														run: (*parser).callonListContinuationElement178,
 														expr: &seqExpr{
-															pos: position{line: 1667, col: 5, offset: 54128},
+															pos: position{line: 1668, col: 5, offset: 54160},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1667, col: 5, offset: 54128},
+																	pos:   position{line: 1668, col: 5, offset: 54160},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1667, col: 16, offset: 54139},
-																		run: (*parser).callonListContinuationElement175,
+																		pos: position{line: 1668, col: 16, offset: 54171},
+																		run: (*parser).callonListContinuationElement181,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1667, col: 16, offset: 54139},
+																			pos: position{line: 1668, col: 16, offset: 54171},
 																			expr: &litMatcher{
-																				pos:        position{line: 1667, col: 17, offset: 54140},
+																				pos:        position{line: 1668, col: 17, offset: 54172},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -30107,8 +30247,8 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1670, col: 5, offset: 54197},
-																	run: (*parser).callonListContinuationElement178,
+																	pos: position{line: 1671, col: 5, offset: 54229},
+																	run: (*parser).callonListContinuationElement184,
 																},
 															},
 														},
@@ -30118,21 +30258,21 @@ var g = &grammar{
 													pos:   position{line: 1656, col: 5, offset: 53731},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1678, col: 5, offset: 54446},
+														pos: position{line: 1679, col: 5, offset: 54478},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1680, col: 9, offset: 54512},
-																run: (*parser).callonListContinuationElement181,
+																pos: position{line: 1681, col: 9, offset: 54544},
+																run: (*parser).callonListContinuationElement187,
 																expr: &seqExpr{
-																	pos: position{line: 1680, col: 9, offset: 54512},
+																	pos: position{line: 1681, col: 9, offset: 54544},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1680, col: 9, offset: 54512},
+																			pos: position{line: 1681, col: 9, offset: 54544},
 																			expr: &actionExpr{
-																				pos: position{line: 2862, col: 10, offset: 90584},
-																				run: (*parser).callonListContinuationElement184,
+																				pos: position{line: 2863, col: 10, offset: 90616},
+																				run: (*parser).callonListContinuationElement190,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2862, col: 10, offset: 90584},
+																					pos:        position{line: 2863, col: 10, offset: 90616},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30141,28 +30281,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2884, col: 8, offset: 90982},
+																			pos: position{line: 2885, col: 8, offset: 91014},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2871, col: 12, offset: 90755},
-																					run: (*parser).callonListContinuationElement187,
+																					pos: position{line: 2872, col: 12, offset: 90787},
+																					run: (*parser).callonListContinuationElement193,
 																					expr: &choiceExpr{
-																						pos: position{line: 2871, col: 13, offset: 90756},
+																						pos: position{line: 2872, col: 13, offset: 90788},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2871, col: 13, offset: 90756},
+																								pos:        position{line: 2872, col: 13, offset: 90788},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2871, col: 20, offset: 90763},
+																								pos:        position{line: 2872, col: 20, offset: 90795},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2871, col: 29, offset: 90772},
+																								pos:        position{line: 2872, col: 29, offset: 90804},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30171,34 +30311,34 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2881, col: 8, offset: 90932},
+																					pos: position{line: 2882, col: 8, offset: 90964},
 																					expr: &anyMatcher{
-																						line: 2881, col: 9, offset: 90933,
+																						line: 2882, col: 9, offset: 90965,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1681, col: 9, offset: 54531},
+																			pos: position{line: 1682, col: 9, offset: 54563},
 																			expr: &actionExpr{
 																				pos: position{line: 677, col: 14, offset: 21557},
-																				run: (*parser).callonListContinuationElement195,
+																				run: (*parser).callonListContinuationElement201,
 																				expr: &seqExpr{
 																					pos: position{line: 677, col: 14, offset: 21557},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2879, col: 11, offset: 90918},
+																							pos: position{line: 2880, col: 11, offset: 90950},
 																							expr: &anyMatcher{
-																								line: 2879, col: 13, offset: 90920,
+																								line: 2880, col: 13, offset: 90952,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 677, col: 21, offset: 21564},
 																							expr: &actionExpr{
-																								pos: position{line: 2862, col: 10, offset: 90584},
-																								run: (*parser).callonListContinuationElement200,
+																								pos: position{line: 2863, col: 10, offset: 90616},
+																								run: (*parser).callonListContinuationElement206,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2862, col: 10, offset: 90584},
+																									pos:        position{line: 2863, col: 10, offset: 90616},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30207,28 +30347,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2884, col: 8, offset: 90982},
+																							pos: position{line: 2885, col: 8, offset: 91014},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2871, col: 12, offset: 90755},
-																									run: (*parser).callonListContinuationElement203,
+																									pos: position{line: 2872, col: 12, offset: 90787},
+																									run: (*parser).callonListContinuationElement209,
 																									expr: &choiceExpr{
-																										pos: position{line: 2871, col: 13, offset: 90756},
+																										pos: position{line: 2872, col: 13, offset: 90788},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 13, offset: 90756},
+																												pos:        position{line: 2872, col: 13, offset: 90788},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 20, offset: 90763},
+																												pos:        position{line: 2872, col: 20, offset: 90795},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 29, offset: 90772},
+																												pos:        position{line: 2872, col: 29, offset: 90804},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30237,9 +30377,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2881, col: 8, offset: 90932},
+																									pos: position{line: 2882, col: 8, offset: 90964},
 																									expr: &anyMatcher{
-																										line: 2881, col: 9, offset: 90933,
+																										line: 2882, col: 9, offset: 90965,
 																									},
 																								},
 																							},
@@ -30252,18 +30392,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1687, col: 9, offset: 54660},
-																run: (*parser).callonListContinuationElement210,
+																pos: position{line: 1688, col: 9, offset: 54692},
+																run: (*parser).callonListContinuationElement216,
 																expr: &seqExpr{
-																	pos: position{line: 1687, col: 9, offset: 54660},
+																	pos: position{line: 1688, col: 9, offset: 54692},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2866, col: 11, offset: 90645},
-																			run: (*parser).callonListContinuationElement212,
+																			pos: position{line: 2867, col: 11, offset: 90677},
+																			run: (*parser).callonListContinuationElement218,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2866, col: 11, offset: 90645},
+																				pos: position{line: 2867, col: 11, offset: 90677},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2866, col: 11, offset: 90645},
+																					pos:        position{line: 2867, col: 11, offset: 90677},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30272,15 +30412,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1688, col: 9, offset: 54733},
+																			pos:   position{line: 1689, col: 9, offset: 54765},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1688, col: 18, offset: 54742},
-																				run: (*parser).callonListContinuationElement216,
+																				pos: position{line: 1689, col: 18, offset: 54774},
+																				run: (*parser).callonListContinuationElement222,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1688, col: 18, offset: 54742},
+																					pos: position{line: 1689, col: 18, offset: 54774},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1688, col: 18, offset: 54742},
+																						pos:        position{line: 1689, col: 18, offset: 54774},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -30290,28 +30430,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2884, col: 8, offset: 90982},
+																			pos: position{line: 2885, col: 8, offset: 91014},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2871, col: 12, offset: 90755},
-																					run: (*parser).callonListContinuationElement220,
+																					pos: position{line: 2872, col: 12, offset: 90787},
+																					run: (*parser).callonListContinuationElement226,
 																					expr: &choiceExpr{
-																						pos: position{line: 2871, col: 13, offset: 90756},
+																						pos: position{line: 2872, col: 13, offset: 90788},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2871, col: 13, offset: 90756},
+																								pos:        position{line: 2872, col: 13, offset: 90788},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2871, col: 20, offset: 90763},
+																								pos:        position{line: 2872, col: 20, offset: 90795},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2871, col: 29, offset: 90772},
+																								pos:        position{line: 2872, col: 29, offset: 90804},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30320,9 +30460,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2881, col: 8, offset: 90932},
+																					pos: position{line: 2882, col: 8, offset: 90964},
 																					expr: &anyMatcher{
-																						line: 2881, col: 9, offset: 90933,
+																						line: 2882, col: 9, offset: 90965,
 																					},
 																				},
 																			},
@@ -30358,23 +30498,23 @@ var g = &grammar{
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 677, col: 14, offset: 21557},
-										run: (*parser).callonListContinuationElement232,
+										run: (*parser).callonListContinuationElement238,
 										expr: &seqExpr{
 											pos: position{line: 677, col: 14, offset: 21557},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2879, col: 11, offset: 90918},
+													pos: position{line: 2880, col: 11, offset: 90950},
 													expr: &anyMatcher{
-														line: 2879, col: 13, offset: 90920,
+														line: 2880, col: 13, offset: 90952,
 													},
 												},
 												&zeroOrMoreExpr{
 													pos: position{line: 677, col: 21, offset: 21564},
 													expr: &actionExpr{
-														pos: position{line: 2862, col: 10, offset: 90584},
-														run: (*parser).callonListContinuationElement237,
+														pos: position{line: 2863, col: 10, offset: 90616},
+														run: (*parser).callonListContinuationElement243,
 														expr: &charClassMatcher{
-															pos:        position{line: 2862, col: 10, offset: 90584},
+															pos:        position{line: 2863, col: 10, offset: 90616},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30383,28 +30523,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2884, col: 8, offset: 90982},
+													pos: position{line: 2885, col: 8, offset: 91014},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2871, col: 12, offset: 90755},
-															run: (*parser).callonListContinuationElement240,
+															pos: position{line: 2872, col: 12, offset: 90787},
+															run: (*parser).callonListContinuationElement246,
 															expr: &choiceExpr{
-																pos: position{line: 2871, col: 13, offset: 90756},
+																pos: position{line: 2872, col: 13, offset: 90788},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2871, col: 13, offset: 90756},
+																		pos:        position{line: 2872, col: 13, offset: 90788},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2871, col: 20, offset: 90763},
+																		pos:        position{line: 2872, col: 20, offset: 90795},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2871, col: 29, offset: 90772},
+																		pos:        position{line: 2872, col: 29, offset: 90804},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30413,9 +30553,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2881, col: 8, offset: 90932},
+															pos: position{line: 2882, col: 8, offset: 90964},
 															expr: &anyMatcher{
-																line: 2881, col: 9, offset: 90933,
+																line: 2882, col: 9, offset: 90965,
 															},
 														},
 													},
@@ -30429,7 +30569,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 360, col: 19, offset: 10910},
-										run: (*parser).callonListContinuationElement248,
+										run: (*parser).callonListContinuationElement254,
 										expr: &seqExpr{
 											pos: position{line: 360, col: 19, offset: 10910},
 											exprs: []interface{}{
@@ -30444,7 +30584,7 @@ var g = &grammar{
 													label: "name",
 													expr: &actionExpr{
 														pos: position{line: 318, col: 18, offset: 9729},
-														run: (*parser).callonListContinuationElement252,
+														run: (*parser).callonListContinuationElement258,
 														expr: &seqExpr{
 															pos: position{line: 318, col: 18, offset: 9729},
 															exprs: []interface{}{
@@ -30480,10 +30620,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 360, col: 49, offset: 10940},
 													expr: &actionExpr{
-														pos: position{line: 2862, col: 10, offset: 90584},
-														run: (*parser).callonListContinuationElement259,
+														pos: position{line: 2863, col: 10, offset: 90616},
+														run: (*parser).callonListContinuationElement265,
 														expr: &charClassMatcher{
-															pos:        position{line: 2862, col: 10, offset: 90584},
+															pos:        position{line: 2863, col: 10, offset: 90616},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30492,28 +30632,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2884, col: 8, offset: 90982},
+													pos: position{line: 2885, col: 8, offset: 91014},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2871, col: 12, offset: 90755},
-															run: (*parser).callonListContinuationElement262,
+															pos: position{line: 2872, col: 12, offset: 90787},
+															run: (*parser).callonListContinuationElement268,
 															expr: &choiceExpr{
-																pos: position{line: 2871, col: 13, offset: 90756},
+																pos: position{line: 2872, col: 13, offset: 90788},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2871, col: 13, offset: 90756},
+																		pos:        position{line: 2872, col: 13, offset: 90788},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2871, col: 20, offset: 90763},
+																		pos:        position{line: 2872, col: 20, offset: 90795},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2871, col: 29, offset: 90772},
+																		pos:        position{line: 2872, col: 29, offset: 90804},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30522,9 +30662,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2881, col: 8, offset: 90932},
+															pos: position{line: 2882, col: 8, offset: 90964},
 															expr: &anyMatcher{
-																line: 2881, col: 9, offset: 90933,
+																line: 2882, col: 9, offset: 90965,
 															},
 														},
 													},
@@ -30534,7 +30674,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 362, col: 9, offset: 11031},
-										run: (*parser).callonListContinuationElement269,
+										run: (*parser).callonListContinuationElement275,
 										expr: &seqExpr{
 											pos: position{line: 362, col: 9, offset: 11031},
 											exprs: []interface{}{
@@ -30549,7 +30689,7 @@ var g = &grammar{
 													label: "name",
 													expr: &actionExpr{
 														pos: position{line: 318, col: 18, offset: 9729},
-														run: (*parser).callonListContinuationElement273,
+														run: (*parser).callonListContinuationElement279,
 														expr: &seqExpr{
 															pos: position{line: 318, col: 18, offset: 9729},
 															exprs: []interface{}{
@@ -30585,10 +30725,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 39, offset: 11061},
 													expr: &actionExpr{
-														pos: position{line: 2862, col: 10, offset: 90584},
-														run: (*parser).callonListContinuationElement280,
+														pos: position{line: 2863, col: 10, offset: 90616},
+														run: (*parser).callonListContinuationElement286,
 														expr: &charClassMatcher{
-															pos:        position{line: 2862, col: 10, offset: 90584},
+															pos:        position{line: 2863, col: 10, offset: 90616},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30597,28 +30737,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2884, col: 8, offset: 90982},
+													pos: position{line: 2885, col: 8, offset: 91014},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2871, col: 12, offset: 90755},
-															run: (*parser).callonListContinuationElement283,
+															pos: position{line: 2872, col: 12, offset: 90787},
+															run: (*parser).callonListContinuationElement289,
 															expr: &choiceExpr{
-																pos: position{line: 2871, col: 13, offset: 90756},
+																pos: position{line: 2872, col: 13, offset: 90788},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2871, col: 13, offset: 90756},
+																		pos:        position{line: 2872, col: 13, offset: 90788},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2871, col: 20, offset: 90763},
+																		pos:        position{line: 2872, col: 20, offset: 90795},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2871, col: 29, offset: 90772},
+																		pos:        position{line: 2872, col: 29, offset: 90804},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30627,9 +30767,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2881, col: 8, offset: 90932},
+															pos: position{line: 2882, col: 8, offset: 90964},
 															expr: &anyMatcher{
-																line: 2881, col: 9, offset: 90933,
+																line: 2882, col: 9, offset: 90965,
 															},
 														},
 													},
@@ -30639,13 +30779,13 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 820, col: 5, offset: 26397},
-										run: (*parser).callonListContinuationElement290,
+										run: (*parser).callonListContinuationElement296,
 										expr: &seqExpr{
 											pos: position{line: 820, col: 5, offset: 26397},
 											exprs: []interface{}{
 												&actionExpr{
 													pos: position{line: 740, col: 5, offset: 23652},
-													run: (*parser).callonListContinuationElement292,
+													run: (*parser).callonListContinuationElement298,
 													expr: &seqExpr{
 														pos: position{line: 740, col: 5, offset: 23652},
 														exprs: []interface{}{
@@ -30654,7 +30794,7 @@ var g = &grammar{
 																label: "delimiter",
 																expr: &actionExpr{
 																	pos: position{line: 740, col: 16, offset: 23663},
-																	run: (*parser).callonListContinuationElement295,
+																	run: (*parser).callonListContinuationElement301,
 																	expr: &seqExpr{
 																		pos: position{line: 740, col: 16, offset: 23663},
 																		exprs: []interface{}{
@@ -30680,10 +30820,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 742, col: 8, offset: 23754},
 																expr: &actionExpr{
-																	pos: position{line: 2862, col: 10, offset: 90584},
-																	run: (*parser).callonListContinuationElement301,
+																	pos: position{line: 2863, col: 10, offset: 90616},
+																	run: (*parser).callonListContinuationElement307,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2862, col: 10, offset: 90584},
+																		pos:        position{line: 2863, col: 10, offset: 90616},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -30692,28 +30832,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2884, col: 8, offset: 90982},
+																pos: position{line: 2885, col: 8, offset: 91014},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2871, col: 12, offset: 90755},
-																		run: (*parser).callonListContinuationElement304,
+																		pos: position{line: 2872, col: 12, offset: 90787},
+																		run: (*parser).callonListContinuationElement310,
 																		expr: &choiceExpr{
-																			pos: position{line: 2871, col: 13, offset: 90756},
+																			pos: position{line: 2872, col: 13, offset: 90788},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2871, col: 13, offset: 90756},
+																					pos:        position{line: 2872, col: 13, offset: 90788},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2871, col: 20, offset: 90763},
+																					pos:        position{line: 2872, col: 20, offset: 90795},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2871, col: 29, offset: 90772},
+																					pos:        position{line: 2872, col: 29, offset: 90804},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -30722,9 +30862,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2881, col: 8, offset: 90932},
+																		pos: position{line: 2882, col: 8, offset: 90964},
 																		expr: &anyMatcher{
-																			line: 2881, col: 9, offset: 90933,
+																			line: 2882, col: 9, offset: 90965,
 																		},
 																	},
 																},
@@ -30739,7 +30879,7 @@ var g = &grammar{
 														pos: position{line: 831, col: 5, offset: 26714},
 														expr: &actionExpr{
 															pos: position{line: 831, col: 6, offset: 26715},
-															run: (*parser).callonListContinuationElement313,
+															run: (*parser).callonListContinuationElement319,
 															expr: &seqExpr{
 																pos: position{line: 831, col: 6, offset: 26715},
 																exprs: []interface{}{
@@ -30750,7 +30890,7 @@ var g = &grammar{
 																			alternatives: []interface{}{
 																				&actionExpr{
 																					pos: position{line: 740, col: 5, offset: 23652},
-																					run: (*parser).callonListContinuationElement317,
+																					run: (*parser).callonListContinuationElement323,
 																					expr: &seqExpr{
 																						pos: position{line: 740, col: 5, offset: 23652},
 																						exprs: []interface{}{
@@ -30759,7 +30899,7 @@ var g = &grammar{
 																								label: "delimiter",
 																								expr: &actionExpr{
 																									pos: position{line: 740, col: 16, offset: 23663},
-																									run: (*parser).callonListContinuationElement320,
+																									run: (*parser).callonListContinuationElement326,
 																									expr: &seqExpr{
 																										pos: position{line: 740, col: 16, offset: 23663},
 																										exprs: []interface{}{
@@ -30785,10 +30925,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 742, col: 8, offset: 23754},
 																								expr: &actionExpr{
-																									pos: position{line: 2862, col: 10, offset: 90584},
-																									run: (*parser).callonListContinuationElement326,
+																									pos: position{line: 2863, col: 10, offset: 90616},
+																									run: (*parser).callonListContinuationElement332,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2862, col: 10, offset: 90584},
+																										pos:        position{line: 2863, col: 10, offset: 90616},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -30797,28 +30937,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2884, col: 8, offset: 90982},
+																								pos: position{line: 2885, col: 8, offset: 91014},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2871, col: 12, offset: 90755},
-																										run: (*parser).callonListContinuationElement329,
+																										pos: position{line: 2872, col: 12, offset: 90787},
+																										run: (*parser).callonListContinuationElement335,
 																										expr: &choiceExpr{
-																											pos: position{line: 2871, col: 13, offset: 90756},
+																											pos: position{line: 2872, col: 13, offset: 90788},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2871, col: 13, offset: 90756},
+																													pos:        position{line: 2872, col: 13, offset: 90788},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2871, col: 20, offset: 90763},
+																													pos:        position{line: 2872, col: 20, offset: 90795},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2871, col: 29, offset: 90772},
+																													pos:        position{line: 2872, col: 29, offset: 90804},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -30827,9 +30967,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2881, col: 8, offset: 90932},
+																										pos: position{line: 2882, col: 8, offset: 90964},
 																										expr: &anyMatcher{
-																											line: 2881, col: 9, offset: 90933,
+																											line: 2882, col: 9, offset: 90965,
 																										},
 																									},
 																								},
@@ -30838,9 +30978,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2881, col: 8, offset: 90932},
+																					pos: position{line: 2882, col: 8, offset: 90964},
 																					expr: &anyMatcher{
-																						line: 2881, col: 9, offset: 90933,
+																						line: 2882, col: 9, offset: 90965,
 																					},
 																				},
 																			},
@@ -30851,26 +30991,26 @@ var g = &grammar{
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 811, col: 5, offset: 26161},
-																			run: (*parser).callonListContinuationElement339,
+																			run: (*parser).callonListContinuationElement345,
 																			expr: &seqExpr{
 																				pos: position{line: 811, col: 5, offset: 26161},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2879, col: 11, offset: 90918},
+																						pos: position{line: 2880, col: 11, offset: 90950},
 																						expr: &anyMatcher{
-																							line: 2879, col: 13, offset: 90920,
+																							line: 2880, col: 13, offset: 90952,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26236},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2808, col: 13, offset: 89110},
-																							run: (*parser).callonListContinuationElement344,
+																							pos: position{line: 2809, col: 13, offset: 89142},
+																							run: (*parser).callonListContinuationElement350,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2808, col: 13, offset: 89110},
+																								pos: position{line: 2809, col: 13, offset: 89142},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2808, col: 13, offset: 89110},
+																									pos:        position{line: 2809, col: 13, offset: 89142},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -30880,28 +31020,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2884, col: 8, offset: 90982},
+																						pos: position{line: 2885, col: 8, offset: 91014},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2871, col: 12, offset: 90755},
-																								run: (*parser).callonListContinuationElement348,
+																								pos: position{line: 2872, col: 12, offset: 90787},
+																								run: (*parser).callonListContinuationElement354,
 																								expr: &choiceExpr{
-																									pos: position{line: 2871, col: 13, offset: 90756},
+																									pos: position{line: 2872, col: 13, offset: 90788},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 13, offset: 90756},
+																											pos:        position{line: 2872, col: 13, offset: 90788},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 20, offset: 90763},
+																											pos:        position{line: 2872, col: 20, offset: 90795},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 29, offset: 90772},
+																											pos:        position{line: 2872, col: 29, offset: 90804},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -30910,9 +31050,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2881, col: 8, offset: 90932},
+																								pos: position{line: 2882, col: 8, offset: 90964},
 																								expr: &anyMatcher{
-																									line: 2881, col: 9, offset: 90933,
+																									line: 2882, col: 9, offset: 90965,
 																								},
 																							},
 																						},
@@ -30933,7 +31073,7 @@ var g = &grammar{
 														alternatives: []interface{}{
 															&actionExpr{
 																pos: position{line: 740, col: 5, offset: 23652},
-																run: (*parser).callonListContinuationElement357,
+																run: (*parser).callonListContinuationElement363,
 																expr: &seqExpr{
 																	pos: position{line: 740, col: 5, offset: 23652},
 																	exprs: []interface{}{
@@ -30942,7 +31082,7 @@ var g = &grammar{
 																			label: "delimiter",
 																			expr: &actionExpr{
 																				pos: position{line: 740, col: 16, offset: 23663},
-																				run: (*parser).callonListContinuationElement360,
+																				run: (*parser).callonListContinuationElement366,
 																				expr: &seqExpr{
 																					pos: position{line: 740, col: 16, offset: 23663},
 																					exprs: []interface{}{
@@ -30968,10 +31108,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 742, col: 8, offset: 23754},
 																			expr: &actionExpr{
-																				pos: position{line: 2862, col: 10, offset: 90584},
-																				run: (*parser).callonListContinuationElement366,
+																				pos: position{line: 2863, col: 10, offset: 90616},
+																				run: (*parser).callonListContinuationElement372,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2862, col: 10, offset: 90584},
+																					pos:        position{line: 2863, col: 10, offset: 90616},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30980,28 +31120,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2884, col: 8, offset: 90982},
+																			pos: position{line: 2885, col: 8, offset: 91014},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2871, col: 12, offset: 90755},
-																					run: (*parser).callonListContinuationElement369,
+																					pos: position{line: 2872, col: 12, offset: 90787},
+																					run: (*parser).callonListContinuationElement375,
 																					expr: &choiceExpr{
-																						pos: position{line: 2871, col: 13, offset: 90756},
+																						pos: position{line: 2872, col: 13, offset: 90788},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2871, col: 13, offset: 90756},
+																								pos:        position{line: 2872, col: 13, offset: 90788},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2871, col: 20, offset: 90763},
+																								pos:        position{line: 2872, col: 20, offset: 90795},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2871, col: 29, offset: 90772},
+																								pos:        position{line: 2872, col: 29, offset: 90804},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31010,9 +31150,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2881, col: 8, offset: 90932},
+																					pos: position{line: 2882, col: 8, offset: 90964},
 																					expr: &anyMatcher{
-																						line: 2881, col: 9, offset: 90933,
+																						line: 2882, col: 9, offset: 90965,
 																					},
 																				},
 																			},
@@ -31021,9 +31161,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2881, col: 8, offset: 90932},
+																pos: position{line: 2882, col: 8, offset: 90964},
 																expr: &anyMatcher{
-																	line: 2881, col: 9, offset: 90933,
+																	line: 2882, col: 9, offset: 90965,
 																},
 															},
 														},
@@ -31034,7 +31174,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 840, col: 5, offset: 26898},
-										run: (*parser).callonListContinuationElement378,
+										run: (*parser).callonListContinuationElement384,
 										expr: &seqExpr{
 											pos: position{line: 840, col: 5, offset: 26898},
 											exprs: []interface{}{
@@ -31043,7 +31183,7 @@ var g = &grammar{
 													label: "start",
 													expr: &actionExpr{
 														pos: position{line: 747, col: 5, offset: 23900},
-														run: (*parser).callonListContinuationElement381,
+														run: (*parser).callonListContinuationElement387,
 														expr: &seqExpr{
 															pos: position{line: 747, col: 5, offset: 23900},
 															exprs: []interface{}{
@@ -31052,7 +31192,7 @@ var g = &grammar{
 																	label: "delimiter",
 																	expr: &actionExpr{
 																		pos: position{line: 747, col: 16, offset: 23911},
-																		run: (*parser).callonListContinuationElement384,
+																		run: (*parser).callonListContinuationElement390,
 																		expr: &seqExpr{
 																			pos: position{line: 747, col: 16, offset: 23911},
 																			exprs: []interface{}{
@@ -31078,10 +31218,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 749, col: 8, offset: 24002},
 																	expr: &actionExpr{
-																		pos: position{line: 2862, col: 10, offset: 90584},
-																		run: (*parser).callonListContinuationElement390,
+																		pos: position{line: 2863, col: 10, offset: 90616},
+																		run: (*parser).callonListContinuationElement396,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2862, col: 10, offset: 90584},
+																			pos:        position{line: 2863, col: 10, offset: 90616},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31090,28 +31230,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2884, col: 8, offset: 90982},
+																	pos: position{line: 2885, col: 8, offset: 91014},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2871, col: 12, offset: 90755},
-																			run: (*parser).callonListContinuationElement393,
+																			pos: position{line: 2872, col: 12, offset: 90787},
+																			run: (*parser).callonListContinuationElement399,
 																			expr: &choiceExpr{
-																				pos: position{line: 2871, col: 13, offset: 90756},
+																				pos: position{line: 2872, col: 13, offset: 90788},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 13, offset: 90756},
+																						pos:        position{line: 2872, col: 13, offset: 90788},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 20, offset: 90763},
+																						pos:        position{line: 2872, col: 20, offset: 90795},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 29, offset: 90772},
+																						pos:        position{line: 2872, col: 29, offset: 90804},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31120,9 +31260,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2881, col: 8, offset: 90932},
+																			pos: position{line: 2882, col: 8, offset: 90964},
 																			expr: &anyMatcher{
-																				line: 2881, col: 9, offset: 90933,
+																				line: 2882, col: 9, offset: 90965,
 																			},
 																		},
 																	},
@@ -31133,7 +31273,7 @@ var g = &grammar{
 												},
 												&andCodeExpr{
 													pos: position{line: 841, col: 5, offset: 26937},
-													run: (*parser).callonListContinuationElement400,
+													run: (*parser).callonListContinuationElement406,
 												},
 												&labeledExpr{
 													pos:   position{line: 844, col: 5, offset: 27029},
@@ -31142,7 +31282,7 @@ var g = &grammar{
 														pos: position{line: 859, col: 4, offset: 27426},
 														expr: &actionExpr{
 															pos: position{line: 859, col: 5, offset: 27427},
-															run: (*parser).callonListContinuationElement403,
+															run: (*parser).callonListContinuationElement409,
 															expr: &seqExpr{
 																pos: position{line: 859, col: 5, offset: 27427},
 																exprs: []interface{}{
@@ -31159,7 +31299,7 @@ var g = &grammar{
 																							label: "end",
 																							expr: &actionExpr{
 																								pos: position{line: 747, col: 5, offset: 23900},
-																								run: (*parser).callonListContinuationElement409,
+																								run: (*parser).callonListContinuationElement415,
 																								expr: &seqExpr{
 																									pos: position{line: 747, col: 5, offset: 23900},
 																									exprs: []interface{}{
@@ -31168,7 +31308,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 747, col: 16, offset: 23911},
-																												run: (*parser).callonListContinuationElement412,
+																												run: (*parser).callonListContinuationElement418,
 																												expr: &seqExpr{
 																													pos: position{line: 747, col: 16, offset: 23911},
 																													exprs: []interface{}{
@@ -31194,10 +31334,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 749, col: 8, offset: 24002},
 																											expr: &actionExpr{
-																												pos: position{line: 2862, col: 10, offset: 90584},
-																												run: (*parser).callonListContinuationElement418,
+																												pos: position{line: 2863, col: 10, offset: 90616},
+																												run: (*parser).callonListContinuationElement424,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2862, col: 10, offset: 90584},
+																													pos:        position{line: 2863, col: 10, offset: 90616},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31206,28 +31346,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2884, col: 8, offset: 90982},
+																											pos: position{line: 2885, col: 8, offset: 91014},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2871, col: 12, offset: 90755},
-																													run: (*parser).callonListContinuationElement421,
+																													pos: position{line: 2872, col: 12, offset: 90787},
+																													run: (*parser).callonListContinuationElement427,
 																													expr: &choiceExpr{
-																														pos: position{line: 2871, col: 13, offset: 90756},
+																														pos: position{line: 2872, col: 13, offset: 90788},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2871, col: 13, offset: 90756},
+																																pos:        position{line: 2872, col: 13, offset: 90788},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2871, col: 20, offset: 90763},
+																																pos:        position{line: 2872, col: 20, offset: 90795},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2871, col: 29, offset: 90772},
+																																pos:        position{line: 2872, col: 29, offset: 90804},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31236,9 +31376,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2881, col: 8, offset: 90932},
+																													pos: position{line: 2882, col: 8, offset: 90964},
 																													expr: &anyMatcher{
-																														line: 2881, col: 9, offset: 90933,
+																														line: 2882, col: 9, offset: 90965,
 																													},
 																												},
 																											},
@@ -31249,14 +31389,14 @@ var g = &grammar{
 																						},
 																						&andCodeExpr{
 																							pos: position{line: 853, col: 5, offset: 27300},
-																							run: (*parser).callonListContinuationElement428,
+																							run: (*parser).callonListContinuationElement434,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2881, col: 8, offset: 90932},
+																					pos: position{line: 2882, col: 8, offset: 90964},
 																					expr: &anyMatcher{
-																						line: 2881, col: 9, offset: 90933,
+																						line: 2882, col: 9, offset: 90965,
 																					},
 																				},
 																			},
@@ -31267,26 +31407,26 @@ var g = &grammar{
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 811, col: 5, offset: 26161},
-																			run: (*parser).callonListContinuationElement432,
+																			run: (*parser).callonListContinuationElement438,
 																			expr: &seqExpr{
 																				pos: position{line: 811, col: 5, offset: 26161},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2879, col: 11, offset: 90918},
+																						pos: position{line: 2880, col: 11, offset: 90950},
 																						expr: &anyMatcher{
-																							line: 2879, col: 13, offset: 90920,
+																							line: 2880, col: 13, offset: 90952,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26236},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2808, col: 13, offset: 89110},
-																							run: (*parser).callonListContinuationElement437,
+																							pos: position{line: 2809, col: 13, offset: 89142},
+																							run: (*parser).callonListContinuationElement443,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2808, col: 13, offset: 89110},
+																								pos: position{line: 2809, col: 13, offset: 89142},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2808, col: 13, offset: 89110},
+																									pos:        position{line: 2809, col: 13, offset: 89142},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31296,28 +31436,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2884, col: 8, offset: 90982},
+																						pos: position{line: 2885, col: 8, offset: 91014},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2871, col: 12, offset: 90755},
-																								run: (*parser).callonListContinuationElement441,
+																								pos: position{line: 2872, col: 12, offset: 90787},
+																								run: (*parser).callonListContinuationElement447,
 																								expr: &choiceExpr{
-																									pos: position{line: 2871, col: 13, offset: 90756},
+																									pos: position{line: 2872, col: 13, offset: 90788},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 13, offset: 90756},
+																											pos:        position{line: 2872, col: 13, offset: 90788},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 20, offset: 90763},
+																											pos:        position{line: 2872, col: 20, offset: 90795},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 29, offset: 90772},
+																											pos:        position{line: 2872, col: 29, offset: 90804},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31326,9 +31466,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2881, col: 8, offset: 90932},
+																								pos: position{line: 2882, col: 8, offset: 90964},
 																								expr: &anyMatcher{
-																									line: 2881, col: 9, offset: 90933,
+																									line: 2882, col: 9, offset: 90965,
 																								},
 																							},
 																						},
@@ -31358,7 +31498,7 @@ var g = &grammar{
 																			label: "end",
 																			expr: &actionExpr{
 																				pos: position{line: 747, col: 5, offset: 23900},
-																				run: (*parser).callonListContinuationElement453,
+																				run: (*parser).callonListContinuationElement459,
 																				expr: &seqExpr{
 																					pos: position{line: 747, col: 5, offset: 23900},
 																					exprs: []interface{}{
@@ -31367,7 +31507,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 747, col: 16, offset: 23911},
-																								run: (*parser).callonListContinuationElement456,
+																								run: (*parser).callonListContinuationElement462,
 																								expr: &seqExpr{
 																									pos: position{line: 747, col: 16, offset: 23911},
 																									exprs: []interface{}{
@@ -31393,10 +31533,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 749, col: 8, offset: 24002},
 																							expr: &actionExpr{
-																								pos: position{line: 2862, col: 10, offset: 90584},
-																								run: (*parser).callonListContinuationElement462,
+																								pos: position{line: 2863, col: 10, offset: 90616},
+																								run: (*parser).callonListContinuationElement468,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2862, col: 10, offset: 90584},
+																									pos:        position{line: 2863, col: 10, offset: 90616},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -31405,28 +31545,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2884, col: 8, offset: 90982},
+																							pos: position{line: 2885, col: 8, offset: 91014},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2871, col: 12, offset: 90755},
-																									run: (*parser).callonListContinuationElement465,
+																									pos: position{line: 2872, col: 12, offset: 90787},
+																									run: (*parser).callonListContinuationElement471,
 																									expr: &choiceExpr{
-																										pos: position{line: 2871, col: 13, offset: 90756},
+																										pos: position{line: 2872, col: 13, offset: 90788},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 13, offset: 90756},
+																												pos:        position{line: 2872, col: 13, offset: 90788},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 20, offset: 90763},
+																												pos:        position{line: 2872, col: 20, offset: 90795},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 29, offset: 90772},
+																												pos:        position{line: 2872, col: 29, offset: 90804},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -31435,9 +31575,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2881, col: 8, offset: 90932},
+																									pos: position{line: 2882, col: 8, offset: 90964},
 																									expr: &anyMatcher{
-																										line: 2881, col: 9, offset: 90933,
+																										line: 2882, col: 9, offset: 90965,
 																									},
 																								},
 																							},
@@ -31448,14 +31588,14 @@ var g = &grammar{
 																		},
 																		&andCodeExpr{
 																			pos: position{line: 853, col: 5, offset: 27300},
-																			run: (*parser).callonListContinuationElement472,
+																			run: (*parser).callonListContinuationElement478,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2881, col: 8, offset: 90932},
+																	pos: position{line: 2882, col: 8, offset: 90964},
 																	expr: &anyMatcher{
-																		line: 2881, col: 9, offset: 90933,
+																		line: 2882, col: 9, offset: 90965,
 																	},
 																},
 															},
@@ -31467,7 +31607,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 952, col: 5, offset: 29749},
-										run: (*parser).callonListContinuationElement475,
+										run: (*parser).callonListContinuationElement481,
 										expr: &seqExpr{
 											pos: position{line: 952, col: 5, offset: 29749},
 											exprs: []interface{}{
@@ -31476,7 +31616,7 @@ var g = &grammar{
 													label: "delimiter",
 													expr: &actionExpr{
 														pos: position{line: 760, col: 26, offset: 24388},
-														run: (*parser).callonListContinuationElement478,
+														run: (*parser).callonListContinuationElement484,
 														expr: &seqExpr{
 															pos: position{line: 760, col: 26, offset: 24388},
 															exprs: []interface{}{
@@ -31491,7 +31631,7 @@ var g = &grammar{
 																	label: "language",
 																	expr: &actionExpr{
 																		pos: position{line: 764, col: 13, offset: 24524},
-																		run: (*parser).callonListContinuationElement482,
+																		run: (*parser).callonListContinuationElement488,
 																		expr: &oneOrMoreExpr{
 																			pos: position{line: 764, col: 14, offset: 24525},
 																			expr: &charClassMatcher{
@@ -31507,10 +31647,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 760, col: 52, offset: 24414},
 																	expr: &actionExpr{
-																		pos: position{line: 2862, col: 10, offset: 90584},
-																		run: (*parser).callonListContinuationElement486,
+																		pos: position{line: 2863, col: 10, offset: 90616},
+																		run: (*parser).callonListContinuationElement492,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2862, col: 10, offset: 90584},
+																			pos:        position{line: 2863, col: 10, offset: 90616},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31519,28 +31659,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2884, col: 8, offset: 90982},
+																	pos: position{line: 2885, col: 8, offset: 91014},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2871, col: 12, offset: 90755},
-																			run: (*parser).callonListContinuationElement489,
+																			pos: position{line: 2872, col: 12, offset: 90787},
+																			run: (*parser).callonListContinuationElement495,
 																			expr: &choiceExpr{
-																				pos: position{line: 2871, col: 13, offset: 90756},
+																				pos: position{line: 2872, col: 13, offset: 90788},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 13, offset: 90756},
+																						pos:        position{line: 2872, col: 13, offset: 90788},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 20, offset: 90763},
+																						pos:        position{line: 2872, col: 20, offset: 90795},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 29, offset: 90772},
+																						pos:        position{line: 2872, col: 29, offset: 90804},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31549,9 +31689,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2881, col: 8, offset: 90932},
+																			pos: position{line: 2882, col: 8, offset: 90964},
 																			expr: &anyMatcher{
-																				line: 2881, col: 9, offset: 90933,
+																				line: 2882, col: 9, offset: 90965,
 																			},
 																		},
 																	},
@@ -31567,7 +31707,7 @@ var g = &grammar{
 														pos: position{line: 966, col: 5, offset: 30268},
 														expr: &actionExpr{
 															pos: position{line: 966, col: 6, offset: 30269},
-															run: (*parser).callonListContinuationElement498,
+															run: (*parser).callonListContinuationElement504,
 															expr: &seqExpr{
 																pos: position{line: 966, col: 6, offset: 30269},
 																exprs: []interface{}{
@@ -31585,10 +31725,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 963, col: 40, offset: 30222},
 																					expr: &actionExpr{
-																						pos: position{line: 2862, col: 10, offset: 90584},
-																						run: (*parser).callonListContinuationElement504,
+																						pos: position{line: 2863, col: 10, offset: 90616},
+																						run: (*parser).callonListContinuationElement510,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2862, col: 10, offset: 90584},
+																							pos:        position{line: 2863, col: 10, offset: 90616},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -31597,28 +31737,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2884, col: 8, offset: 90982},
+																					pos: position{line: 2885, col: 8, offset: 91014},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2871, col: 12, offset: 90755},
-																							run: (*parser).callonListContinuationElement507,
+																							pos: position{line: 2872, col: 12, offset: 90787},
+																							run: (*parser).callonListContinuationElement513,
 																							expr: &choiceExpr{
-																								pos: position{line: 2871, col: 13, offset: 90756},
+																								pos: position{line: 2872, col: 13, offset: 90788},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2871, col: 13, offset: 90756},
+																										pos:        position{line: 2872, col: 13, offset: 90788},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2871, col: 20, offset: 90763},
+																										pos:        position{line: 2872, col: 20, offset: 90795},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2871, col: 29, offset: 90772},
+																										pos:        position{line: 2872, col: 29, offset: 90804},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -31627,9 +31767,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2881, col: 8, offset: 90932},
+																							pos: position{line: 2882, col: 8, offset: 90964},
 																							expr: &anyMatcher{
-																								line: 2881, col: 9, offset: 90933,
+																								line: 2882, col: 9, offset: 90965,
 																							},
 																						},
 																					},
@@ -31642,26 +31782,26 @@ var g = &grammar{
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 811, col: 5, offset: 26161},
-																			run: (*parser).callonListContinuationElement515,
+																			run: (*parser).callonListContinuationElement521,
 																			expr: &seqExpr{
 																				pos: position{line: 811, col: 5, offset: 26161},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2879, col: 11, offset: 90918},
+																						pos: position{line: 2880, col: 11, offset: 90950},
 																						expr: &anyMatcher{
-																							line: 2879, col: 13, offset: 90920,
+																							line: 2880, col: 13, offset: 90952,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26236},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2808, col: 13, offset: 89110},
-																							run: (*parser).callonListContinuationElement520,
+																							pos: position{line: 2809, col: 13, offset: 89142},
+																							run: (*parser).callonListContinuationElement526,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2808, col: 13, offset: 89110},
+																								pos: position{line: 2809, col: 13, offset: 89142},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2808, col: 13, offset: 89110},
+																									pos:        position{line: 2809, col: 13, offset: 89142},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31671,28 +31811,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2884, col: 8, offset: 90982},
+																						pos: position{line: 2885, col: 8, offset: 91014},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2871, col: 12, offset: 90755},
-																								run: (*parser).callonListContinuationElement524,
+																								pos: position{line: 2872, col: 12, offset: 90787},
+																								run: (*parser).callonListContinuationElement530,
 																								expr: &choiceExpr{
-																									pos: position{line: 2871, col: 13, offset: 90756},
+																									pos: position{line: 2872, col: 13, offset: 90788},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 13, offset: 90756},
+																											pos:        position{line: 2872, col: 13, offset: 90788},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 20, offset: 90763},
+																											pos:        position{line: 2872, col: 20, offset: 90795},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 29, offset: 90772},
+																											pos:        position{line: 2872, col: 29, offset: 90804},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31701,9 +31841,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2881, col: 8, offset: 90932},
+																								pos: position{line: 2882, col: 8, offset: 90964},
 																								expr: &anyMatcher{
-																									line: 2881, col: 9, offset: 90933,
+																									line: 2882, col: 9, offset: 90965,
 																								},
 																							},
 																						},
@@ -31731,10 +31871,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 963, col: 40, offset: 30222},
 																expr: &actionExpr{
-																	pos: position{line: 2862, col: 10, offset: 90584},
-																	run: (*parser).callonListContinuationElement535,
+																	pos: position{line: 2863, col: 10, offset: 90616},
+																	run: (*parser).callonListContinuationElement541,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2862, col: 10, offset: 90584},
+																		pos:        position{line: 2863, col: 10, offset: 90616},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -31743,28 +31883,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2884, col: 8, offset: 90982},
+																pos: position{line: 2885, col: 8, offset: 91014},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2871, col: 12, offset: 90755},
-																		run: (*parser).callonListContinuationElement538,
+																		pos: position{line: 2872, col: 12, offset: 90787},
+																		run: (*parser).callonListContinuationElement544,
 																		expr: &choiceExpr{
-																			pos: position{line: 2871, col: 13, offset: 90756},
+																			pos: position{line: 2872, col: 13, offset: 90788},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2871, col: 13, offset: 90756},
+																					pos:        position{line: 2872, col: 13, offset: 90788},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2871, col: 20, offset: 90763},
+																					pos:        position{line: 2872, col: 20, offset: 90795},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2871, col: 29, offset: 90772},
+																					pos:        position{line: 2872, col: 29, offset: 90804},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -31773,9 +31913,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2881, col: 8, offset: 90932},
+																		pos: position{line: 2882, col: 8, offset: 90964},
 																		expr: &anyMatcher{
-																			line: 2881, col: 9, offset: 90933,
+																			line: 2882, col: 9, offset: 90965,
 																		},
 																	},
 																},
@@ -31788,7 +31928,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 868, col: 5, offset: 27610},
-										run: (*parser).callonListContinuationElement545,
+										run: (*parser).callonListContinuationElement551,
 										expr: &seqExpr{
 											pos: position{line: 868, col: 5, offset: 27610},
 											exprs: []interface{}{
@@ -31797,7 +31937,7 @@ var g = &grammar{
 													label: "start",
 													expr: &actionExpr{
 														pos: position{line: 754, col: 5, offset: 24147},
-														run: (*parser).callonListContinuationElement548,
+														run: (*parser).callonListContinuationElement554,
 														expr: &seqExpr{
 															pos: position{line: 754, col: 5, offset: 24147},
 															exprs: []interface{}{
@@ -31806,7 +31946,7 @@ var g = &grammar{
 																	label: "delimiter",
 																	expr: &actionExpr{
 																		pos: position{line: 754, col: 16, offset: 24158},
-																		run: (*parser).callonListContinuationElement551,
+																		run: (*parser).callonListContinuationElement557,
 																		expr: &seqExpr{
 																			pos: position{line: 754, col: 16, offset: 24158},
 																			exprs: []interface{}{
@@ -31832,10 +31972,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 756, col: 8, offset: 24248},
 																	expr: &actionExpr{
-																		pos: position{line: 2862, col: 10, offset: 90584},
-																		run: (*parser).callonListContinuationElement557,
+																		pos: position{line: 2863, col: 10, offset: 90616},
+																		run: (*parser).callonListContinuationElement563,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2862, col: 10, offset: 90584},
+																			pos:        position{line: 2863, col: 10, offset: 90616},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31844,28 +31984,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2884, col: 8, offset: 90982},
+																	pos: position{line: 2885, col: 8, offset: 91014},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2871, col: 12, offset: 90755},
-																			run: (*parser).callonListContinuationElement560,
+																			pos: position{line: 2872, col: 12, offset: 90787},
+																			run: (*parser).callonListContinuationElement566,
 																			expr: &choiceExpr{
-																				pos: position{line: 2871, col: 13, offset: 90756},
+																				pos: position{line: 2872, col: 13, offset: 90788},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 13, offset: 90756},
+																						pos:        position{line: 2872, col: 13, offset: 90788},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 20, offset: 90763},
+																						pos:        position{line: 2872, col: 20, offset: 90795},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 29, offset: 90772},
+																						pos:        position{line: 2872, col: 29, offset: 90804},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31874,9 +32014,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2881, col: 8, offset: 90932},
+																			pos: position{line: 2882, col: 8, offset: 90964},
 																			expr: &anyMatcher{
-																				line: 2881, col: 9, offset: 90933,
+																				line: 2882, col: 9, offset: 90965,
 																			},
 																		},
 																	},
@@ -31887,7 +32027,7 @@ var g = &grammar{
 												},
 												&andCodeExpr{
 													pos: position{line: 869, col: 5, offset: 27648},
-													run: (*parser).callonListContinuationElement567,
+													run: (*parser).callonListContinuationElement573,
 												},
 												&labeledExpr{
 													pos:   position{line: 872, col: 5, offset: 27740},
@@ -31896,7 +32036,7 @@ var g = &grammar{
 														pos: position{line: 887, col: 5, offset: 28130},
 														expr: &actionExpr{
 															pos: position{line: 887, col: 6, offset: 28131},
-															run: (*parser).callonListContinuationElement570,
+															run: (*parser).callonListContinuationElement576,
 															expr: &seqExpr{
 																pos: position{line: 887, col: 6, offset: 28131},
 																exprs: []interface{}{
@@ -31913,7 +32053,7 @@ var g = &grammar{
 																							label: "end",
 																							expr: &actionExpr{
 																								pos: position{line: 754, col: 5, offset: 24147},
-																								run: (*parser).callonListContinuationElement576,
+																								run: (*parser).callonListContinuationElement582,
 																								expr: &seqExpr{
 																									pos: position{line: 754, col: 5, offset: 24147},
 																									exprs: []interface{}{
@@ -31922,7 +32062,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 754, col: 16, offset: 24158},
-																												run: (*parser).callonListContinuationElement579,
+																												run: (*parser).callonListContinuationElement585,
 																												expr: &seqExpr{
 																													pos: position{line: 754, col: 16, offset: 24158},
 																													exprs: []interface{}{
@@ -31948,10 +32088,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 756, col: 8, offset: 24248},
 																											expr: &actionExpr{
-																												pos: position{line: 2862, col: 10, offset: 90584},
-																												run: (*parser).callonListContinuationElement585,
+																												pos: position{line: 2863, col: 10, offset: 90616},
+																												run: (*parser).callonListContinuationElement591,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2862, col: 10, offset: 90584},
+																													pos:        position{line: 2863, col: 10, offset: 90616},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31960,28 +32100,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2884, col: 8, offset: 90982},
+																											pos: position{line: 2885, col: 8, offset: 91014},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2871, col: 12, offset: 90755},
-																													run: (*parser).callonListContinuationElement588,
+																													pos: position{line: 2872, col: 12, offset: 90787},
+																													run: (*parser).callonListContinuationElement594,
 																													expr: &choiceExpr{
-																														pos: position{line: 2871, col: 13, offset: 90756},
+																														pos: position{line: 2872, col: 13, offset: 90788},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2871, col: 13, offset: 90756},
+																																pos:        position{line: 2872, col: 13, offset: 90788},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2871, col: 20, offset: 90763},
+																																pos:        position{line: 2872, col: 20, offset: 90795},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2871, col: 29, offset: 90772},
+																																pos:        position{line: 2872, col: 29, offset: 90804},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31990,9 +32130,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2881, col: 8, offset: 90932},
+																													pos: position{line: 2882, col: 8, offset: 90964},
 																													expr: &anyMatcher{
-																														line: 2881, col: 9, offset: 90933,
+																														line: 2882, col: 9, offset: 90965,
 																													},
 																												},
 																											},
@@ -32003,14 +32143,14 @@ var g = &grammar{
 																						},
 																						&andCodeExpr{
 																							pos: position{line: 881, col: 5, offset: 28004},
-																							run: (*parser).callonListContinuationElement595,
+																							run: (*parser).callonListContinuationElement601,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2881, col: 8, offset: 90932},
+																					pos: position{line: 2882, col: 8, offset: 90964},
 																					expr: &anyMatcher{
-																						line: 2881, col: 9, offset: 90933,
+																						line: 2882, col: 9, offset: 90965,
 																					},
 																				},
 																			},
@@ -32021,26 +32161,26 @@ var g = &grammar{
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 811, col: 5, offset: 26161},
-																			run: (*parser).callonListContinuationElement599,
+																			run: (*parser).callonListContinuationElement605,
 																			expr: &seqExpr{
 																				pos: position{line: 811, col: 5, offset: 26161},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2879, col: 11, offset: 90918},
+																						pos: position{line: 2880, col: 11, offset: 90950},
 																						expr: &anyMatcher{
-																							line: 2879, col: 13, offset: 90920,
+																							line: 2880, col: 13, offset: 90952,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26236},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2808, col: 13, offset: 89110},
-																							run: (*parser).callonListContinuationElement604,
+																							pos: position{line: 2809, col: 13, offset: 89142},
+																							run: (*parser).callonListContinuationElement610,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2808, col: 13, offset: 89110},
+																								pos: position{line: 2809, col: 13, offset: 89142},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2808, col: 13, offset: 89110},
+																									pos:        position{line: 2809, col: 13, offset: 89142},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32050,28 +32190,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2884, col: 8, offset: 90982},
+																						pos: position{line: 2885, col: 8, offset: 91014},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2871, col: 12, offset: 90755},
-																								run: (*parser).callonListContinuationElement608,
+																								pos: position{line: 2872, col: 12, offset: 90787},
+																								run: (*parser).callonListContinuationElement614,
 																								expr: &choiceExpr{
-																									pos: position{line: 2871, col: 13, offset: 90756},
+																									pos: position{line: 2872, col: 13, offset: 90788},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 13, offset: 90756},
+																											pos:        position{line: 2872, col: 13, offset: 90788},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 20, offset: 90763},
+																											pos:        position{line: 2872, col: 20, offset: 90795},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 29, offset: 90772},
+																											pos:        position{line: 2872, col: 29, offset: 90804},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32080,9 +32220,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2881, col: 8, offset: 90932},
+																								pos: position{line: 2882, col: 8, offset: 90964},
 																								expr: &anyMatcher{
-																									line: 2881, col: 9, offset: 90933,
+																									line: 2882, col: 9, offset: 90965,
 																								},
 																							},
 																						},
@@ -32112,7 +32252,7 @@ var g = &grammar{
 																			label: "end",
 																			expr: &actionExpr{
 																				pos: position{line: 754, col: 5, offset: 24147},
-																				run: (*parser).callonListContinuationElement620,
+																				run: (*parser).callonListContinuationElement626,
 																				expr: &seqExpr{
 																					pos: position{line: 754, col: 5, offset: 24147},
 																					exprs: []interface{}{
@@ -32121,7 +32261,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 754, col: 16, offset: 24158},
-																								run: (*parser).callonListContinuationElement623,
+																								run: (*parser).callonListContinuationElement629,
 																								expr: &seqExpr{
 																									pos: position{line: 754, col: 16, offset: 24158},
 																									exprs: []interface{}{
@@ -32147,10 +32287,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 756, col: 8, offset: 24248},
 																							expr: &actionExpr{
-																								pos: position{line: 2862, col: 10, offset: 90584},
-																								run: (*parser).callonListContinuationElement629,
+																								pos: position{line: 2863, col: 10, offset: 90616},
+																								run: (*parser).callonListContinuationElement635,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2862, col: 10, offset: 90584},
+																									pos:        position{line: 2863, col: 10, offset: 90616},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32159,28 +32299,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2884, col: 8, offset: 90982},
+																							pos: position{line: 2885, col: 8, offset: 91014},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2871, col: 12, offset: 90755},
-																									run: (*parser).callonListContinuationElement632,
+																									pos: position{line: 2872, col: 12, offset: 90787},
+																									run: (*parser).callonListContinuationElement638,
 																									expr: &choiceExpr{
-																										pos: position{line: 2871, col: 13, offset: 90756},
+																										pos: position{line: 2872, col: 13, offset: 90788},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 13, offset: 90756},
+																												pos:        position{line: 2872, col: 13, offset: 90788},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 20, offset: 90763},
+																												pos:        position{line: 2872, col: 20, offset: 90795},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 29, offset: 90772},
+																												pos:        position{line: 2872, col: 29, offset: 90804},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32189,9 +32329,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2881, col: 8, offset: 90932},
+																									pos: position{line: 2882, col: 8, offset: 90964},
 																									expr: &anyMatcher{
-																										line: 2881, col: 9, offset: 90933,
+																										line: 2882, col: 9, offset: 90965,
 																									},
 																								},
 																							},
@@ -32202,14 +32342,14 @@ var g = &grammar{
 																		},
 																		&andCodeExpr{
 																			pos: position{line: 881, col: 5, offset: 28004},
-																			run: (*parser).callonListContinuationElement639,
+																			run: (*parser).callonListContinuationElement645,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2881, col: 8, offset: 90932},
+																	pos: position{line: 2882, col: 8, offset: 90964},
 																	expr: &anyMatcher{
-																		line: 2881, col: 9, offset: 90933,
+																		line: 2882, col: 9, offset: 90965,
 																	},
 																},
 															},
@@ -32221,7 +32361,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 896, col: 5, offset: 28315},
-										run: (*parser).callonListContinuationElement642,
+										run: (*parser).callonListContinuationElement648,
 										expr: &seqExpr{
 											pos: position{line: 896, col: 5, offset: 28315},
 											exprs: []interface{}{
@@ -32230,7 +32370,7 @@ var g = &grammar{
 													label: "start",
 													expr: &actionExpr{
 														pos: position{line: 769, col: 5, offset: 24689},
-														run: (*parser).callonListContinuationElement645,
+														run: (*parser).callonListContinuationElement651,
 														expr: &seqExpr{
 															pos: position{line: 769, col: 5, offset: 24689},
 															exprs: []interface{}{
@@ -32239,7 +32379,7 @@ var g = &grammar{
 																	label: "delimiter",
 																	expr: &actionExpr{
 																		pos: position{line: 769, col: 16, offset: 24700},
-																		run: (*parser).callonListContinuationElement648,
+																		run: (*parser).callonListContinuationElement654,
 																		expr: &seqExpr{
 																			pos: position{line: 769, col: 16, offset: 24700},
 																			exprs: []interface{}{
@@ -32265,10 +32405,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 771, col: 8, offset: 24791},
 																	expr: &actionExpr{
-																		pos: position{line: 2862, col: 10, offset: 90584},
-																		run: (*parser).callonListContinuationElement654,
+																		pos: position{line: 2863, col: 10, offset: 90616},
+																		run: (*parser).callonListContinuationElement660,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2862, col: 10, offset: 90584},
+																			pos:        position{line: 2863, col: 10, offset: 90616},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32277,28 +32417,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2884, col: 8, offset: 90982},
+																	pos: position{line: 2885, col: 8, offset: 91014},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2871, col: 12, offset: 90755},
-																			run: (*parser).callonListContinuationElement657,
+																			pos: position{line: 2872, col: 12, offset: 90787},
+																			run: (*parser).callonListContinuationElement663,
 																			expr: &choiceExpr{
-																				pos: position{line: 2871, col: 13, offset: 90756},
+																				pos: position{line: 2872, col: 13, offset: 90788},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 13, offset: 90756},
+																						pos:        position{line: 2872, col: 13, offset: 90788},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 20, offset: 90763},
+																						pos:        position{line: 2872, col: 20, offset: 90795},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 29, offset: 90772},
+																						pos:        position{line: 2872, col: 29, offset: 90804},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32307,9 +32447,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2881, col: 8, offset: 90932},
+																			pos: position{line: 2882, col: 8, offset: 90964},
 																			expr: &anyMatcher{
-																				line: 2881, col: 9, offset: 90933,
+																				line: 2882, col: 9, offset: 90965,
 																			},
 																		},
 																	},
@@ -32320,7 +32460,7 @@ var g = &grammar{
 												},
 												&andCodeExpr{
 													pos: position{line: 897, col: 5, offset: 28354},
-													run: (*parser).callonListContinuationElement664,
+													run: (*parser).callonListContinuationElement670,
 												},
 												&labeledExpr{
 													pos:   position{line: 900, col: 5, offset: 28446},
@@ -32329,7 +32469,7 @@ var g = &grammar{
 														pos: position{line: 915, col: 5, offset: 28844},
 														expr: &actionExpr{
 															pos: position{line: 915, col: 6, offset: 28845},
-															run: (*parser).callonListContinuationElement667,
+															run: (*parser).callonListContinuationElement673,
 															expr: &seqExpr{
 																pos: position{line: 915, col: 6, offset: 28845},
 																exprs: []interface{}{
@@ -32346,7 +32486,7 @@ var g = &grammar{
 																							label: "end",
 																							expr: &actionExpr{
 																								pos: position{line: 769, col: 5, offset: 24689},
-																								run: (*parser).callonListContinuationElement673,
+																								run: (*parser).callonListContinuationElement679,
 																								expr: &seqExpr{
 																									pos: position{line: 769, col: 5, offset: 24689},
 																									exprs: []interface{}{
@@ -32355,7 +32495,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 769, col: 16, offset: 24700},
-																												run: (*parser).callonListContinuationElement676,
+																												run: (*parser).callonListContinuationElement682,
 																												expr: &seqExpr{
 																													pos: position{line: 769, col: 16, offset: 24700},
 																													exprs: []interface{}{
@@ -32381,10 +32521,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 771, col: 8, offset: 24791},
 																											expr: &actionExpr{
-																												pos: position{line: 2862, col: 10, offset: 90584},
-																												run: (*parser).callonListContinuationElement682,
+																												pos: position{line: 2863, col: 10, offset: 90616},
+																												run: (*parser).callonListContinuationElement688,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2862, col: 10, offset: 90584},
+																													pos:        position{line: 2863, col: 10, offset: 90616},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32393,28 +32533,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2884, col: 8, offset: 90982},
+																											pos: position{line: 2885, col: 8, offset: 91014},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2871, col: 12, offset: 90755},
-																													run: (*parser).callonListContinuationElement685,
+																													pos: position{line: 2872, col: 12, offset: 90787},
+																													run: (*parser).callonListContinuationElement691,
 																													expr: &choiceExpr{
-																														pos: position{line: 2871, col: 13, offset: 90756},
+																														pos: position{line: 2872, col: 13, offset: 90788},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2871, col: 13, offset: 90756},
+																																pos:        position{line: 2872, col: 13, offset: 90788},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2871, col: 20, offset: 90763},
+																																pos:        position{line: 2872, col: 20, offset: 90795},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2871, col: 29, offset: 90772},
+																																pos:        position{line: 2872, col: 29, offset: 90804},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32423,9 +32563,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2881, col: 8, offset: 90932},
+																													pos: position{line: 2882, col: 8, offset: 90964},
 																													expr: &anyMatcher{
-																														line: 2881, col: 9, offset: 90933,
+																														line: 2882, col: 9, offset: 90965,
 																													},
 																												},
 																											},
@@ -32436,14 +32576,14 @@ var g = &grammar{
 																						},
 																						&andCodeExpr{
 																							pos: position{line: 909, col: 5, offset: 28717},
-																							run: (*parser).callonListContinuationElement692,
+																							run: (*parser).callonListContinuationElement698,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2881, col: 8, offset: 90932},
+																					pos: position{line: 2882, col: 8, offset: 90964},
 																					expr: &anyMatcher{
-																						line: 2881, col: 9, offset: 90933,
+																						line: 2882, col: 9, offset: 90965,
 																					},
 																				},
 																			},
@@ -32454,26 +32594,26 @@ var g = &grammar{
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 811, col: 5, offset: 26161},
-																			run: (*parser).callonListContinuationElement696,
+																			run: (*parser).callonListContinuationElement702,
 																			expr: &seqExpr{
 																				pos: position{line: 811, col: 5, offset: 26161},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2879, col: 11, offset: 90918},
+																						pos: position{line: 2880, col: 11, offset: 90950},
 																						expr: &anyMatcher{
-																							line: 2879, col: 13, offset: 90920,
+																							line: 2880, col: 13, offset: 90952,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26236},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2808, col: 13, offset: 89110},
-																							run: (*parser).callonListContinuationElement701,
+																							pos: position{line: 2809, col: 13, offset: 89142},
+																							run: (*parser).callonListContinuationElement707,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2808, col: 13, offset: 89110},
+																								pos: position{line: 2809, col: 13, offset: 89142},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2808, col: 13, offset: 89110},
+																									pos:        position{line: 2809, col: 13, offset: 89142},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32483,28 +32623,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2884, col: 8, offset: 90982},
+																						pos: position{line: 2885, col: 8, offset: 91014},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2871, col: 12, offset: 90755},
-																								run: (*parser).callonListContinuationElement705,
+																								pos: position{line: 2872, col: 12, offset: 90787},
+																								run: (*parser).callonListContinuationElement711,
 																								expr: &choiceExpr{
-																									pos: position{line: 2871, col: 13, offset: 90756},
+																									pos: position{line: 2872, col: 13, offset: 90788},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 13, offset: 90756},
+																											pos:        position{line: 2872, col: 13, offset: 90788},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 20, offset: 90763},
+																											pos:        position{line: 2872, col: 20, offset: 90795},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 29, offset: 90772},
+																											pos:        position{line: 2872, col: 29, offset: 90804},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32513,9 +32653,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2881, col: 8, offset: 90932},
+																								pos: position{line: 2882, col: 8, offset: 90964},
 																								expr: &anyMatcher{
-																									line: 2881, col: 9, offset: 90933,
+																									line: 2882, col: 9, offset: 90965,
 																								},
 																							},
 																						},
@@ -32545,7 +32685,7 @@ var g = &grammar{
 																			label: "end",
 																			expr: &actionExpr{
 																				pos: position{line: 769, col: 5, offset: 24689},
-																				run: (*parser).callonListContinuationElement717,
+																				run: (*parser).callonListContinuationElement723,
 																				expr: &seqExpr{
 																					pos: position{line: 769, col: 5, offset: 24689},
 																					exprs: []interface{}{
@@ -32554,7 +32694,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 769, col: 16, offset: 24700},
-																								run: (*parser).callonListContinuationElement720,
+																								run: (*parser).callonListContinuationElement726,
 																								expr: &seqExpr{
 																									pos: position{line: 769, col: 16, offset: 24700},
 																									exprs: []interface{}{
@@ -32580,10 +32720,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 771, col: 8, offset: 24791},
 																							expr: &actionExpr{
-																								pos: position{line: 2862, col: 10, offset: 90584},
-																								run: (*parser).callonListContinuationElement726,
+																								pos: position{line: 2863, col: 10, offset: 90616},
+																								run: (*parser).callonListContinuationElement732,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2862, col: 10, offset: 90584},
+																									pos:        position{line: 2863, col: 10, offset: 90616},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32592,28 +32732,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2884, col: 8, offset: 90982},
+																							pos: position{line: 2885, col: 8, offset: 91014},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2871, col: 12, offset: 90755},
-																									run: (*parser).callonListContinuationElement729,
+																									pos: position{line: 2872, col: 12, offset: 90787},
+																									run: (*parser).callonListContinuationElement735,
 																									expr: &choiceExpr{
-																										pos: position{line: 2871, col: 13, offset: 90756},
+																										pos: position{line: 2872, col: 13, offset: 90788},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 13, offset: 90756},
+																												pos:        position{line: 2872, col: 13, offset: 90788},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 20, offset: 90763},
+																												pos:        position{line: 2872, col: 20, offset: 90795},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 29, offset: 90772},
+																												pos:        position{line: 2872, col: 29, offset: 90804},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32622,9 +32762,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2881, col: 8, offset: 90932},
+																									pos: position{line: 2882, col: 8, offset: 90964},
 																									expr: &anyMatcher{
-																										line: 2881, col: 9, offset: 90933,
+																										line: 2882, col: 9, offset: 90965,
 																									},
 																								},
 																							},
@@ -32635,14 +32775,14 @@ var g = &grammar{
 																		},
 																		&andCodeExpr{
 																			pos: position{line: 909, col: 5, offset: 28717},
-																			run: (*parser).callonListContinuationElement736,
+																			run: (*parser).callonListContinuationElement742,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2881, col: 8, offset: 90932},
+																	pos: position{line: 2882, col: 8, offset: 90964},
 																	expr: &anyMatcher{
-																		line: 2881, col: 9, offset: 90933,
+																		line: 2882, col: 9, offset: 90965,
 																	},
 																},
 															},
@@ -32654,7 +32794,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 924, col: 5, offset: 29030},
-										run: (*parser).callonListContinuationElement739,
+										run: (*parser).callonListContinuationElement745,
 										expr: &seqExpr{
 											pos: position{line: 924, col: 5, offset: 29030},
 											exprs: []interface{}{
@@ -32663,7 +32803,7 @@ var g = &grammar{
 													label: "start",
 													expr: &actionExpr{
 														pos: position{line: 783, col: 5, offset: 25165},
-														run: (*parser).callonListContinuationElement742,
+														run: (*parser).callonListContinuationElement748,
 														expr: &seqExpr{
 															pos: position{line: 783, col: 5, offset: 25165},
 															exprs: []interface{}{
@@ -32672,7 +32812,7 @@ var g = &grammar{
 																	label: "delimiter",
 																	expr: &actionExpr{
 																		pos: position{line: 783, col: 16, offset: 25176},
-																		run: (*parser).callonListContinuationElement745,
+																		run: (*parser).callonListContinuationElement751,
 																		expr: &seqExpr{
 																			pos: position{line: 783, col: 16, offset: 25176},
 																			exprs: []interface{}{
@@ -32698,10 +32838,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 785, col: 8, offset: 25267},
 																	expr: &actionExpr{
-																		pos: position{line: 2862, col: 10, offset: 90584},
-																		run: (*parser).callonListContinuationElement751,
+																		pos: position{line: 2863, col: 10, offset: 90616},
+																		run: (*parser).callonListContinuationElement757,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2862, col: 10, offset: 90584},
+																			pos:        position{line: 2863, col: 10, offset: 90616},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32710,28 +32850,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2884, col: 8, offset: 90982},
+																	pos: position{line: 2885, col: 8, offset: 91014},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2871, col: 12, offset: 90755},
-																			run: (*parser).callonListContinuationElement754,
+																			pos: position{line: 2872, col: 12, offset: 90787},
+																			run: (*parser).callonListContinuationElement760,
 																			expr: &choiceExpr{
-																				pos: position{line: 2871, col: 13, offset: 90756},
+																				pos: position{line: 2872, col: 13, offset: 90788},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 13, offset: 90756},
+																						pos:        position{line: 2872, col: 13, offset: 90788},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 20, offset: 90763},
+																						pos:        position{line: 2872, col: 20, offset: 90795},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 29, offset: 90772},
+																						pos:        position{line: 2872, col: 29, offset: 90804},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32740,9 +32880,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2881, col: 8, offset: 90932},
+																			pos: position{line: 2882, col: 8, offset: 90964},
 																			expr: &anyMatcher{
-																				line: 2881, col: 9, offset: 90933,
+																				line: 2882, col: 9, offset: 90965,
 																			},
 																		},
 																	},
@@ -32753,7 +32893,7 @@ var g = &grammar{
 												},
 												&andCodeExpr{
 													pos: position{line: 925, col: 5, offset: 29069},
-													run: (*parser).callonListContinuationElement761,
+													run: (*parser).callonListContinuationElement767,
 												},
 												&labeledExpr{
 													pos:   position{line: 928, col: 5, offset: 29161},
@@ -32762,7 +32902,7 @@ var g = &grammar{
 														pos: position{line: 943, col: 5, offset: 29559},
 														expr: &actionExpr{
 															pos: position{line: 943, col: 6, offset: 29560},
-															run: (*parser).callonListContinuationElement764,
+															run: (*parser).callonListContinuationElement770,
 															expr: &seqExpr{
 																pos: position{line: 943, col: 6, offset: 29560},
 																exprs: []interface{}{
@@ -32779,7 +32919,7 @@ var g = &grammar{
 																							label: "end",
 																							expr: &actionExpr{
 																								pos: position{line: 783, col: 5, offset: 25165},
-																								run: (*parser).callonListContinuationElement770,
+																								run: (*parser).callonListContinuationElement776,
 																								expr: &seqExpr{
 																									pos: position{line: 783, col: 5, offset: 25165},
 																									exprs: []interface{}{
@@ -32788,7 +32928,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 783, col: 16, offset: 25176},
-																												run: (*parser).callonListContinuationElement773,
+																												run: (*parser).callonListContinuationElement779,
 																												expr: &seqExpr{
 																													pos: position{line: 783, col: 16, offset: 25176},
 																													exprs: []interface{}{
@@ -32814,10 +32954,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 785, col: 8, offset: 25267},
 																											expr: &actionExpr{
-																												pos: position{line: 2862, col: 10, offset: 90584},
-																												run: (*parser).callonListContinuationElement779,
+																												pos: position{line: 2863, col: 10, offset: 90616},
+																												run: (*parser).callonListContinuationElement785,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2862, col: 10, offset: 90584},
+																													pos:        position{line: 2863, col: 10, offset: 90616},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32826,28 +32966,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2884, col: 8, offset: 90982},
+																											pos: position{line: 2885, col: 8, offset: 91014},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2871, col: 12, offset: 90755},
-																													run: (*parser).callonListContinuationElement782,
+																													pos: position{line: 2872, col: 12, offset: 90787},
+																													run: (*parser).callonListContinuationElement788,
 																													expr: &choiceExpr{
-																														pos: position{line: 2871, col: 13, offset: 90756},
+																														pos: position{line: 2872, col: 13, offset: 90788},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2871, col: 13, offset: 90756},
+																																pos:        position{line: 2872, col: 13, offset: 90788},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2871, col: 20, offset: 90763},
+																																pos:        position{line: 2872, col: 20, offset: 90795},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2871, col: 29, offset: 90772},
+																																pos:        position{line: 2872, col: 29, offset: 90804},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32856,9 +32996,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2881, col: 8, offset: 90932},
+																													pos: position{line: 2882, col: 8, offset: 90964},
 																													expr: &anyMatcher{
-																														line: 2881, col: 9, offset: 90933,
+																														line: 2882, col: 9, offset: 90965,
 																													},
 																												},
 																											},
@@ -32869,14 +33009,14 @@ var g = &grammar{
 																						},
 																						&andCodeExpr{
 																							pos: position{line: 937, col: 5, offset: 29432},
-																							run: (*parser).callonListContinuationElement789,
+																							run: (*parser).callonListContinuationElement795,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2881, col: 8, offset: 90932},
+																					pos: position{line: 2882, col: 8, offset: 90964},
 																					expr: &anyMatcher{
-																						line: 2881, col: 9, offset: 90933,
+																						line: 2882, col: 9, offset: 90965,
 																					},
 																				},
 																			},
@@ -32887,26 +33027,26 @@ var g = &grammar{
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 811, col: 5, offset: 26161},
-																			run: (*parser).callonListContinuationElement793,
+																			run: (*parser).callonListContinuationElement799,
 																			expr: &seqExpr{
 																				pos: position{line: 811, col: 5, offset: 26161},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2879, col: 11, offset: 90918},
+																						pos: position{line: 2880, col: 11, offset: 90950},
 																						expr: &anyMatcher{
-																							line: 2879, col: 13, offset: 90920,
+																							line: 2880, col: 13, offset: 90952,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26236},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2808, col: 13, offset: 89110},
-																							run: (*parser).callonListContinuationElement798,
+																							pos: position{line: 2809, col: 13, offset: 89142},
+																							run: (*parser).callonListContinuationElement804,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2808, col: 13, offset: 89110},
+																								pos: position{line: 2809, col: 13, offset: 89142},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2808, col: 13, offset: 89110},
+																									pos:        position{line: 2809, col: 13, offset: 89142},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32916,28 +33056,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2884, col: 8, offset: 90982},
+																						pos: position{line: 2885, col: 8, offset: 91014},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2871, col: 12, offset: 90755},
-																								run: (*parser).callonListContinuationElement802,
+																								pos: position{line: 2872, col: 12, offset: 90787},
+																								run: (*parser).callonListContinuationElement808,
 																								expr: &choiceExpr{
-																									pos: position{line: 2871, col: 13, offset: 90756},
+																									pos: position{line: 2872, col: 13, offset: 90788},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 13, offset: 90756},
+																											pos:        position{line: 2872, col: 13, offset: 90788},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 20, offset: 90763},
+																											pos:        position{line: 2872, col: 20, offset: 90795},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 29, offset: 90772},
+																											pos:        position{line: 2872, col: 29, offset: 90804},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32946,9 +33086,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2881, col: 8, offset: 90932},
+																								pos: position{line: 2882, col: 8, offset: 90964},
 																								expr: &anyMatcher{
-																									line: 2881, col: 9, offset: 90933,
+																									line: 2882, col: 9, offset: 90965,
 																								},
 																							},
 																						},
@@ -32978,7 +33118,7 @@ var g = &grammar{
 																			label: "end",
 																			expr: &actionExpr{
 																				pos: position{line: 783, col: 5, offset: 25165},
-																				run: (*parser).callonListContinuationElement814,
+																				run: (*parser).callonListContinuationElement820,
 																				expr: &seqExpr{
 																					pos: position{line: 783, col: 5, offset: 25165},
 																					exprs: []interface{}{
@@ -32987,7 +33127,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 783, col: 16, offset: 25176},
-																								run: (*parser).callonListContinuationElement817,
+																								run: (*parser).callonListContinuationElement823,
 																								expr: &seqExpr{
 																									pos: position{line: 783, col: 16, offset: 25176},
 																									exprs: []interface{}{
@@ -33013,10 +33153,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 785, col: 8, offset: 25267},
 																							expr: &actionExpr{
-																								pos: position{line: 2862, col: 10, offset: 90584},
-																								run: (*parser).callonListContinuationElement823,
+																								pos: position{line: 2863, col: 10, offset: 90616},
+																								run: (*parser).callonListContinuationElement829,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2862, col: 10, offset: 90584},
+																									pos:        position{line: 2863, col: 10, offset: 90616},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33025,28 +33165,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2884, col: 8, offset: 90982},
+																							pos: position{line: 2885, col: 8, offset: 91014},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2871, col: 12, offset: 90755},
-																									run: (*parser).callonListContinuationElement826,
+																									pos: position{line: 2872, col: 12, offset: 90787},
+																									run: (*parser).callonListContinuationElement832,
 																									expr: &choiceExpr{
-																										pos: position{line: 2871, col: 13, offset: 90756},
+																										pos: position{line: 2872, col: 13, offset: 90788},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 13, offset: 90756},
+																												pos:        position{line: 2872, col: 13, offset: 90788},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 20, offset: 90763},
+																												pos:        position{line: 2872, col: 20, offset: 90795},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 29, offset: 90772},
+																												pos:        position{line: 2872, col: 29, offset: 90804},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33055,9 +33195,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2881, col: 8, offset: 90932},
+																									pos: position{line: 2882, col: 8, offset: 90964},
 																									expr: &anyMatcher{
-																										line: 2881, col: 9, offset: 90933,
+																										line: 2882, col: 9, offset: 90965,
 																									},
 																								},
 																							},
@@ -33068,14 +33208,14 @@ var g = &grammar{
 																		},
 																		&andCodeExpr{
 																			pos: position{line: 937, col: 5, offset: 29432},
-																			run: (*parser).callonListContinuationElement833,
+																			run: (*parser).callonListContinuationElement839,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2881, col: 8, offset: 90932},
+																	pos: position{line: 2882, col: 8, offset: 90964},
 																	expr: &anyMatcher{
-																		line: 2881, col: 9, offset: 90933,
+																		line: 2882, col: 9, offset: 90965,
 																	},
 																},
 															},
@@ -33087,7 +33227,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 975, col: 5, offset: 30473},
-										run: (*parser).callonListContinuationElement836,
+										run: (*parser).callonListContinuationElement842,
 										expr: &seqExpr{
 											pos: position{line: 975, col: 5, offset: 30473},
 											exprs: []interface{}{
@@ -33096,7 +33236,7 @@ var g = &grammar{
 													label: "firstLine",
 													expr: &actionExpr{
 														pos: position{line: 982, col: 5, offset: 30732},
-														run: (*parser).callonListContinuationElement839,
+														run: (*parser).callonListContinuationElement845,
 														expr: &seqExpr{
 															pos: position{line: 982, col: 5, offset: 30732},
 															exprs: []interface{}{
@@ -33104,23 +33244,23 @@ var g = &grammar{
 																	pos: position{line: 982, col: 5, offset: 30732},
 																	expr: &actionExpr{
 																		pos: position{line: 677, col: 14, offset: 21557},
-																		run: (*parser).callonListContinuationElement842,
+																		run: (*parser).callonListContinuationElement848,
 																		expr: &seqExpr{
 																			pos: position{line: 677, col: 14, offset: 21557},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2879, col: 11, offset: 90918},
+																					pos: position{line: 2880, col: 11, offset: 90950},
 																					expr: &anyMatcher{
-																						line: 2879, col: 13, offset: 90920,
+																						line: 2880, col: 13, offset: 90952,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21564},
 																					expr: &actionExpr{
-																						pos: position{line: 2862, col: 10, offset: 90584},
-																						run: (*parser).callonListContinuationElement847,
+																						pos: position{line: 2863, col: 10, offset: 90616},
+																						run: (*parser).callonListContinuationElement853,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2862, col: 10, offset: 90584},
+																							pos:        position{line: 2863, col: 10, offset: 90616},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -33129,28 +33269,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2884, col: 8, offset: 90982},
+																					pos: position{line: 2885, col: 8, offset: 91014},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2871, col: 12, offset: 90755},
-																							run: (*parser).callonListContinuationElement850,
+																							pos: position{line: 2872, col: 12, offset: 90787},
+																							run: (*parser).callonListContinuationElement856,
 																							expr: &choiceExpr{
-																								pos: position{line: 2871, col: 13, offset: 90756},
+																								pos: position{line: 2872, col: 13, offset: 90788},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2871, col: 13, offset: 90756},
+																										pos:        position{line: 2872, col: 13, offset: 90788},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2871, col: 20, offset: 90763},
+																										pos:        position{line: 2872, col: 20, offset: 90795},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2871, col: 29, offset: 90772},
+																										pos:        position{line: 2872, col: 29, offset: 90804},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -33159,9 +33299,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2881, col: 8, offset: 90932},
+																							pos: position{line: 2882, col: 8, offset: 90964},
 																							expr: &anyMatcher{
-																								line: 2881, col: 9, offset: 90933,
+																								line: 2882, col: 9, offset: 90965,
 																							},
 																						},
 																					},
@@ -33180,12 +33320,12 @@ var g = &grammar{
 																	pos:   position{line: 984, col: 5, offset: 30757},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2812, col: 14, offset: 89177},
-																		run: (*parser).callonListContinuationElement859,
+																		pos: position{line: 2813, col: 14, offset: 89209},
+																		run: (*parser).callonListContinuationElement865,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2812, col: 14, offset: 89177},
+																			pos: position{line: 2813, col: 14, offset: 89209},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2812, col: 14, offset: 89177},
+																				pos:        position{line: 2813, col: 14, offset: 89209},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -33195,28 +33335,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2884, col: 8, offset: 90982},
+																	pos: position{line: 2885, col: 8, offset: 91014},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2871, col: 12, offset: 90755},
-																			run: (*parser).callonListContinuationElement863,
+																			pos: position{line: 2872, col: 12, offset: 90787},
+																			run: (*parser).callonListContinuationElement869,
 																			expr: &choiceExpr{
-																				pos: position{line: 2871, col: 13, offset: 90756},
+																				pos: position{line: 2872, col: 13, offset: 90788},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 13, offset: 90756},
+																						pos:        position{line: 2872, col: 13, offset: 90788},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 20, offset: 90763},
+																						pos:        position{line: 2872, col: 20, offset: 90795},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 29, offset: 90772},
+																						pos:        position{line: 2872, col: 29, offset: 90804},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33225,9 +33365,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2881, col: 8, offset: 90932},
+																			pos: position{line: 2882, col: 8, offset: 90964},
 																			expr: &anyMatcher{
-																				line: 2881, col: 9, offset: 90933,
+																				line: 2882, col: 9, offset: 90965,
 																			},
 																		},
 																	},
@@ -33246,7 +33386,7 @@ var g = &grammar{
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 982, col: 5, offset: 30732},
-																	run: (*parser).callonListContinuationElement873,
+																	run: (*parser).callonListContinuationElement879,
 																	expr: &seqExpr{
 																		pos: position{line: 982, col: 5, offset: 30732},
 																		exprs: []interface{}{
@@ -33254,23 +33394,23 @@ var g = &grammar{
 																				pos: position{line: 982, col: 5, offset: 30732},
 																				expr: &actionExpr{
 																					pos: position{line: 677, col: 14, offset: 21557},
-																					run: (*parser).callonListContinuationElement876,
+																					run: (*parser).callonListContinuationElement882,
 																					expr: &seqExpr{
 																						pos: position{line: 677, col: 14, offset: 21557},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2879, col: 11, offset: 90918},
+																								pos: position{line: 2880, col: 11, offset: 90950},
 																								expr: &anyMatcher{
-																									line: 2879, col: 13, offset: 90920,
+																									line: 2880, col: 13, offset: 90952,
 																								},
 																							},
 																							&zeroOrMoreExpr{
 																								pos: position{line: 677, col: 21, offset: 21564},
 																								expr: &actionExpr{
-																									pos: position{line: 2862, col: 10, offset: 90584},
-																									run: (*parser).callonListContinuationElement881,
+																									pos: position{line: 2863, col: 10, offset: 90616},
+																									run: (*parser).callonListContinuationElement887,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2862, col: 10, offset: 90584},
+																										pos:        position{line: 2863, col: 10, offset: 90616},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33279,28 +33419,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2884, col: 8, offset: 90982},
+																								pos: position{line: 2885, col: 8, offset: 91014},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2871, col: 12, offset: 90755},
-																										run: (*parser).callonListContinuationElement884,
+																										pos: position{line: 2872, col: 12, offset: 90787},
+																										run: (*parser).callonListContinuationElement890,
 																										expr: &choiceExpr{
-																											pos: position{line: 2871, col: 13, offset: 90756},
+																											pos: position{line: 2872, col: 13, offset: 90788},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2871, col: 13, offset: 90756},
+																													pos:        position{line: 2872, col: 13, offset: 90788},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2871, col: 20, offset: 90763},
+																													pos:        position{line: 2872, col: 20, offset: 90795},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2871, col: 29, offset: 90772},
+																													pos:        position{line: 2872, col: 29, offset: 90804},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33309,9 +33449,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2881, col: 8, offset: 90932},
+																										pos: position{line: 2882, col: 8, offset: 90964},
 																										expr: &anyMatcher{
-																											line: 2881, col: 9, offset: 90933,
+																											line: 2882, col: 9, offset: 90965,
 																										},
 																									},
 																								},
@@ -33330,12 +33470,12 @@ var g = &grammar{
 																				pos:   position{line: 984, col: 5, offset: 30757},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2812, col: 14, offset: 89177},
-																					run: (*parser).callonListContinuationElement893,
+																					pos: position{line: 2813, col: 14, offset: 89209},
+																					run: (*parser).callonListContinuationElement899,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2812, col: 14, offset: 89177},
+																						pos: position{line: 2813, col: 14, offset: 89209},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2812, col: 14, offset: 89177},
+																							pos:        position{line: 2813, col: 14, offset: 89209},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33345,28 +33485,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2884, col: 8, offset: 90982},
+																				pos: position{line: 2885, col: 8, offset: 91014},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2871, col: 12, offset: 90755},
-																						run: (*parser).callonListContinuationElement897,
+																						pos: position{line: 2872, col: 12, offset: 90787},
+																						run: (*parser).callonListContinuationElement903,
 																						expr: &choiceExpr{
-																							pos: position{line: 2871, col: 13, offset: 90756},
+																							pos: position{line: 2872, col: 13, offset: 90788},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2871, col: 13, offset: 90756},
+																									pos:        position{line: 2872, col: 13, offset: 90788},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2871, col: 20, offset: 90763},
+																									pos:        position{line: 2872, col: 20, offset: 90795},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2871, col: 29, offset: 90772},
+																									pos:        position{line: 2872, col: 29, offset: 90804},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33375,9 +33515,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2881, col: 8, offset: 90932},
+																						pos: position{line: 2882, col: 8, offset: 90964},
 																						expr: &anyMatcher{
-																							line: 2881, col: 9, offset: 90933,
+																							line: 2882, col: 9, offset: 90965,
 																						},
 																					},
 																				},
@@ -33386,21 +33526,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1784, col: 5, offset: 57750},
-																	run: (*parser).callonListContinuationElement904,
+																	pos: position{line: 1785, col: 5, offset: 57782},
+																	run: (*parser).callonListContinuationElement910,
 																	expr: &seqExpr{
-																		pos: position{line: 1784, col: 5, offset: 57750},
+																		pos: position{line: 1785, col: 5, offset: 57782},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1784, col: 5, offset: 57750},
+																				pos:   position{line: 1785, col: 5, offset: 57782},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2812, col: 14, offset: 89177},
-																					run: (*parser).callonListContinuationElement907,
+																					pos: position{line: 2813, col: 14, offset: 89209},
+																					run: (*parser).callonListContinuationElement913,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2812, col: 14, offset: 89177},
+																						pos: position{line: 2813, col: 14, offset: 89209},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2812, col: 14, offset: 89177},
+																							pos:        position{line: 2813, col: 14, offset: 89209},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33410,32 +33550,32 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1785, col: 5, offset: 57774},
-																				run: (*parser).callonListContinuationElement910,
+																				pos: position{line: 1786, col: 5, offset: 57806},
+																				run: (*parser).callonListContinuationElement916,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2884, col: 8, offset: 90982},
+																				pos: position{line: 2885, col: 8, offset: 91014},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2871, col: 12, offset: 90755},
-																						run: (*parser).callonListContinuationElement912,
+																						pos: position{line: 2872, col: 12, offset: 90787},
+																						run: (*parser).callonListContinuationElement918,
 																						expr: &choiceExpr{
-																							pos: position{line: 2871, col: 13, offset: 90756},
+																							pos: position{line: 2872, col: 13, offset: 90788},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2871, col: 13, offset: 90756},
+																									pos:        position{line: 2872, col: 13, offset: 90788},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2871, col: 20, offset: 90763},
+																									pos:        position{line: 2872, col: 20, offset: 90795},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2871, col: 29, offset: 90772},
+																									pos:        position{line: 2872, col: 29, offset: 90804},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33444,9 +33584,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2881, col: 8, offset: 90932},
+																						pos: position{line: 2882, col: 8, offset: 90964},
 																						expr: &anyMatcher{
-																							line: 2881, col: 9, offset: 90933,
+																							line: 2882, col: 9, offset: 90965,
 																						},
 																					},
 																				},
@@ -33463,7 +33603,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 997, col: 5, offset: 31022},
-										run: (*parser).callonListContinuationElement919,
+										run: (*parser).callonListContinuationElement925,
 										expr: &seqExpr{
 											pos: position{line: 997, col: 5, offset: 31022},
 											exprs: []interface{}{
@@ -33472,7 +33612,7 @@ var g = &grammar{
 													label: "start",
 													expr: &actionExpr{
 														pos: position{line: 776, col: 5, offset: 24934},
-														run: (*parser).callonListContinuationElement922,
+														run: (*parser).callonListContinuationElement928,
 														expr: &seqExpr{
 															pos: position{line: 776, col: 5, offset: 24934},
 															exprs: []interface{}{
@@ -33481,7 +33621,7 @@ var g = &grammar{
 																	label: "delimiter",
 																	expr: &actionExpr{
 																		pos: position{line: 776, col: 16, offset: 24945},
-																		run: (*parser).callonListContinuationElement925,
+																		run: (*parser).callonListContinuationElement931,
 																		expr: &litMatcher{
 																			pos:        position{line: 776, col: 16, offset: 24945},
 																			val:        "--",
@@ -33493,10 +33633,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 778, col: 8, offset: 25022},
 																	expr: &actionExpr{
-																		pos: position{line: 2862, col: 10, offset: 90584},
-																		run: (*parser).callonListContinuationElement928,
+																		pos: position{line: 2863, col: 10, offset: 90616},
+																		run: (*parser).callonListContinuationElement934,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2862, col: 10, offset: 90584},
+																			pos:        position{line: 2863, col: 10, offset: 90616},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33505,28 +33645,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2884, col: 8, offset: 90982},
+																	pos: position{line: 2885, col: 8, offset: 91014},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2871, col: 12, offset: 90755},
-																			run: (*parser).callonListContinuationElement931,
+																			pos: position{line: 2872, col: 12, offset: 90787},
+																			run: (*parser).callonListContinuationElement937,
 																			expr: &choiceExpr{
-																				pos: position{line: 2871, col: 13, offset: 90756},
+																				pos: position{line: 2872, col: 13, offset: 90788},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 13, offset: 90756},
+																						pos:        position{line: 2872, col: 13, offset: 90788},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 20, offset: 90763},
+																						pos:        position{line: 2872, col: 20, offset: 90795},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 29, offset: 90772},
+																						pos:        position{line: 2872, col: 29, offset: 90804},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33535,9 +33675,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2881, col: 8, offset: 90932},
+																			pos: position{line: 2882, col: 8, offset: 90964},
 																			expr: &anyMatcher{
-																				line: 2881, col: 9, offset: 90933,
+																				line: 2882, col: 9, offset: 90965,
 																			},
 																		},
 																	},
@@ -33553,7 +33693,7 @@ var g = &grammar{
 														pos: position{line: 1008, col: 5, offset: 31326},
 														expr: &actionExpr{
 															pos: position{line: 1008, col: 6, offset: 31327},
-															run: (*parser).callonListContinuationElement940,
+															run: (*parser).callonListContinuationElement946,
 															expr: &seqExpr{
 																pos: position{line: 1008, col: 6, offset: 31327},
 																exprs: []interface{}{
@@ -33564,7 +33704,7 @@ var g = &grammar{
 																			alternatives: []interface{}{
 																				&actionExpr{
 																					pos: position{line: 776, col: 5, offset: 24934},
-																					run: (*parser).callonListContinuationElement944,
+																					run: (*parser).callonListContinuationElement950,
 																					expr: &seqExpr{
 																						pos: position{line: 776, col: 5, offset: 24934},
 																						exprs: []interface{}{
@@ -33573,7 +33713,7 @@ var g = &grammar{
 																								label: "delimiter",
 																								expr: &actionExpr{
 																									pos: position{line: 776, col: 16, offset: 24945},
-																									run: (*parser).callonListContinuationElement947,
+																									run: (*parser).callonListContinuationElement953,
 																									expr: &litMatcher{
 																										pos:        position{line: 776, col: 16, offset: 24945},
 																										val:        "--",
@@ -33585,10 +33725,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 778, col: 8, offset: 25022},
 																								expr: &actionExpr{
-																									pos: position{line: 2862, col: 10, offset: 90584},
-																									run: (*parser).callonListContinuationElement950,
+																									pos: position{line: 2863, col: 10, offset: 90616},
+																									run: (*parser).callonListContinuationElement956,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2862, col: 10, offset: 90584},
+																										pos:        position{line: 2863, col: 10, offset: 90616},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33597,28 +33737,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2884, col: 8, offset: 90982},
+																								pos: position{line: 2885, col: 8, offset: 91014},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2871, col: 12, offset: 90755},
-																										run: (*parser).callonListContinuationElement953,
+																										pos: position{line: 2872, col: 12, offset: 90787},
+																										run: (*parser).callonListContinuationElement959,
 																										expr: &choiceExpr{
-																											pos: position{line: 2871, col: 13, offset: 90756},
+																											pos: position{line: 2872, col: 13, offset: 90788},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2871, col: 13, offset: 90756},
+																													pos:        position{line: 2872, col: 13, offset: 90788},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2871, col: 20, offset: 90763},
+																													pos:        position{line: 2872, col: 20, offset: 90795},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2871, col: 29, offset: 90772},
+																													pos:        position{line: 2872, col: 29, offset: 90804},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33627,9 +33767,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2881, col: 8, offset: 90932},
+																										pos: position{line: 2882, col: 8, offset: 90964},
 																										expr: &anyMatcher{
-																											line: 2881, col: 9, offset: 90933,
+																											line: 2882, col: 9, offset: 90965,
 																										},
 																									},
 																								},
@@ -33638,9 +33778,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2881, col: 8, offset: 90932},
+																					pos: position{line: 2882, col: 8, offset: 90964},
 																					expr: &anyMatcher{
-																						line: 2881, col: 9, offset: 90933,
+																						line: 2882, col: 9, offset: 90965,
 																					},
 																				},
 																			},
@@ -33651,26 +33791,26 @@ var g = &grammar{
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 811, col: 5, offset: 26161},
-																			run: (*parser).callonListContinuationElement963,
+																			run: (*parser).callonListContinuationElement969,
 																			expr: &seqExpr{
 																				pos: position{line: 811, col: 5, offset: 26161},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2879, col: 11, offset: 90918},
+																						pos: position{line: 2880, col: 11, offset: 90950},
 																						expr: &anyMatcher{
-																							line: 2879, col: 13, offset: 90920,
+																							line: 2880, col: 13, offset: 90952,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26236},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2808, col: 13, offset: 89110},
-																							run: (*parser).callonListContinuationElement968,
+																							pos: position{line: 2809, col: 13, offset: 89142},
+																							run: (*parser).callonListContinuationElement974,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2808, col: 13, offset: 89110},
+																								pos: position{line: 2809, col: 13, offset: 89142},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2808, col: 13, offset: 89110},
+																									pos:        position{line: 2809, col: 13, offset: 89142},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33680,28 +33820,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2884, col: 8, offset: 90982},
+																						pos: position{line: 2885, col: 8, offset: 91014},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2871, col: 12, offset: 90755},
-																								run: (*parser).callonListContinuationElement972,
+																								pos: position{line: 2872, col: 12, offset: 90787},
+																								run: (*parser).callonListContinuationElement978,
 																								expr: &choiceExpr{
-																									pos: position{line: 2871, col: 13, offset: 90756},
+																									pos: position{line: 2872, col: 13, offset: 90788},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 13, offset: 90756},
+																											pos:        position{line: 2872, col: 13, offset: 90788},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 20, offset: 90763},
+																											pos:        position{line: 2872, col: 20, offset: 90795},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 29, offset: 90772},
+																											pos:        position{line: 2872, col: 29, offset: 90804},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33710,9 +33850,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2881, col: 8, offset: 90932},
+																								pos: position{line: 2882, col: 8, offset: 90964},
 																								expr: &anyMatcher{
-																									line: 2881, col: 9, offset: 90933,
+																									line: 2882, col: 9, offset: 90965,
 																								},
 																							},
 																						},
@@ -33736,7 +33876,7 @@ var g = &grammar{
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 776, col: 5, offset: 24934},
-																	run: (*parser).callonListContinuationElement982,
+																	run: (*parser).callonListContinuationElement988,
 																	expr: &seqExpr{
 																		pos: position{line: 776, col: 5, offset: 24934},
 																		exprs: []interface{}{
@@ -33745,7 +33885,7 @@ var g = &grammar{
 																				label: "delimiter",
 																				expr: &actionExpr{
 																					pos: position{line: 776, col: 16, offset: 24945},
-																					run: (*parser).callonListContinuationElement985,
+																					run: (*parser).callonListContinuationElement991,
 																					expr: &litMatcher{
 																						pos:        position{line: 776, col: 16, offset: 24945},
 																						val:        "--",
@@ -33757,10 +33897,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 778, col: 8, offset: 25022},
 																				expr: &actionExpr{
-																					pos: position{line: 2862, col: 10, offset: 90584},
-																					run: (*parser).callonListContinuationElement988,
+																					pos: position{line: 2863, col: 10, offset: 90616},
+																					run: (*parser).callonListContinuationElement994,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2862, col: 10, offset: 90584},
+																						pos:        position{line: 2863, col: 10, offset: 90616},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -33769,28 +33909,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2884, col: 8, offset: 90982},
+																				pos: position{line: 2885, col: 8, offset: 91014},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2871, col: 12, offset: 90755},
-																						run: (*parser).callonListContinuationElement991,
+																						pos: position{line: 2872, col: 12, offset: 90787},
+																						run: (*parser).callonListContinuationElement997,
 																						expr: &choiceExpr{
-																							pos: position{line: 2871, col: 13, offset: 90756},
+																							pos: position{line: 2872, col: 13, offset: 90788},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2871, col: 13, offset: 90756},
+																									pos:        position{line: 2872, col: 13, offset: 90788},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2871, col: 20, offset: 90763},
+																									pos:        position{line: 2872, col: 20, offset: 90795},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2871, col: 29, offset: 90772},
+																									pos:        position{line: 2872, col: 29, offset: 90804},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33799,9 +33939,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2881, col: 8, offset: 90932},
+																						pos: position{line: 2882, col: 8, offset: 90964},
 																						expr: &anyMatcher{
-																							line: 2881, col: 9, offset: 90933,
+																							line: 2882, col: 9, offset: 90965,
 																						},
 																					},
 																				},
@@ -33810,9 +33950,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2881, col: 8, offset: 90932},
+																	pos: position{line: 2882, col: 8, offset: 90964},
 																	expr: &anyMatcher{
-																		line: 2881, col: 9, offset: 90933,
+																		line: 2882, col: 9, offset: 90965,
 																	},
 																},
 															},
@@ -33824,7 +33964,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1017, col: 5, offset: 31517},
-										run: (*parser).callonListContinuationElement1000,
+										run: (*parser).callonListContinuationElement1006,
 										expr: &seqExpr{
 											pos: position{line: 1017, col: 5, offset: 31517},
 											exprs: []interface{}{
@@ -33833,7 +33973,7 @@ var g = &grammar{
 													label: "start",
 													expr: &actionExpr{
 														pos: position{line: 790, col: 5, offset: 25417},
-														run: (*parser).callonListContinuationElement1003,
+														run: (*parser).callonListContinuationElement1009,
 														expr: &seqExpr{
 															pos: position{line: 790, col: 5, offset: 25417},
 															exprs: []interface{}{
@@ -33842,7 +33982,7 @@ var g = &grammar{
 																	label: "delimiter",
 																	expr: &actionExpr{
 																		pos: position{line: 790, col: 16, offset: 25428},
-																		run: (*parser).callonListContinuationElement1006,
+																		run: (*parser).callonListContinuationElement1012,
 																		expr: &seqExpr{
 																			pos: position{line: 790, col: 16, offset: 25428},
 																			exprs: []interface{}{
@@ -33868,10 +34008,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 792, col: 8, offset: 25519},
 																	expr: &actionExpr{
-																		pos: position{line: 2862, col: 10, offset: 90584},
-																		run: (*parser).callonListContinuationElement1012,
+																		pos: position{line: 2863, col: 10, offset: 90616},
+																		run: (*parser).callonListContinuationElement1018,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2862, col: 10, offset: 90584},
+																			pos:        position{line: 2863, col: 10, offset: 90616},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33880,28 +34020,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2884, col: 8, offset: 90982},
+																	pos: position{line: 2885, col: 8, offset: 91014},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2871, col: 12, offset: 90755},
-																			run: (*parser).callonListContinuationElement1015,
+																			pos: position{line: 2872, col: 12, offset: 90787},
+																			run: (*parser).callonListContinuationElement1021,
 																			expr: &choiceExpr{
-																				pos: position{line: 2871, col: 13, offset: 90756},
+																				pos: position{line: 2872, col: 13, offset: 90788},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 13, offset: 90756},
+																						pos:        position{line: 2872, col: 13, offset: 90788},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 20, offset: 90763},
+																						pos:        position{line: 2872, col: 20, offset: 90795},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 29, offset: 90772},
+																						pos:        position{line: 2872, col: 29, offset: 90804},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33910,9 +34050,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2881, col: 8, offset: 90932},
+																			pos: position{line: 2882, col: 8, offset: 90964},
 																			expr: &anyMatcher{
-																				line: 2881, col: 9, offset: 90933,
+																				line: 2882, col: 9, offset: 90965,
 																			},
 																		},
 																	},
@@ -33923,7 +34063,7 @@ var g = &grammar{
 												},
 												&andCodeExpr{
 													pos: position{line: 1018, col: 5, offset: 31560},
-													run: (*parser).callonListContinuationElement1022,
+													run: (*parser).callonListContinuationElement1028,
 												},
 												&labeledExpr{
 													pos:   position{line: 1021, col: 5, offset: 31652},
@@ -33932,7 +34072,7 @@ var g = &grammar{
 														pos: position{line: 1036, col: 5, offset: 32082},
 														expr: &actionExpr{
 															pos: position{line: 1036, col: 6, offset: 32083},
-															run: (*parser).callonListContinuationElement1025,
+															run: (*parser).callonListContinuationElement1031,
 															expr: &seqExpr{
 																pos: position{line: 1036, col: 6, offset: 32083},
 																exprs: []interface{}{
@@ -33949,7 +34089,7 @@ var g = &grammar{
 																							label: "end",
 																							expr: &actionExpr{
 																								pos: position{line: 790, col: 5, offset: 25417},
-																								run: (*parser).callonListContinuationElement1031,
+																								run: (*parser).callonListContinuationElement1037,
 																								expr: &seqExpr{
 																									pos: position{line: 790, col: 5, offset: 25417},
 																									exprs: []interface{}{
@@ -33958,7 +34098,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 790, col: 16, offset: 25428},
-																												run: (*parser).callonListContinuationElement1034,
+																												run: (*parser).callonListContinuationElement1040,
 																												expr: &seqExpr{
 																													pos: position{line: 790, col: 16, offset: 25428},
 																													exprs: []interface{}{
@@ -33984,10 +34124,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 792, col: 8, offset: 25519},
 																											expr: &actionExpr{
-																												pos: position{line: 2862, col: 10, offset: 90584},
-																												run: (*parser).callonListContinuationElement1040,
+																												pos: position{line: 2863, col: 10, offset: 90616},
+																												run: (*parser).callonListContinuationElement1046,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2862, col: 10, offset: 90584},
+																													pos:        position{line: 2863, col: 10, offset: 90616},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33996,28 +34136,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2884, col: 8, offset: 90982},
+																											pos: position{line: 2885, col: 8, offset: 91014},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2871, col: 12, offset: 90755},
-																													run: (*parser).callonListContinuationElement1043,
+																													pos: position{line: 2872, col: 12, offset: 90787},
+																													run: (*parser).callonListContinuationElement1049,
 																													expr: &choiceExpr{
-																														pos: position{line: 2871, col: 13, offset: 90756},
+																														pos: position{line: 2872, col: 13, offset: 90788},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2871, col: 13, offset: 90756},
+																																pos:        position{line: 2872, col: 13, offset: 90788},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2871, col: 20, offset: 90763},
+																																pos:        position{line: 2872, col: 20, offset: 90795},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2871, col: 29, offset: 90772},
+																																pos:        position{line: 2872, col: 29, offset: 90804},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34026,9 +34166,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2881, col: 8, offset: 90932},
+																													pos: position{line: 2882, col: 8, offset: 90964},
 																													expr: &anyMatcher{
-																														line: 2881, col: 9, offset: 90933,
+																														line: 2882, col: 9, offset: 90965,
 																													},
 																												},
 																											},
@@ -34039,14 +34179,14 @@ var g = &grammar{
 																						},
 																						&andCodeExpr{
 																							pos: position{line: 1030, col: 5, offset: 31951},
-																							run: (*parser).callonListContinuationElement1050,
+																							run: (*parser).callonListContinuationElement1056,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2881, col: 8, offset: 90932},
+																					pos: position{line: 2882, col: 8, offset: 90964},
 																					expr: &anyMatcher{
-																						line: 2881, col: 9, offset: 90933,
+																						line: 2882, col: 9, offset: 90965,
 																					},
 																				},
 																			},
@@ -34057,26 +34197,26 @@ var g = &grammar{
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 811, col: 5, offset: 26161},
-																			run: (*parser).callonListContinuationElement1054,
+																			run: (*parser).callonListContinuationElement1060,
 																			expr: &seqExpr{
 																				pos: position{line: 811, col: 5, offset: 26161},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2879, col: 11, offset: 90918},
+																						pos: position{line: 2880, col: 11, offset: 90950},
 																						expr: &anyMatcher{
-																							line: 2879, col: 13, offset: 90920,
+																							line: 2880, col: 13, offset: 90952,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26236},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2808, col: 13, offset: 89110},
-																							run: (*parser).callonListContinuationElement1059,
+																							pos: position{line: 2809, col: 13, offset: 89142},
+																							run: (*parser).callonListContinuationElement1065,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2808, col: 13, offset: 89110},
+																								pos: position{line: 2809, col: 13, offset: 89142},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2808, col: 13, offset: 89110},
+																									pos:        position{line: 2809, col: 13, offset: 89142},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34086,28 +34226,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2884, col: 8, offset: 90982},
+																						pos: position{line: 2885, col: 8, offset: 91014},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2871, col: 12, offset: 90755},
-																								run: (*parser).callonListContinuationElement1063,
+																								pos: position{line: 2872, col: 12, offset: 90787},
+																								run: (*parser).callonListContinuationElement1069,
 																								expr: &choiceExpr{
-																									pos: position{line: 2871, col: 13, offset: 90756},
+																									pos: position{line: 2872, col: 13, offset: 90788},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 13, offset: 90756},
+																											pos:        position{line: 2872, col: 13, offset: 90788},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 20, offset: 90763},
+																											pos:        position{line: 2872, col: 20, offset: 90795},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 29, offset: 90772},
+																											pos:        position{line: 2872, col: 29, offset: 90804},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34116,9 +34256,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2881, col: 8, offset: 90932},
+																								pos: position{line: 2882, col: 8, offset: 90964},
 																								expr: &anyMatcher{
-																									line: 2881, col: 9, offset: 90933,
+																									line: 2882, col: 9, offset: 90965,
 																								},
 																							},
 																						},
@@ -34148,7 +34288,7 @@ var g = &grammar{
 																			label: "end",
 																			expr: &actionExpr{
 																				pos: position{line: 790, col: 5, offset: 25417},
-																				run: (*parser).callonListContinuationElement1075,
+																				run: (*parser).callonListContinuationElement1081,
 																				expr: &seqExpr{
 																					pos: position{line: 790, col: 5, offset: 25417},
 																					exprs: []interface{}{
@@ -34157,7 +34297,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 790, col: 16, offset: 25428},
-																								run: (*parser).callonListContinuationElement1078,
+																								run: (*parser).callonListContinuationElement1084,
 																								expr: &seqExpr{
 																									pos: position{line: 790, col: 16, offset: 25428},
 																									exprs: []interface{}{
@@ -34183,10 +34323,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 792, col: 8, offset: 25519},
 																							expr: &actionExpr{
-																								pos: position{line: 2862, col: 10, offset: 90584},
-																								run: (*parser).callonListContinuationElement1084,
+																								pos: position{line: 2863, col: 10, offset: 90616},
+																								run: (*parser).callonListContinuationElement1090,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2862, col: 10, offset: 90584},
+																									pos:        position{line: 2863, col: 10, offset: 90616},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34195,28 +34335,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2884, col: 8, offset: 90982},
+																							pos: position{line: 2885, col: 8, offset: 91014},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2871, col: 12, offset: 90755},
-																									run: (*parser).callonListContinuationElement1087,
+																									pos: position{line: 2872, col: 12, offset: 90787},
+																									run: (*parser).callonListContinuationElement1093,
 																									expr: &choiceExpr{
-																										pos: position{line: 2871, col: 13, offset: 90756},
+																										pos: position{line: 2872, col: 13, offset: 90788},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 13, offset: 90756},
+																												pos:        position{line: 2872, col: 13, offset: 90788},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 20, offset: 90763},
+																												pos:        position{line: 2872, col: 20, offset: 90795},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 29, offset: 90772},
+																												pos:        position{line: 2872, col: 29, offset: 90804},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34225,9 +34365,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2881, col: 8, offset: 90932},
+																									pos: position{line: 2882, col: 8, offset: 90964},
 																									expr: &anyMatcher{
-																										line: 2881, col: 9, offset: 90933,
+																										line: 2882, col: 9, offset: 90965,
 																									},
 																								},
 																							},
@@ -34238,14 +34378,14 @@ var g = &grammar{
 																		},
 																		&andCodeExpr{
 																			pos: position{line: 1030, col: 5, offset: 31951},
-																			run: (*parser).callonListContinuationElement1094,
+																			run: (*parser).callonListContinuationElement1100,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2881, col: 8, offset: 90932},
+																	pos: position{line: 2882, col: 8, offset: 90964},
 																	expr: &anyMatcher{
-																		line: 2881, col: 9, offset: 90933,
+																		line: 2882, col: 9, offset: 90965,
 																	},
 																},
 															},
@@ -34257,7 +34397,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1045, col: 5, offset: 32268},
-										run: (*parser).callonListContinuationElement1097,
+										run: (*parser).callonListContinuationElement1103,
 										expr: &seqExpr{
 											pos: position{line: 1045, col: 5, offset: 32268},
 											exprs: []interface{}{
@@ -34266,7 +34406,7 @@ var g = &grammar{
 													label: "start",
 													expr: &actionExpr{
 														pos: position{line: 797, col: 5, offset: 25667},
-														run: (*parser).callonListContinuationElement1100,
+														run: (*parser).callonListContinuationElement1106,
 														expr: &seqExpr{
 															pos: position{line: 797, col: 5, offset: 25667},
 															exprs: []interface{}{
@@ -34275,7 +34415,7 @@ var g = &grammar{
 																	label: "delimiter",
 																	expr: &actionExpr{
 																		pos: position{line: 797, col: 16, offset: 25678},
-																		run: (*parser).callonListContinuationElement1103,
+																		run: (*parser).callonListContinuationElement1109,
 																		expr: &seqExpr{
 																			pos: position{line: 797, col: 16, offset: 25678},
 																			exprs: []interface{}{
@@ -34301,10 +34441,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 799, col: 8, offset: 25769},
 																	expr: &actionExpr{
-																		pos: position{line: 2862, col: 10, offset: 90584},
-																		run: (*parser).callonListContinuationElement1109,
+																		pos: position{line: 2863, col: 10, offset: 90616},
+																		run: (*parser).callonListContinuationElement1115,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2862, col: 10, offset: 90584},
+																			pos:        position{line: 2863, col: 10, offset: 90616},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34313,28 +34453,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2884, col: 8, offset: 90982},
+																	pos: position{line: 2885, col: 8, offset: 91014},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2871, col: 12, offset: 90755},
-																			run: (*parser).callonListContinuationElement1112,
+																			pos: position{line: 2872, col: 12, offset: 90787},
+																			run: (*parser).callonListContinuationElement1118,
 																			expr: &choiceExpr{
-																				pos: position{line: 2871, col: 13, offset: 90756},
+																				pos: position{line: 2872, col: 13, offset: 90788},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 13, offset: 90756},
+																						pos:        position{line: 2872, col: 13, offset: 90788},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 20, offset: 90763},
+																						pos:        position{line: 2872, col: 20, offset: 90795},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 29, offset: 90772},
+																						pos:        position{line: 2872, col: 29, offset: 90804},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34343,9 +34483,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2881, col: 8, offset: 90932},
+																			pos: position{line: 2882, col: 8, offset: 90964},
 																			expr: &anyMatcher{
-																				line: 2881, col: 9, offset: 90933,
+																				line: 2882, col: 9, offset: 90965,
 																			},
 																		},
 																	},
@@ -34356,7 +34496,7 @@ var g = &grammar{
 												},
 												&andCodeExpr{
 													pos: position{line: 1046, col: 5, offset: 32305},
-													run: (*parser).callonListContinuationElement1119,
+													run: (*parser).callonListContinuationElement1125,
 												},
 												&labeledExpr{
 													pos:   position{line: 1049, col: 5, offset: 32397},
@@ -34365,7 +34505,7 @@ var g = &grammar{
 														pos: position{line: 1064, col: 4, offset: 32778},
 														expr: &actionExpr{
 															pos: position{line: 1064, col: 5, offset: 32779},
-															run: (*parser).callonListContinuationElement1122,
+															run: (*parser).callonListContinuationElement1128,
 															expr: &seqExpr{
 																pos: position{line: 1064, col: 5, offset: 32779},
 																exprs: []interface{}{
@@ -34382,7 +34522,7 @@ var g = &grammar{
 																							label: "end",
 																							expr: &actionExpr{
 																								pos: position{line: 797, col: 5, offset: 25667},
-																								run: (*parser).callonListContinuationElement1128,
+																								run: (*parser).callonListContinuationElement1134,
 																								expr: &seqExpr{
 																									pos: position{line: 797, col: 5, offset: 25667},
 																									exprs: []interface{}{
@@ -34391,7 +34531,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 797, col: 16, offset: 25678},
-																												run: (*parser).callonListContinuationElement1131,
+																												run: (*parser).callonListContinuationElement1137,
 																												expr: &seqExpr{
 																													pos: position{line: 797, col: 16, offset: 25678},
 																													exprs: []interface{}{
@@ -34417,10 +34557,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 799, col: 8, offset: 25769},
 																											expr: &actionExpr{
-																												pos: position{line: 2862, col: 10, offset: 90584},
-																												run: (*parser).callonListContinuationElement1137,
+																												pos: position{line: 2863, col: 10, offset: 90616},
+																												run: (*parser).callonListContinuationElement1143,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2862, col: 10, offset: 90584},
+																													pos:        position{line: 2863, col: 10, offset: 90616},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34429,28 +34569,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2884, col: 8, offset: 90982},
+																											pos: position{line: 2885, col: 8, offset: 91014},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2871, col: 12, offset: 90755},
-																													run: (*parser).callonListContinuationElement1140,
+																													pos: position{line: 2872, col: 12, offset: 90787},
+																													run: (*parser).callonListContinuationElement1146,
 																													expr: &choiceExpr{
-																														pos: position{line: 2871, col: 13, offset: 90756},
+																														pos: position{line: 2872, col: 13, offset: 90788},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2871, col: 13, offset: 90756},
+																																pos:        position{line: 2872, col: 13, offset: 90788},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2871, col: 20, offset: 90763},
+																																pos:        position{line: 2872, col: 20, offset: 90795},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2871, col: 29, offset: 90772},
+																																pos:        position{line: 2872, col: 29, offset: 90804},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34459,9 +34599,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2881, col: 8, offset: 90932},
+																													pos: position{line: 2882, col: 8, offset: 90964},
 																													expr: &anyMatcher{
-																														line: 2881, col: 9, offset: 90933,
+																														line: 2882, col: 9, offset: 90965,
 																													},
 																												},
 																											},
@@ -34472,14 +34612,14 @@ var g = &grammar{
 																						},
 																						&andCodeExpr{
 																							pos: position{line: 1058, col: 5, offset: 32654},
-																							run: (*parser).callonListContinuationElement1147,
+																							run: (*parser).callonListContinuationElement1153,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2881, col: 8, offset: 90932},
+																					pos: position{line: 2882, col: 8, offset: 90964},
 																					expr: &anyMatcher{
-																						line: 2881, col: 9, offset: 90933,
+																						line: 2882, col: 9, offset: 90965,
 																					},
 																				},
 																			},
@@ -34490,26 +34630,26 @@ var g = &grammar{
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 811, col: 5, offset: 26161},
-																			run: (*parser).callonListContinuationElement1151,
+																			run: (*parser).callonListContinuationElement1157,
 																			expr: &seqExpr{
 																				pos: position{line: 811, col: 5, offset: 26161},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2879, col: 11, offset: 90918},
+																						pos: position{line: 2880, col: 11, offset: 90950},
 																						expr: &anyMatcher{
-																							line: 2879, col: 13, offset: 90920,
+																							line: 2880, col: 13, offset: 90952,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26236},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2808, col: 13, offset: 89110},
-																							run: (*parser).callonListContinuationElement1156,
+																							pos: position{line: 2809, col: 13, offset: 89142},
+																							run: (*parser).callonListContinuationElement1162,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2808, col: 13, offset: 89110},
+																								pos: position{line: 2809, col: 13, offset: 89142},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2808, col: 13, offset: 89110},
+																									pos:        position{line: 2809, col: 13, offset: 89142},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34519,28 +34659,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2884, col: 8, offset: 90982},
+																						pos: position{line: 2885, col: 8, offset: 91014},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2871, col: 12, offset: 90755},
-																								run: (*parser).callonListContinuationElement1160,
+																								pos: position{line: 2872, col: 12, offset: 90787},
+																								run: (*parser).callonListContinuationElement1166,
 																								expr: &choiceExpr{
-																									pos: position{line: 2871, col: 13, offset: 90756},
+																									pos: position{line: 2872, col: 13, offset: 90788},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 13, offset: 90756},
+																											pos:        position{line: 2872, col: 13, offset: 90788},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 20, offset: 90763},
+																											pos:        position{line: 2872, col: 20, offset: 90795},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 29, offset: 90772},
+																											pos:        position{line: 2872, col: 29, offset: 90804},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34549,9 +34689,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2881, col: 8, offset: 90932},
+																								pos: position{line: 2882, col: 8, offset: 90964},
 																								expr: &anyMatcher{
-																									line: 2881, col: 9, offset: 90933,
+																									line: 2882, col: 9, offset: 90965,
 																								},
 																							},
 																						},
@@ -34581,7 +34721,7 @@ var g = &grammar{
 																			label: "end",
 																			expr: &actionExpr{
 																				pos: position{line: 797, col: 5, offset: 25667},
-																				run: (*parser).callonListContinuationElement1172,
+																				run: (*parser).callonListContinuationElement1178,
 																				expr: &seqExpr{
 																					pos: position{line: 797, col: 5, offset: 25667},
 																					exprs: []interface{}{
@@ -34590,7 +34730,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 797, col: 16, offset: 25678},
-																								run: (*parser).callonListContinuationElement1175,
+																								run: (*parser).callonListContinuationElement1181,
 																								expr: &seqExpr{
 																									pos: position{line: 797, col: 16, offset: 25678},
 																									exprs: []interface{}{
@@ -34616,10 +34756,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 799, col: 8, offset: 25769},
 																							expr: &actionExpr{
-																								pos: position{line: 2862, col: 10, offset: 90584},
-																								run: (*parser).callonListContinuationElement1181,
+																								pos: position{line: 2863, col: 10, offset: 90616},
+																								run: (*parser).callonListContinuationElement1187,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2862, col: 10, offset: 90584},
+																									pos:        position{line: 2863, col: 10, offset: 90616},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34628,28 +34768,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2884, col: 8, offset: 90982},
+																							pos: position{line: 2885, col: 8, offset: 91014},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2871, col: 12, offset: 90755},
-																									run: (*parser).callonListContinuationElement1184,
+																									pos: position{line: 2872, col: 12, offset: 90787},
+																									run: (*parser).callonListContinuationElement1190,
 																									expr: &choiceExpr{
-																										pos: position{line: 2871, col: 13, offset: 90756},
+																										pos: position{line: 2872, col: 13, offset: 90788},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 13, offset: 90756},
+																												pos:        position{line: 2872, col: 13, offset: 90788},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 20, offset: 90763},
+																												pos:        position{line: 2872, col: 20, offset: 90795},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 29, offset: 90772},
+																												pos:        position{line: 2872, col: 29, offset: 90804},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34658,9 +34798,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2881, col: 8, offset: 90932},
+																									pos: position{line: 2882, col: 8, offset: 90964},
 																									expr: &anyMatcher{
-																										line: 2881, col: 9, offset: 90933,
+																										line: 2882, col: 9, offset: 90965,
 																									},
 																								},
 																							},
@@ -34671,14 +34811,14 @@ var g = &grammar{
 																		},
 																		&andCodeExpr{
 																			pos: position{line: 1058, col: 5, offset: 32654},
-																			run: (*parser).callonListContinuationElement1191,
+																			run: (*parser).callonListContinuationElement1197,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2881, col: 8, offset: 90932},
+																	pos: position{line: 2882, col: 8, offset: 90964},
 																	expr: &anyMatcher{
-																		line: 2881, col: 9, offset: 90933,
+																		line: 2882, col: 9, offset: 90965,
 																	},
 																},
 															},
@@ -34690,7 +34830,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1073, col: 5, offset: 32962},
-										run: (*parser).callonListContinuationElement1194,
+										run: (*parser).callonListContinuationElement1200,
 										expr: &seqExpr{
 											pos: position{line: 1073, col: 5, offset: 32962},
 											exprs: []interface{}{
@@ -34699,7 +34839,7 @@ var g = &grammar{
 													label: "start",
 													expr: &actionExpr{
 														pos: position{line: 804, col: 5, offset: 25913},
-														run: (*parser).callonListContinuationElement1197,
+														run: (*parser).callonListContinuationElement1203,
 														expr: &seqExpr{
 															pos: position{line: 804, col: 5, offset: 25913},
 															exprs: []interface{}{
@@ -34708,7 +34848,7 @@ var g = &grammar{
 																	label: "delimiter",
 																	expr: &actionExpr{
 																		pos: position{line: 804, col: 16, offset: 25924},
-																		run: (*parser).callonListContinuationElement1200,
+																		run: (*parser).callonListContinuationElement1206,
 																		expr: &seqExpr{
 																			pos: position{line: 804, col: 16, offset: 25924},
 																			exprs: []interface{}{
@@ -34734,10 +34874,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 806, col: 8, offset: 26015},
 																	expr: &actionExpr{
-																		pos: position{line: 2862, col: 10, offset: 90584},
-																		run: (*parser).callonListContinuationElement1206,
+																		pos: position{line: 2863, col: 10, offset: 90616},
+																		run: (*parser).callonListContinuationElement1212,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2862, col: 10, offset: 90584},
+																			pos:        position{line: 2863, col: 10, offset: 90616},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34746,28 +34886,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2884, col: 8, offset: 90982},
+																	pos: position{line: 2885, col: 8, offset: 91014},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2871, col: 12, offset: 90755},
-																			run: (*parser).callonListContinuationElement1209,
+																			pos: position{line: 2872, col: 12, offset: 90787},
+																			run: (*parser).callonListContinuationElement1215,
 																			expr: &choiceExpr{
-																				pos: position{line: 2871, col: 13, offset: 90756},
+																				pos: position{line: 2872, col: 13, offset: 90788},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 13, offset: 90756},
+																						pos:        position{line: 2872, col: 13, offset: 90788},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 20, offset: 90763},
+																						pos:        position{line: 2872, col: 20, offset: 90795},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 29, offset: 90772},
+																						pos:        position{line: 2872, col: 29, offset: 90804},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34776,9 +34916,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2881, col: 8, offset: 90932},
+																			pos: position{line: 2882, col: 8, offset: 90964},
 																			expr: &anyMatcher{
-																				line: 2881, col: 9, offset: 90933,
+																				line: 2882, col: 9, offset: 90965,
 																			},
 																		},
 																	},
@@ -34789,7 +34929,7 @@ var g = &grammar{
 												},
 												&andCodeExpr{
 													pos: position{line: 1074, col: 5, offset: 33001},
-													run: (*parser).callonListContinuationElement1216,
+													run: (*parser).callonListContinuationElement1222,
 												},
 												&labeledExpr{
 													pos:   position{line: 1077, col: 5, offset: 33093},
@@ -34798,7 +34938,7 @@ var g = &grammar{
 														pos: position{line: 1092, col: 4, offset: 33490},
 														expr: &actionExpr{
 															pos: position{line: 1092, col: 5, offset: 33491},
-															run: (*parser).callonListContinuationElement1219,
+															run: (*parser).callonListContinuationElement1225,
 															expr: &seqExpr{
 																pos: position{line: 1092, col: 5, offset: 33491},
 																exprs: []interface{}{
@@ -34815,7 +34955,7 @@ var g = &grammar{
 																							label: "end",
 																							expr: &actionExpr{
 																								pos: position{line: 804, col: 5, offset: 25913},
-																								run: (*parser).callonListContinuationElement1225,
+																								run: (*parser).callonListContinuationElement1231,
 																								expr: &seqExpr{
 																									pos: position{line: 804, col: 5, offset: 25913},
 																									exprs: []interface{}{
@@ -34824,7 +34964,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 804, col: 16, offset: 25924},
-																												run: (*parser).callonListContinuationElement1228,
+																												run: (*parser).callonListContinuationElement1234,
 																												expr: &seqExpr{
 																													pos: position{line: 804, col: 16, offset: 25924},
 																													exprs: []interface{}{
@@ -34850,10 +34990,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 806, col: 8, offset: 26015},
 																											expr: &actionExpr{
-																												pos: position{line: 2862, col: 10, offset: 90584},
-																												run: (*parser).callonListContinuationElement1234,
+																												pos: position{line: 2863, col: 10, offset: 90616},
+																												run: (*parser).callonListContinuationElement1240,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2862, col: 10, offset: 90584},
+																													pos:        position{line: 2863, col: 10, offset: 90616},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34862,28 +35002,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2884, col: 8, offset: 90982},
+																											pos: position{line: 2885, col: 8, offset: 91014},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2871, col: 12, offset: 90755},
-																													run: (*parser).callonListContinuationElement1237,
+																													pos: position{line: 2872, col: 12, offset: 90787},
+																													run: (*parser).callonListContinuationElement1243,
 																													expr: &choiceExpr{
-																														pos: position{line: 2871, col: 13, offset: 90756},
+																														pos: position{line: 2872, col: 13, offset: 90788},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2871, col: 13, offset: 90756},
+																																pos:        position{line: 2872, col: 13, offset: 90788},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2871, col: 20, offset: 90763},
+																																pos:        position{line: 2872, col: 20, offset: 90795},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2871, col: 29, offset: 90772},
+																																pos:        position{line: 2872, col: 29, offset: 90804},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34892,9 +35032,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2881, col: 8, offset: 90932},
+																													pos: position{line: 2882, col: 8, offset: 90964},
 																													expr: &anyMatcher{
-																														line: 2881, col: 9, offset: 90933,
+																														line: 2882, col: 9, offset: 90965,
 																													},
 																												},
 																											},
@@ -34905,14 +35045,14 @@ var g = &grammar{
 																						},
 																						&andCodeExpr{
 																							pos: position{line: 1086, col: 5, offset: 33364},
-																							run: (*parser).callonListContinuationElement1244,
+																							run: (*parser).callonListContinuationElement1250,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2881, col: 8, offset: 90932},
+																					pos: position{line: 2882, col: 8, offset: 90964},
 																					expr: &anyMatcher{
-																						line: 2881, col: 9, offset: 90933,
+																						line: 2882, col: 9, offset: 90965,
 																					},
 																				},
 																			},
@@ -34923,26 +35063,26 @@ var g = &grammar{
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 811, col: 5, offset: 26161},
-																			run: (*parser).callonListContinuationElement1248,
+																			run: (*parser).callonListContinuationElement1254,
 																			expr: &seqExpr{
 																				pos: position{line: 811, col: 5, offset: 26161},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2879, col: 11, offset: 90918},
+																						pos: position{line: 2880, col: 11, offset: 90950},
 																						expr: &anyMatcher{
-																							line: 2879, col: 13, offset: 90920,
+																							line: 2880, col: 13, offset: 90952,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26236},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2808, col: 13, offset: 89110},
-																							run: (*parser).callonListContinuationElement1253,
+																							pos: position{line: 2809, col: 13, offset: 89142},
+																							run: (*parser).callonListContinuationElement1259,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2808, col: 13, offset: 89110},
+																								pos: position{line: 2809, col: 13, offset: 89142},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2808, col: 13, offset: 89110},
+																									pos:        position{line: 2809, col: 13, offset: 89142},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34952,28 +35092,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2884, col: 8, offset: 90982},
+																						pos: position{line: 2885, col: 8, offset: 91014},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2871, col: 12, offset: 90755},
-																								run: (*parser).callonListContinuationElement1257,
+																								pos: position{line: 2872, col: 12, offset: 90787},
+																								run: (*parser).callonListContinuationElement1263,
 																								expr: &choiceExpr{
-																									pos: position{line: 2871, col: 13, offset: 90756},
+																									pos: position{line: 2872, col: 13, offset: 90788},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 13, offset: 90756},
+																											pos:        position{line: 2872, col: 13, offset: 90788},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 20, offset: 90763},
+																											pos:        position{line: 2872, col: 20, offset: 90795},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 29, offset: 90772},
+																											pos:        position{line: 2872, col: 29, offset: 90804},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34982,9 +35122,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2881, col: 8, offset: 90932},
+																								pos: position{line: 2882, col: 8, offset: 90964},
 																								expr: &anyMatcher{
-																									line: 2881, col: 9, offset: 90933,
+																									line: 2882, col: 9, offset: 90965,
 																								},
 																							},
 																						},
@@ -35014,7 +35154,7 @@ var g = &grammar{
 																			label: "end",
 																			expr: &actionExpr{
 																				pos: position{line: 804, col: 5, offset: 25913},
-																				run: (*parser).callonListContinuationElement1269,
+																				run: (*parser).callonListContinuationElement1275,
 																				expr: &seqExpr{
 																					pos: position{line: 804, col: 5, offset: 25913},
 																					exprs: []interface{}{
@@ -35023,7 +35163,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 804, col: 16, offset: 25924},
-																								run: (*parser).callonListContinuationElement1272,
+																								run: (*parser).callonListContinuationElement1278,
 																								expr: &seqExpr{
 																									pos: position{line: 804, col: 16, offset: 25924},
 																									exprs: []interface{}{
@@ -35049,10 +35189,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 806, col: 8, offset: 26015},
 																							expr: &actionExpr{
-																								pos: position{line: 2862, col: 10, offset: 90584},
-																								run: (*parser).callonListContinuationElement1278,
+																								pos: position{line: 2863, col: 10, offset: 90616},
+																								run: (*parser).callonListContinuationElement1284,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2862, col: 10, offset: 90584},
+																									pos:        position{line: 2863, col: 10, offset: 90616},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35061,28 +35201,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2884, col: 8, offset: 90982},
+																							pos: position{line: 2885, col: 8, offset: 91014},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2871, col: 12, offset: 90755},
-																									run: (*parser).callonListContinuationElement1281,
+																									pos: position{line: 2872, col: 12, offset: 90787},
+																									run: (*parser).callonListContinuationElement1287,
 																									expr: &choiceExpr{
-																										pos: position{line: 2871, col: 13, offset: 90756},
+																										pos: position{line: 2872, col: 13, offset: 90788},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 13, offset: 90756},
+																												pos:        position{line: 2872, col: 13, offset: 90788},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 20, offset: 90763},
+																												pos:        position{line: 2872, col: 20, offset: 90795},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2871, col: 29, offset: 90772},
+																												pos:        position{line: 2872, col: 29, offset: 90804},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35091,9 +35231,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2881, col: 8, offset: 90932},
+																									pos: position{line: 2882, col: 8, offset: 90964},
 																									expr: &anyMatcher{
-																										line: 2881, col: 9, offset: 90933,
+																										line: 2882, col: 9, offset: 90965,
 																									},
 																								},
 																							},
@@ -35104,14 +35244,14 @@ var g = &grammar{
 																		},
 																		&andCodeExpr{
 																			pos: position{line: 1086, col: 5, offset: 33364},
-																			run: (*parser).callonListContinuationElement1288,
+																			run: (*parser).callonListContinuationElement1294,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2881, col: 8, offset: 90932},
+																	pos: position{line: 2882, col: 8, offset: 90964},
 																	expr: &anyMatcher{
-																		line: 2881, col: 9, offset: 90933,
+																		line: 2882, col: 9, offset: 90965,
 																	},
 																},
 															},
@@ -35122,52 +35262,52 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2707, col: 18, offset: 86179},
-										run: (*parser).callonListContinuationElement1291,
+										pos: position{line: 2708, col: 18, offset: 86211},
+										run: (*parser).callonListContinuationElement1297,
 										expr: &seqExpr{
-											pos: position{line: 2707, col: 18, offset: 86179},
+											pos: position{line: 2708, col: 18, offset: 86211},
 											exprs: []interface{}{
 												&choiceExpr{
-													pos: position{line: 2708, col: 9, offset: 86189},
+													pos: position{line: 2709, col: 9, offset: 86221},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2708, col: 9, offset: 86189},
+															pos:        position{line: 2709, col: 9, offset: 86221},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2709, col: 11, offset: 86225},
+															pos:        position{line: 2710, col: 11, offset: 86257},
 															val:        "***",
 															ignoreCase: false,
 															want:       "\"***\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2709, col: 19, offset: 86233},
+															pos:        position{line: 2710, col: 19, offset: 86265},
 															val:        "* * *",
 															ignoreCase: false,
 															want:       "\"* * *\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2709, col: 29, offset: 86243},
+															pos:        position{line: 2710, col: 29, offset: 86275},
 															val:        "---",
 															ignoreCase: false,
 															want:       "\"---\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2709, col: 37, offset: 86251},
+															pos:        position{line: 2710, col: 37, offset: 86283},
 															val:        "- - -",
 															ignoreCase: false,
 															want:       "\"- - -\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2709, col: 47, offset: 86261},
+															pos:        position{line: 2710, col: 47, offset: 86293},
 															val:        "___",
 															ignoreCase: false,
 															want:       "\"___\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2709, col: 55, offset: 86269},
+															pos:        position{line: 2710, col: 55, offset: 86301},
 															val:        "_ _ _",
 															ignoreCase: false,
 															want:       "\"_ _ _\"",
@@ -35175,12 +35315,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2710, col: 11, offset: 86315},
+													pos: position{line: 2711, col: 11, offset: 86347},
 													expr: &actionExpr{
-														pos: position{line: 2862, col: 10, offset: 90584},
-														run: (*parser).callonListContinuationElement1302,
+														pos: position{line: 2863, col: 10, offset: 90616},
+														run: (*parser).callonListContinuationElement1308,
 														expr: &charClassMatcher{
-															pos:        position{line: 2862, col: 10, offset: 90584},
+															pos:        position{line: 2863, col: 10, offset: 90616},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35189,28 +35329,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2884, col: 8, offset: 90982},
+													pos: position{line: 2885, col: 8, offset: 91014},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2871, col: 12, offset: 90755},
-															run: (*parser).callonListContinuationElement1305,
+															pos: position{line: 2872, col: 12, offset: 90787},
+															run: (*parser).callonListContinuationElement1311,
 															expr: &choiceExpr{
-																pos: position{line: 2871, col: 13, offset: 90756},
+																pos: position{line: 2872, col: 13, offset: 90788},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2871, col: 13, offset: 90756},
+																		pos:        position{line: 2872, col: 13, offset: 90788},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2871, col: 20, offset: 90763},
+																		pos:        position{line: 2872, col: 20, offset: 90795},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2871, col: 29, offset: 90772},
+																		pos:        position{line: 2872, col: 29, offset: 90804},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35219,20 +35359,20 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2881, col: 8, offset: 90932},
+															pos: position{line: 2882, col: 8, offset: 90964},
 															expr: &anyMatcher{
-																line: 2881, col: 9, offset: 90933,
+																line: 2882, col: 9, offset: 90965,
 															},
 														},
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2710, col: 22, offset: 86326},
+													pos: position{line: 2711, col: 22, offset: 86358},
 													expr: &actionExpr{
-														pos: position{line: 2862, col: 10, offset: 90584},
-														run: (*parser).callonListContinuationElement1313,
+														pos: position{line: 2863, col: 10, offset: 90616},
+														run: (*parser).callonListContinuationElement1319,
 														expr: &charClassMatcher{
-															pos:        position{line: 2862, col: 10, offset: 90584},
+															pos:        position{line: 2863, col: 10, offset: 90616},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35241,28 +35381,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2884, col: 8, offset: 90982},
+													pos: position{line: 2885, col: 8, offset: 91014},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2871, col: 12, offset: 90755},
-															run: (*parser).callonListContinuationElement1316,
+															pos: position{line: 2872, col: 12, offset: 90787},
+															run: (*parser).callonListContinuationElement1322,
 															expr: &choiceExpr{
-																pos: position{line: 2871, col: 13, offset: 90756},
+																pos: position{line: 2872, col: 13, offset: 90788},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2871, col: 13, offset: 90756},
+																		pos:        position{line: 2872, col: 13, offset: 90788},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2871, col: 20, offset: 90763},
+																		pos:        position{line: 2872, col: 20, offset: 90795},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2871, col: 29, offset: 90772},
+																		pos:        position{line: 2872, col: 29, offset: 90804},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35271,9 +35411,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2881, col: 8, offset: 90932},
+															pos: position{line: 2882, col: 8, offset: 90964},
 															expr: &anyMatcher{
-																line: 2881, col: 9, offset: 90933,
+																line: 2882, col: 9, offset: 90965,
 															},
 														},
 													},
@@ -35286,24 +35426,24 @@ var g = &grammar{
 										name: "ImageBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2598, col: 5, offset: 83115},
-										run: (*parser).callonListContinuationElement1324,
+										pos: position{line: 2599, col: 5, offset: 83147},
+										run: (*parser).callonListContinuationElement1330,
 										expr: &seqExpr{
-											pos: position{line: 2598, col: 5, offset: 83115},
+											pos: position{line: 2599, col: 5, offset: 83147},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2604, col: 19, offset: 83272},
+													pos:        position{line: 2605, col: 19, offset: 83304},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2604, col: 26, offset: 83279},
+													pos: position{line: 2605, col: 26, offset: 83311},
 													expr: &actionExpr{
-														pos: position{line: 2862, col: 10, offset: 90584},
-														run: (*parser).callonListContinuationElement1328,
+														pos: position{line: 2863, col: 10, offset: 90616},
+														run: (*parser).callonListContinuationElement1334,
 														expr: &charClassMatcher{
-															pos:        position{line: 2862, col: 10, offset: 90584},
+															pos:        position{line: 2863, col: 10, offset: 90616},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35312,28 +35452,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2884, col: 8, offset: 90982},
+													pos: position{line: 2885, col: 8, offset: 91014},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2871, col: 12, offset: 90755},
-															run: (*parser).callonListContinuationElement1331,
+															pos: position{line: 2872, col: 12, offset: 90787},
+															run: (*parser).callonListContinuationElement1337,
 															expr: &choiceExpr{
-																pos: position{line: 2871, col: 13, offset: 90756},
+																pos: position{line: 2872, col: 13, offset: 90788},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2871, col: 13, offset: 90756},
+																		pos:        position{line: 2872, col: 13, offset: 90788},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2871, col: 20, offset: 90763},
+																		pos:        position{line: 2872, col: 20, offset: 90795},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2871, col: 29, offset: 90772},
+																		pos:        position{line: 2872, col: 29, offset: 90804},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35342,40 +35482,40 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2881, col: 8, offset: 90932},
+															pos: position{line: 2882, col: 8, offset: 90964},
 															expr: &anyMatcher{
-																line: 2881, col: 9, offset: 90933,
+																line: 2882, col: 9, offset: 90965,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2599, col: 5, offset: 83139},
+													pos:   position{line: 2600, col: 5, offset: 83171},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2599, col: 11, offset: 83145},
+														pos: position{line: 2600, col: 11, offset: 83177},
 														expr: &choiceExpr{
-															pos: position{line: 2599, col: 12, offset: 83146},
+															pos: position{line: 2600, col: 12, offset: 83178},
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 677, col: 14, offset: 21557},
-																	run: (*parser).callonListContinuationElement1341,
+																	run: (*parser).callonListContinuationElement1347,
 																	expr: &seqExpr{
 																		pos: position{line: 677, col: 14, offset: 21557},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2879, col: 11, offset: 90918},
+																				pos: position{line: 2880, col: 11, offset: 90950},
 																				expr: &anyMatcher{
-																					line: 2879, col: 13, offset: 90920,
+																					line: 2880, col: 13, offset: 90952,
 																				},
 																			},
 																			&zeroOrMoreExpr{
 																				pos: position{line: 677, col: 21, offset: 21564},
 																				expr: &actionExpr{
-																					pos: position{line: 2862, col: 10, offset: 90584},
-																					run: (*parser).callonListContinuationElement1346,
+																					pos: position{line: 2863, col: 10, offset: 90616},
+																					run: (*parser).callonListContinuationElement1352,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2862, col: 10, offset: 90584},
+																						pos:        position{line: 2863, col: 10, offset: 90616},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -35384,28 +35524,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2884, col: 8, offset: 90982},
+																				pos: position{line: 2885, col: 8, offset: 91014},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2871, col: 12, offset: 90755},
-																						run: (*parser).callonListContinuationElement1349,
+																						pos: position{line: 2872, col: 12, offset: 90787},
+																						run: (*parser).callonListContinuationElement1355,
 																						expr: &choiceExpr{
-																							pos: position{line: 2871, col: 13, offset: 90756},
+																							pos: position{line: 2872, col: 13, offset: 90788},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2871, col: 13, offset: 90756},
+																									pos:        position{line: 2872, col: 13, offset: 90788},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2871, col: 20, offset: 90763},
+																									pos:        position{line: 2872, col: 20, offset: 90795},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2871, col: 29, offset: 90772},
+																									pos:        position{line: 2872, col: 29, offset: 90804},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35414,9 +35554,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2881, col: 8, offset: 90932},
+																						pos: position{line: 2882, col: 8, offset: 90964},
 																						expr: &anyMatcher{
-																							line: 2881, col: 9, offset: 90933,
+																							line: 2882, col: 9, offset: 90965,
 																						},
 																					},
 																				},
@@ -35425,32 +35565,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2611, col: 5, offset: 83391},
-																	run: (*parser).callonListContinuationElement1356,
+																	pos: position{line: 2612, col: 5, offset: 83423},
+																	run: (*parser).callonListContinuationElement1362,
 																	expr: &seqExpr{
-																		pos: position{line: 2611, col: 5, offset: 83391},
+																		pos: position{line: 2612, col: 5, offset: 83423},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2611, col: 5, offset: 83391},
+																				pos: position{line: 2612, col: 5, offset: 83423},
 																				expr: &choiceExpr{
-																					pos: position{line: 2608, col: 22, offset: 83352},
+																					pos: position{line: 2609, col: 22, offset: 83384},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2604, col: 19, offset: 83272},
+																							pos: position{line: 2605, col: 19, offset: 83304},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2604, col: 19, offset: 83272},
+																									pos:        position{line: 2605, col: 19, offset: 83304},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2604, col: 26, offset: 83279},
+																									pos: position{line: 2605, col: 26, offset: 83311},
 																									expr: &actionExpr{
-																										pos: position{line: 2862, col: 10, offset: 90584},
-																										run: (*parser).callonListContinuationElement1363,
+																										pos: position{line: 2863, col: 10, offset: 90616},
+																										run: (*parser).callonListContinuationElement1369,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2862, col: 10, offset: 90584},
+																											pos:        position{line: 2863, col: 10, offset: 90616},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -35459,28 +35599,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2884, col: 8, offset: 90982},
+																									pos: position{line: 2885, col: 8, offset: 91014},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2871, col: 12, offset: 90755},
-																											run: (*parser).callonListContinuationElement1366,
+																											pos: position{line: 2872, col: 12, offset: 90787},
+																											run: (*parser).callonListContinuationElement1372,
 																											expr: &choiceExpr{
-																												pos: position{line: 2871, col: 13, offset: 90756},
+																												pos: position{line: 2872, col: 13, offset: 90788},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2871, col: 13, offset: 90756},
+																														pos:        position{line: 2872, col: 13, offset: 90788},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2871, col: 20, offset: 90763},
+																														pos:        position{line: 2872, col: 20, offset: 90795},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2871, col: 29, offset: 90772},
+																														pos:        position{line: 2872, col: 29, offset: 90804},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -35489,9 +35629,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2881, col: 8, offset: 90932},
+																											pos: position{line: 2882, col: 8, offset: 90964},
 																											expr: &anyMatcher{
-																												line: 2881, col: 9, offset: 90933,
+																												line: 2882, col: 9, offset: 90965,
 																											},
 																										},
 																									},
@@ -35499,59 +35639,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2881, col: 8, offset: 90932},
+																							pos: position{line: 2882, col: 8, offset: 90964},
 																							expr: &anyMatcher{
-																								line: 2881, col: 9, offset: 90933,
+																								line: 2882, col: 9, offset: 90965,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2612, col: 5, offset: 83414},
+																				pos:   position{line: 2613, col: 5, offset: 83446},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2613, col: 9, offset: 83432},
+																					pos: position{line: 2614, col: 9, offset: 83464},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2613, col: 10, offset: 83433},
-																							run: (*parser).callonListContinuationElement1377,
+																							pos: position{line: 2614, col: 10, offset: 83465},
+																							run: (*parser).callonListContinuationElement1383,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2613, col: 10, offset: 83433},
+																								pos:   position{line: 2614, col: 10, offset: 83465},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2613, col: 17, offset: 83440},
+																									pos: position{line: 2614, col: 17, offset: 83472},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2621, col: 21, offset: 83636},
-																											run: (*parser).callonListContinuationElement1380,
+																											pos: position{line: 2622, col: 21, offset: 83668},
+																											run: (*parser).callonListContinuationElement1386,
 																											expr: &seqExpr{
-																												pos: position{line: 2621, col: 21, offset: 83636},
+																												pos: position{line: 2622, col: 21, offset: 83668},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2621, col: 21, offset: 83636},
+																														pos:   position{line: 2622, col: 21, offset: 83668},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2621, col: 27, offset: 83642},
+																															pos: position{line: 2622, col: 27, offset: 83674},
 																															expr: &actionExpr{
-																																pos: position{line: 2626, col: 5, offset: 83717},
-																																run: (*parser).callonListContinuationElement1384,
+																																pos: position{line: 2627, col: 5, offset: 83749},
+																																run: (*parser).callonListContinuationElement1390,
 																																expr: &seqExpr{
-																																	pos: position{line: 2626, col: 5, offset: 83717},
+																																	pos: position{line: 2627, col: 5, offset: 83749},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2626, col: 5, offset: 83717},
+																																			pos:        position{line: 2627, col: 5, offset: 83749},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2626, col: 9, offset: 83721},
+																																			pos: position{line: 2627, col: 9, offset: 83753},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2862, col: 10, offset: 90584},
-																																				run: (*parser).callonListContinuationElement1388,
+																																				pos: position{line: 2863, col: 10, offset: 90616},
+																																				run: (*parser).callonListContinuationElement1394,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2862, col: 10, offset: 90584},
+																																					pos:        position{line: 2863, col: 10, offset: 90616},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -35560,21 +35700,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2626, col: 16, offset: 83728},
+																																			pos:   position{line: 2627, col: 16, offset: 83760},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2632, col: 5, offset: 83928},
-																																				run: (*parser).callonListContinuationElement1391,
+																																				pos: position{line: 2633, col: 5, offset: 83960},
+																																				run: (*parser).callonListContinuationElement1397,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2632, col: 5, offset: 83928},
+																																					pos:   position{line: 2633, col: 5, offset: 83960},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2632, col: 14, offset: 83937},
-																																						run: (*parser).callonListContinuationElement1393,
+																																						pos: position{line: 2633, col: 14, offset: 83969},
+																																						run: (*parser).callonListContinuationElement1399,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2632, col: 14, offset: 83937},
+																																							pos: position{line: 2633, col: 14, offset: 83969},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2632, col: 14, offset: 83937},
+																																								pos:        position{line: 2633, col: 14, offset: 83969},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -35591,28 +35731,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2884, col: 8, offset: 90982},
+																														pos: position{line: 2885, col: 8, offset: 91014},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2871, col: 12, offset: 90755},
-																																run: (*parser).callonListContinuationElement1397,
+																																pos: position{line: 2872, col: 12, offset: 90787},
+																																run: (*parser).callonListContinuationElement1403,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2871, col: 13, offset: 90756},
+																																	pos: position{line: 2872, col: 13, offset: 90788},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2871, col: 13, offset: 90756},
+																																			pos:        position{line: 2872, col: 13, offset: 90788},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2871, col: 20, offset: 90763},
+																																			pos:        position{line: 2872, col: 20, offset: 90795},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2871, col: 29, offset: 90772},
+																																			pos:        position{line: 2872, col: 29, offset: 90804},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -35621,9 +35761,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2881, col: 8, offset: 90932},
+																																pos: position{line: 2882, col: 8, offset: 90964},
 																																expr: &anyMatcher{
-																																	line: 2881, col: 9, offset: 90933,
+																																	line: 2882, col: 9, offset: 90965,
 																																},
 																															},
 																														},
@@ -35632,40 +35772,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2638, col: 24, offset: 84073},
-																											run: (*parser).callonListContinuationElement1404,
+																											pos: position{line: 2639, col: 24, offset: 84105},
+																											run: (*parser).callonListContinuationElement1410,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2638, col: 24, offset: 84073},
+																												pos:   position{line: 2639, col: 24, offset: 84105},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2638, col: 30, offset: 84079},
+																													pos: position{line: 2639, col: 30, offset: 84111},
 																													expr: &actionExpr{
-																														pos: position{line: 2643, col: 5, offset: 84155},
-																														run: (*parser).callonListContinuationElement1407,
+																														pos: position{line: 2644, col: 5, offset: 84187},
+																														run: (*parser).callonListContinuationElement1413,
 																														expr: &seqExpr{
-																															pos: position{line: 2643, col: 5, offset: 84155},
+																															pos: position{line: 2644, col: 5, offset: 84187},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2643, col: 5, offset: 84155},
+																																	pos: position{line: 2644, col: 5, offset: 84187},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2608, col: 22, offset: 83352},
+																																		pos: position{line: 2609, col: 22, offset: 83384},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2604, col: 19, offset: 83272},
+																																				pos: position{line: 2605, col: 19, offset: 83304},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2604, col: 19, offset: 83272},
+																																						pos:        position{line: 2605, col: 19, offset: 83304},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2604, col: 26, offset: 83279},
+																																						pos: position{line: 2605, col: 26, offset: 83311},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2862, col: 10, offset: 90584},
-																																							run: (*parser).callonListContinuationElement1414,
+																																							pos: position{line: 2863, col: 10, offset: 90616},
+																																							run: (*parser).callonListContinuationElement1420,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2862, col: 10, offset: 90584},
+																																								pos:        position{line: 2863, col: 10, offset: 90616},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -35674,28 +35814,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2884, col: 8, offset: 90982},
+																																						pos: position{line: 2885, col: 8, offset: 91014},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2871, col: 12, offset: 90755},
-																																								run: (*parser).callonListContinuationElement1417,
+																																								pos: position{line: 2872, col: 12, offset: 90787},
+																																								run: (*parser).callonListContinuationElement1423,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2871, col: 13, offset: 90756},
+																																									pos: position{line: 2872, col: 13, offset: 90788},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2871, col: 13, offset: 90756},
+																																											pos:        position{line: 2872, col: 13, offset: 90788},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2871, col: 20, offset: 90763},
+																																											pos:        position{line: 2872, col: 20, offset: 90795},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2871, col: 29, offset: 90772},
+																																											pos:        position{line: 2872, col: 29, offset: 90804},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -35704,9 +35844,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2881, col: 8, offset: 90932},
+																																								pos: position{line: 2882, col: 8, offset: 90964},
 																																								expr: &anyMatcher{
-																																									line: 2881, col: 9, offset: 90933,
+																																									line: 2882, col: 9, offset: 90965,
 																																								},
 																																							},
 																																						},
@@ -35714,35 +35854,35 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2881, col: 8, offset: 90932},
+																																				pos: position{line: 2882, col: 8, offset: 90964},
 																																				expr: &anyMatcher{
-																																					line: 2881, col: 9, offset: 90933,
+																																					line: 2882, col: 9, offset: 90965,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2644, col: 5, offset: 84178},
+																																	pos: position{line: 2645, col: 5, offset: 84210},
 																																	expr: &actionExpr{
 																																		pos: position{line: 677, col: 14, offset: 21557},
-																																		run: (*parser).callonListContinuationElement1427,
+																																		run: (*parser).callonListContinuationElement1433,
 																																		expr: &seqExpr{
 																																			pos: position{line: 677, col: 14, offset: 21557},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2879, col: 11, offset: 90918},
+																																					pos: position{line: 2880, col: 11, offset: 90950},
 																																					expr: &anyMatcher{
-																																						line: 2879, col: 13, offset: 90920,
+																																						line: 2880, col: 13, offset: 90952,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
 																																					pos: position{line: 677, col: 21, offset: 21564},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2862, col: 10, offset: 90584},
-																																						run: (*parser).callonListContinuationElement1432,
+																																						pos: position{line: 2863, col: 10, offset: 90616},
+																																						run: (*parser).callonListContinuationElement1438,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2862, col: 10, offset: 90584},
+																																							pos:        position{line: 2863, col: 10, offset: 90616},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -35751,28 +35891,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2884, col: 8, offset: 90982},
+																																					pos: position{line: 2885, col: 8, offset: 91014},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2871, col: 12, offset: 90755},
-																																							run: (*parser).callonListContinuationElement1435,
+																																							pos: position{line: 2872, col: 12, offset: 90787},
+																																							run: (*parser).callonListContinuationElement1441,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2871, col: 13, offset: 90756},
+																																								pos: position{line: 2872, col: 13, offset: 90788},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2871, col: 13, offset: 90756},
+																																										pos:        position{line: 2872, col: 13, offset: 90788},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2871, col: 20, offset: 90763},
+																																										pos:        position{line: 2872, col: 20, offset: 90795},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2871, col: 29, offset: 90772},
+																																										pos:        position{line: 2872, col: 29, offset: 90804},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -35781,9 +35921,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2881, col: 8, offset: 90932},
+																																							pos: position{line: 2882, col: 8, offset: 90964},
 																																							expr: &anyMatcher{
-																																								line: 2881, col: 9, offset: 90933,
+																																								line: 2882, col: 9, offset: 90965,
 																																							},
 																																						},
 																																					},
@@ -35793,17 +35933,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2645, col: 5, offset: 84193},
+																																	pos:   position{line: 2646, col: 5, offset: 84225},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2645, col: 12, offset: 84200},
+																																		pos: position{line: 2646, col: 12, offset: 84232},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2662, col: 20, offset: 84664},
-																																			run: (*parser).callonListContinuationElement1444,
+																																			pos: position{line: 2663, col: 20, offset: 84696},
+																																			run: (*parser).callonListContinuationElement1450,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2662, col: 20, offset: 84664},
+																																				pos: position{line: 2663, col: 20, offset: 84696},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2662, col: 20, offset: 84664},
+																																					pos:        position{line: 2663, col: 20, offset: 84696},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -35814,18 +35954,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2645, col: 31, offset: 84219},
+																																	pos:        position{line: 2646, col: 31, offset: 84251},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2645, col: 35, offset: 84223},
+																																	pos: position{line: 2646, col: 35, offset: 84255},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2862, col: 10, offset: 90584},
-																																		run: (*parser).callonListContinuationElement1449,
+																																		pos: position{line: 2863, col: 10, offset: 90616},
+																																		run: (*parser).callonListContinuationElement1455,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2862, col: 10, offset: 90584},
+																																			pos:        position{line: 2863, col: 10, offset: 90616},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -35834,27 +35974,27 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2645, col: 42, offset: 84230},
+																																	pos: position{line: 2646, col: 42, offset: 84262},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2871, col: 12, offset: 90755},
-																																		run: (*parser).callonListContinuationElement1452,
+																																		pos: position{line: 2872, col: 12, offset: 90787},
+																																		run: (*parser).callonListContinuationElement1458,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2871, col: 13, offset: 90756},
+																																			pos: position{line: 2872, col: 13, offset: 90788},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2871, col: 13, offset: 90756},
+																																					pos:        position{line: 2872, col: 13, offset: 90788},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2871, col: 20, offset: 90763},
+																																					pos:        position{line: 2872, col: 20, offset: 90795},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2871, col: 29, offset: 90772},
+																																					pos:        position{line: 2872, col: 29, offset: 90804},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -35864,37 +36004,37 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2645, col: 51, offset: 84239},
+																																	pos:   position{line: 2646, col: 51, offset: 84271},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2651, col: 5, offset: 84398},
+																																		pos: position{line: 2652, col: 5, offset: 84430},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2652, col: 9, offset: 84408},
-																																			run: (*parser).callonListContinuationElement1459,
+																																			pos: position{line: 2653, col: 9, offset: 84440},
+																																			run: (*parser).callonListContinuationElement1465,
 																																			expr: &seqExpr{
-																																				pos: position{line: 2652, col: 9, offset: 84408},
+																																				pos: position{line: 2653, col: 9, offset: 84440},
 																																				exprs: []interface{}{
 																																					&notExpr{
-																																						pos: position{line: 2652, col: 9, offset: 84408},
+																																						pos: position{line: 2653, col: 9, offset: 84440},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2608, col: 22, offset: 83352},
+																																							pos: position{line: 2609, col: 22, offset: 83384},
 																																							alternatives: []interface{}{
 																																								&seqExpr{
-																																									pos: position{line: 2604, col: 19, offset: 83272},
+																																									pos: position{line: 2605, col: 19, offset: 83304},
 																																									exprs: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2604, col: 19, offset: 83272},
+																																											pos:        position{line: 2605, col: 19, offset: 83304},
 																																											val:        "|===",
 																																											ignoreCase: false,
 																																											want:       "\"|===\"",
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 2604, col: 26, offset: 83279},
+																																											pos: position{line: 2605, col: 26, offset: 83311},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2862, col: 10, offset: 90584},
-																																												run: (*parser).callonListContinuationElement1466,
+																																												pos: position{line: 2863, col: 10, offset: 90616},
+																																												run: (*parser).callonListContinuationElement1472,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2862, col: 10, offset: 90584},
+																																													pos:        position{line: 2863, col: 10, offset: 90616},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -35903,28 +36043,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2884, col: 8, offset: 90982},
+																																											pos: position{line: 2885, col: 8, offset: 91014},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2871, col: 12, offset: 90755},
-																																													run: (*parser).callonListContinuationElement1469,
+																																													pos: position{line: 2872, col: 12, offset: 90787},
+																																													run: (*parser).callonListContinuationElement1475,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2871, col: 13, offset: 90756},
+																																														pos: position{line: 2872, col: 13, offset: 90788},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2871, col: 13, offset: 90756},
+																																																pos:        position{line: 2872, col: 13, offset: 90788},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2871, col: 20, offset: 90763},
+																																																pos:        position{line: 2872, col: 20, offset: 90795},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2871, col: 29, offset: 90772},
+																																																pos:        position{line: 2872, col: 29, offset: 90804},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -35933,9 +36073,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2881, col: 8, offset: 90932},
+																																													pos: position{line: 2882, col: 8, offset: 90964},
 																																													expr: &anyMatcher{
-																																														line: 2881, col: 9, offset: 90933,
+																																														line: 2882, col: 9, offset: 90965,
 																																													},
 																																												},
 																																											},
@@ -35943,35 +36083,35 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2881, col: 8, offset: 90932},
+																																									pos: position{line: 2882, col: 8, offset: 90964},
 																																									expr: &anyMatcher{
-																																										line: 2881, col: 9, offset: 90933,
+																																										line: 2882, col: 9, offset: 90965,
 																																									},
 																																								},
 																																							},
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2653, col: 9, offset: 84435},
+																																						pos: position{line: 2654, col: 9, offset: 84467},
 																																						expr: &actionExpr{
 																																							pos: position{line: 677, col: 14, offset: 21557},
-																																							run: (*parser).callonListContinuationElement1479,
+																																							run: (*parser).callonListContinuationElement1485,
 																																							expr: &seqExpr{
 																																								pos: position{line: 677, col: 14, offset: 21557},
 																																								exprs: []interface{}{
 																																									&andExpr{
-																																										pos: position{line: 2879, col: 11, offset: 90918},
+																																										pos: position{line: 2880, col: 11, offset: 90950},
 																																										expr: &anyMatcher{
-																																											line: 2879, col: 13, offset: 90920,
+																																											line: 2880, col: 13, offset: 90952,
 																																										},
 																																									},
 																																									&zeroOrMoreExpr{
 																																										pos: position{line: 677, col: 21, offset: 21564},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2862, col: 10, offset: 90584},
-																																											run: (*parser).callonListContinuationElement1484,
+																																											pos: position{line: 2863, col: 10, offset: 90616},
+																																											run: (*parser).callonListContinuationElement1490,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2862, col: 10, offset: 90584},
+																																												pos:        position{line: 2863, col: 10, offset: 90616},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -35980,28 +36120,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2884, col: 8, offset: 90982},
+																																										pos: position{line: 2885, col: 8, offset: 91014},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2871, col: 12, offset: 90755},
-																																												run: (*parser).callonListContinuationElement1487,
+																																												pos: position{line: 2872, col: 12, offset: 90787},
+																																												run: (*parser).callonListContinuationElement1493,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2871, col: 13, offset: 90756},
+																																													pos: position{line: 2872, col: 13, offset: 90788},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2871, col: 13, offset: 90756},
+																																															pos:        position{line: 2872, col: 13, offset: 90788},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2871, col: 20, offset: 90763},
+																																															pos:        position{line: 2872, col: 20, offset: 90795},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2871, col: 29, offset: 90772},
+																																															pos:        position{line: 2872, col: 29, offset: 90804},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -36010,9 +36150,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2881, col: 8, offset: 90932},
+																																												pos: position{line: 2882, col: 8, offset: 90964},
 																																												expr: &anyMatcher{
-																																													line: 2881, col: 9, offset: 90933,
+																																													line: 2882, col: 9, offset: 90965,
 																																												},
 																																											},
 																																										},
@@ -36022,22 +36162,22 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2654, col: 9, offset: 84454},
+																																						pos: position{line: 2655, col: 9, offset: 84486},
 																																						expr: &seqExpr{
-																																							pos: position{line: 2654, col: 11, offset: 84456},
+																																							pos: position{line: 2655, col: 11, offset: 84488},
 																																							exprs: []interface{}{
 																																								&labeledExpr{
-																																									pos:   position{line: 2654, col: 11, offset: 84456},
+																																									pos:   position{line: 2655, col: 11, offset: 84488},
 																																									label: "format",
 																																									expr: &zeroOrOneExpr{
-																																										pos: position{line: 2654, col: 18, offset: 84463},
+																																										pos: position{line: 2655, col: 18, offset: 84495},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2662, col: 20, offset: 84664},
-																																											run: (*parser).callonListContinuationElement1498,
+																																											pos: position{line: 2663, col: 20, offset: 84696},
+																																											run: (*parser).callonListContinuationElement1504,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2662, col: 20, offset: 84664},
+																																												pos: position{line: 2663, col: 20, offset: 84696},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2662, col: 20, offset: 84664},
+																																													pos:        position{line: 2663, col: 20, offset: 84696},
 																																													val:        "[^ |\\r\\n]",
 																																													chars:      []rune{' ', '|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -36048,7 +36188,7 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&litMatcher{
-																																									pos:        position{line: 2654, col: 37, offset: 84482},
+																																									pos:        position{line: 2655, col: 37, offset: 84514},
 																																									val:        "|",
 																																									ignoreCase: false,
 																																									want:       "\"|\"",
@@ -36057,15 +36197,15 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2655, col: 9, offset: 84495},
+																																						pos:   position{line: 2656, col: 9, offset: 84527},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2655, col: 18, offset: 84504},
-																																							run: (*parser).callonListContinuationElement1503,
+																																							pos: position{line: 2656, col: 18, offset: 84536},
+																																							run: (*parser).callonListContinuationElement1509,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2655, col: 18, offset: 84504},
+																																								pos: position{line: 2656, col: 18, offset: 84536},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2655, col: 18, offset: 84504},
+																																									pos:        position{line: 2656, col: 18, offset: 84536},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -36075,30 +36215,30 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&zeroOrOneExpr{
-																																						pos: position{line: 2657, col: 12, offset: 84566},
+																																						pos: position{line: 2658, col: 12, offset: 84598},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2884, col: 8, offset: 90982},
+																																							pos: position{line: 2885, col: 8, offset: 91014},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2871, col: 12, offset: 90755},
-																																									run: (*parser).callonListContinuationElement1508,
+																																									pos: position{line: 2872, col: 12, offset: 90787},
+																																									run: (*parser).callonListContinuationElement1514,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2871, col: 13, offset: 90756},
+																																										pos: position{line: 2872, col: 13, offset: 90788},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2871, col: 13, offset: 90756},
+																																												pos:        position{line: 2872, col: 13, offset: 90788},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2871, col: 20, offset: 90763},
+																																												pos:        position{line: 2872, col: 20, offset: 90795},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2871, col: 29, offset: 90772},
+																																												pos:        position{line: 2872, col: 29, offset: 90804},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -36107,9 +36247,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2881, col: 8, offset: 90932},
+																																									pos: position{line: 2882, col: 8, offset: 90964},
 																																									expr: &anyMatcher{
-																																										line: 2881, col: 9, offset: 90933,
+																																										line: 2882, col: 9, offset: 90965,
 																																									},
 																																								},
 																																							},
@@ -36132,23 +36272,23 @@ var g = &grammar{
 																						},
 																						&actionExpr{
 																							pos: position{line: 677, col: 14, offset: 21557},
-																							run: (*parser).callonListContinuationElement1515,
+																							run: (*parser).callonListContinuationElement1521,
 																							expr: &seqExpr{
 																								pos: position{line: 677, col: 14, offset: 21557},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2879, col: 11, offset: 90918},
+																										pos: position{line: 2880, col: 11, offset: 90950},
 																										expr: &anyMatcher{
-																											line: 2879, col: 13, offset: 90920,
+																											line: 2880, col: 13, offset: 90952,
 																										},
 																									},
 																									&zeroOrMoreExpr{
 																										pos: position{line: 677, col: 21, offset: 21564},
 																										expr: &actionExpr{
-																											pos: position{line: 2862, col: 10, offset: 90584},
-																											run: (*parser).callonListContinuationElement1520,
+																											pos: position{line: 2863, col: 10, offset: 90616},
+																											run: (*parser).callonListContinuationElement1526,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2862, col: 10, offset: 90584},
+																												pos:        position{line: 2863, col: 10, offset: 90616},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -36157,28 +36297,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2884, col: 8, offset: 90982},
+																										pos: position{line: 2885, col: 8, offset: 91014},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2871, col: 12, offset: 90755},
-																												run: (*parser).callonListContinuationElement1523,
+																												pos: position{line: 2872, col: 12, offset: 90787},
+																												run: (*parser).callonListContinuationElement1529,
 																												expr: &choiceExpr{
-																													pos: position{line: 2871, col: 13, offset: 90756},
+																													pos: position{line: 2872, col: 13, offset: 90788},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2871, col: 13, offset: 90756},
+																															pos:        position{line: 2872, col: 13, offset: 90788},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2871, col: 20, offset: 90763},
+																															pos:        position{line: 2872, col: 20, offset: 90795},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2871, col: 29, offset: 90772},
+																															pos:        position{line: 2872, col: 29, offset: 90804},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -36187,9 +36327,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2881, col: 8, offset: 90932},
+																												pos: position{line: 2882, col: 8, offset: 90964},
 																												expr: &anyMatcher{
-																													line: 2881, col: 9, offset: 90933,
+																													line: 2882, col: 9, offset: 90965,
 																												},
 																											},
 																										},
@@ -36208,24 +36348,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2608, col: 22, offset: 83352},
+													pos: position{line: 2609, col: 22, offset: 83384},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2604, col: 19, offset: 83272},
+															pos: position{line: 2605, col: 19, offset: 83304},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2604, col: 19, offset: 83272},
+																	pos:        position{line: 2605, col: 19, offset: 83304},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2604, col: 26, offset: 83279},
+																	pos: position{line: 2605, col: 26, offset: 83311},
 																	expr: &actionExpr{
-																		pos: position{line: 2862, col: 10, offset: 90584},
-																		run: (*parser).callonListContinuationElement1534,
+																		pos: position{line: 2863, col: 10, offset: 90616},
+																		run: (*parser).callonListContinuationElement1540,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2862, col: 10, offset: 90584},
+																			pos:        position{line: 2863, col: 10, offset: 90616},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -36234,28 +36374,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2884, col: 8, offset: 90982},
+																	pos: position{line: 2885, col: 8, offset: 91014},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2871, col: 12, offset: 90755},
-																			run: (*parser).callonListContinuationElement1537,
+																			pos: position{line: 2872, col: 12, offset: 90787},
+																			run: (*parser).callonListContinuationElement1543,
 																			expr: &choiceExpr{
-																				pos: position{line: 2871, col: 13, offset: 90756},
+																				pos: position{line: 2872, col: 13, offset: 90788},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 13, offset: 90756},
+																						pos:        position{line: 2872, col: 13, offset: 90788},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 20, offset: 90763},
+																						pos:        position{line: 2872, col: 20, offset: 90795},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 29, offset: 90772},
+																						pos:        position{line: 2872, col: 29, offset: 90804},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36264,9 +36404,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2881, col: 8, offset: 90932},
+																			pos: position{line: 2882, col: 8, offset: 90964},
 																			expr: &anyMatcher{
-																				line: 2881, col: 9, offset: 90933,
+																				line: 2882, col: 9, offset: 90965,
 																			},
 																		},
 																	},
@@ -36274,9 +36414,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2881, col: 8, offset: 90932},
+															pos: position{line: 2882, col: 8, offset: 90964},
 															expr: &anyMatcher{
-																line: 2881, col: 9, offset: 90933,
+																line: 2882, col: 9, offset: 90965,
 															},
 														},
 													},
@@ -36285,36 +36425,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2472, col: 22, offset: 79562},
-										run: (*parser).callonListContinuationElement1546,
+										pos: position{line: 2473, col: 22, offset: 79594},
+										run: (*parser).callonListContinuationElement1552,
 										expr: &seqExpr{
-											pos: position{line: 2472, col: 22, offset: 79562},
+											pos: position{line: 2473, col: 22, offset: 79594},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2477, col: 31, offset: 79783},
+													pos:        position{line: 2478, col: 31, offset: 79815},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2477, col: 36, offset: 79788},
+													pos: position{line: 2478, col: 36, offset: 79820},
 													expr: &litMatcher{
-														pos:        position{line: 2477, col: 37, offset: 79789},
+														pos:        position{line: 2478, col: 37, offset: 79821},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2472, col: 49, offset: 79589},
+													pos:   position{line: 2473, col: 49, offset: 79621},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2808, col: 13, offset: 89110},
-														run: (*parser).callonListContinuationElement1552,
+														pos: position{line: 2809, col: 13, offset: 89142},
+														run: (*parser).callonListContinuationElement1558,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2808, col: 13, offset: 89110},
+															pos: position{line: 2809, col: 13, offset: 89142},
 															expr: &charClassMatcher{
-																pos:        position{line: 2808, col: 13, offset: 89110},
+																pos:        position{line: 2809, col: 13, offset: 89142},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -36324,28 +36464,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2884, col: 8, offset: 90982},
+													pos: position{line: 2885, col: 8, offset: 91014},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2871, col: 12, offset: 90755},
-															run: (*parser).callonListContinuationElement1556,
+															pos: position{line: 2872, col: 12, offset: 90787},
+															run: (*parser).callonListContinuationElement1562,
 															expr: &choiceExpr{
-																pos: position{line: 2871, col: 13, offset: 90756},
+																pos: position{line: 2872, col: 13, offset: 90788},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2871, col: 13, offset: 90756},
+																		pos:        position{line: 2872, col: 13, offset: 90788},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2871, col: 20, offset: 90763},
+																		pos:        position{line: 2872, col: 20, offset: 90795},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2871, col: 29, offset: 90772},
+																		pos:        position{line: 2872, col: 29, offset: 90804},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36354,9 +36494,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2881, col: 8, offset: 90932},
+															pos: position{line: 2882, col: 8, offset: 90964},
 															expr: &anyMatcher{
-																line: 2881, col: 9, offset: 90933,
+																line: 2882, col: 9, offset: 90965,
 															},
 														},
 													},
@@ -36366,7 +36506,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1561, col: 5, offset: 50557},
-										run: (*parser).callonListContinuationElement1563,
+										run: (*parser).callonListContinuationElement1569,
 										expr: &seqExpr{
 											pos: position{line: 1561, col: 5, offset: 50557},
 											exprs: []interface{}{
@@ -36376,83 +36516,83 @@ var g = &grammar{
 													expr: &zeroOrOneExpr{
 														pos: position{line: 1561, col: 11, offset: 50563},
 														expr: &actionExpr{
-															pos: position{line: 1725, col: 5, offset: 55880},
-															run: (*parser).callonListContinuationElement1567,
+															pos: position{line: 1726, col: 5, offset: 55912},
+															run: (*parser).callonListContinuationElement1573,
 															expr: &seqExpr{
-																pos: position{line: 1725, col: 5, offset: 55880},
+																pos: position{line: 1726, col: 5, offset: 55912},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1725, col: 5, offset: 55880},
-																		run: (*parser).callonListContinuationElement1569,
+																		pos: position{line: 1726, col: 5, offset: 55912},
+																		run: (*parser).callonListContinuationElement1575,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1728, col: 5, offset: 55943},
+																		pos:   position{line: 1729, col: 5, offset: 55975},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1728, col: 12, offset: 55950},
+																			pos: position{line: 1729, col: 12, offset: 55982},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1728, col: 12, offset: 55950},
-																					run: (*parser).callonListContinuationElement1572,
+																					pos: position{line: 1729, col: 12, offset: 55982},
+																					run: (*parser).callonListContinuationElement1578,
 																					expr: &litMatcher{
-																						pos:        position{line: 1728, col: 12, offset: 55950},
+																						pos:        position{line: 1729, col: 12, offset: 55982},
 																						val:        "TIP: ",
 																						ignoreCase: false,
 																						want:       "\"TIP: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1730, col: 13, offset: 56006},
-																					run: (*parser).callonListContinuationElement1574,
+																					pos: position{line: 1731, col: 13, offset: 56038},
+																					run: (*parser).callonListContinuationElement1580,
 																					expr: &litMatcher{
-																						pos:        position{line: 1730, col: 13, offset: 56006},
+																						pos:        position{line: 1731, col: 13, offset: 56038},
 																						val:        "NOTE: ",
 																						ignoreCase: false,
 																						want:       "\"NOTE: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1732, col: 13, offset: 56064},
-																					run: (*parser).callonListContinuationElement1576,
+																					pos: position{line: 1733, col: 13, offset: 56096},
+																					run: (*parser).callonListContinuationElement1582,
 																					expr: &litMatcher{
-																						pos:        position{line: 1732, col: 13, offset: 56064},
+																						pos:        position{line: 1733, col: 13, offset: 56096},
 																						val:        "IMPORTANT: ",
 																						ignoreCase: false,
 																						want:       "\"IMPORTANT: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1734, col: 13, offset: 56132},
-																					run: (*parser).callonListContinuationElement1578,
+																					pos: position{line: 1735, col: 13, offset: 56164},
+																					run: (*parser).callonListContinuationElement1584,
 																					expr: &litMatcher{
-																						pos:        position{line: 1734, col: 13, offset: 56132},
+																						pos:        position{line: 1735, col: 13, offset: 56164},
 																						val:        "WARNING: ",
 																						ignoreCase: false,
 																						want:       "\"WARNING: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1736, col: 13, offset: 56196},
-																					run: (*parser).callonListContinuationElement1580,
+																					pos: position{line: 1737, col: 13, offset: 56228},
+																					run: (*parser).callonListContinuationElement1586,
 																					expr: &litMatcher{
-																						pos:        position{line: 1736, col: 13, offset: 56196},
+																						pos:        position{line: 1737, col: 13, offset: 56228},
 																						val:        "CAUTION: ",
 																						ignoreCase: false,
 																						want:       "\"CAUTION: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1738, col: 13, offset: 56260},
-																					run: (*parser).callonListContinuationElement1582,
+																					pos: position{line: 1739, col: 13, offset: 56292},
+																					run: (*parser).callonListContinuationElement1588,
 																					expr: &andExpr{
-																						pos: position{line: 1738, col: 13, offset: 56260},
+																						pos: position{line: 1739, col: 13, offset: 56292},
 																						expr: &actionExpr{
-																							pos: position{line: 2866, col: 11, offset: 90645},
-																							run: (*parser).callonListContinuationElement1584,
+																							pos: position{line: 2867, col: 11, offset: 90677},
+																							run: (*parser).callonListContinuationElement1590,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2866, col: 11, offset: 90645},
+																								pos: position{line: 2867, col: 11, offset: 90677},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2866, col: 11, offset: 90645},
+																									pos:        position{line: 2867, col: 11, offset: 90677},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36466,17 +36606,17 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1740, col: 12, offset: 56330},
+																		pos: position{line: 1741, col: 12, offset: 56362},
 																		expr: &seqExpr{
-																			pos: position{line: 1740, col: 14, offset: 56332},
+																			pos: position{line: 1741, col: 14, offset: 56364},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1740, col: 14, offset: 56332},
+																					pos: position{line: 1741, col: 14, offset: 56364},
 																					expr: &actionExpr{
-																						pos: position{line: 2862, col: 10, offset: 90584},
-																						run: (*parser).callonListContinuationElement1590,
+																						pos: position{line: 2863, col: 10, offset: 90616},
+																						run: (*parser).callonListContinuationElement1596,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2862, col: 10, offset: 90584},
+																							pos:        position{line: 2863, col: 10, offset: 90616},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36485,28 +36625,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2884, col: 8, offset: 90982},
+																					pos: position{line: 2885, col: 8, offset: 91014},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2871, col: 12, offset: 90755},
-																							run: (*parser).callonListContinuationElement1593,
+																							pos: position{line: 2872, col: 12, offset: 90787},
+																							run: (*parser).callonListContinuationElement1599,
 																							expr: &choiceExpr{
-																								pos: position{line: 2871, col: 13, offset: 90756},
+																								pos: position{line: 2872, col: 13, offset: 90788},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2871, col: 13, offset: 90756},
+																										pos:        position{line: 2872, col: 13, offset: 90788},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2871, col: 20, offset: 90763},
+																										pos:        position{line: 2872, col: 20, offset: 90795},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2871, col: 29, offset: 90772},
+																										pos:        position{line: 2872, col: 29, offset: 90804},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -36515,9 +36655,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2881, col: 8, offset: 90932},
+																							pos: position{line: 2882, col: 8, offset: 90964},
 																							expr: &anyMatcher{
-																								line: 2881, col: 9, offset: 90933,
+																								line: 2882, col: 9, offset: 90965,
 																							},
 																						},
 																					},
@@ -36535,7 +36675,7 @@ var g = &grammar{
 													label: "content",
 													expr: &actionExpr{
 														pos: position{line: 1505, col: 5, offset: 48936},
-														run: (*parser).callonListContinuationElement1601,
+														run: (*parser).callonListContinuationElement1607,
 														expr: &seqExpr{
 															pos: position{line: 1505, col: 5, offset: 48936},
 															exprs: []interface{}{
@@ -36543,23 +36683,23 @@ var g = &grammar{
 																	pos: position{line: 1505, col: 5, offset: 48936},
 																	expr: &actionExpr{
 																		pos: position{line: 677, col: 14, offset: 21557},
-																		run: (*parser).callonListContinuationElement1604,
+																		run: (*parser).callonListContinuationElement1610,
 																		expr: &seqExpr{
 																			pos: position{line: 677, col: 14, offset: 21557},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2879, col: 11, offset: 90918},
+																					pos: position{line: 2880, col: 11, offset: 90950},
 																					expr: &anyMatcher{
-																						line: 2879, col: 13, offset: 90920,
+																						line: 2880, col: 13, offset: 90952,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21564},
 																					expr: &actionExpr{
-																						pos: position{line: 2862, col: 10, offset: 90584},
-																						run: (*parser).callonListContinuationElement1609,
+																						pos: position{line: 2863, col: 10, offset: 90616},
+																						run: (*parser).callonListContinuationElement1615,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2862, col: 10, offset: 90584},
+																							pos:        position{line: 2863, col: 10, offset: 90616},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36568,28 +36708,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2884, col: 8, offset: 90982},
+																					pos: position{line: 2885, col: 8, offset: 91014},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2871, col: 12, offset: 90755},
-																							run: (*parser).callonListContinuationElement1612,
+																							pos: position{line: 2872, col: 12, offset: 90787},
+																							run: (*parser).callonListContinuationElement1618,
 																							expr: &choiceExpr{
-																								pos: position{line: 2871, col: 13, offset: 90756},
+																								pos: position{line: 2872, col: 13, offset: 90788},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2871, col: 13, offset: 90756},
+																										pos:        position{line: 2872, col: 13, offset: 90788},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2871, col: 20, offset: 90763},
+																										pos:        position{line: 2872, col: 20, offset: 90795},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2871, col: 29, offset: 90772},
+																										pos:        position{line: 2872, col: 29, offset: 90804},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -36598,9 +36738,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2881, col: 8, offset: 90932},
+																							pos: position{line: 2882, col: 8, offset: 90964},
 																							expr: &anyMatcher{
-																								line: 2881, col: 9, offset: 90933,
+																								line: 2882, col: 9, offset: 90965,
 																							},
 																						},
 																					},
@@ -36623,10 +36763,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 1536, col: 31, offset: 49781},
 																				expr: &actionExpr{
-																					pos: position{line: 2862, col: 10, offset: 90584},
-																					run: (*parser).callonListContinuationElement1623,
+																					pos: position{line: 2863, col: 10, offset: 90616},
+																					run: (*parser).callonListContinuationElement1629,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2862, col: 10, offset: 90584},
+																						pos:        position{line: 2863, col: 10, offset: 90616},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -36635,25 +36775,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2871, col: 12, offset: 90755},
-																				run: (*parser).callonListContinuationElement1625,
+																				pos: position{line: 2872, col: 12, offset: 90787},
+																				run: (*parser).callonListContinuationElement1631,
 																				expr: &choiceExpr{
-																					pos: position{line: 2871, col: 13, offset: 90756},
+																					pos: position{line: 2872, col: 13, offset: 90788},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 13, offset: 90756},
+																							pos:        position{line: 2872, col: 13, offset: 90788},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 20, offset: 90763},
+																							pos:        position{line: 2872, col: 20, offset: 90795},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 29, offset: 90772},
+																							pos:        position{line: 2872, col: 29, offset: 90804},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -36668,17 +36808,17 @@ var g = &grammar{
 																	pos: position{line: 1507, col: 5, offset: 48979},
 																	expr: &actionExpr{
 																		pos: position{line: 1577, col: 5, offset: 50996},
-																		run: (*parser).callonListContinuationElement1631,
+																		run: (*parser).callonListContinuationElement1637,
 																		expr: &seqExpr{
 																			pos: position{line: 1577, col: 5, offset: 50996},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1577, col: 5, offset: 50996},
 																					expr: &actionExpr{
-																						pos: position{line: 2862, col: 10, offset: 90584},
-																						run: (*parser).callonListContinuationElement1634,
+																						pos: position{line: 2863, col: 10, offset: 90616},
+																						run: (*parser).callonListContinuationElement1640,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2862, col: 10, offset: 90584},
+																							pos:        position{line: 2863, col: 10, offset: 90616},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36694,7 +36834,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 1579, col: 9, offset: 51066},
-																								run: (*parser).callonListContinuationElement1638,
+																								run: (*parser).callonListContinuationElement1644,
 																								expr: &seqExpr{
 																									pos: position{line: 1579, col: 9, offset: 51066},
 																									exprs: []interface{}{
@@ -36703,7 +36843,7 @@ var g = &grammar{
 																											label: "depth",
 																											expr: &actionExpr{
 																												pos: position{line: 1579, col: 16, offset: 51073},
-																												run: (*parser).callonListContinuationElement1641,
+																												run: (*parser).callonListContinuationElement1647,
 																												expr: &oneOrMoreExpr{
 																													pos: position{line: 1579, col: 16, offset: 51073},
 																													expr: &litMatcher{
@@ -36717,14 +36857,14 @@ var g = &grammar{
 																										},
 																										&andCodeExpr{
 																											pos: position{line: 1583, col: 9, offset: 51174},
-																											run: (*parser).callonListContinuationElement1644,
+																											run: (*parser).callonListContinuationElement1650,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
 																								pos: position{line: 1602, col: 11, offset: 51891},
-																								run: (*parser).callonListContinuationElement1645,
+																								run: (*parser).callonListContinuationElement1651,
 																								expr: &seqExpr{
 																									pos: position{line: 1602, col: 11, offset: 51891},
 																									exprs: []interface{}{
@@ -36749,7 +36889,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 1604, col: 13, offset: 52017},
-																								run: (*parser).callonListContinuationElement1650,
+																								run: (*parser).callonListContinuationElement1656,
 																								expr: &seqExpr{
 																									pos: position{line: 1604, col: 13, offset: 52017},
 																									exprs: []interface{}{
@@ -36771,7 +36911,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 1606, col: 13, offset: 52145},
-																								run: (*parser).callonListContinuationElement1654,
+																								run: (*parser).callonListContinuationElement1660,
 																								expr: &seqExpr{
 																									pos: position{line: 1606, col: 13, offset: 52145},
 																									exprs: []interface{}{
@@ -36793,7 +36933,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 1608, col: 13, offset: 52273},
-																								run: (*parser).callonListContinuationElement1658,
+																								run: (*parser).callonListContinuationElement1664,
 																								expr: &seqExpr{
 																									pos: position{line: 1608, col: 13, offset: 52273},
 																									exprs: []interface{}{
@@ -36818,7 +36958,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 1610, col: 13, offset: 52406},
-																								run: (*parser).callonListContinuationElement1663,
+																								run: (*parser).callonListContinuationElement1669,
 																								expr: &seqExpr{
 																									pos: position{line: 1610, col: 13, offset: 52406},
 																									exprs: []interface{}{
@@ -36845,12 +36985,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2866, col: 11, offset: 90645},
-																					run: (*parser).callonListContinuationElement1668,
+																					pos: position{line: 2867, col: 11, offset: 90677},
+																					run: (*parser).callonListContinuationElement1674,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2866, col: 11, offset: 90645},
+																						pos: position{line: 2867, col: 11, offset: 90677},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2866, col: 11, offset: 90645},
+																							pos:        position{line: 2867, col: 11, offset: 90677},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36866,17 +37006,17 @@ var g = &grammar{
 																	pos: position{line: 1508, col: 5, offset: 49009},
 																	expr: &actionExpr{
 																		pos: position{line: 1627, col: 5, offset: 52958},
-																		run: (*parser).callonListContinuationElement1672,
+																		run: (*parser).callonListContinuationElement1678,
 																		expr: &seqExpr{
 																			pos: position{line: 1627, col: 5, offset: 52958},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1627, col: 5, offset: 52958},
 																					expr: &actionExpr{
-																						pos: position{line: 2862, col: 10, offset: 90584},
-																						run: (*parser).callonListContinuationElement1675,
+																						pos: position{line: 2863, col: 10, offset: 90616},
+																						run: (*parser).callonListContinuationElement1681,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2862, col: 10, offset: 90584},
+																							pos:        position{line: 2863, col: 10, offset: 90616},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36889,7 +37029,7 @@ var g = &grammar{
 																					label: "style",
 																					expr: &actionExpr{
 																						pos: position{line: 1629, col: 9, offset: 52986},
-																						run: (*parser).callonListContinuationElement1678,
+																						run: (*parser).callonListContinuationElement1684,
 																						expr: &choiceExpr{
 																							pos: position{line: 1629, col: 10, offset: 52987},
 																							alternatives: []interface{}{
@@ -36914,15 +37054,15 @@ var g = &grammar{
 																				},
 																				&andCodeExpr{
 																					pos: position{line: 1632, col: 7, offset: 53086},
-																					run: (*parser).callonListContinuationElement1683,
+																					run: (*parser).callonListContinuationElement1689,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2866, col: 11, offset: 90645},
-																					run: (*parser).callonListContinuationElement1684,
+																					pos: position{line: 2867, col: 11, offset: 90677},
+																					run: (*parser).callonListContinuationElement1690,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2866, col: 11, offset: 90645},
+																						pos: position{line: 2867, col: 11, offset: 90677},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2866, col: 11, offset: 90645},
+																							pos:        position{line: 2867, col: 11, offset: 90677},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36937,27 +37077,27 @@ var g = &grammar{
 																&notExpr{
 																	pos: position{line: 1509, col: 5, offset: 49041},
 																	expr: &actionExpr{
-																		pos: position{line: 1716, col: 5, offset: 55495},
-																		run: (*parser).callonListContinuationElement1688,
+																		pos: position{line: 1717, col: 5, offset: 55527},
+																		run: (*parser).callonListContinuationElement1694,
 																		expr: &seqExpr{
-																			pos: position{line: 1716, col: 5, offset: 55495},
+																			pos: position{line: 1717, col: 5, offset: 55527},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1716, col: 5, offset: 55495},
+																					pos:        position{line: 1717, col: 5, offset: 55527},
 																					val:        "<",
 																					ignoreCase: false,
 																					want:       "\"<\"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1716, col: 9, offset: 55499},
+																					pos:   position{line: 1717, col: 9, offset: 55531},
 																					label: "ref",
 																					expr: &actionExpr{
-																						pos: position{line: 1716, col: 14, offset: 55504},
-																						run: (*parser).callonListContinuationElement1692,
+																						pos: position{line: 1717, col: 14, offset: 55536},
+																						run: (*parser).callonListContinuationElement1698,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 1716, col: 14, offset: 55504},
+																							pos: position{line: 1717, col: 14, offset: 55536},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1716, col: 14, offset: 55504},
+																								pos:        position{line: 1717, col: 14, offset: 55536},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -36967,18 +37107,18 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 1716, col: 62, offset: 55552},
+																					pos:        position{line: 1717, col: 62, offset: 55584},
 																					val:        ">",
 																					ignoreCase: false,
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2866, col: 11, offset: 90645},
-																					run: (*parser).callonListContinuationElement1696,
+																					pos: position{line: 2867, col: 11, offset: 90677},
+																					run: (*parser).callonListContinuationElement1702,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2866, col: 11, offset: 90645},
+																						pos: position{line: 2867, col: 11, offset: 90677},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2866, col: 11, offset: 90645},
+																							pos:        position{line: 2867, col: 11, offset: 90677},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36997,109 +37137,137 @@ var g = &grammar{
 																		exprs: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 1662, col: 5, offset: 53977},
-																				run: (*parser).callonListContinuationElement1701,
-																				expr: &oneOrMoreExpr{
+																				run: (*parser).callonListContinuationElement1707,
+																				expr: &seqExpr{
 																					pos: position{line: 1662, col: 5, offset: 53977},
-																					expr: &seqExpr{
-																						pos: position{line: 1662, col: 6, offset: 53978},
-																						exprs: []interface{}{
-																							&notExpr{
-																								pos: position{line: 1662, col: 6, offset: 53978},
-																								expr: &actionExpr{
-																									pos: position{line: 1667, col: 5, offset: 54128},
-																									run: (*parser).callonListContinuationElement1705,
-																									expr: &seqExpr{
-																										pos: position{line: 1667, col: 5, offset: 54128},
-																										exprs: []interface{}{
-																											&labeledExpr{
-																												pos:   position{line: 1667, col: 5, offset: 54128},
-																												label: "separator",
-																												expr: &actionExpr{
-																													pos: position{line: 1667, col: 16, offset: 54139},
-																													run: (*parser).callonListContinuationElement1708,
-																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1667, col: 16, offset: 54139},
-																														expr: &litMatcher{
-																															pos:        position{line: 1667, col: 17, offset: 54140},
-																															val:        ":",
-																															ignoreCase: false,
-																															want:       "\":\"",
-																														},
-																													},
-																												},
-																											},
-																											&andCodeExpr{
-																												pos: position{line: 1670, col: 5, offset: 54197},
-																												run: (*parser).callonListContinuationElement1711,
-																											},
+																					exprs: []interface{}{
+																						&notExpr{
+																							pos: position{line: 1662, col: 5, offset: 53977},
+																							expr: &seqExpr{
+																								pos: position{line: 2478, col: 31, offset: 79815},
+																								exprs: []interface{}{
+																									&litMatcher{
+																										pos:        position{line: 2478, col: 31, offset: 79815},
+																										val:        "//",
+																										ignoreCase: false,
+																										want:       "\"//\"",
+																									},
+																									&notExpr{
+																										pos: position{line: 2478, col: 36, offset: 79820},
+																										expr: &litMatcher{
+																											pos:        position{line: 2478, col: 37, offset: 79821},
+																											val:        "//",
+																											ignoreCase: false,
+																											want:       "\"//\"",
 																										},
 																									},
 																								},
 																							},
-																							&notExpr{
-																								pos: position{line: 1662, col: 35, offset: 54007},
-																								expr: &choiceExpr{
-																									pos: position{line: 2884, col: 8, offset: 90982},
-																									alternatives: []interface{}{
-																										&actionExpr{
-																											pos: position{line: 2871, col: 12, offset: 90755},
-																											run: (*parser).callonListContinuationElement1714,
-																											expr: &choiceExpr{
-																												pos: position{line: 2871, col: 13, offset: 90756},
-																												alternatives: []interface{}{
-																													&litMatcher{
-																														pos:        position{line: 2871, col: 13, offset: 90756},
-																														val:        "\n",
-																														ignoreCase: false,
-																														want:       "\"\\n\"",
-																													},
-																													&litMatcher{
-																														pos:        position{line: 2871, col: 20, offset: 90763},
-																														val:        "\r\n",
-																														ignoreCase: false,
-																														want:       "\"\\r\\n\"",
+																						},
+																						&oneOrMoreExpr{
+																							pos: position{line: 1663, col: 5, offset: 54009},
+																							expr: &seqExpr{
+																								pos: position{line: 1663, col: 6, offset: 54010},
+																								exprs: []interface{}{
+																									&notExpr{
+																										pos: position{line: 1663, col: 6, offset: 54010},
+																										expr: &actionExpr{
+																											pos: position{line: 1668, col: 5, offset: 54160},
+																											run: (*parser).callonListContinuationElement1717,
+																											expr: &seqExpr{
+																												pos: position{line: 1668, col: 5, offset: 54160},
+																												exprs: []interface{}{
+																													&labeledExpr{
+																														pos:   position{line: 1668, col: 5, offset: 54160},
+																														label: "separator",
+																														expr: &actionExpr{
+																															pos: position{line: 1668, col: 16, offset: 54171},
+																															run: (*parser).callonListContinuationElement1720,
+																															expr: &oneOrMoreExpr{
+																																pos: position{line: 1668, col: 16, offset: 54171},
+																																expr: &litMatcher{
+																																	pos:        position{line: 1668, col: 17, offset: 54172},
+																																	val:        ":",
+																																	ignoreCase: false,
+																																	want:       "\":\"",
+																																},
+																															},
+																														},
 																													},
-																													&litMatcher{
-																														pos:        position{line: 2871, col: 29, offset: 90772},
-																														val:        "\r",
-																														ignoreCase: false,
-																														want:       "\"\\r\"",
+																													&andCodeExpr{
+																														pos: position{line: 1671, col: 5, offset: 54229},
+																														run: (*parser).callonListContinuationElement1723,
 																													},
 																												},
 																											},
 																										},
-																										&notExpr{
-																											pos: position{line: 2881, col: 8, offset: 90932},
-																											expr: &anyMatcher{
-																												line: 2881, col: 9, offset: 90933,
+																									},
+																									&notExpr{
+																										pos: position{line: 1663, col: 35, offset: 54039},
+																										expr: &choiceExpr{
+																											pos: position{line: 2885, col: 8, offset: 91014},
+																											alternatives: []interface{}{
+																												&actionExpr{
+																													pos: position{line: 2872, col: 12, offset: 90787},
+																													run: (*parser).callonListContinuationElement1726,
+																													expr: &choiceExpr{
+																														pos: position{line: 2872, col: 13, offset: 90788},
+																														alternatives: []interface{}{
+																															&litMatcher{
+																																pos:        position{line: 2872, col: 13, offset: 90788},
+																																val:        "\n",
+																																ignoreCase: false,
+																																want:       "\"\\n\"",
+																															},
+																															&litMatcher{
+																																pos:        position{line: 2872, col: 20, offset: 90795},
+																																val:        "\r\n",
+																																ignoreCase: false,
+																																want:       "\"\\r\\n\"",
+																															},
+																															&litMatcher{
+																																pos:        position{line: 2872, col: 29, offset: 90804},
+																																val:        "\r",
+																																ignoreCase: false,
+																																want:       "\"\\r\"",
+																															},
+																														},
+																													},
+																												},
+																												&notExpr{
+																													pos: position{line: 2882, col: 8, offset: 90964},
+																													expr: &anyMatcher{
+																														line: 2882, col: 9, offset: 90965,
+																													},
+																												},
 																											},
 																										},
 																									},
+																									&anyMatcher{
+																										line: 1663, col: 40, offset: 54044,
+																									},
 																								},
 																							},
-																							&anyMatcher{
-																								line: 1662, col: 40, offset: 54012,
-																							},
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1667, col: 5, offset: 54128},
-																				run: (*parser).callonListContinuationElement1722,
+																				pos: position{line: 1668, col: 5, offset: 54160},
+																				run: (*parser).callonListContinuationElement1734,
 																				expr: &seqExpr{
-																					pos: position{line: 1667, col: 5, offset: 54128},
+																					pos: position{line: 1668, col: 5, offset: 54160},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1667, col: 5, offset: 54128},
+																							pos:   position{line: 1668, col: 5, offset: 54160},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1667, col: 16, offset: 54139},
-																								run: (*parser).callonListContinuationElement1725,
+																								pos: position{line: 1668, col: 16, offset: 54171},
+																								run: (*parser).callonListContinuationElement1737,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1667, col: 16, offset: 54139},
+																									pos: position{line: 1668, col: 16, offset: 54171},
 																									expr: &litMatcher{
-																										pos:        position{line: 1667, col: 17, offset: 54140},
+																										pos:        position{line: 1668, col: 17, offset: 54172},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -37108,8 +37276,8 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1670, col: 5, offset: 54197},
-																							run: (*parser).callonListContinuationElement1728,
+																							pos: position{line: 1671, col: 5, offset: 54229},
+																							run: (*parser).callonListContinuationElement1740,
 																						},
 																					},
 																				},
@@ -37121,14 +37289,14 @@ var g = &grammar{
 																	pos: position{line: 1511, col: 5, offset: 49129},
 																	expr: &actionExpr{
 																		pos: position{line: 724, col: 5, offset: 23110},
-																		run: (*parser).callonListContinuationElement1730,
+																		run: (*parser).callonListContinuationElement1742,
 																		expr: &seqExpr{
 																			pos: position{line: 724, col: 5, offset: 23110},
 																			exprs: []interface{}{
 																				&notExpr{
 																					pos: position{line: 724, col: 5, offset: 23110},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2752, col: 13, offset: 87679},
+																						pos:        position{line: 2753, col: 13, offset: 87711},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -37143,7 +37311,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 740, col: 5, offset: 23652},
-																								run: (*parser).callonListContinuationElement1736,
+																								run: (*parser).callonListContinuationElement1748,
 																								expr: &seqExpr{
 																									pos: position{line: 740, col: 5, offset: 23652},
 																									exprs: []interface{}{
@@ -37152,7 +37320,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 740, col: 16, offset: 23663},
-																												run: (*parser).callonListContinuationElement1739,
+																												run: (*parser).callonListContinuationElement1751,
 																												expr: &seqExpr{
 																													pos: position{line: 740, col: 16, offset: 23663},
 																													exprs: []interface{}{
@@ -37178,10 +37346,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 742, col: 8, offset: 23754},
 																											expr: &actionExpr{
-																												pos: position{line: 2862, col: 10, offset: 90584},
-																												run: (*parser).callonListContinuationElement1745,
+																												pos: position{line: 2863, col: 10, offset: 90616},
+																												run: (*parser).callonListContinuationElement1757,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2862, col: 10, offset: 90584},
+																													pos:        position{line: 2863, col: 10, offset: 90616},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37190,28 +37358,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2884, col: 8, offset: 90982},
+																											pos: position{line: 2885, col: 8, offset: 91014},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2871, col: 12, offset: 90755},
-																													run: (*parser).callonListContinuationElement1748,
+																													pos: position{line: 2872, col: 12, offset: 90787},
+																													run: (*parser).callonListContinuationElement1760,
 																													expr: &choiceExpr{
-																														pos: position{line: 2871, col: 13, offset: 90756},
+																														pos: position{line: 2872, col: 13, offset: 90788},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2871, col: 13, offset: 90756},
+																																pos:        position{line: 2872, col: 13, offset: 90788},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2871, col: 20, offset: 90763},
+																																pos:        position{line: 2872, col: 20, offset: 90795},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2871, col: 29, offset: 90772},
+																																pos:        position{line: 2872, col: 29, offset: 90804},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37220,9 +37388,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2881, col: 8, offset: 90932},
+																													pos: position{line: 2882, col: 8, offset: 90964},
 																													expr: &anyMatcher{
-																														line: 2881, col: 9, offset: 90933,
+																														line: 2882, col: 9, offset: 90965,
 																													},
 																												},
 																											},
@@ -37232,7 +37400,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 747, col: 5, offset: 23900},
-																								run: (*parser).callonListContinuationElement1755,
+																								run: (*parser).callonListContinuationElement1767,
 																								expr: &seqExpr{
 																									pos: position{line: 747, col: 5, offset: 23900},
 																									exprs: []interface{}{
@@ -37241,7 +37409,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 747, col: 16, offset: 23911},
-																												run: (*parser).callonListContinuationElement1758,
+																												run: (*parser).callonListContinuationElement1770,
 																												expr: &seqExpr{
 																													pos: position{line: 747, col: 16, offset: 23911},
 																													exprs: []interface{}{
@@ -37267,10 +37435,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 749, col: 8, offset: 24002},
 																											expr: &actionExpr{
-																												pos: position{line: 2862, col: 10, offset: 90584},
-																												run: (*parser).callonListContinuationElement1764,
+																												pos: position{line: 2863, col: 10, offset: 90616},
+																												run: (*parser).callonListContinuationElement1776,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2862, col: 10, offset: 90584},
+																													pos:        position{line: 2863, col: 10, offset: 90616},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37279,28 +37447,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2884, col: 8, offset: 90982},
+																											pos: position{line: 2885, col: 8, offset: 91014},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2871, col: 12, offset: 90755},
-																													run: (*parser).callonListContinuationElement1767,
+																													pos: position{line: 2872, col: 12, offset: 90787},
+																													run: (*parser).callonListContinuationElement1779,
 																													expr: &choiceExpr{
-																														pos: position{line: 2871, col: 13, offset: 90756},
+																														pos: position{line: 2872, col: 13, offset: 90788},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2871, col: 13, offset: 90756},
+																																pos:        position{line: 2872, col: 13, offset: 90788},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2871, col: 20, offset: 90763},
+																																pos:        position{line: 2872, col: 20, offset: 90795},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2871, col: 29, offset: 90772},
+																																pos:        position{line: 2872, col: 29, offset: 90804},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37309,9 +37477,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2881, col: 8, offset: 90932},
+																													pos: position{line: 2882, col: 8, offset: 90964},
 																													expr: &anyMatcher{
-																														line: 2881, col: 9, offset: 90933,
+																														line: 2882, col: 9, offset: 90965,
 																													},
 																												},
 																											},
@@ -37321,7 +37489,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 760, col: 26, offset: 24388},
-																								run: (*parser).callonListContinuationElement1774,
+																								run: (*parser).callonListContinuationElement1786,
 																								expr: &seqExpr{
 																									pos: position{line: 760, col: 26, offset: 24388},
 																									exprs: []interface{}{
@@ -37336,7 +37504,7 @@ var g = &grammar{
 																											label: "language",
 																											expr: &actionExpr{
 																												pos: position{line: 764, col: 13, offset: 24524},
-																												run: (*parser).callonListContinuationElement1778,
+																												run: (*parser).callonListContinuationElement1790,
 																												expr: &oneOrMoreExpr{
 																													pos: position{line: 764, col: 14, offset: 24525},
 																													expr: &charClassMatcher{
@@ -37352,10 +37520,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 760, col: 52, offset: 24414},
 																											expr: &actionExpr{
-																												pos: position{line: 2862, col: 10, offset: 90584},
-																												run: (*parser).callonListContinuationElement1782,
+																												pos: position{line: 2863, col: 10, offset: 90616},
+																												run: (*parser).callonListContinuationElement1794,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2862, col: 10, offset: 90584},
+																													pos:        position{line: 2863, col: 10, offset: 90616},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37364,28 +37532,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2884, col: 8, offset: 90982},
+																											pos: position{line: 2885, col: 8, offset: 91014},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2871, col: 12, offset: 90755},
-																													run: (*parser).callonListContinuationElement1785,
+																													pos: position{line: 2872, col: 12, offset: 90787},
+																													run: (*parser).callonListContinuationElement1797,
 																													expr: &choiceExpr{
-																														pos: position{line: 2871, col: 13, offset: 90756},
+																														pos: position{line: 2872, col: 13, offset: 90788},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2871, col: 13, offset: 90756},
+																																pos:        position{line: 2872, col: 13, offset: 90788},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2871, col: 20, offset: 90763},
+																																pos:        position{line: 2872, col: 20, offset: 90795},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2871, col: 29, offset: 90772},
+																																pos:        position{line: 2872, col: 29, offset: 90804},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37394,9 +37562,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2881, col: 8, offset: 90932},
+																													pos: position{line: 2882, col: 8, offset: 90964},
 																													expr: &anyMatcher{
-																														line: 2881, col: 9, offset: 90933,
+																														line: 2882, col: 9, offset: 90965,
 																													},
 																												},
 																											},
@@ -37406,7 +37574,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 754, col: 5, offset: 24147},
-																								run: (*parser).callonListContinuationElement1792,
+																								run: (*parser).callonListContinuationElement1804,
 																								expr: &seqExpr{
 																									pos: position{line: 754, col: 5, offset: 24147},
 																									exprs: []interface{}{
@@ -37415,7 +37583,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 754, col: 16, offset: 24158},
-																												run: (*parser).callonListContinuationElement1795,
+																												run: (*parser).callonListContinuationElement1807,
 																												expr: &seqExpr{
 																													pos: position{line: 754, col: 16, offset: 24158},
 																													exprs: []interface{}{
@@ -37441,10 +37609,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 756, col: 8, offset: 24248},
 																											expr: &actionExpr{
-																												pos: position{line: 2862, col: 10, offset: 90584},
-																												run: (*parser).callonListContinuationElement1801,
+																												pos: position{line: 2863, col: 10, offset: 90616},
+																												run: (*parser).callonListContinuationElement1813,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2862, col: 10, offset: 90584},
+																													pos:        position{line: 2863, col: 10, offset: 90616},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37453,28 +37621,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2884, col: 8, offset: 90982},
+																											pos: position{line: 2885, col: 8, offset: 91014},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2871, col: 12, offset: 90755},
-																													run: (*parser).callonListContinuationElement1804,
+																													pos: position{line: 2872, col: 12, offset: 90787},
+																													run: (*parser).callonListContinuationElement1816,
 																													expr: &choiceExpr{
-																														pos: position{line: 2871, col: 13, offset: 90756},
+																														pos: position{line: 2872, col: 13, offset: 90788},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2871, col: 13, offset: 90756},
+																																pos:        position{line: 2872, col: 13, offset: 90788},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2871, col: 20, offset: 90763},
+																																pos:        position{line: 2872, col: 20, offset: 90795},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2871, col: 29, offset: 90772},
+																																pos:        position{line: 2872, col: 29, offset: 90804},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37483,9 +37651,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2881, col: 8, offset: 90932},
+																													pos: position{line: 2882, col: 8, offset: 90964},
 																													expr: &anyMatcher{
-																														line: 2881, col: 9, offset: 90933,
+																														line: 2882, col: 9, offset: 90965,
 																													},
 																												},
 																											},
@@ -37495,7 +37663,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 769, col: 5, offset: 24689},
-																								run: (*parser).callonListContinuationElement1811,
+																								run: (*parser).callonListContinuationElement1823,
 																								expr: &seqExpr{
 																									pos: position{line: 769, col: 5, offset: 24689},
 																									exprs: []interface{}{
@@ -37504,7 +37672,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 769, col: 16, offset: 24700},
-																												run: (*parser).callonListContinuationElement1814,
+																												run: (*parser).callonListContinuationElement1826,
 																												expr: &seqExpr{
 																													pos: position{line: 769, col: 16, offset: 24700},
 																													exprs: []interface{}{
@@ -37530,10 +37698,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 771, col: 8, offset: 24791},
 																											expr: &actionExpr{
-																												pos: position{line: 2862, col: 10, offset: 90584},
-																												run: (*parser).callonListContinuationElement1820,
+																												pos: position{line: 2863, col: 10, offset: 90616},
+																												run: (*parser).callonListContinuationElement1832,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2862, col: 10, offset: 90584},
+																													pos:        position{line: 2863, col: 10, offset: 90616},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37542,28 +37710,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2884, col: 8, offset: 90982},
+																											pos: position{line: 2885, col: 8, offset: 91014},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2871, col: 12, offset: 90755},
-																													run: (*parser).callonListContinuationElement1823,
+																													pos: position{line: 2872, col: 12, offset: 90787},
+																													run: (*parser).callonListContinuationElement1835,
 																													expr: &choiceExpr{
-																														pos: position{line: 2871, col: 13, offset: 90756},
+																														pos: position{line: 2872, col: 13, offset: 90788},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2871, col: 13, offset: 90756},
+																																pos:        position{line: 2872, col: 13, offset: 90788},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2871, col: 20, offset: 90763},
+																																pos:        position{line: 2872, col: 20, offset: 90795},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2871, col: 29, offset: 90772},
+																																pos:        position{line: 2872, col: 29, offset: 90804},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37572,9 +37740,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2881, col: 8, offset: 90932},
+																													pos: position{line: 2882, col: 8, offset: 90964},
 																													expr: &anyMatcher{
-																														line: 2881, col: 9, offset: 90933,
+																														line: 2882, col: 9, offset: 90965,
 																													},
 																												},
 																											},
@@ -37584,7 +37752,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 783, col: 5, offset: 25165},
-																								run: (*parser).callonListContinuationElement1830,
+																								run: (*parser).callonListContinuationElement1842,
 																								expr: &seqExpr{
 																									pos: position{line: 783, col: 5, offset: 25165},
 																									exprs: []interface{}{
@@ -37593,7 +37761,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 783, col: 16, offset: 25176},
-																												run: (*parser).callonListContinuationElement1833,
+																												run: (*parser).callonListContinuationElement1845,
 																												expr: &seqExpr{
 																													pos: position{line: 783, col: 16, offset: 25176},
 																													exprs: []interface{}{
@@ -37619,10 +37787,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 785, col: 8, offset: 25267},
 																											expr: &actionExpr{
-																												pos: position{line: 2862, col: 10, offset: 90584},
-																												run: (*parser).callonListContinuationElement1839,
+																												pos: position{line: 2863, col: 10, offset: 90616},
+																												run: (*parser).callonListContinuationElement1851,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2862, col: 10, offset: 90584},
+																													pos:        position{line: 2863, col: 10, offset: 90616},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37631,28 +37799,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2884, col: 8, offset: 90982},
+																											pos: position{line: 2885, col: 8, offset: 91014},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2871, col: 12, offset: 90755},
-																													run: (*parser).callonListContinuationElement1842,
+																													pos: position{line: 2872, col: 12, offset: 90787},
+																													run: (*parser).callonListContinuationElement1854,
 																													expr: &choiceExpr{
-																														pos: position{line: 2871, col: 13, offset: 90756},
+																														pos: position{line: 2872, col: 13, offset: 90788},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2871, col: 13, offset: 90756},
+																																pos:        position{line: 2872, col: 13, offset: 90788},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2871, col: 20, offset: 90763},
+																																pos:        position{line: 2872, col: 20, offset: 90795},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2871, col: 29, offset: 90772},
+																																pos:        position{line: 2872, col: 29, offset: 90804},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37661,9 +37829,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2881, col: 8, offset: 90932},
+																													pos: position{line: 2882, col: 8, offset: 90964},
 																													expr: &anyMatcher{
-																														line: 2881, col: 9, offset: 90933,
+																														line: 2882, col: 9, offset: 90965,
 																													},
 																												},
 																											},
@@ -37673,7 +37841,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 790, col: 5, offset: 25417},
-																								run: (*parser).callonListContinuationElement1849,
+																								run: (*parser).callonListContinuationElement1861,
 																								expr: &seqExpr{
 																									pos: position{line: 790, col: 5, offset: 25417},
 																									exprs: []interface{}{
@@ -37682,7 +37850,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 790, col: 16, offset: 25428},
-																												run: (*parser).callonListContinuationElement1852,
+																												run: (*parser).callonListContinuationElement1864,
 																												expr: &seqExpr{
 																													pos: position{line: 790, col: 16, offset: 25428},
 																													exprs: []interface{}{
@@ -37708,10 +37876,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 792, col: 8, offset: 25519},
 																											expr: &actionExpr{
-																												pos: position{line: 2862, col: 10, offset: 90584},
-																												run: (*parser).callonListContinuationElement1858,
+																												pos: position{line: 2863, col: 10, offset: 90616},
+																												run: (*parser).callonListContinuationElement1870,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2862, col: 10, offset: 90584},
+																													pos:        position{line: 2863, col: 10, offset: 90616},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37720,28 +37888,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2884, col: 8, offset: 90982},
+																											pos: position{line: 2885, col: 8, offset: 91014},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2871, col: 12, offset: 90755},
-																													run: (*parser).callonListContinuationElement1861,
+																													pos: position{line: 2872, col: 12, offset: 90787},
+																													run: (*parser).callonListContinuationElement1873,
 																													expr: &choiceExpr{
-																														pos: position{line: 2871, col: 13, offset: 90756},
+																														pos: position{line: 2872, col: 13, offset: 90788},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2871, col: 13, offset: 90756},
+																																pos:        position{line: 2872, col: 13, offset: 90788},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2871, col: 20, offset: 90763},
+																																pos:        position{line: 2872, col: 20, offset: 90795},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2871, col: 29, offset: 90772},
+																																pos:        position{line: 2872, col: 29, offset: 90804},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37750,9 +37918,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2881, col: 8, offset: 90932},
+																													pos: position{line: 2882, col: 8, offset: 90964},
 																													expr: &anyMatcher{
-																														line: 2881, col: 9, offset: 90933,
+																														line: 2882, col: 9, offset: 90965,
 																													},
 																												},
 																											},
@@ -37762,7 +37930,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 797, col: 5, offset: 25667},
-																								run: (*parser).callonListContinuationElement1868,
+																								run: (*parser).callonListContinuationElement1880,
 																								expr: &seqExpr{
 																									pos: position{line: 797, col: 5, offset: 25667},
 																									exprs: []interface{}{
@@ -37771,7 +37939,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 797, col: 16, offset: 25678},
-																												run: (*parser).callonListContinuationElement1871,
+																												run: (*parser).callonListContinuationElement1883,
 																												expr: &seqExpr{
 																													pos: position{line: 797, col: 16, offset: 25678},
 																													exprs: []interface{}{
@@ -37797,10 +37965,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 799, col: 8, offset: 25769},
 																											expr: &actionExpr{
-																												pos: position{line: 2862, col: 10, offset: 90584},
-																												run: (*parser).callonListContinuationElement1877,
+																												pos: position{line: 2863, col: 10, offset: 90616},
+																												run: (*parser).callonListContinuationElement1889,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2862, col: 10, offset: 90584},
+																													pos:        position{line: 2863, col: 10, offset: 90616},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37809,28 +37977,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2884, col: 8, offset: 90982},
+																											pos: position{line: 2885, col: 8, offset: 91014},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2871, col: 12, offset: 90755},
-																													run: (*parser).callonListContinuationElement1880,
+																													pos: position{line: 2872, col: 12, offset: 90787},
+																													run: (*parser).callonListContinuationElement1892,
 																													expr: &choiceExpr{
-																														pos: position{line: 2871, col: 13, offset: 90756},
+																														pos: position{line: 2872, col: 13, offset: 90788},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2871, col: 13, offset: 90756},
+																																pos:        position{line: 2872, col: 13, offset: 90788},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2871, col: 20, offset: 90763},
+																																pos:        position{line: 2872, col: 20, offset: 90795},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2871, col: 29, offset: 90772},
+																																pos:        position{line: 2872, col: 29, offset: 90804},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37839,9 +38007,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2881, col: 8, offset: 90932},
+																													pos: position{line: 2882, col: 8, offset: 90964},
 																													expr: &anyMatcher{
-																														line: 2881, col: 9, offset: 90933,
+																														line: 2882, col: 9, offset: 90965,
 																													},
 																												},
 																											},
@@ -37851,7 +38019,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 804, col: 5, offset: 25913},
-																								run: (*parser).callonListContinuationElement1887,
+																								run: (*parser).callonListContinuationElement1899,
 																								expr: &seqExpr{
 																									pos: position{line: 804, col: 5, offset: 25913},
 																									exprs: []interface{}{
@@ -37860,7 +38028,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 804, col: 16, offset: 25924},
-																												run: (*parser).callonListContinuationElement1890,
+																												run: (*parser).callonListContinuationElement1902,
 																												expr: &seqExpr{
 																													pos: position{line: 804, col: 16, offset: 25924},
 																													exprs: []interface{}{
@@ -37886,10 +38054,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 806, col: 8, offset: 26015},
 																											expr: &actionExpr{
-																												pos: position{line: 2862, col: 10, offset: 90584},
-																												run: (*parser).callonListContinuationElement1896,
+																												pos: position{line: 2863, col: 10, offset: 90616},
+																												run: (*parser).callonListContinuationElement1908,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2862, col: 10, offset: 90584},
+																													pos:        position{line: 2863, col: 10, offset: 90616},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37898,28 +38066,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2884, col: 8, offset: 90982},
+																											pos: position{line: 2885, col: 8, offset: 91014},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2871, col: 12, offset: 90755},
-																													run: (*parser).callonListContinuationElement1899,
+																													pos: position{line: 2872, col: 12, offset: 90787},
+																													run: (*parser).callonListContinuationElement1911,
 																													expr: &choiceExpr{
-																														pos: position{line: 2871, col: 13, offset: 90756},
+																														pos: position{line: 2872, col: 13, offset: 90788},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2871, col: 13, offset: 90756},
+																																pos:        position{line: 2872, col: 13, offset: 90788},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2871, col: 20, offset: 90763},
+																																pos:        position{line: 2872, col: 20, offset: 90795},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2871, col: 29, offset: 90772},
+																																pos:        position{line: 2872, col: 29, offset: 90804},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37928,9 +38096,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2881, col: 8, offset: 90932},
+																													pos: position{line: 2882, col: 8, offset: 90964},
 																													expr: &anyMatcher{
-																														line: 2881, col: 9, offset: 90933,
+																														line: 2882, col: 9, offset: 90965,
 																													},
 																												},
 																											},
@@ -37949,12 +38117,12 @@ var g = &grammar{
 																	pos:   position{line: 1512, col: 5, offset: 49149},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2812, col: 14, offset: 89177},
-																		run: (*parser).callonListContinuationElement1907,
+																		pos: position{line: 2813, col: 14, offset: 89209},
+																		run: (*parser).callonListContinuationElement1919,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2812, col: 14, offset: 89177},
+																			pos: position{line: 2813, col: 14, offset: 89209},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2812, col: 14, offset: 89177},
+																				pos:        position{line: 2813, col: 14, offset: 89209},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -37964,28 +38132,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2884, col: 8, offset: 90982},
+																	pos: position{line: 2885, col: 8, offset: 91014},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2871, col: 12, offset: 90755},
-																			run: (*parser).callonListContinuationElement1911,
+																			pos: position{line: 2872, col: 12, offset: 90787},
+																			run: (*parser).callonListContinuationElement1923,
 																			expr: &choiceExpr{
-																				pos: position{line: 2871, col: 13, offset: 90756},
+																				pos: position{line: 2872, col: 13, offset: 90788},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 13, offset: 90756},
+																						pos:        position{line: 2872, col: 13, offset: 90788},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 20, offset: 90763},
+																						pos:        position{line: 2872, col: 20, offset: 90795},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 29, offset: 90772},
+																						pos:        position{line: 2872, col: 29, offset: 90804},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -37994,9 +38162,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2881, col: 8, offset: 90932},
+																			pos: position{line: 2882, col: 8, offset: 90964},
 																			expr: &anyMatcher{
-																				line: 2881, col: 9, offset: 90933,
+																				line: 2882, col: 9, offset: 90965,
 																			},
 																		},
 																	},
@@ -38017,33 +38185,33 @@ var g = &grammar{
 		},
 		{
 			name: "Callout",
-			pos:  position{line: 1700, col: 1, offset: 54989},
+			pos:  position{line: 1701, col: 1, offset: 55021},
 			expr: &actionExpr{
-				pos: position{line: 1702, col: 5, offset: 55067},
+				pos: position{line: 1703, col: 5, offset: 55099},
 				run: (*parser).callonCallout1,
 				expr: &seqExpr{
-					pos: position{line: 1702, col: 5, offset: 55067},
+					pos: position{line: 1703, col: 5, offset: 55099},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1702, col: 5, offset: 55067},
+							pos: position{line: 1703, col: 5, offset: 55099},
 							run: (*parser).callonCallout3,
 						},
 						&litMatcher{
-							pos:        position{line: 1705, col: 5, offset: 55134},
+							pos:        position{line: 1706, col: 5, offset: 55166},
 							val:        "<",
 							ignoreCase: false,
 							want:       "\"<\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1705, col: 9, offset: 55138},
+							pos:   position{line: 1706, col: 9, offset: 55170},
 							label: "ref",
 							expr: &actionExpr{
-								pos: position{line: 1705, col: 14, offset: 55143},
+								pos: position{line: 1706, col: 14, offset: 55175},
 								run: (*parser).callonCallout6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1705, col: 14, offset: 55143},
+									pos: position{line: 1706, col: 14, offset: 55175},
 									expr: &charClassMatcher{
-										pos:        position{line: 1705, col: 14, offset: 55143},
+										pos:        position{line: 1706, col: 14, offset: 55175},
 										val:        "[0-9]",
 										ranges:     []rune{'0', '9'},
 										ignoreCase: false,
@@ -38053,18 +38221,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1705, col: 62, offset: 55191},
+							pos:        position{line: 1706, col: 62, offset: 55223},
 							val:        ">",
 							ignoreCase: false,
 							want:       "\">\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1705, col: 66, offset: 55195},
+							pos: position{line: 1706, col: 66, offset: 55227},
 							expr: &actionExpr{
-								pos: position{line: 2862, col: 10, offset: 90584},
+								pos: position{line: 2863, col: 10, offset: 90616},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2862, col: 10, offset: 90584},
+									pos:        position{line: 2863, col: 10, offset: 90616},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -38073,30 +38241,30 @@ var g = &grammar{
 							},
 						},
 						&andExpr{
-							pos: position{line: 1705, col: 73, offset: 55202},
+							pos: position{line: 1706, col: 73, offset: 55234},
 							expr: &choiceExpr{
-								pos: position{line: 1705, col: 75, offset: 55204},
+								pos: position{line: 1706, col: 75, offset: 55236},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2871, col: 12, offset: 90755},
+										pos: position{line: 2872, col: 12, offset: 90787},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2871, col: 13, offset: 90756},
+											pos: position{line: 2872, col: 13, offset: 90788},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2871, col: 13, offset: 90756},
+													pos:        position{line: 2872, col: 13, offset: 90788},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2871, col: 20, offset: 90763},
+													pos:        position{line: 2872, col: 20, offset: 90795},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2871, col: 29, offset: 90772},
+													pos:        position{line: 2872, col: 29, offset: 90804},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -38105,13 +38273,13 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2881, col: 8, offset: 90932},
+										pos: position{line: 2882, col: 8, offset: 90964},
 										expr: &anyMatcher{
-											line: 2881, col: 9, offset: 90933,
+											line: 2882, col: 9, offset: 90965,
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1705, col: 81, offset: 55210},
+										pos:  position{line: 1706, col: 81, offset: 55242},
 										name: "Callout",
 									},
 								},
@@ -38123,44 +38291,44 @@ var g = &grammar{
 		},
 		{
 			name: "ShortcutParagraph",
-			pos:  position{line: 1744, col: 1, offset: 56387},
+			pos:  position{line: 1745, col: 1, offset: 56419},
 			expr: &actionExpr{
-				pos: position{line: 1746, col: 5, offset: 56461},
+				pos: position{line: 1747, col: 5, offset: 56493},
 				run: (*parser).callonShortcutParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1746, col: 5, offset: 56461},
+					pos: position{line: 1747, col: 5, offset: 56493},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 1746, col: 5, offset: 56461},
+							pos: position{line: 1747, col: 5, offset: 56493},
 							expr: &seqExpr{
-								pos: position{line: 1746, col: 7, offset: 56463},
+								pos: position{line: 1747, col: 7, offset: 56495},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2752, col: 13, offset: 87679},
+										pos:        position{line: 2753, col: 13, offset: 87711},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
 										inverted:   false,
 									},
 									&notExpr{
-										pos: position{line: 1746, col: 16, offset: 56472},
+										pos: position{line: 1747, col: 16, offset: 56504},
 										expr: &seqExpr{
-											pos: position{line: 1746, col: 18, offset: 56474},
+											pos: position{line: 1747, col: 18, offset: 56506},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 1746, col: 19, offset: 56475},
+													pos:        position{line: 1747, col: 19, offset: 56507},
 													val:        "[.)]",
 													chars:      []rune{'.', ')'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2866, col: 11, offset: 90645},
+													pos: position{line: 2867, col: 11, offset: 90677},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2866, col: 11, offset: 90645},
+														pos: position{line: 2867, col: 11, offset: 90677},
 														expr: &charClassMatcher{
-															pos:        position{line: 2866, col: 11, offset: 90645},
+															pos:        position{line: 2867, col: 11, offset: 90677},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -38175,88 +38343,88 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1747, col: 5, offset: 56615},
+							pos:   position{line: 1748, col: 5, offset: 56647},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1747, col: 11, offset: 56621},
+								pos: position{line: 1748, col: 11, offset: 56653},
 								expr: &actionExpr{
-									pos: position{line: 1725, col: 5, offset: 55880},
+									pos: position{line: 1726, col: 5, offset: 55912},
 									run: (*parser).callonShortcutParagraph14,
 									expr: &seqExpr{
-										pos: position{line: 1725, col: 5, offset: 55880},
+										pos: position{line: 1726, col: 5, offset: 55912},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1725, col: 5, offset: 55880},
+												pos: position{line: 1726, col: 5, offset: 55912},
 												run: (*parser).callonShortcutParagraph16,
 											},
 											&labeledExpr{
-												pos:   position{line: 1728, col: 5, offset: 55943},
+												pos:   position{line: 1729, col: 5, offset: 55975},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1728, col: 12, offset: 55950},
+													pos: position{line: 1729, col: 12, offset: 55982},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1728, col: 12, offset: 55950},
+															pos: position{line: 1729, col: 12, offset: 55982},
 															run: (*parser).callonShortcutParagraph19,
 															expr: &litMatcher{
-																pos:        position{line: 1728, col: 12, offset: 55950},
+																pos:        position{line: 1729, col: 12, offset: 55982},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1730, col: 13, offset: 56006},
+															pos: position{line: 1731, col: 13, offset: 56038},
 															run: (*parser).callonShortcutParagraph21,
 															expr: &litMatcher{
-																pos:        position{line: 1730, col: 13, offset: 56006},
+																pos:        position{line: 1731, col: 13, offset: 56038},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1732, col: 13, offset: 56064},
+															pos: position{line: 1733, col: 13, offset: 56096},
 															run: (*parser).callonShortcutParagraph23,
 															expr: &litMatcher{
-																pos:        position{line: 1732, col: 13, offset: 56064},
+																pos:        position{line: 1733, col: 13, offset: 56096},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1734, col: 13, offset: 56132},
+															pos: position{line: 1735, col: 13, offset: 56164},
 															run: (*parser).callonShortcutParagraph25,
 															expr: &litMatcher{
-																pos:        position{line: 1734, col: 13, offset: 56132},
+																pos:        position{line: 1735, col: 13, offset: 56164},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1736, col: 13, offset: 56196},
+															pos: position{line: 1737, col: 13, offset: 56228},
 															run: (*parser).callonShortcutParagraph27,
 															expr: &litMatcher{
-																pos:        position{line: 1736, col: 13, offset: 56196},
+																pos:        position{line: 1737, col: 13, offset: 56228},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1738, col: 13, offset: 56260},
+															pos: position{line: 1739, col: 13, offset: 56292},
 															run: (*parser).callonShortcutParagraph29,
 															expr: &andExpr{
-																pos: position{line: 1738, col: 13, offset: 56260},
+																pos: position{line: 1739, col: 13, offset: 56292},
 																expr: &actionExpr{
-																	pos: position{line: 2866, col: 11, offset: 90645},
+																	pos: position{line: 2867, col: 11, offset: 90677},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2866, col: 11, offset: 90645},
+																		pos: position{line: 2867, col: 11, offset: 90677},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2866, col: 11, offset: 90645},
+																			pos:        position{line: 2867, col: 11, offset: 90677},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -38270,17 +38438,17 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1740, col: 12, offset: 56330},
+												pos: position{line: 1741, col: 12, offset: 56362},
 												expr: &seqExpr{
-													pos: position{line: 1740, col: 14, offset: 56332},
+													pos: position{line: 1741, col: 14, offset: 56364},
 													exprs: []interface{}{
 														&zeroOrMoreExpr{
-															pos: position{line: 1740, col: 14, offset: 56332},
+															pos: position{line: 1741, col: 14, offset: 56364},
 															expr: &actionExpr{
-																pos: position{line: 2862, col: 10, offset: 90584},
+																pos: position{line: 2863, col: 10, offset: 90616},
 																run: (*parser).callonShortcutParagraph37,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2862, col: 10, offset: 90584},
+																	pos:        position{line: 2863, col: 10, offset: 90616},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -38289,28 +38457,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2884, col: 8, offset: 90982},
+															pos: position{line: 2885, col: 8, offset: 91014},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2871, col: 12, offset: 90755},
+																	pos: position{line: 2872, col: 12, offset: 90787},
 																	run: (*parser).callonShortcutParagraph40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2871, col: 13, offset: 90756},
+																		pos: position{line: 2872, col: 13, offset: 90788},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2871, col: 13, offset: 90756},
+																				pos:        position{line: 2872, col: 13, offset: 90788},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2871, col: 20, offset: 90763},
+																				pos:        position{line: 2872, col: 20, offset: 90795},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2871, col: 29, offset: 90772},
+																				pos:        position{line: 2872, col: 29, offset: 90804},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -38319,9 +38487,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2881, col: 8, offset: 90932},
+																	pos: position{line: 2882, col: 8, offset: 90964},
 																	expr: &anyMatcher{
-																		line: 2881, col: 9, offset: 90933,
+																		line: 2882, col: 9, offset: 90965,
 																	},
 																},
 															},
@@ -38335,24 +38503,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1748, col: 5, offset: 56643},
+							pos:   position{line: 1749, col: 5, offset: 56675},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1784, col: 5, offset: 57750},
+								pos: position{line: 1785, col: 5, offset: 57782},
 								run: (*parser).callonShortcutParagraph48,
 								expr: &seqExpr{
-									pos: position{line: 1784, col: 5, offset: 57750},
+									pos: position{line: 1785, col: 5, offset: 57782},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1784, col: 5, offset: 57750},
+											pos:   position{line: 1785, col: 5, offset: 57782},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2812, col: 14, offset: 89177},
+												pos: position{line: 2813, col: 14, offset: 89209},
 												run: (*parser).callonShortcutParagraph51,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2812, col: 14, offset: 89177},
+													pos: position{line: 2813, col: 14, offset: 89209},
 													expr: &charClassMatcher{
-														pos:        position{line: 2812, col: 14, offset: 89177},
+														pos:        position{line: 2813, col: 14, offset: 89209},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -38362,32 +38530,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1785, col: 5, offset: 57774},
+											pos: position{line: 1786, col: 5, offset: 57806},
 											run: (*parser).callonShortcutParagraph54,
 										},
 										&choiceExpr{
-											pos: position{line: 2884, col: 8, offset: 90982},
+											pos: position{line: 2885, col: 8, offset: 91014},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2871, col: 12, offset: 90755},
+													pos: position{line: 2872, col: 12, offset: 90787},
 													run: (*parser).callonShortcutParagraph56,
 													expr: &choiceExpr{
-														pos: position{line: 2871, col: 13, offset: 90756},
+														pos: position{line: 2872, col: 13, offset: 90788},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2871, col: 13, offset: 90756},
+																pos:        position{line: 2872, col: 13, offset: 90788},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2871, col: 20, offset: 90763},
+																pos:        position{line: 2872, col: 20, offset: 90795},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2871, col: 29, offset: 90772},
+																pos:        position{line: 2872, col: 29, offset: 90804},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -38396,9 +38564,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2881, col: 8, offset: 90932},
+													pos: position{line: 2882, col: 8, offset: 90964},
 													expr: &anyMatcher{
-														line: 2881, col: 9, offset: 90933,
+														line: 2882, col: 9, offset: 90965,
 													},
 												},
 											},
@@ -38408,28 +38576,28 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1749, col: 5, offset: 56677},
+							pos: position{line: 1750, col: 5, offset: 56709},
 							run: (*parser).callonShortcutParagraph63,
 						},
 						&labeledExpr{
-							pos:   position{line: 1756, col: 5, offset: 57007},
+							pos:   position{line: 1757, col: 5, offset: 57039},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1756, col: 16, offset: 57018},
+								pos: position{line: 1757, col: 16, offset: 57050},
 								expr: &actionExpr{
-									pos: position{line: 1757, col: 9, offset: 57028},
+									pos: position{line: 1758, col: 9, offset: 57060},
 									run: (*parser).callonShortcutParagraph66,
 									expr: &seqExpr{
-										pos: position{line: 1757, col: 9, offset: 57028},
+										pos: position{line: 1758, col: 9, offset: 57060},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2879, col: 11, offset: 90918},
+												pos: position{line: 2880, col: 11, offset: 90950},
 												expr: &anyMatcher{
-													line: 2879, col: 13, offset: 90920,
+													line: 2880, col: 13, offset: 90952,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1758, col: 9, offset: 57044},
+												pos: position{line: 1759, col: 9, offset: 57076},
 												expr: &actionExpr{
 													pos: position{line: 677, col: 14, offset: 21557},
 													run: (*parser).callonShortcutParagraph71,
@@ -38437,18 +38605,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21557},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2879, col: 11, offset: 90918},
+																pos: position{line: 2880, col: 11, offset: 90950},
 																expr: &anyMatcher{
-																	line: 2879, col: 13, offset: 90920,
+																	line: 2880, col: 13, offset: 90952,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21564},
 																expr: &actionExpr{
-																	pos: position{line: 2862, col: 10, offset: 90584},
+																	pos: position{line: 2863, col: 10, offset: 90616},
 																	run: (*parser).callonShortcutParagraph76,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2862, col: 10, offset: 90584},
+																		pos:        position{line: 2863, col: 10, offset: 90616},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -38457,28 +38625,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2884, col: 8, offset: 90982},
+																pos: position{line: 2885, col: 8, offset: 91014},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2871, col: 12, offset: 90755},
+																		pos: position{line: 2872, col: 12, offset: 90787},
 																		run: (*parser).callonShortcutParagraph79,
 																		expr: &choiceExpr{
-																			pos: position{line: 2871, col: 13, offset: 90756},
+																			pos: position{line: 2872, col: 13, offset: 90788},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2871, col: 13, offset: 90756},
+																					pos:        position{line: 2872, col: 13, offset: 90788},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2871, col: 20, offset: 90763},
+																					pos:        position{line: 2872, col: 20, offset: 90795},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2871, col: 29, offset: 90772},
+																					pos:        position{line: 2872, col: 29, offset: 90804},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -38487,9 +38655,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2881, col: 8, offset: 90932},
+																		pos: position{line: 2882, col: 8, offset: 90964},
 																		expr: &anyMatcher{
-																			line: 2881, col: 9, offset: 90933,
+																			line: 2882, col: 9, offset: 90965,
 																		},
 																	},
 																},
@@ -38499,14 +38667,14 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1759, col: 9, offset: 57063},
+												pos: position{line: 1760, col: 9, offset: 57095},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1759, col: 10, offset: 57064},
+													pos:  position{line: 1760, col: 10, offset: 57096},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1760, col: 9, offset: 57088},
+												pos: position{line: 1761, col: 9, offset: 57120},
 												expr: &actionExpr{
 													pos: position{line: 724, col: 5, offset: 23110},
 													run: (*parser).callonShortcutParagraph89,
@@ -38516,7 +38684,7 @@ var g = &grammar{
 															&notExpr{
 																pos: position{line: 724, col: 5, offset: 23110},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2752, col: 13, offset: 87679},
+																	pos:        position{line: 2753, col: 13, offset: 87711},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -38566,10 +38734,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 742, col: 8, offset: 23754},
 																						expr: &actionExpr{
-																							pos: position{line: 2862, col: 10, offset: 90584},
+																							pos: position{line: 2863, col: 10, offset: 90616},
 																							run: (*parser).callonShortcutParagraph104,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2862, col: 10, offset: 90584},
+																								pos:        position{line: 2863, col: 10, offset: 90616},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38578,28 +38746,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2884, col: 8, offset: 90982},
+																						pos: position{line: 2885, col: 8, offset: 91014},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2871, col: 12, offset: 90755},
+																								pos: position{line: 2872, col: 12, offset: 90787},
 																								run: (*parser).callonShortcutParagraph107,
 																								expr: &choiceExpr{
-																									pos: position{line: 2871, col: 13, offset: 90756},
+																									pos: position{line: 2872, col: 13, offset: 90788},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 13, offset: 90756},
+																											pos:        position{line: 2872, col: 13, offset: 90788},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 20, offset: 90763},
+																											pos:        position{line: 2872, col: 20, offset: 90795},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 29, offset: 90772},
+																											pos:        position{line: 2872, col: 29, offset: 90804},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38608,9 +38776,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2881, col: 8, offset: 90932},
+																								pos: position{line: 2882, col: 8, offset: 90964},
 																								expr: &anyMatcher{
-																									line: 2881, col: 9, offset: 90933,
+																									line: 2882, col: 9, offset: 90965,
 																								},
 																							},
 																						},
@@ -38655,10 +38823,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 749, col: 8, offset: 24002},
 																						expr: &actionExpr{
-																							pos: position{line: 2862, col: 10, offset: 90584},
+																							pos: position{line: 2863, col: 10, offset: 90616},
 																							run: (*parser).callonShortcutParagraph123,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2862, col: 10, offset: 90584},
+																								pos:        position{line: 2863, col: 10, offset: 90616},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38667,28 +38835,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2884, col: 8, offset: 90982},
+																						pos: position{line: 2885, col: 8, offset: 91014},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2871, col: 12, offset: 90755},
+																								pos: position{line: 2872, col: 12, offset: 90787},
 																								run: (*parser).callonShortcutParagraph126,
 																								expr: &choiceExpr{
-																									pos: position{line: 2871, col: 13, offset: 90756},
+																									pos: position{line: 2872, col: 13, offset: 90788},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 13, offset: 90756},
+																											pos:        position{line: 2872, col: 13, offset: 90788},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 20, offset: 90763},
+																											pos:        position{line: 2872, col: 20, offset: 90795},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 29, offset: 90772},
+																											pos:        position{line: 2872, col: 29, offset: 90804},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38697,9 +38865,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2881, col: 8, offset: 90932},
+																								pos: position{line: 2882, col: 8, offset: 90964},
 																								expr: &anyMatcher{
-																									line: 2881, col: 9, offset: 90933,
+																									line: 2882, col: 9, offset: 90965,
 																								},
 																							},
 																						},
@@ -38740,10 +38908,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 760, col: 52, offset: 24414},
 																						expr: &actionExpr{
-																							pos: position{line: 2862, col: 10, offset: 90584},
+																							pos: position{line: 2863, col: 10, offset: 90616},
 																							run: (*parser).callonShortcutParagraph141,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2862, col: 10, offset: 90584},
+																								pos:        position{line: 2863, col: 10, offset: 90616},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38752,28 +38920,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2884, col: 8, offset: 90982},
+																						pos: position{line: 2885, col: 8, offset: 91014},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2871, col: 12, offset: 90755},
+																								pos: position{line: 2872, col: 12, offset: 90787},
 																								run: (*parser).callonShortcutParagraph144,
 																								expr: &choiceExpr{
-																									pos: position{line: 2871, col: 13, offset: 90756},
+																									pos: position{line: 2872, col: 13, offset: 90788},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 13, offset: 90756},
+																											pos:        position{line: 2872, col: 13, offset: 90788},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 20, offset: 90763},
+																											pos:        position{line: 2872, col: 20, offset: 90795},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 29, offset: 90772},
+																											pos:        position{line: 2872, col: 29, offset: 90804},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38782,9 +38950,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2881, col: 8, offset: 90932},
+																								pos: position{line: 2882, col: 8, offset: 90964},
 																								expr: &anyMatcher{
-																									line: 2881, col: 9, offset: 90933,
+																									line: 2882, col: 9, offset: 90965,
 																								},
 																							},
 																						},
@@ -38829,10 +38997,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 756, col: 8, offset: 24248},
 																						expr: &actionExpr{
-																							pos: position{line: 2862, col: 10, offset: 90584},
+																							pos: position{line: 2863, col: 10, offset: 90616},
 																							run: (*parser).callonShortcutParagraph160,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2862, col: 10, offset: 90584},
+																								pos:        position{line: 2863, col: 10, offset: 90616},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38841,28 +39009,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2884, col: 8, offset: 90982},
+																						pos: position{line: 2885, col: 8, offset: 91014},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2871, col: 12, offset: 90755},
+																								pos: position{line: 2872, col: 12, offset: 90787},
 																								run: (*parser).callonShortcutParagraph163,
 																								expr: &choiceExpr{
-																									pos: position{line: 2871, col: 13, offset: 90756},
+																									pos: position{line: 2872, col: 13, offset: 90788},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 13, offset: 90756},
+																											pos:        position{line: 2872, col: 13, offset: 90788},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 20, offset: 90763},
+																											pos:        position{line: 2872, col: 20, offset: 90795},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 29, offset: 90772},
+																											pos:        position{line: 2872, col: 29, offset: 90804},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38871,9 +39039,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2881, col: 8, offset: 90932},
+																								pos: position{line: 2882, col: 8, offset: 90964},
 																								expr: &anyMatcher{
-																									line: 2881, col: 9, offset: 90933,
+																									line: 2882, col: 9, offset: 90965,
 																								},
 																							},
 																						},
@@ -38918,10 +39086,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 771, col: 8, offset: 24791},
 																						expr: &actionExpr{
-																							pos: position{line: 2862, col: 10, offset: 90584},
+																							pos: position{line: 2863, col: 10, offset: 90616},
 																							run: (*parser).callonShortcutParagraph179,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2862, col: 10, offset: 90584},
+																								pos:        position{line: 2863, col: 10, offset: 90616},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38930,28 +39098,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2884, col: 8, offset: 90982},
+																						pos: position{line: 2885, col: 8, offset: 91014},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2871, col: 12, offset: 90755},
+																								pos: position{line: 2872, col: 12, offset: 90787},
 																								run: (*parser).callonShortcutParagraph182,
 																								expr: &choiceExpr{
-																									pos: position{line: 2871, col: 13, offset: 90756},
+																									pos: position{line: 2872, col: 13, offset: 90788},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 13, offset: 90756},
+																											pos:        position{line: 2872, col: 13, offset: 90788},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 20, offset: 90763},
+																											pos:        position{line: 2872, col: 20, offset: 90795},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 29, offset: 90772},
+																											pos:        position{line: 2872, col: 29, offset: 90804},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38960,9 +39128,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2881, col: 8, offset: 90932},
+																								pos: position{line: 2882, col: 8, offset: 90964},
 																								expr: &anyMatcher{
-																									line: 2881, col: 9, offset: 90933,
+																									line: 2882, col: 9, offset: 90965,
 																								},
 																							},
 																						},
@@ -39007,10 +39175,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 785, col: 8, offset: 25267},
 																						expr: &actionExpr{
-																							pos: position{line: 2862, col: 10, offset: 90584},
+																							pos: position{line: 2863, col: 10, offset: 90616},
 																							run: (*parser).callonShortcutParagraph198,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2862, col: 10, offset: 90584},
+																								pos:        position{line: 2863, col: 10, offset: 90616},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39019,28 +39187,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2884, col: 8, offset: 90982},
+																						pos: position{line: 2885, col: 8, offset: 91014},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2871, col: 12, offset: 90755},
+																								pos: position{line: 2872, col: 12, offset: 90787},
 																								run: (*parser).callonShortcutParagraph201,
 																								expr: &choiceExpr{
-																									pos: position{line: 2871, col: 13, offset: 90756},
+																									pos: position{line: 2872, col: 13, offset: 90788},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 13, offset: 90756},
+																											pos:        position{line: 2872, col: 13, offset: 90788},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 20, offset: 90763},
+																											pos:        position{line: 2872, col: 20, offset: 90795},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 29, offset: 90772},
+																											pos:        position{line: 2872, col: 29, offset: 90804},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39049,9 +39217,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2881, col: 8, offset: 90932},
+																								pos: position{line: 2882, col: 8, offset: 90964},
 																								expr: &anyMatcher{
-																									line: 2881, col: 9, offset: 90933,
+																									line: 2882, col: 9, offset: 90965,
 																								},
 																							},
 																						},
@@ -39096,10 +39264,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 792, col: 8, offset: 25519},
 																						expr: &actionExpr{
-																							pos: position{line: 2862, col: 10, offset: 90584},
+																							pos: position{line: 2863, col: 10, offset: 90616},
 																							run: (*parser).callonShortcutParagraph217,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2862, col: 10, offset: 90584},
+																								pos:        position{line: 2863, col: 10, offset: 90616},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39108,28 +39276,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2884, col: 8, offset: 90982},
+																						pos: position{line: 2885, col: 8, offset: 91014},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2871, col: 12, offset: 90755},
+																								pos: position{line: 2872, col: 12, offset: 90787},
 																								run: (*parser).callonShortcutParagraph220,
 																								expr: &choiceExpr{
-																									pos: position{line: 2871, col: 13, offset: 90756},
+																									pos: position{line: 2872, col: 13, offset: 90788},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 13, offset: 90756},
+																											pos:        position{line: 2872, col: 13, offset: 90788},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 20, offset: 90763},
+																											pos:        position{line: 2872, col: 20, offset: 90795},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 29, offset: 90772},
+																											pos:        position{line: 2872, col: 29, offset: 90804},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39138,9 +39306,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2881, col: 8, offset: 90932},
+																								pos: position{line: 2882, col: 8, offset: 90964},
 																								expr: &anyMatcher{
-																									line: 2881, col: 9, offset: 90933,
+																									line: 2882, col: 9, offset: 90965,
 																								},
 																							},
 																						},
@@ -39185,10 +39353,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 799, col: 8, offset: 25769},
 																						expr: &actionExpr{
-																							pos: position{line: 2862, col: 10, offset: 90584},
+																							pos: position{line: 2863, col: 10, offset: 90616},
 																							run: (*parser).callonShortcutParagraph236,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2862, col: 10, offset: 90584},
+																								pos:        position{line: 2863, col: 10, offset: 90616},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39197,28 +39365,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2884, col: 8, offset: 90982},
+																						pos: position{line: 2885, col: 8, offset: 91014},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2871, col: 12, offset: 90755},
+																								pos: position{line: 2872, col: 12, offset: 90787},
 																								run: (*parser).callonShortcutParagraph239,
 																								expr: &choiceExpr{
-																									pos: position{line: 2871, col: 13, offset: 90756},
+																									pos: position{line: 2872, col: 13, offset: 90788},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 13, offset: 90756},
+																											pos:        position{line: 2872, col: 13, offset: 90788},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 20, offset: 90763},
+																											pos:        position{line: 2872, col: 20, offset: 90795},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 29, offset: 90772},
+																											pos:        position{line: 2872, col: 29, offset: 90804},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39227,9 +39395,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2881, col: 8, offset: 90932},
+																								pos: position{line: 2882, col: 8, offset: 90964},
 																								expr: &anyMatcher{
-																									line: 2881, col: 9, offset: 90933,
+																									line: 2882, col: 9, offset: 90965,
 																								},
 																							},
 																						},
@@ -39274,10 +39442,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 806, col: 8, offset: 26015},
 																						expr: &actionExpr{
-																							pos: position{line: 2862, col: 10, offset: 90584},
+																							pos: position{line: 2863, col: 10, offset: 90616},
 																							run: (*parser).callonShortcutParagraph255,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2862, col: 10, offset: 90584},
+																								pos:        position{line: 2863, col: 10, offset: 90616},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39286,28 +39454,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2884, col: 8, offset: 90982},
+																						pos: position{line: 2885, col: 8, offset: 91014},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2871, col: 12, offset: 90755},
+																								pos: position{line: 2872, col: 12, offset: 90787},
 																								run: (*parser).callonShortcutParagraph258,
 																								expr: &choiceExpr{
-																									pos: position{line: 2871, col: 13, offset: 90756},
+																									pos: position{line: 2872, col: 13, offset: 90788},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 13, offset: 90756},
+																											pos:        position{line: 2872, col: 13, offset: 90788},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 20, offset: 90763},
+																											pos:        position{line: 2872, col: 20, offset: 90795},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2871, col: 29, offset: 90772},
+																											pos:        position{line: 2872, col: 29, offset: 90804},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39316,9 +39484,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2881, col: 8, offset: 90932},
+																								pos: position{line: 2882, col: 8, offset: 90964},
 																								expr: &anyMatcher{
-																									line: 2881, col: 9, offset: 90933,
+																									line: 2882, col: 9, offset: 90965,
 																								},
 																							},
 																						},
@@ -39334,7 +39502,7 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1761, col: 9, offset: 57112},
+												pos: position{line: 1762, col: 9, offset: 57144},
 												expr: &seqExpr{
 													pos: position{line: 1536, col: 27, offset: 49777},
 													exprs: []interface{}{
@@ -39347,10 +39515,10 @@ var g = &grammar{
 														&zeroOrMoreExpr{
 															pos: position{line: 1536, col: 31, offset: 49781},
 															expr: &actionExpr{
-																pos: position{line: 2862, col: 10, offset: 90584},
+																pos: position{line: 2863, col: 10, offset: 90616},
 																run: (*parser).callonShortcutParagraph269,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2862, col: 10, offset: 90584},
+																	pos:        position{line: 2863, col: 10, offset: 90616},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -39359,25 +39527,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2871, col: 12, offset: 90755},
+															pos: position{line: 2872, col: 12, offset: 90787},
 															run: (*parser).callonShortcutParagraph271,
 															expr: &choiceExpr{
-																pos: position{line: 2871, col: 13, offset: 90756},
+																pos: position{line: 2872, col: 13, offset: 90788},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2871, col: 13, offset: 90756},
+																		pos:        position{line: 2872, col: 13, offset: 90788},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2871, col: 20, offset: 90763},
+																		pos:        position{line: 2872, col: 20, offset: 90795},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2871, col: 29, offset: 90772},
+																		pos:        position{line: 2872, col: 29, offset: 90804},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -39389,42 +39557,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1762, col: 9, offset: 57144},
+												pos:   position{line: 1763, col: 9, offset: 57176},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1762, col: 15, offset: 57150},
+													pos: position{line: 1763, col: 15, offset: 57182},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2472, col: 22, offset: 79562},
+															pos: position{line: 2473, col: 22, offset: 79594},
 															run: (*parser).callonShortcutParagraph278,
 															expr: &seqExpr{
-																pos: position{line: 2472, col: 22, offset: 79562},
+																pos: position{line: 2473, col: 22, offset: 79594},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2477, col: 31, offset: 79783},
+																		pos:        position{line: 2478, col: 31, offset: 79815},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2477, col: 36, offset: 79788},
+																		pos: position{line: 2478, col: 36, offset: 79820},
 																		expr: &litMatcher{
-																			pos:        position{line: 2477, col: 37, offset: 79789},
+																			pos:        position{line: 2478, col: 37, offset: 79821},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2472, col: 49, offset: 79589},
+																		pos:   position{line: 2473, col: 49, offset: 79621},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2808, col: 13, offset: 89110},
+																			pos: position{line: 2809, col: 13, offset: 89142},
 																			run: (*parser).callonShortcutParagraph284,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2808, col: 13, offset: 89110},
+																				pos: position{line: 2809, col: 13, offset: 89142},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2808, col: 13, offset: 89110},
+																					pos:        position{line: 2809, col: 13, offset: 89142},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39434,28 +39602,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2884, col: 8, offset: 90982},
+																		pos: position{line: 2885, col: 8, offset: 91014},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2871, col: 12, offset: 90755},
+																				pos: position{line: 2872, col: 12, offset: 90787},
 																				run: (*parser).callonShortcutParagraph288,
 																				expr: &choiceExpr{
-																					pos: position{line: 2871, col: 13, offset: 90756},
+																					pos: position{line: 2872, col: 13, offset: 90788},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 13, offset: 90756},
+																							pos:        position{line: 2872, col: 13, offset: 90788},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 20, offset: 90763},
+																							pos:        position{line: 2872, col: 20, offset: 90795},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 29, offset: 90772},
+																							pos:        position{line: 2872, col: 29, offset: 90804},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39464,9 +39632,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2881, col: 8, offset: 90932},
+																				pos: position{line: 2882, col: 8, offset: 90964},
 																				expr: &anyMatcher{
-																					line: 2881, col: 9, offset: 90933,
+																					line: 2882, col: 9, offset: 90965,
 																				},
 																			},
 																		},
@@ -39475,21 +39643,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1784, col: 5, offset: 57750},
+															pos: position{line: 1785, col: 5, offset: 57782},
 															run: (*parser).callonShortcutParagraph295,
 															expr: &seqExpr{
-																pos: position{line: 1784, col: 5, offset: 57750},
+																pos: position{line: 1785, col: 5, offset: 57782},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1784, col: 5, offset: 57750},
+																		pos:   position{line: 1785, col: 5, offset: 57782},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2812, col: 14, offset: 89177},
+																			pos: position{line: 2813, col: 14, offset: 89209},
 																			run: (*parser).callonShortcutParagraph298,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2812, col: 14, offset: 89177},
+																				pos: position{line: 2813, col: 14, offset: 89209},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2812, col: 14, offset: 89177},
+																					pos:        position{line: 2813, col: 14, offset: 89209},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39499,32 +39667,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1785, col: 5, offset: 57774},
+																		pos: position{line: 1786, col: 5, offset: 57806},
 																		run: (*parser).callonShortcutParagraph301,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2884, col: 8, offset: 90982},
+																		pos: position{line: 2885, col: 8, offset: 91014},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2871, col: 12, offset: 90755},
+																				pos: position{line: 2872, col: 12, offset: 90787},
 																				run: (*parser).callonShortcutParagraph303,
 																				expr: &choiceExpr{
-																					pos: position{line: 2871, col: 13, offset: 90756},
+																					pos: position{line: 2872, col: 13, offset: 90788},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 13, offset: 90756},
+																							pos:        position{line: 2872, col: 13, offset: 90788},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 20, offset: 90763},
+																							pos:        position{line: 2872, col: 20, offset: 90795},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 29, offset: 90772},
+																							pos:        position{line: 2872, col: 29, offset: 90804},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39533,9 +39701,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2881, col: 8, offset: 90932},
+																				pos: position{line: 2882, col: 8, offset: 90964},
 																				expr: &anyMatcher{
-																					line: 2881, col: 9, offset: 90933,
+																					line: 2882, col: 9, offset: 90965,
 																				},
 																			},
 																		},
@@ -39557,96 +39725,96 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraph",
-			pos:  position{line: 1769, col: 1, offset: 57354},
+			pos:  position{line: 1770, col: 1, offset: 57386},
 			expr: &actionExpr{
-				pos: position{line: 1770, col: 5, offset: 57372},
+				pos: position{line: 1771, col: 5, offset: 57404},
 				run: (*parser).callonParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1770, col: 5, offset: 57372},
+					pos: position{line: 1771, col: 5, offset: 57404},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1770, col: 5, offset: 57372},
+							pos:   position{line: 1771, col: 5, offset: 57404},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1770, col: 11, offset: 57378},
+								pos: position{line: 1771, col: 11, offset: 57410},
 								expr: &actionExpr{
-									pos: position{line: 1725, col: 5, offset: 55880},
+									pos: position{line: 1726, col: 5, offset: 55912},
 									run: (*parser).callonParagraph5,
 									expr: &seqExpr{
-										pos: position{line: 1725, col: 5, offset: 55880},
+										pos: position{line: 1726, col: 5, offset: 55912},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1725, col: 5, offset: 55880},
+												pos: position{line: 1726, col: 5, offset: 55912},
 												run: (*parser).callonParagraph7,
 											},
 											&labeledExpr{
-												pos:   position{line: 1728, col: 5, offset: 55943},
+												pos:   position{line: 1729, col: 5, offset: 55975},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1728, col: 12, offset: 55950},
+													pos: position{line: 1729, col: 12, offset: 55982},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1728, col: 12, offset: 55950},
+															pos: position{line: 1729, col: 12, offset: 55982},
 															run: (*parser).callonParagraph10,
 															expr: &litMatcher{
-																pos:        position{line: 1728, col: 12, offset: 55950},
+																pos:        position{line: 1729, col: 12, offset: 55982},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1730, col: 13, offset: 56006},
+															pos: position{line: 1731, col: 13, offset: 56038},
 															run: (*parser).callonParagraph12,
 															expr: &litMatcher{
-																pos:        position{line: 1730, col: 13, offset: 56006},
+																pos:        position{line: 1731, col: 13, offset: 56038},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1732, col: 13, offset: 56064},
+															pos: position{line: 1733, col: 13, offset: 56096},
 															run: (*parser).callonParagraph14,
 															expr: &litMatcher{
-																pos:        position{line: 1732, col: 13, offset: 56064},
+																pos:        position{line: 1733, col: 13, offset: 56096},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1734, col: 13, offset: 56132},
+															pos: position{line: 1735, col: 13, offset: 56164},
 															run: (*parser).callonParagraph16,
 															expr: &litMatcher{
-																pos:        position{line: 1734, col: 13, offset: 56132},
+																pos:        position{line: 1735, col: 13, offset: 56164},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1736, col: 13, offset: 56196},
+															pos: position{line: 1737, col: 13, offset: 56228},
 															run: (*parser).callonParagraph18,
 															expr: &litMatcher{
-																pos:        position{line: 1736, col: 13, offset: 56196},
+																pos:        position{line: 1737, col: 13, offset: 56228},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1738, col: 13, offset: 56260},
+															pos: position{line: 1739, col: 13, offset: 56292},
 															run: (*parser).callonParagraph20,
 															expr: &andExpr{
-																pos: position{line: 1738, col: 13, offset: 56260},
+																pos: position{line: 1739, col: 13, offset: 56292},
 																expr: &actionExpr{
-																	pos: position{line: 2866, col: 11, offset: 90645},
+																	pos: position{line: 2867, col: 11, offset: 90677},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2866, col: 11, offset: 90645},
+																		pos: position{line: 2867, col: 11, offset: 90677},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2866, col: 11, offset: 90645},
+																			pos:        position{line: 2867, col: 11, offset: 90677},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -39660,17 +39828,17 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1740, col: 12, offset: 56330},
+												pos: position{line: 1741, col: 12, offset: 56362},
 												expr: &seqExpr{
-													pos: position{line: 1740, col: 14, offset: 56332},
+													pos: position{line: 1741, col: 14, offset: 56364},
 													exprs: []interface{}{
 														&zeroOrMoreExpr{
-															pos: position{line: 1740, col: 14, offset: 56332},
+															pos: position{line: 1741, col: 14, offset: 56364},
 															expr: &actionExpr{
-																pos: position{line: 2862, col: 10, offset: 90584},
+																pos: position{line: 2863, col: 10, offset: 90616},
 																run: (*parser).callonParagraph28,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2862, col: 10, offset: 90584},
+																	pos:        position{line: 2863, col: 10, offset: 90616},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -39679,28 +39847,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2884, col: 8, offset: 90982},
+															pos: position{line: 2885, col: 8, offset: 91014},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2871, col: 12, offset: 90755},
+																	pos: position{line: 2872, col: 12, offset: 90787},
 																	run: (*parser).callonParagraph31,
 																	expr: &choiceExpr{
-																		pos: position{line: 2871, col: 13, offset: 90756},
+																		pos: position{line: 2872, col: 13, offset: 90788},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2871, col: 13, offset: 90756},
+																				pos:        position{line: 2872, col: 13, offset: 90788},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2871, col: 20, offset: 90763},
+																				pos:        position{line: 2872, col: 20, offset: 90795},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2871, col: 29, offset: 90772},
+																				pos:        position{line: 2872, col: 29, offset: 90804},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -39709,9 +39877,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2881, col: 8, offset: 90932},
+																	pos: position{line: 2882, col: 8, offset: 90964},
 																	expr: &anyMatcher{
-																		line: 2881, col: 9, offset: 90933,
+																		line: 2882, col: 9, offset: 90965,
 																	},
 																},
 															},
@@ -39725,24 +39893,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1771, col: 5, offset: 57401},
+							pos:   position{line: 1772, col: 5, offset: 57433},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1784, col: 5, offset: 57750},
+								pos: position{line: 1785, col: 5, offset: 57782},
 								run: (*parser).callonParagraph39,
 								expr: &seqExpr{
-									pos: position{line: 1784, col: 5, offset: 57750},
+									pos: position{line: 1785, col: 5, offset: 57782},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1784, col: 5, offset: 57750},
+											pos:   position{line: 1785, col: 5, offset: 57782},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2812, col: 14, offset: 89177},
+												pos: position{line: 2813, col: 14, offset: 89209},
 												run: (*parser).callonParagraph42,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2812, col: 14, offset: 89177},
+													pos: position{line: 2813, col: 14, offset: 89209},
 													expr: &charClassMatcher{
-														pos:        position{line: 2812, col: 14, offset: 89177},
+														pos:        position{line: 2813, col: 14, offset: 89209},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -39752,32 +39920,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1785, col: 5, offset: 57774},
+											pos: position{line: 1786, col: 5, offset: 57806},
 											run: (*parser).callonParagraph45,
 										},
 										&choiceExpr{
-											pos: position{line: 2884, col: 8, offset: 90982},
+											pos: position{line: 2885, col: 8, offset: 91014},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2871, col: 12, offset: 90755},
+													pos: position{line: 2872, col: 12, offset: 90787},
 													run: (*parser).callonParagraph47,
 													expr: &choiceExpr{
-														pos: position{line: 2871, col: 13, offset: 90756},
+														pos: position{line: 2872, col: 13, offset: 90788},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2871, col: 13, offset: 90756},
+																pos:        position{line: 2872, col: 13, offset: 90788},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2871, col: 20, offset: 90763},
+																pos:        position{line: 2872, col: 20, offset: 90795},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2871, col: 29, offset: 90772},
+																pos:        position{line: 2872, col: 29, offset: 90804},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -39786,9 +39954,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2881, col: 8, offset: 90932},
+													pos: position{line: 2882, col: 8, offset: 90964},
 													expr: &anyMatcher{
-														line: 2881, col: 9, offset: 90933,
+														line: 2882, col: 9, offset: 90965,
 													},
 												},
 											},
@@ -39798,24 +39966,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1772, col: 5, offset: 57435},
+							pos:   position{line: 1773, col: 5, offset: 57467},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1772, col: 16, offset: 57446},
+								pos: position{line: 1773, col: 16, offset: 57478},
 								expr: &actionExpr{
-									pos: position{line: 1773, col: 9, offset: 57456},
+									pos: position{line: 1774, col: 9, offset: 57488},
 									run: (*parser).callonParagraph56,
 									expr: &seqExpr{
-										pos: position{line: 1773, col: 9, offset: 57456},
+										pos: position{line: 1774, col: 9, offset: 57488},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2879, col: 11, offset: 90918},
+												pos: position{line: 2880, col: 11, offset: 90950},
 												expr: &anyMatcher{
-													line: 2879, col: 13, offset: 90920,
+													line: 2880, col: 13, offset: 90952,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1774, col: 9, offset: 57471},
+												pos: position{line: 1775, col: 9, offset: 57503},
 												expr: &actionExpr{
 													pos: position{line: 677, col: 14, offset: 21557},
 													run: (*parser).callonParagraph61,
@@ -39823,18 +39991,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21557},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2879, col: 11, offset: 90918},
+																pos: position{line: 2880, col: 11, offset: 90950},
 																expr: &anyMatcher{
-																	line: 2879, col: 13, offset: 90920,
+																	line: 2880, col: 13, offset: 90952,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21564},
 																expr: &actionExpr{
-																	pos: position{line: 2862, col: 10, offset: 90584},
+																	pos: position{line: 2863, col: 10, offset: 90616},
 																	run: (*parser).callonParagraph66,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2862, col: 10, offset: 90584},
+																		pos:        position{line: 2863, col: 10, offset: 90616},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -39843,28 +40011,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2884, col: 8, offset: 90982},
+																pos: position{line: 2885, col: 8, offset: 91014},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2871, col: 12, offset: 90755},
+																		pos: position{line: 2872, col: 12, offset: 90787},
 																		run: (*parser).callonParagraph69,
 																		expr: &choiceExpr{
-																			pos: position{line: 2871, col: 13, offset: 90756},
+																			pos: position{line: 2872, col: 13, offset: 90788},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2871, col: 13, offset: 90756},
+																					pos:        position{line: 2872, col: 13, offset: 90788},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2871, col: 20, offset: 90763},
+																					pos:        position{line: 2872, col: 20, offset: 90795},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2871, col: 29, offset: 90772},
+																					pos:        position{line: 2872, col: 29, offset: 90804},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -39873,9 +40041,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2881, col: 8, offset: 90932},
+																		pos: position{line: 2882, col: 8, offset: 90964},
 																		expr: &anyMatcher{
-																			line: 2881, col: 9, offset: 90933,
+																			line: 2882, col: 9, offset: 90965,
 																		},
 																	},
 																},
@@ -39885,49 +40053,49 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1775, col: 9, offset: 57490},
+												pos: position{line: 1776, col: 9, offset: 57522},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1775, col: 10, offset: 57491},
+													pos:  position{line: 1776, col: 10, offset: 57523},
 													name: "BlockAttributes",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1776, col: 9, offset: 57515},
+												pos:   position{line: 1777, col: 9, offset: 57547},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1776, col: 15, offset: 57521},
+													pos: position{line: 1777, col: 15, offset: 57553},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2472, col: 22, offset: 79562},
+															pos: position{line: 2473, col: 22, offset: 79594},
 															run: (*parser).callonParagraph80,
 															expr: &seqExpr{
-																pos: position{line: 2472, col: 22, offset: 79562},
+																pos: position{line: 2473, col: 22, offset: 79594},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2477, col: 31, offset: 79783},
+																		pos:        position{line: 2478, col: 31, offset: 79815},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2477, col: 36, offset: 79788},
+																		pos: position{line: 2478, col: 36, offset: 79820},
 																		expr: &litMatcher{
-																			pos:        position{line: 2477, col: 37, offset: 79789},
+																			pos:        position{line: 2478, col: 37, offset: 79821},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2472, col: 49, offset: 79589},
+																		pos:   position{line: 2473, col: 49, offset: 79621},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2808, col: 13, offset: 89110},
+																			pos: position{line: 2809, col: 13, offset: 89142},
 																			run: (*parser).callonParagraph86,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2808, col: 13, offset: 89110},
+																				pos: position{line: 2809, col: 13, offset: 89142},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2808, col: 13, offset: 89110},
+																					pos:        position{line: 2809, col: 13, offset: 89142},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39937,28 +40105,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2884, col: 8, offset: 90982},
+																		pos: position{line: 2885, col: 8, offset: 91014},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2871, col: 12, offset: 90755},
+																				pos: position{line: 2872, col: 12, offset: 90787},
 																				run: (*parser).callonParagraph90,
 																				expr: &choiceExpr{
-																					pos: position{line: 2871, col: 13, offset: 90756},
+																					pos: position{line: 2872, col: 13, offset: 90788},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 13, offset: 90756},
+																							pos:        position{line: 2872, col: 13, offset: 90788},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 20, offset: 90763},
+																							pos:        position{line: 2872, col: 20, offset: 90795},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 29, offset: 90772},
+																							pos:        position{line: 2872, col: 29, offset: 90804},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39967,9 +40135,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2881, col: 8, offset: 90932},
+																				pos: position{line: 2882, col: 8, offset: 90964},
 																				expr: &anyMatcher{
-																					line: 2881, col: 9, offset: 90933,
+																					line: 2882, col: 9, offset: 90965,
 																				},
 																			},
 																		},
@@ -39978,21 +40146,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1784, col: 5, offset: 57750},
+															pos: position{line: 1785, col: 5, offset: 57782},
 															run: (*parser).callonParagraph97,
 															expr: &seqExpr{
-																pos: position{line: 1784, col: 5, offset: 57750},
+																pos: position{line: 1785, col: 5, offset: 57782},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1784, col: 5, offset: 57750},
+																		pos:   position{line: 1785, col: 5, offset: 57782},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2812, col: 14, offset: 89177},
+																			pos: position{line: 2813, col: 14, offset: 89209},
 																			run: (*parser).callonParagraph100,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2812, col: 14, offset: 89177},
+																				pos: position{line: 2813, col: 14, offset: 89209},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2812, col: 14, offset: 89177},
+																					pos:        position{line: 2813, col: 14, offset: 89209},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40002,32 +40170,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1785, col: 5, offset: 57774},
+																		pos: position{line: 1786, col: 5, offset: 57806},
 																		run: (*parser).callonParagraph103,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2884, col: 8, offset: 90982},
+																		pos: position{line: 2885, col: 8, offset: 91014},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2871, col: 12, offset: 90755},
+																				pos: position{line: 2872, col: 12, offset: 90787},
 																				run: (*parser).callonParagraph105,
 																				expr: &choiceExpr{
-																					pos: position{line: 2871, col: 13, offset: 90756},
+																					pos: position{line: 2872, col: 13, offset: 90788},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 13, offset: 90756},
+																							pos:        position{line: 2872, col: 13, offset: 90788},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 20, offset: 90763},
+																							pos:        position{line: 2872, col: 20, offset: 90795},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 29, offset: 90772},
+																							pos:        position{line: 2872, col: 29, offset: 90804},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40036,9 +40204,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2881, col: 8, offset: 90932},
+																				pos: position{line: 2882, col: 8, offset: 90964},
 																				expr: &anyMatcher{
-																					line: 2881, col: 9, offset: 90933,
+																					line: 2882, col: 9, offset: 90965,
 																				},
 																			},
 																		},
@@ -40060,16 +40228,16 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedText",
-			pos:  position{line: 1795, col: 1, offset: 58256},
+			pos:  position{line: 1796, col: 1, offset: 58288},
 			expr: &choiceExpr{
-				pos: position{line: 1795, col: 15, offset: 58270},
+				pos: position{line: 1796, col: 15, offset: 58302},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1795, col: 15, offset: 58270},
+						pos:  position{line: 1796, col: 15, offset: 58302},
 						name: "EscapedQuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1795, col: 35, offset: 58290},
+						pos:  position{line: 1796, col: 35, offset: 58322},
 						name: "UnescapedQuotedText",
 					},
 				},
@@ -40077,65 +40245,65 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedQuotedText",
-			pos:  position{line: 1797, col: 1, offset: 58311},
+			pos:  position{line: 1798, col: 1, offset: 58343},
 			expr: &actionExpr{
-				pos: position{line: 1798, col: 5, offset: 58336},
+				pos: position{line: 1799, col: 5, offset: 58368},
 				run: (*parser).callonEscapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1798, col: 5, offset: 58336},
+					pos: position{line: 1799, col: 5, offset: 58368},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1798, col: 5, offset: 58336},
+							pos:   position{line: 1799, col: 5, offset: 58368},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1798, col: 16, offset: 58347},
+								pos: position{line: 1799, col: 16, offset: 58379},
 								expr: &actionExpr{
-									pos: position{line: 1798, col: 17, offset: 58348},
+									pos: position{line: 1799, col: 17, offset: 58380},
 									run: (*parser).callonEscapedQuotedText5,
 									expr: &ruleRefExpr{
-										pos:  position{line: 1798, col: 17, offset: 58348},
+										pos:  position{line: 1799, col: 17, offset: 58380},
 										name: "LongHandAttributes",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 1801, col: 5, offset: 58416},
+							pos: position{line: 1802, col: 5, offset: 58448},
 							expr: &litMatcher{
-								pos:        position{line: 1801, col: 7, offset: 58418},
+								pos:        position{line: 1802, col: 7, offset: 58450},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1802, col: 5, offset: 58427},
+							pos:   position{line: 1803, col: 5, offset: 58459},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1803, col: 9, offset: 58445},
+								pos: position{line: 1804, col: 9, offset: 58477},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1803, col: 9, offset: 58445},
+										pos:  position{line: 1804, col: 9, offset: 58477},
 										name: "EscapedBoldText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1804, col: 11, offset: 58472},
+										pos:  position{line: 1805, col: 11, offset: 58504},
 										name: "EscapedItalicText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1805, col: 11, offset: 58500},
+										pos:  position{line: 1806, col: 11, offset: 58532},
 										name: "EscapedMonospaceText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1806, col: 11, offset: 58531},
+										pos:  position{line: 1807, col: 11, offset: 58563},
 										name: "EscapedMarkedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1807, col: 11, offset: 58559},
+										pos:  position{line: 1808, col: 11, offset: 58591},
 										name: "EscapedSubscriptText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1808, col: 11, offset: 58590},
+										pos:  position{line: 1809, col: 11, offset: 58622},
 										name: "EscapedSuperscriptText",
 									},
 								},
@@ -40147,36 +40315,36 @@ var g = &grammar{
 		},
 		{
 			name: "UnescapedQuotedText",
-			pos:  position{line: 1813, col: 1, offset: 58710},
+			pos:  position{line: 1814, col: 1, offset: 58742},
 			expr: &actionExpr{
-				pos: position{line: 1814, col: 5, offset: 58752},
+				pos: position{line: 1815, col: 5, offset: 58784},
 				run: (*parser).callonUnescapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1814, col: 5, offset: 58752},
+					pos: position{line: 1815, col: 5, offset: 58784},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1814, col: 5, offset: 58752},
+							pos:   position{line: 1815, col: 5, offset: 58784},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1814, col: 16, offset: 58763},
+								pos: position{line: 1815, col: 16, offset: 58795},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1814, col: 17, offset: 58764},
+									pos:  position{line: 1815, col: 17, offset: 58796},
 									name: "LongHandAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1815, col: 5, offset: 58789},
+							pos:   position{line: 1816, col: 5, offset: 58821},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1815, col: 14, offset: 58798},
+								pos: position{line: 1816, col: 14, offset: 58830},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1815, col: 14, offset: 58798},
+										pos:  position{line: 1816, col: 14, offset: 58830},
 										name: "SingleQuotedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1815, col: 33, offset: 58817},
+										pos:  position{line: 1816, col: 33, offset: 58849},
 										name: "DoubleQuotedText",
 									},
 								},
@@ -40188,32 +40356,32 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedText",
-			pos:  position{line: 1823, col: 1, offset: 59048},
+			pos:  position{line: 1824, col: 1, offset: 59080},
 			expr: &choiceExpr{
-				pos: position{line: 1824, col: 5, offset: 59073},
+				pos: position{line: 1825, col: 5, offset: 59105},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1824, col: 5, offset: 59073},
+						pos:  position{line: 1825, col: 5, offset: 59105},
 						name: "SingleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1825, col: 7, offset: 59100},
+						pos:  position{line: 1826, col: 7, offset: 59132},
 						name: "SingleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1826, col: 7, offset: 59128},
+						pos:  position{line: 1827, col: 7, offset: 59160},
 						name: "SingleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1827, col: 7, offset: 59160},
+						pos:  position{line: 1828, col: 7, offset: 59192},
 						name: "SingleQuoteMarkedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1828, col: 7, offset: 59188},
+						pos:  position{line: 1829, col: 7, offset: 59220},
 						name: "SubscriptText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1829, col: 7, offset: 59209},
+						pos:  position{line: 1830, col: 7, offset: 59241},
 						name: "SuperscriptText",
 					},
 				},
@@ -40221,24 +40389,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedText",
-			pos:  position{line: 1831, col: 1, offset: 59227},
+			pos:  position{line: 1832, col: 1, offset: 59259},
 			expr: &choiceExpr{
-				pos: position{line: 1832, col: 5, offset: 59252},
+				pos: position{line: 1833, col: 5, offset: 59284},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1832, col: 5, offset: 59252},
+						pos:  position{line: 1833, col: 5, offset: 59284},
 						name: "DoubleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1833, col: 7, offset: 59278},
+						pos:  position{line: 1834, col: 7, offset: 59310},
 						name: "DoubleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1834, col: 7, offset: 59306},
+						pos:  position{line: 1835, col: 7, offset: 59338},
 						name: "DoubleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1835, col: 7, offset: 59337},
+						pos:  position{line: 1836, col: 7, offset: 59369},
 						name: "DoubleQuoteMarkedText",
 					},
 				},
@@ -40246,26 +40414,26 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedTextElement",
-			pos:  position{line: 1849, col: 1, offset: 59691},
+			pos:  position{line: 1850, col: 1, offset: 59723},
 			expr: &choiceExpr{
-				pos: position{line: 1850, col: 5, offset: 59717},
+				pos: position{line: 1851, col: 5, offset: 59749},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2761, col: 5, offset: 87826},
+						pos: position{line: 2762, col: 5, offset: 87858},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2761, col: 5, offset: 87826},
+							pos: position{line: 2762, col: 5, offset: 87858},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2761, col: 5, offset: 87826},
+									pos:   position{line: 2762, col: 5, offset: 87858},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2761, col: 11, offset: 87832},
+										pos: position{line: 2762, col: 11, offset: 87864},
 										run: (*parser).callonQuotedTextElement5,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2761, col: 11, offset: 87832},
+											pos: position{line: 2762, col: 11, offset: 87864},
 											expr: &charClassMatcher{
-												pos:        position{line: 2761, col: 11, offset: 87832},
+												pos:        position{line: 2762, col: 11, offset: 87864},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40275,36 +40443,36 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2764, col: 5, offset: 87890},
+									pos: position{line: 2765, col: 5, offset: 87922},
 									expr: &seqExpr{
-										pos: position{line: 2765, col: 9, offset: 87901},
+										pos: position{line: 2766, col: 9, offset: 87933},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2765, col: 9, offset: 87901},
+												pos:        position{line: 2766, col: 9, offset: 87933},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2766, col: 9, offset: 87950},
+												pos: position{line: 2767, col: 9, offset: 87982},
 												run: (*parser).callonQuotedTextElement11,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2770, col: 5, offset: 88030},
+									pos: position{line: 2771, col: 5, offset: 88062},
 									expr: &seqExpr{
-										pos: position{line: 2771, col: 9, offset: 88041},
+										pos: position{line: 2772, col: 9, offset: 88073},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2771, col: 9, offset: 88041},
+												pos:        position{line: 2772, col: 9, offset: 88073},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2771, col: 13, offset: 88045},
+												pos:        position{line: 2772, col: 13, offset: 88077},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40317,12 +40485,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2866, col: 11, offset: 90645},
+						pos: position{line: 2867, col: 11, offset: 90677},
 						run: (*parser).callonQuotedTextElement16,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2866, col: 11, offset: 90645},
+							pos: position{line: 2867, col: 11, offset: 90677},
 							expr: &charClassMatcher{
-								pos:        position{line: 2866, col: 11, offset: 90645},
+								pos:        position{line: 2867, col: 11, offset: 90677},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -40331,25 +40499,25 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1852, col: 7, offset: 59780},
+						pos:  position{line: 1853, col: 7, offset: 59812},
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2490, col: 5, offset: 80279},
+						pos: position{line: 2491, col: 5, offset: 80311},
 						run: (*parser).callonQuotedTextElement20,
 						expr: &seqExpr{
-							pos: position{line: 2490, col: 5, offset: 80279},
+							pos: position{line: 2491, col: 5, offset: 80311},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2490, col: 5, offset: 80279},
+									pos:        position{line: 2491, col: 5, offset: 80311},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2490, col: 10, offset: 80284},
+									pos: position{line: 2491, col: 10, offset: 80316},
 									expr: &charClassMatcher{
-										pos:        position{line: 2490, col: 11, offset: 80285},
+										pos:        position{line: 2491, col: 11, offset: 80317},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -40360,29 +40528,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2496, col: 5, offset: 80477},
+						pos: position{line: 2497, col: 5, offset: 80509},
 						run: (*parser).callonQuotedTextElement25,
 						expr: &seqExpr{
-							pos: position{line: 2496, col: 5, offset: 80477},
+							pos: position{line: 2497, col: 5, offset: 80509},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2496, col: 5, offset: 80477},
+									pos: position{line: 2497, col: 5, offset: 80509},
 									run: (*parser).callonQuotedTextElement27,
 								},
 								&andCodeExpr{
-									pos: position{line: 2499, col: 5, offset: 80548},
+									pos: position{line: 2500, col: 5, offset: 80580},
 									run: (*parser).callonQuotedTextElement28,
 								},
 								&litMatcher{
-									pos:        position{line: 2503, col: 5, offset: 80673},
+									pos:        position{line: 2504, col: 5, offset: 80705},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2503, col: 9, offset: 80677},
+									pos: position{line: 2504, col: 9, offset: 80709},
 									expr: &charClassMatcher{
-										pos:        position{line: 2503, col: 10, offset: 80678},
+										pos:        position{line: 2504, col: 10, offset: 80710},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -40393,27 +40561,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2779, col: 5, offset: 88238},
+						pos: position{line: 2780, col: 5, offset: 88270},
 						run: (*parser).callonQuotedTextElement32,
 						expr: &choiceExpr{
-							pos: position{line: 2780, col: 9, offset: 88248},
+							pos: position{line: 2781, col: 9, offset: 88280},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2780, col: 10, offset: 88249},
+									pos:        position{line: 2781, col: 10, offset: 88281},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2782, col: 13, offset: 88346},
+									pos: position{line: 2783, col: 13, offset: 88378},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2782, col: 13, offset: 88346},
+											pos: position{line: 2783, col: 13, offset: 88378},
 											run: (*parser).callonQuotedTextElement36,
 										},
 										&litMatcher{
-											pos:        position{line: 2785, col: 13, offset: 88446},
+											pos:        position{line: 2786, col: 13, offset: 88478},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -40421,20 +40589,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2785, col: 19, offset: 88452},
+									pos:        position{line: 2786, col: 19, offset: 88484},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2788, col: 13, offset: 88490},
+									pos: position{line: 2789, col: 13, offset: 88522},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2788, col: 13, offset: 88490},
+											pos: position{line: 2789, col: 13, offset: 88522},
 											run: (*parser).callonQuotedTextElement40,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2791, col: 14, offset: 88583},
+											pos:        position{line: 2792, col: 14, offset: 88615},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -40443,18 +40611,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2793, col: 12, offset: 88627},
+									pos: position{line: 2794, col: 12, offset: 88659},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2793, col: 12, offset: 88627},
+											pos:        position{line: 2794, col: 12, offset: 88659},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2793, col: 16, offset: 88631},
+											pos: position{line: 2794, col: 16, offset: 88663},
 											expr: &litMatcher{
-												pos:        position{line: 2793, col: 17, offset: 88632},
+												pos:        position{line: 2794, col: 17, offset: 88664},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -40812,31 +40980,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2875, col: 18, offset: 90855},
+						pos: position{line: 2876, col: 18, offset: 90887},
 						run: (*parser).callonQuotedTextElement115,
 						expr: &seqExpr{
-							pos: position{line: 2875, col: 18, offset: 90855},
+							pos: position{line: 2876, col: 18, offset: 90887},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2871, col: 12, offset: 90755},
+									pos: position{line: 2872, col: 12, offset: 90787},
 									run: (*parser).callonQuotedTextElement117,
 									expr: &choiceExpr{
-										pos: position{line: 2871, col: 13, offset: 90756},
+										pos: position{line: 2872, col: 13, offset: 90788},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2871, col: 13, offset: 90756},
+												pos:        position{line: 2872, col: 13, offset: 90788},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2871, col: 20, offset: 90763},
+												pos:        position{line: 2872, col: 20, offset: 90795},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2871, col: 29, offset: 90772},
+												pos:        position{line: 2872, col: 29, offset: 90804},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -40845,27 +41013,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2875, col: 26, offset: 90863},
+									pos: position{line: 2876, col: 26, offset: 90895},
 									expr: &actionExpr{
-										pos: position{line: 2871, col: 12, offset: 90755},
+										pos: position{line: 2872, col: 12, offset: 90787},
 										run: (*parser).callonQuotedTextElement123,
 										expr: &choiceExpr{
-											pos: position{line: 2871, col: 13, offset: 90756},
+											pos: position{line: 2872, col: 13, offset: 90788},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2871, col: 13, offset: 90756},
+													pos:        position{line: 2872, col: 13, offset: 90788},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2871, col: 20, offset: 90763},
+													pos:        position{line: 2872, col: 20, offset: 90795},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2871, col: 29, offset: 90772},
+													pos:        position{line: 2872, col: 29, offset: 90804},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -40878,31 +41046,31 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1857, col: 7, offset: 59947},
+						pos:  position{line: 1858, col: 7, offset: 59979},
 						name: "QuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1858, col: 7, offset: 59994},
+						pos:  position{line: 1859, col: 7, offset: 60026},
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2459, col: 5, offset: 79108},
+						pos: position{line: 2460, col: 5, offset: 79140},
 						run: (*parser).callonQuotedTextElement130,
 						expr: &seqExpr{
-							pos: position{line: 2459, col: 5, offset: 79108},
+							pos: position{line: 2460, col: 5, offset: 79140},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2459, col: 5, offset: 79108},
+									pos: position{line: 2460, col: 5, offset: 79140},
 									run: (*parser).callonQuotedTextElement132,
 								},
 								&labeledExpr{
-									pos:   position{line: 2462, col: 5, offset: 79184},
+									pos:   position{line: 2463, col: 5, offset: 79216},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2463, col: 9, offset: 79202},
+										pos: position{line: 2464, col: 9, offset: 79234},
 										run: (*parser).callonQuotedTextElement134,
 										expr: &charClassMatcher{
-											pos:        position{line: 2463, col: 10, offset: 79203},
+											pos:        position{line: 2464, col: 10, offset: 79235},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -40953,10 +41121,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2801, col: 12, offset: 88892},
+						pos: position{line: 2802, col: 12, offset: 88924},
 						run: (*parser).callonQuotedTextElement144,
 						expr: &charClassMatcher{
-							pos:        position{line: 2801, col: 12, offset: 88892},
+							pos:        position{line: 2802, col: 12, offset: 88924},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -40968,29 +41136,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldText",
-			pos:  position{line: 1876, col: 1, offset: 60464},
+			pos:  position{line: 1877, col: 1, offset: 60496},
 			expr: &actionExpr{
-				pos: position{line: 1877, col: 5, offset: 60492},
+				pos: position{line: 1878, col: 5, offset: 60524},
 				run: (*parser).callonDoubleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1877, col: 5, offset: 60492},
+					pos: position{line: 1878, col: 5, offset: 60524},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1872, col: 38, offset: 60417},
+							pos:        position{line: 1873, col: 38, offset: 60449},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1878, col: 5, offset: 60531},
+							pos:   position{line: 1879, col: 5, offset: 60563},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1878, col: 15, offset: 60541},
+								pos:  position{line: 1879, col: 15, offset: 60573},
 								name: "DoubleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1874, col: 36, offset: 60458},
+							pos:        position{line: 1875, col: 36, offset: 60490},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
@@ -41001,44 +41169,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElements",
-			pos:  position{line: 1883, col: 1, offset: 60701},
+			pos:  position{line: 1884, col: 1, offset: 60733},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1883, col: 32, offset: 60732},
+				pos: position{line: 1884, col: 32, offset: 60764},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1883, col: 32, offset: 60732},
+					pos:  position{line: 1884, col: 32, offset: 60764},
 					name: "DoubleQuoteBoldTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteBoldTextElement",
-			pos:  position{line: 1885, col: 1, offset: 60763},
+			pos:  position{line: 1886, col: 1, offset: 60795},
 			expr: &actionExpr{
-				pos: position{line: 1886, col: 5, offset: 60798},
+				pos: position{line: 1887, col: 5, offset: 60830},
 				run: (*parser).callonDoubleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1886, col: 5, offset: 60798},
+					pos: position{line: 1887, col: 5, offset: 60830},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2879, col: 11, offset: 90918},
+							pos: position{line: 2880, col: 11, offset: 90950},
 							expr: &anyMatcher{
-								line: 2879, col: 13, offset: 90920,
+								line: 2880, col: 13, offset: 90952,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1887, col: 5, offset: 60809},
+							pos: position{line: 1888, col: 5, offset: 60841},
 							expr: &litMatcher{
-								pos:        position{line: 1874, col: 36, offset: 60458},
+								pos:        position{line: 1875, col: 36, offset: 60490},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1888, col: 5, offset: 60846},
+							pos:   position{line: 1889, col: 5, offset: 60878},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1888, col: 14, offset: 60855},
+								pos:  position{line: 1889, col: 14, offset: 60887},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41048,29 +41216,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldText",
-			pos:  position{line: 1913, col: 1, offset: 61535},
+			pos:  position{line: 1914, col: 1, offset: 61567},
 			expr: &actionExpr{
-				pos: position{line: 1914, col: 5, offset: 61563},
+				pos: position{line: 1915, col: 5, offset: 61595},
 				run: (*parser).callonSingleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1914, col: 5, offset: 61563},
+					pos: position{line: 1915, col: 5, offset: 61595},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1897, col: 5, offset: 61089},
+							pos:        position{line: 1898, col: 5, offset: 61121},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1898, col: 5, offset: 61098},
+							pos: position{line: 1899, col: 5, offset: 61130},
 							run: (*parser).callonSingleQuoteBoldText4,
 						},
 						&andExpr{
-							pos: position{line: 1902, col: 5, offset: 61216},
+							pos: position{line: 1903, col: 5, offset: 61248},
 							expr: &notExpr{
-								pos: position{line: 1902, col: 7, offset: 61218},
+								pos: position{line: 1903, col: 7, offset: 61250},
 								expr: &litMatcher{
-									pos:        position{line: 1902, col: 8, offset: 61219},
+									pos:        position{line: 1903, col: 8, offset: 61251},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41078,38 +41246,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1915, col: 5, offset: 61601},
+							pos:   position{line: 1916, col: 5, offset: 61633},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1915, col: 15, offset: 61611},
+								pos:  position{line: 1916, col: 15, offset: 61643},
 								name: "SingleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1905, col: 5, offset: 61339},
+							pos:        position{line: 1906, col: 5, offset: 61371},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&notExpr{
-							pos: position{line: 1906, col: 5, offset: 61348},
+							pos: position{line: 1907, col: 5, offset: 61380},
 							expr: &litMatcher{
-								pos:        position{line: 1906, col: 6, offset: 61349},
+								pos:        position{line: 1907, col: 6, offset: 61381},
 								val:        "*",
 								ignoreCase: false,
 								want:       "\"*\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1907, col: 5, offset: 61412},
+							pos: position{line: 1908, col: 5, offset: 61444},
 							run: (*parser).callonSingleQuoteBoldText13,
 						},
 						&andExpr{
-							pos: position{line: 1911, col: 5, offset: 61521},
+							pos: position{line: 1912, col: 5, offset: 61553},
 							expr: &notExpr{
-								pos: position{line: 1911, col: 7, offset: 61523},
+								pos: position{line: 1912, col: 7, offset: 61555},
 								expr: &charClassMatcher{
-									pos:        position{line: 2752, col: 13, offset: 87679},
+									pos:        position{line: 2753, col: 13, offset: 87711},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -41123,20 +41291,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElements",
-			pos:  position{line: 1920, col: 1, offset: 61771},
+			pos:  position{line: 1921, col: 1, offset: 61803},
 			expr: &actionExpr{
-				pos: position{line: 1921, col: 5, offset: 61808},
+				pos: position{line: 1922, col: 5, offset: 61840},
 				run: (*parser).callonSingleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1921, col: 5, offset: 61808},
+					pos: position{line: 1922, col: 5, offset: 61840},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1921, col: 5, offset: 61808},
+							pos: position{line: 1922, col: 5, offset: 61840},
 							expr: &actionExpr{
-								pos: position{line: 2862, col: 10, offset: 90584},
+								pos: position{line: 2863, col: 10, offset: 90616},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2862, col: 10, offset: 90584},
+									pos:        position{line: 2863, col: 10, offset: 90616},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41145,18 +41313,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1922, col: 5, offset: 61847},
+							pos:   position{line: 1923, col: 5, offset: 61879},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1922, col: 14, offset: 61856},
+								pos: position{line: 1923, col: 14, offset: 61888},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1922, col: 15, offset: 61857},
+									pos:  position{line: 1923, col: 15, offset: 61889},
 									name: "SingleQuoteBoldTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1923, col: 5, offset: 61891},
+							pos: position{line: 1924, col: 5, offset: 61923},
 							run: (*parser).callonSingleQuoteBoldTextElements9,
 						},
 					},
@@ -41165,49 +41333,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElement",
-			pos:  position{line: 1929, col: 1, offset: 62032},
+			pos:  position{line: 1930, col: 1, offset: 62064},
 			expr: &actionExpr{
-				pos: position{line: 1930, col: 5, offset: 62067},
+				pos: position{line: 1931, col: 5, offset: 62099},
 				run: (*parser).callonSingleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1930, col: 5, offset: 62067},
+					pos: position{line: 1931, col: 5, offset: 62099},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2879, col: 11, offset: 90918},
+							pos: position{line: 2880, col: 11, offset: 90950},
 							expr: &anyMatcher{
-								line: 2879, col: 13, offset: 90920,
+								line: 2880, col: 13, offset: 90952,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1931, col: 5, offset: 62095},
+							pos: position{line: 1932, col: 5, offset: 62127},
 							expr: &seqExpr{
-								pos: position{line: 1905, col: 5, offset: 61339},
+								pos: position{line: 1906, col: 5, offset: 61371},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1905, col: 5, offset: 61339},
+										pos:        position{line: 1906, col: 5, offset: 61371},
 										val:        "*",
 										ignoreCase: false,
 										want:       "\"*\"",
 									},
 									&notExpr{
-										pos: position{line: 1906, col: 5, offset: 61348},
+										pos: position{line: 1907, col: 5, offset: 61380},
 										expr: &litMatcher{
-											pos:        position{line: 1906, col: 6, offset: 61349},
+											pos:        position{line: 1907, col: 6, offset: 61381},
 											val:        "*",
 											ignoreCase: false,
 											want:       "\"*\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1907, col: 5, offset: 61412},
+										pos: position{line: 1908, col: 5, offset: 61444},
 										run: (*parser).callonSingleQuoteBoldTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 1911, col: 5, offset: 61521},
+										pos: position{line: 1912, col: 5, offset: 61553},
 										expr: &notExpr{
-											pos: position{line: 1911, col: 7, offset: 61523},
+											pos: position{line: 1912, col: 7, offset: 61555},
 											expr: &charClassMatcher{
-												pos:        position{line: 2752, col: 13, offset: 87679},
+												pos:        position{line: 2753, col: 13, offset: 87711},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41219,10 +41387,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1932, col: 5, offset: 62132},
+							pos:   position{line: 1933, col: 5, offset: 62164},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1932, col: 14, offset: 62141},
+								pos:  position{line: 1933, col: 14, offset: 62173},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41232,35 +41400,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedBoldText",
-			pos:  position{line: 1937, col: 1, offset: 62229},
+			pos:  position{line: 1938, col: 1, offset: 62261},
 			expr: &choiceExpr{
-				pos: position{line: 1939, col: 5, offset: 62290},
+				pos: position{line: 1940, col: 5, offset: 62322},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1939, col: 5, offset: 62290},
+						pos: position{line: 1940, col: 5, offset: 62322},
 						run: (*parser).callonEscapedBoldText2,
 						expr: &seqExpr{
-							pos: position{line: 1939, col: 5, offset: 62290},
+							pos: position{line: 1940, col: 5, offset: 62322},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1939, col: 5, offset: 62290},
+									pos:   position{line: 1940, col: 5, offset: 62322},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1845, col: 25, offset: 59637},
+										pos: position{line: 1846, col: 25, offset: 59669},
 										run: (*parser).callonEscapedBoldText5,
 										expr: &seqExpr{
-											pos: position{line: 1845, col: 25, offset: 59637},
+											pos: position{line: 1846, col: 25, offset: 59669},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1845, col: 25, offset: 59637},
+													pos:        position{line: 1846, col: 25, offset: 59669},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1845, col: 30, offset: 59642},
+													pos: position{line: 1846, col: 30, offset: 59674},
 													expr: &litMatcher{
-														pos:        position{line: 1845, col: 30, offset: 59642},
+														pos:        position{line: 1846, col: 30, offset: 59674},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -41271,21 +41439,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1939, col: 40, offset: 62325},
+									pos:        position{line: 1940, col: 40, offset: 62357},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1939, col: 45, offset: 62330},
+									pos:   position{line: 1940, col: 45, offset: 62362},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1939, col: 55, offset: 62340},
+										pos:  position{line: 1940, col: 55, offset: 62372},
 										name: "DoubleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1939, col: 84, offset: 62369},
+									pos:        position{line: 1940, col: 84, offset: 62401},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
@@ -41294,21 +41462,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1943, col: 7, offset: 62533},
+						pos: position{line: 1944, col: 7, offset: 62565},
 						run: (*parser).callonEscapedBoldText14,
 						expr: &seqExpr{
-							pos: position{line: 1943, col: 7, offset: 62533},
+							pos: position{line: 1944, col: 7, offset: 62565},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1943, col: 7, offset: 62533},
+									pos:   position{line: 1944, col: 7, offset: 62565},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1841, col: 25, offset: 59564},
+										pos: position{line: 1842, col: 25, offset: 59596},
 										run: (*parser).callonEscapedBoldText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1841, col: 25, offset: 59564},
+											pos: position{line: 1842, col: 25, offset: 59596},
 											expr: &litMatcher{
-												pos:        position{line: 1841, col: 25, offset: 59564},
+												pos:        position{line: 1842, col: 25, offset: 59596},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41317,21 +41485,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1943, col: 42, offset: 62568},
+									pos:        position{line: 1944, col: 42, offset: 62600},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1943, col: 47, offset: 62573},
+									pos:   position{line: 1944, col: 47, offset: 62605},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1943, col: 57, offset: 62583},
+										pos:  position{line: 1944, col: 57, offset: 62615},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1943, col: 86, offset: 62612},
+									pos:        position{line: 1944, col: 86, offset: 62644},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41340,21 +41508,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1948, col: 7, offset: 62814},
+						pos: position{line: 1949, col: 7, offset: 62846},
 						run: (*parser).callonEscapedBoldText24,
 						expr: &seqExpr{
-							pos: position{line: 1948, col: 7, offset: 62814},
+							pos: position{line: 1949, col: 7, offset: 62846},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1948, col: 7, offset: 62814},
+									pos:   position{line: 1949, col: 7, offset: 62846},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1841, col: 25, offset: 59564},
+										pos: position{line: 1842, col: 25, offset: 59596},
 										run: (*parser).callonEscapedBoldText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1841, col: 25, offset: 59564},
+											pos: position{line: 1842, col: 25, offset: 59596},
 											expr: &litMatcher{
-												pos:        position{line: 1841, col: 25, offset: 59564},
+												pos:        position{line: 1842, col: 25, offset: 59596},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41363,21 +41531,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1948, col: 42, offset: 62849},
+									pos:        position{line: 1949, col: 42, offset: 62881},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1948, col: 46, offset: 62853},
+									pos:   position{line: 1949, col: 46, offset: 62885},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1948, col: 56, offset: 62863},
+										pos:  position{line: 1949, col: 56, offset: 62895},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1948, col: 85, offset: 62892},
+									pos:        position{line: 1949, col: 85, offset: 62924},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41390,29 +41558,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicText",
-			pos:  position{line: 1965, col: 1, offset: 63372},
+			pos:  position{line: 1966, col: 1, offset: 63404},
 			expr: &actionExpr{
-				pos: position{line: 1966, col: 5, offset: 63402},
+				pos: position{line: 1967, col: 5, offset: 63434},
 				run: (*parser).callonDoubleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 1966, col: 5, offset: 63402},
+					pos: position{line: 1967, col: 5, offset: 63434},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1961, col: 40, offset: 63323},
+							pos:        position{line: 1962, col: 40, offset: 63355},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1967, col: 5, offset: 63443},
+							pos:   position{line: 1968, col: 5, offset: 63475},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1967, col: 15, offset: 63453},
+								pos:  position{line: 1968, col: 15, offset: 63485},
 								name: "DoubleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1963, col: 38, offset: 63366},
+							pos:        position{line: 1964, col: 38, offset: 63398},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
@@ -41423,44 +41591,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElements",
-			pos:  position{line: 1972, col: 1, offset: 63618},
+			pos:  position{line: 1973, col: 1, offset: 63650},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1972, col: 34, offset: 63651},
+				pos: position{line: 1973, col: 34, offset: 63683},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1972, col: 34, offset: 63651},
+					pos:  position{line: 1973, col: 34, offset: 63683},
 					name: "DoubleQuoteItalicTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteItalicTextElement",
-			pos:  position{line: 1974, col: 1, offset: 63683},
+			pos:  position{line: 1975, col: 1, offset: 63715},
 			expr: &actionExpr{
-				pos: position{line: 1975, col: 5, offset: 63720},
+				pos: position{line: 1976, col: 5, offset: 63752},
 				run: (*parser).callonDoubleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1975, col: 5, offset: 63720},
+					pos: position{line: 1976, col: 5, offset: 63752},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2879, col: 11, offset: 90918},
+							pos: position{line: 2880, col: 11, offset: 90950},
 							expr: &anyMatcher{
-								line: 2879, col: 13, offset: 90920,
+								line: 2880, col: 13, offset: 90952,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1976, col: 5, offset: 63731},
+							pos: position{line: 1977, col: 5, offset: 63763},
 							expr: &litMatcher{
-								pos:        position{line: 1963, col: 38, offset: 63366},
+								pos:        position{line: 1964, col: 38, offset: 63398},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1977, col: 5, offset: 63770},
+							pos:   position{line: 1978, col: 5, offset: 63802},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1977, col: 14, offset: 63779},
+								pos:  position{line: 1978, col: 14, offset: 63811},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41470,29 +41638,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicText",
-			pos:  position{line: 2003, col: 1, offset: 64463},
+			pos:  position{line: 2004, col: 1, offset: 64495},
 			expr: &actionExpr{
-				pos: position{line: 2004, col: 5, offset: 64493},
+				pos: position{line: 2005, col: 5, offset: 64525},
 				run: (*parser).callonSingleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2004, col: 5, offset: 64493},
+					pos: position{line: 2005, col: 5, offset: 64525},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1986, col: 5, offset: 64021},
+							pos:        position{line: 1987, col: 5, offset: 64053},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1987, col: 5, offset: 64030},
+							pos: position{line: 1988, col: 5, offset: 64062},
 							run: (*parser).callonSingleQuoteItalicText4,
 						},
 						&andExpr{
-							pos: position{line: 1991, col: 5, offset: 64150},
+							pos: position{line: 1992, col: 5, offset: 64182},
 							expr: &notExpr{
-								pos: position{line: 1991, col: 7, offset: 64152},
+								pos: position{line: 1992, col: 7, offset: 64184},
 								expr: &litMatcher{
-									pos:        position{line: 1991, col: 8, offset: 64153},
+									pos:        position{line: 1992, col: 8, offset: 64185},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -41500,38 +41668,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2005, col: 5, offset: 64533},
+							pos:   position{line: 2006, col: 5, offset: 64565},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2005, col: 15, offset: 64543},
+								pos:  position{line: 2006, col: 15, offset: 64575},
 								name: "SingleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1995, col: 5, offset: 64263},
+							pos:        position{line: 1996, col: 5, offset: 64295},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&notExpr{
-							pos: position{line: 1996, col: 5, offset: 64272},
+							pos: position{line: 1997, col: 5, offset: 64304},
 							expr: &litMatcher{
-								pos:        position{line: 1996, col: 6, offset: 64273},
+								pos:        position{line: 1997, col: 6, offset: 64305},
 								val:        "_",
 								ignoreCase: false,
 								want:       "\"_\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1997, col: 5, offset: 64338},
+							pos: position{line: 1998, col: 5, offset: 64370},
 							run: (*parser).callonSingleQuoteItalicText13,
 						},
 						&andExpr{
-							pos: position{line: 2001, col: 5, offset: 64449},
+							pos: position{line: 2002, col: 5, offset: 64481},
 							expr: &notExpr{
-								pos: position{line: 2001, col: 7, offset: 64451},
+								pos: position{line: 2002, col: 7, offset: 64483},
 								expr: &charClassMatcher{
-									pos:        position{line: 2752, col: 13, offset: 87679},
+									pos:        position{line: 2753, col: 13, offset: 87711},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -41545,20 +41713,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElements",
-			pos:  position{line: 2010, col: 1, offset: 64710},
+			pos:  position{line: 2011, col: 1, offset: 64742},
 			expr: &actionExpr{
-				pos: position{line: 2011, col: 5, offset: 64748},
+				pos: position{line: 2012, col: 5, offset: 64780},
 				run: (*parser).callonSingleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2011, col: 5, offset: 64748},
+					pos: position{line: 2012, col: 5, offset: 64780},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2011, col: 5, offset: 64748},
+							pos: position{line: 2012, col: 5, offset: 64780},
 							expr: &actionExpr{
-								pos: position{line: 2862, col: 10, offset: 90584},
+								pos: position{line: 2863, col: 10, offset: 90616},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2862, col: 10, offset: 90584},
+									pos:        position{line: 2863, col: 10, offset: 90616},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41567,18 +41735,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2012, col: 5, offset: 64787},
+							pos:   position{line: 2013, col: 5, offset: 64819},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2012, col: 14, offset: 64796},
+								pos: position{line: 2013, col: 14, offset: 64828},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2012, col: 15, offset: 64797},
+									pos:  position{line: 2013, col: 15, offset: 64829},
 									name: "SingleQuoteItalicTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2013, col: 5, offset: 64832},
+							pos: position{line: 2014, col: 5, offset: 64864},
 							run: (*parser).callonSingleQuoteItalicTextElements9,
 						},
 					},
@@ -41587,49 +41755,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElement",
-			pos:  position{line: 2019, col: 1, offset: 64973},
+			pos:  position{line: 2020, col: 1, offset: 65005},
 			expr: &actionExpr{
-				pos: position{line: 2020, col: 5, offset: 65010},
+				pos: position{line: 2021, col: 5, offset: 65042},
 				run: (*parser).callonSingleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2020, col: 5, offset: 65010},
+					pos: position{line: 2021, col: 5, offset: 65042},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2879, col: 11, offset: 90918},
+							pos: position{line: 2880, col: 11, offset: 90950},
 							expr: &anyMatcher{
-								line: 2879, col: 13, offset: 90920,
+								line: 2880, col: 13, offset: 90952,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2021, col: 5, offset: 65021},
+							pos: position{line: 2022, col: 5, offset: 65053},
 							expr: &seqExpr{
-								pos: position{line: 1995, col: 5, offset: 64263},
+								pos: position{line: 1996, col: 5, offset: 64295},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1995, col: 5, offset: 64263},
+										pos:        position{line: 1996, col: 5, offset: 64295},
 										val:        "_",
 										ignoreCase: false,
 										want:       "\"_\"",
 									},
 									&notExpr{
-										pos: position{line: 1996, col: 5, offset: 64272},
+										pos: position{line: 1997, col: 5, offset: 64304},
 										expr: &litMatcher{
-											pos:        position{line: 1996, col: 6, offset: 64273},
+											pos:        position{line: 1997, col: 6, offset: 64305},
 											val:        "_",
 											ignoreCase: false,
 											want:       "\"_\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1997, col: 5, offset: 64338},
+										pos: position{line: 1998, col: 5, offset: 64370},
 										run: (*parser).callonSingleQuoteItalicTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2001, col: 5, offset: 64449},
+										pos: position{line: 2002, col: 5, offset: 64481},
 										expr: &notExpr{
-											pos: position{line: 2001, col: 7, offset: 64451},
+											pos: position{line: 2002, col: 7, offset: 64483},
 											expr: &charClassMatcher{
-												pos:        position{line: 2752, col: 13, offset: 87679},
+												pos:        position{line: 2753, col: 13, offset: 87711},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41641,10 +41809,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2022, col: 5, offset: 65060},
+							pos:   position{line: 2023, col: 5, offset: 65092},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2022, col: 14, offset: 65069},
+								pos:  position{line: 2023, col: 14, offset: 65101},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41654,35 +41822,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedItalicText",
-			pos:  position{line: 2027, col: 1, offset: 65157},
+			pos:  position{line: 2028, col: 1, offset: 65189},
 			expr: &choiceExpr{
-				pos: position{line: 2029, col: 5, offset: 65222},
+				pos: position{line: 2030, col: 5, offset: 65254},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2029, col: 5, offset: 65222},
+						pos: position{line: 2030, col: 5, offset: 65254},
 						run: (*parser).callonEscapedItalicText2,
 						expr: &seqExpr{
-							pos: position{line: 2029, col: 5, offset: 65222},
+							pos: position{line: 2030, col: 5, offset: 65254},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2029, col: 5, offset: 65222},
+									pos:   position{line: 2030, col: 5, offset: 65254},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1845, col: 25, offset: 59637},
+										pos: position{line: 1846, col: 25, offset: 59669},
 										run: (*parser).callonEscapedItalicText5,
 										expr: &seqExpr{
-											pos: position{line: 1845, col: 25, offset: 59637},
+											pos: position{line: 1846, col: 25, offset: 59669},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1845, col: 25, offset: 59637},
+													pos:        position{line: 1846, col: 25, offset: 59669},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1845, col: 30, offset: 59642},
+													pos: position{line: 1846, col: 30, offset: 59674},
 													expr: &litMatcher{
-														pos:        position{line: 1845, col: 30, offset: 59642},
+														pos:        position{line: 1846, col: 30, offset: 59674},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -41693,21 +41861,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2029, col: 40, offset: 65257},
+									pos:        position{line: 2030, col: 40, offset: 65289},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2029, col: 45, offset: 65262},
+									pos:   position{line: 2030, col: 45, offset: 65294},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2029, col: 55, offset: 65272},
+										pos:  position{line: 2030, col: 55, offset: 65304},
 										name: "DoubleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2029, col: 86, offset: 65303},
+									pos:        position{line: 2030, col: 86, offset: 65335},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
@@ -41716,21 +41884,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2033, col: 7, offset: 65468},
+						pos: position{line: 2034, col: 7, offset: 65500},
 						run: (*parser).callonEscapedItalicText14,
 						expr: &seqExpr{
-							pos: position{line: 2033, col: 7, offset: 65468},
+							pos: position{line: 2034, col: 7, offset: 65500},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2033, col: 7, offset: 65468},
+									pos:   position{line: 2034, col: 7, offset: 65500},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1841, col: 25, offset: 59564},
+										pos: position{line: 1842, col: 25, offset: 59596},
 										run: (*parser).callonEscapedItalicText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1841, col: 25, offset: 59564},
+											pos: position{line: 1842, col: 25, offset: 59596},
 											expr: &litMatcher{
-												pos:        position{line: 1841, col: 25, offset: 59564},
+												pos:        position{line: 1842, col: 25, offset: 59596},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41739,21 +41907,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2033, col: 42, offset: 65503},
+									pos:        position{line: 2034, col: 42, offset: 65535},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2033, col: 47, offset: 65508},
+									pos:   position{line: 2034, col: 47, offset: 65540},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2033, col: 57, offset: 65518},
+										pos:  position{line: 2034, col: 57, offset: 65550},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2033, col: 88, offset: 65549},
+									pos:        position{line: 2034, col: 88, offset: 65581},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -41762,21 +41930,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2038, col: 7, offset: 65790},
+						pos: position{line: 2039, col: 7, offset: 65822},
 						run: (*parser).callonEscapedItalicText24,
 						expr: &seqExpr{
-							pos: position{line: 2038, col: 7, offset: 65790},
+							pos: position{line: 2039, col: 7, offset: 65822},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2038, col: 7, offset: 65790},
+									pos:   position{line: 2039, col: 7, offset: 65822},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1841, col: 25, offset: 59564},
+										pos: position{line: 1842, col: 25, offset: 59596},
 										run: (*parser).callonEscapedItalicText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1841, col: 25, offset: 59564},
+											pos: position{line: 1842, col: 25, offset: 59596},
 											expr: &litMatcher{
-												pos:        position{line: 1841, col: 25, offset: 59564},
+												pos:        position{line: 1842, col: 25, offset: 59596},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41785,21 +41953,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2038, col: 42, offset: 65825},
+									pos:        position{line: 2039, col: 42, offset: 65857},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2038, col: 46, offset: 65829},
+									pos:   position{line: 2039, col: 46, offset: 65861},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2038, col: 56, offset: 65839},
+										pos:  position{line: 2039, col: 56, offset: 65871},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2038, col: 87, offset: 65870},
+									pos:        position{line: 2039, col: 87, offset: 65902},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -41812,29 +41980,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceText",
-			pos:  position{line: 2055, col: 1, offset: 66434},
+			pos:  position{line: 2056, col: 1, offset: 66466},
 			expr: &actionExpr{
-				pos: position{line: 2056, col: 5, offset: 66467},
+				pos: position{line: 2057, col: 5, offset: 66499},
 				run: (*parser).callonDoubleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2056, col: 5, offset: 66467},
+					pos: position{line: 2057, col: 5, offset: 66499},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2051, col: 43, offset: 66382},
+							pos:        position{line: 2052, col: 43, offset: 66414},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2057, col: 5, offset: 66511},
+							pos:   position{line: 2058, col: 5, offset: 66543},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2057, col: 15, offset: 66521},
+								pos:  position{line: 2058, col: 15, offset: 66553},
 								name: "DoubleQuoteMonospaceTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2053, col: 41, offset: 66428},
+							pos:        position{line: 2054, col: 41, offset: 66460},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
@@ -41845,44 +42013,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElements",
-			pos:  position{line: 2062, col: 1, offset: 66696},
+			pos:  position{line: 2063, col: 1, offset: 66728},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 2062, col: 37, offset: 66732},
+				pos: position{line: 2063, col: 37, offset: 66764},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2062, col: 37, offset: 66732},
+					pos:  position{line: 2063, col: 37, offset: 66764},
 					name: "DoubleQuoteMonospaceTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElement",
-			pos:  position{line: 2064, col: 1, offset: 66799},
+			pos:  position{line: 2065, col: 1, offset: 66831},
 			expr: &actionExpr{
-				pos: position{line: 2065, col: 5, offset: 66839},
+				pos: position{line: 2066, col: 5, offset: 66871},
 				run: (*parser).callonDoubleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2065, col: 5, offset: 66839},
+					pos: position{line: 2066, col: 5, offset: 66871},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2879, col: 11, offset: 90918},
+							pos: position{line: 2880, col: 11, offset: 90950},
 							expr: &anyMatcher{
-								line: 2879, col: 13, offset: 90920,
+								line: 2880, col: 13, offset: 90952,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2066, col: 5, offset: 66850},
+							pos: position{line: 2067, col: 5, offset: 66882},
 							expr: &litMatcher{
-								pos:        position{line: 2053, col: 41, offset: 66428},
+								pos:        position{line: 2054, col: 41, offset: 66460},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2067, col: 5, offset: 66892},
+							pos:   position{line: 2068, col: 5, offset: 66924},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2067, col: 14, offset: 66901},
+								pos:  position{line: 2068, col: 14, offset: 66933},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41892,33 +42060,33 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextEndDelimiter",
-			pos:  position{line: 2085, col: 1, offset: 67443},
+			pos:  position{line: 2086, col: 1, offset: 67475},
 			expr: &seqExpr{
-				pos: position{line: 2086, col: 5, offset: 67488},
+				pos: position{line: 2087, col: 5, offset: 67520},
 				exprs: []interface{}{
 					&notExpr{
-						pos: position{line: 2086, col: 5, offset: 67488},
+						pos: position{line: 2087, col: 5, offset: 67520},
 						expr: &ruleRefExpr{
-							pos:  position{line: 2086, col: 6, offset: 67489},
+							pos:  position{line: 2087, col: 6, offset: 67521},
 							name: "QuotationMark",
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 2087, col: 5, offset: 67508},
+						pos:        position{line: 2088, col: 5, offset: 67540},
 						val:        "`",
 						ignoreCase: false,
 						want:       "\"`\"",
 					},
 					&andCodeExpr{
-						pos: position{line: 2088, col: 5, offset: 67516},
+						pos: position{line: 2089, col: 5, offset: 67548},
 						run: (*parser).callonSingleQuoteMonospaceTextEndDelimiter5,
 					},
 					&andExpr{
-						pos: position{line: 2092, col: 5, offset: 67630},
+						pos: position{line: 2093, col: 5, offset: 67662},
 						expr: &notExpr{
-							pos: position{line: 2092, col: 7, offset: 67632},
+							pos: position{line: 2093, col: 7, offset: 67664},
 							expr: &charClassMatcher{
-								pos:        position{line: 2752, col: 13, offset: 87679},
+								pos:        position{line: 2753, col: 13, offset: 87711},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -41931,29 +42099,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceText",
-			pos:  position{line: 2095, col: 1, offset: 67649},
+			pos:  position{line: 2096, col: 1, offset: 67681},
 			expr: &actionExpr{
-				pos: position{line: 2096, col: 5, offset: 67682},
+				pos: position{line: 2097, col: 5, offset: 67714},
 				run: (*parser).callonSingleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2096, col: 5, offset: 67682},
+					pos: position{line: 2097, col: 5, offset: 67714},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2078, col: 5, offset: 67245},
+							pos:        position{line: 2079, col: 5, offset: 67277},
 							val:        "`",
 							ignoreCase: false,
 							want:       "\"`\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2079, col: 5, offset: 67254},
+							pos: position{line: 2080, col: 5, offset: 67286},
 							run: (*parser).callonSingleQuoteMonospaceText4,
 						},
 						&andExpr{
-							pos: position{line: 2083, col: 5, offset: 67377},
+							pos: position{line: 2084, col: 5, offset: 67409},
 							expr: &notExpr{
-								pos: position{line: 2083, col: 7, offset: 67379},
+								pos: position{line: 2084, col: 7, offset: 67411},
 								expr: &litMatcher{
-									pos:        position{line: 2083, col: 8, offset: 67380},
+									pos:        position{line: 2084, col: 8, offset: 67412},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -41961,15 +42129,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2097, col: 5, offset: 67726},
+							pos:   position{line: 2098, col: 5, offset: 67758},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2097, col: 15, offset: 67736},
+								pos:  position{line: 2098, col: 15, offset: 67768},
 								name: "SingleQuoteMonospaceTextElements",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 2098, col: 5, offset: 67775},
+							pos:  position{line: 2099, col: 5, offset: 67807},
 							name: "SingleQuoteMonospaceTextEndDelimiter",
 						},
 					},
@@ -41978,20 +42146,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElements",
-			pos:  position{line: 2102, col: 1, offset: 67912},
+			pos:  position{line: 2103, col: 1, offset: 67944},
 			expr: &actionExpr{
-				pos: position{line: 2103, col: 5, offset: 67953},
+				pos: position{line: 2104, col: 5, offset: 67985},
 				run: (*parser).callonSingleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2103, col: 5, offset: 67953},
+					pos: position{line: 2104, col: 5, offset: 67985},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2103, col: 5, offset: 67953},
+							pos: position{line: 2104, col: 5, offset: 67985},
 							expr: &actionExpr{
-								pos: position{line: 2862, col: 10, offset: 90584},
+								pos: position{line: 2863, col: 10, offset: 90616},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2862, col: 10, offset: 90584},
+									pos:        position{line: 2863, col: 10, offset: 90616},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42000,18 +42168,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2104, col: 5, offset: 67992},
+							pos:   position{line: 2105, col: 5, offset: 68024},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2104, col: 14, offset: 68001},
+								pos: position{line: 2105, col: 14, offset: 68033},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2104, col: 15, offset: 68002},
+									pos:  position{line: 2105, col: 15, offset: 68034},
 									name: "SingleQuoteMonospaceTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2105, col: 5, offset: 68040},
+							pos: position{line: 2106, col: 5, offset: 68072},
 							run: (*parser).callonSingleQuoteMonospaceTextElements9,
 						},
 					},
@@ -42020,31 +42188,31 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElement",
-			pos:  position{line: 2111, col: 1, offset: 68181},
+			pos:  position{line: 2112, col: 1, offset: 68213},
 			expr: &actionExpr{
-				pos: position{line: 2112, col: 5, offset: 68221},
+				pos: position{line: 2113, col: 5, offset: 68253},
 				run: (*parser).callonSingleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2112, col: 5, offset: 68221},
+					pos: position{line: 2113, col: 5, offset: 68253},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2879, col: 11, offset: 90918},
+							pos: position{line: 2880, col: 11, offset: 90950},
 							expr: &anyMatcher{
-								line: 2879, col: 13, offset: 90920,
+								line: 2880, col: 13, offset: 90952,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2113, col: 5, offset: 68232},
+							pos: position{line: 2114, col: 5, offset: 68264},
 							expr: &ruleRefExpr{
-								pos:  position{line: 2113, col: 6, offset: 68233},
+								pos:  position{line: 2114, col: 6, offset: 68265},
 								name: "SingleQuoteMonospaceTextEndDelimiter",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2114, col: 5, offset: 68274},
+							pos:   position{line: 2115, col: 5, offset: 68306},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2114, col: 14, offset: 68283},
+								pos:  position{line: 2115, col: 14, offset: 68315},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42054,35 +42222,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMonospaceText",
-			pos:  position{line: 2119, col: 1, offset: 68371},
+			pos:  position{line: 2120, col: 1, offset: 68403},
 			expr: &choiceExpr{
-				pos: position{line: 2121, col: 5, offset: 68442},
+				pos: position{line: 2122, col: 5, offset: 68474},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2121, col: 5, offset: 68442},
+						pos: position{line: 2122, col: 5, offset: 68474},
 						run: (*parser).callonEscapedMonospaceText2,
 						expr: &seqExpr{
-							pos: position{line: 2121, col: 5, offset: 68442},
+							pos: position{line: 2122, col: 5, offset: 68474},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2121, col: 5, offset: 68442},
+									pos:   position{line: 2122, col: 5, offset: 68474},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1845, col: 25, offset: 59637},
+										pos: position{line: 1846, col: 25, offset: 59669},
 										run: (*parser).callonEscapedMonospaceText5,
 										expr: &seqExpr{
-											pos: position{line: 1845, col: 25, offset: 59637},
+											pos: position{line: 1846, col: 25, offset: 59669},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1845, col: 25, offset: 59637},
+													pos:        position{line: 1846, col: 25, offset: 59669},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1845, col: 30, offset: 59642},
+													pos: position{line: 1846, col: 30, offset: 59674},
 													expr: &litMatcher{
-														pos:        position{line: 1845, col: 30, offset: 59642},
+														pos:        position{line: 1846, col: 30, offset: 59674},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42093,21 +42261,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2121, col: 40, offset: 68477},
+									pos:        position{line: 2122, col: 40, offset: 68509},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2121, col: 45, offset: 68482},
+									pos:   position{line: 2122, col: 45, offset: 68514},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2121, col: 55, offset: 68492},
+										pos:  position{line: 2122, col: 55, offset: 68524},
 										name: "DoubleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2121, col: 89, offset: 68526},
+									pos:        position{line: 2122, col: 89, offset: 68558},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
@@ -42116,21 +42284,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2125, col: 7, offset: 68695},
+						pos: position{line: 2126, col: 7, offset: 68727},
 						run: (*parser).callonEscapedMonospaceText14,
 						expr: &seqExpr{
-							pos: position{line: 2125, col: 7, offset: 68695},
+							pos: position{line: 2126, col: 7, offset: 68727},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2125, col: 7, offset: 68695},
+									pos:   position{line: 2126, col: 7, offset: 68727},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1841, col: 25, offset: 59564},
+										pos: position{line: 1842, col: 25, offset: 59596},
 										run: (*parser).callonEscapedMonospaceText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1841, col: 25, offset: 59564},
+											pos: position{line: 1842, col: 25, offset: 59596},
 											expr: &litMatcher{
-												pos:        position{line: 1841, col: 25, offset: 59564},
+												pos:        position{line: 1842, col: 25, offset: 59596},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42139,21 +42307,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2125, col: 42, offset: 68730},
+									pos:        position{line: 2126, col: 42, offset: 68762},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2125, col: 47, offset: 68735},
+									pos:   position{line: 2126, col: 47, offset: 68767},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2125, col: 57, offset: 68745},
+										pos:  position{line: 2126, col: 57, offset: 68777},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2125, col: 91, offset: 68779},
+									pos:        position{line: 2126, col: 91, offset: 68811},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42162,21 +42330,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2130, col: 7, offset: 68985},
+						pos: position{line: 2131, col: 7, offset: 69017},
 						run: (*parser).callonEscapedMonospaceText24,
 						expr: &seqExpr{
-							pos: position{line: 2130, col: 7, offset: 68985},
+							pos: position{line: 2131, col: 7, offset: 69017},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2130, col: 7, offset: 68985},
+									pos:   position{line: 2131, col: 7, offset: 69017},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1841, col: 25, offset: 59564},
+										pos: position{line: 1842, col: 25, offset: 59596},
 										run: (*parser).callonEscapedMonospaceText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1841, col: 25, offset: 59564},
+											pos: position{line: 1842, col: 25, offset: 59596},
 											expr: &litMatcher{
-												pos:        position{line: 1841, col: 25, offset: 59564},
+												pos:        position{line: 1842, col: 25, offset: 59596},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42185,21 +42353,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2130, col: 42, offset: 69020},
+									pos:        position{line: 2131, col: 42, offset: 69052},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2130, col: 46, offset: 69024},
+									pos:   position{line: 2131, col: 46, offset: 69056},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2130, col: 56, offset: 69034},
+										pos:  position{line: 2131, col: 56, offset: 69066},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2130, col: 90, offset: 69068},
+									pos:        position{line: 2131, col: 90, offset: 69100},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42212,29 +42380,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedText",
-			pos:  position{line: 2147, col: 1, offset: 69553},
+			pos:  position{line: 2148, col: 1, offset: 69585},
 			expr: &actionExpr{
-				pos: position{line: 2148, col: 5, offset: 69583},
+				pos: position{line: 2149, col: 5, offset: 69615},
 				run: (*parser).callonDoubleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2148, col: 5, offset: 69583},
+					pos: position{line: 2149, col: 5, offset: 69615},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2143, col: 40, offset: 69504},
+							pos:        position{line: 2144, col: 40, offset: 69536},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2149, col: 5, offset: 69624},
+							pos:   position{line: 2150, col: 5, offset: 69656},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2149, col: 15, offset: 69634},
+								pos:  position{line: 2150, col: 15, offset: 69666},
 								name: "DoubleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2145, col: 38, offset: 69547},
+							pos:        position{line: 2146, col: 38, offset: 69579},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
@@ -42245,44 +42413,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElements",
-			pos:  position{line: 2154, col: 1, offset: 69800},
+			pos:  position{line: 2155, col: 1, offset: 69832},
 			expr: &zeroOrMoreExpr{
-				pos: position{line: 2154, col: 34, offset: 69833},
+				pos: position{line: 2155, col: 34, offset: 69865},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2154, col: 34, offset: 69833},
+					pos:  position{line: 2155, col: 34, offset: 69865},
 					name: "DoubleQuoteMarkedTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMarkedTextElement",
-			pos:  position{line: 2156, col: 1, offset: 69864},
+			pos:  position{line: 2157, col: 1, offset: 69896},
 			expr: &actionExpr{
-				pos: position{line: 2157, col: 5, offset: 69933},
+				pos: position{line: 2158, col: 5, offset: 69965},
 				run: (*parser).callonDoubleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2157, col: 5, offset: 69933},
+					pos: position{line: 2158, col: 5, offset: 69965},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2879, col: 11, offset: 90918},
+							pos: position{line: 2880, col: 11, offset: 90950},
 							expr: &anyMatcher{
-								line: 2879, col: 13, offset: 90920,
+								line: 2880, col: 13, offset: 90952,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2158, col: 5, offset: 69944},
+							pos: position{line: 2159, col: 5, offset: 69976},
 							expr: &litMatcher{
-								pos:        position{line: 2145, col: 38, offset: 69547},
+								pos:        position{line: 2146, col: 38, offset: 69579},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2159, col: 5, offset: 69983},
+							pos:   position{line: 2160, col: 5, offset: 70015},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2159, col: 14, offset: 69992},
+								pos:  position{line: 2160, col: 14, offset: 70024},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42292,29 +42460,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedText",
-			pos:  position{line: 2184, col: 1, offset: 70674},
+			pos:  position{line: 2185, col: 1, offset: 70706},
 			expr: &actionExpr{
-				pos: position{line: 2185, col: 5, offset: 70704},
+				pos: position{line: 2186, col: 5, offset: 70736},
 				run: (*parser).callonSingleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2185, col: 5, offset: 70704},
+					pos: position{line: 2186, col: 5, offset: 70736},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2168, col: 5, offset: 70240},
+							pos:        position{line: 2169, col: 5, offset: 70272},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2169, col: 5, offset: 70249},
+							pos: position{line: 2170, col: 5, offset: 70281},
 							run: (*parser).callonSingleQuoteMarkedText4,
 						},
 						&andExpr{
-							pos: position{line: 2173, col: 5, offset: 70369},
+							pos: position{line: 2174, col: 5, offset: 70401},
 							expr: &notExpr{
-								pos: position{line: 2173, col: 7, offset: 70371},
+								pos: position{line: 2174, col: 7, offset: 70403},
 								expr: &litMatcher{
-									pos:        position{line: 2173, col: 8, offset: 70372},
+									pos:        position{line: 2174, col: 8, offset: 70404},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -42322,38 +42490,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2186, col: 5, offset: 70744},
+							pos:   position{line: 2187, col: 5, offset: 70776},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2186, col: 15, offset: 70754},
+								pos:  position{line: 2187, col: 15, offset: 70786},
 								name: "SingleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2176, col: 5, offset: 70477},
+							pos:        position{line: 2177, col: 5, offset: 70509},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&notExpr{
-							pos: position{line: 2177, col: 5, offset: 70485},
+							pos: position{line: 2178, col: 5, offset: 70517},
 							expr: &litMatcher{
-								pos:        position{line: 2177, col: 6, offset: 70486},
+								pos:        position{line: 2178, col: 6, offset: 70518},
 								val:        "#",
 								ignoreCase: false,
 								want:       "\"#\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2178, col: 5, offset: 70549},
+							pos: position{line: 2179, col: 5, offset: 70581},
 							run: (*parser).callonSingleQuoteMarkedText13,
 						},
 						&andExpr{
-							pos: position{line: 2182, col: 5, offset: 70660},
+							pos: position{line: 2183, col: 5, offset: 70692},
 							expr: &notExpr{
-								pos: position{line: 2182, col: 7, offset: 70662},
+								pos: position{line: 2183, col: 7, offset: 70694},
 								expr: &charClassMatcher{
-									pos:        position{line: 2752, col: 13, offset: 87679},
+									pos:        position{line: 2753, col: 13, offset: 87711},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -42367,20 +42535,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElements",
-			pos:  position{line: 2191, col: 1, offset: 70921},
+			pos:  position{line: 2192, col: 1, offset: 70953},
 			expr: &actionExpr{
-				pos: position{line: 2192, col: 5, offset: 70959},
+				pos: position{line: 2193, col: 5, offset: 70991},
 				run: (*parser).callonSingleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2192, col: 5, offset: 70959},
+					pos: position{line: 2193, col: 5, offset: 70991},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2192, col: 5, offset: 70959},
+							pos: position{line: 2193, col: 5, offset: 70991},
 							expr: &actionExpr{
-								pos: position{line: 2862, col: 10, offset: 90584},
+								pos: position{line: 2863, col: 10, offset: 90616},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2862, col: 10, offset: 90584},
+									pos:        position{line: 2863, col: 10, offset: 90616},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42389,18 +42557,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2193, col: 5, offset: 70998},
+							pos:   position{line: 2194, col: 5, offset: 71030},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2193, col: 14, offset: 71007},
+								pos: position{line: 2194, col: 14, offset: 71039},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2193, col: 15, offset: 71008},
+									pos:  position{line: 2194, col: 15, offset: 71040},
 									name: "SingleQuoteMarkedTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2194, col: 5, offset: 71044},
+							pos: position{line: 2195, col: 5, offset: 71076},
 							run: (*parser).callonSingleQuoteMarkedTextElements9,
 						},
 					},
@@ -42409,49 +42577,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElement",
-			pos:  position{line: 2200, col: 1, offset: 71185},
+			pos:  position{line: 2201, col: 1, offset: 71217},
 			expr: &actionExpr{
-				pos: position{line: 2201, col: 5, offset: 71222},
+				pos: position{line: 2202, col: 5, offset: 71254},
 				run: (*parser).callonSingleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2201, col: 5, offset: 71222},
+					pos: position{line: 2202, col: 5, offset: 71254},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2879, col: 11, offset: 90918},
+							pos: position{line: 2880, col: 11, offset: 90950},
 							expr: &anyMatcher{
-								line: 2879, col: 13, offset: 90920,
+								line: 2880, col: 13, offset: 90952,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2202, col: 5, offset: 71233},
+							pos: position{line: 2203, col: 5, offset: 71265},
 							expr: &seqExpr{
-								pos: position{line: 2176, col: 5, offset: 70477},
+								pos: position{line: 2177, col: 5, offset: 70509},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2176, col: 5, offset: 70477},
+										pos:        position{line: 2177, col: 5, offset: 70509},
 										val:        "#",
 										ignoreCase: false,
 										want:       "\"#\"",
 									},
 									&notExpr{
-										pos: position{line: 2177, col: 5, offset: 70485},
+										pos: position{line: 2178, col: 5, offset: 70517},
 										expr: &litMatcher{
-											pos:        position{line: 2177, col: 6, offset: 70486},
+											pos:        position{line: 2178, col: 6, offset: 70518},
 											val:        "#",
 											ignoreCase: false,
 											want:       "\"#\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2178, col: 5, offset: 70549},
+										pos: position{line: 2179, col: 5, offset: 70581},
 										run: (*parser).callonSingleQuoteMarkedTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2182, col: 5, offset: 70660},
+										pos: position{line: 2183, col: 5, offset: 70692},
 										expr: &notExpr{
-											pos: position{line: 2182, col: 7, offset: 70662},
+											pos: position{line: 2183, col: 7, offset: 70694},
 											expr: &charClassMatcher{
-												pos:        position{line: 2752, col: 13, offset: 87679},
+												pos:        position{line: 2753, col: 13, offset: 87711},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42463,10 +42631,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2203, col: 5, offset: 71272},
+							pos:   position{line: 2204, col: 5, offset: 71304},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2203, col: 14, offset: 71281},
+								pos:  position{line: 2204, col: 14, offset: 71313},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42476,35 +42644,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMarkedText",
-			pos:  position{line: 2208, col: 1, offset: 71369},
+			pos:  position{line: 2209, col: 1, offset: 71401},
 			expr: &choiceExpr{
-				pos: position{line: 2210, col: 5, offset: 71433},
+				pos: position{line: 2211, col: 5, offset: 71465},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2210, col: 5, offset: 71433},
+						pos: position{line: 2211, col: 5, offset: 71465},
 						run: (*parser).callonEscapedMarkedText2,
 						expr: &seqExpr{
-							pos: position{line: 2210, col: 5, offset: 71433},
+							pos: position{line: 2211, col: 5, offset: 71465},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2210, col: 5, offset: 71433},
+									pos:   position{line: 2211, col: 5, offset: 71465},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1845, col: 25, offset: 59637},
+										pos: position{line: 1846, col: 25, offset: 59669},
 										run: (*parser).callonEscapedMarkedText5,
 										expr: &seqExpr{
-											pos: position{line: 1845, col: 25, offset: 59637},
+											pos: position{line: 1846, col: 25, offset: 59669},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1845, col: 25, offset: 59637},
+													pos:        position{line: 1846, col: 25, offset: 59669},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1845, col: 30, offset: 59642},
+													pos: position{line: 1846, col: 30, offset: 59674},
 													expr: &litMatcher{
-														pos:        position{line: 1845, col: 30, offset: 59642},
+														pos:        position{line: 1846, col: 30, offset: 59674},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42515,21 +42683,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2210, col: 40, offset: 71468},
+									pos:        position{line: 2211, col: 40, offset: 71500},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2210, col: 45, offset: 71473},
+									pos:   position{line: 2211, col: 45, offset: 71505},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2210, col: 55, offset: 71483},
+										pos:  position{line: 2211, col: 55, offset: 71515},
 										name: "DoubleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2210, col: 86, offset: 71514},
+									pos:        position{line: 2211, col: 86, offset: 71546},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
@@ -42538,21 +42706,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2214, col: 7, offset: 71679},
+						pos: position{line: 2215, col: 7, offset: 71711},
 						run: (*parser).callonEscapedMarkedText14,
 						expr: &seqExpr{
-							pos: position{line: 2214, col: 7, offset: 71679},
+							pos: position{line: 2215, col: 7, offset: 71711},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2214, col: 7, offset: 71679},
+									pos:   position{line: 2215, col: 7, offset: 71711},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1841, col: 25, offset: 59564},
+										pos: position{line: 1842, col: 25, offset: 59596},
 										run: (*parser).callonEscapedMarkedText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1841, col: 25, offset: 59564},
+											pos: position{line: 1842, col: 25, offset: 59596},
 											expr: &litMatcher{
-												pos:        position{line: 1841, col: 25, offset: 59564},
+												pos:        position{line: 1842, col: 25, offset: 59596},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42561,21 +42729,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2214, col: 42, offset: 71714},
+									pos:        position{line: 2215, col: 42, offset: 71746},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2214, col: 47, offset: 71719},
+									pos:   position{line: 2215, col: 47, offset: 71751},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2214, col: 57, offset: 71729},
+										pos:  position{line: 2215, col: 57, offset: 71761},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2214, col: 88, offset: 71760},
+									pos:        position{line: 2215, col: 88, offset: 71792},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -42584,21 +42752,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2219, col: 7, offset: 71963},
+						pos: position{line: 2220, col: 7, offset: 71995},
 						run: (*parser).callonEscapedMarkedText24,
 						expr: &seqExpr{
-							pos: position{line: 2219, col: 7, offset: 71963},
+							pos: position{line: 2220, col: 7, offset: 71995},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2219, col: 7, offset: 71963},
+									pos:   position{line: 2220, col: 7, offset: 71995},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1841, col: 25, offset: 59564},
+										pos: position{line: 1842, col: 25, offset: 59596},
 										run: (*parser).callonEscapedMarkedText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1841, col: 25, offset: 59564},
+											pos: position{line: 1842, col: 25, offset: 59596},
 											expr: &litMatcher{
-												pos:        position{line: 1841, col: 25, offset: 59564},
+												pos:        position{line: 1842, col: 25, offset: 59596},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42607,21 +42775,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2219, col: 42, offset: 71998},
+									pos:        position{line: 2220, col: 42, offset: 72030},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2219, col: 46, offset: 72002},
+									pos:   position{line: 2220, col: 46, offset: 72034},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2219, col: 56, offset: 72012},
+										pos:  position{line: 2220, col: 56, offset: 72044},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2219, col: 87, offset: 72043},
+									pos:        position{line: 2220, col: 87, offset: 72075},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -42634,29 +42802,29 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptText",
-			pos:  position{line: 2226, col: 1, offset: 72310},
+			pos:  position{line: 2227, col: 1, offset: 72342},
 			expr: &actionExpr{
-				pos: position{line: 2227, col: 5, offset: 72332},
+				pos: position{line: 2228, col: 5, offset: 72364},
 				run: (*parser).callonSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2227, col: 5, offset: 72332},
+					pos: position{line: 2228, col: 5, offset: 72364},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2233, col: 27, offset: 72547},
+							pos:        position{line: 2234, col: 27, offset: 72579},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2228, col: 5, offset: 72359},
+							pos:   position{line: 2229, col: 5, offset: 72391},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2228, col: 14, offset: 72368},
+								pos:  position{line: 2229, col: 14, offset: 72400},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2233, col: 27, offset: 72547},
+							pos:        position{line: 2234, col: 27, offset: 72579},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -42667,43 +42835,43 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptTextElement",
-			pos:  position{line: 2235, col: 1, offset: 72552},
+			pos:  position{line: 2236, col: 1, offset: 72584},
 			expr: &choiceExpr{
-				pos: position{line: 2235, col: 25, offset: 72576},
+				pos: position{line: 2236, col: 25, offset: 72608},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2235, col: 25, offset: 72576},
+						pos:  position{line: 2236, col: 25, offset: 72608},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2237, col: 21, offset: 72628},
+						pos: position{line: 2238, col: 21, offset: 72660},
 						run: (*parser).callonSubscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2237, col: 21, offset: 72628},
+							pos:   position{line: 2238, col: 21, offset: 72660},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2237, col: 30, offset: 72637},
+								pos: position{line: 2238, col: 30, offset: 72669},
 								expr: &choiceExpr{
-									pos: position{line: 2237, col: 31, offset: 72638},
+									pos: position{line: 2238, col: 31, offset: 72670},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2459, col: 5, offset: 79108},
+											pos: position{line: 2460, col: 5, offset: 79140},
 											run: (*parser).callonSubscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2459, col: 5, offset: 79108},
+												pos: position{line: 2460, col: 5, offset: 79140},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2459, col: 5, offset: 79108},
+														pos: position{line: 2460, col: 5, offset: 79140},
 														run: (*parser).callonSubscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2462, col: 5, offset: 79184},
+														pos:   position{line: 2463, col: 5, offset: 79216},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2463, col: 9, offset: 79202},
+															pos: position{line: 2464, col: 9, offset: 79234},
 															run: (*parser).callonSubscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2463, col: 10, offset: 79203},
+																pos:        position{line: 2464, col: 10, offset: 79235},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -42715,7 +42883,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2237, col: 50, offset: 72657},
+											pos:        position{line: 2238, col: 50, offset: 72689},
 											val:        "[^\\r\\n ~]",
 											chars:      []rune{'\r', '\n', ' ', '~'},
 											ignoreCase: false,
@@ -42731,23 +42899,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2241, col: 1, offset: 72707},
+			pos:  position{line: 2242, col: 1, offset: 72739},
 			expr: &actionExpr{
-				pos: position{line: 2243, col: 5, offset: 72774},
+				pos: position{line: 2244, col: 5, offset: 72806},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2243, col: 5, offset: 72774},
+					pos: position{line: 2244, col: 5, offset: 72806},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2243, col: 5, offset: 72774},
+							pos:   position{line: 2244, col: 5, offset: 72806},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1841, col: 25, offset: 59564},
+								pos: position{line: 1842, col: 25, offset: 59596},
 								run: (*parser).callonEscapedSubscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1841, col: 25, offset: 59564},
+									pos: position{line: 1842, col: 25, offset: 59596},
 									expr: &litMatcher{
-										pos:        position{line: 1841, col: 25, offset: 59564},
+										pos:        position{line: 1842, col: 25, offset: 59596},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -42756,21 +42924,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2233, col: 27, offset: 72547},
+							pos:        position{line: 2234, col: 27, offset: 72579},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2245, col: 5, offset: 72842},
+							pos:   position{line: 2246, col: 5, offset: 72874},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2245, col: 14, offset: 72851},
+								pos:  position{line: 2246, col: 14, offset: 72883},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2233, col: 27, offset: 72547},
+							pos:        position{line: 2234, col: 27, offset: 72579},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -42781,29 +42949,29 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2253, col: 1, offset: 73114},
+			pos:  position{line: 2254, col: 1, offset: 73146},
 			expr: &actionExpr{
-				pos: position{line: 2254, col: 5, offset: 73138},
+				pos: position{line: 2255, col: 5, offset: 73170},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2254, col: 5, offset: 73138},
+					pos: position{line: 2255, col: 5, offset: 73170},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2260, col: 29, offset: 73365},
+							pos:        position{line: 2261, col: 29, offset: 73397},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2255, col: 5, offset: 73168},
+							pos:   position{line: 2256, col: 5, offset: 73200},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2255, col: 14, offset: 73177},
+								pos:  position{line: 2256, col: 14, offset: 73209},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2260, col: 29, offset: 73365},
+							pos:        position{line: 2261, col: 29, offset: 73397},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -42814,43 +42982,43 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2262, col: 1, offset: 73370},
+			pos:  position{line: 2263, col: 1, offset: 73402},
 			expr: &choiceExpr{
-				pos: position{line: 2262, col: 27, offset: 73396},
+				pos: position{line: 2263, col: 27, offset: 73428},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2262, col: 27, offset: 73396},
+						pos:  position{line: 2263, col: 27, offset: 73428},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2264, col: 23, offset: 73452},
+						pos: position{line: 2265, col: 23, offset: 73484},
 						run: (*parser).callonSuperscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2264, col: 23, offset: 73452},
+							pos:   position{line: 2265, col: 23, offset: 73484},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2264, col: 32, offset: 73461},
+								pos: position{line: 2265, col: 32, offset: 73493},
 								expr: &choiceExpr{
-									pos: position{line: 2264, col: 33, offset: 73462},
+									pos: position{line: 2265, col: 33, offset: 73494},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2459, col: 5, offset: 79108},
+											pos: position{line: 2460, col: 5, offset: 79140},
 											run: (*parser).callonSuperscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2459, col: 5, offset: 79108},
+												pos: position{line: 2460, col: 5, offset: 79140},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2459, col: 5, offset: 79108},
+														pos: position{line: 2460, col: 5, offset: 79140},
 														run: (*parser).callonSuperscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2462, col: 5, offset: 79184},
+														pos:   position{line: 2463, col: 5, offset: 79216},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2463, col: 9, offset: 79202},
+															pos: position{line: 2464, col: 9, offset: 79234},
 															run: (*parser).callonSuperscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2463, col: 10, offset: 79203},
+																pos:        position{line: 2464, col: 10, offset: 79235},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -42862,7 +43030,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2264, col: 52, offset: 73481},
+											pos:        position{line: 2265, col: 52, offset: 73513},
 											val:        "[^\\r\\n ^]",
 											chars:      []rune{'\r', '\n', ' ', '^'},
 											ignoreCase: false,
@@ -42878,23 +43046,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2268, col: 1, offset: 73531},
+			pos:  position{line: 2269, col: 1, offset: 73563},
 			expr: &actionExpr{
-				pos: position{line: 2270, col: 5, offset: 73603},
+				pos: position{line: 2271, col: 5, offset: 73635},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2270, col: 5, offset: 73603},
+					pos: position{line: 2271, col: 5, offset: 73635},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2270, col: 5, offset: 73603},
+							pos:   position{line: 2271, col: 5, offset: 73635},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1841, col: 25, offset: 59564},
+								pos: position{line: 1842, col: 25, offset: 59596},
 								run: (*parser).callonEscapedSuperscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1841, col: 25, offset: 59564},
+									pos: position{line: 1842, col: 25, offset: 59596},
 									expr: &litMatcher{
-										pos:        position{line: 1841, col: 25, offset: 59564},
+										pos:        position{line: 1842, col: 25, offset: 59596},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -42903,21 +43071,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2260, col: 29, offset: 73365},
+							pos:        position{line: 2261, col: 29, offset: 73397},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2272, col: 5, offset: 73673},
+							pos:   position{line: 2273, col: 5, offset: 73705},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2272, col: 14, offset: 73682},
+								pos:  position{line: 2273, col: 14, offset: 73714},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2260, col: 29, offset: 73365},
+							pos:        position{line: 2261, col: 29, offset: 73397},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -42928,27 +43096,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2281, col: 1, offset: 74151},
+			pos:  position{line: 2282, col: 1, offset: 74183},
 			expr: &actionExpr{
-				pos: position{line: 2282, col: 5, offset: 74167},
+				pos: position{line: 2283, col: 5, offset: 74199},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2282, col: 5, offset: 74167},
+					pos: position{line: 2283, col: 5, offset: 74199},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2282, col: 5, offset: 74167},
+							pos: position{line: 2283, col: 5, offset: 74199},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2285, col: 5, offset: 74230},
+							pos:   position{line: 2286, col: 5, offset: 74262},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2285, col: 12, offset: 74237},
+								pos: position{line: 2286, col: 12, offset: 74269},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2285, col: 12, offset: 74237},
+									pos: position{line: 2286, col: 12, offset: 74269},
 									expr: &litMatcher{
-										pos:        position{line: 2285, col: 13, offset: 74238},
+										pos:        position{line: 2286, col: 13, offset: 74270},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -42957,16 +43125,16 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2289, col: 5, offset: 74346},
+							pos: position{line: 2290, col: 5, offset: 74378},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2866, col: 11, offset: 90645},
+							pos: position{line: 2867, col: 11, offset: 90677},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2866, col: 11, offset: 90645},
+								pos: position{line: 2867, col: 11, offset: 90677},
 								expr: &charClassMatcher{
-									pos:        position{line: 2866, col: 11, offset: 90645},
+									pos:        position{line: 2867, col: 11, offset: 90677},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42975,36 +43143,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2293, col: 12, offset: 74505},
+							pos:   position{line: 2294, col: 12, offset: 74537},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2293, col: 19, offset: 74512},
+								pos:  position{line: 2294, col: 19, offset: 74544},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2884, col: 8, offset: 90982},
+							pos: position{line: 2885, col: 8, offset: 91014},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2871, col: 12, offset: 90755},
+									pos: position{line: 2872, col: 12, offset: 90787},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2871, col: 13, offset: 90756},
+										pos: position{line: 2872, col: 13, offset: 90788},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2871, col: 13, offset: 90756},
+												pos:        position{line: 2872, col: 13, offset: 90788},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2871, col: 20, offset: 90763},
+												pos:        position{line: 2872, col: 20, offset: 90795},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2871, col: 29, offset: 90772},
+												pos:        position{line: 2872, col: 29, offset: 90804},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -43013,9 +43181,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2881, col: 8, offset: 90932},
+									pos: position{line: 2882, col: 8, offset: 90964},
 									expr: &anyMatcher{
-										line: 2881, col: 9, offset: 90933,
+										line: 2882, col: 9, offset: 90965,
 									},
 								},
 							},
@@ -43026,24 +43194,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2297, col: 1, offset: 74608},
+			pos:  position{line: 2298, col: 1, offset: 74640},
 			expr: &actionExpr{
-				pos: position{line: 2298, col: 5, offset: 74629},
+				pos: position{line: 2299, col: 5, offset: 74661},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2298, col: 5, offset: 74629},
+					pos: position{line: 2299, col: 5, offset: 74661},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2298, col: 5, offset: 74629},
+							pos: position{line: 2299, col: 5, offset: 74661},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2303, col: 5, offset: 74744},
+							pos:   position{line: 2304, col: 5, offset: 74776},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2303, col: 14, offset: 74753},
+								pos: position{line: 2304, col: 14, offset: 74785},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2303, col: 15, offset: 74754},
+									pos:  position{line: 2304, col: 15, offset: 74786},
 									name: "SectionTitleElement",
 								},
 							},
@@ -43054,38 +43222,38 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2307, col: 1, offset: 74835},
+			pos:  position{line: 2308, col: 1, offset: 74867},
 			expr: &actionExpr{
-				pos: position{line: 2308, col: 5, offset: 74862},
+				pos: position{line: 2309, col: 5, offset: 74894},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2308, col: 5, offset: 74862},
+					pos: position{line: 2309, col: 5, offset: 74894},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2308, col: 5, offset: 74862},
+							pos: position{line: 2309, col: 5, offset: 74894},
 							expr: &choiceExpr{
-								pos: position{line: 2884, col: 8, offset: 90982},
+								pos: position{line: 2885, col: 8, offset: 91014},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2871, col: 12, offset: 90755},
+										pos: position{line: 2872, col: 12, offset: 90787},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2871, col: 13, offset: 90756},
+											pos: position{line: 2872, col: 13, offset: 90788},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2871, col: 13, offset: 90756},
+													pos:        position{line: 2872, col: 13, offset: 90788},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2871, col: 20, offset: 90763},
+													pos:        position{line: 2872, col: 20, offset: 90795},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2871, col: 29, offset: 90772},
+													pos:        position{line: 2872, col: 29, offset: 90804},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -43094,29 +43262,29 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2881, col: 8, offset: 90932},
+										pos: position{line: 2882, col: 8, offset: 90964},
 										expr: &anyMatcher{
-											line: 2881, col: 9, offset: 90933,
+											line: 2882, col: 9, offset: 90965,
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2309, col: 5, offset: 74871},
+							pos:   position{line: 2310, col: 5, offset: 74903},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2309, col: 14, offset: 74880},
+								pos: position{line: 2310, col: 14, offset: 74912},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2309, col: 14, offset: 74880},
+										pos:  position{line: 2310, col: 14, offset: 74912},
 										name: "SectionTitleLineElement",
 									},
 									&actionExpr{
-										pos: position{line: 2801, col: 12, offset: 88892},
+										pos: position{line: 2802, col: 12, offset: 88924},
 										run: (*parser).callonSectionTitleElement15,
 										expr: &charClassMatcher{
-											pos:        position{line: 2801, col: 12, offset: 88892},
+											pos:        position{line: 2802, col: 12, offset: 88924},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -43132,21 +43300,21 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleLineElement",
-			pos:  position{line: 2314, col: 1, offset: 74984},
+			pos:  position{line: 2315, col: 1, offset: 75016},
 			expr: &actionExpr{
-				pos: position{line: 2315, col: 5, offset: 75015},
+				pos: position{line: 2316, col: 5, offset: 75047},
 				run: (*parser).callonSectionTitleLineElement1,
 				expr: &seqExpr{
-					pos: position{line: 2315, col: 5, offset: 75015},
+					pos: position{line: 2316, col: 5, offset: 75047},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2315, col: 5, offset: 75015},
+							pos:   position{line: 2316, col: 5, offset: 75047},
 							label: "start",
 							expr: &actionExpr{
-								pos: position{line: 2887, col: 16, offset: 91106},
+								pos: position{line: 2888, col: 16, offset: 91138},
 								run: (*parser).callonSectionTitleLineElement4,
 								expr: &litMatcher{
-									pos:        position{line: 2887, col: 16, offset: 91106},
+									pos:        position{line: 2888, col: 16, offset: 91138},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -43154,27 +43322,27 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2316, col: 5, offset: 75039},
+							pos:   position{line: 2317, col: 5, offset: 75071},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2317, col: 9, offset: 75057},
+								pos: position{line: 2318, col: 9, offset: 75089},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2761, col: 5, offset: 87826},
+										pos: position{line: 2762, col: 5, offset: 87858},
 										run: (*parser).callonSectionTitleLineElement8,
 										expr: &seqExpr{
-											pos: position{line: 2761, col: 5, offset: 87826},
+											pos: position{line: 2762, col: 5, offset: 87858},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2761, col: 5, offset: 87826},
+													pos:   position{line: 2762, col: 5, offset: 87858},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2761, col: 11, offset: 87832},
+														pos: position{line: 2762, col: 11, offset: 87864},
 														run: (*parser).callonSectionTitleLineElement11,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2761, col: 11, offset: 87832},
+															pos: position{line: 2762, col: 11, offset: 87864},
 															expr: &charClassMatcher{
-																pos:        position{line: 2761, col: 11, offset: 87832},
+																pos:        position{line: 2762, col: 11, offset: 87864},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -43184,36 +43352,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2764, col: 5, offset: 87890},
+													pos: position{line: 2765, col: 5, offset: 87922},
 													expr: &seqExpr{
-														pos: position{line: 2765, col: 9, offset: 87901},
+														pos: position{line: 2766, col: 9, offset: 87933},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2765, col: 9, offset: 87901},
+																pos:        position{line: 2766, col: 9, offset: 87933},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2766, col: 9, offset: 87950},
+																pos: position{line: 2767, col: 9, offset: 87982},
 																run: (*parser).callonSectionTitleLineElement17,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2770, col: 5, offset: 88030},
+													pos: position{line: 2771, col: 5, offset: 88062},
 													expr: &seqExpr{
-														pos: position{line: 2771, col: 9, offset: 88041},
+														pos: position{line: 2772, col: 9, offset: 88073},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2771, col: 9, offset: 88041},
+																pos:        position{line: 2772, col: 9, offset: 88073},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2771, col: 13, offset: 88045},
+																pos:        position{line: 2772, col: 13, offset: 88077},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -43226,12 +43394,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2866, col: 11, offset: 90645},
+										pos: position{line: 2867, col: 11, offset: 90677},
 										run: (*parser).callonSectionTitleLineElement22,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2866, col: 11, offset: 90645},
+											pos: position{line: 2867, col: 11, offset: 90677},
 											expr: &charClassMatcher{
-												pos:        position{line: 2866, col: 11, offset: 90645},
+												pos:        position{line: 2867, col: 11, offset: 90677},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -43240,21 +43408,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2490, col: 5, offset: 80279},
+										pos: position{line: 2491, col: 5, offset: 80311},
 										run: (*parser).callonSectionTitleLineElement25,
 										expr: &seqExpr{
-											pos: position{line: 2490, col: 5, offset: 80279},
+											pos: position{line: 2491, col: 5, offset: 80311},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2490, col: 5, offset: 80279},
+													pos:        position{line: 2491, col: 5, offset: 80311},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2490, col: 10, offset: 80284},
+													pos: position{line: 2491, col: 10, offset: 80316},
 													expr: &charClassMatcher{
-														pos:        position{line: 2490, col: 11, offset: 80285},
+														pos:        position{line: 2491, col: 11, offset: 80317},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -43265,29 +43433,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2496, col: 5, offset: 80477},
+										pos: position{line: 2497, col: 5, offset: 80509},
 										run: (*parser).callonSectionTitleLineElement30,
 										expr: &seqExpr{
-											pos: position{line: 2496, col: 5, offset: 80477},
+											pos: position{line: 2497, col: 5, offset: 80509},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2496, col: 5, offset: 80477},
+													pos: position{line: 2497, col: 5, offset: 80509},
 													run: (*parser).callonSectionTitleLineElement32,
 												},
 												&andCodeExpr{
-													pos: position{line: 2499, col: 5, offset: 80548},
+													pos: position{line: 2500, col: 5, offset: 80580},
 													run: (*parser).callonSectionTitleLineElement33,
 												},
 												&litMatcher{
-													pos:        position{line: 2503, col: 5, offset: 80673},
+													pos:        position{line: 2504, col: 5, offset: 80705},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2503, col: 9, offset: 80677},
+													pos: position{line: 2504, col: 9, offset: 80709},
 													expr: &charClassMatcher{
-														pos:        position{line: 2503, col: 10, offset: 80678},
+														pos:        position{line: 2504, col: 10, offset: 80710},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -43298,31 +43466,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2320, col: 11, offset: 75122},
+										pos:  position{line: 2321, col: 11, offset: 75154},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2779, col: 5, offset: 88238},
+										pos: position{line: 2780, col: 5, offset: 88270},
 										run: (*parser).callonSectionTitleLineElement38,
 										expr: &choiceExpr{
-											pos: position{line: 2780, col: 9, offset: 88248},
+											pos: position{line: 2781, col: 9, offset: 88280},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2780, col: 10, offset: 88249},
+													pos:        position{line: 2781, col: 10, offset: 88281},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2782, col: 13, offset: 88346},
+													pos: position{line: 2783, col: 13, offset: 88378},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2782, col: 13, offset: 88346},
+															pos: position{line: 2783, col: 13, offset: 88378},
 															run: (*parser).callonSectionTitleLineElement42,
 														},
 														&litMatcher{
-															pos:        position{line: 2785, col: 13, offset: 88446},
+															pos:        position{line: 2786, col: 13, offset: 88478},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -43330,20 +43498,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2785, col: 19, offset: 88452},
+													pos:        position{line: 2786, col: 19, offset: 88484},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2788, col: 13, offset: 88490},
+													pos: position{line: 2789, col: 13, offset: 88522},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2788, col: 13, offset: 88490},
+															pos: position{line: 2789, col: 13, offset: 88522},
 															run: (*parser).callonSectionTitleLineElement46,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2791, col: 14, offset: 88583},
+															pos:        position{line: 2792, col: 14, offset: 88615},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -43352,18 +43520,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2793, col: 12, offset: 88627},
+													pos: position{line: 2794, col: 12, offset: 88659},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2793, col: 12, offset: 88627},
+															pos:        position{line: 2794, col: 12, offset: 88659},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2793, col: 16, offset: 88631},
+															pos: position{line: 2794, col: 16, offset: 88663},
 															expr: &litMatcher{
-																pos:        position{line: 2793, col: 17, offset: 88632},
+																pos:        position{line: 2794, col: 17, offset: 88664},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -43375,35 +43543,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2322, col: 11, offset: 75195},
+										pos:  position{line: 2323, col: 11, offset: 75227},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2323, col: 11, offset: 75211},
+										pos:  position{line: 2324, col: 11, offset: 75243},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2324, col: 11, offset: 75239},
+										pos:  position{line: 2325, col: 11, offset: 75271},
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2459, col: 5, offset: 79108},
+										pos: position{line: 2460, col: 5, offset: 79140},
 										run: (*parser).callonSectionTitleLineElement55,
 										expr: &seqExpr{
-											pos: position{line: 2459, col: 5, offset: 79108},
+											pos: position{line: 2460, col: 5, offset: 79140},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2459, col: 5, offset: 79108},
+													pos: position{line: 2460, col: 5, offset: 79140},
 													run: (*parser).callonSectionTitleLineElement57,
 												},
 												&labeledExpr{
-													pos:   position{line: 2462, col: 5, offset: 79184},
+													pos:   position{line: 2463, col: 5, offset: 79216},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2463, col: 9, offset: 79202},
+														pos: position{line: 2464, col: 9, offset: 79234},
 														run: (*parser).callonSectionTitleLineElement59,
 														expr: &charClassMatcher{
-															pos:        position{line: 2463, col: 10, offset: 79203},
+															pos:        position{line: 2464, col: 10, offset: 79235},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -43415,7 +43583,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2326, col: 11, offset: 75324},
+										pos:  position{line: 2327, col: 11, offset: 75356},
 										name: "InlineIcon",
 									},
 									&actionExpr{
@@ -43804,17 +43972,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2342, col: 5, offset: 75818},
+										pos: position{line: 2343, col: 5, offset: 75850},
 										run: (*parser).callonSectionTitleLineElement139,
 										expr: &seqExpr{
-											pos: position{line: 2342, col: 5, offset: 75818},
+											pos: position{line: 2343, col: 5, offset: 75850},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2342, col: 5, offset: 75818},
+													pos: position{line: 2343, col: 5, offset: 75850},
 													run: (*parser).callonSectionTitleLineElement141,
 												},
 												&labeledExpr{
-													pos:   position{line: 2345, col: 5, offset: 75873},
+													pos:   position{line: 2346, col: 5, offset: 75905},
 													label: "id",
 													expr: &actionExpr{
 														pos: position{line: 404, col: 5, offset: 12405},
@@ -44268,12 +44436,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2345, col: 26, offset: 75894},
+													pos: position{line: 2346, col: 26, offset: 75926},
 													expr: &actionExpr{
-														pos: position{line: 2862, col: 10, offset: 90584},
+														pos: position{line: 2863, col: 10, offset: 90616},
 														run: (*parser).callonSectionTitleLineElement235,
 														expr: &charClassMatcher{
-															pos:        position{line: 2862, col: 10, offset: 90584},
+															pos:        position{line: 2863, col: 10, offset: 90616},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -44282,30 +44450,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 2345, col: 33, offset: 75901},
+													pos: position{line: 2346, col: 33, offset: 75933},
 													expr: &choiceExpr{
-														pos: position{line: 2884, col: 8, offset: 90982},
+														pos: position{line: 2885, col: 8, offset: 91014},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2871, col: 12, offset: 90755},
+																pos: position{line: 2872, col: 12, offset: 90787},
 																run: (*parser).callonSectionTitleLineElement239,
 																expr: &choiceExpr{
-																	pos: position{line: 2871, col: 13, offset: 90756},
+																	pos: position{line: 2872, col: 13, offset: 90788},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2871, col: 13, offset: 90756},
+																			pos:        position{line: 2872, col: 13, offset: 90788},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2871, col: 20, offset: 90763},
+																			pos:        position{line: 2872, col: 20, offset: 90795},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2871, col: 29, offset: 90772},
+																			pos:        position{line: 2872, col: 29, offset: 90804},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -44314,9 +44482,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2881, col: 8, offset: 90932},
+																pos: position{line: 2882, col: 8, offset: 90964},
 																expr: &anyMatcher{
-																	line: 2881, col: 9, offset: 90933,
+																	line: 2882, col: 9, offset: 90965,
 																},
 															},
 														},
@@ -44341,12 +44509,12 @@ var g = &grammar{
 													pos:   position{line: 1253, col: 14, offset: 38814},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2847, col: 7, offset: 90236},
+														pos: position{line: 2848, col: 7, offset: 90268},
 														run: (*parser).callonSectionTitleLineElement250,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2847, col: 7, offset: 90236},
+															pos: position{line: 2848, col: 7, offset: 90268},
 															expr: &charClassMatcher{
-																pos:        position{line: 2847, col: 7, offset: 90236},
+																pos:        position{line: 2848, col: 7, offset: 90268},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -44380,12 +44548,12 @@ var g = &grammar{
 													pos:   position{line: 1258, col: 10, offset: 38946},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2847, col: 7, offset: 90236},
+														pos: position{line: 2848, col: 7, offset: 90268},
 														run: (*parser).callonSectionTitleLineElement258,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2847, col: 7, offset: 90236},
+															pos: position{line: 2848, col: 7, offset: 90268},
 															expr: &charClassMatcher{
-																pos:        position{line: 2847, col: 7, offset: 90236},
+																pos:        position{line: 2848, col: 7, offset: 90268},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -44404,20 +44572,20 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2331, col: 11, offset: 75578},
+										pos:  position{line: 2332, col: 11, offset: 75610},
 										name: "InlineFootnote",
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2332, col: 5, offset: 75598},
+							pos:   position{line: 2333, col: 5, offset: 75630},
 							label: "end",
 							expr: &actionExpr{
-								pos: position{line: 2887, col: 16, offset: 91106},
+								pos: position{line: 2888, col: 16, offset: 91138},
 								run: (*parser).callonSectionTitleLineElement264,
 								expr: &litMatcher{
-									pos:        position{line: 2887, col: 16, offset: 91106},
+									pos:        position{line: 2888, col: 16, offset: 91138},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -44425,7 +44593,7 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2333, col: 5, offset: 75620},
+							pos: position{line: 2334, col: 5, offset: 75652},
 							run: (*parser).callonSectionTitleLineElement266,
 						},
 					},
@@ -44434,52 +44602,52 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2355, col: 1, offset: 76163},
+			pos:  position{line: 2356, col: 1, offset: 76195},
 			expr: &actionExpr{
-				pos: position{line: 2356, col: 5, offset: 76250},
+				pos: position{line: 2357, col: 5, offset: 76282},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2356, col: 5, offset: 76250},
+					pos: position{line: 2357, col: 5, offset: 76282},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2356, col: 5, offset: 76250},
+							pos:   position{line: 2357, col: 5, offset: 76282},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2356, col: 14, offset: 76259},
+								pos: position{line: 2357, col: 14, offset: 76291},
 								expr: &actionExpr{
-									pos: position{line: 2358, col: 9, offset: 76285},
+									pos: position{line: 2359, col: 9, offset: 76317},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2358, col: 9, offset: 76285},
+										pos: position{line: 2359, col: 9, offset: 76317},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2879, col: 11, offset: 90918},
+												pos: position{line: 2880, col: 11, offset: 90950},
 												expr: &anyMatcher{
-													line: 2879, col: 13, offset: 90920,
+													line: 2880, col: 13, offset: 90952,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2359, col: 9, offset: 76300},
+												pos:   position{line: 2360, col: 9, offset: 76332},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2360, col: 13, offset: 76322},
+													pos: position{line: 2361, col: 13, offset: 76354},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2761, col: 5, offset: 87826},
+															pos: position{line: 2762, col: 5, offset: 87858},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2761, col: 5, offset: 87826},
+																pos: position{line: 2762, col: 5, offset: 87858},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 2761, col: 5, offset: 87826},
+																		pos:   position{line: 2762, col: 5, offset: 87858},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2761, col: 11, offset: 87832},
+																			pos: position{line: 2762, col: 11, offset: 87864},
 																			run: (*parser).callonNormalGroup14,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2761, col: 11, offset: 87832},
+																				pos: position{line: 2762, col: 11, offset: 87864},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2761, col: 11, offset: 87832},
+																					pos:        position{line: 2762, col: 11, offset: 87864},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -44489,36 +44657,36 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2764, col: 5, offset: 87890},
+																		pos: position{line: 2765, col: 5, offset: 87922},
 																		expr: &seqExpr{
-																			pos: position{line: 2765, col: 9, offset: 87901},
+																			pos: position{line: 2766, col: 9, offset: 87933},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2765, col: 9, offset: 87901},
+																					pos:        position{line: 2766, col: 9, offset: 87933},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2766, col: 9, offset: 87950},
+																					pos: position{line: 2767, col: 9, offset: 87982},
 																					run: (*parser).callonNormalGroup20,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2770, col: 5, offset: 88030},
+																		pos: position{line: 2771, col: 5, offset: 88062},
 																		expr: &seqExpr{
-																			pos: position{line: 2771, col: 9, offset: 88041},
+																			pos: position{line: 2772, col: 9, offset: 88073},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2771, col: 9, offset: 88041},
+																					pos:        position{line: 2772, col: 9, offset: 88073},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2771, col: 13, offset: 88045},
+																					pos:        position{line: 2772, col: 13, offset: 88077},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -44531,12 +44699,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2866, col: 11, offset: 90645},
+															pos: position{line: 2867, col: 11, offset: 90677},
 															run: (*parser).callonNormalGroup25,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2866, col: 11, offset: 90645},
+																pos: position{line: 2867, col: 11, offset: 90677},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2866, col: 11, offset: 90645},
+																	pos:        position{line: 2867, col: 11, offset: 90677},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -44545,25 +44713,25 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2362, col: 15, offset: 76368},
+															pos:  position{line: 2363, col: 15, offset: 76400},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2490, col: 5, offset: 80279},
+															pos: position{line: 2491, col: 5, offset: 80311},
 															run: (*parser).callonNormalGroup29,
 															expr: &seqExpr{
-																pos: position{line: 2490, col: 5, offset: 80279},
+																pos: position{line: 2491, col: 5, offset: 80311},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2490, col: 5, offset: 80279},
+																		pos:        position{line: 2491, col: 5, offset: 80311},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2490, col: 10, offset: 80284},
+																		pos: position{line: 2491, col: 10, offset: 80316},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2490, col: 11, offset: 80285},
+																			pos:        position{line: 2491, col: 11, offset: 80317},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -44574,29 +44742,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2496, col: 5, offset: 80477},
+															pos: position{line: 2497, col: 5, offset: 80509},
 															run: (*parser).callonNormalGroup34,
 															expr: &seqExpr{
-																pos: position{line: 2496, col: 5, offset: 80477},
+																pos: position{line: 2497, col: 5, offset: 80509},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2496, col: 5, offset: 80477},
+																		pos: position{line: 2497, col: 5, offset: 80509},
 																		run: (*parser).callonNormalGroup36,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2499, col: 5, offset: 80548},
+																		pos: position{line: 2500, col: 5, offset: 80580},
 																		run: (*parser).callonNormalGroup37,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2503, col: 5, offset: 80673},
+																		pos:        position{line: 2504, col: 5, offset: 80705},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2503, col: 9, offset: 80677},
+																		pos: position{line: 2504, col: 9, offset: 80709},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2503, col: 10, offset: 80678},
+																			pos:        position{line: 2504, col: 10, offset: 80710},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -44607,27 +44775,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2779, col: 5, offset: 88238},
+															pos: position{line: 2780, col: 5, offset: 88270},
 															run: (*parser).callonNormalGroup41,
 															expr: &choiceExpr{
-																pos: position{line: 2780, col: 9, offset: 88248},
+																pos: position{line: 2781, col: 9, offset: 88280},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2780, col: 10, offset: 88249},
+																		pos:        position{line: 2781, col: 10, offset: 88281},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2782, col: 13, offset: 88346},
+																		pos: position{line: 2783, col: 13, offset: 88378},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2782, col: 13, offset: 88346},
+																				pos: position{line: 2783, col: 13, offset: 88378},
 																				run: (*parser).callonNormalGroup45,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2785, col: 13, offset: 88446},
+																				pos:        position{line: 2786, col: 13, offset: 88478},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -44635,20 +44803,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2785, col: 19, offset: 88452},
+																		pos:        position{line: 2786, col: 19, offset: 88484},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2788, col: 13, offset: 88490},
+																		pos: position{line: 2789, col: 13, offset: 88522},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2788, col: 13, offset: 88490},
+																				pos: position{line: 2789, col: 13, offset: 88522},
 																				run: (*parser).callonNormalGroup49,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2791, col: 14, offset: 88583},
+																				pos:        position{line: 2792, col: 14, offset: 88615},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -44657,18 +44825,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2793, col: 12, offset: 88627},
+																		pos: position{line: 2794, col: 12, offset: 88659},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2793, col: 12, offset: 88627},
+																				pos:        position{line: 2794, col: 12, offset: 88659},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2793, col: 16, offset: 88631},
+																				pos: position{line: 2794, col: 16, offset: 88663},
 																				expr: &litMatcher{
-																					pos:        position{line: 2793, col: 17, offset: 88632},
+																					pos:        position{line: 2794, col: 17, offset: 88664},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -44680,25 +44848,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2871, col: 12, offset: 90755},
+															pos: position{line: 2872, col: 12, offset: 90787},
 															run: (*parser).callonNormalGroup55,
 															expr: &choiceExpr{
-																pos: position{line: 2871, col: 13, offset: 90756},
+																pos: position{line: 2872, col: 13, offset: 90788},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2871, col: 13, offset: 90756},
+																		pos:        position{line: 2872, col: 13, offset: 90788},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2871, col: 20, offset: 90763},
+																		pos:        position{line: 2872, col: 20, offset: 90795},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2871, col: 29, offset: 90772},
+																		pos:        position{line: 2872, col: 29, offset: 90804},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -45053,35 +45221,35 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2367, col: 15, offset: 76535},
+															pos:  position{line: 2368, col: 15, offset: 76567},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2368, col: 15, offset: 76555},
+															pos:  position{line: 2369, col: 15, offset: 76587},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2369, col: 15, offset: 76644},
+															pos:  position{line: 2370, col: 15, offset: 76676},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2459, col: 5, offset: 79108},
+															pos: position{line: 2460, col: 5, offset: 79140},
 															run: (*parser).callonNormalGroup132,
 															expr: &seqExpr{
-																pos: position{line: 2459, col: 5, offset: 79108},
+																pos: position{line: 2460, col: 5, offset: 79140},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2459, col: 5, offset: 79108},
+																		pos: position{line: 2460, col: 5, offset: 79140},
 																		run: (*parser).callonNormalGroup134,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2462, col: 5, offset: 79184},
+																		pos:   position{line: 2463, col: 5, offset: 79216},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2463, col: 9, offset: 79202},
+																			pos: position{line: 2464, col: 9, offset: 79234},
 																			run: (*parser).callonNormalGroup136,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2463, col: 10, offset: 79203},
+																				pos:        position{line: 2464, col: 10, offset: 79235},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -45115,10 +45283,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1214, col: 5, offset: 37662},
 																		expr: &actionExpr{
-																			pos: position{line: 2862, col: 10, offset: 90584},
+																			pos: position{line: 2863, col: 10, offset: 90616},
 																			run: (*parser).callonNormalGroup144,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2862, col: 10, offset: 90584},
+																				pos:        position{line: 2863, col: 10, offset: 90616},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45129,28 +45297,28 @@ var g = &grammar{
 																	&andExpr{
 																		pos: position{line: 1214, col: 12, offset: 37669},
 																		expr: &choiceExpr{
-																			pos: position{line: 2884, col: 8, offset: 90982},
+																			pos: position{line: 2885, col: 8, offset: 91014},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2871, col: 12, offset: 90755},
+																					pos: position{line: 2872, col: 12, offset: 90787},
 																					run: (*parser).callonNormalGroup148,
 																					expr: &choiceExpr{
-																						pos: position{line: 2871, col: 13, offset: 90756},
+																						pos: position{line: 2872, col: 13, offset: 90788},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2871, col: 13, offset: 90756},
+																								pos:        position{line: 2872, col: 13, offset: 90788},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2871, col: 20, offset: 90763},
+																								pos:        position{line: 2872, col: 20, offset: 90795},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2871, col: 29, offset: 90772},
+																								pos:        position{line: 2872, col: 29, offset: 90804},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -45159,9 +45327,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2881, col: 8, offset: 90932},
+																					pos: position{line: 2882, col: 8, offset: 90964},
 																					expr: &anyMatcher{
-																						line: 2881, col: 9, offset: 90933,
+																						line: 2882, col: 9, offset: 90965,
 																					},
 																				},
 																			},
@@ -45171,7 +45339,7 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2372, col: 15, offset: 76826},
+															pos:  position{line: 2373, col: 15, offset: 76858},
 															name: "InlinePassthrough",
 														},
 														&actionExpr{
@@ -45214,10 +45382,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2801, col: 12, offset: 88892},
+															pos: position{line: 2802, col: 12, offset: 88924},
 															run: (*parser).callonNormalGroup164,
 															expr: &charClassMatcher{
-																pos:        position{line: 2801, col: 12, offset: 88892},
+																pos:        position{line: 2802, col: 12, offset: 88924},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -45233,9 +45401,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2881, col: 8, offset: 90932},
+							pos: position{line: 2882, col: 8, offset: 90964},
 							expr: &anyMatcher{
-								line: 2881, col: 9, offset: 90933,
+								line: 2882, col: 9, offset: 90965,
 							},
 						},
 					},
@@ -45244,28 +45412,28 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2383, col: 1, offset: 77264},
+			pos:  position{line: 2384, col: 1, offset: 77296},
 			expr: &actionExpr{
-				pos: position{line: 2384, col: 5, offset: 77297},
+				pos: position{line: 2385, col: 5, offset: 77329},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2384, col: 5, offset: 77297},
+					pos: position{line: 2385, col: 5, offset: 77329},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2384, col: 5, offset: 77297},
+							pos:   position{line: 2385, col: 5, offset: 77329},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2384, col: 14, offset: 77306},
+								pos: position{line: 2385, col: 14, offset: 77338},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2384, col: 15, offset: 77307},
+									pos:  position{line: 2385, col: 15, offset: 77339},
 									name: "AttributeStructuredValueElement",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2881, col: 8, offset: 90932},
+							pos: position{line: 2882, col: 8, offset: 90964},
 							expr: &anyMatcher{
-								line: 2881, col: 9, offset: 90933,
+								line: 2882, col: 9, offset: 90965,
 							},
 						},
 					},
@@ -45274,41 +45442,41 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2388, col: 1, offset: 77404},
+			pos:  position{line: 2389, col: 1, offset: 77436},
 			expr: &actionExpr{
-				pos: position{line: 2389, col: 5, offset: 77444},
+				pos: position{line: 2390, col: 5, offset: 77476},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2389, col: 5, offset: 77444},
+					pos: position{line: 2390, col: 5, offset: 77476},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2879, col: 11, offset: 90918},
+							pos: position{line: 2880, col: 11, offset: 90950},
 							expr: &anyMatcher{
-								line: 2879, col: 13, offset: 90920,
+								line: 2880, col: 13, offset: 90952,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2390, col: 5, offset: 77455},
+							pos:   position{line: 2391, col: 5, offset: 77487},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2391, col: 9, offset: 77473},
+								pos: position{line: 2392, col: 9, offset: 77505},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2761, col: 5, offset: 87826},
+										pos: position{line: 2762, col: 5, offset: 87858},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2761, col: 5, offset: 87826},
+											pos: position{line: 2762, col: 5, offset: 87858},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2761, col: 5, offset: 87826},
+													pos:   position{line: 2762, col: 5, offset: 87858},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2761, col: 11, offset: 87832},
+														pos: position{line: 2762, col: 11, offset: 87864},
 														run: (*parser).callonAttributeStructuredValueElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2761, col: 11, offset: 87832},
+															pos: position{line: 2762, col: 11, offset: 87864},
 															expr: &charClassMatcher{
-																pos:        position{line: 2761, col: 11, offset: 87832},
+																pos:        position{line: 2762, col: 11, offset: 87864},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45318,36 +45486,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2764, col: 5, offset: 87890},
+													pos: position{line: 2765, col: 5, offset: 87922},
 													expr: &seqExpr{
-														pos: position{line: 2765, col: 9, offset: 87901},
+														pos: position{line: 2766, col: 9, offset: 87933},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2765, col: 9, offset: 87901},
+																pos:        position{line: 2766, col: 9, offset: 87933},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2766, col: 9, offset: 87950},
+																pos: position{line: 2767, col: 9, offset: 87982},
 																run: (*parser).callonAttributeStructuredValueElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2770, col: 5, offset: 88030},
+													pos: position{line: 2771, col: 5, offset: 88062},
 													expr: &seqExpr{
-														pos: position{line: 2771, col: 9, offset: 88041},
+														pos: position{line: 2772, col: 9, offset: 88073},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2771, col: 9, offset: 88041},
+																pos:        position{line: 2772, col: 9, offset: 88073},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2771, col: 13, offset: 88045},
+																pos:        position{line: 2772, col: 13, offset: 88077},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45360,10 +45528,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2862, col: 10, offset: 90584},
+										pos: position{line: 2863, col: 10, offset: 90616},
 										run: (*parser).callonAttributeStructuredValueElement21,
 										expr: &charClassMatcher{
-											pos:        position{line: 2862, col: 10, offset: 90584},
+											pos:        position{line: 2863, col: 10, offset: 90616},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -45371,31 +45539,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2393, col: 11, offset: 77511},
+										pos:  position{line: 2394, col: 11, offset: 77543},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2779, col: 5, offset: 88238},
+										pos: position{line: 2780, col: 5, offset: 88270},
 										run: (*parser).callonAttributeStructuredValueElement24,
 										expr: &choiceExpr{
-											pos: position{line: 2780, col: 9, offset: 88248},
+											pos: position{line: 2781, col: 9, offset: 88280},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2780, col: 10, offset: 88249},
+													pos:        position{line: 2781, col: 10, offset: 88281},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2782, col: 13, offset: 88346},
+													pos: position{line: 2783, col: 13, offset: 88378},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2782, col: 13, offset: 88346},
+															pos: position{line: 2783, col: 13, offset: 88378},
 															run: (*parser).callonAttributeStructuredValueElement28,
 														},
 														&litMatcher{
-															pos:        position{line: 2785, col: 13, offset: 88446},
+															pos:        position{line: 2786, col: 13, offset: 88478},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -45403,20 +45571,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2785, col: 19, offset: 88452},
+													pos:        position{line: 2786, col: 19, offset: 88484},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2788, col: 13, offset: 88490},
+													pos: position{line: 2789, col: 13, offset: 88522},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2788, col: 13, offset: 88490},
+															pos: position{line: 2789, col: 13, offset: 88522},
 															run: (*parser).callonAttributeStructuredValueElement32,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2791, col: 14, offset: 88583},
+															pos:        position{line: 2792, col: 14, offset: 88615},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -45425,18 +45593,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2793, col: 12, offset: 88627},
+													pos: position{line: 2794, col: 12, offset: 88659},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2793, col: 12, offset: 88627},
+															pos:        position{line: 2794, col: 12, offset: 88659},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2793, col: 16, offset: 88631},
+															pos: position{line: 2794, col: 16, offset: 88663},
 															expr: &litMatcher{
-																pos:        position{line: 2793, col: 17, offset: 88632},
+																pos:        position{line: 2794, col: 17, offset: 88664},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -45448,31 +45616,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2395, col: 11, offset: 77584},
+										pos:  position{line: 2396, col: 11, offset: 77616},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2396, col: 11, offset: 77600},
+										pos:  position{line: 2397, col: 11, offset: 77632},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2459, col: 5, offset: 79108},
+										pos: position{line: 2460, col: 5, offset: 79140},
 										run: (*parser).callonAttributeStructuredValueElement40,
 										expr: &seqExpr{
-											pos: position{line: 2459, col: 5, offset: 79108},
+											pos: position{line: 2460, col: 5, offset: 79140},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2459, col: 5, offset: 79108},
+													pos: position{line: 2460, col: 5, offset: 79140},
 													run: (*parser).callonAttributeStructuredValueElement42,
 												},
 												&labeledExpr{
-													pos:   position{line: 2462, col: 5, offset: 79184},
+													pos:   position{line: 2463, col: 5, offset: 79216},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2463, col: 9, offset: 79202},
+														pos: position{line: 2464, col: 9, offset: 79234},
 														run: (*parser).callonAttributeStructuredValueElement44,
 														expr: &charClassMatcher{
-															pos:        position{line: 2463, col: 10, offset: 79203},
+															pos:        position{line: 2464, col: 10, offset: 79235},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -45523,25 +45691,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2871, col: 12, offset: 90755},
+										pos: position{line: 2872, col: 12, offset: 90787},
 										run: (*parser).callonAttributeStructuredValueElement54,
 										expr: &choiceExpr{
-											pos: position{line: 2871, col: 13, offset: 90756},
+											pos: position{line: 2872, col: 13, offset: 90788},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2871, col: 13, offset: 90756},
+													pos:        position{line: 2872, col: 13, offset: 90788},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2871, col: 20, offset: 90763},
+													pos:        position{line: 2872, col: 20, offset: 90795},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2871, col: 29, offset: 90772},
+													pos:        position{line: 2872, col: 29, offset: 90804},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -45550,10 +45718,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2801, col: 12, offset: 88892},
+										pos: position{line: 2802, col: 12, offset: 88924},
 										run: (*parser).callonAttributeStructuredValueElement59,
 										expr: &charClassMatcher{
-											pos:        position{line: 2801, col: 12, offset: 88892},
+											pos:        position{line: 2802, col: 12, offset: 88924},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -45569,49 +45737,49 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2407, col: 1, offset: 77870},
+			pos:  position{line: 2408, col: 1, offset: 77902},
 			expr: &actionExpr{
-				pos: position{line: 2409, col: 5, offset: 77952},
+				pos: position{line: 2410, col: 5, offset: 77984},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2409, col: 5, offset: 77952},
+					pos: position{line: 2410, col: 5, offset: 77984},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2409, col: 5, offset: 77952},
+							pos: position{line: 2410, col: 5, offset: 77984},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2412, col: 5, offset: 78017},
+							pos:   position{line: 2413, col: 5, offset: 78049},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2413, col: 9, offset: 78035},
+								pos: position{line: 2414, col: 9, offset: 78067},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2413, col: 9, offset: 78035},
+										pos:  position{line: 2414, col: 9, offset: 78067},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2414, col: 11, offset: 78056},
+										pos:  position{line: 2415, col: 11, offset: 78088},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2415, col: 11, offset: 78079},
+										pos:  position{line: 2416, col: 11, offset: 78111},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2416, col: 11, offset: 78095},
+										pos:  position{line: 2417, col: 11, offset: 78127},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2417, col: 11, offset: 78124},
+										pos:  position{line: 2418, col: 11, offset: 78156},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2418, col: 11, offset: 78150},
+										pos:  position{line: 2419, col: 11, offset: 78182},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2419, col: 11, offset: 78176},
+										pos:  position{line: 2420, col: 11, offset: 78208},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
@@ -45630,12 +45798,12 @@ var g = &grammar{
 													pos:   position{line: 1253, col: 14, offset: 38814},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2847, col: 7, offset: 90236},
+														pos: position{line: 2848, col: 7, offset: 90268},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2847, col: 7, offset: 90236},
+															pos: position{line: 2848, col: 7, offset: 90268},
 															expr: &charClassMatcher{
-																pos:        position{line: 2847, col: 7, offset: 90236},
+																pos:        position{line: 2848, col: 7, offset: 90268},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -45669,12 +45837,12 @@ var g = &grammar{
 													pos:   position{line: 1258, col: 10, offset: 38946},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2847, col: 7, offset: 90236},
+														pos: position{line: 2848, col: 7, offset: 90268},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2847, col: 7, offset: 90236},
+															pos: position{line: 2848, col: 7, offset: 90268},
 															expr: &charClassMatcher{
-																pos:        position{line: 2847, col: 7, offset: 90236},
+																pos:        position{line: 2848, col: 7, offset: 90268},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -45716,17 +45884,17 @@ var g = &grammar{
 																pos: position{line: 1304, col: 31, offset: 40768},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2752, col: 13, offset: 87679},
+																		pos:        position{line: 2753, col: 13, offset: 87711},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2862, col: 10, offset: 90584},
+																		pos: position{line: 2863, col: 10, offset: 90616},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2862, col: 10, offset: 90584},
+																			pos:        position{line: 2863, col: 10, offset: 90616},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -45752,10 +45920,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1298, col: 12, offset: 40482},
 																		expr: &actionExpr{
-																			pos: position{line: 2862, col: 10, offset: 90584},
+																			pos: position{line: 2863, col: 10, offset: 90616},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2862, col: 10, offset: 90584},
+																				pos:        position{line: 2863, col: 10, offset: 90616},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45772,10 +45940,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1298, col: 23, offset: 40493},
 																		expr: &actionExpr{
-																			pos: position{line: 2862, col: 10, offset: 90584},
+																			pos: position{line: 2863, col: 10, offset: 90616},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2862, col: 10, offset: 90584},
+																				pos:        position{line: 2863, col: 10, offset: 90616},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45795,17 +45963,17 @@ var g = &grammar{
 																					pos: position{line: 1304, col: 31, offset: 40768},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2752, col: 13, offset: 87679},
+																							pos:        position{line: 2753, col: 13, offset: 87711},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2862, col: 10, offset: 90584},
+																							pos: position{line: 2863, col: 10, offset: 90616},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2862, col: 10, offset: 90584},
+																								pos:        position{line: 2863, col: 10, offset: 90616},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -45836,10 +46004,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1299, col: 12, offset: 40574},
 																		expr: &actionExpr{
-																			pos: position{line: 2862, col: 10, offset: 90584},
+																			pos: position{line: 2863, col: 10, offset: 90616},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2862, col: 10, offset: 90584},
+																				pos:        position{line: 2863, col: 10, offset: 90616},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45856,10 +46024,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1299, col: 23, offset: 40585},
 																		expr: &actionExpr{
-																			pos: position{line: 2862, col: 10, offset: 90584},
+																			pos: position{line: 2863, col: 10, offset: 90616},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2862, col: 10, offset: 90584},
+																				pos:        position{line: 2863, col: 10, offset: 90616},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45879,17 +46047,17 @@ var g = &grammar{
 																					pos: position{line: 1304, col: 31, offset: 40768},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2752, col: 13, offset: 87679},
+																							pos:        position{line: 2753, col: 13, offset: 87711},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2862, col: 10, offset: 90584},
+																							pos: position{line: 2863, col: 10, offset: 90616},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2862, col: 10, offset: 90584},
+																								pos:        position{line: 2863, col: 10, offset: 90616},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -45916,15 +46084,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2422, col: 11, offset: 78255},
+										pos:  position{line: 2423, col: 11, offset: 78287},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2423, col: 11, offset: 78275},
+										pos:  position{line: 2424, col: 11, offset: 78307},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2424, col: 11, offset: 78298},
+										pos:  position{line: 2425, col: 11, offset: 78330},
 										name: "InlineMenu",
 									},
 								},
@@ -45936,22 +46104,22 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2428, col: 1, offset: 78355},
+			pos:  position{line: 2429, col: 1, offset: 78387},
 			expr: &actionExpr{
-				pos: position{line: 2430, col: 5, offset: 78443},
+				pos: position{line: 2431, col: 5, offset: 78475},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2430, col: 5, offset: 78443},
+					pos: position{line: 2431, col: 5, offset: 78475},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2430, col: 5, offset: 78443},
+							pos: position{line: 2431, col: 5, offset: 78475},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2433, col: 5, offset: 78520},
+							pos:   position{line: 2434, col: 5, offset: 78552},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2434, col: 9, offset: 78538},
+								pos: position{line: 2435, col: 9, offset: 78570},
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 1379, col: 26, offset: 44105},
@@ -46006,10 +46174,10 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1385, col: 12, offset: 44551},
 																				expr: &actionExpr{
-																					pos: position{line: 2862, col: 10, offset: 90584},
+																					pos: position{line: 2863, col: 10, offset: 90616},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2862, col: 10, offset: 90584},
+																						pos:        position{line: 2863, col: 10, offset: 90616},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -46020,25 +46188,25 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1385, col: 19, offset: 44558},
 																				expr: &actionExpr{
-																					pos: position{line: 2871, col: 12, offset: 90755},
+																					pos: position{line: 2872, col: 12, offset: 90787},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2871, col: 13, offset: 90756},
+																						pos: position{line: 2872, col: 13, offset: 90788},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2871, col: 13, offset: 90756},
+																								pos:        position{line: 2872, col: 13, offset: 90788},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2871, col: 20, offset: 90763},
+																								pos:        position{line: 2872, col: 20, offset: 90795},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2871, col: 29, offset: 90772},
+																								pos:        position{line: 2872, col: 29, offset: 90804},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -46075,7 +46243,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1379, col: 121, offset: 44200},
 													expr: &charClassMatcher{
-														pos:        position{line: 2752, col: 13, offset: 87679},
+														pos:        position{line: 2753, col: 13, offset: 87711},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -46121,10 +46289,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1371, col: 64, offset: 43660},
 																			expr: &actionExpr{
-																				pos: position{line: 2862, col: 10, offset: 90584},
+																				pos: position{line: 2863, col: 10, offset: 90616},
 																				run: (*parser).callonInlinePassthrough45,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2862, col: 10, offset: 90584},
+																					pos:        position{line: 2863, col: 10, offset: 90616},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -46135,25 +46303,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1371, col: 71, offset: 43667},
 																			expr: &actionExpr{
-																				pos: position{line: 2871, col: 12, offset: 90755},
+																				pos: position{line: 2872, col: 12, offset: 90787},
 																				run: (*parser).callonInlinePassthrough48,
 																				expr: &choiceExpr{
-																					pos: position{line: 2871, col: 13, offset: 90756},
+																					pos: position{line: 2872, col: 13, offset: 90788},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 13, offset: 90756},
+																							pos:        position{line: 2872, col: 13, offset: 90788},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 20, offset: 90763},
+																							pos:        position{line: 2872, col: 20, offset: 90795},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 29, offset: 90772},
+																							pos:        position{line: 2872, col: 29, offset: 90804},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -46176,12 +46344,12 @@ var g = &grammar{
 																							pos: position{line: 1371, col: 86, offset: 43682},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2866, col: 11, offset: 90645},
+																									pos: position{line: 2867, col: 11, offset: 90677},
 																									run: (*parser).callonInlinePassthrough58,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2866, col: 11, offset: 90645},
+																										pos: position{line: 2867, col: 11, offset: 90677},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2866, col: 11, offset: 90645},
+																											pos:        position{line: 2867, col: 11, offset: 90677},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -46210,25 +46378,25 @@ var g = &grammar{
 																					&notExpr{
 																						pos: position{line: 1371, col: 151, offset: 43747},
 																						expr: &actionExpr{
-																							pos: position{line: 2871, col: 12, offset: 90755},
+																							pos: position{line: 2872, col: 12, offset: 90787},
 																							run: (*parser).callonInlinePassthrough65,
 																							expr: &choiceExpr{
-																								pos: position{line: 2871, col: 13, offset: 90756},
+																								pos: position{line: 2872, col: 13, offset: 90788},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2871, col: 13, offset: 90756},
+																										pos:        position{line: 2872, col: 13, offset: 90788},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2871, col: 20, offset: 90763},
+																										pos:        position{line: 2872, col: 20, offset: 90795},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2871, col: 29, offset: 90772},
+																										pos:        position{line: 2872, col: 29, offset: 90804},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -46255,10 +46423,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1373, col: 12, offset: 43907},
 																			expr: &actionExpr{
-																				pos: position{line: 2862, col: 10, offset: 90584},
+																				pos: position{line: 2863, col: 10, offset: 90616},
 																				run: (*parser).callonInlinePassthrough74,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2862, col: 10, offset: 90584},
+																					pos:        position{line: 2863, col: 10, offset: 90616},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -46269,25 +46437,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1373, col: 19, offset: 43914},
 																			expr: &actionExpr{
-																				pos: position{line: 2871, col: 12, offset: 90755},
+																				pos: position{line: 2872, col: 12, offset: 90787},
 																				run: (*parser).callonInlinePassthrough77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2871, col: 13, offset: 90756},
+																					pos: position{line: 2872, col: 13, offset: 90788},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 13, offset: 90756},
+																							pos:        position{line: 2872, col: 13, offset: 90788},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 20, offset: 90763},
+																							pos:        position{line: 2872, col: 20, offset: 90795},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2871, col: 29, offset: 90772},
+																							pos:        position{line: 2872, col: 29, offset: 90804},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -46323,7 +46491,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1367, col: 121, offset: 43483},
 													expr: &charClassMatcher{
-														pos:        position{line: 2752, col: 13, offset: 87679},
+														pos:        position{line: 2753, col: 13, offset: 87711},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -46334,7 +46502,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2434, col: 57, offset: 78586},
+										pos:  position{line: 2435, col: 57, offset: 78618},
 										name: "PassthroughMacro",
 									},
 								},
@@ -46346,16 +46514,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2439, col: 1, offset: 78646},
+			pos:  position{line: 2440, col: 1, offset: 78678},
 			expr: &seqExpr{
-				pos: position{line: 2441, col: 5, offset: 78722},
+				pos: position{line: 2442, col: 5, offset: 78754},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2441, col: 5, offset: 78722},
+						pos: position{line: 2442, col: 5, offset: 78754},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2444, col: 5, offset: 78787},
+						pos:  position{line: 2445, col: 5, offset: 78819},
 						name: "QuotedText",
 					},
 				},
@@ -46363,22 +46531,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2446, col: 1, offset: 78800},
+			pos:  position{line: 2447, col: 1, offset: 78832},
 			expr: &actionExpr{
-				pos: position{line: 2448, col: 5, offset: 78882},
+				pos: position{line: 2449, col: 5, offset: 78914},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2448, col: 5, offset: 78882},
+					pos: position{line: 2449, col: 5, offset: 78914},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2448, col: 5, offset: 78882},
+							pos: position{line: 2449, col: 5, offset: 78914},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2451, col: 5, offset: 78953},
+							pos:   position{line: 2452, col: 5, offset: 78985},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2452, col: 9, offset: 78971},
+								pos:  position{line: 2453, col: 9, offset: 79003},
 								name: "Symbol",
 							},
 						},
@@ -46388,93 +46556,93 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2507, col: 1, offset: 80730},
+			pos:  position{line: 2508, col: 1, offset: 80762},
 			expr: &choiceExpr{
-				pos: position{line: 2509, col: 5, offset: 80760},
+				pos: position{line: 2510, col: 5, offset: 80792},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2509, col: 5, offset: 80760},
+						pos: position{line: 2510, col: 5, offset: 80792},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2509, col: 5, offset: 80760},
+							pos: position{line: 2510, col: 5, offset: 80792},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2509, col: 5, offset: 80760},
+									pos:        position{line: 2510, col: 5, offset: 80792},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2509, col: 10, offset: 80765},
+									pos: position{line: 2510, col: 10, offset: 80797},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2509, col: 10, offset: 80765},
+											pos:  position{line: 2510, col: 10, offset: 80797},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2538, col: 14, offset: 81899},
+											pos: position{line: 2539, col: 14, offset: 81931},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2538, col: 14, offset: 81899},
+												pos:        position{line: 2539, col: 14, offset: 81931},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2542, col: 14, offset: 81965},
+											pos: position{line: 2543, col: 14, offset: 81997},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2542, col: 14, offset: 81965},
+												pos:        position{line: 2543, col: 14, offset: 81997},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2546, col: 15, offset: 82034},
+											pos: position{line: 2547, col: 15, offset: 82066},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2546, col: 15, offset: 82034},
+												pos:        position{line: 2547, col: 15, offset: 82066},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2550, col: 13, offset: 82099},
+											pos: position{line: 2551, col: 13, offset: 82131},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2550, col: 13, offset: 82099},
+												pos:        position{line: 2551, col: 13, offset: 82131},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2557, col: 5, offset: 82237},
+											pos: position{line: 2558, col: 5, offset: 82269},
 											run: (*parser).callonSymbol15,
 											expr: &seqExpr{
-												pos: position{line: 2557, col: 5, offset: 82237},
+												pos: position{line: 2558, col: 5, offset: 82269},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2557, col: 5, offset: 82237},
+														pos:        position{line: 2558, col: 5, offset: 82269},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2558, col: 5, offset: 82247},
+														pos: position{line: 2559, col: 5, offset: 82279},
 														run: (*parser).callonSymbol18,
 													},
 													&choiceExpr{
-														pos: position{line: 2562, col: 6, offset: 82334},
+														pos: position{line: 2563, col: 6, offset: 82366},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2862, col: 10, offset: 90584},
+																pos: position{line: 2863, col: 10, offset: 90616},
 																run: (*parser).callonSymbol20,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2862, col: 10, offset: 90584},
+																	pos:        position{line: 2863, col: 10, offset: 90616},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -46482,30 +46650,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2562, col: 14, offset: 82342},
+																pos: position{line: 2563, col: 14, offset: 82374},
 																expr: &choiceExpr{
-																	pos: position{line: 2884, col: 8, offset: 90982},
+																	pos: position{line: 2885, col: 8, offset: 91014},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2871, col: 12, offset: 90755},
+																			pos: position{line: 2872, col: 12, offset: 90787},
 																			run: (*parser).callonSymbol24,
 																			expr: &choiceExpr{
-																				pos: position{line: 2871, col: 13, offset: 90756},
+																				pos: position{line: 2872, col: 13, offset: 90788},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 13, offset: 90756},
+																						pos:        position{line: 2872, col: 13, offset: 90788},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 20, offset: 90763},
+																						pos:        position{line: 2872, col: 20, offset: 90795},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2871, col: 29, offset: 90772},
+																						pos:        position{line: 2872, col: 29, offset: 90804},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -46514,9 +46682,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2881, col: 8, offset: 90932},
+																			pos: position{line: 2882, col: 8, offset: 90964},
 																			expr: &anyMatcher{
-																				line: 2881, col: 9, offset: 90933,
+																				line: 2882, col: 9, offset: 90965,
 																			},
 																		},
 																	},
@@ -46528,53 +46696,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2567, col: 5, offset: 82462},
+											pos: position{line: 2568, col: 5, offset: 82494},
 											run: (*parser).callonSymbol31,
 											expr: &seqExpr{
-												pos: position{line: 2567, col: 5, offset: 82462},
+												pos: position{line: 2568, col: 5, offset: 82494},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2567, col: 5, offset: 82462},
+														pos:        position{line: 2568, col: 5, offset: 82494},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2568, col: 5, offset: 82472},
+														pos: position{line: 2569, col: 5, offset: 82504},
 														run: (*parser).callonSymbol34,
 													},
 													&andExpr{
-														pos: position{line: 2572, col: 5, offset: 82561},
+														pos: position{line: 2573, col: 5, offset: 82593},
 														expr: &choiceExpr{
-															pos: position{line: 2572, col: 7, offset: 82563},
+															pos: position{line: 2573, col: 7, offset: 82595},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2752, col: 13, offset: 87679},
+																	pos:        position{line: 2753, col: 13, offset: 87711},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2871, col: 12, offset: 90755},
+																	pos: position{line: 2872, col: 12, offset: 90787},
 																	run: (*parser).callonSymbol38,
 																	expr: &choiceExpr{
-																		pos: position{line: 2871, col: 13, offset: 90756},
+																		pos: position{line: 2872, col: 13, offset: 90788},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2871, col: 13, offset: 90756},
+																				pos:        position{line: 2872, col: 13, offset: 90788},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2871, col: 20, offset: 90763},
+																				pos:        position{line: 2872, col: 20, offset: 90795},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2871, col: 29, offset: 90772},
+																				pos:        position{line: 2872, col: 29, offset: 90804},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -46583,9 +46751,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2881, col: 8, offset: 90932},
+																	pos: position{line: 2882, col: 8, offset: 90964},
 																	expr: &anyMatcher{
-																		line: 2881, col: 9, offset: 90933,
+																		line: 2882, col: 9, offset: 90965,
 																	},
 																},
 															},
@@ -46600,63 +46768,63 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2512, col: 7, offset: 80929},
+						pos: position{line: 2513, col: 7, offset: 80961},
 						run: (*parser).callonSymbol45,
 						expr: &seqExpr{
-							pos: position{line: 2512, col: 7, offset: 80929},
+							pos: position{line: 2513, col: 7, offset: 80961},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2512, col: 7, offset: 80929},
+									pos:        position{line: 2513, col: 7, offset: 80961},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2512, col: 11, offset: 80933},
+									pos:   position{line: 2513, col: 11, offset: 80965},
 									label: "elements",
 									expr: &choiceExpr{
-										pos: position{line: 2512, col: 21, offset: 80943},
+										pos: position{line: 2513, col: 21, offset: 80975},
 										alternatives: []interface{}{
 											&seqExpr{
-												pos: position{line: 2512, col: 21, offset: 80943},
+												pos: position{line: 2513, col: 21, offset: 80975},
 												exprs: []interface{}{
 													&charClassMatcher{
-														pos:        position{line: 2512, col: 21, offset: 80943},
+														pos:        position{line: 2513, col: 21, offset: 80975},
 														val:        "[-=]",
 														chars:      []rune{'-', '='},
 														ignoreCase: false,
 														inverted:   false,
 													},
 													&andExpr{
-														pos: position{line: 2512, col: 26, offset: 80948},
+														pos: position{line: 2513, col: 26, offset: 80980},
 														expr: &litMatcher{
-															pos:        position{line: 2512, col: 27, offset: 80949},
+															pos:        position{line: 2513, col: 27, offset: 80981},
 															val:        ">",
 															ignoreCase: false,
 															want:       "\">\"",
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2512, col: 32, offset: 80954},
+														pos: position{line: 2513, col: 32, offset: 80986},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2459, col: 5, offset: 79108},
+																pos: position{line: 2460, col: 5, offset: 79140},
 																run: (*parser).callonSymbol55,
 																expr: &seqExpr{
-																	pos: position{line: 2459, col: 5, offset: 79108},
+																	pos: position{line: 2460, col: 5, offset: 79140},
 																	exprs: []interface{}{
 																		&andCodeExpr{
-																			pos: position{line: 2459, col: 5, offset: 79108},
+																			pos: position{line: 2460, col: 5, offset: 79140},
 																			run: (*parser).callonSymbol57,
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 2462, col: 5, offset: 79184},
+																			pos:   position{line: 2463, col: 5, offset: 79216},
 																			label: "element",
 																			expr: &actionExpr{
-																				pos: position{line: 2463, col: 9, offset: 79202},
+																				pos: position{line: 2464, col: 9, offset: 79234},
 																				run: (*parser).callonSymbol59,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2463, col: 10, offset: 79203},
+																					pos:        position{line: 2464, col: 10, offset: 79235},
 																					val:        "[<>&]",
 																					chars:      []rune{'<', '>', '&'},
 																					ignoreCase: false,
@@ -46668,28 +46836,28 @@ var g = &grammar{
 																},
 															},
 															&anyMatcher{
-																line: 2512, col: 51, offset: 80973,
+																line: 2513, col: 51, offset: 81005,
 															},
 														},
 													},
 												},
 											},
 											&seqExpr{
-												pos: position{line: 2512, col: 56, offset: 80978},
+												pos: position{line: 2513, col: 56, offset: 81010},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2512, col: 56, offset: 80978},
+														pos: position{line: 2513, col: 56, offset: 81010},
 														expr: &choiceExpr{
-															pos: position{line: 2512, col: 58, offset: 80980},
+															pos: position{line: 2513, col: 58, offset: 81012},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2512, col: 58, offset: 80980},
+																	pos:        position{line: 2513, col: 58, offset: 81012},
 																	val:        "<-",
 																	ignoreCase: false,
 																	want:       "\"<-\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2512, col: 65, offset: 80987},
+																	pos:        position{line: 2513, col: 65, offset: 81019},
 																	val:        "<=",
 																	ignoreCase: false,
 																	want:       "\"<=\"",
@@ -46698,26 +46866,26 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2512, col: 72, offset: 80994},
+														pos: position{line: 2513, col: 72, offset: 81026},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2459, col: 5, offset: 79108},
+																pos: position{line: 2460, col: 5, offset: 79140},
 																run: (*parser).callonSymbol68,
 																expr: &seqExpr{
-																	pos: position{line: 2459, col: 5, offset: 79108},
+																	pos: position{line: 2460, col: 5, offset: 79140},
 																	exprs: []interface{}{
 																		&andCodeExpr{
-																			pos: position{line: 2459, col: 5, offset: 79108},
+																			pos: position{line: 2460, col: 5, offset: 79140},
 																			run: (*parser).callonSymbol70,
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 2462, col: 5, offset: 79184},
+																			pos:   position{line: 2463, col: 5, offset: 79216},
 																			label: "element",
 																			expr: &actionExpr{
-																				pos: position{line: 2463, col: 9, offset: 79202},
+																				pos: position{line: 2464, col: 9, offset: 79234},
 																				run: (*parser).callonSymbol72,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2463, col: 10, offset: 79203},
+																					pos:        position{line: 2464, col: 10, offset: 79235},
 																					val:        "[<>&]",
 																					chars:      []rune{'<', '>', '&'},
 																					ignoreCase: false,
@@ -46729,12 +46897,12 @@ var g = &grammar{
 																},
 															},
 															&anyMatcher{
-																line: 2512, col: 91, offset: 81013,
+																line: 2513, col: 91, offset: 81045,
 															},
 														},
 													},
 													&anyMatcher{
-														line: 2512, col: 94, offset: 81016,
+														line: 2513, col: 94, offset: 81048,
 													},
 												},
 											},
@@ -46745,73 +46913,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2513, col: 7, offset: 81050},
+						pos:  position{line: 2514, col: 7, offset: 81082},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2538, col: 14, offset: 81899},
+						pos: position{line: 2539, col: 14, offset: 81931},
 						run: (*parser).callonSymbol77,
 						expr: &litMatcher{
-							pos:        position{line: 2538, col: 14, offset: 81899},
+							pos:        position{line: 2539, col: 14, offset: 81931},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2542, col: 14, offset: 81965},
+						pos: position{line: 2543, col: 14, offset: 81997},
 						run: (*parser).callonSymbol79,
 						expr: &litMatcher{
-							pos:        position{line: 2542, col: 14, offset: 81965},
+							pos:        position{line: 2543, col: 14, offset: 81997},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2546, col: 15, offset: 82034},
+						pos: position{line: 2547, col: 15, offset: 82066},
 						run: (*parser).callonSymbol81,
 						expr: &litMatcher{
-							pos:        position{line: 2546, col: 15, offset: 82034},
+							pos:        position{line: 2547, col: 15, offset: 82066},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2550, col: 13, offset: 82099},
+						pos: position{line: 2551, col: 13, offset: 82131},
 						run: (*parser).callonSymbol83,
 						expr: &litMatcher{
-							pos:        position{line: 2550, col: 13, offset: 82099},
+							pos:        position{line: 2551, col: 13, offset: 82131},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2557, col: 5, offset: 82237},
+						pos: position{line: 2558, col: 5, offset: 82269},
 						run: (*parser).callonSymbol85,
 						expr: &seqExpr{
-							pos: position{line: 2557, col: 5, offset: 82237},
+							pos: position{line: 2558, col: 5, offset: 82269},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2557, col: 5, offset: 82237},
+									pos:        position{line: 2558, col: 5, offset: 82269},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2558, col: 5, offset: 82247},
+									pos: position{line: 2559, col: 5, offset: 82279},
 									run: (*parser).callonSymbol88,
 								},
 								&choiceExpr{
-									pos: position{line: 2562, col: 6, offset: 82334},
+									pos: position{line: 2563, col: 6, offset: 82366},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2862, col: 10, offset: 90584},
+											pos: position{line: 2863, col: 10, offset: 90616},
 											run: (*parser).callonSymbol90,
 											expr: &charClassMatcher{
-												pos:        position{line: 2862, col: 10, offset: 90584},
+												pos:        position{line: 2863, col: 10, offset: 90616},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -46819,30 +46987,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2562, col: 14, offset: 82342},
+											pos: position{line: 2563, col: 14, offset: 82374},
 											expr: &choiceExpr{
-												pos: position{line: 2884, col: 8, offset: 90982},
+												pos: position{line: 2885, col: 8, offset: 91014},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2871, col: 12, offset: 90755},
+														pos: position{line: 2872, col: 12, offset: 90787},
 														run: (*parser).callonSymbol94,
 														expr: &choiceExpr{
-															pos: position{line: 2871, col: 13, offset: 90756},
+															pos: position{line: 2872, col: 13, offset: 90788},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2871, col: 13, offset: 90756},
+																	pos:        position{line: 2872, col: 13, offset: 90788},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2871, col: 20, offset: 90763},
+																	pos:        position{line: 2872, col: 20, offset: 90795},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2871, col: 29, offset: 90772},
+																	pos:        position{line: 2872, col: 29, offset: 90804},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -46851,9 +47019,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2881, col: 8, offset: 90932},
+														pos: position{line: 2882, col: 8, offset: 90964},
 														expr: &anyMatcher{
-															line: 2881, col: 9, offset: 90933,
+															line: 2882, col: 9, offset: 90965,
 														},
 													},
 												},
@@ -46865,53 +47033,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2567, col: 5, offset: 82462},
+						pos: position{line: 2568, col: 5, offset: 82494},
 						run: (*parser).callonSymbol101,
 						expr: &seqExpr{
-							pos: position{line: 2567, col: 5, offset: 82462},
+							pos: position{line: 2568, col: 5, offset: 82494},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2567, col: 5, offset: 82462},
+									pos:        position{line: 2568, col: 5, offset: 82494},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2568, col: 5, offset: 82472},
+									pos: position{line: 2569, col: 5, offset: 82504},
 									run: (*parser).callonSymbol104,
 								},
 								&andExpr{
-									pos: position{line: 2572, col: 5, offset: 82561},
+									pos: position{line: 2573, col: 5, offset: 82593},
 									expr: &choiceExpr{
-										pos: position{line: 2572, col: 7, offset: 82563},
+										pos: position{line: 2573, col: 7, offset: 82595},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2752, col: 13, offset: 87679},
+												pos:        position{line: 2753, col: 13, offset: 87711},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2871, col: 12, offset: 90755},
+												pos: position{line: 2872, col: 12, offset: 90787},
 												run: (*parser).callonSymbol108,
 												expr: &choiceExpr{
-													pos: position{line: 2871, col: 13, offset: 90756},
+													pos: position{line: 2872, col: 13, offset: 90788},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2871, col: 13, offset: 90756},
+															pos:        position{line: 2872, col: 13, offset: 90788},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2871, col: 20, offset: 90763},
+															pos:        position{line: 2872, col: 20, offset: 90795},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2871, col: 29, offset: 90772},
+															pos:        position{line: 2872, col: 29, offset: 90804},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -46920,9 +47088,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2881, col: 8, offset: 90932},
+												pos: position{line: 2882, col: 8, offset: 90964},
 												expr: &anyMatcher{
-													line: 2881, col: 9, offset: 90933,
+													line: 2882, col: 9, offset: 90965,
 												},
 											},
 										},
@@ -46932,40 +47100,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2578, col: 21, offset: 82651},
+						pos: position{line: 2579, col: 21, offset: 82683},
 						run: (*parser).callonSymbol115,
 						expr: &litMatcher{
-							pos:        position{line: 2578, col: 21, offset: 82651},
+							pos:        position{line: 2579, col: 21, offset: 82683},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2582, col: 20, offset: 82721},
+						pos: position{line: 2583, col: 20, offset: 82753},
 						run: (*parser).callonSymbol117,
 						expr: &litMatcher{
-							pos:        position{line: 2582, col: 20, offset: 82721},
+							pos:        position{line: 2583, col: 20, offset: 82753},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2586, col: 21, offset: 82792},
+						pos: position{line: 2587, col: 21, offset: 82824},
 						run: (*parser).callonSymbol119,
 						expr: &litMatcher{
-							pos:        position{line: 2586, col: 21, offset: 82792},
+							pos:        position{line: 2587, col: 21, offset: 82824},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2590, col: 20, offset: 82862},
+						pos: position{line: 2591, col: 20, offset: 82894},
 						run: (*parser).callonSymbol121,
 						expr: &litMatcher{
-							pos:        position{line: 2590, col: 20, offset: 82862},
+							pos:        position{line: 2591, col: 20, offset: 82894},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -46976,43 +47144,43 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2524, col: 1, offset: 81240},
+			pos:  position{line: 2525, col: 1, offset: 81272},
 			expr: &choiceExpr{
-				pos: position{line: 2525, col: 5, offset: 81262},
+				pos: position{line: 2526, col: 5, offset: 81294},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2525, col: 5, offset: 81262},
+						pos: position{line: 2526, col: 5, offset: 81294},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2525, col: 5, offset: 81262},
+							pos: position{line: 2526, col: 5, offset: 81294},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2525, col: 5, offset: 81262},
+									pos:        position{line: 2526, col: 5, offset: 81294},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2525, col: 11, offset: 81268},
+									pos: position{line: 2526, col: 11, offset: 81300},
 									expr: &seqExpr{
-										pos: position{line: 2078, col: 5, offset: 67245},
+										pos: position{line: 2079, col: 5, offset: 67277},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2078, col: 5, offset: 67245},
+												pos:        position{line: 2079, col: 5, offset: 67277},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2079, col: 5, offset: 67254},
+												pos: position{line: 2080, col: 5, offset: 67286},
 												run: (*parser).callonQuotationMark8,
 											},
 											&andExpr{
-												pos: position{line: 2083, col: 5, offset: 67377},
+												pos: position{line: 2084, col: 5, offset: 67409},
 												expr: &notExpr{
-													pos: position{line: 2083, col: 7, offset: 67379},
+													pos: position{line: 2084, col: 7, offset: 67411},
 													expr: &litMatcher{
-														pos:        position{line: 2083, col: 8, offset: 67380},
+														pos:        position{line: 2084, col: 8, offset: 67412},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -47026,21 +47194,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2528, col: 7, offset: 81421},
+						pos: position{line: 2529, col: 7, offset: 81453},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2528, col: 7, offset: 81421},
+							pos: position{line: 2529, col: 7, offset: 81453},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2528, col: 7, offset: 81421},
+									pos:        position{line: 2529, col: 7, offset: 81453},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2528, col: 13, offset: 81427},
+									pos: position{line: 2529, col: 13, offset: 81459},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2528, col: 14, offset: 81428},
+										pos:  position{line: 2529, col: 14, offset: 81460},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -47048,38 +47216,38 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2531, col: 7, offset: 81578},
+						pos: position{line: 2532, col: 7, offset: 81610},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2531, col: 7, offset: 81578},
+							pos: position{line: 2532, col: 7, offset: 81610},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2531, col: 7, offset: 81578},
+									pos:        position{line: 2532, col: 7, offset: 81610},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2531, col: 12, offset: 81583},
+									pos: position{line: 2532, col: 12, offset: 81615},
 									expr: &seqExpr{
-										pos: position{line: 2078, col: 5, offset: 67245},
+										pos: position{line: 2079, col: 5, offset: 67277},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2078, col: 5, offset: 67245},
+												pos:        position{line: 2079, col: 5, offset: 67277},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2079, col: 5, offset: 67254},
+												pos: position{line: 2080, col: 5, offset: 67286},
 												run: (*parser).callonQuotationMark23,
 											},
 											&andExpr{
-												pos: position{line: 2083, col: 5, offset: 67377},
+												pos: position{line: 2084, col: 5, offset: 67409},
 												expr: &notExpr{
-													pos: position{line: 2083, col: 7, offset: 67379},
+													pos: position{line: 2084, col: 7, offset: 67411},
 													expr: &litMatcher{
-														pos:        position{line: 2083, col: 8, offset: 67380},
+														pos:        position{line: 2084, col: 8, offset: 67412},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -47093,21 +47261,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2534, col: 7, offset: 81736},
+						pos: position{line: 2535, col: 7, offset: 81768},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2534, col: 7, offset: 81736},
+							pos: position{line: 2535, col: 7, offset: 81768},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2534, col: 7, offset: 81736},
+									pos:        position{line: 2535, col: 7, offset: 81768},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2534, col: 12, offset: 81741},
+									pos: position{line: 2535, col: 12, offset: 81773},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2534, col: 13, offset: 81742},
+										pos:  position{line: 2535, col: 13, offset: 81774},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -47119,63 +47287,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2667, col: 1, offset: 84764},
+			pos:  position{line: 2668, col: 1, offset: 84796},
 			expr: &actionExpr{
-				pos: position{line: 2667, col: 26, offset: 84789},
+				pos: position{line: 2668, col: 26, offset: 84821},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2667, col: 26, offset: 84789},
+					pos: position{line: 2668, col: 26, offset: 84821},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2667, col: 26, offset: 84789},
+							pos:   position{line: 2668, col: 26, offset: 84821},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2667, col: 31, offset: 84794},
+								pos: position{line: 2668, col: 31, offset: 84826},
 								expr: &actionExpr{
-									pos: position{line: 2672, col: 5, offset: 84857},
+									pos: position{line: 2673, col: 5, offset: 84889},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2672, col: 5, offset: 84857},
+										pos: position{line: 2673, col: 5, offset: 84889},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2879, col: 11, offset: 90918},
+												pos: position{line: 2880, col: 11, offset: 90950},
 												expr: &anyMatcher{
-													line: 2879, col: 13, offset: 90920,
+													line: 2880, col: 13, offset: 90952,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2675, col: 5, offset: 84983},
+												pos:   position{line: 2676, col: 5, offset: 85015},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2675, col: 16, offset: 84994},
+													pos: position{line: 2676, col: 16, offset: 85026},
 													expr: &actionExpr{
-														pos: position{line: 2675, col: 17, offset: 84995},
+														pos: position{line: 2676, col: 17, offset: 85027},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2675, col: 17, offset: 84995},
+															pos: position{line: 2676, col: 17, offset: 85027},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2675, col: 17, offset: 84995},
+																	pos:   position{line: 2676, col: 17, offset: 85027},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2854, col: 12, offset: 90411},
+																		pos: position{line: 2855, col: 12, offset: 90443},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2854, col: 13, offset: 90412},
+																			pos: position{line: 2855, col: 13, offset: 90444},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2854, col: 13, offset: 90412},
+																					pos: position{line: 2855, col: 13, offset: 90444},
 																					expr: &litMatcher{
-																						pos:        position{line: 2854, col: 13, offset: 90412},
+																						pos:        position{line: 2855, col: 13, offset: 90444},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2854, col: 18, offset: 90417},
+																					pos: position{line: 2855, col: 18, offset: 90449},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2854, col: 18, offset: 90417},
+																						pos:        position{line: 2855, col: 18, offset: 90449},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -47187,7 +47355,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2675, col: 27, offset: 85005},
+																	pos:        position{line: 2676, col: 27, offset: 85037},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -47198,38 +47366,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2676, col: 5, offset: 85033},
+												pos:   position{line: 2677, col: 5, offset: 85065},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2676, col: 12, offset: 85040},
+													pos: position{line: 2677, col: 12, offset: 85072},
 													expr: &choiceExpr{
-														pos: position{line: 2677, col: 9, offset: 85050},
+														pos: position{line: 2678, col: 9, offset: 85082},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2677, col: 9, offset: 85050},
+																pos: position{line: 2678, col: 9, offset: 85082},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2677, col: 9, offset: 85050},
+																	pos:        position{line: 2678, col: 9, offset: 85082},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2678, col: 11, offset: 85097},
+																pos: position{line: 2679, col: 11, offset: 85129},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2678, col: 11, offset: 85097},
+																	pos:        position{line: 2679, col: 11, offset: 85129},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2679, col: 11, offset: 85145},
+																pos: position{line: 2680, col: 11, offset: 85177},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2679, col: 11, offset: 85145},
+																	pos:        position{line: 2680, col: 11, offset: 85177},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -47240,38 +47408,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2681, col: 5, offset: 85195},
+												pos:   position{line: 2682, col: 5, offset: 85227},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2681, col: 12, offset: 85202},
+													pos: position{line: 2682, col: 12, offset: 85234},
 													expr: &choiceExpr{
-														pos: position{line: 2682, col: 9, offset: 85212},
+														pos: position{line: 2683, col: 9, offset: 85244},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2682, col: 9, offset: 85212},
+																pos: position{line: 2683, col: 9, offset: 85244},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2682, col: 9, offset: 85212},
+																	pos:        position{line: 2683, col: 9, offset: 85244},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2683, col: 11, offset: 85259},
+																pos: position{line: 2684, col: 11, offset: 85291},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2683, col: 11, offset: 85259},
+																	pos:        position{line: 2684, col: 11, offset: 85291},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2684, col: 11, offset: 85309},
+																pos: position{line: 2685, col: 11, offset: 85341},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2684, col: 11, offset: 85309},
+																	pos:        position{line: 2685, col: 11, offset: 85341},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -47282,32 +47450,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2686, col: 5, offset: 85360},
+												pos:   position{line: 2687, col: 5, offset: 85392},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2686, col: 12, offset: 85367},
+													pos: position{line: 2687, col: 12, offset: 85399},
 													expr: &choiceExpr{
-														pos: position{line: 2686, col: 13, offset: 85368},
+														pos: position{line: 2687, col: 13, offset: 85400},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2854, col: 12, offset: 90411},
+																pos: position{line: 2855, col: 12, offset: 90443},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2854, col: 13, offset: 90412},
+																	pos: position{line: 2855, col: 13, offset: 90444},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2854, col: 13, offset: 90412},
+																			pos: position{line: 2855, col: 13, offset: 90444},
 																			expr: &litMatcher{
-																				pos:        position{line: 2854, col: 13, offset: 90412},
+																				pos:        position{line: 2855, col: 13, offset: 90444},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2854, col: 18, offset: 90417},
+																			pos: position{line: 2855, col: 18, offset: 90449},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2854, col: 18, offset: 90417},
+																				pos:        position{line: 2855, col: 18, offset: 90449},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -47318,10 +47486,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2686, col: 24, offset: 85379},
+																pos: position{line: 2687, col: 24, offset: 85411},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2686, col: 24, offset: 85379},
+																	pos:        position{line: 2687, col: 24, offset: 85411},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -47332,15 +47500,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2687, col: 5, offset: 85421},
+												pos:   position{line: 2688, col: 5, offset: 85453},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2687, col: 11, offset: 85427},
+													pos: position{line: 2688, col: 11, offset: 85459},
 													expr: &actionExpr{
-														pos: position{line: 2687, col: 12, offset: 85428},
+														pos: position{line: 2688, col: 12, offset: 85460},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2687, col: 12, offset: 85428},
+															pos:        position{line: 2688, col: 12, offset: 85460},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -47350,12 +47518,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2689, col: 5, offset: 85558},
+												pos:   position{line: 2690, col: 5, offset: 85590},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2689, col: 11, offset: 85564},
+													pos: position{line: 2690, col: 11, offset: 85596},
 													expr: &litMatcher{
-														pos:        position{line: 2689, col: 12, offset: 85565},
+														pos:        position{line: 2690, col: 12, offset: 85597},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -47363,7 +47531,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2690, col: 5, offset: 85575},
+												pos: position{line: 2691, col: 5, offset: 85607},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -47372,9 +47540,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2881, col: 8, offset: 90932},
+							pos: position{line: 2882, col: 8, offset: 90964},
 							expr: &anyMatcher{
-								line: 2881, col: 9, offset: 90933,
+								line: 2882, col: 9, offset: 90965,
 							},
 						},
 					},
@@ -47383,23 +47551,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2717, col: 1, offset: 86579},
+			pos:  position{line: 2718, col: 1, offset: 86611},
 			expr: &actionExpr{
-				pos: position{line: 2718, col: 5, offset: 86602},
+				pos: position{line: 2719, col: 5, offset: 86634},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2718, col: 5, offset: 86602},
+					pos: position{line: 2719, col: 5, offset: 86634},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2718, col: 5, offset: 86602},
+							pos:   position{line: 2719, col: 5, offset: 86634},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2741, col: 18, offset: 87343},
+								pos: position{line: 2742, col: 18, offset: 87375},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2741, col: 19, offset: 87344},
+									pos: position{line: 2742, col: 19, offset: 87376},
 									expr: &charClassMatcher{
-										pos:        position{line: 2741, col: 19, offset: 87344},
+										pos:        position{line: 2742, col: 19, offset: 87376},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47410,25 +47578,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2719, col: 5, offset: 86628},
+							pos: position{line: 2720, col: 5, offset: 86660},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2723, col: 5, offset: 86756},
+							pos:        position{line: 2724, col: 5, offset: 86788},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2724, col: 5, offset: 86766},
+							pos:   position{line: 2725, col: 5, offset: 86798},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2745, col: 19, offset: 87419},
+								pos: position{line: 2746, col: 19, offset: 87451},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2745, col: 19, offset: 87419},
+									pos: position{line: 2746, col: 19, offset: 87451},
 									expr: &charClassMatcher{
-										pos:        position{line: 2745, col: 19, offset: 87419},
+										pos:        position{line: 2746, col: 19, offset: 87451},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -47438,36 +47606,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2725, col: 5, offset: 86794},
+							pos:   position{line: 2726, col: 5, offset: 86826},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2725, col: 17, offset: 86806},
+								pos:  position{line: 2726, col: 17, offset: 86838},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2884, col: 8, offset: 90982},
+							pos: position{line: 2885, col: 8, offset: 91014},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2871, col: 12, offset: 90755},
+									pos: position{line: 2872, col: 12, offset: 90787},
 									run: (*parser).callonUserMacroBlock16,
 									expr: &choiceExpr{
-										pos: position{line: 2871, col: 13, offset: 90756},
+										pos: position{line: 2872, col: 13, offset: 90788},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2871, col: 13, offset: 90756},
+												pos:        position{line: 2872, col: 13, offset: 90788},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2871, col: 20, offset: 90763},
+												pos:        position{line: 2872, col: 20, offset: 90795},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2871, col: 29, offset: 90772},
+												pos:        position{line: 2872, col: 29, offset: 90804},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -47476,9 +47644,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2881, col: 8, offset: 90932},
+									pos: position{line: 2882, col: 8, offset: 90964},
 									expr: &anyMatcher{
-										line: 2881, col: 9, offset: 90933,
+										line: 2882, col: 9, offset: 90965,
 									},
 								},
 							},
@@ -47489,23 +47657,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2729, col: 1, offset: 86954},
+			pos:  position{line: 2730, col: 1, offset: 86986},
 			expr: &actionExpr{
-				pos: position{line: 2730, col: 5, offset: 86978},
+				pos: position{line: 2731, col: 5, offset: 87010},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2730, col: 5, offset: 86978},
+					pos: position{line: 2731, col: 5, offset: 87010},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2730, col: 5, offset: 86978},
+							pos:   position{line: 2731, col: 5, offset: 87010},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2741, col: 18, offset: 87343},
+								pos: position{line: 2742, col: 18, offset: 87375},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2741, col: 19, offset: 87344},
+									pos: position{line: 2742, col: 19, offset: 87376},
 									expr: &charClassMatcher{
-										pos:        position{line: 2741, col: 19, offset: 87344},
+										pos:        position{line: 2742, col: 19, offset: 87376},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47516,25 +47684,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2731, col: 5, offset: 87004},
+							pos: position{line: 2732, col: 5, offset: 87036},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2735, col: 5, offset: 87132},
+							pos:        position{line: 2736, col: 5, offset: 87164},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2736, col: 5, offset: 87141},
+							pos:   position{line: 2737, col: 5, offset: 87173},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2745, col: 19, offset: 87419},
+								pos: position{line: 2746, col: 19, offset: 87451},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2745, col: 19, offset: 87419},
+									pos: position{line: 2746, col: 19, offset: 87451},
 									expr: &charClassMatcher{
-										pos:        position{line: 2745, col: 19, offset: 87419},
+										pos:        position{line: 2746, col: 19, offset: 87451},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -47544,10 +47712,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2737, col: 5, offset: 87169},
+							pos:   position{line: 2738, col: 5, offset: 87201},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2737, col: 17, offset: 87181},
+								pos:  position{line: 2738, col: 17, offset: 87213},
 								name: "InlineAttributes",
 							},
 						},
@@ -47557,43 +47725,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2816, col: 1, offset: 89231},
+			pos:  position{line: 2817, col: 1, offset: 89263},
 			expr: &actionExpr{
-				pos: position{line: 2816, col: 17, offset: 89247},
+				pos: position{line: 2817, col: 17, offset: 89279},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2816, col: 17, offset: 89247},
+					pos:   position{line: 2817, col: 17, offset: 89279},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2833, col: 5, offset: 89701},
+						pos: position{line: 2834, col: 5, offset: 89733},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2833, col: 5, offset: 89701},
+							pos:   position{line: 2834, col: 5, offset: 89733},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2833, col: 14, offset: 89710},
+								pos: position{line: 2834, col: 14, offset: 89742},
 								expr: &choiceExpr{
-									pos: position{line: 2834, col: 9, offset: 89720},
+									pos: position{line: 2835, col: 9, offset: 89752},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2834, col: 9, offset: 89720},
+											pos: position{line: 2835, col: 9, offset: 89752},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2834, col: 9, offset: 89720},
+												pos: position{line: 2835, col: 9, offset: 89752},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2834, col: 9, offset: 89720},
+														pos: position{line: 2835, col: 9, offset: 89752},
 														expr: &litMatcher{
-															pos:        position{line: 2834, col: 10, offset: 89721},
+															pos:        position{line: 2835, col: 10, offset: 89753},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2835, col: 9, offset: 89749},
+														pos: position{line: 2836, col: 9, offset: 89781},
 														expr: &charClassMatcher{
-															pos:        position{line: 2835, col: 10, offset: 89750},
+															pos:        position{line: 2836, col: 10, offset: 89782},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -47604,27 +47772,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2838, col: 11, offset: 89962},
+											pos: position{line: 2839, col: 11, offset: 89994},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2838, col: 11, offset: 89962},
+													pos:        position{line: 2839, col: 11, offset: 89994},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2838, col: 19, offset: 89970},
+													pos: position{line: 2839, col: 19, offset: 90002},
 													expr: &seqExpr{
-														pos: position{line: 2838, col: 21, offset: 89972},
+														pos: position{line: 2839, col: 21, offset: 90004},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2838, col: 21, offset: 89972},
+																pos: position{line: 2839, col: 21, offset: 90004},
 																expr: &actionExpr{
-																	pos: position{line: 2862, col: 10, offset: 90584},
+																	pos: position{line: 2863, col: 10, offset: 90616},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2862, col: 10, offset: 90584},
+																		pos:        position{line: 2863, col: 10, offset: 90616},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -47633,11 +47801,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2838, col: 28, offset: 89979},
+																pos: position{line: 2839, col: 28, offset: 90011},
 																expr: &notExpr{
-																	pos: position{line: 2881, col: 8, offset: 90932},
+																	pos: position{line: 2882, col: 8, offset: 90964},
 																	expr: &anyMatcher{
-																		line: 2881, col: 9, offset: 90933,
+																		line: 2882, col: 9, offset: 90965,
 																	},
 																},
 															},
@@ -48032,10 +48200,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2841, col: 11, offset: 90099},
+											pos: position{line: 2842, col: 11, offset: 90131},
 											run: (*parser).callonFileLocation100,
 											expr: &litMatcher{
-												pos:        position{line: 2841, col: 11, offset: 90099},
+												pos:        position{line: 2842, col: 11, offset: 90131},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -60963,51 +61131,51 @@ func (p *parser) callonListElements115() (interface{}, error) {
 	return p.cur.onListElements115(stack["ref"], stack["description"])
 }
 
-func (c *current) onListElements155() (interface{}, error) {
+func (c *current) onListElements161() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListElements155() (interface{}, error) {
+func (p *parser) callonListElements161() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements155()
+	return p.cur.onListElements161()
 }
 
-func (c *current) onListElements158(separator interface{}) (bool, error) {
+func (c *current) onListElements164(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonListElements158() (bool, error) {
+func (p *parser) callonListElements164() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements158(stack["separator"])
+	return p.cur.onListElements164(stack["separator"])
 }
 
-func (c *current) onListElements152(separator interface{}) (interface{}, error) {
+func (c *current) onListElements158(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonListElements152() (interface{}, error) {
+func (p *parser) callonListElements158() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements152(stack["separator"])
+	return p.cur.onListElements158(stack["separator"])
 }
 
-func (c *current) onListElements161() (interface{}, error) {
+func (c *current) onListElements167() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListElements161() (interface{}, error) {
+func (p *parser) callonListElements167() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements161()
+	return p.cur.onListElements167()
 }
 
 func (c *current) onListElements148() (interface{}, error) {
@@ -61021,153 +61189,153 @@ func (p *parser) callonListElements148() (interface{}, error) {
 	return p.cur.onListElements148()
 }
 
-func (c *current) onListElements173() (interface{}, error) {
+func (c *current) onListElements179() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListElements173() (interface{}, error) {
+func (p *parser) callonListElements179() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements173()
+	return p.cur.onListElements179()
 }
 
-func (c *current) onListElements176(separator interface{}) (bool, error) {
+func (c *current) onListElements182(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonListElements176() (bool, error) {
+func (p *parser) callonListElements182() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements176(stack["separator"])
+	return p.cur.onListElements182(stack["separator"])
 }
 
-func (c *current) onListElements170(separator interface{}) (interface{}, error) {
+func (c *current) onListElements176(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonListElements170() (interface{}, error) {
+func (p *parser) callonListElements176() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements170(stack["separator"])
+	return p.cur.onListElements176(stack["separator"])
 }
 
-func (c *current) onListElements182() (interface{}, error) {
+func (c *current) onListElements188() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListElements182() (interface{}, error) {
+func (p *parser) callonListElements188() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements182()
+	return p.cur.onListElements188()
 }
 
-func (c *current) onListElements185() (interface{}, error) {
+func (c *current) onListElements191() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListElements185() (interface{}, error) {
+func (p *parser) callonListElements191() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements185()
+	return p.cur.onListElements191()
 }
 
-func (c *current) onListElements198() (interface{}, error) {
+func (c *current) onListElements204() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListElements198() (interface{}, error) {
+func (p *parser) callonListElements204() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements198()
+	return p.cur.onListElements204()
 }
 
-func (c *current) onListElements201() (interface{}, error) {
+func (c *current) onListElements207() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListElements201() (interface{}, error) {
+func (p *parser) callonListElements207() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements201()
+	return p.cur.onListElements207()
 }
 
-func (c *current) onListElements193() (interface{}, error) {
+func (c *current) onListElements199() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListElements193() (interface{}, error) {
+func (p *parser) callonListElements199() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements193()
+	return p.cur.onListElements199()
 }
 
-func (c *current) onListElements179() (interface{}, error) {
+func (c *current) onListElements185() (interface{}, error) {
 	return nil, nil
 
 }
 
-func (p *parser) callonListElements179() (interface{}, error) {
+func (p *parser) callonListElements185() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements179()
+	return p.cur.onListElements185()
 }
 
-func (c *current) onListElements210() (interface{}, error) {
+func (c *current) onListElements216() (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListElements210() (interface{}, error) {
+func (p *parser) callonListElements216() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements210()
+	return p.cur.onListElements216()
 }
 
-func (c *current) onListElements214() (interface{}, error) {
+func (c *current) onListElements220() (interface{}, error) {
 	return types.NewRawLine(string(c.text))
 
 }
 
-func (p *parser) callonListElements214() (interface{}, error) {
+func (p *parser) callonListElements220() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements214()
+	return p.cur.onListElements220()
 }
 
-func (c *current) onListElements218() (interface{}, error) {
+func (c *current) onListElements224() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListElements218() (interface{}, error) {
+func (p *parser) callonListElements224() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements218()
+	return p.cur.onListElements224()
 }
 
-func (c *current) onListElements208(content interface{}) (interface{}, error) {
+func (c *current) onListElements214(content interface{}) (interface{}, error) {
 	return types.NewParagraph(nil, content)
 
 }
 
-func (p *parser) callonListElements208() (interface{}, error) {
+func (p *parser) callonListElements214() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements208(stack["content"])
+	return p.cur.onListElements214(stack["content"])
 }
 
 func (c *current) onListElements145(term, separator, description interface{}) (interface{}, error) {
@@ -61656,51 +61824,51 @@ func (p *parser) callonExtraListElement137() (interface{}, error) {
 	return p.cur.onExtraListElement137(stack["ref"], stack["description"])
 }
 
-func (c *current) onExtraListElement177() (interface{}, error) {
+func (c *current) onExtraListElement183() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement177() (interface{}, error) {
+func (p *parser) callonExtraListElement183() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement177()
+	return p.cur.onExtraListElement183()
 }
 
-func (c *current) onExtraListElement180(separator interface{}) (bool, error) {
+func (c *current) onExtraListElement186(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonExtraListElement180() (bool, error) {
+func (p *parser) callonExtraListElement186() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement180(stack["separator"])
+	return p.cur.onExtraListElement186(stack["separator"])
 }
 
-func (c *current) onExtraListElement174(separator interface{}) (interface{}, error) {
+func (c *current) onExtraListElement180(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonExtraListElement174() (interface{}, error) {
+func (p *parser) callonExtraListElement180() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement174(stack["separator"])
+	return p.cur.onExtraListElement180(stack["separator"])
 }
 
-func (c *current) onExtraListElement183() (interface{}, error) {
+func (c *current) onExtraListElement189() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement183() (interface{}, error) {
+func (p *parser) callonExtraListElement189() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement183()
+	return p.cur.onExtraListElement189()
 }
 
 func (c *current) onExtraListElement170() (interface{}, error) {
@@ -61714,153 +61882,153 @@ func (p *parser) callonExtraListElement170() (interface{}, error) {
 	return p.cur.onExtraListElement170()
 }
 
-func (c *current) onExtraListElement195() (interface{}, error) {
+func (c *current) onExtraListElement201() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement195() (interface{}, error) {
+func (p *parser) callonExtraListElement201() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement195()
+	return p.cur.onExtraListElement201()
 }
 
-func (c *current) onExtraListElement198(separator interface{}) (bool, error) {
+func (c *current) onExtraListElement204(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonExtraListElement198() (bool, error) {
+func (p *parser) callonExtraListElement204() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement198(stack["separator"])
+	return p.cur.onExtraListElement204(stack["separator"])
 }
 
-func (c *current) onExtraListElement192(separator interface{}) (interface{}, error) {
+func (c *current) onExtraListElement198(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonExtraListElement192() (interface{}, error) {
+func (p *parser) callonExtraListElement198() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement192(stack["separator"])
+	return p.cur.onExtraListElement198(stack["separator"])
 }
 
-func (c *current) onExtraListElement204() (interface{}, error) {
+func (c *current) onExtraListElement210() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement204() (interface{}, error) {
+func (p *parser) callonExtraListElement210() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement204()
+	return p.cur.onExtraListElement210()
 }
 
-func (c *current) onExtraListElement207() (interface{}, error) {
+func (c *current) onExtraListElement213() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement207() (interface{}, error) {
+func (p *parser) callonExtraListElement213() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement207()
+	return p.cur.onExtraListElement213()
 }
 
-func (c *current) onExtraListElement220() (interface{}, error) {
+func (c *current) onExtraListElement226() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement220() (interface{}, error) {
+func (p *parser) callonExtraListElement226() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement220()
+	return p.cur.onExtraListElement226()
 }
 
-func (c *current) onExtraListElement223() (interface{}, error) {
+func (c *current) onExtraListElement229() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement223() (interface{}, error) {
+func (p *parser) callonExtraListElement229() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement223()
+	return p.cur.onExtraListElement229()
 }
 
-func (c *current) onExtraListElement215() (interface{}, error) {
+func (c *current) onExtraListElement221() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonExtraListElement215() (interface{}, error) {
+func (p *parser) callonExtraListElement221() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement215()
+	return p.cur.onExtraListElement221()
 }
 
-func (c *current) onExtraListElement201() (interface{}, error) {
+func (c *current) onExtraListElement207() (interface{}, error) {
 	return nil, nil
 
 }
 
-func (p *parser) callonExtraListElement201() (interface{}, error) {
+func (p *parser) callonExtraListElement207() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement201()
+	return p.cur.onExtraListElement207()
 }
 
-func (c *current) onExtraListElement232() (interface{}, error) {
+func (c *current) onExtraListElement238() (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement232() (interface{}, error) {
+func (p *parser) callonExtraListElement238() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement232()
+	return p.cur.onExtraListElement238()
 }
 
-func (c *current) onExtraListElement236() (interface{}, error) {
+func (c *current) onExtraListElement242() (interface{}, error) {
 	return types.NewRawLine(string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement236() (interface{}, error) {
+func (p *parser) callonExtraListElement242() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement236()
+	return p.cur.onExtraListElement242()
 }
 
-func (c *current) onExtraListElement240() (interface{}, error) {
+func (c *current) onExtraListElement246() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement240() (interface{}, error) {
+func (p *parser) callonExtraListElement246() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement240()
+	return p.cur.onExtraListElement246()
 }
 
-func (c *current) onExtraListElement230(content interface{}) (interface{}, error) {
+func (c *current) onExtraListElement236(content interface{}) (interface{}, error) {
 	return types.NewParagraph(nil, content)
 
 }
 
-func (p *parser) callonExtraListElement230() (interface{}, error) {
+func (p *parser) callonExtraListElement236() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement230(stack["content"])
+	return p.cur.onExtraListElement236(stack["content"])
 }
 
 func (c *current) onExtraListElement167(term, separator, description interface{}) (interface{}, error) {
@@ -61886,45 +62054,45 @@ func (p *parser) callonExtraListElement7() (interface{}, error) {
 	return p.cur.onExtraListElement7(stack["element"])
 }
 
-func (c *current) onExtraListElement260() (interface{}, error) {
+func (c *current) onExtraListElement266() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement260() (interface{}, error) {
+func (p *parser) callonExtraListElement266() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement260()
+	return p.cur.onExtraListElement266()
 }
 
-func (c *current) onExtraListElement267() (interface{}, error) {
+func (c *current) onExtraListElement273() (interface{}, error) {
 
 	// `.` is 1, etc.
 	return (len(c.text)), nil
 
 }
 
-func (p *parser) callonExtraListElement267() (interface{}, error) {
+func (p *parser) callonExtraListElement273() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement267()
+	return p.cur.onExtraListElement273()
 }
 
-func (c *current) onExtraListElement270(depth interface{}) (bool, error) {
+func (c *current) onExtraListElement276(depth interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `.` to `.....` are allowed
 	return depth.(int) <= 5, nil
 
 }
 
-func (p *parser) callonExtraListElement270() (bool, error) {
+func (p *parser) callonExtraListElement276() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement270(stack["depth"])
+	return p.cur.onExtraListElement276(stack["depth"])
 }
 
-func (c *current) onExtraListElement264(depth interface{}) (interface{}, error) {
+func (c *current) onExtraListElement270(depth interface{}) (interface{}, error) {
 	switch depth.(int) {
 	case 1:
 		return types.NewOrderedListElementPrefix(types.Arabic)
@@ -61940,732 +62108,732 @@ func (c *current) onExtraListElement264(depth interface{}) (interface{}, error)
 
 }
 
-func (p *parser) callonExtraListElement264() (interface{}, error) {
+func (p *parser) callonExtraListElement270() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement264(stack["depth"])
+	return p.cur.onExtraListElement270(stack["depth"])
 }
 
-func (c *current) onExtraListElement271() (interface{}, error) {
+func (c *current) onExtraListElement277() (interface{}, error) {
 	// numbering style: "1.", etc.
 	return types.NewOrderedListElementPrefix(types.Arabic)
 
 }
 
-func (p *parser) callonExtraListElement271() (interface{}, error) {
+func (p *parser) callonExtraListElement277() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement271()
+	return p.cur.onExtraListElement277()
 }
 
-func (c *current) onExtraListElement276() (interface{}, error) {
+func (c *current) onExtraListElement282() (interface{}, error) {
 	// numbering style: "a.", etc.
 	return types.NewOrderedListElementPrefix(types.LowerAlpha)
 
 }
 
-func (p *parser) callonExtraListElement276() (interface{}, error) {
+func (p *parser) callonExtraListElement282() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement276()
+	return p.cur.onExtraListElement282()
 }
 
-func (c *current) onExtraListElement280() (interface{}, error) {
+func (c *current) onExtraListElement286() (interface{}, error) {
 	// numbering style: "A.", etc.
 	return types.NewOrderedListElementPrefix(types.UpperAlpha)
 
 }
 
-func (p *parser) callonExtraListElement280() (interface{}, error) {
+func (p *parser) callonExtraListElement286() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement280()
+	return p.cur.onExtraListElement286()
 }
 
-func (c *current) onExtraListElement284() (interface{}, error) {
+func (c *current) onExtraListElement290() (interface{}, error) {
 	// numbering style: "i)", etc.
 	return types.NewOrderedListElementPrefix(types.LowerRoman)
 
 }
 
-func (p *parser) callonExtraListElement284() (interface{}, error) {
+func (p *parser) callonExtraListElement290() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement284()
+	return p.cur.onExtraListElement290()
 }
 
-func (c *current) onExtraListElement289() (interface{}, error) {
+func (c *current) onExtraListElement295() (interface{}, error) {
 	// numbering style: "I)", etc.
 	return types.NewOrderedListElementPrefix(types.UpperRoman)
 
 }
 
-func (p *parser) callonExtraListElement289() (interface{}, error) {
+func (p *parser) callonExtraListElement295() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement289()
+	return p.cur.onExtraListElement295()
 }
 
-func (c *current) onExtraListElement294(prefix interface{}) (interface{}, error) {
+func (c *current) onExtraListElement300(prefix interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement294() (interface{}, error) {
+func (p *parser) callonExtraListElement300() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement294(stack["prefix"])
+	return p.cur.onExtraListElement300(stack["prefix"])
 }
 
-func (c *current) onExtraListElement257(prefix interface{}) (interface{}, error) {
+func (c *current) onExtraListElement263(prefix interface{}) (interface{}, error) {
 	return prefix, nil
 }
 
-func (p *parser) callonExtraListElement257() (interface{}, error) {
+func (p *parser) callonExtraListElement263() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement257(stack["prefix"])
+	return p.cur.onExtraListElement263(stack["prefix"])
 }
 
-func (c *current) onExtraListElement302() (interface{}, error) {
+func (c *current) onExtraListElement308() (interface{}, error) {
 	return types.NewRawLine(string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement302() (interface{}, error) {
+func (p *parser) callonExtraListElement308() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement302()
+	return p.cur.onExtraListElement308()
 }
 
-func (c *current) onExtraListElement306() (interface{}, error) {
+func (c *current) onExtraListElement312() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement306() (interface{}, error) {
+func (p *parser) callonExtraListElement312() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement306()
+	return p.cur.onExtraListElement312()
 }
 
-func (c *current) onExtraListElement298(rawLines interface{}) (interface{}, error) {
+func (c *current) onExtraListElement304(rawLines interface{}) (interface{}, error) {
 	return types.NewParagraph(nil, rawLines.([]interface{})...)
 
 }
 
-func (p *parser) callonExtraListElement298() (interface{}, error) {
+func (p *parser) callonExtraListElement304() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement298(stack["rawLines"])
+	return p.cur.onExtraListElement304(stack["rawLines"])
 }
 
-func (c *current) onExtraListElement254(prefix, content interface{}) (interface{}, error) {
+func (c *current) onExtraListElement260(prefix, content interface{}) (interface{}, error) {
 	return types.NewOrderedListElement(prefix.(types.OrderedListElementPrefix), content)
 
 }
 
-func (p *parser) callonExtraListElement254() (interface{}, error) {
+func (p *parser) callonExtraListElement260() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement254(stack["prefix"], stack["content"])
+	return p.cur.onExtraListElement260(stack["prefix"], stack["content"])
 }
 
-func (c *current) onExtraListElement319() (interface{}, error) {
+func (c *current) onExtraListElement325() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement319() (interface{}, error) {
+func (p *parser) callonExtraListElement325() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement319()
+	return p.cur.onExtraListElement325()
 }
 
-func (c *current) onExtraListElement322() (interface{}, error) {
+func (c *current) onExtraListElement328() (interface{}, error) {
 	// `-` or `*` to `*****`
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement322() (interface{}, error) {
+func (p *parser) callonExtraListElement328() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement322()
+	return p.cur.onExtraListElement328()
 }
 
-func (c *current) onExtraListElement327(style interface{}) (bool, error) {
+func (c *current) onExtraListElement333(style interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `*` to `*****` are allowed
 	return len(style.(string)) <= 5, nil
 
 }
 
-func (p *parser) callonExtraListElement327() (bool, error) {
+func (p *parser) callonExtraListElement333() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement327(stack["style"])
+	return p.cur.onExtraListElement333(stack["style"])
 }
 
-func (c *current) onExtraListElement328(style interface{}) (interface{}, error) {
+func (c *current) onExtraListElement334(style interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement328() (interface{}, error) {
+func (p *parser) callonExtraListElement334() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement328(stack["style"])
+	return p.cur.onExtraListElement334(stack["style"])
 }
 
-func (c *current) onExtraListElement316(style interface{}) (interface{}, error) {
+func (c *current) onExtraListElement322(style interface{}) (interface{}, error) {
 	return types.NewUnorderedListElementPrefix(style.(string))
 
 }
 
-func (p *parser) callonExtraListElement316() (interface{}, error) {
+func (p *parser) callonExtraListElement322() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement316(stack["style"])
+	return p.cur.onExtraListElement322(stack["style"])
 }
 
-func (c *current) onExtraListElement339() (interface{}, error) {
+func (c *current) onExtraListElement345() (interface{}, error) {
 	return types.Unchecked, nil
 }
 
-func (p *parser) callonExtraListElement339() (interface{}, error) {
+func (p *parser) callonExtraListElement345() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement339()
+	return p.cur.onExtraListElement345()
 }
 
-func (c *current) onExtraListElement341() (interface{}, error) {
+func (c *current) onExtraListElement347() (interface{}, error) {
 	return types.Checked, nil
 }
 
-func (p *parser) callonExtraListElement341() (interface{}, error) {
+func (p *parser) callonExtraListElement347() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement341()
+	return p.cur.onExtraListElement347()
 }
 
-func (c *current) onExtraListElement343() (interface{}, error) {
+func (c *current) onExtraListElement349() (interface{}, error) {
 	return types.Checked, nil
 }
 
-func (p *parser) callonExtraListElement343() (interface{}, error) {
+func (p *parser) callonExtraListElement349() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement343()
+	return p.cur.onExtraListElement349()
 }
 
-func (c *current) onExtraListElement345(style interface{}) (interface{}, error) {
+func (c *current) onExtraListElement351(style interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement345() (interface{}, error) {
+func (p *parser) callonExtraListElement351() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement345(stack["style"])
+	return p.cur.onExtraListElement351(stack["style"])
 }
 
-func (c *current) onExtraListElement333(style interface{}) (interface{}, error) {
+func (c *current) onExtraListElement339(style interface{}) (interface{}, error) {
 	return style, nil
 
 }
 
-func (p *parser) callonExtraListElement333() (interface{}, error) {
+func (p *parser) callonExtraListElement339() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement333(stack["style"])
+	return p.cur.onExtraListElement339(stack["style"])
 }
 
-func (c *current) onExtraListElement353() (interface{}, error) {
+func (c *current) onExtraListElement359() (interface{}, error) {
 	return types.NewRawLine(string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement353() (interface{}, error) {
+func (p *parser) callonExtraListElement359() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement353()
+	return p.cur.onExtraListElement359()
 }
 
-func (c *current) onExtraListElement357() (interface{}, error) {
+func (c *current) onExtraListElement363() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement357() (interface{}, error) {
+func (p *parser) callonExtraListElement363() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement357()
+	return p.cur.onExtraListElement363()
 }
 
-func (c *current) onExtraListElement349(rawLines interface{}) (interface{}, error) {
+func (c *current) onExtraListElement355(rawLines interface{}) (interface{}, error) {
 	return types.NewParagraph(nil, rawLines.([]interface{})...)
 
 }
 
-func (p *parser) callonExtraListElement349() (interface{}, error) {
+func (p *parser) callonExtraListElement355() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement349(stack["rawLines"])
+	return p.cur.onExtraListElement355(stack["rawLines"])
 }
 
-func (c *current) onExtraListElement313(prefix, checkstyle, content interface{}) (interface{}, error) {
+func (c *current) onExtraListElement319(prefix, checkstyle, content interface{}) (interface{}, error) {
 	return types.NewUnorderedListElement(prefix.(types.UnorderedListElementPrefix), checkstyle, content)
 
 }
 
-func (p *parser) callonExtraListElement313() (interface{}, error) {
+func (p *parser) callonExtraListElement319() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement313(stack["prefix"], stack["checkstyle"], stack["content"])
+	return p.cur.onExtraListElement319(stack["prefix"], stack["checkstyle"], stack["content"])
 }
 
-func (c *current) onExtraListElement371() (interface{}, error) {
+func (c *current) onExtraListElement377() (interface{}, error) {
 	return strconv.Atoi(string(c.text))
 }
 
-func (p *parser) callonExtraListElement371() (interface{}, error) {
+func (p *parser) callonExtraListElement377() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement371()
+	return p.cur.onExtraListElement377()
 }
 
-func (c *current) onExtraListElement375(ref interface{}) (interface{}, error) {
+func (c *current) onExtraListElement381(ref interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement375() (interface{}, error) {
+func (p *parser) callonExtraListElement381() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement375(stack["ref"])
+	return p.cur.onExtraListElement381(stack["ref"])
 }
 
-func (c *current) onExtraListElement367(ref interface{}) (interface{}, error) {
+func (c *current) onExtraListElement373(ref interface{}) (interface{}, error) {
 	return ref, nil
 
 }
 
-func (p *parser) callonExtraListElement367() (interface{}, error) {
+func (p *parser) callonExtraListElement373() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement367(stack["ref"])
+	return p.cur.onExtraListElement373(stack["ref"])
 }
 
-func (c *current) onExtraListElement383() (interface{}, error) {
+func (c *current) onExtraListElement389() (interface{}, error) {
 	return types.NewRawLine(string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement383() (interface{}, error) {
+func (p *parser) callonExtraListElement389() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement383()
+	return p.cur.onExtraListElement389()
 }
 
-func (c *current) onExtraListElement387() (interface{}, error) {
+func (c *current) onExtraListElement393() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement387() (interface{}, error) {
+func (p *parser) callonExtraListElement393() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement387()
+	return p.cur.onExtraListElement393()
 }
 
-func (c *current) onExtraListElement379(rawLines interface{}) (interface{}, error) {
+func (c *current) onExtraListElement385(rawLines interface{}) (interface{}, error) {
 	return types.NewParagraph(nil, rawLines.([]interface{})...)
 
 }
 
-func (p *parser) callonExtraListElement379() (interface{}, error) {
+func (p *parser) callonExtraListElement385() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement379(stack["rawLines"])
+	return p.cur.onExtraListElement385(stack["rawLines"])
 }
 
-func (c *current) onExtraListElement364(ref, description interface{}) (interface{}, error) {
+func (c *current) onExtraListElement370(ref, description interface{}) (interface{}, error) {
 	return types.NewCalloutListElement(ref.(int), description.(*types.Paragraph))
 
 }
 
-func (p *parser) callonExtraListElement364() (interface{}, error) {
+func (p *parser) callonExtraListElement370() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement364(stack["ref"], stack["description"])
+	return p.cur.onExtraListElement370(stack["ref"], stack["description"])
 }
 
-func (c *current) onExtraListElement404() (interface{}, error) {
+func (c *current) onExtraListElement416() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement404() (interface{}, error) {
+func (p *parser) callonExtraListElement416() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement404()
+	return p.cur.onExtraListElement416()
 }
 
-func (c *current) onExtraListElement407(separator interface{}) (bool, error) {
+func (c *current) onExtraListElement419(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonExtraListElement407() (bool, error) {
+func (p *parser) callonExtraListElement419() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement407(stack["separator"])
+	return p.cur.onExtraListElement419(stack["separator"])
 }
 
-func (c *current) onExtraListElement401(separator interface{}) (interface{}, error) {
+func (c *current) onExtraListElement413(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonExtraListElement401() (interface{}, error) {
+func (p *parser) callonExtraListElement413() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement401(stack["separator"])
+	return p.cur.onExtraListElement413(stack["separator"])
 }
 
-func (c *current) onExtraListElement410() (interface{}, error) {
+func (c *current) onExtraListElement422() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement410() (interface{}, error) {
+func (p *parser) callonExtraListElement422() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement410()
+	return p.cur.onExtraListElement422()
 }
 
-func (c *current) onExtraListElement397() (interface{}, error) {
+func (c *current) onExtraListElement403() (interface{}, error) {
 	return types.NewRawLine(strings.TrimSpace(string(c.text)))
 
 }
 
-func (p *parser) callonExtraListElement397() (interface{}, error) {
+func (p *parser) callonExtraListElement403() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement397()
+	return p.cur.onExtraListElement403()
 }
 
-func (c *current) onExtraListElement422() (interface{}, error) {
+func (c *current) onExtraListElement434() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement422() (interface{}, error) {
+func (p *parser) callonExtraListElement434() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement422()
+	return p.cur.onExtraListElement434()
 }
 
-func (c *current) onExtraListElement425(separator interface{}) (bool, error) {
+func (c *current) onExtraListElement437(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonExtraListElement425() (bool, error) {
+func (p *parser) callonExtraListElement437() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement425(stack["separator"])
+	return p.cur.onExtraListElement437(stack["separator"])
 }
 
-func (c *current) onExtraListElement419(separator interface{}) (interface{}, error) {
+func (c *current) onExtraListElement431(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonExtraListElement419() (interface{}, error) {
+func (p *parser) callonExtraListElement431() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement419(stack["separator"])
+	return p.cur.onExtraListElement431(stack["separator"])
 }
 
-func (c *current) onExtraListElement431() (interface{}, error) {
+func (c *current) onExtraListElement443() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement431() (interface{}, error) {
+func (p *parser) callonExtraListElement443() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement431()
+	return p.cur.onExtraListElement443()
 }
 
-func (c *current) onExtraListElement434() (interface{}, error) {
+func (c *current) onExtraListElement446() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement434() (interface{}, error) {
+func (p *parser) callonExtraListElement446() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement434()
+	return p.cur.onExtraListElement446()
 }
 
-func (c *current) onExtraListElement447() (interface{}, error) {
+func (c *current) onExtraListElement459() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement447() (interface{}, error) {
+func (p *parser) callonExtraListElement459() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement447()
+	return p.cur.onExtraListElement459()
 }
 
-func (c *current) onExtraListElement450() (interface{}, error) {
+func (c *current) onExtraListElement462() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement450() (interface{}, error) {
+func (p *parser) callonExtraListElement462() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement450()
+	return p.cur.onExtraListElement462()
 }
 
-func (c *current) onExtraListElement442() (interface{}, error) {
+func (c *current) onExtraListElement454() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonExtraListElement442() (interface{}, error) {
+func (p *parser) callonExtraListElement454() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement442()
+	return p.cur.onExtraListElement454()
 }
 
-func (c *current) onExtraListElement428() (interface{}, error) {
+func (c *current) onExtraListElement440() (interface{}, error) {
 	return nil, nil
 
 }
 
-func (p *parser) callonExtraListElement428() (interface{}, error) {
+func (p *parser) callonExtraListElement440() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement428()
+	return p.cur.onExtraListElement440()
 }
 
-func (c *current) onExtraListElement459() (interface{}, error) {
+func (c *current) onExtraListElement471() (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement459() (interface{}, error) {
+func (p *parser) callonExtraListElement471() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement459()
+	return p.cur.onExtraListElement471()
 }
 
-func (c *current) onExtraListElement463() (interface{}, error) {
+func (c *current) onExtraListElement475() (interface{}, error) {
 	return types.NewRawLine(string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement463() (interface{}, error) {
+func (p *parser) callonExtraListElement475() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement463()
+	return p.cur.onExtraListElement475()
 }
 
-func (c *current) onExtraListElement467() (interface{}, error) {
+func (c *current) onExtraListElement479() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement467() (interface{}, error) {
+func (p *parser) callonExtraListElement479() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement467()
+	return p.cur.onExtraListElement479()
 }
 
-func (c *current) onExtraListElement457(content interface{}) (interface{}, error) {
+func (c *current) onExtraListElement469(content interface{}) (interface{}, error) {
 	return types.NewParagraph(nil, content)
 
 }
 
-func (p *parser) callonExtraListElement457() (interface{}, error) {
+func (p *parser) callonExtraListElement469() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement457(stack["content"])
+	return p.cur.onExtraListElement469(stack["content"])
 }
 
-func (c *current) onExtraListElement394(term, separator, description interface{}) (interface{}, error) {
+func (c *current) onExtraListElement400(term, separator, description interface{}) (interface{}, error) {
 	return types.NewLabeledListElement(len(separator.(string))-1, term, description)
 
 }
 
-func (p *parser) callonExtraListElement394() (interface{}, error) {
+func (p *parser) callonExtraListElement400() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement394(stack["term"], stack["separator"], stack["description"])
+	return p.cur.onExtraListElement400(stack["term"], stack["separator"], stack["description"])
 }
 
-func (c *current) onExtraListElement247(attributes, element interface{}) (interface{}, error) {
+func (c *current) onExtraListElement253(attributes, element interface{}) (interface{}, error) {
 
 	return append(attributes.([]interface{}), element), nil
 
 }
 
-func (p *parser) callonExtraListElement247() (interface{}, error) {
+func (p *parser) callonExtraListElement253() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement247(stack["attributes"], stack["element"])
+	return p.cur.onExtraListElement253(stack["attributes"], stack["element"])
 }
 
-func (c *current) onExtraListElement481() (interface{}, error) {
+func (c *current) onExtraListElement493() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement481() (interface{}, error) {
+func (p *parser) callonExtraListElement493() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement481()
+	return p.cur.onExtraListElement493()
 }
 
-func (c *current) onExtraListElement485() (interface{}, error) {
+func (c *current) onExtraListElement497() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement485() (interface{}, error) {
+func (p *parser) callonExtraListElement497() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement485()
+	return p.cur.onExtraListElement497()
 }
 
-func (c *current) onExtraListElement475(content interface{}) (interface{}, error) {
+func (c *current) onExtraListElement487(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonExtraListElement475() (interface{}, error) {
+func (p *parser) callonExtraListElement487() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement475(stack["content"])
+	return p.cur.onExtraListElement487(stack["content"])
 }
 
-func (c *current) onExtraListElement500() (interface{}, error) {
+func (c *current) onExtraListElement512() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement500() (interface{}, error) {
+func (p *parser) callonExtraListElement512() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement500()
+	return p.cur.onExtraListElement512()
 }
 
-func (c *current) onExtraListElement503() (interface{}, error) {
+func (c *current) onExtraListElement515() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement503() (interface{}, error) {
+func (p *parser) callonExtraListElement515() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement503()
+	return p.cur.onExtraListElement515()
 }
 
-func (c *current) onExtraListElement495() (interface{}, error) {
+func (c *current) onExtraListElement507() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonExtraListElement495() (interface{}, error) {
+func (p *parser) callonExtraListElement507() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement495()
+	return p.cur.onExtraListElement507()
 }
 
-func (c *current) onExtraListElement514() (interface{}, error) {
+func (c *current) onExtraListElement526() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement514() (interface{}, error) {
+func (p *parser) callonExtraListElement526() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement514()
+	return p.cur.onExtraListElement526()
 }
 
-func (c *current) onExtraListElement516() (interface{}, error) {
+func (c *current) onExtraListElement528() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement516() (interface{}, error) {
+func (p *parser) callonExtraListElement528() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement516()
+	return p.cur.onExtraListElement528()
 }
 
-func (c *current) onExtraListElement525() (interface{}, error) {
+func (c *current) onExtraListElement537() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement525() (interface{}, error) {
+func (p *parser) callonExtraListElement537() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement525()
+	return p.cur.onExtraListElement537()
 }
 
-func (c *current) onExtraListElement532() (interface{}, error) {
+func (c *current) onExtraListElement544() (interface{}, error) {
 
 	// `.` is 1, etc.
 	return (len(c.text)), nil
 
 }
 
-func (p *parser) callonExtraListElement532() (interface{}, error) {
+func (p *parser) callonExtraListElement544() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement532()
+	return p.cur.onExtraListElement544()
 }
 
-func (c *current) onExtraListElement535(depth interface{}) (bool, error) {
+func (c *current) onExtraListElement547(depth interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `.` to `.....` are allowed
 	return depth.(int) <= 5, nil
 
 }
 
-func (p *parser) callonExtraListElement535() (bool, error) {
+func (p *parser) callonExtraListElement547() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement535(stack["depth"])
+	return p.cur.onExtraListElement547(stack["depth"])
 }
 
-func (c *current) onExtraListElement529(depth interface{}) (interface{}, error) {
+func (c *current) onExtraListElement541(depth interface{}) (interface{}, error) {
 	switch depth.(int) {
 	case 1:
 		return types.NewOrderedListElementPrefix(types.Arabic)
@@ -62681,745 +62849,745 @@ func (c *current) onExtraListElement529(depth interface{}) (interface{}, error)
 
 }
 
-func (p *parser) callonExtraListElement529() (interface{}, error) {
+func (p *parser) callonExtraListElement541() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement529(stack["depth"])
+	return p.cur.onExtraListElement541(stack["depth"])
 }
 
-func (c *current) onExtraListElement536() (interface{}, error) {
+func (c *current) onExtraListElement548() (interface{}, error) {
 	// numbering style: "1.", etc.
 	return types.NewOrderedListElementPrefix(types.Arabic)
 
 }
 
-func (p *parser) callonExtraListElement536() (interface{}, error) {
+func (p *parser) callonExtraListElement548() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement536()
+	return p.cur.onExtraListElement548()
 }
 
-func (c *current) onExtraListElement541() (interface{}, error) {
+func (c *current) onExtraListElement553() (interface{}, error) {
 	// numbering style: "a.", etc.
 	return types.NewOrderedListElementPrefix(types.LowerAlpha)
 
 }
 
-func (p *parser) callonExtraListElement541() (interface{}, error) {
+func (p *parser) callonExtraListElement553() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement541()
+	return p.cur.onExtraListElement553()
 }
 
-func (c *current) onExtraListElement545() (interface{}, error) {
+func (c *current) onExtraListElement557() (interface{}, error) {
 	// numbering style: "A.", etc.
 	return types.NewOrderedListElementPrefix(types.UpperAlpha)
 
 }
 
-func (p *parser) callonExtraListElement545() (interface{}, error) {
+func (p *parser) callonExtraListElement557() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement545()
+	return p.cur.onExtraListElement557()
 }
 
-func (c *current) onExtraListElement549() (interface{}, error) {
+func (c *current) onExtraListElement561() (interface{}, error) {
 	// numbering style: "i)", etc.
 	return types.NewOrderedListElementPrefix(types.LowerRoman)
 
 }
 
-func (p *parser) callonExtraListElement549() (interface{}, error) {
+func (p *parser) callonExtraListElement561() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement549()
+	return p.cur.onExtraListElement561()
 }
 
-func (c *current) onExtraListElement554() (interface{}, error) {
+func (c *current) onExtraListElement566() (interface{}, error) {
 	// numbering style: "I)", etc.
 	return types.NewOrderedListElementPrefix(types.UpperRoman)
 
 }
 
-func (p *parser) callonExtraListElement554() (interface{}, error) {
+func (p *parser) callonExtraListElement566() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement554()
+	return p.cur.onExtraListElement566()
 }
 
-func (c *current) onExtraListElement559(prefix interface{}) (interface{}, error) {
+func (c *current) onExtraListElement571(prefix interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement559() (interface{}, error) {
+func (p *parser) callonExtraListElement571() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement559(stack["prefix"])
+	return p.cur.onExtraListElement571(stack["prefix"])
 }
 
-func (c *current) onExtraListElement522(prefix interface{}) (interface{}, error) {
+func (c *current) onExtraListElement534(prefix interface{}) (interface{}, error) {
 	return prefix, nil
 }
 
-func (p *parser) callonExtraListElement522() (interface{}, error) {
+func (p *parser) callonExtraListElement534() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement522(stack["prefix"])
+	return p.cur.onExtraListElement534(stack["prefix"])
 }
 
-func (c *current) onExtraListElement566() (interface{}, error) {
+func (c *current) onExtraListElement578() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement566() (interface{}, error) {
+func (p *parser) callonExtraListElement578() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement566()
+	return p.cur.onExtraListElement578()
 }
 
-func (c *current) onExtraListElement569() (interface{}, error) {
+func (c *current) onExtraListElement581() (interface{}, error) {
 	// `-` or `*` to `*****`
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement569() (interface{}, error) {
+func (p *parser) callonExtraListElement581() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement569()
+	return p.cur.onExtraListElement581()
 }
 
-func (c *current) onExtraListElement574(style interface{}) (bool, error) {
+func (c *current) onExtraListElement586(style interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `*` to `*****` are allowed
 	return len(style.(string)) <= 5, nil
 
 }
 
-func (p *parser) callonExtraListElement574() (bool, error) {
+func (p *parser) callonExtraListElement586() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement574(stack["style"])
+	return p.cur.onExtraListElement586(stack["style"])
 }
 
-func (c *current) onExtraListElement575(style interface{}) (interface{}, error) {
+func (c *current) onExtraListElement587(style interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement575() (interface{}, error) {
+func (p *parser) callonExtraListElement587() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement575(stack["style"])
+	return p.cur.onExtraListElement587(stack["style"])
 }
 
-func (c *current) onExtraListElement563(style interface{}) (interface{}, error) {
+func (c *current) onExtraListElement575(style interface{}) (interface{}, error) {
 	return types.NewUnorderedListElementPrefix(style.(string))
 
 }
 
-func (p *parser) callonExtraListElement563() (interface{}, error) {
+func (p *parser) callonExtraListElement575() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement563(stack["style"])
+	return p.cur.onExtraListElement575(stack["style"])
 }
 
-func (c *current) onExtraListElement583() (interface{}, error) {
+func (c *current) onExtraListElement595() (interface{}, error) {
 	return strconv.Atoi(string(c.text))
 }
 
-func (p *parser) callonExtraListElement583() (interface{}, error) {
+func (p *parser) callonExtraListElement595() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement583()
+	return p.cur.onExtraListElement595()
 }
 
-func (c *current) onExtraListElement587(ref interface{}) (interface{}, error) {
+func (c *current) onExtraListElement599(ref interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement587() (interface{}, error) {
+func (p *parser) callonExtraListElement599() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement587(stack["ref"])
+	return p.cur.onExtraListElement599(stack["ref"])
 }
 
-func (c *current) onExtraListElement579(ref interface{}) (interface{}, error) {
+func (c *current) onExtraListElement591(ref interface{}) (interface{}, error) {
 	return ref, nil
 
 }
 
-func (p *parser) callonExtraListElement579() (interface{}, error) {
+func (p *parser) callonExtraListElement591() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement579(stack["ref"])
+	return p.cur.onExtraListElement591(stack["ref"])
 }
 
-func (c *current) onExtraListElement599() (interface{}, error) {
+func (c *current) onExtraListElement617() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement599() (interface{}, error) {
+func (p *parser) callonExtraListElement617() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement599()
+	return p.cur.onExtraListElement617()
 }
 
-func (c *current) onExtraListElement602(separator interface{}) (bool, error) {
+func (c *current) onExtraListElement620(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonExtraListElement602() (bool, error) {
+func (p *parser) callonExtraListElement620() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement602(stack["separator"])
+	return p.cur.onExtraListElement620(stack["separator"])
 }
 
-func (c *current) onExtraListElement596(separator interface{}) (interface{}, error) {
+func (c *current) onExtraListElement614(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonExtraListElement596() (interface{}, error) {
+func (p *parser) callonExtraListElement614() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement596(stack["separator"])
+	return p.cur.onExtraListElement614(stack["separator"])
 }
 
-func (c *current) onExtraListElement605() (interface{}, error) {
+func (c *current) onExtraListElement623() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement605() (interface{}, error) {
+func (p *parser) callonExtraListElement623() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement605()
+	return p.cur.onExtraListElement623()
 }
 
-func (c *current) onExtraListElement592() (interface{}, error) {
+func (c *current) onExtraListElement604() (interface{}, error) {
 	return types.NewRawLine(strings.TrimSpace(string(c.text)))
 
 }
 
-func (p *parser) callonExtraListElement592() (interface{}, error) {
+func (p *parser) callonExtraListElement604() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement592()
+	return p.cur.onExtraListElement604()
 }
 
-func (c *current) onExtraListElement616() (interface{}, error) {
+func (c *current) onExtraListElement634() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement616() (interface{}, error) {
+func (p *parser) callonExtraListElement634() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement616()
+	return p.cur.onExtraListElement634()
 }
 
-func (c *current) onExtraListElement619(separator interface{}) (bool, error) {
+func (c *current) onExtraListElement637(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonExtraListElement619() (bool, error) {
+func (p *parser) callonExtraListElement637() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement619(stack["separator"])
+	return p.cur.onExtraListElement637(stack["separator"])
 }
 
-func (c *current) onExtraListElement613(separator interface{}) (interface{}, error) {
+func (c *current) onExtraListElement631(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonExtraListElement613() (interface{}, error) {
+func (p *parser) callonExtraListElement631() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement613(stack["separator"])
+	return p.cur.onExtraListElement631(stack["separator"])
 }
 
-func (c *current) onExtraListElement630() (interface{}, error) {
+func (c *current) onExtraListElement648() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement630() (interface{}, error) {
+func (p *parser) callonExtraListElement648() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement630()
+	return p.cur.onExtraListElement648()
 }
 
-func (c *current) onExtraListElement636() (interface{}, error) {
+func (c *current) onExtraListElement654() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement636() (interface{}, error) {
+func (p *parser) callonExtraListElement654() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement636()
+	return p.cur.onExtraListElement654()
 }
 
-func (c *current) onExtraListElement639() (interface{}, error) {
+func (c *current) onExtraListElement657() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement639() (interface{}, error) {
+func (p *parser) callonExtraListElement657() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement639()
+	return p.cur.onExtraListElement657()
 }
 
-func (c *current) onExtraListElement627(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement645(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement627() (interface{}, error) {
+func (p *parser) callonExtraListElement645() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement627(stack["delimiter"])
+	return p.cur.onExtraListElement645(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement649() (interface{}, error) {
+func (c *current) onExtraListElement667() (interface{}, error) {
 	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement649() (interface{}, error) {
+func (p *parser) callonExtraListElement667() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement649()
+	return p.cur.onExtraListElement667()
 }
 
-func (c *current) onExtraListElement655() (interface{}, error) {
+func (c *current) onExtraListElement673() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement655() (interface{}, error) {
+func (p *parser) callonExtraListElement673() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement655()
+	return p.cur.onExtraListElement673()
 }
 
-func (c *current) onExtraListElement658() (interface{}, error) {
+func (c *current) onExtraListElement676() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement658() (interface{}, error) {
+func (p *parser) callonExtraListElement676() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement658()
+	return p.cur.onExtraListElement676()
 }
 
-func (c *current) onExtraListElement646(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement664(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement646() (interface{}, error) {
+func (p *parser) callonExtraListElement664() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement646(stack["delimiter"])
+	return p.cur.onExtraListElement664(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement669() (interface{}, error) {
+func (c *current) onExtraListElement687() (interface{}, error) {
 	// exclude ` to avoid matching fenced blocks with more than 3 "`"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement669() (interface{}, error) {
+func (p *parser) callonExtraListElement687() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement669()
+	return p.cur.onExtraListElement687()
 }
 
-func (c *current) onExtraListElement673() (interface{}, error) {
+func (c *current) onExtraListElement691() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement673() (interface{}, error) {
+func (p *parser) callonExtraListElement691() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement673()
+	return p.cur.onExtraListElement691()
 }
 
-func (c *current) onExtraListElement676() (interface{}, error) {
+func (c *current) onExtraListElement694() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement676() (interface{}, error) {
+func (p *parser) callonExtraListElement694() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement676()
+	return p.cur.onExtraListElement694()
 }
 
-func (c *current) onExtraListElement665(language interface{}) (interface{}, error) {
+func (c *current) onExtraListElement683(language interface{}) (interface{}, error) {
 	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
 }
 
-func (p *parser) callonExtraListElement665() (interface{}, error) {
+func (p *parser) callonExtraListElement683() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement665(stack["language"])
+	return p.cur.onExtraListElement683(stack["language"])
 }
 
-func (c *current) onExtraListElement686() (interface{}, error) {
+func (c *current) onExtraListElement704() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement686() (interface{}, error) {
+func (p *parser) callonExtraListElement704() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement686()
+	return p.cur.onExtraListElement704()
 }
 
-func (c *current) onExtraListElement692() (interface{}, error) {
+func (c *current) onExtraListElement710() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement692() (interface{}, error) {
+func (p *parser) callonExtraListElement710() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement692()
+	return p.cur.onExtraListElement710()
 }
 
-func (c *current) onExtraListElement695() (interface{}, error) {
+func (c *current) onExtraListElement713() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement695() (interface{}, error) {
+func (p *parser) callonExtraListElement713() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement695()
+	return p.cur.onExtraListElement713()
 }
 
-func (c *current) onExtraListElement683(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement701(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement683() (interface{}, error) {
+func (p *parser) callonExtraListElement701() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement683(stack["delimiter"])
+	return p.cur.onExtraListElement701(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement705() (interface{}, error) {
+func (c *current) onExtraListElement723() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement705() (interface{}, error) {
+func (p *parser) callonExtraListElement723() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement705()
+	return p.cur.onExtraListElement723()
 }
 
-func (c *current) onExtraListElement711() (interface{}, error) {
+func (c *current) onExtraListElement729() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement711() (interface{}, error) {
+func (p *parser) callonExtraListElement729() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement711()
+	return p.cur.onExtraListElement729()
 }
 
-func (c *current) onExtraListElement714() (interface{}, error) {
+func (c *current) onExtraListElement732() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement714() (interface{}, error) {
+func (p *parser) callonExtraListElement732() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement714()
+	return p.cur.onExtraListElement732()
 }
 
-func (c *current) onExtraListElement702(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement720(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement702() (interface{}, error) {
+func (p *parser) callonExtraListElement720() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement702(stack["delimiter"])
+	return p.cur.onExtraListElement720(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement724() (interface{}, error) {
+func (c *current) onExtraListElement742() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement724() (interface{}, error) {
+func (p *parser) callonExtraListElement742() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement724()
+	return p.cur.onExtraListElement742()
 }
 
-func (c *current) onExtraListElement730() (interface{}, error) {
+func (c *current) onExtraListElement748() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement730() (interface{}, error) {
+func (p *parser) callonExtraListElement748() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement730()
+	return p.cur.onExtraListElement748()
 }
 
-func (c *current) onExtraListElement733() (interface{}, error) {
+func (c *current) onExtraListElement751() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement733() (interface{}, error) {
+func (p *parser) callonExtraListElement751() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement733()
+	return p.cur.onExtraListElement751()
 }
 
-func (c *current) onExtraListElement721(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement739(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement721() (interface{}, error) {
+func (p *parser) callonExtraListElement739() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement721(stack["delimiter"])
+	return p.cur.onExtraListElement739(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement743() (interface{}, error) {
+func (c *current) onExtraListElement761() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement743() (interface{}, error) {
+func (p *parser) callonExtraListElement761() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement743()
+	return p.cur.onExtraListElement761()
 }
 
-func (c *current) onExtraListElement749() (interface{}, error) {
+func (c *current) onExtraListElement767() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement749() (interface{}, error) {
+func (p *parser) callonExtraListElement767() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement749()
+	return p.cur.onExtraListElement767()
 }
 
-func (c *current) onExtraListElement752() (interface{}, error) {
+func (c *current) onExtraListElement770() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement752() (interface{}, error) {
+func (p *parser) callonExtraListElement770() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement752()
+	return p.cur.onExtraListElement770()
 }
 
-func (c *current) onExtraListElement740(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement758(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement740() (interface{}, error) {
+func (p *parser) callonExtraListElement758() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement740(stack["delimiter"])
+	return p.cur.onExtraListElement758(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement762() (interface{}, error) {
+func (c *current) onExtraListElement780() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement762() (interface{}, error) {
+func (p *parser) callonExtraListElement780() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement762()
+	return p.cur.onExtraListElement780()
 }
 
-func (c *current) onExtraListElement768() (interface{}, error) {
+func (c *current) onExtraListElement786() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement768() (interface{}, error) {
+func (p *parser) callonExtraListElement786() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement768()
+	return p.cur.onExtraListElement786()
 }
 
-func (c *current) onExtraListElement771() (interface{}, error) {
+func (c *current) onExtraListElement789() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement771() (interface{}, error) {
+func (p *parser) callonExtraListElement789() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement771()
+	return p.cur.onExtraListElement789()
 }
 
-func (c *current) onExtraListElement759(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement777(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement759() (interface{}, error) {
+func (p *parser) callonExtraListElement777() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement759(stack["delimiter"])
+	return p.cur.onExtraListElement777(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement781() (interface{}, error) {
+func (c *current) onExtraListElement799() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement781() (interface{}, error) {
+func (p *parser) callonExtraListElement799() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement781()
+	return p.cur.onExtraListElement799()
 }
 
-func (c *current) onExtraListElement787() (interface{}, error) {
+func (c *current) onExtraListElement805() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement787() (interface{}, error) {
+func (p *parser) callonExtraListElement805() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement787()
+	return p.cur.onExtraListElement805()
 }
 
-func (c *current) onExtraListElement790() (interface{}, error) {
+func (c *current) onExtraListElement808() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement790() (interface{}, error) {
+func (p *parser) callonExtraListElement808() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement790()
+	return p.cur.onExtraListElement808()
 }
 
-func (c *current) onExtraListElement778(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement796(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement778() (interface{}, error) {
+func (p *parser) callonExtraListElement796() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement778(stack["delimiter"])
+	return p.cur.onExtraListElement796(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement621(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement639(delimiter interface{}) (interface{}, error) {
 	return delimiter, nil
 
 }
 
-func (p *parser) callonExtraListElement621() (interface{}, error) {
+func (p *parser) callonExtraListElement639() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement621(stack["delimiter"])
+	return p.cur.onExtraListElement639(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement798() (interface{}, error) {
+func (c *current) onExtraListElement816() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement798() (interface{}, error) {
+func (p *parser) callonExtraListElement816() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement798()
+	return p.cur.onExtraListElement816()
 }
 
-func (c *current) onExtraListElement802() (interface{}, error) {
+func (c *current) onExtraListElement820() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement802() (interface{}, error) {
+func (p *parser) callonExtraListElement820() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement802()
+	return p.cur.onExtraListElement820()
 }
 
-func (c *current) onExtraListElement492(content interface{}) (interface{}, error) {
+func (c *current) onExtraListElement504(content interface{}) (interface{}, error) {
 	// do not retain the EOL chars
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonExtraListElement492() (interface{}, error) {
+func (p *parser) callonExtraListElement504() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement492(stack["content"])
+	return p.cur.onExtraListElement504(stack["content"])
 }
 
 func (c *current) onExtraListElement1(element interface{}) (interface{}, error) {
@@ -63910,51 +64078,51 @@ func (p *parser) callonListContinuationElement117() (interface{}, error) {
 	return p.cur.onListContinuationElement117(stack["ref"], stack["description"])
 }
 
-func (c *current) onListContinuationElement157() (interface{}, error) {
+func (c *current) onListContinuationElement163() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement157() (interface{}, error) {
+func (p *parser) callonListContinuationElement163() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement157()
+	return p.cur.onListContinuationElement163()
 }
 
-func (c *current) onListContinuationElement160(separator interface{}) (bool, error) {
+func (c *current) onListContinuationElement166(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonListContinuationElement160() (bool, error) {
+func (p *parser) callonListContinuationElement166() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement160(stack["separator"])
+	return p.cur.onListContinuationElement166(stack["separator"])
 }
 
-func (c *current) onListContinuationElement154(separator interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement160(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonListContinuationElement154() (interface{}, error) {
+func (p *parser) callonListContinuationElement160() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement154(stack["separator"])
+	return p.cur.onListContinuationElement160(stack["separator"])
 }
 
-func (c *current) onListContinuationElement163() (interface{}, error) {
+func (c *current) onListContinuationElement169() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement163() (interface{}, error) {
+func (p *parser) callonListContinuationElement169() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement163()
+	return p.cur.onListContinuationElement169()
 }
 
 func (c *current) onListContinuationElement150() (interface{}, error) {
@@ -63968,153 +64136,153 @@ func (p *parser) callonListContinuationElement150() (interface{}, error) {
 	return p.cur.onListContinuationElement150()
 }
 
-func (c *current) onListContinuationElement175() (interface{}, error) {
+func (c *current) onListContinuationElement181() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement175() (interface{}, error) {
+func (p *parser) callonListContinuationElement181() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement175()
+	return p.cur.onListContinuationElement181()
 }
 
-func (c *current) onListContinuationElement178(separator interface{}) (bool, error) {
+func (c *current) onListContinuationElement184(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonListContinuationElement178() (bool, error) {
+func (p *parser) callonListContinuationElement184() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement178(stack["separator"])
+	return p.cur.onListContinuationElement184(stack["separator"])
 }
 
-func (c *current) onListContinuationElement172(separator interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement178(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonListContinuationElement172() (interface{}, error) {
+func (p *parser) callonListContinuationElement178() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement172(stack["separator"])
+	return p.cur.onListContinuationElement178(stack["separator"])
 }
 
-func (c *current) onListContinuationElement184() (interface{}, error) {
+func (c *current) onListContinuationElement190() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement184() (interface{}, error) {
+func (p *parser) callonListContinuationElement190() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement184()
+	return p.cur.onListContinuationElement190()
 }
 
-func (c *current) onListContinuationElement187() (interface{}, error) {
+func (c *current) onListContinuationElement193() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement187() (interface{}, error) {
+func (p *parser) callonListContinuationElement193() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement187()
+	return p.cur.onListContinuationElement193()
 }
 
-func (c *current) onListContinuationElement200() (interface{}, error) {
+func (c *current) onListContinuationElement206() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement200() (interface{}, error) {
+func (p *parser) callonListContinuationElement206() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement200()
+	return p.cur.onListContinuationElement206()
 }
 
-func (c *current) onListContinuationElement203() (interface{}, error) {
+func (c *current) onListContinuationElement209() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement203() (interface{}, error) {
+func (p *parser) callonListContinuationElement209() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement203()
+	return p.cur.onListContinuationElement209()
 }
 
-func (c *current) onListContinuationElement195() (interface{}, error) {
+func (c *current) onListContinuationElement201() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement195() (interface{}, error) {
+func (p *parser) callonListContinuationElement201() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement195()
+	return p.cur.onListContinuationElement201()
 }
 
-func (c *current) onListContinuationElement181() (interface{}, error) {
+func (c *current) onListContinuationElement187() (interface{}, error) {
 	return nil, nil
 
 }
 
-func (p *parser) callonListContinuationElement181() (interface{}, error) {
+func (p *parser) callonListContinuationElement187() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement181()
+	return p.cur.onListContinuationElement187()
 }
 
-func (c *current) onListContinuationElement212() (interface{}, error) {
+func (c *current) onListContinuationElement218() (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement212() (interface{}, error) {
+func (p *parser) callonListContinuationElement218() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement212()
+	return p.cur.onListContinuationElement218()
 }
 
-func (c *current) onListContinuationElement216() (interface{}, error) {
+func (c *current) onListContinuationElement222() (interface{}, error) {
 	return types.NewRawLine(string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement216() (interface{}, error) {
+func (p *parser) callonListContinuationElement222() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement216()
+	return p.cur.onListContinuationElement222()
 }
 
-func (c *current) onListContinuationElement220() (interface{}, error) {
+func (c *current) onListContinuationElement226() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement220() (interface{}, error) {
+func (p *parser) callonListContinuationElement226() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement220()
+	return p.cur.onListContinuationElement226()
 }
 
-func (c *current) onListContinuationElement210(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement216(content interface{}) (interface{}, error) {
 	return types.NewParagraph(nil, content)
 
 }
 
-func (p *parser) callonListContinuationElement210() (interface{}, error) {
+func (p *parser) callonListContinuationElement216() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement210(stack["content"])
+	return p.cur.onListContinuationElement216(stack["content"])
 }
 
 func (c *current) onListContinuationElement147(term, separator, description interface{}) (interface{}, error) {
@@ -64128,696 +64296,696 @@ func (p *parser) callonListContinuationElement147() (interface{}, error) {
 	return p.cur.onListContinuationElement147(stack["term"], stack["separator"], stack["description"])
 }
 
-func (c *current) onListContinuationElement237() (interface{}, error) {
+func (c *current) onListContinuationElement243() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement237() (interface{}, error) {
+func (p *parser) callonListContinuationElement243() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement237()
+	return p.cur.onListContinuationElement243()
 }
 
-func (c *current) onListContinuationElement240() (interface{}, error) {
+func (c *current) onListContinuationElement246() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement240() (interface{}, error) {
+func (p *parser) callonListContinuationElement246() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement240()
+	return p.cur.onListContinuationElement246()
 }
 
-func (c *current) onListContinuationElement232() (interface{}, error) {
+func (c *current) onListContinuationElement238() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement232() (interface{}, error) {
+func (p *parser) callonListContinuationElement238() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement232()
+	return p.cur.onListContinuationElement238()
 }
 
-func (c *current) onListContinuationElement252() (interface{}, error) {
+func (c *current) onListContinuationElement258() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement252() (interface{}, error) {
+func (p *parser) callonListContinuationElement258() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement252()
+	return p.cur.onListContinuationElement258()
 }
 
-func (c *current) onListContinuationElement259() (interface{}, error) {
+func (c *current) onListContinuationElement265() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement259() (interface{}, error) {
+func (p *parser) callonListContinuationElement265() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement259()
+	return p.cur.onListContinuationElement265()
 }
 
-func (c *current) onListContinuationElement262() (interface{}, error) {
+func (c *current) onListContinuationElement268() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement262() (interface{}, error) {
+func (p *parser) callonListContinuationElement268() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement262()
+	return p.cur.onListContinuationElement268()
 }
 
-func (c *current) onListContinuationElement248(name interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement254(name interface{}) (interface{}, error) {
 	return types.NewAttributeReset(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement248() (interface{}, error) {
+func (p *parser) callonListContinuationElement254() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement248(stack["name"])
+	return p.cur.onListContinuationElement254(stack["name"])
 }
 
-func (c *current) onListContinuationElement273() (interface{}, error) {
+func (c *current) onListContinuationElement279() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement273() (interface{}, error) {
+func (p *parser) callonListContinuationElement279() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement273()
+	return p.cur.onListContinuationElement279()
 }
 
-func (c *current) onListContinuationElement280() (interface{}, error) {
+func (c *current) onListContinuationElement286() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement280() (interface{}, error) {
+func (p *parser) callonListContinuationElement286() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement280()
+	return p.cur.onListContinuationElement286()
 }
 
-func (c *current) onListContinuationElement283() (interface{}, error) {
+func (c *current) onListContinuationElement289() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement283() (interface{}, error) {
+func (p *parser) callonListContinuationElement289() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement283()
+	return p.cur.onListContinuationElement289()
 }
 
-func (c *current) onListContinuationElement269(name interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement275(name interface{}) (interface{}, error) {
 	return types.NewAttributeReset(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement269() (interface{}, error) {
+func (p *parser) callonListContinuationElement275() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement269(stack["name"])
+	return p.cur.onListContinuationElement275(stack["name"])
 }
 
-func (c *current) onListContinuationElement295() (interface{}, error) {
+func (c *current) onListContinuationElement301() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement295() (interface{}, error) {
+func (p *parser) callonListContinuationElement301() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement295()
+	return p.cur.onListContinuationElement301()
 }
 
-func (c *current) onListContinuationElement301() (interface{}, error) {
+func (c *current) onListContinuationElement307() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement301() (interface{}, error) {
+func (p *parser) callonListContinuationElement307() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement301()
+	return p.cur.onListContinuationElement307()
 }
 
-func (c *current) onListContinuationElement304() (interface{}, error) {
+func (c *current) onListContinuationElement310() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement304() (interface{}, error) {
+func (p *parser) callonListContinuationElement310() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement304()
+	return p.cur.onListContinuationElement310()
 }
 
-func (c *current) onListContinuationElement292(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement298(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement292() (interface{}, error) {
+func (p *parser) callonListContinuationElement298() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement292(stack["delimiter"])
+	return p.cur.onListContinuationElement298(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement320() (interface{}, error) {
+func (c *current) onListContinuationElement326() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement320() (interface{}, error) {
+func (p *parser) callonListContinuationElement326() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement320()
+	return p.cur.onListContinuationElement326()
 }
 
-func (c *current) onListContinuationElement326() (interface{}, error) {
+func (c *current) onListContinuationElement332() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement326() (interface{}, error) {
+func (p *parser) callonListContinuationElement332() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement326()
+	return p.cur.onListContinuationElement332()
 }
 
-func (c *current) onListContinuationElement329() (interface{}, error) {
+func (c *current) onListContinuationElement335() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement329() (interface{}, error) {
+func (p *parser) callonListContinuationElement335() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement329()
+	return p.cur.onListContinuationElement335()
 }
 
-func (c *current) onListContinuationElement317(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement323(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement317() (interface{}, error) {
+func (p *parser) callonListContinuationElement323() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement317(stack["delimiter"])
+	return p.cur.onListContinuationElement323(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement344() (interface{}, error) {
+func (c *current) onListContinuationElement350() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement344() (interface{}, error) {
+func (p *parser) callonListContinuationElement350() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement344()
+	return p.cur.onListContinuationElement350()
 }
 
-func (c *current) onListContinuationElement348() (interface{}, error) {
+func (c *current) onListContinuationElement354() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement348() (interface{}, error) {
+func (p *parser) callonListContinuationElement354() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement348()
+	return p.cur.onListContinuationElement354()
 }
 
-func (c *current) onListContinuationElement339(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement345(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement339() (interface{}, error) {
+func (p *parser) callonListContinuationElement345() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement339(stack["content"])
+	return p.cur.onListContinuationElement345(stack["content"])
 }
 
-func (c *current) onListContinuationElement313(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement319(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement313() (interface{}, error) {
+func (p *parser) callonListContinuationElement319() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement313(stack["line"])
+	return p.cur.onListContinuationElement319(stack["line"])
 }
 
-func (c *current) onListContinuationElement360() (interface{}, error) {
+func (c *current) onListContinuationElement366() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement360() (interface{}, error) {
+func (p *parser) callonListContinuationElement366() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement360()
+	return p.cur.onListContinuationElement366()
 }
 
-func (c *current) onListContinuationElement366() (interface{}, error) {
+func (c *current) onListContinuationElement372() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement366() (interface{}, error) {
+func (p *parser) callonListContinuationElement372() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement366()
+	return p.cur.onListContinuationElement372()
 }
 
-func (c *current) onListContinuationElement369() (interface{}, error) {
+func (c *current) onListContinuationElement375() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement369() (interface{}, error) {
+func (p *parser) callonListContinuationElement375() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement369()
+	return p.cur.onListContinuationElement375()
 }
 
-func (c *current) onListContinuationElement357(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement363(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement357() (interface{}, error) {
+func (p *parser) callonListContinuationElement363() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement357(stack["delimiter"])
+	return p.cur.onListContinuationElement363(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement290(delimiter, content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement296(delimiter, content interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Comment, content.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement290() (interface{}, error) {
+func (p *parser) callonListContinuationElement296() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement290(stack["delimiter"], stack["content"])
+	return p.cur.onListContinuationElement296(stack["delimiter"], stack["content"])
 }
 
-func (c *current) onListContinuationElement384() (interface{}, error) {
+func (c *current) onListContinuationElement390() (interface{}, error) {
 	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement384() (interface{}, error) {
+func (p *parser) callonListContinuationElement390() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement384()
+	return p.cur.onListContinuationElement390()
 }
 
-func (c *current) onListContinuationElement390() (interface{}, error) {
+func (c *current) onListContinuationElement396() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement390() (interface{}, error) {
+func (p *parser) callonListContinuationElement396() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement390()
+	return p.cur.onListContinuationElement396()
 }
 
-func (c *current) onListContinuationElement393() (interface{}, error) {
+func (c *current) onListContinuationElement399() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement393() (interface{}, error) {
+func (p *parser) callonListContinuationElement399() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement393()
+	return p.cur.onListContinuationElement399()
 }
 
-func (c *current) onListContinuationElement381(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement387(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement381() (interface{}, error) {
+func (p *parser) callonListContinuationElement387() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement381(stack["delimiter"])
+	return p.cur.onListContinuationElement387(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement400(start interface{}) (bool, error) {
+func (c *current) onListContinuationElement406(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement400() (bool, error) {
+func (p *parser) callonListContinuationElement406() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement400(stack["start"])
+	return p.cur.onListContinuationElement406(stack["start"])
 }
 
-func (c *current) onListContinuationElement412() (interface{}, error) {
+func (c *current) onListContinuationElement418() (interface{}, error) {
 	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement412() (interface{}, error) {
+func (p *parser) callonListContinuationElement418() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement412()
+	return p.cur.onListContinuationElement418()
 }
 
-func (c *current) onListContinuationElement418() (interface{}, error) {
+func (c *current) onListContinuationElement424() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement418() (interface{}, error) {
+func (p *parser) callonListContinuationElement424() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement418()
+	return p.cur.onListContinuationElement424()
 }
 
-func (c *current) onListContinuationElement421() (interface{}, error) {
+func (c *current) onListContinuationElement427() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement421() (interface{}, error) {
+func (p *parser) callonListContinuationElement427() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement421()
+	return p.cur.onListContinuationElement427()
 }
 
-func (c *current) onListContinuationElement409(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement415(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement409() (interface{}, error) {
+func (p *parser) callonListContinuationElement415() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement409(stack["delimiter"])
+	return p.cur.onListContinuationElement415(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement428(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement434(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement428() (bool, error) {
+func (p *parser) callonListContinuationElement434() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement428(stack["end"])
+	return p.cur.onListContinuationElement434(stack["end"])
 }
 
-func (c *current) onListContinuationElement437() (interface{}, error) {
+func (c *current) onListContinuationElement443() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement437() (interface{}, error) {
+func (p *parser) callonListContinuationElement443() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement437()
+	return p.cur.onListContinuationElement443()
 }
 
-func (c *current) onListContinuationElement441() (interface{}, error) {
+func (c *current) onListContinuationElement447() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement441() (interface{}, error) {
+func (p *parser) callonListContinuationElement447() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement441()
+	return p.cur.onListContinuationElement447()
 }
 
-func (c *current) onListContinuationElement432(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement438(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement432() (interface{}, error) {
+func (p *parser) callonListContinuationElement438() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement432(stack["content"])
+	return p.cur.onListContinuationElement438(stack["content"])
 }
 
-func (c *current) onListContinuationElement403(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement409(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement403() (interface{}, error) {
+func (p *parser) callonListContinuationElement409() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement403(stack["line"])
+	return p.cur.onListContinuationElement409(stack["line"])
 }
 
-func (c *current) onListContinuationElement456() (interface{}, error) {
+func (c *current) onListContinuationElement462() (interface{}, error) {
 	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement456() (interface{}, error) {
+func (p *parser) callonListContinuationElement462() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement456()
+	return p.cur.onListContinuationElement462()
 }
 
-func (c *current) onListContinuationElement462() (interface{}, error) {
+func (c *current) onListContinuationElement468() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement462() (interface{}, error) {
+func (p *parser) callonListContinuationElement468() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement462()
+	return p.cur.onListContinuationElement468()
 }
 
-func (c *current) onListContinuationElement465() (interface{}, error) {
+func (c *current) onListContinuationElement471() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement465() (interface{}, error) {
+func (p *parser) callonListContinuationElement471() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement465()
+	return p.cur.onListContinuationElement471()
 }
 
-func (c *current) onListContinuationElement453(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement459(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement453() (interface{}, error) {
+func (p *parser) callonListContinuationElement459() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement453(stack["delimiter"])
+	return p.cur.onListContinuationElement459(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement472(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement478(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement472() (bool, error) {
+func (p *parser) callonListContinuationElement478() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement472(stack["end"])
+	return p.cur.onListContinuationElement478(stack["end"])
 }
 
-func (c *current) onListContinuationElement378(start, content, end interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement384(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Example, content.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement378() (interface{}, error) {
+func (p *parser) callonListContinuationElement384() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement378(stack["start"], stack["content"], stack["end"])
+	return p.cur.onListContinuationElement384(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onListContinuationElement482() (interface{}, error) {
+func (c *current) onListContinuationElement488() (interface{}, error) {
 	// exclude ` to avoid matching fenced blocks with more than 3 "`"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement482() (interface{}, error) {
+func (p *parser) callonListContinuationElement488() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement482()
+	return p.cur.onListContinuationElement488()
 }
 
-func (c *current) onListContinuationElement486() (interface{}, error) {
+func (c *current) onListContinuationElement492() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement486() (interface{}, error) {
+func (p *parser) callonListContinuationElement492() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement486()
+	return p.cur.onListContinuationElement492()
 }
 
-func (c *current) onListContinuationElement489() (interface{}, error) {
+func (c *current) onListContinuationElement495() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement489() (interface{}, error) {
+func (p *parser) callonListContinuationElement495() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement489()
+	return p.cur.onListContinuationElement495()
 }
 
-func (c *current) onListContinuationElement478(language interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement484(language interface{}) (interface{}, error) {
 	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
 }
 
-func (p *parser) callonListContinuationElement478() (interface{}, error) {
+func (p *parser) callonListContinuationElement484() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement478(stack["language"])
+	return p.cur.onListContinuationElement484(stack["language"])
 }
 
-func (c *current) onListContinuationElement504() (interface{}, error) {
+func (c *current) onListContinuationElement510() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement504() (interface{}, error) {
+func (p *parser) callonListContinuationElement510() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement504()
+	return p.cur.onListContinuationElement510()
 }
 
-func (c *current) onListContinuationElement507() (interface{}, error) {
+func (c *current) onListContinuationElement513() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement507() (interface{}, error) {
+func (p *parser) callonListContinuationElement513() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement507()
+	return p.cur.onListContinuationElement513()
 }
 
-func (c *current) onListContinuationElement520() (interface{}, error) {
+func (c *current) onListContinuationElement526() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement520() (interface{}, error) {
+func (p *parser) callonListContinuationElement526() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement520()
+	return p.cur.onListContinuationElement526()
 }
 
-func (c *current) onListContinuationElement524() (interface{}, error) {
+func (c *current) onListContinuationElement530() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement524() (interface{}, error) {
+func (p *parser) callonListContinuationElement530() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement524()
+	return p.cur.onListContinuationElement530()
 }
 
-func (c *current) onListContinuationElement515(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement521(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement515() (interface{}, error) {
+func (p *parser) callonListContinuationElement521() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement515(stack["content"])
+	return p.cur.onListContinuationElement521(stack["content"])
 }
 
-func (c *current) onListContinuationElement498(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement504(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement498() (interface{}, error) {
+func (p *parser) callonListContinuationElement504() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement498(stack["line"])
+	return p.cur.onListContinuationElement504(stack["line"])
 }
 
-func (c *current) onListContinuationElement535() (interface{}, error) {
+func (c *current) onListContinuationElement541() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement535() (interface{}, error) {
+func (p *parser) callonListContinuationElement541() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement535()
+	return p.cur.onListContinuationElement541()
 }
 
-func (c *current) onListContinuationElement538() (interface{}, error) {
+func (c *current) onListContinuationElement544() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement538() (interface{}, error) {
+func (p *parser) callonListContinuationElement544() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement538()
+	return p.cur.onListContinuationElement544()
 }
 
-func (c *current) onListContinuationElement475(delimiter, content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement481(delimiter, content interface{}) (interface{}, error) {
 	// Markdown code with fences is a "listing/source" block in Asciidoc
 	b, err := types.NewDelimitedBlock(types.Listing, content.([]interface{}))
 	b.AddAttributes(delimiter.(*types.BlockDelimiter).Attributes)
@@ -64825,2547 +64993,2547 @@ func (c *current) onListContinuationElement475(delimiter, content interface{}) (
 
 }
 
-func (p *parser) callonListContinuationElement475() (interface{}, error) {
+func (p *parser) callonListContinuationElement481() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement475(stack["delimiter"], stack["content"])
+	return p.cur.onListContinuationElement481(stack["delimiter"], stack["content"])
 }
 
-func (c *current) onListContinuationElement551() (interface{}, error) {
+func (c *current) onListContinuationElement557() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement551() (interface{}, error) {
+func (p *parser) callonListContinuationElement557() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement551()
+	return p.cur.onListContinuationElement557()
 }
 
-func (c *current) onListContinuationElement557() (interface{}, error) {
+func (c *current) onListContinuationElement563() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement557() (interface{}, error) {
+func (p *parser) callonListContinuationElement563() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement557()
+	return p.cur.onListContinuationElement563()
 }
 
-func (c *current) onListContinuationElement560() (interface{}, error) {
+func (c *current) onListContinuationElement566() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement560() (interface{}, error) {
+func (p *parser) callonListContinuationElement566() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement560()
+	return p.cur.onListContinuationElement566()
 }
 
-func (c *current) onListContinuationElement548(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement554(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement548() (interface{}, error) {
+func (p *parser) callonListContinuationElement554() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement548(stack["delimiter"])
+	return p.cur.onListContinuationElement554(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement567(start interface{}) (bool, error) {
+func (c *current) onListContinuationElement573(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement567() (bool, error) {
+func (p *parser) callonListContinuationElement573() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement567(stack["start"])
+	return p.cur.onListContinuationElement573(stack["start"])
 }
 
-func (c *current) onListContinuationElement579() (interface{}, error) {
+func (c *current) onListContinuationElement585() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement579() (interface{}, error) {
+func (p *parser) callonListContinuationElement585() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement579()
+	return p.cur.onListContinuationElement585()
 }
 
-func (c *current) onListContinuationElement585() (interface{}, error) {
+func (c *current) onListContinuationElement591() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement585() (interface{}, error) {
+func (p *parser) callonListContinuationElement591() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement585()
+	return p.cur.onListContinuationElement591()
 }
 
-func (c *current) onListContinuationElement588() (interface{}, error) {
+func (c *current) onListContinuationElement594() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement588() (interface{}, error) {
+func (p *parser) callonListContinuationElement594() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement588()
+	return p.cur.onListContinuationElement594()
 }
 
-func (c *current) onListContinuationElement576(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement582(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement576() (interface{}, error) {
+func (p *parser) callonListContinuationElement582() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement576(stack["delimiter"])
+	return p.cur.onListContinuationElement582(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement595(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement601(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement595() (bool, error) {
+func (p *parser) callonListContinuationElement601() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement595(stack["end"])
+	return p.cur.onListContinuationElement601(stack["end"])
 }
 
-func (c *current) onListContinuationElement604() (interface{}, error) {
+func (c *current) onListContinuationElement610() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement604() (interface{}, error) {
+func (p *parser) callonListContinuationElement610() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement604()
+	return p.cur.onListContinuationElement610()
 }
 
-func (c *current) onListContinuationElement608() (interface{}, error) {
+func (c *current) onListContinuationElement614() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement608() (interface{}, error) {
+func (p *parser) callonListContinuationElement614() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement608()
+	return p.cur.onListContinuationElement614()
 }
 
-func (c *current) onListContinuationElement599(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement605(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement599() (interface{}, error) {
+func (p *parser) callonListContinuationElement605() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement599(stack["content"])
+	return p.cur.onListContinuationElement605(stack["content"])
 }
 
-func (c *current) onListContinuationElement570(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement576(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement570() (interface{}, error) {
+func (p *parser) callonListContinuationElement576() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement570(stack["line"])
+	return p.cur.onListContinuationElement576(stack["line"])
 }
 
-func (c *current) onListContinuationElement623() (interface{}, error) {
+func (c *current) onListContinuationElement629() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement623() (interface{}, error) {
+func (p *parser) callonListContinuationElement629() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement623()
+	return p.cur.onListContinuationElement629()
 }
 
-func (c *current) onListContinuationElement629() (interface{}, error) {
+func (c *current) onListContinuationElement635() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement629() (interface{}, error) {
+func (p *parser) callonListContinuationElement635() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement629()
+	return p.cur.onListContinuationElement635()
 }
 
-func (c *current) onListContinuationElement632() (interface{}, error) {
+func (c *current) onListContinuationElement638() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement632() (interface{}, error) {
+func (p *parser) callonListContinuationElement638() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement632()
+	return p.cur.onListContinuationElement638()
 }
 
-func (c *current) onListContinuationElement620(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement626(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement620() (interface{}, error) {
+func (p *parser) callonListContinuationElement626() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement620(stack["delimiter"])
+	return p.cur.onListContinuationElement626(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement639(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement645(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement639() (bool, error) {
+func (p *parser) callonListContinuationElement645() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement639(stack["end"])
+	return p.cur.onListContinuationElement645(stack["end"])
 }
 
-func (c *current) onListContinuationElement545(start, content, end interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement551(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Fenced, content.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement545() (interface{}, error) {
+func (p *parser) callonListContinuationElement551() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement545(stack["start"], stack["content"], stack["end"])
+	return p.cur.onListContinuationElement551(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onListContinuationElement648() (interface{}, error) {
+func (c *current) onListContinuationElement654() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement648() (interface{}, error) {
+func (p *parser) callonListContinuationElement654() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement648()
+	return p.cur.onListContinuationElement654()
 }
 
-func (c *current) onListContinuationElement654() (interface{}, error) {
+func (c *current) onListContinuationElement660() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement654() (interface{}, error) {
+func (p *parser) callonListContinuationElement660() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement654()
+	return p.cur.onListContinuationElement660()
 }
 
-func (c *current) onListContinuationElement657() (interface{}, error) {
+func (c *current) onListContinuationElement663() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement657() (interface{}, error) {
+func (p *parser) callonListContinuationElement663() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement657()
+	return p.cur.onListContinuationElement663()
 }
 
-func (c *current) onListContinuationElement645(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement651(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement645() (interface{}, error) {
+func (p *parser) callonListContinuationElement651() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement645(stack["delimiter"])
+	return p.cur.onListContinuationElement651(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement664(start interface{}) (bool, error) {
+func (c *current) onListContinuationElement670(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement664() (bool, error) {
+func (p *parser) callonListContinuationElement670() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement664(stack["start"])
+	return p.cur.onListContinuationElement670(stack["start"])
 }
 
-func (c *current) onListContinuationElement676() (interface{}, error) {
+func (c *current) onListContinuationElement682() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement676() (interface{}, error) {
+func (p *parser) callonListContinuationElement682() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement676()
+	return p.cur.onListContinuationElement682()
 }
 
-func (c *current) onListContinuationElement682() (interface{}, error) {
+func (c *current) onListContinuationElement688() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement682() (interface{}, error) {
+func (p *parser) callonListContinuationElement688() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement682()
+	return p.cur.onListContinuationElement688()
 }
 
-func (c *current) onListContinuationElement685() (interface{}, error) {
+func (c *current) onListContinuationElement691() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement685() (interface{}, error) {
+func (p *parser) callonListContinuationElement691() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement685()
+	return p.cur.onListContinuationElement691()
 }
 
-func (c *current) onListContinuationElement673(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement679(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement673() (interface{}, error) {
+func (p *parser) callonListContinuationElement679() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement673(stack["delimiter"])
+	return p.cur.onListContinuationElement679(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement692(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement698(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement692() (bool, error) {
+func (p *parser) callonListContinuationElement698() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement692(stack["end"])
+	return p.cur.onListContinuationElement698(stack["end"])
 }
 
-func (c *current) onListContinuationElement701() (interface{}, error) {
+func (c *current) onListContinuationElement707() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement701() (interface{}, error) {
+func (p *parser) callonListContinuationElement707() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement701()
+	return p.cur.onListContinuationElement707()
 }
 
-func (c *current) onListContinuationElement705() (interface{}, error) {
+func (c *current) onListContinuationElement711() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement705() (interface{}, error) {
+func (p *parser) callonListContinuationElement711() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement705()
+	return p.cur.onListContinuationElement711()
 }
 
-func (c *current) onListContinuationElement696(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement702(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement696() (interface{}, error) {
+func (p *parser) callonListContinuationElement702() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement696(stack["content"])
+	return p.cur.onListContinuationElement702(stack["content"])
 }
 
-func (c *current) onListContinuationElement667(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement673(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement667() (interface{}, error) {
+func (p *parser) callonListContinuationElement673() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement667(stack["line"])
+	return p.cur.onListContinuationElement673(stack["line"])
 }
 
-func (c *current) onListContinuationElement720() (interface{}, error) {
+func (c *current) onListContinuationElement726() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement720() (interface{}, error) {
+func (p *parser) callonListContinuationElement726() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement720()
+	return p.cur.onListContinuationElement726()
 }
 
-func (c *current) onListContinuationElement726() (interface{}, error) {
+func (c *current) onListContinuationElement732() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement726() (interface{}, error) {
+func (p *parser) callonListContinuationElement732() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement726()
+	return p.cur.onListContinuationElement732()
 }
 
-func (c *current) onListContinuationElement729() (interface{}, error) {
+func (c *current) onListContinuationElement735() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement729() (interface{}, error) {
+func (p *parser) callonListContinuationElement735() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement729()
+	return p.cur.onListContinuationElement735()
 }
 
-func (c *current) onListContinuationElement717(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement723(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement717() (interface{}, error) {
+func (p *parser) callonListContinuationElement723() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement717(stack["delimiter"])
+	return p.cur.onListContinuationElement723(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement736(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement742(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement736() (bool, error) {
+func (p *parser) callonListContinuationElement742() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement736(stack["end"])
+	return p.cur.onListContinuationElement742(stack["end"])
 }
 
-func (c *current) onListContinuationElement642(start, content, end interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement648(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Listing, content.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement642() (interface{}, error) {
+func (p *parser) callonListContinuationElement648() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement642(stack["start"], stack["content"], stack["end"])
+	return p.cur.onListContinuationElement648(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onListContinuationElement745() (interface{}, error) {
+func (c *current) onListContinuationElement751() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement745() (interface{}, error) {
+func (p *parser) callonListContinuationElement751() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement745()
+	return p.cur.onListContinuationElement751()
 }
 
-func (c *current) onListContinuationElement751() (interface{}, error) {
+func (c *current) onListContinuationElement757() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement751() (interface{}, error) {
+func (p *parser) callonListContinuationElement757() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement751()
+	return p.cur.onListContinuationElement757()
 }
 
-func (c *current) onListContinuationElement754() (interface{}, error) {
+func (c *current) onListContinuationElement760() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement754() (interface{}, error) {
+func (p *parser) callonListContinuationElement760() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement754()
+	return p.cur.onListContinuationElement760()
 }
 
-func (c *current) onListContinuationElement742(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement748(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement742() (interface{}, error) {
+func (p *parser) callonListContinuationElement748() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement742(stack["delimiter"])
+	return p.cur.onListContinuationElement748(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement761(start interface{}) (bool, error) {
+func (c *current) onListContinuationElement767(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement761() (bool, error) {
+func (p *parser) callonListContinuationElement767() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement761(stack["start"])
+	return p.cur.onListContinuationElement767(stack["start"])
 }
 
-func (c *current) onListContinuationElement773() (interface{}, error) {
+func (c *current) onListContinuationElement779() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement773() (interface{}, error) {
+func (p *parser) callonListContinuationElement779() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement773()
+	return p.cur.onListContinuationElement779()
 }
 
-func (c *current) onListContinuationElement779() (interface{}, error) {
+func (c *current) onListContinuationElement785() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement779() (interface{}, error) {
+func (p *parser) callonListContinuationElement785() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement779()
+	return p.cur.onListContinuationElement785()
 }
 
-func (c *current) onListContinuationElement782() (interface{}, error) {
+func (c *current) onListContinuationElement788() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement782() (interface{}, error) {
+func (p *parser) callonListContinuationElement788() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement782()
+	return p.cur.onListContinuationElement788()
 }
 
-func (c *current) onListContinuationElement770(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement776(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement770() (interface{}, error) {
+func (p *parser) callonListContinuationElement776() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement770(stack["delimiter"])
+	return p.cur.onListContinuationElement776(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement789(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement795(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement789() (bool, error) {
+func (p *parser) callonListContinuationElement795() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement789(stack["end"])
+	return p.cur.onListContinuationElement795(stack["end"])
 }
 
-func (c *current) onListContinuationElement798() (interface{}, error) {
+func (c *current) onListContinuationElement804() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement798() (interface{}, error) {
+func (p *parser) callonListContinuationElement804() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement798()
+	return p.cur.onListContinuationElement804()
 }
 
-func (c *current) onListContinuationElement802() (interface{}, error) {
+func (c *current) onListContinuationElement808() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement802() (interface{}, error) {
+func (p *parser) callonListContinuationElement808() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement802()
+	return p.cur.onListContinuationElement808()
 }
 
-func (c *current) onListContinuationElement793(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement799(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement793() (interface{}, error) {
+func (p *parser) callonListContinuationElement799() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement793(stack["content"])
+	return p.cur.onListContinuationElement799(stack["content"])
 }
 
-func (c *current) onListContinuationElement764(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement770(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement764() (interface{}, error) {
+func (p *parser) callonListContinuationElement770() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement764(stack["line"])
+	return p.cur.onListContinuationElement770(stack["line"])
 }
 
-func (c *current) onListContinuationElement817() (interface{}, error) {
+func (c *current) onListContinuationElement823() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement817() (interface{}, error) {
+func (p *parser) callonListContinuationElement823() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement817()
+	return p.cur.onListContinuationElement823()
 }
 
-func (c *current) onListContinuationElement823() (interface{}, error) {
+func (c *current) onListContinuationElement829() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement823() (interface{}, error) {
+func (p *parser) callonListContinuationElement829() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement823()
+	return p.cur.onListContinuationElement829()
 }
 
-func (c *current) onListContinuationElement826() (interface{}, error) {
+func (c *current) onListContinuationElement832() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement826() (interface{}, error) {
+func (p *parser) callonListContinuationElement832() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement826()
+	return p.cur.onListContinuationElement832()
 }
 
-func (c *current) onListContinuationElement814(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement820(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement814() (interface{}, error) {
+func (p *parser) callonListContinuationElement820() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement814(stack["delimiter"])
+	return p.cur.onListContinuationElement820(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement833(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement839(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement833() (bool, error) {
+func (p *parser) callonListContinuationElement839() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement833(stack["end"])
+	return p.cur.onListContinuationElement839(stack["end"])
 }
 
-func (c *current) onListContinuationElement739(start, content, end interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement745(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Literal, content.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement739() (interface{}, error) {
+func (p *parser) callonListContinuationElement745() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement739(stack["start"], stack["content"], stack["end"])
+	return p.cur.onListContinuationElement745(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onListContinuationElement847() (interface{}, error) {
+func (c *current) onListContinuationElement853() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement847() (interface{}, error) {
+func (p *parser) callonListContinuationElement853() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement847()
+	return p.cur.onListContinuationElement853()
 }
 
-func (c *current) onListContinuationElement850() (interface{}, error) {
+func (c *current) onListContinuationElement856() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement850() (interface{}, error) {
+func (p *parser) callonListContinuationElement856() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement850()
+	return p.cur.onListContinuationElement856()
 }
 
-func (c *current) onListContinuationElement842() (interface{}, error) {
+func (c *current) onListContinuationElement848() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement842() (interface{}, error) {
+func (p *parser) callonListContinuationElement848() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement842()
+	return p.cur.onListContinuationElement848()
 }
 
-func (c *current) onListContinuationElement859() (interface{}, error) {
+func (c *current) onListContinuationElement865() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement859() (interface{}, error) {
+func (p *parser) callonListContinuationElement865() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement859()
+	return p.cur.onListContinuationElement865()
 }
 
-func (c *current) onListContinuationElement863() (interface{}, error) {
+func (c *current) onListContinuationElement869() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement863() (interface{}, error) {
+func (p *parser) callonListContinuationElement869() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement863()
+	return p.cur.onListContinuationElement869()
 }
 
-func (c *current) onListContinuationElement839(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement845(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement839() (interface{}, error) {
+func (p *parser) callonListContinuationElement845() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement839(stack["content"])
+	return p.cur.onListContinuationElement845(stack["content"])
 }
 
-func (c *current) onListContinuationElement881() (interface{}, error) {
+func (c *current) onListContinuationElement887() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement881() (interface{}, error) {
+func (p *parser) callonListContinuationElement887() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement881()
+	return p.cur.onListContinuationElement887()
 }
 
-func (c *current) onListContinuationElement884() (interface{}, error) {
+func (c *current) onListContinuationElement890() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement884() (interface{}, error) {
+func (p *parser) callonListContinuationElement890() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement884()
+	return p.cur.onListContinuationElement890()
 }
 
-func (c *current) onListContinuationElement876() (interface{}, error) {
+func (c *current) onListContinuationElement882() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement876() (interface{}, error) {
+func (p *parser) callonListContinuationElement882() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement876()
+	return p.cur.onListContinuationElement882()
 }
 
-func (c *current) onListContinuationElement893() (interface{}, error) {
+func (c *current) onListContinuationElement899() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement893() (interface{}, error) {
+func (p *parser) callonListContinuationElement899() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement893()
+	return p.cur.onListContinuationElement899()
 }
 
-func (c *current) onListContinuationElement897() (interface{}, error) {
+func (c *current) onListContinuationElement903() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement897() (interface{}, error) {
+func (p *parser) callonListContinuationElement903() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement897()
+	return p.cur.onListContinuationElement903()
 }
 
-func (c *current) onListContinuationElement873(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement879(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement873() (interface{}, error) {
+func (p *parser) callonListContinuationElement879() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement873(stack["content"])
+	return p.cur.onListContinuationElement879(stack["content"])
 }
 
-func (c *current) onListContinuationElement907() (interface{}, error) {
+func (c *current) onListContinuationElement913() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement907() (interface{}, error) {
+func (p *parser) callonListContinuationElement913() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement907()
+	return p.cur.onListContinuationElement913()
 }
 
-func (c *current) onListContinuationElement910(content interface{}) (bool, error) {
+func (c *current) onListContinuationElement916(content interface{}) (bool, error) {
 	return len(strings.Trim(content.(string), " \t")) > 0, nil // is not blank
 
 }
 
-func (p *parser) callonListContinuationElement910() (bool, error) {
+func (p *parser) callonListContinuationElement916() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement910(stack["content"])
+	return p.cur.onListContinuationElement916(stack["content"])
 }
 
-func (c *current) onListContinuationElement912() (interface{}, error) {
+func (c *current) onListContinuationElement918() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement912() (interface{}, error) {
+func (p *parser) callonListContinuationElement918() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement912()
+	return p.cur.onListContinuationElement918()
 }
 
-func (c *current) onListContinuationElement904(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement910(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement904() (interface{}, error) {
+func (p *parser) callonListContinuationElement910() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement904(stack["content"])
+	return p.cur.onListContinuationElement910(stack["content"])
 }
 
-func (c *current) onListContinuationElement836(firstLine, otherLines interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement842(firstLine, otherLines interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.MarkdownQuote, append([]interface{}{firstLine}, otherLines.([]interface{})...))
 
 }
 
-func (p *parser) callonListContinuationElement836() (interface{}, error) {
+func (p *parser) callonListContinuationElement842() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement836(stack["firstLine"], stack["otherLines"])
+	return p.cur.onListContinuationElement842(stack["firstLine"], stack["otherLines"])
 }
 
-func (c *current) onListContinuationElement925() (interface{}, error) {
+func (c *current) onListContinuationElement931() (interface{}, error) {
 	// sequence of exactly "--"
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement925() (interface{}, error) {
+func (p *parser) callonListContinuationElement931() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement925()
+	return p.cur.onListContinuationElement931()
 }
 
-func (c *current) onListContinuationElement928() (interface{}, error) {
+func (c *current) onListContinuationElement934() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement928() (interface{}, error) {
+func (p *parser) callonListContinuationElement934() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement928()
+	return p.cur.onListContinuationElement934()
 }
 
-func (c *current) onListContinuationElement931() (interface{}, error) {
+func (c *current) onListContinuationElement937() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement931() (interface{}, error) {
+func (p *parser) callonListContinuationElement937() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement931()
+	return p.cur.onListContinuationElement937()
 }
 
-func (c *current) onListContinuationElement922(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement928(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Open, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement922() (interface{}, error) {
+func (p *parser) callonListContinuationElement928() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement922(stack["delimiter"])
+	return p.cur.onListContinuationElement928(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement947() (interface{}, error) {
+func (c *current) onListContinuationElement953() (interface{}, error) {
 	// sequence of exactly "--"
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement947() (interface{}, error) {
+func (p *parser) callonListContinuationElement953() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement947()
+	return p.cur.onListContinuationElement953()
 }
 
-func (c *current) onListContinuationElement950() (interface{}, error) {
+func (c *current) onListContinuationElement956() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement950() (interface{}, error) {
+func (p *parser) callonListContinuationElement956() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement950()
+	return p.cur.onListContinuationElement956()
 }
 
-func (c *current) onListContinuationElement953() (interface{}, error) {
+func (c *current) onListContinuationElement959() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement953() (interface{}, error) {
+func (p *parser) callonListContinuationElement959() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement953()
+	return p.cur.onListContinuationElement959()
 }
 
-func (c *current) onListContinuationElement944(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement950(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Open, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement944() (interface{}, error) {
+func (p *parser) callonListContinuationElement950() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement944(stack["delimiter"])
+	return p.cur.onListContinuationElement950(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement968() (interface{}, error) {
+func (c *current) onListContinuationElement974() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement968() (interface{}, error) {
+func (p *parser) callonListContinuationElement974() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement968()
+	return p.cur.onListContinuationElement974()
 }
 
-func (c *current) onListContinuationElement972() (interface{}, error) {
+func (c *current) onListContinuationElement978() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement972() (interface{}, error) {
+func (p *parser) callonListContinuationElement978() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement972()
+	return p.cur.onListContinuationElement978()
 }
 
-func (c *current) onListContinuationElement963(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement969(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement963() (interface{}, error) {
+func (p *parser) callonListContinuationElement969() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement963(stack["content"])
+	return p.cur.onListContinuationElement969(stack["content"])
 }
 
-func (c *current) onListContinuationElement940(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement946(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement940() (interface{}, error) {
+func (p *parser) callonListContinuationElement946() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement940(stack["line"])
+	return p.cur.onListContinuationElement946(stack["line"])
 }
 
-func (c *current) onListContinuationElement985() (interface{}, error) {
+func (c *current) onListContinuationElement991() (interface{}, error) {
 	// sequence of exactly "--"
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement985() (interface{}, error) {
+func (p *parser) callonListContinuationElement991() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement985()
+	return p.cur.onListContinuationElement991()
 }
 
-func (c *current) onListContinuationElement988() (interface{}, error) {
+func (c *current) onListContinuationElement994() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement988() (interface{}, error) {
+func (p *parser) callonListContinuationElement994() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement988()
+	return p.cur.onListContinuationElement994()
 }
 
-func (c *current) onListContinuationElement991() (interface{}, error) {
+func (c *current) onListContinuationElement997() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement991() (interface{}, error) {
+func (p *parser) callonListContinuationElement997() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement991()
+	return p.cur.onListContinuationElement997()
 }
 
-func (c *current) onListContinuationElement982(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement988(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Open, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement982() (interface{}, error) {
+func (p *parser) callonListContinuationElement988() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement982(stack["delimiter"])
+	return p.cur.onListContinuationElement988(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement919(start, content, end interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement925(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Open, content.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement919() (interface{}, error) {
+func (p *parser) callonListContinuationElement925() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement919(stack["start"], stack["content"], stack["end"])
+	return p.cur.onListContinuationElement925(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onListContinuationElement1006() (interface{}, error) {
+func (c *current) onListContinuationElement1012() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1006() (interface{}, error) {
+func (p *parser) callonListContinuationElement1012() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1006()
+	return p.cur.onListContinuationElement1012()
 }
 
-func (c *current) onListContinuationElement1012() (interface{}, error) {
+func (c *current) onListContinuationElement1018() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1012() (interface{}, error) {
+func (p *parser) callonListContinuationElement1018() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1012()
+	return p.cur.onListContinuationElement1018()
 }
 
-func (c *current) onListContinuationElement1015() (interface{}, error) {
+func (c *current) onListContinuationElement1021() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1015() (interface{}, error) {
+func (p *parser) callonListContinuationElement1021() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1015()
+	return p.cur.onListContinuationElement1021()
 }
 
-func (c *current) onListContinuationElement1003(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1009(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1003() (interface{}, error) {
+func (p *parser) callonListContinuationElement1009() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1003(stack["delimiter"])
+	return p.cur.onListContinuationElement1009(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1022(start interface{}) (bool, error) {
+func (c *current) onListContinuationElement1028(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1022() (bool, error) {
+func (p *parser) callonListContinuationElement1028() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1022(stack["start"])
+	return p.cur.onListContinuationElement1028(stack["start"])
 }
 
-func (c *current) onListContinuationElement1034() (interface{}, error) {
+func (c *current) onListContinuationElement1040() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1034() (interface{}, error) {
+func (p *parser) callonListContinuationElement1040() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1034()
+	return p.cur.onListContinuationElement1040()
 }
 
-func (c *current) onListContinuationElement1040() (interface{}, error) {
+func (c *current) onListContinuationElement1046() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1040() (interface{}, error) {
+func (p *parser) callonListContinuationElement1046() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1040()
+	return p.cur.onListContinuationElement1046()
 }
 
-func (c *current) onListContinuationElement1043() (interface{}, error) {
+func (c *current) onListContinuationElement1049() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1043() (interface{}, error) {
+func (p *parser) callonListContinuationElement1049() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1043()
+	return p.cur.onListContinuationElement1049()
 }
 
-func (c *current) onListContinuationElement1031(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1037(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1031() (interface{}, error) {
+func (p *parser) callonListContinuationElement1037() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1031(stack["delimiter"])
+	return p.cur.onListContinuationElement1037(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1050(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement1056(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1050() (bool, error) {
+func (p *parser) callonListContinuationElement1056() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1050(stack["end"])
+	return p.cur.onListContinuationElement1056(stack["end"])
 }
 
-func (c *current) onListContinuationElement1059() (interface{}, error) {
+func (c *current) onListContinuationElement1065() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1059() (interface{}, error) {
+func (p *parser) callonListContinuationElement1065() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1059()
+	return p.cur.onListContinuationElement1065()
 }
 
-func (c *current) onListContinuationElement1063() (interface{}, error) {
+func (c *current) onListContinuationElement1069() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1063() (interface{}, error) {
+func (p *parser) callonListContinuationElement1069() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1063()
+	return p.cur.onListContinuationElement1069()
 }
 
-func (c *current) onListContinuationElement1054(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1060(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1054() (interface{}, error) {
+func (p *parser) callonListContinuationElement1060() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1054(stack["content"])
+	return p.cur.onListContinuationElement1060(stack["content"])
 }
 
-func (c *current) onListContinuationElement1025(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1031(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement1025() (interface{}, error) {
+func (p *parser) callonListContinuationElement1031() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1025(stack["line"])
+	return p.cur.onListContinuationElement1031(stack["line"])
 }
 
-func (c *current) onListContinuationElement1078() (interface{}, error) {
+func (c *current) onListContinuationElement1084() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1078() (interface{}, error) {
+func (p *parser) callonListContinuationElement1084() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1078()
+	return p.cur.onListContinuationElement1084()
 }
 
-func (c *current) onListContinuationElement1084() (interface{}, error) {
+func (c *current) onListContinuationElement1090() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1084() (interface{}, error) {
+func (p *parser) callonListContinuationElement1090() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1084()
+	return p.cur.onListContinuationElement1090()
 }
 
-func (c *current) onListContinuationElement1087() (interface{}, error) {
+func (c *current) onListContinuationElement1093() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1087() (interface{}, error) {
+func (p *parser) callonListContinuationElement1093() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1087()
+	return p.cur.onListContinuationElement1093()
 }
 
-func (c *current) onListContinuationElement1075(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1081(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1075() (interface{}, error) {
+func (p *parser) callonListContinuationElement1081() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1075(stack["delimiter"])
+	return p.cur.onListContinuationElement1081(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1094(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement1100(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1094() (bool, error) {
+func (p *parser) callonListContinuationElement1100() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1094(stack["end"])
+	return p.cur.onListContinuationElement1100(stack["end"])
 }
 
-func (c *current) onListContinuationElement1000(start, content, end interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1006(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Passthrough, content.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement1000() (interface{}, error) {
+func (p *parser) callonListContinuationElement1006() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1000(stack["start"], stack["content"], stack["end"])
+	return p.cur.onListContinuationElement1006(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onListContinuationElement1103() (interface{}, error) {
+func (c *current) onListContinuationElement1109() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1103() (interface{}, error) {
+func (p *parser) callonListContinuationElement1109() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1103()
+	return p.cur.onListContinuationElement1109()
 }
 
-func (c *current) onListContinuationElement1109() (interface{}, error) {
+func (c *current) onListContinuationElement1115() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1109() (interface{}, error) {
+func (p *parser) callonListContinuationElement1115() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1109()
+	return p.cur.onListContinuationElement1115()
 }
 
-func (c *current) onListContinuationElement1112() (interface{}, error) {
+func (c *current) onListContinuationElement1118() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1112() (interface{}, error) {
+func (p *parser) callonListContinuationElement1118() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1112()
+	return p.cur.onListContinuationElement1118()
 }
 
-func (c *current) onListContinuationElement1100(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1106(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1100() (interface{}, error) {
+func (p *parser) callonListContinuationElement1106() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1100(stack["delimiter"])
+	return p.cur.onListContinuationElement1106(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1119(start interface{}) (bool, error) {
+func (c *current) onListContinuationElement1125(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1119() (bool, error) {
+func (p *parser) callonListContinuationElement1125() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1119(stack["start"])
+	return p.cur.onListContinuationElement1125(stack["start"])
 }
 
-func (c *current) onListContinuationElement1131() (interface{}, error) {
+func (c *current) onListContinuationElement1137() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1131() (interface{}, error) {
+func (p *parser) callonListContinuationElement1137() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1131()
+	return p.cur.onListContinuationElement1137()
 }
 
-func (c *current) onListContinuationElement1137() (interface{}, error) {
+func (c *current) onListContinuationElement1143() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1137() (interface{}, error) {
+func (p *parser) callonListContinuationElement1143() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1137()
+	return p.cur.onListContinuationElement1143()
 }
 
-func (c *current) onListContinuationElement1140() (interface{}, error) {
+func (c *current) onListContinuationElement1146() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1140() (interface{}, error) {
+func (p *parser) callonListContinuationElement1146() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1140()
+	return p.cur.onListContinuationElement1146()
 }
 
-func (c *current) onListContinuationElement1128(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1134(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1128() (interface{}, error) {
+func (p *parser) callonListContinuationElement1134() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1128(stack["delimiter"])
+	return p.cur.onListContinuationElement1134(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1147(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement1153(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1147() (bool, error) {
+func (p *parser) callonListContinuationElement1153() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1147(stack["end"])
+	return p.cur.onListContinuationElement1153(stack["end"])
 }
 
-func (c *current) onListContinuationElement1156() (interface{}, error) {
+func (c *current) onListContinuationElement1162() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1156() (interface{}, error) {
+func (p *parser) callonListContinuationElement1162() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1156()
+	return p.cur.onListContinuationElement1162()
 }
 
-func (c *current) onListContinuationElement1160() (interface{}, error) {
+func (c *current) onListContinuationElement1166() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1160() (interface{}, error) {
+func (p *parser) callonListContinuationElement1166() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1160()
+	return p.cur.onListContinuationElement1166()
 }
 
-func (c *current) onListContinuationElement1151(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1157(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1151() (interface{}, error) {
+func (p *parser) callonListContinuationElement1157() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1151(stack["content"])
+	return p.cur.onListContinuationElement1157(stack["content"])
 }
 
-func (c *current) onListContinuationElement1122(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1128(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement1122() (interface{}, error) {
+func (p *parser) callonListContinuationElement1128() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1122(stack["line"])
+	return p.cur.onListContinuationElement1128(stack["line"])
 }
 
-func (c *current) onListContinuationElement1175() (interface{}, error) {
+func (c *current) onListContinuationElement1181() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1175() (interface{}, error) {
+func (p *parser) callonListContinuationElement1181() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1175()
+	return p.cur.onListContinuationElement1181()
 }
 
-func (c *current) onListContinuationElement1181() (interface{}, error) {
+func (c *current) onListContinuationElement1187() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1181() (interface{}, error) {
+func (p *parser) callonListContinuationElement1187() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1181()
+	return p.cur.onListContinuationElement1187()
 }
 
-func (c *current) onListContinuationElement1184() (interface{}, error) {
+func (c *current) onListContinuationElement1190() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1184() (interface{}, error) {
+func (p *parser) callonListContinuationElement1190() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1184()
+	return p.cur.onListContinuationElement1190()
 }
 
-func (c *current) onListContinuationElement1172(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1178(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1172() (interface{}, error) {
+func (p *parser) callonListContinuationElement1178() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1172(stack["delimiter"])
+	return p.cur.onListContinuationElement1178(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1191(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement1197(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1191() (bool, error) {
+func (p *parser) callonListContinuationElement1197() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1191(stack["end"])
+	return p.cur.onListContinuationElement1197(stack["end"])
 }
 
-func (c *current) onListContinuationElement1097(start, content, end interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1103(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Quote, content.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement1097() (interface{}, error) {
+func (p *parser) callonListContinuationElement1103() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1097(stack["start"], stack["content"], stack["end"])
+	return p.cur.onListContinuationElement1103(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onListContinuationElement1200() (interface{}, error) {
+func (c *current) onListContinuationElement1206() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1200() (interface{}, error) {
+func (p *parser) callonListContinuationElement1206() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1200()
+	return p.cur.onListContinuationElement1206()
 }
 
-func (c *current) onListContinuationElement1206() (interface{}, error) {
+func (c *current) onListContinuationElement1212() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1206() (interface{}, error) {
+func (p *parser) callonListContinuationElement1212() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1206()
+	return p.cur.onListContinuationElement1212()
 }
 
-func (c *current) onListContinuationElement1209() (interface{}, error) {
+func (c *current) onListContinuationElement1215() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1209() (interface{}, error) {
+func (p *parser) callonListContinuationElement1215() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1209()
+	return p.cur.onListContinuationElement1215()
 }
 
-func (c *current) onListContinuationElement1197(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1203(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1197() (interface{}, error) {
+func (p *parser) callonListContinuationElement1203() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1197(stack["delimiter"])
+	return p.cur.onListContinuationElement1203(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1216(start interface{}) (bool, error) {
+func (c *current) onListContinuationElement1222(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1216() (bool, error) {
+func (p *parser) callonListContinuationElement1222() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1216(stack["start"])
+	return p.cur.onListContinuationElement1222(stack["start"])
 }
 
-func (c *current) onListContinuationElement1228() (interface{}, error) {
+func (c *current) onListContinuationElement1234() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1228() (interface{}, error) {
+func (p *parser) callonListContinuationElement1234() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1228()
+	return p.cur.onListContinuationElement1234()
 }
 
-func (c *current) onListContinuationElement1234() (interface{}, error) {
+func (c *current) onListContinuationElement1240() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1234() (interface{}, error) {
+func (p *parser) callonListContinuationElement1240() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1234()
+	return p.cur.onListContinuationElement1240()
 }
 
-func (c *current) onListContinuationElement1237() (interface{}, error) {
+func (c *current) onListContinuationElement1243() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1237() (interface{}, error) {
+func (p *parser) callonListContinuationElement1243() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1237()
+	return p.cur.onListContinuationElement1243()
 }
 
-func (c *current) onListContinuationElement1225(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1231(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1225() (interface{}, error) {
+func (p *parser) callonListContinuationElement1231() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1225(stack["delimiter"])
+	return p.cur.onListContinuationElement1231(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1244(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement1250(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1244() (bool, error) {
+func (p *parser) callonListContinuationElement1250() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1244(stack["end"])
+	return p.cur.onListContinuationElement1250(stack["end"])
 }
 
-func (c *current) onListContinuationElement1253() (interface{}, error) {
+func (c *current) onListContinuationElement1259() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1253() (interface{}, error) {
+func (p *parser) callonListContinuationElement1259() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1253()
+	return p.cur.onListContinuationElement1259()
 }
 
-func (c *current) onListContinuationElement1257() (interface{}, error) {
+func (c *current) onListContinuationElement1263() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1257() (interface{}, error) {
+func (p *parser) callonListContinuationElement1263() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1257()
+	return p.cur.onListContinuationElement1263()
 }
 
-func (c *current) onListContinuationElement1248(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1254(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1248() (interface{}, error) {
+func (p *parser) callonListContinuationElement1254() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1248(stack["content"])
+	return p.cur.onListContinuationElement1254(stack["content"])
 }
 
-func (c *current) onListContinuationElement1219(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1225(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement1219() (interface{}, error) {
+func (p *parser) callonListContinuationElement1225() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1219(stack["line"])
+	return p.cur.onListContinuationElement1225(stack["line"])
 }
 
-func (c *current) onListContinuationElement1272() (interface{}, error) {
+func (c *current) onListContinuationElement1278() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1272() (interface{}, error) {
+func (p *parser) callonListContinuationElement1278() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1272()
+	return p.cur.onListContinuationElement1278()
 }
 
-func (c *current) onListContinuationElement1278() (interface{}, error) {
+func (c *current) onListContinuationElement1284() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1278() (interface{}, error) {
+func (p *parser) callonListContinuationElement1284() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1278()
+	return p.cur.onListContinuationElement1284()
 }
 
-func (c *current) onListContinuationElement1281() (interface{}, error) {
+func (c *current) onListContinuationElement1287() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1281() (interface{}, error) {
+func (p *parser) callonListContinuationElement1287() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1281()
+	return p.cur.onListContinuationElement1287()
 }
 
-func (c *current) onListContinuationElement1269(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1275(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1269() (interface{}, error) {
+func (p *parser) callonListContinuationElement1275() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1269(stack["delimiter"])
+	return p.cur.onListContinuationElement1275(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1288(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement1294(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1288() (bool, error) {
+func (p *parser) callonListContinuationElement1294() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1288(stack["end"])
+	return p.cur.onListContinuationElement1294(stack["end"])
 }
 
-func (c *current) onListContinuationElement1194(start, content, end interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1200(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Sidebar, content.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement1194() (interface{}, error) {
+func (p *parser) callonListContinuationElement1200() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1194(stack["start"], stack["content"], stack["end"])
+	return p.cur.onListContinuationElement1200(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onListContinuationElement1302() (interface{}, error) {
+func (c *current) onListContinuationElement1308() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1302() (interface{}, error) {
+func (p *parser) callonListContinuationElement1308() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1302()
+	return p.cur.onListContinuationElement1308()
 }
 
-func (c *current) onListContinuationElement1305() (interface{}, error) {
+func (c *current) onListContinuationElement1311() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1305() (interface{}, error) {
+func (p *parser) callonListContinuationElement1311() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1305()
+	return p.cur.onListContinuationElement1311()
 }
 
-func (c *current) onListContinuationElement1313() (interface{}, error) {
+func (c *current) onListContinuationElement1319() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1313() (interface{}, error) {
+func (p *parser) callonListContinuationElement1319() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1313()
+	return p.cur.onListContinuationElement1319()
 }
 
-func (c *current) onListContinuationElement1316() (interface{}, error) {
+func (c *current) onListContinuationElement1322() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1316() (interface{}, error) {
+func (p *parser) callonListContinuationElement1322() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1316()
+	return p.cur.onListContinuationElement1322()
 }
 
-func (c *current) onListContinuationElement1291() (interface{}, error) {
+func (c *current) onListContinuationElement1297() (interface{}, error) {
 
 	return types.NewThematicBreak()
 
 }
 
-func (p *parser) callonListContinuationElement1291() (interface{}, error) {
+func (p *parser) callonListContinuationElement1297() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1291()
+	return p.cur.onListContinuationElement1297()
 }
 
-func (c *current) onListContinuationElement1328() (interface{}, error) {
+func (c *current) onListContinuationElement1334() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1328() (interface{}, error) {
+func (p *parser) callonListContinuationElement1334() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1328()
+	return p.cur.onListContinuationElement1334()
 }
 
-func (c *current) onListContinuationElement1331() (interface{}, error) {
+func (c *current) onListContinuationElement1337() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1331() (interface{}, error) {
+func (p *parser) callonListContinuationElement1337() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1331()
+	return p.cur.onListContinuationElement1337()
 }
 
-func (c *current) onListContinuationElement1346() (interface{}, error) {
+func (c *current) onListContinuationElement1352() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1346() (interface{}, error) {
+func (p *parser) callonListContinuationElement1352() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1346()
+	return p.cur.onListContinuationElement1352()
 }
 
-func (c *current) onListContinuationElement1349() (interface{}, error) {
+func (c *current) onListContinuationElement1355() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1349() (interface{}, error) {
+func (p *parser) callonListContinuationElement1355() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1349()
+	return p.cur.onListContinuationElement1355()
 }
 
-func (c *current) onListContinuationElement1341() (interface{}, error) {
+func (c *current) onListContinuationElement1347() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1341() (interface{}, error) {
+func (p *parser) callonListContinuationElement1347() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1341()
+	return p.cur.onListContinuationElement1347()
 }
 
-func (c *current) onListContinuationElement1363() (interface{}, error) {
+func (c *current) onListContinuationElement1369() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1363() (interface{}, error) {
+func (p *parser) callonListContinuationElement1369() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1363()
+	return p.cur.onListContinuationElement1369()
 }
 
-func (c *current) onListContinuationElement1366() (interface{}, error) {
+func (c *current) onListContinuationElement1372() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1366() (interface{}, error) {
+func (p *parser) callonListContinuationElement1372() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1366()
+	return p.cur.onListContinuationElement1372()
 }
 
-func (c *current) onListContinuationElement1388() (interface{}, error) {
+func (c *current) onListContinuationElement1394() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1388() (interface{}, error) {
+func (p *parser) callonListContinuationElement1394() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1388()
+	return p.cur.onListContinuationElement1394()
 }
 
-func (c *current) onListContinuationElement1393() (interface{}, error) {
+func (c *current) onListContinuationElement1399() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1393() (interface{}, error) {
+func (p *parser) callonListContinuationElement1399() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1393()
+	return p.cur.onListContinuationElement1399()
 }
 
-func (c *current) onListContinuationElement1391(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1397(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1391() (interface{}, error) {
+func (p *parser) callonListContinuationElement1397() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1391(stack["content"])
+	return p.cur.onListContinuationElement1397(stack["content"])
 }
 
-func (c *current) onListContinuationElement1384(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1390(content interface{}) (interface{}, error) {
 	return types.NewInlineTableCell(content.(*types.RawLine))
 
 }
 
-func (p *parser) callonListContinuationElement1384() (interface{}, error) {
+func (p *parser) callonListContinuationElement1390() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1384(stack["content"])
+	return p.cur.onListContinuationElement1390(stack["content"])
 }
 
-func (c *current) onListContinuationElement1397() (interface{}, error) {
+func (c *current) onListContinuationElement1403() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1397() (interface{}, error) {
+func (p *parser) callonListContinuationElement1403() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1397()
+	return p.cur.onListContinuationElement1403()
 }
 
-func (c *current) onListContinuationElement1380(cells interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1386(cells interface{}) (interface{}, error) {
 
 	return cells, nil
 }
 
-func (p *parser) callonListContinuationElement1380() (interface{}, error) {
+func (p *parser) callonListContinuationElement1386() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1380(stack["cells"])
+	return p.cur.onListContinuationElement1386(stack["cells"])
 }
 
-func (c *current) onListContinuationElement1414() (interface{}, error) {
+func (c *current) onListContinuationElement1420() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1414() (interface{}, error) {
+func (p *parser) callonListContinuationElement1420() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1414()
+	return p.cur.onListContinuationElement1420()
 }
 
-func (c *current) onListContinuationElement1417() (interface{}, error) {
+func (c *current) onListContinuationElement1423() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1417() (interface{}, error) {
+func (p *parser) callonListContinuationElement1423() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1417()
+	return p.cur.onListContinuationElement1423()
 }
 
-func (c *current) onListContinuationElement1432() (interface{}, error) {
+func (c *current) onListContinuationElement1438() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1432() (interface{}, error) {
+func (p *parser) callonListContinuationElement1438() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1432()
+	return p.cur.onListContinuationElement1438()
 }
 
-func (c *current) onListContinuationElement1435() (interface{}, error) {
+func (c *current) onListContinuationElement1441() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1435() (interface{}, error) {
+func (p *parser) callonListContinuationElement1441() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1435()
+	return p.cur.onListContinuationElement1441()
 }
 
-func (c *current) onListContinuationElement1427() (interface{}, error) {
+func (c *current) onListContinuationElement1433() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1427() (interface{}, error) {
+func (p *parser) callonListContinuationElement1433() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1427()
+	return p.cur.onListContinuationElement1433()
 }
 
-func (c *current) onListContinuationElement1444() (interface{}, error) {
+func (c *current) onListContinuationElement1450() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1444() (interface{}, error) {
+func (p *parser) callonListContinuationElement1450() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1444()
+	return p.cur.onListContinuationElement1450()
 }
 
-func (c *current) onListContinuationElement1449() (interface{}, error) {
+func (c *current) onListContinuationElement1455() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1449() (interface{}, error) {
+func (p *parser) callonListContinuationElement1455() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1449()
+	return p.cur.onListContinuationElement1455()
 }
 
-func (c *current) onListContinuationElement1452() (interface{}, error) {
+func (c *current) onListContinuationElement1458() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1452() (interface{}, error) {
+func (p *parser) callonListContinuationElement1458() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1452()
+	return p.cur.onListContinuationElement1458()
 }
 
-func (c *current) onListContinuationElement1466() (interface{}, error) {
+func (c *current) onListContinuationElement1472() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1466() (interface{}, error) {
+func (p *parser) callonListContinuationElement1472() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1466()
+	return p.cur.onListContinuationElement1472()
 }
 
-func (c *current) onListContinuationElement1469() (interface{}, error) {
+func (c *current) onListContinuationElement1475() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1469() (interface{}, error) {
+func (p *parser) callonListContinuationElement1475() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1469()
+	return p.cur.onListContinuationElement1475()
 }
 
-func (c *current) onListContinuationElement1484() (interface{}, error) {
+func (c *current) onListContinuationElement1490() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1484() (interface{}, error) {
+func (p *parser) callonListContinuationElement1490() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1484()
+	return p.cur.onListContinuationElement1490()
 }
 
-func (c *current) onListContinuationElement1487() (interface{}, error) {
+func (c *current) onListContinuationElement1493() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1487() (interface{}, error) {
+func (p *parser) callonListContinuationElement1493() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1487()
+	return p.cur.onListContinuationElement1493()
 }
 
-func (c *current) onListContinuationElement1479() (interface{}, error) {
+func (c *current) onListContinuationElement1485() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1479() (interface{}, error) {
+func (p *parser) callonListContinuationElement1485() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1479()
+	return p.cur.onListContinuationElement1485()
 }
 
-func (c *current) onListContinuationElement1498() (interface{}, error) {
+func (c *current) onListContinuationElement1504() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1498() (interface{}, error) {
+func (p *parser) callonListContinuationElement1504() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1498()
+	return p.cur.onListContinuationElement1504()
 }
 
-func (c *current) onListContinuationElement1503() (interface{}, error) {
+func (c *current) onListContinuationElement1509() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1503() (interface{}, error) {
+func (p *parser) callonListContinuationElement1509() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1503()
+	return p.cur.onListContinuationElement1509()
 }
 
-func (c *current) onListContinuationElement1508() (interface{}, error) {
+func (c *current) onListContinuationElement1514() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1508() (interface{}, error) {
+func (p *parser) callonListContinuationElement1514() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1508()
+	return p.cur.onListContinuationElement1514()
 }
 
-func (c *current) onListContinuationElement1459(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1465(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1459() (interface{}, error) {
+func (p *parser) callonListContinuationElement1465() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1459(stack["content"])
+	return p.cur.onListContinuationElement1465(stack["content"])
 }
 
-func (c *current) onListContinuationElement1407(format, content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1413(format, content interface{}) (interface{}, error) {
 	return types.NewMultilineTableCell(content.([]interface{}), format)
 
 }
 
-func (p *parser) callonListContinuationElement1407() (interface{}, error) {
+func (p *parser) callonListContinuationElement1413() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1407(stack["format"], stack["content"])
+	return p.cur.onListContinuationElement1413(stack["format"], stack["content"])
 }
 
-func (c *current) onListContinuationElement1404(cells interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1410(cells interface{}) (interface{}, error) {
 	return cells, nil
 }
 
-func (p *parser) callonListContinuationElement1404() (interface{}, error) {
+func (p *parser) callonListContinuationElement1410() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1404(stack["cells"])
+	return p.cur.onListContinuationElement1410(stack["cells"])
 }
 
-func (c *current) onListContinuationElement1377(cells interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1383(cells interface{}) (interface{}, error) {
 	return types.NewTableRow(cells.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement1377() (interface{}, error) {
+func (p *parser) callonListContinuationElement1383() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1377(stack["cells"])
+	return p.cur.onListContinuationElement1383(stack["cells"])
 }
 
-func (c *current) onListContinuationElement1520() (interface{}, error) {
+func (c *current) onListContinuationElement1526() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1520() (interface{}, error) {
+func (p *parser) callonListContinuationElement1526() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1520()
+	return p.cur.onListContinuationElement1526()
 }
 
-func (c *current) onListContinuationElement1523() (interface{}, error) {
+func (c *current) onListContinuationElement1529() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1523() (interface{}, error) {
+func (p *parser) callonListContinuationElement1529() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1523()
+	return p.cur.onListContinuationElement1529()
 }
 
-func (c *current) onListContinuationElement1515() (interface{}, error) {
+func (c *current) onListContinuationElement1521() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1515() (interface{}, error) {
+func (p *parser) callonListContinuationElement1521() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1515()
+	return p.cur.onListContinuationElement1521()
 }
 
-func (c *current) onListContinuationElement1356(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1362(content interface{}) (interface{}, error) {
 	return content, nil
 
 }
 
-func (p *parser) callonListContinuationElement1356() (interface{}, error) {
+func (p *parser) callonListContinuationElement1362() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1356(stack["content"])
+	return p.cur.onListContinuationElement1362(stack["content"])
 }
 
-func (c *current) onListContinuationElement1534() (interface{}, error) {
+func (c *current) onListContinuationElement1540() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1534() (interface{}, error) {
+func (p *parser) callonListContinuationElement1540() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1534()
+	return p.cur.onListContinuationElement1540()
 }
 
-func (c *current) onListContinuationElement1537() (interface{}, error) {
+func (c *current) onListContinuationElement1543() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1537() (interface{}, error) {
+func (p *parser) callonListContinuationElement1543() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1537()
+	return p.cur.onListContinuationElement1543()
 }
 
-func (c *current) onListContinuationElement1324(lines interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1330(lines interface{}) (interface{}, error) {
 	return types.NewTable(lines.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement1324() (interface{}, error) {
+func (p *parser) callonListContinuationElement1330() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1324(stack["lines"])
+	return p.cur.onListContinuationElement1330(stack["lines"])
 }
 
-func (c *current) onListContinuationElement1552() (interface{}, error) {
+func (c *current) onListContinuationElement1558() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1552() (interface{}, error) {
+func (p *parser) callonListContinuationElement1558() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1552()
+	return p.cur.onListContinuationElement1558()
 }
 
-func (c *current) onListContinuationElement1556() (interface{}, error) {
+func (c *current) onListContinuationElement1562() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1556() (interface{}, error) {
+func (p *parser) callonListContinuationElement1562() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1556()
+	return p.cur.onListContinuationElement1562()
 }
 
-func (c *current) onListContinuationElement1546(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1552(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1546() (interface{}, error) {
+func (p *parser) callonListContinuationElement1552() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1546(stack["content"])
+	return p.cur.onListContinuationElement1552(stack["content"])
 }
 
-func (c *current) onListContinuationElement1569() (bool, error) {
+func (c *current) onListContinuationElement1575() (bool, error) {
 	return !c.isWithinLiteralParagraph(), nil
 
 }
 
-func (p *parser) callonListContinuationElement1569() (bool, error) {
+func (p *parser) callonListContinuationElement1575() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1569()
+	return p.cur.onListContinuationElement1575()
 }
 
-func (c *current) onListContinuationElement1572() (interface{}, error) {
+func (c *current) onListContinuationElement1578() (interface{}, error) {
 	return types.Tip, nil
 
 }
 
-func (p *parser) callonListContinuationElement1572() (interface{}, error) {
+func (p *parser) callonListContinuationElement1578() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1572()
+	return p.cur.onListContinuationElement1578()
 }
 
-func (c *current) onListContinuationElement1574() (interface{}, error) {
+func (c *current) onListContinuationElement1580() (interface{}, error) {
 	return types.Note, nil
 
 }
 
-func (p *parser) callonListContinuationElement1574() (interface{}, error) {
+func (p *parser) callonListContinuationElement1580() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1574()
+	return p.cur.onListContinuationElement1580()
 }
 
-func (c *current) onListContinuationElement1576() (interface{}, error) {
+func (c *current) onListContinuationElement1582() (interface{}, error) {
 	return types.Important, nil
 
 }
 
-func (p *parser) callonListContinuationElement1576() (interface{}, error) {
+func (p *parser) callonListContinuationElement1582() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1576()
+	return p.cur.onListContinuationElement1582()
 }
 
-func (c *current) onListContinuationElement1578() (interface{}, error) {
+func (c *current) onListContinuationElement1584() (interface{}, error) {
 	return types.Warning, nil
 
 }
 
-func (p *parser) callonListContinuationElement1578() (interface{}, error) {
+func (p *parser) callonListContinuationElement1584() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1578()
+	return p.cur.onListContinuationElement1584()
 }
 
-func (c *current) onListContinuationElement1580() (interface{}, error) {
+func (c *current) onListContinuationElement1586() (interface{}, error) {
 	return types.Caution, nil
 
 }
 
-func (p *parser) callonListContinuationElement1580() (interface{}, error) {
+func (p *parser) callonListContinuationElement1586() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1580()
+	return p.cur.onListContinuationElement1586()
 }
 
-func (c *current) onListContinuationElement1584() (interface{}, error) {
+func (c *current) onListContinuationElement1590() (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1584() (interface{}, error) {
+func (p *parser) callonListContinuationElement1590() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1584()
+	return p.cur.onListContinuationElement1590()
 }
 
-func (c *current) onListContinuationElement1582() (interface{}, error) {
+func (c *current) onListContinuationElement1588() (interface{}, error) {
 	return types.LiteralParagraph, nil
 
 }
 
-func (p *parser) callonListContinuationElement1582() (interface{}, error) {
+func (p *parser) callonListContinuationElement1588() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1582()
+	return p.cur.onListContinuationElement1588()
 }
 
-func (c *current) onListContinuationElement1590() (interface{}, error) {
+func (c *current) onListContinuationElement1596() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1590() (interface{}, error) {
+func (p *parser) callonListContinuationElement1596() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1590()
+	return p.cur.onListContinuationElement1596()
 }
 
-func (c *current) onListContinuationElement1593() (interface{}, error) {
+func (c *current) onListContinuationElement1599() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1593() (interface{}, error) {
+func (p *parser) callonListContinuationElement1599() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1593()
+	return p.cur.onListContinuationElement1599()
 }
 
-func (c *current) onListContinuationElement1567(style interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1573(style interface{}) (interface{}, error) {
 	return style, nil
 
 }
 
-func (p *parser) callonListContinuationElement1567() (interface{}, error) {
+func (p *parser) callonListContinuationElement1573() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1567(stack["style"])
+	return p.cur.onListContinuationElement1573(stack["style"])
 }
 
-func (c *current) onListContinuationElement1609() (interface{}, error) {
+func (c *current) onListContinuationElement1615() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1609() (interface{}, error) {
+func (p *parser) callonListContinuationElement1615() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1609()
+	return p.cur.onListContinuationElement1615()
 }
 
-func (c *current) onListContinuationElement1612() (interface{}, error) {
+func (c *current) onListContinuationElement1618() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1612() (interface{}, error) {
+func (p *parser) callonListContinuationElement1618() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1612()
+	return p.cur.onListContinuationElement1618()
 }
 
-func (c *current) onListContinuationElement1604() (interface{}, error) {
+func (c *current) onListContinuationElement1610() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1604() (interface{}, error) {
+func (p *parser) callonListContinuationElement1610() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1604()
+	return p.cur.onListContinuationElement1610()
 }
 
-func (c *current) onListContinuationElement1623() (interface{}, error) {
+func (c *current) onListContinuationElement1629() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1623() (interface{}, error) {
+func (p *parser) callonListContinuationElement1629() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1623()
+	return p.cur.onListContinuationElement1629()
 }
 
-func (c *current) onListContinuationElement1625() (interface{}, error) {
+func (c *current) onListContinuationElement1631() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1625() (interface{}, error) {
+func (p *parser) callonListContinuationElement1631() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1625()
+	return p.cur.onListContinuationElement1631()
 }
 
-func (c *current) onListContinuationElement1634() (interface{}, error) {
+func (c *current) onListContinuationElement1640() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1634() (interface{}, error) {
+func (p *parser) callonListContinuationElement1640() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1634()
+	return p.cur.onListContinuationElement1640()
 }
 
-func (c *current) onListContinuationElement1641() (interface{}, error) {
+func (c *current) onListContinuationElement1647() (interface{}, error) {
 
 	// `.` is 1, etc.
 	return (len(c.text)), nil
 
 }
 
-func (p *parser) callonListContinuationElement1641() (interface{}, error) {
+func (p *parser) callonListContinuationElement1647() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1641()
+	return p.cur.onListContinuationElement1647()
 }
 
-func (c *current) onListContinuationElement1644(depth interface{}) (bool, error) {
+func (c *current) onListContinuationElement1650(depth interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `.` to `.....` are allowed
 	return depth.(int) <= 5, nil
 
 }
 
-func (p *parser) callonListContinuationElement1644() (bool, error) {
+func (p *parser) callonListContinuationElement1650() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1644(stack["depth"])
+	return p.cur.onListContinuationElement1650(stack["depth"])
 }
 
-func (c *current) onListContinuationElement1638(depth interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1644(depth interface{}) (interface{}, error) {
 	switch depth.(int) {
 	case 1:
 		return types.NewOrderedListElementPrefix(types.Arabic)
@@ -67381,756 +67549,756 @@ func (c *current) onListContinuationElement1638(depth interface{}) (interface{},
 
 }
 
-func (p *parser) callonListContinuationElement1638() (interface{}, error) {
+func (p *parser) callonListContinuationElement1644() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1638(stack["depth"])
+	return p.cur.onListContinuationElement1644(stack["depth"])
 }
 
-func (c *current) onListContinuationElement1645() (interface{}, error) {
+func (c *current) onListContinuationElement1651() (interface{}, error) {
 	// numbering style: "1.", etc.
 	return types.NewOrderedListElementPrefix(types.Arabic)
 
 }
 
-func (p *parser) callonListContinuationElement1645() (interface{}, error) {
+func (p *parser) callonListContinuationElement1651() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1645()
+	return p.cur.onListContinuationElement1651()
 }
 
-func (c *current) onListContinuationElement1650() (interface{}, error) {
+func (c *current) onListContinuationElement1656() (interface{}, error) {
 	// numbering style: "a.", etc.
 	return types.NewOrderedListElementPrefix(types.LowerAlpha)
 
 }
 
-func (p *parser) callonListContinuationElement1650() (interface{}, error) {
+func (p *parser) callonListContinuationElement1656() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1650()
+	return p.cur.onListContinuationElement1656()
 }
 
-func (c *current) onListContinuationElement1654() (interface{}, error) {
+func (c *current) onListContinuationElement1660() (interface{}, error) {
 	// numbering style: "A.", etc.
 	return types.NewOrderedListElementPrefix(types.UpperAlpha)
 
 }
 
-func (p *parser) callonListContinuationElement1654() (interface{}, error) {
+func (p *parser) callonListContinuationElement1660() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1654()
+	return p.cur.onListContinuationElement1660()
 }
 
-func (c *current) onListContinuationElement1658() (interface{}, error) {
+func (c *current) onListContinuationElement1664() (interface{}, error) {
 	// numbering style: "i)", etc.
 	return types.NewOrderedListElementPrefix(types.LowerRoman)
 
 }
 
-func (p *parser) callonListContinuationElement1658() (interface{}, error) {
+func (p *parser) callonListContinuationElement1664() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1658()
+	return p.cur.onListContinuationElement1664()
 }
 
-func (c *current) onListContinuationElement1663() (interface{}, error) {
+func (c *current) onListContinuationElement1669() (interface{}, error) {
 	// numbering style: "I)", etc.
 	return types.NewOrderedListElementPrefix(types.UpperRoman)
 
 }
 
-func (p *parser) callonListContinuationElement1663() (interface{}, error) {
+func (p *parser) callonListContinuationElement1669() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1663()
+	return p.cur.onListContinuationElement1669()
 }
 
-func (c *current) onListContinuationElement1668(prefix interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1674(prefix interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1668() (interface{}, error) {
+func (p *parser) callonListContinuationElement1674() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1668(stack["prefix"])
+	return p.cur.onListContinuationElement1674(stack["prefix"])
 }
 
-func (c *current) onListContinuationElement1631(prefix interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1637(prefix interface{}) (interface{}, error) {
 	return prefix, nil
 }
 
-func (p *parser) callonListContinuationElement1631() (interface{}, error) {
+func (p *parser) callonListContinuationElement1637() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1631(stack["prefix"])
+	return p.cur.onListContinuationElement1637(stack["prefix"])
 }
 
-func (c *current) onListContinuationElement1675() (interface{}, error) {
+func (c *current) onListContinuationElement1681() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1675() (interface{}, error) {
+func (p *parser) callonListContinuationElement1681() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1675()
+	return p.cur.onListContinuationElement1681()
 }
 
-func (c *current) onListContinuationElement1678() (interface{}, error) {
+func (c *current) onListContinuationElement1684() (interface{}, error) {
 	// `-` or `*` to `*****`
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1678() (interface{}, error) {
+func (p *parser) callonListContinuationElement1684() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1678()
+	return p.cur.onListContinuationElement1684()
 }
 
-func (c *current) onListContinuationElement1683(style interface{}) (bool, error) {
+func (c *current) onListContinuationElement1689(style interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `*` to `*****` are allowed
 	return len(style.(string)) <= 5, nil
 
 }
 
-func (p *parser) callonListContinuationElement1683() (bool, error) {
+func (p *parser) callonListContinuationElement1689() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1683(stack["style"])
+	return p.cur.onListContinuationElement1689(stack["style"])
 }
 
-func (c *current) onListContinuationElement1684(style interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1690(style interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1684() (interface{}, error) {
+func (p *parser) callonListContinuationElement1690() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1684(stack["style"])
+	return p.cur.onListContinuationElement1690(stack["style"])
 }
 
-func (c *current) onListContinuationElement1672(style interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1678(style interface{}) (interface{}, error) {
 	return types.NewUnorderedListElementPrefix(style.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1672() (interface{}, error) {
+func (p *parser) callonListContinuationElement1678() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1672(stack["style"])
+	return p.cur.onListContinuationElement1678(stack["style"])
 }
 
-func (c *current) onListContinuationElement1692() (interface{}, error) {
+func (c *current) onListContinuationElement1698() (interface{}, error) {
 	return strconv.Atoi(string(c.text))
 }
 
-func (p *parser) callonListContinuationElement1692() (interface{}, error) {
+func (p *parser) callonListContinuationElement1698() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1692()
+	return p.cur.onListContinuationElement1698()
 }
 
-func (c *current) onListContinuationElement1696(ref interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1702(ref interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1696() (interface{}, error) {
+func (p *parser) callonListContinuationElement1702() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1696(stack["ref"])
+	return p.cur.onListContinuationElement1702(stack["ref"])
 }
 
-func (c *current) onListContinuationElement1688(ref interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1694(ref interface{}) (interface{}, error) {
 	return ref, nil
 
 }
 
-func (p *parser) callonListContinuationElement1688() (interface{}, error) {
+func (p *parser) callonListContinuationElement1694() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1688(stack["ref"])
+	return p.cur.onListContinuationElement1694(stack["ref"])
 }
 
-func (c *current) onListContinuationElement1708() (interface{}, error) {
+func (c *current) onListContinuationElement1720() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1708() (interface{}, error) {
+func (p *parser) callonListContinuationElement1720() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1708()
+	return p.cur.onListContinuationElement1720()
 }
 
-func (c *current) onListContinuationElement1711(separator interface{}) (bool, error) {
+func (c *current) onListContinuationElement1723(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonListContinuationElement1711() (bool, error) {
+func (p *parser) callonListContinuationElement1723() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1711(stack["separator"])
+	return p.cur.onListContinuationElement1723(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1705(separator interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1717(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonListContinuationElement1705() (interface{}, error) {
+func (p *parser) callonListContinuationElement1717() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1705(stack["separator"])
+	return p.cur.onListContinuationElement1717(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1714() (interface{}, error) {
+func (c *current) onListContinuationElement1726() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1714() (interface{}, error) {
+func (p *parser) callonListContinuationElement1726() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1714()
+	return p.cur.onListContinuationElement1726()
 }
 
-func (c *current) onListContinuationElement1701() (interface{}, error) {
+func (c *current) onListContinuationElement1707() (interface{}, error) {
 	return types.NewRawLine(strings.TrimSpace(string(c.text)))
 
 }
 
-func (p *parser) callonListContinuationElement1701() (interface{}, error) {
+func (p *parser) callonListContinuationElement1707() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1701()
+	return p.cur.onListContinuationElement1707()
 }
 
-func (c *current) onListContinuationElement1725() (interface{}, error) {
+func (c *current) onListContinuationElement1737() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1725() (interface{}, error) {
+func (p *parser) callonListContinuationElement1737() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1725()
+	return p.cur.onListContinuationElement1737()
 }
 
-func (c *current) onListContinuationElement1728(separator interface{}) (bool, error) {
+func (c *current) onListContinuationElement1740(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonListContinuationElement1728() (bool, error) {
+func (p *parser) callonListContinuationElement1740() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1728(stack["separator"])
+	return p.cur.onListContinuationElement1740(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1722(separator interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1734(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonListContinuationElement1722() (interface{}, error) {
+func (p *parser) callonListContinuationElement1734() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1722(stack["separator"])
+	return p.cur.onListContinuationElement1734(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1739() (interface{}, error) {
+func (c *current) onListContinuationElement1751() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1739() (interface{}, error) {
+func (p *parser) callonListContinuationElement1751() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1739()
+	return p.cur.onListContinuationElement1751()
 }
 
-func (c *current) onListContinuationElement1745() (interface{}, error) {
+func (c *current) onListContinuationElement1757() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1745() (interface{}, error) {
+func (p *parser) callonListContinuationElement1757() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1745()
+	return p.cur.onListContinuationElement1757()
 }
 
-func (c *current) onListContinuationElement1748() (interface{}, error) {
+func (c *current) onListContinuationElement1760() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1748() (interface{}, error) {
+func (p *parser) callonListContinuationElement1760() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1748()
+	return p.cur.onListContinuationElement1760()
 }
 
-func (c *current) onListContinuationElement1736(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1748(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1736() (interface{}, error) {
+func (p *parser) callonListContinuationElement1748() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1736(stack["delimiter"])
+	return p.cur.onListContinuationElement1748(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1758() (interface{}, error) {
+func (c *current) onListContinuationElement1770() (interface{}, error) {
 	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1758() (interface{}, error) {
+func (p *parser) callonListContinuationElement1770() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1758()
+	return p.cur.onListContinuationElement1770()
 }
 
-func (c *current) onListContinuationElement1764() (interface{}, error) {
+func (c *current) onListContinuationElement1776() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1764() (interface{}, error) {
+func (p *parser) callonListContinuationElement1776() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1764()
+	return p.cur.onListContinuationElement1776()
 }
 
-func (c *current) onListContinuationElement1767() (interface{}, error) {
+func (c *current) onListContinuationElement1779() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1767() (interface{}, error) {
+func (p *parser) callonListContinuationElement1779() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1767()
+	return p.cur.onListContinuationElement1779()
 }
 
-func (c *current) onListContinuationElement1755(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1767(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1755() (interface{}, error) {
+func (p *parser) callonListContinuationElement1767() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1755(stack["delimiter"])
+	return p.cur.onListContinuationElement1767(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1778() (interface{}, error) {
+func (c *current) onListContinuationElement1790() (interface{}, error) {
 	// exclude ` to avoid matching fenced blocks with more than 3 "`"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1778() (interface{}, error) {
+func (p *parser) callonListContinuationElement1790() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1778()
+	return p.cur.onListContinuationElement1790()
 }
 
-func (c *current) onListContinuationElement1782() (interface{}, error) {
+func (c *current) onListContinuationElement1794() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1782() (interface{}, error) {
+func (p *parser) callonListContinuationElement1794() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1782()
+	return p.cur.onListContinuationElement1794()
 }
 
-func (c *current) onListContinuationElement1785() (interface{}, error) {
+func (c *current) onListContinuationElement1797() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1785() (interface{}, error) {
+func (p *parser) callonListContinuationElement1797() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1785()
+	return p.cur.onListContinuationElement1797()
 }
 
-func (c *current) onListContinuationElement1774(language interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1786(language interface{}) (interface{}, error) {
 	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
 }
 
-func (p *parser) callonListContinuationElement1774() (interface{}, error) {
+func (p *parser) callonListContinuationElement1786() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1774(stack["language"])
+	return p.cur.onListContinuationElement1786(stack["language"])
 }
 
-func (c *current) onListContinuationElement1795() (interface{}, error) {
+func (c *current) onListContinuationElement1807() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1795() (interface{}, error) {
+func (p *parser) callonListContinuationElement1807() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1795()
+	return p.cur.onListContinuationElement1807()
 }
 
-func (c *current) onListContinuationElement1801() (interface{}, error) {
+func (c *current) onListContinuationElement1813() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1801() (interface{}, error) {
+func (p *parser) callonListContinuationElement1813() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1801()
+	return p.cur.onListContinuationElement1813()
 }
 
-func (c *current) onListContinuationElement1804() (interface{}, error) {
+func (c *current) onListContinuationElement1816() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1804() (interface{}, error) {
+func (p *parser) callonListContinuationElement1816() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1804()
+	return p.cur.onListContinuationElement1816()
 }
 
-func (c *current) onListContinuationElement1792(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1804(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1792() (interface{}, error) {
+func (p *parser) callonListContinuationElement1804() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1792(stack["delimiter"])
+	return p.cur.onListContinuationElement1804(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1814() (interface{}, error) {
+func (c *current) onListContinuationElement1826() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1814() (interface{}, error) {
+func (p *parser) callonListContinuationElement1826() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1814()
+	return p.cur.onListContinuationElement1826()
 }
 
-func (c *current) onListContinuationElement1820() (interface{}, error) {
+func (c *current) onListContinuationElement1832() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1820() (interface{}, error) {
+func (p *parser) callonListContinuationElement1832() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1820()
+	return p.cur.onListContinuationElement1832()
 }
 
-func (c *current) onListContinuationElement1823() (interface{}, error) {
+func (c *current) onListContinuationElement1835() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1823() (interface{}, error) {
+func (p *parser) callonListContinuationElement1835() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1823()
+	return p.cur.onListContinuationElement1835()
 }
 
-func (c *current) onListContinuationElement1811(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1823(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1811() (interface{}, error) {
+func (p *parser) callonListContinuationElement1823() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1811(stack["delimiter"])
+	return p.cur.onListContinuationElement1823(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1833() (interface{}, error) {
+func (c *current) onListContinuationElement1845() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1833() (interface{}, error) {
+func (p *parser) callonListContinuationElement1845() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1833()
+	return p.cur.onListContinuationElement1845()
 }
 
-func (c *current) onListContinuationElement1839() (interface{}, error) {
+func (c *current) onListContinuationElement1851() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1839() (interface{}, error) {
+func (p *parser) callonListContinuationElement1851() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1839()
+	return p.cur.onListContinuationElement1851()
 }
 
-func (c *current) onListContinuationElement1842() (interface{}, error) {
+func (c *current) onListContinuationElement1854() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1842() (interface{}, error) {
+func (p *parser) callonListContinuationElement1854() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1842()
+	return p.cur.onListContinuationElement1854()
 }
 
-func (c *current) onListContinuationElement1830(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1842(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1830() (interface{}, error) {
+func (p *parser) callonListContinuationElement1842() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1830(stack["delimiter"])
+	return p.cur.onListContinuationElement1842(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1852() (interface{}, error) {
+func (c *current) onListContinuationElement1864() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1852() (interface{}, error) {
+func (p *parser) callonListContinuationElement1864() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1852()
+	return p.cur.onListContinuationElement1864()
 }
 
-func (c *current) onListContinuationElement1858() (interface{}, error) {
+func (c *current) onListContinuationElement1870() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1858() (interface{}, error) {
+func (p *parser) callonListContinuationElement1870() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1858()
+	return p.cur.onListContinuationElement1870()
 }
 
-func (c *current) onListContinuationElement1861() (interface{}, error) {
+func (c *current) onListContinuationElement1873() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1861() (interface{}, error) {
+func (p *parser) callonListContinuationElement1873() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1861()
+	return p.cur.onListContinuationElement1873()
 }
 
-func (c *current) onListContinuationElement1849(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1861(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1849() (interface{}, error) {
+func (p *parser) callonListContinuationElement1861() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1849(stack["delimiter"])
+	return p.cur.onListContinuationElement1861(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1871() (interface{}, error) {
+func (c *current) onListContinuationElement1883() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1871() (interface{}, error) {
+func (p *parser) callonListContinuationElement1883() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1871()
+	return p.cur.onListContinuationElement1883()
 }
 
-func (c *current) onListContinuationElement1877() (interface{}, error) {
+func (c *current) onListContinuationElement1889() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1877() (interface{}, error) {
+func (p *parser) callonListContinuationElement1889() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1877()
+	return p.cur.onListContinuationElement1889()
 }
 
-func (c *current) onListContinuationElement1880() (interface{}, error) {
+func (c *current) onListContinuationElement1892() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1880() (interface{}, error) {
+func (p *parser) callonListContinuationElement1892() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1880()
+	return p.cur.onListContinuationElement1892()
 }
 
-func (c *current) onListContinuationElement1868(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1880(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1868() (interface{}, error) {
+func (p *parser) callonListContinuationElement1880() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1868(stack["delimiter"])
+	return p.cur.onListContinuationElement1880(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1890() (interface{}, error) {
+func (c *current) onListContinuationElement1902() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1890() (interface{}, error) {
+func (p *parser) callonListContinuationElement1902() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1890()
+	return p.cur.onListContinuationElement1902()
 }
 
-func (c *current) onListContinuationElement1896() (interface{}, error) {
+func (c *current) onListContinuationElement1908() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1896() (interface{}, error) {
+func (p *parser) callonListContinuationElement1908() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1896()
+	return p.cur.onListContinuationElement1908()
 }
 
-func (c *current) onListContinuationElement1899() (interface{}, error) {
+func (c *current) onListContinuationElement1911() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1899() (interface{}, error) {
+func (p *parser) callonListContinuationElement1911() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1899()
+	return p.cur.onListContinuationElement1911()
 }
 
-func (c *current) onListContinuationElement1887(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1899(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1887() (interface{}, error) {
+func (p *parser) callonListContinuationElement1899() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1887(stack["delimiter"])
+	return p.cur.onListContinuationElement1899(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1730(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1742(delimiter interface{}) (interface{}, error) {
 	return delimiter, nil
 
 }
 
-func (p *parser) callonListContinuationElement1730() (interface{}, error) {
+func (p *parser) callonListContinuationElement1742() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1730(stack["delimiter"])
+	return p.cur.onListContinuationElement1742(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1907() (interface{}, error) {
+func (c *current) onListContinuationElement1919() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1907() (interface{}, error) {
+func (p *parser) callonListContinuationElement1919() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1907()
+	return p.cur.onListContinuationElement1919()
 }
 
-func (c *current) onListContinuationElement1911() (interface{}, error) {
+func (c *current) onListContinuationElement1923() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1911() (interface{}, error) {
+func (p *parser) callonListContinuationElement1923() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1911()
+	return p.cur.onListContinuationElement1923()
 }
 
-func (c *current) onListContinuationElement1601(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1607(content interface{}) (interface{}, error) {
 	// do not retain the EOL chars
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1601() (interface{}, error) {
+func (p *parser) callonListContinuationElement1607() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1601(stack["content"])
+	return p.cur.onListContinuationElement1607(stack["content"])
 }
 
-func (c *current) onListContinuationElement1563(style, content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1569(style, content interface{}) (interface{}, error) {
 	return types.NewParagraph(style, content)
 
 }
 
-func (p *parser) callonListContinuationElement1563() (interface{}, error) {
+func (p *parser) callonListContinuationElement1569() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1563(stack["style"], stack["content"])
+	return p.cur.onListContinuationElement1569(stack["style"], stack["content"])
 }
 
 func (c *current) onListContinuationElement1(attributes, element interface{}) (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 1c355c1..ba13947 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -1659,6 +1659,7 @@ LabeledListElement <-
     }
 
 LabeledListElementTerm <- 
+    !SinglelineCommentDelimiter
     (!LabeledListElementSeparator !EOL .)+ {
         return types.NewRawLine(strings.TrimSpace(string(c.text)))
     }
diff --git a/pkg/renderer/sgml/paragraph.go b/pkg/renderer/sgml/paragraph.go
index 5965124..27f87e9 100644
--- a/pkg/renderer/sgml/paragraph.go
+++ b/pkg/renderer/sgml/paragraph.go
@@ -170,7 +170,8 @@ func (r *sgmlRenderer) renderParagraphElements(ctx *context, p *types.Paragraph)
 		if err := tmpl.Execute(linebreak, nil); err != nil {
 			return "", errors.Wrap(err, "unable to render line break")
 		}
-		result = insertLineBreaks(result, linebreak.String())
+		// not at the end of the paragraph (there is a new line there when it ends with comments)
+		result = insertLineBreaks(strings.TrimRight(result, "\n"), linebreak.String())
 	}
 	return result, nil
 }
diff --git a/pkg/types/types.go b/pkg/types/types.go
index be07626..1c8152e 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -821,6 +821,8 @@ func addToListElement(e ListElement, element interface{}) error {
 			},
 		}))
 
+	case *SinglelineComment:
+		return nil // ignored: the lines afterwards are in the same paragraph
 	default:
 		return e.SetElements(append(e.GetElements(), element))
 	}
-- 
2.43.0


From ac968116e97c925d80de7f9a3f207216bb58fdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:28 +0000
Subject: [PATCH 085/143] fix: escaped apostrophes lost their backslash in
 verbatim blocks

---
 pkg/parser/parser.go  | 9776 +++++++++++++++++++++--------------------
 pkg/parser/parser.peg |    3 +
 2 files changed, 4921 insertions(+), 4858 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index b99e8b2..674bb9d 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 360, col: 49, offset: 10940},
 													expr: &actionExpr{
-														pos: position{line: 2863, col: 10, offset: 90616},
+														pos: position{line: 2866, col: 10, offset: 90687},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2863, col: 10, offset: 90616},
+															pos:        position{line: 2866, col: 10, offset: 90687},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2885, col: 8, offset: 91014},
+													pos: position{line: 2888, col: 8, offset: 91085},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2872, col: 12, offset: 90787},
+															pos: position{line: 2875, col: 12, offset: 90858},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2872, col: 13, offset: 90788},
+																pos: position{line: 2875, col: 13, offset: 90859},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2872, col: 13, offset: 90788},
+																		pos:        position{line: 2875, col: 13, offset: 90859},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2872, col: 20, offset: 90795},
+																		pos:        position{line: 2875, col: 20, offset: 90866},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2872, col: 29, offset: 90804},
+																		pos:        position{line: 2875, col: 29, offset: 90875},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2882, col: 8, offset: 90964},
+															pos: position{line: 2885, col: 8, offset: 91035},
 															expr: &anyMatcher{
-																line: 2882, col: 9, offset: 90965,
+																line: 2885, col: 9, offset: 91036,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 39, offset: 11061},
 													expr: &actionExpr{
-														pos: position{line: 2863, col: 10, offset: 90616},
+														pos: position{line: 2866, col: 10, offset: 90687},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2863, col: 10, offset: 90616},
+															pos:        position{line: 2866, col: 10, offset: 90687},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2885, col: 8, offset: 91014},
+													pos: position{line: 2888, col: 8, offset: 91085},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2872, col: 12, offset: 90787},
+															pos: position{line: 2875, col: 12, offset: 90858},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2872, col: 13, offset: 90788},
+																pos: position{line: 2875, col: 13, offset: 90859},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2872, col: 13, offset: 90788},
+																		pos:        position{line: 2875, col: 13, offset: 90859},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2872, col: 20, offset: 90795},
+																		pos:        position{line: 2875, col: 20, offset: 90866},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2872, col: 29, offset: 90804},
+																		pos:        position{line: 2875, col: 29, offset: 90875},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2882, col: 8, offset: 90964},
+															pos: position{line: 2885, col: 8, offset: 91035},
 															expr: &anyMatcher{
-																line: 2882, col: 9, offset: 90965,
+																line: 2885, col: 9, offset: 91036,
 															},
 														},
 													},
@@ -321,10 +321,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 78, col: 41, offset: 2149},
 																						expr: &actionExpr{
-																							pos: position{line: 2863, col: 10, offset: 90616},
+																							pos: position{line: 2866, col: 10, offset: 90687},
 																							run: (*parser).callonDocumentRawLine66,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2863, col: 10, offset: 90616},
+																								pos:        position{line: 2866, col: 10, offset: 90687},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -333,9 +333,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2882, col: 8, offset: 90964},
+																						pos: position{line: 2885, col: 8, offset: 91035},
 																						expr: &anyMatcher{
-																							line: 2882, col: 9, offset: 90965,
+																							line: 2885, col: 9, offset: 91036,
 																						},
 																					},
 																				},
@@ -363,10 +363,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2863, col: 10, offset: 90616},
+														pos: position{line: 2866, col: 10, offset: 90687},
 														run: (*parser).callonDocumentRawLine73,
 														expr: &charClassMatcher{
-															pos:        position{line: 2863, col: 10, offset: 90616},
+															pos:        position{line: 2866, col: 10, offset: 90687},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -375,9 +375,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2882, col: 8, offset: 90964},
+													pos: position{line: 2885, col: 8, offset: 91035},
 													expr: &anyMatcher{
-														line: 2882, col: 9, offset: 90965,
+														line: 2885, col: 9, offset: 91036,
 													},
 												},
 											},
@@ -446,10 +446,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 78, col: 41, offset: 2149},
 																						expr: &actionExpr{
-																							pos: position{line: 2863, col: 10, offset: 90616},
+																							pos: position{line: 2866, col: 10, offset: 90687},
 																							run: (*parser).callonDocumentRawLine94,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2863, col: 10, offset: 90616},
+																								pos:        position{line: 2866, col: 10, offset: 90687},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -458,9 +458,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2882, col: 8, offset: 90964},
+																						pos: position{line: 2885, col: 8, offset: 91035},
 																						expr: &anyMatcher{
-																							line: 2882, col: 9, offset: 90965,
+																							line: 2885, col: 9, offset: 91036,
 																						},
 																					},
 																				},
@@ -488,10 +488,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2863, col: 10, offset: 90616},
+														pos: position{line: 2866, col: 10, offset: 90687},
 														run: (*parser).callonDocumentRawLine101,
 														expr: &charClassMatcher{
-															pos:        position{line: 2863, col: 10, offset: 90616},
+															pos:        position{line: 2866, col: 10, offset: 90687},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -500,9 +500,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2882, col: 8, offset: 90964},
+													pos: position{line: 2885, col: 8, offset: 91035},
 													expr: &anyMatcher{
-														line: 2882, col: 9, offset: 90965,
+														line: 2885, col: 9, offset: 91036,
 													},
 												},
 											},
@@ -972,24 +972,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2859, col: 10, offset: 90519},
+																pos: position{line: 2862, col: 10, offset: 90590},
 																run: (*parser).callonDocumentRawLine197,
 																expr: &seqExpr{
-																	pos: position{line: 2859, col: 11, offset: 90520},
+																	pos: position{line: 2862, col: 11, offset: 90591},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2859, col: 11, offset: 90520},
+																			pos: position{line: 2862, col: 11, offset: 90591},
 																			expr: &litMatcher{
-																				pos:        position{line: 2859, col: 11, offset: 90520},
+																				pos:        position{line: 2862, col: 11, offset: 90591},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2859, col: 16, offset: 90525},
+																			pos: position{line: 2862, col: 16, offset: 90596},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2859, col: 16, offset: 90525},
+																				pos:        position{line: 2862, col: 16, offset: 90596},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -997,15 +997,15 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2859, col: 23, offset: 90532},
+																			pos:        position{line: 2862, col: 23, offset: 90603},
 																			val:        ".",
 																			ignoreCase: false,
 																			want:       "\".\"",
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2859, col: 27, offset: 90536},
+																			pos: position{line: 2862, col: 27, offset: 90607},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2859, col: 27, offset: 90536},
+																				pos:        position{line: 2862, col: 27, offset: 90607},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1016,24 +1016,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2855, col: 12, offset: 90443},
+																pos: position{line: 2858, col: 12, offset: 90514},
 																run: (*parser).callonDocumentRawLine206,
 																expr: &seqExpr{
-																	pos: position{line: 2855, col: 13, offset: 90444},
+																	pos: position{line: 2858, col: 13, offset: 90515},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2855, col: 13, offset: 90444},
+																			pos: position{line: 2858, col: 13, offset: 90515},
 																			expr: &litMatcher{
-																				pos:        position{line: 2855, col: 13, offset: 90444},
+																				pos:        position{line: 2858, col: 13, offset: 90515},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2855, col: 18, offset: 90449},
+																			pos: position{line: 2858, col: 18, offset: 90520},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2855, col: 18, offset: 90449},
+																				pos:        position{line: 2858, col: 18, offset: 90520},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1049,10 +1049,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2280},
 													expr: &actionExpr{
-														pos: position{line: 2863, col: 10, offset: 90616},
+														pos: position{line: 2866, col: 10, offset: 90687},
 														run: (*parser).callonDocumentRawLine213,
 														expr: &charClassMatcher{
-															pos:        position{line: 2863, col: 10, offset: 90616},
+															pos:        position{line: 2866, col: 10, offset: 90687},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1132,10 +1132,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2326},
 													expr: &actionExpr{
-														pos: position{line: 2863, col: 10, offset: 90616},
+														pos: position{line: 2866, col: 10, offset: 90687},
 														run: (*parser).callonDocumentRawLine230,
 														expr: &charClassMatcher{
-															pos:        position{line: 2863, col: 10, offset: 90616},
+															pos:        position{line: 2866, col: 10, offset: 90687},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1595,24 +1595,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2859, col: 10, offset: 90519},
+																pos: position{line: 2862, col: 10, offset: 90590},
 																run: (*parser).callonDocumentRawLine321,
 																expr: &seqExpr{
-																	pos: position{line: 2859, col: 11, offset: 90520},
+																	pos: position{line: 2862, col: 11, offset: 90591},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2859, col: 11, offset: 90520},
+																			pos: position{line: 2862, col: 11, offset: 90591},
 																			expr: &litMatcher{
-																				pos:        position{line: 2859, col: 11, offset: 90520},
+																				pos:        position{line: 2862, col: 11, offset: 90591},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2859, col: 16, offset: 90525},
+																			pos: position{line: 2862, col: 16, offset: 90596},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2859, col: 16, offset: 90525},
+																				pos:        position{line: 2862, col: 16, offset: 90596},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1620,15 +1620,15 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2859, col: 23, offset: 90532},
+																			pos:        position{line: 2862, col: 23, offset: 90603},
 																			val:        ".",
 																			ignoreCase: false,
 																			want:       "\".\"",
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2859, col: 27, offset: 90536},
+																			pos: position{line: 2862, col: 27, offset: 90607},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2859, col: 27, offset: 90536},
+																				pos:        position{line: 2862, col: 27, offset: 90607},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1639,24 +1639,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2855, col: 12, offset: 90443},
+																pos: position{line: 2858, col: 12, offset: 90514},
 																run: (*parser).callonDocumentRawLine330,
 																expr: &seqExpr{
-																	pos: position{line: 2855, col: 13, offset: 90444},
+																	pos: position{line: 2858, col: 13, offset: 90515},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2855, col: 13, offset: 90444},
+																			pos: position{line: 2858, col: 13, offset: 90515},
 																			expr: &litMatcher{
-																				pos:        position{line: 2855, col: 13, offset: 90444},
+																				pos:        position{line: 2858, col: 13, offset: 90515},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2855, col: 18, offset: 90449},
+																			pos: position{line: 2858, col: 18, offset: 90520},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2855, col: 18, offset: 90449},
+																				pos:        position{line: 2858, col: 18, offset: 90520},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1678,10 +1678,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2378},
 													expr: &actionExpr{
-														pos: position{line: 2863, col: 10, offset: 90616},
+														pos: position{line: 2866, col: 10, offset: 90687},
 														run: (*parser).callonDocumentRawLine338,
 														expr: &charClassMatcher{
-															pos:        position{line: 2863, col: 10, offset: 90616},
+															pos:        position{line: 2866, col: 10, offset: 90687},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1690,9 +1690,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2882, col: 8, offset: 90964},
+													pos: position{line: 2885, col: 8, offset: 91035},
 													expr: &anyMatcher{
-														line: 2882, col: 9, offset: 90965,
+														line: 2885, col: 9, offset: 91036,
 													},
 												},
 											},
@@ -1764,10 +1764,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 78, col: 41, offset: 2149},
 																						expr: &actionExpr{
-																							pos: position{line: 2863, col: 10, offset: 90616},
+																							pos: position{line: 2866, col: 10, offset: 90687},
 																							run: (*parser).callonDocumentRawLine360,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2863, col: 10, offset: 90616},
+																								pos:        position{line: 2866, col: 10, offset: 90687},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -1776,9 +1776,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2882, col: 8, offset: 90964},
+																						pos: position{line: 2885, col: 8, offset: 91035},
 																						expr: &anyMatcher{
-																							line: 2882, col: 9, offset: 90965,
+																							line: 2885, col: 9, offset: 91036,
 																						},
 																					},
 																				},
@@ -1806,10 +1806,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3474},
 													expr: &actionExpr{
-														pos: position{line: 2863, col: 10, offset: 90616},
+														pos: position{line: 2866, col: 10, offset: 90687},
 														run: (*parser).callonDocumentRawLine367,
 														expr: &charClassMatcher{
-															pos:        position{line: 2863, col: 10, offset: 90616},
+															pos:        position{line: 2866, col: 10, offset: 90687},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1818,9 +1818,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2882, col: 8, offset: 90964},
+													pos: position{line: 2885, col: 8, offset: 91035},
 													expr: &anyMatcher{
-														line: 2882, col: 9, offset: 90965,
+														line: 2885, col: 9, offset: 91036,
 													},
 												},
 											},
@@ -1835,7 +1835,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 724, col: 5, offset: 23110},
 													expr: &charClassMatcher{
-														pos:        position{line: 2753, col: 13, offset: 87711},
+														pos:        position{line: 2756, col: 13, offset: 87782},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1885,10 +1885,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 742, col: 8, offset: 23754},
 																			expr: &actionExpr{
-																				pos: position{line: 2863, col: 10, offset: 90616},
+																				pos: position{line: 2866, col: 10, offset: 90687},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2863, col: 10, offset: 90616},
+																					pos:        position{line: 2866, col: 10, offset: 90687},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1897,28 +1897,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2885, col: 8, offset: 91014},
+																			pos: position{line: 2888, col: 8, offset: 91085},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2872, col: 12, offset: 90787},
+																					pos: position{line: 2875, col: 12, offset: 90858},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2872, col: 13, offset: 90788},
+																						pos: position{line: 2875, col: 13, offset: 90859},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2872, col: 13, offset: 90788},
+																								pos:        position{line: 2875, col: 13, offset: 90859},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2872, col: 20, offset: 90795},
+																								pos:        position{line: 2875, col: 20, offset: 90866},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2872, col: 29, offset: 90804},
+																								pos:        position{line: 2875, col: 29, offset: 90875},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1927,9 +1927,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2882, col: 8, offset: 90964},
+																					pos: position{line: 2885, col: 8, offset: 91035},
 																					expr: &anyMatcher{
-																						line: 2882, col: 9, offset: 90965,
+																						line: 2885, col: 9, offset: 91036,
 																					},
 																				},
 																			},
@@ -1974,10 +1974,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 749, col: 8, offset: 24002},
 																			expr: &actionExpr{
-																				pos: position{line: 2863, col: 10, offset: 90616},
+																				pos: position{line: 2866, col: 10, offset: 90687},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2863, col: 10, offset: 90616},
+																					pos:        position{line: 2866, col: 10, offset: 90687},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1986,28 +1986,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2885, col: 8, offset: 91014},
+																			pos: position{line: 2888, col: 8, offset: 91085},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2872, col: 12, offset: 90787},
+																					pos: position{line: 2875, col: 12, offset: 90858},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2872, col: 13, offset: 90788},
+																						pos: position{line: 2875, col: 13, offset: 90859},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2872, col: 13, offset: 90788},
+																								pos:        position{line: 2875, col: 13, offset: 90859},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2872, col: 20, offset: 90795},
+																								pos:        position{line: 2875, col: 20, offset: 90866},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2872, col: 29, offset: 90804},
+																								pos:        position{line: 2875, col: 29, offset: 90875},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2016,9 +2016,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2882, col: 8, offset: 90964},
+																					pos: position{line: 2885, col: 8, offset: 91035},
 																					expr: &anyMatcher{
-																						line: 2882, col: 9, offset: 90965,
+																						line: 2885, col: 9, offset: 91036,
 																					},
 																				},
 																			},
@@ -2059,10 +2059,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 760, col: 52, offset: 24414},
 																			expr: &actionExpr{
-																				pos: position{line: 2863, col: 10, offset: 90616},
+																				pos: position{line: 2866, col: 10, offset: 90687},
 																				run: (*parser).callonDocumentRawLine423,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2863, col: 10, offset: 90616},
+																					pos:        position{line: 2866, col: 10, offset: 90687},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2071,28 +2071,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2885, col: 8, offset: 91014},
+																			pos: position{line: 2888, col: 8, offset: 91085},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2872, col: 12, offset: 90787},
+																					pos: position{line: 2875, col: 12, offset: 90858},
 																					run: (*parser).callonDocumentRawLine426,
 																					expr: &choiceExpr{
-																						pos: position{line: 2872, col: 13, offset: 90788},
+																						pos: position{line: 2875, col: 13, offset: 90859},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2872, col: 13, offset: 90788},
+																								pos:        position{line: 2875, col: 13, offset: 90859},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2872, col: 20, offset: 90795},
+																								pos:        position{line: 2875, col: 20, offset: 90866},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2872, col: 29, offset: 90804},
+																								pos:        position{line: 2875, col: 29, offset: 90875},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2101,9 +2101,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2882, col: 8, offset: 90964},
+																					pos: position{line: 2885, col: 8, offset: 91035},
 																					expr: &anyMatcher{
-																						line: 2882, col: 9, offset: 90965,
+																						line: 2885, col: 9, offset: 91036,
 																					},
 																				},
 																			},
@@ -2148,10 +2148,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 756, col: 8, offset: 24248},
 																			expr: &actionExpr{
-																				pos: position{line: 2863, col: 10, offset: 90616},
+																				pos: position{line: 2866, col: 10, offset: 90687},
 																				run: (*parser).callonDocumentRawLine442,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2863, col: 10, offset: 90616},
+																					pos:        position{line: 2866, col: 10, offset: 90687},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2160,28 +2160,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2885, col: 8, offset: 91014},
+																			pos: position{line: 2888, col: 8, offset: 91085},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2872, col: 12, offset: 90787},
+																					pos: position{line: 2875, col: 12, offset: 90858},
 																					run: (*parser).callonDocumentRawLine445,
 																					expr: &choiceExpr{
-																						pos: position{line: 2872, col: 13, offset: 90788},
+																						pos: position{line: 2875, col: 13, offset: 90859},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2872, col: 13, offset: 90788},
+																								pos:        position{line: 2875, col: 13, offset: 90859},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2872, col: 20, offset: 90795},
+																								pos:        position{line: 2875, col: 20, offset: 90866},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2872, col: 29, offset: 90804},
+																								pos:        position{line: 2875, col: 29, offset: 90875},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2190,9 +2190,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2882, col: 8, offset: 90964},
+																					pos: position{line: 2885, col: 8, offset: 91035},
 																					expr: &anyMatcher{
-																						line: 2882, col: 9, offset: 90965,
+																						line: 2885, col: 9, offset: 91036,
 																					},
 																				},
 																			},
@@ -2237,10 +2237,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 771, col: 8, offset: 24791},
 																			expr: &actionExpr{
-																				pos: position{line: 2863, col: 10, offset: 90616},
+																				pos: position{line: 2866, col: 10, offset: 90687},
 																				run: (*parser).callonDocumentRawLine461,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2863, col: 10, offset: 90616},
+																					pos:        position{line: 2866, col: 10, offset: 90687},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2249,28 +2249,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2885, col: 8, offset: 91014},
+																			pos: position{line: 2888, col: 8, offset: 91085},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2872, col: 12, offset: 90787},
+																					pos: position{line: 2875, col: 12, offset: 90858},
 																					run: (*parser).callonDocumentRawLine464,
 																					expr: &choiceExpr{
-																						pos: position{line: 2872, col: 13, offset: 90788},
+																						pos: position{line: 2875, col: 13, offset: 90859},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2872, col: 13, offset: 90788},
+																								pos:        position{line: 2875, col: 13, offset: 90859},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2872, col: 20, offset: 90795},
+																								pos:        position{line: 2875, col: 20, offset: 90866},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2872, col: 29, offset: 90804},
+																								pos:        position{line: 2875, col: 29, offset: 90875},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2279,9 +2279,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2882, col: 8, offset: 90964},
+																					pos: position{line: 2885, col: 8, offset: 91035},
 																					expr: &anyMatcher{
-																						line: 2882, col: 9, offset: 90965,
+																						line: 2885, col: 9, offset: 91036,
 																					},
 																				},
 																			},
@@ -2326,10 +2326,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 785, col: 8, offset: 25267},
 																			expr: &actionExpr{
-																				pos: position{line: 2863, col: 10, offset: 90616},
+																				pos: position{line: 2866, col: 10, offset: 90687},
 																				run: (*parser).callonDocumentRawLine480,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2863, col: 10, offset: 90616},
+																					pos:        position{line: 2866, col: 10, offset: 90687},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2338,28 +2338,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2885, col: 8, offset: 91014},
+																			pos: position{line: 2888, col: 8, offset: 91085},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2872, col: 12, offset: 90787},
+																					pos: position{line: 2875, col: 12, offset: 90858},
 																					run: (*parser).callonDocumentRawLine483,
 																					expr: &choiceExpr{
-																						pos: position{line: 2872, col: 13, offset: 90788},
+																						pos: position{line: 2875, col: 13, offset: 90859},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2872, col: 13, offset: 90788},
+																								pos:        position{line: 2875, col: 13, offset: 90859},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2872, col: 20, offset: 90795},
+																								pos:        position{line: 2875, col: 20, offset: 90866},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2872, col: 29, offset: 90804},
+																								pos:        position{line: 2875, col: 29, offset: 90875},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2368,9 +2368,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2882, col: 8, offset: 90964},
+																					pos: position{line: 2885, col: 8, offset: 91035},
 																					expr: &anyMatcher{
-																						line: 2882, col: 9, offset: 90965,
+																						line: 2885, col: 9, offset: 91036,
 																					},
 																				},
 																			},
@@ -2415,10 +2415,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 792, col: 8, offset: 25519},
 																			expr: &actionExpr{
-																				pos: position{line: 2863, col: 10, offset: 90616},
+																				pos: position{line: 2866, col: 10, offset: 90687},
 																				run: (*parser).callonDocumentRawLine499,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2863, col: 10, offset: 90616},
+																					pos:        position{line: 2866, col: 10, offset: 90687},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2427,28 +2427,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2885, col: 8, offset: 91014},
+																			pos: position{line: 2888, col: 8, offset: 91085},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2872, col: 12, offset: 90787},
+																					pos: position{line: 2875, col: 12, offset: 90858},
 																					run: (*parser).callonDocumentRawLine502,
 																					expr: &choiceExpr{
-																						pos: position{line: 2872, col: 13, offset: 90788},
+																						pos: position{line: 2875, col: 13, offset: 90859},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2872, col: 13, offset: 90788},
+																								pos:        position{line: 2875, col: 13, offset: 90859},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2872, col: 20, offset: 90795},
+																								pos:        position{line: 2875, col: 20, offset: 90866},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2872, col: 29, offset: 90804},
+																								pos:        position{line: 2875, col: 29, offset: 90875},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2457,9 +2457,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2882, col: 8, offset: 90964},
+																					pos: position{line: 2885, col: 8, offset: 91035},
 																					expr: &anyMatcher{
-																						line: 2882, col: 9, offset: 90965,
+																						line: 2885, col: 9, offset: 91036,
 																					},
 																				},
 																			},
@@ -2504,10 +2504,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 799, col: 8, offset: 25769},
 																			expr: &actionExpr{
-																				pos: position{line: 2863, col: 10, offset: 90616},
+																				pos: position{line: 2866, col: 10, offset: 90687},
 																				run: (*parser).callonDocumentRawLine518,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2863, col: 10, offset: 90616},
+																					pos:        position{line: 2866, col: 10, offset: 90687},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2516,28 +2516,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2885, col: 8, offset: 91014},
+																			pos: position{line: 2888, col: 8, offset: 91085},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2872, col: 12, offset: 90787},
+																					pos: position{line: 2875, col: 12, offset: 90858},
 																					run: (*parser).callonDocumentRawLine521,
 																					expr: &choiceExpr{
-																						pos: position{line: 2872, col: 13, offset: 90788},
+																						pos: position{line: 2875, col: 13, offset: 90859},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2872, col: 13, offset: 90788},
+																								pos:        position{line: 2875, col: 13, offset: 90859},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2872, col: 20, offset: 90795},
+																								pos:        position{line: 2875, col: 20, offset: 90866},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2872, col: 29, offset: 90804},
+																								pos:        position{line: 2875, col: 29, offset: 90875},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2546,9 +2546,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2882, col: 8, offset: 90964},
+																					pos: position{line: 2885, col: 8, offset: 91035},
 																					expr: &anyMatcher{
-																						line: 2882, col: 9, offset: 90965,
+																						line: 2885, col: 9, offset: 91036,
 																					},
 																				},
 																			},
@@ -2593,10 +2593,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 806, col: 8, offset: 26015},
 																			expr: &actionExpr{
-																				pos: position{line: 2863, col: 10, offset: 90616},
+																				pos: position{line: 2866, col: 10, offset: 90687},
 																				run: (*parser).callonDocumentRawLine537,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2863, col: 10, offset: 90616},
+																					pos:        position{line: 2866, col: 10, offset: 90687},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2605,28 +2605,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2885, col: 8, offset: 91014},
+																			pos: position{line: 2888, col: 8, offset: 91085},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2872, col: 12, offset: 90787},
+																					pos: position{line: 2875, col: 12, offset: 90858},
 																					run: (*parser).callonDocumentRawLine540,
 																					expr: &choiceExpr{
-																						pos: position{line: 2872, col: 13, offset: 90788},
+																						pos: position{line: 2875, col: 13, offset: 90859},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2872, col: 13, offset: 90788},
+																								pos:        position{line: 2875, col: 13, offset: 90859},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2872, col: 20, offset: 90795},
+																								pos:        position{line: 2875, col: 20, offset: 90866},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2872, col: 29, offset: 90804},
+																								pos:        position{line: 2875, col: 29, offset: 90875},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2635,9 +2635,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2882, col: 8, offset: 90964},
+																					pos: position{line: 2885, col: 8, offset: 91035},
 																					expr: &anyMatcher{
-																						line: 2882, col: 9, offset: 90965,
+																						line: 2885, col: 9, offset: 91036,
 																					},
 																				},
 																			},
@@ -2687,12 +2687,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine555,
 												},
 												&actionExpr{
-													pos: position{line: 2867, col: 11, offset: 90677},
+													pos: position{line: 2870, col: 11, offset: 90748},
 													run: (*parser).callonDocumentRawLine556,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2867, col: 11, offset: 90677},
+														pos: position{line: 2870, col: 11, offset: 90748},
 														expr: &charClassMatcher{
-															pos:        position{line: 2867, col: 11, offset: 90677},
+															pos:        position{line: 2870, col: 11, offset: 90748},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2701,12 +2701,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2813, col: 14, offset: 89209},
+													pos: position{line: 2816, col: 14, offset: 89280},
 													run: (*parser).callonDocumentRawLine559,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2813, col: 14, offset: 89209},
+														pos: position{line: 2816, col: 14, offset: 89280},
 														expr: &charClassMatcher{
-															pos:        position{line: 2813, col: 14, offset: 89209},
+															pos:        position{line: 2816, col: 14, offset: 89280},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2715,9 +2715,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2882, col: 8, offset: 90964},
+													pos: position{line: 2885, col: 8, offset: 91035},
 													expr: &anyMatcher{
-														line: 2882, col: 9, offset: 90965,
+														line: 2885, col: 9, offset: 91036,
 													},
 												},
 											},
@@ -2727,9 +2727,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2882, col: 8, offset: 90964},
+							pos: position{line: 2885, col: 8, offset: 91035},
 							expr: &anyMatcher{
-								line: 2882, col: 9, offset: 90965,
+								line: 2885, col: 9, offset: 91036,
 							},
 						},
 					},
@@ -2764,41 +2764,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2817, col: 17, offset: 89279},
+												pos: position{line: 2820, col: 17, offset: 89350},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2817, col: 17, offset: 89279},
+													pos:   position{line: 2820, col: 17, offset: 89350},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2834, col: 5, offset: 89733},
+														pos: position{line: 2837, col: 5, offset: 89804},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2834, col: 5, offset: 89733},
+															pos:   position{line: 2837, col: 5, offset: 89804},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2834, col: 14, offset: 89742},
+																pos: position{line: 2837, col: 14, offset: 89813},
 																expr: &choiceExpr{
-																	pos: position{line: 2835, col: 9, offset: 89752},
+																	pos: position{line: 2838, col: 9, offset: 89823},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2835, col: 9, offset: 89752},
+																			pos: position{line: 2838, col: 9, offset: 89823},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2835, col: 9, offset: 89752},
+																				pos: position{line: 2838, col: 9, offset: 89823},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2835, col: 9, offset: 89752},
+																						pos: position{line: 2838, col: 9, offset: 89823},
 																						expr: &litMatcher{
-																							pos:        position{line: 2835, col: 10, offset: 89753},
+																							pos:        position{line: 2838, col: 10, offset: 89824},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2836, col: 9, offset: 89781},
+																						pos: position{line: 2839, col: 9, offset: 89852},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2836, col: 10, offset: 89782},
+																							pos:        position{line: 2839, col: 10, offset: 89853},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2809,27 +2809,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2839, col: 11, offset: 89994},
+																			pos: position{line: 2842, col: 11, offset: 90065},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2839, col: 11, offset: 89994},
+																					pos:        position{line: 2842, col: 11, offset: 90065},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2839, col: 19, offset: 90002},
+																					pos: position{line: 2842, col: 19, offset: 90073},
 																					expr: &seqExpr{
-																						pos: position{line: 2839, col: 21, offset: 90004},
+																						pos: position{line: 2842, col: 21, offset: 90075},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2839, col: 21, offset: 90004},
+																								pos: position{line: 2842, col: 21, offset: 90075},
 																								expr: &actionExpr{
-																									pos: position{line: 2863, col: 10, offset: 90616},
+																									pos: position{line: 2866, col: 10, offset: 90687},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2863, col: 10, offset: 90616},
+																										pos:        position{line: 2866, col: 10, offset: 90687},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2838,11 +2838,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2839, col: 28, offset: 90011},
+																								pos: position{line: 2842, col: 28, offset: 90082},
 																								expr: &notExpr{
-																									pos: position{line: 2882, col: 8, offset: 90964},
+																									pos: position{line: 2885, col: 8, offset: 91035},
 																									expr: &anyMatcher{
-																										line: 2882, col: 9, offset: 90965,
+																										line: 2885, col: 9, offset: 91036,
 																									},
 																								},
 																							},
@@ -3237,10 +3237,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2842, col: 11, offset: 90131},
+																			pos: position{line: 2845, col: 11, offset: 90202},
 																			run: (*parser).callonFileInclusion107,
 																			expr: &litMatcher{
-																				pos:        position{line: 2842, col: 11, offset: 90131},
+																				pos:        position{line: 2845, col: 11, offset: 90202},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3269,10 +3269,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2863, col: 10, offset: 90616},
+								pos: position{line: 2866, col: 10, offset: 90687},
 								run: (*parser).callonFileInclusion112,
 								expr: &charClassMatcher{
-									pos:        position{line: 2863, col: 10, offset: 90616},
+									pos:        position{line: 2866, col: 10, offset: 90687},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3281,28 +3281,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2885, col: 8, offset: 91014},
+							pos: position{line: 2888, col: 8, offset: 91085},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2872, col: 12, offset: 90787},
+									pos: position{line: 2875, col: 12, offset: 90858},
 									run: (*parser).callonFileInclusion115,
 									expr: &choiceExpr{
-										pos: position{line: 2872, col: 13, offset: 90788},
+										pos: position{line: 2875, col: 13, offset: 90859},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2872, col: 13, offset: 90788},
+												pos:        position{line: 2875, col: 13, offset: 90859},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2872, col: 20, offset: 90795},
+												pos:        position{line: 2875, col: 20, offset: 90866},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2872, col: 29, offset: 90804},
+												pos:        position{line: 2875, col: 29, offset: 90875},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3311,9 +3311,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2882, col: 8, offset: 90964},
+									pos: position{line: 2885, col: 8, offset: 91035},
 									expr: &anyMatcher{
-										line: 2882, col: 9, offset: 90965,
+										line: 2885, col: 9, offset: 91036,
 									},
 								},
 							},
@@ -3359,24 +3359,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2855, col: 12, offset: 90443},
+																				pos: position{line: 2858, col: 12, offset: 90514},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2855, col: 13, offset: 90444},
+																					pos: position{line: 2858, col: 13, offset: 90515},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2855, col: 13, offset: 90444},
+																							pos: position{line: 2858, col: 13, offset: 90515},
 																							expr: &litMatcher{
-																								pos:        position{line: 2855, col: 13, offset: 90444},
+																								pos:        position{line: 2858, col: 13, offset: 90515},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2855, col: 18, offset: 90449},
+																							pos: position{line: 2858, col: 18, offset: 90520},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2855, col: 18, offset: 90449},
+																								pos:        position{line: 2858, col: 18, offset: 90520},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3397,24 +3397,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2855, col: 12, offset: 90443},
+																				pos: position{line: 2858, col: 12, offset: 90514},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2855, col: 13, offset: 90444},
+																					pos: position{line: 2858, col: 13, offset: 90515},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2855, col: 13, offset: 90444},
+																							pos: position{line: 2858, col: 13, offset: 90515},
 																							expr: &litMatcher{
-																								pos:        position{line: 2855, col: 13, offset: 90444},
+																								pos:        position{line: 2858, col: 13, offset: 90515},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2855, col: 18, offset: 90449},
+																							pos: position{line: 2858, col: 18, offset: 90520},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2855, col: 18, offset: 90449},
+																								pos:        position{line: 2858, col: 18, offset: 90520},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3435,24 +3435,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2855, col: 12, offset: 90443},
+																		pos: position{line: 2858, col: 12, offset: 90514},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2855, col: 13, offset: 90444},
+																			pos: position{line: 2858, col: 13, offset: 90515},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2855, col: 13, offset: 90444},
+																					pos: position{line: 2858, col: 13, offset: 90515},
 																					expr: &litMatcher{
-																						pos:        position{line: 2855, col: 13, offset: 90444},
+																						pos:        position{line: 2858, col: 13, offset: 90515},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2855, col: 18, offset: 90449},
+																					pos: position{line: 2858, col: 18, offset: 90520},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2855, col: 18, offset: 90449},
+																						pos:        position{line: 2858, col: 18, offset: 90520},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3501,24 +3501,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2855, col: 12, offset: 90443},
+																									pos: position{line: 2858, col: 12, offset: 90514},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2855, col: 13, offset: 90444},
+																										pos: position{line: 2858, col: 13, offset: 90515},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2855, col: 13, offset: 90444},
+																												pos: position{line: 2858, col: 13, offset: 90515},
 																												expr: &litMatcher{
-																													pos:        position{line: 2855, col: 13, offset: 90444},
+																													pos:        position{line: 2858, col: 13, offset: 90515},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2855, col: 18, offset: 90449},
+																												pos: position{line: 2858, col: 18, offset: 90520},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2855, col: 18, offset: 90449},
+																													pos:        position{line: 2858, col: 18, offset: 90520},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3539,24 +3539,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2855, col: 12, offset: 90443},
+																									pos: position{line: 2858, col: 12, offset: 90514},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2855, col: 13, offset: 90444},
+																										pos: position{line: 2858, col: 13, offset: 90515},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2855, col: 13, offset: 90444},
+																												pos: position{line: 2858, col: 13, offset: 90515},
 																												expr: &litMatcher{
-																													pos:        position{line: 2855, col: 13, offset: 90444},
+																													pos:        position{line: 2858, col: 13, offset: 90515},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2855, col: 18, offset: 90449},
+																												pos: position{line: 2858, col: 18, offset: 90520},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2855, col: 18, offset: 90449},
+																													pos:        position{line: 2858, col: 18, offset: 90520},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3577,24 +3577,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2855, col: 12, offset: 90443},
+																							pos: position{line: 2858, col: 12, offset: 90514},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2855, col: 13, offset: 90444},
+																								pos: position{line: 2858, col: 13, offset: 90515},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2855, col: 13, offset: 90444},
+																										pos: position{line: 2858, col: 13, offset: 90515},
 																										expr: &litMatcher{
-																											pos:        position{line: 2855, col: 13, offset: 90444},
+																											pos:        position{line: 2858, col: 13, offset: 90515},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2855, col: 18, offset: 90449},
+																										pos: position{line: 2858, col: 18, offset: 90520},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2855, col: 18, offset: 90449},
+																											pos:        position{line: 2858, col: 18, offset: 90520},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3627,24 +3627,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2855, col: 12, offset: 90443},
+														pos: position{line: 2858, col: 12, offset: 90514},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2855, col: 13, offset: 90444},
+															pos: position{line: 2858, col: 13, offset: 90515},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2855, col: 13, offset: 90444},
+																	pos: position{line: 2858, col: 13, offset: 90515},
 																	expr: &litMatcher{
-																		pos:        position{line: 2855, col: 13, offset: 90444},
+																		pos:        position{line: 2858, col: 13, offset: 90515},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2855, col: 18, offset: 90449},
+																	pos: position{line: 2858, col: 18, offset: 90520},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2855, col: 18, offset: 90449},
+																		pos:        position{line: 2858, col: 18, offset: 90520},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3665,24 +3665,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2855, col: 12, offset: 90443},
+														pos: position{line: 2858, col: 12, offset: 90514},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2855, col: 13, offset: 90444},
+															pos: position{line: 2858, col: 13, offset: 90515},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2855, col: 13, offset: 90444},
+																	pos: position{line: 2858, col: 13, offset: 90515},
 																	expr: &litMatcher{
-																		pos:        position{line: 2855, col: 13, offset: 90444},
+																		pos:        position{line: 2858, col: 13, offset: 90515},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2855, col: 18, offset: 90449},
+																	pos: position{line: 2858, col: 18, offset: 90520},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2855, col: 18, offset: 90449},
+																		pos:        position{line: 2858, col: 18, offset: 90520},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3703,24 +3703,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2855, col: 12, offset: 90443},
+												pos: position{line: 2858, col: 12, offset: 90514},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2855, col: 13, offset: 90444},
+													pos: position{line: 2858, col: 13, offset: 90515},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2855, col: 13, offset: 90444},
+															pos: position{line: 2858, col: 13, offset: 90515},
 															expr: &litMatcher{
-																pos:        position{line: 2855, col: 13, offset: 90444},
+																pos:        position{line: 2858, col: 13, offset: 90515},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2855, col: 18, offset: 90449},
+															pos: position{line: 2858, col: 18, offset: 90520},
 															expr: &charClassMatcher{
-																pos:        position{line: 2855, col: 18, offset: 90449},
+																pos:        position{line: 2858, col: 18, offset: 90520},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3736,9 +3736,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2882, col: 8, offset: 90964},
+							pos: position{line: 2885, col: 8, offset: 91035},
 							expr: &anyMatcher{
-								line: 2882, col: 9, offset: 90965,
+								line: 2885, col: 9, offset: 91036,
 							},
 						},
 					},
@@ -4063,9 +4063,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2882, col: 8, offset: 90964},
+							pos: position{line: 2885, col: 8, offset: 91035},
 							expr: &anyMatcher{
-								line: 2882, col: 9, offset: 90965,
+								line: 2885, col: 9, offset: 91036,
 							},
 						},
 					},
@@ -4189,28 +4189,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2885, col: 8, offset: 91014},
+							pos: position{line: 2888, col: 8, offset: 91085},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2872, col: 12, offset: 90787},
+									pos: position{line: 2875, col: 12, offset: 90858},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2872, col: 13, offset: 90788},
+										pos: position{line: 2875, col: 13, offset: 90859},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2872, col: 13, offset: 90788},
+												pos:        position{line: 2875, col: 13, offset: 90859},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2872, col: 20, offset: 90795},
+												pos:        position{line: 2875, col: 20, offset: 90866},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2872, col: 29, offset: 90804},
+												pos:        position{line: 2875, col: 29, offset: 90875},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4219,9 +4219,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2882, col: 8, offset: 90964},
+									pos: position{line: 2885, col: 8, offset: 91035},
 									expr: &anyMatcher{
-										line: 2882, col: 9, offset: 90965,
+										line: 2885, col: 9, offset: 91036,
 									},
 								},
 							},
@@ -4240,9 +4240,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2880, col: 11, offset: 90950},
+							pos: position{line: 2883, col: 11, offset: 91021},
 							expr: &anyMatcher{
-								line: 2880, col: 13, offset: 90952,
+								line: 2883, col: 13, offset: 91023,
 							},
 						},
 						&labeledExpr{
@@ -4337,10 +4337,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 360, col: 49, offset: 10940},
 														expr: &actionExpr{
-															pos: position{line: 2863, col: 10, offset: 90616},
+															pos: position{line: 2866, col: 10, offset: 90687},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2863, col: 10, offset: 90616},
+																pos:        position{line: 2866, col: 10, offset: 90687},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4349,28 +4349,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2885, col: 8, offset: 91014},
+														pos: position{line: 2888, col: 8, offset: 91085},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2872, col: 12, offset: 90787},
+																pos: position{line: 2875, col: 12, offset: 90858},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2872, col: 13, offset: 90788},
+																	pos: position{line: 2875, col: 13, offset: 90859},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2872, col: 13, offset: 90788},
+																			pos:        position{line: 2875, col: 13, offset: 90859},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2872, col: 20, offset: 90795},
+																			pos:        position{line: 2875, col: 20, offset: 90866},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2872, col: 29, offset: 90804},
+																			pos:        position{line: 2875, col: 29, offset: 90875},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4379,9 +4379,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2882, col: 8, offset: 90964},
+																pos: position{line: 2885, col: 8, offset: 91035},
 																expr: &anyMatcher{
-																	line: 2882, col: 9, offset: 90965,
+																	line: 2885, col: 9, offset: 91036,
 																},
 															},
 														},
@@ -4442,10 +4442,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 39, offset: 11061},
 														expr: &actionExpr{
-															pos: position{line: 2863, col: 10, offset: 90616},
+															pos: position{line: 2866, col: 10, offset: 90687},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2863, col: 10, offset: 90616},
+																pos:        position{line: 2866, col: 10, offset: 90687},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4454,28 +4454,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2885, col: 8, offset: 91014},
+														pos: position{line: 2888, col: 8, offset: 91085},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2872, col: 12, offset: 90787},
+																pos: position{line: 2875, col: 12, offset: 90858},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2872, col: 13, offset: 90788},
+																	pos: position{line: 2875, col: 13, offset: 90859},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2872, col: 13, offset: 90788},
+																			pos:        position{line: 2875, col: 13, offset: 90859},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2872, col: 20, offset: 90795},
+																			pos:        position{line: 2875, col: 20, offset: 90866},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2872, col: 29, offset: 90804},
+																			pos:        position{line: 2875, col: 29, offset: 90875},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4484,9 +4484,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2882, col: 8, offset: 90964},
+																pos: position{line: 2885, col: 8, offset: 91035},
 																expr: &anyMatcher{
-																	line: 2882, col: 9, offset: 90965,
+																	line: 2885, col: 9, offset: 91036,
 																},
 															},
 														},
@@ -4501,18 +4501,18 @@ var g = &grammar{
 												pos: position{line: 677, col: 14, offset: 21557},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2880, col: 11, offset: 90950},
+														pos: position{line: 2883, col: 11, offset: 91021},
 														expr: &anyMatcher{
-															line: 2880, col: 13, offset: 90952,
+															line: 2883, col: 13, offset: 91023,
 														},
 													},
 													&zeroOrMoreExpr{
 														pos: position{line: 677, col: 21, offset: 21564},
 														expr: &actionExpr{
-															pos: position{line: 2863, col: 10, offset: 90616},
+															pos: position{line: 2866, col: 10, offset: 90687},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2863, col: 10, offset: 90616},
+																pos:        position{line: 2866, col: 10, offset: 90687},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4521,28 +4521,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2885, col: 8, offset: 91014},
+														pos: position{line: 2888, col: 8, offset: 91085},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2872, col: 12, offset: 90787},
+																pos: position{line: 2875, col: 12, offset: 90858},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2872, col: 13, offset: 90788},
+																	pos: position{line: 2875, col: 13, offset: 90859},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2872, col: 13, offset: 90788},
+																			pos:        position{line: 2875, col: 13, offset: 90859},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2872, col: 20, offset: 90795},
+																			pos:        position{line: 2875, col: 20, offset: 90866},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2872, col: 29, offset: 90804},
+																			pos:        position{line: 2875, col: 29, offset: 90875},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4551,9 +4551,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2882, col: 8, offset: 90964},
+																pos: position{line: 2885, col: 8, offset: 91035},
 																expr: &anyMatcher{
-																	line: 2882, col: 9, offset: 90965,
+																	line: 2885, col: 9, offset: 91036,
 																},
 															},
 														},
@@ -4612,10 +4612,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 742, col: 8, offset: 23754},
 																	expr: &actionExpr{
-																		pos: position{line: 2863, col: 10, offset: 90616},
+																		pos: position{line: 2866, col: 10, offset: 90687},
 																		run: (*parser).callonDocumentFragment86,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2863, col: 10, offset: 90616},
+																			pos:        position{line: 2866, col: 10, offset: 90687},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -4624,28 +4624,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2885, col: 8, offset: 91014},
+																	pos: position{line: 2888, col: 8, offset: 91085},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2872, col: 12, offset: 90787},
+																			pos: position{line: 2875, col: 12, offset: 90858},
 																			run: (*parser).callonDocumentFragment89,
 																			expr: &choiceExpr{
-																				pos: position{line: 2872, col: 13, offset: 90788},
+																				pos: position{line: 2875, col: 13, offset: 90859},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 13, offset: 90788},
+																						pos:        position{line: 2875, col: 13, offset: 90859},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 20, offset: 90795},
+																						pos:        position{line: 2875, col: 20, offset: 90866},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 29, offset: 90804},
+																						pos:        position{line: 2875, col: 29, offset: 90875},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -4654,9 +4654,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2882, col: 8, offset: 90964},
+																			pos: position{line: 2885, col: 8, offset: 91035},
 																			expr: &anyMatcher{
-																				line: 2882, col: 9, offset: 90965,
+																				line: 2885, col: 9, offset: 91036,
 																			},
 																		},
 																	},
@@ -4717,10 +4717,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 742, col: 8, offset: 23754},
 																									expr: &actionExpr{
-																										pos: position{line: 2863, col: 10, offset: 90616},
+																										pos: position{line: 2866, col: 10, offset: 90687},
 																										run: (*parser).callonDocumentFragment111,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2863, col: 10, offset: 90616},
+																											pos:        position{line: 2866, col: 10, offset: 90687},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -4729,28 +4729,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2885, col: 8, offset: 91014},
+																									pos: position{line: 2888, col: 8, offset: 91085},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2872, col: 12, offset: 90787},
+																											pos: position{line: 2875, col: 12, offset: 90858},
 																											run: (*parser).callonDocumentFragment114,
 																											expr: &choiceExpr{
-																												pos: position{line: 2872, col: 13, offset: 90788},
+																												pos: position{line: 2875, col: 13, offset: 90859},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2872, col: 13, offset: 90788},
+																														pos:        position{line: 2875, col: 13, offset: 90859},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2872, col: 20, offset: 90795},
+																														pos:        position{line: 2875, col: 20, offset: 90866},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2872, col: 29, offset: 90804},
+																														pos:        position{line: 2875, col: 29, offset: 90875},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -4759,9 +4759,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2882, col: 8, offset: 90964},
+																											pos: position{line: 2885, col: 8, offset: 91035},
 																											expr: &anyMatcher{
-																												line: 2882, col: 9, offset: 90965,
+																												line: 2885, col: 9, offset: 91036,
 																											},
 																										},
 																									},
@@ -4770,9 +4770,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2882, col: 8, offset: 90964},
+																						pos: position{line: 2885, col: 8, offset: 91035},
 																						expr: &anyMatcher{
-																							line: 2882, col: 9, offset: 90965,
+																							line: 2885, col: 9, offset: 91036,
 																						},
 																					},
 																				},
@@ -4788,21 +4788,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26161},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2880, col: 11, offset: 90950},
+																							pos: position{line: 2883, col: 11, offset: 91021},
 																							expr: &anyMatcher{
-																								line: 2880, col: 13, offset: 90952,
+																								line: 2883, col: 13, offset: 91023,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26236},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2809, col: 13, offset: 89142},
+																								pos: position{line: 2812, col: 13, offset: 89213},
 																								run: (*parser).callonDocumentFragment129,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2809, col: 13, offset: 89142},
+																									pos: position{line: 2812, col: 13, offset: 89213},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2809, col: 13, offset: 89142},
+																										pos:        position{line: 2812, col: 13, offset: 89213},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4812,28 +4812,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2885, col: 8, offset: 91014},
+																							pos: position{line: 2888, col: 8, offset: 91085},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2872, col: 12, offset: 90787},
+																									pos: position{line: 2875, col: 12, offset: 90858},
 																									run: (*parser).callonDocumentFragment133,
 																									expr: &choiceExpr{
-																										pos: position{line: 2872, col: 13, offset: 90788},
+																										pos: position{line: 2875, col: 13, offset: 90859},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 13, offset: 90788},
+																												pos:        position{line: 2875, col: 13, offset: 90859},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 20, offset: 90795},
+																												pos:        position{line: 2875, col: 20, offset: 90866},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 29, offset: 90804},
+																												pos:        position{line: 2875, col: 29, offset: 90875},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4842,9 +4842,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2882, col: 8, offset: 90964},
+																									pos: position{line: 2885, col: 8, offset: 91035},
 																									expr: &anyMatcher{
-																										line: 2882, col: 9, offset: 90965,
+																										line: 2885, col: 9, offset: 91036,
 																									},
 																								},
 																							},
@@ -4900,10 +4900,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 742, col: 8, offset: 23754},
 																				expr: &actionExpr{
-																					pos: position{line: 2863, col: 10, offset: 90616},
+																					pos: position{line: 2866, col: 10, offset: 90687},
 																					run: (*parser).callonDocumentFragment151,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2863, col: 10, offset: 90616},
+																						pos:        position{line: 2866, col: 10, offset: 90687},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -4912,28 +4912,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2885, col: 8, offset: 91014},
+																				pos: position{line: 2888, col: 8, offset: 91085},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2872, col: 12, offset: 90787},
+																						pos: position{line: 2875, col: 12, offset: 90858},
 																						run: (*parser).callonDocumentFragment154,
 																						expr: &choiceExpr{
-																							pos: position{line: 2872, col: 13, offset: 90788},
+																							pos: position{line: 2875, col: 13, offset: 90859},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2872, col: 13, offset: 90788},
+																									pos:        position{line: 2875, col: 13, offset: 90859},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2872, col: 20, offset: 90795},
+																									pos:        position{line: 2875, col: 20, offset: 90866},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2872, col: 29, offset: 90804},
+																									pos:        position{line: 2875, col: 29, offset: 90875},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -4942,9 +4942,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2882, col: 8, offset: 90964},
+																						pos: position{line: 2885, col: 8, offset: 91035},
 																						expr: &anyMatcher{
-																							line: 2882, col: 9, offset: 90965,
+																							line: 2885, col: 9, offset: 91036,
 																						},
 																					},
 																				},
@@ -4953,9 +4953,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2882, col: 8, offset: 90964},
+																	pos: position{line: 2885, col: 8, offset: 91035},
 																	expr: &anyMatcher{
-																		line: 2882, col: 9, offset: 90965,
+																		line: 2885, col: 9, offset: 91036,
 																	},
 																},
 															},
@@ -5010,10 +5010,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 749, col: 8, offset: 24002},
 																		expr: &actionExpr{
-																			pos: position{line: 2863, col: 10, offset: 90616},
+																			pos: position{line: 2866, col: 10, offset: 90687},
 																			run: (*parser).callonDocumentFragment175,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2863, col: 10, offset: 90616},
+																				pos:        position{line: 2866, col: 10, offset: 90687},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5022,28 +5022,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2885, col: 8, offset: 91014},
+																		pos: position{line: 2888, col: 8, offset: 91085},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2872, col: 12, offset: 90787},
+																				pos: position{line: 2875, col: 12, offset: 90858},
 																				run: (*parser).callonDocumentFragment178,
 																				expr: &choiceExpr{
-																					pos: position{line: 2872, col: 13, offset: 90788},
+																					pos: position{line: 2875, col: 13, offset: 90859},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 13, offset: 90788},
+																							pos:        position{line: 2875, col: 13, offset: 90859},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 20, offset: 90795},
+																							pos:        position{line: 2875, col: 20, offset: 90866},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 29, offset: 90804},
+																							pos:        position{line: 2875, col: 29, offset: 90875},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5052,9 +5052,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2882, col: 8, offset: 90964},
+																				pos: position{line: 2885, col: 8, offset: 91035},
 																				expr: &anyMatcher{
-																					line: 2882, col: 9, offset: 90965,
+																					line: 2885, col: 9, offset: 91036,
 																				},
 																			},
 																		},
@@ -5126,10 +5126,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 749, col: 8, offset: 24002},
 																												expr: &actionExpr{
-																													pos: position{line: 2863, col: 10, offset: 90616},
+																													pos: position{line: 2866, col: 10, offset: 90687},
 																													run: (*parser).callonDocumentFragment203,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2863, col: 10, offset: 90616},
+																														pos:        position{line: 2866, col: 10, offset: 90687},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5138,28 +5138,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2885, col: 8, offset: 91014},
+																												pos: position{line: 2888, col: 8, offset: 91085},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2872, col: 12, offset: 90787},
+																														pos: position{line: 2875, col: 12, offset: 90858},
 																														run: (*parser).callonDocumentFragment206,
 																														expr: &choiceExpr{
-																															pos: position{line: 2872, col: 13, offset: 90788},
+																															pos: position{line: 2875, col: 13, offset: 90859},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2872, col: 13, offset: 90788},
+																																	pos:        position{line: 2875, col: 13, offset: 90859},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2872, col: 20, offset: 90795},
+																																	pos:        position{line: 2875, col: 20, offset: 90866},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2872, col: 29, offset: 90804},
+																																	pos:        position{line: 2875, col: 29, offset: 90875},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5168,9 +5168,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2882, col: 8, offset: 90964},
+																														pos: position{line: 2885, col: 8, offset: 91035},
 																														expr: &anyMatcher{
-																															line: 2882, col: 9, offset: 90965,
+																															line: 2885, col: 9, offset: 91036,
 																														},
 																													},
 																												},
@@ -5186,9 +5186,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2882, col: 8, offset: 90964},
+																						pos: position{line: 2885, col: 8, offset: 91035},
 																						expr: &anyMatcher{
-																							line: 2882, col: 9, offset: 90965,
+																							line: 2885, col: 9, offset: 91036,
 																						},
 																					},
 																				},
@@ -5204,21 +5204,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26161},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2880, col: 11, offset: 90950},
+																							pos: position{line: 2883, col: 11, offset: 91021},
 																							expr: &anyMatcher{
-																								line: 2880, col: 13, offset: 90952,
+																								line: 2883, col: 13, offset: 91023,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26236},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2809, col: 13, offset: 89142},
+																								pos: position{line: 2812, col: 13, offset: 89213},
 																								run: (*parser).callonDocumentFragment222,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2809, col: 13, offset: 89142},
+																									pos: position{line: 2812, col: 13, offset: 89213},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2809, col: 13, offset: 89142},
+																										pos:        position{line: 2812, col: 13, offset: 89213},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5228,28 +5228,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2885, col: 8, offset: 91014},
+																							pos: position{line: 2888, col: 8, offset: 91085},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2872, col: 12, offset: 90787},
+																									pos: position{line: 2875, col: 12, offset: 90858},
 																									run: (*parser).callonDocumentFragment226,
 																									expr: &choiceExpr{
-																										pos: position{line: 2872, col: 13, offset: 90788},
+																										pos: position{line: 2875, col: 13, offset: 90859},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 13, offset: 90788},
+																												pos:        position{line: 2875, col: 13, offset: 90859},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 20, offset: 90795},
+																												pos:        position{line: 2875, col: 20, offset: 90866},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 29, offset: 90804},
+																												pos:        position{line: 2875, col: 29, offset: 90875},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5258,9 +5258,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2882, col: 8, offset: 90964},
+																									pos: position{line: 2885, col: 8, offset: 91035},
 																									expr: &anyMatcher{
-																										line: 2882, col: 9, offset: 90965,
+																										line: 2885, col: 9, offset: 91036,
 																									},
 																								},
 																							},
@@ -5325,10 +5325,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 749, col: 8, offset: 24002},
 																								expr: &actionExpr{
-																									pos: position{line: 2863, col: 10, offset: 90616},
+																									pos: position{line: 2866, col: 10, offset: 90687},
 																									run: (*parser).callonDocumentFragment247,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2863, col: 10, offset: 90616},
+																										pos:        position{line: 2866, col: 10, offset: 90687},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5337,28 +5337,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2885, col: 8, offset: 91014},
+																								pos: position{line: 2888, col: 8, offset: 91085},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2872, col: 12, offset: 90787},
+																										pos: position{line: 2875, col: 12, offset: 90858},
 																										run: (*parser).callonDocumentFragment250,
 																										expr: &choiceExpr{
-																											pos: position{line: 2872, col: 13, offset: 90788},
+																											pos: position{line: 2875, col: 13, offset: 90859},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2872, col: 13, offset: 90788},
+																													pos:        position{line: 2875, col: 13, offset: 90859},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2872, col: 20, offset: 90795},
+																													pos:        position{line: 2875, col: 20, offset: 90866},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2872, col: 29, offset: 90804},
+																													pos:        position{line: 2875, col: 29, offset: 90875},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5367,9 +5367,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2882, col: 8, offset: 90964},
+																										pos: position{line: 2885, col: 8, offset: 91035},
 																										expr: &anyMatcher{
-																											line: 2882, col: 9, offset: 90965,
+																											line: 2885, col: 9, offset: 91036,
 																										},
 																									},
 																								},
@@ -5385,9 +5385,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2882, col: 8, offset: 90964},
+																		pos: position{line: 2885, col: 8, offset: 91035},
 																		expr: &anyMatcher{
-																			line: 2882, col: 9, offset: 90965,
+																			line: 2885, col: 9, offset: 91036,
 																		},
 																	},
 																},
@@ -5439,10 +5439,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 760, col: 52, offset: 24414},
 																		expr: &actionExpr{
-																			pos: position{line: 2863, col: 10, offset: 90616},
+																			pos: position{line: 2866, col: 10, offset: 90687},
 																			run: (*parser).callonDocumentFragment271,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2863, col: 10, offset: 90616},
+																				pos:        position{line: 2866, col: 10, offset: 90687},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5451,28 +5451,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2885, col: 8, offset: 91014},
+																		pos: position{line: 2888, col: 8, offset: 91085},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2872, col: 12, offset: 90787},
+																				pos: position{line: 2875, col: 12, offset: 90858},
 																				run: (*parser).callonDocumentFragment274,
 																				expr: &choiceExpr{
-																					pos: position{line: 2872, col: 13, offset: 90788},
+																					pos: position{line: 2875, col: 13, offset: 90859},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 13, offset: 90788},
+																							pos:        position{line: 2875, col: 13, offset: 90859},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 20, offset: 90795},
+																							pos:        position{line: 2875, col: 20, offset: 90866},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 29, offset: 90804},
+																							pos:        position{line: 2875, col: 29, offset: 90875},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5481,9 +5481,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2882, col: 8, offset: 90964},
+																				pos: position{line: 2885, col: 8, offset: 91035},
 																				expr: &anyMatcher{
-																					line: 2882, col: 9, offset: 90965,
+																					line: 2885, col: 9, offset: 91036,
 																				},
 																			},
 																		},
@@ -5517,10 +5517,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 963, col: 40, offset: 30222},
 																						expr: &actionExpr{
-																							pos: position{line: 2863, col: 10, offset: 90616},
+																							pos: position{line: 2866, col: 10, offset: 90687},
 																							run: (*parser).callonDocumentFragment289,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2863, col: 10, offset: 90616},
+																								pos:        position{line: 2866, col: 10, offset: 90687},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5529,28 +5529,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2885, col: 8, offset: 91014},
+																						pos: position{line: 2888, col: 8, offset: 91085},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2872, col: 12, offset: 90787},
+																								pos: position{line: 2875, col: 12, offset: 90858},
 																								run: (*parser).callonDocumentFragment292,
 																								expr: &choiceExpr{
-																									pos: position{line: 2872, col: 13, offset: 90788},
+																									pos: position{line: 2875, col: 13, offset: 90859},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 13, offset: 90788},
+																											pos:        position{line: 2875, col: 13, offset: 90859},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 20, offset: 90795},
+																											pos:        position{line: 2875, col: 20, offset: 90866},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 29, offset: 90804},
+																											pos:        position{line: 2875, col: 29, offset: 90875},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5559,9 +5559,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2882, col: 8, offset: 90964},
+																								pos: position{line: 2885, col: 8, offset: 91035},
 																								expr: &anyMatcher{
-																									line: 2882, col: 9, offset: 90965,
+																									line: 2885, col: 9, offset: 91036,
 																								},
 																							},
 																						},
@@ -5579,21 +5579,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26161},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2880, col: 11, offset: 90950},
+																							pos: position{line: 2883, col: 11, offset: 91021},
 																							expr: &anyMatcher{
-																								line: 2880, col: 13, offset: 90952,
+																								line: 2883, col: 13, offset: 91023,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26236},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2809, col: 13, offset: 89142},
+																								pos: position{line: 2812, col: 13, offset: 89213},
 																								run: (*parser).callonDocumentFragment305,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2809, col: 13, offset: 89142},
+																									pos: position{line: 2812, col: 13, offset: 89213},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2809, col: 13, offset: 89142},
+																										pos:        position{line: 2812, col: 13, offset: 89213},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5603,28 +5603,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2885, col: 8, offset: 91014},
+																							pos: position{line: 2888, col: 8, offset: 91085},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2872, col: 12, offset: 90787},
+																									pos: position{line: 2875, col: 12, offset: 90858},
 																									run: (*parser).callonDocumentFragment309,
 																									expr: &choiceExpr{
-																										pos: position{line: 2872, col: 13, offset: 90788},
+																										pos: position{line: 2875, col: 13, offset: 90859},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 13, offset: 90788},
+																												pos:        position{line: 2875, col: 13, offset: 90859},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 20, offset: 90795},
+																												pos:        position{line: 2875, col: 20, offset: 90866},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 29, offset: 90804},
+																												pos:        position{line: 2875, col: 29, offset: 90875},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5633,9 +5633,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2882, col: 8, offset: 90964},
+																									pos: position{line: 2885, col: 8, offset: 91035},
 																									expr: &anyMatcher{
-																										line: 2882, col: 9, offset: 90965,
+																										line: 2885, col: 9, offset: 91036,
 																									},
 																								},
 																							},
@@ -5663,10 +5663,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 963, col: 40, offset: 30222},
 																	expr: &actionExpr{
-																		pos: position{line: 2863, col: 10, offset: 90616},
+																		pos: position{line: 2866, col: 10, offset: 90687},
 																		run: (*parser).callonDocumentFragment320,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2863, col: 10, offset: 90616},
+																			pos:        position{line: 2866, col: 10, offset: 90687},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5675,28 +5675,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2885, col: 8, offset: 91014},
+																	pos: position{line: 2888, col: 8, offset: 91085},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2872, col: 12, offset: 90787},
+																			pos: position{line: 2875, col: 12, offset: 90858},
 																			run: (*parser).callonDocumentFragment323,
 																			expr: &choiceExpr{
-																				pos: position{line: 2872, col: 13, offset: 90788},
+																				pos: position{line: 2875, col: 13, offset: 90859},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 13, offset: 90788},
+																						pos:        position{line: 2875, col: 13, offset: 90859},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 20, offset: 90795},
+																						pos:        position{line: 2875, col: 20, offset: 90866},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 29, offset: 90804},
+																						pos:        position{line: 2875, col: 29, offset: 90875},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5705,9 +5705,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2882, col: 8, offset: 90964},
+																			pos: position{line: 2885, col: 8, offset: 91035},
 																			expr: &anyMatcher{
-																				line: 2882, col: 9, offset: 90965,
+																				line: 2885, col: 9, offset: 91036,
 																			},
 																		},
 																	},
@@ -5764,10 +5764,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 756, col: 8, offset: 24248},
 																		expr: &actionExpr{
-																			pos: position{line: 2863, col: 10, offset: 90616},
+																			pos: position{line: 2866, col: 10, offset: 90687},
 																			run: (*parser).callonDocumentFragment342,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2863, col: 10, offset: 90616},
+																				pos:        position{line: 2866, col: 10, offset: 90687},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5776,28 +5776,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2885, col: 8, offset: 91014},
+																		pos: position{line: 2888, col: 8, offset: 91085},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2872, col: 12, offset: 90787},
+																				pos: position{line: 2875, col: 12, offset: 90858},
 																				run: (*parser).callonDocumentFragment345,
 																				expr: &choiceExpr{
-																					pos: position{line: 2872, col: 13, offset: 90788},
+																					pos: position{line: 2875, col: 13, offset: 90859},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 13, offset: 90788},
+																							pos:        position{line: 2875, col: 13, offset: 90859},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 20, offset: 90795},
+																							pos:        position{line: 2875, col: 20, offset: 90866},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 29, offset: 90804},
+																							pos:        position{line: 2875, col: 29, offset: 90875},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5806,9 +5806,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2882, col: 8, offset: 90964},
+																				pos: position{line: 2885, col: 8, offset: 91035},
 																				expr: &anyMatcher{
-																					line: 2882, col: 9, offset: 90965,
+																					line: 2885, col: 9, offset: 91036,
 																				},
 																			},
 																		},
@@ -5880,10 +5880,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 756, col: 8, offset: 24248},
 																												expr: &actionExpr{
-																													pos: position{line: 2863, col: 10, offset: 90616},
+																													pos: position{line: 2866, col: 10, offset: 90687},
 																													run: (*parser).callonDocumentFragment370,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2863, col: 10, offset: 90616},
+																														pos:        position{line: 2866, col: 10, offset: 90687},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5892,28 +5892,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2885, col: 8, offset: 91014},
+																												pos: position{line: 2888, col: 8, offset: 91085},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2872, col: 12, offset: 90787},
+																														pos: position{line: 2875, col: 12, offset: 90858},
 																														run: (*parser).callonDocumentFragment373,
 																														expr: &choiceExpr{
-																															pos: position{line: 2872, col: 13, offset: 90788},
+																															pos: position{line: 2875, col: 13, offset: 90859},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2872, col: 13, offset: 90788},
+																																	pos:        position{line: 2875, col: 13, offset: 90859},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2872, col: 20, offset: 90795},
+																																	pos:        position{line: 2875, col: 20, offset: 90866},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2872, col: 29, offset: 90804},
+																																	pos:        position{line: 2875, col: 29, offset: 90875},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5922,9 +5922,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2882, col: 8, offset: 90964},
+																														pos: position{line: 2885, col: 8, offset: 91035},
 																														expr: &anyMatcher{
-																															line: 2882, col: 9, offset: 90965,
+																															line: 2885, col: 9, offset: 91036,
 																														},
 																													},
 																												},
@@ -5940,9 +5940,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2882, col: 8, offset: 90964},
+																						pos: position{line: 2885, col: 8, offset: 91035},
 																						expr: &anyMatcher{
-																							line: 2882, col: 9, offset: 90965,
+																							line: 2885, col: 9, offset: 91036,
 																						},
 																					},
 																				},
@@ -5958,21 +5958,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26161},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2880, col: 11, offset: 90950},
+																							pos: position{line: 2883, col: 11, offset: 91021},
 																							expr: &anyMatcher{
-																								line: 2880, col: 13, offset: 90952,
+																								line: 2883, col: 13, offset: 91023,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26236},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2809, col: 13, offset: 89142},
+																								pos: position{line: 2812, col: 13, offset: 89213},
 																								run: (*parser).callonDocumentFragment389,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2809, col: 13, offset: 89142},
+																									pos: position{line: 2812, col: 13, offset: 89213},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2809, col: 13, offset: 89142},
+																										pos:        position{line: 2812, col: 13, offset: 89213},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5982,28 +5982,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2885, col: 8, offset: 91014},
+																							pos: position{line: 2888, col: 8, offset: 91085},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2872, col: 12, offset: 90787},
+																									pos: position{line: 2875, col: 12, offset: 90858},
 																									run: (*parser).callonDocumentFragment393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2872, col: 13, offset: 90788},
+																										pos: position{line: 2875, col: 13, offset: 90859},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 13, offset: 90788},
+																												pos:        position{line: 2875, col: 13, offset: 90859},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 20, offset: 90795},
+																												pos:        position{line: 2875, col: 20, offset: 90866},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 29, offset: 90804},
+																												pos:        position{line: 2875, col: 29, offset: 90875},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6012,9 +6012,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2882, col: 8, offset: 90964},
+																									pos: position{line: 2885, col: 8, offset: 91035},
 																									expr: &anyMatcher{
-																										line: 2882, col: 9, offset: 90965,
+																										line: 2885, col: 9, offset: 91036,
 																									},
 																								},
 																							},
@@ -6079,10 +6079,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 756, col: 8, offset: 24248},
 																								expr: &actionExpr{
-																									pos: position{line: 2863, col: 10, offset: 90616},
+																									pos: position{line: 2866, col: 10, offset: 90687},
 																									run: (*parser).callonDocumentFragment414,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2863, col: 10, offset: 90616},
+																										pos:        position{line: 2866, col: 10, offset: 90687},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6091,28 +6091,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2885, col: 8, offset: 91014},
+																								pos: position{line: 2888, col: 8, offset: 91085},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2872, col: 12, offset: 90787},
+																										pos: position{line: 2875, col: 12, offset: 90858},
 																										run: (*parser).callonDocumentFragment417,
 																										expr: &choiceExpr{
-																											pos: position{line: 2872, col: 13, offset: 90788},
+																											pos: position{line: 2875, col: 13, offset: 90859},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2872, col: 13, offset: 90788},
+																													pos:        position{line: 2875, col: 13, offset: 90859},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2872, col: 20, offset: 90795},
+																													pos:        position{line: 2875, col: 20, offset: 90866},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2872, col: 29, offset: 90804},
+																													pos:        position{line: 2875, col: 29, offset: 90875},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6121,9 +6121,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2882, col: 8, offset: 90964},
+																										pos: position{line: 2885, col: 8, offset: 91035},
 																										expr: &anyMatcher{
-																											line: 2882, col: 9, offset: 90965,
+																											line: 2885, col: 9, offset: 91036,
 																										},
 																									},
 																								},
@@ -6139,9 +6139,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2882, col: 8, offset: 90964},
+																		pos: position{line: 2885, col: 8, offset: 91035},
 																		expr: &anyMatcher{
-																			line: 2882, col: 9, offset: 90965,
+																			line: 2885, col: 9, offset: 91036,
 																		},
 																	},
 																},
@@ -6197,10 +6197,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 771, col: 8, offset: 24791},
 																		expr: &actionExpr{
-																			pos: position{line: 2863, col: 10, offset: 90616},
+																			pos: position{line: 2866, col: 10, offset: 90687},
 																			run: (*parser).callonDocumentFragment439,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2863, col: 10, offset: 90616},
+																				pos:        position{line: 2866, col: 10, offset: 90687},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6209,28 +6209,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2885, col: 8, offset: 91014},
+																		pos: position{line: 2888, col: 8, offset: 91085},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2872, col: 12, offset: 90787},
+																				pos: position{line: 2875, col: 12, offset: 90858},
 																				run: (*parser).callonDocumentFragment442,
 																				expr: &choiceExpr{
-																					pos: position{line: 2872, col: 13, offset: 90788},
+																					pos: position{line: 2875, col: 13, offset: 90859},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 13, offset: 90788},
+																							pos:        position{line: 2875, col: 13, offset: 90859},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 20, offset: 90795},
+																							pos:        position{line: 2875, col: 20, offset: 90866},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 29, offset: 90804},
+																							pos:        position{line: 2875, col: 29, offset: 90875},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6239,9 +6239,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2882, col: 8, offset: 90964},
+																				pos: position{line: 2885, col: 8, offset: 91035},
 																				expr: &anyMatcher{
-																					line: 2882, col: 9, offset: 90965,
+																					line: 2885, col: 9, offset: 91036,
 																				},
 																			},
 																		},
@@ -6313,10 +6313,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 771, col: 8, offset: 24791},
 																												expr: &actionExpr{
-																													pos: position{line: 2863, col: 10, offset: 90616},
+																													pos: position{line: 2866, col: 10, offset: 90687},
 																													run: (*parser).callonDocumentFragment467,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2863, col: 10, offset: 90616},
+																														pos:        position{line: 2866, col: 10, offset: 90687},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6325,28 +6325,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2885, col: 8, offset: 91014},
+																												pos: position{line: 2888, col: 8, offset: 91085},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2872, col: 12, offset: 90787},
+																														pos: position{line: 2875, col: 12, offset: 90858},
 																														run: (*parser).callonDocumentFragment470,
 																														expr: &choiceExpr{
-																															pos: position{line: 2872, col: 13, offset: 90788},
+																															pos: position{line: 2875, col: 13, offset: 90859},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2872, col: 13, offset: 90788},
+																																	pos:        position{line: 2875, col: 13, offset: 90859},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2872, col: 20, offset: 90795},
+																																	pos:        position{line: 2875, col: 20, offset: 90866},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2872, col: 29, offset: 90804},
+																																	pos:        position{line: 2875, col: 29, offset: 90875},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6355,9 +6355,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2882, col: 8, offset: 90964},
+																														pos: position{line: 2885, col: 8, offset: 91035},
 																														expr: &anyMatcher{
-																															line: 2882, col: 9, offset: 90965,
+																															line: 2885, col: 9, offset: 91036,
 																														},
 																													},
 																												},
@@ -6373,9 +6373,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2882, col: 8, offset: 90964},
+																						pos: position{line: 2885, col: 8, offset: 91035},
 																						expr: &anyMatcher{
-																							line: 2882, col: 9, offset: 90965,
+																							line: 2885, col: 9, offset: 91036,
 																						},
 																					},
 																				},
@@ -6391,21 +6391,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26161},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2880, col: 11, offset: 90950},
+																							pos: position{line: 2883, col: 11, offset: 91021},
 																							expr: &anyMatcher{
-																								line: 2880, col: 13, offset: 90952,
+																								line: 2883, col: 13, offset: 91023,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26236},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2809, col: 13, offset: 89142},
+																								pos: position{line: 2812, col: 13, offset: 89213},
 																								run: (*parser).callonDocumentFragment486,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2809, col: 13, offset: 89142},
+																									pos: position{line: 2812, col: 13, offset: 89213},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2809, col: 13, offset: 89142},
+																										pos:        position{line: 2812, col: 13, offset: 89213},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6415,28 +6415,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2885, col: 8, offset: 91014},
+																							pos: position{line: 2888, col: 8, offset: 91085},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2872, col: 12, offset: 90787},
+																									pos: position{line: 2875, col: 12, offset: 90858},
 																									run: (*parser).callonDocumentFragment490,
 																									expr: &choiceExpr{
-																										pos: position{line: 2872, col: 13, offset: 90788},
+																										pos: position{line: 2875, col: 13, offset: 90859},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 13, offset: 90788},
+																												pos:        position{line: 2875, col: 13, offset: 90859},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 20, offset: 90795},
+																												pos:        position{line: 2875, col: 20, offset: 90866},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 29, offset: 90804},
+																												pos:        position{line: 2875, col: 29, offset: 90875},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6445,9 +6445,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2882, col: 8, offset: 90964},
+																									pos: position{line: 2885, col: 8, offset: 91035},
 																									expr: &anyMatcher{
-																										line: 2882, col: 9, offset: 90965,
+																										line: 2885, col: 9, offset: 91036,
 																									},
 																								},
 																							},
@@ -6512,10 +6512,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 771, col: 8, offset: 24791},
 																								expr: &actionExpr{
-																									pos: position{line: 2863, col: 10, offset: 90616},
+																									pos: position{line: 2866, col: 10, offset: 90687},
 																									run: (*parser).callonDocumentFragment511,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2863, col: 10, offset: 90616},
+																										pos:        position{line: 2866, col: 10, offset: 90687},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6524,28 +6524,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2885, col: 8, offset: 91014},
+																								pos: position{line: 2888, col: 8, offset: 91085},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2872, col: 12, offset: 90787},
+																										pos: position{line: 2875, col: 12, offset: 90858},
 																										run: (*parser).callonDocumentFragment514,
 																										expr: &choiceExpr{
-																											pos: position{line: 2872, col: 13, offset: 90788},
+																											pos: position{line: 2875, col: 13, offset: 90859},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2872, col: 13, offset: 90788},
+																													pos:        position{line: 2875, col: 13, offset: 90859},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2872, col: 20, offset: 90795},
+																													pos:        position{line: 2875, col: 20, offset: 90866},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2872, col: 29, offset: 90804},
+																													pos:        position{line: 2875, col: 29, offset: 90875},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6554,9 +6554,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2882, col: 8, offset: 90964},
+																										pos: position{line: 2885, col: 8, offset: 91035},
 																										expr: &anyMatcher{
-																											line: 2882, col: 9, offset: 90965,
+																											line: 2885, col: 9, offset: 91036,
 																										},
 																									},
 																								},
@@ -6572,9 +6572,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2882, col: 8, offset: 90964},
+																		pos: position{line: 2885, col: 8, offset: 91035},
 																		expr: &anyMatcher{
-																			line: 2882, col: 9, offset: 90965,
+																			line: 2885, col: 9, offset: 91036,
 																		},
 																	},
 																},
@@ -6630,10 +6630,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 785, col: 8, offset: 25267},
 																		expr: &actionExpr{
-																			pos: position{line: 2863, col: 10, offset: 90616},
+																			pos: position{line: 2866, col: 10, offset: 90687},
 																			run: (*parser).callonDocumentFragment536,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2863, col: 10, offset: 90616},
+																				pos:        position{line: 2866, col: 10, offset: 90687},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6642,28 +6642,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2885, col: 8, offset: 91014},
+																		pos: position{line: 2888, col: 8, offset: 91085},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2872, col: 12, offset: 90787},
+																				pos: position{line: 2875, col: 12, offset: 90858},
 																				run: (*parser).callonDocumentFragment539,
 																				expr: &choiceExpr{
-																					pos: position{line: 2872, col: 13, offset: 90788},
+																					pos: position{line: 2875, col: 13, offset: 90859},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 13, offset: 90788},
+																							pos:        position{line: 2875, col: 13, offset: 90859},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 20, offset: 90795},
+																							pos:        position{line: 2875, col: 20, offset: 90866},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 29, offset: 90804},
+																							pos:        position{line: 2875, col: 29, offset: 90875},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6672,9 +6672,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2882, col: 8, offset: 90964},
+																				pos: position{line: 2885, col: 8, offset: 91035},
 																				expr: &anyMatcher{
-																					line: 2882, col: 9, offset: 90965,
+																					line: 2885, col: 9, offset: 91036,
 																				},
 																			},
 																		},
@@ -6746,10 +6746,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 785, col: 8, offset: 25267},
 																												expr: &actionExpr{
-																													pos: position{line: 2863, col: 10, offset: 90616},
+																													pos: position{line: 2866, col: 10, offset: 90687},
 																													run: (*parser).callonDocumentFragment564,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2863, col: 10, offset: 90616},
+																														pos:        position{line: 2866, col: 10, offset: 90687},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6758,28 +6758,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2885, col: 8, offset: 91014},
+																												pos: position{line: 2888, col: 8, offset: 91085},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2872, col: 12, offset: 90787},
+																														pos: position{line: 2875, col: 12, offset: 90858},
 																														run: (*parser).callonDocumentFragment567,
 																														expr: &choiceExpr{
-																															pos: position{line: 2872, col: 13, offset: 90788},
+																															pos: position{line: 2875, col: 13, offset: 90859},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2872, col: 13, offset: 90788},
+																																	pos:        position{line: 2875, col: 13, offset: 90859},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2872, col: 20, offset: 90795},
+																																	pos:        position{line: 2875, col: 20, offset: 90866},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2872, col: 29, offset: 90804},
+																																	pos:        position{line: 2875, col: 29, offset: 90875},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6788,9 +6788,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2882, col: 8, offset: 90964},
+																														pos: position{line: 2885, col: 8, offset: 91035},
 																														expr: &anyMatcher{
-																															line: 2882, col: 9, offset: 90965,
+																															line: 2885, col: 9, offset: 91036,
 																														},
 																													},
 																												},
@@ -6806,9 +6806,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2882, col: 8, offset: 90964},
+																						pos: position{line: 2885, col: 8, offset: 91035},
 																						expr: &anyMatcher{
-																							line: 2882, col: 9, offset: 90965,
+																							line: 2885, col: 9, offset: 91036,
 																						},
 																					},
 																				},
@@ -6824,21 +6824,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26161},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2880, col: 11, offset: 90950},
+																							pos: position{line: 2883, col: 11, offset: 91021},
 																							expr: &anyMatcher{
-																								line: 2880, col: 13, offset: 90952,
+																								line: 2883, col: 13, offset: 91023,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26236},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2809, col: 13, offset: 89142},
+																								pos: position{line: 2812, col: 13, offset: 89213},
 																								run: (*parser).callonDocumentFragment583,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2809, col: 13, offset: 89142},
+																									pos: position{line: 2812, col: 13, offset: 89213},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2809, col: 13, offset: 89142},
+																										pos:        position{line: 2812, col: 13, offset: 89213},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6848,28 +6848,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2885, col: 8, offset: 91014},
+																							pos: position{line: 2888, col: 8, offset: 91085},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2872, col: 12, offset: 90787},
+																									pos: position{line: 2875, col: 12, offset: 90858},
 																									run: (*parser).callonDocumentFragment587,
 																									expr: &choiceExpr{
-																										pos: position{line: 2872, col: 13, offset: 90788},
+																										pos: position{line: 2875, col: 13, offset: 90859},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 13, offset: 90788},
+																												pos:        position{line: 2875, col: 13, offset: 90859},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 20, offset: 90795},
+																												pos:        position{line: 2875, col: 20, offset: 90866},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 29, offset: 90804},
+																												pos:        position{line: 2875, col: 29, offset: 90875},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6878,9 +6878,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2882, col: 8, offset: 90964},
+																									pos: position{line: 2885, col: 8, offset: 91035},
 																									expr: &anyMatcher{
-																										line: 2882, col: 9, offset: 90965,
+																										line: 2885, col: 9, offset: 91036,
 																									},
 																								},
 																							},
@@ -6945,10 +6945,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 785, col: 8, offset: 25267},
 																								expr: &actionExpr{
-																									pos: position{line: 2863, col: 10, offset: 90616},
+																									pos: position{line: 2866, col: 10, offset: 90687},
 																									run: (*parser).callonDocumentFragment608,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2863, col: 10, offset: 90616},
+																										pos:        position{line: 2866, col: 10, offset: 90687},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6957,28 +6957,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2885, col: 8, offset: 91014},
+																								pos: position{line: 2888, col: 8, offset: 91085},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2872, col: 12, offset: 90787},
+																										pos: position{line: 2875, col: 12, offset: 90858},
 																										run: (*parser).callonDocumentFragment611,
 																										expr: &choiceExpr{
-																											pos: position{line: 2872, col: 13, offset: 90788},
+																											pos: position{line: 2875, col: 13, offset: 90859},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2872, col: 13, offset: 90788},
+																													pos:        position{line: 2875, col: 13, offset: 90859},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2872, col: 20, offset: 90795},
+																													pos:        position{line: 2875, col: 20, offset: 90866},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2872, col: 29, offset: 90804},
+																													pos:        position{line: 2875, col: 29, offset: 90875},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6987,9 +6987,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2882, col: 8, offset: 90964},
+																										pos: position{line: 2885, col: 8, offset: 91035},
 																										expr: &anyMatcher{
-																											line: 2882, col: 9, offset: 90965,
+																											line: 2885, col: 9, offset: 91036,
 																										},
 																									},
 																								},
@@ -7005,9 +7005,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2882, col: 8, offset: 90964},
+																		pos: position{line: 2885, col: 8, offset: 91035},
 																		expr: &anyMatcher{
-																			line: 2882, col: 9, offset: 90965,
+																			line: 2885, col: 9, offset: 91036,
 																		},
 																	},
 																},
@@ -7041,18 +7041,18 @@ var g = &grammar{
 																				pos: position{line: 677, col: 14, offset: 21557},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2880, col: 11, offset: 90950},
+																						pos: position{line: 2883, col: 11, offset: 91021},
 																						expr: &anyMatcher{
-																							line: 2880, col: 13, offset: 90952,
+																							line: 2883, col: 13, offset: 91023,
 																						},
 																					},
 																					&zeroOrMoreExpr{
 																						pos: position{line: 677, col: 21, offset: 21564},
 																						expr: &actionExpr{
-																							pos: position{line: 2863, col: 10, offset: 90616},
+																							pos: position{line: 2866, col: 10, offset: 90687},
 																							run: (*parser).callonDocumentFragment632,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2863, col: 10, offset: 90616},
+																								pos:        position{line: 2866, col: 10, offset: 90687},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -7061,28 +7061,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2885, col: 8, offset: 91014},
+																						pos: position{line: 2888, col: 8, offset: 91085},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2872, col: 12, offset: 90787},
+																								pos: position{line: 2875, col: 12, offset: 90858},
 																								run: (*parser).callonDocumentFragment635,
 																								expr: &choiceExpr{
-																									pos: position{line: 2872, col: 13, offset: 90788},
+																									pos: position{line: 2875, col: 13, offset: 90859},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 13, offset: 90788},
+																											pos:        position{line: 2875, col: 13, offset: 90859},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 20, offset: 90795},
+																											pos:        position{line: 2875, col: 20, offset: 90866},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 29, offset: 90804},
+																											pos:        position{line: 2875, col: 29, offset: 90875},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -7091,9 +7091,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2882, col: 8, offset: 90964},
+																								pos: position{line: 2885, col: 8, offset: 91035},
 																								expr: &anyMatcher{
-																									line: 2882, col: 9, offset: 90965,
+																									line: 2885, col: 9, offset: 91036,
 																								},
 																							},
 																						},
@@ -7112,12 +7112,12 @@ var g = &grammar{
 																		pos:   position{line: 984, col: 5, offset: 30757},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2813, col: 14, offset: 89209},
+																			pos: position{line: 2816, col: 14, offset: 89280},
 																			run: (*parser).callonDocumentFragment644,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2813, col: 14, offset: 89209},
+																				pos: position{line: 2816, col: 14, offset: 89280},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2813, col: 14, offset: 89209},
+																					pos:        position{line: 2816, col: 14, offset: 89280},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -7127,28 +7127,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2885, col: 8, offset: 91014},
+																		pos: position{line: 2888, col: 8, offset: 91085},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2872, col: 12, offset: 90787},
+																				pos: position{line: 2875, col: 12, offset: 90858},
 																				run: (*parser).callonDocumentFragment648,
 																				expr: &choiceExpr{
-																					pos: position{line: 2872, col: 13, offset: 90788},
+																					pos: position{line: 2875, col: 13, offset: 90859},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 13, offset: 90788},
+																							pos:        position{line: 2875, col: 13, offset: 90859},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 20, offset: 90795},
+																							pos:        position{line: 2875, col: 20, offset: 90866},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 29, offset: 90804},
+																							pos:        position{line: 2875, col: 29, offset: 90875},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7157,9 +7157,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2882, col: 8, offset: 90964},
+																				pos: position{line: 2885, col: 8, offset: 91035},
 																				expr: &anyMatcher{
-																					line: 2882, col: 9, offset: 90965,
+																					line: 2885, col: 9, offset: 91036,
 																				},
 																			},
 																		},
@@ -7191,18 +7191,18 @@ var g = &grammar{
 																							pos: position{line: 677, col: 14, offset: 21557},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2880, col: 11, offset: 90950},
+																									pos: position{line: 2883, col: 11, offset: 91021},
 																									expr: &anyMatcher{
-																										line: 2880, col: 13, offset: 90952,
+																										line: 2883, col: 13, offset: 91023,
 																									},
 																								},
 																								&zeroOrMoreExpr{
 																									pos: position{line: 677, col: 21, offset: 21564},
 																									expr: &actionExpr{
-																										pos: position{line: 2863, col: 10, offset: 90616},
+																										pos: position{line: 2866, col: 10, offset: 90687},
 																										run: (*parser).callonDocumentFragment666,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2863, col: 10, offset: 90616},
+																											pos:        position{line: 2866, col: 10, offset: 90687},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7211,28 +7211,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2885, col: 8, offset: 91014},
+																									pos: position{line: 2888, col: 8, offset: 91085},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2872, col: 12, offset: 90787},
+																											pos: position{line: 2875, col: 12, offset: 90858},
 																											run: (*parser).callonDocumentFragment669,
 																											expr: &choiceExpr{
-																												pos: position{line: 2872, col: 13, offset: 90788},
+																												pos: position{line: 2875, col: 13, offset: 90859},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2872, col: 13, offset: 90788},
+																														pos:        position{line: 2875, col: 13, offset: 90859},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2872, col: 20, offset: 90795},
+																														pos:        position{line: 2875, col: 20, offset: 90866},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2872, col: 29, offset: 90804},
+																														pos:        position{line: 2875, col: 29, offset: 90875},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7241,9 +7241,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2882, col: 8, offset: 90964},
+																											pos: position{line: 2885, col: 8, offset: 91035},
 																											expr: &anyMatcher{
-																												line: 2882, col: 9, offset: 90965,
+																												line: 2885, col: 9, offset: 91036,
 																											},
 																										},
 																									},
@@ -7262,12 +7262,12 @@ var g = &grammar{
 																					pos:   position{line: 984, col: 5, offset: 30757},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2813, col: 14, offset: 89209},
+																						pos: position{line: 2816, col: 14, offset: 89280},
 																						run: (*parser).callonDocumentFragment678,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2813, col: 14, offset: 89209},
+																							pos: position{line: 2816, col: 14, offset: 89280},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2813, col: 14, offset: 89209},
+																								pos:        position{line: 2816, col: 14, offset: 89280},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7277,28 +7277,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2885, col: 8, offset: 91014},
+																					pos: position{line: 2888, col: 8, offset: 91085},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2872, col: 12, offset: 90787},
+																							pos: position{line: 2875, col: 12, offset: 90858},
 																							run: (*parser).callonDocumentFragment682,
 																							expr: &choiceExpr{
-																								pos: position{line: 2872, col: 13, offset: 90788},
+																								pos: position{line: 2875, col: 13, offset: 90859},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2872, col: 13, offset: 90788},
+																										pos:        position{line: 2875, col: 13, offset: 90859},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2872, col: 20, offset: 90795},
+																										pos:        position{line: 2875, col: 20, offset: 90866},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2872, col: 29, offset: 90804},
+																										pos:        position{line: 2875, col: 29, offset: 90875},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7307,9 +7307,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2882, col: 8, offset: 90964},
+																							pos: position{line: 2885, col: 8, offset: 91035},
 																							expr: &anyMatcher{
-																								line: 2882, col: 9, offset: 90965,
+																								line: 2885, col: 9, offset: 91036,
 																							},
 																						},
 																					},
@@ -7327,12 +7327,12 @@ var g = &grammar{
 																					pos:   position{line: 1785, col: 5, offset: 57782},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2813, col: 14, offset: 89209},
+																						pos: position{line: 2816, col: 14, offset: 89280},
 																						run: (*parser).callonDocumentFragment692,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2813, col: 14, offset: 89209},
+																							pos: position{line: 2816, col: 14, offset: 89280},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2813, col: 14, offset: 89209},
+																								pos:        position{line: 2816, col: 14, offset: 89280},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7346,28 +7346,28 @@ var g = &grammar{
 																					run: (*parser).callonDocumentFragment695,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2885, col: 8, offset: 91014},
+																					pos: position{line: 2888, col: 8, offset: 91085},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2872, col: 12, offset: 90787},
+																							pos: position{line: 2875, col: 12, offset: 90858},
 																							run: (*parser).callonDocumentFragment697,
 																							expr: &choiceExpr{
-																								pos: position{line: 2872, col: 13, offset: 90788},
+																								pos: position{line: 2875, col: 13, offset: 90859},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2872, col: 13, offset: 90788},
+																										pos:        position{line: 2875, col: 13, offset: 90859},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2872, col: 20, offset: 90795},
+																										pos:        position{line: 2875, col: 20, offset: 90866},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2872, col: 29, offset: 90804},
+																										pos:        position{line: 2875, col: 29, offset: 90875},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7376,9 +7376,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2882, col: 8, offset: 90964},
+																							pos: position{line: 2885, col: 8, offset: 91035},
 																							expr: &anyMatcher{
-																								line: 2882, col: 9, offset: 90965,
+																								line: 2885, col: 9, offset: 91036,
 																							},
 																						},
 																					},
@@ -7425,10 +7425,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 778, col: 8, offset: 25022},
 																		expr: &actionExpr{
-																			pos: position{line: 2863, col: 10, offset: 90616},
+																			pos: position{line: 2866, col: 10, offset: 90687},
 																			run: (*parser).callonDocumentFragment713,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2863, col: 10, offset: 90616},
+																				pos:        position{line: 2866, col: 10, offset: 90687},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7437,28 +7437,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2885, col: 8, offset: 91014},
+																		pos: position{line: 2888, col: 8, offset: 91085},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2872, col: 12, offset: 90787},
+																				pos: position{line: 2875, col: 12, offset: 90858},
 																				run: (*parser).callonDocumentFragment716,
 																				expr: &choiceExpr{
-																					pos: position{line: 2872, col: 13, offset: 90788},
+																					pos: position{line: 2875, col: 13, offset: 90859},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 13, offset: 90788},
+																							pos:        position{line: 2875, col: 13, offset: 90859},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 20, offset: 90795},
+																							pos:        position{line: 2875, col: 20, offset: 90866},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 29, offset: 90804},
+																							pos:        position{line: 2875, col: 29, offset: 90875},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7467,9 +7467,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2882, col: 8, offset: 90964},
+																				pos: position{line: 2885, col: 8, offset: 91035},
 																				expr: &anyMatcher{
-																					line: 2882, col: 9, offset: 90965,
+																					line: 2885, col: 9, offset: 91036,
 																				},
 																			},
 																		},
@@ -7517,10 +7517,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 778, col: 8, offset: 25022},
 																									expr: &actionExpr{
-																										pos: position{line: 2863, col: 10, offset: 90616},
+																										pos: position{line: 2866, col: 10, offset: 90687},
 																										run: (*parser).callonDocumentFragment735,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2863, col: 10, offset: 90616},
+																											pos:        position{line: 2866, col: 10, offset: 90687},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7529,28 +7529,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2885, col: 8, offset: 91014},
+																									pos: position{line: 2888, col: 8, offset: 91085},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2872, col: 12, offset: 90787},
+																											pos: position{line: 2875, col: 12, offset: 90858},
 																											run: (*parser).callonDocumentFragment738,
 																											expr: &choiceExpr{
-																												pos: position{line: 2872, col: 13, offset: 90788},
+																												pos: position{line: 2875, col: 13, offset: 90859},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2872, col: 13, offset: 90788},
+																														pos:        position{line: 2875, col: 13, offset: 90859},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2872, col: 20, offset: 90795},
+																														pos:        position{line: 2875, col: 20, offset: 90866},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2872, col: 29, offset: 90804},
+																														pos:        position{line: 2875, col: 29, offset: 90875},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7559,9 +7559,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2882, col: 8, offset: 90964},
+																											pos: position{line: 2885, col: 8, offset: 91035},
 																											expr: &anyMatcher{
-																												line: 2882, col: 9, offset: 90965,
+																												line: 2885, col: 9, offset: 91036,
 																											},
 																										},
 																									},
@@ -7570,9 +7570,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2882, col: 8, offset: 90964},
+																						pos: position{line: 2885, col: 8, offset: 91035},
 																						expr: &anyMatcher{
-																							line: 2882, col: 9, offset: 90965,
+																							line: 2885, col: 9, offset: 91036,
 																						},
 																					},
 																				},
@@ -7588,21 +7588,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26161},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2880, col: 11, offset: 90950},
+																							pos: position{line: 2883, col: 11, offset: 91021},
 																							expr: &anyMatcher{
-																								line: 2880, col: 13, offset: 90952,
+																								line: 2883, col: 13, offset: 91023,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26236},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2809, col: 13, offset: 89142},
+																								pos: position{line: 2812, col: 13, offset: 89213},
 																								run: (*parser).callonDocumentFragment753,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2809, col: 13, offset: 89142},
+																									pos: position{line: 2812, col: 13, offset: 89213},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2809, col: 13, offset: 89142},
+																										pos:        position{line: 2812, col: 13, offset: 89213},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7612,28 +7612,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2885, col: 8, offset: 91014},
+																							pos: position{line: 2888, col: 8, offset: 91085},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2872, col: 12, offset: 90787},
+																									pos: position{line: 2875, col: 12, offset: 90858},
 																									run: (*parser).callonDocumentFragment757,
 																									expr: &choiceExpr{
-																										pos: position{line: 2872, col: 13, offset: 90788},
+																										pos: position{line: 2875, col: 13, offset: 90859},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 13, offset: 90788},
+																												pos:        position{line: 2875, col: 13, offset: 90859},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 20, offset: 90795},
+																												pos:        position{line: 2875, col: 20, offset: 90866},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 29, offset: 90804},
+																												pos:        position{line: 2875, col: 29, offset: 90875},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7642,9 +7642,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2882, col: 8, offset: 90964},
+																									pos: position{line: 2885, col: 8, offset: 91035},
 																									expr: &anyMatcher{
-																										line: 2882, col: 9, offset: 90965,
+																										line: 2885, col: 9, offset: 91036,
 																									},
 																								},
 																							},
@@ -7689,10 +7689,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 778, col: 8, offset: 25022},
 																					expr: &actionExpr{
-																						pos: position{line: 2863, col: 10, offset: 90616},
+																						pos: position{line: 2866, col: 10, offset: 90687},
 																						run: (*parser).callonDocumentFragment773,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2863, col: 10, offset: 90616},
+																							pos:        position{line: 2866, col: 10, offset: 90687},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7701,28 +7701,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2885, col: 8, offset: 91014},
+																					pos: position{line: 2888, col: 8, offset: 91085},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2872, col: 12, offset: 90787},
+																							pos: position{line: 2875, col: 12, offset: 90858},
 																							run: (*parser).callonDocumentFragment776,
 																							expr: &choiceExpr{
-																								pos: position{line: 2872, col: 13, offset: 90788},
+																								pos: position{line: 2875, col: 13, offset: 90859},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2872, col: 13, offset: 90788},
+																										pos:        position{line: 2875, col: 13, offset: 90859},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2872, col: 20, offset: 90795},
+																										pos:        position{line: 2875, col: 20, offset: 90866},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2872, col: 29, offset: 90804},
+																										pos:        position{line: 2875, col: 29, offset: 90875},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7731,9 +7731,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2882, col: 8, offset: 90964},
+																							pos: position{line: 2885, col: 8, offset: 91035},
 																							expr: &anyMatcher{
-																								line: 2882, col: 9, offset: 90965,
+																								line: 2885, col: 9, offset: 91036,
 																							},
 																						},
 																					},
@@ -7742,9 +7742,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2882, col: 8, offset: 90964},
+																		pos: position{line: 2885, col: 8, offset: 91035},
 																		expr: &anyMatcher{
-																			line: 2882, col: 9, offset: 90965,
+																			line: 2885, col: 9, offset: 91036,
 																		},
 																	},
 																},
@@ -7800,10 +7800,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 792, col: 8, offset: 25519},
 																		expr: &actionExpr{
-																			pos: position{line: 2863, col: 10, offset: 90616},
+																			pos: position{line: 2866, col: 10, offset: 90687},
 																			run: (*parser).callonDocumentFragment797,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2863, col: 10, offset: 90616},
+																				pos:        position{line: 2866, col: 10, offset: 90687},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7812,28 +7812,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2885, col: 8, offset: 91014},
+																		pos: position{line: 2888, col: 8, offset: 91085},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2872, col: 12, offset: 90787},
+																				pos: position{line: 2875, col: 12, offset: 90858},
 																				run: (*parser).callonDocumentFragment800,
 																				expr: &choiceExpr{
-																					pos: position{line: 2872, col: 13, offset: 90788},
+																					pos: position{line: 2875, col: 13, offset: 90859},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 13, offset: 90788},
+																							pos:        position{line: 2875, col: 13, offset: 90859},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 20, offset: 90795},
+																							pos:        position{line: 2875, col: 20, offset: 90866},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 29, offset: 90804},
+																							pos:        position{line: 2875, col: 29, offset: 90875},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7842,9 +7842,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2882, col: 8, offset: 90964},
+																				pos: position{line: 2885, col: 8, offset: 91035},
 																				expr: &anyMatcher{
-																					line: 2882, col: 9, offset: 90965,
+																					line: 2885, col: 9, offset: 91036,
 																				},
 																			},
 																		},
@@ -7916,10 +7916,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 792, col: 8, offset: 25519},
 																												expr: &actionExpr{
-																													pos: position{line: 2863, col: 10, offset: 90616},
+																													pos: position{line: 2866, col: 10, offset: 90687},
 																													run: (*parser).callonDocumentFragment825,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2863, col: 10, offset: 90616},
+																														pos:        position{line: 2866, col: 10, offset: 90687},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7928,28 +7928,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2885, col: 8, offset: 91014},
+																												pos: position{line: 2888, col: 8, offset: 91085},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2872, col: 12, offset: 90787},
+																														pos: position{line: 2875, col: 12, offset: 90858},
 																														run: (*parser).callonDocumentFragment828,
 																														expr: &choiceExpr{
-																															pos: position{line: 2872, col: 13, offset: 90788},
+																															pos: position{line: 2875, col: 13, offset: 90859},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2872, col: 13, offset: 90788},
+																																	pos:        position{line: 2875, col: 13, offset: 90859},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2872, col: 20, offset: 90795},
+																																	pos:        position{line: 2875, col: 20, offset: 90866},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2872, col: 29, offset: 90804},
+																																	pos:        position{line: 2875, col: 29, offset: 90875},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7958,9 +7958,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2882, col: 8, offset: 90964},
+																														pos: position{line: 2885, col: 8, offset: 91035},
 																														expr: &anyMatcher{
-																															line: 2882, col: 9, offset: 90965,
+																															line: 2885, col: 9, offset: 91036,
 																														},
 																													},
 																												},
@@ -7976,9 +7976,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2882, col: 8, offset: 90964},
+																						pos: position{line: 2885, col: 8, offset: 91035},
 																						expr: &anyMatcher{
-																							line: 2882, col: 9, offset: 90965,
+																							line: 2885, col: 9, offset: 91036,
 																						},
 																					},
 																				},
@@ -7994,21 +7994,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26161},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2880, col: 11, offset: 90950},
+																							pos: position{line: 2883, col: 11, offset: 91021},
 																							expr: &anyMatcher{
-																								line: 2880, col: 13, offset: 90952,
+																								line: 2883, col: 13, offset: 91023,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26236},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2809, col: 13, offset: 89142},
+																								pos: position{line: 2812, col: 13, offset: 89213},
 																								run: (*parser).callonDocumentFragment844,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2809, col: 13, offset: 89142},
+																									pos: position{line: 2812, col: 13, offset: 89213},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2809, col: 13, offset: 89142},
+																										pos:        position{line: 2812, col: 13, offset: 89213},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8018,28 +8018,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2885, col: 8, offset: 91014},
+																							pos: position{line: 2888, col: 8, offset: 91085},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2872, col: 12, offset: 90787},
+																									pos: position{line: 2875, col: 12, offset: 90858},
 																									run: (*parser).callonDocumentFragment848,
 																									expr: &choiceExpr{
-																										pos: position{line: 2872, col: 13, offset: 90788},
+																										pos: position{line: 2875, col: 13, offset: 90859},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 13, offset: 90788},
+																												pos:        position{line: 2875, col: 13, offset: 90859},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 20, offset: 90795},
+																												pos:        position{line: 2875, col: 20, offset: 90866},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 29, offset: 90804},
+																												pos:        position{line: 2875, col: 29, offset: 90875},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8048,9 +8048,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2882, col: 8, offset: 90964},
+																									pos: position{line: 2885, col: 8, offset: 91035},
 																									expr: &anyMatcher{
-																										line: 2882, col: 9, offset: 90965,
+																										line: 2885, col: 9, offset: 91036,
 																									},
 																								},
 																							},
@@ -8115,10 +8115,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 792, col: 8, offset: 25519},
 																								expr: &actionExpr{
-																									pos: position{line: 2863, col: 10, offset: 90616},
+																									pos: position{line: 2866, col: 10, offset: 90687},
 																									run: (*parser).callonDocumentFragment869,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2863, col: 10, offset: 90616},
+																										pos:        position{line: 2866, col: 10, offset: 90687},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8127,28 +8127,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2885, col: 8, offset: 91014},
+																								pos: position{line: 2888, col: 8, offset: 91085},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2872, col: 12, offset: 90787},
+																										pos: position{line: 2875, col: 12, offset: 90858},
 																										run: (*parser).callonDocumentFragment872,
 																										expr: &choiceExpr{
-																											pos: position{line: 2872, col: 13, offset: 90788},
+																											pos: position{line: 2875, col: 13, offset: 90859},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2872, col: 13, offset: 90788},
+																													pos:        position{line: 2875, col: 13, offset: 90859},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2872, col: 20, offset: 90795},
+																													pos:        position{line: 2875, col: 20, offset: 90866},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2872, col: 29, offset: 90804},
+																													pos:        position{line: 2875, col: 29, offset: 90875},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8157,9 +8157,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2882, col: 8, offset: 90964},
+																										pos: position{line: 2885, col: 8, offset: 91035},
 																										expr: &anyMatcher{
-																											line: 2882, col: 9, offset: 90965,
+																											line: 2885, col: 9, offset: 91036,
 																										},
 																									},
 																								},
@@ -8175,9 +8175,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2882, col: 8, offset: 90964},
+																		pos: position{line: 2885, col: 8, offset: 91035},
 																		expr: &anyMatcher{
-																			line: 2882, col: 9, offset: 90965,
+																			line: 2885, col: 9, offset: 91036,
 																		},
 																	},
 																},
@@ -8233,10 +8233,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 799, col: 8, offset: 25769},
 																		expr: &actionExpr{
-																			pos: position{line: 2863, col: 10, offset: 90616},
+																			pos: position{line: 2866, col: 10, offset: 90687},
 																			run: (*parser).callonDocumentFragment894,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2863, col: 10, offset: 90616},
+																				pos:        position{line: 2866, col: 10, offset: 90687},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8245,28 +8245,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2885, col: 8, offset: 91014},
+																		pos: position{line: 2888, col: 8, offset: 91085},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2872, col: 12, offset: 90787},
+																				pos: position{line: 2875, col: 12, offset: 90858},
 																				run: (*parser).callonDocumentFragment897,
 																				expr: &choiceExpr{
-																					pos: position{line: 2872, col: 13, offset: 90788},
+																					pos: position{line: 2875, col: 13, offset: 90859},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 13, offset: 90788},
+																							pos:        position{line: 2875, col: 13, offset: 90859},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 20, offset: 90795},
+																							pos:        position{line: 2875, col: 20, offset: 90866},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 29, offset: 90804},
+																							pos:        position{line: 2875, col: 29, offset: 90875},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8275,9 +8275,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2882, col: 8, offset: 90964},
+																				pos: position{line: 2885, col: 8, offset: 91035},
 																				expr: &anyMatcher{
-																					line: 2882, col: 9, offset: 90965,
+																					line: 2885, col: 9, offset: 91036,
 																				},
 																			},
 																		},
@@ -8349,10 +8349,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 799, col: 8, offset: 25769},
 																												expr: &actionExpr{
-																													pos: position{line: 2863, col: 10, offset: 90616},
+																													pos: position{line: 2866, col: 10, offset: 90687},
 																													run: (*parser).callonDocumentFragment922,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2863, col: 10, offset: 90616},
+																														pos:        position{line: 2866, col: 10, offset: 90687},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8361,28 +8361,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2885, col: 8, offset: 91014},
+																												pos: position{line: 2888, col: 8, offset: 91085},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2872, col: 12, offset: 90787},
+																														pos: position{line: 2875, col: 12, offset: 90858},
 																														run: (*parser).callonDocumentFragment925,
 																														expr: &choiceExpr{
-																															pos: position{line: 2872, col: 13, offset: 90788},
+																															pos: position{line: 2875, col: 13, offset: 90859},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2872, col: 13, offset: 90788},
+																																	pos:        position{line: 2875, col: 13, offset: 90859},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2872, col: 20, offset: 90795},
+																																	pos:        position{line: 2875, col: 20, offset: 90866},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2872, col: 29, offset: 90804},
+																																	pos:        position{line: 2875, col: 29, offset: 90875},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8391,9 +8391,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2882, col: 8, offset: 90964},
+																														pos: position{line: 2885, col: 8, offset: 91035},
 																														expr: &anyMatcher{
-																															line: 2882, col: 9, offset: 90965,
+																															line: 2885, col: 9, offset: 91036,
 																														},
 																													},
 																												},
@@ -8409,9 +8409,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2882, col: 8, offset: 90964},
+																						pos: position{line: 2885, col: 8, offset: 91035},
 																						expr: &anyMatcher{
-																							line: 2882, col: 9, offset: 90965,
+																							line: 2885, col: 9, offset: 91036,
 																						},
 																					},
 																				},
@@ -8427,21 +8427,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26161},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2880, col: 11, offset: 90950},
+																							pos: position{line: 2883, col: 11, offset: 91021},
 																							expr: &anyMatcher{
-																								line: 2880, col: 13, offset: 90952,
+																								line: 2883, col: 13, offset: 91023,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26236},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2809, col: 13, offset: 89142},
+																								pos: position{line: 2812, col: 13, offset: 89213},
 																								run: (*parser).callonDocumentFragment941,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2809, col: 13, offset: 89142},
+																									pos: position{line: 2812, col: 13, offset: 89213},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2809, col: 13, offset: 89142},
+																										pos:        position{line: 2812, col: 13, offset: 89213},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8451,28 +8451,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2885, col: 8, offset: 91014},
+																							pos: position{line: 2888, col: 8, offset: 91085},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2872, col: 12, offset: 90787},
+																									pos: position{line: 2875, col: 12, offset: 90858},
 																									run: (*parser).callonDocumentFragment945,
 																									expr: &choiceExpr{
-																										pos: position{line: 2872, col: 13, offset: 90788},
+																										pos: position{line: 2875, col: 13, offset: 90859},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 13, offset: 90788},
+																												pos:        position{line: 2875, col: 13, offset: 90859},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 20, offset: 90795},
+																												pos:        position{line: 2875, col: 20, offset: 90866},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 29, offset: 90804},
+																												pos:        position{line: 2875, col: 29, offset: 90875},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8481,9 +8481,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2882, col: 8, offset: 90964},
+																									pos: position{line: 2885, col: 8, offset: 91035},
 																									expr: &anyMatcher{
-																										line: 2882, col: 9, offset: 90965,
+																										line: 2885, col: 9, offset: 91036,
 																									},
 																								},
 																							},
@@ -8548,10 +8548,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 799, col: 8, offset: 25769},
 																								expr: &actionExpr{
-																									pos: position{line: 2863, col: 10, offset: 90616},
+																									pos: position{line: 2866, col: 10, offset: 90687},
 																									run: (*parser).callonDocumentFragment966,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2863, col: 10, offset: 90616},
+																										pos:        position{line: 2866, col: 10, offset: 90687},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8560,28 +8560,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2885, col: 8, offset: 91014},
+																								pos: position{line: 2888, col: 8, offset: 91085},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2872, col: 12, offset: 90787},
+																										pos: position{line: 2875, col: 12, offset: 90858},
 																										run: (*parser).callonDocumentFragment969,
 																										expr: &choiceExpr{
-																											pos: position{line: 2872, col: 13, offset: 90788},
+																											pos: position{line: 2875, col: 13, offset: 90859},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2872, col: 13, offset: 90788},
+																													pos:        position{line: 2875, col: 13, offset: 90859},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2872, col: 20, offset: 90795},
+																													pos:        position{line: 2875, col: 20, offset: 90866},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2872, col: 29, offset: 90804},
+																													pos:        position{line: 2875, col: 29, offset: 90875},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8590,9 +8590,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2882, col: 8, offset: 90964},
+																										pos: position{line: 2885, col: 8, offset: 91035},
 																										expr: &anyMatcher{
-																											line: 2882, col: 9, offset: 90965,
+																											line: 2885, col: 9, offset: 91036,
 																										},
 																									},
 																								},
@@ -8608,9 +8608,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2882, col: 8, offset: 90964},
+																		pos: position{line: 2885, col: 8, offset: 91035},
 																		expr: &anyMatcher{
-																			line: 2882, col: 9, offset: 90965,
+																			line: 2885, col: 9, offset: 91036,
 																		},
 																	},
 																},
@@ -8666,10 +8666,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 806, col: 8, offset: 26015},
 																		expr: &actionExpr{
-																			pos: position{line: 2863, col: 10, offset: 90616},
+																			pos: position{line: 2866, col: 10, offset: 90687},
 																			run: (*parser).callonDocumentFragment991,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2863, col: 10, offset: 90616},
+																				pos:        position{line: 2866, col: 10, offset: 90687},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8678,28 +8678,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2885, col: 8, offset: 91014},
+																		pos: position{line: 2888, col: 8, offset: 91085},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2872, col: 12, offset: 90787},
+																				pos: position{line: 2875, col: 12, offset: 90858},
 																				run: (*parser).callonDocumentFragment994,
 																				expr: &choiceExpr{
-																					pos: position{line: 2872, col: 13, offset: 90788},
+																					pos: position{line: 2875, col: 13, offset: 90859},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 13, offset: 90788},
+																							pos:        position{line: 2875, col: 13, offset: 90859},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 20, offset: 90795},
+																							pos:        position{line: 2875, col: 20, offset: 90866},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 29, offset: 90804},
+																							pos:        position{line: 2875, col: 29, offset: 90875},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8708,9 +8708,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2882, col: 8, offset: 90964},
+																				pos: position{line: 2885, col: 8, offset: 91035},
 																				expr: &anyMatcher{
-																					line: 2882, col: 9, offset: 90965,
+																					line: 2885, col: 9, offset: 91036,
 																				},
 																			},
 																		},
@@ -8782,10 +8782,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 806, col: 8, offset: 26015},
 																												expr: &actionExpr{
-																													pos: position{line: 2863, col: 10, offset: 90616},
+																													pos: position{line: 2866, col: 10, offset: 90687},
 																													run: (*parser).callonDocumentFragment1019,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2863, col: 10, offset: 90616},
+																														pos:        position{line: 2866, col: 10, offset: 90687},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8794,28 +8794,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2885, col: 8, offset: 91014},
+																												pos: position{line: 2888, col: 8, offset: 91085},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2872, col: 12, offset: 90787},
+																														pos: position{line: 2875, col: 12, offset: 90858},
 																														run: (*parser).callonDocumentFragment1022,
 																														expr: &choiceExpr{
-																															pos: position{line: 2872, col: 13, offset: 90788},
+																															pos: position{line: 2875, col: 13, offset: 90859},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2872, col: 13, offset: 90788},
+																																	pos:        position{line: 2875, col: 13, offset: 90859},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2872, col: 20, offset: 90795},
+																																	pos:        position{line: 2875, col: 20, offset: 90866},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2872, col: 29, offset: 90804},
+																																	pos:        position{line: 2875, col: 29, offset: 90875},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8824,9 +8824,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2882, col: 8, offset: 90964},
+																														pos: position{line: 2885, col: 8, offset: 91035},
 																														expr: &anyMatcher{
-																															line: 2882, col: 9, offset: 90965,
+																															line: 2885, col: 9, offset: 91036,
 																														},
 																													},
 																												},
@@ -8842,9 +8842,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2882, col: 8, offset: 90964},
+																						pos: position{line: 2885, col: 8, offset: 91035},
 																						expr: &anyMatcher{
-																							line: 2882, col: 9, offset: 90965,
+																							line: 2885, col: 9, offset: 91036,
 																						},
 																					},
 																				},
@@ -8860,21 +8860,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26161},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2880, col: 11, offset: 90950},
+																							pos: position{line: 2883, col: 11, offset: 91021},
 																							expr: &anyMatcher{
-																								line: 2880, col: 13, offset: 90952,
+																								line: 2883, col: 13, offset: 91023,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26236},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2809, col: 13, offset: 89142},
+																								pos: position{line: 2812, col: 13, offset: 89213},
 																								run: (*parser).callonDocumentFragment1038,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2809, col: 13, offset: 89142},
+																									pos: position{line: 2812, col: 13, offset: 89213},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2809, col: 13, offset: 89142},
+																										pos:        position{line: 2812, col: 13, offset: 89213},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8884,28 +8884,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2885, col: 8, offset: 91014},
+																							pos: position{line: 2888, col: 8, offset: 91085},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2872, col: 12, offset: 90787},
+																									pos: position{line: 2875, col: 12, offset: 90858},
 																									run: (*parser).callonDocumentFragment1042,
 																									expr: &choiceExpr{
-																										pos: position{line: 2872, col: 13, offset: 90788},
+																										pos: position{line: 2875, col: 13, offset: 90859},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 13, offset: 90788},
+																												pos:        position{line: 2875, col: 13, offset: 90859},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 20, offset: 90795},
+																												pos:        position{line: 2875, col: 20, offset: 90866},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 29, offset: 90804},
+																												pos:        position{line: 2875, col: 29, offset: 90875},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8914,9 +8914,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2882, col: 8, offset: 90964},
+																									pos: position{line: 2885, col: 8, offset: 91035},
 																									expr: &anyMatcher{
-																										line: 2882, col: 9, offset: 90965,
+																										line: 2885, col: 9, offset: 91036,
 																									},
 																								},
 																							},
@@ -8981,10 +8981,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 806, col: 8, offset: 26015},
 																								expr: &actionExpr{
-																									pos: position{line: 2863, col: 10, offset: 90616},
+																									pos: position{line: 2866, col: 10, offset: 90687},
 																									run: (*parser).callonDocumentFragment1063,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2863, col: 10, offset: 90616},
+																										pos:        position{line: 2866, col: 10, offset: 90687},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8993,28 +8993,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2885, col: 8, offset: 91014},
+																								pos: position{line: 2888, col: 8, offset: 91085},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2872, col: 12, offset: 90787},
+																										pos: position{line: 2875, col: 12, offset: 90858},
 																										run: (*parser).callonDocumentFragment1066,
 																										expr: &choiceExpr{
-																											pos: position{line: 2872, col: 13, offset: 90788},
+																											pos: position{line: 2875, col: 13, offset: 90859},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2872, col: 13, offset: 90788},
+																													pos:        position{line: 2875, col: 13, offset: 90859},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2872, col: 20, offset: 90795},
+																													pos:        position{line: 2875, col: 20, offset: 90866},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2872, col: 29, offset: 90804},
+																													pos:        position{line: 2875, col: 29, offset: 90875},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -9023,9 +9023,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2882, col: 8, offset: 90964},
+																										pos: position{line: 2885, col: 8, offset: 91035},
 																										expr: &anyMatcher{
-																											line: 2882, col: 9, offset: 90965,
+																											line: 2885, col: 9, offset: 91036,
 																										},
 																									},
 																								},
@@ -9041,9 +9041,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2882, col: 8, offset: 90964},
+																		pos: position{line: 2885, col: 8, offset: 91035},
 																		expr: &anyMatcher{
-																			line: 2882, col: 9, offset: 90965,
+																			line: 2885, col: 9, offset: 91036,
 																		},
 																	},
 																},
@@ -9054,52 +9054,52 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2708, col: 18, offset: 86211},
+											pos: position{line: 2711, col: 18, offset: 86282},
 											run: (*parser).callonDocumentFragment1076,
 											expr: &seqExpr{
-												pos: position{line: 2708, col: 18, offset: 86211},
+												pos: position{line: 2711, col: 18, offset: 86282},
 												exprs: []interface{}{
 													&choiceExpr{
-														pos: position{line: 2709, col: 9, offset: 86221},
+														pos: position{line: 2712, col: 9, offset: 86292},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2709, col: 9, offset: 86221},
+																pos:        position{line: 2712, col: 9, offset: 86292},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2710, col: 11, offset: 86257},
+																pos:        position{line: 2713, col: 11, offset: 86328},
 																val:        "***",
 																ignoreCase: false,
 																want:       "\"***\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2710, col: 19, offset: 86265},
+																pos:        position{line: 2713, col: 19, offset: 86336},
 																val:        "* * *",
 																ignoreCase: false,
 																want:       "\"* * *\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2710, col: 29, offset: 86275},
+																pos:        position{line: 2713, col: 29, offset: 86346},
 																val:        "---",
 																ignoreCase: false,
 																want:       "\"---\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2710, col: 37, offset: 86283},
+																pos:        position{line: 2713, col: 37, offset: 86354},
 																val:        "- - -",
 																ignoreCase: false,
 																want:       "\"- - -\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2710, col: 47, offset: 86293},
+																pos:        position{line: 2713, col: 47, offset: 86364},
 																val:        "___",
 																ignoreCase: false,
 																want:       "\"___\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2710, col: 55, offset: 86301},
+																pos:        position{line: 2713, col: 55, offset: 86372},
 																val:        "_ _ _",
 																ignoreCase: false,
 																want:       "\"_ _ _\"",
@@ -9107,12 +9107,12 @@ var g = &grammar{
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2711, col: 11, offset: 86347},
+														pos: position{line: 2714, col: 11, offset: 86418},
 														expr: &actionExpr{
-															pos: position{line: 2863, col: 10, offset: 90616},
+															pos: position{line: 2866, col: 10, offset: 90687},
 															run: (*parser).callonDocumentFragment1087,
 															expr: &charClassMatcher{
-																pos:        position{line: 2863, col: 10, offset: 90616},
+																pos:        position{line: 2866, col: 10, offset: 90687},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9121,28 +9121,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2885, col: 8, offset: 91014},
+														pos: position{line: 2888, col: 8, offset: 91085},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2872, col: 12, offset: 90787},
+																pos: position{line: 2875, col: 12, offset: 90858},
 																run: (*parser).callonDocumentFragment1090,
 																expr: &choiceExpr{
-																	pos: position{line: 2872, col: 13, offset: 90788},
+																	pos: position{line: 2875, col: 13, offset: 90859},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2872, col: 13, offset: 90788},
+																			pos:        position{line: 2875, col: 13, offset: 90859},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2872, col: 20, offset: 90795},
+																			pos:        position{line: 2875, col: 20, offset: 90866},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2872, col: 29, offset: 90804},
+																			pos:        position{line: 2875, col: 29, offset: 90875},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9151,20 +9151,20 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2882, col: 8, offset: 90964},
+																pos: position{line: 2885, col: 8, offset: 91035},
 																expr: &anyMatcher{
-																	line: 2882, col: 9, offset: 90965,
+																	line: 2885, col: 9, offset: 91036,
 																},
 															},
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2711, col: 22, offset: 86358},
+														pos: position{line: 2714, col: 22, offset: 86429},
 														expr: &actionExpr{
-															pos: position{line: 2863, col: 10, offset: 90616},
+															pos: position{line: 2866, col: 10, offset: 90687},
 															run: (*parser).callonDocumentFragment1098,
 															expr: &charClassMatcher{
-																pos:        position{line: 2863, col: 10, offset: 90616},
+																pos:        position{line: 2866, col: 10, offset: 90687},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9173,28 +9173,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2885, col: 8, offset: 91014},
+														pos: position{line: 2888, col: 8, offset: 91085},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2872, col: 12, offset: 90787},
+																pos: position{line: 2875, col: 12, offset: 90858},
 																run: (*parser).callonDocumentFragment1101,
 																expr: &choiceExpr{
-																	pos: position{line: 2872, col: 13, offset: 90788},
+																	pos: position{line: 2875, col: 13, offset: 90859},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2872, col: 13, offset: 90788},
+																			pos:        position{line: 2875, col: 13, offset: 90859},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2872, col: 20, offset: 90795},
+																			pos:        position{line: 2875, col: 20, offset: 90866},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2872, col: 29, offset: 90804},
+																			pos:        position{line: 2875, col: 29, offset: 90875},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9203,9 +9203,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2882, col: 8, offset: 90964},
+																pos: position{line: 2885, col: 8, offset: 91035},
 																expr: &anyMatcher{
-																	line: 2882, col: 9, offset: 90965,
+																	line: 2885, col: 9, offset: 91036,
 																},
 															},
 														},
@@ -9218,24 +9218,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2599, col: 5, offset: 83147},
+											pos: position{line: 2602, col: 5, offset: 83218},
 											run: (*parser).callonDocumentFragment1109,
 											expr: &seqExpr{
-												pos: position{line: 2599, col: 5, offset: 83147},
+												pos: position{line: 2602, col: 5, offset: 83218},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2605, col: 19, offset: 83304},
+														pos:        position{line: 2608, col: 19, offset: 83375},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2605, col: 26, offset: 83311},
+														pos: position{line: 2608, col: 26, offset: 83382},
 														expr: &actionExpr{
-															pos: position{line: 2863, col: 10, offset: 90616},
+															pos: position{line: 2866, col: 10, offset: 90687},
 															run: (*parser).callonDocumentFragment1113,
 															expr: &charClassMatcher{
-																pos:        position{line: 2863, col: 10, offset: 90616},
+																pos:        position{line: 2866, col: 10, offset: 90687},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9244,28 +9244,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2885, col: 8, offset: 91014},
+														pos: position{line: 2888, col: 8, offset: 91085},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2872, col: 12, offset: 90787},
+																pos: position{line: 2875, col: 12, offset: 90858},
 																run: (*parser).callonDocumentFragment1116,
 																expr: &choiceExpr{
-																	pos: position{line: 2872, col: 13, offset: 90788},
+																	pos: position{line: 2875, col: 13, offset: 90859},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2872, col: 13, offset: 90788},
+																			pos:        position{line: 2875, col: 13, offset: 90859},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2872, col: 20, offset: 90795},
+																			pos:        position{line: 2875, col: 20, offset: 90866},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2872, col: 29, offset: 90804},
+																			pos:        position{line: 2875, col: 29, offset: 90875},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9274,20 +9274,20 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2882, col: 8, offset: 90964},
+																pos: position{line: 2885, col: 8, offset: 91035},
 																expr: &anyMatcher{
-																	line: 2882, col: 9, offset: 90965,
+																	line: 2885, col: 9, offset: 91036,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2600, col: 5, offset: 83171},
+														pos:   position{line: 2603, col: 5, offset: 83242},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2600, col: 11, offset: 83177},
+															pos: position{line: 2603, col: 11, offset: 83248},
 															expr: &choiceExpr{
-																pos: position{line: 2600, col: 12, offset: 83178},
+																pos: position{line: 2603, col: 12, offset: 83249},
 																alternatives: []interface{}{
 																	&actionExpr{
 																		pos: position{line: 677, col: 14, offset: 21557},
@@ -9296,18 +9296,18 @@ var g = &grammar{
 																			pos: position{line: 677, col: 14, offset: 21557},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2880, col: 11, offset: 90950},
+																					pos: position{line: 2883, col: 11, offset: 91021},
 																					expr: &anyMatcher{
-																						line: 2880, col: 13, offset: 90952,
+																						line: 2883, col: 13, offset: 91023,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21564},
 																					expr: &actionExpr{
-																						pos: position{line: 2863, col: 10, offset: 90616},
+																						pos: position{line: 2866, col: 10, offset: 90687},
 																						run: (*parser).callonDocumentFragment1131,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2863, col: 10, offset: 90616},
+																							pos:        position{line: 2866, col: 10, offset: 90687},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9316,28 +9316,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2885, col: 8, offset: 91014},
+																					pos: position{line: 2888, col: 8, offset: 91085},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2872, col: 12, offset: 90787},
+																							pos: position{line: 2875, col: 12, offset: 90858},
 																							run: (*parser).callonDocumentFragment1134,
 																							expr: &choiceExpr{
-																								pos: position{line: 2872, col: 13, offset: 90788},
+																								pos: position{line: 2875, col: 13, offset: 90859},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2872, col: 13, offset: 90788},
+																										pos:        position{line: 2875, col: 13, offset: 90859},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2872, col: 20, offset: 90795},
+																										pos:        position{line: 2875, col: 20, offset: 90866},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2872, col: 29, offset: 90804},
+																										pos:        position{line: 2875, col: 29, offset: 90875},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9346,9 +9346,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2882, col: 8, offset: 90964},
+																							pos: position{line: 2885, col: 8, offset: 91035},
 																							expr: &anyMatcher{
-																								line: 2882, col: 9, offset: 90965,
+																								line: 2885, col: 9, offset: 91036,
 																							},
 																						},
 																					},
@@ -9357,32 +9357,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2612, col: 5, offset: 83423},
+																		pos: position{line: 2615, col: 5, offset: 83494},
 																		run: (*parser).callonDocumentFragment1141,
 																		expr: &seqExpr{
-																			pos: position{line: 2612, col: 5, offset: 83423},
+																			pos: position{line: 2615, col: 5, offset: 83494},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2612, col: 5, offset: 83423},
+																					pos: position{line: 2615, col: 5, offset: 83494},
 																					expr: &choiceExpr{
-																						pos: position{line: 2609, col: 22, offset: 83384},
+																						pos: position{line: 2612, col: 22, offset: 83455},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2605, col: 19, offset: 83304},
+																								pos: position{line: 2608, col: 19, offset: 83375},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2605, col: 19, offset: 83304},
+																										pos:        position{line: 2608, col: 19, offset: 83375},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2605, col: 26, offset: 83311},
+																										pos: position{line: 2608, col: 26, offset: 83382},
 																										expr: &actionExpr{
-																											pos: position{line: 2863, col: 10, offset: 90616},
+																											pos: position{line: 2866, col: 10, offset: 90687},
 																											run: (*parser).callonDocumentFragment1148,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2863, col: 10, offset: 90616},
+																												pos:        position{line: 2866, col: 10, offset: 90687},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9391,28 +9391,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2885, col: 8, offset: 91014},
+																										pos: position{line: 2888, col: 8, offset: 91085},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2872, col: 12, offset: 90787},
+																												pos: position{line: 2875, col: 12, offset: 90858},
 																												run: (*parser).callonDocumentFragment1151,
 																												expr: &choiceExpr{
-																													pos: position{line: 2872, col: 13, offset: 90788},
+																													pos: position{line: 2875, col: 13, offset: 90859},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2872, col: 13, offset: 90788},
+																															pos:        position{line: 2875, col: 13, offset: 90859},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2872, col: 20, offset: 90795},
+																															pos:        position{line: 2875, col: 20, offset: 90866},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2872, col: 29, offset: 90804},
+																															pos:        position{line: 2875, col: 29, offset: 90875},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9421,9 +9421,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2882, col: 8, offset: 90964},
+																												pos: position{line: 2885, col: 8, offset: 91035},
 																												expr: &anyMatcher{
-																													line: 2882, col: 9, offset: 90965,
+																													line: 2885, col: 9, offset: 91036,
 																												},
 																											},
 																										},
@@ -9431,59 +9431,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2882, col: 8, offset: 90964},
+																								pos: position{line: 2885, col: 8, offset: 91035},
 																								expr: &anyMatcher{
-																									line: 2882, col: 9, offset: 90965,
+																									line: 2885, col: 9, offset: 91036,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2613, col: 5, offset: 83446},
+																					pos:   position{line: 2616, col: 5, offset: 83517},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2614, col: 9, offset: 83464},
+																						pos: position{line: 2617, col: 9, offset: 83535},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2614, col: 10, offset: 83465},
+																								pos: position{line: 2617, col: 10, offset: 83536},
 																								run: (*parser).callonDocumentFragment1162,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2614, col: 10, offset: 83465},
+																									pos:   position{line: 2617, col: 10, offset: 83536},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2614, col: 17, offset: 83472},
+																										pos: position{line: 2617, col: 17, offset: 83543},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2622, col: 21, offset: 83668},
+																												pos: position{line: 2625, col: 21, offset: 83739},
 																												run: (*parser).callonDocumentFragment1165,
 																												expr: &seqExpr{
-																													pos: position{line: 2622, col: 21, offset: 83668},
+																													pos: position{line: 2625, col: 21, offset: 83739},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2622, col: 21, offset: 83668},
+																															pos:   position{line: 2625, col: 21, offset: 83739},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2622, col: 27, offset: 83674},
+																																pos: position{line: 2625, col: 27, offset: 83745},
 																																expr: &actionExpr{
-																																	pos: position{line: 2627, col: 5, offset: 83749},
+																																	pos: position{line: 2630, col: 5, offset: 83820},
 																																	run: (*parser).callonDocumentFragment1169,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2627, col: 5, offset: 83749},
+																																		pos: position{line: 2630, col: 5, offset: 83820},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2627, col: 5, offset: 83749},
+																																				pos:        position{line: 2630, col: 5, offset: 83820},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2627, col: 9, offset: 83753},
+																																				pos: position{line: 2630, col: 9, offset: 83824},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2863, col: 10, offset: 90616},
+																																					pos: position{line: 2866, col: 10, offset: 90687},
 																																					run: (*parser).callonDocumentFragment1173,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2863, col: 10, offset: 90616},
+																																						pos:        position{line: 2866, col: 10, offset: 90687},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9492,21 +9492,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2627, col: 16, offset: 83760},
+																																				pos:   position{line: 2630, col: 16, offset: 83831},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2633, col: 5, offset: 83960},
+																																					pos: position{line: 2636, col: 5, offset: 84031},
 																																					run: (*parser).callonDocumentFragment1176,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2633, col: 5, offset: 83960},
+																																						pos:   position{line: 2636, col: 5, offset: 84031},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2633, col: 14, offset: 83969},
+																																							pos: position{line: 2636, col: 14, offset: 84040},
 																																							run: (*parser).callonDocumentFragment1178,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2633, col: 14, offset: 83969},
+																																								pos: position{line: 2636, col: 14, offset: 84040},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2633, col: 14, offset: 83969},
+																																									pos:        position{line: 2636, col: 14, offset: 84040},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9523,28 +9523,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2885, col: 8, offset: 91014},
+																															pos: position{line: 2888, col: 8, offset: 91085},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2872, col: 12, offset: 90787},
+																																	pos: position{line: 2875, col: 12, offset: 90858},
 																																	run: (*parser).callonDocumentFragment1182,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2872, col: 13, offset: 90788},
+																																		pos: position{line: 2875, col: 13, offset: 90859},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2872, col: 13, offset: 90788},
+																																				pos:        position{line: 2875, col: 13, offset: 90859},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2872, col: 20, offset: 90795},
+																																				pos:        position{line: 2875, col: 20, offset: 90866},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2872, col: 29, offset: 90804},
+																																				pos:        position{line: 2875, col: 29, offset: 90875},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9553,9 +9553,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2882, col: 8, offset: 90964},
+																																	pos: position{line: 2885, col: 8, offset: 91035},
 																																	expr: &anyMatcher{
-																																		line: 2882, col: 9, offset: 90965,
+																																		line: 2885, col: 9, offset: 91036,
 																																	},
 																																},
 																															},
@@ -9564,40 +9564,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2639, col: 24, offset: 84105},
+																												pos: position{line: 2642, col: 24, offset: 84176},
 																												run: (*parser).callonDocumentFragment1189,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2639, col: 24, offset: 84105},
+																													pos:   position{line: 2642, col: 24, offset: 84176},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2639, col: 30, offset: 84111},
+																														pos: position{line: 2642, col: 30, offset: 84182},
 																														expr: &actionExpr{
-																															pos: position{line: 2644, col: 5, offset: 84187},
+																															pos: position{line: 2647, col: 5, offset: 84258},
 																															run: (*parser).callonDocumentFragment1192,
 																															expr: &seqExpr{
-																																pos: position{line: 2644, col: 5, offset: 84187},
+																																pos: position{line: 2647, col: 5, offset: 84258},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2644, col: 5, offset: 84187},
+																																		pos: position{line: 2647, col: 5, offset: 84258},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2609, col: 22, offset: 83384},
+																																			pos: position{line: 2612, col: 22, offset: 83455},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2605, col: 19, offset: 83304},
+																																					pos: position{line: 2608, col: 19, offset: 83375},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2605, col: 19, offset: 83304},
+																																							pos:        position{line: 2608, col: 19, offset: 83375},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2605, col: 26, offset: 83311},
+																																							pos: position{line: 2608, col: 26, offset: 83382},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2863, col: 10, offset: 90616},
+																																								pos: position{line: 2866, col: 10, offset: 90687},
 																																								run: (*parser).callonDocumentFragment1199,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2863, col: 10, offset: 90616},
+																																									pos:        position{line: 2866, col: 10, offset: 90687},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9606,28 +9606,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2885, col: 8, offset: 91014},
+																																							pos: position{line: 2888, col: 8, offset: 91085},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2872, col: 12, offset: 90787},
+																																									pos: position{line: 2875, col: 12, offset: 90858},
 																																									run: (*parser).callonDocumentFragment1202,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2872, col: 13, offset: 90788},
+																																										pos: position{line: 2875, col: 13, offset: 90859},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2872, col: 13, offset: 90788},
+																																												pos:        position{line: 2875, col: 13, offset: 90859},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2872, col: 20, offset: 90795},
+																																												pos:        position{line: 2875, col: 20, offset: 90866},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2872, col: 29, offset: 90804},
+																																												pos:        position{line: 2875, col: 29, offset: 90875},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9636,9 +9636,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2882, col: 8, offset: 90964},
+																																									pos: position{line: 2885, col: 8, offset: 91035},
 																																									expr: &anyMatcher{
-																																										line: 2882, col: 9, offset: 90965,
+																																										line: 2885, col: 9, offset: 91036,
 																																									},
 																																								},
 																																							},
@@ -9646,16 +9646,16 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2882, col: 8, offset: 90964},
+																																					pos: position{line: 2885, col: 8, offset: 91035},
 																																					expr: &anyMatcher{
-																																						line: 2882, col: 9, offset: 90965,
+																																						line: 2885, col: 9, offset: 91036,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2645, col: 5, offset: 84210},
+																																		pos: position{line: 2648, col: 5, offset: 84281},
 																																		expr: &actionExpr{
 																																			pos: position{line: 677, col: 14, offset: 21557},
 																																			run: (*parser).callonDocumentFragment1212,
@@ -9663,18 +9663,18 @@ var g = &grammar{
 																																				pos: position{line: 677, col: 14, offset: 21557},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2880, col: 11, offset: 90950},
+																																						pos: position{line: 2883, col: 11, offset: 91021},
 																																						expr: &anyMatcher{
-																																							line: 2880, col: 13, offset: 90952,
+																																							line: 2883, col: 13, offset: 91023,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
 																																						pos: position{line: 677, col: 21, offset: 21564},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2863, col: 10, offset: 90616},
+																																							pos: position{line: 2866, col: 10, offset: 90687},
 																																							run: (*parser).callonDocumentFragment1217,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2863, col: 10, offset: 90616},
+																																								pos:        position{line: 2866, col: 10, offset: 90687},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9683,28 +9683,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2885, col: 8, offset: 91014},
+																																						pos: position{line: 2888, col: 8, offset: 91085},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2872, col: 12, offset: 90787},
+																																								pos: position{line: 2875, col: 12, offset: 90858},
 																																								run: (*parser).callonDocumentFragment1220,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2872, col: 13, offset: 90788},
+																																									pos: position{line: 2875, col: 13, offset: 90859},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2872, col: 13, offset: 90788},
+																																											pos:        position{line: 2875, col: 13, offset: 90859},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2872, col: 20, offset: 90795},
+																																											pos:        position{line: 2875, col: 20, offset: 90866},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2872, col: 29, offset: 90804},
+																																											pos:        position{line: 2875, col: 29, offset: 90875},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9713,9 +9713,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2882, col: 8, offset: 90964},
+																																								pos: position{line: 2885, col: 8, offset: 91035},
 																																								expr: &anyMatcher{
-																																									line: 2882, col: 9, offset: 90965,
+																																									line: 2885, col: 9, offset: 91036,
 																																								},
 																																							},
 																																						},
@@ -9725,17 +9725,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2646, col: 5, offset: 84225},
+																																		pos:   position{line: 2649, col: 5, offset: 84296},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2646, col: 12, offset: 84232},
+																																			pos: position{line: 2649, col: 12, offset: 84303},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2663, col: 20, offset: 84696},
+																																				pos: position{line: 2666, col: 20, offset: 84767},
 																																				run: (*parser).callonDocumentFragment1229,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2663, col: 20, offset: 84696},
+																																					pos: position{line: 2666, col: 20, offset: 84767},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2663, col: 20, offset: 84696},
+																																						pos:        position{line: 2666, col: 20, offset: 84767},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9746,18 +9746,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2646, col: 31, offset: 84251},
+																																		pos:        position{line: 2649, col: 31, offset: 84322},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2646, col: 35, offset: 84255},
+																																		pos: position{line: 2649, col: 35, offset: 84326},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2863, col: 10, offset: 90616},
+																																			pos: position{line: 2866, col: 10, offset: 90687},
 																																			run: (*parser).callonDocumentFragment1234,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2863, col: 10, offset: 90616},
+																																				pos:        position{line: 2866, col: 10, offset: 90687},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9766,27 +9766,27 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2646, col: 42, offset: 84262},
+																																		pos: position{line: 2649, col: 42, offset: 84333},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2872, col: 12, offset: 90787},
+																																			pos: position{line: 2875, col: 12, offset: 90858},
 																																			run: (*parser).callonDocumentFragment1237,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2872, col: 13, offset: 90788},
+																																				pos: position{line: 2875, col: 13, offset: 90859},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2872, col: 13, offset: 90788},
+																																						pos:        position{line: 2875, col: 13, offset: 90859},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2872, col: 20, offset: 90795},
+																																						pos:        position{line: 2875, col: 20, offset: 90866},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2872, col: 29, offset: 90804},
+																																						pos:        position{line: 2875, col: 29, offset: 90875},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9796,37 +9796,37 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2646, col: 51, offset: 84271},
+																																		pos:   position{line: 2649, col: 51, offset: 84342},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2652, col: 5, offset: 84430},
+																																			pos: position{line: 2655, col: 5, offset: 84501},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2653, col: 9, offset: 84440},
+																																				pos: position{line: 2656, col: 9, offset: 84511},
 																																				run: (*parser).callonDocumentFragment1244,
 																																				expr: &seqExpr{
-																																					pos: position{line: 2653, col: 9, offset: 84440},
+																																					pos: position{line: 2656, col: 9, offset: 84511},
 																																					exprs: []interface{}{
 																																						&notExpr{
-																																							pos: position{line: 2653, col: 9, offset: 84440},
+																																							pos: position{line: 2656, col: 9, offset: 84511},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2609, col: 22, offset: 83384},
+																																								pos: position{line: 2612, col: 22, offset: 83455},
 																																								alternatives: []interface{}{
 																																									&seqExpr{
-																																										pos: position{line: 2605, col: 19, offset: 83304},
+																																										pos: position{line: 2608, col: 19, offset: 83375},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2605, col: 19, offset: 83304},
+																																												pos:        position{line: 2608, col: 19, offset: 83375},
 																																												val:        "|===",
 																																												ignoreCase: false,
 																																												want:       "\"|===\"",
 																																											},
 																																											&zeroOrMoreExpr{
-																																												pos: position{line: 2605, col: 26, offset: 83311},
+																																												pos: position{line: 2608, col: 26, offset: 83382},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2863, col: 10, offset: 90616},
+																																													pos: position{line: 2866, col: 10, offset: 90687},
 																																													run: (*parser).callonDocumentFragment1251,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2863, col: 10, offset: 90616},
+																																														pos:        position{line: 2866, col: 10, offset: 90687},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -9835,28 +9835,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2885, col: 8, offset: 91014},
+																																												pos: position{line: 2888, col: 8, offset: 91085},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2872, col: 12, offset: 90787},
+																																														pos: position{line: 2875, col: 12, offset: 90858},
 																																														run: (*parser).callonDocumentFragment1254,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2872, col: 13, offset: 90788},
+																																															pos: position{line: 2875, col: 13, offset: 90859},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2872, col: 13, offset: 90788},
+																																																	pos:        position{line: 2875, col: 13, offset: 90859},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2872, col: 20, offset: 90795},
+																																																	pos:        position{line: 2875, col: 20, offset: 90866},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2872, col: 29, offset: 90804},
+																																																	pos:        position{line: 2875, col: 29, offset: 90875},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -9865,9 +9865,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2882, col: 8, offset: 90964},
+																																														pos: position{line: 2885, col: 8, offset: 91035},
 																																														expr: &anyMatcher{
-																																															line: 2882, col: 9, offset: 90965,
+																																															line: 2885, col: 9, offset: 91036,
 																																														},
 																																													},
 																																												},
@@ -9875,16 +9875,16 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2882, col: 8, offset: 90964},
+																																										pos: position{line: 2885, col: 8, offset: 91035},
 																																										expr: &anyMatcher{
-																																											line: 2882, col: 9, offset: 90965,
+																																											line: 2885, col: 9, offset: 91036,
 																																										},
 																																									},
 																																								},
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2654, col: 9, offset: 84467},
+																																							pos: position{line: 2657, col: 9, offset: 84538},
 																																							expr: &actionExpr{
 																																								pos: position{line: 677, col: 14, offset: 21557},
 																																								run: (*parser).callonDocumentFragment1264,
@@ -9892,18 +9892,18 @@ var g = &grammar{
 																																									pos: position{line: 677, col: 14, offset: 21557},
 																																									exprs: []interface{}{
 																																										&andExpr{
-																																											pos: position{line: 2880, col: 11, offset: 90950},
+																																											pos: position{line: 2883, col: 11, offset: 91021},
 																																											expr: &anyMatcher{
-																																												line: 2880, col: 13, offset: 90952,
+																																												line: 2883, col: 13, offset: 91023,
 																																											},
 																																										},
 																																										&zeroOrMoreExpr{
 																																											pos: position{line: 677, col: 21, offset: 21564},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2863, col: 10, offset: 90616},
+																																												pos: position{line: 2866, col: 10, offset: 90687},
 																																												run: (*parser).callonDocumentFragment1269,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2863, col: 10, offset: 90616},
+																																													pos:        position{line: 2866, col: 10, offset: 90687},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -9912,28 +9912,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2885, col: 8, offset: 91014},
+																																											pos: position{line: 2888, col: 8, offset: 91085},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2872, col: 12, offset: 90787},
+																																													pos: position{line: 2875, col: 12, offset: 90858},
 																																													run: (*parser).callonDocumentFragment1272,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2872, col: 13, offset: 90788},
+																																														pos: position{line: 2875, col: 13, offset: 90859},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2872, col: 13, offset: 90788},
+																																																pos:        position{line: 2875, col: 13, offset: 90859},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2872, col: 20, offset: 90795},
+																																																pos:        position{line: 2875, col: 20, offset: 90866},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2872, col: 29, offset: 90804},
+																																																pos:        position{line: 2875, col: 29, offset: 90875},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -9942,9 +9942,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2882, col: 8, offset: 90964},
+																																													pos: position{line: 2885, col: 8, offset: 91035},
 																																													expr: &anyMatcher{
-																																														line: 2882, col: 9, offset: 90965,
+																																														line: 2885, col: 9, offset: 91036,
 																																													},
 																																												},
 																																											},
@@ -9954,22 +9954,22 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2655, col: 9, offset: 84486},
+																																							pos: position{line: 2658, col: 9, offset: 84557},
 																																							expr: &seqExpr{
-																																								pos: position{line: 2655, col: 11, offset: 84488},
+																																								pos: position{line: 2658, col: 11, offset: 84559},
 																																								exprs: []interface{}{
 																																									&labeledExpr{
-																																										pos:   position{line: 2655, col: 11, offset: 84488},
+																																										pos:   position{line: 2658, col: 11, offset: 84559},
 																																										label: "format",
 																																										expr: &zeroOrOneExpr{
-																																											pos: position{line: 2655, col: 18, offset: 84495},
+																																											pos: position{line: 2658, col: 18, offset: 84566},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2663, col: 20, offset: 84696},
+																																												pos: position{line: 2666, col: 20, offset: 84767},
 																																												run: (*parser).callonDocumentFragment1283,
 																																												expr: &zeroOrMoreExpr{
-																																													pos: position{line: 2663, col: 20, offset: 84696},
+																																													pos: position{line: 2666, col: 20, offset: 84767},
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2663, col: 20, offset: 84696},
+																																														pos:        position{line: 2666, col: 20, offset: 84767},
 																																														val:        "[^ |\\r\\n]",
 																																														chars:      []rune{' ', '|', '\r', '\n'},
 																																														ignoreCase: false,
@@ -9980,7 +9980,7 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2655, col: 37, offset: 84514},
+																																										pos:        position{line: 2658, col: 37, offset: 84585},
 																																										val:        "|",
 																																										ignoreCase: false,
 																																										want:       "\"|\"",
@@ -9989,15 +9989,15 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&labeledExpr{
-																																							pos:   position{line: 2656, col: 9, offset: 84527},
+																																							pos:   position{line: 2659, col: 9, offset: 84598},
 																																							label: "content",
 																																							expr: &actionExpr{
-																																								pos: position{line: 2656, col: 18, offset: 84536},
+																																								pos: position{line: 2659, col: 18, offset: 84607},
 																																								run: (*parser).callonDocumentFragment1288,
 																																								expr: &zeroOrMoreExpr{
-																																									pos: position{line: 2656, col: 18, offset: 84536},
+																																									pos: position{line: 2659, col: 18, offset: 84607},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2656, col: 18, offset: 84536},
+																																										pos:        position{line: 2659, col: 18, offset: 84607},
 																																										val:        "[^|\\r\\n]",
 																																										chars:      []rune{'|', '\r', '\n'},
 																																										ignoreCase: false,
@@ -10007,30 +10007,30 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&zeroOrOneExpr{
-																																							pos: position{line: 2658, col: 12, offset: 84598},
+																																							pos: position{line: 2661, col: 12, offset: 84669},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2885, col: 8, offset: 91014},
+																																								pos: position{line: 2888, col: 8, offset: 91085},
 																																								alternatives: []interface{}{
 																																									&actionExpr{
-																																										pos: position{line: 2872, col: 12, offset: 90787},
+																																										pos: position{line: 2875, col: 12, offset: 90858},
 																																										run: (*parser).callonDocumentFragment1293,
 																																										expr: &choiceExpr{
-																																											pos: position{line: 2872, col: 13, offset: 90788},
+																																											pos: position{line: 2875, col: 13, offset: 90859},
 																																											alternatives: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2872, col: 13, offset: 90788},
+																																													pos:        position{line: 2875, col: 13, offset: 90859},
 																																													val:        "\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2872, col: 20, offset: 90795},
+																																													pos:        position{line: 2875, col: 20, offset: 90866},
 																																													val:        "\r\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2872, col: 29, offset: 90804},
+																																													pos:        position{line: 2875, col: 29, offset: 90875},
 																																													val:        "\r",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\"",
@@ -10039,9 +10039,9 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2882, col: 8, offset: 90964},
+																																										pos: position{line: 2885, col: 8, offset: 91035},
 																																										expr: &anyMatcher{
-																																											line: 2882, col: 9, offset: 90965,
+																																											line: 2885, col: 9, offset: 91036,
 																																										},
 																																									},
 																																								},
@@ -10069,18 +10069,18 @@ var g = &grammar{
 																									pos: position{line: 677, col: 14, offset: 21557},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2880, col: 11, offset: 90950},
+																											pos: position{line: 2883, col: 11, offset: 91021},
 																											expr: &anyMatcher{
-																												line: 2880, col: 13, offset: 90952,
+																												line: 2883, col: 13, offset: 91023,
 																											},
 																										},
 																										&zeroOrMoreExpr{
 																											pos: position{line: 677, col: 21, offset: 21564},
 																											expr: &actionExpr{
-																												pos: position{line: 2863, col: 10, offset: 90616},
+																												pos: position{line: 2866, col: 10, offset: 90687},
 																												run: (*parser).callonDocumentFragment1305,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2863, col: 10, offset: 90616},
+																													pos:        position{line: 2866, col: 10, offset: 90687},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -10089,28 +10089,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2885, col: 8, offset: 91014},
+																											pos: position{line: 2888, col: 8, offset: 91085},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2872, col: 12, offset: 90787},
+																													pos: position{line: 2875, col: 12, offset: 90858},
 																													run: (*parser).callonDocumentFragment1308,
 																													expr: &choiceExpr{
-																														pos: position{line: 2872, col: 13, offset: 90788},
+																														pos: position{line: 2875, col: 13, offset: 90859},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 13, offset: 90788},
+																																pos:        position{line: 2875, col: 13, offset: 90859},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 20, offset: 90795},
+																																pos:        position{line: 2875, col: 20, offset: 90866},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 29, offset: 90804},
+																																pos:        position{line: 2875, col: 29, offset: 90875},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -10119,9 +10119,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2882, col: 8, offset: 90964},
+																													pos: position{line: 2885, col: 8, offset: 91035},
 																													expr: &anyMatcher{
-																														line: 2882, col: 9, offset: 90965,
+																														line: 2885, col: 9, offset: 91036,
 																													},
 																												},
 																											},
@@ -10140,24 +10140,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2609, col: 22, offset: 83384},
+														pos: position{line: 2612, col: 22, offset: 83455},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2605, col: 19, offset: 83304},
+																pos: position{line: 2608, col: 19, offset: 83375},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2605, col: 19, offset: 83304},
+																		pos:        position{line: 2608, col: 19, offset: 83375},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2605, col: 26, offset: 83311},
+																		pos: position{line: 2608, col: 26, offset: 83382},
 																		expr: &actionExpr{
-																			pos: position{line: 2863, col: 10, offset: 90616},
+																			pos: position{line: 2866, col: 10, offset: 90687},
 																			run: (*parser).callonDocumentFragment1319,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2863, col: 10, offset: 90616},
+																				pos:        position{line: 2866, col: 10, offset: 90687},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10166,28 +10166,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2885, col: 8, offset: 91014},
+																		pos: position{line: 2888, col: 8, offset: 91085},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2872, col: 12, offset: 90787},
+																				pos: position{line: 2875, col: 12, offset: 90858},
 																				run: (*parser).callonDocumentFragment1322,
 																				expr: &choiceExpr{
-																					pos: position{line: 2872, col: 13, offset: 90788},
+																					pos: position{line: 2875, col: 13, offset: 90859},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 13, offset: 90788},
+																							pos:        position{line: 2875, col: 13, offset: 90859},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 20, offset: 90795},
+																							pos:        position{line: 2875, col: 20, offset: 90866},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 29, offset: 90804},
+																							pos:        position{line: 2875, col: 29, offset: 90875},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10196,9 +10196,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2882, col: 8, offset: 90964},
+																				pos: position{line: 2885, col: 8, offset: 91035},
 																				expr: &anyMatcher{
-																					line: 2882, col: 9, offset: 90965,
+																					line: 2885, col: 9, offset: 91036,
 																				},
 																			},
 																		},
@@ -10206,9 +10206,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2882, col: 8, offset: 90964},
+																pos: position{line: 2885, col: 8, offset: 91035},
 																expr: &anyMatcher{
-																	line: 2882, col: 9, offset: 90965,
+																	line: 2885, col: 9, offset: 91036,
 																},
 															},
 														},
@@ -10241,12 +10241,12 @@ var g = &grammar{
 														pos:   position{line: 2473, col: 49, offset: 79621},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2809, col: 13, offset: 89142},
+															pos: position{line: 2812, col: 13, offset: 89213},
 															run: (*parser).callonDocumentFragment1337,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2809, col: 13, offset: 89142},
+																pos: position{line: 2812, col: 13, offset: 89213},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2809, col: 13, offset: 89142},
+																	pos:        position{line: 2812, col: 13, offset: 89213},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10256,28 +10256,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2885, col: 8, offset: 91014},
+														pos: position{line: 2888, col: 8, offset: 91085},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2872, col: 12, offset: 90787},
+																pos: position{line: 2875, col: 12, offset: 90858},
 																run: (*parser).callonDocumentFragment1341,
 																expr: &choiceExpr{
-																	pos: position{line: 2872, col: 13, offset: 90788},
+																	pos: position{line: 2875, col: 13, offset: 90859},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2872, col: 13, offset: 90788},
+																			pos:        position{line: 2875, col: 13, offset: 90859},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2872, col: 20, offset: 90795},
+																			pos:        position{line: 2875, col: 20, offset: 90866},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2872, col: 29, offset: 90804},
+																			pos:        position{line: 2875, col: 29, offset: 90875},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10286,9 +10286,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2882, col: 8, offset: 90964},
+																pos: position{line: 2885, col: 8, offset: 91035},
 																expr: &anyMatcher{
-																	line: 2882, col: 9, offset: 90965,
+																	line: 2885, col: 9, offset: 91036,
 																},
 															},
 														},
@@ -10324,10 +10324,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1234, col: 36, offset: 38270},
 																		expr: &actionExpr{
-																			pos: position{line: 2863, col: 10, offset: 90616},
+																			pos: position{line: 2866, col: 10, offset: 90687},
 																			run: (*parser).callonDocumentFragment1356,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2863, col: 10, offset: 90616},
+																				pos:        position{line: 2866, col: 10, offset: 90687},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10336,28 +10336,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2885, col: 8, offset: 91014},
+																		pos: position{line: 2888, col: 8, offset: 91085},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2872, col: 12, offset: 90787},
+																				pos: position{line: 2875, col: 12, offset: 90858},
 																				run: (*parser).callonDocumentFragment1359,
 																				expr: &choiceExpr{
-																					pos: position{line: 2872, col: 13, offset: 90788},
+																					pos: position{line: 2875, col: 13, offset: 90859},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 13, offset: 90788},
+																							pos:        position{line: 2875, col: 13, offset: 90859},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 20, offset: 90795},
+																							pos:        position{line: 2875, col: 20, offset: 90866},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 29, offset: 90804},
+																							pos:        position{line: 2875, col: 29, offset: 90875},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10366,9 +10366,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2882, col: 8, offset: 90964},
+																				pos: position{line: 2885, col: 8, offset: 91035},
 																				expr: &anyMatcher{
-																					line: 2882, col: 9, offset: 90965,
+																					line: 2885, col: 9, offset: 91036,
 																				},
 																			},
 																		},
@@ -10402,10 +10402,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 1234, col: 36, offset: 38270},
 																												expr: &actionExpr{
-																													pos: position{line: 2863, col: 10, offset: 90616},
+																													pos: position{line: 2866, col: 10, offset: 90687},
 																													run: (*parser).callonDocumentFragment1376,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2863, col: 10, offset: 90616},
+																														pos:        position{line: 2866, col: 10, offset: 90687},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -10414,28 +10414,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2885, col: 8, offset: 91014},
+																												pos: position{line: 2888, col: 8, offset: 91085},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2872, col: 12, offset: 90787},
+																														pos: position{line: 2875, col: 12, offset: 90858},
 																														run: (*parser).callonDocumentFragment1379,
 																														expr: &choiceExpr{
-																															pos: position{line: 2872, col: 13, offset: 90788},
+																															pos: position{line: 2875, col: 13, offset: 90859},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2872, col: 13, offset: 90788},
+																																	pos:        position{line: 2875, col: 13, offset: 90859},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2872, col: 20, offset: 90795},
+																																	pos:        position{line: 2875, col: 20, offset: 90866},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2872, col: 29, offset: 90804},
+																																	pos:        position{line: 2875, col: 29, offset: 90875},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -10444,9 +10444,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2882, col: 8, offset: 90964},
+																														pos: position{line: 2885, col: 8, offset: 91035},
 																														expr: &anyMatcher{
-																															line: 2882, col: 9, offset: 90965,
+																															line: 2885, col: 9, offset: 91036,
 																														},
 																													},
 																												},
@@ -10473,10 +10473,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1234, col: 36, offset: 38270},
 																		expr: &actionExpr{
-																			pos: position{line: 2863, col: 10, offset: 90616},
+																			pos: position{line: 2866, col: 10, offset: 90687},
 																			run: (*parser).callonDocumentFragment1389,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2863, col: 10, offset: 90616},
+																				pos:        position{line: 2866, col: 10, offset: 90687},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10485,28 +10485,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2885, col: 8, offset: 91014},
+																		pos: position{line: 2888, col: 8, offset: 91085},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2872, col: 12, offset: 90787},
+																				pos: position{line: 2875, col: 12, offset: 90858},
 																				run: (*parser).callonDocumentFragment1392,
 																				expr: &choiceExpr{
-																					pos: position{line: 2872, col: 13, offset: 90788},
+																					pos: position{line: 2875, col: 13, offset: 90859},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 13, offset: 90788},
+																							pos:        position{line: 2875, col: 13, offset: 90859},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 20, offset: 90795},
+																							pos:        position{line: 2875, col: 20, offset: 90866},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 29, offset: 90804},
+																							pos:        position{line: 2875, col: 29, offset: 90875},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10515,9 +10515,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2882, col: 8, offset: 90964},
+																				pos: position{line: 2885, col: 8, offset: 91035},
 																				expr: &anyMatcher{
-																					line: 2882, col: 9, offset: 90965,
+																					line: 2885, col: 9, offset: 91036,
 																				},
 																			},
 																		},
@@ -10618,9 +10618,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2882, col: 8, offset: 90964},
+							pos: position{line: 2885, col: 8, offset: 91035},
 							expr: &anyMatcher{
-								line: 2882, col: 9, offset: 90965,
+								line: 2885, col: 9, offset: 91036,
 							},
 						},
 					},
@@ -10692,12 +10692,12 @@ var g = &grammar{
 										pos: position{line: 305, col: 9, offset: 9232},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2867, col: 11, offset: 90677},
+												pos: position{line: 2870, col: 11, offset: 90748},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2867, col: 11, offset: 90677},
+													pos: position{line: 2870, col: 11, offset: 90748},
 													expr: &charClassMatcher{
-														pos:        position{line: 2867, col: 11, offset: 90677},
+														pos:        position{line: 2870, col: 11, offset: 90748},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10721,10 +10721,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 310, col: 5, offset: 9412},
 							expr: &actionExpr{
-								pos: position{line: 2863, col: 10, offset: 90616},
+								pos: position{line: 2866, col: 10, offset: 90687},
 								run: (*parser).callonAttributeDeclaration21,
 								expr: &charClassMatcher{
-									pos:        position{line: 2863, col: 10, offset: 90616},
+									pos:        position{line: 2866, col: 10, offset: 90687},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -10733,28 +10733,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2885, col: 8, offset: 91014},
+							pos: position{line: 2888, col: 8, offset: 91085},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2872, col: 12, offset: 90787},
+									pos: position{line: 2875, col: 12, offset: 90858},
 									run: (*parser).callonAttributeDeclaration24,
 									expr: &choiceExpr{
-										pos: position{line: 2872, col: 13, offset: 90788},
+										pos: position{line: 2875, col: 13, offset: 90859},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2872, col: 13, offset: 90788},
+												pos:        position{line: 2875, col: 13, offset: 90859},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2872, col: 20, offset: 90795},
+												pos:        position{line: 2875, col: 20, offset: 90866},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2872, col: 29, offset: 90804},
+												pos:        position{line: 2875, col: 29, offset: 90875},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10763,9 +10763,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2882, col: 8, offset: 90964},
+									pos: position{line: 2885, col: 8, offset: 91035},
 									expr: &anyMatcher{
-										line: 2882, col: 9, offset: 90965,
+										line: 2885, col: 9, offset: 91036,
 									},
 								},
 							},
@@ -10811,10 +10811,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 325, col: 14, offset: 9909},
 												expr: &actionExpr{
-													pos: position{line: 2863, col: 10, offset: 90616},
+													pos: position{line: 2866, col: 10, offset: 90687},
 													run: (*parser).callonAttributeDeclarationValue11,
 													expr: &charClassMatcher{
-														pos:        position{line: 2863, col: 10, offset: 90616},
+														pos:        position{line: 2866, col: 10, offset: 90687},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10823,25 +10823,25 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 2872, col: 12, offset: 90787},
+												pos: position{line: 2875, col: 12, offset: 90858},
 												run: (*parser).callonAttributeDeclarationValue13,
 												expr: &choiceExpr{
-													pos: position{line: 2872, col: 13, offset: 90788},
+													pos: position{line: 2875, col: 13, offset: 90859},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2872, col: 13, offset: 90788},
+															pos:        position{line: 2875, col: 13, offset: 90859},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2872, col: 20, offset: 90795},
+															pos:        position{line: 2875, col: 20, offset: 90866},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2872, col: 29, offset: 90804},
+															pos:        position{line: 2875, col: 29, offset: 90875},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10852,10 +10852,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 326, col: 9, offset: 9933},
 												expr: &actionExpr{
-													pos: position{line: 2863, col: 10, offset: 90616},
+													pos: position{line: 2866, col: 10, offset: 90687},
 													run: (*parser).callonAttributeDeclarationValue19,
 													expr: &charClassMatcher{
-														pos:        position{line: 2863, col: 10, offset: 90616},
+														pos:        position{line: 2866, col: 10, offset: 90687},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10925,10 +10925,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 344, col: 13, offset: 10478},
 										expr: &actionExpr{
-											pos: position{line: 2863, col: 10, offset: 90616},
+											pos: position{line: 2866, col: 10, offset: 90687},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2863, col: 10, offset: 90616},
+												pos:        position{line: 2866, col: 10, offset: 90687},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10937,28 +10937,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2885, col: 8, offset: 91014},
+										pos: position{line: 2888, col: 8, offset: 91085},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2872, col: 12, offset: 90787},
+												pos: position{line: 2875, col: 12, offset: 90858},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2872, col: 13, offset: 90788},
+													pos: position{line: 2875, col: 13, offset: 90859},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2872, col: 13, offset: 90788},
+															pos:        position{line: 2875, col: 13, offset: 90859},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2872, col: 20, offset: 90795},
+															pos:        position{line: 2875, col: 20, offset: 90866},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2872, col: 29, offset: 90804},
+															pos:        position{line: 2875, col: 29, offset: 90875},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10967,9 +10967,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2882, col: 8, offset: 90964},
+												pos: position{line: 2885, col: 8, offset: 91035},
 												expr: &anyMatcher{
-													line: 2882, col: 9, offset: 90965,
+													line: 2885, col: 9, offset: 91036,
 												},
 											},
 										},
@@ -11030,10 +11030,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2863, col: 10, offset: 90616},
+										pos: position{line: 2866, col: 10, offset: 90687},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2863, col: 10, offset: 90616},
+											pos:        position{line: 2866, col: 10, offset: 90687},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -11870,10 +11870,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 372, col: 35, offset: 11487},
 												expr: &actionExpr{
-													pos: position{line: 2863, col: 10, offset: 90616},
+													pos: position{line: 2866, col: 10, offset: 90687},
 													run: (*parser).callonBlockAttributes100,
 													expr: &charClassMatcher{
-														pos:        position{line: 2863, col: 10, offset: 90616},
+														pos:        position{line: 2866, col: 10, offset: 90687},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11882,28 +11882,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2885, col: 8, offset: 91014},
+												pos: position{line: 2888, col: 8, offset: 91085},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2872, col: 12, offset: 90787},
+														pos: position{line: 2875, col: 12, offset: 90858},
 														run: (*parser).callonBlockAttributes103,
 														expr: &choiceExpr{
-															pos: position{line: 2872, col: 13, offset: 90788},
+															pos: position{line: 2875, col: 13, offset: 90859},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2872, col: 13, offset: 90788},
+																	pos:        position{line: 2875, col: 13, offset: 90859},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2872, col: 20, offset: 90795},
+																	pos:        position{line: 2875, col: 20, offset: 90866},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2872, col: 29, offset: 90804},
+																	pos:        position{line: 2875, col: 29, offset: 90875},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11912,9 +11912,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2882, col: 8, offset: 90964},
+														pos: position{line: 2885, col: 8, offset: 91035},
 														expr: &anyMatcher{
-															line: 2882, col: 9, offset: 90965,
+															line: 2885, col: 9, offset: 91036,
 														},
 													},
 												},
@@ -11928,18 +11928,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21557},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2880, col: 11, offset: 90950},
+																pos: position{line: 2883, col: 11, offset: 91021},
 																expr: &anyMatcher{
-																	line: 2880, col: 13, offset: 90952,
+																	line: 2883, col: 13, offset: 91023,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21564},
 																expr: &actionExpr{
-																	pos: position{line: 2863, col: 10, offset: 90616},
+																	pos: position{line: 2866, col: 10, offset: 90687},
 																	run: (*parser).callonBlockAttributes116,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2863, col: 10, offset: 90616},
+																		pos:        position{line: 2866, col: 10, offset: 90687},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -11948,28 +11948,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2885, col: 8, offset: 91014},
+																pos: position{line: 2888, col: 8, offset: 91085},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2872, col: 12, offset: 90787},
+																		pos: position{line: 2875, col: 12, offset: 90858},
 																		run: (*parser).callonBlockAttributes119,
 																		expr: &choiceExpr{
-																			pos: position{line: 2872, col: 13, offset: 90788},
+																			pos: position{line: 2875, col: 13, offset: 90859},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2872, col: 13, offset: 90788},
+																					pos:        position{line: 2875, col: 13, offset: 90859},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2872, col: 20, offset: 90795},
+																					pos:        position{line: 2875, col: 20, offset: 90866},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2872, col: 29, offset: 90804},
+																					pos:        position{line: 2875, col: 29, offset: 90875},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -11978,9 +11978,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2882, col: 8, offset: 90964},
+																		pos: position{line: 2885, col: 8, offset: 91035},
 																		expr: &anyMatcher{
-																			line: 2882, col: 9, offset: 90965,
+																			line: 2885, col: 9, offset: 91036,
 																		},
 																	},
 																},
@@ -12032,12 +12032,12 @@ var g = &grammar{
 																		pos: position{line: 426, col: 9, offset: 13131},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2757, col: 14, offset: 87785},
+																				pos: position{line: 2760, col: 14, offset: 87856},
 																				run: (*parser).callonBlockAttributes137,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2757, col: 14, offset: 87785},
+																					pos: position{line: 2760, col: 14, offset: 87856},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2757, col: 14, offset: 87785},
+																						pos:        position{line: 2760, col: 14, offset: 87856},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -12046,10 +12046,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2863, col: 10, offset: 90616},
+																				pos: position{line: 2866, col: 10, offset: 90687},
 																				run: (*parser).callonBlockAttributes140,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2863, col: 10, offset: 90616},
+																					pos:        position{line: 2866, col: 10, offset: 90687},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -12057,27 +12057,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2780, col: 5, offset: 88270},
+																				pos: position{line: 2783, col: 5, offset: 88341},
 																				run: (*parser).callonBlockAttributes142,
 																				expr: &choiceExpr{
-																					pos: position{line: 2781, col: 9, offset: 88280},
+																					pos: position{line: 2784, col: 9, offset: 88351},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2781, col: 10, offset: 88281},
+																							pos:        position{line: 2784, col: 10, offset: 88352},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2783, col: 13, offset: 88378},
+																							pos: position{line: 2786, col: 13, offset: 88449},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2783, col: 13, offset: 88378},
+																									pos: position{line: 2786, col: 13, offset: 88449},
 																									run: (*parser).callonBlockAttributes146,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2786, col: 13, offset: 88478},
+																									pos:        position{line: 2789, col: 13, offset: 88549},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -12085,20 +12085,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2786, col: 19, offset: 88484},
+																							pos:        position{line: 2789, col: 19, offset: 88555},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2789, col: 13, offset: 88522},
+																							pos: position{line: 2792, col: 13, offset: 88593},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2789, col: 13, offset: 88522},
+																									pos: position{line: 2792, col: 13, offset: 88593},
 																									run: (*parser).callonBlockAttributes150,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2792, col: 14, offset: 88615},
+																									pos:        position{line: 2795, col: 14, offset: 88686},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -12107,18 +12107,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2794, col: 12, offset: 88659},
+																							pos: position{line: 2797, col: 12, offset: 88730},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2794, col: 12, offset: 88659},
+																									pos:        position{line: 2797, col: 12, offset: 88730},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2794, col: 16, offset: 88663},
+																									pos: position{line: 2797, col: 16, offset: 88734},
 																									expr: &litMatcher{
-																										pos:        position{line: 2794, col: 17, offset: 88664},
+																										pos:        position{line: 2797, col: 17, offset: 88735},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12236,10 +12236,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2802, col: 12, offset: 88924},
+																				pos: position{line: 2805, col: 12, offset: 88995},
 																				run: (*parser).callonBlockAttributes176,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2802, col: 12, offset: 88924},
+																					pos:        position{line: 2805, col: 12, offset: 88995},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12257,10 +12257,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 376, col: 35, offset: 11642},
 												expr: &actionExpr{
-													pos: position{line: 2863, col: 10, offset: 90616},
+													pos: position{line: 2866, col: 10, offset: 90687},
 													run: (*parser).callonBlockAttributes179,
 													expr: &charClassMatcher{
-														pos:        position{line: 2863, col: 10, offset: 90616},
+														pos:        position{line: 2866, col: 10, offset: 90687},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12269,28 +12269,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2885, col: 8, offset: 91014},
+												pos: position{line: 2888, col: 8, offset: 91085},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2872, col: 12, offset: 90787},
+														pos: position{line: 2875, col: 12, offset: 90858},
 														run: (*parser).callonBlockAttributes182,
 														expr: &choiceExpr{
-															pos: position{line: 2872, col: 13, offset: 90788},
+															pos: position{line: 2875, col: 13, offset: 90859},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2872, col: 13, offset: 90788},
+																	pos:        position{line: 2875, col: 13, offset: 90859},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2872, col: 20, offset: 90795},
+																	pos:        position{line: 2875, col: 20, offset: 90866},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2872, col: 29, offset: 90804},
+																	pos:        position{line: 2875, col: 29, offset: 90875},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12299,9 +12299,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2882, col: 8, offset: 90964},
+														pos: position{line: 2885, col: 8, offset: 91035},
 														expr: &anyMatcher{
-															line: 2882, col: 9, offset: 90965,
+															line: 2885, col: 9, offset: 91036,
 														},
 													},
 												},
@@ -12315,18 +12315,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21557},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2880, col: 11, offset: 90950},
+																pos: position{line: 2883, col: 11, offset: 91021},
 																expr: &anyMatcher{
-																	line: 2880, col: 13, offset: 90952,
+																	line: 2883, col: 13, offset: 91023,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21564},
 																expr: &actionExpr{
-																	pos: position{line: 2863, col: 10, offset: 90616},
+																	pos: position{line: 2866, col: 10, offset: 90687},
 																	run: (*parser).callonBlockAttributes195,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2863, col: 10, offset: 90616},
+																		pos:        position{line: 2866, col: 10, offset: 90687},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12335,28 +12335,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2885, col: 8, offset: 91014},
+																pos: position{line: 2888, col: 8, offset: 91085},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2872, col: 12, offset: 90787},
+																		pos: position{line: 2875, col: 12, offset: 90858},
 																		run: (*parser).callonBlockAttributes198,
 																		expr: &choiceExpr{
-																			pos: position{line: 2872, col: 13, offset: 90788},
+																			pos: position{line: 2875, col: 13, offset: 90859},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2872, col: 13, offset: 90788},
+																					pos:        position{line: 2875, col: 13, offset: 90859},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2872, col: 20, offset: 90795},
+																					pos:        position{line: 2875, col: 20, offset: 90866},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2872, col: 29, offset: 90804},
+																					pos:        position{line: 2875, col: 29, offset: 90875},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12365,9 +12365,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2882, col: 8, offset: 90964},
+																		pos: position{line: 2885, col: 8, offset: 91035},
 																		expr: &anyMatcher{
-																			line: 2882, col: 9, offset: 90965,
+																			line: 2885, col: 9, offset: 91036,
 																		},
 																	},
 																},
@@ -12389,10 +12389,10 @@ var g = &grammar{
 												pos:   position{line: 380, col: 12, offset: 11743},
 												label: "start",
 												expr: &actionExpr{
-													pos: position{line: 2888, col: 16, offset: 91138},
+													pos: position{line: 2891, col: 16, offset: 91209},
 													run: (*parser).callonBlockAttributes208,
 													expr: &litMatcher{
-														pos:        position{line: 2888, col: 16, offset: 91138},
+														pos:        position{line: 2891, col: 16, offset: 91209},
 														val:        "",
 														ignoreCase: false,
 														want:       "\"\"",
@@ -12410,10 +12410,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 380, col: 64, offset: 11795},
 												expr: &actionExpr{
-													pos: position{line: 2863, col: 10, offset: 90616},
+													pos: position{line: 2866, col: 10, offset: 90687},
 													run: (*parser).callonBlockAttributes213,
 													expr: &charClassMatcher{
-														pos:        position{line: 2863, col: 10, offset: 90616},
+														pos:        position{line: 2866, col: 10, offset: 90687},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12425,10 +12425,10 @@ var g = &grammar{
 												pos:   position{line: 380, col: 71, offset: 11802},
 												label: "end",
 												expr: &actionExpr{
-													pos: position{line: 2888, col: 16, offset: 91138},
+													pos: position{line: 2891, col: 16, offset: 91209},
 													run: (*parser).callonBlockAttributes216,
 													expr: &litMatcher{
-														pos:        position{line: 2888, col: 16, offset: 91138},
+														pos:        position{line: 2891, col: 16, offset: 91209},
 														val:        "",
 														ignoreCase: false,
 														want:       "\"\"",
@@ -12440,28 +12440,28 @@ var g = &grammar{
 												run: (*parser).callonBlockAttributes218,
 											},
 											&choiceExpr{
-												pos: position{line: 2885, col: 8, offset: 91014},
+												pos: position{line: 2888, col: 8, offset: 91085},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2872, col: 12, offset: 90787},
+														pos: position{line: 2875, col: 12, offset: 90858},
 														run: (*parser).callonBlockAttributes220,
 														expr: &choiceExpr{
-															pos: position{line: 2872, col: 13, offset: 90788},
+															pos: position{line: 2875, col: 13, offset: 90859},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2872, col: 13, offset: 90788},
+																	pos:        position{line: 2875, col: 13, offset: 90859},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2872, col: 20, offset: 90795},
+																	pos:        position{line: 2875, col: 20, offset: 90866},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2872, col: 29, offset: 90804},
+																	pos:        position{line: 2875, col: 29, offset: 90875},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12470,9 +12470,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2882, col: 8, offset: 90964},
+														pos: position{line: 2885, col: 8, offset: 91035},
 														expr: &anyMatcher{
-															line: 2882, col: 9, offset: 90965,
+															line: 2885, col: 9, offset: 91036,
 														},
 													},
 												},
@@ -12486,18 +12486,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21557},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2880, col: 11, offset: 90950},
+																pos: position{line: 2883, col: 11, offset: 91021},
 																expr: &anyMatcher{
-																	line: 2880, col: 13, offset: 90952,
+																	line: 2883, col: 13, offset: 91023,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21564},
 																expr: &actionExpr{
-																	pos: position{line: 2863, col: 10, offset: 90616},
+																	pos: position{line: 2866, col: 10, offset: 90687},
 																	run: (*parser).callonBlockAttributes233,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2863, col: 10, offset: 90616},
+																		pos:        position{line: 2866, col: 10, offset: 90687},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12506,28 +12506,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2885, col: 8, offset: 91014},
+																pos: position{line: 2888, col: 8, offset: 91085},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2872, col: 12, offset: 90787},
+																		pos: position{line: 2875, col: 12, offset: 90858},
 																		run: (*parser).callonBlockAttributes236,
 																		expr: &choiceExpr{
-																			pos: position{line: 2872, col: 13, offset: 90788},
+																			pos: position{line: 2875, col: 13, offset: 90859},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2872, col: 13, offset: 90788},
+																					pos:        position{line: 2875, col: 13, offset: 90859},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2872, col: 20, offset: 90795},
+																					pos:        position{line: 2875, col: 20, offset: 90866},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2872, col: 29, offset: 90804},
+																					pos:        position{line: 2875, col: 29, offset: 90875},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12536,9 +12536,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2882, col: 8, offset: 90964},
+																		pos: position{line: 2885, col: 8, offset: 91035},
 																		expr: &anyMatcher{
-																			line: 2882, col: 9, offset: 90965,
+																			line: 2885, col: 9, offset: 91036,
 																		},
 																	},
 																},
@@ -12786,10 +12786,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 466, col: 13, offset: 14599},
 										expr: &actionExpr{
-											pos: position{line: 2863, col: 10, offset: 90616},
+											pos: position{line: 2866, col: 10, offset: 90687},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2863, col: 10, offset: 90616},
+												pos:        position{line: 2866, col: 10, offset: 90687},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13321,10 +13321,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 518, col: 9, offset: 16181},
 													expr: &actionExpr{
-														pos: position{line: 2863, col: 10, offset: 90616},
+														pos: position{line: 2866, col: 10, offset: 90687},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2863, col: 10, offset: 90616},
+															pos:        position{line: 2866, col: 10, offset: 90687},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13385,10 +13385,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 524, col: 34, offset: 16324},
 														expr: &actionExpr{
-															pos: position{line: 2863, col: 10, offset: 90616},
+															pos: position{line: 2866, col: 10, offset: 90687},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2863, col: 10, offset: 90616},
+																pos:        position{line: 2866, col: 10, offset: 90687},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13428,10 +13428,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 529, col: 13, offset: 16488},
 												expr: &actionExpr{
-													pos: position{line: 2863, col: 10, offset: 90616},
+													pos: position{line: 2866, col: 10, offset: 90687},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2863, col: 10, offset: 90616},
+														pos:        position{line: 2866, col: 10, offset: 90687},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13454,10 +13454,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 529, col: 26, offset: 16501},
 																expr: &actionExpr{
-																	pos: position{line: 2863, col: 10, offset: 90616},
+																	pos: position{line: 2866, col: 10, offset: 90687},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2863, col: 10, offset: 90616},
+																		pos:        position{line: 2866, col: 10, offset: 90687},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13512,10 +13512,10 @@ var g = &grammar{
 										&notExpr{
 											pos: position{line: 549, col: 22, offset: 17148},
 											expr: &actionExpr{
-												pos: position{line: 2863, col: 10, offset: 90616},
+												pos: position{line: 2866, col: 10, offset: 90687},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2863, col: 10, offset: 90616},
+													pos:        position{line: 2866, col: 10, offset: 90687},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13546,10 +13546,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 542, col: 9, offset: 16893},
 							expr: &actionExpr{
-								pos: position{line: 2863, col: 10, offset: 90616},
+								pos: position{line: 2866, col: 10, offset: 90687},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2863, col: 10, offset: 90616},
+									pos:        position{line: 2866, col: 10, offset: 90687},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13579,10 +13579,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 543, col: 33, offset: 16933},
 										expr: &actionExpr{
-											pos: position{line: 2863, col: 10, offset: 90616},
+											pos: position{line: 2866, col: 10, offset: 90687},
 											run: (*parser).callonNamedAttribute21,
 											expr: &charClassMatcher{
-												pos:        position{line: 2863, col: 10, offset: 90616},
+												pos:        position{line: 2866, col: 10, offset: 90687},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13637,10 +13637,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 559, col: 9, offset: 17365},
 											expr: &actionExpr{
-												pos: position{line: 2863, col: 10, offset: 90616},
+												pos: position{line: 2866, col: 10, offset: 90687},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2863, col: 10, offset: 90616},
+													pos:        position{line: 2866, col: 10, offset: 90687},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13719,12 +13719,12 @@ var g = &grammar{
 							pos: position{line: 572, col: 9, offset: 17682},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2757, col: 14, offset: 87785},
+									pos: position{line: 2760, col: 14, offset: 87856},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2757, col: 14, offset: 87785},
+										pos: position{line: 2760, col: 14, offset: 87856},
 										expr: &charClassMatcher{
-											pos:        position{line: 2757, col: 14, offset: 87785},
+											pos:        position{line: 2760, col: 14, offset: 87856},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -13733,10 +13733,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2863, col: 10, offset: 90616},
+									pos: position{line: 2866, col: 10, offset: 90687},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2863, col: 10, offset: 90616},
+										pos:        position{line: 2866, col: 10, offset: 90687},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14193,10 +14193,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 592, col: 14, offset: 18422},
 											expr: &actionExpr{
-												pos: position{line: 2863, col: 10, offset: 90616},
+												pos: position{line: 2866, col: 10, offset: 90687},
 												run: (*parser).callonDoubleQuotedAttributeValue13,
 												expr: &charClassMatcher{
-													pos:        position{line: 2863, col: 10, offset: 90616},
+													pos:        position{line: 2866, col: 10, offset: 90687},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14233,12 +14233,12 @@ var g = &grammar{
 							pos: position{line: 598, col: 9, offset: 18533},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2757, col: 14, offset: 87785},
+									pos: position{line: 2760, col: 14, offset: 87856},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2757, col: 14, offset: 87785},
+										pos: position{line: 2760, col: 14, offset: 87856},
 										expr: &charClassMatcher{
-											pos:        position{line: 2757, col: 14, offset: 87785},
+											pos:        position{line: 2760, col: 14, offset: 87856},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14247,10 +14247,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2863, col: 10, offset: 90616},
+									pos: position{line: 2866, col: 10, offset: 90687},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2863, col: 10, offset: 90616},
+										pos:        position{line: 2866, col: 10, offset: 90687},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14677,10 +14677,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 619, col: 5, offset: 19389},
 							expr: &actionExpr{
-								pos: position{line: 2863, col: 10, offset: 90616},
+								pos: position{line: 2866, col: 10, offset: 90687},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2863, col: 10, offset: 90616},
+									pos:        position{line: 2866, col: 10, offset: 90687},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -15070,10 +15070,10 @@ var g = &grammar{
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2863, col: 10, offset: 90616},
+											pos: position{line: 2866, col: 10, offset: 90687},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2863, col: 10, offset: 90616},
+												pos:        position{line: 2866, col: 10, offset: 90687},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -15124,12 +15124,12 @@ var g = &grammar{
 									pos:   position{line: 686, col: 32, offset: 21917},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2848, col: 7, offset: 90268},
+										pos: position{line: 2851, col: 7, offset: 90339},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2848, col: 7, offset: 90268},
+											pos: position{line: 2851, col: 7, offset: 90339},
 											expr: &charClassMatcher{
-												pos:        position{line: 2848, col: 7, offset: 90268},
+												pos:        position{line: 2851, col: 7, offset: 90339},
 												val:        "[^[]<>,\\r\\n]",
 												chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 												ignoreCase: false,
@@ -15141,10 +15141,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 686, col: 40, offset: 21925},
 									expr: &actionExpr{
-										pos: position{line: 2863, col: 10, offset: 90616},
+										pos: position{line: 2866, col: 10, offset: 90687},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2863, col: 10, offset: 90616},
+											pos:        position{line: 2866, col: 10, offset: 90687},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15161,10 +15161,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 686, col: 51, offset: 21936},
 									expr: &actionExpr{
-										pos: position{line: 2863, col: 10, offset: 90616},
+										pos: position{line: 2866, col: 10, offset: 90687},
 										run: (*parser).callonCrossReference14,
 										expr: &charClassMatcher{
-											pos:        position{line: 2863, col: 10, offset: 90616},
+											pos:        position{line: 2866, col: 10, offset: 90687},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15339,12 +15339,12 @@ var g = &grammar{
 									pos:   position{line: 688, col: 14, offset: 22049},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2848, col: 7, offset: 90268},
+										pos: position{line: 2851, col: 7, offset: 90339},
 										run: (*parser).callonCrossReference49,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2848, col: 7, offset: 90268},
+											pos: position{line: 2851, col: 7, offset: 90339},
 											expr: &charClassMatcher{
-												pos:        position{line: 2848, col: 7, offset: 90268},
+												pos:        position{line: 2851, col: 7, offset: 90339},
 												val:        "[^[]<>,\\r\\n]",
 												chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 												ignoreCase: false,
@@ -15388,41 +15388,41 @@ var g = &grammar{
 							pos:   position{line: 692, col: 35, offset: 22162},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2817, col: 17, offset: 89279},
+								pos: position{line: 2820, col: 17, offset: 89350},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2817, col: 17, offset: 89279},
+									pos:   position{line: 2820, col: 17, offset: 89350},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2834, col: 5, offset: 89733},
+										pos: position{line: 2837, col: 5, offset: 89804},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2834, col: 5, offset: 89733},
+											pos:   position{line: 2837, col: 5, offset: 89804},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2834, col: 14, offset: 89742},
+												pos: position{line: 2837, col: 14, offset: 89813},
 												expr: &choiceExpr{
-													pos: position{line: 2835, col: 9, offset: 89752},
+													pos: position{line: 2838, col: 9, offset: 89823},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2835, col: 9, offset: 89752},
+															pos: position{line: 2838, col: 9, offset: 89823},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2835, col: 9, offset: 89752},
+																pos: position{line: 2838, col: 9, offset: 89823},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2835, col: 9, offset: 89752},
+																		pos: position{line: 2838, col: 9, offset: 89823},
 																		expr: &litMatcher{
-																			pos:        position{line: 2835, col: 10, offset: 89753},
+																			pos:        position{line: 2838, col: 10, offset: 89824},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2836, col: 9, offset: 89781},
+																		pos: position{line: 2839, col: 9, offset: 89852},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2836, col: 10, offset: 89782},
+																			pos:        position{line: 2839, col: 10, offset: 89853},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -15433,27 +15433,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2839, col: 11, offset: 89994},
+															pos: position{line: 2842, col: 11, offset: 90065},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2839, col: 11, offset: 89994},
+																	pos:        position{line: 2842, col: 11, offset: 90065},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2839, col: 19, offset: 90002},
+																	pos: position{line: 2842, col: 19, offset: 90073},
 																	expr: &seqExpr{
-																		pos: position{line: 2839, col: 21, offset: 90004},
+																		pos: position{line: 2842, col: 21, offset: 90075},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2839, col: 21, offset: 90004},
+																				pos: position{line: 2842, col: 21, offset: 90075},
 																				expr: &actionExpr{
-																					pos: position{line: 2863, col: 10, offset: 90616},
+																					pos: position{line: 2866, col: 10, offset: 90687},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2863, col: 10, offset: 90616},
+																						pos:        position{line: 2866, col: 10, offset: 90687},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -15462,11 +15462,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2839, col: 28, offset: 90011},
+																				pos: position{line: 2842, col: 28, offset: 90082},
 																				expr: &notExpr{
-																					pos: position{line: 2882, col: 8, offset: 90964},
+																					pos: position{line: 2885, col: 8, offset: 91035},
 																					expr: &anyMatcher{
-																						line: 2882, col: 9, offset: 90965,
+																						line: 2885, col: 9, offset: 91036,
 																					},
 																				},
 																			},
@@ -15861,10 +15861,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2842, col: 11, offset: 90131},
+															pos: position{line: 2845, col: 11, offset: 90202},
 															run: (*parser).callonExternalCrossReference104,
 															expr: &litMatcher{
-																pos:        position{line: 2842, col: 11, offset: 90131},
+																pos:        position{line: 2845, col: 11, offset: 90202},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -15909,12 +15909,12 @@ var g = &grammar{
 							pos:   position{line: 989, col: 11, offset: 30879},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2813, col: 14, offset: 89209},
+								pos: position{line: 2816, col: 14, offset: 89280},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2813, col: 14, offset: 89209},
+									pos: position{line: 2816, col: 14, offset: 89280},
 									expr: &charClassMatcher{
-										pos:        position{line: 2813, col: 14, offset: 89209},
+										pos:        position{line: 2816, col: 14, offset: 89280},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -15924,28 +15924,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2885, col: 8, offset: 91014},
+							pos: position{line: 2888, col: 8, offset: 91085},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2872, col: 12, offset: 90787},
+									pos: position{line: 2875, col: 12, offset: 90858},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2872, col: 13, offset: 90788},
+										pos: position{line: 2875, col: 13, offset: 90859},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2872, col: 13, offset: 90788},
+												pos:        position{line: 2875, col: 13, offset: 90859},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2872, col: 20, offset: 90795},
+												pos:        position{line: 2875, col: 20, offset: 90866},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2872, col: 29, offset: 90804},
+												pos:        position{line: 2875, col: 29, offset: 90875},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -15954,9 +15954,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2882, col: 8, offset: 90964},
+									pos: position{line: 2885, col: 8, offset: 91035},
 									expr: &anyMatcher{
-										line: 2882, col: 9, offset: 90965,
+										line: 2885, col: 9, offset: 91036,
 									},
 								},
 							},
@@ -16008,12 +16008,12 @@ var g = &grammar{
 													pos:   position{line: 2473, col: 49, offset: 79621},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2809, col: 13, offset: 89142},
+														pos: position{line: 2812, col: 13, offset: 89213},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2809, col: 13, offset: 89142},
+															pos: position{line: 2812, col: 13, offset: 89213},
 															expr: &charClassMatcher{
-																pos:        position{line: 2809, col: 13, offset: 89142},
+																pos:        position{line: 2812, col: 13, offset: 89213},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16023,28 +16023,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2885, col: 8, offset: 91014},
+													pos: position{line: 2888, col: 8, offset: 91085},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2872, col: 12, offset: 90787},
+															pos: position{line: 2875, col: 12, offset: 90858},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2872, col: 13, offset: 90788},
+																pos: position{line: 2875, col: 13, offset: 90859},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2872, col: 13, offset: 90788},
+																		pos:        position{line: 2875, col: 13, offset: 90859},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2872, col: 20, offset: 90795},
+																		pos:        position{line: 2875, col: 20, offset: 90866},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2872, col: 29, offset: 90804},
+																		pos:        position{line: 2875, col: 29, offset: 90875},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16053,9 +16053,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2882, col: 8, offset: 90964},
+															pos: position{line: 2885, col: 8, offset: 91035},
 															expr: &anyMatcher{
-																line: 2882, col: 9, offset: 90965,
+																line: 2885, col: 9, offset: 91036,
 															},
 														},
 													},
@@ -16106,10 +16106,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 742, col: 8, offset: 23754},
 																expr: &actionExpr{
-																	pos: position{line: 2863, col: 10, offset: 90616},
+																	pos: position{line: 2866, col: 10, offset: 90687},
 																	run: (*parser).callonDocumentHeader34,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2863, col: 10, offset: 90616},
+																		pos:        position{line: 2866, col: 10, offset: 90687},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16118,28 +16118,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2885, col: 8, offset: 91014},
+																pos: position{line: 2888, col: 8, offset: 91085},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2872, col: 12, offset: 90787},
+																		pos: position{line: 2875, col: 12, offset: 90858},
 																		run: (*parser).callonDocumentHeader37,
 																		expr: &choiceExpr{
-																			pos: position{line: 2872, col: 13, offset: 90788},
+																			pos: position{line: 2875, col: 13, offset: 90859},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2872, col: 13, offset: 90788},
+																					pos:        position{line: 2875, col: 13, offset: 90859},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2872, col: 20, offset: 90795},
+																					pos:        position{line: 2875, col: 20, offset: 90866},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2872, col: 29, offset: 90804},
+																					pos:        position{line: 2875, col: 29, offset: 90875},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -16148,9 +16148,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2882, col: 8, offset: 90964},
+																		pos: position{line: 2885, col: 8, offset: 91035},
 																		expr: &anyMatcher{
-																			line: 2882, col: 9, offset: 90965,
+																			line: 2885, col: 9, offset: 91036,
 																		},
 																	},
 																},
@@ -16211,10 +16211,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 742, col: 8, offset: 23754},
 																								expr: &actionExpr{
-																									pos: position{line: 2863, col: 10, offset: 90616},
+																									pos: position{line: 2866, col: 10, offset: 90687},
 																									run: (*parser).callonDocumentHeader59,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2863, col: 10, offset: 90616},
+																										pos:        position{line: 2866, col: 10, offset: 90687},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -16223,28 +16223,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2885, col: 8, offset: 91014},
+																								pos: position{line: 2888, col: 8, offset: 91085},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2872, col: 12, offset: 90787},
+																										pos: position{line: 2875, col: 12, offset: 90858},
 																										run: (*parser).callonDocumentHeader62,
 																										expr: &choiceExpr{
-																											pos: position{line: 2872, col: 13, offset: 90788},
+																											pos: position{line: 2875, col: 13, offset: 90859},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2872, col: 13, offset: 90788},
+																													pos:        position{line: 2875, col: 13, offset: 90859},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2872, col: 20, offset: 90795},
+																													pos:        position{line: 2875, col: 20, offset: 90866},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2872, col: 29, offset: 90804},
+																													pos:        position{line: 2875, col: 29, offset: 90875},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -16253,9 +16253,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2882, col: 8, offset: 90964},
+																										pos: position{line: 2885, col: 8, offset: 91035},
 																										expr: &anyMatcher{
-																											line: 2882, col: 9, offset: 90965,
+																											line: 2885, col: 9, offset: 91036,
 																										},
 																									},
 																								},
@@ -16264,9 +16264,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2882, col: 8, offset: 90964},
+																					pos: position{line: 2885, col: 8, offset: 91035},
 																					expr: &anyMatcher{
-																						line: 2882, col: 9, offset: 90965,
+																						line: 2885, col: 9, offset: 91036,
 																					},
 																				},
 																			},
@@ -16282,21 +16282,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26161},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2880, col: 11, offset: 90950},
+																						pos: position{line: 2883, col: 11, offset: 91021},
 																						expr: &anyMatcher{
-																							line: 2880, col: 13, offset: 90952,
+																							line: 2883, col: 13, offset: 91023,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26236},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2809, col: 13, offset: 89142},
+																							pos: position{line: 2812, col: 13, offset: 89213},
 																							run: (*parser).callonDocumentHeader77,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2809, col: 13, offset: 89142},
+																								pos: position{line: 2812, col: 13, offset: 89213},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2809, col: 13, offset: 89142},
+																									pos:        position{line: 2812, col: 13, offset: 89213},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16306,28 +16306,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2885, col: 8, offset: 91014},
+																						pos: position{line: 2888, col: 8, offset: 91085},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2872, col: 12, offset: 90787},
+																								pos: position{line: 2875, col: 12, offset: 90858},
 																								run: (*parser).callonDocumentHeader81,
 																								expr: &choiceExpr{
-																									pos: position{line: 2872, col: 13, offset: 90788},
+																									pos: position{line: 2875, col: 13, offset: 90859},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 13, offset: 90788},
+																											pos:        position{line: 2875, col: 13, offset: 90859},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 20, offset: 90795},
+																											pos:        position{line: 2875, col: 20, offset: 90866},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 29, offset: 90804},
+																											pos:        position{line: 2875, col: 29, offset: 90875},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16336,9 +16336,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2882, col: 8, offset: 90964},
+																								pos: position{line: 2885, col: 8, offset: 91035},
 																								expr: &anyMatcher{
-																									line: 2882, col: 9, offset: 90965,
+																									line: 2885, col: 9, offset: 91036,
 																								},
 																							},
 																						},
@@ -16394,10 +16394,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 742, col: 8, offset: 23754},
 																			expr: &actionExpr{
-																				pos: position{line: 2863, col: 10, offset: 90616},
+																				pos: position{line: 2866, col: 10, offset: 90687},
 																				run: (*parser).callonDocumentHeader99,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2863, col: 10, offset: 90616},
+																					pos:        position{line: 2866, col: 10, offset: 90687},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -16406,28 +16406,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2885, col: 8, offset: 91014},
+																			pos: position{line: 2888, col: 8, offset: 91085},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2872, col: 12, offset: 90787},
+																					pos: position{line: 2875, col: 12, offset: 90858},
 																					run: (*parser).callonDocumentHeader102,
 																					expr: &choiceExpr{
-																						pos: position{line: 2872, col: 13, offset: 90788},
+																						pos: position{line: 2875, col: 13, offset: 90859},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2872, col: 13, offset: 90788},
+																								pos:        position{line: 2875, col: 13, offset: 90859},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2872, col: 20, offset: 90795},
+																								pos:        position{line: 2875, col: 20, offset: 90866},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2872, col: 29, offset: 90804},
+																								pos:        position{line: 2875, col: 29, offset: 90875},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -16436,9 +16436,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2882, col: 8, offset: 90964},
+																					pos: position{line: 2885, col: 8, offset: 91035},
 																					expr: &anyMatcher{
-																						line: 2882, col: 9, offset: 90965,
+																						line: 2885, col: 9, offset: 91036,
 																					},
 																				},
 																			},
@@ -16447,9 +16447,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2882, col: 8, offset: 90964},
+																pos: position{line: 2885, col: 8, offset: 91035},
 																expr: &anyMatcher{
-																	line: 2882, col: 9, offset: 90965,
+																	line: 2885, col: 9, offset: 91036,
 																},
 															},
 														},
@@ -16499,12 +16499,12 @@ var g = &grammar{
 													pos:   position{line: 2473, col: 49, offset: 79621},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2809, col: 13, offset: 89142},
+														pos: position{line: 2812, col: 13, offset: 89213},
 														run: (*parser).callonDocumentHeader121,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2809, col: 13, offset: 89142},
+															pos: position{line: 2812, col: 13, offset: 89213},
 															expr: &charClassMatcher{
-																pos:        position{line: 2809, col: 13, offset: 89142},
+																pos:        position{line: 2812, col: 13, offset: 89213},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16514,28 +16514,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2885, col: 8, offset: 91014},
+													pos: position{line: 2888, col: 8, offset: 91085},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2872, col: 12, offset: 90787},
+															pos: position{line: 2875, col: 12, offset: 90858},
 															run: (*parser).callonDocumentHeader125,
 															expr: &choiceExpr{
-																pos: position{line: 2872, col: 13, offset: 90788},
+																pos: position{line: 2875, col: 13, offset: 90859},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2872, col: 13, offset: 90788},
+																		pos:        position{line: 2875, col: 13, offset: 90859},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2872, col: 20, offset: 90795},
+																		pos:        position{line: 2875, col: 20, offset: 90866},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2872, col: 29, offset: 90804},
+																		pos:        position{line: 2875, col: 29, offset: 90875},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16544,9 +16544,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2882, col: 8, offset: 90964},
+															pos: position{line: 2885, col: 8, offset: 91035},
 															expr: &anyMatcher{
-																line: 2882, col: 9, offset: 90965,
+																line: 2885, col: 9, offset: 91036,
 															},
 														},
 													},
@@ -16597,10 +16597,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 742, col: 8, offset: 23754},
 																expr: &actionExpr{
-																	pos: position{line: 2863, col: 10, offset: 90616},
+																	pos: position{line: 2866, col: 10, offset: 90687},
 																	run: (*parser).callonDocumentHeader143,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2863, col: 10, offset: 90616},
+																		pos:        position{line: 2866, col: 10, offset: 90687},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16609,28 +16609,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2885, col: 8, offset: 91014},
+																pos: position{line: 2888, col: 8, offset: 91085},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2872, col: 12, offset: 90787},
+																		pos: position{line: 2875, col: 12, offset: 90858},
 																		run: (*parser).callonDocumentHeader146,
 																		expr: &choiceExpr{
-																			pos: position{line: 2872, col: 13, offset: 90788},
+																			pos: position{line: 2875, col: 13, offset: 90859},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2872, col: 13, offset: 90788},
+																					pos:        position{line: 2875, col: 13, offset: 90859},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2872, col: 20, offset: 90795},
+																					pos:        position{line: 2875, col: 20, offset: 90866},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2872, col: 29, offset: 90804},
+																					pos:        position{line: 2875, col: 29, offset: 90875},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -16639,9 +16639,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2882, col: 8, offset: 90964},
+																		pos: position{line: 2885, col: 8, offset: 91035},
 																		expr: &anyMatcher{
-																			line: 2882, col: 9, offset: 90965,
+																			line: 2885, col: 9, offset: 91036,
 																		},
 																	},
 																},
@@ -16702,10 +16702,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 742, col: 8, offset: 23754},
 																								expr: &actionExpr{
-																									pos: position{line: 2863, col: 10, offset: 90616},
+																									pos: position{line: 2866, col: 10, offset: 90687},
 																									run: (*parser).callonDocumentHeader168,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2863, col: 10, offset: 90616},
+																										pos:        position{line: 2866, col: 10, offset: 90687},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -16714,28 +16714,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2885, col: 8, offset: 91014},
+																								pos: position{line: 2888, col: 8, offset: 91085},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2872, col: 12, offset: 90787},
+																										pos: position{line: 2875, col: 12, offset: 90858},
 																										run: (*parser).callonDocumentHeader171,
 																										expr: &choiceExpr{
-																											pos: position{line: 2872, col: 13, offset: 90788},
+																											pos: position{line: 2875, col: 13, offset: 90859},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2872, col: 13, offset: 90788},
+																													pos:        position{line: 2875, col: 13, offset: 90859},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2872, col: 20, offset: 90795},
+																													pos:        position{line: 2875, col: 20, offset: 90866},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2872, col: 29, offset: 90804},
+																													pos:        position{line: 2875, col: 29, offset: 90875},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -16744,9 +16744,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2882, col: 8, offset: 90964},
+																										pos: position{line: 2885, col: 8, offset: 91035},
 																										expr: &anyMatcher{
-																											line: 2882, col: 9, offset: 90965,
+																											line: 2885, col: 9, offset: 91036,
 																										},
 																									},
 																								},
@@ -16755,9 +16755,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2882, col: 8, offset: 90964},
+																					pos: position{line: 2885, col: 8, offset: 91035},
 																					expr: &anyMatcher{
-																						line: 2882, col: 9, offset: 90965,
+																						line: 2885, col: 9, offset: 91036,
 																					},
 																				},
 																			},
@@ -16773,21 +16773,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26161},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2880, col: 11, offset: 90950},
+																						pos: position{line: 2883, col: 11, offset: 91021},
 																						expr: &anyMatcher{
-																							line: 2880, col: 13, offset: 90952,
+																							line: 2883, col: 13, offset: 91023,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26236},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2809, col: 13, offset: 89142},
+																							pos: position{line: 2812, col: 13, offset: 89213},
 																							run: (*parser).callonDocumentHeader186,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2809, col: 13, offset: 89142},
+																								pos: position{line: 2812, col: 13, offset: 89213},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2809, col: 13, offset: 89142},
+																									pos:        position{line: 2812, col: 13, offset: 89213},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16797,28 +16797,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2885, col: 8, offset: 91014},
+																						pos: position{line: 2888, col: 8, offset: 91085},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2872, col: 12, offset: 90787},
+																								pos: position{line: 2875, col: 12, offset: 90858},
 																								run: (*parser).callonDocumentHeader190,
 																								expr: &choiceExpr{
-																									pos: position{line: 2872, col: 13, offset: 90788},
+																									pos: position{line: 2875, col: 13, offset: 90859},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 13, offset: 90788},
+																											pos:        position{line: 2875, col: 13, offset: 90859},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 20, offset: 90795},
+																											pos:        position{line: 2875, col: 20, offset: 90866},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 29, offset: 90804},
+																											pos:        position{line: 2875, col: 29, offset: 90875},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16827,9 +16827,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2882, col: 8, offset: 90964},
+																								pos: position{line: 2885, col: 8, offset: 91035},
 																								expr: &anyMatcher{
-																									line: 2882, col: 9, offset: 90965,
+																									line: 2885, col: 9, offset: 91036,
 																								},
 																							},
 																						},
@@ -16885,10 +16885,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 742, col: 8, offset: 23754},
 																			expr: &actionExpr{
-																				pos: position{line: 2863, col: 10, offset: 90616},
+																				pos: position{line: 2866, col: 10, offset: 90687},
 																				run: (*parser).callonDocumentHeader208,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2863, col: 10, offset: 90616},
+																					pos:        position{line: 2866, col: 10, offset: 90687},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -16897,28 +16897,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2885, col: 8, offset: 91014},
+																			pos: position{line: 2888, col: 8, offset: 91085},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2872, col: 12, offset: 90787},
+																					pos: position{line: 2875, col: 12, offset: 90858},
 																					run: (*parser).callonDocumentHeader211,
 																					expr: &choiceExpr{
-																						pos: position{line: 2872, col: 13, offset: 90788},
+																						pos: position{line: 2875, col: 13, offset: 90859},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2872, col: 13, offset: 90788},
+																								pos:        position{line: 2875, col: 13, offset: 90859},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2872, col: 20, offset: 90795},
+																								pos:        position{line: 2875, col: 20, offset: 90866},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2872, col: 29, offset: 90804},
+																								pos:        position{line: 2875, col: 29, offset: 90875},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -16927,9 +16927,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2882, col: 8, offset: 90964},
+																					pos: position{line: 2885, col: 8, offset: 91035},
 																					expr: &anyMatcher{
-																						line: 2882, col: 9, offset: 90965,
+																						line: 2885, col: 9, offset: 91036,
 																					},
 																				},
 																			},
@@ -16938,9 +16938,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2882, col: 8, offset: 90964},
+																pos: position{line: 2885, col: 8, offset: 91035},
 																expr: &anyMatcher{
-																	line: 2882, col: 9, offset: 90965,
+																	line: 2885, col: 9, offset: 91036,
 																},
 															},
 														},
@@ -16984,10 +16984,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1125, col: 20, offset: 34759},
 																expr: &actionExpr{
-																	pos: position{line: 2863, col: 10, offset: 90616},
+																	pos: position{line: 2866, col: 10, offset: 90687},
 																	run: (*parser).callonDocumentHeader230,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2863, col: 10, offset: 90616},
+																		pos:        position{line: 2866, col: 10, offset: 90687},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17038,10 +17038,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1144, col: 5, offset: 35364},
 																										expr: &actionExpr{
-																											pos: position{line: 2863, col: 10, offset: 90616},
+																											pos: position{line: 2866, col: 10, offset: 90687},
 																											run: (*parser).callonDocumentHeader245,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2863, col: 10, offset: 90616},
+																												pos:        position{line: 2866, col: 10, offset: 90687},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17073,10 +17073,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1148, col: 5, offset: 35463},
 																										expr: &actionExpr{
-																											pos: position{line: 2863, col: 10, offset: 90616},
+																											pos: position{line: 2866, col: 10, offset: 90687},
 																											run: (*parser).callonDocumentHeader253,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2863, col: 10, offset: 90616},
+																												pos:        position{line: 2866, col: 10, offset: 90687},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17108,10 +17108,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1152, col: 5, offset: 35560},
 																										expr: &actionExpr{
-																											pos: position{line: 2863, col: 10, offset: 90616},
+																											pos: position{line: 2866, col: 10, offset: 90687},
 																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2863, col: 10, offset: 90616},
+																												pos:        position{line: 2866, col: 10, offset: 90687},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17136,9 +17136,9 @@ var g = &grammar{
 																								pos: position{line: 1158, col: 5, offset: 35682},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2880, col: 11, offset: 90950},
+																										pos: position{line: 2883, col: 11, offset: 91021},
 																										expr: &anyMatcher{
-																											line: 2880, col: 13, offset: 90952,
+																											line: 2883, col: 13, offset: 91023,
 																										},
 																									},
 																									&litMatcher{
@@ -17179,10 +17179,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1130, col: 69, offset: 34952},
 																					expr: &actionExpr{
-																						pos: position{line: 2863, col: 10, offset: 90616},
+																						pos: position{line: 2866, col: 10, offset: 90687},
 																						run: (*parser).callonDocumentHeader276,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2863, col: 10, offset: 90616},
+																							pos:        position{line: 2866, col: 10, offset: 90687},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17202,10 +17202,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1130, col: 81, offset: 34964},
 																					expr: &actionExpr{
-																						pos: position{line: 2863, col: 10, offset: 90616},
+																						pos: position{line: 2866, col: 10, offset: 90687},
 																						run: (*parser).callonDocumentHeader281,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2863, col: 10, offset: 90616},
+																							pos:        position{line: 2866, col: 10, offset: 90687},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17223,28 +17223,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2885, col: 8, offset: 91014},
+																pos: position{line: 2888, col: 8, offset: 91085},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2872, col: 12, offset: 90787},
+																		pos: position{line: 2875, col: 12, offset: 90858},
 																		run: (*parser).callonDocumentHeader285,
 																		expr: &choiceExpr{
-																			pos: position{line: 2872, col: 13, offset: 90788},
+																			pos: position{line: 2875, col: 13, offset: 90859},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2872, col: 13, offset: 90788},
+																					pos:        position{line: 2875, col: 13, offset: 90859},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2872, col: 20, offset: 90795},
+																					pos:        position{line: 2875, col: 20, offset: 90866},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2872, col: 29, offset: 90804},
+																					pos:        position{line: 2875, col: 29, offset: 90875},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17253,9 +17253,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2882, col: 8, offset: 90964},
+																		pos: position{line: 2885, col: 8, offset: 91035},
 																		expr: &anyMatcher{
-																			line: 2882, col: 9, offset: 90965,
+																			line: 2885, col: 9, offset: 91036,
 																		},
 																	},
 																},
@@ -17294,12 +17294,12 @@ var g = &grammar{
 																		pos:   position{line: 2473, col: 49, offset: 79621},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2809, col: 13, offset: 89142},
+																			pos: position{line: 2812, col: 13, offset: 89213},
 																			run: (*parser).callonDocumentHeader300,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2809, col: 13, offset: 89142},
+																				pos: position{line: 2812, col: 13, offset: 89213},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2809, col: 13, offset: 89142},
+																					pos:        position{line: 2812, col: 13, offset: 89213},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -17309,28 +17309,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2885, col: 8, offset: 91014},
+																		pos: position{line: 2888, col: 8, offset: 91085},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2872, col: 12, offset: 90787},
+																				pos: position{line: 2875, col: 12, offset: 90858},
 																				run: (*parser).callonDocumentHeader304,
 																				expr: &choiceExpr{
-																					pos: position{line: 2872, col: 13, offset: 90788},
+																					pos: position{line: 2875, col: 13, offset: 90859},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 13, offset: 90788},
+																							pos:        position{line: 2875, col: 13, offset: 90859},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 20, offset: 90795},
+																							pos:        position{line: 2875, col: 20, offset: 90866},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 29, offset: 90804},
+																							pos:        position{line: 2875, col: 29, offset: 90875},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -17339,9 +17339,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2882, col: 8, offset: 90964},
+																				pos: position{line: 2885, col: 8, offset: 91035},
 																				expr: &anyMatcher{
-																					line: 2882, col: 9, offset: 90965,
+																					line: 2885, col: 9, offset: 91036,
 																				},
 																			},
 																		},
@@ -17392,10 +17392,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 742, col: 8, offset: 23754},
 																					expr: &actionExpr{
-																						pos: position{line: 2863, col: 10, offset: 90616},
+																						pos: position{line: 2866, col: 10, offset: 90687},
 																						run: (*parser).callonDocumentHeader322,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2863, col: 10, offset: 90616},
+																							pos:        position{line: 2866, col: 10, offset: 90687},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17404,28 +17404,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2885, col: 8, offset: 91014},
+																					pos: position{line: 2888, col: 8, offset: 91085},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2872, col: 12, offset: 90787},
+																							pos: position{line: 2875, col: 12, offset: 90858},
 																							run: (*parser).callonDocumentHeader325,
 																							expr: &choiceExpr{
-																								pos: position{line: 2872, col: 13, offset: 90788},
+																								pos: position{line: 2875, col: 13, offset: 90859},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2872, col: 13, offset: 90788},
+																										pos:        position{line: 2875, col: 13, offset: 90859},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2872, col: 20, offset: 90795},
+																										pos:        position{line: 2875, col: 20, offset: 90866},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2872, col: 29, offset: 90804},
+																										pos:        position{line: 2875, col: 29, offset: 90875},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -17434,9 +17434,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2882, col: 8, offset: 90964},
+																							pos: position{line: 2885, col: 8, offset: 91035},
 																							expr: &anyMatcher{
-																								line: 2882, col: 9, offset: 90965,
+																								line: 2885, col: 9, offset: 91036,
 																							},
 																						},
 																					},
@@ -17497,10 +17497,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 742, col: 8, offset: 23754},
 																													expr: &actionExpr{
-																														pos: position{line: 2863, col: 10, offset: 90616},
+																														pos: position{line: 2866, col: 10, offset: 90687},
 																														run: (*parser).callonDocumentHeader347,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2863, col: 10, offset: 90616},
+																															pos:        position{line: 2866, col: 10, offset: 90687},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -17509,28 +17509,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2885, col: 8, offset: 91014},
+																													pos: position{line: 2888, col: 8, offset: 91085},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2872, col: 12, offset: 90787},
+																															pos: position{line: 2875, col: 12, offset: 90858},
 																															run: (*parser).callonDocumentHeader350,
 																															expr: &choiceExpr{
-																																pos: position{line: 2872, col: 13, offset: 90788},
+																																pos: position{line: 2875, col: 13, offset: 90859},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2872, col: 13, offset: 90788},
+																																		pos:        position{line: 2875, col: 13, offset: 90859},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2872, col: 20, offset: 90795},
+																																		pos:        position{line: 2875, col: 20, offset: 90866},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2872, col: 29, offset: 90804},
+																																		pos:        position{line: 2875, col: 29, offset: 90875},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -17539,9 +17539,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2882, col: 8, offset: 90964},
+																															pos: position{line: 2885, col: 8, offset: 91035},
 																															expr: &anyMatcher{
-																																line: 2882, col: 9, offset: 90965,
+																																line: 2885, col: 9, offset: 91036,
 																															},
 																														},
 																													},
@@ -17550,9 +17550,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2882, col: 8, offset: 90964},
+																										pos: position{line: 2885, col: 8, offset: 91035},
 																										expr: &anyMatcher{
-																											line: 2882, col: 9, offset: 90965,
+																											line: 2885, col: 9, offset: 91036,
 																										},
 																									},
 																								},
@@ -17568,21 +17568,21 @@ var g = &grammar{
 																									pos: position{line: 811, col: 5, offset: 26161},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2880, col: 11, offset: 90950},
+																											pos: position{line: 2883, col: 11, offset: 91021},
 																											expr: &anyMatcher{
-																												line: 2880, col: 13, offset: 90952,
+																												line: 2883, col: 13, offset: 91023,
 																											},
 																										},
 																										&labeledExpr{
 																											pos:   position{line: 812, col: 5, offset: 26236},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2809, col: 13, offset: 89142},
+																												pos: position{line: 2812, col: 13, offset: 89213},
 																												run: (*parser).callonDocumentHeader365,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2809, col: 13, offset: 89142},
+																													pos: position{line: 2812, col: 13, offset: 89213},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2809, col: 13, offset: 89142},
+																														pos:        position{line: 2812, col: 13, offset: 89213},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -17592,28 +17592,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2885, col: 8, offset: 91014},
+																											pos: position{line: 2888, col: 8, offset: 91085},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2872, col: 12, offset: 90787},
+																													pos: position{line: 2875, col: 12, offset: 90858},
 																													run: (*parser).callonDocumentHeader369,
 																													expr: &choiceExpr{
-																														pos: position{line: 2872, col: 13, offset: 90788},
+																														pos: position{line: 2875, col: 13, offset: 90859},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 13, offset: 90788},
+																																pos:        position{line: 2875, col: 13, offset: 90859},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 20, offset: 90795},
+																																pos:        position{line: 2875, col: 20, offset: 90866},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 29, offset: 90804},
+																																pos:        position{line: 2875, col: 29, offset: 90875},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17622,9 +17622,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2882, col: 8, offset: 90964},
+																													pos: position{line: 2885, col: 8, offset: 91035},
 																													expr: &anyMatcher{
-																														line: 2882, col: 9, offset: 90965,
+																														line: 2885, col: 9, offset: 91036,
 																													},
 																												},
 																											},
@@ -17680,10 +17680,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 742, col: 8, offset: 23754},
 																								expr: &actionExpr{
-																									pos: position{line: 2863, col: 10, offset: 90616},
+																									pos: position{line: 2866, col: 10, offset: 90687},
 																									run: (*parser).callonDocumentHeader387,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2863, col: 10, offset: 90616},
+																										pos:        position{line: 2866, col: 10, offset: 90687},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -17692,28 +17692,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2885, col: 8, offset: 91014},
+																								pos: position{line: 2888, col: 8, offset: 91085},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2872, col: 12, offset: 90787},
+																										pos: position{line: 2875, col: 12, offset: 90858},
 																										run: (*parser).callonDocumentHeader390,
 																										expr: &choiceExpr{
-																											pos: position{line: 2872, col: 13, offset: 90788},
+																											pos: position{line: 2875, col: 13, offset: 90859},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2872, col: 13, offset: 90788},
+																													pos:        position{line: 2875, col: 13, offset: 90859},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2872, col: 20, offset: 90795},
+																													pos:        position{line: 2875, col: 20, offset: 90866},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2872, col: 29, offset: 90804},
+																													pos:        position{line: 2875, col: 29, offset: 90875},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -17722,9 +17722,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2882, col: 8, offset: 90964},
+																										pos: position{line: 2885, col: 8, offset: 91035},
 																										expr: &anyMatcher{
-																											line: 2882, col: 9, offset: 90965,
+																											line: 2885, col: 9, offset: 91036,
 																										},
 																									},
 																								},
@@ -17733,9 +17733,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2882, col: 8, offset: 90964},
+																					pos: position{line: 2885, col: 8, offset: 91035},
 																					expr: &anyMatcher{
-																						line: 2882, col: 9, offset: 90965,
+																						line: 2885, col: 9, offset: 91036,
 																					},
 																				},
 																			},
@@ -17761,10 +17761,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1169, col: 21, offset: 35960},
 																	expr: &actionExpr{
-																		pos: position{line: 2863, col: 10, offset: 90616},
+																		pos: position{line: 2866, col: 10, offset: 90687},
 																		run: (*parser).callonDocumentHeader404,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2863, col: 10, offset: 90616},
+																			pos:        position{line: 2866, col: 10, offset: 90687},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -17866,10 +17866,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 1181, col: 28, offset: 36591},
 																													expr: &actionExpr{
-																														pos: position{line: 2863, col: 10, offset: 90616},
+																														pos: position{line: 2866, col: 10, offset: 90687},
 																														run: (*parser).callonDocumentHeader428,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2863, col: 10, offset: 90616},
+																															pos:        position{line: 2866, col: 10, offset: 90687},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -18016,28 +18016,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2885, col: 8, offset: 91014},
+																	pos: position{line: 2888, col: 8, offset: 91085},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2872, col: 12, offset: 90787},
+																			pos: position{line: 2875, col: 12, offset: 90858},
 																			run: (*parser).callonDocumentHeader460,
 																			expr: &choiceExpr{
-																				pos: position{line: 2872, col: 13, offset: 90788},
+																				pos: position{line: 2875, col: 13, offset: 90859},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 13, offset: 90788},
+																						pos:        position{line: 2875, col: 13, offset: 90859},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 20, offset: 90795},
+																						pos:        position{line: 2875, col: 20, offset: 90866},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 29, offset: 90804},
+																						pos:        position{line: 2875, col: 29, offset: 90875},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18046,9 +18046,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2882, col: 8, offset: 90964},
+																			pos: position{line: 2885, col: 8, offset: 91035},
 																			expr: &anyMatcher{
-																				line: 2882, col: 9, offset: 90965,
+																				line: 2885, col: 9, offset: 91036,
 																			},
 																		},
 																	},
@@ -18128,10 +18128,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 360, col: 49, offset: 10940},
 														expr: &actionExpr{
-															pos: position{line: 2863, col: 10, offset: 90616},
+															pos: position{line: 2866, col: 10, offset: 90687},
 															run: (*parser).callonDocumentHeader482,
 															expr: &charClassMatcher{
-																pos:        position{line: 2863, col: 10, offset: 90616},
+																pos:        position{line: 2866, col: 10, offset: 90687},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18140,28 +18140,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2885, col: 8, offset: 91014},
+														pos: position{line: 2888, col: 8, offset: 91085},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2872, col: 12, offset: 90787},
+																pos: position{line: 2875, col: 12, offset: 90858},
 																run: (*parser).callonDocumentHeader485,
 																expr: &choiceExpr{
-																	pos: position{line: 2872, col: 13, offset: 90788},
+																	pos: position{line: 2875, col: 13, offset: 90859},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2872, col: 13, offset: 90788},
+																			pos:        position{line: 2875, col: 13, offset: 90859},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2872, col: 20, offset: 90795},
+																			pos:        position{line: 2875, col: 20, offset: 90866},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2872, col: 29, offset: 90804},
+																			pos:        position{line: 2875, col: 29, offset: 90875},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18170,9 +18170,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2882, col: 8, offset: 90964},
+																pos: position{line: 2885, col: 8, offset: 91035},
 																expr: &anyMatcher{
-																	line: 2882, col: 9, offset: 90965,
+																	line: 2885, col: 9, offset: 91036,
 																},
 															},
 														},
@@ -18233,10 +18233,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 39, offset: 11061},
 														expr: &actionExpr{
-															pos: position{line: 2863, col: 10, offset: 90616},
+															pos: position{line: 2866, col: 10, offset: 90687},
 															run: (*parser).callonDocumentHeader503,
 															expr: &charClassMatcher{
-																pos:        position{line: 2863, col: 10, offset: 90616},
+																pos:        position{line: 2866, col: 10, offset: 90687},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18245,28 +18245,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2885, col: 8, offset: 91014},
+														pos: position{line: 2888, col: 8, offset: 91085},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2872, col: 12, offset: 90787},
+																pos: position{line: 2875, col: 12, offset: 90858},
 																run: (*parser).callonDocumentHeader506,
 																expr: &choiceExpr{
-																	pos: position{line: 2872, col: 13, offset: 90788},
+																	pos: position{line: 2875, col: 13, offset: 90859},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2872, col: 13, offset: 90788},
+																			pos:        position{line: 2875, col: 13, offset: 90859},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2872, col: 20, offset: 90795},
+																			pos:        position{line: 2875, col: 20, offset: 90866},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2872, col: 29, offset: 90804},
+																			pos:        position{line: 2875, col: 29, offset: 90875},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18275,9 +18275,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2882, col: 8, offset: 90964},
+																pos: position{line: 2885, col: 8, offset: 91035},
 																expr: &anyMatcher{
-																	line: 2882, col: 9, offset: 90965,
+																	line: 2885, col: 9, offset: 91036,
 																},
 															},
 														},
@@ -18310,12 +18310,12 @@ var g = &grammar{
 														pos:   position{line: 2473, col: 49, offset: 79621},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2809, col: 13, offset: 89142},
+															pos: position{line: 2812, col: 13, offset: 89213},
 															run: (*parser).callonDocumentHeader519,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2809, col: 13, offset: 89142},
+																pos: position{line: 2812, col: 13, offset: 89213},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2809, col: 13, offset: 89142},
+																	pos:        position{line: 2812, col: 13, offset: 89213},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -18325,28 +18325,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2885, col: 8, offset: 91014},
+														pos: position{line: 2888, col: 8, offset: 91085},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2872, col: 12, offset: 90787},
+																pos: position{line: 2875, col: 12, offset: 90858},
 																run: (*parser).callonDocumentHeader523,
 																expr: &choiceExpr{
-																	pos: position{line: 2872, col: 13, offset: 90788},
+																	pos: position{line: 2875, col: 13, offset: 90859},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2872, col: 13, offset: 90788},
+																			pos:        position{line: 2875, col: 13, offset: 90859},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2872, col: 20, offset: 90795},
+																			pos:        position{line: 2875, col: 20, offset: 90866},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2872, col: 29, offset: 90804},
+																			pos:        position{line: 2875, col: 29, offset: 90875},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18355,9 +18355,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2882, col: 8, offset: 90964},
+																pos: position{line: 2885, col: 8, offset: 91035},
 																expr: &anyMatcher{
-																	line: 2882, col: 9, offset: 90965,
+																	line: 2885, col: 9, offset: 91036,
 																},
 															},
 														},
@@ -18408,10 +18408,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 742, col: 8, offset: 23754},
 																	expr: &actionExpr{
-																		pos: position{line: 2863, col: 10, offset: 90616},
+																		pos: position{line: 2866, col: 10, offset: 90687},
 																		run: (*parser).callonDocumentHeader541,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2863, col: 10, offset: 90616},
+																			pos:        position{line: 2866, col: 10, offset: 90687},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18420,28 +18420,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2885, col: 8, offset: 91014},
+																	pos: position{line: 2888, col: 8, offset: 91085},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2872, col: 12, offset: 90787},
+																			pos: position{line: 2875, col: 12, offset: 90858},
 																			run: (*parser).callonDocumentHeader544,
 																			expr: &choiceExpr{
-																				pos: position{line: 2872, col: 13, offset: 90788},
+																				pos: position{line: 2875, col: 13, offset: 90859},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 13, offset: 90788},
+																						pos:        position{line: 2875, col: 13, offset: 90859},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 20, offset: 90795},
+																						pos:        position{line: 2875, col: 20, offset: 90866},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 29, offset: 90804},
+																						pos:        position{line: 2875, col: 29, offset: 90875},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18450,9 +18450,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2882, col: 8, offset: 90964},
+																			pos: position{line: 2885, col: 8, offset: 91035},
 																			expr: &anyMatcher{
-																				line: 2882, col: 9, offset: 90965,
+																				line: 2885, col: 9, offset: 91036,
 																			},
 																		},
 																	},
@@ -18513,10 +18513,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 742, col: 8, offset: 23754},
 																									expr: &actionExpr{
-																										pos: position{line: 2863, col: 10, offset: 90616},
+																										pos: position{line: 2866, col: 10, offset: 90687},
 																										run: (*parser).callonDocumentHeader566,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2863, col: 10, offset: 90616},
+																											pos:        position{line: 2866, col: 10, offset: 90687},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -18525,28 +18525,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2885, col: 8, offset: 91014},
+																									pos: position{line: 2888, col: 8, offset: 91085},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2872, col: 12, offset: 90787},
+																											pos: position{line: 2875, col: 12, offset: 90858},
 																											run: (*parser).callonDocumentHeader569,
 																											expr: &choiceExpr{
-																												pos: position{line: 2872, col: 13, offset: 90788},
+																												pos: position{line: 2875, col: 13, offset: 90859},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2872, col: 13, offset: 90788},
+																														pos:        position{line: 2875, col: 13, offset: 90859},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2872, col: 20, offset: 90795},
+																														pos:        position{line: 2875, col: 20, offset: 90866},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2872, col: 29, offset: 90804},
+																														pos:        position{line: 2875, col: 29, offset: 90875},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -18555,9 +18555,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2882, col: 8, offset: 90964},
+																											pos: position{line: 2885, col: 8, offset: 91035},
 																											expr: &anyMatcher{
-																												line: 2882, col: 9, offset: 90965,
+																												line: 2885, col: 9, offset: 91036,
 																											},
 																										},
 																									},
@@ -18566,9 +18566,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2882, col: 8, offset: 90964},
+																						pos: position{line: 2885, col: 8, offset: 91035},
 																						expr: &anyMatcher{
-																							line: 2882, col: 9, offset: 90965,
+																							line: 2885, col: 9, offset: 91036,
 																						},
 																					},
 																				},
@@ -18584,21 +18584,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26161},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2880, col: 11, offset: 90950},
+																							pos: position{line: 2883, col: 11, offset: 91021},
 																							expr: &anyMatcher{
-																								line: 2880, col: 13, offset: 90952,
+																								line: 2883, col: 13, offset: 91023,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26236},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2809, col: 13, offset: 89142},
+																								pos: position{line: 2812, col: 13, offset: 89213},
 																								run: (*parser).callonDocumentHeader584,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2809, col: 13, offset: 89142},
+																									pos: position{line: 2812, col: 13, offset: 89213},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2809, col: 13, offset: 89142},
+																										pos:        position{line: 2812, col: 13, offset: 89213},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -18608,28 +18608,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2885, col: 8, offset: 91014},
+																							pos: position{line: 2888, col: 8, offset: 91085},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2872, col: 12, offset: 90787},
+																									pos: position{line: 2875, col: 12, offset: 90858},
 																									run: (*parser).callonDocumentHeader588,
 																									expr: &choiceExpr{
-																										pos: position{line: 2872, col: 13, offset: 90788},
+																										pos: position{line: 2875, col: 13, offset: 90859},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 13, offset: 90788},
+																												pos:        position{line: 2875, col: 13, offset: 90859},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 20, offset: 90795},
+																												pos:        position{line: 2875, col: 20, offset: 90866},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 29, offset: 90804},
+																												pos:        position{line: 2875, col: 29, offset: 90875},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -18638,9 +18638,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2882, col: 8, offset: 90964},
+																									pos: position{line: 2885, col: 8, offset: 91035},
 																									expr: &anyMatcher{
-																										line: 2882, col: 9, offset: 90965,
+																										line: 2885, col: 9, offset: 91036,
 																									},
 																								},
 																							},
@@ -18696,10 +18696,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 742, col: 8, offset: 23754},
 																				expr: &actionExpr{
-																					pos: position{line: 2863, col: 10, offset: 90616},
+																					pos: position{line: 2866, col: 10, offset: 90687},
 																					run: (*parser).callonDocumentHeader606,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2863, col: 10, offset: 90616},
+																						pos:        position{line: 2866, col: 10, offset: 90687},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -18708,28 +18708,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2885, col: 8, offset: 91014},
+																				pos: position{line: 2888, col: 8, offset: 91085},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2872, col: 12, offset: 90787},
+																						pos: position{line: 2875, col: 12, offset: 90858},
 																						run: (*parser).callonDocumentHeader609,
 																						expr: &choiceExpr{
-																							pos: position{line: 2872, col: 13, offset: 90788},
+																							pos: position{line: 2875, col: 13, offset: 90859},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2872, col: 13, offset: 90788},
+																									pos:        position{line: 2875, col: 13, offset: 90859},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2872, col: 20, offset: 90795},
+																									pos:        position{line: 2875, col: 20, offset: 90866},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2872, col: 29, offset: 90804},
+																									pos:        position{line: 2875, col: 29, offset: 90875},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -18738,9 +18738,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2882, col: 8, offset: 90964},
+																						pos: position{line: 2885, col: 8, offset: 91035},
 																						expr: &anyMatcher{
-																							line: 2882, col: 9, offset: 90965,
+																							line: 2885, col: 9, offset: 91036,
 																						},
 																					},
 																				},
@@ -18749,9 +18749,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2882, col: 8, offset: 90964},
+																	pos: position{line: 2885, col: 8, offset: 91035},
 																	expr: &anyMatcher{
-																		line: 2882, col: 9, offset: 90965,
+																		line: 2885, col: 9, offset: 91036,
 																	},
 																},
 															},
@@ -18784,12 +18784,12 @@ var g = &grammar{
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2867, col: 11, offset: 90677},
+							pos: position{line: 2870, col: 11, offset: 90748},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2867, col: 11, offset: 90677},
+								pos: position{line: 2870, col: 11, offset: 90748},
 								expr: &charClassMatcher{
-									pos:        position{line: 2867, col: 11, offset: 90677},
+									pos:        position{line: 2870, col: 11, offset: 90748},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18806,28 +18806,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2885, col: 8, offset: 91014},
+							pos: position{line: 2888, col: 8, offset: 91085},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2872, col: 12, offset: 90787},
+									pos: position{line: 2875, col: 12, offset: 90858},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2872, col: 13, offset: 90788},
+										pos: position{line: 2875, col: 13, offset: 90859},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2872, col: 13, offset: 90788},
+												pos:        position{line: 2875, col: 13, offset: 90859},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2872, col: 20, offset: 90795},
+												pos:        position{line: 2875, col: 20, offset: 90866},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2872, col: 29, offset: 90804},
+												pos:        position{line: 2875, col: 29, offset: 90875},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -18836,9 +18836,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2882, col: 8, offset: 90964},
+									pos: position{line: 2885, col: 8, offset: 91035},
 									expr: &anyMatcher{
-										line: 2882, col: 9, offset: 90965,
+										line: 2885, col: 9, offset: 91036,
 									},
 								},
 							},
@@ -18877,10 +18877,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1144, col: 5, offset: 35364},
 							expr: &actionExpr{
-								pos: position{line: 2863, col: 10, offset: 90616},
+								pos: position{line: 2866, col: 10, offset: 90687},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2863, col: 10, offset: 90616},
+									pos:        position{line: 2866, col: 10, offset: 90687},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18912,10 +18912,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1148, col: 5, offset: 35463},
 							expr: &actionExpr{
-								pos: position{line: 2863, col: 10, offset: 90616},
+								pos: position{line: 2866, col: 10, offset: 90687},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2863, col: 10, offset: 90616},
+									pos:        position{line: 2866, col: 10, offset: 90687},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18947,10 +18947,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1152, col: 5, offset: 35560},
 							expr: &actionExpr{
-								pos: position{line: 2863, col: 10, offset: 90616},
+								pos: position{line: 2866, col: 10, offset: 90687},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2863, col: 10, offset: 90616},
+									pos:        position{line: 2866, col: 10, offset: 90687},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19016,12 +19016,12 @@ var g = &grammar{
 							pos:   position{line: 1280, col: 13, offset: 39762},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2848, col: 7, offset: 90268},
+								pos: position{line: 2851, col: 7, offset: 90339},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2848, col: 7, offset: 90268},
+									pos: position{line: 2851, col: 7, offset: 90339},
 									expr: &charClassMatcher{
-										pos:        position{line: 2848, col: 7, offset: 90268},
+										pos:        position{line: 2851, col: 7, offset: 90339},
 										val:        "[^[]<>,\\r\\n]",
 										chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 										ignoreCase: false,
@@ -19090,12 +19090,12 @@ var g = &grammar{
 							pos: position{line: 1291, col: 31, offset: 40222},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2757, col: 14, offset: 87785},
+									pos: position{line: 2760, col: 14, offset: 87856},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2757, col: 14, offset: 87785},
+										pos: position{line: 2760, col: 14, offset: 87856},
 										expr: &charClassMatcher{
-											pos:        position{line: 2757, col: 14, offset: 87785},
+											pos:        position{line: 2760, col: 14, offset: 87856},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -19108,10 +19108,10 @@ var g = &grammar{
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2863, col: 10, offset: 90616},
+									pos: position{line: 2866, col: 10, offset: 90687},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2863, col: 10, offset: 90616},
+										pos:        position{line: 2866, col: 10, offset: 90687},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -19225,10 +19225,10 @@ var g = &grammar{
 							pos:   position{line: 1312, col: 5, offset: 41030},
 							label: "start",
 							expr: &actionExpr{
-								pos: position{line: 2888, col: 16, offset: 91138},
+								pos: position{line: 2891, col: 16, offset: 91209},
 								run: (*parser).callonImageBlock4,
 								expr: &litMatcher{
-									pos:        position{line: 2888, col: 16, offset: 91138},
+									pos:        position{line: 2891, col: 16, offset: 91209},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -19245,48 +19245,48 @@ var g = &grammar{
 							pos:   position{line: 1312, col: 35, offset: 41060},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2821, col: 13, offset: 89375},
+								pos: position{line: 2824, col: 13, offset: 89446},
 								run: (*parser).callonImageBlock8,
 								expr: &seqExpr{
-									pos: position{line: 2821, col: 13, offset: 89375},
+									pos: position{line: 2824, col: 13, offset: 89446},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2821, col: 13, offset: 89375},
+											pos:   position{line: 2824, col: 13, offset: 89446},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2821, col: 20, offset: 89382},
+												pos: position{line: 2824, col: 20, offset: 89453},
 												expr: &actionExpr{
-													pos: position{line: 2829, col: 11, offset: 89621},
+													pos: position{line: 2832, col: 11, offset: 89692},
 													run: (*parser).callonImageBlock12,
 													expr: &choiceExpr{
-														pos: position{line: 2829, col: 12, offset: 89622},
+														pos: position{line: 2832, col: 12, offset: 89693},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2829, col: 12, offset: 89622},
+																pos:        position{line: 2832, col: 12, offset: 89693},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2829, col: 24, offset: 89634},
+																pos:        position{line: 2832, col: 24, offset: 89705},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2829, col: 37, offset: 89647},
+																pos:        position{line: 2832, col: 37, offset: 89718},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2829, col: 48, offset: 89658},
+																pos:        position{line: 2832, col: 48, offset: 89729},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2829, col: 59, offset: 89669},
+																pos:        position{line: 2832, col: 59, offset: 89740},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19297,38 +19297,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2821, col: 30, offset: 89392},
+											pos:   position{line: 2824, col: 30, offset: 89463},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2834, col: 5, offset: 89733},
+												pos: position{line: 2837, col: 5, offset: 89804},
 												run: (*parser).callonImageBlock20,
 												expr: &labeledExpr{
-													pos:   position{line: 2834, col: 5, offset: 89733},
+													pos:   position{line: 2837, col: 5, offset: 89804},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2834, col: 14, offset: 89742},
+														pos: position{line: 2837, col: 14, offset: 89813},
 														expr: &choiceExpr{
-															pos: position{line: 2835, col: 9, offset: 89752},
+															pos: position{line: 2838, col: 9, offset: 89823},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2835, col: 9, offset: 89752},
+																	pos: position{line: 2838, col: 9, offset: 89823},
 																	run: (*parser).callonImageBlock24,
 																	expr: &seqExpr{
-																		pos: position{line: 2835, col: 9, offset: 89752},
+																		pos: position{line: 2838, col: 9, offset: 89823},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2835, col: 9, offset: 89752},
+																				pos: position{line: 2838, col: 9, offset: 89823},
 																				expr: &litMatcher{
-																					pos:        position{line: 2835, col: 10, offset: 89753},
+																					pos:        position{line: 2838, col: 10, offset: 89824},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2836, col: 9, offset: 89781},
+																				pos: position{line: 2839, col: 9, offset: 89852},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2836, col: 10, offset: 89782},
+																					pos:        position{line: 2839, col: 10, offset: 89853},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19339,27 +19339,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2839, col: 11, offset: 89994},
+																	pos: position{line: 2842, col: 11, offset: 90065},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2839, col: 11, offset: 89994},
+																			pos:        position{line: 2842, col: 11, offset: 90065},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2839, col: 19, offset: 90002},
+																			pos: position{line: 2842, col: 19, offset: 90073},
 																			expr: &seqExpr{
-																				pos: position{line: 2839, col: 21, offset: 90004},
+																				pos: position{line: 2842, col: 21, offset: 90075},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2839, col: 21, offset: 90004},
+																						pos: position{line: 2842, col: 21, offset: 90075},
 																						expr: &actionExpr{
-																							pos: position{line: 2863, col: 10, offset: 90616},
+																							pos: position{line: 2866, col: 10, offset: 90687},
 																							run: (*parser).callonImageBlock35,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2863, col: 10, offset: 90616},
+																								pos:        position{line: 2866, col: 10, offset: 90687},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19368,11 +19368,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2839, col: 28, offset: 90011},
+																						pos: position{line: 2842, col: 28, offset: 90082},
 																						expr: &notExpr{
-																							pos: position{line: 2882, col: 8, offset: 90964},
+																							pos: position{line: 2885, col: 8, offset: 91035},
 																							expr: &anyMatcher{
-																								line: 2882, col: 9, offset: 90965,
+																								line: 2885, col: 9, offset: 91036,
 																							},
 																						},
 																					},
@@ -19767,10 +19767,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2842, col: 11, offset: 90131},
+																	pos: position{line: 2845, col: 11, offset: 90202},
 																	run: (*parser).callonImageBlock117,
 																	expr: &litMatcher{
-																		pos:        position{line: 2842, col: 11, offset: 90131},
+																		pos:        position{line: 2845, col: 11, offset: 90202},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -19797,10 +19797,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1312, col: 81, offset: 41106},
 							expr: &actionExpr{
-								pos: position{line: 2863, col: 10, offset: 90616},
+								pos: position{line: 2866, col: 10, offset: 90687},
 								run: (*parser).callonImageBlock122,
 								expr: &charClassMatcher{
-									pos:        position{line: 2863, col: 10, offset: 90616},
+									pos:        position{line: 2866, col: 10, offset: 90687},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19812,10 +19812,10 @@ var g = &grammar{
 							pos:   position{line: 1312, col: 88, offset: 41113},
 							label: "end",
 							expr: &actionExpr{
-								pos: position{line: 2888, col: 16, offset: 91138},
+								pos: position{line: 2891, col: 16, offset: 91209},
 								run: (*parser).callonImageBlock125,
 								expr: &litMatcher{
-									pos:        position{line: 2888, col: 16, offset: 91138},
+									pos:        position{line: 2891, col: 16, offset: 91209},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -19827,28 +19827,28 @@ var g = &grammar{
 							run: (*parser).callonImageBlock127,
 						},
 						&choiceExpr{
-							pos: position{line: 2885, col: 8, offset: 91014},
+							pos: position{line: 2888, col: 8, offset: 91085},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2872, col: 12, offset: 90787},
+									pos: position{line: 2875, col: 12, offset: 90858},
 									run: (*parser).callonImageBlock129,
 									expr: &choiceExpr{
-										pos: position{line: 2872, col: 13, offset: 90788},
+										pos: position{line: 2875, col: 13, offset: 90859},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2872, col: 13, offset: 90788},
+												pos:        position{line: 2875, col: 13, offset: 90859},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2872, col: 20, offset: 90795},
+												pos:        position{line: 2875, col: 20, offset: 90866},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2872, col: 29, offset: 90804},
+												pos:        position{line: 2875, col: 29, offset: 90875},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19857,9 +19857,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2882, col: 8, offset: 90964},
+									pos: position{line: 2885, col: 8, offset: 91035},
 									expr: &anyMatcher{
-										line: 2882, col: 9, offset: 90965,
+										line: 2885, col: 9, offset: 91036,
 									},
 								},
 							},
@@ -19896,48 +19896,48 @@ var g = &grammar{
 							pos:   position{line: 1317, col: 30, offset: 41400},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2821, col: 13, offset: 89375},
+								pos: position{line: 2824, col: 13, offset: 89446},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2821, col: 13, offset: 89375},
+									pos: position{line: 2824, col: 13, offset: 89446},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2821, col: 13, offset: 89375},
+											pos:   position{line: 2824, col: 13, offset: 89446},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2821, col: 20, offset: 89382},
+												pos: position{line: 2824, col: 20, offset: 89453},
 												expr: &actionExpr{
-													pos: position{line: 2829, col: 11, offset: 89621},
+													pos: position{line: 2832, col: 11, offset: 89692},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2829, col: 12, offset: 89622},
+														pos: position{line: 2832, col: 12, offset: 89693},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2829, col: 12, offset: 89622},
+																pos:        position{line: 2832, col: 12, offset: 89693},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2829, col: 24, offset: 89634},
+																pos:        position{line: 2832, col: 24, offset: 89705},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2829, col: 37, offset: 89647},
+																pos:        position{line: 2832, col: 37, offset: 89718},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2829, col: 48, offset: 89658},
+																pos:        position{line: 2832, col: 48, offset: 89729},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2829, col: 59, offset: 89669},
+																pos:        position{line: 2832, col: 59, offset: 89740},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19948,38 +19948,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2821, col: 30, offset: 89392},
+											pos:   position{line: 2824, col: 30, offset: 89463},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2834, col: 5, offset: 89733},
+												pos: position{line: 2837, col: 5, offset: 89804},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2834, col: 5, offset: 89733},
+													pos:   position{line: 2837, col: 5, offset: 89804},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2834, col: 14, offset: 89742},
+														pos: position{line: 2837, col: 14, offset: 89813},
 														expr: &choiceExpr{
-															pos: position{line: 2835, col: 9, offset: 89752},
+															pos: position{line: 2838, col: 9, offset: 89823},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2835, col: 9, offset: 89752},
+																	pos: position{line: 2838, col: 9, offset: 89823},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2835, col: 9, offset: 89752},
+																		pos: position{line: 2838, col: 9, offset: 89823},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2835, col: 9, offset: 89752},
+																				pos: position{line: 2838, col: 9, offset: 89823},
 																				expr: &litMatcher{
-																					pos:        position{line: 2835, col: 10, offset: 89753},
+																					pos:        position{line: 2838, col: 10, offset: 89824},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2836, col: 9, offset: 89781},
+																				pos: position{line: 2839, col: 9, offset: 89852},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2836, col: 10, offset: 89782},
+																					pos:        position{line: 2839, col: 10, offset: 89853},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19990,27 +19990,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2839, col: 11, offset: 89994},
+																	pos: position{line: 2842, col: 11, offset: 90065},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2839, col: 11, offset: 89994},
+																			pos:        position{line: 2842, col: 11, offset: 90065},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2839, col: 19, offset: 90002},
+																			pos: position{line: 2842, col: 19, offset: 90073},
 																			expr: &seqExpr{
-																				pos: position{line: 2839, col: 21, offset: 90004},
+																				pos: position{line: 2842, col: 21, offset: 90075},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2839, col: 21, offset: 90004},
+																						pos: position{line: 2842, col: 21, offset: 90075},
 																						expr: &actionExpr{
-																							pos: position{line: 2863, col: 10, offset: 90616},
+																							pos: position{line: 2866, col: 10, offset: 90687},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2863, col: 10, offset: 90616},
+																								pos:        position{line: 2866, col: 10, offset: 90687},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20019,11 +20019,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2839, col: 28, offset: 90011},
+																						pos: position{line: 2842, col: 28, offset: 90082},
 																						expr: &notExpr{
-																							pos: position{line: 2882, col: 8, offset: 90964},
+																							pos: position{line: 2885, col: 8, offset: 91035},
 																							expr: &anyMatcher{
-																								line: 2882, col: 9, offset: 90965,
+																								line: 2885, col: 9, offset: 91036,
 																							},
 																						},
 																					},
@@ -20418,10 +20418,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2842, col: 11, offset: 90131},
+																	pos: position{line: 2845, col: 11, offset: 90202},
 																	run: (*parser).callonInlineImage116,
 																	expr: &litMatcher{
-																		pos:        position{line: 2842, col: 11, offset: 90131},
+																		pos:        position{line: 2845, col: 11, offset: 90202},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20600,21 +20600,21 @@ var g = &grammar{
 								pos: position{line: 1344, col: 9, offset: 42686},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2762, col: 5, offset: 87858},
+										pos: position{line: 2765, col: 5, offset: 87929},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2762, col: 5, offset: 87858},
+											pos: position{line: 2765, col: 5, offset: 87929},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2762, col: 5, offset: 87858},
+													pos:   position{line: 2765, col: 5, offset: 87929},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2762, col: 11, offset: 87864},
+														pos: position{line: 2765, col: 11, offset: 87935},
 														run: (*parser).callonFootnoteElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2762, col: 11, offset: 87864},
+															pos: position{line: 2765, col: 11, offset: 87935},
 															expr: &charClassMatcher{
-																pos:        position{line: 2762, col: 11, offset: 87864},
+																pos:        position{line: 2765, col: 11, offset: 87935},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -20624,36 +20624,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2765, col: 5, offset: 87922},
+													pos: position{line: 2768, col: 5, offset: 87993},
 													expr: &seqExpr{
-														pos: position{line: 2766, col: 9, offset: 87933},
+														pos: position{line: 2769, col: 9, offset: 88004},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2766, col: 9, offset: 87933},
+																pos:        position{line: 2769, col: 9, offset: 88004},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2767, col: 9, offset: 87982},
+																pos: position{line: 2770, col: 9, offset: 88053},
 																run: (*parser).callonFootnoteElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2771, col: 5, offset: 88062},
+													pos: position{line: 2774, col: 5, offset: 88133},
 													expr: &seqExpr{
-														pos: position{line: 2772, col: 9, offset: 88073},
+														pos: position{line: 2775, col: 9, offset: 88144},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2772, col: 9, offset: 88073},
+																pos:        position{line: 2775, col: 9, offset: 88144},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2772, col: 13, offset: 88077},
+																pos:        position{line: 2775, col: 13, offset: 88148},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -20666,12 +20666,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2867, col: 11, offset: 90677},
+										pos: position{line: 2870, col: 11, offset: 90748},
 										run: (*parser).callonFootnoteElement21,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2867, col: 11, offset: 90677},
+											pos: position{line: 2870, col: 11, offset: 90748},
 											expr: &charClassMatcher{
-												pos:        position{line: 2867, col: 11, offset: 90677},
+												pos:        position{line: 2870, col: 11, offset: 90748},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -20685,16 +20685,20 @@ var g = &grammar{
 										expr: &seqExpr{
 											pos: position{line: 2491, col: 5, offset: 80311},
 											exprs: []interface{}{
+												&andCodeExpr{
+													pos: position{line: 2491, col: 5, offset: 80311},
+													run: (*parser).callonFootnoteElement26,
+												},
 												&litMatcher{
-													pos:        position{line: 2491, col: 5, offset: 80311},
+													pos:        position{line: 2494, col: 5, offset: 80382},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2491, col: 10, offset: 80316},
+													pos: position{line: 2494, col: 10, offset: 80387},
 													expr: &charClassMatcher{
-														pos:        position{line: 2491, col: 11, offset: 80317},
+														pos:        position{line: 2494, col: 11, offset: 80388},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -20705,29 +20709,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2497, col: 5, offset: 80509},
-										run: (*parser).callonFootnoteElement29,
+										pos: position{line: 2500, col: 5, offset: 80580},
+										run: (*parser).callonFootnoteElement30,
 										expr: &seqExpr{
-											pos: position{line: 2497, col: 5, offset: 80509},
+											pos: position{line: 2500, col: 5, offset: 80580},
 											exprs: []interface{}{
-												&andCodeExpr{
-													pos: position{line: 2497, col: 5, offset: 80509},
-													run: (*parser).callonFootnoteElement31,
-												},
 												&andCodeExpr{
 													pos: position{line: 2500, col: 5, offset: 80580},
 													run: (*parser).callonFootnoteElement32,
 												},
+												&andCodeExpr{
+													pos: position{line: 2503, col: 5, offset: 80651},
+													run: (*parser).callonFootnoteElement33,
+												},
 												&litMatcher{
-													pos:        position{line: 2504, col: 5, offset: 80705},
+													pos:        position{line: 2507, col: 5, offset: 80776},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2504, col: 9, offset: 80709},
+													pos: position{line: 2507, col: 9, offset: 80780},
 													expr: &charClassMatcher{
-														pos:        position{line: 2504, col: 10, offset: 80710},
+														pos:        position{line: 2507, col: 10, offset: 80781},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -20746,27 +20750,27 @@ var g = &grammar{
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2780, col: 5, offset: 88270},
-										run: (*parser).callonFootnoteElement38,
+										pos: position{line: 2783, col: 5, offset: 88341},
+										run: (*parser).callonFootnoteElement39,
 										expr: &choiceExpr{
-											pos: position{line: 2781, col: 9, offset: 88280},
+											pos: position{line: 2784, col: 9, offset: 88351},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2781, col: 10, offset: 88281},
+													pos:        position{line: 2784, col: 10, offset: 88352},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2783, col: 13, offset: 88378},
+													pos: position{line: 2786, col: 13, offset: 88449},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2783, col: 13, offset: 88378},
-															run: (*parser).callonFootnoteElement42,
+															pos: position{line: 2786, col: 13, offset: 88449},
+															run: (*parser).callonFootnoteElement43,
 														},
 														&litMatcher{
-															pos:        position{line: 2786, col: 13, offset: 88478},
+															pos:        position{line: 2789, col: 13, offset: 88549},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -20774,20 +20778,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2786, col: 19, offset: 88484},
+													pos:        position{line: 2789, col: 19, offset: 88555},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2789, col: 13, offset: 88522},
+													pos: position{line: 2792, col: 13, offset: 88593},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2789, col: 13, offset: 88522},
-															run: (*parser).callonFootnoteElement46,
+															pos: position{line: 2792, col: 13, offset: 88593},
+															run: (*parser).callonFootnoteElement47,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2792, col: 14, offset: 88615},
+															pos:        position{line: 2795, col: 14, offset: 88686},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -20796,18 +20800,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2794, col: 12, offset: 88659},
+													pos: position{line: 2797, col: 12, offset: 88730},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2794, col: 12, offset: 88659},
+															pos:        position{line: 2797, col: 12, offset: 88730},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2794, col: 16, offset: 88663},
+															pos: position{line: 2797, col: 16, offset: 88734},
 															expr: &litMatcher{
-																pos:        position{line: 2794, col: 17, offset: 88664},
+																pos:        position{line: 2797, col: 17, offset: 88735},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -20824,13 +20828,13 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1206, col: 5, offset: 37491},
-										run: (*parser).callonFootnoteElement53,
+										run: (*parser).callonFootnoteElement54,
 										expr: &seqExpr{
 											pos: position{line: 1206, col: 5, offset: 37491},
 											exprs: []interface{}{
 												&andCodeExpr{
 													pos: position{line: 1206, col: 5, offset: 37491},
-													run: (*parser).callonFootnoteElement55,
+													run: (*parser).callonFootnoteElement56,
 												},
 												&litMatcher{
 													pos:        position{line: 1209, col: 5, offset: 37567},
@@ -20840,15 +20844,15 @@ var g = &grammar{
 												},
 												&andCodeExpr{
 													pos: position{line: 1210, col: 5, offset: 37575},
-													run: (*parser).callonFootnoteElement57,
+													run: (*parser).callonFootnoteElement58,
 												},
 												&zeroOrMoreExpr{
 													pos: position{line: 1214, col: 5, offset: 37662},
 													expr: &actionExpr{
-														pos: position{line: 2863, col: 10, offset: 90616},
-														run: (*parser).callonFootnoteElement59,
+														pos: position{line: 2866, col: 10, offset: 90687},
+														run: (*parser).callonFootnoteElement60,
 														expr: &charClassMatcher{
-															pos:        position{line: 2863, col: 10, offset: 90616},
+															pos:        position{line: 2866, col: 10, offset: 90687},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -20859,28 +20863,28 @@ var g = &grammar{
 												&andExpr{
 													pos: position{line: 1214, col: 12, offset: 37669},
 													expr: &choiceExpr{
-														pos: position{line: 2885, col: 8, offset: 91014},
+														pos: position{line: 2888, col: 8, offset: 91085},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2872, col: 12, offset: 90787},
-																run: (*parser).callonFootnoteElement63,
+																pos: position{line: 2875, col: 12, offset: 90858},
+																run: (*parser).callonFootnoteElement64,
 																expr: &choiceExpr{
-																	pos: position{line: 2872, col: 13, offset: 90788},
+																	pos: position{line: 2875, col: 13, offset: 90859},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2872, col: 13, offset: 90788},
+																			pos:        position{line: 2875, col: 13, offset: 90859},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2872, col: 20, offset: 90795},
+																			pos:        position{line: 2875, col: 20, offset: 90866},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2872, col: 29, offset: 90804},
+																			pos:        position{line: 2875, col: 29, offset: 90875},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -20889,9 +20893,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2882, col: 8, offset: 90964},
+																pos: position{line: 2885, col: 8, offset: 91035},
 																expr: &anyMatcher{
-																	line: 2882, col: 9, offset: 90965,
+																	line: 2885, col: 9, offset: 91036,
 																},
 															},
 														},
@@ -20902,13 +20906,13 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 636, col: 5, offset: 20177},
-										run: (*parser).callonFootnoteElement70,
+										run: (*parser).callonFootnoteElement71,
 										expr: &seqExpr{
 											pos: position{line: 636, col: 5, offset: 20177},
 											exprs: []interface{}{
 												&andCodeExpr{
 													pos: position{line: 636, col: 5, offset: 20177},
-													run: (*parser).callonFootnoteElement72,
+													run: (*parser).callonFootnoteElement73,
 												},
 												&labeledExpr{
 													pos:   position{line: 639, col: 5, offset: 20249},
@@ -20918,7 +20922,7 @@ var g = &grammar{
 														alternatives: []interface{}{
 															&actionExpr{
 																pos: position{line: 645, col: 5, offset: 20387},
-																run: (*parser).callonFootnoteElement75,
+																run: (*parser).callonFootnoteElement76,
 																expr: &seqExpr{
 																	pos: position{line: 645, col: 5, offset: 20387},
 																	exprs: []interface{}{
@@ -20933,7 +20937,7 @@ var g = &grammar{
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9729},
-																				run: (*parser).callonFootnoteElement79,
+																				run: (*parser).callonFootnoteElement80,
 																				expr: &seqExpr{
 																					pos: position{line: 318, col: 18, offset: 9729},
 																					exprs: []interface{}{
@@ -20971,7 +20975,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 652, col: 5, offset: 20655},
-																run: (*parser).callonFootnoteElement85,
+																run: (*parser).callonFootnoteElement86,
 																expr: &seqExpr{
 																	pos: position{line: 652, col: 5, offset: 20655},
 																	exprs: []interface{}{
@@ -20986,7 +20990,7 @@ var g = &grammar{
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9729},
-																				run: (*parser).callonFootnoteElement89,
+																				run: (*parser).callonFootnoteElement90,
 																				expr: &seqExpr{
 																					pos: position{line: 318, col: 18, offset: 9729},
 																					exprs: []interface{}{
@@ -21024,7 +21028,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 658, col: 25, offset: 20859},
-																run: (*parser).callonFootnoteElement95,
+																run: (*parser).callonFootnoteElement96,
 																expr: &seqExpr{
 																	pos: position{line: 658, col: 25, offset: 20859},
 																	exprs: []interface{}{
@@ -21039,7 +21043,7 @@ var g = &grammar{
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9729},
-																				run: (*parser).callonFootnoteElement99,
+																				run: (*parser).callonFootnoteElement100,
 																				expr: &seqExpr{
 																					pos: position{line: 318, col: 18, offset: 9729},
 																					exprs: []interface{}{
@@ -21073,7 +21077,7 @@ var g = &grammar{
 																				pos: position{line: 658, col: 62, offset: 20896},
 																				expr: &actionExpr{
 																					pos: position{line: 666, col: 17, offset: 21191},
-																					run: (*parser).callonFootnoteElement106,
+																					run: (*parser).callonFootnoteElement107,
 																					expr: &seqExpr{
 																						pos: position{line: 666, col: 17, offset: 21191},
 																						exprs: []interface{}{
@@ -21091,7 +21095,7 @@ var g = &grammar{
 																									alternatives: []interface{}{
 																										&actionExpr{
 																											pos: position{line: 666, col: 28, offset: 21202},
-																											run: (*parser).callonFootnoteElement111,
+																											run: (*parser).callonFootnoteElement112,
 																											expr: &charClassMatcher{
 																												pos:        position{line: 666, col: 28, offset: 21202},
 																												val:        "[A-Za-z]",
@@ -21102,7 +21106,7 @@ var g = &grammar{
 																										},
 																										&actionExpr{
 																											pos: position{line: 668, col: 9, offset: 21256},
-																											run: (*parser).callonFootnoteElement113,
+																											run: (*parser).callonFootnoteElement114,
 																											expr: &oneOrMoreExpr{
 																												pos: position{line: 668, col: 9, offset: 21256},
 																												expr: &charClassMatcher{
@@ -21133,7 +21137,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 662, col: 25, offset: 21030},
-																run: (*parser).callonFootnoteElement117,
+																run: (*parser).callonFootnoteElement118,
 																expr: &seqExpr{
 																	pos: position{line: 662, col: 25, offset: 21030},
 																	exprs: []interface{}{
@@ -21148,7 +21152,7 @@ var g = &grammar{
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9729},
-																				run: (*parser).callonFootnoteElement121,
+																				run: (*parser).callonFootnoteElement122,
 																				expr: &seqExpr{
 																					pos: position{line: 318, col: 18, offset: 9729},
 																					exprs: []interface{}{
@@ -21182,7 +21186,7 @@ var g = &grammar{
 																				pos: position{line: 662, col: 63, offset: 21068},
 																				expr: &actionExpr{
 																					pos: position{line: 666, col: 17, offset: 21191},
-																					run: (*parser).callonFootnoteElement128,
+																					run: (*parser).callonFootnoteElement129,
 																					expr: &seqExpr{
 																						pos: position{line: 666, col: 17, offset: 21191},
 																						exprs: []interface{}{
@@ -21200,7 +21204,7 @@ var g = &grammar{
 																									alternatives: []interface{}{
 																										&actionExpr{
 																											pos: position{line: 666, col: 28, offset: 21202},
-																											run: (*parser).callonFootnoteElement133,
+																											run: (*parser).callonFootnoteElement134,
 																											expr: &charClassMatcher{
 																												pos:        position{line: 666, col: 28, offset: 21202},
 																												val:        "[A-Za-z]",
@@ -21211,7 +21215,7 @@ var g = &grammar{
 																										},
 																										&actionExpr{
 																											pos: position{line: 668, col: 9, offset: 21256},
-																											run: (*parser).callonFootnoteElement135,
+																											run: (*parser).callonFootnoteElement136,
 																											expr: &oneOrMoreExpr{
 																												pos: position{line: 668, col: 9, offset: 21256},
 																												expr: &charClassMatcher{
@@ -21248,20 +21252,20 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 2460, col: 5, offset: 79140},
-										run: (*parser).callonFootnoteElement139,
+										run: (*parser).callonFootnoteElement140,
 										expr: &seqExpr{
 											pos: position{line: 2460, col: 5, offset: 79140},
 											exprs: []interface{}{
 												&andCodeExpr{
 													pos: position{line: 2460, col: 5, offset: 79140},
-													run: (*parser).callonFootnoteElement141,
+													run: (*parser).callonFootnoteElement142,
 												},
 												&labeledExpr{
 													pos:   position{line: 2463, col: 5, offset: 79216},
 													label: "element",
 													expr: &actionExpr{
 														pos: position{line: 2464, col: 9, offset: 79234},
-														run: (*parser).callonFootnoteElement143,
+														run: (*parser).callonFootnoteElement144,
 														expr: &charClassMatcher{
 															pos:        position{line: 2464, col: 10, offset: 79235},
 															val:        "[<>&]",
@@ -21275,25 +21279,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2872, col: 12, offset: 90787},
-										run: (*parser).callonFootnoteElement145,
+										pos: position{line: 2875, col: 12, offset: 90858},
+										run: (*parser).callonFootnoteElement146,
 										expr: &choiceExpr{
-											pos: position{line: 2872, col: 13, offset: 90788},
+											pos: position{line: 2875, col: 13, offset: 90859},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2872, col: 13, offset: 90788},
+													pos:        position{line: 2875, col: 13, offset: 90859},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2872, col: 20, offset: 90795},
+													pos:        position{line: 2875, col: 20, offset: 90866},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2872, col: 29, offset: 90804},
+													pos:        position{line: 2875, col: 29, offset: 90875},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -21302,10 +21306,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2802, col: 12, offset: 88924},
-										run: (*parser).callonFootnoteElement150,
+										pos: position{line: 2805, col: 12, offset: 88995},
+										run: (*parser).callonFootnoteElement151,
 										expr: &charClassMatcher{
-											pos:        position{line: 2802, col: 12, offset: 88924},
+											pos:        position{line: 2805, col: 12, offset: 88995},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -21437,55 +21441,55 @@ var g = &grammar{
 									pos:   position{line: 1406, col: 5, offset: 45392},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2825, col: 23, offset: 89502},
+										pos: position{line: 2828, col: 23, offset: 89573},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2825, col: 23, offset: 89502},
+											pos: position{line: 2828, col: 23, offset: 89573},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2825, col: 23, offset: 89502},
+													pos: position{line: 2828, col: 23, offset: 89573},
 													expr: &litMatcher{
-														pos:        position{line: 2825, col: 24, offset: 89503},
+														pos:        position{line: 2828, col: 24, offset: 89574},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2825, col: 28, offset: 89507},
+													pos:   position{line: 2828, col: 28, offset: 89578},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2829, col: 11, offset: 89621},
+														pos: position{line: 2832, col: 11, offset: 89692},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2829, col: 12, offset: 89622},
+															pos: position{line: 2832, col: 12, offset: 89693},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2829, col: 12, offset: 89622},
+																	pos:        position{line: 2832, col: 12, offset: 89693},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2829, col: 24, offset: 89634},
+																	pos:        position{line: 2832, col: 24, offset: 89705},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2829, col: 37, offset: 89647},
+																	pos:        position{line: 2832, col: 37, offset: 89718},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2829, col: 48, offset: 89658},
+																	pos:        position{line: 2832, col: 48, offset: 89729},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2829, col: 59, offset: 89669},
+																	pos:        position{line: 2832, col: 59, offset: 89740},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -21495,38 +21499,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2825, col: 44, offset: 89523},
+													pos:   position{line: 2828, col: 44, offset: 89594},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2834, col: 5, offset: 89733},
+														pos: position{line: 2837, col: 5, offset: 89804},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2834, col: 5, offset: 89733},
+															pos:   position{line: 2837, col: 5, offset: 89804},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2834, col: 14, offset: 89742},
+																pos: position{line: 2837, col: 14, offset: 89813},
 																expr: &choiceExpr{
-																	pos: position{line: 2835, col: 9, offset: 89752},
+																	pos: position{line: 2838, col: 9, offset: 89823},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2835, col: 9, offset: 89752},
+																			pos: position{line: 2838, col: 9, offset: 89823},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2835, col: 9, offset: 89752},
+																				pos: position{line: 2838, col: 9, offset: 89823},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2835, col: 9, offset: 89752},
+																						pos: position{line: 2838, col: 9, offset: 89823},
 																						expr: &litMatcher{
-																							pos:        position{line: 2835, col: 10, offset: 89753},
+																							pos:        position{line: 2838, col: 10, offset: 89824},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2836, col: 9, offset: 89781},
+																						pos: position{line: 2839, col: 9, offset: 89852},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2836, col: 10, offset: 89782},
+																							pos:        position{line: 2839, col: 10, offset: 89853},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -21537,27 +21541,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2839, col: 11, offset: 89994},
+																			pos: position{line: 2842, col: 11, offset: 90065},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2839, col: 11, offset: 89994},
+																					pos:        position{line: 2842, col: 11, offset: 90065},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2839, col: 19, offset: 90002},
+																					pos: position{line: 2842, col: 19, offset: 90073},
 																					expr: &seqExpr{
-																						pos: position{line: 2839, col: 21, offset: 90004},
+																						pos: position{line: 2842, col: 21, offset: 90075},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2839, col: 21, offset: 90004},
+																								pos: position{line: 2842, col: 21, offset: 90075},
 																								expr: &actionExpr{
-																									pos: position{line: 2863, col: 10, offset: 90616},
+																									pos: position{line: 2866, col: 10, offset: 90687},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2863, col: 10, offset: 90616},
+																										pos:        position{line: 2866, col: 10, offset: 90687},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -21566,11 +21570,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2839, col: 28, offset: 90011},
+																								pos: position{line: 2842, col: 28, offset: 90082},
 																								expr: &notExpr{
-																									pos: position{line: 2882, col: 8, offset: 90964},
+																									pos: position{line: 2885, col: 8, offset: 91035},
 																									expr: &anyMatcher{
-																										line: 2882, col: 9, offset: 90965,
+																										line: 2885, col: 9, offset: 91036,
 																									},
 																								},
 																							},
@@ -21965,10 +21969,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2842, col: 11, offset: 90131},
+																			pos: position{line: 2845, col: 11, offset: 90202},
 																			run: (*parser).callonLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2842, col: 11, offset: 90131},
+																				pos:        position{line: 2845, col: 11, offset: 90202},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22143,48 +22147,48 @@ var g = &grammar{
 									pos:   position{line: 1419, col: 17, offset: 45807},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2821, col: 13, offset: 89375},
+										pos: position{line: 2824, col: 13, offset: 89446},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2821, col: 13, offset: 89375},
+											pos: position{line: 2824, col: 13, offset: 89446},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2821, col: 13, offset: 89375},
+													pos:   position{line: 2824, col: 13, offset: 89446},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2821, col: 20, offset: 89382},
+														pos: position{line: 2824, col: 20, offset: 89453},
 														expr: &actionExpr{
-															pos: position{line: 2829, col: 11, offset: 89621},
+															pos: position{line: 2832, col: 11, offset: 89692},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2829, col: 12, offset: 89622},
+																pos: position{line: 2832, col: 12, offset: 89693},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2829, col: 12, offset: 89622},
+																		pos:        position{line: 2832, col: 12, offset: 89693},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2829, col: 24, offset: 89634},
+																		pos:        position{line: 2832, col: 24, offset: 89705},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2829, col: 37, offset: 89647},
+																		pos:        position{line: 2832, col: 37, offset: 89718},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2829, col: 48, offset: 89658},
+																		pos:        position{line: 2832, col: 48, offset: 89729},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2829, col: 59, offset: 89669},
+																		pos:        position{line: 2832, col: 59, offset: 89740},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22195,38 +22199,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2821, col: 30, offset: 89392},
+													pos:   position{line: 2824, col: 30, offset: 89463},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2834, col: 5, offset: 89733},
+														pos: position{line: 2837, col: 5, offset: 89804},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2834, col: 5, offset: 89733},
+															pos:   position{line: 2837, col: 5, offset: 89804},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2834, col: 14, offset: 89742},
+																pos: position{line: 2837, col: 14, offset: 89813},
 																expr: &choiceExpr{
-																	pos: position{line: 2835, col: 9, offset: 89752},
+																	pos: position{line: 2838, col: 9, offset: 89823},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2835, col: 9, offset: 89752},
+																			pos: position{line: 2838, col: 9, offset: 89823},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2835, col: 9, offset: 89752},
+																				pos: position{line: 2838, col: 9, offset: 89823},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2835, col: 9, offset: 89752},
+																						pos: position{line: 2838, col: 9, offset: 89823},
 																						expr: &litMatcher{
-																							pos:        position{line: 2835, col: 10, offset: 89753},
+																							pos:        position{line: 2838, col: 10, offset: 89824},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2836, col: 9, offset: 89781},
+																						pos: position{line: 2839, col: 9, offset: 89852},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2836, col: 10, offset: 89782},
+																							pos:        position{line: 2839, col: 10, offset: 89853},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22237,27 +22241,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2839, col: 11, offset: 89994},
+																			pos: position{line: 2842, col: 11, offset: 90065},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2839, col: 11, offset: 89994},
+																					pos:        position{line: 2842, col: 11, offset: 90065},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2839, col: 19, offset: 90002},
+																					pos: position{line: 2842, col: 19, offset: 90073},
 																					expr: &seqExpr{
-																						pos: position{line: 2839, col: 21, offset: 90004},
+																						pos: position{line: 2842, col: 21, offset: 90075},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2839, col: 21, offset: 90004},
+																								pos: position{line: 2842, col: 21, offset: 90075},
 																								expr: &actionExpr{
-																									pos: position{line: 2863, col: 10, offset: 90616},
+																									pos: position{line: 2866, col: 10, offset: 90687},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2863, col: 10, offset: 90616},
+																										pos:        position{line: 2866, col: 10, offset: 90687},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22266,11 +22270,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2839, col: 28, offset: 90011},
+																								pos: position{line: 2842, col: 28, offset: 90082},
 																								expr: &notExpr{
-																									pos: position{line: 2882, col: 8, offset: 90964},
+																									pos: position{line: 2885, col: 8, offset: 91035},
 																									expr: &anyMatcher{
-																										line: 2882, col: 9, offset: 90965,
+																										line: 2885, col: 9, offset: 91036,
 																									},
 																								},
 																							},
@@ -22665,10 +22669,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2842, col: 11, offset: 90131},
+																			pos: position{line: 2845, col: 11, offset: 90202},
 																			run: (*parser).callonRelativeLink115,
 																			expr: &litMatcher{
-																				pos:        position{line: 2842, col: 11, offset: 90131},
+																				pos:        position{line: 2845, col: 11, offset: 90202},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22711,48 +22715,48 @@ var g = &grammar{
 									pos:   position{line: 1424, col: 13, offset: 45974},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2821, col: 13, offset: 89375},
+										pos: position{line: 2824, col: 13, offset: 89446},
 										run: (*parser).callonRelativeLink123,
 										expr: &seqExpr{
-											pos: position{line: 2821, col: 13, offset: 89375},
+											pos: position{line: 2824, col: 13, offset: 89446},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2821, col: 13, offset: 89375},
+													pos:   position{line: 2824, col: 13, offset: 89446},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2821, col: 20, offset: 89382},
+														pos: position{line: 2824, col: 20, offset: 89453},
 														expr: &actionExpr{
-															pos: position{line: 2829, col: 11, offset: 89621},
+															pos: position{line: 2832, col: 11, offset: 89692},
 															run: (*parser).callonRelativeLink127,
 															expr: &choiceExpr{
-																pos: position{line: 2829, col: 12, offset: 89622},
+																pos: position{line: 2832, col: 12, offset: 89693},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2829, col: 12, offset: 89622},
+																		pos:        position{line: 2832, col: 12, offset: 89693},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2829, col: 24, offset: 89634},
+																		pos:        position{line: 2832, col: 24, offset: 89705},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2829, col: 37, offset: 89647},
+																		pos:        position{line: 2832, col: 37, offset: 89718},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2829, col: 48, offset: 89658},
+																		pos:        position{line: 2832, col: 48, offset: 89729},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2829, col: 59, offset: 89669},
+																		pos:        position{line: 2832, col: 59, offset: 89740},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22763,38 +22767,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2821, col: 30, offset: 89392},
+													pos:   position{line: 2824, col: 30, offset: 89463},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2834, col: 5, offset: 89733},
+														pos: position{line: 2837, col: 5, offset: 89804},
 														run: (*parser).callonRelativeLink135,
 														expr: &labeledExpr{
-															pos:   position{line: 2834, col: 5, offset: 89733},
+															pos:   position{line: 2837, col: 5, offset: 89804},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2834, col: 14, offset: 89742},
+																pos: position{line: 2837, col: 14, offset: 89813},
 																expr: &choiceExpr{
-																	pos: position{line: 2835, col: 9, offset: 89752},
+																	pos: position{line: 2838, col: 9, offset: 89823},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2835, col: 9, offset: 89752},
+																			pos: position{line: 2838, col: 9, offset: 89823},
 																			run: (*parser).callonRelativeLink139,
 																			expr: &seqExpr{
-																				pos: position{line: 2835, col: 9, offset: 89752},
+																				pos: position{line: 2838, col: 9, offset: 89823},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2835, col: 9, offset: 89752},
+																						pos: position{line: 2838, col: 9, offset: 89823},
 																						expr: &litMatcher{
-																							pos:        position{line: 2835, col: 10, offset: 89753},
+																							pos:        position{line: 2838, col: 10, offset: 89824},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2836, col: 9, offset: 89781},
+																						pos: position{line: 2839, col: 9, offset: 89852},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2836, col: 10, offset: 89782},
+																							pos:        position{line: 2839, col: 10, offset: 89853},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22805,27 +22809,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2839, col: 11, offset: 89994},
+																			pos: position{line: 2842, col: 11, offset: 90065},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2839, col: 11, offset: 89994},
+																					pos:        position{line: 2842, col: 11, offset: 90065},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2839, col: 19, offset: 90002},
+																					pos: position{line: 2842, col: 19, offset: 90073},
 																					expr: &seqExpr{
-																						pos: position{line: 2839, col: 21, offset: 90004},
+																						pos: position{line: 2842, col: 21, offset: 90075},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2839, col: 21, offset: 90004},
+																								pos: position{line: 2842, col: 21, offset: 90075},
 																								expr: &actionExpr{
-																									pos: position{line: 2863, col: 10, offset: 90616},
+																									pos: position{line: 2866, col: 10, offset: 90687},
 																									run: (*parser).callonRelativeLink150,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2863, col: 10, offset: 90616},
+																										pos:        position{line: 2866, col: 10, offset: 90687},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22834,11 +22838,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2839, col: 28, offset: 90011},
+																								pos: position{line: 2842, col: 28, offset: 90082},
 																								expr: &notExpr{
-																									pos: position{line: 2882, col: 8, offset: 90964},
+																									pos: position{line: 2885, col: 8, offset: 91035},
 																									expr: &anyMatcher{
-																										line: 2882, col: 9, offset: 90965,
+																										line: 2885, col: 9, offset: 91036,
 																									},
 																								},
 																							},
@@ -23233,10 +23237,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2842, col: 11, offset: 90131},
+																			pos: position{line: 2845, col: 11, offset: 90202},
 																			run: (*parser).callonRelativeLink232,
 																			expr: &litMatcher{
-																				pos:        position{line: 2842, col: 11, offset: 90131},
+																				pos:        position{line: 2845, col: 11, offset: 90202},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23288,55 +23292,55 @@ var g = &grammar{
 									pos:   position{line: 1431, col: 9, offset: 46283},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2825, col: 23, offset: 89502},
+										pos: position{line: 2828, col: 23, offset: 89573},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2825, col: 23, offset: 89502},
+											pos: position{line: 2828, col: 23, offset: 89573},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2825, col: 23, offset: 89502},
+													pos: position{line: 2828, col: 23, offset: 89573},
 													expr: &litMatcher{
-														pos:        position{line: 2825, col: 24, offset: 89503},
+														pos:        position{line: 2828, col: 24, offset: 89574},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2825, col: 28, offset: 89507},
+													pos:   position{line: 2828, col: 28, offset: 89578},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2829, col: 11, offset: 89621},
+														pos: position{line: 2832, col: 11, offset: 89692},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2829, col: 12, offset: 89622},
+															pos: position{line: 2832, col: 12, offset: 89693},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2829, col: 12, offset: 89622},
+																	pos:        position{line: 2832, col: 12, offset: 89693},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2829, col: 24, offset: 89634},
+																	pos:        position{line: 2832, col: 24, offset: 89705},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2829, col: 37, offset: 89647},
+																	pos:        position{line: 2832, col: 37, offset: 89718},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2829, col: 48, offset: 89658},
+																	pos:        position{line: 2832, col: 48, offset: 89729},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2829, col: 59, offset: 89669},
+																	pos:        position{line: 2832, col: 59, offset: 89740},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23346,38 +23350,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2825, col: 44, offset: 89523},
+													pos:   position{line: 2828, col: 44, offset: 89594},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2834, col: 5, offset: 89733},
+														pos: position{line: 2837, col: 5, offset: 89804},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2834, col: 5, offset: 89733},
+															pos:   position{line: 2837, col: 5, offset: 89804},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2834, col: 14, offset: 89742},
+																pos: position{line: 2837, col: 14, offset: 89813},
 																expr: &choiceExpr{
-																	pos: position{line: 2835, col: 9, offset: 89752},
+																	pos: position{line: 2838, col: 9, offset: 89823},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2835, col: 9, offset: 89752},
+																			pos: position{line: 2838, col: 9, offset: 89823},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2835, col: 9, offset: 89752},
+																				pos: position{line: 2838, col: 9, offset: 89823},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2835, col: 9, offset: 89752},
+																						pos: position{line: 2838, col: 9, offset: 89823},
 																						expr: &litMatcher{
-																							pos:        position{line: 2835, col: 10, offset: 89753},
+																							pos:        position{line: 2838, col: 10, offset: 89824},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2836, col: 9, offset: 89781},
+																						pos: position{line: 2839, col: 9, offset: 89852},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2836, col: 10, offset: 89782},
+																							pos:        position{line: 2839, col: 10, offset: 89853},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23388,27 +23392,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2839, col: 11, offset: 89994},
+																			pos: position{line: 2842, col: 11, offset: 90065},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2839, col: 11, offset: 89994},
+																					pos:        position{line: 2842, col: 11, offset: 90065},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2839, col: 19, offset: 90002},
+																					pos: position{line: 2842, col: 19, offset: 90073},
 																					expr: &seqExpr{
-																						pos: position{line: 2839, col: 21, offset: 90004},
+																						pos: position{line: 2842, col: 21, offset: 90075},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2839, col: 21, offset: 90004},
+																								pos: position{line: 2842, col: 21, offset: 90075},
 																								expr: &actionExpr{
-																									pos: position{line: 2863, col: 10, offset: 90616},
+																									pos: position{line: 2866, col: 10, offset: 90687},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2863, col: 10, offset: 90616},
+																										pos:        position{line: 2866, col: 10, offset: 90687},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23417,11 +23421,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2839, col: 28, offset: 90011},
+																								pos: position{line: 2842, col: 28, offset: 90082},
 																								expr: &notExpr{
-																									pos: position{line: 2882, col: 8, offset: 90964},
+																									pos: position{line: 2885, col: 8, offset: 91035},
 																									expr: &anyMatcher{
-																										line: 2882, col: 9, offset: 90965,
+																										line: 2885, col: 9, offset: 91036,
 																									},
 																								},
 																							},
@@ -23816,10 +23820,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2842, col: 11, offset: 90131},
+																			pos: position{line: 2845, col: 11, offset: 90202},
 																			run: (*parser).callonExternalLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2842, col: 11, offset: 90131},
+																				pos:        position{line: 2845, col: 11, offset: 90202},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23859,55 +23863,55 @@ var g = &grammar{
 									pos:   position{line: 1436, col: 5, offset: 46453},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2825, col: 23, offset: 89502},
+										pos: position{line: 2828, col: 23, offset: 89573},
 										run: (*parser).callonExternalLink124,
 										expr: &seqExpr{
-											pos: position{line: 2825, col: 23, offset: 89502},
+											pos: position{line: 2828, col: 23, offset: 89573},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2825, col: 23, offset: 89502},
+													pos: position{line: 2828, col: 23, offset: 89573},
 													expr: &litMatcher{
-														pos:        position{line: 2825, col: 24, offset: 89503},
+														pos:        position{line: 2828, col: 24, offset: 89574},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2825, col: 28, offset: 89507},
+													pos:   position{line: 2828, col: 28, offset: 89578},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2829, col: 11, offset: 89621},
+														pos: position{line: 2832, col: 11, offset: 89692},
 														run: (*parser).callonExternalLink129,
 														expr: &choiceExpr{
-															pos: position{line: 2829, col: 12, offset: 89622},
+															pos: position{line: 2832, col: 12, offset: 89693},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2829, col: 12, offset: 89622},
+																	pos:        position{line: 2832, col: 12, offset: 89693},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2829, col: 24, offset: 89634},
+																	pos:        position{line: 2832, col: 24, offset: 89705},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2829, col: 37, offset: 89647},
+																	pos:        position{line: 2832, col: 37, offset: 89718},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2829, col: 48, offset: 89658},
+																	pos:        position{line: 2832, col: 48, offset: 89729},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2829, col: 59, offset: 89669},
+																	pos:        position{line: 2832, col: 59, offset: 89740},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23917,38 +23921,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2825, col: 44, offset: 89523},
+													pos:   position{line: 2828, col: 44, offset: 89594},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2834, col: 5, offset: 89733},
+														pos: position{line: 2837, col: 5, offset: 89804},
 														run: (*parser).callonExternalLink137,
 														expr: &labeledExpr{
-															pos:   position{line: 2834, col: 5, offset: 89733},
+															pos:   position{line: 2837, col: 5, offset: 89804},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2834, col: 14, offset: 89742},
+																pos: position{line: 2837, col: 14, offset: 89813},
 																expr: &choiceExpr{
-																	pos: position{line: 2835, col: 9, offset: 89752},
+																	pos: position{line: 2838, col: 9, offset: 89823},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2835, col: 9, offset: 89752},
+																			pos: position{line: 2838, col: 9, offset: 89823},
 																			run: (*parser).callonExternalLink141,
 																			expr: &seqExpr{
-																				pos: position{line: 2835, col: 9, offset: 89752},
+																				pos: position{line: 2838, col: 9, offset: 89823},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2835, col: 9, offset: 89752},
+																						pos: position{line: 2838, col: 9, offset: 89823},
 																						expr: &litMatcher{
-																							pos:        position{line: 2835, col: 10, offset: 89753},
+																							pos:        position{line: 2838, col: 10, offset: 89824},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2836, col: 9, offset: 89781},
+																						pos: position{line: 2839, col: 9, offset: 89852},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2836, col: 10, offset: 89782},
+																							pos:        position{line: 2839, col: 10, offset: 89853},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23959,27 +23963,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2839, col: 11, offset: 89994},
+																			pos: position{line: 2842, col: 11, offset: 90065},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2839, col: 11, offset: 89994},
+																					pos:        position{line: 2842, col: 11, offset: 90065},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2839, col: 19, offset: 90002},
+																					pos: position{line: 2842, col: 19, offset: 90073},
 																					expr: &seqExpr{
-																						pos: position{line: 2839, col: 21, offset: 90004},
+																						pos: position{line: 2842, col: 21, offset: 90075},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2839, col: 21, offset: 90004},
+																								pos: position{line: 2842, col: 21, offset: 90075},
 																								expr: &actionExpr{
-																									pos: position{line: 2863, col: 10, offset: 90616},
+																									pos: position{line: 2866, col: 10, offset: 90687},
 																									run: (*parser).callonExternalLink152,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2863, col: 10, offset: 90616},
+																										pos:        position{line: 2866, col: 10, offset: 90687},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23988,11 +23992,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2839, col: 28, offset: 90011},
+																								pos: position{line: 2842, col: 28, offset: 90082},
 																								expr: &notExpr{
-																									pos: position{line: 2882, col: 8, offset: 90964},
+																									pos: position{line: 2885, col: 8, offset: 91035},
 																									expr: &anyMatcher{
-																										line: 2882, col: 9, offset: 90965,
+																										line: 2885, col: 9, offset: 91036,
 																									},
 																								},
 																							},
@@ -24387,10 +24391,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2842, col: 11, offset: 90131},
+																			pos: position{line: 2845, col: 11, offset: 90202},
 																			run: (*parser).callonExternalLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2842, col: 11, offset: 90131},
+																				pos:        position{line: 2845, col: 11, offset: 90202},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24456,10 +24460,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1577, col: 5, offset: 50996},
 																	expr: &actionExpr{
-																		pos: position{line: 2863, col: 10, offset: 90616},
+																		pos: position{line: 2866, col: 10, offset: 90687},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2863, col: 10, offset: 90616},
+																			pos:        position{line: 2866, col: 10, offset: 90687},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24626,12 +24630,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2867, col: 11, offset: 90677},
+																	pos: position{line: 2870, col: 11, offset: 90748},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2867, col: 11, offset: 90677},
+																		pos: position{line: 2870, col: 11, offset: 90748},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2867, col: 11, offset: 90677},
+																			pos:        position{line: 2870, col: 11, offset: 90748},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24674,28 +24678,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2885, col: 8, offset: 91014},
+																	pos: position{line: 2888, col: 8, offset: 91085},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2872, col: 12, offset: 90787},
+																			pos: position{line: 2875, col: 12, offset: 90858},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2872, col: 13, offset: 90788},
+																				pos: position{line: 2875, col: 13, offset: 90859},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 13, offset: 90788},
+																						pos:        position{line: 2875, col: 13, offset: 90859},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 20, offset: 90795},
+																						pos:        position{line: 2875, col: 20, offset: 90866},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 29, offset: 90804},
+																						pos:        position{line: 2875, col: 29, offset: 90875},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -24704,9 +24708,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2882, col: 8, offset: 90964},
+																			pos: position{line: 2885, col: 8, offset: 91035},
 																			expr: &anyMatcher{
-																				line: 2882, col: 9, offset: 90965,
+																				line: 2885, col: 9, offset: 91036,
 																			},
 																		},
 																	},
@@ -24736,10 +24740,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1627, col: 5, offset: 52958},
 																	expr: &actionExpr{
-																		pos: position{line: 2863, col: 10, offset: 90616},
+																		pos: position{line: 2866, col: 10, offset: 90687},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2863, col: 10, offset: 90616},
+																			pos:        position{line: 2866, col: 10, offset: 90687},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24780,12 +24784,12 @@ var g = &grammar{
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2867, col: 11, offset: 90677},
+																	pos: position{line: 2870, col: 11, offset: 90748},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2867, col: 11, offset: 90677},
+																		pos: position{line: 2870, col: 11, offset: 90748},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2867, col: 11, offset: 90677},
+																			pos:        position{line: 2870, col: 11, offset: 90748},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24857,12 +24861,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2867, col: 11, offset: 90677},
+																		pos: position{line: 2870, col: 11, offset: 90748},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2867, col: 11, offset: 90677},
+																			pos: position{line: 2870, col: 11, offset: 90748},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2867, col: 11, offset: 90677},
+																				pos:        position{line: 2870, col: 11, offset: 90748},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -24906,28 +24910,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2885, col: 8, offset: 91014},
+																	pos: position{line: 2888, col: 8, offset: 91085},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2872, col: 12, offset: 90787},
+																			pos: position{line: 2875, col: 12, offset: 90858},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2872, col: 13, offset: 90788},
+																				pos: position{line: 2875, col: 13, offset: 90859},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 13, offset: 90788},
+																						pos:        position{line: 2875, col: 13, offset: 90859},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 20, offset: 90795},
+																						pos:        position{line: 2875, col: 20, offset: 90866},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 29, offset: 90804},
+																						pos:        position{line: 2875, col: 29, offset: 90875},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -24936,9 +24940,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2882, col: 8, offset: 90964},
+																			pos: position{line: 2885, col: 8, offset: 91035},
 																			expr: &anyMatcher{
-																				line: 2882, col: 9, offset: 90965,
+																				line: 2885, col: 9, offset: 91036,
 																			},
 																		},
 																	},
@@ -24996,12 +25000,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2867, col: 11, offset: 90677},
+																	pos: position{line: 2870, col: 11, offset: 90748},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2867, col: 11, offset: 90677},
+																		pos: position{line: 2870, col: 11, offset: 90748},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2867, col: 11, offset: 90677},
+																			pos:        position{line: 2870, col: 11, offset: 90748},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25044,28 +25048,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2885, col: 8, offset: 91014},
+																	pos: position{line: 2888, col: 8, offset: 91085},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2872, col: 12, offset: 90787},
+																			pos: position{line: 2875, col: 12, offset: 90858},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2872, col: 13, offset: 90788},
+																				pos: position{line: 2875, col: 13, offset: 90859},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 13, offset: 90788},
+																						pos:        position{line: 2875, col: 13, offset: 90859},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 20, offset: 90795},
+																						pos:        position{line: 2875, col: 20, offset: 90866},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 29, offset: 90804},
+																						pos:        position{line: 2875, col: 29, offset: 90875},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25074,9 +25078,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2882, col: 8, offset: 90964},
+																			pos: position{line: 2885, col: 8, offset: 91035},
 																			expr: &anyMatcher{
-																				line: 2882, col: 9, offset: 90965,
+																				line: 2885, col: 9, offset: 91036,
 																			},
 																		},
 																	},
@@ -25167,28 +25171,28 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1663, col: 35, offset: 54039},
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 8, offset: 91014},
+																					pos: position{line: 2888, col: 8, offset: 91085},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2872, col: 12, offset: 90787},
+																							pos: position{line: 2875, col: 12, offset: 90858},
 																							run: (*parser).callonListElements167,
 																							expr: &choiceExpr{
-																								pos: position{line: 2872, col: 13, offset: 90788},
+																								pos: position{line: 2875, col: 13, offset: 90859},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2872, col: 13, offset: 90788},
+																										pos:        position{line: 2875, col: 13, offset: 90859},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2872, col: 20, offset: 90795},
+																										pos:        position{line: 2875, col: 20, offset: 90866},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2872, col: 29, offset: 90804},
+																										pos:        position{line: 2875, col: 29, offset: 90875},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -25197,9 +25201,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2882, col: 8, offset: 90964},
+																							pos: position{line: 2885, col: 8, offset: 91035},
 																							expr: &anyMatcher{
-																								line: 2882, col: 9, offset: 90965,
+																								line: 2885, col: 9, offset: 91036,
 																							},
 																						},
 																					},
@@ -25264,10 +25268,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 1681, col: 9, offset: 54544},
 																			expr: &actionExpr{
-																				pos: position{line: 2863, col: 10, offset: 90616},
+																				pos: position{line: 2866, col: 10, offset: 90687},
 																				run: (*parser).callonListElements188,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2863, col: 10, offset: 90616},
+																					pos:        position{line: 2866, col: 10, offset: 90687},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25276,28 +25280,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2885, col: 8, offset: 91014},
+																			pos: position{line: 2888, col: 8, offset: 91085},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2872, col: 12, offset: 90787},
+																					pos: position{line: 2875, col: 12, offset: 90858},
 																					run: (*parser).callonListElements191,
 																					expr: &choiceExpr{
-																						pos: position{line: 2872, col: 13, offset: 90788},
+																						pos: position{line: 2875, col: 13, offset: 90859},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2872, col: 13, offset: 90788},
+																								pos:        position{line: 2875, col: 13, offset: 90859},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2872, col: 20, offset: 90795},
+																								pos:        position{line: 2875, col: 20, offset: 90866},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2872, col: 29, offset: 90804},
+																								pos:        position{line: 2875, col: 29, offset: 90875},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25306,9 +25310,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2882, col: 8, offset: 90964},
+																					pos: position{line: 2885, col: 8, offset: 91035},
 																					expr: &anyMatcher{
-																						line: 2882, col: 9, offset: 90965,
+																						line: 2885, col: 9, offset: 91036,
 																					},
 																				},
 																			},
@@ -25322,18 +25326,18 @@ var g = &grammar{
 																					pos: position{line: 677, col: 14, offset: 21557},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2880, col: 11, offset: 90950},
+																							pos: position{line: 2883, col: 11, offset: 91021},
 																							expr: &anyMatcher{
-																								line: 2880, col: 13, offset: 90952,
+																								line: 2883, col: 13, offset: 91023,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 677, col: 21, offset: 21564},
 																							expr: &actionExpr{
-																								pos: position{line: 2863, col: 10, offset: 90616},
+																								pos: position{line: 2866, col: 10, offset: 90687},
 																								run: (*parser).callonListElements204,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2863, col: 10, offset: 90616},
+																									pos:        position{line: 2866, col: 10, offset: 90687},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25342,28 +25346,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2885, col: 8, offset: 91014},
+																							pos: position{line: 2888, col: 8, offset: 91085},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2872, col: 12, offset: 90787},
+																									pos: position{line: 2875, col: 12, offset: 90858},
 																									run: (*parser).callonListElements207,
 																									expr: &choiceExpr{
-																										pos: position{line: 2872, col: 13, offset: 90788},
+																										pos: position{line: 2875, col: 13, offset: 90859},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 13, offset: 90788},
+																												pos:        position{line: 2875, col: 13, offset: 90859},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 20, offset: 90795},
+																												pos:        position{line: 2875, col: 20, offset: 90866},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 29, offset: 90804},
+																												pos:        position{line: 2875, col: 29, offset: 90875},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25372,9 +25376,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2882, col: 8, offset: 90964},
+																									pos: position{line: 2885, col: 8, offset: 91035},
 																									expr: &anyMatcher{
-																										line: 2882, col: 9, offset: 90965,
+																										line: 2885, col: 9, offset: 91036,
 																									},
 																								},
 																							},
@@ -25393,12 +25397,12 @@ var g = &grammar{
 																	pos: position{line: 1688, col: 9, offset: 54692},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2867, col: 11, offset: 90677},
+																			pos: position{line: 2870, col: 11, offset: 90748},
 																			run: (*parser).callonListElements216,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2867, col: 11, offset: 90677},
+																				pos: position{line: 2870, col: 11, offset: 90748},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2867, col: 11, offset: 90677},
+																					pos:        position{line: 2870, col: 11, offset: 90748},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25425,28 +25429,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2885, col: 8, offset: 91014},
+																			pos: position{line: 2888, col: 8, offset: 91085},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2872, col: 12, offset: 90787},
+																					pos: position{line: 2875, col: 12, offset: 90858},
 																					run: (*parser).callonListElements224,
 																					expr: &choiceExpr{
-																						pos: position{line: 2872, col: 13, offset: 90788},
+																						pos: position{line: 2875, col: 13, offset: 90859},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2872, col: 13, offset: 90788},
+																								pos:        position{line: 2875, col: 13, offset: 90859},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2872, col: 20, offset: 90795},
+																								pos:        position{line: 2875, col: 20, offset: 90866},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2872, col: 29, offset: 90804},
+																								pos:        position{line: 2875, col: 29, offset: 90875},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25455,9 +25459,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2882, col: 8, offset: 90964},
+																					pos: position{line: 2885, col: 8, offset: 91035},
 																					expr: &anyMatcher{
-																						line: 2882, col: 9, offset: 90965,
+																						line: 2885, col: 9, offset: 91036,
 																					},
 																				},
 																			},
@@ -25515,9 +25519,9 @@ var g = &grammar{
 					pos: position{line: 1487, col: 5, offset: 48203},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2880, col: 11, offset: 90950},
+							pos: position{line: 2883, col: 11, offset: 91021},
 							expr: &anyMatcher{
-								line: 2880, col: 13, offset: 90952,
+								line: 2883, col: 13, offset: 91023,
 							},
 						},
 						&labeledExpr{
@@ -25541,18 +25545,18 @@ var g = &grammar{
 															pos: position{line: 677, col: 14, offset: 21557},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2880, col: 11, offset: 90950},
+																	pos: position{line: 2883, col: 11, offset: 91021},
 																	expr: &anyMatcher{
-																		line: 2880, col: 13, offset: 90952,
+																		line: 2883, col: 13, offset: 91023,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 677, col: 21, offset: 21564},
 																	expr: &actionExpr{
-																		pos: position{line: 2863, col: 10, offset: 90616},
+																		pos: position{line: 2866, col: 10, offset: 90687},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2863, col: 10, offset: 90616},
+																			pos:        position{line: 2866, col: 10, offset: 90687},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25561,28 +25565,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2885, col: 8, offset: 91014},
+																	pos: position{line: 2888, col: 8, offset: 91085},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2872, col: 12, offset: 90787},
+																			pos: position{line: 2875, col: 12, offset: 90858},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2872, col: 13, offset: 90788},
+																				pos: position{line: 2875, col: 13, offset: 90859},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 13, offset: 90788},
+																						pos:        position{line: 2875, col: 13, offset: 90859},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 20, offset: 90795},
+																						pos:        position{line: 2875, col: 20, offset: 90866},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 29, offset: 90804},
+																						pos:        position{line: 2875, col: 29, offset: 90875},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25591,9 +25595,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2882, col: 8, offset: 90964},
+																			pos: position{line: 2885, col: 8, offset: 91035},
 																			expr: &anyMatcher{
-																				line: 2882, col: 9, offset: 90965,
+																				line: 2885, col: 9, offset: 91036,
 																			},
 																		},
 																	},
@@ -25626,10 +25630,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1577, col: 5, offset: 50996},
 																							expr: &actionExpr{
-																								pos: position{line: 2863, col: 10, offset: 90616},
+																								pos: position{line: 2866, col: 10, offset: 90687},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2863, col: 10, offset: 90616},
+																									pos:        position{line: 2866, col: 10, offset: 90687},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25796,12 +25800,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2867, col: 11, offset: 90677},
+																							pos: position{line: 2870, col: 11, offset: 90748},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2867, col: 11, offset: 90677},
+																								pos: position{line: 2870, col: 11, offset: 90748},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2867, col: 11, offset: 90677},
+																									pos:        position{line: 2870, col: 11, offset: 90748},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25844,28 +25848,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2885, col: 8, offset: 91014},
+																							pos: position{line: 2888, col: 8, offset: 91085},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2872, col: 12, offset: 90787},
+																									pos: position{line: 2875, col: 12, offset: 90858},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2872, col: 13, offset: 90788},
+																										pos: position{line: 2875, col: 13, offset: 90859},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 13, offset: 90788},
+																												pos:        position{line: 2875, col: 13, offset: 90859},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 20, offset: 90795},
+																												pos:        position{line: 2875, col: 20, offset: 90866},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 29, offset: 90804},
+																												pos:        position{line: 2875, col: 29, offset: 90875},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25874,9 +25878,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2882, col: 8, offset: 90964},
+																									pos: position{line: 2885, col: 8, offset: 91035},
 																									expr: &anyMatcher{
-																										line: 2882, col: 9, offset: 90965,
+																										line: 2885, col: 9, offset: 91036,
 																									},
 																								},
 																							},
@@ -25906,10 +25910,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1627, col: 5, offset: 52958},
 																							expr: &actionExpr{
-																								pos: position{line: 2863, col: 10, offset: 90616},
+																								pos: position{line: 2866, col: 10, offset: 90687},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2863, col: 10, offset: 90616},
+																									pos:        position{line: 2866, col: 10, offset: 90687},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25950,12 +25954,12 @@ var g = &grammar{
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2867, col: 11, offset: 90677},
+																							pos: position{line: 2870, col: 11, offset: 90748},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2867, col: 11, offset: 90677},
+																								pos: position{line: 2870, col: 11, offset: 90748},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2867, col: 11, offset: 90677},
+																									pos:        position{line: 2870, col: 11, offset: 90748},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26027,12 +26031,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2867, col: 11, offset: 90677},
+																								pos: position{line: 2870, col: 11, offset: 90748},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2867, col: 11, offset: 90677},
+																									pos: position{line: 2870, col: 11, offset: 90748},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2867, col: 11, offset: 90677},
+																										pos:        position{line: 2870, col: 11, offset: 90748},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -26076,28 +26080,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2885, col: 8, offset: 91014},
+																							pos: position{line: 2888, col: 8, offset: 91085},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2872, col: 12, offset: 90787},
+																									pos: position{line: 2875, col: 12, offset: 90858},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2872, col: 13, offset: 90788},
+																										pos: position{line: 2875, col: 13, offset: 90859},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 13, offset: 90788},
+																												pos:        position{line: 2875, col: 13, offset: 90859},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 20, offset: 90795},
+																												pos:        position{line: 2875, col: 20, offset: 90866},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 29, offset: 90804},
+																												pos:        position{line: 2875, col: 29, offset: 90875},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26106,9 +26110,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2882, col: 8, offset: 90964},
+																									pos: position{line: 2885, col: 8, offset: 91035},
 																									expr: &anyMatcher{
-																										line: 2882, col: 9, offset: 90965,
+																										line: 2885, col: 9, offset: 91036,
 																									},
 																								},
 																							},
@@ -26166,12 +26170,12 @@ var g = &grammar{
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2867, col: 11, offset: 90677},
+																							pos: position{line: 2870, col: 11, offset: 90748},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2867, col: 11, offset: 90677},
+																								pos: position{line: 2870, col: 11, offset: 90748},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2867, col: 11, offset: 90677},
+																									pos:        position{line: 2870, col: 11, offset: 90748},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26214,28 +26218,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2885, col: 8, offset: 91014},
+																							pos: position{line: 2888, col: 8, offset: 91085},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2872, col: 12, offset: 90787},
+																									pos: position{line: 2875, col: 12, offset: 90858},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2872, col: 13, offset: 90788},
+																										pos: position{line: 2875, col: 13, offset: 90859},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 13, offset: 90788},
+																												pos:        position{line: 2875, col: 13, offset: 90859},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 20, offset: 90795},
+																												pos:        position{line: 2875, col: 20, offset: 90866},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 29, offset: 90804},
+																												pos:        position{line: 2875, col: 29, offset: 90875},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26244,9 +26248,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2882, col: 8, offset: 90964},
+																									pos: position{line: 2885, col: 8, offset: 91035},
 																									expr: &anyMatcher{
-																										line: 2882, col: 9, offset: 90965,
+																										line: 2885, col: 9, offset: 91036,
 																									},
 																								},
 																							},
@@ -26337,28 +26341,28 @@ var g = &grammar{
 																									&notExpr{
 																										pos: position{line: 1663, col: 35, offset: 54039},
 																										expr: &choiceExpr{
-																											pos: position{line: 2885, col: 8, offset: 91014},
+																											pos: position{line: 2888, col: 8, offset: 91085},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2872, col: 12, offset: 90787},
+																													pos: position{line: 2875, col: 12, offset: 90858},
 																													run: (*parser).callonExtraListElement189,
 																													expr: &choiceExpr{
-																														pos: position{line: 2872, col: 13, offset: 90788},
+																														pos: position{line: 2875, col: 13, offset: 90859},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 13, offset: 90788},
+																																pos:        position{line: 2875, col: 13, offset: 90859},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 20, offset: 90795},
+																																pos:        position{line: 2875, col: 20, offset: 90866},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 29, offset: 90804},
+																																pos:        position{line: 2875, col: 29, offset: 90875},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -26367,9 +26371,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2882, col: 8, offset: 90964},
+																													pos: position{line: 2885, col: 8, offset: 91035},
 																													expr: &anyMatcher{
-																														line: 2882, col: 9, offset: 90965,
+																														line: 2885, col: 9, offset: 91036,
 																													},
 																												},
 																											},
@@ -26434,10 +26438,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 1681, col: 9, offset: 54544},
 																									expr: &actionExpr{
-																										pos: position{line: 2863, col: 10, offset: 90616},
+																										pos: position{line: 2866, col: 10, offset: 90687},
 																										run: (*parser).callonExtraListElement210,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2863, col: 10, offset: 90616},
+																											pos:        position{line: 2866, col: 10, offset: 90687},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26446,28 +26450,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2885, col: 8, offset: 91014},
+																									pos: position{line: 2888, col: 8, offset: 91085},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2872, col: 12, offset: 90787},
+																											pos: position{line: 2875, col: 12, offset: 90858},
 																											run: (*parser).callonExtraListElement213,
 																											expr: &choiceExpr{
-																												pos: position{line: 2872, col: 13, offset: 90788},
+																												pos: position{line: 2875, col: 13, offset: 90859},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2872, col: 13, offset: 90788},
+																														pos:        position{line: 2875, col: 13, offset: 90859},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2872, col: 20, offset: 90795},
+																														pos:        position{line: 2875, col: 20, offset: 90866},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2872, col: 29, offset: 90804},
+																														pos:        position{line: 2875, col: 29, offset: 90875},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26476,9 +26480,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2882, col: 8, offset: 90964},
+																											pos: position{line: 2885, col: 8, offset: 91035},
 																											expr: &anyMatcher{
-																												line: 2882, col: 9, offset: 90965,
+																												line: 2885, col: 9, offset: 91036,
 																											},
 																										},
 																									},
@@ -26492,18 +26496,18 @@ var g = &grammar{
 																											pos: position{line: 677, col: 14, offset: 21557},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2880, col: 11, offset: 90950},
+																													pos: position{line: 2883, col: 11, offset: 91021},
 																													expr: &anyMatcher{
-																														line: 2880, col: 13, offset: 90952,
+																														line: 2883, col: 13, offset: 91023,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 677, col: 21, offset: 21564},
 																													expr: &actionExpr{
-																														pos: position{line: 2863, col: 10, offset: 90616},
+																														pos: position{line: 2866, col: 10, offset: 90687},
 																														run: (*parser).callonExtraListElement226,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2863, col: 10, offset: 90616},
+																															pos:        position{line: 2866, col: 10, offset: 90687},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -26512,28 +26516,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2885, col: 8, offset: 91014},
+																													pos: position{line: 2888, col: 8, offset: 91085},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2872, col: 12, offset: 90787},
+																															pos: position{line: 2875, col: 12, offset: 90858},
 																															run: (*parser).callonExtraListElement229,
 																															expr: &choiceExpr{
-																																pos: position{line: 2872, col: 13, offset: 90788},
+																																pos: position{line: 2875, col: 13, offset: 90859},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2872, col: 13, offset: 90788},
+																																		pos:        position{line: 2875, col: 13, offset: 90859},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2872, col: 20, offset: 90795},
+																																		pos:        position{line: 2875, col: 20, offset: 90866},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2872, col: 29, offset: 90804},
+																																		pos:        position{line: 2875, col: 29, offset: 90875},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -26542,9 +26546,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2882, col: 8, offset: 90964},
+																															pos: position{line: 2885, col: 8, offset: 91035},
 																															expr: &anyMatcher{
-																																line: 2882, col: 9, offset: 90965,
+																																line: 2885, col: 9, offset: 91036,
 																															},
 																														},
 																													},
@@ -26563,12 +26567,12 @@ var g = &grammar{
 																							pos: position{line: 1688, col: 9, offset: 54692},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2867, col: 11, offset: 90677},
+																									pos: position{line: 2870, col: 11, offset: 90748},
 																									run: (*parser).callonExtraListElement238,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2867, col: 11, offset: 90677},
+																										pos: position{line: 2870, col: 11, offset: 90748},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2867, col: 11, offset: 90677},
+																											pos:        position{line: 2870, col: 11, offset: 90748},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26595,28 +26599,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2885, col: 8, offset: 91014},
+																									pos: position{line: 2888, col: 8, offset: 91085},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2872, col: 12, offset: 90787},
+																											pos: position{line: 2875, col: 12, offset: 90858},
 																											run: (*parser).callonExtraListElement246,
 																											expr: &choiceExpr{
-																												pos: position{line: 2872, col: 13, offset: 90788},
+																												pos: position{line: 2875, col: 13, offset: 90859},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2872, col: 13, offset: 90788},
+																														pos:        position{line: 2875, col: 13, offset: 90859},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2872, col: 20, offset: 90795},
+																														pos:        position{line: 2875, col: 20, offset: 90866},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2872, col: 29, offset: 90804},
+																														pos:        position{line: 2875, col: 29, offset: 90875},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26625,9 +26629,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2882, col: 8, offset: 90964},
+																											pos: position{line: 2885, col: 8, offset: 91035},
 																											expr: &anyMatcher{
-																												line: 2882, col: 9, offset: 90965,
+																												line: 2885, col: 9, offset: 91036,
 																											},
 																										},
 																									},
@@ -26688,10 +26692,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1577, col: 5, offset: 50996},
 																							expr: &actionExpr{
-																								pos: position{line: 2863, col: 10, offset: 90616},
+																								pos: position{line: 2866, col: 10, offset: 90687},
 																								run: (*parser).callonExtraListElement266,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2863, col: 10, offset: 90616},
+																									pos:        position{line: 2866, col: 10, offset: 90687},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26858,12 +26862,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2867, col: 11, offset: 90677},
+																							pos: position{line: 2870, col: 11, offset: 90748},
 																							run: (*parser).callonExtraListElement300,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2867, col: 11, offset: 90677},
+																								pos: position{line: 2870, col: 11, offset: 90748},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2867, col: 11, offset: 90677},
+																									pos:        position{line: 2870, col: 11, offset: 90748},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26906,28 +26910,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2885, col: 8, offset: 91014},
+																							pos: position{line: 2888, col: 8, offset: 91085},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2872, col: 12, offset: 90787},
+																									pos: position{line: 2875, col: 12, offset: 90858},
 																									run: (*parser).callonExtraListElement312,
 																									expr: &choiceExpr{
-																										pos: position{line: 2872, col: 13, offset: 90788},
+																										pos: position{line: 2875, col: 13, offset: 90859},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 13, offset: 90788},
+																												pos:        position{line: 2875, col: 13, offset: 90859},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 20, offset: 90795},
+																												pos:        position{line: 2875, col: 20, offset: 90866},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 29, offset: 90804},
+																												pos:        position{line: 2875, col: 29, offset: 90875},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26936,9 +26940,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2882, col: 8, offset: 90964},
+																									pos: position{line: 2885, col: 8, offset: 91035},
 																									expr: &anyMatcher{
-																										line: 2882, col: 9, offset: 90965,
+																										line: 2885, col: 9, offset: 91036,
 																									},
 																								},
 																							},
@@ -26968,10 +26972,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1627, col: 5, offset: 52958},
 																							expr: &actionExpr{
-																								pos: position{line: 2863, col: 10, offset: 90616},
+																								pos: position{line: 2866, col: 10, offset: 90687},
 																								run: (*parser).callonExtraListElement325,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2863, col: 10, offset: 90616},
+																									pos:        position{line: 2866, col: 10, offset: 90687},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27012,12 +27016,12 @@ var g = &grammar{
 																							run: (*parser).callonExtraListElement333,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2867, col: 11, offset: 90677},
+																							pos: position{line: 2870, col: 11, offset: 90748},
 																							run: (*parser).callonExtraListElement334,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2867, col: 11, offset: 90677},
+																								pos: position{line: 2870, col: 11, offset: 90748},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2867, col: 11, offset: 90677},
+																									pos:        position{line: 2870, col: 11, offset: 90748},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27089,12 +27093,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2867, col: 11, offset: 90677},
+																								pos: position{line: 2870, col: 11, offset: 90748},
 																								run: (*parser).callonExtraListElement351,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2867, col: 11, offset: 90677},
+																									pos: position{line: 2870, col: 11, offset: 90748},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2867, col: 11, offset: 90677},
+																										pos:        position{line: 2870, col: 11, offset: 90748},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27138,28 +27142,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2885, col: 8, offset: 91014},
+																							pos: position{line: 2888, col: 8, offset: 91085},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2872, col: 12, offset: 90787},
+																									pos: position{line: 2875, col: 12, offset: 90858},
 																									run: (*parser).callonExtraListElement363,
 																									expr: &choiceExpr{
-																										pos: position{line: 2872, col: 13, offset: 90788},
+																										pos: position{line: 2875, col: 13, offset: 90859},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 13, offset: 90788},
+																												pos:        position{line: 2875, col: 13, offset: 90859},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 20, offset: 90795},
+																												pos:        position{line: 2875, col: 20, offset: 90866},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 29, offset: 90804},
+																												pos:        position{line: 2875, col: 29, offset: 90875},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27168,9 +27172,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2882, col: 8, offset: 90964},
+																									pos: position{line: 2885, col: 8, offset: 91035},
 																									expr: &anyMatcher{
-																										line: 2882, col: 9, offset: 90965,
+																										line: 2885, col: 9, offset: 91036,
 																									},
 																								},
 																							},
@@ -27228,12 +27232,12 @@ var g = &grammar{
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2867, col: 11, offset: 90677},
+																							pos: position{line: 2870, col: 11, offset: 90748},
 																							run: (*parser).callonExtraListElement381,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2867, col: 11, offset: 90677},
+																								pos: position{line: 2870, col: 11, offset: 90748},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2867, col: 11, offset: 90677},
+																									pos:        position{line: 2870, col: 11, offset: 90748},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27276,28 +27280,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2885, col: 8, offset: 91014},
+																							pos: position{line: 2888, col: 8, offset: 91085},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2872, col: 12, offset: 90787},
+																									pos: position{line: 2875, col: 12, offset: 90858},
 																									run: (*parser).callonExtraListElement393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2872, col: 13, offset: 90788},
+																										pos: position{line: 2875, col: 13, offset: 90859},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 13, offset: 90788},
+																												pos:        position{line: 2875, col: 13, offset: 90859},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 20, offset: 90795},
+																												pos:        position{line: 2875, col: 20, offset: 90866},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 29, offset: 90804},
+																												pos:        position{line: 2875, col: 29, offset: 90875},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27306,9 +27310,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2882, col: 8, offset: 90964},
+																									pos: position{line: 2885, col: 8, offset: 91035},
 																									expr: &anyMatcher{
-																										line: 2882, col: 9, offset: 90965,
+																										line: 2885, col: 9, offset: 91036,
 																									},
 																								},
 																							},
@@ -27399,28 +27403,28 @@ var g = &grammar{
 																									&notExpr{
 																										pos: position{line: 1663, col: 35, offset: 54039},
 																										expr: &choiceExpr{
-																											pos: position{line: 2885, col: 8, offset: 91014},
+																											pos: position{line: 2888, col: 8, offset: 91085},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2872, col: 12, offset: 90787},
+																													pos: position{line: 2875, col: 12, offset: 90858},
 																													run: (*parser).callonExtraListElement422,
 																													expr: &choiceExpr{
-																														pos: position{line: 2872, col: 13, offset: 90788},
+																														pos: position{line: 2875, col: 13, offset: 90859},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 13, offset: 90788},
+																																pos:        position{line: 2875, col: 13, offset: 90859},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 20, offset: 90795},
+																																pos:        position{line: 2875, col: 20, offset: 90866},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 29, offset: 90804},
+																																pos:        position{line: 2875, col: 29, offset: 90875},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -27429,9 +27433,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2882, col: 8, offset: 90964},
+																													pos: position{line: 2885, col: 8, offset: 91035},
 																													expr: &anyMatcher{
-																														line: 2882, col: 9, offset: 90965,
+																														line: 2885, col: 9, offset: 91036,
 																													},
 																												},
 																											},
@@ -27496,10 +27500,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 1681, col: 9, offset: 54544},
 																									expr: &actionExpr{
-																										pos: position{line: 2863, col: 10, offset: 90616},
+																										pos: position{line: 2866, col: 10, offset: 90687},
 																										run: (*parser).callonExtraListElement443,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2863, col: 10, offset: 90616},
+																											pos:        position{line: 2866, col: 10, offset: 90687},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27508,28 +27512,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2885, col: 8, offset: 91014},
+																									pos: position{line: 2888, col: 8, offset: 91085},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2872, col: 12, offset: 90787},
+																											pos: position{line: 2875, col: 12, offset: 90858},
 																											run: (*parser).callonExtraListElement446,
 																											expr: &choiceExpr{
-																												pos: position{line: 2872, col: 13, offset: 90788},
+																												pos: position{line: 2875, col: 13, offset: 90859},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2872, col: 13, offset: 90788},
+																														pos:        position{line: 2875, col: 13, offset: 90859},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2872, col: 20, offset: 90795},
+																														pos:        position{line: 2875, col: 20, offset: 90866},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2872, col: 29, offset: 90804},
+																														pos:        position{line: 2875, col: 29, offset: 90875},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27538,9 +27542,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2882, col: 8, offset: 90964},
+																											pos: position{line: 2885, col: 8, offset: 91035},
 																											expr: &anyMatcher{
-																												line: 2882, col: 9, offset: 90965,
+																												line: 2885, col: 9, offset: 91036,
 																											},
 																										},
 																									},
@@ -27554,18 +27558,18 @@ var g = &grammar{
 																											pos: position{line: 677, col: 14, offset: 21557},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2880, col: 11, offset: 90950},
+																													pos: position{line: 2883, col: 11, offset: 91021},
 																													expr: &anyMatcher{
-																														line: 2880, col: 13, offset: 90952,
+																														line: 2883, col: 13, offset: 91023,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 677, col: 21, offset: 21564},
 																													expr: &actionExpr{
-																														pos: position{line: 2863, col: 10, offset: 90616},
+																														pos: position{line: 2866, col: 10, offset: 90687},
 																														run: (*parser).callonExtraListElement459,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2863, col: 10, offset: 90616},
+																															pos:        position{line: 2866, col: 10, offset: 90687},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27574,28 +27578,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2885, col: 8, offset: 91014},
+																													pos: position{line: 2888, col: 8, offset: 91085},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2872, col: 12, offset: 90787},
+																															pos: position{line: 2875, col: 12, offset: 90858},
 																															run: (*parser).callonExtraListElement462,
 																															expr: &choiceExpr{
-																																pos: position{line: 2872, col: 13, offset: 90788},
+																																pos: position{line: 2875, col: 13, offset: 90859},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2872, col: 13, offset: 90788},
+																																		pos:        position{line: 2875, col: 13, offset: 90859},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2872, col: 20, offset: 90795},
+																																		pos:        position{line: 2875, col: 20, offset: 90866},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2872, col: 29, offset: 90804},
+																																		pos:        position{line: 2875, col: 29, offset: 90875},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -27604,9 +27608,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2882, col: 8, offset: 90964},
+																															pos: position{line: 2885, col: 8, offset: 91035},
 																															expr: &anyMatcher{
-																																line: 2882, col: 9, offset: 90965,
+																																line: 2885, col: 9, offset: 91036,
 																															},
 																														},
 																													},
@@ -27625,12 +27629,12 @@ var g = &grammar{
 																							pos: position{line: 1688, col: 9, offset: 54692},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2867, col: 11, offset: 90677},
+																									pos: position{line: 2870, col: 11, offset: 90748},
 																									run: (*parser).callonExtraListElement471,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2867, col: 11, offset: 90677},
+																										pos: position{line: 2870, col: 11, offset: 90748},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2867, col: 11, offset: 90677},
+																											pos:        position{line: 2870, col: 11, offset: 90748},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27657,28 +27661,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2885, col: 8, offset: 91014},
+																									pos: position{line: 2888, col: 8, offset: 91085},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2872, col: 12, offset: 90787},
+																											pos: position{line: 2875, col: 12, offset: 90858},
 																											run: (*parser).callonExtraListElement479,
 																											expr: &choiceExpr{
-																												pos: position{line: 2872, col: 13, offset: 90788},
+																												pos: position{line: 2875, col: 13, offset: 90859},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2872, col: 13, offset: 90788},
+																														pos:        position{line: 2875, col: 13, offset: 90859},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2872, col: 20, offset: 90795},
+																														pos:        position{line: 2875, col: 20, offset: 90866},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2872, col: 29, offset: 90804},
+																														pos:        position{line: 2875, col: 29, offset: 90875},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27687,9 +27691,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2882, col: 8, offset: 90964},
+																											pos: position{line: 2885, col: 8, offset: 91035},
 																											expr: &anyMatcher{
-																												line: 2882, col: 9, offset: 90965,
+																												line: 2885, col: 9, offset: 91036,
 																											},
 																										},
 																									},
@@ -27738,12 +27742,12 @@ var g = &grammar{
 													pos:   position{line: 2473, col: 49, offset: 79621},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2809, col: 13, offset: 89142},
+														pos: position{line: 2812, col: 13, offset: 89213},
 														run: (*parser).callonExtraListElement493,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2809, col: 13, offset: 89142},
+															pos: position{line: 2812, col: 13, offset: 89213},
 															expr: &charClassMatcher{
-																pos:        position{line: 2809, col: 13, offset: 89142},
+																pos:        position{line: 2812, col: 13, offset: 89213},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -27753,28 +27757,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2885, col: 8, offset: 91014},
+													pos: position{line: 2888, col: 8, offset: 91085},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2872, col: 12, offset: 90787},
+															pos: position{line: 2875, col: 12, offset: 90858},
 															run: (*parser).callonExtraListElement497,
 															expr: &choiceExpr{
-																pos: position{line: 2872, col: 13, offset: 90788},
+																pos: position{line: 2875, col: 13, offset: 90859},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2872, col: 13, offset: 90788},
+																		pos:        position{line: 2875, col: 13, offset: 90859},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2872, col: 20, offset: 90795},
+																		pos:        position{line: 2875, col: 20, offset: 90866},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2872, col: 29, offset: 90804},
+																		pos:        position{line: 2875, col: 29, offset: 90875},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -27783,9 +27787,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2882, col: 8, offset: 90964},
+															pos: position{line: 2885, col: 8, offset: 91035},
 															expr: &anyMatcher{
-																line: 2882, col: 9, offset: 90965,
+																line: 2885, col: 9, offset: 91036,
 															},
 														},
 													},
@@ -27808,18 +27812,18 @@ var g = &grammar{
 															pos: position{line: 677, col: 14, offset: 21557},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2880, col: 11, offset: 90950},
+																	pos: position{line: 2883, col: 11, offset: 91021},
 																	expr: &anyMatcher{
-																		line: 2880, col: 13, offset: 90952,
+																		line: 2883, col: 13, offset: 91023,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 677, col: 21, offset: 21564},
 																	expr: &actionExpr{
-																		pos: position{line: 2863, col: 10, offset: 90616},
+																		pos: position{line: 2866, col: 10, offset: 90687},
 																		run: (*parser).callonExtraListElement512,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2863, col: 10, offset: 90616},
+																			pos:        position{line: 2866, col: 10, offset: 90687},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27828,28 +27832,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2885, col: 8, offset: 91014},
+																	pos: position{line: 2888, col: 8, offset: 91085},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2872, col: 12, offset: 90787},
+																			pos: position{line: 2875, col: 12, offset: 90858},
 																			run: (*parser).callonExtraListElement515,
 																			expr: &choiceExpr{
-																				pos: position{line: 2872, col: 13, offset: 90788},
+																				pos: position{line: 2875, col: 13, offset: 90859},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 13, offset: 90788},
+																						pos:        position{line: 2875, col: 13, offset: 90859},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 20, offset: 90795},
+																						pos:        position{line: 2875, col: 20, offset: 90866},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 29, offset: 90804},
+																						pos:        position{line: 2875, col: 29, offset: 90875},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -27858,9 +27862,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2882, col: 8, offset: 90964},
+																			pos: position{line: 2885, col: 8, offset: 91035},
 																			expr: &anyMatcher{
-																				line: 2882, col: 9, offset: 90965,
+																				line: 2885, col: 9, offset: 91036,
 																			},
 																		},
 																	},
@@ -27883,10 +27887,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1536, col: 31, offset: 49781},
 																expr: &actionExpr{
-																	pos: position{line: 2863, col: 10, offset: 90616},
+																	pos: position{line: 2866, col: 10, offset: 90687},
 																	run: (*parser).callonExtraListElement526,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2863, col: 10, offset: 90616},
+																		pos:        position{line: 2866, col: 10, offset: 90687},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -27895,25 +27899,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2872, col: 12, offset: 90787},
+																pos: position{line: 2875, col: 12, offset: 90858},
 																run: (*parser).callonExtraListElement528,
 																expr: &choiceExpr{
-																	pos: position{line: 2872, col: 13, offset: 90788},
+																	pos: position{line: 2875, col: 13, offset: 90859},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2872, col: 13, offset: 90788},
+																			pos:        position{line: 2875, col: 13, offset: 90859},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2872, col: 20, offset: 90795},
+																			pos:        position{line: 2875, col: 20, offset: 90866},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2872, col: 29, offset: 90804},
+																			pos:        position{line: 2875, col: 29, offset: 90875},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -27935,10 +27939,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1577, col: 5, offset: 50996},
 																	expr: &actionExpr{
-																		pos: position{line: 2863, col: 10, offset: 90616},
+																		pos: position{line: 2866, col: 10, offset: 90687},
 																		run: (*parser).callonExtraListElement537,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2863, col: 10, offset: 90616},
+																			pos:        position{line: 2866, col: 10, offset: 90687},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28105,12 +28109,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2867, col: 11, offset: 90677},
+																	pos: position{line: 2870, col: 11, offset: 90748},
 																	run: (*parser).callonExtraListElement571,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2867, col: 11, offset: 90677},
+																		pos: position{line: 2870, col: 11, offset: 90748},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2867, col: 11, offset: 90677},
+																			pos:        position{line: 2870, col: 11, offset: 90748},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28133,10 +28137,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1627, col: 5, offset: 52958},
 																	expr: &actionExpr{
-																		pos: position{line: 2863, col: 10, offset: 90616},
+																		pos: position{line: 2866, col: 10, offset: 90687},
 																		run: (*parser).callonExtraListElement578,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2863, col: 10, offset: 90616},
+																			pos:        position{line: 2866, col: 10, offset: 90687},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28177,12 +28181,12 @@ var g = &grammar{
 																	run: (*parser).callonExtraListElement586,
 																},
 																&actionExpr{
-																	pos: position{line: 2867, col: 11, offset: 90677},
+																	pos: position{line: 2870, col: 11, offset: 90748},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2867, col: 11, offset: 90677},
+																		pos: position{line: 2870, col: 11, offset: 90748},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2867, col: 11, offset: 90677},
+																			pos:        position{line: 2870, col: 11, offset: 90748},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28233,12 +28237,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2867, col: 11, offset: 90677},
+																	pos: position{line: 2870, col: 11, offset: 90748},
 																	run: (*parser).callonExtraListElement599,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2867, col: 11, offset: 90677},
+																		pos: position{line: 2870, col: 11, offset: 90748},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2867, col: 11, offset: 90677},
+																			pos:        position{line: 2870, col: 11, offset: 90748},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28325,28 +28329,28 @@ var g = &grammar{
 																					&notExpr{
 																						pos: position{line: 1663, col: 35, offset: 54039},
 																						expr: &choiceExpr{
-																							pos: position{line: 2885, col: 8, offset: 91014},
+																							pos: position{line: 2888, col: 8, offset: 91085},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2872, col: 12, offset: 90787},
+																									pos: position{line: 2875, col: 12, offset: 90858},
 																									run: (*parser).callonExtraListElement623,
 																									expr: &choiceExpr{
-																										pos: position{line: 2872, col: 13, offset: 90788},
+																										pos: position{line: 2875, col: 13, offset: 90859},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 13, offset: 90788},
+																												pos:        position{line: 2875, col: 13, offset: 90859},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 20, offset: 90795},
+																												pos:        position{line: 2875, col: 20, offset: 90866},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 29, offset: 90804},
+																												pos:        position{line: 2875, col: 29, offset: 90875},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28355,9 +28359,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2882, col: 8, offset: 90964},
+																									pos: position{line: 2885, col: 8, offset: 91035},
 																									expr: &anyMatcher{
-																										line: 2882, col: 9, offset: 90965,
+																										line: 2885, col: 9, offset: 91036,
 																									},
 																								},
 																							},
@@ -28416,7 +28420,7 @@ var g = &grammar{
 																&notExpr{
 																	pos: position{line: 724, col: 5, offset: 23110},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2753, col: 13, offset: 87711},
+																		pos:        position{line: 2756, col: 13, offset: 87782},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -28466,10 +28470,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 742, col: 8, offset: 23754},
 																							expr: &actionExpr{
-																								pos: position{line: 2863, col: 10, offset: 90616},
+																								pos: position{line: 2866, col: 10, offset: 90687},
 																								run: (*parser).callonExtraListElement654,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2863, col: 10, offset: 90616},
+																									pos:        position{line: 2866, col: 10, offset: 90687},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28478,28 +28482,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2885, col: 8, offset: 91014},
+																							pos: position{line: 2888, col: 8, offset: 91085},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2872, col: 12, offset: 90787},
+																									pos: position{line: 2875, col: 12, offset: 90858},
 																									run: (*parser).callonExtraListElement657,
 																									expr: &choiceExpr{
-																										pos: position{line: 2872, col: 13, offset: 90788},
+																										pos: position{line: 2875, col: 13, offset: 90859},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 13, offset: 90788},
+																												pos:        position{line: 2875, col: 13, offset: 90859},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 20, offset: 90795},
+																												pos:        position{line: 2875, col: 20, offset: 90866},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 29, offset: 90804},
+																												pos:        position{line: 2875, col: 29, offset: 90875},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28508,9 +28512,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2882, col: 8, offset: 90964},
+																									pos: position{line: 2885, col: 8, offset: 91035},
 																									expr: &anyMatcher{
-																										line: 2882, col: 9, offset: 90965,
+																										line: 2885, col: 9, offset: 91036,
 																									},
 																								},
 																							},
@@ -28555,10 +28559,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 749, col: 8, offset: 24002},
 																							expr: &actionExpr{
-																								pos: position{line: 2863, col: 10, offset: 90616},
+																								pos: position{line: 2866, col: 10, offset: 90687},
 																								run: (*parser).callonExtraListElement673,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2863, col: 10, offset: 90616},
+																									pos:        position{line: 2866, col: 10, offset: 90687},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28567,28 +28571,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2885, col: 8, offset: 91014},
+																							pos: position{line: 2888, col: 8, offset: 91085},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2872, col: 12, offset: 90787},
+																									pos: position{line: 2875, col: 12, offset: 90858},
 																									run: (*parser).callonExtraListElement676,
 																									expr: &choiceExpr{
-																										pos: position{line: 2872, col: 13, offset: 90788},
+																										pos: position{line: 2875, col: 13, offset: 90859},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 13, offset: 90788},
+																												pos:        position{line: 2875, col: 13, offset: 90859},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 20, offset: 90795},
+																												pos:        position{line: 2875, col: 20, offset: 90866},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 29, offset: 90804},
+																												pos:        position{line: 2875, col: 29, offset: 90875},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28597,9 +28601,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2882, col: 8, offset: 90964},
+																									pos: position{line: 2885, col: 8, offset: 91035},
 																									expr: &anyMatcher{
-																										line: 2882, col: 9, offset: 90965,
+																										line: 2885, col: 9, offset: 91036,
 																									},
 																								},
 																							},
@@ -28640,10 +28644,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 760, col: 52, offset: 24414},
 																							expr: &actionExpr{
-																								pos: position{line: 2863, col: 10, offset: 90616},
+																								pos: position{line: 2866, col: 10, offset: 90687},
 																								run: (*parser).callonExtraListElement691,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2863, col: 10, offset: 90616},
+																									pos:        position{line: 2866, col: 10, offset: 90687},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28652,28 +28656,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2885, col: 8, offset: 91014},
+																							pos: position{line: 2888, col: 8, offset: 91085},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2872, col: 12, offset: 90787},
+																									pos: position{line: 2875, col: 12, offset: 90858},
 																									run: (*parser).callonExtraListElement694,
 																									expr: &choiceExpr{
-																										pos: position{line: 2872, col: 13, offset: 90788},
+																										pos: position{line: 2875, col: 13, offset: 90859},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 13, offset: 90788},
+																												pos:        position{line: 2875, col: 13, offset: 90859},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 20, offset: 90795},
+																												pos:        position{line: 2875, col: 20, offset: 90866},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 29, offset: 90804},
+																												pos:        position{line: 2875, col: 29, offset: 90875},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28682,9 +28686,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2882, col: 8, offset: 90964},
+																									pos: position{line: 2885, col: 8, offset: 91035},
 																									expr: &anyMatcher{
-																										line: 2882, col: 9, offset: 90965,
+																										line: 2885, col: 9, offset: 91036,
 																									},
 																								},
 																							},
@@ -28729,10 +28733,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 756, col: 8, offset: 24248},
 																							expr: &actionExpr{
-																								pos: position{line: 2863, col: 10, offset: 90616},
+																								pos: position{line: 2866, col: 10, offset: 90687},
 																								run: (*parser).callonExtraListElement710,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2863, col: 10, offset: 90616},
+																									pos:        position{line: 2866, col: 10, offset: 90687},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28741,28 +28745,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2885, col: 8, offset: 91014},
+																							pos: position{line: 2888, col: 8, offset: 91085},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2872, col: 12, offset: 90787},
+																									pos: position{line: 2875, col: 12, offset: 90858},
 																									run: (*parser).callonExtraListElement713,
 																									expr: &choiceExpr{
-																										pos: position{line: 2872, col: 13, offset: 90788},
+																										pos: position{line: 2875, col: 13, offset: 90859},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 13, offset: 90788},
+																												pos:        position{line: 2875, col: 13, offset: 90859},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 20, offset: 90795},
+																												pos:        position{line: 2875, col: 20, offset: 90866},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 29, offset: 90804},
+																												pos:        position{line: 2875, col: 29, offset: 90875},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28771,9 +28775,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2882, col: 8, offset: 90964},
+																									pos: position{line: 2885, col: 8, offset: 91035},
 																									expr: &anyMatcher{
-																										line: 2882, col: 9, offset: 90965,
+																										line: 2885, col: 9, offset: 91036,
 																									},
 																								},
 																							},
@@ -28818,10 +28822,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 771, col: 8, offset: 24791},
 																							expr: &actionExpr{
-																								pos: position{line: 2863, col: 10, offset: 90616},
+																								pos: position{line: 2866, col: 10, offset: 90687},
 																								run: (*parser).callonExtraListElement729,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2863, col: 10, offset: 90616},
+																									pos:        position{line: 2866, col: 10, offset: 90687},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28830,28 +28834,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2885, col: 8, offset: 91014},
+																							pos: position{line: 2888, col: 8, offset: 91085},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2872, col: 12, offset: 90787},
+																									pos: position{line: 2875, col: 12, offset: 90858},
 																									run: (*parser).callonExtraListElement732,
 																									expr: &choiceExpr{
-																										pos: position{line: 2872, col: 13, offset: 90788},
+																										pos: position{line: 2875, col: 13, offset: 90859},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 13, offset: 90788},
+																												pos:        position{line: 2875, col: 13, offset: 90859},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 20, offset: 90795},
+																												pos:        position{line: 2875, col: 20, offset: 90866},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 29, offset: 90804},
+																												pos:        position{line: 2875, col: 29, offset: 90875},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28860,9 +28864,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2882, col: 8, offset: 90964},
+																									pos: position{line: 2885, col: 8, offset: 91035},
 																									expr: &anyMatcher{
-																										line: 2882, col: 9, offset: 90965,
+																										line: 2885, col: 9, offset: 91036,
 																									},
 																								},
 																							},
@@ -28907,10 +28911,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 785, col: 8, offset: 25267},
 																							expr: &actionExpr{
-																								pos: position{line: 2863, col: 10, offset: 90616},
+																								pos: position{line: 2866, col: 10, offset: 90687},
 																								run: (*parser).callonExtraListElement748,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2863, col: 10, offset: 90616},
+																									pos:        position{line: 2866, col: 10, offset: 90687},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28919,28 +28923,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2885, col: 8, offset: 91014},
+																							pos: position{line: 2888, col: 8, offset: 91085},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2872, col: 12, offset: 90787},
+																									pos: position{line: 2875, col: 12, offset: 90858},
 																									run: (*parser).callonExtraListElement751,
 																									expr: &choiceExpr{
-																										pos: position{line: 2872, col: 13, offset: 90788},
+																										pos: position{line: 2875, col: 13, offset: 90859},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 13, offset: 90788},
+																												pos:        position{line: 2875, col: 13, offset: 90859},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 20, offset: 90795},
+																												pos:        position{line: 2875, col: 20, offset: 90866},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 29, offset: 90804},
+																												pos:        position{line: 2875, col: 29, offset: 90875},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28949,9 +28953,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2882, col: 8, offset: 90964},
+																									pos: position{line: 2885, col: 8, offset: 91035},
 																									expr: &anyMatcher{
-																										line: 2882, col: 9, offset: 90965,
+																										line: 2885, col: 9, offset: 91036,
 																									},
 																								},
 																							},
@@ -28996,10 +29000,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 792, col: 8, offset: 25519},
 																							expr: &actionExpr{
-																								pos: position{line: 2863, col: 10, offset: 90616},
+																								pos: position{line: 2866, col: 10, offset: 90687},
 																								run: (*parser).callonExtraListElement767,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2863, col: 10, offset: 90616},
+																									pos:        position{line: 2866, col: 10, offset: 90687},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29008,28 +29012,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2885, col: 8, offset: 91014},
+																							pos: position{line: 2888, col: 8, offset: 91085},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2872, col: 12, offset: 90787},
+																									pos: position{line: 2875, col: 12, offset: 90858},
 																									run: (*parser).callonExtraListElement770,
 																									expr: &choiceExpr{
-																										pos: position{line: 2872, col: 13, offset: 90788},
+																										pos: position{line: 2875, col: 13, offset: 90859},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 13, offset: 90788},
+																												pos:        position{line: 2875, col: 13, offset: 90859},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 20, offset: 90795},
+																												pos:        position{line: 2875, col: 20, offset: 90866},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 29, offset: 90804},
+																												pos:        position{line: 2875, col: 29, offset: 90875},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29038,9 +29042,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2882, col: 8, offset: 90964},
+																									pos: position{line: 2885, col: 8, offset: 91035},
 																									expr: &anyMatcher{
-																										line: 2882, col: 9, offset: 90965,
+																										line: 2885, col: 9, offset: 91036,
 																									},
 																								},
 																							},
@@ -29085,10 +29089,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 799, col: 8, offset: 25769},
 																							expr: &actionExpr{
-																								pos: position{line: 2863, col: 10, offset: 90616},
+																								pos: position{line: 2866, col: 10, offset: 90687},
 																								run: (*parser).callonExtraListElement786,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2863, col: 10, offset: 90616},
+																									pos:        position{line: 2866, col: 10, offset: 90687},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29097,28 +29101,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2885, col: 8, offset: 91014},
+																							pos: position{line: 2888, col: 8, offset: 91085},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2872, col: 12, offset: 90787},
+																									pos: position{line: 2875, col: 12, offset: 90858},
 																									run: (*parser).callonExtraListElement789,
 																									expr: &choiceExpr{
-																										pos: position{line: 2872, col: 13, offset: 90788},
+																										pos: position{line: 2875, col: 13, offset: 90859},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 13, offset: 90788},
+																												pos:        position{line: 2875, col: 13, offset: 90859},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 20, offset: 90795},
+																												pos:        position{line: 2875, col: 20, offset: 90866},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 29, offset: 90804},
+																												pos:        position{line: 2875, col: 29, offset: 90875},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29127,9 +29131,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2882, col: 8, offset: 90964},
+																									pos: position{line: 2885, col: 8, offset: 91035},
 																									expr: &anyMatcher{
-																										line: 2882, col: 9, offset: 90965,
+																										line: 2885, col: 9, offset: 91036,
 																									},
 																								},
 																							},
@@ -29174,10 +29178,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 806, col: 8, offset: 26015},
 																							expr: &actionExpr{
-																								pos: position{line: 2863, col: 10, offset: 90616},
+																								pos: position{line: 2866, col: 10, offset: 90687},
 																								run: (*parser).callonExtraListElement805,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2863, col: 10, offset: 90616},
+																									pos:        position{line: 2866, col: 10, offset: 90687},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29186,28 +29190,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2885, col: 8, offset: 91014},
+																							pos: position{line: 2888, col: 8, offset: 91085},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2872, col: 12, offset: 90787},
+																									pos: position{line: 2875, col: 12, offset: 90858},
 																									run: (*parser).callonExtraListElement808,
 																									expr: &choiceExpr{
-																										pos: position{line: 2872, col: 13, offset: 90788},
+																										pos: position{line: 2875, col: 13, offset: 90859},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 13, offset: 90788},
+																												pos:        position{line: 2875, col: 13, offset: 90859},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 20, offset: 90795},
+																												pos:        position{line: 2875, col: 20, offset: 90866},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 29, offset: 90804},
+																												pos:        position{line: 2875, col: 29, offset: 90875},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29216,9 +29220,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2882, col: 8, offset: 90964},
+																									pos: position{line: 2885, col: 8, offset: 91035},
 																									expr: &anyMatcher{
-																										line: 2882, col: 9, offset: 90965,
+																										line: 2885, col: 9, offset: 91036,
 																									},
 																								},
 																							},
@@ -29237,12 +29241,12 @@ var g = &grammar{
 													pos:   position{line: 1512, col: 5, offset: 49149},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2813, col: 14, offset: 89209},
+														pos: position{line: 2816, col: 14, offset: 89280},
 														run: (*parser).callonExtraListElement816,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2813, col: 14, offset: 89209},
+															pos: position{line: 2816, col: 14, offset: 89280},
 															expr: &charClassMatcher{
-																pos:        position{line: 2813, col: 14, offset: 89209},
+																pos:        position{line: 2816, col: 14, offset: 89280},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -29252,28 +29256,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2885, col: 8, offset: 91014},
+													pos: position{line: 2888, col: 8, offset: 91085},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2872, col: 12, offset: 90787},
+															pos: position{line: 2875, col: 12, offset: 90858},
 															run: (*parser).callonExtraListElement820,
 															expr: &choiceExpr{
-																pos: position{line: 2872, col: 13, offset: 90788},
+																pos: position{line: 2875, col: 13, offset: 90859},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2872, col: 13, offset: 90788},
+																		pos:        position{line: 2875, col: 13, offset: 90859},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2872, col: 20, offset: 90795},
+																		pos:        position{line: 2875, col: 20, offset: 90866},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2872, col: 29, offset: 90804},
+																		pos:        position{line: 2875, col: 29, offset: 90875},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -29282,9 +29286,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2882, col: 8, offset: 90964},
+															pos: position{line: 2885, col: 8, offset: 91035},
 															expr: &anyMatcher{
-																line: 2882, col: 9, offset: 90965,
+																line: 2885, col: 9, offset: 91036,
 															},
 														},
 													},
@@ -29319,10 +29323,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 1529, col: 13, offset: 49573},
 											expr: &actionExpr{
-												pos: position{line: 2863, col: 10, offset: 90616},
+												pos: position{line: 2866, col: 10, offset: 90687},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2863, col: 10, offset: 90616},
+													pos:        position{line: 2866, col: 10, offset: 90687},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -29331,25 +29335,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2872, col: 12, offset: 90787},
+											pos: position{line: 2875, col: 12, offset: 90858},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2872, col: 13, offset: 90788},
+												pos: position{line: 2875, col: 13, offset: 90859},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2872, col: 13, offset: 90788},
+														pos:        position{line: 2875, col: 13, offset: 90859},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2872, col: 20, offset: 90795},
+														pos:        position{line: 2875, col: 20, offset: 90866},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2872, col: 29, offset: 90804},
+														pos:        position{line: 2875, col: 29, offset: 90875},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -29370,10 +29374,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1536, col: 31, offset: 49781},
 							expr: &actionExpr{
-								pos: position{line: 2863, col: 10, offset: 90616},
+								pos: position{line: 2866, col: 10, offset: 90687},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2863, col: 10, offset: 90616},
+									pos:        position{line: 2866, col: 10, offset: 90687},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -29382,25 +29386,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2872, col: 12, offset: 90787},
+							pos: position{line: 2875, col: 12, offset: 90858},
 							run: (*parser).callonListContinuation18,
 							expr: &choiceExpr{
-								pos: position{line: 2872, col: 13, offset: 90788},
+								pos: position{line: 2875, col: 13, offset: 90859},
 								alternatives: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2872, col: 13, offset: 90788},
+										pos:        position{line: 2875, col: 13, offset: 90859},
 										val:        "\n",
 										ignoreCase: false,
 										want:       "\"\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2872, col: 20, offset: 90795},
+										pos:        position{line: 2875, col: 20, offset: 90866},
 										val:        "\r\n",
 										ignoreCase: false,
 										want:       "\"\\r\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2872, col: 29, offset: 90804},
+										pos:        position{line: 2875, col: 29, offset: 90875},
 										val:        "\r",
 										ignoreCase: false,
 										want:       "\"\\r\"",
@@ -29433,9 +29437,9 @@ var g = &grammar{
 					pos: position{line: 1539, col: 5, offset: 49868},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2880, col: 11, offset: 90950},
+							pos: position{line: 2883, col: 11, offset: 91021},
 							expr: &anyMatcher{
-								line: 2880, col: 13, offset: 90952,
+								line: 2883, col: 13, offset: 91023,
 							},
 						},
 						&notExpr{
@@ -29461,10 +29465,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1577, col: 5, offset: 50996},
 																	expr: &actionExpr{
-																		pos: position{line: 2863, col: 10, offset: 90616},
+																		pos: position{line: 2866, col: 10, offset: 90687},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2863, col: 10, offset: 90616},
+																			pos:        position{line: 2866, col: 10, offset: 90687},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29631,12 +29635,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2867, col: 11, offset: 90677},
+																	pos: position{line: 2870, col: 11, offset: 90748},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2867, col: 11, offset: 90677},
+																		pos: position{line: 2870, col: 11, offset: 90748},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2867, col: 11, offset: 90677},
+																			pos:        position{line: 2870, col: 11, offset: 90748},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29679,28 +29683,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2885, col: 8, offset: 91014},
+																	pos: position{line: 2888, col: 8, offset: 91085},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2872, col: 12, offset: 90787},
+																			pos: position{line: 2875, col: 12, offset: 90858},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2872, col: 13, offset: 90788},
+																				pos: position{line: 2875, col: 13, offset: 90859},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 13, offset: 90788},
+																						pos:        position{line: 2875, col: 13, offset: 90859},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 20, offset: 90795},
+																						pos:        position{line: 2875, col: 20, offset: 90866},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 29, offset: 90804},
+																						pos:        position{line: 2875, col: 29, offset: 90875},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29709,9 +29713,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2882, col: 8, offset: 90964},
+																			pos: position{line: 2885, col: 8, offset: 91035},
 																			expr: &anyMatcher{
-																				line: 2882, col: 9, offset: 90965,
+																				line: 2885, col: 9, offset: 91036,
 																			},
 																		},
 																	},
@@ -29741,10 +29745,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1627, col: 5, offset: 52958},
 																	expr: &actionExpr{
-																		pos: position{line: 2863, col: 10, offset: 90616},
+																		pos: position{line: 2866, col: 10, offset: 90687},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2863, col: 10, offset: 90616},
+																			pos:        position{line: 2866, col: 10, offset: 90687},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29785,12 +29789,12 @@ var g = &grammar{
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2867, col: 11, offset: 90677},
+																	pos: position{line: 2870, col: 11, offset: 90748},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2867, col: 11, offset: 90677},
+																		pos: position{line: 2870, col: 11, offset: 90748},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2867, col: 11, offset: 90677},
+																			pos:        position{line: 2870, col: 11, offset: 90748},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29862,12 +29866,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2867, col: 11, offset: 90677},
+																		pos: position{line: 2870, col: 11, offset: 90748},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2867, col: 11, offset: 90677},
+																			pos: position{line: 2870, col: 11, offset: 90748},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2867, col: 11, offset: 90677},
+																				pos:        position{line: 2870, col: 11, offset: 90748},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -29911,28 +29915,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2885, col: 8, offset: 91014},
+																	pos: position{line: 2888, col: 8, offset: 91085},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2872, col: 12, offset: 90787},
+																			pos: position{line: 2875, col: 12, offset: 90858},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2872, col: 13, offset: 90788},
+																				pos: position{line: 2875, col: 13, offset: 90859},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 13, offset: 90788},
+																						pos:        position{line: 2875, col: 13, offset: 90859},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 20, offset: 90795},
+																						pos:        position{line: 2875, col: 20, offset: 90866},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 29, offset: 90804},
+																						pos:        position{line: 2875, col: 29, offset: 90875},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29941,9 +29945,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2882, col: 8, offset: 90964},
+																			pos: position{line: 2885, col: 8, offset: 91035},
 																			expr: &anyMatcher{
-																				line: 2882, col: 9, offset: 90965,
+																				line: 2885, col: 9, offset: 91036,
 																			},
 																		},
 																	},
@@ -30001,12 +30005,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2867, col: 11, offset: 90677},
+																	pos: position{line: 2870, col: 11, offset: 90748},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2867, col: 11, offset: 90677},
+																		pos: position{line: 2870, col: 11, offset: 90748},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2867, col: 11, offset: 90677},
+																			pos:        position{line: 2870, col: 11, offset: 90748},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30049,28 +30053,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2885, col: 8, offset: 91014},
+																	pos: position{line: 2888, col: 8, offset: 91085},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2872, col: 12, offset: 90787},
+																			pos: position{line: 2875, col: 12, offset: 90858},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2872, col: 13, offset: 90788},
+																				pos: position{line: 2875, col: 13, offset: 90859},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 13, offset: 90788},
+																						pos:        position{line: 2875, col: 13, offset: 90859},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 20, offset: 90795},
+																						pos:        position{line: 2875, col: 20, offset: 90866},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 29, offset: 90804},
+																						pos:        position{line: 2875, col: 29, offset: 90875},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30079,9 +30083,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2882, col: 8, offset: 90964},
+																			pos: position{line: 2885, col: 8, offset: 91035},
 																			expr: &anyMatcher{
-																				line: 2882, col: 9, offset: 90965,
+																				line: 2885, col: 9, offset: 91036,
 																			},
 																		},
 																	},
@@ -30172,28 +30176,28 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1663, col: 35, offset: 54039},
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 8, offset: 91014},
+																					pos: position{line: 2888, col: 8, offset: 91085},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2872, col: 12, offset: 90787},
+																							pos: position{line: 2875, col: 12, offset: 90858},
 																							run: (*parser).callonListContinuationElement169,
 																							expr: &choiceExpr{
-																								pos: position{line: 2872, col: 13, offset: 90788},
+																								pos: position{line: 2875, col: 13, offset: 90859},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2872, col: 13, offset: 90788},
+																										pos:        position{line: 2875, col: 13, offset: 90859},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2872, col: 20, offset: 90795},
+																										pos:        position{line: 2875, col: 20, offset: 90866},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2872, col: 29, offset: 90804},
+																										pos:        position{line: 2875, col: 29, offset: 90875},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -30202,9 +30206,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2882, col: 8, offset: 90964},
+																							pos: position{line: 2885, col: 8, offset: 91035},
 																							expr: &anyMatcher{
-																								line: 2882, col: 9, offset: 90965,
+																								line: 2885, col: 9, offset: 91036,
 																							},
 																						},
 																					},
@@ -30269,10 +30273,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 1681, col: 9, offset: 54544},
 																			expr: &actionExpr{
-																				pos: position{line: 2863, col: 10, offset: 90616},
+																				pos: position{line: 2866, col: 10, offset: 90687},
 																				run: (*parser).callonListContinuationElement190,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2863, col: 10, offset: 90616},
+																					pos:        position{line: 2866, col: 10, offset: 90687},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30281,28 +30285,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2885, col: 8, offset: 91014},
+																			pos: position{line: 2888, col: 8, offset: 91085},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2872, col: 12, offset: 90787},
+																					pos: position{line: 2875, col: 12, offset: 90858},
 																					run: (*parser).callonListContinuationElement193,
 																					expr: &choiceExpr{
-																						pos: position{line: 2872, col: 13, offset: 90788},
+																						pos: position{line: 2875, col: 13, offset: 90859},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2872, col: 13, offset: 90788},
+																								pos:        position{line: 2875, col: 13, offset: 90859},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2872, col: 20, offset: 90795},
+																								pos:        position{line: 2875, col: 20, offset: 90866},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2872, col: 29, offset: 90804},
+																								pos:        position{line: 2875, col: 29, offset: 90875},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30311,9 +30315,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2882, col: 8, offset: 90964},
+																					pos: position{line: 2885, col: 8, offset: 91035},
 																					expr: &anyMatcher{
-																						line: 2882, col: 9, offset: 90965,
+																						line: 2885, col: 9, offset: 91036,
 																					},
 																				},
 																			},
@@ -30327,18 +30331,18 @@ var g = &grammar{
 																					pos: position{line: 677, col: 14, offset: 21557},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2880, col: 11, offset: 90950},
+																							pos: position{line: 2883, col: 11, offset: 91021},
 																							expr: &anyMatcher{
-																								line: 2880, col: 13, offset: 90952,
+																								line: 2883, col: 13, offset: 91023,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 677, col: 21, offset: 21564},
 																							expr: &actionExpr{
-																								pos: position{line: 2863, col: 10, offset: 90616},
+																								pos: position{line: 2866, col: 10, offset: 90687},
 																								run: (*parser).callonListContinuationElement206,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2863, col: 10, offset: 90616},
+																									pos:        position{line: 2866, col: 10, offset: 90687},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30347,28 +30351,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2885, col: 8, offset: 91014},
+																							pos: position{line: 2888, col: 8, offset: 91085},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2872, col: 12, offset: 90787},
+																									pos: position{line: 2875, col: 12, offset: 90858},
 																									run: (*parser).callonListContinuationElement209,
 																									expr: &choiceExpr{
-																										pos: position{line: 2872, col: 13, offset: 90788},
+																										pos: position{line: 2875, col: 13, offset: 90859},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 13, offset: 90788},
+																												pos:        position{line: 2875, col: 13, offset: 90859},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 20, offset: 90795},
+																												pos:        position{line: 2875, col: 20, offset: 90866},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 29, offset: 90804},
+																												pos:        position{line: 2875, col: 29, offset: 90875},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30377,9 +30381,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2882, col: 8, offset: 90964},
+																									pos: position{line: 2885, col: 8, offset: 91035},
 																									expr: &anyMatcher{
-																										line: 2882, col: 9, offset: 90965,
+																										line: 2885, col: 9, offset: 91036,
 																									},
 																								},
 																							},
@@ -30398,12 +30402,12 @@ var g = &grammar{
 																	pos: position{line: 1688, col: 9, offset: 54692},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2867, col: 11, offset: 90677},
+																			pos: position{line: 2870, col: 11, offset: 90748},
 																			run: (*parser).callonListContinuationElement218,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2867, col: 11, offset: 90677},
+																				pos: position{line: 2870, col: 11, offset: 90748},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2867, col: 11, offset: 90677},
+																					pos:        position{line: 2870, col: 11, offset: 90748},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30430,28 +30434,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2885, col: 8, offset: 91014},
+																			pos: position{line: 2888, col: 8, offset: 91085},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2872, col: 12, offset: 90787},
+																					pos: position{line: 2875, col: 12, offset: 90858},
 																					run: (*parser).callonListContinuationElement226,
 																					expr: &choiceExpr{
-																						pos: position{line: 2872, col: 13, offset: 90788},
+																						pos: position{line: 2875, col: 13, offset: 90859},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2872, col: 13, offset: 90788},
+																								pos:        position{line: 2875, col: 13, offset: 90859},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2872, col: 20, offset: 90795},
+																								pos:        position{line: 2875, col: 20, offset: 90866},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2872, col: 29, offset: 90804},
+																								pos:        position{line: 2875, col: 29, offset: 90875},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30460,9 +30464,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2882, col: 8, offset: 90964},
+																					pos: position{line: 2885, col: 8, offset: 91035},
 																					expr: &anyMatcher{
-																						line: 2882, col: 9, offset: 90965,
+																						line: 2885, col: 9, offset: 91036,
 																					},
 																				},
 																			},
@@ -30503,18 +30507,18 @@ var g = &grammar{
 											pos: position{line: 677, col: 14, offset: 21557},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2880, col: 11, offset: 90950},
+													pos: position{line: 2883, col: 11, offset: 91021},
 													expr: &anyMatcher{
-														line: 2880, col: 13, offset: 90952,
+														line: 2883, col: 13, offset: 91023,
 													},
 												},
 												&zeroOrMoreExpr{
 													pos: position{line: 677, col: 21, offset: 21564},
 													expr: &actionExpr{
-														pos: position{line: 2863, col: 10, offset: 90616},
+														pos: position{line: 2866, col: 10, offset: 90687},
 														run: (*parser).callonListContinuationElement243,
 														expr: &charClassMatcher{
-															pos:        position{line: 2863, col: 10, offset: 90616},
+															pos:        position{line: 2866, col: 10, offset: 90687},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30523,28 +30527,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2885, col: 8, offset: 91014},
+													pos: position{line: 2888, col: 8, offset: 91085},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2872, col: 12, offset: 90787},
+															pos: position{line: 2875, col: 12, offset: 90858},
 															run: (*parser).callonListContinuationElement246,
 															expr: &choiceExpr{
-																pos: position{line: 2872, col: 13, offset: 90788},
+																pos: position{line: 2875, col: 13, offset: 90859},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2872, col: 13, offset: 90788},
+																		pos:        position{line: 2875, col: 13, offset: 90859},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2872, col: 20, offset: 90795},
+																		pos:        position{line: 2875, col: 20, offset: 90866},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2872, col: 29, offset: 90804},
+																		pos:        position{line: 2875, col: 29, offset: 90875},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30553,9 +30557,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2882, col: 8, offset: 90964},
+															pos: position{line: 2885, col: 8, offset: 91035},
 															expr: &anyMatcher{
-																line: 2882, col: 9, offset: 90965,
+																line: 2885, col: 9, offset: 91036,
 															},
 														},
 													},
@@ -30620,10 +30624,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 360, col: 49, offset: 10940},
 													expr: &actionExpr{
-														pos: position{line: 2863, col: 10, offset: 90616},
+														pos: position{line: 2866, col: 10, offset: 90687},
 														run: (*parser).callonListContinuationElement265,
 														expr: &charClassMatcher{
-															pos:        position{line: 2863, col: 10, offset: 90616},
+															pos:        position{line: 2866, col: 10, offset: 90687},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30632,28 +30636,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2885, col: 8, offset: 91014},
+													pos: position{line: 2888, col: 8, offset: 91085},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2872, col: 12, offset: 90787},
+															pos: position{line: 2875, col: 12, offset: 90858},
 															run: (*parser).callonListContinuationElement268,
 															expr: &choiceExpr{
-																pos: position{line: 2872, col: 13, offset: 90788},
+																pos: position{line: 2875, col: 13, offset: 90859},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2872, col: 13, offset: 90788},
+																		pos:        position{line: 2875, col: 13, offset: 90859},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2872, col: 20, offset: 90795},
+																		pos:        position{line: 2875, col: 20, offset: 90866},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2872, col: 29, offset: 90804},
+																		pos:        position{line: 2875, col: 29, offset: 90875},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30662,9 +30666,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2882, col: 8, offset: 90964},
+															pos: position{line: 2885, col: 8, offset: 91035},
 															expr: &anyMatcher{
-																line: 2882, col: 9, offset: 90965,
+																line: 2885, col: 9, offset: 91036,
 															},
 														},
 													},
@@ -30725,10 +30729,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 39, offset: 11061},
 													expr: &actionExpr{
-														pos: position{line: 2863, col: 10, offset: 90616},
+														pos: position{line: 2866, col: 10, offset: 90687},
 														run: (*parser).callonListContinuationElement286,
 														expr: &charClassMatcher{
-															pos:        position{line: 2863, col: 10, offset: 90616},
+															pos:        position{line: 2866, col: 10, offset: 90687},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30737,28 +30741,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2885, col: 8, offset: 91014},
+													pos: position{line: 2888, col: 8, offset: 91085},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2872, col: 12, offset: 90787},
+															pos: position{line: 2875, col: 12, offset: 90858},
 															run: (*parser).callonListContinuationElement289,
 															expr: &choiceExpr{
-																pos: position{line: 2872, col: 13, offset: 90788},
+																pos: position{line: 2875, col: 13, offset: 90859},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2872, col: 13, offset: 90788},
+																		pos:        position{line: 2875, col: 13, offset: 90859},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2872, col: 20, offset: 90795},
+																		pos:        position{line: 2875, col: 20, offset: 90866},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2872, col: 29, offset: 90804},
+																		pos:        position{line: 2875, col: 29, offset: 90875},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30767,9 +30771,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2882, col: 8, offset: 90964},
+															pos: position{line: 2885, col: 8, offset: 91035},
 															expr: &anyMatcher{
-																line: 2882, col: 9, offset: 90965,
+																line: 2885, col: 9, offset: 91036,
 															},
 														},
 													},
@@ -30820,10 +30824,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 742, col: 8, offset: 23754},
 																expr: &actionExpr{
-																	pos: position{line: 2863, col: 10, offset: 90616},
+																	pos: position{line: 2866, col: 10, offset: 90687},
 																	run: (*parser).callonListContinuationElement307,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2863, col: 10, offset: 90616},
+																		pos:        position{line: 2866, col: 10, offset: 90687},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -30832,28 +30836,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2885, col: 8, offset: 91014},
+																pos: position{line: 2888, col: 8, offset: 91085},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2872, col: 12, offset: 90787},
+																		pos: position{line: 2875, col: 12, offset: 90858},
 																		run: (*parser).callonListContinuationElement310,
 																		expr: &choiceExpr{
-																			pos: position{line: 2872, col: 13, offset: 90788},
+																			pos: position{line: 2875, col: 13, offset: 90859},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2872, col: 13, offset: 90788},
+																					pos:        position{line: 2875, col: 13, offset: 90859},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2872, col: 20, offset: 90795},
+																					pos:        position{line: 2875, col: 20, offset: 90866},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2872, col: 29, offset: 90804},
+																					pos:        position{line: 2875, col: 29, offset: 90875},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -30862,9 +30866,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2882, col: 8, offset: 90964},
+																		pos: position{line: 2885, col: 8, offset: 91035},
 																		expr: &anyMatcher{
-																			line: 2882, col: 9, offset: 90965,
+																			line: 2885, col: 9, offset: 91036,
 																		},
 																	},
 																},
@@ -30925,10 +30929,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 742, col: 8, offset: 23754},
 																								expr: &actionExpr{
-																									pos: position{line: 2863, col: 10, offset: 90616},
+																									pos: position{line: 2866, col: 10, offset: 90687},
 																									run: (*parser).callonListContinuationElement332,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2863, col: 10, offset: 90616},
+																										pos:        position{line: 2866, col: 10, offset: 90687},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -30937,28 +30941,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2885, col: 8, offset: 91014},
+																								pos: position{line: 2888, col: 8, offset: 91085},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2872, col: 12, offset: 90787},
+																										pos: position{line: 2875, col: 12, offset: 90858},
 																										run: (*parser).callonListContinuationElement335,
 																										expr: &choiceExpr{
-																											pos: position{line: 2872, col: 13, offset: 90788},
+																											pos: position{line: 2875, col: 13, offset: 90859},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2872, col: 13, offset: 90788},
+																													pos:        position{line: 2875, col: 13, offset: 90859},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2872, col: 20, offset: 90795},
+																													pos:        position{line: 2875, col: 20, offset: 90866},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2872, col: 29, offset: 90804},
+																													pos:        position{line: 2875, col: 29, offset: 90875},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -30967,9 +30971,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2882, col: 8, offset: 90964},
+																										pos: position{line: 2885, col: 8, offset: 91035},
 																										expr: &anyMatcher{
-																											line: 2882, col: 9, offset: 90965,
+																											line: 2885, col: 9, offset: 91036,
 																										},
 																									},
 																								},
@@ -30978,9 +30982,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2882, col: 8, offset: 90964},
+																					pos: position{line: 2885, col: 8, offset: 91035},
 																					expr: &anyMatcher{
-																						line: 2882, col: 9, offset: 90965,
+																						line: 2885, col: 9, offset: 91036,
 																					},
 																				},
 																			},
@@ -30996,21 +31000,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26161},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2880, col: 11, offset: 90950},
+																						pos: position{line: 2883, col: 11, offset: 91021},
 																						expr: &anyMatcher{
-																							line: 2880, col: 13, offset: 90952,
+																							line: 2883, col: 13, offset: 91023,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26236},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2809, col: 13, offset: 89142},
+																							pos: position{line: 2812, col: 13, offset: 89213},
 																							run: (*parser).callonListContinuationElement350,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2809, col: 13, offset: 89142},
+																								pos: position{line: 2812, col: 13, offset: 89213},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2809, col: 13, offset: 89142},
+																									pos:        position{line: 2812, col: 13, offset: 89213},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31020,28 +31024,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2885, col: 8, offset: 91014},
+																						pos: position{line: 2888, col: 8, offset: 91085},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2872, col: 12, offset: 90787},
+																								pos: position{line: 2875, col: 12, offset: 90858},
 																								run: (*parser).callonListContinuationElement354,
 																								expr: &choiceExpr{
-																									pos: position{line: 2872, col: 13, offset: 90788},
+																									pos: position{line: 2875, col: 13, offset: 90859},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 13, offset: 90788},
+																											pos:        position{line: 2875, col: 13, offset: 90859},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 20, offset: 90795},
+																											pos:        position{line: 2875, col: 20, offset: 90866},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 29, offset: 90804},
+																											pos:        position{line: 2875, col: 29, offset: 90875},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31050,9 +31054,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2882, col: 8, offset: 90964},
+																								pos: position{line: 2885, col: 8, offset: 91035},
 																								expr: &anyMatcher{
-																									line: 2882, col: 9, offset: 90965,
+																									line: 2885, col: 9, offset: 91036,
 																								},
 																							},
 																						},
@@ -31108,10 +31112,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 742, col: 8, offset: 23754},
 																			expr: &actionExpr{
-																				pos: position{line: 2863, col: 10, offset: 90616},
+																				pos: position{line: 2866, col: 10, offset: 90687},
 																				run: (*parser).callonListContinuationElement372,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2863, col: 10, offset: 90616},
+																					pos:        position{line: 2866, col: 10, offset: 90687},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -31120,28 +31124,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2885, col: 8, offset: 91014},
+																			pos: position{line: 2888, col: 8, offset: 91085},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2872, col: 12, offset: 90787},
+																					pos: position{line: 2875, col: 12, offset: 90858},
 																					run: (*parser).callonListContinuationElement375,
 																					expr: &choiceExpr{
-																						pos: position{line: 2872, col: 13, offset: 90788},
+																						pos: position{line: 2875, col: 13, offset: 90859},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2872, col: 13, offset: 90788},
+																								pos:        position{line: 2875, col: 13, offset: 90859},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2872, col: 20, offset: 90795},
+																								pos:        position{line: 2875, col: 20, offset: 90866},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2872, col: 29, offset: 90804},
+																								pos:        position{line: 2875, col: 29, offset: 90875},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31150,9 +31154,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2882, col: 8, offset: 90964},
+																					pos: position{line: 2885, col: 8, offset: 91035},
 																					expr: &anyMatcher{
-																						line: 2882, col: 9, offset: 90965,
+																						line: 2885, col: 9, offset: 91036,
 																					},
 																				},
 																			},
@@ -31161,9 +31165,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2882, col: 8, offset: 90964},
+																pos: position{line: 2885, col: 8, offset: 91035},
 																expr: &anyMatcher{
-																	line: 2882, col: 9, offset: 90965,
+																	line: 2885, col: 9, offset: 91036,
 																},
 															},
 														},
@@ -31218,10 +31222,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 749, col: 8, offset: 24002},
 																	expr: &actionExpr{
-																		pos: position{line: 2863, col: 10, offset: 90616},
+																		pos: position{line: 2866, col: 10, offset: 90687},
 																		run: (*parser).callonListContinuationElement396,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2863, col: 10, offset: 90616},
+																			pos:        position{line: 2866, col: 10, offset: 90687},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31230,28 +31234,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2885, col: 8, offset: 91014},
+																	pos: position{line: 2888, col: 8, offset: 91085},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2872, col: 12, offset: 90787},
+																			pos: position{line: 2875, col: 12, offset: 90858},
 																			run: (*parser).callonListContinuationElement399,
 																			expr: &choiceExpr{
-																				pos: position{line: 2872, col: 13, offset: 90788},
+																				pos: position{line: 2875, col: 13, offset: 90859},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 13, offset: 90788},
+																						pos:        position{line: 2875, col: 13, offset: 90859},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 20, offset: 90795},
+																						pos:        position{line: 2875, col: 20, offset: 90866},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 29, offset: 90804},
+																						pos:        position{line: 2875, col: 29, offset: 90875},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31260,9 +31264,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2882, col: 8, offset: 90964},
+																			pos: position{line: 2885, col: 8, offset: 91035},
 																			expr: &anyMatcher{
-																				line: 2882, col: 9, offset: 90965,
+																				line: 2885, col: 9, offset: 91036,
 																			},
 																		},
 																	},
@@ -31334,10 +31338,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 749, col: 8, offset: 24002},
 																											expr: &actionExpr{
-																												pos: position{line: 2863, col: 10, offset: 90616},
+																												pos: position{line: 2866, col: 10, offset: 90687},
 																												run: (*parser).callonListContinuationElement424,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2863, col: 10, offset: 90616},
+																													pos:        position{line: 2866, col: 10, offset: 90687},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31346,28 +31350,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2885, col: 8, offset: 91014},
+																											pos: position{line: 2888, col: 8, offset: 91085},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2872, col: 12, offset: 90787},
+																													pos: position{line: 2875, col: 12, offset: 90858},
 																													run: (*parser).callonListContinuationElement427,
 																													expr: &choiceExpr{
-																														pos: position{line: 2872, col: 13, offset: 90788},
+																														pos: position{line: 2875, col: 13, offset: 90859},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 13, offset: 90788},
+																																pos:        position{line: 2875, col: 13, offset: 90859},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 20, offset: 90795},
+																																pos:        position{line: 2875, col: 20, offset: 90866},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 29, offset: 90804},
+																																pos:        position{line: 2875, col: 29, offset: 90875},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31376,9 +31380,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2882, col: 8, offset: 90964},
+																													pos: position{line: 2885, col: 8, offset: 91035},
 																													expr: &anyMatcher{
-																														line: 2882, col: 9, offset: 90965,
+																														line: 2885, col: 9, offset: 91036,
 																													},
 																												},
 																											},
@@ -31394,9 +31398,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2882, col: 8, offset: 90964},
+																					pos: position{line: 2885, col: 8, offset: 91035},
 																					expr: &anyMatcher{
-																						line: 2882, col: 9, offset: 90965,
+																						line: 2885, col: 9, offset: 91036,
 																					},
 																				},
 																			},
@@ -31412,21 +31416,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26161},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2880, col: 11, offset: 90950},
+																						pos: position{line: 2883, col: 11, offset: 91021},
 																						expr: &anyMatcher{
-																							line: 2880, col: 13, offset: 90952,
+																							line: 2883, col: 13, offset: 91023,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26236},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2809, col: 13, offset: 89142},
+																							pos: position{line: 2812, col: 13, offset: 89213},
 																							run: (*parser).callonListContinuationElement443,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2809, col: 13, offset: 89142},
+																								pos: position{line: 2812, col: 13, offset: 89213},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2809, col: 13, offset: 89142},
+																									pos:        position{line: 2812, col: 13, offset: 89213},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31436,28 +31440,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2885, col: 8, offset: 91014},
+																						pos: position{line: 2888, col: 8, offset: 91085},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2872, col: 12, offset: 90787},
+																								pos: position{line: 2875, col: 12, offset: 90858},
 																								run: (*parser).callonListContinuationElement447,
 																								expr: &choiceExpr{
-																									pos: position{line: 2872, col: 13, offset: 90788},
+																									pos: position{line: 2875, col: 13, offset: 90859},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 13, offset: 90788},
+																											pos:        position{line: 2875, col: 13, offset: 90859},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 20, offset: 90795},
+																											pos:        position{line: 2875, col: 20, offset: 90866},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 29, offset: 90804},
+																											pos:        position{line: 2875, col: 29, offset: 90875},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31466,9 +31470,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2882, col: 8, offset: 90964},
+																								pos: position{line: 2885, col: 8, offset: 91035},
 																								expr: &anyMatcher{
-																									line: 2882, col: 9, offset: 90965,
+																									line: 2885, col: 9, offset: 91036,
 																								},
 																							},
 																						},
@@ -31533,10 +31537,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 749, col: 8, offset: 24002},
 																							expr: &actionExpr{
-																								pos: position{line: 2863, col: 10, offset: 90616},
+																								pos: position{line: 2866, col: 10, offset: 90687},
 																								run: (*parser).callonListContinuationElement468,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2863, col: 10, offset: 90616},
+																									pos:        position{line: 2866, col: 10, offset: 90687},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -31545,28 +31549,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2885, col: 8, offset: 91014},
+																							pos: position{line: 2888, col: 8, offset: 91085},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2872, col: 12, offset: 90787},
+																									pos: position{line: 2875, col: 12, offset: 90858},
 																									run: (*parser).callonListContinuationElement471,
 																									expr: &choiceExpr{
-																										pos: position{line: 2872, col: 13, offset: 90788},
+																										pos: position{line: 2875, col: 13, offset: 90859},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 13, offset: 90788},
+																												pos:        position{line: 2875, col: 13, offset: 90859},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 20, offset: 90795},
+																												pos:        position{line: 2875, col: 20, offset: 90866},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 29, offset: 90804},
+																												pos:        position{line: 2875, col: 29, offset: 90875},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -31575,9 +31579,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2882, col: 8, offset: 90964},
+																									pos: position{line: 2885, col: 8, offset: 91035},
 																									expr: &anyMatcher{
-																										line: 2882, col: 9, offset: 90965,
+																										line: 2885, col: 9, offset: 91036,
 																									},
 																								},
 																							},
@@ -31593,9 +31597,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2882, col: 8, offset: 90964},
+																	pos: position{line: 2885, col: 8, offset: 91035},
 																	expr: &anyMatcher{
-																		line: 2882, col: 9, offset: 90965,
+																		line: 2885, col: 9, offset: 91036,
 																	},
 																},
 															},
@@ -31647,10 +31651,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 760, col: 52, offset: 24414},
 																	expr: &actionExpr{
-																		pos: position{line: 2863, col: 10, offset: 90616},
+																		pos: position{line: 2866, col: 10, offset: 90687},
 																		run: (*parser).callonListContinuationElement492,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2863, col: 10, offset: 90616},
+																			pos:        position{line: 2866, col: 10, offset: 90687},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31659,28 +31663,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2885, col: 8, offset: 91014},
+																	pos: position{line: 2888, col: 8, offset: 91085},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2872, col: 12, offset: 90787},
+																			pos: position{line: 2875, col: 12, offset: 90858},
 																			run: (*parser).callonListContinuationElement495,
 																			expr: &choiceExpr{
-																				pos: position{line: 2872, col: 13, offset: 90788},
+																				pos: position{line: 2875, col: 13, offset: 90859},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 13, offset: 90788},
+																						pos:        position{line: 2875, col: 13, offset: 90859},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 20, offset: 90795},
+																						pos:        position{line: 2875, col: 20, offset: 90866},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 29, offset: 90804},
+																						pos:        position{line: 2875, col: 29, offset: 90875},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31689,9 +31693,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2882, col: 8, offset: 90964},
+																			pos: position{line: 2885, col: 8, offset: 91035},
 																			expr: &anyMatcher{
-																				line: 2882, col: 9, offset: 90965,
+																				line: 2885, col: 9, offset: 91036,
 																			},
 																		},
 																	},
@@ -31725,10 +31729,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 963, col: 40, offset: 30222},
 																					expr: &actionExpr{
-																						pos: position{line: 2863, col: 10, offset: 90616},
+																						pos: position{line: 2866, col: 10, offset: 90687},
 																						run: (*parser).callonListContinuationElement510,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2863, col: 10, offset: 90616},
+																							pos:        position{line: 2866, col: 10, offset: 90687},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -31737,28 +31741,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2885, col: 8, offset: 91014},
+																					pos: position{line: 2888, col: 8, offset: 91085},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2872, col: 12, offset: 90787},
+																							pos: position{line: 2875, col: 12, offset: 90858},
 																							run: (*parser).callonListContinuationElement513,
 																							expr: &choiceExpr{
-																								pos: position{line: 2872, col: 13, offset: 90788},
+																								pos: position{line: 2875, col: 13, offset: 90859},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2872, col: 13, offset: 90788},
+																										pos:        position{line: 2875, col: 13, offset: 90859},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2872, col: 20, offset: 90795},
+																										pos:        position{line: 2875, col: 20, offset: 90866},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2872, col: 29, offset: 90804},
+																										pos:        position{line: 2875, col: 29, offset: 90875},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -31767,9 +31771,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2882, col: 8, offset: 90964},
+																							pos: position{line: 2885, col: 8, offset: 91035},
 																							expr: &anyMatcher{
-																								line: 2882, col: 9, offset: 90965,
+																								line: 2885, col: 9, offset: 91036,
 																							},
 																						},
 																					},
@@ -31787,21 +31791,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26161},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2880, col: 11, offset: 90950},
+																						pos: position{line: 2883, col: 11, offset: 91021},
 																						expr: &anyMatcher{
-																							line: 2880, col: 13, offset: 90952,
+																							line: 2883, col: 13, offset: 91023,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26236},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2809, col: 13, offset: 89142},
+																							pos: position{line: 2812, col: 13, offset: 89213},
 																							run: (*parser).callonListContinuationElement526,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2809, col: 13, offset: 89142},
+																								pos: position{line: 2812, col: 13, offset: 89213},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2809, col: 13, offset: 89142},
+																									pos:        position{line: 2812, col: 13, offset: 89213},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31811,28 +31815,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2885, col: 8, offset: 91014},
+																						pos: position{line: 2888, col: 8, offset: 91085},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2872, col: 12, offset: 90787},
+																								pos: position{line: 2875, col: 12, offset: 90858},
 																								run: (*parser).callonListContinuationElement530,
 																								expr: &choiceExpr{
-																									pos: position{line: 2872, col: 13, offset: 90788},
+																									pos: position{line: 2875, col: 13, offset: 90859},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 13, offset: 90788},
+																											pos:        position{line: 2875, col: 13, offset: 90859},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 20, offset: 90795},
+																											pos:        position{line: 2875, col: 20, offset: 90866},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 29, offset: 90804},
+																											pos:        position{line: 2875, col: 29, offset: 90875},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31841,9 +31845,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2882, col: 8, offset: 90964},
+																								pos: position{line: 2885, col: 8, offset: 91035},
 																								expr: &anyMatcher{
-																									line: 2882, col: 9, offset: 90965,
+																									line: 2885, col: 9, offset: 91036,
 																								},
 																							},
 																						},
@@ -31871,10 +31875,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 963, col: 40, offset: 30222},
 																expr: &actionExpr{
-																	pos: position{line: 2863, col: 10, offset: 90616},
+																	pos: position{line: 2866, col: 10, offset: 90687},
 																	run: (*parser).callonListContinuationElement541,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2863, col: 10, offset: 90616},
+																		pos:        position{line: 2866, col: 10, offset: 90687},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -31883,28 +31887,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2885, col: 8, offset: 91014},
+																pos: position{line: 2888, col: 8, offset: 91085},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2872, col: 12, offset: 90787},
+																		pos: position{line: 2875, col: 12, offset: 90858},
 																		run: (*parser).callonListContinuationElement544,
 																		expr: &choiceExpr{
-																			pos: position{line: 2872, col: 13, offset: 90788},
+																			pos: position{line: 2875, col: 13, offset: 90859},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2872, col: 13, offset: 90788},
+																					pos:        position{line: 2875, col: 13, offset: 90859},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2872, col: 20, offset: 90795},
+																					pos:        position{line: 2875, col: 20, offset: 90866},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2872, col: 29, offset: 90804},
+																					pos:        position{line: 2875, col: 29, offset: 90875},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -31913,9 +31917,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2882, col: 8, offset: 90964},
+																		pos: position{line: 2885, col: 8, offset: 91035},
 																		expr: &anyMatcher{
-																			line: 2882, col: 9, offset: 90965,
+																			line: 2885, col: 9, offset: 91036,
 																		},
 																	},
 																},
@@ -31972,10 +31976,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 756, col: 8, offset: 24248},
 																	expr: &actionExpr{
-																		pos: position{line: 2863, col: 10, offset: 90616},
+																		pos: position{line: 2866, col: 10, offset: 90687},
 																		run: (*parser).callonListContinuationElement563,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2863, col: 10, offset: 90616},
+																			pos:        position{line: 2866, col: 10, offset: 90687},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31984,28 +31988,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2885, col: 8, offset: 91014},
+																	pos: position{line: 2888, col: 8, offset: 91085},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2872, col: 12, offset: 90787},
+																			pos: position{line: 2875, col: 12, offset: 90858},
 																			run: (*parser).callonListContinuationElement566,
 																			expr: &choiceExpr{
-																				pos: position{line: 2872, col: 13, offset: 90788},
+																				pos: position{line: 2875, col: 13, offset: 90859},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 13, offset: 90788},
+																						pos:        position{line: 2875, col: 13, offset: 90859},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 20, offset: 90795},
+																						pos:        position{line: 2875, col: 20, offset: 90866},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 29, offset: 90804},
+																						pos:        position{line: 2875, col: 29, offset: 90875},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32014,9 +32018,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2882, col: 8, offset: 90964},
+																			pos: position{line: 2885, col: 8, offset: 91035},
 																			expr: &anyMatcher{
-																				line: 2882, col: 9, offset: 90965,
+																				line: 2885, col: 9, offset: 91036,
 																			},
 																		},
 																	},
@@ -32088,10 +32092,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 756, col: 8, offset: 24248},
 																											expr: &actionExpr{
-																												pos: position{line: 2863, col: 10, offset: 90616},
+																												pos: position{line: 2866, col: 10, offset: 90687},
 																												run: (*parser).callonListContinuationElement591,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2863, col: 10, offset: 90616},
+																													pos:        position{line: 2866, col: 10, offset: 90687},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32100,28 +32104,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2885, col: 8, offset: 91014},
+																											pos: position{line: 2888, col: 8, offset: 91085},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2872, col: 12, offset: 90787},
+																													pos: position{line: 2875, col: 12, offset: 90858},
 																													run: (*parser).callonListContinuationElement594,
 																													expr: &choiceExpr{
-																														pos: position{line: 2872, col: 13, offset: 90788},
+																														pos: position{line: 2875, col: 13, offset: 90859},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 13, offset: 90788},
+																																pos:        position{line: 2875, col: 13, offset: 90859},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 20, offset: 90795},
+																																pos:        position{line: 2875, col: 20, offset: 90866},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 29, offset: 90804},
+																																pos:        position{line: 2875, col: 29, offset: 90875},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32130,9 +32134,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2882, col: 8, offset: 90964},
+																													pos: position{line: 2885, col: 8, offset: 91035},
 																													expr: &anyMatcher{
-																														line: 2882, col: 9, offset: 90965,
+																														line: 2885, col: 9, offset: 91036,
 																													},
 																												},
 																											},
@@ -32148,9 +32152,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2882, col: 8, offset: 90964},
+																					pos: position{line: 2885, col: 8, offset: 91035},
 																					expr: &anyMatcher{
-																						line: 2882, col: 9, offset: 90965,
+																						line: 2885, col: 9, offset: 91036,
 																					},
 																				},
 																			},
@@ -32166,21 +32170,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26161},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2880, col: 11, offset: 90950},
+																						pos: position{line: 2883, col: 11, offset: 91021},
 																						expr: &anyMatcher{
-																							line: 2880, col: 13, offset: 90952,
+																							line: 2883, col: 13, offset: 91023,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26236},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2809, col: 13, offset: 89142},
+																							pos: position{line: 2812, col: 13, offset: 89213},
 																							run: (*parser).callonListContinuationElement610,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2809, col: 13, offset: 89142},
+																								pos: position{line: 2812, col: 13, offset: 89213},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2809, col: 13, offset: 89142},
+																									pos:        position{line: 2812, col: 13, offset: 89213},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32190,28 +32194,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2885, col: 8, offset: 91014},
+																						pos: position{line: 2888, col: 8, offset: 91085},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2872, col: 12, offset: 90787},
+																								pos: position{line: 2875, col: 12, offset: 90858},
 																								run: (*parser).callonListContinuationElement614,
 																								expr: &choiceExpr{
-																									pos: position{line: 2872, col: 13, offset: 90788},
+																									pos: position{line: 2875, col: 13, offset: 90859},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 13, offset: 90788},
+																											pos:        position{line: 2875, col: 13, offset: 90859},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 20, offset: 90795},
+																											pos:        position{line: 2875, col: 20, offset: 90866},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 29, offset: 90804},
+																											pos:        position{line: 2875, col: 29, offset: 90875},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32220,9 +32224,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2882, col: 8, offset: 90964},
+																								pos: position{line: 2885, col: 8, offset: 91035},
 																								expr: &anyMatcher{
-																									line: 2882, col: 9, offset: 90965,
+																									line: 2885, col: 9, offset: 91036,
 																								},
 																							},
 																						},
@@ -32287,10 +32291,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 756, col: 8, offset: 24248},
 																							expr: &actionExpr{
-																								pos: position{line: 2863, col: 10, offset: 90616},
+																								pos: position{line: 2866, col: 10, offset: 90687},
 																								run: (*parser).callonListContinuationElement635,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2863, col: 10, offset: 90616},
+																									pos:        position{line: 2866, col: 10, offset: 90687},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32299,28 +32303,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2885, col: 8, offset: 91014},
+																							pos: position{line: 2888, col: 8, offset: 91085},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2872, col: 12, offset: 90787},
+																									pos: position{line: 2875, col: 12, offset: 90858},
 																									run: (*parser).callonListContinuationElement638,
 																									expr: &choiceExpr{
-																										pos: position{line: 2872, col: 13, offset: 90788},
+																										pos: position{line: 2875, col: 13, offset: 90859},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 13, offset: 90788},
+																												pos:        position{line: 2875, col: 13, offset: 90859},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 20, offset: 90795},
+																												pos:        position{line: 2875, col: 20, offset: 90866},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 29, offset: 90804},
+																												pos:        position{line: 2875, col: 29, offset: 90875},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32329,9 +32333,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2882, col: 8, offset: 90964},
+																									pos: position{line: 2885, col: 8, offset: 91035},
 																									expr: &anyMatcher{
-																										line: 2882, col: 9, offset: 90965,
+																										line: 2885, col: 9, offset: 91036,
 																									},
 																								},
 																							},
@@ -32347,9 +32351,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2882, col: 8, offset: 90964},
+																	pos: position{line: 2885, col: 8, offset: 91035},
 																	expr: &anyMatcher{
-																		line: 2882, col: 9, offset: 90965,
+																		line: 2885, col: 9, offset: 91036,
 																	},
 																},
 															},
@@ -32405,10 +32409,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 771, col: 8, offset: 24791},
 																	expr: &actionExpr{
-																		pos: position{line: 2863, col: 10, offset: 90616},
+																		pos: position{line: 2866, col: 10, offset: 90687},
 																		run: (*parser).callonListContinuationElement660,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2863, col: 10, offset: 90616},
+																			pos:        position{line: 2866, col: 10, offset: 90687},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32417,28 +32421,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2885, col: 8, offset: 91014},
+																	pos: position{line: 2888, col: 8, offset: 91085},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2872, col: 12, offset: 90787},
+																			pos: position{line: 2875, col: 12, offset: 90858},
 																			run: (*parser).callonListContinuationElement663,
 																			expr: &choiceExpr{
-																				pos: position{line: 2872, col: 13, offset: 90788},
+																				pos: position{line: 2875, col: 13, offset: 90859},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 13, offset: 90788},
+																						pos:        position{line: 2875, col: 13, offset: 90859},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 20, offset: 90795},
+																						pos:        position{line: 2875, col: 20, offset: 90866},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 29, offset: 90804},
+																						pos:        position{line: 2875, col: 29, offset: 90875},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32447,9 +32451,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2882, col: 8, offset: 90964},
+																			pos: position{line: 2885, col: 8, offset: 91035},
 																			expr: &anyMatcher{
-																				line: 2882, col: 9, offset: 90965,
+																				line: 2885, col: 9, offset: 91036,
 																			},
 																		},
 																	},
@@ -32521,10 +32525,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 771, col: 8, offset: 24791},
 																											expr: &actionExpr{
-																												pos: position{line: 2863, col: 10, offset: 90616},
+																												pos: position{line: 2866, col: 10, offset: 90687},
 																												run: (*parser).callonListContinuationElement688,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2863, col: 10, offset: 90616},
+																													pos:        position{line: 2866, col: 10, offset: 90687},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32533,28 +32537,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2885, col: 8, offset: 91014},
+																											pos: position{line: 2888, col: 8, offset: 91085},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2872, col: 12, offset: 90787},
+																													pos: position{line: 2875, col: 12, offset: 90858},
 																													run: (*parser).callonListContinuationElement691,
 																													expr: &choiceExpr{
-																														pos: position{line: 2872, col: 13, offset: 90788},
+																														pos: position{line: 2875, col: 13, offset: 90859},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 13, offset: 90788},
+																																pos:        position{line: 2875, col: 13, offset: 90859},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 20, offset: 90795},
+																																pos:        position{line: 2875, col: 20, offset: 90866},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 29, offset: 90804},
+																																pos:        position{line: 2875, col: 29, offset: 90875},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32563,9 +32567,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2882, col: 8, offset: 90964},
+																													pos: position{line: 2885, col: 8, offset: 91035},
 																													expr: &anyMatcher{
-																														line: 2882, col: 9, offset: 90965,
+																														line: 2885, col: 9, offset: 91036,
 																													},
 																												},
 																											},
@@ -32581,9 +32585,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2882, col: 8, offset: 90964},
+																					pos: position{line: 2885, col: 8, offset: 91035},
 																					expr: &anyMatcher{
-																						line: 2882, col: 9, offset: 90965,
+																						line: 2885, col: 9, offset: 91036,
 																					},
 																				},
 																			},
@@ -32599,21 +32603,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26161},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2880, col: 11, offset: 90950},
+																						pos: position{line: 2883, col: 11, offset: 91021},
 																						expr: &anyMatcher{
-																							line: 2880, col: 13, offset: 90952,
+																							line: 2883, col: 13, offset: 91023,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26236},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2809, col: 13, offset: 89142},
+																							pos: position{line: 2812, col: 13, offset: 89213},
 																							run: (*parser).callonListContinuationElement707,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2809, col: 13, offset: 89142},
+																								pos: position{line: 2812, col: 13, offset: 89213},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2809, col: 13, offset: 89142},
+																									pos:        position{line: 2812, col: 13, offset: 89213},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32623,28 +32627,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2885, col: 8, offset: 91014},
+																						pos: position{line: 2888, col: 8, offset: 91085},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2872, col: 12, offset: 90787},
+																								pos: position{line: 2875, col: 12, offset: 90858},
 																								run: (*parser).callonListContinuationElement711,
 																								expr: &choiceExpr{
-																									pos: position{line: 2872, col: 13, offset: 90788},
+																									pos: position{line: 2875, col: 13, offset: 90859},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 13, offset: 90788},
+																											pos:        position{line: 2875, col: 13, offset: 90859},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 20, offset: 90795},
+																											pos:        position{line: 2875, col: 20, offset: 90866},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 29, offset: 90804},
+																											pos:        position{line: 2875, col: 29, offset: 90875},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32653,9 +32657,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2882, col: 8, offset: 90964},
+																								pos: position{line: 2885, col: 8, offset: 91035},
 																								expr: &anyMatcher{
-																									line: 2882, col: 9, offset: 90965,
+																									line: 2885, col: 9, offset: 91036,
 																								},
 																							},
 																						},
@@ -32720,10 +32724,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 771, col: 8, offset: 24791},
 																							expr: &actionExpr{
-																								pos: position{line: 2863, col: 10, offset: 90616},
+																								pos: position{line: 2866, col: 10, offset: 90687},
 																								run: (*parser).callonListContinuationElement732,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2863, col: 10, offset: 90616},
+																									pos:        position{line: 2866, col: 10, offset: 90687},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32732,28 +32736,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2885, col: 8, offset: 91014},
+																							pos: position{line: 2888, col: 8, offset: 91085},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2872, col: 12, offset: 90787},
+																									pos: position{line: 2875, col: 12, offset: 90858},
 																									run: (*parser).callonListContinuationElement735,
 																									expr: &choiceExpr{
-																										pos: position{line: 2872, col: 13, offset: 90788},
+																										pos: position{line: 2875, col: 13, offset: 90859},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 13, offset: 90788},
+																												pos:        position{line: 2875, col: 13, offset: 90859},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 20, offset: 90795},
+																												pos:        position{line: 2875, col: 20, offset: 90866},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 29, offset: 90804},
+																												pos:        position{line: 2875, col: 29, offset: 90875},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32762,9 +32766,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2882, col: 8, offset: 90964},
+																									pos: position{line: 2885, col: 8, offset: 91035},
 																									expr: &anyMatcher{
-																										line: 2882, col: 9, offset: 90965,
+																										line: 2885, col: 9, offset: 91036,
 																									},
 																								},
 																							},
@@ -32780,9 +32784,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2882, col: 8, offset: 90964},
+																	pos: position{line: 2885, col: 8, offset: 91035},
 																	expr: &anyMatcher{
-																		line: 2882, col: 9, offset: 90965,
+																		line: 2885, col: 9, offset: 91036,
 																	},
 																},
 															},
@@ -32838,10 +32842,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 785, col: 8, offset: 25267},
 																	expr: &actionExpr{
-																		pos: position{line: 2863, col: 10, offset: 90616},
+																		pos: position{line: 2866, col: 10, offset: 90687},
 																		run: (*parser).callonListContinuationElement757,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2863, col: 10, offset: 90616},
+																			pos:        position{line: 2866, col: 10, offset: 90687},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32850,28 +32854,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2885, col: 8, offset: 91014},
+																	pos: position{line: 2888, col: 8, offset: 91085},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2872, col: 12, offset: 90787},
+																			pos: position{line: 2875, col: 12, offset: 90858},
 																			run: (*parser).callonListContinuationElement760,
 																			expr: &choiceExpr{
-																				pos: position{line: 2872, col: 13, offset: 90788},
+																				pos: position{line: 2875, col: 13, offset: 90859},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 13, offset: 90788},
+																						pos:        position{line: 2875, col: 13, offset: 90859},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 20, offset: 90795},
+																						pos:        position{line: 2875, col: 20, offset: 90866},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 29, offset: 90804},
+																						pos:        position{line: 2875, col: 29, offset: 90875},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32880,9 +32884,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2882, col: 8, offset: 90964},
+																			pos: position{line: 2885, col: 8, offset: 91035},
 																			expr: &anyMatcher{
-																				line: 2882, col: 9, offset: 90965,
+																				line: 2885, col: 9, offset: 91036,
 																			},
 																		},
 																	},
@@ -32954,10 +32958,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 785, col: 8, offset: 25267},
 																											expr: &actionExpr{
-																												pos: position{line: 2863, col: 10, offset: 90616},
+																												pos: position{line: 2866, col: 10, offset: 90687},
 																												run: (*parser).callonListContinuationElement785,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2863, col: 10, offset: 90616},
+																													pos:        position{line: 2866, col: 10, offset: 90687},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32966,28 +32970,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2885, col: 8, offset: 91014},
+																											pos: position{line: 2888, col: 8, offset: 91085},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2872, col: 12, offset: 90787},
+																													pos: position{line: 2875, col: 12, offset: 90858},
 																													run: (*parser).callonListContinuationElement788,
 																													expr: &choiceExpr{
-																														pos: position{line: 2872, col: 13, offset: 90788},
+																														pos: position{line: 2875, col: 13, offset: 90859},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 13, offset: 90788},
+																																pos:        position{line: 2875, col: 13, offset: 90859},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 20, offset: 90795},
+																																pos:        position{line: 2875, col: 20, offset: 90866},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 29, offset: 90804},
+																																pos:        position{line: 2875, col: 29, offset: 90875},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32996,9 +33000,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2882, col: 8, offset: 90964},
+																													pos: position{line: 2885, col: 8, offset: 91035},
 																													expr: &anyMatcher{
-																														line: 2882, col: 9, offset: 90965,
+																														line: 2885, col: 9, offset: 91036,
 																													},
 																												},
 																											},
@@ -33014,9 +33018,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2882, col: 8, offset: 90964},
+																					pos: position{line: 2885, col: 8, offset: 91035},
 																					expr: &anyMatcher{
-																						line: 2882, col: 9, offset: 90965,
+																						line: 2885, col: 9, offset: 91036,
 																					},
 																				},
 																			},
@@ -33032,21 +33036,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26161},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2880, col: 11, offset: 90950},
+																						pos: position{line: 2883, col: 11, offset: 91021},
 																						expr: &anyMatcher{
-																							line: 2880, col: 13, offset: 90952,
+																							line: 2883, col: 13, offset: 91023,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26236},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2809, col: 13, offset: 89142},
+																							pos: position{line: 2812, col: 13, offset: 89213},
 																							run: (*parser).callonListContinuationElement804,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2809, col: 13, offset: 89142},
+																								pos: position{line: 2812, col: 13, offset: 89213},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2809, col: 13, offset: 89142},
+																									pos:        position{line: 2812, col: 13, offset: 89213},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33056,28 +33060,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2885, col: 8, offset: 91014},
+																						pos: position{line: 2888, col: 8, offset: 91085},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2872, col: 12, offset: 90787},
+																								pos: position{line: 2875, col: 12, offset: 90858},
 																								run: (*parser).callonListContinuationElement808,
 																								expr: &choiceExpr{
-																									pos: position{line: 2872, col: 13, offset: 90788},
+																									pos: position{line: 2875, col: 13, offset: 90859},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 13, offset: 90788},
+																											pos:        position{line: 2875, col: 13, offset: 90859},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 20, offset: 90795},
+																											pos:        position{line: 2875, col: 20, offset: 90866},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 29, offset: 90804},
+																											pos:        position{line: 2875, col: 29, offset: 90875},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33086,9 +33090,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2882, col: 8, offset: 90964},
+																								pos: position{line: 2885, col: 8, offset: 91035},
 																								expr: &anyMatcher{
-																									line: 2882, col: 9, offset: 90965,
+																									line: 2885, col: 9, offset: 91036,
 																								},
 																							},
 																						},
@@ -33153,10 +33157,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 785, col: 8, offset: 25267},
 																							expr: &actionExpr{
-																								pos: position{line: 2863, col: 10, offset: 90616},
+																								pos: position{line: 2866, col: 10, offset: 90687},
 																								run: (*parser).callonListContinuationElement829,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2863, col: 10, offset: 90616},
+																									pos:        position{line: 2866, col: 10, offset: 90687},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33165,28 +33169,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2885, col: 8, offset: 91014},
+																							pos: position{line: 2888, col: 8, offset: 91085},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2872, col: 12, offset: 90787},
+																									pos: position{line: 2875, col: 12, offset: 90858},
 																									run: (*parser).callonListContinuationElement832,
 																									expr: &choiceExpr{
-																										pos: position{line: 2872, col: 13, offset: 90788},
+																										pos: position{line: 2875, col: 13, offset: 90859},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 13, offset: 90788},
+																												pos:        position{line: 2875, col: 13, offset: 90859},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 20, offset: 90795},
+																												pos:        position{line: 2875, col: 20, offset: 90866},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 29, offset: 90804},
+																												pos:        position{line: 2875, col: 29, offset: 90875},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33195,9 +33199,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2882, col: 8, offset: 90964},
+																									pos: position{line: 2885, col: 8, offset: 91035},
 																									expr: &anyMatcher{
-																										line: 2882, col: 9, offset: 90965,
+																										line: 2885, col: 9, offset: 91036,
 																									},
 																								},
 																							},
@@ -33213,9 +33217,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2882, col: 8, offset: 90964},
+																	pos: position{line: 2885, col: 8, offset: 91035},
 																	expr: &anyMatcher{
-																		line: 2882, col: 9, offset: 90965,
+																		line: 2885, col: 9, offset: 91036,
 																	},
 																},
 															},
@@ -33249,18 +33253,18 @@ var g = &grammar{
 																			pos: position{line: 677, col: 14, offset: 21557},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2880, col: 11, offset: 90950},
+																					pos: position{line: 2883, col: 11, offset: 91021},
 																					expr: &anyMatcher{
-																						line: 2880, col: 13, offset: 90952,
+																						line: 2883, col: 13, offset: 91023,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21564},
 																					expr: &actionExpr{
-																						pos: position{line: 2863, col: 10, offset: 90616},
+																						pos: position{line: 2866, col: 10, offset: 90687},
 																						run: (*parser).callonListContinuationElement853,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2863, col: 10, offset: 90616},
+																							pos:        position{line: 2866, col: 10, offset: 90687},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -33269,28 +33273,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2885, col: 8, offset: 91014},
+																					pos: position{line: 2888, col: 8, offset: 91085},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2872, col: 12, offset: 90787},
+																							pos: position{line: 2875, col: 12, offset: 90858},
 																							run: (*parser).callonListContinuationElement856,
 																							expr: &choiceExpr{
-																								pos: position{line: 2872, col: 13, offset: 90788},
+																								pos: position{line: 2875, col: 13, offset: 90859},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2872, col: 13, offset: 90788},
+																										pos:        position{line: 2875, col: 13, offset: 90859},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2872, col: 20, offset: 90795},
+																										pos:        position{line: 2875, col: 20, offset: 90866},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2872, col: 29, offset: 90804},
+																										pos:        position{line: 2875, col: 29, offset: 90875},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -33299,9 +33303,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2882, col: 8, offset: 90964},
+																							pos: position{line: 2885, col: 8, offset: 91035},
 																							expr: &anyMatcher{
-																								line: 2882, col: 9, offset: 90965,
+																								line: 2885, col: 9, offset: 91036,
 																							},
 																						},
 																					},
@@ -33320,12 +33324,12 @@ var g = &grammar{
 																	pos:   position{line: 984, col: 5, offset: 30757},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2813, col: 14, offset: 89209},
+																		pos: position{line: 2816, col: 14, offset: 89280},
 																		run: (*parser).callonListContinuationElement865,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2813, col: 14, offset: 89209},
+																			pos: position{line: 2816, col: 14, offset: 89280},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2813, col: 14, offset: 89209},
+																				pos:        position{line: 2816, col: 14, offset: 89280},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -33335,28 +33339,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2885, col: 8, offset: 91014},
+																	pos: position{line: 2888, col: 8, offset: 91085},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2872, col: 12, offset: 90787},
+																			pos: position{line: 2875, col: 12, offset: 90858},
 																			run: (*parser).callonListContinuationElement869,
 																			expr: &choiceExpr{
-																				pos: position{line: 2872, col: 13, offset: 90788},
+																				pos: position{line: 2875, col: 13, offset: 90859},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 13, offset: 90788},
+																						pos:        position{line: 2875, col: 13, offset: 90859},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 20, offset: 90795},
+																						pos:        position{line: 2875, col: 20, offset: 90866},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 29, offset: 90804},
+																						pos:        position{line: 2875, col: 29, offset: 90875},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33365,9 +33369,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2882, col: 8, offset: 90964},
+																			pos: position{line: 2885, col: 8, offset: 91035},
 																			expr: &anyMatcher{
-																				line: 2882, col: 9, offset: 90965,
+																				line: 2885, col: 9, offset: 91036,
 																			},
 																		},
 																	},
@@ -33399,18 +33403,18 @@ var g = &grammar{
 																						pos: position{line: 677, col: 14, offset: 21557},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2880, col: 11, offset: 90950},
+																								pos: position{line: 2883, col: 11, offset: 91021},
 																								expr: &anyMatcher{
-																									line: 2880, col: 13, offset: 90952,
+																									line: 2883, col: 13, offset: 91023,
 																								},
 																							},
 																							&zeroOrMoreExpr{
 																								pos: position{line: 677, col: 21, offset: 21564},
 																								expr: &actionExpr{
-																									pos: position{line: 2863, col: 10, offset: 90616},
+																									pos: position{line: 2866, col: 10, offset: 90687},
 																									run: (*parser).callonListContinuationElement887,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2863, col: 10, offset: 90616},
+																										pos:        position{line: 2866, col: 10, offset: 90687},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33419,28 +33423,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2885, col: 8, offset: 91014},
+																								pos: position{line: 2888, col: 8, offset: 91085},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2872, col: 12, offset: 90787},
+																										pos: position{line: 2875, col: 12, offset: 90858},
 																										run: (*parser).callonListContinuationElement890,
 																										expr: &choiceExpr{
-																											pos: position{line: 2872, col: 13, offset: 90788},
+																											pos: position{line: 2875, col: 13, offset: 90859},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2872, col: 13, offset: 90788},
+																													pos:        position{line: 2875, col: 13, offset: 90859},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2872, col: 20, offset: 90795},
+																													pos:        position{line: 2875, col: 20, offset: 90866},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2872, col: 29, offset: 90804},
+																													pos:        position{line: 2875, col: 29, offset: 90875},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33449,9 +33453,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2882, col: 8, offset: 90964},
+																										pos: position{line: 2885, col: 8, offset: 91035},
 																										expr: &anyMatcher{
-																											line: 2882, col: 9, offset: 90965,
+																											line: 2885, col: 9, offset: 91036,
 																										},
 																									},
 																								},
@@ -33470,12 +33474,12 @@ var g = &grammar{
 																				pos:   position{line: 984, col: 5, offset: 30757},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2813, col: 14, offset: 89209},
+																					pos: position{line: 2816, col: 14, offset: 89280},
 																					run: (*parser).callonListContinuationElement899,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2813, col: 14, offset: 89209},
+																						pos: position{line: 2816, col: 14, offset: 89280},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2813, col: 14, offset: 89209},
+																							pos:        position{line: 2816, col: 14, offset: 89280},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33485,28 +33489,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2885, col: 8, offset: 91014},
+																				pos: position{line: 2888, col: 8, offset: 91085},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2872, col: 12, offset: 90787},
+																						pos: position{line: 2875, col: 12, offset: 90858},
 																						run: (*parser).callonListContinuationElement903,
 																						expr: &choiceExpr{
-																							pos: position{line: 2872, col: 13, offset: 90788},
+																							pos: position{line: 2875, col: 13, offset: 90859},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2872, col: 13, offset: 90788},
+																									pos:        position{line: 2875, col: 13, offset: 90859},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2872, col: 20, offset: 90795},
+																									pos:        position{line: 2875, col: 20, offset: 90866},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2872, col: 29, offset: 90804},
+																									pos:        position{line: 2875, col: 29, offset: 90875},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33515,9 +33519,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2882, col: 8, offset: 90964},
+																						pos: position{line: 2885, col: 8, offset: 91035},
 																						expr: &anyMatcher{
-																							line: 2882, col: 9, offset: 90965,
+																							line: 2885, col: 9, offset: 91036,
 																						},
 																					},
 																				},
@@ -33535,12 +33539,12 @@ var g = &grammar{
 																				pos:   position{line: 1785, col: 5, offset: 57782},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2813, col: 14, offset: 89209},
+																					pos: position{line: 2816, col: 14, offset: 89280},
 																					run: (*parser).callonListContinuationElement913,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2813, col: 14, offset: 89209},
+																						pos: position{line: 2816, col: 14, offset: 89280},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2813, col: 14, offset: 89209},
+																							pos:        position{line: 2816, col: 14, offset: 89280},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33554,28 +33558,28 @@ var g = &grammar{
 																				run: (*parser).callonListContinuationElement916,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2885, col: 8, offset: 91014},
+																				pos: position{line: 2888, col: 8, offset: 91085},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2872, col: 12, offset: 90787},
+																						pos: position{line: 2875, col: 12, offset: 90858},
 																						run: (*parser).callonListContinuationElement918,
 																						expr: &choiceExpr{
-																							pos: position{line: 2872, col: 13, offset: 90788},
+																							pos: position{line: 2875, col: 13, offset: 90859},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2872, col: 13, offset: 90788},
+																									pos:        position{line: 2875, col: 13, offset: 90859},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2872, col: 20, offset: 90795},
+																									pos:        position{line: 2875, col: 20, offset: 90866},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2872, col: 29, offset: 90804},
+																									pos:        position{line: 2875, col: 29, offset: 90875},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33584,9 +33588,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2882, col: 8, offset: 90964},
+																						pos: position{line: 2885, col: 8, offset: 91035},
 																						expr: &anyMatcher{
-																							line: 2882, col: 9, offset: 90965,
+																							line: 2885, col: 9, offset: 91036,
 																						},
 																					},
 																				},
@@ -33633,10 +33637,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 778, col: 8, offset: 25022},
 																	expr: &actionExpr{
-																		pos: position{line: 2863, col: 10, offset: 90616},
+																		pos: position{line: 2866, col: 10, offset: 90687},
 																		run: (*parser).callonListContinuationElement934,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2863, col: 10, offset: 90616},
+																			pos:        position{line: 2866, col: 10, offset: 90687},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33645,28 +33649,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2885, col: 8, offset: 91014},
+																	pos: position{line: 2888, col: 8, offset: 91085},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2872, col: 12, offset: 90787},
+																			pos: position{line: 2875, col: 12, offset: 90858},
 																			run: (*parser).callonListContinuationElement937,
 																			expr: &choiceExpr{
-																				pos: position{line: 2872, col: 13, offset: 90788},
+																				pos: position{line: 2875, col: 13, offset: 90859},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 13, offset: 90788},
+																						pos:        position{line: 2875, col: 13, offset: 90859},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 20, offset: 90795},
+																						pos:        position{line: 2875, col: 20, offset: 90866},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 29, offset: 90804},
+																						pos:        position{line: 2875, col: 29, offset: 90875},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33675,9 +33679,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2882, col: 8, offset: 90964},
+																			pos: position{line: 2885, col: 8, offset: 91035},
 																			expr: &anyMatcher{
-																				line: 2882, col: 9, offset: 90965,
+																				line: 2885, col: 9, offset: 91036,
 																			},
 																		},
 																	},
@@ -33725,10 +33729,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 778, col: 8, offset: 25022},
 																								expr: &actionExpr{
-																									pos: position{line: 2863, col: 10, offset: 90616},
+																									pos: position{line: 2866, col: 10, offset: 90687},
 																									run: (*parser).callonListContinuationElement956,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2863, col: 10, offset: 90616},
+																										pos:        position{line: 2866, col: 10, offset: 90687},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33737,28 +33741,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2885, col: 8, offset: 91014},
+																								pos: position{line: 2888, col: 8, offset: 91085},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2872, col: 12, offset: 90787},
+																										pos: position{line: 2875, col: 12, offset: 90858},
 																										run: (*parser).callonListContinuationElement959,
 																										expr: &choiceExpr{
-																											pos: position{line: 2872, col: 13, offset: 90788},
+																											pos: position{line: 2875, col: 13, offset: 90859},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2872, col: 13, offset: 90788},
+																													pos:        position{line: 2875, col: 13, offset: 90859},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2872, col: 20, offset: 90795},
+																													pos:        position{line: 2875, col: 20, offset: 90866},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2872, col: 29, offset: 90804},
+																													pos:        position{line: 2875, col: 29, offset: 90875},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33767,9 +33771,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2882, col: 8, offset: 90964},
+																										pos: position{line: 2885, col: 8, offset: 91035},
 																										expr: &anyMatcher{
-																											line: 2882, col: 9, offset: 90965,
+																											line: 2885, col: 9, offset: 91036,
 																										},
 																									},
 																								},
@@ -33778,9 +33782,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2882, col: 8, offset: 90964},
+																					pos: position{line: 2885, col: 8, offset: 91035},
 																					expr: &anyMatcher{
-																						line: 2882, col: 9, offset: 90965,
+																						line: 2885, col: 9, offset: 91036,
 																					},
 																				},
 																			},
@@ -33796,21 +33800,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26161},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2880, col: 11, offset: 90950},
+																						pos: position{line: 2883, col: 11, offset: 91021},
 																						expr: &anyMatcher{
-																							line: 2880, col: 13, offset: 90952,
+																							line: 2883, col: 13, offset: 91023,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26236},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2809, col: 13, offset: 89142},
+																							pos: position{line: 2812, col: 13, offset: 89213},
 																							run: (*parser).callonListContinuationElement974,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2809, col: 13, offset: 89142},
+																								pos: position{line: 2812, col: 13, offset: 89213},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2809, col: 13, offset: 89142},
+																									pos:        position{line: 2812, col: 13, offset: 89213},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33820,28 +33824,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2885, col: 8, offset: 91014},
+																						pos: position{line: 2888, col: 8, offset: 91085},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2872, col: 12, offset: 90787},
+																								pos: position{line: 2875, col: 12, offset: 90858},
 																								run: (*parser).callonListContinuationElement978,
 																								expr: &choiceExpr{
-																									pos: position{line: 2872, col: 13, offset: 90788},
+																									pos: position{line: 2875, col: 13, offset: 90859},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 13, offset: 90788},
+																											pos:        position{line: 2875, col: 13, offset: 90859},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 20, offset: 90795},
+																											pos:        position{line: 2875, col: 20, offset: 90866},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 29, offset: 90804},
+																											pos:        position{line: 2875, col: 29, offset: 90875},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33850,9 +33854,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2882, col: 8, offset: 90964},
+																								pos: position{line: 2885, col: 8, offset: 91035},
 																								expr: &anyMatcher{
-																									line: 2882, col: 9, offset: 90965,
+																									line: 2885, col: 9, offset: 91036,
 																								},
 																							},
 																						},
@@ -33897,10 +33901,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 778, col: 8, offset: 25022},
 																				expr: &actionExpr{
-																					pos: position{line: 2863, col: 10, offset: 90616},
+																					pos: position{line: 2866, col: 10, offset: 90687},
 																					run: (*parser).callonListContinuationElement994,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2863, col: 10, offset: 90616},
+																						pos:        position{line: 2866, col: 10, offset: 90687},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -33909,28 +33913,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2885, col: 8, offset: 91014},
+																				pos: position{line: 2888, col: 8, offset: 91085},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2872, col: 12, offset: 90787},
+																						pos: position{line: 2875, col: 12, offset: 90858},
 																						run: (*parser).callonListContinuationElement997,
 																						expr: &choiceExpr{
-																							pos: position{line: 2872, col: 13, offset: 90788},
+																							pos: position{line: 2875, col: 13, offset: 90859},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2872, col: 13, offset: 90788},
+																									pos:        position{line: 2875, col: 13, offset: 90859},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2872, col: 20, offset: 90795},
+																									pos:        position{line: 2875, col: 20, offset: 90866},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2872, col: 29, offset: 90804},
+																									pos:        position{line: 2875, col: 29, offset: 90875},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33939,9 +33943,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2882, col: 8, offset: 90964},
+																						pos: position{line: 2885, col: 8, offset: 91035},
 																						expr: &anyMatcher{
-																							line: 2882, col: 9, offset: 90965,
+																							line: 2885, col: 9, offset: 91036,
 																						},
 																					},
 																				},
@@ -33950,9 +33954,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2882, col: 8, offset: 90964},
+																	pos: position{line: 2885, col: 8, offset: 91035},
 																	expr: &anyMatcher{
-																		line: 2882, col: 9, offset: 90965,
+																		line: 2885, col: 9, offset: 91036,
 																	},
 																},
 															},
@@ -34008,10 +34012,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 792, col: 8, offset: 25519},
 																	expr: &actionExpr{
-																		pos: position{line: 2863, col: 10, offset: 90616},
+																		pos: position{line: 2866, col: 10, offset: 90687},
 																		run: (*parser).callonListContinuationElement1018,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2863, col: 10, offset: 90616},
+																			pos:        position{line: 2866, col: 10, offset: 90687},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34020,28 +34024,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2885, col: 8, offset: 91014},
+																	pos: position{line: 2888, col: 8, offset: 91085},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2872, col: 12, offset: 90787},
+																			pos: position{line: 2875, col: 12, offset: 90858},
 																			run: (*parser).callonListContinuationElement1021,
 																			expr: &choiceExpr{
-																				pos: position{line: 2872, col: 13, offset: 90788},
+																				pos: position{line: 2875, col: 13, offset: 90859},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 13, offset: 90788},
+																						pos:        position{line: 2875, col: 13, offset: 90859},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 20, offset: 90795},
+																						pos:        position{line: 2875, col: 20, offset: 90866},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 29, offset: 90804},
+																						pos:        position{line: 2875, col: 29, offset: 90875},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34050,9 +34054,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2882, col: 8, offset: 90964},
+																			pos: position{line: 2885, col: 8, offset: 91035},
 																			expr: &anyMatcher{
-																				line: 2882, col: 9, offset: 90965,
+																				line: 2885, col: 9, offset: 91036,
 																			},
 																		},
 																	},
@@ -34124,10 +34128,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 792, col: 8, offset: 25519},
 																											expr: &actionExpr{
-																												pos: position{line: 2863, col: 10, offset: 90616},
+																												pos: position{line: 2866, col: 10, offset: 90687},
 																												run: (*parser).callonListContinuationElement1046,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2863, col: 10, offset: 90616},
+																													pos:        position{line: 2866, col: 10, offset: 90687},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34136,28 +34140,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2885, col: 8, offset: 91014},
+																											pos: position{line: 2888, col: 8, offset: 91085},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2872, col: 12, offset: 90787},
+																													pos: position{line: 2875, col: 12, offset: 90858},
 																													run: (*parser).callonListContinuationElement1049,
 																													expr: &choiceExpr{
-																														pos: position{line: 2872, col: 13, offset: 90788},
+																														pos: position{line: 2875, col: 13, offset: 90859},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 13, offset: 90788},
+																																pos:        position{line: 2875, col: 13, offset: 90859},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 20, offset: 90795},
+																																pos:        position{line: 2875, col: 20, offset: 90866},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 29, offset: 90804},
+																																pos:        position{line: 2875, col: 29, offset: 90875},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34166,9 +34170,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2882, col: 8, offset: 90964},
+																													pos: position{line: 2885, col: 8, offset: 91035},
 																													expr: &anyMatcher{
-																														line: 2882, col: 9, offset: 90965,
+																														line: 2885, col: 9, offset: 91036,
 																													},
 																												},
 																											},
@@ -34184,9 +34188,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2882, col: 8, offset: 90964},
+																					pos: position{line: 2885, col: 8, offset: 91035},
 																					expr: &anyMatcher{
-																						line: 2882, col: 9, offset: 90965,
+																						line: 2885, col: 9, offset: 91036,
 																					},
 																				},
 																			},
@@ -34202,21 +34206,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26161},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2880, col: 11, offset: 90950},
+																						pos: position{line: 2883, col: 11, offset: 91021},
 																						expr: &anyMatcher{
-																							line: 2880, col: 13, offset: 90952,
+																							line: 2883, col: 13, offset: 91023,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26236},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2809, col: 13, offset: 89142},
+																							pos: position{line: 2812, col: 13, offset: 89213},
 																							run: (*parser).callonListContinuationElement1065,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2809, col: 13, offset: 89142},
+																								pos: position{line: 2812, col: 13, offset: 89213},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2809, col: 13, offset: 89142},
+																									pos:        position{line: 2812, col: 13, offset: 89213},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34226,28 +34230,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2885, col: 8, offset: 91014},
+																						pos: position{line: 2888, col: 8, offset: 91085},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2872, col: 12, offset: 90787},
+																								pos: position{line: 2875, col: 12, offset: 90858},
 																								run: (*parser).callonListContinuationElement1069,
 																								expr: &choiceExpr{
-																									pos: position{line: 2872, col: 13, offset: 90788},
+																									pos: position{line: 2875, col: 13, offset: 90859},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 13, offset: 90788},
+																											pos:        position{line: 2875, col: 13, offset: 90859},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 20, offset: 90795},
+																											pos:        position{line: 2875, col: 20, offset: 90866},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 29, offset: 90804},
+																											pos:        position{line: 2875, col: 29, offset: 90875},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34256,9 +34260,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2882, col: 8, offset: 90964},
+																								pos: position{line: 2885, col: 8, offset: 91035},
 																								expr: &anyMatcher{
-																									line: 2882, col: 9, offset: 90965,
+																									line: 2885, col: 9, offset: 91036,
 																								},
 																							},
 																						},
@@ -34323,10 +34327,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 792, col: 8, offset: 25519},
 																							expr: &actionExpr{
-																								pos: position{line: 2863, col: 10, offset: 90616},
+																								pos: position{line: 2866, col: 10, offset: 90687},
 																								run: (*parser).callonListContinuationElement1090,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2863, col: 10, offset: 90616},
+																									pos:        position{line: 2866, col: 10, offset: 90687},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34335,28 +34339,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2885, col: 8, offset: 91014},
+																							pos: position{line: 2888, col: 8, offset: 91085},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2872, col: 12, offset: 90787},
+																									pos: position{line: 2875, col: 12, offset: 90858},
 																									run: (*parser).callonListContinuationElement1093,
 																									expr: &choiceExpr{
-																										pos: position{line: 2872, col: 13, offset: 90788},
+																										pos: position{line: 2875, col: 13, offset: 90859},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 13, offset: 90788},
+																												pos:        position{line: 2875, col: 13, offset: 90859},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 20, offset: 90795},
+																												pos:        position{line: 2875, col: 20, offset: 90866},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 29, offset: 90804},
+																												pos:        position{line: 2875, col: 29, offset: 90875},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34365,9 +34369,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2882, col: 8, offset: 90964},
+																									pos: position{line: 2885, col: 8, offset: 91035},
 																									expr: &anyMatcher{
-																										line: 2882, col: 9, offset: 90965,
+																										line: 2885, col: 9, offset: 91036,
 																									},
 																								},
 																							},
@@ -34383,9 +34387,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2882, col: 8, offset: 90964},
+																	pos: position{line: 2885, col: 8, offset: 91035},
 																	expr: &anyMatcher{
-																		line: 2882, col: 9, offset: 90965,
+																		line: 2885, col: 9, offset: 91036,
 																	},
 																},
 															},
@@ -34441,10 +34445,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 799, col: 8, offset: 25769},
 																	expr: &actionExpr{
-																		pos: position{line: 2863, col: 10, offset: 90616},
+																		pos: position{line: 2866, col: 10, offset: 90687},
 																		run: (*parser).callonListContinuationElement1115,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2863, col: 10, offset: 90616},
+																			pos:        position{line: 2866, col: 10, offset: 90687},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34453,28 +34457,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2885, col: 8, offset: 91014},
+																	pos: position{line: 2888, col: 8, offset: 91085},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2872, col: 12, offset: 90787},
+																			pos: position{line: 2875, col: 12, offset: 90858},
 																			run: (*parser).callonListContinuationElement1118,
 																			expr: &choiceExpr{
-																				pos: position{line: 2872, col: 13, offset: 90788},
+																				pos: position{line: 2875, col: 13, offset: 90859},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 13, offset: 90788},
+																						pos:        position{line: 2875, col: 13, offset: 90859},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 20, offset: 90795},
+																						pos:        position{line: 2875, col: 20, offset: 90866},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 29, offset: 90804},
+																						pos:        position{line: 2875, col: 29, offset: 90875},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34483,9 +34487,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2882, col: 8, offset: 90964},
+																			pos: position{line: 2885, col: 8, offset: 91035},
 																			expr: &anyMatcher{
-																				line: 2882, col: 9, offset: 90965,
+																				line: 2885, col: 9, offset: 91036,
 																			},
 																		},
 																	},
@@ -34557,10 +34561,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 799, col: 8, offset: 25769},
 																											expr: &actionExpr{
-																												pos: position{line: 2863, col: 10, offset: 90616},
+																												pos: position{line: 2866, col: 10, offset: 90687},
 																												run: (*parser).callonListContinuationElement1143,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2863, col: 10, offset: 90616},
+																													pos:        position{line: 2866, col: 10, offset: 90687},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34569,28 +34573,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2885, col: 8, offset: 91014},
+																											pos: position{line: 2888, col: 8, offset: 91085},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2872, col: 12, offset: 90787},
+																													pos: position{line: 2875, col: 12, offset: 90858},
 																													run: (*parser).callonListContinuationElement1146,
 																													expr: &choiceExpr{
-																														pos: position{line: 2872, col: 13, offset: 90788},
+																														pos: position{line: 2875, col: 13, offset: 90859},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 13, offset: 90788},
+																																pos:        position{line: 2875, col: 13, offset: 90859},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 20, offset: 90795},
+																																pos:        position{line: 2875, col: 20, offset: 90866},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 29, offset: 90804},
+																																pos:        position{line: 2875, col: 29, offset: 90875},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34599,9 +34603,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2882, col: 8, offset: 90964},
+																													pos: position{line: 2885, col: 8, offset: 91035},
 																													expr: &anyMatcher{
-																														line: 2882, col: 9, offset: 90965,
+																														line: 2885, col: 9, offset: 91036,
 																													},
 																												},
 																											},
@@ -34617,9 +34621,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2882, col: 8, offset: 90964},
+																					pos: position{line: 2885, col: 8, offset: 91035},
 																					expr: &anyMatcher{
-																						line: 2882, col: 9, offset: 90965,
+																						line: 2885, col: 9, offset: 91036,
 																					},
 																				},
 																			},
@@ -34635,21 +34639,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26161},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2880, col: 11, offset: 90950},
+																						pos: position{line: 2883, col: 11, offset: 91021},
 																						expr: &anyMatcher{
-																							line: 2880, col: 13, offset: 90952,
+																							line: 2883, col: 13, offset: 91023,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26236},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2809, col: 13, offset: 89142},
+																							pos: position{line: 2812, col: 13, offset: 89213},
 																							run: (*parser).callonListContinuationElement1162,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2809, col: 13, offset: 89142},
+																								pos: position{line: 2812, col: 13, offset: 89213},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2809, col: 13, offset: 89142},
+																									pos:        position{line: 2812, col: 13, offset: 89213},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34659,28 +34663,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2885, col: 8, offset: 91014},
+																						pos: position{line: 2888, col: 8, offset: 91085},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2872, col: 12, offset: 90787},
+																								pos: position{line: 2875, col: 12, offset: 90858},
 																								run: (*parser).callonListContinuationElement1166,
 																								expr: &choiceExpr{
-																									pos: position{line: 2872, col: 13, offset: 90788},
+																									pos: position{line: 2875, col: 13, offset: 90859},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 13, offset: 90788},
+																											pos:        position{line: 2875, col: 13, offset: 90859},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 20, offset: 90795},
+																											pos:        position{line: 2875, col: 20, offset: 90866},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 29, offset: 90804},
+																											pos:        position{line: 2875, col: 29, offset: 90875},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34689,9 +34693,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2882, col: 8, offset: 90964},
+																								pos: position{line: 2885, col: 8, offset: 91035},
 																								expr: &anyMatcher{
-																									line: 2882, col: 9, offset: 90965,
+																									line: 2885, col: 9, offset: 91036,
 																								},
 																							},
 																						},
@@ -34756,10 +34760,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 799, col: 8, offset: 25769},
 																							expr: &actionExpr{
-																								pos: position{line: 2863, col: 10, offset: 90616},
+																								pos: position{line: 2866, col: 10, offset: 90687},
 																								run: (*parser).callonListContinuationElement1187,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2863, col: 10, offset: 90616},
+																									pos:        position{line: 2866, col: 10, offset: 90687},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34768,28 +34772,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2885, col: 8, offset: 91014},
+																							pos: position{line: 2888, col: 8, offset: 91085},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2872, col: 12, offset: 90787},
+																									pos: position{line: 2875, col: 12, offset: 90858},
 																									run: (*parser).callonListContinuationElement1190,
 																									expr: &choiceExpr{
-																										pos: position{line: 2872, col: 13, offset: 90788},
+																										pos: position{line: 2875, col: 13, offset: 90859},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 13, offset: 90788},
+																												pos:        position{line: 2875, col: 13, offset: 90859},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 20, offset: 90795},
+																												pos:        position{line: 2875, col: 20, offset: 90866},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 29, offset: 90804},
+																												pos:        position{line: 2875, col: 29, offset: 90875},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34798,9 +34802,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2882, col: 8, offset: 90964},
+																									pos: position{line: 2885, col: 8, offset: 91035},
 																									expr: &anyMatcher{
-																										line: 2882, col: 9, offset: 90965,
+																										line: 2885, col: 9, offset: 91036,
 																									},
 																								},
 																							},
@@ -34816,9 +34820,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2882, col: 8, offset: 90964},
+																	pos: position{line: 2885, col: 8, offset: 91035},
 																	expr: &anyMatcher{
-																		line: 2882, col: 9, offset: 90965,
+																		line: 2885, col: 9, offset: 91036,
 																	},
 																},
 															},
@@ -34874,10 +34878,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 806, col: 8, offset: 26015},
 																	expr: &actionExpr{
-																		pos: position{line: 2863, col: 10, offset: 90616},
+																		pos: position{line: 2866, col: 10, offset: 90687},
 																		run: (*parser).callonListContinuationElement1212,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2863, col: 10, offset: 90616},
+																			pos:        position{line: 2866, col: 10, offset: 90687},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34886,28 +34890,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2885, col: 8, offset: 91014},
+																	pos: position{line: 2888, col: 8, offset: 91085},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2872, col: 12, offset: 90787},
+																			pos: position{line: 2875, col: 12, offset: 90858},
 																			run: (*parser).callonListContinuationElement1215,
 																			expr: &choiceExpr{
-																				pos: position{line: 2872, col: 13, offset: 90788},
+																				pos: position{line: 2875, col: 13, offset: 90859},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 13, offset: 90788},
+																						pos:        position{line: 2875, col: 13, offset: 90859},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 20, offset: 90795},
+																						pos:        position{line: 2875, col: 20, offset: 90866},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 29, offset: 90804},
+																						pos:        position{line: 2875, col: 29, offset: 90875},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34916,9 +34920,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2882, col: 8, offset: 90964},
+																			pos: position{line: 2885, col: 8, offset: 91035},
 																			expr: &anyMatcher{
-																				line: 2882, col: 9, offset: 90965,
+																				line: 2885, col: 9, offset: 91036,
 																			},
 																		},
 																	},
@@ -34990,10 +34994,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 806, col: 8, offset: 26015},
 																											expr: &actionExpr{
-																												pos: position{line: 2863, col: 10, offset: 90616},
+																												pos: position{line: 2866, col: 10, offset: 90687},
 																												run: (*parser).callonListContinuationElement1240,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2863, col: 10, offset: 90616},
+																													pos:        position{line: 2866, col: 10, offset: 90687},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35002,28 +35006,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2885, col: 8, offset: 91014},
+																											pos: position{line: 2888, col: 8, offset: 91085},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2872, col: 12, offset: 90787},
+																													pos: position{line: 2875, col: 12, offset: 90858},
 																													run: (*parser).callonListContinuationElement1243,
 																													expr: &choiceExpr{
-																														pos: position{line: 2872, col: 13, offset: 90788},
+																														pos: position{line: 2875, col: 13, offset: 90859},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 13, offset: 90788},
+																																pos:        position{line: 2875, col: 13, offset: 90859},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 20, offset: 90795},
+																																pos:        position{line: 2875, col: 20, offset: 90866},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 29, offset: 90804},
+																																pos:        position{line: 2875, col: 29, offset: 90875},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35032,9 +35036,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2882, col: 8, offset: 90964},
+																													pos: position{line: 2885, col: 8, offset: 91035},
 																													expr: &anyMatcher{
-																														line: 2882, col: 9, offset: 90965,
+																														line: 2885, col: 9, offset: 91036,
 																													},
 																												},
 																											},
@@ -35050,9 +35054,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2882, col: 8, offset: 90964},
+																					pos: position{line: 2885, col: 8, offset: 91035},
 																					expr: &anyMatcher{
-																						line: 2882, col: 9, offset: 90965,
+																						line: 2885, col: 9, offset: 91036,
 																					},
 																				},
 																			},
@@ -35068,21 +35072,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26161},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2880, col: 11, offset: 90950},
+																						pos: position{line: 2883, col: 11, offset: 91021},
 																						expr: &anyMatcher{
-																							line: 2880, col: 13, offset: 90952,
+																							line: 2883, col: 13, offset: 91023,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26236},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2809, col: 13, offset: 89142},
+																							pos: position{line: 2812, col: 13, offset: 89213},
 																							run: (*parser).callonListContinuationElement1259,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2809, col: 13, offset: 89142},
+																								pos: position{line: 2812, col: 13, offset: 89213},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2809, col: 13, offset: 89142},
+																									pos:        position{line: 2812, col: 13, offset: 89213},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35092,28 +35096,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2885, col: 8, offset: 91014},
+																						pos: position{line: 2888, col: 8, offset: 91085},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2872, col: 12, offset: 90787},
+																								pos: position{line: 2875, col: 12, offset: 90858},
 																								run: (*parser).callonListContinuationElement1263,
 																								expr: &choiceExpr{
-																									pos: position{line: 2872, col: 13, offset: 90788},
+																									pos: position{line: 2875, col: 13, offset: 90859},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 13, offset: 90788},
+																											pos:        position{line: 2875, col: 13, offset: 90859},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 20, offset: 90795},
+																											pos:        position{line: 2875, col: 20, offset: 90866},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 29, offset: 90804},
+																											pos:        position{line: 2875, col: 29, offset: 90875},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35122,9 +35126,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2882, col: 8, offset: 90964},
+																								pos: position{line: 2885, col: 8, offset: 91035},
 																								expr: &anyMatcher{
-																									line: 2882, col: 9, offset: 90965,
+																									line: 2885, col: 9, offset: 91036,
 																								},
 																							},
 																						},
@@ -35189,10 +35193,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 806, col: 8, offset: 26015},
 																							expr: &actionExpr{
-																								pos: position{line: 2863, col: 10, offset: 90616},
+																								pos: position{line: 2866, col: 10, offset: 90687},
 																								run: (*parser).callonListContinuationElement1284,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2863, col: 10, offset: 90616},
+																									pos:        position{line: 2866, col: 10, offset: 90687},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35201,28 +35205,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2885, col: 8, offset: 91014},
+																							pos: position{line: 2888, col: 8, offset: 91085},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2872, col: 12, offset: 90787},
+																									pos: position{line: 2875, col: 12, offset: 90858},
 																									run: (*parser).callonListContinuationElement1287,
 																									expr: &choiceExpr{
-																										pos: position{line: 2872, col: 13, offset: 90788},
+																										pos: position{line: 2875, col: 13, offset: 90859},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 13, offset: 90788},
+																												pos:        position{line: 2875, col: 13, offset: 90859},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 20, offset: 90795},
+																												pos:        position{line: 2875, col: 20, offset: 90866},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2872, col: 29, offset: 90804},
+																												pos:        position{line: 2875, col: 29, offset: 90875},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35231,9 +35235,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2882, col: 8, offset: 90964},
+																									pos: position{line: 2885, col: 8, offset: 91035},
 																									expr: &anyMatcher{
-																										line: 2882, col: 9, offset: 90965,
+																										line: 2885, col: 9, offset: 91036,
 																									},
 																								},
 																							},
@@ -35249,9 +35253,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2882, col: 8, offset: 90964},
+																	pos: position{line: 2885, col: 8, offset: 91035},
 																	expr: &anyMatcher{
-																		line: 2882, col: 9, offset: 90965,
+																		line: 2885, col: 9, offset: 91036,
 																	},
 																},
 															},
@@ -35262,52 +35266,52 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2708, col: 18, offset: 86211},
+										pos: position{line: 2711, col: 18, offset: 86282},
 										run: (*parser).callonListContinuationElement1297,
 										expr: &seqExpr{
-											pos: position{line: 2708, col: 18, offset: 86211},
+											pos: position{line: 2711, col: 18, offset: 86282},
 											exprs: []interface{}{
 												&choiceExpr{
-													pos: position{line: 2709, col: 9, offset: 86221},
+													pos: position{line: 2712, col: 9, offset: 86292},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2709, col: 9, offset: 86221},
+															pos:        position{line: 2712, col: 9, offset: 86292},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2710, col: 11, offset: 86257},
+															pos:        position{line: 2713, col: 11, offset: 86328},
 															val:        "***",
 															ignoreCase: false,
 															want:       "\"***\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2710, col: 19, offset: 86265},
+															pos:        position{line: 2713, col: 19, offset: 86336},
 															val:        "* * *",
 															ignoreCase: false,
 															want:       "\"* * *\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2710, col: 29, offset: 86275},
+															pos:        position{line: 2713, col: 29, offset: 86346},
 															val:        "---",
 															ignoreCase: false,
 															want:       "\"---\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2710, col: 37, offset: 86283},
+															pos:        position{line: 2713, col: 37, offset: 86354},
 															val:        "- - -",
 															ignoreCase: false,
 															want:       "\"- - -\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2710, col: 47, offset: 86293},
+															pos:        position{line: 2713, col: 47, offset: 86364},
 															val:        "___",
 															ignoreCase: false,
 															want:       "\"___\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2710, col: 55, offset: 86301},
+															pos:        position{line: 2713, col: 55, offset: 86372},
 															val:        "_ _ _",
 															ignoreCase: false,
 															want:       "\"_ _ _\"",
@@ -35315,12 +35319,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2711, col: 11, offset: 86347},
+													pos: position{line: 2714, col: 11, offset: 86418},
 													expr: &actionExpr{
-														pos: position{line: 2863, col: 10, offset: 90616},
+														pos: position{line: 2866, col: 10, offset: 90687},
 														run: (*parser).callonListContinuationElement1308,
 														expr: &charClassMatcher{
-															pos:        position{line: 2863, col: 10, offset: 90616},
+															pos:        position{line: 2866, col: 10, offset: 90687},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35329,28 +35333,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2885, col: 8, offset: 91014},
+													pos: position{line: 2888, col: 8, offset: 91085},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2872, col: 12, offset: 90787},
+															pos: position{line: 2875, col: 12, offset: 90858},
 															run: (*parser).callonListContinuationElement1311,
 															expr: &choiceExpr{
-																pos: position{line: 2872, col: 13, offset: 90788},
+																pos: position{line: 2875, col: 13, offset: 90859},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2872, col: 13, offset: 90788},
+																		pos:        position{line: 2875, col: 13, offset: 90859},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2872, col: 20, offset: 90795},
+																		pos:        position{line: 2875, col: 20, offset: 90866},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2872, col: 29, offset: 90804},
+																		pos:        position{line: 2875, col: 29, offset: 90875},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35359,20 +35363,20 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2882, col: 8, offset: 90964},
+															pos: position{line: 2885, col: 8, offset: 91035},
 															expr: &anyMatcher{
-																line: 2882, col: 9, offset: 90965,
+																line: 2885, col: 9, offset: 91036,
 															},
 														},
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2711, col: 22, offset: 86358},
+													pos: position{line: 2714, col: 22, offset: 86429},
 													expr: &actionExpr{
-														pos: position{line: 2863, col: 10, offset: 90616},
+														pos: position{line: 2866, col: 10, offset: 90687},
 														run: (*parser).callonListContinuationElement1319,
 														expr: &charClassMatcher{
-															pos:        position{line: 2863, col: 10, offset: 90616},
+															pos:        position{line: 2866, col: 10, offset: 90687},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35381,28 +35385,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2885, col: 8, offset: 91014},
+													pos: position{line: 2888, col: 8, offset: 91085},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2872, col: 12, offset: 90787},
+															pos: position{line: 2875, col: 12, offset: 90858},
 															run: (*parser).callonListContinuationElement1322,
 															expr: &choiceExpr{
-																pos: position{line: 2872, col: 13, offset: 90788},
+																pos: position{line: 2875, col: 13, offset: 90859},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2872, col: 13, offset: 90788},
+																		pos:        position{line: 2875, col: 13, offset: 90859},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2872, col: 20, offset: 90795},
+																		pos:        position{line: 2875, col: 20, offset: 90866},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2872, col: 29, offset: 90804},
+																		pos:        position{line: 2875, col: 29, offset: 90875},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35411,9 +35415,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2882, col: 8, offset: 90964},
+															pos: position{line: 2885, col: 8, offset: 91035},
 															expr: &anyMatcher{
-																line: 2882, col: 9, offset: 90965,
+																line: 2885, col: 9, offset: 91036,
 															},
 														},
 													},
@@ -35426,24 +35430,24 @@ var g = &grammar{
 										name: "ImageBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2599, col: 5, offset: 83147},
+										pos: position{line: 2602, col: 5, offset: 83218},
 										run: (*parser).callonListContinuationElement1330,
 										expr: &seqExpr{
-											pos: position{line: 2599, col: 5, offset: 83147},
+											pos: position{line: 2602, col: 5, offset: 83218},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2605, col: 19, offset: 83304},
+													pos:        position{line: 2608, col: 19, offset: 83375},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2605, col: 26, offset: 83311},
+													pos: position{line: 2608, col: 26, offset: 83382},
 													expr: &actionExpr{
-														pos: position{line: 2863, col: 10, offset: 90616},
+														pos: position{line: 2866, col: 10, offset: 90687},
 														run: (*parser).callonListContinuationElement1334,
 														expr: &charClassMatcher{
-															pos:        position{line: 2863, col: 10, offset: 90616},
+															pos:        position{line: 2866, col: 10, offset: 90687},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35452,28 +35456,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2885, col: 8, offset: 91014},
+													pos: position{line: 2888, col: 8, offset: 91085},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2872, col: 12, offset: 90787},
+															pos: position{line: 2875, col: 12, offset: 90858},
 															run: (*parser).callonListContinuationElement1337,
 															expr: &choiceExpr{
-																pos: position{line: 2872, col: 13, offset: 90788},
+																pos: position{line: 2875, col: 13, offset: 90859},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2872, col: 13, offset: 90788},
+																		pos:        position{line: 2875, col: 13, offset: 90859},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2872, col: 20, offset: 90795},
+																		pos:        position{line: 2875, col: 20, offset: 90866},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2872, col: 29, offset: 90804},
+																		pos:        position{line: 2875, col: 29, offset: 90875},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35482,20 +35486,20 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2882, col: 8, offset: 90964},
+															pos: position{line: 2885, col: 8, offset: 91035},
 															expr: &anyMatcher{
-																line: 2882, col: 9, offset: 90965,
+																line: 2885, col: 9, offset: 91036,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2600, col: 5, offset: 83171},
+													pos:   position{line: 2603, col: 5, offset: 83242},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2600, col: 11, offset: 83177},
+														pos: position{line: 2603, col: 11, offset: 83248},
 														expr: &choiceExpr{
-															pos: position{line: 2600, col: 12, offset: 83178},
+															pos: position{line: 2603, col: 12, offset: 83249},
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 677, col: 14, offset: 21557},
@@ -35504,18 +35508,18 @@ var g = &grammar{
 																		pos: position{line: 677, col: 14, offset: 21557},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2880, col: 11, offset: 90950},
+																				pos: position{line: 2883, col: 11, offset: 91021},
 																				expr: &anyMatcher{
-																					line: 2880, col: 13, offset: 90952,
+																					line: 2883, col: 13, offset: 91023,
 																				},
 																			},
 																			&zeroOrMoreExpr{
 																				pos: position{line: 677, col: 21, offset: 21564},
 																				expr: &actionExpr{
-																					pos: position{line: 2863, col: 10, offset: 90616},
+																					pos: position{line: 2866, col: 10, offset: 90687},
 																					run: (*parser).callonListContinuationElement1352,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2863, col: 10, offset: 90616},
+																						pos:        position{line: 2866, col: 10, offset: 90687},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -35524,28 +35528,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2885, col: 8, offset: 91014},
+																				pos: position{line: 2888, col: 8, offset: 91085},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2872, col: 12, offset: 90787},
+																						pos: position{line: 2875, col: 12, offset: 90858},
 																						run: (*parser).callonListContinuationElement1355,
 																						expr: &choiceExpr{
-																							pos: position{line: 2872, col: 13, offset: 90788},
+																							pos: position{line: 2875, col: 13, offset: 90859},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2872, col: 13, offset: 90788},
+																									pos:        position{line: 2875, col: 13, offset: 90859},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2872, col: 20, offset: 90795},
+																									pos:        position{line: 2875, col: 20, offset: 90866},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2872, col: 29, offset: 90804},
+																									pos:        position{line: 2875, col: 29, offset: 90875},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35554,9 +35558,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2882, col: 8, offset: 90964},
+																						pos: position{line: 2885, col: 8, offset: 91035},
 																						expr: &anyMatcher{
-																							line: 2882, col: 9, offset: 90965,
+																							line: 2885, col: 9, offset: 91036,
 																						},
 																					},
 																				},
@@ -35565,32 +35569,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2612, col: 5, offset: 83423},
+																	pos: position{line: 2615, col: 5, offset: 83494},
 																	run: (*parser).callonListContinuationElement1362,
 																	expr: &seqExpr{
-																		pos: position{line: 2612, col: 5, offset: 83423},
+																		pos: position{line: 2615, col: 5, offset: 83494},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2612, col: 5, offset: 83423},
+																				pos: position{line: 2615, col: 5, offset: 83494},
 																				expr: &choiceExpr{
-																					pos: position{line: 2609, col: 22, offset: 83384},
+																					pos: position{line: 2612, col: 22, offset: 83455},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2605, col: 19, offset: 83304},
+																							pos: position{line: 2608, col: 19, offset: 83375},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2605, col: 19, offset: 83304},
+																									pos:        position{line: 2608, col: 19, offset: 83375},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2605, col: 26, offset: 83311},
+																									pos: position{line: 2608, col: 26, offset: 83382},
 																									expr: &actionExpr{
-																										pos: position{line: 2863, col: 10, offset: 90616},
+																										pos: position{line: 2866, col: 10, offset: 90687},
 																										run: (*parser).callonListContinuationElement1369,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2863, col: 10, offset: 90616},
+																											pos:        position{line: 2866, col: 10, offset: 90687},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -35599,28 +35603,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2885, col: 8, offset: 91014},
+																									pos: position{line: 2888, col: 8, offset: 91085},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2872, col: 12, offset: 90787},
+																											pos: position{line: 2875, col: 12, offset: 90858},
 																											run: (*parser).callonListContinuationElement1372,
 																											expr: &choiceExpr{
-																												pos: position{line: 2872, col: 13, offset: 90788},
+																												pos: position{line: 2875, col: 13, offset: 90859},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2872, col: 13, offset: 90788},
+																														pos:        position{line: 2875, col: 13, offset: 90859},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2872, col: 20, offset: 90795},
+																														pos:        position{line: 2875, col: 20, offset: 90866},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2872, col: 29, offset: 90804},
+																														pos:        position{line: 2875, col: 29, offset: 90875},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -35629,9 +35633,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2882, col: 8, offset: 90964},
+																											pos: position{line: 2885, col: 8, offset: 91035},
 																											expr: &anyMatcher{
-																												line: 2882, col: 9, offset: 90965,
+																												line: 2885, col: 9, offset: 91036,
 																											},
 																										},
 																									},
@@ -35639,59 +35643,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2882, col: 8, offset: 90964},
+																							pos: position{line: 2885, col: 8, offset: 91035},
 																							expr: &anyMatcher{
-																								line: 2882, col: 9, offset: 90965,
+																								line: 2885, col: 9, offset: 91036,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2613, col: 5, offset: 83446},
+																				pos:   position{line: 2616, col: 5, offset: 83517},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2614, col: 9, offset: 83464},
+																					pos: position{line: 2617, col: 9, offset: 83535},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2614, col: 10, offset: 83465},
+																							pos: position{line: 2617, col: 10, offset: 83536},
 																							run: (*parser).callonListContinuationElement1383,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2614, col: 10, offset: 83465},
+																								pos:   position{line: 2617, col: 10, offset: 83536},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2614, col: 17, offset: 83472},
+																									pos: position{line: 2617, col: 17, offset: 83543},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2622, col: 21, offset: 83668},
+																											pos: position{line: 2625, col: 21, offset: 83739},
 																											run: (*parser).callonListContinuationElement1386,
 																											expr: &seqExpr{
-																												pos: position{line: 2622, col: 21, offset: 83668},
+																												pos: position{line: 2625, col: 21, offset: 83739},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2622, col: 21, offset: 83668},
+																														pos:   position{line: 2625, col: 21, offset: 83739},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2622, col: 27, offset: 83674},
+																															pos: position{line: 2625, col: 27, offset: 83745},
 																															expr: &actionExpr{
-																																pos: position{line: 2627, col: 5, offset: 83749},
+																																pos: position{line: 2630, col: 5, offset: 83820},
 																																run: (*parser).callonListContinuationElement1390,
 																																expr: &seqExpr{
-																																	pos: position{line: 2627, col: 5, offset: 83749},
+																																	pos: position{line: 2630, col: 5, offset: 83820},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2627, col: 5, offset: 83749},
+																																			pos:        position{line: 2630, col: 5, offset: 83820},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2627, col: 9, offset: 83753},
+																																			pos: position{line: 2630, col: 9, offset: 83824},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2863, col: 10, offset: 90616},
+																																				pos: position{line: 2866, col: 10, offset: 90687},
 																																				run: (*parser).callonListContinuationElement1394,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2863, col: 10, offset: 90616},
+																																					pos:        position{line: 2866, col: 10, offset: 90687},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -35700,21 +35704,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2627, col: 16, offset: 83760},
+																																			pos:   position{line: 2630, col: 16, offset: 83831},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2633, col: 5, offset: 83960},
+																																				pos: position{line: 2636, col: 5, offset: 84031},
 																																				run: (*parser).callonListContinuationElement1397,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2633, col: 5, offset: 83960},
+																																					pos:   position{line: 2636, col: 5, offset: 84031},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2633, col: 14, offset: 83969},
+																																						pos: position{line: 2636, col: 14, offset: 84040},
 																																						run: (*parser).callonListContinuationElement1399,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2633, col: 14, offset: 83969},
+																																							pos: position{line: 2636, col: 14, offset: 84040},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2633, col: 14, offset: 83969},
+																																								pos:        position{line: 2636, col: 14, offset: 84040},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -35731,28 +35735,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2885, col: 8, offset: 91014},
+																														pos: position{line: 2888, col: 8, offset: 91085},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2872, col: 12, offset: 90787},
+																																pos: position{line: 2875, col: 12, offset: 90858},
 																																run: (*parser).callonListContinuationElement1403,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2872, col: 13, offset: 90788},
+																																	pos: position{line: 2875, col: 13, offset: 90859},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2872, col: 13, offset: 90788},
+																																			pos:        position{line: 2875, col: 13, offset: 90859},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2872, col: 20, offset: 90795},
+																																			pos:        position{line: 2875, col: 20, offset: 90866},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2872, col: 29, offset: 90804},
+																																			pos:        position{line: 2875, col: 29, offset: 90875},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -35761,9 +35765,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2882, col: 8, offset: 90964},
+																																pos: position{line: 2885, col: 8, offset: 91035},
 																																expr: &anyMatcher{
-																																	line: 2882, col: 9, offset: 90965,
+																																	line: 2885, col: 9, offset: 91036,
 																																},
 																															},
 																														},
@@ -35772,40 +35776,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2639, col: 24, offset: 84105},
+																											pos: position{line: 2642, col: 24, offset: 84176},
 																											run: (*parser).callonListContinuationElement1410,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2639, col: 24, offset: 84105},
+																												pos:   position{line: 2642, col: 24, offset: 84176},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2639, col: 30, offset: 84111},
+																													pos: position{line: 2642, col: 30, offset: 84182},
 																													expr: &actionExpr{
-																														pos: position{line: 2644, col: 5, offset: 84187},
+																														pos: position{line: 2647, col: 5, offset: 84258},
 																														run: (*parser).callonListContinuationElement1413,
 																														expr: &seqExpr{
-																															pos: position{line: 2644, col: 5, offset: 84187},
+																															pos: position{line: 2647, col: 5, offset: 84258},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2644, col: 5, offset: 84187},
+																																	pos: position{line: 2647, col: 5, offset: 84258},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2609, col: 22, offset: 83384},
+																																		pos: position{line: 2612, col: 22, offset: 83455},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2605, col: 19, offset: 83304},
+																																				pos: position{line: 2608, col: 19, offset: 83375},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2605, col: 19, offset: 83304},
+																																						pos:        position{line: 2608, col: 19, offset: 83375},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2605, col: 26, offset: 83311},
+																																						pos: position{line: 2608, col: 26, offset: 83382},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2863, col: 10, offset: 90616},
+																																							pos: position{line: 2866, col: 10, offset: 90687},
 																																							run: (*parser).callonListContinuationElement1420,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2863, col: 10, offset: 90616},
+																																								pos:        position{line: 2866, col: 10, offset: 90687},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -35814,28 +35818,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2885, col: 8, offset: 91014},
+																																						pos: position{line: 2888, col: 8, offset: 91085},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2872, col: 12, offset: 90787},
+																																								pos: position{line: 2875, col: 12, offset: 90858},
 																																								run: (*parser).callonListContinuationElement1423,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2872, col: 13, offset: 90788},
+																																									pos: position{line: 2875, col: 13, offset: 90859},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2872, col: 13, offset: 90788},
+																																											pos:        position{line: 2875, col: 13, offset: 90859},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2872, col: 20, offset: 90795},
+																																											pos:        position{line: 2875, col: 20, offset: 90866},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2872, col: 29, offset: 90804},
+																																											pos:        position{line: 2875, col: 29, offset: 90875},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -35844,9 +35848,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2882, col: 8, offset: 90964},
+																																								pos: position{line: 2885, col: 8, offset: 91035},
 																																								expr: &anyMatcher{
-																																									line: 2882, col: 9, offset: 90965,
+																																									line: 2885, col: 9, offset: 91036,
 																																								},
 																																							},
 																																						},
@@ -35854,16 +35858,16 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2882, col: 8, offset: 90964},
+																																				pos: position{line: 2885, col: 8, offset: 91035},
 																																				expr: &anyMatcher{
-																																					line: 2882, col: 9, offset: 90965,
+																																					line: 2885, col: 9, offset: 91036,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2645, col: 5, offset: 84210},
+																																	pos: position{line: 2648, col: 5, offset: 84281},
 																																	expr: &actionExpr{
 																																		pos: position{line: 677, col: 14, offset: 21557},
 																																		run: (*parser).callonListContinuationElement1433,
@@ -35871,18 +35875,18 @@ var g = &grammar{
 																																			pos: position{line: 677, col: 14, offset: 21557},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2880, col: 11, offset: 90950},
+																																					pos: position{line: 2883, col: 11, offset: 91021},
 																																					expr: &anyMatcher{
-																																						line: 2880, col: 13, offset: 90952,
+																																						line: 2883, col: 13, offset: 91023,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
 																																					pos: position{line: 677, col: 21, offset: 21564},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2863, col: 10, offset: 90616},
+																																						pos: position{line: 2866, col: 10, offset: 90687},
 																																						run: (*parser).callonListContinuationElement1438,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2863, col: 10, offset: 90616},
+																																							pos:        position{line: 2866, col: 10, offset: 90687},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -35891,28 +35895,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2885, col: 8, offset: 91014},
+																																					pos: position{line: 2888, col: 8, offset: 91085},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2872, col: 12, offset: 90787},
+																																							pos: position{line: 2875, col: 12, offset: 90858},
 																																							run: (*parser).callonListContinuationElement1441,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2872, col: 13, offset: 90788},
+																																								pos: position{line: 2875, col: 13, offset: 90859},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2872, col: 13, offset: 90788},
+																																										pos:        position{line: 2875, col: 13, offset: 90859},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2872, col: 20, offset: 90795},
+																																										pos:        position{line: 2875, col: 20, offset: 90866},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2872, col: 29, offset: 90804},
+																																										pos:        position{line: 2875, col: 29, offset: 90875},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -35921,9 +35925,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2882, col: 8, offset: 90964},
+																																							pos: position{line: 2885, col: 8, offset: 91035},
 																																							expr: &anyMatcher{
-																																								line: 2882, col: 9, offset: 90965,
+																																								line: 2885, col: 9, offset: 91036,
 																																							},
 																																						},
 																																					},
@@ -35933,17 +35937,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2646, col: 5, offset: 84225},
+																																	pos:   position{line: 2649, col: 5, offset: 84296},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2646, col: 12, offset: 84232},
+																																		pos: position{line: 2649, col: 12, offset: 84303},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2663, col: 20, offset: 84696},
+																																			pos: position{line: 2666, col: 20, offset: 84767},
 																																			run: (*parser).callonListContinuationElement1450,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2663, col: 20, offset: 84696},
+																																				pos: position{line: 2666, col: 20, offset: 84767},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2663, col: 20, offset: 84696},
+																																					pos:        position{line: 2666, col: 20, offset: 84767},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -35954,18 +35958,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2646, col: 31, offset: 84251},
+																																	pos:        position{line: 2649, col: 31, offset: 84322},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2646, col: 35, offset: 84255},
+																																	pos: position{line: 2649, col: 35, offset: 84326},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2863, col: 10, offset: 90616},
+																																		pos: position{line: 2866, col: 10, offset: 90687},
 																																		run: (*parser).callonListContinuationElement1455,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2863, col: 10, offset: 90616},
+																																			pos:        position{line: 2866, col: 10, offset: 90687},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -35974,27 +35978,27 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2646, col: 42, offset: 84262},
+																																	pos: position{line: 2649, col: 42, offset: 84333},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2872, col: 12, offset: 90787},
+																																		pos: position{line: 2875, col: 12, offset: 90858},
 																																		run: (*parser).callonListContinuationElement1458,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2872, col: 13, offset: 90788},
+																																			pos: position{line: 2875, col: 13, offset: 90859},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2872, col: 13, offset: 90788},
+																																					pos:        position{line: 2875, col: 13, offset: 90859},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2872, col: 20, offset: 90795},
+																																					pos:        position{line: 2875, col: 20, offset: 90866},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2872, col: 29, offset: 90804},
+																																					pos:        position{line: 2875, col: 29, offset: 90875},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -36004,37 +36008,37 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2646, col: 51, offset: 84271},
+																																	pos:   position{line: 2649, col: 51, offset: 84342},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2652, col: 5, offset: 84430},
+																																		pos: position{line: 2655, col: 5, offset: 84501},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2653, col: 9, offset: 84440},
+																																			pos: position{line: 2656, col: 9, offset: 84511},
 																																			run: (*parser).callonListContinuationElement1465,
 																																			expr: &seqExpr{
-																																				pos: position{line: 2653, col: 9, offset: 84440},
+																																				pos: position{line: 2656, col: 9, offset: 84511},
 																																				exprs: []interface{}{
 																																					&notExpr{
-																																						pos: position{line: 2653, col: 9, offset: 84440},
+																																						pos: position{line: 2656, col: 9, offset: 84511},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2609, col: 22, offset: 83384},
+																																							pos: position{line: 2612, col: 22, offset: 83455},
 																																							alternatives: []interface{}{
 																																								&seqExpr{
-																																									pos: position{line: 2605, col: 19, offset: 83304},
+																																									pos: position{line: 2608, col: 19, offset: 83375},
 																																									exprs: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2605, col: 19, offset: 83304},
+																																											pos:        position{line: 2608, col: 19, offset: 83375},
 																																											val:        "|===",
 																																											ignoreCase: false,
 																																											want:       "\"|===\"",
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 2605, col: 26, offset: 83311},
+																																											pos: position{line: 2608, col: 26, offset: 83382},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2863, col: 10, offset: 90616},
+																																												pos: position{line: 2866, col: 10, offset: 90687},
 																																												run: (*parser).callonListContinuationElement1472,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2863, col: 10, offset: 90616},
+																																													pos:        position{line: 2866, col: 10, offset: 90687},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -36043,28 +36047,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2885, col: 8, offset: 91014},
+																																											pos: position{line: 2888, col: 8, offset: 91085},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2872, col: 12, offset: 90787},
+																																													pos: position{line: 2875, col: 12, offset: 90858},
 																																													run: (*parser).callonListContinuationElement1475,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2872, col: 13, offset: 90788},
+																																														pos: position{line: 2875, col: 13, offset: 90859},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2872, col: 13, offset: 90788},
+																																																pos:        position{line: 2875, col: 13, offset: 90859},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2872, col: 20, offset: 90795},
+																																																pos:        position{line: 2875, col: 20, offset: 90866},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2872, col: 29, offset: 90804},
+																																																pos:        position{line: 2875, col: 29, offset: 90875},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -36073,9 +36077,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2882, col: 8, offset: 90964},
+																																													pos: position{line: 2885, col: 8, offset: 91035},
 																																													expr: &anyMatcher{
-																																														line: 2882, col: 9, offset: 90965,
+																																														line: 2885, col: 9, offset: 91036,
 																																													},
 																																												},
 																																											},
@@ -36083,16 +36087,16 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2882, col: 8, offset: 90964},
+																																									pos: position{line: 2885, col: 8, offset: 91035},
 																																									expr: &anyMatcher{
-																																										line: 2882, col: 9, offset: 90965,
+																																										line: 2885, col: 9, offset: 91036,
 																																									},
 																																								},
 																																							},
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2654, col: 9, offset: 84467},
+																																						pos: position{line: 2657, col: 9, offset: 84538},
 																																						expr: &actionExpr{
 																																							pos: position{line: 677, col: 14, offset: 21557},
 																																							run: (*parser).callonListContinuationElement1485,
@@ -36100,18 +36104,18 @@ var g = &grammar{
 																																								pos: position{line: 677, col: 14, offset: 21557},
 																																								exprs: []interface{}{
 																																									&andExpr{
-																																										pos: position{line: 2880, col: 11, offset: 90950},
+																																										pos: position{line: 2883, col: 11, offset: 91021},
 																																										expr: &anyMatcher{
-																																											line: 2880, col: 13, offset: 90952,
+																																											line: 2883, col: 13, offset: 91023,
 																																										},
 																																									},
 																																									&zeroOrMoreExpr{
 																																										pos: position{line: 677, col: 21, offset: 21564},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2863, col: 10, offset: 90616},
+																																											pos: position{line: 2866, col: 10, offset: 90687},
 																																											run: (*parser).callonListContinuationElement1490,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2863, col: 10, offset: 90616},
+																																												pos:        position{line: 2866, col: 10, offset: 90687},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -36120,28 +36124,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2885, col: 8, offset: 91014},
+																																										pos: position{line: 2888, col: 8, offset: 91085},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2872, col: 12, offset: 90787},
+																																												pos: position{line: 2875, col: 12, offset: 90858},
 																																												run: (*parser).callonListContinuationElement1493,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2872, col: 13, offset: 90788},
+																																													pos: position{line: 2875, col: 13, offset: 90859},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2872, col: 13, offset: 90788},
+																																															pos:        position{line: 2875, col: 13, offset: 90859},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2872, col: 20, offset: 90795},
+																																															pos:        position{line: 2875, col: 20, offset: 90866},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2872, col: 29, offset: 90804},
+																																															pos:        position{line: 2875, col: 29, offset: 90875},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -36150,9 +36154,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2882, col: 8, offset: 90964},
+																																												pos: position{line: 2885, col: 8, offset: 91035},
 																																												expr: &anyMatcher{
-																																													line: 2882, col: 9, offset: 90965,
+																																													line: 2885, col: 9, offset: 91036,
 																																												},
 																																											},
 																																										},
@@ -36162,22 +36166,22 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2655, col: 9, offset: 84486},
+																																						pos: position{line: 2658, col: 9, offset: 84557},
 																																						expr: &seqExpr{
-																																							pos: position{line: 2655, col: 11, offset: 84488},
+																																							pos: position{line: 2658, col: 11, offset: 84559},
 																																							exprs: []interface{}{
 																																								&labeledExpr{
-																																									pos:   position{line: 2655, col: 11, offset: 84488},
+																																									pos:   position{line: 2658, col: 11, offset: 84559},
 																																									label: "format",
 																																									expr: &zeroOrOneExpr{
-																																										pos: position{line: 2655, col: 18, offset: 84495},
+																																										pos: position{line: 2658, col: 18, offset: 84566},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2663, col: 20, offset: 84696},
+																																											pos: position{line: 2666, col: 20, offset: 84767},
 																																											run: (*parser).callonListContinuationElement1504,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2663, col: 20, offset: 84696},
+																																												pos: position{line: 2666, col: 20, offset: 84767},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2663, col: 20, offset: 84696},
+																																													pos:        position{line: 2666, col: 20, offset: 84767},
 																																													val:        "[^ |\\r\\n]",
 																																													chars:      []rune{' ', '|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -36188,7 +36192,7 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&litMatcher{
-																																									pos:        position{line: 2655, col: 37, offset: 84514},
+																																									pos:        position{line: 2658, col: 37, offset: 84585},
 																																									val:        "|",
 																																									ignoreCase: false,
 																																									want:       "\"|\"",
@@ -36197,15 +36201,15 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2656, col: 9, offset: 84527},
+																																						pos:   position{line: 2659, col: 9, offset: 84598},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2656, col: 18, offset: 84536},
+																																							pos: position{line: 2659, col: 18, offset: 84607},
 																																							run: (*parser).callonListContinuationElement1509,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2656, col: 18, offset: 84536},
+																																								pos: position{line: 2659, col: 18, offset: 84607},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2656, col: 18, offset: 84536},
+																																									pos:        position{line: 2659, col: 18, offset: 84607},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -36215,30 +36219,30 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&zeroOrOneExpr{
-																																						pos: position{line: 2658, col: 12, offset: 84598},
+																																						pos: position{line: 2661, col: 12, offset: 84669},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2885, col: 8, offset: 91014},
+																																							pos: position{line: 2888, col: 8, offset: 91085},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2872, col: 12, offset: 90787},
+																																									pos: position{line: 2875, col: 12, offset: 90858},
 																																									run: (*parser).callonListContinuationElement1514,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2872, col: 13, offset: 90788},
+																																										pos: position{line: 2875, col: 13, offset: 90859},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2872, col: 13, offset: 90788},
+																																												pos:        position{line: 2875, col: 13, offset: 90859},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2872, col: 20, offset: 90795},
+																																												pos:        position{line: 2875, col: 20, offset: 90866},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2872, col: 29, offset: 90804},
+																																												pos:        position{line: 2875, col: 29, offset: 90875},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -36247,9 +36251,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2882, col: 8, offset: 90964},
+																																									pos: position{line: 2885, col: 8, offset: 91035},
 																																									expr: &anyMatcher{
-																																										line: 2882, col: 9, offset: 90965,
+																																										line: 2885, col: 9, offset: 91036,
 																																									},
 																																								},
 																																							},
@@ -36277,18 +36281,18 @@ var g = &grammar{
 																								pos: position{line: 677, col: 14, offset: 21557},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2880, col: 11, offset: 90950},
+																										pos: position{line: 2883, col: 11, offset: 91021},
 																										expr: &anyMatcher{
-																											line: 2880, col: 13, offset: 90952,
+																											line: 2883, col: 13, offset: 91023,
 																										},
 																									},
 																									&zeroOrMoreExpr{
 																										pos: position{line: 677, col: 21, offset: 21564},
 																										expr: &actionExpr{
-																											pos: position{line: 2863, col: 10, offset: 90616},
+																											pos: position{line: 2866, col: 10, offset: 90687},
 																											run: (*parser).callonListContinuationElement1526,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2863, col: 10, offset: 90616},
+																												pos:        position{line: 2866, col: 10, offset: 90687},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -36297,28 +36301,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2885, col: 8, offset: 91014},
+																										pos: position{line: 2888, col: 8, offset: 91085},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2872, col: 12, offset: 90787},
+																												pos: position{line: 2875, col: 12, offset: 90858},
 																												run: (*parser).callonListContinuationElement1529,
 																												expr: &choiceExpr{
-																													pos: position{line: 2872, col: 13, offset: 90788},
+																													pos: position{line: 2875, col: 13, offset: 90859},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2872, col: 13, offset: 90788},
+																															pos:        position{line: 2875, col: 13, offset: 90859},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2872, col: 20, offset: 90795},
+																															pos:        position{line: 2875, col: 20, offset: 90866},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2872, col: 29, offset: 90804},
+																															pos:        position{line: 2875, col: 29, offset: 90875},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -36327,9 +36331,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2882, col: 8, offset: 90964},
+																												pos: position{line: 2885, col: 8, offset: 91035},
 																												expr: &anyMatcher{
-																													line: 2882, col: 9, offset: 90965,
+																													line: 2885, col: 9, offset: 91036,
 																												},
 																											},
 																										},
@@ -36348,24 +36352,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2609, col: 22, offset: 83384},
+													pos: position{line: 2612, col: 22, offset: 83455},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2605, col: 19, offset: 83304},
+															pos: position{line: 2608, col: 19, offset: 83375},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2605, col: 19, offset: 83304},
+																	pos:        position{line: 2608, col: 19, offset: 83375},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2605, col: 26, offset: 83311},
+																	pos: position{line: 2608, col: 26, offset: 83382},
 																	expr: &actionExpr{
-																		pos: position{line: 2863, col: 10, offset: 90616},
+																		pos: position{line: 2866, col: 10, offset: 90687},
 																		run: (*parser).callonListContinuationElement1540,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2863, col: 10, offset: 90616},
+																			pos:        position{line: 2866, col: 10, offset: 90687},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -36374,28 +36378,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2885, col: 8, offset: 91014},
+																	pos: position{line: 2888, col: 8, offset: 91085},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2872, col: 12, offset: 90787},
+																			pos: position{line: 2875, col: 12, offset: 90858},
 																			run: (*parser).callonListContinuationElement1543,
 																			expr: &choiceExpr{
-																				pos: position{line: 2872, col: 13, offset: 90788},
+																				pos: position{line: 2875, col: 13, offset: 90859},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 13, offset: 90788},
+																						pos:        position{line: 2875, col: 13, offset: 90859},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 20, offset: 90795},
+																						pos:        position{line: 2875, col: 20, offset: 90866},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 29, offset: 90804},
+																						pos:        position{line: 2875, col: 29, offset: 90875},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36404,9 +36408,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2882, col: 8, offset: 90964},
+																			pos: position{line: 2885, col: 8, offset: 91035},
 																			expr: &anyMatcher{
-																				line: 2882, col: 9, offset: 90965,
+																				line: 2885, col: 9, offset: 91036,
 																			},
 																		},
 																	},
@@ -36414,9 +36418,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2882, col: 8, offset: 90964},
+															pos: position{line: 2885, col: 8, offset: 91035},
 															expr: &anyMatcher{
-																line: 2882, col: 9, offset: 90965,
+																line: 2885, col: 9, offset: 91036,
 															},
 														},
 													},
@@ -36449,12 +36453,12 @@ var g = &grammar{
 													pos:   position{line: 2473, col: 49, offset: 79621},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2809, col: 13, offset: 89142},
+														pos: position{line: 2812, col: 13, offset: 89213},
 														run: (*parser).callonListContinuationElement1558,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2809, col: 13, offset: 89142},
+															pos: position{line: 2812, col: 13, offset: 89213},
 															expr: &charClassMatcher{
-																pos:        position{line: 2809, col: 13, offset: 89142},
+																pos:        position{line: 2812, col: 13, offset: 89213},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -36464,28 +36468,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2885, col: 8, offset: 91014},
+													pos: position{line: 2888, col: 8, offset: 91085},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2872, col: 12, offset: 90787},
+															pos: position{line: 2875, col: 12, offset: 90858},
 															run: (*parser).callonListContinuationElement1562,
 															expr: &choiceExpr{
-																pos: position{line: 2872, col: 13, offset: 90788},
+																pos: position{line: 2875, col: 13, offset: 90859},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2872, col: 13, offset: 90788},
+																		pos:        position{line: 2875, col: 13, offset: 90859},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2872, col: 20, offset: 90795},
+																		pos:        position{line: 2875, col: 20, offset: 90866},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2872, col: 29, offset: 90804},
+																		pos:        position{line: 2875, col: 29, offset: 90875},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36494,9 +36498,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2882, col: 8, offset: 90964},
+															pos: position{line: 2885, col: 8, offset: 91035},
 															expr: &anyMatcher{
-																line: 2882, col: 9, offset: 90965,
+																line: 2885, col: 9, offset: 91036,
 															},
 														},
 													},
@@ -36587,12 +36591,12 @@ var g = &grammar{
 																					expr: &andExpr{
 																						pos: position{line: 1739, col: 13, offset: 56292},
 																						expr: &actionExpr{
-																							pos: position{line: 2867, col: 11, offset: 90677},
+																							pos: position{line: 2870, col: 11, offset: 90748},
 																							run: (*parser).callonListContinuationElement1590,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2867, col: 11, offset: 90677},
+																								pos: position{line: 2870, col: 11, offset: 90748},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2867, col: 11, offset: 90677},
+																									pos:        position{line: 2870, col: 11, offset: 90748},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36613,10 +36617,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1741, col: 14, offset: 56364},
 																					expr: &actionExpr{
-																						pos: position{line: 2863, col: 10, offset: 90616},
+																						pos: position{line: 2866, col: 10, offset: 90687},
 																						run: (*parser).callonListContinuationElement1596,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2863, col: 10, offset: 90616},
+																							pos:        position{line: 2866, col: 10, offset: 90687},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36625,28 +36629,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2885, col: 8, offset: 91014},
+																					pos: position{line: 2888, col: 8, offset: 91085},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2872, col: 12, offset: 90787},
+																							pos: position{line: 2875, col: 12, offset: 90858},
 																							run: (*parser).callonListContinuationElement1599,
 																							expr: &choiceExpr{
-																								pos: position{line: 2872, col: 13, offset: 90788},
+																								pos: position{line: 2875, col: 13, offset: 90859},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2872, col: 13, offset: 90788},
+																										pos:        position{line: 2875, col: 13, offset: 90859},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2872, col: 20, offset: 90795},
+																										pos:        position{line: 2875, col: 20, offset: 90866},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2872, col: 29, offset: 90804},
+																										pos:        position{line: 2875, col: 29, offset: 90875},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -36655,9 +36659,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2882, col: 8, offset: 90964},
+																							pos: position{line: 2885, col: 8, offset: 91035},
 																							expr: &anyMatcher{
-																								line: 2882, col: 9, offset: 90965,
+																								line: 2885, col: 9, offset: 91036,
 																							},
 																						},
 																					},
@@ -36688,18 +36692,18 @@ var g = &grammar{
 																			pos: position{line: 677, col: 14, offset: 21557},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2880, col: 11, offset: 90950},
+																					pos: position{line: 2883, col: 11, offset: 91021},
 																					expr: &anyMatcher{
-																						line: 2880, col: 13, offset: 90952,
+																						line: 2883, col: 13, offset: 91023,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21564},
 																					expr: &actionExpr{
-																						pos: position{line: 2863, col: 10, offset: 90616},
+																						pos: position{line: 2866, col: 10, offset: 90687},
 																						run: (*parser).callonListContinuationElement1615,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2863, col: 10, offset: 90616},
+																							pos:        position{line: 2866, col: 10, offset: 90687},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36708,28 +36712,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2885, col: 8, offset: 91014},
+																					pos: position{line: 2888, col: 8, offset: 91085},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2872, col: 12, offset: 90787},
+																							pos: position{line: 2875, col: 12, offset: 90858},
 																							run: (*parser).callonListContinuationElement1618,
 																							expr: &choiceExpr{
-																								pos: position{line: 2872, col: 13, offset: 90788},
+																								pos: position{line: 2875, col: 13, offset: 90859},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2872, col: 13, offset: 90788},
+																										pos:        position{line: 2875, col: 13, offset: 90859},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2872, col: 20, offset: 90795},
+																										pos:        position{line: 2875, col: 20, offset: 90866},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2872, col: 29, offset: 90804},
+																										pos:        position{line: 2875, col: 29, offset: 90875},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -36738,9 +36742,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2882, col: 8, offset: 90964},
+																							pos: position{line: 2885, col: 8, offset: 91035},
 																							expr: &anyMatcher{
-																								line: 2882, col: 9, offset: 90965,
+																								line: 2885, col: 9, offset: 91036,
 																							},
 																						},
 																					},
@@ -36763,10 +36767,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 1536, col: 31, offset: 49781},
 																				expr: &actionExpr{
-																					pos: position{line: 2863, col: 10, offset: 90616},
+																					pos: position{line: 2866, col: 10, offset: 90687},
 																					run: (*parser).callonListContinuationElement1629,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2863, col: 10, offset: 90616},
+																						pos:        position{line: 2866, col: 10, offset: 90687},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -36775,25 +36779,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2872, col: 12, offset: 90787},
+																				pos: position{line: 2875, col: 12, offset: 90858},
 																				run: (*parser).callonListContinuationElement1631,
 																				expr: &choiceExpr{
-																					pos: position{line: 2872, col: 13, offset: 90788},
+																					pos: position{line: 2875, col: 13, offset: 90859},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 13, offset: 90788},
+																							pos:        position{line: 2875, col: 13, offset: 90859},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 20, offset: 90795},
+																							pos:        position{line: 2875, col: 20, offset: 90866},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 29, offset: 90804},
+																							pos:        position{line: 2875, col: 29, offset: 90875},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -36815,10 +36819,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1577, col: 5, offset: 50996},
 																					expr: &actionExpr{
-																						pos: position{line: 2863, col: 10, offset: 90616},
+																						pos: position{line: 2866, col: 10, offset: 90687},
 																						run: (*parser).callonListContinuationElement1640,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2863, col: 10, offset: 90616},
+																							pos:        position{line: 2866, col: 10, offset: 90687},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36985,12 +36989,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2867, col: 11, offset: 90677},
+																					pos: position{line: 2870, col: 11, offset: 90748},
 																					run: (*parser).callonListContinuationElement1674,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2867, col: 11, offset: 90677},
+																						pos: position{line: 2870, col: 11, offset: 90748},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2867, col: 11, offset: 90677},
+																							pos:        position{line: 2870, col: 11, offset: 90748},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37013,10 +37017,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1627, col: 5, offset: 52958},
 																					expr: &actionExpr{
-																						pos: position{line: 2863, col: 10, offset: 90616},
+																						pos: position{line: 2866, col: 10, offset: 90687},
 																						run: (*parser).callonListContinuationElement1681,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2863, col: 10, offset: 90616},
+																							pos:        position{line: 2866, col: 10, offset: 90687},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37057,12 +37061,12 @@ var g = &grammar{
 																					run: (*parser).callonListContinuationElement1689,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2867, col: 11, offset: 90677},
+																					pos: position{line: 2870, col: 11, offset: 90748},
 																					run: (*parser).callonListContinuationElement1690,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2867, col: 11, offset: 90677},
+																						pos: position{line: 2870, col: 11, offset: 90748},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2867, col: 11, offset: 90677},
+																							pos:        position{line: 2870, col: 11, offset: 90748},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37113,12 +37117,12 @@ var g = &grammar{
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2867, col: 11, offset: 90677},
+																					pos: position{line: 2870, col: 11, offset: 90748},
 																					run: (*parser).callonListContinuationElement1702,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2867, col: 11, offset: 90677},
+																						pos: position{line: 2870, col: 11, offset: 90748},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2867, col: 11, offset: 90677},
+																							pos:        position{line: 2870, col: 11, offset: 90748},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37205,28 +37209,28 @@ var g = &grammar{
 																									&notExpr{
 																										pos: position{line: 1663, col: 35, offset: 54039},
 																										expr: &choiceExpr{
-																											pos: position{line: 2885, col: 8, offset: 91014},
+																											pos: position{line: 2888, col: 8, offset: 91085},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2872, col: 12, offset: 90787},
+																													pos: position{line: 2875, col: 12, offset: 90858},
 																													run: (*parser).callonListContinuationElement1726,
 																													expr: &choiceExpr{
-																														pos: position{line: 2872, col: 13, offset: 90788},
+																														pos: position{line: 2875, col: 13, offset: 90859},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 13, offset: 90788},
+																																pos:        position{line: 2875, col: 13, offset: 90859},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 20, offset: 90795},
+																																pos:        position{line: 2875, col: 20, offset: 90866},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 29, offset: 90804},
+																																pos:        position{line: 2875, col: 29, offset: 90875},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37235,9 +37239,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2882, col: 8, offset: 90964},
+																													pos: position{line: 2885, col: 8, offset: 91035},
 																													expr: &anyMatcher{
-																														line: 2882, col: 9, offset: 90965,
+																														line: 2885, col: 9, offset: 91036,
 																													},
 																												},
 																											},
@@ -37296,7 +37300,7 @@ var g = &grammar{
 																				&notExpr{
 																					pos: position{line: 724, col: 5, offset: 23110},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2753, col: 13, offset: 87711},
+																						pos:        position{line: 2756, col: 13, offset: 87782},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -37346,10 +37350,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 742, col: 8, offset: 23754},
 																											expr: &actionExpr{
-																												pos: position{line: 2863, col: 10, offset: 90616},
+																												pos: position{line: 2866, col: 10, offset: 90687},
 																												run: (*parser).callonListContinuationElement1757,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2863, col: 10, offset: 90616},
+																													pos:        position{line: 2866, col: 10, offset: 90687},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37358,28 +37362,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2885, col: 8, offset: 91014},
+																											pos: position{line: 2888, col: 8, offset: 91085},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2872, col: 12, offset: 90787},
+																													pos: position{line: 2875, col: 12, offset: 90858},
 																													run: (*parser).callonListContinuationElement1760,
 																													expr: &choiceExpr{
-																														pos: position{line: 2872, col: 13, offset: 90788},
+																														pos: position{line: 2875, col: 13, offset: 90859},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 13, offset: 90788},
+																																pos:        position{line: 2875, col: 13, offset: 90859},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 20, offset: 90795},
+																																pos:        position{line: 2875, col: 20, offset: 90866},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 29, offset: 90804},
+																																pos:        position{line: 2875, col: 29, offset: 90875},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37388,9 +37392,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2882, col: 8, offset: 90964},
+																													pos: position{line: 2885, col: 8, offset: 91035},
 																													expr: &anyMatcher{
-																														line: 2882, col: 9, offset: 90965,
+																														line: 2885, col: 9, offset: 91036,
 																													},
 																												},
 																											},
@@ -37435,10 +37439,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 749, col: 8, offset: 24002},
 																											expr: &actionExpr{
-																												pos: position{line: 2863, col: 10, offset: 90616},
+																												pos: position{line: 2866, col: 10, offset: 90687},
 																												run: (*parser).callonListContinuationElement1776,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2863, col: 10, offset: 90616},
+																													pos:        position{line: 2866, col: 10, offset: 90687},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37447,28 +37451,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2885, col: 8, offset: 91014},
+																											pos: position{line: 2888, col: 8, offset: 91085},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2872, col: 12, offset: 90787},
+																													pos: position{line: 2875, col: 12, offset: 90858},
 																													run: (*parser).callonListContinuationElement1779,
 																													expr: &choiceExpr{
-																														pos: position{line: 2872, col: 13, offset: 90788},
+																														pos: position{line: 2875, col: 13, offset: 90859},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 13, offset: 90788},
+																																pos:        position{line: 2875, col: 13, offset: 90859},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 20, offset: 90795},
+																																pos:        position{line: 2875, col: 20, offset: 90866},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 29, offset: 90804},
+																																pos:        position{line: 2875, col: 29, offset: 90875},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37477,9 +37481,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2882, col: 8, offset: 90964},
+																													pos: position{line: 2885, col: 8, offset: 91035},
 																													expr: &anyMatcher{
-																														line: 2882, col: 9, offset: 90965,
+																														line: 2885, col: 9, offset: 91036,
 																													},
 																												},
 																											},
@@ -37520,10 +37524,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 760, col: 52, offset: 24414},
 																											expr: &actionExpr{
-																												pos: position{line: 2863, col: 10, offset: 90616},
+																												pos: position{line: 2866, col: 10, offset: 90687},
 																												run: (*parser).callonListContinuationElement1794,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2863, col: 10, offset: 90616},
+																													pos:        position{line: 2866, col: 10, offset: 90687},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37532,28 +37536,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2885, col: 8, offset: 91014},
+																											pos: position{line: 2888, col: 8, offset: 91085},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2872, col: 12, offset: 90787},
+																													pos: position{line: 2875, col: 12, offset: 90858},
 																													run: (*parser).callonListContinuationElement1797,
 																													expr: &choiceExpr{
-																														pos: position{line: 2872, col: 13, offset: 90788},
+																														pos: position{line: 2875, col: 13, offset: 90859},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 13, offset: 90788},
+																																pos:        position{line: 2875, col: 13, offset: 90859},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 20, offset: 90795},
+																																pos:        position{line: 2875, col: 20, offset: 90866},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 29, offset: 90804},
+																																pos:        position{line: 2875, col: 29, offset: 90875},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37562,9 +37566,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2882, col: 8, offset: 90964},
+																													pos: position{line: 2885, col: 8, offset: 91035},
 																													expr: &anyMatcher{
-																														line: 2882, col: 9, offset: 90965,
+																														line: 2885, col: 9, offset: 91036,
 																													},
 																												},
 																											},
@@ -37609,10 +37613,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 756, col: 8, offset: 24248},
 																											expr: &actionExpr{
-																												pos: position{line: 2863, col: 10, offset: 90616},
+																												pos: position{line: 2866, col: 10, offset: 90687},
 																												run: (*parser).callonListContinuationElement1813,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2863, col: 10, offset: 90616},
+																													pos:        position{line: 2866, col: 10, offset: 90687},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37621,28 +37625,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2885, col: 8, offset: 91014},
+																											pos: position{line: 2888, col: 8, offset: 91085},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2872, col: 12, offset: 90787},
+																													pos: position{line: 2875, col: 12, offset: 90858},
 																													run: (*parser).callonListContinuationElement1816,
 																													expr: &choiceExpr{
-																														pos: position{line: 2872, col: 13, offset: 90788},
+																														pos: position{line: 2875, col: 13, offset: 90859},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 13, offset: 90788},
+																																pos:        position{line: 2875, col: 13, offset: 90859},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 20, offset: 90795},
+																																pos:        position{line: 2875, col: 20, offset: 90866},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 29, offset: 90804},
+																																pos:        position{line: 2875, col: 29, offset: 90875},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37651,9 +37655,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2882, col: 8, offset: 90964},
+																													pos: position{line: 2885, col: 8, offset: 91035},
 																													expr: &anyMatcher{
-																														line: 2882, col: 9, offset: 90965,
+																														line: 2885, col: 9, offset: 91036,
 																													},
 																												},
 																											},
@@ -37698,10 +37702,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 771, col: 8, offset: 24791},
 																											expr: &actionExpr{
-																												pos: position{line: 2863, col: 10, offset: 90616},
+																												pos: position{line: 2866, col: 10, offset: 90687},
 																												run: (*parser).callonListContinuationElement1832,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2863, col: 10, offset: 90616},
+																													pos:        position{line: 2866, col: 10, offset: 90687},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37710,28 +37714,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2885, col: 8, offset: 91014},
+																											pos: position{line: 2888, col: 8, offset: 91085},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2872, col: 12, offset: 90787},
+																													pos: position{line: 2875, col: 12, offset: 90858},
 																													run: (*parser).callonListContinuationElement1835,
 																													expr: &choiceExpr{
-																														pos: position{line: 2872, col: 13, offset: 90788},
+																														pos: position{line: 2875, col: 13, offset: 90859},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 13, offset: 90788},
+																																pos:        position{line: 2875, col: 13, offset: 90859},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 20, offset: 90795},
+																																pos:        position{line: 2875, col: 20, offset: 90866},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 29, offset: 90804},
+																																pos:        position{line: 2875, col: 29, offset: 90875},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37740,9 +37744,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2882, col: 8, offset: 90964},
+																													pos: position{line: 2885, col: 8, offset: 91035},
 																													expr: &anyMatcher{
-																														line: 2882, col: 9, offset: 90965,
+																														line: 2885, col: 9, offset: 91036,
 																													},
 																												},
 																											},
@@ -37787,10 +37791,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 785, col: 8, offset: 25267},
 																											expr: &actionExpr{
-																												pos: position{line: 2863, col: 10, offset: 90616},
+																												pos: position{line: 2866, col: 10, offset: 90687},
 																												run: (*parser).callonListContinuationElement1851,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2863, col: 10, offset: 90616},
+																													pos:        position{line: 2866, col: 10, offset: 90687},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37799,28 +37803,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2885, col: 8, offset: 91014},
+																											pos: position{line: 2888, col: 8, offset: 91085},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2872, col: 12, offset: 90787},
+																													pos: position{line: 2875, col: 12, offset: 90858},
 																													run: (*parser).callonListContinuationElement1854,
 																													expr: &choiceExpr{
-																														pos: position{line: 2872, col: 13, offset: 90788},
+																														pos: position{line: 2875, col: 13, offset: 90859},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 13, offset: 90788},
+																																pos:        position{line: 2875, col: 13, offset: 90859},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 20, offset: 90795},
+																																pos:        position{line: 2875, col: 20, offset: 90866},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 29, offset: 90804},
+																																pos:        position{line: 2875, col: 29, offset: 90875},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37829,9 +37833,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2882, col: 8, offset: 90964},
+																													pos: position{line: 2885, col: 8, offset: 91035},
 																													expr: &anyMatcher{
-																														line: 2882, col: 9, offset: 90965,
+																														line: 2885, col: 9, offset: 91036,
 																													},
 																												},
 																											},
@@ -37876,10 +37880,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 792, col: 8, offset: 25519},
 																											expr: &actionExpr{
-																												pos: position{line: 2863, col: 10, offset: 90616},
+																												pos: position{line: 2866, col: 10, offset: 90687},
 																												run: (*parser).callonListContinuationElement1870,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2863, col: 10, offset: 90616},
+																													pos:        position{line: 2866, col: 10, offset: 90687},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37888,28 +37892,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2885, col: 8, offset: 91014},
+																											pos: position{line: 2888, col: 8, offset: 91085},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2872, col: 12, offset: 90787},
+																													pos: position{line: 2875, col: 12, offset: 90858},
 																													run: (*parser).callonListContinuationElement1873,
 																													expr: &choiceExpr{
-																														pos: position{line: 2872, col: 13, offset: 90788},
+																														pos: position{line: 2875, col: 13, offset: 90859},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 13, offset: 90788},
+																																pos:        position{line: 2875, col: 13, offset: 90859},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 20, offset: 90795},
+																																pos:        position{line: 2875, col: 20, offset: 90866},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 29, offset: 90804},
+																																pos:        position{line: 2875, col: 29, offset: 90875},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37918,9 +37922,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2882, col: 8, offset: 90964},
+																													pos: position{line: 2885, col: 8, offset: 91035},
 																													expr: &anyMatcher{
-																														line: 2882, col: 9, offset: 90965,
+																														line: 2885, col: 9, offset: 91036,
 																													},
 																												},
 																											},
@@ -37965,10 +37969,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 799, col: 8, offset: 25769},
 																											expr: &actionExpr{
-																												pos: position{line: 2863, col: 10, offset: 90616},
+																												pos: position{line: 2866, col: 10, offset: 90687},
 																												run: (*parser).callonListContinuationElement1889,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2863, col: 10, offset: 90616},
+																													pos:        position{line: 2866, col: 10, offset: 90687},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37977,28 +37981,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2885, col: 8, offset: 91014},
+																											pos: position{line: 2888, col: 8, offset: 91085},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2872, col: 12, offset: 90787},
+																													pos: position{line: 2875, col: 12, offset: 90858},
 																													run: (*parser).callonListContinuationElement1892,
 																													expr: &choiceExpr{
-																														pos: position{line: 2872, col: 13, offset: 90788},
+																														pos: position{line: 2875, col: 13, offset: 90859},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 13, offset: 90788},
+																																pos:        position{line: 2875, col: 13, offset: 90859},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 20, offset: 90795},
+																																pos:        position{line: 2875, col: 20, offset: 90866},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 29, offset: 90804},
+																																pos:        position{line: 2875, col: 29, offset: 90875},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38007,9 +38011,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2882, col: 8, offset: 90964},
+																													pos: position{line: 2885, col: 8, offset: 91035},
 																													expr: &anyMatcher{
-																														line: 2882, col: 9, offset: 90965,
+																														line: 2885, col: 9, offset: 91036,
 																													},
 																												},
 																											},
@@ -38054,10 +38058,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 806, col: 8, offset: 26015},
 																											expr: &actionExpr{
-																												pos: position{line: 2863, col: 10, offset: 90616},
+																												pos: position{line: 2866, col: 10, offset: 90687},
 																												run: (*parser).callonListContinuationElement1908,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2863, col: 10, offset: 90616},
+																													pos:        position{line: 2866, col: 10, offset: 90687},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38066,28 +38070,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2885, col: 8, offset: 91014},
+																											pos: position{line: 2888, col: 8, offset: 91085},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2872, col: 12, offset: 90787},
+																													pos: position{line: 2875, col: 12, offset: 90858},
 																													run: (*parser).callonListContinuationElement1911,
 																													expr: &choiceExpr{
-																														pos: position{line: 2872, col: 13, offset: 90788},
+																														pos: position{line: 2875, col: 13, offset: 90859},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 13, offset: 90788},
+																																pos:        position{line: 2875, col: 13, offset: 90859},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 20, offset: 90795},
+																																pos:        position{line: 2875, col: 20, offset: 90866},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2872, col: 29, offset: 90804},
+																																pos:        position{line: 2875, col: 29, offset: 90875},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38096,9 +38100,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2882, col: 8, offset: 90964},
+																													pos: position{line: 2885, col: 8, offset: 91035},
 																													expr: &anyMatcher{
-																														line: 2882, col: 9, offset: 90965,
+																														line: 2885, col: 9, offset: 91036,
 																													},
 																												},
 																											},
@@ -38117,12 +38121,12 @@ var g = &grammar{
 																	pos:   position{line: 1512, col: 5, offset: 49149},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2813, col: 14, offset: 89209},
+																		pos: position{line: 2816, col: 14, offset: 89280},
 																		run: (*parser).callonListContinuationElement1919,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2813, col: 14, offset: 89209},
+																			pos: position{line: 2816, col: 14, offset: 89280},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2813, col: 14, offset: 89209},
+																				pos:        position{line: 2816, col: 14, offset: 89280},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -38132,28 +38136,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2885, col: 8, offset: 91014},
+																	pos: position{line: 2888, col: 8, offset: 91085},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2872, col: 12, offset: 90787},
+																			pos: position{line: 2875, col: 12, offset: 90858},
 																			run: (*parser).callonListContinuationElement1923,
 																			expr: &choiceExpr{
-																				pos: position{line: 2872, col: 13, offset: 90788},
+																				pos: position{line: 2875, col: 13, offset: 90859},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 13, offset: 90788},
+																						pos:        position{line: 2875, col: 13, offset: 90859},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 20, offset: 90795},
+																						pos:        position{line: 2875, col: 20, offset: 90866},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 29, offset: 90804},
+																						pos:        position{line: 2875, col: 29, offset: 90875},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -38162,9 +38166,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2882, col: 8, offset: 90964},
+																			pos: position{line: 2885, col: 8, offset: 91035},
 																			expr: &anyMatcher{
-																				line: 2882, col: 9, offset: 90965,
+																				line: 2885, col: 9, offset: 91036,
 																			},
 																		},
 																	},
@@ -38229,10 +38233,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1706, col: 66, offset: 55227},
 							expr: &actionExpr{
-								pos: position{line: 2863, col: 10, offset: 90616},
+								pos: position{line: 2866, col: 10, offset: 90687},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2863, col: 10, offset: 90616},
+									pos:        position{line: 2866, col: 10, offset: 90687},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -38246,25 +38250,25 @@ var g = &grammar{
 								pos: position{line: 1706, col: 75, offset: 55236},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2872, col: 12, offset: 90787},
+										pos: position{line: 2875, col: 12, offset: 90858},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2872, col: 13, offset: 90788},
+											pos: position{line: 2875, col: 13, offset: 90859},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2872, col: 13, offset: 90788},
+													pos:        position{line: 2875, col: 13, offset: 90859},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2872, col: 20, offset: 90795},
+													pos:        position{line: 2875, col: 20, offset: 90866},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2872, col: 29, offset: 90804},
+													pos:        position{line: 2875, col: 29, offset: 90875},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -38273,9 +38277,9 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2882, col: 8, offset: 90964},
+										pos: position{line: 2885, col: 8, offset: 91035},
 										expr: &anyMatcher{
-											line: 2882, col: 9, offset: 90965,
+											line: 2885, col: 9, offset: 91036,
 										},
 									},
 									&ruleRefExpr{
@@ -38304,7 +38308,7 @@ var g = &grammar{
 								pos: position{line: 1747, col: 7, offset: 56495},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2753, col: 13, offset: 87711},
+										pos:        position{line: 2756, col: 13, offset: 87782},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
@@ -38323,12 +38327,12 @@ var g = &grammar{
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2867, col: 11, offset: 90677},
+													pos: position{line: 2870, col: 11, offset: 90748},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2867, col: 11, offset: 90677},
+														pos: position{line: 2870, col: 11, offset: 90748},
 														expr: &charClassMatcher{
-															pos:        position{line: 2867, col: 11, offset: 90677},
+															pos:        position{line: 2870, col: 11, offset: 90748},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -38419,12 +38423,12 @@ var g = &grammar{
 															expr: &andExpr{
 																pos: position{line: 1739, col: 13, offset: 56292},
 																expr: &actionExpr{
-																	pos: position{line: 2867, col: 11, offset: 90677},
+																	pos: position{line: 2870, col: 11, offset: 90748},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2867, col: 11, offset: 90677},
+																		pos: position{line: 2870, col: 11, offset: 90748},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2867, col: 11, offset: 90677},
+																			pos:        position{line: 2870, col: 11, offset: 90748},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -38445,10 +38449,10 @@ var g = &grammar{
 														&zeroOrMoreExpr{
 															pos: position{line: 1741, col: 14, offset: 56364},
 															expr: &actionExpr{
-																pos: position{line: 2863, col: 10, offset: 90616},
+																pos: position{line: 2866, col: 10, offset: 90687},
 																run: (*parser).callonShortcutParagraph37,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2863, col: 10, offset: 90616},
+																	pos:        position{line: 2866, col: 10, offset: 90687},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -38457,28 +38461,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2885, col: 8, offset: 91014},
+															pos: position{line: 2888, col: 8, offset: 91085},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2872, col: 12, offset: 90787},
+																	pos: position{line: 2875, col: 12, offset: 90858},
 																	run: (*parser).callonShortcutParagraph40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2872, col: 13, offset: 90788},
+																		pos: position{line: 2875, col: 13, offset: 90859},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2872, col: 13, offset: 90788},
+																				pos:        position{line: 2875, col: 13, offset: 90859},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2872, col: 20, offset: 90795},
+																				pos:        position{line: 2875, col: 20, offset: 90866},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2872, col: 29, offset: 90804},
+																				pos:        position{line: 2875, col: 29, offset: 90875},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -38487,9 +38491,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2882, col: 8, offset: 90964},
+																	pos: position{line: 2885, col: 8, offset: 91035},
 																	expr: &anyMatcher{
-																		line: 2882, col: 9, offset: 90965,
+																		line: 2885, col: 9, offset: 91036,
 																	},
 																},
 															},
@@ -38515,12 +38519,12 @@ var g = &grammar{
 											pos:   position{line: 1785, col: 5, offset: 57782},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2813, col: 14, offset: 89209},
+												pos: position{line: 2816, col: 14, offset: 89280},
 												run: (*parser).callonShortcutParagraph51,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2813, col: 14, offset: 89209},
+													pos: position{line: 2816, col: 14, offset: 89280},
 													expr: &charClassMatcher{
-														pos:        position{line: 2813, col: 14, offset: 89209},
+														pos:        position{line: 2816, col: 14, offset: 89280},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -38534,28 +38538,28 @@ var g = &grammar{
 											run: (*parser).callonShortcutParagraph54,
 										},
 										&choiceExpr{
-											pos: position{line: 2885, col: 8, offset: 91014},
+											pos: position{line: 2888, col: 8, offset: 91085},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2872, col: 12, offset: 90787},
+													pos: position{line: 2875, col: 12, offset: 90858},
 													run: (*parser).callonShortcutParagraph56,
 													expr: &choiceExpr{
-														pos: position{line: 2872, col: 13, offset: 90788},
+														pos: position{line: 2875, col: 13, offset: 90859},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2872, col: 13, offset: 90788},
+																pos:        position{line: 2875, col: 13, offset: 90859},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2872, col: 20, offset: 90795},
+																pos:        position{line: 2875, col: 20, offset: 90866},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2872, col: 29, offset: 90804},
+																pos:        position{line: 2875, col: 29, offset: 90875},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -38564,9 +38568,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2882, col: 8, offset: 90964},
+													pos: position{line: 2885, col: 8, offset: 91035},
 													expr: &anyMatcher{
-														line: 2882, col: 9, offset: 90965,
+														line: 2885, col: 9, offset: 91036,
 													},
 												},
 											},
@@ -38591,9 +38595,9 @@ var g = &grammar{
 										pos: position{line: 1758, col: 9, offset: 57060},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2880, col: 11, offset: 90950},
+												pos: position{line: 2883, col: 11, offset: 91021},
 												expr: &anyMatcher{
-													line: 2880, col: 13, offset: 90952,
+													line: 2883, col: 13, offset: 91023,
 												},
 											},
 											&notExpr{
@@ -38605,18 +38609,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21557},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2880, col: 11, offset: 90950},
+																pos: position{line: 2883, col: 11, offset: 91021},
 																expr: &anyMatcher{
-																	line: 2880, col: 13, offset: 90952,
+																	line: 2883, col: 13, offset: 91023,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21564},
 																expr: &actionExpr{
-																	pos: position{line: 2863, col: 10, offset: 90616},
+																	pos: position{line: 2866, col: 10, offset: 90687},
 																	run: (*parser).callonShortcutParagraph76,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2863, col: 10, offset: 90616},
+																		pos:        position{line: 2866, col: 10, offset: 90687},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -38625,28 +38629,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2885, col: 8, offset: 91014},
+																pos: position{line: 2888, col: 8, offset: 91085},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2872, col: 12, offset: 90787},
+																		pos: position{line: 2875, col: 12, offset: 90858},
 																		run: (*parser).callonShortcutParagraph79,
 																		expr: &choiceExpr{
-																			pos: position{line: 2872, col: 13, offset: 90788},
+																			pos: position{line: 2875, col: 13, offset: 90859},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2872, col: 13, offset: 90788},
+																					pos:        position{line: 2875, col: 13, offset: 90859},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2872, col: 20, offset: 90795},
+																					pos:        position{line: 2875, col: 20, offset: 90866},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2872, col: 29, offset: 90804},
+																					pos:        position{line: 2875, col: 29, offset: 90875},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -38655,9 +38659,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2882, col: 8, offset: 90964},
+																		pos: position{line: 2885, col: 8, offset: 91035},
 																		expr: &anyMatcher{
-																			line: 2882, col: 9, offset: 90965,
+																			line: 2885, col: 9, offset: 91036,
 																		},
 																	},
 																},
@@ -38684,7 +38688,7 @@ var g = &grammar{
 															&notExpr{
 																pos: position{line: 724, col: 5, offset: 23110},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2753, col: 13, offset: 87711},
+																	pos:        position{line: 2756, col: 13, offset: 87782},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -38734,10 +38738,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 742, col: 8, offset: 23754},
 																						expr: &actionExpr{
-																							pos: position{line: 2863, col: 10, offset: 90616},
+																							pos: position{line: 2866, col: 10, offset: 90687},
 																							run: (*parser).callonShortcutParagraph104,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2863, col: 10, offset: 90616},
+																								pos:        position{line: 2866, col: 10, offset: 90687},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38746,28 +38750,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2885, col: 8, offset: 91014},
+																						pos: position{line: 2888, col: 8, offset: 91085},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2872, col: 12, offset: 90787},
+																								pos: position{line: 2875, col: 12, offset: 90858},
 																								run: (*parser).callonShortcutParagraph107,
 																								expr: &choiceExpr{
-																									pos: position{line: 2872, col: 13, offset: 90788},
+																									pos: position{line: 2875, col: 13, offset: 90859},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 13, offset: 90788},
+																											pos:        position{line: 2875, col: 13, offset: 90859},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 20, offset: 90795},
+																											pos:        position{line: 2875, col: 20, offset: 90866},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 29, offset: 90804},
+																											pos:        position{line: 2875, col: 29, offset: 90875},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38776,9 +38780,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2882, col: 8, offset: 90964},
+																								pos: position{line: 2885, col: 8, offset: 91035},
 																								expr: &anyMatcher{
-																									line: 2882, col: 9, offset: 90965,
+																									line: 2885, col: 9, offset: 91036,
 																								},
 																							},
 																						},
@@ -38823,10 +38827,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 749, col: 8, offset: 24002},
 																						expr: &actionExpr{
-																							pos: position{line: 2863, col: 10, offset: 90616},
+																							pos: position{line: 2866, col: 10, offset: 90687},
 																							run: (*parser).callonShortcutParagraph123,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2863, col: 10, offset: 90616},
+																								pos:        position{line: 2866, col: 10, offset: 90687},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38835,28 +38839,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2885, col: 8, offset: 91014},
+																						pos: position{line: 2888, col: 8, offset: 91085},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2872, col: 12, offset: 90787},
+																								pos: position{line: 2875, col: 12, offset: 90858},
 																								run: (*parser).callonShortcutParagraph126,
 																								expr: &choiceExpr{
-																									pos: position{line: 2872, col: 13, offset: 90788},
+																									pos: position{line: 2875, col: 13, offset: 90859},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 13, offset: 90788},
+																											pos:        position{line: 2875, col: 13, offset: 90859},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 20, offset: 90795},
+																											pos:        position{line: 2875, col: 20, offset: 90866},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 29, offset: 90804},
+																											pos:        position{line: 2875, col: 29, offset: 90875},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38865,9 +38869,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2882, col: 8, offset: 90964},
+																								pos: position{line: 2885, col: 8, offset: 91035},
 																								expr: &anyMatcher{
-																									line: 2882, col: 9, offset: 90965,
+																									line: 2885, col: 9, offset: 91036,
 																								},
 																							},
 																						},
@@ -38908,10 +38912,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 760, col: 52, offset: 24414},
 																						expr: &actionExpr{
-																							pos: position{line: 2863, col: 10, offset: 90616},
+																							pos: position{line: 2866, col: 10, offset: 90687},
 																							run: (*parser).callonShortcutParagraph141,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2863, col: 10, offset: 90616},
+																								pos:        position{line: 2866, col: 10, offset: 90687},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38920,28 +38924,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2885, col: 8, offset: 91014},
+																						pos: position{line: 2888, col: 8, offset: 91085},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2872, col: 12, offset: 90787},
+																								pos: position{line: 2875, col: 12, offset: 90858},
 																								run: (*parser).callonShortcutParagraph144,
 																								expr: &choiceExpr{
-																									pos: position{line: 2872, col: 13, offset: 90788},
+																									pos: position{line: 2875, col: 13, offset: 90859},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 13, offset: 90788},
+																											pos:        position{line: 2875, col: 13, offset: 90859},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 20, offset: 90795},
+																											pos:        position{line: 2875, col: 20, offset: 90866},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 29, offset: 90804},
+																											pos:        position{line: 2875, col: 29, offset: 90875},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38950,9 +38954,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2882, col: 8, offset: 90964},
+																								pos: position{line: 2885, col: 8, offset: 91035},
 																								expr: &anyMatcher{
-																									line: 2882, col: 9, offset: 90965,
+																									line: 2885, col: 9, offset: 91036,
 																								},
 																							},
 																						},
@@ -38997,10 +39001,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 756, col: 8, offset: 24248},
 																						expr: &actionExpr{
-																							pos: position{line: 2863, col: 10, offset: 90616},
+																							pos: position{line: 2866, col: 10, offset: 90687},
 																							run: (*parser).callonShortcutParagraph160,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2863, col: 10, offset: 90616},
+																								pos:        position{line: 2866, col: 10, offset: 90687},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39009,28 +39013,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2885, col: 8, offset: 91014},
+																						pos: position{line: 2888, col: 8, offset: 91085},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2872, col: 12, offset: 90787},
+																								pos: position{line: 2875, col: 12, offset: 90858},
 																								run: (*parser).callonShortcutParagraph163,
 																								expr: &choiceExpr{
-																									pos: position{line: 2872, col: 13, offset: 90788},
+																									pos: position{line: 2875, col: 13, offset: 90859},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 13, offset: 90788},
+																											pos:        position{line: 2875, col: 13, offset: 90859},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 20, offset: 90795},
+																											pos:        position{line: 2875, col: 20, offset: 90866},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 29, offset: 90804},
+																											pos:        position{line: 2875, col: 29, offset: 90875},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39039,9 +39043,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2882, col: 8, offset: 90964},
+																								pos: position{line: 2885, col: 8, offset: 91035},
 																								expr: &anyMatcher{
-																									line: 2882, col: 9, offset: 90965,
+																									line: 2885, col: 9, offset: 91036,
 																								},
 																							},
 																						},
@@ -39086,10 +39090,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 771, col: 8, offset: 24791},
 																						expr: &actionExpr{
-																							pos: position{line: 2863, col: 10, offset: 90616},
+																							pos: position{line: 2866, col: 10, offset: 90687},
 																							run: (*parser).callonShortcutParagraph179,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2863, col: 10, offset: 90616},
+																								pos:        position{line: 2866, col: 10, offset: 90687},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39098,28 +39102,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2885, col: 8, offset: 91014},
+																						pos: position{line: 2888, col: 8, offset: 91085},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2872, col: 12, offset: 90787},
+																								pos: position{line: 2875, col: 12, offset: 90858},
 																								run: (*parser).callonShortcutParagraph182,
 																								expr: &choiceExpr{
-																									pos: position{line: 2872, col: 13, offset: 90788},
+																									pos: position{line: 2875, col: 13, offset: 90859},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 13, offset: 90788},
+																											pos:        position{line: 2875, col: 13, offset: 90859},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 20, offset: 90795},
+																											pos:        position{line: 2875, col: 20, offset: 90866},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 29, offset: 90804},
+																											pos:        position{line: 2875, col: 29, offset: 90875},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39128,9 +39132,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2882, col: 8, offset: 90964},
+																								pos: position{line: 2885, col: 8, offset: 91035},
 																								expr: &anyMatcher{
-																									line: 2882, col: 9, offset: 90965,
+																									line: 2885, col: 9, offset: 91036,
 																								},
 																							},
 																						},
@@ -39175,10 +39179,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 785, col: 8, offset: 25267},
 																						expr: &actionExpr{
-																							pos: position{line: 2863, col: 10, offset: 90616},
+																							pos: position{line: 2866, col: 10, offset: 90687},
 																							run: (*parser).callonShortcutParagraph198,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2863, col: 10, offset: 90616},
+																								pos:        position{line: 2866, col: 10, offset: 90687},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39187,28 +39191,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2885, col: 8, offset: 91014},
+																						pos: position{line: 2888, col: 8, offset: 91085},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2872, col: 12, offset: 90787},
+																								pos: position{line: 2875, col: 12, offset: 90858},
 																								run: (*parser).callonShortcutParagraph201,
 																								expr: &choiceExpr{
-																									pos: position{line: 2872, col: 13, offset: 90788},
+																									pos: position{line: 2875, col: 13, offset: 90859},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 13, offset: 90788},
+																											pos:        position{line: 2875, col: 13, offset: 90859},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 20, offset: 90795},
+																											pos:        position{line: 2875, col: 20, offset: 90866},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 29, offset: 90804},
+																											pos:        position{line: 2875, col: 29, offset: 90875},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39217,9 +39221,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2882, col: 8, offset: 90964},
+																								pos: position{line: 2885, col: 8, offset: 91035},
 																								expr: &anyMatcher{
-																									line: 2882, col: 9, offset: 90965,
+																									line: 2885, col: 9, offset: 91036,
 																								},
 																							},
 																						},
@@ -39264,10 +39268,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 792, col: 8, offset: 25519},
 																						expr: &actionExpr{
-																							pos: position{line: 2863, col: 10, offset: 90616},
+																							pos: position{line: 2866, col: 10, offset: 90687},
 																							run: (*parser).callonShortcutParagraph217,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2863, col: 10, offset: 90616},
+																								pos:        position{line: 2866, col: 10, offset: 90687},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39276,28 +39280,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2885, col: 8, offset: 91014},
+																						pos: position{line: 2888, col: 8, offset: 91085},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2872, col: 12, offset: 90787},
+																								pos: position{line: 2875, col: 12, offset: 90858},
 																								run: (*parser).callonShortcutParagraph220,
 																								expr: &choiceExpr{
-																									pos: position{line: 2872, col: 13, offset: 90788},
+																									pos: position{line: 2875, col: 13, offset: 90859},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 13, offset: 90788},
+																											pos:        position{line: 2875, col: 13, offset: 90859},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 20, offset: 90795},
+																											pos:        position{line: 2875, col: 20, offset: 90866},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 29, offset: 90804},
+																											pos:        position{line: 2875, col: 29, offset: 90875},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39306,9 +39310,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2882, col: 8, offset: 90964},
+																								pos: position{line: 2885, col: 8, offset: 91035},
 																								expr: &anyMatcher{
-																									line: 2882, col: 9, offset: 90965,
+																									line: 2885, col: 9, offset: 91036,
 																								},
 																							},
 																						},
@@ -39353,10 +39357,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 799, col: 8, offset: 25769},
 																						expr: &actionExpr{
-																							pos: position{line: 2863, col: 10, offset: 90616},
+																							pos: position{line: 2866, col: 10, offset: 90687},
 																							run: (*parser).callonShortcutParagraph236,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2863, col: 10, offset: 90616},
+																								pos:        position{line: 2866, col: 10, offset: 90687},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39365,28 +39369,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2885, col: 8, offset: 91014},
+																						pos: position{line: 2888, col: 8, offset: 91085},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2872, col: 12, offset: 90787},
+																								pos: position{line: 2875, col: 12, offset: 90858},
 																								run: (*parser).callonShortcutParagraph239,
 																								expr: &choiceExpr{
-																									pos: position{line: 2872, col: 13, offset: 90788},
+																									pos: position{line: 2875, col: 13, offset: 90859},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 13, offset: 90788},
+																											pos:        position{line: 2875, col: 13, offset: 90859},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 20, offset: 90795},
+																											pos:        position{line: 2875, col: 20, offset: 90866},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 29, offset: 90804},
+																											pos:        position{line: 2875, col: 29, offset: 90875},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39395,9 +39399,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2882, col: 8, offset: 90964},
+																								pos: position{line: 2885, col: 8, offset: 91035},
 																								expr: &anyMatcher{
-																									line: 2882, col: 9, offset: 90965,
+																									line: 2885, col: 9, offset: 91036,
 																								},
 																							},
 																						},
@@ -39442,10 +39446,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 806, col: 8, offset: 26015},
 																						expr: &actionExpr{
-																							pos: position{line: 2863, col: 10, offset: 90616},
+																							pos: position{line: 2866, col: 10, offset: 90687},
 																							run: (*parser).callonShortcutParagraph255,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2863, col: 10, offset: 90616},
+																								pos:        position{line: 2866, col: 10, offset: 90687},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39454,28 +39458,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2885, col: 8, offset: 91014},
+																						pos: position{line: 2888, col: 8, offset: 91085},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2872, col: 12, offset: 90787},
+																								pos: position{line: 2875, col: 12, offset: 90858},
 																								run: (*parser).callonShortcutParagraph258,
 																								expr: &choiceExpr{
-																									pos: position{line: 2872, col: 13, offset: 90788},
+																									pos: position{line: 2875, col: 13, offset: 90859},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 13, offset: 90788},
+																											pos:        position{line: 2875, col: 13, offset: 90859},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 20, offset: 90795},
+																											pos:        position{line: 2875, col: 20, offset: 90866},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2872, col: 29, offset: 90804},
+																											pos:        position{line: 2875, col: 29, offset: 90875},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39484,9 +39488,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2882, col: 8, offset: 90964},
+																								pos: position{line: 2885, col: 8, offset: 91035},
 																								expr: &anyMatcher{
-																									line: 2882, col: 9, offset: 90965,
+																									line: 2885, col: 9, offset: 91036,
 																								},
 																							},
 																						},
@@ -39515,10 +39519,10 @@ var g = &grammar{
 														&zeroOrMoreExpr{
 															pos: position{line: 1536, col: 31, offset: 49781},
 															expr: &actionExpr{
-																pos: position{line: 2863, col: 10, offset: 90616},
+																pos: position{line: 2866, col: 10, offset: 90687},
 																run: (*parser).callonShortcutParagraph269,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2863, col: 10, offset: 90616},
+																	pos:        position{line: 2866, col: 10, offset: 90687},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -39527,25 +39531,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2872, col: 12, offset: 90787},
+															pos: position{line: 2875, col: 12, offset: 90858},
 															run: (*parser).callonShortcutParagraph271,
 															expr: &choiceExpr{
-																pos: position{line: 2872, col: 13, offset: 90788},
+																pos: position{line: 2875, col: 13, offset: 90859},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2872, col: 13, offset: 90788},
+																		pos:        position{line: 2875, col: 13, offset: 90859},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2872, col: 20, offset: 90795},
+																		pos:        position{line: 2875, col: 20, offset: 90866},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2872, col: 29, offset: 90804},
+																		pos:        position{line: 2875, col: 29, offset: 90875},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -39587,12 +39591,12 @@ var g = &grammar{
 																		pos:   position{line: 2473, col: 49, offset: 79621},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2809, col: 13, offset: 89142},
+																			pos: position{line: 2812, col: 13, offset: 89213},
 																			run: (*parser).callonShortcutParagraph284,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2809, col: 13, offset: 89142},
+																				pos: position{line: 2812, col: 13, offset: 89213},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2809, col: 13, offset: 89142},
+																					pos:        position{line: 2812, col: 13, offset: 89213},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39602,28 +39606,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2885, col: 8, offset: 91014},
+																		pos: position{line: 2888, col: 8, offset: 91085},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2872, col: 12, offset: 90787},
+																				pos: position{line: 2875, col: 12, offset: 90858},
 																				run: (*parser).callonShortcutParagraph288,
 																				expr: &choiceExpr{
-																					pos: position{line: 2872, col: 13, offset: 90788},
+																					pos: position{line: 2875, col: 13, offset: 90859},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 13, offset: 90788},
+																							pos:        position{line: 2875, col: 13, offset: 90859},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 20, offset: 90795},
+																							pos:        position{line: 2875, col: 20, offset: 90866},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 29, offset: 90804},
+																							pos:        position{line: 2875, col: 29, offset: 90875},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39632,9 +39636,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2882, col: 8, offset: 90964},
+																				pos: position{line: 2885, col: 8, offset: 91035},
 																				expr: &anyMatcher{
-																					line: 2882, col: 9, offset: 90965,
+																					line: 2885, col: 9, offset: 91036,
 																				},
 																			},
 																		},
@@ -39652,12 +39656,12 @@ var g = &grammar{
 																		pos:   position{line: 1785, col: 5, offset: 57782},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2813, col: 14, offset: 89209},
+																			pos: position{line: 2816, col: 14, offset: 89280},
 																			run: (*parser).callonShortcutParagraph298,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2813, col: 14, offset: 89209},
+																				pos: position{line: 2816, col: 14, offset: 89280},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2813, col: 14, offset: 89209},
+																					pos:        position{line: 2816, col: 14, offset: 89280},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39671,28 +39675,28 @@ var g = &grammar{
 																		run: (*parser).callonShortcutParagraph301,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2885, col: 8, offset: 91014},
+																		pos: position{line: 2888, col: 8, offset: 91085},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2872, col: 12, offset: 90787},
+																				pos: position{line: 2875, col: 12, offset: 90858},
 																				run: (*parser).callonShortcutParagraph303,
 																				expr: &choiceExpr{
-																					pos: position{line: 2872, col: 13, offset: 90788},
+																					pos: position{line: 2875, col: 13, offset: 90859},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 13, offset: 90788},
+																							pos:        position{line: 2875, col: 13, offset: 90859},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 20, offset: 90795},
+																							pos:        position{line: 2875, col: 20, offset: 90866},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 29, offset: 90804},
+																							pos:        position{line: 2875, col: 29, offset: 90875},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39701,9 +39705,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2882, col: 8, offset: 90964},
+																				pos: position{line: 2885, col: 8, offset: 91035},
 																				expr: &anyMatcher{
-																					line: 2882, col: 9, offset: 90965,
+																					line: 2885, col: 9, offset: 91036,
 																				},
 																			},
 																		},
@@ -39809,12 +39813,12 @@ var g = &grammar{
 															expr: &andExpr{
 																pos: position{line: 1739, col: 13, offset: 56292},
 																expr: &actionExpr{
-																	pos: position{line: 2867, col: 11, offset: 90677},
+																	pos: position{line: 2870, col: 11, offset: 90748},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2867, col: 11, offset: 90677},
+																		pos: position{line: 2870, col: 11, offset: 90748},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2867, col: 11, offset: 90677},
+																			pos:        position{line: 2870, col: 11, offset: 90748},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -39835,10 +39839,10 @@ var g = &grammar{
 														&zeroOrMoreExpr{
 															pos: position{line: 1741, col: 14, offset: 56364},
 															expr: &actionExpr{
-																pos: position{line: 2863, col: 10, offset: 90616},
+																pos: position{line: 2866, col: 10, offset: 90687},
 																run: (*parser).callonParagraph28,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2863, col: 10, offset: 90616},
+																	pos:        position{line: 2866, col: 10, offset: 90687},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -39847,28 +39851,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2885, col: 8, offset: 91014},
+															pos: position{line: 2888, col: 8, offset: 91085},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2872, col: 12, offset: 90787},
+																	pos: position{line: 2875, col: 12, offset: 90858},
 																	run: (*parser).callonParagraph31,
 																	expr: &choiceExpr{
-																		pos: position{line: 2872, col: 13, offset: 90788},
+																		pos: position{line: 2875, col: 13, offset: 90859},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2872, col: 13, offset: 90788},
+																				pos:        position{line: 2875, col: 13, offset: 90859},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2872, col: 20, offset: 90795},
+																				pos:        position{line: 2875, col: 20, offset: 90866},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2872, col: 29, offset: 90804},
+																				pos:        position{line: 2875, col: 29, offset: 90875},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -39877,9 +39881,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2882, col: 8, offset: 90964},
+																	pos: position{line: 2885, col: 8, offset: 91035},
 																	expr: &anyMatcher{
-																		line: 2882, col: 9, offset: 90965,
+																		line: 2885, col: 9, offset: 91036,
 																	},
 																},
 															},
@@ -39905,12 +39909,12 @@ var g = &grammar{
 											pos:   position{line: 1785, col: 5, offset: 57782},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2813, col: 14, offset: 89209},
+												pos: position{line: 2816, col: 14, offset: 89280},
 												run: (*parser).callonParagraph42,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2813, col: 14, offset: 89209},
+													pos: position{line: 2816, col: 14, offset: 89280},
 													expr: &charClassMatcher{
-														pos:        position{line: 2813, col: 14, offset: 89209},
+														pos:        position{line: 2816, col: 14, offset: 89280},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -39924,28 +39928,28 @@ var g = &grammar{
 											run: (*parser).callonParagraph45,
 										},
 										&choiceExpr{
-											pos: position{line: 2885, col: 8, offset: 91014},
+											pos: position{line: 2888, col: 8, offset: 91085},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2872, col: 12, offset: 90787},
+													pos: position{line: 2875, col: 12, offset: 90858},
 													run: (*parser).callonParagraph47,
 													expr: &choiceExpr{
-														pos: position{line: 2872, col: 13, offset: 90788},
+														pos: position{line: 2875, col: 13, offset: 90859},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2872, col: 13, offset: 90788},
+																pos:        position{line: 2875, col: 13, offset: 90859},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2872, col: 20, offset: 90795},
+																pos:        position{line: 2875, col: 20, offset: 90866},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2872, col: 29, offset: 90804},
+																pos:        position{line: 2875, col: 29, offset: 90875},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -39954,9 +39958,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2882, col: 8, offset: 90964},
+													pos: position{line: 2885, col: 8, offset: 91035},
 													expr: &anyMatcher{
-														line: 2882, col: 9, offset: 90965,
+														line: 2885, col: 9, offset: 91036,
 													},
 												},
 											},
@@ -39977,9 +39981,9 @@ var g = &grammar{
 										pos: position{line: 1774, col: 9, offset: 57488},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2880, col: 11, offset: 90950},
+												pos: position{line: 2883, col: 11, offset: 91021},
 												expr: &anyMatcher{
-													line: 2880, col: 13, offset: 90952,
+													line: 2883, col: 13, offset: 91023,
 												},
 											},
 											&notExpr{
@@ -39991,18 +39995,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21557},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2880, col: 11, offset: 90950},
+																pos: position{line: 2883, col: 11, offset: 91021},
 																expr: &anyMatcher{
-																	line: 2880, col: 13, offset: 90952,
+																	line: 2883, col: 13, offset: 91023,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21564},
 																expr: &actionExpr{
-																	pos: position{line: 2863, col: 10, offset: 90616},
+																	pos: position{line: 2866, col: 10, offset: 90687},
 																	run: (*parser).callonParagraph66,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2863, col: 10, offset: 90616},
+																		pos:        position{line: 2866, col: 10, offset: 90687},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -40011,28 +40015,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2885, col: 8, offset: 91014},
+																pos: position{line: 2888, col: 8, offset: 91085},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2872, col: 12, offset: 90787},
+																		pos: position{line: 2875, col: 12, offset: 90858},
 																		run: (*parser).callonParagraph69,
 																		expr: &choiceExpr{
-																			pos: position{line: 2872, col: 13, offset: 90788},
+																			pos: position{line: 2875, col: 13, offset: 90859},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2872, col: 13, offset: 90788},
+																					pos:        position{line: 2875, col: 13, offset: 90859},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2872, col: 20, offset: 90795},
+																					pos:        position{line: 2875, col: 20, offset: 90866},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2872, col: 29, offset: 90804},
+																					pos:        position{line: 2875, col: 29, offset: 90875},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -40041,9 +40045,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2882, col: 8, offset: 90964},
+																		pos: position{line: 2885, col: 8, offset: 91035},
 																		expr: &anyMatcher{
-																			line: 2882, col: 9, offset: 90965,
+																			line: 2885, col: 9, offset: 91036,
 																		},
 																	},
 																},
@@ -40090,12 +40094,12 @@ var g = &grammar{
 																		pos:   position{line: 2473, col: 49, offset: 79621},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2809, col: 13, offset: 89142},
+																			pos: position{line: 2812, col: 13, offset: 89213},
 																			run: (*parser).callonParagraph86,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2809, col: 13, offset: 89142},
+																				pos: position{line: 2812, col: 13, offset: 89213},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2809, col: 13, offset: 89142},
+																					pos:        position{line: 2812, col: 13, offset: 89213},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40105,28 +40109,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2885, col: 8, offset: 91014},
+																		pos: position{line: 2888, col: 8, offset: 91085},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2872, col: 12, offset: 90787},
+																				pos: position{line: 2875, col: 12, offset: 90858},
 																				run: (*parser).callonParagraph90,
 																				expr: &choiceExpr{
-																					pos: position{line: 2872, col: 13, offset: 90788},
+																					pos: position{line: 2875, col: 13, offset: 90859},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 13, offset: 90788},
+																							pos:        position{line: 2875, col: 13, offset: 90859},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 20, offset: 90795},
+																							pos:        position{line: 2875, col: 20, offset: 90866},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 29, offset: 90804},
+																							pos:        position{line: 2875, col: 29, offset: 90875},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40135,9 +40139,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2882, col: 8, offset: 90964},
+																				pos: position{line: 2885, col: 8, offset: 91035},
 																				expr: &anyMatcher{
-																					line: 2882, col: 9, offset: 90965,
+																					line: 2885, col: 9, offset: 91036,
 																				},
 																			},
 																		},
@@ -40155,12 +40159,12 @@ var g = &grammar{
 																		pos:   position{line: 1785, col: 5, offset: 57782},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2813, col: 14, offset: 89209},
+																			pos: position{line: 2816, col: 14, offset: 89280},
 																			run: (*parser).callonParagraph100,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2813, col: 14, offset: 89209},
+																				pos: position{line: 2816, col: 14, offset: 89280},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2813, col: 14, offset: 89209},
+																					pos:        position{line: 2816, col: 14, offset: 89280},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40174,28 +40178,28 @@ var g = &grammar{
 																		run: (*parser).callonParagraph103,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2885, col: 8, offset: 91014},
+																		pos: position{line: 2888, col: 8, offset: 91085},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2872, col: 12, offset: 90787},
+																				pos: position{line: 2875, col: 12, offset: 90858},
 																				run: (*parser).callonParagraph105,
 																				expr: &choiceExpr{
-																					pos: position{line: 2872, col: 13, offset: 90788},
+																					pos: position{line: 2875, col: 13, offset: 90859},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 13, offset: 90788},
+																							pos:        position{line: 2875, col: 13, offset: 90859},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 20, offset: 90795},
+																							pos:        position{line: 2875, col: 20, offset: 90866},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 29, offset: 90804},
+																							pos:        position{line: 2875, col: 29, offset: 90875},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40204,9 +40208,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2882, col: 8, offset: 90964},
+																				pos: position{line: 2885, col: 8, offset: 91035},
 																				expr: &anyMatcher{
-																					line: 2882, col: 9, offset: 90965,
+																					line: 2885, col: 9, offset: 91036,
 																				},
 																			},
 																		},
@@ -40419,21 +40423,21 @@ var g = &grammar{
 				pos: position{line: 1851, col: 5, offset: 59749},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2762, col: 5, offset: 87858},
+						pos: position{line: 2765, col: 5, offset: 87929},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2762, col: 5, offset: 87858},
+							pos: position{line: 2765, col: 5, offset: 87929},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2762, col: 5, offset: 87858},
+									pos:   position{line: 2765, col: 5, offset: 87929},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2762, col: 11, offset: 87864},
+										pos: position{line: 2765, col: 11, offset: 87935},
 										run: (*parser).callonQuotedTextElement5,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2762, col: 11, offset: 87864},
+											pos: position{line: 2765, col: 11, offset: 87935},
 											expr: &charClassMatcher{
-												pos:        position{line: 2762, col: 11, offset: 87864},
+												pos:        position{line: 2765, col: 11, offset: 87935},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40443,36 +40447,36 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2765, col: 5, offset: 87922},
+									pos: position{line: 2768, col: 5, offset: 87993},
 									expr: &seqExpr{
-										pos: position{line: 2766, col: 9, offset: 87933},
+										pos: position{line: 2769, col: 9, offset: 88004},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2766, col: 9, offset: 87933},
+												pos:        position{line: 2769, col: 9, offset: 88004},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2767, col: 9, offset: 87982},
+												pos: position{line: 2770, col: 9, offset: 88053},
 												run: (*parser).callonQuotedTextElement11,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2771, col: 5, offset: 88062},
+									pos: position{line: 2774, col: 5, offset: 88133},
 									expr: &seqExpr{
-										pos: position{line: 2772, col: 9, offset: 88073},
+										pos: position{line: 2775, col: 9, offset: 88144},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2772, col: 9, offset: 88073},
+												pos:        position{line: 2775, col: 9, offset: 88144},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2772, col: 13, offset: 88077},
+												pos:        position{line: 2775, col: 13, offset: 88148},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40485,12 +40489,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2867, col: 11, offset: 90677},
+						pos: position{line: 2870, col: 11, offset: 90748},
 						run: (*parser).callonQuotedTextElement16,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2867, col: 11, offset: 90677},
+							pos: position{line: 2870, col: 11, offset: 90748},
 							expr: &charClassMatcher{
-								pos:        position{line: 2867, col: 11, offset: 90677},
+								pos:        position{line: 2870, col: 11, offset: 90748},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -40508,16 +40512,20 @@ var g = &grammar{
 						expr: &seqExpr{
 							pos: position{line: 2491, col: 5, offset: 80311},
 							exprs: []interface{}{
+								&andCodeExpr{
+									pos: position{line: 2491, col: 5, offset: 80311},
+									run: (*parser).callonQuotedTextElement22,
+								},
 								&litMatcher{
-									pos:        position{line: 2491, col: 5, offset: 80311},
+									pos:        position{line: 2494, col: 5, offset: 80382},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2491, col: 10, offset: 80316},
+									pos: position{line: 2494, col: 10, offset: 80387},
 									expr: &charClassMatcher{
-										pos:        position{line: 2491, col: 11, offset: 80317},
+										pos:        position{line: 2494, col: 11, offset: 80388},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -40528,29 +40536,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2497, col: 5, offset: 80509},
-						run: (*parser).callonQuotedTextElement25,
+						pos: position{line: 2500, col: 5, offset: 80580},
+						run: (*parser).callonQuotedTextElement26,
 						expr: &seqExpr{
-							pos: position{line: 2497, col: 5, offset: 80509},
+							pos: position{line: 2500, col: 5, offset: 80580},
 							exprs: []interface{}{
-								&andCodeExpr{
-									pos: position{line: 2497, col: 5, offset: 80509},
-									run: (*parser).callonQuotedTextElement27,
-								},
 								&andCodeExpr{
 									pos: position{line: 2500, col: 5, offset: 80580},
 									run: (*parser).callonQuotedTextElement28,
 								},
+								&andCodeExpr{
+									pos: position{line: 2503, col: 5, offset: 80651},
+									run: (*parser).callonQuotedTextElement29,
+								},
 								&litMatcher{
-									pos:        position{line: 2504, col: 5, offset: 80705},
+									pos:        position{line: 2507, col: 5, offset: 80776},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2504, col: 9, offset: 80709},
+									pos: position{line: 2507, col: 9, offset: 80780},
 									expr: &charClassMatcher{
-										pos:        position{line: 2504, col: 10, offset: 80710},
+										pos:        position{line: 2507, col: 10, offset: 80781},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -40561,27 +40569,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2780, col: 5, offset: 88270},
-						run: (*parser).callonQuotedTextElement32,
+						pos: position{line: 2783, col: 5, offset: 88341},
+						run: (*parser).callonQuotedTextElement33,
 						expr: &choiceExpr{
-							pos: position{line: 2781, col: 9, offset: 88280},
+							pos: position{line: 2784, col: 9, offset: 88351},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2781, col: 10, offset: 88281},
+									pos:        position{line: 2784, col: 10, offset: 88352},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2783, col: 13, offset: 88378},
+									pos: position{line: 2786, col: 13, offset: 88449},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2783, col: 13, offset: 88378},
-											run: (*parser).callonQuotedTextElement36,
+											pos: position{line: 2786, col: 13, offset: 88449},
+											run: (*parser).callonQuotedTextElement37,
 										},
 										&litMatcher{
-											pos:        position{line: 2786, col: 13, offset: 88478},
+											pos:        position{line: 2789, col: 13, offset: 88549},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -40589,20 +40597,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2786, col: 19, offset: 88484},
+									pos:        position{line: 2789, col: 19, offset: 88555},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2789, col: 13, offset: 88522},
+									pos: position{line: 2792, col: 13, offset: 88593},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2789, col: 13, offset: 88522},
-											run: (*parser).callonQuotedTextElement40,
+											pos: position{line: 2792, col: 13, offset: 88593},
+											run: (*parser).callonQuotedTextElement41,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2792, col: 14, offset: 88615},
+											pos:        position{line: 2795, col: 14, offset: 88686},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -40611,18 +40619,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2794, col: 12, offset: 88659},
+									pos: position{line: 2797, col: 12, offset: 88730},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2794, col: 12, offset: 88659},
+											pos:        position{line: 2797, col: 12, offset: 88730},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2794, col: 16, offset: 88663},
+											pos: position{line: 2797, col: 16, offset: 88734},
 											expr: &litMatcher{
-												pos:        position{line: 2794, col: 17, offset: 88664},
+												pos:        position{line: 2797, col: 17, offset: 88735},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -40635,13 +40643,13 @@ var g = &grammar{
 					},
 					&actionExpr{
 						pos: position{line: 636, col: 5, offset: 20177},
-						run: (*parser).callonQuotedTextElement46,
+						run: (*parser).callonQuotedTextElement47,
 						expr: &seqExpr{
 							pos: position{line: 636, col: 5, offset: 20177},
 							exprs: []interface{}{
 								&andCodeExpr{
 									pos: position{line: 636, col: 5, offset: 20177},
-									run: (*parser).callonQuotedTextElement48,
+									run: (*parser).callonQuotedTextElement49,
 								},
 								&labeledExpr{
 									pos:   position{line: 639, col: 5, offset: 20249},
@@ -40651,7 +40659,7 @@ var g = &grammar{
 										alternatives: []interface{}{
 											&actionExpr{
 												pos: position{line: 645, col: 5, offset: 20387},
-												run: (*parser).callonQuotedTextElement51,
+												run: (*parser).callonQuotedTextElement52,
 												expr: &seqExpr{
 													pos: position{line: 645, col: 5, offset: 20387},
 													exprs: []interface{}{
@@ -40666,7 +40674,7 @@ var g = &grammar{
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 318, col: 18, offset: 9729},
-																run: (*parser).callonQuotedTextElement55,
+																run: (*parser).callonQuotedTextElement56,
 																expr: &seqExpr{
 																	pos: position{line: 318, col: 18, offset: 9729},
 																	exprs: []interface{}{
@@ -40704,7 +40712,7 @@ var g = &grammar{
 											},
 											&actionExpr{
 												pos: position{line: 652, col: 5, offset: 20655},
-												run: (*parser).callonQuotedTextElement61,
+												run: (*parser).callonQuotedTextElement62,
 												expr: &seqExpr{
 													pos: position{line: 652, col: 5, offset: 20655},
 													exprs: []interface{}{
@@ -40719,7 +40727,7 @@ var g = &grammar{
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 318, col: 18, offset: 9729},
-																run: (*parser).callonQuotedTextElement65,
+																run: (*parser).callonQuotedTextElement66,
 																expr: &seqExpr{
 																	pos: position{line: 318, col: 18, offset: 9729},
 																	exprs: []interface{}{
@@ -40757,7 +40765,7 @@ var g = &grammar{
 											},
 											&actionExpr{
 												pos: position{line: 658, col: 25, offset: 20859},
-												run: (*parser).callonQuotedTextElement71,
+												run: (*parser).callonQuotedTextElement72,
 												expr: &seqExpr{
 													pos: position{line: 658, col: 25, offset: 20859},
 													exprs: []interface{}{
@@ -40772,7 +40780,7 @@ var g = &grammar{
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 318, col: 18, offset: 9729},
-																run: (*parser).callonQuotedTextElement75,
+																run: (*parser).callonQuotedTextElement76,
 																expr: &seqExpr{
 																	pos: position{line: 318, col: 18, offset: 9729},
 																	exprs: []interface{}{
@@ -40806,7 +40814,7 @@ var g = &grammar{
 																pos: position{line: 658, col: 62, offset: 20896},
 																expr: &actionExpr{
 																	pos: position{line: 666, col: 17, offset: 21191},
-																	run: (*parser).callonQuotedTextElement82,
+																	run: (*parser).callonQuotedTextElement83,
 																	expr: &seqExpr{
 																		pos: position{line: 666, col: 17, offset: 21191},
 																		exprs: []interface{}{
@@ -40824,7 +40832,7 @@ var g = &grammar{
 																					alternatives: []interface{}{
 																						&actionExpr{
 																							pos: position{line: 666, col: 28, offset: 21202},
-																							run: (*parser).callonQuotedTextElement87,
+																							run: (*parser).callonQuotedTextElement88,
 																							expr: &charClassMatcher{
 																								pos:        position{line: 666, col: 28, offset: 21202},
 																								val:        "[A-Za-z]",
@@ -40835,7 +40843,7 @@ var g = &grammar{
 																						},
 																						&actionExpr{
 																							pos: position{line: 668, col: 9, offset: 21256},
-																							run: (*parser).callonQuotedTextElement89,
+																							run: (*parser).callonQuotedTextElement90,
 																							expr: &oneOrMoreExpr{
 																								pos: position{line: 668, col: 9, offset: 21256},
 																								expr: &charClassMatcher{
@@ -40866,7 +40874,7 @@ var g = &grammar{
 											},
 											&actionExpr{
 												pos: position{line: 662, col: 25, offset: 21030},
-												run: (*parser).callonQuotedTextElement93,
+												run: (*parser).callonQuotedTextElement94,
 												expr: &seqExpr{
 													pos: position{line: 662, col: 25, offset: 21030},
 													exprs: []interface{}{
@@ -40881,7 +40889,7 @@ var g = &grammar{
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 318, col: 18, offset: 9729},
-																run: (*parser).callonQuotedTextElement97,
+																run: (*parser).callonQuotedTextElement98,
 																expr: &seqExpr{
 																	pos: position{line: 318, col: 18, offset: 9729},
 																	exprs: []interface{}{
@@ -40915,7 +40923,7 @@ var g = &grammar{
 																pos: position{line: 662, col: 63, offset: 21068},
 																expr: &actionExpr{
 																	pos: position{line: 666, col: 17, offset: 21191},
-																	run: (*parser).callonQuotedTextElement104,
+																	run: (*parser).callonQuotedTextElement105,
 																	expr: &seqExpr{
 																		pos: position{line: 666, col: 17, offset: 21191},
 																		exprs: []interface{}{
@@ -40933,7 +40941,7 @@ var g = &grammar{
 																					alternatives: []interface{}{
 																						&actionExpr{
 																							pos: position{line: 666, col: 28, offset: 21202},
-																							run: (*parser).callonQuotedTextElement109,
+																							run: (*parser).callonQuotedTextElement110,
 																							expr: &charClassMatcher{
 																								pos:        position{line: 666, col: 28, offset: 21202},
 																								val:        "[A-Za-z]",
@@ -40944,7 +40952,7 @@ var g = &grammar{
 																						},
 																						&actionExpr{
 																							pos: position{line: 668, col: 9, offset: 21256},
-																							run: (*parser).callonQuotedTextElement111,
+																							run: (*parser).callonQuotedTextElement112,
 																							expr: &oneOrMoreExpr{
 																								pos: position{line: 668, col: 9, offset: 21256},
 																								expr: &charClassMatcher{
@@ -40980,31 +40988,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2876, col: 18, offset: 90887},
-						run: (*parser).callonQuotedTextElement115,
+						pos: position{line: 2879, col: 18, offset: 90958},
+						run: (*parser).callonQuotedTextElement116,
 						expr: &seqExpr{
-							pos: position{line: 2876, col: 18, offset: 90887},
+							pos: position{line: 2879, col: 18, offset: 90958},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2872, col: 12, offset: 90787},
-									run: (*parser).callonQuotedTextElement117,
+									pos: position{line: 2875, col: 12, offset: 90858},
+									run: (*parser).callonQuotedTextElement118,
 									expr: &choiceExpr{
-										pos: position{line: 2872, col: 13, offset: 90788},
+										pos: position{line: 2875, col: 13, offset: 90859},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2872, col: 13, offset: 90788},
+												pos:        position{line: 2875, col: 13, offset: 90859},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2872, col: 20, offset: 90795},
+												pos:        position{line: 2875, col: 20, offset: 90866},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2872, col: 29, offset: 90804},
+												pos:        position{line: 2875, col: 29, offset: 90875},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -41013,27 +41021,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2876, col: 26, offset: 90895},
+									pos: position{line: 2879, col: 26, offset: 90966},
 									expr: &actionExpr{
-										pos: position{line: 2872, col: 12, offset: 90787},
-										run: (*parser).callonQuotedTextElement123,
+										pos: position{line: 2875, col: 12, offset: 90858},
+										run: (*parser).callonQuotedTextElement124,
 										expr: &choiceExpr{
-											pos: position{line: 2872, col: 13, offset: 90788},
+											pos: position{line: 2875, col: 13, offset: 90859},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2872, col: 13, offset: 90788},
+													pos:        position{line: 2875, col: 13, offset: 90859},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2872, col: 20, offset: 90795},
+													pos:        position{line: 2875, col: 20, offset: 90866},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2872, col: 29, offset: 90804},
+													pos:        position{line: 2875, col: 29, offset: 90875},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -41055,20 +41063,20 @@ var g = &grammar{
 					},
 					&actionExpr{
 						pos: position{line: 2460, col: 5, offset: 79140},
-						run: (*parser).callonQuotedTextElement130,
+						run: (*parser).callonQuotedTextElement131,
 						expr: &seqExpr{
 							pos: position{line: 2460, col: 5, offset: 79140},
 							exprs: []interface{}{
 								&andCodeExpr{
 									pos: position{line: 2460, col: 5, offset: 79140},
-									run: (*parser).callonQuotedTextElement132,
+									run: (*parser).callonQuotedTextElement133,
 								},
 								&labeledExpr{
 									pos:   position{line: 2463, col: 5, offset: 79216},
 									label: "element",
 									expr: &actionExpr{
 										pos: position{line: 2464, col: 9, offset: 79234},
-										run: (*parser).callonQuotedTextElement134,
+										run: (*parser).callonQuotedTextElement135,
 										expr: &charClassMatcher{
 											pos:        position{line: 2464, col: 10, offset: 79235},
 											val:        "[<>&]",
@@ -41083,7 +41091,7 @@ var g = &grammar{
 					},
 					&actionExpr{
 						pos: position{line: 1198, col: 23, offset: 37045},
-						run: (*parser).callonQuotedTextElement136,
+						run: (*parser).callonQuotedTextElement137,
 						expr: &seqExpr{
 							pos: position{line: 1198, col: 23, offset: 37045},
 							exprs: []interface{}{
@@ -41098,7 +41106,7 @@ var g = &grammar{
 									label: "ref",
 									expr: &actionExpr{
 										pos: position{line: 1198, col: 56, offset: 37078},
-										run: (*parser).callonQuotedTextElement140,
+										run: (*parser).callonQuotedTextElement141,
 										expr: &oneOrMoreExpr{
 											pos: position{line: 1198, col: 56, offset: 37078},
 											expr: &charClassMatcher{
@@ -41121,10 +41129,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2802, col: 12, offset: 88924},
-						run: (*parser).callonQuotedTextElement144,
+						pos: position{line: 2805, col: 12, offset: 88995},
+						run: (*parser).callonQuotedTextElement145,
 						expr: &charClassMatcher{
-							pos:        position{line: 2802, col: 12, offset: 88924},
+							pos:        position{line: 2805, col: 12, offset: 88995},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -41188,9 +41196,9 @@ var g = &grammar{
 					pos: position{line: 1887, col: 5, offset: 60830},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2880, col: 11, offset: 90950},
+							pos: position{line: 2883, col: 11, offset: 91021},
 							expr: &anyMatcher{
-								line: 2880, col: 13, offset: 90952,
+								line: 2883, col: 13, offset: 91023,
 							},
 						},
 						&notExpr{
@@ -41277,7 +41285,7 @@ var g = &grammar{
 							expr: &notExpr{
 								pos: position{line: 1912, col: 7, offset: 61555},
 								expr: &charClassMatcher{
-									pos:        position{line: 2753, col: 13, offset: 87711},
+									pos:        position{line: 2756, col: 13, offset: 87782},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -41301,10 +41309,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 1922, col: 5, offset: 61840},
 							expr: &actionExpr{
-								pos: position{line: 2863, col: 10, offset: 90616},
+								pos: position{line: 2866, col: 10, offset: 90687},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2863, col: 10, offset: 90616},
+									pos:        position{line: 2866, col: 10, offset: 90687},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41341,9 +41349,9 @@ var g = &grammar{
 					pos: position{line: 1931, col: 5, offset: 62099},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2880, col: 11, offset: 90950},
+							pos: position{line: 2883, col: 11, offset: 91021},
 							expr: &anyMatcher{
-								line: 2880, col: 13, offset: 90952,
+								line: 2883, col: 13, offset: 91023,
 							},
 						},
 						&notExpr{
@@ -41375,7 +41383,7 @@ var g = &grammar{
 										expr: &notExpr{
 											pos: position{line: 1912, col: 7, offset: 61555},
 											expr: &charClassMatcher{
-												pos:        position{line: 2753, col: 13, offset: 87711},
+												pos:        position{line: 2756, col: 13, offset: 87782},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41610,9 +41618,9 @@ var g = &grammar{
 					pos: position{line: 1976, col: 5, offset: 63752},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2880, col: 11, offset: 90950},
+							pos: position{line: 2883, col: 11, offset: 91021},
 							expr: &anyMatcher{
-								line: 2880, col: 13, offset: 90952,
+								line: 2883, col: 13, offset: 91023,
 							},
 						},
 						&notExpr{
@@ -41699,7 +41707,7 @@ var g = &grammar{
 							expr: &notExpr{
 								pos: position{line: 2002, col: 7, offset: 64483},
 								expr: &charClassMatcher{
-									pos:        position{line: 2753, col: 13, offset: 87711},
+									pos:        position{line: 2756, col: 13, offset: 87782},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -41723,10 +41731,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 2012, col: 5, offset: 64780},
 							expr: &actionExpr{
-								pos: position{line: 2863, col: 10, offset: 90616},
+								pos: position{line: 2866, col: 10, offset: 90687},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2863, col: 10, offset: 90616},
+									pos:        position{line: 2866, col: 10, offset: 90687},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41763,9 +41771,9 @@ var g = &grammar{
 					pos: position{line: 2021, col: 5, offset: 65042},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2880, col: 11, offset: 90950},
+							pos: position{line: 2883, col: 11, offset: 91021},
 							expr: &anyMatcher{
-								line: 2880, col: 13, offset: 90952,
+								line: 2883, col: 13, offset: 91023,
 							},
 						},
 						&notExpr{
@@ -41797,7 +41805,7 @@ var g = &grammar{
 										expr: &notExpr{
 											pos: position{line: 2002, col: 7, offset: 64483},
 											expr: &charClassMatcher{
-												pos:        position{line: 2753, col: 13, offset: 87711},
+												pos:        position{line: 2756, col: 13, offset: 87782},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42032,9 +42040,9 @@ var g = &grammar{
 					pos: position{line: 2066, col: 5, offset: 66871},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2880, col: 11, offset: 90950},
+							pos: position{line: 2883, col: 11, offset: 91021},
 							expr: &anyMatcher{
-								line: 2880, col: 13, offset: 90952,
+								line: 2883, col: 13, offset: 91023,
 							},
 						},
 						&notExpr{
@@ -42086,7 +42094,7 @@ var g = &grammar{
 						expr: &notExpr{
 							pos: position{line: 2093, col: 7, offset: 67664},
 							expr: &charClassMatcher{
-								pos:        position{line: 2753, col: 13, offset: 87711},
+								pos:        position{line: 2756, col: 13, offset: 87782},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -42156,10 +42164,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 2104, col: 5, offset: 67985},
 							expr: &actionExpr{
-								pos: position{line: 2863, col: 10, offset: 90616},
+								pos: position{line: 2866, col: 10, offset: 90687},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2863, col: 10, offset: 90616},
+									pos:        position{line: 2866, col: 10, offset: 90687},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42196,9 +42204,9 @@ var g = &grammar{
 					pos: position{line: 2113, col: 5, offset: 68253},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2880, col: 11, offset: 90950},
+							pos: position{line: 2883, col: 11, offset: 91021},
 							expr: &anyMatcher{
-								line: 2880, col: 13, offset: 90952,
+								line: 2883, col: 13, offset: 91023,
 							},
 						},
 						&notExpr{
@@ -42432,9 +42440,9 @@ var g = &grammar{
 					pos: position{line: 2158, col: 5, offset: 69965},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2880, col: 11, offset: 90950},
+							pos: position{line: 2883, col: 11, offset: 91021},
 							expr: &anyMatcher{
-								line: 2880, col: 13, offset: 90952,
+								line: 2883, col: 13, offset: 91023,
 							},
 						},
 						&notExpr{
@@ -42521,7 +42529,7 @@ var g = &grammar{
 							expr: &notExpr{
 								pos: position{line: 2183, col: 7, offset: 70694},
 								expr: &charClassMatcher{
-									pos:        position{line: 2753, col: 13, offset: 87711},
+									pos:        position{line: 2756, col: 13, offset: 87782},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -42545,10 +42553,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 2193, col: 5, offset: 70991},
 							expr: &actionExpr{
-								pos: position{line: 2863, col: 10, offset: 90616},
+								pos: position{line: 2866, col: 10, offset: 90687},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2863, col: 10, offset: 90616},
+									pos:        position{line: 2866, col: 10, offset: 90687},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42585,9 +42593,9 @@ var g = &grammar{
 					pos: position{line: 2202, col: 5, offset: 71254},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2880, col: 11, offset: 90950},
+							pos: position{line: 2883, col: 11, offset: 91021},
 							expr: &anyMatcher{
-								line: 2880, col: 13, offset: 90952,
+								line: 2883, col: 13, offset: 91023,
 							},
 						},
 						&notExpr{
@@ -42619,7 +42627,7 @@ var g = &grammar{
 										expr: &notExpr{
 											pos: position{line: 2183, col: 7, offset: 70694},
 											expr: &charClassMatcher{
-												pos:        position{line: 2753, col: 13, offset: 87711},
+												pos:        position{line: 2756, col: 13, offset: 87782},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -43129,12 +43137,12 @@ var g = &grammar{
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2867, col: 11, offset: 90677},
+							pos: position{line: 2870, col: 11, offset: 90748},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2867, col: 11, offset: 90677},
+								pos: position{line: 2870, col: 11, offset: 90748},
 								expr: &charClassMatcher{
-									pos:        position{line: 2867, col: 11, offset: 90677},
+									pos:        position{line: 2870, col: 11, offset: 90748},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43151,28 +43159,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2885, col: 8, offset: 91014},
+							pos: position{line: 2888, col: 8, offset: 91085},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2872, col: 12, offset: 90787},
+									pos: position{line: 2875, col: 12, offset: 90858},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2872, col: 13, offset: 90788},
+										pos: position{line: 2875, col: 13, offset: 90859},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2872, col: 13, offset: 90788},
+												pos:        position{line: 2875, col: 13, offset: 90859},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2872, col: 20, offset: 90795},
+												pos:        position{line: 2875, col: 20, offset: 90866},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2872, col: 29, offset: 90804},
+												pos:        position{line: 2875, col: 29, offset: 90875},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -43181,9 +43189,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2882, col: 8, offset: 90964},
+									pos: position{line: 2885, col: 8, offset: 91035},
 									expr: &anyMatcher{
-										line: 2882, col: 9, offset: 90965,
+										line: 2885, col: 9, offset: 91036,
 									},
 								},
 							},
@@ -43232,28 +43240,28 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 2309, col: 5, offset: 74894},
 							expr: &choiceExpr{
-								pos: position{line: 2885, col: 8, offset: 91014},
+								pos: position{line: 2888, col: 8, offset: 91085},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2872, col: 12, offset: 90787},
+										pos: position{line: 2875, col: 12, offset: 90858},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2872, col: 13, offset: 90788},
+											pos: position{line: 2875, col: 13, offset: 90859},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2872, col: 13, offset: 90788},
+													pos:        position{line: 2875, col: 13, offset: 90859},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2872, col: 20, offset: 90795},
+													pos:        position{line: 2875, col: 20, offset: 90866},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2872, col: 29, offset: 90804},
+													pos:        position{line: 2875, col: 29, offset: 90875},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -43262,9 +43270,9 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2882, col: 8, offset: 90964},
+										pos: position{line: 2885, col: 8, offset: 91035},
 										expr: &anyMatcher{
-											line: 2882, col: 9, offset: 90965,
+											line: 2885, col: 9, offset: 91036,
 										},
 									},
 								},
@@ -43281,10 +43289,10 @@ var g = &grammar{
 										name: "SectionTitleLineElement",
 									},
 									&actionExpr{
-										pos: position{line: 2802, col: 12, offset: 88924},
+										pos: position{line: 2805, col: 12, offset: 88995},
 										run: (*parser).callonSectionTitleElement15,
 										expr: &charClassMatcher{
-											pos:        position{line: 2802, col: 12, offset: 88924},
+											pos:        position{line: 2805, col: 12, offset: 88995},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -43311,10 +43319,10 @@ var g = &grammar{
 							pos:   position{line: 2316, col: 5, offset: 75047},
 							label: "start",
 							expr: &actionExpr{
-								pos: position{line: 2888, col: 16, offset: 91138},
+								pos: position{line: 2891, col: 16, offset: 91209},
 								run: (*parser).callonSectionTitleLineElement4,
 								expr: &litMatcher{
-									pos:        position{line: 2888, col: 16, offset: 91138},
+									pos:        position{line: 2891, col: 16, offset: 91209},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -43328,21 +43336,21 @@ var g = &grammar{
 								pos: position{line: 2318, col: 9, offset: 75089},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2762, col: 5, offset: 87858},
+										pos: position{line: 2765, col: 5, offset: 87929},
 										run: (*parser).callonSectionTitleLineElement8,
 										expr: &seqExpr{
-											pos: position{line: 2762, col: 5, offset: 87858},
+											pos: position{line: 2765, col: 5, offset: 87929},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2762, col: 5, offset: 87858},
+													pos:   position{line: 2765, col: 5, offset: 87929},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2762, col: 11, offset: 87864},
+														pos: position{line: 2765, col: 11, offset: 87935},
 														run: (*parser).callonSectionTitleLineElement11,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2762, col: 11, offset: 87864},
+															pos: position{line: 2765, col: 11, offset: 87935},
 															expr: &charClassMatcher{
-																pos:        position{line: 2762, col: 11, offset: 87864},
+																pos:        position{line: 2765, col: 11, offset: 87935},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -43352,36 +43360,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2765, col: 5, offset: 87922},
+													pos: position{line: 2768, col: 5, offset: 87993},
 													expr: &seqExpr{
-														pos: position{line: 2766, col: 9, offset: 87933},
+														pos: position{line: 2769, col: 9, offset: 88004},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2766, col: 9, offset: 87933},
+																pos:        position{line: 2769, col: 9, offset: 88004},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2767, col: 9, offset: 87982},
+																pos: position{line: 2770, col: 9, offset: 88053},
 																run: (*parser).callonSectionTitleLineElement17,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2771, col: 5, offset: 88062},
+													pos: position{line: 2774, col: 5, offset: 88133},
 													expr: &seqExpr{
-														pos: position{line: 2772, col: 9, offset: 88073},
+														pos: position{line: 2775, col: 9, offset: 88144},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2772, col: 9, offset: 88073},
+																pos:        position{line: 2775, col: 9, offset: 88144},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2772, col: 13, offset: 88077},
+																pos:        position{line: 2775, col: 13, offset: 88148},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -43394,12 +43402,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2867, col: 11, offset: 90677},
+										pos: position{line: 2870, col: 11, offset: 90748},
 										run: (*parser).callonSectionTitleLineElement22,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2867, col: 11, offset: 90677},
+											pos: position{line: 2870, col: 11, offset: 90748},
 											expr: &charClassMatcher{
-												pos:        position{line: 2867, col: 11, offset: 90677},
+												pos:        position{line: 2870, col: 11, offset: 90748},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -43413,16 +43421,20 @@ var g = &grammar{
 										expr: &seqExpr{
 											pos: position{line: 2491, col: 5, offset: 80311},
 											exprs: []interface{}{
+												&andCodeExpr{
+													pos: position{line: 2491, col: 5, offset: 80311},
+													run: (*parser).callonSectionTitleLineElement27,
+												},
 												&litMatcher{
-													pos:        position{line: 2491, col: 5, offset: 80311},
+													pos:        position{line: 2494, col: 5, offset: 80382},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2491, col: 10, offset: 80316},
+													pos: position{line: 2494, col: 10, offset: 80387},
 													expr: &charClassMatcher{
-														pos:        position{line: 2491, col: 11, offset: 80317},
+														pos:        position{line: 2494, col: 11, offset: 80388},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -43433,29 +43445,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2497, col: 5, offset: 80509},
-										run: (*parser).callonSectionTitleLineElement30,
+										pos: position{line: 2500, col: 5, offset: 80580},
+										run: (*parser).callonSectionTitleLineElement31,
 										expr: &seqExpr{
-											pos: position{line: 2497, col: 5, offset: 80509},
+											pos: position{line: 2500, col: 5, offset: 80580},
 											exprs: []interface{}{
-												&andCodeExpr{
-													pos: position{line: 2497, col: 5, offset: 80509},
-													run: (*parser).callonSectionTitleLineElement32,
-												},
 												&andCodeExpr{
 													pos: position{line: 2500, col: 5, offset: 80580},
 													run: (*parser).callonSectionTitleLineElement33,
 												},
+												&andCodeExpr{
+													pos: position{line: 2503, col: 5, offset: 80651},
+													run: (*parser).callonSectionTitleLineElement34,
+												},
 												&litMatcher{
-													pos:        position{line: 2504, col: 5, offset: 80705},
+													pos:        position{line: 2507, col: 5, offset: 80776},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2504, col: 9, offset: 80709},
+													pos: position{line: 2507, col: 9, offset: 80780},
 													expr: &charClassMatcher{
-														pos:        position{line: 2504, col: 10, offset: 80710},
+														pos:        position{line: 2507, col: 10, offset: 80781},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -43470,27 +43482,27 @@ var g = &grammar{
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2780, col: 5, offset: 88270},
-										run: (*parser).callonSectionTitleLineElement38,
+										pos: position{line: 2783, col: 5, offset: 88341},
+										run: (*parser).callonSectionTitleLineElement39,
 										expr: &choiceExpr{
-											pos: position{line: 2781, col: 9, offset: 88280},
+											pos: position{line: 2784, col: 9, offset: 88351},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2781, col: 10, offset: 88281},
+													pos:        position{line: 2784, col: 10, offset: 88352},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2783, col: 13, offset: 88378},
+													pos: position{line: 2786, col: 13, offset: 88449},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2783, col: 13, offset: 88378},
-															run: (*parser).callonSectionTitleLineElement42,
+															pos: position{line: 2786, col: 13, offset: 88449},
+															run: (*parser).callonSectionTitleLineElement43,
 														},
 														&litMatcher{
-															pos:        position{line: 2786, col: 13, offset: 88478},
+															pos:        position{line: 2789, col: 13, offset: 88549},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -43498,20 +43510,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2786, col: 19, offset: 88484},
+													pos:        position{line: 2789, col: 19, offset: 88555},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2789, col: 13, offset: 88522},
+													pos: position{line: 2792, col: 13, offset: 88593},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2789, col: 13, offset: 88522},
-															run: (*parser).callonSectionTitleLineElement46,
+															pos: position{line: 2792, col: 13, offset: 88593},
+															run: (*parser).callonSectionTitleLineElement47,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2792, col: 14, offset: 88615},
+															pos:        position{line: 2795, col: 14, offset: 88686},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -43520,18 +43532,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2794, col: 12, offset: 88659},
+													pos: position{line: 2797, col: 12, offset: 88730},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2794, col: 12, offset: 88659},
+															pos:        position{line: 2797, col: 12, offset: 88730},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2794, col: 16, offset: 88663},
+															pos: position{line: 2797, col: 16, offset: 88734},
 															expr: &litMatcher{
-																pos:        position{line: 2794, col: 17, offset: 88664},
+																pos:        position{line: 2797, col: 17, offset: 88735},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -43556,20 +43568,20 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 2460, col: 5, offset: 79140},
-										run: (*parser).callonSectionTitleLineElement55,
+										run: (*parser).callonSectionTitleLineElement56,
 										expr: &seqExpr{
 											pos: position{line: 2460, col: 5, offset: 79140},
 											exprs: []interface{}{
 												&andCodeExpr{
 													pos: position{line: 2460, col: 5, offset: 79140},
-													run: (*parser).callonSectionTitleLineElement57,
+													run: (*parser).callonSectionTitleLineElement58,
 												},
 												&labeledExpr{
 													pos:   position{line: 2463, col: 5, offset: 79216},
 													label: "element",
 													expr: &actionExpr{
 														pos: position{line: 2464, col: 9, offset: 79234},
-														run: (*parser).callonSectionTitleLineElement59,
+														run: (*parser).callonSectionTitleLineElement60,
 														expr: &charClassMatcher{
 															pos:        position{line: 2464, col: 10, offset: 79235},
 															val:        "[<>&]",
@@ -43588,13 +43600,13 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 636, col: 5, offset: 20177},
-										run: (*parser).callonSectionTitleLineElement62,
+										run: (*parser).callonSectionTitleLineElement63,
 										expr: &seqExpr{
 											pos: position{line: 636, col: 5, offset: 20177},
 											exprs: []interface{}{
 												&andCodeExpr{
 													pos: position{line: 636, col: 5, offset: 20177},
-													run: (*parser).callonSectionTitleLineElement64,
+													run: (*parser).callonSectionTitleLineElement65,
 												},
 												&labeledExpr{
 													pos:   position{line: 639, col: 5, offset: 20249},
@@ -43604,7 +43616,7 @@ var g = &grammar{
 														alternatives: []interface{}{
 															&actionExpr{
 																pos: position{line: 645, col: 5, offset: 20387},
-																run: (*parser).callonSectionTitleLineElement67,
+																run: (*parser).callonSectionTitleLineElement68,
 																expr: &seqExpr{
 																	pos: position{line: 645, col: 5, offset: 20387},
 																	exprs: []interface{}{
@@ -43619,7 +43631,7 @@ var g = &grammar{
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9729},
-																				run: (*parser).callonSectionTitleLineElement71,
+																				run: (*parser).callonSectionTitleLineElement72,
 																				expr: &seqExpr{
 																					pos: position{line: 318, col: 18, offset: 9729},
 																					exprs: []interface{}{
@@ -43657,7 +43669,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 652, col: 5, offset: 20655},
-																run: (*parser).callonSectionTitleLineElement77,
+																run: (*parser).callonSectionTitleLineElement78,
 																expr: &seqExpr{
 																	pos: position{line: 652, col: 5, offset: 20655},
 																	exprs: []interface{}{
@@ -43672,7 +43684,7 @@ var g = &grammar{
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9729},
-																				run: (*parser).callonSectionTitleLineElement81,
+																				run: (*parser).callonSectionTitleLineElement82,
 																				expr: &seqExpr{
 																					pos: position{line: 318, col: 18, offset: 9729},
 																					exprs: []interface{}{
@@ -43710,7 +43722,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 658, col: 25, offset: 20859},
-																run: (*parser).callonSectionTitleLineElement87,
+																run: (*parser).callonSectionTitleLineElement88,
 																expr: &seqExpr{
 																	pos: position{line: 658, col: 25, offset: 20859},
 																	exprs: []interface{}{
@@ -43725,7 +43737,7 @@ var g = &grammar{
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9729},
-																				run: (*parser).callonSectionTitleLineElement91,
+																				run: (*parser).callonSectionTitleLineElement92,
 																				expr: &seqExpr{
 																					pos: position{line: 318, col: 18, offset: 9729},
 																					exprs: []interface{}{
@@ -43759,7 +43771,7 @@ var g = &grammar{
 																				pos: position{line: 658, col: 62, offset: 20896},
 																				expr: &actionExpr{
 																					pos: position{line: 666, col: 17, offset: 21191},
-																					run: (*parser).callonSectionTitleLineElement98,
+																					run: (*parser).callonSectionTitleLineElement99,
 																					expr: &seqExpr{
 																						pos: position{line: 666, col: 17, offset: 21191},
 																						exprs: []interface{}{
@@ -43777,7 +43789,7 @@ var g = &grammar{
 																									alternatives: []interface{}{
 																										&actionExpr{
 																											pos: position{line: 666, col: 28, offset: 21202},
-																											run: (*parser).callonSectionTitleLineElement103,
+																											run: (*parser).callonSectionTitleLineElement104,
 																											expr: &charClassMatcher{
 																												pos:        position{line: 666, col: 28, offset: 21202},
 																												val:        "[A-Za-z]",
@@ -43788,7 +43800,7 @@ var g = &grammar{
 																										},
 																										&actionExpr{
 																											pos: position{line: 668, col: 9, offset: 21256},
-																											run: (*parser).callonSectionTitleLineElement105,
+																											run: (*parser).callonSectionTitleLineElement106,
 																											expr: &oneOrMoreExpr{
 																												pos: position{line: 668, col: 9, offset: 21256},
 																												expr: &charClassMatcher{
@@ -43819,7 +43831,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 662, col: 25, offset: 21030},
-																run: (*parser).callonSectionTitleLineElement109,
+																run: (*parser).callonSectionTitleLineElement110,
 																expr: &seqExpr{
 																	pos: position{line: 662, col: 25, offset: 21030},
 																	exprs: []interface{}{
@@ -43834,7 +43846,7 @@ var g = &grammar{
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9729},
-																				run: (*parser).callonSectionTitleLineElement113,
+																				run: (*parser).callonSectionTitleLineElement114,
 																				expr: &seqExpr{
 																					pos: position{line: 318, col: 18, offset: 9729},
 																					exprs: []interface{}{
@@ -43868,7 +43880,7 @@ var g = &grammar{
 																				pos: position{line: 662, col: 63, offset: 21068},
 																				expr: &actionExpr{
 																					pos: position{line: 666, col: 17, offset: 21191},
-																					run: (*parser).callonSectionTitleLineElement120,
+																					run: (*parser).callonSectionTitleLineElement121,
 																					expr: &seqExpr{
 																						pos: position{line: 666, col: 17, offset: 21191},
 																						exprs: []interface{}{
@@ -43886,7 +43898,7 @@ var g = &grammar{
 																									alternatives: []interface{}{
 																										&actionExpr{
 																											pos: position{line: 666, col: 28, offset: 21202},
-																											run: (*parser).callonSectionTitleLineElement125,
+																											run: (*parser).callonSectionTitleLineElement126,
 																											expr: &charClassMatcher{
 																												pos:        position{line: 666, col: 28, offset: 21202},
 																												val:        "[A-Za-z]",
@@ -43897,7 +43909,7 @@ var g = &grammar{
 																										},
 																										&actionExpr{
 																											pos: position{line: 668, col: 9, offset: 21256},
-																											run: (*parser).callonSectionTitleLineElement127,
+																											run: (*parser).callonSectionTitleLineElement128,
 																											expr: &oneOrMoreExpr{
 																												pos: position{line: 668, col: 9, offset: 21256},
 																												expr: &charClassMatcher{
@@ -43934,7 +43946,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1198, col: 23, offset: 37045},
-										run: (*parser).callonSectionTitleLineElement131,
+										run: (*parser).callonSectionTitleLineElement132,
 										expr: &seqExpr{
 											pos: position{line: 1198, col: 23, offset: 37045},
 											exprs: []interface{}{
@@ -43949,7 +43961,7 @@ var g = &grammar{
 													label: "ref",
 													expr: &actionExpr{
 														pos: position{line: 1198, col: 56, offset: 37078},
-														run: (*parser).callonSectionTitleLineElement135,
+														run: (*parser).callonSectionTitleLineElement136,
 														expr: &oneOrMoreExpr{
 															pos: position{line: 1198, col: 56, offset: 37078},
 															expr: &charClassMatcher{
@@ -43973,20 +43985,20 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 2343, col: 5, offset: 75850},
-										run: (*parser).callonSectionTitleLineElement139,
+										run: (*parser).callonSectionTitleLineElement140,
 										expr: &seqExpr{
 											pos: position{line: 2343, col: 5, offset: 75850},
 											exprs: []interface{}{
 												&andCodeExpr{
 													pos: position{line: 2343, col: 5, offset: 75850},
-													run: (*parser).callonSectionTitleLineElement141,
+													run: (*parser).callonSectionTitleLineElement142,
 												},
 												&labeledExpr{
 													pos:   position{line: 2346, col: 5, offset: 75905},
 													label: "id",
 													expr: &actionExpr{
 														pos: position{line: 404, col: 5, offset: 12405},
-														run: (*parser).callonSectionTitleLineElement143,
+														run: (*parser).callonSectionTitleLineElement144,
 														expr: &seqExpr{
 															pos: position{line: 404, col: 5, offset: 12405},
 															exprs: []interface{}{
@@ -44001,7 +44013,7 @@ var g = &grammar{
 																	label: "id",
 																	expr: &actionExpr{
 																		pos: position{line: 406, col: 9, offset: 12428},
-																		run: (*parser).callonSectionTitleLineElement147,
+																		run: (*parser).callonSectionTitleLineElement148,
 																		expr: &labeledExpr{
 																			pos:   position{line: 406, col: 9, offset: 12428},
 																			label: "elements",
@@ -44012,7 +44024,7 @@ var g = &grammar{
 																					alternatives: []interface{}{
 																						&actionExpr{
 																							pos: position{line: 407, col: 14, offset: 12452},
-																							run: (*parser).callonSectionTitleLineElement151,
+																							run: (*parser).callonSectionTitleLineElement152,
 																							expr: &oneOrMoreExpr{
 																								pos: position{line: 407, col: 14, offset: 12452},
 																								expr: &charClassMatcher{
@@ -44026,7 +44038,7 @@ var g = &grammar{
 																						},
 																						&actionExpr{
 																							pos: position{line: 1198, col: 23, offset: 37045},
-																							run: (*parser).callonSectionTitleLineElement154,
+																							run: (*parser).callonSectionTitleLineElement155,
 																							expr: &seqExpr{
 																								pos: position{line: 1198, col: 23, offset: 37045},
 																								exprs: []interface{}{
@@ -44041,7 +44053,7 @@ var g = &grammar{
 																										label: "ref",
 																										expr: &actionExpr{
 																											pos: position{line: 1198, col: 56, offset: 37078},
-																											run: (*parser).callonSectionTitleLineElement158,
+																											run: (*parser).callonSectionTitleLineElement159,
 																											expr: &oneOrMoreExpr{
 																												pos: position{line: 1198, col: 56, offset: 37078},
 																												expr: &charClassMatcher{
@@ -44065,13 +44077,13 @@ var g = &grammar{
 																						},
 																						&actionExpr{
 																							pos: position{line: 636, col: 5, offset: 20177},
-																							run: (*parser).callonSectionTitleLineElement162,
+																							run: (*parser).callonSectionTitleLineElement163,
 																							expr: &seqExpr{
 																								pos: position{line: 636, col: 5, offset: 20177},
 																								exprs: []interface{}{
 																									&andCodeExpr{
 																										pos: position{line: 636, col: 5, offset: 20177},
-																										run: (*parser).callonSectionTitleLineElement164,
+																										run: (*parser).callonSectionTitleLineElement165,
 																									},
 																									&labeledExpr{
 																										pos:   position{line: 639, col: 5, offset: 20249},
@@ -44081,7 +44093,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 645, col: 5, offset: 20387},
-																													run: (*parser).callonSectionTitleLineElement167,
+																													run: (*parser).callonSectionTitleLineElement168,
 																													expr: &seqExpr{
 																														pos: position{line: 645, col: 5, offset: 20387},
 																														exprs: []interface{}{
@@ -44096,7 +44108,7 @@ var g = &grammar{
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 318, col: 18, offset: 9729},
-																																	run: (*parser).callonSectionTitleLineElement171,
+																																	run: (*parser).callonSectionTitleLineElement172,
 																																	expr: &seqExpr{
 																																		pos: position{line: 318, col: 18, offset: 9729},
 																																		exprs: []interface{}{
@@ -44134,7 +44146,7 @@ var g = &grammar{
 																												},
 																												&actionExpr{
 																													pos: position{line: 652, col: 5, offset: 20655},
-																													run: (*parser).callonSectionTitleLineElement177,
+																													run: (*parser).callonSectionTitleLineElement178,
 																													expr: &seqExpr{
 																														pos: position{line: 652, col: 5, offset: 20655},
 																														exprs: []interface{}{
@@ -44149,7 +44161,7 @@ var g = &grammar{
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 318, col: 18, offset: 9729},
-																																	run: (*parser).callonSectionTitleLineElement181,
+																																	run: (*parser).callonSectionTitleLineElement182,
 																																	expr: &seqExpr{
 																																		pos: position{line: 318, col: 18, offset: 9729},
 																																		exprs: []interface{}{
@@ -44187,7 +44199,7 @@ var g = &grammar{
 																												},
 																												&actionExpr{
 																													pos: position{line: 658, col: 25, offset: 20859},
-																													run: (*parser).callonSectionTitleLineElement187,
+																													run: (*parser).callonSectionTitleLineElement188,
 																													expr: &seqExpr{
 																														pos: position{line: 658, col: 25, offset: 20859},
 																														exprs: []interface{}{
@@ -44202,7 +44214,7 @@ var g = &grammar{
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 318, col: 18, offset: 9729},
-																																	run: (*parser).callonSectionTitleLineElement191,
+																																	run: (*parser).callonSectionTitleLineElement192,
 																																	expr: &seqExpr{
 																																		pos: position{line: 318, col: 18, offset: 9729},
 																																		exprs: []interface{}{
@@ -44236,7 +44248,7 @@ var g = &grammar{
 																																	pos: position{line: 658, col: 62, offset: 20896},
 																																	expr: &actionExpr{
 																																		pos: position{line: 666, col: 17, offset: 21191},
-																																		run: (*parser).callonSectionTitleLineElement198,
+																																		run: (*parser).callonSectionTitleLineElement199,
 																																		expr: &seqExpr{
 																																			pos: position{line: 666, col: 17, offset: 21191},
 																																			exprs: []interface{}{
@@ -44254,7 +44266,7 @@ var g = &grammar{
 																																						alternatives: []interface{}{
 																																							&actionExpr{
 																																								pos: position{line: 666, col: 28, offset: 21202},
-																																								run: (*parser).callonSectionTitleLineElement203,
+																																								run: (*parser).callonSectionTitleLineElement204,
 																																								expr: &charClassMatcher{
 																																									pos:        position{line: 666, col: 28, offset: 21202},
 																																									val:        "[A-Za-z]",
@@ -44265,7 +44277,7 @@ var g = &grammar{
 																																							},
 																																							&actionExpr{
 																																								pos: position{line: 668, col: 9, offset: 21256},
-																																								run: (*parser).callonSectionTitleLineElement205,
+																																								run: (*parser).callonSectionTitleLineElement206,
 																																								expr: &oneOrMoreExpr{
 																																									pos: position{line: 668, col: 9, offset: 21256},
 																																									expr: &charClassMatcher{
@@ -44296,7 +44308,7 @@ var g = &grammar{
 																												},
 																												&actionExpr{
 																													pos: position{line: 662, col: 25, offset: 21030},
-																													run: (*parser).callonSectionTitleLineElement209,
+																													run: (*parser).callonSectionTitleLineElement210,
 																													expr: &seqExpr{
 																														pos: position{line: 662, col: 25, offset: 21030},
 																														exprs: []interface{}{
@@ -44311,7 +44323,7 @@ var g = &grammar{
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 318, col: 18, offset: 9729},
-																																	run: (*parser).callonSectionTitleLineElement213,
+																																	run: (*parser).callonSectionTitleLineElement214,
 																																	expr: &seqExpr{
 																																		pos: position{line: 318, col: 18, offset: 9729},
 																																		exprs: []interface{}{
@@ -44345,7 +44357,7 @@ var g = &grammar{
 																																	pos: position{line: 662, col: 63, offset: 21068},
 																																	expr: &actionExpr{
 																																		pos: position{line: 666, col: 17, offset: 21191},
-																																		run: (*parser).callonSectionTitleLineElement220,
+																																		run: (*parser).callonSectionTitleLineElement221,
 																																		expr: &seqExpr{
 																																			pos: position{line: 666, col: 17, offset: 21191},
 																																			exprs: []interface{}{
@@ -44363,7 +44375,7 @@ var g = &grammar{
 																																						alternatives: []interface{}{
 																																							&actionExpr{
 																																								pos: position{line: 666, col: 28, offset: 21202},
-																																								run: (*parser).callonSectionTitleLineElement225,
+																																								run: (*parser).callonSectionTitleLineElement226,
 																																								expr: &charClassMatcher{
 																																									pos:        position{line: 666, col: 28, offset: 21202},
 																																									val:        "[A-Za-z]",
@@ -44374,7 +44386,7 @@ var g = &grammar{
 																																							},
 																																							&actionExpr{
 																																								pos: position{line: 668, col: 9, offset: 21256},
-																																								run: (*parser).callonSectionTitleLineElement227,
+																																								run: (*parser).callonSectionTitleLineElement228,
 																																								expr: &oneOrMoreExpr{
 																																									pos: position{line: 668, col: 9, offset: 21256},
 																																									expr: &charClassMatcher{
@@ -44411,7 +44423,7 @@ var g = &grammar{
 																						},
 																						&actionExpr{
 																							pos: position{line: 412, col: 16, offset: 12685},
-																							run: (*parser).callonSectionTitleLineElement231,
+																							run: (*parser).callonSectionTitleLineElement232,
 																							expr: &litMatcher{
 																								pos:        position{line: 412, col: 16, offset: 12685},
 																								val:        "{",
@@ -44438,10 +44450,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 2346, col: 26, offset: 75926},
 													expr: &actionExpr{
-														pos: position{line: 2863, col: 10, offset: 90616},
-														run: (*parser).callonSectionTitleLineElement235,
+														pos: position{line: 2866, col: 10, offset: 90687},
+														run: (*parser).callonSectionTitleLineElement236,
 														expr: &charClassMatcher{
-															pos:        position{line: 2863, col: 10, offset: 90616},
+															pos:        position{line: 2866, col: 10, offset: 90687},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -44452,28 +44464,28 @@ var g = &grammar{
 												&andExpr{
 													pos: position{line: 2346, col: 33, offset: 75933},
 													expr: &choiceExpr{
-														pos: position{line: 2885, col: 8, offset: 91014},
+														pos: position{line: 2888, col: 8, offset: 91085},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2872, col: 12, offset: 90787},
-																run: (*parser).callonSectionTitleLineElement239,
+																pos: position{line: 2875, col: 12, offset: 90858},
+																run: (*parser).callonSectionTitleLineElement240,
 																expr: &choiceExpr{
-																	pos: position{line: 2872, col: 13, offset: 90788},
+																	pos: position{line: 2875, col: 13, offset: 90859},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2872, col: 13, offset: 90788},
+																			pos:        position{line: 2875, col: 13, offset: 90859},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2872, col: 20, offset: 90795},
+																			pos:        position{line: 2875, col: 20, offset: 90866},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2872, col: 29, offset: 90804},
+																			pos:        position{line: 2875, col: 29, offset: 90875},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -44482,9 +44494,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2882, col: 8, offset: 90964},
+																pos: position{line: 2885, col: 8, offset: 91035},
 																expr: &anyMatcher{
-																	line: 2882, col: 9, offset: 90965,
+																	line: 2885, col: 9, offset: 91036,
 																},
 															},
 														},
@@ -44495,7 +44507,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1253, col: 5, offset: 38805},
-										run: (*parser).callonSectionTitleLineElement246,
+										run: (*parser).callonSectionTitleLineElement247,
 										expr: &seqExpr{
 											pos: position{line: 1253, col: 5, offset: 38805},
 											exprs: []interface{}{
@@ -44509,12 +44521,12 @@ var g = &grammar{
 													pos:   position{line: 1253, col: 14, offset: 38814},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2848, col: 7, offset: 90268},
-														run: (*parser).callonSectionTitleLineElement250,
+														pos: position{line: 2851, col: 7, offset: 90339},
+														run: (*parser).callonSectionTitleLineElement251,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2848, col: 7, offset: 90268},
+															pos: position{line: 2851, col: 7, offset: 90339},
 															expr: &charClassMatcher{
-																pos:        position{line: 2848, col: 7, offset: 90268},
+																pos:        position{line: 2851, col: 7, offset: 90339},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -44534,7 +44546,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1258, col: 5, offset: 38941},
-										run: (*parser).callonSectionTitleLineElement254,
+										run: (*parser).callonSectionTitleLineElement255,
 										expr: &seqExpr{
 											pos: position{line: 1258, col: 5, offset: 38941},
 											exprs: []interface{}{
@@ -44548,12 +44560,12 @@ var g = &grammar{
 													pos:   position{line: 1258, col: 10, offset: 38946},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2848, col: 7, offset: 90268},
-														run: (*parser).callonSectionTitleLineElement258,
+														pos: position{line: 2851, col: 7, offset: 90339},
+														run: (*parser).callonSectionTitleLineElement259,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2848, col: 7, offset: 90268},
+															pos: position{line: 2851, col: 7, offset: 90339},
 															expr: &charClassMatcher{
-																pos:        position{line: 2848, col: 7, offset: 90268},
+																pos:        position{line: 2851, col: 7, offset: 90339},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -44582,10 +44594,10 @@ var g = &grammar{
 							pos:   position{line: 2333, col: 5, offset: 75630},
 							label: "end",
 							expr: &actionExpr{
-								pos: position{line: 2888, col: 16, offset: 91138},
-								run: (*parser).callonSectionTitleLineElement264,
+								pos: position{line: 2891, col: 16, offset: 91209},
+								run: (*parser).callonSectionTitleLineElement265,
 								expr: &litMatcher{
-									pos:        position{line: 2888, col: 16, offset: 91138},
+									pos:        position{line: 2891, col: 16, offset: 91209},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -44594,7 +44606,7 @@ var g = &grammar{
 						},
 						&andCodeExpr{
 							pos: position{line: 2334, col: 5, offset: 75652},
-							run: (*parser).callonSectionTitleLineElement266,
+							run: (*parser).callonSectionTitleLineElement267,
 						},
 					},
 				},
@@ -44621,9 +44633,9 @@ var g = &grammar{
 										pos: position{line: 2359, col: 9, offset: 76317},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2880, col: 11, offset: 90950},
+												pos: position{line: 2883, col: 11, offset: 91021},
 												expr: &anyMatcher{
-													line: 2880, col: 13, offset: 90952,
+													line: 2883, col: 13, offset: 91023,
 												},
 											},
 											&labeledExpr{
@@ -44633,21 +44645,21 @@ var g = &grammar{
 													pos: position{line: 2361, col: 13, offset: 76354},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2762, col: 5, offset: 87858},
+															pos: position{line: 2765, col: 5, offset: 87929},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2762, col: 5, offset: 87858},
+																pos: position{line: 2765, col: 5, offset: 87929},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 2762, col: 5, offset: 87858},
+																		pos:   position{line: 2765, col: 5, offset: 87929},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2762, col: 11, offset: 87864},
+																			pos: position{line: 2765, col: 11, offset: 87935},
 																			run: (*parser).callonNormalGroup14,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2762, col: 11, offset: 87864},
+																				pos: position{line: 2765, col: 11, offset: 87935},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2762, col: 11, offset: 87864},
+																					pos:        position{line: 2765, col: 11, offset: 87935},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -44657,36 +44669,36 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2765, col: 5, offset: 87922},
+																		pos: position{line: 2768, col: 5, offset: 87993},
 																		expr: &seqExpr{
-																			pos: position{line: 2766, col: 9, offset: 87933},
+																			pos: position{line: 2769, col: 9, offset: 88004},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2766, col: 9, offset: 87933},
+																					pos:        position{line: 2769, col: 9, offset: 88004},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2767, col: 9, offset: 87982},
+																					pos: position{line: 2770, col: 9, offset: 88053},
 																					run: (*parser).callonNormalGroup20,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2771, col: 5, offset: 88062},
+																		pos: position{line: 2774, col: 5, offset: 88133},
 																		expr: &seqExpr{
-																			pos: position{line: 2772, col: 9, offset: 88073},
+																			pos: position{line: 2775, col: 9, offset: 88144},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2772, col: 9, offset: 88073},
+																					pos:        position{line: 2775, col: 9, offset: 88144},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2772, col: 13, offset: 88077},
+																					pos:        position{line: 2775, col: 13, offset: 88148},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -44699,12 +44711,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2867, col: 11, offset: 90677},
+															pos: position{line: 2870, col: 11, offset: 90748},
 															run: (*parser).callonNormalGroup25,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2867, col: 11, offset: 90677},
+																pos: position{line: 2870, col: 11, offset: 90748},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2867, col: 11, offset: 90677},
+																	pos:        position{line: 2870, col: 11, offset: 90748},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -44722,16 +44734,20 @@ var g = &grammar{
 															expr: &seqExpr{
 																pos: position{line: 2491, col: 5, offset: 80311},
 																exprs: []interface{}{
+																	&andCodeExpr{
+																		pos: position{line: 2491, col: 5, offset: 80311},
+																		run: (*parser).callonNormalGroup31,
+																	},
 																	&litMatcher{
-																		pos:        position{line: 2491, col: 5, offset: 80311},
+																		pos:        position{line: 2494, col: 5, offset: 80382},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2491, col: 10, offset: 80316},
+																		pos: position{line: 2494, col: 10, offset: 80387},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2491, col: 11, offset: 80317},
+																			pos:        position{line: 2494, col: 11, offset: 80388},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -44742,29 +44758,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2497, col: 5, offset: 80509},
-															run: (*parser).callonNormalGroup34,
+															pos: position{line: 2500, col: 5, offset: 80580},
+															run: (*parser).callonNormalGroup35,
 															expr: &seqExpr{
-																pos: position{line: 2497, col: 5, offset: 80509},
+																pos: position{line: 2500, col: 5, offset: 80580},
 																exprs: []interface{}{
-																	&andCodeExpr{
-																		pos: position{line: 2497, col: 5, offset: 80509},
-																		run: (*parser).callonNormalGroup36,
-																	},
 																	&andCodeExpr{
 																		pos: position{line: 2500, col: 5, offset: 80580},
 																		run: (*parser).callonNormalGroup37,
 																	},
+																	&andCodeExpr{
+																		pos: position{line: 2503, col: 5, offset: 80651},
+																		run: (*parser).callonNormalGroup38,
+																	},
 																	&litMatcher{
-																		pos:        position{line: 2504, col: 5, offset: 80705},
+																		pos:        position{line: 2507, col: 5, offset: 80776},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2504, col: 9, offset: 80709},
+																		pos: position{line: 2507, col: 9, offset: 80780},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2504, col: 10, offset: 80710},
+																			pos:        position{line: 2507, col: 10, offset: 80781},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -44775,27 +44791,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2780, col: 5, offset: 88270},
-															run: (*parser).callonNormalGroup41,
+															pos: position{line: 2783, col: 5, offset: 88341},
+															run: (*parser).callonNormalGroup42,
 															expr: &choiceExpr{
-																pos: position{line: 2781, col: 9, offset: 88280},
+																pos: position{line: 2784, col: 9, offset: 88351},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2781, col: 10, offset: 88281},
+																		pos:        position{line: 2784, col: 10, offset: 88352},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2783, col: 13, offset: 88378},
+																		pos: position{line: 2786, col: 13, offset: 88449},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2783, col: 13, offset: 88378},
-																				run: (*parser).callonNormalGroup45,
+																				pos: position{line: 2786, col: 13, offset: 88449},
+																				run: (*parser).callonNormalGroup46,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2786, col: 13, offset: 88478},
+																				pos:        position{line: 2789, col: 13, offset: 88549},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -44803,20 +44819,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2786, col: 19, offset: 88484},
+																		pos:        position{line: 2789, col: 19, offset: 88555},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2789, col: 13, offset: 88522},
+																		pos: position{line: 2792, col: 13, offset: 88593},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2789, col: 13, offset: 88522},
-																				run: (*parser).callonNormalGroup49,
+																				pos: position{line: 2792, col: 13, offset: 88593},
+																				run: (*parser).callonNormalGroup50,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2792, col: 14, offset: 88615},
+																				pos:        position{line: 2795, col: 14, offset: 88686},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -44825,18 +44841,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2794, col: 12, offset: 88659},
+																		pos: position{line: 2797, col: 12, offset: 88730},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2794, col: 12, offset: 88659},
+																				pos:        position{line: 2797, col: 12, offset: 88730},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2794, col: 16, offset: 88663},
+																				pos: position{line: 2797, col: 16, offset: 88734},
 																				expr: &litMatcher{
-																					pos:        position{line: 2794, col: 17, offset: 88664},
+																					pos:        position{line: 2797, col: 17, offset: 88735},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -44848,25 +44864,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2872, col: 12, offset: 90787},
-															run: (*parser).callonNormalGroup55,
+															pos: position{line: 2875, col: 12, offset: 90858},
+															run: (*parser).callonNormalGroup56,
 															expr: &choiceExpr{
-																pos: position{line: 2872, col: 13, offset: 90788},
+																pos: position{line: 2875, col: 13, offset: 90859},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2872, col: 13, offset: 90788},
+																		pos:        position{line: 2875, col: 13, offset: 90859},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2872, col: 20, offset: 90795},
+																		pos:        position{line: 2875, col: 20, offset: 90866},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2872, col: 29, offset: 90804},
+																		pos:        position{line: 2875, col: 29, offset: 90875},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -44876,13 +44892,13 @@ var g = &grammar{
 														},
 														&actionExpr{
 															pos: position{line: 636, col: 5, offset: 20177},
-															run: (*parser).callonNormalGroup60,
+															run: (*parser).callonNormalGroup61,
 															expr: &seqExpr{
 																pos: position{line: 636, col: 5, offset: 20177},
 																exprs: []interface{}{
 																	&andCodeExpr{
 																		pos: position{line: 636, col: 5, offset: 20177},
-																		run: (*parser).callonNormalGroup62,
+																		run: (*parser).callonNormalGroup63,
 																	},
 																	&labeledExpr{
 																		pos:   position{line: 639, col: 5, offset: 20249},
@@ -44892,7 +44908,7 @@ var g = &grammar{
 																			alternatives: []interface{}{
 																				&actionExpr{
 																					pos: position{line: 645, col: 5, offset: 20387},
-																					run: (*parser).callonNormalGroup65,
+																					run: (*parser).callonNormalGroup66,
 																					expr: &seqExpr{
 																						pos: position{line: 645, col: 5, offset: 20387},
 																						exprs: []interface{}{
@@ -44907,7 +44923,7 @@ var g = &grammar{
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9729},
-																									run: (*parser).callonNormalGroup69,
+																									run: (*parser).callonNormalGroup70,
 																									expr: &seqExpr{
 																										pos: position{line: 318, col: 18, offset: 9729},
 																										exprs: []interface{}{
@@ -44945,7 +44961,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 652, col: 5, offset: 20655},
-																					run: (*parser).callonNormalGroup75,
+																					run: (*parser).callonNormalGroup76,
 																					expr: &seqExpr{
 																						pos: position{line: 652, col: 5, offset: 20655},
 																						exprs: []interface{}{
@@ -44960,7 +44976,7 @@ var g = &grammar{
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9729},
-																									run: (*parser).callonNormalGroup79,
+																									run: (*parser).callonNormalGroup80,
 																									expr: &seqExpr{
 																										pos: position{line: 318, col: 18, offset: 9729},
 																										exprs: []interface{}{
@@ -44998,7 +45014,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 658, col: 25, offset: 20859},
-																					run: (*parser).callonNormalGroup85,
+																					run: (*parser).callonNormalGroup86,
 																					expr: &seqExpr{
 																						pos: position{line: 658, col: 25, offset: 20859},
 																						exprs: []interface{}{
@@ -45013,7 +45029,7 @@ var g = &grammar{
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9729},
-																									run: (*parser).callonNormalGroup89,
+																									run: (*parser).callonNormalGroup90,
 																									expr: &seqExpr{
 																										pos: position{line: 318, col: 18, offset: 9729},
 																										exprs: []interface{}{
@@ -45047,7 +45063,7 @@ var g = &grammar{
 																									pos: position{line: 658, col: 62, offset: 20896},
 																									expr: &actionExpr{
 																										pos: position{line: 666, col: 17, offset: 21191},
-																										run: (*parser).callonNormalGroup96,
+																										run: (*parser).callonNormalGroup97,
 																										expr: &seqExpr{
 																											pos: position{line: 666, col: 17, offset: 21191},
 																											exprs: []interface{}{
@@ -45065,7 +45081,7 @@ var g = &grammar{
 																														alternatives: []interface{}{
 																															&actionExpr{
 																																pos: position{line: 666, col: 28, offset: 21202},
-																																run: (*parser).callonNormalGroup101,
+																																run: (*parser).callonNormalGroup102,
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 666, col: 28, offset: 21202},
 																																	val:        "[A-Za-z]",
@@ -45076,7 +45092,7 @@ var g = &grammar{
 																															},
 																															&actionExpr{
 																																pos: position{line: 668, col: 9, offset: 21256},
-																																run: (*parser).callonNormalGroup103,
+																																run: (*parser).callonNormalGroup104,
 																																expr: &oneOrMoreExpr{
 																																	pos: position{line: 668, col: 9, offset: 21256},
 																																	expr: &charClassMatcher{
@@ -45107,7 +45123,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 662, col: 25, offset: 21030},
-																					run: (*parser).callonNormalGroup107,
+																					run: (*parser).callonNormalGroup108,
 																					expr: &seqExpr{
 																						pos: position{line: 662, col: 25, offset: 21030},
 																						exprs: []interface{}{
@@ -45122,7 +45138,7 @@ var g = &grammar{
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9729},
-																									run: (*parser).callonNormalGroup111,
+																									run: (*parser).callonNormalGroup112,
 																									expr: &seqExpr{
 																										pos: position{line: 318, col: 18, offset: 9729},
 																										exprs: []interface{}{
@@ -45156,7 +45172,7 @@ var g = &grammar{
 																									pos: position{line: 662, col: 63, offset: 21068},
 																									expr: &actionExpr{
 																										pos: position{line: 666, col: 17, offset: 21191},
-																										run: (*parser).callonNormalGroup118,
+																										run: (*parser).callonNormalGroup119,
 																										expr: &seqExpr{
 																											pos: position{line: 666, col: 17, offset: 21191},
 																											exprs: []interface{}{
@@ -45174,7 +45190,7 @@ var g = &grammar{
 																														alternatives: []interface{}{
 																															&actionExpr{
 																																pos: position{line: 666, col: 28, offset: 21202},
-																																run: (*parser).callonNormalGroup123,
+																																run: (*parser).callonNormalGroup124,
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 666, col: 28, offset: 21202},
 																																	val:        "[A-Za-z]",
@@ -45185,7 +45201,7 @@ var g = &grammar{
 																															},
 																															&actionExpr{
 																																pos: position{line: 668, col: 9, offset: 21256},
-																																run: (*parser).callonNormalGroup125,
+																																run: (*parser).callonNormalGroup126,
 																																expr: &oneOrMoreExpr{
 																																	pos: position{line: 668, col: 9, offset: 21256},
 																																	expr: &charClassMatcher{
@@ -45234,20 +45250,20 @@ var g = &grammar{
 														},
 														&actionExpr{
 															pos: position{line: 2460, col: 5, offset: 79140},
-															run: (*parser).callonNormalGroup132,
+															run: (*parser).callonNormalGroup133,
 															expr: &seqExpr{
 																pos: position{line: 2460, col: 5, offset: 79140},
 																exprs: []interface{}{
 																	&andCodeExpr{
 																		pos: position{line: 2460, col: 5, offset: 79140},
-																		run: (*parser).callonNormalGroup134,
+																		run: (*parser).callonNormalGroup135,
 																	},
 																	&labeledExpr{
 																		pos:   position{line: 2463, col: 5, offset: 79216},
 																		label: "element",
 																		expr: &actionExpr{
 																			pos: position{line: 2464, col: 9, offset: 79234},
-																			run: (*parser).callonNormalGroup136,
+																			run: (*parser).callonNormalGroup137,
 																			expr: &charClassMatcher{
 																				pos:        position{line: 2464, col: 10, offset: 79235},
 																				val:        "[<>&]",
@@ -45262,13 +45278,13 @@ var g = &grammar{
 														},
 														&actionExpr{
 															pos: position{line: 1206, col: 5, offset: 37491},
-															run: (*parser).callonNormalGroup138,
+															run: (*parser).callonNormalGroup139,
 															expr: &seqExpr{
 																pos: position{line: 1206, col: 5, offset: 37491},
 																exprs: []interface{}{
 																	&andCodeExpr{
 																		pos: position{line: 1206, col: 5, offset: 37491},
-																		run: (*parser).callonNormalGroup140,
+																		run: (*parser).callonNormalGroup141,
 																	},
 																	&litMatcher{
 																		pos:        position{line: 1209, col: 5, offset: 37567},
@@ -45278,15 +45294,15 @@ var g = &grammar{
 																	},
 																	&andCodeExpr{
 																		pos: position{line: 1210, col: 5, offset: 37575},
-																		run: (*parser).callonNormalGroup142,
+																		run: (*parser).callonNormalGroup143,
 																	},
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1214, col: 5, offset: 37662},
 																		expr: &actionExpr{
-																			pos: position{line: 2863, col: 10, offset: 90616},
-																			run: (*parser).callonNormalGroup144,
+																			pos: position{line: 2866, col: 10, offset: 90687},
+																			run: (*parser).callonNormalGroup145,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2863, col: 10, offset: 90616},
+																				pos:        position{line: 2866, col: 10, offset: 90687},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45297,28 +45313,28 @@ var g = &grammar{
 																	&andExpr{
 																		pos: position{line: 1214, col: 12, offset: 37669},
 																		expr: &choiceExpr{
-																			pos: position{line: 2885, col: 8, offset: 91014},
+																			pos: position{line: 2888, col: 8, offset: 91085},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2872, col: 12, offset: 90787},
-																					run: (*parser).callonNormalGroup148,
+																					pos: position{line: 2875, col: 12, offset: 90858},
+																					run: (*parser).callonNormalGroup149,
 																					expr: &choiceExpr{
-																						pos: position{line: 2872, col: 13, offset: 90788},
+																						pos: position{line: 2875, col: 13, offset: 90859},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2872, col: 13, offset: 90788},
+																								pos:        position{line: 2875, col: 13, offset: 90859},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2872, col: 20, offset: 90795},
+																								pos:        position{line: 2875, col: 20, offset: 90866},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2872, col: 29, offset: 90804},
+																								pos:        position{line: 2875, col: 29, offset: 90875},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -45327,9 +45343,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2882, col: 8, offset: 90964},
+																					pos: position{line: 2885, col: 8, offset: 91035},
 																					expr: &anyMatcher{
-																						line: 2882, col: 9, offset: 90965,
+																						line: 2885, col: 9, offset: 91036,
 																					},
 																				},
 																			},
@@ -45344,7 +45360,7 @@ var g = &grammar{
 														},
 														&actionExpr{
 															pos: position{line: 1198, col: 23, offset: 37045},
-															run: (*parser).callonNormalGroup156,
+															run: (*parser).callonNormalGroup157,
 															expr: &seqExpr{
 																pos: position{line: 1198, col: 23, offset: 37045},
 																exprs: []interface{}{
@@ -45359,7 +45375,7 @@ var g = &grammar{
 																		label: "ref",
 																		expr: &actionExpr{
 																			pos: position{line: 1198, col: 56, offset: 37078},
-																			run: (*parser).callonNormalGroup160,
+																			run: (*parser).callonNormalGroup161,
 																			expr: &oneOrMoreExpr{
 																				pos: position{line: 1198, col: 56, offset: 37078},
 																				expr: &charClassMatcher{
@@ -45382,10 +45398,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2802, col: 12, offset: 88924},
-															run: (*parser).callonNormalGroup164,
+															pos: position{line: 2805, col: 12, offset: 88995},
+															run: (*parser).callonNormalGroup165,
 															expr: &charClassMatcher{
-																pos:        position{line: 2802, col: 12, offset: 88924},
+																pos:        position{line: 2805, col: 12, offset: 88995},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -45401,9 +45417,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2882, col: 8, offset: 90964},
+							pos: position{line: 2885, col: 8, offset: 91035},
 							expr: &anyMatcher{
-								line: 2882, col: 9, offset: 90965,
+								line: 2885, col: 9, offset: 91036,
 							},
 						},
 					},
@@ -45431,9 +45447,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2882, col: 8, offset: 90964},
+							pos: position{line: 2885, col: 8, offset: 91035},
 							expr: &anyMatcher{
-								line: 2882, col: 9, offset: 90965,
+								line: 2885, col: 9, offset: 91036,
 							},
 						},
 					},
@@ -45450,9 +45466,9 @@ var g = &grammar{
 					pos: position{line: 2390, col: 5, offset: 77476},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2880, col: 11, offset: 90950},
+							pos: position{line: 2883, col: 11, offset: 91021},
 							expr: &anyMatcher{
-								line: 2880, col: 13, offset: 90952,
+								line: 2883, col: 13, offset: 91023,
 							},
 						},
 						&labeledExpr{
@@ -45462,21 +45478,21 @@ var g = &grammar{
 								pos: position{line: 2392, col: 9, offset: 77505},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2762, col: 5, offset: 87858},
+										pos: position{line: 2765, col: 5, offset: 87929},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2762, col: 5, offset: 87858},
+											pos: position{line: 2765, col: 5, offset: 87929},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2762, col: 5, offset: 87858},
+													pos:   position{line: 2765, col: 5, offset: 87929},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2762, col: 11, offset: 87864},
+														pos: position{line: 2765, col: 11, offset: 87935},
 														run: (*parser).callonAttributeStructuredValueElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2762, col: 11, offset: 87864},
+															pos: position{line: 2765, col: 11, offset: 87935},
 															expr: &charClassMatcher{
-																pos:        position{line: 2762, col: 11, offset: 87864},
+																pos:        position{line: 2765, col: 11, offset: 87935},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45486,36 +45502,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2765, col: 5, offset: 87922},
+													pos: position{line: 2768, col: 5, offset: 87993},
 													expr: &seqExpr{
-														pos: position{line: 2766, col: 9, offset: 87933},
+														pos: position{line: 2769, col: 9, offset: 88004},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2766, col: 9, offset: 87933},
+																pos:        position{line: 2769, col: 9, offset: 88004},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2767, col: 9, offset: 87982},
+																pos: position{line: 2770, col: 9, offset: 88053},
 																run: (*parser).callonAttributeStructuredValueElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2771, col: 5, offset: 88062},
+													pos: position{line: 2774, col: 5, offset: 88133},
 													expr: &seqExpr{
-														pos: position{line: 2772, col: 9, offset: 88073},
+														pos: position{line: 2775, col: 9, offset: 88144},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2772, col: 9, offset: 88073},
+																pos:        position{line: 2775, col: 9, offset: 88144},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2772, col: 13, offset: 88077},
+																pos:        position{line: 2775, col: 13, offset: 88148},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45528,10 +45544,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2863, col: 10, offset: 90616},
+										pos: position{line: 2866, col: 10, offset: 90687},
 										run: (*parser).callonAttributeStructuredValueElement21,
 										expr: &charClassMatcher{
-											pos:        position{line: 2863, col: 10, offset: 90616},
+											pos:        position{line: 2866, col: 10, offset: 90687},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -45543,27 +45559,27 @@ var g = &grammar{
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2780, col: 5, offset: 88270},
+										pos: position{line: 2783, col: 5, offset: 88341},
 										run: (*parser).callonAttributeStructuredValueElement24,
 										expr: &choiceExpr{
-											pos: position{line: 2781, col: 9, offset: 88280},
+											pos: position{line: 2784, col: 9, offset: 88351},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2781, col: 10, offset: 88281},
+													pos:        position{line: 2784, col: 10, offset: 88352},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2783, col: 13, offset: 88378},
+													pos: position{line: 2786, col: 13, offset: 88449},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2783, col: 13, offset: 88378},
+															pos: position{line: 2786, col: 13, offset: 88449},
 															run: (*parser).callonAttributeStructuredValueElement28,
 														},
 														&litMatcher{
-															pos:        position{line: 2786, col: 13, offset: 88478},
+															pos:        position{line: 2789, col: 13, offset: 88549},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -45571,20 +45587,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2786, col: 19, offset: 88484},
+													pos:        position{line: 2789, col: 19, offset: 88555},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2789, col: 13, offset: 88522},
+													pos: position{line: 2792, col: 13, offset: 88593},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2789, col: 13, offset: 88522},
+															pos: position{line: 2792, col: 13, offset: 88593},
 															run: (*parser).callonAttributeStructuredValueElement32,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2792, col: 14, offset: 88615},
+															pos:        position{line: 2795, col: 14, offset: 88686},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -45593,18 +45609,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2794, col: 12, offset: 88659},
+													pos: position{line: 2797, col: 12, offset: 88730},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2794, col: 12, offset: 88659},
+															pos:        position{line: 2797, col: 12, offset: 88730},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2794, col: 16, offset: 88663},
+															pos: position{line: 2797, col: 16, offset: 88734},
 															expr: &litMatcher{
-																pos:        position{line: 2794, col: 17, offset: 88664},
+																pos:        position{line: 2797, col: 17, offset: 88735},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -45691,25 +45707,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2872, col: 12, offset: 90787},
+										pos: position{line: 2875, col: 12, offset: 90858},
 										run: (*parser).callonAttributeStructuredValueElement54,
 										expr: &choiceExpr{
-											pos: position{line: 2872, col: 13, offset: 90788},
+											pos: position{line: 2875, col: 13, offset: 90859},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2872, col: 13, offset: 90788},
+													pos:        position{line: 2875, col: 13, offset: 90859},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2872, col: 20, offset: 90795},
+													pos:        position{line: 2875, col: 20, offset: 90866},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2872, col: 29, offset: 90804},
+													pos:        position{line: 2875, col: 29, offset: 90875},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -45718,10 +45734,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2802, col: 12, offset: 88924},
+										pos: position{line: 2805, col: 12, offset: 88995},
 										run: (*parser).callonAttributeStructuredValueElement59,
 										expr: &charClassMatcher{
-											pos:        position{line: 2802, col: 12, offset: 88924},
+											pos:        position{line: 2805, col: 12, offset: 88995},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -45798,12 +45814,12 @@ var g = &grammar{
 													pos:   position{line: 1253, col: 14, offset: 38814},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2848, col: 7, offset: 90268},
+														pos: position{line: 2851, col: 7, offset: 90339},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2848, col: 7, offset: 90268},
+															pos: position{line: 2851, col: 7, offset: 90339},
 															expr: &charClassMatcher{
-																pos:        position{line: 2848, col: 7, offset: 90268},
+																pos:        position{line: 2851, col: 7, offset: 90339},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -45837,12 +45853,12 @@ var g = &grammar{
 													pos:   position{line: 1258, col: 10, offset: 38946},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2848, col: 7, offset: 90268},
+														pos: position{line: 2851, col: 7, offset: 90339},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2848, col: 7, offset: 90268},
+															pos: position{line: 2851, col: 7, offset: 90339},
 															expr: &charClassMatcher{
-																pos:        position{line: 2848, col: 7, offset: 90268},
+																pos:        position{line: 2851, col: 7, offset: 90339},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -45884,17 +45900,17 @@ var g = &grammar{
 																pos: position{line: 1304, col: 31, offset: 40768},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2753, col: 13, offset: 87711},
+																		pos:        position{line: 2756, col: 13, offset: 87782},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2863, col: 10, offset: 90616},
+																		pos: position{line: 2866, col: 10, offset: 90687},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2863, col: 10, offset: 90616},
+																			pos:        position{line: 2866, col: 10, offset: 90687},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -45920,10 +45936,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1298, col: 12, offset: 40482},
 																		expr: &actionExpr{
-																			pos: position{line: 2863, col: 10, offset: 90616},
+																			pos: position{line: 2866, col: 10, offset: 90687},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2863, col: 10, offset: 90616},
+																				pos:        position{line: 2866, col: 10, offset: 90687},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45940,10 +45956,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1298, col: 23, offset: 40493},
 																		expr: &actionExpr{
-																			pos: position{line: 2863, col: 10, offset: 90616},
+																			pos: position{line: 2866, col: 10, offset: 90687},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2863, col: 10, offset: 90616},
+																				pos:        position{line: 2866, col: 10, offset: 90687},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45963,17 +45979,17 @@ var g = &grammar{
 																					pos: position{line: 1304, col: 31, offset: 40768},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2753, col: 13, offset: 87711},
+																							pos:        position{line: 2756, col: 13, offset: 87782},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2863, col: 10, offset: 90616},
+																							pos: position{line: 2866, col: 10, offset: 90687},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2863, col: 10, offset: 90616},
+																								pos:        position{line: 2866, col: 10, offset: 90687},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -46004,10 +46020,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1299, col: 12, offset: 40574},
 																		expr: &actionExpr{
-																			pos: position{line: 2863, col: 10, offset: 90616},
+																			pos: position{line: 2866, col: 10, offset: 90687},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2863, col: 10, offset: 90616},
+																				pos:        position{line: 2866, col: 10, offset: 90687},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46024,10 +46040,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1299, col: 23, offset: 40585},
 																		expr: &actionExpr{
-																			pos: position{line: 2863, col: 10, offset: 90616},
+																			pos: position{line: 2866, col: 10, offset: 90687},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2863, col: 10, offset: 90616},
+																				pos:        position{line: 2866, col: 10, offset: 90687},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46047,17 +46063,17 @@ var g = &grammar{
 																					pos: position{line: 1304, col: 31, offset: 40768},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2753, col: 13, offset: 87711},
+																							pos:        position{line: 2756, col: 13, offset: 87782},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2863, col: 10, offset: 90616},
+																							pos: position{line: 2866, col: 10, offset: 90687},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2863, col: 10, offset: 90616},
+																								pos:        position{line: 2866, col: 10, offset: 90687},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -46174,10 +46190,10 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1385, col: 12, offset: 44551},
 																				expr: &actionExpr{
-																					pos: position{line: 2863, col: 10, offset: 90616},
+																					pos: position{line: 2866, col: 10, offset: 90687},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2863, col: 10, offset: 90616},
+																						pos:        position{line: 2866, col: 10, offset: 90687},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -46188,25 +46204,25 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1385, col: 19, offset: 44558},
 																				expr: &actionExpr{
-																					pos: position{line: 2872, col: 12, offset: 90787},
+																					pos: position{line: 2875, col: 12, offset: 90858},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2872, col: 13, offset: 90788},
+																						pos: position{line: 2875, col: 13, offset: 90859},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2872, col: 13, offset: 90788},
+																								pos:        position{line: 2875, col: 13, offset: 90859},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2872, col: 20, offset: 90795},
+																								pos:        position{line: 2875, col: 20, offset: 90866},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2872, col: 29, offset: 90804},
+																								pos:        position{line: 2875, col: 29, offset: 90875},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -46243,7 +46259,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1379, col: 121, offset: 44200},
 													expr: &charClassMatcher{
-														pos:        position{line: 2753, col: 13, offset: 87711},
+														pos:        position{line: 2756, col: 13, offset: 87782},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -46289,10 +46305,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1371, col: 64, offset: 43660},
 																			expr: &actionExpr{
-																				pos: position{line: 2863, col: 10, offset: 90616},
+																				pos: position{line: 2866, col: 10, offset: 90687},
 																				run: (*parser).callonInlinePassthrough45,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2863, col: 10, offset: 90616},
+																					pos:        position{line: 2866, col: 10, offset: 90687},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -46303,25 +46319,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1371, col: 71, offset: 43667},
 																			expr: &actionExpr{
-																				pos: position{line: 2872, col: 12, offset: 90787},
+																				pos: position{line: 2875, col: 12, offset: 90858},
 																				run: (*parser).callonInlinePassthrough48,
 																				expr: &choiceExpr{
-																					pos: position{line: 2872, col: 13, offset: 90788},
+																					pos: position{line: 2875, col: 13, offset: 90859},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 13, offset: 90788},
+																							pos:        position{line: 2875, col: 13, offset: 90859},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 20, offset: 90795},
+																							pos:        position{line: 2875, col: 20, offset: 90866},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 29, offset: 90804},
+																							pos:        position{line: 2875, col: 29, offset: 90875},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -46344,12 +46360,12 @@ var g = &grammar{
 																							pos: position{line: 1371, col: 86, offset: 43682},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2867, col: 11, offset: 90677},
+																									pos: position{line: 2870, col: 11, offset: 90748},
 																									run: (*parser).callonInlinePassthrough58,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2867, col: 11, offset: 90677},
+																										pos: position{line: 2870, col: 11, offset: 90748},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2867, col: 11, offset: 90677},
+																											pos:        position{line: 2870, col: 11, offset: 90748},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -46378,25 +46394,25 @@ var g = &grammar{
 																					&notExpr{
 																						pos: position{line: 1371, col: 151, offset: 43747},
 																						expr: &actionExpr{
-																							pos: position{line: 2872, col: 12, offset: 90787},
+																							pos: position{line: 2875, col: 12, offset: 90858},
 																							run: (*parser).callonInlinePassthrough65,
 																							expr: &choiceExpr{
-																								pos: position{line: 2872, col: 13, offset: 90788},
+																								pos: position{line: 2875, col: 13, offset: 90859},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2872, col: 13, offset: 90788},
+																										pos:        position{line: 2875, col: 13, offset: 90859},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2872, col: 20, offset: 90795},
+																										pos:        position{line: 2875, col: 20, offset: 90866},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2872, col: 29, offset: 90804},
+																										pos:        position{line: 2875, col: 29, offset: 90875},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -46423,10 +46439,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1373, col: 12, offset: 43907},
 																			expr: &actionExpr{
-																				pos: position{line: 2863, col: 10, offset: 90616},
+																				pos: position{line: 2866, col: 10, offset: 90687},
 																				run: (*parser).callonInlinePassthrough74,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2863, col: 10, offset: 90616},
+																					pos:        position{line: 2866, col: 10, offset: 90687},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -46437,25 +46453,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1373, col: 19, offset: 43914},
 																			expr: &actionExpr{
-																				pos: position{line: 2872, col: 12, offset: 90787},
+																				pos: position{line: 2875, col: 12, offset: 90858},
 																				run: (*parser).callonInlinePassthrough77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2872, col: 13, offset: 90788},
+																					pos: position{line: 2875, col: 13, offset: 90859},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 13, offset: 90788},
+																							pos:        position{line: 2875, col: 13, offset: 90859},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 20, offset: 90795},
+																							pos:        position{line: 2875, col: 20, offset: 90866},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2872, col: 29, offset: 90804},
+																							pos:        position{line: 2875, col: 29, offset: 90875},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -46491,7 +46507,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1367, col: 121, offset: 43483},
 													expr: &charClassMatcher{
-														pos:        position{line: 2753, col: 13, offset: 87711},
+														pos:        position{line: 2756, col: 13, offset: 87782},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -46556,93 +46572,93 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2508, col: 1, offset: 80762},
+			pos:  position{line: 2511, col: 1, offset: 80833},
 			expr: &choiceExpr{
-				pos: position{line: 2510, col: 5, offset: 80792},
+				pos: position{line: 2513, col: 5, offset: 80863},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2510, col: 5, offset: 80792},
+						pos: position{line: 2513, col: 5, offset: 80863},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2510, col: 5, offset: 80792},
+							pos: position{line: 2513, col: 5, offset: 80863},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2510, col: 5, offset: 80792},
+									pos:        position{line: 2513, col: 5, offset: 80863},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2510, col: 10, offset: 80797},
+									pos: position{line: 2513, col: 10, offset: 80868},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2510, col: 10, offset: 80797},
+											pos:  position{line: 2513, col: 10, offset: 80868},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2539, col: 14, offset: 81931},
+											pos: position{line: 2542, col: 14, offset: 82002},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2539, col: 14, offset: 81931},
+												pos:        position{line: 2542, col: 14, offset: 82002},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2543, col: 14, offset: 81997},
+											pos: position{line: 2546, col: 14, offset: 82068},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2543, col: 14, offset: 81997},
+												pos:        position{line: 2546, col: 14, offset: 82068},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2547, col: 15, offset: 82066},
+											pos: position{line: 2550, col: 15, offset: 82137},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2547, col: 15, offset: 82066},
+												pos:        position{line: 2550, col: 15, offset: 82137},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2551, col: 13, offset: 82131},
+											pos: position{line: 2554, col: 13, offset: 82202},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2551, col: 13, offset: 82131},
+												pos:        position{line: 2554, col: 13, offset: 82202},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2558, col: 5, offset: 82269},
+											pos: position{line: 2561, col: 5, offset: 82340},
 											run: (*parser).callonSymbol15,
 											expr: &seqExpr{
-												pos: position{line: 2558, col: 5, offset: 82269},
+												pos: position{line: 2561, col: 5, offset: 82340},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2558, col: 5, offset: 82269},
+														pos:        position{line: 2561, col: 5, offset: 82340},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2559, col: 5, offset: 82279},
+														pos: position{line: 2562, col: 5, offset: 82350},
 														run: (*parser).callonSymbol18,
 													},
 													&choiceExpr{
-														pos: position{line: 2563, col: 6, offset: 82366},
+														pos: position{line: 2566, col: 6, offset: 82437},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2863, col: 10, offset: 90616},
+																pos: position{line: 2866, col: 10, offset: 90687},
 																run: (*parser).callonSymbol20,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2863, col: 10, offset: 90616},
+																	pos:        position{line: 2866, col: 10, offset: 90687},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -46650,30 +46666,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2563, col: 14, offset: 82374},
+																pos: position{line: 2566, col: 14, offset: 82445},
 																expr: &choiceExpr{
-																	pos: position{line: 2885, col: 8, offset: 91014},
+																	pos: position{line: 2888, col: 8, offset: 91085},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2872, col: 12, offset: 90787},
+																			pos: position{line: 2875, col: 12, offset: 90858},
 																			run: (*parser).callonSymbol24,
 																			expr: &choiceExpr{
-																				pos: position{line: 2872, col: 13, offset: 90788},
+																				pos: position{line: 2875, col: 13, offset: 90859},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 13, offset: 90788},
+																						pos:        position{line: 2875, col: 13, offset: 90859},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 20, offset: 90795},
+																						pos:        position{line: 2875, col: 20, offset: 90866},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2872, col: 29, offset: 90804},
+																						pos:        position{line: 2875, col: 29, offset: 90875},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -46682,9 +46698,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2882, col: 8, offset: 90964},
+																			pos: position{line: 2885, col: 8, offset: 91035},
 																			expr: &anyMatcher{
-																				line: 2882, col: 9, offset: 90965,
+																				line: 2885, col: 9, offset: 91036,
 																			},
 																		},
 																	},
@@ -46696,53 +46712,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2568, col: 5, offset: 82494},
+											pos: position{line: 2571, col: 5, offset: 82565},
 											run: (*parser).callonSymbol31,
 											expr: &seqExpr{
-												pos: position{line: 2568, col: 5, offset: 82494},
+												pos: position{line: 2571, col: 5, offset: 82565},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2568, col: 5, offset: 82494},
+														pos:        position{line: 2571, col: 5, offset: 82565},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2569, col: 5, offset: 82504},
+														pos: position{line: 2572, col: 5, offset: 82575},
 														run: (*parser).callonSymbol34,
 													},
 													&andExpr{
-														pos: position{line: 2573, col: 5, offset: 82593},
+														pos: position{line: 2576, col: 5, offset: 82664},
 														expr: &choiceExpr{
-															pos: position{line: 2573, col: 7, offset: 82595},
+															pos: position{line: 2576, col: 7, offset: 82666},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2753, col: 13, offset: 87711},
+																	pos:        position{line: 2756, col: 13, offset: 87782},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2872, col: 12, offset: 90787},
+																	pos: position{line: 2875, col: 12, offset: 90858},
 																	run: (*parser).callonSymbol38,
 																	expr: &choiceExpr{
-																		pos: position{line: 2872, col: 13, offset: 90788},
+																		pos: position{line: 2875, col: 13, offset: 90859},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2872, col: 13, offset: 90788},
+																				pos:        position{line: 2875, col: 13, offset: 90859},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2872, col: 20, offset: 90795},
+																				pos:        position{line: 2875, col: 20, offset: 90866},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2872, col: 29, offset: 90804},
+																				pos:        position{line: 2875, col: 29, offset: 90875},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -46751,9 +46767,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2882, col: 8, offset: 90964},
+																	pos: position{line: 2885, col: 8, offset: 91035},
 																	expr: &anyMatcher{
-																		line: 2882, col: 9, offset: 90965,
+																		line: 2885, col: 9, offset: 91036,
 																	},
 																},
 															},
@@ -46768,44 +46784,44 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2513, col: 7, offset: 80961},
+						pos: position{line: 2516, col: 7, offset: 81032},
 						run: (*parser).callonSymbol45,
 						expr: &seqExpr{
-							pos: position{line: 2513, col: 7, offset: 80961},
+							pos: position{line: 2516, col: 7, offset: 81032},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2513, col: 7, offset: 80961},
+									pos:        position{line: 2516, col: 7, offset: 81032},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2513, col: 11, offset: 80965},
+									pos:   position{line: 2516, col: 11, offset: 81036},
 									label: "elements",
 									expr: &choiceExpr{
-										pos: position{line: 2513, col: 21, offset: 80975},
+										pos: position{line: 2516, col: 21, offset: 81046},
 										alternatives: []interface{}{
 											&seqExpr{
-												pos: position{line: 2513, col: 21, offset: 80975},
+												pos: position{line: 2516, col: 21, offset: 81046},
 												exprs: []interface{}{
 													&charClassMatcher{
-														pos:        position{line: 2513, col: 21, offset: 80975},
+														pos:        position{line: 2516, col: 21, offset: 81046},
 														val:        "[-=]",
 														chars:      []rune{'-', '='},
 														ignoreCase: false,
 														inverted:   false,
 													},
 													&andExpr{
-														pos: position{line: 2513, col: 26, offset: 80980},
+														pos: position{line: 2516, col: 26, offset: 81051},
 														expr: &litMatcher{
-															pos:        position{line: 2513, col: 27, offset: 80981},
+															pos:        position{line: 2516, col: 27, offset: 81052},
 															val:        ">",
 															ignoreCase: false,
 															want:       "\">\"",
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2513, col: 32, offset: 80986},
+														pos: position{line: 2516, col: 32, offset: 81057},
 														alternatives: []interface{}{
 															&actionExpr{
 																pos: position{line: 2460, col: 5, offset: 79140},
@@ -46836,28 +46852,28 @@ var g = &grammar{
 																},
 															},
 															&anyMatcher{
-																line: 2513, col: 51, offset: 81005,
+																line: 2516, col: 51, offset: 81076,
 															},
 														},
 													},
 												},
 											},
 											&seqExpr{
-												pos: position{line: 2513, col: 56, offset: 81010},
+												pos: position{line: 2516, col: 56, offset: 81081},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2513, col: 56, offset: 81010},
+														pos: position{line: 2516, col: 56, offset: 81081},
 														expr: &choiceExpr{
-															pos: position{line: 2513, col: 58, offset: 81012},
+															pos: position{line: 2516, col: 58, offset: 81083},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2513, col: 58, offset: 81012},
+																	pos:        position{line: 2516, col: 58, offset: 81083},
 																	val:        "<-",
 																	ignoreCase: false,
 																	want:       "\"<-\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2513, col: 65, offset: 81019},
+																	pos:        position{line: 2516, col: 65, offset: 81090},
 																	val:        "<=",
 																	ignoreCase: false,
 																	want:       "\"<=\"",
@@ -46866,7 +46882,7 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2513, col: 72, offset: 81026},
+														pos: position{line: 2516, col: 72, offset: 81097},
 														alternatives: []interface{}{
 															&actionExpr{
 																pos: position{line: 2460, col: 5, offset: 79140},
@@ -46897,12 +46913,12 @@ var g = &grammar{
 																},
 															},
 															&anyMatcher{
-																line: 2513, col: 91, offset: 81045,
+																line: 2516, col: 91, offset: 81116,
 															},
 														},
 													},
 													&anyMatcher{
-														line: 2513, col: 94, offset: 81048,
+														line: 2516, col: 94, offset: 81119,
 													},
 												},
 											},
@@ -46913,73 +46929,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2514, col: 7, offset: 81082},
+						pos:  position{line: 2517, col: 7, offset: 81153},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2539, col: 14, offset: 81931},
+						pos: position{line: 2542, col: 14, offset: 82002},
 						run: (*parser).callonSymbol77,
 						expr: &litMatcher{
-							pos:        position{line: 2539, col: 14, offset: 81931},
+							pos:        position{line: 2542, col: 14, offset: 82002},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2543, col: 14, offset: 81997},
+						pos: position{line: 2546, col: 14, offset: 82068},
 						run: (*parser).callonSymbol79,
 						expr: &litMatcher{
-							pos:        position{line: 2543, col: 14, offset: 81997},
+							pos:        position{line: 2546, col: 14, offset: 82068},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2547, col: 15, offset: 82066},
+						pos: position{line: 2550, col: 15, offset: 82137},
 						run: (*parser).callonSymbol81,
 						expr: &litMatcher{
-							pos:        position{line: 2547, col: 15, offset: 82066},
+							pos:        position{line: 2550, col: 15, offset: 82137},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2551, col: 13, offset: 82131},
+						pos: position{line: 2554, col: 13, offset: 82202},
 						run: (*parser).callonSymbol83,
 						expr: &litMatcher{
-							pos:        position{line: 2551, col: 13, offset: 82131},
+							pos:        position{line: 2554, col: 13, offset: 82202},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2558, col: 5, offset: 82269},
+						pos: position{line: 2561, col: 5, offset: 82340},
 						run: (*parser).callonSymbol85,
 						expr: &seqExpr{
-							pos: position{line: 2558, col: 5, offset: 82269},
+							pos: position{line: 2561, col: 5, offset: 82340},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2558, col: 5, offset: 82269},
+									pos:        position{line: 2561, col: 5, offset: 82340},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2559, col: 5, offset: 82279},
+									pos: position{line: 2562, col: 5, offset: 82350},
 									run: (*parser).callonSymbol88,
 								},
 								&choiceExpr{
-									pos: position{line: 2563, col: 6, offset: 82366},
+									pos: position{line: 2566, col: 6, offset: 82437},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2863, col: 10, offset: 90616},
+											pos: position{line: 2866, col: 10, offset: 90687},
 											run: (*parser).callonSymbol90,
 											expr: &charClassMatcher{
-												pos:        position{line: 2863, col: 10, offset: 90616},
+												pos:        position{line: 2866, col: 10, offset: 90687},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -46987,30 +47003,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2563, col: 14, offset: 82374},
+											pos: position{line: 2566, col: 14, offset: 82445},
 											expr: &choiceExpr{
-												pos: position{line: 2885, col: 8, offset: 91014},
+												pos: position{line: 2888, col: 8, offset: 91085},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2872, col: 12, offset: 90787},
+														pos: position{line: 2875, col: 12, offset: 90858},
 														run: (*parser).callonSymbol94,
 														expr: &choiceExpr{
-															pos: position{line: 2872, col: 13, offset: 90788},
+															pos: position{line: 2875, col: 13, offset: 90859},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2872, col: 13, offset: 90788},
+																	pos:        position{line: 2875, col: 13, offset: 90859},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2872, col: 20, offset: 90795},
+																	pos:        position{line: 2875, col: 20, offset: 90866},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2872, col: 29, offset: 90804},
+																	pos:        position{line: 2875, col: 29, offset: 90875},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -47019,9 +47035,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2882, col: 8, offset: 90964},
+														pos: position{line: 2885, col: 8, offset: 91035},
 														expr: &anyMatcher{
-															line: 2882, col: 9, offset: 90965,
+															line: 2885, col: 9, offset: 91036,
 														},
 													},
 												},
@@ -47033,53 +47049,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2568, col: 5, offset: 82494},
+						pos: position{line: 2571, col: 5, offset: 82565},
 						run: (*parser).callonSymbol101,
 						expr: &seqExpr{
-							pos: position{line: 2568, col: 5, offset: 82494},
+							pos: position{line: 2571, col: 5, offset: 82565},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2568, col: 5, offset: 82494},
+									pos:        position{line: 2571, col: 5, offset: 82565},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2569, col: 5, offset: 82504},
+									pos: position{line: 2572, col: 5, offset: 82575},
 									run: (*parser).callonSymbol104,
 								},
 								&andExpr{
-									pos: position{line: 2573, col: 5, offset: 82593},
+									pos: position{line: 2576, col: 5, offset: 82664},
 									expr: &choiceExpr{
-										pos: position{line: 2573, col: 7, offset: 82595},
+										pos: position{line: 2576, col: 7, offset: 82666},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2753, col: 13, offset: 87711},
+												pos:        position{line: 2756, col: 13, offset: 87782},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2872, col: 12, offset: 90787},
+												pos: position{line: 2875, col: 12, offset: 90858},
 												run: (*parser).callonSymbol108,
 												expr: &choiceExpr{
-													pos: position{line: 2872, col: 13, offset: 90788},
+													pos: position{line: 2875, col: 13, offset: 90859},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2872, col: 13, offset: 90788},
+															pos:        position{line: 2875, col: 13, offset: 90859},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2872, col: 20, offset: 90795},
+															pos:        position{line: 2875, col: 20, offset: 90866},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2872, col: 29, offset: 90804},
+															pos:        position{line: 2875, col: 29, offset: 90875},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -47088,9 +47104,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2882, col: 8, offset: 90964},
+												pos: position{line: 2885, col: 8, offset: 91035},
 												expr: &anyMatcher{
-													line: 2882, col: 9, offset: 90965,
+													line: 2885, col: 9, offset: 91036,
 												},
 											},
 										},
@@ -47100,40 +47116,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2579, col: 21, offset: 82683},
+						pos: position{line: 2582, col: 21, offset: 82754},
 						run: (*parser).callonSymbol115,
 						expr: &litMatcher{
-							pos:        position{line: 2579, col: 21, offset: 82683},
+							pos:        position{line: 2582, col: 21, offset: 82754},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2583, col: 20, offset: 82753},
+						pos: position{line: 2586, col: 20, offset: 82824},
 						run: (*parser).callonSymbol117,
 						expr: &litMatcher{
-							pos:        position{line: 2583, col: 20, offset: 82753},
+							pos:        position{line: 2586, col: 20, offset: 82824},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2587, col: 21, offset: 82824},
+						pos: position{line: 2590, col: 21, offset: 82895},
 						run: (*parser).callonSymbol119,
 						expr: &litMatcher{
-							pos:        position{line: 2587, col: 21, offset: 82824},
+							pos:        position{line: 2590, col: 21, offset: 82895},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2591, col: 20, offset: 82894},
+						pos: position{line: 2594, col: 20, offset: 82965},
 						run: (*parser).callonSymbol121,
 						expr: &litMatcher{
-							pos:        position{line: 2591, col: 20, offset: 82894},
+							pos:        position{line: 2594, col: 20, offset: 82965},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -47144,24 +47160,24 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2525, col: 1, offset: 81272},
+			pos:  position{line: 2528, col: 1, offset: 81343},
 			expr: &choiceExpr{
-				pos: position{line: 2526, col: 5, offset: 81294},
+				pos: position{line: 2529, col: 5, offset: 81365},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2526, col: 5, offset: 81294},
+						pos: position{line: 2529, col: 5, offset: 81365},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2526, col: 5, offset: 81294},
+							pos: position{line: 2529, col: 5, offset: 81365},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2526, col: 5, offset: 81294},
+									pos:        position{line: 2529, col: 5, offset: 81365},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2526, col: 11, offset: 81300},
+									pos: position{line: 2529, col: 11, offset: 81371},
 									expr: &seqExpr{
 										pos: position{line: 2079, col: 5, offset: 67277},
 										exprs: []interface{}{
@@ -47194,21 +47210,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2529, col: 7, offset: 81453},
+						pos: position{line: 2532, col: 7, offset: 81524},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2529, col: 7, offset: 81453},
+							pos: position{line: 2532, col: 7, offset: 81524},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2529, col: 7, offset: 81453},
+									pos:        position{line: 2532, col: 7, offset: 81524},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2529, col: 13, offset: 81459},
+									pos: position{line: 2532, col: 13, offset: 81530},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2529, col: 14, offset: 81460},
+										pos:  position{line: 2532, col: 14, offset: 81531},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -47216,19 +47232,19 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2532, col: 7, offset: 81610},
+						pos: position{line: 2535, col: 7, offset: 81681},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2532, col: 7, offset: 81610},
+							pos: position{line: 2535, col: 7, offset: 81681},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2532, col: 7, offset: 81610},
+									pos:        position{line: 2535, col: 7, offset: 81681},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2532, col: 12, offset: 81615},
+									pos: position{line: 2535, col: 12, offset: 81686},
 									expr: &seqExpr{
 										pos: position{line: 2079, col: 5, offset: 67277},
 										exprs: []interface{}{
@@ -47261,21 +47277,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2535, col: 7, offset: 81768},
+						pos: position{line: 2538, col: 7, offset: 81839},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2535, col: 7, offset: 81768},
+							pos: position{line: 2538, col: 7, offset: 81839},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2535, col: 7, offset: 81768},
+									pos:        position{line: 2538, col: 7, offset: 81839},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2535, col: 12, offset: 81773},
+									pos: position{line: 2538, col: 12, offset: 81844},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2535, col: 13, offset: 81774},
+										pos:  position{line: 2538, col: 13, offset: 81845},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -47287,63 +47303,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2668, col: 1, offset: 84796},
+			pos:  position{line: 2671, col: 1, offset: 84867},
 			expr: &actionExpr{
-				pos: position{line: 2668, col: 26, offset: 84821},
+				pos: position{line: 2671, col: 26, offset: 84892},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2668, col: 26, offset: 84821},
+					pos: position{line: 2671, col: 26, offset: 84892},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2668, col: 26, offset: 84821},
+							pos:   position{line: 2671, col: 26, offset: 84892},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2668, col: 31, offset: 84826},
+								pos: position{line: 2671, col: 31, offset: 84897},
 								expr: &actionExpr{
-									pos: position{line: 2673, col: 5, offset: 84889},
+									pos: position{line: 2676, col: 5, offset: 84960},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2673, col: 5, offset: 84889},
+										pos: position{line: 2676, col: 5, offset: 84960},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2880, col: 11, offset: 90950},
+												pos: position{line: 2883, col: 11, offset: 91021},
 												expr: &anyMatcher{
-													line: 2880, col: 13, offset: 90952,
+													line: 2883, col: 13, offset: 91023,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2676, col: 5, offset: 85015},
+												pos:   position{line: 2679, col: 5, offset: 85086},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2676, col: 16, offset: 85026},
+													pos: position{line: 2679, col: 16, offset: 85097},
 													expr: &actionExpr{
-														pos: position{line: 2676, col: 17, offset: 85027},
+														pos: position{line: 2679, col: 17, offset: 85098},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2676, col: 17, offset: 85027},
+															pos: position{line: 2679, col: 17, offset: 85098},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2676, col: 17, offset: 85027},
+																	pos:   position{line: 2679, col: 17, offset: 85098},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2855, col: 12, offset: 90443},
+																		pos: position{line: 2858, col: 12, offset: 90514},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2855, col: 13, offset: 90444},
+																			pos: position{line: 2858, col: 13, offset: 90515},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2855, col: 13, offset: 90444},
+																					pos: position{line: 2858, col: 13, offset: 90515},
 																					expr: &litMatcher{
-																						pos:        position{line: 2855, col: 13, offset: 90444},
+																						pos:        position{line: 2858, col: 13, offset: 90515},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2855, col: 18, offset: 90449},
+																					pos: position{line: 2858, col: 18, offset: 90520},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2855, col: 18, offset: 90449},
+																						pos:        position{line: 2858, col: 18, offset: 90520},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -47355,7 +47371,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2676, col: 27, offset: 85037},
+																	pos:        position{line: 2679, col: 27, offset: 85108},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -47366,38 +47382,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2677, col: 5, offset: 85065},
+												pos:   position{line: 2680, col: 5, offset: 85136},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2677, col: 12, offset: 85072},
+													pos: position{line: 2680, col: 12, offset: 85143},
 													expr: &choiceExpr{
-														pos: position{line: 2678, col: 9, offset: 85082},
+														pos: position{line: 2681, col: 9, offset: 85153},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2678, col: 9, offset: 85082},
+																pos: position{line: 2681, col: 9, offset: 85153},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2678, col: 9, offset: 85082},
+																	pos:        position{line: 2681, col: 9, offset: 85153},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2679, col: 11, offset: 85129},
+																pos: position{line: 2682, col: 11, offset: 85200},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2679, col: 11, offset: 85129},
+																	pos:        position{line: 2682, col: 11, offset: 85200},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2680, col: 11, offset: 85177},
+																pos: position{line: 2683, col: 11, offset: 85248},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2680, col: 11, offset: 85177},
+																	pos:        position{line: 2683, col: 11, offset: 85248},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -47408,38 +47424,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2682, col: 5, offset: 85227},
+												pos:   position{line: 2685, col: 5, offset: 85298},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2682, col: 12, offset: 85234},
+													pos: position{line: 2685, col: 12, offset: 85305},
 													expr: &choiceExpr{
-														pos: position{line: 2683, col: 9, offset: 85244},
+														pos: position{line: 2686, col: 9, offset: 85315},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2683, col: 9, offset: 85244},
+																pos: position{line: 2686, col: 9, offset: 85315},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2683, col: 9, offset: 85244},
+																	pos:        position{line: 2686, col: 9, offset: 85315},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2684, col: 11, offset: 85291},
+																pos: position{line: 2687, col: 11, offset: 85362},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2684, col: 11, offset: 85291},
+																	pos:        position{line: 2687, col: 11, offset: 85362},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2685, col: 11, offset: 85341},
+																pos: position{line: 2688, col: 11, offset: 85412},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2685, col: 11, offset: 85341},
+																	pos:        position{line: 2688, col: 11, offset: 85412},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -47450,32 +47466,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2687, col: 5, offset: 85392},
+												pos:   position{line: 2690, col: 5, offset: 85463},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2687, col: 12, offset: 85399},
+													pos: position{line: 2690, col: 12, offset: 85470},
 													expr: &choiceExpr{
-														pos: position{line: 2687, col: 13, offset: 85400},
+														pos: position{line: 2690, col: 13, offset: 85471},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2855, col: 12, offset: 90443},
+																pos: position{line: 2858, col: 12, offset: 90514},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2855, col: 13, offset: 90444},
+																	pos: position{line: 2858, col: 13, offset: 90515},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2855, col: 13, offset: 90444},
+																			pos: position{line: 2858, col: 13, offset: 90515},
 																			expr: &litMatcher{
-																				pos:        position{line: 2855, col: 13, offset: 90444},
+																				pos:        position{line: 2858, col: 13, offset: 90515},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2855, col: 18, offset: 90449},
+																			pos: position{line: 2858, col: 18, offset: 90520},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2855, col: 18, offset: 90449},
+																				pos:        position{line: 2858, col: 18, offset: 90520},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -47486,10 +47502,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2687, col: 24, offset: 85411},
+																pos: position{line: 2690, col: 24, offset: 85482},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2687, col: 24, offset: 85411},
+																	pos:        position{line: 2690, col: 24, offset: 85482},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -47500,15 +47516,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2688, col: 5, offset: 85453},
+												pos:   position{line: 2691, col: 5, offset: 85524},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2688, col: 11, offset: 85459},
+													pos: position{line: 2691, col: 11, offset: 85530},
 													expr: &actionExpr{
-														pos: position{line: 2688, col: 12, offset: 85460},
+														pos: position{line: 2691, col: 12, offset: 85531},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2688, col: 12, offset: 85460},
+															pos:        position{line: 2691, col: 12, offset: 85531},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -47518,12 +47534,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2690, col: 5, offset: 85590},
+												pos:   position{line: 2693, col: 5, offset: 85661},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2690, col: 11, offset: 85596},
+													pos: position{line: 2693, col: 11, offset: 85667},
 													expr: &litMatcher{
-														pos:        position{line: 2690, col: 12, offset: 85597},
+														pos:        position{line: 2693, col: 12, offset: 85668},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -47531,7 +47547,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2691, col: 5, offset: 85607},
+												pos: position{line: 2694, col: 5, offset: 85678},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -47540,9 +47556,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2882, col: 8, offset: 90964},
+							pos: position{line: 2885, col: 8, offset: 91035},
 							expr: &anyMatcher{
-								line: 2882, col: 9, offset: 90965,
+								line: 2885, col: 9, offset: 91036,
 							},
 						},
 					},
@@ -47551,23 +47567,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2718, col: 1, offset: 86611},
+			pos:  position{line: 2721, col: 1, offset: 86682},
 			expr: &actionExpr{
-				pos: position{line: 2719, col: 5, offset: 86634},
+				pos: position{line: 2722, col: 5, offset: 86705},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2719, col: 5, offset: 86634},
+					pos: position{line: 2722, col: 5, offset: 86705},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2719, col: 5, offset: 86634},
+							pos:   position{line: 2722, col: 5, offset: 86705},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2742, col: 18, offset: 87375},
+								pos: position{line: 2745, col: 18, offset: 87446},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2742, col: 19, offset: 87376},
+									pos: position{line: 2745, col: 19, offset: 87447},
 									expr: &charClassMatcher{
-										pos:        position{line: 2742, col: 19, offset: 87376},
+										pos:        position{line: 2745, col: 19, offset: 87447},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47578,25 +47594,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2720, col: 5, offset: 86660},
+							pos: position{line: 2723, col: 5, offset: 86731},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2724, col: 5, offset: 86788},
+							pos:        position{line: 2727, col: 5, offset: 86859},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2725, col: 5, offset: 86798},
+							pos:   position{line: 2728, col: 5, offset: 86869},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2746, col: 19, offset: 87451},
+								pos: position{line: 2749, col: 19, offset: 87522},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2746, col: 19, offset: 87451},
+									pos: position{line: 2749, col: 19, offset: 87522},
 									expr: &charClassMatcher{
-										pos:        position{line: 2746, col: 19, offset: 87451},
+										pos:        position{line: 2749, col: 19, offset: 87522},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -47606,36 +47622,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2726, col: 5, offset: 86826},
+							pos:   position{line: 2729, col: 5, offset: 86897},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2726, col: 17, offset: 86838},
+								pos:  position{line: 2729, col: 17, offset: 86909},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2885, col: 8, offset: 91014},
+							pos: position{line: 2888, col: 8, offset: 91085},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2872, col: 12, offset: 90787},
+									pos: position{line: 2875, col: 12, offset: 90858},
 									run: (*parser).callonUserMacroBlock16,
 									expr: &choiceExpr{
-										pos: position{line: 2872, col: 13, offset: 90788},
+										pos: position{line: 2875, col: 13, offset: 90859},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2872, col: 13, offset: 90788},
+												pos:        position{line: 2875, col: 13, offset: 90859},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2872, col: 20, offset: 90795},
+												pos:        position{line: 2875, col: 20, offset: 90866},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2872, col: 29, offset: 90804},
+												pos:        position{line: 2875, col: 29, offset: 90875},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -47644,9 +47660,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2882, col: 8, offset: 90964},
+									pos: position{line: 2885, col: 8, offset: 91035},
 									expr: &anyMatcher{
-										line: 2882, col: 9, offset: 90965,
+										line: 2885, col: 9, offset: 91036,
 									},
 								},
 							},
@@ -47657,23 +47673,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2730, col: 1, offset: 86986},
+			pos:  position{line: 2733, col: 1, offset: 87057},
 			expr: &actionExpr{
-				pos: position{line: 2731, col: 5, offset: 87010},
+				pos: position{line: 2734, col: 5, offset: 87081},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2731, col: 5, offset: 87010},
+					pos: position{line: 2734, col: 5, offset: 87081},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2731, col: 5, offset: 87010},
+							pos:   position{line: 2734, col: 5, offset: 87081},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2742, col: 18, offset: 87375},
+								pos: position{line: 2745, col: 18, offset: 87446},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2742, col: 19, offset: 87376},
+									pos: position{line: 2745, col: 19, offset: 87447},
 									expr: &charClassMatcher{
-										pos:        position{line: 2742, col: 19, offset: 87376},
+										pos:        position{line: 2745, col: 19, offset: 87447},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47684,25 +47700,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2732, col: 5, offset: 87036},
+							pos: position{line: 2735, col: 5, offset: 87107},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2736, col: 5, offset: 87164},
+							pos:        position{line: 2739, col: 5, offset: 87235},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2737, col: 5, offset: 87173},
+							pos:   position{line: 2740, col: 5, offset: 87244},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2746, col: 19, offset: 87451},
+								pos: position{line: 2749, col: 19, offset: 87522},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2746, col: 19, offset: 87451},
+									pos: position{line: 2749, col: 19, offset: 87522},
 									expr: &charClassMatcher{
-										pos:        position{line: 2746, col: 19, offset: 87451},
+										pos:        position{line: 2749, col: 19, offset: 87522},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -47712,10 +47728,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2738, col: 5, offset: 87201},
+							pos:   position{line: 2741, col: 5, offset: 87272},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2738, col: 17, offset: 87213},
+								pos:  position{line: 2741, col: 17, offset: 87284},
 								name: "InlineAttributes",
 							},
 						},
@@ -47725,43 +47741,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2817, col: 1, offset: 89263},
+			pos:  position{line: 2820, col: 1, offset: 89334},
 			expr: &actionExpr{
-				pos: position{line: 2817, col: 17, offset: 89279},
+				pos: position{line: 2820, col: 17, offset: 89350},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2817, col: 17, offset: 89279},
+					pos:   position{line: 2820, col: 17, offset: 89350},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2834, col: 5, offset: 89733},
+						pos: position{line: 2837, col: 5, offset: 89804},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2834, col: 5, offset: 89733},
+							pos:   position{line: 2837, col: 5, offset: 89804},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2834, col: 14, offset: 89742},
+								pos: position{line: 2837, col: 14, offset: 89813},
 								expr: &choiceExpr{
-									pos: position{line: 2835, col: 9, offset: 89752},
+									pos: position{line: 2838, col: 9, offset: 89823},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2835, col: 9, offset: 89752},
+											pos: position{line: 2838, col: 9, offset: 89823},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2835, col: 9, offset: 89752},
+												pos: position{line: 2838, col: 9, offset: 89823},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2835, col: 9, offset: 89752},
+														pos: position{line: 2838, col: 9, offset: 89823},
 														expr: &litMatcher{
-															pos:        position{line: 2835, col: 10, offset: 89753},
+															pos:        position{line: 2838, col: 10, offset: 89824},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2836, col: 9, offset: 89781},
+														pos: position{line: 2839, col: 9, offset: 89852},
 														expr: &charClassMatcher{
-															pos:        position{line: 2836, col: 10, offset: 89782},
+															pos:        position{line: 2839, col: 10, offset: 89853},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -47772,27 +47788,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2839, col: 11, offset: 89994},
+											pos: position{line: 2842, col: 11, offset: 90065},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2839, col: 11, offset: 89994},
+													pos:        position{line: 2842, col: 11, offset: 90065},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2839, col: 19, offset: 90002},
+													pos: position{line: 2842, col: 19, offset: 90073},
 													expr: &seqExpr{
-														pos: position{line: 2839, col: 21, offset: 90004},
+														pos: position{line: 2842, col: 21, offset: 90075},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2839, col: 21, offset: 90004},
+																pos: position{line: 2842, col: 21, offset: 90075},
 																expr: &actionExpr{
-																	pos: position{line: 2863, col: 10, offset: 90616},
+																	pos: position{line: 2866, col: 10, offset: 90687},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2863, col: 10, offset: 90616},
+																		pos:        position{line: 2866, col: 10, offset: 90687},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -47801,11 +47817,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2839, col: 28, offset: 90011},
+																pos: position{line: 2842, col: 28, offset: 90082},
 																expr: &notExpr{
-																	pos: position{line: 2882, col: 8, offset: 90964},
+																	pos: position{line: 2885, col: 8, offset: 91035},
 																	expr: &anyMatcher{
-																		line: 2882, col: 9, offset: 90965,
+																		line: 2885, col: 9, offset: 91036,
 																	},
 																},
 															},
@@ -48200,10 +48216,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2842, col: 11, offset: 90131},
+											pos: position{line: 2845, col: 11, offset: 90202},
 											run: (*parser).callonFileLocation100,
 											expr: &litMatcher{
-												pos:        position{line: 2842, col: 11, offset: 90131},
+												pos:        position{line: 2845, col: 11, offset: 90202},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -58802,6 +58818,17 @@ func (p *parser) callonFootnoteElement21() (interface{}, error) {
 	return p.cur.onFootnoteElement21()
 }
 
+func (c *current) onFootnoteElement26() (bool, error) {
+	return c.isSubstitutionEnabled(Replacements), nil
+
+}
+
+func (p *parser) callonFootnoteElement26() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onFootnoteElement26()
+}
+
 func (c *current) onFootnoteElement24() (interface{}, error) {
 	//log.Debug("matched escaped apostrophe")
 	return types.NewStringElement(`'`) // retain the apostrophe, but discard the `\` escape char
@@ -58814,159 +58841,159 @@ func (p *parser) callonFootnoteElement24() (interface{}, error) {
 	return p.cur.onFootnoteElement24()
 }
 
-func (c *current) onFootnoteElement31() (bool, error) {
+func (c *current) onFootnoteElement32() (bool, error) {
 	return c.isSubstitutionEnabled(Replacements), nil
 
 }
 
-func (p *parser) callonFootnoteElement31() (bool, error) {
+func (p *parser) callonFootnoteElement32() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement31()
+	return p.cur.onFootnoteElement32()
 }
 
-func (c *current) onFootnoteElement32() (bool, error) {
+func (c *current) onFootnoteElement33() (bool, error) {
 	//log.Debugf("TypographicQuote at pos %s", c.pos.String())
 	return c.isPrecededByAlphanum(), nil
 
 }
 
-func (p *parser) callonFootnoteElement32() (bool, error) {
+func (p *parser) callonFootnoteElement33() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement32()
+	return p.cur.onFootnoteElement33()
 }
 
-func (c *current) onFootnoteElement29() (interface{}, error) {
+func (c *current) onFootnoteElement30() (interface{}, error) {
 	return types.NewSymbol("'")
 
 }
 
-func (p *parser) callonFootnoteElement29() (interface{}, error) {
+func (p *parser) callonFootnoteElement30() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement29()
+	return p.cur.onFootnoteElement30()
 }
 
-func (c *current) onFootnoteElement42() (bool, error) {
+func (c *current) onFootnoteElement43() (bool, error) {
 
 	return c.allSubstitutionsDisabled(Macros, Quotes), nil
 
 }
 
-func (p *parser) callonFootnoteElement42() (bool, error) {
+func (p *parser) callonFootnoteElement43() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement42()
+	return p.cur.onFootnoteElement43()
 }
 
-func (c *current) onFootnoteElement46() (bool, error) {
+func (c *current) onFootnoteElement47() (bool, error) {
 
 	return c.isSubstitutionDisabled(Quotes), nil
 
 }
 
-func (p *parser) callonFootnoteElement46() (bool, error) {
+func (p *parser) callonFootnoteElement47() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement46()
+	return p.cur.onFootnoteElement47()
 }
 
-func (c *current) onFootnoteElement38() (interface{}, error) {
+func (c *current) onFootnoteElement39() (interface{}, error) {
 
 	log.Debugf("new punctuation: '%v'", string(c.text))
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement38() (interface{}, error) {
+func (p *parser) callonFootnoteElement39() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement38()
+	return p.cur.onFootnoteElement39()
 }
 
-func (c *current) onFootnoteElement55() (bool, error) {
+func (c *current) onFootnoteElement56() (bool, error) {
 
 	return c.isSubstitutionEnabled(PostReplacements), nil
 
 }
 
-func (p *parser) callonFootnoteElement55() (bool, error) {
+func (p *parser) callonFootnoteElement56() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement55()
+	return p.cur.onFootnoteElement56()
 }
 
-func (c *current) onFootnoteElement57() (bool, error) {
+func (c *current) onFootnoteElement58() (bool, error) {
 
 	log.Debug("LineBreak")
 	return c.isPrecededBySpace(), nil
 
 }
 
-func (p *parser) callonFootnoteElement57() (bool, error) {
+func (p *parser) callonFootnoteElement58() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement57()
+	return p.cur.onFootnoteElement58()
 }
 
-func (c *current) onFootnoteElement59() (interface{}, error) {
+func (c *current) onFootnoteElement60() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement59() (interface{}, error) {
+func (p *parser) callonFootnoteElement60() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement59()
+	return p.cur.onFootnoteElement60()
 }
 
-func (c *current) onFootnoteElement63() (interface{}, error) {
+func (c *current) onFootnoteElement64() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonFootnoteElement63() (interface{}, error) {
+func (p *parser) callonFootnoteElement64() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement63()
+	return p.cur.onFootnoteElement64()
 }
 
-func (c *current) onFootnoteElement53() (interface{}, error) {
+func (c *current) onFootnoteElement54() (interface{}, error) {
 	return types.NewLineBreak()
 
 }
 
-func (p *parser) callonFootnoteElement53() (interface{}, error) {
+func (p *parser) callonFootnoteElement54() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement53()
+	return p.cur.onFootnoteElement54()
 }
 
-func (c *current) onFootnoteElement72() (bool, error) {
+func (c *current) onFootnoteElement73() (bool, error) {
 	return c.isSubstitutionEnabled(AttributeRefs), nil
 
 }
 
-func (p *parser) callonFootnoteElement72() (bool, error) {
+func (p *parser) callonFootnoteElement73() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement72()
+	return p.cur.onFootnoteElement73()
 }
 
-func (c *current) onFootnoteElement79() (interface{}, error) {
+func (c *current) onFootnoteElement80() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement79() (interface{}, error) {
+func (p *parser) callonFootnoteElement80() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement79()
+	return p.cur.onFootnoteElement80()
 }
 
-func (c *current) onFootnoteElement75(name interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement76(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -58974,201 +59001,201 @@ func (c *current) onFootnoteElement75(name interface{}) (interface{}, error) {
 
 }
 
-func (p *parser) callonFootnoteElement75() (interface{}, error) {
+func (p *parser) callonFootnoteElement76() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement75(stack["name"])
+	return p.cur.onFootnoteElement76(stack["name"])
 }
 
-func (c *current) onFootnoteElement89() (interface{}, error) {
+func (c *current) onFootnoteElement90() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement89() (interface{}, error) {
+func (p *parser) callonFootnoteElement90() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement89()
+	return p.cur.onFootnoteElement90()
 }
 
-func (c *current) onFootnoteElement85(name interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement86(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonFootnoteElement85() (interface{}, error) {
+func (p *parser) callonFootnoteElement86() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement85(stack["name"])
+	return p.cur.onFootnoteElement86(stack["name"])
 }
 
-func (c *current) onFootnoteElement99() (interface{}, error) {
+func (c *current) onFootnoteElement100() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement99() (interface{}, error) {
+func (p *parser) callonFootnoteElement100() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement99()
+	return p.cur.onFootnoteElement100()
 }
 
-func (c *current) onFootnoteElement111() (interface{}, error) {
+func (c *current) onFootnoteElement112() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement111() (interface{}, error) {
+func (p *parser) callonFootnoteElement112() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement111()
+	return p.cur.onFootnoteElement112()
 }
 
-func (c *current) onFootnoteElement113() (interface{}, error) {
+func (c *current) onFootnoteElement114() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonFootnoteElement113() (interface{}, error) {
+func (p *parser) callonFootnoteElement114() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement113()
+	return p.cur.onFootnoteElement114()
 }
 
-func (c *current) onFootnoteElement106(start interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement107(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonFootnoteElement106() (interface{}, error) {
+func (p *parser) callonFootnoteElement107() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement106(stack["start"])
+	return p.cur.onFootnoteElement107(stack["start"])
 }
 
-func (c *current) onFootnoteElement95(name, start interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement96(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
 }
 
-func (p *parser) callonFootnoteElement95() (interface{}, error) {
+func (p *parser) callonFootnoteElement96() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement95(stack["name"], stack["start"])
+	return p.cur.onFootnoteElement96(stack["name"], stack["start"])
 }
 
-func (c *current) onFootnoteElement121() (interface{}, error) {
+func (c *current) onFootnoteElement122() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement121() (interface{}, error) {
+func (p *parser) callonFootnoteElement122() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement121()
+	return p.cur.onFootnoteElement122()
 }
 
-func (c *current) onFootnoteElement133() (interface{}, error) {
+func (c *current) onFootnoteElement134() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement133() (interface{}, error) {
+func (p *parser) callonFootnoteElement134() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement133()
+	return p.cur.onFootnoteElement134()
 }
 
-func (c *current) onFootnoteElement135() (interface{}, error) {
+func (c *current) onFootnoteElement136() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonFootnoteElement135() (interface{}, error) {
+func (p *parser) callonFootnoteElement136() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement135()
+	return p.cur.onFootnoteElement136()
 }
 
-func (c *current) onFootnoteElement128(start interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement129(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonFootnoteElement128() (interface{}, error) {
+func (p *parser) callonFootnoteElement129() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement128(stack["start"])
+	return p.cur.onFootnoteElement129(stack["start"])
 }
 
-func (c *current) onFootnoteElement117(name, start interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement118(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
 }
 
-func (p *parser) callonFootnoteElement117() (interface{}, error) {
+func (p *parser) callonFootnoteElement118() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement117(stack["name"], stack["start"])
+	return p.cur.onFootnoteElement118(stack["name"], stack["start"])
 }
 
-func (c *current) onFootnoteElement70(element interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement71(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonFootnoteElement70() (interface{}, error) {
+func (p *parser) callonFootnoteElement71() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement70(stack["element"])
+	return p.cur.onFootnoteElement71(stack["element"])
 }
 
-func (c *current) onFootnoteElement141() (bool, error) {
+func (c *current) onFootnoteElement142() (bool, error) {
 	return c.isSubstitutionEnabled(SpecialCharacters), nil
 
 }
 
-func (p *parser) callonFootnoteElement141() (bool, error) {
+func (p *parser) callonFootnoteElement142() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement141()
+	return p.cur.onFootnoteElement142()
 }
 
-func (c *current) onFootnoteElement143() (interface{}, error) {
+func (c *current) onFootnoteElement144() (interface{}, error) {
 	return types.NewSpecialCharacter(string(c.text))
 
 }
 
-func (p *parser) callonFootnoteElement143() (interface{}, error) {
+func (p *parser) callonFootnoteElement144() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement143()
+	return p.cur.onFootnoteElement144()
 }
 
-func (c *current) onFootnoteElement139(element interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement140(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonFootnoteElement139() (interface{}, error) {
+func (p *parser) callonFootnoteElement140() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement139(stack["element"])
+	return p.cur.onFootnoteElement140(stack["element"])
 }
 
-func (c *current) onFootnoteElement145() (interface{}, error) {
+func (c *current) onFootnoteElement146() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonFootnoteElement145() (interface{}, error) {
+func (p *parser) callonFootnoteElement146() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement145()
+	return p.cur.onFootnoteElement146()
 }
 
-func (c *current) onFootnoteElement150() (interface{}, error) {
+func (c *current) onFootnoteElement151() (interface{}, error) {
 
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("matching anychar '%s' at position %v", string(c.text), c.pos.String())
@@ -59177,10 +59204,10 @@ func (c *current) onFootnoteElement150() (interface{}, error) {
 
 }
 
-func (p *parser) callonFootnoteElement150() (interface{}, error) {
+func (p *parser) callonFootnoteElement151() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement150()
+	return p.cur.onFootnoteElement151()
 }
 
 func (c *current) onFootnoteElement1(element interface{}) (interface{}, error) {
@@ -69536,6 +69563,17 @@ func (p *parser) callonQuotedTextElement16() (interface{}, error) {
 	return p.cur.onQuotedTextElement16()
 }
 
+func (c *current) onQuotedTextElement22() (bool, error) {
+	return c.isSubstitutionEnabled(Replacements), nil
+
+}
+
+func (p *parser) callonQuotedTextElement22() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onQuotedTextElement22()
+}
+
 func (c *current) onQuotedTextElement20() (interface{}, error) {
 	//log.Debug("matched escaped apostrophe")
 	return types.NewStringElement(`'`) // retain the apostrophe, but discard the `\` escape char
@@ -69548,100 +69586,100 @@ func (p *parser) callonQuotedTextElement20() (interface{}, error) {
 	return p.cur.onQuotedTextElement20()
 }
 
-func (c *current) onQuotedTextElement27() (bool, error) {
+func (c *current) onQuotedTextElement28() (bool, error) {
 	return c.isSubstitutionEnabled(Replacements), nil
 
 }
 
-func (p *parser) callonQuotedTextElement27() (bool, error) {
+func (p *parser) callonQuotedTextElement28() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement27()
+	return p.cur.onQuotedTextElement28()
 }
 
-func (c *current) onQuotedTextElement28() (bool, error) {
+func (c *current) onQuotedTextElement29() (bool, error) {
 	//log.Debugf("TypographicQuote at pos %s", c.pos.String())
 	return c.isPrecededByAlphanum(), nil
 
 }
 
-func (p *parser) callonQuotedTextElement28() (bool, error) {
+func (p *parser) callonQuotedTextElement29() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement28()
+	return p.cur.onQuotedTextElement29()
 }
 
-func (c *current) onQuotedTextElement25() (interface{}, error) {
+func (c *current) onQuotedTextElement26() (interface{}, error) {
 	return types.NewSymbol("'")
 
 }
 
-func (p *parser) callonQuotedTextElement25() (interface{}, error) {
+func (p *parser) callonQuotedTextElement26() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement25()
+	return p.cur.onQuotedTextElement26()
 }
 
-func (c *current) onQuotedTextElement36() (bool, error) {
+func (c *current) onQuotedTextElement37() (bool, error) {
 
 	return c.allSubstitutionsDisabled(Macros, Quotes), nil
 
 }
 
-func (p *parser) callonQuotedTextElement36() (bool, error) {
+func (p *parser) callonQuotedTextElement37() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement36()
+	return p.cur.onQuotedTextElement37()
 }
 
-func (c *current) onQuotedTextElement40() (bool, error) {
+func (c *current) onQuotedTextElement41() (bool, error) {
 
 	return c.isSubstitutionDisabled(Quotes), nil
 
 }
 
-func (p *parser) callonQuotedTextElement40() (bool, error) {
+func (p *parser) callonQuotedTextElement41() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement40()
+	return p.cur.onQuotedTextElement41()
 }
 
-func (c *current) onQuotedTextElement32() (interface{}, error) {
+func (c *current) onQuotedTextElement33() (interface{}, error) {
 
 	log.Debugf("new punctuation: '%v'", string(c.text))
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement32() (interface{}, error) {
+func (p *parser) callonQuotedTextElement33() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement32()
+	return p.cur.onQuotedTextElement33()
 }
 
-func (c *current) onQuotedTextElement48() (bool, error) {
+func (c *current) onQuotedTextElement49() (bool, error) {
 	return c.isSubstitutionEnabled(AttributeRefs), nil
 
 }
 
-func (p *parser) callonQuotedTextElement48() (bool, error) {
+func (p *parser) callonQuotedTextElement49() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement48()
+	return p.cur.onQuotedTextElement49()
 }
 
-func (c *current) onQuotedTextElement55() (interface{}, error) {
+func (c *current) onQuotedTextElement56() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement55() (interface{}, error) {
+func (p *parser) callonQuotedTextElement56() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement55()
+	return p.cur.onQuotedTextElement56()
 }
 
-func (c *current) onQuotedTextElement51(name interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement52(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -69649,242 +69687,242 @@ func (c *current) onQuotedTextElement51(name interface{}) (interface{}, error) {
 
 }
 
-func (p *parser) callonQuotedTextElement51() (interface{}, error) {
+func (p *parser) callonQuotedTextElement52() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement51(stack["name"])
+	return p.cur.onQuotedTextElement52(stack["name"])
 }
 
-func (c *current) onQuotedTextElement65() (interface{}, error) {
+func (c *current) onQuotedTextElement66() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement65() (interface{}, error) {
+func (p *parser) callonQuotedTextElement66() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement65()
+	return p.cur.onQuotedTextElement66()
 }
 
-func (c *current) onQuotedTextElement61(name interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement62(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonQuotedTextElement61() (interface{}, error) {
+func (p *parser) callonQuotedTextElement62() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement61(stack["name"])
+	return p.cur.onQuotedTextElement62(stack["name"])
 }
 
-func (c *current) onQuotedTextElement75() (interface{}, error) {
+func (c *current) onQuotedTextElement76() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement75() (interface{}, error) {
+func (p *parser) callonQuotedTextElement76() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement75()
+	return p.cur.onQuotedTextElement76()
 }
 
-func (c *current) onQuotedTextElement87() (interface{}, error) {
+func (c *current) onQuotedTextElement88() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement87() (interface{}, error) {
+func (p *parser) callonQuotedTextElement88() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement87()
+	return p.cur.onQuotedTextElement88()
 }
 
-func (c *current) onQuotedTextElement89() (interface{}, error) {
+func (c *current) onQuotedTextElement90() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonQuotedTextElement89() (interface{}, error) {
+func (p *parser) callonQuotedTextElement90() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement89()
+	return p.cur.onQuotedTextElement90()
 }
 
-func (c *current) onQuotedTextElement82(start interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement83(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonQuotedTextElement82() (interface{}, error) {
+func (p *parser) callonQuotedTextElement83() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement82(stack["start"])
+	return p.cur.onQuotedTextElement83(stack["start"])
 }
 
-func (c *current) onQuotedTextElement71(name, start interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement72(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
 }
 
-func (p *parser) callonQuotedTextElement71() (interface{}, error) {
+func (p *parser) callonQuotedTextElement72() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement71(stack["name"], stack["start"])
+	return p.cur.onQuotedTextElement72(stack["name"], stack["start"])
 }
 
-func (c *current) onQuotedTextElement97() (interface{}, error) {
+func (c *current) onQuotedTextElement98() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement97() (interface{}, error) {
+func (p *parser) callonQuotedTextElement98() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement97()
+	return p.cur.onQuotedTextElement98()
 }
 
-func (c *current) onQuotedTextElement109() (interface{}, error) {
+func (c *current) onQuotedTextElement110() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement109() (interface{}, error) {
+func (p *parser) callonQuotedTextElement110() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement109()
+	return p.cur.onQuotedTextElement110()
 }
 
-func (c *current) onQuotedTextElement111() (interface{}, error) {
+func (c *current) onQuotedTextElement112() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonQuotedTextElement111() (interface{}, error) {
+func (p *parser) callonQuotedTextElement112() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement111()
+	return p.cur.onQuotedTextElement112()
 }
 
-func (c *current) onQuotedTextElement104(start interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement105(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonQuotedTextElement104() (interface{}, error) {
+func (p *parser) callonQuotedTextElement105() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement104(stack["start"])
+	return p.cur.onQuotedTextElement105(stack["start"])
 }
 
-func (c *current) onQuotedTextElement93(name, start interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement94(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
 }
 
-func (p *parser) callonQuotedTextElement93() (interface{}, error) {
+func (p *parser) callonQuotedTextElement94() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement93(stack["name"], stack["start"])
+	return p.cur.onQuotedTextElement94(stack["name"], stack["start"])
 }
 
-func (c *current) onQuotedTextElement46(element interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement47(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonQuotedTextElement46() (interface{}, error) {
+func (p *parser) callonQuotedTextElement47() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement46(stack["element"])
+	return p.cur.onQuotedTextElement47(stack["element"])
 }
 
-func (c *current) onQuotedTextElement117() (interface{}, error) {
+func (c *current) onQuotedTextElement118() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonQuotedTextElement117() (interface{}, error) {
+func (p *parser) callonQuotedTextElement118() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement117()
+	return p.cur.onQuotedTextElement118()
 }
 
-func (c *current) onQuotedTextElement123() (interface{}, error) {
+func (c *current) onQuotedTextElement124() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonQuotedTextElement123() (interface{}, error) {
+func (p *parser) callonQuotedTextElement124() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement123()
+	return p.cur.onQuotedTextElement124()
 }
 
-func (c *current) onQuotedTextElement115() (interface{}, error) {
+func (c *current) onQuotedTextElement116() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonQuotedTextElement115() (interface{}, error) {
+func (p *parser) callonQuotedTextElement116() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement115()
+	return p.cur.onQuotedTextElement116()
 }
 
-func (c *current) onQuotedTextElement132() (bool, error) {
+func (c *current) onQuotedTextElement133() (bool, error) {
 	return c.isSubstitutionEnabled(SpecialCharacters), nil
 
 }
 
-func (p *parser) callonQuotedTextElement132() (bool, error) {
+func (p *parser) callonQuotedTextElement133() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement132()
+	return p.cur.onQuotedTextElement133()
 }
 
-func (c *current) onQuotedTextElement134() (interface{}, error) {
+func (c *current) onQuotedTextElement135() (interface{}, error) {
 	return types.NewSpecialCharacter(string(c.text))
 
 }
 
-func (p *parser) callonQuotedTextElement134() (interface{}, error) {
+func (p *parser) callonQuotedTextElement135() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement134()
+	return p.cur.onQuotedTextElement135()
 }
 
-func (c *current) onQuotedTextElement130(element interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement131(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonQuotedTextElement130() (interface{}, error) {
+func (p *parser) callonQuotedTextElement131() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement130(stack["element"])
+	return p.cur.onQuotedTextElement131(stack["element"])
 }
 
-func (c *current) onQuotedTextElement140() (interface{}, error) {
+func (c *current) onQuotedTextElement141() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonQuotedTextElement140() (interface{}, error) {
+func (p *parser) callonQuotedTextElement141() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement140()
+	return p.cur.onQuotedTextElement141()
 }
 
-func (c *current) onQuotedTextElement136(ref interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement137(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
 
-func (p *parser) callonQuotedTextElement136() (interface{}, error) {
+func (p *parser) callonQuotedTextElement137() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement136(stack["ref"])
+	return p.cur.onQuotedTextElement137(stack["ref"])
 }
 
-func (c *current) onQuotedTextElement144() (interface{}, error) {
+func (c *current) onQuotedTextElement145() (interface{}, error) {
 
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("matching anychar '%s' at position %v", string(c.text), c.pos.String())
@@ -69893,10 +69931,10 @@ func (c *current) onQuotedTextElement144() (interface{}, error) {
 
 }
 
-func (p *parser) callonQuotedTextElement144() (interface{}, error) {
+func (p *parser) callonQuotedTextElement145() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement144()
+	return p.cur.onQuotedTextElement145()
 }
 
 func (c *current) onDoubleQuoteBoldText1(elements interface{}) (interface{}, error) {
@@ -70979,6 +71017,17 @@ func (p *parser) callonSectionTitleLineElement22() (interface{}, error) {
 	return p.cur.onSectionTitleLineElement22()
 }
 
+func (c *current) onSectionTitleLineElement27() (bool, error) {
+	return c.isSubstitutionEnabled(Replacements), nil
+
+}
+
+func (p *parser) callonSectionTitleLineElement27() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSectionTitleLineElement27()
+}
+
 func (c *current) onSectionTitleLineElement25() (interface{}, error) {
 	//log.Debug("matched escaped apostrophe")
 	return types.NewStringElement(`'`) // retain the apostrophe, but discard the `\` escape char
@@ -70991,133 +71040,133 @@ func (p *parser) callonSectionTitleLineElement25() (interface{}, error) {
 	return p.cur.onSectionTitleLineElement25()
 }
 
-func (c *current) onSectionTitleLineElement32() (bool, error) {
+func (c *current) onSectionTitleLineElement33() (bool, error) {
 	return c.isSubstitutionEnabled(Replacements), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement32() (bool, error) {
+func (p *parser) callonSectionTitleLineElement33() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement32()
+	return p.cur.onSectionTitleLineElement33()
 }
 
-func (c *current) onSectionTitleLineElement33() (bool, error) {
+func (c *current) onSectionTitleLineElement34() (bool, error) {
 	//log.Debugf("TypographicQuote at pos %s", c.pos.String())
 	return c.isPrecededByAlphanum(), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement33() (bool, error) {
+func (p *parser) callonSectionTitleLineElement34() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement33()
+	return p.cur.onSectionTitleLineElement34()
 }
 
-func (c *current) onSectionTitleLineElement30() (interface{}, error) {
+func (c *current) onSectionTitleLineElement31() (interface{}, error) {
 	return types.NewSymbol("'")
 
 }
 
-func (p *parser) callonSectionTitleLineElement30() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement31() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement30()
+	return p.cur.onSectionTitleLineElement31()
 }
 
-func (c *current) onSectionTitleLineElement42() (bool, error) {
+func (c *current) onSectionTitleLineElement43() (bool, error) {
 
 	return c.allSubstitutionsDisabled(Macros, Quotes), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement42() (bool, error) {
+func (p *parser) callonSectionTitleLineElement43() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement42()
+	return p.cur.onSectionTitleLineElement43()
 }
 
-func (c *current) onSectionTitleLineElement46() (bool, error) {
+func (c *current) onSectionTitleLineElement47() (bool, error) {
 
 	return c.isSubstitutionDisabled(Quotes), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement46() (bool, error) {
+func (p *parser) callonSectionTitleLineElement47() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement46()
+	return p.cur.onSectionTitleLineElement47()
 }
 
-func (c *current) onSectionTitleLineElement38() (interface{}, error) {
+func (c *current) onSectionTitleLineElement39() (interface{}, error) {
 
 	log.Debugf("new punctuation: '%v'", string(c.text))
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement38() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement39() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement38()
+	return p.cur.onSectionTitleLineElement39()
 }
 
-func (c *current) onSectionTitleLineElement57() (bool, error) {
+func (c *current) onSectionTitleLineElement58() (bool, error) {
 	return c.isSubstitutionEnabled(SpecialCharacters), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement57() (bool, error) {
+func (p *parser) callonSectionTitleLineElement58() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement57()
+	return p.cur.onSectionTitleLineElement58()
 }
 
-func (c *current) onSectionTitleLineElement59() (interface{}, error) {
+func (c *current) onSectionTitleLineElement60() (interface{}, error) {
 	return types.NewSpecialCharacter(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleLineElement59() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement60() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement59()
+	return p.cur.onSectionTitleLineElement60()
 }
 
-func (c *current) onSectionTitleLineElement55(element interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement56(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement55() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement56() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement55(stack["element"])
+	return p.cur.onSectionTitleLineElement56(stack["element"])
 }
 
-func (c *current) onSectionTitleLineElement64() (bool, error) {
+func (c *current) onSectionTitleLineElement65() (bool, error) {
 	return c.isSubstitutionEnabled(AttributeRefs), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement64() (bool, error) {
+func (p *parser) callonSectionTitleLineElement65() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement64()
+	return p.cur.onSectionTitleLineElement65()
 }
 
-func (c *current) onSectionTitleLineElement71() (interface{}, error) {
+func (c *current) onSectionTitleLineElement72() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement71() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement72() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement71()
+	return p.cur.onSectionTitleLineElement72()
 }
 
-func (c *current) onSectionTitleLineElement67(name interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement68(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -71125,242 +71174,242 @@ func (c *current) onSectionTitleLineElement67(name interface{}) (interface{}, er
 
 }
 
-func (p *parser) callonSectionTitleLineElement67() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement68() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement67(stack["name"])
+	return p.cur.onSectionTitleLineElement68(stack["name"])
 }
 
-func (c *current) onSectionTitleLineElement81() (interface{}, error) {
+func (c *current) onSectionTitleLineElement82() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement81() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement82() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement81()
+	return p.cur.onSectionTitleLineElement82()
 }
 
-func (c *current) onSectionTitleLineElement77(name interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement78(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleLineElement77() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement78() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement77(stack["name"])
+	return p.cur.onSectionTitleLineElement78(stack["name"])
 }
 
-func (c *current) onSectionTitleLineElement91() (interface{}, error) {
+func (c *current) onSectionTitleLineElement92() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement91() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement92() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement91()
+	return p.cur.onSectionTitleLineElement92()
 }
 
-func (c *current) onSectionTitleLineElement103() (interface{}, error) {
+func (c *current) onSectionTitleLineElement104() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement103() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement104() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement103()
+	return p.cur.onSectionTitleLineElement104()
 }
 
-func (c *current) onSectionTitleLineElement105() (interface{}, error) {
+func (c *current) onSectionTitleLineElement106() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleLineElement105() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement106() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement105()
+	return p.cur.onSectionTitleLineElement106()
 }
 
-func (c *current) onSectionTitleLineElement98(start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement99(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement98() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement99() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement98(stack["start"])
+	return p.cur.onSectionTitleLineElement99(stack["start"])
 }
 
-func (c *current) onSectionTitleLineElement87(name, start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement88(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
 }
 
-func (p *parser) callonSectionTitleLineElement87() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement88() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement87(stack["name"], stack["start"])
+	return p.cur.onSectionTitleLineElement88(stack["name"], stack["start"])
 }
 
-func (c *current) onSectionTitleLineElement113() (interface{}, error) {
+func (c *current) onSectionTitleLineElement114() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement113() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement114() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement113()
+	return p.cur.onSectionTitleLineElement114()
 }
 
-func (c *current) onSectionTitleLineElement125() (interface{}, error) {
+func (c *current) onSectionTitleLineElement126() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement125() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement126() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement125()
+	return p.cur.onSectionTitleLineElement126()
 }
 
-func (c *current) onSectionTitleLineElement127() (interface{}, error) {
+func (c *current) onSectionTitleLineElement128() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleLineElement127() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement128() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement127()
+	return p.cur.onSectionTitleLineElement128()
 }
 
-func (c *current) onSectionTitleLineElement120(start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement121(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement120() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement121() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement120(stack["start"])
+	return p.cur.onSectionTitleLineElement121(stack["start"])
 }
 
-func (c *current) onSectionTitleLineElement109(name, start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement110(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
 }
 
-func (p *parser) callonSectionTitleLineElement109() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement110() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement109(stack["name"], stack["start"])
+	return p.cur.onSectionTitleLineElement110(stack["name"], stack["start"])
 }
 
-func (c *current) onSectionTitleLineElement62(element interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement63(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement62() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement63() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement62(stack["element"])
+	return p.cur.onSectionTitleLineElement63(stack["element"])
 }
 
-func (c *current) onSectionTitleLineElement135() (interface{}, error) {
+func (c *current) onSectionTitleLineElement136() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonSectionTitleLineElement135() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement136() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement135()
+	return p.cur.onSectionTitleLineElement136()
 }
 
-func (c *current) onSectionTitleLineElement131(ref interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement132(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
 
-func (p *parser) callonSectionTitleLineElement131() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement132() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement131(stack["ref"])
+	return p.cur.onSectionTitleLineElement132(stack["ref"])
 }
 
-func (c *current) onSectionTitleLineElement141() (bool, error) {
+func (c *current) onSectionTitleLineElement142() (bool, error) {
 	return c.isPrecededBySpace(), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement141() (bool, error) {
+func (p *parser) callonSectionTitleLineElement142() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement141()
+	return p.cur.onSectionTitleLineElement142()
 }
 
-func (c *current) onSectionTitleLineElement151() (interface{}, error) {
+func (c *current) onSectionTitleLineElement152() (interface{}, error) {
 	// spaces, commas and dots are allowed in this syntax
 	return types.NewStringElement(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleLineElement151() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement152() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement151()
+	return p.cur.onSectionTitleLineElement152()
 }
 
-func (c *current) onSectionTitleLineElement158() (interface{}, error) {
+func (c *current) onSectionTitleLineElement159() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonSectionTitleLineElement158() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement159() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement158()
+	return p.cur.onSectionTitleLineElement159()
 }
 
-func (c *current) onSectionTitleLineElement154(ref interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement155(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
 
-func (p *parser) callonSectionTitleLineElement154() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement155() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement154(stack["ref"])
+	return p.cur.onSectionTitleLineElement155(stack["ref"])
 }
 
-func (c *current) onSectionTitleLineElement164() (bool, error) {
+func (c *current) onSectionTitleLineElement165() (bool, error) {
 	return c.isSubstitutionEnabled(AttributeRefs), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement164() (bool, error) {
+func (p *parser) callonSectionTitleLineElement165() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement164()
+	return p.cur.onSectionTitleLineElement165()
 }
 
-func (c *current) onSectionTitleLineElement171() (interface{}, error) {
+func (c *current) onSectionTitleLineElement172() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement171() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement172() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement171()
+	return p.cur.onSectionTitleLineElement172()
 }
 
-func (c *current) onSectionTitleLineElement167(name interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement168(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -71368,292 +71417,292 @@ func (c *current) onSectionTitleLineElement167(name interface{}) (interface{}, e
 
 }
 
-func (p *parser) callonSectionTitleLineElement167() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement168() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement167(stack["name"])
+	return p.cur.onSectionTitleLineElement168(stack["name"])
 }
 
-func (c *current) onSectionTitleLineElement181() (interface{}, error) {
+func (c *current) onSectionTitleLineElement182() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement181() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement182() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement181()
+	return p.cur.onSectionTitleLineElement182()
 }
 
-func (c *current) onSectionTitleLineElement177(name interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement178(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleLineElement177() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement178() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement177(stack["name"])
+	return p.cur.onSectionTitleLineElement178(stack["name"])
 }
 
-func (c *current) onSectionTitleLineElement191() (interface{}, error) {
+func (c *current) onSectionTitleLineElement192() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement191() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement192() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement191()
+	return p.cur.onSectionTitleLineElement192()
 }
 
-func (c *current) onSectionTitleLineElement203() (interface{}, error) {
+func (c *current) onSectionTitleLineElement204() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement203() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement204() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement203()
+	return p.cur.onSectionTitleLineElement204()
 }
 
-func (c *current) onSectionTitleLineElement205() (interface{}, error) {
+func (c *current) onSectionTitleLineElement206() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleLineElement205() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement206() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement205()
+	return p.cur.onSectionTitleLineElement206()
 }
 
-func (c *current) onSectionTitleLineElement198(start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement199(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement198() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement199() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement198(stack["start"])
+	return p.cur.onSectionTitleLineElement199(stack["start"])
 }
 
-func (c *current) onSectionTitleLineElement187(name, start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement188(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
 }
 
-func (p *parser) callonSectionTitleLineElement187() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement188() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement187(stack["name"], stack["start"])
+	return p.cur.onSectionTitleLineElement188(stack["name"], stack["start"])
 }
 
-func (c *current) onSectionTitleLineElement213() (interface{}, error) {
+func (c *current) onSectionTitleLineElement214() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement213() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement214() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement213()
+	return p.cur.onSectionTitleLineElement214()
 }
 
-func (c *current) onSectionTitleLineElement225() (interface{}, error) {
+func (c *current) onSectionTitleLineElement226() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement225() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement226() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement225()
+	return p.cur.onSectionTitleLineElement226()
 }
 
-func (c *current) onSectionTitleLineElement227() (interface{}, error) {
+func (c *current) onSectionTitleLineElement228() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleLineElement227() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement228() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement227()
+	return p.cur.onSectionTitleLineElement228()
 }
 
-func (c *current) onSectionTitleLineElement220(start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement221(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement220() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement221() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement220(stack["start"])
+	return p.cur.onSectionTitleLineElement221(stack["start"])
 }
 
-func (c *current) onSectionTitleLineElement209(name, start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement210(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
 }
 
-func (p *parser) callonSectionTitleLineElement209() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement210() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement209(stack["name"], stack["start"])
+	return p.cur.onSectionTitleLineElement210(stack["name"], stack["start"])
 }
 
-func (c *current) onSectionTitleLineElement162(element interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement163(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement162() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement163() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement162(stack["element"])
+	return p.cur.onSectionTitleLineElement163(stack["element"])
 }
 
-func (c *current) onSectionTitleLineElement231() (interface{}, error) {
+func (c *current) onSectionTitleLineElement232() (interface{}, error) {
 
 	return types.NewStringElement(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleLineElement231() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement232() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement231()
+	return p.cur.onSectionTitleLineElement232()
 }
 
-func (c *current) onSectionTitleLineElement147(elements interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement148(elements interface{}) (interface{}, error) {
 	return types.Reduce(elements, strings.TrimSpace), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement147() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement148() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement147(stack["elements"])
+	return p.cur.onSectionTitleLineElement148(stack["elements"])
 }
 
-func (c *current) onSectionTitleLineElement143(id interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement144(id interface{}) (interface{}, error) {
 	return types.NewIDAttribute(id)
 
 }
 
-func (p *parser) callonSectionTitleLineElement143() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement144() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement143(stack["id"])
+	return p.cur.onSectionTitleLineElement144(stack["id"])
 }
 
-func (c *current) onSectionTitleLineElement235() (interface{}, error) {
+func (c *current) onSectionTitleLineElement236() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement235() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement236() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement235()
+	return p.cur.onSectionTitleLineElement236()
 }
 
-func (c *current) onSectionTitleLineElement239() (interface{}, error) {
+func (c *current) onSectionTitleLineElement240() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonSectionTitleLineElement239() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement240() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement239()
+	return p.cur.onSectionTitleLineElement240()
 }
 
-func (c *current) onSectionTitleLineElement139(id interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement140(id interface{}) (interface{}, error) {
 
 	return id, nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement139() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement140() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement139(stack["id"])
+	return p.cur.onSectionTitleLineElement140(stack["id"])
 }
 
-func (c *current) onSectionTitleLineElement250() (interface{}, error) {
+func (c *current) onSectionTitleLineElement251() (interface{}, error) {
 	// previously:(Alphas / (!Newline !Space !"[" !"]" !"<<" !">>" !","  .))+
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement250() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement251() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement250()
+	return p.cur.onSectionTitleLineElement251()
 }
 
-func (c *current) onSectionTitleLineElement246(id interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement247(id interface{}) (interface{}, error) {
 	return types.NewStringElement(strings.TrimPrefix(string(c.text), `\`))
 
 }
 
-func (p *parser) callonSectionTitleLineElement246() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement247() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement246(stack["id"])
+	return p.cur.onSectionTitleLineElement247(stack["id"])
 }
 
-func (c *current) onSectionTitleLineElement258() (interface{}, error) {
+func (c *current) onSectionTitleLineElement259() (interface{}, error) {
 	// previously:(Alphas / (!Newline !Space !"[" !"]" !"<<" !">>" !","  .))+
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement258() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement259() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement258()
+	return p.cur.onSectionTitleLineElement259()
 }
 
-func (c *current) onSectionTitleLineElement254(id interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement255(id interface{}) (interface{}, error) {
 	// no EOL here since there can be multiple InlineElementID on the same line
 	return types.NewInlineAnchor(id.(string))
 
 }
 
-func (p *parser) callonSectionTitleLineElement254() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement255() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement254(stack["id"])
+	return p.cur.onSectionTitleLineElement255(stack["id"])
 }
 
-func (c *current) onSectionTitleLineElement264() (interface{}, error) {
+func (c *current) onSectionTitleLineElement265() (interface{}, error) {
 	return c.currentLine(), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement264() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement265() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement264()
+	return p.cur.onSectionTitleLineElement265()
 }
 
-func (c *current) onSectionTitleLineElement266(start, element, end interface{}) (bool, error) {
+func (c *current) onSectionTitleLineElement267(start, element, end interface{}) (bool, error) {
 	return start == end, nil // titles are on a single line
 
 }
 
-func (p *parser) callonSectionTitleLineElement266() (bool, error) {
+func (p *parser) callonSectionTitleLineElement267() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement266(stack["start"], stack["element"], stack["end"])
+	return p.cur.onSectionTitleLineElement267(stack["start"], stack["element"], stack["end"])
 }
 
 func (c *current) onSectionTitleLineElement1(start, element, end interface{}) (interface{}, error) {
@@ -71713,6 +71762,17 @@ func (p *parser) callonNormalGroup25() (interface{}, error) {
 	return p.cur.onNormalGroup25()
 }
 
+func (c *current) onNormalGroup31() (bool, error) {
+	return c.isSubstitutionEnabled(Replacements), nil
+
+}
+
+func (p *parser) callonNormalGroup31() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onNormalGroup31()
+}
+
 func (c *current) onNormalGroup29() (interface{}, error) {
 	//log.Debug("matched escaped apostrophe")
 	return types.NewStringElement(`'`) // retain the apostrophe, but discard the `\` escape char
@@ -71725,111 +71785,111 @@ func (p *parser) callonNormalGroup29() (interface{}, error) {
 	return p.cur.onNormalGroup29()
 }
 
-func (c *current) onNormalGroup36() (bool, error) {
+func (c *current) onNormalGroup37() (bool, error) {
 	return c.isSubstitutionEnabled(Replacements), nil
 
 }
 
-func (p *parser) callonNormalGroup36() (bool, error) {
+func (p *parser) callonNormalGroup37() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup36()
+	return p.cur.onNormalGroup37()
 }
 
-func (c *current) onNormalGroup37() (bool, error) {
+func (c *current) onNormalGroup38() (bool, error) {
 	//log.Debugf("TypographicQuote at pos %s", c.pos.String())
 	return c.isPrecededByAlphanum(), nil
 
 }
 
-func (p *parser) callonNormalGroup37() (bool, error) {
+func (p *parser) callonNormalGroup38() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup37()
+	return p.cur.onNormalGroup38()
 }
 
-func (c *current) onNormalGroup34() (interface{}, error) {
+func (c *current) onNormalGroup35() (interface{}, error) {
 	return types.NewSymbol("'")
 
 }
 
-func (p *parser) callonNormalGroup34() (interface{}, error) {
+func (p *parser) callonNormalGroup35() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup34()
+	return p.cur.onNormalGroup35()
 }
 
-func (c *current) onNormalGroup45() (bool, error) {
+func (c *current) onNormalGroup46() (bool, error) {
 
 	return c.allSubstitutionsDisabled(Macros, Quotes), nil
 
 }
 
-func (p *parser) callonNormalGroup45() (bool, error) {
+func (p *parser) callonNormalGroup46() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup45()
+	return p.cur.onNormalGroup46()
 }
 
-func (c *current) onNormalGroup49() (bool, error) {
+func (c *current) onNormalGroup50() (bool, error) {
 
 	return c.isSubstitutionDisabled(Quotes), nil
 
 }
 
-func (p *parser) callonNormalGroup49() (bool, error) {
+func (p *parser) callonNormalGroup50() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup49()
+	return p.cur.onNormalGroup50()
 }
 
-func (c *current) onNormalGroup41() (interface{}, error) {
+func (c *current) onNormalGroup42() (interface{}, error) {
 
 	log.Debugf("new punctuation: '%v'", string(c.text))
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup41() (interface{}, error) {
+func (p *parser) callonNormalGroup42() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup41()
+	return p.cur.onNormalGroup42()
 }
 
-func (c *current) onNormalGroup55() (interface{}, error) {
+func (c *current) onNormalGroup56() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonNormalGroup55() (interface{}, error) {
+func (p *parser) callonNormalGroup56() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup55()
+	return p.cur.onNormalGroup56()
 }
 
-func (c *current) onNormalGroup62() (bool, error) {
+func (c *current) onNormalGroup63() (bool, error) {
 	return c.isSubstitutionEnabled(AttributeRefs), nil
 
 }
 
-func (p *parser) callonNormalGroup62() (bool, error) {
+func (p *parser) callonNormalGroup63() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup62()
+	return p.cur.onNormalGroup63()
 }
 
-func (c *current) onNormalGroup69() (interface{}, error) {
+func (c *current) onNormalGroup70() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup69() (interface{}, error) {
+func (p *parser) callonNormalGroup70() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup69()
+	return p.cur.onNormalGroup70()
 }
 
-func (c *current) onNormalGroup65(name interface{}) (interface{}, error) {
+func (c *current) onNormalGroup66(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -71837,269 +71897,269 @@ func (c *current) onNormalGroup65(name interface{}) (interface{}, error) {
 
 }
 
-func (p *parser) callonNormalGroup65() (interface{}, error) {
+func (p *parser) callonNormalGroup66() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup65(stack["name"])
+	return p.cur.onNormalGroup66(stack["name"])
 }
 
-func (c *current) onNormalGroup79() (interface{}, error) {
+func (c *current) onNormalGroup80() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup79() (interface{}, error) {
+func (p *parser) callonNormalGroup80() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup79()
+	return p.cur.onNormalGroup80()
 }
 
-func (c *current) onNormalGroup75(name interface{}) (interface{}, error) {
+func (c *current) onNormalGroup76(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonNormalGroup75() (interface{}, error) {
+func (p *parser) callonNormalGroup76() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup75(stack["name"])
+	return p.cur.onNormalGroup76(stack["name"])
 }
 
-func (c *current) onNormalGroup89() (interface{}, error) {
+func (c *current) onNormalGroup90() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup89() (interface{}, error) {
+func (p *parser) callonNormalGroup90() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup89()
+	return p.cur.onNormalGroup90()
 }
 
-func (c *current) onNormalGroup101() (interface{}, error) {
+func (c *current) onNormalGroup102() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup101() (interface{}, error) {
+func (p *parser) callonNormalGroup102() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup101()
+	return p.cur.onNormalGroup102()
 }
 
-func (c *current) onNormalGroup103() (interface{}, error) {
+func (c *current) onNormalGroup104() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonNormalGroup103() (interface{}, error) {
+func (p *parser) callonNormalGroup104() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup103()
+	return p.cur.onNormalGroup104()
 }
 
-func (c *current) onNormalGroup96(start interface{}) (interface{}, error) {
+func (c *current) onNormalGroup97(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonNormalGroup96() (interface{}, error) {
+func (p *parser) callonNormalGroup97() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup96(stack["start"])
+	return p.cur.onNormalGroup97(stack["start"])
 }
 
-func (c *current) onNormalGroup85(name, start interface{}) (interface{}, error) {
+func (c *current) onNormalGroup86(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
 }
 
-func (p *parser) callonNormalGroup85() (interface{}, error) {
+func (p *parser) callonNormalGroup86() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup85(stack["name"], stack["start"])
+	return p.cur.onNormalGroup86(stack["name"], stack["start"])
 }
 
-func (c *current) onNormalGroup111() (interface{}, error) {
+func (c *current) onNormalGroup112() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup111() (interface{}, error) {
+func (p *parser) callonNormalGroup112() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup111()
+	return p.cur.onNormalGroup112()
 }
 
-func (c *current) onNormalGroup123() (interface{}, error) {
+func (c *current) onNormalGroup124() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup123() (interface{}, error) {
+func (p *parser) callonNormalGroup124() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup123()
+	return p.cur.onNormalGroup124()
 }
 
-func (c *current) onNormalGroup125() (interface{}, error) {
+func (c *current) onNormalGroup126() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonNormalGroup125() (interface{}, error) {
+func (p *parser) callonNormalGroup126() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup125()
+	return p.cur.onNormalGroup126()
 }
 
-func (c *current) onNormalGroup118(start interface{}) (interface{}, error) {
+func (c *current) onNormalGroup119(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonNormalGroup118() (interface{}, error) {
+func (p *parser) callonNormalGroup119() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup118(stack["start"])
+	return p.cur.onNormalGroup119(stack["start"])
 }
 
-func (c *current) onNormalGroup107(name, start interface{}) (interface{}, error) {
+func (c *current) onNormalGroup108(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
 }
 
-func (p *parser) callonNormalGroup107() (interface{}, error) {
+func (p *parser) callonNormalGroup108() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup107(stack["name"], stack["start"])
+	return p.cur.onNormalGroup108(stack["name"], stack["start"])
 }
 
-func (c *current) onNormalGroup60(element interface{}) (interface{}, error) {
+func (c *current) onNormalGroup61(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonNormalGroup60() (interface{}, error) {
+func (p *parser) callonNormalGroup61() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup60(stack["element"])
+	return p.cur.onNormalGroup61(stack["element"])
 }
 
-func (c *current) onNormalGroup134() (bool, error) {
+func (c *current) onNormalGroup135() (bool, error) {
 	return c.isSubstitutionEnabled(SpecialCharacters), nil
 
 }
 
-func (p *parser) callonNormalGroup134() (bool, error) {
+func (p *parser) callonNormalGroup135() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup134()
+	return p.cur.onNormalGroup135()
 }
 
-func (c *current) onNormalGroup136() (interface{}, error) {
+func (c *current) onNormalGroup137() (interface{}, error) {
 	return types.NewSpecialCharacter(string(c.text))
 
 }
 
-func (p *parser) callonNormalGroup136() (interface{}, error) {
+func (p *parser) callonNormalGroup137() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup136()
+	return p.cur.onNormalGroup137()
 }
 
-func (c *current) onNormalGroup132(element interface{}) (interface{}, error) {
+func (c *current) onNormalGroup133(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonNormalGroup132() (interface{}, error) {
+func (p *parser) callonNormalGroup133() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup132(stack["element"])
+	return p.cur.onNormalGroup133(stack["element"])
 }
 
-func (c *current) onNormalGroup140() (bool, error) {
+func (c *current) onNormalGroup141() (bool, error) {
 
 	return c.isSubstitutionEnabled(PostReplacements), nil
 
 }
 
-func (p *parser) callonNormalGroup140() (bool, error) {
+func (p *parser) callonNormalGroup141() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup140()
+	return p.cur.onNormalGroup141()
 }
 
-func (c *current) onNormalGroup142() (bool, error) {
+func (c *current) onNormalGroup143() (bool, error) {
 
 	log.Debug("LineBreak")
 	return c.isPrecededBySpace(), nil
 
 }
 
-func (p *parser) callonNormalGroup142() (bool, error) {
+func (p *parser) callonNormalGroup143() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup142()
+	return p.cur.onNormalGroup143()
 }
 
-func (c *current) onNormalGroup144() (interface{}, error) {
+func (c *current) onNormalGroup145() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup144() (interface{}, error) {
+func (p *parser) callonNormalGroup145() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup144()
+	return p.cur.onNormalGroup145()
 }
 
-func (c *current) onNormalGroup148() (interface{}, error) {
+func (c *current) onNormalGroup149() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonNormalGroup148() (interface{}, error) {
+func (p *parser) callonNormalGroup149() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup148()
+	return p.cur.onNormalGroup149()
 }
 
-func (c *current) onNormalGroup138() (interface{}, error) {
+func (c *current) onNormalGroup139() (interface{}, error) {
 	return types.NewLineBreak()
 
 }
 
-func (p *parser) callonNormalGroup138() (interface{}, error) {
+func (p *parser) callonNormalGroup139() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup138()
+	return p.cur.onNormalGroup139()
 }
 
-func (c *current) onNormalGroup160() (interface{}, error) {
+func (c *current) onNormalGroup161() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonNormalGroup160() (interface{}, error) {
+func (p *parser) callonNormalGroup161() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup160()
+	return p.cur.onNormalGroup161()
 }
 
-func (c *current) onNormalGroup156(ref interface{}) (interface{}, error) {
+func (c *current) onNormalGroup157(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
 
-func (p *parser) callonNormalGroup156() (interface{}, error) {
+func (p *parser) callonNormalGroup157() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup156(stack["ref"])
+	return p.cur.onNormalGroup157(stack["ref"])
 }
 
-func (c *current) onNormalGroup164() (interface{}, error) {
+func (c *current) onNormalGroup165() (interface{}, error) {
 
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("matching anychar '%s' at position %v", string(c.text), c.pos.String())
@@ -72108,10 +72168,10 @@ func (c *current) onNormalGroup164() (interface{}, error) {
 
 }
 
-func (p *parser) callonNormalGroup164() (interface{}, error) {
+func (p *parser) callonNormalGroup165() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup164()
+	return p.cur.onNormalGroup165()
 }
 
 func (c *current) onNormalGroup5(element interface{}) (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index ba13947..827a61f 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -2488,6 +2488,9 @@ SinglelineCommentContent <- AnyChars
 // a letter (not a digit) but it can have a digit just before it.
 TypographicQuote <- 
     // escaped
+    &{
+        return c.isSubstitutionEnabled(Replacements), nil
+    }
     `\'` &[\pL] {
         //log.Debug("matched escaped apostrophe")
         return types.NewStringElement(`'`) // retain the apostrophe, but discard the `\` escape char
-- 
2.43.0


From 856de00e7eb0ac98ed8ef92697abe8f18bd2c370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:31 +0000
Subject: [PATCH 086/143] fix: special characters were not escaped, or
 conversion failed, with substitutions after 'attributes' or 'attributes'
 twice in 'subs'

---
 .../document_processing_apply_substitutions.go      |  9 +++++++--
 pkg/parser/document_processing_refine_fragments.go  |  2 +-
 pkg/parser/document_substitutions.go                | 13 ++++++++++---
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 7dfee8c..6eb78bd 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -642,7 +642,7 @@ func valueForCounter(ctx *ParseContext, c *types.CounterSubstitution) (string, e
 // parseElementsWithSubstitutions parse the elements, using placeholders for existing "structured" elements (ie, not RawLine or StringElements)
 // Also, does not parse the content of the placeholders, but restores them at the end.
 func parseWithSubstitutions(content interface{}, subs *substitutions, opts ...Option) ([]interface{}, error) {
-	serialized, placeholders, err := serialize(content)
+	serialized, placeholders, err := serialize(content, subs)
 	if err != nil {
 		return nil, err
 	}
@@ -689,7 +689,7 @@ func parseWithSubstitutions(content interface{}, subs *substitutions, opts ...Op
 	return elements, nil
 }
 
-func serialize(content interface{}) ([]byte, *placeholders, error) {
+func serialize(content interface{}, subs *substitutions) ([]byte, *placeholders, error) {
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("serializing:\n%v", spew.Sdump(content))
 	}
@@ -708,6 +708,11 @@ func serialize(content interface{}) ([]byte, *placeholders, error) {
 			case *types.StringElement:
 				result.WriteString(element.Content)
 			case *types.SpecialCharacter:
+				if !subs.contains(SpecialCharacters) {
+					// was substituted before
+					result.WriteString(placeholders.add(element).String())
+					continue
+				}
 				result.WriteString(element.Name) // reserialize, so we can detect bare URLs (eg: `a link to <{base_url}>`)
 			default:
 				// replace with placeholder
diff --git a/pkg/parser/document_processing_refine_fragments.go b/pkg/parser/document_processing_refine_fragments.go
index cc63b87..77bcea2 100644
--- a/pkg/parser/document_processing_refine_fragments.go
+++ b/pkg/parser/document_processing_refine_fragments.go
@@ -142,7 +142,7 @@ func reparseDelimitedBlock(ctx *ParseContext, b *types.DelimitedBlock) error {
 }
 
 func reparseElements(elements []interface{}, opts ...Option) ([]interface{}, error) {
-	content, placeholders, err := serialize(elements)
+	content, placeholders, err := serialize(elements, normalSubstitutions())
 	if err != nil {
 		return nil, err
 	}
diff --git a/pkg/parser/document_substitutions.go b/pkg/parser/document_substitutions.go
index ffa874e..1cf7c6b 100644
--- a/pkg/parser/document_substitutions.go
+++ b/pkg/parser/document_substitutions.go
@@ -185,10 +185,17 @@ func (s *substitutions) split() (*substitutions, *substitutions) {
 	}
 	var phase2 *substitutions
 	for i, sub := range s.sequence {
-		if sub == AttributeRefs && i < len(s.sequence)-1 {
-			phase2 = &substitutions{
-				sequence: s.sequence[i+1:],
+		if sub == AttributeRefs {
+			for _, sub := range s.sequence[i+1:] {
+				if sub == AttributeRefs { // may be there many times
+					continue
+				}
+				if phase2 == nil {
+					phase2 = &substitutions{}
+				}
+				phase2.sequence = append(phase2.sequence, sub)
 			}
+			break
 		}
 	}
 	return phase1, phase2
-- 
2.43.0


From bb8f47417b3cb3cd73571c40651de8e9071e961f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:50 +0000
Subject: [PATCH 087/143] fix: only the first quoted text of 'pass:q[]' was
 substituted

---
 pkg/parser/parser.go  | 12010 ++++++++++++++++++++--------------------
 pkg/parser/parser.peg |    12 +-
 2 files changed, 6038 insertions(+), 5984 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 674bb9d..6fe62e6 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 360, col: 49, offset: 10940},
 													expr: &actionExpr{
-														pos: position{line: 2866, col: 10, offset: 90687},
+														pos: position{line: 2876, col: 10, offset: 90951},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2866, col: 10, offset: 90687},
+															pos:        position{line: 2876, col: 10, offset: 90951},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2888, col: 8, offset: 91085},
+													pos: position{line: 2898, col: 8, offset: 91349},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2875, col: 12, offset: 90858},
+															pos: position{line: 2885, col: 12, offset: 91122},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2875, col: 13, offset: 90859},
+																pos: position{line: 2885, col: 13, offset: 91123},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 13, offset: 90859},
+																		pos:        position{line: 2885, col: 13, offset: 91123},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 20, offset: 90866},
+																		pos:        position{line: 2885, col: 20, offset: 91130},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 29, offset: 90875},
+																		pos:        position{line: 2885, col: 29, offset: 91139},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2885, col: 8, offset: 91035},
+															pos: position{line: 2895, col: 8, offset: 91299},
 															expr: &anyMatcher{
-																line: 2885, col: 9, offset: 91036,
+																line: 2895, col: 9, offset: 91300,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 39, offset: 11061},
 													expr: &actionExpr{
-														pos: position{line: 2866, col: 10, offset: 90687},
+														pos: position{line: 2876, col: 10, offset: 90951},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2866, col: 10, offset: 90687},
+															pos:        position{line: 2876, col: 10, offset: 90951},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2888, col: 8, offset: 91085},
+													pos: position{line: 2898, col: 8, offset: 91349},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2875, col: 12, offset: 90858},
+															pos: position{line: 2885, col: 12, offset: 91122},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2875, col: 13, offset: 90859},
+																pos: position{line: 2885, col: 13, offset: 91123},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 13, offset: 90859},
+																		pos:        position{line: 2885, col: 13, offset: 91123},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 20, offset: 90866},
+																		pos:        position{line: 2885, col: 20, offset: 91130},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 29, offset: 90875},
+																		pos:        position{line: 2885, col: 29, offset: 91139},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2885, col: 8, offset: 91035},
+															pos: position{line: 2895, col: 8, offset: 91299},
 															expr: &anyMatcher{
-																line: 2885, col: 9, offset: 91036,
+																line: 2895, col: 9, offset: 91300,
 															},
 														},
 													},
@@ -321,10 +321,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 78, col: 41, offset: 2149},
 																						expr: &actionExpr{
-																							pos: position{line: 2866, col: 10, offset: 90687},
+																							pos: position{line: 2876, col: 10, offset: 90951},
 																							run: (*parser).callonDocumentRawLine66,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2866, col: 10, offset: 90687},
+																								pos:        position{line: 2876, col: 10, offset: 90951},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -333,9 +333,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2885, col: 8, offset: 91035},
+																						pos: position{line: 2895, col: 8, offset: 91299},
 																						expr: &anyMatcher{
-																							line: 2885, col: 9, offset: 91036,
+																							line: 2895, col: 9, offset: 91300,
 																						},
 																					},
 																				},
@@ -363,10 +363,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2866, col: 10, offset: 90687},
+														pos: position{line: 2876, col: 10, offset: 90951},
 														run: (*parser).callonDocumentRawLine73,
 														expr: &charClassMatcher{
-															pos:        position{line: 2866, col: 10, offset: 90687},
+															pos:        position{line: 2876, col: 10, offset: 90951},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -375,9 +375,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2885, col: 8, offset: 91035},
+													pos: position{line: 2895, col: 8, offset: 91299},
 													expr: &anyMatcher{
-														line: 2885, col: 9, offset: 91036,
+														line: 2895, col: 9, offset: 91300,
 													},
 												},
 											},
@@ -446,10 +446,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 78, col: 41, offset: 2149},
 																						expr: &actionExpr{
-																							pos: position{line: 2866, col: 10, offset: 90687},
+																							pos: position{line: 2876, col: 10, offset: 90951},
 																							run: (*parser).callonDocumentRawLine94,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2866, col: 10, offset: 90687},
+																								pos:        position{line: 2876, col: 10, offset: 90951},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -458,9 +458,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2885, col: 8, offset: 91035},
+																						pos: position{line: 2895, col: 8, offset: 91299},
 																						expr: &anyMatcher{
-																							line: 2885, col: 9, offset: 91036,
+																							line: 2895, col: 9, offset: 91300,
 																						},
 																					},
 																				},
@@ -488,10 +488,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2866, col: 10, offset: 90687},
+														pos: position{line: 2876, col: 10, offset: 90951},
 														run: (*parser).callonDocumentRawLine101,
 														expr: &charClassMatcher{
-															pos:        position{line: 2866, col: 10, offset: 90687},
+															pos:        position{line: 2876, col: 10, offset: 90951},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -500,9 +500,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2885, col: 8, offset: 91035},
+													pos: position{line: 2895, col: 8, offset: 91299},
 													expr: &anyMatcher{
-														line: 2885, col: 9, offset: 91036,
+														line: 2895, col: 9, offset: 91300,
 													},
 												},
 											},
@@ -972,24 +972,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2862, col: 10, offset: 90590},
+																pos: position{line: 2872, col: 10, offset: 90854},
 																run: (*parser).callonDocumentRawLine197,
 																expr: &seqExpr{
-																	pos: position{line: 2862, col: 11, offset: 90591},
+																	pos: position{line: 2872, col: 11, offset: 90855},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2862, col: 11, offset: 90591},
+																			pos: position{line: 2872, col: 11, offset: 90855},
 																			expr: &litMatcher{
-																				pos:        position{line: 2862, col: 11, offset: 90591},
+																				pos:        position{line: 2872, col: 11, offset: 90855},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2862, col: 16, offset: 90596},
+																			pos: position{line: 2872, col: 16, offset: 90860},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2862, col: 16, offset: 90596},
+																				pos:        position{line: 2872, col: 16, offset: 90860},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -997,15 +997,15 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2862, col: 23, offset: 90603},
+																			pos:        position{line: 2872, col: 23, offset: 90867},
 																			val:        ".",
 																			ignoreCase: false,
 																			want:       "\".\"",
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2862, col: 27, offset: 90607},
+																			pos: position{line: 2872, col: 27, offset: 90871},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2862, col: 27, offset: 90607},
+																				pos:        position{line: 2872, col: 27, offset: 90871},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1016,24 +1016,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2858, col: 12, offset: 90514},
+																pos: position{line: 2868, col: 12, offset: 90778},
 																run: (*parser).callonDocumentRawLine206,
 																expr: &seqExpr{
-																	pos: position{line: 2858, col: 13, offset: 90515},
+																	pos: position{line: 2868, col: 13, offset: 90779},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2858, col: 13, offset: 90515},
+																			pos: position{line: 2868, col: 13, offset: 90779},
 																			expr: &litMatcher{
-																				pos:        position{line: 2858, col: 13, offset: 90515},
+																				pos:        position{line: 2868, col: 13, offset: 90779},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2858, col: 18, offset: 90520},
+																			pos: position{line: 2868, col: 18, offset: 90784},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2858, col: 18, offset: 90520},
+																				pos:        position{line: 2868, col: 18, offset: 90784},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1049,10 +1049,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2280},
 													expr: &actionExpr{
-														pos: position{line: 2866, col: 10, offset: 90687},
+														pos: position{line: 2876, col: 10, offset: 90951},
 														run: (*parser).callonDocumentRawLine213,
 														expr: &charClassMatcher{
-															pos:        position{line: 2866, col: 10, offset: 90687},
+															pos:        position{line: 2876, col: 10, offset: 90951},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1132,10 +1132,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2326},
 													expr: &actionExpr{
-														pos: position{line: 2866, col: 10, offset: 90687},
+														pos: position{line: 2876, col: 10, offset: 90951},
 														run: (*parser).callonDocumentRawLine230,
 														expr: &charClassMatcher{
-															pos:        position{line: 2866, col: 10, offset: 90687},
+															pos:        position{line: 2876, col: 10, offset: 90951},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1595,24 +1595,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2862, col: 10, offset: 90590},
+																pos: position{line: 2872, col: 10, offset: 90854},
 																run: (*parser).callonDocumentRawLine321,
 																expr: &seqExpr{
-																	pos: position{line: 2862, col: 11, offset: 90591},
+																	pos: position{line: 2872, col: 11, offset: 90855},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2862, col: 11, offset: 90591},
+																			pos: position{line: 2872, col: 11, offset: 90855},
 																			expr: &litMatcher{
-																				pos:        position{line: 2862, col: 11, offset: 90591},
+																				pos:        position{line: 2872, col: 11, offset: 90855},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2862, col: 16, offset: 90596},
+																			pos: position{line: 2872, col: 16, offset: 90860},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2862, col: 16, offset: 90596},
+																				pos:        position{line: 2872, col: 16, offset: 90860},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1620,15 +1620,15 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2862, col: 23, offset: 90603},
+																			pos:        position{line: 2872, col: 23, offset: 90867},
 																			val:        ".",
 																			ignoreCase: false,
 																			want:       "\".\"",
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2862, col: 27, offset: 90607},
+																			pos: position{line: 2872, col: 27, offset: 90871},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2862, col: 27, offset: 90607},
+																				pos:        position{line: 2872, col: 27, offset: 90871},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1639,24 +1639,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2858, col: 12, offset: 90514},
+																pos: position{line: 2868, col: 12, offset: 90778},
 																run: (*parser).callonDocumentRawLine330,
 																expr: &seqExpr{
-																	pos: position{line: 2858, col: 13, offset: 90515},
+																	pos: position{line: 2868, col: 13, offset: 90779},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2858, col: 13, offset: 90515},
+																			pos: position{line: 2868, col: 13, offset: 90779},
 																			expr: &litMatcher{
-																				pos:        position{line: 2858, col: 13, offset: 90515},
+																				pos:        position{line: 2868, col: 13, offset: 90779},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2858, col: 18, offset: 90520},
+																			pos: position{line: 2868, col: 18, offset: 90784},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2858, col: 18, offset: 90520},
+																				pos:        position{line: 2868, col: 18, offset: 90784},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1678,10 +1678,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2378},
 													expr: &actionExpr{
-														pos: position{line: 2866, col: 10, offset: 90687},
+														pos: position{line: 2876, col: 10, offset: 90951},
 														run: (*parser).callonDocumentRawLine338,
 														expr: &charClassMatcher{
-															pos:        position{line: 2866, col: 10, offset: 90687},
+															pos:        position{line: 2876, col: 10, offset: 90951},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1690,9 +1690,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2885, col: 8, offset: 91035},
+													pos: position{line: 2895, col: 8, offset: 91299},
 													expr: &anyMatcher{
-														line: 2885, col: 9, offset: 91036,
+														line: 2895, col: 9, offset: 91300,
 													},
 												},
 											},
@@ -1764,10 +1764,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 78, col: 41, offset: 2149},
 																						expr: &actionExpr{
-																							pos: position{line: 2866, col: 10, offset: 90687},
+																							pos: position{line: 2876, col: 10, offset: 90951},
 																							run: (*parser).callonDocumentRawLine360,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2866, col: 10, offset: 90687},
+																								pos:        position{line: 2876, col: 10, offset: 90951},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -1776,9 +1776,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2885, col: 8, offset: 91035},
+																						pos: position{line: 2895, col: 8, offset: 91299},
 																						expr: &anyMatcher{
-																							line: 2885, col: 9, offset: 91036,
+																							line: 2895, col: 9, offset: 91300,
 																						},
 																					},
 																				},
@@ -1806,10 +1806,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3474},
 													expr: &actionExpr{
-														pos: position{line: 2866, col: 10, offset: 90687},
+														pos: position{line: 2876, col: 10, offset: 90951},
 														run: (*parser).callonDocumentRawLine367,
 														expr: &charClassMatcher{
-															pos:        position{line: 2866, col: 10, offset: 90687},
+															pos:        position{line: 2876, col: 10, offset: 90951},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1818,9 +1818,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2885, col: 8, offset: 91035},
+													pos: position{line: 2895, col: 8, offset: 91299},
 													expr: &anyMatcher{
-														line: 2885, col: 9, offset: 91036,
+														line: 2895, col: 9, offset: 91300,
 													},
 												},
 											},
@@ -1835,7 +1835,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 724, col: 5, offset: 23110},
 													expr: &charClassMatcher{
-														pos:        position{line: 2756, col: 13, offset: 87782},
+														pos:        position{line: 2766, col: 13, offset: 88046},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1885,10 +1885,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 742, col: 8, offset: 23754},
 																			expr: &actionExpr{
-																				pos: position{line: 2866, col: 10, offset: 90687},
+																				pos: position{line: 2876, col: 10, offset: 90951},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2866, col: 10, offset: 90687},
+																					pos:        position{line: 2876, col: 10, offset: 90951},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1897,28 +1897,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2888, col: 8, offset: 91085},
+																			pos: position{line: 2898, col: 8, offset: 91349},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2875, col: 12, offset: 90858},
+																					pos: position{line: 2885, col: 12, offset: 91122},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2875, col: 13, offset: 90859},
+																						pos: position{line: 2885, col: 13, offset: 91123},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 13, offset: 90859},
+																								pos:        position{line: 2885, col: 13, offset: 91123},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 20, offset: 90866},
+																								pos:        position{line: 2885, col: 20, offset: 91130},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 29, offset: 90875},
+																								pos:        position{line: 2885, col: 29, offset: 91139},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1927,9 +1927,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2885, col: 8, offset: 91035},
+																					pos: position{line: 2895, col: 8, offset: 91299},
 																					expr: &anyMatcher{
-																						line: 2885, col: 9, offset: 91036,
+																						line: 2895, col: 9, offset: 91300,
 																					},
 																				},
 																			},
@@ -1974,10 +1974,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 749, col: 8, offset: 24002},
 																			expr: &actionExpr{
-																				pos: position{line: 2866, col: 10, offset: 90687},
+																				pos: position{line: 2876, col: 10, offset: 90951},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2866, col: 10, offset: 90687},
+																					pos:        position{line: 2876, col: 10, offset: 90951},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1986,28 +1986,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2888, col: 8, offset: 91085},
+																			pos: position{line: 2898, col: 8, offset: 91349},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2875, col: 12, offset: 90858},
+																					pos: position{line: 2885, col: 12, offset: 91122},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2875, col: 13, offset: 90859},
+																						pos: position{line: 2885, col: 13, offset: 91123},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 13, offset: 90859},
+																								pos:        position{line: 2885, col: 13, offset: 91123},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 20, offset: 90866},
+																								pos:        position{line: 2885, col: 20, offset: 91130},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 29, offset: 90875},
+																								pos:        position{line: 2885, col: 29, offset: 91139},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2016,9 +2016,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2885, col: 8, offset: 91035},
+																					pos: position{line: 2895, col: 8, offset: 91299},
 																					expr: &anyMatcher{
-																						line: 2885, col: 9, offset: 91036,
+																						line: 2895, col: 9, offset: 91300,
 																					},
 																				},
 																			},
@@ -2059,10 +2059,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 760, col: 52, offset: 24414},
 																			expr: &actionExpr{
-																				pos: position{line: 2866, col: 10, offset: 90687},
+																				pos: position{line: 2876, col: 10, offset: 90951},
 																				run: (*parser).callonDocumentRawLine423,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2866, col: 10, offset: 90687},
+																					pos:        position{line: 2876, col: 10, offset: 90951},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2071,28 +2071,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2888, col: 8, offset: 91085},
+																			pos: position{line: 2898, col: 8, offset: 91349},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2875, col: 12, offset: 90858},
+																					pos: position{line: 2885, col: 12, offset: 91122},
 																					run: (*parser).callonDocumentRawLine426,
 																					expr: &choiceExpr{
-																						pos: position{line: 2875, col: 13, offset: 90859},
+																						pos: position{line: 2885, col: 13, offset: 91123},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 13, offset: 90859},
+																								pos:        position{line: 2885, col: 13, offset: 91123},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 20, offset: 90866},
+																								pos:        position{line: 2885, col: 20, offset: 91130},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 29, offset: 90875},
+																								pos:        position{line: 2885, col: 29, offset: 91139},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2101,9 +2101,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2885, col: 8, offset: 91035},
+																					pos: position{line: 2895, col: 8, offset: 91299},
 																					expr: &anyMatcher{
-																						line: 2885, col: 9, offset: 91036,
+																						line: 2895, col: 9, offset: 91300,
 																					},
 																				},
 																			},
@@ -2148,10 +2148,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 756, col: 8, offset: 24248},
 																			expr: &actionExpr{
-																				pos: position{line: 2866, col: 10, offset: 90687},
+																				pos: position{line: 2876, col: 10, offset: 90951},
 																				run: (*parser).callonDocumentRawLine442,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2866, col: 10, offset: 90687},
+																					pos:        position{line: 2876, col: 10, offset: 90951},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2160,28 +2160,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2888, col: 8, offset: 91085},
+																			pos: position{line: 2898, col: 8, offset: 91349},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2875, col: 12, offset: 90858},
+																					pos: position{line: 2885, col: 12, offset: 91122},
 																					run: (*parser).callonDocumentRawLine445,
 																					expr: &choiceExpr{
-																						pos: position{line: 2875, col: 13, offset: 90859},
+																						pos: position{line: 2885, col: 13, offset: 91123},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 13, offset: 90859},
+																								pos:        position{line: 2885, col: 13, offset: 91123},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 20, offset: 90866},
+																								pos:        position{line: 2885, col: 20, offset: 91130},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 29, offset: 90875},
+																								pos:        position{line: 2885, col: 29, offset: 91139},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2190,9 +2190,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2885, col: 8, offset: 91035},
+																					pos: position{line: 2895, col: 8, offset: 91299},
 																					expr: &anyMatcher{
-																						line: 2885, col: 9, offset: 91036,
+																						line: 2895, col: 9, offset: 91300,
 																					},
 																				},
 																			},
@@ -2237,10 +2237,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 771, col: 8, offset: 24791},
 																			expr: &actionExpr{
-																				pos: position{line: 2866, col: 10, offset: 90687},
+																				pos: position{line: 2876, col: 10, offset: 90951},
 																				run: (*parser).callonDocumentRawLine461,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2866, col: 10, offset: 90687},
+																					pos:        position{line: 2876, col: 10, offset: 90951},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2249,28 +2249,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2888, col: 8, offset: 91085},
+																			pos: position{line: 2898, col: 8, offset: 91349},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2875, col: 12, offset: 90858},
+																					pos: position{line: 2885, col: 12, offset: 91122},
 																					run: (*parser).callonDocumentRawLine464,
 																					expr: &choiceExpr{
-																						pos: position{line: 2875, col: 13, offset: 90859},
+																						pos: position{line: 2885, col: 13, offset: 91123},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 13, offset: 90859},
+																								pos:        position{line: 2885, col: 13, offset: 91123},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 20, offset: 90866},
+																								pos:        position{line: 2885, col: 20, offset: 91130},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 29, offset: 90875},
+																								pos:        position{line: 2885, col: 29, offset: 91139},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2279,9 +2279,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2885, col: 8, offset: 91035},
+																					pos: position{line: 2895, col: 8, offset: 91299},
 																					expr: &anyMatcher{
-																						line: 2885, col: 9, offset: 91036,
+																						line: 2895, col: 9, offset: 91300,
 																					},
 																				},
 																			},
@@ -2326,10 +2326,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 785, col: 8, offset: 25267},
 																			expr: &actionExpr{
-																				pos: position{line: 2866, col: 10, offset: 90687},
+																				pos: position{line: 2876, col: 10, offset: 90951},
 																				run: (*parser).callonDocumentRawLine480,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2866, col: 10, offset: 90687},
+																					pos:        position{line: 2876, col: 10, offset: 90951},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2338,28 +2338,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2888, col: 8, offset: 91085},
+																			pos: position{line: 2898, col: 8, offset: 91349},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2875, col: 12, offset: 90858},
+																					pos: position{line: 2885, col: 12, offset: 91122},
 																					run: (*parser).callonDocumentRawLine483,
 																					expr: &choiceExpr{
-																						pos: position{line: 2875, col: 13, offset: 90859},
+																						pos: position{line: 2885, col: 13, offset: 91123},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 13, offset: 90859},
+																								pos:        position{line: 2885, col: 13, offset: 91123},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 20, offset: 90866},
+																								pos:        position{line: 2885, col: 20, offset: 91130},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 29, offset: 90875},
+																								pos:        position{line: 2885, col: 29, offset: 91139},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2368,9 +2368,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2885, col: 8, offset: 91035},
+																					pos: position{line: 2895, col: 8, offset: 91299},
 																					expr: &anyMatcher{
-																						line: 2885, col: 9, offset: 91036,
+																						line: 2895, col: 9, offset: 91300,
 																					},
 																				},
 																			},
@@ -2415,10 +2415,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 792, col: 8, offset: 25519},
 																			expr: &actionExpr{
-																				pos: position{line: 2866, col: 10, offset: 90687},
+																				pos: position{line: 2876, col: 10, offset: 90951},
 																				run: (*parser).callonDocumentRawLine499,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2866, col: 10, offset: 90687},
+																					pos:        position{line: 2876, col: 10, offset: 90951},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2427,28 +2427,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2888, col: 8, offset: 91085},
+																			pos: position{line: 2898, col: 8, offset: 91349},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2875, col: 12, offset: 90858},
+																					pos: position{line: 2885, col: 12, offset: 91122},
 																					run: (*parser).callonDocumentRawLine502,
 																					expr: &choiceExpr{
-																						pos: position{line: 2875, col: 13, offset: 90859},
+																						pos: position{line: 2885, col: 13, offset: 91123},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 13, offset: 90859},
+																								pos:        position{line: 2885, col: 13, offset: 91123},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 20, offset: 90866},
+																								pos:        position{line: 2885, col: 20, offset: 91130},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 29, offset: 90875},
+																								pos:        position{line: 2885, col: 29, offset: 91139},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2457,9 +2457,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2885, col: 8, offset: 91035},
+																					pos: position{line: 2895, col: 8, offset: 91299},
 																					expr: &anyMatcher{
-																						line: 2885, col: 9, offset: 91036,
+																						line: 2895, col: 9, offset: 91300,
 																					},
 																				},
 																			},
@@ -2504,10 +2504,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 799, col: 8, offset: 25769},
 																			expr: &actionExpr{
-																				pos: position{line: 2866, col: 10, offset: 90687},
+																				pos: position{line: 2876, col: 10, offset: 90951},
 																				run: (*parser).callonDocumentRawLine518,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2866, col: 10, offset: 90687},
+																					pos:        position{line: 2876, col: 10, offset: 90951},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2516,28 +2516,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2888, col: 8, offset: 91085},
+																			pos: position{line: 2898, col: 8, offset: 91349},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2875, col: 12, offset: 90858},
+																					pos: position{line: 2885, col: 12, offset: 91122},
 																					run: (*parser).callonDocumentRawLine521,
 																					expr: &choiceExpr{
-																						pos: position{line: 2875, col: 13, offset: 90859},
+																						pos: position{line: 2885, col: 13, offset: 91123},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 13, offset: 90859},
+																								pos:        position{line: 2885, col: 13, offset: 91123},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 20, offset: 90866},
+																								pos:        position{line: 2885, col: 20, offset: 91130},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 29, offset: 90875},
+																								pos:        position{line: 2885, col: 29, offset: 91139},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2546,9 +2546,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2885, col: 8, offset: 91035},
+																					pos: position{line: 2895, col: 8, offset: 91299},
 																					expr: &anyMatcher{
-																						line: 2885, col: 9, offset: 91036,
+																						line: 2895, col: 9, offset: 91300,
 																					},
 																				},
 																			},
@@ -2593,10 +2593,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 806, col: 8, offset: 26015},
 																			expr: &actionExpr{
-																				pos: position{line: 2866, col: 10, offset: 90687},
+																				pos: position{line: 2876, col: 10, offset: 90951},
 																				run: (*parser).callonDocumentRawLine537,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2866, col: 10, offset: 90687},
+																					pos:        position{line: 2876, col: 10, offset: 90951},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2605,28 +2605,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2888, col: 8, offset: 91085},
+																			pos: position{line: 2898, col: 8, offset: 91349},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2875, col: 12, offset: 90858},
+																					pos: position{line: 2885, col: 12, offset: 91122},
 																					run: (*parser).callonDocumentRawLine540,
 																					expr: &choiceExpr{
-																						pos: position{line: 2875, col: 13, offset: 90859},
+																						pos: position{line: 2885, col: 13, offset: 91123},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 13, offset: 90859},
+																								pos:        position{line: 2885, col: 13, offset: 91123},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 20, offset: 90866},
+																								pos:        position{line: 2885, col: 20, offset: 91130},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 29, offset: 90875},
+																								pos:        position{line: 2885, col: 29, offset: 91139},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2635,9 +2635,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2885, col: 8, offset: 91035},
+																					pos: position{line: 2895, col: 8, offset: 91299},
 																					expr: &anyMatcher{
-																						line: 2885, col: 9, offset: 91036,
+																						line: 2895, col: 9, offset: 91300,
 																					},
 																				},
 																			},
@@ -2687,12 +2687,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine555,
 												},
 												&actionExpr{
-													pos: position{line: 2870, col: 11, offset: 90748},
+													pos: position{line: 2880, col: 11, offset: 91012},
 													run: (*parser).callonDocumentRawLine556,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2870, col: 11, offset: 90748},
+														pos: position{line: 2880, col: 11, offset: 91012},
 														expr: &charClassMatcher{
-															pos:        position{line: 2870, col: 11, offset: 90748},
+															pos:        position{line: 2880, col: 11, offset: 91012},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2701,12 +2701,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2816, col: 14, offset: 89280},
+													pos: position{line: 2826, col: 14, offset: 89544},
 													run: (*parser).callonDocumentRawLine559,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2816, col: 14, offset: 89280},
+														pos: position{line: 2826, col: 14, offset: 89544},
 														expr: &charClassMatcher{
-															pos:        position{line: 2816, col: 14, offset: 89280},
+															pos:        position{line: 2826, col: 14, offset: 89544},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2715,9 +2715,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2885, col: 8, offset: 91035},
+													pos: position{line: 2895, col: 8, offset: 91299},
 													expr: &anyMatcher{
-														line: 2885, col: 9, offset: 91036,
+														line: 2895, col: 9, offset: 91300,
 													},
 												},
 											},
@@ -2727,9 +2727,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2885, col: 8, offset: 91035},
+							pos: position{line: 2895, col: 8, offset: 91299},
 							expr: &anyMatcher{
-								line: 2885, col: 9, offset: 91036,
+								line: 2895, col: 9, offset: 91300,
 							},
 						},
 					},
@@ -2764,41 +2764,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2820, col: 17, offset: 89350},
+												pos: position{line: 2830, col: 17, offset: 89614},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2820, col: 17, offset: 89350},
+													pos:   position{line: 2830, col: 17, offset: 89614},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2837, col: 5, offset: 89804},
+														pos: position{line: 2847, col: 5, offset: 90068},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2837, col: 5, offset: 89804},
+															pos:   position{line: 2847, col: 5, offset: 90068},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2837, col: 14, offset: 89813},
+																pos: position{line: 2847, col: 14, offset: 90077},
 																expr: &choiceExpr{
-																	pos: position{line: 2838, col: 9, offset: 89823},
+																	pos: position{line: 2848, col: 9, offset: 90087},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2838, col: 9, offset: 89823},
+																			pos: position{line: 2848, col: 9, offset: 90087},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2838, col: 9, offset: 89823},
+																				pos: position{line: 2848, col: 9, offset: 90087},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2838, col: 9, offset: 89823},
+																						pos: position{line: 2848, col: 9, offset: 90087},
 																						expr: &litMatcher{
-																							pos:        position{line: 2838, col: 10, offset: 89824},
+																							pos:        position{line: 2848, col: 10, offset: 90088},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2839, col: 9, offset: 89852},
+																						pos: position{line: 2849, col: 9, offset: 90116},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2839, col: 10, offset: 89853},
+																							pos:        position{line: 2849, col: 10, offset: 90117},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2809,27 +2809,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2842, col: 11, offset: 90065},
+																			pos: position{line: 2852, col: 11, offset: 90329},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2842, col: 11, offset: 90065},
+																					pos:        position{line: 2852, col: 11, offset: 90329},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2842, col: 19, offset: 90073},
+																					pos: position{line: 2852, col: 19, offset: 90337},
 																					expr: &seqExpr{
-																						pos: position{line: 2842, col: 21, offset: 90075},
+																						pos: position{line: 2852, col: 21, offset: 90339},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2842, col: 21, offset: 90075},
+																								pos: position{line: 2852, col: 21, offset: 90339},
 																								expr: &actionExpr{
-																									pos: position{line: 2866, col: 10, offset: 90687},
+																									pos: position{line: 2876, col: 10, offset: 90951},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2866, col: 10, offset: 90687},
+																										pos:        position{line: 2876, col: 10, offset: 90951},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2838,11 +2838,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2842, col: 28, offset: 90082},
+																								pos: position{line: 2852, col: 28, offset: 90346},
 																								expr: &notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91035},
+																									pos: position{line: 2895, col: 8, offset: 91299},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91036,
+																										line: 2895, col: 9, offset: 91300,
 																									},
 																								},
 																							},
@@ -3237,10 +3237,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2845, col: 11, offset: 90202},
+																			pos: position{line: 2855, col: 11, offset: 90466},
 																			run: (*parser).callonFileInclusion107,
 																			expr: &litMatcher{
-																				pos:        position{line: 2845, col: 11, offset: 90202},
+																				pos:        position{line: 2855, col: 11, offset: 90466},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3269,10 +3269,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2866, col: 10, offset: 90687},
+								pos: position{line: 2876, col: 10, offset: 90951},
 								run: (*parser).callonFileInclusion112,
 								expr: &charClassMatcher{
-									pos:        position{line: 2866, col: 10, offset: 90687},
+									pos:        position{line: 2876, col: 10, offset: 90951},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3281,28 +3281,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2888, col: 8, offset: 91085},
+							pos: position{line: 2898, col: 8, offset: 91349},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2875, col: 12, offset: 90858},
+									pos: position{line: 2885, col: 12, offset: 91122},
 									run: (*parser).callonFileInclusion115,
 									expr: &choiceExpr{
-										pos: position{line: 2875, col: 13, offset: 90859},
+										pos: position{line: 2885, col: 13, offset: 91123},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2875, col: 13, offset: 90859},
+												pos:        position{line: 2885, col: 13, offset: 91123},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2875, col: 20, offset: 90866},
+												pos:        position{line: 2885, col: 20, offset: 91130},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2875, col: 29, offset: 90875},
+												pos:        position{line: 2885, col: 29, offset: 91139},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3311,9 +3311,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2885, col: 8, offset: 91035},
+									pos: position{line: 2895, col: 8, offset: 91299},
 									expr: &anyMatcher{
-										line: 2885, col: 9, offset: 91036,
+										line: 2895, col: 9, offset: 91300,
 									},
 								},
 							},
@@ -3359,24 +3359,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2858, col: 12, offset: 90514},
+																				pos: position{line: 2868, col: 12, offset: 90778},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2858, col: 13, offset: 90515},
+																					pos: position{line: 2868, col: 13, offset: 90779},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2858, col: 13, offset: 90515},
+																							pos: position{line: 2868, col: 13, offset: 90779},
 																							expr: &litMatcher{
-																								pos:        position{line: 2858, col: 13, offset: 90515},
+																								pos:        position{line: 2868, col: 13, offset: 90779},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2858, col: 18, offset: 90520},
+																							pos: position{line: 2868, col: 18, offset: 90784},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2858, col: 18, offset: 90520},
+																								pos:        position{line: 2868, col: 18, offset: 90784},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3397,24 +3397,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2858, col: 12, offset: 90514},
+																				pos: position{line: 2868, col: 12, offset: 90778},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2858, col: 13, offset: 90515},
+																					pos: position{line: 2868, col: 13, offset: 90779},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2858, col: 13, offset: 90515},
+																							pos: position{line: 2868, col: 13, offset: 90779},
 																							expr: &litMatcher{
-																								pos:        position{line: 2858, col: 13, offset: 90515},
+																								pos:        position{line: 2868, col: 13, offset: 90779},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2858, col: 18, offset: 90520},
+																							pos: position{line: 2868, col: 18, offset: 90784},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2858, col: 18, offset: 90520},
+																								pos:        position{line: 2868, col: 18, offset: 90784},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3435,24 +3435,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2858, col: 12, offset: 90514},
+																		pos: position{line: 2868, col: 12, offset: 90778},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2858, col: 13, offset: 90515},
+																			pos: position{line: 2868, col: 13, offset: 90779},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2858, col: 13, offset: 90515},
+																					pos: position{line: 2868, col: 13, offset: 90779},
 																					expr: &litMatcher{
-																						pos:        position{line: 2858, col: 13, offset: 90515},
+																						pos:        position{line: 2868, col: 13, offset: 90779},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2858, col: 18, offset: 90520},
+																					pos: position{line: 2868, col: 18, offset: 90784},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2858, col: 18, offset: 90520},
+																						pos:        position{line: 2868, col: 18, offset: 90784},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3501,24 +3501,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2858, col: 12, offset: 90514},
+																									pos: position{line: 2868, col: 12, offset: 90778},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2858, col: 13, offset: 90515},
+																										pos: position{line: 2868, col: 13, offset: 90779},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2858, col: 13, offset: 90515},
+																												pos: position{line: 2868, col: 13, offset: 90779},
 																												expr: &litMatcher{
-																													pos:        position{line: 2858, col: 13, offset: 90515},
+																													pos:        position{line: 2868, col: 13, offset: 90779},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2858, col: 18, offset: 90520},
+																												pos: position{line: 2868, col: 18, offset: 90784},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2858, col: 18, offset: 90520},
+																													pos:        position{line: 2868, col: 18, offset: 90784},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3539,24 +3539,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2858, col: 12, offset: 90514},
+																									pos: position{line: 2868, col: 12, offset: 90778},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2858, col: 13, offset: 90515},
+																										pos: position{line: 2868, col: 13, offset: 90779},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2858, col: 13, offset: 90515},
+																												pos: position{line: 2868, col: 13, offset: 90779},
 																												expr: &litMatcher{
-																													pos:        position{line: 2858, col: 13, offset: 90515},
+																													pos:        position{line: 2868, col: 13, offset: 90779},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2858, col: 18, offset: 90520},
+																												pos: position{line: 2868, col: 18, offset: 90784},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2858, col: 18, offset: 90520},
+																													pos:        position{line: 2868, col: 18, offset: 90784},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3577,24 +3577,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2858, col: 12, offset: 90514},
+																							pos: position{line: 2868, col: 12, offset: 90778},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2858, col: 13, offset: 90515},
+																								pos: position{line: 2868, col: 13, offset: 90779},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2858, col: 13, offset: 90515},
+																										pos: position{line: 2868, col: 13, offset: 90779},
 																										expr: &litMatcher{
-																											pos:        position{line: 2858, col: 13, offset: 90515},
+																											pos:        position{line: 2868, col: 13, offset: 90779},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2858, col: 18, offset: 90520},
+																										pos: position{line: 2868, col: 18, offset: 90784},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2858, col: 18, offset: 90520},
+																											pos:        position{line: 2868, col: 18, offset: 90784},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3627,24 +3627,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2858, col: 12, offset: 90514},
+														pos: position{line: 2868, col: 12, offset: 90778},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2858, col: 13, offset: 90515},
+															pos: position{line: 2868, col: 13, offset: 90779},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2858, col: 13, offset: 90515},
+																	pos: position{line: 2868, col: 13, offset: 90779},
 																	expr: &litMatcher{
-																		pos:        position{line: 2858, col: 13, offset: 90515},
+																		pos:        position{line: 2868, col: 13, offset: 90779},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2858, col: 18, offset: 90520},
+																	pos: position{line: 2868, col: 18, offset: 90784},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2858, col: 18, offset: 90520},
+																		pos:        position{line: 2868, col: 18, offset: 90784},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3665,24 +3665,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2858, col: 12, offset: 90514},
+														pos: position{line: 2868, col: 12, offset: 90778},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2858, col: 13, offset: 90515},
+															pos: position{line: 2868, col: 13, offset: 90779},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2858, col: 13, offset: 90515},
+																	pos: position{line: 2868, col: 13, offset: 90779},
 																	expr: &litMatcher{
-																		pos:        position{line: 2858, col: 13, offset: 90515},
+																		pos:        position{line: 2868, col: 13, offset: 90779},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2858, col: 18, offset: 90520},
+																	pos: position{line: 2868, col: 18, offset: 90784},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2858, col: 18, offset: 90520},
+																		pos:        position{line: 2868, col: 18, offset: 90784},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3703,24 +3703,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2858, col: 12, offset: 90514},
+												pos: position{line: 2868, col: 12, offset: 90778},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2858, col: 13, offset: 90515},
+													pos: position{line: 2868, col: 13, offset: 90779},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2858, col: 13, offset: 90515},
+															pos: position{line: 2868, col: 13, offset: 90779},
 															expr: &litMatcher{
-																pos:        position{line: 2858, col: 13, offset: 90515},
+																pos:        position{line: 2868, col: 13, offset: 90779},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2858, col: 18, offset: 90520},
+															pos: position{line: 2868, col: 18, offset: 90784},
 															expr: &charClassMatcher{
-																pos:        position{line: 2858, col: 18, offset: 90520},
+																pos:        position{line: 2868, col: 18, offset: 90784},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3736,9 +3736,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2885, col: 8, offset: 91035},
+							pos: position{line: 2895, col: 8, offset: 91299},
 							expr: &anyMatcher{
-								line: 2885, col: 9, offset: 91036,
+								line: 2895, col: 9, offset: 91300,
 							},
 						},
 					},
@@ -4063,9 +4063,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2885, col: 8, offset: 91035},
+							pos: position{line: 2895, col: 8, offset: 91299},
 							expr: &anyMatcher{
-								line: 2885, col: 9, offset: 91036,
+								line: 2895, col: 9, offset: 91300,
 							},
 						},
 					},
@@ -4189,28 +4189,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2888, col: 8, offset: 91085},
+							pos: position{line: 2898, col: 8, offset: 91349},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2875, col: 12, offset: 90858},
+									pos: position{line: 2885, col: 12, offset: 91122},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2875, col: 13, offset: 90859},
+										pos: position{line: 2885, col: 13, offset: 91123},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2875, col: 13, offset: 90859},
+												pos:        position{line: 2885, col: 13, offset: 91123},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2875, col: 20, offset: 90866},
+												pos:        position{line: 2885, col: 20, offset: 91130},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2875, col: 29, offset: 90875},
+												pos:        position{line: 2885, col: 29, offset: 91139},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4219,9 +4219,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2885, col: 8, offset: 91035},
+									pos: position{line: 2895, col: 8, offset: 91299},
 									expr: &anyMatcher{
-										line: 2885, col: 9, offset: 91036,
+										line: 2895, col: 9, offset: 91300,
 									},
 								},
 							},
@@ -4240,9 +4240,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2883, col: 11, offset: 91021},
+							pos: position{line: 2893, col: 11, offset: 91285},
 							expr: &anyMatcher{
-								line: 2883, col: 13, offset: 91023,
+								line: 2893, col: 13, offset: 91287,
 							},
 						},
 						&labeledExpr{
@@ -4337,10 +4337,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 360, col: 49, offset: 10940},
 														expr: &actionExpr{
-															pos: position{line: 2866, col: 10, offset: 90687},
+															pos: position{line: 2876, col: 10, offset: 90951},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2866, col: 10, offset: 90687},
+																pos:        position{line: 2876, col: 10, offset: 90951},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4349,28 +4349,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2888, col: 8, offset: 91085},
+														pos: position{line: 2898, col: 8, offset: 91349},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2875, col: 12, offset: 90858},
+																pos: position{line: 2885, col: 12, offset: 91122},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2875, col: 13, offset: 90859},
+																	pos: position{line: 2885, col: 13, offset: 91123},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 13, offset: 90859},
+																			pos:        position{line: 2885, col: 13, offset: 91123},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 20, offset: 90866},
+																			pos:        position{line: 2885, col: 20, offset: 91130},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 29, offset: 90875},
+																			pos:        position{line: 2885, col: 29, offset: 91139},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4379,9 +4379,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2885, col: 8, offset: 91035},
+																pos: position{line: 2895, col: 8, offset: 91299},
 																expr: &anyMatcher{
-																	line: 2885, col: 9, offset: 91036,
+																	line: 2895, col: 9, offset: 91300,
 																},
 															},
 														},
@@ -4442,10 +4442,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 39, offset: 11061},
 														expr: &actionExpr{
-															pos: position{line: 2866, col: 10, offset: 90687},
+															pos: position{line: 2876, col: 10, offset: 90951},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2866, col: 10, offset: 90687},
+																pos:        position{line: 2876, col: 10, offset: 90951},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4454,28 +4454,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2888, col: 8, offset: 91085},
+														pos: position{line: 2898, col: 8, offset: 91349},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2875, col: 12, offset: 90858},
+																pos: position{line: 2885, col: 12, offset: 91122},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2875, col: 13, offset: 90859},
+																	pos: position{line: 2885, col: 13, offset: 91123},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 13, offset: 90859},
+																			pos:        position{line: 2885, col: 13, offset: 91123},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 20, offset: 90866},
+																			pos:        position{line: 2885, col: 20, offset: 91130},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 29, offset: 90875},
+																			pos:        position{line: 2885, col: 29, offset: 91139},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4484,9 +4484,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2885, col: 8, offset: 91035},
+																pos: position{line: 2895, col: 8, offset: 91299},
 																expr: &anyMatcher{
-																	line: 2885, col: 9, offset: 91036,
+																	line: 2895, col: 9, offset: 91300,
 																},
 															},
 														},
@@ -4501,18 +4501,18 @@ var g = &grammar{
 												pos: position{line: 677, col: 14, offset: 21557},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2883, col: 11, offset: 91021},
+														pos: position{line: 2893, col: 11, offset: 91285},
 														expr: &anyMatcher{
-															line: 2883, col: 13, offset: 91023,
+															line: 2893, col: 13, offset: 91287,
 														},
 													},
 													&zeroOrMoreExpr{
 														pos: position{line: 677, col: 21, offset: 21564},
 														expr: &actionExpr{
-															pos: position{line: 2866, col: 10, offset: 90687},
+															pos: position{line: 2876, col: 10, offset: 90951},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2866, col: 10, offset: 90687},
+																pos:        position{line: 2876, col: 10, offset: 90951},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4521,28 +4521,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2888, col: 8, offset: 91085},
+														pos: position{line: 2898, col: 8, offset: 91349},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2875, col: 12, offset: 90858},
+																pos: position{line: 2885, col: 12, offset: 91122},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2875, col: 13, offset: 90859},
+																	pos: position{line: 2885, col: 13, offset: 91123},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 13, offset: 90859},
+																			pos:        position{line: 2885, col: 13, offset: 91123},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 20, offset: 90866},
+																			pos:        position{line: 2885, col: 20, offset: 91130},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 29, offset: 90875},
+																			pos:        position{line: 2885, col: 29, offset: 91139},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4551,9 +4551,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2885, col: 8, offset: 91035},
+																pos: position{line: 2895, col: 8, offset: 91299},
 																expr: &anyMatcher{
-																	line: 2885, col: 9, offset: 91036,
+																	line: 2895, col: 9, offset: 91300,
 																},
 															},
 														},
@@ -4612,10 +4612,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 742, col: 8, offset: 23754},
 																	expr: &actionExpr{
-																		pos: position{line: 2866, col: 10, offset: 90687},
+																		pos: position{line: 2876, col: 10, offset: 90951},
 																		run: (*parser).callonDocumentFragment86,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2866, col: 10, offset: 90687},
+																			pos:        position{line: 2876, col: 10, offset: 90951},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -4624,28 +4624,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2888, col: 8, offset: 91085},
+																	pos: position{line: 2898, col: 8, offset: 91349},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2875, col: 12, offset: 90858},
+																			pos: position{line: 2885, col: 12, offset: 91122},
 																			run: (*parser).callonDocumentFragment89,
 																			expr: &choiceExpr{
-																				pos: position{line: 2875, col: 13, offset: 90859},
+																				pos: position{line: 2885, col: 13, offset: 91123},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 13, offset: 90859},
+																						pos:        position{line: 2885, col: 13, offset: 91123},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 20, offset: 90866},
+																						pos:        position{line: 2885, col: 20, offset: 91130},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 29, offset: 90875},
+																						pos:        position{line: 2885, col: 29, offset: 91139},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -4654,9 +4654,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2885, col: 8, offset: 91035},
+																			pos: position{line: 2895, col: 8, offset: 91299},
 																			expr: &anyMatcher{
-																				line: 2885, col: 9, offset: 91036,
+																				line: 2895, col: 9, offset: 91300,
 																			},
 																		},
 																	},
@@ -4717,10 +4717,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 742, col: 8, offset: 23754},
 																									expr: &actionExpr{
-																										pos: position{line: 2866, col: 10, offset: 90687},
+																										pos: position{line: 2876, col: 10, offset: 90951},
 																										run: (*parser).callonDocumentFragment111,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2866, col: 10, offset: 90687},
+																											pos:        position{line: 2876, col: 10, offset: 90951},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -4729,28 +4729,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2888, col: 8, offset: 91085},
+																									pos: position{line: 2898, col: 8, offset: 91349},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2875, col: 12, offset: 90858},
+																											pos: position{line: 2885, col: 12, offset: 91122},
 																											run: (*parser).callonDocumentFragment114,
 																											expr: &choiceExpr{
-																												pos: position{line: 2875, col: 13, offset: 90859},
+																												pos: position{line: 2885, col: 13, offset: 91123},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 13, offset: 90859},
+																														pos:        position{line: 2885, col: 13, offset: 91123},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 20, offset: 90866},
+																														pos:        position{line: 2885, col: 20, offset: 91130},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 29, offset: 90875},
+																														pos:        position{line: 2885, col: 29, offset: 91139},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -4759,9 +4759,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2885, col: 8, offset: 91035},
+																											pos: position{line: 2895, col: 8, offset: 91299},
 																											expr: &anyMatcher{
-																												line: 2885, col: 9, offset: 91036,
+																												line: 2895, col: 9, offset: 91300,
 																											},
 																										},
 																									},
@@ -4770,9 +4770,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2885, col: 8, offset: 91035},
+																						pos: position{line: 2895, col: 8, offset: 91299},
 																						expr: &anyMatcher{
-																							line: 2885, col: 9, offset: 91036,
+																							line: 2895, col: 9, offset: 91300,
 																						},
 																					},
 																				},
@@ -4788,21 +4788,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26161},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2883, col: 11, offset: 91021},
+																							pos: position{line: 2893, col: 11, offset: 91285},
 																							expr: &anyMatcher{
-																								line: 2883, col: 13, offset: 91023,
+																								line: 2893, col: 13, offset: 91287,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26236},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2812, col: 13, offset: 89213},
+																								pos: position{line: 2822, col: 13, offset: 89477},
 																								run: (*parser).callonDocumentFragment129,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2812, col: 13, offset: 89213},
+																									pos: position{line: 2822, col: 13, offset: 89477},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2812, col: 13, offset: 89213},
+																										pos:        position{line: 2822, col: 13, offset: 89477},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4812,28 +4812,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91085},
+																							pos: position{line: 2898, col: 8, offset: 91349},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90858},
+																									pos: position{line: 2885, col: 12, offset: 91122},
 																									run: (*parser).callonDocumentFragment133,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90859},
+																										pos: position{line: 2885, col: 13, offset: 91123},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90859},
+																												pos:        position{line: 2885, col: 13, offset: 91123},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90866},
+																												pos:        position{line: 2885, col: 20, offset: 91130},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90875},
+																												pos:        position{line: 2885, col: 29, offset: 91139},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4842,9 +4842,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91035},
+																									pos: position{line: 2895, col: 8, offset: 91299},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91036,
+																										line: 2895, col: 9, offset: 91300,
 																									},
 																								},
 																							},
@@ -4900,10 +4900,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 742, col: 8, offset: 23754},
 																				expr: &actionExpr{
-																					pos: position{line: 2866, col: 10, offset: 90687},
+																					pos: position{line: 2876, col: 10, offset: 90951},
 																					run: (*parser).callonDocumentFragment151,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2866, col: 10, offset: 90687},
+																						pos:        position{line: 2876, col: 10, offset: 90951},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -4912,28 +4912,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2888, col: 8, offset: 91085},
+																				pos: position{line: 2898, col: 8, offset: 91349},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2875, col: 12, offset: 90858},
+																						pos: position{line: 2885, col: 12, offset: 91122},
 																						run: (*parser).callonDocumentFragment154,
 																						expr: &choiceExpr{
-																							pos: position{line: 2875, col: 13, offset: 90859},
+																							pos: position{line: 2885, col: 13, offset: 91123},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2875, col: 13, offset: 90859},
+																									pos:        position{line: 2885, col: 13, offset: 91123},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2875, col: 20, offset: 90866},
+																									pos:        position{line: 2885, col: 20, offset: 91130},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2875, col: 29, offset: 90875},
+																									pos:        position{line: 2885, col: 29, offset: 91139},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -4942,9 +4942,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2885, col: 8, offset: 91035},
+																						pos: position{line: 2895, col: 8, offset: 91299},
 																						expr: &anyMatcher{
-																							line: 2885, col: 9, offset: 91036,
+																							line: 2895, col: 9, offset: 91300,
 																						},
 																					},
 																				},
@@ -4953,9 +4953,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2885, col: 8, offset: 91035},
+																	pos: position{line: 2895, col: 8, offset: 91299},
 																	expr: &anyMatcher{
-																		line: 2885, col: 9, offset: 91036,
+																		line: 2895, col: 9, offset: 91300,
 																	},
 																},
 															},
@@ -5010,10 +5010,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 749, col: 8, offset: 24002},
 																		expr: &actionExpr{
-																			pos: position{line: 2866, col: 10, offset: 90687},
+																			pos: position{line: 2876, col: 10, offset: 90951},
 																			run: (*parser).callonDocumentFragment175,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2866, col: 10, offset: 90687},
+																				pos:        position{line: 2876, col: 10, offset: 90951},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5022,28 +5022,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2888, col: 8, offset: 91085},
+																		pos: position{line: 2898, col: 8, offset: 91349},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2875, col: 12, offset: 90858},
+																				pos: position{line: 2885, col: 12, offset: 91122},
 																				run: (*parser).callonDocumentFragment178,
 																				expr: &choiceExpr{
-																					pos: position{line: 2875, col: 13, offset: 90859},
+																					pos: position{line: 2885, col: 13, offset: 91123},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 13, offset: 90859},
+																							pos:        position{line: 2885, col: 13, offset: 91123},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 20, offset: 90866},
+																							pos:        position{line: 2885, col: 20, offset: 91130},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 29, offset: 90875},
+																							pos:        position{line: 2885, col: 29, offset: 91139},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5052,9 +5052,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2885, col: 8, offset: 91035},
+																				pos: position{line: 2895, col: 8, offset: 91299},
 																				expr: &anyMatcher{
-																					line: 2885, col: 9, offset: 91036,
+																					line: 2895, col: 9, offset: 91300,
 																				},
 																			},
 																		},
@@ -5126,10 +5126,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 749, col: 8, offset: 24002},
 																												expr: &actionExpr{
-																													pos: position{line: 2866, col: 10, offset: 90687},
+																													pos: position{line: 2876, col: 10, offset: 90951},
 																													run: (*parser).callonDocumentFragment203,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2866, col: 10, offset: 90687},
+																														pos:        position{line: 2876, col: 10, offset: 90951},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5138,28 +5138,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2888, col: 8, offset: 91085},
+																												pos: position{line: 2898, col: 8, offset: 91349},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2875, col: 12, offset: 90858},
+																														pos: position{line: 2885, col: 12, offset: 91122},
 																														run: (*parser).callonDocumentFragment206,
 																														expr: &choiceExpr{
-																															pos: position{line: 2875, col: 13, offset: 90859},
+																															pos: position{line: 2885, col: 13, offset: 91123},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2875, col: 13, offset: 90859},
+																																	pos:        position{line: 2885, col: 13, offset: 91123},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2875, col: 20, offset: 90866},
+																																	pos:        position{line: 2885, col: 20, offset: 91130},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2875, col: 29, offset: 90875},
+																																	pos:        position{line: 2885, col: 29, offset: 91139},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5168,9 +5168,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2885, col: 8, offset: 91035},
+																														pos: position{line: 2895, col: 8, offset: 91299},
 																														expr: &anyMatcher{
-																															line: 2885, col: 9, offset: 91036,
+																															line: 2895, col: 9, offset: 91300,
 																														},
 																													},
 																												},
@@ -5186,9 +5186,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2885, col: 8, offset: 91035},
+																						pos: position{line: 2895, col: 8, offset: 91299},
 																						expr: &anyMatcher{
-																							line: 2885, col: 9, offset: 91036,
+																							line: 2895, col: 9, offset: 91300,
 																						},
 																					},
 																				},
@@ -5204,21 +5204,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26161},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2883, col: 11, offset: 91021},
+																							pos: position{line: 2893, col: 11, offset: 91285},
 																							expr: &anyMatcher{
-																								line: 2883, col: 13, offset: 91023,
+																								line: 2893, col: 13, offset: 91287,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26236},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2812, col: 13, offset: 89213},
+																								pos: position{line: 2822, col: 13, offset: 89477},
 																								run: (*parser).callonDocumentFragment222,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2812, col: 13, offset: 89213},
+																									pos: position{line: 2822, col: 13, offset: 89477},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2812, col: 13, offset: 89213},
+																										pos:        position{line: 2822, col: 13, offset: 89477},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5228,28 +5228,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91085},
+																							pos: position{line: 2898, col: 8, offset: 91349},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90858},
+																									pos: position{line: 2885, col: 12, offset: 91122},
 																									run: (*parser).callonDocumentFragment226,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90859},
+																										pos: position{line: 2885, col: 13, offset: 91123},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90859},
+																												pos:        position{line: 2885, col: 13, offset: 91123},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90866},
+																												pos:        position{line: 2885, col: 20, offset: 91130},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90875},
+																												pos:        position{line: 2885, col: 29, offset: 91139},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5258,9 +5258,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91035},
+																									pos: position{line: 2895, col: 8, offset: 91299},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91036,
+																										line: 2895, col: 9, offset: 91300,
 																									},
 																								},
 																							},
@@ -5325,10 +5325,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 749, col: 8, offset: 24002},
 																								expr: &actionExpr{
-																									pos: position{line: 2866, col: 10, offset: 90687},
+																									pos: position{line: 2876, col: 10, offset: 90951},
 																									run: (*parser).callonDocumentFragment247,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2866, col: 10, offset: 90687},
+																										pos:        position{line: 2876, col: 10, offset: 90951},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5337,28 +5337,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2888, col: 8, offset: 91085},
+																								pos: position{line: 2898, col: 8, offset: 91349},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2875, col: 12, offset: 90858},
+																										pos: position{line: 2885, col: 12, offset: 91122},
 																										run: (*parser).callonDocumentFragment250,
 																										expr: &choiceExpr{
-																											pos: position{line: 2875, col: 13, offset: 90859},
+																											pos: position{line: 2885, col: 13, offset: 91123},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 13, offset: 90859},
+																													pos:        position{line: 2885, col: 13, offset: 91123},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 20, offset: 90866},
+																													pos:        position{line: 2885, col: 20, offset: 91130},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 29, offset: 90875},
+																													pos:        position{line: 2885, col: 29, offset: 91139},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5367,9 +5367,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2885, col: 8, offset: 91035},
+																										pos: position{line: 2895, col: 8, offset: 91299},
 																										expr: &anyMatcher{
-																											line: 2885, col: 9, offset: 91036,
+																											line: 2895, col: 9, offset: 91300,
 																										},
 																									},
 																								},
@@ -5385,9 +5385,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2885, col: 8, offset: 91035},
+																		pos: position{line: 2895, col: 8, offset: 91299},
 																		expr: &anyMatcher{
-																			line: 2885, col: 9, offset: 91036,
+																			line: 2895, col: 9, offset: 91300,
 																		},
 																	},
 																},
@@ -5439,10 +5439,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 760, col: 52, offset: 24414},
 																		expr: &actionExpr{
-																			pos: position{line: 2866, col: 10, offset: 90687},
+																			pos: position{line: 2876, col: 10, offset: 90951},
 																			run: (*parser).callonDocumentFragment271,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2866, col: 10, offset: 90687},
+																				pos:        position{line: 2876, col: 10, offset: 90951},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5451,28 +5451,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2888, col: 8, offset: 91085},
+																		pos: position{line: 2898, col: 8, offset: 91349},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2875, col: 12, offset: 90858},
+																				pos: position{line: 2885, col: 12, offset: 91122},
 																				run: (*parser).callonDocumentFragment274,
 																				expr: &choiceExpr{
-																					pos: position{line: 2875, col: 13, offset: 90859},
+																					pos: position{line: 2885, col: 13, offset: 91123},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 13, offset: 90859},
+																							pos:        position{line: 2885, col: 13, offset: 91123},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 20, offset: 90866},
+																							pos:        position{line: 2885, col: 20, offset: 91130},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 29, offset: 90875},
+																							pos:        position{line: 2885, col: 29, offset: 91139},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5481,9 +5481,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2885, col: 8, offset: 91035},
+																				pos: position{line: 2895, col: 8, offset: 91299},
 																				expr: &anyMatcher{
-																					line: 2885, col: 9, offset: 91036,
+																					line: 2895, col: 9, offset: 91300,
 																				},
 																			},
 																		},
@@ -5517,10 +5517,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 963, col: 40, offset: 30222},
 																						expr: &actionExpr{
-																							pos: position{line: 2866, col: 10, offset: 90687},
+																							pos: position{line: 2876, col: 10, offset: 90951},
 																							run: (*parser).callonDocumentFragment289,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2866, col: 10, offset: 90687},
+																								pos:        position{line: 2876, col: 10, offset: 90951},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5529,28 +5529,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2888, col: 8, offset: 91085},
+																						pos: position{line: 2898, col: 8, offset: 91349},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2875, col: 12, offset: 90858},
+																								pos: position{line: 2885, col: 12, offset: 91122},
 																								run: (*parser).callonDocumentFragment292,
 																								expr: &choiceExpr{
-																									pos: position{line: 2875, col: 13, offset: 90859},
+																									pos: position{line: 2885, col: 13, offset: 91123},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 13, offset: 90859},
+																											pos:        position{line: 2885, col: 13, offset: 91123},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 20, offset: 90866},
+																											pos:        position{line: 2885, col: 20, offset: 91130},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 29, offset: 90875},
+																											pos:        position{line: 2885, col: 29, offset: 91139},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5559,9 +5559,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2885, col: 8, offset: 91035},
+																								pos: position{line: 2895, col: 8, offset: 91299},
 																								expr: &anyMatcher{
-																									line: 2885, col: 9, offset: 91036,
+																									line: 2895, col: 9, offset: 91300,
 																								},
 																							},
 																						},
@@ -5579,21 +5579,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26161},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2883, col: 11, offset: 91021},
+																							pos: position{line: 2893, col: 11, offset: 91285},
 																							expr: &anyMatcher{
-																								line: 2883, col: 13, offset: 91023,
+																								line: 2893, col: 13, offset: 91287,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26236},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2812, col: 13, offset: 89213},
+																								pos: position{line: 2822, col: 13, offset: 89477},
 																								run: (*parser).callonDocumentFragment305,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2812, col: 13, offset: 89213},
+																									pos: position{line: 2822, col: 13, offset: 89477},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2812, col: 13, offset: 89213},
+																										pos:        position{line: 2822, col: 13, offset: 89477},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5603,28 +5603,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91085},
+																							pos: position{line: 2898, col: 8, offset: 91349},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90858},
+																									pos: position{line: 2885, col: 12, offset: 91122},
 																									run: (*parser).callonDocumentFragment309,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90859},
+																										pos: position{line: 2885, col: 13, offset: 91123},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90859},
+																												pos:        position{line: 2885, col: 13, offset: 91123},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90866},
+																												pos:        position{line: 2885, col: 20, offset: 91130},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90875},
+																												pos:        position{line: 2885, col: 29, offset: 91139},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5633,9 +5633,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91035},
+																									pos: position{line: 2895, col: 8, offset: 91299},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91036,
+																										line: 2895, col: 9, offset: 91300,
 																									},
 																								},
 																							},
@@ -5663,10 +5663,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 963, col: 40, offset: 30222},
 																	expr: &actionExpr{
-																		pos: position{line: 2866, col: 10, offset: 90687},
+																		pos: position{line: 2876, col: 10, offset: 90951},
 																		run: (*parser).callonDocumentFragment320,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2866, col: 10, offset: 90687},
+																			pos:        position{line: 2876, col: 10, offset: 90951},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5675,28 +5675,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2888, col: 8, offset: 91085},
+																	pos: position{line: 2898, col: 8, offset: 91349},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2875, col: 12, offset: 90858},
+																			pos: position{line: 2885, col: 12, offset: 91122},
 																			run: (*parser).callonDocumentFragment323,
 																			expr: &choiceExpr{
-																				pos: position{line: 2875, col: 13, offset: 90859},
+																				pos: position{line: 2885, col: 13, offset: 91123},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 13, offset: 90859},
+																						pos:        position{line: 2885, col: 13, offset: 91123},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 20, offset: 90866},
+																						pos:        position{line: 2885, col: 20, offset: 91130},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 29, offset: 90875},
+																						pos:        position{line: 2885, col: 29, offset: 91139},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5705,9 +5705,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2885, col: 8, offset: 91035},
+																			pos: position{line: 2895, col: 8, offset: 91299},
 																			expr: &anyMatcher{
-																				line: 2885, col: 9, offset: 91036,
+																				line: 2895, col: 9, offset: 91300,
 																			},
 																		},
 																	},
@@ -5764,10 +5764,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 756, col: 8, offset: 24248},
 																		expr: &actionExpr{
-																			pos: position{line: 2866, col: 10, offset: 90687},
+																			pos: position{line: 2876, col: 10, offset: 90951},
 																			run: (*parser).callonDocumentFragment342,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2866, col: 10, offset: 90687},
+																				pos:        position{line: 2876, col: 10, offset: 90951},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5776,28 +5776,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2888, col: 8, offset: 91085},
+																		pos: position{line: 2898, col: 8, offset: 91349},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2875, col: 12, offset: 90858},
+																				pos: position{line: 2885, col: 12, offset: 91122},
 																				run: (*parser).callonDocumentFragment345,
 																				expr: &choiceExpr{
-																					pos: position{line: 2875, col: 13, offset: 90859},
+																					pos: position{line: 2885, col: 13, offset: 91123},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 13, offset: 90859},
+																							pos:        position{line: 2885, col: 13, offset: 91123},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 20, offset: 90866},
+																							pos:        position{line: 2885, col: 20, offset: 91130},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 29, offset: 90875},
+																							pos:        position{line: 2885, col: 29, offset: 91139},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5806,9 +5806,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2885, col: 8, offset: 91035},
+																				pos: position{line: 2895, col: 8, offset: 91299},
 																				expr: &anyMatcher{
-																					line: 2885, col: 9, offset: 91036,
+																					line: 2895, col: 9, offset: 91300,
 																				},
 																			},
 																		},
@@ -5880,10 +5880,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 756, col: 8, offset: 24248},
 																												expr: &actionExpr{
-																													pos: position{line: 2866, col: 10, offset: 90687},
+																													pos: position{line: 2876, col: 10, offset: 90951},
 																													run: (*parser).callonDocumentFragment370,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2866, col: 10, offset: 90687},
+																														pos:        position{line: 2876, col: 10, offset: 90951},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5892,28 +5892,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2888, col: 8, offset: 91085},
+																												pos: position{line: 2898, col: 8, offset: 91349},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2875, col: 12, offset: 90858},
+																														pos: position{line: 2885, col: 12, offset: 91122},
 																														run: (*parser).callonDocumentFragment373,
 																														expr: &choiceExpr{
-																															pos: position{line: 2875, col: 13, offset: 90859},
+																															pos: position{line: 2885, col: 13, offset: 91123},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2875, col: 13, offset: 90859},
+																																	pos:        position{line: 2885, col: 13, offset: 91123},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2875, col: 20, offset: 90866},
+																																	pos:        position{line: 2885, col: 20, offset: 91130},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2875, col: 29, offset: 90875},
+																																	pos:        position{line: 2885, col: 29, offset: 91139},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5922,9 +5922,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2885, col: 8, offset: 91035},
+																														pos: position{line: 2895, col: 8, offset: 91299},
 																														expr: &anyMatcher{
-																															line: 2885, col: 9, offset: 91036,
+																															line: 2895, col: 9, offset: 91300,
 																														},
 																													},
 																												},
@@ -5940,9 +5940,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2885, col: 8, offset: 91035},
+																						pos: position{line: 2895, col: 8, offset: 91299},
 																						expr: &anyMatcher{
-																							line: 2885, col: 9, offset: 91036,
+																							line: 2895, col: 9, offset: 91300,
 																						},
 																					},
 																				},
@@ -5958,21 +5958,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26161},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2883, col: 11, offset: 91021},
+																							pos: position{line: 2893, col: 11, offset: 91285},
 																							expr: &anyMatcher{
-																								line: 2883, col: 13, offset: 91023,
+																								line: 2893, col: 13, offset: 91287,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26236},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2812, col: 13, offset: 89213},
+																								pos: position{line: 2822, col: 13, offset: 89477},
 																								run: (*parser).callonDocumentFragment389,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2812, col: 13, offset: 89213},
+																									pos: position{line: 2822, col: 13, offset: 89477},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2812, col: 13, offset: 89213},
+																										pos:        position{line: 2822, col: 13, offset: 89477},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5982,28 +5982,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91085},
+																							pos: position{line: 2898, col: 8, offset: 91349},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90858},
+																									pos: position{line: 2885, col: 12, offset: 91122},
 																									run: (*parser).callonDocumentFragment393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90859},
+																										pos: position{line: 2885, col: 13, offset: 91123},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90859},
+																												pos:        position{line: 2885, col: 13, offset: 91123},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90866},
+																												pos:        position{line: 2885, col: 20, offset: 91130},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90875},
+																												pos:        position{line: 2885, col: 29, offset: 91139},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6012,9 +6012,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91035},
+																									pos: position{line: 2895, col: 8, offset: 91299},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91036,
+																										line: 2895, col: 9, offset: 91300,
 																									},
 																								},
 																							},
@@ -6079,10 +6079,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 756, col: 8, offset: 24248},
 																								expr: &actionExpr{
-																									pos: position{line: 2866, col: 10, offset: 90687},
+																									pos: position{line: 2876, col: 10, offset: 90951},
 																									run: (*parser).callonDocumentFragment414,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2866, col: 10, offset: 90687},
+																										pos:        position{line: 2876, col: 10, offset: 90951},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6091,28 +6091,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2888, col: 8, offset: 91085},
+																								pos: position{line: 2898, col: 8, offset: 91349},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2875, col: 12, offset: 90858},
+																										pos: position{line: 2885, col: 12, offset: 91122},
 																										run: (*parser).callonDocumentFragment417,
 																										expr: &choiceExpr{
-																											pos: position{line: 2875, col: 13, offset: 90859},
+																											pos: position{line: 2885, col: 13, offset: 91123},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 13, offset: 90859},
+																													pos:        position{line: 2885, col: 13, offset: 91123},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 20, offset: 90866},
+																													pos:        position{line: 2885, col: 20, offset: 91130},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 29, offset: 90875},
+																													pos:        position{line: 2885, col: 29, offset: 91139},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6121,9 +6121,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2885, col: 8, offset: 91035},
+																										pos: position{line: 2895, col: 8, offset: 91299},
 																										expr: &anyMatcher{
-																											line: 2885, col: 9, offset: 91036,
+																											line: 2895, col: 9, offset: 91300,
 																										},
 																									},
 																								},
@@ -6139,9 +6139,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2885, col: 8, offset: 91035},
+																		pos: position{line: 2895, col: 8, offset: 91299},
 																		expr: &anyMatcher{
-																			line: 2885, col: 9, offset: 91036,
+																			line: 2895, col: 9, offset: 91300,
 																		},
 																	},
 																},
@@ -6197,10 +6197,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 771, col: 8, offset: 24791},
 																		expr: &actionExpr{
-																			pos: position{line: 2866, col: 10, offset: 90687},
+																			pos: position{line: 2876, col: 10, offset: 90951},
 																			run: (*parser).callonDocumentFragment439,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2866, col: 10, offset: 90687},
+																				pos:        position{line: 2876, col: 10, offset: 90951},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6209,28 +6209,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2888, col: 8, offset: 91085},
+																		pos: position{line: 2898, col: 8, offset: 91349},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2875, col: 12, offset: 90858},
+																				pos: position{line: 2885, col: 12, offset: 91122},
 																				run: (*parser).callonDocumentFragment442,
 																				expr: &choiceExpr{
-																					pos: position{line: 2875, col: 13, offset: 90859},
+																					pos: position{line: 2885, col: 13, offset: 91123},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 13, offset: 90859},
+																							pos:        position{line: 2885, col: 13, offset: 91123},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 20, offset: 90866},
+																							pos:        position{line: 2885, col: 20, offset: 91130},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 29, offset: 90875},
+																							pos:        position{line: 2885, col: 29, offset: 91139},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6239,9 +6239,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2885, col: 8, offset: 91035},
+																				pos: position{line: 2895, col: 8, offset: 91299},
 																				expr: &anyMatcher{
-																					line: 2885, col: 9, offset: 91036,
+																					line: 2895, col: 9, offset: 91300,
 																				},
 																			},
 																		},
@@ -6313,10 +6313,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 771, col: 8, offset: 24791},
 																												expr: &actionExpr{
-																													pos: position{line: 2866, col: 10, offset: 90687},
+																													pos: position{line: 2876, col: 10, offset: 90951},
 																													run: (*parser).callonDocumentFragment467,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2866, col: 10, offset: 90687},
+																														pos:        position{line: 2876, col: 10, offset: 90951},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6325,28 +6325,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2888, col: 8, offset: 91085},
+																												pos: position{line: 2898, col: 8, offset: 91349},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2875, col: 12, offset: 90858},
+																														pos: position{line: 2885, col: 12, offset: 91122},
 																														run: (*parser).callonDocumentFragment470,
 																														expr: &choiceExpr{
-																															pos: position{line: 2875, col: 13, offset: 90859},
+																															pos: position{line: 2885, col: 13, offset: 91123},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2875, col: 13, offset: 90859},
+																																	pos:        position{line: 2885, col: 13, offset: 91123},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2875, col: 20, offset: 90866},
+																																	pos:        position{line: 2885, col: 20, offset: 91130},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2875, col: 29, offset: 90875},
+																																	pos:        position{line: 2885, col: 29, offset: 91139},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6355,9 +6355,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2885, col: 8, offset: 91035},
+																														pos: position{line: 2895, col: 8, offset: 91299},
 																														expr: &anyMatcher{
-																															line: 2885, col: 9, offset: 91036,
+																															line: 2895, col: 9, offset: 91300,
 																														},
 																													},
 																												},
@@ -6373,9 +6373,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2885, col: 8, offset: 91035},
+																						pos: position{line: 2895, col: 8, offset: 91299},
 																						expr: &anyMatcher{
-																							line: 2885, col: 9, offset: 91036,
+																							line: 2895, col: 9, offset: 91300,
 																						},
 																					},
 																				},
@@ -6391,21 +6391,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26161},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2883, col: 11, offset: 91021},
+																							pos: position{line: 2893, col: 11, offset: 91285},
 																							expr: &anyMatcher{
-																								line: 2883, col: 13, offset: 91023,
+																								line: 2893, col: 13, offset: 91287,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26236},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2812, col: 13, offset: 89213},
+																								pos: position{line: 2822, col: 13, offset: 89477},
 																								run: (*parser).callonDocumentFragment486,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2812, col: 13, offset: 89213},
+																									pos: position{line: 2822, col: 13, offset: 89477},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2812, col: 13, offset: 89213},
+																										pos:        position{line: 2822, col: 13, offset: 89477},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6415,28 +6415,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91085},
+																							pos: position{line: 2898, col: 8, offset: 91349},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90858},
+																									pos: position{line: 2885, col: 12, offset: 91122},
 																									run: (*parser).callonDocumentFragment490,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90859},
+																										pos: position{line: 2885, col: 13, offset: 91123},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90859},
+																												pos:        position{line: 2885, col: 13, offset: 91123},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90866},
+																												pos:        position{line: 2885, col: 20, offset: 91130},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90875},
+																												pos:        position{line: 2885, col: 29, offset: 91139},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6445,9 +6445,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91035},
+																									pos: position{line: 2895, col: 8, offset: 91299},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91036,
+																										line: 2895, col: 9, offset: 91300,
 																									},
 																								},
 																							},
@@ -6512,10 +6512,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 771, col: 8, offset: 24791},
 																								expr: &actionExpr{
-																									pos: position{line: 2866, col: 10, offset: 90687},
+																									pos: position{line: 2876, col: 10, offset: 90951},
 																									run: (*parser).callonDocumentFragment511,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2866, col: 10, offset: 90687},
+																										pos:        position{line: 2876, col: 10, offset: 90951},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6524,28 +6524,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2888, col: 8, offset: 91085},
+																								pos: position{line: 2898, col: 8, offset: 91349},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2875, col: 12, offset: 90858},
+																										pos: position{line: 2885, col: 12, offset: 91122},
 																										run: (*parser).callonDocumentFragment514,
 																										expr: &choiceExpr{
-																											pos: position{line: 2875, col: 13, offset: 90859},
+																											pos: position{line: 2885, col: 13, offset: 91123},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 13, offset: 90859},
+																													pos:        position{line: 2885, col: 13, offset: 91123},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 20, offset: 90866},
+																													pos:        position{line: 2885, col: 20, offset: 91130},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 29, offset: 90875},
+																													pos:        position{line: 2885, col: 29, offset: 91139},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6554,9 +6554,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2885, col: 8, offset: 91035},
+																										pos: position{line: 2895, col: 8, offset: 91299},
 																										expr: &anyMatcher{
-																											line: 2885, col: 9, offset: 91036,
+																											line: 2895, col: 9, offset: 91300,
 																										},
 																									},
 																								},
@@ -6572,9 +6572,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2885, col: 8, offset: 91035},
+																		pos: position{line: 2895, col: 8, offset: 91299},
 																		expr: &anyMatcher{
-																			line: 2885, col: 9, offset: 91036,
+																			line: 2895, col: 9, offset: 91300,
 																		},
 																	},
 																},
@@ -6630,10 +6630,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 785, col: 8, offset: 25267},
 																		expr: &actionExpr{
-																			pos: position{line: 2866, col: 10, offset: 90687},
+																			pos: position{line: 2876, col: 10, offset: 90951},
 																			run: (*parser).callonDocumentFragment536,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2866, col: 10, offset: 90687},
+																				pos:        position{line: 2876, col: 10, offset: 90951},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6642,28 +6642,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2888, col: 8, offset: 91085},
+																		pos: position{line: 2898, col: 8, offset: 91349},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2875, col: 12, offset: 90858},
+																				pos: position{line: 2885, col: 12, offset: 91122},
 																				run: (*parser).callonDocumentFragment539,
 																				expr: &choiceExpr{
-																					pos: position{line: 2875, col: 13, offset: 90859},
+																					pos: position{line: 2885, col: 13, offset: 91123},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 13, offset: 90859},
+																							pos:        position{line: 2885, col: 13, offset: 91123},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 20, offset: 90866},
+																							pos:        position{line: 2885, col: 20, offset: 91130},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 29, offset: 90875},
+																							pos:        position{line: 2885, col: 29, offset: 91139},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6672,9 +6672,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2885, col: 8, offset: 91035},
+																				pos: position{line: 2895, col: 8, offset: 91299},
 																				expr: &anyMatcher{
-																					line: 2885, col: 9, offset: 91036,
+																					line: 2895, col: 9, offset: 91300,
 																				},
 																			},
 																		},
@@ -6746,10 +6746,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 785, col: 8, offset: 25267},
 																												expr: &actionExpr{
-																													pos: position{line: 2866, col: 10, offset: 90687},
+																													pos: position{line: 2876, col: 10, offset: 90951},
 																													run: (*parser).callonDocumentFragment564,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2866, col: 10, offset: 90687},
+																														pos:        position{line: 2876, col: 10, offset: 90951},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6758,28 +6758,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2888, col: 8, offset: 91085},
+																												pos: position{line: 2898, col: 8, offset: 91349},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2875, col: 12, offset: 90858},
+																														pos: position{line: 2885, col: 12, offset: 91122},
 																														run: (*parser).callonDocumentFragment567,
 																														expr: &choiceExpr{
-																															pos: position{line: 2875, col: 13, offset: 90859},
+																															pos: position{line: 2885, col: 13, offset: 91123},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2875, col: 13, offset: 90859},
+																																	pos:        position{line: 2885, col: 13, offset: 91123},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2875, col: 20, offset: 90866},
+																																	pos:        position{line: 2885, col: 20, offset: 91130},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2875, col: 29, offset: 90875},
+																																	pos:        position{line: 2885, col: 29, offset: 91139},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6788,9 +6788,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2885, col: 8, offset: 91035},
+																														pos: position{line: 2895, col: 8, offset: 91299},
 																														expr: &anyMatcher{
-																															line: 2885, col: 9, offset: 91036,
+																															line: 2895, col: 9, offset: 91300,
 																														},
 																													},
 																												},
@@ -6806,9 +6806,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2885, col: 8, offset: 91035},
+																						pos: position{line: 2895, col: 8, offset: 91299},
 																						expr: &anyMatcher{
-																							line: 2885, col: 9, offset: 91036,
+																							line: 2895, col: 9, offset: 91300,
 																						},
 																					},
 																				},
@@ -6824,21 +6824,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26161},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2883, col: 11, offset: 91021},
+																							pos: position{line: 2893, col: 11, offset: 91285},
 																							expr: &anyMatcher{
-																								line: 2883, col: 13, offset: 91023,
+																								line: 2893, col: 13, offset: 91287,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26236},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2812, col: 13, offset: 89213},
+																								pos: position{line: 2822, col: 13, offset: 89477},
 																								run: (*parser).callonDocumentFragment583,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2812, col: 13, offset: 89213},
+																									pos: position{line: 2822, col: 13, offset: 89477},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2812, col: 13, offset: 89213},
+																										pos:        position{line: 2822, col: 13, offset: 89477},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6848,28 +6848,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91085},
+																							pos: position{line: 2898, col: 8, offset: 91349},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90858},
+																									pos: position{line: 2885, col: 12, offset: 91122},
 																									run: (*parser).callonDocumentFragment587,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90859},
+																										pos: position{line: 2885, col: 13, offset: 91123},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90859},
+																												pos:        position{line: 2885, col: 13, offset: 91123},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90866},
+																												pos:        position{line: 2885, col: 20, offset: 91130},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90875},
+																												pos:        position{line: 2885, col: 29, offset: 91139},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6878,9 +6878,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91035},
+																									pos: position{line: 2895, col: 8, offset: 91299},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91036,
+																										line: 2895, col: 9, offset: 91300,
 																									},
 																								},
 																							},
@@ -6945,10 +6945,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 785, col: 8, offset: 25267},
 																								expr: &actionExpr{
-																									pos: position{line: 2866, col: 10, offset: 90687},
+																									pos: position{line: 2876, col: 10, offset: 90951},
 																									run: (*parser).callonDocumentFragment608,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2866, col: 10, offset: 90687},
+																										pos:        position{line: 2876, col: 10, offset: 90951},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6957,28 +6957,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2888, col: 8, offset: 91085},
+																								pos: position{line: 2898, col: 8, offset: 91349},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2875, col: 12, offset: 90858},
+																										pos: position{line: 2885, col: 12, offset: 91122},
 																										run: (*parser).callonDocumentFragment611,
 																										expr: &choiceExpr{
-																											pos: position{line: 2875, col: 13, offset: 90859},
+																											pos: position{line: 2885, col: 13, offset: 91123},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 13, offset: 90859},
+																													pos:        position{line: 2885, col: 13, offset: 91123},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 20, offset: 90866},
+																													pos:        position{line: 2885, col: 20, offset: 91130},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 29, offset: 90875},
+																													pos:        position{line: 2885, col: 29, offset: 91139},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6987,9 +6987,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2885, col: 8, offset: 91035},
+																										pos: position{line: 2895, col: 8, offset: 91299},
 																										expr: &anyMatcher{
-																											line: 2885, col: 9, offset: 91036,
+																											line: 2895, col: 9, offset: 91300,
 																										},
 																									},
 																								},
@@ -7005,9 +7005,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2885, col: 8, offset: 91035},
+																		pos: position{line: 2895, col: 8, offset: 91299},
 																		expr: &anyMatcher{
-																			line: 2885, col: 9, offset: 91036,
+																			line: 2895, col: 9, offset: 91300,
 																		},
 																	},
 																},
@@ -7041,18 +7041,18 @@ var g = &grammar{
 																				pos: position{line: 677, col: 14, offset: 21557},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2883, col: 11, offset: 91021},
+																						pos: position{line: 2893, col: 11, offset: 91285},
 																						expr: &anyMatcher{
-																							line: 2883, col: 13, offset: 91023,
+																							line: 2893, col: 13, offset: 91287,
 																						},
 																					},
 																					&zeroOrMoreExpr{
 																						pos: position{line: 677, col: 21, offset: 21564},
 																						expr: &actionExpr{
-																							pos: position{line: 2866, col: 10, offset: 90687},
+																							pos: position{line: 2876, col: 10, offset: 90951},
 																							run: (*parser).callonDocumentFragment632,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2866, col: 10, offset: 90687},
+																								pos:        position{line: 2876, col: 10, offset: 90951},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -7061,28 +7061,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2888, col: 8, offset: 91085},
+																						pos: position{line: 2898, col: 8, offset: 91349},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2875, col: 12, offset: 90858},
+																								pos: position{line: 2885, col: 12, offset: 91122},
 																								run: (*parser).callonDocumentFragment635,
 																								expr: &choiceExpr{
-																									pos: position{line: 2875, col: 13, offset: 90859},
+																									pos: position{line: 2885, col: 13, offset: 91123},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 13, offset: 90859},
+																											pos:        position{line: 2885, col: 13, offset: 91123},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 20, offset: 90866},
+																											pos:        position{line: 2885, col: 20, offset: 91130},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 29, offset: 90875},
+																											pos:        position{line: 2885, col: 29, offset: 91139},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -7091,9 +7091,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2885, col: 8, offset: 91035},
+																								pos: position{line: 2895, col: 8, offset: 91299},
 																								expr: &anyMatcher{
-																									line: 2885, col: 9, offset: 91036,
+																									line: 2895, col: 9, offset: 91300,
 																								},
 																							},
 																						},
@@ -7112,12 +7112,12 @@ var g = &grammar{
 																		pos:   position{line: 984, col: 5, offset: 30757},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2816, col: 14, offset: 89280},
+																			pos: position{line: 2826, col: 14, offset: 89544},
 																			run: (*parser).callonDocumentFragment644,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2816, col: 14, offset: 89280},
+																				pos: position{line: 2826, col: 14, offset: 89544},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2816, col: 14, offset: 89280},
+																					pos:        position{line: 2826, col: 14, offset: 89544},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -7127,28 +7127,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2888, col: 8, offset: 91085},
+																		pos: position{line: 2898, col: 8, offset: 91349},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2875, col: 12, offset: 90858},
+																				pos: position{line: 2885, col: 12, offset: 91122},
 																				run: (*parser).callonDocumentFragment648,
 																				expr: &choiceExpr{
-																					pos: position{line: 2875, col: 13, offset: 90859},
+																					pos: position{line: 2885, col: 13, offset: 91123},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 13, offset: 90859},
+																							pos:        position{line: 2885, col: 13, offset: 91123},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 20, offset: 90866},
+																							pos:        position{line: 2885, col: 20, offset: 91130},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 29, offset: 90875},
+																							pos:        position{line: 2885, col: 29, offset: 91139},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7157,9 +7157,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2885, col: 8, offset: 91035},
+																				pos: position{line: 2895, col: 8, offset: 91299},
 																				expr: &anyMatcher{
-																					line: 2885, col: 9, offset: 91036,
+																					line: 2895, col: 9, offset: 91300,
 																				},
 																			},
 																		},
@@ -7191,18 +7191,18 @@ var g = &grammar{
 																							pos: position{line: 677, col: 14, offset: 21557},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2883, col: 11, offset: 91021},
+																									pos: position{line: 2893, col: 11, offset: 91285},
 																									expr: &anyMatcher{
-																										line: 2883, col: 13, offset: 91023,
+																										line: 2893, col: 13, offset: 91287,
 																									},
 																								},
 																								&zeroOrMoreExpr{
 																									pos: position{line: 677, col: 21, offset: 21564},
 																									expr: &actionExpr{
-																										pos: position{line: 2866, col: 10, offset: 90687},
+																										pos: position{line: 2876, col: 10, offset: 90951},
 																										run: (*parser).callonDocumentFragment666,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2866, col: 10, offset: 90687},
+																											pos:        position{line: 2876, col: 10, offset: 90951},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7211,28 +7211,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2888, col: 8, offset: 91085},
+																									pos: position{line: 2898, col: 8, offset: 91349},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2875, col: 12, offset: 90858},
+																											pos: position{line: 2885, col: 12, offset: 91122},
 																											run: (*parser).callonDocumentFragment669,
 																											expr: &choiceExpr{
-																												pos: position{line: 2875, col: 13, offset: 90859},
+																												pos: position{line: 2885, col: 13, offset: 91123},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 13, offset: 90859},
+																														pos:        position{line: 2885, col: 13, offset: 91123},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 20, offset: 90866},
+																														pos:        position{line: 2885, col: 20, offset: 91130},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 29, offset: 90875},
+																														pos:        position{line: 2885, col: 29, offset: 91139},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7241,9 +7241,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2885, col: 8, offset: 91035},
+																											pos: position{line: 2895, col: 8, offset: 91299},
 																											expr: &anyMatcher{
-																												line: 2885, col: 9, offset: 91036,
+																												line: 2895, col: 9, offset: 91300,
 																											},
 																										},
 																									},
@@ -7262,12 +7262,12 @@ var g = &grammar{
 																					pos:   position{line: 984, col: 5, offset: 30757},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2816, col: 14, offset: 89280},
+																						pos: position{line: 2826, col: 14, offset: 89544},
 																						run: (*parser).callonDocumentFragment678,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2816, col: 14, offset: 89280},
+																							pos: position{line: 2826, col: 14, offset: 89544},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2816, col: 14, offset: 89280},
+																								pos:        position{line: 2826, col: 14, offset: 89544},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7277,28 +7277,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2888, col: 8, offset: 91085},
+																					pos: position{line: 2898, col: 8, offset: 91349},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2875, col: 12, offset: 90858},
+																							pos: position{line: 2885, col: 12, offset: 91122},
 																							run: (*parser).callonDocumentFragment682,
 																							expr: &choiceExpr{
-																								pos: position{line: 2875, col: 13, offset: 90859},
+																								pos: position{line: 2885, col: 13, offset: 91123},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 13, offset: 90859},
+																										pos:        position{line: 2885, col: 13, offset: 91123},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 20, offset: 90866},
+																										pos:        position{line: 2885, col: 20, offset: 91130},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 29, offset: 90875},
+																										pos:        position{line: 2885, col: 29, offset: 91139},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7307,9 +7307,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2885, col: 8, offset: 91035},
+																							pos: position{line: 2895, col: 8, offset: 91299},
 																							expr: &anyMatcher{
-																								line: 2885, col: 9, offset: 91036,
+																								line: 2895, col: 9, offset: 91300,
 																							},
 																						},
 																					},
@@ -7318,21 +7318,21 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 1785, col: 5, offset: 57782},
+																		pos: position{line: 1795, col: 5, offset: 58046},
 																		run: (*parser).callonDocumentFragment689,
 																		expr: &seqExpr{
-																			pos: position{line: 1785, col: 5, offset: 57782},
+																			pos: position{line: 1795, col: 5, offset: 58046},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1785, col: 5, offset: 57782},
+																					pos:   position{line: 1795, col: 5, offset: 58046},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2816, col: 14, offset: 89280},
+																						pos: position{line: 2826, col: 14, offset: 89544},
 																						run: (*parser).callonDocumentFragment692,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2816, col: 14, offset: 89280},
+																							pos: position{line: 2826, col: 14, offset: 89544},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2816, col: 14, offset: 89280},
+																								pos:        position{line: 2826, col: 14, offset: 89544},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7342,32 +7342,32 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1786, col: 5, offset: 57806},
+																					pos: position{line: 1796, col: 5, offset: 58070},
 																					run: (*parser).callonDocumentFragment695,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2888, col: 8, offset: 91085},
+																					pos: position{line: 2898, col: 8, offset: 91349},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2875, col: 12, offset: 90858},
+																							pos: position{line: 2885, col: 12, offset: 91122},
 																							run: (*parser).callonDocumentFragment697,
 																							expr: &choiceExpr{
-																								pos: position{line: 2875, col: 13, offset: 90859},
+																								pos: position{line: 2885, col: 13, offset: 91123},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 13, offset: 90859},
+																										pos:        position{line: 2885, col: 13, offset: 91123},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 20, offset: 90866},
+																										pos:        position{line: 2885, col: 20, offset: 91130},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 29, offset: 90875},
+																										pos:        position{line: 2885, col: 29, offset: 91139},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7376,9 +7376,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2885, col: 8, offset: 91035},
+																							pos: position{line: 2895, col: 8, offset: 91299},
 																							expr: &anyMatcher{
-																								line: 2885, col: 9, offset: 91036,
+																								line: 2895, col: 9, offset: 91300,
 																							},
 																						},
 																					},
@@ -7425,10 +7425,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 778, col: 8, offset: 25022},
 																		expr: &actionExpr{
-																			pos: position{line: 2866, col: 10, offset: 90687},
+																			pos: position{line: 2876, col: 10, offset: 90951},
 																			run: (*parser).callonDocumentFragment713,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2866, col: 10, offset: 90687},
+																				pos:        position{line: 2876, col: 10, offset: 90951},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7437,28 +7437,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2888, col: 8, offset: 91085},
+																		pos: position{line: 2898, col: 8, offset: 91349},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2875, col: 12, offset: 90858},
+																				pos: position{line: 2885, col: 12, offset: 91122},
 																				run: (*parser).callonDocumentFragment716,
 																				expr: &choiceExpr{
-																					pos: position{line: 2875, col: 13, offset: 90859},
+																					pos: position{line: 2885, col: 13, offset: 91123},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 13, offset: 90859},
+																							pos:        position{line: 2885, col: 13, offset: 91123},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 20, offset: 90866},
+																							pos:        position{line: 2885, col: 20, offset: 91130},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 29, offset: 90875},
+																							pos:        position{line: 2885, col: 29, offset: 91139},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7467,9 +7467,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2885, col: 8, offset: 91035},
+																				pos: position{line: 2895, col: 8, offset: 91299},
 																				expr: &anyMatcher{
-																					line: 2885, col: 9, offset: 91036,
+																					line: 2895, col: 9, offset: 91300,
 																				},
 																			},
 																		},
@@ -7517,10 +7517,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 778, col: 8, offset: 25022},
 																									expr: &actionExpr{
-																										pos: position{line: 2866, col: 10, offset: 90687},
+																										pos: position{line: 2876, col: 10, offset: 90951},
 																										run: (*parser).callonDocumentFragment735,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2866, col: 10, offset: 90687},
+																											pos:        position{line: 2876, col: 10, offset: 90951},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7529,28 +7529,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2888, col: 8, offset: 91085},
+																									pos: position{line: 2898, col: 8, offset: 91349},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2875, col: 12, offset: 90858},
+																											pos: position{line: 2885, col: 12, offset: 91122},
 																											run: (*parser).callonDocumentFragment738,
 																											expr: &choiceExpr{
-																												pos: position{line: 2875, col: 13, offset: 90859},
+																												pos: position{line: 2885, col: 13, offset: 91123},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 13, offset: 90859},
+																														pos:        position{line: 2885, col: 13, offset: 91123},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 20, offset: 90866},
+																														pos:        position{line: 2885, col: 20, offset: 91130},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 29, offset: 90875},
+																														pos:        position{line: 2885, col: 29, offset: 91139},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7559,9 +7559,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2885, col: 8, offset: 91035},
+																											pos: position{line: 2895, col: 8, offset: 91299},
 																											expr: &anyMatcher{
-																												line: 2885, col: 9, offset: 91036,
+																												line: 2895, col: 9, offset: 91300,
 																											},
 																										},
 																									},
@@ -7570,9 +7570,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2885, col: 8, offset: 91035},
+																						pos: position{line: 2895, col: 8, offset: 91299},
 																						expr: &anyMatcher{
-																							line: 2885, col: 9, offset: 91036,
+																							line: 2895, col: 9, offset: 91300,
 																						},
 																					},
 																				},
@@ -7588,21 +7588,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26161},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2883, col: 11, offset: 91021},
+																							pos: position{line: 2893, col: 11, offset: 91285},
 																							expr: &anyMatcher{
-																								line: 2883, col: 13, offset: 91023,
+																								line: 2893, col: 13, offset: 91287,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26236},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2812, col: 13, offset: 89213},
+																								pos: position{line: 2822, col: 13, offset: 89477},
 																								run: (*parser).callonDocumentFragment753,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2812, col: 13, offset: 89213},
+																									pos: position{line: 2822, col: 13, offset: 89477},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2812, col: 13, offset: 89213},
+																										pos:        position{line: 2822, col: 13, offset: 89477},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7612,28 +7612,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91085},
+																							pos: position{line: 2898, col: 8, offset: 91349},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90858},
+																									pos: position{line: 2885, col: 12, offset: 91122},
 																									run: (*parser).callonDocumentFragment757,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90859},
+																										pos: position{line: 2885, col: 13, offset: 91123},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90859},
+																												pos:        position{line: 2885, col: 13, offset: 91123},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90866},
+																												pos:        position{line: 2885, col: 20, offset: 91130},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90875},
+																												pos:        position{line: 2885, col: 29, offset: 91139},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7642,9 +7642,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91035},
+																									pos: position{line: 2895, col: 8, offset: 91299},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91036,
+																										line: 2895, col: 9, offset: 91300,
 																									},
 																								},
 																							},
@@ -7689,10 +7689,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 778, col: 8, offset: 25022},
 																					expr: &actionExpr{
-																						pos: position{line: 2866, col: 10, offset: 90687},
+																						pos: position{line: 2876, col: 10, offset: 90951},
 																						run: (*parser).callonDocumentFragment773,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2866, col: 10, offset: 90687},
+																							pos:        position{line: 2876, col: 10, offset: 90951},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7701,28 +7701,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2888, col: 8, offset: 91085},
+																					pos: position{line: 2898, col: 8, offset: 91349},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2875, col: 12, offset: 90858},
+																							pos: position{line: 2885, col: 12, offset: 91122},
 																							run: (*parser).callonDocumentFragment776,
 																							expr: &choiceExpr{
-																								pos: position{line: 2875, col: 13, offset: 90859},
+																								pos: position{line: 2885, col: 13, offset: 91123},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 13, offset: 90859},
+																										pos:        position{line: 2885, col: 13, offset: 91123},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 20, offset: 90866},
+																										pos:        position{line: 2885, col: 20, offset: 91130},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 29, offset: 90875},
+																										pos:        position{line: 2885, col: 29, offset: 91139},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7731,9 +7731,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2885, col: 8, offset: 91035},
+																							pos: position{line: 2895, col: 8, offset: 91299},
 																							expr: &anyMatcher{
-																								line: 2885, col: 9, offset: 91036,
+																								line: 2895, col: 9, offset: 91300,
 																							},
 																						},
 																					},
@@ -7742,9 +7742,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2885, col: 8, offset: 91035},
+																		pos: position{line: 2895, col: 8, offset: 91299},
 																		expr: &anyMatcher{
-																			line: 2885, col: 9, offset: 91036,
+																			line: 2895, col: 9, offset: 91300,
 																		},
 																	},
 																},
@@ -7800,10 +7800,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 792, col: 8, offset: 25519},
 																		expr: &actionExpr{
-																			pos: position{line: 2866, col: 10, offset: 90687},
+																			pos: position{line: 2876, col: 10, offset: 90951},
 																			run: (*parser).callonDocumentFragment797,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2866, col: 10, offset: 90687},
+																				pos:        position{line: 2876, col: 10, offset: 90951},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7812,28 +7812,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2888, col: 8, offset: 91085},
+																		pos: position{line: 2898, col: 8, offset: 91349},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2875, col: 12, offset: 90858},
+																				pos: position{line: 2885, col: 12, offset: 91122},
 																				run: (*parser).callonDocumentFragment800,
 																				expr: &choiceExpr{
-																					pos: position{line: 2875, col: 13, offset: 90859},
+																					pos: position{line: 2885, col: 13, offset: 91123},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 13, offset: 90859},
+																							pos:        position{line: 2885, col: 13, offset: 91123},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 20, offset: 90866},
+																							pos:        position{line: 2885, col: 20, offset: 91130},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 29, offset: 90875},
+																							pos:        position{line: 2885, col: 29, offset: 91139},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7842,9 +7842,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2885, col: 8, offset: 91035},
+																				pos: position{line: 2895, col: 8, offset: 91299},
 																				expr: &anyMatcher{
-																					line: 2885, col: 9, offset: 91036,
+																					line: 2895, col: 9, offset: 91300,
 																				},
 																			},
 																		},
@@ -7916,10 +7916,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 792, col: 8, offset: 25519},
 																												expr: &actionExpr{
-																													pos: position{line: 2866, col: 10, offset: 90687},
+																													pos: position{line: 2876, col: 10, offset: 90951},
 																													run: (*parser).callonDocumentFragment825,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2866, col: 10, offset: 90687},
+																														pos:        position{line: 2876, col: 10, offset: 90951},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7928,28 +7928,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2888, col: 8, offset: 91085},
+																												pos: position{line: 2898, col: 8, offset: 91349},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2875, col: 12, offset: 90858},
+																														pos: position{line: 2885, col: 12, offset: 91122},
 																														run: (*parser).callonDocumentFragment828,
 																														expr: &choiceExpr{
-																															pos: position{line: 2875, col: 13, offset: 90859},
+																															pos: position{line: 2885, col: 13, offset: 91123},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2875, col: 13, offset: 90859},
+																																	pos:        position{line: 2885, col: 13, offset: 91123},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2875, col: 20, offset: 90866},
+																																	pos:        position{line: 2885, col: 20, offset: 91130},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2875, col: 29, offset: 90875},
+																																	pos:        position{line: 2885, col: 29, offset: 91139},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7958,9 +7958,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2885, col: 8, offset: 91035},
+																														pos: position{line: 2895, col: 8, offset: 91299},
 																														expr: &anyMatcher{
-																															line: 2885, col: 9, offset: 91036,
+																															line: 2895, col: 9, offset: 91300,
 																														},
 																													},
 																												},
@@ -7976,9 +7976,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2885, col: 8, offset: 91035},
+																						pos: position{line: 2895, col: 8, offset: 91299},
 																						expr: &anyMatcher{
-																							line: 2885, col: 9, offset: 91036,
+																							line: 2895, col: 9, offset: 91300,
 																						},
 																					},
 																				},
@@ -7994,21 +7994,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26161},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2883, col: 11, offset: 91021},
+																							pos: position{line: 2893, col: 11, offset: 91285},
 																							expr: &anyMatcher{
-																								line: 2883, col: 13, offset: 91023,
+																								line: 2893, col: 13, offset: 91287,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26236},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2812, col: 13, offset: 89213},
+																								pos: position{line: 2822, col: 13, offset: 89477},
 																								run: (*parser).callonDocumentFragment844,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2812, col: 13, offset: 89213},
+																									pos: position{line: 2822, col: 13, offset: 89477},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2812, col: 13, offset: 89213},
+																										pos:        position{line: 2822, col: 13, offset: 89477},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8018,28 +8018,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91085},
+																							pos: position{line: 2898, col: 8, offset: 91349},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90858},
+																									pos: position{line: 2885, col: 12, offset: 91122},
 																									run: (*parser).callonDocumentFragment848,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90859},
+																										pos: position{line: 2885, col: 13, offset: 91123},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90859},
+																												pos:        position{line: 2885, col: 13, offset: 91123},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90866},
+																												pos:        position{line: 2885, col: 20, offset: 91130},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90875},
+																												pos:        position{line: 2885, col: 29, offset: 91139},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8048,9 +8048,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91035},
+																									pos: position{line: 2895, col: 8, offset: 91299},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91036,
+																										line: 2895, col: 9, offset: 91300,
 																									},
 																								},
 																							},
@@ -8115,10 +8115,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 792, col: 8, offset: 25519},
 																								expr: &actionExpr{
-																									pos: position{line: 2866, col: 10, offset: 90687},
+																									pos: position{line: 2876, col: 10, offset: 90951},
 																									run: (*parser).callonDocumentFragment869,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2866, col: 10, offset: 90687},
+																										pos:        position{line: 2876, col: 10, offset: 90951},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8127,28 +8127,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2888, col: 8, offset: 91085},
+																								pos: position{line: 2898, col: 8, offset: 91349},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2875, col: 12, offset: 90858},
+																										pos: position{line: 2885, col: 12, offset: 91122},
 																										run: (*parser).callonDocumentFragment872,
 																										expr: &choiceExpr{
-																											pos: position{line: 2875, col: 13, offset: 90859},
+																											pos: position{line: 2885, col: 13, offset: 91123},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 13, offset: 90859},
+																													pos:        position{line: 2885, col: 13, offset: 91123},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 20, offset: 90866},
+																													pos:        position{line: 2885, col: 20, offset: 91130},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 29, offset: 90875},
+																													pos:        position{line: 2885, col: 29, offset: 91139},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8157,9 +8157,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2885, col: 8, offset: 91035},
+																										pos: position{line: 2895, col: 8, offset: 91299},
 																										expr: &anyMatcher{
-																											line: 2885, col: 9, offset: 91036,
+																											line: 2895, col: 9, offset: 91300,
 																										},
 																									},
 																								},
@@ -8175,9 +8175,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2885, col: 8, offset: 91035},
+																		pos: position{line: 2895, col: 8, offset: 91299},
 																		expr: &anyMatcher{
-																			line: 2885, col: 9, offset: 91036,
+																			line: 2895, col: 9, offset: 91300,
 																		},
 																	},
 																},
@@ -8233,10 +8233,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 799, col: 8, offset: 25769},
 																		expr: &actionExpr{
-																			pos: position{line: 2866, col: 10, offset: 90687},
+																			pos: position{line: 2876, col: 10, offset: 90951},
 																			run: (*parser).callonDocumentFragment894,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2866, col: 10, offset: 90687},
+																				pos:        position{line: 2876, col: 10, offset: 90951},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8245,28 +8245,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2888, col: 8, offset: 91085},
+																		pos: position{line: 2898, col: 8, offset: 91349},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2875, col: 12, offset: 90858},
+																				pos: position{line: 2885, col: 12, offset: 91122},
 																				run: (*parser).callonDocumentFragment897,
 																				expr: &choiceExpr{
-																					pos: position{line: 2875, col: 13, offset: 90859},
+																					pos: position{line: 2885, col: 13, offset: 91123},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 13, offset: 90859},
+																							pos:        position{line: 2885, col: 13, offset: 91123},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 20, offset: 90866},
+																							pos:        position{line: 2885, col: 20, offset: 91130},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 29, offset: 90875},
+																							pos:        position{line: 2885, col: 29, offset: 91139},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8275,9 +8275,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2885, col: 8, offset: 91035},
+																				pos: position{line: 2895, col: 8, offset: 91299},
 																				expr: &anyMatcher{
-																					line: 2885, col: 9, offset: 91036,
+																					line: 2895, col: 9, offset: 91300,
 																				},
 																			},
 																		},
@@ -8349,10 +8349,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 799, col: 8, offset: 25769},
 																												expr: &actionExpr{
-																													pos: position{line: 2866, col: 10, offset: 90687},
+																													pos: position{line: 2876, col: 10, offset: 90951},
 																													run: (*parser).callonDocumentFragment922,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2866, col: 10, offset: 90687},
+																														pos:        position{line: 2876, col: 10, offset: 90951},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8361,28 +8361,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2888, col: 8, offset: 91085},
+																												pos: position{line: 2898, col: 8, offset: 91349},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2875, col: 12, offset: 90858},
+																														pos: position{line: 2885, col: 12, offset: 91122},
 																														run: (*parser).callonDocumentFragment925,
 																														expr: &choiceExpr{
-																															pos: position{line: 2875, col: 13, offset: 90859},
+																															pos: position{line: 2885, col: 13, offset: 91123},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2875, col: 13, offset: 90859},
+																																	pos:        position{line: 2885, col: 13, offset: 91123},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2875, col: 20, offset: 90866},
+																																	pos:        position{line: 2885, col: 20, offset: 91130},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2875, col: 29, offset: 90875},
+																																	pos:        position{line: 2885, col: 29, offset: 91139},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8391,9 +8391,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2885, col: 8, offset: 91035},
+																														pos: position{line: 2895, col: 8, offset: 91299},
 																														expr: &anyMatcher{
-																															line: 2885, col: 9, offset: 91036,
+																															line: 2895, col: 9, offset: 91300,
 																														},
 																													},
 																												},
@@ -8409,9 +8409,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2885, col: 8, offset: 91035},
+																						pos: position{line: 2895, col: 8, offset: 91299},
 																						expr: &anyMatcher{
-																							line: 2885, col: 9, offset: 91036,
+																							line: 2895, col: 9, offset: 91300,
 																						},
 																					},
 																				},
@@ -8427,21 +8427,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26161},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2883, col: 11, offset: 91021},
+																							pos: position{line: 2893, col: 11, offset: 91285},
 																							expr: &anyMatcher{
-																								line: 2883, col: 13, offset: 91023,
+																								line: 2893, col: 13, offset: 91287,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26236},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2812, col: 13, offset: 89213},
+																								pos: position{line: 2822, col: 13, offset: 89477},
 																								run: (*parser).callonDocumentFragment941,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2812, col: 13, offset: 89213},
+																									pos: position{line: 2822, col: 13, offset: 89477},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2812, col: 13, offset: 89213},
+																										pos:        position{line: 2822, col: 13, offset: 89477},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8451,28 +8451,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91085},
+																							pos: position{line: 2898, col: 8, offset: 91349},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90858},
+																									pos: position{line: 2885, col: 12, offset: 91122},
 																									run: (*parser).callonDocumentFragment945,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90859},
+																										pos: position{line: 2885, col: 13, offset: 91123},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90859},
+																												pos:        position{line: 2885, col: 13, offset: 91123},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90866},
+																												pos:        position{line: 2885, col: 20, offset: 91130},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90875},
+																												pos:        position{line: 2885, col: 29, offset: 91139},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8481,9 +8481,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91035},
+																									pos: position{line: 2895, col: 8, offset: 91299},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91036,
+																										line: 2895, col: 9, offset: 91300,
 																									},
 																								},
 																							},
@@ -8548,10 +8548,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 799, col: 8, offset: 25769},
 																								expr: &actionExpr{
-																									pos: position{line: 2866, col: 10, offset: 90687},
+																									pos: position{line: 2876, col: 10, offset: 90951},
 																									run: (*parser).callonDocumentFragment966,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2866, col: 10, offset: 90687},
+																										pos:        position{line: 2876, col: 10, offset: 90951},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8560,28 +8560,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2888, col: 8, offset: 91085},
+																								pos: position{line: 2898, col: 8, offset: 91349},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2875, col: 12, offset: 90858},
+																										pos: position{line: 2885, col: 12, offset: 91122},
 																										run: (*parser).callonDocumentFragment969,
 																										expr: &choiceExpr{
-																											pos: position{line: 2875, col: 13, offset: 90859},
+																											pos: position{line: 2885, col: 13, offset: 91123},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 13, offset: 90859},
+																													pos:        position{line: 2885, col: 13, offset: 91123},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 20, offset: 90866},
+																													pos:        position{line: 2885, col: 20, offset: 91130},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 29, offset: 90875},
+																													pos:        position{line: 2885, col: 29, offset: 91139},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8590,9 +8590,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2885, col: 8, offset: 91035},
+																										pos: position{line: 2895, col: 8, offset: 91299},
 																										expr: &anyMatcher{
-																											line: 2885, col: 9, offset: 91036,
+																											line: 2895, col: 9, offset: 91300,
 																										},
 																									},
 																								},
@@ -8608,9 +8608,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2885, col: 8, offset: 91035},
+																		pos: position{line: 2895, col: 8, offset: 91299},
 																		expr: &anyMatcher{
-																			line: 2885, col: 9, offset: 91036,
+																			line: 2895, col: 9, offset: 91300,
 																		},
 																	},
 																},
@@ -8666,10 +8666,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 806, col: 8, offset: 26015},
 																		expr: &actionExpr{
-																			pos: position{line: 2866, col: 10, offset: 90687},
+																			pos: position{line: 2876, col: 10, offset: 90951},
 																			run: (*parser).callonDocumentFragment991,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2866, col: 10, offset: 90687},
+																				pos:        position{line: 2876, col: 10, offset: 90951},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8678,28 +8678,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2888, col: 8, offset: 91085},
+																		pos: position{line: 2898, col: 8, offset: 91349},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2875, col: 12, offset: 90858},
+																				pos: position{line: 2885, col: 12, offset: 91122},
 																				run: (*parser).callonDocumentFragment994,
 																				expr: &choiceExpr{
-																					pos: position{line: 2875, col: 13, offset: 90859},
+																					pos: position{line: 2885, col: 13, offset: 91123},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 13, offset: 90859},
+																							pos:        position{line: 2885, col: 13, offset: 91123},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 20, offset: 90866},
+																							pos:        position{line: 2885, col: 20, offset: 91130},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 29, offset: 90875},
+																							pos:        position{line: 2885, col: 29, offset: 91139},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8708,9 +8708,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2885, col: 8, offset: 91035},
+																				pos: position{line: 2895, col: 8, offset: 91299},
 																				expr: &anyMatcher{
-																					line: 2885, col: 9, offset: 91036,
+																					line: 2895, col: 9, offset: 91300,
 																				},
 																			},
 																		},
@@ -8782,10 +8782,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 806, col: 8, offset: 26015},
 																												expr: &actionExpr{
-																													pos: position{line: 2866, col: 10, offset: 90687},
+																													pos: position{line: 2876, col: 10, offset: 90951},
 																													run: (*parser).callonDocumentFragment1019,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2866, col: 10, offset: 90687},
+																														pos:        position{line: 2876, col: 10, offset: 90951},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8794,28 +8794,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2888, col: 8, offset: 91085},
+																												pos: position{line: 2898, col: 8, offset: 91349},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2875, col: 12, offset: 90858},
+																														pos: position{line: 2885, col: 12, offset: 91122},
 																														run: (*parser).callonDocumentFragment1022,
 																														expr: &choiceExpr{
-																															pos: position{line: 2875, col: 13, offset: 90859},
+																															pos: position{line: 2885, col: 13, offset: 91123},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2875, col: 13, offset: 90859},
+																																	pos:        position{line: 2885, col: 13, offset: 91123},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2875, col: 20, offset: 90866},
+																																	pos:        position{line: 2885, col: 20, offset: 91130},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2875, col: 29, offset: 90875},
+																																	pos:        position{line: 2885, col: 29, offset: 91139},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8824,9 +8824,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2885, col: 8, offset: 91035},
+																														pos: position{line: 2895, col: 8, offset: 91299},
 																														expr: &anyMatcher{
-																															line: 2885, col: 9, offset: 91036,
+																															line: 2895, col: 9, offset: 91300,
 																														},
 																													},
 																												},
@@ -8842,9 +8842,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2885, col: 8, offset: 91035},
+																						pos: position{line: 2895, col: 8, offset: 91299},
 																						expr: &anyMatcher{
-																							line: 2885, col: 9, offset: 91036,
+																							line: 2895, col: 9, offset: 91300,
 																						},
 																					},
 																				},
@@ -8860,21 +8860,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26161},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2883, col: 11, offset: 91021},
+																							pos: position{line: 2893, col: 11, offset: 91285},
 																							expr: &anyMatcher{
-																								line: 2883, col: 13, offset: 91023,
+																								line: 2893, col: 13, offset: 91287,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26236},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2812, col: 13, offset: 89213},
+																								pos: position{line: 2822, col: 13, offset: 89477},
 																								run: (*parser).callonDocumentFragment1038,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2812, col: 13, offset: 89213},
+																									pos: position{line: 2822, col: 13, offset: 89477},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2812, col: 13, offset: 89213},
+																										pos:        position{line: 2822, col: 13, offset: 89477},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8884,28 +8884,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91085},
+																							pos: position{line: 2898, col: 8, offset: 91349},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90858},
+																									pos: position{line: 2885, col: 12, offset: 91122},
 																									run: (*parser).callonDocumentFragment1042,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90859},
+																										pos: position{line: 2885, col: 13, offset: 91123},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90859},
+																												pos:        position{line: 2885, col: 13, offset: 91123},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90866},
+																												pos:        position{line: 2885, col: 20, offset: 91130},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90875},
+																												pos:        position{line: 2885, col: 29, offset: 91139},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8914,9 +8914,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91035},
+																									pos: position{line: 2895, col: 8, offset: 91299},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91036,
+																										line: 2895, col: 9, offset: 91300,
 																									},
 																								},
 																							},
@@ -8981,10 +8981,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 806, col: 8, offset: 26015},
 																								expr: &actionExpr{
-																									pos: position{line: 2866, col: 10, offset: 90687},
+																									pos: position{line: 2876, col: 10, offset: 90951},
 																									run: (*parser).callonDocumentFragment1063,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2866, col: 10, offset: 90687},
+																										pos:        position{line: 2876, col: 10, offset: 90951},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8993,28 +8993,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2888, col: 8, offset: 91085},
+																								pos: position{line: 2898, col: 8, offset: 91349},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2875, col: 12, offset: 90858},
+																										pos: position{line: 2885, col: 12, offset: 91122},
 																										run: (*parser).callonDocumentFragment1066,
 																										expr: &choiceExpr{
-																											pos: position{line: 2875, col: 13, offset: 90859},
+																											pos: position{line: 2885, col: 13, offset: 91123},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 13, offset: 90859},
+																													pos:        position{line: 2885, col: 13, offset: 91123},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 20, offset: 90866},
+																													pos:        position{line: 2885, col: 20, offset: 91130},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 29, offset: 90875},
+																													pos:        position{line: 2885, col: 29, offset: 91139},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -9023,9 +9023,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2885, col: 8, offset: 91035},
+																										pos: position{line: 2895, col: 8, offset: 91299},
 																										expr: &anyMatcher{
-																											line: 2885, col: 9, offset: 91036,
+																											line: 2895, col: 9, offset: 91300,
 																										},
 																									},
 																								},
@@ -9041,9 +9041,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2885, col: 8, offset: 91035},
+																		pos: position{line: 2895, col: 8, offset: 91299},
 																		expr: &anyMatcher{
-																			line: 2885, col: 9, offset: 91036,
+																			line: 2895, col: 9, offset: 91300,
 																		},
 																	},
 																},
@@ -9054,52 +9054,52 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2711, col: 18, offset: 86282},
+											pos: position{line: 2721, col: 18, offset: 86546},
 											run: (*parser).callonDocumentFragment1076,
 											expr: &seqExpr{
-												pos: position{line: 2711, col: 18, offset: 86282},
+												pos: position{line: 2721, col: 18, offset: 86546},
 												exprs: []interface{}{
 													&choiceExpr{
-														pos: position{line: 2712, col: 9, offset: 86292},
+														pos: position{line: 2722, col: 9, offset: 86556},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2712, col: 9, offset: 86292},
+																pos:        position{line: 2722, col: 9, offset: 86556},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2713, col: 11, offset: 86328},
+																pos:        position{line: 2723, col: 11, offset: 86592},
 																val:        "***",
 																ignoreCase: false,
 																want:       "\"***\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2713, col: 19, offset: 86336},
+																pos:        position{line: 2723, col: 19, offset: 86600},
 																val:        "* * *",
 																ignoreCase: false,
 																want:       "\"* * *\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2713, col: 29, offset: 86346},
+																pos:        position{line: 2723, col: 29, offset: 86610},
 																val:        "---",
 																ignoreCase: false,
 																want:       "\"---\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2713, col: 37, offset: 86354},
+																pos:        position{line: 2723, col: 37, offset: 86618},
 																val:        "- - -",
 																ignoreCase: false,
 																want:       "\"- - -\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2713, col: 47, offset: 86364},
+																pos:        position{line: 2723, col: 47, offset: 86628},
 																val:        "___",
 																ignoreCase: false,
 																want:       "\"___\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2713, col: 55, offset: 86372},
+																pos:        position{line: 2723, col: 55, offset: 86636},
 																val:        "_ _ _",
 																ignoreCase: false,
 																want:       "\"_ _ _\"",
@@ -9107,12 +9107,12 @@ var g = &grammar{
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2714, col: 11, offset: 86418},
+														pos: position{line: 2724, col: 11, offset: 86682},
 														expr: &actionExpr{
-															pos: position{line: 2866, col: 10, offset: 90687},
+															pos: position{line: 2876, col: 10, offset: 90951},
 															run: (*parser).callonDocumentFragment1087,
 															expr: &charClassMatcher{
-																pos:        position{line: 2866, col: 10, offset: 90687},
+																pos:        position{line: 2876, col: 10, offset: 90951},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9121,28 +9121,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2888, col: 8, offset: 91085},
+														pos: position{line: 2898, col: 8, offset: 91349},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2875, col: 12, offset: 90858},
+																pos: position{line: 2885, col: 12, offset: 91122},
 																run: (*parser).callonDocumentFragment1090,
 																expr: &choiceExpr{
-																	pos: position{line: 2875, col: 13, offset: 90859},
+																	pos: position{line: 2885, col: 13, offset: 91123},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 13, offset: 90859},
+																			pos:        position{line: 2885, col: 13, offset: 91123},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 20, offset: 90866},
+																			pos:        position{line: 2885, col: 20, offset: 91130},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 29, offset: 90875},
+																			pos:        position{line: 2885, col: 29, offset: 91139},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9151,20 +9151,20 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2885, col: 8, offset: 91035},
+																pos: position{line: 2895, col: 8, offset: 91299},
 																expr: &anyMatcher{
-																	line: 2885, col: 9, offset: 91036,
+																	line: 2895, col: 9, offset: 91300,
 																},
 															},
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2714, col: 22, offset: 86429},
+														pos: position{line: 2724, col: 22, offset: 86693},
 														expr: &actionExpr{
-															pos: position{line: 2866, col: 10, offset: 90687},
+															pos: position{line: 2876, col: 10, offset: 90951},
 															run: (*parser).callonDocumentFragment1098,
 															expr: &charClassMatcher{
-																pos:        position{line: 2866, col: 10, offset: 90687},
+																pos:        position{line: 2876, col: 10, offset: 90951},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9173,28 +9173,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2888, col: 8, offset: 91085},
+														pos: position{line: 2898, col: 8, offset: 91349},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2875, col: 12, offset: 90858},
+																pos: position{line: 2885, col: 12, offset: 91122},
 																run: (*parser).callonDocumentFragment1101,
 																expr: &choiceExpr{
-																	pos: position{line: 2875, col: 13, offset: 90859},
+																	pos: position{line: 2885, col: 13, offset: 91123},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 13, offset: 90859},
+																			pos:        position{line: 2885, col: 13, offset: 91123},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 20, offset: 90866},
+																			pos:        position{line: 2885, col: 20, offset: 91130},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 29, offset: 90875},
+																			pos:        position{line: 2885, col: 29, offset: 91139},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9203,9 +9203,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2885, col: 8, offset: 91035},
+																pos: position{line: 2895, col: 8, offset: 91299},
 																expr: &anyMatcher{
-																	line: 2885, col: 9, offset: 91036,
+																	line: 2895, col: 9, offset: 91300,
 																},
 															},
 														},
@@ -9218,24 +9218,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2602, col: 5, offset: 83218},
+											pos: position{line: 2612, col: 5, offset: 83482},
 											run: (*parser).callonDocumentFragment1109,
 											expr: &seqExpr{
-												pos: position{line: 2602, col: 5, offset: 83218},
+												pos: position{line: 2612, col: 5, offset: 83482},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2608, col: 19, offset: 83375},
+														pos:        position{line: 2618, col: 19, offset: 83639},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2608, col: 26, offset: 83382},
+														pos: position{line: 2618, col: 26, offset: 83646},
 														expr: &actionExpr{
-															pos: position{line: 2866, col: 10, offset: 90687},
+															pos: position{line: 2876, col: 10, offset: 90951},
 															run: (*parser).callonDocumentFragment1113,
 															expr: &charClassMatcher{
-																pos:        position{line: 2866, col: 10, offset: 90687},
+																pos:        position{line: 2876, col: 10, offset: 90951},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9244,28 +9244,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2888, col: 8, offset: 91085},
+														pos: position{line: 2898, col: 8, offset: 91349},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2875, col: 12, offset: 90858},
+																pos: position{line: 2885, col: 12, offset: 91122},
 																run: (*parser).callonDocumentFragment1116,
 																expr: &choiceExpr{
-																	pos: position{line: 2875, col: 13, offset: 90859},
+																	pos: position{line: 2885, col: 13, offset: 91123},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 13, offset: 90859},
+																			pos:        position{line: 2885, col: 13, offset: 91123},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 20, offset: 90866},
+																			pos:        position{line: 2885, col: 20, offset: 91130},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 29, offset: 90875},
+																			pos:        position{line: 2885, col: 29, offset: 91139},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9274,20 +9274,20 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2885, col: 8, offset: 91035},
+																pos: position{line: 2895, col: 8, offset: 91299},
 																expr: &anyMatcher{
-																	line: 2885, col: 9, offset: 91036,
+																	line: 2895, col: 9, offset: 91300,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2603, col: 5, offset: 83242},
+														pos:   position{line: 2613, col: 5, offset: 83506},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2603, col: 11, offset: 83248},
+															pos: position{line: 2613, col: 11, offset: 83512},
 															expr: &choiceExpr{
-																pos: position{line: 2603, col: 12, offset: 83249},
+																pos: position{line: 2613, col: 12, offset: 83513},
 																alternatives: []interface{}{
 																	&actionExpr{
 																		pos: position{line: 677, col: 14, offset: 21557},
@@ -9296,18 +9296,18 @@ var g = &grammar{
 																			pos: position{line: 677, col: 14, offset: 21557},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2883, col: 11, offset: 91021},
+																					pos: position{line: 2893, col: 11, offset: 91285},
 																					expr: &anyMatcher{
-																						line: 2883, col: 13, offset: 91023,
+																						line: 2893, col: 13, offset: 91287,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21564},
 																					expr: &actionExpr{
-																						pos: position{line: 2866, col: 10, offset: 90687},
+																						pos: position{line: 2876, col: 10, offset: 90951},
 																						run: (*parser).callonDocumentFragment1131,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2866, col: 10, offset: 90687},
+																							pos:        position{line: 2876, col: 10, offset: 90951},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9316,28 +9316,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2888, col: 8, offset: 91085},
+																					pos: position{line: 2898, col: 8, offset: 91349},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2875, col: 12, offset: 90858},
+																							pos: position{line: 2885, col: 12, offset: 91122},
 																							run: (*parser).callonDocumentFragment1134,
 																							expr: &choiceExpr{
-																								pos: position{line: 2875, col: 13, offset: 90859},
+																								pos: position{line: 2885, col: 13, offset: 91123},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 13, offset: 90859},
+																										pos:        position{line: 2885, col: 13, offset: 91123},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 20, offset: 90866},
+																										pos:        position{line: 2885, col: 20, offset: 91130},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 29, offset: 90875},
+																										pos:        position{line: 2885, col: 29, offset: 91139},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9346,9 +9346,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2885, col: 8, offset: 91035},
+																							pos: position{line: 2895, col: 8, offset: 91299},
 																							expr: &anyMatcher{
-																								line: 2885, col: 9, offset: 91036,
+																								line: 2895, col: 9, offset: 91300,
 																							},
 																						},
 																					},
@@ -9357,32 +9357,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2615, col: 5, offset: 83494},
+																		pos: position{line: 2625, col: 5, offset: 83758},
 																		run: (*parser).callonDocumentFragment1141,
 																		expr: &seqExpr{
-																			pos: position{line: 2615, col: 5, offset: 83494},
+																			pos: position{line: 2625, col: 5, offset: 83758},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2615, col: 5, offset: 83494},
+																					pos: position{line: 2625, col: 5, offset: 83758},
 																					expr: &choiceExpr{
-																						pos: position{line: 2612, col: 22, offset: 83455},
+																						pos: position{line: 2622, col: 22, offset: 83719},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2608, col: 19, offset: 83375},
+																								pos: position{line: 2618, col: 19, offset: 83639},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2608, col: 19, offset: 83375},
+																										pos:        position{line: 2618, col: 19, offset: 83639},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2608, col: 26, offset: 83382},
+																										pos: position{line: 2618, col: 26, offset: 83646},
 																										expr: &actionExpr{
-																											pos: position{line: 2866, col: 10, offset: 90687},
+																											pos: position{line: 2876, col: 10, offset: 90951},
 																											run: (*parser).callonDocumentFragment1148,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2866, col: 10, offset: 90687},
+																												pos:        position{line: 2876, col: 10, offset: 90951},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9391,28 +9391,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2888, col: 8, offset: 91085},
+																										pos: position{line: 2898, col: 8, offset: 91349},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2875, col: 12, offset: 90858},
+																												pos: position{line: 2885, col: 12, offset: 91122},
 																												run: (*parser).callonDocumentFragment1151,
 																												expr: &choiceExpr{
-																													pos: position{line: 2875, col: 13, offset: 90859},
+																													pos: position{line: 2885, col: 13, offset: 91123},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2875, col: 13, offset: 90859},
+																															pos:        position{line: 2885, col: 13, offset: 91123},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2875, col: 20, offset: 90866},
+																															pos:        position{line: 2885, col: 20, offset: 91130},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2875, col: 29, offset: 90875},
+																															pos:        position{line: 2885, col: 29, offset: 91139},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9421,9 +9421,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2885, col: 8, offset: 91035},
+																												pos: position{line: 2895, col: 8, offset: 91299},
 																												expr: &anyMatcher{
-																													line: 2885, col: 9, offset: 91036,
+																													line: 2895, col: 9, offset: 91300,
 																												},
 																											},
 																										},
@@ -9431,59 +9431,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2885, col: 8, offset: 91035},
+																								pos: position{line: 2895, col: 8, offset: 91299},
 																								expr: &anyMatcher{
-																									line: 2885, col: 9, offset: 91036,
+																									line: 2895, col: 9, offset: 91300,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2616, col: 5, offset: 83517},
+																					pos:   position{line: 2626, col: 5, offset: 83781},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2617, col: 9, offset: 83535},
+																						pos: position{line: 2627, col: 9, offset: 83799},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2617, col: 10, offset: 83536},
+																								pos: position{line: 2627, col: 10, offset: 83800},
 																								run: (*parser).callonDocumentFragment1162,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2617, col: 10, offset: 83536},
+																									pos:   position{line: 2627, col: 10, offset: 83800},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2617, col: 17, offset: 83543},
+																										pos: position{line: 2627, col: 17, offset: 83807},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2625, col: 21, offset: 83739},
+																												pos: position{line: 2635, col: 21, offset: 84003},
 																												run: (*parser).callonDocumentFragment1165,
 																												expr: &seqExpr{
-																													pos: position{line: 2625, col: 21, offset: 83739},
+																													pos: position{line: 2635, col: 21, offset: 84003},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2625, col: 21, offset: 83739},
+																															pos:   position{line: 2635, col: 21, offset: 84003},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2625, col: 27, offset: 83745},
+																																pos: position{line: 2635, col: 27, offset: 84009},
 																																expr: &actionExpr{
-																																	pos: position{line: 2630, col: 5, offset: 83820},
+																																	pos: position{line: 2640, col: 5, offset: 84084},
 																																	run: (*parser).callonDocumentFragment1169,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2630, col: 5, offset: 83820},
+																																		pos: position{line: 2640, col: 5, offset: 84084},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2630, col: 5, offset: 83820},
+																																				pos:        position{line: 2640, col: 5, offset: 84084},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2630, col: 9, offset: 83824},
+																																				pos: position{line: 2640, col: 9, offset: 84088},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2866, col: 10, offset: 90687},
+																																					pos: position{line: 2876, col: 10, offset: 90951},
 																																					run: (*parser).callonDocumentFragment1173,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2866, col: 10, offset: 90687},
+																																						pos:        position{line: 2876, col: 10, offset: 90951},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9492,21 +9492,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2630, col: 16, offset: 83831},
+																																				pos:   position{line: 2640, col: 16, offset: 84095},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2636, col: 5, offset: 84031},
+																																					pos: position{line: 2646, col: 5, offset: 84295},
 																																					run: (*parser).callonDocumentFragment1176,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2636, col: 5, offset: 84031},
+																																						pos:   position{line: 2646, col: 5, offset: 84295},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2636, col: 14, offset: 84040},
+																																							pos: position{line: 2646, col: 14, offset: 84304},
 																																							run: (*parser).callonDocumentFragment1178,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2636, col: 14, offset: 84040},
+																																								pos: position{line: 2646, col: 14, offset: 84304},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2636, col: 14, offset: 84040},
+																																									pos:        position{line: 2646, col: 14, offset: 84304},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9523,28 +9523,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2888, col: 8, offset: 91085},
+																															pos: position{line: 2898, col: 8, offset: 91349},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2875, col: 12, offset: 90858},
+																																	pos: position{line: 2885, col: 12, offset: 91122},
 																																	run: (*parser).callonDocumentFragment1182,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2875, col: 13, offset: 90859},
+																																		pos: position{line: 2885, col: 13, offset: 91123},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2875, col: 13, offset: 90859},
+																																				pos:        position{line: 2885, col: 13, offset: 91123},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2875, col: 20, offset: 90866},
+																																				pos:        position{line: 2885, col: 20, offset: 91130},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2875, col: 29, offset: 90875},
+																																				pos:        position{line: 2885, col: 29, offset: 91139},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9553,9 +9553,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2885, col: 8, offset: 91035},
+																																	pos: position{line: 2895, col: 8, offset: 91299},
 																																	expr: &anyMatcher{
-																																		line: 2885, col: 9, offset: 91036,
+																																		line: 2895, col: 9, offset: 91300,
 																																	},
 																																},
 																															},
@@ -9564,40 +9564,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2642, col: 24, offset: 84176},
+																												pos: position{line: 2652, col: 24, offset: 84440},
 																												run: (*parser).callonDocumentFragment1189,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2642, col: 24, offset: 84176},
+																													pos:   position{line: 2652, col: 24, offset: 84440},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2642, col: 30, offset: 84182},
+																														pos: position{line: 2652, col: 30, offset: 84446},
 																														expr: &actionExpr{
-																															pos: position{line: 2647, col: 5, offset: 84258},
+																															pos: position{line: 2657, col: 5, offset: 84522},
 																															run: (*parser).callonDocumentFragment1192,
 																															expr: &seqExpr{
-																																pos: position{line: 2647, col: 5, offset: 84258},
+																																pos: position{line: 2657, col: 5, offset: 84522},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2647, col: 5, offset: 84258},
+																																		pos: position{line: 2657, col: 5, offset: 84522},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2612, col: 22, offset: 83455},
+																																			pos: position{line: 2622, col: 22, offset: 83719},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2608, col: 19, offset: 83375},
+																																					pos: position{line: 2618, col: 19, offset: 83639},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2608, col: 19, offset: 83375},
+																																							pos:        position{line: 2618, col: 19, offset: 83639},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2608, col: 26, offset: 83382},
+																																							pos: position{line: 2618, col: 26, offset: 83646},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2866, col: 10, offset: 90687},
+																																								pos: position{line: 2876, col: 10, offset: 90951},
 																																								run: (*parser).callonDocumentFragment1199,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2866, col: 10, offset: 90687},
+																																									pos:        position{line: 2876, col: 10, offset: 90951},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9606,28 +9606,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2888, col: 8, offset: 91085},
+																																							pos: position{line: 2898, col: 8, offset: 91349},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2875, col: 12, offset: 90858},
+																																									pos: position{line: 2885, col: 12, offset: 91122},
 																																									run: (*parser).callonDocumentFragment1202,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2875, col: 13, offset: 90859},
+																																										pos: position{line: 2885, col: 13, offset: 91123},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2875, col: 13, offset: 90859},
+																																												pos:        position{line: 2885, col: 13, offset: 91123},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2875, col: 20, offset: 90866},
+																																												pos:        position{line: 2885, col: 20, offset: 91130},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2875, col: 29, offset: 90875},
+																																												pos:        position{line: 2885, col: 29, offset: 91139},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9636,9 +9636,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2885, col: 8, offset: 91035},
+																																									pos: position{line: 2895, col: 8, offset: 91299},
 																																									expr: &anyMatcher{
-																																										line: 2885, col: 9, offset: 91036,
+																																										line: 2895, col: 9, offset: 91300,
 																																									},
 																																								},
 																																							},
@@ -9646,16 +9646,16 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2885, col: 8, offset: 91035},
+																																					pos: position{line: 2895, col: 8, offset: 91299},
 																																					expr: &anyMatcher{
-																																						line: 2885, col: 9, offset: 91036,
+																																						line: 2895, col: 9, offset: 91300,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2648, col: 5, offset: 84281},
+																																		pos: position{line: 2658, col: 5, offset: 84545},
 																																		expr: &actionExpr{
 																																			pos: position{line: 677, col: 14, offset: 21557},
 																																			run: (*parser).callonDocumentFragment1212,
@@ -9663,18 +9663,18 @@ var g = &grammar{
 																																				pos: position{line: 677, col: 14, offset: 21557},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2883, col: 11, offset: 91021},
+																																						pos: position{line: 2893, col: 11, offset: 91285},
 																																						expr: &anyMatcher{
-																																							line: 2883, col: 13, offset: 91023,
+																																							line: 2893, col: 13, offset: 91287,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
 																																						pos: position{line: 677, col: 21, offset: 21564},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2866, col: 10, offset: 90687},
+																																							pos: position{line: 2876, col: 10, offset: 90951},
 																																							run: (*parser).callonDocumentFragment1217,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2866, col: 10, offset: 90687},
+																																								pos:        position{line: 2876, col: 10, offset: 90951},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9683,28 +9683,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2888, col: 8, offset: 91085},
+																																						pos: position{line: 2898, col: 8, offset: 91349},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2875, col: 12, offset: 90858},
+																																								pos: position{line: 2885, col: 12, offset: 91122},
 																																								run: (*parser).callonDocumentFragment1220,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2875, col: 13, offset: 90859},
+																																									pos: position{line: 2885, col: 13, offset: 91123},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2875, col: 13, offset: 90859},
+																																											pos:        position{line: 2885, col: 13, offset: 91123},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2875, col: 20, offset: 90866},
+																																											pos:        position{line: 2885, col: 20, offset: 91130},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2875, col: 29, offset: 90875},
+																																											pos:        position{line: 2885, col: 29, offset: 91139},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9713,9 +9713,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2885, col: 8, offset: 91035},
+																																								pos: position{line: 2895, col: 8, offset: 91299},
 																																								expr: &anyMatcher{
-																																									line: 2885, col: 9, offset: 91036,
+																																									line: 2895, col: 9, offset: 91300,
 																																								},
 																																							},
 																																						},
@@ -9725,17 +9725,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2649, col: 5, offset: 84296},
+																																		pos:   position{line: 2659, col: 5, offset: 84560},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2649, col: 12, offset: 84303},
+																																			pos: position{line: 2659, col: 12, offset: 84567},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2666, col: 20, offset: 84767},
+																																				pos: position{line: 2676, col: 20, offset: 85031},
 																																				run: (*parser).callonDocumentFragment1229,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2666, col: 20, offset: 84767},
+																																					pos: position{line: 2676, col: 20, offset: 85031},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2666, col: 20, offset: 84767},
+																																						pos:        position{line: 2676, col: 20, offset: 85031},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9746,18 +9746,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2649, col: 31, offset: 84322},
+																																		pos:        position{line: 2659, col: 31, offset: 84586},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2649, col: 35, offset: 84326},
+																																		pos: position{line: 2659, col: 35, offset: 84590},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2866, col: 10, offset: 90687},
+																																			pos: position{line: 2876, col: 10, offset: 90951},
 																																			run: (*parser).callonDocumentFragment1234,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2866, col: 10, offset: 90687},
+																																				pos:        position{line: 2876, col: 10, offset: 90951},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9766,27 +9766,27 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2649, col: 42, offset: 84333},
+																																		pos: position{line: 2659, col: 42, offset: 84597},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2875, col: 12, offset: 90858},
+																																			pos: position{line: 2885, col: 12, offset: 91122},
 																																			run: (*parser).callonDocumentFragment1237,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2875, col: 13, offset: 90859},
+																																				pos: position{line: 2885, col: 13, offset: 91123},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2875, col: 13, offset: 90859},
+																																						pos:        position{line: 2885, col: 13, offset: 91123},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2875, col: 20, offset: 90866},
+																																						pos:        position{line: 2885, col: 20, offset: 91130},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2875, col: 29, offset: 90875},
+																																						pos:        position{line: 2885, col: 29, offset: 91139},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9796,37 +9796,37 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2649, col: 51, offset: 84342},
+																																		pos:   position{line: 2659, col: 51, offset: 84606},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2655, col: 5, offset: 84501},
+																																			pos: position{line: 2665, col: 5, offset: 84765},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2656, col: 9, offset: 84511},
+																																				pos: position{line: 2666, col: 9, offset: 84775},
 																																				run: (*parser).callonDocumentFragment1244,
 																																				expr: &seqExpr{
-																																					pos: position{line: 2656, col: 9, offset: 84511},
+																																					pos: position{line: 2666, col: 9, offset: 84775},
 																																					exprs: []interface{}{
 																																						&notExpr{
-																																							pos: position{line: 2656, col: 9, offset: 84511},
+																																							pos: position{line: 2666, col: 9, offset: 84775},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2612, col: 22, offset: 83455},
+																																								pos: position{line: 2622, col: 22, offset: 83719},
 																																								alternatives: []interface{}{
 																																									&seqExpr{
-																																										pos: position{line: 2608, col: 19, offset: 83375},
+																																										pos: position{line: 2618, col: 19, offset: 83639},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2608, col: 19, offset: 83375},
+																																												pos:        position{line: 2618, col: 19, offset: 83639},
 																																												val:        "|===",
 																																												ignoreCase: false,
 																																												want:       "\"|===\"",
 																																											},
 																																											&zeroOrMoreExpr{
-																																												pos: position{line: 2608, col: 26, offset: 83382},
+																																												pos: position{line: 2618, col: 26, offset: 83646},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2866, col: 10, offset: 90687},
+																																													pos: position{line: 2876, col: 10, offset: 90951},
 																																													run: (*parser).callonDocumentFragment1251,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2866, col: 10, offset: 90687},
+																																														pos:        position{line: 2876, col: 10, offset: 90951},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -9835,28 +9835,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2888, col: 8, offset: 91085},
+																																												pos: position{line: 2898, col: 8, offset: 91349},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2875, col: 12, offset: 90858},
+																																														pos: position{line: 2885, col: 12, offset: 91122},
 																																														run: (*parser).callonDocumentFragment1254,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2875, col: 13, offset: 90859},
+																																															pos: position{line: 2885, col: 13, offset: 91123},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2875, col: 13, offset: 90859},
+																																																	pos:        position{line: 2885, col: 13, offset: 91123},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2875, col: 20, offset: 90866},
+																																																	pos:        position{line: 2885, col: 20, offset: 91130},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2875, col: 29, offset: 90875},
+																																																	pos:        position{line: 2885, col: 29, offset: 91139},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -9865,9 +9865,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2885, col: 8, offset: 91035},
+																																														pos: position{line: 2895, col: 8, offset: 91299},
 																																														expr: &anyMatcher{
-																																															line: 2885, col: 9, offset: 91036,
+																																															line: 2895, col: 9, offset: 91300,
 																																														},
 																																													},
 																																												},
@@ -9875,16 +9875,16 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2885, col: 8, offset: 91035},
+																																										pos: position{line: 2895, col: 8, offset: 91299},
 																																										expr: &anyMatcher{
-																																											line: 2885, col: 9, offset: 91036,
+																																											line: 2895, col: 9, offset: 91300,
 																																										},
 																																									},
 																																								},
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2657, col: 9, offset: 84538},
+																																							pos: position{line: 2667, col: 9, offset: 84802},
 																																							expr: &actionExpr{
 																																								pos: position{line: 677, col: 14, offset: 21557},
 																																								run: (*parser).callonDocumentFragment1264,
@@ -9892,18 +9892,18 @@ var g = &grammar{
 																																									pos: position{line: 677, col: 14, offset: 21557},
 																																									exprs: []interface{}{
 																																										&andExpr{
-																																											pos: position{line: 2883, col: 11, offset: 91021},
+																																											pos: position{line: 2893, col: 11, offset: 91285},
 																																											expr: &anyMatcher{
-																																												line: 2883, col: 13, offset: 91023,
+																																												line: 2893, col: 13, offset: 91287,
 																																											},
 																																										},
 																																										&zeroOrMoreExpr{
 																																											pos: position{line: 677, col: 21, offset: 21564},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2866, col: 10, offset: 90687},
+																																												pos: position{line: 2876, col: 10, offset: 90951},
 																																												run: (*parser).callonDocumentFragment1269,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2866, col: 10, offset: 90687},
+																																													pos:        position{line: 2876, col: 10, offset: 90951},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -9912,28 +9912,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2888, col: 8, offset: 91085},
+																																											pos: position{line: 2898, col: 8, offset: 91349},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2875, col: 12, offset: 90858},
+																																													pos: position{line: 2885, col: 12, offset: 91122},
 																																													run: (*parser).callonDocumentFragment1272,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2875, col: 13, offset: 90859},
+																																														pos: position{line: 2885, col: 13, offset: 91123},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2875, col: 13, offset: 90859},
+																																																pos:        position{line: 2885, col: 13, offset: 91123},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2875, col: 20, offset: 90866},
+																																																pos:        position{line: 2885, col: 20, offset: 91130},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2875, col: 29, offset: 90875},
+																																																pos:        position{line: 2885, col: 29, offset: 91139},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -9942,9 +9942,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2885, col: 8, offset: 91035},
+																																													pos: position{line: 2895, col: 8, offset: 91299},
 																																													expr: &anyMatcher{
-																																														line: 2885, col: 9, offset: 91036,
+																																														line: 2895, col: 9, offset: 91300,
 																																													},
 																																												},
 																																											},
@@ -9954,22 +9954,22 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2658, col: 9, offset: 84557},
+																																							pos: position{line: 2668, col: 9, offset: 84821},
 																																							expr: &seqExpr{
-																																								pos: position{line: 2658, col: 11, offset: 84559},
+																																								pos: position{line: 2668, col: 11, offset: 84823},
 																																								exprs: []interface{}{
 																																									&labeledExpr{
-																																										pos:   position{line: 2658, col: 11, offset: 84559},
+																																										pos:   position{line: 2668, col: 11, offset: 84823},
 																																										label: "format",
 																																										expr: &zeroOrOneExpr{
-																																											pos: position{line: 2658, col: 18, offset: 84566},
+																																											pos: position{line: 2668, col: 18, offset: 84830},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2666, col: 20, offset: 84767},
+																																												pos: position{line: 2676, col: 20, offset: 85031},
 																																												run: (*parser).callonDocumentFragment1283,
 																																												expr: &zeroOrMoreExpr{
-																																													pos: position{line: 2666, col: 20, offset: 84767},
+																																													pos: position{line: 2676, col: 20, offset: 85031},
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2666, col: 20, offset: 84767},
+																																														pos:        position{line: 2676, col: 20, offset: 85031},
 																																														val:        "[^ |\\r\\n]",
 																																														chars:      []rune{' ', '|', '\r', '\n'},
 																																														ignoreCase: false,
@@ -9980,7 +9980,7 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2658, col: 37, offset: 84585},
+																																										pos:        position{line: 2668, col: 37, offset: 84849},
 																																										val:        "|",
 																																										ignoreCase: false,
 																																										want:       "\"|\"",
@@ -9989,15 +9989,15 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&labeledExpr{
-																																							pos:   position{line: 2659, col: 9, offset: 84598},
+																																							pos:   position{line: 2669, col: 9, offset: 84862},
 																																							label: "content",
 																																							expr: &actionExpr{
-																																								pos: position{line: 2659, col: 18, offset: 84607},
+																																								pos: position{line: 2669, col: 18, offset: 84871},
 																																								run: (*parser).callonDocumentFragment1288,
 																																								expr: &zeroOrMoreExpr{
-																																									pos: position{line: 2659, col: 18, offset: 84607},
+																																									pos: position{line: 2669, col: 18, offset: 84871},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2659, col: 18, offset: 84607},
+																																										pos:        position{line: 2669, col: 18, offset: 84871},
 																																										val:        "[^|\\r\\n]",
 																																										chars:      []rune{'|', '\r', '\n'},
 																																										ignoreCase: false,
@@ -10007,30 +10007,30 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&zeroOrOneExpr{
-																																							pos: position{line: 2661, col: 12, offset: 84669},
+																																							pos: position{line: 2671, col: 12, offset: 84933},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2888, col: 8, offset: 91085},
+																																								pos: position{line: 2898, col: 8, offset: 91349},
 																																								alternatives: []interface{}{
 																																									&actionExpr{
-																																										pos: position{line: 2875, col: 12, offset: 90858},
+																																										pos: position{line: 2885, col: 12, offset: 91122},
 																																										run: (*parser).callonDocumentFragment1293,
 																																										expr: &choiceExpr{
-																																											pos: position{line: 2875, col: 13, offset: 90859},
+																																											pos: position{line: 2885, col: 13, offset: 91123},
 																																											alternatives: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2875, col: 13, offset: 90859},
+																																													pos:        position{line: 2885, col: 13, offset: 91123},
 																																													val:        "\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2875, col: 20, offset: 90866},
+																																													pos:        position{line: 2885, col: 20, offset: 91130},
 																																													val:        "\r\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2875, col: 29, offset: 90875},
+																																													pos:        position{line: 2885, col: 29, offset: 91139},
 																																													val:        "\r",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\"",
@@ -10039,9 +10039,9 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2885, col: 8, offset: 91035},
+																																										pos: position{line: 2895, col: 8, offset: 91299},
 																																										expr: &anyMatcher{
-																																											line: 2885, col: 9, offset: 91036,
+																																											line: 2895, col: 9, offset: 91300,
 																																										},
 																																									},
 																																								},
@@ -10069,18 +10069,18 @@ var g = &grammar{
 																									pos: position{line: 677, col: 14, offset: 21557},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2883, col: 11, offset: 91021},
+																											pos: position{line: 2893, col: 11, offset: 91285},
 																											expr: &anyMatcher{
-																												line: 2883, col: 13, offset: 91023,
+																												line: 2893, col: 13, offset: 91287,
 																											},
 																										},
 																										&zeroOrMoreExpr{
 																											pos: position{line: 677, col: 21, offset: 21564},
 																											expr: &actionExpr{
-																												pos: position{line: 2866, col: 10, offset: 90687},
+																												pos: position{line: 2876, col: 10, offset: 90951},
 																												run: (*parser).callonDocumentFragment1305,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2866, col: 10, offset: 90687},
+																													pos:        position{line: 2876, col: 10, offset: 90951},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -10089,28 +10089,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2888, col: 8, offset: 91085},
+																											pos: position{line: 2898, col: 8, offset: 91349},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2875, col: 12, offset: 90858},
+																													pos: position{line: 2885, col: 12, offset: 91122},
 																													run: (*parser).callonDocumentFragment1308,
 																													expr: &choiceExpr{
-																														pos: position{line: 2875, col: 13, offset: 90859},
+																														pos: position{line: 2885, col: 13, offset: 91123},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 13, offset: 90859},
+																																pos:        position{line: 2885, col: 13, offset: 91123},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 20, offset: 90866},
+																																pos:        position{line: 2885, col: 20, offset: 91130},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 29, offset: 90875},
+																																pos:        position{line: 2885, col: 29, offset: 91139},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -10119,9 +10119,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2885, col: 8, offset: 91035},
+																													pos: position{line: 2895, col: 8, offset: 91299},
 																													expr: &anyMatcher{
-																														line: 2885, col: 9, offset: 91036,
+																														line: 2895, col: 9, offset: 91300,
 																													},
 																												},
 																											},
@@ -10140,24 +10140,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2612, col: 22, offset: 83455},
+														pos: position{line: 2622, col: 22, offset: 83719},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2608, col: 19, offset: 83375},
+																pos: position{line: 2618, col: 19, offset: 83639},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2608, col: 19, offset: 83375},
+																		pos:        position{line: 2618, col: 19, offset: 83639},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2608, col: 26, offset: 83382},
+																		pos: position{line: 2618, col: 26, offset: 83646},
 																		expr: &actionExpr{
-																			pos: position{line: 2866, col: 10, offset: 90687},
+																			pos: position{line: 2876, col: 10, offset: 90951},
 																			run: (*parser).callonDocumentFragment1319,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2866, col: 10, offset: 90687},
+																				pos:        position{line: 2876, col: 10, offset: 90951},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10166,28 +10166,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2888, col: 8, offset: 91085},
+																		pos: position{line: 2898, col: 8, offset: 91349},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2875, col: 12, offset: 90858},
+																				pos: position{line: 2885, col: 12, offset: 91122},
 																				run: (*parser).callonDocumentFragment1322,
 																				expr: &choiceExpr{
-																					pos: position{line: 2875, col: 13, offset: 90859},
+																					pos: position{line: 2885, col: 13, offset: 91123},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 13, offset: 90859},
+																							pos:        position{line: 2885, col: 13, offset: 91123},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 20, offset: 90866},
+																							pos:        position{line: 2885, col: 20, offset: 91130},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 29, offset: 90875},
+																							pos:        position{line: 2885, col: 29, offset: 91139},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10196,9 +10196,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2885, col: 8, offset: 91035},
+																				pos: position{line: 2895, col: 8, offset: 91299},
 																				expr: &anyMatcher{
-																					line: 2885, col: 9, offset: 91036,
+																					line: 2895, col: 9, offset: 91300,
 																				},
 																			},
 																		},
@@ -10206,9 +10206,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2885, col: 8, offset: 91035},
+																pos: position{line: 2895, col: 8, offset: 91299},
 																expr: &anyMatcher{
-																	line: 2885, col: 9, offset: 91036,
+																	line: 2895, col: 9, offset: 91300,
 																},
 															},
 														},
@@ -10217,36 +10217,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2473, col: 22, offset: 79594},
+											pos: position{line: 2483, col: 22, offset: 79858},
 											run: (*parser).callonDocumentFragment1331,
 											expr: &seqExpr{
-												pos: position{line: 2473, col: 22, offset: 79594},
+												pos: position{line: 2483, col: 22, offset: 79858},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2478, col: 31, offset: 79815},
+														pos:        position{line: 2488, col: 31, offset: 80079},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2478, col: 36, offset: 79820},
+														pos: position{line: 2488, col: 36, offset: 80084},
 														expr: &litMatcher{
-															pos:        position{line: 2478, col: 37, offset: 79821},
+															pos:        position{line: 2488, col: 37, offset: 80085},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2473, col: 49, offset: 79621},
+														pos:   position{line: 2483, col: 49, offset: 79885},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2812, col: 13, offset: 89213},
+															pos: position{line: 2822, col: 13, offset: 89477},
 															run: (*parser).callonDocumentFragment1337,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2812, col: 13, offset: 89213},
+																pos: position{line: 2822, col: 13, offset: 89477},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2812, col: 13, offset: 89213},
+																	pos:        position{line: 2822, col: 13, offset: 89477},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10256,28 +10256,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2888, col: 8, offset: 91085},
+														pos: position{line: 2898, col: 8, offset: 91349},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2875, col: 12, offset: 90858},
+																pos: position{line: 2885, col: 12, offset: 91122},
 																run: (*parser).callonDocumentFragment1341,
 																expr: &choiceExpr{
-																	pos: position{line: 2875, col: 13, offset: 90859},
+																	pos: position{line: 2885, col: 13, offset: 91123},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 13, offset: 90859},
+																			pos:        position{line: 2885, col: 13, offset: 91123},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 20, offset: 90866},
+																			pos:        position{line: 2885, col: 20, offset: 91130},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 29, offset: 90875},
+																			pos:        position{line: 2885, col: 29, offset: 91139},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10286,9 +10286,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2885, col: 8, offset: 91035},
+																pos: position{line: 2895, col: 8, offset: 91299},
 																expr: &anyMatcher{
-																	line: 2885, col: 9, offset: 91036,
+																	line: 2895, col: 9, offset: 91300,
 																},
 															},
 														},
@@ -10324,10 +10324,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1234, col: 36, offset: 38270},
 																		expr: &actionExpr{
-																			pos: position{line: 2866, col: 10, offset: 90687},
+																			pos: position{line: 2876, col: 10, offset: 90951},
 																			run: (*parser).callonDocumentFragment1356,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2866, col: 10, offset: 90687},
+																				pos:        position{line: 2876, col: 10, offset: 90951},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10336,28 +10336,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2888, col: 8, offset: 91085},
+																		pos: position{line: 2898, col: 8, offset: 91349},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2875, col: 12, offset: 90858},
+																				pos: position{line: 2885, col: 12, offset: 91122},
 																				run: (*parser).callonDocumentFragment1359,
 																				expr: &choiceExpr{
-																					pos: position{line: 2875, col: 13, offset: 90859},
+																					pos: position{line: 2885, col: 13, offset: 91123},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 13, offset: 90859},
+																							pos:        position{line: 2885, col: 13, offset: 91123},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 20, offset: 90866},
+																							pos:        position{line: 2885, col: 20, offset: 91130},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 29, offset: 90875},
+																							pos:        position{line: 2885, col: 29, offset: 91139},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10366,9 +10366,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2885, col: 8, offset: 91035},
+																				pos: position{line: 2895, col: 8, offset: 91299},
 																				expr: &anyMatcher{
-																					line: 2885, col: 9, offset: 91036,
+																					line: 2895, col: 9, offset: 91300,
 																				},
 																			},
 																		},
@@ -10402,10 +10402,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 1234, col: 36, offset: 38270},
 																												expr: &actionExpr{
-																													pos: position{line: 2866, col: 10, offset: 90687},
+																													pos: position{line: 2876, col: 10, offset: 90951},
 																													run: (*parser).callonDocumentFragment1376,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2866, col: 10, offset: 90687},
+																														pos:        position{line: 2876, col: 10, offset: 90951},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -10414,28 +10414,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2888, col: 8, offset: 91085},
+																												pos: position{line: 2898, col: 8, offset: 91349},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2875, col: 12, offset: 90858},
+																														pos: position{line: 2885, col: 12, offset: 91122},
 																														run: (*parser).callonDocumentFragment1379,
 																														expr: &choiceExpr{
-																															pos: position{line: 2875, col: 13, offset: 90859},
+																															pos: position{line: 2885, col: 13, offset: 91123},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2875, col: 13, offset: 90859},
+																																	pos:        position{line: 2885, col: 13, offset: 91123},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2875, col: 20, offset: 90866},
+																																	pos:        position{line: 2885, col: 20, offset: 91130},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2875, col: 29, offset: 90875},
+																																	pos:        position{line: 2885, col: 29, offset: 91139},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -10444,9 +10444,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2885, col: 8, offset: 91035},
+																														pos: position{line: 2895, col: 8, offset: 91299},
 																														expr: &anyMatcher{
-																															line: 2885, col: 9, offset: 91036,
+																															line: 2895, col: 9, offset: 91300,
 																														},
 																													},
 																												},
@@ -10473,10 +10473,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1234, col: 36, offset: 38270},
 																		expr: &actionExpr{
-																			pos: position{line: 2866, col: 10, offset: 90687},
+																			pos: position{line: 2876, col: 10, offset: 90951},
 																			run: (*parser).callonDocumentFragment1389,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2866, col: 10, offset: 90687},
+																				pos:        position{line: 2876, col: 10, offset: 90951},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10485,28 +10485,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2888, col: 8, offset: 91085},
+																		pos: position{line: 2898, col: 8, offset: 91349},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2875, col: 12, offset: 90858},
+																				pos: position{line: 2885, col: 12, offset: 91122},
 																				run: (*parser).callonDocumentFragment1392,
 																				expr: &choiceExpr{
-																					pos: position{line: 2875, col: 13, offset: 90859},
+																					pos: position{line: 2885, col: 13, offset: 91123},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 13, offset: 90859},
+																							pos:        position{line: 2885, col: 13, offset: 91123},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 20, offset: 90866},
+																							pos:        position{line: 2885, col: 20, offset: 91130},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 29, offset: 90875},
+																							pos:        position{line: 2885, col: 29, offset: 91139},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10515,9 +10515,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2885, col: 8, offset: 91035},
+																				pos: position{line: 2895, col: 8, offset: 91299},
 																				expr: &anyMatcher{
-																					line: 2885, col: 9, offset: 91036,
+																					line: 2895, col: 9, offset: 91300,
 																				},
 																			},
 																		},
@@ -10618,9 +10618,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2885, col: 8, offset: 91035},
+							pos: position{line: 2895, col: 8, offset: 91299},
 							expr: &anyMatcher{
-								line: 2885, col: 9, offset: 91036,
+								line: 2895, col: 9, offset: 91300,
 							},
 						},
 					},
@@ -10692,12 +10692,12 @@ var g = &grammar{
 										pos: position{line: 305, col: 9, offset: 9232},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2870, col: 11, offset: 90748},
+												pos: position{line: 2880, col: 11, offset: 91012},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2870, col: 11, offset: 90748},
+													pos: position{line: 2880, col: 11, offset: 91012},
 													expr: &charClassMatcher{
-														pos:        position{line: 2870, col: 11, offset: 90748},
+														pos:        position{line: 2880, col: 11, offset: 91012},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10721,10 +10721,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 310, col: 5, offset: 9412},
 							expr: &actionExpr{
-								pos: position{line: 2866, col: 10, offset: 90687},
+								pos: position{line: 2876, col: 10, offset: 90951},
 								run: (*parser).callonAttributeDeclaration21,
 								expr: &charClassMatcher{
-									pos:        position{line: 2866, col: 10, offset: 90687},
+									pos:        position{line: 2876, col: 10, offset: 90951},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -10733,28 +10733,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2888, col: 8, offset: 91085},
+							pos: position{line: 2898, col: 8, offset: 91349},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2875, col: 12, offset: 90858},
+									pos: position{line: 2885, col: 12, offset: 91122},
 									run: (*parser).callonAttributeDeclaration24,
 									expr: &choiceExpr{
-										pos: position{line: 2875, col: 13, offset: 90859},
+										pos: position{line: 2885, col: 13, offset: 91123},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2875, col: 13, offset: 90859},
+												pos:        position{line: 2885, col: 13, offset: 91123},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2875, col: 20, offset: 90866},
+												pos:        position{line: 2885, col: 20, offset: 91130},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2875, col: 29, offset: 90875},
+												pos:        position{line: 2885, col: 29, offset: 91139},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10763,9 +10763,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2885, col: 8, offset: 91035},
+									pos: position{line: 2895, col: 8, offset: 91299},
 									expr: &anyMatcher{
-										line: 2885, col: 9, offset: 91036,
+										line: 2895, col: 9, offset: 91300,
 									},
 								},
 							},
@@ -10811,10 +10811,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 325, col: 14, offset: 9909},
 												expr: &actionExpr{
-													pos: position{line: 2866, col: 10, offset: 90687},
+													pos: position{line: 2876, col: 10, offset: 90951},
 													run: (*parser).callonAttributeDeclarationValue11,
 													expr: &charClassMatcher{
-														pos:        position{line: 2866, col: 10, offset: 90687},
+														pos:        position{line: 2876, col: 10, offset: 90951},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10823,25 +10823,25 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 2875, col: 12, offset: 90858},
+												pos: position{line: 2885, col: 12, offset: 91122},
 												run: (*parser).callonAttributeDeclarationValue13,
 												expr: &choiceExpr{
-													pos: position{line: 2875, col: 13, offset: 90859},
+													pos: position{line: 2885, col: 13, offset: 91123},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2875, col: 13, offset: 90859},
+															pos:        position{line: 2885, col: 13, offset: 91123},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2875, col: 20, offset: 90866},
+															pos:        position{line: 2885, col: 20, offset: 91130},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2875, col: 29, offset: 90875},
+															pos:        position{line: 2885, col: 29, offset: 91139},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10852,10 +10852,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 326, col: 9, offset: 9933},
 												expr: &actionExpr{
-													pos: position{line: 2866, col: 10, offset: 90687},
+													pos: position{line: 2876, col: 10, offset: 90951},
 													run: (*parser).callonAttributeDeclarationValue19,
 													expr: &charClassMatcher{
-														pos:        position{line: 2866, col: 10, offset: 90687},
+														pos:        position{line: 2876, col: 10, offset: 90951},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10925,10 +10925,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 344, col: 13, offset: 10478},
 										expr: &actionExpr{
-											pos: position{line: 2866, col: 10, offset: 90687},
+											pos: position{line: 2876, col: 10, offset: 90951},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2866, col: 10, offset: 90687},
+												pos:        position{line: 2876, col: 10, offset: 90951},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10937,28 +10937,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2888, col: 8, offset: 91085},
+										pos: position{line: 2898, col: 8, offset: 91349},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2875, col: 12, offset: 90858},
+												pos: position{line: 2885, col: 12, offset: 91122},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2875, col: 13, offset: 90859},
+													pos: position{line: 2885, col: 13, offset: 91123},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2875, col: 13, offset: 90859},
+															pos:        position{line: 2885, col: 13, offset: 91123},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2875, col: 20, offset: 90866},
+															pos:        position{line: 2885, col: 20, offset: 91130},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2875, col: 29, offset: 90875},
+															pos:        position{line: 2885, col: 29, offset: 91139},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10967,9 +10967,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2885, col: 8, offset: 91035},
+												pos: position{line: 2895, col: 8, offset: 91299},
 												expr: &anyMatcher{
-													line: 2885, col: 9, offset: 91036,
+													line: 2895, col: 9, offset: 91300,
 												},
 											},
 										},
@@ -11002,23 +11002,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2460, col: 5, offset: 79140},
+										pos: position{line: 2470, col: 5, offset: 79404},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2460, col: 5, offset: 79140},
+											pos: position{line: 2470, col: 5, offset: 79404},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2460, col: 5, offset: 79140},
+													pos: position{line: 2470, col: 5, offset: 79404},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2463, col: 5, offset: 79216},
+													pos:   position{line: 2473, col: 5, offset: 79480},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2464, col: 9, offset: 79234},
+														pos: position{line: 2474, col: 9, offset: 79498},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2464, col: 10, offset: 79235},
+															pos:        position{line: 2474, col: 10, offset: 79499},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -11030,10 +11030,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2866, col: 10, offset: 90687},
+										pos: position{line: 2876, col: 10, offset: 90951},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2866, col: 10, offset: 90687},
+											pos:        position{line: 2876, col: 10, offset: 90951},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -11870,10 +11870,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 372, col: 35, offset: 11487},
 												expr: &actionExpr{
-													pos: position{line: 2866, col: 10, offset: 90687},
+													pos: position{line: 2876, col: 10, offset: 90951},
 													run: (*parser).callonBlockAttributes100,
 													expr: &charClassMatcher{
-														pos:        position{line: 2866, col: 10, offset: 90687},
+														pos:        position{line: 2876, col: 10, offset: 90951},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11882,28 +11882,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2888, col: 8, offset: 91085},
+												pos: position{line: 2898, col: 8, offset: 91349},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2875, col: 12, offset: 90858},
+														pos: position{line: 2885, col: 12, offset: 91122},
 														run: (*parser).callonBlockAttributes103,
 														expr: &choiceExpr{
-															pos: position{line: 2875, col: 13, offset: 90859},
+															pos: position{line: 2885, col: 13, offset: 91123},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2875, col: 13, offset: 90859},
+																	pos:        position{line: 2885, col: 13, offset: 91123},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2875, col: 20, offset: 90866},
+																	pos:        position{line: 2885, col: 20, offset: 91130},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2875, col: 29, offset: 90875},
+																	pos:        position{line: 2885, col: 29, offset: 91139},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11912,9 +11912,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2885, col: 8, offset: 91035},
+														pos: position{line: 2895, col: 8, offset: 91299},
 														expr: &anyMatcher{
-															line: 2885, col: 9, offset: 91036,
+															line: 2895, col: 9, offset: 91300,
 														},
 													},
 												},
@@ -11928,18 +11928,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21557},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2883, col: 11, offset: 91021},
+																pos: position{line: 2893, col: 11, offset: 91285},
 																expr: &anyMatcher{
-																	line: 2883, col: 13, offset: 91023,
+																	line: 2893, col: 13, offset: 91287,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21564},
 																expr: &actionExpr{
-																	pos: position{line: 2866, col: 10, offset: 90687},
+																	pos: position{line: 2876, col: 10, offset: 90951},
 																	run: (*parser).callonBlockAttributes116,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2866, col: 10, offset: 90687},
+																		pos:        position{line: 2876, col: 10, offset: 90951},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -11948,28 +11948,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2888, col: 8, offset: 91085},
+																pos: position{line: 2898, col: 8, offset: 91349},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2875, col: 12, offset: 90858},
+																		pos: position{line: 2885, col: 12, offset: 91122},
 																		run: (*parser).callonBlockAttributes119,
 																		expr: &choiceExpr{
-																			pos: position{line: 2875, col: 13, offset: 90859},
+																			pos: position{line: 2885, col: 13, offset: 91123},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 13, offset: 90859},
+																					pos:        position{line: 2885, col: 13, offset: 91123},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 20, offset: 90866},
+																					pos:        position{line: 2885, col: 20, offset: 91130},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 29, offset: 90875},
+																					pos:        position{line: 2885, col: 29, offset: 91139},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -11978,9 +11978,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2885, col: 8, offset: 91035},
+																		pos: position{line: 2895, col: 8, offset: 91299},
 																		expr: &anyMatcher{
-																			line: 2885, col: 9, offset: 91036,
+																			line: 2895, col: 9, offset: 91300,
 																		},
 																	},
 																},
@@ -12032,12 +12032,12 @@ var g = &grammar{
 																		pos: position{line: 426, col: 9, offset: 13131},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2760, col: 14, offset: 87856},
+																				pos: position{line: 2770, col: 14, offset: 88120},
 																				run: (*parser).callonBlockAttributes137,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2760, col: 14, offset: 87856},
+																					pos: position{line: 2770, col: 14, offset: 88120},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2760, col: 14, offset: 87856},
+																						pos:        position{line: 2770, col: 14, offset: 88120},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -12046,10 +12046,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2866, col: 10, offset: 90687},
+																				pos: position{line: 2876, col: 10, offset: 90951},
 																				run: (*parser).callonBlockAttributes140,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2866, col: 10, offset: 90687},
+																					pos:        position{line: 2876, col: 10, offset: 90951},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -12057,27 +12057,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2783, col: 5, offset: 88341},
+																				pos: position{line: 2793, col: 5, offset: 88605},
 																				run: (*parser).callonBlockAttributes142,
 																				expr: &choiceExpr{
-																					pos: position{line: 2784, col: 9, offset: 88351},
+																					pos: position{line: 2794, col: 9, offset: 88615},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2784, col: 10, offset: 88352},
+																							pos:        position{line: 2794, col: 10, offset: 88616},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2786, col: 13, offset: 88449},
+																							pos: position{line: 2796, col: 13, offset: 88713},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2786, col: 13, offset: 88449},
+																									pos: position{line: 2796, col: 13, offset: 88713},
 																									run: (*parser).callonBlockAttributes146,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2789, col: 13, offset: 88549},
+																									pos:        position{line: 2799, col: 13, offset: 88813},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -12085,20 +12085,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2789, col: 19, offset: 88555},
+																							pos:        position{line: 2799, col: 19, offset: 88819},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2792, col: 13, offset: 88593},
+																							pos: position{line: 2802, col: 13, offset: 88857},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2792, col: 13, offset: 88593},
+																									pos: position{line: 2802, col: 13, offset: 88857},
 																									run: (*parser).callonBlockAttributes150,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2795, col: 14, offset: 88686},
+																									pos:        position{line: 2805, col: 14, offset: 88950},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -12107,18 +12107,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2797, col: 12, offset: 88730},
+																							pos: position{line: 2807, col: 12, offset: 88994},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2797, col: 12, offset: 88730},
+																									pos:        position{line: 2807, col: 12, offset: 88994},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2797, col: 16, offset: 88734},
+																									pos: position{line: 2807, col: 16, offset: 88998},
 																									expr: &litMatcher{
-																										pos:        position{line: 2797, col: 17, offset: 88735},
+																										pos:        position{line: 2807, col: 17, offset: 88999},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12236,10 +12236,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2805, col: 12, offset: 88995},
+																				pos: position{line: 2815, col: 12, offset: 89259},
 																				run: (*parser).callonBlockAttributes176,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2805, col: 12, offset: 88995},
+																					pos:        position{line: 2815, col: 12, offset: 89259},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12257,10 +12257,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 376, col: 35, offset: 11642},
 												expr: &actionExpr{
-													pos: position{line: 2866, col: 10, offset: 90687},
+													pos: position{line: 2876, col: 10, offset: 90951},
 													run: (*parser).callonBlockAttributes179,
 													expr: &charClassMatcher{
-														pos:        position{line: 2866, col: 10, offset: 90687},
+														pos:        position{line: 2876, col: 10, offset: 90951},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12269,28 +12269,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2888, col: 8, offset: 91085},
+												pos: position{line: 2898, col: 8, offset: 91349},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2875, col: 12, offset: 90858},
+														pos: position{line: 2885, col: 12, offset: 91122},
 														run: (*parser).callonBlockAttributes182,
 														expr: &choiceExpr{
-															pos: position{line: 2875, col: 13, offset: 90859},
+															pos: position{line: 2885, col: 13, offset: 91123},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2875, col: 13, offset: 90859},
+																	pos:        position{line: 2885, col: 13, offset: 91123},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2875, col: 20, offset: 90866},
+																	pos:        position{line: 2885, col: 20, offset: 91130},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2875, col: 29, offset: 90875},
+																	pos:        position{line: 2885, col: 29, offset: 91139},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12299,9 +12299,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2885, col: 8, offset: 91035},
+														pos: position{line: 2895, col: 8, offset: 91299},
 														expr: &anyMatcher{
-															line: 2885, col: 9, offset: 91036,
+															line: 2895, col: 9, offset: 91300,
 														},
 													},
 												},
@@ -12315,18 +12315,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21557},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2883, col: 11, offset: 91021},
+																pos: position{line: 2893, col: 11, offset: 91285},
 																expr: &anyMatcher{
-																	line: 2883, col: 13, offset: 91023,
+																	line: 2893, col: 13, offset: 91287,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21564},
 																expr: &actionExpr{
-																	pos: position{line: 2866, col: 10, offset: 90687},
+																	pos: position{line: 2876, col: 10, offset: 90951},
 																	run: (*parser).callonBlockAttributes195,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2866, col: 10, offset: 90687},
+																		pos:        position{line: 2876, col: 10, offset: 90951},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12335,28 +12335,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2888, col: 8, offset: 91085},
+																pos: position{line: 2898, col: 8, offset: 91349},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2875, col: 12, offset: 90858},
+																		pos: position{line: 2885, col: 12, offset: 91122},
 																		run: (*parser).callonBlockAttributes198,
 																		expr: &choiceExpr{
-																			pos: position{line: 2875, col: 13, offset: 90859},
+																			pos: position{line: 2885, col: 13, offset: 91123},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 13, offset: 90859},
+																					pos:        position{line: 2885, col: 13, offset: 91123},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 20, offset: 90866},
+																					pos:        position{line: 2885, col: 20, offset: 91130},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 29, offset: 90875},
+																					pos:        position{line: 2885, col: 29, offset: 91139},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12365,9 +12365,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2885, col: 8, offset: 91035},
+																		pos: position{line: 2895, col: 8, offset: 91299},
 																		expr: &anyMatcher{
-																			line: 2885, col: 9, offset: 91036,
+																			line: 2895, col: 9, offset: 91300,
 																		},
 																	},
 																},
@@ -12389,10 +12389,10 @@ var g = &grammar{
 												pos:   position{line: 380, col: 12, offset: 11743},
 												label: "start",
 												expr: &actionExpr{
-													pos: position{line: 2891, col: 16, offset: 91209},
+													pos: position{line: 2901, col: 16, offset: 91473},
 													run: (*parser).callonBlockAttributes208,
 													expr: &litMatcher{
-														pos:        position{line: 2891, col: 16, offset: 91209},
+														pos:        position{line: 2901, col: 16, offset: 91473},
 														val:        "",
 														ignoreCase: false,
 														want:       "\"\"",
@@ -12410,10 +12410,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 380, col: 64, offset: 11795},
 												expr: &actionExpr{
-													pos: position{line: 2866, col: 10, offset: 90687},
+													pos: position{line: 2876, col: 10, offset: 90951},
 													run: (*parser).callonBlockAttributes213,
 													expr: &charClassMatcher{
-														pos:        position{line: 2866, col: 10, offset: 90687},
+														pos:        position{line: 2876, col: 10, offset: 90951},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12425,10 +12425,10 @@ var g = &grammar{
 												pos:   position{line: 380, col: 71, offset: 11802},
 												label: "end",
 												expr: &actionExpr{
-													pos: position{line: 2891, col: 16, offset: 91209},
+													pos: position{line: 2901, col: 16, offset: 91473},
 													run: (*parser).callonBlockAttributes216,
 													expr: &litMatcher{
-														pos:        position{line: 2891, col: 16, offset: 91209},
+														pos:        position{line: 2901, col: 16, offset: 91473},
 														val:        "",
 														ignoreCase: false,
 														want:       "\"\"",
@@ -12440,28 +12440,28 @@ var g = &grammar{
 												run: (*parser).callonBlockAttributes218,
 											},
 											&choiceExpr{
-												pos: position{line: 2888, col: 8, offset: 91085},
+												pos: position{line: 2898, col: 8, offset: 91349},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2875, col: 12, offset: 90858},
+														pos: position{line: 2885, col: 12, offset: 91122},
 														run: (*parser).callonBlockAttributes220,
 														expr: &choiceExpr{
-															pos: position{line: 2875, col: 13, offset: 90859},
+															pos: position{line: 2885, col: 13, offset: 91123},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2875, col: 13, offset: 90859},
+																	pos:        position{line: 2885, col: 13, offset: 91123},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2875, col: 20, offset: 90866},
+																	pos:        position{line: 2885, col: 20, offset: 91130},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2875, col: 29, offset: 90875},
+																	pos:        position{line: 2885, col: 29, offset: 91139},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12470,9 +12470,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2885, col: 8, offset: 91035},
+														pos: position{line: 2895, col: 8, offset: 91299},
 														expr: &anyMatcher{
-															line: 2885, col: 9, offset: 91036,
+															line: 2895, col: 9, offset: 91300,
 														},
 													},
 												},
@@ -12486,18 +12486,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21557},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2883, col: 11, offset: 91021},
+																pos: position{line: 2893, col: 11, offset: 91285},
 																expr: &anyMatcher{
-																	line: 2883, col: 13, offset: 91023,
+																	line: 2893, col: 13, offset: 91287,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21564},
 																expr: &actionExpr{
-																	pos: position{line: 2866, col: 10, offset: 90687},
+																	pos: position{line: 2876, col: 10, offset: 90951},
 																	run: (*parser).callonBlockAttributes233,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2866, col: 10, offset: 90687},
+																		pos:        position{line: 2876, col: 10, offset: 90951},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12506,28 +12506,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2888, col: 8, offset: 91085},
+																pos: position{line: 2898, col: 8, offset: 91349},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2875, col: 12, offset: 90858},
+																		pos: position{line: 2885, col: 12, offset: 91122},
 																		run: (*parser).callonBlockAttributes236,
 																		expr: &choiceExpr{
-																			pos: position{line: 2875, col: 13, offset: 90859},
+																			pos: position{line: 2885, col: 13, offset: 91123},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 13, offset: 90859},
+																					pos:        position{line: 2885, col: 13, offset: 91123},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 20, offset: 90866},
+																					pos:        position{line: 2885, col: 20, offset: 91130},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 29, offset: 90875},
+																					pos:        position{line: 2885, col: 29, offset: 91139},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12536,9 +12536,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2885, col: 8, offset: 91035},
+																		pos: position{line: 2895, col: 8, offset: 91299},
 																		expr: &anyMatcher{
-																			line: 2885, col: 9, offset: 91036,
+																			line: 2895, col: 9, offset: 91300,
 																		},
 																	},
 																},
@@ -12786,10 +12786,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 466, col: 13, offset: 14599},
 										expr: &actionExpr{
-											pos: position{line: 2866, col: 10, offset: 90687},
+											pos: position{line: 2876, col: 10, offset: 90951},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2866, col: 10, offset: 90687},
+												pos:        position{line: 2876, col: 10, offset: 90951},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13321,10 +13321,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 518, col: 9, offset: 16181},
 													expr: &actionExpr{
-														pos: position{line: 2866, col: 10, offset: 90687},
+														pos: position{line: 2876, col: 10, offset: 90951},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2866, col: 10, offset: 90687},
+															pos:        position{line: 2876, col: 10, offset: 90951},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13385,10 +13385,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 524, col: 34, offset: 16324},
 														expr: &actionExpr{
-															pos: position{line: 2866, col: 10, offset: 90687},
+															pos: position{line: 2876, col: 10, offset: 90951},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2866, col: 10, offset: 90687},
+																pos:        position{line: 2876, col: 10, offset: 90951},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13428,10 +13428,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 529, col: 13, offset: 16488},
 												expr: &actionExpr{
-													pos: position{line: 2866, col: 10, offset: 90687},
+													pos: position{line: 2876, col: 10, offset: 90951},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2866, col: 10, offset: 90687},
+														pos:        position{line: 2876, col: 10, offset: 90951},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13454,10 +13454,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 529, col: 26, offset: 16501},
 																expr: &actionExpr{
-																	pos: position{line: 2866, col: 10, offset: 90687},
+																	pos: position{line: 2876, col: 10, offset: 90951},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2866, col: 10, offset: 90687},
+																		pos:        position{line: 2876, col: 10, offset: 90951},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13512,10 +13512,10 @@ var g = &grammar{
 										&notExpr{
 											pos: position{line: 549, col: 22, offset: 17148},
 											expr: &actionExpr{
-												pos: position{line: 2866, col: 10, offset: 90687},
+												pos: position{line: 2876, col: 10, offset: 90951},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2866, col: 10, offset: 90687},
+													pos:        position{line: 2876, col: 10, offset: 90951},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13546,10 +13546,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 542, col: 9, offset: 16893},
 							expr: &actionExpr{
-								pos: position{line: 2866, col: 10, offset: 90687},
+								pos: position{line: 2876, col: 10, offset: 90951},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2866, col: 10, offset: 90687},
+									pos:        position{line: 2876, col: 10, offset: 90951},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13579,10 +13579,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 543, col: 33, offset: 16933},
 										expr: &actionExpr{
-											pos: position{line: 2866, col: 10, offset: 90687},
+											pos: position{line: 2876, col: 10, offset: 90951},
 											run: (*parser).callonNamedAttribute21,
 											expr: &charClassMatcher{
-												pos:        position{line: 2866, col: 10, offset: 90687},
+												pos:        position{line: 2876, col: 10, offset: 90951},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13637,10 +13637,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 559, col: 9, offset: 17365},
 											expr: &actionExpr{
-												pos: position{line: 2866, col: 10, offset: 90687},
+												pos: position{line: 2876, col: 10, offset: 90951},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2866, col: 10, offset: 90687},
+													pos:        position{line: 2876, col: 10, offset: 90951},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13719,12 +13719,12 @@ var g = &grammar{
 							pos: position{line: 572, col: 9, offset: 17682},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2760, col: 14, offset: 87856},
+									pos: position{line: 2770, col: 14, offset: 88120},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2760, col: 14, offset: 87856},
+										pos: position{line: 2770, col: 14, offset: 88120},
 										expr: &charClassMatcher{
-											pos:        position{line: 2760, col: 14, offset: 87856},
+											pos:        position{line: 2770, col: 14, offset: 88120},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -13733,10 +13733,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2866, col: 10, offset: 90687},
+									pos: position{line: 2876, col: 10, offset: 90951},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2866, col: 10, offset: 90687},
+										pos:        position{line: 2876, col: 10, offset: 90951},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14193,10 +14193,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 592, col: 14, offset: 18422},
 											expr: &actionExpr{
-												pos: position{line: 2866, col: 10, offset: 90687},
+												pos: position{line: 2876, col: 10, offset: 90951},
 												run: (*parser).callonDoubleQuotedAttributeValue13,
 												expr: &charClassMatcher{
-													pos:        position{line: 2866, col: 10, offset: 90687},
+													pos:        position{line: 2876, col: 10, offset: 90951},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14233,12 +14233,12 @@ var g = &grammar{
 							pos: position{line: 598, col: 9, offset: 18533},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2760, col: 14, offset: 87856},
+									pos: position{line: 2770, col: 14, offset: 88120},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2760, col: 14, offset: 87856},
+										pos: position{line: 2770, col: 14, offset: 88120},
 										expr: &charClassMatcher{
-											pos:        position{line: 2760, col: 14, offset: 87856},
+											pos:        position{line: 2770, col: 14, offset: 88120},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14247,10 +14247,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2866, col: 10, offset: 90687},
+									pos: position{line: 2876, col: 10, offset: 90951},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2866, col: 10, offset: 90687},
+										pos:        position{line: 2876, col: 10, offset: 90951},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14677,10 +14677,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 619, col: 5, offset: 19389},
 							expr: &actionExpr{
-								pos: position{line: 2866, col: 10, offset: 90687},
+								pos: position{line: 2876, col: 10, offset: 90951},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2866, col: 10, offset: 90687},
+									pos:        position{line: 2876, col: 10, offset: 90951},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -15070,10 +15070,10 @@ var g = &grammar{
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2866, col: 10, offset: 90687},
+											pos: position{line: 2876, col: 10, offset: 90951},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2866, col: 10, offset: 90687},
+												pos:        position{line: 2876, col: 10, offset: 90951},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -15124,12 +15124,12 @@ var g = &grammar{
 									pos:   position{line: 686, col: 32, offset: 21917},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2851, col: 7, offset: 90339},
+										pos: position{line: 2861, col: 7, offset: 90603},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2851, col: 7, offset: 90339},
+											pos: position{line: 2861, col: 7, offset: 90603},
 											expr: &charClassMatcher{
-												pos:        position{line: 2851, col: 7, offset: 90339},
+												pos:        position{line: 2861, col: 7, offset: 90603},
 												val:        "[^[]<>,\\r\\n]",
 												chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 												ignoreCase: false,
@@ -15141,10 +15141,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 686, col: 40, offset: 21925},
 									expr: &actionExpr{
-										pos: position{line: 2866, col: 10, offset: 90687},
+										pos: position{line: 2876, col: 10, offset: 90951},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2866, col: 10, offset: 90687},
+											pos:        position{line: 2876, col: 10, offset: 90951},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15161,10 +15161,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 686, col: 51, offset: 21936},
 									expr: &actionExpr{
-										pos: position{line: 2866, col: 10, offset: 90687},
+										pos: position{line: 2876, col: 10, offset: 90951},
 										run: (*parser).callonCrossReference14,
 										expr: &charClassMatcher{
-											pos:        position{line: 2866, col: 10, offset: 90687},
+											pos:        position{line: 2876, col: 10, offset: 90951},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15339,12 +15339,12 @@ var g = &grammar{
 									pos:   position{line: 688, col: 14, offset: 22049},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2851, col: 7, offset: 90339},
+										pos: position{line: 2861, col: 7, offset: 90603},
 										run: (*parser).callonCrossReference49,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2851, col: 7, offset: 90339},
+											pos: position{line: 2861, col: 7, offset: 90603},
 											expr: &charClassMatcher{
-												pos:        position{line: 2851, col: 7, offset: 90339},
+												pos:        position{line: 2861, col: 7, offset: 90603},
 												val:        "[^[]<>,\\r\\n]",
 												chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 												ignoreCase: false,
@@ -15388,41 +15388,41 @@ var g = &grammar{
 							pos:   position{line: 692, col: 35, offset: 22162},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2820, col: 17, offset: 89350},
+								pos: position{line: 2830, col: 17, offset: 89614},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2820, col: 17, offset: 89350},
+									pos:   position{line: 2830, col: 17, offset: 89614},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2837, col: 5, offset: 89804},
+										pos: position{line: 2847, col: 5, offset: 90068},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2837, col: 5, offset: 89804},
+											pos:   position{line: 2847, col: 5, offset: 90068},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2837, col: 14, offset: 89813},
+												pos: position{line: 2847, col: 14, offset: 90077},
 												expr: &choiceExpr{
-													pos: position{line: 2838, col: 9, offset: 89823},
+													pos: position{line: 2848, col: 9, offset: 90087},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2838, col: 9, offset: 89823},
+															pos: position{line: 2848, col: 9, offset: 90087},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2838, col: 9, offset: 89823},
+																pos: position{line: 2848, col: 9, offset: 90087},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2838, col: 9, offset: 89823},
+																		pos: position{line: 2848, col: 9, offset: 90087},
 																		expr: &litMatcher{
-																			pos:        position{line: 2838, col: 10, offset: 89824},
+																			pos:        position{line: 2848, col: 10, offset: 90088},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2839, col: 9, offset: 89852},
+																		pos: position{line: 2849, col: 9, offset: 90116},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2839, col: 10, offset: 89853},
+																			pos:        position{line: 2849, col: 10, offset: 90117},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -15433,27 +15433,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2842, col: 11, offset: 90065},
+															pos: position{line: 2852, col: 11, offset: 90329},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2842, col: 11, offset: 90065},
+																	pos:        position{line: 2852, col: 11, offset: 90329},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2842, col: 19, offset: 90073},
+																	pos: position{line: 2852, col: 19, offset: 90337},
 																	expr: &seqExpr{
-																		pos: position{line: 2842, col: 21, offset: 90075},
+																		pos: position{line: 2852, col: 21, offset: 90339},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2842, col: 21, offset: 90075},
+																				pos: position{line: 2852, col: 21, offset: 90339},
 																				expr: &actionExpr{
-																					pos: position{line: 2866, col: 10, offset: 90687},
+																					pos: position{line: 2876, col: 10, offset: 90951},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2866, col: 10, offset: 90687},
+																						pos:        position{line: 2876, col: 10, offset: 90951},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -15462,11 +15462,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2842, col: 28, offset: 90082},
+																				pos: position{line: 2852, col: 28, offset: 90346},
 																				expr: &notExpr{
-																					pos: position{line: 2885, col: 8, offset: 91035},
+																					pos: position{line: 2895, col: 8, offset: 91299},
 																					expr: &anyMatcher{
-																						line: 2885, col: 9, offset: 91036,
+																						line: 2895, col: 9, offset: 91300,
 																					},
 																				},
 																			},
@@ -15861,10 +15861,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2845, col: 11, offset: 90202},
+															pos: position{line: 2855, col: 11, offset: 90466},
 															run: (*parser).callonExternalCrossReference104,
 															expr: &litMatcher{
-																pos:        position{line: 2845, col: 11, offset: 90202},
+																pos:        position{line: 2855, col: 11, offset: 90466},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -15909,12 +15909,12 @@ var g = &grammar{
 							pos:   position{line: 989, col: 11, offset: 30879},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2816, col: 14, offset: 89280},
+								pos: position{line: 2826, col: 14, offset: 89544},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2816, col: 14, offset: 89280},
+									pos: position{line: 2826, col: 14, offset: 89544},
 									expr: &charClassMatcher{
-										pos:        position{line: 2816, col: 14, offset: 89280},
+										pos:        position{line: 2826, col: 14, offset: 89544},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -15924,28 +15924,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2888, col: 8, offset: 91085},
+							pos: position{line: 2898, col: 8, offset: 91349},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2875, col: 12, offset: 90858},
+									pos: position{line: 2885, col: 12, offset: 91122},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2875, col: 13, offset: 90859},
+										pos: position{line: 2885, col: 13, offset: 91123},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2875, col: 13, offset: 90859},
+												pos:        position{line: 2885, col: 13, offset: 91123},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2875, col: 20, offset: 90866},
+												pos:        position{line: 2885, col: 20, offset: 91130},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2875, col: 29, offset: 90875},
+												pos:        position{line: 2885, col: 29, offset: 91139},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -15954,9 +15954,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2885, col: 8, offset: 91035},
+									pos: position{line: 2895, col: 8, offset: 91299},
 									expr: &anyMatcher{
-										line: 2885, col: 9, offset: 91036,
+										line: 2895, col: 9, offset: 91300,
 									},
 								},
 							},
@@ -15984,36 +15984,36 @@ var g = &grammar{
 								pos: position{line: 1104, col: 6, offset: 33881},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2473, col: 22, offset: 79594},
+										pos: position{line: 2483, col: 22, offset: 79858},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2473, col: 22, offset: 79594},
+											pos: position{line: 2483, col: 22, offset: 79858},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2478, col: 31, offset: 79815},
+													pos:        position{line: 2488, col: 31, offset: 80079},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2478, col: 36, offset: 79820},
+													pos: position{line: 2488, col: 36, offset: 80084},
 													expr: &litMatcher{
-														pos:        position{line: 2478, col: 37, offset: 79821},
+														pos:        position{line: 2488, col: 37, offset: 80085},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2473, col: 49, offset: 79621},
+													pos:   position{line: 2483, col: 49, offset: 79885},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2812, col: 13, offset: 89213},
+														pos: position{line: 2822, col: 13, offset: 89477},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2812, col: 13, offset: 89213},
+															pos: position{line: 2822, col: 13, offset: 89477},
 															expr: &charClassMatcher{
-																pos:        position{line: 2812, col: 13, offset: 89213},
+																pos:        position{line: 2822, col: 13, offset: 89477},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16023,28 +16023,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2888, col: 8, offset: 91085},
+													pos: position{line: 2898, col: 8, offset: 91349},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2875, col: 12, offset: 90858},
+															pos: position{line: 2885, col: 12, offset: 91122},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2875, col: 13, offset: 90859},
+																pos: position{line: 2885, col: 13, offset: 91123},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 13, offset: 90859},
+																		pos:        position{line: 2885, col: 13, offset: 91123},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 20, offset: 90866},
+																		pos:        position{line: 2885, col: 20, offset: 91130},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 29, offset: 90875},
+																		pos:        position{line: 2885, col: 29, offset: 91139},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16053,9 +16053,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2885, col: 8, offset: 91035},
+															pos: position{line: 2895, col: 8, offset: 91299},
 															expr: &anyMatcher{
-																line: 2885, col: 9, offset: 91036,
+																line: 2895, col: 9, offset: 91300,
 															},
 														},
 													},
@@ -16106,10 +16106,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 742, col: 8, offset: 23754},
 																expr: &actionExpr{
-																	pos: position{line: 2866, col: 10, offset: 90687},
+																	pos: position{line: 2876, col: 10, offset: 90951},
 																	run: (*parser).callonDocumentHeader34,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2866, col: 10, offset: 90687},
+																		pos:        position{line: 2876, col: 10, offset: 90951},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16118,28 +16118,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2888, col: 8, offset: 91085},
+																pos: position{line: 2898, col: 8, offset: 91349},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2875, col: 12, offset: 90858},
+																		pos: position{line: 2885, col: 12, offset: 91122},
 																		run: (*parser).callonDocumentHeader37,
 																		expr: &choiceExpr{
-																			pos: position{line: 2875, col: 13, offset: 90859},
+																			pos: position{line: 2885, col: 13, offset: 91123},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 13, offset: 90859},
+																					pos:        position{line: 2885, col: 13, offset: 91123},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 20, offset: 90866},
+																					pos:        position{line: 2885, col: 20, offset: 91130},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 29, offset: 90875},
+																					pos:        position{line: 2885, col: 29, offset: 91139},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -16148,9 +16148,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2885, col: 8, offset: 91035},
+																		pos: position{line: 2895, col: 8, offset: 91299},
 																		expr: &anyMatcher{
-																			line: 2885, col: 9, offset: 91036,
+																			line: 2895, col: 9, offset: 91300,
 																		},
 																	},
 																},
@@ -16211,10 +16211,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 742, col: 8, offset: 23754},
 																								expr: &actionExpr{
-																									pos: position{line: 2866, col: 10, offset: 90687},
+																									pos: position{line: 2876, col: 10, offset: 90951},
 																									run: (*parser).callonDocumentHeader59,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2866, col: 10, offset: 90687},
+																										pos:        position{line: 2876, col: 10, offset: 90951},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -16223,28 +16223,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2888, col: 8, offset: 91085},
+																								pos: position{line: 2898, col: 8, offset: 91349},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2875, col: 12, offset: 90858},
+																										pos: position{line: 2885, col: 12, offset: 91122},
 																										run: (*parser).callonDocumentHeader62,
 																										expr: &choiceExpr{
-																											pos: position{line: 2875, col: 13, offset: 90859},
+																											pos: position{line: 2885, col: 13, offset: 91123},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 13, offset: 90859},
+																													pos:        position{line: 2885, col: 13, offset: 91123},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 20, offset: 90866},
+																													pos:        position{line: 2885, col: 20, offset: 91130},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 29, offset: 90875},
+																													pos:        position{line: 2885, col: 29, offset: 91139},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -16253,9 +16253,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2885, col: 8, offset: 91035},
+																										pos: position{line: 2895, col: 8, offset: 91299},
 																										expr: &anyMatcher{
-																											line: 2885, col: 9, offset: 91036,
+																											line: 2895, col: 9, offset: 91300,
 																										},
 																									},
 																								},
@@ -16264,9 +16264,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2885, col: 8, offset: 91035},
+																					pos: position{line: 2895, col: 8, offset: 91299},
 																					expr: &anyMatcher{
-																						line: 2885, col: 9, offset: 91036,
+																						line: 2895, col: 9, offset: 91300,
 																					},
 																				},
 																			},
@@ -16282,21 +16282,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26161},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2883, col: 11, offset: 91021},
+																						pos: position{line: 2893, col: 11, offset: 91285},
 																						expr: &anyMatcher{
-																							line: 2883, col: 13, offset: 91023,
+																							line: 2893, col: 13, offset: 91287,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26236},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2812, col: 13, offset: 89213},
+																							pos: position{line: 2822, col: 13, offset: 89477},
 																							run: (*parser).callonDocumentHeader77,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2812, col: 13, offset: 89213},
+																								pos: position{line: 2822, col: 13, offset: 89477},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2812, col: 13, offset: 89213},
+																									pos:        position{line: 2822, col: 13, offset: 89477},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16306,28 +16306,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2888, col: 8, offset: 91085},
+																						pos: position{line: 2898, col: 8, offset: 91349},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2875, col: 12, offset: 90858},
+																								pos: position{line: 2885, col: 12, offset: 91122},
 																								run: (*parser).callonDocumentHeader81,
 																								expr: &choiceExpr{
-																									pos: position{line: 2875, col: 13, offset: 90859},
+																									pos: position{line: 2885, col: 13, offset: 91123},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 13, offset: 90859},
+																											pos:        position{line: 2885, col: 13, offset: 91123},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 20, offset: 90866},
+																											pos:        position{line: 2885, col: 20, offset: 91130},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 29, offset: 90875},
+																											pos:        position{line: 2885, col: 29, offset: 91139},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16336,9 +16336,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2885, col: 8, offset: 91035},
+																								pos: position{line: 2895, col: 8, offset: 91299},
 																								expr: &anyMatcher{
-																									line: 2885, col: 9, offset: 91036,
+																									line: 2895, col: 9, offset: 91300,
 																								},
 																							},
 																						},
@@ -16394,10 +16394,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 742, col: 8, offset: 23754},
 																			expr: &actionExpr{
-																				pos: position{line: 2866, col: 10, offset: 90687},
+																				pos: position{line: 2876, col: 10, offset: 90951},
 																				run: (*parser).callonDocumentHeader99,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2866, col: 10, offset: 90687},
+																					pos:        position{line: 2876, col: 10, offset: 90951},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -16406,28 +16406,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2888, col: 8, offset: 91085},
+																			pos: position{line: 2898, col: 8, offset: 91349},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2875, col: 12, offset: 90858},
+																					pos: position{line: 2885, col: 12, offset: 91122},
 																					run: (*parser).callonDocumentHeader102,
 																					expr: &choiceExpr{
-																						pos: position{line: 2875, col: 13, offset: 90859},
+																						pos: position{line: 2885, col: 13, offset: 91123},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 13, offset: 90859},
+																								pos:        position{line: 2885, col: 13, offset: 91123},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 20, offset: 90866},
+																								pos:        position{line: 2885, col: 20, offset: 91130},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 29, offset: 90875},
+																								pos:        position{line: 2885, col: 29, offset: 91139},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -16436,9 +16436,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2885, col: 8, offset: 91035},
+																					pos: position{line: 2895, col: 8, offset: 91299},
 																					expr: &anyMatcher{
-																						line: 2885, col: 9, offset: 91036,
+																						line: 2895, col: 9, offset: 91300,
 																					},
 																				},
 																			},
@@ -16447,9 +16447,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2885, col: 8, offset: 91035},
+																pos: position{line: 2895, col: 8, offset: 91299},
 																expr: &anyMatcher{
-																	line: 2885, col: 9, offset: 91036,
+																	line: 2895, col: 9, offset: 91300,
 																},
 															},
 														},
@@ -16475,36 +16475,36 @@ var g = &grammar{
 								pos: position{line: 1106, col: 6, offset: 34004},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2473, col: 22, offset: 79594},
+										pos: position{line: 2483, col: 22, offset: 79858},
 										run: (*parser).callonDocumentHeader115,
 										expr: &seqExpr{
-											pos: position{line: 2473, col: 22, offset: 79594},
+											pos: position{line: 2483, col: 22, offset: 79858},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2478, col: 31, offset: 79815},
+													pos:        position{line: 2488, col: 31, offset: 80079},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2478, col: 36, offset: 79820},
+													pos: position{line: 2488, col: 36, offset: 80084},
 													expr: &litMatcher{
-														pos:        position{line: 2478, col: 37, offset: 79821},
+														pos:        position{line: 2488, col: 37, offset: 80085},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2473, col: 49, offset: 79621},
+													pos:   position{line: 2483, col: 49, offset: 79885},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2812, col: 13, offset: 89213},
+														pos: position{line: 2822, col: 13, offset: 89477},
 														run: (*parser).callonDocumentHeader121,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2812, col: 13, offset: 89213},
+															pos: position{line: 2822, col: 13, offset: 89477},
 															expr: &charClassMatcher{
-																pos:        position{line: 2812, col: 13, offset: 89213},
+																pos:        position{line: 2822, col: 13, offset: 89477},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16514,28 +16514,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2888, col: 8, offset: 91085},
+													pos: position{line: 2898, col: 8, offset: 91349},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2875, col: 12, offset: 90858},
+															pos: position{line: 2885, col: 12, offset: 91122},
 															run: (*parser).callonDocumentHeader125,
 															expr: &choiceExpr{
-																pos: position{line: 2875, col: 13, offset: 90859},
+																pos: position{line: 2885, col: 13, offset: 91123},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 13, offset: 90859},
+																		pos:        position{line: 2885, col: 13, offset: 91123},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 20, offset: 90866},
+																		pos:        position{line: 2885, col: 20, offset: 91130},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 29, offset: 90875},
+																		pos:        position{line: 2885, col: 29, offset: 91139},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16544,9 +16544,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2885, col: 8, offset: 91035},
+															pos: position{line: 2895, col: 8, offset: 91299},
 															expr: &anyMatcher{
-																line: 2885, col: 9, offset: 91036,
+																line: 2895, col: 9, offset: 91300,
 															},
 														},
 													},
@@ -16597,10 +16597,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 742, col: 8, offset: 23754},
 																expr: &actionExpr{
-																	pos: position{line: 2866, col: 10, offset: 90687},
+																	pos: position{line: 2876, col: 10, offset: 90951},
 																	run: (*parser).callonDocumentHeader143,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2866, col: 10, offset: 90687},
+																		pos:        position{line: 2876, col: 10, offset: 90951},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16609,28 +16609,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2888, col: 8, offset: 91085},
+																pos: position{line: 2898, col: 8, offset: 91349},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2875, col: 12, offset: 90858},
+																		pos: position{line: 2885, col: 12, offset: 91122},
 																		run: (*parser).callonDocumentHeader146,
 																		expr: &choiceExpr{
-																			pos: position{line: 2875, col: 13, offset: 90859},
+																			pos: position{line: 2885, col: 13, offset: 91123},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 13, offset: 90859},
+																					pos:        position{line: 2885, col: 13, offset: 91123},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 20, offset: 90866},
+																					pos:        position{line: 2885, col: 20, offset: 91130},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 29, offset: 90875},
+																					pos:        position{line: 2885, col: 29, offset: 91139},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -16639,9 +16639,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2885, col: 8, offset: 91035},
+																		pos: position{line: 2895, col: 8, offset: 91299},
 																		expr: &anyMatcher{
-																			line: 2885, col: 9, offset: 91036,
+																			line: 2895, col: 9, offset: 91300,
 																		},
 																	},
 																},
@@ -16702,10 +16702,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 742, col: 8, offset: 23754},
 																								expr: &actionExpr{
-																									pos: position{line: 2866, col: 10, offset: 90687},
+																									pos: position{line: 2876, col: 10, offset: 90951},
 																									run: (*parser).callonDocumentHeader168,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2866, col: 10, offset: 90687},
+																										pos:        position{line: 2876, col: 10, offset: 90951},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -16714,28 +16714,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2888, col: 8, offset: 91085},
+																								pos: position{line: 2898, col: 8, offset: 91349},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2875, col: 12, offset: 90858},
+																										pos: position{line: 2885, col: 12, offset: 91122},
 																										run: (*parser).callonDocumentHeader171,
 																										expr: &choiceExpr{
-																											pos: position{line: 2875, col: 13, offset: 90859},
+																											pos: position{line: 2885, col: 13, offset: 91123},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 13, offset: 90859},
+																													pos:        position{line: 2885, col: 13, offset: 91123},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 20, offset: 90866},
+																													pos:        position{line: 2885, col: 20, offset: 91130},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 29, offset: 90875},
+																													pos:        position{line: 2885, col: 29, offset: 91139},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -16744,9 +16744,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2885, col: 8, offset: 91035},
+																										pos: position{line: 2895, col: 8, offset: 91299},
 																										expr: &anyMatcher{
-																											line: 2885, col: 9, offset: 91036,
+																											line: 2895, col: 9, offset: 91300,
 																										},
 																									},
 																								},
@@ -16755,9 +16755,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2885, col: 8, offset: 91035},
+																					pos: position{line: 2895, col: 8, offset: 91299},
 																					expr: &anyMatcher{
-																						line: 2885, col: 9, offset: 91036,
+																						line: 2895, col: 9, offset: 91300,
 																					},
 																				},
 																			},
@@ -16773,21 +16773,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26161},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2883, col: 11, offset: 91021},
+																						pos: position{line: 2893, col: 11, offset: 91285},
 																						expr: &anyMatcher{
-																							line: 2883, col: 13, offset: 91023,
+																							line: 2893, col: 13, offset: 91287,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26236},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2812, col: 13, offset: 89213},
+																							pos: position{line: 2822, col: 13, offset: 89477},
 																							run: (*parser).callonDocumentHeader186,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2812, col: 13, offset: 89213},
+																								pos: position{line: 2822, col: 13, offset: 89477},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2812, col: 13, offset: 89213},
+																									pos:        position{line: 2822, col: 13, offset: 89477},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16797,28 +16797,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2888, col: 8, offset: 91085},
+																						pos: position{line: 2898, col: 8, offset: 91349},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2875, col: 12, offset: 90858},
+																								pos: position{line: 2885, col: 12, offset: 91122},
 																								run: (*parser).callonDocumentHeader190,
 																								expr: &choiceExpr{
-																									pos: position{line: 2875, col: 13, offset: 90859},
+																									pos: position{line: 2885, col: 13, offset: 91123},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 13, offset: 90859},
+																											pos:        position{line: 2885, col: 13, offset: 91123},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 20, offset: 90866},
+																											pos:        position{line: 2885, col: 20, offset: 91130},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 29, offset: 90875},
+																											pos:        position{line: 2885, col: 29, offset: 91139},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16827,9 +16827,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2885, col: 8, offset: 91035},
+																								pos: position{line: 2895, col: 8, offset: 91299},
 																								expr: &anyMatcher{
-																									line: 2885, col: 9, offset: 91036,
+																									line: 2895, col: 9, offset: 91300,
 																								},
 																							},
 																						},
@@ -16885,10 +16885,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 742, col: 8, offset: 23754},
 																			expr: &actionExpr{
-																				pos: position{line: 2866, col: 10, offset: 90687},
+																				pos: position{line: 2876, col: 10, offset: 90951},
 																				run: (*parser).callonDocumentHeader208,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2866, col: 10, offset: 90687},
+																					pos:        position{line: 2876, col: 10, offset: 90951},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -16897,28 +16897,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2888, col: 8, offset: 91085},
+																			pos: position{line: 2898, col: 8, offset: 91349},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2875, col: 12, offset: 90858},
+																					pos: position{line: 2885, col: 12, offset: 91122},
 																					run: (*parser).callonDocumentHeader211,
 																					expr: &choiceExpr{
-																						pos: position{line: 2875, col: 13, offset: 90859},
+																						pos: position{line: 2885, col: 13, offset: 91123},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 13, offset: 90859},
+																								pos:        position{line: 2885, col: 13, offset: 91123},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 20, offset: 90866},
+																								pos:        position{line: 2885, col: 20, offset: 91130},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 29, offset: 90875},
+																								pos:        position{line: 2885, col: 29, offset: 91139},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -16927,9 +16927,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2885, col: 8, offset: 91035},
+																					pos: position{line: 2895, col: 8, offset: 91299},
 																					expr: &anyMatcher{
-																						line: 2885, col: 9, offset: 91036,
+																						line: 2895, col: 9, offset: 91300,
 																					},
 																				},
 																			},
@@ -16938,9 +16938,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2885, col: 8, offset: 91035},
+																pos: position{line: 2895, col: 8, offset: 91299},
 																expr: &anyMatcher{
-																	line: 2885, col: 9, offset: 91036,
+																	line: 2895, col: 9, offset: 91300,
 																},
 															},
 														},
@@ -16984,10 +16984,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1125, col: 20, offset: 34759},
 																expr: &actionExpr{
-																	pos: position{line: 2866, col: 10, offset: 90687},
+																	pos: position{line: 2876, col: 10, offset: 90951},
 																	run: (*parser).callonDocumentHeader230,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2866, col: 10, offset: 90687},
+																		pos:        position{line: 2876, col: 10, offset: 90951},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17038,10 +17038,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1144, col: 5, offset: 35364},
 																										expr: &actionExpr{
-																											pos: position{line: 2866, col: 10, offset: 90687},
+																											pos: position{line: 2876, col: 10, offset: 90951},
 																											run: (*parser).callonDocumentHeader245,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2866, col: 10, offset: 90687},
+																												pos:        position{line: 2876, col: 10, offset: 90951},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17073,10 +17073,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1148, col: 5, offset: 35463},
 																										expr: &actionExpr{
-																											pos: position{line: 2866, col: 10, offset: 90687},
+																											pos: position{line: 2876, col: 10, offset: 90951},
 																											run: (*parser).callonDocumentHeader253,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2866, col: 10, offset: 90687},
+																												pos:        position{line: 2876, col: 10, offset: 90951},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17108,10 +17108,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1152, col: 5, offset: 35560},
 																										expr: &actionExpr{
-																											pos: position{line: 2866, col: 10, offset: 90687},
+																											pos: position{line: 2876, col: 10, offset: 90951},
 																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2866, col: 10, offset: 90687},
+																												pos:        position{line: 2876, col: 10, offset: 90951},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17136,9 +17136,9 @@ var g = &grammar{
 																								pos: position{line: 1158, col: 5, offset: 35682},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2883, col: 11, offset: 91021},
+																										pos: position{line: 2893, col: 11, offset: 91285},
 																										expr: &anyMatcher{
-																											line: 2883, col: 13, offset: 91023,
+																											line: 2893, col: 13, offset: 91287,
 																										},
 																									},
 																									&litMatcher{
@@ -17179,10 +17179,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1130, col: 69, offset: 34952},
 																					expr: &actionExpr{
-																						pos: position{line: 2866, col: 10, offset: 90687},
+																						pos: position{line: 2876, col: 10, offset: 90951},
 																						run: (*parser).callonDocumentHeader276,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2866, col: 10, offset: 90687},
+																							pos:        position{line: 2876, col: 10, offset: 90951},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17202,10 +17202,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1130, col: 81, offset: 34964},
 																					expr: &actionExpr{
-																						pos: position{line: 2866, col: 10, offset: 90687},
+																						pos: position{line: 2876, col: 10, offset: 90951},
 																						run: (*parser).callonDocumentHeader281,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2866, col: 10, offset: 90687},
+																							pos:        position{line: 2876, col: 10, offset: 90951},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17223,28 +17223,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2888, col: 8, offset: 91085},
+																pos: position{line: 2898, col: 8, offset: 91349},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2875, col: 12, offset: 90858},
+																		pos: position{line: 2885, col: 12, offset: 91122},
 																		run: (*parser).callonDocumentHeader285,
 																		expr: &choiceExpr{
-																			pos: position{line: 2875, col: 13, offset: 90859},
+																			pos: position{line: 2885, col: 13, offset: 91123},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 13, offset: 90859},
+																					pos:        position{line: 2885, col: 13, offset: 91123},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 20, offset: 90866},
+																					pos:        position{line: 2885, col: 20, offset: 91130},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 29, offset: 90875},
+																					pos:        position{line: 2885, col: 29, offset: 91139},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17253,9 +17253,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2885, col: 8, offset: 91035},
+																		pos: position{line: 2895, col: 8, offset: 91299},
 																		expr: &anyMatcher{
-																			line: 2885, col: 9, offset: 91036,
+																			line: 2895, col: 9, offset: 91300,
 																		},
 																	},
 																},
@@ -17270,36 +17270,36 @@ var g = &grammar{
 													pos: position{line: 1120, col: 6, offset: 34534},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2473, col: 22, offset: 79594},
+															pos: position{line: 2483, col: 22, offset: 79858},
 															run: (*parser).callonDocumentHeader294,
 															expr: &seqExpr{
-																pos: position{line: 2473, col: 22, offset: 79594},
+																pos: position{line: 2483, col: 22, offset: 79858},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2478, col: 31, offset: 79815},
+																		pos:        position{line: 2488, col: 31, offset: 80079},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2478, col: 36, offset: 79820},
+																		pos: position{line: 2488, col: 36, offset: 80084},
 																		expr: &litMatcher{
-																			pos:        position{line: 2478, col: 37, offset: 79821},
+																			pos:        position{line: 2488, col: 37, offset: 80085},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2473, col: 49, offset: 79621},
+																		pos:   position{line: 2483, col: 49, offset: 79885},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2812, col: 13, offset: 89213},
+																			pos: position{line: 2822, col: 13, offset: 89477},
 																			run: (*parser).callonDocumentHeader300,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2812, col: 13, offset: 89213},
+																				pos: position{line: 2822, col: 13, offset: 89477},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2812, col: 13, offset: 89213},
+																					pos:        position{line: 2822, col: 13, offset: 89477},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -17309,28 +17309,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2888, col: 8, offset: 91085},
+																		pos: position{line: 2898, col: 8, offset: 91349},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2875, col: 12, offset: 90858},
+																				pos: position{line: 2885, col: 12, offset: 91122},
 																				run: (*parser).callonDocumentHeader304,
 																				expr: &choiceExpr{
-																					pos: position{line: 2875, col: 13, offset: 90859},
+																					pos: position{line: 2885, col: 13, offset: 91123},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 13, offset: 90859},
+																							pos:        position{line: 2885, col: 13, offset: 91123},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 20, offset: 90866},
+																							pos:        position{line: 2885, col: 20, offset: 91130},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 29, offset: 90875},
+																							pos:        position{line: 2885, col: 29, offset: 91139},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -17339,9 +17339,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2885, col: 8, offset: 91035},
+																				pos: position{line: 2895, col: 8, offset: 91299},
 																				expr: &anyMatcher{
-																					line: 2885, col: 9, offset: 91036,
+																					line: 2895, col: 9, offset: 91300,
 																				},
 																			},
 																		},
@@ -17392,10 +17392,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 742, col: 8, offset: 23754},
 																					expr: &actionExpr{
-																						pos: position{line: 2866, col: 10, offset: 90687},
+																						pos: position{line: 2876, col: 10, offset: 90951},
 																						run: (*parser).callonDocumentHeader322,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2866, col: 10, offset: 90687},
+																							pos:        position{line: 2876, col: 10, offset: 90951},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17404,28 +17404,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2888, col: 8, offset: 91085},
+																					pos: position{line: 2898, col: 8, offset: 91349},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2875, col: 12, offset: 90858},
+																							pos: position{line: 2885, col: 12, offset: 91122},
 																							run: (*parser).callonDocumentHeader325,
 																							expr: &choiceExpr{
-																								pos: position{line: 2875, col: 13, offset: 90859},
+																								pos: position{line: 2885, col: 13, offset: 91123},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 13, offset: 90859},
+																										pos:        position{line: 2885, col: 13, offset: 91123},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 20, offset: 90866},
+																										pos:        position{line: 2885, col: 20, offset: 91130},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 29, offset: 90875},
+																										pos:        position{line: 2885, col: 29, offset: 91139},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -17434,9 +17434,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2885, col: 8, offset: 91035},
+																							pos: position{line: 2895, col: 8, offset: 91299},
 																							expr: &anyMatcher{
-																								line: 2885, col: 9, offset: 91036,
+																								line: 2895, col: 9, offset: 91300,
 																							},
 																						},
 																					},
@@ -17497,10 +17497,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 742, col: 8, offset: 23754},
 																													expr: &actionExpr{
-																														pos: position{line: 2866, col: 10, offset: 90687},
+																														pos: position{line: 2876, col: 10, offset: 90951},
 																														run: (*parser).callonDocumentHeader347,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2866, col: 10, offset: 90687},
+																															pos:        position{line: 2876, col: 10, offset: 90951},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -17509,28 +17509,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2888, col: 8, offset: 91085},
+																													pos: position{line: 2898, col: 8, offset: 91349},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2875, col: 12, offset: 90858},
+																															pos: position{line: 2885, col: 12, offset: 91122},
 																															run: (*parser).callonDocumentHeader350,
 																															expr: &choiceExpr{
-																																pos: position{line: 2875, col: 13, offset: 90859},
+																																pos: position{line: 2885, col: 13, offset: 91123},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2875, col: 13, offset: 90859},
+																																		pos:        position{line: 2885, col: 13, offset: 91123},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2875, col: 20, offset: 90866},
+																																		pos:        position{line: 2885, col: 20, offset: 91130},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2875, col: 29, offset: 90875},
+																																		pos:        position{line: 2885, col: 29, offset: 91139},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -17539,9 +17539,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2885, col: 8, offset: 91035},
+																															pos: position{line: 2895, col: 8, offset: 91299},
 																															expr: &anyMatcher{
-																																line: 2885, col: 9, offset: 91036,
+																																line: 2895, col: 9, offset: 91300,
 																															},
 																														},
 																													},
@@ -17550,9 +17550,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2885, col: 8, offset: 91035},
+																										pos: position{line: 2895, col: 8, offset: 91299},
 																										expr: &anyMatcher{
-																											line: 2885, col: 9, offset: 91036,
+																											line: 2895, col: 9, offset: 91300,
 																										},
 																									},
 																								},
@@ -17568,21 +17568,21 @@ var g = &grammar{
 																									pos: position{line: 811, col: 5, offset: 26161},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2883, col: 11, offset: 91021},
+																											pos: position{line: 2893, col: 11, offset: 91285},
 																											expr: &anyMatcher{
-																												line: 2883, col: 13, offset: 91023,
+																												line: 2893, col: 13, offset: 91287,
 																											},
 																										},
 																										&labeledExpr{
 																											pos:   position{line: 812, col: 5, offset: 26236},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2812, col: 13, offset: 89213},
+																												pos: position{line: 2822, col: 13, offset: 89477},
 																												run: (*parser).callonDocumentHeader365,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2812, col: 13, offset: 89213},
+																													pos: position{line: 2822, col: 13, offset: 89477},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2812, col: 13, offset: 89213},
+																														pos:        position{line: 2822, col: 13, offset: 89477},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -17592,28 +17592,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2888, col: 8, offset: 91085},
+																											pos: position{line: 2898, col: 8, offset: 91349},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2875, col: 12, offset: 90858},
+																													pos: position{line: 2885, col: 12, offset: 91122},
 																													run: (*parser).callonDocumentHeader369,
 																													expr: &choiceExpr{
-																														pos: position{line: 2875, col: 13, offset: 90859},
+																														pos: position{line: 2885, col: 13, offset: 91123},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 13, offset: 90859},
+																																pos:        position{line: 2885, col: 13, offset: 91123},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 20, offset: 90866},
+																																pos:        position{line: 2885, col: 20, offset: 91130},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 29, offset: 90875},
+																																pos:        position{line: 2885, col: 29, offset: 91139},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17622,9 +17622,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2885, col: 8, offset: 91035},
+																													pos: position{line: 2895, col: 8, offset: 91299},
 																													expr: &anyMatcher{
-																														line: 2885, col: 9, offset: 91036,
+																														line: 2895, col: 9, offset: 91300,
 																													},
 																												},
 																											},
@@ -17680,10 +17680,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 742, col: 8, offset: 23754},
 																								expr: &actionExpr{
-																									pos: position{line: 2866, col: 10, offset: 90687},
+																									pos: position{line: 2876, col: 10, offset: 90951},
 																									run: (*parser).callonDocumentHeader387,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2866, col: 10, offset: 90687},
+																										pos:        position{line: 2876, col: 10, offset: 90951},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -17692,28 +17692,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2888, col: 8, offset: 91085},
+																								pos: position{line: 2898, col: 8, offset: 91349},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2875, col: 12, offset: 90858},
+																										pos: position{line: 2885, col: 12, offset: 91122},
 																										run: (*parser).callonDocumentHeader390,
 																										expr: &choiceExpr{
-																											pos: position{line: 2875, col: 13, offset: 90859},
+																											pos: position{line: 2885, col: 13, offset: 91123},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 13, offset: 90859},
+																													pos:        position{line: 2885, col: 13, offset: 91123},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 20, offset: 90866},
+																													pos:        position{line: 2885, col: 20, offset: 91130},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 29, offset: 90875},
+																													pos:        position{line: 2885, col: 29, offset: 91139},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -17722,9 +17722,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2885, col: 8, offset: 91035},
+																										pos: position{line: 2895, col: 8, offset: 91299},
 																										expr: &anyMatcher{
-																											line: 2885, col: 9, offset: 91036,
+																											line: 2895, col: 9, offset: 91300,
 																										},
 																									},
 																								},
@@ -17733,9 +17733,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2885, col: 8, offset: 91035},
+																					pos: position{line: 2895, col: 8, offset: 91299},
 																					expr: &anyMatcher{
-																						line: 2885, col: 9, offset: 91036,
+																						line: 2895, col: 9, offset: 91300,
 																					},
 																				},
 																			},
@@ -17761,10 +17761,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1169, col: 21, offset: 35960},
 																	expr: &actionExpr{
-																		pos: position{line: 2866, col: 10, offset: 90687},
+																		pos: position{line: 2876, col: 10, offset: 90951},
 																		run: (*parser).callonDocumentHeader404,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2866, col: 10, offset: 90687},
+																			pos:        position{line: 2876, col: 10, offset: 90951},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -17866,10 +17866,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 1181, col: 28, offset: 36591},
 																													expr: &actionExpr{
-																														pos: position{line: 2866, col: 10, offset: 90687},
+																														pos: position{line: 2876, col: 10, offset: 90951},
 																														run: (*parser).callonDocumentHeader428,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2866, col: 10, offset: 90687},
+																															pos:        position{line: 2876, col: 10, offset: 90951},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -18016,28 +18016,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2888, col: 8, offset: 91085},
+																	pos: position{line: 2898, col: 8, offset: 91349},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2875, col: 12, offset: 90858},
+																			pos: position{line: 2885, col: 12, offset: 91122},
 																			run: (*parser).callonDocumentHeader460,
 																			expr: &choiceExpr{
-																				pos: position{line: 2875, col: 13, offset: 90859},
+																				pos: position{line: 2885, col: 13, offset: 91123},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 13, offset: 90859},
+																						pos:        position{line: 2885, col: 13, offset: 91123},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 20, offset: 90866},
+																						pos:        position{line: 2885, col: 20, offset: 91130},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 29, offset: 90875},
+																						pos:        position{line: 2885, col: 29, offset: 91139},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18046,9 +18046,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2885, col: 8, offset: 91035},
+																			pos: position{line: 2895, col: 8, offset: 91299},
 																			expr: &anyMatcher{
-																				line: 2885, col: 9, offset: 91036,
+																				line: 2895, col: 9, offset: 91300,
 																			},
 																		},
 																	},
@@ -18128,10 +18128,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 360, col: 49, offset: 10940},
 														expr: &actionExpr{
-															pos: position{line: 2866, col: 10, offset: 90687},
+															pos: position{line: 2876, col: 10, offset: 90951},
 															run: (*parser).callonDocumentHeader482,
 															expr: &charClassMatcher{
-																pos:        position{line: 2866, col: 10, offset: 90687},
+																pos:        position{line: 2876, col: 10, offset: 90951},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18140,28 +18140,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2888, col: 8, offset: 91085},
+														pos: position{line: 2898, col: 8, offset: 91349},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2875, col: 12, offset: 90858},
+																pos: position{line: 2885, col: 12, offset: 91122},
 																run: (*parser).callonDocumentHeader485,
 																expr: &choiceExpr{
-																	pos: position{line: 2875, col: 13, offset: 90859},
+																	pos: position{line: 2885, col: 13, offset: 91123},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 13, offset: 90859},
+																			pos:        position{line: 2885, col: 13, offset: 91123},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 20, offset: 90866},
+																			pos:        position{line: 2885, col: 20, offset: 91130},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 29, offset: 90875},
+																			pos:        position{line: 2885, col: 29, offset: 91139},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18170,9 +18170,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2885, col: 8, offset: 91035},
+																pos: position{line: 2895, col: 8, offset: 91299},
 																expr: &anyMatcher{
-																	line: 2885, col: 9, offset: 91036,
+																	line: 2895, col: 9, offset: 91300,
 																},
 															},
 														},
@@ -18233,10 +18233,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 39, offset: 11061},
 														expr: &actionExpr{
-															pos: position{line: 2866, col: 10, offset: 90687},
+															pos: position{line: 2876, col: 10, offset: 90951},
 															run: (*parser).callonDocumentHeader503,
 															expr: &charClassMatcher{
-																pos:        position{line: 2866, col: 10, offset: 90687},
+																pos:        position{line: 2876, col: 10, offset: 90951},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18245,28 +18245,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2888, col: 8, offset: 91085},
+														pos: position{line: 2898, col: 8, offset: 91349},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2875, col: 12, offset: 90858},
+																pos: position{line: 2885, col: 12, offset: 91122},
 																run: (*parser).callonDocumentHeader506,
 																expr: &choiceExpr{
-																	pos: position{line: 2875, col: 13, offset: 90859},
+																	pos: position{line: 2885, col: 13, offset: 91123},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 13, offset: 90859},
+																			pos:        position{line: 2885, col: 13, offset: 91123},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 20, offset: 90866},
+																			pos:        position{line: 2885, col: 20, offset: 91130},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 29, offset: 90875},
+																			pos:        position{line: 2885, col: 29, offset: 91139},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18275,9 +18275,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2885, col: 8, offset: 91035},
+																pos: position{line: 2895, col: 8, offset: 91299},
 																expr: &anyMatcher{
-																	line: 2885, col: 9, offset: 91036,
+																	line: 2895, col: 9, offset: 91300,
 																},
 															},
 														},
@@ -18286,36 +18286,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2473, col: 22, offset: 79594},
+											pos: position{line: 2483, col: 22, offset: 79858},
 											run: (*parser).callonDocumentHeader513,
 											expr: &seqExpr{
-												pos: position{line: 2473, col: 22, offset: 79594},
+												pos: position{line: 2483, col: 22, offset: 79858},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2478, col: 31, offset: 79815},
+														pos:        position{line: 2488, col: 31, offset: 80079},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2478, col: 36, offset: 79820},
+														pos: position{line: 2488, col: 36, offset: 80084},
 														expr: &litMatcher{
-															pos:        position{line: 2478, col: 37, offset: 79821},
+															pos:        position{line: 2488, col: 37, offset: 80085},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2473, col: 49, offset: 79621},
+														pos:   position{line: 2483, col: 49, offset: 79885},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2812, col: 13, offset: 89213},
+															pos: position{line: 2822, col: 13, offset: 89477},
 															run: (*parser).callonDocumentHeader519,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2812, col: 13, offset: 89213},
+																pos: position{line: 2822, col: 13, offset: 89477},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2812, col: 13, offset: 89213},
+																	pos:        position{line: 2822, col: 13, offset: 89477},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -18325,28 +18325,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2888, col: 8, offset: 91085},
+														pos: position{line: 2898, col: 8, offset: 91349},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2875, col: 12, offset: 90858},
+																pos: position{line: 2885, col: 12, offset: 91122},
 																run: (*parser).callonDocumentHeader523,
 																expr: &choiceExpr{
-																	pos: position{line: 2875, col: 13, offset: 90859},
+																	pos: position{line: 2885, col: 13, offset: 91123},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 13, offset: 90859},
+																			pos:        position{line: 2885, col: 13, offset: 91123},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 20, offset: 90866},
+																			pos:        position{line: 2885, col: 20, offset: 91130},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 29, offset: 90875},
+																			pos:        position{line: 2885, col: 29, offset: 91139},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18355,9 +18355,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2885, col: 8, offset: 91035},
+																pos: position{line: 2895, col: 8, offset: 91299},
 																expr: &anyMatcher{
-																	line: 2885, col: 9, offset: 91036,
+																	line: 2895, col: 9, offset: 91300,
 																},
 															},
 														},
@@ -18408,10 +18408,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 742, col: 8, offset: 23754},
 																	expr: &actionExpr{
-																		pos: position{line: 2866, col: 10, offset: 90687},
+																		pos: position{line: 2876, col: 10, offset: 90951},
 																		run: (*parser).callonDocumentHeader541,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2866, col: 10, offset: 90687},
+																			pos:        position{line: 2876, col: 10, offset: 90951},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18420,28 +18420,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2888, col: 8, offset: 91085},
+																	pos: position{line: 2898, col: 8, offset: 91349},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2875, col: 12, offset: 90858},
+																			pos: position{line: 2885, col: 12, offset: 91122},
 																			run: (*parser).callonDocumentHeader544,
 																			expr: &choiceExpr{
-																				pos: position{line: 2875, col: 13, offset: 90859},
+																				pos: position{line: 2885, col: 13, offset: 91123},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 13, offset: 90859},
+																						pos:        position{line: 2885, col: 13, offset: 91123},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 20, offset: 90866},
+																						pos:        position{line: 2885, col: 20, offset: 91130},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 29, offset: 90875},
+																						pos:        position{line: 2885, col: 29, offset: 91139},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18450,9 +18450,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2885, col: 8, offset: 91035},
+																			pos: position{line: 2895, col: 8, offset: 91299},
 																			expr: &anyMatcher{
-																				line: 2885, col: 9, offset: 91036,
+																				line: 2895, col: 9, offset: 91300,
 																			},
 																		},
 																	},
@@ -18513,10 +18513,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 742, col: 8, offset: 23754},
 																									expr: &actionExpr{
-																										pos: position{line: 2866, col: 10, offset: 90687},
+																										pos: position{line: 2876, col: 10, offset: 90951},
 																										run: (*parser).callonDocumentHeader566,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2866, col: 10, offset: 90687},
+																											pos:        position{line: 2876, col: 10, offset: 90951},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -18525,28 +18525,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2888, col: 8, offset: 91085},
+																									pos: position{line: 2898, col: 8, offset: 91349},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2875, col: 12, offset: 90858},
+																											pos: position{line: 2885, col: 12, offset: 91122},
 																											run: (*parser).callonDocumentHeader569,
 																											expr: &choiceExpr{
-																												pos: position{line: 2875, col: 13, offset: 90859},
+																												pos: position{line: 2885, col: 13, offset: 91123},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 13, offset: 90859},
+																														pos:        position{line: 2885, col: 13, offset: 91123},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 20, offset: 90866},
+																														pos:        position{line: 2885, col: 20, offset: 91130},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 29, offset: 90875},
+																														pos:        position{line: 2885, col: 29, offset: 91139},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -18555,9 +18555,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2885, col: 8, offset: 91035},
+																											pos: position{line: 2895, col: 8, offset: 91299},
 																											expr: &anyMatcher{
-																												line: 2885, col: 9, offset: 91036,
+																												line: 2895, col: 9, offset: 91300,
 																											},
 																										},
 																									},
@@ -18566,9 +18566,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2885, col: 8, offset: 91035},
+																						pos: position{line: 2895, col: 8, offset: 91299},
 																						expr: &anyMatcher{
-																							line: 2885, col: 9, offset: 91036,
+																							line: 2895, col: 9, offset: 91300,
 																						},
 																					},
 																				},
@@ -18584,21 +18584,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26161},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2883, col: 11, offset: 91021},
+																							pos: position{line: 2893, col: 11, offset: 91285},
 																							expr: &anyMatcher{
-																								line: 2883, col: 13, offset: 91023,
+																								line: 2893, col: 13, offset: 91287,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26236},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2812, col: 13, offset: 89213},
+																								pos: position{line: 2822, col: 13, offset: 89477},
 																								run: (*parser).callonDocumentHeader584,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2812, col: 13, offset: 89213},
+																									pos: position{line: 2822, col: 13, offset: 89477},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2812, col: 13, offset: 89213},
+																										pos:        position{line: 2822, col: 13, offset: 89477},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -18608,28 +18608,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91085},
+																							pos: position{line: 2898, col: 8, offset: 91349},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90858},
+																									pos: position{line: 2885, col: 12, offset: 91122},
 																									run: (*parser).callonDocumentHeader588,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90859},
+																										pos: position{line: 2885, col: 13, offset: 91123},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90859},
+																												pos:        position{line: 2885, col: 13, offset: 91123},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90866},
+																												pos:        position{line: 2885, col: 20, offset: 91130},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90875},
+																												pos:        position{line: 2885, col: 29, offset: 91139},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -18638,9 +18638,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91035},
+																									pos: position{line: 2895, col: 8, offset: 91299},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91036,
+																										line: 2895, col: 9, offset: 91300,
 																									},
 																								},
 																							},
@@ -18696,10 +18696,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 742, col: 8, offset: 23754},
 																				expr: &actionExpr{
-																					pos: position{line: 2866, col: 10, offset: 90687},
+																					pos: position{line: 2876, col: 10, offset: 90951},
 																					run: (*parser).callonDocumentHeader606,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2866, col: 10, offset: 90687},
+																						pos:        position{line: 2876, col: 10, offset: 90951},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -18708,28 +18708,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2888, col: 8, offset: 91085},
+																				pos: position{line: 2898, col: 8, offset: 91349},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2875, col: 12, offset: 90858},
+																						pos: position{line: 2885, col: 12, offset: 91122},
 																						run: (*parser).callonDocumentHeader609,
 																						expr: &choiceExpr{
-																							pos: position{line: 2875, col: 13, offset: 90859},
+																							pos: position{line: 2885, col: 13, offset: 91123},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2875, col: 13, offset: 90859},
+																									pos:        position{line: 2885, col: 13, offset: 91123},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2875, col: 20, offset: 90866},
+																									pos:        position{line: 2885, col: 20, offset: 91130},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2875, col: 29, offset: 90875},
+																									pos:        position{line: 2885, col: 29, offset: 91139},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -18738,9 +18738,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2885, col: 8, offset: 91035},
+																						pos: position{line: 2895, col: 8, offset: 91299},
 																						expr: &anyMatcher{
-																							line: 2885, col: 9, offset: 91036,
+																							line: 2895, col: 9, offset: 91300,
 																						},
 																					},
 																				},
@@ -18749,9 +18749,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2885, col: 8, offset: 91035},
+																	pos: position{line: 2895, col: 8, offset: 91299},
 																	expr: &anyMatcher{
-																		line: 2885, col: 9, offset: 91036,
+																		line: 2895, col: 9, offset: 91300,
 																	},
 																},
 															},
@@ -18784,12 +18784,12 @@ var g = &grammar{
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2870, col: 11, offset: 90748},
+							pos: position{line: 2880, col: 11, offset: 91012},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2870, col: 11, offset: 90748},
+								pos: position{line: 2880, col: 11, offset: 91012},
 								expr: &charClassMatcher{
-									pos:        position{line: 2870, col: 11, offset: 90748},
+									pos:        position{line: 2880, col: 11, offset: 91012},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18806,28 +18806,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2888, col: 8, offset: 91085},
+							pos: position{line: 2898, col: 8, offset: 91349},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2875, col: 12, offset: 90858},
+									pos: position{line: 2885, col: 12, offset: 91122},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2875, col: 13, offset: 90859},
+										pos: position{line: 2885, col: 13, offset: 91123},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2875, col: 13, offset: 90859},
+												pos:        position{line: 2885, col: 13, offset: 91123},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2875, col: 20, offset: 90866},
+												pos:        position{line: 2885, col: 20, offset: 91130},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2875, col: 29, offset: 90875},
+												pos:        position{line: 2885, col: 29, offset: 91139},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -18836,9 +18836,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2885, col: 8, offset: 91035},
+									pos: position{line: 2895, col: 8, offset: 91299},
 									expr: &anyMatcher{
-										line: 2885, col: 9, offset: 91036,
+										line: 2895, col: 9, offset: 91300,
 									},
 								},
 							},
@@ -18877,10 +18877,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1144, col: 5, offset: 35364},
 							expr: &actionExpr{
-								pos: position{line: 2866, col: 10, offset: 90687},
+								pos: position{line: 2876, col: 10, offset: 90951},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2866, col: 10, offset: 90687},
+									pos:        position{line: 2876, col: 10, offset: 90951},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18912,10 +18912,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1148, col: 5, offset: 35463},
 							expr: &actionExpr{
-								pos: position{line: 2866, col: 10, offset: 90687},
+								pos: position{line: 2876, col: 10, offset: 90951},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2866, col: 10, offset: 90687},
+									pos:        position{line: 2876, col: 10, offset: 90951},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18947,10 +18947,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1152, col: 5, offset: 35560},
 							expr: &actionExpr{
-								pos: position{line: 2866, col: 10, offset: 90687},
+								pos: position{line: 2876, col: 10, offset: 90951},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2866, col: 10, offset: 90687},
+									pos:        position{line: 2876, col: 10, offset: 90951},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19016,12 +19016,12 @@ var g = &grammar{
 							pos:   position{line: 1280, col: 13, offset: 39762},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2851, col: 7, offset: 90339},
+								pos: position{line: 2861, col: 7, offset: 90603},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2851, col: 7, offset: 90339},
+									pos: position{line: 2861, col: 7, offset: 90603},
 									expr: &charClassMatcher{
-										pos:        position{line: 2851, col: 7, offset: 90339},
+										pos:        position{line: 2861, col: 7, offset: 90603},
 										val:        "[^[]<>,\\r\\n]",
 										chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 										ignoreCase: false,
@@ -19090,12 +19090,12 @@ var g = &grammar{
 							pos: position{line: 1291, col: 31, offset: 40222},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2760, col: 14, offset: 87856},
+									pos: position{line: 2770, col: 14, offset: 88120},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2760, col: 14, offset: 87856},
+										pos: position{line: 2770, col: 14, offset: 88120},
 										expr: &charClassMatcher{
-											pos:        position{line: 2760, col: 14, offset: 87856},
+											pos:        position{line: 2770, col: 14, offset: 88120},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -19108,10 +19108,10 @@ var g = &grammar{
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2866, col: 10, offset: 90687},
+									pos: position{line: 2876, col: 10, offset: 90951},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2866, col: 10, offset: 90687},
+										pos:        position{line: 2876, col: 10, offset: 90951},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -19119,23 +19119,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2460, col: 5, offset: 79140},
+									pos: position{line: 2470, col: 5, offset: 79404},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2460, col: 5, offset: 79140},
+										pos: position{line: 2470, col: 5, offset: 79404},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2460, col: 5, offset: 79140},
+												pos: position{line: 2470, col: 5, offset: 79404},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2463, col: 5, offset: 79216},
+												pos:   position{line: 2473, col: 5, offset: 79480},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2464, col: 9, offset: 79234},
+													pos: position{line: 2474, col: 9, offset: 79498},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2464, col: 10, offset: 79235},
+														pos:        position{line: 2474, col: 10, offset: 79499},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -19225,10 +19225,10 @@ var g = &grammar{
 							pos:   position{line: 1312, col: 5, offset: 41030},
 							label: "start",
 							expr: &actionExpr{
-								pos: position{line: 2891, col: 16, offset: 91209},
+								pos: position{line: 2901, col: 16, offset: 91473},
 								run: (*parser).callonImageBlock4,
 								expr: &litMatcher{
-									pos:        position{line: 2891, col: 16, offset: 91209},
+									pos:        position{line: 2901, col: 16, offset: 91473},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -19245,48 +19245,48 @@ var g = &grammar{
 							pos:   position{line: 1312, col: 35, offset: 41060},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2824, col: 13, offset: 89446},
+								pos: position{line: 2834, col: 13, offset: 89710},
 								run: (*parser).callonImageBlock8,
 								expr: &seqExpr{
-									pos: position{line: 2824, col: 13, offset: 89446},
+									pos: position{line: 2834, col: 13, offset: 89710},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2824, col: 13, offset: 89446},
+											pos:   position{line: 2834, col: 13, offset: 89710},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2824, col: 20, offset: 89453},
+												pos: position{line: 2834, col: 20, offset: 89717},
 												expr: &actionExpr{
-													pos: position{line: 2832, col: 11, offset: 89692},
+													pos: position{line: 2842, col: 11, offset: 89956},
 													run: (*parser).callonImageBlock12,
 													expr: &choiceExpr{
-														pos: position{line: 2832, col: 12, offset: 89693},
+														pos: position{line: 2842, col: 12, offset: 89957},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2832, col: 12, offset: 89693},
+																pos:        position{line: 2842, col: 12, offset: 89957},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2832, col: 24, offset: 89705},
+																pos:        position{line: 2842, col: 24, offset: 89969},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2832, col: 37, offset: 89718},
+																pos:        position{line: 2842, col: 37, offset: 89982},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2832, col: 48, offset: 89729},
+																pos:        position{line: 2842, col: 48, offset: 89993},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2832, col: 59, offset: 89740},
+																pos:        position{line: 2842, col: 59, offset: 90004},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19297,38 +19297,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2824, col: 30, offset: 89463},
+											pos:   position{line: 2834, col: 30, offset: 89727},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2837, col: 5, offset: 89804},
+												pos: position{line: 2847, col: 5, offset: 90068},
 												run: (*parser).callonImageBlock20,
 												expr: &labeledExpr{
-													pos:   position{line: 2837, col: 5, offset: 89804},
+													pos:   position{line: 2847, col: 5, offset: 90068},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2837, col: 14, offset: 89813},
+														pos: position{line: 2847, col: 14, offset: 90077},
 														expr: &choiceExpr{
-															pos: position{line: 2838, col: 9, offset: 89823},
+															pos: position{line: 2848, col: 9, offset: 90087},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2838, col: 9, offset: 89823},
+																	pos: position{line: 2848, col: 9, offset: 90087},
 																	run: (*parser).callonImageBlock24,
 																	expr: &seqExpr{
-																		pos: position{line: 2838, col: 9, offset: 89823},
+																		pos: position{line: 2848, col: 9, offset: 90087},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2838, col: 9, offset: 89823},
+																				pos: position{line: 2848, col: 9, offset: 90087},
 																				expr: &litMatcher{
-																					pos:        position{line: 2838, col: 10, offset: 89824},
+																					pos:        position{line: 2848, col: 10, offset: 90088},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2839, col: 9, offset: 89852},
+																				pos: position{line: 2849, col: 9, offset: 90116},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2839, col: 10, offset: 89853},
+																					pos:        position{line: 2849, col: 10, offset: 90117},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19339,27 +19339,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2842, col: 11, offset: 90065},
+																	pos: position{line: 2852, col: 11, offset: 90329},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2842, col: 11, offset: 90065},
+																			pos:        position{line: 2852, col: 11, offset: 90329},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2842, col: 19, offset: 90073},
+																			pos: position{line: 2852, col: 19, offset: 90337},
 																			expr: &seqExpr{
-																				pos: position{line: 2842, col: 21, offset: 90075},
+																				pos: position{line: 2852, col: 21, offset: 90339},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2842, col: 21, offset: 90075},
+																						pos: position{line: 2852, col: 21, offset: 90339},
 																						expr: &actionExpr{
-																							pos: position{line: 2866, col: 10, offset: 90687},
+																							pos: position{line: 2876, col: 10, offset: 90951},
 																							run: (*parser).callonImageBlock35,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2866, col: 10, offset: 90687},
+																								pos:        position{line: 2876, col: 10, offset: 90951},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19368,11 +19368,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2842, col: 28, offset: 90082},
+																						pos: position{line: 2852, col: 28, offset: 90346},
 																						expr: &notExpr{
-																							pos: position{line: 2885, col: 8, offset: 91035},
+																							pos: position{line: 2895, col: 8, offset: 91299},
 																							expr: &anyMatcher{
-																								line: 2885, col: 9, offset: 91036,
+																								line: 2895, col: 9, offset: 91300,
 																							},
 																						},
 																					},
@@ -19767,10 +19767,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2845, col: 11, offset: 90202},
+																	pos: position{line: 2855, col: 11, offset: 90466},
 																	run: (*parser).callonImageBlock117,
 																	expr: &litMatcher{
-																		pos:        position{line: 2845, col: 11, offset: 90202},
+																		pos:        position{line: 2855, col: 11, offset: 90466},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -19797,10 +19797,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1312, col: 81, offset: 41106},
 							expr: &actionExpr{
-								pos: position{line: 2866, col: 10, offset: 90687},
+								pos: position{line: 2876, col: 10, offset: 90951},
 								run: (*parser).callonImageBlock122,
 								expr: &charClassMatcher{
-									pos:        position{line: 2866, col: 10, offset: 90687},
+									pos:        position{line: 2876, col: 10, offset: 90951},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19812,10 +19812,10 @@ var g = &grammar{
 							pos:   position{line: 1312, col: 88, offset: 41113},
 							label: "end",
 							expr: &actionExpr{
-								pos: position{line: 2891, col: 16, offset: 91209},
+								pos: position{line: 2901, col: 16, offset: 91473},
 								run: (*parser).callonImageBlock125,
 								expr: &litMatcher{
-									pos:        position{line: 2891, col: 16, offset: 91209},
+									pos:        position{line: 2901, col: 16, offset: 91473},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -19827,28 +19827,28 @@ var g = &grammar{
 							run: (*parser).callonImageBlock127,
 						},
 						&choiceExpr{
-							pos: position{line: 2888, col: 8, offset: 91085},
+							pos: position{line: 2898, col: 8, offset: 91349},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2875, col: 12, offset: 90858},
+									pos: position{line: 2885, col: 12, offset: 91122},
 									run: (*parser).callonImageBlock129,
 									expr: &choiceExpr{
-										pos: position{line: 2875, col: 13, offset: 90859},
+										pos: position{line: 2885, col: 13, offset: 91123},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2875, col: 13, offset: 90859},
+												pos:        position{line: 2885, col: 13, offset: 91123},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2875, col: 20, offset: 90866},
+												pos:        position{line: 2885, col: 20, offset: 91130},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2875, col: 29, offset: 90875},
+												pos:        position{line: 2885, col: 29, offset: 91139},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19857,9 +19857,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2885, col: 8, offset: 91035},
+									pos: position{line: 2895, col: 8, offset: 91299},
 									expr: &anyMatcher{
-										line: 2885, col: 9, offset: 91036,
+										line: 2895, col: 9, offset: 91300,
 									},
 								},
 							},
@@ -19896,48 +19896,48 @@ var g = &grammar{
 							pos:   position{line: 1317, col: 30, offset: 41400},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2824, col: 13, offset: 89446},
+								pos: position{line: 2834, col: 13, offset: 89710},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2824, col: 13, offset: 89446},
+									pos: position{line: 2834, col: 13, offset: 89710},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2824, col: 13, offset: 89446},
+											pos:   position{line: 2834, col: 13, offset: 89710},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2824, col: 20, offset: 89453},
+												pos: position{line: 2834, col: 20, offset: 89717},
 												expr: &actionExpr{
-													pos: position{line: 2832, col: 11, offset: 89692},
+													pos: position{line: 2842, col: 11, offset: 89956},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2832, col: 12, offset: 89693},
+														pos: position{line: 2842, col: 12, offset: 89957},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2832, col: 12, offset: 89693},
+																pos:        position{line: 2842, col: 12, offset: 89957},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2832, col: 24, offset: 89705},
+																pos:        position{line: 2842, col: 24, offset: 89969},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2832, col: 37, offset: 89718},
+																pos:        position{line: 2842, col: 37, offset: 89982},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2832, col: 48, offset: 89729},
+																pos:        position{line: 2842, col: 48, offset: 89993},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2832, col: 59, offset: 89740},
+																pos:        position{line: 2842, col: 59, offset: 90004},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19948,38 +19948,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2824, col: 30, offset: 89463},
+											pos:   position{line: 2834, col: 30, offset: 89727},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2837, col: 5, offset: 89804},
+												pos: position{line: 2847, col: 5, offset: 90068},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2837, col: 5, offset: 89804},
+													pos:   position{line: 2847, col: 5, offset: 90068},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2837, col: 14, offset: 89813},
+														pos: position{line: 2847, col: 14, offset: 90077},
 														expr: &choiceExpr{
-															pos: position{line: 2838, col: 9, offset: 89823},
+															pos: position{line: 2848, col: 9, offset: 90087},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2838, col: 9, offset: 89823},
+																	pos: position{line: 2848, col: 9, offset: 90087},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2838, col: 9, offset: 89823},
+																		pos: position{line: 2848, col: 9, offset: 90087},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2838, col: 9, offset: 89823},
+																				pos: position{line: 2848, col: 9, offset: 90087},
 																				expr: &litMatcher{
-																					pos:        position{line: 2838, col: 10, offset: 89824},
+																					pos:        position{line: 2848, col: 10, offset: 90088},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2839, col: 9, offset: 89852},
+																				pos: position{line: 2849, col: 9, offset: 90116},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2839, col: 10, offset: 89853},
+																					pos:        position{line: 2849, col: 10, offset: 90117},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19990,27 +19990,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2842, col: 11, offset: 90065},
+																	pos: position{line: 2852, col: 11, offset: 90329},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2842, col: 11, offset: 90065},
+																			pos:        position{line: 2852, col: 11, offset: 90329},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2842, col: 19, offset: 90073},
+																			pos: position{line: 2852, col: 19, offset: 90337},
 																			expr: &seqExpr{
-																				pos: position{line: 2842, col: 21, offset: 90075},
+																				pos: position{line: 2852, col: 21, offset: 90339},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2842, col: 21, offset: 90075},
+																						pos: position{line: 2852, col: 21, offset: 90339},
 																						expr: &actionExpr{
-																							pos: position{line: 2866, col: 10, offset: 90687},
+																							pos: position{line: 2876, col: 10, offset: 90951},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2866, col: 10, offset: 90687},
+																								pos:        position{line: 2876, col: 10, offset: 90951},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20019,11 +20019,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2842, col: 28, offset: 90082},
+																						pos: position{line: 2852, col: 28, offset: 90346},
 																						expr: &notExpr{
-																							pos: position{line: 2885, col: 8, offset: 91035},
+																							pos: position{line: 2895, col: 8, offset: 91299},
 																							expr: &anyMatcher{
-																								line: 2885, col: 9, offset: 91036,
+																								line: 2895, col: 9, offset: 91300,
 																							},
 																						},
 																					},
@@ -20418,10 +20418,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2845, col: 11, offset: 90202},
+																	pos: position{line: 2855, col: 11, offset: 90466},
 																	run: (*parser).callonInlineImage116,
 																	expr: &litMatcher{
-																		pos:        position{line: 2845, col: 11, offset: 90202},
+																		pos:        position{line: 2855, col: 11, offset: 90466},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20600,21 +20600,21 @@ var g = &grammar{
 								pos: position{line: 1344, col: 9, offset: 42686},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2765, col: 5, offset: 87929},
+										pos: position{line: 2775, col: 5, offset: 88193},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2765, col: 5, offset: 87929},
+											pos: position{line: 2775, col: 5, offset: 88193},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2765, col: 5, offset: 87929},
+													pos:   position{line: 2775, col: 5, offset: 88193},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2765, col: 11, offset: 87935},
+														pos: position{line: 2775, col: 11, offset: 88199},
 														run: (*parser).callonFootnoteElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2765, col: 11, offset: 87935},
+															pos: position{line: 2775, col: 11, offset: 88199},
 															expr: &charClassMatcher{
-																pos:        position{line: 2765, col: 11, offset: 87935},
+																pos:        position{line: 2775, col: 11, offset: 88199},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -20624,36 +20624,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2768, col: 5, offset: 87993},
+													pos: position{line: 2778, col: 5, offset: 88257},
 													expr: &seqExpr{
-														pos: position{line: 2769, col: 9, offset: 88004},
+														pos: position{line: 2779, col: 9, offset: 88268},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2769, col: 9, offset: 88004},
+																pos:        position{line: 2779, col: 9, offset: 88268},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2770, col: 9, offset: 88053},
+																pos: position{line: 2780, col: 9, offset: 88317},
 																run: (*parser).callonFootnoteElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2774, col: 5, offset: 88133},
+													pos: position{line: 2784, col: 5, offset: 88397},
 													expr: &seqExpr{
-														pos: position{line: 2775, col: 9, offset: 88144},
+														pos: position{line: 2785, col: 9, offset: 88408},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2775, col: 9, offset: 88144},
+																pos:        position{line: 2785, col: 9, offset: 88408},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2775, col: 13, offset: 88148},
+																pos:        position{line: 2785, col: 13, offset: 88412},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -20666,12 +20666,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2870, col: 11, offset: 90748},
+										pos: position{line: 2880, col: 11, offset: 91012},
 										run: (*parser).callonFootnoteElement21,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2870, col: 11, offset: 90748},
+											pos: position{line: 2880, col: 11, offset: 91012},
 											expr: &charClassMatcher{
-												pos:        position{line: 2870, col: 11, offset: 90748},
+												pos:        position{line: 2880, col: 11, offset: 91012},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -20680,25 +20680,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2491, col: 5, offset: 80311},
+										pos: position{line: 2501, col: 5, offset: 80575},
 										run: (*parser).callonFootnoteElement24,
 										expr: &seqExpr{
-											pos: position{line: 2491, col: 5, offset: 80311},
+											pos: position{line: 2501, col: 5, offset: 80575},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2491, col: 5, offset: 80311},
+													pos: position{line: 2501, col: 5, offset: 80575},
 													run: (*parser).callonFootnoteElement26,
 												},
 												&litMatcher{
-													pos:        position{line: 2494, col: 5, offset: 80382},
+													pos:        position{line: 2504, col: 5, offset: 80646},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2494, col: 10, offset: 80387},
+													pos: position{line: 2504, col: 10, offset: 80651},
 													expr: &charClassMatcher{
-														pos:        position{line: 2494, col: 11, offset: 80388},
+														pos:        position{line: 2504, col: 11, offset: 80652},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -20709,29 +20709,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2500, col: 5, offset: 80580},
+										pos: position{line: 2510, col: 5, offset: 80844},
 										run: (*parser).callonFootnoteElement30,
 										expr: &seqExpr{
-											pos: position{line: 2500, col: 5, offset: 80580},
+											pos: position{line: 2510, col: 5, offset: 80844},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2500, col: 5, offset: 80580},
+													pos: position{line: 2510, col: 5, offset: 80844},
 													run: (*parser).callonFootnoteElement32,
 												},
 												&andCodeExpr{
-													pos: position{line: 2503, col: 5, offset: 80651},
+													pos: position{line: 2513, col: 5, offset: 80915},
 													run: (*parser).callonFootnoteElement33,
 												},
 												&litMatcher{
-													pos:        position{line: 2507, col: 5, offset: 80776},
+													pos:        position{line: 2517, col: 5, offset: 81040},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2507, col: 9, offset: 80780},
+													pos: position{line: 2517, col: 9, offset: 81044},
 													expr: &charClassMatcher{
-														pos:        position{line: 2507, col: 10, offset: 80781},
+														pos:        position{line: 2517, col: 10, offset: 81045},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -20750,27 +20750,27 @@ var g = &grammar{
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2783, col: 5, offset: 88341},
+										pos: position{line: 2793, col: 5, offset: 88605},
 										run: (*parser).callonFootnoteElement39,
 										expr: &choiceExpr{
-											pos: position{line: 2784, col: 9, offset: 88351},
+											pos: position{line: 2794, col: 9, offset: 88615},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2784, col: 10, offset: 88352},
+													pos:        position{line: 2794, col: 10, offset: 88616},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2786, col: 13, offset: 88449},
+													pos: position{line: 2796, col: 13, offset: 88713},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2786, col: 13, offset: 88449},
+															pos: position{line: 2796, col: 13, offset: 88713},
 															run: (*parser).callonFootnoteElement43,
 														},
 														&litMatcher{
-															pos:        position{line: 2789, col: 13, offset: 88549},
+															pos:        position{line: 2799, col: 13, offset: 88813},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -20778,20 +20778,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2789, col: 19, offset: 88555},
+													pos:        position{line: 2799, col: 19, offset: 88819},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2792, col: 13, offset: 88593},
+													pos: position{line: 2802, col: 13, offset: 88857},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2792, col: 13, offset: 88593},
+															pos: position{line: 2802, col: 13, offset: 88857},
 															run: (*parser).callonFootnoteElement47,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2795, col: 14, offset: 88686},
+															pos:        position{line: 2805, col: 14, offset: 88950},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -20800,18 +20800,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2797, col: 12, offset: 88730},
+													pos: position{line: 2807, col: 12, offset: 88994},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2797, col: 12, offset: 88730},
+															pos:        position{line: 2807, col: 12, offset: 88994},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2797, col: 16, offset: 88734},
+															pos: position{line: 2807, col: 16, offset: 88998},
 															expr: &litMatcher{
-																pos:        position{line: 2797, col: 17, offset: 88735},
+																pos:        position{line: 2807, col: 17, offset: 88999},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -20849,10 +20849,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 1214, col: 5, offset: 37662},
 													expr: &actionExpr{
-														pos: position{line: 2866, col: 10, offset: 90687},
+														pos: position{line: 2876, col: 10, offset: 90951},
 														run: (*parser).callonFootnoteElement60,
 														expr: &charClassMatcher{
-															pos:        position{line: 2866, col: 10, offset: 90687},
+															pos:        position{line: 2876, col: 10, offset: 90951},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -20863,28 +20863,28 @@ var g = &grammar{
 												&andExpr{
 													pos: position{line: 1214, col: 12, offset: 37669},
 													expr: &choiceExpr{
-														pos: position{line: 2888, col: 8, offset: 91085},
+														pos: position{line: 2898, col: 8, offset: 91349},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2875, col: 12, offset: 90858},
+																pos: position{line: 2885, col: 12, offset: 91122},
 																run: (*parser).callonFootnoteElement64,
 																expr: &choiceExpr{
-																	pos: position{line: 2875, col: 13, offset: 90859},
+																	pos: position{line: 2885, col: 13, offset: 91123},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 13, offset: 90859},
+																			pos:        position{line: 2885, col: 13, offset: 91123},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 20, offset: 90866},
+																			pos:        position{line: 2885, col: 20, offset: 91130},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 29, offset: 90875},
+																			pos:        position{line: 2885, col: 29, offset: 91139},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -20893,9 +20893,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2885, col: 8, offset: 91035},
+																pos: position{line: 2895, col: 8, offset: 91299},
 																expr: &anyMatcher{
-																	line: 2885, col: 9, offset: 91036,
+																	line: 2895, col: 9, offset: 91300,
 																},
 															},
 														},
@@ -21251,23 +21251,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2460, col: 5, offset: 79140},
+										pos: position{line: 2470, col: 5, offset: 79404},
 										run: (*parser).callonFootnoteElement140,
 										expr: &seqExpr{
-											pos: position{line: 2460, col: 5, offset: 79140},
+											pos: position{line: 2470, col: 5, offset: 79404},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2460, col: 5, offset: 79140},
+													pos: position{line: 2470, col: 5, offset: 79404},
 													run: (*parser).callonFootnoteElement142,
 												},
 												&labeledExpr{
-													pos:   position{line: 2463, col: 5, offset: 79216},
+													pos:   position{line: 2473, col: 5, offset: 79480},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2464, col: 9, offset: 79234},
+														pos: position{line: 2474, col: 9, offset: 79498},
 														run: (*parser).callonFootnoteElement144,
 														expr: &charClassMatcher{
-															pos:        position{line: 2464, col: 10, offset: 79235},
+															pos:        position{line: 2474, col: 10, offset: 79499},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -21279,25 +21279,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2875, col: 12, offset: 90858},
+										pos: position{line: 2885, col: 12, offset: 91122},
 										run: (*parser).callonFootnoteElement146,
 										expr: &choiceExpr{
-											pos: position{line: 2875, col: 13, offset: 90859},
+											pos: position{line: 2885, col: 13, offset: 91123},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2875, col: 13, offset: 90859},
+													pos:        position{line: 2885, col: 13, offset: 91123},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2875, col: 20, offset: 90866},
+													pos:        position{line: 2885, col: 20, offset: 91130},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2875, col: 29, offset: 90875},
+													pos:        position{line: 2885, col: 29, offset: 91139},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -21306,10 +21306,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2805, col: 12, offset: 88995},
+										pos: position{line: 2815, col: 12, offset: 89259},
 										run: (*parser).callonFootnoteElement151,
 										expr: &charClassMatcher{
-											pos:        position{line: 2805, col: 12, offset: 88995},
+											pos:        position{line: 2815, col: 12, offset: 89259},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -21347,10 +21347,10 @@ var g = &grammar{
 									expr: &zeroOrMoreExpr{
 										pos: position{line: 1389, col: 38, offset: 44724},
 										expr: &actionExpr{
-											pos: position{line: 1395, col: 30, offset: 45050},
+											pos: position{line: 1405, col: 30, offset: 45314},
 											run: (*parser).callonPassthroughMacro7,
 											expr: &charClassMatcher{
-												pos:        position{line: 1395, col: 30, offset: 45050},
+												pos:        position{line: 1405, col: 30, offset: 45314},
 												val:        "[^]]",
 												chars:      []rune{']'},
 												ignoreCase: false,
@@ -21374,41 +21374,29 @@ var g = &grammar{
 						expr: &seqExpr{
 							pos: position{line: 1391, col: 9, offset: 44857},
 							exprs: []interface{}{
-								&litMatcher{
-									pos:        position{line: 1391, col: 9, offset: 44857},
-									val:        "pass:q[",
-									ignoreCase: false,
-									want:       "\"pass:q[\"",
+								&actionExpr{
+									pos: position{line: 1395, col: 33, offset: 45063},
+									run: (*parser).callonPassthroughMacro12,
+									expr: &litMatcher{
+										pos:        position{line: 1395, col: 33, offset: 45063},
+										val:        "pass:q[",
+										ignoreCase: false,
+										want:       "\"pass:q[\"",
+									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1391, col: 19, offset: 44867},
+									pos:   position{line: 1391, col: 38, offset: 44886},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1391, col: 27, offset: 44875},
-										expr: &choiceExpr{
-											pos: position{line: 1391, col: 28, offset: 44876},
-											alternatives: []interface{}{
-												&ruleRefExpr{
-													pos:  position{line: 1391, col: 28, offset: 44876},
-													name: "QuotedText",
-												},
-												&actionExpr{
-													pos: position{line: 1395, col: 30, offset: 45050},
-													run: (*parser).callonPassthroughMacro17,
-													expr: &charClassMatcher{
-														pos:        position{line: 1395, col: 30, offset: 45050},
-														val:        "[^]]",
-														chars:      []rune{']'},
-														ignoreCase: false,
-														inverted:   true,
-													},
-												},
-											},
+										pos: position{line: 1391, col: 46, offset: 44894},
+										expr: &ruleRefExpr{
+											pos:  position{line: 1391, col: 47, offset: 44895},
+											name: "PassthroughMacroQuotesElement",
 										},
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1391, col: 69, offset: 44917},
+									pos:        position{line: 1391, col: 79, offset: 44927},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -21419,77 +21407,109 @@ var g = &grammar{
 				},
 			},
 		},
+		{
+			name: "PassthroughMacroQuotesElement",
+			pos:  position{line: 1400, col: 1, offset: 45134},
+			expr: &actionExpr{
+				pos: position{line: 1400, col: 34, offset: 45167},
+				run: (*parser).callonPassthroughMacroQuotesElement1,
+				expr: &labeledExpr{
+					pos:   position{line: 1400, col: 34, offset: 45167},
+					label: "element",
+					expr: &choiceExpr{
+						pos: position{line: 1400, col: 43, offset: 45176},
+						alternatives: []interface{}{
+							&ruleRefExpr{
+								pos:  position{line: 1400, col: 43, offset: 45176},
+								name: "QuotedText",
+							},
+							&actionExpr{
+								pos: position{line: 1405, col: 30, offset: 45314},
+								run: (*parser).callonPassthroughMacroQuotesElement5,
+								expr: &charClassMatcher{
+									pos:        position{line: 1405, col: 30, offset: 45314},
+									val:        "[^]]",
+									chars:      []rune{']'},
+									ignoreCase: false,
+									inverted:   true,
+								},
+							},
+						},
+					},
+				},
+			},
+		},
 		{
 			name: "Link",
-			pos:  position{line: 1402, col: 1, offset: 45306},
+			pos:  position{line: 1412, col: 1, offset: 45570},
 			expr: &choiceExpr{
-				pos: position{line: 1402, col: 9, offset: 45314},
+				pos: position{line: 1412, col: 9, offset: 45578},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1405, col: 5, offset: 45383},
+						pos: position{line: 1415, col: 5, offset: 45647},
 						run: (*parser).callonLink2,
 						expr: &seqExpr{
-							pos: position{line: 1405, col: 5, offset: 45383},
+							pos: position{line: 1415, col: 5, offset: 45647},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1405, col: 5, offset: 45383},
+									pos:        position{line: 1415, col: 5, offset: 45647},
 									val:        "<",
 									ignoreCase: false,
 									want:       "\"<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1406, col: 5, offset: 45392},
+									pos:   position{line: 1416, col: 5, offset: 45656},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2828, col: 23, offset: 89573},
+										pos: position{line: 2838, col: 23, offset: 89837},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2828, col: 23, offset: 89573},
+											pos: position{line: 2838, col: 23, offset: 89837},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2828, col: 23, offset: 89573},
+													pos: position{line: 2838, col: 23, offset: 89837},
 													expr: &litMatcher{
-														pos:        position{line: 2828, col: 24, offset: 89574},
+														pos:        position{line: 2838, col: 24, offset: 89838},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2828, col: 28, offset: 89578},
+													pos:   position{line: 2838, col: 28, offset: 89842},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2832, col: 11, offset: 89692},
+														pos: position{line: 2842, col: 11, offset: 89956},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2832, col: 12, offset: 89693},
+															pos: position{line: 2842, col: 12, offset: 89957},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2832, col: 12, offset: 89693},
+																	pos:        position{line: 2842, col: 12, offset: 89957},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2832, col: 24, offset: 89705},
+																	pos:        position{line: 2842, col: 24, offset: 89969},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2832, col: 37, offset: 89718},
+																	pos:        position{line: 2842, col: 37, offset: 89982},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2832, col: 48, offset: 89729},
+																	pos:        position{line: 2842, col: 48, offset: 89993},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2832, col: 59, offset: 89740},
+																	pos:        position{line: 2842, col: 59, offset: 90004},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -21499,38 +21519,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2828, col: 44, offset: 89594},
+													pos:   position{line: 2838, col: 44, offset: 89858},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2837, col: 5, offset: 89804},
+														pos: position{line: 2847, col: 5, offset: 90068},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2837, col: 5, offset: 89804},
+															pos:   position{line: 2847, col: 5, offset: 90068},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2837, col: 14, offset: 89813},
+																pos: position{line: 2847, col: 14, offset: 90077},
 																expr: &choiceExpr{
-																	pos: position{line: 2838, col: 9, offset: 89823},
+																	pos: position{line: 2848, col: 9, offset: 90087},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2838, col: 9, offset: 89823},
+																			pos: position{line: 2848, col: 9, offset: 90087},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2838, col: 9, offset: 89823},
+																				pos: position{line: 2848, col: 9, offset: 90087},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2838, col: 9, offset: 89823},
+																						pos: position{line: 2848, col: 9, offset: 90087},
 																						expr: &litMatcher{
-																							pos:        position{line: 2838, col: 10, offset: 89824},
+																							pos:        position{line: 2848, col: 10, offset: 90088},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2839, col: 9, offset: 89852},
+																						pos: position{line: 2849, col: 9, offset: 90116},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2839, col: 10, offset: 89853},
+																							pos:        position{line: 2849, col: 10, offset: 90117},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -21541,27 +21561,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2842, col: 11, offset: 90065},
+																			pos: position{line: 2852, col: 11, offset: 90329},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2842, col: 11, offset: 90065},
+																					pos:        position{line: 2852, col: 11, offset: 90329},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2842, col: 19, offset: 90073},
+																					pos: position{line: 2852, col: 19, offset: 90337},
 																					expr: &seqExpr{
-																						pos: position{line: 2842, col: 21, offset: 90075},
+																						pos: position{line: 2852, col: 21, offset: 90339},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2842, col: 21, offset: 90075},
+																								pos: position{line: 2852, col: 21, offset: 90339},
 																								expr: &actionExpr{
-																									pos: position{line: 2866, col: 10, offset: 90687},
+																									pos: position{line: 2876, col: 10, offset: 90951},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2866, col: 10, offset: 90687},
+																										pos:        position{line: 2876, col: 10, offset: 90951},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -21570,11 +21590,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2842, col: 28, offset: 90082},
+																								pos: position{line: 2852, col: 28, offset: 90346},
 																								expr: &notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91035},
+																									pos: position{line: 2895, col: 8, offset: 91299},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91036,
+																										line: 2895, col: 9, offset: 91300,
 																									},
 																								},
 																							},
@@ -21969,10 +21989,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2845, col: 11, offset: 90202},
+																			pos: position{line: 2855, col: 11, offset: 90466},
 																			run: (*parser).callonLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2845, col: 11, offset: 90202},
+																				pos:        position{line: 2855, col: 11, offset: 90466},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -21989,7 +22009,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1411, col: 5, offset: 45611},
+									pos:        position{line: 1421, col: 5, offset: 45875},
 									val:        ">",
 									ignoreCase: false,
 									want:       "\">\"",
@@ -21998,38 +22018,38 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1402, col: 19, offset: 45324},
+						pos:  position{line: 1412, col: 19, offset: 45588},
 						name: "RelativeLink",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1402, col: 34, offset: 45339},
+						pos:  position{line: 1412, col: 34, offset: 45603},
 						name: "ExternalLink",
 					},
 					&actionExpr{
-						pos: position{line: 1440, col: 17, offset: 46604},
+						pos: position{line: 1450, col: 17, offset: 46868},
 						run: (*parser).callonLink121,
 						expr: &seqExpr{
-							pos: position{line: 1440, col: 17, offset: 46604},
+							pos: position{line: 1450, col: 17, offset: 46868},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1440, col: 17, offset: 46604},
+									pos:   position{line: 1450, col: 17, offset: 46868},
 									label: "local",
 									expr: &actionExpr{
-										pos: position{line: 1445, col: 5, offset: 46769},
+										pos: position{line: 1455, col: 5, offset: 47033},
 										run: (*parser).callonLink124,
 										expr: &seqExpr{
-											pos: position{line: 1445, col: 5, offset: 46769},
+											pos: position{line: 1455, col: 5, offset: 47033},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1445, col: 5, offset: 46769},
+													pos:   position{line: 1455, col: 5, offset: 47033},
 													label: "local",
 													expr: &actionExpr{
-														pos: position{line: 1445, col: 12, offset: 46776},
+														pos: position{line: 1455, col: 12, offset: 47040},
 														run: (*parser).callonLink127,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1445, col: 12, offset: 46776},
+															pos: position{line: 1455, col: 12, offset: 47040},
 															expr: &charClassMatcher{
-																pos:        position{line: 1445, col: 12, offset: 46776},
+																pos:        position{line: 1455, col: 12, offset: 47040},
 																val:        "[!#$%&\\*=?^_`{|}~.+-/\\pL\\pN]",
 																chars:      []rune{'!', '#', '$', '%', '&', '\'', '*', '=', '?', '^', '_', '`', '{', '|', '}', '~', '.'},
 																ranges:     []rune{'+', '/'},
@@ -22041,7 +22061,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1448, col: 5, offset: 46860},
+													pos: position{line: 1458, col: 5, offset: 47124},
 													run: (*parser).callonLink130,
 												},
 											},
@@ -22049,33 +22069,33 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1440, col: 43, offset: 46630},
+									pos:        position{line: 1450, col: 43, offset: 46894},
 									val:        "@",
 									ignoreCase: false,
 									want:       "\"@\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1440, col: 47, offset: 46634},
+									pos:   position{line: 1450, col: 47, offset: 46898},
 									label: "domain",
 									expr: &actionExpr{
-										pos: position{line: 1457, col: 23, offset: 47154},
+										pos: position{line: 1467, col: 23, offset: 47418},
 										run: (*parser).callonLink133,
 										expr: &seqExpr{
-											pos: position{line: 1457, col: 23, offset: 47154},
+											pos: position{line: 1467, col: 23, offset: 47418},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1457, col: 23, offset: 47154},
+													pos:   position{line: 1467, col: 23, offset: 47418},
 													label: "domain",
 													expr: &actionExpr{
-														pos: position{line: 1457, col: 31, offset: 47162},
+														pos: position{line: 1467, col: 31, offset: 47426},
 														run: (*parser).callonLink136,
 														expr: &seqExpr{
-															pos: position{line: 1457, col: 31, offset: 47162},
+															pos: position{line: 1467, col: 31, offset: 47426},
 															exprs: []interface{}{
 																&oneOrMoreExpr{
-																	pos: position{line: 1457, col: 31, offset: 47162},
+																	pos: position{line: 1467, col: 31, offset: 47426},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 1457, col: 31, offset: 47162},
+																		pos:        position{line: 1467, col: 31, offset: 47426},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -22083,20 +22103,20 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 1457, col: 41, offset: 47172},
+																	pos: position{line: 1467, col: 41, offset: 47436},
 																	expr: &seqExpr{
-																		pos: position{line: 1457, col: 42, offset: 47173},
+																		pos: position{line: 1467, col: 42, offset: 47437},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1457, col: 42, offset: 47173},
+																				pos:        position{line: 1467, col: 42, offset: 47437},
 																				val:        ".",
 																				ignoreCase: false,
 																				want:       "\".\"",
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 1457, col: 46, offset: 47177},
+																				pos: position{line: 1467, col: 46, offset: 47441},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1457, col: 46, offset: 47177},
+																					pos:        position{line: 1467, col: 46, offset: 47441},
 																					val:        "[-\\pL\\pN]",
 																					chars:      []rune{'-'},
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22112,7 +22132,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1460, col: 5, offset: 47238},
+													pos: position{line: 1470, col: 5, offset: 47502},
 													run: (*parser).callonLink145,
 												},
 											},
@@ -22127,68 +22147,68 @@ var g = &grammar{
 		},
 		{
 			name: "RelativeLink",
-			pos:  position{line: 1417, col: 1, offset: 45759},
+			pos:  position{line: 1427, col: 1, offset: 46023},
 			expr: &choiceExpr{
-				pos: position{line: 1419, col: 5, offset: 45795},
+				pos: position{line: 1429, col: 5, offset: 46059},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1419, col: 5, offset: 45795},
+						pos: position{line: 1429, col: 5, offset: 46059},
 						run: (*parser).callonRelativeLink2,
 						expr: &seqExpr{
-							pos: position{line: 1419, col: 5, offset: 45795},
+							pos: position{line: 1429, col: 5, offset: 46059},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1419, col: 5, offset: 45795},
+									pos:        position{line: 1429, col: 5, offset: 46059},
 									val:        "\\link:",
 									ignoreCase: false,
 									want:       "\"\\\\link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1419, col: 17, offset: 45807},
+									pos:   position{line: 1429, col: 17, offset: 46071},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2824, col: 13, offset: 89446},
+										pos: position{line: 2834, col: 13, offset: 89710},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2824, col: 13, offset: 89446},
+											pos: position{line: 2834, col: 13, offset: 89710},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2824, col: 13, offset: 89446},
+													pos:   position{line: 2834, col: 13, offset: 89710},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2824, col: 20, offset: 89453},
+														pos: position{line: 2834, col: 20, offset: 89717},
 														expr: &actionExpr{
-															pos: position{line: 2832, col: 11, offset: 89692},
+															pos: position{line: 2842, col: 11, offset: 89956},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2832, col: 12, offset: 89693},
+																pos: position{line: 2842, col: 12, offset: 89957},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2832, col: 12, offset: 89693},
+																		pos:        position{line: 2842, col: 12, offset: 89957},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2832, col: 24, offset: 89705},
+																		pos:        position{line: 2842, col: 24, offset: 89969},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2832, col: 37, offset: 89718},
+																		pos:        position{line: 2842, col: 37, offset: 89982},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2832, col: 48, offset: 89729},
+																		pos:        position{line: 2842, col: 48, offset: 89993},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2832, col: 59, offset: 89740},
+																		pos:        position{line: 2842, col: 59, offset: 90004},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22199,38 +22219,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2824, col: 30, offset: 89463},
+													pos:   position{line: 2834, col: 30, offset: 89727},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2837, col: 5, offset: 89804},
+														pos: position{line: 2847, col: 5, offset: 90068},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2837, col: 5, offset: 89804},
+															pos:   position{line: 2847, col: 5, offset: 90068},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2837, col: 14, offset: 89813},
+																pos: position{line: 2847, col: 14, offset: 90077},
 																expr: &choiceExpr{
-																	pos: position{line: 2838, col: 9, offset: 89823},
+																	pos: position{line: 2848, col: 9, offset: 90087},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2838, col: 9, offset: 89823},
+																			pos: position{line: 2848, col: 9, offset: 90087},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2838, col: 9, offset: 89823},
+																				pos: position{line: 2848, col: 9, offset: 90087},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2838, col: 9, offset: 89823},
+																						pos: position{line: 2848, col: 9, offset: 90087},
 																						expr: &litMatcher{
-																							pos:        position{line: 2838, col: 10, offset: 89824},
+																							pos:        position{line: 2848, col: 10, offset: 90088},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2839, col: 9, offset: 89852},
+																						pos: position{line: 2849, col: 9, offset: 90116},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2839, col: 10, offset: 89853},
+																							pos:        position{line: 2849, col: 10, offset: 90117},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22241,27 +22261,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2842, col: 11, offset: 90065},
+																			pos: position{line: 2852, col: 11, offset: 90329},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2842, col: 11, offset: 90065},
+																					pos:        position{line: 2852, col: 11, offset: 90329},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2842, col: 19, offset: 90073},
+																					pos: position{line: 2852, col: 19, offset: 90337},
 																					expr: &seqExpr{
-																						pos: position{line: 2842, col: 21, offset: 90075},
+																						pos: position{line: 2852, col: 21, offset: 90339},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2842, col: 21, offset: 90075},
+																								pos: position{line: 2852, col: 21, offset: 90339},
 																								expr: &actionExpr{
-																									pos: position{line: 2866, col: 10, offset: 90687},
+																									pos: position{line: 2876, col: 10, offset: 90951},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2866, col: 10, offset: 90687},
+																										pos:        position{line: 2876, col: 10, offset: 90951},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22270,11 +22290,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2842, col: 28, offset: 90082},
+																								pos: position{line: 2852, col: 28, offset: 90346},
 																								expr: &notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91035},
+																									pos: position{line: 2895, col: 8, offset: 91299},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91036,
+																										line: 2895, col: 9, offset: 91300,
 																									},
 																								},
 																							},
@@ -22669,10 +22689,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2845, col: 11, offset: 90202},
+																			pos: position{line: 2855, col: 11, offset: 90466},
 																			run: (*parser).callonRelativeLink115,
 																			expr: &litMatcher{
-																				pos:        position{line: 2845, col: 11, offset: 90202},
+																				pos:        position{line: 2855, col: 11, offset: 90466},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22689,10 +22709,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1419, col: 32, offset: 45822},
+									pos:   position{line: 1429, col: 32, offset: 46086},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1419, col: 44, offset: 45834},
+										pos:  position{line: 1429, col: 44, offset: 46098},
 										name: "InlineAttributes",
 									},
 								},
@@ -22700,63 +22720,63 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1424, col: 5, offset: 45966},
+						pos: position{line: 1434, col: 5, offset: 46230},
 						run: (*parser).callonRelativeLink119,
 						expr: &seqExpr{
-							pos: position{line: 1424, col: 5, offset: 45966},
+							pos: position{line: 1434, col: 5, offset: 46230},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1424, col: 5, offset: 45966},
+									pos:        position{line: 1434, col: 5, offset: 46230},
 									val:        "link:",
 									ignoreCase: false,
 									want:       "\"link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1424, col: 13, offset: 45974},
+									pos:   position{line: 1434, col: 13, offset: 46238},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2824, col: 13, offset: 89446},
+										pos: position{line: 2834, col: 13, offset: 89710},
 										run: (*parser).callonRelativeLink123,
 										expr: &seqExpr{
-											pos: position{line: 2824, col: 13, offset: 89446},
+											pos: position{line: 2834, col: 13, offset: 89710},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2824, col: 13, offset: 89446},
+													pos:   position{line: 2834, col: 13, offset: 89710},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2824, col: 20, offset: 89453},
+														pos: position{line: 2834, col: 20, offset: 89717},
 														expr: &actionExpr{
-															pos: position{line: 2832, col: 11, offset: 89692},
+															pos: position{line: 2842, col: 11, offset: 89956},
 															run: (*parser).callonRelativeLink127,
 															expr: &choiceExpr{
-																pos: position{line: 2832, col: 12, offset: 89693},
+																pos: position{line: 2842, col: 12, offset: 89957},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2832, col: 12, offset: 89693},
+																		pos:        position{line: 2842, col: 12, offset: 89957},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2832, col: 24, offset: 89705},
+																		pos:        position{line: 2842, col: 24, offset: 89969},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2832, col: 37, offset: 89718},
+																		pos:        position{line: 2842, col: 37, offset: 89982},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2832, col: 48, offset: 89729},
+																		pos:        position{line: 2842, col: 48, offset: 89993},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2832, col: 59, offset: 89740},
+																		pos:        position{line: 2842, col: 59, offset: 90004},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22767,38 +22787,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2824, col: 30, offset: 89463},
+													pos:   position{line: 2834, col: 30, offset: 89727},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2837, col: 5, offset: 89804},
+														pos: position{line: 2847, col: 5, offset: 90068},
 														run: (*parser).callonRelativeLink135,
 														expr: &labeledExpr{
-															pos:   position{line: 2837, col: 5, offset: 89804},
+															pos:   position{line: 2847, col: 5, offset: 90068},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2837, col: 14, offset: 89813},
+																pos: position{line: 2847, col: 14, offset: 90077},
 																expr: &choiceExpr{
-																	pos: position{line: 2838, col: 9, offset: 89823},
+																	pos: position{line: 2848, col: 9, offset: 90087},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2838, col: 9, offset: 89823},
+																			pos: position{line: 2848, col: 9, offset: 90087},
 																			run: (*parser).callonRelativeLink139,
 																			expr: &seqExpr{
-																				pos: position{line: 2838, col: 9, offset: 89823},
+																				pos: position{line: 2848, col: 9, offset: 90087},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2838, col: 9, offset: 89823},
+																						pos: position{line: 2848, col: 9, offset: 90087},
 																						expr: &litMatcher{
-																							pos:        position{line: 2838, col: 10, offset: 89824},
+																							pos:        position{line: 2848, col: 10, offset: 90088},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2839, col: 9, offset: 89852},
+																						pos: position{line: 2849, col: 9, offset: 90116},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2839, col: 10, offset: 89853},
+																							pos:        position{line: 2849, col: 10, offset: 90117},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22809,27 +22829,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2842, col: 11, offset: 90065},
+																			pos: position{line: 2852, col: 11, offset: 90329},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2842, col: 11, offset: 90065},
+																					pos:        position{line: 2852, col: 11, offset: 90329},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2842, col: 19, offset: 90073},
+																					pos: position{line: 2852, col: 19, offset: 90337},
 																					expr: &seqExpr{
-																						pos: position{line: 2842, col: 21, offset: 90075},
+																						pos: position{line: 2852, col: 21, offset: 90339},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2842, col: 21, offset: 90075},
+																								pos: position{line: 2852, col: 21, offset: 90339},
 																								expr: &actionExpr{
-																									pos: position{line: 2866, col: 10, offset: 90687},
+																									pos: position{line: 2876, col: 10, offset: 90951},
 																									run: (*parser).callonRelativeLink150,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2866, col: 10, offset: 90687},
+																										pos:        position{line: 2876, col: 10, offset: 90951},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22838,11 +22858,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2842, col: 28, offset: 90082},
+																								pos: position{line: 2852, col: 28, offset: 90346},
 																								expr: &notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91035},
+																									pos: position{line: 2895, col: 8, offset: 91299},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91036,
+																										line: 2895, col: 9, offset: 91300,
 																									},
 																								},
 																							},
@@ -23237,10 +23257,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2845, col: 11, offset: 90202},
+																			pos: position{line: 2855, col: 11, offset: 90466},
 																			run: (*parser).callonRelativeLink232,
 																			expr: &litMatcher{
-																				pos:        position{line: 2845, col: 11, offset: 90202},
+																				pos:        position{line: 2855, col: 11, offset: 90466},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23257,10 +23277,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1424, col: 28, offset: 45989},
+									pos:   position{line: 1434, col: 28, offset: 46253},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1424, col: 40, offset: 46001},
+										pos:  position{line: 1434, col: 40, offset: 46265},
 										name: "InlineAttributes",
 									},
 								},
@@ -23272,75 +23292,75 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalLink",
-			pos:  position{line: 1428, col: 1, offset: 46117},
+			pos:  position{line: 1438, col: 1, offset: 46381},
 			expr: &choiceExpr{
-				pos: position{line: 1431, col: 5, offset: 46279},
+				pos: position{line: 1441, col: 5, offset: 46543},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1431, col: 5, offset: 46279},
+						pos: position{line: 1441, col: 5, offset: 46543},
 						run: (*parser).callonExternalLink2,
 						expr: &seqExpr{
-							pos: position{line: 1431, col: 5, offset: 46279},
+							pos: position{line: 1441, col: 5, offset: 46543},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1431, col: 5, offset: 46279},
+									pos:        position{line: 1441, col: 5, offset: 46543},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1431, col: 9, offset: 46283},
+									pos:   position{line: 1441, col: 9, offset: 46547},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2828, col: 23, offset: 89573},
+										pos: position{line: 2838, col: 23, offset: 89837},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2828, col: 23, offset: 89573},
+											pos: position{line: 2838, col: 23, offset: 89837},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2828, col: 23, offset: 89573},
+													pos: position{line: 2838, col: 23, offset: 89837},
 													expr: &litMatcher{
-														pos:        position{line: 2828, col: 24, offset: 89574},
+														pos:        position{line: 2838, col: 24, offset: 89838},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2828, col: 28, offset: 89578},
+													pos:   position{line: 2838, col: 28, offset: 89842},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2832, col: 11, offset: 89692},
+														pos: position{line: 2842, col: 11, offset: 89956},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2832, col: 12, offset: 89693},
+															pos: position{line: 2842, col: 12, offset: 89957},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2832, col: 12, offset: 89693},
+																	pos:        position{line: 2842, col: 12, offset: 89957},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2832, col: 24, offset: 89705},
+																	pos:        position{line: 2842, col: 24, offset: 89969},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2832, col: 37, offset: 89718},
+																	pos:        position{line: 2842, col: 37, offset: 89982},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2832, col: 48, offset: 89729},
+																	pos:        position{line: 2842, col: 48, offset: 89993},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2832, col: 59, offset: 89740},
+																	pos:        position{line: 2842, col: 59, offset: 90004},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23350,38 +23370,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2828, col: 44, offset: 89594},
+													pos:   position{line: 2838, col: 44, offset: 89858},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2837, col: 5, offset: 89804},
+														pos: position{line: 2847, col: 5, offset: 90068},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2837, col: 5, offset: 89804},
+															pos:   position{line: 2847, col: 5, offset: 90068},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2837, col: 14, offset: 89813},
+																pos: position{line: 2847, col: 14, offset: 90077},
 																expr: &choiceExpr{
-																	pos: position{line: 2838, col: 9, offset: 89823},
+																	pos: position{line: 2848, col: 9, offset: 90087},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2838, col: 9, offset: 89823},
+																			pos: position{line: 2848, col: 9, offset: 90087},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2838, col: 9, offset: 89823},
+																				pos: position{line: 2848, col: 9, offset: 90087},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2838, col: 9, offset: 89823},
+																						pos: position{line: 2848, col: 9, offset: 90087},
 																						expr: &litMatcher{
-																							pos:        position{line: 2838, col: 10, offset: 89824},
+																							pos:        position{line: 2848, col: 10, offset: 90088},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2839, col: 9, offset: 89852},
+																						pos: position{line: 2849, col: 9, offset: 90116},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2839, col: 10, offset: 89853},
+																							pos:        position{line: 2849, col: 10, offset: 90117},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23392,27 +23412,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2842, col: 11, offset: 90065},
+																			pos: position{line: 2852, col: 11, offset: 90329},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2842, col: 11, offset: 90065},
+																					pos:        position{line: 2852, col: 11, offset: 90329},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2842, col: 19, offset: 90073},
+																					pos: position{line: 2852, col: 19, offset: 90337},
 																					expr: &seqExpr{
-																						pos: position{line: 2842, col: 21, offset: 90075},
+																						pos: position{line: 2852, col: 21, offset: 90339},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2842, col: 21, offset: 90075},
+																								pos: position{line: 2852, col: 21, offset: 90339},
 																								expr: &actionExpr{
-																									pos: position{line: 2866, col: 10, offset: 90687},
+																									pos: position{line: 2876, col: 10, offset: 90951},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2866, col: 10, offset: 90687},
+																										pos:        position{line: 2876, col: 10, offset: 90951},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23421,11 +23441,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2842, col: 28, offset: 90082},
+																								pos: position{line: 2852, col: 28, offset: 90346},
 																								expr: &notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91035},
+																									pos: position{line: 2895, col: 8, offset: 91299},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91036,
+																										line: 2895, col: 9, offset: 91300,
 																									},
 																								},
 																							},
@@ -23820,10 +23840,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2845, col: 11, offset: 90202},
+																			pos: position{line: 2855, col: 11, offset: 90466},
 																			run: (*parser).callonExternalLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2845, col: 11, offset: 90202},
+																				pos:        position{line: 2855, col: 11, offset: 90466},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23840,12 +23860,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1431, col: 34, offset: 46308},
+									pos:   position{line: 1441, col: 34, offset: 46572},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1431, col: 45, offset: 46319},
+										pos: position{line: 1441, col: 45, offset: 46583},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1431, col: 46, offset: 46320},
+											pos:  position{line: 1441, col: 46, offset: 46584},
 											name: "InlineAttributes",
 										},
 									},
@@ -23854,64 +23874,64 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1436, col: 5, offset: 46453},
+						pos: position{line: 1446, col: 5, offset: 46717},
 						run: (*parser).callonExternalLink121,
 						expr: &seqExpr{
-							pos: position{line: 1436, col: 5, offset: 46453},
+							pos: position{line: 1446, col: 5, offset: 46717},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1436, col: 5, offset: 46453},
+									pos:   position{line: 1446, col: 5, offset: 46717},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2828, col: 23, offset: 89573},
+										pos: position{line: 2838, col: 23, offset: 89837},
 										run: (*parser).callonExternalLink124,
 										expr: &seqExpr{
-											pos: position{line: 2828, col: 23, offset: 89573},
+											pos: position{line: 2838, col: 23, offset: 89837},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2828, col: 23, offset: 89573},
+													pos: position{line: 2838, col: 23, offset: 89837},
 													expr: &litMatcher{
-														pos:        position{line: 2828, col: 24, offset: 89574},
+														pos:        position{line: 2838, col: 24, offset: 89838},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2828, col: 28, offset: 89578},
+													pos:   position{line: 2838, col: 28, offset: 89842},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2832, col: 11, offset: 89692},
+														pos: position{line: 2842, col: 11, offset: 89956},
 														run: (*parser).callonExternalLink129,
 														expr: &choiceExpr{
-															pos: position{line: 2832, col: 12, offset: 89693},
+															pos: position{line: 2842, col: 12, offset: 89957},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2832, col: 12, offset: 89693},
+																	pos:        position{line: 2842, col: 12, offset: 89957},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2832, col: 24, offset: 89705},
+																	pos:        position{line: 2842, col: 24, offset: 89969},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2832, col: 37, offset: 89718},
+																	pos:        position{line: 2842, col: 37, offset: 89982},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2832, col: 48, offset: 89729},
+																	pos:        position{line: 2842, col: 48, offset: 89993},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2832, col: 59, offset: 89740},
+																	pos:        position{line: 2842, col: 59, offset: 90004},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23921,38 +23941,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2828, col: 44, offset: 89594},
+													pos:   position{line: 2838, col: 44, offset: 89858},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2837, col: 5, offset: 89804},
+														pos: position{line: 2847, col: 5, offset: 90068},
 														run: (*parser).callonExternalLink137,
 														expr: &labeledExpr{
-															pos:   position{line: 2837, col: 5, offset: 89804},
+															pos:   position{line: 2847, col: 5, offset: 90068},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2837, col: 14, offset: 89813},
+																pos: position{line: 2847, col: 14, offset: 90077},
 																expr: &choiceExpr{
-																	pos: position{line: 2838, col: 9, offset: 89823},
+																	pos: position{line: 2848, col: 9, offset: 90087},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2838, col: 9, offset: 89823},
+																			pos: position{line: 2848, col: 9, offset: 90087},
 																			run: (*parser).callonExternalLink141,
 																			expr: &seqExpr{
-																				pos: position{line: 2838, col: 9, offset: 89823},
+																				pos: position{line: 2848, col: 9, offset: 90087},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2838, col: 9, offset: 89823},
+																						pos: position{line: 2848, col: 9, offset: 90087},
 																						expr: &litMatcher{
-																							pos:        position{line: 2838, col: 10, offset: 89824},
+																							pos:        position{line: 2848, col: 10, offset: 90088},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2839, col: 9, offset: 89852},
+																						pos: position{line: 2849, col: 9, offset: 90116},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2839, col: 10, offset: 89853},
+																							pos:        position{line: 2849, col: 10, offset: 90117},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23963,27 +23983,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2842, col: 11, offset: 90065},
+																			pos: position{line: 2852, col: 11, offset: 90329},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2842, col: 11, offset: 90065},
+																					pos:        position{line: 2852, col: 11, offset: 90329},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2842, col: 19, offset: 90073},
+																					pos: position{line: 2852, col: 19, offset: 90337},
 																					expr: &seqExpr{
-																						pos: position{line: 2842, col: 21, offset: 90075},
+																						pos: position{line: 2852, col: 21, offset: 90339},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2842, col: 21, offset: 90075},
+																								pos: position{line: 2852, col: 21, offset: 90339},
 																								expr: &actionExpr{
-																									pos: position{line: 2866, col: 10, offset: 90687},
+																									pos: position{line: 2876, col: 10, offset: 90951},
 																									run: (*parser).callonExternalLink152,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2866, col: 10, offset: 90687},
+																										pos:        position{line: 2876, col: 10, offset: 90951},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23992,11 +24012,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2842, col: 28, offset: 90082},
+																								pos: position{line: 2852, col: 28, offset: 90346},
 																								expr: &notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91035},
+																									pos: position{line: 2895, col: 8, offset: 91299},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91036,
+																										line: 2895, col: 9, offset: 91300,
 																									},
 																								},
 																							},
@@ -24391,10 +24411,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2845, col: 11, offset: 90202},
+																			pos: position{line: 2855, col: 11, offset: 90466},
 																			run: (*parser).callonExternalLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2845, col: 11, offset: 90202},
+																				pos:        position{line: 2855, col: 11, offset: 90466},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24411,12 +24431,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1436, col: 30, offset: 46478},
+									pos:   position{line: 1446, col: 30, offset: 46742},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1436, col: 41, offset: 46489},
+										pos: position{line: 1446, col: 41, offset: 46753},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1436, col: 42, offset: 46490},
+											pos:  position{line: 1446, col: 42, offset: 46754},
 											name: "InlineAttributes",
 										},
 									},
@@ -24429,41 +24449,41 @@ var g = &grammar{
 		},
 		{
 			name: "ListElements",
-			pos:  position{line: 1470, col: 1, offset: 47631},
+			pos:  position{line: 1480, col: 1, offset: 47895},
 			expr: &actionExpr{
-				pos: position{line: 1471, col: 5, offset: 47652},
+				pos: position{line: 1481, col: 5, offset: 47916},
 				run: (*parser).callonListElements1,
 				expr: &seqExpr{
-					pos: position{line: 1471, col: 5, offset: 47652},
+					pos: position{line: 1481, col: 5, offset: 47916},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1471, col: 5, offset: 47652},
+							pos:   position{line: 1481, col: 5, offset: 47916},
 							label: "firstElement",
 							expr: &choiceExpr{
-								pos: position{line: 1477, col: 5, offset: 47854},
+								pos: position{line: 1487, col: 5, offset: 48118},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1570, col: 5, offset: 50788},
+										pos: position{line: 1580, col: 5, offset: 51052},
 										run: (*parser).callonListElements5,
 										expr: &seqExpr{
-											pos: position{line: 1570, col: 5, offset: 50788},
+											pos: position{line: 1580, col: 5, offset: 51052},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1570, col: 5, offset: 50788},
+													pos:   position{line: 1580, col: 5, offset: 51052},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1577, col: 5, offset: 50996},
+														pos: position{line: 1587, col: 5, offset: 51260},
 														run: (*parser).callonListElements8,
 														expr: &seqExpr{
-															pos: position{line: 1577, col: 5, offset: 50996},
+															pos: position{line: 1587, col: 5, offset: 51260},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1577, col: 5, offset: 50996},
+																	pos: position{line: 1587, col: 5, offset: 51260},
 																	expr: &actionExpr{
-																		pos: position{line: 2866, col: 10, offset: 90687},
+																		pos: position{line: 2876, col: 10, offset: 90951},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2866, col: 10, offset: 90687},
+																			pos:        position{line: 2876, col: 10, offset: 90951},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24472,27 +24492,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1577, col: 12, offset: 51003},
+																	pos:   position{line: 1587, col: 12, offset: 51267},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1579, col: 9, offset: 51066},
+																		pos: position{line: 1589, col: 9, offset: 51330},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1579, col: 9, offset: 51066},
+																				pos: position{line: 1589, col: 9, offset: 51330},
 																				run: (*parser).callonListElements15,
 																				expr: &seqExpr{
-																					pos: position{line: 1579, col: 9, offset: 51066},
+																					pos: position{line: 1589, col: 9, offset: 51330},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1579, col: 9, offset: 51066},
+																							pos:   position{line: 1589, col: 9, offset: 51330},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1579, col: 16, offset: 51073},
+																								pos: position{line: 1589, col: 16, offset: 51337},
 																								run: (*parser).callonListElements18,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1579, col: 16, offset: 51073},
+																									pos: position{line: 1589, col: 16, offset: 51337},
 																									expr: &litMatcher{
-																										pos:        position{line: 1579, col: 17, offset: 51074},
+																										pos:        position{line: 1589, col: 17, offset: 51338},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -24501,22 +24521,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1583, col: 9, offset: 51174},
+																							pos: position{line: 1593, col: 9, offset: 51438},
 																							run: (*parser).callonListElements21,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1602, col: 11, offset: 51891},
+																				pos: position{line: 1612, col: 11, offset: 52155},
 																				run: (*parser).callonListElements22,
 																				expr: &seqExpr{
-																					pos: position{line: 1602, col: 11, offset: 51891},
+																					pos: position{line: 1612, col: 11, offset: 52155},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1602, col: 11, offset: 51891},
+																							pos: position{line: 1612, col: 11, offset: 52155},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1602, col: 12, offset: 51892},
+																								pos:        position{line: 1612, col: 12, offset: 52156},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -24524,7 +24544,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1602, col: 20, offset: 51900},
+																							pos:        position{line: 1612, col: 20, offset: 52164},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24533,20 +24553,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1604, col: 13, offset: 52017},
+																				pos: position{line: 1614, col: 13, offset: 52281},
 																				run: (*parser).callonListElements27,
 																				expr: &seqExpr{
-																					pos: position{line: 1604, col: 13, offset: 52017},
+																					pos: position{line: 1614, col: 13, offset: 52281},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1604, col: 14, offset: 52018},
+																							pos:        position{line: 1614, col: 14, offset: 52282},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1604, col: 21, offset: 52025},
+																							pos:        position{line: 1614, col: 21, offset: 52289},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24555,20 +24575,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1606, col: 13, offset: 52145},
+																				pos: position{line: 1616, col: 13, offset: 52409},
 																				run: (*parser).callonListElements31,
 																				expr: &seqExpr{
-																					pos: position{line: 1606, col: 13, offset: 52145},
+																					pos: position{line: 1616, col: 13, offset: 52409},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1606, col: 14, offset: 52146},
+																							pos:        position{line: 1616, col: 14, offset: 52410},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1606, col: 21, offset: 52153},
+																							pos:        position{line: 1616, col: 21, offset: 52417},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24577,15 +24597,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1608, col: 13, offset: 52273},
+																				pos: position{line: 1618, col: 13, offset: 52537},
 																				run: (*parser).callonListElements35,
 																				expr: &seqExpr{
-																					pos: position{line: 1608, col: 13, offset: 52273},
+																					pos: position{line: 1618, col: 13, offset: 52537},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1608, col: 13, offset: 52273},
+																							pos: position{line: 1618, col: 13, offset: 52537},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1608, col: 14, offset: 52274},
+																								pos:        position{line: 1618, col: 14, offset: 52538},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -24593,7 +24613,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1608, col: 26, offset: 52286},
+																							pos:        position{line: 1618, col: 26, offset: 52550},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -24602,15 +24622,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1610, col: 13, offset: 52406},
+																				pos: position{line: 1620, col: 13, offset: 52670},
 																				run: (*parser).callonListElements40,
 																				expr: &seqExpr{
-																					pos: position{line: 1610, col: 13, offset: 52406},
+																					pos: position{line: 1620, col: 13, offset: 52670},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1610, col: 13, offset: 52406},
+																							pos: position{line: 1620, col: 13, offset: 52670},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1610, col: 14, offset: 52407},
+																								pos:        position{line: 1620, col: 14, offset: 52671},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -24618,7 +24638,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1610, col: 26, offset: 52419},
+																							pos:        position{line: 1620, col: 26, offset: 52683},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -24630,12 +24650,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2870, col: 11, offset: 90748},
+																	pos: position{line: 2880, col: 11, offset: 91012},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2870, col: 11, offset: 90748},
+																		pos: position{line: 2880, col: 11, offset: 91012},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2870, col: 11, offset: 90748},
+																			pos:        position{line: 2880, col: 11, offset: 91012},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24648,26 +24668,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1571, col: 5, offset: 50827},
+													pos:   position{line: 1581, col: 5, offset: 51091},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1518, col: 5, offset: 49294},
+														pos: position{line: 1528, col: 5, offset: 49558},
 														run: (*parser).callonListElements49,
 														expr: &seqExpr{
-															pos: position{line: 1518, col: 5, offset: 49294},
+															pos: position{line: 1528, col: 5, offset: 49558},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1518, col: 5, offset: 49294},
+																	pos:   position{line: 1528, col: 5, offset: 49558},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1518, col: 14, offset: 49303},
+																		pos: position{line: 1528, col: 14, offset: 49567},
 																		expr: &actionExpr{
-																			pos: position{line: 1518, col: 15, offset: 49304},
+																			pos: position{line: 1528, col: 15, offset: 49568},
 																			run: (*parser).callonListElements53,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1518, col: 15, offset: 49304},
+																				pos: position{line: 1528, col: 15, offset: 49568},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1518, col: 15, offset: 49304},
+																					pos:        position{line: 1528, col: 15, offset: 49568},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -24678,28 +24698,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2888, col: 8, offset: 91085},
+																	pos: position{line: 2898, col: 8, offset: 91349},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2875, col: 12, offset: 90858},
+																			pos: position{line: 2885, col: 12, offset: 91122},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2875, col: 13, offset: 90859},
+																				pos: position{line: 2885, col: 13, offset: 91123},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 13, offset: 90859},
+																						pos:        position{line: 2885, col: 13, offset: 91123},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 20, offset: 90866},
+																						pos:        position{line: 2885, col: 20, offset: 91130},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 29, offset: 90875},
+																						pos:        position{line: 2885, col: 29, offset: 91139},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -24708,9 +24728,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2885, col: 8, offset: 91035},
+																			pos: position{line: 2895, col: 8, offset: 91299},
 																			expr: &anyMatcher{
-																				line: 2885, col: 9, offset: 91036,
+																				line: 2895, col: 9, offset: 91300,
 																			},
 																		},
 																	},
@@ -24723,27 +24743,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1620, col: 5, offset: 52685},
+										pos: position{line: 1630, col: 5, offset: 52949},
 										run: (*parser).callonListElements64,
 										expr: &seqExpr{
-											pos: position{line: 1620, col: 5, offset: 52685},
+											pos: position{line: 1630, col: 5, offset: 52949},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1620, col: 5, offset: 52685},
+													pos:   position{line: 1630, col: 5, offset: 52949},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1627, col: 5, offset: 52958},
+														pos: position{line: 1637, col: 5, offset: 53222},
 														run: (*parser).callonListElements67,
 														expr: &seqExpr{
-															pos: position{line: 1627, col: 5, offset: 52958},
+															pos: position{line: 1637, col: 5, offset: 53222},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1627, col: 5, offset: 52958},
+																	pos: position{line: 1637, col: 5, offset: 53222},
 																	expr: &actionExpr{
-																		pos: position{line: 2866, col: 10, offset: 90687},
+																		pos: position{line: 2876, col: 10, offset: 90951},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2866, col: 10, offset: 90687},
+																			pos:        position{line: 2876, col: 10, offset: 90951},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24752,24 +24772,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1628, col: 5, offset: 52970},
+																	pos:   position{line: 1638, col: 5, offset: 53234},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1629, col: 9, offset: 52986},
+																		pos: position{line: 1639, col: 9, offset: 53250},
 																		run: (*parser).callonListElements73,
 																		expr: &choiceExpr{
-																			pos: position{line: 1629, col: 10, offset: 52987},
+																			pos: position{line: 1639, col: 10, offset: 53251},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1629, col: 11, offset: 52988},
+																					pos:        position{line: 1639, col: 11, offset: 53252},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1629, col: 18, offset: 52995},
+																					pos: position{line: 1639, col: 18, offset: 53259},
 																					expr: &litMatcher{
-																						pos:        position{line: 1629, col: 19, offset: 52996},
+																						pos:        position{line: 1639, col: 19, offset: 53260},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -24780,16 +24800,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1632, col: 7, offset: 53086},
+																	pos: position{line: 1642, col: 7, offset: 53350},
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2870, col: 11, offset: 90748},
+																	pos: position{line: 2880, col: 11, offset: 91012},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2870, col: 11, offset: 90748},
+																		pos: position{line: 2880, col: 11, offset: 91012},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2870, col: 11, offset: 90748},
+																			pos:        position{line: 2880, col: 11, offset: 91012},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24802,56 +24822,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1621, col: 5, offset: 52726},
+													pos:   position{line: 1631, col: 5, offset: 52990},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1621, col: 16, offset: 52737},
+														pos: position{line: 1631, col: 16, offset: 53001},
 														expr: &actionExpr{
-															pos: position{line: 1642, col: 5, offset: 53351},
+															pos: position{line: 1652, col: 5, offset: 53615},
 															run: (*parser).callonListElements84,
 															expr: &seqExpr{
-																pos: position{line: 1642, col: 5, offset: 53351},
+																pos: position{line: 1652, col: 5, offset: 53615},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1642, col: 5, offset: 53351},
+																		pos: position{line: 1652, col: 5, offset: 53615},
 																		expr: &litMatcher{
-																			pos:        position{line: 1642, col: 6, offset: 53352},
+																			pos:        position{line: 1652, col: 6, offset: 53616},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1642, col: 10, offset: 53356},
+																		pos:   position{line: 1652, col: 10, offset: 53620},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1643, col: 7, offset: 53370},
+																			pos: position{line: 1653, col: 7, offset: 53634},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1643, col: 7, offset: 53370},
+																					pos: position{line: 1653, col: 7, offset: 53634},
 																					run: (*parser).callonListElements90,
 																					expr: &litMatcher{
-																						pos:        position{line: 1643, col: 7, offset: 53370},
+																						pos:        position{line: 1653, col: 7, offset: 53634},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1644, col: 7, offset: 53415},
+																					pos: position{line: 1654, col: 7, offset: 53679},
 																					run: (*parser).callonListElements92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1644, col: 7, offset: 53415},
+																						pos:        position{line: 1654, col: 7, offset: 53679},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1645, col: 7, offset: 53458},
+																					pos: position{line: 1655, col: 7, offset: 53722},
 																					run: (*parser).callonListElements94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1645, col: 7, offset: 53458},
+																						pos:        position{line: 1655, col: 7, offset: 53722},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -24861,12 +24881,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2870, col: 11, offset: 90748},
+																		pos: position{line: 2880, col: 11, offset: 91012},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2870, col: 11, offset: 90748},
+																			pos: position{line: 2880, col: 11, offset: 91012},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2870, col: 11, offset: 90748},
+																				pos:        position{line: 2880, col: 11, offset: 91012},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -24880,26 +24900,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1622, col: 5, offset: 52776},
+													pos:   position{line: 1632, col: 5, offset: 53040},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1518, col: 5, offset: 49294},
+														pos: position{line: 1528, col: 5, offset: 49558},
 														run: (*parser).callonListElements100,
 														expr: &seqExpr{
-															pos: position{line: 1518, col: 5, offset: 49294},
+															pos: position{line: 1528, col: 5, offset: 49558},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1518, col: 5, offset: 49294},
+																	pos:   position{line: 1528, col: 5, offset: 49558},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1518, col: 14, offset: 49303},
+																		pos: position{line: 1528, col: 14, offset: 49567},
 																		expr: &actionExpr{
-																			pos: position{line: 1518, col: 15, offset: 49304},
+																			pos: position{line: 1528, col: 15, offset: 49568},
 																			run: (*parser).callonListElements104,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1518, col: 15, offset: 49304},
+																				pos: position{line: 1528, col: 15, offset: 49568},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1518, col: 15, offset: 49304},
+																					pos:        position{line: 1528, col: 15, offset: 49568},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -24910,28 +24930,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2888, col: 8, offset: 91085},
+																	pos: position{line: 2898, col: 8, offset: 91349},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2875, col: 12, offset: 90858},
+																			pos: position{line: 2885, col: 12, offset: 91122},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2875, col: 13, offset: 90859},
+																				pos: position{line: 2885, col: 13, offset: 91123},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 13, offset: 90859},
+																						pos:        position{line: 2885, col: 13, offset: 91123},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 20, offset: 90866},
+																						pos:        position{line: 2885, col: 20, offset: 91130},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 29, offset: 90875},
+																						pos:        position{line: 2885, col: 29, offset: 91139},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -24940,9 +24960,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2885, col: 8, offset: 91035},
+																			pos: position{line: 2895, col: 8, offset: 91299},
 																			expr: &anyMatcher{
-																				line: 2885, col: 9, offset: 91036,
+																				line: 2895, col: 9, offset: 91300,
 																			},
 																		},
 																	},
@@ -24955,36 +24975,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1711, col: 5, offset: 55330},
+										pos: position{line: 1721, col: 5, offset: 55594},
 										run: (*parser).callonListElements115,
 										expr: &seqExpr{
-											pos: position{line: 1711, col: 5, offset: 55330},
+											pos: position{line: 1721, col: 5, offset: 55594},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1711, col: 5, offset: 55330},
+													pos:   position{line: 1721, col: 5, offset: 55594},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1717, col: 5, offset: 55527},
+														pos: position{line: 1727, col: 5, offset: 55791},
 														run: (*parser).callonListElements118,
 														expr: &seqExpr{
-															pos: position{line: 1717, col: 5, offset: 55527},
+															pos: position{line: 1727, col: 5, offset: 55791},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1717, col: 5, offset: 55527},
+																	pos:        position{line: 1727, col: 5, offset: 55791},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1717, col: 9, offset: 55531},
+																	pos:   position{line: 1727, col: 9, offset: 55795},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1717, col: 14, offset: 55536},
+																		pos: position{line: 1727, col: 14, offset: 55800},
 																		run: (*parser).callonListElements122,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1717, col: 14, offset: 55536},
+																			pos: position{line: 1727, col: 14, offset: 55800},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1717, col: 14, offset: 55536},
+																				pos:        position{line: 1727, col: 14, offset: 55800},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -24994,18 +25014,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1717, col: 62, offset: 55584},
+																	pos:        position{line: 1727, col: 62, offset: 55848},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2870, col: 11, offset: 90748},
+																	pos: position{line: 2880, col: 11, offset: 91012},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2870, col: 11, offset: 90748},
+																		pos: position{line: 2880, col: 11, offset: 91012},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2870, col: 11, offset: 90748},
+																			pos:        position{line: 2880, col: 11, offset: 91012},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25018,26 +25038,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1712, col: 5, offset: 55366},
+													pos:   position{line: 1722, col: 5, offset: 55630},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1518, col: 5, offset: 49294},
+														pos: position{line: 1528, col: 5, offset: 49558},
 														run: (*parser).callonListElements130,
 														expr: &seqExpr{
-															pos: position{line: 1518, col: 5, offset: 49294},
+															pos: position{line: 1528, col: 5, offset: 49558},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1518, col: 5, offset: 49294},
+																	pos:   position{line: 1528, col: 5, offset: 49558},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1518, col: 14, offset: 49303},
+																		pos: position{line: 1528, col: 14, offset: 49567},
 																		expr: &actionExpr{
-																			pos: position{line: 1518, col: 15, offset: 49304},
+																			pos: position{line: 1528, col: 15, offset: 49568},
 																			run: (*parser).callonListElements134,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1518, col: 15, offset: 49304},
+																				pos: position{line: 1528, col: 15, offset: 49568},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1518, col: 15, offset: 49304},
+																					pos:        position{line: 1528, col: 15, offset: 49568},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25048,28 +25068,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2888, col: 8, offset: 91085},
+																	pos: position{line: 2898, col: 8, offset: 91349},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2875, col: 12, offset: 90858},
+																			pos: position{line: 2885, col: 12, offset: 91122},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2875, col: 13, offset: 90859},
+																				pos: position{line: 2885, col: 13, offset: 91123},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 13, offset: 90859},
+																						pos:        position{line: 2885, col: 13, offset: 91123},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 20, offset: 90866},
+																						pos:        position{line: 2885, col: 20, offset: 91130},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 29, offset: 90875},
+																						pos:        position{line: 2885, col: 29, offset: 91139},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25078,9 +25098,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2885, col: 8, offset: 91035},
+																			pos: position{line: 2895, col: 8, offset: 91299},
 																			expr: &anyMatcher{
-																				line: 2885, col: 9, offset: 91036,
+																				line: 2895, col: 9, offset: 91300,
 																			},
 																		},
 																	},
@@ -25093,35 +25113,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1654, col: 5, offset: 53651},
+										pos: position{line: 1664, col: 5, offset: 53915},
 										run: (*parser).callonListElements145,
 										expr: &seqExpr{
-											pos: position{line: 1654, col: 5, offset: 53651},
+											pos: position{line: 1664, col: 5, offset: 53915},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1654, col: 5, offset: 53651},
+													pos:   position{line: 1664, col: 5, offset: 53915},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1662, col: 5, offset: 53977},
+														pos: position{line: 1672, col: 5, offset: 54241},
 														run: (*parser).callonListElements148,
 														expr: &seqExpr{
-															pos: position{line: 1662, col: 5, offset: 53977},
+															pos: position{line: 1672, col: 5, offset: 54241},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1662, col: 5, offset: 53977},
+																	pos: position{line: 1672, col: 5, offset: 54241},
 																	expr: &seqExpr{
-																		pos: position{line: 2478, col: 31, offset: 79815},
+																		pos: position{line: 2488, col: 31, offset: 80079},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2478, col: 31, offset: 79815},
+																				pos:        position{line: 2488, col: 31, offset: 80079},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2478, col: 36, offset: 79820},
+																				pos: position{line: 2488, col: 36, offset: 80084},
 																				expr: &litMatcher{
-																					pos:        position{line: 2478, col: 37, offset: 79821},
+																					pos:        position{line: 2488, col: 37, offset: 80085},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
@@ -25131,28 +25151,28 @@ var g = &grammar{
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 1663, col: 5, offset: 54009},
+																	pos: position{line: 1673, col: 5, offset: 54273},
 																	expr: &seqExpr{
-																		pos: position{line: 1663, col: 6, offset: 54010},
+																		pos: position{line: 1673, col: 6, offset: 54274},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1663, col: 6, offset: 54010},
+																				pos: position{line: 1673, col: 6, offset: 54274},
 																				expr: &actionExpr{
-																					pos: position{line: 1668, col: 5, offset: 54160},
+																					pos: position{line: 1678, col: 5, offset: 54424},
 																					run: (*parser).callonListElements158,
 																					expr: &seqExpr{
-																						pos: position{line: 1668, col: 5, offset: 54160},
+																						pos: position{line: 1678, col: 5, offset: 54424},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1668, col: 5, offset: 54160},
+																								pos:   position{line: 1678, col: 5, offset: 54424},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1668, col: 16, offset: 54171},
+																									pos: position{line: 1678, col: 16, offset: 54435},
 																									run: (*parser).callonListElements161,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1668, col: 16, offset: 54171},
+																										pos: position{line: 1678, col: 16, offset: 54435},
 																										expr: &litMatcher{
-																											pos:        position{line: 1668, col: 17, offset: 54172},
+																											pos:        position{line: 1678, col: 17, offset: 54436},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -25161,7 +25181,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1671, col: 5, offset: 54229},
+																								pos: position{line: 1681, col: 5, offset: 54493},
 																								run: (*parser).callonListElements164,
 																							},
 																						},
@@ -25169,30 +25189,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1663, col: 35, offset: 54039},
+																				pos: position{line: 1673, col: 35, offset: 54303},
 																				expr: &choiceExpr{
-																					pos: position{line: 2888, col: 8, offset: 91085},
+																					pos: position{line: 2898, col: 8, offset: 91349},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2875, col: 12, offset: 90858},
+																							pos: position{line: 2885, col: 12, offset: 91122},
 																							run: (*parser).callonListElements167,
 																							expr: &choiceExpr{
-																								pos: position{line: 2875, col: 13, offset: 90859},
+																								pos: position{line: 2885, col: 13, offset: 91123},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 13, offset: 90859},
+																										pos:        position{line: 2885, col: 13, offset: 91123},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 20, offset: 90866},
+																										pos:        position{line: 2885, col: 20, offset: 91130},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 29, offset: 90875},
+																										pos:        position{line: 2885, col: 29, offset: 91139},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -25201,16 +25221,16 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2885, col: 8, offset: 91035},
+																							pos: position{line: 2895, col: 8, offset: 91299},
 																							expr: &anyMatcher{
-																								line: 2885, col: 9, offset: 91036,
+																								line: 2895, col: 9, offset: 91300,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1663, col: 40, offset: 54044,
+																				line: 1673, col: 40, offset: 54308,
 																			},
 																		},
 																	},
@@ -25220,24 +25240,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1655, col: 5, offset: 53686},
+													pos:   position{line: 1665, col: 5, offset: 53950},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1668, col: 5, offset: 54160},
+														pos: position{line: 1678, col: 5, offset: 54424},
 														run: (*parser).callonListElements176,
 														expr: &seqExpr{
-															pos: position{line: 1668, col: 5, offset: 54160},
+															pos: position{line: 1678, col: 5, offset: 54424},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1668, col: 5, offset: 54160},
+																	pos:   position{line: 1678, col: 5, offset: 54424},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1668, col: 16, offset: 54171},
+																		pos: position{line: 1678, col: 16, offset: 54435},
 																		run: (*parser).callonListElements179,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1668, col: 16, offset: 54171},
+																			pos: position{line: 1678, col: 16, offset: 54435},
 																			expr: &litMatcher{
-																				pos:        position{line: 1668, col: 17, offset: 54172},
+																				pos:        position{line: 1678, col: 17, offset: 54436},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -25246,7 +25266,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1671, col: 5, offset: 54229},
+																	pos: position{line: 1681, col: 5, offset: 54493},
 																	run: (*parser).callonListElements182,
 																},
 															},
@@ -25254,24 +25274,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1656, col: 5, offset: 53731},
+													pos:   position{line: 1666, col: 5, offset: 53995},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1679, col: 5, offset: 54478},
+														pos: position{line: 1689, col: 5, offset: 54742},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1681, col: 9, offset: 54544},
+																pos: position{line: 1691, col: 9, offset: 54808},
 																run: (*parser).callonListElements185,
 																expr: &seqExpr{
-																	pos: position{line: 1681, col: 9, offset: 54544},
+																	pos: position{line: 1691, col: 9, offset: 54808},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1681, col: 9, offset: 54544},
+																			pos: position{line: 1691, col: 9, offset: 54808},
 																			expr: &actionExpr{
-																				pos: position{line: 2866, col: 10, offset: 90687},
+																				pos: position{line: 2876, col: 10, offset: 90951},
 																				run: (*parser).callonListElements188,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2866, col: 10, offset: 90687},
+																					pos:        position{line: 2876, col: 10, offset: 90951},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25280,28 +25300,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2888, col: 8, offset: 91085},
+																			pos: position{line: 2898, col: 8, offset: 91349},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2875, col: 12, offset: 90858},
+																					pos: position{line: 2885, col: 12, offset: 91122},
 																					run: (*parser).callonListElements191,
 																					expr: &choiceExpr{
-																						pos: position{line: 2875, col: 13, offset: 90859},
+																						pos: position{line: 2885, col: 13, offset: 91123},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 13, offset: 90859},
+																								pos:        position{line: 2885, col: 13, offset: 91123},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 20, offset: 90866},
+																								pos:        position{line: 2885, col: 20, offset: 91130},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 29, offset: 90875},
+																								pos:        position{line: 2885, col: 29, offset: 91139},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25310,15 +25330,15 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2885, col: 8, offset: 91035},
+																					pos: position{line: 2895, col: 8, offset: 91299},
 																					expr: &anyMatcher{
-																						line: 2885, col: 9, offset: 91036,
+																						line: 2895, col: 9, offset: 91300,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1682, col: 9, offset: 54563},
+																			pos: position{line: 1692, col: 9, offset: 54827},
 																			expr: &actionExpr{
 																				pos: position{line: 677, col: 14, offset: 21557},
 																				run: (*parser).callonListElements199,
@@ -25326,18 +25346,18 @@ var g = &grammar{
 																					pos: position{line: 677, col: 14, offset: 21557},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2883, col: 11, offset: 91021},
+																							pos: position{line: 2893, col: 11, offset: 91285},
 																							expr: &anyMatcher{
-																								line: 2883, col: 13, offset: 91023,
+																								line: 2893, col: 13, offset: 91287,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 677, col: 21, offset: 21564},
 																							expr: &actionExpr{
-																								pos: position{line: 2866, col: 10, offset: 90687},
+																								pos: position{line: 2876, col: 10, offset: 90951},
 																								run: (*parser).callonListElements204,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2866, col: 10, offset: 90687},
+																									pos:        position{line: 2876, col: 10, offset: 90951},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25346,28 +25366,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91085},
+																							pos: position{line: 2898, col: 8, offset: 91349},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90858},
+																									pos: position{line: 2885, col: 12, offset: 91122},
 																									run: (*parser).callonListElements207,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90859},
+																										pos: position{line: 2885, col: 13, offset: 91123},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90859},
+																												pos:        position{line: 2885, col: 13, offset: 91123},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90866},
+																												pos:        position{line: 2885, col: 20, offset: 91130},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90875},
+																												pos:        position{line: 2885, col: 29, offset: 91139},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25376,9 +25396,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91035},
+																									pos: position{line: 2895, col: 8, offset: 91299},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91036,
+																										line: 2895, col: 9, offset: 91300,
 																									},
 																								},
 																							},
@@ -25391,18 +25411,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1688, col: 9, offset: 54692},
+																pos: position{line: 1698, col: 9, offset: 54956},
 																run: (*parser).callonListElements214,
 																expr: &seqExpr{
-																	pos: position{line: 1688, col: 9, offset: 54692},
+																	pos: position{line: 1698, col: 9, offset: 54956},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 11, offset: 90748},
+																			pos: position{line: 2880, col: 11, offset: 91012},
 																			run: (*parser).callonListElements216,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2870, col: 11, offset: 90748},
+																				pos: position{line: 2880, col: 11, offset: 91012},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2870, col: 11, offset: 90748},
+																					pos:        position{line: 2880, col: 11, offset: 91012},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25411,15 +25431,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1689, col: 9, offset: 54765},
+																			pos:   position{line: 1699, col: 9, offset: 55029},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1689, col: 18, offset: 54774},
+																				pos: position{line: 1699, col: 18, offset: 55038},
 																				run: (*parser).callonListElements220,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1689, col: 18, offset: 54774},
+																					pos: position{line: 1699, col: 18, offset: 55038},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1689, col: 18, offset: 54774},
+																						pos:        position{line: 1699, col: 18, offset: 55038},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -25429,28 +25449,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2888, col: 8, offset: 91085},
+																			pos: position{line: 2898, col: 8, offset: 91349},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2875, col: 12, offset: 90858},
+																					pos: position{line: 2885, col: 12, offset: 91122},
 																					run: (*parser).callonListElements224,
 																					expr: &choiceExpr{
-																						pos: position{line: 2875, col: 13, offset: 90859},
+																						pos: position{line: 2885, col: 13, offset: 91123},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 13, offset: 90859},
+																								pos:        position{line: 2885, col: 13, offset: 91123},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 20, offset: 90866},
+																								pos:        position{line: 2885, col: 20, offset: 91130},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 29, offset: 90875},
+																								pos:        position{line: 2885, col: 29, offset: 91139},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25459,9 +25479,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2885, col: 8, offset: 91035},
+																					pos: position{line: 2895, col: 8, offset: 91299},
 																					expr: &anyMatcher{
-																						line: 2885, col: 9, offset: 91036,
+																						line: 2895, col: 9, offset: 91300,
 																					},
 																				},
 																			},
@@ -25479,10 +25499,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1472, col: 5, offset: 47683},
+							pos:   position{line: 1482, col: 5, offset: 47947},
 							label: "extraElements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1472, col: 20, offset: 47698},
+								pos:  position{line: 1482, col: 20, offset: 47962},
 								name: "ExtraListElements",
 							},
 						},
@@ -25492,17 +25512,17 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElements",
-			pos:  position{line: 1482, col: 1, offset: 47953},
+			pos:  position{line: 1492, col: 1, offset: 48217},
 			expr: &actionExpr{
-				pos: position{line: 1482, col: 22, offset: 47974},
+				pos: position{line: 1492, col: 22, offset: 48238},
 				run: (*parser).callonExtraListElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1482, col: 22, offset: 47974},
+					pos:   position{line: 1492, col: 22, offset: 48238},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1482, col: 31, offset: 47983},
+						pos: position{line: 1492, col: 31, offset: 48247},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1482, col: 32, offset: 47984},
+							pos:  position{line: 1492, col: 32, offset: 48248},
 							name: "ExtraListElement",
 						},
 					},
@@ -25511,33 +25531,33 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElement",
-			pos:  position{line: 1486, col: 1, offset: 48064},
+			pos:  position{line: 1496, col: 1, offset: 48328},
 			expr: &actionExpr{
-				pos: position{line: 1487, col: 5, offset: 48203},
+				pos: position{line: 1497, col: 5, offset: 48467},
 				run: (*parser).callonExtraListElement1,
 				expr: &seqExpr{
-					pos: position{line: 1487, col: 5, offset: 48203},
+					pos: position{line: 1497, col: 5, offset: 48467},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2883, col: 11, offset: 91021},
+							pos: position{line: 2893, col: 11, offset: 91285},
 							expr: &anyMatcher{
-								line: 2883, col: 13, offset: 91023,
+								line: 2893, col: 13, offset: 91287,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1488, col: 5, offset: 48215},
+							pos:   position{line: 1498, col: 5, offset: 48479},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1489, col: 9, offset: 48233},
+								pos: position{line: 1499, col: 9, offset: 48497},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1489, col: 13, offset: 48237},
+										pos: position{line: 1499, col: 13, offset: 48501},
 										run: (*parser).callonExtraListElement7,
 										expr: &seqExpr{
-											pos: position{line: 1489, col: 13, offset: 48237},
+											pos: position{line: 1499, col: 13, offset: 48501},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 1489, col: 13, offset: 48237},
+													pos: position{line: 1499, col: 13, offset: 48501},
 													expr: &actionExpr{
 														pos: position{line: 677, col: 14, offset: 21557},
 														run: (*parser).callonExtraListElement10,
@@ -25545,18 +25565,18 @@ var g = &grammar{
 															pos: position{line: 677, col: 14, offset: 21557},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2883, col: 11, offset: 91021},
+																	pos: position{line: 2893, col: 11, offset: 91285},
 																	expr: &anyMatcher{
-																		line: 2883, col: 13, offset: 91023,
+																		line: 2893, col: 13, offset: 91287,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 677, col: 21, offset: 21564},
 																	expr: &actionExpr{
-																		pos: position{line: 2866, col: 10, offset: 90687},
+																		pos: position{line: 2876, col: 10, offset: 90951},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2866, col: 10, offset: 90687},
+																			pos:        position{line: 2876, col: 10, offset: 90951},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25565,28 +25585,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2888, col: 8, offset: 91085},
+																	pos: position{line: 2898, col: 8, offset: 91349},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2875, col: 12, offset: 90858},
+																			pos: position{line: 2885, col: 12, offset: 91122},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2875, col: 13, offset: 90859},
+																				pos: position{line: 2885, col: 13, offset: 91123},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 13, offset: 90859},
+																						pos:        position{line: 2885, col: 13, offset: 91123},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 20, offset: 90866},
+																						pos:        position{line: 2885, col: 20, offset: 91130},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 29, offset: 90875},
+																						pos:        position{line: 2885, col: 29, offset: 91139},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25595,9 +25615,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2885, col: 8, offset: 91035},
+																			pos: position{line: 2895, col: 8, offset: 91299},
 																			expr: &anyMatcher{
-																				line: 2885, col: 9, offset: 91036,
+																				line: 2895, col: 9, offset: 91300,
 																			},
 																		},
 																	},
@@ -25607,33 +25627,33 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1490, col: 13, offset: 48261},
+													pos:   position{line: 1500, col: 13, offset: 48525},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1490, col: 22, offset: 48270},
+														pos: position{line: 1500, col: 22, offset: 48534},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1570, col: 5, offset: 50788},
+																pos: position{line: 1580, col: 5, offset: 51052},
 																run: (*parser).callonExtraListElement27,
 																expr: &seqExpr{
-																	pos: position{line: 1570, col: 5, offset: 50788},
+																	pos: position{line: 1580, col: 5, offset: 51052},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1570, col: 5, offset: 50788},
+																			pos:   position{line: 1580, col: 5, offset: 51052},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1577, col: 5, offset: 50996},
+																				pos: position{line: 1587, col: 5, offset: 51260},
 																				run: (*parser).callonExtraListElement30,
 																				expr: &seqExpr{
-																					pos: position{line: 1577, col: 5, offset: 50996},
+																					pos: position{line: 1587, col: 5, offset: 51260},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1577, col: 5, offset: 50996},
+																							pos: position{line: 1587, col: 5, offset: 51260},
 																							expr: &actionExpr{
-																								pos: position{line: 2866, col: 10, offset: 90687},
+																								pos: position{line: 2876, col: 10, offset: 90951},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2866, col: 10, offset: 90687},
+																									pos:        position{line: 2876, col: 10, offset: 90951},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25642,27 +25662,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1577, col: 12, offset: 51003},
+																							pos:   position{line: 1587, col: 12, offset: 51267},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1579, col: 9, offset: 51066},
+																								pos: position{line: 1589, col: 9, offset: 51330},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1579, col: 9, offset: 51066},
+																										pos: position{line: 1589, col: 9, offset: 51330},
 																										run: (*parser).callonExtraListElement37,
 																										expr: &seqExpr{
-																											pos: position{line: 1579, col: 9, offset: 51066},
+																											pos: position{line: 1589, col: 9, offset: 51330},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1579, col: 9, offset: 51066},
+																													pos:   position{line: 1589, col: 9, offset: 51330},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1579, col: 16, offset: 51073},
+																														pos: position{line: 1589, col: 16, offset: 51337},
 																														run: (*parser).callonExtraListElement40,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1579, col: 16, offset: 51073},
+																															pos: position{line: 1589, col: 16, offset: 51337},
 																															expr: &litMatcher{
-																																pos:        position{line: 1579, col: 17, offset: 51074},
+																																pos:        position{line: 1589, col: 17, offset: 51338},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -25671,22 +25691,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1583, col: 9, offset: 51174},
+																													pos: position{line: 1593, col: 9, offset: 51438},
 																													run: (*parser).callonExtraListElement43,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1602, col: 11, offset: 51891},
+																										pos: position{line: 1612, col: 11, offset: 52155},
 																										run: (*parser).callonExtraListElement44,
 																										expr: &seqExpr{
-																											pos: position{line: 1602, col: 11, offset: 51891},
+																											pos: position{line: 1612, col: 11, offset: 52155},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1602, col: 11, offset: 51891},
+																													pos: position{line: 1612, col: 11, offset: 52155},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1602, col: 12, offset: 51892},
+																														pos:        position{line: 1612, col: 12, offset: 52156},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -25694,7 +25714,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1602, col: 20, offset: 51900},
+																													pos:        position{line: 1612, col: 20, offset: 52164},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -25703,20 +25723,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1604, col: 13, offset: 52017},
+																										pos: position{line: 1614, col: 13, offset: 52281},
 																										run: (*parser).callonExtraListElement49,
 																										expr: &seqExpr{
-																											pos: position{line: 1604, col: 13, offset: 52017},
+																											pos: position{line: 1614, col: 13, offset: 52281},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1604, col: 14, offset: 52018},
+																													pos:        position{line: 1614, col: 14, offset: 52282},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1604, col: 21, offset: 52025},
+																													pos:        position{line: 1614, col: 21, offset: 52289},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -25725,20 +25745,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1606, col: 13, offset: 52145},
+																										pos: position{line: 1616, col: 13, offset: 52409},
 																										run: (*parser).callonExtraListElement53,
 																										expr: &seqExpr{
-																											pos: position{line: 1606, col: 13, offset: 52145},
+																											pos: position{line: 1616, col: 13, offset: 52409},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1606, col: 14, offset: 52146},
+																													pos:        position{line: 1616, col: 14, offset: 52410},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1606, col: 21, offset: 52153},
+																													pos:        position{line: 1616, col: 21, offset: 52417},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -25747,15 +25767,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1608, col: 13, offset: 52273},
+																										pos: position{line: 1618, col: 13, offset: 52537},
 																										run: (*parser).callonExtraListElement57,
 																										expr: &seqExpr{
-																											pos: position{line: 1608, col: 13, offset: 52273},
+																											pos: position{line: 1618, col: 13, offset: 52537},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1608, col: 13, offset: 52273},
+																													pos: position{line: 1618, col: 13, offset: 52537},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1608, col: 14, offset: 52274},
+																														pos:        position{line: 1618, col: 14, offset: 52538},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -25763,7 +25783,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1608, col: 26, offset: 52286},
+																													pos:        position{line: 1618, col: 26, offset: 52550},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -25772,15 +25792,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1610, col: 13, offset: 52406},
+																										pos: position{line: 1620, col: 13, offset: 52670},
 																										run: (*parser).callonExtraListElement62,
 																										expr: &seqExpr{
-																											pos: position{line: 1610, col: 13, offset: 52406},
+																											pos: position{line: 1620, col: 13, offset: 52670},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1610, col: 13, offset: 52406},
+																													pos: position{line: 1620, col: 13, offset: 52670},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1610, col: 14, offset: 52407},
+																														pos:        position{line: 1620, col: 14, offset: 52671},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -25788,7 +25808,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1610, col: 26, offset: 52419},
+																													pos:        position{line: 1620, col: 26, offset: 52683},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -25800,12 +25820,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2870, col: 11, offset: 90748},
+																							pos: position{line: 2880, col: 11, offset: 91012},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2870, col: 11, offset: 90748},
+																								pos: position{line: 2880, col: 11, offset: 91012},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2870, col: 11, offset: 90748},
+																									pos:        position{line: 2880, col: 11, offset: 91012},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25818,26 +25838,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1571, col: 5, offset: 50827},
+																			pos:   position{line: 1581, col: 5, offset: 51091},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1518, col: 5, offset: 49294},
+																				pos: position{line: 1528, col: 5, offset: 49558},
 																				run: (*parser).callonExtraListElement71,
 																				expr: &seqExpr{
-																					pos: position{line: 1518, col: 5, offset: 49294},
+																					pos: position{line: 1528, col: 5, offset: 49558},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1518, col: 5, offset: 49294},
+																							pos:   position{line: 1528, col: 5, offset: 49558},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1518, col: 14, offset: 49303},
+																								pos: position{line: 1528, col: 14, offset: 49567},
 																								expr: &actionExpr{
-																									pos: position{line: 1518, col: 15, offset: 49304},
+																									pos: position{line: 1528, col: 15, offset: 49568},
 																									run: (*parser).callonExtraListElement75,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1518, col: 15, offset: 49304},
+																										pos: position{line: 1528, col: 15, offset: 49568},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1518, col: 15, offset: 49304},
+																											pos:        position{line: 1528, col: 15, offset: 49568},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -25848,28 +25868,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91085},
+																							pos: position{line: 2898, col: 8, offset: 91349},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90858},
+																									pos: position{line: 2885, col: 12, offset: 91122},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90859},
+																										pos: position{line: 2885, col: 13, offset: 91123},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90859},
+																												pos:        position{line: 2885, col: 13, offset: 91123},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90866},
+																												pos:        position{line: 2885, col: 20, offset: 91130},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90875},
+																												pos:        position{line: 2885, col: 29, offset: 91139},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25878,9 +25898,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91035},
+																									pos: position{line: 2895, col: 8, offset: 91299},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91036,
+																										line: 2895, col: 9, offset: 91300,
 																									},
 																								},
 																							},
@@ -25893,27 +25913,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1620, col: 5, offset: 52685},
+																pos: position{line: 1630, col: 5, offset: 52949},
 																run: (*parser).callonExtraListElement86,
 																expr: &seqExpr{
-																	pos: position{line: 1620, col: 5, offset: 52685},
+																	pos: position{line: 1630, col: 5, offset: 52949},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1620, col: 5, offset: 52685},
+																			pos:   position{line: 1630, col: 5, offset: 52949},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1627, col: 5, offset: 52958},
+																				pos: position{line: 1637, col: 5, offset: 53222},
 																				run: (*parser).callonExtraListElement89,
 																				expr: &seqExpr{
-																					pos: position{line: 1627, col: 5, offset: 52958},
+																					pos: position{line: 1637, col: 5, offset: 53222},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1627, col: 5, offset: 52958},
+																							pos: position{line: 1637, col: 5, offset: 53222},
 																							expr: &actionExpr{
-																								pos: position{line: 2866, col: 10, offset: 90687},
+																								pos: position{line: 2876, col: 10, offset: 90951},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2866, col: 10, offset: 90687},
+																									pos:        position{line: 2876, col: 10, offset: 90951},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25922,24 +25942,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1628, col: 5, offset: 52970},
+																							pos:   position{line: 1638, col: 5, offset: 53234},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1629, col: 9, offset: 52986},
+																								pos: position{line: 1639, col: 9, offset: 53250},
 																								run: (*parser).callonExtraListElement95,
 																								expr: &choiceExpr{
-																									pos: position{line: 1629, col: 10, offset: 52987},
+																									pos: position{line: 1639, col: 10, offset: 53251},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1629, col: 11, offset: 52988},
+																											pos:        position{line: 1639, col: 11, offset: 53252},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1629, col: 18, offset: 52995},
+																											pos: position{line: 1639, col: 18, offset: 53259},
 																											expr: &litMatcher{
-																												pos:        position{line: 1629, col: 19, offset: 52996},
+																												pos:        position{line: 1639, col: 19, offset: 53260},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -25950,16 +25970,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1632, col: 7, offset: 53086},
+																							pos: position{line: 1642, col: 7, offset: 53350},
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2870, col: 11, offset: 90748},
+																							pos: position{line: 2880, col: 11, offset: 91012},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2870, col: 11, offset: 90748},
+																								pos: position{line: 2880, col: 11, offset: 91012},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2870, col: 11, offset: 90748},
+																									pos:        position{line: 2880, col: 11, offset: 91012},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25972,56 +25992,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1621, col: 5, offset: 52726},
+																			pos:   position{line: 1631, col: 5, offset: 52990},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1621, col: 16, offset: 52737},
+																				pos: position{line: 1631, col: 16, offset: 53001},
 																				expr: &actionExpr{
-																					pos: position{line: 1642, col: 5, offset: 53351},
+																					pos: position{line: 1652, col: 5, offset: 53615},
 																					run: (*parser).callonExtraListElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 1642, col: 5, offset: 53351},
+																						pos: position{line: 1652, col: 5, offset: 53615},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1642, col: 5, offset: 53351},
+																								pos: position{line: 1652, col: 5, offset: 53615},
 																								expr: &litMatcher{
-																									pos:        position{line: 1642, col: 6, offset: 53352},
+																									pos:        position{line: 1652, col: 6, offset: 53616},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1642, col: 10, offset: 53356},
+																								pos:   position{line: 1652, col: 10, offset: 53620},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1643, col: 7, offset: 53370},
+																									pos: position{line: 1653, col: 7, offset: 53634},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1643, col: 7, offset: 53370},
+																											pos: position{line: 1653, col: 7, offset: 53634},
 																											run: (*parser).callonExtraListElement112,
 																											expr: &litMatcher{
-																												pos:        position{line: 1643, col: 7, offset: 53370},
+																												pos:        position{line: 1653, col: 7, offset: 53634},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1644, col: 7, offset: 53415},
+																											pos: position{line: 1654, col: 7, offset: 53679},
 																											run: (*parser).callonExtraListElement114,
 																											expr: &litMatcher{
-																												pos:        position{line: 1644, col: 7, offset: 53415},
+																												pos:        position{line: 1654, col: 7, offset: 53679},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1645, col: 7, offset: 53458},
+																											pos: position{line: 1655, col: 7, offset: 53722},
 																											run: (*parser).callonExtraListElement116,
 																											expr: &litMatcher{
-																												pos:        position{line: 1645, col: 7, offset: 53458},
+																												pos:        position{line: 1655, col: 7, offset: 53722},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -26031,12 +26051,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2870, col: 11, offset: 90748},
+																								pos: position{line: 2880, col: 11, offset: 91012},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2870, col: 11, offset: 90748},
+																									pos: position{line: 2880, col: 11, offset: 91012},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2870, col: 11, offset: 90748},
+																										pos:        position{line: 2880, col: 11, offset: 91012},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -26050,26 +26070,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1622, col: 5, offset: 52776},
+																			pos:   position{line: 1632, col: 5, offset: 53040},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1518, col: 5, offset: 49294},
+																				pos: position{line: 1528, col: 5, offset: 49558},
 																				run: (*parser).callonExtraListElement122,
 																				expr: &seqExpr{
-																					pos: position{line: 1518, col: 5, offset: 49294},
+																					pos: position{line: 1528, col: 5, offset: 49558},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1518, col: 5, offset: 49294},
+																							pos:   position{line: 1528, col: 5, offset: 49558},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1518, col: 14, offset: 49303},
+																								pos: position{line: 1528, col: 14, offset: 49567},
 																								expr: &actionExpr{
-																									pos: position{line: 1518, col: 15, offset: 49304},
+																									pos: position{line: 1528, col: 15, offset: 49568},
 																									run: (*parser).callonExtraListElement126,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1518, col: 15, offset: 49304},
+																										pos: position{line: 1528, col: 15, offset: 49568},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1518, col: 15, offset: 49304},
+																											pos:        position{line: 1528, col: 15, offset: 49568},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26080,28 +26100,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91085},
+																							pos: position{line: 2898, col: 8, offset: 91349},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90858},
+																									pos: position{line: 2885, col: 12, offset: 91122},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90859},
+																										pos: position{line: 2885, col: 13, offset: 91123},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90859},
+																												pos:        position{line: 2885, col: 13, offset: 91123},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90866},
+																												pos:        position{line: 2885, col: 20, offset: 91130},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90875},
+																												pos:        position{line: 2885, col: 29, offset: 91139},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26110,9 +26130,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91035},
+																									pos: position{line: 2895, col: 8, offset: 91299},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91036,
+																										line: 2895, col: 9, offset: 91300,
 																									},
 																								},
 																							},
@@ -26125,36 +26145,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1711, col: 5, offset: 55330},
+																pos: position{line: 1721, col: 5, offset: 55594},
 																run: (*parser).callonExtraListElement137,
 																expr: &seqExpr{
-																	pos: position{line: 1711, col: 5, offset: 55330},
+																	pos: position{line: 1721, col: 5, offset: 55594},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1711, col: 5, offset: 55330},
+																			pos:   position{line: 1721, col: 5, offset: 55594},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1717, col: 5, offset: 55527},
+																				pos: position{line: 1727, col: 5, offset: 55791},
 																				run: (*parser).callonExtraListElement140,
 																				expr: &seqExpr{
-																					pos: position{line: 1717, col: 5, offset: 55527},
+																					pos: position{line: 1727, col: 5, offset: 55791},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1717, col: 5, offset: 55527},
+																							pos:        position{line: 1727, col: 5, offset: 55791},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1717, col: 9, offset: 55531},
+																							pos:   position{line: 1727, col: 9, offset: 55795},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1717, col: 14, offset: 55536},
+																								pos: position{line: 1727, col: 14, offset: 55800},
 																								run: (*parser).callonExtraListElement144,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1717, col: 14, offset: 55536},
+																									pos: position{line: 1727, col: 14, offset: 55800},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1717, col: 14, offset: 55536},
+																										pos:        position{line: 1727, col: 14, offset: 55800},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -26164,18 +26184,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1717, col: 62, offset: 55584},
+																							pos:        position{line: 1727, col: 62, offset: 55848},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2870, col: 11, offset: 90748},
+																							pos: position{line: 2880, col: 11, offset: 91012},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2870, col: 11, offset: 90748},
+																								pos: position{line: 2880, col: 11, offset: 91012},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2870, col: 11, offset: 90748},
+																									pos:        position{line: 2880, col: 11, offset: 91012},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26188,26 +26208,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1712, col: 5, offset: 55366},
+																			pos:   position{line: 1722, col: 5, offset: 55630},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1518, col: 5, offset: 49294},
+																				pos: position{line: 1528, col: 5, offset: 49558},
 																				run: (*parser).callonExtraListElement152,
 																				expr: &seqExpr{
-																					pos: position{line: 1518, col: 5, offset: 49294},
+																					pos: position{line: 1528, col: 5, offset: 49558},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1518, col: 5, offset: 49294},
+																							pos:   position{line: 1528, col: 5, offset: 49558},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1518, col: 14, offset: 49303},
+																								pos: position{line: 1528, col: 14, offset: 49567},
 																								expr: &actionExpr{
-																									pos: position{line: 1518, col: 15, offset: 49304},
+																									pos: position{line: 1528, col: 15, offset: 49568},
 																									run: (*parser).callonExtraListElement156,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1518, col: 15, offset: 49304},
+																										pos: position{line: 1528, col: 15, offset: 49568},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1518, col: 15, offset: 49304},
+																											pos:        position{line: 1528, col: 15, offset: 49568},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26218,28 +26238,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91085},
+																							pos: position{line: 2898, col: 8, offset: 91349},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90858},
+																									pos: position{line: 2885, col: 12, offset: 91122},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90859},
+																										pos: position{line: 2885, col: 13, offset: 91123},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90859},
+																												pos:        position{line: 2885, col: 13, offset: 91123},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90866},
+																												pos:        position{line: 2885, col: 20, offset: 91130},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90875},
+																												pos:        position{line: 2885, col: 29, offset: 91139},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26248,9 +26268,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91035},
+																									pos: position{line: 2895, col: 8, offset: 91299},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91036,
+																										line: 2895, col: 9, offset: 91300,
 																									},
 																								},
 																							},
@@ -26263,35 +26283,35 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1654, col: 5, offset: 53651},
+																pos: position{line: 1664, col: 5, offset: 53915},
 																run: (*parser).callonExtraListElement167,
 																expr: &seqExpr{
-																	pos: position{line: 1654, col: 5, offset: 53651},
+																	pos: position{line: 1664, col: 5, offset: 53915},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1654, col: 5, offset: 53651},
+																			pos:   position{line: 1664, col: 5, offset: 53915},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1662, col: 5, offset: 53977},
+																				pos: position{line: 1672, col: 5, offset: 54241},
 																				run: (*parser).callonExtraListElement170,
 																				expr: &seqExpr{
-																					pos: position{line: 1662, col: 5, offset: 53977},
+																					pos: position{line: 1672, col: 5, offset: 54241},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1662, col: 5, offset: 53977},
+																							pos: position{line: 1672, col: 5, offset: 54241},
 																							expr: &seqExpr{
-																								pos: position{line: 2478, col: 31, offset: 79815},
+																								pos: position{line: 2488, col: 31, offset: 80079},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2478, col: 31, offset: 79815},
+																										pos:        position{line: 2488, col: 31, offset: 80079},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2478, col: 36, offset: 79820},
+																										pos: position{line: 2488, col: 36, offset: 80084},
 																										expr: &litMatcher{
-																											pos:        position{line: 2478, col: 37, offset: 79821},
+																											pos:        position{line: 2488, col: 37, offset: 80085},
 																											val:        "//",
 																											ignoreCase: false,
 																											want:       "\"//\"",
@@ -26301,28 +26321,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1663, col: 5, offset: 54009},
+																							pos: position{line: 1673, col: 5, offset: 54273},
 																							expr: &seqExpr{
-																								pos: position{line: 1663, col: 6, offset: 54010},
+																								pos: position{line: 1673, col: 6, offset: 54274},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1663, col: 6, offset: 54010},
+																										pos: position{line: 1673, col: 6, offset: 54274},
 																										expr: &actionExpr{
-																											pos: position{line: 1668, col: 5, offset: 54160},
+																											pos: position{line: 1678, col: 5, offset: 54424},
 																											run: (*parser).callonExtraListElement180,
 																											expr: &seqExpr{
-																												pos: position{line: 1668, col: 5, offset: 54160},
+																												pos: position{line: 1678, col: 5, offset: 54424},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1668, col: 5, offset: 54160},
+																														pos:   position{line: 1678, col: 5, offset: 54424},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1668, col: 16, offset: 54171},
+																															pos: position{line: 1678, col: 16, offset: 54435},
 																															run: (*parser).callonExtraListElement183,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1668, col: 16, offset: 54171},
+																																pos: position{line: 1678, col: 16, offset: 54435},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1668, col: 17, offset: 54172},
+																																	pos:        position{line: 1678, col: 17, offset: 54436},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -26331,7 +26351,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1671, col: 5, offset: 54229},
+																														pos: position{line: 1681, col: 5, offset: 54493},
 																														run: (*parser).callonExtraListElement186,
 																													},
 																												},
@@ -26339,30 +26359,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1663, col: 35, offset: 54039},
+																										pos: position{line: 1673, col: 35, offset: 54303},
 																										expr: &choiceExpr{
-																											pos: position{line: 2888, col: 8, offset: 91085},
+																											pos: position{line: 2898, col: 8, offset: 91349},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2875, col: 12, offset: 90858},
+																													pos: position{line: 2885, col: 12, offset: 91122},
 																													run: (*parser).callonExtraListElement189,
 																													expr: &choiceExpr{
-																														pos: position{line: 2875, col: 13, offset: 90859},
+																														pos: position{line: 2885, col: 13, offset: 91123},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 13, offset: 90859},
+																																pos:        position{line: 2885, col: 13, offset: 91123},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 20, offset: 90866},
+																																pos:        position{line: 2885, col: 20, offset: 91130},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 29, offset: 90875},
+																																pos:        position{line: 2885, col: 29, offset: 91139},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -26371,16 +26391,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2885, col: 8, offset: 91035},
+																													pos: position{line: 2895, col: 8, offset: 91299},
 																													expr: &anyMatcher{
-																														line: 2885, col: 9, offset: 91036,
+																														line: 2895, col: 9, offset: 91300,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1663, col: 40, offset: 54044,
+																										line: 1673, col: 40, offset: 54308,
 																									},
 																								},
 																							},
@@ -26390,24 +26410,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1655, col: 5, offset: 53686},
+																			pos:   position{line: 1665, col: 5, offset: 53950},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1668, col: 5, offset: 54160},
+																				pos: position{line: 1678, col: 5, offset: 54424},
 																				run: (*parser).callonExtraListElement198,
 																				expr: &seqExpr{
-																					pos: position{line: 1668, col: 5, offset: 54160},
+																					pos: position{line: 1678, col: 5, offset: 54424},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1668, col: 5, offset: 54160},
+																							pos:   position{line: 1678, col: 5, offset: 54424},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1668, col: 16, offset: 54171},
+																								pos: position{line: 1678, col: 16, offset: 54435},
 																								run: (*parser).callonExtraListElement201,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1668, col: 16, offset: 54171},
+																									pos: position{line: 1678, col: 16, offset: 54435},
 																									expr: &litMatcher{
-																										pos:        position{line: 1668, col: 17, offset: 54172},
+																										pos:        position{line: 1678, col: 17, offset: 54436},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -26416,7 +26436,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1671, col: 5, offset: 54229},
+																							pos: position{line: 1681, col: 5, offset: 54493},
 																							run: (*parser).callonExtraListElement204,
 																						},
 																					},
@@ -26424,24 +26444,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1656, col: 5, offset: 53731},
+																			pos:   position{line: 1666, col: 5, offset: 53995},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1679, col: 5, offset: 54478},
+																				pos: position{line: 1689, col: 5, offset: 54742},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1681, col: 9, offset: 54544},
+																						pos: position{line: 1691, col: 9, offset: 54808},
 																						run: (*parser).callonExtraListElement207,
 																						expr: &seqExpr{
-																							pos: position{line: 1681, col: 9, offset: 54544},
+																							pos: position{line: 1691, col: 9, offset: 54808},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1681, col: 9, offset: 54544},
+																									pos: position{line: 1691, col: 9, offset: 54808},
 																									expr: &actionExpr{
-																										pos: position{line: 2866, col: 10, offset: 90687},
+																										pos: position{line: 2876, col: 10, offset: 90951},
 																										run: (*parser).callonExtraListElement210,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2866, col: 10, offset: 90687},
+																											pos:        position{line: 2876, col: 10, offset: 90951},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26450,28 +26470,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2888, col: 8, offset: 91085},
+																									pos: position{line: 2898, col: 8, offset: 91349},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2875, col: 12, offset: 90858},
+																											pos: position{line: 2885, col: 12, offset: 91122},
 																											run: (*parser).callonExtraListElement213,
 																											expr: &choiceExpr{
-																												pos: position{line: 2875, col: 13, offset: 90859},
+																												pos: position{line: 2885, col: 13, offset: 91123},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 13, offset: 90859},
+																														pos:        position{line: 2885, col: 13, offset: 91123},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 20, offset: 90866},
+																														pos:        position{line: 2885, col: 20, offset: 91130},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 29, offset: 90875},
+																														pos:        position{line: 2885, col: 29, offset: 91139},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26480,15 +26500,15 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2885, col: 8, offset: 91035},
+																											pos: position{line: 2895, col: 8, offset: 91299},
 																											expr: &anyMatcher{
-																												line: 2885, col: 9, offset: 91036,
+																												line: 2895, col: 9, offset: 91300,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1682, col: 9, offset: 54563},
+																									pos: position{line: 1692, col: 9, offset: 54827},
 																									expr: &actionExpr{
 																										pos: position{line: 677, col: 14, offset: 21557},
 																										run: (*parser).callonExtraListElement221,
@@ -26496,18 +26516,18 @@ var g = &grammar{
 																											pos: position{line: 677, col: 14, offset: 21557},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2883, col: 11, offset: 91021},
+																													pos: position{line: 2893, col: 11, offset: 91285},
 																													expr: &anyMatcher{
-																														line: 2883, col: 13, offset: 91023,
+																														line: 2893, col: 13, offset: 91287,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 677, col: 21, offset: 21564},
 																													expr: &actionExpr{
-																														pos: position{line: 2866, col: 10, offset: 90687},
+																														pos: position{line: 2876, col: 10, offset: 90951},
 																														run: (*parser).callonExtraListElement226,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2866, col: 10, offset: 90687},
+																															pos:        position{line: 2876, col: 10, offset: 90951},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -26516,28 +26536,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2888, col: 8, offset: 91085},
+																													pos: position{line: 2898, col: 8, offset: 91349},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2875, col: 12, offset: 90858},
+																															pos: position{line: 2885, col: 12, offset: 91122},
 																															run: (*parser).callonExtraListElement229,
 																															expr: &choiceExpr{
-																																pos: position{line: 2875, col: 13, offset: 90859},
+																																pos: position{line: 2885, col: 13, offset: 91123},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2875, col: 13, offset: 90859},
+																																		pos:        position{line: 2885, col: 13, offset: 91123},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2875, col: 20, offset: 90866},
+																																		pos:        position{line: 2885, col: 20, offset: 91130},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2875, col: 29, offset: 90875},
+																																		pos:        position{line: 2885, col: 29, offset: 91139},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -26546,9 +26566,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2885, col: 8, offset: 91035},
+																															pos: position{line: 2895, col: 8, offset: 91299},
 																															expr: &anyMatcher{
-																																line: 2885, col: 9, offset: 91036,
+																																line: 2895, col: 9, offset: 91300,
 																															},
 																														},
 																													},
@@ -26561,18 +26581,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1688, col: 9, offset: 54692},
+																						pos: position{line: 1698, col: 9, offset: 54956},
 																						run: (*parser).callonExtraListElement236,
 																						expr: &seqExpr{
-																							pos: position{line: 1688, col: 9, offset: 54692},
+																							pos: position{line: 1698, col: 9, offset: 54956},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 11, offset: 90748},
+																									pos: position{line: 2880, col: 11, offset: 91012},
 																									run: (*parser).callonExtraListElement238,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2870, col: 11, offset: 90748},
+																										pos: position{line: 2880, col: 11, offset: 91012},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2870, col: 11, offset: 90748},
+																											pos:        position{line: 2880, col: 11, offset: 91012},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26581,15 +26601,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1689, col: 9, offset: 54765},
+																									pos:   position{line: 1699, col: 9, offset: 55029},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1689, col: 18, offset: 54774},
+																										pos: position{line: 1699, col: 18, offset: 55038},
 																										run: (*parser).callonExtraListElement242,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1689, col: 18, offset: 54774},
+																											pos: position{line: 1699, col: 18, offset: 55038},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1689, col: 18, offset: 54774},
+																												pos:        position{line: 1699, col: 18, offset: 55038},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -26599,28 +26619,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2888, col: 8, offset: 91085},
+																									pos: position{line: 2898, col: 8, offset: 91349},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2875, col: 12, offset: 90858},
+																											pos: position{line: 2885, col: 12, offset: 91122},
 																											run: (*parser).callonExtraListElement246,
 																											expr: &choiceExpr{
-																												pos: position{line: 2875, col: 13, offset: 90859},
+																												pos: position{line: 2885, col: 13, offset: 91123},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 13, offset: 90859},
+																														pos:        position{line: 2885, col: 13, offset: 91123},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 20, offset: 90866},
+																														pos:        position{line: 2885, col: 20, offset: 91130},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 29, offset: 90875},
+																														pos:        position{line: 2885, col: 29, offset: 91139},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26629,9 +26649,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2885, col: 8, offset: 91035},
+																											pos: position{line: 2895, col: 8, offset: 91299},
 																											expr: &anyMatcher{
-																												line: 2885, col: 9, offset: 91036,
+																												line: 2895, col: 9, offset: 91300,
 																											},
 																										},
 																									},
@@ -26652,50 +26672,50 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1493, col: 13, offset: 48421},
+										pos: position{line: 1503, col: 13, offset: 48685},
 										run: (*parser).callonExtraListElement253,
 										expr: &seqExpr{
-											pos: position{line: 1493, col: 13, offset: 48421},
+											pos: position{line: 1503, col: 13, offset: 48685},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1493, col: 13, offset: 48421},
+													pos:   position{line: 1503, col: 13, offset: 48685},
 													label: "attributes",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1493, col: 24, offset: 48432},
+														pos: position{line: 1503, col: 24, offset: 48696},
 														expr: &ruleRefExpr{
-															pos:  position{line: 1493, col: 25, offset: 48433},
+															pos:  position{line: 1503, col: 25, offset: 48697},
 															name: "BlockAttributes",
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1494, col: 13, offset: 48464},
+													pos:   position{line: 1504, col: 13, offset: 48728},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1494, col: 22, offset: 48473},
+														pos: position{line: 1504, col: 22, offset: 48737},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1570, col: 5, offset: 50788},
+																pos: position{line: 1580, col: 5, offset: 51052},
 																run: (*parser).callonExtraListElement260,
 																expr: &seqExpr{
-																	pos: position{line: 1570, col: 5, offset: 50788},
+																	pos: position{line: 1580, col: 5, offset: 51052},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1570, col: 5, offset: 50788},
+																			pos:   position{line: 1580, col: 5, offset: 51052},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1577, col: 5, offset: 50996},
+																				pos: position{line: 1587, col: 5, offset: 51260},
 																				run: (*parser).callonExtraListElement263,
 																				expr: &seqExpr{
-																					pos: position{line: 1577, col: 5, offset: 50996},
+																					pos: position{line: 1587, col: 5, offset: 51260},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1577, col: 5, offset: 50996},
+																							pos: position{line: 1587, col: 5, offset: 51260},
 																							expr: &actionExpr{
-																								pos: position{line: 2866, col: 10, offset: 90687},
+																								pos: position{line: 2876, col: 10, offset: 90951},
 																								run: (*parser).callonExtraListElement266,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2866, col: 10, offset: 90687},
+																									pos:        position{line: 2876, col: 10, offset: 90951},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26704,27 +26724,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1577, col: 12, offset: 51003},
+																							pos:   position{line: 1587, col: 12, offset: 51267},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1579, col: 9, offset: 51066},
+																								pos: position{line: 1589, col: 9, offset: 51330},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1579, col: 9, offset: 51066},
+																										pos: position{line: 1589, col: 9, offset: 51330},
 																										run: (*parser).callonExtraListElement270,
 																										expr: &seqExpr{
-																											pos: position{line: 1579, col: 9, offset: 51066},
+																											pos: position{line: 1589, col: 9, offset: 51330},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1579, col: 9, offset: 51066},
+																													pos:   position{line: 1589, col: 9, offset: 51330},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1579, col: 16, offset: 51073},
+																														pos: position{line: 1589, col: 16, offset: 51337},
 																														run: (*parser).callonExtraListElement273,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1579, col: 16, offset: 51073},
+																															pos: position{line: 1589, col: 16, offset: 51337},
 																															expr: &litMatcher{
-																																pos:        position{line: 1579, col: 17, offset: 51074},
+																																pos:        position{line: 1589, col: 17, offset: 51338},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -26733,22 +26753,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1583, col: 9, offset: 51174},
+																													pos: position{line: 1593, col: 9, offset: 51438},
 																													run: (*parser).callonExtraListElement276,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1602, col: 11, offset: 51891},
+																										pos: position{line: 1612, col: 11, offset: 52155},
 																										run: (*parser).callonExtraListElement277,
 																										expr: &seqExpr{
-																											pos: position{line: 1602, col: 11, offset: 51891},
+																											pos: position{line: 1612, col: 11, offset: 52155},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1602, col: 11, offset: 51891},
+																													pos: position{line: 1612, col: 11, offset: 52155},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1602, col: 12, offset: 51892},
+																														pos:        position{line: 1612, col: 12, offset: 52156},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -26756,7 +26776,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1602, col: 20, offset: 51900},
+																													pos:        position{line: 1612, col: 20, offset: 52164},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26765,20 +26785,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1604, col: 13, offset: 52017},
+																										pos: position{line: 1614, col: 13, offset: 52281},
 																										run: (*parser).callonExtraListElement282,
 																										expr: &seqExpr{
-																											pos: position{line: 1604, col: 13, offset: 52017},
+																											pos: position{line: 1614, col: 13, offset: 52281},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1604, col: 14, offset: 52018},
+																													pos:        position{line: 1614, col: 14, offset: 52282},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1604, col: 21, offset: 52025},
+																													pos:        position{line: 1614, col: 21, offset: 52289},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26787,20 +26807,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1606, col: 13, offset: 52145},
+																										pos: position{line: 1616, col: 13, offset: 52409},
 																										run: (*parser).callonExtraListElement286,
 																										expr: &seqExpr{
-																											pos: position{line: 1606, col: 13, offset: 52145},
+																											pos: position{line: 1616, col: 13, offset: 52409},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1606, col: 14, offset: 52146},
+																													pos:        position{line: 1616, col: 14, offset: 52410},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1606, col: 21, offset: 52153},
+																													pos:        position{line: 1616, col: 21, offset: 52417},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26809,15 +26829,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1608, col: 13, offset: 52273},
+																										pos: position{line: 1618, col: 13, offset: 52537},
 																										run: (*parser).callonExtraListElement290,
 																										expr: &seqExpr{
-																											pos: position{line: 1608, col: 13, offset: 52273},
+																											pos: position{line: 1618, col: 13, offset: 52537},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1608, col: 13, offset: 52273},
+																													pos: position{line: 1618, col: 13, offset: 52537},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1608, col: 14, offset: 52274},
+																														pos:        position{line: 1618, col: 14, offset: 52538},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -26825,7 +26845,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1608, col: 26, offset: 52286},
+																													pos:        position{line: 1618, col: 26, offset: 52550},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26834,15 +26854,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1610, col: 13, offset: 52406},
+																										pos: position{line: 1620, col: 13, offset: 52670},
 																										run: (*parser).callonExtraListElement295,
 																										expr: &seqExpr{
-																											pos: position{line: 1610, col: 13, offset: 52406},
+																											pos: position{line: 1620, col: 13, offset: 52670},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1610, col: 13, offset: 52406},
+																													pos: position{line: 1620, col: 13, offset: 52670},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1610, col: 14, offset: 52407},
+																														pos:        position{line: 1620, col: 14, offset: 52671},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -26850,7 +26870,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1610, col: 26, offset: 52419},
+																													pos:        position{line: 1620, col: 26, offset: 52683},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26862,12 +26882,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2870, col: 11, offset: 90748},
+																							pos: position{line: 2880, col: 11, offset: 91012},
 																							run: (*parser).callonExtraListElement300,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2870, col: 11, offset: 90748},
+																								pos: position{line: 2880, col: 11, offset: 91012},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2870, col: 11, offset: 90748},
+																									pos:        position{line: 2880, col: 11, offset: 91012},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26880,26 +26900,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1571, col: 5, offset: 50827},
+																			pos:   position{line: 1581, col: 5, offset: 51091},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1518, col: 5, offset: 49294},
+																				pos: position{line: 1528, col: 5, offset: 49558},
 																				run: (*parser).callonExtraListElement304,
 																				expr: &seqExpr{
-																					pos: position{line: 1518, col: 5, offset: 49294},
+																					pos: position{line: 1528, col: 5, offset: 49558},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1518, col: 5, offset: 49294},
+																							pos:   position{line: 1528, col: 5, offset: 49558},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1518, col: 14, offset: 49303},
+																								pos: position{line: 1528, col: 14, offset: 49567},
 																								expr: &actionExpr{
-																									pos: position{line: 1518, col: 15, offset: 49304},
+																									pos: position{line: 1528, col: 15, offset: 49568},
 																									run: (*parser).callonExtraListElement308,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1518, col: 15, offset: 49304},
+																										pos: position{line: 1528, col: 15, offset: 49568},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1518, col: 15, offset: 49304},
+																											pos:        position{line: 1528, col: 15, offset: 49568},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26910,28 +26930,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91085},
+																							pos: position{line: 2898, col: 8, offset: 91349},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90858},
+																									pos: position{line: 2885, col: 12, offset: 91122},
 																									run: (*parser).callonExtraListElement312,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90859},
+																										pos: position{line: 2885, col: 13, offset: 91123},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90859},
+																												pos:        position{line: 2885, col: 13, offset: 91123},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90866},
+																												pos:        position{line: 2885, col: 20, offset: 91130},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90875},
+																												pos:        position{line: 2885, col: 29, offset: 91139},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26940,9 +26960,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91035},
+																									pos: position{line: 2895, col: 8, offset: 91299},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91036,
+																										line: 2895, col: 9, offset: 91300,
 																									},
 																								},
 																							},
@@ -26955,27 +26975,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1620, col: 5, offset: 52685},
+																pos: position{line: 1630, col: 5, offset: 52949},
 																run: (*parser).callonExtraListElement319,
 																expr: &seqExpr{
-																	pos: position{line: 1620, col: 5, offset: 52685},
+																	pos: position{line: 1630, col: 5, offset: 52949},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1620, col: 5, offset: 52685},
+																			pos:   position{line: 1630, col: 5, offset: 52949},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1627, col: 5, offset: 52958},
+																				pos: position{line: 1637, col: 5, offset: 53222},
 																				run: (*parser).callonExtraListElement322,
 																				expr: &seqExpr{
-																					pos: position{line: 1627, col: 5, offset: 52958},
+																					pos: position{line: 1637, col: 5, offset: 53222},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1627, col: 5, offset: 52958},
+																							pos: position{line: 1637, col: 5, offset: 53222},
 																							expr: &actionExpr{
-																								pos: position{line: 2866, col: 10, offset: 90687},
+																								pos: position{line: 2876, col: 10, offset: 90951},
 																								run: (*parser).callonExtraListElement325,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2866, col: 10, offset: 90687},
+																									pos:        position{line: 2876, col: 10, offset: 90951},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26984,24 +27004,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1628, col: 5, offset: 52970},
+																							pos:   position{line: 1638, col: 5, offset: 53234},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1629, col: 9, offset: 52986},
+																								pos: position{line: 1639, col: 9, offset: 53250},
 																								run: (*parser).callonExtraListElement328,
 																								expr: &choiceExpr{
-																									pos: position{line: 1629, col: 10, offset: 52987},
+																									pos: position{line: 1639, col: 10, offset: 53251},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1629, col: 11, offset: 52988},
+																											pos:        position{line: 1639, col: 11, offset: 53252},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1629, col: 18, offset: 52995},
+																											pos: position{line: 1639, col: 18, offset: 53259},
 																											expr: &litMatcher{
-																												pos:        position{line: 1629, col: 19, offset: 52996},
+																												pos:        position{line: 1639, col: 19, offset: 53260},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -27012,16 +27032,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1632, col: 7, offset: 53086},
+																							pos: position{line: 1642, col: 7, offset: 53350},
 																							run: (*parser).callonExtraListElement333,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2870, col: 11, offset: 90748},
+																							pos: position{line: 2880, col: 11, offset: 91012},
 																							run: (*parser).callonExtraListElement334,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2870, col: 11, offset: 90748},
+																								pos: position{line: 2880, col: 11, offset: 91012},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2870, col: 11, offset: 90748},
+																									pos:        position{line: 2880, col: 11, offset: 91012},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27034,56 +27054,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1621, col: 5, offset: 52726},
+																			pos:   position{line: 1631, col: 5, offset: 52990},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1621, col: 16, offset: 52737},
+																				pos: position{line: 1631, col: 16, offset: 53001},
 																				expr: &actionExpr{
-																					pos: position{line: 1642, col: 5, offset: 53351},
+																					pos: position{line: 1652, col: 5, offset: 53615},
 																					run: (*parser).callonExtraListElement339,
 																					expr: &seqExpr{
-																						pos: position{line: 1642, col: 5, offset: 53351},
+																						pos: position{line: 1652, col: 5, offset: 53615},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1642, col: 5, offset: 53351},
+																								pos: position{line: 1652, col: 5, offset: 53615},
 																								expr: &litMatcher{
-																									pos:        position{line: 1642, col: 6, offset: 53352},
+																									pos:        position{line: 1652, col: 6, offset: 53616},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1642, col: 10, offset: 53356},
+																								pos:   position{line: 1652, col: 10, offset: 53620},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1643, col: 7, offset: 53370},
+																									pos: position{line: 1653, col: 7, offset: 53634},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1643, col: 7, offset: 53370},
+																											pos: position{line: 1653, col: 7, offset: 53634},
 																											run: (*parser).callonExtraListElement345,
 																											expr: &litMatcher{
-																												pos:        position{line: 1643, col: 7, offset: 53370},
+																												pos:        position{line: 1653, col: 7, offset: 53634},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1644, col: 7, offset: 53415},
+																											pos: position{line: 1654, col: 7, offset: 53679},
 																											run: (*parser).callonExtraListElement347,
 																											expr: &litMatcher{
-																												pos:        position{line: 1644, col: 7, offset: 53415},
+																												pos:        position{line: 1654, col: 7, offset: 53679},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1645, col: 7, offset: 53458},
+																											pos: position{line: 1655, col: 7, offset: 53722},
 																											run: (*parser).callonExtraListElement349,
 																											expr: &litMatcher{
-																												pos:        position{line: 1645, col: 7, offset: 53458},
+																												pos:        position{line: 1655, col: 7, offset: 53722},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -27093,12 +27113,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2870, col: 11, offset: 90748},
+																								pos: position{line: 2880, col: 11, offset: 91012},
 																								run: (*parser).callonExtraListElement351,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2870, col: 11, offset: 90748},
+																									pos: position{line: 2880, col: 11, offset: 91012},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2870, col: 11, offset: 90748},
+																										pos:        position{line: 2880, col: 11, offset: 91012},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27112,26 +27132,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1622, col: 5, offset: 52776},
+																			pos:   position{line: 1632, col: 5, offset: 53040},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1518, col: 5, offset: 49294},
+																				pos: position{line: 1528, col: 5, offset: 49558},
 																				run: (*parser).callonExtraListElement355,
 																				expr: &seqExpr{
-																					pos: position{line: 1518, col: 5, offset: 49294},
+																					pos: position{line: 1528, col: 5, offset: 49558},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1518, col: 5, offset: 49294},
+																							pos:   position{line: 1528, col: 5, offset: 49558},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1518, col: 14, offset: 49303},
+																								pos: position{line: 1528, col: 14, offset: 49567},
 																								expr: &actionExpr{
-																									pos: position{line: 1518, col: 15, offset: 49304},
+																									pos: position{line: 1528, col: 15, offset: 49568},
 																									run: (*parser).callonExtraListElement359,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1518, col: 15, offset: 49304},
+																										pos: position{line: 1528, col: 15, offset: 49568},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1518, col: 15, offset: 49304},
+																											pos:        position{line: 1528, col: 15, offset: 49568},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27142,28 +27162,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91085},
+																							pos: position{line: 2898, col: 8, offset: 91349},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90858},
+																									pos: position{line: 2885, col: 12, offset: 91122},
 																									run: (*parser).callonExtraListElement363,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90859},
+																										pos: position{line: 2885, col: 13, offset: 91123},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90859},
+																												pos:        position{line: 2885, col: 13, offset: 91123},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90866},
+																												pos:        position{line: 2885, col: 20, offset: 91130},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90875},
+																												pos:        position{line: 2885, col: 29, offset: 91139},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27172,9 +27192,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91035},
+																									pos: position{line: 2895, col: 8, offset: 91299},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91036,
+																										line: 2895, col: 9, offset: 91300,
 																									},
 																								},
 																							},
@@ -27187,36 +27207,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1711, col: 5, offset: 55330},
+																pos: position{line: 1721, col: 5, offset: 55594},
 																run: (*parser).callonExtraListElement370,
 																expr: &seqExpr{
-																	pos: position{line: 1711, col: 5, offset: 55330},
+																	pos: position{line: 1721, col: 5, offset: 55594},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1711, col: 5, offset: 55330},
+																			pos:   position{line: 1721, col: 5, offset: 55594},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1717, col: 5, offset: 55527},
+																				pos: position{line: 1727, col: 5, offset: 55791},
 																				run: (*parser).callonExtraListElement373,
 																				expr: &seqExpr{
-																					pos: position{line: 1717, col: 5, offset: 55527},
+																					pos: position{line: 1727, col: 5, offset: 55791},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1717, col: 5, offset: 55527},
+																							pos:        position{line: 1727, col: 5, offset: 55791},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1717, col: 9, offset: 55531},
+																							pos:   position{line: 1727, col: 9, offset: 55795},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1717, col: 14, offset: 55536},
+																								pos: position{line: 1727, col: 14, offset: 55800},
 																								run: (*parser).callonExtraListElement377,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1717, col: 14, offset: 55536},
+																									pos: position{line: 1727, col: 14, offset: 55800},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1717, col: 14, offset: 55536},
+																										pos:        position{line: 1727, col: 14, offset: 55800},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -27226,18 +27246,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1717, col: 62, offset: 55584},
+																							pos:        position{line: 1727, col: 62, offset: 55848},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2870, col: 11, offset: 90748},
+																							pos: position{line: 2880, col: 11, offset: 91012},
 																							run: (*parser).callonExtraListElement381,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2870, col: 11, offset: 90748},
+																								pos: position{line: 2880, col: 11, offset: 91012},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2870, col: 11, offset: 90748},
+																									pos:        position{line: 2880, col: 11, offset: 91012},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27250,26 +27270,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1712, col: 5, offset: 55366},
+																			pos:   position{line: 1722, col: 5, offset: 55630},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1518, col: 5, offset: 49294},
+																				pos: position{line: 1528, col: 5, offset: 49558},
 																				run: (*parser).callonExtraListElement385,
 																				expr: &seqExpr{
-																					pos: position{line: 1518, col: 5, offset: 49294},
+																					pos: position{line: 1528, col: 5, offset: 49558},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1518, col: 5, offset: 49294},
+																							pos:   position{line: 1528, col: 5, offset: 49558},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1518, col: 14, offset: 49303},
+																								pos: position{line: 1528, col: 14, offset: 49567},
 																								expr: &actionExpr{
-																									pos: position{line: 1518, col: 15, offset: 49304},
+																									pos: position{line: 1528, col: 15, offset: 49568},
 																									run: (*parser).callonExtraListElement389,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1518, col: 15, offset: 49304},
+																										pos: position{line: 1528, col: 15, offset: 49568},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1518, col: 15, offset: 49304},
+																											pos:        position{line: 1528, col: 15, offset: 49568},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27280,28 +27300,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91085},
+																							pos: position{line: 2898, col: 8, offset: 91349},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90858},
+																									pos: position{line: 2885, col: 12, offset: 91122},
 																									run: (*parser).callonExtraListElement393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90859},
+																										pos: position{line: 2885, col: 13, offset: 91123},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90859},
+																												pos:        position{line: 2885, col: 13, offset: 91123},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90866},
+																												pos:        position{line: 2885, col: 20, offset: 91130},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90875},
+																												pos:        position{line: 2885, col: 29, offset: 91139},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27310,9 +27330,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91035},
+																									pos: position{line: 2895, col: 8, offset: 91299},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91036,
+																										line: 2895, col: 9, offset: 91300,
 																									},
 																								},
 																							},
@@ -27325,35 +27345,35 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1654, col: 5, offset: 53651},
+																pos: position{line: 1664, col: 5, offset: 53915},
 																run: (*parser).callonExtraListElement400,
 																expr: &seqExpr{
-																	pos: position{line: 1654, col: 5, offset: 53651},
+																	pos: position{line: 1664, col: 5, offset: 53915},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1654, col: 5, offset: 53651},
+																			pos:   position{line: 1664, col: 5, offset: 53915},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1662, col: 5, offset: 53977},
+																				pos: position{line: 1672, col: 5, offset: 54241},
 																				run: (*parser).callonExtraListElement403,
 																				expr: &seqExpr{
-																					pos: position{line: 1662, col: 5, offset: 53977},
+																					pos: position{line: 1672, col: 5, offset: 54241},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1662, col: 5, offset: 53977},
+																							pos: position{line: 1672, col: 5, offset: 54241},
 																							expr: &seqExpr{
-																								pos: position{line: 2478, col: 31, offset: 79815},
+																								pos: position{line: 2488, col: 31, offset: 80079},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2478, col: 31, offset: 79815},
+																										pos:        position{line: 2488, col: 31, offset: 80079},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2478, col: 36, offset: 79820},
+																										pos: position{line: 2488, col: 36, offset: 80084},
 																										expr: &litMatcher{
-																											pos:        position{line: 2478, col: 37, offset: 79821},
+																											pos:        position{line: 2488, col: 37, offset: 80085},
 																											val:        "//",
 																											ignoreCase: false,
 																											want:       "\"//\"",
@@ -27363,28 +27383,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1663, col: 5, offset: 54009},
+																							pos: position{line: 1673, col: 5, offset: 54273},
 																							expr: &seqExpr{
-																								pos: position{line: 1663, col: 6, offset: 54010},
+																								pos: position{line: 1673, col: 6, offset: 54274},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1663, col: 6, offset: 54010},
+																										pos: position{line: 1673, col: 6, offset: 54274},
 																										expr: &actionExpr{
-																											pos: position{line: 1668, col: 5, offset: 54160},
+																											pos: position{line: 1678, col: 5, offset: 54424},
 																											run: (*parser).callonExtraListElement413,
 																											expr: &seqExpr{
-																												pos: position{line: 1668, col: 5, offset: 54160},
+																												pos: position{line: 1678, col: 5, offset: 54424},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1668, col: 5, offset: 54160},
+																														pos:   position{line: 1678, col: 5, offset: 54424},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1668, col: 16, offset: 54171},
+																															pos: position{line: 1678, col: 16, offset: 54435},
 																															run: (*parser).callonExtraListElement416,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1668, col: 16, offset: 54171},
+																																pos: position{line: 1678, col: 16, offset: 54435},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1668, col: 17, offset: 54172},
+																																	pos:        position{line: 1678, col: 17, offset: 54436},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -27393,7 +27413,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1671, col: 5, offset: 54229},
+																														pos: position{line: 1681, col: 5, offset: 54493},
 																														run: (*parser).callonExtraListElement419,
 																													},
 																												},
@@ -27401,30 +27421,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1663, col: 35, offset: 54039},
+																										pos: position{line: 1673, col: 35, offset: 54303},
 																										expr: &choiceExpr{
-																											pos: position{line: 2888, col: 8, offset: 91085},
+																											pos: position{line: 2898, col: 8, offset: 91349},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2875, col: 12, offset: 90858},
+																													pos: position{line: 2885, col: 12, offset: 91122},
 																													run: (*parser).callonExtraListElement422,
 																													expr: &choiceExpr{
-																														pos: position{line: 2875, col: 13, offset: 90859},
+																														pos: position{line: 2885, col: 13, offset: 91123},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 13, offset: 90859},
+																																pos:        position{line: 2885, col: 13, offset: 91123},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 20, offset: 90866},
+																																pos:        position{line: 2885, col: 20, offset: 91130},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 29, offset: 90875},
+																																pos:        position{line: 2885, col: 29, offset: 91139},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -27433,16 +27453,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2885, col: 8, offset: 91035},
+																													pos: position{line: 2895, col: 8, offset: 91299},
 																													expr: &anyMatcher{
-																														line: 2885, col: 9, offset: 91036,
+																														line: 2895, col: 9, offset: 91300,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1663, col: 40, offset: 54044,
+																										line: 1673, col: 40, offset: 54308,
 																									},
 																								},
 																							},
@@ -27452,24 +27472,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1655, col: 5, offset: 53686},
+																			pos:   position{line: 1665, col: 5, offset: 53950},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1668, col: 5, offset: 54160},
+																				pos: position{line: 1678, col: 5, offset: 54424},
 																				run: (*parser).callonExtraListElement431,
 																				expr: &seqExpr{
-																					pos: position{line: 1668, col: 5, offset: 54160},
+																					pos: position{line: 1678, col: 5, offset: 54424},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1668, col: 5, offset: 54160},
+																							pos:   position{line: 1678, col: 5, offset: 54424},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1668, col: 16, offset: 54171},
+																								pos: position{line: 1678, col: 16, offset: 54435},
 																								run: (*parser).callonExtraListElement434,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1668, col: 16, offset: 54171},
+																									pos: position{line: 1678, col: 16, offset: 54435},
 																									expr: &litMatcher{
-																										pos:        position{line: 1668, col: 17, offset: 54172},
+																										pos:        position{line: 1678, col: 17, offset: 54436},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -27478,7 +27498,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1671, col: 5, offset: 54229},
+																							pos: position{line: 1681, col: 5, offset: 54493},
 																							run: (*parser).callonExtraListElement437,
 																						},
 																					},
@@ -27486,24 +27506,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1656, col: 5, offset: 53731},
+																			pos:   position{line: 1666, col: 5, offset: 53995},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1679, col: 5, offset: 54478},
+																				pos: position{line: 1689, col: 5, offset: 54742},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1681, col: 9, offset: 54544},
+																						pos: position{line: 1691, col: 9, offset: 54808},
 																						run: (*parser).callonExtraListElement440,
 																						expr: &seqExpr{
-																							pos: position{line: 1681, col: 9, offset: 54544},
+																							pos: position{line: 1691, col: 9, offset: 54808},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1681, col: 9, offset: 54544},
+																									pos: position{line: 1691, col: 9, offset: 54808},
 																									expr: &actionExpr{
-																										pos: position{line: 2866, col: 10, offset: 90687},
+																										pos: position{line: 2876, col: 10, offset: 90951},
 																										run: (*parser).callonExtraListElement443,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2866, col: 10, offset: 90687},
+																											pos:        position{line: 2876, col: 10, offset: 90951},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27512,28 +27532,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2888, col: 8, offset: 91085},
+																									pos: position{line: 2898, col: 8, offset: 91349},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2875, col: 12, offset: 90858},
+																											pos: position{line: 2885, col: 12, offset: 91122},
 																											run: (*parser).callonExtraListElement446,
 																											expr: &choiceExpr{
-																												pos: position{line: 2875, col: 13, offset: 90859},
+																												pos: position{line: 2885, col: 13, offset: 91123},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 13, offset: 90859},
+																														pos:        position{line: 2885, col: 13, offset: 91123},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 20, offset: 90866},
+																														pos:        position{line: 2885, col: 20, offset: 91130},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 29, offset: 90875},
+																														pos:        position{line: 2885, col: 29, offset: 91139},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27542,15 +27562,15 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2885, col: 8, offset: 91035},
+																											pos: position{line: 2895, col: 8, offset: 91299},
 																											expr: &anyMatcher{
-																												line: 2885, col: 9, offset: 91036,
+																												line: 2895, col: 9, offset: 91300,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1682, col: 9, offset: 54563},
+																									pos: position{line: 1692, col: 9, offset: 54827},
 																									expr: &actionExpr{
 																										pos: position{line: 677, col: 14, offset: 21557},
 																										run: (*parser).callonExtraListElement454,
@@ -27558,18 +27578,18 @@ var g = &grammar{
 																											pos: position{line: 677, col: 14, offset: 21557},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2883, col: 11, offset: 91021},
+																													pos: position{line: 2893, col: 11, offset: 91285},
 																													expr: &anyMatcher{
-																														line: 2883, col: 13, offset: 91023,
+																														line: 2893, col: 13, offset: 91287,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 677, col: 21, offset: 21564},
 																													expr: &actionExpr{
-																														pos: position{line: 2866, col: 10, offset: 90687},
+																														pos: position{line: 2876, col: 10, offset: 90951},
 																														run: (*parser).callonExtraListElement459,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2866, col: 10, offset: 90687},
+																															pos:        position{line: 2876, col: 10, offset: 90951},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27578,28 +27598,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2888, col: 8, offset: 91085},
+																													pos: position{line: 2898, col: 8, offset: 91349},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2875, col: 12, offset: 90858},
+																															pos: position{line: 2885, col: 12, offset: 91122},
 																															run: (*parser).callonExtraListElement462,
 																															expr: &choiceExpr{
-																																pos: position{line: 2875, col: 13, offset: 90859},
+																																pos: position{line: 2885, col: 13, offset: 91123},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2875, col: 13, offset: 90859},
+																																		pos:        position{line: 2885, col: 13, offset: 91123},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2875, col: 20, offset: 90866},
+																																		pos:        position{line: 2885, col: 20, offset: 91130},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2875, col: 29, offset: 90875},
+																																		pos:        position{line: 2885, col: 29, offset: 91139},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -27608,9 +27628,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2885, col: 8, offset: 91035},
+																															pos: position{line: 2895, col: 8, offset: 91299},
 																															expr: &anyMatcher{
-																																line: 2885, col: 9, offset: 91036,
+																																line: 2895, col: 9, offset: 91300,
 																															},
 																														},
 																													},
@@ -27623,18 +27643,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1688, col: 9, offset: 54692},
+																						pos: position{line: 1698, col: 9, offset: 54956},
 																						run: (*parser).callonExtraListElement469,
 																						expr: &seqExpr{
-																							pos: position{line: 1688, col: 9, offset: 54692},
+																							pos: position{line: 1698, col: 9, offset: 54956},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 11, offset: 90748},
+																									pos: position{line: 2880, col: 11, offset: 91012},
 																									run: (*parser).callonExtraListElement471,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2870, col: 11, offset: 90748},
+																										pos: position{line: 2880, col: 11, offset: 91012},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2870, col: 11, offset: 90748},
+																											pos:        position{line: 2880, col: 11, offset: 91012},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27643,15 +27663,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1689, col: 9, offset: 54765},
+																									pos:   position{line: 1699, col: 9, offset: 55029},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1689, col: 18, offset: 54774},
+																										pos: position{line: 1699, col: 18, offset: 55038},
 																										run: (*parser).callonExtraListElement475,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1689, col: 18, offset: 54774},
+																											pos: position{line: 1699, col: 18, offset: 55038},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1689, col: 18, offset: 54774},
+																												pos:        position{line: 1699, col: 18, offset: 55038},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -27661,28 +27681,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2888, col: 8, offset: 91085},
+																									pos: position{line: 2898, col: 8, offset: 91349},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2875, col: 12, offset: 90858},
+																											pos: position{line: 2885, col: 12, offset: 91122},
 																											run: (*parser).callonExtraListElement479,
 																											expr: &choiceExpr{
-																												pos: position{line: 2875, col: 13, offset: 90859},
+																												pos: position{line: 2885, col: 13, offset: 91123},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 13, offset: 90859},
+																														pos:        position{line: 2885, col: 13, offset: 91123},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 20, offset: 90866},
+																														pos:        position{line: 2885, col: 20, offset: 91130},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 29, offset: 90875},
+																														pos:        position{line: 2885, col: 29, offset: 91139},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27691,9 +27711,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2885, col: 8, offset: 91035},
+																											pos: position{line: 2895, col: 8, offset: 91299},
 																											expr: &anyMatcher{
-																												line: 2885, col: 9, offset: 91036,
+																												line: 2895, col: 9, offset: 91300,
 																											},
 																										},
 																									},
@@ -27714,40 +27734,40 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1497, col: 11, offset: 48658},
+										pos:  position{line: 1507, col: 11, offset: 48922},
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2473, col: 22, offset: 79594},
+										pos: position{line: 2483, col: 22, offset: 79858},
 										run: (*parser).callonExtraListElement487,
 										expr: &seqExpr{
-											pos: position{line: 2473, col: 22, offset: 79594},
+											pos: position{line: 2483, col: 22, offset: 79858},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2478, col: 31, offset: 79815},
+													pos:        position{line: 2488, col: 31, offset: 80079},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2478, col: 36, offset: 79820},
+													pos: position{line: 2488, col: 36, offset: 80084},
 													expr: &litMatcher{
-														pos:        position{line: 2478, col: 37, offset: 79821},
+														pos:        position{line: 2488, col: 37, offset: 80085},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2473, col: 49, offset: 79621},
+													pos:   position{line: 2483, col: 49, offset: 79885},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2812, col: 13, offset: 89213},
+														pos: position{line: 2822, col: 13, offset: 89477},
 														run: (*parser).callonExtraListElement493,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2812, col: 13, offset: 89213},
+															pos: position{line: 2822, col: 13, offset: 89477},
 															expr: &charClassMatcher{
-																pos:        position{line: 2812, col: 13, offset: 89213},
+																pos:        position{line: 2822, col: 13, offset: 89477},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -27757,28 +27777,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2888, col: 8, offset: 91085},
+													pos: position{line: 2898, col: 8, offset: 91349},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2875, col: 12, offset: 90858},
+															pos: position{line: 2885, col: 12, offset: 91122},
 															run: (*parser).callonExtraListElement497,
 															expr: &choiceExpr{
-																pos: position{line: 2875, col: 13, offset: 90859},
+																pos: position{line: 2885, col: 13, offset: 91123},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 13, offset: 90859},
+																		pos:        position{line: 2885, col: 13, offset: 91123},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 20, offset: 90866},
+																		pos:        position{line: 2885, col: 20, offset: 91130},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 29, offset: 90875},
+																		pos:        position{line: 2885, col: 29, offset: 91139},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -27787,9 +27807,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2885, col: 8, offset: 91035},
+															pos: position{line: 2895, col: 8, offset: 91299},
 															expr: &anyMatcher{
-																line: 2885, col: 9, offset: 91036,
+																line: 2895, col: 9, offset: 91300,
 															},
 														},
 													},
@@ -27798,13 +27818,13 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1505, col: 5, offset: 48936},
+										pos: position{line: 1515, col: 5, offset: 49200},
 										run: (*parser).callonExtraListElement504,
 										expr: &seqExpr{
-											pos: position{line: 1505, col: 5, offset: 48936},
+											pos: position{line: 1515, col: 5, offset: 49200},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 1505, col: 5, offset: 48936},
+													pos: position{line: 1515, col: 5, offset: 49200},
 													expr: &actionExpr{
 														pos: position{line: 677, col: 14, offset: 21557},
 														run: (*parser).callonExtraListElement507,
@@ -27812,18 +27832,18 @@ var g = &grammar{
 															pos: position{line: 677, col: 14, offset: 21557},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2883, col: 11, offset: 91021},
+																	pos: position{line: 2893, col: 11, offset: 91285},
 																	expr: &anyMatcher{
-																		line: 2883, col: 13, offset: 91023,
+																		line: 2893, col: 13, offset: 91287,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 677, col: 21, offset: 21564},
 																	expr: &actionExpr{
-																		pos: position{line: 2866, col: 10, offset: 90687},
+																		pos: position{line: 2876, col: 10, offset: 90951},
 																		run: (*parser).callonExtraListElement512,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2866, col: 10, offset: 90687},
+																			pos:        position{line: 2876, col: 10, offset: 90951},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27832,28 +27852,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2888, col: 8, offset: 91085},
+																	pos: position{line: 2898, col: 8, offset: 91349},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2875, col: 12, offset: 90858},
+																			pos: position{line: 2885, col: 12, offset: 91122},
 																			run: (*parser).callonExtraListElement515,
 																			expr: &choiceExpr{
-																				pos: position{line: 2875, col: 13, offset: 90859},
+																				pos: position{line: 2885, col: 13, offset: 91123},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 13, offset: 90859},
+																						pos:        position{line: 2885, col: 13, offset: 91123},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 20, offset: 90866},
+																						pos:        position{line: 2885, col: 20, offset: 91130},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 29, offset: 90875},
+																						pos:        position{line: 2885, col: 29, offset: 91139},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -27862,9 +27882,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2885, col: 8, offset: 91035},
+																			pos: position{line: 2895, col: 8, offset: 91299},
 																			expr: &anyMatcher{
-																				line: 2885, col: 9, offset: 91036,
+																				line: 2895, col: 9, offset: 91300,
 																			},
 																		},
 																	},
@@ -27874,23 +27894,23 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1506, col: 5, offset: 48951},
+													pos: position{line: 1516, col: 5, offset: 49215},
 													expr: &seqExpr{
-														pos: position{line: 1536, col: 27, offset: 49777},
+														pos: position{line: 1546, col: 27, offset: 50041},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 1536, col: 27, offset: 49777},
+																pos:        position{line: 1546, col: 27, offset: 50041},
 																val:        "+",
 																ignoreCase: false,
 																want:       "\"+\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 1536, col: 31, offset: 49781},
+																pos: position{line: 1546, col: 31, offset: 50045},
 																expr: &actionExpr{
-																	pos: position{line: 2866, col: 10, offset: 90687},
+																	pos: position{line: 2876, col: 10, offset: 90951},
 																	run: (*parser).callonExtraListElement526,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2866, col: 10, offset: 90687},
+																		pos:        position{line: 2876, col: 10, offset: 90951},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -27899,25 +27919,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2875, col: 12, offset: 90858},
+																pos: position{line: 2885, col: 12, offset: 91122},
 																run: (*parser).callonExtraListElement528,
 																expr: &choiceExpr{
-																	pos: position{line: 2875, col: 13, offset: 90859},
+																	pos: position{line: 2885, col: 13, offset: 91123},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 13, offset: 90859},
+																			pos:        position{line: 2885, col: 13, offset: 91123},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 20, offset: 90866},
+																			pos:        position{line: 2885, col: 20, offset: 91130},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 29, offset: 90875},
+																			pos:        position{line: 2885, col: 29, offset: 91139},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -27929,20 +27949,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1507, col: 5, offset: 48979},
+													pos: position{line: 1517, col: 5, offset: 49243},
 													expr: &actionExpr{
-														pos: position{line: 1577, col: 5, offset: 50996},
+														pos: position{line: 1587, col: 5, offset: 51260},
 														run: (*parser).callonExtraListElement534,
 														expr: &seqExpr{
-															pos: position{line: 1577, col: 5, offset: 50996},
+															pos: position{line: 1587, col: 5, offset: 51260},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1577, col: 5, offset: 50996},
+																	pos: position{line: 1587, col: 5, offset: 51260},
 																	expr: &actionExpr{
-																		pos: position{line: 2866, col: 10, offset: 90687},
+																		pos: position{line: 2876, col: 10, offset: 90951},
 																		run: (*parser).callonExtraListElement537,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2866, col: 10, offset: 90687},
+																			pos:        position{line: 2876, col: 10, offset: 90951},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27951,27 +27971,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1577, col: 12, offset: 51003},
+																	pos:   position{line: 1587, col: 12, offset: 51267},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1579, col: 9, offset: 51066},
+																		pos: position{line: 1589, col: 9, offset: 51330},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1579, col: 9, offset: 51066},
+																				pos: position{line: 1589, col: 9, offset: 51330},
 																				run: (*parser).callonExtraListElement541,
 																				expr: &seqExpr{
-																					pos: position{line: 1579, col: 9, offset: 51066},
+																					pos: position{line: 1589, col: 9, offset: 51330},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1579, col: 9, offset: 51066},
+																							pos:   position{line: 1589, col: 9, offset: 51330},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1579, col: 16, offset: 51073},
+																								pos: position{line: 1589, col: 16, offset: 51337},
 																								run: (*parser).callonExtraListElement544,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1579, col: 16, offset: 51073},
+																									pos: position{line: 1589, col: 16, offset: 51337},
 																									expr: &litMatcher{
-																										pos:        position{line: 1579, col: 17, offset: 51074},
+																										pos:        position{line: 1589, col: 17, offset: 51338},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -27980,22 +28000,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1583, col: 9, offset: 51174},
+																							pos: position{line: 1593, col: 9, offset: 51438},
 																							run: (*parser).callonExtraListElement547,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1602, col: 11, offset: 51891},
+																				pos: position{line: 1612, col: 11, offset: 52155},
 																				run: (*parser).callonExtraListElement548,
 																				expr: &seqExpr{
-																					pos: position{line: 1602, col: 11, offset: 51891},
+																					pos: position{line: 1612, col: 11, offset: 52155},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1602, col: 11, offset: 51891},
+																							pos: position{line: 1612, col: 11, offset: 52155},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1602, col: 12, offset: 51892},
+																								pos:        position{line: 1612, col: 12, offset: 52156},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -28003,7 +28023,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1602, col: 20, offset: 51900},
+																							pos:        position{line: 1612, col: 20, offset: 52164},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28012,20 +28032,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1604, col: 13, offset: 52017},
+																				pos: position{line: 1614, col: 13, offset: 52281},
 																				run: (*parser).callonExtraListElement553,
 																				expr: &seqExpr{
-																					pos: position{line: 1604, col: 13, offset: 52017},
+																					pos: position{line: 1614, col: 13, offset: 52281},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1604, col: 14, offset: 52018},
+																							pos:        position{line: 1614, col: 14, offset: 52282},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1604, col: 21, offset: 52025},
+																							pos:        position{line: 1614, col: 21, offset: 52289},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28034,20 +28054,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1606, col: 13, offset: 52145},
+																				pos: position{line: 1616, col: 13, offset: 52409},
 																				run: (*parser).callonExtraListElement557,
 																				expr: &seqExpr{
-																					pos: position{line: 1606, col: 13, offset: 52145},
+																					pos: position{line: 1616, col: 13, offset: 52409},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1606, col: 14, offset: 52146},
+																							pos:        position{line: 1616, col: 14, offset: 52410},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1606, col: 21, offset: 52153},
+																							pos:        position{line: 1616, col: 21, offset: 52417},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28056,15 +28076,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1608, col: 13, offset: 52273},
+																				pos: position{line: 1618, col: 13, offset: 52537},
 																				run: (*parser).callonExtraListElement561,
 																				expr: &seqExpr{
-																					pos: position{line: 1608, col: 13, offset: 52273},
+																					pos: position{line: 1618, col: 13, offset: 52537},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1608, col: 13, offset: 52273},
+																							pos: position{line: 1618, col: 13, offset: 52537},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1608, col: 14, offset: 52274},
+																								pos:        position{line: 1618, col: 14, offset: 52538},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -28072,7 +28092,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1608, col: 26, offset: 52286},
+																							pos:        position{line: 1618, col: 26, offset: 52550},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -28081,15 +28101,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1610, col: 13, offset: 52406},
+																				pos: position{line: 1620, col: 13, offset: 52670},
 																				run: (*parser).callonExtraListElement566,
 																				expr: &seqExpr{
-																					pos: position{line: 1610, col: 13, offset: 52406},
+																					pos: position{line: 1620, col: 13, offset: 52670},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1610, col: 13, offset: 52406},
+																							pos: position{line: 1620, col: 13, offset: 52670},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1610, col: 14, offset: 52407},
+																								pos:        position{line: 1620, col: 14, offset: 52671},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -28097,7 +28117,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1610, col: 26, offset: 52419},
+																							pos:        position{line: 1620, col: 26, offset: 52683},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -28109,12 +28129,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2870, col: 11, offset: 90748},
+																	pos: position{line: 2880, col: 11, offset: 91012},
 																	run: (*parser).callonExtraListElement571,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2870, col: 11, offset: 90748},
+																		pos: position{line: 2880, col: 11, offset: 91012},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2870, col: 11, offset: 90748},
+																			pos:        position{line: 2880, col: 11, offset: 91012},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28127,20 +28147,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1508, col: 5, offset: 49009},
+													pos: position{line: 1518, col: 5, offset: 49273},
 													expr: &actionExpr{
-														pos: position{line: 1627, col: 5, offset: 52958},
+														pos: position{line: 1637, col: 5, offset: 53222},
 														run: (*parser).callonExtraListElement575,
 														expr: &seqExpr{
-															pos: position{line: 1627, col: 5, offset: 52958},
+															pos: position{line: 1637, col: 5, offset: 53222},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1627, col: 5, offset: 52958},
+																	pos: position{line: 1637, col: 5, offset: 53222},
 																	expr: &actionExpr{
-																		pos: position{line: 2866, col: 10, offset: 90687},
+																		pos: position{line: 2876, col: 10, offset: 90951},
 																		run: (*parser).callonExtraListElement578,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2866, col: 10, offset: 90687},
+																			pos:        position{line: 2876, col: 10, offset: 90951},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28149,24 +28169,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1628, col: 5, offset: 52970},
+																	pos:   position{line: 1638, col: 5, offset: 53234},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1629, col: 9, offset: 52986},
+																		pos: position{line: 1639, col: 9, offset: 53250},
 																		run: (*parser).callonExtraListElement581,
 																		expr: &choiceExpr{
-																			pos: position{line: 1629, col: 10, offset: 52987},
+																			pos: position{line: 1639, col: 10, offset: 53251},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1629, col: 11, offset: 52988},
+																					pos:        position{line: 1639, col: 11, offset: 53252},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1629, col: 18, offset: 52995},
+																					pos: position{line: 1639, col: 18, offset: 53259},
 																					expr: &litMatcher{
-																						pos:        position{line: 1629, col: 19, offset: 52996},
+																						pos:        position{line: 1639, col: 19, offset: 53260},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -28177,16 +28197,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1632, col: 7, offset: 53086},
+																	pos: position{line: 1642, col: 7, offset: 53350},
 																	run: (*parser).callonExtraListElement586,
 																},
 																&actionExpr{
-																	pos: position{line: 2870, col: 11, offset: 90748},
+																	pos: position{line: 2880, col: 11, offset: 91012},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2870, col: 11, offset: 90748},
+																		pos: position{line: 2880, col: 11, offset: 91012},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2870, col: 11, offset: 90748},
+																			pos:        position{line: 2880, col: 11, offset: 91012},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28199,29 +28219,29 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1509, col: 5, offset: 49041},
+													pos: position{line: 1519, col: 5, offset: 49305},
 													expr: &actionExpr{
-														pos: position{line: 1717, col: 5, offset: 55527},
+														pos: position{line: 1727, col: 5, offset: 55791},
 														run: (*parser).callonExtraListElement591,
 														expr: &seqExpr{
-															pos: position{line: 1717, col: 5, offset: 55527},
+															pos: position{line: 1727, col: 5, offset: 55791},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1717, col: 5, offset: 55527},
+																	pos:        position{line: 1727, col: 5, offset: 55791},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1717, col: 9, offset: 55531},
+																	pos:   position{line: 1727, col: 9, offset: 55795},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1717, col: 14, offset: 55536},
+																		pos: position{line: 1727, col: 14, offset: 55800},
 																		run: (*parser).callonExtraListElement595,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1717, col: 14, offset: 55536},
+																			pos: position{line: 1727, col: 14, offset: 55800},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1717, col: 14, offset: 55536},
+																				pos:        position{line: 1727, col: 14, offset: 55800},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -28231,18 +28251,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1717, col: 62, offset: 55584},
+																	pos:        position{line: 1727, col: 62, offset: 55848},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2870, col: 11, offset: 90748},
+																	pos: position{line: 2880, col: 11, offset: 91012},
 																	run: (*parser).callonExtraListElement599,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2870, col: 11, offset: 90748},
+																		pos: position{line: 2880, col: 11, offset: 91012},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2870, col: 11, offset: 90748},
+																			pos:        position{line: 2880, col: 11, offset: 91012},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28255,31 +28275,31 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1510, col: 5, offset: 49071},
+													pos: position{line: 1520, col: 5, offset: 49335},
 													expr: &seqExpr{
-														pos: position{line: 1510, col: 7, offset: 49073},
+														pos: position{line: 1520, col: 7, offset: 49337},
 														exprs: []interface{}{
 															&actionExpr{
-																pos: position{line: 1662, col: 5, offset: 53977},
+																pos: position{line: 1672, col: 5, offset: 54241},
 																run: (*parser).callonExtraListElement604,
 																expr: &seqExpr{
-																	pos: position{line: 1662, col: 5, offset: 53977},
+																	pos: position{line: 1672, col: 5, offset: 54241},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1662, col: 5, offset: 53977},
+																			pos: position{line: 1672, col: 5, offset: 54241},
 																			expr: &seqExpr{
-																				pos: position{line: 2478, col: 31, offset: 79815},
+																				pos: position{line: 2488, col: 31, offset: 80079},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2478, col: 31, offset: 79815},
+																						pos:        position{line: 2488, col: 31, offset: 80079},
 																						val:        "//",
 																						ignoreCase: false,
 																						want:       "\"//\"",
 																					},
 																					&notExpr{
-																						pos: position{line: 2478, col: 36, offset: 79820},
+																						pos: position{line: 2488, col: 36, offset: 80084},
 																						expr: &litMatcher{
-																							pos:        position{line: 2478, col: 37, offset: 79821},
+																							pos:        position{line: 2488, col: 37, offset: 80085},
 																							val:        "//",
 																							ignoreCase: false,
 																							want:       "\"//\"",
@@ -28289,28 +28309,28 @@ var g = &grammar{
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 1663, col: 5, offset: 54009},
+																			pos: position{line: 1673, col: 5, offset: 54273},
 																			expr: &seqExpr{
-																				pos: position{line: 1663, col: 6, offset: 54010},
+																				pos: position{line: 1673, col: 6, offset: 54274},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1663, col: 6, offset: 54010},
+																						pos: position{line: 1673, col: 6, offset: 54274},
 																						expr: &actionExpr{
-																							pos: position{line: 1668, col: 5, offset: 54160},
+																							pos: position{line: 1678, col: 5, offset: 54424},
 																							run: (*parser).callonExtraListElement614,
 																							expr: &seqExpr{
-																								pos: position{line: 1668, col: 5, offset: 54160},
+																								pos: position{line: 1678, col: 5, offset: 54424},
 																								exprs: []interface{}{
 																									&labeledExpr{
-																										pos:   position{line: 1668, col: 5, offset: 54160},
+																										pos:   position{line: 1678, col: 5, offset: 54424},
 																										label: "separator",
 																										expr: &actionExpr{
-																											pos: position{line: 1668, col: 16, offset: 54171},
+																											pos: position{line: 1678, col: 16, offset: 54435},
 																											run: (*parser).callonExtraListElement617,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1668, col: 16, offset: 54171},
+																												pos: position{line: 1678, col: 16, offset: 54435},
 																												expr: &litMatcher{
-																													pos:        position{line: 1668, col: 17, offset: 54172},
+																													pos:        position{line: 1678, col: 17, offset: 54436},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
@@ -28319,7 +28339,7 @@ var g = &grammar{
 																										},
 																									},
 																									&andCodeExpr{
-																										pos: position{line: 1671, col: 5, offset: 54229},
+																										pos: position{line: 1681, col: 5, offset: 54493},
 																										run: (*parser).callonExtraListElement620,
 																									},
 																								},
@@ -28327,30 +28347,30 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1663, col: 35, offset: 54039},
+																						pos: position{line: 1673, col: 35, offset: 54303},
 																						expr: &choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91085},
+																							pos: position{line: 2898, col: 8, offset: 91349},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90858},
+																									pos: position{line: 2885, col: 12, offset: 91122},
 																									run: (*parser).callonExtraListElement623,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90859},
+																										pos: position{line: 2885, col: 13, offset: 91123},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90859},
+																												pos:        position{line: 2885, col: 13, offset: 91123},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90866},
+																												pos:        position{line: 2885, col: 20, offset: 91130},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90875},
+																												pos:        position{line: 2885, col: 29, offset: 91139},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28359,16 +28379,16 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91035},
+																									pos: position{line: 2895, col: 8, offset: 91299},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91036,
+																										line: 2895, col: 9, offset: 91300,
 																									},
 																								},
 																							},
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1663, col: 40, offset: 54044,
+																						line: 1673, col: 40, offset: 54308,
 																					},
 																				},
 																			},
@@ -28377,21 +28397,21 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1668, col: 5, offset: 54160},
+																pos: position{line: 1678, col: 5, offset: 54424},
 																run: (*parser).callonExtraListElement631,
 																expr: &seqExpr{
-																	pos: position{line: 1668, col: 5, offset: 54160},
+																	pos: position{line: 1678, col: 5, offset: 54424},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1668, col: 5, offset: 54160},
+																			pos:   position{line: 1678, col: 5, offset: 54424},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1668, col: 16, offset: 54171},
+																				pos: position{line: 1678, col: 16, offset: 54435},
 																				run: (*parser).callonExtraListElement634,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1668, col: 16, offset: 54171},
+																					pos: position{line: 1678, col: 16, offset: 54435},
 																					expr: &litMatcher{
-																						pos:        position{line: 1668, col: 17, offset: 54172},
+																						pos:        position{line: 1678, col: 17, offset: 54436},
 																						val:        ":",
 																						ignoreCase: false,
 																						want:       "\":\"",
@@ -28400,7 +28420,7 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1671, col: 5, offset: 54229},
+																			pos: position{line: 1681, col: 5, offset: 54493},
 																			run: (*parser).callonExtraListElement637,
 																		},
 																	},
@@ -28410,7 +28430,7 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1511, col: 5, offset: 49129},
+													pos: position{line: 1521, col: 5, offset: 49393},
 													expr: &actionExpr{
 														pos: position{line: 724, col: 5, offset: 23110},
 														run: (*parser).callonExtraListElement639,
@@ -28420,7 +28440,7 @@ var g = &grammar{
 																&notExpr{
 																	pos: position{line: 724, col: 5, offset: 23110},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2756, col: 13, offset: 87782},
+																		pos:        position{line: 2766, col: 13, offset: 88046},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -28470,10 +28490,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 742, col: 8, offset: 23754},
 																							expr: &actionExpr{
-																								pos: position{line: 2866, col: 10, offset: 90687},
+																								pos: position{line: 2876, col: 10, offset: 90951},
 																								run: (*parser).callonExtraListElement654,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2866, col: 10, offset: 90687},
+																									pos:        position{line: 2876, col: 10, offset: 90951},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28482,28 +28502,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91085},
+																							pos: position{line: 2898, col: 8, offset: 91349},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90858},
+																									pos: position{line: 2885, col: 12, offset: 91122},
 																									run: (*parser).callonExtraListElement657,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90859},
+																										pos: position{line: 2885, col: 13, offset: 91123},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90859},
+																												pos:        position{line: 2885, col: 13, offset: 91123},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90866},
+																												pos:        position{line: 2885, col: 20, offset: 91130},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90875},
+																												pos:        position{line: 2885, col: 29, offset: 91139},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28512,9 +28532,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91035},
+																									pos: position{line: 2895, col: 8, offset: 91299},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91036,
+																										line: 2895, col: 9, offset: 91300,
 																									},
 																								},
 																							},
@@ -28559,10 +28579,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 749, col: 8, offset: 24002},
 																							expr: &actionExpr{
-																								pos: position{line: 2866, col: 10, offset: 90687},
+																								pos: position{line: 2876, col: 10, offset: 90951},
 																								run: (*parser).callonExtraListElement673,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2866, col: 10, offset: 90687},
+																									pos:        position{line: 2876, col: 10, offset: 90951},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28571,28 +28591,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91085},
+																							pos: position{line: 2898, col: 8, offset: 91349},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90858},
+																									pos: position{line: 2885, col: 12, offset: 91122},
 																									run: (*parser).callonExtraListElement676,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90859},
+																										pos: position{line: 2885, col: 13, offset: 91123},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90859},
+																												pos:        position{line: 2885, col: 13, offset: 91123},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90866},
+																												pos:        position{line: 2885, col: 20, offset: 91130},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90875},
+																												pos:        position{line: 2885, col: 29, offset: 91139},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28601,9 +28621,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91035},
+																									pos: position{line: 2895, col: 8, offset: 91299},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91036,
+																										line: 2895, col: 9, offset: 91300,
 																									},
 																								},
 																							},
@@ -28644,10 +28664,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 760, col: 52, offset: 24414},
 																							expr: &actionExpr{
-																								pos: position{line: 2866, col: 10, offset: 90687},
+																								pos: position{line: 2876, col: 10, offset: 90951},
 																								run: (*parser).callonExtraListElement691,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2866, col: 10, offset: 90687},
+																									pos:        position{line: 2876, col: 10, offset: 90951},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28656,28 +28676,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91085},
+																							pos: position{line: 2898, col: 8, offset: 91349},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90858},
+																									pos: position{line: 2885, col: 12, offset: 91122},
 																									run: (*parser).callonExtraListElement694,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90859},
+																										pos: position{line: 2885, col: 13, offset: 91123},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90859},
+																												pos:        position{line: 2885, col: 13, offset: 91123},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90866},
+																												pos:        position{line: 2885, col: 20, offset: 91130},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90875},
+																												pos:        position{line: 2885, col: 29, offset: 91139},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28686,9 +28706,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91035},
+																									pos: position{line: 2895, col: 8, offset: 91299},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91036,
+																										line: 2895, col: 9, offset: 91300,
 																									},
 																								},
 																							},
@@ -28733,10 +28753,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 756, col: 8, offset: 24248},
 																							expr: &actionExpr{
-																								pos: position{line: 2866, col: 10, offset: 90687},
+																								pos: position{line: 2876, col: 10, offset: 90951},
 																								run: (*parser).callonExtraListElement710,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2866, col: 10, offset: 90687},
+																									pos:        position{line: 2876, col: 10, offset: 90951},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28745,28 +28765,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91085},
+																							pos: position{line: 2898, col: 8, offset: 91349},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90858},
+																									pos: position{line: 2885, col: 12, offset: 91122},
 																									run: (*parser).callonExtraListElement713,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90859},
+																										pos: position{line: 2885, col: 13, offset: 91123},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90859},
+																												pos:        position{line: 2885, col: 13, offset: 91123},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90866},
+																												pos:        position{line: 2885, col: 20, offset: 91130},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90875},
+																												pos:        position{line: 2885, col: 29, offset: 91139},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28775,9 +28795,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91035},
+																									pos: position{line: 2895, col: 8, offset: 91299},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91036,
+																										line: 2895, col: 9, offset: 91300,
 																									},
 																								},
 																							},
@@ -28822,10 +28842,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 771, col: 8, offset: 24791},
 																							expr: &actionExpr{
-																								pos: position{line: 2866, col: 10, offset: 90687},
+																								pos: position{line: 2876, col: 10, offset: 90951},
 																								run: (*parser).callonExtraListElement729,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2866, col: 10, offset: 90687},
+																									pos:        position{line: 2876, col: 10, offset: 90951},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28834,28 +28854,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91085},
+																							pos: position{line: 2898, col: 8, offset: 91349},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90858},
+																									pos: position{line: 2885, col: 12, offset: 91122},
 																									run: (*parser).callonExtraListElement732,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90859},
+																										pos: position{line: 2885, col: 13, offset: 91123},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90859},
+																												pos:        position{line: 2885, col: 13, offset: 91123},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90866},
+																												pos:        position{line: 2885, col: 20, offset: 91130},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90875},
+																												pos:        position{line: 2885, col: 29, offset: 91139},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28864,9 +28884,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91035},
+																									pos: position{line: 2895, col: 8, offset: 91299},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91036,
+																										line: 2895, col: 9, offset: 91300,
 																									},
 																								},
 																							},
@@ -28911,10 +28931,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 785, col: 8, offset: 25267},
 																							expr: &actionExpr{
-																								pos: position{line: 2866, col: 10, offset: 90687},
+																								pos: position{line: 2876, col: 10, offset: 90951},
 																								run: (*parser).callonExtraListElement748,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2866, col: 10, offset: 90687},
+																									pos:        position{line: 2876, col: 10, offset: 90951},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28923,28 +28943,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91085},
+																							pos: position{line: 2898, col: 8, offset: 91349},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90858},
+																									pos: position{line: 2885, col: 12, offset: 91122},
 																									run: (*parser).callonExtraListElement751,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90859},
+																										pos: position{line: 2885, col: 13, offset: 91123},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90859},
+																												pos:        position{line: 2885, col: 13, offset: 91123},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90866},
+																												pos:        position{line: 2885, col: 20, offset: 91130},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90875},
+																												pos:        position{line: 2885, col: 29, offset: 91139},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28953,9 +28973,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91035},
+																									pos: position{line: 2895, col: 8, offset: 91299},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91036,
+																										line: 2895, col: 9, offset: 91300,
 																									},
 																								},
 																							},
@@ -29000,10 +29020,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 792, col: 8, offset: 25519},
 																							expr: &actionExpr{
-																								pos: position{line: 2866, col: 10, offset: 90687},
+																								pos: position{line: 2876, col: 10, offset: 90951},
 																								run: (*parser).callonExtraListElement767,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2866, col: 10, offset: 90687},
+																									pos:        position{line: 2876, col: 10, offset: 90951},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29012,28 +29032,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91085},
+																							pos: position{line: 2898, col: 8, offset: 91349},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90858},
+																									pos: position{line: 2885, col: 12, offset: 91122},
 																									run: (*parser).callonExtraListElement770,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90859},
+																										pos: position{line: 2885, col: 13, offset: 91123},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90859},
+																												pos:        position{line: 2885, col: 13, offset: 91123},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90866},
+																												pos:        position{line: 2885, col: 20, offset: 91130},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90875},
+																												pos:        position{line: 2885, col: 29, offset: 91139},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29042,9 +29062,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91035},
+																									pos: position{line: 2895, col: 8, offset: 91299},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91036,
+																										line: 2895, col: 9, offset: 91300,
 																									},
 																								},
 																							},
@@ -29089,10 +29109,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 799, col: 8, offset: 25769},
 																							expr: &actionExpr{
-																								pos: position{line: 2866, col: 10, offset: 90687},
+																								pos: position{line: 2876, col: 10, offset: 90951},
 																								run: (*parser).callonExtraListElement786,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2866, col: 10, offset: 90687},
+																									pos:        position{line: 2876, col: 10, offset: 90951},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29101,28 +29121,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91085},
+																							pos: position{line: 2898, col: 8, offset: 91349},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90858},
+																									pos: position{line: 2885, col: 12, offset: 91122},
 																									run: (*parser).callonExtraListElement789,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90859},
+																										pos: position{line: 2885, col: 13, offset: 91123},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90859},
+																												pos:        position{line: 2885, col: 13, offset: 91123},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90866},
+																												pos:        position{line: 2885, col: 20, offset: 91130},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90875},
+																												pos:        position{line: 2885, col: 29, offset: 91139},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29131,9 +29151,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91035},
+																									pos: position{line: 2895, col: 8, offset: 91299},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91036,
+																										line: 2895, col: 9, offset: 91300,
 																									},
 																								},
 																							},
@@ -29178,10 +29198,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 806, col: 8, offset: 26015},
 																							expr: &actionExpr{
-																								pos: position{line: 2866, col: 10, offset: 90687},
+																								pos: position{line: 2876, col: 10, offset: 90951},
 																								run: (*parser).callonExtraListElement805,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2866, col: 10, offset: 90687},
+																									pos:        position{line: 2876, col: 10, offset: 90951},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29190,28 +29210,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91085},
+																							pos: position{line: 2898, col: 8, offset: 91349},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90858},
+																									pos: position{line: 2885, col: 12, offset: 91122},
 																									run: (*parser).callonExtraListElement808,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90859},
+																										pos: position{line: 2885, col: 13, offset: 91123},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90859},
+																												pos:        position{line: 2885, col: 13, offset: 91123},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90866},
+																												pos:        position{line: 2885, col: 20, offset: 91130},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90875},
+																												pos:        position{line: 2885, col: 29, offset: 91139},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29220,9 +29240,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91035},
+																									pos: position{line: 2895, col: 8, offset: 91299},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91036,
+																										line: 2895, col: 9, offset: 91300,
 																									},
 																								},
 																							},
@@ -29238,15 +29258,15 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1512, col: 5, offset: 49149},
+													pos:   position{line: 1522, col: 5, offset: 49413},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2816, col: 14, offset: 89280},
+														pos: position{line: 2826, col: 14, offset: 89544},
 														run: (*parser).callonExtraListElement816,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2816, col: 14, offset: 89280},
+															pos: position{line: 2826, col: 14, offset: 89544},
 															expr: &charClassMatcher{
-																pos:        position{line: 2816, col: 14, offset: 89280},
+																pos:        position{line: 2826, col: 14, offset: 89544},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -29256,28 +29276,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2888, col: 8, offset: 91085},
+													pos: position{line: 2898, col: 8, offset: 91349},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2875, col: 12, offset: 90858},
+															pos: position{line: 2885, col: 12, offset: 91122},
 															run: (*parser).callonExtraListElement820,
 															expr: &choiceExpr{
-																pos: position{line: 2875, col: 13, offset: 90859},
+																pos: position{line: 2885, col: 13, offset: 91123},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 13, offset: 90859},
+																		pos:        position{line: 2885, col: 13, offset: 91123},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 20, offset: 90866},
+																		pos:        position{line: 2885, col: 20, offset: 91130},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 29, offset: 90875},
+																		pos:        position{line: 2885, col: 29, offset: 91139},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -29286,9 +29306,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2885, col: 8, offset: 91035},
+															pos: position{line: 2895, col: 8, offset: 91299},
 															expr: &anyMatcher{
-																line: 2885, col: 9, offset: 91036,
+																line: 2895, col: 9, offset: 91300,
 															},
 														},
 													},
@@ -29305,28 +29325,28 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuation",
-			pos:  position{line: 1528, col: 1, offset: 49540},
+			pos:  position{line: 1538, col: 1, offset: 49804},
 			expr: &actionExpr{
-				pos: position{line: 1529, col: 5, offset: 49565},
+				pos: position{line: 1539, col: 5, offset: 49829},
 				run: (*parser).callonListContinuation1,
 				expr: &seqExpr{
-					pos: position{line: 1529, col: 5, offset: 49565},
+					pos: position{line: 1539, col: 5, offset: 49829},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1529, col: 5, offset: 49565},
+							pos:   position{line: 1539, col: 5, offset: 49829},
 							label: "offset",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1529, col: 12, offset: 49572},
+								pos: position{line: 1539, col: 12, offset: 49836},
 								expr: &seqExpr{
-									pos: position{line: 1529, col: 13, offset: 49573},
+									pos: position{line: 1539, col: 13, offset: 49837},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 1529, col: 13, offset: 49573},
+											pos: position{line: 1539, col: 13, offset: 49837},
 											expr: &actionExpr{
-												pos: position{line: 2866, col: 10, offset: 90687},
+												pos: position{line: 2876, col: 10, offset: 90951},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2866, col: 10, offset: 90687},
+													pos:        position{line: 2876, col: 10, offset: 90951},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -29335,25 +29355,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2875, col: 12, offset: 90858},
+											pos: position{line: 2885, col: 12, offset: 91122},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2875, col: 13, offset: 90859},
+												pos: position{line: 2885, col: 13, offset: 91123},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2875, col: 13, offset: 90859},
+														pos:        position{line: 2885, col: 13, offset: 91123},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2875, col: 20, offset: 90866},
+														pos:        position{line: 2885, col: 20, offset: 91130},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2875, col: 29, offset: 90875},
+														pos:        position{line: 2885, col: 29, offset: 91139},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -29366,18 +29386,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1536, col: 27, offset: 49777},
+							pos:        position{line: 1546, col: 27, offset: 50041},
 							val:        "+",
 							ignoreCase: false,
 							want:       "\"+\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1536, col: 31, offset: 49781},
+							pos: position{line: 1546, col: 31, offset: 50045},
 							expr: &actionExpr{
-								pos: position{line: 2866, col: 10, offset: 90687},
+								pos: position{line: 2876, col: 10, offset: 90951},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2866, col: 10, offset: 90687},
+									pos:        position{line: 2876, col: 10, offset: 90951},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -29386,25 +29406,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2875, col: 12, offset: 90858},
+							pos: position{line: 2885, col: 12, offset: 91122},
 							run: (*parser).callonListContinuation18,
 							expr: &choiceExpr{
-								pos: position{line: 2875, col: 13, offset: 90859},
+								pos: position{line: 2885, col: 13, offset: 91123},
 								alternatives: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2875, col: 13, offset: 90859},
+										pos:        position{line: 2885, col: 13, offset: 91123},
 										val:        "\n",
 										ignoreCase: false,
 										want:       "\"\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2875, col: 20, offset: 90866},
+										pos:        position{line: 2885, col: 20, offset: 91130},
 										val:        "\r\n",
 										ignoreCase: false,
 										want:       "\"\\r\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2875, col: 29, offset: 90875},
+										pos:        position{line: 2885, col: 29, offset: 91139},
 										val:        "\r",
 										ignoreCase: false,
 										want:       "\"\\r\"",
@@ -29413,12 +29433,12 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1531, col: 5, offset: 49622},
+							pos:   position{line: 1541, col: 5, offset: 49886},
 							label: "element",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1531, col: 13, offset: 49630},
+								pos: position{line: 1541, col: 13, offset: 49894},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1531, col: 13, offset: 49630},
+									pos:  position{line: 1541, col: 13, offset: 49894},
 									name: "ListContinuationElement",
 								},
 							},
@@ -29429,46 +29449,46 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuationElement",
-			pos:  position{line: 1538, col: 1, offset: 49797},
+			pos:  position{line: 1548, col: 1, offset: 50061},
 			expr: &actionExpr{
-				pos: position{line: 1539, col: 5, offset: 49868},
+				pos: position{line: 1549, col: 5, offset: 50132},
 				run: (*parser).callonListContinuationElement1,
 				expr: &seqExpr{
-					pos: position{line: 1539, col: 5, offset: 49868},
+					pos: position{line: 1549, col: 5, offset: 50132},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2883, col: 11, offset: 91021},
+							pos: position{line: 2893, col: 11, offset: 91285},
 							expr: &anyMatcher{
-								line: 2883, col: 13, offset: 91023,
+								line: 2893, col: 13, offset: 91287,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1540, col: 5, offset: 49896},
+							pos: position{line: 1550, col: 5, offset: 50160},
 							expr: &choiceExpr{
-								pos: position{line: 1477, col: 5, offset: 47854},
+								pos: position{line: 1487, col: 5, offset: 48118},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1570, col: 5, offset: 50788},
+										pos: position{line: 1580, col: 5, offset: 51052},
 										run: (*parser).callonListContinuationElement7,
 										expr: &seqExpr{
-											pos: position{line: 1570, col: 5, offset: 50788},
+											pos: position{line: 1580, col: 5, offset: 51052},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1570, col: 5, offset: 50788},
+													pos:   position{line: 1580, col: 5, offset: 51052},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1577, col: 5, offset: 50996},
+														pos: position{line: 1587, col: 5, offset: 51260},
 														run: (*parser).callonListContinuationElement10,
 														expr: &seqExpr{
-															pos: position{line: 1577, col: 5, offset: 50996},
+															pos: position{line: 1587, col: 5, offset: 51260},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1577, col: 5, offset: 50996},
+																	pos: position{line: 1587, col: 5, offset: 51260},
 																	expr: &actionExpr{
-																		pos: position{line: 2866, col: 10, offset: 90687},
+																		pos: position{line: 2876, col: 10, offset: 90951},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2866, col: 10, offset: 90687},
+																			pos:        position{line: 2876, col: 10, offset: 90951},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29477,27 +29497,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1577, col: 12, offset: 51003},
+																	pos:   position{line: 1587, col: 12, offset: 51267},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1579, col: 9, offset: 51066},
+																		pos: position{line: 1589, col: 9, offset: 51330},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1579, col: 9, offset: 51066},
+																				pos: position{line: 1589, col: 9, offset: 51330},
 																				run: (*parser).callonListContinuationElement17,
 																				expr: &seqExpr{
-																					pos: position{line: 1579, col: 9, offset: 51066},
+																					pos: position{line: 1589, col: 9, offset: 51330},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1579, col: 9, offset: 51066},
+																							pos:   position{line: 1589, col: 9, offset: 51330},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1579, col: 16, offset: 51073},
+																								pos: position{line: 1589, col: 16, offset: 51337},
 																								run: (*parser).callonListContinuationElement20,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1579, col: 16, offset: 51073},
+																									pos: position{line: 1589, col: 16, offset: 51337},
 																									expr: &litMatcher{
-																										pos:        position{line: 1579, col: 17, offset: 51074},
+																										pos:        position{line: 1589, col: 17, offset: 51338},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -29506,22 +29526,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1583, col: 9, offset: 51174},
+																							pos: position{line: 1593, col: 9, offset: 51438},
 																							run: (*parser).callonListContinuationElement23,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1602, col: 11, offset: 51891},
+																				pos: position{line: 1612, col: 11, offset: 52155},
 																				run: (*parser).callonListContinuationElement24,
 																				expr: &seqExpr{
-																					pos: position{line: 1602, col: 11, offset: 51891},
+																					pos: position{line: 1612, col: 11, offset: 52155},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1602, col: 11, offset: 51891},
+																							pos: position{line: 1612, col: 11, offset: 52155},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1602, col: 12, offset: 51892},
+																								pos:        position{line: 1612, col: 12, offset: 52156},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -29529,7 +29549,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1602, col: 20, offset: 51900},
+																							pos:        position{line: 1612, col: 20, offset: 52164},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29538,20 +29558,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1604, col: 13, offset: 52017},
+																				pos: position{line: 1614, col: 13, offset: 52281},
 																				run: (*parser).callonListContinuationElement29,
 																				expr: &seqExpr{
-																					pos: position{line: 1604, col: 13, offset: 52017},
+																					pos: position{line: 1614, col: 13, offset: 52281},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1604, col: 14, offset: 52018},
+																							pos:        position{line: 1614, col: 14, offset: 52282},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1604, col: 21, offset: 52025},
+																							pos:        position{line: 1614, col: 21, offset: 52289},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29560,20 +29580,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1606, col: 13, offset: 52145},
+																				pos: position{line: 1616, col: 13, offset: 52409},
 																				run: (*parser).callonListContinuationElement33,
 																				expr: &seqExpr{
-																					pos: position{line: 1606, col: 13, offset: 52145},
+																					pos: position{line: 1616, col: 13, offset: 52409},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1606, col: 14, offset: 52146},
+																							pos:        position{line: 1616, col: 14, offset: 52410},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1606, col: 21, offset: 52153},
+																							pos:        position{line: 1616, col: 21, offset: 52417},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29582,15 +29602,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1608, col: 13, offset: 52273},
+																				pos: position{line: 1618, col: 13, offset: 52537},
 																				run: (*parser).callonListContinuationElement37,
 																				expr: &seqExpr{
-																					pos: position{line: 1608, col: 13, offset: 52273},
+																					pos: position{line: 1618, col: 13, offset: 52537},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1608, col: 13, offset: 52273},
+																							pos: position{line: 1618, col: 13, offset: 52537},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1608, col: 14, offset: 52274},
+																								pos:        position{line: 1618, col: 14, offset: 52538},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -29598,7 +29618,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1608, col: 26, offset: 52286},
+																							pos:        position{line: 1618, col: 26, offset: 52550},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -29607,15 +29627,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1610, col: 13, offset: 52406},
+																				pos: position{line: 1620, col: 13, offset: 52670},
 																				run: (*parser).callonListContinuationElement42,
 																				expr: &seqExpr{
-																					pos: position{line: 1610, col: 13, offset: 52406},
+																					pos: position{line: 1620, col: 13, offset: 52670},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1610, col: 13, offset: 52406},
+																							pos: position{line: 1620, col: 13, offset: 52670},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1610, col: 14, offset: 52407},
+																								pos:        position{line: 1620, col: 14, offset: 52671},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -29623,7 +29643,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1610, col: 26, offset: 52419},
+																							pos:        position{line: 1620, col: 26, offset: 52683},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -29635,12 +29655,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2870, col: 11, offset: 90748},
+																	pos: position{line: 2880, col: 11, offset: 91012},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2870, col: 11, offset: 90748},
+																		pos: position{line: 2880, col: 11, offset: 91012},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2870, col: 11, offset: 90748},
+																			pos:        position{line: 2880, col: 11, offset: 91012},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29653,26 +29673,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1571, col: 5, offset: 50827},
+													pos:   position{line: 1581, col: 5, offset: 51091},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1518, col: 5, offset: 49294},
+														pos: position{line: 1528, col: 5, offset: 49558},
 														run: (*parser).callonListContinuationElement51,
 														expr: &seqExpr{
-															pos: position{line: 1518, col: 5, offset: 49294},
+															pos: position{line: 1528, col: 5, offset: 49558},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1518, col: 5, offset: 49294},
+																	pos:   position{line: 1528, col: 5, offset: 49558},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1518, col: 14, offset: 49303},
+																		pos: position{line: 1528, col: 14, offset: 49567},
 																		expr: &actionExpr{
-																			pos: position{line: 1518, col: 15, offset: 49304},
+																			pos: position{line: 1528, col: 15, offset: 49568},
 																			run: (*parser).callonListContinuationElement55,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1518, col: 15, offset: 49304},
+																				pos: position{line: 1528, col: 15, offset: 49568},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1518, col: 15, offset: 49304},
+																					pos:        position{line: 1528, col: 15, offset: 49568},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -29683,28 +29703,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2888, col: 8, offset: 91085},
+																	pos: position{line: 2898, col: 8, offset: 91349},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2875, col: 12, offset: 90858},
+																			pos: position{line: 2885, col: 12, offset: 91122},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2875, col: 13, offset: 90859},
+																				pos: position{line: 2885, col: 13, offset: 91123},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 13, offset: 90859},
+																						pos:        position{line: 2885, col: 13, offset: 91123},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 20, offset: 90866},
+																						pos:        position{line: 2885, col: 20, offset: 91130},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 29, offset: 90875},
+																						pos:        position{line: 2885, col: 29, offset: 91139},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29713,9 +29733,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2885, col: 8, offset: 91035},
+																			pos: position{line: 2895, col: 8, offset: 91299},
 																			expr: &anyMatcher{
-																				line: 2885, col: 9, offset: 91036,
+																				line: 2895, col: 9, offset: 91300,
 																			},
 																		},
 																	},
@@ -29728,27 +29748,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1620, col: 5, offset: 52685},
+										pos: position{line: 1630, col: 5, offset: 52949},
 										run: (*parser).callonListContinuationElement66,
 										expr: &seqExpr{
-											pos: position{line: 1620, col: 5, offset: 52685},
+											pos: position{line: 1630, col: 5, offset: 52949},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1620, col: 5, offset: 52685},
+													pos:   position{line: 1630, col: 5, offset: 52949},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1627, col: 5, offset: 52958},
+														pos: position{line: 1637, col: 5, offset: 53222},
 														run: (*parser).callonListContinuationElement69,
 														expr: &seqExpr{
-															pos: position{line: 1627, col: 5, offset: 52958},
+															pos: position{line: 1637, col: 5, offset: 53222},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1627, col: 5, offset: 52958},
+																	pos: position{line: 1637, col: 5, offset: 53222},
 																	expr: &actionExpr{
-																		pos: position{line: 2866, col: 10, offset: 90687},
+																		pos: position{line: 2876, col: 10, offset: 90951},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2866, col: 10, offset: 90687},
+																			pos:        position{line: 2876, col: 10, offset: 90951},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29757,24 +29777,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1628, col: 5, offset: 52970},
+																	pos:   position{line: 1638, col: 5, offset: 53234},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1629, col: 9, offset: 52986},
+																		pos: position{line: 1639, col: 9, offset: 53250},
 																		run: (*parser).callonListContinuationElement75,
 																		expr: &choiceExpr{
-																			pos: position{line: 1629, col: 10, offset: 52987},
+																			pos: position{line: 1639, col: 10, offset: 53251},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1629, col: 11, offset: 52988},
+																					pos:        position{line: 1639, col: 11, offset: 53252},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1629, col: 18, offset: 52995},
+																					pos: position{line: 1639, col: 18, offset: 53259},
 																					expr: &litMatcher{
-																						pos:        position{line: 1629, col: 19, offset: 52996},
+																						pos:        position{line: 1639, col: 19, offset: 53260},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -29785,16 +29805,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1632, col: 7, offset: 53086},
+																	pos: position{line: 1642, col: 7, offset: 53350},
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2870, col: 11, offset: 90748},
+																	pos: position{line: 2880, col: 11, offset: 91012},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2870, col: 11, offset: 90748},
+																		pos: position{line: 2880, col: 11, offset: 91012},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2870, col: 11, offset: 90748},
+																			pos:        position{line: 2880, col: 11, offset: 91012},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29807,56 +29827,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1621, col: 5, offset: 52726},
+													pos:   position{line: 1631, col: 5, offset: 52990},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1621, col: 16, offset: 52737},
+														pos: position{line: 1631, col: 16, offset: 53001},
 														expr: &actionExpr{
-															pos: position{line: 1642, col: 5, offset: 53351},
+															pos: position{line: 1652, col: 5, offset: 53615},
 															run: (*parser).callonListContinuationElement86,
 															expr: &seqExpr{
-																pos: position{line: 1642, col: 5, offset: 53351},
+																pos: position{line: 1652, col: 5, offset: 53615},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1642, col: 5, offset: 53351},
+																		pos: position{line: 1652, col: 5, offset: 53615},
 																		expr: &litMatcher{
-																			pos:        position{line: 1642, col: 6, offset: 53352},
+																			pos:        position{line: 1652, col: 6, offset: 53616},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1642, col: 10, offset: 53356},
+																		pos:   position{line: 1652, col: 10, offset: 53620},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1643, col: 7, offset: 53370},
+																			pos: position{line: 1653, col: 7, offset: 53634},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1643, col: 7, offset: 53370},
+																					pos: position{line: 1653, col: 7, offset: 53634},
 																					run: (*parser).callonListContinuationElement92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1643, col: 7, offset: 53370},
+																						pos:        position{line: 1653, col: 7, offset: 53634},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1644, col: 7, offset: 53415},
+																					pos: position{line: 1654, col: 7, offset: 53679},
 																					run: (*parser).callonListContinuationElement94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1644, col: 7, offset: 53415},
+																						pos:        position{line: 1654, col: 7, offset: 53679},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1645, col: 7, offset: 53458},
+																					pos: position{line: 1655, col: 7, offset: 53722},
 																					run: (*parser).callonListContinuationElement96,
 																					expr: &litMatcher{
-																						pos:        position{line: 1645, col: 7, offset: 53458},
+																						pos:        position{line: 1655, col: 7, offset: 53722},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -29866,12 +29886,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2870, col: 11, offset: 90748},
+																		pos: position{line: 2880, col: 11, offset: 91012},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2870, col: 11, offset: 90748},
+																			pos: position{line: 2880, col: 11, offset: 91012},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2870, col: 11, offset: 90748},
+																				pos:        position{line: 2880, col: 11, offset: 91012},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -29885,26 +29905,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1622, col: 5, offset: 52776},
+													pos:   position{line: 1632, col: 5, offset: 53040},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1518, col: 5, offset: 49294},
+														pos: position{line: 1528, col: 5, offset: 49558},
 														run: (*parser).callonListContinuationElement102,
 														expr: &seqExpr{
-															pos: position{line: 1518, col: 5, offset: 49294},
+															pos: position{line: 1528, col: 5, offset: 49558},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1518, col: 5, offset: 49294},
+																	pos:   position{line: 1528, col: 5, offset: 49558},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1518, col: 14, offset: 49303},
+																		pos: position{line: 1528, col: 14, offset: 49567},
 																		expr: &actionExpr{
-																			pos: position{line: 1518, col: 15, offset: 49304},
+																			pos: position{line: 1528, col: 15, offset: 49568},
 																			run: (*parser).callonListContinuationElement106,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1518, col: 15, offset: 49304},
+																				pos: position{line: 1528, col: 15, offset: 49568},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1518, col: 15, offset: 49304},
+																					pos:        position{line: 1528, col: 15, offset: 49568},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -29915,28 +29935,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2888, col: 8, offset: 91085},
+																	pos: position{line: 2898, col: 8, offset: 91349},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2875, col: 12, offset: 90858},
+																			pos: position{line: 2885, col: 12, offset: 91122},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2875, col: 13, offset: 90859},
+																				pos: position{line: 2885, col: 13, offset: 91123},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 13, offset: 90859},
+																						pos:        position{line: 2885, col: 13, offset: 91123},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 20, offset: 90866},
+																						pos:        position{line: 2885, col: 20, offset: 91130},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 29, offset: 90875},
+																						pos:        position{line: 2885, col: 29, offset: 91139},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29945,9 +29965,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2885, col: 8, offset: 91035},
+																			pos: position{line: 2895, col: 8, offset: 91299},
 																			expr: &anyMatcher{
-																				line: 2885, col: 9, offset: 91036,
+																				line: 2895, col: 9, offset: 91300,
 																			},
 																		},
 																	},
@@ -29960,36 +29980,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1711, col: 5, offset: 55330},
+										pos: position{line: 1721, col: 5, offset: 55594},
 										run: (*parser).callonListContinuationElement117,
 										expr: &seqExpr{
-											pos: position{line: 1711, col: 5, offset: 55330},
+											pos: position{line: 1721, col: 5, offset: 55594},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1711, col: 5, offset: 55330},
+													pos:   position{line: 1721, col: 5, offset: 55594},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1717, col: 5, offset: 55527},
+														pos: position{line: 1727, col: 5, offset: 55791},
 														run: (*parser).callonListContinuationElement120,
 														expr: &seqExpr{
-															pos: position{line: 1717, col: 5, offset: 55527},
+															pos: position{line: 1727, col: 5, offset: 55791},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1717, col: 5, offset: 55527},
+																	pos:        position{line: 1727, col: 5, offset: 55791},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1717, col: 9, offset: 55531},
+																	pos:   position{line: 1727, col: 9, offset: 55795},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1717, col: 14, offset: 55536},
+																		pos: position{line: 1727, col: 14, offset: 55800},
 																		run: (*parser).callonListContinuationElement124,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1717, col: 14, offset: 55536},
+																			pos: position{line: 1727, col: 14, offset: 55800},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1717, col: 14, offset: 55536},
+																				pos:        position{line: 1727, col: 14, offset: 55800},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -29999,18 +30019,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1717, col: 62, offset: 55584},
+																	pos:        position{line: 1727, col: 62, offset: 55848},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2870, col: 11, offset: 90748},
+																	pos: position{line: 2880, col: 11, offset: 91012},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2870, col: 11, offset: 90748},
+																		pos: position{line: 2880, col: 11, offset: 91012},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2870, col: 11, offset: 90748},
+																			pos:        position{line: 2880, col: 11, offset: 91012},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30023,26 +30043,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1712, col: 5, offset: 55366},
+													pos:   position{line: 1722, col: 5, offset: 55630},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1518, col: 5, offset: 49294},
+														pos: position{line: 1528, col: 5, offset: 49558},
 														run: (*parser).callonListContinuationElement132,
 														expr: &seqExpr{
-															pos: position{line: 1518, col: 5, offset: 49294},
+															pos: position{line: 1528, col: 5, offset: 49558},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1518, col: 5, offset: 49294},
+																	pos:   position{line: 1528, col: 5, offset: 49558},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1518, col: 14, offset: 49303},
+																		pos: position{line: 1528, col: 14, offset: 49567},
 																		expr: &actionExpr{
-																			pos: position{line: 1518, col: 15, offset: 49304},
+																			pos: position{line: 1528, col: 15, offset: 49568},
 																			run: (*parser).callonListContinuationElement136,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1518, col: 15, offset: 49304},
+																				pos: position{line: 1528, col: 15, offset: 49568},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1518, col: 15, offset: 49304},
+																					pos:        position{line: 1528, col: 15, offset: 49568},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30053,28 +30073,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2888, col: 8, offset: 91085},
+																	pos: position{line: 2898, col: 8, offset: 91349},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2875, col: 12, offset: 90858},
+																			pos: position{line: 2885, col: 12, offset: 91122},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2875, col: 13, offset: 90859},
+																				pos: position{line: 2885, col: 13, offset: 91123},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 13, offset: 90859},
+																						pos:        position{line: 2885, col: 13, offset: 91123},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 20, offset: 90866},
+																						pos:        position{line: 2885, col: 20, offset: 91130},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 29, offset: 90875},
+																						pos:        position{line: 2885, col: 29, offset: 91139},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30083,9 +30103,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2885, col: 8, offset: 91035},
+																			pos: position{line: 2895, col: 8, offset: 91299},
 																			expr: &anyMatcher{
-																				line: 2885, col: 9, offset: 91036,
+																				line: 2895, col: 9, offset: 91300,
 																			},
 																		},
 																	},
@@ -30098,35 +30118,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1654, col: 5, offset: 53651},
+										pos: position{line: 1664, col: 5, offset: 53915},
 										run: (*parser).callonListContinuationElement147,
 										expr: &seqExpr{
-											pos: position{line: 1654, col: 5, offset: 53651},
+											pos: position{line: 1664, col: 5, offset: 53915},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1654, col: 5, offset: 53651},
+													pos:   position{line: 1664, col: 5, offset: 53915},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1662, col: 5, offset: 53977},
+														pos: position{line: 1672, col: 5, offset: 54241},
 														run: (*parser).callonListContinuationElement150,
 														expr: &seqExpr{
-															pos: position{line: 1662, col: 5, offset: 53977},
+															pos: position{line: 1672, col: 5, offset: 54241},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1662, col: 5, offset: 53977},
+																	pos: position{line: 1672, col: 5, offset: 54241},
 																	expr: &seqExpr{
-																		pos: position{line: 2478, col: 31, offset: 79815},
+																		pos: position{line: 2488, col: 31, offset: 80079},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2478, col: 31, offset: 79815},
+																				pos:        position{line: 2488, col: 31, offset: 80079},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2478, col: 36, offset: 79820},
+																				pos: position{line: 2488, col: 36, offset: 80084},
 																				expr: &litMatcher{
-																					pos:        position{line: 2478, col: 37, offset: 79821},
+																					pos:        position{line: 2488, col: 37, offset: 80085},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
@@ -30136,28 +30156,28 @@ var g = &grammar{
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 1663, col: 5, offset: 54009},
+																	pos: position{line: 1673, col: 5, offset: 54273},
 																	expr: &seqExpr{
-																		pos: position{line: 1663, col: 6, offset: 54010},
+																		pos: position{line: 1673, col: 6, offset: 54274},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1663, col: 6, offset: 54010},
+																				pos: position{line: 1673, col: 6, offset: 54274},
 																				expr: &actionExpr{
-																					pos: position{line: 1668, col: 5, offset: 54160},
+																					pos: position{line: 1678, col: 5, offset: 54424},
 																					run: (*parser).callonListContinuationElement160,
 																					expr: &seqExpr{
-																						pos: position{line: 1668, col: 5, offset: 54160},
+																						pos: position{line: 1678, col: 5, offset: 54424},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1668, col: 5, offset: 54160},
+																								pos:   position{line: 1678, col: 5, offset: 54424},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1668, col: 16, offset: 54171},
+																									pos: position{line: 1678, col: 16, offset: 54435},
 																									run: (*parser).callonListContinuationElement163,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1668, col: 16, offset: 54171},
+																										pos: position{line: 1678, col: 16, offset: 54435},
 																										expr: &litMatcher{
-																											pos:        position{line: 1668, col: 17, offset: 54172},
+																											pos:        position{line: 1678, col: 17, offset: 54436},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -30166,7 +30186,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1671, col: 5, offset: 54229},
+																								pos: position{line: 1681, col: 5, offset: 54493},
 																								run: (*parser).callonListContinuationElement166,
 																							},
 																						},
@@ -30174,30 +30194,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1663, col: 35, offset: 54039},
+																				pos: position{line: 1673, col: 35, offset: 54303},
 																				expr: &choiceExpr{
-																					pos: position{line: 2888, col: 8, offset: 91085},
+																					pos: position{line: 2898, col: 8, offset: 91349},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2875, col: 12, offset: 90858},
+																							pos: position{line: 2885, col: 12, offset: 91122},
 																							run: (*parser).callonListContinuationElement169,
 																							expr: &choiceExpr{
-																								pos: position{line: 2875, col: 13, offset: 90859},
+																								pos: position{line: 2885, col: 13, offset: 91123},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 13, offset: 90859},
+																										pos:        position{line: 2885, col: 13, offset: 91123},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 20, offset: 90866},
+																										pos:        position{line: 2885, col: 20, offset: 91130},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 29, offset: 90875},
+																										pos:        position{line: 2885, col: 29, offset: 91139},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -30206,16 +30226,16 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2885, col: 8, offset: 91035},
+																							pos: position{line: 2895, col: 8, offset: 91299},
 																							expr: &anyMatcher{
-																								line: 2885, col: 9, offset: 91036,
+																								line: 2895, col: 9, offset: 91300,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1663, col: 40, offset: 54044,
+																				line: 1673, col: 40, offset: 54308,
 																			},
 																		},
 																	},
@@ -30225,24 +30245,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1655, col: 5, offset: 53686},
+													pos:   position{line: 1665, col: 5, offset: 53950},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1668, col: 5, offset: 54160},
+														pos: position{line: 1678, col: 5, offset: 54424},
 														run: (*parser).callonListContinuationElement178,
 														expr: &seqExpr{
-															pos: position{line: 1668, col: 5, offset: 54160},
+															pos: position{line: 1678, col: 5, offset: 54424},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1668, col: 5, offset: 54160},
+																	pos:   position{line: 1678, col: 5, offset: 54424},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1668, col: 16, offset: 54171},
+																		pos: position{line: 1678, col: 16, offset: 54435},
 																		run: (*parser).callonListContinuationElement181,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1668, col: 16, offset: 54171},
+																			pos: position{line: 1678, col: 16, offset: 54435},
 																			expr: &litMatcher{
-																				pos:        position{line: 1668, col: 17, offset: 54172},
+																				pos:        position{line: 1678, col: 17, offset: 54436},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -30251,7 +30271,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1671, col: 5, offset: 54229},
+																	pos: position{line: 1681, col: 5, offset: 54493},
 																	run: (*parser).callonListContinuationElement184,
 																},
 															},
@@ -30259,24 +30279,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1656, col: 5, offset: 53731},
+													pos:   position{line: 1666, col: 5, offset: 53995},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1679, col: 5, offset: 54478},
+														pos: position{line: 1689, col: 5, offset: 54742},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1681, col: 9, offset: 54544},
+																pos: position{line: 1691, col: 9, offset: 54808},
 																run: (*parser).callonListContinuationElement187,
 																expr: &seqExpr{
-																	pos: position{line: 1681, col: 9, offset: 54544},
+																	pos: position{line: 1691, col: 9, offset: 54808},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1681, col: 9, offset: 54544},
+																			pos: position{line: 1691, col: 9, offset: 54808},
 																			expr: &actionExpr{
-																				pos: position{line: 2866, col: 10, offset: 90687},
+																				pos: position{line: 2876, col: 10, offset: 90951},
 																				run: (*parser).callonListContinuationElement190,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2866, col: 10, offset: 90687},
+																					pos:        position{line: 2876, col: 10, offset: 90951},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30285,28 +30305,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2888, col: 8, offset: 91085},
+																			pos: position{line: 2898, col: 8, offset: 91349},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2875, col: 12, offset: 90858},
+																					pos: position{line: 2885, col: 12, offset: 91122},
 																					run: (*parser).callonListContinuationElement193,
 																					expr: &choiceExpr{
-																						pos: position{line: 2875, col: 13, offset: 90859},
+																						pos: position{line: 2885, col: 13, offset: 91123},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 13, offset: 90859},
+																								pos:        position{line: 2885, col: 13, offset: 91123},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 20, offset: 90866},
+																								pos:        position{line: 2885, col: 20, offset: 91130},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 29, offset: 90875},
+																								pos:        position{line: 2885, col: 29, offset: 91139},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30315,15 +30335,15 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2885, col: 8, offset: 91035},
+																					pos: position{line: 2895, col: 8, offset: 91299},
 																					expr: &anyMatcher{
-																						line: 2885, col: 9, offset: 91036,
+																						line: 2895, col: 9, offset: 91300,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1682, col: 9, offset: 54563},
+																			pos: position{line: 1692, col: 9, offset: 54827},
 																			expr: &actionExpr{
 																				pos: position{line: 677, col: 14, offset: 21557},
 																				run: (*parser).callonListContinuationElement201,
@@ -30331,18 +30351,18 @@ var g = &grammar{
 																					pos: position{line: 677, col: 14, offset: 21557},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2883, col: 11, offset: 91021},
+																							pos: position{line: 2893, col: 11, offset: 91285},
 																							expr: &anyMatcher{
-																								line: 2883, col: 13, offset: 91023,
+																								line: 2893, col: 13, offset: 91287,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 677, col: 21, offset: 21564},
 																							expr: &actionExpr{
-																								pos: position{line: 2866, col: 10, offset: 90687},
+																								pos: position{line: 2876, col: 10, offset: 90951},
 																								run: (*parser).callonListContinuationElement206,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2866, col: 10, offset: 90687},
+																									pos:        position{line: 2876, col: 10, offset: 90951},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30351,28 +30371,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91085},
+																							pos: position{line: 2898, col: 8, offset: 91349},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90858},
+																									pos: position{line: 2885, col: 12, offset: 91122},
 																									run: (*parser).callonListContinuationElement209,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90859},
+																										pos: position{line: 2885, col: 13, offset: 91123},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90859},
+																												pos:        position{line: 2885, col: 13, offset: 91123},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90866},
+																												pos:        position{line: 2885, col: 20, offset: 91130},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90875},
+																												pos:        position{line: 2885, col: 29, offset: 91139},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30381,9 +30401,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91035},
+																									pos: position{line: 2895, col: 8, offset: 91299},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91036,
+																										line: 2895, col: 9, offset: 91300,
 																									},
 																								},
 																							},
@@ -30396,18 +30416,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1688, col: 9, offset: 54692},
+																pos: position{line: 1698, col: 9, offset: 54956},
 																run: (*parser).callonListContinuationElement216,
 																expr: &seqExpr{
-																	pos: position{line: 1688, col: 9, offset: 54692},
+																	pos: position{line: 1698, col: 9, offset: 54956},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2870, col: 11, offset: 90748},
+																			pos: position{line: 2880, col: 11, offset: 91012},
 																			run: (*parser).callonListContinuationElement218,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2870, col: 11, offset: 90748},
+																				pos: position{line: 2880, col: 11, offset: 91012},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2870, col: 11, offset: 90748},
+																					pos:        position{line: 2880, col: 11, offset: 91012},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30416,15 +30436,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1689, col: 9, offset: 54765},
+																			pos:   position{line: 1699, col: 9, offset: 55029},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1689, col: 18, offset: 54774},
+																				pos: position{line: 1699, col: 18, offset: 55038},
 																				run: (*parser).callonListContinuationElement222,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1689, col: 18, offset: 54774},
+																					pos: position{line: 1699, col: 18, offset: 55038},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1689, col: 18, offset: 54774},
+																						pos:        position{line: 1699, col: 18, offset: 55038},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -30434,28 +30454,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2888, col: 8, offset: 91085},
+																			pos: position{line: 2898, col: 8, offset: 91349},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2875, col: 12, offset: 90858},
+																					pos: position{line: 2885, col: 12, offset: 91122},
 																					run: (*parser).callonListContinuationElement226,
 																					expr: &choiceExpr{
-																						pos: position{line: 2875, col: 13, offset: 90859},
+																						pos: position{line: 2885, col: 13, offset: 91123},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 13, offset: 90859},
+																								pos:        position{line: 2885, col: 13, offset: 91123},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 20, offset: 90866},
+																								pos:        position{line: 2885, col: 20, offset: 91130},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 29, offset: 90875},
+																								pos:        position{line: 2885, col: 29, offset: 91139},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30464,9 +30484,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2885, col: 8, offset: 91035},
+																					pos: position{line: 2895, col: 8, offset: 91299},
 																					expr: &anyMatcher{
-																						line: 2885, col: 9, offset: 91036,
+																						line: 2895, col: 9, offset: 91300,
 																					},
 																				},
 																			},
@@ -30484,21 +30504,21 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1541, col: 5, offset: 49913},
+							pos:   position{line: 1551, col: 5, offset: 50177},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1541, col: 16, offset: 49924},
+								pos: position{line: 1551, col: 16, offset: 50188},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1541, col: 17, offset: 49925},
+									pos:  position{line: 1551, col: 17, offset: 50189},
 									name: "BlockAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1542, col: 5, offset: 49947},
+							pos:   position{line: 1552, col: 5, offset: 50211},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1543, col: 9, offset: 49965},
+								pos: position{line: 1553, col: 9, offset: 50229},
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 677, col: 14, offset: 21557},
@@ -30507,18 +30527,18 @@ var g = &grammar{
 											pos: position{line: 677, col: 14, offset: 21557},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2883, col: 11, offset: 91021},
+													pos: position{line: 2893, col: 11, offset: 91285},
 													expr: &anyMatcher{
-														line: 2883, col: 13, offset: 91023,
+														line: 2893, col: 13, offset: 91287,
 													},
 												},
 												&zeroOrMoreExpr{
 													pos: position{line: 677, col: 21, offset: 21564},
 													expr: &actionExpr{
-														pos: position{line: 2866, col: 10, offset: 90687},
+														pos: position{line: 2876, col: 10, offset: 90951},
 														run: (*parser).callonListContinuationElement243,
 														expr: &charClassMatcher{
-															pos:        position{line: 2866, col: 10, offset: 90687},
+															pos:        position{line: 2876, col: 10, offset: 90951},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30527,28 +30547,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2888, col: 8, offset: 91085},
+													pos: position{line: 2898, col: 8, offset: 91349},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2875, col: 12, offset: 90858},
+															pos: position{line: 2885, col: 12, offset: 91122},
 															run: (*parser).callonListContinuationElement246,
 															expr: &choiceExpr{
-																pos: position{line: 2875, col: 13, offset: 90859},
+																pos: position{line: 2885, col: 13, offset: 91123},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 13, offset: 90859},
+																		pos:        position{line: 2885, col: 13, offset: 91123},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 20, offset: 90866},
+																		pos:        position{line: 2885, col: 20, offset: 91130},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 29, offset: 90875},
+																		pos:        position{line: 2885, col: 29, offset: 91139},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30557,9 +30577,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2885, col: 8, offset: 91035},
+															pos: position{line: 2895, col: 8, offset: 91299},
 															expr: &anyMatcher{
-																line: 2885, col: 9, offset: 91036,
+																line: 2895, col: 9, offset: 91300,
 															},
 														},
 													},
@@ -30568,7 +30588,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1544, col: 11, offset: 49985},
+										pos:  position{line: 1554, col: 11, offset: 50249},
 										name: "AttributeDeclaration",
 									},
 									&actionExpr{
@@ -30624,10 +30644,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 360, col: 49, offset: 10940},
 													expr: &actionExpr{
-														pos: position{line: 2866, col: 10, offset: 90687},
+														pos: position{line: 2876, col: 10, offset: 90951},
 														run: (*parser).callonListContinuationElement265,
 														expr: &charClassMatcher{
-															pos:        position{line: 2866, col: 10, offset: 90687},
+															pos:        position{line: 2876, col: 10, offset: 90951},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30636,28 +30656,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2888, col: 8, offset: 91085},
+													pos: position{line: 2898, col: 8, offset: 91349},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2875, col: 12, offset: 90858},
+															pos: position{line: 2885, col: 12, offset: 91122},
 															run: (*parser).callonListContinuationElement268,
 															expr: &choiceExpr{
-																pos: position{line: 2875, col: 13, offset: 90859},
+																pos: position{line: 2885, col: 13, offset: 91123},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 13, offset: 90859},
+																		pos:        position{line: 2885, col: 13, offset: 91123},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 20, offset: 90866},
+																		pos:        position{line: 2885, col: 20, offset: 91130},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 29, offset: 90875},
+																		pos:        position{line: 2885, col: 29, offset: 91139},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30666,9 +30686,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2885, col: 8, offset: 91035},
+															pos: position{line: 2895, col: 8, offset: 91299},
 															expr: &anyMatcher{
-																line: 2885, col: 9, offset: 91036,
+																line: 2895, col: 9, offset: 91300,
 															},
 														},
 													},
@@ -30729,10 +30749,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 39, offset: 11061},
 													expr: &actionExpr{
-														pos: position{line: 2866, col: 10, offset: 90687},
+														pos: position{line: 2876, col: 10, offset: 90951},
 														run: (*parser).callonListContinuationElement286,
 														expr: &charClassMatcher{
-															pos:        position{line: 2866, col: 10, offset: 90687},
+															pos:        position{line: 2876, col: 10, offset: 90951},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30741,28 +30761,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2888, col: 8, offset: 91085},
+													pos: position{line: 2898, col: 8, offset: 91349},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2875, col: 12, offset: 90858},
+															pos: position{line: 2885, col: 12, offset: 91122},
 															run: (*parser).callonListContinuationElement289,
 															expr: &choiceExpr{
-																pos: position{line: 2875, col: 13, offset: 90859},
+																pos: position{line: 2885, col: 13, offset: 91123},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 13, offset: 90859},
+																		pos:        position{line: 2885, col: 13, offset: 91123},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 20, offset: 90866},
+																		pos:        position{line: 2885, col: 20, offset: 91130},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 29, offset: 90875},
+																		pos:        position{line: 2885, col: 29, offset: 91139},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30771,9 +30791,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2885, col: 8, offset: 91035},
+															pos: position{line: 2895, col: 8, offset: 91299},
 															expr: &anyMatcher{
-																line: 2885, col: 9, offset: 91036,
+																line: 2895, col: 9, offset: 91300,
 															},
 														},
 													},
@@ -30824,10 +30844,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 742, col: 8, offset: 23754},
 																expr: &actionExpr{
-																	pos: position{line: 2866, col: 10, offset: 90687},
+																	pos: position{line: 2876, col: 10, offset: 90951},
 																	run: (*parser).callonListContinuationElement307,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2866, col: 10, offset: 90687},
+																		pos:        position{line: 2876, col: 10, offset: 90951},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -30836,28 +30856,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2888, col: 8, offset: 91085},
+																pos: position{line: 2898, col: 8, offset: 91349},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2875, col: 12, offset: 90858},
+																		pos: position{line: 2885, col: 12, offset: 91122},
 																		run: (*parser).callonListContinuationElement310,
 																		expr: &choiceExpr{
-																			pos: position{line: 2875, col: 13, offset: 90859},
+																			pos: position{line: 2885, col: 13, offset: 91123},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 13, offset: 90859},
+																					pos:        position{line: 2885, col: 13, offset: 91123},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 20, offset: 90866},
+																					pos:        position{line: 2885, col: 20, offset: 91130},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 29, offset: 90875},
+																					pos:        position{line: 2885, col: 29, offset: 91139},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -30866,9 +30886,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2885, col: 8, offset: 91035},
+																		pos: position{line: 2895, col: 8, offset: 91299},
 																		expr: &anyMatcher{
-																			line: 2885, col: 9, offset: 91036,
+																			line: 2895, col: 9, offset: 91300,
 																		},
 																	},
 																},
@@ -30929,10 +30949,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 742, col: 8, offset: 23754},
 																								expr: &actionExpr{
-																									pos: position{line: 2866, col: 10, offset: 90687},
+																									pos: position{line: 2876, col: 10, offset: 90951},
 																									run: (*parser).callonListContinuationElement332,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2866, col: 10, offset: 90687},
+																										pos:        position{line: 2876, col: 10, offset: 90951},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -30941,28 +30961,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2888, col: 8, offset: 91085},
+																								pos: position{line: 2898, col: 8, offset: 91349},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2875, col: 12, offset: 90858},
+																										pos: position{line: 2885, col: 12, offset: 91122},
 																										run: (*parser).callonListContinuationElement335,
 																										expr: &choiceExpr{
-																											pos: position{line: 2875, col: 13, offset: 90859},
+																											pos: position{line: 2885, col: 13, offset: 91123},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 13, offset: 90859},
+																													pos:        position{line: 2885, col: 13, offset: 91123},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 20, offset: 90866},
+																													pos:        position{line: 2885, col: 20, offset: 91130},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 29, offset: 90875},
+																													pos:        position{line: 2885, col: 29, offset: 91139},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -30971,9 +30991,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2885, col: 8, offset: 91035},
+																										pos: position{line: 2895, col: 8, offset: 91299},
 																										expr: &anyMatcher{
-																											line: 2885, col: 9, offset: 91036,
+																											line: 2895, col: 9, offset: 91300,
 																										},
 																									},
 																								},
@@ -30982,9 +31002,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2885, col: 8, offset: 91035},
+																					pos: position{line: 2895, col: 8, offset: 91299},
 																					expr: &anyMatcher{
-																						line: 2885, col: 9, offset: 91036,
+																						line: 2895, col: 9, offset: 91300,
 																					},
 																				},
 																			},
@@ -31000,21 +31020,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26161},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2883, col: 11, offset: 91021},
+																						pos: position{line: 2893, col: 11, offset: 91285},
 																						expr: &anyMatcher{
-																							line: 2883, col: 13, offset: 91023,
+																							line: 2893, col: 13, offset: 91287,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26236},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2812, col: 13, offset: 89213},
+																							pos: position{line: 2822, col: 13, offset: 89477},
 																							run: (*parser).callonListContinuationElement350,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2812, col: 13, offset: 89213},
+																								pos: position{line: 2822, col: 13, offset: 89477},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2812, col: 13, offset: 89213},
+																									pos:        position{line: 2822, col: 13, offset: 89477},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31024,28 +31044,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2888, col: 8, offset: 91085},
+																						pos: position{line: 2898, col: 8, offset: 91349},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2875, col: 12, offset: 90858},
+																								pos: position{line: 2885, col: 12, offset: 91122},
 																								run: (*parser).callonListContinuationElement354,
 																								expr: &choiceExpr{
-																									pos: position{line: 2875, col: 13, offset: 90859},
+																									pos: position{line: 2885, col: 13, offset: 91123},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 13, offset: 90859},
+																											pos:        position{line: 2885, col: 13, offset: 91123},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 20, offset: 90866},
+																											pos:        position{line: 2885, col: 20, offset: 91130},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 29, offset: 90875},
+																											pos:        position{line: 2885, col: 29, offset: 91139},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31054,9 +31074,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2885, col: 8, offset: 91035},
+																								pos: position{line: 2895, col: 8, offset: 91299},
 																								expr: &anyMatcher{
-																									line: 2885, col: 9, offset: 91036,
+																									line: 2895, col: 9, offset: 91300,
 																								},
 																							},
 																						},
@@ -31112,10 +31132,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 742, col: 8, offset: 23754},
 																			expr: &actionExpr{
-																				pos: position{line: 2866, col: 10, offset: 90687},
+																				pos: position{line: 2876, col: 10, offset: 90951},
 																				run: (*parser).callonListContinuationElement372,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2866, col: 10, offset: 90687},
+																					pos:        position{line: 2876, col: 10, offset: 90951},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -31124,28 +31144,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2888, col: 8, offset: 91085},
+																			pos: position{line: 2898, col: 8, offset: 91349},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2875, col: 12, offset: 90858},
+																					pos: position{line: 2885, col: 12, offset: 91122},
 																					run: (*parser).callonListContinuationElement375,
 																					expr: &choiceExpr{
-																						pos: position{line: 2875, col: 13, offset: 90859},
+																						pos: position{line: 2885, col: 13, offset: 91123},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 13, offset: 90859},
+																								pos:        position{line: 2885, col: 13, offset: 91123},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 20, offset: 90866},
+																								pos:        position{line: 2885, col: 20, offset: 91130},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 29, offset: 90875},
+																								pos:        position{line: 2885, col: 29, offset: 91139},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31154,9 +31174,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2885, col: 8, offset: 91035},
+																					pos: position{line: 2895, col: 8, offset: 91299},
 																					expr: &anyMatcher{
-																						line: 2885, col: 9, offset: 91036,
+																						line: 2895, col: 9, offset: 91300,
 																					},
 																				},
 																			},
@@ -31165,9 +31185,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2885, col: 8, offset: 91035},
+																pos: position{line: 2895, col: 8, offset: 91299},
 																expr: &anyMatcher{
-																	line: 2885, col: 9, offset: 91036,
+																	line: 2895, col: 9, offset: 91300,
 																},
 															},
 														},
@@ -31222,10 +31242,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 749, col: 8, offset: 24002},
 																	expr: &actionExpr{
-																		pos: position{line: 2866, col: 10, offset: 90687},
+																		pos: position{line: 2876, col: 10, offset: 90951},
 																		run: (*parser).callonListContinuationElement396,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2866, col: 10, offset: 90687},
+																			pos:        position{line: 2876, col: 10, offset: 90951},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31234,28 +31254,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2888, col: 8, offset: 91085},
+																	pos: position{line: 2898, col: 8, offset: 91349},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2875, col: 12, offset: 90858},
+																			pos: position{line: 2885, col: 12, offset: 91122},
 																			run: (*parser).callonListContinuationElement399,
 																			expr: &choiceExpr{
-																				pos: position{line: 2875, col: 13, offset: 90859},
+																				pos: position{line: 2885, col: 13, offset: 91123},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 13, offset: 90859},
+																						pos:        position{line: 2885, col: 13, offset: 91123},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 20, offset: 90866},
+																						pos:        position{line: 2885, col: 20, offset: 91130},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 29, offset: 90875},
+																						pos:        position{line: 2885, col: 29, offset: 91139},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31264,9 +31284,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2885, col: 8, offset: 91035},
+																			pos: position{line: 2895, col: 8, offset: 91299},
 																			expr: &anyMatcher{
-																				line: 2885, col: 9, offset: 91036,
+																				line: 2895, col: 9, offset: 91300,
 																			},
 																		},
 																	},
@@ -31338,10 +31358,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 749, col: 8, offset: 24002},
 																											expr: &actionExpr{
-																												pos: position{line: 2866, col: 10, offset: 90687},
+																												pos: position{line: 2876, col: 10, offset: 90951},
 																												run: (*parser).callonListContinuationElement424,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2866, col: 10, offset: 90687},
+																													pos:        position{line: 2876, col: 10, offset: 90951},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31350,28 +31370,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2888, col: 8, offset: 91085},
+																											pos: position{line: 2898, col: 8, offset: 91349},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2875, col: 12, offset: 90858},
+																													pos: position{line: 2885, col: 12, offset: 91122},
 																													run: (*parser).callonListContinuationElement427,
 																													expr: &choiceExpr{
-																														pos: position{line: 2875, col: 13, offset: 90859},
+																														pos: position{line: 2885, col: 13, offset: 91123},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 13, offset: 90859},
+																																pos:        position{line: 2885, col: 13, offset: 91123},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 20, offset: 90866},
+																																pos:        position{line: 2885, col: 20, offset: 91130},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 29, offset: 90875},
+																																pos:        position{line: 2885, col: 29, offset: 91139},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31380,9 +31400,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2885, col: 8, offset: 91035},
+																													pos: position{line: 2895, col: 8, offset: 91299},
 																													expr: &anyMatcher{
-																														line: 2885, col: 9, offset: 91036,
+																														line: 2895, col: 9, offset: 91300,
 																													},
 																												},
 																											},
@@ -31398,9 +31418,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2885, col: 8, offset: 91035},
+																					pos: position{line: 2895, col: 8, offset: 91299},
 																					expr: &anyMatcher{
-																						line: 2885, col: 9, offset: 91036,
+																						line: 2895, col: 9, offset: 91300,
 																					},
 																				},
 																			},
@@ -31416,21 +31436,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26161},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2883, col: 11, offset: 91021},
+																						pos: position{line: 2893, col: 11, offset: 91285},
 																						expr: &anyMatcher{
-																							line: 2883, col: 13, offset: 91023,
+																							line: 2893, col: 13, offset: 91287,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26236},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2812, col: 13, offset: 89213},
+																							pos: position{line: 2822, col: 13, offset: 89477},
 																							run: (*parser).callonListContinuationElement443,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2812, col: 13, offset: 89213},
+																								pos: position{line: 2822, col: 13, offset: 89477},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2812, col: 13, offset: 89213},
+																									pos:        position{line: 2822, col: 13, offset: 89477},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31440,28 +31460,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2888, col: 8, offset: 91085},
+																						pos: position{line: 2898, col: 8, offset: 91349},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2875, col: 12, offset: 90858},
+																								pos: position{line: 2885, col: 12, offset: 91122},
 																								run: (*parser).callonListContinuationElement447,
 																								expr: &choiceExpr{
-																									pos: position{line: 2875, col: 13, offset: 90859},
+																									pos: position{line: 2885, col: 13, offset: 91123},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 13, offset: 90859},
+																											pos:        position{line: 2885, col: 13, offset: 91123},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 20, offset: 90866},
+																											pos:        position{line: 2885, col: 20, offset: 91130},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 29, offset: 90875},
+																											pos:        position{line: 2885, col: 29, offset: 91139},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31470,9 +31490,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2885, col: 8, offset: 91035},
+																								pos: position{line: 2895, col: 8, offset: 91299},
 																								expr: &anyMatcher{
-																									line: 2885, col: 9, offset: 91036,
+																									line: 2895, col: 9, offset: 91300,
 																								},
 																							},
 																						},
@@ -31537,10 +31557,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 749, col: 8, offset: 24002},
 																							expr: &actionExpr{
-																								pos: position{line: 2866, col: 10, offset: 90687},
+																								pos: position{line: 2876, col: 10, offset: 90951},
 																								run: (*parser).callonListContinuationElement468,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2866, col: 10, offset: 90687},
+																									pos:        position{line: 2876, col: 10, offset: 90951},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -31549,28 +31569,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91085},
+																							pos: position{line: 2898, col: 8, offset: 91349},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90858},
+																									pos: position{line: 2885, col: 12, offset: 91122},
 																									run: (*parser).callonListContinuationElement471,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90859},
+																										pos: position{line: 2885, col: 13, offset: 91123},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90859},
+																												pos:        position{line: 2885, col: 13, offset: 91123},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90866},
+																												pos:        position{line: 2885, col: 20, offset: 91130},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90875},
+																												pos:        position{line: 2885, col: 29, offset: 91139},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -31579,9 +31599,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91035},
+																									pos: position{line: 2895, col: 8, offset: 91299},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91036,
+																										line: 2895, col: 9, offset: 91300,
 																									},
 																								},
 																							},
@@ -31597,9 +31617,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2885, col: 8, offset: 91035},
+																	pos: position{line: 2895, col: 8, offset: 91299},
 																	expr: &anyMatcher{
-																		line: 2885, col: 9, offset: 91036,
+																		line: 2895, col: 9, offset: 91300,
 																	},
 																},
 															},
@@ -31651,10 +31671,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 760, col: 52, offset: 24414},
 																	expr: &actionExpr{
-																		pos: position{line: 2866, col: 10, offset: 90687},
+																		pos: position{line: 2876, col: 10, offset: 90951},
 																		run: (*parser).callonListContinuationElement492,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2866, col: 10, offset: 90687},
+																			pos:        position{line: 2876, col: 10, offset: 90951},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31663,28 +31683,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2888, col: 8, offset: 91085},
+																	pos: position{line: 2898, col: 8, offset: 91349},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2875, col: 12, offset: 90858},
+																			pos: position{line: 2885, col: 12, offset: 91122},
 																			run: (*parser).callonListContinuationElement495,
 																			expr: &choiceExpr{
-																				pos: position{line: 2875, col: 13, offset: 90859},
+																				pos: position{line: 2885, col: 13, offset: 91123},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 13, offset: 90859},
+																						pos:        position{line: 2885, col: 13, offset: 91123},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 20, offset: 90866},
+																						pos:        position{line: 2885, col: 20, offset: 91130},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 29, offset: 90875},
+																						pos:        position{line: 2885, col: 29, offset: 91139},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31693,9 +31713,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2885, col: 8, offset: 91035},
+																			pos: position{line: 2895, col: 8, offset: 91299},
 																			expr: &anyMatcher{
-																				line: 2885, col: 9, offset: 91036,
+																				line: 2895, col: 9, offset: 91300,
 																			},
 																		},
 																	},
@@ -31729,10 +31749,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 963, col: 40, offset: 30222},
 																					expr: &actionExpr{
-																						pos: position{line: 2866, col: 10, offset: 90687},
+																						pos: position{line: 2876, col: 10, offset: 90951},
 																						run: (*parser).callonListContinuationElement510,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2866, col: 10, offset: 90687},
+																							pos:        position{line: 2876, col: 10, offset: 90951},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -31741,28 +31761,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2888, col: 8, offset: 91085},
+																					pos: position{line: 2898, col: 8, offset: 91349},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2875, col: 12, offset: 90858},
+																							pos: position{line: 2885, col: 12, offset: 91122},
 																							run: (*parser).callonListContinuationElement513,
 																							expr: &choiceExpr{
-																								pos: position{line: 2875, col: 13, offset: 90859},
+																								pos: position{line: 2885, col: 13, offset: 91123},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 13, offset: 90859},
+																										pos:        position{line: 2885, col: 13, offset: 91123},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 20, offset: 90866},
+																										pos:        position{line: 2885, col: 20, offset: 91130},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 29, offset: 90875},
+																										pos:        position{line: 2885, col: 29, offset: 91139},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -31771,9 +31791,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2885, col: 8, offset: 91035},
+																							pos: position{line: 2895, col: 8, offset: 91299},
 																							expr: &anyMatcher{
-																								line: 2885, col: 9, offset: 91036,
+																								line: 2895, col: 9, offset: 91300,
 																							},
 																						},
 																					},
@@ -31791,21 +31811,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26161},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2883, col: 11, offset: 91021},
+																						pos: position{line: 2893, col: 11, offset: 91285},
 																						expr: &anyMatcher{
-																							line: 2883, col: 13, offset: 91023,
+																							line: 2893, col: 13, offset: 91287,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26236},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2812, col: 13, offset: 89213},
+																							pos: position{line: 2822, col: 13, offset: 89477},
 																							run: (*parser).callonListContinuationElement526,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2812, col: 13, offset: 89213},
+																								pos: position{line: 2822, col: 13, offset: 89477},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2812, col: 13, offset: 89213},
+																									pos:        position{line: 2822, col: 13, offset: 89477},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31815,28 +31835,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2888, col: 8, offset: 91085},
+																						pos: position{line: 2898, col: 8, offset: 91349},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2875, col: 12, offset: 90858},
+																								pos: position{line: 2885, col: 12, offset: 91122},
 																								run: (*parser).callonListContinuationElement530,
 																								expr: &choiceExpr{
-																									pos: position{line: 2875, col: 13, offset: 90859},
+																									pos: position{line: 2885, col: 13, offset: 91123},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 13, offset: 90859},
+																											pos:        position{line: 2885, col: 13, offset: 91123},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 20, offset: 90866},
+																											pos:        position{line: 2885, col: 20, offset: 91130},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 29, offset: 90875},
+																											pos:        position{line: 2885, col: 29, offset: 91139},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31845,9 +31865,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2885, col: 8, offset: 91035},
+																								pos: position{line: 2895, col: 8, offset: 91299},
 																								expr: &anyMatcher{
-																									line: 2885, col: 9, offset: 91036,
+																									line: 2895, col: 9, offset: 91300,
 																								},
 																							},
 																						},
@@ -31875,10 +31895,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 963, col: 40, offset: 30222},
 																expr: &actionExpr{
-																	pos: position{line: 2866, col: 10, offset: 90687},
+																	pos: position{line: 2876, col: 10, offset: 90951},
 																	run: (*parser).callonListContinuationElement541,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2866, col: 10, offset: 90687},
+																		pos:        position{line: 2876, col: 10, offset: 90951},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -31887,28 +31907,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2888, col: 8, offset: 91085},
+																pos: position{line: 2898, col: 8, offset: 91349},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2875, col: 12, offset: 90858},
+																		pos: position{line: 2885, col: 12, offset: 91122},
 																		run: (*parser).callonListContinuationElement544,
 																		expr: &choiceExpr{
-																			pos: position{line: 2875, col: 13, offset: 90859},
+																			pos: position{line: 2885, col: 13, offset: 91123},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 13, offset: 90859},
+																					pos:        position{line: 2885, col: 13, offset: 91123},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 20, offset: 90866},
+																					pos:        position{line: 2885, col: 20, offset: 91130},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 29, offset: 90875},
+																					pos:        position{line: 2885, col: 29, offset: 91139},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -31917,9 +31937,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2885, col: 8, offset: 91035},
+																		pos: position{line: 2895, col: 8, offset: 91299},
 																		expr: &anyMatcher{
-																			line: 2885, col: 9, offset: 91036,
+																			line: 2895, col: 9, offset: 91300,
 																		},
 																	},
 																},
@@ -31976,10 +31996,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 756, col: 8, offset: 24248},
 																	expr: &actionExpr{
-																		pos: position{line: 2866, col: 10, offset: 90687},
+																		pos: position{line: 2876, col: 10, offset: 90951},
 																		run: (*parser).callonListContinuationElement563,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2866, col: 10, offset: 90687},
+																			pos:        position{line: 2876, col: 10, offset: 90951},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31988,28 +32008,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2888, col: 8, offset: 91085},
+																	pos: position{line: 2898, col: 8, offset: 91349},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2875, col: 12, offset: 90858},
+																			pos: position{line: 2885, col: 12, offset: 91122},
 																			run: (*parser).callonListContinuationElement566,
 																			expr: &choiceExpr{
-																				pos: position{line: 2875, col: 13, offset: 90859},
+																				pos: position{line: 2885, col: 13, offset: 91123},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 13, offset: 90859},
+																						pos:        position{line: 2885, col: 13, offset: 91123},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 20, offset: 90866},
+																						pos:        position{line: 2885, col: 20, offset: 91130},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 29, offset: 90875},
+																						pos:        position{line: 2885, col: 29, offset: 91139},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32018,9 +32038,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2885, col: 8, offset: 91035},
+																			pos: position{line: 2895, col: 8, offset: 91299},
 																			expr: &anyMatcher{
-																				line: 2885, col: 9, offset: 91036,
+																				line: 2895, col: 9, offset: 91300,
 																			},
 																		},
 																	},
@@ -32092,10 +32112,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 756, col: 8, offset: 24248},
 																											expr: &actionExpr{
-																												pos: position{line: 2866, col: 10, offset: 90687},
+																												pos: position{line: 2876, col: 10, offset: 90951},
 																												run: (*parser).callonListContinuationElement591,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2866, col: 10, offset: 90687},
+																													pos:        position{line: 2876, col: 10, offset: 90951},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32104,28 +32124,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2888, col: 8, offset: 91085},
+																											pos: position{line: 2898, col: 8, offset: 91349},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2875, col: 12, offset: 90858},
+																													pos: position{line: 2885, col: 12, offset: 91122},
 																													run: (*parser).callonListContinuationElement594,
 																													expr: &choiceExpr{
-																														pos: position{line: 2875, col: 13, offset: 90859},
+																														pos: position{line: 2885, col: 13, offset: 91123},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 13, offset: 90859},
+																																pos:        position{line: 2885, col: 13, offset: 91123},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 20, offset: 90866},
+																																pos:        position{line: 2885, col: 20, offset: 91130},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 29, offset: 90875},
+																																pos:        position{line: 2885, col: 29, offset: 91139},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32134,9 +32154,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2885, col: 8, offset: 91035},
+																													pos: position{line: 2895, col: 8, offset: 91299},
 																													expr: &anyMatcher{
-																														line: 2885, col: 9, offset: 91036,
+																														line: 2895, col: 9, offset: 91300,
 																													},
 																												},
 																											},
@@ -32152,9 +32172,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2885, col: 8, offset: 91035},
+																					pos: position{line: 2895, col: 8, offset: 91299},
 																					expr: &anyMatcher{
-																						line: 2885, col: 9, offset: 91036,
+																						line: 2895, col: 9, offset: 91300,
 																					},
 																				},
 																			},
@@ -32170,21 +32190,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26161},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2883, col: 11, offset: 91021},
+																						pos: position{line: 2893, col: 11, offset: 91285},
 																						expr: &anyMatcher{
-																							line: 2883, col: 13, offset: 91023,
+																							line: 2893, col: 13, offset: 91287,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26236},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2812, col: 13, offset: 89213},
+																							pos: position{line: 2822, col: 13, offset: 89477},
 																							run: (*parser).callonListContinuationElement610,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2812, col: 13, offset: 89213},
+																								pos: position{line: 2822, col: 13, offset: 89477},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2812, col: 13, offset: 89213},
+																									pos:        position{line: 2822, col: 13, offset: 89477},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32194,28 +32214,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2888, col: 8, offset: 91085},
+																						pos: position{line: 2898, col: 8, offset: 91349},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2875, col: 12, offset: 90858},
+																								pos: position{line: 2885, col: 12, offset: 91122},
 																								run: (*parser).callonListContinuationElement614,
 																								expr: &choiceExpr{
-																									pos: position{line: 2875, col: 13, offset: 90859},
+																									pos: position{line: 2885, col: 13, offset: 91123},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 13, offset: 90859},
+																											pos:        position{line: 2885, col: 13, offset: 91123},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 20, offset: 90866},
+																											pos:        position{line: 2885, col: 20, offset: 91130},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 29, offset: 90875},
+																											pos:        position{line: 2885, col: 29, offset: 91139},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32224,9 +32244,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2885, col: 8, offset: 91035},
+																								pos: position{line: 2895, col: 8, offset: 91299},
 																								expr: &anyMatcher{
-																									line: 2885, col: 9, offset: 91036,
+																									line: 2895, col: 9, offset: 91300,
 																								},
 																							},
 																						},
@@ -32291,10 +32311,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 756, col: 8, offset: 24248},
 																							expr: &actionExpr{
-																								pos: position{line: 2866, col: 10, offset: 90687},
+																								pos: position{line: 2876, col: 10, offset: 90951},
 																								run: (*parser).callonListContinuationElement635,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2866, col: 10, offset: 90687},
+																									pos:        position{line: 2876, col: 10, offset: 90951},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32303,28 +32323,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91085},
+																							pos: position{line: 2898, col: 8, offset: 91349},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90858},
+																									pos: position{line: 2885, col: 12, offset: 91122},
 																									run: (*parser).callonListContinuationElement638,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90859},
+																										pos: position{line: 2885, col: 13, offset: 91123},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90859},
+																												pos:        position{line: 2885, col: 13, offset: 91123},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90866},
+																												pos:        position{line: 2885, col: 20, offset: 91130},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90875},
+																												pos:        position{line: 2885, col: 29, offset: 91139},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32333,9 +32353,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91035},
+																									pos: position{line: 2895, col: 8, offset: 91299},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91036,
+																										line: 2895, col: 9, offset: 91300,
 																									},
 																								},
 																							},
@@ -32351,9 +32371,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2885, col: 8, offset: 91035},
+																	pos: position{line: 2895, col: 8, offset: 91299},
 																	expr: &anyMatcher{
-																		line: 2885, col: 9, offset: 91036,
+																		line: 2895, col: 9, offset: 91300,
 																	},
 																},
 															},
@@ -32409,10 +32429,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 771, col: 8, offset: 24791},
 																	expr: &actionExpr{
-																		pos: position{line: 2866, col: 10, offset: 90687},
+																		pos: position{line: 2876, col: 10, offset: 90951},
 																		run: (*parser).callonListContinuationElement660,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2866, col: 10, offset: 90687},
+																			pos:        position{line: 2876, col: 10, offset: 90951},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32421,28 +32441,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2888, col: 8, offset: 91085},
+																	pos: position{line: 2898, col: 8, offset: 91349},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2875, col: 12, offset: 90858},
+																			pos: position{line: 2885, col: 12, offset: 91122},
 																			run: (*parser).callonListContinuationElement663,
 																			expr: &choiceExpr{
-																				pos: position{line: 2875, col: 13, offset: 90859},
+																				pos: position{line: 2885, col: 13, offset: 91123},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 13, offset: 90859},
+																						pos:        position{line: 2885, col: 13, offset: 91123},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 20, offset: 90866},
+																						pos:        position{line: 2885, col: 20, offset: 91130},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 29, offset: 90875},
+																						pos:        position{line: 2885, col: 29, offset: 91139},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32451,9 +32471,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2885, col: 8, offset: 91035},
+																			pos: position{line: 2895, col: 8, offset: 91299},
 																			expr: &anyMatcher{
-																				line: 2885, col: 9, offset: 91036,
+																				line: 2895, col: 9, offset: 91300,
 																			},
 																		},
 																	},
@@ -32525,10 +32545,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 771, col: 8, offset: 24791},
 																											expr: &actionExpr{
-																												pos: position{line: 2866, col: 10, offset: 90687},
+																												pos: position{line: 2876, col: 10, offset: 90951},
 																												run: (*parser).callonListContinuationElement688,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2866, col: 10, offset: 90687},
+																													pos:        position{line: 2876, col: 10, offset: 90951},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32537,28 +32557,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2888, col: 8, offset: 91085},
+																											pos: position{line: 2898, col: 8, offset: 91349},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2875, col: 12, offset: 90858},
+																													pos: position{line: 2885, col: 12, offset: 91122},
 																													run: (*parser).callonListContinuationElement691,
 																													expr: &choiceExpr{
-																														pos: position{line: 2875, col: 13, offset: 90859},
+																														pos: position{line: 2885, col: 13, offset: 91123},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 13, offset: 90859},
+																																pos:        position{line: 2885, col: 13, offset: 91123},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 20, offset: 90866},
+																																pos:        position{line: 2885, col: 20, offset: 91130},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 29, offset: 90875},
+																																pos:        position{line: 2885, col: 29, offset: 91139},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32567,9 +32587,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2885, col: 8, offset: 91035},
+																													pos: position{line: 2895, col: 8, offset: 91299},
 																													expr: &anyMatcher{
-																														line: 2885, col: 9, offset: 91036,
+																														line: 2895, col: 9, offset: 91300,
 																													},
 																												},
 																											},
@@ -32585,9 +32605,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2885, col: 8, offset: 91035},
+																					pos: position{line: 2895, col: 8, offset: 91299},
 																					expr: &anyMatcher{
-																						line: 2885, col: 9, offset: 91036,
+																						line: 2895, col: 9, offset: 91300,
 																					},
 																				},
 																			},
@@ -32603,21 +32623,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26161},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2883, col: 11, offset: 91021},
+																						pos: position{line: 2893, col: 11, offset: 91285},
 																						expr: &anyMatcher{
-																							line: 2883, col: 13, offset: 91023,
+																							line: 2893, col: 13, offset: 91287,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26236},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2812, col: 13, offset: 89213},
+																							pos: position{line: 2822, col: 13, offset: 89477},
 																							run: (*parser).callonListContinuationElement707,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2812, col: 13, offset: 89213},
+																								pos: position{line: 2822, col: 13, offset: 89477},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2812, col: 13, offset: 89213},
+																									pos:        position{line: 2822, col: 13, offset: 89477},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32627,28 +32647,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2888, col: 8, offset: 91085},
+																						pos: position{line: 2898, col: 8, offset: 91349},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2875, col: 12, offset: 90858},
+																								pos: position{line: 2885, col: 12, offset: 91122},
 																								run: (*parser).callonListContinuationElement711,
 																								expr: &choiceExpr{
-																									pos: position{line: 2875, col: 13, offset: 90859},
+																									pos: position{line: 2885, col: 13, offset: 91123},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 13, offset: 90859},
+																											pos:        position{line: 2885, col: 13, offset: 91123},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 20, offset: 90866},
+																											pos:        position{line: 2885, col: 20, offset: 91130},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 29, offset: 90875},
+																											pos:        position{line: 2885, col: 29, offset: 91139},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32657,9 +32677,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2885, col: 8, offset: 91035},
+																								pos: position{line: 2895, col: 8, offset: 91299},
 																								expr: &anyMatcher{
-																									line: 2885, col: 9, offset: 91036,
+																									line: 2895, col: 9, offset: 91300,
 																								},
 																							},
 																						},
@@ -32724,10 +32744,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 771, col: 8, offset: 24791},
 																							expr: &actionExpr{
-																								pos: position{line: 2866, col: 10, offset: 90687},
+																								pos: position{line: 2876, col: 10, offset: 90951},
 																								run: (*parser).callonListContinuationElement732,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2866, col: 10, offset: 90687},
+																									pos:        position{line: 2876, col: 10, offset: 90951},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32736,28 +32756,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91085},
+																							pos: position{line: 2898, col: 8, offset: 91349},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90858},
+																									pos: position{line: 2885, col: 12, offset: 91122},
 																									run: (*parser).callonListContinuationElement735,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90859},
+																										pos: position{line: 2885, col: 13, offset: 91123},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90859},
+																												pos:        position{line: 2885, col: 13, offset: 91123},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90866},
+																												pos:        position{line: 2885, col: 20, offset: 91130},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90875},
+																												pos:        position{line: 2885, col: 29, offset: 91139},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32766,9 +32786,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91035},
+																									pos: position{line: 2895, col: 8, offset: 91299},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91036,
+																										line: 2895, col: 9, offset: 91300,
 																									},
 																								},
 																							},
@@ -32784,9 +32804,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2885, col: 8, offset: 91035},
+																	pos: position{line: 2895, col: 8, offset: 91299},
 																	expr: &anyMatcher{
-																		line: 2885, col: 9, offset: 91036,
+																		line: 2895, col: 9, offset: 91300,
 																	},
 																},
 															},
@@ -32842,10 +32862,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 785, col: 8, offset: 25267},
 																	expr: &actionExpr{
-																		pos: position{line: 2866, col: 10, offset: 90687},
+																		pos: position{line: 2876, col: 10, offset: 90951},
 																		run: (*parser).callonListContinuationElement757,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2866, col: 10, offset: 90687},
+																			pos:        position{line: 2876, col: 10, offset: 90951},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32854,28 +32874,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2888, col: 8, offset: 91085},
+																	pos: position{line: 2898, col: 8, offset: 91349},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2875, col: 12, offset: 90858},
+																			pos: position{line: 2885, col: 12, offset: 91122},
 																			run: (*parser).callonListContinuationElement760,
 																			expr: &choiceExpr{
-																				pos: position{line: 2875, col: 13, offset: 90859},
+																				pos: position{line: 2885, col: 13, offset: 91123},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 13, offset: 90859},
+																						pos:        position{line: 2885, col: 13, offset: 91123},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 20, offset: 90866},
+																						pos:        position{line: 2885, col: 20, offset: 91130},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 29, offset: 90875},
+																						pos:        position{line: 2885, col: 29, offset: 91139},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32884,9 +32904,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2885, col: 8, offset: 91035},
+																			pos: position{line: 2895, col: 8, offset: 91299},
 																			expr: &anyMatcher{
-																				line: 2885, col: 9, offset: 91036,
+																				line: 2895, col: 9, offset: 91300,
 																			},
 																		},
 																	},
@@ -32958,10 +32978,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 785, col: 8, offset: 25267},
 																											expr: &actionExpr{
-																												pos: position{line: 2866, col: 10, offset: 90687},
+																												pos: position{line: 2876, col: 10, offset: 90951},
 																												run: (*parser).callonListContinuationElement785,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2866, col: 10, offset: 90687},
+																													pos:        position{line: 2876, col: 10, offset: 90951},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32970,28 +32990,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2888, col: 8, offset: 91085},
+																											pos: position{line: 2898, col: 8, offset: 91349},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2875, col: 12, offset: 90858},
+																													pos: position{line: 2885, col: 12, offset: 91122},
 																													run: (*parser).callonListContinuationElement788,
 																													expr: &choiceExpr{
-																														pos: position{line: 2875, col: 13, offset: 90859},
+																														pos: position{line: 2885, col: 13, offset: 91123},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 13, offset: 90859},
+																																pos:        position{line: 2885, col: 13, offset: 91123},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 20, offset: 90866},
+																																pos:        position{line: 2885, col: 20, offset: 91130},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 29, offset: 90875},
+																																pos:        position{line: 2885, col: 29, offset: 91139},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33000,9 +33020,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2885, col: 8, offset: 91035},
+																													pos: position{line: 2895, col: 8, offset: 91299},
 																													expr: &anyMatcher{
-																														line: 2885, col: 9, offset: 91036,
+																														line: 2895, col: 9, offset: 91300,
 																													},
 																												},
 																											},
@@ -33018,9 +33038,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2885, col: 8, offset: 91035},
+																					pos: position{line: 2895, col: 8, offset: 91299},
 																					expr: &anyMatcher{
-																						line: 2885, col: 9, offset: 91036,
+																						line: 2895, col: 9, offset: 91300,
 																					},
 																				},
 																			},
@@ -33036,21 +33056,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26161},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2883, col: 11, offset: 91021},
+																						pos: position{line: 2893, col: 11, offset: 91285},
 																						expr: &anyMatcher{
-																							line: 2883, col: 13, offset: 91023,
+																							line: 2893, col: 13, offset: 91287,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26236},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2812, col: 13, offset: 89213},
+																							pos: position{line: 2822, col: 13, offset: 89477},
 																							run: (*parser).callonListContinuationElement804,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2812, col: 13, offset: 89213},
+																								pos: position{line: 2822, col: 13, offset: 89477},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2812, col: 13, offset: 89213},
+																									pos:        position{line: 2822, col: 13, offset: 89477},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33060,28 +33080,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2888, col: 8, offset: 91085},
+																						pos: position{line: 2898, col: 8, offset: 91349},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2875, col: 12, offset: 90858},
+																								pos: position{line: 2885, col: 12, offset: 91122},
 																								run: (*parser).callonListContinuationElement808,
 																								expr: &choiceExpr{
-																									pos: position{line: 2875, col: 13, offset: 90859},
+																									pos: position{line: 2885, col: 13, offset: 91123},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 13, offset: 90859},
+																											pos:        position{line: 2885, col: 13, offset: 91123},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 20, offset: 90866},
+																											pos:        position{line: 2885, col: 20, offset: 91130},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 29, offset: 90875},
+																											pos:        position{line: 2885, col: 29, offset: 91139},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33090,9 +33110,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2885, col: 8, offset: 91035},
+																								pos: position{line: 2895, col: 8, offset: 91299},
 																								expr: &anyMatcher{
-																									line: 2885, col: 9, offset: 91036,
+																									line: 2895, col: 9, offset: 91300,
 																								},
 																							},
 																						},
@@ -33157,10 +33177,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 785, col: 8, offset: 25267},
 																							expr: &actionExpr{
-																								pos: position{line: 2866, col: 10, offset: 90687},
+																								pos: position{line: 2876, col: 10, offset: 90951},
 																								run: (*parser).callonListContinuationElement829,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2866, col: 10, offset: 90687},
+																									pos:        position{line: 2876, col: 10, offset: 90951},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33169,28 +33189,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91085},
+																							pos: position{line: 2898, col: 8, offset: 91349},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90858},
+																									pos: position{line: 2885, col: 12, offset: 91122},
 																									run: (*parser).callonListContinuationElement832,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90859},
+																										pos: position{line: 2885, col: 13, offset: 91123},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90859},
+																												pos:        position{line: 2885, col: 13, offset: 91123},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90866},
+																												pos:        position{line: 2885, col: 20, offset: 91130},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90875},
+																												pos:        position{line: 2885, col: 29, offset: 91139},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33199,9 +33219,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91035},
+																									pos: position{line: 2895, col: 8, offset: 91299},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91036,
+																										line: 2895, col: 9, offset: 91300,
 																									},
 																								},
 																							},
@@ -33217,9 +33237,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2885, col: 8, offset: 91035},
+																	pos: position{line: 2895, col: 8, offset: 91299},
 																	expr: &anyMatcher{
-																		line: 2885, col: 9, offset: 91036,
+																		line: 2895, col: 9, offset: 91300,
 																	},
 																},
 															},
@@ -33253,18 +33273,18 @@ var g = &grammar{
 																			pos: position{line: 677, col: 14, offset: 21557},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2883, col: 11, offset: 91021},
+																					pos: position{line: 2893, col: 11, offset: 91285},
 																					expr: &anyMatcher{
-																						line: 2883, col: 13, offset: 91023,
+																						line: 2893, col: 13, offset: 91287,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21564},
 																					expr: &actionExpr{
-																						pos: position{line: 2866, col: 10, offset: 90687},
+																						pos: position{line: 2876, col: 10, offset: 90951},
 																						run: (*parser).callonListContinuationElement853,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2866, col: 10, offset: 90687},
+																							pos:        position{line: 2876, col: 10, offset: 90951},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -33273,28 +33293,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2888, col: 8, offset: 91085},
+																					pos: position{line: 2898, col: 8, offset: 91349},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2875, col: 12, offset: 90858},
+																							pos: position{line: 2885, col: 12, offset: 91122},
 																							run: (*parser).callonListContinuationElement856,
 																							expr: &choiceExpr{
-																								pos: position{line: 2875, col: 13, offset: 90859},
+																								pos: position{line: 2885, col: 13, offset: 91123},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 13, offset: 90859},
+																										pos:        position{line: 2885, col: 13, offset: 91123},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 20, offset: 90866},
+																										pos:        position{line: 2885, col: 20, offset: 91130},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 29, offset: 90875},
+																										pos:        position{line: 2885, col: 29, offset: 91139},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -33303,9 +33323,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2885, col: 8, offset: 91035},
+																							pos: position{line: 2895, col: 8, offset: 91299},
 																							expr: &anyMatcher{
-																								line: 2885, col: 9, offset: 91036,
+																								line: 2895, col: 9, offset: 91300,
 																							},
 																						},
 																					},
@@ -33324,12 +33344,12 @@ var g = &grammar{
 																	pos:   position{line: 984, col: 5, offset: 30757},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2816, col: 14, offset: 89280},
+																		pos: position{line: 2826, col: 14, offset: 89544},
 																		run: (*parser).callonListContinuationElement865,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2816, col: 14, offset: 89280},
+																			pos: position{line: 2826, col: 14, offset: 89544},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2816, col: 14, offset: 89280},
+																				pos:        position{line: 2826, col: 14, offset: 89544},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -33339,28 +33359,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2888, col: 8, offset: 91085},
+																	pos: position{line: 2898, col: 8, offset: 91349},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2875, col: 12, offset: 90858},
+																			pos: position{line: 2885, col: 12, offset: 91122},
 																			run: (*parser).callonListContinuationElement869,
 																			expr: &choiceExpr{
-																				pos: position{line: 2875, col: 13, offset: 90859},
+																				pos: position{line: 2885, col: 13, offset: 91123},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 13, offset: 90859},
+																						pos:        position{line: 2885, col: 13, offset: 91123},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 20, offset: 90866},
+																						pos:        position{line: 2885, col: 20, offset: 91130},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 29, offset: 90875},
+																						pos:        position{line: 2885, col: 29, offset: 91139},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33369,9 +33389,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2885, col: 8, offset: 91035},
+																			pos: position{line: 2895, col: 8, offset: 91299},
 																			expr: &anyMatcher{
-																				line: 2885, col: 9, offset: 91036,
+																				line: 2895, col: 9, offset: 91300,
 																			},
 																		},
 																	},
@@ -33403,18 +33423,18 @@ var g = &grammar{
 																						pos: position{line: 677, col: 14, offset: 21557},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2883, col: 11, offset: 91021},
+																								pos: position{line: 2893, col: 11, offset: 91285},
 																								expr: &anyMatcher{
-																									line: 2883, col: 13, offset: 91023,
+																									line: 2893, col: 13, offset: 91287,
 																								},
 																							},
 																							&zeroOrMoreExpr{
 																								pos: position{line: 677, col: 21, offset: 21564},
 																								expr: &actionExpr{
-																									pos: position{line: 2866, col: 10, offset: 90687},
+																									pos: position{line: 2876, col: 10, offset: 90951},
 																									run: (*parser).callonListContinuationElement887,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2866, col: 10, offset: 90687},
+																										pos:        position{line: 2876, col: 10, offset: 90951},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33423,28 +33443,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2888, col: 8, offset: 91085},
+																								pos: position{line: 2898, col: 8, offset: 91349},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2875, col: 12, offset: 90858},
+																										pos: position{line: 2885, col: 12, offset: 91122},
 																										run: (*parser).callonListContinuationElement890,
 																										expr: &choiceExpr{
-																											pos: position{line: 2875, col: 13, offset: 90859},
+																											pos: position{line: 2885, col: 13, offset: 91123},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 13, offset: 90859},
+																													pos:        position{line: 2885, col: 13, offset: 91123},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 20, offset: 90866},
+																													pos:        position{line: 2885, col: 20, offset: 91130},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 29, offset: 90875},
+																													pos:        position{line: 2885, col: 29, offset: 91139},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33453,9 +33473,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2885, col: 8, offset: 91035},
+																										pos: position{line: 2895, col: 8, offset: 91299},
 																										expr: &anyMatcher{
-																											line: 2885, col: 9, offset: 91036,
+																											line: 2895, col: 9, offset: 91300,
 																										},
 																									},
 																								},
@@ -33474,12 +33494,12 @@ var g = &grammar{
 																				pos:   position{line: 984, col: 5, offset: 30757},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2816, col: 14, offset: 89280},
+																					pos: position{line: 2826, col: 14, offset: 89544},
 																					run: (*parser).callonListContinuationElement899,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2816, col: 14, offset: 89280},
+																						pos: position{line: 2826, col: 14, offset: 89544},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2816, col: 14, offset: 89280},
+																							pos:        position{line: 2826, col: 14, offset: 89544},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33489,28 +33509,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2888, col: 8, offset: 91085},
+																				pos: position{line: 2898, col: 8, offset: 91349},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2875, col: 12, offset: 90858},
+																						pos: position{line: 2885, col: 12, offset: 91122},
 																						run: (*parser).callonListContinuationElement903,
 																						expr: &choiceExpr{
-																							pos: position{line: 2875, col: 13, offset: 90859},
+																							pos: position{line: 2885, col: 13, offset: 91123},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2875, col: 13, offset: 90859},
+																									pos:        position{line: 2885, col: 13, offset: 91123},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2875, col: 20, offset: 90866},
+																									pos:        position{line: 2885, col: 20, offset: 91130},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2875, col: 29, offset: 90875},
+																									pos:        position{line: 2885, col: 29, offset: 91139},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33519,9 +33539,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2885, col: 8, offset: 91035},
+																						pos: position{line: 2895, col: 8, offset: 91299},
 																						expr: &anyMatcher{
-																							line: 2885, col: 9, offset: 91036,
+																							line: 2895, col: 9, offset: 91300,
 																						},
 																					},
 																				},
@@ -33530,21 +33550,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1785, col: 5, offset: 57782},
+																	pos: position{line: 1795, col: 5, offset: 58046},
 																	run: (*parser).callonListContinuationElement910,
 																	expr: &seqExpr{
-																		pos: position{line: 1785, col: 5, offset: 57782},
+																		pos: position{line: 1795, col: 5, offset: 58046},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1785, col: 5, offset: 57782},
+																				pos:   position{line: 1795, col: 5, offset: 58046},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2816, col: 14, offset: 89280},
+																					pos: position{line: 2826, col: 14, offset: 89544},
 																					run: (*parser).callonListContinuationElement913,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2816, col: 14, offset: 89280},
+																						pos: position{line: 2826, col: 14, offset: 89544},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2816, col: 14, offset: 89280},
+																							pos:        position{line: 2826, col: 14, offset: 89544},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33554,32 +33574,32 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1786, col: 5, offset: 57806},
+																				pos: position{line: 1796, col: 5, offset: 58070},
 																				run: (*parser).callonListContinuationElement916,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2888, col: 8, offset: 91085},
+																				pos: position{line: 2898, col: 8, offset: 91349},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2875, col: 12, offset: 90858},
+																						pos: position{line: 2885, col: 12, offset: 91122},
 																						run: (*parser).callonListContinuationElement918,
 																						expr: &choiceExpr{
-																							pos: position{line: 2875, col: 13, offset: 90859},
+																							pos: position{line: 2885, col: 13, offset: 91123},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2875, col: 13, offset: 90859},
+																									pos:        position{line: 2885, col: 13, offset: 91123},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2875, col: 20, offset: 90866},
+																									pos:        position{line: 2885, col: 20, offset: 91130},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2875, col: 29, offset: 90875},
+																									pos:        position{line: 2885, col: 29, offset: 91139},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33588,9 +33608,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2885, col: 8, offset: 91035},
+																						pos: position{line: 2895, col: 8, offset: 91299},
 																						expr: &anyMatcher{
-																							line: 2885, col: 9, offset: 91036,
+																							line: 2895, col: 9, offset: 91300,
 																						},
 																					},
 																				},
@@ -33637,10 +33657,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 778, col: 8, offset: 25022},
 																	expr: &actionExpr{
-																		pos: position{line: 2866, col: 10, offset: 90687},
+																		pos: position{line: 2876, col: 10, offset: 90951},
 																		run: (*parser).callonListContinuationElement934,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2866, col: 10, offset: 90687},
+																			pos:        position{line: 2876, col: 10, offset: 90951},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33649,28 +33669,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2888, col: 8, offset: 91085},
+																	pos: position{line: 2898, col: 8, offset: 91349},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2875, col: 12, offset: 90858},
+																			pos: position{line: 2885, col: 12, offset: 91122},
 																			run: (*parser).callonListContinuationElement937,
 																			expr: &choiceExpr{
-																				pos: position{line: 2875, col: 13, offset: 90859},
+																				pos: position{line: 2885, col: 13, offset: 91123},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 13, offset: 90859},
+																						pos:        position{line: 2885, col: 13, offset: 91123},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 20, offset: 90866},
+																						pos:        position{line: 2885, col: 20, offset: 91130},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 29, offset: 90875},
+																						pos:        position{line: 2885, col: 29, offset: 91139},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33679,9 +33699,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2885, col: 8, offset: 91035},
+																			pos: position{line: 2895, col: 8, offset: 91299},
 																			expr: &anyMatcher{
-																				line: 2885, col: 9, offset: 91036,
+																				line: 2895, col: 9, offset: 91300,
 																			},
 																		},
 																	},
@@ -33729,10 +33749,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 778, col: 8, offset: 25022},
 																								expr: &actionExpr{
-																									pos: position{line: 2866, col: 10, offset: 90687},
+																									pos: position{line: 2876, col: 10, offset: 90951},
 																									run: (*parser).callonListContinuationElement956,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2866, col: 10, offset: 90687},
+																										pos:        position{line: 2876, col: 10, offset: 90951},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33741,28 +33761,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2888, col: 8, offset: 91085},
+																								pos: position{line: 2898, col: 8, offset: 91349},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2875, col: 12, offset: 90858},
+																										pos: position{line: 2885, col: 12, offset: 91122},
 																										run: (*parser).callonListContinuationElement959,
 																										expr: &choiceExpr{
-																											pos: position{line: 2875, col: 13, offset: 90859},
+																											pos: position{line: 2885, col: 13, offset: 91123},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 13, offset: 90859},
+																													pos:        position{line: 2885, col: 13, offset: 91123},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 20, offset: 90866},
+																													pos:        position{line: 2885, col: 20, offset: 91130},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2875, col: 29, offset: 90875},
+																													pos:        position{line: 2885, col: 29, offset: 91139},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33771,9 +33791,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2885, col: 8, offset: 91035},
+																										pos: position{line: 2895, col: 8, offset: 91299},
 																										expr: &anyMatcher{
-																											line: 2885, col: 9, offset: 91036,
+																											line: 2895, col: 9, offset: 91300,
 																										},
 																									},
 																								},
@@ -33782,9 +33802,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2885, col: 8, offset: 91035},
+																					pos: position{line: 2895, col: 8, offset: 91299},
 																					expr: &anyMatcher{
-																						line: 2885, col: 9, offset: 91036,
+																						line: 2895, col: 9, offset: 91300,
 																					},
 																				},
 																			},
@@ -33800,21 +33820,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26161},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2883, col: 11, offset: 91021},
+																						pos: position{line: 2893, col: 11, offset: 91285},
 																						expr: &anyMatcher{
-																							line: 2883, col: 13, offset: 91023,
+																							line: 2893, col: 13, offset: 91287,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26236},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2812, col: 13, offset: 89213},
+																							pos: position{line: 2822, col: 13, offset: 89477},
 																							run: (*parser).callonListContinuationElement974,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2812, col: 13, offset: 89213},
+																								pos: position{line: 2822, col: 13, offset: 89477},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2812, col: 13, offset: 89213},
+																									pos:        position{line: 2822, col: 13, offset: 89477},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33824,28 +33844,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2888, col: 8, offset: 91085},
+																						pos: position{line: 2898, col: 8, offset: 91349},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2875, col: 12, offset: 90858},
+																								pos: position{line: 2885, col: 12, offset: 91122},
 																								run: (*parser).callonListContinuationElement978,
 																								expr: &choiceExpr{
-																									pos: position{line: 2875, col: 13, offset: 90859},
+																									pos: position{line: 2885, col: 13, offset: 91123},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 13, offset: 90859},
+																											pos:        position{line: 2885, col: 13, offset: 91123},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 20, offset: 90866},
+																											pos:        position{line: 2885, col: 20, offset: 91130},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 29, offset: 90875},
+																											pos:        position{line: 2885, col: 29, offset: 91139},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33854,9 +33874,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2885, col: 8, offset: 91035},
+																								pos: position{line: 2895, col: 8, offset: 91299},
 																								expr: &anyMatcher{
-																									line: 2885, col: 9, offset: 91036,
+																									line: 2895, col: 9, offset: 91300,
 																								},
 																							},
 																						},
@@ -33901,10 +33921,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 778, col: 8, offset: 25022},
 																				expr: &actionExpr{
-																					pos: position{line: 2866, col: 10, offset: 90687},
+																					pos: position{line: 2876, col: 10, offset: 90951},
 																					run: (*parser).callonListContinuationElement994,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2866, col: 10, offset: 90687},
+																						pos:        position{line: 2876, col: 10, offset: 90951},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -33913,28 +33933,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2888, col: 8, offset: 91085},
+																				pos: position{line: 2898, col: 8, offset: 91349},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2875, col: 12, offset: 90858},
+																						pos: position{line: 2885, col: 12, offset: 91122},
 																						run: (*parser).callonListContinuationElement997,
 																						expr: &choiceExpr{
-																							pos: position{line: 2875, col: 13, offset: 90859},
+																							pos: position{line: 2885, col: 13, offset: 91123},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2875, col: 13, offset: 90859},
+																									pos:        position{line: 2885, col: 13, offset: 91123},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2875, col: 20, offset: 90866},
+																									pos:        position{line: 2885, col: 20, offset: 91130},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2875, col: 29, offset: 90875},
+																									pos:        position{line: 2885, col: 29, offset: 91139},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33943,9 +33963,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2885, col: 8, offset: 91035},
+																						pos: position{line: 2895, col: 8, offset: 91299},
 																						expr: &anyMatcher{
-																							line: 2885, col: 9, offset: 91036,
+																							line: 2895, col: 9, offset: 91300,
 																						},
 																					},
 																				},
@@ -33954,9 +33974,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2885, col: 8, offset: 91035},
+																	pos: position{line: 2895, col: 8, offset: 91299},
 																	expr: &anyMatcher{
-																		line: 2885, col: 9, offset: 91036,
+																		line: 2895, col: 9, offset: 91300,
 																	},
 																},
 															},
@@ -34012,10 +34032,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 792, col: 8, offset: 25519},
 																	expr: &actionExpr{
-																		pos: position{line: 2866, col: 10, offset: 90687},
+																		pos: position{line: 2876, col: 10, offset: 90951},
 																		run: (*parser).callonListContinuationElement1018,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2866, col: 10, offset: 90687},
+																			pos:        position{line: 2876, col: 10, offset: 90951},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34024,28 +34044,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2888, col: 8, offset: 91085},
+																	pos: position{line: 2898, col: 8, offset: 91349},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2875, col: 12, offset: 90858},
+																			pos: position{line: 2885, col: 12, offset: 91122},
 																			run: (*parser).callonListContinuationElement1021,
 																			expr: &choiceExpr{
-																				pos: position{line: 2875, col: 13, offset: 90859},
+																				pos: position{line: 2885, col: 13, offset: 91123},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 13, offset: 90859},
+																						pos:        position{line: 2885, col: 13, offset: 91123},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 20, offset: 90866},
+																						pos:        position{line: 2885, col: 20, offset: 91130},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 29, offset: 90875},
+																						pos:        position{line: 2885, col: 29, offset: 91139},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34054,9 +34074,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2885, col: 8, offset: 91035},
+																			pos: position{line: 2895, col: 8, offset: 91299},
 																			expr: &anyMatcher{
-																				line: 2885, col: 9, offset: 91036,
+																				line: 2895, col: 9, offset: 91300,
 																			},
 																		},
 																	},
@@ -34128,10 +34148,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 792, col: 8, offset: 25519},
 																											expr: &actionExpr{
-																												pos: position{line: 2866, col: 10, offset: 90687},
+																												pos: position{line: 2876, col: 10, offset: 90951},
 																												run: (*parser).callonListContinuationElement1046,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2866, col: 10, offset: 90687},
+																													pos:        position{line: 2876, col: 10, offset: 90951},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34140,28 +34160,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2888, col: 8, offset: 91085},
+																											pos: position{line: 2898, col: 8, offset: 91349},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2875, col: 12, offset: 90858},
+																													pos: position{line: 2885, col: 12, offset: 91122},
 																													run: (*parser).callonListContinuationElement1049,
 																													expr: &choiceExpr{
-																														pos: position{line: 2875, col: 13, offset: 90859},
+																														pos: position{line: 2885, col: 13, offset: 91123},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 13, offset: 90859},
+																																pos:        position{line: 2885, col: 13, offset: 91123},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 20, offset: 90866},
+																																pos:        position{line: 2885, col: 20, offset: 91130},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 29, offset: 90875},
+																																pos:        position{line: 2885, col: 29, offset: 91139},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34170,9 +34190,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2885, col: 8, offset: 91035},
+																													pos: position{line: 2895, col: 8, offset: 91299},
 																													expr: &anyMatcher{
-																														line: 2885, col: 9, offset: 91036,
+																														line: 2895, col: 9, offset: 91300,
 																													},
 																												},
 																											},
@@ -34188,9 +34208,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2885, col: 8, offset: 91035},
+																					pos: position{line: 2895, col: 8, offset: 91299},
 																					expr: &anyMatcher{
-																						line: 2885, col: 9, offset: 91036,
+																						line: 2895, col: 9, offset: 91300,
 																					},
 																				},
 																			},
@@ -34206,21 +34226,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26161},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2883, col: 11, offset: 91021},
+																						pos: position{line: 2893, col: 11, offset: 91285},
 																						expr: &anyMatcher{
-																							line: 2883, col: 13, offset: 91023,
+																							line: 2893, col: 13, offset: 91287,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26236},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2812, col: 13, offset: 89213},
+																							pos: position{line: 2822, col: 13, offset: 89477},
 																							run: (*parser).callonListContinuationElement1065,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2812, col: 13, offset: 89213},
+																								pos: position{line: 2822, col: 13, offset: 89477},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2812, col: 13, offset: 89213},
+																									pos:        position{line: 2822, col: 13, offset: 89477},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34230,28 +34250,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2888, col: 8, offset: 91085},
+																						pos: position{line: 2898, col: 8, offset: 91349},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2875, col: 12, offset: 90858},
+																								pos: position{line: 2885, col: 12, offset: 91122},
 																								run: (*parser).callonListContinuationElement1069,
 																								expr: &choiceExpr{
-																									pos: position{line: 2875, col: 13, offset: 90859},
+																									pos: position{line: 2885, col: 13, offset: 91123},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 13, offset: 90859},
+																											pos:        position{line: 2885, col: 13, offset: 91123},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 20, offset: 90866},
+																											pos:        position{line: 2885, col: 20, offset: 91130},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 29, offset: 90875},
+																											pos:        position{line: 2885, col: 29, offset: 91139},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34260,9 +34280,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2885, col: 8, offset: 91035},
+																								pos: position{line: 2895, col: 8, offset: 91299},
 																								expr: &anyMatcher{
-																									line: 2885, col: 9, offset: 91036,
+																									line: 2895, col: 9, offset: 91300,
 																								},
 																							},
 																						},
@@ -34327,10 +34347,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 792, col: 8, offset: 25519},
 																							expr: &actionExpr{
-																								pos: position{line: 2866, col: 10, offset: 90687},
+																								pos: position{line: 2876, col: 10, offset: 90951},
 																								run: (*parser).callonListContinuationElement1090,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2866, col: 10, offset: 90687},
+																									pos:        position{line: 2876, col: 10, offset: 90951},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34339,28 +34359,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91085},
+																							pos: position{line: 2898, col: 8, offset: 91349},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90858},
+																									pos: position{line: 2885, col: 12, offset: 91122},
 																									run: (*parser).callonListContinuationElement1093,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90859},
+																										pos: position{line: 2885, col: 13, offset: 91123},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90859},
+																												pos:        position{line: 2885, col: 13, offset: 91123},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90866},
+																												pos:        position{line: 2885, col: 20, offset: 91130},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90875},
+																												pos:        position{line: 2885, col: 29, offset: 91139},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34369,9 +34389,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91035},
+																									pos: position{line: 2895, col: 8, offset: 91299},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91036,
+																										line: 2895, col: 9, offset: 91300,
 																									},
 																								},
 																							},
@@ -34387,9 +34407,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2885, col: 8, offset: 91035},
+																	pos: position{line: 2895, col: 8, offset: 91299},
 																	expr: &anyMatcher{
-																		line: 2885, col: 9, offset: 91036,
+																		line: 2895, col: 9, offset: 91300,
 																	},
 																},
 															},
@@ -34445,10 +34465,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 799, col: 8, offset: 25769},
 																	expr: &actionExpr{
-																		pos: position{line: 2866, col: 10, offset: 90687},
+																		pos: position{line: 2876, col: 10, offset: 90951},
 																		run: (*parser).callonListContinuationElement1115,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2866, col: 10, offset: 90687},
+																			pos:        position{line: 2876, col: 10, offset: 90951},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34457,28 +34477,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2888, col: 8, offset: 91085},
+																	pos: position{line: 2898, col: 8, offset: 91349},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2875, col: 12, offset: 90858},
+																			pos: position{line: 2885, col: 12, offset: 91122},
 																			run: (*parser).callonListContinuationElement1118,
 																			expr: &choiceExpr{
-																				pos: position{line: 2875, col: 13, offset: 90859},
+																				pos: position{line: 2885, col: 13, offset: 91123},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 13, offset: 90859},
+																						pos:        position{line: 2885, col: 13, offset: 91123},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 20, offset: 90866},
+																						pos:        position{line: 2885, col: 20, offset: 91130},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 29, offset: 90875},
+																						pos:        position{line: 2885, col: 29, offset: 91139},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34487,9 +34507,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2885, col: 8, offset: 91035},
+																			pos: position{line: 2895, col: 8, offset: 91299},
 																			expr: &anyMatcher{
-																				line: 2885, col: 9, offset: 91036,
+																				line: 2895, col: 9, offset: 91300,
 																			},
 																		},
 																	},
@@ -34561,10 +34581,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 799, col: 8, offset: 25769},
 																											expr: &actionExpr{
-																												pos: position{line: 2866, col: 10, offset: 90687},
+																												pos: position{line: 2876, col: 10, offset: 90951},
 																												run: (*parser).callonListContinuationElement1143,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2866, col: 10, offset: 90687},
+																													pos:        position{line: 2876, col: 10, offset: 90951},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34573,28 +34593,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2888, col: 8, offset: 91085},
+																											pos: position{line: 2898, col: 8, offset: 91349},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2875, col: 12, offset: 90858},
+																													pos: position{line: 2885, col: 12, offset: 91122},
 																													run: (*parser).callonListContinuationElement1146,
 																													expr: &choiceExpr{
-																														pos: position{line: 2875, col: 13, offset: 90859},
+																														pos: position{line: 2885, col: 13, offset: 91123},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 13, offset: 90859},
+																																pos:        position{line: 2885, col: 13, offset: 91123},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 20, offset: 90866},
+																																pos:        position{line: 2885, col: 20, offset: 91130},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 29, offset: 90875},
+																																pos:        position{line: 2885, col: 29, offset: 91139},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34603,9 +34623,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2885, col: 8, offset: 91035},
+																													pos: position{line: 2895, col: 8, offset: 91299},
 																													expr: &anyMatcher{
-																														line: 2885, col: 9, offset: 91036,
+																														line: 2895, col: 9, offset: 91300,
 																													},
 																												},
 																											},
@@ -34621,9 +34641,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2885, col: 8, offset: 91035},
+																					pos: position{line: 2895, col: 8, offset: 91299},
 																					expr: &anyMatcher{
-																						line: 2885, col: 9, offset: 91036,
+																						line: 2895, col: 9, offset: 91300,
 																					},
 																				},
 																			},
@@ -34639,21 +34659,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26161},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2883, col: 11, offset: 91021},
+																						pos: position{line: 2893, col: 11, offset: 91285},
 																						expr: &anyMatcher{
-																							line: 2883, col: 13, offset: 91023,
+																							line: 2893, col: 13, offset: 91287,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26236},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2812, col: 13, offset: 89213},
+																							pos: position{line: 2822, col: 13, offset: 89477},
 																							run: (*parser).callonListContinuationElement1162,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2812, col: 13, offset: 89213},
+																								pos: position{line: 2822, col: 13, offset: 89477},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2812, col: 13, offset: 89213},
+																									pos:        position{line: 2822, col: 13, offset: 89477},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34663,28 +34683,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2888, col: 8, offset: 91085},
+																						pos: position{line: 2898, col: 8, offset: 91349},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2875, col: 12, offset: 90858},
+																								pos: position{line: 2885, col: 12, offset: 91122},
 																								run: (*parser).callonListContinuationElement1166,
 																								expr: &choiceExpr{
-																									pos: position{line: 2875, col: 13, offset: 90859},
+																									pos: position{line: 2885, col: 13, offset: 91123},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 13, offset: 90859},
+																											pos:        position{line: 2885, col: 13, offset: 91123},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 20, offset: 90866},
+																											pos:        position{line: 2885, col: 20, offset: 91130},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 29, offset: 90875},
+																											pos:        position{line: 2885, col: 29, offset: 91139},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34693,9 +34713,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2885, col: 8, offset: 91035},
+																								pos: position{line: 2895, col: 8, offset: 91299},
 																								expr: &anyMatcher{
-																									line: 2885, col: 9, offset: 91036,
+																									line: 2895, col: 9, offset: 91300,
 																								},
 																							},
 																						},
@@ -34760,10 +34780,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 799, col: 8, offset: 25769},
 																							expr: &actionExpr{
-																								pos: position{line: 2866, col: 10, offset: 90687},
+																								pos: position{line: 2876, col: 10, offset: 90951},
 																								run: (*parser).callonListContinuationElement1187,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2866, col: 10, offset: 90687},
+																									pos:        position{line: 2876, col: 10, offset: 90951},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34772,28 +34792,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91085},
+																							pos: position{line: 2898, col: 8, offset: 91349},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90858},
+																									pos: position{line: 2885, col: 12, offset: 91122},
 																									run: (*parser).callonListContinuationElement1190,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90859},
+																										pos: position{line: 2885, col: 13, offset: 91123},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90859},
+																												pos:        position{line: 2885, col: 13, offset: 91123},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90866},
+																												pos:        position{line: 2885, col: 20, offset: 91130},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90875},
+																												pos:        position{line: 2885, col: 29, offset: 91139},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34802,9 +34822,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91035},
+																									pos: position{line: 2895, col: 8, offset: 91299},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91036,
+																										line: 2895, col: 9, offset: 91300,
 																									},
 																								},
 																							},
@@ -34820,9 +34840,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2885, col: 8, offset: 91035},
+																	pos: position{line: 2895, col: 8, offset: 91299},
 																	expr: &anyMatcher{
-																		line: 2885, col: 9, offset: 91036,
+																		line: 2895, col: 9, offset: 91300,
 																	},
 																},
 															},
@@ -34878,10 +34898,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 806, col: 8, offset: 26015},
 																	expr: &actionExpr{
-																		pos: position{line: 2866, col: 10, offset: 90687},
+																		pos: position{line: 2876, col: 10, offset: 90951},
 																		run: (*parser).callonListContinuationElement1212,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2866, col: 10, offset: 90687},
+																			pos:        position{line: 2876, col: 10, offset: 90951},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34890,28 +34910,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2888, col: 8, offset: 91085},
+																	pos: position{line: 2898, col: 8, offset: 91349},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2875, col: 12, offset: 90858},
+																			pos: position{line: 2885, col: 12, offset: 91122},
 																			run: (*parser).callonListContinuationElement1215,
 																			expr: &choiceExpr{
-																				pos: position{line: 2875, col: 13, offset: 90859},
+																				pos: position{line: 2885, col: 13, offset: 91123},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 13, offset: 90859},
+																						pos:        position{line: 2885, col: 13, offset: 91123},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 20, offset: 90866},
+																						pos:        position{line: 2885, col: 20, offset: 91130},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 29, offset: 90875},
+																						pos:        position{line: 2885, col: 29, offset: 91139},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34920,9 +34940,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2885, col: 8, offset: 91035},
+																			pos: position{line: 2895, col: 8, offset: 91299},
 																			expr: &anyMatcher{
-																				line: 2885, col: 9, offset: 91036,
+																				line: 2895, col: 9, offset: 91300,
 																			},
 																		},
 																	},
@@ -34994,10 +35014,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 806, col: 8, offset: 26015},
 																											expr: &actionExpr{
-																												pos: position{line: 2866, col: 10, offset: 90687},
+																												pos: position{line: 2876, col: 10, offset: 90951},
 																												run: (*parser).callonListContinuationElement1240,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2866, col: 10, offset: 90687},
+																													pos:        position{line: 2876, col: 10, offset: 90951},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35006,28 +35026,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2888, col: 8, offset: 91085},
+																											pos: position{line: 2898, col: 8, offset: 91349},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2875, col: 12, offset: 90858},
+																													pos: position{line: 2885, col: 12, offset: 91122},
 																													run: (*parser).callonListContinuationElement1243,
 																													expr: &choiceExpr{
-																														pos: position{line: 2875, col: 13, offset: 90859},
+																														pos: position{line: 2885, col: 13, offset: 91123},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 13, offset: 90859},
+																																pos:        position{line: 2885, col: 13, offset: 91123},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 20, offset: 90866},
+																																pos:        position{line: 2885, col: 20, offset: 91130},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 29, offset: 90875},
+																																pos:        position{line: 2885, col: 29, offset: 91139},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35036,9 +35056,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2885, col: 8, offset: 91035},
+																													pos: position{line: 2895, col: 8, offset: 91299},
 																													expr: &anyMatcher{
-																														line: 2885, col: 9, offset: 91036,
+																														line: 2895, col: 9, offset: 91300,
 																													},
 																												},
 																											},
@@ -35054,9 +35074,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2885, col: 8, offset: 91035},
+																					pos: position{line: 2895, col: 8, offset: 91299},
 																					expr: &anyMatcher{
-																						line: 2885, col: 9, offset: 91036,
+																						line: 2895, col: 9, offset: 91300,
 																					},
 																				},
 																			},
@@ -35072,21 +35092,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26161},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2883, col: 11, offset: 91021},
+																						pos: position{line: 2893, col: 11, offset: 91285},
 																						expr: &anyMatcher{
-																							line: 2883, col: 13, offset: 91023,
+																							line: 2893, col: 13, offset: 91287,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26236},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2812, col: 13, offset: 89213},
+																							pos: position{line: 2822, col: 13, offset: 89477},
 																							run: (*parser).callonListContinuationElement1259,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2812, col: 13, offset: 89213},
+																								pos: position{line: 2822, col: 13, offset: 89477},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2812, col: 13, offset: 89213},
+																									pos:        position{line: 2822, col: 13, offset: 89477},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35096,28 +35116,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2888, col: 8, offset: 91085},
+																						pos: position{line: 2898, col: 8, offset: 91349},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2875, col: 12, offset: 90858},
+																								pos: position{line: 2885, col: 12, offset: 91122},
 																								run: (*parser).callonListContinuationElement1263,
 																								expr: &choiceExpr{
-																									pos: position{line: 2875, col: 13, offset: 90859},
+																									pos: position{line: 2885, col: 13, offset: 91123},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 13, offset: 90859},
+																											pos:        position{line: 2885, col: 13, offset: 91123},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 20, offset: 90866},
+																											pos:        position{line: 2885, col: 20, offset: 91130},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 29, offset: 90875},
+																											pos:        position{line: 2885, col: 29, offset: 91139},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35126,9 +35146,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2885, col: 8, offset: 91035},
+																								pos: position{line: 2895, col: 8, offset: 91299},
 																								expr: &anyMatcher{
-																									line: 2885, col: 9, offset: 91036,
+																									line: 2895, col: 9, offset: 91300,
 																								},
 																							},
 																						},
@@ -35193,10 +35213,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 806, col: 8, offset: 26015},
 																							expr: &actionExpr{
-																								pos: position{line: 2866, col: 10, offset: 90687},
+																								pos: position{line: 2876, col: 10, offset: 90951},
 																								run: (*parser).callonListContinuationElement1284,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2866, col: 10, offset: 90687},
+																									pos:        position{line: 2876, col: 10, offset: 90951},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35205,28 +35225,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2888, col: 8, offset: 91085},
+																							pos: position{line: 2898, col: 8, offset: 91349},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 90858},
+																									pos: position{line: 2885, col: 12, offset: 91122},
 																									run: (*parser).callonListContinuationElement1287,
 																									expr: &choiceExpr{
-																										pos: position{line: 2875, col: 13, offset: 90859},
+																										pos: position{line: 2885, col: 13, offset: 91123},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 13, offset: 90859},
+																												pos:        position{line: 2885, col: 13, offset: 91123},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 20, offset: 90866},
+																												pos:        position{line: 2885, col: 20, offset: 91130},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2875, col: 29, offset: 90875},
+																												pos:        position{line: 2885, col: 29, offset: 91139},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35235,9 +35255,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2885, col: 8, offset: 91035},
+																									pos: position{line: 2895, col: 8, offset: 91299},
 																									expr: &anyMatcher{
-																										line: 2885, col: 9, offset: 91036,
+																										line: 2895, col: 9, offset: 91300,
 																									},
 																								},
 																							},
@@ -35253,9 +35273,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2885, col: 8, offset: 91035},
+																	pos: position{line: 2895, col: 8, offset: 91299},
 																	expr: &anyMatcher{
-																		line: 2885, col: 9, offset: 91036,
+																		line: 2895, col: 9, offset: 91300,
 																	},
 																},
 															},
@@ -35266,52 +35286,52 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2711, col: 18, offset: 86282},
+										pos: position{line: 2721, col: 18, offset: 86546},
 										run: (*parser).callonListContinuationElement1297,
 										expr: &seqExpr{
-											pos: position{line: 2711, col: 18, offset: 86282},
+											pos: position{line: 2721, col: 18, offset: 86546},
 											exprs: []interface{}{
 												&choiceExpr{
-													pos: position{line: 2712, col: 9, offset: 86292},
+													pos: position{line: 2722, col: 9, offset: 86556},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2712, col: 9, offset: 86292},
+															pos:        position{line: 2722, col: 9, offset: 86556},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2713, col: 11, offset: 86328},
+															pos:        position{line: 2723, col: 11, offset: 86592},
 															val:        "***",
 															ignoreCase: false,
 															want:       "\"***\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2713, col: 19, offset: 86336},
+															pos:        position{line: 2723, col: 19, offset: 86600},
 															val:        "* * *",
 															ignoreCase: false,
 															want:       "\"* * *\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2713, col: 29, offset: 86346},
+															pos:        position{line: 2723, col: 29, offset: 86610},
 															val:        "---",
 															ignoreCase: false,
 															want:       "\"---\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2713, col: 37, offset: 86354},
+															pos:        position{line: 2723, col: 37, offset: 86618},
 															val:        "- - -",
 															ignoreCase: false,
 															want:       "\"- - -\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2713, col: 47, offset: 86364},
+															pos:        position{line: 2723, col: 47, offset: 86628},
 															val:        "___",
 															ignoreCase: false,
 															want:       "\"___\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2713, col: 55, offset: 86372},
+															pos:        position{line: 2723, col: 55, offset: 86636},
 															val:        "_ _ _",
 															ignoreCase: false,
 															want:       "\"_ _ _\"",
@@ -35319,12 +35339,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2714, col: 11, offset: 86418},
+													pos: position{line: 2724, col: 11, offset: 86682},
 													expr: &actionExpr{
-														pos: position{line: 2866, col: 10, offset: 90687},
+														pos: position{line: 2876, col: 10, offset: 90951},
 														run: (*parser).callonListContinuationElement1308,
 														expr: &charClassMatcher{
-															pos:        position{line: 2866, col: 10, offset: 90687},
+															pos:        position{line: 2876, col: 10, offset: 90951},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35333,28 +35353,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2888, col: 8, offset: 91085},
+													pos: position{line: 2898, col: 8, offset: 91349},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2875, col: 12, offset: 90858},
+															pos: position{line: 2885, col: 12, offset: 91122},
 															run: (*parser).callonListContinuationElement1311,
 															expr: &choiceExpr{
-																pos: position{line: 2875, col: 13, offset: 90859},
+																pos: position{line: 2885, col: 13, offset: 91123},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 13, offset: 90859},
+																		pos:        position{line: 2885, col: 13, offset: 91123},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 20, offset: 90866},
+																		pos:        position{line: 2885, col: 20, offset: 91130},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 29, offset: 90875},
+																		pos:        position{line: 2885, col: 29, offset: 91139},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35363,20 +35383,20 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2885, col: 8, offset: 91035},
+															pos: position{line: 2895, col: 8, offset: 91299},
 															expr: &anyMatcher{
-																line: 2885, col: 9, offset: 91036,
+																line: 2895, col: 9, offset: 91300,
 															},
 														},
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2714, col: 22, offset: 86429},
+													pos: position{line: 2724, col: 22, offset: 86693},
 													expr: &actionExpr{
-														pos: position{line: 2866, col: 10, offset: 90687},
+														pos: position{line: 2876, col: 10, offset: 90951},
 														run: (*parser).callonListContinuationElement1319,
 														expr: &charClassMatcher{
-															pos:        position{line: 2866, col: 10, offset: 90687},
+															pos:        position{line: 2876, col: 10, offset: 90951},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35385,28 +35405,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2888, col: 8, offset: 91085},
+													pos: position{line: 2898, col: 8, offset: 91349},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2875, col: 12, offset: 90858},
+															pos: position{line: 2885, col: 12, offset: 91122},
 															run: (*parser).callonListContinuationElement1322,
 															expr: &choiceExpr{
-																pos: position{line: 2875, col: 13, offset: 90859},
+																pos: position{line: 2885, col: 13, offset: 91123},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 13, offset: 90859},
+																		pos:        position{line: 2885, col: 13, offset: 91123},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 20, offset: 90866},
+																		pos:        position{line: 2885, col: 20, offset: 91130},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 29, offset: 90875},
+																		pos:        position{line: 2885, col: 29, offset: 91139},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35415,9 +35435,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2885, col: 8, offset: 91035},
+															pos: position{line: 2895, col: 8, offset: 91299},
 															expr: &anyMatcher{
-																line: 2885, col: 9, offset: 91036,
+																line: 2895, col: 9, offset: 91300,
 															},
 														},
 													},
@@ -35426,28 +35446,28 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1548, col: 11, offset: 50127},
+										pos:  position{line: 1558, col: 11, offset: 50391},
 										name: "ImageBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2602, col: 5, offset: 83218},
+										pos: position{line: 2612, col: 5, offset: 83482},
 										run: (*parser).callonListContinuationElement1330,
 										expr: &seqExpr{
-											pos: position{line: 2602, col: 5, offset: 83218},
+											pos: position{line: 2612, col: 5, offset: 83482},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2608, col: 19, offset: 83375},
+													pos:        position{line: 2618, col: 19, offset: 83639},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2608, col: 26, offset: 83382},
+													pos: position{line: 2618, col: 26, offset: 83646},
 													expr: &actionExpr{
-														pos: position{line: 2866, col: 10, offset: 90687},
+														pos: position{line: 2876, col: 10, offset: 90951},
 														run: (*parser).callonListContinuationElement1334,
 														expr: &charClassMatcher{
-															pos:        position{line: 2866, col: 10, offset: 90687},
+															pos:        position{line: 2876, col: 10, offset: 90951},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35456,28 +35476,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2888, col: 8, offset: 91085},
+													pos: position{line: 2898, col: 8, offset: 91349},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2875, col: 12, offset: 90858},
+															pos: position{line: 2885, col: 12, offset: 91122},
 															run: (*parser).callonListContinuationElement1337,
 															expr: &choiceExpr{
-																pos: position{line: 2875, col: 13, offset: 90859},
+																pos: position{line: 2885, col: 13, offset: 91123},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 13, offset: 90859},
+																		pos:        position{line: 2885, col: 13, offset: 91123},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 20, offset: 90866},
+																		pos:        position{line: 2885, col: 20, offset: 91130},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 29, offset: 90875},
+																		pos:        position{line: 2885, col: 29, offset: 91139},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35486,20 +35506,20 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2885, col: 8, offset: 91035},
+															pos: position{line: 2895, col: 8, offset: 91299},
 															expr: &anyMatcher{
-																line: 2885, col: 9, offset: 91036,
+																line: 2895, col: 9, offset: 91300,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2603, col: 5, offset: 83242},
+													pos:   position{line: 2613, col: 5, offset: 83506},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2603, col: 11, offset: 83248},
+														pos: position{line: 2613, col: 11, offset: 83512},
 														expr: &choiceExpr{
-															pos: position{line: 2603, col: 12, offset: 83249},
+															pos: position{line: 2613, col: 12, offset: 83513},
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 677, col: 14, offset: 21557},
@@ -35508,18 +35528,18 @@ var g = &grammar{
 																		pos: position{line: 677, col: 14, offset: 21557},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2883, col: 11, offset: 91021},
+																				pos: position{line: 2893, col: 11, offset: 91285},
 																				expr: &anyMatcher{
-																					line: 2883, col: 13, offset: 91023,
+																					line: 2893, col: 13, offset: 91287,
 																				},
 																			},
 																			&zeroOrMoreExpr{
 																				pos: position{line: 677, col: 21, offset: 21564},
 																				expr: &actionExpr{
-																					pos: position{line: 2866, col: 10, offset: 90687},
+																					pos: position{line: 2876, col: 10, offset: 90951},
 																					run: (*parser).callonListContinuationElement1352,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2866, col: 10, offset: 90687},
+																						pos:        position{line: 2876, col: 10, offset: 90951},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -35528,28 +35548,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2888, col: 8, offset: 91085},
+																				pos: position{line: 2898, col: 8, offset: 91349},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2875, col: 12, offset: 90858},
+																						pos: position{line: 2885, col: 12, offset: 91122},
 																						run: (*parser).callonListContinuationElement1355,
 																						expr: &choiceExpr{
-																							pos: position{line: 2875, col: 13, offset: 90859},
+																							pos: position{line: 2885, col: 13, offset: 91123},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2875, col: 13, offset: 90859},
+																									pos:        position{line: 2885, col: 13, offset: 91123},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2875, col: 20, offset: 90866},
+																									pos:        position{line: 2885, col: 20, offset: 91130},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2875, col: 29, offset: 90875},
+																									pos:        position{line: 2885, col: 29, offset: 91139},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35558,9 +35578,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2885, col: 8, offset: 91035},
+																						pos: position{line: 2895, col: 8, offset: 91299},
 																						expr: &anyMatcher{
-																							line: 2885, col: 9, offset: 91036,
+																							line: 2895, col: 9, offset: 91300,
 																						},
 																					},
 																				},
@@ -35569,32 +35589,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2615, col: 5, offset: 83494},
+																	pos: position{line: 2625, col: 5, offset: 83758},
 																	run: (*parser).callonListContinuationElement1362,
 																	expr: &seqExpr{
-																		pos: position{line: 2615, col: 5, offset: 83494},
+																		pos: position{line: 2625, col: 5, offset: 83758},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2615, col: 5, offset: 83494},
+																				pos: position{line: 2625, col: 5, offset: 83758},
 																				expr: &choiceExpr{
-																					pos: position{line: 2612, col: 22, offset: 83455},
+																					pos: position{line: 2622, col: 22, offset: 83719},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2608, col: 19, offset: 83375},
+																							pos: position{line: 2618, col: 19, offset: 83639},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2608, col: 19, offset: 83375},
+																									pos:        position{line: 2618, col: 19, offset: 83639},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2608, col: 26, offset: 83382},
+																									pos: position{line: 2618, col: 26, offset: 83646},
 																									expr: &actionExpr{
-																										pos: position{line: 2866, col: 10, offset: 90687},
+																										pos: position{line: 2876, col: 10, offset: 90951},
 																										run: (*parser).callonListContinuationElement1369,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2866, col: 10, offset: 90687},
+																											pos:        position{line: 2876, col: 10, offset: 90951},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -35603,28 +35623,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2888, col: 8, offset: 91085},
+																									pos: position{line: 2898, col: 8, offset: 91349},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2875, col: 12, offset: 90858},
+																											pos: position{line: 2885, col: 12, offset: 91122},
 																											run: (*parser).callonListContinuationElement1372,
 																											expr: &choiceExpr{
-																												pos: position{line: 2875, col: 13, offset: 90859},
+																												pos: position{line: 2885, col: 13, offset: 91123},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 13, offset: 90859},
+																														pos:        position{line: 2885, col: 13, offset: 91123},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 20, offset: 90866},
+																														pos:        position{line: 2885, col: 20, offset: 91130},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2875, col: 29, offset: 90875},
+																														pos:        position{line: 2885, col: 29, offset: 91139},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -35633,9 +35653,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2885, col: 8, offset: 91035},
+																											pos: position{line: 2895, col: 8, offset: 91299},
 																											expr: &anyMatcher{
-																												line: 2885, col: 9, offset: 91036,
+																												line: 2895, col: 9, offset: 91300,
 																											},
 																										},
 																									},
@@ -35643,59 +35663,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2885, col: 8, offset: 91035},
+																							pos: position{line: 2895, col: 8, offset: 91299},
 																							expr: &anyMatcher{
-																								line: 2885, col: 9, offset: 91036,
+																								line: 2895, col: 9, offset: 91300,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2616, col: 5, offset: 83517},
+																				pos:   position{line: 2626, col: 5, offset: 83781},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2617, col: 9, offset: 83535},
+																					pos: position{line: 2627, col: 9, offset: 83799},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2617, col: 10, offset: 83536},
+																							pos: position{line: 2627, col: 10, offset: 83800},
 																							run: (*parser).callonListContinuationElement1383,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2617, col: 10, offset: 83536},
+																								pos:   position{line: 2627, col: 10, offset: 83800},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2617, col: 17, offset: 83543},
+																									pos: position{line: 2627, col: 17, offset: 83807},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2625, col: 21, offset: 83739},
+																											pos: position{line: 2635, col: 21, offset: 84003},
 																											run: (*parser).callonListContinuationElement1386,
 																											expr: &seqExpr{
-																												pos: position{line: 2625, col: 21, offset: 83739},
+																												pos: position{line: 2635, col: 21, offset: 84003},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2625, col: 21, offset: 83739},
+																														pos:   position{line: 2635, col: 21, offset: 84003},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2625, col: 27, offset: 83745},
+																															pos: position{line: 2635, col: 27, offset: 84009},
 																															expr: &actionExpr{
-																																pos: position{line: 2630, col: 5, offset: 83820},
+																																pos: position{line: 2640, col: 5, offset: 84084},
 																																run: (*parser).callonListContinuationElement1390,
 																																expr: &seqExpr{
-																																	pos: position{line: 2630, col: 5, offset: 83820},
+																																	pos: position{line: 2640, col: 5, offset: 84084},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2630, col: 5, offset: 83820},
+																																			pos:        position{line: 2640, col: 5, offset: 84084},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2630, col: 9, offset: 83824},
+																																			pos: position{line: 2640, col: 9, offset: 84088},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2866, col: 10, offset: 90687},
+																																				pos: position{line: 2876, col: 10, offset: 90951},
 																																				run: (*parser).callonListContinuationElement1394,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2866, col: 10, offset: 90687},
+																																					pos:        position{line: 2876, col: 10, offset: 90951},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -35704,21 +35724,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2630, col: 16, offset: 83831},
+																																			pos:   position{line: 2640, col: 16, offset: 84095},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2636, col: 5, offset: 84031},
+																																				pos: position{line: 2646, col: 5, offset: 84295},
 																																				run: (*parser).callonListContinuationElement1397,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2636, col: 5, offset: 84031},
+																																					pos:   position{line: 2646, col: 5, offset: 84295},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2636, col: 14, offset: 84040},
+																																						pos: position{line: 2646, col: 14, offset: 84304},
 																																						run: (*parser).callonListContinuationElement1399,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2636, col: 14, offset: 84040},
+																																							pos: position{line: 2646, col: 14, offset: 84304},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2636, col: 14, offset: 84040},
+																																								pos:        position{line: 2646, col: 14, offset: 84304},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -35735,28 +35755,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2888, col: 8, offset: 91085},
+																														pos: position{line: 2898, col: 8, offset: 91349},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2875, col: 12, offset: 90858},
+																																pos: position{line: 2885, col: 12, offset: 91122},
 																																run: (*parser).callonListContinuationElement1403,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2875, col: 13, offset: 90859},
+																																	pos: position{line: 2885, col: 13, offset: 91123},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2875, col: 13, offset: 90859},
+																																			pos:        position{line: 2885, col: 13, offset: 91123},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2875, col: 20, offset: 90866},
+																																			pos:        position{line: 2885, col: 20, offset: 91130},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2875, col: 29, offset: 90875},
+																																			pos:        position{line: 2885, col: 29, offset: 91139},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -35765,9 +35785,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2885, col: 8, offset: 91035},
+																																pos: position{line: 2895, col: 8, offset: 91299},
 																																expr: &anyMatcher{
-																																	line: 2885, col: 9, offset: 91036,
+																																	line: 2895, col: 9, offset: 91300,
 																																},
 																															},
 																														},
@@ -35776,40 +35796,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2642, col: 24, offset: 84176},
+																											pos: position{line: 2652, col: 24, offset: 84440},
 																											run: (*parser).callonListContinuationElement1410,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2642, col: 24, offset: 84176},
+																												pos:   position{line: 2652, col: 24, offset: 84440},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2642, col: 30, offset: 84182},
+																													pos: position{line: 2652, col: 30, offset: 84446},
 																													expr: &actionExpr{
-																														pos: position{line: 2647, col: 5, offset: 84258},
+																														pos: position{line: 2657, col: 5, offset: 84522},
 																														run: (*parser).callonListContinuationElement1413,
 																														expr: &seqExpr{
-																															pos: position{line: 2647, col: 5, offset: 84258},
+																															pos: position{line: 2657, col: 5, offset: 84522},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2647, col: 5, offset: 84258},
+																																	pos: position{line: 2657, col: 5, offset: 84522},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2612, col: 22, offset: 83455},
+																																		pos: position{line: 2622, col: 22, offset: 83719},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2608, col: 19, offset: 83375},
+																																				pos: position{line: 2618, col: 19, offset: 83639},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2608, col: 19, offset: 83375},
+																																						pos:        position{line: 2618, col: 19, offset: 83639},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2608, col: 26, offset: 83382},
+																																						pos: position{line: 2618, col: 26, offset: 83646},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2866, col: 10, offset: 90687},
+																																							pos: position{line: 2876, col: 10, offset: 90951},
 																																							run: (*parser).callonListContinuationElement1420,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2866, col: 10, offset: 90687},
+																																								pos:        position{line: 2876, col: 10, offset: 90951},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -35818,28 +35838,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2888, col: 8, offset: 91085},
+																																						pos: position{line: 2898, col: 8, offset: 91349},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2875, col: 12, offset: 90858},
+																																								pos: position{line: 2885, col: 12, offset: 91122},
 																																								run: (*parser).callonListContinuationElement1423,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2875, col: 13, offset: 90859},
+																																									pos: position{line: 2885, col: 13, offset: 91123},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2875, col: 13, offset: 90859},
+																																											pos:        position{line: 2885, col: 13, offset: 91123},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2875, col: 20, offset: 90866},
+																																											pos:        position{line: 2885, col: 20, offset: 91130},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2875, col: 29, offset: 90875},
+																																											pos:        position{line: 2885, col: 29, offset: 91139},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -35848,9 +35868,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2885, col: 8, offset: 91035},
+																																								pos: position{line: 2895, col: 8, offset: 91299},
 																																								expr: &anyMatcher{
-																																									line: 2885, col: 9, offset: 91036,
+																																									line: 2895, col: 9, offset: 91300,
 																																								},
 																																							},
 																																						},
@@ -35858,16 +35878,16 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2885, col: 8, offset: 91035},
+																																				pos: position{line: 2895, col: 8, offset: 91299},
 																																				expr: &anyMatcher{
-																																					line: 2885, col: 9, offset: 91036,
+																																					line: 2895, col: 9, offset: 91300,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2648, col: 5, offset: 84281},
+																																	pos: position{line: 2658, col: 5, offset: 84545},
 																																	expr: &actionExpr{
 																																		pos: position{line: 677, col: 14, offset: 21557},
 																																		run: (*parser).callonListContinuationElement1433,
@@ -35875,18 +35895,18 @@ var g = &grammar{
 																																			pos: position{line: 677, col: 14, offset: 21557},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2883, col: 11, offset: 91021},
+																																					pos: position{line: 2893, col: 11, offset: 91285},
 																																					expr: &anyMatcher{
-																																						line: 2883, col: 13, offset: 91023,
+																																						line: 2893, col: 13, offset: 91287,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
 																																					pos: position{line: 677, col: 21, offset: 21564},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2866, col: 10, offset: 90687},
+																																						pos: position{line: 2876, col: 10, offset: 90951},
 																																						run: (*parser).callonListContinuationElement1438,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2866, col: 10, offset: 90687},
+																																							pos:        position{line: 2876, col: 10, offset: 90951},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -35895,28 +35915,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2888, col: 8, offset: 91085},
+																																					pos: position{line: 2898, col: 8, offset: 91349},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2875, col: 12, offset: 90858},
+																																							pos: position{line: 2885, col: 12, offset: 91122},
 																																							run: (*parser).callonListContinuationElement1441,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2875, col: 13, offset: 90859},
+																																								pos: position{line: 2885, col: 13, offset: 91123},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2875, col: 13, offset: 90859},
+																																										pos:        position{line: 2885, col: 13, offset: 91123},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2875, col: 20, offset: 90866},
+																																										pos:        position{line: 2885, col: 20, offset: 91130},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2875, col: 29, offset: 90875},
+																																										pos:        position{line: 2885, col: 29, offset: 91139},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -35925,9 +35945,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2885, col: 8, offset: 91035},
+																																							pos: position{line: 2895, col: 8, offset: 91299},
 																																							expr: &anyMatcher{
-																																								line: 2885, col: 9, offset: 91036,
+																																								line: 2895, col: 9, offset: 91300,
 																																							},
 																																						},
 																																					},
@@ -35937,17 +35957,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2649, col: 5, offset: 84296},
+																																	pos:   position{line: 2659, col: 5, offset: 84560},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2649, col: 12, offset: 84303},
+																																		pos: position{line: 2659, col: 12, offset: 84567},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2666, col: 20, offset: 84767},
+																																			pos: position{line: 2676, col: 20, offset: 85031},
 																																			run: (*parser).callonListContinuationElement1450,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2666, col: 20, offset: 84767},
+																																				pos: position{line: 2676, col: 20, offset: 85031},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2666, col: 20, offset: 84767},
+																																					pos:        position{line: 2676, col: 20, offset: 85031},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -35958,18 +35978,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2649, col: 31, offset: 84322},
+																																	pos:        position{line: 2659, col: 31, offset: 84586},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2649, col: 35, offset: 84326},
+																																	pos: position{line: 2659, col: 35, offset: 84590},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2866, col: 10, offset: 90687},
+																																		pos: position{line: 2876, col: 10, offset: 90951},
 																																		run: (*parser).callonListContinuationElement1455,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2866, col: 10, offset: 90687},
+																																			pos:        position{line: 2876, col: 10, offset: 90951},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -35978,27 +35998,27 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2649, col: 42, offset: 84333},
+																																	pos: position{line: 2659, col: 42, offset: 84597},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2875, col: 12, offset: 90858},
+																																		pos: position{line: 2885, col: 12, offset: 91122},
 																																		run: (*parser).callonListContinuationElement1458,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2875, col: 13, offset: 90859},
+																																			pos: position{line: 2885, col: 13, offset: 91123},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2875, col: 13, offset: 90859},
+																																					pos:        position{line: 2885, col: 13, offset: 91123},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2875, col: 20, offset: 90866},
+																																					pos:        position{line: 2885, col: 20, offset: 91130},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2875, col: 29, offset: 90875},
+																																					pos:        position{line: 2885, col: 29, offset: 91139},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -36008,37 +36028,37 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2649, col: 51, offset: 84342},
+																																	pos:   position{line: 2659, col: 51, offset: 84606},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2655, col: 5, offset: 84501},
+																																		pos: position{line: 2665, col: 5, offset: 84765},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2656, col: 9, offset: 84511},
+																																			pos: position{line: 2666, col: 9, offset: 84775},
 																																			run: (*parser).callonListContinuationElement1465,
 																																			expr: &seqExpr{
-																																				pos: position{line: 2656, col: 9, offset: 84511},
+																																				pos: position{line: 2666, col: 9, offset: 84775},
 																																				exprs: []interface{}{
 																																					&notExpr{
-																																						pos: position{line: 2656, col: 9, offset: 84511},
+																																						pos: position{line: 2666, col: 9, offset: 84775},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2612, col: 22, offset: 83455},
+																																							pos: position{line: 2622, col: 22, offset: 83719},
 																																							alternatives: []interface{}{
 																																								&seqExpr{
-																																									pos: position{line: 2608, col: 19, offset: 83375},
+																																									pos: position{line: 2618, col: 19, offset: 83639},
 																																									exprs: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2608, col: 19, offset: 83375},
+																																											pos:        position{line: 2618, col: 19, offset: 83639},
 																																											val:        "|===",
 																																											ignoreCase: false,
 																																											want:       "\"|===\"",
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 2608, col: 26, offset: 83382},
+																																											pos: position{line: 2618, col: 26, offset: 83646},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2866, col: 10, offset: 90687},
+																																												pos: position{line: 2876, col: 10, offset: 90951},
 																																												run: (*parser).callonListContinuationElement1472,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2866, col: 10, offset: 90687},
+																																													pos:        position{line: 2876, col: 10, offset: 90951},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -36047,28 +36067,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2888, col: 8, offset: 91085},
+																																											pos: position{line: 2898, col: 8, offset: 91349},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2875, col: 12, offset: 90858},
+																																													pos: position{line: 2885, col: 12, offset: 91122},
 																																													run: (*parser).callonListContinuationElement1475,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2875, col: 13, offset: 90859},
+																																														pos: position{line: 2885, col: 13, offset: 91123},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2875, col: 13, offset: 90859},
+																																																pos:        position{line: 2885, col: 13, offset: 91123},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2875, col: 20, offset: 90866},
+																																																pos:        position{line: 2885, col: 20, offset: 91130},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2875, col: 29, offset: 90875},
+																																																pos:        position{line: 2885, col: 29, offset: 91139},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -36077,9 +36097,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2885, col: 8, offset: 91035},
+																																													pos: position{line: 2895, col: 8, offset: 91299},
 																																													expr: &anyMatcher{
-																																														line: 2885, col: 9, offset: 91036,
+																																														line: 2895, col: 9, offset: 91300,
 																																													},
 																																												},
 																																											},
@@ -36087,16 +36107,16 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2885, col: 8, offset: 91035},
+																																									pos: position{line: 2895, col: 8, offset: 91299},
 																																									expr: &anyMatcher{
-																																										line: 2885, col: 9, offset: 91036,
+																																										line: 2895, col: 9, offset: 91300,
 																																									},
 																																								},
 																																							},
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2657, col: 9, offset: 84538},
+																																						pos: position{line: 2667, col: 9, offset: 84802},
 																																						expr: &actionExpr{
 																																							pos: position{line: 677, col: 14, offset: 21557},
 																																							run: (*parser).callonListContinuationElement1485,
@@ -36104,18 +36124,18 @@ var g = &grammar{
 																																								pos: position{line: 677, col: 14, offset: 21557},
 																																								exprs: []interface{}{
 																																									&andExpr{
-																																										pos: position{line: 2883, col: 11, offset: 91021},
+																																										pos: position{line: 2893, col: 11, offset: 91285},
 																																										expr: &anyMatcher{
-																																											line: 2883, col: 13, offset: 91023,
+																																											line: 2893, col: 13, offset: 91287,
 																																										},
 																																									},
 																																									&zeroOrMoreExpr{
 																																										pos: position{line: 677, col: 21, offset: 21564},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2866, col: 10, offset: 90687},
+																																											pos: position{line: 2876, col: 10, offset: 90951},
 																																											run: (*parser).callonListContinuationElement1490,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2866, col: 10, offset: 90687},
+																																												pos:        position{line: 2876, col: 10, offset: 90951},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -36124,28 +36144,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2888, col: 8, offset: 91085},
+																																										pos: position{line: 2898, col: 8, offset: 91349},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2875, col: 12, offset: 90858},
+																																												pos: position{line: 2885, col: 12, offset: 91122},
 																																												run: (*parser).callonListContinuationElement1493,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2875, col: 13, offset: 90859},
+																																													pos: position{line: 2885, col: 13, offset: 91123},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2875, col: 13, offset: 90859},
+																																															pos:        position{line: 2885, col: 13, offset: 91123},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2875, col: 20, offset: 90866},
+																																															pos:        position{line: 2885, col: 20, offset: 91130},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2875, col: 29, offset: 90875},
+																																															pos:        position{line: 2885, col: 29, offset: 91139},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -36154,9 +36174,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2885, col: 8, offset: 91035},
+																																												pos: position{line: 2895, col: 8, offset: 91299},
 																																												expr: &anyMatcher{
-																																													line: 2885, col: 9, offset: 91036,
+																																													line: 2895, col: 9, offset: 91300,
 																																												},
 																																											},
 																																										},
@@ -36166,22 +36186,22 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2658, col: 9, offset: 84557},
+																																						pos: position{line: 2668, col: 9, offset: 84821},
 																																						expr: &seqExpr{
-																																							pos: position{line: 2658, col: 11, offset: 84559},
+																																							pos: position{line: 2668, col: 11, offset: 84823},
 																																							exprs: []interface{}{
 																																								&labeledExpr{
-																																									pos:   position{line: 2658, col: 11, offset: 84559},
+																																									pos:   position{line: 2668, col: 11, offset: 84823},
 																																									label: "format",
 																																									expr: &zeroOrOneExpr{
-																																										pos: position{line: 2658, col: 18, offset: 84566},
+																																										pos: position{line: 2668, col: 18, offset: 84830},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2666, col: 20, offset: 84767},
+																																											pos: position{line: 2676, col: 20, offset: 85031},
 																																											run: (*parser).callonListContinuationElement1504,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2666, col: 20, offset: 84767},
+																																												pos: position{line: 2676, col: 20, offset: 85031},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2666, col: 20, offset: 84767},
+																																													pos:        position{line: 2676, col: 20, offset: 85031},
 																																													val:        "[^ |\\r\\n]",
 																																													chars:      []rune{' ', '|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -36192,7 +36212,7 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&litMatcher{
-																																									pos:        position{line: 2658, col: 37, offset: 84585},
+																																									pos:        position{line: 2668, col: 37, offset: 84849},
 																																									val:        "|",
 																																									ignoreCase: false,
 																																									want:       "\"|\"",
@@ -36201,15 +36221,15 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2659, col: 9, offset: 84598},
+																																						pos:   position{line: 2669, col: 9, offset: 84862},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2659, col: 18, offset: 84607},
+																																							pos: position{line: 2669, col: 18, offset: 84871},
 																																							run: (*parser).callonListContinuationElement1509,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2659, col: 18, offset: 84607},
+																																								pos: position{line: 2669, col: 18, offset: 84871},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2659, col: 18, offset: 84607},
+																																									pos:        position{line: 2669, col: 18, offset: 84871},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -36219,30 +36239,30 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&zeroOrOneExpr{
-																																						pos: position{line: 2661, col: 12, offset: 84669},
+																																						pos: position{line: 2671, col: 12, offset: 84933},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2888, col: 8, offset: 91085},
+																																							pos: position{line: 2898, col: 8, offset: 91349},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2875, col: 12, offset: 90858},
+																																									pos: position{line: 2885, col: 12, offset: 91122},
 																																									run: (*parser).callonListContinuationElement1514,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2875, col: 13, offset: 90859},
+																																										pos: position{line: 2885, col: 13, offset: 91123},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2875, col: 13, offset: 90859},
+																																												pos:        position{line: 2885, col: 13, offset: 91123},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2875, col: 20, offset: 90866},
+																																												pos:        position{line: 2885, col: 20, offset: 91130},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2875, col: 29, offset: 90875},
+																																												pos:        position{line: 2885, col: 29, offset: 91139},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -36251,9 +36271,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2885, col: 8, offset: 91035},
+																																									pos: position{line: 2895, col: 8, offset: 91299},
 																																									expr: &anyMatcher{
-																																										line: 2885, col: 9, offset: 91036,
+																																										line: 2895, col: 9, offset: 91300,
 																																									},
 																																								},
 																																							},
@@ -36281,18 +36301,18 @@ var g = &grammar{
 																								pos: position{line: 677, col: 14, offset: 21557},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2883, col: 11, offset: 91021},
+																										pos: position{line: 2893, col: 11, offset: 91285},
 																										expr: &anyMatcher{
-																											line: 2883, col: 13, offset: 91023,
+																											line: 2893, col: 13, offset: 91287,
 																										},
 																									},
 																									&zeroOrMoreExpr{
 																										pos: position{line: 677, col: 21, offset: 21564},
 																										expr: &actionExpr{
-																											pos: position{line: 2866, col: 10, offset: 90687},
+																											pos: position{line: 2876, col: 10, offset: 90951},
 																											run: (*parser).callonListContinuationElement1526,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2866, col: 10, offset: 90687},
+																												pos:        position{line: 2876, col: 10, offset: 90951},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -36301,28 +36321,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2888, col: 8, offset: 91085},
+																										pos: position{line: 2898, col: 8, offset: 91349},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2875, col: 12, offset: 90858},
+																												pos: position{line: 2885, col: 12, offset: 91122},
 																												run: (*parser).callonListContinuationElement1529,
 																												expr: &choiceExpr{
-																													pos: position{line: 2875, col: 13, offset: 90859},
+																													pos: position{line: 2885, col: 13, offset: 91123},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2875, col: 13, offset: 90859},
+																															pos:        position{line: 2885, col: 13, offset: 91123},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2875, col: 20, offset: 90866},
+																															pos:        position{line: 2885, col: 20, offset: 91130},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2875, col: 29, offset: 90875},
+																															pos:        position{line: 2885, col: 29, offset: 91139},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -36331,9 +36351,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2885, col: 8, offset: 91035},
+																												pos: position{line: 2895, col: 8, offset: 91299},
 																												expr: &anyMatcher{
-																													line: 2885, col: 9, offset: 91036,
+																													line: 2895, col: 9, offset: 91300,
 																												},
 																											},
 																										},
@@ -36352,24 +36372,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2612, col: 22, offset: 83455},
+													pos: position{line: 2622, col: 22, offset: 83719},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2608, col: 19, offset: 83375},
+															pos: position{line: 2618, col: 19, offset: 83639},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2608, col: 19, offset: 83375},
+																	pos:        position{line: 2618, col: 19, offset: 83639},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2608, col: 26, offset: 83382},
+																	pos: position{line: 2618, col: 26, offset: 83646},
 																	expr: &actionExpr{
-																		pos: position{line: 2866, col: 10, offset: 90687},
+																		pos: position{line: 2876, col: 10, offset: 90951},
 																		run: (*parser).callonListContinuationElement1540,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2866, col: 10, offset: 90687},
+																			pos:        position{line: 2876, col: 10, offset: 90951},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -36378,28 +36398,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2888, col: 8, offset: 91085},
+																	pos: position{line: 2898, col: 8, offset: 91349},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2875, col: 12, offset: 90858},
+																			pos: position{line: 2885, col: 12, offset: 91122},
 																			run: (*parser).callonListContinuationElement1543,
 																			expr: &choiceExpr{
-																				pos: position{line: 2875, col: 13, offset: 90859},
+																				pos: position{line: 2885, col: 13, offset: 91123},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 13, offset: 90859},
+																						pos:        position{line: 2885, col: 13, offset: 91123},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 20, offset: 90866},
+																						pos:        position{line: 2885, col: 20, offset: 91130},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 29, offset: 90875},
+																						pos:        position{line: 2885, col: 29, offset: 91139},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36408,9 +36428,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2885, col: 8, offset: 91035},
+																			pos: position{line: 2895, col: 8, offset: 91299},
 																			expr: &anyMatcher{
-																				line: 2885, col: 9, offset: 91036,
+																				line: 2895, col: 9, offset: 91300,
 																			},
 																		},
 																	},
@@ -36418,9 +36438,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2885, col: 8, offset: 91035},
+															pos: position{line: 2895, col: 8, offset: 91299},
 															expr: &anyMatcher{
-																line: 2885, col: 9, offset: 91036,
+																line: 2895, col: 9, offset: 91300,
 															},
 														},
 													},
@@ -36429,36 +36449,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2473, col: 22, offset: 79594},
+										pos: position{line: 2483, col: 22, offset: 79858},
 										run: (*parser).callonListContinuationElement1552,
 										expr: &seqExpr{
-											pos: position{line: 2473, col: 22, offset: 79594},
+											pos: position{line: 2483, col: 22, offset: 79858},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2478, col: 31, offset: 79815},
+													pos:        position{line: 2488, col: 31, offset: 80079},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2478, col: 36, offset: 79820},
+													pos: position{line: 2488, col: 36, offset: 80084},
 													expr: &litMatcher{
-														pos:        position{line: 2478, col: 37, offset: 79821},
+														pos:        position{line: 2488, col: 37, offset: 80085},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2473, col: 49, offset: 79621},
+													pos:   position{line: 2483, col: 49, offset: 79885},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2812, col: 13, offset: 89213},
+														pos: position{line: 2822, col: 13, offset: 89477},
 														run: (*parser).callonListContinuationElement1558,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2812, col: 13, offset: 89213},
+															pos: position{line: 2822, col: 13, offset: 89477},
 															expr: &charClassMatcher{
-																pos:        position{line: 2812, col: 13, offset: 89213},
+																pos:        position{line: 2822, col: 13, offset: 89477},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -36468,28 +36488,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2888, col: 8, offset: 91085},
+													pos: position{line: 2898, col: 8, offset: 91349},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2875, col: 12, offset: 90858},
+															pos: position{line: 2885, col: 12, offset: 91122},
 															run: (*parser).callonListContinuationElement1562,
 															expr: &choiceExpr{
-																pos: position{line: 2875, col: 13, offset: 90859},
+																pos: position{line: 2885, col: 13, offset: 91123},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 13, offset: 90859},
+																		pos:        position{line: 2885, col: 13, offset: 91123},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 20, offset: 90866},
+																		pos:        position{line: 2885, col: 20, offset: 91130},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 29, offset: 90875},
+																		pos:        position{line: 2885, col: 29, offset: 91139},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36498,9 +36518,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2885, col: 8, offset: 91035},
+															pos: position{line: 2895, col: 8, offset: 91299},
 															expr: &anyMatcher{
-																line: 2885, col: 9, offset: 91036,
+																line: 2895, col: 9, offset: 91300,
 															},
 														},
 													},
@@ -36509,94 +36529,94 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1561, col: 5, offset: 50557},
+										pos: position{line: 1571, col: 5, offset: 50821},
 										run: (*parser).callonListContinuationElement1569,
 										expr: &seqExpr{
-											pos: position{line: 1561, col: 5, offset: 50557},
+											pos: position{line: 1571, col: 5, offset: 50821},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1561, col: 5, offset: 50557},
+													pos:   position{line: 1571, col: 5, offset: 50821},
 													label: "style",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1561, col: 11, offset: 50563},
+														pos: position{line: 1571, col: 11, offset: 50827},
 														expr: &actionExpr{
-															pos: position{line: 1726, col: 5, offset: 55912},
+															pos: position{line: 1736, col: 5, offset: 56176},
 															run: (*parser).callonListContinuationElement1573,
 															expr: &seqExpr{
-																pos: position{line: 1726, col: 5, offset: 55912},
+																pos: position{line: 1736, col: 5, offset: 56176},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1726, col: 5, offset: 55912},
+																		pos: position{line: 1736, col: 5, offset: 56176},
 																		run: (*parser).callonListContinuationElement1575,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1729, col: 5, offset: 55975},
+																		pos:   position{line: 1739, col: 5, offset: 56239},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1729, col: 12, offset: 55982},
+																			pos: position{line: 1739, col: 12, offset: 56246},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1729, col: 12, offset: 55982},
+																					pos: position{line: 1739, col: 12, offset: 56246},
 																					run: (*parser).callonListContinuationElement1578,
 																					expr: &litMatcher{
-																						pos:        position{line: 1729, col: 12, offset: 55982},
+																						pos:        position{line: 1739, col: 12, offset: 56246},
 																						val:        "TIP: ",
 																						ignoreCase: false,
 																						want:       "\"TIP: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1731, col: 13, offset: 56038},
+																					pos: position{line: 1741, col: 13, offset: 56302},
 																					run: (*parser).callonListContinuationElement1580,
 																					expr: &litMatcher{
-																						pos:        position{line: 1731, col: 13, offset: 56038},
+																						pos:        position{line: 1741, col: 13, offset: 56302},
 																						val:        "NOTE: ",
 																						ignoreCase: false,
 																						want:       "\"NOTE: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1733, col: 13, offset: 56096},
+																					pos: position{line: 1743, col: 13, offset: 56360},
 																					run: (*parser).callonListContinuationElement1582,
 																					expr: &litMatcher{
-																						pos:        position{line: 1733, col: 13, offset: 56096},
+																						pos:        position{line: 1743, col: 13, offset: 56360},
 																						val:        "IMPORTANT: ",
 																						ignoreCase: false,
 																						want:       "\"IMPORTANT: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1735, col: 13, offset: 56164},
+																					pos: position{line: 1745, col: 13, offset: 56428},
 																					run: (*parser).callonListContinuationElement1584,
 																					expr: &litMatcher{
-																						pos:        position{line: 1735, col: 13, offset: 56164},
+																						pos:        position{line: 1745, col: 13, offset: 56428},
 																						val:        "WARNING: ",
 																						ignoreCase: false,
 																						want:       "\"WARNING: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1737, col: 13, offset: 56228},
+																					pos: position{line: 1747, col: 13, offset: 56492},
 																					run: (*parser).callonListContinuationElement1586,
 																					expr: &litMatcher{
-																						pos:        position{line: 1737, col: 13, offset: 56228},
+																						pos:        position{line: 1747, col: 13, offset: 56492},
 																						val:        "CAUTION: ",
 																						ignoreCase: false,
 																						want:       "\"CAUTION: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1739, col: 13, offset: 56292},
+																					pos: position{line: 1749, col: 13, offset: 56556},
 																					run: (*parser).callonListContinuationElement1588,
 																					expr: &andExpr{
-																						pos: position{line: 1739, col: 13, offset: 56292},
+																						pos: position{line: 1749, col: 13, offset: 56556},
 																						expr: &actionExpr{
-																							pos: position{line: 2870, col: 11, offset: 90748},
+																							pos: position{line: 2880, col: 11, offset: 91012},
 																							run: (*parser).callonListContinuationElement1590,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2870, col: 11, offset: 90748},
+																								pos: position{line: 2880, col: 11, offset: 91012},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2870, col: 11, offset: 90748},
+																									pos:        position{line: 2880, col: 11, offset: 91012},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36610,17 +36630,17 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1741, col: 12, offset: 56362},
+																		pos: position{line: 1751, col: 12, offset: 56626},
 																		expr: &seqExpr{
-																			pos: position{line: 1741, col: 14, offset: 56364},
+																			pos: position{line: 1751, col: 14, offset: 56628},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1741, col: 14, offset: 56364},
+																					pos: position{line: 1751, col: 14, offset: 56628},
 																					expr: &actionExpr{
-																						pos: position{line: 2866, col: 10, offset: 90687},
+																						pos: position{line: 2876, col: 10, offset: 90951},
 																						run: (*parser).callonListContinuationElement1596,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2866, col: 10, offset: 90687},
+																							pos:        position{line: 2876, col: 10, offset: 90951},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36629,28 +36649,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2888, col: 8, offset: 91085},
+																					pos: position{line: 2898, col: 8, offset: 91349},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2875, col: 12, offset: 90858},
+																							pos: position{line: 2885, col: 12, offset: 91122},
 																							run: (*parser).callonListContinuationElement1599,
 																							expr: &choiceExpr{
-																								pos: position{line: 2875, col: 13, offset: 90859},
+																								pos: position{line: 2885, col: 13, offset: 91123},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 13, offset: 90859},
+																										pos:        position{line: 2885, col: 13, offset: 91123},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 20, offset: 90866},
+																										pos:        position{line: 2885, col: 20, offset: 91130},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 29, offset: 90875},
+																										pos:        position{line: 2885, col: 29, offset: 91139},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -36659,9 +36679,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2885, col: 8, offset: 91035},
+																							pos: position{line: 2895, col: 8, offset: 91299},
 																							expr: &anyMatcher{
-																								line: 2885, col: 9, offset: 91036,
+																								line: 2895, col: 9, offset: 91300,
 																							},
 																						},
 																					},
@@ -36675,16 +36695,16 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1562, col: 5, offset: 50586},
+													pos:   position{line: 1572, col: 5, offset: 50850},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1505, col: 5, offset: 48936},
+														pos: position{line: 1515, col: 5, offset: 49200},
 														run: (*parser).callonListContinuationElement1607,
 														expr: &seqExpr{
-															pos: position{line: 1505, col: 5, offset: 48936},
+															pos: position{line: 1515, col: 5, offset: 49200},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1505, col: 5, offset: 48936},
+																	pos: position{line: 1515, col: 5, offset: 49200},
 																	expr: &actionExpr{
 																		pos: position{line: 677, col: 14, offset: 21557},
 																		run: (*parser).callonListContinuationElement1610,
@@ -36692,18 +36712,18 @@ var g = &grammar{
 																			pos: position{line: 677, col: 14, offset: 21557},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2883, col: 11, offset: 91021},
+																					pos: position{line: 2893, col: 11, offset: 91285},
 																					expr: &anyMatcher{
-																						line: 2883, col: 13, offset: 91023,
+																						line: 2893, col: 13, offset: 91287,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21564},
 																					expr: &actionExpr{
-																						pos: position{line: 2866, col: 10, offset: 90687},
+																						pos: position{line: 2876, col: 10, offset: 90951},
 																						run: (*parser).callonListContinuationElement1615,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2866, col: 10, offset: 90687},
+																							pos:        position{line: 2876, col: 10, offset: 90951},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36712,28 +36732,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2888, col: 8, offset: 91085},
+																					pos: position{line: 2898, col: 8, offset: 91349},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2875, col: 12, offset: 90858},
+																							pos: position{line: 2885, col: 12, offset: 91122},
 																							run: (*parser).callonListContinuationElement1618,
 																							expr: &choiceExpr{
-																								pos: position{line: 2875, col: 13, offset: 90859},
+																								pos: position{line: 2885, col: 13, offset: 91123},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 13, offset: 90859},
+																										pos:        position{line: 2885, col: 13, offset: 91123},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 20, offset: 90866},
+																										pos:        position{line: 2885, col: 20, offset: 91130},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 29, offset: 90875},
+																										pos:        position{line: 2885, col: 29, offset: 91139},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -36742,9 +36762,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2885, col: 8, offset: 91035},
+																							pos: position{line: 2895, col: 8, offset: 91299},
 																							expr: &anyMatcher{
-																								line: 2885, col: 9, offset: 91036,
+																								line: 2895, col: 9, offset: 91300,
 																							},
 																						},
 																					},
@@ -36754,23 +36774,23 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1506, col: 5, offset: 48951},
+																	pos: position{line: 1516, col: 5, offset: 49215},
 																	expr: &seqExpr{
-																		pos: position{line: 1536, col: 27, offset: 49777},
+																		pos: position{line: 1546, col: 27, offset: 50041},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1536, col: 27, offset: 49777},
+																				pos:        position{line: 1546, col: 27, offset: 50041},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 1536, col: 31, offset: 49781},
+																				pos: position{line: 1546, col: 31, offset: 50045},
 																				expr: &actionExpr{
-																					pos: position{line: 2866, col: 10, offset: 90687},
+																					pos: position{line: 2876, col: 10, offset: 90951},
 																					run: (*parser).callonListContinuationElement1629,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2866, col: 10, offset: 90687},
+																						pos:        position{line: 2876, col: 10, offset: 90951},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -36779,25 +36799,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2875, col: 12, offset: 90858},
+																				pos: position{line: 2885, col: 12, offset: 91122},
 																				run: (*parser).callonListContinuationElement1631,
 																				expr: &choiceExpr{
-																					pos: position{line: 2875, col: 13, offset: 90859},
+																					pos: position{line: 2885, col: 13, offset: 91123},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 13, offset: 90859},
+																							pos:        position{line: 2885, col: 13, offset: 91123},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 20, offset: 90866},
+																							pos:        position{line: 2885, col: 20, offset: 91130},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 29, offset: 90875},
+																							pos:        position{line: 2885, col: 29, offset: 91139},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -36809,20 +36829,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1507, col: 5, offset: 48979},
+																	pos: position{line: 1517, col: 5, offset: 49243},
 																	expr: &actionExpr{
-																		pos: position{line: 1577, col: 5, offset: 50996},
+																		pos: position{line: 1587, col: 5, offset: 51260},
 																		run: (*parser).callonListContinuationElement1637,
 																		expr: &seqExpr{
-																			pos: position{line: 1577, col: 5, offset: 50996},
+																			pos: position{line: 1587, col: 5, offset: 51260},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1577, col: 5, offset: 50996},
+																					pos: position{line: 1587, col: 5, offset: 51260},
 																					expr: &actionExpr{
-																						pos: position{line: 2866, col: 10, offset: 90687},
+																						pos: position{line: 2876, col: 10, offset: 90951},
 																						run: (*parser).callonListContinuationElement1640,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2866, col: 10, offset: 90687},
+																							pos:        position{line: 2876, col: 10, offset: 90951},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36831,27 +36851,27 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1577, col: 12, offset: 51003},
+																					pos:   position{line: 1587, col: 12, offset: 51267},
 																					label: "prefix",
 																					expr: &choiceExpr{
-																						pos: position{line: 1579, col: 9, offset: 51066},
+																						pos: position{line: 1589, col: 9, offset: 51330},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 1579, col: 9, offset: 51066},
+																								pos: position{line: 1589, col: 9, offset: 51330},
 																								run: (*parser).callonListContinuationElement1644,
 																								expr: &seqExpr{
-																									pos: position{line: 1579, col: 9, offset: 51066},
+																									pos: position{line: 1589, col: 9, offset: 51330},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 1579, col: 9, offset: 51066},
+																											pos:   position{line: 1589, col: 9, offset: 51330},
 																											label: "depth",
 																											expr: &actionExpr{
-																												pos: position{line: 1579, col: 16, offset: 51073},
+																												pos: position{line: 1589, col: 16, offset: 51337},
 																												run: (*parser).callonListContinuationElement1647,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1579, col: 16, offset: 51073},
+																													pos: position{line: 1589, col: 16, offset: 51337},
 																													expr: &litMatcher{
-																														pos:        position{line: 1579, col: 17, offset: 51074},
+																														pos:        position{line: 1589, col: 17, offset: 51338},
 																														val:        ".",
 																														ignoreCase: false,
 																														want:       "\".\"",
@@ -36860,22 +36880,22 @@ var g = &grammar{
 																											},
 																										},
 																										&andCodeExpr{
-																											pos: position{line: 1583, col: 9, offset: 51174},
+																											pos: position{line: 1593, col: 9, offset: 51438},
 																											run: (*parser).callonListContinuationElement1650,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1602, col: 11, offset: 51891},
+																								pos: position{line: 1612, col: 11, offset: 52155},
 																								run: (*parser).callonListContinuationElement1651,
 																								expr: &seqExpr{
-																									pos: position{line: 1602, col: 11, offset: 51891},
+																									pos: position{line: 1612, col: 11, offset: 52155},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1602, col: 11, offset: 51891},
+																											pos: position{line: 1612, col: 11, offset: 52155},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1602, col: 12, offset: 51892},
+																												pos:        position{line: 1612, col: 12, offset: 52156},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -36883,7 +36903,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1602, col: 20, offset: 51900},
+																											pos:        position{line: 1612, col: 20, offset: 52164},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -36892,20 +36912,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1604, col: 13, offset: 52017},
+																								pos: position{line: 1614, col: 13, offset: 52281},
 																								run: (*parser).callonListContinuationElement1656,
 																								expr: &seqExpr{
-																									pos: position{line: 1604, col: 13, offset: 52017},
+																									pos: position{line: 1614, col: 13, offset: 52281},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1604, col: 14, offset: 52018},
+																											pos:        position{line: 1614, col: 14, offset: 52282},
 																											val:        "[a-z]",
 																											ranges:     []rune{'a', 'z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1604, col: 21, offset: 52025},
+																											pos:        position{line: 1614, col: 21, offset: 52289},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -36914,20 +36934,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1606, col: 13, offset: 52145},
+																								pos: position{line: 1616, col: 13, offset: 52409},
 																								run: (*parser).callonListContinuationElement1660,
 																								expr: &seqExpr{
-																									pos: position{line: 1606, col: 13, offset: 52145},
+																									pos: position{line: 1616, col: 13, offset: 52409},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1606, col: 14, offset: 52146},
+																											pos:        position{line: 1616, col: 14, offset: 52410},
 																											val:        "[A-Z]",
 																											ranges:     []rune{'A', 'Z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1606, col: 21, offset: 52153},
+																											pos:        position{line: 1616, col: 21, offset: 52417},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -36936,15 +36956,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1608, col: 13, offset: 52273},
+																								pos: position{line: 1618, col: 13, offset: 52537},
 																								run: (*parser).callonListContinuationElement1664,
 																								expr: &seqExpr{
-																									pos: position{line: 1608, col: 13, offset: 52273},
+																									pos: position{line: 1618, col: 13, offset: 52537},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1608, col: 13, offset: 52273},
+																											pos: position{line: 1618, col: 13, offset: 52537},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1608, col: 14, offset: 52274},
+																												pos:        position{line: 1618, col: 14, offset: 52538},
 																												val:        "[ivxdlcm]",
 																												chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																												ignoreCase: false,
@@ -36952,7 +36972,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1608, col: 26, offset: 52286},
+																											pos:        position{line: 1618, col: 26, offset: 52550},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -36961,15 +36981,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1610, col: 13, offset: 52406},
+																								pos: position{line: 1620, col: 13, offset: 52670},
 																								run: (*parser).callonListContinuationElement1669,
 																								expr: &seqExpr{
-																									pos: position{line: 1610, col: 13, offset: 52406},
+																									pos: position{line: 1620, col: 13, offset: 52670},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1610, col: 13, offset: 52406},
+																											pos: position{line: 1620, col: 13, offset: 52670},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1610, col: 14, offset: 52407},
+																												pos:        position{line: 1620, col: 14, offset: 52671},
 																												val:        "[IVXDLCM]",
 																												chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																												ignoreCase: false,
@@ -36977,7 +36997,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1610, col: 26, offset: 52419},
+																											pos:        position{line: 1620, col: 26, offset: 52683},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -36989,12 +37009,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2870, col: 11, offset: 90748},
+																					pos: position{line: 2880, col: 11, offset: 91012},
 																					run: (*parser).callonListContinuationElement1674,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2870, col: 11, offset: 90748},
+																						pos: position{line: 2880, col: 11, offset: 91012},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2870, col: 11, offset: 90748},
+																							pos:        position{line: 2880, col: 11, offset: 91012},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37007,20 +37027,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1508, col: 5, offset: 49009},
+																	pos: position{line: 1518, col: 5, offset: 49273},
 																	expr: &actionExpr{
-																		pos: position{line: 1627, col: 5, offset: 52958},
+																		pos: position{line: 1637, col: 5, offset: 53222},
 																		run: (*parser).callonListContinuationElement1678,
 																		expr: &seqExpr{
-																			pos: position{line: 1627, col: 5, offset: 52958},
+																			pos: position{line: 1637, col: 5, offset: 53222},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1627, col: 5, offset: 52958},
+																					pos: position{line: 1637, col: 5, offset: 53222},
 																					expr: &actionExpr{
-																						pos: position{line: 2866, col: 10, offset: 90687},
+																						pos: position{line: 2876, col: 10, offset: 90951},
 																						run: (*parser).callonListContinuationElement1681,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2866, col: 10, offset: 90687},
+																							pos:        position{line: 2876, col: 10, offset: 90951},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37029,24 +37049,24 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1628, col: 5, offset: 52970},
+																					pos:   position{line: 1638, col: 5, offset: 53234},
 																					label: "style",
 																					expr: &actionExpr{
-																						pos: position{line: 1629, col: 9, offset: 52986},
+																						pos: position{line: 1639, col: 9, offset: 53250},
 																						run: (*parser).callonListContinuationElement1684,
 																						expr: &choiceExpr{
-																							pos: position{line: 1629, col: 10, offset: 52987},
+																							pos: position{line: 1639, col: 10, offset: 53251},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1629, col: 11, offset: 52988},
+																									pos:        position{line: 1639, col: 11, offset: 53252},
 																									val:        "-",
 																									ignoreCase: false,
 																									want:       "\"-\"",
 																								},
 																								&oneOrMoreExpr{
-																									pos: position{line: 1629, col: 18, offset: 52995},
+																									pos: position{line: 1639, col: 18, offset: 53259},
 																									expr: &litMatcher{
-																										pos:        position{line: 1629, col: 19, offset: 52996},
+																										pos:        position{line: 1639, col: 19, offset: 53260},
 																										val:        "*",
 																										ignoreCase: false,
 																										want:       "\"*\"",
@@ -37057,16 +37077,16 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1632, col: 7, offset: 53086},
+																					pos: position{line: 1642, col: 7, offset: 53350},
 																					run: (*parser).callonListContinuationElement1689,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2870, col: 11, offset: 90748},
+																					pos: position{line: 2880, col: 11, offset: 91012},
 																					run: (*parser).callonListContinuationElement1690,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2870, col: 11, offset: 90748},
+																						pos: position{line: 2880, col: 11, offset: 91012},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2870, col: 11, offset: 90748},
+																							pos:        position{line: 2880, col: 11, offset: 91012},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37079,29 +37099,29 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1509, col: 5, offset: 49041},
+																	pos: position{line: 1519, col: 5, offset: 49305},
 																	expr: &actionExpr{
-																		pos: position{line: 1717, col: 5, offset: 55527},
+																		pos: position{line: 1727, col: 5, offset: 55791},
 																		run: (*parser).callonListContinuationElement1694,
 																		expr: &seqExpr{
-																			pos: position{line: 1717, col: 5, offset: 55527},
+																			pos: position{line: 1727, col: 5, offset: 55791},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1717, col: 5, offset: 55527},
+																					pos:        position{line: 1727, col: 5, offset: 55791},
 																					val:        "<",
 																					ignoreCase: false,
 																					want:       "\"<\"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1717, col: 9, offset: 55531},
+																					pos:   position{line: 1727, col: 9, offset: 55795},
 																					label: "ref",
 																					expr: &actionExpr{
-																						pos: position{line: 1717, col: 14, offset: 55536},
+																						pos: position{line: 1727, col: 14, offset: 55800},
 																						run: (*parser).callonListContinuationElement1698,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 1717, col: 14, offset: 55536},
+																							pos: position{line: 1727, col: 14, offset: 55800},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1717, col: 14, offset: 55536},
+																								pos:        position{line: 1727, col: 14, offset: 55800},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -37111,18 +37131,18 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 1717, col: 62, offset: 55584},
+																					pos:        position{line: 1727, col: 62, offset: 55848},
 																					val:        ">",
 																					ignoreCase: false,
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2870, col: 11, offset: 90748},
+																					pos: position{line: 2880, col: 11, offset: 91012},
 																					run: (*parser).callonListContinuationElement1702,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2870, col: 11, offset: 90748},
+																						pos: position{line: 2880, col: 11, offset: 91012},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2870, col: 11, offset: 90748},
+																							pos:        position{line: 2880, col: 11, offset: 91012},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37135,31 +37155,31 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1510, col: 5, offset: 49071},
+																	pos: position{line: 1520, col: 5, offset: 49335},
 																	expr: &seqExpr{
-																		pos: position{line: 1510, col: 7, offset: 49073},
+																		pos: position{line: 1520, col: 7, offset: 49337},
 																		exprs: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1662, col: 5, offset: 53977},
+																				pos: position{line: 1672, col: 5, offset: 54241},
 																				run: (*parser).callonListContinuationElement1707,
 																				expr: &seqExpr{
-																					pos: position{line: 1662, col: 5, offset: 53977},
+																					pos: position{line: 1672, col: 5, offset: 54241},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1662, col: 5, offset: 53977},
+																							pos: position{line: 1672, col: 5, offset: 54241},
 																							expr: &seqExpr{
-																								pos: position{line: 2478, col: 31, offset: 79815},
+																								pos: position{line: 2488, col: 31, offset: 80079},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2478, col: 31, offset: 79815},
+																										pos:        position{line: 2488, col: 31, offset: 80079},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2478, col: 36, offset: 79820},
+																										pos: position{line: 2488, col: 36, offset: 80084},
 																										expr: &litMatcher{
-																											pos:        position{line: 2478, col: 37, offset: 79821},
+																											pos:        position{line: 2488, col: 37, offset: 80085},
 																											val:        "//",
 																											ignoreCase: false,
 																											want:       "\"//\"",
@@ -37169,28 +37189,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1663, col: 5, offset: 54009},
+																							pos: position{line: 1673, col: 5, offset: 54273},
 																							expr: &seqExpr{
-																								pos: position{line: 1663, col: 6, offset: 54010},
+																								pos: position{line: 1673, col: 6, offset: 54274},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1663, col: 6, offset: 54010},
+																										pos: position{line: 1673, col: 6, offset: 54274},
 																										expr: &actionExpr{
-																											pos: position{line: 1668, col: 5, offset: 54160},
+																											pos: position{line: 1678, col: 5, offset: 54424},
 																											run: (*parser).callonListContinuationElement1717,
 																											expr: &seqExpr{
-																												pos: position{line: 1668, col: 5, offset: 54160},
+																												pos: position{line: 1678, col: 5, offset: 54424},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1668, col: 5, offset: 54160},
+																														pos:   position{line: 1678, col: 5, offset: 54424},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1668, col: 16, offset: 54171},
+																															pos: position{line: 1678, col: 16, offset: 54435},
 																															run: (*parser).callonListContinuationElement1720,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1668, col: 16, offset: 54171},
+																																pos: position{line: 1678, col: 16, offset: 54435},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1668, col: 17, offset: 54172},
+																																	pos:        position{line: 1678, col: 17, offset: 54436},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -37199,7 +37219,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1671, col: 5, offset: 54229},
+																														pos: position{line: 1681, col: 5, offset: 54493},
 																														run: (*parser).callonListContinuationElement1723,
 																													},
 																												},
@@ -37207,30 +37227,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1663, col: 35, offset: 54039},
+																										pos: position{line: 1673, col: 35, offset: 54303},
 																										expr: &choiceExpr{
-																											pos: position{line: 2888, col: 8, offset: 91085},
+																											pos: position{line: 2898, col: 8, offset: 91349},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2875, col: 12, offset: 90858},
+																													pos: position{line: 2885, col: 12, offset: 91122},
 																													run: (*parser).callonListContinuationElement1726,
 																													expr: &choiceExpr{
-																														pos: position{line: 2875, col: 13, offset: 90859},
+																														pos: position{line: 2885, col: 13, offset: 91123},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 13, offset: 90859},
+																																pos:        position{line: 2885, col: 13, offset: 91123},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 20, offset: 90866},
+																																pos:        position{line: 2885, col: 20, offset: 91130},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 29, offset: 90875},
+																																pos:        position{line: 2885, col: 29, offset: 91139},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37239,16 +37259,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2885, col: 8, offset: 91035},
+																													pos: position{line: 2895, col: 8, offset: 91299},
 																													expr: &anyMatcher{
-																														line: 2885, col: 9, offset: 91036,
+																														line: 2895, col: 9, offset: 91300,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1663, col: 40, offset: 54044,
+																										line: 1673, col: 40, offset: 54308,
 																									},
 																								},
 																							},
@@ -37257,21 +37277,21 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1668, col: 5, offset: 54160},
+																				pos: position{line: 1678, col: 5, offset: 54424},
 																				run: (*parser).callonListContinuationElement1734,
 																				expr: &seqExpr{
-																					pos: position{line: 1668, col: 5, offset: 54160},
+																					pos: position{line: 1678, col: 5, offset: 54424},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1668, col: 5, offset: 54160},
+																							pos:   position{line: 1678, col: 5, offset: 54424},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1668, col: 16, offset: 54171},
+																								pos: position{line: 1678, col: 16, offset: 54435},
 																								run: (*parser).callonListContinuationElement1737,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1668, col: 16, offset: 54171},
+																									pos: position{line: 1678, col: 16, offset: 54435},
 																									expr: &litMatcher{
-																										pos:        position{line: 1668, col: 17, offset: 54172},
+																										pos:        position{line: 1678, col: 17, offset: 54436},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -37280,7 +37300,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1671, col: 5, offset: 54229},
+																							pos: position{line: 1681, col: 5, offset: 54493},
 																							run: (*parser).callonListContinuationElement1740,
 																						},
 																					},
@@ -37290,7 +37310,7 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1511, col: 5, offset: 49129},
+																	pos: position{line: 1521, col: 5, offset: 49393},
 																	expr: &actionExpr{
 																		pos: position{line: 724, col: 5, offset: 23110},
 																		run: (*parser).callonListContinuationElement1742,
@@ -37300,7 +37320,7 @@ var g = &grammar{
 																				&notExpr{
 																					pos: position{line: 724, col: 5, offset: 23110},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2756, col: 13, offset: 87782},
+																						pos:        position{line: 2766, col: 13, offset: 88046},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -37350,10 +37370,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 742, col: 8, offset: 23754},
 																											expr: &actionExpr{
-																												pos: position{line: 2866, col: 10, offset: 90687},
+																												pos: position{line: 2876, col: 10, offset: 90951},
 																												run: (*parser).callonListContinuationElement1757,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2866, col: 10, offset: 90687},
+																													pos:        position{line: 2876, col: 10, offset: 90951},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37362,28 +37382,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2888, col: 8, offset: 91085},
+																											pos: position{line: 2898, col: 8, offset: 91349},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2875, col: 12, offset: 90858},
+																													pos: position{line: 2885, col: 12, offset: 91122},
 																													run: (*parser).callonListContinuationElement1760,
 																													expr: &choiceExpr{
-																														pos: position{line: 2875, col: 13, offset: 90859},
+																														pos: position{line: 2885, col: 13, offset: 91123},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 13, offset: 90859},
+																																pos:        position{line: 2885, col: 13, offset: 91123},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 20, offset: 90866},
+																																pos:        position{line: 2885, col: 20, offset: 91130},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 29, offset: 90875},
+																																pos:        position{line: 2885, col: 29, offset: 91139},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37392,9 +37412,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2885, col: 8, offset: 91035},
+																													pos: position{line: 2895, col: 8, offset: 91299},
 																													expr: &anyMatcher{
-																														line: 2885, col: 9, offset: 91036,
+																														line: 2895, col: 9, offset: 91300,
 																													},
 																												},
 																											},
@@ -37439,10 +37459,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 749, col: 8, offset: 24002},
 																											expr: &actionExpr{
-																												pos: position{line: 2866, col: 10, offset: 90687},
+																												pos: position{line: 2876, col: 10, offset: 90951},
 																												run: (*parser).callonListContinuationElement1776,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2866, col: 10, offset: 90687},
+																													pos:        position{line: 2876, col: 10, offset: 90951},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37451,28 +37471,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2888, col: 8, offset: 91085},
+																											pos: position{line: 2898, col: 8, offset: 91349},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2875, col: 12, offset: 90858},
+																													pos: position{line: 2885, col: 12, offset: 91122},
 																													run: (*parser).callonListContinuationElement1779,
 																													expr: &choiceExpr{
-																														pos: position{line: 2875, col: 13, offset: 90859},
+																														pos: position{line: 2885, col: 13, offset: 91123},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 13, offset: 90859},
+																																pos:        position{line: 2885, col: 13, offset: 91123},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 20, offset: 90866},
+																																pos:        position{line: 2885, col: 20, offset: 91130},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 29, offset: 90875},
+																																pos:        position{line: 2885, col: 29, offset: 91139},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37481,9 +37501,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2885, col: 8, offset: 91035},
+																													pos: position{line: 2895, col: 8, offset: 91299},
 																													expr: &anyMatcher{
-																														line: 2885, col: 9, offset: 91036,
+																														line: 2895, col: 9, offset: 91300,
 																													},
 																												},
 																											},
@@ -37524,10 +37544,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 760, col: 52, offset: 24414},
 																											expr: &actionExpr{
-																												pos: position{line: 2866, col: 10, offset: 90687},
+																												pos: position{line: 2876, col: 10, offset: 90951},
 																												run: (*parser).callonListContinuationElement1794,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2866, col: 10, offset: 90687},
+																													pos:        position{line: 2876, col: 10, offset: 90951},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37536,28 +37556,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2888, col: 8, offset: 91085},
+																											pos: position{line: 2898, col: 8, offset: 91349},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2875, col: 12, offset: 90858},
+																													pos: position{line: 2885, col: 12, offset: 91122},
 																													run: (*parser).callonListContinuationElement1797,
 																													expr: &choiceExpr{
-																														pos: position{line: 2875, col: 13, offset: 90859},
+																														pos: position{line: 2885, col: 13, offset: 91123},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 13, offset: 90859},
+																																pos:        position{line: 2885, col: 13, offset: 91123},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 20, offset: 90866},
+																																pos:        position{line: 2885, col: 20, offset: 91130},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 29, offset: 90875},
+																																pos:        position{line: 2885, col: 29, offset: 91139},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37566,9 +37586,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2885, col: 8, offset: 91035},
+																													pos: position{line: 2895, col: 8, offset: 91299},
 																													expr: &anyMatcher{
-																														line: 2885, col: 9, offset: 91036,
+																														line: 2895, col: 9, offset: 91300,
 																													},
 																												},
 																											},
@@ -37613,10 +37633,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 756, col: 8, offset: 24248},
 																											expr: &actionExpr{
-																												pos: position{line: 2866, col: 10, offset: 90687},
+																												pos: position{line: 2876, col: 10, offset: 90951},
 																												run: (*parser).callonListContinuationElement1813,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2866, col: 10, offset: 90687},
+																													pos:        position{line: 2876, col: 10, offset: 90951},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37625,28 +37645,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2888, col: 8, offset: 91085},
+																											pos: position{line: 2898, col: 8, offset: 91349},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2875, col: 12, offset: 90858},
+																													pos: position{line: 2885, col: 12, offset: 91122},
 																													run: (*parser).callonListContinuationElement1816,
 																													expr: &choiceExpr{
-																														pos: position{line: 2875, col: 13, offset: 90859},
+																														pos: position{line: 2885, col: 13, offset: 91123},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 13, offset: 90859},
+																																pos:        position{line: 2885, col: 13, offset: 91123},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 20, offset: 90866},
+																																pos:        position{line: 2885, col: 20, offset: 91130},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 29, offset: 90875},
+																																pos:        position{line: 2885, col: 29, offset: 91139},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37655,9 +37675,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2885, col: 8, offset: 91035},
+																													pos: position{line: 2895, col: 8, offset: 91299},
 																													expr: &anyMatcher{
-																														line: 2885, col: 9, offset: 91036,
+																														line: 2895, col: 9, offset: 91300,
 																													},
 																												},
 																											},
@@ -37702,10 +37722,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 771, col: 8, offset: 24791},
 																											expr: &actionExpr{
-																												pos: position{line: 2866, col: 10, offset: 90687},
+																												pos: position{line: 2876, col: 10, offset: 90951},
 																												run: (*parser).callonListContinuationElement1832,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2866, col: 10, offset: 90687},
+																													pos:        position{line: 2876, col: 10, offset: 90951},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37714,28 +37734,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2888, col: 8, offset: 91085},
+																											pos: position{line: 2898, col: 8, offset: 91349},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2875, col: 12, offset: 90858},
+																													pos: position{line: 2885, col: 12, offset: 91122},
 																													run: (*parser).callonListContinuationElement1835,
 																													expr: &choiceExpr{
-																														pos: position{line: 2875, col: 13, offset: 90859},
+																														pos: position{line: 2885, col: 13, offset: 91123},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 13, offset: 90859},
+																																pos:        position{line: 2885, col: 13, offset: 91123},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 20, offset: 90866},
+																																pos:        position{line: 2885, col: 20, offset: 91130},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 29, offset: 90875},
+																																pos:        position{line: 2885, col: 29, offset: 91139},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37744,9 +37764,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2885, col: 8, offset: 91035},
+																													pos: position{line: 2895, col: 8, offset: 91299},
 																													expr: &anyMatcher{
-																														line: 2885, col: 9, offset: 91036,
+																														line: 2895, col: 9, offset: 91300,
 																													},
 																												},
 																											},
@@ -37791,10 +37811,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 785, col: 8, offset: 25267},
 																											expr: &actionExpr{
-																												pos: position{line: 2866, col: 10, offset: 90687},
+																												pos: position{line: 2876, col: 10, offset: 90951},
 																												run: (*parser).callonListContinuationElement1851,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2866, col: 10, offset: 90687},
+																													pos:        position{line: 2876, col: 10, offset: 90951},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37803,28 +37823,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2888, col: 8, offset: 91085},
+																											pos: position{line: 2898, col: 8, offset: 91349},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2875, col: 12, offset: 90858},
+																													pos: position{line: 2885, col: 12, offset: 91122},
 																													run: (*parser).callonListContinuationElement1854,
 																													expr: &choiceExpr{
-																														pos: position{line: 2875, col: 13, offset: 90859},
+																														pos: position{line: 2885, col: 13, offset: 91123},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 13, offset: 90859},
+																																pos:        position{line: 2885, col: 13, offset: 91123},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 20, offset: 90866},
+																																pos:        position{line: 2885, col: 20, offset: 91130},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 29, offset: 90875},
+																																pos:        position{line: 2885, col: 29, offset: 91139},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37833,9 +37853,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2885, col: 8, offset: 91035},
+																													pos: position{line: 2895, col: 8, offset: 91299},
 																													expr: &anyMatcher{
-																														line: 2885, col: 9, offset: 91036,
+																														line: 2895, col: 9, offset: 91300,
 																													},
 																												},
 																											},
@@ -37880,10 +37900,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 792, col: 8, offset: 25519},
 																											expr: &actionExpr{
-																												pos: position{line: 2866, col: 10, offset: 90687},
+																												pos: position{line: 2876, col: 10, offset: 90951},
 																												run: (*parser).callonListContinuationElement1870,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2866, col: 10, offset: 90687},
+																													pos:        position{line: 2876, col: 10, offset: 90951},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37892,28 +37912,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2888, col: 8, offset: 91085},
+																											pos: position{line: 2898, col: 8, offset: 91349},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2875, col: 12, offset: 90858},
+																													pos: position{line: 2885, col: 12, offset: 91122},
 																													run: (*parser).callonListContinuationElement1873,
 																													expr: &choiceExpr{
-																														pos: position{line: 2875, col: 13, offset: 90859},
+																														pos: position{line: 2885, col: 13, offset: 91123},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 13, offset: 90859},
+																																pos:        position{line: 2885, col: 13, offset: 91123},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 20, offset: 90866},
+																																pos:        position{line: 2885, col: 20, offset: 91130},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 29, offset: 90875},
+																																pos:        position{line: 2885, col: 29, offset: 91139},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37922,9 +37942,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2885, col: 8, offset: 91035},
+																													pos: position{line: 2895, col: 8, offset: 91299},
 																													expr: &anyMatcher{
-																														line: 2885, col: 9, offset: 91036,
+																														line: 2895, col: 9, offset: 91300,
 																													},
 																												},
 																											},
@@ -37969,10 +37989,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 799, col: 8, offset: 25769},
 																											expr: &actionExpr{
-																												pos: position{line: 2866, col: 10, offset: 90687},
+																												pos: position{line: 2876, col: 10, offset: 90951},
 																												run: (*parser).callonListContinuationElement1889,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2866, col: 10, offset: 90687},
+																													pos:        position{line: 2876, col: 10, offset: 90951},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37981,28 +38001,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2888, col: 8, offset: 91085},
+																											pos: position{line: 2898, col: 8, offset: 91349},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2875, col: 12, offset: 90858},
+																													pos: position{line: 2885, col: 12, offset: 91122},
 																													run: (*parser).callonListContinuationElement1892,
 																													expr: &choiceExpr{
-																														pos: position{line: 2875, col: 13, offset: 90859},
+																														pos: position{line: 2885, col: 13, offset: 91123},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 13, offset: 90859},
+																																pos:        position{line: 2885, col: 13, offset: 91123},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 20, offset: 90866},
+																																pos:        position{line: 2885, col: 20, offset: 91130},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 29, offset: 90875},
+																																pos:        position{line: 2885, col: 29, offset: 91139},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38011,9 +38031,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2885, col: 8, offset: 91035},
+																													pos: position{line: 2895, col: 8, offset: 91299},
 																													expr: &anyMatcher{
-																														line: 2885, col: 9, offset: 91036,
+																														line: 2895, col: 9, offset: 91300,
 																													},
 																												},
 																											},
@@ -38058,10 +38078,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 806, col: 8, offset: 26015},
 																											expr: &actionExpr{
-																												pos: position{line: 2866, col: 10, offset: 90687},
+																												pos: position{line: 2876, col: 10, offset: 90951},
 																												run: (*parser).callonListContinuationElement1908,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2866, col: 10, offset: 90687},
+																													pos:        position{line: 2876, col: 10, offset: 90951},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38070,28 +38090,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2888, col: 8, offset: 91085},
+																											pos: position{line: 2898, col: 8, offset: 91349},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2875, col: 12, offset: 90858},
+																													pos: position{line: 2885, col: 12, offset: 91122},
 																													run: (*parser).callonListContinuationElement1911,
 																													expr: &choiceExpr{
-																														pos: position{line: 2875, col: 13, offset: 90859},
+																														pos: position{line: 2885, col: 13, offset: 91123},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 13, offset: 90859},
+																																pos:        position{line: 2885, col: 13, offset: 91123},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 20, offset: 90866},
+																																pos:        position{line: 2885, col: 20, offset: 91130},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2875, col: 29, offset: 90875},
+																																pos:        position{line: 2885, col: 29, offset: 91139},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38100,9 +38120,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2885, col: 8, offset: 91035},
+																													pos: position{line: 2895, col: 8, offset: 91299},
 																													expr: &anyMatcher{
-																														line: 2885, col: 9, offset: 91036,
+																														line: 2895, col: 9, offset: 91300,
 																													},
 																												},
 																											},
@@ -38118,15 +38138,15 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1512, col: 5, offset: 49149},
+																	pos:   position{line: 1522, col: 5, offset: 49413},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2816, col: 14, offset: 89280},
+																		pos: position{line: 2826, col: 14, offset: 89544},
 																		run: (*parser).callonListContinuationElement1919,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2816, col: 14, offset: 89280},
+																			pos: position{line: 2826, col: 14, offset: 89544},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2816, col: 14, offset: 89280},
+																				pos:        position{line: 2826, col: 14, offset: 89544},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -38136,28 +38156,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2888, col: 8, offset: 91085},
+																	pos: position{line: 2898, col: 8, offset: 91349},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2875, col: 12, offset: 90858},
+																			pos: position{line: 2885, col: 12, offset: 91122},
 																			run: (*parser).callonListContinuationElement1923,
 																			expr: &choiceExpr{
-																				pos: position{line: 2875, col: 13, offset: 90859},
+																				pos: position{line: 2885, col: 13, offset: 91123},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 13, offset: 90859},
+																						pos:        position{line: 2885, col: 13, offset: 91123},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 20, offset: 90866},
+																						pos:        position{line: 2885, col: 20, offset: 91130},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 29, offset: 90875},
+																						pos:        position{line: 2885, col: 29, offset: 91139},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -38166,9 +38186,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2885, col: 8, offset: 91035},
+																			pos: position{line: 2895, col: 8, offset: 91299},
 																			expr: &anyMatcher{
-																				line: 2885, col: 9, offset: 91036,
+																				line: 2895, col: 9, offset: 91300,
 																			},
 																		},
 																	},
@@ -38189,33 +38209,33 @@ var g = &grammar{
 		},
 		{
 			name: "Callout",
-			pos:  position{line: 1701, col: 1, offset: 55021},
+			pos:  position{line: 1711, col: 1, offset: 55285},
 			expr: &actionExpr{
-				pos: position{line: 1703, col: 5, offset: 55099},
+				pos: position{line: 1713, col: 5, offset: 55363},
 				run: (*parser).callonCallout1,
 				expr: &seqExpr{
-					pos: position{line: 1703, col: 5, offset: 55099},
+					pos: position{line: 1713, col: 5, offset: 55363},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1703, col: 5, offset: 55099},
+							pos: position{line: 1713, col: 5, offset: 55363},
 							run: (*parser).callonCallout3,
 						},
 						&litMatcher{
-							pos:        position{line: 1706, col: 5, offset: 55166},
+							pos:        position{line: 1716, col: 5, offset: 55430},
 							val:        "<",
 							ignoreCase: false,
 							want:       "\"<\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1706, col: 9, offset: 55170},
+							pos:   position{line: 1716, col: 9, offset: 55434},
 							label: "ref",
 							expr: &actionExpr{
-								pos: position{line: 1706, col: 14, offset: 55175},
+								pos: position{line: 1716, col: 14, offset: 55439},
 								run: (*parser).callonCallout6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1706, col: 14, offset: 55175},
+									pos: position{line: 1716, col: 14, offset: 55439},
 									expr: &charClassMatcher{
-										pos:        position{line: 1706, col: 14, offset: 55175},
+										pos:        position{line: 1716, col: 14, offset: 55439},
 										val:        "[0-9]",
 										ranges:     []rune{'0', '9'},
 										ignoreCase: false,
@@ -38225,18 +38245,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1706, col: 62, offset: 55223},
+							pos:        position{line: 1716, col: 62, offset: 55487},
 							val:        ">",
 							ignoreCase: false,
 							want:       "\">\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1706, col: 66, offset: 55227},
+							pos: position{line: 1716, col: 66, offset: 55491},
 							expr: &actionExpr{
-								pos: position{line: 2866, col: 10, offset: 90687},
+								pos: position{line: 2876, col: 10, offset: 90951},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2866, col: 10, offset: 90687},
+									pos:        position{line: 2876, col: 10, offset: 90951},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -38245,30 +38265,30 @@ var g = &grammar{
 							},
 						},
 						&andExpr{
-							pos: position{line: 1706, col: 73, offset: 55234},
+							pos: position{line: 1716, col: 73, offset: 55498},
 							expr: &choiceExpr{
-								pos: position{line: 1706, col: 75, offset: 55236},
+								pos: position{line: 1716, col: 75, offset: 55500},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2875, col: 12, offset: 90858},
+										pos: position{line: 2885, col: 12, offset: 91122},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2875, col: 13, offset: 90859},
+											pos: position{line: 2885, col: 13, offset: 91123},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2875, col: 13, offset: 90859},
+													pos:        position{line: 2885, col: 13, offset: 91123},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2875, col: 20, offset: 90866},
+													pos:        position{line: 2885, col: 20, offset: 91130},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2875, col: 29, offset: 90875},
+													pos:        position{line: 2885, col: 29, offset: 91139},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -38277,13 +38297,13 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2885, col: 8, offset: 91035},
+										pos: position{line: 2895, col: 8, offset: 91299},
 										expr: &anyMatcher{
-											line: 2885, col: 9, offset: 91036,
+											line: 2895, col: 9, offset: 91300,
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1706, col: 81, offset: 55242},
+										pos:  position{line: 1716, col: 81, offset: 55506},
 										name: "Callout",
 									},
 								},
@@ -38295,44 +38315,44 @@ var g = &grammar{
 		},
 		{
 			name: "ShortcutParagraph",
-			pos:  position{line: 1745, col: 1, offset: 56419},
+			pos:  position{line: 1755, col: 1, offset: 56683},
 			expr: &actionExpr{
-				pos: position{line: 1747, col: 5, offset: 56493},
+				pos: position{line: 1757, col: 5, offset: 56757},
 				run: (*parser).callonShortcutParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1747, col: 5, offset: 56493},
+					pos: position{line: 1757, col: 5, offset: 56757},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 1747, col: 5, offset: 56493},
+							pos: position{line: 1757, col: 5, offset: 56757},
 							expr: &seqExpr{
-								pos: position{line: 1747, col: 7, offset: 56495},
+								pos: position{line: 1757, col: 7, offset: 56759},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2756, col: 13, offset: 87782},
+										pos:        position{line: 2766, col: 13, offset: 88046},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
 										inverted:   false,
 									},
 									&notExpr{
-										pos: position{line: 1747, col: 16, offset: 56504},
+										pos: position{line: 1757, col: 16, offset: 56768},
 										expr: &seqExpr{
-											pos: position{line: 1747, col: 18, offset: 56506},
+											pos: position{line: 1757, col: 18, offset: 56770},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 1747, col: 19, offset: 56507},
+													pos:        position{line: 1757, col: 19, offset: 56771},
 													val:        "[.)]",
 													chars:      []rune{'.', ')'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2870, col: 11, offset: 90748},
+													pos: position{line: 2880, col: 11, offset: 91012},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2870, col: 11, offset: 90748},
+														pos: position{line: 2880, col: 11, offset: 91012},
 														expr: &charClassMatcher{
-															pos:        position{line: 2870, col: 11, offset: 90748},
+															pos:        position{line: 2880, col: 11, offset: 91012},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -38347,88 +38367,88 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1748, col: 5, offset: 56647},
+							pos:   position{line: 1758, col: 5, offset: 56911},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1748, col: 11, offset: 56653},
+								pos: position{line: 1758, col: 11, offset: 56917},
 								expr: &actionExpr{
-									pos: position{line: 1726, col: 5, offset: 55912},
+									pos: position{line: 1736, col: 5, offset: 56176},
 									run: (*parser).callonShortcutParagraph14,
 									expr: &seqExpr{
-										pos: position{line: 1726, col: 5, offset: 55912},
+										pos: position{line: 1736, col: 5, offset: 56176},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1726, col: 5, offset: 55912},
+												pos: position{line: 1736, col: 5, offset: 56176},
 												run: (*parser).callonShortcutParagraph16,
 											},
 											&labeledExpr{
-												pos:   position{line: 1729, col: 5, offset: 55975},
+												pos:   position{line: 1739, col: 5, offset: 56239},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1729, col: 12, offset: 55982},
+													pos: position{line: 1739, col: 12, offset: 56246},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1729, col: 12, offset: 55982},
+															pos: position{line: 1739, col: 12, offset: 56246},
 															run: (*parser).callonShortcutParagraph19,
 															expr: &litMatcher{
-																pos:        position{line: 1729, col: 12, offset: 55982},
+																pos:        position{line: 1739, col: 12, offset: 56246},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1731, col: 13, offset: 56038},
+															pos: position{line: 1741, col: 13, offset: 56302},
 															run: (*parser).callonShortcutParagraph21,
 															expr: &litMatcher{
-																pos:        position{line: 1731, col: 13, offset: 56038},
+																pos:        position{line: 1741, col: 13, offset: 56302},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1733, col: 13, offset: 56096},
+															pos: position{line: 1743, col: 13, offset: 56360},
 															run: (*parser).callonShortcutParagraph23,
 															expr: &litMatcher{
-																pos:        position{line: 1733, col: 13, offset: 56096},
+																pos:        position{line: 1743, col: 13, offset: 56360},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1735, col: 13, offset: 56164},
+															pos: position{line: 1745, col: 13, offset: 56428},
 															run: (*parser).callonShortcutParagraph25,
 															expr: &litMatcher{
-																pos:        position{line: 1735, col: 13, offset: 56164},
+																pos:        position{line: 1745, col: 13, offset: 56428},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1737, col: 13, offset: 56228},
+															pos: position{line: 1747, col: 13, offset: 56492},
 															run: (*parser).callonShortcutParagraph27,
 															expr: &litMatcher{
-																pos:        position{line: 1737, col: 13, offset: 56228},
+																pos:        position{line: 1747, col: 13, offset: 56492},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1739, col: 13, offset: 56292},
+															pos: position{line: 1749, col: 13, offset: 56556},
 															run: (*parser).callonShortcutParagraph29,
 															expr: &andExpr{
-																pos: position{line: 1739, col: 13, offset: 56292},
+																pos: position{line: 1749, col: 13, offset: 56556},
 																expr: &actionExpr{
-																	pos: position{line: 2870, col: 11, offset: 90748},
+																	pos: position{line: 2880, col: 11, offset: 91012},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2870, col: 11, offset: 90748},
+																		pos: position{line: 2880, col: 11, offset: 91012},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2870, col: 11, offset: 90748},
+																			pos:        position{line: 2880, col: 11, offset: 91012},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -38442,17 +38462,17 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1741, col: 12, offset: 56362},
+												pos: position{line: 1751, col: 12, offset: 56626},
 												expr: &seqExpr{
-													pos: position{line: 1741, col: 14, offset: 56364},
+													pos: position{line: 1751, col: 14, offset: 56628},
 													exprs: []interface{}{
 														&zeroOrMoreExpr{
-															pos: position{line: 1741, col: 14, offset: 56364},
+															pos: position{line: 1751, col: 14, offset: 56628},
 															expr: &actionExpr{
-																pos: position{line: 2866, col: 10, offset: 90687},
+																pos: position{line: 2876, col: 10, offset: 90951},
 																run: (*parser).callonShortcutParagraph37,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2866, col: 10, offset: 90687},
+																	pos:        position{line: 2876, col: 10, offset: 90951},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -38461,28 +38481,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2888, col: 8, offset: 91085},
+															pos: position{line: 2898, col: 8, offset: 91349},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2875, col: 12, offset: 90858},
+																	pos: position{line: 2885, col: 12, offset: 91122},
 																	run: (*parser).callonShortcutParagraph40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2875, col: 13, offset: 90859},
+																		pos: position{line: 2885, col: 13, offset: 91123},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2875, col: 13, offset: 90859},
+																				pos:        position{line: 2885, col: 13, offset: 91123},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2875, col: 20, offset: 90866},
+																				pos:        position{line: 2885, col: 20, offset: 91130},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2875, col: 29, offset: 90875},
+																				pos:        position{line: 2885, col: 29, offset: 91139},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -38491,9 +38511,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2885, col: 8, offset: 91035},
+																	pos: position{line: 2895, col: 8, offset: 91299},
 																	expr: &anyMatcher{
-																		line: 2885, col: 9, offset: 91036,
+																		line: 2895, col: 9, offset: 91300,
 																	},
 																},
 															},
@@ -38507,24 +38527,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1749, col: 5, offset: 56675},
+							pos:   position{line: 1759, col: 5, offset: 56939},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1785, col: 5, offset: 57782},
+								pos: position{line: 1795, col: 5, offset: 58046},
 								run: (*parser).callonShortcutParagraph48,
 								expr: &seqExpr{
-									pos: position{line: 1785, col: 5, offset: 57782},
+									pos: position{line: 1795, col: 5, offset: 58046},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1785, col: 5, offset: 57782},
+											pos:   position{line: 1795, col: 5, offset: 58046},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2816, col: 14, offset: 89280},
+												pos: position{line: 2826, col: 14, offset: 89544},
 												run: (*parser).callonShortcutParagraph51,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2816, col: 14, offset: 89280},
+													pos: position{line: 2826, col: 14, offset: 89544},
 													expr: &charClassMatcher{
-														pos:        position{line: 2816, col: 14, offset: 89280},
+														pos:        position{line: 2826, col: 14, offset: 89544},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -38534,32 +38554,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1786, col: 5, offset: 57806},
+											pos: position{line: 1796, col: 5, offset: 58070},
 											run: (*parser).callonShortcutParagraph54,
 										},
 										&choiceExpr{
-											pos: position{line: 2888, col: 8, offset: 91085},
+											pos: position{line: 2898, col: 8, offset: 91349},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2875, col: 12, offset: 90858},
+													pos: position{line: 2885, col: 12, offset: 91122},
 													run: (*parser).callonShortcutParagraph56,
 													expr: &choiceExpr{
-														pos: position{line: 2875, col: 13, offset: 90859},
+														pos: position{line: 2885, col: 13, offset: 91123},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2875, col: 13, offset: 90859},
+																pos:        position{line: 2885, col: 13, offset: 91123},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2875, col: 20, offset: 90866},
+																pos:        position{line: 2885, col: 20, offset: 91130},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2875, col: 29, offset: 90875},
+																pos:        position{line: 2885, col: 29, offset: 91139},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -38568,9 +38588,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2885, col: 8, offset: 91035},
+													pos: position{line: 2895, col: 8, offset: 91299},
 													expr: &anyMatcher{
-														line: 2885, col: 9, offset: 91036,
+														line: 2895, col: 9, offset: 91300,
 													},
 												},
 											},
@@ -38580,28 +38600,28 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1750, col: 5, offset: 56709},
+							pos: position{line: 1760, col: 5, offset: 56973},
 							run: (*parser).callonShortcutParagraph63,
 						},
 						&labeledExpr{
-							pos:   position{line: 1757, col: 5, offset: 57039},
+							pos:   position{line: 1767, col: 5, offset: 57303},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1757, col: 16, offset: 57050},
+								pos: position{line: 1767, col: 16, offset: 57314},
 								expr: &actionExpr{
-									pos: position{line: 1758, col: 9, offset: 57060},
+									pos: position{line: 1768, col: 9, offset: 57324},
 									run: (*parser).callonShortcutParagraph66,
 									expr: &seqExpr{
-										pos: position{line: 1758, col: 9, offset: 57060},
+										pos: position{line: 1768, col: 9, offset: 57324},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2883, col: 11, offset: 91021},
+												pos: position{line: 2893, col: 11, offset: 91285},
 												expr: &anyMatcher{
-													line: 2883, col: 13, offset: 91023,
+													line: 2893, col: 13, offset: 91287,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1759, col: 9, offset: 57076},
+												pos: position{line: 1769, col: 9, offset: 57340},
 												expr: &actionExpr{
 													pos: position{line: 677, col: 14, offset: 21557},
 													run: (*parser).callonShortcutParagraph71,
@@ -38609,18 +38629,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21557},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2883, col: 11, offset: 91021},
+																pos: position{line: 2893, col: 11, offset: 91285},
 																expr: &anyMatcher{
-																	line: 2883, col: 13, offset: 91023,
+																	line: 2893, col: 13, offset: 91287,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21564},
 																expr: &actionExpr{
-																	pos: position{line: 2866, col: 10, offset: 90687},
+																	pos: position{line: 2876, col: 10, offset: 90951},
 																	run: (*parser).callonShortcutParagraph76,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2866, col: 10, offset: 90687},
+																		pos:        position{line: 2876, col: 10, offset: 90951},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -38629,28 +38649,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2888, col: 8, offset: 91085},
+																pos: position{line: 2898, col: 8, offset: 91349},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2875, col: 12, offset: 90858},
+																		pos: position{line: 2885, col: 12, offset: 91122},
 																		run: (*parser).callonShortcutParagraph79,
 																		expr: &choiceExpr{
-																			pos: position{line: 2875, col: 13, offset: 90859},
+																			pos: position{line: 2885, col: 13, offset: 91123},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 13, offset: 90859},
+																					pos:        position{line: 2885, col: 13, offset: 91123},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 20, offset: 90866},
+																					pos:        position{line: 2885, col: 20, offset: 91130},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 29, offset: 90875},
+																					pos:        position{line: 2885, col: 29, offset: 91139},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -38659,9 +38679,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2885, col: 8, offset: 91035},
+																		pos: position{line: 2895, col: 8, offset: 91299},
 																		expr: &anyMatcher{
-																			line: 2885, col: 9, offset: 91036,
+																			line: 2895, col: 9, offset: 91300,
 																		},
 																	},
 																},
@@ -38671,14 +38691,14 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1760, col: 9, offset: 57095},
+												pos: position{line: 1770, col: 9, offset: 57359},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1760, col: 10, offset: 57096},
+													pos:  position{line: 1770, col: 10, offset: 57360},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1761, col: 9, offset: 57120},
+												pos: position{line: 1771, col: 9, offset: 57384},
 												expr: &actionExpr{
 													pos: position{line: 724, col: 5, offset: 23110},
 													run: (*parser).callonShortcutParagraph89,
@@ -38688,7 +38708,7 @@ var g = &grammar{
 															&notExpr{
 																pos: position{line: 724, col: 5, offset: 23110},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2756, col: 13, offset: 87782},
+																	pos:        position{line: 2766, col: 13, offset: 88046},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -38738,10 +38758,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 742, col: 8, offset: 23754},
 																						expr: &actionExpr{
-																							pos: position{line: 2866, col: 10, offset: 90687},
+																							pos: position{line: 2876, col: 10, offset: 90951},
 																							run: (*parser).callonShortcutParagraph104,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2866, col: 10, offset: 90687},
+																								pos:        position{line: 2876, col: 10, offset: 90951},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38750,28 +38770,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2888, col: 8, offset: 91085},
+																						pos: position{line: 2898, col: 8, offset: 91349},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2875, col: 12, offset: 90858},
+																								pos: position{line: 2885, col: 12, offset: 91122},
 																								run: (*parser).callonShortcutParagraph107,
 																								expr: &choiceExpr{
-																									pos: position{line: 2875, col: 13, offset: 90859},
+																									pos: position{line: 2885, col: 13, offset: 91123},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 13, offset: 90859},
+																											pos:        position{line: 2885, col: 13, offset: 91123},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 20, offset: 90866},
+																											pos:        position{line: 2885, col: 20, offset: 91130},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 29, offset: 90875},
+																											pos:        position{line: 2885, col: 29, offset: 91139},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38780,9 +38800,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2885, col: 8, offset: 91035},
+																								pos: position{line: 2895, col: 8, offset: 91299},
 																								expr: &anyMatcher{
-																									line: 2885, col: 9, offset: 91036,
+																									line: 2895, col: 9, offset: 91300,
 																								},
 																							},
 																						},
@@ -38827,10 +38847,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 749, col: 8, offset: 24002},
 																						expr: &actionExpr{
-																							pos: position{line: 2866, col: 10, offset: 90687},
+																							pos: position{line: 2876, col: 10, offset: 90951},
 																							run: (*parser).callonShortcutParagraph123,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2866, col: 10, offset: 90687},
+																								pos:        position{line: 2876, col: 10, offset: 90951},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38839,28 +38859,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2888, col: 8, offset: 91085},
+																						pos: position{line: 2898, col: 8, offset: 91349},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2875, col: 12, offset: 90858},
+																								pos: position{line: 2885, col: 12, offset: 91122},
 																								run: (*parser).callonShortcutParagraph126,
 																								expr: &choiceExpr{
-																									pos: position{line: 2875, col: 13, offset: 90859},
+																									pos: position{line: 2885, col: 13, offset: 91123},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 13, offset: 90859},
+																											pos:        position{line: 2885, col: 13, offset: 91123},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 20, offset: 90866},
+																											pos:        position{line: 2885, col: 20, offset: 91130},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 29, offset: 90875},
+																											pos:        position{line: 2885, col: 29, offset: 91139},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38869,9 +38889,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2885, col: 8, offset: 91035},
+																								pos: position{line: 2895, col: 8, offset: 91299},
 																								expr: &anyMatcher{
-																									line: 2885, col: 9, offset: 91036,
+																									line: 2895, col: 9, offset: 91300,
 																								},
 																							},
 																						},
@@ -38912,10 +38932,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 760, col: 52, offset: 24414},
 																						expr: &actionExpr{
-																							pos: position{line: 2866, col: 10, offset: 90687},
+																							pos: position{line: 2876, col: 10, offset: 90951},
 																							run: (*parser).callonShortcutParagraph141,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2866, col: 10, offset: 90687},
+																								pos:        position{line: 2876, col: 10, offset: 90951},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38924,28 +38944,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2888, col: 8, offset: 91085},
+																						pos: position{line: 2898, col: 8, offset: 91349},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2875, col: 12, offset: 90858},
+																								pos: position{line: 2885, col: 12, offset: 91122},
 																								run: (*parser).callonShortcutParagraph144,
 																								expr: &choiceExpr{
-																									pos: position{line: 2875, col: 13, offset: 90859},
+																									pos: position{line: 2885, col: 13, offset: 91123},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 13, offset: 90859},
+																											pos:        position{line: 2885, col: 13, offset: 91123},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 20, offset: 90866},
+																											pos:        position{line: 2885, col: 20, offset: 91130},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 29, offset: 90875},
+																											pos:        position{line: 2885, col: 29, offset: 91139},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38954,9 +38974,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2885, col: 8, offset: 91035},
+																								pos: position{line: 2895, col: 8, offset: 91299},
 																								expr: &anyMatcher{
-																									line: 2885, col: 9, offset: 91036,
+																									line: 2895, col: 9, offset: 91300,
 																								},
 																							},
 																						},
@@ -39001,10 +39021,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 756, col: 8, offset: 24248},
 																						expr: &actionExpr{
-																							pos: position{line: 2866, col: 10, offset: 90687},
+																							pos: position{line: 2876, col: 10, offset: 90951},
 																							run: (*parser).callonShortcutParagraph160,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2866, col: 10, offset: 90687},
+																								pos:        position{line: 2876, col: 10, offset: 90951},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39013,28 +39033,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2888, col: 8, offset: 91085},
+																						pos: position{line: 2898, col: 8, offset: 91349},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2875, col: 12, offset: 90858},
+																								pos: position{line: 2885, col: 12, offset: 91122},
 																								run: (*parser).callonShortcutParagraph163,
 																								expr: &choiceExpr{
-																									pos: position{line: 2875, col: 13, offset: 90859},
+																									pos: position{line: 2885, col: 13, offset: 91123},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 13, offset: 90859},
+																											pos:        position{line: 2885, col: 13, offset: 91123},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 20, offset: 90866},
+																											pos:        position{line: 2885, col: 20, offset: 91130},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 29, offset: 90875},
+																											pos:        position{line: 2885, col: 29, offset: 91139},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39043,9 +39063,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2885, col: 8, offset: 91035},
+																								pos: position{line: 2895, col: 8, offset: 91299},
 																								expr: &anyMatcher{
-																									line: 2885, col: 9, offset: 91036,
+																									line: 2895, col: 9, offset: 91300,
 																								},
 																							},
 																						},
@@ -39090,10 +39110,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 771, col: 8, offset: 24791},
 																						expr: &actionExpr{
-																							pos: position{line: 2866, col: 10, offset: 90687},
+																							pos: position{line: 2876, col: 10, offset: 90951},
 																							run: (*parser).callonShortcutParagraph179,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2866, col: 10, offset: 90687},
+																								pos:        position{line: 2876, col: 10, offset: 90951},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39102,28 +39122,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2888, col: 8, offset: 91085},
+																						pos: position{line: 2898, col: 8, offset: 91349},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2875, col: 12, offset: 90858},
+																								pos: position{line: 2885, col: 12, offset: 91122},
 																								run: (*parser).callonShortcutParagraph182,
 																								expr: &choiceExpr{
-																									pos: position{line: 2875, col: 13, offset: 90859},
+																									pos: position{line: 2885, col: 13, offset: 91123},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 13, offset: 90859},
+																											pos:        position{line: 2885, col: 13, offset: 91123},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 20, offset: 90866},
+																											pos:        position{line: 2885, col: 20, offset: 91130},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 29, offset: 90875},
+																											pos:        position{line: 2885, col: 29, offset: 91139},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39132,9 +39152,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2885, col: 8, offset: 91035},
+																								pos: position{line: 2895, col: 8, offset: 91299},
 																								expr: &anyMatcher{
-																									line: 2885, col: 9, offset: 91036,
+																									line: 2895, col: 9, offset: 91300,
 																								},
 																							},
 																						},
@@ -39179,10 +39199,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 785, col: 8, offset: 25267},
 																						expr: &actionExpr{
-																							pos: position{line: 2866, col: 10, offset: 90687},
+																							pos: position{line: 2876, col: 10, offset: 90951},
 																							run: (*parser).callonShortcutParagraph198,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2866, col: 10, offset: 90687},
+																								pos:        position{line: 2876, col: 10, offset: 90951},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39191,28 +39211,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2888, col: 8, offset: 91085},
+																						pos: position{line: 2898, col: 8, offset: 91349},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2875, col: 12, offset: 90858},
+																								pos: position{line: 2885, col: 12, offset: 91122},
 																								run: (*parser).callonShortcutParagraph201,
 																								expr: &choiceExpr{
-																									pos: position{line: 2875, col: 13, offset: 90859},
+																									pos: position{line: 2885, col: 13, offset: 91123},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 13, offset: 90859},
+																											pos:        position{line: 2885, col: 13, offset: 91123},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 20, offset: 90866},
+																											pos:        position{line: 2885, col: 20, offset: 91130},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 29, offset: 90875},
+																											pos:        position{line: 2885, col: 29, offset: 91139},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39221,9 +39241,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2885, col: 8, offset: 91035},
+																								pos: position{line: 2895, col: 8, offset: 91299},
 																								expr: &anyMatcher{
-																									line: 2885, col: 9, offset: 91036,
+																									line: 2895, col: 9, offset: 91300,
 																								},
 																							},
 																						},
@@ -39268,10 +39288,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 792, col: 8, offset: 25519},
 																						expr: &actionExpr{
-																							pos: position{line: 2866, col: 10, offset: 90687},
+																							pos: position{line: 2876, col: 10, offset: 90951},
 																							run: (*parser).callonShortcutParagraph217,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2866, col: 10, offset: 90687},
+																								pos:        position{line: 2876, col: 10, offset: 90951},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39280,28 +39300,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2888, col: 8, offset: 91085},
+																						pos: position{line: 2898, col: 8, offset: 91349},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2875, col: 12, offset: 90858},
+																								pos: position{line: 2885, col: 12, offset: 91122},
 																								run: (*parser).callonShortcutParagraph220,
 																								expr: &choiceExpr{
-																									pos: position{line: 2875, col: 13, offset: 90859},
+																									pos: position{line: 2885, col: 13, offset: 91123},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 13, offset: 90859},
+																											pos:        position{line: 2885, col: 13, offset: 91123},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 20, offset: 90866},
+																											pos:        position{line: 2885, col: 20, offset: 91130},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 29, offset: 90875},
+																											pos:        position{line: 2885, col: 29, offset: 91139},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39310,9 +39330,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2885, col: 8, offset: 91035},
+																								pos: position{line: 2895, col: 8, offset: 91299},
 																								expr: &anyMatcher{
-																									line: 2885, col: 9, offset: 91036,
+																									line: 2895, col: 9, offset: 91300,
 																								},
 																							},
 																						},
@@ -39357,10 +39377,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 799, col: 8, offset: 25769},
 																						expr: &actionExpr{
-																							pos: position{line: 2866, col: 10, offset: 90687},
+																							pos: position{line: 2876, col: 10, offset: 90951},
 																							run: (*parser).callonShortcutParagraph236,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2866, col: 10, offset: 90687},
+																								pos:        position{line: 2876, col: 10, offset: 90951},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39369,28 +39389,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2888, col: 8, offset: 91085},
+																						pos: position{line: 2898, col: 8, offset: 91349},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2875, col: 12, offset: 90858},
+																								pos: position{line: 2885, col: 12, offset: 91122},
 																								run: (*parser).callonShortcutParagraph239,
 																								expr: &choiceExpr{
-																									pos: position{line: 2875, col: 13, offset: 90859},
+																									pos: position{line: 2885, col: 13, offset: 91123},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 13, offset: 90859},
+																											pos:        position{line: 2885, col: 13, offset: 91123},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 20, offset: 90866},
+																											pos:        position{line: 2885, col: 20, offset: 91130},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 29, offset: 90875},
+																											pos:        position{line: 2885, col: 29, offset: 91139},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39399,9 +39419,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2885, col: 8, offset: 91035},
+																								pos: position{line: 2895, col: 8, offset: 91299},
 																								expr: &anyMatcher{
-																									line: 2885, col: 9, offset: 91036,
+																									line: 2895, col: 9, offset: 91300,
 																								},
 																							},
 																						},
@@ -39446,10 +39466,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 806, col: 8, offset: 26015},
 																						expr: &actionExpr{
-																							pos: position{line: 2866, col: 10, offset: 90687},
+																							pos: position{line: 2876, col: 10, offset: 90951},
 																							run: (*parser).callonShortcutParagraph255,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2866, col: 10, offset: 90687},
+																								pos:        position{line: 2876, col: 10, offset: 90951},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39458,28 +39478,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2888, col: 8, offset: 91085},
+																						pos: position{line: 2898, col: 8, offset: 91349},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2875, col: 12, offset: 90858},
+																								pos: position{line: 2885, col: 12, offset: 91122},
 																								run: (*parser).callonShortcutParagraph258,
 																								expr: &choiceExpr{
-																									pos: position{line: 2875, col: 13, offset: 90859},
+																									pos: position{line: 2885, col: 13, offset: 91123},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 13, offset: 90859},
+																											pos:        position{line: 2885, col: 13, offset: 91123},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 20, offset: 90866},
+																											pos:        position{line: 2885, col: 20, offset: 91130},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2875, col: 29, offset: 90875},
+																											pos:        position{line: 2885, col: 29, offset: 91139},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39488,9 +39508,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2885, col: 8, offset: 91035},
+																								pos: position{line: 2895, col: 8, offset: 91299},
 																								expr: &anyMatcher{
-																									line: 2885, col: 9, offset: 91036,
+																									line: 2895, col: 9, offset: 91300,
 																								},
 																							},
 																						},
@@ -39506,23 +39526,23 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1762, col: 9, offset: 57144},
+												pos: position{line: 1772, col: 9, offset: 57408},
 												expr: &seqExpr{
-													pos: position{line: 1536, col: 27, offset: 49777},
+													pos: position{line: 1546, col: 27, offset: 50041},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 1536, col: 27, offset: 49777},
+															pos:        position{line: 1546, col: 27, offset: 50041},
 															val:        "+",
 															ignoreCase: false,
 															want:       "\"+\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 1536, col: 31, offset: 49781},
+															pos: position{line: 1546, col: 31, offset: 50045},
 															expr: &actionExpr{
-																pos: position{line: 2866, col: 10, offset: 90687},
+																pos: position{line: 2876, col: 10, offset: 90951},
 																run: (*parser).callonShortcutParagraph269,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2866, col: 10, offset: 90687},
+																	pos:        position{line: 2876, col: 10, offset: 90951},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -39531,25 +39551,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2875, col: 12, offset: 90858},
+															pos: position{line: 2885, col: 12, offset: 91122},
 															run: (*parser).callonShortcutParagraph271,
 															expr: &choiceExpr{
-																pos: position{line: 2875, col: 13, offset: 90859},
+																pos: position{line: 2885, col: 13, offset: 91123},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 13, offset: 90859},
+																		pos:        position{line: 2885, col: 13, offset: 91123},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 20, offset: 90866},
+																		pos:        position{line: 2885, col: 20, offset: 91130},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 29, offset: 90875},
+																		pos:        position{line: 2885, col: 29, offset: 91139},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -39561,42 +39581,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1763, col: 9, offset: 57176},
+												pos:   position{line: 1773, col: 9, offset: 57440},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1763, col: 15, offset: 57182},
+													pos: position{line: 1773, col: 15, offset: 57446},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2473, col: 22, offset: 79594},
+															pos: position{line: 2483, col: 22, offset: 79858},
 															run: (*parser).callonShortcutParagraph278,
 															expr: &seqExpr{
-																pos: position{line: 2473, col: 22, offset: 79594},
+																pos: position{line: 2483, col: 22, offset: 79858},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2478, col: 31, offset: 79815},
+																		pos:        position{line: 2488, col: 31, offset: 80079},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2478, col: 36, offset: 79820},
+																		pos: position{line: 2488, col: 36, offset: 80084},
 																		expr: &litMatcher{
-																			pos:        position{line: 2478, col: 37, offset: 79821},
+																			pos:        position{line: 2488, col: 37, offset: 80085},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2473, col: 49, offset: 79621},
+																		pos:   position{line: 2483, col: 49, offset: 79885},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2812, col: 13, offset: 89213},
+																			pos: position{line: 2822, col: 13, offset: 89477},
 																			run: (*parser).callonShortcutParagraph284,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2812, col: 13, offset: 89213},
+																				pos: position{line: 2822, col: 13, offset: 89477},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2812, col: 13, offset: 89213},
+																					pos:        position{line: 2822, col: 13, offset: 89477},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39606,28 +39626,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2888, col: 8, offset: 91085},
+																		pos: position{line: 2898, col: 8, offset: 91349},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2875, col: 12, offset: 90858},
+																				pos: position{line: 2885, col: 12, offset: 91122},
 																				run: (*parser).callonShortcutParagraph288,
 																				expr: &choiceExpr{
-																					pos: position{line: 2875, col: 13, offset: 90859},
+																					pos: position{line: 2885, col: 13, offset: 91123},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 13, offset: 90859},
+																							pos:        position{line: 2885, col: 13, offset: 91123},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 20, offset: 90866},
+																							pos:        position{line: 2885, col: 20, offset: 91130},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 29, offset: 90875},
+																							pos:        position{line: 2885, col: 29, offset: 91139},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39636,9 +39656,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2885, col: 8, offset: 91035},
+																				pos: position{line: 2895, col: 8, offset: 91299},
 																				expr: &anyMatcher{
-																					line: 2885, col: 9, offset: 91036,
+																					line: 2895, col: 9, offset: 91300,
 																				},
 																			},
 																		},
@@ -39647,21 +39667,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1785, col: 5, offset: 57782},
+															pos: position{line: 1795, col: 5, offset: 58046},
 															run: (*parser).callonShortcutParagraph295,
 															expr: &seqExpr{
-																pos: position{line: 1785, col: 5, offset: 57782},
+																pos: position{line: 1795, col: 5, offset: 58046},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1785, col: 5, offset: 57782},
+																		pos:   position{line: 1795, col: 5, offset: 58046},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2816, col: 14, offset: 89280},
+																			pos: position{line: 2826, col: 14, offset: 89544},
 																			run: (*parser).callonShortcutParagraph298,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2816, col: 14, offset: 89280},
+																				pos: position{line: 2826, col: 14, offset: 89544},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2816, col: 14, offset: 89280},
+																					pos:        position{line: 2826, col: 14, offset: 89544},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39671,32 +39691,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1786, col: 5, offset: 57806},
+																		pos: position{line: 1796, col: 5, offset: 58070},
 																		run: (*parser).callonShortcutParagraph301,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2888, col: 8, offset: 91085},
+																		pos: position{line: 2898, col: 8, offset: 91349},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2875, col: 12, offset: 90858},
+																				pos: position{line: 2885, col: 12, offset: 91122},
 																				run: (*parser).callonShortcutParagraph303,
 																				expr: &choiceExpr{
-																					pos: position{line: 2875, col: 13, offset: 90859},
+																					pos: position{line: 2885, col: 13, offset: 91123},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 13, offset: 90859},
+																							pos:        position{line: 2885, col: 13, offset: 91123},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 20, offset: 90866},
+																							pos:        position{line: 2885, col: 20, offset: 91130},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 29, offset: 90875},
+																							pos:        position{line: 2885, col: 29, offset: 91139},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39705,9 +39725,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2885, col: 8, offset: 91035},
+																				pos: position{line: 2895, col: 8, offset: 91299},
 																				expr: &anyMatcher{
-																					line: 2885, col: 9, offset: 91036,
+																					line: 2895, col: 9, offset: 91300,
 																				},
 																			},
 																		},
@@ -39729,96 +39749,96 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraph",
-			pos:  position{line: 1770, col: 1, offset: 57386},
+			pos:  position{line: 1780, col: 1, offset: 57650},
 			expr: &actionExpr{
-				pos: position{line: 1771, col: 5, offset: 57404},
+				pos: position{line: 1781, col: 5, offset: 57668},
 				run: (*parser).callonParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1771, col: 5, offset: 57404},
+					pos: position{line: 1781, col: 5, offset: 57668},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1771, col: 5, offset: 57404},
+							pos:   position{line: 1781, col: 5, offset: 57668},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1771, col: 11, offset: 57410},
+								pos: position{line: 1781, col: 11, offset: 57674},
 								expr: &actionExpr{
-									pos: position{line: 1726, col: 5, offset: 55912},
+									pos: position{line: 1736, col: 5, offset: 56176},
 									run: (*parser).callonParagraph5,
 									expr: &seqExpr{
-										pos: position{line: 1726, col: 5, offset: 55912},
+										pos: position{line: 1736, col: 5, offset: 56176},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1726, col: 5, offset: 55912},
+												pos: position{line: 1736, col: 5, offset: 56176},
 												run: (*parser).callonParagraph7,
 											},
 											&labeledExpr{
-												pos:   position{line: 1729, col: 5, offset: 55975},
+												pos:   position{line: 1739, col: 5, offset: 56239},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1729, col: 12, offset: 55982},
+													pos: position{line: 1739, col: 12, offset: 56246},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1729, col: 12, offset: 55982},
+															pos: position{line: 1739, col: 12, offset: 56246},
 															run: (*parser).callonParagraph10,
 															expr: &litMatcher{
-																pos:        position{line: 1729, col: 12, offset: 55982},
+																pos:        position{line: 1739, col: 12, offset: 56246},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1731, col: 13, offset: 56038},
+															pos: position{line: 1741, col: 13, offset: 56302},
 															run: (*parser).callonParagraph12,
 															expr: &litMatcher{
-																pos:        position{line: 1731, col: 13, offset: 56038},
+																pos:        position{line: 1741, col: 13, offset: 56302},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1733, col: 13, offset: 56096},
+															pos: position{line: 1743, col: 13, offset: 56360},
 															run: (*parser).callonParagraph14,
 															expr: &litMatcher{
-																pos:        position{line: 1733, col: 13, offset: 56096},
+																pos:        position{line: 1743, col: 13, offset: 56360},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1735, col: 13, offset: 56164},
+															pos: position{line: 1745, col: 13, offset: 56428},
 															run: (*parser).callonParagraph16,
 															expr: &litMatcher{
-																pos:        position{line: 1735, col: 13, offset: 56164},
+																pos:        position{line: 1745, col: 13, offset: 56428},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1737, col: 13, offset: 56228},
+															pos: position{line: 1747, col: 13, offset: 56492},
 															run: (*parser).callonParagraph18,
 															expr: &litMatcher{
-																pos:        position{line: 1737, col: 13, offset: 56228},
+																pos:        position{line: 1747, col: 13, offset: 56492},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1739, col: 13, offset: 56292},
+															pos: position{line: 1749, col: 13, offset: 56556},
 															run: (*parser).callonParagraph20,
 															expr: &andExpr{
-																pos: position{line: 1739, col: 13, offset: 56292},
+																pos: position{line: 1749, col: 13, offset: 56556},
 																expr: &actionExpr{
-																	pos: position{line: 2870, col: 11, offset: 90748},
+																	pos: position{line: 2880, col: 11, offset: 91012},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2870, col: 11, offset: 90748},
+																		pos: position{line: 2880, col: 11, offset: 91012},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2870, col: 11, offset: 90748},
+																			pos:        position{line: 2880, col: 11, offset: 91012},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -39832,17 +39852,17 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1741, col: 12, offset: 56362},
+												pos: position{line: 1751, col: 12, offset: 56626},
 												expr: &seqExpr{
-													pos: position{line: 1741, col: 14, offset: 56364},
+													pos: position{line: 1751, col: 14, offset: 56628},
 													exprs: []interface{}{
 														&zeroOrMoreExpr{
-															pos: position{line: 1741, col: 14, offset: 56364},
+															pos: position{line: 1751, col: 14, offset: 56628},
 															expr: &actionExpr{
-																pos: position{line: 2866, col: 10, offset: 90687},
+																pos: position{line: 2876, col: 10, offset: 90951},
 																run: (*parser).callonParagraph28,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2866, col: 10, offset: 90687},
+																	pos:        position{line: 2876, col: 10, offset: 90951},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -39851,28 +39871,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2888, col: 8, offset: 91085},
+															pos: position{line: 2898, col: 8, offset: 91349},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2875, col: 12, offset: 90858},
+																	pos: position{line: 2885, col: 12, offset: 91122},
 																	run: (*parser).callonParagraph31,
 																	expr: &choiceExpr{
-																		pos: position{line: 2875, col: 13, offset: 90859},
+																		pos: position{line: 2885, col: 13, offset: 91123},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2875, col: 13, offset: 90859},
+																				pos:        position{line: 2885, col: 13, offset: 91123},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2875, col: 20, offset: 90866},
+																				pos:        position{line: 2885, col: 20, offset: 91130},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2875, col: 29, offset: 90875},
+																				pos:        position{line: 2885, col: 29, offset: 91139},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -39881,9 +39901,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2885, col: 8, offset: 91035},
+																	pos: position{line: 2895, col: 8, offset: 91299},
 																	expr: &anyMatcher{
-																		line: 2885, col: 9, offset: 91036,
+																		line: 2895, col: 9, offset: 91300,
 																	},
 																},
 															},
@@ -39897,24 +39917,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1772, col: 5, offset: 57433},
+							pos:   position{line: 1782, col: 5, offset: 57697},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1785, col: 5, offset: 57782},
+								pos: position{line: 1795, col: 5, offset: 58046},
 								run: (*parser).callonParagraph39,
 								expr: &seqExpr{
-									pos: position{line: 1785, col: 5, offset: 57782},
+									pos: position{line: 1795, col: 5, offset: 58046},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1785, col: 5, offset: 57782},
+											pos:   position{line: 1795, col: 5, offset: 58046},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2816, col: 14, offset: 89280},
+												pos: position{line: 2826, col: 14, offset: 89544},
 												run: (*parser).callonParagraph42,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2816, col: 14, offset: 89280},
+													pos: position{line: 2826, col: 14, offset: 89544},
 													expr: &charClassMatcher{
-														pos:        position{line: 2816, col: 14, offset: 89280},
+														pos:        position{line: 2826, col: 14, offset: 89544},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -39924,32 +39944,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1786, col: 5, offset: 57806},
+											pos: position{line: 1796, col: 5, offset: 58070},
 											run: (*parser).callonParagraph45,
 										},
 										&choiceExpr{
-											pos: position{line: 2888, col: 8, offset: 91085},
+											pos: position{line: 2898, col: 8, offset: 91349},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2875, col: 12, offset: 90858},
+													pos: position{line: 2885, col: 12, offset: 91122},
 													run: (*parser).callonParagraph47,
 													expr: &choiceExpr{
-														pos: position{line: 2875, col: 13, offset: 90859},
+														pos: position{line: 2885, col: 13, offset: 91123},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2875, col: 13, offset: 90859},
+																pos:        position{line: 2885, col: 13, offset: 91123},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2875, col: 20, offset: 90866},
+																pos:        position{line: 2885, col: 20, offset: 91130},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2875, col: 29, offset: 90875},
+																pos:        position{line: 2885, col: 29, offset: 91139},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -39958,9 +39978,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2885, col: 8, offset: 91035},
+													pos: position{line: 2895, col: 8, offset: 91299},
 													expr: &anyMatcher{
-														line: 2885, col: 9, offset: 91036,
+														line: 2895, col: 9, offset: 91300,
 													},
 												},
 											},
@@ -39970,24 +39990,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1773, col: 5, offset: 57467},
+							pos:   position{line: 1783, col: 5, offset: 57731},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1773, col: 16, offset: 57478},
+								pos: position{line: 1783, col: 16, offset: 57742},
 								expr: &actionExpr{
-									pos: position{line: 1774, col: 9, offset: 57488},
+									pos: position{line: 1784, col: 9, offset: 57752},
 									run: (*parser).callonParagraph56,
 									expr: &seqExpr{
-										pos: position{line: 1774, col: 9, offset: 57488},
+										pos: position{line: 1784, col: 9, offset: 57752},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2883, col: 11, offset: 91021},
+												pos: position{line: 2893, col: 11, offset: 91285},
 												expr: &anyMatcher{
-													line: 2883, col: 13, offset: 91023,
+													line: 2893, col: 13, offset: 91287,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1775, col: 9, offset: 57503},
+												pos: position{line: 1785, col: 9, offset: 57767},
 												expr: &actionExpr{
 													pos: position{line: 677, col: 14, offset: 21557},
 													run: (*parser).callonParagraph61,
@@ -39995,18 +40015,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21557},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2883, col: 11, offset: 91021},
+																pos: position{line: 2893, col: 11, offset: 91285},
 																expr: &anyMatcher{
-																	line: 2883, col: 13, offset: 91023,
+																	line: 2893, col: 13, offset: 91287,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21564},
 																expr: &actionExpr{
-																	pos: position{line: 2866, col: 10, offset: 90687},
+																	pos: position{line: 2876, col: 10, offset: 90951},
 																	run: (*parser).callonParagraph66,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2866, col: 10, offset: 90687},
+																		pos:        position{line: 2876, col: 10, offset: 90951},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -40015,28 +40035,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2888, col: 8, offset: 91085},
+																pos: position{line: 2898, col: 8, offset: 91349},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2875, col: 12, offset: 90858},
+																		pos: position{line: 2885, col: 12, offset: 91122},
 																		run: (*parser).callonParagraph69,
 																		expr: &choiceExpr{
-																			pos: position{line: 2875, col: 13, offset: 90859},
+																			pos: position{line: 2885, col: 13, offset: 91123},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 13, offset: 90859},
+																					pos:        position{line: 2885, col: 13, offset: 91123},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 20, offset: 90866},
+																					pos:        position{line: 2885, col: 20, offset: 91130},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2875, col: 29, offset: 90875},
+																					pos:        position{line: 2885, col: 29, offset: 91139},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -40045,9 +40065,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2885, col: 8, offset: 91035},
+																		pos: position{line: 2895, col: 8, offset: 91299},
 																		expr: &anyMatcher{
-																			line: 2885, col: 9, offset: 91036,
+																			line: 2895, col: 9, offset: 91300,
 																		},
 																	},
 																},
@@ -40057,49 +40077,49 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1776, col: 9, offset: 57522},
+												pos: position{line: 1786, col: 9, offset: 57786},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1776, col: 10, offset: 57523},
+													pos:  position{line: 1786, col: 10, offset: 57787},
 													name: "BlockAttributes",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1777, col: 9, offset: 57547},
+												pos:   position{line: 1787, col: 9, offset: 57811},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1777, col: 15, offset: 57553},
+													pos: position{line: 1787, col: 15, offset: 57817},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2473, col: 22, offset: 79594},
+															pos: position{line: 2483, col: 22, offset: 79858},
 															run: (*parser).callonParagraph80,
 															expr: &seqExpr{
-																pos: position{line: 2473, col: 22, offset: 79594},
+																pos: position{line: 2483, col: 22, offset: 79858},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2478, col: 31, offset: 79815},
+																		pos:        position{line: 2488, col: 31, offset: 80079},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2478, col: 36, offset: 79820},
+																		pos: position{line: 2488, col: 36, offset: 80084},
 																		expr: &litMatcher{
-																			pos:        position{line: 2478, col: 37, offset: 79821},
+																			pos:        position{line: 2488, col: 37, offset: 80085},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2473, col: 49, offset: 79621},
+																		pos:   position{line: 2483, col: 49, offset: 79885},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2812, col: 13, offset: 89213},
+																			pos: position{line: 2822, col: 13, offset: 89477},
 																			run: (*parser).callonParagraph86,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2812, col: 13, offset: 89213},
+																				pos: position{line: 2822, col: 13, offset: 89477},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2812, col: 13, offset: 89213},
+																					pos:        position{line: 2822, col: 13, offset: 89477},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40109,28 +40129,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2888, col: 8, offset: 91085},
+																		pos: position{line: 2898, col: 8, offset: 91349},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2875, col: 12, offset: 90858},
+																				pos: position{line: 2885, col: 12, offset: 91122},
 																				run: (*parser).callonParagraph90,
 																				expr: &choiceExpr{
-																					pos: position{line: 2875, col: 13, offset: 90859},
+																					pos: position{line: 2885, col: 13, offset: 91123},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 13, offset: 90859},
+																							pos:        position{line: 2885, col: 13, offset: 91123},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 20, offset: 90866},
+																							pos:        position{line: 2885, col: 20, offset: 91130},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 29, offset: 90875},
+																							pos:        position{line: 2885, col: 29, offset: 91139},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40139,9 +40159,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2885, col: 8, offset: 91035},
+																				pos: position{line: 2895, col: 8, offset: 91299},
 																				expr: &anyMatcher{
-																					line: 2885, col: 9, offset: 91036,
+																					line: 2895, col: 9, offset: 91300,
 																				},
 																			},
 																		},
@@ -40150,21 +40170,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1785, col: 5, offset: 57782},
+															pos: position{line: 1795, col: 5, offset: 58046},
 															run: (*parser).callonParagraph97,
 															expr: &seqExpr{
-																pos: position{line: 1785, col: 5, offset: 57782},
+																pos: position{line: 1795, col: 5, offset: 58046},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1785, col: 5, offset: 57782},
+																		pos:   position{line: 1795, col: 5, offset: 58046},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2816, col: 14, offset: 89280},
+																			pos: position{line: 2826, col: 14, offset: 89544},
 																			run: (*parser).callonParagraph100,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2816, col: 14, offset: 89280},
+																				pos: position{line: 2826, col: 14, offset: 89544},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2816, col: 14, offset: 89280},
+																					pos:        position{line: 2826, col: 14, offset: 89544},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40174,32 +40194,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1786, col: 5, offset: 57806},
+																		pos: position{line: 1796, col: 5, offset: 58070},
 																		run: (*parser).callonParagraph103,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2888, col: 8, offset: 91085},
+																		pos: position{line: 2898, col: 8, offset: 91349},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2875, col: 12, offset: 90858},
+																				pos: position{line: 2885, col: 12, offset: 91122},
 																				run: (*parser).callonParagraph105,
 																				expr: &choiceExpr{
-																					pos: position{line: 2875, col: 13, offset: 90859},
+																					pos: position{line: 2885, col: 13, offset: 91123},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 13, offset: 90859},
+																							pos:        position{line: 2885, col: 13, offset: 91123},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 20, offset: 90866},
+																							pos:        position{line: 2885, col: 20, offset: 91130},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 29, offset: 90875},
+																							pos:        position{line: 2885, col: 29, offset: 91139},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40208,9 +40228,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2885, col: 8, offset: 91035},
+																				pos: position{line: 2895, col: 8, offset: 91299},
 																				expr: &anyMatcher{
-																					line: 2885, col: 9, offset: 91036,
+																					line: 2895, col: 9, offset: 91300,
 																				},
 																			},
 																		},
@@ -40232,16 +40252,16 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedText",
-			pos:  position{line: 1796, col: 1, offset: 58288},
+			pos:  position{line: 1806, col: 1, offset: 58552},
 			expr: &choiceExpr{
-				pos: position{line: 1796, col: 15, offset: 58302},
+				pos: position{line: 1806, col: 15, offset: 58566},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1796, col: 15, offset: 58302},
+						pos:  position{line: 1806, col: 15, offset: 58566},
 						name: "EscapedQuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1796, col: 35, offset: 58322},
+						pos:  position{line: 1806, col: 35, offset: 58586},
 						name: "UnescapedQuotedText",
 					},
 				},
@@ -40249,65 +40269,65 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedQuotedText",
-			pos:  position{line: 1798, col: 1, offset: 58343},
+			pos:  position{line: 1808, col: 1, offset: 58607},
 			expr: &actionExpr{
-				pos: position{line: 1799, col: 5, offset: 58368},
+				pos: position{line: 1809, col: 5, offset: 58632},
 				run: (*parser).callonEscapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1799, col: 5, offset: 58368},
+					pos: position{line: 1809, col: 5, offset: 58632},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1799, col: 5, offset: 58368},
+							pos:   position{line: 1809, col: 5, offset: 58632},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1799, col: 16, offset: 58379},
+								pos: position{line: 1809, col: 16, offset: 58643},
 								expr: &actionExpr{
-									pos: position{line: 1799, col: 17, offset: 58380},
+									pos: position{line: 1809, col: 17, offset: 58644},
 									run: (*parser).callonEscapedQuotedText5,
 									expr: &ruleRefExpr{
-										pos:  position{line: 1799, col: 17, offset: 58380},
+										pos:  position{line: 1809, col: 17, offset: 58644},
 										name: "LongHandAttributes",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 1802, col: 5, offset: 58448},
+							pos: position{line: 1812, col: 5, offset: 58712},
 							expr: &litMatcher{
-								pos:        position{line: 1802, col: 7, offset: 58450},
+								pos:        position{line: 1812, col: 7, offset: 58714},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1803, col: 5, offset: 58459},
+							pos:   position{line: 1813, col: 5, offset: 58723},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1804, col: 9, offset: 58477},
+								pos: position{line: 1814, col: 9, offset: 58741},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1804, col: 9, offset: 58477},
+										pos:  position{line: 1814, col: 9, offset: 58741},
 										name: "EscapedBoldText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1805, col: 11, offset: 58504},
+										pos:  position{line: 1815, col: 11, offset: 58768},
 										name: "EscapedItalicText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1806, col: 11, offset: 58532},
+										pos:  position{line: 1816, col: 11, offset: 58796},
 										name: "EscapedMonospaceText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1807, col: 11, offset: 58563},
+										pos:  position{line: 1817, col: 11, offset: 58827},
 										name: "EscapedMarkedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1808, col: 11, offset: 58591},
+										pos:  position{line: 1818, col: 11, offset: 58855},
 										name: "EscapedSubscriptText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1809, col: 11, offset: 58622},
+										pos:  position{line: 1819, col: 11, offset: 58886},
 										name: "EscapedSuperscriptText",
 									},
 								},
@@ -40319,36 +40339,36 @@ var g = &grammar{
 		},
 		{
 			name: "UnescapedQuotedText",
-			pos:  position{line: 1814, col: 1, offset: 58742},
+			pos:  position{line: 1824, col: 1, offset: 59006},
 			expr: &actionExpr{
-				pos: position{line: 1815, col: 5, offset: 58784},
+				pos: position{line: 1825, col: 5, offset: 59048},
 				run: (*parser).callonUnescapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1815, col: 5, offset: 58784},
+					pos: position{line: 1825, col: 5, offset: 59048},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1815, col: 5, offset: 58784},
+							pos:   position{line: 1825, col: 5, offset: 59048},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1815, col: 16, offset: 58795},
+								pos: position{line: 1825, col: 16, offset: 59059},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1815, col: 17, offset: 58796},
+									pos:  position{line: 1825, col: 17, offset: 59060},
 									name: "LongHandAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1816, col: 5, offset: 58821},
+							pos:   position{line: 1826, col: 5, offset: 59085},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1816, col: 14, offset: 58830},
+								pos: position{line: 1826, col: 14, offset: 59094},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1816, col: 14, offset: 58830},
+										pos:  position{line: 1826, col: 14, offset: 59094},
 										name: "SingleQuotedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1816, col: 33, offset: 58849},
+										pos:  position{line: 1826, col: 33, offset: 59113},
 										name: "DoubleQuotedText",
 									},
 								},
@@ -40360,32 +40380,32 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedText",
-			pos:  position{line: 1824, col: 1, offset: 59080},
+			pos:  position{line: 1834, col: 1, offset: 59344},
 			expr: &choiceExpr{
-				pos: position{line: 1825, col: 5, offset: 59105},
+				pos: position{line: 1835, col: 5, offset: 59369},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1825, col: 5, offset: 59105},
+						pos:  position{line: 1835, col: 5, offset: 59369},
 						name: "SingleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1826, col: 7, offset: 59132},
+						pos:  position{line: 1836, col: 7, offset: 59396},
 						name: "SingleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1827, col: 7, offset: 59160},
+						pos:  position{line: 1837, col: 7, offset: 59424},
 						name: "SingleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1828, col: 7, offset: 59192},
+						pos:  position{line: 1838, col: 7, offset: 59456},
 						name: "SingleQuoteMarkedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1829, col: 7, offset: 59220},
+						pos:  position{line: 1839, col: 7, offset: 59484},
 						name: "SubscriptText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1830, col: 7, offset: 59241},
+						pos:  position{line: 1840, col: 7, offset: 59505},
 						name: "SuperscriptText",
 					},
 				},
@@ -40393,24 +40413,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedText",
-			pos:  position{line: 1832, col: 1, offset: 59259},
+			pos:  position{line: 1842, col: 1, offset: 59523},
 			expr: &choiceExpr{
-				pos: position{line: 1833, col: 5, offset: 59284},
+				pos: position{line: 1843, col: 5, offset: 59548},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1833, col: 5, offset: 59284},
+						pos:  position{line: 1843, col: 5, offset: 59548},
 						name: "DoubleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1834, col: 7, offset: 59310},
+						pos:  position{line: 1844, col: 7, offset: 59574},
 						name: "DoubleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1835, col: 7, offset: 59338},
+						pos:  position{line: 1845, col: 7, offset: 59602},
 						name: "DoubleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1836, col: 7, offset: 59369},
+						pos:  position{line: 1846, col: 7, offset: 59633},
 						name: "DoubleQuoteMarkedText",
 					},
 				},
@@ -40418,26 +40438,26 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedTextElement",
-			pos:  position{line: 1850, col: 1, offset: 59723},
+			pos:  position{line: 1860, col: 1, offset: 59987},
 			expr: &choiceExpr{
-				pos: position{line: 1851, col: 5, offset: 59749},
+				pos: position{line: 1861, col: 5, offset: 60013},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2765, col: 5, offset: 87929},
+						pos: position{line: 2775, col: 5, offset: 88193},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2765, col: 5, offset: 87929},
+							pos: position{line: 2775, col: 5, offset: 88193},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2765, col: 5, offset: 87929},
+									pos:   position{line: 2775, col: 5, offset: 88193},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2765, col: 11, offset: 87935},
+										pos: position{line: 2775, col: 11, offset: 88199},
 										run: (*parser).callonQuotedTextElement5,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2765, col: 11, offset: 87935},
+											pos: position{line: 2775, col: 11, offset: 88199},
 											expr: &charClassMatcher{
-												pos:        position{line: 2765, col: 11, offset: 87935},
+												pos:        position{line: 2775, col: 11, offset: 88199},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40447,36 +40467,36 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2768, col: 5, offset: 87993},
+									pos: position{line: 2778, col: 5, offset: 88257},
 									expr: &seqExpr{
-										pos: position{line: 2769, col: 9, offset: 88004},
+										pos: position{line: 2779, col: 9, offset: 88268},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2769, col: 9, offset: 88004},
+												pos:        position{line: 2779, col: 9, offset: 88268},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2770, col: 9, offset: 88053},
+												pos: position{line: 2780, col: 9, offset: 88317},
 												run: (*parser).callonQuotedTextElement11,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2774, col: 5, offset: 88133},
+									pos: position{line: 2784, col: 5, offset: 88397},
 									expr: &seqExpr{
-										pos: position{line: 2775, col: 9, offset: 88144},
+										pos: position{line: 2785, col: 9, offset: 88408},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2775, col: 9, offset: 88144},
+												pos:        position{line: 2785, col: 9, offset: 88408},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2775, col: 13, offset: 88148},
+												pos:        position{line: 2785, col: 13, offset: 88412},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40489,12 +40509,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2870, col: 11, offset: 90748},
+						pos: position{line: 2880, col: 11, offset: 91012},
 						run: (*parser).callonQuotedTextElement16,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2870, col: 11, offset: 90748},
+							pos: position{line: 2880, col: 11, offset: 91012},
 							expr: &charClassMatcher{
-								pos:        position{line: 2870, col: 11, offset: 90748},
+								pos:        position{line: 2880, col: 11, offset: 91012},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -40503,29 +40523,29 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1853, col: 7, offset: 59812},
+						pos:  position{line: 1863, col: 7, offset: 60076},
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2491, col: 5, offset: 80311},
+						pos: position{line: 2501, col: 5, offset: 80575},
 						run: (*parser).callonQuotedTextElement20,
 						expr: &seqExpr{
-							pos: position{line: 2491, col: 5, offset: 80311},
+							pos: position{line: 2501, col: 5, offset: 80575},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2491, col: 5, offset: 80311},
+									pos: position{line: 2501, col: 5, offset: 80575},
 									run: (*parser).callonQuotedTextElement22,
 								},
 								&litMatcher{
-									pos:        position{line: 2494, col: 5, offset: 80382},
+									pos:        position{line: 2504, col: 5, offset: 80646},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2494, col: 10, offset: 80387},
+									pos: position{line: 2504, col: 10, offset: 80651},
 									expr: &charClassMatcher{
-										pos:        position{line: 2494, col: 11, offset: 80388},
+										pos:        position{line: 2504, col: 11, offset: 80652},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -40536,29 +40556,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2500, col: 5, offset: 80580},
+						pos: position{line: 2510, col: 5, offset: 80844},
 						run: (*parser).callonQuotedTextElement26,
 						expr: &seqExpr{
-							pos: position{line: 2500, col: 5, offset: 80580},
+							pos: position{line: 2510, col: 5, offset: 80844},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2500, col: 5, offset: 80580},
+									pos: position{line: 2510, col: 5, offset: 80844},
 									run: (*parser).callonQuotedTextElement28,
 								},
 								&andCodeExpr{
-									pos: position{line: 2503, col: 5, offset: 80651},
+									pos: position{line: 2513, col: 5, offset: 80915},
 									run: (*parser).callonQuotedTextElement29,
 								},
 								&litMatcher{
-									pos:        position{line: 2507, col: 5, offset: 80776},
+									pos:        position{line: 2517, col: 5, offset: 81040},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2507, col: 9, offset: 80780},
+									pos: position{line: 2517, col: 9, offset: 81044},
 									expr: &charClassMatcher{
-										pos:        position{line: 2507, col: 10, offset: 80781},
+										pos:        position{line: 2517, col: 10, offset: 81045},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -40569,27 +40589,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2783, col: 5, offset: 88341},
+						pos: position{line: 2793, col: 5, offset: 88605},
 						run: (*parser).callonQuotedTextElement33,
 						expr: &choiceExpr{
-							pos: position{line: 2784, col: 9, offset: 88351},
+							pos: position{line: 2794, col: 9, offset: 88615},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2784, col: 10, offset: 88352},
+									pos:        position{line: 2794, col: 10, offset: 88616},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2786, col: 13, offset: 88449},
+									pos: position{line: 2796, col: 13, offset: 88713},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2786, col: 13, offset: 88449},
+											pos: position{line: 2796, col: 13, offset: 88713},
 											run: (*parser).callonQuotedTextElement37,
 										},
 										&litMatcher{
-											pos:        position{line: 2789, col: 13, offset: 88549},
+											pos:        position{line: 2799, col: 13, offset: 88813},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -40597,20 +40617,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2789, col: 19, offset: 88555},
+									pos:        position{line: 2799, col: 19, offset: 88819},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2792, col: 13, offset: 88593},
+									pos: position{line: 2802, col: 13, offset: 88857},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2792, col: 13, offset: 88593},
+											pos: position{line: 2802, col: 13, offset: 88857},
 											run: (*parser).callonQuotedTextElement41,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2795, col: 14, offset: 88686},
+											pos:        position{line: 2805, col: 14, offset: 88950},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -40619,18 +40639,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2797, col: 12, offset: 88730},
+									pos: position{line: 2807, col: 12, offset: 88994},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2797, col: 12, offset: 88730},
+											pos:        position{line: 2807, col: 12, offset: 88994},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2797, col: 16, offset: 88734},
+											pos: position{line: 2807, col: 16, offset: 88998},
 											expr: &litMatcher{
-												pos:        position{line: 2797, col: 17, offset: 88735},
+												pos:        position{line: 2807, col: 17, offset: 88999},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -40988,31 +41008,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2879, col: 18, offset: 90958},
+						pos: position{line: 2889, col: 18, offset: 91222},
 						run: (*parser).callonQuotedTextElement116,
 						expr: &seqExpr{
-							pos: position{line: 2879, col: 18, offset: 90958},
+							pos: position{line: 2889, col: 18, offset: 91222},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2875, col: 12, offset: 90858},
+									pos: position{line: 2885, col: 12, offset: 91122},
 									run: (*parser).callonQuotedTextElement118,
 									expr: &choiceExpr{
-										pos: position{line: 2875, col: 13, offset: 90859},
+										pos: position{line: 2885, col: 13, offset: 91123},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2875, col: 13, offset: 90859},
+												pos:        position{line: 2885, col: 13, offset: 91123},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2875, col: 20, offset: 90866},
+												pos:        position{line: 2885, col: 20, offset: 91130},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2875, col: 29, offset: 90875},
+												pos:        position{line: 2885, col: 29, offset: 91139},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -41021,27 +41041,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2879, col: 26, offset: 90966},
+									pos: position{line: 2889, col: 26, offset: 91230},
 									expr: &actionExpr{
-										pos: position{line: 2875, col: 12, offset: 90858},
+										pos: position{line: 2885, col: 12, offset: 91122},
 										run: (*parser).callonQuotedTextElement124,
 										expr: &choiceExpr{
-											pos: position{line: 2875, col: 13, offset: 90859},
+											pos: position{line: 2885, col: 13, offset: 91123},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2875, col: 13, offset: 90859},
+													pos:        position{line: 2885, col: 13, offset: 91123},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2875, col: 20, offset: 90866},
+													pos:        position{line: 2885, col: 20, offset: 91130},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2875, col: 29, offset: 90875},
+													pos:        position{line: 2885, col: 29, offset: 91139},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -41054,31 +41074,31 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1858, col: 7, offset: 59979},
+						pos:  position{line: 1868, col: 7, offset: 60243},
 						name: "QuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1859, col: 7, offset: 60026},
+						pos:  position{line: 1869, col: 7, offset: 60290},
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2460, col: 5, offset: 79140},
+						pos: position{line: 2470, col: 5, offset: 79404},
 						run: (*parser).callonQuotedTextElement131,
 						expr: &seqExpr{
-							pos: position{line: 2460, col: 5, offset: 79140},
+							pos: position{line: 2470, col: 5, offset: 79404},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2460, col: 5, offset: 79140},
+									pos: position{line: 2470, col: 5, offset: 79404},
 									run: (*parser).callonQuotedTextElement133,
 								},
 								&labeledExpr{
-									pos:   position{line: 2463, col: 5, offset: 79216},
+									pos:   position{line: 2473, col: 5, offset: 79480},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2464, col: 9, offset: 79234},
+										pos: position{line: 2474, col: 9, offset: 79498},
 										run: (*parser).callonQuotedTextElement135,
 										expr: &charClassMatcher{
-											pos:        position{line: 2464, col: 10, offset: 79235},
+											pos:        position{line: 2474, col: 10, offset: 79499},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -41129,10 +41149,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2805, col: 12, offset: 88995},
+						pos: position{line: 2815, col: 12, offset: 89259},
 						run: (*parser).callonQuotedTextElement145,
 						expr: &charClassMatcher{
-							pos:        position{line: 2805, col: 12, offset: 88995},
+							pos:        position{line: 2815, col: 12, offset: 89259},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -41144,29 +41164,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldText",
-			pos:  position{line: 1877, col: 1, offset: 60496},
+			pos:  position{line: 1887, col: 1, offset: 60760},
 			expr: &actionExpr{
-				pos: position{line: 1878, col: 5, offset: 60524},
+				pos: position{line: 1888, col: 5, offset: 60788},
 				run: (*parser).callonDoubleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1878, col: 5, offset: 60524},
+					pos: position{line: 1888, col: 5, offset: 60788},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1873, col: 38, offset: 60449},
+							pos:        position{line: 1883, col: 38, offset: 60713},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1879, col: 5, offset: 60563},
+							pos:   position{line: 1889, col: 5, offset: 60827},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1879, col: 15, offset: 60573},
+								pos:  position{line: 1889, col: 15, offset: 60837},
 								name: "DoubleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1875, col: 36, offset: 60490},
+							pos:        position{line: 1885, col: 36, offset: 60754},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
@@ -41177,44 +41197,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElements",
-			pos:  position{line: 1884, col: 1, offset: 60733},
+			pos:  position{line: 1894, col: 1, offset: 60997},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1884, col: 32, offset: 60764},
+				pos: position{line: 1894, col: 32, offset: 61028},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1884, col: 32, offset: 60764},
+					pos:  position{line: 1894, col: 32, offset: 61028},
 					name: "DoubleQuoteBoldTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteBoldTextElement",
-			pos:  position{line: 1886, col: 1, offset: 60795},
+			pos:  position{line: 1896, col: 1, offset: 61059},
 			expr: &actionExpr{
-				pos: position{line: 1887, col: 5, offset: 60830},
+				pos: position{line: 1897, col: 5, offset: 61094},
 				run: (*parser).callonDoubleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1887, col: 5, offset: 60830},
+					pos: position{line: 1897, col: 5, offset: 61094},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2883, col: 11, offset: 91021},
+							pos: position{line: 2893, col: 11, offset: 91285},
 							expr: &anyMatcher{
-								line: 2883, col: 13, offset: 91023,
+								line: 2893, col: 13, offset: 91287,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1888, col: 5, offset: 60841},
+							pos: position{line: 1898, col: 5, offset: 61105},
 							expr: &litMatcher{
-								pos:        position{line: 1875, col: 36, offset: 60490},
+								pos:        position{line: 1885, col: 36, offset: 60754},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1889, col: 5, offset: 60878},
+							pos:   position{line: 1899, col: 5, offset: 61142},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1889, col: 14, offset: 60887},
+								pos:  position{line: 1899, col: 14, offset: 61151},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41224,29 +41244,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldText",
-			pos:  position{line: 1914, col: 1, offset: 61567},
+			pos:  position{line: 1924, col: 1, offset: 61831},
 			expr: &actionExpr{
-				pos: position{line: 1915, col: 5, offset: 61595},
+				pos: position{line: 1925, col: 5, offset: 61859},
 				run: (*parser).callonSingleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1915, col: 5, offset: 61595},
+					pos: position{line: 1925, col: 5, offset: 61859},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1898, col: 5, offset: 61121},
+							pos:        position{line: 1908, col: 5, offset: 61385},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1899, col: 5, offset: 61130},
+							pos: position{line: 1909, col: 5, offset: 61394},
 							run: (*parser).callonSingleQuoteBoldText4,
 						},
 						&andExpr{
-							pos: position{line: 1903, col: 5, offset: 61248},
+							pos: position{line: 1913, col: 5, offset: 61512},
 							expr: &notExpr{
-								pos: position{line: 1903, col: 7, offset: 61250},
+								pos: position{line: 1913, col: 7, offset: 61514},
 								expr: &litMatcher{
-									pos:        position{line: 1903, col: 8, offset: 61251},
+									pos:        position{line: 1913, col: 8, offset: 61515},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41254,38 +41274,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1916, col: 5, offset: 61633},
+							pos:   position{line: 1926, col: 5, offset: 61897},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1916, col: 15, offset: 61643},
+								pos:  position{line: 1926, col: 15, offset: 61907},
 								name: "SingleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1906, col: 5, offset: 61371},
+							pos:        position{line: 1916, col: 5, offset: 61635},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&notExpr{
-							pos: position{line: 1907, col: 5, offset: 61380},
+							pos: position{line: 1917, col: 5, offset: 61644},
 							expr: &litMatcher{
-								pos:        position{line: 1907, col: 6, offset: 61381},
+								pos:        position{line: 1917, col: 6, offset: 61645},
 								val:        "*",
 								ignoreCase: false,
 								want:       "\"*\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1908, col: 5, offset: 61444},
+							pos: position{line: 1918, col: 5, offset: 61708},
 							run: (*parser).callonSingleQuoteBoldText13,
 						},
 						&andExpr{
-							pos: position{line: 1912, col: 5, offset: 61553},
+							pos: position{line: 1922, col: 5, offset: 61817},
 							expr: &notExpr{
-								pos: position{line: 1912, col: 7, offset: 61555},
+								pos: position{line: 1922, col: 7, offset: 61819},
 								expr: &charClassMatcher{
-									pos:        position{line: 2756, col: 13, offset: 87782},
+									pos:        position{line: 2766, col: 13, offset: 88046},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -41299,20 +41319,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElements",
-			pos:  position{line: 1921, col: 1, offset: 61803},
+			pos:  position{line: 1931, col: 1, offset: 62067},
 			expr: &actionExpr{
-				pos: position{line: 1922, col: 5, offset: 61840},
+				pos: position{line: 1932, col: 5, offset: 62104},
 				run: (*parser).callonSingleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1922, col: 5, offset: 61840},
+					pos: position{line: 1932, col: 5, offset: 62104},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1922, col: 5, offset: 61840},
+							pos: position{line: 1932, col: 5, offset: 62104},
 							expr: &actionExpr{
-								pos: position{line: 2866, col: 10, offset: 90687},
+								pos: position{line: 2876, col: 10, offset: 90951},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2866, col: 10, offset: 90687},
+									pos:        position{line: 2876, col: 10, offset: 90951},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41321,18 +41341,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1923, col: 5, offset: 61879},
+							pos:   position{line: 1933, col: 5, offset: 62143},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1923, col: 14, offset: 61888},
+								pos: position{line: 1933, col: 14, offset: 62152},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1923, col: 15, offset: 61889},
+									pos:  position{line: 1933, col: 15, offset: 62153},
 									name: "SingleQuoteBoldTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1924, col: 5, offset: 61923},
+							pos: position{line: 1934, col: 5, offset: 62187},
 							run: (*parser).callonSingleQuoteBoldTextElements9,
 						},
 					},
@@ -41341,49 +41361,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElement",
-			pos:  position{line: 1930, col: 1, offset: 62064},
+			pos:  position{line: 1940, col: 1, offset: 62328},
 			expr: &actionExpr{
-				pos: position{line: 1931, col: 5, offset: 62099},
+				pos: position{line: 1941, col: 5, offset: 62363},
 				run: (*parser).callonSingleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1931, col: 5, offset: 62099},
+					pos: position{line: 1941, col: 5, offset: 62363},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2883, col: 11, offset: 91021},
+							pos: position{line: 2893, col: 11, offset: 91285},
 							expr: &anyMatcher{
-								line: 2883, col: 13, offset: 91023,
+								line: 2893, col: 13, offset: 91287,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1932, col: 5, offset: 62127},
+							pos: position{line: 1942, col: 5, offset: 62391},
 							expr: &seqExpr{
-								pos: position{line: 1906, col: 5, offset: 61371},
+								pos: position{line: 1916, col: 5, offset: 61635},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1906, col: 5, offset: 61371},
+										pos:        position{line: 1916, col: 5, offset: 61635},
 										val:        "*",
 										ignoreCase: false,
 										want:       "\"*\"",
 									},
 									&notExpr{
-										pos: position{line: 1907, col: 5, offset: 61380},
+										pos: position{line: 1917, col: 5, offset: 61644},
 										expr: &litMatcher{
-											pos:        position{line: 1907, col: 6, offset: 61381},
+											pos:        position{line: 1917, col: 6, offset: 61645},
 											val:        "*",
 											ignoreCase: false,
 											want:       "\"*\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1908, col: 5, offset: 61444},
+										pos: position{line: 1918, col: 5, offset: 61708},
 										run: (*parser).callonSingleQuoteBoldTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 1912, col: 5, offset: 61553},
+										pos: position{line: 1922, col: 5, offset: 61817},
 										expr: &notExpr{
-											pos: position{line: 1912, col: 7, offset: 61555},
+											pos: position{line: 1922, col: 7, offset: 61819},
 											expr: &charClassMatcher{
-												pos:        position{line: 2756, col: 13, offset: 87782},
+												pos:        position{line: 2766, col: 13, offset: 88046},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41395,10 +41415,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1933, col: 5, offset: 62164},
+							pos:   position{line: 1943, col: 5, offset: 62428},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1933, col: 14, offset: 62173},
+								pos:  position{line: 1943, col: 14, offset: 62437},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41408,35 +41428,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedBoldText",
-			pos:  position{line: 1938, col: 1, offset: 62261},
+			pos:  position{line: 1948, col: 1, offset: 62525},
 			expr: &choiceExpr{
-				pos: position{line: 1940, col: 5, offset: 62322},
+				pos: position{line: 1950, col: 5, offset: 62586},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1940, col: 5, offset: 62322},
+						pos: position{line: 1950, col: 5, offset: 62586},
 						run: (*parser).callonEscapedBoldText2,
 						expr: &seqExpr{
-							pos: position{line: 1940, col: 5, offset: 62322},
+							pos: position{line: 1950, col: 5, offset: 62586},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1940, col: 5, offset: 62322},
+									pos:   position{line: 1950, col: 5, offset: 62586},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1846, col: 25, offset: 59669},
+										pos: position{line: 1856, col: 25, offset: 59933},
 										run: (*parser).callonEscapedBoldText5,
 										expr: &seqExpr{
-											pos: position{line: 1846, col: 25, offset: 59669},
+											pos: position{line: 1856, col: 25, offset: 59933},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1846, col: 25, offset: 59669},
+													pos:        position{line: 1856, col: 25, offset: 59933},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1846, col: 30, offset: 59674},
+													pos: position{line: 1856, col: 30, offset: 59938},
 													expr: &litMatcher{
-														pos:        position{line: 1846, col: 30, offset: 59674},
+														pos:        position{line: 1856, col: 30, offset: 59938},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -41447,21 +41467,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1940, col: 40, offset: 62357},
+									pos:        position{line: 1950, col: 40, offset: 62621},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1940, col: 45, offset: 62362},
+									pos:   position{line: 1950, col: 45, offset: 62626},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1940, col: 55, offset: 62372},
+										pos:  position{line: 1950, col: 55, offset: 62636},
 										name: "DoubleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1940, col: 84, offset: 62401},
+									pos:        position{line: 1950, col: 84, offset: 62665},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
@@ -41470,21 +41490,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1944, col: 7, offset: 62565},
+						pos: position{line: 1954, col: 7, offset: 62829},
 						run: (*parser).callonEscapedBoldText14,
 						expr: &seqExpr{
-							pos: position{line: 1944, col: 7, offset: 62565},
+							pos: position{line: 1954, col: 7, offset: 62829},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1944, col: 7, offset: 62565},
+									pos:   position{line: 1954, col: 7, offset: 62829},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1842, col: 25, offset: 59596},
+										pos: position{line: 1852, col: 25, offset: 59860},
 										run: (*parser).callonEscapedBoldText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1842, col: 25, offset: 59596},
+											pos: position{line: 1852, col: 25, offset: 59860},
 											expr: &litMatcher{
-												pos:        position{line: 1842, col: 25, offset: 59596},
+												pos:        position{line: 1852, col: 25, offset: 59860},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41493,21 +41513,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1944, col: 42, offset: 62600},
+									pos:        position{line: 1954, col: 42, offset: 62864},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1944, col: 47, offset: 62605},
+									pos:   position{line: 1954, col: 47, offset: 62869},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1944, col: 57, offset: 62615},
+										pos:  position{line: 1954, col: 57, offset: 62879},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1944, col: 86, offset: 62644},
+									pos:        position{line: 1954, col: 86, offset: 62908},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41516,21 +41536,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1949, col: 7, offset: 62846},
+						pos: position{line: 1959, col: 7, offset: 63110},
 						run: (*parser).callonEscapedBoldText24,
 						expr: &seqExpr{
-							pos: position{line: 1949, col: 7, offset: 62846},
+							pos: position{line: 1959, col: 7, offset: 63110},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1949, col: 7, offset: 62846},
+									pos:   position{line: 1959, col: 7, offset: 63110},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1842, col: 25, offset: 59596},
+										pos: position{line: 1852, col: 25, offset: 59860},
 										run: (*parser).callonEscapedBoldText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1842, col: 25, offset: 59596},
+											pos: position{line: 1852, col: 25, offset: 59860},
 											expr: &litMatcher{
-												pos:        position{line: 1842, col: 25, offset: 59596},
+												pos:        position{line: 1852, col: 25, offset: 59860},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41539,21 +41559,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1949, col: 42, offset: 62881},
+									pos:        position{line: 1959, col: 42, offset: 63145},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1949, col: 46, offset: 62885},
+									pos:   position{line: 1959, col: 46, offset: 63149},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1949, col: 56, offset: 62895},
+										pos:  position{line: 1959, col: 56, offset: 63159},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1949, col: 85, offset: 62924},
+									pos:        position{line: 1959, col: 85, offset: 63188},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41566,29 +41586,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicText",
-			pos:  position{line: 1966, col: 1, offset: 63404},
+			pos:  position{line: 1976, col: 1, offset: 63668},
 			expr: &actionExpr{
-				pos: position{line: 1967, col: 5, offset: 63434},
+				pos: position{line: 1977, col: 5, offset: 63698},
 				run: (*parser).callonDoubleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 1967, col: 5, offset: 63434},
+					pos: position{line: 1977, col: 5, offset: 63698},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1962, col: 40, offset: 63355},
+							pos:        position{line: 1972, col: 40, offset: 63619},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1968, col: 5, offset: 63475},
+							pos:   position{line: 1978, col: 5, offset: 63739},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1968, col: 15, offset: 63485},
+								pos:  position{line: 1978, col: 15, offset: 63749},
 								name: "DoubleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1964, col: 38, offset: 63398},
+							pos:        position{line: 1974, col: 38, offset: 63662},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
@@ -41599,44 +41619,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElements",
-			pos:  position{line: 1973, col: 1, offset: 63650},
+			pos:  position{line: 1983, col: 1, offset: 63914},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1973, col: 34, offset: 63683},
+				pos: position{line: 1983, col: 34, offset: 63947},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1973, col: 34, offset: 63683},
+					pos:  position{line: 1983, col: 34, offset: 63947},
 					name: "DoubleQuoteItalicTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteItalicTextElement",
-			pos:  position{line: 1975, col: 1, offset: 63715},
+			pos:  position{line: 1985, col: 1, offset: 63979},
 			expr: &actionExpr{
-				pos: position{line: 1976, col: 5, offset: 63752},
+				pos: position{line: 1986, col: 5, offset: 64016},
 				run: (*parser).callonDoubleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1976, col: 5, offset: 63752},
+					pos: position{line: 1986, col: 5, offset: 64016},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2883, col: 11, offset: 91021},
+							pos: position{line: 2893, col: 11, offset: 91285},
 							expr: &anyMatcher{
-								line: 2883, col: 13, offset: 91023,
+								line: 2893, col: 13, offset: 91287,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1977, col: 5, offset: 63763},
+							pos: position{line: 1987, col: 5, offset: 64027},
 							expr: &litMatcher{
-								pos:        position{line: 1964, col: 38, offset: 63398},
+								pos:        position{line: 1974, col: 38, offset: 63662},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1978, col: 5, offset: 63802},
+							pos:   position{line: 1988, col: 5, offset: 64066},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1978, col: 14, offset: 63811},
+								pos:  position{line: 1988, col: 14, offset: 64075},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41646,29 +41666,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicText",
-			pos:  position{line: 2004, col: 1, offset: 64495},
+			pos:  position{line: 2014, col: 1, offset: 64759},
 			expr: &actionExpr{
-				pos: position{line: 2005, col: 5, offset: 64525},
+				pos: position{line: 2015, col: 5, offset: 64789},
 				run: (*parser).callonSingleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2005, col: 5, offset: 64525},
+					pos: position{line: 2015, col: 5, offset: 64789},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1987, col: 5, offset: 64053},
+							pos:        position{line: 1997, col: 5, offset: 64317},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1988, col: 5, offset: 64062},
+							pos: position{line: 1998, col: 5, offset: 64326},
 							run: (*parser).callonSingleQuoteItalicText4,
 						},
 						&andExpr{
-							pos: position{line: 1992, col: 5, offset: 64182},
+							pos: position{line: 2002, col: 5, offset: 64446},
 							expr: &notExpr{
-								pos: position{line: 1992, col: 7, offset: 64184},
+								pos: position{line: 2002, col: 7, offset: 64448},
 								expr: &litMatcher{
-									pos:        position{line: 1992, col: 8, offset: 64185},
+									pos:        position{line: 2002, col: 8, offset: 64449},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -41676,38 +41696,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2006, col: 5, offset: 64565},
+							pos:   position{line: 2016, col: 5, offset: 64829},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2006, col: 15, offset: 64575},
+								pos:  position{line: 2016, col: 15, offset: 64839},
 								name: "SingleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1996, col: 5, offset: 64295},
+							pos:        position{line: 2006, col: 5, offset: 64559},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&notExpr{
-							pos: position{line: 1997, col: 5, offset: 64304},
+							pos: position{line: 2007, col: 5, offset: 64568},
 							expr: &litMatcher{
-								pos:        position{line: 1997, col: 6, offset: 64305},
+								pos:        position{line: 2007, col: 6, offset: 64569},
 								val:        "_",
 								ignoreCase: false,
 								want:       "\"_\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1998, col: 5, offset: 64370},
+							pos: position{line: 2008, col: 5, offset: 64634},
 							run: (*parser).callonSingleQuoteItalicText13,
 						},
 						&andExpr{
-							pos: position{line: 2002, col: 5, offset: 64481},
+							pos: position{line: 2012, col: 5, offset: 64745},
 							expr: &notExpr{
-								pos: position{line: 2002, col: 7, offset: 64483},
+								pos: position{line: 2012, col: 7, offset: 64747},
 								expr: &charClassMatcher{
-									pos:        position{line: 2756, col: 13, offset: 87782},
+									pos:        position{line: 2766, col: 13, offset: 88046},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -41721,20 +41741,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElements",
-			pos:  position{line: 2011, col: 1, offset: 64742},
+			pos:  position{line: 2021, col: 1, offset: 65006},
 			expr: &actionExpr{
-				pos: position{line: 2012, col: 5, offset: 64780},
+				pos: position{line: 2022, col: 5, offset: 65044},
 				run: (*parser).callonSingleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2012, col: 5, offset: 64780},
+					pos: position{line: 2022, col: 5, offset: 65044},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2012, col: 5, offset: 64780},
+							pos: position{line: 2022, col: 5, offset: 65044},
 							expr: &actionExpr{
-								pos: position{line: 2866, col: 10, offset: 90687},
+								pos: position{line: 2876, col: 10, offset: 90951},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2866, col: 10, offset: 90687},
+									pos:        position{line: 2876, col: 10, offset: 90951},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41743,18 +41763,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2013, col: 5, offset: 64819},
+							pos:   position{line: 2023, col: 5, offset: 65083},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2013, col: 14, offset: 64828},
+								pos: position{line: 2023, col: 14, offset: 65092},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2013, col: 15, offset: 64829},
+									pos:  position{line: 2023, col: 15, offset: 65093},
 									name: "SingleQuoteItalicTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2014, col: 5, offset: 64864},
+							pos: position{line: 2024, col: 5, offset: 65128},
 							run: (*parser).callonSingleQuoteItalicTextElements9,
 						},
 					},
@@ -41763,49 +41783,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElement",
-			pos:  position{line: 2020, col: 1, offset: 65005},
+			pos:  position{line: 2030, col: 1, offset: 65269},
 			expr: &actionExpr{
-				pos: position{line: 2021, col: 5, offset: 65042},
+				pos: position{line: 2031, col: 5, offset: 65306},
 				run: (*parser).callonSingleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2021, col: 5, offset: 65042},
+					pos: position{line: 2031, col: 5, offset: 65306},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2883, col: 11, offset: 91021},
+							pos: position{line: 2893, col: 11, offset: 91285},
 							expr: &anyMatcher{
-								line: 2883, col: 13, offset: 91023,
+								line: 2893, col: 13, offset: 91287,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2022, col: 5, offset: 65053},
+							pos: position{line: 2032, col: 5, offset: 65317},
 							expr: &seqExpr{
-								pos: position{line: 1996, col: 5, offset: 64295},
+								pos: position{line: 2006, col: 5, offset: 64559},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1996, col: 5, offset: 64295},
+										pos:        position{line: 2006, col: 5, offset: 64559},
 										val:        "_",
 										ignoreCase: false,
 										want:       "\"_\"",
 									},
 									&notExpr{
-										pos: position{line: 1997, col: 5, offset: 64304},
+										pos: position{line: 2007, col: 5, offset: 64568},
 										expr: &litMatcher{
-											pos:        position{line: 1997, col: 6, offset: 64305},
+											pos:        position{line: 2007, col: 6, offset: 64569},
 											val:        "_",
 											ignoreCase: false,
 											want:       "\"_\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1998, col: 5, offset: 64370},
+										pos: position{line: 2008, col: 5, offset: 64634},
 										run: (*parser).callonSingleQuoteItalicTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2002, col: 5, offset: 64481},
+										pos: position{line: 2012, col: 5, offset: 64745},
 										expr: &notExpr{
-											pos: position{line: 2002, col: 7, offset: 64483},
+											pos: position{line: 2012, col: 7, offset: 64747},
 											expr: &charClassMatcher{
-												pos:        position{line: 2756, col: 13, offset: 87782},
+												pos:        position{line: 2766, col: 13, offset: 88046},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41817,10 +41837,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2023, col: 5, offset: 65092},
+							pos:   position{line: 2033, col: 5, offset: 65356},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2023, col: 14, offset: 65101},
+								pos:  position{line: 2033, col: 14, offset: 65365},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41830,35 +41850,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedItalicText",
-			pos:  position{line: 2028, col: 1, offset: 65189},
+			pos:  position{line: 2038, col: 1, offset: 65453},
 			expr: &choiceExpr{
-				pos: position{line: 2030, col: 5, offset: 65254},
+				pos: position{line: 2040, col: 5, offset: 65518},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2030, col: 5, offset: 65254},
+						pos: position{line: 2040, col: 5, offset: 65518},
 						run: (*parser).callonEscapedItalicText2,
 						expr: &seqExpr{
-							pos: position{line: 2030, col: 5, offset: 65254},
+							pos: position{line: 2040, col: 5, offset: 65518},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2030, col: 5, offset: 65254},
+									pos:   position{line: 2040, col: 5, offset: 65518},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1846, col: 25, offset: 59669},
+										pos: position{line: 1856, col: 25, offset: 59933},
 										run: (*parser).callonEscapedItalicText5,
 										expr: &seqExpr{
-											pos: position{line: 1846, col: 25, offset: 59669},
+											pos: position{line: 1856, col: 25, offset: 59933},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1846, col: 25, offset: 59669},
+													pos:        position{line: 1856, col: 25, offset: 59933},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1846, col: 30, offset: 59674},
+													pos: position{line: 1856, col: 30, offset: 59938},
 													expr: &litMatcher{
-														pos:        position{line: 1846, col: 30, offset: 59674},
+														pos:        position{line: 1856, col: 30, offset: 59938},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -41869,21 +41889,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2030, col: 40, offset: 65289},
+									pos:        position{line: 2040, col: 40, offset: 65553},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2030, col: 45, offset: 65294},
+									pos:   position{line: 2040, col: 45, offset: 65558},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2030, col: 55, offset: 65304},
+										pos:  position{line: 2040, col: 55, offset: 65568},
 										name: "DoubleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2030, col: 86, offset: 65335},
+									pos:        position{line: 2040, col: 86, offset: 65599},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
@@ -41892,21 +41912,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2034, col: 7, offset: 65500},
+						pos: position{line: 2044, col: 7, offset: 65764},
 						run: (*parser).callonEscapedItalicText14,
 						expr: &seqExpr{
-							pos: position{line: 2034, col: 7, offset: 65500},
+							pos: position{line: 2044, col: 7, offset: 65764},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2034, col: 7, offset: 65500},
+									pos:   position{line: 2044, col: 7, offset: 65764},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1842, col: 25, offset: 59596},
+										pos: position{line: 1852, col: 25, offset: 59860},
 										run: (*parser).callonEscapedItalicText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1842, col: 25, offset: 59596},
+											pos: position{line: 1852, col: 25, offset: 59860},
 											expr: &litMatcher{
-												pos:        position{line: 1842, col: 25, offset: 59596},
+												pos:        position{line: 1852, col: 25, offset: 59860},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41915,21 +41935,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2034, col: 42, offset: 65535},
+									pos:        position{line: 2044, col: 42, offset: 65799},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2034, col: 47, offset: 65540},
+									pos:   position{line: 2044, col: 47, offset: 65804},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2034, col: 57, offset: 65550},
+										pos:  position{line: 2044, col: 57, offset: 65814},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2034, col: 88, offset: 65581},
+									pos:        position{line: 2044, col: 88, offset: 65845},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -41938,21 +41958,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2039, col: 7, offset: 65822},
+						pos: position{line: 2049, col: 7, offset: 66086},
 						run: (*parser).callonEscapedItalicText24,
 						expr: &seqExpr{
-							pos: position{line: 2039, col: 7, offset: 65822},
+							pos: position{line: 2049, col: 7, offset: 66086},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2039, col: 7, offset: 65822},
+									pos:   position{line: 2049, col: 7, offset: 66086},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1842, col: 25, offset: 59596},
+										pos: position{line: 1852, col: 25, offset: 59860},
 										run: (*parser).callonEscapedItalicText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1842, col: 25, offset: 59596},
+											pos: position{line: 1852, col: 25, offset: 59860},
 											expr: &litMatcher{
-												pos:        position{line: 1842, col: 25, offset: 59596},
+												pos:        position{line: 1852, col: 25, offset: 59860},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41961,21 +41981,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2039, col: 42, offset: 65857},
+									pos:        position{line: 2049, col: 42, offset: 66121},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2039, col: 46, offset: 65861},
+									pos:   position{line: 2049, col: 46, offset: 66125},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2039, col: 56, offset: 65871},
+										pos:  position{line: 2049, col: 56, offset: 66135},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2039, col: 87, offset: 65902},
+									pos:        position{line: 2049, col: 87, offset: 66166},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -41988,29 +42008,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceText",
-			pos:  position{line: 2056, col: 1, offset: 66466},
+			pos:  position{line: 2066, col: 1, offset: 66730},
 			expr: &actionExpr{
-				pos: position{line: 2057, col: 5, offset: 66499},
+				pos: position{line: 2067, col: 5, offset: 66763},
 				run: (*parser).callonDoubleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2057, col: 5, offset: 66499},
+					pos: position{line: 2067, col: 5, offset: 66763},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2052, col: 43, offset: 66414},
+							pos:        position{line: 2062, col: 43, offset: 66678},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2058, col: 5, offset: 66543},
+							pos:   position{line: 2068, col: 5, offset: 66807},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2058, col: 15, offset: 66553},
+								pos:  position{line: 2068, col: 15, offset: 66817},
 								name: "DoubleQuoteMonospaceTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2054, col: 41, offset: 66460},
+							pos:        position{line: 2064, col: 41, offset: 66724},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
@@ -42021,44 +42041,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElements",
-			pos:  position{line: 2063, col: 1, offset: 66728},
+			pos:  position{line: 2073, col: 1, offset: 66992},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 2063, col: 37, offset: 66764},
+				pos: position{line: 2073, col: 37, offset: 67028},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2063, col: 37, offset: 66764},
+					pos:  position{line: 2073, col: 37, offset: 67028},
 					name: "DoubleQuoteMonospaceTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElement",
-			pos:  position{line: 2065, col: 1, offset: 66831},
+			pos:  position{line: 2075, col: 1, offset: 67095},
 			expr: &actionExpr{
-				pos: position{line: 2066, col: 5, offset: 66871},
+				pos: position{line: 2076, col: 5, offset: 67135},
 				run: (*parser).callonDoubleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2066, col: 5, offset: 66871},
+					pos: position{line: 2076, col: 5, offset: 67135},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2883, col: 11, offset: 91021},
+							pos: position{line: 2893, col: 11, offset: 91285},
 							expr: &anyMatcher{
-								line: 2883, col: 13, offset: 91023,
+								line: 2893, col: 13, offset: 91287,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2067, col: 5, offset: 66882},
+							pos: position{line: 2077, col: 5, offset: 67146},
 							expr: &litMatcher{
-								pos:        position{line: 2054, col: 41, offset: 66460},
+								pos:        position{line: 2064, col: 41, offset: 66724},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2068, col: 5, offset: 66924},
+							pos:   position{line: 2078, col: 5, offset: 67188},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2068, col: 14, offset: 66933},
+								pos:  position{line: 2078, col: 14, offset: 67197},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42068,33 +42088,33 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextEndDelimiter",
-			pos:  position{line: 2086, col: 1, offset: 67475},
+			pos:  position{line: 2096, col: 1, offset: 67739},
 			expr: &seqExpr{
-				pos: position{line: 2087, col: 5, offset: 67520},
+				pos: position{line: 2097, col: 5, offset: 67784},
 				exprs: []interface{}{
 					&notExpr{
-						pos: position{line: 2087, col: 5, offset: 67520},
+						pos: position{line: 2097, col: 5, offset: 67784},
 						expr: &ruleRefExpr{
-							pos:  position{line: 2087, col: 6, offset: 67521},
+							pos:  position{line: 2097, col: 6, offset: 67785},
 							name: "QuotationMark",
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 2088, col: 5, offset: 67540},
+						pos:        position{line: 2098, col: 5, offset: 67804},
 						val:        "`",
 						ignoreCase: false,
 						want:       "\"`\"",
 					},
 					&andCodeExpr{
-						pos: position{line: 2089, col: 5, offset: 67548},
+						pos: position{line: 2099, col: 5, offset: 67812},
 						run: (*parser).callonSingleQuoteMonospaceTextEndDelimiter5,
 					},
 					&andExpr{
-						pos: position{line: 2093, col: 5, offset: 67662},
+						pos: position{line: 2103, col: 5, offset: 67926},
 						expr: &notExpr{
-							pos: position{line: 2093, col: 7, offset: 67664},
+							pos: position{line: 2103, col: 7, offset: 67928},
 							expr: &charClassMatcher{
-								pos:        position{line: 2756, col: 13, offset: 87782},
+								pos:        position{line: 2766, col: 13, offset: 88046},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -42107,29 +42127,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceText",
-			pos:  position{line: 2096, col: 1, offset: 67681},
+			pos:  position{line: 2106, col: 1, offset: 67945},
 			expr: &actionExpr{
-				pos: position{line: 2097, col: 5, offset: 67714},
+				pos: position{line: 2107, col: 5, offset: 67978},
 				run: (*parser).callonSingleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2097, col: 5, offset: 67714},
+					pos: position{line: 2107, col: 5, offset: 67978},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2079, col: 5, offset: 67277},
+							pos:        position{line: 2089, col: 5, offset: 67541},
 							val:        "`",
 							ignoreCase: false,
 							want:       "\"`\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2080, col: 5, offset: 67286},
+							pos: position{line: 2090, col: 5, offset: 67550},
 							run: (*parser).callonSingleQuoteMonospaceText4,
 						},
 						&andExpr{
-							pos: position{line: 2084, col: 5, offset: 67409},
+							pos: position{line: 2094, col: 5, offset: 67673},
 							expr: &notExpr{
-								pos: position{line: 2084, col: 7, offset: 67411},
+								pos: position{line: 2094, col: 7, offset: 67675},
 								expr: &litMatcher{
-									pos:        position{line: 2084, col: 8, offset: 67412},
+									pos:        position{line: 2094, col: 8, offset: 67676},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42137,15 +42157,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2098, col: 5, offset: 67758},
+							pos:   position{line: 2108, col: 5, offset: 68022},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2098, col: 15, offset: 67768},
+								pos:  position{line: 2108, col: 15, offset: 68032},
 								name: "SingleQuoteMonospaceTextElements",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 2099, col: 5, offset: 67807},
+							pos:  position{line: 2109, col: 5, offset: 68071},
 							name: "SingleQuoteMonospaceTextEndDelimiter",
 						},
 					},
@@ -42154,20 +42174,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElements",
-			pos:  position{line: 2103, col: 1, offset: 67944},
+			pos:  position{line: 2113, col: 1, offset: 68208},
 			expr: &actionExpr{
-				pos: position{line: 2104, col: 5, offset: 67985},
+				pos: position{line: 2114, col: 5, offset: 68249},
 				run: (*parser).callonSingleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2104, col: 5, offset: 67985},
+					pos: position{line: 2114, col: 5, offset: 68249},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2104, col: 5, offset: 67985},
+							pos: position{line: 2114, col: 5, offset: 68249},
 							expr: &actionExpr{
-								pos: position{line: 2866, col: 10, offset: 90687},
+								pos: position{line: 2876, col: 10, offset: 90951},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2866, col: 10, offset: 90687},
+									pos:        position{line: 2876, col: 10, offset: 90951},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42176,18 +42196,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2105, col: 5, offset: 68024},
+							pos:   position{line: 2115, col: 5, offset: 68288},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2105, col: 14, offset: 68033},
+								pos: position{line: 2115, col: 14, offset: 68297},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2105, col: 15, offset: 68034},
+									pos:  position{line: 2115, col: 15, offset: 68298},
 									name: "SingleQuoteMonospaceTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2106, col: 5, offset: 68072},
+							pos: position{line: 2116, col: 5, offset: 68336},
 							run: (*parser).callonSingleQuoteMonospaceTextElements9,
 						},
 					},
@@ -42196,31 +42216,31 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElement",
-			pos:  position{line: 2112, col: 1, offset: 68213},
+			pos:  position{line: 2122, col: 1, offset: 68477},
 			expr: &actionExpr{
-				pos: position{line: 2113, col: 5, offset: 68253},
+				pos: position{line: 2123, col: 5, offset: 68517},
 				run: (*parser).callonSingleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2113, col: 5, offset: 68253},
+					pos: position{line: 2123, col: 5, offset: 68517},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2883, col: 11, offset: 91021},
+							pos: position{line: 2893, col: 11, offset: 91285},
 							expr: &anyMatcher{
-								line: 2883, col: 13, offset: 91023,
+								line: 2893, col: 13, offset: 91287,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2114, col: 5, offset: 68264},
+							pos: position{line: 2124, col: 5, offset: 68528},
 							expr: &ruleRefExpr{
-								pos:  position{line: 2114, col: 6, offset: 68265},
+								pos:  position{line: 2124, col: 6, offset: 68529},
 								name: "SingleQuoteMonospaceTextEndDelimiter",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2115, col: 5, offset: 68306},
+							pos:   position{line: 2125, col: 5, offset: 68570},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2115, col: 14, offset: 68315},
+								pos:  position{line: 2125, col: 14, offset: 68579},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42230,35 +42250,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMonospaceText",
-			pos:  position{line: 2120, col: 1, offset: 68403},
+			pos:  position{line: 2130, col: 1, offset: 68667},
 			expr: &choiceExpr{
-				pos: position{line: 2122, col: 5, offset: 68474},
+				pos: position{line: 2132, col: 5, offset: 68738},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2122, col: 5, offset: 68474},
+						pos: position{line: 2132, col: 5, offset: 68738},
 						run: (*parser).callonEscapedMonospaceText2,
 						expr: &seqExpr{
-							pos: position{line: 2122, col: 5, offset: 68474},
+							pos: position{line: 2132, col: 5, offset: 68738},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2122, col: 5, offset: 68474},
+									pos:   position{line: 2132, col: 5, offset: 68738},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1846, col: 25, offset: 59669},
+										pos: position{line: 1856, col: 25, offset: 59933},
 										run: (*parser).callonEscapedMonospaceText5,
 										expr: &seqExpr{
-											pos: position{line: 1846, col: 25, offset: 59669},
+											pos: position{line: 1856, col: 25, offset: 59933},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1846, col: 25, offset: 59669},
+													pos:        position{line: 1856, col: 25, offset: 59933},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1846, col: 30, offset: 59674},
+													pos: position{line: 1856, col: 30, offset: 59938},
 													expr: &litMatcher{
-														pos:        position{line: 1846, col: 30, offset: 59674},
+														pos:        position{line: 1856, col: 30, offset: 59938},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42269,21 +42289,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2122, col: 40, offset: 68509},
+									pos:        position{line: 2132, col: 40, offset: 68773},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2122, col: 45, offset: 68514},
+									pos:   position{line: 2132, col: 45, offset: 68778},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2122, col: 55, offset: 68524},
+										pos:  position{line: 2132, col: 55, offset: 68788},
 										name: "DoubleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2122, col: 89, offset: 68558},
+									pos:        position{line: 2132, col: 89, offset: 68822},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
@@ -42292,21 +42312,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2126, col: 7, offset: 68727},
+						pos: position{line: 2136, col: 7, offset: 68991},
 						run: (*parser).callonEscapedMonospaceText14,
 						expr: &seqExpr{
-							pos: position{line: 2126, col: 7, offset: 68727},
+							pos: position{line: 2136, col: 7, offset: 68991},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2126, col: 7, offset: 68727},
+									pos:   position{line: 2136, col: 7, offset: 68991},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1842, col: 25, offset: 59596},
+										pos: position{line: 1852, col: 25, offset: 59860},
 										run: (*parser).callonEscapedMonospaceText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1842, col: 25, offset: 59596},
+											pos: position{line: 1852, col: 25, offset: 59860},
 											expr: &litMatcher{
-												pos:        position{line: 1842, col: 25, offset: 59596},
+												pos:        position{line: 1852, col: 25, offset: 59860},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42315,21 +42335,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2126, col: 42, offset: 68762},
+									pos:        position{line: 2136, col: 42, offset: 69026},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2126, col: 47, offset: 68767},
+									pos:   position{line: 2136, col: 47, offset: 69031},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2126, col: 57, offset: 68777},
+										pos:  position{line: 2136, col: 57, offset: 69041},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2126, col: 91, offset: 68811},
+									pos:        position{line: 2136, col: 91, offset: 69075},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42338,21 +42358,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2131, col: 7, offset: 69017},
+						pos: position{line: 2141, col: 7, offset: 69281},
 						run: (*parser).callonEscapedMonospaceText24,
 						expr: &seqExpr{
-							pos: position{line: 2131, col: 7, offset: 69017},
+							pos: position{line: 2141, col: 7, offset: 69281},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2131, col: 7, offset: 69017},
+									pos:   position{line: 2141, col: 7, offset: 69281},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1842, col: 25, offset: 59596},
+										pos: position{line: 1852, col: 25, offset: 59860},
 										run: (*parser).callonEscapedMonospaceText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1842, col: 25, offset: 59596},
+											pos: position{line: 1852, col: 25, offset: 59860},
 											expr: &litMatcher{
-												pos:        position{line: 1842, col: 25, offset: 59596},
+												pos:        position{line: 1852, col: 25, offset: 59860},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42361,21 +42381,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2131, col: 42, offset: 69052},
+									pos:        position{line: 2141, col: 42, offset: 69316},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2131, col: 46, offset: 69056},
+									pos:   position{line: 2141, col: 46, offset: 69320},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2131, col: 56, offset: 69066},
+										pos:  position{line: 2141, col: 56, offset: 69330},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2131, col: 90, offset: 69100},
+									pos:        position{line: 2141, col: 90, offset: 69364},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42388,29 +42408,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedText",
-			pos:  position{line: 2148, col: 1, offset: 69585},
+			pos:  position{line: 2158, col: 1, offset: 69849},
 			expr: &actionExpr{
-				pos: position{line: 2149, col: 5, offset: 69615},
+				pos: position{line: 2159, col: 5, offset: 69879},
 				run: (*parser).callonDoubleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2149, col: 5, offset: 69615},
+					pos: position{line: 2159, col: 5, offset: 69879},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2144, col: 40, offset: 69536},
+							pos:        position{line: 2154, col: 40, offset: 69800},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2150, col: 5, offset: 69656},
+							pos:   position{line: 2160, col: 5, offset: 69920},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2150, col: 15, offset: 69666},
+								pos:  position{line: 2160, col: 15, offset: 69930},
 								name: "DoubleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2146, col: 38, offset: 69579},
+							pos:        position{line: 2156, col: 38, offset: 69843},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
@@ -42421,44 +42441,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElements",
-			pos:  position{line: 2155, col: 1, offset: 69832},
+			pos:  position{line: 2165, col: 1, offset: 70096},
 			expr: &zeroOrMoreExpr{
-				pos: position{line: 2155, col: 34, offset: 69865},
+				pos: position{line: 2165, col: 34, offset: 70129},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2155, col: 34, offset: 69865},
+					pos:  position{line: 2165, col: 34, offset: 70129},
 					name: "DoubleQuoteMarkedTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMarkedTextElement",
-			pos:  position{line: 2157, col: 1, offset: 69896},
+			pos:  position{line: 2167, col: 1, offset: 70160},
 			expr: &actionExpr{
-				pos: position{line: 2158, col: 5, offset: 69965},
+				pos: position{line: 2168, col: 5, offset: 70229},
 				run: (*parser).callonDoubleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2158, col: 5, offset: 69965},
+					pos: position{line: 2168, col: 5, offset: 70229},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2883, col: 11, offset: 91021},
+							pos: position{line: 2893, col: 11, offset: 91285},
 							expr: &anyMatcher{
-								line: 2883, col: 13, offset: 91023,
+								line: 2893, col: 13, offset: 91287,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2159, col: 5, offset: 69976},
+							pos: position{line: 2169, col: 5, offset: 70240},
 							expr: &litMatcher{
-								pos:        position{line: 2146, col: 38, offset: 69579},
+								pos:        position{line: 2156, col: 38, offset: 69843},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2160, col: 5, offset: 70015},
+							pos:   position{line: 2170, col: 5, offset: 70279},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2160, col: 14, offset: 70024},
+								pos:  position{line: 2170, col: 14, offset: 70288},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42468,29 +42488,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedText",
-			pos:  position{line: 2185, col: 1, offset: 70706},
+			pos:  position{line: 2195, col: 1, offset: 70970},
 			expr: &actionExpr{
-				pos: position{line: 2186, col: 5, offset: 70736},
+				pos: position{line: 2196, col: 5, offset: 71000},
 				run: (*parser).callonSingleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2186, col: 5, offset: 70736},
+					pos: position{line: 2196, col: 5, offset: 71000},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2169, col: 5, offset: 70272},
+							pos:        position{line: 2179, col: 5, offset: 70536},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2170, col: 5, offset: 70281},
+							pos: position{line: 2180, col: 5, offset: 70545},
 							run: (*parser).callonSingleQuoteMarkedText4,
 						},
 						&andExpr{
-							pos: position{line: 2174, col: 5, offset: 70401},
+							pos: position{line: 2184, col: 5, offset: 70665},
 							expr: &notExpr{
-								pos: position{line: 2174, col: 7, offset: 70403},
+								pos: position{line: 2184, col: 7, offset: 70667},
 								expr: &litMatcher{
-									pos:        position{line: 2174, col: 8, offset: 70404},
+									pos:        position{line: 2184, col: 8, offset: 70668},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -42498,38 +42518,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2187, col: 5, offset: 70776},
+							pos:   position{line: 2197, col: 5, offset: 71040},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2187, col: 15, offset: 70786},
+								pos:  position{line: 2197, col: 15, offset: 71050},
 								name: "SingleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2177, col: 5, offset: 70509},
+							pos:        position{line: 2187, col: 5, offset: 70773},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&notExpr{
-							pos: position{line: 2178, col: 5, offset: 70517},
+							pos: position{line: 2188, col: 5, offset: 70781},
 							expr: &litMatcher{
-								pos:        position{line: 2178, col: 6, offset: 70518},
+								pos:        position{line: 2188, col: 6, offset: 70782},
 								val:        "#",
 								ignoreCase: false,
 								want:       "\"#\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2179, col: 5, offset: 70581},
+							pos: position{line: 2189, col: 5, offset: 70845},
 							run: (*parser).callonSingleQuoteMarkedText13,
 						},
 						&andExpr{
-							pos: position{line: 2183, col: 5, offset: 70692},
+							pos: position{line: 2193, col: 5, offset: 70956},
 							expr: &notExpr{
-								pos: position{line: 2183, col: 7, offset: 70694},
+								pos: position{line: 2193, col: 7, offset: 70958},
 								expr: &charClassMatcher{
-									pos:        position{line: 2756, col: 13, offset: 87782},
+									pos:        position{line: 2766, col: 13, offset: 88046},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -42543,20 +42563,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElements",
-			pos:  position{line: 2192, col: 1, offset: 70953},
+			pos:  position{line: 2202, col: 1, offset: 71217},
 			expr: &actionExpr{
-				pos: position{line: 2193, col: 5, offset: 70991},
+				pos: position{line: 2203, col: 5, offset: 71255},
 				run: (*parser).callonSingleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2193, col: 5, offset: 70991},
+					pos: position{line: 2203, col: 5, offset: 71255},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2193, col: 5, offset: 70991},
+							pos: position{line: 2203, col: 5, offset: 71255},
 							expr: &actionExpr{
-								pos: position{line: 2866, col: 10, offset: 90687},
+								pos: position{line: 2876, col: 10, offset: 90951},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2866, col: 10, offset: 90687},
+									pos:        position{line: 2876, col: 10, offset: 90951},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42565,18 +42585,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2194, col: 5, offset: 71030},
+							pos:   position{line: 2204, col: 5, offset: 71294},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2194, col: 14, offset: 71039},
+								pos: position{line: 2204, col: 14, offset: 71303},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2194, col: 15, offset: 71040},
+									pos:  position{line: 2204, col: 15, offset: 71304},
 									name: "SingleQuoteMarkedTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2195, col: 5, offset: 71076},
+							pos: position{line: 2205, col: 5, offset: 71340},
 							run: (*parser).callonSingleQuoteMarkedTextElements9,
 						},
 					},
@@ -42585,49 +42605,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElement",
-			pos:  position{line: 2201, col: 1, offset: 71217},
+			pos:  position{line: 2211, col: 1, offset: 71481},
 			expr: &actionExpr{
-				pos: position{line: 2202, col: 5, offset: 71254},
+				pos: position{line: 2212, col: 5, offset: 71518},
 				run: (*parser).callonSingleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2202, col: 5, offset: 71254},
+					pos: position{line: 2212, col: 5, offset: 71518},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2883, col: 11, offset: 91021},
+							pos: position{line: 2893, col: 11, offset: 91285},
 							expr: &anyMatcher{
-								line: 2883, col: 13, offset: 91023,
+								line: 2893, col: 13, offset: 91287,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2203, col: 5, offset: 71265},
+							pos: position{line: 2213, col: 5, offset: 71529},
 							expr: &seqExpr{
-								pos: position{line: 2177, col: 5, offset: 70509},
+								pos: position{line: 2187, col: 5, offset: 70773},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2177, col: 5, offset: 70509},
+										pos:        position{line: 2187, col: 5, offset: 70773},
 										val:        "#",
 										ignoreCase: false,
 										want:       "\"#\"",
 									},
 									&notExpr{
-										pos: position{line: 2178, col: 5, offset: 70517},
+										pos: position{line: 2188, col: 5, offset: 70781},
 										expr: &litMatcher{
-											pos:        position{line: 2178, col: 6, offset: 70518},
+											pos:        position{line: 2188, col: 6, offset: 70782},
 											val:        "#",
 											ignoreCase: false,
 											want:       "\"#\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2179, col: 5, offset: 70581},
+										pos: position{line: 2189, col: 5, offset: 70845},
 										run: (*parser).callonSingleQuoteMarkedTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2183, col: 5, offset: 70692},
+										pos: position{line: 2193, col: 5, offset: 70956},
 										expr: &notExpr{
-											pos: position{line: 2183, col: 7, offset: 70694},
+											pos: position{line: 2193, col: 7, offset: 70958},
 											expr: &charClassMatcher{
-												pos:        position{line: 2756, col: 13, offset: 87782},
+												pos:        position{line: 2766, col: 13, offset: 88046},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42639,10 +42659,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2204, col: 5, offset: 71304},
+							pos:   position{line: 2214, col: 5, offset: 71568},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2204, col: 14, offset: 71313},
+								pos:  position{line: 2214, col: 14, offset: 71577},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42652,35 +42672,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMarkedText",
-			pos:  position{line: 2209, col: 1, offset: 71401},
+			pos:  position{line: 2219, col: 1, offset: 71665},
 			expr: &choiceExpr{
-				pos: position{line: 2211, col: 5, offset: 71465},
+				pos: position{line: 2221, col: 5, offset: 71729},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2211, col: 5, offset: 71465},
+						pos: position{line: 2221, col: 5, offset: 71729},
 						run: (*parser).callonEscapedMarkedText2,
 						expr: &seqExpr{
-							pos: position{line: 2211, col: 5, offset: 71465},
+							pos: position{line: 2221, col: 5, offset: 71729},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2211, col: 5, offset: 71465},
+									pos:   position{line: 2221, col: 5, offset: 71729},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1846, col: 25, offset: 59669},
+										pos: position{line: 1856, col: 25, offset: 59933},
 										run: (*parser).callonEscapedMarkedText5,
 										expr: &seqExpr{
-											pos: position{line: 1846, col: 25, offset: 59669},
+											pos: position{line: 1856, col: 25, offset: 59933},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1846, col: 25, offset: 59669},
+													pos:        position{line: 1856, col: 25, offset: 59933},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1846, col: 30, offset: 59674},
+													pos: position{line: 1856, col: 30, offset: 59938},
 													expr: &litMatcher{
-														pos:        position{line: 1846, col: 30, offset: 59674},
+														pos:        position{line: 1856, col: 30, offset: 59938},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42691,21 +42711,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2211, col: 40, offset: 71500},
+									pos:        position{line: 2221, col: 40, offset: 71764},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2211, col: 45, offset: 71505},
+									pos:   position{line: 2221, col: 45, offset: 71769},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2211, col: 55, offset: 71515},
+										pos:  position{line: 2221, col: 55, offset: 71779},
 										name: "DoubleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2211, col: 86, offset: 71546},
+									pos:        position{line: 2221, col: 86, offset: 71810},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
@@ -42714,21 +42734,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2215, col: 7, offset: 71711},
+						pos: position{line: 2225, col: 7, offset: 71975},
 						run: (*parser).callonEscapedMarkedText14,
 						expr: &seqExpr{
-							pos: position{line: 2215, col: 7, offset: 71711},
+							pos: position{line: 2225, col: 7, offset: 71975},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2215, col: 7, offset: 71711},
+									pos:   position{line: 2225, col: 7, offset: 71975},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1842, col: 25, offset: 59596},
+										pos: position{line: 1852, col: 25, offset: 59860},
 										run: (*parser).callonEscapedMarkedText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1842, col: 25, offset: 59596},
+											pos: position{line: 1852, col: 25, offset: 59860},
 											expr: &litMatcher{
-												pos:        position{line: 1842, col: 25, offset: 59596},
+												pos:        position{line: 1852, col: 25, offset: 59860},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42737,21 +42757,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2215, col: 42, offset: 71746},
+									pos:        position{line: 2225, col: 42, offset: 72010},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2215, col: 47, offset: 71751},
+									pos:   position{line: 2225, col: 47, offset: 72015},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2215, col: 57, offset: 71761},
+										pos:  position{line: 2225, col: 57, offset: 72025},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2215, col: 88, offset: 71792},
+									pos:        position{line: 2225, col: 88, offset: 72056},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -42760,21 +42780,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2220, col: 7, offset: 71995},
+						pos: position{line: 2230, col: 7, offset: 72259},
 						run: (*parser).callonEscapedMarkedText24,
 						expr: &seqExpr{
-							pos: position{line: 2220, col: 7, offset: 71995},
+							pos: position{line: 2230, col: 7, offset: 72259},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2220, col: 7, offset: 71995},
+									pos:   position{line: 2230, col: 7, offset: 72259},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1842, col: 25, offset: 59596},
+										pos: position{line: 1852, col: 25, offset: 59860},
 										run: (*parser).callonEscapedMarkedText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1842, col: 25, offset: 59596},
+											pos: position{line: 1852, col: 25, offset: 59860},
 											expr: &litMatcher{
-												pos:        position{line: 1842, col: 25, offset: 59596},
+												pos:        position{line: 1852, col: 25, offset: 59860},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42783,21 +42803,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2220, col: 42, offset: 72030},
+									pos:        position{line: 2230, col: 42, offset: 72294},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2220, col: 46, offset: 72034},
+									pos:   position{line: 2230, col: 46, offset: 72298},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2220, col: 56, offset: 72044},
+										pos:  position{line: 2230, col: 56, offset: 72308},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2220, col: 87, offset: 72075},
+									pos:        position{line: 2230, col: 87, offset: 72339},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -42810,29 +42830,29 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptText",
-			pos:  position{line: 2227, col: 1, offset: 72342},
+			pos:  position{line: 2237, col: 1, offset: 72606},
 			expr: &actionExpr{
-				pos: position{line: 2228, col: 5, offset: 72364},
+				pos: position{line: 2238, col: 5, offset: 72628},
 				run: (*parser).callonSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2228, col: 5, offset: 72364},
+					pos: position{line: 2238, col: 5, offset: 72628},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2234, col: 27, offset: 72579},
+							pos:        position{line: 2244, col: 27, offset: 72843},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2229, col: 5, offset: 72391},
+							pos:   position{line: 2239, col: 5, offset: 72655},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2229, col: 14, offset: 72400},
+								pos:  position{line: 2239, col: 14, offset: 72664},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2234, col: 27, offset: 72579},
+							pos:        position{line: 2244, col: 27, offset: 72843},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -42843,43 +42863,43 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptTextElement",
-			pos:  position{line: 2236, col: 1, offset: 72584},
+			pos:  position{line: 2246, col: 1, offset: 72848},
 			expr: &choiceExpr{
-				pos: position{line: 2236, col: 25, offset: 72608},
+				pos: position{line: 2246, col: 25, offset: 72872},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2236, col: 25, offset: 72608},
+						pos:  position{line: 2246, col: 25, offset: 72872},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2238, col: 21, offset: 72660},
+						pos: position{line: 2248, col: 21, offset: 72924},
 						run: (*parser).callonSubscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2238, col: 21, offset: 72660},
+							pos:   position{line: 2248, col: 21, offset: 72924},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2238, col: 30, offset: 72669},
+								pos: position{line: 2248, col: 30, offset: 72933},
 								expr: &choiceExpr{
-									pos: position{line: 2238, col: 31, offset: 72670},
+									pos: position{line: 2248, col: 31, offset: 72934},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2460, col: 5, offset: 79140},
+											pos: position{line: 2470, col: 5, offset: 79404},
 											run: (*parser).callonSubscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2460, col: 5, offset: 79140},
+												pos: position{line: 2470, col: 5, offset: 79404},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2460, col: 5, offset: 79140},
+														pos: position{line: 2470, col: 5, offset: 79404},
 														run: (*parser).callonSubscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2463, col: 5, offset: 79216},
+														pos:   position{line: 2473, col: 5, offset: 79480},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2464, col: 9, offset: 79234},
+															pos: position{line: 2474, col: 9, offset: 79498},
 															run: (*parser).callonSubscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2464, col: 10, offset: 79235},
+																pos:        position{line: 2474, col: 10, offset: 79499},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -42891,7 +42911,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2238, col: 50, offset: 72689},
+											pos:        position{line: 2248, col: 50, offset: 72953},
 											val:        "[^\\r\\n ~]",
 											chars:      []rune{'\r', '\n', ' ', '~'},
 											ignoreCase: false,
@@ -42907,23 +42927,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2242, col: 1, offset: 72739},
+			pos:  position{line: 2252, col: 1, offset: 73003},
 			expr: &actionExpr{
-				pos: position{line: 2244, col: 5, offset: 72806},
+				pos: position{line: 2254, col: 5, offset: 73070},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2244, col: 5, offset: 72806},
+					pos: position{line: 2254, col: 5, offset: 73070},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2244, col: 5, offset: 72806},
+							pos:   position{line: 2254, col: 5, offset: 73070},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1842, col: 25, offset: 59596},
+								pos: position{line: 1852, col: 25, offset: 59860},
 								run: (*parser).callonEscapedSubscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1842, col: 25, offset: 59596},
+									pos: position{line: 1852, col: 25, offset: 59860},
 									expr: &litMatcher{
-										pos:        position{line: 1842, col: 25, offset: 59596},
+										pos:        position{line: 1852, col: 25, offset: 59860},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -42932,21 +42952,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2234, col: 27, offset: 72579},
+							pos:        position{line: 2244, col: 27, offset: 72843},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2246, col: 5, offset: 72874},
+							pos:   position{line: 2256, col: 5, offset: 73138},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2246, col: 14, offset: 72883},
+								pos:  position{line: 2256, col: 14, offset: 73147},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2234, col: 27, offset: 72579},
+							pos:        position{line: 2244, col: 27, offset: 72843},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -42957,29 +42977,29 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2254, col: 1, offset: 73146},
+			pos:  position{line: 2264, col: 1, offset: 73410},
 			expr: &actionExpr{
-				pos: position{line: 2255, col: 5, offset: 73170},
+				pos: position{line: 2265, col: 5, offset: 73434},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2255, col: 5, offset: 73170},
+					pos: position{line: 2265, col: 5, offset: 73434},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2261, col: 29, offset: 73397},
+							pos:        position{line: 2271, col: 29, offset: 73661},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2256, col: 5, offset: 73200},
+							pos:   position{line: 2266, col: 5, offset: 73464},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2256, col: 14, offset: 73209},
+								pos:  position{line: 2266, col: 14, offset: 73473},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2261, col: 29, offset: 73397},
+							pos:        position{line: 2271, col: 29, offset: 73661},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -42990,43 +43010,43 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2263, col: 1, offset: 73402},
+			pos:  position{line: 2273, col: 1, offset: 73666},
 			expr: &choiceExpr{
-				pos: position{line: 2263, col: 27, offset: 73428},
+				pos: position{line: 2273, col: 27, offset: 73692},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2263, col: 27, offset: 73428},
+						pos:  position{line: 2273, col: 27, offset: 73692},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2265, col: 23, offset: 73484},
+						pos: position{line: 2275, col: 23, offset: 73748},
 						run: (*parser).callonSuperscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2265, col: 23, offset: 73484},
+							pos:   position{line: 2275, col: 23, offset: 73748},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2265, col: 32, offset: 73493},
+								pos: position{line: 2275, col: 32, offset: 73757},
 								expr: &choiceExpr{
-									pos: position{line: 2265, col: 33, offset: 73494},
+									pos: position{line: 2275, col: 33, offset: 73758},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2460, col: 5, offset: 79140},
+											pos: position{line: 2470, col: 5, offset: 79404},
 											run: (*parser).callonSuperscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2460, col: 5, offset: 79140},
+												pos: position{line: 2470, col: 5, offset: 79404},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2460, col: 5, offset: 79140},
+														pos: position{line: 2470, col: 5, offset: 79404},
 														run: (*parser).callonSuperscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2463, col: 5, offset: 79216},
+														pos:   position{line: 2473, col: 5, offset: 79480},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2464, col: 9, offset: 79234},
+															pos: position{line: 2474, col: 9, offset: 79498},
 															run: (*parser).callonSuperscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2464, col: 10, offset: 79235},
+																pos:        position{line: 2474, col: 10, offset: 79499},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -43038,7 +43058,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2265, col: 52, offset: 73513},
+											pos:        position{line: 2275, col: 52, offset: 73777},
 											val:        "[^\\r\\n ^]",
 											chars:      []rune{'\r', '\n', ' ', '^'},
 											ignoreCase: false,
@@ -43054,23 +43074,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2269, col: 1, offset: 73563},
+			pos:  position{line: 2279, col: 1, offset: 73827},
 			expr: &actionExpr{
-				pos: position{line: 2271, col: 5, offset: 73635},
+				pos: position{line: 2281, col: 5, offset: 73899},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2271, col: 5, offset: 73635},
+					pos: position{line: 2281, col: 5, offset: 73899},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2271, col: 5, offset: 73635},
+							pos:   position{line: 2281, col: 5, offset: 73899},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1842, col: 25, offset: 59596},
+								pos: position{line: 1852, col: 25, offset: 59860},
 								run: (*parser).callonEscapedSuperscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1842, col: 25, offset: 59596},
+									pos: position{line: 1852, col: 25, offset: 59860},
 									expr: &litMatcher{
-										pos:        position{line: 1842, col: 25, offset: 59596},
+										pos:        position{line: 1852, col: 25, offset: 59860},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -43079,21 +43099,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2261, col: 29, offset: 73397},
+							pos:        position{line: 2271, col: 29, offset: 73661},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2273, col: 5, offset: 73705},
+							pos:   position{line: 2283, col: 5, offset: 73969},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2273, col: 14, offset: 73714},
+								pos:  position{line: 2283, col: 14, offset: 73978},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2261, col: 29, offset: 73397},
+							pos:        position{line: 2271, col: 29, offset: 73661},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -43104,27 +43124,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2282, col: 1, offset: 74183},
+			pos:  position{line: 2292, col: 1, offset: 74447},
 			expr: &actionExpr{
-				pos: position{line: 2283, col: 5, offset: 74199},
+				pos: position{line: 2293, col: 5, offset: 74463},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2283, col: 5, offset: 74199},
+					pos: position{line: 2293, col: 5, offset: 74463},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2283, col: 5, offset: 74199},
+							pos: position{line: 2293, col: 5, offset: 74463},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2286, col: 5, offset: 74262},
+							pos:   position{line: 2296, col: 5, offset: 74526},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2286, col: 12, offset: 74269},
+								pos: position{line: 2296, col: 12, offset: 74533},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2286, col: 12, offset: 74269},
+									pos: position{line: 2296, col: 12, offset: 74533},
 									expr: &litMatcher{
-										pos:        position{line: 2286, col: 13, offset: 74270},
+										pos:        position{line: 2296, col: 13, offset: 74534},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -43133,16 +43153,16 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2290, col: 5, offset: 74378},
+							pos: position{line: 2300, col: 5, offset: 74642},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2870, col: 11, offset: 90748},
+							pos: position{line: 2880, col: 11, offset: 91012},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2870, col: 11, offset: 90748},
+								pos: position{line: 2880, col: 11, offset: 91012},
 								expr: &charClassMatcher{
-									pos:        position{line: 2870, col: 11, offset: 90748},
+									pos:        position{line: 2880, col: 11, offset: 91012},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43151,36 +43171,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2294, col: 12, offset: 74537},
+							pos:   position{line: 2304, col: 12, offset: 74801},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2294, col: 19, offset: 74544},
+								pos:  position{line: 2304, col: 19, offset: 74808},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2888, col: 8, offset: 91085},
+							pos: position{line: 2898, col: 8, offset: 91349},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2875, col: 12, offset: 90858},
+									pos: position{line: 2885, col: 12, offset: 91122},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2875, col: 13, offset: 90859},
+										pos: position{line: 2885, col: 13, offset: 91123},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2875, col: 13, offset: 90859},
+												pos:        position{line: 2885, col: 13, offset: 91123},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2875, col: 20, offset: 90866},
+												pos:        position{line: 2885, col: 20, offset: 91130},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2875, col: 29, offset: 90875},
+												pos:        position{line: 2885, col: 29, offset: 91139},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -43189,9 +43209,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2885, col: 8, offset: 91035},
+									pos: position{line: 2895, col: 8, offset: 91299},
 									expr: &anyMatcher{
-										line: 2885, col: 9, offset: 91036,
+										line: 2895, col: 9, offset: 91300,
 									},
 								},
 							},
@@ -43202,24 +43222,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2298, col: 1, offset: 74640},
+			pos:  position{line: 2308, col: 1, offset: 74904},
 			expr: &actionExpr{
-				pos: position{line: 2299, col: 5, offset: 74661},
+				pos: position{line: 2309, col: 5, offset: 74925},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2299, col: 5, offset: 74661},
+					pos: position{line: 2309, col: 5, offset: 74925},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2299, col: 5, offset: 74661},
+							pos: position{line: 2309, col: 5, offset: 74925},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2304, col: 5, offset: 74776},
+							pos:   position{line: 2314, col: 5, offset: 75040},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2304, col: 14, offset: 74785},
+								pos: position{line: 2314, col: 14, offset: 75049},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2304, col: 15, offset: 74786},
+									pos:  position{line: 2314, col: 15, offset: 75050},
 									name: "SectionTitleElement",
 								},
 							},
@@ -43230,38 +43250,38 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2308, col: 1, offset: 74867},
+			pos:  position{line: 2318, col: 1, offset: 75131},
 			expr: &actionExpr{
-				pos: position{line: 2309, col: 5, offset: 74894},
+				pos: position{line: 2319, col: 5, offset: 75158},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2309, col: 5, offset: 74894},
+					pos: position{line: 2319, col: 5, offset: 75158},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2309, col: 5, offset: 74894},
+							pos: position{line: 2319, col: 5, offset: 75158},
 							expr: &choiceExpr{
-								pos: position{line: 2888, col: 8, offset: 91085},
+								pos: position{line: 2898, col: 8, offset: 91349},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2875, col: 12, offset: 90858},
+										pos: position{line: 2885, col: 12, offset: 91122},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2875, col: 13, offset: 90859},
+											pos: position{line: 2885, col: 13, offset: 91123},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2875, col: 13, offset: 90859},
+													pos:        position{line: 2885, col: 13, offset: 91123},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2875, col: 20, offset: 90866},
+													pos:        position{line: 2885, col: 20, offset: 91130},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2875, col: 29, offset: 90875},
+													pos:        position{line: 2885, col: 29, offset: 91139},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -43270,29 +43290,29 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2885, col: 8, offset: 91035},
+										pos: position{line: 2895, col: 8, offset: 91299},
 										expr: &anyMatcher{
-											line: 2885, col: 9, offset: 91036,
+											line: 2895, col: 9, offset: 91300,
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2310, col: 5, offset: 74903},
+							pos:   position{line: 2320, col: 5, offset: 75167},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2310, col: 14, offset: 74912},
+								pos: position{line: 2320, col: 14, offset: 75176},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2310, col: 14, offset: 74912},
+										pos:  position{line: 2320, col: 14, offset: 75176},
 										name: "SectionTitleLineElement",
 									},
 									&actionExpr{
-										pos: position{line: 2805, col: 12, offset: 88995},
+										pos: position{line: 2815, col: 12, offset: 89259},
 										run: (*parser).callonSectionTitleElement15,
 										expr: &charClassMatcher{
-											pos:        position{line: 2805, col: 12, offset: 88995},
+											pos:        position{line: 2815, col: 12, offset: 89259},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -43308,21 +43328,21 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleLineElement",
-			pos:  position{line: 2315, col: 1, offset: 75016},
+			pos:  position{line: 2325, col: 1, offset: 75280},
 			expr: &actionExpr{
-				pos: position{line: 2316, col: 5, offset: 75047},
+				pos: position{line: 2326, col: 5, offset: 75311},
 				run: (*parser).callonSectionTitleLineElement1,
 				expr: &seqExpr{
-					pos: position{line: 2316, col: 5, offset: 75047},
+					pos: position{line: 2326, col: 5, offset: 75311},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2316, col: 5, offset: 75047},
+							pos:   position{line: 2326, col: 5, offset: 75311},
 							label: "start",
 							expr: &actionExpr{
-								pos: position{line: 2891, col: 16, offset: 91209},
+								pos: position{line: 2901, col: 16, offset: 91473},
 								run: (*parser).callonSectionTitleLineElement4,
 								expr: &litMatcher{
-									pos:        position{line: 2891, col: 16, offset: 91209},
+									pos:        position{line: 2901, col: 16, offset: 91473},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -43330,27 +43350,27 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2317, col: 5, offset: 75071},
+							pos:   position{line: 2327, col: 5, offset: 75335},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2318, col: 9, offset: 75089},
+								pos: position{line: 2328, col: 9, offset: 75353},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2765, col: 5, offset: 87929},
+										pos: position{line: 2775, col: 5, offset: 88193},
 										run: (*parser).callonSectionTitleLineElement8,
 										expr: &seqExpr{
-											pos: position{line: 2765, col: 5, offset: 87929},
+											pos: position{line: 2775, col: 5, offset: 88193},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2765, col: 5, offset: 87929},
+													pos:   position{line: 2775, col: 5, offset: 88193},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2765, col: 11, offset: 87935},
+														pos: position{line: 2775, col: 11, offset: 88199},
 														run: (*parser).callonSectionTitleLineElement11,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2765, col: 11, offset: 87935},
+															pos: position{line: 2775, col: 11, offset: 88199},
 															expr: &charClassMatcher{
-																pos:        position{line: 2765, col: 11, offset: 87935},
+																pos:        position{line: 2775, col: 11, offset: 88199},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -43360,36 +43380,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2768, col: 5, offset: 87993},
+													pos: position{line: 2778, col: 5, offset: 88257},
 													expr: &seqExpr{
-														pos: position{line: 2769, col: 9, offset: 88004},
+														pos: position{line: 2779, col: 9, offset: 88268},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2769, col: 9, offset: 88004},
+																pos:        position{line: 2779, col: 9, offset: 88268},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2770, col: 9, offset: 88053},
+																pos: position{line: 2780, col: 9, offset: 88317},
 																run: (*parser).callonSectionTitleLineElement17,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2774, col: 5, offset: 88133},
+													pos: position{line: 2784, col: 5, offset: 88397},
 													expr: &seqExpr{
-														pos: position{line: 2775, col: 9, offset: 88144},
+														pos: position{line: 2785, col: 9, offset: 88408},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2775, col: 9, offset: 88144},
+																pos:        position{line: 2785, col: 9, offset: 88408},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2775, col: 13, offset: 88148},
+																pos:        position{line: 2785, col: 13, offset: 88412},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -43402,12 +43422,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2870, col: 11, offset: 90748},
+										pos: position{line: 2880, col: 11, offset: 91012},
 										run: (*parser).callonSectionTitleLineElement22,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2870, col: 11, offset: 90748},
+											pos: position{line: 2880, col: 11, offset: 91012},
 											expr: &charClassMatcher{
-												pos:        position{line: 2870, col: 11, offset: 90748},
+												pos:        position{line: 2880, col: 11, offset: 91012},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -43416,25 +43436,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2491, col: 5, offset: 80311},
+										pos: position{line: 2501, col: 5, offset: 80575},
 										run: (*parser).callonSectionTitleLineElement25,
 										expr: &seqExpr{
-											pos: position{line: 2491, col: 5, offset: 80311},
+											pos: position{line: 2501, col: 5, offset: 80575},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2491, col: 5, offset: 80311},
+													pos: position{line: 2501, col: 5, offset: 80575},
 													run: (*parser).callonSectionTitleLineElement27,
 												},
 												&litMatcher{
-													pos:        position{line: 2494, col: 5, offset: 80382},
+													pos:        position{line: 2504, col: 5, offset: 80646},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2494, col: 10, offset: 80387},
+													pos: position{line: 2504, col: 10, offset: 80651},
 													expr: &charClassMatcher{
-														pos:        position{line: 2494, col: 11, offset: 80388},
+														pos:        position{line: 2504, col: 11, offset: 80652},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -43445,29 +43465,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2500, col: 5, offset: 80580},
+										pos: position{line: 2510, col: 5, offset: 80844},
 										run: (*parser).callonSectionTitleLineElement31,
 										expr: &seqExpr{
-											pos: position{line: 2500, col: 5, offset: 80580},
+											pos: position{line: 2510, col: 5, offset: 80844},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2500, col: 5, offset: 80580},
+													pos: position{line: 2510, col: 5, offset: 80844},
 													run: (*parser).callonSectionTitleLineElement33,
 												},
 												&andCodeExpr{
-													pos: position{line: 2503, col: 5, offset: 80651},
+													pos: position{line: 2513, col: 5, offset: 80915},
 													run: (*parser).callonSectionTitleLineElement34,
 												},
 												&litMatcher{
-													pos:        position{line: 2507, col: 5, offset: 80776},
+													pos:        position{line: 2517, col: 5, offset: 81040},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2507, col: 9, offset: 80780},
+													pos: position{line: 2517, col: 9, offset: 81044},
 													expr: &charClassMatcher{
-														pos:        position{line: 2507, col: 10, offset: 80781},
+														pos:        position{line: 2517, col: 10, offset: 81045},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -43478,31 +43498,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2321, col: 11, offset: 75154},
+										pos:  position{line: 2331, col: 11, offset: 75418},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2783, col: 5, offset: 88341},
+										pos: position{line: 2793, col: 5, offset: 88605},
 										run: (*parser).callonSectionTitleLineElement39,
 										expr: &choiceExpr{
-											pos: position{line: 2784, col: 9, offset: 88351},
+											pos: position{line: 2794, col: 9, offset: 88615},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2784, col: 10, offset: 88352},
+													pos:        position{line: 2794, col: 10, offset: 88616},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2786, col: 13, offset: 88449},
+													pos: position{line: 2796, col: 13, offset: 88713},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2786, col: 13, offset: 88449},
+															pos: position{line: 2796, col: 13, offset: 88713},
 															run: (*parser).callonSectionTitleLineElement43,
 														},
 														&litMatcher{
-															pos:        position{line: 2789, col: 13, offset: 88549},
+															pos:        position{line: 2799, col: 13, offset: 88813},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -43510,20 +43530,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2789, col: 19, offset: 88555},
+													pos:        position{line: 2799, col: 19, offset: 88819},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2792, col: 13, offset: 88593},
+													pos: position{line: 2802, col: 13, offset: 88857},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2792, col: 13, offset: 88593},
+															pos: position{line: 2802, col: 13, offset: 88857},
 															run: (*parser).callonSectionTitleLineElement47,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2795, col: 14, offset: 88686},
+															pos:        position{line: 2805, col: 14, offset: 88950},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -43532,18 +43552,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2797, col: 12, offset: 88730},
+													pos: position{line: 2807, col: 12, offset: 88994},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2797, col: 12, offset: 88730},
+															pos:        position{line: 2807, col: 12, offset: 88994},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2797, col: 16, offset: 88734},
+															pos: position{line: 2807, col: 16, offset: 88998},
 															expr: &litMatcher{
-																pos:        position{line: 2797, col: 17, offset: 88735},
+																pos:        position{line: 2807, col: 17, offset: 88999},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -43555,35 +43575,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2323, col: 11, offset: 75227},
+										pos:  position{line: 2333, col: 11, offset: 75491},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2324, col: 11, offset: 75243},
+										pos:  position{line: 2334, col: 11, offset: 75507},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2325, col: 11, offset: 75271},
+										pos:  position{line: 2335, col: 11, offset: 75535},
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2460, col: 5, offset: 79140},
+										pos: position{line: 2470, col: 5, offset: 79404},
 										run: (*parser).callonSectionTitleLineElement56,
 										expr: &seqExpr{
-											pos: position{line: 2460, col: 5, offset: 79140},
+											pos: position{line: 2470, col: 5, offset: 79404},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2460, col: 5, offset: 79140},
+													pos: position{line: 2470, col: 5, offset: 79404},
 													run: (*parser).callonSectionTitleLineElement58,
 												},
 												&labeledExpr{
-													pos:   position{line: 2463, col: 5, offset: 79216},
+													pos:   position{line: 2473, col: 5, offset: 79480},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2464, col: 9, offset: 79234},
+														pos: position{line: 2474, col: 9, offset: 79498},
 														run: (*parser).callonSectionTitleLineElement60,
 														expr: &charClassMatcher{
-															pos:        position{line: 2464, col: 10, offset: 79235},
+															pos:        position{line: 2474, col: 10, offset: 79499},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -43595,7 +43615,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2327, col: 11, offset: 75356},
+										pos:  position{line: 2337, col: 11, offset: 75620},
 										name: "InlineIcon",
 									},
 									&actionExpr{
@@ -43984,17 +44004,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2343, col: 5, offset: 75850},
+										pos: position{line: 2353, col: 5, offset: 76114},
 										run: (*parser).callonSectionTitleLineElement140,
 										expr: &seqExpr{
-											pos: position{line: 2343, col: 5, offset: 75850},
+											pos: position{line: 2353, col: 5, offset: 76114},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2343, col: 5, offset: 75850},
+													pos: position{line: 2353, col: 5, offset: 76114},
 													run: (*parser).callonSectionTitleLineElement142,
 												},
 												&labeledExpr{
-													pos:   position{line: 2346, col: 5, offset: 75905},
+													pos:   position{line: 2356, col: 5, offset: 76169},
 													label: "id",
 													expr: &actionExpr{
 														pos: position{line: 404, col: 5, offset: 12405},
@@ -44448,12 +44468,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2346, col: 26, offset: 75926},
+													pos: position{line: 2356, col: 26, offset: 76190},
 													expr: &actionExpr{
-														pos: position{line: 2866, col: 10, offset: 90687},
+														pos: position{line: 2876, col: 10, offset: 90951},
 														run: (*parser).callonSectionTitleLineElement236,
 														expr: &charClassMatcher{
-															pos:        position{line: 2866, col: 10, offset: 90687},
+															pos:        position{line: 2876, col: 10, offset: 90951},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -44462,30 +44482,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 2346, col: 33, offset: 75933},
+													pos: position{line: 2356, col: 33, offset: 76197},
 													expr: &choiceExpr{
-														pos: position{line: 2888, col: 8, offset: 91085},
+														pos: position{line: 2898, col: 8, offset: 91349},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2875, col: 12, offset: 90858},
+																pos: position{line: 2885, col: 12, offset: 91122},
 																run: (*parser).callonSectionTitleLineElement240,
 																expr: &choiceExpr{
-																	pos: position{line: 2875, col: 13, offset: 90859},
+																	pos: position{line: 2885, col: 13, offset: 91123},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 13, offset: 90859},
+																			pos:        position{line: 2885, col: 13, offset: 91123},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 20, offset: 90866},
+																			pos:        position{line: 2885, col: 20, offset: 91130},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2875, col: 29, offset: 90875},
+																			pos:        position{line: 2885, col: 29, offset: 91139},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -44494,9 +44514,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2885, col: 8, offset: 91035},
+																pos: position{line: 2895, col: 8, offset: 91299},
 																expr: &anyMatcher{
-																	line: 2885, col: 9, offset: 91036,
+																	line: 2895, col: 9, offset: 91300,
 																},
 															},
 														},
@@ -44521,12 +44541,12 @@ var g = &grammar{
 													pos:   position{line: 1253, col: 14, offset: 38814},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2851, col: 7, offset: 90339},
+														pos: position{line: 2861, col: 7, offset: 90603},
 														run: (*parser).callonSectionTitleLineElement251,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2851, col: 7, offset: 90339},
+															pos: position{line: 2861, col: 7, offset: 90603},
 															expr: &charClassMatcher{
-																pos:        position{line: 2851, col: 7, offset: 90339},
+																pos:        position{line: 2861, col: 7, offset: 90603},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -44560,12 +44580,12 @@ var g = &grammar{
 													pos:   position{line: 1258, col: 10, offset: 38946},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2851, col: 7, offset: 90339},
+														pos: position{line: 2861, col: 7, offset: 90603},
 														run: (*parser).callonSectionTitleLineElement259,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2851, col: 7, offset: 90339},
+															pos: position{line: 2861, col: 7, offset: 90603},
 															expr: &charClassMatcher{
-																pos:        position{line: 2851, col: 7, offset: 90339},
+																pos:        position{line: 2861, col: 7, offset: 90603},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -44584,20 +44604,20 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2332, col: 11, offset: 75610},
+										pos:  position{line: 2342, col: 11, offset: 75874},
 										name: "InlineFootnote",
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2333, col: 5, offset: 75630},
+							pos:   position{line: 2343, col: 5, offset: 75894},
 							label: "end",
 							expr: &actionExpr{
-								pos: position{line: 2891, col: 16, offset: 91209},
+								pos: position{line: 2901, col: 16, offset: 91473},
 								run: (*parser).callonSectionTitleLineElement265,
 								expr: &litMatcher{
-									pos:        position{line: 2891, col: 16, offset: 91209},
+									pos:        position{line: 2901, col: 16, offset: 91473},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -44605,7 +44625,7 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2334, col: 5, offset: 75652},
+							pos: position{line: 2344, col: 5, offset: 75916},
 							run: (*parser).callonSectionTitleLineElement267,
 						},
 					},
@@ -44614,52 +44634,52 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2356, col: 1, offset: 76195},
+			pos:  position{line: 2366, col: 1, offset: 76459},
 			expr: &actionExpr{
-				pos: position{line: 2357, col: 5, offset: 76282},
+				pos: position{line: 2367, col: 5, offset: 76546},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2357, col: 5, offset: 76282},
+					pos: position{line: 2367, col: 5, offset: 76546},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2357, col: 5, offset: 76282},
+							pos:   position{line: 2367, col: 5, offset: 76546},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2357, col: 14, offset: 76291},
+								pos: position{line: 2367, col: 14, offset: 76555},
 								expr: &actionExpr{
-									pos: position{line: 2359, col: 9, offset: 76317},
+									pos: position{line: 2369, col: 9, offset: 76581},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2359, col: 9, offset: 76317},
+										pos: position{line: 2369, col: 9, offset: 76581},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2883, col: 11, offset: 91021},
+												pos: position{line: 2893, col: 11, offset: 91285},
 												expr: &anyMatcher{
-													line: 2883, col: 13, offset: 91023,
+													line: 2893, col: 13, offset: 91287,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2360, col: 9, offset: 76332},
+												pos:   position{line: 2370, col: 9, offset: 76596},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2361, col: 13, offset: 76354},
+													pos: position{line: 2371, col: 13, offset: 76618},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2765, col: 5, offset: 87929},
+															pos: position{line: 2775, col: 5, offset: 88193},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2765, col: 5, offset: 87929},
+																pos: position{line: 2775, col: 5, offset: 88193},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 2765, col: 5, offset: 87929},
+																		pos:   position{line: 2775, col: 5, offset: 88193},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2765, col: 11, offset: 87935},
+																			pos: position{line: 2775, col: 11, offset: 88199},
 																			run: (*parser).callonNormalGroup14,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2765, col: 11, offset: 87935},
+																				pos: position{line: 2775, col: 11, offset: 88199},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2765, col: 11, offset: 87935},
+																					pos:        position{line: 2775, col: 11, offset: 88199},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -44669,36 +44689,36 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2768, col: 5, offset: 87993},
+																		pos: position{line: 2778, col: 5, offset: 88257},
 																		expr: &seqExpr{
-																			pos: position{line: 2769, col: 9, offset: 88004},
+																			pos: position{line: 2779, col: 9, offset: 88268},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2769, col: 9, offset: 88004},
+																					pos:        position{line: 2779, col: 9, offset: 88268},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2770, col: 9, offset: 88053},
+																					pos: position{line: 2780, col: 9, offset: 88317},
 																					run: (*parser).callonNormalGroup20,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2774, col: 5, offset: 88133},
+																		pos: position{line: 2784, col: 5, offset: 88397},
 																		expr: &seqExpr{
-																			pos: position{line: 2775, col: 9, offset: 88144},
+																			pos: position{line: 2785, col: 9, offset: 88408},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2775, col: 9, offset: 88144},
+																					pos:        position{line: 2785, col: 9, offset: 88408},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2775, col: 13, offset: 88148},
+																					pos:        position{line: 2785, col: 13, offset: 88412},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -44711,12 +44731,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2870, col: 11, offset: 90748},
+															pos: position{line: 2880, col: 11, offset: 91012},
 															run: (*parser).callonNormalGroup25,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2870, col: 11, offset: 90748},
+																pos: position{line: 2880, col: 11, offset: 91012},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2870, col: 11, offset: 90748},
+																	pos:        position{line: 2880, col: 11, offset: 91012},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -44725,29 +44745,29 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2363, col: 15, offset: 76400},
+															pos:  position{line: 2373, col: 15, offset: 76664},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2491, col: 5, offset: 80311},
+															pos: position{line: 2501, col: 5, offset: 80575},
 															run: (*parser).callonNormalGroup29,
 															expr: &seqExpr{
-																pos: position{line: 2491, col: 5, offset: 80311},
+																pos: position{line: 2501, col: 5, offset: 80575},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2491, col: 5, offset: 80311},
+																		pos: position{line: 2501, col: 5, offset: 80575},
 																		run: (*parser).callonNormalGroup31,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2494, col: 5, offset: 80382},
+																		pos:        position{line: 2504, col: 5, offset: 80646},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2494, col: 10, offset: 80387},
+																		pos: position{line: 2504, col: 10, offset: 80651},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2494, col: 11, offset: 80388},
+																			pos:        position{line: 2504, col: 11, offset: 80652},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -44758,29 +44778,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2500, col: 5, offset: 80580},
+															pos: position{line: 2510, col: 5, offset: 80844},
 															run: (*parser).callonNormalGroup35,
 															expr: &seqExpr{
-																pos: position{line: 2500, col: 5, offset: 80580},
+																pos: position{line: 2510, col: 5, offset: 80844},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2500, col: 5, offset: 80580},
+																		pos: position{line: 2510, col: 5, offset: 80844},
 																		run: (*parser).callonNormalGroup37,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2503, col: 5, offset: 80651},
+																		pos: position{line: 2513, col: 5, offset: 80915},
 																		run: (*parser).callonNormalGroup38,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2507, col: 5, offset: 80776},
+																		pos:        position{line: 2517, col: 5, offset: 81040},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2507, col: 9, offset: 80780},
+																		pos: position{line: 2517, col: 9, offset: 81044},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2507, col: 10, offset: 80781},
+																			pos:        position{line: 2517, col: 10, offset: 81045},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -44791,27 +44811,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2783, col: 5, offset: 88341},
+															pos: position{line: 2793, col: 5, offset: 88605},
 															run: (*parser).callonNormalGroup42,
 															expr: &choiceExpr{
-																pos: position{line: 2784, col: 9, offset: 88351},
+																pos: position{line: 2794, col: 9, offset: 88615},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2784, col: 10, offset: 88352},
+																		pos:        position{line: 2794, col: 10, offset: 88616},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2786, col: 13, offset: 88449},
+																		pos: position{line: 2796, col: 13, offset: 88713},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2786, col: 13, offset: 88449},
+																				pos: position{line: 2796, col: 13, offset: 88713},
 																				run: (*parser).callonNormalGroup46,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2789, col: 13, offset: 88549},
+																				pos:        position{line: 2799, col: 13, offset: 88813},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -44819,20 +44839,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2789, col: 19, offset: 88555},
+																		pos:        position{line: 2799, col: 19, offset: 88819},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2792, col: 13, offset: 88593},
+																		pos: position{line: 2802, col: 13, offset: 88857},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2792, col: 13, offset: 88593},
+																				pos: position{line: 2802, col: 13, offset: 88857},
 																				run: (*parser).callonNormalGroup50,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2795, col: 14, offset: 88686},
+																				pos:        position{line: 2805, col: 14, offset: 88950},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -44841,18 +44861,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2797, col: 12, offset: 88730},
+																		pos: position{line: 2807, col: 12, offset: 88994},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2797, col: 12, offset: 88730},
+																				pos:        position{line: 2807, col: 12, offset: 88994},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2797, col: 16, offset: 88734},
+																				pos: position{line: 2807, col: 16, offset: 88998},
 																				expr: &litMatcher{
-																					pos:        position{line: 2797, col: 17, offset: 88735},
+																					pos:        position{line: 2807, col: 17, offset: 88999},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -44864,25 +44884,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2875, col: 12, offset: 90858},
+															pos: position{line: 2885, col: 12, offset: 91122},
 															run: (*parser).callonNormalGroup56,
 															expr: &choiceExpr{
-																pos: position{line: 2875, col: 13, offset: 90859},
+																pos: position{line: 2885, col: 13, offset: 91123},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 13, offset: 90859},
+																		pos:        position{line: 2885, col: 13, offset: 91123},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 20, offset: 90866},
+																		pos:        position{line: 2885, col: 20, offset: 91130},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2875, col: 29, offset: 90875},
+																		pos:        position{line: 2885, col: 29, offset: 91139},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -45237,35 +45257,35 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2368, col: 15, offset: 76567},
+															pos:  position{line: 2378, col: 15, offset: 76831},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2369, col: 15, offset: 76587},
+															pos:  position{line: 2379, col: 15, offset: 76851},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2370, col: 15, offset: 76676},
+															pos:  position{line: 2380, col: 15, offset: 76940},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2460, col: 5, offset: 79140},
+															pos: position{line: 2470, col: 5, offset: 79404},
 															run: (*parser).callonNormalGroup133,
 															expr: &seqExpr{
-																pos: position{line: 2460, col: 5, offset: 79140},
+																pos: position{line: 2470, col: 5, offset: 79404},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2460, col: 5, offset: 79140},
+																		pos: position{line: 2470, col: 5, offset: 79404},
 																		run: (*parser).callonNormalGroup135,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2463, col: 5, offset: 79216},
+																		pos:   position{line: 2473, col: 5, offset: 79480},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2464, col: 9, offset: 79234},
+																			pos: position{line: 2474, col: 9, offset: 79498},
 																			run: (*parser).callonNormalGroup137,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2464, col: 10, offset: 79235},
+																				pos:        position{line: 2474, col: 10, offset: 79499},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -45299,10 +45319,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1214, col: 5, offset: 37662},
 																		expr: &actionExpr{
-																			pos: position{line: 2866, col: 10, offset: 90687},
+																			pos: position{line: 2876, col: 10, offset: 90951},
 																			run: (*parser).callonNormalGroup145,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2866, col: 10, offset: 90687},
+																				pos:        position{line: 2876, col: 10, offset: 90951},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45313,28 +45333,28 @@ var g = &grammar{
 																	&andExpr{
 																		pos: position{line: 1214, col: 12, offset: 37669},
 																		expr: &choiceExpr{
-																			pos: position{line: 2888, col: 8, offset: 91085},
+																			pos: position{line: 2898, col: 8, offset: 91349},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2875, col: 12, offset: 90858},
+																					pos: position{line: 2885, col: 12, offset: 91122},
 																					run: (*parser).callonNormalGroup149,
 																					expr: &choiceExpr{
-																						pos: position{line: 2875, col: 13, offset: 90859},
+																						pos: position{line: 2885, col: 13, offset: 91123},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 13, offset: 90859},
+																								pos:        position{line: 2885, col: 13, offset: 91123},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 20, offset: 90866},
+																								pos:        position{line: 2885, col: 20, offset: 91130},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 29, offset: 90875},
+																								pos:        position{line: 2885, col: 29, offset: 91139},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -45343,9 +45363,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2885, col: 8, offset: 91035},
+																					pos: position{line: 2895, col: 8, offset: 91299},
 																					expr: &anyMatcher{
-																						line: 2885, col: 9, offset: 91036,
+																						line: 2895, col: 9, offset: 91300,
 																					},
 																				},
 																			},
@@ -45355,7 +45375,7 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2373, col: 15, offset: 76858},
+															pos:  position{line: 2383, col: 15, offset: 77122},
 															name: "InlinePassthrough",
 														},
 														&actionExpr{
@@ -45398,10 +45418,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2805, col: 12, offset: 88995},
+															pos: position{line: 2815, col: 12, offset: 89259},
 															run: (*parser).callonNormalGroup165,
 															expr: &charClassMatcher{
-																pos:        position{line: 2805, col: 12, offset: 88995},
+																pos:        position{line: 2815, col: 12, offset: 89259},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -45417,9 +45437,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2885, col: 8, offset: 91035},
+							pos: position{line: 2895, col: 8, offset: 91299},
 							expr: &anyMatcher{
-								line: 2885, col: 9, offset: 91036,
+								line: 2895, col: 9, offset: 91300,
 							},
 						},
 					},
@@ -45428,28 +45448,28 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2384, col: 1, offset: 77296},
+			pos:  position{line: 2394, col: 1, offset: 77560},
 			expr: &actionExpr{
-				pos: position{line: 2385, col: 5, offset: 77329},
+				pos: position{line: 2395, col: 5, offset: 77593},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2385, col: 5, offset: 77329},
+					pos: position{line: 2395, col: 5, offset: 77593},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2385, col: 5, offset: 77329},
+							pos:   position{line: 2395, col: 5, offset: 77593},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2385, col: 14, offset: 77338},
+								pos: position{line: 2395, col: 14, offset: 77602},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2385, col: 15, offset: 77339},
+									pos:  position{line: 2395, col: 15, offset: 77603},
 									name: "AttributeStructuredValueElement",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2885, col: 8, offset: 91035},
+							pos: position{line: 2895, col: 8, offset: 91299},
 							expr: &anyMatcher{
-								line: 2885, col: 9, offset: 91036,
+								line: 2895, col: 9, offset: 91300,
 							},
 						},
 					},
@@ -45458,41 +45478,41 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2389, col: 1, offset: 77436},
+			pos:  position{line: 2399, col: 1, offset: 77700},
 			expr: &actionExpr{
-				pos: position{line: 2390, col: 5, offset: 77476},
+				pos: position{line: 2400, col: 5, offset: 77740},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2390, col: 5, offset: 77476},
+					pos: position{line: 2400, col: 5, offset: 77740},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2883, col: 11, offset: 91021},
+							pos: position{line: 2893, col: 11, offset: 91285},
 							expr: &anyMatcher{
-								line: 2883, col: 13, offset: 91023,
+								line: 2893, col: 13, offset: 91287,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2391, col: 5, offset: 77487},
+							pos:   position{line: 2401, col: 5, offset: 77751},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2392, col: 9, offset: 77505},
+								pos: position{line: 2402, col: 9, offset: 77769},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2765, col: 5, offset: 87929},
+										pos: position{line: 2775, col: 5, offset: 88193},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2765, col: 5, offset: 87929},
+											pos: position{line: 2775, col: 5, offset: 88193},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2765, col: 5, offset: 87929},
+													pos:   position{line: 2775, col: 5, offset: 88193},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2765, col: 11, offset: 87935},
+														pos: position{line: 2775, col: 11, offset: 88199},
 														run: (*parser).callonAttributeStructuredValueElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2765, col: 11, offset: 87935},
+															pos: position{line: 2775, col: 11, offset: 88199},
 															expr: &charClassMatcher{
-																pos:        position{line: 2765, col: 11, offset: 87935},
+																pos:        position{line: 2775, col: 11, offset: 88199},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45502,36 +45522,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2768, col: 5, offset: 87993},
+													pos: position{line: 2778, col: 5, offset: 88257},
 													expr: &seqExpr{
-														pos: position{line: 2769, col: 9, offset: 88004},
+														pos: position{line: 2779, col: 9, offset: 88268},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2769, col: 9, offset: 88004},
+																pos:        position{line: 2779, col: 9, offset: 88268},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2770, col: 9, offset: 88053},
+																pos: position{line: 2780, col: 9, offset: 88317},
 																run: (*parser).callonAttributeStructuredValueElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2774, col: 5, offset: 88133},
+													pos: position{line: 2784, col: 5, offset: 88397},
 													expr: &seqExpr{
-														pos: position{line: 2775, col: 9, offset: 88144},
+														pos: position{line: 2785, col: 9, offset: 88408},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2775, col: 9, offset: 88144},
+																pos:        position{line: 2785, col: 9, offset: 88408},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2775, col: 13, offset: 88148},
+																pos:        position{line: 2785, col: 13, offset: 88412},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45544,10 +45564,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2866, col: 10, offset: 90687},
+										pos: position{line: 2876, col: 10, offset: 90951},
 										run: (*parser).callonAttributeStructuredValueElement21,
 										expr: &charClassMatcher{
-											pos:        position{line: 2866, col: 10, offset: 90687},
+											pos:        position{line: 2876, col: 10, offset: 90951},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -45555,31 +45575,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2394, col: 11, offset: 77543},
+										pos:  position{line: 2404, col: 11, offset: 77807},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2783, col: 5, offset: 88341},
+										pos: position{line: 2793, col: 5, offset: 88605},
 										run: (*parser).callonAttributeStructuredValueElement24,
 										expr: &choiceExpr{
-											pos: position{line: 2784, col: 9, offset: 88351},
+											pos: position{line: 2794, col: 9, offset: 88615},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2784, col: 10, offset: 88352},
+													pos:        position{line: 2794, col: 10, offset: 88616},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2786, col: 13, offset: 88449},
+													pos: position{line: 2796, col: 13, offset: 88713},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2786, col: 13, offset: 88449},
+															pos: position{line: 2796, col: 13, offset: 88713},
 															run: (*parser).callonAttributeStructuredValueElement28,
 														},
 														&litMatcher{
-															pos:        position{line: 2789, col: 13, offset: 88549},
+															pos:        position{line: 2799, col: 13, offset: 88813},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -45587,20 +45607,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2789, col: 19, offset: 88555},
+													pos:        position{line: 2799, col: 19, offset: 88819},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2792, col: 13, offset: 88593},
+													pos: position{line: 2802, col: 13, offset: 88857},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2792, col: 13, offset: 88593},
+															pos: position{line: 2802, col: 13, offset: 88857},
 															run: (*parser).callonAttributeStructuredValueElement32,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2795, col: 14, offset: 88686},
+															pos:        position{line: 2805, col: 14, offset: 88950},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -45609,18 +45629,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2797, col: 12, offset: 88730},
+													pos: position{line: 2807, col: 12, offset: 88994},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2797, col: 12, offset: 88730},
+															pos:        position{line: 2807, col: 12, offset: 88994},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2797, col: 16, offset: 88734},
+															pos: position{line: 2807, col: 16, offset: 88998},
 															expr: &litMatcher{
-																pos:        position{line: 2797, col: 17, offset: 88735},
+																pos:        position{line: 2807, col: 17, offset: 88999},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -45632,31 +45652,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2396, col: 11, offset: 77616},
+										pos:  position{line: 2406, col: 11, offset: 77880},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2397, col: 11, offset: 77632},
+										pos:  position{line: 2407, col: 11, offset: 77896},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2460, col: 5, offset: 79140},
+										pos: position{line: 2470, col: 5, offset: 79404},
 										run: (*parser).callonAttributeStructuredValueElement40,
 										expr: &seqExpr{
-											pos: position{line: 2460, col: 5, offset: 79140},
+											pos: position{line: 2470, col: 5, offset: 79404},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2460, col: 5, offset: 79140},
+													pos: position{line: 2470, col: 5, offset: 79404},
 													run: (*parser).callonAttributeStructuredValueElement42,
 												},
 												&labeledExpr{
-													pos:   position{line: 2463, col: 5, offset: 79216},
+													pos:   position{line: 2473, col: 5, offset: 79480},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2464, col: 9, offset: 79234},
+														pos: position{line: 2474, col: 9, offset: 79498},
 														run: (*parser).callonAttributeStructuredValueElement44,
 														expr: &charClassMatcher{
-															pos:        position{line: 2464, col: 10, offset: 79235},
+															pos:        position{line: 2474, col: 10, offset: 79499},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -45707,25 +45727,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2875, col: 12, offset: 90858},
+										pos: position{line: 2885, col: 12, offset: 91122},
 										run: (*parser).callonAttributeStructuredValueElement54,
 										expr: &choiceExpr{
-											pos: position{line: 2875, col: 13, offset: 90859},
+											pos: position{line: 2885, col: 13, offset: 91123},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2875, col: 13, offset: 90859},
+													pos:        position{line: 2885, col: 13, offset: 91123},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2875, col: 20, offset: 90866},
+													pos:        position{line: 2885, col: 20, offset: 91130},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2875, col: 29, offset: 90875},
+													pos:        position{line: 2885, col: 29, offset: 91139},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -45734,10 +45754,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2805, col: 12, offset: 88995},
+										pos: position{line: 2815, col: 12, offset: 89259},
 										run: (*parser).callonAttributeStructuredValueElement59,
 										expr: &charClassMatcher{
-											pos:        position{line: 2805, col: 12, offset: 88995},
+											pos:        position{line: 2815, col: 12, offset: 89259},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -45753,49 +45773,49 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2408, col: 1, offset: 77902},
+			pos:  position{line: 2418, col: 1, offset: 78166},
 			expr: &actionExpr{
-				pos: position{line: 2410, col: 5, offset: 77984},
+				pos: position{line: 2420, col: 5, offset: 78248},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2410, col: 5, offset: 77984},
+					pos: position{line: 2420, col: 5, offset: 78248},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2410, col: 5, offset: 77984},
+							pos: position{line: 2420, col: 5, offset: 78248},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2413, col: 5, offset: 78049},
+							pos:   position{line: 2423, col: 5, offset: 78313},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2414, col: 9, offset: 78067},
+								pos: position{line: 2424, col: 9, offset: 78331},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2414, col: 9, offset: 78067},
+										pos:  position{line: 2424, col: 9, offset: 78331},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2415, col: 11, offset: 78088},
+										pos:  position{line: 2425, col: 11, offset: 78352},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2416, col: 11, offset: 78111},
+										pos:  position{line: 2426, col: 11, offset: 78375},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2417, col: 11, offset: 78127},
+										pos:  position{line: 2427, col: 11, offset: 78391},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2418, col: 11, offset: 78156},
+										pos:  position{line: 2428, col: 11, offset: 78420},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2419, col: 11, offset: 78182},
+										pos:  position{line: 2429, col: 11, offset: 78446},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2420, col: 11, offset: 78208},
+										pos:  position{line: 2430, col: 11, offset: 78472},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
@@ -45814,12 +45834,12 @@ var g = &grammar{
 													pos:   position{line: 1253, col: 14, offset: 38814},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2851, col: 7, offset: 90339},
+														pos: position{line: 2861, col: 7, offset: 90603},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2851, col: 7, offset: 90339},
+															pos: position{line: 2861, col: 7, offset: 90603},
 															expr: &charClassMatcher{
-																pos:        position{line: 2851, col: 7, offset: 90339},
+																pos:        position{line: 2861, col: 7, offset: 90603},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -45853,12 +45873,12 @@ var g = &grammar{
 													pos:   position{line: 1258, col: 10, offset: 38946},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2851, col: 7, offset: 90339},
+														pos: position{line: 2861, col: 7, offset: 90603},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2851, col: 7, offset: 90339},
+															pos: position{line: 2861, col: 7, offset: 90603},
 															expr: &charClassMatcher{
-																pos:        position{line: 2851, col: 7, offset: 90339},
+																pos:        position{line: 2861, col: 7, offset: 90603},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -45900,17 +45920,17 @@ var g = &grammar{
 																pos: position{line: 1304, col: 31, offset: 40768},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2756, col: 13, offset: 87782},
+																		pos:        position{line: 2766, col: 13, offset: 88046},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2866, col: 10, offset: 90687},
+																		pos: position{line: 2876, col: 10, offset: 90951},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2866, col: 10, offset: 90687},
+																			pos:        position{line: 2876, col: 10, offset: 90951},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -45936,10 +45956,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1298, col: 12, offset: 40482},
 																		expr: &actionExpr{
-																			pos: position{line: 2866, col: 10, offset: 90687},
+																			pos: position{line: 2876, col: 10, offset: 90951},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2866, col: 10, offset: 90687},
+																				pos:        position{line: 2876, col: 10, offset: 90951},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45956,10 +45976,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1298, col: 23, offset: 40493},
 																		expr: &actionExpr{
-																			pos: position{line: 2866, col: 10, offset: 90687},
+																			pos: position{line: 2876, col: 10, offset: 90951},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2866, col: 10, offset: 90687},
+																				pos:        position{line: 2876, col: 10, offset: 90951},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45979,17 +45999,17 @@ var g = &grammar{
 																					pos: position{line: 1304, col: 31, offset: 40768},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2756, col: 13, offset: 87782},
+																							pos:        position{line: 2766, col: 13, offset: 88046},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2866, col: 10, offset: 90687},
+																							pos: position{line: 2876, col: 10, offset: 90951},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2866, col: 10, offset: 90687},
+																								pos:        position{line: 2876, col: 10, offset: 90951},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -46020,10 +46040,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1299, col: 12, offset: 40574},
 																		expr: &actionExpr{
-																			pos: position{line: 2866, col: 10, offset: 90687},
+																			pos: position{line: 2876, col: 10, offset: 90951},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2866, col: 10, offset: 90687},
+																				pos:        position{line: 2876, col: 10, offset: 90951},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46040,10 +46060,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1299, col: 23, offset: 40585},
 																		expr: &actionExpr{
-																			pos: position{line: 2866, col: 10, offset: 90687},
+																			pos: position{line: 2876, col: 10, offset: 90951},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2866, col: 10, offset: 90687},
+																				pos:        position{line: 2876, col: 10, offset: 90951},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46063,17 +46083,17 @@ var g = &grammar{
 																					pos: position{line: 1304, col: 31, offset: 40768},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2756, col: 13, offset: 87782},
+																							pos:        position{line: 2766, col: 13, offset: 88046},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2866, col: 10, offset: 90687},
+																							pos: position{line: 2876, col: 10, offset: 90951},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2866, col: 10, offset: 90687},
+																								pos:        position{line: 2876, col: 10, offset: 90951},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -46100,15 +46120,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2423, col: 11, offset: 78287},
+										pos:  position{line: 2433, col: 11, offset: 78551},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2424, col: 11, offset: 78307},
+										pos:  position{line: 2434, col: 11, offset: 78571},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2425, col: 11, offset: 78330},
+										pos:  position{line: 2435, col: 11, offset: 78594},
 										name: "InlineMenu",
 									},
 								},
@@ -46120,22 +46140,22 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2429, col: 1, offset: 78387},
+			pos:  position{line: 2439, col: 1, offset: 78651},
 			expr: &actionExpr{
-				pos: position{line: 2431, col: 5, offset: 78475},
+				pos: position{line: 2441, col: 5, offset: 78739},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2431, col: 5, offset: 78475},
+					pos: position{line: 2441, col: 5, offset: 78739},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2431, col: 5, offset: 78475},
+							pos: position{line: 2441, col: 5, offset: 78739},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2434, col: 5, offset: 78552},
+							pos:   position{line: 2444, col: 5, offset: 78816},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2435, col: 9, offset: 78570},
+								pos: position{line: 2445, col: 9, offset: 78834},
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 1379, col: 26, offset: 44105},
@@ -46190,10 +46210,10 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1385, col: 12, offset: 44551},
 																				expr: &actionExpr{
-																					pos: position{line: 2866, col: 10, offset: 90687},
+																					pos: position{line: 2876, col: 10, offset: 90951},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2866, col: 10, offset: 90687},
+																						pos:        position{line: 2876, col: 10, offset: 90951},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -46204,25 +46224,25 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1385, col: 19, offset: 44558},
 																				expr: &actionExpr{
-																					pos: position{line: 2875, col: 12, offset: 90858},
+																					pos: position{line: 2885, col: 12, offset: 91122},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2875, col: 13, offset: 90859},
+																						pos: position{line: 2885, col: 13, offset: 91123},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 13, offset: 90859},
+																								pos:        position{line: 2885, col: 13, offset: 91123},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 20, offset: 90866},
+																								pos:        position{line: 2885, col: 20, offset: 91130},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2875, col: 29, offset: 90875},
+																								pos:        position{line: 2885, col: 29, offset: 91139},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -46259,7 +46279,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1379, col: 121, offset: 44200},
 													expr: &charClassMatcher{
-														pos:        position{line: 2756, col: 13, offset: 87782},
+														pos:        position{line: 2766, col: 13, offset: 88046},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -46305,10 +46325,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1371, col: 64, offset: 43660},
 																			expr: &actionExpr{
-																				pos: position{line: 2866, col: 10, offset: 90687},
+																				pos: position{line: 2876, col: 10, offset: 90951},
 																				run: (*parser).callonInlinePassthrough45,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2866, col: 10, offset: 90687},
+																					pos:        position{line: 2876, col: 10, offset: 90951},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -46319,25 +46339,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1371, col: 71, offset: 43667},
 																			expr: &actionExpr{
-																				pos: position{line: 2875, col: 12, offset: 90858},
+																				pos: position{line: 2885, col: 12, offset: 91122},
 																				run: (*parser).callonInlinePassthrough48,
 																				expr: &choiceExpr{
-																					pos: position{line: 2875, col: 13, offset: 90859},
+																					pos: position{line: 2885, col: 13, offset: 91123},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 13, offset: 90859},
+																							pos:        position{line: 2885, col: 13, offset: 91123},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 20, offset: 90866},
+																							pos:        position{line: 2885, col: 20, offset: 91130},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 29, offset: 90875},
+																							pos:        position{line: 2885, col: 29, offset: 91139},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -46360,12 +46380,12 @@ var g = &grammar{
 																							pos: position{line: 1371, col: 86, offset: 43682},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2870, col: 11, offset: 90748},
+																									pos: position{line: 2880, col: 11, offset: 91012},
 																									run: (*parser).callonInlinePassthrough58,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2870, col: 11, offset: 90748},
+																										pos: position{line: 2880, col: 11, offset: 91012},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2870, col: 11, offset: 90748},
+																											pos:        position{line: 2880, col: 11, offset: 91012},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -46394,25 +46414,25 @@ var g = &grammar{
 																					&notExpr{
 																						pos: position{line: 1371, col: 151, offset: 43747},
 																						expr: &actionExpr{
-																							pos: position{line: 2875, col: 12, offset: 90858},
+																							pos: position{line: 2885, col: 12, offset: 91122},
 																							run: (*parser).callonInlinePassthrough65,
 																							expr: &choiceExpr{
-																								pos: position{line: 2875, col: 13, offset: 90859},
+																								pos: position{line: 2885, col: 13, offset: 91123},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 13, offset: 90859},
+																										pos:        position{line: 2885, col: 13, offset: 91123},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 20, offset: 90866},
+																										pos:        position{line: 2885, col: 20, offset: 91130},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2875, col: 29, offset: 90875},
+																										pos:        position{line: 2885, col: 29, offset: 91139},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -46439,10 +46459,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1373, col: 12, offset: 43907},
 																			expr: &actionExpr{
-																				pos: position{line: 2866, col: 10, offset: 90687},
+																				pos: position{line: 2876, col: 10, offset: 90951},
 																				run: (*parser).callonInlinePassthrough74,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2866, col: 10, offset: 90687},
+																					pos:        position{line: 2876, col: 10, offset: 90951},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -46453,25 +46473,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1373, col: 19, offset: 43914},
 																			expr: &actionExpr{
-																				pos: position{line: 2875, col: 12, offset: 90858},
+																				pos: position{line: 2885, col: 12, offset: 91122},
 																				run: (*parser).callonInlinePassthrough77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2875, col: 13, offset: 90859},
+																					pos: position{line: 2885, col: 13, offset: 91123},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 13, offset: 90859},
+																							pos:        position{line: 2885, col: 13, offset: 91123},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 20, offset: 90866},
+																							pos:        position{line: 2885, col: 20, offset: 91130},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2875, col: 29, offset: 90875},
+																							pos:        position{line: 2885, col: 29, offset: 91139},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -46507,7 +46527,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1367, col: 121, offset: 43483},
 													expr: &charClassMatcher{
-														pos:        position{line: 2756, col: 13, offset: 87782},
+														pos:        position{line: 2766, col: 13, offset: 88046},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -46518,7 +46538,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2435, col: 57, offset: 78618},
+										pos:  position{line: 2445, col: 57, offset: 78882},
 										name: "PassthroughMacro",
 									},
 								},
@@ -46530,16 +46550,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2440, col: 1, offset: 78678},
+			pos:  position{line: 2450, col: 1, offset: 78942},
 			expr: &seqExpr{
-				pos: position{line: 2442, col: 5, offset: 78754},
+				pos: position{line: 2452, col: 5, offset: 79018},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2442, col: 5, offset: 78754},
+						pos: position{line: 2452, col: 5, offset: 79018},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2445, col: 5, offset: 78819},
+						pos:  position{line: 2455, col: 5, offset: 79083},
 						name: "QuotedText",
 					},
 				},
@@ -46547,22 +46567,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2447, col: 1, offset: 78832},
+			pos:  position{line: 2457, col: 1, offset: 79096},
 			expr: &actionExpr{
-				pos: position{line: 2449, col: 5, offset: 78914},
+				pos: position{line: 2459, col: 5, offset: 79178},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2449, col: 5, offset: 78914},
+					pos: position{line: 2459, col: 5, offset: 79178},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2449, col: 5, offset: 78914},
+							pos: position{line: 2459, col: 5, offset: 79178},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2452, col: 5, offset: 78985},
+							pos:   position{line: 2462, col: 5, offset: 79249},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2453, col: 9, offset: 79003},
+								pos:  position{line: 2463, col: 9, offset: 79267},
 								name: "Symbol",
 							},
 						},
@@ -46572,93 +46592,93 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2511, col: 1, offset: 80833},
+			pos:  position{line: 2521, col: 1, offset: 81097},
 			expr: &choiceExpr{
-				pos: position{line: 2513, col: 5, offset: 80863},
+				pos: position{line: 2523, col: 5, offset: 81127},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2513, col: 5, offset: 80863},
+						pos: position{line: 2523, col: 5, offset: 81127},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2513, col: 5, offset: 80863},
+							pos: position{line: 2523, col: 5, offset: 81127},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2513, col: 5, offset: 80863},
+									pos:        position{line: 2523, col: 5, offset: 81127},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2513, col: 10, offset: 80868},
+									pos: position{line: 2523, col: 10, offset: 81132},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2513, col: 10, offset: 80868},
+											pos:  position{line: 2523, col: 10, offset: 81132},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2542, col: 14, offset: 82002},
+											pos: position{line: 2552, col: 14, offset: 82266},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2542, col: 14, offset: 82002},
+												pos:        position{line: 2552, col: 14, offset: 82266},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2546, col: 14, offset: 82068},
+											pos: position{line: 2556, col: 14, offset: 82332},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2546, col: 14, offset: 82068},
+												pos:        position{line: 2556, col: 14, offset: 82332},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2550, col: 15, offset: 82137},
+											pos: position{line: 2560, col: 15, offset: 82401},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2550, col: 15, offset: 82137},
+												pos:        position{line: 2560, col: 15, offset: 82401},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2554, col: 13, offset: 82202},
+											pos: position{line: 2564, col: 13, offset: 82466},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2554, col: 13, offset: 82202},
+												pos:        position{line: 2564, col: 13, offset: 82466},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2561, col: 5, offset: 82340},
+											pos: position{line: 2571, col: 5, offset: 82604},
 											run: (*parser).callonSymbol15,
 											expr: &seqExpr{
-												pos: position{line: 2561, col: 5, offset: 82340},
+												pos: position{line: 2571, col: 5, offset: 82604},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2561, col: 5, offset: 82340},
+														pos:        position{line: 2571, col: 5, offset: 82604},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2562, col: 5, offset: 82350},
+														pos: position{line: 2572, col: 5, offset: 82614},
 														run: (*parser).callonSymbol18,
 													},
 													&choiceExpr{
-														pos: position{line: 2566, col: 6, offset: 82437},
+														pos: position{line: 2576, col: 6, offset: 82701},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2866, col: 10, offset: 90687},
+																pos: position{line: 2876, col: 10, offset: 90951},
 																run: (*parser).callonSymbol20,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2866, col: 10, offset: 90687},
+																	pos:        position{line: 2876, col: 10, offset: 90951},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -46666,30 +46686,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2566, col: 14, offset: 82445},
+																pos: position{line: 2576, col: 14, offset: 82709},
 																expr: &choiceExpr{
-																	pos: position{line: 2888, col: 8, offset: 91085},
+																	pos: position{line: 2898, col: 8, offset: 91349},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2875, col: 12, offset: 90858},
+																			pos: position{line: 2885, col: 12, offset: 91122},
 																			run: (*parser).callonSymbol24,
 																			expr: &choiceExpr{
-																				pos: position{line: 2875, col: 13, offset: 90859},
+																				pos: position{line: 2885, col: 13, offset: 91123},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 13, offset: 90859},
+																						pos:        position{line: 2885, col: 13, offset: 91123},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 20, offset: 90866},
+																						pos:        position{line: 2885, col: 20, offset: 91130},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2875, col: 29, offset: 90875},
+																						pos:        position{line: 2885, col: 29, offset: 91139},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -46698,9 +46718,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2885, col: 8, offset: 91035},
+																			pos: position{line: 2895, col: 8, offset: 91299},
 																			expr: &anyMatcher{
-																				line: 2885, col: 9, offset: 91036,
+																				line: 2895, col: 9, offset: 91300,
 																			},
 																		},
 																	},
@@ -46712,53 +46732,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2571, col: 5, offset: 82565},
+											pos: position{line: 2581, col: 5, offset: 82829},
 											run: (*parser).callonSymbol31,
 											expr: &seqExpr{
-												pos: position{line: 2571, col: 5, offset: 82565},
+												pos: position{line: 2581, col: 5, offset: 82829},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2571, col: 5, offset: 82565},
+														pos:        position{line: 2581, col: 5, offset: 82829},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2572, col: 5, offset: 82575},
+														pos: position{line: 2582, col: 5, offset: 82839},
 														run: (*parser).callonSymbol34,
 													},
 													&andExpr{
-														pos: position{line: 2576, col: 5, offset: 82664},
+														pos: position{line: 2586, col: 5, offset: 82928},
 														expr: &choiceExpr{
-															pos: position{line: 2576, col: 7, offset: 82666},
+															pos: position{line: 2586, col: 7, offset: 82930},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2756, col: 13, offset: 87782},
+																	pos:        position{line: 2766, col: 13, offset: 88046},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2875, col: 12, offset: 90858},
+																	pos: position{line: 2885, col: 12, offset: 91122},
 																	run: (*parser).callonSymbol38,
 																	expr: &choiceExpr{
-																		pos: position{line: 2875, col: 13, offset: 90859},
+																		pos: position{line: 2885, col: 13, offset: 91123},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2875, col: 13, offset: 90859},
+																				pos:        position{line: 2885, col: 13, offset: 91123},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2875, col: 20, offset: 90866},
+																				pos:        position{line: 2885, col: 20, offset: 91130},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2875, col: 29, offset: 90875},
+																				pos:        position{line: 2885, col: 29, offset: 91139},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -46767,9 +46787,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2885, col: 8, offset: 91035},
+																	pos: position{line: 2895, col: 8, offset: 91299},
 																	expr: &anyMatcher{
-																		line: 2885, col: 9, offset: 91036,
+																		line: 2895, col: 9, offset: 91300,
 																	},
 																},
 															},
@@ -46784,63 +46804,63 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2516, col: 7, offset: 81032},
+						pos: position{line: 2526, col: 7, offset: 81296},
 						run: (*parser).callonSymbol45,
 						expr: &seqExpr{
-							pos: position{line: 2516, col: 7, offset: 81032},
+							pos: position{line: 2526, col: 7, offset: 81296},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2516, col: 7, offset: 81032},
+									pos:        position{line: 2526, col: 7, offset: 81296},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2516, col: 11, offset: 81036},
+									pos:   position{line: 2526, col: 11, offset: 81300},
 									label: "elements",
 									expr: &choiceExpr{
-										pos: position{line: 2516, col: 21, offset: 81046},
+										pos: position{line: 2526, col: 21, offset: 81310},
 										alternatives: []interface{}{
 											&seqExpr{
-												pos: position{line: 2516, col: 21, offset: 81046},
+												pos: position{line: 2526, col: 21, offset: 81310},
 												exprs: []interface{}{
 													&charClassMatcher{
-														pos:        position{line: 2516, col: 21, offset: 81046},
+														pos:        position{line: 2526, col: 21, offset: 81310},
 														val:        "[-=]",
 														chars:      []rune{'-', '='},
 														ignoreCase: false,
 														inverted:   false,
 													},
 													&andExpr{
-														pos: position{line: 2516, col: 26, offset: 81051},
+														pos: position{line: 2526, col: 26, offset: 81315},
 														expr: &litMatcher{
-															pos:        position{line: 2516, col: 27, offset: 81052},
+															pos:        position{line: 2526, col: 27, offset: 81316},
 															val:        ">",
 															ignoreCase: false,
 															want:       "\">\"",
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2516, col: 32, offset: 81057},
+														pos: position{line: 2526, col: 32, offset: 81321},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2460, col: 5, offset: 79140},
+																pos: position{line: 2470, col: 5, offset: 79404},
 																run: (*parser).callonSymbol55,
 																expr: &seqExpr{
-																	pos: position{line: 2460, col: 5, offset: 79140},
+																	pos: position{line: 2470, col: 5, offset: 79404},
 																	exprs: []interface{}{
 																		&andCodeExpr{
-																			pos: position{line: 2460, col: 5, offset: 79140},
+																			pos: position{line: 2470, col: 5, offset: 79404},
 																			run: (*parser).callonSymbol57,
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 2463, col: 5, offset: 79216},
+																			pos:   position{line: 2473, col: 5, offset: 79480},
 																			label: "element",
 																			expr: &actionExpr{
-																				pos: position{line: 2464, col: 9, offset: 79234},
+																				pos: position{line: 2474, col: 9, offset: 79498},
 																				run: (*parser).callonSymbol59,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2464, col: 10, offset: 79235},
+																					pos:        position{line: 2474, col: 10, offset: 79499},
 																					val:        "[<>&]",
 																					chars:      []rune{'<', '>', '&'},
 																					ignoreCase: false,
@@ -46852,28 +46872,28 @@ var g = &grammar{
 																},
 															},
 															&anyMatcher{
-																line: 2516, col: 51, offset: 81076,
+																line: 2526, col: 51, offset: 81340,
 															},
 														},
 													},
 												},
 											},
 											&seqExpr{
-												pos: position{line: 2516, col: 56, offset: 81081},
+												pos: position{line: 2526, col: 56, offset: 81345},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2516, col: 56, offset: 81081},
+														pos: position{line: 2526, col: 56, offset: 81345},
 														expr: &choiceExpr{
-															pos: position{line: 2516, col: 58, offset: 81083},
+															pos: position{line: 2526, col: 58, offset: 81347},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2516, col: 58, offset: 81083},
+																	pos:        position{line: 2526, col: 58, offset: 81347},
 																	val:        "<-",
 																	ignoreCase: false,
 																	want:       "\"<-\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2516, col: 65, offset: 81090},
+																	pos:        position{line: 2526, col: 65, offset: 81354},
 																	val:        "<=",
 																	ignoreCase: false,
 																	want:       "\"<=\"",
@@ -46882,26 +46902,26 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2516, col: 72, offset: 81097},
+														pos: position{line: 2526, col: 72, offset: 81361},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2460, col: 5, offset: 79140},
+																pos: position{line: 2470, col: 5, offset: 79404},
 																run: (*parser).callonSymbol68,
 																expr: &seqExpr{
-																	pos: position{line: 2460, col: 5, offset: 79140},
+																	pos: position{line: 2470, col: 5, offset: 79404},
 																	exprs: []interface{}{
 																		&andCodeExpr{
-																			pos: position{line: 2460, col: 5, offset: 79140},
+																			pos: position{line: 2470, col: 5, offset: 79404},
 																			run: (*parser).callonSymbol70,
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 2463, col: 5, offset: 79216},
+																			pos:   position{line: 2473, col: 5, offset: 79480},
 																			label: "element",
 																			expr: &actionExpr{
-																				pos: position{line: 2464, col: 9, offset: 79234},
+																				pos: position{line: 2474, col: 9, offset: 79498},
 																				run: (*parser).callonSymbol72,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2464, col: 10, offset: 79235},
+																					pos:        position{line: 2474, col: 10, offset: 79499},
 																					val:        "[<>&]",
 																					chars:      []rune{'<', '>', '&'},
 																					ignoreCase: false,
@@ -46913,12 +46933,12 @@ var g = &grammar{
 																},
 															},
 															&anyMatcher{
-																line: 2516, col: 91, offset: 81116,
+																line: 2526, col: 91, offset: 81380,
 															},
 														},
 													},
 													&anyMatcher{
-														line: 2516, col: 94, offset: 81119,
+														line: 2526, col: 94, offset: 81383,
 													},
 												},
 											},
@@ -46929,73 +46949,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2517, col: 7, offset: 81153},
+						pos:  position{line: 2527, col: 7, offset: 81417},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2542, col: 14, offset: 82002},
+						pos: position{line: 2552, col: 14, offset: 82266},
 						run: (*parser).callonSymbol77,
 						expr: &litMatcher{
-							pos:        position{line: 2542, col: 14, offset: 82002},
+							pos:        position{line: 2552, col: 14, offset: 82266},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2546, col: 14, offset: 82068},
+						pos: position{line: 2556, col: 14, offset: 82332},
 						run: (*parser).callonSymbol79,
 						expr: &litMatcher{
-							pos:        position{line: 2546, col: 14, offset: 82068},
+							pos:        position{line: 2556, col: 14, offset: 82332},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2550, col: 15, offset: 82137},
+						pos: position{line: 2560, col: 15, offset: 82401},
 						run: (*parser).callonSymbol81,
 						expr: &litMatcher{
-							pos:        position{line: 2550, col: 15, offset: 82137},
+							pos:        position{line: 2560, col: 15, offset: 82401},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2554, col: 13, offset: 82202},
+						pos: position{line: 2564, col: 13, offset: 82466},
 						run: (*parser).callonSymbol83,
 						expr: &litMatcher{
-							pos:        position{line: 2554, col: 13, offset: 82202},
+							pos:        position{line: 2564, col: 13, offset: 82466},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2561, col: 5, offset: 82340},
+						pos: position{line: 2571, col: 5, offset: 82604},
 						run: (*parser).callonSymbol85,
 						expr: &seqExpr{
-							pos: position{line: 2561, col: 5, offset: 82340},
+							pos: position{line: 2571, col: 5, offset: 82604},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2561, col: 5, offset: 82340},
+									pos:        position{line: 2571, col: 5, offset: 82604},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2562, col: 5, offset: 82350},
+									pos: position{line: 2572, col: 5, offset: 82614},
 									run: (*parser).callonSymbol88,
 								},
 								&choiceExpr{
-									pos: position{line: 2566, col: 6, offset: 82437},
+									pos: position{line: 2576, col: 6, offset: 82701},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2866, col: 10, offset: 90687},
+											pos: position{line: 2876, col: 10, offset: 90951},
 											run: (*parser).callonSymbol90,
 											expr: &charClassMatcher{
-												pos:        position{line: 2866, col: 10, offset: 90687},
+												pos:        position{line: 2876, col: 10, offset: 90951},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -47003,30 +47023,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2566, col: 14, offset: 82445},
+											pos: position{line: 2576, col: 14, offset: 82709},
 											expr: &choiceExpr{
-												pos: position{line: 2888, col: 8, offset: 91085},
+												pos: position{line: 2898, col: 8, offset: 91349},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2875, col: 12, offset: 90858},
+														pos: position{line: 2885, col: 12, offset: 91122},
 														run: (*parser).callonSymbol94,
 														expr: &choiceExpr{
-															pos: position{line: 2875, col: 13, offset: 90859},
+															pos: position{line: 2885, col: 13, offset: 91123},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2875, col: 13, offset: 90859},
+																	pos:        position{line: 2885, col: 13, offset: 91123},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2875, col: 20, offset: 90866},
+																	pos:        position{line: 2885, col: 20, offset: 91130},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2875, col: 29, offset: 90875},
+																	pos:        position{line: 2885, col: 29, offset: 91139},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -47035,9 +47055,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2885, col: 8, offset: 91035},
+														pos: position{line: 2895, col: 8, offset: 91299},
 														expr: &anyMatcher{
-															line: 2885, col: 9, offset: 91036,
+															line: 2895, col: 9, offset: 91300,
 														},
 													},
 												},
@@ -47049,53 +47069,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2571, col: 5, offset: 82565},
+						pos: position{line: 2581, col: 5, offset: 82829},
 						run: (*parser).callonSymbol101,
 						expr: &seqExpr{
-							pos: position{line: 2571, col: 5, offset: 82565},
+							pos: position{line: 2581, col: 5, offset: 82829},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2571, col: 5, offset: 82565},
+									pos:        position{line: 2581, col: 5, offset: 82829},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2572, col: 5, offset: 82575},
+									pos: position{line: 2582, col: 5, offset: 82839},
 									run: (*parser).callonSymbol104,
 								},
 								&andExpr{
-									pos: position{line: 2576, col: 5, offset: 82664},
+									pos: position{line: 2586, col: 5, offset: 82928},
 									expr: &choiceExpr{
-										pos: position{line: 2576, col: 7, offset: 82666},
+										pos: position{line: 2586, col: 7, offset: 82930},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2756, col: 13, offset: 87782},
+												pos:        position{line: 2766, col: 13, offset: 88046},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2875, col: 12, offset: 90858},
+												pos: position{line: 2885, col: 12, offset: 91122},
 												run: (*parser).callonSymbol108,
 												expr: &choiceExpr{
-													pos: position{line: 2875, col: 13, offset: 90859},
+													pos: position{line: 2885, col: 13, offset: 91123},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2875, col: 13, offset: 90859},
+															pos:        position{line: 2885, col: 13, offset: 91123},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2875, col: 20, offset: 90866},
+															pos:        position{line: 2885, col: 20, offset: 91130},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2875, col: 29, offset: 90875},
+															pos:        position{line: 2885, col: 29, offset: 91139},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -47104,9 +47124,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2885, col: 8, offset: 91035},
+												pos: position{line: 2895, col: 8, offset: 91299},
 												expr: &anyMatcher{
-													line: 2885, col: 9, offset: 91036,
+													line: 2895, col: 9, offset: 91300,
 												},
 											},
 										},
@@ -47116,40 +47136,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2582, col: 21, offset: 82754},
+						pos: position{line: 2592, col: 21, offset: 83018},
 						run: (*parser).callonSymbol115,
 						expr: &litMatcher{
-							pos:        position{line: 2582, col: 21, offset: 82754},
+							pos:        position{line: 2592, col: 21, offset: 83018},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2586, col: 20, offset: 82824},
+						pos: position{line: 2596, col: 20, offset: 83088},
 						run: (*parser).callonSymbol117,
 						expr: &litMatcher{
-							pos:        position{line: 2586, col: 20, offset: 82824},
+							pos:        position{line: 2596, col: 20, offset: 83088},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2590, col: 21, offset: 82895},
+						pos: position{line: 2600, col: 21, offset: 83159},
 						run: (*parser).callonSymbol119,
 						expr: &litMatcher{
-							pos:        position{line: 2590, col: 21, offset: 82895},
+							pos:        position{line: 2600, col: 21, offset: 83159},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2594, col: 20, offset: 82965},
+						pos: position{line: 2604, col: 20, offset: 83229},
 						run: (*parser).callonSymbol121,
 						expr: &litMatcher{
-							pos:        position{line: 2594, col: 20, offset: 82965},
+							pos:        position{line: 2604, col: 20, offset: 83229},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -47160,43 +47180,43 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2528, col: 1, offset: 81343},
+			pos:  position{line: 2538, col: 1, offset: 81607},
 			expr: &choiceExpr{
-				pos: position{line: 2529, col: 5, offset: 81365},
+				pos: position{line: 2539, col: 5, offset: 81629},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2529, col: 5, offset: 81365},
+						pos: position{line: 2539, col: 5, offset: 81629},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2529, col: 5, offset: 81365},
+							pos: position{line: 2539, col: 5, offset: 81629},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2529, col: 5, offset: 81365},
+									pos:        position{line: 2539, col: 5, offset: 81629},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2529, col: 11, offset: 81371},
+									pos: position{line: 2539, col: 11, offset: 81635},
 									expr: &seqExpr{
-										pos: position{line: 2079, col: 5, offset: 67277},
+										pos: position{line: 2089, col: 5, offset: 67541},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2079, col: 5, offset: 67277},
+												pos:        position{line: 2089, col: 5, offset: 67541},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2080, col: 5, offset: 67286},
+												pos: position{line: 2090, col: 5, offset: 67550},
 												run: (*parser).callonQuotationMark8,
 											},
 											&andExpr{
-												pos: position{line: 2084, col: 5, offset: 67409},
+												pos: position{line: 2094, col: 5, offset: 67673},
 												expr: &notExpr{
-													pos: position{line: 2084, col: 7, offset: 67411},
+													pos: position{line: 2094, col: 7, offset: 67675},
 													expr: &litMatcher{
-														pos:        position{line: 2084, col: 8, offset: 67412},
+														pos:        position{line: 2094, col: 8, offset: 67676},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -47210,21 +47230,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2532, col: 7, offset: 81524},
+						pos: position{line: 2542, col: 7, offset: 81788},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2532, col: 7, offset: 81524},
+							pos: position{line: 2542, col: 7, offset: 81788},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2532, col: 7, offset: 81524},
+									pos:        position{line: 2542, col: 7, offset: 81788},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2532, col: 13, offset: 81530},
+									pos: position{line: 2542, col: 13, offset: 81794},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2532, col: 14, offset: 81531},
+										pos:  position{line: 2542, col: 14, offset: 81795},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -47232,38 +47252,38 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2535, col: 7, offset: 81681},
+						pos: position{line: 2545, col: 7, offset: 81945},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2535, col: 7, offset: 81681},
+							pos: position{line: 2545, col: 7, offset: 81945},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2535, col: 7, offset: 81681},
+									pos:        position{line: 2545, col: 7, offset: 81945},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2535, col: 12, offset: 81686},
+									pos: position{line: 2545, col: 12, offset: 81950},
 									expr: &seqExpr{
-										pos: position{line: 2079, col: 5, offset: 67277},
+										pos: position{line: 2089, col: 5, offset: 67541},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2079, col: 5, offset: 67277},
+												pos:        position{line: 2089, col: 5, offset: 67541},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2080, col: 5, offset: 67286},
+												pos: position{line: 2090, col: 5, offset: 67550},
 												run: (*parser).callonQuotationMark23,
 											},
 											&andExpr{
-												pos: position{line: 2084, col: 5, offset: 67409},
+												pos: position{line: 2094, col: 5, offset: 67673},
 												expr: &notExpr{
-													pos: position{line: 2084, col: 7, offset: 67411},
+													pos: position{line: 2094, col: 7, offset: 67675},
 													expr: &litMatcher{
-														pos:        position{line: 2084, col: 8, offset: 67412},
+														pos:        position{line: 2094, col: 8, offset: 67676},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -47277,21 +47297,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2538, col: 7, offset: 81839},
+						pos: position{line: 2548, col: 7, offset: 82103},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2538, col: 7, offset: 81839},
+							pos: position{line: 2548, col: 7, offset: 82103},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2538, col: 7, offset: 81839},
+									pos:        position{line: 2548, col: 7, offset: 82103},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2538, col: 12, offset: 81844},
+									pos: position{line: 2548, col: 12, offset: 82108},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2538, col: 13, offset: 81845},
+										pos:  position{line: 2548, col: 13, offset: 82109},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -47303,63 +47323,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2671, col: 1, offset: 84867},
+			pos:  position{line: 2681, col: 1, offset: 85131},
 			expr: &actionExpr{
-				pos: position{line: 2671, col: 26, offset: 84892},
+				pos: position{line: 2681, col: 26, offset: 85156},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2671, col: 26, offset: 84892},
+					pos: position{line: 2681, col: 26, offset: 85156},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2671, col: 26, offset: 84892},
+							pos:   position{line: 2681, col: 26, offset: 85156},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2671, col: 31, offset: 84897},
+								pos: position{line: 2681, col: 31, offset: 85161},
 								expr: &actionExpr{
-									pos: position{line: 2676, col: 5, offset: 84960},
+									pos: position{line: 2686, col: 5, offset: 85224},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2676, col: 5, offset: 84960},
+										pos: position{line: 2686, col: 5, offset: 85224},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2883, col: 11, offset: 91021},
+												pos: position{line: 2893, col: 11, offset: 91285},
 												expr: &anyMatcher{
-													line: 2883, col: 13, offset: 91023,
+													line: 2893, col: 13, offset: 91287,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2679, col: 5, offset: 85086},
+												pos:   position{line: 2689, col: 5, offset: 85350},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2679, col: 16, offset: 85097},
+													pos: position{line: 2689, col: 16, offset: 85361},
 													expr: &actionExpr{
-														pos: position{line: 2679, col: 17, offset: 85098},
+														pos: position{line: 2689, col: 17, offset: 85362},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2679, col: 17, offset: 85098},
+															pos: position{line: 2689, col: 17, offset: 85362},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2679, col: 17, offset: 85098},
+																	pos:   position{line: 2689, col: 17, offset: 85362},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2858, col: 12, offset: 90514},
+																		pos: position{line: 2868, col: 12, offset: 90778},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2858, col: 13, offset: 90515},
+																			pos: position{line: 2868, col: 13, offset: 90779},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2858, col: 13, offset: 90515},
+																					pos: position{line: 2868, col: 13, offset: 90779},
 																					expr: &litMatcher{
-																						pos:        position{line: 2858, col: 13, offset: 90515},
+																						pos:        position{line: 2868, col: 13, offset: 90779},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2858, col: 18, offset: 90520},
+																					pos: position{line: 2868, col: 18, offset: 90784},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2858, col: 18, offset: 90520},
+																						pos:        position{line: 2868, col: 18, offset: 90784},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -47371,7 +47391,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2679, col: 27, offset: 85108},
+																	pos:        position{line: 2689, col: 27, offset: 85372},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -47382,38 +47402,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2680, col: 5, offset: 85136},
+												pos:   position{line: 2690, col: 5, offset: 85400},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2680, col: 12, offset: 85143},
+													pos: position{line: 2690, col: 12, offset: 85407},
 													expr: &choiceExpr{
-														pos: position{line: 2681, col: 9, offset: 85153},
+														pos: position{line: 2691, col: 9, offset: 85417},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2681, col: 9, offset: 85153},
+																pos: position{line: 2691, col: 9, offset: 85417},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2681, col: 9, offset: 85153},
+																	pos:        position{line: 2691, col: 9, offset: 85417},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2682, col: 11, offset: 85200},
+																pos: position{line: 2692, col: 11, offset: 85464},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2682, col: 11, offset: 85200},
+																	pos:        position{line: 2692, col: 11, offset: 85464},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2683, col: 11, offset: 85248},
+																pos: position{line: 2693, col: 11, offset: 85512},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2683, col: 11, offset: 85248},
+																	pos:        position{line: 2693, col: 11, offset: 85512},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -47424,38 +47444,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2685, col: 5, offset: 85298},
+												pos:   position{line: 2695, col: 5, offset: 85562},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2685, col: 12, offset: 85305},
+													pos: position{line: 2695, col: 12, offset: 85569},
 													expr: &choiceExpr{
-														pos: position{line: 2686, col: 9, offset: 85315},
+														pos: position{line: 2696, col: 9, offset: 85579},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2686, col: 9, offset: 85315},
+																pos: position{line: 2696, col: 9, offset: 85579},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2686, col: 9, offset: 85315},
+																	pos:        position{line: 2696, col: 9, offset: 85579},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2687, col: 11, offset: 85362},
+																pos: position{line: 2697, col: 11, offset: 85626},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2687, col: 11, offset: 85362},
+																	pos:        position{line: 2697, col: 11, offset: 85626},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2688, col: 11, offset: 85412},
+																pos: position{line: 2698, col: 11, offset: 85676},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2688, col: 11, offset: 85412},
+																	pos:        position{line: 2698, col: 11, offset: 85676},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -47466,32 +47486,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2690, col: 5, offset: 85463},
+												pos:   position{line: 2700, col: 5, offset: 85727},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2690, col: 12, offset: 85470},
+													pos: position{line: 2700, col: 12, offset: 85734},
 													expr: &choiceExpr{
-														pos: position{line: 2690, col: 13, offset: 85471},
+														pos: position{line: 2700, col: 13, offset: 85735},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2858, col: 12, offset: 90514},
+																pos: position{line: 2868, col: 12, offset: 90778},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2858, col: 13, offset: 90515},
+																	pos: position{line: 2868, col: 13, offset: 90779},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2858, col: 13, offset: 90515},
+																			pos: position{line: 2868, col: 13, offset: 90779},
 																			expr: &litMatcher{
-																				pos:        position{line: 2858, col: 13, offset: 90515},
+																				pos:        position{line: 2868, col: 13, offset: 90779},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2858, col: 18, offset: 90520},
+																			pos: position{line: 2868, col: 18, offset: 90784},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2858, col: 18, offset: 90520},
+																				pos:        position{line: 2868, col: 18, offset: 90784},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -47502,10 +47522,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2690, col: 24, offset: 85482},
+																pos: position{line: 2700, col: 24, offset: 85746},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2690, col: 24, offset: 85482},
+																	pos:        position{line: 2700, col: 24, offset: 85746},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -47516,15 +47536,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2691, col: 5, offset: 85524},
+												pos:   position{line: 2701, col: 5, offset: 85788},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2691, col: 11, offset: 85530},
+													pos: position{line: 2701, col: 11, offset: 85794},
 													expr: &actionExpr{
-														pos: position{line: 2691, col: 12, offset: 85531},
+														pos: position{line: 2701, col: 12, offset: 85795},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2691, col: 12, offset: 85531},
+															pos:        position{line: 2701, col: 12, offset: 85795},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -47534,12 +47554,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2693, col: 5, offset: 85661},
+												pos:   position{line: 2703, col: 5, offset: 85925},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2693, col: 11, offset: 85667},
+													pos: position{line: 2703, col: 11, offset: 85931},
 													expr: &litMatcher{
-														pos:        position{line: 2693, col: 12, offset: 85668},
+														pos:        position{line: 2703, col: 12, offset: 85932},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -47547,7 +47567,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2694, col: 5, offset: 85678},
+												pos: position{line: 2704, col: 5, offset: 85942},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -47556,9 +47576,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2885, col: 8, offset: 91035},
+							pos: position{line: 2895, col: 8, offset: 91299},
 							expr: &anyMatcher{
-								line: 2885, col: 9, offset: 91036,
+								line: 2895, col: 9, offset: 91300,
 							},
 						},
 					},
@@ -47567,23 +47587,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2721, col: 1, offset: 86682},
+			pos:  position{line: 2731, col: 1, offset: 86946},
 			expr: &actionExpr{
-				pos: position{line: 2722, col: 5, offset: 86705},
+				pos: position{line: 2732, col: 5, offset: 86969},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2722, col: 5, offset: 86705},
+					pos: position{line: 2732, col: 5, offset: 86969},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2722, col: 5, offset: 86705},
+							pos:   position{line: 2732, col: 5, offset: 86969},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2745, col: 18, offset: 87446},
+								pos: position{line: 2755, col: 18, offset: 87710},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2745, col: 19, offset: 87447},
+									pos: position{line: 2755, col: 19, offset: 87711},
 									expr: &charClassMatcher{
-										pos:        position{line: 2745, col: 19, offset: 87447},
+										pos:        position{line: 2755, col: 19, offset: 87711},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47594,25 +47614,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2723, col: 5, offset: 86731},
+							pos: position{line: 2733, col: 5, offset: 86995},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2727, col: 5, offset: 86859},
+							pos:        position{line: 2737, col: 5, offset: 87123},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2728, col: 5, offset: 86869},
+							pos:   position{line: 2738, col: 5, offset: 87133},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2749, col: 19, offset: 87522},
+								pos: position{line: 2759, col: 19, offset: 87786},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2749, col: 19, offset: 87522},
+									pos: position{line: 2759, col: 19, offset: 87786},
 									expr: &charClassMatcher{
-										pos:        position{line: 2749, col: 19, offset: 87522},
+										pos:        position{line: 2759, col: 19, offset: 87786},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -47622,36 +47642,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2729, col: 5, offset: 86897},
+							pos:   position{line: 2739, col: 5, offset: 87161},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2729, col: 17, offset: 86909},
+								pos:  position{line: 2739, col: 17, offset: 87173},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2888, col: 8, offset: 91085},
+							pos: position{line: 2898, col: 8, offset: 91349},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2875, col: 12, offset: 90858},
+									pos: position{line: 2885, col: 12, offset: 91122},
 									run: (*parser).callonUserMacroBlock16,
 									expr: &choiceExpr{
-										pos: position{line: 2875, col: 13, offset: 90859},
+										pos: position{line: 2885, col: 13, offset: 91123},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2875, col: 13, offset: 90859},
+												pos:        position{line: 2885, col: 13, offset: 91123},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2875, col: 20, offset: 90866},
+												pos:        position{line: 2885, col: 20, offset: 91130},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2875, col: 29, offset: 90875},
+												pos:        position{line: 2885, col: 29, offset: 91139},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -47660,9 +47680,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2885, col: 8, offset: 91035},
+									pos: position{line: 2895, col: 8, offset: 91299},
 									expr: &anyMatcher{
-										line: 2885, col: 9, offset: 91036,
+										line: 2895, col: 9, offset: 91300,
 									},
 								},
 							},
@@ -47673,23 +47693,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2733, col: 1, offset: 87057},
+			pos:  position{line: 2743, col: 1, offset: 87321},
 			expr: &actionExpr{
-				pos: position{line: 2734, col: 5, offset: 87081},
+				pos: position{line: 2744, col: 5, offset: 87345},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2734, col: 5, offset: 87081},
+					pos: position{line: 2744, col: 5, offset: 87345},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2734, col: 5, offset: 87081},
+							pos:   position{line: 2744, col: 5, offset: 87345},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2745, col: 18, offset: 87446},
+								pos: position{line: 2755, col: 18, offset: 87710},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2745, col: 19, offset: 87447},
+									pos: position{line: 2755, col: 19, offset: 87711},
 									expr: &charClassMatcher{
-										pos:        position{line: 2745, col: 19, offset: 87447},
+										pos:        position{line: 2755, col: 19, offset: 87711},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47700,25 +47720,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2735, col: 5, offset: 87107},
+							pos: position{line: 2745, col: 5, offset: 87371},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2739, col: 5, offset: 87235},
+							pos:        position{line: 2749, col: 5, offset: 87499},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2740, col: 5, offset: 87244},
+							pos:   position{line: 2750, col: 5, offset: 87508},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2749, col: 19, offset: 87522},
+								pos: position{line: 2759, col: 19, offset: 87786},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2749, col: 19, offset: 87522},
+									pos: position{line: 2759, col: 19, offset: 87786},
 									expr: &charClassMatcher{
-										pos:        position{line: 2749, col: 19, offset: 87522},
+										pos:        position{line: 2759, col: 19, offset: 87786},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -47728,10 +47748,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2741, col: 5, offset: 87272},
+							pos:   position{line: 2751, col: 5, offset: 87536},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2741, col: 17, offset: 87284},
+								pos:  position{line: 2751, col: 17, offset: 87548},
 								name: "InlineAttributes",
 							},
 						},
@@ -47741,43 +47761,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2820, col: 1, offset: 89334},
+			pos:  position{line: 2830, col: 1, offset: 89598},
 			expr: &actionExpr{
-				pos: position{line: 2820, col: 17, offset: 89350},
+				pos: position{line: 2830, col: 17, offset: 89614},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2820, col: 17, offset: 89350},
+					pos:   position{line: 2830, col: 17, offset: 89614},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2837, col: 5, offset: 89804},
+						pos: position{line: 2847, col: 5, offset: 90068},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2837, col: 5, offset: 89804},
+							pos:   position{line: 2847, col: 5, offset: 90068},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2837, col: 14, offset: 89813},
+								pos: position{line: 2847, col: 14, offset: 90077},
 								expr: &choiceExpr{
-									pos: position{line: 2838, col: 9, offset: 89823},
+									pos: position{line: 2848, col: 9, offset: 90087},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2838, col: 9, offset: 89823},
+											pos: position{line: 2848, col: 9, offset: 90087},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2838, col: 9, offset: 89823},
+												pos: position{line: 2848, col: 9, offset: 90087},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2838, col: 9, offset: 89823},
+														pos: position{line: 2848, col: 9, offset: 90087},
 														expr: &litMatcher{
-															pos:        position{line: 2838, col: 10, offset: 89824},
+															pos:        position{line: 2848, col: 10, offset: 90088},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2839, col: 9, offset: 89852},
+														pos: position{line: 2849, col: 9, offset: 90116},
 														expr: &charClassMatcher{
-															pos:        position{line: 2839, col: 10, offset: 89853},
+															pos:        position{line: 2849, col: 10, offset: 90117},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -47788,27 +47808,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2842, col: 11, offset: 90065},
+											pos: position{line: 2852, col: 11, offset: 90329},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2842, col: 11, offset: 90065},
+													pos:        position{line: 2852, col: 11, offset: 90329},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2842, col: 19, offset: 90073},
+													pos: position{line: 2852, col: 19, offset: 90337},
 													expr: &seqExpr{
-														pos: position{line: 2842, col: 21, offset: 90075},
+														pos: position{line: 2852, col: 21, offset: 90339},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2842, col: 21, offset: 90075},
+																pos: position{line: 2852, col: 21, offset: 90339},
 																expr: &actionExpr{
-																	pos: position{line: 2866, col: 10, offset: 90687},
+																	pos: position{line: 2876, col: 10, offset: 90951},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2866, col: 10, offset: 90687},
+																		pos:        position{line: 2876, col: 10, offset: 90951},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -47817,11 +47837,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2842, col: 28, offset: 90082},
+																pos: position{line: 2852, col: 28, offset: 90346},
 																expr: &notExpr{
-																	pos: position{line: 2885, col: 8, offset: 91035},
+																	pos: position{line: 2895, col: 8, offset: 91299},
 																	expr: &anyMatcher{
-																		line: 2885, col: 9, offset: 91036,
+																		line: 2895, col: 9, offset: 91300,
 																	},
 																},
 															},
@@ -48216,10 +48236,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2845, col: 11, offset: 90202},
+											pos: position{line: 2855, col: 11, offset: 90466},
 											run: (*parser).callonFileLocation100,
 											expr: &litMatcher{
-												pos:        position{line: 2845, col: 11, offset: 90202},
+												pos:        position{line: 2855, col: 11, offset: 90466},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -59244,15 +59264,16 @@ func (p *parser) callonPassthroughMacro2() (interface{}, error) {
 	return p.cur.onPassthroughMacro2(stack["content"])
 }
 
-func (c *current) onPassthroughMacro17() (interface{}, error) {
-	return types.NewStringElement(string(c.text))
+func (c *current) onPassthroughMacro12() (interface{}, error) {
+	c.trackElement(nil)
+	return nil, nil
 
 }
 
-func (p *parser) callonPassthroughMacro17() (interface{}, error) {
+func (p *parser) callonPassthroughMacro12() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onPassthroughMacro17()
+	return p.cur.onPassthroughMacro12()
 }
 
 func (c *current) onPassthroughMacro10(content interface{}) (interface{}, error) {
@@ -59266,6 +59287,29 @@ func (p *parser) callonPassthroughMacro10() (interface{}, error) {
 	return p.cur.onPassthroughMacro10(stack["content"])
 }
 
+func (c *current) onPassthroughMacroQuotesElement5() (interface{}, error) {
+	return types.NewStringElement(string(c.text))
+
+}
+
+func (p *parser) callonPassthroughMacroQuotesElement5() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onPassthroughMacroQuotesElement5()
+}
+
+func (c *current) onPassthroughMacroQuotesElement1(element interface{}) (interface{}, error) {
+	c.trackElement(element)
+	return element, nil
+
+}
+
+func (p *parser) callonPassthroughMacroQuotesElement1() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onPassthroughMacroQuotesElement1(stack["element"])
+}
+
 func (c *current) onLink11() (interface{}, error) {
 	return string(c.text), nil
 }
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 827a61f..cb80044 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -1388,10 +1388,20 @@ TriplePlusPassthroughContent <- ((!TriplePlusPassthroughPrefix .)* { // spaces a
 
 PassthroughMacro <- "pass:[" content:(PassthroughMacroCharacter)* "]" {
         return types.NewInlinePassthrough(types.PassthroughMacro, []interface{}{content})
-    } / "pass:q[" content:(QuotedText / PassthroughMacroCharacter)* "]" {
+    } / PassthroughMacroQuotesPrefix content:(PassthroughMacroQuotesElement)* "]" {
         return types.NewInlinePassthrough(types.PassthroughMacro, content.([]interface{}))
     }
 
+PassthroughMacroQuotesPrefix <- "pass:q[" {
+        c.trackElement(nil)
+        return nil, nil
+    }
+
+PassthroughMacroQuotesElement <- element:(QuotedText / PassthroughMacroCharacter) {
+        c.trackElement(element)
+        return element, nil
+    }
+
 PassthroughMacroCharacter <- [^\]] {
         return types.NewStringElement(string(c.text))
     }
-- 
2.43.0


From f8bfe6fd03091486c9513e5ae8dcf5e778dd66c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:28 +0000
Subject: [PATCH 088/143] fix: underscores in the names of attributes

---
 pkg/parser/parser.go  | 19482 ++++++++++++++++++++--------------------
 pkg/parser/parser.peg |     2 +-
 2 files changed, 9742 insertions(+), 9742 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 6fe62e6..17bb5e9 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -45,19 +45,19 @@ var g = &grammar{
 										name: "AttributeDeclaration",
 									},
 									&actionExpr{
-										pos: position{line: 360, col: 19, offset: 10910},
+										pos: position{line: 360, col: 19, offset: 10911},
 										run: (*parser).callonDocumentRawLine6,
 										expr: &seqExpr{
-											pos: position{line: 360, col: 19, offset: 10910},
+											pos: position{line: 360, col: 19, offset: 10911},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 360, col: 19, offset: 10910},
+													pos:        position{line: 360, col: 19, offset: 10911},
 													val:        ":!",
 													ignoreCase: false,
 													want:       "\":!\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 360, col: 24, offset: 10915},
+													pos:   position{line: 360, col: 24, offset: 10916},
 													label: "name",
 													expr: &actionExpr{
 														pos: position{line: 318, col: 18, offset: 9729},
@@ -77,8 +77,8 @@ var g = &grammar{
 																	pos: position{line: 318, col: 28, offset: 9739},
 																	expr: &charClassMatcher{
 																		pos:        position{line: 318, col: 29, offset: 9740},
-																		val:        "[-\\pL\\pN]",
-																		chars:      []rune{'-'},
+																		val:        "[_-\\pL\\pN]",
+																		chars:      []rune{'_', '-'},
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
@@ -89,18 +89,18 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 360, col: 45, offset: 10936},
+													pos:        position{line: 360, col: 45, offset: 10937},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 360, col: 49, offset: 10940},
+													pos: position{line: 360, col: 49, offset: 10941},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 90951},
+														pos: position{line: 2876, col: 10, offset: 90952},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 90951},
+															pos:        position{line: 2876, col: 10, offset: 90952},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2898, col: 8, offset: 91349},
+													pos: position{line: 2898, col: 8, offset: 91350},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91122},
+															pos: position{line: 2885, col: 12, offset: 91123},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2885, col: 13, offset: 91123},
+																pos: position{line: 2885, col: 13, offset: 91124},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 13, offset: 91123},
+																		pos:        position{line: 2885, col: 13, offset: 91124},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 20, offset: 91130},
+																		pos:        position{line: 2885, col: 20, offset: 91131},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 29, offset: 91139},
+																		pos:        position{line: 2885, col: 29, offset: 91140},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2895, col: 8, offset: 91299},
+															pos: position{line: 2895, col: 8, offset: 91300},
 															expr: &anyMatcher{
-																line: 2895, col: 9, offset: 91300,
+																line: 2895, col: 9, offset: 91301,
 															},
 														},
 													},
@@ -150,19 +150,19 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 362, col: 9, offset: 11031},
+										pos: position{line: 362, col: 9, offset: 11032},
 										run: (*parser).callonDocumentRawLine27,
 										expr: &seqExpr{
-											pos: position{line: 362, col: 9, offset: 11031},
+											pos: position{line: 362, col: 9, offset: 11032},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 362, col: 9, offset: 11031},
+													pos:        position{line: 362, col: 9, offset: 11032},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 362, col: 13, offset: 11035},
+													pos:   position{line: 362, col: 13, offset: 11036},
 													label: "name",
 													expr: &actionExpr{
 														pos: position{line: 318, col: 18, offset: 9729},
@@ -182,8 +182,8 @@ var g = &grammar{
 																	pos: position{line: 318, col: 28, offset: 9739},
 																	expr: &charClassMatcher{
 																		pos:        position{line: 318, col: 29, offset: 9740},
-																		val:        "[-\\pL\\pN]",
-																		chars:      []rune{'-'},
+																		val:        "[_-\\pL\\pN]",
+																		chars:      []rune{'_', '-'},
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
@@ -194,18 +194,18 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 362, col: 34, offset: 11056},
+													pos:        position{line: 362, col: 34, offset: 11057},
 													val:        "!:",
 													ignoreCase: false,
 													want:       "\"!:\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 362, col: 39, offset: 11061},
+													pos: position{line: 362, col: 39, offset: 11062},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 90951},
+														pos: position{line: 2876, col: 10, offset: 90952},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 90951},
+															pos:        position{line: 2876, col: 10, offset: 90952},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2898, col: 8, offset: 91349},
+													pos: position{line: 2898, col: 8, offset: 91350},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91122},
+															pos: position{line: 2885, col: 12, offset: 91123},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2885, col: 13, offset: 91123},
+																pos: position{line: 2885, col: 13, offset: 91124},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 13, offset: 91123},
+																		pos:        position{line: 2885, col: 13, offset: 91124},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 20, offset: 91130},
+																		pos:        position{line: 2885, col: 20, offset: 91131},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 29, offset: 91139},
+																		pos:        position{line: 2885, col: 29, offset: 91140},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2895, col: 8, offset: 91299},
+															pos: position{line: 2895, col: 8, offset: 91300},
 															expr: &anyMatcher{
-																line: 2895, col: 9, offset: 91300,
+																line: 2895, col: 9, offset: 91301,
 															},
 														},
 													},
@@ -321,10 +321,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 78, col: 41, offset: 2149},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 90951},
+																							pos: position{line: 2876, col: 10, offset: 90952},
 																							run: (*parser).callonDocumentRawLine66,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 90951},
+																								pos:        position{line: 2876, col: 10, offset: 90952},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -333,9 +333,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91299},
+																						pos: position{line: 2895, col: 8, offset: 91300},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91300,
+																							line: 2895, col: 9, offset: 91301,
 																						},
 																					},
 																				},
@@ -363,10 +363,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 90951},
+														pos: position{line: 2876, col: 10, offset: 90952},
 														run: (*parser).callonDocumentRawLine73,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 90951},
+															pos:        position{line: 2876, col: 10, offset: 90952},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -375,9 +375,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2895, col: 8, offset: 91299},
+													pos: position{line: 2895, col: 8, offset: 91300},
 													expr: &anyMatcher{
-														line: 2895, col: 9, offset: 91300,
+														line: 2895, col: 9, offset: 91301,
 													},
 												},
 											},
@@ -446,10 +446,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 78, col: 41, offset: 2149},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 90951},
+																							pos: position{line: 2876, col: 10, offset: 90952},
 																							run: (*parser).callonDocumentRawLine94,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 90951},
+																								pos:        position{line: 2876, col: 10, offset: 90952},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -458,9 +458,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91299},
+																						pos: position{line: 2895, col: 8, offset: 91300},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91300,
+																							line: 2895, col: 9, offset: 91301,
 																						},
 																					},
 																				},
@@ -488,10 +488,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 90951},
+														pos: position{line: 2876, col: 10, offset: 90952},
 														run: (*parser).callonDocumentRawLine101,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 90951},
+															pos:        position{line: 2876, col: 10, offset: 90952},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -500,9 +500,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2895, col: 8, offset: 91299},
+													pos: position{line: 2895, col: 8, offset: 91300},
 													expr: &anyMatcher{
-														line: 2895, col: 9, offset: 91300,
+														line: 2895, col: 9, offset: 91301,
 													},
 												},
 											},
@@ -547,19 +547,19 @@ var g = &grammar{
 																					pos: position{line: 92, col: 14, offset: 2522},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 645, col: 5, offset: 20387},
+																							pos: position{line: 645, col: 5, offset: 20388},
 																							run: (*parser).callonDocumentRawLine116,
 																							expr: &seqExpr{
-																								pos: position{line: 645, col: 5, offset: 20387},
+																								pos: position{line: 645, col: 5, offset: 20388},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 645, col: 5, offset: 20387},
+																										pos:        position{line: 645, col: 5, offset: 20388},
 																										val:        "\\{",
 																										ignoreCase: false,
 																										want:       "\"\\\\{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 645, col: 13, offset: 20395},
+																										pos:   position{line: 645, col: 13, offset: 20396},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9729},
@@ -579,8 +579,8 @@ var g = &grammar{
 																														pos: position{line: 318, col: 28, offset: 9739},
 																														expr: &charClassMatcher{
 																															pos:        position{line: 318, col: 29, offset: 9740},
-																															val:        "[-\\pL\\pN]",
-																															chars:      []rune{'-'},
+																															val:        "[_-\\pL\\pN]",
+																															chars:      []rune{'_', '-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																															ignoreCase: false,
 																															inverted:   false,
@@ -591,7 +591,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 645, col: 32, offset: 20414},
+																										pos:        position{line: 645, col: 32, offset: 20415},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -600,19 +600,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 652, col: 5, offset: 20655},
+																							pos: position{line: 652, col: 5, offset: 20656},
 																							run: (*parser).callonDocumentRawLine126,
 																							expr: &seqExpr{
-																								pos: position{line: 652, col: 5, offset: 20655},
+																								pos: position{line: 652, col: 5, offset: 20656},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 652, col: 5, offset: 20655},
+																										pos:        position{line: 652, col: 5, offset: 20656},
 																										val:        "{",
 																										ignoreCase: false,
 																										want:       "\"{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 652, col: 9, offset: 20659},
+																										pos:   position{line: 652, col: 9, offset: 20660},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9729},
@@ -632,8 +632,8 @@ var g = &grammar{
 																														pos: position{line: 318, col: 28, offset: 9739},
 																														expr: &charClassMatcher{
 																															pos:        position{line: 318, col: 29, offset: 9740},
-																															val:        "[-\\pL\\pN]",
-																															chars:      []rune{'-'},
+																															val:        "[_-\\pL\\pN]",
+																															chars:      []rune{'_', '-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																															ignoreCase: false,
 																															inverted:   false,
@@ -644,7 +644,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 652, col: 28, offset: 20678},
+																										pos:        position{line: 652, col: 28, offset: 20679},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -710,19 +710,19 @@ var g = &grammar{
 																					pos: position{line: 93, col: 15, offset: 2687},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 645, col: 5, offset: 20387},
+																							pos: position{line: 645, col: 5, offset: 20388},
 																							run: (*parser).callonDocumentRawLine148,
 																							expr: &seqExpr{
-																								pos: position{line: 645, col: 5, offset: 20387},
+																								pos: position{line: 645, col: 5, offset: 20388},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 645, col: 5, offset: 20387},
+																										pos:        position{line: 645, col: 5, offset: 20388},
 																										val:        "\\{",
 																										ignoreCase: false,
 																										want:       "\"\\\\{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 645, col: 13, offset: 20395},
+																										pos:   position{line: 645, col: 13, offset: 20396},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9729},
@@ -742,8 +742,8 @@ var g = &grammar{
 																														pos: position{line: 318, col: 28, offset: 9739},
 																														expr: &charClassMatcher{
 																															pos:        position{line: 318, col: 29, offset: 9740},
-																															val:        "[-\\pL\\pN]",
-																															chars:      []rune{'-'},
+																															val:        "[_-\\pL\\pN]",
+																															chars:      []rune{'_', '-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																															ignoreCase: false,
 																															inverted:   false,
@@ -754,7 +754,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 645, col: 32, offset: 20414},
+																										pos:        position{line: 645, col: 32, offset: 20415},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -763,19 +763,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 652, col: 5, offset: 20655},
+																							pos: position{line: 652, col: 5, offset: 20656},
 																							run: (*parser).callonDocumentRawLine158,
 																							expr: &seqExpr{
-																								pos: position{line: 652, col: 5, offset: 20655},
+																								pos: position{line: 652, col: 5, offset: 20656},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 652, col: 5, offset: 20655},
+																										pos:        position{line: 652, col: 5, offset: 20656},
 																										val:        "{",
 																										ignoreCase: false,
 																										want:       "\"{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 652, col: 9, offset: 20659},
+																										pos:   position{line: 652, col: 9, offset: 20660},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9729},
@@ -795,8 +795,8 @@ var g = &grammar{
 																														pos: position{line: 318, col: 28, offset: 9739},
 																														expr: &charClassMatcher{
 																															pos:        position{line: 318, col: 29, offset: 9740},
-																															val:        "[-\\pL\\pN]",
-																															chars:      []rune{'-'},
+																															val:        "[_-\\pL\\pN]",
+																															chars:      []rune{'_', '-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																															ignoreCase: false,
 																															inverted:   false,
@@ -807,7 +807,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 652, col: 28, offset: 20678},
+																										pos:        position{line: 652, col: 28, offset: 20679},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -859,22 +859,22 @@ var g = &grammar{
 																	pos:   position{line: 94, col: 8, offset: 2844},
 																	label: "s",
 																	expr: &choiceExpr{
-																		pos: position{line: 645, col: 5, offset: 20387},
+																		pos: position{line: 645, col: 5, offset: 20388},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 645, col: 5, offset: 20387},
+																				pos: position{line: 645, col: 5, offset: 20388},
 																				run: (*parser).callonDocumentRawLine177,
 																				expr: &seqExpr{
-																					pos: position{line: 645, col: 5, offset: 20387},
+																					pos: position{line: 645, col: 5, offset: 20388},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 645, col: 5, offset: 20387},
+																							pos:        position{line: 645, col: 5, offset: 20388},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 645, col: 13, offset: 20395},
+																							pos:   position{line: 645, col: 13, offset: 20396},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 318, col: 18, offset: 9729},
@@ -894,8 +894,8 @@ var g = &grammar{
 																											pos: position{line: 318, col: 28, offset: 9739},
 																											expr: &charClassMatcher{
 																												pos:        position{line: 318, col: 29, offset: 9740},
-																												val:        "[-\\pL\\pN]",
-																												chars:      []rune{'-'},
+																												val:        "[_-\\pL\\pN]",
+																												chars:      []rune{'_', '-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																												ignoreCase: false,
 																												inverted:   false,
@@ -906,7 +906,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 645, col: 32, offset: 20414},
+																							pos:        position{line: 645, col: 32, offset: 20415},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -915,19 +915,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 652, col: 5, offset: 20655},
+																				pos: position{line: 652, col: 5, offset: 20656},
 																				run: (*parser).callonDocumentRawLine187,
 																				expr: &seqExpr{
-																					pos: position{line: 652, col: 5, offset: 20655},
+																					pos: position{line: 652, col: 5, offset: 20656},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 652, col: 5, offset: 20655},
+																							pos:        position{line: 652, col: 5, offset: 20656},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 652, col: 9, offset: 20659},
+																							pos:   position{line: 652, col: 9, offset: 20660},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 318, col: 18, offset: 9729},
@@ -947,8 +947,8 @@ var g = &grammar{
 																											pos: position{line: 318, col: 28, offset: 9739},
 																											expr: &charClassMatcher{
 																												pos:        position{line: 318, col: 29, offset: 9740},
-																												val:        "[-\\pL\\pN]",
-																												chars:      []rune{'-'},
+																												val:        "[_-\\pL\\pN]",
+																												chars:      []rune{'_', '-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																												ignoreCase: false,
 																												inverted:   false,
@@ -959,7 +959,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 652, col: 28, offset: 20678},
+																							pos:        position{line: 652, col: 28, offset: 20679},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -972,24 +972,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2872, col: 10, offset: 90854},
+																pos: position{line: 2872, col: 10, offset: 90855},
 																run: (*parser).callonDocumentRawLine197,
 																expr: &seqExpr{
-																	pos: position{line: 2872, col: 11, offset: 90855},
+																	pos: position{line: 2872, col: 11, offset: 90856},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2872, col: 11, offset: 90855},
+																			pos: position{line: 2872, col: 11, offset: 90856},
 																			expr: &litMatcher{
-																				pos:        position{line: 2872, col: 11, offset: 90855},
+																				pos:        position{line: 2872, col: 11, offset: 90856},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2872, col: 16, offset: 90860},
+																			pos: position{line: 2872, col: 16, offset: 90861},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2872, col: 16, offset: 90860},
+																				pos:        position{line: 2872, col: 16, offset: 90861},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -997,15 +997,15 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2872, col: 23, offset: 90867},
+																			pos:        position{line: 2872, col: 23, offset: 90868},
 																			val:        ".",
 																			ignoreCase: false,
 																			want:       "\".\"",
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2872, col: 27, offset: 90871},
+																			pos: position{line: 2872, col: 27, offset: 90872},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2872, col: 27, offset: 90871},
+																				pos:        position{line: 2872, col: 27, offset: 90872},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1016,24 +1016,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2868, col: 12, offset: 90778},
+																pos: position{line: 2868, col: 12, offset: 90779},
 																run: (*parser).callonDocumentRawLine206,
 																expr: &seqExpr{
-																	pos: position{line: 2868, col: 13, offset: 90779},
+																	pos: position{line: 2868, col: 13, offset: 90780},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2868, col: 13, offset: 90779},
+																			pos: position{line: 2868, col: 13, offset: 90780},
 																			expr: &litMatcher{
-																				pos:        position{line: 2868, col: 13, offset: 90779},
+																				pos:        position{line: 2868, col: 13, offset: 90780},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2868, col: 18, offset: 90784},
+																			pos: position{line: 2868, col: 18, offset: 90785},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2868, col: 18, offset: 90784},
+																				pos:        position{line: 2868, col: 18, offset: 90785},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1049,10 +1049,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2280},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 90951},
+														pos: position{line: 2876, col: 10, offset: 90952},
 														run: (*parser).callonDocumentRawLine213,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 90951},
+															pos:        position{line: 2876, col: 10, offset: 90952},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1132,10 +1132,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2326},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 90951},
+														pos: position{line: 2876, col: 10, offset: 90952},
 														run: (*parser).callonDocumentRawLine230,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 90951},
+															pos:        position{line: 2876, col: 10, offset: 90952},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1170,19 +1170,19 @@ var g = &grammar{
 																					pos: position{line: 92, col: 14, offset: 2522},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 645, col: 5, offset: 20387},
+																							pos: position{line: 645, col: 5, offset: 20388},
 																							run: (*parser).callonDocumentRawLine240,
 																							expr: &seqExpr{
-																								pos: position{line: 645, col: 5, offset: 20387},
+																								pos: position{line: 645, col: 5, offset: 20388},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 645, col: 5, offset: 20387},
+																										pos:        position{line: 645, col: 5, offset: 20388},
 																										val:        "\\{",
 																										ignoreCase: false,
 																										want:       "\"\\\\{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 645, col: 13, offset: 20395},
+																										pos:   position{line: 645, col: 13, offset: 20396},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9729},
@@ -1202,8 +1202,8 @@ var g = &grammar{
 																														pos: position{line: 318, col: 28, offset: 9739},
 																														expr: &charClassMatcher{
 																															pos:        position{line: 318, col: 29, offset: 9740},
-																															val:        "[-\\pL\\pN]",
-																															chars:      []rune{'-'},
+																															val:        "[_-\\pL\\pN]",
+																															chars:      []rune{'_', '-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																															ignoreCase: false,
 																															inverted:   false,
@@ -1214,7 +1214,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 645, col: 32, offset: 20414},
+																										pos:        position{line: 645, col: 32, offset: 20415},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -1223,19 +1223,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 652, col: 5, offset: 20655},
+																							pos: position{line: 652, col: 5, offset: 20656},
 																							run: (*parser).callonDocumentRawLine250,
 																							expr: &seqExpr{
-																								pos: position{line: 652, col: 5, offset: 20655},
+																								pos: position{line: 652, col: 5, offset: 20656},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 652, col: 5, offset: 20655},
+																										pos:        position{line: 652, col: 5, offset: 20656},
 																										val:        "{",
 																										ignoreCase: false,
 																										want:       "\"{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 652, col: 9, offset: 20659},
+																										pos:   position{line: 652, col: 9, offset: 20660},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9729},
@@ -1255,8 +1255,8 @@ var g = &grammar{
 																														pos: position{line: 318, col: 28, offset: 9739},
 																														expr: &charClassMatcher{
 																															pos:        position{line: 318, col: 29, offset: 9740},
-																															val:        "[-\\pL\\pN]",
-																															chars:      []rune{'-'},
+																															val:        "[_-\\pL\\pN]",
+																															chars:      []rune{'_', '-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																															ignoreCase: false,
 																															inverted:   false,
@@ -1267,7 +1267,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 652, col: 28, offset: 20678},
+																										pos:        position{line: 652, col: 28, offset: 20679},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -1333,19 +1333,19 @@ var g = &grammar{
 																					pos: position{line: 93, col: 15, offset: 2687},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 645, col: 5, offset: 20387},
+																							pos: position{line: 645, col: 5, offset: 20388},
 																							run: (*parser).callonDocumentRawLine272,
 																							expr: &seqExpr{
-																								pos: position{line: 645, col: 5, offset: 20387},
+																								pos: position{line: 645, col: 5, offset: 20388},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 645, col: 5, offset: 20387},
+																										pos:        position{line: 645, col: 5, offset: 20388},
 																										val:        "\\{",
 																										ignoreCase: false,
 																										want:       "\"\\\\{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 645, col: 13, offset: 20395},
+																										pos:   position{line: 645, col: 13, offset: 20396},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9729},
@@ -1365,8 +1365,8 @@ var g = &grammar{
 																														pos: position{line: 318, col: 28, offset: 9739},
 																														expr: &charClassMatcher{
 																															pos:        position{line: 318, col: 29, offset: 9740},
-																															val:        "[-\\pL\\pN]",
-																															chars:      []rune{'-'},
+																															val:        "[_-\\pL\\pN]",
+																															chars:      []rune{'_', '-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																															ignoreCase: false,
 																															inverted:   false,
@@ -1377,7 +1377,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 645, col: 32, offset: 20414},
+																										pos:        position{line: 645, col: 32, offset: 20415},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -1386,19 +1386,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 652, col: 5, offset: 20655},
+																							pos: position{line: 652, col: 5, offset: 20656},
 																							run: (*parser).callonDocumentRawLine282,
 																							expr: &seqExpr{
-																								pos: position{line: 652, col: 5, offset: 20655},
+																								pos: position{line: 652, col: 5, offset: 20656},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 652, col: 5, offset: 20655},
+																										pos:        position{line: 652, col: 5, offset: 20656},
 																										val:        "{",
 																										ignoreCase: false,
 																										want:       "\"{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 652, col: 9, offset: 20659},
+																										pos:   position{line: 652, col: 9, offset: 20660},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9729},
@@ -1418,8 +1418,8 @@ var g = &grammar{
 																														pos: position{line: 318, col: 28, offset: 9739},
 																														expr: &charClassMatcher{
 																															pos:        position{line: 318, col: 29, offset: 9740},
-																															val:        "[-\\pL\\pN]",
-																															chars:      []rune{'-'},
+																															val:        "[_-\\pL\\pN]",
+																															chars:      []rune{'_', '-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																															ignoreCase: false,
 																															inverted:   false,
@@ -1430,7 +1430,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 652, col: 28, offset: 20678},
+																										pos:        position{line: 652, col: 28, offset: 20679},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -1482,22 +1482,22 @@ var g = &grammar{
 																	pos:   position{line: 94, col: 8, offset: 2844},
 																	label: "s",
 																	expr: &choiceExpr{
-																		pos: position{line: 645, col: 5, offset: 20387},
+																		pos: position{line: 645, col: 5, offset: 20388},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 645, col: 5, offset: 20387},
+																				pos: position{line: 645, col: 5, offset: 20388},
 																				run: (*parser).callonDocumentRawLine301,
 																				expr: &seqExpr{
-																					pos: position{line: 645, col: 5, offset: 20387},
+																					pos: position{line: 645, col: 5, offset: 20388},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 645, col: 5, offset: 20387},
+																							pos:        position{line: 645, col: 5, offset: 20388},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 645, col: 13, offset: 20395},
+																							pos:   position{line: 645, col: 13, offset: 20396},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 318, col: 18, offset: 9729},
@@ -1517,8 +1517,8 @@ var g = &grammar{
 																											pos: position{line: 318, col: 28, offset: 9739},
 																											expr: &charClassMatcher{
 																												pos:        position{line: 318, col: 29, offset: 9740},
-																												val:        "[-\\pL\\pN]",
-																												chars:      []rune{'-'},
+																												val:        "[_-\\pL\\pN]",
+																												chars:      []rune{'_', '-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																												ignoreCase: false,
 																												inverted:   false,
@@ -1529,7 +1529,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 645, col: 32, offset: 20414},
+																							pos:        position{line: 645, col: 32, offset: 20415},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -1538,19 +1538,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 652, col: 5, offset: 20655},
+																				pos: position{line: 652, col: 5, offset: 20656},
 																				run: (*parser).callonDocumentRawLine311,
 																				expr: &seqExpr{
-																					pos: position{line: 652, col: 5, offset: 20655},
+																					pos: position{line: 652, col: 5, offset: 20656},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 652, col: 5, offset: 20655},
+																							pos:        position{line: 652, col: 5, offset: 20656},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 652, col: 9, offset: 20659},
+																							pos:   position{line: 652, col: 9, offset: 20660},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 318, col: 18, offset: 9729},
@@ -1570,8 +1570,8 @@ var g = &grammar{
 																											pos: position{line: 318, col: 28, offset: 9739},
 																											expr: &charClassMatcher{
 																												pos:        position{line: 318, col: 29, offset: 9740},
-																												val:        "[-\\pL\\pN]",
-																												chars:      []rune{'-'},
+																												val:        "[_-\\pL\\pN]",
+																												chars:      []rune{'_', '-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																												ignoreCase: false,
 																												inverted:   false,
@@ -1582,7 +1582,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 652, col: 28, offset: 20678},
+																							pos:        position{line: 652, col: 28, offset: 20679},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -1595,24 +1595,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2872, col: 10, offset: 90854},
+																pos: position{line: 2872, col: 10, offset: 90855},
 																run: (*parser).callonDocumentRawLine321,
 																expr: &seqExpr{
-																	pos: position{line: 2872, col: 11, offset: 90855},
+																	pos: position{line: 2872, col: 11, offset: 90856},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2872, col: 11, offset: 90855},
+																			pos: position{line: 2872, col: 11, offset: 90856},
 																			expr: &litMatcher{
-																				pos:        position{line: 2872, col: 11, offset: 90855},
+																				pos:        position{line: 2872, col: 11, offset: 90856},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2872, col: 16, offset: 90860},
+																			pos: position{line: 2872, col: 16, offset: 90861},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2872, col: 16, offset: 90860},
+																				pos:        position{line: 2872, col: 16, offset: 90861},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1620,15 +1620,15 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2872, col: 23, offset: 90867},
+																			pos:        position{line: 2872, col: 23, offset: 90868},
 																			val:        ".",
 																			ignoreCase: false,
 																			want:       "\".\"",
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2872, col: 27, offset: 90871},
+																			pos: position{line: 2872, col: 27, offset: 90872},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2872, col: 27, offset: 90871},
+																				pos:        position{line: 2872, col: 27, offset: 90872},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1639,24 +1639,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2868, col: 12, offset: 90778},
+																pos: position{line: 2868, col: 12, offset: 90779},
 																run: (*parser).callonDocumentRawLine330,
 																expr: &seqExpr{
-																	pos: position{line: 2868, col: 13, offset: 90779},
+																	pos: position{line: 2868, col: 13, offset: 90780},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2868, col: 13, offset: 90779},
+																			pos: position{line: 2868, col: 13, offset: 90780},
 																			expr: &litMatcher{
-																				pos:        position{line: 2868, col: 13, offset: 90779},
+																				pos:        position{line: 2868, col: 13, offset: 90780},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2868, col: 18, offset: 90784},
+																			pos: position{line: 2868, col: 18, offset: 90785},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2868, col: 18, offset: 90784},
+																				pos:        position{line: 2868, col: 18, offset: 90785},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1678,10 +1678,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2378},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 90951},
+														pos: position{line: 2876, col: 10, offset: 90952},
 														run: (*parser).callonDocumentRawLine338,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 90951},
+															pos:        position{line: 2876, col: 10, offset: 90952},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1690,9 +1690,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2895, col: 8, offset: 91299},
+													pos: position{line: 2895, col: 8, offset: 91300},
 													expr: &anyMatcher{
-														line: 2895, col: 9, offset: 91300,
+														line: 2895, col: 9, offset: 91301,
 													},
 												},
 											},
@@ -1764,10 +1764,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 78, col: 41, offset: 2149},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 90951},
+																							pos: position{line: 2876, col: 10, offset: 90952},
 																							run: (*parser).callonDocumentRawLine360,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 90951},
+																								pos:        position{line: 2876, col: 10, offset: 90952},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -1776,9 +1776,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91299},
+																						pos: position{line: 2895, col: 8, offset: 91300},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91300,
+																							line: 2895, col: 9, offset: 91301,
 																						},
 																					},
 																				},
@@ -1806,10 +1806,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3474},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 90951},
+														pos: position{line: 2876, col: 10, offset: 90952},
 														run: (*parser).callonDocumentRawLine367,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 90951},
+															pos:        position{line: 2876, col: 10, offset: 90952},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1818,24 +1818,24 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2895, col: 8, offset: 91299},
+													pos: position{line: 2895, col: 8, offset: 91300},
 													expr: &anyMatcher{
-														line: 2895, col: 9, offset: 91300,
+														line: 2895, col: 9, offset: 91301,
 													},
 												},
 											},
 										},
 									},
 									&actionExpr{
-										pos: position{line: 724, col: 5, offset: 23110},
+										pos: position{line: 724, col: 5, offset: 23111},
 										run: (*parser).callonDocumentRawLine371,
 										expr: &seqExpr{
-											pos: position{line: 724, col: 5, offset: 23110},
+											pos: position{line: 724, col: 5, offset: 23111},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 724, col: 5, offset: 23110},
+													pos: position{line: 724, col: 5, offset: 23111},
 													expr: &charClassMatcher{
-														pos:        position{line: 2766, col: 13, offset: 88046},
+														pos:        position{line: 2766, col: 13, offset: 88047},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1843,36 +1843,36 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 725, col: 5, offset: 23140},
+													pos:   position{line: 725, col: 5, offset: 23141},
 													label: "delimiter",
 													expr: &choiceExpr{
-														pos: position{line: 726, col: 9, offset: 23160},
+														pos: position{line: 726, col: 9, offset: 23161},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 740, col: 5, offset: 23652},
+																pos: position{line: 740, col: 5, offset: 23653},
 																run: (*parser).callonDocumentRawLine377,
 																expr: &seqExpr{
-																	pos: position{line: 740, col: 5, offset: 23652},
+																	pos: position{line: 740, col: 5, offset: 23653},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 740, col: 5, offset: 23652},
+																			pos:   position{line: 740, col: 5, offset: 23653},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 740, col: 16, offset: 23663},
+																				pos: position{line: 740, col: 16, offset: 23664},
 																				run: (*parser).callonDocumentRawLine380,
 																				expr: &seqExpr{
-																					pos: position{line: 740, col: 16, offset: 23663},
+																					pos: position{line: 740, col: 16, offset: 23664},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 740, col: 16, offset: 23663},
+																							pos:        position{line: 740, col: 16, offset: 23664},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 740, col: 23, offset: 23670},
+																							pos: position{line: 740, col: 23, offset: 23671},
 																							expr: &litMatcher{
-																								pos:        position{line: 740, col: 23, offset: 23670},
+																								pos:        position{line: 740, col: 23, offset: 23671},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -1883,12 +1883,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 742, col: 8, offset: 23754},
+																			pos: position{line: 742, col: 8, offset: 23755},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 90951},
+																				pos: position{line: 2876, col: 10, offset: 90952},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 90951},
+																					pos:        position{line: 2876, col: 10, offset: 90952},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1897,28 +1897,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91349},
+																			pos: position{line: 2898, col: 8, offset: 91350},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91122},
+																					pos: position{line: 2885, col: 12, offset: 91123},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91123},
+																						pos: position{line: 2885, col: 13, offset: 91124},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91123},
+																								pos:        position{line: 2885, col: 13, offset: 91124},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91130},
+																								pos:        position{line: 2885, col: 20, offset: 91131},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91139},
+																								pos:        position{line: 2885, col: 29, offset: 91140},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1927,9 +1927,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91299},
+																					pos: position{line: 2895, col: 8, offset: 91300},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91300,
+																						line: 2895, col: 9, offset: 91301,
 																					},
 																				},
 																			},
@@ -1938,30 +1938,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 747, col: 5, offset: 23900},
+																pos: position{line: 747, col: 5, offset: 23901},
 																run: (*parser).callonDocumentRawLine396,
 																expr: &seqExpr{
-																	pos: position{line: 747, col: 5, offset: 23900},
+																	pos: position{line: 747, col: 5, offset: 23901},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 747, col: 5, offset: 23900},
+																			pos:   position{line: 747, col: 5, offset: 23901},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 747, col: 16, offset: 23911},
+																				pos: position{line: 747, col: 16, offset: 23912},
 																				run: (*parser).callonDocumentRawLine399,
 																				expr: &seqExpr{
-																					pos: position{line: 747, col: 16, offset: 23911},
+																					pos: position{line: 747, col: 16, offset: 23912},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 747, col: 16, offset: 23911},
+																							pos:        position{line: 747, col: 16, offset: 23912},
 																							val:        "====",
 																							ignoreCase: false,
 																							want:       "\"====\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 747, col: 23, offset: 23918},
+																							pos: position{line: 747, col: 23, offset: 23919},
 																							expr: &litMatcher{
-																								pos:        position{line: 747, col: 23, offset: 23918},
+																								pos:        position{line: 747, col: 23, offset: 23919},
 																								val:        "=",
 																								ignoreCase: false,
 																								want:       "\"=\"",
@@ -1972,12 +1972,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 749, col: 8, offset: 24002},
+																			pos: position{line: 749, col: 8, offset: 24003},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 90951},
+																				pos: position{line: 2876, col: 10, offset: 90952},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 90951},
+																					pos:        position{line: 2876, col: 10, offset: 90952},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1986,28 +1986,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91349},
+																			pos: position{line: 2898, col: 8, offset: 91350},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91122},
+																					pos: position{line: 2885, col: 12, offset: 91123},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91123},
+																						pos: position{line: 2885, col: 13, offset: 91124},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91123},
+																								pos:        position{line: 2885, col: 13, offset: 91124},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91130},
+																								pos:        position{line: 2885, col: 20, offset: 91131},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91139},
+																								pos:        position{line: 2885, col: 29, offset: 91140},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2016,9 +2016,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91299},
+																					pos: position{line: 2895, col: 8, offset: 91300},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91300,
+																						line: 2895, col: 9, offset: 91301,
 																					},
 																				},
 																			},
@@ -2027,27 +2027,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 760, col: 26, offset: 24388},
+																pos: position{line: 760, col: 26, offset: 24389},
 																run: (*parser).callonDocumentRawLine415,
 																expr: &seqExpr{
-																	pos: position{line: 760, col: 26, offset: 24388},
+																	pos: position{line: 760, col: 26, offset: 24389},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 760, col: 26, offset: 24388},
+																			pos:        position{line: 760, col: 26, offset: 24389},
 																			val:        "```",
 																			ignoreCase: false,
 																			want:       "\"```\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 760, col: 32, offset: 24394},
+																			pos:   position{line: 760, col: 32, offset: 24395},
 																			label: "language",
 																			expr: &actionExpr{
-																				pos: position{line: 764, col: 13, offset: 24524},
+																				pos: position{line: 764, col: 13, offset: 24525},
 																				run: (*parser).callonDocumentRawLine419,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 764, col: 14, offset: 24525},
+																					pos: position{line: 764, col: 14, offset: 24526},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 764, col: 14, offset: 24525},
+																						pos:        position{line: 764, col: 14, offset: 24526},
 																						val:        "[^\\r\\n`\\t ]",
 																						chars:      []rune{'\r', '\n', '`', '\t', ' '},
 																						ignoreCase: false,
@@ -2057,12 +2057,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 760, col: 52, offset: 24414},
+																			pos: position{line: 760, col: 52, offset: 24415},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 90951},
+																				pos: position{line: 2876, col: 10, offset: 90952},
 																				run: (*parser).callonDocumentRawLine423,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 90951},
+																					pos:        position{line: 2876, col: 10, offset: 90952},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2071,28 +2071,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91349},
+																			pos: position{line: 2898, col: 8, offset: 91350},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91122},
+																					pos: position{line: 2885, col: 12, offset: 91123},
 																					run: (*parser).callonDocumentRawLine426,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91123},
+																						pos: position{line: 2885, col: 13, offset: 91124},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91123},
+																								pos:        position{line: 2885, col: 13, offset: 91124},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91130},
+																								pos:        position{line: 2885, col: 20, offset: 91131},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91139},
+																								pos:        position{line: 2885, col: 29, offset: 91140},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2101,9 +2101,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91299},
+																					pos: position{line: 2895, col: 8, offset: 91300},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91300,
+																						line: 2895, col: 9, offset: 91301,
 																					},
 																				},
 																			},
@@ -2112,30 +2112,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 754, col: 5, offset: 24147},
+																pos: position{line: 754, col: 5, offset: 24148},
 																run: (*parser).callonDocumentRawLine433,
 																expr: &seqExpr{
-																	pos: position{line: 754, col: 5, offset: 24147},
+																	pos: position{line: 754, col: 5, offset: 24148},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 754, col: 5, offset: 24147},
+																			pos:   position{line: 754, col: 5, offset: 24148},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 754, col: 16, offset: 24158},
+																				pos: position{line: 754, col: 16, offset: 24159},
 																				run: (*parser).callonDocumentRawLine436,
 																				expr: &seqExpr{
-																					pos: position{line: 754, col: 16, offset: 24158},
+																					pos: position{line: 754, col: 16, offset: 24159},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 754, col: 16, offset: 24158},
+																							pos:        position{line: 754, col: 16, offset: 24159},
 																							val:        "```",
 																							ignoreCase: false,
 																							want:       "\"```\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 754, col: 22, offset: 24164},
+																							pos: position{line: 754, col: 22, offset: 24165},
 																							expr: &litMatcher{
-																								pos:        position{line: 754, col: 22, offset: 24164},
+																								pos:        position{line: 754, col: 22, offset: 24165},
 																								val:        "`",
 																								ignoreCase: false,
 																								want:       "\"`\"",
@@ -2146,12 +2146,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 756, col: 8, offset: 24248},
+																			pos: position{line: 756, col: 8, offset: 24249},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 90951},
+																				pos: position{line: 2876, col: 10, offset: 90952},
 																				run: (*parser).callonDocumentRawLine442,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 90951},
+																					pos:        position{line: 2876, col: 10, offset: 90952},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2160,28 +2160,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91349},
+																			pos: position{line: 2898, col: 8, offset: 91350},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91122},
+																					pos: position{line: 2885, col: 12, offset: 91123},
 																					run: (*parser).callonDocumentRawLine445,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91123},
+																						pos: position{line: 2885, col: 13, offset: 91124},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91123},
+																								pos:        position{line: 2885, col: 13, offset: 91124},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91130},
+																								pos:        position{line: 2885, col: 20, offset: 91131},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91139},
+																								pos:        position{line: 2885, col: 29, offset: 91140},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2190,9 +2190,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91299},
+																					pos: position{line: 2895, col: 8, offset: 91300},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91300,
+																						line: 2895, col: 9, offset: 91301,
 																					},
 																				},
 																			},
@@ -2201,30 +2201,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 769, col: 5, offset: 24689},
+																pos: position{line: 769, col: 5, offset: 24690},
 																run: (*parser).callonDocumentRawLine452,
 																expr: &seqExpr{
-																	pos: position{line: 769, col: 5, offset: 24689},
+																	pos: position{line: 769, col: 5, offset: 24690},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 769, col: 5, offset: 24689},
+																			pos:   position{line: 769, col: 5, offset: 24690},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 769, col: 16, offset: 24700},
+																				pos: position{line: 769, col: 16, offset: 24701},
 																				run: (*parser).callonDocumentRawLine455,
 																				expr: &seqExpr{
-																					pos: position{line: 769, col: 16, offset: 24700},
+																					pos: position{line: 769, col: 16, offset: 24701},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 769, col: 16, offset: 24700},
+																							pos:        position{line: 769, col: 16, offset: 24701},
 																							val:        "----",
 																							ignoreCase: false,
 																							want:       "\"----\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 769, col: 23, offset: 24707},
+																							pos: position{line: 769, col: 23, offset: 24708},
 																							expr: &litMatcher{
-																								pos:        position{line: 769, col: 23, offset: 24707},
+																								pos:        position{line: 769, col: 23, offset: 24708},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
@@ -2235,12 +2235,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 771, col: 8, offset: 24791},
+																			pos: position{line: 771, col: 8, offset: 24792},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 90951},
+																				pos: position{line: 2876, col: 10, offset: 90952},
 																				run: (*parser).callonDocumentRawLine461,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 90951},
+																					pos:        position{line: 2876, col: 10, offset: 90952},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2249,28 +2249,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91349},
+																			pos: position{line: 2898, col: 8, offset: 91350},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91122},
+																					pos: position{line: 2885, col: 12, offset: 91123},
 																					run: (*parser).callonDocumentRawLine464,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91123},
+																						pos: position{line: 2885, col: 13, offset: 91124},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91123},
+																								pos:        position{line: 2885, col: 13, offset: 91124},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91130},
+																								pos:        position{line: 2885, col: 20, offset: 91131},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91139},
+																								pos:        position{line: 2885, col: 29, offset: 91140},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2279,9 +2279,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91299},
+																					pos: position{line: 2895, col: 8, offset: 91300},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91300,
+																						line: 2895, col: 9, offset: 91301,
 																					},
 																				},
 																			},
@@ -2290,30 +2290,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 783, col: 5, offset: 25165},
+																pos: position{line: 783, col: 5, offset: 25166},
 																run: (*parser).callonDocumentRawLine471,
 																expr: &seqExpr{
-																	pos: position{line: 783, col: 5, offset: 25165},
+																	pos: position{line: 783, col: 5, offset: 25166},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 783, col: 5, offset: 25165},
+																			pos:   position{line: 783, col: 5, offset: 25166},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 783, col: 16, offset: 25176},
+																				pos: position{line: 783, col: 16, offset: 25177},
 																				run: (*parser).callonDocumentRawLine474,
 																				expr: &seqExpr{
-																					pos: position{line: 783, col: 16, offset: 25176},
+																					pos: position{line: 783, col: 16, offset: 25177},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 783, col: 16, offset: 25176},
+																							pos:        position{line: 783, col: 16, offset: 25177},
 																							val:        "....",
 																							ignoreCase: false,
 																							want:       "\"....\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 783, col: 23, offset: 25183},
+																							pos: position{line: 783, col: 23, offset: 25184},
 																							expr: &litMatcher{
-																								pos:        position{line: 783, col: 23, offset: 25183},
+																								pos:        position{line: 783, col: 23, offset: 25184},
 																								val:        ".",
 																								ignoreCase: false,
 																								want:       "\".\"",
@@ -2324,12 +2324,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 785, col: 8, offset: 25267},
+																			pos: position{line: 785, col: 8, offset: 25268},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 90951},
+																				pos: position{line: 2876, col: 10, offset: 90952},
 																				run: (*parser).callonDocumentRawLine480,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 90951},
+																					pos:        position{line: 2876, col: 10, offset: 90952},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2338,28 +2338,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91349},
+																			pos: position{line: 2898, col: 8, offset: 91350},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91122},
+																					pos: position{line: 2885, col: 12, offset: 91123},
 																					run: (*parser).callonDocumentRawLine483,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91123},
+																						pos: position{line: 2885, col: 13, offset: 91124},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91123},
+																								pos:        position{line: 2885, col: 13, offset: 91124},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91130},
+																								pos:        position{line: 2885, col: 20, offset: 91131},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91139},
+																								pos:        position{line: 2885, col: 29, offset: 91140},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2368,9 +2368,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91299},
+																					pos: position{line: 2895, col: 8, offset: 91300},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91300,
+																						line: 2895, col: 9, offset: 91301,
 																					},
 																				},
 																			},
@@ -2379,30 +2379,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 790, col: 5, offset: 25417},
+																pos: position{line: 790, col: 5, offset: 25418},
 																run: (*parser).callonDocumentRawLine490,
 																expr: &seqExpr{
-																	pos: position{line: 790, col: 5, offset: 25417},
+																	pos: position{line: 790, col: 5, offset: 25418},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 790, col: 5, offset: 25417},
+																			pos:   position{line: 790, col: 5, offset: 25418},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 790, col: 16, offset: 25428},
+																				pos: position{line: 790, col: 16, offset: 25429},
 																				run: (*parser).callonDocumentRawLine493,
 																				expr: &seqExpr{
-																					pos: position{line: 790, col: 16, offset: 25428},
+																					pos: position{line: 790, col: 16, offset: 25429},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 790, col: 16, offset: 25428},
+																							pos:        position{line: 790, col: 16, offset: 25429},
 																							val:        "++++",
 																							ignoreCase: false,
 																							want:       "\"++++\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 790, col: 23, offset: 25435},
+																							pos: position{line: 790, col: 23, offset: 25436},
 																							expr: &litMatcher{
-																								pos:        position{line: 790, col: 23, offset: 25435},
+																								pos:        position{line: 790, col: 23, offset: 25436},
 																								val:        "+",
 																								ignoreCase: false,
 																								want:       "\"+\"",
@@ -2413,12 +2413,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 792, col: 8, offset: 25519},
+																			pos: position{line: 792, col: 8, offset: 25520},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 90951},
+																				pos: position{line: 2876, col: 10, offset: 90952},
 																				run: (*parser).callonDocumentRawLine499,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 90951},
+																					pos:        position{line: 2876, col: 10, offset: 90952},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2427,28 +2427,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91349},
+																			pos: position{line: 2898, col: 8, offset: 91350},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91122},
+																					pos: position{line: 2885, col: 12, offset: 91123},
 																					run: (*parser).callonDocumentRawLine502,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91123},
+																						pos: position{line: 2885, col: 13, offset: 91124},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91123},
+																								pos:        position{line: 2885, col: 13, offset: 91124},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91130},
+																								pos:        position{line: 2885, col: 20, offset: 91131},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91139},
+																								pos:        position{line: 2885, col: 29, offset: 91140},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2457,9 +2457,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91299},
+																					pos: position{line: 2895, col: 8, offset: 91300},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91300,
+																						line: 2895, col: 9, offset: 91301,
 																					},
 																				},
 																			},
@@ -2468,30 +2468,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 797, col: 5, offset: 25667},
+																pos: position{line: 797, col: 5, offset: 25668},
 																run: (*parser).callonDocumentRawLine509,
 																expr: &seqExpr{
-																	pos: position{line: 797, col: 5, offset: 25667},
+																	pos: position{line: 797, col: 5, offset: 25668},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 797, col: 5, offset: 25667},
+																			pos:   position{line: 797, col: 5, offset: 25668},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 797, col: 16, offset: 25678},
+																				pos: position{line: 797, col: 16, offset: 25679},
 																				run: (*parser).callonDocumentRawLine512,
 																				expr: &seqExpr{
-																					pos: position{line: 797, col: 16, offset: 25678},
+																					pos: position{line: 797, col: 16, offset: 25679},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 797, col: 16, offset: 25678},
+																							pos:        position{line: 797, col: 16, offset: 25679},
 																							val:        "____",
 																							ignoreCase: false,
 																							want:       "\"____\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 797, col: 23, offset: 25685},
+																							pos: position{line: 797, col: 23, offset: 25686},
 																							expr: &litMatcher{
-																								pos:        position{line: 797, col: 23, offset: 25685},
+																								pos:        position{line: 797, col: 23, offset: 25686},
 																								val:        "_",
 																								ignoreCase: false,
 																								want:       "\"_\"",
@@ -2502,12 +2502,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 799, col: 8, offset: 25769},
+																			pos: position{line: 799, col: 8, offset: 25770},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 90951},
+																				pos: position{line: 2876, col: 10, offset: 90952},
 																				run: (*parser).callonDocumentRawLine518,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 90951},
+																					pos:        position{line: 2876, col: 10, offset: 90952},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2516,28 +2516,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91349},
+																			pos: position{line: 2898, col: 8, offset: 91350},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91122},
+																					pos: position{line: 2885, col: 12, offset: 91123},
 																					run: (*parser).callonDocumentRawLine521,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91123},
+																						pos: position{line: 2885, col: 13, offset: 91124},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91123},
+																								pos:        position{line: 2885, col: 13, offset: 91124},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91130},
+																								pos:        position{line: 2885, col: 20, offset: 91131},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91139},
+																								pos:        position{line: 2885, col: 29, offset: 91140},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2546,9 +2546,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91299},
+																					pos: position{line: 2895, col: 8, offset: 91300},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91300,
+																						line: 2895, col: 9, offset: 91301,
 																					},
 																				},
 																			},
@@ -2557,30 +2557,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 804, col: 5, offset: 25913},
+																pos: position{line: 804, col: 5, offset: 25914},
 																run: (*parser).callonDocumentRawLine528,
 																expr: &seqExpr{
-																	pos: position{line: 804, col: 5, offset: 25913},
+																	pos: position{line: 804, col: 5, offset: 25914},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 804, col: 5, offset: 25913},
+																			pos:   position{line: 804, col: 5, offset: 25914},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 804, col: 16, offset: 25924},
+																				pos: position{line: 804, col: 16, offset: 25925},
 																				run: (*parser).callonDocumentRawLine531,
 																				expr: &seqExpr{
-																					pos: position{line: 804, col: 16, offset: 25924},
+																					pos: position{line: 804, col: 16, offset: 25925},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 804, col: 16, offset: 25924},
+																							pos:        position{line: 804, col: 16, offset: 25925},
 																							val:        "****",
 																							ignoreCase: false,
 																							want:       "\"****\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 804, col: 23, offset: 25931},
+																							pos: position{line: 804, col: 23, offset: 25932},
 																							expr: &litMatcher{
-																								pos:        position{line: 804, col: 23, offset: 25931},
+																								pos:        position{line: 804, col: 23, offset: 25932},
 																								val:        "*",
 																								ignoreCase: false,
 																								want:       "\"*\"",
@@ -2591,12 +2591,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 806, col: 8, offset: 26015},
+																			pos: position{line: 806, col: 8, offset: 26016},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 90951},
+																				pos: position{line: 2876, col: 10, offset: 90952},
 																				run: (*parser).callonDocumentRawLine537,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 90951},
+																					pos:        position{line: 2876, col: 10, offset: 90952},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2605,28 +2605,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91349},
+																			pos: position{line: 2898, col: 8, offset: 91350},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91122},
+																					pos: position{line: 2885, col: 12, offset: 91123},
 																					run: (*parser).callonDocumentRawLine540,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91123},
+																						pos: position{line: 2885, col: 13, offset: 91124},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91123},
+																								pos:        position{line: 2885, col: 13, offset: 91124},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91130},
+																								pos:        position{line: 2885, col: 20, offset: 91131},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91139},
+																								pos:        position{line: 2885, col: 29, offset: 91140},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2635,9 +2635,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91299},
+																					pos: position{line: 2895, col: 8, offset: 91300},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91300,
+																						line: 2895, col: 9, offset: 91301,
 																					},
 																				},
 																			},
@@ -2687,12 +2687,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine555,
 												},
 												&actionExpr{
-													pos: position{line: 2880, col: 11, offset: 91012},
+													pos: position{line: 2880, col: 11, offset: 91013},
 													run: (*parser).callonDocumentRawLine556,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2880, col: 11, offset: 91012},
+														pos: position{line: 2880, col: 11, offset: 91013},
 														expr: &charClassMatcher{
-															pos:        position{line: 2880, col: 11, offset: 91012},
+															pos:        position{line: 2880, col: 11, offset: 91013},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2701,12 +2701,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2826, col: 14, offset: 89544},
+													pos: position{line: 2826, col: 14, offset: 89545},
 													run: (*parser).callonDocumentRawLine559,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2826, col: 14, offset: 89544},
+														pos: position{line: 2826, col: 14, offset: 89545},
 														expr: &charClassMatcher{
-															pos:        position{line: 2826, col: 14, offset: 89544},
+															pos:        position{line: 2826, col: 14, offset: 89545},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2715,9 +2715,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2895, col: 8, offset: 91299},
+													pos: position{line: 2895, col: 8, offset: 91300},
 													expr: &anyMatcher{
-														line: 2895, col: 9, offset: 91300,
+														line: 2895, col: 9, offset: 91301,
 													},
 												},
 											},
@@ -2727,9 +2727,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2895, col: 8, offset: 91299},
+							pos: position{line: 2895, col: 8, offset: 91300},
 							expr: &anyMatcher{
-								line: 2895, col: 9, offset: 91300,
+								line: 2895, col: 9, offset: 91301,
 							},
 						},
 					},
@@ -2764,41 +2764,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2830, col: 17, offset: 89614},
+												pos: position{line: 2830, col: 17, offset: 89615},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2830, col: 17, offset: 89614},
+													pos:   position{line: 2830, col: 17, offset: 89615},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2847, col: 5, offset: 90068},
+														pos: position{line: 2847, col: 5, offset: 90069},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2847, col: 5, offset: 90068},
+															pos:   position{line: 2847, col: 5, offset: 90069},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2847, col: 14, offset: 90077},
+																pos: position{line: 2847, col: 14, offset: 90078},
 																expr: &choiceExpr{
-																	pos: position{line: 2848, col: 9, offset: 90087},
+																	pos: position{line: 2848, col: 9, offset: 90088},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2848, col: 9, offset: 90087},
+																			pos: position{line: 2848, col: 9, offset: 90088},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2848, col: 9, offset: 90087},
+																				pos: position{line: 2848, col: 9, offset: 90088},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2848, col: 9, offset: 90087},
+																						pos: position{line: 2848, col: 9, offset: 90088},
 																						expr: &litMatcher{
-																							pos:        position{line: 2848, col: 10, offset: 90088},
+																							pos:        position{line: 2848, col: 10, offset: 90089},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2849, col: 9, offset: 90116},
+																						pos: position{line: 2849, col: 9, offset: 90117},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2849, col: 10, offset: 90117},
+																							pos:        position{line: 2849, col: 10, offset: 90118},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2809,27 +2809,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2852, col: 11, offset: 90329},
+																			pos: position{line: 2852, col: 11, offset: 90330},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2852, col: 11, offset: 90329},
+																					pos:        position{line: 2852, col: 11, offset: 90330},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2852, col: 19, offset: 90337},
+																					pos: position{line: 2852, col: 19, offset: 90338},
 																					expr: &seqExpr{
-																						pos: position{line: 2852, col: 21, offset: 90339},
+																						pos: position{line: 2852, col: 21, offset: 90340},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2852, col: 21, offset: 90339},
+																								pos: position{line: 2852, col: 21, offset: 90340},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 90951},
+																									pos: position{line: 2876, col: 10, offset: 90952},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 90951},
+																										pos:        position{line: 2876, col: 10, offset: 90952},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2838,11 +2838,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2852, col: 28, offset: 90346},
+																								pos: position{line: 2852, col: 28, offset: 90347},
 																								expr: &notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91299},
+																									pos: position{line: 2895, col: 8, offset: 91300},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91300,
+																										line: 2895, col: 9, offset: 91301,
 																									},
 																								},
 																							},
@@ -2852,35 +2852,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 636, col: 5, offset: 20177},
+																			pos: position{line: 636, col: 5, offset: 20178},
 																			run: (*parser).callonFileInclusion30,
 																			expr: &seqExpr{
-																				pos: position{line: 636, col: 5, offset: 20177},
+																				pos: position{line: 636, col: 5, offset: 20178},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 636, col: 5, offset: 20177},
+																						pos: position{line: 636, col: 5, offset: 20178},
 																						run: (*parser).callonFileInclusion32,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 639, col: 5, offset: 20249},
+																						pos:   position{line: 639, col: 5, offset: 20250},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 639, col: 14, offset: 20258},
+																							pos: position{line: 639, col: 14, offset: 20259},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 645, col: 5, offset: 20387},
+																									pos: position{line: 645, col: 5, offset: 20388},
 																									run: (*parser).callonFileInclusion35,
 																									expr: &seqExpr{
-																										pos: position{line: 645, col: 5, offset: 20387},
+																										pos: position{line: 645, col: 5, offset: 20388},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 645, col: 5, offset: 20387},
+																												pos:        position{line: 645, col: 5, offset: 20388},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 645, col: 13, offset: 20395},
+																												pos:   position{line: 645, col: 13, offset: 20396},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9729},
@@ -2900,8 +2900,8 @@ var g = &grammar{
 																																pos: position{line: 318, col: 28, offset: 9739},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 318, col: 29, offset: 9740},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -2912,7 +2912,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 645, col: 32, offset: 20414},
+																												pos:        position{line: 645, col: 32, offset: 20415},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -2921,19 +2921,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 652, col: 5, offset: 20655},
+																									pos: position{line: 652, col: 5, offset: 20656},
 																									run: (*parser).callonFileInclusion45,
 																									expr: &seqExpr{
-																										pos: position{line: 652, col: 5, offset: 20655},
+																										pos: position{line: 652, col: 5, offset: 20656},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 652, col: 5, offset: 20655},
+																												pos:        position{line: 652, col: 5, offset: 20656},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 652, col: 9, offset: 20659},
+																												pos:   position{line: 652, col: 9, offset: 20660},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9729},
@@ -2953,8 +2953,8 @@ var g = &grammar{
 																																pos: position{line: 318, col: 28, offset: 9739},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 318, col: 29, offset: 9740},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -2965,7 +2965,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 652, col: 28, offset: 20678},
+																												pos:        position{line: 652, col: 28, offset: 20679},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -2974,19 +2974,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 658, col: 25, offset: 20859},
+																									pos: position{line: 658, col: 25, offset: 20860},
 																									run: (*parser).callonFileInclusion55,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 25, offset: 20859},
+																										pos: position{line: 658, col: 25, offset: 20860},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 658, col: 25, offset: 20859},
+																												pos:        position{line: 658, col: 25, offset: 20860},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 37, offset: 20871},
+																												pos:   position{line: 658, col: 37, offset: 20872},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9729},
@@ -3006,8 +3006,8 @@ var g = &grammar{
 																																pos: position{line: 318, col: 28, offset: 9739},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 318, col: 29, offset: 9740},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -3018,33 +3018,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 56, offset: 20890},
+																												pos:   position{line: 658, col: 56, offset: 20891},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 658, col: 62, offset: 20896},
+																													pos: position{line: 658, col: 62, offset: 20897},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21191},
+																														pos: position{line: 666, col: 17, offset: 21192},
 																														run: (*parser).callonFileInclusion66,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21191},
+																															pos: position{line: 666, col: 17, offset: 21192},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21191},
+																																	pos:        position{line: 666, col: 17, offset: 21192},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21195},
+																																	pos:   position{line: 666, col: 21, offset: 21196},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21202},
+																																		pos: position{line: 666, col: 28, offset: 21203},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21202},
+																																				pos: position{line: 666, col: 28, offset: 21203},
 																																				run: (*parser).callonFileInclusion71,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21202},
+																																					pos:        position{line: 666, col: 28, offset: 21203},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -3052,12 +3052,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21256},
+																																				pos: position{line: 668, col: 9, offset: 21257},
 																																				run: (*parser).callonFileInclusion73,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21256},
+																																					pos: position{line: 668, col: 9, offset: 21257},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21256},
+																																						pos:        position{line: 668, col: 9, offset: 21257},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -3074,7 +3074,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 78, offset: 20912},
+																												pos:        position{line: 658, col: 78, offset: 20913},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -3083,19 +3083,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 662, col: 25, offset: 21030},
+																									pos: position{line: 662, col: 25, offset: 21031},
 																									run: (*parser).callonFileInclusion77,
 																									expr: &seqExpr{
-																										pos: position{line: 662, col: 25, offset: 21030},
+																										pos: position{line: 662, col: 25, offset: 21031},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 662, col: 25, offset: 21030},
+																												pos:        position{line: 662, col: 25, offset: 21031},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 38, offset: 21043},
+																												pos:   position{line: 662, col: 38, offset: 21044},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9729},
@@ -3115,8 +3115,8 @@ var g = &grammar{
 																																pos: position{line: 318, col: 28, offset: 9739},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 318, col: 29, offset: 9740},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -3127,33 +3127,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 57, offset: 21062},
+																												pos:   position{line: 662, col: 57, offset: 21063},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 662, col: 63, offset: 21068},
+																													pos: position{line: 662, col: 63, offset: 21069},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21191},
+																														pos: position{line: 666, col: 17, offset: 21192},
 																														run: (*parser).callonFileInclusion88,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21191},
+																															pos: position{line: 666, col: 17, offset: 21192},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21191},
+																																	pos:        position{line: 666, col: 17, offset: 21192},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21195},
+																																	pos:   position{line: 666, col: 21, offset: 21196},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21202},
+																																		pos: position{line: 666, col: 28, offset: 21203},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21202},
+																																				pos: position{line: 666, col: 28, offset: 21203},
 																																				run: (*parser).callonFileInclusion93,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21202},
+																																					pos:        position{line: 666, col: 28, offset: 21203},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -3161,12 +3161,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21256},
+																																				pos: position{line: 668, col: 9, offset: 21257},
 																																				run: (*parser).callonFileInclusion95,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21256},
+																																					pos: position{line: 668, col: 9, offset: 21257},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21256},
+																																						pos:        position{line: 668, col: 9, offset: 21257},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -3183,7 +3183,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 662, col: 79, offset: 21084},
+																												pos:        position{line: 662, col: 79, offset: 21085},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -3198,27 +3198,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1198, col: 23, offset: 37045},
+																			pos: position{line: 1198, col: 23, offset: 37046},
 																			run: (*parser).callonFileInclusion99,
 																			expr: &seqExpr{
-																				pos: position{line: 1198, col: 23, offset: 37045},
+																				pos: position{line: 1198, col: 23, offset: 37046},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 37013},
+																						pos:        position{line: 1196, col: 32, offset: 37014},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1198, col: 51, offset: 37073},
+																						pos:   position{line: 1198, col: 51, offset: 37074},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1198, col: 56, offset: 37078},
+																							pos: position{line: 1198, col: 56, offset: 37079},
 																							run: (*parser).callonFileInclusion103,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1198, col: 56, offset: 37078},
+																								pos: position{line: 1198, col: 56, offset: 37079},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1198, col: 56, offset: 37078},
+																									pos:        position{line: 1198, col: 56, offset: 37079},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -3228,7 +3228,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 37013},
+																						pos:        position{line: 1196, col: 32, offset: 37014},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -3237,10 +3237,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2855, col: 11, offset: 90466},
+																			pos: position{line: 2855, col: 11, offset: 90467},
 																			run: (*parser).callonFileInclusion107,
 																			expr: &litMatcher{
-																				pos:        position{line: 2855, col: 11, offset: 90466},
+																				pos:        position{line: 2855, col: 11, offset: 90467},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3269,10 +3269,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 10, offset: 90951},
+								pos: position{line: 2876, col: 10, offset: 90952},
 								run: (*parser).callonFileInclusion112,
 								expr: &charClassMatcher{
-									pos:        position{line: 2876, col: 10, offset: 90951},
+									pos:        position{line: 2876, col: 10, offset: 90952},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3281,28 +3281,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2898, col: 8, offset: 91349},
+							pos: position{line: 2898, col: 8, offset: 91350},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2885, col: 12, offset: 91122},
+									pos: position{line: 2885, col: 12, offset: 91123},
 									run: (*parser).callonFileInclusion115,
 									expr: &choiceExpr{
-										pos: position{line: 2885, col: 13, offset: 91123},
+										pos: position{line: 2885, col: 13, offset: 91124},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2885, col: 13, offset: 91123},
+												pos:        position{line: 2885, col: 13, offset: 91124},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 20, offset: 91130},
+												pos:        position{line: 2885, col: 20, offset: 91131},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 29, offset: 91139},
+												pos:        position{line: 2885, col: 29, offset: 91140},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3311,9 +3311,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2895, col: 8, offset: 91299},
+									pos: position{line: 2895, col: 8, offset: 91300},
 									expr: &anyMatcher{
-										line: 2895, col: 9, offset: 91300,
+										line: 2895, col: 9, offset: 91301,
 									},
 								},
 							},
@@ -3359,24 +3359,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2868, col: 12, offset: 90778},
+																				pos: position{line: 2868, col: 12, offset: 90779},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2868, col: 13, offset: 90779},
+																					pos: position{line: 2868, col: 13, offset: 90780},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2868, col: 13, offset: 90779},
+																							pos: position{line: 2868, col: 13, offset: 90780},
 																							expr: &litMatcher{
-																								pos:        position{line: 2868, col: 13, offset: 90779},
+																								pos:        position{line: 2868, col: 13, offset: 90780},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2868, col: 18, offset: 90784},
+																							pos: position{line: 2868, col: 18, offset: 90785},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2868, col: 18, offset: 90784},
+																								pos:        position{line: 2868, col: 18, offset: 90785},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3397,24 +3397,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2868, col: 12, offset: 90778},
+																				pos: position{line: 2868, col: 12, offset: 90779},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2868, col: 13, offset: 90779},
+																					pos: position{line: 2868, col: 13, offset: 90780},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2868, col: 13, offset: 90779},
+																							pos: position{line: 2868, col: 13, offset: 90780},
 																							expr: &litMatcher{
-																								pos:        position{line: 2868, col: 13, offset: 90779},
+																								pos:        position{line: 2868, col: 13, offset: 90780},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2868, col: 18, offset: 90784},
+																							pos: position{line: 2868, col: 18, offset: 90785},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2868, col: 18, offset: 90784},
+																								pos:        position{line: 2868, col: 18, offset: 90785},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3435,24 +3435,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2868, col: 12, offset: 90778},
+																		pos: position{line: 2868, col: 12, offset: 90779},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2868, col: 13, offset: 90779},
+																			pos: position{line: 2868, col: 13, offset: 90780},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2868, col: 13, offset: 90779},
+																					pos: position{line: 2868, col: 13, offset: 90780},
 																					expr: &litMatcher{
-																						pos:        position{line: 2868, col: 13, offset: 90779},
+																						pos:        position{line: 2868, col: 13, offset: 90780},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2868, col: 18, offset: 90784},
+																					pos: position{line: 2868, col: 18, offset: 90785},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2868, col: 18, offset: 90784},
+																						pos:        position{line: 2868, col: 18, offset: 90785},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3501,24 +3501,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2868, col: 12, offset: 90778},
+																									pos: position{line: 2868, col: 12, offset: 90779},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2868, col: 13, offset: 90779},
+																										pos: position{line: 2868, col: 13, offset: 90780},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2868, col: 13, offset: 90779},
+																												pos: position{line: 2868, col: 13, offset: 90780},
 																												expr: &litMatcher{
-																													pos:        position{line: 2868, col: 13, offset: 90779},
+																													pos:        position{line: 2868, col: 13, offset: 90780},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2868, col: 18, offset: 90784},
+																												pos: position{line: 2868, col: 18, offset: 90785},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2868, col: 18, offset: 90784},
+																													pos:        position{line: 2868, col: 18, offset: 90785},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3539,24 +3539,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2868, col: 12, offset: 90778},
+																									pos: position{line: 2868, col: 12, offset: 90779},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2868, col: 13, offset: 90779},
+																										pos: position{line: 2868, col: 13, offset: 90780},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2868, col: 13, offset: 90779},
+																												pos: position{line: 2868, col: 13, offset: 90780},
 																												expr: &litMatcher{
-																													pos:        position{line: 2868, col: 13, offset: 90779},
+																													pos:        position{line: 2868, col: 13, offset: 90780},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2868, col: 18, offset: 90784},
+																												pos: position{line: 2868, col: 18, offset: 90785},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2868, col: 18, offset: 90784},
+																													pos:        position{line: 2868, col: 18, offset: 90785},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3577,24 +3577,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 12, offset: 90778},
+																							pos: position{line: 2868, col: 12, offset: 90779},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2868, col: 13, offset: 90779},
+																								pos: position{line: 2868, col: 13, offset: 90780},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2868, col: 13, offset: 90779},
+																										pos: position{line: 2868, col: 13, offset: 90780},
 																										expr: &litMatcher{
-																											pos:        position{line: 2868, col: 13, offset: 90779},
+																											pos:        position{line: 2868, col: 13, offset: 90780},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2868, col: 18, offset: 90784},
+																										pos: position{line: 2868, col: 18, offset: 90785},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2868, col: 18, offset: 90784},
+																											pos:        position{line: 2868, col: 18, offset: 90785},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3627,24 +3627,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2868, col: 12, offset: 90778},
+														pos: position{line: 2868, col: 12, offset: 90779},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2868, col: 13, offset: 90779},
+															pos: position{line: 2868, col: 13, offset: 90780},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2868, col: 13, offset: 90779},
+																	pos: position{line: 2868, col: 13, offset: 90780},
 																	expr: &litMatcher{
-																		pos:        position{line: 2868, col: 13, offset: 90779},
+																		pos:        position{line: 2868, col: 13, offset: 90780},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2868, col: 18, offset: 90784},
+																	pos: position{line: 2868, col: 18, offset: 90785},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2868, col: 18, offset: 90784},
+																		pos:        position{line: 2868, col: 18, offset: 90785},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3665,24 +3665,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2868, col: 12, offset: 90778},
+														pos: position{line: 2868, col: 12, offset: 90779},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2868, col: 13, offset: 90779},
+															pos: position{line: 2868, col: 13, offset: 90780},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2868, col: 13, offset: 90779},
+																	pos: position{line: 2868, col: 13, offset: 90780},
 																	expr: &litMatcher{
-																		pos:        position{line: 2868, col: 13, offset: 90779},
+																		pos:        position{line: 2868, col: 13, offset: 90780},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2868, col: 18, offset: 90784},
+																	pos: position{line: 2868, col: 18, offset: 90785},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2868, col: 18, offset: 90784},
+																		pos:        position{line: 2868, col: 18, offset: 90785},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3703,24 +3703,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2868, col: 12, offset: 90778},
+												pos: position{line: 2868, col: 12, offset: 90779},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2868, col: 13, offset: 90779},
+													pos: position{line: 2868, col: 13, offset: 90780},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2868, col: 13, offset: 90779},
+															pos: position{line: 2868, col: 13, offset: 90780},
 															expr: &litMatcher{
-																pos:        position{line: 2868, col: 13, offset: 90779},
+																pos:        position{line: 2868, col: 13, offset: 90780},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2868, col: 18, offset: 90784},
+															pos: position{line: 2868, col: 18, offset: 90785},
 															expr: &charClassMatcher{
-																pos:        position{line: 2868, col: 18, offset: 90784},
+																pos:        position{line: 2868, col: 18, offset: 90785},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3736,9 +3736,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2895, col: 8, offset: 91299},
+							pos: position{line: 2895, col: 8, offset: 91300},
 							expr: &anyMatcher{
-								line: 2895, col: 9, offset: 91300,
+								line: 2895, col: 9, offset: 91301,
 							},
 						},
 					},
@@ -4063,9 +4063,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2895, col: 8, offset: 91299},
+							pos: position{line: 2895, col: 8, offset: 91300},
 							expr: &anyMatcher{
-								line: 2895, col: 9, offset: 91300,
+								line: 2895, col: 9, offset: 91301,
 							},
 						},
 					},
@@ -4189,28 +4189,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2898, col: 8, offset: 91349},
+							pos: position{line: 2898, col: 8, offset: 91350},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2885, col: 12, offset: 91122},
+									pos: position{line: 2885, col: 12, offset: 91123},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2885, col: 13, offset: 91123},
+										pos: position{line: 2885, col: 13, offset: 91124},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2885, col: 13, offset: 91123},
+												pos:        position{line: 2885, col: 13, offset: 91124},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 20, offset: 91130},
+												pos:        position{line: 2885, col: 20, offset: 91131},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 29, offset: 91139},
+												pos:        position{line: 2885, col: 29, offset: 91140},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4219,9 +4219,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2895, col: 8, offset: 91299},
+									pos: position{line: 2895, col: 8, offset: 91300},
 									expr: &anyMatcher{
-										line: 2895, col: 9, offset: 91300,
+										line: 2895, col: 9, offset: 91301,
 									},
 								},
 							},
@@ -4240,9 +4240,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2893, col: 11, offset: 91285},
+							pos: position{line: 2893, col: 11, offset: 91286},
 							expr: &anyMatcher{
-								line: 2893, col: 13, offset: 91287,
+								line: 2893, col: 13, offset: 91288,
 							},
 						},
 						&labeledExpr{
@@ -4285,19 +4285,19 @@ var g = &grammar{
 											name: "AttributeDeclaration",
 										},
 										&actionExpr{
-											pos: position{line: 360, col: 19, offset: 10910},
+											pos: position{line: 360, col: 19, offset: 10911},
 											run: (*parser).callonDocumentFragment16,
 											expr: &seqExpr{
-												pos: position{line: 360, col: 19, offset: 10910},
+												pos: position{line: 360, col: 19, offset: 10911},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 360, col: 19, offset: 10910},
+														pos:        position{line: 360, col: 19, offset: 10911},
 														val:        ":!",
 														ignoreCase: false,
 														want:       "\":!\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 360, col: 24, offset: 10915},
+														pos:   position{line: 360, col: 24, offset: 10916},
 														label: "name",
 														expr: &actionExpr{
 															pos: position{line: 318, col: 18, offset: 9729},
@@ -4317,8 +4317,8 @@ var g = &grammar{
 																		pos: position{line: 318, col: 28, offset: 9739},
 																		expr: &charClassMatcher{
 																			pos:        position{line: 318, col: 29, offset: 9740},
-																			val:        "[-\\pL\\pN]",
-																			chars:      []rune{'-'},
+																			val:        "[_-\\pL\\pN]",
+																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																			ignoreCase: false,
 																			inverted:   false,
@@ -4329,18 +4329,18 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 360, col: 45, offset: 10936},
+														pos:        position{line: 360, col: 45, offset: 10937},
 														val:        ":",
 														ignoreCase: false,
 														want:       "\":\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 360, col: 49, offset: 10940},
+														pos: position{line: 360, col: 49, offset: 10941},
 														expr: &actionExpr{
-															pos: position{line: 2876, col: 10, offset: 90951},
+															pos: position{line: 2876, col: 10, offset: 90952},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2876, col: 10, offset: 90951},
+																pos:        position{line: 2876, col: 10, offset: 90952},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4349,28 +4349,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2898, col: 8, offset: 91349},
+														pos: position{line: 2898, col: 8, offset: 91350},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2885, col: 12, offset: 91122},
+																pos: position{line: 2885, col: 12, offset: 91123},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2885, col: 13, offset: 91123},
+																	pos: position{line: 2885, col: 13, offset: 91124},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 13, offset: 91123},
+																			pos:        position{line: 2885, col: 13, offset: 91124},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 20, offset: 91130},
+																			pos:        position{line: 2885, col: 20, offset: 91131},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 29, offset: 91139},
+																			pos:        position{line: 2885, col: 29, offset: 91140},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4379,9 +4379,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91299},
+																pos: position{line: 2895, col: 8, offset: 91300},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91300,
+																	line: 2895, col: 9, offset: 91301,
 																},
 															},
 														},
@@ -4390,19 +4390,19 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 362, col: 9, offset: 11031},
+											pos: position{line: 362, col: 9, offset: 11032},
 											run: (*parser).callonDocumentFragment37,
 											expr: &seqExpr{
-												pos: position{line: 362, col: 9, offset: 11031},
+												pos: position{line: 362, col: 9, offset: 11032},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 362, col: 9, offset: 11031},
+														pos:        position{line: 362, col: 9, offset: 11032},
 														val:        ":",
 														ignoreCase: false,
 														want:       "\":\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 362, col: 13, offset: 11035},
+														pos:   position{line: 362, col: 13, offset: 11036},
 														label: "name",
 														expr: &actionExpr{
 															pos: position{line: 318, col: 18, offset: 9729},
@@ -4422,8 +4422,8 @@ var g = &grammar{
 																		pos: position{line: 318, col: 28, offset: 9739},
 																		expr: &charClassMatcher{
 																			pos:        position{line: 318, col: 29, offset: 9740},
-																			val:        "[-\\pL\\pN]",
-																			chars:      []rune{'-'},
+																			val:        "[_-\\pL\\pN]",
+																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																			ignoreCase: false,
 																			inverted:   false,
@@ -4434,18 +4434,18 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 362, col: 34, offset: 11056},
+														pos:        position{line: 362, col: 34, offset: 11057},
 														val:        "!:",
 														ignoreCase: false,
 														want:       "\"!:\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 362, col: 39, offset: 11061},
+														pos: position{line: 362, col: 39, offset: 11062},
 														expr: &actionExpr{
-															pos: position{line: 2876, col: 10, offset: 90951},
+															pos: position{line: 2876, col: 10, offset: 90952},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2876, col: 10, offset: 90951},
+																pos:        position{line: 2876, col: 10, offset: 90952},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4454,28 +4454,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2898, col: 8, offset: 91349},
+														pos: position{line: 2898, col: 8, offset: 91350},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2885, col: 12, offset: 91122},
+																pos: position{line: 2885, col: 12, offset: 91123},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2885, col: 13, offset: 91123},
+																	pos: position{line: 2885, col: 13, offset: 91124},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 13, offset: 91123},
+																			pos:        position{line: 2885, col: 13, offset: 91124},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 20, offset: 91130},
+																			pos:        position{line: 2885, col: 20, offset: 91131},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 29, offset: 91139},
+																			pos:        position{line: 2885, col: 29, offset: 91140},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4484,9 +4484,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91299},
+																pos: position{line: 2895, col: 8, offset: 91300},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91300,
+																	line: 2895, col: 9, offset: 91301,
 																},
 															},
 														},
@@ -4495,24 +4495,24 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 677, col: 14, offset: 21557},
+											pos: position{line: 677, col: 14, offset: 21558},
 											run: (*parser).callonDocumentFragment58,
 											expr: &seqExpr{
-												pos: position{line: 677, col: 14, offset: 21557},
+												pos: position{line: 677, col: 14, offset: 21558},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2893, col: 11, offset: 91285},
+														pos: position{line: 2893, col: 11, offset: 91286},
 														expr: &anyMatcher{
-															line: 2893, col: 13, offset: 91287,
+															line: 2893, col: 13, offset: 91288,
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 677, col: 21, offset: 21564},
+														pos: position{line: 677, col: 21, offset: 21565},
 														expr: &actionExpr{
-															pos: position{line: 2876, col: 10, offset: 90951},
+															pos: position{line: 2876, col: 10, offset: 90952},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2876, col: 10, offset: 90951},
+																pos:        position{line: 2876, col: 10, offset: 90952},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4521,28 +4521,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2898, col: 8, offset: 91349},
+														pos: position{line: 2898, col: 8, offset: 91350},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2885, col: 12, offset: 91122},
+																pos: position{line: 2885, col: 12, offset: 91123},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2885, col: 13, offset: 91123},
+																	pos: position{line: 2885, col: 13, offset: 91124},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 13, offset: 91123},
+																			pos:        position{line: 2885, col: 13, offset: 91124},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 20, offset: 91130},
+																			pos:        position{line: 2885, col: 20, offset: 91131},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 29, offset: 91139},
+																			pos:        position{line: 2885, col: 29, offset: 91140},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4551,9 +4551,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91299},
+																pos: position{line: 2895, col: 8, offset: 91300},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91300,
+																	line: 2895, col: 9, offset: 91301,
 																},
 															},
 														},
@@ -4570,36 +4570,36 @@ var g = &grammar{
 											name: "Section",
 										},
 										&actionExpr{
-											pos: position{line: 820, col: 5, offset: 26397},
+											pos: position{line: 820, col: 5, offset: 26398},
 											run: (*parser).callonDocumentFragment75,
 											expr: &seqExpr{
-												pos: position{line: 820, col: 5, offset: 26397},
+												pos: position{line: 820, col: 5, offset: 26398},
 												exprs: []interface{}{
 													&actionExpr{
-														pos: position{line: 740, col: 5, offset: 23652},
+														pos: position{line: 740, col: 5, offset: 23653},
 														run: (*parser).callonDocumentFragment77,
 														expr: &seqExpr{
-															pos: position{line: 740, col: 5, offset: 23652},
+															pos: position{line: 740, col: 5, offset: 23653},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 740, col: 5, offset: 23652},
+																	pos:   position{line: 740, col: 5, offset: 23653},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 740, col: 16, offset: 23663},
+																		pos: position{line: 740, col: 16, offset: 23664},
 																		run: (*parser).callonDocumentFragment80,
 																		expr: &seqExpr{
-																			pos: position{line: 740, col: 16, offset: 23663},
+																			pos: position{line: 740, col: 16, offset: 23664},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 740, col: 16, offset: 23663},
+																					pos:        position{line: 740, col: 16, offset: 23664},
 																					val:        "////",
 																					ignoreCase: false,
 																					want:       "\"////\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 740, col: 23, offset: 23670},
+																					pos: position{line: 740, col: 23, offset: 23671},
 																					expr: &litMatcher{
-																						pos:        position{line: 740, col: 23, offset: 23670},
+																						pos:        position{line: 740, col: 23, offset: 23671},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
@@ -4610,12 +4610,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 742, col: 8, offset: 23754},
+																	pos: position{line: 742, col: 8, offset: 23755},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 90951},
+																		pos: position{line: 2876, col: 10, offset: 90952},
 																		run: (*parser).callonDocumentFragment86,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 90951},
+																			pos:        position{line: 2876, col: 10, offset: 90952},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -4624,28 +4624,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91349},
+																	pos: position{line: 2898, col: 8, offset: 91350},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91122},
+																			pos: position{line: 2885, col: 12, offset: 91123},
 																			run: (*parser).callonDocumentFragment89,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91123},
+																				pos: position{line: 2885, col: 13, offset: 91124},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91123},
+																						pos:        position{line: 2885, col: 13, offset: 91124},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91130},
+																						pos:        position{line: 2885, col: 20, offset: 91131},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91139},
+																						pos:        position{line: 2885, col: 29, offset: 91140},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -4654,9 +4654,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91299},
+																			pos: position{line: 2895, col: 8, offset: 91300},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91300,
+																				line: 2895, col: 9, offset: 91301,
 																			},
 																		},
 																	},
@@ -4665,46 +4665,46 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 821, col: 5, offset: 26428},
+														pos:   position{line: 821, col: 5, offset: 26429},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 831, col: 5, offset: 26714},
+															pos: position{line: 831, col: 5, offset: 26715},
 															expr: &actionExpr{
-																pos: position{line: 831, col: 6, offset: 26715},
+																pos: position{line: 831, col: 6, offset: 26716},
 																run: (*parser).callonDocumentFragment98,
 																expr: &seqExpr{
-																	pos: position{line: 831, col: 6, offset: 26715},
+																	pos: position{line: 831, col: 6, offset: 26716},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 831, col: 6, offset: 26715},
+																			pos: position{line: 831, col: 6, offset: 26716},
 																			expr: &choiceExpr{
-																				pos: position{line: 828, col: 29, offset: 26657},
+																				pos: position{line: 828, col: 29, offset: 26658},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 740, col: 5, offset: 23652},
+																						pos: position{line: 740, col: 5, offset: 23653},
 																						run: (*parser).callonDocumentFragment102,
 																						expr: &seqExpr{
-																							pos: position{line: 740, col: 5, offset: 23652},
+																							pos: position{line: 740, col: 5, offset: 23653},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 740, col: 5, offset: 23652},
+																									pos:   position{line: 740, col: 5, offset: 23653},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 740, col: 16, offset: 23663},
+																										pos: position{line: 740, col: 16, offset: 23664},
 																										run: (*parser).callonDocumentFragment105,
 																										expr: &seqExpr{
-																											pos: position{line: 740, col: 16, offset: 23663},
+																											pos: position{line: 740, col: 16, offset: 23664},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 740, col: 16, offset: 23663},
+																													pos:        position{line: 740, col: 16, offset: 23664},
 																													val:        "////",
 																													ignoreCase: false,
 																													want:       "\"////\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 740, col: 23, offset: 23670},
+																													pos: position{line: 740, col: 23, offset: 23671},
 																													expr: &litMatcher{
-																														pos:        position{line: 740, col: 23, offset: 23670},
+																														pos:        position{line: 740, col: 23, offset: 23671},
 																														val:        "/",
 																														ignoreCase: false,
 																														want:       "\"/\"",
@@ -4715,12 +4715,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 742, col: 8, offset: 23754},
+																									pos: position{line: 742, col: 8, offset: 23755},
 																									expr: &actionExpr{
-																										pos: position{line: 2876, col: 10, offset: 90951},
+																										pos: position{line: 2876, col: 10, offset: 90952},
 																										run: (*parser).callonDocumentFragment111,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2876, col: 10, offset: 90951},
+																											pos:        position{line: 2876, col: 10, offset: 90952},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -4729,28 +4729,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2898, col: 8, offset: 91349},
+																									pos: position{line: 2898, col: 8, offset: 91350},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2885, col: 12, offset: 91122},
+																											pos: position{line: 2885, col: 12, offset: 91123},
 																											run: (*parser).callonDocumentFragment114,
 																											expr: &choiceExpr{
-																												pos: position{line: 2885, col: 13, offset: 91123},
+																												pos: position{line: 2885, col: 13, offset: 91124},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 13, offset: 91123},
+																														pos:        position{line: 2885, col: 13, offset: 91124},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 20, offset: 91130},
+																														pos:        position{line: 2885, col: 20, offset: 91131},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 29, offset: 91139},
+																														pos:        position{line: 2885, col: 29, offset: 91140},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -4759,9 +4759,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2895, col: 8, offset: 91299},
+																											pos: position{line: 2895, col: 8, offset: 91300},
 																											expr: &anyMatcher{
-																												line: 2895, col: 9, offset: 91300,
+																												line: 2895, col: 9, offset: 91301,
 																											},
 																										},
 																									},
@@ -4770,39 +4770,39 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91299},
+																						pos: position{line: 2895, col: 8, offset: 91300},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91300,
+																							line: 2895, col: 9, offset: 91301,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 832, col: 5, offset: 26745},
+																			pos:   position{line: 832, col: 5, offset: 26746},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26161},
+																				pos: position{line: 811, col: 5, offset: 26162},
 																				run: (*parser).callonDocumentFragment124,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26161},
+																					pos: position{line: 811, col: 5, offset: 26162},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2893, col: 11, offset: 91285},
+																							pos: position{line: 2893, col: 11, offset: 91286},
 																							expr: &anyMatcher{
-																								line: 2893, col: 13, offset: 91287,
+																								line: 2893, col: 13, offset: 91288,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26236},
+																							pos:   position{line: 812, col: 5, offset: 26237},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2822, col: 13, offset: 89477},
+																								pos: position{line: 2822, col: 13, offset: 89478},
 																								run: (*parser).callonDocumentFragment129,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2822, col: 13, offset: 89477},
+																									pos: position{line: 2822, col: 13, offset: 89478},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2822, col: 13, offset: 89477},
+																										pos:        position{line: 2822, col: 13, offset: 89478},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4812,28 +4812,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91349},
+																							pos: position{line: 2898, col: 8, offset: 91350},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91122},
+																									pos: position{line: 2885, col: 12, offset: 91123},
 																									run: (*parser).callonDocumentFragment133,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91123},
+																										pos: position{line: 2885, col: 13, offset: 91124},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91123},
+																												pos:        position{line: 2885, col: 13, offset: 91124},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91130},
+																												pos:        position{line: 2885, col: 20, offset: 91131},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91139},
+																												pos:        position{line: 2885, col: 29, offset: 91140},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4842,9 +4842,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91299},
+																									pos: position{line: 2895, col: 8, offset: 91300},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91300,
+																										line: 2895, col: 9, offset: 91301,
 																									},
 																								},
 																							},
@@ -4859,35 +4859,35 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 822, col: 5, offset: 26462},
+														pos: position{line: 822, col: 5, offset: 26463},
 														expr: &choiceExpr{
-															pos: position{line: 828, col: 29, offset: 26657},
+															pos: position{line: 828, col: 29, offset: 26658},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 740, col: 5, offset: 23652},
+																	pos: position{line: 740, col: 5, offset: 23653},
 																	run: (*parser).callonDocumentFragment142,
 																	expr: &seqExpr{
-																		pos: position{line: 740, col: 5, offset: 23652},
+																		pos: position{line: 740, col: 5, offset: 23653},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 740, col: 5, offset: 23652},
+																				pos:   position{line: 740, col: 5, offset: 23653},
 																				label: "delimiter",
 																				expr: &actionExpr{
-																					pos: position{line: 740, col: 16, offset: 23663},
+																					pos: position{line: 740, col: 16, offset: 23664},
 																					run: (*parser).callonDocumentFragment145,
 																					expr: &seqExpr{
-																						pos: position{line: 740, col: 16, offset: 23663},
+																						pos: position{line: 740, col: 16, offset: 23664},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 740, col: 16, offset: 23663},
+																								pos:        position{line: 740, col: 16, offset: 23664},
 																								val:        "////",
 																								ignoreCase: false,
 																								want:       "\"////\"",
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 740, col: 23, offset: 23670},
+																								pos: position{line: 740, col: 23, offset: 23671},
 																								expr: &litMatcher{
-																									pos:        position{line: 740, col: 23, offset: 23670},
+																									pos:        position{line: 740, col: 23, offset: 23671},
 																									val:        "/",
 																									ignoreCase: false,
 																									want:       "\"/\"",
@@ -4898,12 +4898,12 @@ var g = &grammar{
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 742, col: 8, offset: 23754},
+																				pos: position{line: 742, col: 8, offset: 23755},
 																				expr: &actionExpr{
-																					pos: position{line: 2876, col: 10, offset: 90951},
+																					pos: position{line: 2876, col: 10, offset: 90952},
 																					run: (*parser).callonDocumentFragment151,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2876, col: 10, offset: 90951},
+																						pos:        position{line: 2876, col: 10, offset: 90952},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -4912,28 +4912,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2898, col: 8, offset: 91349},
+																				pos: position{line: 2898, col: 8, offset: 91350},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2885, col: 12, offset: 91122},
+																						pos: position{line: 2885, col: 12, offset: 91123},
 																						run: (*parser).callonDocumentFragment154,
 																						expr: &choiceExpr{
-																							pos: position{line: 2885, col: 13, offset: 91123},
+																							pos: position{line: 2885, col: 13, offset: 91124},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 13, offset: 91123},
+																									pos:        position{line: 2885, col: 13, offset: 91124},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 20, offset: 91130},
+																									pos:        position{line: 2885, col: 20, offset: 91131},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 29, offset: 91139},
+																									pos:        position{line: 2885, col: 29, offset: 91140},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -4942,9 +4942,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91299},
+																						pos: position{line: 2895, col: 8, offset: 91300},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91300,
+																							line: 2895, col: 9, offset: 91301,
 																						},
 																					},
 																				},
@@ -4953,9 +4953,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2895, col: 8, offset: 91299},
+																	pos: position{line: 2895, col: 8, offset: 91300},
 																	expr: &anyMatcher{
-																		line: 2895, col: 9, offset: 91300,
+																		line: 2895, col: 9, offset: 91301,
 																	},
 																},
 															},
@@ -4965,39 +4965,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 840, col: 5, offset: 26898},
+											pos: position{line: 840, col: 5, offset: 26899},
 											run: (*parser).callonDocumentFragment163,
 											expr: &seqExpr{
-												pos: position{line: 840, col: 5, offset: 26898},
+												pos: position{line: 840, col: 5, offset: 26899},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 840, col: 5, offset: 26898},
+														pos:   position{line: 840, col: 5, offset: 26899},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 747, col: 5, offset: 23900},
+															pos: position{line: 747, col: 5, offset: 23901},
 															run: (*parser).callonDocumentFragment166,
 															expr: &seqExpr{
-																pos: position{line: 747, col: 5, offset: 23900},
+																pos: position{line: 747, col: 5, offset: 23901},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 747, col: 5, offset: 23900},
+																		pos:   position{line: 747, col: 5, offset: 23901},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 747, col: 16, offset: 23911},
+																			pos: position{line: 747, col: 16, offset: 23912},
 																			run: (*parser).callonDocumentFragment169,
 																			expr: &seqExpr{
-																				pos: position{line: 747, col: 16, offset: 23911},
+																				pos: position{line: 747, col: 16, offset: 23912},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 747, col: 16, offset: 23911},
+																						pos:        position{line: 747, col: 16, offset: 23912},
 																						val:        "====",
 																						ignoreCase: false,
 																						want:       "\"====\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 747, col: 23, offset: 23918},
+																						pos: position{line: 747, col: 23, offset: 23919},
 																						expr: &litMatcher{
-																							pos:        position{line: 747, col: 23, offset: 23918},
+																							pos:        position{line: 747, col: 23, offset: 23919},
 																							val:        "=",
 																							ignoreCase: false,
 																							want:       "\"=\"",
@@ -5008,12 +5008,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 749, col: 8, offset: 24002},
+																		pos: position{line: 749, col: 8, offset: 24003},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 90951},
+																			pos: position{line: 2876, col: 10, offset: 90952},
 																			run: (*parser).callonDocumentFragment175,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 90951},
+																				pos:        position{line: 2876, col: 10, offset: 90952},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5022,28 +5022,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91349},
+																		pos: position{line: 2898, col: 8, offset: 91350},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91122},
+																				pos: position{line: 2885, col: 12, offset: 91123},
 																				run: (*parser).callonDocumentFragment178,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91123},
+																					pos: position{line: 2885, col: 13, offset: 91124},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91123},
+																							pos:        position{line: 2885, col: 13, offset: 91124},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91130},
+																							pos:        position{line: 2885, col: 20, offset: 91131},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91139},
+																							pos:        position{line: 2885, col: 29, offset: 91140},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5052,9 +5052,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91299},
+																				pos: position{line: 2895, col: 8, offset: 91300},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91300,
+																					line: 2895, col: 9, offset: 91301,
 																				},
 																			},
 																		},
@@ -5064,56 +5064,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 841, col: 5, offset: 26937},
+														pos: position{line: 841, col: 5, offset: 26938},
 														run: (*parser).callonDocumentFragment185,
 													},
 													&labeledExpr{
-														pos:   position{line: 844, col: 5, offset: 27029},
+														pos:   position{line: 844, col: 5, offset: 27030},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 859, col: 4, offset: 27426},
+															pos: position{line: 859, col: 4, offset: 27427},
 															expr: &actionExpr{
-																pos: position{line: 859, col: 5, offset: 27427},
+																pos: position{line: 859, col: 5, offset: 27428},
 																run: (*parser).callonDocumentFragment188,
 																expr: &seqExpr{
-																	pos: position{line: 859, col: 5, offset: 27427},
+																	pos: position{line: 859, col: 5, offset: 27428},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 859, col: 5, offset: 27427},
+																			pos: position{line: 859, col: 5, offset: 27428},
 																			expr: &choiceExpr{
-																				pos: position{line: 852, col: 5, offset: 27269},
+																				pos: position{line: 852, col: 5, offset: 27270},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 852, col: 5, offset: 27269},
+																						pos: position{line: 852, col: 5, offset: 27270},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 852, col: 5, offset: 27269},
+																								pos:   position{line: 852, col: 5, offset: 27270},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 747, col: 5, offset: 23900},
+																									pos: position{line: 747, col: 5, offset: 23901},
 																									run: (*parser).callonDocumentFragment194,
 																									expr: &seqExpr{
-																										pos: position{line: 747, col: 5, offset: 23900},
+																										pos: position{line: 747, col: 5, offset: 23901},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 747, col: 5, offset: 23900},
+																												pos:   position{line: 747, col: 5, offset: 23901},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 747, col: 16, offset: 23911},
+																													pos: position{line: 747, col: 16, offset: 23912},
 																													run: (*parser).callonDocumentFragment197,
 																													expr: &seqExpr{
-																														pos: position{line: 747, col: 16, offset: 23911},
+																														pos: position{line: 747, col: 16, offset: 23912},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 747, col: 16, offset: 23911},
+																																pos:        position{line: 747, col: 16, offset: 23912},
 																																val:        "====",
 																																ignoreCase: false,
 																																want:       "\"====\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 747, col: 23, offset: 23918},
+																																pos: position{line: 747, col: 23, offset: 23919},
 																																expr: &litMatcher{
-																																	pos:        position{line: 747, col: 23, offset: 23918},
+																																	pos:        position{line: 747, col: 23, offset: 23919},
 																																	val:        "=",
 																																	ignoreCase: false,
 																																	want:       "\"=\"",
@@ -5124,12 +5124,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 749, col: 8, offset: 24002},
+																												pos: position{line: 749, col: 8, offset: 24003},
 																												expr: &actionExpr{
-																													pos: position{line: 2876, col: 10, offset: 90951},
+																													pos: position{line: 2876, col: 10, offset: 90952},
 																													run: (*parser).callonDocumentFragment203,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2876, col: 10, offset: 90951},
+																														pos:        position{line: 2876, col: 10, offset: 90952},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5138,28 +5138,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2898, col: 8, offset: 91349},
+																												pos: position{line: 2898, col: 8, offset: 91350},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2885, col: 12, offset: 91122},
+																														pos: position{line: 2885, col: 12, offset: 91123},
 																														run: (*parser).callonDocumentFragment206,
 																														expr: &choiceExpr{
-																															pos: position{line: 2885, col: 13, offset: 91123},
+																															pos: position{line: 2885, col: 13, offset: 91124},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 13, offset: 91123},
+																																	pos:        position{line: 2885, col: 13, offset: 91124},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 20, offset: 91130},
+																																	pos:        position{line: 2885, col: 20, offset: 91131},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 29, offset: 91139},
+																																	pos:        position{line: 2885, col: 29, offset: 91140},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5168,9 +5168,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2895, col: 8, offset: 91299},
+																														pos: position{line: 2895, col: 8, offset: 91300},
 																														expr: &anyMatcher{
-																															line: 2895, col: 9, offset: 91300,
+																															line: 2895, col: 9, offset: 91301,
 																														},
 																													},
 																												},
@@ -5180,45 +5180,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 853, col: 5, offset: 27300},
+																								pos: position{line: 853, col: 5, offset: 27301},
 																								run: (*parser).callonDocumentFragment213,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91299},
+																						pos: position{line: 2895, col: 8, offset: 91300},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91300,
+																							line: 2895, col: 9, offset: 91301,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 860, col: 5, offset: 27457},
+																			pos:   position{line: 860, col: 5, offset: 27458},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26161},
+																				pos: position{line: 811, col: 5, offset: 26162},
 																				run: (*parser).callonDocumentFragment217,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26161},
+																					pos: position{line: 811, col: 5, offset: 26162},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2893, col: 11, offset: 91285},
+																							pos: position{line: 2893, col: 11, offset: 91286},
 																							expr: &anyMatcher{
-																								line: 2893, col: 13, offset: 91287,
+																								line: 2893, col: 13, offset: 91288,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26236},
+																							pos:   position{line: 812, col: 5, offset: 26237},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2822, col: 13, offset: 89477},
+																								pos: position{line: 2822, col: 13, offset: 89478},
 																								run: (*parser).callonDocumentFragment222,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2822, col: 13, offset: 89477},
+																									pos: position{line: 2822, col: 13, offset: 89478},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2822, col: 13, offset: 89477},
+																										pos:        position{line: 2822, col: 13, offset: 89478},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5228,28 +5228,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91349},
+																							pos: position{line: 2898, col: 8, offset: 91350},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91122},
+																									pos: position{line: 2885, col: 12, offset: 91123},
 																									run: (*parser).callonDocumentFragment226,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91123},
+																										pos: position{line: 2885, col: 13, offset: 91124},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91123},
+																												pos:        position{line: 2885, col: 13, offset: 91124},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91130},
+																												pos:        position{line: 2885, col: 20, offset: 91131},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91139},
+																												pos:        position{line: 2885, col: 29, offset: 91140},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5258,9 +5258,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91299},
+																									pos: position{line: 2895, col: 8, offset: 91300},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91300,
+																										line: 2895, col: 9, offset: 91301,
 																									},
 																								},
 																							},
@@ -5275,44 +5275,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 845, col: 5, offset: 27063},
+														pos:   position{line: 845, col: 5, offset: 27064},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 845, col: 9, offset: 27067},
+															pos: position{line: 845, col: 9, offset: 27068},
 															expr: &choiceExpr{
-																pos: position{line: 852, col: 5, offset: 27269},
+																pos: position{line: 852, col: 5, offset: 27270},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 852, col: 5, offset: 27269},
+																		pos: position{line: 852, col: 5, offset: 27270},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 852, col: 5, offset: 27269},
+																				pos:   position{line: 852, col: 5, offset: 27270},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 747, col: 5, offset: 23900},
+																					pos: position{line: 747, col: 5, offset: 23901},
 																					run: (*parser).callonDocumentFragment238,
 																					expr: &seqExpr{
-																						pos: position{line: 747, col: 5, offset: 23900},
+																						pos: position{line: 747, col: 5, offset: 23901},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 747, col: 5, offset: 23900},
+																								pos:   position{line: 747, col: 5, offset: 23901},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 747, col: 16, offset: 23911},
+																									pos: position{line: 747, col: 16, offset: 23912},
 																									run: (*parser).callonDocumentFragment241,
 																									expr: &seqExpr{
-																										pos: position{line: 747, col: 16, offset: 23911},
+																										pos: position{line: 747, col: 16, offset: 23912},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 747, col: 16, offset: 23911},
+																												pos:        position{line: 747, col: 16, offset: 23912},
 																												val:        "====",
 																												ignoreCase: false,
 																												want:       "\"====\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 747, col: 23, offset: 23918},
+																												pos: position{line: 747, col: 23, offset: 23919},
 																												expr: &litMatcher{
-																													pos:        position{line: 747, col: 23, offset: 23918},
+																													pos:        position{line: 747, col: 23, offset: 23919},
 																													val:        "=",
 																													ignoreCase: false,
 																													want:       "\"=\"",
@@ -5323,12 +5323,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 749, col: 8, offset: 24002},
+																								pos: position{line: 749, col: 8, offset: 24003},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 90951},
+																									pos: position{line: 2876, col: 10, offset: 90952},
 																									run: (*parser).callonDocumentFragment247,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 90951},
+																										pos:        position{line: 2876, col: 10, offset: 90952},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5337,28 +5337,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2898, col: 8, offset: 91349},
+																								pos: position{line: 2898, col: 8, offset: 91350},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2885, col: 12, offset: 91122},
+																										pos: position{line: 2885, col: 12, offset: 91123},
 																										run: (*parser).callonDocumentFragment250,
 																										expr: &choiceExpr{
-																											pos: position{line: 2885, col: 13, offset: 91123},
+																											pos: position{line: 2885, col: 13, offset: 91124},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 13, offset: 91123},
+																													pos:        position{line: 2885, col: 13, offset: 91124},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 20, offset: 91130},
+																													pos:        position{line: 2885, col: 20, offset: 91131},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 29, offset: 91139},
+																													pos:        position{line: 2885, col: 29, offset: 91140},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5367,9 +5367,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2895, col: 8, offset: 91299},
+																										pos: position{line: 2895, col: 8, offset: 91300},
 																										expr: &anyMatcher{
-																											line: 2895, col: 9, offset: 91300,
+																											line: 2895, col: 9, offset: 91301,
 																										},
 																									},
 																								},
@@ -5379,15 +5379,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 853, col: 5, offset: 27300},
+																				pos: position{line: 853, col: 5, offset: 27301},
 																				run: (*parser).callonDocumentFragment257,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91299},
+																		pos: position{line: 2895, col: 8, offset: 91300},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91300,
+																			line: 2895, col: 9, offset: 91301,
 																		},
 																	},
 																},
@@ -5398,36 +5398,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 952, col: 5, offset: 29749},
+											pos: position{line: 952, col: 5, offset: 29750},
 											run: (*parser).callonDocumentFragment260,
 											expr: &seqExpr{
-												pos: position{line: 952, col: 5, offset: 29749},
+												pos: position{line: 952, col: 5, offset: 29750},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 952, col: 5, offset: 29749},
+														pos:   position{line: 952, col: 5, offset: 29750},
 														label: "delimiter",
 														expr: &actionExpr{
-															pos: position{line: 760, col: 26, offset: 24388},
+															pos: position{line: 760, col: 26, offset: 24389},
 															run: (*parser).callonDocumentFragment263,
 															expr: &seqExpr{
-																pos: position{line: 760, col: 26, offset: 24388},
+																pos: position{line: 760, col: 26, offset: 24389},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 760, col: 26, offset: 24388},
+																		pos:        position{line: 760, col: 26, offset: 24389},
 																		val:        "```",
 																		ignoreCase: false,
 																		want:       "\"```\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 760, col: 32, offset: 24394},
+																		pos:   position{line: 760, col: 32, offset: 24395},
 																		label: "language",
 																		expr: &actionExpr{
-																			pos: position{line: 764, col: 13, offset: 24524},
+																			pos: position{line: 764, col: 13, offset: 24525},
 																			run: (*parser).callonDocumentFragment267,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 764, col: 14, offset: 24525},
+																				pos: position{line: 764, col: 14, offset: 24526},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 764, col: 14, offset: 24525},
+																					pos:        position{line: 764, col: 14, offset: 24526},
 																					val:        "[^\\r\\n`\\t ]",
 																					chars:      []rune{'\r', '\n', '`', '\t', ' '},
 																					ignoreCase: false,
@@ -5437,12 +5437,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 760, col: 52, offset: 24414},
+																		pos: position{line: 760, col: 52, offset: 24415},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 90951},
+																			pos: position{line: 2876, col: 10, offset: 90952},
 																			run: (*parser).callonDocumentFragment271,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 90951},
+																				pos:        position{line: 2876, col: 10, offset: 90952},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5451,28 +5451,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91349},
+																		pos: position{line: 2898, col: 8, offset: 91350},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91122},
+																				pos: position{line: 2885, col: 12, offset: 91123},
 																				run: (*parser).callonDocumentFragment274,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91123},
+																					pos: position{line: 2885, col: 13, offset: 91124},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91123},
+																							pos:        position{line: 2885, col: 13, offset: 91124},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91130},
+																							pos:        position{line: 2885, col: 20, offset: 91131},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91139},
+																							pos:        position{line: 2885, col: 29, offset: 91140},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5481,9 +5481,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91299},
+																				pos: position{line: 2895, col: 8, offset: 91300},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91300,
+																					line: 2895, col: 9, offset: 91301,
 																				},
 																			},
 																		},
@@ -5493,34 +5493,34 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 953, col: 5, offset: 29795},
+														pos:   position{line: 953, col: 5, offset: 29796},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 966, col: 5, offset: 30268},
+															pos: position{line: 966, col: 5, offset: 30269},
 															expr: &actionExpr{
-																pos: position{line: 966, col: 6, offset: 30269},
+																pos: position{line: 966, col: 6, offset: 30270},
 																run: (*parser).callonDocumentFragment283,
 																expr: &seqExpr{
-																	pos: position{line: 966, col: 6, offset: 30269},
+																	pos: position{line: 966, col: 6, offset: 30270},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 966, col: 6, offset: 30269},
+																			pos: position{line: 966, col: 6, offset: 30270},
 																			expr: &seqExpr{
-																				pos: position{line: 963, col: 34, offset: 30216},
+																				pos: position{line: 963, col: 34, offset: 30217},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 963, col: 34, offset: 30216},
+																						pos:        position{line: 963, col: 34, offset: 30217},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 963, col: 40, offset: 30222},
+																						pos: position{line: 963, col: 40, offset: 30223},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 90951},
+																							pos: position{line: 2876, col: 10, offset: 90952},
 																							run: (*parser).callonDocumentFragment289,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 90951},
+																								pos:        position{line: 2876, col: 10, offset: 90952},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5529,28 +5529,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91349},
+																						pos: position{line: 2898, col: 8, offset: 91350},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91122},
+																								pos: position{line: 2885, col: 12, offset: 91123},
 																								run: (*parser).callonDocumentFragment292,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91123},
+																									pos: position{line: 2885, col: 13, offset: 91124},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91123},
+																											pos:        position{line: 2885, col: 13, offset: 91124},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91130},
+																											pos:        position{line: 2885, col: 20, offset: 91131},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91139},
+																											pos:        position{line: 2885, col: 29, offset: 91140},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5559,9 +5559,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91299},
+																								pos: position{line: 2895, col: 8, offset: 91300},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91300,
+																									line: 2895, col: 9, offset: 91301,
 																								},
 																							},
 																						},
@@ -5570,30 +5570,30 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 967, col: 5, offset: 30304},
+																			pos:   position{line: 967, col: 5, offset: 30305},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26161},
+																				pos: position{line: 811, col: 5, offset: 26162},
 																				run: (*parser).callonDocumentFragment300,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26161},
+																					pos: position{line: 811, col: 5, offset: 26162},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2893, col: 11, offset: 91285},
+																							pos: position{line: 2893, col: 11, offset: 91286},
 																							expr: &anyMatcher{
-																								line: 2893, col: 13, offset: 91287,
+																								line: 2893, col: 13, offset: 91288,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26236},
+																							pos:   position{line: 812, col: 5, offset: 26237},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2822, col: 13, offset: 89477},
+																								pos: position{line: 2822, col: 13, offset: 89478},
 																								run: (*parser).callonDocumentFragment305,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2822, col: 13, offset: 89477},
+																									pos: position{line: 2822, col: 13, offset: 89478},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2822, col: 13, offset: 89477},
+																										pos:        position{line: 2822, col: 13, offset: 89478},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5603,28 +5603,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91349},
+																							pos: position{line: 2898, col: 8, offset: 91350},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91122},
+																									pos: position{line: 2885, col: 12, offset: 91123},
 																									run: (*parser).callonDocumentFragment309,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91123},
+																										pos: position{line: 2885, col: 13, offset: 91124},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91123},
+																												pos:        position{line: 2885, col: 13, offset: 91124},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91130},
+																												pos:        position{line: 2885, col: 20, offset: 91131},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91139},
+																												pos:        position{line: 2885, col: 29, offset: 91140},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5633,9 +5633,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91299},
+																									pos: position{line: 2895, col: 8, offset: 91300},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91300,
+																										line: 2895, col: 9, offset: 91301,
 																									},
 																								},
 																							},
@@ -5650,23 +5650,23 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 954, col: 5, offset: 29834},
+														pos: position{line: 954, col: 5, offset: 29835},
 														expr: &seqExpr{
-															pos: position{line: 963, col: 34, offset: 30216},
+															pos: position{line: 963, col: 34, offset: 30217},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 963, col: 34, offset: 30216},
+																	pos:        position{line: 963, col: 34, offset: 30217},
 																	val:        "```",
 																	ignoreCase: false,
 																	want:       "\"```\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 963, col: 40, offset: 30222},
+																	pos: position{line: 963, col: 40, offset: 30223},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 90951},
+																		pos: position{line: 2876, col: 10, offset: 90952},
 																		run: (*parser).callonDocumentFragment320,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 90951},
+																			pos:        position{line: 2876, col: 10, offset: 90952},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5675,28 +5675,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91349},
+																	pos: position{line: 2898, col: 8, offset: 91350},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91122},
+																			pos: position{line: 2885, col: 12, offset: 91123},
 																			run: (*parser).callonDocumentFragment323,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91123},
+																				pos: position{line: 2885, col: 13, offset: 91124},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91123},
+																						pos:        position{line: 2885, col: 13, offset: 91124},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91130},
+																						pos:        position{line: 2885, col: 20, offset: 91131},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91139},
+																						pos:        position{line: 2885, col: 29, offset: 91140},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5705,9 +5705,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91299},
+																			pos: position{line: 2895, col: 8, offset: 91300},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91300,
+																				line: 2895, col: 9, offset: 91301,
 																			},
 																		},
 																	},
@@ -5719,39 +5719,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 868, col: 5, offset: 27610},
+											pos: position{line: 868, col: 5, offset: 27611},
 											run: (*parser).callonDocumentFragment330,
 											expr: &seqExpr{
-												pos: position{line: 868, col: 5, offset: 27610},
+												pos: position{line: 868, col: 5, offset: 27611},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 868, col: 5, offset: 27610},
+														pos:   position{line: 868, col: 5, offset: 27611},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 754, col: 5, offset: 24147},
+															pos: position{line: 754, col: 5, offset: 24148},
 															run: (*parser).callonDocumentFragment333,
 															expr: &seqExpr{
-																pos: position{line: 754, col: 5, offset: 24147},
+																pos: position{line: 754, col: 5, offset: 24148},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 754, col: 5, offset: 24147},
+																		pos:   position{line: 754, col: 5, offset: 24148},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 754, col: 16, offset: 24158},
+																			pos: position{line: 754, col: 16, offset: 24159},
 																			run: (*parser).callonDocumentFragment336,
 																			expr: &seqExpr{
-																				pos: position{line: 754, col: 16, offset: 24158},
+																				pos: position{line: 754, col: 16, offset: 24159},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 754, col: 16, offset: 24158},
+																						pos:        position{line: 754, col: 16, offset: 24159},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 754, col: 22, offset: 24164},
+																						pos: position{line: 754, col: 22, offset: 24165},
 																						expr: &litMatcher{
-																							pos:        position{line: 754, col: 22, offset: 24164},
+																							pos:        position{line: 754, col: 22, offset: 24165},
 																							val:        "`",
 																							ignoreCase: false,
 																							want:       "\"`\"",
@@ -5762,12 +5762,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 756, col: 8, offset: 24248},
+																		pos: position{line: 756, col: 8, offset: 24249},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 90951},
+																			pos: position{line: 2876, col: 10, offset: 90952},
 																			run: (*parser).callonDocumentFragment342,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 90951},
+																				pos:        position{line: 2876, col: 10, offset: 90952},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5776,28 +5776,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91349},
+																		pos: position{line: 2898, col: 8, offset: 91350},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91122},
+																				pos: position{line: 2885, col: 12, offset: 91123},
 																				run: (*parser).callonDocumentFragment345,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91123},
+																					pos: position{line: 2885, col: 13, offset: 91124},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91123},
+																							pos:        position{line: 2885, col: 13, offset: 91124},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91130},
+																							pos:        position{line: 2885, col: 20, offset: 91131},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91139},
+																							pos:        position{line: 2885, col: 29, offset: 91140},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5806,9 +5806,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91299},
+																				pos: position{line: 2895, col: 8, offset: 91300},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91300,
+																					line: 2895, col: 9, offset: 91301,
 																				},
 																			},
 																		},
@@ -5818,56 +5818,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 869, col: 5, offset: 27648},
+														pos: position{line: 869, col: 5, offset: 27649},
 														run: (*parser).callonDocumentFragment352,
 													},
 													&labeledExpr{
-														pos:   position{line: 872, col: 5, offset: 27740},
+														pos:   position{line: 872, col: 5, offset: 27741},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 887, col: 5, offset: 28130},
+															pos: position{line: 887, col: 5, offset: 28131},
 															expr: &actionExpr{
-																pos: position{line: 887, col: 6, offset: 28131},
+																pos: position{line: 887, col: 6, offset: 28132},
 																run: (*parser).callonDocumentFragment355,
 																expr: &seqExpr{
-																	pos: position{line: 887, col: 6, offset: 28131},
+																	pos: position{line: 887, col: 6, offset: 28132},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 887, col: 6, offset: 28131},
+																			pos: position{line: 887, col: 6, offset: 28132},
 																			expr: &choiceExpr{
-																				pos: position{line: 880, col: 5, offset: 27974},
+																				pos: position{line: 880, col: 5, offset: 27975},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 880, col: 5, offset: 27974},
+																						pos: position{line: 880, col: 5, offset: 27975},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 880, col: 5, offset: 27974},
+																								pos:   position{line: 880, col: 5, offset: 27975},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 754, col: 5, offset: 24147},
+																									pos: position{line: 754, col: 5, offset: 24148},
 																									run: (*parser).callonDocumentFragment361,
 																									expr: &seqExpr{
-																										pos: position{line: 754, col: 5, offset: 24147},
+																										pos: position{line: 754, col: 5, offset: 24148},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 754, col: 5, offset: 24147},
+																												pos:   position{line: 754, col: 5, offset: 24148},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 754, col: 16, offset: 24158},
+																													pos: position{line: 754, col: 16, offset: 24159},
 																													run: (*parser).callonDocumentFragment364,
 																													expr: &seqExpr{
-																														pos: position{line: 754, col: 16, offset: 24158},
+																														pos: position{line: 754, col: 16, offset: 24159},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 754, col: 16, offset: 24158},
+																																pos:        position{line: 754, col: 16, offset: 24159},
 																																val:        "```",
 																																ignoreCase: false,
 																																want:       "\"```\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 754, col: 22, offset: 24164},
+																																pos: position{line: 754, col: 22, offset: 24165},
 																																expr: &litMatcher{
-																																	pos:        position{line: 754, col: 22, offset: 24164},
+																																	pos:        position{line: 754, col: 22, offset: 24165},
 																																	val:        "`",
 																																	ignoreCase: false,
 																																	want:       "\"`\"",
@@ -5878,12 +5878,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 756, col: 8, offset: 24248},
+																												pos: position{line: 756, col: 8, offset: 24249},
 																												expr: &actionExpr{
-																													pos: position{line: 2876, col: 10, offset: 90951},
+																													pos: position{line: 2876, col: 10, offset: 90952},
 																													run: (*parser).callonDocumentFragment370,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2876, col: 10, offset: 90951},
+																														pos:        position{line: 2876, col: 10, offset: 90952},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5892,28 +5892,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2898, col: 8, offset: 91349},
+																												pos: position{line: 2898, col: 8, offset: 91350},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2885, col: 12, offset: 91122},
+																														pos: position{line: 2885, col: 12, offset: 91123},
 																														run: (*parser).callonDocumentFragment373,
 																														expr: &choiceExpr{
-																															pos: position{line: 2885, col: 13, offset: 91123},
+																															pos: position{line: 2885, col: 13, offset: 91124},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 13, offset: 91123},
+																																	pos:        position{line: 2885, col: 13, offset: 91124},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 20, offset: 91130},
+																																	pos:        position{line: 2885, col: 20, offset: 91131},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 29, offset: 91139},
+																																	pos:        position{line: 2885, col: 29, offset: 91140},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5922,9 +5922,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2895, col: 8, offset: 91299},
+																														pos: position{line: 2895, col: 8, offset: 91300},
 																														expr: &anyMatcher{
-																															line: 2895, col: 9, offset: 91300,
+																															line: 2895, col: 9, offset: 91301,
 																														},
 																													},
 																												},
@@ -5934,45 +5934,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 881, col: 5, offset: 28004},
+																								pos: position{line: 881, col: 5, offset: 28005},
 																								run: (*parser).callonDocumentFragment380,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91299},
+																						pos: position{line: 2895, col: 8, offset: 91300},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91300,
+																							line: 2895, col: 9, offset: 91301,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 888, col: 5, offset: 28160},
+																			pos:   position{line: 888, col: 5, offset: 28161},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26161},
+																				pos: position{line: 811, col: 5, offset: 26162},
 																				run: (*parser).callonDocumentFragment384,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26161},
+																					pos: position{line: 811, col: 5, offset: 26162},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2893, col: 11, offset: 91285},
+																							pos: position{line: 2893, col: 11, offset: 91286},
 																							expr: &anyMatcher{
-																								line: 2893, col: 13, offset: 91287,
+																								line: 2893, col: 13, offset: 91288,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26236},
+																							pos:   position{line: 812, col: 5, offset: 26237},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2822, col: 13, offset: 89477},
+																								pos: position{line: 2822, col: 13, offset: 89478},
 																								run: (*parser).callonDocumentFragment389,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2822, col: 13, offset: 89477},
+																									pos: position{line: 2822, col: 13, offset: 89478},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2822, col: 13, offset: 89477},
+																										pos:        position{line: 2822, col: 13, offset: 89478},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5982,28 +5982,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91349},
+																							pos: position{line: 2898, col: 8, offset: 91350},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91122},
+																									pos: position{line: 2885, col: 12, offset: 91123},
 																									run: (*parser).callonDocumentFragment393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91123},
+																										pos: position{line: 2885, col: 13, offset: 91124},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91123},
+																												pos:        position{line: 2885, col: 13, offset: 91124},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91130},
+																												pos:        position{line: 2885, col: 20, offset: 91131},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91139},
+																												pos:        position{line: 2885, col: 29, offset: 91140},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6012,9 +6012,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91299},
+																									pos: position{line: 2895, col: 8, offset: 91300},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91300,
+																										line: 2895, col: 9, offset: 91301,
 																									},
 																								},
 																							},
@@ -6029,44 +6029,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 873, col: 5, offset: 27773},
+														pos:   position{line: 873, col: 5, offset: 27774},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 873, col: 9, offset: 27777},
+															pos: position{line: 873, col: 9, offset: 27778},
 															expr: &choiceExpr{
-																pos: position{line: 880, col: 5, offset: 27974},
+																pos: position{line: 880, col: 5, offset: 27975},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 880, col: 5, offset: 27974},
+																		pos: position{line: 880, col: 5, offset: 27975},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 880, col: 5, offset: 27974},
+																				pos:   position{line: 880, col: 5, offset: 27975},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 754, col: 5, offset: 24147},
+																					pos: position{line: 754, col: 5, offset: 24148},
 																					run: (*parser).callonDocumentFragment405,
 																					expr: &seqExpr{
-																						pos: position{line: 754, col: 5, offset: 24147},
+																						pos: position{line: 754, col: 5, offset: 24148},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 754, col: 5, offset: 24147},
+																								pos:   position{line: 754, col: 5, offset: 24148},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 754, col: 16, offset: 24158},
+																									pos: position{line: 754, col: 16, offset: 24159},
 																									run: (*parser).callonDocumentFragment408,
 																									expr: &seqExpr{
-																										pos: position{line: 754, col: 16, offset: 24158},
+																										pos: position{line: 754, col: 16, offset: 24159},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 754, col: 16, offset: 24158},
+																												pos:        position{line: 754, col: 16, offset: 24159},
 																												val:        "```",
 																												ignoreCase: false,
 																												want:       "\"```\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 754, col: 22, offset: 24164},
+																												pos: position{line: 754, col: 22, offset: 24165},
 																												expr: &litMatcher{
-																													pos:        position{line: 754, col: 22, offset: 24164},
+																													pos:        position{line: 754, col: 22, offset: 24165},
 																													val:        "`",
 																													ignoreCase: false,
 																													want:       "\"`\"",
@@ -6077,12 +6077,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 756, col: 8, offset: 24248},
+																								pos: position{line: 756, col: 8, offset: 24249},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 90951},
+																									pos: position{line: 2876, col: 10, offset: 90952},
 																									run: (*parser).callonDocumentFragment414,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 90951},
+																										pos:        position{line: 2876, col: 10, offset: 90952},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6091,28 +6091,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2898, col: 8, offset: 91349},
+																								pos: position{line: 2898, col: 8, offset: 91350},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2885, col: 12, offset: 91122},
+																										pos: position{line: 2885, col: 12, offset: 91123},
 																										run: (*parser).callonDocumentFragment417,
 																										expr: &choiceExpr{
-																											pos: position{line: 2885, col: 13, offset: 91123},
+																											pos: position{line: 2885, col: 13, offset: 91124},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 13, offset: 91123},
+																													pos:        position{line: 2885, col: 13, offset: 91124},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 20, offset: 91130},
+																													pos:        position{line: 2885, col: 20, offset: 91131},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 29, offset: 91139},
+																													pos:        position{line: 2885, col: 29, offset: 91140},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6121,9 +6121,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2895, col: 8, offset: 91299},
+																										pos: position{line: 2895, col: 8, offset: 91300},
 																										expr: &anyMatcher{
-																											line: 2895, col: 9, offset: 91300,
+																											line: 2895, col: 9, offset: 91301,
 																										},
 																									},
 																								},
@@ -6133,15 +6133,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 881, col: 5, offset: 28004},
+																				pos: position{line: 881, col: 5, offset: 28005},
 																				run: (*parser).callonDocumentFragment424,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91299},
+																		pos: position{line: 2895, col: 8, offset: 91300},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91300,
+																			line: 2895, col: 9, offset: 91301,
 																		},
 																	},
 																},
@@ -6152,39 +6152,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 896, col: 5, offset: 28315},
+											pos: position{line: 896, col: 5, offset: 28316},
 											run: (*parser).callonDocumentFragment427,
 											expr: &seqExpr{
-												pos: position{line: 896, col: 5, offset: 28315},
+												pos: position{line: 896, col: 5, offset: 28316},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 896, col: 5, offset: 28315},
+														pos:   position{line: 896, col: 5, offset: 28316},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 769, col: 5, offset: 24689},
+															pos: position{line: 769, col: 5, offset: 24690},
 															run: (*parser).callonDocumentFragment430,
 															expr: &seqExpr{
-																pos: position{line: 769, col: 5, offset: 24689},
+																pos: position{line: 769, col: 5, offset: 24690},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 769, col: 5, offset: 24689},
+																		pos:   position{line: 769, col: 5, offset: 24690},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 769, col: 16, offset: 24700},
+																			pos: position{line: 769, col: 16, offset: 24701},
 																			run: (*parser).callonDocumentFragment433,
 																			expr: &seqExpr{
-																				pos: position{line: 769, col: 16, offset: 24700},
+																				pos: position{line: 769, col: 16, offset: 24701},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 769, col: 16, offset: 24700},
+																						pos:        position{line: 769, col: 16, offset: 24701},
 																						val:        "----",
 																						ignoreCase: false,
 																						want:       "\"----\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 769, col: 23, offset: 24707},
+																						pos: position{line: 769, col: 23, offset: 24708},
 																						expr: &litMatcher{
-																							pos:        position{line: 769, col: 23, offset: 24707},
+																							pos:        position{line: 769, col: 23, offset: 24708},
 																							val:        "-",
 																							ignoreCase: false,
 																							want:       "\"-\"",
@@ -6195,12 +6195,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 771, col: 8, offset: 24791},
+																		pos: position{line: 771, col: 8, offset: 24792},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 90951},
+																			pos: position{line: 2876, col: 10, offset: 90952},
 																			run: (*parser).callonDocumentFragment439,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 90951},
+																				pos:        position{line: 2876, col: 10, offset: 90952},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6209,28 +6209,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91349},
+																		pos: position{line: 2898, col: 8, offset: 91350},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91122},
+																				pos: position{line: 2885, col: 12, offset: 91123},
 																				run: (*parser).callonDocumentFragment442,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91123},
+																					pos: position{line: 2885, col: 13, offset: 91124},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91123},
+																							pos:        position{line: 2885, col: 13, offset: 91124},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91130},
+																							pos:        position{line: 2885, col: 20, offset: 91131},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91139},
+																							pos:        position{line: 2885, col: 29, offset: 91140},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6239,9 +6239,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91299},
+																				pos: position{line: 2895, col: 8, offset: 91300},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91300,
+																					line: 2895, col: 9, offset: 91301,
 																				},
 																			},
 																		},
@@ -6251,56 +6251,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 897, col: 5, offset: 28354},
+														pos: position{line: 897, col: 5, offset: 28355},
 														run: (*parser).callonDocumentFragment449,
 													},
 													&labeledExpr{
-														pos:   position{line: 900, col: 5, offset: 28446},
+														pos:   position{line: 900, col: 5, offset: 28447},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 915, col: 5, offset: 28844},
+															pos: position{line: 915, col: 5, offset: 28845},
 															expr: &actionExpr{
-																pos: position{line: 915, col: 6, offset: 28845},
+																pos: position{line: 915, col: 6, offset: 28846},
 																run: (*parser).callonDocumentFragment452,
 																expr: &seqExpr{
-																	pos: position{line: 915, col: 6, offset: 28845},
+																	pos: position{line: 915, col: 6, offset: 28846},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 915, col: 6, offset: 28845},
+																			pos: position{line: 915, col: 6, offset: 28846},
 																			expr: &choiceExpr{
-																				pos: position{line: 908, col: 5, offset: 28686},
+																				pos: position{line: 908, col: 5, offset: 28687},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 908, col: 5, offset: 28686},
+																						pos: position{line: 908, col: 5, offset: 28687},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 908, col: 5, offset: 28686},
+																								pos:   position{line: 908, col: 5, offset: 28687},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 769, col: 5, offset: 24689},
+																									pos: position{line: 769, col: 5, offset: 24690},
 																									run: (*parser).callonDocumentFragment458,
 																									expr: &seqExpr{
-																										pos: position{line: 769, col: 5, offset: 24689},
+																										pos: position{line: 769, col: 5, offset: 24690},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 769, col: 5, offset: 24689},
+																												pos:   position{line: 769, col: 5, offset: 24690},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 769, col: 16, offset: 24700},
+																													pos: position{line: 769, col: 16, offset: 24701},
 																													run: (*parser).callonDocumentFragment461,
 																													expr: &seqExpr{
-																														pos: position{line: 769, col: 16, offset: 24700},
+																														pos: position{line: 769, col: 16, offset: 24701},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 769, col: 16, offset: 24700},
+																																pos:        position{line: 769, col: 16, offset: 24701},
 																																val:        "----",
 																																ignoreCase: false,
 																																want:       "\"----\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 769, col: 23, offset: 24707},
+																																pos: position{line: 769, col: 23, offset: 24708},
 																																expr: &litMatcher{
-																																	pos:        position{line: 769, col: 23, offset: 24707},
+																																	pos:        position{line: 769, col: 23, offset: 24708},
 																																	val:        "-",
 																																	ignoreCase: false,
 																																	want:       "\"-\"",
@@ -6311,12 +6311,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 771, col: 8, offset: 24791},
+																												pos: position{line: 771, col: 8, offset: 24792},
 																												expr: &actionExpr{
-																													pos: position{line: 2876, col: 10, offset: 90951},
+																													pos: position{line: 2876, col: 10, offset: 90952},
 																													run: (*parser).callonDocumentFragment467,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2876, col: 10, offset: 90951},
+																														pos:        position{line: 2876, col: 10, offset: 90952},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6325,28 +6325,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2898, col: 8, offset: 91349},
+																												pos: position{line: 2898, col: 8, offset: 91350},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2885, col: 12, offset: 91122},
+																														pos: position{line: 2885, col: 12, offset: 91123},
 																														run: (*parser).callonDocumentFragment470,
 																														expr: &choiceExpr{
-																															pos: position{line: 2885, col: 13, offset: 91123},
+																															pos: position{line: 2885, col: 13, offset: 91124},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 13, offset: 91123},
+																																	pos:        position{line: 2885, col: 13, offset: 91124},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 20, offset: 91130},
+																																	pos:        position{line: 2885, col: 20, offset: 91131},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 29, offset: 91139},
+																																	pos:        position{line: 2885, col: 29, offset: 91140},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6355,9 +6355,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2895, col: 8, offset: 91299},
+																														pos: position{line: 2895, col: 8, offset: 91300},
 																														expr: &anyMatcher{
-																															line: 2895, col: 9, offset: 91300,
+																															line: 2895, col: 9, offset: 91301,
 																														},
 																													},
 																												},
@@ -6367,45 +6367,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 909, col: 5, offset: 28717},
+																								pos: position{line: 909, col: 5, offset: 28718},
 																								run: (*parser).callonDocumentFragment477,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91299},
+																						pos: position{line: 2895, col: 8, offset: 91300},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91300,
+																							line: 2895, col: 9, offset: 91301,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 916, col: 5, offset: 28875},
+																			pos:   position{line: 916, col: 5, offset: 28876},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26161},
+																				pos: position{line: 811, col: 5, offset: 26162},
 																				run: (*parser).callonDocumentFragment481,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26161},
+																					pos: position{line: 811, col: 5, offset: 26162},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2893, col: 11, offset: 91285},
+																							pos: position{line: 2893, col: 11, offset: 91286},
 																							expr: &anyMatcher{
-																								line: 2893, col: 13, offset: 91287,
+																								line: 2893, col: 13, offset: 91288,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26236},
+																							pos:   position{line: 812, col: 5, offset: 26237},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2822, col: 13, offset: 89477},
+																								pos: position{line: 2822, col: 13, offset: 89478},
 																								run: (*parser).callonDocumentFragment486,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2822, col: 13, offset: 89477},
+																									pos: position{line: 2822, col: 13, offset: 89478},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2822, col: 13, offset: 89477},
+																										pos:        position{line: 2822, col: 13, offset: 89478},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6415,28 +6415,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91349},
+																							pos: position{line: 2898, col: 8, offset: 91350},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91122},
+																									pos: position{line: 2885, col: 12, offset: 91123},
 																									run: (*parser).callonDocumentFragment490,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91123},
+																										pos: position{line: 2885, col: 13, offset: 91124},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91123},
+																												pos:        position{line: 2885, col: 13, offset: 91124},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91130},
+																												pos:        position{line: 2885, col: 20, offset: 91131},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91139},
+																												pos:        position{line: 2885, col: 29, offset: 91140},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6445,9 +6445,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91299},
+																									pos: position{line: 2895, col: 8, offset: 91300},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91300,
+																										line: 2895, col: 9, offset: 91301,
 																									},
 																								},
 																							},
@@ -6462,44 +6462,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 901, col: 5, offset: 28480},
+														pos:   position{line: 901, col: 5, offset: 28481},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 901, col: 9, offset: 28484},
+															pos: position{line: 901, col: 9, offset: 28485},
 															expr: &choiceExpr{
-																pos: position{line: 908, col: 5, offset: 28686},
+																pos: position{line: 908, col: 5, offset: 28687},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 908, col: 5, offset: 28686},
+																		pos: position{line: 908, col: 5, offset: 28687},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 908, col: 5, offset: 28686},
+																				pos:   position{line: 908, col: 5, offset: 28687},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 769, col: 5, offset: 24689},
+																					pos: position{line: 769, col: 5, offset: 24690},
 																					run: (*parser).callonDocumentFragment502,
 																					expr: &seqExpr{
-																						pos: position{line: 769, col: 5, offset: 24689},
+																						pos: position{line: 769, col: 5, offset: 24690},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 769, col: 5, offset: 24689},
+																								pos:   position{line: 769, col: 5, offset: 24690},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 769, col: 16, offset: 24700},
+																									pos: position{line: 769, col: 16, offset: 24701},
 																									run: (*parser).callonDocumentFragment505,
 																									expr: &seqExpr{
-																										pos: position{line: 769, col: 16, offset: 24700},
+																										pos: position{line: 769, col: 16, offset: 24701},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 769, col: 16, offset: 24700},
+																												pos:        position{line: 769, col: 16, offset: 24701},
 																												val:        "----",
 																												ignoreCase: false,
 																												want:       "\"----\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 769, col: 23, offset: 24707},
+																												pos: position{line: 769, col: 23, offset: 24708},
 																												expr: &litMatcher{
-																													pos:        position{line: 769, col: 23, offset: 24707},
+																													pos:        position{line: 769, col: 23, offset: 24708},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
@@ -6510,12 +6510,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 771, col: 8, offset: 24791},
+																								pos: position{line: 771, col: 8, offset: 24792},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 90951},
+																									pos: position{line: 2876, col: 10, offset: 90952},
 																									run: (*parser).callonDocumentFragment511,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 90951},
+																										pos:        position{line: 2876, col: 10, offset: 90952},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6524,28 +6524,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2898, col: 8, offset: 91349},
+																								pos: position{line: 2898, col: 8, offset: 91350},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2885, col: 12, offset: 91122},
+																										pos: position{line: 2885, col: 12, offset: 91123},
 																										run: (*parser).callonDocumentFragment514,
 																										expr: &choiceExpr{
-																											pos: position{line: 2885, col: 13, offset: 91123},
+																											pos: position{line: 2885, col: 13, offset: 91124},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 13, offset: 91123},
+																													pos:        position{line: 2885, col: 13, offset: 91124},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 20, offset: 91130},
+																													pos:        position{line: 2885, col: 20, offset: 91131},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 29, offset: 91139},
+																													pos:        position{line: 2885, col: 29, offset: 91140},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6554,9 +6554,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2895, col: 8, offset: 91299},
+																										pos: position{line: 2895, col: 8, offset: 91300},
 																										expr: &anyMatcher{
-																											line: 2895, col: 9, offset: 91300,
+																											line: 2895, col: 9, offset: 91301,
 																										},
 																									},
 																								},
@@ -6566,15 +6566,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 909, col: 5, offset: 28717},
+																				pos: position{line: 909, col: 5, offset: 28718},
 																				run: (*parser).callonDocumentFragment521,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91299},
+																		pos: position{line: 2895, col: 8, offset: 91300},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91300,
+																			line: 2895, col: 9, offset: 91301,
 																		},
 																	},
 																},
@@ -6585,39 +6585,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 924, col: 5, offset: 29030},
+											pos: position{line: 924, col: 5, offset: 29031},
 											run: (*parser).callonDocumentFragment524,
 											expr: &seqExpr{
-												pos: position{line: 924, col: 5, offset: 29030},
+												pos: position{line: 924, col: 5, offset: 29031},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 924, col: 5, offset: 29030},
+														pos:   position{line: 924, col: 5, offset: 29031},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 783, col: 5, offset: 25165},
+															pos: position{line: 783, col: 5, offset: 25166},
 															run: (*parser).callonDocumentFragment527,
 															expr: &seqExpr{
-																pos: position{line: 783, col: 5, offset: 25165},
+																pos: position{line: 783, col: 5, offset: 25166},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 783, col: 5, offset: 25165},
+																		pos:   position{line: 783, col: 5, offset: 25166},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 783, col: 16, offset: 25176},
+																			pos: position{line: 783, col: 16, offset: 25177},
 																			run: (*parser).callonDocumentFragment530,
 																			expr: &seqExpr{
-																				pos: position{line: 783, col: 16, offset: 25176},
+																				pos: position{line: 783, col: 16, offset: 25177},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 783, col: 16, offset: 25176},
+																						pos:        position{line: 783, col: 16, offset: 25177},
 																						val:        "....",
 																						ignoreCase: false,
 																						want:       "\"....\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 783, col: 23, offset: 25183},
+																						pos: position{line: 783, col: 23, offset: 25184},
 																						expr: &litMatcher{
-																							pos:        position{line: 783, col: 23, offset: 25183},
+																							pos:        position{line: 783, col: 23, offset: 25184},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -6628,12 +6628,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 785, col: 8, offset: 25267},
+																		pos: position{line: 785, col: 8, offset: 25268},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 90951},
+																			pos: position{line: 2876, col: 10, offset: 90952},
 																			run: (*parser).callonDocumentFragment536,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 90951},
+																				pos:        position{line: 2876, col: 10, offset: 90952},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6642,28 +6642,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91349},
+																		pos: position{line: 2898, col: 8, offset: 91350},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91122},
+																				pos: position{line: 2885, col: 12, offset: 91123},
 																				run: (*parser).callonDocumentFragment539,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91123},
+																					pos: position{line: 2885, col: 13, offset: 91124},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91123},
+																							pos:        position{line: 2885, col: 13, offset: 91124},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91130},
+																							pos:        position{line: 2885, col: 20, offset: 91131},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91139},
+																							pos:        position{line: 2885, col: 29, offset: 91140},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6672,9 +6672,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91299},
+																				pos: position{line: 2895, col: 8, offset: 91300},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91300,
+																					line: 2895, col: 9, offset: 91301,
 																				},
 																			},
 																		},
@@ -6684,56 +6684,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 925, col: 5, offset: 29069},
+														pos: position{line: 925, col: 5, offset: 29070},
 														run: (*parser).callonDocumentFragment546,
 													},
 													&labeledExpr{
-														pos:   position{line: 928, col: 5, offset: 29161},
+														pos:   position{line: 928, col: 5, offset: 29162},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 943, col: 5, offset: 29559},
+															pos: position{line: 943, col: 5, offset: 29560},
 															expr: &actionExpr{
-																pos: position{line: 943, col: 6, offset: 29560},
+																pos: position{line: 943, col: 6, offset: 29561},
 																run: (*parser).callonDocumentFragment549,
 																expr: &seqExpr{
-																	pos: position{line: 943, col: 6, offset: 29560},
+																	pos: position{line: 943, col: 6, offset: 29561},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 943, col: 6, offset: 29560},
+																			pos: position{line: 943, col: 6, offset: 29561},
 																			expr: &choiceExpr{
-																				pos: position{line: 936, col: 5, offset: 29401},
+																				pos: position{line: 936, col: 5, offset: 29402},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 936, col: 5, offset: 29401},
+																						pos: position{line: 936, col: 5, offset: 29402},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 936, col: 5, offset: 29401},
+																								pos:   position{line: 936, col: 5, offset: 29402},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 783, col: 5, offset: 25165},
+																									pos: position{line: 783, col: 5, offset: 25166},
 																									run: (*parser).callonDocumentFragment555,
 																									expr: &seqExpr{
-																										pos: position{line: 783, col: 5, offset: 25165},
+																										pos: position{line: 783, col: 5, offset: 25166},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 783, col: 5, offset: 25165},
+																												pos:   position{line: 783, col: 5, offset: 25166},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 783, col: 16, offset: 25176},
+																													pos: position{line: 783, col: 16, offset: 25177},
 																													run: (*parser).callonDocumentFragment558,
 																													expr: &seqExpr{
-																														pos: position{line: 783, col: 16, offset: 25176},
+																														pos: position{line: 783, col: 16, offset: 25177},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 783, col: 16, offset: 25176},
+																																pos:        position{line: 783, col: 16, offset: 25177},
 																																val:        "....",
 																																ignoreCase: false,
 																																want:       "\"....\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 783, col: 23, offset: 25183},
+																																pos: position{line: 783, col: 23, offset: 25184},
 																																expr: &litMatcher{
-																																	pos:        position{line: 783, col: 23, offset: 25183},
+																																	pos:        position{line: 783, col: 23, offset: 25184},
 																																	val:        ".",
 																																	ignoreCase: false,
 																																	want:       "\".\"",
@@ -6744,12 +6744,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 785, col: 8, offset: 25267},
+																												pos: position{line: 785, col: 8, offset: 25268},
 																												expr: &actionExpr{
-																													pos: position{line: 2876, col: 10, offset: 90951},
+																													pos: position{line: 2876, col: 10, offset: 90952},
 																													run: (*parser).callonDocumentFragment564,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2876, col: 10, offset: 90951},
+																														pos:        position{line: 2876, col: 10, offset: 90952},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6758,28 +6758,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2898, col: 8, offset: 91349},
+																												pos: position{line: 2898, col: 8, offset: 91350},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2885, col: 12, offset: 91122},
+																														pos: position{line: 2885, col: 12, offset: 91123},
 																														run: (*parser).callonDocumentFragment567,
 																														expr: &choiceExpr{
-																															pos: position{line: 2885, col: 13, offset: 91123},
+																															pos: position{line: 2885, col: 13, offset: 91124},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 13, offset: 91123},
+																																	pos:        position{line: 2885, col: 13, offset: 91124},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 20, offset: 91130},
+																																	pos:        position{line: 2885, col: 20, offset: 91131},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 29, offset: 91139},
+																																	pos:        position{line: 2885, col: 29, offset: 91140},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6788,9 +6788,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2895, col: 8, offset: 91299},
+																														pos: position{line: 2895, col: 8, offset: 91300},
 																														expr: &anyMatcher{
-																															line: 2895, col: 9, offset: 91300,
+																															line: 2895, col: 9, offset: 91301,
 																														},
 																													},
 																												},
@@ -6800,45 +6800,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 937, col: 5, offset: 29432},
+																								pos: position{line: 937, col: 5, offset: 29433},
 																								run: (*parser).callonDocumentFragment574,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91299},
+																						pos: position{line: 2895, col: 8, offset: 91300},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91300,
+																							line: 2895, col: 9, offset: 91301,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 944, col: 5, offset: 29590},
+																			pos:   position{line: 944, col: 5, offset: 29591},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26161},
+																				pos: position{line: 811, col: 5, offset: 26162},
 																				run: (*parser).callonDocumentFragment578,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26161},
+																					pos: position{line: 811, col: 5, offset: 26162},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2893, col: 11, offset: 91285},
+																							pos: position{line: 2893, col: 11, offset: 91286},
 																							expr: &anyMatcher{
-																								line: 2893, col: 13, offset: 91287,
+																								line: 2893, col: 13, offset: 91288,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26236},
+																							pos:   position{line: 812, col: 5, offset: 26237},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2822, col: 13, offset: 89477},
+																								pos: position{line: 2822, col: 13, offset: 89478},
 																								run: (*parser).callonDocumentFragment583,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2822, col: 13, offset: 89477},
+																									pos: position{line: 2822, col: 13, offset: 89478},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2822, col: 13, offset: 89477},
+																										pos:        position{line: 2822, col: 13, offset: 89478},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6848,28 +6848,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91349},
+																							pos: position{line: 2898, col: 8, offset: 91350},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91122},
+																									pos: position{line: 2885, col: 12, offset: 91123},
 																									run: (*parser).callonDocumentFragment587,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91123},
+																										pos: position{line: 2885, col: 13, offset: 91124},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91123},
+																												pos:        position{line: 2885, col: 13, offset: 91124},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91130},
+																												pos:        position{line: 2885, col: 20, offset: 91131},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91139},
+																												pos:        position{line: 2885, col: 29, offset: 91140},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6878,9 +6878,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91299},
+																									pos: position{line: 2895, col: 8, offset: 91300},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91300,
+																										line: 2895, col: 9, offset: 91301,
 																									},
 																								},
 																							},
@@ -6895,44 +6895,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 929, col: 5, offset: 29195},
+														pos:   position{line: 929, col: 5, offset: 29196},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 929, col: 9, offset: 29199},
+															pos: position{line: 929, col: 9, offset: 29200},
 															expr: &choiceExpr{
-																pos: position{line: 936, col: 5, offset: 29401},
+																pos: position{line: 936, col: 5, offset: 29402},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 936, col: 5, offset: 29401},
+																		pos: position{line: 936, col: 5, offset: 29402},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 936, col: 5, offset: 29401},
+																				pos:   position{line: 936, col: 5, offset: 29402},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 783, col: 5, offset: 25165},
+																					pos: position{line: 783, col: 5, offset: 25166},
 																					run: (*parser).callonDocumentFragment599,
 																					expr: &seqExpr{
-																						pos: position{line: 783, col: 5, offset: 25165},
+																						pos: position{line: 783, col: 5, offset: 25166},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 783, col: 5, offset: 25165},
+																								pos:   position{line: 783, col: 5, offset: 25166},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 783, col: 16, offset: 25176},
+																									pos: position{line: 783, col: 16, offset: 25177},
 																									run: (*parser).callonDocumentFragment602,
 																									expr: &seqExpr{
-																										pos: position{line: 783, col: 16, offset: 25176},
+																										pos: position{line: 783, col: 16, offset: 25177},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 783, col: 16, offset: 25176},
+																												pos:        position{line: 783, col: 16, offset: 25177},
 																												val:        "....",
 																												ignoreCase: false,
 																												want:       "\"....\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 783, col: 23, offset: 25183},
+																												pos: position{line: 783, col: 23, offset: 25184},
 																												expr: &litMatcher{
-																													pos:        position{line: 783, col: 23, offset: 25183},
+																													pos:        position{line: 783, col: 23, offset: 25184},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -6943,12 +6943,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 785, col: 8, offset: 25267},
+																								pos: position{line: 785, col: 8, offset: 25268},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 90951},
+																									pos: position{line: 2876, col: 10, offset: 90952},
 																									run: (*parser).callonDocumentFragment608,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 90951},
+																										pos:        position{line: 2876, col: 10, offset: 90952},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6957,28 +6957,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2898, col: 8, offset: 91349},
+																								pos: position{line: 2898, col: 8, offset: 91350},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2885, col: 12, offset: 91122},
+																										pos: position{line: 2885, col: 12, offset: 91123},
 																										run: (*parser).callonDocumentFragment611,
 																										expr: &choiceExpr{
-																											pos: position{line: 2885, col: 13, offset: 91123},
+																											pos: position{line: 2885, col: 13, offset: 91124},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 13, offset: 91123},
+																													pos:        position{line: 2885, col: 13, offset: 91124},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 20, offset: 91130},
+																													pos:        position{line: 2885, col: 20, offset: 91131},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 29, offset: 91139},
+																													pos:        position{line: 2885, col: 29, offset: 91140},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6987,9 +6987,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2895, col: 8, offset: 91299},
+																										pos: position{line: 2895, col: 8, offset: 91300},
 																										expr: &anyMatcher{
-																											line: 2895, col: 9, offset: 91300,
+																											line: 2895, col: 9, offset: 91301,
 																										},
 																									},
 																								},
@@ -6999,15 +6999,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 937, col: 5, offset: 29432},
+																				pos: position{line: 937, col: 5, offset: 29433},
 																				run: (*parser).callonDocumentFragment618,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91299},
+																		pos: position{line: 2895, col: 8, offset: 91300},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91300,
+																			line: 2895, col: 9, offset: 91301,
 																		},
 																	},
 																},
@@ -7018,41 +7018,41 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 975, col: 5, offset: 30473},
+											pos: position{line: 975, col: 5, offset: 30474},
 											run: (*parser).callonDocumentFragment621,
 											expr: &seqExpr{
-												pos: position{line: 975, col: 5, offset: 30473},
+												pos: position{line: 975, col: 5, offset: 30474},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 975, col: 5, offset: 30473},
+														pos:   position{line: 975, col: 5, offset: 30474},
 														label: "firstLine",
 														expr: &actionExpr{
-															pos: position{line: 982, col: 5, offset: 30732},
+															pos: position{line: 982, col: 5, offset: 30733},
 															run: (*parser).callonDocumentFragment624,
 															expr: &seqExpr{
-																pos: position{line: 982, col: 5, offset: 30732},
+																pos: position{line: 982, col: 5, offset: 30733},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 982, col: 5, offset: 30732},
+																		pos: position{line: 982, col: 5, offset: 30733},
 																		expr: &actionExpr{
-																			pos: position{line: 677, col: 14, offset: 21557},
+																			pos: position{line: 677, col: 14, offset: 21558},
 																			run: (*parser).callonDocumentFragment627,
 																			expr: &seqExpr{
-																				pos: position{line: 677, col: 14, offset: 21557},
+																				pos: position{line: 677, col: 14, offset: 21558},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2893, col: 11, offset: 91285},
+																						pos: position{line: 2893, col: 11, offset: 91286},
 																						expr: &anyMatcher{
-																							line: 2893, col: 13, offset: 91287,
+																							line: 2893, col: 13, offset: 91288,
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 677, col: 21, offset: 21564},
+																						pos: position{line: 677, col: 21, offset: 21565},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 90951},
+																							pos: position{line: 2876, col: 10, offset: 90952},
 																							run: (*parser).callonDocumentFragment632,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 90951},
+																								pos:        position{line: 2876, col: 10, offset: 90952},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -7061,28 +7061,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91349},
+																						pos: position{line: 2898, col: 8, offset: 91350},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91122},
+																								pos: position{line: 2885, col: 12, offset: 91123},
 																								run: (*parser).callonDocumentFragment635,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91123},
+																									pos: position{line: 2885, col: 13, offset: 91124},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91123},
+																											pos:        position{line: 2885, col: 13, offset: 91124},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91130},
+																											pos:        position{line: 2885, col: 20, offset: 91131},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91139},
+																											pos:        position{line: 2885, col: 29, offset: 91140},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -7091,9 +7091,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91299},
+																								pos: position{line: 2895, col: 8, offset: 91300},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91300,
+																									line: 2895, col: 9, offset: 91301,
 																								},
 																							},
 																						},
@@ -7103,21 +7103,21 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 983, col: 5, offset: 30747},
+																		pos:        position{line: 983, col: 5, offset: 30748},
 																		val:        "> ",
 																		ignoreCase: false,
 																		want:       "\"> \"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 984, col: 5, offset: 30757},
+																		pos:   position{line: 984, col: 5, offset: 30758},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2826, col: 14, offset: 89544},
+																			pos: position{line: 2826, col: 14, offset: 89545},
 																			run: (*parser).callonDocumentFragment644,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2826, col: 14, offset: 89544},
+																				pos: position{line: 2826, col: 14, offset: 89545},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2826, col: 14, offset: 89544},
+																					pos:        position{line: 2826, col: 14, offset: 89545},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -7127,28 +7127,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91349},
+																		pos: position{line: 2898, col: 8, offset: 91350},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91122},
+																				pos: position{line: 2885, col: 12, offset: 91123},
 																				run: (*parser).callonDocumentFragment648,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91123},
+																					pos: position{line: 2885, col: 13, offset: 91124},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91123},
+																							pos:        position{line: 2885, col: 13, offset: 91124},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91130},
+																							pos:        position{line: 2885, col: 20, offset: 91131},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91139},
+																							pos:        position{line: 2885, col: 29, offset: 91140},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7157,9 +7157,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91299},
+																				pos: position{line: 2895, col: 8, offset: 91300},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91300,
+																					line: 2895, col: 9, offset: 91301,
 																				},
 																			},
 																		},
@@ -7169,40 +7169,40 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 976, col: 5, offset: 30510},
+														pos:   position{line: 976, col: 5, offset: 30511},
 														label: "otherLines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 976, col: 16, offset: 30521},
+															pos: position{line: 976, col: 16, offset: 30522},
 															expr: &choiceExpr{
-																pos: position{line: 976, col: 17, offset: 30522},
+																pos: position{line: 976, col: 17, offset: 30523},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 982, col: 5, offset: 30732},
+																		pos: position{line: 982, col: 5, offset: 30733},
 																		run: (*parser).callonDocumentFragment658,
 																		expr: &seqExpr{
-																			pos: position{line: 982, col: 5, offset: 30732},
+																			pos: position{line: 982, col: 5, offset: 30733},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 982, col: 5, offset: 30732},
+																					pos: position{line: 982, col: 5, offset: 30733},
 																					expr: &actionExpr{
-																						pos: position{line: 677, col: 14, offset: 21557},
+																						pos: position{line: 677, col: 14, offset: 21558},
 																						run: (*parser).callonDocumentFragment661,
 																						expr: &seqExpr{
-																							pos: position{line: 677, col: 14, offset: 21557},
+																							pos: position{line: 677, col: 14, offset: 21558},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2893, col: 11, offset: 91285},
+																									pos: position{line: 2893, col: 11, offset: 91286},
 																									expr: &anyMatcher{
-																										line: 2893, col: 13, offset: 91287,
+																										line: 2893, col: 13, offset: 91288,
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 677, col: 21, offset: 21564},
+																									pos: position{line: 677, col: 21, offset: 21565},
 																									expr: &actionExpr{
-																										pos: position{line: 2876, col: 10, offset: 90951},
+																										pos: position{line: 2876, col: 10, offset: 90952},
 																										run: (*parser).callonDocumentFragment666,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2876, col: 10, offset: 90951},
+																											pos:        position{line: 2876, col: 10, offset: 90952},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7211,28 +7211,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2898, col: 8, offset: 91349},
+																									pos: position{line: 2898, col: 8, offset: 91350},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2885, col: 12, offset: 91122},
+																											pos: position{line: 2885, col: 12, offset: 91123},
 																											run: (*parser).callonDocumentFragment669,
 																											expr: &choiceExpr{
-																												pos: position{line: 2885, col: 13, offset: 91123},
+																												pos: position{line: 2885, col: 13, offset: 91124},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 13, offset: 91123},
+																														pos:        position{line: 2885, col: 13, offset: 91124},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 20, offset: 91130},
+																														pos:        position{line: 2885, col: 20, offset: 91131},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 29, offset: 91139},
+																														pos:        position{line: 2885, col: 29, offset: 91140},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7241,9 +7241,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2895, col: 8, offset: 91299},
+																											pos: position{line: 2895, col: 8, offset: 91300},
 																											expr: &anyMatcher{
-																												line: 2895, col: 9, offset: 91300,
+																												line: 2895, col: 9, offset: 91301,
 																											},
 																										},
 																									},
@@ -7253,21 +7253,21 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 983, col: 5, offset: 30747},
+																					pos:        position{line: 983, col: 5, offset: 30748},
 																					val:        "> ",
 																					ignoreCase: false,
 																					want:       "\"> \"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 984, col: 5, offset: 30757},
+																					pos:   position{line: 984, col: 5, offset: 30758},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2826, col: 14, offset: 89544},
+																						pos: position{line: 2826, col: 14, offset: 89545},
 																						run: (*parser).callonDocumentFragment678,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2826, col: 14, offset: 89544},
+																							pos: position{line: 2826, col: 14, offset: 89545},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2826, col: 14, offset: 89544},
+																								pos:        position{line: 2826, col: 14, offset: 89545},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7277,28 +7277,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2898, col: 8, offset: 91349},
+																					pos: position{line: 2898, col: 8, offset: 91350},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2885, col: 12, offset: 91122},
+																							pos: position{line: 2885, col: 12, offset: 91123},
 																							run: (*parser).callonDocumentFragment682,
 																							expr: &choiceExpr{
-																								pos: position{line: 2885, col: 13, offset: 91123},
+																								pos: position{line: 2885, col: 13, offset: 91124},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 13, offset: 91123},
+																										pos:        position{line: 2885, col: 13, offset: 91124},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 20, offset: 91130},
+																										pos:        position{line: 2885, col: 20, offset: 91131},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 29, offset: 91139},
+																										pos:        position{line: 2885, col: 29, offset: 91140},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7307,9 +7307,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2895, col: 8, offset: 91299},
+																							pos: position{line: 2895, col: 8, offset: 91300},
 																							expr: &anyMatcher{
-																								line: 2895, col: 9, offset: 91300,
+																								line: 2895, col: 9, offset: 91301,
 																							},
 																						},
 																					},
@@ -7318,21 +7318,21 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 1795, col: 5, offset: 58046},
+																		pos: position{line: 1795, col: 5, offset: 58047},
 																		run: (*parser).callonDocumentFragment689,
 																		expr: &seqExpr{
-																			pos: position{line: 1795, col: 5, offset: 58046},
+																			pos: position{line: 1795, col: 5, offset: 58047},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1795, col: 5, offset: 58046},
+																					pos:   position{line: 1795, col: 5, offset: 58047},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2826, col: 14, offset: 89544},
+																						pos: position{line: 2826, col: 14, offset: 89545},
 																						run: (*parser).callonDocumentFragment692,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2826, col: 14, offset: 89544},
+																							pos: position{line: 2826, col: 14, offset: 89545},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2826, col: 14, offset: 89544},
+																								pos:        position{line: 2826, col: 14, offset: 89545},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7342,32 +7342,32 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1796, col: 5, offset: 58070},
+																					pos: position{line: 1796, col: 5, offset: 58071},
 																					run: (*parser).callonDocumentFragment695,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2898, col: 8, offset: 91349},
+																					pos: position{line: 2898, col: 8, offset: 91350},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2885, col: 12, offset: 91122},
+																							pos: position{line: 2885, col: 12, offset: 91123},
 																							run: (*parser).callonDocumentFragment697,
 																							expr: &choiceExpr{
-																								pos: position{line: 2885, col: 13, offset: 91123},
+																								pos: position{line: 2885, col: 13, offset: 91124},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 13, offset: 91123},
+																										pos:        position{line: 2885, col: 13, offset: 91124},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 20, offset: 91130},
+																										pos:        position{line: 2885, col: 20, offset: 91131},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 29, offset: 91139},
+																										pos:        position{line: 2885, col: 29, offset: 91140},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7376,9 +7376,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2895, col: 8, offset: 91299},
+																							pos: position{line: 2895, col: 8, offset: 91300},
 																							expr: &anyMatcher{
-																								line: 2895, col: 9, offset: 91300,
+																								line: 2895, col: 9, offset: 91301,
 																							},
 																						},
 																					},
@@ -7394,28 +7394,28 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 997, col: 5, offset: 31022},
+											pos: position{line: 997, col: 5, offset: 31023},
 											run: (*parser).callonDocumentFragment704,
 											expr: &seqExpr{
-												pos: position{line: 997, col: 5, offset: 31022},
+												pos: position{line: 997, col: 5, offset: 31023},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 997, col: 5, offset: 31022},
+														pos:   position{line: 997, col: 5, offset: 31023},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 776, col: 5, offset: 24934},
+															pos: position{line: 776, col: 5, offset: 24935},
 															run: (*parser).callonDocumentFragment707,
 															expr: &seqExpr{
-																pos: position{line: 776, col: 5, offset: 24934},
+																pos: position{line: 776, col: 5, offset: 24935},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 776, col: 5, offset: 24934},
+																		pos:   position{line: 776, col: 5, offset: 24935},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 776, col: 16, offset: 24945},
+																			pos: position{line: 776, col: 16, offset: 24946},
 																			run: (*parser).callonDocumentFragment710,
 																			expr: &litMatcher{
-																				pos:        position{line: 776, col: 16, offset: 24945},
+																				pos:        position{line: 776, col: 16, offset: 24946},
 																				val:        "--",
 																				ignoreCase: false,
 																				want:       "\"--\"",
@@ -7423,12 +7423,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 778, col: 8, offset: 25022},
+																		pos: position{line: 778, col: 8, offset: 25023},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 90951},
+																			pos: position{line: 2876, col: 10, offset: 90952},
 																			run: (*parser).callonDocumentFragment713,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 90951},
+																				pos:        position{line: 2876, col: 10, offset: 90952},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7437,28 +7437,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91349},
+																		pos: position{line: 2898, col: 8, offset: 91350},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91122},
+																				pos: position{line: 2885, col: 12, offset: 91123},
 																				run: (*parser).callonDocumentFragment716,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91123},
+																					pos: position{line: 2885, col: 13, offset: 91124},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91123},
+																							pos:        position{line: 2885, col: 13, offset: 91124},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91130},
+																							pos:        position{line: 2885, col: 20, offset: 91131},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91139},
+																							pos:        position{line: 2885, col: 29, offset: 91140},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7467,9 +7467,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91299},
+																				pos: position{line: 2895, col: 8, offset: 91300},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91300,
+																					line: 2895, col: 9, offset: 91301,
 																				},
 																			},
 																		},
@@ -7479,35 +7479,35 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 998, col: 5, offset: 31058},
+														pos:   position{line: 998, col: 5, offset: 31059},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1008, col: 5, offset: 31326},
+															pos: position{line: 1008, col: 5, offset: 31327},
 															expr: &actionExpr{
-																pos: position{line: 1008, col: 6, offset: 31327},
+																pos: position{line: 1008, col: 6, offset: 31328},
 																run: (*parser).callonDocumentFragment725,
 																expr: &seqExpr{
-																	pos: position{line: 1008, col: 6, offset: 31327},
+																	pos: position{line: 1008, col: 6, offset: 31328},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1008, col: 6, offset: 31327},
+																			pos: position{line: 1008, col: 6, offset: 31328},
 																			expr: &choiceExpr{
-																				pos: position{line: 1005, col: 26, offset: 31275},
+																				pos: position{line: 1005, col: 26, offset: 31276},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 776, col: 5, offset: 24934},
+																						pos: position{line: 776, col: 5, offset: 24935},
 																						run: (*parser).callonDocumentFragment729,
 																						expr: &seqExpr{
-																							pos: position{line: 776, col: 5, offset: 24934},
+																							pos: position{line: 776, col: 5, offset: 24935},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 776, col: 5, offset: 24934},
+																									pos:   position{line: 776, col: 5, offset: 24935},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 776, col: 16, offset: 24945},
+																										pos: position{line: 776, col: 16, offset: 24946},
 																										run: (*parser).callonDocumentFragment732,
 																										expr: &litMatcher{
-																											pos:        position{line: 776, col: 16, offset: 24945},
+																											pos:        position{line: 776, col: 16, offset: 24946},
 																											val:        "--",
 																											ignoreCase: false,
 																											want:       "\"--\"",
@@ -7515,12 +7515,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 778, col: 8, offset: 25022},
+																									pos: position{line: 778, col: 8, offset: 25023},
 																									expr: &actionExpr{
-																										pos: position{line: 2876, col: 10, offset: 90951},
+																										pos: position{line: 2876, col: 10, offset: 90952},
 																										run: (*parser).callonDocumentFragment735,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2876, col: 10, offset: 90951},
+																											pos:        position{line: 2876, col: 10, offset: 90952},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7529,28 +7529,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2898, col: 8, offset: 91349},
+																									pos: position{line: 2898, col: 8, offset: 91350},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2885, col: 12, offset: 91122},
+																											pos: position{line: 2885, col: 12, offset: 91123},
 																											run: (*parser).callonDocumentFragment738,
 																											expr: &choiceExpr{
-																												pos: position{line: 2885, col: 13, offset: 91123},
+																												pos: position{line: 2885, col: 13, offset: 91124},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 13, offset: 91123},
+																														pos:        position{line: 2885, col: 13, offset: 91124},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 20, offset: 91130},
+																														pos:        position{line: 2885, col: 20, offset: 91131},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 29, offset: 91139},
+																														pos:        position{line: 2885, col: 29, offset: 91140},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7559,9 +7559,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2895, col: 8, offset: 91299},
+																											pos: position{line: 2895, col: 8, offset: 91300},
 																											expr: &anyMatcher{
-																												line: 2895, col: 9, offset: 91300,
+																												line: 2895, col: 9, offset: 91301,
 																											},
 																										},
 																									},
@@ -7570,39 +7570,39 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91299},
+																						pos: position{line: 2895, col: 8, offset: 91300},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91300,
+																							line: 2895, col: 9, offset: 91301,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1009, col: 5, offset: 31354},
+																			pos:   position{line: 1009, col: 5, offset: 31355},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26161},
+																				pos: position{line: 811, col: 5, offset: 26162},
 																				run: (*parser).callonDocumentFragment748,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26161},
+																					pos: position{line: 811, col: 5, offset: 26162},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2893, col: 11, offset: 91285},
+																							pos: position{line: 2893, col: 11, offset: 91286},
 																							expr: &anyMatcher{
-																								line: 2893, col: 13, offset: 91287,
+																								line: 2893, col: 13, offset: 91288,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26236},
+																							pos:   position{line: 812, col: 5, offset: 26237},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2822, col: 13, offset: 89477},
+																								pos: position{line: 2822, col: 13, offset: 89478},
 																								run: (*parser).callonDocumentFragment753,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2822, col: 13, offset: 89477},
+																									pos: position{line: 2822, col: 13, offset: 89478},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2822, col: 13, offset: 89477},
+																										pos:        position{line: 2822, col: 13, offset: 89478},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7612,28 +7612,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91349},
+																							pos: position{line: 2898, col: 8, offset: 91350},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91122},
+																									pos: position{line: 2885, col: 12, offset: 91123},
 																									run: (*parser).callonDocumentFragment757,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91123},
+																										pos: position{line: 2885, col: 13, offset: 91124},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91123},
+																												pos:        position{line: 2885, col: 13, offset: 91124},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91130},
+																												pos:        position{line: 2885, col: 20, offset: 91131},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91139},
+																												pos:        position{line: 2885, col: 29, offset: 91140},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7642,9 +7642,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91299},
+																									pos: position{line: 2895, col: 8, offset: 91300},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91300,
+																										line: 2895, col: 9, offset: 91301,
 																									},
 																								},
 																							},
@@ -7659,27 +7659,27 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 999, col: 5, offset: 31089},
+														pos:   position{line: 999, col: 5, offset: 31090},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 999, col: 9, offset: 31093},
+															pos: position{line: 999, col: 9, offset: 31094},
 															expr: &choiceExpr{
-																pos: position{line: 1005, col: 26, offset: 31275},
+																pos: position{line: 1005, col: 26, offset: 31276},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 776, col: 5, offset: 24934},
+																		pos: position{line: 776, col: 5, offset: 24935},
 																		run: (*parser).callonDocumentFragment767,
 																		expr: &seqExpr{
-																			pos: position{line: 776, col: 5, offset: 24934},
+																			pos: position{line: 776, col: 5, offset: 24935},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 776, col: 5, offset: 24934},
+																					pos:   position{line: 776, col: 5, offset: 24935},
 																					label: "delimiter",
 																					expr: &actionExpr{
-																						pos: position{line: 776, col: 16, offset: 24945},
+																						pos: position{line: 776, col: 16, offset: 24946},
 																						run: (*parser).callonDocumentFragment770,
 																						expr: &litMatcher{
-																							pos:        position{line: 776, col: 16, offset: 24945},
+																							pos:        position{line: 776, col: 16, offset: 24946},
 																							val:        "--",
 																							ignoreCase: false,
 																							want:       "\"--\"",
@@ -7687,12 +7687,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 778, col: 8, offset: 25022},
+																					pos: position{line: 778, col: 8, offset: 25023},
 																					expr: &actionExpr{
-																						pos: position{line: 2876, col: 10, offset: 90951},
+																						pos: position{line: 2876, col: 10, offset: 90952},
 																						run: (*parser).callonDocumentFragment773,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2876, col: 10, offset: 90951},
+																							pos:        position{line: 2876, col: 10, offset: 90952},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7701,28 +7701,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2898, col: 8, offset: 91349},
+																					pos: position{line: 2898, col: 8, offset: 91350},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2885, col: 12, offset: 91122},
+																							pos: position{line: 2885, col: 12, offset: 91123},
 																							run: (*parser).callonDocumentFragment776,
 																							expr: &choiceExpr{
-																								pos: position{line: 2885, col: 13, offset: 91123},
+																								pos: position{line: 2885, col: 13, offset: 91124},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 13, offset: 91123},
+																										pos:        position{line: 2885, col: 13, offset: 91124},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 20, offset: 91130},
+																										pos:        position{line: 2885, col: 20, offset: 91131},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 29, offset: 91139},
+																										pos:        position{line: 2885, col: 29, offset: 91140},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7731,9 +7731,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2895, col: 8, offset: 91299},
+																							pos: position{line: 2895, col: 8, offset: 91300},
 																							expr: &anyMatcher{
-																								line: 2895, col: 9, offset: 91300,
+																								line: 2895, col: 9, offset: 91301,
 																							},
 																						},
 																					},
@@ -7742,9 +7742,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91299},
+																		pos: position{line: 2895, col: 8, offset: 91300},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91300,
+																			line: 2895, col: 9, offset: 91301,
 																		},
 																	},
 																},
@@ -7755,39 +7755,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1017, col: 5, offset: 31517},
+											pos: position{line: 1017, col: 5, offset: 31518},
 											run: (*parser).callonDocumentFragment785,
 											expr: &seqExpr{
-												pos: position{line: 1017, col: 5, offset: 31517},
+												pos: position{line: 1017, col: 5, offset: 31518},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1017, col: 5, offset: 31517},
+														pos:   position{line: 1017, col: 5, offset: 31518},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 790, col: 5, offset: 25417},
+															pos: position{line: 790, col: 5, offset: 25418},
 															run: (*parser).callonDocumentFragment788,
 															expr: &seqExpr{
-																pos: position{line: 790, col: 5, offset: 25417},
+																pos: position{line: 790, col: 5, offset: 25418},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 790, col: 5, offset: 25417},
+																		pos:   position{line: 790, col: 5, offset: 25418},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 790, col: 16, offset: 25428},
+																			pos: position{line: 790, col: 16, offset: 25429},
 																			run: (*parser).callonDocumentFragment791,
 																			expr: &seqExpr{
-																				pos: position{line: 790, col: 16, offset: 25428},
+																				pos: position{line: 790, col: 16, offset: 25429},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 790, col: 16, offset: 25428},
+																						pos:        position{line: 790, col: 16, offset: 25429},
 																						val:        "++++",
 																						ignoreCase: false,
 																						want:       "\"++++\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 790, col: 23, offset: 25435},
+																						pos: position{line: 790, col: 23, offset: 25436},
 																						expr: &litMatcher{
-																							pos:        position{line: 790, col: 23, offset: 25435},
+																							pos:        position{line: 790, col: 23, offset: 25436},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
@@ -7798,12 +7798,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 792, col: 8, offset: 25519},
+																		pos: position{line: 792, col: 8, offset: 25520},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 90951},
+																			pos: position{line: 2876, col: 10, offset: 90952},
 																			run: (*parser).callonDocumentFragment797,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 90951},
+																				pos:        position{line: 2876, col: 10, offset: 90952},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7812,28 +7812,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91349},
+																		pos: position{line: 2898, col: 8, offset: 91350},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91122},
+																				pos: position{line: 2885, col: 12, offset: 91123},
 																				run: (*parser).callonDocumentFragment800,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91123},
+																					pos: position{line: 2885, col: 13, offset: 91124},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91123},
+																							pos:        position{line: 2885, col: 13, offset: 91124},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91130},
+																							pos:        position{line: 2885, col: 20, offset: 91131},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91139},
+																							pos:        position{line: 2885, col: 29, offset: 91140},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7842,9 +7842,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91299},
+																				pos: position{line: 2895, col: 8, offset: 91300},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91300,
+																					line: 2895, col: 9, offset: 91301,
 																				},
 																			},
 																		},
@@ -7854,56 +7854,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1018, col: 5, offset: 31560},
+														pos: position{line: 1018, col: 5, offset: 31561},
 														run: (*parser).callonDocumentFragment807,
 													},
 													&labeledExpr{
-														pos:   position{line: 1021, col: 5, offset: 31652},
+														pos:   position{line: 1021, col: 5, offset: 31653},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1036, col: 5, offset: 32082},
+															pos: position{line: 1036, col: 5, offset: 32083},
 															expr: &actionExpr{
-																pos: position{line: 1036, col: 6, offset: 32083},
+																pos: position{line: 1036, col: 6, offset: 32084},
 																run: (*parser).callonDocumentFragment810,
 																expr: &seqExpr{
-																	pos: position{line: 1036, col: 6, offset: 32083},
+																	pos: position{line: 1036, col: 6, offset: 32084},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1036, col: 6, offset: 32083},
+																			pos: position{line: 1036, col: 6, offset: 32084},
 																			expr: &choiceExpr{
-																				pos: position{line: 1029, col: 5, offset: 31916},
+																				pos: position{line: 1029, col: 5, offset: 31917},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1029, col: 5, offset: 31916},
+																						pos: position{line: 1029, col: 5, offset: 31917},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1029, col: 5, offset: 31916},
+																								pos:   position{line: 1029, col: 5, offset: 31917},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 790, col: 5, offset: 25417},
+																									pos: position{line: 790, col: 5, offset: 25418},
 																									run: (*parser).callonDocumentFragment816,
 																									expr: &seqExpr{
-																										pos: position{line: 790, col: 5, offset: 25417},
+																										pos: position{line: 790, col: 5, offset: 25418},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 790, col: 5, offset: 25417},
+																												pos:   position{line: 790, col: 5, offset: 25418},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 790, col: 16, offset: 25428},
+																													pos: position{line: 790, col: 16, offset: 25429},
 																													run: (*parser).callonDocumentFragment819,
 																													expr: &seqExpr{
-																														pos: position{line: 790, col: 16, offset: 25428},
+																														pos: position{line: 790, col: 16, offset: 25429},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 790, col: 16, offset: 25428},
+																																pos:        position{line: 790, col: 16, offset: 25429},
 																																val:        "++++",
 																																ignoreCase: false,
 																																want:       "\"++++\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 790, col: 23, offset: 25435},
+																																pos: position{line: 790, col: 23, offset: 25436},
 																																expr: &litMatcher{
-																																	pos:        position{line: 790, col: 23, offset: 25435},
+																																	pos:        position{line: 790, col: 23, offset: 25436},
 																																	val:        "+",
 																																	ignoreCase: false,
 																																	want:       "\"+\"",
@@ -7914,12 +7914,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 792, col: 8, offset: 25519},
+																												pos: position{line: 792, col: 8, offset: 25520},
 																												expr: &actionExpr{
-																													pos: position{line: 2876, col: 10, offset: 90951},
+																													pos: position{line: 2876, col: 10, offset: 90952},
 																													run: (*parser).callonDocumentFragment825,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2876, col: 10, offset: 90951},
+																														pos:        position{line: 2876, col: 10, offset: 90952},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7928,28 +7928,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2898, col: 8, offset: 91349},
+																												pos: position{line: 2898, col: 8, offset: 91350},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2885, col: 12, offset: 91122},
+																														pos: position{line: 2885, col: 12, offset: 91123},
 																														run: (*parser).callonDocumentFragment828,
 																														expr: &choiceExpr{
-																															pos: position{line: 2885, col: 13, offset: 91123},
+																															pos: position{line: 2885, col: 13, offset: 91124},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 13, offset: 91123},
+																																	pos:        position{line: 2885, col: 13, offset: 91124},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 20, offset: 91130},
+																																	pos:        position{line: 2885, col: 20, offset: 91131},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 29, offset: 91139},
+																																	pos:        position{line: 2885, col: 29, offset: 91140},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7958,9 +7958,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2895, col: 8, offset: 91299},
+																														pos: position{line: 2895, col: 8, offset: 91300},
 																														expr: &anyMatcher{
-																															line: 2895, col: 9, offset: 91300,
+																															line: 2895, col: 9, offset: 91301,
 																														},
 																													},
 																												},
@@ -7970,45 +7970,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1030, col: 5, offset: 31951},
+																								pos: position{line: 1030, col: 5, offset: 31952},
 																								run: (*parser).callonDocumentFragment835,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91299},
+																						pos: position{line: 2895, col: 8, offset: 91300},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91300,
+																							line: 2895, col: 9, offset: 91301,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1037, col: 5, offset: 32117},
+																			pos:   position{line: 1037, col: 5, offset: 32118},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26161},
+																				pos: position{line: 811, col: 5, offset: 26162},
 																				run: (*parser).callonDocumentFragment839,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26161},
+																					pos: position{line: 811, col: 5, offset: 26162},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2893, col: 11, offset: 91285},
+																							pos: position{line: 2893, col: 11, offset: 91286},
 																							expr: &anyMatcher{
-																								line: 2893, col: 13, offset: 91287,
+																								line: 2893, col: 13, offset: 91288,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26236},
+																							pos:   position{line: 812, col: 5, offset: 26237},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2822, col: 13, offset: 89477},
+																								pos: position{line: 2822, col: 13, offset: 89478},
 																								run: (*parser).callonDocumentFragment844,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2822, col: 13, offset: 89477},
+																									pos: position{line: 2822, col: 13, offset: 89478},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2822, col: 13, offset: 89477},
+																										pos:        position{line: 2822, col: 13, offset: 89478},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8018,28 +8018,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91349},
+																							pos: position{line: 2898, col: 8, offset: 91350},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91122},
+																									pos: position{line: 2885, col: 12, offset: 91123},
 																									run: (*parser).callonDocumentFragment848,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91123},
+																										pos: position{line: 2885, col: 13, offset: 91124},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91123},
+																												pos:        position{line: 2885, col: 13, offset: 91124},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91130},
+																												pos:        position{line: 2885, col: 20, offset: 91131},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91139},
+																												pos:        position{line: 2885, col: 29, offset: 91140},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8048,9 +8048,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91299},
+																									pos: position{line: 2895, col: 8, offset: 91300},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91300,
+																										line: 2895, col: 9, offset: 91301,
 																									},
 																								},
 																							},
@@ -8065,44 +8065,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1022, col: 5, offset: 31690},
+														pos:   position{line: 1022, col: 5, offset: 31691},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1022, col: 9, offset: 31694},
+															pos: position{line: 1022, col: 9, offset: 31695},
 															expr: &choiceExpr{
-																pos: position{line: 1029, col: 5, offset: 31916},
+																pos: position{line: 1029, col: 5, offset: 31917},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1029, col: 5, offset: 31916},
+																		pos: position{line: 1029, col: 5, offset: 31917},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1029, col: 5, offset: 31916},
+																				pos:   position{line: 1029, col: 5, offset: 31917},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 790, col: 5, offset: 25417},
+																					pos: position{line: 790, col: 5, offset: 25418},
 																					run: (*parser).callonDocumentFragment860,
 																					expr: &seqExpr{
-																						pos: position{line: 790, col: 5, offset: 25417},
+																						pos: position{line: 790, col: 5, offset: 25418},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 790, col: 5, offset: 25417},
+																								pos:   position{line: 790, col: 5, offset: 25418},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 790, col: 16, offset: 25428},
+																									pos: position{line: 790, col: 16, offset: 25429},
 																									run: (*parser).callonDocumentFragment863,
 																									expr: &seqExpr{
-																										pos: position{line: 790, col: 16, offset: 25428},
+																										pos: position{line: 790, col: 16, offset: 25429},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 790, col: 16, offset: 25428},
+																												pos:        position{line: 790, col: 16, offset: 25429},
 																												val:        "++++",
 																												ignoreCase: false,
 																												want:       "\"++++\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 790, col: 23, offset: 25435},
+																												pos: position{line: 790, col: 23, offset: 25436},
 																												expr: &litMatcher{
-																													pos:        position{line: 790, col: 23, offset: 25435},
+																													pos:        position{line: 790, col: 23, offset: 25436},
 																													val:        "+",
 																													ignoreCase: false,
 																													want:       "\"+\"",
@@ -8113,12 +8113,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 792, col: 8, offset: 25519},
+																								pos: position{line: 792, col: 8, offset: 25520},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 90951},
+																									pos: position{line: 2876, col: 10, offset: 90952},
 																									run: (*parser).callonDocumentFragment869,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 90951},
+																										pos:        position{line: 2876, col: 10, offset: 90952},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8127,28 +8127,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2898, col: 8, offset: 91349},
+																								pos: position{line: 2898, col: 8, offset: 91350},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2885, col: 12, offset: 91122},
+																										pos: position{line: 2885, col: 12, offset: 91123},
 																										run: (*parser).callonDocumentFragment872,
 																										expr: &choiceExpr{
-																											pos: position{line: 2885, col: 13, offset: 91123},
+																											pos: position{line: 2885, col: 13, offset: 91124},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 13, offset: 91123},
+																													pos:        position{line: 2885, col: 13, offset: 91124},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 20, offset: 91130},
+																													pos:        position{line: 2885, col: 20, offset: 91131},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 29, offset: 91139},
+																													pos:        position{line: 2885, col: 29, offset: 91140},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8157,9 +8157,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2895, col: 8, offset: 91299},
+																										pos: position{line: 2895, col: 8, offset: 91300},
 																										expr: &anyMatcher{
-																											line: 2895, col: 9, offset: 91300,
+																											line: 2895, col: 9, offset: 91301,
 																										},
 																									},
 																								},
@@ -8169,15 +8169,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1030, col: 5, offset: 31951},
+																				pos: position{line: 1030, col: 5, offset: 31952},
 																				run: (*parser).callonDocumentFragment879,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91299},
+																		pos: position{line: 2895, col: 8, offset: 91300},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91300,
+																			line: 2895, col: 9, offset: 91301,
 																		},
 																	},
 																},
@@ -8188,39 +8188,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1045, col: 5, offset: 32268},
+											pos: position{line: 1045, col: 5, offset: 32269},
 											run: (*parser).callonDocumentFragment882,
 											expr: &seqExpr{
-												pos: position{line: 1045, col: 5, offset: 32268},
+												pos: position{line: 1045, col: 5, offset: 32269},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1045, col: 5, offset: 32268},
+														pos:   position{line: 1045, col: 5, offset: 32269},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 797, col: 5, offset: 25667},
+															pos: position{line: 797, col: 5, offset: 25668},
 															run: (*parser).callonDocumentFragment885,
 															expr: &seqExpr{
-																pos: position{line: 797, col: 5, offset: 25667},
+																pos: position{line: 797, col: 5, offset: 25668},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 797, col: 5, offset: 25667},
+																		pos:   position{line: 797, col: 5, offset: 25668},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 797, col: 16, offset: 25678},
+																			pos: position{line: 797, col: 16, offset: 25679},
 																			run: (*parser).callonDocumentFragment888,
 																			expr: &seqExpr{
-																				pos: position{line: 797, col: 16, offset: 25678},
+																				pos: position{line: 797, col: 16, offset: 25679},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 797, col: 16, offset: 25678},
+																						pos:        position{line: 797, col: 16, offset: 25679},
 																						val:        "____",
 																						ignoreCase: false,
 																						want:       "\"____\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 797, col: 23, offset: 25685},
+																						pos: position{line: 797, col: 23, offset: 25686},
 																						expr: &litMatcher{
-																							pos:        position{line: 797, col: 23, offset: 25685},
+																							pos:        position{line: 797, col: 23, offset: 25686},
 																							val:        "_",
 																							ignoreCase: false,
 																							want:       "\"_\"",
@@ -8231,12 +8231,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 799, col: 8, offset: 25769},
+																		pos: position{line: 799, col: 8, offset: 25770},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 90951},
+																			pos: position{line: 2876, col: 10, offset: 90952},
 																			run: (*parser).callonDocumentFragment894,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 90951},
+																				pos:        position{line: 2876, col: 10, offset: 90952},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8245,28 +8245,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91349},
+																		pos: position{line: 2898, col: 8, offset: 91350},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91122},
+																				pos: position{line: 2885, col: 12, offset: 91123},
 																				run: (*parser).callonDocumentFragment897,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91123},
+																					pos: position{line: 2885, col: 13, offset: 91124},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91123},
+																							pos:        position{line: 2885, col: 13, offset: 91124},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91130},
+																							pos:        position{line: 2885, col: 20, offset: 91131},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91139},
+																							pos:        position{line: 2885, col: 29, offset: 91140},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8275,9 +8275,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91299},
+																				pos: position{line: 2895, col: 8, offset: 91300},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91300,
+																					line: 2895, col: 9, offset: 91301,
 																				},
 																			},
 																		},
@@ -8287,56 +8287,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1046, col: 5, offset: 32305},
+														pos: position{line: 1046, col: 5, offset: 32306},
 														run: (*parser).callonDocumentFragment904,
 													},
 													&labeledExpr{
-														pos:   position{line: 1049, col: 5, offset: 32397},
+														pos:   position{line: 1049, col: 5, offset: 32398},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1064, col: 4, offset: 32778},
+															pos: position{line: 1064, col: 4, offset: 32779},
 															expr: &actionExpr{
-																pos: position{line: 1064, col: 5, offset: 32779},
+																pos: position{line: 1064, col: 5, offset: 32780},
 																run: (*parser).callonDocumentFragment907,
 																expr: &seqExpr{
-																	pos: position{line: 1064, col: 5, offset: 32779},
+																	pos: position{line: 1064, col: 5, offset: 32780},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1064, col: 5, offset: 32779},
+																			pos: position{line: 1064, col: 5, offset: 32780},
 																			expr: &choiceExpr{
-																				pos: position{line: 1057, col: 5, offset: 32625},
+																				pos: position{line: 1057, col: 5, offset: 32626},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1057, col: 5, offset: 32625},
+																						pos: position{line: 1057, col: 5, offset: 32626},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1057, col: 5, offset: 32625},
+																								pos:   position{line: 1057, col: 5, offset: 32626},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 797, col: 5, offset: 25667},
+																									pos: position{line: 797, col: 5, offset: 25668},
 																									run: (*parser).callonDocumentFragment913,
 																									expr: &seqExpr{
-																										pos: position{line: 797, col: 5, offset: 25667},
+																										pos: position{line: 797, col: 5, offset: 25668},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 797, col: 5, offset: 25667},
+																												pos:   position{line: 797, col: 5, offset: 25668},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 797, col: 16, offset: 25678},
+																													pos: position{line: 797, col: 16, offset: 25679},
 																													run: (*parser).callonDocumentFragment916,
 																													expr: &seqExpr{
-																														pos: position{line: 797, col: 16, offset: 25678},
+																														pos: position{line: 797, col: 16, offset: 25679},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 797, col: 16, offset: 25678},
+																																pos:        position{line: 797, col: 16, offset: 25679},
 																																val:        "____",
 																																ignoreCase: false,
 																																want:       "\"____\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 797, col: 23, offset: 25685},
+																																pos: position{line: 797, col: 23, offset: 25686},
 																																expr: &litMatcher{
-																																	pos:        position{line: 797, col: 23, offset: 25685},
+																																	pos:        position{line: 797, col: 23, offset: 25686},
 																																	val:        "_",
 																																	ignoreCase: false,
 																																	want:       "\"_\"",
@@ -8347,12 +8347,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 799, col: 8, offset: 25769},
+																												pos: position{line: 799, col: 8, offset: 25770},
 																												expr: &actionExpr{
-																													pos: position{line: 2876, col: 10, offset: 90951},
+																													pos: position{line: 2876, col: 10, offset: 90952},
 																													run: (*parser).callonDocumentFragment922,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2876, col: 10, offset: 90951},
+																														pos:        position{line: 2876, col: 10, offset: 90952},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8361,28 +8361,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2898, col: 8, offset: 91349},
+																												pos: position{line: 2898, col: 8, offset: 91350},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2885, col: 12, offset: 91122},
+																														pos: position{line: 2885, col: 12, offset: 91123},
 																														run: (*parser).callonDocumentFragment925,
 																														expr: &choiceExpr{
-																															pos: position{line: 2885, col: 13, offset: 91123},
+																															pos: position{line: 2885, col: 13, offset: 91124},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 13, offset: 91123},
+																																	pos:        position{line: 2885, col: 13, offset: 91124},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 20, offset: 91130},
+																																	pos:        position{line: 2885, col: 20, offset: 91131},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 29, offset: 91139},
+																																	pos:        position{line: 2885, col: 29, offset: 91140},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8391,9 +8391,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2895, col: 8, offset: 91299},
+																														pos: position{line: 2895, col: 8, offset: 91300},
 																														expr: &anyMatcher{
-																															line: 2895, col: 9, offset: 91300,
+																															line: 2895, col: 9, offset: 91301,
 																														},
 																													},
 																												},
@@ -8403,45 +8403,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1058, col: 5, offset: 32654},
+																								pos: position{line: 1058, col: 5, offset: 32655},
 																								run: (*parser).callonDocumentFragment932,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91299},
+																						pos: position{line: 2895, col: 8, offset: 91300},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91300,
+																							line: 2895, col: 9, offset: 91301,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1065, col: 5, offset: 32807},
+																			pos:   position{line: 1065, col: 5, offset: 32808},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26161},
+																				pos: position{line: 811, col: 5, offset: 26162},
 																				run: (*parser).callonDocumentFragment936,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26161},
+																					pos: position{line: 811, col: 5, offset: 26162},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2893, col: 11, offset: 91285},
+																							pos: position{line: 2893, col: 11, offset: 91286},
 																							expr: &anyMatcher{
-																								line: 2893, col: 13, offset: 91287,
+																								line: 2893, col: 13, offset: 91288,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26236},
+																							pos:   position{line: 812, col: 5, offset: 26237},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2822, col: 13, offset: 89477},
+																								pos: position{line: 2822, col: 13, offset: 89478},
 																								run: (*parser).callonDocumentFragment941,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2822, col: 13, offset: 89477},
+																									pos: position{line: 2822, col: 13, offset: 89478},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2822, col: 13, offset: 89477},
+																										pos:        position{line: 2822, col: 13, offset: 89478},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8451,28 +8451,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91349},
+																							pos: position{line: 2898, col: 8, offset: 91350},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91122},
+																									pos: position{line: 2885, col: 12, offset: 91123},
 																									run: (*parser).callonDocumentFragment945,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91123},
+																										pos: position{line: 2885, col: 13, offset: 91124},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91123},
+																												pos:        position{line: 2885, col: 13, offset: 91124},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91130},
+																												pos:        position{line: 2885, col: 20, offset: 91131},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91139},
+																												pos:        position{line: 2885, col: 29, offset: 91140},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8481,9 +8481,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91299},
+																									pos: position{line: 2895, col: 8, offset: 91300},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91300,
+																										line: 2895, col: 9, offset: 91301,
 																									},
 																								},
 																							},
@@ -8498,44 +8498,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1050, col: 5, offset: 32429},
+														pos:   position{line: 1050, col: 5, offset: 32430},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1050, col: 9, offset: 32433},
+															pos: position{line: 1050, col: 9, offset: 32434},
 															expr: &choiceExpr{
-																pos: position{line: 1057, col: 5, offset: 32625},
+																pos: position{line: 1057, col: 5, offset: 32626},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1057, col: 5, offset: 32625},
+																		pos: position{line: 1057, col: 5, offset: 32626},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1057, col: 5, offset: 32625},
+																				pos:   position{line: 1057, col: 5, offset: 32626},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 797, col: 5, offset: 25667},
+																					pos: position{line: 797, col: 5, offset: 25668},
 																					run: (*parser).callonDocumentFragment957,
 																					expr: &seqExpr{
-																						pos: position{line: 797, col: 5, offset: 25667},
+																						pos: position{line: 797, col: 5, offset: 25668},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 797, col: 5, offset: 25667},
+																								pos:   position{line: 797, col: 5, offset: 25668},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 797, col: 16, offset: 25678},
+																									pos: position{line: 797, col: 16, offset: 25679},
 																									run: (*parser).callonDocumentFragment960,
 																									expr: &seqExpr{
-																										pos: position{line: 797, col: 16, offset: 25678},
+																										pos: position{line: 797, col: 16, offset: 25679},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 797, col: 16, offset: 25678},
+																												pos:        position{line: 797, col: 16, offset: 25679},
 																												val:        "____",
 																												ignoreCase: false,
 																												want:       "\"____\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 797, col: 23, offset: 25685},
+																												pos: position{line: 797, col: 23, offset: 25686},
 																												expr: &litMatcher{
-																													pos:        position{line: 797, col: 23, offset: 25685},
+																													pos:        position{line: 797, col: 23, offset: 25686},
 																													val:        "_",
 																													ignoreCase: false,
 																													want:       "\"_\"",
@@ -8546,12 +8546,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 799, col: 8, offset: 25769},
+																								pos: position{line: 799, col: 8, offset: 25770},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 90951},
+																									pos: position{line: 2876, col: 10, offset: 90952},
 																									run: (*parser).callonDocumentFragment966,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 90951},
+																										pos:        position{line: 2876, col: 10, offset: 90952},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8560,28 +8560,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2898, col: 8, offset: 91349},
+																								pos: position{line: 2898, col: 8, offset: 91350},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2885, col: 12, offset: 91122},
+																										pos: position{line: 2885, col: 12, offset: 91123},
 																										run: (*parser).callonDocumentFragment969,
 																										expr: &choiceExpr{
-																											pos: position{line: 2885, col: 13, offset: 91123},
+																											pos: position{line: 2885, col: 13, offset: 91124},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 13, offset: 91123},
+																													pos:        position{line: 2885, col: 13, offset: 91124},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 20, offset: 91130},
+																													pos:        position{line: 2885, col: 20, offset: 91131},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 29, offset: 91139},
+																													pos:        position{line: 2885, col: 29, offset: 91140},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8590,9 +8590,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2895, col: 8, offset: 91299},
+																										pos: position{line: 2895, col: 8, offset: 91300},
 																										expr: &anyMatcher{
-																											line: 2895, col: 9, offset: 91300,
+																											line: 2895, col: 9, offset: 91301,
 																										},
 																									},
 																								},
@@ -8602,15 +8602,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1058, col: 5, offset: 32654},
+																				pos: position{line: 1058, col: 5, offset: 32655},
 																				run: (*parser).callonDocumentFragment976,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91299},
+																		pos: position{line: 2895, col: 8, offset: 91300},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91300,
+																			line: 2895, col: 9, offset: 91301,
 																		},
 																	},
 																},
@@ -8621,39 +8621,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1073, col: 5, offset: 32962},
+											pos: position{line: 1073, col: 5, offset: 32963},
 											run: (*parser).callonDocumentFragment979,
 											expr: &seqExpr{
-												pos: position{line: 1073, col: 5, offset: 32962},
+												pos: position{line: 1073, col: 5, offset: 32963},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1073, col: 5, offset: 32962},
+														pos:   position{line: 1073, col: 5, offset: 32963},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 804, col: 5, offset: 25913},
+															pos: position{line: 804, col: 5, offset: 25914},
 															run: (*parser).callonDocumentFragment982,
 															expr: &seqExpr{
-																pos: position{line: 804, col: 5, offset: 25913},
+																pos: position{line: 804, col: 5, offset: 25914},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 804, col: 5, offset: 25913},
+																		pos:   position{line: 804, col: 5, offset: 25914},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 804, col: 16, offset: 25924},
+																			pos: position{line: 804, col: 16, offset: 25925},
 																			run: (*parser).callonDocumentFragment985,
 																			expr: &seqExpr{
-																				pos: position{line: 804, col: 16, offset: 25924},
+																				pos: position{line: 804, col: 16, offset: 25925},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 804, col: 16, offset: 25924},
+																						pos:        position{line: 804, col: 16, offset: 25925},
 																						val:        "****",
 																						ignoreCase: false,
 																						want:       "\"****\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 804, col: 23, offset: 25931},
+																						pos: position{line: 804, col: 23, offset: 25932},
 																						expr: &litMatcher{
-																							pos:        position{line: 804, col: 23, offset: 25931},
+																							pos:        position{line: 804, col: 23, offset: 25932},
 																							val:        "*",
 																							ignoreCase: false,
 																							want:       "\"*\"",
@@ -8664,12 +8664,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 806, col: 8, offset: 26015},
+																		pos: position{line: 806, col: 8, offset: 26016},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 90951},
+																			pos: position{line: 2876, col: 10, offset: 90952},
 																			run: (*parser).callonDocumentFragment991,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 90951},
+																				pos:        position{line: 2876, col: 10, offset: 90952},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8678,28 +8678,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91349},
+																		pos: position{line: 2898, col: 8, offset: 91350},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91122},
+																				pos: position{line: 2885, col: 12, offset: 91123},
 																				run: (*parser).callonDocumentFragment994,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91123},
+																					pos: position{line: 2885, col: 13, offset: 91124},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91123},
+																							pos:        position{line: 2885, col: 13, offset: 91124},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91130},
+																							pos:        position{line: 2885, col: 20, offset: 91131},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91139},
+																							pos:        position{line: 2885, col: 29, offset: 91140},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8708,9 +8708,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91299},
+																				pos: position{line: 2895, col: 8, offset: 91300},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91300,
+																					line: 2895, col: 9, offset: 91301,
 																				},
 																			},
 																		},
@@ -8720,56 +8720,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1074, col: 5, offset: 33001},
+														pos: position{line: 1074, col: 5, offset: 33002},
 														run: (*parser).callonDocumentFragment1001,
 													},
 													&labeledExpr{
-														pos:   position{line: 1077, col: 5, offset: 33093},
+														pos:   position{line: 1077, col: 5, offset: 33094},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1092, col: 4, offset: 33490},
+															pos: position{line: 1092, col: 4, offset: 33491},
 															expr: &actionExpr{
-																pos: position{line: 1092, col: 5, offset: 33491},
+																pos: position{line: 1092, col: 5, offset: 33492},
 																run: (*parser).callonDocumentFragment1004,
 																expr: &seqExpr{
-																	pos: position{line: 1092, col: 5, offset: 33491},
+																	pos: position{line: 1092, col: 5, offset: 33492},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1092, col: 5, offset: 33491},
+																			pos: position{line: 1092, col: 5, offset: 33492},
 																			expr: &choiceExpr{
-																				pos: position{line: 1085, col: 5, offset: 33333},
+																				pos: position{line: 1085, col: 5, offset: 33334},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1085, col: 5, offset: 33333},
+																						pos: position{line: 1085, col: 5, offset: 33334},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1085, col: 5, offset: 33333},
+																								pos:   position{line: 1085, col: 5, offset: 33334},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 804, col: 5, offset: 25913},
+																									pos: position{line: 804, col: 5, offset: 25914},
 																									run: (*parser).callonDocumentFragment1010,
 																									expr: &seqExpr{
-																										pos: position{line: 804, col: 5, offset: 25913},
+																										pos: position{line: 804, col: 5, offset: 25914},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 804, col: 5, offset: 25913},
+																												pos:   position{line: 804, col: 5, offset: 25914},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 804, col: 16, offset: 25924},
+																													pos: position{line: 804, col: 16, offset: 25925},
 																													run: (*parser).callonDocumentFragment1013,
 																													expr: &seqExpr{
-																														pos: position{line: 804, col: 16, offset: 25924},
+																														pos: position{line: 804, col: 16, offset: 25925},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 804, col: 16, offset: 25924},
+																																pos:        position{line: 804, col: 16, offset: 25925},
 																																val:        "****",
 																																ignoreCase: false,
 																																want:       "\"****\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 804, col: 23, offset: 25931},
+																																pos: position{line: 804, col: 23, offset: 25932},
 																																expr: &litMatcher{
-																																	pos:        position{line: 804, col: 23, offset: 25931},
+																																	pos:        position{line: 804, col: 23, offset: 25932},
 																																	val:        "*",
 																																	ignoreCase: false,
 																																	want:       "\"*\"",
@@ -8780,12 +8780,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 806, col: 8, offset: 26015},
+																												pos: position{line: 806, col: 8, offset: 26016},
 																												expr: &actionExpr{
-																													pos: position{line: 2876, col: 10, offset: 90951},
+																													pos: position{line: 2876, col: 10, offset: 90952},
 																													run: (*parser).callonDocumentFragment1019,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2876, col: 10, offset: 90951},
+																														pos:        position{line: 2876, col: 10, offset: 90952},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8794,28 +8794,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2898, col: 8, offset: 91349},
+																												pos: position{line: 2898, col: 8, offset: 91350},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2885, col: 12, offset: 91122},
+																														pos: position{line: 2885, col: 12, offset: 91123},
 																														run: (*parser).callonDocumentFragment1022,
 																														expr: &choiceExpr{
-																															pos: position{line: 2885, col: 13, offset: 91123},
+																															pos: position{line: 2885, col: 13, offset: 91124},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 13, offset: 91123},
+																																	pos:        position{line: 2885, col: 13, offset: 91124},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 20, offset: 91130},
+																																	pos:        position{line: 2885, col: 20, offset: 91131},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 29, offset: 91139},
+																																	pos:        position{line: 2885, col: 29, offset: 91140},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8824,9 +8824,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2895, col: 8, offset: 91299},
+																														pos: position{line: 2895, col: 8, offset: 91300},
 																														expr: &anyMatcher{
-																															line: 2895, col: 9, offset: 91300,
+																															line: 2895, col: 9, offset: 91301,
 																														},
 																													},
 																												},
@@ -8836,45 +8836,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1086, col: 5, offset: 33364},
+																								pos: position{line: 1086, col: 5, offset: 33365},
 																								run: (*parser).callonDocumentFragment1029,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91299},
+																						pos: position{line: 2895, col: 8, offset: 91300},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91300,
+																							line: 2895, col: 9, offset: 91301,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1093, col: 5, offset: 33521},
+																			pos:   position{line: 1093, col: 5, offset: 33522},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26161},
+																				pos: position{line: 811, col: 5, offset: 26162},
 																				run: (*parser).callonDocumentFragment1033,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26161},
+																					pos: position{line: 811, col: 5, offset: 26162},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2893, col: 11, offset: 91285},
+																							pos: position{line: 2893, col: 11, offset: 91286},
 																							expr: &anyMatcher{
-																								line: 2893, col: 13, offset: 91287,
+																								line: 2893, col: 13, offset: 91288,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26236},
+																							pos:   position{line: 812, col: 5, offset: 26237},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2822, col: 13, offset: 89477},
+																								pos: position{line: 2822, col: 13, offset: 89478},
 																								run: (*parser).callonDocumentFragment1038,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2822, col: 13, offset: 89477},
+																									pos: position{line: 2822, col: 13, offset: 89478},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2822, col: 13, offset: 89477},
+																										pos:        position{line: 2822, col: 13, offset: 89478},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8884,28 +8884,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91349},
+																							pos: position{line: 2898, col: 8, offset: 91350},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91122},
+																									pos: position{line: 2885, col: 12, offset: 91123},
 																									run: (*parser).callonDocumentFragment1042,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91123},
+																										pos: position{line: 2885, col: 13, offset: 91124},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91123},
+																												pos:        position{line: 2885, col: 13, offset: 91124},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91130},
+																												pos:        position{line: 2885, col: 20, offset: 91131},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91139},
+																												pos:        position{line: 2885, col: 29, offset: 91140},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8914,9 +8914,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91299},
+																									pos: position{line: 2895, col: 8, offset: 91300},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91300,
+																										line: 2895, col: 9, offset: 91301,
 																									},
 																								},
 																							},
@@ -8931,44 +8931,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1078, col: 5, offset: 33127},
+														pos:   position{line: 1078, col: 5, offset: 33128},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1078, col: 9, offset: 33131},
+															pos: position{line: 1078, col: 9, offset: 33132},
 															expr: &choiceExpr{
-																pos: position{line: 1085, col: 5, offset: 33333},
+																pos: position{line: 1085, col: 5, offset: 33334},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1085, col: 5, offset: 33333},
+																		pos: position{line: 1085, col: 5, offset: 33334},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1085, col: 5, offset: 33333},
+																				pos:   position{line: 1085, col: 5, offset: 33334},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 804, col: 5, offset: 25913},
+																					pos: position{line: 804, col: 5, offset: 25914},
 																					run: (*parser).callonDocumentFragment1054,
 																					expr: &seqExpr{
-																						pos: position{line: 804, col: 5, offset: 25913},
+																						pos: position{line: 804, col: 5, offset: 25914},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 804, col: 5, offset: 25913},
+																								pos:   position{line: 804, col: 5, offset: 25914},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 804, col: 16, offset: 25924},
+																									pos: position{line: 804, col: 16, offset: 25925},
 																									run: (*parser).callonDocumentFragment1057,
 																									expr: &seqExpr{
-																										pos: position{line: 804, col: 16, offset: 25924},
+																										pos: position{line: 804, col: 16, offset: 25925},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 804, col: 16, offset: 25924},
+																												pos:        position{line: 804, col: 16, offset: 25925},
 																												val:        "****",
 																												ignoreCase: false,
 																												want:       "\"****\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 804, col: 23, offset: 25931},
+																												pos: position{line: 804, col: 23, offset: 25932},
 																												expr: &litMatcher{
-																													pos:        position{line: 804, col: 23, offset: 25931},
+																													pos:        position{line: 804, col: 23, offset: 25932},
 																													val:        "*",
 																													ignoreCase: false,
 																													want:       "\"*\"",
@@ -8979,12 +8979,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 806, col: 8, offset: 26015},
+																								pos: position{line: 806, col: 8, offset: 26016},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 90951},
+																									pos: position{line: 2876, col: 10, offset: 90952},
 																									run: (*parser).callonDocumentFragment1063,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 90951},
+																										pos:        position{line: 2876, col: 10, offset: 90952},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8993,28 +8993,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2898, col: 8, offset: 91349},
+																								pos: position{line: 2898, col: 8, offset: 91350},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2885, col: 12, offset: 91122},
+																										pos: position{line: 2885, col: 12, offset: 91123},
 																										run: (*parser).callonDocumentFragment1066,
 																										expr: &choiceExpr{
-																											pos: position{line: 2885, col: 13, offset: 91123},
+																											pos: position{line: 2885, col: 13, offset: 91124},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 13, offset: 91123},
+																													pos:        position{line: 2885, col: 13, offset: 91124},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 20, offset: 91130},
+																													pos:        position{line: 2885, col: 20, offset: 91131},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 29, offset: 91139},
+																													pos:        position{line: 2885, col: 29, offset: 91140},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -9023,9 +9023,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2895, col: 8, offset: 91299},
+																										pos: position{line: 2895, col: 8, offset: 91300},
 																										expr: &anyMatcher{
-																											line: 2895, col: 9, offset: 91300,
+																											line: 2895, col: 9, offset: 91301,
 																										},
 																									},
 																								},
@@ -9035,15 +9035,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1086, col: 5, offset: 33364},
+																				pos: position{line: 1086, col: 5, offset: 33365},
 																				run: (*parser).callonDocumentFragment1073,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91299},
+																		pos: position{line: 2895, col: 8, offset: 91300},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91300,
+																			line: 2895, col: 9, offset: 91301,
 																		},
 																	},
 																},
@@ -9054,52 +9054,52 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2721, col: 18, offset: 86546},
+											pos: position{line: 2721, col: 18, offset: 86547},
 											run: (*parser).callonDocumentFragment1076,
 											expr: &seqExpr{
-												pos: position{line: 2721, col: 18, offset: 86546},
+												pos: position{line: 2721, col: 18, offset: 86547},
 												exprs: []interface{}{
 													&choiceExpr{
-														pos: position{line: 2722, col: 9, offset: 86556},
+														pos: position{line: 2722, col: 9, offset: 86557},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2722, col: 9, offset: 86556},
+																pos:        position{line: 2722, col: 9, offset: 86557},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2723, col: 11, offset: 86592},
+																pos:        position{line: 2723, col: 11, offset: 86593},
 																val:        "***",
 																ignoreCase: false,
 																want:       "\"***\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2723, col: 19, offset: 86600},
+																pos:        position{line: 2723, col: 19, offset: 86601},
 																val:        "* * *",
 																ignoreCase: false,
 																want:       "\"* * *\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2723, col: 29, offset: 86610},
+																pos:        position{line: 2723, col: 29, offset: 86611},
 																val:        "---",
 																ignoreCase: false,
 																want:       "\"---\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2723, col: 37, offset: 86618},
+																pos:        position{line: 2723, col: 37, offset: 86619},
 																val:        "- - -",
 																ignoreCase: false,
 																want:       "\"- - -\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2723, col: 47, offset: 86628},
+																pos:        position{line: 2723, col: 47, offset: 86629},
 																val:        "___",
 																ignoreCase: false,
 																want:       "\"___\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2723, col: 55, offset: 86636},
+																pos:        position{line: 2723, col: 55, offset: 86637},
 																val:        "_ _ _",
 																ignoreCase: false,
 																want:       "\"_ _ _\"",
@@ -9107,12 +9107,12 @@ var g = &grammar{
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2724, col: 11, offset: 86682},
+														pos: position{line: 2724, col: 11, offset: 86683},
 														expr: &actionExpr{
-															pos: position{line: 2876, col: 10, offset: 90951},
+															pos: position{line: 2876, col: 10, offset: 90952},
 															run: (*parser).callonDocumentFragment1087,
 															expr: &charClassMatcher{
-																pos:        position{line: 2876, col: 10, offset: 90951},
+																pos:        position{line: 2876, col: 10, offset: 90952},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9121,28 +9121,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2898, col: 8, offset: 91349},
+														pos: position{line: 2898, col: 8, offset: 91350},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2885, col: 12, offset: 91122},
+																pos: position{line: 2885, col: 12, offset: 91123},
 																run: (*parser).callonDocumentFragment1090,
 																expr: &choiceExpr{
-																	pos: position{line: 2885, col: 13, offset: 91123},
+																	pos: position{line: 2885, col: 13, offset: 91124},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 13, offset: 91123},
+																			pos:        position{line: 2885, col: 13, offset: 91124},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 20, offset: 91130},
+																			pos:        position{line: 2885, col: 20, offset: 91131},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 29, offset: 91139},
+																			pos:        position{line: 2885, col: 29, offset: 91140},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9151,20 +9151,20 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91299},
+																pos: position{line: 2895, col: 8, offset: 91300},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91300,
+																	line: 2895, col: 9, offset: 91301,
 																},
 															},
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2724, col: 22, offset: 86693},
+														pos: position{line: 2724, col: 22, offset: 86694},
 														expr: &actionExpr{
-															pos: position{line: 2876, col: 10, offset: 90951},
+															pos: position{line: 2876, col: 10, offset: 90952},
 															run: (*parser).callonDocumentFragment1098,
 															expr: &charClassMatcher{
-																pos:        position{line: 2876, col: 10, offset: 90951},
+																pos:        position{line: 2876, col: 10, offset: 90952},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9173,28 +9173,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2898, col: 8, offset: 91349},
+														pos: position{line: 2898, col: 8, offset: 91350},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2885, col: 12, offset: 91122},
+																pos: position{line: 2885, col: 12, offset: 91123},
 																run: (*parser).callonDocumentFragment1101,
 																expr: &choiceExpr{
-																	pos: position{line: 2885, col: 13, offset: 91123},
+																	pos: position{line: 2885, col: 13, offset: 91124},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 13, offset: 91123},
+																			pos:        position{line: 2885, col: 13, offset: 91124},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 20, offset: 91130},
+																			pos:        position{line: 2885, col: 20, offset: 91131},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 29, offset: 91139},
+																			pos:        position{line: 2885, col: 29, offset: 91140},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9203,9 +9203,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91299},
+																pos: position{line: 2895, col: 8, offset: 91300},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91300,
+																	line: 2895, col: 9, offset: 91301,
 																},
 															},
 														},
@@ -9218,24 +9218,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2612, col: 5, offset: 83482},
+											pos: position{line: 2612, col: 5, offset: 83483},
 											run: (*parser).callonDocumentFragment1109,
 											expr: &seqExpr{
-												pos: position{line: 2612, col: 5, offset: 83482},
+												pos: position{line: 2612, col: 5, offset: 83483},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2618, col: 19, offset: 83639},
+														pos:        position{line: 2618, col: 19, offset: 83640},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2618, col: 26, offset: 83646},
+														pos: position{line: 2618, col: 26, offset: 83647},
 														expr: &actionExpr{
-															pos: position{line: 2876, col: 10, offset: 90951},
+															pos: position{line: 2876, col: 10, offset: 90952},
 															run: (*parser).callonDocumentFragment1113,
 															expr: &charClassMatcher{
-																pos:        position{line: 2876, col: 10, offset: 90951},
+																pos:        position{line: 2876, col: 10, offset: 90952},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9244,28 +9244,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2898, col: 8, offset: 91349},
+														pos: position{line: 2898, col: 8, offset: 91350},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2885, col: 12, offset: 91122},
+																pos: position{line: 2885, col: 12, offset: 91123},
 																run: (*parser).callonDocumentFragment1116,
 																expr: &choiceExpr{
-																	pos: position{line: 2885, col: 13, offset: 91123},
+																	pos: position{line: 2885, col: 13, offset: 91124},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 13, offset: 91123},
+																			pos:        position{line: 2885, col: 13, offset: 91124},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 20, offset: 91130},
+																			pos:        position{line: 2885, col: 20, offset: 91131},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 29, offset: 91139},
+																			pos:        position{line: 2885, col: 29, offset: 91140},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9274,40 +9274,40 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91299},
+																pos: position{line: 2895, col: 8, offset: 91300},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91300,
+																	line: 2895, col: 9, offset: 91301,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2613, col: 5, offset: 83506},
+														pos:   position{line: 2613, col: 5, offset: 83507},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2613, col: 11, offset: 83512},
+															pos: position{line: 2613, col: 11, offset: 83513},
 															expr: &choiceExpr{
-																pos: position{line: 2613, col: 12, offset: 83513},
+																pos: position{line: 2613, col: 12, offset: 83514},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 677, col: 14, offset: 21557},
+																		pos: position{line: 677, col: 14, offset: 21558},
 																		run: (*parser).callonDocumentFragment1126,
 																		expr: &seqExpr{
-																			pos: position{line: 677, col: 14, offset: 21557},
+																			pos: position{line: 677, col: 14, offset: 21558},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2893, col: 11, offset: 91285},
+																					pos: position{line: 2893, col: 11, offset: 91286},
 																					expr: &anyMatcher{
-																						line: 2893, col: 13, offset: 91287,
+																						line: 2893, col: 13, offset: 91288,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 677, col: 21, offset: 21564},
+																					pos: position{line: 677, col: 21, offset: 21565},
 																					expr: &actionExpr{
-																						pos: position{line: 2876, col: 10, offset: 90951},
+																						pos: position{line: 2876, col: 10, offset: 90952},
 																						run: (*parser).callonDocumentFragment1131,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2876, col: 10, offset: 90951},
+																							pos:        position{line: 2876, col: 10, offset: 90952},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9316,28 +9316,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2898, col: 8, offset: 91349},
+																					pos: position{line: 2898, col: 8, offset: 91350},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2885, col: 12, offset: 91122},
+																							pos: position{line: 2885, col: 12, offset: 91123},
 																							run: (*parser).callonDocumentFragment1134,
 																							expr: &choiceExpr{
-																								pos: position{line: 2885, col: 13, offset: 91123},
+																								pos: position{line: 2885, col: 13, offset: 91124},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 13, offset: 91123},
+																										pos:        position{line: 2885, col: 13, offset: 91124},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 20, offset: 91130},
+																										pos:        position{line: 2885, col: 20, offset: 91131},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 29, offset: 91139},
+																										pos:        position{line: 2885, col: 29, offset: 91140},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9346,9 +9346,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2895, col: 8, offset: 91299},
+																							pos: position{line: 2895, col: 8, offset: 91300},
 																							expr: &anyMatcher{
-																								line: 2895, col: 9, offset: 91300,
+																								line: 2895, col: 9, offset: 91301,
 																							},
 																						},
 																					},
@@ -9357,32 +9357,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2625, col: 5, offset: 83758},
+																		pos: position{line: 2625, col: 5, offset: 83759},
 																		run: (*parser).callonDocumentFragment1141,
 																		expr: &seqExpr{
-																			pos: position{line: 2625, col: 5, offset: 83758},
+																			pos: position{line: 2625, col: 5, offset: 83759},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2625, col: 5, offset: 83758},
+																					pos: position{line: 2625, col: 5, offset: 83759},
 																					expr: &choiceExpr{
-																						pos: position{line: 2622, col: 22, offset: 83719},
+																						pos: position{line: 2622, col: 22, offset: 83720},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2618, col: 19, offset: 83639},
+																								pos: position{line: 2618, col: 19, offset: 83640},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2618, col: 19, offset: 83639},
+																										pos:        position{line: 2618, col: 19, offset: 83640},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2618, col: 26, offset: 83646},
+																										pos: position{line: 2618, col: 26, offset: 83647},
 																										expr: &actionExpr{
-																											pos: position{line: 2876, col: 10, offset: 90951},
+																											pos: position{line: 2876, col: 10, offset: 90952},
 																											run: (*parser).callonDocumentFragment1148,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2876, col: 10, offset: 90951},
+																												pos:        position{line: 2876, col: 10, offset: 90952},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9391,28 +9391,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2898, col: 8, offset: 91349},
+																										pos: position{line: 2898, col: 8, offset: 91350},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2885, col: 12, offset: 91122},
+																												pos: position{line: 2885, col: 12, offset: 91123},
 																												run: (*parser).callonDocumentFragment1151,
 																												expr: &choiceExpr{
-																													pos: position{line: 2885, col: 13, offset: 91123},
+																													pos: position{line: 2885, col: 13, offset: 91124},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2885, col: 13, offset: 91123},
+																															pos:        position{line: 2885, col: 13, offset: 91124},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2885, col: 20, offset: 91130},
+																															pos:        position{line: 2885, col: 20, offset: 91131},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2885, col: 29, offset: 91139},
+																															pos:        position{line: 2885, col: 29, offset: 91140},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9421,9 +9421,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2895, col: 8, offset: 91299},
+																												pos: position{line: 2895, col: 8, offset: 91300},
 																												expr: &anyMatcher{
-																													line: 2895, col: 9, offset: 91300,
+																													line: 2895, col: 9, offset: 91301,
 																												},
 																											},
 																										},
@@ -9431,59 +9431,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91299},
+																								pos: position{line: 2895, col: 8, offset: 91300},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91300,
+																									line: 2895, col: 9, offset: 91301,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2626, col: 5, offset: 83781},
+																					pos:   position{line: 2626, col: 5, offset: 83782},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2627, col: 9, offset: 83799},
+																						pos: position{line: 2627, col: 9, offset: 83800},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2627, col: 10, offset: 83800},
+																								pos: position{line: 2627, col: 10, offset: 83801},
 																								run: (*parser).callonDocumentFragment1162,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2627, col: 10, offset: 83800},
+																									pos:   position{line: 2627, col: 10, offset: 83801},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2627, col: 17, offset: 83807},
+																										pos: position{line: 2627, col: 17, offset: 83808},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2635, col: 21, offset: 84003},
+																												pos: position{line: 2635, col: 21, offset: 84004},
 																												run: (*parser).callonDocumentFragment1165,
 																												expr: &seqExpr{
-																													pos: position{line: 2635, col: 21, offset: 84003},
+																													pos: position{line: 2635, col: 21, offset: 84004},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2635, col: 21, offset: 84003},
+																															pos:   position{line: 2635, col: 21, offset: 84004},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2635, col: 27, offset: 84009},
+																																pos: position{line: 2635, col: 27, offset: 84010},
 																																expr: &actionExpr{
-																																	pos: position{line: 2640, col: 5, offset: 84084},
+																																	pos: position{line: 2640, col: 5, offset: 84085},
 																																	run: (*parser).callonDocumentFragment1169,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2640, col: 5, offset: 84084},
+																																		pos: position{line: 2640, col: 5, offset: 84085},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2640, col: 5, offset: 84084},
+																																				pos:        position{line: 2640, col: 5, offset: 84085},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2640, col: 9, offset: 84088},
+																																				pos: position{line: 2640, col: 9, offset: 84089},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2876, col: 10, offset: 90951},
+																																					pos: position{line: 2876, col: 10, offset: 90952},
 																																					run: (*parser).callonDocumentFragment1173,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2876, col: 10, offset: 90951},
+																																						pos:        position{line: 2876, col: 10, offset: 90952},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9492,21 +9492,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2640, col: 16, offset: 84095},
+																																				pos:   position{line: 2640, col: 16, offset: 84096},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2646, col: 5, offset: 84295},
+																																					pos: position{line: 2646, col: 5, offset: 84296},
 																																					run: (*parser).callonDocumentFragment1176,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2646, col: 5, offset: 84295},
+																																						pos:   position{line: 2646, col: 5, offset: 84296},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2646, col: 14, offset: 84304},
+																																							pos: position{line: 2646, col: 14, offset: 84305},
 																																							run: (*parser).callonDocumentFragment1178,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2646, col: 14, offset: 84304},
+																																								pos: position{line: 2646, col: 14, offset: 84305},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2646, col: 14, offset: 84304},
+																																									pos:        position{line: 2646, col: 14, offset: 84305},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9523,28 +9523,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2898, col: 8, offset: 91349},
+																															pos: position{line: 2898, col: 8, offset: 91350},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2885, col: 12, offset: 91122},
+																																	pos: position{line: 2885, col: 12, offset: 91123},
 																																	run: (*parser).callonDocumentFragment1182,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2885, col: 13, offset: 91123},
+																																		pos: position{line: 2885, col: 13, offset: 91124},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2885, col: 13, offset: 91123},
+																																				pos:        position{line: 2885, col: 13, offset: 91124},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2885, col: 20, offset: 91130},
+																																				pos:        position{line: 2885, col: 20, offset: 91131},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2885, col: 29, offset: 91139},
+																																				pos:        position{line: 2885, col: 29, offset: 91140},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9553,9 +9553,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2895, col: 8, offset: 91299},
+																																	pos: position{line: 2895, col: 8, offset: 91300},
 																																	expr: &anyMatcher{
-																																		line: 2895, col: 9, offset: 91300,
+																																		line: 2895, col: 9, offset: 91301,
 																																	},
 																																},
 																															},
@@ -9564,40 +9564,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2652, col: 24, offset: 84440},
+																												pos: position{line: 2652, col: 24, offset: 84441},
 																												run: (*parser).callonDocumentFragment1189,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2652, col: 24, offset: 84440},
+																													pos:   position{line: 2652, col: 24, offset: 84441},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2652, col: 30, offset: 84446},
+																														pos: position{line: 2652, col: 30, offset: 84447},
 																														expr: &actionExpr{
-																															pos: position{line: 2657, col: 5, offset: 84522},
+																															pos: position{line: 2657, col: 5, offset: 84523},
 																															run: (*parser).callonDocumentFragment1192,
 																															expr: &seqExpr{
-																																pos: position{line: 2657, col: 5, offset: 84522},
+																																pos: position{line: 2657, col: 5, offset: 84523},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2657, col: 5, offset: 84522},
+																																		pos: position{line: 2657, col: 5, offset: 84523},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2622, col: 22, offset: 83719},
+																																			pos: position{line: 2622, col: 22, offset: 83720},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2618, col: 19, offset: 83639},
+																																					pos: position{line: 2618, col: 19, offset: 83640},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2618, col: 19, offset: 83639},
+																																							pos:        position{line: 2618, col: 19, offset: 83640},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2618, col: 26, offset: 83646},
+																																							pos: position{line: 2618, col: 26, offset: 83647},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2876, col: 10, offset: 90951},
+																																								pos: position{line: 2876, col: 10, offset: 90952},
 																																								run: (*parser).callonDocumentFragment1199,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2876, col: 10, offset: 90951},
+																																									pos:        position{line: 2876, col: 10, offset: 90952},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9606,28 +9606,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2898, col: 8, offset: 91349},
+																																							pos: position{line: 2898, col: 8, offset: 91350},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2885, col: 12, offset: 91122},
+																																									pos: position{line: 2885, col: 12, offset: 91123},
 																																									run: (*parser).callonDocumentFragment1202,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2885, col: 13, offset: 91123},
+																																										pos: position{line: 2885, col: 13, offset: 91124},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2885, col: 13, offset: 91123},
+																																												pos:        position{line: 2885, col: 13, offset: 91124},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2885, col: 20, offset: 91130},
+																																												pos:        position{line: 2885, col: 20, offset: 91131},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2885, col: 29, offset: 91139},
+																																												pos:        position{line: 2885, col: 29, offset: 91140},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9636,9 +9636,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2895, col: 8, offset: 91299},
+																																									pos: position{line: 2895, col: 8, offset: 91300},
 																																									expr: &anyMatcher{
-																																										line: 2895, col: 9, offset: 91300,
+																																										line: 2895, col: 9, offset: 91301,
 																																									},
 																																								},
 																																							},
@@ -9646,35 +9646,35 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2895, col: 8, offset: 91299},
+																																					pos: position{line: 2895, col: 8, offset: 91300},
 																																					expr: &anyMatcher{
-																																						line: 2895, col: 9, offset: 91300,
+																																						line: 2895, col: 9, offset: 91301,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2658, col: 5, offset: 84545},
+																																		pos: position{line: 2658, col: 5, offset: 84546},
 																																		expr: &actionExpr{
-																																			pos: position{line: 677, col: 14, offset: 21557},
+																																			pos: position{line: 677, col: 14, offset: 21558},
 																																			run: (*parser).callonDocumentFragment1212,
 																																			expr: &seqExpr{
-																																				pos: position{line: 677, col: 14, offset: 21557},
+																																				pos: position{line: 677, col: 14, offset: 21558},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2893, col: 11, offset: 91285},
+																																						pos: position{line: 2893, col: 11, offset: 91286},
 																																						expr: &anyMatcher{
-																																							line: 2893, col: 13, offset: 91287,
+																																							line: 2893, col: 13, offset: 91288,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 677, col: 21, offset: 21564},
+																																						pos: position{line: 677, col: 21, offset: 21565},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2876, col: 10, offset: 90951},
+																																							pos: position{line: 2876, col: 10, offset: 90952},
 																																							run: (*parser).callonDocumentFragment1217,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2876, col: 10, offset: 90951},
+																																								pos:        position{line: 2876, col: 10, offset: 90952},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9683,28 +9683,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2898, col: 8, offset: 91349},
+																																						pos: position{line: 2898, col: 8, offset: 91350},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2885, col: 12, offset: 91122},
+																																								pos: position{line: 2885, col: 12, offset: 91123},
 																																								run: (*parser).callonDocumentFragment1220,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2885, col: 13, offset: 91123},
+																																									pos: position{line: 2885, col: 13, offset: 91124},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2885, col: 13, offset: 91123},
+																																											pos:        position{line: 2885, col: 13, offset: 91124},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2885, col: 20, offset: 91130},
+																																											pos:        position{line: 2885, col: 20, offset: 91131},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2885, col: 29, offset: 91139},
+																																											pos:        position{line: 2885, col: 29, offset: 91140},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9713,9 +9713,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2895, col: 8, offset: 91299},
+																																								pos: position{line: 2895, col: 8, offset: 91300},
 																																								expr: &anyMatcher{
-																																									line: 2895, col: 9, offset: 91300,
+																																									line: 2895, col: 9, offset: 91301,
 																																								},
 																																							},
 																																						},
@@ -9725,17 +9725,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2659, col: 5, offset: 84560},
+																																		pos:   position{line: 2659, col: 5, offset: 84561},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2659, col: 12, offset: 84567},
+																																			pos: position{line: 2659, col: 12, offset: 84568},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2676, col: 20, offset: 85031},
+																																				pos: position{line: 2676, col: 20, offset: 85032},
 																																				run: (*parser).callonDocumentFragment1229,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2676, col: 20, offset: 85031},
+																																					pos: position{line: 2676, col: 20, offset: 85032},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2676, col: 20, offset: 85031},
+																																						pos:        position{line: 2676, col: 20, offset: 85032},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9746,18 +9746,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2659, col: 31, offset: 84586},
+																																		pos:        position{line: 2659, col: 31, offset: 84587},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2659, col: 35, offset: 84590},
+																																		pos: position{line: 2659, col: 35, offset: 84591},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2876, col: 10, offset: 90951},
+																																			pos: position{line: 2876, col: 10, offset: 90952},
 																																			run: (*parser).callonDocumentFragment1234,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2876, col: 10, offset: 90951},
+																																				pos:        position{line: 2876, col: 10, offset: 90952},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9766,27 +9766,27 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2659, col: 42, offset: 84597},
+																																		pos: position{line: 2659, col: 42, offset: 84598},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2885, col: 12, offset: 91122},
+																																			pos: position{line: 2885, col: 12, offset: 91123},
 																																			run: (*parser).callonDocumentFragment1237,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2885, col: 13, offset: 91123},
+																																				pos: position{line: 2885, col: 13, offset: 91124},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2885, col: 13, offset: 91123},
+																																						pos:        position{line: 2885, col: 13, offset: 91124},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2885, col: 20, offset: 91130},
+																																						pos:        position{line: 2885, col: 20, offset: 91131},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2885, col: 29, offset: 91139},
+																																						pos:        position{line: 2885, col: 29, offset: 91140},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9796,37 +9796,37 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2659, col: 51, offset: 84606},
+																																		pos:   position{line: 2659, col: 51, offset: 84607},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2665, col: 5, offset: 84765},
+																																			pos: position{line: 2665, col: 5, offset: 84766},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2666, col: 9, offset: 84775},
+																																				pos: position{line: 2666, col: 9, offset: 84776},
 																																				run: (*parser).callonDocumentFragment1244,
 																																				expr: &seqExpr{
-																																					pos: position{line: 2666, col: 9, offset: 84775},
+																																					pos: position{line: 2666, col: 9, offset: 84776},
 																																					exprs: []interface{}{
 																																						&notExpr{
-																																							pos: position{line: 2666, col: 9, offset: 84775},
+																																							pos: position{line: 2666, col: 9, offset: 84776},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2622, col: 22, offset: 83719},
+																																								pos: position{line: 2622, col: 22, offset: 83720},
 																																								alternatives: []interface{}{
 																																									&seqExpr{
-																																										pos: position{line: 2618, col: 19, offset: 83639},
+																																										pos: position{line: 2618, col: 19, offset: 83640},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2618, col: 19, offset: 83639},
+																																												pos:        position{line: 2618, col: 19, offset: 83640},
 																																												val:        "|===",
 																																												ignoreCase: false,
 																																												want:       "\"|===\"",
 																																											},
 																																											&zeroOrMoreExpr{
-																																												pos: position{line: 2618, col: 26, offset: 83646},
+																																												pos: position{line: 2618, col: 26, offset: 83647},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2876, col: 10, offset: 90951},
+																																													pos: position{line: 2876, col: 10, offset: 90952},
 																																													run: (*parser).callonDocumentFragment1251,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2876, col: 10, offset: 90951},
+																																														pos:        position{line: 2876, col: 10, offset: 90952},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -9835,28 +9835,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2898, col: 8, offset: 91349},
+																																												pos: position{line: 2898, col: 8, offset: 91350},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2885, col: 12, offset: 91122},
+																																														pos: position{line: 2885, col: 12, offset: 91123},
 																																														run: (*parser).callonDocumentFragment1254,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2885, col: 13, offset: 91123},
+																																															pos: position{line: 2885, col: 13, offset: 91124},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2885, col: 13, offset: 91123},
+																																																	pos:        position{line: 2885, col: 13, offset: 91124},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2885, col: 20, offset: 91130},
+																																																	pos:        position{line: 2885, col: 20, offset: 91131},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2885, col: 29, offset: 91139},
+																																																	pos:        position{line: 2885, col: 29, offset: 91140},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -9865,9 +9865,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2895, col: 8, offset: 91299},
+																																														pos: position{line: 2895, col: 8, offset: 91300},
 																																														expr: &anyMatcher{
-																																															line: 2895, col: 9, offset: 91300,
+																																															line: 2895, col: 9, offset: 91301,
 																																														},
 																																													},
 																																												},
@@ -9875,35 +9875,35 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2895, col: 8, offset: 91299},
+																																										pos: position{line: 2895, col: 8, offset: 91300},
 																																										expr: &anyMatcher{
-																																											line: 2895, col: 9, offset: 91300,
+																																											line: 2895, col: 9, offset: 91301,
 																																										},
 																																									},
 																																								},
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2667, col: 9, offset: 84802},
+																																							pos: position{line: 2667, col: 9, offset: 84803},
 																																							expr: &actionExpr{
-																																								pos: position{line: 677, col: 14, offset: 21557},
+																																								pos: position{line: 677, col: 14, offset: 21558},
 																																								run: (*parser).callonDocumentFragment1264,
 																																								expr: &seqExpr{
-																																									pos: position{line: 677, col: 14, offset: 21557},
+																																									pos: position{line: 677, col: 14, offset: 21558},
 																																									exprs: []interface{}{
 																																										&andExpr{
-																																											pos: position{line: 2893, col: 11, offset: 91285},
+																																											pos: position{line: 2893, col: 11, offset: 91286},
 																																											expr: &anyMatcher{
-																																												line: 2893, col: 13, offset: 91287,
+																																												line: 2893, col: 13, offset: 91288,
 																																											},
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 677, col: 21, offset: 21564},
+																																											pos: position{line: 677, col: 21, offset: 21565},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2876, col: 10, offset: 90951},
+																																												pos: position{line: 2876, col: 10, offset: 90952},
 																																												run: (*parser).callonDocumentFragment1269,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2876, col: 10, offset: 90951},
+																																													pos:        position{line: 2876, col: 10, offset: 90952},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -9912,28 +9912,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2898, col: 8, offset: 91349},
+																																											pos: position{line: 2898, col: 8, offset: 91350},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2885, col: 12, offset: 91122},
+																																													pos: position{line: 2885, col: 12, offset: 91123},
 																																													run: (*parser).callonDocumentFragment1272,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2885, col: 13, offset: 91123},
+																																														pos: position{line: 2885, col: 13, offset: 91124},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2885, col: 13, offset: 91123},
+																																																pos:        position{line: 2885, col: 13, offset: 91124},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2885, col: 20, offset: 91130},
+																																																pos:        position{line: 2885, col: 20, offset: 91131},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2885, col: 29, offset: 91139},
+																																																pos:        position{line: 2885, col: 29, offset: 91140},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -9942,9 +9942,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2895, col: 8, offset: 91299},
+																																													pos: position{line: 2895, col: 8, offset: 91300},
 																																													expr: &anyMatcher{
-																																														line: 2895, col: 9, offset: 91300,
+																																														line: 2895, col: 9, offset: 91301,
 																																													},
 																																												},
 																																											},
@@ -9954,22 +9954,22 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2668, col: 9, offset: 84821},
+																																							pos: position{line: 2668, col: 9, offset: 84822},
 																																							expr: &seqExpr{
-																																								pos: position{line: 2668, col: 11, offset: 84823},
+																																								pos: position{line: 2668, col: 11, offset: 84824},
 																																								exprs: []interface{}{
 																																									&labeledExpr{
-																																										pos:   position{line: 2668, col: 11, offset: 84823},
+																																										pos:   position{line: 2668, col: 11, offset: 84824},
 																																										label: "format",
 																																										expr: &zeroOrOneExpr{
-																																											pos: position{line: 2668, col: 18, offset: 84830},
+																																											pos: position{line: 2668, col: 18, offset: 84831},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2676, col: 20, offset: 85031},
+																																												pos: position{line: 2676, col: 20, offset: 85032},
 																																												run: (*parser).callonDocumentFragment1283,
 																																												expr: &zeroOrMoreExpr{
-																																													pos: position{line: 2676, col: 20, offset: 85031},
+																																													pos: position{line: 2676, col: 20, offset: 85032},
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2676, col: 20, offset: 85031},
+																																														pos:        position{line: 2676, col: 20, offset: 85032},
 																																														val:        "[^ |\\r\\n]",
 																																														chars:      []rune{' ', '|', '\r', '\n'},
 																																														ignoreCase: false,
@@ -9980,7 +9980,7 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2668, col: 37, offset: 84849},
+																																										pos:        position{line: 2668, col: 37, offset: 84850},
 																																										val:        "|",
 																																										ignoreCase: false,
 																																										want:       "\"|\"",
@@ -9989,15 +9989,15 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&labeledExpr{
-																																							pos:   position{line: 2669, col: 9, offset: 84862},
+																																							pos:   position{line: 2669, col: 9, offset: 84863},
 																																							label: "content",
 																																							expr: &actionExpr{
-																																								pos: position{line: 2669, col: 18, offset: 84871},
+																																								pos: position{line: 2669, col: 18, offset: 84872},
 																																								run: (*parser).callonDocumentFragment1288,
 																																								expr: &zeroOrMoreExpr{
-																																									pos: position{line: 2669, col: 18, offset: 84871},
+																																									pos: position{line: 2669, col: 18, offset: 84872},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2669, col: 18, offset: 84871},
+																																										pos:        position{line: 2669, col: 18, offset: 84872},
 																																										val:        "[^|\\r\\n]",
 																																										chars:      []rune{'|', '\r', '\n'},
 																																										ignoreCase: false,
@@ -10007,30 +10007,30 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&zeroOrOneExpr{
-																																							pos: position{line: 2671, col: 12, offset: 84933},
+																																							pos: position{line: 2671, col: 12, offset: 84934},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2898, col: 8, offset: 91349},
+																																								pos: position{line: 2898, col: 8, offset: 91350},
 																																								alternatives: []interface{}{
 																																									&actionExpr{
-																																										pos: position{line: 2885, col: 12, offset: 91122},
+																																										pos: position{line: 2885, col: 12, offset: 91123},
 																																										run: (*parser).callonDocumentFragment1293,
 																																										expr: &choiceExpr{
-																																											pos: position{line: 2885, col: 13, offset: 91123},
+																																											pos: position{line: 2885, col: 13, offset: 91124},
 																																											alternatives: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2885, col: 13, offset: 91123},
+																																													pos:        position{line: 2885, col: 13, offset: 91124},
 																																													val:        "\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2885, col: 20, offset: 91130},
+																																													pos:        position{line: 2885, col: 20, offset: 91131},
 																																													val:        "\r\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2885, col: 29, offset: 91139},
+																																													pos:        position{line: 2885, col: 29, offset: 91140},
 																																													val:        "\r",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\"",
@@ -10039,9 +10039,9 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2895, col: 8, offset: 91299},
+																																										pos: position{line: 2895, col: 8, offset: 91300},
 																																										expr: &anyMatcher{
-																																											line: 2895, col: 9, offset: 91300,
+																																											line: 2895, col: 9, offset: 91301,
 																																										},
 																																									},
 																																								},
@@ -10063,24 +10063,24 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 677, col: 14, offset: 21557},
+																								pos: position{line: 677, col: 14, offset: 21558},
 																								run: (*parser).callonDocumentFragment1300,
 																								expr: &seqExpr{
-																									pos: position{line: 677, col: 14, offset: 21557},
+																									pos: position{line: 677, col: 14, offset: 21558},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2893, col: 11, offset: 91285},
+																											pos: position{line: 2893, col: 11, offset: 91286},
 																											expr: &anyMatcher{
-																												line: 2893, col: 13, offset: 91287,
+																												line: 2893, col: 13, offset: 91288,
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 677, col: 21, offset: 21564},
+																											pos: position{line: 677, col: 21, offset: 21565},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 90951},
+																												pos: position{line: 2876, col: 10, offset: 90952},
 																												run: (*parser).callonDocumentFragment1305,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 90951},
+																													pos:        position{line: 2876, col: 10, offset: 90952},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -10089,28 +10089,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91349},
+																											pos: position{line: 2898, col: 8, offset: 91350},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91122},
+																													pos: position{line: 2885, col: 12, offset: 91123},
 																													run: (*parser).callonDocumentFragment1308,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91123},
+																														pos: position{line: 2885, col: 13, offset: 91124},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91123},
+																																pos:        position{line: 2885, col: 13, offset: 91124},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91130},
+																																pos:        position{line: 2885, col: 20, offset: 91131},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91139},
+																																pos:        position{line: 2885, col: 29, offset: 91140},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -10119,9 +10119,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91299},
+																													pos: position{line: 2895, col: 8, offset: 91300},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91300,
+																														line: 2895, col: 9, offset: 91301,
 																													},
 																												},
 																											},
@@ -10140,24 +10140,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2622, col: 22, offset: 83719},
+														pos: position{line: 2622, col: 22, offset: 83720},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2618, col: 19, offset: 83639},
+																pos: position{line: 2618, col: 19, offset: 83640},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2618, col: 19, offset: 83639},
+																		pos:        position{line: 2618, col: 19, offset: 83640},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2618, col: 26, offset: 83646},
+																		pos: position{line: 2618, col: 26, offset: 83647},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 90951},
+																			pos: position{line: 2876, col: 10, offset: 90952},
 																			run: (*parser).callonDocumentFragment1319,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 90951},
+																				pos:        position{line: 2876, col: 10, offset: 90952},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10166,28 +10166,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91349},
+																		pos: position{line: 2898, col: 8, offset: 91350},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91122},
+																				pos: position{line: 2885, col: 12, offset: 91123},
 																				run: (*parser).callonDocumentFragment1322,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91123},
+																					pos: position{line: 2885, col: 13, offset: 91124},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91123},
+																							pos:        position{line: 2885, col: 13, offset: 91124},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91130},
+																							pos:        position{line: 2885, col: 20, offset: 91131},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91139},
+																							pos:        position{line: 2885, col: 29, offset: 91140},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10196,9 +10196,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91299},
+																				pos: position{line: 2895, col: 8, offset: 91300},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91300,
+																					line: 2895, col: 9, offset: 91301,
 																				},
 																			},
 																		},
@@ -10206,9 +10206,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91299},
+																pos: position{line: 2895, col: 8, offset: 91300},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91300,
+																	line: 2895, col: 9, offset: 91301,
 																},
 															},
 														},
@@ -10217,36 +10217,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2483, col: 22, offset: 79858},
+											pos: position{line: 2483, col: 22, offset: 79859},
 											run: (*parser).callonDocumentFragment1331,
 											expr: &seqExpr{
-												pos: position{line: 2483, col: 22, offset: 79858},
+												pos: position{line: 2483, col: 22, offset: 79859},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2488, col: 31, offset: 80079},
+														pos:        position{line: 2488, col: 31, offset: 80080},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2488, col: 36, offset: 80084},
+														pos: position{line: 2488, col: 36, offset: 80085},
 														expr: &litMatcher{
-															pos:        position{line: 2488, col: 37, offset: 80085},
+															pos:        position{line: 2488, col: 37, offset: 80086},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2483, col: 49, offset: 79885},
+														pos:   position{line: 2483, col: 49, offset: 79886},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2822, col: 13, offset: 89477},
+															pos: position{line: 2822, col: 13, offset: 89478},
 															run: (*parser).callonDocumentFragment1337,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2822, col: 13, offset: 89477},
+																pos: position{line: 2822, col: 13, offset: 89478},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2822, col: 13, offset: 89477},
+																	pos:        position{line: 2822, col: 13, offset: 89478},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10256,28 +10256,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2898, col: 8, offset: 91349},
+														pos: position{line: 2898, col: 8, offset: 91350},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2885, col: 12, offset: 91122},
+																pos: position{line: 2885, col: 12, offset: 91123},
 																run: (*parser).callonDocumentFragment1341,
 																expr: &choiceExpr{
-																	pos: position{line: 2885, col: 13, offset: 91123},
+																	pos: position{line: 2885, col: 13, offset: 91124},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 13, offset: 91123},
+																			pos:        position{line: 2885, col: 13, offset: 91124},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 20, offset: 91130},
+																			pos:        position{line: 2885, col: 20, offset: 91131},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 29, offset: 91139},
+																			pos:        position{line: 2885, col: 29, offset: 91140},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10286,9 +10286,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91299},
+																pos: position{line: 2895, col: 8, offset: 91300},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91300,
+																	line: 2895, col: 9, offset: 91301,
 																},
 															},
 														},
@@ -10297,37 +10297,37 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1222, col: 5, offset: 37891},
+											pos: position{line: 1222, col: 5, offset: 37892},
 											run: (*parser).callonDocumentFragment1348,
 											expr: &seqExpr{
-												pos: position{line: 1222, col: 5, offset: 37891},
+												pos: position{line: 1222, col: 5, offset: 37892},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 1222, col: 5, offset: 37891},
+														pos: position{line: 1222, col: 5, offset: 37892},
 														run: (*parser).callonDocumentFragment1350,
 													},
 													&labeledExpr{
-														pos:   position{line: 1225, col: 5, offset: 37949},
+														pos:   position{line: 1225, col: 5, offset: 37950},
 														label: "frontmatter",
 														expr: &actionExpr{
-															pos: position{line: 1230, col: 20, offset: 38044},
+															pos: position{line: 1230, col: 20, offset: 38045},
 															run: (*parser).callonDocumentFragment1352,
 															expr: &seqExpr{
-																pos: position{line: 1230, col: 20, offset: 38044},
+																pos: position{line: 1230, col: 20, offset: 38045},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1234, col: 30, offset: 38264},
+																		pos:        position{line: 1234, col: 30, offset: 38265},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1234, col: 36, offset: 38270},
+																		pos: position{line: 1234, col: 36, offset: 38271},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 90951},
+																			pos: position{line: 2876, col: 10, offset: 90952},
 																			run: (*parser).callonDocumentFragment1356,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 90951},
+																				pos:        position{line: 2876, col: 10, offset: 90952},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10336,28 +10336,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91349},
+																		pos: position{line: 2898, col: 8, offset: 91350},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91122},
+																				pos: position{line: 2885, col: 12, offset: 91123},
 																				run: (*parser).callonDocumentFragment1359,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91123},
+																					pos: position{line: 2885, col: 13, offset: 91124},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91123},
+																							pos:        position{line: 2885, col: 13, offset: 91124},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91130},
+																							pos:        position{line: 2885, col: 20, offset: 91131},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91139},
+																							pos:        position{line: 2885, col: 29, offset: 91140},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10366,46 +10366,46 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91299},
+																				pos: position{line: 2895, col: 8, offset: 91300},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91300,
+																					line: 2895, col: 9, offset: 91301,
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1230, col: 45, offset: 38069},
+																		pos:   position{line: 1230, col: 45, offset: 38070},
 																		label: "content",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 1230, col: 53, offset: 38077},
+																			pos: position{line: 1230, col: 53, offset: 38078},
 																			expr: &actionExpr{
-																				pos: position{line: 1236, col: 27, offset: 38308},
+																				pos: position{line: 1236, col: 27, offset: 38309},
 																				run: (*parser).callonDocumentFragment1368,
 																				expr: &zeroOrMoreExpr{
-																					pos: position{line: 1236, col: 27, offset: 38308},
+																					pos: position{line: 1236, col: 27, offset: 38309},
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1236, col: 28, offset: 38309},
+																						pos: position{line: 1236, col: 28, offset: 38310},
 																						expr: &seqExpr{
-																							pos: position{line: 1236, col: 29, offset: 38310},
+																							pos: position{line: 1236, col: 29, offset: 38311},
 																							exprs: []interface{}{
 																								&notExpr{
-																									pos: position{line: 1236, col: 29, offset: 38310},
+																									pos: position{line: 1236, col: 29, offset: 38311},
 																									expr: &seqExpr{
-																										pos: position{line: 1234, col: 30, offset: 38264},
+																										pos: position{line: 1234, col: 30, offset: 38265},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 1234, col: 30, offset: 38264},
+																												pos:        position{line: 1234, col: 30, offset: 38265},
 																												val:        "---",
 																												ignoreCase: false,
 																												want:       "\"---\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 1234, col: 36, offset: 38270},
+																												pos: position{line: 1234, col: 36, offset: 38271},
 																												expr: &actionExpr{
-																													pos: position{line: 2876, col: 10, offset: 90951},
+																													pos: position{line: 2876, col: 10, offset: 90952},
 																													run: (*parser).callonDocumentFragment1376,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2876, col: 10, offset: 90951},
+																														pos:        position{line: 2876, col: 10, offset: 90952},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -10414,28 +10414,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2898, col: 8, offset: 91349},
+																												pos: position{line: 2898, col: 8, offset: 91350},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2885, col: 12, offset: 91122},
+																														pos: position{line: 2885, col: 12, offset: 91123},
 																														run: (*parser).callonDocumentFragment1379,
 																														expr: &choiceExpr{
-																															pos: position{line: 2885, col: 13, offset: 91123},
+																															pos: position{line: 2885, col: 13, offset: 91124},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 13, offset: 91123},
+																																	pos:        position{line: 2885, col: 13, offset: 91124},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 20, offset: 91130},
+																																	pos:        position{line: 2885, col: 20, offset: 91131},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 29, offset: 91139},
+																																	pos:        position{line: 2885, col: 29, offset: 91140},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -10444,9 +10444,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2895, col: 8, offset: 91299},
+																														pos: position{line: 2895, col: 8, offset: 91300},
 																														expr: &anyMatcher{
-																															line: 2895, col: 9, offset: 91300,
+																															line: 2895, col: 9, offset: 91301,
 																														},
 																													},
 																												},
@@ -10455,7 +10455,7 @@ var g = &grammar{
 																									},
 																								},
 																								&anyMatcher{
-																									line: 1236, col: 55, offset: 38336,
+																									line: 1236, col: 55, offset: 38337,
 																								},
 																							},
 																						},
@@ -10465,18 +10465,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1234, col: 30, offset: 38264},
+																		pos:        position{line: 1234, col: 30, offset: 38265},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1234, col: 36, offset: 38270},
+																		pos: position{line: 1234, col: 36, offset: 38271},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 90951},
+																			pos: position{line: 2876, col: 10, offset: 90952},
 																			run: (*parser).callonDocumentFragment1389,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 90951},
+																				pos:        position{line: 2876, col: 10, offset: 90952},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10485,28 +10485,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91349},
+																		pos: position{line: 2898, col: 8, offset: 91350},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91122},
+																				pos: position{line: 2885, col: 12, offset: 91123},
 																				run: (*parser).callonDocumentFragment1392,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91123},
+																					pos: position{line: 2885, col: 13, offset: 91124},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91123},
+																							pos:        position{line: 2885, col: 13, offset: 91124},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91130},
+																							pos:        position{line: 2885, col: 20, offset: 91131},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91139},
+																							pos:        position{line: 2885, col: 29, offset: 91140},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10515,15 +10515,15 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91299},
+																				pos: position{line: 2895, col: 8, offset: 91300},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91300,
+																					line: 2895, col: 9, offset: 91301,
 																				},
 																			},
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1230, col: 104, offset: 38128},
+																		pos: position{line: 1230, col: 104, offset: 38129},
 																		run: (*parser).callonDocumentFragment1399,
 																	},
 																},
@@ -10571,27 +10571,27 @@ var g = &grammar{
 									pos: position{line: 282, col: 9, offset: 8388},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 1198, col: 23, offset: 37045},
+											pos: position{line: 1198, col: 23, offset: 37046},
 											run: (*parser).callonDelimitedBlockElements7,
 											expr: &seqExpr{
-												pos: position{line: 1198, col: 23, offset: 37045},
+												pos: position{line: 1198, col: 23, offset: 37046},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 1196, col: 32, offset: 37013},
+														pos:        position{line: 1196, col: 32, offset: 37014},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 1198, col: 51, offset: 37073},
+														pos:   position{line: 1198, col: 51, offset: 37074},
 														label: "ref",
 														expr: &actionExpr{
-															pos: position{line: 1198, col: 56, offset: 37078},
+															pos: position{line: 1198, col: 56, offset: 37079},
 															run: (*parser).callonDelimitedBlockElements11,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 1198, col: 56, offset: 37078},
+																pos: position{line: 1198, col: 56, offset: 37079},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1198, col: 56, offset: 37078},
+																	pos:        position{line: 1198, col: 56, offset: 37079},
 																	val:        "[0-9]",
 																	ranges:     []rune{'0', '9'},
 																	ignoreCase: false,
@@ -10601,7 +10601,7 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 1196, col: 32, offset: 37013},
+														pos:        position{line: 1196, col: 32, offset: 37014},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
@@ -10618,9 +10618,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2895, col: 8, offset: 91299},
+							pos: position{line: 2895, col: 8, offset: 91300},
 							expr: &anyMatcher{
-								line: 2895, col: 9, offset: 91300,
+								line: 2895, col: 9, offset: 91301,
 							},
 						},
 					},
@@ -10663,8 +10663,8 @@ var g = &grammar{
 											pos: position{line: 318, col: 28, offset: 9739},
 											expr: &charClassMatcher{
 												pos:        position{line: 318, col: 29, offset: 9740},
-												val:        "[-\\pL\\pN]",
-												chars:      []rune{'-'},
+												val:        "[_-\\pL\\pN]",
+												chars:      []rune{'_', '-'},
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
@@ -10692,12 +10692,12 @@ var g = &grammar{
 										pos: position{line: 305, col: 9, offset: 9232},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2880, col: 11, offset: 91012},
+												pos: position{line: 2880, col: 11, offset: 91013},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2880, col: 11, offset: 91012},
+													pos: position{line: 2880, col: 11, offset: 91013},
 													expr: &charClassMatcher{
-														pos:        position{line: 2880, col: 11, offset: 91012},
+														pos:        position{line: 2880, col: 11, offset: 91013},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10721,10 +10721,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 310, col: 5, offset: 9412},
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 10, offset: 90951},
+								pos: position{line: 2876, col: 10, offset: 90952},
 								run: (*parser).callonAttributeDeclaration21,
 								expr: &charClassMatcher{
-									pos:        position{line: 2876, col: 10, offset: 90951},
+									pos:        position{line: 2876, col: 10, offset: 90952},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -10733,28 +10733,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2898, col: 8, offset: 91349},
+							pos: position{line: 2898, col: 8, offset: 91350},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2885, col: 12, offset: 91122},
+									pos: position{line: 2885, col: 12, offset: 91123},
 									run: (*parser).callonAttributeDeclaration24,
 									expr: &choiceExpr{
-										pos: position{line: 2885, col: 13, offset: 91123},
+										pos: position{line: 2885, col: 13, offset: 91124},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2885, col: 13, offset: 91123},
+												pos:        position{line: 2885, col: 13, offset: 91124},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 20, offset: 91130},
+												pos:        position{line: 2885, col: 20, offset: 91131},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 29, offset: 91139},
+												pos:        position{line: 2885, col: 29, offset: 91140},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10763,9 +10763,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2895, col: 8, offset: 91299},
+									pos: position{line: 2895, col: 8, offset: 91300},
 									expr: &anyMatcher{
-										line: 2895, col: 9, offset: 91300,
+										line: 2895, col: 9, offset: 91301,
 									},
 								},
 							},
@@ -10776,45 +10776,45 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeDeclarationValue",
-			pos:  position{line: 322, col: 1, offset: 9796},
+			pos:  position{line: 322, col: 1, offset: 9797},
 			expr: &actionExpr{
-				pos: position{line: 323, col: 5, offset: 9830},
+				pos: position{line: 323, col: 5, offset: 9831},
 				run: (*parser).callonAttributeDeclarationValue1,
 				expr: &seqExpr{
-					pos: position{line: 323, col: 5, offset: 9830},
+					pos: position{line: 323, col: 5, offset: 9831},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 323, col: 5, offset: 9830},
+							pos:   position{line: 323, col: 5, offset: 9831},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 323, col: 15, offset: 9840},
+								pos:  position{line: 323, col: 15, offset: 9841},
 								name: "AttributeDeclarationValueElements",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 324, col: 5, offset: 9880},
+							pos:   position{line: 324, col: 5, offset: 9881},
 							label: "otherElements",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 324, col: 19, offset: 9894},
+								pos: position{line: 324, col: 19, offset: 9895},
 								expr: &actionExpr{
-									pos: position{line: 325, col: 9, offset: 9904},
+									pos: position{line: 325, col: 9, offset: 9905},
 									run: (*parser).callonAttributeDeclarationValue7,
 									expr: &seqExpr{
-										pos: position{line: 325, col: 9, offset: 9904},
+										pos: position{line: 325, col: 9, offset: 9905},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 325, col: 9, offset: 9904},
+												pos:        position{line: 325, col: 9, offset: 9905},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 325, col: 14, offset: 9909},
+												pos: position{line: 325, col: 14, offset: 9910},
 												expr: &actionExpr{
-													pos: position{line: 2876, col: 10, offset: 90951},
+													pos: position{line: 2876, col: 10, offset: 90952},
 													run: (*parser).callonAttributeDeclarationValue11,
 													expr: &charClassMatcher{
-														pos:        position{line: 2876, col: 10, offset: 90951},
+														pos:        position{line: 2876, col: 10, offset: 90952},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10823,25 +10823,25 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 2885, col: 12, offset: 91122},
+												pos: position{line: 2885, col: 12, offset: 91123},
 												run: (*parser).callonAttributeDeclarationValue13,
 												expr: &choiceExpr{
-													pos: position{line: 2885, col: 13, offset: 91123},
+													pos: position{line: 2885, col: 13, offset: 91124},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2885, col: 13, offset: 91123},
+															pos:        position{line: 2885, col: 13, offset: 91124},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2885, col: 20, offset: 91130},
+															pos:        position{line: 2885, col: 20, offset: 91131},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2885, col: 29, offset: 91139},
+															pos:        position{line: 2885, col: 29, offset: 91140},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10850,12 +10850,12 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 326, col: 9, offset: 9933},
+												pos: position{line: 326, col: 9, offset: 9934},
 												expr: &actionExpr{
-													pos: position{line: 2876, col: 10, offset: 90951},
+													pos: position{line: 2876, col: 10, offset: 90952},
 													run: (*parser).callonAttributeDeclarationValue19,
 													expr: &charClassMatcher{
-														pos:        position{line: 2876, col: 10, offset: 90951},
+														pos:        position{line: 2876, col: 10, offset: 90952},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10864,10 +10864,10 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 327, col: 9, offset: 9948},
+												pos:   position{line: 327, col: 9, offset: 9949},
 												label: "elements",
 												expr: &ruleRefExpr{
-													pos:  position{line: 327, col: 19, offset: 9958},
+													pos:  position{line: 327, col: 19, offset: 9959},
 													name: "AttributeDeclarationValueElements",
 												},
 											},
@@ -10882,17 +10882,17 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeDeclarationValueElements",
-			pos:  position{line: 338, col: 1, offset: 10288},
+			pos:  position{line: 338, col: 1, offset: 10289},
 			expr: &actionExpr{
-				pos: position{line: 339, col: 5, offset: 10330},
+				pos: position{line: 339, col: 5, offset: 10331},
 				run: (*parser).callonAttributeDeclarationValueElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 339, col: 5, offset: 10330},
+					pos:   position{line: 339, col: 5, offset: 10331},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 339, col: 14, offset: 10339},
+						pos: position{line: 339, col: 14, offset: 10340},
 						expr: &ruleRefExpr{
-							pos:  position{line: 339, col: 15, offset: 10340},
+							pos:  position{line: 339, col: 15, offset: 10341},
 							name: "AttributeDeclarationValueElement",
 						},
 					},
@@ -10901,34 +10901,34 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeDeclarationValueElement",
-			pos:  position{line: 343, col: 1, offset: 10429},
+			pos:  position{line: 343, col: 1, offset: 10430},
 			expr: &actionExpr{
-				pos: position{line: 344, col: 5, offset: 10470},
+				pos: position{line: 344, col: 5, offset: 10471},
 				run: (*parser).callonAttributeDeclarationValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 344, col: 5, offset: 10470},
+					pos: position{line: 344, col: 5, offset: 10471},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 344, col: 5, offset: 10470},
+							pos: position{line: 344, col: 5, offset: 10471},
 							expr: &seqExpr{
-								pos: position{line: 344, col: 7, offset: 10472},
+								pos: position{line: 344, col: 7, offset: 10473},
 								exprs: []interface{}{
 									&zeroOrOneExpr{
-										pos: position{line: 344, col: 7, offset: 10472},
+										pos: position{line: 344, col: 7, offset: 10473},
 										expr: &litMatcher{
-											pos:        position{line: 344, col: 7, offset: 10472},
+											pos:        position{line: 344, col: 7, offset: 10473},
 											val:        "\\",
 											ignoreCase: false,
 											want:       "\"\\\\\"",
 										},
 									},
 									&zeroOrMoreExpr{
-										pos: position{line: 344, col: 13, offset: 10478},
+										pos: position{line: 344, col: 13, offset: 10479},
 										expr: &actionExpr{
-											pos: position{line: 2876, col: 10, offset: 90951},
+											pos: position{line: 2876, col: 10, offset: 90952},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2876, col: 10, offset: 90951},
+												pos:        position{line: 2876, col: 10, offset: 90952},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10937,28 +10937,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2898, col: 8, offset: 91349},
+										pos: position{line: 2898, col: 8, offset: 91350},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2885, col: 12, offset: 91122},
+												pos: position{line: 2885, col: 12, offset: 91123},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2885, col: 13, offset: 91123},
+													pos: position{line: 2885, col: 13, offset: 91124},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2885, col: 13, offset: 91123},
+															pos:        position{line: 2885, col: 13, offset: 91124},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2885, col: 20, offset: 91130},
+															pos:        position{line: 2885, col: 20, offset: 91131},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2885, col: 29, offset: 91139},
+															pos:        position{line: 2885, col: 29, offset: 91140},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10967,9 +10967,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2895, col: 8, offset: 91299},
+												pos: position{line: 2895, col: 8, offset: 91300},
 												expr: &anyMatcher{
-													line: 2895, col: 9, offset: 91300,
+													line: 2895, col: 9, offset: 91301,
 												},
 											},
 										},
@@ -10978,22 +10978,22 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 345, col: 5, offset: 10494},
+							pos:   position{line: 345, col: 5, offset: 10495},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 346, col: 9, offset: 10512},
+								pos: position{line: 346, col: 9, offset: 10513},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 346, col: 9, offset: 10512},
+										pos:  position{line: 346, col: 9, offset: 10513},
 										name: "InlinePassthrough",
 									},
 									&actionExpr{
-										pos: position{line: 347, col: 12, offset: 10541},
+										pos: position{line: 347, col: 12, offset: 10542},
 										run: (*parser).callonAttributeDeclarationValueElement21,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 347, col: 12, offset: 10541},
+											pos: position{line: 347, col: 12, offset: 10542},
 											expr: &charClassMatcher{
-												pos:        position{line: 347, col: 12, offset: 10541},
+												pos:        position{line: 347, col: 12, offset: 10542},
 												val:        "[^\\r\\n<>&{ ]",
 												chars:      []rune{'\r', '\n', '<', '>', '&', '{', ' '},
 												ignoreCase: false,
@@ -11002,23 +11002,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2470, col: 5, offset: 79404},
+										pos: position{line: 2470, col: 5, offset: 79405},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2470, col: 5, offset: 79404},
+											pos: position{line: 2470, col: 5, offset: 79405},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2470, col: 5, offset: 79404},
+													pos: position{line: 2470, col: 5, offset: 79405},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2473, col: 5, offset: 79480},
+													pos:   position{line: 2473, col: 5, offset: 79481},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2474, col: 9, offset: 79498},
+														pos: position{line: 2474, col: 9, offset: 79499},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2474, col: 10, offset: 79499},
+															pos:        position{line: 2474, col: 10, offset: 79500},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -11030,10 +11030,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2876, col: 10, offset: 90951},
+										pos: position{line: 2876, col: 10, offset: 90952},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2876, col: 10, offset: 90951},
+											pos:        position{line: 2876, col: 10, offset: 90952},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -11041,35 +11041,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 636, col: 5, offset: 20177},
+										pos: position{line: 636, col: 5, offset: 20178},
 										run: (*parser).callonAttributeDeclarationValueElement32,
 										expr: &seqExpr{
-											pos: position{line: 636, col: 5, offset: 20177},
+											pos: position{line: 636, col: 5, offset: 20178},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 636, col: 5, offset: 20177},
+													pos: position{line: 636, col: 5, offset: 20178},
 													run: (*parser).callonAttributeDeclarationValueElement34,
 												},
 												&labeledExpr{
-													pos:   position{line: 639, col: 5, offset: 20249},
+													pos:   position{line: 639, col: 5, offset: 20250},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 639, col: 14, offset: 20258},
+														pos: position{line: 639, col: 14, offset: 20259},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 645, col: 5, offset: 20387},
+																pos: position{line: 645, col: 5, offset: 20388},
 																run: (*parser).callonAttributeDeclarationValueElement37,
 																expr: &seqExpr{
-																	pos: position{line: 645, col: 5, offset: 20387},
+																	pos: position{line: 645, col: 5, offset: 20388},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 645, col: 5, offset: 20387},
+																			pos:        position{line: 645, col: 5, offset: 20388},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 645, col: 13, offset: 20395},
+																			pos:   position{line: 645, col: 13, offset: 20396},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9729},
@@ -11089,8 +11089,8 @@ var g = &grammar{
 																							pos: position{line: 318, col: 28, offset: 9739},
 																							expr: &charClassMatcher{
 																								pos:        position{line: 318, col: 29, offset: 9740},
-																								val:        "[-\\pL\\pN]",
-																								chars:      []rune{'-'},
+																								val:        "[_-\\pL\\pN]",
+																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
 																								inverted:   false,
@@ -11101,7 +11101,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 645, col: 32, offset: 20414},
+																			pos:        position{line: 645, col: 32, offset: 20415},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11110,19 +11110,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 652, col: 5, offset: 20655},
+																pos: position{line: 652, col: 5, offset: 20656},
 																run: (*parser).callonAttributeDeclarationValueElement47,
 																expr: &seqExpr{
-																	pos: position{line: 652, col: 5, offset: 20655},
+																	pos: position{line: 652, col: 5, offset: 20656},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 652, col: 5, offset: 20655},
+																			pos:        position{line: 652, col: 5, offset: 20656},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 652, col: 9, offset: 20659},
+																			pos:   position{line: 652, col: 9, offset: 20660},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9729},
@@ -11142,8 +11142,8 @@ var g = &grammar{
 																							pos: position{line: 318, col: 28, offset: 9739},
 																							expr: &charClassMatcher{
 																								pos:        position{line: 318, col: 29, offset: 9740},
-																								val:        "[-\\pL\\pN]",
-																								chars:      []rune{'-'},
+																								val:        "[_-\\pL\\pN]",
+																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
 																								inverted:   false,
@@ -11154,7 +11154,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 652, col: 28, offset: 20678},
+																			pos:        position{line: 652, col: 28, offset: 20679},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11163,19 +11163,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 658, col: 25, offset: 20859},
+																pos: position{line: 658, col: 25, offset: 20860},
 																run: (*parser).callonAttributeDeclarationValueElement57,
 																expr: &seqExpr{
-																	pos: position{line: 658, col: 25, offset: 20859},
+																	pos: position{line: 658, col: 25, offset: 20860},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 658, col: 25, offset: 20859},
+																			pos:        position{line: 658, col: 25, offset: 20860},
 																			val:        "{counter:",
 																			ignoreCase: false,
 																			want:       "\"{counter:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 658, col: 37, offset: 20871},
+																			pos:   position{line: 658, col: 37, offset: 20872},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9729},
@@ -11195,8 +11195,8 @@ var g = &grammar{
 																							pos: position{line: 318, col: 28, offset: 9739},
 																							expr: &charClassMatcher{
 																								pos:        position{line: 318, col: 29, offset: 9740},
-																								val:        "[-\\pL\\pN]",
-																								chars:      []rune{'-'},
+																								val:        "[_-\\pL\\pN]",
+																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
 																								inverted:   false,
@@ -11207,33 +11207,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 658, col: 56, offset: 20890},
+																			pos:   position{line: 658, col: 56, offset: 20891},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 658, col: 62, offset: 20896},
+																				pos: position{line: 658, col: 62, offset: 20897},
 																				expr: &actionExpr{
-																					pos: position{line: 666, col: 17, offset: 21191},
+																					pos: position{line: 666, col: 17, offset: 21192},
 																					run: (*parser).callonAttributeDeclarationValueElement68,
 																					expr: &seqExpr{
-																						pos: position{line: 666, col: 17, offset: 21191},
+																						pos: position{line: 666, col: 17, offset: 21192},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 666, col: 17, offset: 21191},
+																								pos:        position{line: 666, col: 17, offset: 21192},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 666, col: 21, offset: 21195},
+																								pos:   position{line: 666, col: 21, offset: 21196},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 666, col: 28, offset: 21202},
+																									pos: position{line: 666, col: 28, offset: 21203},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 666, col: 28, offset: 21202},
+																											pos: position{line: 666, col: 28, offset: 21203},
 																											run: (*parser).callonAttributeDeclarationValueElement73,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 666, col: 28, offset: 21202},
+																												pos:        position{line: 666, col: 28, offset: 21203},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -11241,12 +11241,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 668, col: 9, offset: 21256},
+																											pos: position{line: 668, col: 9, offset: 21257},
 																											run: (*parser).callonAttributeDeclarationValueElement75,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 668, col: 9, offset: 21256},
+																												pos: position{line: 668, col: 9, offset: 21257},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 668, col: 9, offset: 21256},
+																													pos:        position{line: 668, col: 9, offset: 21257},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -11263,7 +11263,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 658, col: 78, offset: 20912},
+																			pos:        position{line: 658, col: 78, offset: 20913},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11272,19 +11272,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 662, col: 25, offset: 21030},
+																pos: position{line: 662, col: 25, offset: 21031},
 																run: (*parser).callonAttributeDeclarationValueElement79,
 																expr: &seqExpr{
-																	pos: position{line: 662, col: 25, offset: 21030},
+																	pos: position{line: 662, col: 25, offset: 21031},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 662, col: 25, offset: 21030},
+																			pos:        position{line: 662, col: 25, offset: 21031},
 																			val:        "{counter2:",
 																			ignoreCase: false,
 																			want:       "\"{counter2:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 662, col: 38, offset: 21043},
+																			pos:   position{line: 662, col: 38, offset: 21044},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9729},
@@ -11304,8 +11304,8 @@ var g = &grammar{
 																							pos: position{line: 318, col: 28, offset: 9739},
 																							expr: &charClassMatcher{
 																								pos:        position{line: 318, col: 29, offset: 9740},
-																								val:        "[-\\pL\\pN]",
-																								chars:      []rune{'-'},
+																								val:        "[_-\\pL\\pN]",
+																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
 																								inverted:   false,
@@ -11316,33 +11316,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 662, col: 57, offset: 21062},
+																			pos:   position{line: 662, col: 57, offset: 21063},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 662, col: 63, offset: 21068},
+																				pos: position{line: 662, col: 63, offset: 21069},
 																				expr: &actionExpr{
-																					pos: position{line: 666, col: 17, offset: 21191},
+																					pos: position{line: 666, col: 17, offset: 21192},
 																					run: (*parser).callonAttributeDeclarationValueElement90,
 																					expr: &seqExpr{
-																						pos: position{line: 666, col: 17, offset: 21191},
+																						pos: position{line: 666, col: 17, offset: 21192},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 666, col: 17, offset: 21191},
+																								pos:        position{line: 666, col: 17, offset: 21192},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 666, col: 21, offset: 21195},
+																								pos:   position{line: 666, col: 21, offset: 21196},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 666, col: 28, offset: 21202},
+																									pos: position{line: 666, col: 28, offset: 21203},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 666, col: 28, offset: 21202},
+																											pos: position{line: 666, col: 28, offset: 21203},
 																											run: (*parser).callonAttributeDeclarationValueElement95,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 666, col: 28, offset: 21202},
+																												pos:        position{line: 666, col: 28, offset: 21203},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -11350,12 +11350,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 668, col: 9, offset: 21256},
+																											pos: position{line: 668, col: 9, offset: 21257},
 																											run: (*parser).callonAttributeDeclarationValueElement97,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 668, col: 9, offset: 21256},
+																												pos: position{line: 668, col: 9, offset: 21257},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 668, col: 9, offset: 21256},
+																													pos:        position{line: 668, col: 9, offset: 21257},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -11372,7 +11372,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 662, col: 79, offset: 21084},
+																			pos:        position{line: 662, col: 79, offset: 21085},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11395,60 +11395,60 @@ var g = &grammar{
 		},
 		{
 			name: "BlockAttributes",
-			pos:  position{line: 369, col: 1, offset: 11360},
+			pos:  position{line: 369, col: 1, offset: 11361},
 			expr: &actionExpr{
-				pos: position{line: 370, col: 5, offset: 11383},
+				pos: position{line: 370, col: 5, offset: 11384},
 				run: (*parser).callonBlockAttributes1,
 				expr: &labeledExpr{
-					pos:   position{line: 370, col: 5, offset: 11383},
+					pos:   position{line: 370, col: 5, offset: 11384},
 					label: "attributes",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 370, col: 16, offset: 11394},
+						pos: position{line: 370, col: 16, offset: 11395},
 						expr: &choiceExpr{
-							pos: position{line: 372, col: 9, offset: 11461},
+							pos: position{line: 372, col: 9, offset: 11462},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 372, col: 10, offset: 11462},
+									pos: position{line: 372, col: 10, offset: 11463},
 									run: (*parser).callonBlockAttributes5,
 									expr: &seqExpr{
-										pos: position{line: 372, col: 10, offset: 11462},
+										pos: position{line: 372, col: 10, offset: 11463},
 										exprs: []interface{}{
 											&labeledExpr{
-												pos:   position{line: 372, col: 10, offset: 11462},
+												pos:   position{line: 372, col: 10, offset: 11463},
 												label: "anchor",
 												expr: &actionExpr{
-													pos: position{line: 404, col: 5, offset: 12405},
+													pos: position{line: 404, col: 5, offset: 12406},
 													run: (*parser).callonBlockAttributes8,
 													expr: &seqExpr{
-														pos: position{line: 404, col: 5, offset: 12405},
+														pos: position{line: 404, col: 5, offset: 12406},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 404, col: 5, offset: 12405},
+																pos:        position{line: 404, col: 5, offset: 12406},
 																val:        "[[",
 																ignoreCase: false,
 																want:       "\"[[\"",
 															},
 															&labeledExpr{
-																pos:   position{line: 405, col: 5, offset: 12415},
+																pos:   position{line: 405, col: 5, offset: 12416},
 																label: "id",
 																expr: &actionExpr{
-																	pos: position{line: 406, col: 9, offset: 12428},
+																	pos: position{line: 406, col: 9, offset: 12429},
 																	run: (*parser).callonBlockAttributes12,
 																	expr: &labeledExpr{
-																		pos:   position{line: 406, col: 9, offset: 12428},
+																		pos:   position{line: 406, col: 9, offset: 12429},
 																		label: "elements",
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 406, col: 18, offset: 12437},
+																			pos: position{line: 406, col: 18, offset: 12438},
 																			expr: &choiceExpr{
-																				pos: position{line: 407, col: 13, offset: 12451},
+																				pos: position{line: 407, col: 13, offset: 12452},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 407, col: 14, offset: 12452},
+																						pos: position{line: 407, col: 14, offset: 12453},
 																						run: (*parser).callonBlockAttributes16,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 407, col: 14, offset: 12452},
+																							pos: position{line: 407, col: 14, offset: 12453},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 407, col: 14, offset: 12452},
+																								pos:        position{line: 407, col: 14, offset: 12453},
 																								val:        "[^=\\r\\n�{]]",
 																								chars:      []rune{'=', '\r', '\n', '�', '{', ']'},
 																								ignoreCase: false,
@@ -11457,27 +11457,27 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1198, col: 23, offset: 37045},
+																						pos: position{line: 1198, col: 23, offset: 37046},
 																						run: (*parser).callonBlockAttributes19,
 																						expr: &seqExpr{
-																							pos: position{line: 1198, col: 23, offset: 37045},
+																							pos: position{line: 1198, col: 23, offset: 37046},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1196, col: 32, offset: 37013},
+																									pos:        position{line: 1196, col: 32, offset: 37014},
 																									val:        "�",
 																									ignoreCase: false,
 																									want:       "\"�\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1198, col: 51, offset: 37073},
+																									pos:   position{line: 1198, col: 51, offset: 37074},
 																									label: "ref",
 																									expr: &actionExpr{
-																										pos: position{line: 1198, col: 56, offset: 37078},
+																										pos: position{line: 1198, col: 56, offset: 37079},
 																										run: (*parser).callonBlockAttributes23,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1198, col: 56, offset: 37078},
+																											pos: position{line: 1198, col: 56, offset: 37079},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1198, col: 56, offset: 37078},
+																												pos:        position{line: 1198, col: 56, offset: 37079},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -11487,7 +11487,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1196, col: 32, offset: 37013},
+																									pos:        position{line: 1196, col: 32, offset: 37014},
 																									val:        "�",
 																									ignoreCase: false,
 																									want:       "\"�\"",
@@ -11496,35 +11496,35 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 636, col: 5, offset: 20177},
+																						pos: position{line: 636, col: 5, offset: 20178},
 																						run: (*parser).callonBlockAttributes27,
 																						expr: &seqExpr{
-																							pos: position{line: 636, col: 5, offset: 20177},
+																							pos: position{line: 636, col: 5, offset: 20178},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 636, col: 5, offset: 20177},
+																									pos: position{line: 636, col: 5, offset: 20178},
 																									run: (*parser).callonBlockAttributes29,
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 639, col: 5, offset: 20249},
+																									pos:   position{line: 639, col: 5, offset: 20250},
 																									label: "element",
 																									expr: &choiceExpr{
-																										pos: position{line: 639, col: 14, offset: 20258},
+																										pos: position{line: 639, col: 14, offset: 20259},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 645, col: 5, offset: 20387},
+																												pos: position{line: 645, col: 5, offset: 20388},
 																												run: (*parser).callonBlockAttributes32,
 																												expr: &seqExpr{
-																													pos: position{line: 645, col: 5, offset: 20387},
+																													pos: position{line: 645, col: 5, offset: 20388},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 645, col: 5, offset: 20387},
+																															pos:        position{line: 645, col: 5, offset: 20388},
 																															val:        "\\{",
 																															ignoreCase: false,
 																															want:       "\"\\\\{\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 645, col: 13, offset: 20395},
+																															pos:   position{line: 645, col: 13, offset: 20396},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 318, col: 18, offset: 9729},
@@ -11544,8 +11544,8 @@ var g = &grammar{
 																																			pos: position{line: 318, col: 28, offset: 9739},
 																																			expr: &charClassMatcher{
 																																				pos:        position{line: 318, col: 29, offset: 9740},
-																																				val:        "[-\\pL\\pN]",
-																																				chars:      []rune{'-'},
+																																				val:        "[_-\\pL\\pN]",
+																																				chars:      []rune{'_', '-'},
 																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																				ignoreCase: false,
 																																				inverted:   false,
@@ -11556,7 +11556,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 645, col: 32, offset: 20414},
+																															pos:        position{line: 645, col: 32, offset: 20415},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11565,19 +11565,19 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 652, col: 5, offset: 20655},
+																												pos: position{line: 652, col: 5, offset: 20656},
 																												run: (*parser).callonBlockAttributes42,
 																												expr: &seqExpr{
-																													pos: position{line: 652, col: 5, offset: 20655},
+																													pos: position{line: 652, col: 5, offset: 20656},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 652, col: 5, offset: 20655},
+																															pos:        position{line: 652, col: 5, offset: 20656},
 																															val:        "{",
 																															ignoreCase: false,
 																															want:       "\"{\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 652, col: 9, offset: 20659},
+																															pos:   position{line: 652, col: 9, offset: 20660},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 318, col: 18, offset: 9729},
@@ -11597,8 +11597,8 @@ var g = &grammar{
 																																			pos: position{line: 318, col: 28, offset: 9739},
 																																			expr: &charClassMatcher{
 																																				pos:        position{line: 318, col: 29, offset: 9740},
-																																				val:        "[-\\pL\\pN]",
-																																				chars:      []rune{'-'},
+																																				val:        "[_-\\pL\\pN]",
+																																				chars:      []rune{'_', '-'},
 																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																				ignoreCase: false,
 																																				inverted:   false,
@@ -11609,7 +11609,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 652, col: 28, offset: 20678},
+																															pos:        position{line: 652, col: 28, offset: 20679},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11618,19 +11618,19 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 658, col: 25, offset: 20859},
+																												pos: position{line: 658, col: 25, offset: 20860},
 																												run: (*parser).callonBlockAttributes52,
 																												expr: &seqExpr{
-																													pos: position{line: 658, col: 25, offset: 20859},
+																													pos: position{line: 658, col: 25, offset: 20860},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 658, col: 25, offset: 20859},
+																															pos:        position{line: 658, col: 25, offset: 20860},
 																															val:        "{counter:",
 																															ignoreCase: false,
 																															want:       "\"{counter:\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 658, col: 37, offset: 20871},
+																															pos:   position{line: 658, col: 37, offset: 20872},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 318, col: 18, offset: 9729},
@@ -11650,8 +11650,8 @@ var g = &grammar{
 																																			pos: position{line: 318, col: 28, offset: 9739},
 																																			expr: &charClassMatcher{
 																																				pos:        position{line: 318, col: 29, offset: 9740},
-																																				val:        "[-\\pL\\pN]",
-																																				chars:      []rune{'-'},
+																																				val:        "[_-\\pL\\pN]",
+																																				chars:      []rune{'_', '-'},
 																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																				ignoreCase: false,
 																																				inverted:   false,
@@ -11662,33 +11662,33 @@ var g = &grammar{
 																															},
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 658, col: 56, offset: 20890},
+																															pos:   position{line: 658, col: 56, offset: 20891},
 																															label: "start",
 																															expr: &zeroOrOneExpr{
-																																pos: position{line: 658, col: 62, offset: 20896},
+																																pos: position{line: 658, col: 62, offset: 20897},
 																																expr: &actionExpr{
-																																	pos: position{line: 666, col: 17, offset: 21191},
+																																	pos: position{line: 666, col: 17, offset: 21192},
 																																	run: (*parser).callonBlockAttributes63,
 																																	expr: &seqExpr{
-																																		pos: position{line: 666, col: 17, offset: 21191},
+																																		pos: position{line: 666, col: 17, offset: 21192},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 666, col: 17, offset: 21191},
+																																				pos:        position{line: 666, col: 17, offset: 21192},
 																																				val:        ":",
 																																				ignoreCase: false,
 																																				want:       "\":\"",
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 666, col: 21, offset: 21195},
+																																				pos:   position{line: 666, col: 21, offset: 21196},
 																																				label: "start",
 																																				expr: &choiceExpr{
-																																					pos: position{line: 666, col: 28, offset: 21202},
+																																					pos: position{line: 666, col: 28, offset: 21203},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 666, col: 28, offset: 21202},
+																																							pos: position{line: 666, col: 28, offset: 21203},
 																																							run: (*parser).callonBlockAttributes68,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 666, col: 28, offset: 21202},
+																																								pos:        position{line: 666, col: 28, offset: 21203},
 																																								val:        "[A-Za-z]",
 																																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																								ignoreCase: false,
@@ -11696,12 +11696,12 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&actionExpr{
-																																							pos: position{line: 668, col: 9, offset: 21256},
+																																							pos: position{line: 668, col: 9, offset: 21257},
 																																							run: (*parser).callonBlockAttributes70,
 																																							expr: &oneOrMoreExpr{
-																																								pos: position{line: 668, col: 9, offset: 21256},
+																																								pos: position{line: 668, col: 9, offset: 21257},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 668, col: 9, offset: 21256},
+																																									pos:        position{line: 668, col: 9, offset: 21257},
 																																									val:        "[0-9]",
 																																									ranges:     []rune{'0', '9'},
 																																									ignoreCase: false,
@@ -11718,7 +11718,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 658, col: 78, offset: 20912},
+																															pos:        position{line: 658, col: 78, offset: 20913},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11727,19 +11727,19 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 662, col: 25, offset: 21030},
+																												pos: position{line: 662, col: 25, offset: 21031},
 																												run: (*parser).callonBlockAttributes74,
 																												expr: &seqExpr{
-																													pos: position{line: 662, col: 25, offset: 21030},
+																													pos: position{line: 662, col: 25, offset: 21031},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 662, col: 25, offset: 21030},
+																															pos:        position{line: 662, col: 25, offset: 21031},
 																															val:        "{counter2:",
 																															ignoreCase: false,
 																															want:       "\"{counter2:\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 662, col: 38, offset: 21043},
+																															pos:   position{line: 662, col: 38, offset: 21044},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 318, col: 18, offset: 9729},
@@ -11759,8 +11759,8 @@ var g = &grammar{
 																																			pos: position{line: 318, col: 28, offset: 9739},
 																																			expr: &charClassMatcher{
 																																				pos:        position{line: 318, col: 29, offset: 9740},
-																																				val:        "[-\\pL\\pN]",
-																																				chars:      []rune{'-'},
+																																				val:        "[_-\\pL\\pN]",
+																																				chars:      []rune{'_', '-'},
 																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																				ignoreCase: false,
 																																				inverted:   false,
@@ -11771,33 +11771,33 @@ var g = &grammar{
 																															},
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 662, col: 57, offset: 21062},
+																															pos:   position{line: 662, col: 57, offset: 21063},
 																															label: "start",
 																															expr: &zeroOrOneExpr{
-																																pos: position{line: 662, col: 63, offset: 21068},
+																																pos: position{line: 662, col: 63, offset: 21069},
 																																expr: &actionExpr{
-																																	pos: position{line: 666, col: 17, offset: 21191},
+																																	pos: position{line: 666, col: 17, offset: 21192},
 																																	run: (*parser).callonBlockAttributes85,
 																																	expr: &seqExpr{
-																																		pos: position{line: 666, col: 17, offset: 21191},
+																																		pos: position{line: 666, col: 17, offset: 21192},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 666, col: 17, offset: 21191},
+																																				pos:        position{line: 666, col: 17, offset: 21192},
 																																				val:        ":",
 																																				ignoreCase: false,
 																																				want:       "\":\"",
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 666, col: 21, offset: 21195},
+																																				pos:   position{line: 666, col: 21, offset: 21196},
 																																				label: "start",
 																																				expr: &choiceExpr{
-																																					pos: position{line: 666, col: 28, offset: 21202},
+																																					pos: position{line: 666, col: 28, offset: 21203},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 666, col: 28, offset: 21202},
+																																							pos: position{line: 666, col: 28, offset: 21203},
 																																							run: (*parser).callonBlockAttributes90,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 666, col: 28, offset: 21202},
+																																								pos:        position{line: 666, col: 28, offset: 21203},
 																																								val:        "[A-Za-z]",
 																																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																								ignoreCase: false,
@@ -11805,12 +11805,12 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&actionExpr{
-																																							pos: position{line: 668, col: 9, offset: 21256},
+																																							pos: position{line: 668, col: 9, offset: 21257},
 																																							run: (*parser).callonBlockAttributes92,
 																																							expr: &oneOrMoreExpr{
-																																								pos: position{line: 668, col: 9, offset: 21256},
+																																								pos: position{line: 668, col: 9, offset: 21257},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 668, col: 9, offset: 21256},
+																																									pos:        position{line: 668, col: 9, offset: 21257},
 																																									val:        "[0-9]",
 																																									ranges:     []rune{'0', '9'},
 																																									ignoreCase: false,
@@ -11827,7 +11827,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 662, col: 79, offset: 21084},
+																															pos:        position{line: 662, col: 79, offset: 21085},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11842,10 +11842,10 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 412, col: 16, offset: 12685},
+																						pos: position{line: 412, col: 16, offset: 12686},
 																						run: (*parser).callonBlockAttributes96,
 																						expr: &litMatcher{
-																							pos:        position{line: 412, col: 16, offset: 12685},
+																							pos:        position{line: 412, col: 16, offset: 12686},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
@@ -11858,7 +11858,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 418, col: 5, offset: 12871},
+																pos:        position{line: 418, col: 5, offset: 12872},
 																val:        "]]",
 																ignoreCase: false,
 																want:       "\"]]\"",
@@ -11868,12 +11868,12 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 372, col: 35, offset: 11487},
+												pos: position{line: 372, col: 35, offset: 11488},
 												expr: &actionExpr{
-													pos: position{line: 2876, col: 10, offset: 90951},
+													pos: position{line: 2876, col: 10, offset: 90952},
 													run: (*parser).callonBlockAttributes100,
 													expr: &charClassMatcher{
-														pos:        position{line: 2876, col: 10, offset: 90951},
+														pos:        position{line: 2876, col: 10, offset: 90952},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11882,28 +11882,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2898, col: 8, offset: 91349},
+												pos: position{line: 2898, col: 8, offset: 91350},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2885, col: 12, offset: 91122},
+														pos: position{line: 2885, col: 12, offset: 91123},
 														run: (*parser).callonBlockAttributes103,
 														expr: &choiceExpr{
-															pos: position{line: 2885, col: 13, offset: 91123},
+															pos: position{line: 2885, col: 13, offset: 91124},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2885, col: 13, offset: 91123},
+																	pos:        position{line: 2885, col: 13, offset: 91124},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2885, col: 20, offset: 91130},
+																	pos:        position{line: 2885, col: 20, offset: 91131},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2885, col: 29, offset: 91139},
+																	pos:        position{line: 2885, col: 29, offset: 91140},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11912,34 +11912,34 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2895, col: 8, offset: 91299},
+														pos: position{line: 2895, col: 8, offset: 91300},
 														expr: &anyMatcher{
-															line: 2895, col: 9, offset: 91300,
+															line: 2895, col: 9, offset: 91301,
 														},
 													},
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 372, col: 46, offset: 11498},
+												pos: position{line: 372, col: 46, offset: 11499},
 												expr: &actionExpr{
-													pos: position{line: 677, col: 14, offset: 21557},
+													pos: position{line: 677, col: 14, offset: 21558},
 													run: (*parser).callonBlockAttributes111,
 													expr: &seqExpr{
-														pos: position{line: 677, col: 14, offset: 21557},
+														pos: position{line: 677, col: 14, offset: 21558},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2893, col: 11, offset: 91285},
+																pos: position{line: 2893, col: 11, offset: 91286},
 																expr: &anyMatcher{
-																	line: 2893, col: 13, offset: 91287,
+																	line: 2893, col: 13, offset: 91288,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 677, col: 21, offset: 21564},
+																pos: position{line: 677, col: 21, offset: 21565},
 																expr: &actionExpr{
-																	pos: position{line: 2876, col: 10, offset: 90951},
+																	pos: position{line: 2876, col: 10, offset: 90952},
 																	run: (*parser).callonBlockAttributes116,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2876, col: 10, offset: 90951},
+																		pos:        position{line: 2876, col: 10, offset: 90952},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -11948,28 +11948,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2898, col: 8, offset: 91349},
+																pos: position{line: 2898, col: 8, offset: 91350},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2885, col: 12, offset: 91122},
+																		pos: position{line: 2885, col: 12, offset: 91123},
 																		run: (*parser).callonBlockAttributes119,
 																		expr: &choiceExpr{
-																			pos: position{line: 2885, col: 13, offset: 91123},
+																			pos: position{line: 2885, col: 13, offset: 91124},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 13, offset: 91123},
+																					pos:        position{line: 2885, col: 13, offset: 91124},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 20, offset: 91130},
+																					pos:        position{line: 2885, col: 20, offset: 91131},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 29, offset: 91139},
+																					pos:        position{line: 2885, col: 29, offset: 91140},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -11978,9 +11978,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91299},
+																		pos: position{line: 2895, col: 8, offset: 91300},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91300,
+																			line: 2895, col: 9, offset: 91301,
 																		},
 																	},
 																},
@@ -11993,30 +11993,30 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 376, col: 12, offset: 11619},
+									pos: position{line: 376, col: 12, offset: 11620},
 									run: (*parser).callonBlockAttributes126,
 									expr: &seqExpr{
-										pos: position{line: 376, col: 12, offset: 11619},
+										pos: position{line: 376, col: 12, offset: 11620},
 										exprs: []interface{}{
 											&labeledExpr{
-												pos:   position{line: 376, col: 12, offset: 11619},
+												pos:   position{line: 376, col: 12, offset: 11620},
 												label: "title",
 												expr: &actionExpr{
-													pos: position{line: 423, col: 19, offset: 12990},
+													pos: position{line: 423, col: 19, offset: 12991},
 													run: (*parser).callonBlockAttributes129,
 													expr: &seqExpr{
-														pos: position{line: 423, col: 19, offset: 12990},
+														pos: position{line: 423, col: 19, offset: 12991},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 423, col: 19, offset: 12990},
+																pos:        position{line: 423, col: 19, offset: 12991},
 																val:        ".",
 																ignoreCase: false,
 																want:       "\".\"",
 															},
 															&notExpr{
-																pos: position{line: 424, col: 5, offset: 12999},
+																pos: position{line: 424, col: 5, offset: 13000},
 																expr: &charClassMatcher{
-																	pos:        position{line: 424, col: 6, offset: 13000},
+																	pos:        position{line: 424, col: 6, offset: 13001},
 																	val:        "[. ]",
 																	chars:      []rune{'.', ' '},
 																	ignoreCase: false,
@@ -12024,20 +12024,20 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 425, col: 5, offset: 13112},
+																pos:   position{line: 425, col: 5, offset: 13113},
 																label: "elements",
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 425, col: 14, offset: 13121},
+																	pos: position{line: 425, col: 14, offset: 13122},
 																	expr: &choiceExpr{
-																		pos: position{line: 426, col: 9, offset: 13131},
+																		pos: position{line: 426, col: 9, offset: 13132},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2770, col: 14, offset: 88120},
+																				pos: position{line: 2770, col: 14, offset: 88121},
 																				run: (*parser).callonBlockAttributes137,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2770, col: 14, offset: 88120},
+																					pos: position{line: 2770, col: 14, offset: 88121},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2770, col: 14, offset: 88120},
+																						pos:        position{line: 2770, col: 14, offset: 88121},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -12046,10 +12046,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 90951},
+																				pos: position{line: 2876, col: 10, offset: 90952},
 																				run: (*parser).callonBlockAttributes140,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 90951},
+																					pos:        position{line: 2876, col: 10, offset: 90952},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -12057,27 +12057,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2793, col: 5, offset: 88605},
+																				pos: position{line: 2793, col: 5, offset: 88606},
 																				run: (*parser).callonBlockAttributes142,
 																				expr: &choiceExpr{
-																					pos: position{line: 2794, col: 9, offset: 88615},
+																					pos: position{line: 2794, col: 9, offset: 88616},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2794, col: 10, offset: 88616},
+																							pos:        position{line: 2794, col: 10, offset: 88617},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2796, col: 13, offset: 88713},
+																							pos: position{line: 2796, col: 13, offset: 88714},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2796, col: 13, offset: 88713},
+																									pos: position{line: 2796, col: 13, offset: 88714},
 																									run: (*parser).callonBlockAttributes146,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2799, col: 13, offset: 88813},
+																									pos:        position{line: 2799, col: 13, offset: 88814},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -12085,20 +12085,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2799, col: 19, offset: 88819},
+																							pos:        position{line: 2799, col: 19, offset: 88820},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2802, col: 13, offset: 88857},
+																							pos: position{line: 2802, col: 13, offset: 88858},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2802, col: 13, offset: 88857},
+																									pos: position{line: 2802, col: 13, offset: 88858},
 																									run: (*parser).callonBlockAttributes150,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2805, col: 14, offset: 88950},
+																									pos:        position{line: 2805, col: 14, offset: 88951},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -12107,18 +12107,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2807, col: 12, offset: 88994},
+																							pos: position{line: 2807, col: 12, offset: 88995},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2807, col: 12, offset: 88994},
+																									pos:        position{line: 2807, col: 12, offset: 88995},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2807, col: 16, offset: 88998},
+																									pos: position{line: 2807, col: 16, offset: 88999},
 																									expr: &litMatcher{
-																										pos:        position{line: 2807, col: 17, offset: 88999},
+																										pos:        position{line: 2807, col: 17, offset: 89000},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12130,19 +12130,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 645, col: 5, offset: 20387},
+																				pos: position{line: 645, col: 5, offset: 20388},
 																				run: (*parser).callonBlockAttributes156,
 																				expr: &seqExpr{
-																					pos: position{line: 645, col: 5, offset: 20387},
+																					pos: position{line: 645, col: 5, offset: 20388},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 645, col: 5, offset: 20387},
+																							pos:        position{line: 645, col: 5, offset: 20388},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 645, col: 13, offset: 20395},
+																							pos:   position{line: 645, col: 13, offset: 20396},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 318, col: 18, offset: 9729},
@@ -12162,8 +12162,8 @@ var g = &grammar{
 																											pos: position{line: 318, col: 28, offset: 9739},
 																											expr: &charClassMatcher{
 																												pos:        position{line: 318, col: 29, offset: 9740},
-																												val:        "[-\\pL\\pN]",
-																												chars:      []rune{'-'},
+																												val:        "[_-\\pL\\pN]",
+																												chars:      []rune{'_', '-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																												ignoreCase: false,
 																												inverted:   false,
@@ -12174,7 +12174,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 645, col: 32, offset: 20414},
+																							pos:        position{line: 645, col: 32, offset: 20415},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -12183,19 +12183,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 652, col: 5, offset: 20655},
+																				pos: position{line: 652, col: 5, offset: 20656},
 																				run: (*parser).callonBlockAttributes166,
 																				expr: &seqExpr{
-																					pos: position{line: 652, col: 5, offset: 20655},
+																					pos: position{line: 652, col: 5, offset: 20656},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 652, col: 5, offset: 20655},
+																							pos:        position{line: 652, col: 5, offset: 20656},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 652, col: 9, offset: 20659},
+																							pos:   position{line: 652, col: 9, offset: 20660},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 318, col: 18, offset: 9729},
@@ -12215,8 +12215,8 @@ var g = &grammar{
 																											pos: position{line: 318, col: 28, offset: 9739},
 																											expr: &charClassMatcher{
 																												pos:        position{line: 318, col: 29, offset: 9740},
-																												val:        "[-\\pL\\pN]",
-																												chars:      []rune{'-'},
+																												val:        "[_-\\pL\\pN]",
+																												chars:      []rune{'_', '-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																												ignoreCase: false,
 																												inverted:   false,
@@ -12227,7 +12227,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 652, col: 28, offset: 20678},
+																							pos:        position{line: 652, col: 28, offset: 20679},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -12236,10 +12236,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2815, col: 12, offset: 89259},
+																				pos: position{line: 2815, col: 12, offset: 89260},
 																				run: (*parser).callonBlockAttributes176,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2815, col: 12, offset: 89259},
+																					pos:        position{line: 2815, col: 12, offset: 89260},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12255,12 +12255,12 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 376, col: 35, offset: 11642},
+												pos: position{line: 376, col: 35, offset: 11643},
 												expr: &actionExpr{
-													pos: position{line: 2876, col: 10, offset: 90951},
+													pos: position{line: 2876, col: 10, offset: 90952},
 													run: (*parser).callonBlockAttributes179,
 													expr: &charClassMatcher{
-														pos:        position{line: 2876, col: 10, offset: 90951},
+														pos:        position{line: 2876, col: 10, offset: 90952},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12269,28 +12269,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2898, col: 8, offset: 91349},
+												pos: position{line: 2898, col: 8, offset: 91350},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2885, col: 12, offset: 91122},
+														pos: position{line: 2885, col: 12, offset: 91123},
 														run: (*parser).callonBlockAttributes182,
 														expr: &choiceExpr{
-															pos: position{line: 2885, col: 13, offset: 91123},
+															pos: position{line: 2885, col: 13, offset: 91124},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2885, col: 13, offset: 91123},
+																	pos:        position{line: 2885, col: 13, offset: 91124},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2885, col: 20, offset: 91130},
+																	pos:        position{line: 2885, col: 20, offset: 91131},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2885, col: 29, offset: 91139},
+																	pos:        position{line: 2885, col: 29, offset: 91140},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12299,34 +12299,34 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2895, col: 8, offset: 91299},
+														pos: position{line: 2895, col: 8, offset: 91300},
 														expr: &anyMatcher{
-															line: 2895, col: 9, offset: 91300,
+															line: 2895, col: 9, offset: 91301,
 														},
 													},
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 376, col: 46, offset: 11653},
+												pos: position{line: 376, col: 46, offset: 11654},
 												expr: &actionExpr{
-													pos: position{line: 677, col: 14, offset: 21557},
+													pos: position{line: 677, col: 14, offset: 21558},
 													run: (*parser).callonBlockAttributes190,
 													expr: &seqExpr{
-														pos: position{line: 677, col: 14, offset: 21557},
+														pos: position{line: 677, col: 14, offset: 21558},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2893, col: 11, offset: 91285},
+																pos: position{line: 2893, col: 11, offset: 91286},
 																expr: &anyMatcher{
-																	line: 2893, col: 13, offset: 91287,
+																	line: 2893, col: 13, offset: 91288,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 677, col: 21, offset: 21564},
+																pos: position{line: 677, col: 21, offset: 21565},
 																expr: &actionExpr{
-																	pos: position{line: 2876, col: 10, offset: 90951},
+																	pos: position{line: 2876, col: 10, offset: 90952},
 																	run: (*parser).callonBlockAttributes195,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2876, col: 10, offset: 90951},
+																		pos:        position{line: 2876, col: 10, offset: 90952},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12335,28 +12335,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2898, col: 8, offset: 91349},
+																pos: position{line: 2898, col: 8, offset: 91350},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2885, col: 12, offset: 91122},
+																		pos: position{line: 2885, col: 12, offset: 91123},
 																		run: (*parser).callonBlockAttributes198,
 																		expr: &choiceExpr{
-																			pos: position{line: 2885, col: 13, offset: 91123},
+																			pos: position{line: 2885, col: 13, offset: 91124},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 13, offset: 91123},
+																					pos:        position{line: 2885, col: 13, offset: 91124},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 20, offset: 91130},
+																					pos:        position{line: 2885, col: 20, offset: 91131},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 29, offset: 91139},
+																					pos:        position{line: 2885, col: 29, offset: 91140},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12365,9 +12365,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91299},
+																		pos: position{line: 2895, col: 8, offset: 91300},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91300,
+																			line: 2895, col: 9, offset: 91301,
 																		},
 																	},
 																},
@@ -12380,19 +12380,19 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 380, col: 12, offset: 11743},
+									pos: position{line: 380, col: 12, offset: 11744},
 									run: (*parser).callonBlockAttributes205,
 									expr: &seqExpr{
-										pos: position{line: 380, col: 12, offset: 11743},
+										pos: position{line: 380, col: 12, offset: 11744},
 										exprs: []interface{}{
 											&labeledExpr{
-												pos:   position{line: 380, col: 12, offset: 11743},
+												pos:   position{line: 380, col: 12, offset: 11744},
 												label: "start",
 												expr: &actionExpr{
-													pos: position{line: 2901, col: 16, offset: 91473},
+													pos: position{line: 2901, col: 16, offset: 91474},
 													run: (*parser).callonBlockAttributes208,
 													expr: &litMatcher{
-														pos:        position{line: 2901, col: 16, offset: 91473},
+														pos:        position{line: 2901, col: 16, offset: 91474},
 														val:        "",
 														ignoreCase: false,
 														want:       "\"\"",
@@ -12400,20 +12400,20 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 380, col: 32, offset: 11763},
+												pos:   position{line: 380, col: 32, offset: 11764},
 												label: "attributes",
 												expr: &ruleRefExpr{
-													pos:  position{line: 380, col: 44, offset: 11775},
+													pos:  position{line: 380, col: 44, offset: 11776},
 													name: "LongHandAttributes",
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 380, col: 64, offset: 11795},
+												pos: position{line: 380, col: 64, offset: 11796},
 												expr: &actionExpr{
-													pos: position{line: 2876, col: 10, offset: 90951},
+													pos: position{line: 2876, col: 10, offset: 90952},
 													run: (*parser).callonBlockAttributes213,
 													expr: &charClassMatcher{
-														pos:        position{line: 2876, col: 10, offset: 90951},
+														pos:        position{line: 2876, col: 10, offset: 90952},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12422,13 +12422,13 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 380, col: 71, offset: 11802},
+												pos:   position{line: 380, col: 71, offset: 11803},
 												label: "end",
 												expr: &actionExpr{
-													pos: position{line: 2901, col: 16, offset: 91473},
+													pos: position{line: 2901, col: 16, offset: 91474},
 													run: (*parser).callonBlockAttributes216,
 													expr: &litMatcher{
-														pos:        position{line: 2901, col: 16, offset: 91473},
+														pos:        position{line: 2901, col: 16, offset: 91474},
 														val:        "",
 														ignoreCase: false,
 														want:       "\"\"",
@@ -12436,32 +12436,32 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 380, col: 89, offset: 11820},
+												pos: position{line: 380, col: 89, offset: 11821},
 												run: (*parser).callonBlockAttributes218,
 											},
 											&choiceExpr{
-												pos: position{line: 2898, col: 8, offset: 91349},
+												pos: position{line: 2898, col: 8, offset: 91350},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2885, col: 12, offset: 91122},
+														pos: position{line: 2885, col: 12, offset: 91123},
 														run: (*parser).callonBlockAttributes220,
 														expr: &choiceExpr{
-															pos: position{line: 2885, col: 13, offset: 91123},
+															pos: position{line: 2885, col: 13, offset: 91124},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2885, col: 13, offset: 91123},
+																	pos:        position{line: 2885, col: 13, offset: 91124},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2885, col: 20, offset: 91130},
+																	pos:        position{line: 2885, col: 20, offset: 91131},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2885, col: 29, offset: 91139},
+																	pos:        position{line: 2885, col: 29, offset: 91140},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12470,34 +12470,34 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2895, col: 8, offset: 91299},
+														pos: position{line: 2895, col: 8, offset: 91300},
 														expr: &anyMatcher{
-															line: 2895, col: 9, offset: 91300,
+															line: 2895, col: 9, offset: 91301,
 														},
 													},
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 380, col: 123, offset: 11854},
+												pos: position{line: 380, col: 123, offset: 11855},
 												expr: &actionExpr{
-													pos: position{line: 677, col: 14, offset: 21557},
+													pos: position{line: 677, col: 14, offset: 21558},
 													run: (*parser).callonBlockAttributes228,
 													expr: &seqExpr{
-														pos: position{line: 677, col: 14, offset: 21557},
+														pos: position{line: 677, col: 14, offset: 21558},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2893, col: 11, offset: 91285},
+																pos: position{line: 2893, col: 11, offset: 91286},
 																expr: &anyMatcher{
-																	line: 2893, col: 13, offset: 91287,
+																	line: 2893, col: 13, offset: 91288,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 677, col: 21, offset: 21564},
+																pos: position{line: 677, col: 21, offset: 21565},
 																expr: &actionExpr{
-																	pos: position{line: 2876, col: 10, offset: 90951},
+																	pos: position{line: 2876, col: 10, offset: 90952},
 																	run: (*parser).callonBlockAttributes233,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2876, col: 10, offset: 90951},
+																		pos:        position{line: 2876, col: 10, offset: 90952},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12506,28 +12506,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2898, col: 8, offset: 91349},
+																pos: position{line: 2898, col: 8, offset: 91350},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2885, col: 12, offset: 91122},
+																		pos: position{line: 2885, col: 12, offset: 91123},
 																		run: (*parser).callonBlockAttributes236,
 																		expr: &choiceExpr{
-																			pos: position{line: 2885, col: 13, offset: 91123},
+																			pos: position{line: 2885, col: 13, offset: 91124},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 13, offset: 91123},
+																					pos:        position{line: 2885, col: 13, offset: 91124},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 20, offset: 91130},
+																					pos:        position{line: 2885, col: 20, offset: 91131},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 29, offset: 91139},
+																					pos:        position{line: 2885, col: 29, offset: 91140},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12536,9 +12536,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91299},
+																		pos: position{line: 2895, col: 8, offset: 91300},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91300,
+																			line: 2895, col: 9, offset: 91301,
 																		},
 																	},
 																},
@@ -12558,51 +12558,51 @@ var g = &grammar{
 		},
 		{
 			name: "InlineAttributes",
-			pos:  position{line: 388, col: 1, offset: 12038},
+			pos:  position{line: 388, col: 1, offset: 12039},
 			expr: &actionExpr{
-				pos: position{line: 389, col: 5, offset: 12062},
+				pos: position{line: 389, col: 5, offset: 12063},
 				run: (*parser).callonInlineAttributes1,
 				expr: &seqExpr{
-					pos: position{line: 389, col: 5, offset: 12062},
+					pos: position{line: 389, col: 5, offset: 12063},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 389, col: 5, offset: 12062},
+							pos:        position{line: 389, col: 5, offset: 12063},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 390, col: 5, offset: 12070},
+							pos:   position{line: 390, col: 5, offset: 12071},
 							label: "attributes",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 390, col: 16, offset: 12081},
+								pos: position{line: 390, col: 16, offset: 12082},
 								expr: &actionExpr{
-									pos: position{line: 391, col: 9, offset: 12091},
+									pos: position{line: 391, col: 9, offset: 12092},
 									run: (*parser).callonInlineAttributes6,
 									expr: &seqExpr{
-										pos: position{line: 392, col: 13, offset: 12105},
+										pos: position{line: 392, col: 13, offset: 12106},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 392, col: 13, offset: 12105},
+												pos: position{line: 392, col: 13, offset: 12106},
 												expr: &litMatcher{
-													pos:        position{line: 392, col: 14, offset: 12106},
+													pos:        position{line: 392, col: 14, offset: 12107},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 393, col: 13, offset: 12138},
+												pos:   position{line: 393, col: 13, offset: 12139},
 												label: "attribute",
 												expr: &choiceExpr{
-													pos: position{line: 393, col: 24, offset: 12149},
+													pos: position{line: 393, col: 24, offset: 12150},
 													alternatives: []interface{}{
 														&ruleRefExpr{
-															pos:  position{line: 393, col: 24, offset: 12149},
+															pos:  position{line: 393, col: 24, offset: 12150},
 															name: "PositionalAttribute",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 393, col: 46, offset: 12171},
+															pos:  position{line: 393, col: 46, offset: 12172},
 															name: "NamedAttribute",
 														},
 													},
@@ -12614,7 +12614,7 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 398, col: 5, offset: 12254},
+							pos:        position{line: 398, col: 5, offset: 12255},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -12625,62 +12625,62 @@ var g = &grammar{
 		},
 		{
 			name: "LongHandAttributes",
-			pos:  position{line: 437, col: 1, offset: 13512},
+			pos:  position{line: 437, col: 1, offset: 13513},
 			expr: &actionExpr{
-				pos: position{line: 438, col: 5, offset: 13538},
+				pos: position{line: 438, col: 5, offset: 13539},
 				run: (*parser).callonLongHandAttributes1,
 				expr: &seqExpr{
-					pos: position{line: 438, col: 5, offset: 13538},
+					pos: position{line: 438, col: 5, offset: 13539},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 438, col: 5, offset: 13538},
+							pos: position{line: 438, col: 5, offset: 13539},
 							expr: &litMatcher{
-								pos:        position{line: 438, col: 6, offset: 13539},
+								pos:        position{line: 438, col: 6, offset: 13540},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 438, col: 10, offset: 13543},
+							pos:        position{line: 438, col: 10, offset: 13544},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&notExpr{
-							pos: position{line: 438, col: 14, offset: 13547},
+							pos: position{line: 438, col: 14, offset: 13548},
 							expr: &litMatcher{
-								pos:        position{line: 438, col: 15, offset: 13548},
+								pos:        position{line: 438, col: 15, offset: 13549},
 								val:        "[",
 								ignoreCase: false,
 								want:       "\"[\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 439, col: 5, offset: 13661},
+							pos:   position{line: 439, col: 5, offset: 13662},
 							label: "firstPositionalAttributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 439, col: 31, offset: 13687},
+								pos: position{line: 439, col: 31, offset: 13688},
 								expr: &ruleRefExpr{
-									pos:  position{line: 439, col: 32, offset: 13688},
+									pos:  position{line: 439, col: 32, offset: 13689},
 									name: "FirstPositionalAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 440, col: 5, offset: 13720},
+							pos:   position{line: 440, col: 5, offset: 13721},
 							label: "otherAttributes",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 440, col: 21, offset: 13736},
+								pos: position{line: 440, col: 21, offset: 13737},
 								expr: &choiceExpr{
-									pos: position{line: 440, col: 22, offset: 13737},
+									pos: position{line: 440, col: 22, offset: 13738},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 440, col: 22, offset: 13737},
+											pos:  position{line: 440, col: 22, offset: 13738},
 											name: "PositionalAttribute",
 										},
 										&ruleRefExpr{
-											pos:  position{line: 440, col: 44, offset: 13759},
+											pos:  position{line: 440, col: 44, offset: 13760},
 											name: "NamedAttribute",
 										},
 									},
@@ -12688,7 +12688,7 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 441, col: 5, offset: 13780},
+							pos:        position{line: 441, col: 5, offset: 13781},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -12699,69 +12699,69 @@ var g = &grammar{
 		},
 		{
 			name: "FirstPositionalAttributes",
-			pos:  position{line: 454, col: 1, offset: 14308},
+			pos:  position{line: 454, col: 1, offset: 14309},
 			expr: &actionExpr{
-				pos: position{line: 455, col: 5, offset: 14342},
+				pos: position{line: 455, col: 5, offset: 14343},
 				run: (*parser).callonFirstPositionalAttributes1,
 				expr: &seqExpr{
-					pos: position{line: 455, col: 5, offset: 14342},
+					pos: position{line: 455, col: 5, offset: 14343},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 455, col: 5, offset: 14342},
+							pos:   position{line: 455, col: 5, offset: 14343},
 							label: "main",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 455, col: 10, offset: 14347},
+								pos: position{line: 455, col: 10, offset: 14348},
 								expr: &ruleRefExpr{
-									pos:  position{line: 456, col: 9, offset: 14357},
+									pos:  position{line: 456, col: 9, offset: 14358},
 									name: "ShortHandAttribute",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 458, col: 5, offset: 14387},
+							pos:   position{line: 458, col: 5, offset: 14388},
 							label: "extras",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 458, col: 12, offset: 14394},
+								pos: position{line: 458, col: 12, offset: 14395},
 								expr: &actionExpr{
-									pos: position{line: 459, col: 9, offset: 14405},
+									pos: position{line: 459, col: 9, offset: 14406},
 									run: (*parser).callonFirstPositionalAttributes8,
 									expr: &seqExpr{
-										pos: position{line: 459, col: 9, offset: 14405},
+										pos: position{line: 459, col: 9, offset: 14406},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 459, col: 9, offset: 14405},
+												pos: position{line: 459, col: 9, offset: 14406},
 												expr: &litMatcher{
-													pos:        position{line: 459, col: 10, offset: 14406},
+													pos:        position{line: 459, col: 10, offset: 14407},
 													val:        ",",
 													ignoreCase: false,
 													want:       "\",\"",
 												},
 											},
 											&notExpr{
-												pos: position{line: 459, col: 14, offset: 14410},
+												pos: position{line: 459, col: 14, offset: 14411},
 												expr: &litMatcher{
-													pos:        position{line: 459, col: 15, offset: 14411},
+													pos:        position{line: 459, col: 15, offset: 14412},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 460, col: 9, offset: 14423},
+												pos:   position{line: 460, col: 9, offset: 14424},
 												label: "extra",
 												expr: &choiceExpr{
-													pos: position{line: 461, col: 13, offset: 14443},
+													pos: position{line: 461, col: 13, offset: 14444},
 													alternatives: []interface{}{
 														&ruleRefExpr{
-															pos:  position{line: 461, col: 13, offset: 14443},
+															pos:  position{line: 461, col: 13, offset: 14444},
 															name: "ShortHandIDAttribute",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 462, col: 15, offset: 14479},
+															pos:  position{line: 462, col: 15, offset: 14480},
 															name: "ShortHandOptionAttribute",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 463, col: 15, offset: 14518},
+															pos:  position{line: 463, col: 15, offset: 14519},
 															name: "ShortHandDotRoleAttribute",
 														},
 													},
@@ -12773,23 +12773,23 @@ var g = &grammar{
 							},
 						},
 						&zeroOrOneExpr{
-							pos: position{line: 466, col: 8, offset: 14594},
+							pos: position{line: 466, col: 8, offset: 14595},
 							expr: &seqExpr{
-								pos: position{line: 466, col: 9, offset: 14595},
+								pos: position{line: 466, col: 9, offset: 14596},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 466, col: 9, offset: 14595},
+										pos:        position{line: 466, col: 9, offset: 14596},
 										val:        ",",
 										ignoreCase: false,
 										want:       "\",\"",
 									},
 									&zeroOrMoreExpr{
-										pos: position{line: 466, col: 13, offset: 14599},
+										pos: position{line: 466, col: 13, offset: 14600},
 										expr: &actionExpr{
-											pos: position{line: 2876, col: 10, offset: 90951},
+											pos: position{line: 2876, col: 10, offset: 90952},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2876, col: 10, offset: 90951},
+												pos:        position{line: 2876, col: 10, offset: 90952},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -12801,7 +12801,7 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 467, col: 5, offset: 14613},
+							pos: position{line: 467, col: 5, offset: 14614},
 							run: (*parser).callonFirstPositionalAttributes25,
 						},
 					},
@@ -12810,24 +12810,24 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandIDAttribute",
-			pos:  position{line: 483, col: 1, offset: 15029},
+			pos:  position{line: 483, col: 1, offset: 15030},
 			expr: &actionExpr{
-				pos: position{line: 483, col: 25, offset: 15053},
+				pos: position{line: 483, col: 25, offset: 15054},
 				run: (*parser).callonShortHandIDAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 483, col: 25, offset: 15053},
+					pos: position{line: 483, col: 25, offset: 15054},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 483, col: 25, offset: 15053},
+							pos:        position{line: 483, col: 25, offset: 15054},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 483, col: 29, offset: 15057},
+							pos:   position{line: 483, col: 29, offset: 15058},
 							label: "id",
 							expr: &ruleRefExpr{
-								pos:  position{line: 483, col: 33, offset: 15061},
+								pos:  position{line: 483, col: 33, offset: 15062},
 								name: "ShortHandAttributeValue",
 							},
 						},
@@ -12837,15 +12837,15 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandAttribute",
-			pos:  position{line: 487, col: 1, offset: 15135},
+			pos:  position{line: 487, col: 1, offset: 15136},
 			expr: &actionExpr{
-				pos: position{line: 487, col: 23, offset: 15157},
+				pos: position{line: 487, col: 23, offset: 15158},
 				run: (*parser).callonShortHandAttribute1,
 				expr: &labeledExpr{
-					pos:   position{line: 487, col: 23, offset: 15157},
+					pos:   position{line: 487, col: 23, offset: 15158},
 					label: "value",
 					expr: &ruleRefExpr{
-						pos:  position{line: 487, col: 30, offset: 15164},
+						pos:  position{line: 487, col: 30, offset: 15165},
 						name: "ShortHandAttributeValue",
 					},
 				},
@@ -12853,24 +12853,24 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandDotRoleAttribute",
-			pos:  position{line: 492, col: 1, offset: 15290},
+			pos:  position{line: 492, col: 1, offset: 15291},
 			expr: &actionExpr{
-				pos: position{line: 492, col: 30, offset: 15319},
+				pos: position{line: 492, col: 30, offset: 15320},
 				run: (*parser).callonShortHandDotRoleAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 492, col: 30, offset: 15319},
+					pos: position{line: 492, col: 30, offset: 15320},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 492, col: 30, offset: 15319},
+							pos:        position{line: 492, col: 30, offset: 15320},
 							val:        ".",
 							ignoreCase: false,
 							want:       "\".\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 492, col: 34, offset: 15323},
+							pos:   position{line: 492, col: 34, offset: 15324},
 							label: "role",
 							expr: &ruleRefExpr{
-								pos:  position{line: 492, col: 40, offset: 15329},
+								pos:  position{line: 492, col: 40, offset: 15330},
 								name: "ShortHandAttributeValue",
 							},
 						},
@@ -12880,24 +12880,24 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandOptionAttribute",
-			pos:  position{line: 497, col: 1, offset: 15451},
+			pos:  position{line: 497, col: 1, offset: 15452},
 			expr: &actionExpr{
-				pos: position{line: 497, col: 29, offset: 15479},
+				pos: position{line: 497, col: 29, offset: 15480},
 				run: (*parser).callonShortHandOptionAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 497, col: 29, offset: 15479},
+					pos: position{line: 497, col: 29, offset: 15480},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 497, col: 29, offset: 15479},
+							pos:        position{line: 497, col: 29, offset: 15480},
 							val:        "%",
 							ignoreCase: false,
 							want:       "\"%\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 497, col: 33, offset: 15483},
+							pos:   position{line: 497, col: 33, offset: 15484},
 							label: "option",
 							expr: &ruleRefExpr{
-								pos:  position{line: 497, col: 41, offset: 15491},
+								pos:  position{line: 497, col: 41, offset: 15492},
 								name: "ShortHandAttributeValue",
 							},
 						},
@@ -12907,43 +12907,43 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandAttributeValue",
-			pos:  position{line: 502, col: 1, offset: 15604},
+			pos:  position{line: 502, col: 1, offset: 15605},
 			expr: &choiceExpr{
-				pos: position{line: 503, col: 5, offset: 15636},
+				pos: position{line: 503, col: 5, offset: 15637},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 503, col: 5, offset: 15636},
+						pos:  position{line: 503, col: 5, offset: 15637},
 						name: "SingleQuotedAttributeValue",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 504, col: 7, offset: 15670},
+						pos:  position{line: 504, col: 7, offset: 15671},
 						name: "DoubleQuotedAttributeValue",
 					},
 					&actionExpr{
-						pos: position{line: 505, col: 7, offset: 15704},
+						pos: position{line: 505, col: 7, offset: 15705},
 						run: (*parser).callonShortHandAttributeValue4,
 						expr: &seqExpr{
-							pos: position{line: 505, col: 7, offset: 15704},
+							pos: position{line: 505, col: 7, offset: 15705},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 505, col: 7, offset: 15704},
+									pos:   position{line: 505, col: 7, offset: 15705},
 									label: "elements",
 									expr: &oneOrMoreExpr{
-										pos: position{line: 505, col: 16, offset: 15713},
+										pos: position{line: 505, col: 16, offset: 15714},
 										expr: &choiceExpr{
-											pos: position{line: 508, col: 9, offset: 15895},
+											pos: position{line: 508, col: 9, offset: 15896},
 											alternatives: []interface{}{
 												&ruleRefExpr{
-													pos:  position{line: 508, col: 9, offset: 15895},
+													pos:  position{line: 508, col: 9, offset: 15896},
 													name: "QuotationMark",
 												},
 												&actionExpr{
-													pos: position{line: 509, col: 12, offset: 15921},
+													pos: position{line: 509, col: 12, offset: 15922},
 													run: (*parser).callonShortHandAttributeValue10,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 509, col: 12, offset: 15921},
+														pos: position{line: 509, col: 12, offset: 15922},
 														expr: &charClassMatcher{
-															pos:        position{line: 509, col: 12, offset: 15921},
+															pos:        position{line: 509, col: 12, offset: 15922},
 															val:        "[^,=.%# \\r\\n�{]]",
 															chars:      []rune{',', '=', '.', '%', '#', ' ', '\r', '\n', '�', '{', ']'},
 															ignoreCase: false,
@@ -12952,35 +12952,35 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 636, col: 5, offset: 20177},
+													pos: position{line: 636, col: 5, offset: 20178},
 													run: (*parser).callonShortHandAttributeValue13,
 													expr: &seqExpr{
-														pos: position{line: 636, col: 5, offset: 20177},
+														pos: position{line: 636, col: 5, offset: 20178},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 636, col: 5, offset: 20177},
+																pos: position{line: 636, col: 5, offset: 20178},
 																run: (*parser).callonShortHandAttributeValue15,
 															},
 															&labeledExpr{
-																pos:   position{line: 639, col: 5, offset: 20249},
+																pos:   position{line: 639, col: 5, offset: 20250},
 																label: "element",
 																expr: &choiceExpr{
-																	pos: position{line: 639, col: 14, offset: 20258},
+																	pos: position{line: 639, col: 14, offset: 20259},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 645, col: 5, offset: 20387},
+																			pos: position{line: 645, col: 5, offset: 20388},
 																			run: (*parser).callonShortHandAttributeValue18,
 																			expr: &seqExpr{
-																				pos: position{line: 645, col: 5, offset: 20387},
+																				pos: position{line: 645, col: 5, offset: 20388},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 645, col: 5, offset: 20387},
+																						pos:        position{line: 645, col: 5, offset: 20388},
 																						val:        "\\{",
 																						ignoreCase: false,
 																						want:       "\"\\\\{\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 645, col: 13, offset: 20395},
+																						pos:   position{line: 645, col: 13, offset: 20396},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 318, col: 18, offset: 9729},
@@ -13000,8 +13000,8 @@ var g = &grammar{
 																										pos: position{line: 318, col: 28, offset: 9739},
 																										expr: &charClassMatcher{
 																											pos:        position{line: 318, col: 29, offset: 9740},
-																											val:        "[-\\pL\\pN]",
-																											chars:      []rune{'-'},
+																											val:        "[_-\\pL\\pN]",
+																											chars:      []rune{'_', '-'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
 																											inverted:   false,
@@ -13012,7 +13012,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 645, col: 32, offset: 20414},
+																						pos:        position{line: 645, col: 32, offset: 20415},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13021,19 +13021,19 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 652, col: 5, offset: 20655},
+																			pos: position{line: 652, col: 5, offset: 20656},
 																			run: (*parser).callonShortHandAttributeValue28,
 																			expr: &seqExpr{
-																				pos: position{line: 652, col: 5, offset: 20655},
+																				pos: position{line: 652, col: 5, offset: 20656},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 652, col: 5, offset: 20655},
+																						pos:        position{line: 652, col: 5, offset: 20656},
 																						val:        "{",
 																						ignoreCase: false,
 																						want:       "\"{\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 652, col: 9, offset: 20659},
+																						pos:   position{line: 652, col: 9, offset: 20660},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 318, col: 18, offset: 9729},
@@ -13053,8 +13053,8 @@ var g = &grammar{
 																										pos: position{line: 318, col: 28, offset: 9739},
 																										expr: &charClassMatcher{
 																											pos:        position{line: 318, col: 29, offset: 9740},
-																											val:        "[-\\pL\\pN]",
-																											chars:      []rune{'-'},
+																											val:        "[_-\\pL\\pN]",
+																											chars:      []rune{'_', '-'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
 																											inverted:   false,
@@ -13065,7 +13065,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 652, col: 28, offset: 20678},
+																						pos:        position{line: 652, col: 28, offset: 20679},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13074,19 +13074,19 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 658, col: 25, offset: 20859},
+																			pos: position{line: 658, col: 25, offset: 20860},
 																			run: (*parser).callonShortHandAttributeValue38,
 																			expr: &seqExpr{
-																				pos: position{line: 658, col: 25, offset: 20859},
+																				pos: position{line: 658, col: 25, offset: 20860},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 658, col: 25, offset: 20859},
+																						pos:        position{line: 658, col: 25, offset: 20860},
 																						val:        "{counter:",
 																						ignoreCase: false,
 																						want:       "\"{counter:\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 658, col: 37, offset: 20871},
+																						pos:   position{line: 658, col: 37, offset: 20872},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 318, col: 18, offset: 9729},
@@ -13106,8 +13106,8 @@ var g = &grammar{
 																										pos: position{line: 318, col: 28, offset: 9739},
 																										expr: &charClassMatcher{
 																											pos:        position{line: 318, col: 29, offset: 9740},
-																											val:        "[-\\pL\\pN]",
-																											chars:      []rune{'-'},
+																											val:        "[_-\\pL\\pN]",
+																											chars:      []rune{'_', '-'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
 																											inverted:   false,
@@ -13118,33 +13118,33 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 658, col: 56, offset: 20890},
+																						pos:   position{line: 658, col: 56, offset: 20891},
 																						label: "start",
 																						expr: &zeroOrOneExpr{
-																							pos: position{line: 658, col: 62, offset: 20896},
+																							pos: position{line: 658, col: 62, offset: 20897},
 																							expr: &actionExpr{
-																								pos: position{line: 666, col: 17, offset: 21191},
+																								pos: position{line: 666, col: 17, offset: 21192},
 																								run: (*parser).callonShortHandAttributeValue49,
 																								expr: &seqExpr{
-																									pos: position{line: 666, col: 17, offset: 21191},
+																									pos: position{line: 666, col: 17, offset: 21192},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 666, col: 17, offset: 21191},
+																											pos:        position{line: 666, col: 17, offset: 21192},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 666, col: 21, offset: 21195},
+																											pos:   position{line: 666, col: 21, offset: 21196},
 																											label: "start",
 																											expr: &choiceExpr{
-																												pos: position{line: 666, col: 28, offset: 21202},
+																												pos: position{line: 666, col: 28, offset: 21203},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 666, col: 28, offset: 21202},
+																														pos: position{line: 666, col: 28, offset: 21203},
 																														run: (*parser).callonShortHandAttributeValue54,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 666, col: 28, offset: 21202},
+																															pos:        position{line: 666, col: 28, offset: 21203},
 																															val:        "[A-Za-z]",
 																															ranges:     []rune{'A', 'Z', 'a', 'z'},
 																															ignoreCase: false,
@@ -13152,12 +13152,12 @@ var g = &grammar{
 																														},
 																													},
 																													&actionExpr{
-																														pos: position{line: 668, col: 9, offset: 21256},
+																														pos: position{line: 668, col: 9, offset: 21257},
 																														run: (*parser).callonShortHandAttributeValue56,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 668, col: 9, offset: 21256},
+																															pos: position{line: 668, col: 9, offset: 21257},
 																															expr: &charClassMatcher{
-																																pos:        position{line: 668, col: 9, offset: 21256},
+																																pos:        position{line: 668, col: 9, offset: 21257},
 																																val:        "[0-9]",
 																																ranges:     []rune{'0', '9'},
 																																ignoreCase: false,
@@ -13174,7 +13174,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 658, col: 78, offset: 20912},
+																						pos:        position{line: 658, col: 78, offset: 20913},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13183,19 +13183,19 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 662, col: 25, offset: 21030},
+																			pos: position{line: 662, col: 25, offset: 21031},
 																			run: (*parser).callonShortHandAttributeValue60,
 																			expr: &seqExpr{
-																				pos: position{line: 662, col: 25, offset: 21030},
+																				pos: position{line: 662, col: 25, offset: 21031},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 662, col: 25, offset: 21030},
+																						pos:        position{line: 662, col: 25, offset: 21031},
 																						val:        "{counter2:",
 																						ignoreCase: false,
 																						want:       "\"{counter2:\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 662, col: 38, offset: 21043},
+																						pos:   position{line: 662, col: 38, offset: 21044},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 318, col: 18, offset: 9729},
@@ -13215,8 +13215,8 @@ var g = &grammar{
 																										pos: position{line: 318, col: 28, offset: 9739},
 																										expr: &charClassMatcher{
 																											pos:        position{line: 318, col: 29, offset: 9740},
-																											val:        "[-\\pL\\pN]",
-																											chars:      []rune{'-'},
+																											val:        "[_-\\pL\\pN]",
+																											chars:      []rune{'_', '-'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
 																											inverted:   false,
@@ -13227,33 +13227,33 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 662, col: 57, offset: 21062},
+																						pos:   position{line: 662, col: 57, offset: 21063},
 																						label: "start",
 																						expr: &zeroOrOneExpr{
-																							pos: position{line: 662, col: 63, offset: 21068},
+																							pos: position{line: 662, col: 63, offset: 21069},
 																							expr: &actionExpr{
-																								pos: position{line: 666, col: 17, offset: 21191},
+																								pos: position{line: 666, col: 17, offset: 21192},
 																								run: (*parser).callonShortHandAttributeValue71,
 																								expr: &seqExpr{
-																									pos: position{line: 666, col: 17, offset: 21191},
+																									pos: position{line: 666, col: 17, offset: 21192},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 666, col: 17, offset: 21191},
+																											pos:        position{line: 666, col: 17, offset: 21192},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 666, col: 21, offset: 21195},
+																											pos:   position{line: 666, col: 21, offset: 21196},
 																											label: "start",
 																											expr: &choiceExpr{
-																												pos: position{line: 666, col: 28, offset: 21202},
+																												pos: position{line: 666, col: 28, offset: 21203},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 666, col: 28, offset: 21202},
+																														pos: position{line: 666, col: 28, offset: 21203},
 																														run: (*parser).callonShortHandAttributeValue76,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 666, col: 28, offset: 21202},
+																															pos:        position{line: 666, col: 28, offset: 21203},
 																															val:        "[A-Za-z]",
 																															ranges:     []rune{'A', 'Z', 'a', 'z'},
 																															ignoreCase: false,
@@ -13261,12 +13261,12 @@ var g = &grammar{
 																														},
 																													},
 																													&actionExpr{
-																														pos: position{line: 668, col: 9, offset: 21256},
+																														pos: position{line: 668, col: 9, offset: 21257},
 																														run: (*parser).callonShortHandAttributeValue78,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 668, col: 9, offset: 21256},
+																															pos: position{line: 668, col: 9, offset: 21257},
 																															expr: &charClassMatcher{
-																																pos:        position{line: 668, col: 9, offset: 21256},
+																																pos:        position{line: 668, col: 9, offset: 21257},
 																																val:        "[0-9]",
 																																ranges:     []rune{'0', '9'},
 																																ignoreCase: false,
@@ -13283,7 +13283,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 662, col: 79, offset: 21084},
+																						pos:        position{line: 662, col: 79, offset: 21085},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13298,10 +13298,10 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 514, col: 12, offset: 16089},
+													pos: position{line: 514, col: 12, offset: 16090},
 													run: (*parser).callonShortHandAttributeValue82,
 													expr: &litMatcher{
-														pos:        position{line: 514, col: 12, offset: 16089},
+														pos:        position{line: 514, col: 12, offset: 16090},
 														val:        "{",
 														ignoreCase: false,
 														want:       "\"{\"",
@@ -13312,19 +13312,19 @@ var g = &grammar{
 									},
 								},
 								&andExpr{
-									pos: position{line: 518, col: 5, offset: 16177},
+									pos: position{line: 518, col: 5, offset: 16178},
 									expr: &notExpr{
-										pos: position{line: 518, col: 7, offset: 16179},
+										pos: position{line: 518, col: 7, offset: 16180},
 										expr: &seqExpr{
-											pos: position{line: 518, col: 9, offset: 16181},
+											pos: position{line: 518, col: 9, offset: 16182},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 518, col: 9, offset: 16181},
+													pos: position{line: 518, col: 9, offset: 16182},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 90951},
+														pos: position{line: 2876, col: 10, offset: 90952},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 90951},
+															pos:        position{line: 2876, col: 10, offset: 90952},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13333,7 +13333,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 518, col: 16, offset: 16188},
+													pos:        position{line: 518, col: 16, offset: 16189},
 													val:        "=",
 													ignoreCase: false,
 													want:       "\"=\"",
@@ -13350,45 +13350,45 @@ var g = &grammar{
 		},
 		{
 			name: "PositionalAttribute",
-			pos:  position{line: 523, col: 1, offset: 16266},
+			pos:  position{line: 523, col: 1, offset: 16267},
 			expr: &choiceExpr{
-				pos: position{line: 523, col: 24, offset: 16289},
+				pos: position{line: 523, col: 24, offset: 16290},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 524, col: 5, offset: 16295},
+						pos: position{line: 524, col: 5, offset: 16296},
 						run: (*parser).callonPositionalAttribute2,
 						expr: &seqExpr{
-							pos: position{line: 524, col: 5, offset: 16295},
+							pos: position{line: 524, col: 5, offset: 16296},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 524, col: 5, offset: 16295},
+									pos:   position{line: 524, col: 5, offset: 16296},
 									label: "value",
 									expr: &ruleRefExpr{
-										pos:  position{line: 524, col: 12, offset: 16302},
+										pos:  position{line: 524, col: 12, offset: 16303},
 										name: "AttributeValue",
 									},
 								},
 								&choiceExpr{
-									pos: position{line: 524, col: 29, offset: 16319},
+									pos: position{line: 524, col: 29, offset: 16320},
 									alternatives: []interface{}{
 										&zeroOrOneExpr{
-											pos: position{line: 524, col: 29, offset: 16319},
+											pos: position{line: 524, col: 29, offset: 16320},
 											expr: &seqExpr{
-												pos: position{line: 524, col: 30, offset: 16320},
+												pos: position{line: 524, col: 30, offset: 16321},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 524, col: 30, offset: 16320},
+														pos:        position{line: 524, col: 30, offset: 16321},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 524, col: 34, offset: 16324},
+														pos: position{line: 524, col: 34, offset: 16325},
 														expr: &actionExpr{
-															pos: position{line: 2876, col: 10, offset: 90951},
+															pos: position{line: 2876, col: 10, offset: 90952},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2876, col: 10, offset: 90951},
+																pos:        position{line: 2876, col: 10, offset: 90952},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13400,9 +13400,9 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 524, col: 45, offset: 16335},
+											pos: position{line: 524, col: 45, offset: 16336},
 											expr: &litMatcher{
-												pos:        position{line: 524, col: 46, offset: 16336},
+												pos:        position{line: 524, col: 46, offset: 16337},
 												val:        "]",
 												ignoreCase: false,
 												want:       "\"]\"",
@@ -13414,24 +13414,24 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 529, col: 6, offset: 16481},
+						pos: position{line: 529, col: 6, offset: 16482},
 						run: (*parser).callonPositionalAttribute15,
 						expr: &seqExpr{
-							pos: position{line: 529, col: 6, offset: 16481},
+							pos: position{line: 529, col: 6, offset: 16482},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 529, col: 6, offset: 16481},
+									pos:   position{line: 529, col: 6, offset: 16482},
 									label: "value",
 									expr: &seqExpr{
-										pos: position{line: 529, col: 13, offset: 16488},
+										pos: position{line: 529, col: 13, offset: 16489},
 										exprs: []interface{}{
 											&zeroOrMoreExpr{
-												pos: position{line: 529, col: 13, offset: 16488},
+												pos: position{line: 529, col: 13, offset: 16489},
 												expr: &actionExpr{
-													pos: position{line: 2876, col: 10, offset: 90951},
+													pos: position{line: 2876, col: 10, offset: 90952},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2876, col: 10, offset: 90951},
+														pos:        position{line: 2876, col: 10, offset: 90952},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13440,24 +13440,24 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 529, col: 21, offset: 16496},
+												pos: position{line: 529, col: 21, offset: 16497},
 												alternatives: []interface{}{
 													&seqExpr{
-														pos: position{line: 529, col: 22, offset: 16497},
+														pos: position{line: 529, col: 22, offset: 16498},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 529, col: 22, offset: 16497},
+																pos:        position{line: 529, col: 22, offset: 16498},
 																val:        ",",
 																ignoreCase: false,
 																want:       "\",\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 529, col: 26, offset: 16501},
+																pos: position{line: 529, col: 26, offset: 16502},
 																expr: &actionExpr{
-																	pos: position{line: 2876, col: 10, offset: 90951},
+																	pos: position{line: 2876, col: 10, offset: 90952},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2876, col: 10, offset: 90951},
+																		pos:        position{line: 2876, col: 10, offset: 90952},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13468,9 +13468,9 @@ var g = &grammar{
 														},
 													},
 													&andExpr{
-														pos: position{line: 529, col: 36, offset: 16511},
+														pos: position{line: 529, col: 36, offset: 16512},
 														expr: &litMatcher{
-															pos:        position{line: 529, col: 37, offset: 16512},
+															pos:        position{line: 529, col: 37, offset: 16513},
 															val:        "]",
 															ignoreCase: false,
 															want:       "\"]\"",
@@ -13482,7 +13482,7 @@ var g = &grammar{
 									},
 								},
 								&andCodeExpr{
-									pos: position{line: 530, col: 5, offset: 16522},
+									pos: position{line: 530, col: 5, offset: 16523},
 									run: (*parser).callonPositionalAttribute30,
 								},
 							},
@@ -13493,29 +13493,29 @@ var g = &grammar{
 		},
 		{
 			name: "NamedAttribute",
-			pos:  position{line: 540, col: 1, offset: 16837},
+			pos:  position{line: 540, col: 1, offset: 16838},
 			expr: &actionExpr{
-				pos: position{line: 541, col: 5, offset: 16860},
+				pos: position{line: 541, col: 5, offset: 16861},
 				run: (*parser).callonNamedAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 541, col: 5, offset: 16860},
+					pos: position{line: 541, col: 5, offset: 16861},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 541, col: 5, offset: 16860},
+							pos:   position{line: 541, col: 5, offset: 16861},
 							label: "key",
 							expr: &actionExpr{
-								pos: position{line: 549, col: 22, offset: 17148},
+								pos: position{line: 549, col: 22, offset: 17149},
 								run: (*parser).callonNamedAttribute4,
 								expr: &seqExpr{
-									pos: position{line: 549, col: 22, offset: 17148},
+									pos: position{line: 549, col: 22, offset: 17149},
 									exprs: []interface{}{
 										&notExpr{
-											pos: position{line: 549, col: 22, offset: 17148},
+											pos: position{line: 549, col: 22, offset: 17149},
 											expr: &actionExpr{
-												pos: position{line: 2876, col: 10, offset: 90951},
+												pos: position{line: 2876, col: 10, offset: 90952},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2876, col: 10, offset: 90951},
+													pos:        position{line: 2876, col: 10, offset: 90952},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13524,9 +13524,9 @@ var g = &grammar{
 											},
 										},
 										&oneOrMoreExpr{
-											pos: position{line: 549, col: 29, offset: 17155},
+											pos: position{line: 549, col: 29, offset: 17156},
 											expr: &charClassMatcher{
-												pos:        position{line: 549, col: 29, offset: 17155},
+												pos:        position{line: 549, col: 29, offset: 17156},
 												val:        "[^\\r\\n=,]]",
 												chars:      []rune{'\r', '\n', '=', ',', ']'},
 												ignoreCase: false,
@@ -13538,18 +13538,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 542, col: 5, offset: 16889},
+							pos:        position{line: 542, col: 5, offset: 16890},
 							val:        "=",
 							ignoreCase: false,
 							want:       "\"=\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 542, col: 9, offset: 16893},
+							pos: position{line: 542, col: 9, offset: 16894},
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 10, offset: 90951},
+								pos: position{line: 2876, col: 10, offset: 90952},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2876, col: 10, offset: 90951},
+									pos:        position{line: 2876, col: 10, offset: 90952},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13558,31 +13558,31 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 543, col: 5, offset: 16905},
+							pos:   position{line: 543, col: 5, offset: 16906},
 							label: "value",
 							expr: &ruleRefExpr{
-								pos:  position{line: 543, col: 12, offset: 16912},
+								pos:  position{line: 543, col: 12, offset: 16913},
 								name: "AttributeValue",
 							},
 						},
 						&zeroOrOneExpr{
-							pos: position{line: 543, col: 28, offset: 16928},
+							pos: position{line: 543, col: 28, offset: 16929},
 							expr: &seqExpr{
-								pos: position{line: 543, col: 29, offset: 16929},
+								pos: position{line: 543, col: 29, offset: 16930},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 543, col: 29, offset: 16929},
+										pos:        position{line: 543, col: 29, offset: 16930},
 										val:        ",",
 										ignoreCase: false,
 										want:       "\",\"",
 									},
 									&zeroOrMoreExpr{
-										pos: position{line: 543, col: 33, offset: 16933},
+										pos: position{line: 543, col: 33, offset: 16934},
 										expr: &actionExpr{
-											pos: position{line: 2876, col: 10, offset: 90951},
+											pos: position{line: 2876, col: 10, offset: 90952},
 											run: (*parser).callonNamedAttribute21,
 											expr: &charClassMatcher{
-												pos:        position{line: 2876, col: 10, offset: 90951},
+												pos:        position{line: 2876, col: 10, offset: 90952},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13599,48 +13599,48 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeValue",
-			pos:  position{line: 553, col: 1, offset: 17212},
+			pos:  position{line: 553, col: 1, offset: 17213},
 			expr: &actionExpr{
-				pos: position{line: 554, col: 5, offset: 17235},
+				pos: position{line: 554, col: 5, offset: 17236},
 				run: (*parser).callonAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 554, col: 5, offset: 17235},
+					pos: position{line: 554, col: 5, offset: 17236},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 554, col: 5, offset: 17235},
+							pos:   position{line: 554, col: 5, offset: 17236},
 							label: "value",
 							expr: &choiceExpr{
-								pos: position{line: 555, col: 9, offset: 17251},
+								pos: position{line: 555, col: 9, offset: 17252},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 555, col: 9, offset: 17251},
+										pos:  position{line: 555, col: 9, offset: 17252},
 										name: "SingleQuotedAttributeValue",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 556, col: 11, offset: 17289},
+										pos:  position{line: 556, col: 11, offset: 17290},
 										name: "DoubleQuotedAttributeValue",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 557, col: 11, offset: 17327},
+										pos:  position{line: 557, col: 11, offset: 17328},
 										name: "UnquotedAttributeValue",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 559, col: 5, offset: 17361},
+							pos: position{line: 559, col: 5, offset: 17362},
 							expr: &notExpr{
-								pos: position{line: 559, col: 7, offset: 17363},
+								pos: position{line: 559, col: 7, offset: 17364},
 								expr: &seqExpr{
-									pos: position{line: 559, col: 9, offset: 17365},
+									pos: position{line: 559, col: 9, offset: 17366},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 559, col: 9, offset: 17365},
+											pos: position{line: 559, col: 9, offset: 17366},
 											expr: &actionExpr{
-												pos: position{line: 2876, col: 10, offset: 90951},
+												pos: position{line: 2876, col: 10, offset: 90952},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2876, col: 10, offset: 90951},
+													pos:        position{line: 2876, col: 10, offset: 90952},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13649,7 +13649,7 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 559, col: 16, offset: 17372},
+											pos:        position{line: 559, col: 16, offset: 17373},
 											val:        "=",
 											ignoreCase: false,
 											want:       "\"=\"",
@@ -13664,38 +13664,38 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedAttributeValue",
-			pos:  position{line: 563, col: 1, offset: 17413},
+			pos:  position{line: 563, col: 1, offset: 17414},
 			expr: &actionExpr{
-				pos: position{line: 564, col: 5, offset: 17448},
+				pos: position{line: 564, col: 5, offset: 17449},
 				run: (*parser).callonSingleQuotedAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 564, col: 5, offset: 17448},
+					pos: position{line: 564, col: 5, offset: 17449},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 564, col: 5, offset: 17448},
+							pos:        position{line: 564, col: 5, offset: 17449},
 							val:        "'",
 							ignoreCase: false,
 							want:       "\"'\"",
 						},
 						&notExpr{
-							pos: position{line: 564, col: 9, offset: 17452},
+							pos: position{line: 564, col: 9, offset: 17453},
 							expr: &litMatcher{
-								pos:        position{line: 564, col: 10, offset: 17453},
+								pos:        position{line: 564, col: 10, offset: 17454},
 								val:        "`",
 								ignoreCase: false,
 								want:       "\"`\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 565, col: 5, offset: 17532},
+							pos:   position{line: 565, col: 5, offset: 17533},
 							label: "content",
 							expr: &ruleRefExpr{
-								pos:  position{line: 565, col: 14, offset: 17541},
+								pos:  position{line: 565, col: 14, offset: 17542},
 								name: "SingleQuotedAttributeValueContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 566, col: 5, offset: 17580},
+							pos:        position{line: 566, col: 5, offset: 17581},
 							val:        "'",
 							ignoreCase: false,
 							want:       "\"'\"",
@@ -13706,25 +13706,25 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedAttributeValueContent",
-			pos:  position{line: 570, col: 1, offset: 17621},
+			pos:  position{line: 570, col: 1, offset: 17622},
 			expr: &actionExpr{
-				pos: position{line: 571, col: 5, offset: 17663},
+				pos: position{line: 571, col: 5, offset: 17664},
 				run: (*parser).callonSingleQuotedAttributeValueContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 571, col: 5, offset: 17663},
+					pos:   position{line: 571, col: 5, offset: 17664},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 571, col: 14, offset: 17672},
+						pos: position{line: 571, col: 14, offset: 17673},
 						expr: &choiceExpr{
-							pos: position{line: 572, col: 9, offset: 17682},
+							pos: position{line: 572, col: 9, offset: 17683},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2770, col: 14, offset: 88120},
+									pos: position{line: 2770, col: 14, offset: 88121},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2770, col: 14, offset: 88120},
+										pos: position{line: 2770, col: 14, offset: 88121},
 										expr: &charClassMatcher{
-											pos:        position{line: 2770, col: 14, offset: 88120},
+											pos:        position{line: 2770, col: 14, offset: 88121},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -13733,10 +13733,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2876, col: 10, offset: 90951},
+									pos: position{line: 2876, col: 10, offset: 90952},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2876, col: 10, offset: 90951},
+										pos:        position{line: 2876, col: 10, offset: 90952},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -13744,39 +13744,39 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 574, col: 11, offset: 17718},
+									pos:  position{line: 574, col: 11, offset: 17719},
 									name: "QuotationMark",
 								},
 								&actionExpr{
-									pos: position{line: 636, col: 5, offset: 20177},
+									pos: position{line: 636, col: 5, offset: 20178},
 									run: (*parser).callonSingleQuotedAttributeValueContent11,
 									expr: &seqExpr{
-										pos: position{line: 636, col: 5, offset: 20177},
+										pos: position{line: 636, col: 5, offset: 20178},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 636, col: 5, offset: 20177},
+												pos: position{line: 636, col: 5, offset: 20178},
 												run: (*parser).callonSingleQuotedAttributeValueContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 639, col: 5, offset: 20249},
+												pos:   position{line: 639, col: 5, offset: 20250},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 639, col: 14, offset: 20258},
+													pos: position{line: 639, col: 14, offset: 20259},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 645, col: 5, offset: 20387},
+															pos: position{line: 645, col: 5, offset: 20388},
 															run: (*parser).callonSingleQuotedAttributeValueContent16,
 															expr: &seqExpr{
-																pos: position{line: 645, col: 5, offset: 20387},
+																pos: position{line: 645, col: 5, offset: 20388},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 645, col: 5, offset: 20387},
+																		pos:        position{line: 645, col: 5, offset: 20388},
 																		val:        "\\{",
 																		ignoreCase: false,
 																		want:       "\"\\\\{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 645, col: 13, offset: 20395},
+																		pos:   position{line: 645, col: 13, offset: 20396},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9729},
@@ -13796,8 +13796,8 @@ var g = &grammar{
 																						pos: position{line: 318, col: 28, offset: 9739},
 																						expr: &charClassMatcher{
 																							pos:        position{line: 318, col: 29, offset: 9740},
-																							val:        "[-\\pL\\pN]",
-																							chars:      []rune{'-'},
+																							val:        "[_-\\pL\\pN]",
+																							chars:      []rune{'_', '-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
@@ -13808,7 +13808,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 645, col: 32, offset: 20414},
+																		pos:        position{line: 645, col: 32, offset: 20415},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -13817,19 +13817,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 652, col: 5, offset: 20655},
+															pos: position{line: 652, col: 5, offset: 20656},
 															run: (*parser).callonSingleQuotedAttributeValueContent26,
 															expr: &seqExpr{
-																pos: position{line: 652, col: 5, offset: 20655},
+																pos: position{line: 652, col: 5, offset: 20656},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 652, col: 5, offset: 20655},
+																		pos:        position{line: 652, col: 5, offset: 20656},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 652, col: 9, offset: 20659},
+																		pos:   position{line: 652, col: 9, offset: 20660},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9729},
@@ -13849,8 +13849,8 @@ var g = &grammar{
 																						pos: position{line: 318, col: 28, offset: 9739},
 																						expr: &charClassMatcher{
 																							pos:        position{line: 318, col: 29, offset: 9740},
-																							val:        "[-\\pL\\pN]",
-																							chars:      []rune{'-'},
+																							val:        "[_-\\pL\\pN]",
+																							chars:      []rune{'_', '-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
@@ -13861,7 +13861,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 652, col: 28, offset: 20678},
+																		pos:        position{line: 652, col: 28, offset: 20679},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -13870,19 +13870,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 658, col: 25, offset: 20859},
+															pos: position{line: 658, col: 25, offset: 20860},
 															run: (*parser).callonSingleQuotedAttributeValueContent36,
 															expr: &seqExpr{
-																pos: position{line: 658, col: 25, offset: 20859},
+																pos: position{line: 658, col: 25, offset: 20860},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 658, col: 25, offset: 20859},
+																		pos:        position{line: 658, col: 25, offset: 20860},
 																		val:        "{counter:",
 																		ignoreCase: false,
 																		want:       "\"{counter:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 658, col: 37, offset: 20871},
+																		pos:   position{line: 658, col: 37, offset: 20872},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9729},
@@ -13902,8 +13902,8 @@ var g = &grammar{
 																						pos: position{line: 318, col: 28, offset: 9739},
 																						expr: &charClassMatcher{
 																							pos:        position{line: 318, col: 29, offset: 9740},
-																							val:        "[-\\pL\\pN]",
-																							chars:      []rune{'-'},
+																							val:        "[_-\\pL\\pN]",
+																							chars:      []rune{'_', '-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
@@ -13914,33 +13914,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 658, col: 56, offset: 20890},
+																		pos:   position{line: 658, col: 56, offset: 20891},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 658, col: 62, offset: 20896},
+																			pos: position{line: 658, col: 62, offset: 20897},
 																			expr: &actionExpr{
-																				pos: position{line: 666, col: 17, offset: 21191},
+																				pos: position{line: 666, col: 17, offset: 21192},
 																				run: (*parser).callonSingleQuotedAttributeValueContent47,
 																				expr: &seqExpr{
-																					pos: position{line: 666, col: 17, offset: 21191},
+																					pos: position{line: 666, col: 17, offset: 21192},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 666, col: 17, offset: 21191},
+																							pos:        position{line: 666, col: 17, offset: 21192},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 666, col: 21, offset: 21195},
+																							pos:   position{line: 666, col: 21, offset: 21196},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 666, col: 28, offset: 21202},
+																								pos: position{line: 666, col: 28, offset: 21203},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 666, col: 28, offset: 21202},
+																										pos: position{line: 666, col: 28, offset: 21203},
 																										run: (*parser).callonSingleQuotedAttributeValueContent52,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 666, col: 28, offset: 21202},
+																											pos:        position{line: 666, col: 28, offset: 21203},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -13948,12 +13948,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 668, col: 9, offset: 21256},
+																										pos: position{line: 668, col: 9, offset: 21257},
 																										run: (*parser).callonSingleQuotedAttributeValueContent54,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 668, col: 9, offset: 21256},
+																											pos: position{line: 668, col: 9, offset: 21257},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 668, col: 9, offset: 21256},
+																												pos:        position{line: 668, col: 9, offset: 21257},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -13970,7 +13970,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 658, col: 78, offset: 20912},
+																		pos:        position{line: 658, col: 78, offset: 20913},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -13979,19 +13979,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 662, col: 25, offset: 21030},
+															pos: position{line: 662, col: 25, offset: 21031},
 															run: (*parser).callonSingleQuotedAttributeValueContent58,
 															expr: &seqExpr{
-																pos: position{line: 662, col: 25, offset: 21030},
+																pos: position{line: 662, col: 25, offset: 21031},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 662, col: 25, offset: 21030},
+																		pos:        position{line: 662, col: 25, offset: 21031},
 																		val:        "{counter2:",
 																		ignoreCase: false,
 																		want:       "\"{counter2:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 662, col: 38, offset: 21043},
+																		pos:   position{line: 662, col: 38, offset: 21044},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9729},
@@ -14011,8 +14011,8 @@ var g = &grammar{
 																						pos: position{line: 318, col: 28, offset: 9739},
 																						expr: &charClassMatcher{
 																							pos:        position{line: 318, col: 29, offset: 9740},
-																							val:        "[-\\pL\\pN]",
-																							chars:      []rune{'-'},
+																							val:        "[_-\\pL\\pN]",
+																							chars:      []rune{'_', '-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
@@ -14023,33 +14023,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 662, col: 57, offset: 21062},
+																		pos:   position{line: 662, col: 57, offset: 21063},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 662, col: 63, offset: 21068},
+																			pos: position{line: 662, col: 63, offset: 21069},
 																			expr: &actionExpr{
-																				pos: position{line: 666, col: 17, offset: 21191},
+																				pos: position{line: 666, col: 17, offset: 21192},
 																				run: (*parser).callonSingleQuotedAttributeValueContent69,
 																				expr: &seqExpr{
-																					pos: position{line: 666, col: 17, offset: 21191},
+																					pos: position{line: 666, col: 17, offset: 21192},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 666, col: 17, offset: 21191},
+																							pos:        position{line: 666, col: 17, offset: 21192},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 666, col: 21, offset: 21195},
+																							pos:   position{line: 666, col: 21, offset: 21196},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 666, col: 28, offset: 21202},
+																								pos: position{line: 666, col: 28, offset: 21203},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 666, col: 28, offset: 21202},
+																										pos: position{line: 666, col: 28, offset: 21203},
 																										run: (*parser).callonSingleQuotedAttributeValueContent74,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 666, col: 28, offset: 21202},
+																											pos:        position{line: 666, col: 28, offset: 21203},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14057,12 +14057,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 668, col: 9, offset: 21256},
+																										pos: position{line: 668, col: 9, offset: 21257},
 																										run: (*parser).callonSingleQuotedAttributeValueContent76,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 668, col: 9, offset: 21256},
+																											pos: position{line: 668, col: 9, offset: 21257},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 668, col: 9, offset: 21256},
+																												pos:        position{line: 668, col: 9, offset: 21257},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14079,7 +14079,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 662, col: 79, offset: 21084},
+																		pos:        position{line: 662, col: 79, offset: 21085},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14094,44 +14094,44 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 576, col: 12, offset: 17772},
+									pos: position{line: 576, col: 12, offset: 17773},
 									run: (*parser).callonSingleQuotedAttributeValueContent80,
 									expr: &litMatcher{
-										pos:        position{line: 576, col: 12, offset: 17772},
+										pos:        position{line: 576, col: 12, offset: 17773},
 										val:        "\\'",
 										ignoreCase: false,
 										want:       "\"\\\\'\"",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 579, col: 13, offset: 17874},
+									pos:        position{line: 579, col: 13, offset: 17875},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&litMatcher{
-									pos:        position{line: 579, col: 20, offset: 17881},
+									pos:        position{line: 579, col: 20, offset: 17882},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&actionExpr{
-									pos: position{line: 579, col: 27, offset: 17888},
+									pos: position{line: 579, col: 27, offset: 17889},
 									run: (*parser).callonSingleQuotedAttributeValueContent84,
 									expr: &litMatcher{
-										pos:        position{line: 579, col: 27, offset: 17888},
+										pos:        position{line: 579, col: 27, offset: 17889},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
 									},
 								},
 								&actionExpr{
-									pos: position{line: 582, col: 12, offset: 18048},
+									pos: position{line: 582, col: 12, offset: 18049},
 									run: (*parser).callonSingleQuotedAttributeValueContent86,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 582, col: 12, offset: 18048},
+										pos: position{line: 582, col: 12, offset: 18049},
 										expr: &charClassMatcher{
-											pos:        position{line: 582, col: 12, offset: 18048},
+											pos:        position{line: 582, col: 12, offset: 18049},
 											val:        "[^\\r\\n\\\\\\ ]",
 											chars:      []rune{'\r', '\n', '\\', '\'', ' '},
 											ignoreCase: false,
@@ -14147,56 +14147,56 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedAttributeValue",
-			pos:  position{line: 589, col: 1, offset: 18245},
+			pos:  position{line: 589, col: 1, offset: 18246},
 			expr: &actionExpr{
-				pos: position{line: 590, col: 5, offset: 18280},
+				pos: position{line: 590, col: 5, offset: 18281},
 				run: (*parser).callonDoubleQuotedAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 590, col: 5, offset: 18280},
+					pos: position{line: 590, col: 5, offset: 18281},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 590, col: 5, offset: 18280},
+							pos:        position{line: 590, col: 5, offset: 18281},
 							val:        "\"",
 							ignoreCase: false,
 							want:       "\"\\\"\"",
 						},
 						&notExpr{
-							pos: position{line: 590, col: 10, offset: 18285},
+							pos: position{line: 590, col: 10, offset: 18286},
 							expr: &litMatcher{
-								pos:        position{line: 590, col: 11, offset: 18286},
+								pos:        position{line: 590, col: 11, offset: 18287},
 								val:        "`",
 								ignoreCase: false,
 								want:       "\"`\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 591, col: 5, offset: 18365},
+							pos:   position{line: 591, col: 5, offset: 18366},
 							label: "content",
 							expr: &ruleRefExpr{
-								pos:  position{line: 591, col: 14, offset: 18374},
+								pos:  position{line: 591, col: 14, offset: 18375},
 								name: "DoubleQuotedAttributeValueContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 592, col: 5, offset: 18413},
+							pos:        position{line: 592, col: 5, offset: 18414},
 							val:        "\"",
 							ignoreCase: false,
 							want:       "\"\\\"\"",
 						},
 						&andExpr{
-							pos: position{line: 592, col: 10, offset: 18418},
+							pos: position{line: 592, col: 10, offset: 18419},
 							expr: &notExpr{
-								pos: position{line: 592, col: 12, offset: 18420},
+								pos: position{line: 592, col: 12, offset: 18421},
 								expr: &seqExpr{
-									pos: position{line: 592, col: 14, offset: 18422},
+									pos: position{line: 592, col: 14, offset: 18423},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 592, col: 14, offset: 18422},
+											pos: position{line: 592, col: 14, offset: 18423},
 											expr: &actionExpr{
-												pos: position{line: 2876, col: 10, offset: 90951},
+												pos: position{line: 2876, col: 10, offset: 90952},
 												run: (*parser).callonDoubleQuotedAttributeValue13,
 												expr: &charClassMatcher{
-													pos:        position{line: 2876, col: 10, offset: 90951},
+													pos:        position{line: 2876, col: 10, offset: 90952},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14205,7 +14205,7 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 592, col: 21, offset: 18429},
+											pos:        position{line: 592, col: 21, offset: 18430},
 											val:        "=",
 											ignoreCase: false,
 											want:       "\"=\"",
@@ -14220,25 +14220,25 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedAttributeValueContent",
-			pos:  position{line: 596, col: 1, offset: 18472},
+			pos:  position{line: 596, col: 1, offset: 18473},
 			expr: &actionExpr{
-				pos: position{line: 597, col: 5, offset: 18514},
+				pos: position{line: 597, col: 5, offset: 18515},
 				run: (*parser).callonDoubleQuotedAttributeValueContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 597, col: 5, offset: 18514},
+					pos:   position{line: 597, col: 5, offset: 18515},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 597, col: 14, offset: 18523},
+						pos: position{line: 597, col: 14, offset: 18524},
 						expr: &choiceExpr{
-							pos: position{line: 598, col: 9, offset: 18533},
+							pos: position{line: 598, col: 9, offset: 18534},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2770, col: 14, offset: 88120},
+									pos: position{line: 2770, col: 14, offset: 88121},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2770, col: 14, offset: 88120},
+										pos: position{line: 2770, col: 14, offset: 88121},
 										expr: &charClassMatcher{
-											pos:        position{line: 2770, col: 14, offset: 88120},
+											pos:        position{line: 2770, col: 14, offset: 88121},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14247,10 +14247,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2876, col: 10, offset: 90951},
+									pos: position{line: 2876, col: 10, offset: 90952},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2876, col: 10, offset: 90951},
+										pos:        position{line: 2876, col: 10, offset: 90952},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14258,39 +14258,39 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 600, col: 11, offset: 18569},
+									pos:  position{line: 600, col: 11, offset: 18570},
 									name: "QuotationMark",
 								},
 								&actionExpr{
-									pos: position{line: 636, col: 5, offset: 20177},
+									pos: position{line: 636, col: 5, offset: 20178},
 									run: (*parser).callonDoubleQuotedAttributeValueContent11,
 									expr: &seqExpr{
-										pos: position{line: 636, col: 5, offset: 20177},
+										pos: position{line: 636, col: 5, offset: 20178},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 636, col: 5, offset: 20177},
+												pos: position{line: 636, col: 5, offset: 20178},
 												run: (*parser).callonDoubleQuotedAttributeValueContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 639, col: 5, offset: 20249},
+												pos:   position{line: 639, col: 5, offset: 20250},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 639, col: 14, offset: 20258},
+													pos: position{line: 639, col: 14, offset: 20259},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 645, col: 5, offset: 20387},
+															pos: position{line: 645, col: 5, offset: 20388},
 															run: (*parser).callonDoubleQuotedAttributeValueContent16,
 															expr: &seqExpr{
-																pos: position{line: 645, col: 5, offset: 20387},
+																pos: position{line: 645, col: 5, offset: 20388},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 645, col: 5, offset: 20387},
+																		pos:        position{line: 645, col: 5, offset: 20388},
 																		val:        "\\{",
 																		ignoreCase: false,
 																		want:       "\"\\\\{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 645, col: 13, offset: 20395},
+																		pos:   position{line: 645, col: 13, offset: 20396},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9729},
@@ -14310,8 +14310,8 @@ var g = &grammar{
 																						pos: position{line: 318, col: 28, offset: 9739},
 																						expr: &charClassMatcher{
 																							pos:        position{line: 318, col: 29, offset: 9740},
-																							val:        "[-\\pL\\pN]",
-																							chars:      []rune{'-'},
+																							val:        "[_-\\pL\\pN]",
+																							chars:      []rune{'_', '-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
@@ -14322,7 +14322,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 645, col: 32, offset: 20414},
+																		pos:        position{line: 645, col: 32, offset: 20415},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14331,19 +14331,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 652, col: 5, offset: 20655},
+															pos: position{line: 652, col: 5, offset: 20656},
 															run: (*parser).callonDoubleQuotedAttributeValueContent26,
 															expr: &seqExpr{
-																pos: position{line: 652, col: 5, offset: 20655},
+																pos: position{line: 652, col: 5, offset: 20656},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 652, col: 5, offset: 20655},
+																		pos:        position{line: 652, col: 5, offset: 20656},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 652, col: 9, offset: 20659},
+																		pos:   position{line: 652, col: 9, offset: 20660},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9729},
@@ -14363,8 +14363,8 @@ var g = &grammar{
 																						pos: position{line: 318, col: 28, offset: 9739},
 																						expr: &charClassMatcher{
 																							pos:        position{line: 318, col: 29, offset: 9740},
-																							val:        "[-\\pL\\pN]",
-																							chars:      []rune{'-'},
+																							val:        "[_-\\pL\\pN]",
+																							chars:      []rune{'_', '-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
@@ -14375,7 +14375,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 652, col: 28, offset: 20678},
+																		pos:        position{line: 652, col: 28, offset: 20679},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14384,19 +14384,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 658, col: 25, offset: 20859},
+															pos: position{line: 658, col: 25, offset: 20860},
 															run: (*parser).callonDoubleQuotedAttributeValueContent36,
 															expr: &seqExpr{
-																pos: position{line: 658, col: 25, offset: 20859},
+																pos: position{line: 658, col: 25, offset: 20860},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 658, col: 25, offset: 20859},
+																		pos:        position{line: 658, col: 25, offset: 20860},
 																		val:        "{counter:",
 																		ignoreCase: false,
 																		want:       "\"{counter:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 658, col: 37, offset: 20871},
+																		pos:   position{line: 658, col: 37, offset: 20872},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9729},
@@ -14416,8 +14416,8 @@ var g = &grammar{
 																						pos: position{line: 318, col: 28, offset: 9739},
 																						expr: &charClassMatcher{
 																							pos:        position{line: 318, col: 29, offset: 9740},
-																							val:        "[-\\pL\\pN]",
-																							chars:      []rune{'-'},
+																							val:        "[_-\\pL\\pN]",
+																							chars:      []rune{'_', '-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
@@ -14428,33 +14428,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 658, col: 56, offset: 20890},
+																		pos:   position{line: 658, col: 56, offset: 20891},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 658, col: 62, offset: 20896},
+																			pos: position{line: 658, col: 62, offset: 20897},
 																			expr: &actionExpr{
-																				pos: position{line: 666, col: 17, offset: 21191},
+																				pos: position{line: 666, col: 17, offset: 21192},
 																				run: (*parser).callonDoubleQuotedAttributeValueContent47,
 																				expr: &seqExpr{
-																					pos: position{line: 666, col: 17, offset: 21191},
+																					pos: position{line: 666, col: 17, offset: 21192},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 666, col: 17, offset: 21191},
+																							pos:        position{line: 666, col: 17, offset: 21192},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 666, col: 21, offset: 21195},
+																							pos:   position{line: 666, col: 21, offset: 21196},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 666, col: 28, offset: 21202},
+																								pos: position{line: 666, col: 28, offset: 21203},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 666, col: 28, offset: 21202},
+																										pos: position{line: 666, col: 28, offset: 21203},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent52,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 666, col: 28, offset: 21202},
+																											pos:        position{line: 666, col: 28, offset: 21203},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14462,12 +14462,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 668, col: 9, offset: 21256},
+																										pos: position{line: 668, col: 9, offset: 21257},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent54,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 668, col: 9, offset: 21256},
+																											pos: position{line: 668, col: 9, offset: 21257},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 668, col: 9, offset: 21256},
+																												pos:        position{line: 668, col: 9, offset: 21257},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14484,7 +14484,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 658, col: 78, offset: 20912},
+																		pos:        position{line: 658, col: 78, offset: 20913},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14493,19 +14493,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 662, col: 25, offset: 21030},
+															pos: position{line: 662, col: 25, offset: 21031},
 															run: (*parser).callonDoubleQuotedAttributeValueContent58,
 															expr: &seqExpr{
-																pos: position{line: 662, col: 25, offset: 21030},
+																pos: position{line: 662, col: 25, offset: 21031},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 662, col: 25, offset: 21030},
+																		pos:        position{line: 662, col: 25, offset: 21031},
 																		val:        "{counter2:",
 																		ignoreCase: false,
 																		want:       "\"{counter2:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 662, col: 38, offset: 21043},
+																		pos:   position{line: 662, col: 38, offset: 21044},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9729},
@@ -14525,8 +14525,8 @@ var g = &grammar{
 																						pos: position{line: 318, col: 28, offset: 9739},
 																						expr: &charClassMatcher{
 																							pos:        position{line: 318, col: 29, offset: 9740},
-																							val:        "[-\\pL\\pN]",
-																							chars:      []rune{'-'},
+																							val:        "[_-\\pL\\pN]",
+																							chars:      []rune{'_', '-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
@@ -14537,33 +14537,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 662, col: 57, offset: 21062},
+																		pos:   position{line: 662, col: 57, offset: 21063},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 662, col: 63, offset: 21068},
+																			pos: position{line: 662, col: 63, offset: 21069},
 																			expr: &actionExpr{
-																				pos: position{line: 666, col: 17, offset: 21191},
+																				pos: position{line: 666, col: 17, offset: 21192},
 																				run: (*parser).callonDoubleQuotedAttributeValueContent69,
 																				expr: &seqExpr{
-																					pos: position{line: 666, col: 17, offset: 21191},
+																					pos: position{line: 666, col: 17, offset: 21192},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 666, col: 17, offset: 21191},
+																							pos:        position{line: 666, col: 17, offset: 21192},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 666, col: 21, offset: 21195},
+																							pos:   position{line: 666, col: 21, offset: 21196},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 666, col: 28, offset: 21202},
+																								pos: position{line: 666, col: 28, offset: 21203},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 666, col: 28, offset: 21202},
+																										pos: position{line: 666, col: 28, offset: 21203},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent74,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 666, col: 28, offset: 21202},
+																											pos:        position{line: 666, col: 28, offset: 21203},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14571,12 +14571,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 668, col: 9, offset: 21256},
+																										pos: position{line: 668, col: 9, offset: 21257},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent76,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 668, col: 9, offset: 21256},
+																											pos: position{line: 668, col: 9, offset: 21257},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 668, col: 9, offset: 21256},
+																												pos:        position{line: 668, col: 9, offset: 21257},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14593,7 +14593,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 662, col: 79, offset: 21084},
+																		pos:        position{line: 662, col: 79, offset: 21085},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14608,50 +14608,50 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 602, col: 12, offset: 18624},
+									pos: position{line: 602, col: 12, offset: 18625},
 									run: (*parser).callonDoubleQuotedAttributeValueContent80,
 									expr: &litMatcher{
-										pos:        position{line: 602, col: 12, offset: 18624},
+										pos:        position{line: 602, col: 12, offset: 18625},
 										val:        "\\\"",
 										ignoreCase: false,
 										want:       "\"\\\\\\\"\"",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 605, col: 13, offset: 18726},
+									pos:        position{line: 605, col: 13, offset: 18727},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&litMatcher{
-									pos:        position{line: 605, col: 21, offset: 18734},
+									pos:        position{line: 605, col: 21, offset: 18735},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&litMatcher{
-									pos:        position{line: 605, col: 29, offset: 18742},
+									pos:        position{line: 605, col: 29, offset: 18743},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&actionExpr{
-									pos: position{line: 605, col: 35, offset: 18748},
+									pos: position{line: 605, col: 35, offset: 18749},
 									run: (*parser).callonDoubleQuotedAttributeValueContent85,
 									expr: &litMatcher{
-										pos:        position{line: 605, col: 35, offset: 18748},
+										pos:        position{line: 605, col: 35, offset: 18749},
 										val:        "`",
 										ignoreCase: false,
 										want:       "\"`\"",
 									},
 								},
 								&actionExpr{
-									pos: position{line: 608, col: 12, offset: 18931},
+									pos: position{line: 608, col: 12, offset: 18932},
 									run: (*parser).callonDoubleQuotedAttributeValueContent87,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 608, col: 12, offset: 18931},
+										pos: position{line: 608, col: 12, offset: 18932},
 										expr: &charClassMatcher{
-											pos:        position{line: 608, col: 12, offset: 18931},
+											pos:        position{line: 608, col: 12, offset: 18932},
 											val:        "[^\\r\\n\\\\\"` ]",
 											chars:      []rune{'\r', '\n', '\\', '"', '`', ' '},
 											ignoreCase: false,
@@ -14667,20 +14667,20 @@ var g = &grammar{
 		},
 		{
 			name: "UnquotedAttributeValue",
-			pos:  position{line: 616, col: 1, offset: 19205},
+			pos:  position{line: 616, col: 1, offset: 19206},
 			expr: &actionExpr{
-				pos: position{line: 619, col: 5, offset: 19389},
+				pos: position{line: 619, col: 5, offset: 19390},
 				run: (*parser).callonUnquotedAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 619, col: 5, offset: 19389},
+					pos: position{line: 619, col: 5, offset: 19390},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 619, col: 5, offset: 19389},
+							pos: position{line: 619, col: 5, offset: 19390},
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 10, offset: 90951},
+								pos: position{line: 2876, col: 10, offset: 90952},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2876, col: 10, offset: 90951},
+									pos:        position{line: 2876, col: 10, offset: 90952},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -14689,28 +14689,28 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 620, col: 5, offset: 19458},
+							pos:   position{line: 620, col: 5, offset: 19459},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 620, col: 14, offset: 19467},
+								pos: position{line: 620, col: 14, offset: 19468},
 								expr: &choiceExpr{
-									pos: position{line: 621, col: 9, offset: 19477},
+									pos: position{line: 621, col: 9, offset: 19478},
 									alternatives: []interface{}{
 										&seqExpr{
-											pos: position{line: 621, col: 10, offset: 19478},
+											pos: position{line: 621, col: 10, offset: 19479},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 621, col: 10, offset: 19478},
+													pos:        position{line: 621, col: 10, offset: 19479},
 													val:        "[",
 													ignoreCase: false,
 													want:       "\"[\"",
 												},
 												&ruleRefExpr{
-													pos:  position{line: 621, col: 14, offset: 19482},
+													pos:  position{line: 621, col: 14, offset: 19483},
 													name: "UnquotedAttributeValue",
 												},
 												&litMatcher{
-													pos:        position{line: 621, col: 37, offset: 19505},
+													pos:        position{line: 621, col: 37, offset: 19506},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
@@ -14718,35 +14718,35 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 636, col: 5, offset: 20177},
+											pos: position{line: 636, col: 5, offset: 20178},
 											run: (*parser).callonUnquotedAttributeValue13,
 											expr: &seqExpr{
-												pos: position{line: 636, col: 5, offset: 20177},
+												pos: position{line: 636, col: 5, offset: 20178},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 636, col: 5, offset: 20177},
+														pos: position{line: 636, col: 5, offset: 20178},
 														run: (*parser).callonUnquotedAttributeValue15,
 													},
 													&labeledExpr{
-														pos:   position{line: 639, col: 5, offset: 20249},
+														pos:   position{line: 639, col: 5, offset: 20250},
 														label: "element",
 														expr: &choiceExpr{
-															pos: position{line: 639, col: 14, offset: 20258},
+															pos: position{line: 639, col: 14, offset: 20259},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 645, col: 5, offset: 20387},
+																	pos: position{line: 645, col: 5, offset: 20388},
 																	run: (*parser).callonUnquotedAttributeValue18,
 																	expr: &seqExpr{
-																		pos: position{line: 645, col: 5, offset: 20387},
+																		pos: position{line: 645, col: 5, offset: 20388},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 645, col: 5, offset: 20387},
+																				pos:        position{line: 645, col: 5, offset: 20388},
 																				val:        "\\{",
 																				ignoreCase: false,
 																				want:       "\"\\\\{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 645, col: 13, offset: 20395},
+																				pos:   position{line: 645, col: 13, offset: 20396},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9729},
@@ -14766,8 +14766,8 @@ var g = &grammar{
 																								pos: position{line: 318, col: 28, offset: 9739},
 																								expr: &charClassMatcher{
 																									pos:        position{line: 318, col: 29, offset: 9740},
-																									val:        "[-\\pL\\pN]",
-																									chars:      []rune{'-'},
+																									val:        "[_-\\pL\\pN]",
+																									chars:      []rune{'_', '-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
 																									inverted:   false,
@@ -14778,7 +14778,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 645, col: 32, offset: 20414},
+																				pos:        position{line: 645, col: 32, offset: 20415},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -14787,19 +14787,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 652, col: 5, offset: 20655},
+																	pos: position{line: 652, col: 5, offset: 20656},
 																	run: (*parser).callonUnquotedAttributeValue28,
 																	expr: &seqExpr{
-																		pos: position{line: 652, col: 5, offset: 20655},
+																		pos: position{line: 652, col: 5, offset: 20656},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 652, col: 5, offset: 20655},
+																				pos:        position{line: 652, col: 5, offset: 20656},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 652, col: 9, offset: 20659},
+																				pos:   position{line: 652, col: 9, offset: 20660},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9729},
@@ -14819,8 +14819,8 @@ var g = &grammar{
 																								pos: position{line: 318, col: 28, offset: 9739},
 																								expr: &charClassMatcher{
 																									pos:        position{line: 318, col: 29, offset: 9740},
-																									val:        "[-\\pL\\pN]",
-																									chars:      []rune{'-'},
+																									val:        "[_-\\pL\\pN]",
+																									chars:      []rune{'_', '-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
 																									inverted:   false,
@@ -14831,7 +14831,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 652, col: 28, offset: 20678},
+																				pos:        position{line: 652, col: 28, offset: 20679},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -14840,19 +14840,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 658, col: 25, offset: 20859},
+																	pos: position{line: 658, col: 25, offset: 20860},
 																	run: (*parser).callonUnquotedAttributeValue38,
 																	expr: &seqExpr{
-																		pos: position{line: 658, col: 25, offset: 20859},
+																		pos: position{line: 658, col: 25, offset: 20860},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 658, col: 25, offset: 20859},
+																				pos:        position{line: 658, col: 25, offset: 20860},
 																				val:        "{counter:",
 																				ignoreCase: false,
 																				want:       "\"{counter:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 658, col: 37, offset: 20871},
+																				pos:   position{line: 658, col: 37, offset: 20872},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9729},
@@ -14872,8 +14872,8 @@ var g = &grammar{
 																								pos: position{line: 318, col: 28, offset: 9739},
 																								expr: &charClassMatcher{
 																									pos:        position{line: 318, col: 29, offset: 9740},
-																									val:        "[-\\pL\\pN]",
-																									chars:      []rune{'-'},
+																									val:        "[_-\\pL\\pN]",
+																									chars:      []rune{'_', '-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
 																									inverted:   false,
@@ -14884,33 +14884,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 658, col: 56, offset: 20890},
+																				pos:   position{line: 658, col: 56, offset: 20891},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 658, col: 62, offset: 20896},
+																					pos: position{line: 658, col: 62, offset: 20897},
 																					expr: &actionExpr{
-																						pos: position{line: 666, col: 17, offset: 21191},
+																						pos: position{line: 666, col: 17, offset: 21192},
 																						run: (*parser).callonUnquotedAttributeValue49,
 																						expr: &seqExpr{
-																							pos: position{line: 666, col: 17, offset: 21191},
+																							pos: position{line: 666, col: 17, offset: 21192},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 666, col: 17, offset: 21191},
+																									pos:        position{line: 666, col: 17, offset: 21192},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 666, col: 21, offset: 21195},
+																									pos:   position{line: 666, col: 21, offset: 21196},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 666, col: 28, offset: 21202},
+																										pos: position{line: 666, col: 28, offset: 21203},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 666, col: 28, offset: 21202},
+																												pos: position{line: 666, col: 28, offset: 21203},
 																												run: (*parser).callonUnquotedAttributeValue54,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 666, col: 28, offset: 21202},
+																													pos:        position{line: 666, col: 28, offset: 21203},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -14918,12 +14918,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 668, col: 9, offset: 21256},
+																												pos: position{line: 668, col: 9, offset: 21257},
 																												run: (*parser).callonUnquotedAttributeValue56,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 668, col: 9, offset: 21256},
+																													pos: position{line: 668, col: 9, offset: 21257},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 668, col: 9, offset: 21256},
+																														pos:        position{line: 668, col: 9, offset: 21257},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -14940,7 +14940,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 658, col: 78, offset: 20912},
+																				pos:        position{line: 658, col: 78, offset: 20913},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -14949,19 +14949,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 662, col: 25, offset: 21030},
+																	pos: position{line: 662, col: 25, offset: 21031},
 																	run: (*parser).callonUnquotedAttributeValue60,
 																	expr: &seqExpr{
-																		pos: position{line: 662, col: 25, offset: 21030},
+																		pos: position{line: 662, col: 25, offset: 21031},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 662, col: 25, offset: 21030},
+																				pos:        position{line: 662, col: 25, offset: 21031},
 																				val:        "{counter2:",
 																				ignoreCase: false,
 																				want:       "\"{counter2:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 662, col: 38, offset: 21043},
+																				pos:   position{line: 662, col: 38, offset: 21044},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9729},
@@ -14981,8 +14981,8 @@ var g = &grammar{
 																								pos: position{line: 318, col: 28, offset: 9739},
 																								expr: &charClassMatcher{
 																									pos:        position{line: 318, col: 29, offset: 9740},
-																									val:        "[-\\pL\\pN]",
-																									chars:      []rune{'-'},
+																									val:        "[_-\\pL\\pN]",
+																									chars:      []rune{'_', '-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
 																									inverted:   false,
@@ -14993,33 +14993,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 662, col: 57, offset: 21062},
+																				pos:   position{line: 662, col: 57, offset: 21063},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 662, col: 63, offset: 21068},
+																					pos: position{line: 662, col: 63, offset: 21069},
 																					expr: &actionExpr{
-																						pos: position{line: 666, col: 17, offset: 21191},
+																						pos: position{line: 666, col: 17, offset: 21192},
 																						run: (*parser).callonUnquotedAttributeValue71,
 																						expr: &seqExpr{
-																							pos: position{line: 666, col: 17, offset: 21191},
+																							pos: position{line: 666, col: 17, offset: 21192},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 666, col: 17, offset: 21191},
+																									pos:        position{line: 666, col: 17, offset: 21192},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 666, col: 21, offset: 21195},
+																									pos:   position{line: 666, col: 21, offset: 21196},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 666, col: 28, offset: 21202},
+																										pos: position{line: 666, col: 28, offset: 21203},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 666, col: 28, offset: 21202},
+																												pos: position{line: 666, col: 28, offset: 21203},
 																												run: (*parser).callonUnquotedAttributeValue76,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 666, col: 28, offset: 21202},
+																													pos:        position{line: 666, col: 28, offset: 21203},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -15027,12 +15027,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 668, col: 9, offset: 21256},
+																												pos: position{line: 668, col: 9, offset: 21257},
 																												run: (*parser).callonUnquotedAttributeValue78,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 668, col: 9, offset: 21256},
+																													pos: position{line: 668, col: 9, offset: 21257},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 668, col: 9, offset: 21256},
+																														pos:        position{line: 668, col: 9, offset: 21257},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -15049,7 +15049,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 662, col: 79, offset: 21084},
+																				pos:        position{line: 662, col: 79, offset: 21085},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -15064,16 +15064,16 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 622, col: 32, offset: 19592},
+											pos:        position{line: 622, col: 32, offset: 19593},
 											val:        "{",
 											ignoreCase: false,
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2876, col: 10, offset: 90951},
+											pos: position{line: 2876, col: 10, offset: 90952},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2876, col: 10, offset: 90951},
+												pos:        position{line: 2876, col: 10, offset: 90952},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -15081,12 +15081,12 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 624, col: 12, offset: 19677},
+											pos: position{line: 624, col: 12, offset: 19678},
 											run: (*parser).callonUnquotedAttributeValue85,
 											expr: &oneOrMoreExpr{
-												pos: position{line: 624, col: 12, offset: 19677},
+												pos: position{line: 624, col: 12, offset: 19678},
 												expr: &charClassMatcher{
-													pos:        position{line: 624, col: 12, offset: 19677},
+													pos:        position{line: 624, col: 12, offset: 19678},
 													val:        "[^=,]{ ]",
 													chars:      []rune{'=', ',', ']', '{', ' '},
 													ignoreCase: false,
@@ -15104,32 +15104,32 @@ var g = &grammar{
 		},
 		{
 			name: "CrossReference",
-			pos:  position{line: 684, col: 1, offset: 21818},
+			pos:  position{line: 684, col: 1, offset: 21819},
 			expr: &choiceExpr{
-				pos: position{line: 684, col: 19, offset: 21836},
+				pos: position{line: 684, col: 19, offset: 21837},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 686, col: 27, offset: 21912},
+						pos: position{line: 686, col: 27, offset: 21913},
 						run: (*parser).callonCrossReference2,
 						expr: &seqExpr{
-							pos: position{line: 686, col: 27, offset: 21912},
+							pos: position{line: 686, col: 27, offset: 21913},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 686, col: 27, offset: 21912},
+									pos:        position{line: 686, col: 27, offset: 21913},
 									val:        "<<",
 									ignoreCase: false,
 									want:       "\"<<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 686, col: 32, offset: 21917},
+									pos:   position{line: 686, col: 32, offset: 21918},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2861, col: 7, offset: 90603},
+										pos: position{line: 2861, col: 7, offset: 90604},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2861, col: 7, offset: 90603},
+											pos: position{line: 2861, col: 7, offset: 90604},
 											expr: &charClassMatcher{
-												pos:        position{line: 2861, col: 7, offset: 90603},
+												pos:        position{line: 2861, col: 7, offset: 90604},
 												val:        "[^[]<>,\\r\\n]",
 												chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 												ignoreCase: false,
@@ -15139,12 +15139,12 @@ var g = &grammar{
 									},
 								},
 								&zeroOrMoreExpr{
-									pos: position{line: 686, col: 40, offset: 21925},
+									pos: position{line: 686, col: 40, offset: 21926},
 									expr: &actionExpr{
-										pos: position{line: 2876, col: 10, offset: 90951},
+										pos: position{line: 2876, col: 10, offset: 90952},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2876, col: 10, offset: 90951},
+											pos:        position{line: 2876, col: 10, offset: 90952},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15153,18 +15153,18 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 686, col: 47, offset: 21932},
+									pos:        position{line: 686, col: 47, offset: 21933},
 									val:        ",",
 									ignoreCase: false,
 									want:       "\",\"",
 								},
 								&zeroOrMoreExpr{
-									pos: position{line: 686, col: 51, offset: 21936},
+									pos: position{line: 686, col: 51, offset: 21937},
 									expr: &actionExpr{
-										pos: position{line: 2876, col: 10, offset: 90951},
+										pos: position{line: 2876, col: 10, offset: 90952},
 										run: (*parser).callonCrossReference14,
 										expr: &charClassMatcher{
-											pos:        position{line: 2876, col: 10, offset: 90951},
+											pos:        position{line: 2876, col: 10, offset: 90952},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15173,20 +15173,20 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 686, col: 58, offset: 21943},
+									pos:   position{line: 686, col: 58, offset: 21944},
 									label: "label",
 									expr: &oneOrMoreExpr{
-										pos: position{line: 696, col: 24, offset: 22344},
+										pos: position{line: 696, col: 24, offset: 22345},
 										expr: &choiceExpr{
-											pos: position{line: 697, col: 5, offset: 22350},
+											pos: position{line: 697, col: 5, offset: 22351},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 697, col: 6, offset: 22351},
+													pos: position{line: 697, col: 6, offset: 22352},
 													run: (*parser).callonCrossReference19,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 697, col: 6, offset: 22351},
+														pos: position{line: 697, col: 6, offset: 22352},
 														expr: &charClassMatcher{
-															pos:        position{line: 697, col: 6, offset: 22351},
+															pos:        position{line: 697, col: 6, offset: 22352},
 															val:        "[^\\r\\n{<>]",
 															chars:      []rune{'\r', '\n', '{', '<', '>'},
 															ignoreCase: false,
@@ -15195,19 +15195,19 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 645, col: 5, offset: 20387},
+													pos: position{line: 645, col: 5, offset: 20388},
 													run: (*parser).callonCrossReference22,
 													expr: &seqExpr{
-														pos: position{line: 645, col: 5, offset: 20387},
+														pos: position{line: 645, col: 5, offset: 20388},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 645, col: 5, offset: 20387},
+																pos:        position{line: 645, col: 5, offset: 20388},
 																val:        "\\{",
 																ignoreCase: false,
 																want:       "\"\\\\{\"",
 															},
 															&labeledExpr{
-																pos:   position{line: 645, col: 13, offset: 20395},
+																pos:   position{line: 645, col: 13, offset: 20396},
 																label: "name",
 																expr: &actionExpr{
 																	pos: position{line: 318, col: 18, offset: 9729},
@@ -15227,8 +15227,8 @@ var g = &grammar{
 																				pos: position{line: 318, col: 28, offset: 9739},
 																				expr: &charClassMatcher{
 																					pos:        position{line: 318, col: 29, offset: 9740},
-																					val:        "[-\\pL\\pN]",
-																					chars:      []rune{'-'},
+																					val:        "[_-\\pL\\pN]",
+																					chars:      []rune{'_', '-'},
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
 																					inverted:   false,
@@ -15239,7 +15239,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 645, col: 32, offset: 20414},
+																pos:        position{line: 645, col: 32, offset: 20415},
 																val:        "}",
 																ignoreCase: false,
 																want:       "\"}\"",
@@ -15248,19 +15248,19 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 652, col: 5, offset: 20655},
+													pos: position{line: 652, col: 5, offset: 20656},
 													run: (*parser).callonCrossReference32,
 													expr: &seqExpr{
-														pos: position{line: 652, col: 5, offset: 20655},
+														pos: position{line: 652, col: 5, offset: 20656},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 652, col: 5, offset: 20655},
+																pos:        position{line: 652, col: 5, offset: 20656},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
 															},
 															&labeledExpr{
-																pos:   position{line: 652, col: 9, offset: 20659},
+																pos:   position{line: 652, col: 9, offset: 20660},
 																label: "name",
 																expr: &actionExpr{
 																	pos: position{line: 318, col: 18, offset: 9729},
@@ -15280,8 +15280,8 @@ var g = &grammar{
 																				pos: position{line: 318, col: 28, offset: 9739},
 																				expr: &charClassMatcher{
 																					pos:        position{line: 318, col: 29, offset: 9740},
-																					val:        "[-\\pL\\pN]",
-																					chars:      []rune{'-'},
+																					val:        "[_-\\pL\\pN]",
+																					chars:      []rune{'_', '-'},
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
 																					inverted:   false,
@@ -15292,7 +15292,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 652, col: 28, offset: 20678},
+																pos:        position{line: 652, col: 28, offset: 20679},
 																val:        "}",
 																ignoreCase: false,
 																want:       "\"}\"",
@@ -15301,10 +15301,10 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 701, col: 8, offset: 22578},
+													pos: position{line: 701, col: 8, offset: 22579},
 													run: (*parser).callonCrossReference42,
 													expr: &litMatcher{
-														pos:        position{line: 701, col: 8, offset: 22578},
+														pos:        position{line: 701, col: 8, offset: 22579},
 														val:        "{",
 														ignoreCase: false,
 														want:       "\"{\"",
@@ -15315,7 +15315,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 686, col: 86, offset: 21971},
+									pos:        position{line: 686, col: 86, offset: 21972},
 									val:        ">>",
 									ignoreCase: false,
 									want:       "\">>\"",
@@ -15324,27 +15324,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 688, col: 9, offset: 22044},
+						pos: position{line: 688, col: 9, offset: 22045},
 						run: (*parser).callonCrossReference45,
 						expr: &seqExpr{
-							pos: position{line: 688, col: 9, offset: 22044},
+							pos: position{line: 688, col: 9, offset: 22045},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 688, col: 9, offset: 22044},
+									pos:        position{line: 688, col: 9, offset: 22045},
 									val:        "<<",
 									ignoreCase: false,
 									want:       "\"<<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 688, col: 14, offset: 22049},
+									pos:   position{line: 688, col: 14, offset: 22050},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2861, col: 7, offset: 90603},
+										pos: position{line: 2861, col: 7, offset: 90604},
 										run: (*parser).callonCrossReference49,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2861, col: 7, offset: 90603},
+											pos: position{line: 2861, col: 7, offset: 90604},
 											expr: &charClassMatcher{
-												pos:        position{line: 2861, col: 7, offset: 90603},
+												pos:        position{line: 2861, col: 7, offset: 90604},
 												val:        "[^[]<>,\\r\\n]",
 												chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 												ignoreCase: false,
@@ -15354,7 +15354,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 688, col: 22, offset: 22057},
+									pos:        position{line: 688, col: 22, offset: 22058},
 									val:        ">>",
 									ignoreCase: false,
 									want:       "\">>\"",
@@ -15363,7 +15363,7 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 684, col: 44, offset: 21861},
+						pos:  position{line: 684, col: 44, offset: 21862},
 						name: "ExternalCrossReference",
 					},
 				},
@@ -15371,58 +15371,58 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalCrossReference",
-			pos:  position{line: 692, col: 1, offset: 22128},
+			pos:  position{line: 692, col: 1, offset: 22129},
 			expr: &actionExpr{
-				pos: position{line: 692, col: 27, offset: 22154},
+				pos: position{line: 692, col: 27, offset: 22155},
 				run: (*parser).callonExternalCrossReference1,
 				expr: &seqExpr{
-					pos: position{line: 692, col: 27, offset: 22154},
+					pos: position{line: 692, col: 27, offset: 22155},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 692, col: 27, offset: 22154},
+							pos:        position{line: 692, col: 27, offset: 22155},
 							val:        "xref:",
 							ignoreCase: false,
 							want:       "\"xref:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 692, col: 35, offset: 22162},
+							pos:   position{line: 692, col: 35, offset: 22163},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2830, col: 17, offset: 89614},
+								pos: position{line: 2830, col: 17, offset: 89615},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2830, col: 17, offset: 89614},
+									pos:   position{line: 2830, col: 17, offset: 89615},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2847, col: 5, offset: 90068},
+										pos: position{line: 2847, col: 5, offset: 90069},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2847, col: 5, offset: 90068},
+											pos:   position{line: 2847, col: 5, offset: 90069},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2847, col: 14, offset: 90077},
+												pos: position{line: 2847, col: 14, offset: 90078},
 												expr: &choiceExpr{
-													pos: position{line: 2848, col: 9, offset: 90087},
+													pos: position{line: 2848, col: 9, offset: 90088},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2848, col: 9, offset: 90087},
+															pos: position{line: 2848, col: 9, offset: 90088},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2848, col: 9, offset: 90087},
+																pos: position{line: 2848, col: 9, offset: 90088},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2848, col: 9, offset: 90087},
+																		pos: position{line: 2848, col: 9, offset: 90088},
 																		expr: &litMatcher{
-																			pos:        position{line: 2848, col: 10, offset: 90088},
+																			pos:        position{line: 2848, col: 10, offset: 90089},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2849, col: 9, offset: 90116},
+																		pos: position{line: 2849, col: 9, offset: 90117},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2849, col: 10, offset: 90117},
+																			pos:        position{line: 2849, col: 10, offset: 90118},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -15433,27 +15433,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2852, col: 11, offset: 90329},
+															pos: position{line: 2852, col: 11, offset: 90330},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2852, col: 11, offset: 90329},
+																	pos:        position{line: 2852, col: 11, offset: 90330},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2852, col: 19, offset: 90337},
+																	pos: position{line: 2852, col: 19, offset: 90338},
 																	expr: &seqExpr{
-																		pos: position{line: 2852, col: 21, offset: 90339},
+																		pos: position{line: 2852, col: 21, offset: 90340},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2852, col: 21, offset: 90339},
+																				pos: position{line: 2852, col: 21, offset: 90340},
 																				expr: &actionExpr{
-																					pos: position{line: 2876, col: 10, offset: 90951},
+																					pos: position{line: 2876, col: 10, offset: 90952},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2876, col: 10, offset: 90951},
+																						pos:        position{line: 2876, col: 10, offset: 90952},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -15462,11 +15462,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2852, col: 28, offset: 90346},
+																				pos: position{line: 2852, col: 28, offset: 90347},
 																				expr: &notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91299},
+																					pos: position{line: 2895, col: 8, offset: 91300},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91300,
+																						line: 2895, col: 9, offset: 91301,
 																					},
 																				},
 																			},
@@ -15476,35 +15476,35 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 636, col: 5, offset: 20177},
+															pos: position{line: 636, col: 5, offset: 20178},
 															run: (*parser).callonExternalCrossReference27,
 															expr: &seqExpr{
-																pos: position{line: 636, col: 5, offset: 20177},
+																pos: position{line: 636, col: 5, offset: 20178},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 636, col: 5, offset: 20177},
+																		pos: position{line: 636, col: 5, offset: 20178},
 																		run: (*parser).callonExternalCrossReference29,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 639, col: 5, offset: 20249},
+																		pos:   position{line: 639, col: 5, offset: 20250},
 																		label: "element",
 																		expr: &choiceExpr{
-																			pos: position{line: 639, col: 14, offset: 20258},
+																			pos: position{line: 639, col: 14, offset: 20259},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 645, col: 5, offset: 20387},
+																					pos: position{line: 645, col: 5, offset: 20388},
 																					run: (*parser).callonExternalCrossReference32,
 																					expr: &seqExpr{
-																						pos: position{line: 645, col: 5, offset: 20387},
+																						pos: position{line: 645, col: 5, offset: 20388},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 645, col: 5, offset: 20387},
+																								pos:        position{line: 645, col: 5, offset: 20388},
 																								val:        "\\{",
 																								ignoreCase: false,
 																								want:       "\"\\\\{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 645, col: 13, offset: 20395},
+																								pos:   position{line: 645, col: 13, offset: 20396},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9729},
@@ -15524,8 +15524,8 @@ var g = &grammar{
 																												pos: position{line: 318, col: 28, offset: 9739},
 																												expr: &charClassMatcher{
 																													pos:        position{line: 318, col: 29, offset: 9740},
-																													val:        "[-\\pL\\pN]",
-																													chars:      []rune{'-'},
+																													val:        "[_-\\pL\\pN]",
+																													chars:      []rune{'_', '-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																													ignoreCase: false,
 																													inverted:   false,
@@ -15536,7 +15536,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 645, col: 32, offset: 20414},
+																								pos:        position{line: 645, col: 32, offset: 20415},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -15545,19 +15545,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 652, col: 5, offset: 20655},
+																					pos: position{line: 652, col: 5, offset: 20656},
 																					run: (*parser).callonExternalCrossReference42,
 																					expr: &seqExpr{
-																						pos: position{line: 652, col: 5, offset: 20655},
+																						pos: position{line: 652, col: 5, offset: 20656},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 652, col: 5, offset: 20655},
+																								pos:        position{line: 652, col: 5, offset: 20656},
 																								val:        "{",
 																								ignoreCase: false,
 																								want:       "\"{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 652, col: 9, offset: 20659},
+																								pos:   position{line: 652, col: 9, offset: 20660},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9729},
@@ -15577,8 +15577,8 @@ var g = &grammar{
 																												pos: position{line: 318, col: 28, offset: 9739},
 																												expr: &charClassMatcher{
 																													pos:        position{line: 318, col: 29, offset: 9740},
-																													val:        "[-\\pL\\pN]",
-																													chars:      []rune{'-'},
+																													val:        "[_-\\pL\\pN]",
+																													chars:      []rune{'_', '-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																													ignoreCase: false,
 																													inverted:   false,
@@ -15589,7 +15589,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 652, col: 28, offset: 20678},
+																								pos:        position{line: 652, col: 28, offset: 20679},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -15598,19 +15598,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 658, col: 25, offset: 20859},
+																					pos: position{line: 658, col: 25, offset: 20860},
 																					run: (*parser).callonExternalCrossReference52,
 																					expr: &seqExpr{
-																						pos: position{line: 658, col: 25, offset: 20859},
+																						pos: position{line: 658, col: 25, offset: 20860},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 658, col: 25, offset: 20859},
+																								pos:        position{line: 658, col: 25, offset: 20860},
 																								val:        "{counter:",
 																								ignoreCase: false,
 																								want:       "\"{counter:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 658, col: 37, offset: 20871},
+																								pos:   position{line: 658, col: 37, offset: 20872},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9729},
@@ -15630,8 +15630,8 @@ var g = &grammar{
 																												pos: position{line: 318, col: 28, offset: 9739},
 																												expr: &charClassMatcher{
 																													pos:        position{line: 318, col: 29, offset: 9740},
-																													val:        "[-\\pL\\pN]",
-																													chars:      []rune{'-'},
+																													val:        "[_-\\pL\\pN]",
+																													chars:      []rune{'_', '-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																													ignoreCase: false,
 																													inverted:   false,
@@ -15642,33 +15642,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 658, col: 56, offset: 20890},
+																								pos:   position{line: 658, col: 56, offset: 20891},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 658, col: 62, offset: 20896},
+																									pos: position{line: 658, col: 62, offset: 20897},
 																									expr: &actionExpr{
-																										pos: position{line: 666, col: 17, offset: 21191},
+																										pos: position{line: 666, col: 17, offset: 21192},
 																										run: (*parser).callonExternalCrossReference63,
 																										expr: &seqExpr{
-																											pos: position{line: 666, col: 17, offset: 21191},
+																											pos: position{line: 666, col: 17, offset: 21192},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 666, col: 17, offset: 21191},
+																													pos:        position{line: 666, col: 17, offset: 21192},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 666, col: 21, offset: 21195},
+																													pos:   position{line: 666, col: 21, offset: 21196},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 666, col: 28, offset: 21202},
+																														pos: position{line: 666, col: 28, offset: 21203},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 666, col: 28, offset: 21202},
+																																pos: position{line: 666, col: 28, offset: 21203},
 																																run: (*parser).callonExternalCrossReference68,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 666, col: 28, offset: 21202},
+																																	pos:        position{line: 666, col: 28, offset: 21203},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -15676,12 +15676,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 668, col: 9, offset: 21256},
+																																pos: position{line: 668, col: 9, offset: 21257},
 																																run: (*parser).callonExternalCrossReference70,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 668, col: 9, offset: 21256},
+																																	pos: position{line: 668, col: 9, offset: 21257},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 668, col: 9, offset: 21256},
+																																		pos:        position{line: 668, col: 9, offset: 21257},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -15698,7 +15698,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 658, col: 78, offset: 20912},
+																								pos:        position{line: 658, col: 78, offset: 20913},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -15707,19 +15707,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 662, col: 25, offset: 21030},
+																					pos: position{line: 662, col: 25, offset: 21031},
 																					run: (*parser).callonExternalCrossReference74,
 																					expr: &seqExpr{
-																						pos: position{line: 662, col: 25, offset: 21030},
+																						pos: position{line: 662, col: 25, offset: 21031},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 662, col: 25, offset: 21030},
+																								pos:        position{line: 662, col: 25, offset: 21031},
 																								val:        "{counter2:",
 																								ignoreCase: false,
 																								want:       "\"{counter2:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 662, col: 38, offset: 21043},
+																								pos:   position{line: 662, col: 38, offset: 21044},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9729},
@@ -15739,8 +15739,8 @@ var g = &grammar{
 																												pos: position{line: 318, col: 28, offset: 9739},
 																												expr: &charClassMatcher{
 																													pos:        position{line: 318, col: 29, offset: 9740},
-																													val:        "[-\\pL\\pN]",
-																													chars:      []rune{'-'},
+																													val:        "[_-\\pL\\pN]",
+																													chars:      []rune{'_', '-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																													ignoreCase: false,
 																													inverted:   false,
@@ -15751,33 +15751,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 662, col: 57, offset: 21062},
+																								pos:   position{line: 662, col: 57, offset: 21063},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 662, col: 63, offset: 21068},
+																									pos: position{line: 662, col: 63, offset: 21069},
 																									expr: &actionExpr{
-																										pos: position{line: 666, col: 17, offset: 21191},
+																										pos: position{line: 666, col: 17, offset: 21192},
 																										run: (*parser).callonExternalCrossReference85,
 																										expr: &seqExpr{
-																											pos: position{line: 666, col: 17, offset: 21191},
+																											pos: position{line: 666, col: 17, offset: 21192},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 666, col: 17, offset: 21191},
+																													pos:        position{line: 666, col: 17, offset: 21192},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 666, col: 21, offset: 21195},
+																													pos:   position{line: 666, col: 21, offset: 21196},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 666, col: 28, offset: 21202},
+																														pos: position{line: 666, col: 28, offset: 21203},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 666, col: 28, offset: 21202},
+																																pos: position{line: 666, col: 28, offset: 21203},
 																																run: (*parser).callonExternalCrossReference90,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 666, col: 28, offset: 21202},
+																																	pos:        position{line: 666, col: 28, offset: 21203},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -15785,12 +15785,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 668, col: 9, offset: 21256},
+																																pos: position{line: 668, col: 9, offset: 21257},
 																																run: (*parser).callonExternalCrossReference92,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 668, col: 9, offset: 21256},
+																																	pos: position{line: 668, col: 9, offset: 21257},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 668, col: 9, offset: 21256},
+																																		pos:        position{line: 668, col: 9, offset: 21257},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -15807,7 +15807,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 662, col: 79, offset: 21084},
+																								pos:        position{line: 662, col: 79, offset: 21085},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -15822,27 +15822,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1198, col: 23, offset: 37045},
+															pos: position{line: 1198, col: 23, offset: 37046},
 															run: (*parser).callonExternalCrossReference96,
 															expr: &seqExpr{
-																pos: position{line: 1198, col: 23, offset: 37045},
+																pos: position{line: 1198, col: 23, offset: 37046},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1196, col: 32, offset: 37013},
+																		pos:        position{line: 1196, col: 32, offset: 37014},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1198, col: 51, offset: 37073},
+																		pos:   position{line: 1198, col: 51, offset: 37074},
 																		label: "ref",
 																		expr: &actionExpr{
-																			pos: position{line: 1198, col: 56, offset: 37078},
+																			pos: position{line: 1198, col: 56, offset: 37079},
 																			run: (*parser).callonExternalCrossReference100,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1198, col: 56, offset: 37078},
+																				pos: position{line: 1198, col: 56, offset: 37079},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1198, col: 56, offset: 37078},
+																					pos:        position{line: 1198, col: 56, offset: 37079},
 																					val:        "[0-9]",
 																					ranges:     []rune{'0', '9'},
 																					ignoreCase: false,
@@ -15852,7 +15852,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1196, col: 32, offset: 37013},
+																		pos:        position{line: 1196, col: 32, offset: 37014},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
@@ -15861,10 +15861,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2855, col: 11, offset: 90466},
+															pos: position{line: 2855, col: 11, offset: 90467},
 															run: (*parser).callonExternalCrossReference104,
 															expr: &litMatcher{
-																pos:        position{line: 2855, col: 11, offset: 90466},
+																pos:        position{line: 2855, col: 11, offset: 90467},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -15879,10 +15879,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 692, col: 54, offset: 22181},
+							pos:   position{line: 692, col: 54, offset: 22182},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 692, col: 66, offset: 22193},
+								pos:  position{line: 692, col: 66, offset: 22194},
 								name: "InlineAttributes",
 							},
 						},
@@ -15892,29 +15892,29 @@ var g = &grammar{
 		},
 		{
 			name: "MarkdownQuoteAttribution",
-			pos:  position{line: 988, col: 1, offset: 30840},
+			pos:  position{line: 988, col: 1, offset: 30841},
 			expr: &actionExpr{
-				pos: position{line: 989, col: 5, offset: 30873},
+				pos: position{line: 989, col: 5, offset: 30874},
 				run: (*parser).callonMarkdownQuoteAttribution1,
 				expr: &seqExpr{
-					pos: position{line: 989, col: 5, offset: 30873},
+					pos: position{line: 989, col: 5, offset: 30874},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 989, col: 5, offset: 30873},
+							pos:        position{line: 989, col: 5, offset: 30874},
 							val:        "-- ",
 							ignoreCase: false,
 							want:       "\"-- \"",
 						},
 						&labeledExpr{
-							pos:   position{line: 989, col: 11, offset: 30879},
+							pos:   position{line: 989, col: 11, offset: 30880},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2826, col: 14, offset: 89544},
+								pos: position{line: 2826, col: 14, offset: 89545},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2826, col: 14, offset: 89544},
+									pos: position{line: 2826, col: 14, offset: 89545},
 									expr: &charClassMatcher{
-										pos:        position{line: 2826, col: 14, offset: 89544},
+										pos:        position{line: 2826, col: 14, offset: 89545},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -15924,28 +15924,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2898, col: 8, offset: 91349},
+							pos: position{line: 2898, col: 8, offset: 91350},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2885, col: 12, offset: 91122},
+									pos: position{line: 2885, col: 12, offset: 91123},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2885, col: 13, offset: 91123},
+										pos: position{line: 2885, col: 13, offset: 91124},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2885, col: 13, offset: 91123},
+												pos:        position{line: 2885, col: 13, offset: 91124},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 20, offset: 91130},
+												pos:        position{line: 2885, col: 20, offset: 91131},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 29, offset: 91139},
+												pos:        position{line: 2885, col: 29, offset: 91140},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -15954,9 +15954,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2895, col: 8, offset: 91299},
+									pos: position{line: 2895, col: 8, offset: 91300},
 									expr: &anyMatcher{
-										line: 2895, col: 9, offset: 91300,
+										line: 2895, col: 9, offset: 91301,
 									},
 								},
 							},
@@ -15967,53 +15967,53 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentHeader",
-			pos:  position{line: 1100, col: 1, offset: 33796},
+			pos:  position{line: 1100, col: 1, offset: 33797},
 			expr: &actionExpr{
-				pos: position{line: 1101, col: 5, offset: 33819},
+				pos: position{line: 1101, col: 5, offset: 33820},
 				run: (*parser).callonDocumentHeader1,
 				expr: &seqExpr{
-					pos: position{line: 1101, col: 5, offset: 33819},
+					pos: position{line: 1101, col: 5, offset: 33820},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1101, col: 5, offset: 33819},
+							pos: position{line: 1101, col: 5, offset: 33820},
 							run: (*parser).callonDocumentHeader3,
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1104, col: 5, offset: 33880},
+							pos: position{line: 1104, col: 5, offset: 33881},
 							expr: &choiceExpr{
-								pos: position{line: 1104, col: 6, offset: 33881},
+								pos: position{line: 1104, col: 6, offset: 33882},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2483, col: 22, offset: 79858},
+										pos: position{line: 2483, col: 22, offset: 79859},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2483, col: 22, offset: 79858},
+											pos: position{line: 2483, col: 22, offset: 79859},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2488, col: 31, offset: 80079},
+													pos:        position{line: 2488, col: 31, offset: 80080},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2488, col: 36, offset: 80084},
+													pos: position{line: 2488, col: 36, offset: 80085},
 													expr: &litMatcher{
-														pos:        position{line: 2488, col: 37, offset: 80085},
+														pos:        position{line: 2488, col: 37, offset: 80086},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2483, col: 49, offset: 79885},
+													pos:   position{line: 2483, col: 49, offset: 79886},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2822, col: 13, offset: 89477},
+														pos: position{line: 2822, col: 13, offset: 89478},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2822, col: 13, offset: 89477},
+															pos: position{line: 2822, col: 13, offset: 89478},
 															expr: &charClassMatcher{
-																pos:        position{line: 2822, col: 13, offset: 89477},
+																pos:        position{line: 2822, col: 13, offset: 89478},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16023,28 +16023,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2898, col: 8, offset: 91349},
+													pos: position{line: 2898, col: 8, offset: 91350},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91122},
+															pos: position{line: 2885, col: 12, offset: 91123},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2885, col: 13, offset: 91123},
+																pos: position{line: 2885, col: 13, offset: 91124},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 13, offset: 91123},
+																		pos:        position{line: 2885, col: 13, offset: 91124},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 20, offset: 91130},
+																		pos:        position{line: 2885, col: 20, offset: 91131},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 29, offset: 91139},
+																		pos:        position{line: 2885, col: 29, offset: 91140},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16053,9 +16053,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2895, col: 8, offset: 91299},
+															pos: position{line: 2895, col: 8, offset: 91300},
 															expr: &anyMatcher{
-																line: 2895, col: 9, offset: 91300,
+																line: 2895, col: 9, offset: 91301,
 															},
 														},
 													},
@@ -16064,36 +16064,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 820, col: 5, offset: 26397},
+										pos: position{line: 820, col: 5, offset: 26398},
 										run: (*parser).callonDocumentHeader23,
 										expr: &seqExpr{
-											pos: position{line: 820, col: 5, offset: 26397},
+											pos: position{line: 820, col: 5, offset: 26398},
 											exprs: []interface{}{
 												&actionExpr{
-													pos: position{line: 740, col: 5, offset: 23652},
+													pos: position{line: 740, col: 5, offset: 23653},
 													run: (*parser).callonDocumentHeader25,
 													expr: &seqExpr{
-														pos: position{line: 740, col: 5, offset: 23652},
+														pos: position{line: 740, col: 5, offset: 23653},
 														exprs: []interface{}{
 															&labeledExpr{
-																pos:   position{line: 740, col: 5, offset: 23652},
+																pos:   position{line: 740, col: 5, offset: 23653},
 																label: "delimiter",
 																expr: &actionExpr{
-																	pos: position{line: 740, col: 16, offset: 23663},
+																	pos: position{line: 740, col: 16, offset: 23664},
 																	run: (*parser).callonDocumentHeader28,
 																	expr: &seqExpr{
-																		pos: position{line: 740, col: 16, offset: 23663},
+																		pos: position{line: 740, col: 16, offset: 23664},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 740, col: 16, offset: 23663},
+																				pos:        position{line: 740, col: 16, offset: 23664},
 																				val:        "////",
 																				ignoreCase: false,
 																				want:       "\"////\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 740, col: 23, offset: 23670},
+																				pos: position{line: 740, col: 23, offset: 23671},
 																				expr: &litMatcher{
-																					pos:        position{line: 740, col: 23, offset: 23670},
+																					pos:        position{line: 740, col: 23, offset: 23671},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -16104,12 +16104,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 742, col: 8, offset: 23754},
+																pos: position{line: 742, col: 8, offset: 23755},
 																expr: &actionExpr{
-																	pos: position{line: 2876, col: 10, offset: 90951},
+																	pos: position{line: 2876, col: 10, offset: 90952},
 																	run: (*parser).callonDocumentHeader34,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2876, col: 10, offset: 90951},
+																		pos:        position{line: 2876, col: 10, offset: 90952},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16118,28 +16118,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2898, col: 8, offset: 91349},
+																pos: position{line: 2898, col: 8, offset: 91350},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2885, col: 12, offset: 91122},
+																		pos: position{line: 2885, col: 12, offset: 91123},
 																		run: (*parser).callonDocumentHeader37,
 																		expr: &choiceExpr{
-																			pos: position{line: 2885, col: 13, offset: 91123},
+																			pos: position{line: 2885, col: 13, offset: 91124},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 13, offset: 91123},
+																					pos:        position{line: 2885, col: 13, offset: 91124},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 20, offset: 91130},
+																					pos:        position{line: 2885, col: 20, offset: 91131},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 29, offset: 91139},
+																					pos:        position{line: 2885, col: 29, offset: 91140},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -16148,9 +16148,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91299},
+																		pos: position{line: 2895, col: 8, offset: 91300},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91300,
+																			line: 2895, col: 9, offset: 91301,
 																		},
 																	},
 																},
@@ -16159,46 +16159,46 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 821, col: 5, offset: 26428},
+													pos:   position{line: 821, col: 5, offset: 26429},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 831, col: 5, offset: 26714},
+														pos: position{line: 831, col: 5, offset: 26715},
 														expr: &actionExpr{
-															pos: position{line: 831, col: 6, offset: 26715},
+															pos: position{line: 831, col: 6, offset: 26716},
 															run: (*parser).callonDocumentHeader46,
 															expr: &seqExpr{
-																pos: position{line: 831, col: 6, offset: 26715},
+																pos: position{line: 831, col: 6, offset: 26716},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 831, col: 6, offset: 26715},
+																		pos: position{line: 831, col: 6, offset: 26716},
 																		expr: &choiceExpr{
-																			pos: position{line: 828, col: 29, offset: 26657},
+																			pos: position{line: 828, col: 29, offset: 26658},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 740, col: 5, offset: 23652},
+																					pos: position{line: 740, col: 5, offset: 23653},
 																					run: (*parser).callonDocumentHeader50,
 																					expr: &seqExpr{
-																						pos: position{line: 740, col: 5, offset: 23652},
+																						pos: position{line: 740, col: 5, offset: 23653},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 740, col: 5, offset: 23652},
+																								pos:   position{line: 740, col: 5, offset: 23653},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 740, col: 16, offset: 23663},
+																									pos: position{line: 740, col: 16, offset: 23664},
 																									run: (*parser).callonDocumentHeader53,
 																									expr: &seqExpr{
-																										pos: position{line: 740, col: 16, offset: 23663},
+																										pos: position{line: 740, col: 16, offset: 23664},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 740, col: 16, offset: 23663},
+																												pos:        position{line: 740, col: 16, offset: 23664},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 740, col: 23, offset: 23670},
+																												pos: position{line: 740, col: 23, offset: 23671},
 																												expr: &litMatcher{
-																													pos:        position{line: 740, col: 23, offset: 23670},
+																													pos:        position{line: 740, col: 23, offset: 23671},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -16209,12 +16209,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 742, col: 8, offset: 23754},
+																								pos: position{line: 742, col: 8, offset: 23755},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 90951},
+																									pos: position{line: 2876, col: 10, offset: 90952},
 																									run: (*parser).callonDocumentHeader59,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 90951},
+																										pos:        position{line: 2876, col: 10, offset: 90952},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -16223,28 +16223,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2898, col: 8, offset: 91349},
+																								pos: position{line: 2898, col: 8, offset: 91350},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2885, col: 12, offset: 91122},
+																										pos: position{line: 2885, col: 12, offset: 91123},
 																										run: (*parser).callonDocumentHeader62,
 																										expr: &choiceExpr{
-																											pos: position{line: 2885, col: 13, offset: 91123},
+																											pos: position{line: 2885, col: 13, offset: 91124},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 13, offset: 91123},
+																													pos:        position{line: 2885, col: 13, offset: 91124},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 20, offset: 91130},
+																													pos:        position{line: 2885, col: 20, offset: 91131},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 29, offset: 91139},
+																													pos:        position{line: 2885, col: 29, offset: 91140},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -16253,9 +16253,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2895, col: 8, offset: 91299},
+																										pos: position{line: 2895, col: 8, offset: 91300},
 																										expr: &anyMatcher{
-																											line: 2895, col: 9, offset: 91300,
+																											line: 2895, col: 9, offset: 91301,
 																										},
 																									},
 																								},
@@ -16264,39 +16264,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91299},
+																					pos: position{line: 2895, col: 8, offset: 91300},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91300,
+																						line: 2895, col: 9, offset: 91301,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 832, col: 5, offset: 26745},
+																		pos:   position{line: 832, col: 5, offset: 26746},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26161},
+																			pos: position{line: 811, col: 5, offset: 26162},
 																			run: (*parser).callonDocumentHeader72,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26161},
+																				pos: position{line: 811, col: 5, offset: 26162},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2893, col: 11, offset: 91285},
+																						pos: position{line: 2893, col: 11, offset: 91286},
 																						expr: &anyMatcher{
-																							line: 2893, col: 13, offset: 91287,
+																							line: 2893, col: 13, offset: 91288,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26236},
+																						pos:   position{line: 812, col: 5, offset: 26237},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2822, col: 13, offset: 89477},
+																							pos: position{line: 2822, col: 13, offset: 89478},
 																							run: (*parser).callonDocumentHeader77,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2822, col: 13, offset: 89477},
+																								pos: position{line: 2822, col: 13, offset: 89478},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2822, col: 13, offset: 89477},
+																									pos:        position{line: 2822, col: 13, offset: 89478},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16306,28 +16306,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91349},
+																						pos: position{line: 2898, col: 8, offset: 91350},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91122},
+																								pos: position{line: 2885, col: 12, offset: 91123},
 																								run: (*parser).callonDocumentHeader81,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91123},
+																									pos: position{line: 2885, col: 13, offset: 91124},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91123},
+																											pos:        position{line: 2885, col: 13, offset: 91124},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91130},
+																											pos:        position{line: 2885, col: 20, offset: 91131},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91139},
+																											pos:        position{line: 2885, col: 29, offset: 91140},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16336,9 +16336,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91299},
+																								pos: position{line: 2895, col: 8, offset: 91300},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91300,
+																									line: 2895, col: 9, offset: 91301,
 																								},
 																							},
 																						},
@@ -16353,35 +16353,35 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 822, col: 5, offset: 26462},
+													pos: position{line: 822, col: 5, offset: 26463},
 													expr: &choiceExpr{
-														pos: position{line: 828, col: 29, offset: 26657},
+														pos: position{line: 828, col: 29, offset: 26658},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 740, col: 5, offset: 23652},
+																pos: position{line: 740, col: 5, offset: 23653},
 																run: (*parser).callonDocumentHeader90,
 																expr: &seqExpr{
-																	pos: position{line: 740, col: 5, offset: 23652},
+																	pos: position{line: 740, col: 5, offset: 23653},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 740, col: 5, offset: 23652},
+																			pos:   position{line: 740, col: 5, offset: 23653},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 740, col: 16, offset: 23663},
+																				pos: position{line: 740, col: 16, offset: 23664},
 																				run: (*parser).callonDocumentHeader93,
 																				expr: &seqExpr{
-																					pos: position{line: 740, col: 16, offset: 23663},
+																					pos: position{line: 740, col: 16, offset: 23664},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 740, col: 16, offset: 23663},
+																							pos:        position{line: 740, col: 16, offset: 23664},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 740, col: 23, offset: 23670},
+																							pos: position{line: 740, col: 23, offset: 23671},
 																							expr: &litMatcher{
-																								pos:        position{line: 740, col: 23, offset: 23670},
+																								pos:        position{line: 740, col: 23, offset: 23671},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -16392,12 +16392,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 742, col: 8, offset: 23754},
+																			pos: position{line: 742, col: 8, offset: 23755},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 90951},
+																				pos: position{line: 2876, col: 10, offset: 90952},
 																				run: (*parser).callonDocumentHeader99,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 90951},
+																					pos:        position{line: 2876, col: 10, offset: 90952},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -16406,28 +16406,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91349},
+																			pos: position{line: 2898, col: 8, offset: 91350},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91122},
+																					pos: position{line: 2885, col: 12, offset: 91123},
 																					run: (*parser).callonDocumentHeader102,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91123},
+																						pos: position{line: 2885, col: 13, offset: 91124},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91123},
+																								pos:        position{line: 2885, col: 13, offset: 91124},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91130},
+																								pos:        position{line: 2885, col: 20, offset: 91131},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91139},
+																								pos:        position{line: 2885, col: 29, offset: 91140},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -16436,9 +16436,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91299},
+																					pos: position{line: 2895, col: 8, offset: 91300},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91300,
+																						line: 2895, col: 9, offset: 91301,
 																					},
 																				},
 																			},
@@ -16447,9 +16447,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91299},
+																pos: position{line: 2895, col: 8, offset: 91300},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91300,
+																	line: 2895, col: 9, offset: 91301,
 																},
 															},
 														},
@@ -16462,49 +16462,49 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1105, col: 5, offset: 33977},
+							pos:   position{line: 1105, col: 5, offset: 33978},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1105, col: 12, offset: 33984},
+								pos:  position{line: 1105, col: 12, offset: 33985},
 								name: "DocumentTitle",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1106, col: 5, offset: 34003},
+							pos: position{line: 1106, col: 5, offset: 34004},
 							expr: &choiceExpr{
-								pos: position{line: 1106, col: 6, offset: 34004},
+								pos: position{line: 1106, col: 6, offset: 34005},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2483, col: 22, offset: 79858},
+										pos: position{line: 2483, col: 22, offset: 79859},
 										run: (*parser).callonDocumentHeader115,
 										expr: &seqExpr{
-											pos: position{line: 2483, col: 22, offset: 79858},
+											pos: position{line: 2483, col: 22, offset: 79859},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2488, col: 31, offset: 80079},
+													pos:        position{line: 2488, col: 31, offset: 80080},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2488, col: 36, offset: 80084},
+													pos: position{line: 2488, col: 36, offset: 80085},
 													expr: &litMatcher{
-														pos:        position{line: 2488, col: 37, offset: 80085},
+														pos:        position{line: 2488, col: 37, offset: 80086},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2483, col: 49, offset: 79885},
+													pos:   position{line: 2483, col: 49, offset: 79886},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2822, col: 13, offset: 89477},
+														pos: position{line: 2822, col: 13, offset: 89478},
 														run: (*parser).callonDocumentHeader121,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2822, col: 13, offset: 89477},
+															pos: position{line: 2822, col: 13, offset: 89478},
 															expr: &charClassMatcher{
-																pos:        position{line: 2822, col: 13, offset: 89477},
+																pos:        position{line: 2822, col: 13, offset: 89478},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16514,28 +16514,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2898, col: 8, offset: 91349},
+													pos: position{line: 2898, col: 8, offset: 91350},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91122},
+															pos: position{line: 2885, col: 12, offset: 91123},
 															run: (*parser).callonDocumentHeader125,
 															expr: &choiceExpr{
-																pos: position{line: 2885, col: 13, offset: 91123},
+																pos: position{line: 2885, col: 13, offset: 91124},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 13, offset: 91123},
+																		pos:        position{line: 2885, col: 13, offset: 91124},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 20, offset: 91130},
+																		pos:        position{line: 2885, col: 20, offset: 91131},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 29, offset: 91139},
+																		pos:        position{line: 2885, col: 29, offset: 91140},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16544,9 +16544,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2895, col: 8, offset: 91299},
+															pos: position{line: 2895, col: 8, offset: 91300},
 															expr: &anyMatcher{
-																line: 2895, col: 9, offset: 91300,
+																line: 2895, col: 9, offset: 91301,
 															},
 														},
 													},
@@ -16555,36 +16555,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 820, col: 5, offset: 26397},
+										pos: position{line: 820, col: 5, offset: 26398},
 										run: (*parser).callonDocumentHeader132,
 										expr: &seqExpr{
-											pos: position{line: 820, col: 5, offset: 26397},
+											pos: position{line: 820, col: 5, offset: 26398},
 											exprs: []interface{}{
 												&actionExpr{
-													pos: position{line: 740, col: 5, offset: 23652},
+													pos: position{line: 740, col: 5, offset: 23653},
 													run: (*parser).callonDocumentHeader134,
 													expr: &seqExpr{
-														pos: position{line: 740, col: 5, offset: 23652},
+														pos: position{line: 740, col: 5, offset: 23653},
 														exprs: []interface{}{
 															&labeledExpr{
-																pos:   position{line: 740, col: 5, offset: 23652},
+																pos:   position{line: 740, col: 5, offset: 23653},
 																label: "delimiter",
 																expr: &actionExpr{
-																	pos: position{line: 740, col: 16, offset: 23663},
+																	pos: position{line: 740, col: 16, offset: 23664},
 																	run: (*parser).callonDocumentHeader137,
 																	expr: &seqExpr{
-																		pos: position{line: 740, col: 16, offset: 23663},
+																		pos: position{line: 740, col: 16, offset: 23664},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 740, col: 16, offset: 23663},
+																				pos:        position{line: 740, col: 16, offset: 23664},
 																				val:        "////",
 																				ignoreCase: false,
 																				want:       "\"////\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 740, col: 23, offset: 23670},
+																				pos: position{line: 740, col: 23, offset: 23671},
 																				expr: &litMatcher{
-																					pos:        position{line: 740, col: 23, offset: 23670},
+																					pos:        position{line: 740, col: 23, offset: 23671},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -16595,12 +16595,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 742, col: 8, offset: 23754},
+																pos: position{line: 742, col: 8, offset: 23755},
 																expr: &actionExpr{
-																	pos: position{line: 2876, col: 10, offset: 90951},
+																	pos: position{line: 2876, col: 10, offset: 90952},
 																	run: (*parser).callonDocumentHeader143,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2876, col: 10, offset: 90951},
+																		pos:        position{line: 2876, col: 10, offset: 90952},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16609,28 +16609,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2898, col: 8, offset: 91349},
+																pos: position{line: 2898, col: 8, offset: 91350},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2885, col: 12, offset: 91122},
+																		pos: position{line: 2885, col: 12, offset: 91123},
 																		run: (*parser).callonDocumentHeader146,
 																		expr: &choiceExpr{
-																			pos: position{line: 2885, col: 13, offset: 91123},
+																			pos: position{line: 2885, col: 13, offset: 91124},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 13, offset: 91123},
+																					pos:        position{line: 2885, col: 13, offset: 91124},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 20, offset: 91130},
+																					pos:        position{line: 2885, col: 20, offset: 91131},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 29, offset: 91139},
+																					pos:        position{line: 2885, col: 29, offset: 91140},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -16639,9 +16639,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91299},
+																		pos: position{line: 2895, col: 8, offset: 91300},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91300,
+																			line: 2895, col: 9, offset: 91301,
 																		},
 																	},
 																},
@@ -16650,46 +16650,46 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 821, col: 5, offset: 26428},
+													pos:   position{line: 821, col: 5, offset: 26429},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 831, col: 5, offset: 26714},
+														pos: position{line: 831, col: 5, offset: 26715},
 														expr: &actionExpr{
-															pos: position{line: 831, col: 6, offset: 26715},
+															pos: position{line: 831, col: 6, offset: 26716},
 															run: (*parser).callonDocumentHeader155,
 															expr: &seqExpr{
-																pos: position{line: 831, col: 6, offset: 26715},
+																pos: position{line: 831, col: 6, offset: 26716},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 831, col: 6, offset: 26715},
+																		pos: position{line: 831, col: 6, offset: 26716},
 																		expr: &choiceExpr{
-																			pos: position{line: 828, col: 29, offset: 26657},
+																			pos: position{line: 828, col: 29, offset: 26658},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 740, col: 5, offset: 23652},
+																					pos: position{line: 740, col: 5, offset: 23653},
 																					run: (*parser).callonDocumentHeader159,
 																					expr: &seqExpr{
-																						pos: position{line: 740, col: 5, offset: 23652},
+																						pos: position{line: 740, col: 5, offset: 23653},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 740, col: 5, offset: 23652},
+																								pos:   position{line: 740, col: 5, offset: 23653},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 740, col: 16, offset: 23663},
+																									pos: position{line: 740, col: 16, offset: 23664},
 																									run: (*parser).callonDocumentHeader162,
 																									expr: &seqExpr{
-																										pos: position{line: 740, col: 16, offset: 23663},
+																										pos: position{line: 740, col: 16, offset: 23664},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 740, col: 16, offset: 23663},
+																												pos:        position{line: 740, col: 16, offset: 23664},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 740, col: 23, offset: 23670},
+																												pos: position{line: 740, col: 23, offset: 23671},
 																												expr: &litMatcher{
-																													pos:        position{line: 740, col: 23, offset: 23670},
+																													pos:        position{line: 740, col: 23, offset: 23671},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -16700,12 +16700,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 742, col: 8, offset: 23754},
+																								pos: position{line: 742, col: 8, offset: 23755},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 90951},
+																									pos: position{line: 2876, col: 10, offset: 90952},
 																									run: (*parser).callonDocumentHeader168,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 90951},
+																										pos:        position{line: 2876, col: 10, offset: 90952},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -16714,28 +16714,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2898, col: 8, offset: 91349},
+																								pos: position{line: 2898, col: 8, offset: 91350},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2885, col: 12, offset: 91122},
+																										pos: position{line: 2885, col: 12, offset: 91123},
 																										run: (*parser).callonDocumentHeader171,
 																										expr: &choiceExpr{
-																											pos: position{line: 2885, col: 13, offset: 91123},
+																											pos: position{line: 2885, col: 13, offset: 91124},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 13, offset: 91123},
+																													pos:        position{line: 2885, col: 13, offset: 91124},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 20, offset: 91130},
+																													pos:        position{line: 2885, col: 20, offset: 91131},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 29, offset: 91139},
+																													pos:        position{line: 2885, col: 29, offset: 91140},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -16744,9 +16744,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2895, col: 8, offset: 91299},
+																										pos: position{line: 2895, col: 8, offset: 91300},
 																										expr: &anyMatcher{
-																											line: 2895, col: 9, offset: 91300,
+																											line: 2895, col: 9, offset: 91301,
 																										},
 																									},
 																								},
@@ -16755,39 +16755,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91299},
+																					pos: position{line: 2895, col: 8, offset: 91300},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91300,
+																						line: 2895, col: 9, offset: 91301,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 832, col: 5, offset: 26745},
+																		pos:   position{line: 832, col: 5, offset: 26746},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26161},
+																			pos: position{line: 811, col: 5, offset: 26162},
 																			run: (*parser).callonDocumentHeader181,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26161},
+																				pos: position{line: 811, col: 5, offset: 26162},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2893, col: 11, offset: 91285},
+																						pos: position{line: 2893, col: 11, offset: 91286},
 																						expr: &anyMatcher{
-																							line: 2893, col: 13, offset: 91287,
+																							line: 2893, col: 13, offset: 91288,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26236},
+																						pos:   position{line: 812, col: 5, offset: 26237},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2822, col: 13, offset: 89477},
+																							pos: position{line: 2822, col: 13, offset: 89478},
 																							run: (*parser).callonDocumentHeader186,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2822, col: 13, offset: 89477},
+																								pos: position{line: 2822, col: 13, offset: 89478},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2822, col: 13, offset: 89477},
+																									pos:        position{line: 2822, col: 13, offset: 89478},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16797,28 +16797,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91349},
+																						pos: position{line: 2898, col: 8, offset: 91350},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91122},
+																								pos: position{line: 2885, col: 12, offset: 91123},
 																								run: (*parser).callonDocumentHeader190,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91123},
+																									pos: position{line: 2885, col: 13, offset: 91124},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91123},
+																											pos:        position{line: 2885, col: 13, offset: 91124},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91130},
+																											pos:        position{line: 2885, col: 20, offset: 91131},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91139},
+																											pos:        position{line: 2885, col: 29, offset: 91140},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16827,9 +16827,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91299},
+																								pos: position{line: 2895, col: 8, offset: 91300},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91300,
+																									line: 2895, col: 9, offset: 91301,
 																								},
 																							},
 																						},
@@ -16844,35 +16844,35 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 822, col: 5, offset: 26462},
+													pos: position{line: 822, col: 5, offset: 26463},
 													expr: &choiceExpr{
-														pos: position{line: 828, col: 29, offset: 26657},
+														pos: position{line: 828, col: 29, offset: 26658},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 740, col: 5, offset: 23652},
+																pos: position{line: 740, col: 5, offset: 23653},
 																run: (*parser).callonDocumentHeader199,
 																expr: &seqExpr{
-																	pos: position{line: 740, col: 5, offset: 23652},
+																	pos: position{line: 740, col: 5, offset: 23653},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 740, col: 5, offset: 23652},
+																			pos:   position{line: 740, col: 5, offset: 23653},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 740, col: 16, offset: 23663},
+																				pos: position{line: 740, col: 16, offset: 23664},
 																				run: (*parser).callonDocumentHeader202,
 																				expr: &seqExpr{
-																					pos: position{line: 740, col: 16, offset: 23663},
+																					pos: position{line: 740, col: 16, offset: 23664},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 740, col: 16, offset: 23663},
+																							pos:        position{line: 740, col: 16, offset: 23664},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 740, col: 23, offset: 23670},
+																							pos: position{line: 740, col: 23, offset: 23671},
 																							expr: &litMatcher{
-																								pos:        position{line: 740, col: 23, offset: 23670},
+																								pos:        position{line: 740, col: 23, offset: 23671},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -16883,12 +16883,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 742, col: 8, offset: 23754},
+																			pos: position{line: 742, col: 8, offset: 23755},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 90951},
+																				pos: position{line: 2876, col: 10, offset: 90952},
 																				run: (*parser).callonDocumentHeader208,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 90951},
+																					pos:        position{line: 2876, col: 10, offset: 90952},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -16897,28 +16897,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91349},
+																			pos: position{line: 2898, col: 8, offset: 91350},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91122},
+																					pos: position{line: 2885, col: 12, offset: 91123},
 																					run: (*parser).callonDocumentHeader211,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91123},
+																						pos: position{line: 2885, col: 13, offset: 91124},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91123},
+																								pos:        position{line: 2885, col: 13, offset: 91124},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91130},
+																								pos:        position{line: 2885, col: 20, offset: 91131},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91139},
+																								pos:        position{line: 2885, col: 29, offset: 91140},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -16927,9 +16927,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91299},
+																					pos: position{line: 2895, col: 8, offset: 91300},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91300,
+																						line: 2895, col: 9, offset: 91301,
 																					},
 																				},
 																			},
@@ -16938,9 +16938,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91299},
+																pos: position{line: 2895, col: 8, offset: 91300},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91300,
+																	line: 2895, col: 9, offset: 91301,
 																},
 															},
 														},
@@ -16953,41 +16953,41 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1107, col: 5, offset: 34100},
+							pos:   position{line: 1107, col: 5, offset: 34101},
 							label: "authorsAndRevision",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1107, col: 24, offset: 34119},
+								pos: position{line: 1107, col: 24, offset: 34120},
 								expr: &actionExpr{
-									pos: position{line: 1118, col: 5, offset: 34494},
+									pos: position{line: 1118, col: 5, offset: 34495},
 									run: (*parser).callonDocumentHeader222,
 									expr: &seqExpr{
-										pos: position{line: 1118, col: 5, offset: 34494},
+										pos: position{line: 1118, col: 5, offset: 34495},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1118, col: 5, offset: 34494},
+												pos: position{line: 1118, col: 5, offset: 34495},
 												expr: &litMatcher{
-													pos:        position{line: 1118, col: 6, offset: 34495},
+													pos:        position{line: 1118, col: 6, offset: 34496},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1119, col: 5, offset: 34503},
+												pos:   position{line: 1119, col: 5, offset: 34504},
 												label: "authors",
 												expr: &actionExpr{
-													pos: position{line: 1125, col: 20, offset: 34759},
+													pos: position{line: 1125, col: 20, offset: 34760},
 													run: (*parser).callonDocumentHeader227,
 													expr: &seqExpr{
-														pos: position{line: 1125, col: 20, offset: 34759},
+														pos: position{line: 1125, col: 20, offset: 34760},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 1125, col: 20, offset: 34759},
+																pos: position{line: 1125, col: 20, offset: 34760},
 																expr: &actionExpr{
-																	pos: position{line: 2876, col: 10, offset: 90951},
+																	pos: position{line: 2876, col: 10, offset: 90952},
 																	run: (*parser).callonDocumentHeader230,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2876, col: 10, offset: 90951},
+																		pos:        position{line: 2876, col: 10, offset: 90952},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16996,37 +16996,37 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 1125, col: 27, offset: 34766},
+																pos:   position{line: 1125, col: 27, offset: 34767},
 																label: "authors",
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 1125, col: 36, offset: 34775},
+																	pos: position{line: 1125, col: 36, offset: 34776},
 																	expr: &actionExpr{
-																		pos: position{line: 1130, col: 5, offset: 34888},
+																		pos: position{line: 1130, col: 5, offset: 34889},
 																		run: (*parser).callonDocumentHeader234,
 																		expr: &seqExpr{
-																			pos: position{line: 1130, col: 5, offset: 34888},
+																			pos: position{line: 1130, col: 5, offset: 34889},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1130, col: 5, offset: 34888},
+																					pos:   position{line: 1130, col: 5, offset: 34889},
 																					label: "fullName",
 																					expr: &zeroOrOneExpr{
-																						pos: position{line: 1130, col: 14, offset: 34897},
+																						pos: position{line: 1130, col: 14, offset: 34898},
 																						expr: &actionExpr{
-																							pos: position{line: 1141, col: 5, offset: 35277},
+																							pos: position{line: 1141, col: 5, offset: 35278},
 																							run: (*parser).callonDocumentHeader238,
 																							expr: &seqExpr{
-																								pos: position{line: 1141, col: 5, offset: 35277},
+																								pos: position{line: 1141, col: 5, offset: 35278},
 																								exprs: []interface{}{
 																									&labeledExpr{
-																										pos:   position{line: 1141, col: 5, offset: 35277},
+																										pos:   position{line: 1141, col: 5, offset: 35278},
 																										label: "part1",
 																										expr: &actionExpr{
-																											pos: position{line: 1141, col: 12, offset: 35284},
+																											pos: position{line: 1141, col: 12, offset: 35285},
 																											run: (*parser).callonDocumentHeader241,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1141, col: 12, offset: 35284},
+																												pos: position{line: 1141, col: 12, offset: 35285},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1141, col: 12, offset: 35284},
+																													pos:        position{line: 1141, col: 12, offset: 35285},
 																													val:        "[^<;\\r\\n ]",
 																													chars:      []rune{'<', ';', '\r', '\n', ' '},
 																													ignoreCase: false,
@@ -17036,12 +17036,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1144, col: 5, offset: 35364},
+																										pos: position{line: 1144, col: 5, offset: 35365},
 																										expr: &actionExpr{
-																											pos: position{line: 2876, col: 10, offset: 90951},
+																											pos: position{line: 2876, col: 10, offset: 90952},
 																											run: (*parser).callonDocumentHeader245,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2876, col: 10, offset: 90951},
+																												pos:        position{line: 2876, col: 10, offset: 90952},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17050,17 +17050,17 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1145, col: 5, offset: 35375},
+																										pos:   position{line: 1145, col: 5, offset: 35376},
 																										label: "part2",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 1145, col: 11, offset: 35381},
+																											pos: position{line: 1145, col: 11, offset: 35382},
 																											expr: &actionExpr{
-																												pos: position{line: 1145, col: 12, offset: 35382},
+																												pos: position{line: 1145, col: 12, offset: 35383},
 																												run: (*parser).callonDocumentHeader249,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1145, col: 12, offset: 35382},
+																													pos: position{line: 1145, col: 12, offset: 35383},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1145, col: 12, offset: 35382},
+																														pos:        position{line: 1145, col: 12, offset: 35383},
 																														val:        "[^<;\\r\\n ]",
 																														chars:      []rune{'<', ';', '\r', '\n', ' '},
 																														ignoreCase: false,
@@ -17071,12 +17071,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1148, col: 5, offset: 35463},
+																										pos: position{line: 1148, col: 5, offset: 35464},
 																										expr: &actionExpr{
-																											pos: position{line: 2876, col: 10, offset: 90951},
+																											pos: position{line: 2876, col: 10, offset: 90952},
 																											run: (*parser).callonDocumentHeader253,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2876, col: 10, offset: 90951},
+																												pos:        position{line: 2876, col: 10, offset: 90952},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17085,17 +17085,17 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1149, col: 5, offset: 35474},
+																										pos:   position{line: 1149, col: 5, offset: 35475},
 																										label: "part3",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 1149, col: 11, offset: 35480},
+																											pos: position{line: 1149, col: 11, offset: 35481},
 																											expr: &actionExpr{
-																												pos: position{line: 1149, col: 12, offset: 35481},
+																												pos: position{line: 1149, col: 12, offset: 35482},
 																												run: (*parser).callonDocumentHeader257,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1149, col: 12, offset: 35481},
+																													pos: position{line: 1149, col: 12, offset: 35482},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1149, col: 12, offset: 35481},
+																														pos:        position{line: 1149, col: 12, offset: 35482},
 																														val:        "[^<;\\r\\n]",
 																														chars:      []rune{'<', ';', '\r', '\n'},
 																														ignoreCase: false,
@@ -17106,12 +17106,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1152, col: 5, offset: 35560},
+																										pos: position{line: 1152, col: 5, offset: 35561},
 																										expr: &actionExpr{
-																											pos: position{line: 2876, col: 10, offset: 90951},
+																											pos: position{line: 2876, col: 10, offset: 90952},
 																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2876, col: 10, offset: 90951},
+																												pos:        position{line: 2876, col: 10, offset: 90952},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17125,38 +17125,38 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1130, col: 40, offset: 34923},
+																					pos:   position{line: 1130, col: 40, offset: 34924},
 																					label: "email",
 																					expr: &zeroOrOneExpr{
-																						pos: position{line: 1130, col: 46, offset: 34929},
+																						pos: position{line: 1130, col: 46, offset: 34930},
 																						expr: &actionExpr{
-																							pos: position{line: 1158, col: 5, offset: 35682},
+																							pos: position{line: 1158, col: 5, offset: 35683},
 																							run: (*parser).callonDocumentHeader265,
 																							expr: &seqExpr{
-																								pos: position{line: 1158, col: 5, offset: 35682},
+																								pos: position{line: 1158, col: 5, offset: 35683},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2893, col: 11, offset: 91285},
+																										pos: position{line: 2893, col: 11, offset: 91286},
 																										expr: &anyMatcher{
-																											line: 2893, col: 13, offset: 91287,
+																											line: 2893, col: 13, offset: 91288,
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1159, col: 5, offset: 35694},
+																										pos:        position{line: 1159, col: 5, offset: 35695},
 																										val:        "<",
 																										ignoreCase: false,
 																										want:       "\"<\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1160, col: 5, offset: 35703},
+																										pos:   position{line: 1160, col: 5, offset: 35704},
 																										label: "email",
 																										expr: &actionExpr{
-																											pos: position{line: 1160, col: 12, offset: 35710},
+																											pos: position{line: 1160, col: 12, offset: 35711},
 																											run: (*parser).callonDocumentHeader271,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1160, col: 13, offset: 35711},
+																												pos: position{line: 1160, col: 13, offset: 35712},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1160, col: 13, offset: 35711},
+																													pos:        position{line: 1160, col: 13, offset: 35712},
 																													val:        "[^>\\r\\n]",
 																													chars:      []rune{'>', '\r', '\n'},
 																													ignoreCase: false,
@@ -17166,7 +17166,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1163, col: 5, offset: 35771},
+																										pos:        position{line: 1163, col: 5, offset: 35772},
 																										val:        ">",
 																										ignoreCase: false,
 																										want:       "\">\"",
@@ -17177,12 +17177,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1130, col: 69, offset: 34952},
+																					pos: position{line: 1130, col: 69, offset: 34953},
 																					expr: &actionExpr{
-																						pos: position{line: 2876, col: 10, offset: 90951},
+																						pos: position{line: 2876, col: 10, offset: 90952},
 																						run: (*parser).callonDocumentHeader276,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2876, col: 10, offset: 90951},
+																							pos:        position{line: 2876, col: 10, offset: 90952},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17191,21 +17191,21 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrOneExpr{
-																					pos: position{line: 1130, col: 76, offset: 34959},
+																					pos: position{line: 1130, col: 76, offset: 34960},
 																					expr: &litMatcher{
-																						pos:        position{line: 1130, col: 76, offset: 34959},
+																						pos:        position{line: 1130, col: 76, offset: 34960},
 																						val:        ";",
 																						ignoreCase: false,
 																						want:       "\";\"",
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1130, col: 81, offset: 34964},
+																					pos: position{line: 1130, col: 81, offset: 34965},
 																					expr: &actionExpr{
-																						pos: position{line: 2876, col: 10, offset: 90951},
+																						pos: position{line: 2876, col: 10, offset: 90952},
 																						run: (*parser).callonDocumentHeader281,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2876, col: 10, offset: 90951},
+																							pos:        position{line: 2876, col: 10, offset: 90952},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17214,7 +17214,7 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1131, col: 5, offset: 34976},
+																					pos: position{line: 1131, col: 5, offset: 34977},
 																					run: (*parser).callonDocumentHeader283,
 																				},
 																			},
@@ -17223,28 +17223,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2898, col: 8, offset: 91349},
+																pos: position{line: 2898, col: 8, offset: 91350},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2885, col: 12, offset: 91122},
+																		pos: position{line: 2885, col: 12, offset: 91123},
 																		run: (*parser).callonDocumentHeader285,
 																		expr: &choiceExpr{
-																			pos: position{line: 2885, col: 13, offset: 91123},
+																			pos: position{line: 2885, col: 13, offset: 91124},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 13, offset: 91123},
+																					pos:        position{line: 2885, col: 13, offset: 91124},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 20, offset: 91130},
+																					pos:        position{line: 2885, col: 20, offset: 91131},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 29, offset: 91139},
+																					pos:        position{line: 2885, col: 29, offset: 91140},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17253,9 +17253,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91299},
+																		pos: position{line: 2895, col: 8, offset: 91300},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91300,
+																			line: 2895, col: 9, offset: 91301,
 																		},
 																	},
 																},
@@ -17265,41 +17265,41 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 1120, col: 5, offset: 34533},
+												pos: position{line: 1120, col: 5, offset: 34534},
 												expr: &choiceExpr{
-													pos: position{line: 1120, col: 6, offset: 34534},
+													pos: position{line: 1120, col: 6, offset: 34535},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2483, col: 22, offset: 79858},
+															pos: position{line: 2483, col: 22, offset: 79859},
 															run: (*parser).callonDocumentHeader294,
 															expr: &seqExpr{
-																pos: position{line: 2483, col: 22, offset: 79858},
+																pos: position{line: 2483, col: 22, offset: 79859},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2488, col: 31, offset: 80079},
+																		pos:        position{line: 2488, col: 31, offset: 80080},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2488, col: 36, offset: 80084},
+																		pos: position{line: 2488, col: 36, offset: 80085},
 																		expr: &litMatcher{
-																			pos:        position{line: 2488, col: 37, offset: 80085},
+																			pos:        position{line: 2488, col: 37, offset: 80086},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2483, col: 49, offset: 79885},
+																		pos:   position{line: 2483, col: 49, offset: 79886},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2822, col: 13, offset: 89477},
+																			pos: position{line: 2822, col: 13, offset: 89478},
 																			run: (*parser).callonDocumentHeader300,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2822, col: 13, offset: 89477},
+																				pos: position{line: 2822, col: 13, offset: 89478},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2822, col: 13, offset: 89477},
+																					pos:        position{line: 2822, col: 13, offset: 89478},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -17309,28 +17309,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91349},
+																		pos: position{line: 2898, col: 8, offset: 91350},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91122},
+																				pos: position{line: 2885, col: 12, offset: 91123},
 																				run: (*parser).callonDocumentHeader304,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91123},
+																					pos: position{line: 2885, col: 13, offset: 91124},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91123},
+																							pos:        position{line: 2885, col: 13, offset: 91124},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91130},
+																							pos:        position{line: 2885, col: 20, offset: 91131},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91139},
+																							pos:        position{line: 2885, col: 29, offset: 91140},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -17339,9 +17339,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91299},
+																				pos: position{line: 2895, col: 8, offset: 91300},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91300,
+																					line: 2895, col: 9, offset: 91301,
 																				},
 																			},
 																		},
@@ -17350,36 +17350,36 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 820, col: 5, offset: 26397},
+															pos: position{line: 820, col: 5, offset: 26398},
 															run: (*parser).callonDocumentHeader311,
 															expr: &seqExpr{
-																pos: position{line: 820, col: 5, offset: 26397},
+																pos: position{line: 820, col: 5, offset: 26398},
 																exprs: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 740, col: 5, offset: 23652},
+																		pos: position{line: 740, col: 5, offset: 23653},
 																		run: (*parser).callonDocumentHeader313,
 																		expr: &seqExpr{
-																			pos: position{line: 740, col: 5, offset: 23652},
+																			pos: position{line: 740, col: 5, offset: 23653},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 740, col: 5, offset: 23652},
+																					pos:   position{line: 740, col: 5, offset: 23653},
 																					label: "delimiter",
 																					expr: &actionExpr{
-																						pos: position{line: 740, col: 16, offset: 23663},
+																						pos: position{line: 740, col: 16, offset: 23664},
 																						run: (*parser).callonDocumentHeader316,
 																						expr: &seqExpr{
-																							pos: position{line: 740, col: 16, offset: 23663},
+																							pos: position{line: 740, col: 16, offset: 23664},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 740, col: 16, offset: 23663},
+																									pos:        position{line: 740, col: 16, offset: 23664},
 																									val:        "////",
 																									ignoreCase: false,
 																									want:       "\"////\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 740, col: 23, offset: 23670},
+																									pos: position{line: 740, col: 23, offset: 23671},
 																									expr: &litMatcher{
-																										pos:        position{line: 740, col: 23, offset: 23670},
+																										pos:        position{line: 740, col: 23, offset: 23671},
 																										val:        "/",
 																										ignoreCase: false,
 																										want:       "\"/\"",
@@ -17390,12 +17390,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 742, col: 8, offset: 23754},
+																					pos: position{line: 742, col: 8, offset: 23755},
 																					expr: &actionExpr{
-																						pos: position{line: 2876, col: 10, offset: 90951},
+																						pos: position{line: 2876, col: 10, offset: 90952},
 																						run: (*parser).callonDocumentHeader322,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2876, col: 10, offset: 90951},
+																							pos:        position{line: 2876, col: 10, offset: 90952},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17404,28 +17404,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2898, col: 8, offset: 91349},
+																					pos: position{line: 2898, col: 8, offset: 91350},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2885, col: 12, offset: 91122},
+																							pos: position{line: 2885, col: 12, offset: 91123},
 																							run: (*parser).callonDocumentHeader325,
 																							expr: &choiceExpr{
-																								pos: position{line: 2885, col: 13, offset: 91123},
+																								pos: position{line: 2885, col: 13, offset: 91124},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 13, offset: 91123},
+																										pos:        position{line: 2885, col: 13, offset: 91124},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 20, offset: 91130},
+																										pos:        position{line: 2885, col: 20, offset: 91131},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 29, offset: 91139},
+																										pos:        position{line: 2885, col: 29, offset: 91140},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -17434,9 +17434,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2895, col: 8, offset: 91299},
+																							pos: position{line: 2895, col: 8, offset: 91300},
 																							expr: &anyMatcher{
-																								line: 2895, col: 9, offset: 91300,
+																								line: 2895, col: 9, offset: 91301,
 																							},
 																						},
 																					},
@@ -17445,46 +17445,46 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 821, col: 5, offset: 26428},
+																		pos:   position{line: 821, col: 5, offset: 26429},
 																		label: "content",
 																		expr: &zeroOrMoreExpr{
-																			pos: position{line: 831, col: 5, offset: 26714},
+																			pos: position{line: 831, col: 5, offset: 26715},
 																			expr: &actionExpr{
-																				pos: position{line: 831, col: 6, offset: 26715},
+																				pos: position{line: 831, col: 6, offset: 26716},
 																				run: (*parser).callonDocumentHeader334,
 																				expr: &seqExpr{
-																					pos: position{line: 831, col: 6, offset: 26715},
+																					pos: position{line: 831, col: 6, offset: 26716},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 831, col: 6, offset: 26715},
+																							pos: position{line: 831, col: 6, offset: 26716},
 																							expr: &choiceExpr{
-																								pos: position{line: 828, col: 29, offset: 26657},
+																								pos: position{line: 828, col: 29, offset: 26658},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 740, col: 5, offset: 23652},
+																										pos: position{line: 740, col: 5, offset: 23653},
 																										run: (*parser).callonDocumentHeader338,
 																										expr: &seqExpr{
-																											pos: position{line: 740, col: 5, offset: 23652},
+																											pos: position{line: 740, col: 5, offset: 23653},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 740, col: 5, offset: 23652},
+																													pos:   position{line: 740, col: 5, offset: 23653},
 																													label: "delimiter",
 																													expr: &actionExpr{
-																														pos: position{line: 740, col: 16, offset: 23663},
+																														pos: position{line: 740, col: 16, offset: 23664},
 																														run: (*parser).callonDocumentHeader341,
 																														expr: &seqExpr{
-																															pos: position{line: 740, col: 16, offset: 23663},
+																															pos: position{line: 740, col: 16, offset: 23664},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 740, col: 16, offset: 23663},
+																																	pos:        position{line: 740, col: 16, offset: 23664},
 																																	val:        "////",
 																																	ignoreCase: false,
 																																	want:       "\"////\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 740, col: 23, offset: 23670},
+																																	pos: position{line: 740, col: 23, offset: 23671},
 																																	expr: &litMatcher{
-																																		pos:        position{line: 740, col: 23, offset: 23670},
+																																		pos:        position{line: 740, col: 23, offset: 23671},
 																																		val:        "/",
 																																		ignoreCase: false,
 																																		want:       "\"/\"",
@@ -17495,12 +17495,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 742, col: 8, offset: 23754},
+																													pos: position{line: 742, col: 8, offset: 23755},
 																													expr: &actionExpr{
-																														pos: position{line: 2876, col: 10, offset: 90951},
+																														pos: position{line: 2876, col: 10, offset: 90952},
 																														run: (*parser).callonDocumentHeader347,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2876, col: 10, offset: 90951},
+																															pos:        position{line: 2876, col: 10, offset: 90952},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -17509,28 +17509,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2898, col: 8, offset: 91349},
+																													pos: position{line: 2898, col: 8, offset: 91350},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2885, col: 12, offset: 91122},
+																															pos: position{line: 2885, col: 12, offset: 91123},
 																															run: (*parser).callonDocumentHeader350,
 																															expr: &choiceExpr{
-																																pos: position{line: 2885, col: 13, offset: 91123},
+																																pos: position{line: 2885, col: 13, offset: 91124},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2885, col: 13, offset: 91123},
+																																		pos:        position{line: 2885, col: 13, offset: 91124},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2885, col: 20, offset: 91130},
+																																		pos:        position{line: 2885, col: 20, offset: 91131},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2885, col: 29, offset: 91139},
+																																		pos:        position{line: 2885, col: 29, offset: 91140},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -17539,9 +17539,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2895, col: 8, offset: 91299},
+																															pos: position{line: 2895, col: 8, offset: 91300},
 																															expr: &anyMatcher{
-																																line: 2895, col: 9, offset: 91300,
+																																line: 2895, col: 9, offset: 91301,
 																															},
 																														},
 																													},
@@ -17550,39 +17550,39 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2895, col: 8, offset: 91299},
+																										pos: position{line: 2895, col: 8, offset: 91300},
 																										expr: &anyMatcher{
-																											line: 2895, col: 9, offset: 91300,
+																											line: 2895, col: 9, offset: 91301,
 																										},
 																									},
 																								},
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 832, col: 5, offset: 26745},
+																							pos:   position{line: 832, col: 5, offset: 26746},
 																							label: "line",
 																							expr: &actionExpr{
-																								pos: position{line: 811, col: 5, offset: 26161},
+																								pos: position{line: 811, col: 5, offset: 26162},
 																								run: (*parser).callonDocumentHeader360,
 																								expr: &seqExpr{
-																									pos: position{line: 811, col: 5, offset: 26161},
+																									pos: position{line: 811, col: 5, offset: 26162},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2893, col: 11, offset: 91285},
+																											pos: position{line: 2893, col: 11, offset: 91286},
 																											expr: &anyMatcher{
-																												line: 2893, col: 13, offset: 91287,
+																												line: 2893, col: 13, offset: 91288,
 																											},
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 812, col: 5, offset: 26236},
+																											pos:   position{line: 812, col: 5, offset: 26237},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2822, col: 13, offset: 89477},
+																												pos: position{line: 2822, col: 13, offset: 89478},
 																												run: (*parser).callonDocumentHeader365,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2822, col: 13, offset: 89477},
+																													pos: position{line: 2822, col: 13, offset: 89478},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2822, col: 13, offset: 89477},
+																														pos:        position{line: 2822, col: 13, offset: 89478},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -17592,28 +17592,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91349},
+																											pos: position{line: 2898, col: 8, offset: 91350},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91122},
+																													pos: position{line: 2885, col: 12, offset: 91123},
 																													run: (*parser).callonDocumentHeader369,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91123},
+																														pos: position{line: 2885, col: 13, offset: 91124},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91123},
+																																pos:        position{line: 2885, col: 13, offset: 91124},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91130},
+																																pos:        position{line: 2885, col: 20, offset: 91131},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91139},
+																																pos:        position{line: 2885, col: 29, offset: 91140},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17622,9 +17622,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91299},
+																													pos: position{line: 2895, col: 8, offset: 91300},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91300,
+																														line: 2895, col: 9, offset: 91301,
 																													},
 																												},
 																											},
@@ -17639,35 +17639,35 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrOneExpr{
-																		pos: position{line: 822, col: 5, offset: 26462},
+																		pos: position{line: 822, col: 5, offset: 26463},
 																		expr: &choiceExpr{
-																			pos: position{line: 828, col: 29, offset: 26657},
+																			pos: position{line: 828, col: 29, offset: 26658},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 740, col: 5, offset: 23652},
+																					pos: position{line: 740, col: 5, offset: 23653},
 																					run: (*parser).callonDocumentHeader378,
 																					expr: &seqExpr{
-																						pos: position{line: 740, col: 5, offset: 23652},
+																						pos: position{line: 740, col: 5, offset: 23653},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 740, col: 5, offset: 23652},
+																								pos:   position{line: 740, col: 5, offset: 23653},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 740, col: 16, offset: 23663},
+																									pos: position{line: 740, col: 16, offset: 23664},
 																									run: (*parser).callonDocumentHeader381,
 																									expr: &seqExpr{
-																										pos: position{line: 740, col: 16, offset: 23663},
+																										pos: position{line: 740, col: 16, offset: 23664},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 740, col: 16, offset: 23663},
+																												pos:        position{line: 740, col: 16, offset: 23664},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 740, col: 23, offset: 23670},
+																												pos: position{line: 740, col: 23, offset: 23671},
 																												expr: &litMatcher{
-																													pos:        position{line: 740, col: 23, offset: 23670},
+																													pos:        position{line: 740, col: 23, offset: 23671},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -17678,12 +17678,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 742, col: 8, offset: 23754},
+																								pos: position{line: 742, col: 8, offset: 23755},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 90951},
+																									pos: position{line: 2876, col: 10, offset: 90952},
 																									run: (*parser).callonDocumentHeader387,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 90951},
+																										pos:        position{line: 2876, col: 10, offset: 90952},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -17692,28 +17692,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2898, col: 8, offset: 91349},
+																								pos: position{line: 2898, col: 8, offset: 91350},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2885, col: 12, offset: 91122},
+																										pos: position{line: 2885, col: 12, offset: 91123},
 																										run: (*parser).callonDocumentHeader390,
 																										expr: &choiceExpr{
-																											pos: position{line: 2885, col: 13, offset: 91123},
+																											pos: position{line: 2885, col: 13, offset: 91124},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 13, offset: 91123},
+																													pos:        position{line: 2885, col: 13, offset: 91124},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 20, offset: 91130},
+																													pos:        position{line: 2885, col: 20, offset: 91131},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 29, offset: 91139},
+																													pos:        position{line: 2885, col: 29, offset: 91140},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -17722,9 +17722,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2895, col: 8, offset: 91299},
+																										pos: position{line: 2895, col: 8, offset: 91300},
 																										expr: &anyMatcher{
-																											line: 2895, col: 9, offset: 91300,
+																											line: 2895, col: 9, offset: 91301,
 																										},
 																									},
 																								},
@@ -17733,9 +17733,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91299},
+																					pos: position{line: 2895, col: 8, offset: 91300},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91300,
+																						line: 2895, col: 9, offset: 91301,
 																					},
 																				},
 																			},
@@ -17748,23 +17748,23 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1121, col: 5, offset: 34608},
+												pos:   position{line: 1121, col: 5, offset: 34609},
 												label: "revision",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 1121, col: 14, offset: 34617},
+													pos: position{line: 1121, col: 14, offset: 34618},
 													expr: &actionExpr{
-														pos: position{line: 1169, col: 21, offset: 35960},
+														pos: position{line: 1169, col: 21, offset: 35961},
 														run: (*parser).callonDocumentHeader401,
 														expr: &seqExpr{
-															pos: position{line: 1169, col: 21, offset: 35960},
+															pos: position{line: 1169, col: 21, offset: 35961},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1169, col: 21, offset: 35960},
+																	pos: position{line: 1169, col: 21, offset: 35961},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 90951},
+																		pos: position{line: 2876, col: 10, offset: 90952},
 																		run: (*parser).callonDocumentHeader404,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 90951},
+																			pos:        position{line: 2876, col: 10, offset: 90952},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -17773,55 +17773,55 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1169, col: 28, offset: 35967},
+																	pos: position{line: 1169, col: 28, offset: 35968},
 																	expr: &litMatcher{
-																		pos:        position{line: 1169, col: 29, offset: 35968},
+																		pos:        position{line: 1169, col: 29, offset: 35969},
 																		val:        ":",
 																		ignoreCase: false,
 																		want:       "\":\"",
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1169, col: 33, offset: 35972},
+																	pos:   position{line: 1169, col: 33, offset: 35973},
 																	label: "revision",
 																	expr: &choiceExpr{
-																		pos: position{line: 1170, col: 9, offset: 35991},
+																		pos: position{line: 1170, col: 9, offset: 35992},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1170, col: 10, offset: 35992},
+																				pos: position{line: 1170, col: 10, offset: 35993},
 																				run: (*parser).callonDocumentHeader410,
 																				expr: &seqExpr{
-																					pos: position{line: 1170, col: 10, offset: 35992},
+																					pos: position{line: 1170, col: 10, offset: 35993},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1170, col: 10, offset: 35992},
+																							pos:   position{line: 1170, col: 10, offset: 35993},
 																							label: "revnumber",
 																							expr: &choiceExpr{
-																								pos: position{line: 1179, col: 27, offset: 36509},
+																								pos: position{line: 1179, col: 27, offset: 36510},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1179, col: 27, offset: 36509},
+																										pos: position{line: 1179, col: 27, offset: 36510},
 																										run: (*parser).callonDocumentHeader414,
 																										expr: &seqExpr{
-																											pos: position{line: 1179, col: 27, offset: 36509},
+																											pos: position{line: 1179, col: 27, offset: 36510},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 1179, col: 27, offset: 36509},
+																													pos:        position{line: 1179, col: 27, offset: 36510},
 																													val:        "v",
 																													ignoreCase: true,
 																													want:       "\"v\"i",
 																												},
 																												&charClassMatcher{
-																													pos:        position{line: 1179, col: 32, offset: 36514},
+																													pos:        position{line: 1179, col: 32, offset: 36515},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&oneOrMoreExpr{
-																													pos: position{line: 1179, col: 38, offset: 36520},
+																													pos: position{line: 1179, col: 38, offset: 36521},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1179, col: 38, offset: 36520},
+																														pos:        position{line: 1179, col: 38, offset: 36521},
 																														val:        "[^:,\\r\\n]",
 																														chars:      []rune{':', ',', '\r', '\n'},
 																														ignoreCase: false,
@@ -17832,31 +17832,31 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1181, col: 5, offset: 36568},
+																										pos: position{line: 1181, col: 5, offset: 36569},
 																										run: (*parser).callonDocumentHeader420,
 																										expr: &seqExpr{
-																											pos: position{line: 1181, col: 5, offset: 36568},
+																											pos: position{line: 1181, col: 5, offset: 36569},
 																											exprs: []interface{}{
 																												&zeroOrOneExpr{
-																													pos: position{line: 1181, col: 5, offset: 36568},
+																													pos: position{line: 1181, col: 5, offset: 36569},
 																													expr: &litMatcher{
-																														pos:        position{line: 1181, col: 5, offset: 36568},
+																														pos:        position{line: 1181, col: 5, offset: 36569},
 																														val:        "v",
 																														ignoreCase: true,
 																														want:       "\"v\"i",
 																													},
 																												},
 																												&charClassMatcher{
-																													pos:        position{line: 1181, col: 11, offset: 36574},
+																													pos:        position{line: 1181, col: 11, offset: 36575},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&oneOrMoreExpr{
-																													pos: position{line: 1181, col: 17, offset: 36580},
+																													pos: position{line: 1181, col: 17, offset: 36581},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1181, col: 17, offset: 36580},
+																														pos:        position{line: 1181, col: 17, offset: 36581},
 																														val:        "[^:,\\r\\n]",
 																														chars:      []rune{':', ',', '\r', '\n'},
 																														ignoreCase: false,
@@ -17864,12 +17864,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 1181, col: 28, offset: 36591},
+																													pos: position{line: 1181, col: 28, offset: 36592},
 																													expr: &actionExpr{
-																														pos: position{line: 2876, col: 10, offset: 90951},
+																														pos: position{line: 2876, col: 10, offset: 90952},
 																														run: (*parser).callonDocumentHeader428,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2876, col: 10, offset: 90951},
+																															pos:        position{line: 2876, col: 10, offset: 90952},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -17878,9 +17878,9 @@ var g = &grammar{
 																													},
 																												},
 																												&andExpr{
-																													pos: position{line: 1181, col: 35, offset: 36598},
+																													pos: position{line: 1181, col: 35, offset: 36599},
 																													expr: &litMatcher{
-																														pos:        position{line: 1181, col: 36, offset: 36599},
+																														pos:        position{line: 1181, col: 36, offset: 36600},
 																														val:        ",",
 																														ignoreCase: false,
 																														want:       "\",\"",
@@ -17893,26 +17893,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1170, col: 45, offset: 36027},
+																							pos: position{line: 1170, col: 45, offset: 36028},
 																							expr: &litMatcher{
-																								pos:        position{line: 1170, col: 45, offset: 36027},
+																								pos:        position{line: 1170, col: 45, offset: 36028},
 																								val:        ",",
 																								ignoreCase: false,
 																								want:       "\",\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1170, col: 50, offset: 36032},
+																							pos:   position{line: 1170, col: 50, offset: 36033},
 																							label: "revdate",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1170, col: 58, offset: 36040},
+																								pos: position{line: 1170, col: 58, offset: 36041},
 																								expr: &actionExpr{
-																									pos: position{line: 1185, col: 25, offset: 36663},
+																									pos: position{line: 1185, col: 25, offset: 36664},
 																									run: (*parser).callonDocumentHeader436,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1185, col: 25, offset: 36663},
+																										pos: position{line: 1185, col: 25, offset: 36664},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1185, col: 25, offset: 36663},
+																											pos:        position{line: 1185, col: 25, offset: 36664},
 																											val:        "[^:\\r\\n]",
 																											chars:      []rune{':', '\r', '\n'},
 																											ignoreCase: false,
@@ -17923,26 +17923,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1170, col: 82, offset: 36064},
+																							pos: position{line: 1170, col: 82, offset: 36065},
 																							expr: &litMatcher{
-																								pos:        position{line: 1170, col: 82, offset: 36064},
+																								pos:        position{line: 1170, col: 82, offset: 36065},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1170, col: 87, offset: 36069},
+																							pos:   position{line: 1170, col: 87, offset: 36070},
 																							label: "revremark",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1170, col: 97, offset: 36079},
+																								pos: position{line: 1170, col: 97, offset: 36080},
 																								expr: &actionExpr{
-																									pos: position{line: 1189, col: 27, offset: 36735},
+																									pos: position{line: 1189, col: 27, offset: 36736},
 																									run: (*parser).callonDocumentHeader443,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1189, col: 27, offset: 36735},
+																										pos: position{line: 1189, col: 27, offset: 36736},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1189, col: 27, offset: 36735},
+																											pos:        position{line: 1189, col: 27, offset: 36736},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -17956,21 +17956,21 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1172, col: 15, offset: 36197},
+																				pos: position{line: 1172, col: 15, offset: 36198},
 																				run: (*parser).callonDocumentHeader446,
 																				expr: &seqExpr{
-																					pos: position{line: 1172, col: 15, offset: 36197},
+																					pos: position{line: 1172, col: 15, offset: 36198},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1172, col: 15, offset: 36197},
+																							pos:   position{line: 1172, col: 15, offset: 36198},
 																							label: "revdate",
 																							expr: &actionExpr{
-																								pos: position{line: 1185, col: 25, offset: 36663},
+																								pos: position{line: 1185, col: 25, offset: 36664},
 																								run: (*parser).callonDocumentHeader449,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1185, col: 25, offset: 36663},
+																									pos: position{line: 1185, col: 25, offset: 36664},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1185, col: 25, offset: 36663},
+																										pos:        position{line: 1185, col: 25, offset: 36664},
 																										val:        "[^:\\r\\n]",
 																										chars:      []rune{':', '\r', '\n'},
 																										ignoreCase: false,
@@ -17980,26 +17980,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1172, col: 46, offset: 36228},
+																							pos: position{line: 1172, col: 46, offset: 36229},
 																							expr: &litMatcher{
-																								pos:        position{line: 1172, col: 46, offset: 36228},
+																								pos:        position{line: 1172, col: 46, offset: 36229},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1172, col: 51, offset: 36233},
+																							pos:   position{line: 1172, col: 51, offset: 36234},
 																							label: "revremark",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1172, col: 61, offset: 36243},
+																								pos: position{line: 1172, col: 61, offset: 36244},
 																								expr: &actionExpr{
-																									pos: position{line: 1189, col: 27, offset: 36735},
+																									pos: position{line: 1189, col: 27, offset: 36736},
 																									run: (*parser).callonDocumentHeader456,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1189, col: 27, offset: 36735},
+																										pos: position{line: 1189, col: 27, offset: 36736},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1189, col: 27, offset: 36735},
+																											pos:        position{line: 1189, col: 27, offset: 36736},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -18016,28 +18016,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91349},
+																	pos: position{line: 2898, col: 8, offset: 91350},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91122},
+																			pos: position{line: 2885, col: 12, offset: 91123},
 																			run: (*parser).callonDocumentHeader460,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91123},
+																				pos: position{line: 2885, col: 13, offset: 91124},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91123},
+																						pos:        position{line: 2885, col: 13, offset: 91124},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91130},
+																						pos:        position{line: 2885, col: 20, offset: 91131},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91139},
+																						pos:        position{line: 2885, col: 29, offset: 91140},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18046,9 +18046,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91299},
+																			pos: position{line: 2895, col: 8, offset: 91300},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91300,
+																				line: 2895, col: 9, offset: 91301,
 																			},
 																		},
 																	},
@@ -18064,31 +18064,31 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1108, col: 5, offset: 34154},
+							pos:   position{line: 1108, col: 5, offset: 34155},
 							label: "extraElements",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1108, col: 19, offset: 34168},
+								pos: position{line: 1108, col: 19, offset: 34169},
 								expr: &choiceExpr{
-									pos: position{line: 1108, col: 20, offset: 34169},
+									pos: position{line: 1108, col: 20, offset: 34170},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 1108, col: 20, offset: 34169},
+											pos:  position{line: 1108, col: 20, offset: 34170},
 											name: "AttributeDeclaration",
 										},
 										&actionExpr{
-											pos: position{line: 360, col: 19, offset: 10910},
+											pos: position{line: 360, col: 19, offset: 10911},
 											run: (*parser).callonDocumentHeader471,
 											expr: &seqExpr{
-												pos: position{line: 360, col: 19, offset: 10910},
+												pos: position{line: 360, col: 19, offset: 10911},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 360, col: 19, offset: 10910},
+														pos:        position{line: 360, col: 19, offset: 10911},
 														val:        ":!",
 														ignoreCase: false,
 														want:       "\":!\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 360, col: 24, offset: 10915},
+														pos:   position{line: 360, col: 24, offset: 10916},
 														label: "name",
 														expr: &actionExpr{
 															pos: position{line: 318, col: 18, offset: 9729},
@@ -18108,8 +18108,8 @@ var g = &grammar{
 																		pos: position{line: 318, col: 28, offset: 9739},
 																		expr: &charClassMatcher{
 																			pos:        position{line: 318, col: 29, offset: 9740},
-																			val:        "[-\\pL\\pN]",
-																			chars:      []rune{'-'},
+																			val:        "[_-\\pL\\pN]",
+																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																			ignoreCase: false,
 																			inverted:   false,
@@ -18120,18 +18120,18 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 360, col: 45, offset: 10936},
+														pos:        position{line: 360, col: 45, offset: 10937},
 														val:        ":",
 														ignoreCase: false,
 														want:       "\":\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 360, col: 49, offset: 10940},
+														pos: position{line: 360, col: 49, offset: 10941},
 														expr: &actionExpr{
-															pos: position{line: 2876, col: 10, offset: 90951},
+															pos: position{line: 2876, col: 10, offset: 90952},
 															run: (*parser).callonDocumentHeader482,
 															expr: &charClassMatcher{
-																pos:        position{line: 2876, col: 10, offset: 90951},
+																pos:        position{line: 2876, col: 10, offset: 90952},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18140,28 +18140,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2898, col: 8, offset: 91349},
+														pos: position{line: 2898, col: 8, offset: 91350},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2885, col: 12, offset: 91122},
+																pos: position{line: 2885, col: 12, offset: 91123},
 																run: (*parser).callonDocumentHeader485,
 																expr: &choiceExpr{
-																	pos: position{line: 2885, col: 13, offset: 91123},
+																	pos: position{line: 2885, col: 13, offset: 91124},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 13, offset: 91123},
+																			pos:        position{line: 2885, col: 13, offset: 91124},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 20, offset: 91130},
+																			pos:        position{line: 2885, col: 20, offset: 91131},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 29, offset: 91139},
+																			pos:        position{line: 2885, col: 29, offset: 91140},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18170,9 +18170,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91299},
+																pos: position{line: 2895, col: 8, offset: 91300},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91300,
+																	line: 2895, col: 9, offset: 91301,
 																},
 															},
 														},
@@ -18181,19 +18181,19 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 362, col: 9, offset: 11031},
+											pos: position{line: 362, col: 9, offset: 11032},
 											run: (*parser).callonDocumentHeader492,
 											expr: &seqExpr{
-												pos: position{line: 362, col: 9, offset: 11031},
+												pos: position{line: 362, col: 9, offset: 11032},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 362, col: 9, offset: 11031},
+														pos:        position{line: 362, col: 9, offset: 11032},
 														val:        ":",
 														ignoreCase: false,
 														want:       "\":\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 362, col: 13, offset: 11035},
+														pos:   position{line: 362, col: 13, offset: 11036},
 														label: "name",
 														expr: &actionExpr{
 															pos: position{line: 318, col: 18, offset: 9729},
@@ -18213,8 +18213,8 @@ var g = &grammar{
 																		pos: position{line: 318, col: 28, offset: 9739},
 																		expr: &charClassMatcher{
 																			pos:        position{line: 318, col: 29, offset: 9740},
-																			val:        "[-\\pL\\pN]",
-																			chars:      []rune{'-'},
+																			val:        "[_-\\pL\\pN]",
+																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																			ignoreCase: false,
 																			inverted:   false,
@@ -18225,18 +18225,18 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 362, col: 34, offset: 11056},
+														pos:        position{line: 362, col: 34, offset: 11057},
 														val:        "!:",
 														ignoreCase: false,
 														want:       "\"!:\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 362, col: 39, offset: 11061},
+														pos: position{line: 362, col: 39, offset: 11062},
 														expr: &actionExpr{
-															pos: position{line: 2876, col: 10, offset: 90951},
+															pos: position{line: 2876, col: 10, offset: 90952},
 															run: (*parser).callonDocumentHeader503,
 															expr: &charClassMatcher{
-																pos:        position{line: 2876, col: 10, offset: 90951},
+																pos:        position{line: 2876, col: 10, offset: 90952},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18245,28 +18245,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2898, col: 8, offset: 91349},
+														pos: position{line: 2898, col: 8, offset: 91350},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2885, col: 12, offset: 91122},
+																pos: position{line: 2885, col: 12, offset: 91123},
 																run: (*parser).callonDocumentHeader506,
 																expr: &choiceExpr{
-																	pos: position{line: 2885, col: 13, offset: 91123},
+																	pos: position{line: 2885, col: 13, offset: 91124},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 13, offset: 91123},
+																			pos:        position{line: 2885, col: 13, offset: 91124},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 20, offset: 91130},
+																			pos:        position{line: 2885, col: 20, offset: 91131},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 29, offset: 91139},
+																			pos:        position{line: 2885, col: 29, offset: 91140},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18275,9 +18275,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91299},
+																pos: position{line: 2895, col: 8, offset: 91300},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91300,
+																	line: 2895, col: 9, offset: 91301,
 																},
 															},
 														},
@@ -18286,36 +18286,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2483, col: 22, offset: 79858},
+											pos: position{line: 2483, col: 22, offset: 79859},
 											run: (*parser).callonDocumentHeader513,
 											expr: &seqExpr{
-												pos: position{line: 2483, col: 22, offset: 79858},
+												pos: position{line: 2483, col: 22, offset: 79859},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2488, col: 31, offset: 80079},
+														pos:        position{line: 2488, col: 31, offset: 80080},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2488, col: 36, offset: 80084},
+														pos: position{line: 2488, col: 36, offset: 80085},
 														expr: &litMatcher{
-															pos:        position{line: 2488, col: 37, offset: 80085},
+															pos:        position{line: 2488, col: 37, offset: 80086},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2483, col: 49, offset: 79885},
+														pos:   position{line: 2483, col: 49, offset: 79886},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2822, col: 13, offset: 89477},
+															pos: position{line: 2822, col: 13, offset: 89478},
 															run: (*parser).callonDocumentHeader519,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2822, col: 13, offset: 89477},
+																pos: position{line: 2822, col: 13, offset: 89478},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2822, col: 13, offset: 89477},
+																	pos:        position{line: 2822, col: 13, offset: 89478},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -18325,28 +18325,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2898, col: 8, offset: 91349},
+														pos: position{line: 2898, col: 8, offset: 91350},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2885, col: 12, offset: 91122},
+																pos: position{line: 2885, col: 12, offset: 91123},
 																run: (*parser).callonDocumentHeader523,
 																expr: &choiceExpr{
-																	pos: position{line: 2885, col: 13, offset: 91123},
+																	pos: position{line: 2885, col: 13, offset: 91124},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 13, offset: 91123},
+																			pos:        position{line: 2885, col: 13, offset: 91124},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 20, offset: 91130},
+																			pos:        position{line: 2885, col: 20, offset: 91131},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 29, offset: 91139},
+																			pos:        position{line: 2885, col: 29, offset: 91140},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18355,9 +18355,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91299},
+																pos: position{line: 2895, col: 8, offset: 91300},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91300,
+																	line: 2895, col: 9, offset: 91301,
 																},
 															},
 														},
@@ -18366,36 +18366,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 820, col: 5, offset: 26397},
+											pos: position{line: 820, col: 5, offset: 26398},
 											run: (*parser).callonDocumentHeader530,
 											expr: &seqExpr{
-												pos: position{line: 820, col: 5, offset: 26397},
+												pos: position{line: 820, col: 5, offset: 26398},
 												exprs: []interface{}{
 													&actionExpr{
-														pos: position{line: 740, col: 5, offset: 23652},
+														pos: position{line: 740, col: 5, offset: 23653},
 														run: (*parser).callonDocumentHeader532,
 														expr: &seqExpr{
-															pos: position{line: 740, col: 5, offset: 23652},
+															pos: position{line: 740, col: 5, offset: 23653},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 740, col: 5, offset: 23652},
+																	pos:   position{line: 740, col: 5, offset: 23653},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 740, col: 16, offset: 23663},
+																		pos: position{line: 740, col: 16, offset: 23664},
 																		run: (*parser).callonDocumentHeader535,
 																		expr: &seqExpr{
-																			pos: position{line: 740, col: 16, offset: 23663},
+																			pos: position{line: 740, col: 16, offset: 23664},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 740, col: 16, offset: 23663},
+																					pos:        position{line: 740, col: 16, offset: 23664},
 																					val:        "////",
 																					ignoreCase: false,
 																					want:       "\"////\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 740, col: 23, offset: 23670},
+																					pos: position{line: 740, col: 23, offset: 23671},
 																					expr: &litMatcher{
-																						pos:        position{line: 740, col: 23, offset: 23670},
+																						pos:        position{line: 740, col: 23, offset: 23671},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
@@ -18406,12 +18406,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 742, col: 8, offset: 23754},
+																	pos: position{line: 742, col: 8, offset: 23755},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 90951},
+																		pos: position{line: 2876, col: 10, offset: 90952},
 																		run: (*parser).callonDocumentHeader541,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 90951},
+																			pos:        position{line: 2876, col: 10, offset: 90952},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18420,28 +18420,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91349},
+																	pos: position{line: 2898, col: 8, offset: 91350},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91122},
+																			pos: position{line: 2885, col: 12, offset: 91123},
 																			run: (*parser).callonDocumentHeader544,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91123},
+																				pos: position{line: 2885, col: 13, offset: 91124},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91123},
+																						pos:        position{line: 2885, col: 13, offset: 91124},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91130},
+																						pos:        position{line: 2885, col: 20, offset: 91131},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91139},
+																						pos:        position{line: 2885, col: 29, offset: 91140},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18450,9 +18450,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91299},
+																			pos: position{line: 2895, col: 8, offset: 91300},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91300,
+																				line: 2895, col: 9, offset: 91301,
 																			},
 																		},
 																	},
@@ -18461,46 +18461,46 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 821, col: 5, offset: 26428},
+														pos:   position{line: 821, col: 5, offset: 26429},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 831, col: 5, offset: 26714},
+															pos: position{line: 831, col: 5, offset: 26715},
 															expr: &actionExpr{
-																pos: position{line: 831, col: 6, offset: 26715},
+																pos: position{line: 831, col: 6, offset: 26716},
 																run: (*parser).callonDocumentHeader553,
 																expr: &seqExpr{
-																	pos: position{line: 831, col: 6, offset: 26715},
+																	pos: position{line: 831, col: 6, offset: 26716},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 831, col: 6, offset: 26715},
+																			pos: position{line: 831, col: 6, offset: 26716},
 																			expr: &choiceExpr{
-																				pos: position{line: 828, col: 29, offset: 26657},
+																				pos: position{line: 828, col: 29, offset: 26658},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 740, col: 5, offset: 23652},
+																						pos: position{line: 740, col: 5, offset: 23653},
 																						run: (*parser).callonDocumentHeader557,
 																						expr: &seqExpr{
-																							pos: position{line: 740, col: 5, offset: 23652},
+																							pos: position{line: 740, col: 5, offset: 23653},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 740, col: 5, offset: 23652},
+																									pos:   position{line: 740, col: 5, offset: 23653},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 740, col: 16, offset: 23663},
+																										pos: position{line: 740, col: 16, offset: 23664},
 																										run: (*parser).callonDocumentHeader560,
 																										expr: &seqExpr{
-																											pos: position{line: 740, col: 16, offset: 23663},
+																											pos: position{line: 740, col: 16, offset: 23664},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 740, col: 16, offset: 23663},
+																													pos:        position{line: 740, col: 16, offset: 23664},
 																													val:        "////",
 																													ignoreCase: false,
 																													want:       "\"////\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 740, col: 23, offset: 23670},
+																													pos: position{line: 740, col: 23, offset: 23671},
 																													expr: &litMatcher{
-																														pos:        position{line: 740, col: 23, offset: 23670},
+																														pos:        position{line: 740, col: 23, offset: 23671},
 																														val:        "/",
 																														ignoreCase: false,
 																														want:       "\"/\"",
@@ -18511,12 +18511,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 742, col: 8, offset: 23754},
+																									pos: position{line: 742, col: 8, offset: 23755},
 																									expr: &actionExpr{
-																										pos: position{line: 2876, col: 10, offset: 90951},
+																										pos: position{line: 2876, col: 10, offset: 90952},
 																										run: (*parser).callonDocumentHeader566,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2876, col: 10, offset: 90951},
+																											pos:        position{line: 2876, col: 10, offset: 90952},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -18525,28 +18525,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2898, col: 8, offset: 91349},
+																									pos: position{line: 2898, col: 8, offset: 91350},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2885, col: 12, offset: 91122},
+																											pos: position{line: 2885, col: 12, offset: 91123},
 																											run: (*parser).callonDocumentHeader569,
 																											expr: &choiceExpr{
-																												pos: position{line: 2885, col: 13, offset: 91123},
+																												pos: position{line: 2885, col: 13, offset: 91124},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 13, offset: 91123},
+																														pos:        position{line: 2885, col: 13, offset: 91124},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 20, offset: 91130},
+																														pos:        position{line: 2885, col: 20, offset: 91131},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 29, offset: 91139},
+																														pos:        position{line: 2885, col: 29, offset: 91140},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -18555,9 +18555,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2895, col: 8, offset: 91299},
+																											pos: position{line: 2895, col: 8, offset: 91300},
 																											expr: &anyMatcher{
-																												line: 2895, col: 9, offset: 91300,
+																												line: 2895, col: 9, offset: 91301,
 																											},
 																										},
 																									},
@@ -18566,39 +18566,39 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91299},
+																						pos: position{line: 2895, col: 8, offset: 91300},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91300,
+																							line: 2895, col: 9, offset: 91301,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 832, col: 5, offset: 26745},
+																			pos:   position{line: 832, col: 5, offset: 26746},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26161},
+																				pos: position{line: 811, col: 5, offset: 26162},
 																				run: (*parser).callonDocumentHeader579,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26161},
+																					pos: position{line: 811, col: 5, offset: 26162},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2893, col: 11, offset: 91285},
+																							pos: position{line: 2893, col: 11, offset: 91286},
 																							expr: &anyMatcher{
-																								line: 2893, col: 13, offset: 91287,
+																								line: 2893, col: 13, offset: 91288,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26236},
+																							pos:   position{line: 812, col: 5, offset: 26237},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2822, col: 13, offset: 89477},
+																								pos: position{line: 2822, col: 13, offset: 89478},
 																								run: (*parser).callonDocumentHeader584,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2822, col: 13, offset: 89477},
+																									pos: position{line: 2822, col: 13, offset: 89478},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2822, col: 13, offset: 89477},
+																										pos:        position{line: 2822, col: 13, offset: 89478},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -18608,28 +18608,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91349},
+																							pos: position{line: 2898, col: 8, offset: 91350},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91122},
+																									pos: position{line: 2885, col: 12, offset: 91123},
 																									run: (*parser).callonDocumentHeader588,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91123},
+																										pos: position{line: 2885, col: 13, offset: 91124},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91123},
+																												pos:        position{line: 2885, col: 13, offset: 91124},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91130},
+																												pos:        position{line: 2885, col: 20, offset: 91131},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91139},
+																												pos:        position{line: 2885, col: 29, offset: 91140},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -18638,9 +18638,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91299},
+																									pos: position{line: 2895, col: 8, offset: 91300},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91300,
+																										line: 2895, col: 9, offset: 91301,
 																									},
 																								},
 																							},
@@ -18655,35 +18655,35 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 822, col: 5, offset: 26462},
+														pos: position{line: 822, col: 5, offset: 26463},
 														expr: &choiceExpr{
-															pos: position{line: 828, col: 29, offset: 26657},
+															pos: position{line: 828, col: 29, offset: 26658},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 740, col: 5, offset: 23652},
+																	pos: position{line: 740, col: 5, offset: 23653},
 																	run: (*parser).callonDocumentHeader597,
 																	expr: &seqExpr{
-																		pos: position{line: 740, col: 5, offset: 23652},
+																		pos: position{line: 740, col: 5, offset: 23653},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 740, col: 5, offset: 23652},
+																				pos:   position{line: 740, col: 5, offset: 23653},
 																				label: "delimiter",
 																				expr: &actionExpr{
-																					pos: position{line: 740, col: 16, offset: 23663},
+																					pos: position{line: 740, col: 16, offset: 23664},
 																					run: (*parser).callonDocumentHeader600,
 																					expr: &seqExpr{
-																						pos: position{line: 740, col: 16, offset: 23663},
+																						pos: position{line: 740, col: 16, offset: 23664},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 740, col: 16, offset: 23663},
+																								pos:        position{line: 740, col: 16, offset: 23664},
 																								val:        "////",
 																								ignoreCase: false,
 																								want:       "\"////\"",
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 740, col: 23, offset: 23670},
+																								pos: position{line: 740, col: 23, offset: 23671},
 																								expr: &litMatcher{
-																									pos:        position{line: 740, col: 23, offset: 23670},
+																									pos:        position{line: 740, col: 23, offset: 23671},
 																									val:        "/",
 																									ignoreCase: false,
 																									want:       "\"/\"",
@@ -18694,12 +18694,12 @@ var g = &grammar{
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 742, col: 8, offset: 23754},
+																				pos: position{line: 742, col: 8, offset: 23755},
 																				expr: &actionExpr{
-																					pos: position{line: 2876, col: 10, offset: 90951},
+																					pos: position{line: 2876, col: 10, offset: 90952},
 																					run: (*parser).callonDocumentHeader606,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2876, col: 10, offset: 90951},
+																						pos:        position{line: 2876, col: 10, offset: 90952},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -18708,28 +18708,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2898, col: 8, offset: 91349},
+																				pos: position{line: 2898, col: 8, offset: 91350},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2885, col: 12, offset: 91122},
+																						pos: position{line: 2885, col: 12, offset: 91123},
 																						run: (*parser).callonDocumentHeader609,
 																						expr: &choiceExpr{
-																							pos: position{line: 2885, col: 13, offset: 91123},
+																							pos: position{line: 2885, col: 13, offset: 91124},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 13, offset: 91123},
+																									pos:        position{line: 2885, col: 13, offset: 91124},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 20, offset: 91130},
+																									pos:        position{line: 2885, col: 20, offset: 91131},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 29, offset: 91139},
+																									pos:        position{line: 2885, col: 29, offset: 91140},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -18738,9 +18738,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91299},
+																						pos: position{line: 2895, col: 8, offset: 91300},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91300,
+																							line: 2895, col: 9, offset: 91301,
 																						},
 																					},
 																				},
@@ -18749,9 +18749,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2895, col: 8, offset: 91299},
+																	pos: position{line: 2895, col: 8, offset: 91300},
 																	expr: &anyMatcher{
-																		line: 2895, col: 9, offset: 91300,
+																		line: 2895, col: 9, offset: 91301,
 																	},
 																},
 															},
@@ -18770,26 +18770,26 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentTitle",
-			pos:  position{line: 1112, col: 1, offset: 34366},
+			pos:  position{line: 1112, col: 1, offset: 34367},
 			expr: &actionExpr{
-				pos: position{line: 1113, col: 5, offset: 34388},
+				pos: position{line: 1113, col: 5, offset: 34389},
 				run: (*parser).callonDocumentTitle1,
 				expr: &seqExpr{
-					pos: position{line: 1113, col: 5, offset: 34388},
+					pos: position{line: 1113, col: 5, offset: 34389},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1113, col: 5, offset: 34388},
+							pos:        position{line: 1113, col: 5, offset: 34389},
 							val:        "=",
 							ignoreCase: false,
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2880, col: 11, offset: 91012},
+							pos: position{line: 2880, col: 11, offset: 91013},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2880, col: 11, offset: 91012},
+								pos: position{line: 2880, col: 11, offset: 91013},
 								expr: &charClassMatcher{
-									pos:        position{line: 2880, col: 11, offset: 91012},
+									pos:        position{line: 2880, col: 11, offset: 91013},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18798,36 +18798,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1113, col: 16, offset: 34399},
+							pos:   position{line: 1113, col: 16, offset: 34400},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1113, col: 23, offset: 34406},
+								pos:  position{line: 1113, col: 23, offset: 34407},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2898, col: 8, offset: 91349},
+							pos: position{line: 2898, col: 8, offset: 91350},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2885, col: 12, offset: 91122},
+									pos: position{line: 2885, col: 12, offset: 91123},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2885, col: 13, offset: 91123},
+										pos: position{line: 2885, col: 13, offset: 91124},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2885, col: 13, offset: 91123},
+												pos:        position{line: 2885, col: 13, offset: 91124},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 20, offset: 91130},
+												pos:        position{line: 2885, col: 20, offset: 91131},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 29, offset: 91139},
+												pos:        position{line: 2885, col: 29, offset: 91140},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -18836,9 +18836,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2895, col: 8, offset: 91299},
+									pos: position{line: 2895, col: 8, offset: 91300},
 									expr: &anyMatcher{
-										line: 2895, col: 9, offset: 91300,
+										line: 2895, col: 9, offset: 91301,
 									},
 								},
 							},
@@ -18849,23 +18849,23 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentAuthorFullName",
-			pos:  position{line: 1140, col: 1, offset: 35246},
+			pos:  position{line: 1140, col: 1, offset: 35247},
 			expr: &actionExpr{
-				pos: position{line: 1141, col: 5, offset: 35277},
+				pos: position{line: 1141, col: 5, offset: 35278},
 				run: (*parser).callonDocumentAuthorFullName1,
 				expr: &seqExpr{
-					pos: position{line: 1141, col: 5, offset: 35277},
+					pos: position{line: 1141, col: 5, offset: 35278},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1141, col: 5, offset: 35277},
+							pos:   position{line: 1141, col: 5, offset: 35278},
 							label: "part1",
 							expr: &actionExpr{
-								pos: position{line: 1141, col: 12, offset: 35284},
+								pos: position{line: 1141, col: 12, offset: 35285},
 								run: (*parser).callonDocumentAuthorFullName4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1141, col: 12, offset: 35284},
+									pos: position{line: 1141, col: 12, offset: 35285},
 									expr: &charClassMatcher{
-										pos:        position{line: 1141, col: 12, offset: 35284},
+										pos:        position{line: 1141, col: 12, offset: 35285},
 										val:        "[^<;\\r\\n ]",
 										chars:      []rune{'<', ';', '\r', '\n', ' '},
 										ignoreCase: false,
@@ -18875,12 +18875,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1144, col: 5, offset: 35364},
+							pos: position{line: 1144, col: 5, offset: 35365},
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 10, offset: 90951},
+								pos: position{line: 2876, col: 10, offset: 90952},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2876, col: 10, offset: 90951},
+									pos:        position{line: 2876, col: 10, offset: 90952},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18889,17 +18889,17 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1145, col: 5, offset: 35375},
+							pos:   position{line: 1145, col: 5, offset: 35376},
 							label: "part2",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1145, col: 11, offset: 35381},
+								pos: position{line: 1145, col: 11, offset: 35382},
 								expr: &actionExpr{
-									pos: position{line: 1145, col: 12, offset: 35382},
+									pos: position{line: 1145, col: 12, offset: 35383},
 									run: (*parser).callonDocumentAuthorFullName12,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1145, col: 12, offset: 35382},
+										pos: position{line: 1145, col: 12, offset: 35383},
 										expr: &charClassMatcher{
-											pos:        position{line: 1145, col: 12, offset: 35382},
+											pos:        position{line: 1145, col: 12, offset: 35383},
 											val:        "[^<;\\r\\n ]",
 											chars:      []rune{'<', ';', '\r', '\n', ' '},
 											ignoreCase: false,
@@ -18910,12 +18910,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1148, col: 5, offset: 35463},
+							pos: position{line: 1148, col: 5, offset: 35464},
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 10, offset: 90951},
+								pos: position{line: 2876, col: 10, offset: 90952},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2876, col: 10, offset: 90951},
+									pos:        position{line: 2876, col: 10, offset: 90952},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18924,17 +18924,17 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1149, col: 5, offset: 35474},
+							pos:   position{line: 1149, col: 5, offset: 35475},
 							label: "part3",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1149, col: 11, offset: 35480},
+								pos: position{line: 1149, col: 11, offset: 35481},
 								expr: &actionExpr{
-									pos: position{line: 1149, col: 12, offset: 35481},
+									pos: position{line: 1149, col: 12, offset: 35482},
 									run: (*parser).callonDocumentAuthorFullName20,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1149, col: 12, offset: 35481},
+										pos: position{line: 1149, col: 12, offset: 35482},
 										expr: &charClassMatcher{
-											pos:        position{line: 1149, col: 12, offset: 35481},
+											pos:        position{line: 1149, col: 12, offset: 35482},
 											val:        "[^<;\\r\\n]",
 											chars:      []rune{'<', ';', '\r', '\n'},
 											ignoreCase: false,
@@ -18945,12 +18945,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1152, col: 5, offset: 35560},
+							pos: position{line: 1152, col: 5, offset: 35561},
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 10, offset: 90951},
+								pos: position{line: 2876, col: 10, offset: 90952},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2876, col: 10, offset: 90951},
+									pos:        position{line: 2876, col: 10, offset: 90952},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18964,28 +18964,28 @@ var g = &grammar{
 		},
 		{
 			name: "InlineButton",
-			pos:  position{line: 1265, col: 1, offset: 39289},
+			pos:  position{line: 1265, col: 1, offset: 39290},
 			expr: &actionExpr{
-				pos: position{line: 1266, col: 5, offset: 39310},
+				pos: position{line: 1266, col: 5, offset: 39311},
 				run: (*parser).callonInlineButton1,
 				expr: &seqExpr{
-					pos: position{line: 1266, col: 5, offset: 39310},
+					pos: position{line: 1266, col: 5, offset: 39311},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1266, col: 5, offset: 39310},
+							pos: position{line: 1266, col: 5, offset: 39311},
 							run: (*parser).callonInlineButton3,
 						},
 						&litMatcher{
-							pos:        position{line: 1269, col: 5, offset: 39369},
+							pos:        position{line: 1269, col: 5, offset: 39370},
 							val:        "btn:",
 							ignoreCase: false,
 							want:       "\"btn:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1269, col: 12, offset: 39376},
+							pos:   position{line: 1269, col: 12, offset: 39377},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1269, col: 24, offset: 39388},
+								pos:  position{line: 1269, col: 24, offset: 39389},
 								name: "InlineAttributes",
 							},
 						},
@@ -18995,33 +18995,33 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMenu",
-			pos:  position{line: 1276, col: 1, offset: 39676},
+			pos:  position{line: 1276, col: 1, offset: 39677},
 			expr: &actionExpr{
-				pos: position{line: 1277, col: 5, offset: 39695},
+				pos: position{line: 1277, col: 5, offset: 39696},
 				run: (*parser).callonInlineMenu1,
 				expr: &seqExpr{
-					pos: position{line: 1277, col: 5, offset: 39695},
+					pos: position{line: 1277, col: 5, offset: 39696},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1277, col: 5, offset: 39695},
+							pos: position{line: 1277, col: 5, offset: 39696},
 							run: (*parser).callonInlineMenu3,
 						},
 						&litMatcher{
-							pos:        position{line: 1280, col: 5, offset: 39754},
+							pos:        position{line: 1280, col: 5, offset: 39755},
 							val:        "menu:",
 							ignoreCase: false,
 							want:       "\"menu:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1280, col: 13, offset: 39762},
+							pos:   position{line: 1280, col: 13, offset: 39763},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2861, col: 7, offset: 90603},
+								pos: position{line: 2861, col: 7, offset: 90604},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2861, col: 7, offset: 90603},
+									pos: position{line: 2861, col: 7, offset: 90604},
 									expr: &charClassMatcher{
-										pos:        position{line: 2861, col: 7, offset: 90603},
+										pos:        position{line: 2861, col: 7, offset: 90604},
 										val:        "[^[]<>,\\r\\n]",
 										chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 										ignoreCase: false,
@@ -19031,10 +19031,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1280, col: 21, offset: 39770},
+							pos:   position{line: 1280, col: 21, offset: 39771},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1280, col: 33, offset: 39782},
+								pos:  position{line: 1280, col: 33, offset: 39783},
 								name: "InlineAttributes",
 							},
 						},
@@ -19044,29 +19044,29 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTerm",
-			pos:  position{line: 1287, col: 1, offset: 40081},
+			pos:  position{line: 1287, col: 1, offset: 40082},
 			expr: &actionExpr{
-				pos: position{line: 1287, col: 14, offset: 40094},
+				pos: position{line: 1287, col: 14, offset: 40095},
 				run: (*parser).callonIndexTerm1,
 				expr: &seqExpr{
-					pos: position{line: 1287, col: 14, offset: 40094},
+					pos: position{line: 1287, col: 14, offset: 40095},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1287, col: 14, offset: 40094},
+							pos:        position{line: 1287, col: 14, offset: 40095},
 							val:        "((",
 							ignoreCase: false,
 							want:       "\"((\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1287, col: 19, offset: 40099},
+							pos:   position{line: 1287, col: 19, offset: 40100},
 							label: "term",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1287, col: 25, offset: 40105},
+								pos:  position{line: 1287, col: 25, offset: 40106},
 								name: "IndexTermContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1287, col: 43, offset: 40123},
+							pos:        position{line: 1287, col: 43, offset: 40124},
 							val:        "))",
 							ignoreCase: false,
 							want:       "\"))\"",
@@ -19077,25 +19077,25 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTermContent",
-			pos:  position{line: 1291, col: 1, offset: 40192},
+			pos:  position{line: 1291, col: 1, offset: 40193},
 			expr: &actionExpr{
-				pos: position{line: 1291, col: 21, offset: 40212},
+				pos: position{line: 1291, col: 21, offset: 40213},
 				run: (*parser).callonIndexTermContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 1291, col: 21, offset: 40212},
+					pos:   position{line: 1291, col: 21, offset: 40213},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 1291, col: 30, offset: 40221},
+						pos: position{line: 1291, col: 30, offset: 40222},
 						expr: &choiceExpr{
-							pos: position{line: 1291, col: 31, offset: 40222},
+							pos: position{line: 1291, col: 31, offset: 40223},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2770, col: 14, offset: 88120},
+									pos: position{line: 2770, col: 14, offset: 88121},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2770, col: 14, offset: 88120},
+										pos: position{line: 2770, col: 14, offset: 88121},
 										expr: &charClassMatcher{
-											pos:        position{line: 2770, col: 14, offset: 88120},
+											pos:        position{line: 2770, col: 14, offset: 88121},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -19104,14 +19104,14 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 1291, col: 43, offset: 40234},
+									pos:  position{line: 1291, col: 43, offset: 40235},
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2876, col: 10, offset: 90951},
+									pos: position{line: 2876, col: 10, offset: 90952},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2876, col: 10, offset: 90951},
+										pos:        position{line: 2876, col: 10, offset: 90952},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -19119,23 +19119,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2470, col: 5, offset: 79404},
+									pos: position{line: 2470, col: 5, offset: 79405},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2470, col: 5, offset: 79404},
+										pos: position{line: 2470, col: 5, offset: 79405},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2470, col: 5, offset: 79404},
+												pos: position{line: 2470, col: 5, offset: 79405},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2473, col: 5, offset: 79480},
+												pos:   position{line: 2473, col: 5, offset: 79481},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2474, col: 9, offset: 79498},
+													pos: position{line: 2474, col: 9, offset: 79499},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2474, col: 10, offset: 79499},
+														pos:        position{line: 2474, col: 10, offset: 79500},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -19147,27 +19147,27 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1198, col: 23, offset: 37045},
+									pos: position{line: 1198, col: 23, offset: 37046},
 									run: (*parser).callonIndexTermContent17,
 									expr: &seqExpr{
-										pos: position{line: 1198, col: 23, offset: 37045},
+										pos: position{line: 1198, col: 23, offset: 37046},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 1196, col: 32, offset: 37013},
+												pos:        position{line: 1196, col: 32, offset: 37014},
 												val:        "�",
 												ignoreCase: false,
 												want:       "\"�\"",
 											},
 											&labeledExpr{
-												pos:   position{line: 1198, col: 51, offset: 37073},
+												pos:   position{line: 1198, col: 51, offset: 37074},
 												label: "ref",
 												expr: &actionExpr{
-													pos: position{line: 1198, col: 56, offset: 37078},
+													pos: position{line: 1198, col: 56, offset: 37079},
 													run: (*parser).callonIndexTermContent21,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1198, col: 56, offset: 37078},
+														pos: position{line: 1198, col: 56, offset: 37079},
 														expr: &charClassMatcher{
-															pos:        position{line: 1198, col: 56, offset: 37078},
+															pos:        position{line: 1198, col: 56, offset: 37079},
 															val:        "[0-9]",
 															ranges:     []rune{'0', '9'},
 															ignoreCase: false,
@@ -19177,7 +19177,7 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 1196, col: 32, offset: 37013},
+												pos:        position{line: 1196, col: 32, offset: 37014},
 												val:        "�",
 												ignoreCase: false,
 												want:       "\"�\"",
@@ -19186,22 +19186,22 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1291, col: 104, offset: 40295},
+									pos: position{line: 1291, col: 104, offset: 40296},
 									run: (*parser).callonIndexTermContent25,
 									expr: &seqExpr{
-										pos: position{line: 1291, col: 105, offset: 40296},
+										pos: position{line: 1291, col: 105, offset: 40297},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1291, col: 105, offset: 40296},
+												pos: position{line: 1291, col: 105, offset: 40297},
 												expr: &litMatcher{
-													pos:        position{line: 1291, col: 106, offset: 40297},
+													pos:        position{line: 1291, col: 106, offset: 40298},
 													val:        "))",
 													ignoreCase: false,
 													want:       "\"))\"",
 												},
 											},
 											&anyMatcher{
-												line: 1291, col: 111, offset: 40302,
+												line: 1291, col: 111, offset: 40303,
 											},
 										},
 									},
@@ -19214,21 +19214,21 @@ var g = &grammar{
 		},
 		{
 			name: "ImageBlock",
-			pos:  position{line: 1311, col: 1, offset: 41011},
+			pos:  position{line: 1311, col: 1, offset: 41012},
 			expr: &actionExpr{
-				pos: position{line: 1312, col: 5, offset: 41030},
+				pos: position{line: 1312, col: 5, offset: 41031},
 				run: (*parser).callonImageBlock1,
 				expr: &seqExpr{
-					pos: position{line: 1312, col: 5, offset: 41030},
+					pos: position{line: 1312, col: 5, offset: 41031},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1312, col: 5, offset: 41030},
+							pos:   position{line: 1312, col: 5, offset: 41031},
 							label: "start",
 							expr: &actionExpr{
-								pos: position{line: 2901, col: 16, offset: 91473},
+								pos: position{line: 2901, col: 16, offset: 91474},
 								run: (*parser).callonImageBlock4,
 								expr: &litMatcher{
-									pos:        position{line: 2901, col: 16, offset: 91473},
+									pos:        position{line: 2901, col: 16, offset: 91474},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -19236,57 +19236,57 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1312, col: 25, offset: 41050},
+							pos:        position{line: 1312, col: 25, offset: 41051},
 							val:        "image::",
 							ignoreCase: false,
 							want:       "\"image::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1312, col: 35, offset: 41060},
+							pos:   position{line: 1312, col: 35, offset: 41061},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2834, col: 13, offset: 89710},
+								pos: position{line: 2834, col: 13, offset: 89711},
 								run: (*parser).callonImageBlock8,
 								expr: &seqExpr{
-									pos: position{line: 2834, col: 13, offset: 89710},
+									pos: position{line: 2834, col: 13, offset: 89711},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2834, col: 13, offset: 89710},
+											pos:   position{line: 2834, col: 13, offset: 89711},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2834, col: 20, offset: 89717},
+												pos: position{line: 2834, col: 20, offset: 89718},
 												expr: &actionExpr{
-													pos: position{line: 2842, col: 11, offset: 89956},
+													pos: position{line: 2842, col: 11, offset: 89957},
 													run: (*parser).callonImageBlock12,
 													expr: &choiceExpr{
-														pos: position{line: 2842, col: 12, offset: 89957},
+														pos: position{line: 2842, col: 12, offset: 89958},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2842, col: 12, offset: 89957},
+																pos:        position{line: 2842, col: 12, offset: 89958},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2842, col: 24, offset: 89969},
+																pos:        position{line: 2842, col: 24, offset: 89970},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2842, col: 37, offset: 89982},
+																pos:        position{line: 2842, col: 37, offset: 89983},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2842, col: 48, offset: 89993},
+																pos:        position{line: 2842, col: 48, offset: 89994},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2842, col: 59, offset: 90004},
+																pos:        position{line: 2842, col: 59, offset: 90005},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19297,38 +19297,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2834, col: 30, offset: 89727},
+											pos:   position{line: 2834, col: 30, offset: 89728},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2847, col: 5, offset: 90068},
+												pos: position{line: 2847, col: 5, offset: 90069},
 												run: (*parser).callonImageBlock20,
 												expr: &labeledExpr{
-													pos:   position{line: 2847, col: 5, offset: 90068},
+													pos:   position{line: 2847, col: 5, offset: 90069},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2847, col: 14, offset: 90077},
+														pos: position{line: 2847, col: 14, offset: 90078},
 														expr: &choiceExpr{
-															pos: position{line: 2848, col: 9, offset: 90087},
+															pos: position{line: 2848, col: 9, offset: 90088},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2848, col: 9, offset: 90087},
+																	pos: position{line: 2848, col: 9, offset: 90088},
 																	run: (*parser).callonImageBlock24,
 																	expr: &seqExpr{
-																		pos: position{line: 2848, col: 9, offset: 90087},
+																		pos: position{line: 2848, col: 9, offset: 90088},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2848, col: 9, offset: 90087},
+																				pos: position{line: 2848, col: 9, offset: 90088},
 																				expr: &litMatcher{
-																					pos:        position{line: 2848, col: 10, offset: 90088},
+																					pos:        position{line: 2848, col: 10, offset: 90089},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2849, col: 9, offset: 90116},
+																				pos: position{line: 2849, col: 9, offset: 90117},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2849, col: 10, offset: 90117},
+																					pos:        position{line: 2849, col: 10, offset: 90118},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19339,27 +19339,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2852, col: 11, offset: 90329},
+																	pos: position{line: 2852, col: 11, offset: 90330},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2852, col: 11, offset: 90329},
+																			pos:        position{line: 2852, col: 11, offset: 90330},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2852, col: 19, offset: 90337},
+																			pos: position{line: 2852, col: 19, offset: 90338},
 																			expr: &seqExpr{
-																				pos: position{line: 2852, col: 21, offset: 90339},
+																				pos: position{line: 2852, col: 21, offset: 90340},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2852, col: 21, offset: 90339},
+																						pos: position{line: 2852, col: 21, offset: 90340},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 90951},
+																							pos: position{line: 2876, col: 10, offset: 90952},
 																							run: (*parser).callonImageBlock35,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 90951},
+																								pos:        position{line: 2876, col: 10, offset: 90952},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19368,11 +19368,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2852, col: 28, offset: 90346},
+																						pos: position{line: 2852, col: 28, offset: 90347},
 																						expr: &notExpr{
-																							pos: position{line: 2895, col: 8, offset: 91299},
+																							pos: position{line: 2895, col: 8, offset: 91300},
 																							expr: &anyMatcher{
-																								line: 2895, col: 9, offset: 91300,
+																								line: 2895, col: 9, offset: 91301,
 																							},
 																						},
 																					},
@@ -19382,35 +19382,35 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 636, col: 5, offset: 20177},
+																	pos: position{line: 636, col: 5, offset: 20178},
 																	run: (*parser).callonImageBlock40,
 																	expr: &seqExpr{
-																		pos: position{line: 636, col: 5, offset: 20177},
+																		pos: position{line: 636, col: 5, offset: 20178},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 636, col: 5, offset: 20177},
+																				pos: position{line: 636, col: 5, offset: 20178},
 																				run: (*parser).callonImageBlock42,
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 639, col: 5, offset: 20249},
+																				pos:   position{line: 639, col: 5, offset: 20250},
 																				label: "element",
 																				expr: &choiceExpr{
-																					pos: position{line: 639, col: 14, offset: 20258},
+																					pos: position{line: 639, col: 14, offset: 20259},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 645, col: 5, offset: 20387},
+																							pos: position{line: 645, col: 5, offset: 20388},
 																							run: (*parser).callonImageBlock45,
 																							expr: &seqExpr{
-																								pos: position{line: 645, col: 5, offset: 20387},
+																								pos: position{line: 645, col: 5, offset: 20388},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 645, col: 5, offset: 20387},
+																										pos:        position{line: 645, col: 5, offset: 20388},
 																										val:        "\\{",
 																										ignoreCase: false,
 																										want:       "\"\\\\{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 645, col: 13, offset: 20395},
+																										pos:   position{line: 645, col: 13, offset: 20396},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9729},
@@ -19430,8 +19430,8 @@ var g = &grammar{
 																														pos: position{line: 318, col: 28, offset: 9739},
 																														expr: &charClassMatcher{
 																															pos:        position{line: 318, col: 29, offset: 9740},
-																															val:        "[-\\pL\\pN]",
-																															chars:      []rune{'-'},
+																															val:        "[_-\\pL\\pN]",
+																															chars:      []rune{'_', '-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																															ignoreCase: false,
 																															inverted:   false,
@@ -19442,7 +19442,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 645, col: 32, offset: 20414},
+																										pos:        position{line: 645, col: 32, offset: 20415},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -19451,19 +19451,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 652, col: 5, offset: 20655},
+																							pos: position{line: 652, col: 5, offset: 20656},
 																							run: (*parser).callonImageBlock55,
 																							expr: &seqExpr{
-																								pos: position{line: 652, col: 5, offset: 20655},
+																								pos: position{line: 652, col: 5, offset: 20656},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 652, col: 5, offset: 20655},
+																										pos:        position{line: 652, col: 5, offset: 20656},
 																										val:        "{",
 																										ignoreCase: false,
 																										want:       "\"{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 652, col: 9, offset: 20659},
+																										pos:   position{line: 652, col: 9, offset: 20660},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9729},
@@ -19483,8 +19483,8 @@ var g = &grammar{
 																														pos: position{line: 318, col: 28, offset: 9739},
 																														expr: &charClassMatcher{
 																															pos:        position{line: 318, col: 29, offset: 9740},
-																															val:        "[-\\pL\\pN]",
-																															chars:      []rune{'-'},
+																															val:        "[_-\\pL\\pN]",
+																															chars:      []rune{'_', '-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																															ignoreCase: false,
 																															inverted:   false,
@@ -19495,7 +19495,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 652, col: 28, offset: 20678},
+																										pos:        position{line: 652, col: 28, offset: 20679},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -19504,19 +19504,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 658, col: 25, offset: 20859},
+																							pos: position{line: 658, col: 25, offset: 20860},
 																							run: (*parser).callonImageBlock65,
 																							expr: &seqExpr{
-																								pos: position{line: 658, col: 25, offset: 20859},
+																								pos: position{line: 658, col: 25, offset: 20860},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 658, col: 25, offset: 20859},
+																										pos:        position{line: 658, col: 25, offset: 20860},
 																										val:        "{counter:",
 																										ignoreCase: false,
 																										want:       "\"{counter:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 658, col: 37, offset: 20871},
+																										pos:   position{line: 658, col: 37, offset: 20872},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9729},
@@ -19536,8 +19536,8 @@ var g = &grammar{
 																														pos: position{line: 318, col: 28, offset: 9739},
 																														expr: &charClassMatcher{
 																															pos:        position{line: 318, col: 29, offset: 9740},
-																															val:        "[-\\pL\\pN]",
-																															chars:      []rune{'-'},
+																															val:        "[_-\\pL\\pN]",
+																															chars:      []rune{'_', '-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																															ignoreCase: false,
 																															inverted:   false,
@@ -19548,33 +19548,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 658, col: 56, offset: 20890},
+																										pos:   position{line: 658, col: 56, offset: 20891},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 658, col: 62, offset: 20896},
+																											pos: position{line: 658, col: 62, offset: 20897},
 																											expr: &actionExpr{
-																												pos: position{line: 666, col: 17, offset: 21191},
+																												pos: position{line: 666, col: 17, offset: 21192},
 																												run: (*parser).callonImageBlock76,
 																												expr: &seqExpr{
-																													pos: position{line: 666, col: 17, offset: 21191},
+																													pos: position{line: 666, col: 17, offset: 21192},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 666, col: 17, offset: 21191},
+																															pos:        position{line: 666, col: 17, offset: 21192},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 666, col: 21, offset: 21195},
+																															pos:   position{line: 666, col: 21, offset: 21196},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 666, col: 28, offset: 21202},
+																																pos: position{line: 666, col: 28, offset: 21203},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 666, col: 28, offset: 21202},
+																																		pos: position{line: 666, col: 28, offset: 21203},
 																																		run: (*parser).callonImageBlock81,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 666, col: 28, offset: 21202},
+																																			pos:        position{line: 666, col: 28, offset: 21203},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -19582,12 +19582,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 668, col: 9, offset: 21256},
+																																		pos: position{line: 668, col: 9, offset: 21257},
 																																		run: (*parser).callonImageBlock83,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 668, col: 9, offset: 21256},
+																																			pos: position{line: 668, col: 9, offset: 21257},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 668, col: 9, offset: 21256},
+																																				pos:        position{line: 668, col: 9, offset: 21257},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -19604,7 +19604,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 658, col: 78, offset: 20912},
+																										pos:        position{line: 658, col: 78, offset: 20913},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -19613,19 +19613,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 662, col: 25, offset: 21030},
+																							pos: position{line: 662, col: 25, offset: 21031},
 																							run: (*parser).callonImageBlock87,
 																							expr: &seqExpr{
-																								pos: position{line: 662, col: 25, offset: 21030},
+																								pos: position{line: 662, col: 25, offset: 21031},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 662, col: 25, offset: 21030},
+																										pos:        position{line: 662, col: 25, offset: 21031},
 																										val:        "{counter2:",
 																										ignoreCase: false,
 																										want:       "\"{counter2:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 662, col: 38, offset: 21043},
+																										pos:   position{line: 662, col: 38, offset: 21044},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9729},
@@ -19645,8 +19645,8 @@ var g = &grammar{
 																														pos: position{line: 318, col: 28, offset: 9739},
 																														expr: &charClassMatcher{
 																															pos:        position{line: 318, col: 29, offset: 9740},
-																															val:        "[-\\pL\\pN]",
-																															chars:      []rune{'-'},
+																															val:        "[_-\\pL\\pN]",
+																															chars:      []rune{'_', '-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																															ignoreCase: false,
 																															inverted:   false,
@@ -19657,33 +19657,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 662, col: 57, offset: 21062},
+																										pos:   position{line: 662, col: 57, offset: 21063},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 662, col: 63, offset: 21068},
+																											pos: position{line: 662, col: 63, offset: 21069},
 																											expr: &actionExpr{
-																												pos: position{line: 666, col: 17, offset: 21191},
+																												pos: position{line: 666, col: 17, offset: 21192},
 																												run: (*parser).callonImageBlock98,
 																												expr: &seqExpr{
-																													pos: position{line: 666, col: 17, offset: 21191},
+																													pos: position{line: 666, col: 17, offset: 21192},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 666, col: 17, offset: 21191},
+																															pos:        position{line: 666, col: 17, offset: 21192},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 666, col: 21, offset: 21195},
+																															pos:   position{line: 666, col: 21, offset: 21196},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 666, col: 28, offset: 21202},
+																																pos: position{line: 666, col: 28, offset: 21203},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 666, col: 28, offset: 21202},
+																																		pos: position{line: 666, col: 28, offset: 21203},
 																																		run: (*parser).callonImageBlock103,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 666, col: 28, offset: 21202},
+																																			pos:        position{line: 666, col: 28, offset: 21203},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -19691,12 +19691,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 668, col: 9, offset: 21256},
+																																		pos: position{line: 668, col: 9, offset: 21257},
 																																		run: (*parser).callonImageBlock105,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 668, col: 9, offset: 21256},
+																																			pos: position{line: 668, col: 9, offset: 21257},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 668, col: 9, offset: 21256},
+																																				pos:        position{line: 668, col: 9, offset: 21257},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -19713,7 +19713,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 662, col: 79, offset: 21084},
+																										pos:        position{line: 662, col: 79, offset: 21085},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -19728,27 +19728,27 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1198, col: 23, offset: 37045},
+																	pos: position{line: 1198, col: 23, offset: 37046},
 																	run: (*parser).callonImageBlock109,
 																	expr: &seqExpr{
-																		pos: position{line: 1198, col: 23, offset: 37045},
+																		pos: position{line: 1198, col: 23, offset: 37046},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1196, col: 32, offset: 37013},
+																				pos:        position{line: 1196, col: 32, offset: 37014},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1198, col: 51, offset: 37073},
+																				pos:   position{line: 1198, col: 51, offset: 37074},
 																				label: "ref",
 																				expr: &actionExpr{
-																					pos: position{line: 1198, col: 56, offset: 37078},
+																					pos: position{line: 1198, col: 56, offset: 37079},
 																					run: (*parser).callonImageBlock113,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1198, col: 56, offset: 37078},
+																						pos: position{line: 1198, col: 56, offset: 37079},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 1198, col: 56, offset: 37078},
+																							pos:        position{line: 1198, col: 56, offset: 37079},
 																							val:        "[0-9]",
 																							ranges:     []rune{'0', '9'},
 																							ignoreCase: false,
@@ -19758,7 +19758,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1196, col: 32, offset: 37013},
+																				pos:        position{line: 1196, col: 32, offset: 37014},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
@@ -19767,10 +19767,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2855, col: 11, offset: 90466},
+																	pos: position{line: 2855, col: 11, offset: 90467},
 																	run: (*parser).callonImageBlock117,
 																	expr: &litMatcher{
-																		pos:        position{line: 2855, col: 11, offset: 90466},
+																		pos:        position{line: 2855, col: 11, offset: 90467},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -19787,20 +19787,20 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1312, col: 51, offset: 41076},
+							pos:   position{line: 1312, col: 51, offset: 41077},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1312, col: 63, offset: 41088},
+								pos:  position{line: 1312, col: 63, offset: 41089},
 								name: "InlineAttributes",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1312, col: 81, offset: 41106},
+							pos: position{line: 1312, col: 81, offset: 41107},
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 10, offset: 90951},
+								pos: position{line: 2876, col: 10, offset: 90952},
 								run: (*parser).callonImageBlock122,
 								expr: &charClassMatcher{
-									pos:        position{line: 2876, col: 10, offset: 90951},
+									pos:        position{line: 2876, col: 10, offset: 90952},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19809,13 +19809,13 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1312, col: 88, offset: 41113},
+							pos:   position{line: 1312, col: 88, offset: 41114},
 							label: "end",
 							expr: &actionExpr{
-								pos: position{line: 2901, col: 16, offset: 91473},
+								pos: position{line: 2901, col: 16, offset: 91474},
 								run: (*parser).callonImageBlock125,
 								expr: &litMatcher{
-									pos:        position{line: 2901, col: 16, offset: 91473},
+									pos:        position{line: 2901, col: 16, offset: 91474},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -19823,32 +19823,32 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1312, col: 106, offset: 41131},
+							pos: position{line: 1312, col: 106, offset: 41132},
 							run: (*parser).callonImageBlock127,
 						},
 						&choiceExpr{
-							pos: position{line: 2898, col: 8, offset: 91349},
+							pos: position{line: 2898, col: 8, offset: 91350},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2885, col: 12, offset: 91122},
+									pos: position{line: 2885, col: 12, offset: 91123},
 									run: (*parser).callonImageBlock129,
 									expr: &choiceExpr{
-										pos: position{line: 2885, col: 13, offset: 91123},
+										pos: position{line: 2885, col: 13, offset: 91124},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2885, col: 13, offset: 91123},
+												pos:        position{line: 2885, col: 13, offset: 91124},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 20, offset: 91130},
+												pos:        position{line: 2885, col: 20, offset: 91131},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 29, offset: 91139},
+												pos:        position{line: 2885, col: 29, offset: 91140},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19857,9 +19857,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2895, col: 8, offset: 91299},
+									pos: position{line: 2895, col: 8, offset: 91300},
 									expr: &anyMatcher{
-										line: 2895, col: 9, offset: 91300,
+										line: 2895, col: 9, offset: 91301,
 									},
 								},
 							},
@@ -19870,74 +19870,74 @@ var g = &grammar{
 		},
 		{
 			name: "InlineImage",
-			pos:  position{line: 1317, col: 1, offset: 41371},
+			pos:  position{line: 1317, col: 1, offset: 41372},
 			expr: &actionExpr{
-				pos: position{line: 1317, col: 16, offset: 41386},
+				pos: position{line: 1317, col: 16, offset: 41387},
 				run: (*parser).callonInlineImage1,
 				expr: &seqExpr{
-					pos: position{line: 1317, col: 16, offset: 41386},
+					pos: position{line: 1317, col: 16, offset: 41387},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1317, col: 16, offset: 41386},
+							pos:        position{line: 1317, col: 16, offset: 41387},
 							val:        "image:",
 							ignoreCase: false,
 							want:       "\"image:\"",
 						},
 						&notExpr{
-							pos: position{line: 1317, col: 25, offset: 41395},
+							pos: position{line: 1317, col: 25, offset: 41396},
 							expr: &litMatcher{
-								pos:        position{line: 1317, col: 26, offset: 41396},
+								pos:        position{line: 1317, col: 26, offset: 41397},
 								val:        ":",
 								ignoreCase: false,
 								want:       "\":\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1317, col: 30, offset: 41400},
+							pos:   position{line: 1317, col: 30, offset: 41401},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2834, col: 13, offset: 89710},
+								pos: position{line: 2834, col: 13, offset: 89711},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2834, col: 13, offset: 89710},
+									pos: position{line: 2834, col: 13, offset: 89711},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2834, col: 13, offset: 89710},
+											pos:   position{line: 2834, col: 13, offset: 89711},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2834, col: 20, offset: 89717},
+												pos: position{line: 2834, col: 20, offset: 89718},
 												expr: &actionExpr{
-													pos: position{line: 2842, col: 11, offset: 89956},
+													pos: position{line: 2842, col: 11, offset: 89957},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2842, col: 12, offset: 89957},
+														pos: position{line: 2842, col: 12, offset: 89958},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2842, col: 12, offset: 89957},
+																pos:        position{line: 2842, col: 12, offset: 89958},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2842, col: 24, offset: 89969},
+																pos:        position{line: 2842, col: 24, offset: 89970},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2842, col: 37, offset: 89982},
+																pos:        position{line: 2842, col: 37, offset: 89983},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2842, col: 48, offset: 89993},
+																pos:        position{line: 2842, col: 48, offset: 89994},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2842, col: 59, offset: 90004},
+																pos:        position{line: 2842, col: 59, offset: 90005},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19948,38 +19948,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2834, col: 30, offset: 89727},
+											pos:   position{line: 2834, col: 30, offset: 89728},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2847, col: 5, offset: 90068},
+												pos: position{line: 2847, col: 5, offset: 90069},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2847, col: 5, offset: 90068},
+													pos:   position{line: 2847, col: 5, offset: 90069},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2847, col: 14, offset: 90077},
+														pos: position{line: 2847, col: 14, offset: 90078},
 														expr: &choiceExpr{
-															pos: position{line: 2848, col: 9, offset: 90087},
+															pos: position{line: 2848, col: 9, offset: 90088},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2848, col: 9, offset: 90087},
+																	pos: position{line: 2848, col: 9, offset: 90088},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2848, col: 9, offset: 90087},
+																		pos: position{line: 2848, col: 9, offset: 90088},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2848, col: 9, offset: 90087},
+																				pos: position{line: 2848, col: 9, offset: 90088},
 																				expr: &litMatcher{
-																					pos:        position{line: 2848, col: 10, offset: 90088},
+																					pos:        position{line: 2848, col: 10, offset: 90089},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2849, col: 9, offset: 90116},
+																				pos: position{line: 2849, col: 9, offset: 90117},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2849, col: 10, offset: 90117},
+																					pos:        position{line: 2849, col: 10, offset: 90118},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19990,27 +19990,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2852, col: 11, offset: 90329},
+																	pos: position{line: 2852, col: 11, offset: 90330},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2852, col: 11, offset: 90329},
+																			pos:        position{line: 2852, col: 11, offset: 90330},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2852, col: 19, offset: 90337},
+																			pos: position{line: 2852, col: 19, offset: 90338},
 																			expr: &seqExpr{
-																				pos: position{line: 2852, col: 21, offset: 90339},
+																				pos: position{line: 2852, col: 21, offset: 90340},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2852, col: 21, offset: 90339},
+																						pos: position{line: 2852, col: 21, offset: 90340},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 90951},
+																							pos: position{line: 2876, col: 10, offset: 90952},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 90951},
+																								pos:        position{line: 2876, col: 10, offset: 90952},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20019,11 +20019,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2852, col: 28, offset: 90346},
+																						pos: position{line: 2852, col: 28, offset: 90347},
 																						expr: &notExpr{
-																							pos: position{line: 2895, col: 8, offset: 91299},
+																							pos: position{line: 2895, col: 8, offset: 91300},
 																							expr: &anyMatcher{
-																								line: 2895, col: 9, offset: 91300,
+																								line: 2895, col: 9, offset: 91301,
 																							},
 																						},
 																					},
@@ -20033,35 +20033,35 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 636, col: 5, offset: 20177},
+																	pos: position{line: 636, col: 5, offset: 20178},
 																	run: (*parser).callonInlineImage39,
 																	expr: &seqExpr{
-																		pos: position{line: 636, col: 5, offset: 20177},
+																		pos: position{line: 636, col: 5, offset: 20178},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 636, col: 5, offset: 20177},
+																				pos: position{line: 636, col: 5, offset: 20178},
 																				run: (*parser).callonInlineImage41,
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 639, col: 5, offset: 20249},
+																				pos:   position{line: 639, col: 5, offset: 20250},
 																				label: "element",
 																				expr: &choiceExpr{
-																					pos: position{line: 639, col: 14, offset: 20258},
+																					pos: position{line: 639, col: 14, offset: 20259},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 645, col: 5, offset: 20387},
+																							pos: position{line: 645, col: 5, offset: 20388},
 																							run: (*parser).callonInlineImage44,
 																							expr: &seqExpr{
-																								pos: position{line: 645, col: 5, offset: 20387},
+																								pos: position{line: 645, col: 5, offset: 20388},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 645, col: 5, offset: 20387},
+																										pos:        position{line: 645, col: 5, offset: 20388},
 																										val:        "\\{",
 																										ignoreCase: false,
 																										want:       "\"\\\\{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 645, col: 13, offset: 20395},
+																										pos:   position{line: 645, col: 13, offset: 20396},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9729},
@@ -20081,8 +20081,8 @@ var g = &grammar{
 																														pos: position{line: 318, col: 28, offset: 9739},
 																														expr: &charClassMatcher{
 																															pos:        position{line: 318, col: 29, offset: 9740},
-																															val:        "[-\\pL\\pN]",
-																															chars:      []rune{'-'},
+																															val:        "[_-\\pL\\pN]",
+																															chars:      []rune{'_', '-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																															ignoreCase: false,
 																															inverted:   false,
@@ -20093,7 +20093,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 645, col: 32, offset: 20414},
+																										pos:        position{line: 645, col: 32, offset: 20415},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20102,19 +20102,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 652, col: 5, offset: 20655},
+																							pos: position{line: 652, col: 5, offset: 20656},
 																							run: (*parser).callonInlineImage54,
 																							expr: &seqExpr{
-																								pos: position{line: 652, col: 5, offset: 20655},
+																								pos: position{line: 652, col: 5, offset: 20656},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 652, col: 5, offset: 20655},
+																										pos:        position{line: 652, col: 5, offset: 20656},
 																										val:        "{",
 																										ignoreCase: false,
 																										want:       "\"{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 652, col: 9, offset: 20659},
+																										pos:   position{line: 652, col: 9, offset: 20660},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9729},
@@ -20134,8 +20134,8 @@ var g = &grammar{
 																														pos: position{line: 318, col: 28, offset: 9739},
 																														expr: &charClassMatcher{
 																															pos:        position{line: 318, col: 29, offset: 9740},
-																															val:        "[-\\pL\\pN]",
-																															chars:      []rune{'-'},
+																															val:        "[_-\\pL\\pN]",
+																															chars:      []rune{'_', '-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																															ignoreCase: false,
 																															inverted:   false,
@@ -20146,7 +20146,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 652, col: 28, offset: 20678},
+																										pos:        position{line: 652, col: 28, offset: 20679},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20155,19 +20155,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 658, col: 25, offset: 20859},
+																							pos: position{line: 658, col: 25, offset: 20860},
 																							run: (*parser).callonInlineImage64,
 																							expr: &seqExpr{
-																								pos: position{line: 658, col: 25, offset: 20859},
+																								pos: position{line: 658, col: 25, offset: 20860},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 658, col: 25, offset: 20859},
+																										pos:        position{line: 658, col: 25, offset: 20860},
 																										val:        "{counter:",
 																										ignoreCase: false,
 																										want:       "\"{counter:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 658, col: 37, offset: 20871},
+																										pos:   position{line: 658, col: 37, offset: 20872},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9729},
@@ -20187,8 +20187,8 @@ var g = &grammar{
 																														pos: position{line: 318, col: 28, offset: 9739},
 																														expr: &charClassMatcher{
 																															pos:        position{line: 318, col: 29, offset: 9740},
-																															val:        "[-\\pL\\pN]",
-																															chars:      []rune{'-'},
+																															val:        "[_-\\pL\\pN]",
+																															chars:      []rune{'_', '-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																															ignoreCase: false,
 																															inverted:   false,
@@ -20199,33 +20199,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 658, col: 56, offset: 20890},
+																										pos:   position{line: 658, col: 56, offset: 20891},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 658, col: 62, offset: 20896},
+																											pos: position{line: 658, col: 62, offset: 20897},
 																											expr: &actionExpr{
-																												pos: position{line: 666, col: 17, offset: 21191},
+																												pos: position{line: 666, col: 17, offset: 21192},
 																												run: (*parser).callonInlineImage75,
 																												expr: &seqExpr{
-																													pos: position{line: 666, col: 17, offset: 21191},
+																													pos: position{line: 666, col: 17, offset: 21192},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 666, col: 17, offset: 21191},
+																															pos:        position{line: 666, col: 17, offset: 21192},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 666, col: 21, offset: 21195},
+																															pos:   position{line: 666, col: 21, offset: 21196},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 666, col: 28, offset: 21202},
+																																pos: position{line: 666, col: 28, offset: 21203},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 666, col: 28, offset: 21202},
+																																		pos: position{line: 666, col: 28, offset: 21203},
 																																		run: (*parser).callonInlineImage80,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 666, col: 28, offset: 21202},
+																																			pos:        position{line: 666, col: 28, offset: 21203},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -20233,12 +20233,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 668, col: 9, offset: 21256},
+																																		pos: position{line: 668, col: 9, offset: 21257},
 																																		run: (*parser).callonInlineImage82,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 668, col: 9, offset: 21256},
+																																			pos: position{line: 668, col: 9, offset: 21257},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 668, col: 9, offset: 21256},
+																																				pos:        position{line: 668, col: 9, offset: 21257},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20255,7 +20255,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 658, col: 78, offset: 20912},
+																										pos:        position{line: 658, col: 78, offset: 20913},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20264,19 +20264,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 662, col: 25, offset: 21030},
+																							pos: position{line: 662, col: 25, offset: 21031},
 																							run: (*parser).callonInlineImage86,
 																							expr: &seqExpr{
-																								pos: position{line: 662, col: 25, offset: 21030},
+																								pos: position{line: 662, col: 25, offset: 21031},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 662, col: 25, offset: 21030},
+																										pos:        position{line: 662, col: 25, offset: 21031},
 																										val:        "{counter2:",
 																										ignoreCase: false,
 																										want:       "\"{counter2:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 662, col: 38, offset: 21043},
+																										pos:   position{line: 662, col: 38, offset: 21044},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9729},
@@ -20296,8 +20296,8 @@ var g = &grammar{
 																														pos: position{line: 318, col: 28, offset: 9739},
 																														expr: &charClassMatcher{
 																															pos:        position{line: 318, col: 29, offset: 9740},
-																															val:        "[-\\pL\\pN]",
-																															chars:      []rune{'-'},
+																															val:        "[_-\\pL\\pN]",
+																															chars:      []rune{'_', '-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																															ignoreCase: false,
 																															inverted:   false,
@@ -20308,33 +20308,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 662, col: 57, offset: 21062},
+																										pos:   position{line: 662, col: 57, offset: 21063},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 662, col: 63, offset: 21068},
+																											pos: position{line: 662, col: 63, offset: 21069},
 																											expr: &actionExpr{
-																												pos: position{line: 666, col: 17, offset: 21191},
+																												pos: position{line: 666, col: 17, offset: 21192},
 																												run: (*parser).callonInlineImage97,
 																												expr: &seqExpr{
-																													pos: position{line: 666, col: 17, offset: 21191},
+																													pos: position{line: 666, col: 17, offset: 21192},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 666, col: 17, offset: 21191},
+																															pos:        position{line: 666, col: 17, offset: 21192},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 666, col: 21, offset: 21195},
+																															pos:   position{line: 666, col: 21, offset: 21196},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 666, col: 28, offset: 21202},
+																																pos: position{line: 666, col: 28, offset: 21203},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 666, col: 28, offset: 21202},
+																																		pos: position{line: 666, col: 28, offset: 21203},
 																																		run: (*parser).callonInlineImage102,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 666, col: 28, offset: 21202},
+																																			pos:        position{line: 666, col: 28, offset: 21203},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -20342,12 +20342,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 668, col: 9, offset: 21256},
+																																		pos: position{line: 668, col: 9, offset: 21257},
 																																		run: (*parser).callonInlineImage104,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 668, col: 9, offset: 21256},
+																																			pos: position{line: 668, col: 9, offset: 21257},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 668, col: 9, offset: 21256},
+																																				pos:        position{line: 668, col: 9, offset: 21257},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20364,7 +20364,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 662, col: 79, offset: 21084},
+																										pos:        position{line: 662, col: 79, offset: 21085},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20379,27 +20379,27 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1198, col: 23, offset: 37045},
+																	pos: position{line: 1198, col: 23, offset: 37046},
 																	run: (*parser).callonInlineImage108,
 																	expr: &seqExpr{
-																		pos: position{line: 1198, col: 23, offset: 37045},
+																		pos: position{line: 1198, col: 23, offset: 37046},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1196, col: 32, offset: 37013},
+																				pos:        position{line: 1196, col: 32, offset: 37014},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1198, col: 51, offset: 37073},
+																				pos:   position{line: 1198, col: 51, offset: 37074},
 																				label: "ref",
 																				expr: &actionExpr{
-																					pos: position{line: 1198, col: 56, offset: 37078},
+																					pos: position{line: 1198, col: 56, offset: 37079},
 																					run: (*parser).callonInlineImage112,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1198, col: 56, offset: 37078},
+																						pos: position{line: 1198, col: 56, offset: 37079},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 1198, col: 56, offset: 37078},
+																							pos:        position{line: 1198, col: 56, offset: 37079},
 																							val:        "[0-9]",
 																							ranges:     []rune{'0', '9'},
 																							ignoreCase: false,
@@ -20409,7 +20409,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1196, col: 32, offset: 37013},
+																				pos:        position{line: 1196, col: 32, offset: 37014},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
@@ -20418,10 +20418,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2855, col: 11, offset: 90466},
+																	pos: position{line: 2855, col: 11, offset: 90467},
 																	run: (*parser).callonInlineImage116,
 																	expr: &litMatcher{
-																		pos:        position{line: 2855, col: 11, offset: 90466},
+																		pos:        position{line: 2855, col: 11, offset: 90467},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20438,10 +20438,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1317, col: 46, offset: 41416},
+							pos:   position{line: 1317, col: 46, offset: 41417},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1317, col: 58, offset: 41428},
+								pos:  position{line: 1317, col: 58, offset: 41429},
 								name: "InlineAttributes",
 							},
 						},
@@ -20451,29 +20451,29 @@ var g = &grammar{
 		},
 		{
 			name: "InlineIcon",
-			pos:  position{line: 1324, col: 1, offset: 41824},
+			pos:  position{line: 1324, col: 1, offset: 41825},
 			expr: &actionExpr{
-				pos: position{line: 1324, col: 15, offset: 41838},
+				pos: position{line: 1324, col: 15, offset: 41839},
 				run: (*parser).callonInlineIcon1,
 				expr: &seqExpr{
-					pos: position{line: 1324, col: 15, offset: 41838},
+					pos: position{line: 1324, col: 15, offset: 41839},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1324, col: 15, offset: 41838},
+							pos:        position{line: 1324, col: 15, offset: 41839},
 							val:        "icon:",
 							ignoreCase: false,
 							want:       "\"icon:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1324, col: 23, offset: 41846},
+							pos:   position{line: 1324, col: 23, offset: 41847},
 							label: "icon",
 							expr: &actionExpr{
-								pos: position{line: 1324, col: 29, offset: 41852},
+								pos: position{line: 1324, col: 29, offset: 41853},
 								run: (*parser).callonInlineIcon5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1324, col: 29, offset: 41852},
+									pos: position{line: 1324, col: 29, offset: 41853},
 									expr: &charClassMatcher{
-										pos:        position{line: 1324, col: 29, offset: 41852},
+										pos:        position{line: 1324, col: 29, offset: 41853},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20484,10 +20484,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1324, col: 73, offset: 41896},
+							pos:   position{line: 1324, col: 73, offset: 41897},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1324, col: 85, offset: 41908},
+								pos:  position{line: 1324, col: 85, offset: 41909},
 								name: "InlineAttributes",
 							},
 						},
@@ -20497,31 +20497,31 @@ var g = &grammar{
 		},
 		{
 			name: "InlineFootnote",
-			pos:  position{line: 1331, col: 1, offset: 42274},
+			pos:  position{line: 1331, col: 1, offset: 42275},
 			expr: &actionExpr{
-				pos: position{line: 1331, col: 19, offset: 42292},
+				pos: position{line: 1331, col: 19, offset: 42293},
 				run: (*parser).callonInlineFootnote1,
 				expr: &seqExpr{
-					pos: position{line: 1331, col: 19, offset: 42292},
+					pos: position{line: 1331, col: 19, offset: 42293},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1331, col: 19, offset: 42292},
+							pos:        position{line: 1331, col: 19, offset: 42293},
 							val:        "footnote:",
 							ignoreCase: false,
 							want:       "\"footnote:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1331, col: 31, offset: 42304},
+							pos:   position{line: 1331, col: 31, offset: 42305},
 							label: "ref",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1331, col: 35, offset: 42308},
+								pos: position{line: 1331, col: 35, offset: 42309},
 								expr: &actionExpr{
-									pos: position{line: 1335, col: 16, offset: 42468},
+									pos: position{line: 1335, col: 16, offset: 42469},
 									run: (*parser).callonInlineFootnote6,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1335, col: 16, offset: 42468},
+										pos: position{line: 1335, col: 16, offset: 42469},
 										expr: &charClassMatcher{
-											pos:        position{line: 1335, col: 16, offset: 42468},
+											pos:        position{line: 1335, col: 16, offset: 42469},
 											val:        "[_-\\pL\\pN]",
 											chars:      []rune{'_', '-'},
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20533,21 +20533,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1331, col: 50, offset: 42323},
+							pos:        position{line: 1331, col: 50, offset: 42324},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1331, col: 54, offset: 42327},
+							pos:   position{line: 1331, col: 54, offset: 42328},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1331, col: 64, offset: 42337},
+								pos:  position{line: 1331, col: 64, offset: 42338},
 								name: "FootnoteElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1331, col: 82, offset: 42355},
+							pos:        position{line: 1331, col: 82, offset: 42356},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -20558,17 +20558,17 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElements",
-			pos:  position{line: 1337, col: 1, offset: 42512},
+			pos:  position{line: 1337, col: 1, offset: 42513},
 			expr: &actionExpr{
-				pos: position{line: 1337, col: 21, offset: 42532},
+				pos: position{line: 1337, col: 21, offset: 42533},
 				run: (*parser).callonFootnoteElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1337, col: 21, offset: 42532},
+					pos:   position{line: 1337, col: 21, offset: 42533},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1337, col: 30, offset: 42541},
+						pos: position{line: 1337, col: 30, offset: 42542},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1337, col: 31, offset: 42542},
+							pos:  position{line: 1337, col: 31, offset: 42543},
 							name: "FootnoteElement",
 						},
 					},
@@ -20577,44 +20577,44 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElement",
-			pos:  position{line: 1341, col: 1, offset: 42634},
+			pos:  position{line: 1341, col: 1, offset: 42635},
 			expr: &actionExpr{
-				pos: position{line: 1342, col: 5, offset: 42658},
+				pos: position{line: 1342, col: 5, offset: 42659},
 				run: (*parser).callonFootnoteElement1,
 				expr: &seqExpr{
-					pos: position{line: 1342, col: 5, offset: 42658},
+					pos: position{line: 1342, col: 5, offset: 42659},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1342, col: 5, offset: 42658},
+							pos: position{line: 1342, col: 5, offset: 42659},
 							expr: &litMatcher{
-								pos:        position{line: 1342, col: 6, offset: 42659},
+								pos:        position{line: 1342, col: 6, offset: 42660},
 								val:        "]",
 								ignoreCase: false,
 								want:       "\"]\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1343, col: 5, offset: 42668},
+							pos:   position{line: 1343, col: 5, offset: 42669},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1344, col: 9, offset: 42686},
+								pos: position{line: 1344, col: 9, offset: 42687},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2775, col: 5, offset: 88193},
+										pos: position{line: 2775, col: 5, offset: 88194},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2775, col: 5, offset: 88193},
+											pos: position{line: 2775, col: 5, offset: 88194},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2775, col: 5, offset: 88193},
+													pos:   position{line: 2775, col: 5, offset: 88194},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2775, col: 11, offset: 88199},
+														pos: position{line: 2775, col: 11, offset: 88200},
 														run: (*parser).callonFootnoteElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2775, col: 11, offset: 88199},
+															pos: position{line: 2775, col: 11, offset: 88200},
 															expr: &charClassMatcher{
-																pos:        position{line: 2775, col: 11, offset: 88199},
+																pos:        position{line: 2775, col: 11, offset: 88200},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -20624,36 +20624,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2778, col: 5, offset: 88257},
+													pos: position{line: 2778, col: 5, offset: 88258},
 													expr: &seqExpr{
-														pos: position{line: 2779, col: 9, offset: 88268},
+														pos: position{line: 2779, col: 9, offset: 88269},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2779, col: 9, offset: 88268},
+																pos:        position{line: 2779, col: 9, offset: 88269},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2780, col: 9, offset: 88317},
+																pos: position{line: 2780, col: 9, offset: 88318},
 																run: (*parser).callonFootnoteElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2784, col: 5, offset: 88397},
+													pos: position{line: 2784, col: 5, offset: 88398},
 													expr: &seqExpr{
-														pos: position{line: 2785, col: 9, offset: 88408},
+														pos: position{line: 2785, col: 9, offset: 88409},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2785, col: 9, offset: 88408},
+																pos:        position{line: 2785, col: 9, offset: 88409},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2785, col: 13, offset: 88412},
+																pos:        position{line: 2785, col: 13, offset: 88413},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -20666,12 +20666,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2880, col: 11, offset: 91012},
+										pos: position{line: 2880, col: 11, offset: 91013},
 										run: (*parser).callonFootnoteElement21,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2880, col: 11, offset: 91012},
+											pos: position{line: 2880, col: 11, offset: 91013},
 											expr: &charClassMatcher{
-												pos:        position{line: 2880, col: 11, offset: 91012},
+												pos:        position{line: 2880, col: 11, offset: 91013},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -20680,25 +20680,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2501, col: 5, offset: 80575},
+										pos: position{line: 2501, col: 5, offset: 80576},
 										run: (*parser).callonFootnoteElement24,
 										expr: &seqExpr{
-											pos: position{line: 2501, col: 5, offset: 80575},
+											pos: position{line: 2501, col: 5, offset: 80576},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2501, col: 5, offset: 80575},
+													pos: position{line: 2501, col: 5, offset: 80576},
 													run: (*parser).callonFootnoteElement26,
 												},
 												&litMatcher{
-													pos:        position{line: 2504, col: 5, offset: 80646},
+													pos:        position{line: 2504, col: 5, offset: 80647},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2504, col: 10, offset: 80651},
+													pos: position{line: 2504, col: 10, offset: 80652},
 													expr: &charClassMatcher{
-														pos:        position{line: 2504, col: 11, offset: 80652},
+														pos:        position{line: 2504, col: 11, offset: 80653},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -20709,29 +20709,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2510, col: 5, offset: 80844},
+										pos: position{line: 2510, col: 5, offset: 80845},
 										run: (*parser).callonFootnoteElement30,
 										expr: &seqExpr{
-											pos: position{line: 2510, col: 5, offset: 80844},
+											pos: position{line: 2510, col: 5, offset: 80845},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2510, col: 5, offset: 80844},
+													pos: position{line: 2510, col: 5, offset: 80845},
 													run: (*parser).callonFootnoteElement32,
 												},
 												&andCodeExpr{
-													pos: position{line: 2513, col: 5, offset: 80915},
+													pos: position{line: 2513, col: 5, offset: 80916},
 													run: (*parser).callonFootnoteElement33,
 												},
 												&litMatcher{
-													pos:        position{line: 2517, col: 5, offset: 81040},
+													pos:        position{line: 2517, col: 5, offset: 81041},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2517, col: 9, offset: 81044},
+													pos: position{line: 2517, col: 9, offset: 81045},
 													expr: &charClassMatcher{
-														pos:        position{line: 2517, col: 10, offset: 81045},
+														pos:        position{line: 2517, col: 10, offset: 81046},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -20742,35 +20742,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1347, col: 11, offset: 42753},
+										pos:  position{line: 1347, col: 11, offset: 42754},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1348, col: 11, offset: 42769},
+										pos:  position{line: 1348, col: 11, offset: 42770},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2793, col: 5, offset: 88605},
+										pos: position{line: 2793, col: 5, offset: 88606},
 										run: (*parser).callonFootnoteElement39,
 										expr: &choiceExpr{
-											pos: position{line: 2794, col: 9, offset: 88615},
+											pos: position{line: 2794, col: 9, offset: 88616},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2794, col: 10, offset: 88616},
+													pos:        position{line: 2794, col: 10, offset: 88617},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2796, col: 13, offset: 88713},
+													pos: position{line: 2796, col: 13, offset: 88714},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2796, col: 13, offset: 88713},
+															pos: position{line: 2796, col: 13, offset: 88714},
 															run: (*parser).callonFootnoteElement43,
 														},
 														&litMatcher{
-															pos:        position{line: 2799, col: 13, offset: 88813},
+															pos:        position{line: 2799, col: 13, offset: 88814},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -20778,20 +20778,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2799, col: 19, offset: 88819},
+													pos:        position{line: 2799, col: 19, offset: 88820},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2802, col: 13, offset: 88857},
+													pos: position{line: 2802, col: 13, offset: 88858},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2802, col: 13, offset: 88857},
+															pos: position{line: 2802, col: 13, offset: 88858},
 															run: (*parser).callonFootnoteElement47,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2805, col: 14, offset: 88950},
+															pos:        position{line: 2805, col: 14, offset: 88951},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -20800,18 +20800,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2807, col: 12, offset: 88994},
+													pos: position{line: 2807, col: 12, offset: 88995},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2807, col: 12, offset: 88994},
+															pos:        position{line: 2807, col: 12, offset: 88995},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2807, col: 16, offset: 88998},
+															pos: position{line: 2807, col: 16, offset: 88999},
 															expr: &litMatcher{
-																pos:        position{line: 2807, col: 17, offset: 88999},
+																pos:        position{line: 2807, col: 17, offset: 89000},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -20823,36 +20823,36 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1350, col: 11, offset: 42842},
+										pos:  position{line: 1350, col: 11, offset: 42843},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 1206, col: 5, offset: 37491},
+										pos: position{line: 1206, col: 5, offset: 37492},
 										run: (*parser).callonFootnoteElement54,
 										expr: &seqExpr{
-											pos: position{line: 1206, col: 5, offset: 37491},
+											pos: position{line: 1206, col: 5, offset: 37492},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 1206, col: 5, offset: 37491},
+													pos: position{line: 1206, col: 5, offset: 37492},
 													run: (*parser).callonFootnoteElement56,
 												},
 												&litMatcher{
-													pos:        position{line: 1209, col: 5, offset: 37567},
+													pos:        position{line: 1209, col: 5, offset: 37568},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&andCodeExpr{
-													pos: position{line: 1210, col: 5, offset: 37575},
+													pos: position{line: 1210, col: 5, offset: 37576},
 													run: (*parser).callonFootnoteElement58,
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1214, col: 5, offset: 37662},
+													pos: position{line: 1214, col: 5, offset: 37663},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 90951},
+														pos: position{line: 2876, col: 10, offset: 90952},
 														run: (*parser).callonFootnoteElement60,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 90951},
+															pos:        position{line: 2876, col: 10, offset: 90952},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -20861,30 +20861,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 1214, col: 12, offset: 37669},
+													pos: position{line: 1214, col: 12, offset: 37670},
 													expr: &choiceExpr{
-														pos: position{line: 2898, col: 8, offset: 91349},
+														pos: position{line: 2898, col: 8, offset: 91350},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2885, col: 12, offset: 91122},
+																pos: position{line: 2885, col: 12, offset: 91123},
 																run: (*parser).callonFootnoteElement64,
 																expr: &choiceExpr{
-																	pos: position{line: 2885, col: 13, offset: 91123},
+																	pos: position{line: 2885, col: 13, offset: 91124},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 13, offset: 91123},
+																			pos:        position{line: 2885, col: 13, offset: 91124},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 20, offset: 91130},
+																			pos:        position{line: 2885, col: 20, offset: 91131},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 29, offset: 91139},
+																			pos:        position{line: 2885, col: 29, offset: 91140},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -20893,9 +20893,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91299},
+																pos: position{line: 2895, col: 8, offset: 91300},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91300,
+																	line: 2895, col: 9, offset: 91301,
 																},
 															},
 														},
@@ -20905,35 +20905,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 636, col: 5, offset: 20177},
+										pos: position{line: 636, col: 5, offset: 20178},
 										run: (*parser).callonFootnoteElement71,
 										expr: &seqExpr{
-											pos: position{line: 636, col: 5, offset: 20177},
+											pos: position{line: 636, col: 5, offset: 20178},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 636, col: 5, offset: 20177},
+													pos: position{line: 636, col: 5, offset: 20178},
 													run: (*parser).callonFootnoteElement73,
 												},
 												&labeledExpr{
-													pos:   position{line: 639, col: 5, offset: 20249},
+													pos:   position{line: 639, col: 5, offset: 20250},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 639, col: 14, offset: 20258},
+														pos: position{line: 639, col: 14, offset: 20259},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 645, col: 5, offset: 20387},
+																pos: position{line: 645, col: 5, offset: 20388},
 																run: (*parser).callonFootnoteElement76,
 																expr: &seqExpr{
-																	pos: position{line: 645, col: 5, offset: 20387},
+																	pos: position{line: 645, col: 5, offset: 20388},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 645, col: 5, offset: 20387},
+																			pos:        position{line: 645, col: 5, offset: 20388},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 645, col: 13, offset: 20395},
+																			pos:   position{line: 645, col: 13, offset: 20396},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9729},
@@ -20953,8 +20953,8 @@ var g = &grammar{
 																							pos: position{line: 318, col: 28, offset: 9739},
 																							expr: &charClassMatcher{
 																								pos:        position{line: 318, col: 29, offset: 9740},
-																								val:        "[-\\pL\\pN]",
-																								chars:      []rune{'-'},
+																								val:        "[_-\\pL\\pN]",
+																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
 																								inverted:   false,
@@ -20965,7 +20965,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 645, col: 32, offset: 20414},
+																			pos:        position{line: 645, col: 32, offset: 20415},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -20974,19 +20974,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 652, col: 5, offset: 20655},
+																pos: position{line: 652, col: 5, offset: 20656},
 																run: (*parser).callonFootnoteElement86,
 																expr: &seqExpr{
-																	pos: position{line: 652, col: 5, offset: 20655},
+																	pos: position{line: 652, col: 5, offset: 20656},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 652, col: 5, offset: 20655},
+																			pos:        position{line: 652, col: 5, offset: 20656},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 652, col: 9, offset: 20659},
+																			pos:   position{line: 652, col: 9, offset: 20660},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9729},
@@ -21006,8 +21006,8 @@ var g = &grammar{
 																							pos: position{line: 318, col: 28, offset: 9739},
 																							expr: &charClassMatcher{
 																								pos:        position{line: 318, col: 29, offset: 9740},
-																								val:        "[-\\pL\\pN]",
-																								chars:      []rune{'-'},
+																								val:        "[_-\\pL\\pN]",
+																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
 																								inverted:   false,
@@ -21018,7 +21018,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 652, col: 28, offset: 20678},
+																			pos:        position{line: 652, col: 28, offset: 20679},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21027,19 +21027,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 658, col: 25, offset: 20859},
+																pos: position{line: 658, col: 25, offset: 20860},
 																run: (*parser).callonFootnoteElement96,
 																expr: &seqExpr{
-																	pos: position{line: 658, col: 25, offset: 20859},
+																	pos: position{line: 658, col: 25, offset: 20860},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 658, col: 25, offset: 20859},
+																			pos:        position{line: 658, col: 25, offset: 20860},
 																			val:        "{counter:",
 																			ignoreCase: false,
 																			want:       "\"{counter:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 658, col: 37, offset: 20871},
+																			pos:   position{line: 658, col: 37, offset: 20872},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9729},
@@ -21059,8 +21059,8 @@ var g = &grammar{
 																							pos: position{line: 318, col: 28, offset: 9739},
 																							expr: &charClassMatcher{
 																								pos:        position{line: 318, col: 29, offset: 9740},
-																								val:        "[-\\pL\\pN]",
-																								chars:      []rune{'-'},
+																								val:        "[_-\\pL\\pN]",
+																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
 																								inverted:   false,
@@ -21071,33 +21071,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 658, col: 56, offset: 20890},
+																			pos:   position{line: 658, col: 56, offset: 20891},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 658, col: 62, offset: 20896},
+																				pos: position{line: 658, col: 62, offset: 20897},
 																				expr: &actionExpr{
-																					pos: position{line: 666, col: 17, offset: 21191},
+																					pos: position{line: 666, col: 17, offset: 21192},
 																					run: (*parser).callonFootnoteElement107,
 																					expr: &seqExpr{
-																						pos: position{line: 666, col: 17, offset: 21191},
+																						pos: position{line: 666, col: 17, offset: 21192},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 666, col: 17, offset: 21191},
+																								pos:        position{line: 666, col: 17, offset: 21192},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 666, col: 21, offset: 21195},
+																								pos:   position{line: 666, col: 21, offset: 21196},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 666, col: 28, offset: 21202},
+																									pos: position{line: 666, col: 28, offset: 21203},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 666, col: 28, offset: 21202},
+																											pos: position{line: 666, col: 28, offset: 21203},
 																											run: (*parser).callonFootnoteElement112,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 666, col: 28, offset: 21202},
+																												pos:        position{line: 666, col: 28, offset: 21203},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -21105,12 +21105,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 668, col: 9, offset: 21256},
+																											pos: position{line: 668, col: 9, offset: 21257},
 																											run: (*parser).callonFootnoteElement114,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 668, col: 9, offset: 21256},
+																												pos: position{line: 668, col: 9, offset: 21257},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 668, col: 9, offset: 21256},
+																													pos:        position{line: 668, col: 9, offset: 21257},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -21127,7 +21127,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 658, col: 78, offset: 20912},
+																			pos:        position{line: 658, col: 78, offset: 20913},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21136,19 +21136,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 662, col: 25, offset: 21030},
+																pos: position{line: 662, col: 25, offset: 21031},
 																run: (*parser).callonFootnoteElement118,
 																expr: &seqExpr{
-																	pos: position{line: 662, col: 25, offset: 21030},
+																	pos: position{line: 662, col: 25, offset: 21031},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 662, col: 25, offset: 21030},
+																			pos:        position{line: 662, col: 25, offset: 21031},
 																			val:        "{counter2:",
 																			ignoreCase: false,
 																			want:       "\"{counter2:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 662, col: 38, offset: 21043},
+																			pos:   position{line: 662, col: 38, offset: 21044},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9729},
@@ -21168,8 +21168,8 @@ var g = &grammar{
 																							pos: position{line: 318, col: 28, offset: 9739},
 																							expr: &charClassMatcher{
 																								pos:        position{line: 318, col: 29, offset: 9740},
-																								val:        "[-\\pL\\pN]",
-																								chars:      []rune{'-'},
+																								val:        "[_-\\pL\\pN]",
+																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
 																								inverted:   false,
@@ -21180,33 +21180,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 662, col: 57, offset: 21062},
+																			pos:   position{line: 662, col: 57, offset: 21063},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 662, col: 63, offset: 21068},
+																				pos: position{line: 662, col: 63, offset: 21069},
 																				expr: &actionExpr{
-																					pos: position{line: 666, col: 17, offset: 21191},
+																					pos: position{line: 666, col: 17, offset: 21192},
 																					run: (*parser).callonFootnoteElement129,
 																					expr: &seqExpr{
-																						pos: position{line: 666, col: 17, offset: 21191},
+																						pos: position{line: 666, col: 17, offset: 21192},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 666, col: 17, offset: 21191},
+																								pos:        position{line: 666, col: 17, offset: 21192},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 666, col: 21, offset: 21195},
+																								pos:   position{line: 666, col: 21, offset: 21196},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 666, col: 28, offset: 21202},
+																									pos: position{line: 666, col: 28, offset: 21203},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 666, col: 28, offset: 21202},
+																											pos: position{line: 666, col: 28, offset: 21203},
 																											run: (*parser).callonFootnoteElement134,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 666, col: 28, offset: 21202},
+																												pos:        position{line: 666, col: 28, offset: 21203},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -21214,12 +21214,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 668, col: 9, offset: 21256},
+																											pos: position{line: 668, col: 9, offset: 21257},
 																											run: (*parser).callonFootnoteElement136,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 668, col: 9, offset: 21256},
+																												pos: position{line: 668, col: 9, offset: 21257},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 668, col: 9, offset: 21256},
+																													pos:        position{line: 668, col: 9, offset: 21257},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -21236,7 +21236,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 662, col: 79, offset: 21084},
+																			pos:        position{line: 662, col: 79, offset: 21085},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21251,23 +21251,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2470, col: 5, offset: 79404},
+										pos: position{line: 2470, col: 5, offset: 79405},
 										run: (*parser).callonFootnoteElement140,
 										expr: &seqExpr{
-											pos: position{line: 2470, col: 5, offset: 79404},
+											pos: position{line: 2470, col: 5, offset: 79405},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2470, col: 5, offset: 79404},
+													pos: position{line: 2470, col: 5, offset: 79405},
 													run: (*parser).callonFootnoteElement142,
 												},
 												&labeledExpr{
-													pos:   position{line: 2473, col: 5, offset: 79480},
+													pos:   position{line: 2473, col: 5, offset: 79481},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2474, col: 9, offset: 79498},
+														pos: position{line: 2474, col: 9, offset: 79499},
 														run: (*parser).callonFootnoteElement144,
 														expr: &charClassMatcher{
-															pos:        position{line: 2474, col: 10, offset: 79499},
+															pos:        position{line: 2474, col: 10, offset: 79500},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -21279,25 +21279,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2885, col: 12, offset: 91122},
+										pos: position{line: 2885, col: 12, offset: 91123},
 										run: (*parser).callonFootnoteElement146,
 										expr: &choiceExpr{
-											pos: position{line: 2885, col: 13, offset: 91123},
+											pos: position{line: 2885, col: 13, offset: 91124},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2885, col: 13, offset: 91123},
+													pos:        position{line: 2885, col: 13, offset: 91124},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2885, col: 20, offset: 91130},
+													pos:        position{line: 2885, col: 20, offset: 91131},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2885, col: 29, offset: 91139},
+													pos:        position{line: 2885, col: 29, offset: 91140},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -21306,10 +21306,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2815, col: 12, offset: 89259},
+										pos: position{line: 2815, col: 12, offset: 89260},
 										run: (*parser).callonFootnoteElement151,
 										expr: &charClassMatcher{
-											pos:        position{line: 2815, col: 12, offset: 89259},
+											pos:        position{line: 2815, col: 12, offset: 89260},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -21325,32 +21325,32 @@ var g = &grammar{
 		},
 		{
 			name: "PassthroughMacro",
-			pos:  position{line: 1389, col: 1, offset: 44687},
+			pos:  position{line: 1389, col: 1, offset: 44688},
 			expr: &choiceExpr{
-				pos: position{line: 1389, col: 21, offset: 44707},
+				pos: position{line: 1389, col: 21, offset: 44708},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1389, col: 21, offset: 44707},
+						pos: position{line: 1389, col: 21, offset: 44708},
 						run: (*parser).callonPassthroughMacro2,
 						expr: &seqExpr{
-							pos: position{line: 1389, col: 21, offset: 44707},
+							pos: position{line: 1389, col: 21, offset: 44708},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1389, col: 21, offset: 44707},
+									pos:        position{line: 1389, col: 21, offset: 44708},
 									val:        "pass:[",
 									ignoreCase: false,
 									want:       "\"pass:[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1389, col: 30, offset: 44716},
+									pos:   position{line: 1389, col: 30, offset: 44717},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1389, col: 38, offset: 44724},
+										pos: position{line: 1389, col: 38, offset: 44725},
 										expr: &actionExpr{
-											pos: position{line: 1405, col: 30, offset: 45314},
+											pos: position{line: 1405, col: 30, offset: 45315},
 											run: (*parser).callonPassthroughMacro7,
 											expr: &charClassMatcher{
-												pos:        position{line: 1405, col: 30, offset: 45314},
+												pos:        position{line: 1405, col: 30, offset: 45315},
 												val:        "[^]]",
 												chars:      []rune{']'},
 												ignoreCase: false,
@@ -21360,7 +21360,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1389, col: 67, offset: 44753},
+									pos:        position{line: 1389, col: 67, offset: 44754},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -21369,34 +21369,34 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1391, col: 9, offset: 44857},
+						pos: position{line: 1391, col: 9, offset: 44858},
 						run: (*parser).callonPassthroughMacro10,
 						expr: &seqExpr{
-							pos: position{line: 1391, col: 9, offset: 44857},
+							pos: position{line: 1391, col: 9, offset: 44858},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 1395, col: 33, offset: 45063},
+									pos: position{line: 1395, col: 33, offset: 45064},
 									run: (*parser).callonPassthroughMacro12,
 									expr: &litMatcher{
-										pos:        position{line: 1395, col: 33, offset: 45063},
+										pos:        position{line: 1395, col: 33, offset: 45064},
 										val:        "pass:q[",
 										ignoreCase: false,
 										want:       "\"pass:q[\"",
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1391, col: 38, offset: 44886},
+									pos:   position{line: 1391, col: 38, offset: 44887},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1391, col: 46, offset: 44894},
+										pos: position{line: 1391, col: 46, offset: 44895},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1391, col: 47, offset: 44895},
+											pos:  position{line: 1391, col: 47, offset: 44896},
 											name: "PassthroughMacroQuotesElement",
 										},
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1391, col: 79, offset: 44927},
+									pos:        position{line: 1391, col: 79, offset: 44928},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -21409,25 +21409,25 @@ var g = &grammar{
 		},
 		{
 			name: "PassthroughMacroQuotesElement",
-			pos:  position{line: 1400, col: 1, offset: 45134},
+			pos:  position{line: 1400, col: 1, offset: 45135},
 			expr: &actionExpr{
-				pos: position{line: 1400, col: 34, offset: 45167},
+				pos: position{line: 1400, col: 34, offset: 45168},
 				run: (*parser).callonPassthroughMacroQuotesElement1,
 				expr: &labeledExpr{
-					pos:   position{line: 1400, col: 34, offset: 45167},
+					pos:   position{line: 1400, col: 34, offset: 45168},
 					label: "element",
 					expr: &choiceExpr{
-						pos: position{line: 1400, col: 43, offset: 45176},
+						pos: position{line: 1400, col: 43, offset: 45177},
 						alternatives: []interface{}{
 							&ruleRefExpr{
-								pos:  position{line: 1400, col: 43, offset: 45176},
+								pos:  position{line: 1400, col: 43, offset: 45177},
 								name: "QuotedText",
 							},
 							&actionExpr{
-								pos: position{line: 1405, col: 30, offset: 45314},
+								pos: position{line: 1405, col: 30, offset: 45315},
 								run: (*parser).callonPassthroughMacroQuotesElement5,
 								expr: &charClassMatcher{
-									pos:        position{line: 1405, col: 30, offset: 45314},
+									pos:        position{line: 1405, col: 30, offset: 45315},
 									val:        "[^]]",
 									chars:      []rune{']'},
 									ignoreCase: false,
@@ -21441,75 +21441,75 @@ var g = &grammar{
 		},
 		{
 			name: "Link",
-			pos:  position{line: 1412, col: 1, offset: 45570},
+			pos:  position{line: 1412, col: 1, offset: 45571},
 			expr: &choiceExpr{
-				pos: position{line: 1412, col: 9, offset: 45578},
+				pos: position{line: 1412, col: 9, offset: 45579},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1415, col: 5, offset: 45647},
+						pos: position{line: 1415, col: 5, offset: 45648},
 						run: (*parser).callonLink2,
 						expr: &seqExpr{
-							pos: position{line: 1415, col: 5, offset: 45647},
+							pos: position{line: 1415, col: 5, offset: 45648},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1415, col: 5, offset: 45647},
+									pos:        position{line: 1415, col: 5, offset: 45648},
 									val:        "<",
 									ignoreCase: false,
 									want:       "\"<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1416, col: 5, offset: 45656},
+									pos:   position{line: 1416, col: 5, offset: 45657},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2838, col: 23, offset: 89837},
+										pos: position{line: 2838, col: 23, offset: 89838},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2838, col: 23, offset: 89837},
+											pos: position{line: 2838, col: 23, offset: 89838},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2838, col: 23, offset: 89837},
+													pos: position{line: 2838, col: 23, offset: 89838},
 													expr: &litMatcher{
-														pos:        position{line: 2838, col: 24, offset: 89838},
+														pos:        position{line: 2838, col: 24, offset: 89839},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2838, col: 28, offset: 89842},
+													pos:   position{line: 2838, col: 28, offset: 89843},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2842, col: 11, offset: 89956},
+														pos: position{line: 2842, col: 11, offset: 89957},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2842, col: 12, offset: 89957},
+															pos: position{line: 2842, col: 12, offset: 89958},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2842, col: 12, offset: 89957},
+																	pos:        position{line: 2842, col: 12, offset: 89958},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2842, col: 24, offset: 89969},
+																	pos:        position{line: 2842, col: 24, offset: 89970},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2842, col: 37, offset: 89982},
+																	pos:        position{line: 2842, col: 37, offset: 89983},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2842, col: 48, offset: 89993},
+																	pos:        position{line: 2842, col: 48, offset: 89994},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2842, col: 59, offset: 90004},
+																	pos:        position{line: 2842, col: 59, offset: 90005},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -21519,38 +21519,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2838, col: 44, offset: 89858},
+													pos:   position{line: 2838, col: 44, offset: 89859},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2847, col: 5, offset: 90068},
+														pos: position{line: 2847, col: 5, offset: 90069},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2847, col: 5, offset: 90068},
+															pos:   position{line: 2847, col: 5, offset: 90069},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2847, col: 14, offset: 90077},
+																pos: position{line: 2847, col: 14, offset: 90078},
 																expr: &choiceExpr{
-																	pos: position{line: 2848, col: 9, offset: 90087},
+																	pos: position{line: 2848, col: 9, offset: 90088},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2848, col: 9, offset: 90087},
+																			pos: position{line: 2848, col: 9, offset: 90088},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2848, col: 9, offset: 90087},
+																				pos: position{line: 2848, col: 9, offset: 90088},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2848, col: 9, offset: 90087},
+																						pos: position{line: 2848, col: 9, offset: 90088},
 																						expr: &litMatcher{
-																							pos:        position{line: 2848, col: 10, offset: 90088},
+																							pos:        position{line: 2848, col: 10, offset: 90089},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2849, col: 9, offset: 90116},
+																						pos: position{line: 2849, col: 9, offset: 90117},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2849, col: 10, offset: 90117},
+																							pos:        position{line: 2849, col: 10, offset: 90118},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -21561,27 +21561,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2852, col: 11, offset: 90329},
+																			pos: position{line: 2852, col: 11, offset: 90330},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2852, col: 11, offset: 90329},
+																					pos:        position{line: 2852, col: 11, offset: 90330},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2852, col: 19, offset: 90337},
+																					pos: position{line: 2852, col: 19, offset: 90338},
 																					expr: &seqExpr{
-																						pos: position{line: 2852, col: 21, offset: 90339},
+																						pos: position{line: 2852, col: 21, offset: 90340},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2852, col: 21, offset: 90339},
+																								pos: position{line: 2852, col: 21, offset: 90340},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 90951},
+																									pos: position{line: 2876, col: 10, offset: 90952},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 90951},
+																										pos:        position{line: 2876, col: 10, offset: 90952},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -21590,11 +21590,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2852, col: 28, offset: 90346},
+																								pos: position{line: 2852, col: 28, offset: 90347},
 																								expr: &notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91299},
+																									pos: position{line: 2895, col: 8, offset: 91300},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91300,
+																										line: 2895, col: 9, offset: 91301,
 																									},
 																								},
 																							},
@@ -21604,35 +21604,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 636, col: 5, offset: 20177},
+																			pos: position{line: 636, col: 5, offset: 20178},
 																			run: (*parser).callonLink39,
 																			expr: &seqExpr{
-																				pos: position{line: 636, col: 5, offset: 20177},
+																				pos: position{line: 636, col: 5, offset: 20178},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 636, col: 5, offset: 20177},
+																						pos: position{line: 636, col: 5, offset: 20178},
 																						run: (*parser).callonLink41,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 639, col: 5, offset: 20249},
+																						pos:   position{line: 639, col: 5, offset: 20250},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 639, col: 14, offset: 20258},
+																							pos: position{line: 639, col: 14, offset: 20259},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 645, col: 5, offset: 20387},
+																									pos: position{line: 645, col: 5, offset: 20388},
 																									run: (*parser).callonLink44,
 																									expr: &seqExpr{
-																										pos: position{line: 645, col: 5, offset: 20387},
+																										pos: position{line: 645, col: 5, offset: 20388},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 645, col: 5, offset: 20387},
+																												pos:        position{line: 645, col: 5, offset: 20388},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 645, col: 13, offset: 20395},
+																												pos:   position{line: 645, col: 13, offset: 20396},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9729},
@@ -21652,8 +21652,8 @@ var g = &grammar{
 																																pos: position{line: 318, col: 28, offset: 9739},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 318, col: 29, offset: 9740},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -21664,7 +21664,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 645, col: 32, offset: 20414},
+																												pos:        position{line: 645, col: 32, offset: 20415},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -21673,19 +21673,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 652, col: 5, offset: 20655},
+																									pos: position{line: 652, col: 5, offset: 20656},
 																									run: (*parser).callonLink54,
 																									expr: &seqExpr{
-																										pos: position{line: 652, col: 5, offset: 20655},
+																										pos: position{line: 652, col: 5, offset: 20656},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 652, col: 5, offset: 20655},
+																												pos:        position{line: 652, col: 5, offset: 20656},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 652, col: 9, offset: 20659},
+																												pos:   position{line: 652, col: 9, offset: 20660},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9729},
@@ -21705,8 +21705,8 @@ var g = &grammar{
 																																pos: position{line: 318, col: 28, offset: 9739},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 318, col: 29, offset: 9740},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -21717,7 +21717,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 652, col: 28, offset: 20678},
+																												pos:        position{line: 652, col: 28, offset: 20679},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -21726,19 +21726,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 658, col: 25, offset: 20859},
+																									pos: position{line: 658, col: 25, offset: 20860},
 																									run: (*parser).callonLink64,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 25, offset: 20859},
+																										pos: position{line: 658, col: 25, offset: 20860},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 658, col: 25, offset: 20859},
+																												pos:        position{line: 658, col: 25, offset: 20860},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 37, offset: 20871},
+																												pos:   position{line: 658, col: 37, offset: 20872},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9729},
@@ -21758,8 +21758,8 @@ var g = &grammar{
 																																pos: position{line: 318, col: 28, offset: 9739},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 318, col: 29, offset: 9740},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -21770,33 +21770,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 56, offset: 20890},
+																												pos:   position{line: 658, col: 56, offset: 20891},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 658, col: 62, offset: 20896},
+																													pos: position{line: 658, col: 62, offset: 20897},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21191},
+																														pos: position{line: 666, col: 17, offset: 21192},
 																														run: (*parser).callonLink75,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21191},
+																															pos: position{line: 666, col: 17, offset: 21192},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21191},
+																																	pos:        position{line: 666, col: 17, offset: 21192},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21195},
+																																	pos:   position{line: 666, col: 21, offset: 21196},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21202},
+																																		pos: position{line: 666, col: 28, offset: 21203},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21202},
+																																				pos: position{line: 666, col: 28, offset: 21203},
 																																				run: (*parser).callonLink80,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21202},
+																																					pos:        position{line: 666, col: 28, offset: 21203},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -21804,12 +21804,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21256},
+																																				pos: position{line: 668, col: 9, offset: 21257},
 																																				run: (*parser).callonLink82,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21256},
+																																					pos: position{line: 668, col: 9, offset: 21257},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21256},
+																																						pos:        position{line: 668, col: 9, offset: 21257},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -21826,7 +21826,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 78, offset: 20912},
+																												pos:        position{line: 658, col: 78, offset: 20913},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -21835,19 +21835,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 662, col: 25, offset: 21030},
+																									pos: position{line: 662, col: 25, offset: 21031},
 																									run: (*parser).callonLink86,
 																									expr: &seqExpr{
-																										pos: position{line: 662, col: 25, offset: 21030},
+																										pos: position{line: 662, col: 25, offset: 21031},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 662, col: 25, offset: 21030},
+																												pos:        position{line: 662, col: 25, offset: 21031},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 38, offset: 21043},
+																												pos:   position{line: 662, col: 38, offset: 21044},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9729},
@@ -21867,8 +21867,8 @@ var g = &grammar{
 																																pos: position{line: 318, col: 28, offset: 9739},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 318, col: 29, offset: 9740},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -21879,33 +21879,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 57, offset: 21062},
+																												pos:   position{line: 662, col: 57, offset: 21063},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 662, col: 63, offset: 21068},
+																													pos: position{line: 662, col: 63, offset: 21069},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21191},
+																														pos: position{line: 666, col: 17, offset: 21192},
 																														run: (*parser).callonLink97,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21191},
+																															pos: position{line: 666, col: 17, offset: 21192},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21191},
+																																	pos:        position{line: 666, col: 17, offset: 21192},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21195},
+																																	pos:   position{line: 666, col: 21, offset: 21196},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21202},
+																																		pos: position{line: 666, col: 28, offset: 21203},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21202},
+																																				pos: position{line: 666, col: 28, offset: 21203},
 																																				run: (*parser).callonLink102,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21202},
+																																					pos:        position{line: 666, col: 28, offset: 21203},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -21913,12 +21913,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21256},
+																																				pos: position{line: 668, col: 9, offset: 21257},
 																																				run: (*parser).callonLink104,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21256},
+																																					pos: position{line: 668, col: 9, offset: 21257},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21256},
+																																						pos:        position{line: 668, col: 9, offset: 21257},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -21935,7 +21935,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 662, col: 79, offset: 21084},
+																												pos:        position{line: 662, col: 79, offset: 21085},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -21950,27 +21950,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1198, col: 23, offset: 37045},
+																			pos: position{line: 1198, col: 23, offset: 37046},
 																			run: (*parser).callonLink108,
 																			expr: &seqExpr{
-																				pos: position{line: 1198, col: 23, offset: 37045},
+																				pos: position{line: 1198, col: 23, offset: 37046},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 37013},
+																						pos:        position{line: 1196, col: 32, offset: 37014},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1198, col: 51, offset: 37073},
+																						pos:   position{line: 1198, col: 51, offset: 37074},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1198, col: 56, offset: 37078},
+																							pos: position{line: 1198, col: 56, offset: 37079},
 																							run: (*parser).callonLink112,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1198, col: 56, offset: 37078},
+																								pos: position{line: 1198, col: 56, offset: 37079},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1198, col: 56, offset: 37078},
+																									pos:        position{line: 1198, col: 56, offset: 37079},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -21980,7 +21980,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 37013},
+																						pos:        position{line: 1196, col: 32, offset: 37014},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -21989,10 +21989,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2855, col: 11, offset: 90466},
+																			pos: position{line: 2855, col: 11, offset: 90467},
 																			run: (*parser).callonLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2855, col: 11, offset: 90466},
+																				pos:        position{line: 2855, col: 11, offset: 90467},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22009,7 +22009,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1421, col: 5, offset: 45875},
+									pos:        position{line: 1421, col: 5, offset: 45876},
 									val:        ">",
 									ignoreCase: false,
 									want:       "\">\"",
@@ -22018,38 +22018,38 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1412, col: 19, offset: 45588},
+						pos:  position{line: 1412, col: 19, offset: 45589},
 						name: "RelativeLink",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1412, col: 34, offset: 45603},
+						pos:  position{line: 1412, col: 34, offset: 45604},
 						name: "ExternalLink",
 					},
 					&actionExpr{
-						pos: position{line: 1450, col: 17, offset: 46868},
+						pos: position{line: 1450, col: 17, offset: 46869},
 						run: (*parser).callonLink121,
 						expr: &seqExpr{
-							pos: position{line: 1450, col: 17, offset: 46868},
+							pos: position{line: 1450, col: 17, offset: 46869},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1450, col: 17, offset: 46868},
+									pos:   position{line: 1450, col: 17, offset: 46869},
 									label: "local",
 									expr: &actionExpr{
-										pos: position{line: 1455, col: 5, offset: 47033},
+										pos: position{line: 1455, col: 5, offset: 47034},
 										run: (*parser).callonLink124,
 										expr: &seqExpr{
-											pos: position{line: 1455, col: 5, offset: 47033},
+											pos: position{line: 1455, col: 5, offset: 47034},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1455, col: 5, offset: 47033},
+													pos:   position{line: 1455, col: 5, offset: 47034},
 													label: "local",
 													expr: &actionExpr{
-														pos: position{line: 1455, col: 12, offset: 47040},
+														pos: position{line: 1455, col: 12, offset: 47041},
 														run: (*parser).callonLink127,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1455, col: 12, offset: 47040},
+															pos: position{line: 1455, col: 12, offset: 47041},
 															expr: &charClassMatcher{
-																pos:        position{line: 1455, col: 12, offset: 47040},
+																pos:        position{line: 1455, col: 12, offset: 47041},
 																val:        "[!#$%&\\*=?^_`{|}~.+-/\\pL\\pN]",
 																chars:      []rune{'!', '#', '$', '%', '&', '\'', '*', '=', '?', '^', '_', '`', '{', '|', '}', '~', '.'},
 																ranges:     []rune{'+', '/'},
@@ -22061,7 +22061,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1458, col: 5, offset: 47124},
+													pos: position{line: 1458, col: 5, offset: 47125},
 													run: (*parser).callonLink130,
 												},
 											},
@@ -22069,33 +22069,33 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1450, col: 43, offset: 46894},
+									pos:        position{line: 1450, col: 43, offset: 46895},
 									val:        "@",
 									ignoreCase: false,
 									want:       "\"@\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1450, col: 47, offset: 46898},
+									pos:   position{line: 1450, col: 47, offset: 46899},
 									label: "domain",
 									expr: &actionExpr{
-										pos: position{line: 1467, col: 23, offset: 47418},
+										pos: position{line: 1467, col: 23, offset: 47419},
 										run: (*parser).callonLink133,
 										expr: &seqExpr{
-											pos: position{line: 1467, col: 23, offset: 47418},
+											pos: position{line: 1467, col: 23, offset: 47419},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1467, col: 23, offset: 47418},
+													pos:   position{line: 1467, col: 23, offset: 47419},
 													label: "domain",
 													expr: &actionExpr{
-														pos: position{line: 1467, col: 31, offset: 47426},
+														pos: position{line: 1467, col: 31, offset: 47427},
 														run: (*parser).callonLink136,
 														expr: &seqExpr{
-															pos: position{line: 1467, col: 31, offset: 47426},
+															pos: position{line: 1467, col: 31, offset: 47427},
 															exprs: []interface{}{
 																&oneOrMoreExpr{
-																	pos: position{line: 1467, col: 31, offset: 47426},
+																	pos: position{line: 1467, col: 31, offset: 47427},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 1467, col: 31, offset: 47426},
+																		pos:        position{line: 1467, col: 31, offset: 47427},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -22103,20 +22103,20 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 1467, col: 41, offset: 47436},
+																	pos: position{line: 1467, col: 41, offset: 47437},
 																	expr: &seqExpr{
-																		pos: position{line: 1467, col: 42, offset: 47437},
+																		pos: position{line: 1467, col: 42, offset: 47438},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1467, col: 42, offset: 47437},
+																				pos:        position{line: 1467, col: 42, offset: 47438},
 																				val:        ".",
 																				ignoreCase: false,
 																				want:       "\".\"",
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 1467, col: 46, offset: 47441},
+																				pos: position{line: 1467, col: 46, offset: 47442},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1467, col: 46, offset: 47441},
+																					pos:        position{line: 1467, col: 46, offset: 47442},
 																					val:        "[-\\pL\\pN]",
 																					chars:      []rune{'-'},
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22132,7 +22132,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1470, col: 5, offset: 47502},
+													pos: position{line: 1470, col: 5, offset: 47503},
 													run: (*parser).callonLink145,
 												},
 											},
@@ -22147,68 +22147,68 @@ var g = &grammar{
 		},
 		{
 			name: "RelativeLink",
-			pos:  position{line: 1427, col: 1, offset: 46023},
+			pos:  position{line: 1427, col: 1, offset: 46024},
 			expr: &choiceExpr{
-				pos: position{line: 1429, col: 5, offset: 46059},
+				pos: position{line: 1429, col: 5, offset: 46060},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1429, col: 5, offset: 46059},
+						pos: position{line: 1429, col: 5, offset: 46060},
 						run: (*parser).callonRelativeLink2,
 						expr: &seqExpr{
-							pos: position{line: 1429, col: 5, offset: 46059},
+							pos: position{line: 1429, col: 5, offset: 46060},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1429, col: 5, offset: 46059},
+									pos:        position{line: 1429, col: 5, offset: 46060},
 									val:        "\\link:",
 									ignoreCase: false,
 									want:       "\"\\\\link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1429, col: 17, offset: 46071},
+									pos:   position{line: 1429, col: 17, offset: 46072},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2834, col: 13, offset: 89710},
+										pos: position{line: 2834, col: 13, offset: 89711},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2834, col: 13, offset: 89710},
+											pos: position{line: 2834, col: 13, offset: 89711},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2834, col: 13, offset: 89710},
+													pos:   position{line: 2834, col: 13, offset: 89711},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2834, col: 20, offset: 89717},
+														pos: position{line: 2834, col: 20, offset: 89718},
 														expr: &actionExpr{
-															pos: position{line: 2842, col: 11, offset: 89956},
+															pos: position{line: 2842, col: 11, offset: 89957},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2842, col: 12, offset: 89957},
+																pos: position{line: 2842, col: 12, offset: 89958},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2842, col: 12, offset: 89957},
+																		pos:        position{line: 2842, col: 12, offset: 89958},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2842, col: 24, offset: 89969},
+																		pos:        position{line: 2842, col: 24, offset: 89970},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2842, col: 37, offset: 89982},
+																		pos:        position{line: 2842, col: 37, offset: 89983},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2842, col: 48, offset: 89993},
+																		pos:        position{line: 2842, col: 48, offset: 89994},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2842, col: 59, offset: 90004},
+																		pos:        position{line: 2842, col: 59, offset: 90005},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22219,38 +22219,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2834, col: 30, offset: 89727},
+													pos:   position{line: 2834, col: 30, offset: 89728},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2847, col: 5, offset: 90068},
+														pos: position{line: 2847, col: 5, offset: 90069},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2847, col: 5, offset: 90068},
+															pos:   position{line: 2847, col: 5, offset: 90069},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2847, col: 14, offset: 90077},
+																pos: position{line: 2847, col: 14, offset: 90078},
 																expr: &choiceExpr{
-																	pos: position{line: 2848, col: 9, offset: 90087},
+																	pos: position{line: 2848, col: 9, offset: 90088},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2848, col: 9, offset: 90087},
+																			pos: position{line: 2848, col: 9, offset: 90088},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2848, col: 9, offset: 90087},
+																				pos: position{line: 2848, col: 9, offset: 90088},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2848, col: 9, offset: 90087},
+																						pos: position{line: 2848, col: 9, offset: 90088},
 																						expr: &litMatcher{
-																							pos:        position{line: 2848, col: 10, offset: 90088},
+																							pos:        position{line: 2848, col: 10, offset: 90089},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2849, col: 9, offset: 90116},
+																						pos: position{line: 2849, col: 9, offset: 90117},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2849, col: 10, offset: 90117},
+																							pos:        position{line: 2849, col: 10, offset: 90118},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22261,27 +22261,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2852, col: 11, offset: 90329},
+																			pos: position{line: 2852, col: 11, offset: 90330},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2852, col: 11, offset: 90329},
+																					pos:        position{line: 2852, col: 11, offset: 90330},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2852, col: 19, offset: 90337},
+																					pos: position{line: 2852, col: 19, offset: 90338},
 																					expr: &seqExpr{
-																						pos: position{line: 2852, col: 21, offset: 90339},
+																						pos: position{line: 2852, col: 21, offset: 90340},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2852, col: 21, offset: 90339},
+																								pos: position{line: 2852, col: 21, offset: 90340},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 90951},
+																									pos: position{line: 2876, col: 10, offset: 90952},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 90951},
+																										pos:        position{line: 2876, col: 10, offset: 90952},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22290,11 +22290,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2852, col: 28, offset: 90346},
+																								pos: position{line: 2852, col: 28, offset: 90347},
 																								expr: &notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91299},
+																									pos: position{line: 2895, col: 8, offset: 91300},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91300,
+																										line: 2895, col: 9, offset: 91301,
 																									},
 																								},
 																							},
@@ -22304,35 +22304,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 636, col: 5, offset: 20177},
+																			pos: position{line: 636, col: 5, offset: 20178},
 																			run: (*parser).callonRelativeLink38,
 																			expr: &seqExpr{
-																				pos: position{line: 636, col: 5, offset: 20177},
+																				pos: position{line: 636, col: 5, offset: 20178},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 636, col: 5, offset: 20177},
+																						pos: position{line: 636, col: 5, offset: 20178},
 																						run: (*parser).callonRelativeLink40,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 639, col: 5, offset: 20249},
+																						pos:   position{line: 639, col: 5, offset: 20250},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 639, col: 14, offset: 20258},
+																							pos: position{line: 639, col: 14, offset: 20259},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 645, col: 5, offset: 20387},
+																									pos: position{line: 645, col: 5, offset: 20388},
 																									run: (*parser).callonRelativeLink43,
 																									expr: &seqExpr{
-																										pos: position{line: 645, col: 5, offset: 20387},
+																										pos: position{line: 645, col: 5, offset: 20388},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 645, col: 5, offset: 20387},
+																												pos:        position{line: 645, col: 5, offset: 20388},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 645, col: 13, offset: 20395},
+																												pos:   position{line: 645, col: 13, offset: 20396},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9729},
@@ -22352,8 +22352,8 @@ var g = &grammar{
 																																pos: position{line: 318, col: 28, offset: 9739},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 318, col: 29, offset: 9740},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -22364,7 +22364,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 645, col: 32, offset: 20414},
+																												pos:        position{line: 645, col: 32, offset: 20415},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22373,19 +22373,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 652, col: 5, offset: 20655},
+																									pos: position{line: 652, col: 5, offset: 20656},
 																									run: (*parser).callonRelativeLink53,
 																									expr: &seqExpr{
-																										pos: position{line: 652, col: 5, offset: 20655},
+																										pos: position{line: 652, col: 5, offset: 20656},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 652, col: 5, offset: 20655},
+																												pos:        position{line: 652, col: 5, offset: 20656},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 652, col: 9, offset: 20659},
+																												pos:   position{line: 652, col: 9, offset: 20660},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9729},
@@ -22405,8 +22405,8 @@ var g = &grammar{
 																																pos: position{line: 318, col: 28, offset: 9739},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 318, col: 29, offset: 9740},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -22417,7 +22417,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 652, col: 28, offset: 20678},
+																												pos:        position{line: 652, col: 28, offset: 20679},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22426,19 +22426,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 658, col: 25, offset: 20859},
+																									pos: position{line: 658, col: 25, offset: 20860},
 																									run: (*parser).callonRelativeLink63,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 25, offset: 20859},
+																										pos: position{line: 658, col: 25, offset: 20860},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 658, col: 25, offset: 20859},
+																												pos:        position{line: 658, col: 25, offset: 20860},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 37, offset: 20871},
+																												pos:   position{line: 658, col: 37, offset: 20872},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9729},
@@ -22458,8 +22458,8 @@ var g = &grammar{
 																																pos: position{line: 318, col: 28, offset: 9739},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 318, col: 29, offset: 9740},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -22470,33 +22470,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 56, offset: 20890},
+																												pos:   position{line: 658, col: 56, offset: 20891},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 658, col: 62, offset: 20896},
+																													pos: position{line: 658, col: 62, offset: 20897},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21191},
+																														pos: position{line: 666, col: 17, offset: 21192},
 																														run: (*parser).callonRelativeLink74,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21191},
+																															pos: position{line: 666, col: 17, offset: 21192},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21191},
+																																	pos:        position{line: 666, col: 17, offset: 21192},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21195},
+																																	pos:   position{line: 666, col: 21, offset: 21196},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21202},
+																																		pos: position{line: 666, col: 28, offset: 21203},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21202},
+																																				pos: position{line: 666, col: 28, offset: 21203},
 																																				run: (*parser).callonRelativeLink79,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21202},
+																																					pos:        position{line: 666, col: 28, offset: 21203},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22504,12 +22504,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21256},
+																																				pos: position{line: 668, col: 9, offset: 21257},
 																																				run: (*parser).callonRelativeLink81,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21256},
+																																					pos: position{line: 668, col: 9, offset: 21257},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21256},
+																																						pos:        position{line: 668, col: 9, offset: 21257},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -22526,7 +22526,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 78, offset: 20912},
+																												pos:        position{line: 658, col: 78, offset: 20913},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22535,19 +22535,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 662, col: 25, offset: 21030},
+																									pos: position{line: 662, col: 25, offset: 21031},
 																									run: (*parser).callonRelativeLink85,
 																									expr: &seqExpr{
-																										pos: position{line: 662, col: 25, offset: 21030},
+																										pos: position{line: 662, col: 25, offset: 21031},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 662, col: 25, offset: 21030},
+																												pos:        position{line: 662, col: 25, offset: 21031},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 38, offset: 21043},
+																												pos:   position{line: 662, col: 38, offset: 21044},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9729},
@@ -22567,8 +22567,8 @@ var g = &grammar{
 																																pos: position{line: 318, col: 28, offset: 9739},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 318, col: 29, offset: 9740},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -22579,33 +22579,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 57, offset: 21062},
+																												pos:   position{line: 662, col: 57, offset: 21063},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 662, col: 63, offset: 21068},
+																													pos: position{line: 662, col: 63, offset: 21069},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21191},
+																														pos: position{line: 666, col: 17, offset: 21192},
 																														run: (*parser).callonRelativeLink96,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21191},
+																															pos: position{line: 666, col: 17, offset: 21192},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21191},
+																																	pos:        position{line: 666, col: 17, offset: 21192},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21195},
+																																	pos:   position{line: 666, col: 21, offset: 21196},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21202},
+																																		pos: position{line: 666, col: 28, offset: 21203},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21202},
+																																				pos: position{line: 666, col: 28, offset: 21203},
 																																				run: (*parser).callonRelativeLink101,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21202},
+																																					pos:        position{line: 666, col: 28, offset: 21203},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22613,12 +22613,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21256},
+																																				pos: position{line: 668, col: 9, offset: 21257},
 																																				run: (*parser).callonRelativeLink103,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21256},
+																																					pos: position{line: 668, col: 9, offset: 21257},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21256},
+																																						pos:        position{line: 668, col: 9, offset: 21257},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -22635,7 +22635,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 662, col: 79, offset: 21084},
+																												pos:        position{line: 662, col: 79, offset: 21085},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22650,27 +22650,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1198, col: 23, offset: 37045},
+																			pos: position{line: 1198, col: 23, offset: 37046},
 																			run: (*parser).callonRelativeLink107,
 																			expr: &seqExpr{
-																				pos: position{line: 1198, col: 23, offset: 37045},
+																				pos: position{line: 1198, col: 23, offset: 37046},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 37013},
+																						pos:        position{line: 1196, col: 32, offset: 37014},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1198, col: 51, offset: 37073},
+																						pos:   position{line: 1198, col: 51, offset: 37074},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1198, col: 56, offset: 37078},
+																							pos: position{line: 1198, col: 56, offset: 37079},
 																							run: (*parser).callonRelativeLink111,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1198, col: 56, offset: 37078},
+																								pos: position{line: 1198, col: 56, offset: 37079},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1198, col: 56, offset: 37078},
+																									pos:        position{line: 1198, col: 56, offset: 37079},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -22680,7 +22680,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 37013},
+																						pos:        position{line: 1196, col: 32, offset: 37014},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -22689,10 +22689,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2855, col: 11, offset: 90466},
+																			pos: position{line: 2855, col: 11, offset: 90467},
 																			run: (*parser).callonRelativeLink115,
 																			expr: &litMatcher{
-																				pos:        position{line: 2855, col: 11, offset: 90466},
+																				pos:        position{line: 2855, col: 11, offset: 90467},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22709,10 +22709,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1429, col: 32, offset: 46086},
+									pos:   position{line: 1429, col: 32, offset: 46087},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1429, col: 44, offset: 46098},
+										pos:  position{line: 1429, col: 44, offset: 46099},
 										name: "InlineAttributes",
 									},
 								},
@@ -22720,63 +22720,63 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1434, col: 5, offset: 46230},
+						pos: position{line: 1434, col: 5, offset: 46231},
 						run: (*parser).callonRelativeLink119,
 						expr: &seqExpr{
-							pos: position{line: 1434, col: 5, offset: 46230},
+							pos: position{line: 1434, col: 5, offset: 46231},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1434, col: 5, offset: 46230},
+									pos:        position{line: 1434, col: 5, offset: 46231},
 									val:        "link:",
 									ignoreCase: false,
 									want:       "\"link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1434, col: 13, offset: 46238},
+									pos:   position{line: 1434, col: 13, offset: 46239},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2834, col: 13, offset: 89710},
+										pos: position{line: 2834, col: 13, offset: 89711},
 										run: (*parser).callonRelativeLink123,
 										expr: &seqExpr{
-											pos: position{line: 2834, col: 13, offset: 89710},
+											pos: position{line: 2834, col: 13, offset: 89711},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2834, col: 13, offset: 89710},
+													pos:   position{line: 2834, col: 13, offset: 89711},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2834, col: 20, offset: 89717},
+														pos: position{line: 2834, col: 20, offset: 89718},
 														expr: &actionExpr{
-															pos: position{line: 2842, col: 11, offset: 89956},
+															pos: position{line: 2842, col: 11, offset: 89957},
 															run: (*parser).callonRelativeLink127,
 															expr: &choiceExpr{
-																pos: position{line: 2842, col: 12, offset: 89957},
+																pos: position{line: 2842, col: 12, offset: 89958},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2842, col: 12, offset: 89957},
+																		pos:        position{line: 2842, col: 12, offset: 89958},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2842, col: 24, offset: 89969},
+																		pos:        position{line: 2842, col: 24, offset: 89970},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2842, col: 37, offset: 89982},
+																		pos:        position{line: 2842, col: 37, offset: 89983},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2842, col: 48, offset: 89993},
+																		pos:        position{line: 2842, col: 48, offset: 89994},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2842, col: 59, offset: 90004},
+																		pos:        position{line: 2842, col: 59, offset: 90005},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22787,38 +22787,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2834, col: 30, offset: 89727},
+													pos:   position{line: 2834, col: 30, offset: 89728},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2847, col: 5, offset: 90068},
+														pos: position{line: 2847, col: 5, offset: 90069},
 														run: (*parser).callonRelativeLink135,
 														expr: &labeledExpr{
-															pos:   position{line: 2847, col: 5, offset: 90068},
+															pos:   position{line: 2847, col: 5, offset: 90069},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2847, col: 14, offset: 90077},
+																pos: position{line: 2847, col: 14, offset: 90078},
 																expr: &choiceExpr{
-																	pos: position{line: 2848, col: 9, offset: 90087},
+																	pos: position{line: 2848, col: 9, offset: 90088},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2848, col: 9, offset: 90087},
+																			pos: position{line: 2848, col: 9, offset: 90088},
 																			run: (*parser).callonRelativeLink139,
 																			expr: &seqExpr{
-																				pos: position{line: 2848, col: 9, offset: 90087},
+																				pos: position{line: 2848, col: 9, offset: 90088},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2848, col: 9, offset: 90087},
+																						pos: position{line: 2848, col: 9, offset: 90088},
 																						expr: &litMatcher{
-																							pos:        position{line: 2848, col: 10, offset: 90088},
+																							pos:        position{line: 2848, col: 10, offset: 90089},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2849, col: 9, offset: 90116},
+																						pos: position{line: 2849, col: 9, offset: 90117},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2849, col: 10, offset: 90117},
+																							pos:        position{line: 2849, col: 10, offset: 90118},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22829,27 +22829,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2852, col: 11, offset: 90329},
+																			pos: position{line: 2852, col: 11, offset: 90330},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2852, col: 11, offset: 90329},
+																					pos:        position{line: 2852, col: 11, offset: 90330},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2852, col: 19, offset: 90337},
+																					pos: position{line: 2852, col: 19, offset: 90338},
 																					expr: &seqExpr{
-																						pos: position{line: 2852, col: 21, offset: 90339},
+																						pos: position{line: 2852, col: 21, offset: 90340},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2852, col: 21, offset: 90339},
+																								pos: position{line: 2852, col: 21, offset: 90340},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 90951},
+																									pos: position{line: 2876, col: 10, offset: 90952},
 																									run: (*parser).callonRelativeLink150,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 90951},
+																										pos:        position{line: 2876, col: 10, offset: 90952},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22858,11 +22858,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2852, col: 28, offset: 90346},
+																								pos: position{line: 2852, col: 28, offset: 90347},
 																								expr: &notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91299},
+																									pos: position{line: 2895, col: 8, offset: 91300},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91300,
+																										line: 2895, col: 9, offset: 91301,
 																									},
 																								},
 																							},
@@ -22872,35 +22872,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 636, col: 5, offset: 20177},
+																			pos: position{line: 636, col: 5, offset: 20178},
 																			run: (*parser).callonRelativeLink155,
 																			expr: &seqExpr{
-																				pos: position{line: 636, col: 5, offset: 20177},
+																				pos: position{line: 636, col: 5, offset: 20178},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 636, col: 5, offset: 20177},
+																						pos: position{line: 636, col: 5, offset: 20178},
 																						run: (*parser).callonRelativeLink157,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 639, col: 5, offset: 20249},
+																						pos:   position{line: 639, col: 5, offset: 20250},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 639, col: 14, offset: 20258},
+																							pos: position{line: 639, col: 14, offset: 20259},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 645, col: 5, offset: 20387},
+																									pos: position{line: 645, col: 5, offset: 20388},
 																									run: (*parser).callonRelativeLink160,
 																									expr: &seqExpr{
-																										pos: position{line: 645, col: 5, offset: 20387},
+																										pos: position{line: 645, col: 5, offset: 20388},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 645, col: 5, offset: 20387},
+																												pos:        position{line: 645, col: 5, offset: 20388},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 645, col: 13, offset: 20395},
+																												pos:   position{line: 645, col: 13, offset: 20396},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9729},
@@ -22920,8 +22920,8 @@ var g = &grammar{
 																																pos: position{line: 318, col: 28, offset: 9739},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 318, col: 29, offset: 9740},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -22932,7 +22932,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 645, col: 32, offset: 20414},
+																												pos:        position{line: 645, col: 32, offset: 20415},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22941,19 +22941,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 652, col: 5, offset: 20655},
+																									pos: position{line: 652, col: 5, offset: 20656},
 																									run: (*parser).callonRelativeLink170,
 																									expr: &seqExpr{
-																										pos: position{line: 652, col: 5, offset: 20655},
+																										pos: position{line: 652, col: 5, offset: 20656},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 652, col: 5, offset: 20655},
+																												pos:        position{line: 652, col: 5, offset: 20656},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 652, col: 9, offset: 20659},
+																												pos:   position{line: 652, col: 9, offset: 20660},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9729},
@@ -22973,8 +22973,8 @@ var g = &grammar{
 																																pos: position{line: 318, col: 28, offset: 9739},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 318, col: 29, offset: 9740},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -22985,7 +22985,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 652, col: 28, offset: 20678},
+																												pos:        position{line: 652, col: 28, offset: 20679},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22994,19 +22994,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 658, col: 25, offset: 20859},
+																									pos: position{line: 658, col: 25, offset: 20860},
 																									run: (*parser).callonRelativeLink180,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 25, offset: 20859},
+																										pos: position{line: 658, col: 25, offset: 20860},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 658, col: 25, offset: 20859},
+																												pos:        position{line: 658, col: 25, offset: 20860},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 37, offset: 20871},
+																												pos:   position{line: 658, col: 37, offset: 20872},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9729},
@@ -23026,8 +23026,8 @@ var g = &grammar{
 																																pos: position{line: 318, col: 28, offset: 9739},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 318, col: 29, offset: 9740},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -23038,33 +23038,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 56, offset: 20890},
+																												pos:   position{line: 658, col: 56, offset: 20891},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 658, col: 62, offset: 20896},
+																													pos: position{line: 658, col: 62, offset: 20897},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21191},
+																														pos: position{line: 666, col: 17, offset: 21192},
 																														run: (*parser).callonRelativeLink191,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21191},
+																															pos: position{line: 666, col: 17, offset: 21192},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21191},
+																																	pos:        position{line: 666, col: 17, offset: 21192},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21195},
+																																	pos:   position{line: 666, col: 21, offset: 21196},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21202},
+																																		pos: position{line: 666, col: 28, offset: 21203},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21202},
+																																				pos: position{line: 666, col: 28, offset: 21203},
 																																				run: (*parser).callonRelativeLink196,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21202},
+																																					pos:        position{line: 666, col: 28, offset: 21203},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23072,12 +23072,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21256},
+																																				pos: position{line: 668, col: 9, offset: 21257},
 																																				run: (*parser).callonRelativeLink198,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21256},
+																																					pos: position{line: 668, col: 9, offset: 21257},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21256},
+																																						pos:        position{line: 668, col: 9, offset: 21257},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23094,7 +23094,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 78, offset: 20912},
+																												pos:        position{line: 658, col: 78, offset: 20913},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23103,19 +23103,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 662, col: 25, offset: 21030},
+																									pos: position{line: 662, col: 25, offset: 21031},
 																									run: (*parser).callonRelativeLink202,
 																									expr: &seqExpr{
-																										pos: position{line: 662, col: 25, offset: 21030},
+																										pos: position{line: 662, col: 25, offset: 21031},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 662, col: 25, offset: 21030},
+																												pos:        position{line: 662, col: 25, offset: 21031},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 38, offset: 21043},
+																												pos:   position{line: 662, col: 38, offset: 21044},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9729},
@@ -23135,8 +23135,8 @@ var g = &grammar{
 																																pos: position{line: 318, col: 28, offset: 9739},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 318, col: 29, offset: 9740},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -23147,33 +23147,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 57, offset: 21062},
+																												pos:   position{line: 662, col: 57, offset: 21063},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 662, col: 63, offset: 21068},
+																													pos: position{line: 662, col: 63, offset: 21069},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21191},
+																														pos: position{line: 666, col: 17, offset: 21192},
 																														run: (*parser).callonRelativeLink213,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21191},
+																															pos: position{line: 666, col: 17, offset: 21192},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21191},
+																																	pos:        position{line: 666, col: 17, offset: 21192},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21195},
+																																	pos:   position{line: 666, col: 21, offset: 21196},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21202},
+																																		pos: position{line: 666, col: 28, offset: 21203},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21202},
+																																				pos: position{line: 666, col: 28, offset: 21203},
 																																				run: (*parser).callonRelativeLink218,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21202},
+																																					pos:        position{line: 666, col: 28, offset: 21203},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23181,12 +23181,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21256},
+																																				pos: position{line: 668, col: 9, offset: 21257},
 																																				run: (*parser).callonRelativeLink220,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21256},
+																																					pos: position{line: 668, col: 9, offset: 21257},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21256},
+																																						pos:        position{line: 668, col: 9, offset: 21257},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23203,7 +23203,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 662, col: 79, offset: 21084},
+																												pos:        position{line: 662, col: 79, offset: 21085},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23218,27 +23218,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1198, col: 23, offset: 37045},
+																			pos: position{line: 1198, col: 23, offset: 37046},
 																			run: (*parser).callonRelativeLink224,
 																			expr: &seqExpr{
-																				pos: position{line: 1198, col: 23, offset: 37045},
+																				pos: position{line: 1198, col: 23, offset: 37046},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 37013},
+																						pos:        position{line: 1196, col: 32, offset: 37014},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1198, col: 51, offset: 37073},
+																						pos:   position{line: 1198, col: 51, offset: 37074},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1198, col: 56, offset: 37078},
+																							pos: position{line: 1198, col: 56, offset: 37079},
 																							run: (*parser).callonRelativeLink228,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1198, col: 56, offset: 37078},
+																								pos: position{line: 1198, col: 56, offset: 37079},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1198, col: 56, offset: 37078},
+																									pos:        position{line: 1198, col: 56, offset: 37079},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -23248,7 +23248,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 37013},
+																						pos:        position{line: 1196, col: 32, offset: 37014},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -23257,10 +23257,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2855, col: 11, offset: 90466},
+																			pos: position{line: 2855, col: 11, offset: 90467},
 																			run: (*parser).callonRelativeLink232,
 																			expr: &litMatcher{
-																				pos:        position{line: 2855, col: 11, offset: 90466},
+																				pos:        position{line: 2855, col: 11, offset: 90467},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23277,10 +23277,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1434, col: 28, offset: 46253},
+									pos:   position{line: 1434, col: 28, offset: 46254},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1434, col: 40, offset: 46265},
+										pos:  position{line: 1434, col: 40, offset: 46266},
 										name: "InlineAttributes",
 									},
 								},
@@ -23292,75 +23292,75 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalLink",
-			pos:  position{line: 1438, col: 1, offset: 46381},
+			pos:  position{line: 1438, col: 1, offset: 46382},
 			expr: &choiceExpr{
-				pos: position{line: 1441, col: 5, offset: 46543},
+				pos: position{line: 1441, col: 5, offset: 46544},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1441, col: 5, offset: 46543},
+						pos: position{line: 1441, col: 5, offset: 46544},
 						run: (*parser).callonExternalLink2,
 						expr: &seqExpr{
-							pos: position{line: 1441, col: 5, offset: 46543},
+							pos: position{line: 1441, col: 5, offset: 46544},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1441, col: 5, offset: 46543},
+									pos:        position{line: 1441, col: 5, offset: 46544},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1441, col: 9, offset: 46547},
+									pos:   position{line: 1441, col: 9, offset: 46548},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2838, col: 23, offset: 89837},
+										pos: position{line: 2838, col: 23, offset: 89838},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2838, col: 23, offset: 89837},
+											pos: position{line: 2838, col: 23, offset: 89838},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2838, col: 23, offset: 89837},
+													pos: position{line: 2838, col: 23, offset: 89838},
 													expr: &litMatcher{
-														pos:        position{line: 2838, col: 24, offset: 89838},
+														pos:        position{line: 2838, col: 24, offset: 89839},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2838, col: 28, offset: 89842},
+													pos:   position{line: 2838, col: 28, offset: 89843},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2842, col: 11, offset: 89956},
+														pos: position{line: 2842, col: 11, offset: 89957},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2842, col: 12, offset: 89957},
+															pos: position{line: 2842, col: 12, offset: 89958},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2842, col: 12, offset: 89957},
+																	pos:        position{line: 2842, col: 12, offset: 89958},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2842, col: 24, offset: 89969},
+																	pos:        position{line: 2842, col: 24, offset: 89970},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2842, col: 37, offset: 89982},
+																	pos:        position{line: 2842, col: 37, offset: 89983},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2842, col: 48, offset: 89993},
+																	pos:        position{line: 2842, col: 48, offset: 89994},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2842, col: 59, offset: 90004},
+																	pos:        position{line: 2842, col: 59, offset: 90005},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23370,38 +23370,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2838, col: 44, offset: 89858},
+													pos:   position{line: 2838, col: 44, offset: 89859},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2847, col: 5, offset: 90068},
+														pos: position{line: 2847, col: 5, offset: 90069},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2847, col: 5, offset: 90068},
+															pos:   position{line: 2847, col: 5, offset: 90069},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2847, col: 14, offset: 90077},
+																pos: position{line: 2847, col: 14, offset: 90078},
 																expr: &choiceExpr{
-																	pos: position{line: 2848, col: 9, offset: 90087},
+																	pos: position{line: 2848, col: 9, offset: 90088},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2848, col: 9, offset: 90087},
+																			pos: position{line: 2848, col: 9, offset: 90088},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2848, col: 9, offset: 90087},
+																				pos: position{line: 2848, col: 9, offset: 90088},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2848, col: 9, offset: 90087},
+																						pos: position{line: 2848, col: 9, offset: 90088},
 																						expr: &litMatcher{
-																							pos:        position{line: 2848, col: 10, offset: 90088},
+																							pos:        position{line: 2848, col: 10, offset: 90089},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2849, col: 9, offset: 90116},
+																						pos: position{line: 2849, col: 9, offset: 90117},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2849, col: 10, offset: 90117},
+																							pos:        position{line: 2849, col: 10, offset: 90118},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23412,27 +23412,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2852, col: 11, offset: 90329},
+																			pos: position{line: 2852, col: 11, offset: 90330},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2852, col: 11, offset: 90329},
+																					pos:        position{line: 2852, col: 11, offset: 90330},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2852, col: 19, offset: 90337},
+																					pos: position{line: 2852, col: 19, offset: 90338},
 																					expr: &seqExpr{
-																						pos: position{line: 2852, col: 21, offset: 90339},
+																						pos: position{line: 2852, col: 21, offset: 90340},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2852, col: 21, offset: 90339},
+																								pos: position{line: 2852, col: 21, offset: 90340},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 90951},
+																									pos: position{line: 2876, col: 10, offset: 90952},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 90951},
+																										pos:        position{line: 2876, col: 10, offset: 90952},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23441,11 +23441,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2852, col: 28, offset: 90346},
+																								pos: position{line: 2852, col: 28, offset: 90347},
 																								expr: &notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91299},
+																									pos: position{line: 2895, col: 8, offset: 91300},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91300,
+																										line: 2895, col: 9, offset: 91301,
 																									},
 																								},
 																							},
@@ -23455,35 +23455,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 636, col: 5, offset: 20177},
+																			pos: position{line: 636, col: 5, offset: 20178},
 																			run: (*parser).callonExternalLink39,
 																			expr: &seqExpr{
-																				pos: position{line: 636, col: 5, offset: 20177},
+																				pos: position{line: 636, col: 5, offset: 20178},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 636, col: 5, offset: 20177},
+																						pos: position{line: 636, col: 5, offset: 20178},
 																						run: (*parser).callonExternalLink41,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 639, col: 5, offset: 20249},
+																						pos:   position{line: 639, col: 5, offset: 20250},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 639, col: 14, offset: 20258},
+																							pos: position{line: 639, col: 14, offset: 20259},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 645, col: 5, offset: 20387},
+																									pos: position{line: 645, col: 5, offset: 20388},
 																									run: (*parser).callonExternalLink44,
 																									expr: &seqExpr{
-																										pos: position{line: 645, col: 5, offset: 20387},
+																										pos: position{line: 645, col: 5, offset: 20388},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 645, col: 5, offset: 20387},
+																												pos:        position{line: 645, col: 5, offset: 20388},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 645, col: 13, offset: 20395},
+																												pos:   position{line: 645, col: 13, offset: 20396},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9729},
@@ -23503,8 +23503,8 @@ var g = &grammar{
 																																pos: position{line: 318, col: 28, offset: 9739},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 318, col: 29, offset: 9740},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -23515,7 +23515,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 645, col: 32, offset: 20414},
+																												pos:        position{line: 645, col: 32, offset: 20415},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23524,19 +23524,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 652, col: 5, offset: 20655},
+																									pos: position{line: 652, col: 5, offset: 20656},
 																									run: (*parser).callonExternalLink54,
 																									expr: &seqExpr{
-																										pos: position{line: 652, col: 5, offset: 20655},
+																										pos: position{line: 652, col: 5, offset: 20656},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 652, col: 5, offset: 20655},
+																												pos:        position{line: 652, col: 5, offset: 20656},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 652, col: 9, offset: 20659},
+																												pos:   position{line: 652, col: 9, offset: 20660},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9729},
@@ -23556,8 +23556,8 @@ var g = &grammar{
 																																pos: position{line: 318, col: 28, offset: 9739},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 318, col: 29, offset: 9740},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -23568,7 +23568,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 652, col: 28, offset: 20678},
+																												pos:        position{line: 652, col: 28, offset: 20679},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23577,19 +23577,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 658, col: 25, offset: 20859},
+																									pos: position{line: 658, col: 25, offset: 20860},
 																									run: (*parser).callonExternalLink64,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 25, offset: 20859},
+																										pos: position{line: 658, col: 25, offset: 20860},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 658, col: 25, offset: 20859},
+																												pos:        position{line: 658, col: 25, offset: 20860},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 37, offset: 20871},
+																												pos:   position{line: 658, col: 37, offset: 20872},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9729},
@@ -23609,8 +23609,8 @@ var g = &grammar{
 																																pos: position{line: 318, col: 28, offset: 9739},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 318, col: 29, offset: 9740},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -23621,33 +23621,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 56, offset: 20890},
+																												pos:   position{line: 658, col: 56, offset: 20891},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 658, col: 62, offset: 20896},
+																													pos: position{line: 658, col: 62, offset: 20897},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21191},
+																														pos: position{line: 666, col: 17, offset: 21192},
 																														run: (*parser).callonExternalLink75,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21191},
+																															pos: position{line: 666, col: 17, offset: 21192},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21191},
+																																	pos:        position{line: 666, col: 17, offset: 21192},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21195},
+																																	pos:   position{line: 666, col: 21, offset: 21196},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21202},
+																																		pos: position{line: 666, col: 28, offset: 21203},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21202},
+																																				pos: position{line: 666, col: 28, offset: 21203},
 																																				run: (*parser).callonExternalLink80,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21202},
+																																					pos:        position{line: 666, col: 28, offset: 21203},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23655,12 +23655,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21256},
+																																				pos: position{line: 668, col: 9, offset: 21257},
 																																				run: (*parser).callonExternalLink82,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21256},
+																																					pos: position{line: 668, col: 9, offset: 21257},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21256},
+																																						pos:        position{line: 668, col: 9, offset: 21257},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23677,7 +23677,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 78, offset: 20912},
+																												pos:        position{line: 658, col: 78, offset: 20913},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23686,19 +23686,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 662, col: 25, offset: 21030},
+																									pos: position{line: 662, col: 25, offset: 21031},
 																									run: (*parser).callonExternalLink86,
 																									expr: &seqExpr{
-																										pos: position{line: 662, col: 25, offset: 21030},
+																										pos: position{line: 662, col: 25, offset: 21031},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 662, col: 25, offset: 21030},
+																												pos:        position{line: 662, col: 25, offset: 21031},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 38, offset: 21043},
+																												pos:   position{line: 662, col: 38, offset: 21044},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9729},
@@ -23718,8 +23718,8 @@ var g = &grammar{
 																																pos: position{line: 318, col: 28, offset: 9739},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 318, col: 29, offset: 9740},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -23730,33 +23730,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 57, offset: 21062},
+																												pos:   position{line: 662, col: 57, offset: 21063},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 662, col: 63, offset: 21068},
+																													pos: position{line: 662, col: 63, offset: 21069},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21191},
+																														pos: position{line: 666, col: 17, offset: 21192},
 																														run: (*parser).callonExternalLink97,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21191},
+																															pos: position{line: 666, col: 17, offset: 21192},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21191},
+																																	pos:        position{line: 666, col: 17, offset: 21192},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21195},
+																																	pos:   position{line: 666, col: 21, offset: 21196},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21202},
+																																		pos: position{line: 666, col: 28, offset: 21203},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21202},
+																																				pos: position{line: 666, col: 28, offset: 21203},
 																																				run: (*parser).callonExternalLink102,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21202},
+																																					pos:        position{line: 666, col: 28, offset: 21203},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23764,12 +23764,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21256},
+																																				pos: position{line: 668, col: 9, offset: 21257},
 																																				run: (*parser).callonExternalLink104,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21256},
+																																					pos: position{line: 668, col: 9, offset: 21257},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21256},
+																																						pos:        position{line: 668, col: 9, offset: 21257},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23786,7 +23786,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 662, col: 79, offset: 21084},
+																												pos:        position{line: 662, col: 79, offset: 21085},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23801,27 +23801,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1198, col: 23, offset: 37045},
+																			pos: position{line: 1198, col: 23, offset: 37046},
 																			run: (*parser).callonExternalLink108,
 																			expr: &seqExpr{
-																				pos: position{line: 1198, col: 23, offset: 37045},
+																				pos: position{line: 1198, col: 23, offset: 37046},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 37013},
+																						pos:        position{line: 1196, col: 32, offset: 37014},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1198, col: 51, offset: 37073},
+																						pos:   position{line: 1198, col: 51, offset: 37074},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1198, col: 56, offset: 37078},
+																							pos: position{line: 1198, col: 56, offset: 37079},
 																							run: (*parser).callonExternalLink112,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1198, col: 56, offset: 37078},
+																								pos: position{line: 1198, col: 56, offset: 37079},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1198, col: 56, offset: 37078},
+																									pos:        position{line: 1198, col: 56, offset: 37079},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -23831,7 +23831,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 37013},
+																						pos:        position{line: 1196, col: 32, offset: 37014},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -23840,10 +23840,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2855, col: 11, offset: 90466},
+																			pos: position{line: 2855, col: 11, offset: 90467},
 																			run: (*parser).callonExternalLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2855, col: 11, offset: 90466},
+																				pos:        position{line: 2855, col: 11, offset: 90467},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23860,12 +23860,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1441, col: 34, offset: 46572},
+									pos:   position{line: 1441, col: 34, offset: 46573},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1441, col: 45, offset: 46583},
+										pos: position{line: 1441, col: 45, offset: 46584},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1441, col: 46, offset: 46584},
+											pos:  position{line: 1441, col: 46, offset: 46585},
 											name: "InlineAttributes",
 										},
 									},
@@ -23874,64 +23874,64 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1446, col: 5, offset: 46717},
+						pos: position{line: 1446, col: 5, offset: 46718},
 						run: (*parser).callonExternalLink121,
 						expr: &seqExpr{
-							pos: position{line: 1446, col: 5, offset: 46717},
+							pos: position{line: 1446, col: 5, offset: 46718},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1446, col: 5, offset: 46717},
+									pos:   position{line: 1446, col: 5, offset: 46718},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2838, col: 23, offset: 89837},
+										pos: position{line: 2838, col: 23, offset: 89838},
 										run: (*parser).callonExternalLink124,
 										expr: &seqExpr{
-											pos: position{line: 2838, col: 23, offset: 89837},
+											pos: position{line: 2838, col: 23, offset: 89838},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2838, col: 23, offset: 89837},
+													pos: position{line: 2838, col: 23, offset: 89838},
 													expr: &litMatcher{
-														pos:        position{line: 2838, col: 24, offset: 89838},
+														pos:        position{line: 2838, col: 24, offset: 89839},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2838, col: 28, offset: 89842},
+													pos:   position{line: 2838, col: 28, offset: 89843},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2842, col: 11, offset: 89956},
+														pos: position{line: 2842, col: 11, offset: 89957},
 														run: (*parser).callonExternalLink129,
 														expr: &choiceExpr{
-															pos: position{line: 2842, col: 12, offset: 89957},
+															pos: position{line: 2842, col: 12, offset: 89958},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2842, col: 12, offset: 89957},
+																	pos:        position{line: 2842, col: 12, offset: 89958},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2842, col: 24, offset: 89969},
+																	pos:        position{line: 2842, col: 24, offset: 89970},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2842, col: 37, offset: 89982},
+																	pos:        position{line: 2842, col: 37, offset: 89983},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2842, col: 48, offset: 89993},
+																	pos:        position{line: 2842, col: 48, offset: 89994},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2842, col: 59, offset: 90004},
+																	pos:        position{line: 2842, col: 59, offset: 90005},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23941,38 +23941,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2838, col: 44, offset: 89858},
+													pos:   position{line: 2838, col: 44, offset: 89859},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2847, col: 5, offset: 90068},
+														pos: position{line: 2847, col: 5, offset: 90069},
 														run: (*parser).callonExternalLink137,
 														expr: &labeledExpr{
-															pos:   position{line: 2847, col: 5, offset: 90068},
+															pos:   position{line: 2847, col: 5, offset: 90069},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2847, col: 14, offset: 90077},
+																pos: position{line: 2847, col: 14, offset: 90078},
 																expr: &choiceExpr{
-																	pos: position{line: 2848, col: 9, offset: 90087},
+																	pos: position{line: 2848, col: 9, offset: 90088},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2848, col: 9, offset: 90087},
+																			pos: position{line: 2848, col: 9, offset: 90088},
 																			run: (*parser).callonExternalLink141,
 																			expr: &seqExpr{
-																				pos: position{line: 2848, col: 9, offset: 90087},
+																				pos: position{line: 2848, col: 9, offset: 90088},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2848, col: 9, offset: 90087},
+																						pos: position{line: 2848, col: 9, offset: 90088},
 																						expr: &litMatcher{
-																							pos:        position{line: 2848, col: 10, offset: 90088},
+																							pos:        position{line: 2848, col: 10, offset: 90089},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2849, col: 9, offset: 90116},
+																						pos: position{line: 2849, col: 9, offset: 90117},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2849, col: 10, offset: 90117},
+																							pos:        position{line: 2849, col: 10, offset: 90118},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23983,27 +23983,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2852, col: 11, offset: 90329},
+																			pos: position{line: 2852, col: 11, offset: 90330},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2852, col: 11, offset: 90329},
+																					pos:        position{line: 2852, col: 11, offset: 90330},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2852, col: 19, offset: 90337},
+																					pos: position{line: 2852, col: 19, offset: 90338},
 																					expr: &seqExpr{
-																						pos: position{line: 2852, col: 21, offset: 90339},
+																						pos: position{line: 2852, col: 21, offset: 90340},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2852, col: 21, offset: 90339},
+																								pos: position{line: 2852, col: 21, offset: 90340},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 90951},
+																									pos: position{line: 2876, col: 10, offset: 90952},
 																									run: (*parser).callonExternalLink152,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 90951},
+																										pos:        position{line: 2876, col: 10, offset: 90952},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24012,11 +24012,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2852, col: 28, offset: 90346},
+																								pos: position{line: 2852, col: 28, offset: 90347},
 																								expr: &notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91299},
+																									pos: position{line: 2895, col: 8, offset: 91300},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91300,
+																										line: 2895, col: 9, offset: 91301,
 																									},
 																								},
 																							},
@@ -24026,35 +24026,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 636, col: 5, offset: 20177},
+																			pos: position{line: 636, col: 5, offset: 20178},
 																			run: (*parser).callonExternalLink157,
 																			expr: &seqExpr{
-																				pos: position{line: 636, col: 5, offset: 20177},
+																				pos: position{line: 636, col: 5, offset: 20178},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 636, col: 5, offset: 20177},
+																						pos: position{line: 636, col: 5, offset: 20178},
 																						run: (*parser).callonExternalLink159,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 639, col: 5, offset: 20249},
+																						pos:   position{line: 639, col: 5, offset: 20250},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 639, col: 14, offset: 20258},
+																							pos: position{line: 639, col: 14, offset: 20259},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 645, col: 5, offset: 20387},
+																									pos: position{line: 645, col: 5, offset: 20388},
 																									run: (*parser).callonExternalLink162,
 																									expr: &seqExpr{
-																										pos: position{line: 645, col: 5, offset: 20387},
+																										pos: position{line: 645, col: 5, offset: 20388},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 645, col: 5, offset: 20387},
+																												pos:        position{line: 645, col: 5, offset: 20388},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 645, col: 13, offset: 20395},
+																												pos:   position{line: 645, col: 13, offset: 20396},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9729},
@@ -24074,8 +24074,8 @@ var g = &grammar{
 																																pos: position{line: 318, col: 28, offset: 9739},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 318, col: 29, offset: 9740},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -24086,7 +24086,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 645, col: 32, offset: 20414},
+																												pos:        position{line: 645, col: 32, offset: 20415},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24095,19 +24095,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 652, col: 5, offset: 20655},
+																									pos: position{line: 652, col: 5, offset: 20656},
 																									run: (*parser).callonExternalLink172,
 																									expr: &seqExpr{
-																										pos: position{line: 652, col: 5, offset: 20655},
+																										pos: position{line: 652, col: 5, offset: 20656},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 652, col: 5, offset: 20655},
+																												pos:        position{line: 652, col: 5, offset: 20656},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 652, col: 9, offset: 20659},
+																												pos:   position{line: 652, col: 9, offset: 20660},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9729},
@@ -24127,8 +24127,8 @@ var g = &grammar{
 																																pos: position{line: 318, col: 28, offset: 9739},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 318, col: 29, offset: 9740},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -24139,7 +24139,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 652, col: 28, offset: 20678},
+																												pos:        position{line: 652, col: 28, offset: 20679},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24148,19 +24148,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 658, col: 25, offset: 20859},
+																									pos: position{line: 658, col: 25, offset: 20860},
 																									run: (*parser).callonExternalLink182,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 25, offset: 20859},
+																										pos: position{line: 658, col: 25, offset: 20860},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 658, col: 25, offset: 20859},
+																												pos:        position{line: 658, col: 25, offset: 20860},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 37, offset: 20871},
+																												pos:   position{line: 658, col: 37, offset: 20872},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9729},
@@ -24180,8 +24180,8 @@ var g = &grammar{
 																																pos: position{line: 318, col: 28, offset: 9739},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 318, col: 29, offset: 9740},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -24192,33 +24192,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 56, offset: 20890},
+																												pos:   position{line: 658, col: 56, offset: 20891},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 658, col: 62, offset: 20896},
+																													pos: position{line: 658, col: 62, offset: 20897},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21191},
+																														pos: position{line: 666, col: 17, offset: 21192},
 																														run: (*parser).callonExternalLink193,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21191},
+																															pos: position{line: 666, col: 17, offset: 21192},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21191},
+																																	pos:        position{line: 666, col: 17, offset: 21192},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21195},
+																																	pos:   position{line: 666, col: 21, offset: 21196},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21202},
+																																		pos: position{line: 666, col: 28, offset: 21203},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21202},
+																																				pos: position{line: 666, col: 28, offset: 21203},
 																																				run: (*parser).callonExternalLink198,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21202},
+																																					pos:        position{line: 666, col: 28, offset: 21203},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24226,12 +24226,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21256},
+																																				pos: position{line: 668, col: 9, offset: 21257},
 																																				run: (*parser).callonExternalLink200,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21256},
+																																					pos: position{line: 668, col: 9, offset: 21257},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21256},
+																																						pos:        position{line: 668, col: 9, offset: 21257},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24248,7 +24248,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 78, offset: 20912},
+																												pos:        position{line: 658, col: 78, offset: 20913},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24257,19 +24257,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 662, col: 25, offset: 21030},
+																									pos: position{line: 662, col: 25, offset: 21031},
 																									run: (*parser).callonExternalLink204,
 																									expr: &seqExpr{
-																										pos: position{line: 662, col: 25, offset: 21030},
+																										pos: position{line: 662, col: 25, offset: 21031},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 662, col: 25, offset: 21030},
+																												pos:        position{line: 662, col: 25, offset: 21031},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 38, offset: 21043},
+																												pos:   position{line: 662, col: 38, offset: 21044},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9729},
@@ -24289,8 +24289,8 @@ var g = &grammar{
 																																pos: position{line: 318, col: 28, offset: 9739},
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 318, col: 29, offset: 9740},
-																																	val:        "[-\\pL\\pN]",
-																																	chars:      []rune{'-'},
+																																	val:        "[_-\\pL\\pN]",
+																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																	ignoreCase: false,
 																																	inverted:   false,
@@ -24301,33 +24301,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 57, offset: 21062},
+																												pos:   position{line: 662, col: 57, offset: 21063},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 662, col: 63, offset: 21068},
+																													pos: position{line: 662, col: 63, offset: 21069},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21191},
+																														pos: position{line: 666, col: 17, offset: 21192},
 																														run: (*parser).callonExternalLink215,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21191},
+																															pos: position{line: 666, col: 17, offset: 21192},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21191},
+																																	pos:        position{line: 666, col: 17, offset: 21192},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21195},
+																																	pos:   position{line: 666, col: 21, offset: 21196},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21202},
+																																		pos: position{line: 666, col: 28, offset: 21203},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21202},
+																																				pos: position{line: 666, col: 28, offset: 21203},
 																																				run: (*parser).callonExternalLink220,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21202},
+																																					pos:        position{line: 666, col: 28, offset: 21203},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24335,12 +24335,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21256},
+																																				pos: position{line: 668, col: 9, offset: 21257},
 																																				run: (*parser).callonExternalLink222,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21256},
+																																					pos: position{line: 668, col: 9, offset: 21257},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21256},
+																																						pos:        position{line: 668, col: 9, offset: 21257},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24357,7 +24357,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 662, col: 79, offset: 21084},
+																												pos:        position{line: 662, col: 79, offset: 21085},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24372,27 +24372,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1198, col: 23, offset: 37045},
+																			pos: position{line: 1198, col: 23, offset: 37046},
 																			run: (*parser).callonExternalLink226,
 																			expr: &seqExpr{
-																				pos: position{line: 1198, col: 23, offset: 37045},
+																				pos: position{line: 1198, col: 23, offset: 37046},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 37013},
+																						pos:        position{line: 1196, col: 32, offset: 37014},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1198, col: 51, offset: 37073},
+																						pos:   position{line: 1198, col: 51, offset: 37074},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1198, col: 56, offset: 37078},
+																							pos: position{line: 1198, col: 56, offset: 37079},
 																							run: (*parser).callonExternalLink230,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1198, col: 56, offset: 37078},
+																								pos: position{line: 1198, col: 56, offset: 37079},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1198, col: 56, offset: 37078},
+																									pos:        position{line: 1198, col: 56, offset: 37079},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -24402,7 +24402,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 37013},
+																						pos:        position{line: 1196, col: 32, offset: 37014},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -24411,10 +24411,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2855, col: 11, offset: 90466},
+																			pos: position{line: 2855, col: 11, offset: 90467},
 																			run: (*parser).callonExternalLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2855, col: 11, offset: 90466},
+																				pos:        position{line: 2855, col: 11, offset: 90467},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24431,12 +24431,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1446, col: 30, offset: 46742},
+									pos:   position{line: 1446, col: 30, offset: 46743},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1446, col: 41, offset: 46753},
+										pos: position{line: 1446, col: 41, offset: 46754},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1446, col: 42, offset: 46754},
+											pos:  position{line: 1446, col: 42, offset: 46755},
 											name: "InlineAttributes",
 										},
 									},
@@ -24449,41 +24449,41 @@ var g = &grammar{
 		},
 		{
 			name: "ListElements",
-			pos:  position{line: 1480, col: 1, offset: 47895},
+			pos:  position{line: 1480, col: 1, offset: 47896},
 			expr: &actionExpr{
-				pos: position{line: 1481, col: 5, offset: 47916},
+				pos: position{line: 1481, col: 5, offset: 47917},
 				run: (*parser).callonListElements1,
 				expr: &seqExpr{
-					pos: position{line: 1481, col: 5, offset: 47916},
+					pos: position{line: 1481, col: 5, offset: 47917},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1481, col: 5, offset: 47916},
+							pos:   position{line: 1481, col: 5, offset: 47917},
 							label: "firstElement",
 							expr: &choiceExpr{
-								pos: position{line: 1487, col: 5, offset: 48118},
+								pos: position{line: 1487, col: 5, offset: 48119},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1580, col: 5, offset: 51052},
+										pos: position{line: 1580, col: 5, offset: 51053},
 										run: (*parser).callonListElements5,
 										expr: &seqExpr{
-											pos: position{line: 1580, col: 5, offset: 51052},
+											pos: position{line: 1580, col: 5, offset: 51053},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1580, col: 5, offset: 51052},
+													pos:   position{line: 1580, col: 5, offset: 51053},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1587, col: 5, offset: 51260},
+														pos: position{line: 1587, col: 5, offset: 51261},
 														run: (*parser).callonListElements8,
 														expr: &seqExpr{
-															pos: position{line: 1587, col: 5, offset: 51260},
+															pos: position{line: 1587, col: 5, offset: 51261},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1587, col: 5, offset: 51260},
+																	pos: position{line: 1587, col: 5, offset: 51261},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 90951},
+																		pos: position{line: 2876, col: 10, offset: 90952},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 90951},
+																			pos:        position{line: 2876, col: 10, offset: 90952},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24492,27 +24492,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1587, col: 12, offset: 51267},
+																	pos:   position{line: 1587, col: 12, offset: 51268},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1589, col: 9, offset: 51330},
+																		pos: position{line: 1589, col: 9, offset: 51331},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1589, col: 9, offset: 51330},
+																				pos: position{line: 1589, col: 9, offset: 51331},
 																				run: (*parser).callonListElements15,
 																				expr: &seqExpr{
-																					pos: position{line: 1589, col: 9, offset: 51330},
+																					pos: position{line: 1589, col: 9, offset: 51331},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1589, col: 9, offset: 51330},
+																							pos:   position{line: 1589, col: 9, offset: 51331},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1589, col: 16, offset: 51337},
+																								pos: position{line: 1589, col: 16, offset: 51338},
 																								run: (*parser).callonListElements18,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1589, col: 16, offset: 51337},
+																									pos: position{line: 1589, col: 16, offset: 51338},
 																									expr: &litMatcher{
-																										pos:        position{line: 1589, col: 17, offset: 51338},
+																										pos:        position{line: 1589, col: 17, offset: 51339},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -24521,22 +24521,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1593, col: 9, offset: 51438},
+																							pos: position{line: 1593, col: 9, offset: 51439},
 																							run: (*parser).callonListElements21,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1612, col: 11, offset: 52155},
+																				pos: position{line: 1612, col: 11, offset: 52156},
 																				run: (*parser).callonListElements22,
 																				expr: &seqExpr{
-																					pos: position{line: 1612, col: 11, offset: 52155},
+																					pos: position{line: 1612, col: 11, offset: 52156},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1612, col: 11, offset: 52155},
+																							pos: position{line: 1612, col: 11, offset: 52156},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1612, col: 12, offset: 52156},
+																								pos:        position{line: 1612, col: 12, offset: 52157},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -24544,7 +24544,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1612, col: 20, offset: 52164},
+																							pos:        position{line: 1612, col: 20, offset: 52165},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24553,20 +24553,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1614, col: 13, offset: 52281},
+																				pos: position{line: 1614, col: 13, offset: 52282},
 																				run: (*parser).callonListElements27,
 																				expr: &seqExpr{
-																					pos: position{line: 1614, col: 13, offset: 52281},
+																					pos: position{line: 1614, col: 13, offset: 52282},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1614, col: 14, offset: 52282},
+																							pos:        position{line: 1614, col: 14, offset: 52283},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1614, col: 21, offset: 52289},
+																							pos:        position{line: 1614, col: 21, offset: 52290},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24575,20 +24575,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1616, col: 13, offset: 52409},
+																				pos: position{line: 1616, col: 13, offset: 52410},
 																				run: (*parser).callonListElements31,
 																				expr: &seqExpr{
-																					pos: position{line: 1616, col: 13, offset: 52409},
+																					pos: position{line: 1616, col: 13, offset: 52410},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1616, col: 14, offset: 52410},
+																							pos:        position{line: 1616, col: 14, offset: 52411},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1616, col: 21, offset: 52417},
+																							pos:        position{line: 1616, col: 21, offset: 52418},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24597,15 +24597,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1618, col: 13, offset: 52537},
+																				pos: position{line: 1618, col: 13, offset: 52538},
 																				run: (*parser).callonListElements35,
 																				expr: &seqExpr{
-																					pos: position{line: 1618, col: 13, offset: 52537},
+																					pos: position{line: 1618, col: 13, offset: 52538},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1618, col: 13, offset: 52537},
+																							pos: position{line: 1618, col: 13, offset: 52538},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1618, col: 14, offset: 52538},
+																								pos:        position{line: 1618, col: 14, offset: 52539},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -24613,7 +24613,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1618, col: 26, offset: 52550},
+																							pos:        position{line: 1618, col: 26, offset: 52551},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -24622,15 +24622,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1620, col: 13, offset: 52670},
+																				pos: position{line: 1620, col: 13, offset: 52671},
 																				run: (*parser).callonListElements40,
 																				expr: &seqExpr{
-																					pos: position{line: 1620, col: 13, offset: 52670},
+																					pos: position{line: 1620, col: 13, offset: 52671},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1620, col: 13, offset: 52670},
+																							pos: position{line: 1620, col: 13, offset: 52671},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1620, col: 14, offset: 52671},
+																								pos:        position{line: 1620, col: 14, offset: 52672},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -24638,7 +24638,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1620, col: 26, offset: 52683},
+																							pos:        position{line: 1620, col: 26, offset: 52684},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -24650,12 +24650,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2880, col: 11, offset: 91012},
+																	pos: position{line: 2880, col: 11, offset: 91013},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2880, col: 11, offset: 91012},
+																		pos: position{line: 2880, col: 11, offset: 91013},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 11, offset: 91012},
+																			pos:        position{line: 2880, col: 11, offset: 91013},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24668,26 +24668,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1581, col: 5, offset: 51091},
+													pos:   position{line: 1581, col: 5, offset: 51092},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1528, col: 5, offset: 49558},
+														pos: position{line: 1528, col: 5, offset: 49559},
 														run: (*parser).callonListElements49,
 														expr: &seqExpr{
-															pos: position{line: 1528, col: 5, offset: 49558},
+															pos: position{line: 1528, col: 5, offset: 49559},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1528, col: 5, offset: 49558},
+																	pos:   position{line: 1528, col: 5, offset: 49559},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1528, col: 14, offset: 49567},
+																		pos: position{line: 1528, col: 14, offset: 49568},
 																		expr: &actionExpr{
-																			pos: position{line: 1528, col: 15, offset: 49568},
+																			pos: position{line: 1528, col: 15, offset: 49569},
 																			run: (*parser).callonListElements53,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1528, col: 15, offset: 49568},
+																				pos: position{line: 1528, col: 15, offset: 49569},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1528, col: 15, offset: 49568},
+																					pos:        position{line: 1528, col: 15, offset: 49569},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -24698,28 +24698,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91349},
+																	pos: position{line: 2898, col: 8, offset: 91350},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91122},
+																			pos: position{line: 2885, col: 12, offset: 91123},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91123},
+																				pos: position{line: 2885, col: 13, offset: 91124},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91123},
+																						pos:        position{line: 2885, col: 13, offset: 91124},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91130},
+																						pos:        position{line: 2885, col: 20, offset: 91131},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91139},
+																						pos:        position{line: 2885, col: 29, offset: 91140},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -24728,9 +24728,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91299},
+																			pos: position{line: 2895, col: 8, offset: 91300},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91300,
+																				line: 2895, col: 9, offset: 91301,
 																			},
 																		},
 																	},
@@ -24743,27 +24743,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1630, col: 5, offset: 52949},
+										pos: position{line: 1630, col: 5, offset: 52950},
 										run: (*parser).callonListElements64,
 										expr: &seqExpr{
-											pos: position{line: 1630, col: 5, offset: 52949},
+											pos: position{line: 1630, col: 5, offset: 52950},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1630, col: 5, offset: 52949},
+													pos:   position{line: 1630, col: 5, offset: 52950},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1637, col: 5, offset: 53222},
+														pos: position{line: 1637, col: 5, offset: 53223},
 														run: (*parser).callonListElements67,
 														expr: &seqExpr{
-															pos: position{line: 1637, col: 5, offset: 53222},
+															pos: position{line: 1637, col: 5, offset: 53223},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1637, col: 5, offset: 53222},
+																	pos: position{line: 1637, col: 5, offset: 53223},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 90951},
+																		pos: position{line: 2876, col: 10, offset: 90952},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 90951},
+																			pos:        position{line: 2876, col: 10, offset: 90952},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24772,24 +24772,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1638, col: 5, offset: 53234},
+																	pos:   position{line: 1638, col: 5, offset: 53235},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1639, col: 9, offset: 53250},
+																		pos: position{line: 1639, col: 9, offset: 53251},
 																		run: (*parser).callonListElements73,
 																		expr: &choiceExpr{
-																			pos: position{line: 1639, col: 10, offset: 53251},
+																			pos: position{line: 1639, col: 10, offset: 53252},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1639, col: 11, offset: 53252},
+																					pos:        position{line: 1639, col: 11, offset: 53253},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1639, col: 18, offset: 53259},
+																					pos: position{line: 1639, col: 18, offset: 53260},
 																					expr: &litMatcher{
-																						pos:        position{line: 1639, col: 19, offset: 53260},
+																						pos:        position{line: 1639, col: 19, offset: 53261},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -24800,16 +24800,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1642, col: 7, offset: 53350},
+																	pos: position{line: 1642, col: 7, offset: 53351},
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2880, col: 11, offset: 91012},
+																	pos: position{line: 2880, col: 11, offset: 91013},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2880, col: 11, offset: 91012},
+																		pos: position{line: 2880, col: 11, offset: 91013},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 11, offset: 91012},
+																			pos:        position{line: 2880, col: 11, offset: 91013},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24822,56 +24822,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1631, col: 5, offset: 52990},
+													pos:   position{line: 1631, col: 5, offset: 52991},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1631, col: 16, offset: 53001},
+														pos: position{line: 1631, col: 16, offset: 53002},
 														expr: &actionExpr{
-															pos: position{line: 1652, col: 5, offset: 53615},
+															pos: position{line: 1652, col: 5, offset: 53616},
 															run: (*parser).callonListElements84,
 															expr: &seqExpr{
-																pos: position{line: 1652, col: 5, offset: 53615},
+																pos: position{line: 1652, col: 5, offset: 53616},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1652, col: 5, offset: 53615},
+																		pos: position{line: 1652, col: 5, offset: 53616},
 																		expr: &litMatcher{
-																			pos:        position{line: 1652, col: 6, offset: 53616},
+																			pos:        position{line: 1652, col: 6, offset: 53617},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1652, col: 10, offset: 53620},
+																		pos:   position{line: 1652, col: 10, offset: 53621},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1653, col: 7, offset: 53634},
+																			pos: position{line: 1653, col: 7, offset: 53635},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1653, col: 7, offset: 53634},
+																					pos: position{line: 1653, col: 7, offset: 53635},
 																					run: (*parser).callonListElements90,
 																					expr: &litMatcher{
-																						pos:        position{line: 1653, col: 7, offset: 53634},
+																						pos:        position{line: 1653, col: 7, offset: 53635},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1654, col: 7, offset: 53679},
+																					pos: position{line: 1654, col: 7, offset: 53680},
 																					run: (*parser).callonListElements92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1654, col: 7, offset: 53679},
+																						pos:        position{line: 1654, col: 7, offset: 53680},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1655, col: 7, offset: 53722},
+																					pos: position{line: 1655, col: 7, offset: 53723},
 																					run: (*parser).callonListElements94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1655, col: 7, offset: 53722},
+																						pos:        position{line: 1655, col: 7, offset: 53723},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -24881,12 +24881,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2880, col: 11, offset: 91012},
+																		pos: position{line: 2880, col: 11, offset: 91013},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2880, col: 11, offset: 91012},
+																			pos: position{line: 2880, col: 11, offset: 91013},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2880, col: 11, offset: 91012},
+																				pos:        position{line: 2880, col: 11, offset: 91013},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -24900,26 +24900,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1632, col: 5, offset: 53040},
+													pos:   position{line: 1632, col: 5, offset: 53041},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1528, col: 5, offset: 49558},
+														pos: position{line: 1528, col: 5, offset: 49559},
 														run: (*parser).callonListElements100,
 														expr: &seqExpr{
-															pos: position{line: 1528, col: 5, offset: 49558},
+															pos: position{line: 1528, col: 5, offset: 49559},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1528, col: 5, offset: 49558},
+																	pos:   position{line: 1528, col: 5, offset: 49559},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1528, col: 14, offset: 49567},
+																		pos: position{line: 1528, col: 14, offset: 49568},
 																		expr: &actionExpr{
-																			pos: position{line: 1528, col: 15, offset: 49568},
+																			pos: position{line: 1528, col: 15, offset: 49569},
 																			run: (*parser).callonListElements104,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1528, col: 15, offset: 49568},
+																				pos: position{line: 1528, col: 15, offset: 49569},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1528, col: 15, offset: 49568},
+																					pos:        position{line: 1528, col: 15, offset: 49569},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -24930,28 +24930,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91349},
+																	pos: position{line: 2898, col: 8, offset: 91350},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91122},
+																			pos: position{line: 2885, col: 12, offset: 91123},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91123},
+																				pos: position{line: 2885, col: 13, offset: 91124},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91123},
+																						pos:        position{line: 2885, col: 13, offset: 91124},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91130},
+																						pos:        position{line: 2885, col: 20, offset: 91131},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91139},
+																						pos:        position{line: 2885, col: 29, offset: 91140},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -24960,9 +24960,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91299},
+																			pos: position{line: 2895, col: 8, offset: 91300},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91300,
+																				line: 2895, col: 9, offset: 91301,
 																			},
 																		},
 																	},
@@ -24975,36 +24975,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1721, col: 5, offset: 55594},
+										pos: position{line: 1721, col: 5, offset: 55595},
 										run: (*parser).callonListElements115,
 										expr: &seqExpr{
-											pos: position{line: 1721, col: 5, offset: 55594},
+											pos: position{line: 1721, col: 5, offset: 55595},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1721, col: 5, offset: 55594},
+													pos:   position{line: 1721, col: 5, offset: 55595},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1727, col: 5, offset: 55791},
+														pos: position{line: 1727, col: 5, offset: 55792},
 														run: (*parser).callonListElements118,
 														expr: &seqExpr{
-															pos: position{line: 1727, col: 5, offset: 55791},
+															pos: position{line: 1727, col: 5, offset: 55792},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1727, col: 5, offset: 55791},
+																	pos:        position{line: 1727, col: 5, offset: 55792},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1727, col: 9, offset: 55795},
+																	pos:   position{line: 1727, col: 9, offset: 55796},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1727, col: 14, offset: 55800},
+																		pos: position{line: 1727, col: 14, offset: 55801},
 																		run: (*parser).callonListElements122,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1727, col: 14, offset: 55800},
+																			pos: position{line: 1727, col: 14, offset: 55801},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1727, col: 14, offset: 55800},
+																				pos:        position{line: 1727, col: 14, offset: 55801},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -25014,18 +25014,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1727, col: 62, offset: 55848},
+																	pos:        position{line: 1727, col: 62, offset: 55849},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2880, col: 11, offset: 91012},
+																	pos: position{line: 2880, col: 11, offset: 91013},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2880, col: 11, offset: 91012},
+																		pos: position{line: 2880, col: 11, offset: 91013},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 11, offset: 91012},
+																			pos:        position{line: 2880, col: 11, offset: 91013},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25038,26 +25038,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1722, col: 5, offset: 55630},
+													pos:   position{line: 1722, col: 5, offset: 55631},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1528, col: 5, offset: 49558},
+														pos: position{line: 1528, col: 5, offset: 49559},
 														run: (*parser).callonListElements130,
 														expr: &seqExpr{
-															pos: position{line: 1528, col: 5, offset: 49558},
+															pos: position{line: 1528, col: 5, offset: 49559},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1528, col: 5, offset: 49558},
+																	pos:   position{line: 1528, col: 5, offset: 49559},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1528, col: 14, offset: 49567},
+																		pos: position{line: 1528, col: 14, offset: 49568},
 																		expr: &actionExpr{
-																			pos: position{line: 1528, col: 15, offset: 49568},
+																			pos: position{line: 1528, col: 15, offset: 49569},
 																			run: (*parser).callonListElements134,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1528, col: 15, offset: 49568},
+																				pos: position{line: 1528, col: 15, offset: 49569},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1528, col: 15, offset: 49568},
+																					pos:        position{line: 1528, col: 15, offset: 49569},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25068,28 +25068,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91349},
+																	pos: position{line: 2898, col: 8, offset: 91350},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91122},
+																			pos: position{line: 2885, col: 12, offset: 91123},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91123},
+																				pos: position{line: 2885, col: 13, offset: 91124},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91123},
+																						pos:        position{line: 2885, col: 13, offset: 91124},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91130},
+																						pos:        position{line: 2885, col: 20, offset: 91131},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91139},
+																						pos:        position{line: 2885, col: 29, offset: 91140},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25098,9 +25098,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91299},
+																			pos: position{line: 2895, col: 8, offset: 91300},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91300,
+																				line: 2895, col: 9, offset: 91301,
 																			},
 																		},
 																	},
@@ -25113,35 +25113,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1664, col: 5, offset: 53915},
+										pos: position{line: 1664, col: 5, offset: 53916},
 										run: (*parser).callonListElements145,
 										expr: &seqExpr{
-											pos: position{line: 1664, col: 5, offset: 53915},
+											pos: position{line: 1664, col: 5, offset: 53916},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1664, col: 5, offset: 53915},
+													pos:   position{line: 1664, col: 5, offset: 53916},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1672, col: 5, offset: 54241},
+														pos: position{line: 1672, col: 5, offset: 54242},
 														run: (*parser).callonListElements148,
 														expr: &seqExpr{
-															pos: position{line: 1672, col: 5, offset: 54241},
+															pos: position{line: 1672, col: 5, offset: 54242},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1672, col: 5, offset: 54241},
+																	pos: position{line: 1672, col: 5, offset: 54242},
 																	expr: &seqExpr{
-																		pos: position{line: 2488, col: 31, offset: 80079},
+																		pos: position{line: 2488, col: 31, offset: 80080},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2488, col: 31, offset: 80079},
+																				pos:        position{line: 2488, col: 31, offset: 80080},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2488, col: 36, offset: 80084},
+																				pos: position{line: 2488, col: 36, offset: 80085},
 																				expr: &litMatcher{
-																					pos:        position{line: 2488, col: 37, offset: 80085},
+																					pos:        position{line: 2488, col: 37, offset: 80086},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
@@ -25151,28 +25151,28 @@ var g = &grammar{
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 1673, col: 5, offset: 54273},
+																	pos: position{line: 1673, col: 5, offset: 54274},
 																	expr: &seqExpr{
-																		pos: position{line: 1673, col: 6, offset: 54274},
+																		pos: position{line: 1673, col: 6, offset: 54275},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1673, col: 6, offset: 54274},
+																				pos: position{line: 1673, col: 6, offset: 54275},
 																				expr: &actionExpr{
-																					pos: position{line: 1678, col: 5, offset: 54424},
+																					pos: position{line: 1678, col: 5, offset: 54425},
 																					run: (*parser).callonListElements158,
 																					expr: &seqExpr{
-																						pos: position{line: 1678, col: 5, offset: 54424},
+																						pos: position{line: 1678, col: 5, offset: 54425},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1678, col: 5, offset: 54424},
+																								pos:   position{line: 1678, col: 5, offset: 54425},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1678, col: 16, offset: 54435},
+																									pos: position{line: 1678, col: 16, offset: 54436},
 																									run: (*parser).callonListElements161,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1678, col: 16, offset: 54435},
+																										pos: position{line: 1678, col: 16, offset: 54436},
 																										expr: &litMatcher{
-																											pos:        position{line: 1678, col: 17, offset: 54436},
+																											pos:        position{line: 1678, col: 17, offset: 54437},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -25181,7 +25181,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1681, col: 5, offset: 54493},
+																								pos: position{line: 1681, col: 5, offset: 54494},
 																								run: (*parser).callonListElements164,
 																							},
 																						},
@@ -25189,30 +25189,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1673, col: 35, offset: 54303},
+																				pos: position{line: 1673, col: 35, offset: 54304},
 																				expr: &choiceExpr{
-																					pos: position{line: 2898, col: 8, offset: 91349},
+																					pos: position{line: 2898, col: 8, offset: 91350},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2885, col: 12, offset: 91122},
+																							pos: position{line: 2885, col: 12, offset: 91123},
 																							run: (*parser).callonListElements167,
 																							expr: &choiceExpr{
-																								pos: position{line: 2885, col: 13, offset: 91123},
+																								pos: position{line: 2885, col: 13, offset: 91124},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 13, offset: 91123},
+																										pos:        position{line: 2885, col: 13, offset: 91124},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 20, offset: 91130},
+																										pos:        position{line: 2885, col: 20, offset: 91131},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 29, offset: 91139},
+																										pos:        position{line: 2885, col: 29, offset: 91140},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -25221,16 +25221,16 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2895, col: 8, offset: 91299},
+																							pos: position{line: 2895, col: 8, offset: 91300},
 																							expr: &anyMatcher{
-																								line: 2895, col: 9, offset: 91300,
+																								line: 2895, col: 9, offset: 91301,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1673, col: 40, offset: 54308,
+																				line: 1673, col: 40, offset: 54309,
 																			},
 																		},
 																	},
@@ -25240,24 +25240,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1665, col: 5, offset: 53950},
+													pos:   position{line: 1665, col: 5, offset: 53951},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1678, col: 5, offset: 54424},
+														pos: position{line: 1678, col: 5, offset: 54425},
 														run: (*parser).callonListElements176,
 														expr: &seqExpr{
-															pos: position{line: 1678, col: 5, offset: 54424},
+															pos: position{line: 1678, col: 5, offset: 54425},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1678, col: 5, offset: 54424},
+																	pos:   position{line: 1678, col: 5, offset: 54425},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1678, col: 16, offset: 54435},
+																		pos: position{line: 1678, col: 16, offset: 54436},
 																		run: (*parser).callonListElements179,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1678, col: 16, offset: 54435},
+																			pos: position{line: 1678, col: 16, offset: 54436},
 																			expr: &litMatcher{
-																				pos:        position{line: 1678, col: 17, offset: 54436},
+																				pos:        position{line: 1678, col: 17, offset: 54437},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -25266,7 +25266,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1681, col: 5, offset: 54493},
+																	pos: position{line: 1681, col: 5, offset: 54494},
 																	run: (*parser).callonListElements182,
 																},
 															},
@@ -25274,24 +25274,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1666, col: 5, offset: 53995},
+													pos:   position{line: 1666, col: 5, offset: 53996},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1689, col: 5, offset: 54742},
+														pos: position{line: 1689, col: 5, offset: 54743},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1691, col: 9, offset: 54808},
+																pos: position{line: 1691, col: 9, offset: 54809},
 																run: (*parser).callonListElements185,
 																expr: &seqExpr{
-																	pos: position{line: 1691, col: 9, offset: 54808},
+																	pos: position{line: 1691, col: 9, offset: 54809},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1691, col: 9, offset: 54808},
+																			pos: position{line: 1691, col: 9, offset: 54809},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 90951},
+																				pos: position{line: 2876, col: 10, offset: 90952},
 																				run: (*parser).callonListElements188,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 90951},
+																					pos:        position{line: 2876, col: 10, offset: 90952},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25300,28 +25300,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91349},
+																			pos: position{line: 2898, col: 8, offset: 91350},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91122},
+																					pos: position{line: 2885, col: 12, offset: 91123},
 																					run: (*parser).callonListElements191,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91123},
+																						pos: position{line: 2885, col: 13, offset: 91124},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91123},
+																								pos:        position{line: 2885, col: 13, offset: 91124},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91130},
+																								pos:        position{line: 2885, col: 20, offset: 91131},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91139},
+																								pos:        position{line: 2885, col: 29, offset: 91140},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25330,34 +25330,34 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91299},
+																					pos: position{line: 2895, col: 8, offset: 91300},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91300,
+																						line: 2895, col: 9, offset: 91301,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1692, col: 9, offset: 54827},
+																			pos: position{line: 1692, col: 9, offset: 54828},
 																			expr: &actionExpr{
-																				pos: position{line: 677, col: 14, offset: 21557},
+																				pos: position{line: 677, col: 14, offset: 21558},
 																				run: (*parser).callonListElements199,
 																				expr: &seqExpr{
-																					pos: position{line: 677, col: 14, offset: 21557},
+																					pos: position{line: 677, col: 14, offset: 21558},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2893, col: 11, offset: 91285},
+																							pos: position{line: 2893, col: 11, offset: 91286},
 																							expr: &anyMatcher{
-																								line: 2893, col: 13, offset: 91287,
+																								line: 2893, col: 13, offset: 91288,
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 677, col: 21, offset: 21564},
+																							pos: position{line: 677, col: 21, offset: 21565},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 90951},
+																								pos: position{line: 2876, col: 10, offset: 90952},
 																								run: (*parser).callonListElements204,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 90951},
+																									pos:        position{line: 2876, col: 10, offset: 90952},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25366,28 +25366,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91349},
+																							pos: position{line: 2898, col: 8, offset: 91350},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91122},
+																									pos: position{line: 2885, col: 12, offset: 91123},
 																									run: (*parser).callonListElements207,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91123},
+																										pos: position{line: 2885, col: 13, offset: 91124},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91123},
+																												pos:        position{line: 2885, col: 13, offset: 91124},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91130},
+																												pos:        position{line: 2885, col: 20, offset: 91131},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91139},
+																												pos:        position{line: 2885, col: 29, offset: 91140},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25396,9 +25396,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91299},
+																									pos: position{line: 2895, col: 8, offset: 91300},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91300,
+																										line: 2895, col: 9, offset: 91301,
 																									},
 																								},
 																							},
@@ -25411,18 +25411,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1698, col: 9, offset: 54956},
+																pos: position{line: 1698, col: 9, offset: 54957},
 																run: (*parser).callonListElements214,
 																expr: &seqExpr{
-																	pos: position{line: 1698, col: 9, offset: 54956},
+																	pos: position{line: 1698, col: 9, offset: 54957},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2880, col: 11, offset: 91012},
+																			pos: position{line: 2880, col: 11, offset: 91013},
 																			run: (*parser).callonListElements216,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2880, col: 11, offset: 91012},
+																				pos: position{line: 2880, col: 11, offset: 91013},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2880, col: 11, offset: 91012},
+																					pos:        position{line: 2880, col: 11, offset: 91013},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25431,15 +25431,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1699, col: 9, offset: 55029},
+																			pos:   position{line: 1699, col: 9, offset: 55030},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1699, col: 18, offset: 55038},
+																				pos: position{line: 1699, col: 18, offset: 55039},
 																				run: (*parser).callonListElements220,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1699, col: 18, offset: 55038},
+																					pos: position{line: 1699, col: 18, offset: 55039},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1699, col: 18, offset: 55038},
+																						pos:        position{line: 1699, col: 18, offset: 55039},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -25449,28 +25449,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91349},
+																			pos: position{line: 2898, col: 8, offset: 91350},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91122},
+																					pos: position{line: 2885, col: 12, offset: 91123},
 																					run: (*parser).callonListElements224,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91123},
+																						pos: position{line: 2885, col: 13, offset: 91124},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91123},
+																								pos:        position{line: 2885, col: 13, offset: 91124},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91130},
+																								pos:        position{line: 2885, col: 20, offset: 91131},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91139},
+																								pos:        position{line: 2885, col: 29, offset: 91140},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25479,9 +25479,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91299},
+																					pos: position{line: 2895, col: 8, offset: 91300},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91300,
+																						line: 2895, col: 9, offset: 91301,
 																					},
 																				},
 																			},
@@ -25499,10 +25499,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1482, col: 5, offset: 47947},
+							pos:   position{line: 1482, col: 5, offset: 47948},
 							label: "extraElements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1482, col: 20, offset: 47962},
+								pos:  position{line: 1482, col: 20, offset: 47963},
 								name: "ExtraListElements",
 							},
 						},
@@ -25512,17 +25512,17 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElements",
-			pos:  position{line: 1492, col: 1, offset: 48217},
+			pos:  position{line: 1492, col: 1, offset: 48218},
 			expr: &actionExpr{
-				pos: position{line: 1492, col: 22, offset: 48238},
+				pos: position{line: 1492, col: 22, offset: 48239},
 				run: (*parser).callonExtraListElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1492, col: 22, offset: 48238},
+					pos:   position{line: 1492, col: 22, offset: 48239},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1492, col: 31, offset: 48247},
+						pos: position{line: 1492, col: 31, offset: 48248},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1492, col: 32, offset: 48248},
+							pos:  position{line: 1492, col: 32, offset: 48249},
 							name: "ExtraListElement",
 						},
 					},
@@ -25531,52 +25531,52 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElement",
-			pos:  position{line: 1496, col: 1, offset: 48328},
+			pos:  position{line: 1496, col: 1, offset: 48329},
 			expr: &actionExpr{
-				pos: position{line: 1497, col: 5, offset: 48467},
+				pos: position{line: 1497, col: 5, offset: 48468},
 				run: (*parser).callonExtraListElement1,
 				expr: &seqExpr{
-					pos: position{line: 1497, col: 5, offset: 48467},
+					pos: position{line: 1497, col: 5, offset: 48468},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2893, col: 11, offset: 91285},
+							pos: position{line: 2893, col: 11, offset: 91286},
 							expr: &anyMatcher{
-								line: 2893, col: 13, offset: 91287,
+								line: 2893, col: 13, offset: 91288,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1498, col: 5, offset: 48479},
+							pos:   position{line: 1498, col: 5, offset: 48480},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1499, col: 9, offset: 48497},
+								pos: position{line: 1499, col: 9, offset: 48498},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1499, col: 13, offset: 48501},
+										pos: position{line: 1499, col: 13, offset: 48502},
 										run: (*parser).callonExtraListElement7,
 										expr: &seqExpr{
-											pos: position{line: 1499, col: 13, offset: 48501},
+											pos: position{line: 1499, col: 13, offset: 48502},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 1499, col: 13, offset: 48501},
+													pos: position{line: 1499, col: 13, offset: 48502},
 													expr: &actionExpr{
-														pos: position{line: 677, col: 14, offset: 21557},
+														pos: position{line: 677, col: 14, offset: 21558},
 														run: (*parser).callonExtraListElement10,
 														expr: &seqExpr{
-															pos: position{line: 677, col: 14, offset: 21557},
+															pos: position{line: 677, col: 14, offset: 21558},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2893, col: 11, offset: 91285},
+																	pos: position{line: 2893, col: 11, offset: 91286},
 																	expr: &anyMatcher{
-																		line: 2893, col: 13, offset: 91287,
+																		line: 2893, col: 13, offset: 91288,
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 677, col: 21, offset: 21564},
+																	pos: position{line: 677, col: 21, offset: 21565},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 90951},
+																		pos: position{line: 2876, col: 10, offset: 90952},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 90951},
+																			pos:        position{line: 2876, col: 10, offset: 90952},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25585,28 +25585,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91349},
+																	pos: position{line: 2898, col: 8, offset: 91350},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91122},
+																			pos: position{line: 2885, col: 12, offset: 91123},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91123},
+																				pos: position{line: 2885, col: 13, offset: 91124},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91123},
+																						pos:        position{line: 2885, col: 13, offset: 91124},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91130},
+																						pos:        position{line: 2885, col: 20, offset: 91131},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91139},
+																						pos:        position{line: 2885, col: 29, offset: 91140},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25615,9 +25615,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91299},
+																			pos: position{line: 2895, col: 8, offset: 91300},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91300,
+																				line: 2895, col: 9, offset: 91301,
 																			},
 																		},
 																	},
@@ -25627,33 +25627,33 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1500, col: 13, offset: 48525},
+													pos:   position{line: 1500, col: 13, offset: 48526},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1500, col: 22, offset: 48534},
+														pos: position{line: 1500, col: 22, offset: 48535},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1580, col: 5, offset: 51052},
+																pos: position{line: 1580, col: 5, offset: 51053},
 																run: (*parser).callonExtraListElement27,
 																expr: &seqExpr{
-																	pos: position{line: 1580, col: 5, offset: 51052},
+																	pos: position{line: 1580, col: 5, offset: 51053},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1580, col: 5, offset: 51052},
+																			pos:   position{line: 1580, col: 5, offset: 51053},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1587, col: 5, offset: 51260},
+																				pos: position{line: 1587, col: 5, offset: 51261},
 																				run: (*parser).callonExtraListElement30,
 																				expr: &seqExpr{
-																					pos: position{line: 1587, col: 5, offset: 51260},
+																					pos: position{line: 1587, col: 5, offset: 51261},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1587, col: 5, offset: 51260},
+																							pos: position{line: 1587, col: 5, offset: 51261},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 90951},
+																								pos: position{line: 2876, col: 10, offset: 90952},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 90951},
+																									pos:        position{line: 2876, col: 10, offset: 90952},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25662,27 +25662,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1587, col: 12, offset: 51267},
+																							pos:   position{line: 1587, col: 12, offset: 51268},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1589, col: 9, offset: 51330},
+																								pos: position{line: 1589, col: 9, offset: 51331},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1589, col: 9, offset: 51330},
+																										pos: position{line: 1589, col: 9, offset: 51331},
 																										run: (*parser).callonExtraListElement37,
 																										expr: &seqExpr{
-																											pos: position{line: 1589, col: 9, offset: 51330},
+																											pos: position{line: 1589, col: 9, offset: 51331},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1589, col: 9, offset: 51330},
+																													pos:   position{line: 1589, col: 9, offset: 51331},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1589, col: 16, offset: 51337},
+																														pos: position{line: 1589, col: 16, offset: 51338},
 																														run: (*parser).callonExtraListElement40,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1589, col: 16, offset: 51337},
+																															pos: position{line: 1589, col: 16, offset: 51338},
 																															expr: &litMatcher{
-																																pos:        position{line: 1589, col: 17, offset: 51338},
+																																pos:        position{line: 1589, col: 17, offset: 51339},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -25691,22 +25691,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1593, col: 9, offset: 51438},
+																													pos: position{line: 1593, col: 9, offset: 51439},
 																													run: (*parser).callonExtraListElement43,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1612, col: 11, offset: 52155},
+																										pos: position{line: 1612, col: 11, offset: 52156},
 																										run: (*parser).callonExtraListElement44,
 																										expr: &seqExpr{
-																											pos: position{line: 1612, col: 11, offset: 52155},
+																											pos: position{line: 1612, col: 11, offset: 52156},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1612, col: 11, offset: 52155},
+																													pos: position{line: 1612, col: 11, offset: 52156},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1612, col: 12, offset: 52156},
+																														pos:        position{line: 1612, col: 12, offset: 52157},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -25714,7 +25714,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1612, col: 20, offset: 52164},
+																													pos:        position{line: 1612, col: 20, offset: 52165},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -25723,20 +25723,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1614, col: 13, offset: 52281},
+																										pos: position{line: 1614, col: 13, offset: 52282},
 																										run: (*parser).callonExtraListElement49,
 																										expr: &seqExpr{
-																											pos: position{line: 1614, col: 13, offset: 52281},
+																											pos: position{line: 1614, col: 13, offset: 52282},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1614, col: 14, offset: 52282},
+																													pos:        position{line: 1614, col: 14, offset: 52283},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1614, col: 21, offset: 52289},
+																													pos:        position{line: 1614, col: 21, offset: 52290},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -25745,20 +25745,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1616, col: 13, offset: 52409},
+																										pos: position{line: 1616, col: 13, offset: 52410},
 																										run: (*parser).callonExtraListElement53,
 																										expr: &seqExpr{
-																											pos: position{line: 1616, col: 13, offset: 52409},
+																											pos: position{line: 1616, col: 13, offset: 52410},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1616, col: 14, offset: 52410},
+																													pos:        position{line: 1616, col: 14, offset: 52411},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1616, col: 21, offset: 52417},
+																													pos:        position{line: 1616, col: 21, offset: 52418},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -25767,15 +25767,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1618, col: 13, offset: 52537},
+																										pos: position{line: 1618, col: 13, offset: 52538},
 																										run: (*parser).callonExtraListElement57,
 																										expr: &seqExpr{
-																											pos: position{line: 1618, col: 13, offset: 52537},
+																											pos: position{line: 1618, col: 13, offset: 52538},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1618, col: 13, offset: 52537},
+																													pos: position{line: 1618, col: 13, offset: 52538},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1618, col: 14, offset: 52538},
+																														pos:        position{line: 1618, col: 14, offset: 52539},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -25783,7 +25783,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1618, col: 26, offset: 52550},
+																													pos:        position{line: 1618, col: 26, offset: 52551},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -25792,15 +25792,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1620, col: 13, offset: 52670},
+																										pos: position{line: 1620, col: 13, offset: 52671},
 																										run: (*parser).callonExtraListElement62,
 																										expr: &seqExpr{
-																											pos: position{line: 1620, col: 13, offset: 52670},
+																											pos: position{line: 1620, col: 13, offset: 52671},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1620, col: 13, offset: 52670},
+																													pos: position{line: 1620, col: 13, offset: 52671},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1620, col: 14, offset: 52671},
+																														pos:        position{line: 1620, col: 14, offset: 52672},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -25808,7 +25808,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1620, col: 26, offset: 52683},
+																													pos:        position{line: 1620, col: 26, offset: 52684},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -25820,12 +25820,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2880, col: 11, offset: 91012},
+																							pos: position{line: 2880, col: 11, offset: 91013},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2880, col: 11, offset: 91012},
+																								pos: position{line: 2880, col: 11, offset: 91013},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 11, offset: 91012},
+																									pos:        position{line: 2880, col: 11, offset: 91013},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25838,26 +25838,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1581, col: 5, offset: 51091},
+																			pos:   position{line: 1581, col: 5, offset: 51092},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1528, col: 5, offset: 49558},
+																				pos: position{line: 1528, col: 5, offset: 49559},
 																				run: (*parser).callonExtraListElement71,
 																				expr: &seqExpr{
-																					pos: position{line: 1528, col: 5, offset: 49558},
+																					pos: position{line: 1528, col: 5, offset: 49559},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1528, col: 5, offset: 49558},
+																							pos:   position{line: 1528, col: 5, offset: 49559},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1528, col: 14, offset: 49567},
+																								pos: position{line: 1528, col: 14, offset: 49568},
 																								expr: &actionExpr{
-																									pos: position{line: 1528, col: 15, offset: 49568},
+																									pos: position{line: 1528, col: 15, offset: 49569},
 																									run: (*parser).callonExtraListElement75,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1528, col: 15, offset: 49568},
+																										pos: position{line: 1528, col: 15, offset: 49569},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1528, col: 15, offset: 49568},
+																											pos:        position{line: 1528, col: 15, offset: 49569},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -25868,28 +25868,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91349},
+																							pos: position{line: 2898, col: 8, offset: 91350},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91122},
+																									pos: position{line: 2885, col: 12, offset: 91123},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91123},
+																										pos: position{line: 2885, col: 13, offset: 91124},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91123},
+																												pos:        position{line: 2885, col: 13, offset: 91124},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91130},
+																												pos:        position{line: 2885, col: 20, offset: 91131},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91139},
+																												pos:        position{line: 2885, col: 29, offset: 91140},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25898,9 +25898,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91299},
+																									pos: position{line: 2895, col: 8, offset: 91300},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91300,
+																										line: 2895, col: 9, offset: 91301,
 																									},
 																								},
 																							},
@@ -25913,27 +25913,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1630, col: 5, offset: 52949},
+																pos: position{line: 1630, col: 5, offset: 52950},
 																run: (*parser).callonExtraListElement86,
 																expr: &seqExpr{
-																	pos: position{line: 1630, col: 5, offset: 52949},
+																	pos: position{line: 1630, col: 5, offset: 52950},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1630, col: 5, offset: 52949},
+																			pos:   position{line: 1630, col: 5, offset: 52950},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1637, col: 5, offset: 53222},
+																				pos: position{line: 1637, col: 5, offset: 53223},
 																				run: (*parser).callonExtraListElement89,
 																				expr: &seqExpr{
-																					pos: position{line: 1637, col: 5, offset: 53222},
+																					pos: position{line: 1637, col: 5, offset: 53223},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1637, col: 5, offset: 53222},
+																							pos: position{line: 1637, col: 5, offset: 53223},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 90951},
+																								pos: position{line: 2876, col: 10, offset: 90952},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 90951},
+																									pos:        position{line: 2876, col: 10, offset: 90952},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25942,24 +25942,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1638, col: 5, offset: 53234},
+																							pos:   position{line: 1638, col: 5, offset: 53235},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1639, col: 9, offset: 53250},
+																								pos: position{line: 1639, col: 9, offset: 53251},
 																								run: (*parser).callonExtraListElement95,
 																								expr: &choiceExpr{
-																									pos: position{line: 1639, col: 10, offset: 53251},
+																									pos: position{line: 1639, col: 10, offset: 53252},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1639, col: 11, offset: 53252},
+																											pos:        position{line: 1639, col: 11, offset: 53253},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1639, col: 18, offset: 53259},
+																											pos: position{line: 1639, col: 18, offset: 53260},
 																											expr: &litMatcher{
-																												pos:        position{line: 1639, col: 19, offset: 53260},
+																												pos:        position{line: 1639, col: 19, offset: 53261},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -25970,16 +25970,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1642, col: 7, offset: 53350},
+																							pos: position{line: 1642, col: 7, offset: 53351},
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2880, col: 11, offset: 91012},
+																							pos: position{line: 2880, col: 11, offset: 91013},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2880, col: 11, offset: 91012},
+																								pos: position{line: 2880, col: 11, offset: 91013},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 11, offset: 91012},
+																									pos:        position{line: 2880, col: 11, offset: 91013},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25992,56 +25992,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1631, col: 5, offset: 52990},
+																			pos:   position{line: 1631, col: 5, offset: 52991},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1631, col: 16, offset: 53001},
+																				pos: position{line: 1631, col: 16, offset: 53002},
 																				expr: &actionExpr{
-																					pos: position{line: 1652, col: 5, offset: 53615},
+																					pos: position{line: 1652, col: 5, offset: 53616},
 																					run: (*parser).callonExtraListElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 1652, col: 5, offset: 53615},
+																						pos: position{line: 1652, col: 5, offset: 53616},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1652, col: 5, offset: 53615},
+																								pos: position{line: 1652, col: 5, offset: 53616},
 																								expr: &litMatcher{
-																									pos:        position{line: 1652, col: 6, offset: 53616},
+																									pos:        position{line: 1652, col: 6, offset: 53617},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1652, col: 10, offset: 53620},
+																								pos:   position{line: 1652, col: 10, offset: 53621},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1653, col: 7, offset: 53634},
+																									pos: position{line: 1653, col: 7, offset: 53635},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1653, col: 7, offset: 53634},
+																											pos: position{line: 1653, col: 7, offset: 53635},
 																											run: (*parser).callonExtraListElement112,
 																											expr: &litMatcher{
-																												pos:        position{line: 1653, col: 7, offset: 53634},
+																												pos:        position{line: 1653, col: 7, offset: 53635},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1654, col: 7, offset: 53679},
+																											pos: position{line: 1654, col: 7, offset: 53680},
 																											run: (*parser).callonExtraListElement114,
 																											expr: &litMatcher{
-																												pos:        position{line: 1654, col: 7, offset: 53679},
+																												pos:        position{line: 1654, col: 7, offset: 53680},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1655, col: 7, offset: 53722},
+																											pos: position{line: 1655, col: 7, offset: 53723},
 																											run: (*parser).callonExtraListElement116,
 																											expr: &litMatcher{
-																												pos:        position{line: 1655, col: 7, offset: 53722},
+																												pos:        position{line: 1655, col: 7, offset: 53723},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -26051,12 +26051,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2880, col: 11, offset: 91012},
+																								pos: position{line: 2880, col: 11, offset: 91013},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2880, col: 11, offset: 91012},
+																									pos: position{line: 2880, col: 11, offset: 91013},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2880, col: 11, offset: 91012},
+																										pos:        position{line: 2880, col: 11, offset: 91013},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -26070,26 +26070,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1632, col: 5, offset: 53040},
+																			pos:   position{line: 1632, col: 5, offset: 53041},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1528, col: 5, offset: 49558},
+																				pos: position{line: 1528, col: 5, offset: 49559},
 																				run: (*parser).callonExtraListElement122,
 																				expr: &seqExpr{
-																					pos: position{line: 1528, col: 5, offset: 49558},
+																					pos: position{line: 1528, col: 5, offset: 49559},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1528, col: 5, offset: 49558},
+																							pos:   position{line: 1528, col: 5, offset: 49559},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1528, col: 14, offset: 49567},
+																								pos: position{line: 1528, col: 14, offset: 49568},
 																								expr: &actionExpr{
-																									pos: position{line: 1528, col: 15, offset: 49568},
+																									pos: position{line: 1528, col: 15, offset: 49569},
 																									run: (*parser).callonExtraListElement126,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1528, col: 15, offset: 49568},
+																										pos: position{line: 1528, col: 15, offset: 49569},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1528, col: 15, offset: 49568},
+																											pos:        position{line: 1528, col: 15, offset: 49569},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26100,28 +26100,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91349},
+																							pos: position{line: 2898, col: 8, offset: 91350},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91122},
+																									pos: position{line: 2885, col: 12, offset: 91123},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91123},
+																										pos: position{line: 2885, col: 13, offset: 91124},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91123},
+																												pos:        position{line: 2885, col: 13, offset: 91124},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91130},
+																												pos:        position{line: 2885, col: 20, offset: 91131},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91139},
+																												pos:        position{line: 2885, col: 29, offset: 91140},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26130,9 +26130,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91299},
+																									pos: position{line: 2895, col: 8, offset: 91300},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91300,
+																										line: 2895, col: 9, offset: 91301,
 																									},
 																								},
 																							},
@@ -26145,36 +26145,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1721, col: 5, offset: 55594},
+																pos: position{line: 1721, col: 5, offset: 55595},
 																run: (*parser).callonExtraListElement137,
 																expr: &seqExpr{
-																	pos: position{line: 1721, col: 5, offset: 55594},
+																	pos: position{line: 1721, col: 5, offset: 55595},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1721, col: 5, offset: 55594},
+																			pos:   position{line: 1721, col: 5, offset: 55595},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1727, col: 5, offset: 55791},
+																				pos: position{line: 1727, col: 5, offset: 55792},
 																				run: (*parser).callonExtraListElement140,
 																				expr: &seqExpr{
-																					pos: position{line: 1727, col: 5, offset: 55791},
+																					pos: position{line: 1727, col: 5, offset: 55792},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1727, col: 5, offset: 55791},
+																							pos:        position{line: 1727, col: 5, offset: 55792},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1727, col: 9, offset: 55795},
+																							pos:   position{line: 1727, col: 9, offset: 55796},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1727, col: 14, offset: 55800},
+																								pos: position{line: 1727, col: 14, offset: 55801},
 																								run: (*parser).callonExtraListElement144,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1727, col: 14, offset: 55800},
+																									pos: position{line: 1727, col: 14, offset: 55801},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1727, col: 14, offset: 55800},
+																										pos:        position{line: 1727, col: 14, offset: 55801},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -26184,18 +26184,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1727, col: 62, offset: 55848},
+																							pos:        position{line: 1727, col: 62, offset: 55849},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2880, col: 11, offset: 91012},
+																							pos: position{line: 2880, col: 11, offset: 91013},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2880, col: 11, offset: 91012},
+																								pos: position{line: 2880, col: 11, offset: 91013},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 11, offset: 91012},
+																									pos:        position{line: 2880, col: 11, offset: 91013},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26208,26 +26208,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1722, col: 5, offset: 55630},
+																			pos:   position{line: 1722, col: 5, offset: 55631},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1528, col: 5, offset: 49558},
+																				pos: position{line: 1528, col: 5, offset: 49559},
 																				run: (*parser).callonExtraListElement152,
 																				expr: &seqExpr{
-																					pos: position{line: 1528, col: 5, offset: 49558},
+																					pos: position{line: 1528, col: 5, offset: 49559},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1528, col: 5, offset: 49558},
+																							pos:   position{line: 1528, col: 5, offset: 49559},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1528, col: 14, offset: 49567},
+																								pos: position{line: 1528, col: 14, offset: 49568},
 																								expr: &actionExpr{
-																									pos: position{line: 1528, col: 15, offset: 49568},
+																									pos: position{line: 1528, col: 15, offset: 49569},
 																									run: (*parser).callonExtraListElement156,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1528, col: 15, offset: 49568},
+																										pos: position{line: 1528, col: 15, offset: 49569},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1528, col: 15, offset: 49568},
+																											pos:        position{line: 1528, col: 15, offset: 49569},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26238,28 +26238,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91349},
+																							pos: position{line: 2898, col: 8, offset: 91350},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91122},
+																									pos: position{line: 2885, col: 12, offset: 91123},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91123},
+																										pos: position{line: 2885, col: 13, offset: 91124},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91123},
+																												pos:        position{line: 2885, col: 13, offset: 91124},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91130},
+																												pos:        position{line: 2885, col: 20, offset: 91131},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91139},
+																												pos:        position{line: 2885, col: 29, offset: 91140},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26268,9 +26268,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91299},
+																									pos: position{line: 2895, col: 8, offset: 91300},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91300,
+																										line: 2895, col: 9, offset: 91301,
 																									},
 																								},
 																							},
@@ -26283,35 +26283,35 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1664, col: 5, offset: 53915},
+																pos: position{line: 1664, col: 5, offset: 53916},
 																run: (*parser).callonExtraListElement167,
 																expr: &seqExpr{
-																	pos: position{line: 1664, col: 5, offset: 53915},
+																	pos: position{line: 1664, col: 5, offset: 53916},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1664, col: 5, offset: 53915},
+																			pos:   position{line: 1664, col: 5, offset: 53916},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1672, col: 5, offset: 54241},
+																				pos: position{line: 1672, col: 5, offset: 54242},
 																				run: (*parser).callonExtraListElement170,
 																				expr: &seqExpr{
-																					pos: position{line: 1672, col: 5, offset: 54241},
+																					pos: position{line: 1672, col: 5, offset: 54242},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1672, col: 5, offset: 54241},
+																							pos: position{line: 1672, col: 5, offset: 54242},
 																							expr: &seqExpr{
-																								pos: position{line: 2488, col: 31, offset: 80079},
+																								pos: position{line: 2488, col: 31, offset: 80080},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2488, col: 31, offset: 80079},
+																										pos:        position{line: 2488, col: 31, offset: 80080},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2488, col: 36, offset: 80084},
+																										pos: position{line: 2488, col: 36, offset: 80085},
 																										expr: &litMatcher{
-																											pos:        position{line: 2488, col: 37, offset: 80085},
+																											pos:        position{line: 2488, col: 37, offset: 80086},
 																											val:        "//",
 																											ignoreCase: false,
 																											want:       "\"//\"",
@@ -26321,28 +26321,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1673, col: 5, offset: 54273},
+																							pos: position{line: 1673, col: 5, offset: 54274},
 																							expr: &seqExpr{
-																								pos: position{line: 1673, col: 6, offset: 54274},
+																								pos: position{line: 1673, col: 6, offset: 54275},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1673, col: 6, offset: 54274},
+																										pos: position{line: 1673, col: 6, offset: 54275},
 																										expr: &actionExpr{
-																											pos: position{line: 1678, col: 5, offset: 54424},
+																											pos: position{line: 1678, col: 5, offset: 54425},
 																											run: (*parser).callonExtraListElement180,
 																											expr: &seqExpr{
-																												pos: position{line: 1678, col: 5, offset: 54424},
+																												pos: position{line: 1678, col: 5, offset: 54425},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1678, col: 5, offset: 54424},
+																														pos:   position{line: 1678, col: 5, offset: 54425},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1678, col: 16, offset: 54435},
+																															pos: position{line: 1678, col: 16, offset: 54436},
 																															run: (*parser).callonExtraListElement183,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1678, col: 16, offset: 54435},
+																																pos: position{line: 1678, col: 16, offset: 54436},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1678, col: 17, offset: 54436},
+																																	pos:        position{line: 1678, col: 17, offset: 54437},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -26351,7 +26351,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1681, col: 5, offset: 54493},
+																														pos: position{line: 1681, col: 5, offset: 54494},
 																														run: (*parser).callonExtraListElement186,
 																													},
 																												},
@@ -26359,30 +26359,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1673, col: 35, offset: 54303},
+																										pos: position{line: 1673, col: 35, offset: 54304},
 																										expr: &choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91349},
+																											pos: position{line: 2898, col: 8, offset: 91350},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91122},
+																													pos: position{line: 2885, col: 12, offset: 91123},
 																													run: (*parser).callonExtraListElement189,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91123},
+																														pos: position{line: 2885, col: 13, offset: 91124},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91123},
+																																pos:        position{line: 2885, col: 13, offset: 91124},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91130},
+																																pos:        position{line: 2885, col: 20, offset: 91131},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91139},
+																																pos:        position{line: 2885, col: 29, offset: 91140},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -26391,16 +26391,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91299},
+																													pos: position{line: 2895, col: 8, offset: 91300},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91300,
+																														line: 2895, col: 9, offset: 91301,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1673, col: 40, offset: 54308,
+																										line: 1673, col: 40, offset: 54309,
 																									},
 																								},
 																							},
@@ -26410,24 +26410,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1665, col: 5, offset: 53950},
+																			pos:   position{line: 1665, col: 5, offset: 53951},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1678, col: 5, offset: 54424},
+																				pos: position{line: 1678, col: 5, offset: 54425},
 																				run: (*parser).callonExtraListElement198,
 																				expr: &seqExpr{
-																					pos: position{line: 1678, col: 5, offset: 54424},
+																					pos: position{line: 1678, col: 5, offset: 54425},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1678, col: 5, offset: 54424},
+																							pos:   position{line: 1678, col: 5, offset: 54425},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1678, col: 16, offset: 54435},
+																								pos: position{line: 1678, col: 16, offset: 54436},
 																								run: (*parser).callonExtraListElement201,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1678, col: 16, offset: 54435},
+																									pos: position{line: 1678, col: 16, offset: 54436},
 																									expr: &litMatcher{
-																										pos:        position{line: 1678, col: 17, offset: 54436},
+																										pos:        position{line: 1678, col: 17, offset: 54437},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -26436,7 +26436,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1681, col: 5, offset: 54493},
+																							pos: position{line: 1681, col: 5, offset: 54494},
 																							run: (*parser).callonExtraListElement204,
 																						},
 																					},
@@ -26444,24 +26444,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1666, col: 5, offset: 53995},
+																			pos:   position{line: 1666, col: 5, offset: 53996},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1689, col: 5, offset: 54742},
+																				pos: position{line: 1689, col: 5, offset: 54743},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1691, col: 9, offset: 54808},
+																						pos: position{line: 1691, col: 9, offset: 54809},
 																						run: (*parser).callonExtraListElement207,
 																						expr: &seqExpr{
-																							pos: position{line: 1691, col: 9, offset: 54808},
+																							pos: position{line: 1691, col: 9, offset: 54809},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1691, col: 9, offset: 54808},
+																									pos: position{line: 1691, col: 9, offset: 54809},
 																									expr: &actionExpr{
-																										pos: position{line: 2876, col: 10, offset: 90951},
+																										pos: position{line: 2876, col: 10, offset: 90952},
 																										run: (*parser).callonExtraListElement210,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2876, col: 10, offset: 90951},
+																											pos:        position{line: 2876, col: 10, offset: 90952},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26470,28 +26470,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2898, col: 8, offset: 91349},
+																									pos: position{line: 2898, col: 8, offset: 91350},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2885, col: 12, offset: 91122},
+																											pos: position{line: 2885, col: 12, offset: 91123},
 																											run: (*parser).callonExtraListElement213,
 																											expr: &choiceExpr{
-																												pos: position{line: 2885, col: 13, offset: 91123},
+																												pos: position{line: 2885, col: 13, offset: 91124},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 13, offset: 91123},
+																														pos:        position{line: 2885, col: 13, offset: 91124},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 20, offset: 91130},
+																														pos:        position{line: 2885, col: 20, offset: 91131},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 29, offset: 91139},
+																														pos:        position{line: 2885, col: 29, offset: 91140},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26500,34 +26500,34 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2895, col: 8, offset: 91299},
+																											pos: position{line: 2895, col: 8, offset: 91300},
 																											expr: &anyMatcher{
-																												line: 2895, col: 9, offset: 91300,
+																												line: 2895, col: 9, offset: 91301,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1692, col: 9, offset: 54827},
+																									pos: position{line: 1692, col: 9, offset: 54828},
 																									expr: &actionExpr{
-																										pos: position{line: 677, col: 14, offset: 21557},
+																										pos: position{line: 677, col: 14, offset: 21558},
 																										run: (*parser).callonExtraListElement221,
 																										expr: &seqExpr{
-																											pos: position{line: 677, col: 14, offset: 21557},
+																											pos: position{line: 677, col: 14, offset: 21558},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2893, col: 11, offset: 91285},
+																													pos: position{line: 2893, col: 11, offset: 91286},
 																													expr: &anyMatcher{
-																														line: 2893, col: 13, offset: 91287,
+																														line: 2893, col: 13, offset: 91288,
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 677, col: 21, offset: 21564},
+																													pos: position{line: 677, col: 21, offset: 21565},
 																													expr: &actionExpr{
-																														pos: position{line: 2876, col: 10, offset: 90951},
+																														pos: position{line: 2876, col: 10, offset: 90952},
 																														run: (*parser).callonExtraListElement226,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2876, col: 10, offset: 90951},
+																															pos:        position{line: 2876, col: 10, offset: 90952},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -26536,28 +26536,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2898, col: 8, offset: 91349},
+																													pos: position{line: 2898, col: 8, offset: 91350},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2885, col: 12, offset: 91122},
+																															pos: position{line: 2885, col: 12, offset: 91123},
 																															run: (*parser).callonExtraListElement229,
 																															expr: &choiceExpr{
-																																pos: position{line: 2885, col: 13, offset: 91123},
+																																pos: position{line: 2885, col: 13, offset: 91124},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2885, col: 13, offset: 91123},
+																																		pos:        position{line: 2885, col: 13, offset: 91124},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2885, col: 20, offset: 91130},
+																																		pos:        position{line: 2885, col: 20, offset: 91131},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2885, col: 29, offset: 91139},
+																																		pos:        position{line: 2885, col: 29, offset: 91140},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -26566,9 +26566,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2895, col: 8, offset: 91299},
+																															pos: position{line: 2895, col: 8, offset: 91300},
 																															expr: &anyMatcher{
-																																line: 2895, col: 9, offset: 91300,
+																																line: 2895, col: 9, offset: 91301,
 																															},
 																														},
 																													},
@@ -26581,18 +26581,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1698, col: 9, offset: 54956},
+																						pos: position{line: 1698, col: 9, offset: 54957},
 																						run: (*parser).callonExtraListElement236,
 																						expr: &seqExpr{
-																							pos: position{line: 1698, col: 9, offset: 54956},
+																							pos: position{line: 1698, col: 9, offset: 54957},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2880, col: 11, offset: 91012},
+																									pos: position{line: 2880, col: 11, offset: 91013},
 																									run: (*parser).callonExtraListElement238,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2880, col: 11, offset: 91012},
+																										pos: position{line: 2880, col: 11, offset: 91013},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2880, col: 11, offset: 91012},
+																											pos:        position{line: 2880, col: 11, offset: 91013},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26601,15 +26601,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1699, col: 9, offset: 55029},
+																									pos:   position{line: 1699, col: 9, offset: 55030},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1699, col: 18, offset: 55038},
+																										pos: position{line: 1699, col: 18, offset: 55039},
 																										run: (*parser).callonExtraListElement242,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1699, col: 18, offset: 55038},
+																											pos: position{line: 1699, col: 18, offset: 55039},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1699, col: 18, offset: 55038},
+																												pos:        position{line: 1699, col: 18, offset: 55039},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -26619,28 +26619,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2898, col: 8, offset: 91349},
+																									pos: position{line: 2898, col: 8, offset: 91350},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2885, col: 12, offset: 91122},
+																											pos: position{line: 2885, col: 12, offset: 91123},
 																											run: (*parser).callonExtraListElement246,
 																											expr: &choiceExpr{
-																												pos: position{line: 2885, col: 13, offset: 91123},
+																												pos: position{line: 2885, col: 13, offset: 91124},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 13, offset: 91123},
+																														pos:        position{line: 2885, col: 13, offset: 91124},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 20, offset: 91130},
+																														pos:        position{line: 2885, col: 20, offset: 91131},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 29, offset: 91139},
+																														pos:        position{line: 2885, col: 29, offset: 91140},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26649,9 +26649,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2895, col: 8, offset: 91299},
+																											pos: position{line: 2895, col: 8, offset: 91300},
 																											expr: &anyMatcher{
-																												line: 2895, col: 9, offset: 91300,
+																												line: 2895, col: 9, offset: 91301,
 																											},
 																										},
 																									},
@@ -26672,50 +26672,50 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1503, col: 13, offset: 48685},
+										pos: position{line: 1503, col: 13, offset: 48686},
 										run: (*parser).callonExtraListElement253,
 										expr: &seqExpr{
-											pos: position{line: 1503, col: 13, offset: 48685},
+											pos: position{line: 1503, col: 13, offset: 48686},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1503, col: 13, offset: 48685},
+													pos:   position{line: 1503, col: 13, offset: 48686},
 													label: "attributes",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1503, col: 24, offset: 48696},
+														pos: position{line: 1503, col: 24, offset: 48697},
 														expr: &ruleRefExpr{
-															pos:  position{line: 1503, col: 25, offset: 48697},
+															pos:  position{line: 1503, col: 25, offset: 48698},
 															name: "BlockAttributes",
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1504, col: 13, offset: 48728},
+													pos:   position{line: 1504, col: 13, offset: 48729},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1504, col: 22, offset: 48737},
+														pos: position{line: 1504, col: 22, offset: 48738},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1580, col: 5, offset: 51052},
+																pos: position{line: 1580, col: 5, offset: 51053},
 																run: (*parser).callonExtraListElement260,
 																expr: &seqExpr{
-																	pos: position{line: 1580, col: 5, offset: 51052},
+																	pos: position{line: 1580, col: 5, offset: 51053},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1580, col: 5, offset: 51052},
+																			pos:   position{line: 1580, col: 5, offset: 51053},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1587, col: 5, offset: 51260},
+																				pos: position{line: 1587, col: 5, offset: 51261},
 																				run: (*parser).callonExtraListElement263,
 																				expr: &seqExpr{
-																					pos: position{line: 1587, col: 5, offset: 51260},
+																					pos: position{line: 1587, col: 5, offset: 51261},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1587, col: 5, offset: 51260},
+																							pos: position{line: 1587, col: 5, offset: 51261},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 90951},
+																								pos: position{line: 2876, col: 10, offset: 90952},
 																								run: (*parser).callonExtraListElement266,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 90951},
+																									pos:        position{line: 2876, col: 10, offset: 90952},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26724,27 +26724,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1587, col: 12, offset: 51267},
+																							pos:   position{line: 1587, col: 12, offset: 51268},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1589, col: 9, offset: 51330},
+																								pos: position{line: 1589, col: 9, offset: 51331},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1589, col: 9, offset: 51330},
+																										pos: position{line: 1589, col: 9, offset: 51331},
 																										run: (*parser).callonExtraListElement270,
 																										expr: &seqExpr{
-																											pos: position{line: 1589, col: 9, offset: 51330},
+																											pos: position{line: 1589, col: 9, offset: 51331},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1589, col: 9, offset: 51330},
+																													pos:   position{line: 1589, col: 9, offset: 51331},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1589, col: 16, offset: 51337},
+																														pos: position{line: 1589, col: 16, offset: 51338},
 																														run: (*parser).callonExtraListElement273,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1589, col: 16, offset: 51337},
+																															pos: position{line: 1589, col: 16, offset: 51338},
 																															expr: &litMatcher{
-																																pos:        position{line: 1589, col: 17, offset: 51338},
+																																pos:        position{line: 1589, col: 17, offset: 51339},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -26753,22 +26753,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1593, col: 9, offset: 51438},
+																													pos: position{line: 1593, col: 9, offset: 51439},
 																													run: (*parser).callonExtraListElement276,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1612, col: 11, offset: 52155},
+																										pos: position{line: 1612, col: 11, offset: 52156},
 																										run: (*parser).callonExtraListElement277,
 																										expr: &seqExpr{
-																											pos: position{line: 1612, col: 11, offset: 52155},
+																											pos: position{line: 1612, col: 11, offset: 52156},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1612, col: 11, offset: 52155},
+																													pos: position{line: 1612, col: 11, offset: 52156},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1612, col: 12, offset: 52156},
+																														pos:        position{line: 1612, col: 12, offset: 52157},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -26776,7 +26776,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1612, col: 20, offset: 52164},
+																													pos:        position{line: 1612, col: 20, offset: 52165},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26785,20 +26785,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1614, col: 13, offset: 52281},
+																										pos: position{line: 1614, col: 13, offset: 52282},
 																										run: (*parser).callonExtraListElement282,
 																										expr: &seqExpr{
-																											pos: position{line: 1614, col: 13, offset: 52281},
+																											pos: position{line: 1614, col: 13, offset: 52282},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1614, col: 14, offset: 52282},
+																													pos:        position{line: 1614, col: 14, offset: 52283},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1614, col: 21, offset: 52289},
+																													pos:        position{line: 1614, col: 21, offset: 52290},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26807,20 +26807,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1616, col: 13, offset: 52409},
+																										pos: position{line: 1616, col: 13, offset: 52410},
 																										run: (*parser).callonExtraListElement286,
 																										expr: &seqExpr{
-																											pos: position{line: 1616, col: 13, offset: 52409},
+																											pos: position{line: 1616, col: 13, offset: 52410},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1616, col: 14, offset: 52410},
+																													pos:        position{line: 1616, col: 14, offset: 52411},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1616, col: 21, offset: 52417},
+																													pos:        position{line: 1616, col: 21, offset: 52418},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26829,15 +26829,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1618, col: 13, offset: 52537},
+																										pos: position{line: 1618, col: 13, offset: 52538},
 																										run: (*parser).callonExtraListElement290,
 																										expr: &seqExpr{
-																											pos: position{line: 1618, col: 13, offset: 52537},
+																											pos: position{line: 1618, col: 13, offset: 52538},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1618, col: 13, offset: 52537},
+																													pos: position{line: 1618, col: 13, offset: 52538},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1618, col: 14, offset: 52538},
+																														pos:        position{line: 1618, col: 14, offset: 52539},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -26845,7 +26845,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1618, col: 26, offset: 52550},
+																													pos:        position{line: 1618, col: 26, offset: 52551},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26854,15 +26854,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1620, col: 13, offset: 52670},
+																										pos: position{line: 1620, col: 13, offset: 52671},
 																										run: (*parser).callonExtraListElement295,
 																										expr: &seqExpr{
-																											pos: position{line: 1620, col: 13, offset: 52670},
+																											pos: position{line: 1620, col: 13, offset: 52671},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1620, col: 13, offset: 52670},
+																													pos: position{line: 1620, col: 13, offset: 52671},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1620, col: 14, offset: 52671},
+																														pos:        position{line: 1620, col: 14, offset: 52672},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -26870,7 +26870,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1620, col: 26, offset: 52683},
+																													pos:        position{line: 1620, col: 26, offset: 52684},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26882,12 +26882,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2880, col: 11, offset: 91012},
+																							pos: position{line: 2880, col: 11, offset: 91013},
 																							run: (*parser).callonExtraListElement300,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2880, col: 11, offset: 91012},
+																								pos: position{line: 2880, col: 11, offset: 91013},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 11, offset: 91012},
+																									pos:        position{line: 2880, col: 11, offset: 91013},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26900,26 +26900,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1581, col: 5, offset: 51091},
+																			pos:   position{line: 1581, col: 5, offset: 51092},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1528, col: 5, offset: 49558},
+																				pos: position{line: 1528, col: 5, offset: 49559},
 																				run: (*parser).callonExtraListElement304,
 																				expr: &seqExpr{
-																					pos: position{line: 1528, col: 5, offset: 49558},
+																					pos: position{line: 1528, col: 5, offset: 49559},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1528, col: 5, offset: 49558},
+																							pos:   position{line: 1528, col: 5, offset: 49559},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1528, col: 14, offset: 49567},
+																								pos: position{line: 1528, col: 14, offset: 49568},
 																								expr: &actionExpr{
-																									pos: position{line: 1528, col: 15, offset: 49568},
+																									pos: position{line: 1528, col: 15, offset: 49569},
 																									run: (*parser).callonExtraListElement308,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1528, col: 15, offset: 49568},
+																										pos: position{line: 1528, col: 15, offset: 49569},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1528, col: 15, offset: 49568},
+																											pos:        position{line: 1528, col: 15, offset: 49569},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26930,28 +26930,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91349},
+																							pos: position{line: 2898, col: 8, offset: 91350},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91122},
+																									pos: position{line: 2885, col: 12, offset: 91123},
 																									run: (*parser).callonExtraListElement312,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91123},
+																										pos: position{line: 2885, col: 13, offset: 91124},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91123},
+																												pos:        position{line: 2885, col: 13, offset: 91124},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91130},
+																												pos:        position{line: 2885, col: 20, offset: 91131},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91139},
+																												pos:        position{line: 2885, col: 29, offset: 91140},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26960,9 +26960,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91299},
+																									pos: position{line: 2895, col: 8, offset: 91300},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91300,
+																										line: 2895, col: 9, offset: 91301,
 																									},
 																								},
 																							},
@@ -26975,27 +26975,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1630, col: 5, offset: 52949},
+																pos: position{line: 1630, col: 5, offset: 52950},
 																run: (*parser).callonExtraListElement319,
 																expr: &seqExpr{
-																	pos: position{line: 1630, col: 5, offset: 52949},
+																	pos: position{line: 1630, col: 5, offset: 52950},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1630, col: 5, offset: 52949},
+																			pos:   position{line: 1630, col: 5, offset: 52950},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1637, col: 5, offset: 53222},
+																				pos: position{line: 1637, col: 5, offset: 53223},
 																				run: (*parser).callonExtraListElement322,
 																				expr: &seqExpr{
-																					pos: position{line: 1637, col: 5, offset: 53222},
+																					pos: position{line: 1637, col: 5, offset: 53223},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1637, col: 5, offset: 53222},
+																							pos: position{line: 1637, col: 5, offset: 53223},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 90951},
+																								pos: position{line: 2876, col: 10, offset: 90952},
 																								run: (*parser).callonExtraListElement325,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 90951},
+																									pos:        position{line: 2876, col: 10, offset: 90952},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27004,24 +27004,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1638, col: 5, offset: 53234},
+																							pos:   position{line: 1638, col: 5, offset: 53235},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1639, col: 9, offset: 53250},
+																								pos: position{line: 1639, col: 9, offset: 53251},
 																								run: (*parser).callonExtraListElement328,
 																								expr: &choiceExpr{
-																									pos: position{line: 1639, col: 10, offset: 53251},
+																									pos: position{line: 1639, col: 10, offset: 53252},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1639, col: 11, offset: 53252},
+																											pos:        position{line: 1639, col: 11, offset: 53253},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1639, col: 18, offset: 53259},
+																											pos: position{line: 1639, col: 18, offset: 53260},
 																											expr: &litMatcher{
-																												pos:        position{line: 1639, col: 19, offset: 53260},
+																												pos:        position{line: 1639, col: 19, offset: 53261},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -27032,16 +27032,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1642, col: 7, offset: 53350},
+																							pos: position{line: 1642, col: 7, offset: 53351},
 																							run: (*parser).callonExtraListElement333,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2880, col: 11, offset: 91012},
+																							pos: position{line: 2880, col: 11, offset: 91013},
 																							run: (*parser).callonExtraListElement334,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2880, col: 11, offset: 91012},
+																								pos: position{line: 2880, col: 11, offset: 91013},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 11, offset: 91012},
+																									pos:        position{line: 2880, col: 11, offset: 91013},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27054,56 +27054,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1631, col: 5, offset: 52990},
+																			pos:   position{line: 1631, col: 5, offset: 52991},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1631, col: 16, offset: 53001},
+																				pos: position{line: 1631, col: 16, offset: 53002},
 																				expr: &actionExpr{
-																					pos: position{line: 1652, col: 5, offset: 53615},
+																					pos: position{line: 1652, col: 5, offset: 53616},
 																					run: (*parser).callonExtraListElement339,
 																					expr: &seqExpr{
-																						pos: position{line: 1652, col: 5, offset: 53615},
+																						pos: position{line: 1652, col: 5, offset: 53616},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1652, col: 5, offset: 53615},
+																								pos: position{line: 1652, col: 5, offset: 53616},
 																								expr: &litMatcher{
-																									pos:        position{line: 1652, col: 6, offset: 53616},
+																									pos:        position{line: 1652, col: 6, offset: 53617},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1652, col: 10, offset: 53620},
+																								pos:   position{line: 1652, col: 10, offset: 53621},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1653, col: 7, offset: 53634},
+																									pos: position{line: 1653, col: 7, offset: 53635},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1653, col: 7, offset: 53634},
+																											pos: position{line: 1653, col: 7, offset: 53635},
 																											run: (*parser).callonExtraListElement345,
 																											expr: &litMatcher{
-																												pos:        position{line: 1653, col: 7, offset: 53634},
+																												pos:        position{line: 1653, col: 7, offset: 53635},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1654, col: 7, offset: 53679},
+																											pos: position{line: 1654, col: 7, offset: 53680},
 																											run: (*parser).callonExtraListElement347,
 																											expr: &litMatcher{
-																												pos:        position{line: 1654, col: 7, offset: 53679},
+																												pos:        position{line: 1654, col: 7, offset: 53680},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1655, col: 7, offset: 53722},
+																											pos: position{line: 1655, col: 7, offset: 53723},
 																											run: (*parser).callonExtraListElement349,
 																											expr: &litMatcher{
-																												pos:        position{line: 1655, col: 7, offset: 53722},
+																												pos:        position{line: 1655, col: 7, offset: 53723},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -27113,12 +27113,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2880, col: 11, offset: 91012},
+																								pos: position{line: 2880, col: 11, offset: 91013},
 																								run: (*parser).callonExtraListElement351,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2880, col: 11, offset: 91012},
+																									pos: position{line: 2880, col: 11, offset: 91013},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2880, col: 11, offset: 91012},
+																										pos:        position{line: 2880, col: 11, offset: 91013},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27132,26 +27132,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1632, col: 5, offset: 53040},
+																			pos:   position{line: 1632, col: 5, offset: 53041},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1528, col: 5, offset: 49558},
+																				pos: position{line: 1528, col: 5, offset: 49559},
 																				run: (*parser).callonExtraListElement355,
 																				expr: &seqExpr{
-																					pos: position{line: 1528, col: 5, offset: 49558},
+																					pos: position{line: 1528, col: 5, offset: 49559},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1528, col: 5, offset: 49558},
+																							pos:   position{line: 1528, col: 5, offset: 49559},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1528, col: 14, offset: 49567},
+																								pos: position{line: 1528, col: 14, offset: 49568},
 																								expr: &actionExpr{
-																									pos: position{line: 1528, col: 15, offset: 49568},
+																									pos: position{line: 1528, col: 15, offset: 49569},
 																									run: (*parser).callonExtraListElement359,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1528, col: 15, offset: 49568},
+																										pos: position{line: 1528, col: 15, offset: 49569},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1528, col: 15, offset: 49568},
+																											pos:        position{line: 1528, col: 15, offset: 49569},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27162,28 +27162,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91349},
+																							pos: position{line: 2898, col: 8, offset: 91350},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91122},
+																									pos: position{line: 2885, col: 12, offset: 91123},
 																									run: (*parser).callonExtraListElement363,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91123},
+																										pos: position{line: 2885, col: 13, offset: 91124},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91123},
+																												pos:        position{line: 2885, col: 13, offset: 91124},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91130},
+																												pos:        position{line: 2885, col: 20, offset: 91131},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91139},
+																												pos:        position{line: 2885, col: 29, offset: 91140},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27192,9 +27192,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91299},
+																									pos: position{line: 2895, col: 8, offset: 91300},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91300,
+																										line: 2895, col: 9, offset: 91301,
 																									},
 																								},
 																							},
@@ -27207,36 +27207,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1721, col: 5, offset: 55594},
+																pos: position{line: 1721, col: 5, offset: 55595},
 																run: (*parser).callonExtraListElement370,
 																expr: &seqExpr{
-																	pos: position{line: 1721, col: 5, offset: 55594},
+																	pos: position{line: 1721, col: 5, offset: 55595},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1721, col: 5, offset: 55594},
+																			pos:   position{line: 1721, col: 5, offset: 55595},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1727, col: 5, offset: 55791},
+																				pos: position{line: 1727, col: 5, offset: 55792},
 																				run: (*parser).callonExtraListElement373,
 																				expr: &seqExpr{
-																					pos: position{line: 1727, col: 5, offset: 55791},
+																					pos: position{line: 1727, col: 5, offset: 55792},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1727, col: 5, offset: 55791},
+																							pos:        position{line: 1727, col: 5, offset: 55792},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1727, col: 9, offset: 55795},
+																							pos:   position{line: 1727, col: 9, offset: 55796},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1727, col: 14, offset: 55800},
+																								pos: position{line: 1727, col: 14, offset: 55801},
 																								run: (*parser).callonExtraListElement377,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1727, col: 14, offset: 55800},
+																									pos: position{line: 1727, col: 14, offset: 55801},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1727, col: 14, offset: 55800},
+																										pos:        position{line: 1727, col: 14, offset: 55801},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -27246,18 +27246,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1727, col: 62, offset: 55848},
+																							pos:        position{line: 1727, col: 62, offset: 55849},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2880, col: 11, offset: 91012},
+																							pos: position{line: 2880, col: 11, offset: 91013},
 																							run: (*parser).callonExtraListElement381,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2880, col: 11, offset: 91012},
+																								pos: position{line: 2880, col: 11, offset: 91013},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 11, offset: 91012},
+																									pos:        position{line: 2880, col: 11, offset: 91013},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27270,26 +27270,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1722, col: 5, offset: 55630},
+																			pos:   position{line: 1722, col: 5, offset: 55631},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1528, col: 5, offset: 49558},
+																				pos: position{line: 1528, col: 5, offset: 49559},
 																				run: (*parser).callonExtraListElement385,
 																				expr: &seqExpr{
-																					pos: position{line: 1528, col: 5, offset: 49558},
+																					pos: position{line: 1528, col: 5, offset: 49559},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1528, col: 5, offset: 49558},
+																							pos:   position{line: 1528, col: 5, offset: 49559},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1528, col: 14, offset: 49567},
+																								pos: position{line: 1528, col: 14, offset: 49568},
 																								expr: &actionExpr{
-																									pos: position{line: 1528, col: 15, offset: 49568},
+																									pos: position{line: 1528, col: 15, offset: 49569},
 																									run: (*parser).callonExtraListElement389,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1528, col: 15, offset: 49568},
+																										pos: position{line: 1528, col: 15, offset: 49569},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1528, col: 15, offset: 49568},
+																											pos:        position{line: 1528, col: 15, offset: 49569},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27300,28 +27300,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91349},
+																							pos: position{line: 2898, col: 8, offset: 91350},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91122},
+																									pos: position{line: 2885, col: 12, offset: 91123},
 																									run: (*parser).callonExtraListElement393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91123},
+																										pos: position{line: 2885, col: 13, offset: 91124},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91123},
+																												pos:        position{line: 2885, col: 13, offset: 91124},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91130},
+																												pos:        position{line: 2885, col: 20, offset: 91131},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91139},
+																												pos:        position{line: 2885, col: 29, offset: 91140},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27330,9 +27330,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91299},
+																									pos: position{line: 2895, col: 8, offset: 91300},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91300,
+																										line: 2895, col: 9, offset: 91301,
 																									},
 																								},
 																							},
@@ -27345,35 +27345,35 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1664, col: 5, offset: 53915},
+																pos: position{line: 1664, col: 5, offset: 53916},
 																run: (*parser).callonExtraListElement400,
 																expr: &seqExpr{
-																	pos: position{line: 1664, col: 5, offset: 53915},
+																	pos: position{line: 1664, col: 5, offset: 53916},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1664, col: 5, offset: 53915},
+																			pos:   position{line: 1664, col: 5, offset: 53916},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1672, col: 5, offset: 54241},
+																				pos: position{line: 1672, col: 5, offset: 54242},
 																				run: (*parser).callonExtraListElement403,
 																				expr: &seqExpr{
-																					pos: position{line: 1672, col: 5, offset: 54241},
+																					pos: position{line: 1672, col: 5, offset: 54242},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1672, col: 5, offset: 54241},
+																							pos: position{line: 1672, col: 5, offset: 54242},
 																							expr: &seqExpr{
-																								pos: position{line: 2488, col: 31, offset: 80079},
+																								pos: position{line: 2488, col: 31, offset: 80080},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2488, col: 31, offset: 80079},
+																										pos:        position{line: 2488, col: 31, offset: 80080},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2488, col: 36, offset: 80084},
+																										pos: position{line: 2488, col: 36, offset: 80085},
 																										expr: &litMatcher{
-																											pos:        position{line: 2488, col: 37, offset: 80085},
+																											pos:        position{line: 2488, col: 37, offset: 80086},
 																											val:        "//",
 																											ignoreCase: false,
 																											want:       "\"//\"",
@@ -27383,28 +27383,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1673, col: 5, offset: 54273},
+																							pos: position{line: 1673, col: 5, offset: 54274},
 																							expr: &seqExpr{
-																								pos: position{line: 1673, col: 6, offset: 54274},
+																								pos: position{line: 1673, col: 6, offset: 54275},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1673, col: 6, offset: 54274},
+																										pos: position{line: 1673, col: 6, offset: 54275},
 																										expr: &actionExpr{
-																											pos: position{line: 1678, col: 5, offset: 54424},
+																											pos: position{line: 1678, col: 5, offset: 54425},
 																											run: (*parser).callonExtraListElement413,
 																											expr: &seqExpr{
-																												pos: position{line: 1678, col: 5, offset: 54424},
+																												pos: position{line: 1678, col: 5, offset: 54425},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1678, col: 5, offset: 54424},
+																														pos:   position{line: 1678, col: 5, offset: 54425},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1678, col: 16, offset: 54435},
+																															pos: position{line: 1678, col: 16, offset: 54436},
 																															run: (*parser).callonExtraListElement416,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1678, col: 16, offset: 54435},
+																																pos: position{line: 1678, col: 16, offset: 54436},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1678, col: 17, offset: 54436},
+																																	pos:        position{line: 1678, col: 17, offset: 54437},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -27413,7 +27413,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1681, col: 5, offset: 54493},
+																														pos: position{line: 1681, col: 5, offset: 54494},
 																														run: (*parser).callonExtraListElement419,
 																													},
 																												},
@@ -27421,30 +27421,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1673, col: 35, offset: 54303},
+																										pos: position{line: 1673, col: 35, offset: 54304},
 																										expr: &choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91349},
+																											pos: position{line: 2898, col: 8, offset: 91350},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91122},
+																													pos: position{line: 2885, col: 12, offset: 91123},
 																													run: (*parser).callonExtraListElement422,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91123},
+																														pos: position{line: 2885, col: 13, offset: 91124},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91123},
+																																pos:        position{line: 2885, col: 13, offset: 91124},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91130},
+																																pos:        position{line: 2885, col: 20, offset: 91131},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91139},
+																																pos:        position{line: 2885, col: 29, offset: 91140},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -27453,16 +27453,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91299},
+																													pos: position{line: 2895, col: 8, offset: 91300},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91300,
+																														line: 2895, col: 9, offset: 91301,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1673, col: 40, offset: 54308,
+																										line: 1673, col: 40, offset: 54309,
 																									},
 																								},
 																							},
@@ -27472,24 +27472,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1665, col: 5, offset: 53950},
+																			pos:   position{line: 1665, col: 5, offset: 53951},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1678, col: 5, offset: 54424},
+																				pos: position{line: 1678, col: 5, offset: 54425},
 																				run: (*parser).callonExtraListElement431,
 																				expr: &seqExpr{
-																					pos: position{line: 1678, col: 5, offset: 54424},
+																					pos: position{line: 1678, col: 5, offset: 54425},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1678, col: 5, offset: 54424},
+																							pos:   position{line: 1678, col: 5, offset: 54425},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1678, col: 16, offset: 54435},
+																								pos: position{line: 1678, col: 16, offset: 54436},
 																								run: (*parser).callonExtraListElement434,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1678, col: 16, offset: 54435},
+																									pos: position{line: 1678, col: 16, offset: 54436},
 																									expr: &litMatcher{
-																										pos:        position{line: 1678, col: 17, offset: 54436},
+																										pos:        position{line: 1678, col: 17, offset: 54437},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -27498,7 +27498,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1681, col: 5, offset: 54493},
+																							pos: position{line: 1681, col: 5, offset: 54494},
 																							run: (*parser).callonExtraListElement437,
 																						},
 																					},
@@ -27506,24 +27506,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1666, col: 5, offset: 53995},
+																			pos:   position{line: 1666, col: 5, offset: 53996},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1689, col: 5, offset: 54742},
+																				pos: position{line: 1689, col: 5, offset: 54743},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1691, col: 9, offset: 54808},
+																						pos: position{line: 1691, col: 9, offset: 54809},
 																						run: (*parser).callonExtraListElement440,
 																						expr: &seqExpr{
-																							pos: position{line: 1691, col: 9, offset: 54808},
+																							pos: position{line: 1691, col: 9, offset: 54809},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1691, col: 9, offset: 54808},
+																									pos: position{line: 1691, col: 9, offset: 54809},
 																									expr: &actionExpr{
-																										pos: position{line: 2876, col: 10, offset: 90951},
+																										pos: position{line: 2876, col: 10, offset: 90952},
 																										run: (*parser).callonExtraListElement443,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2876, col: 10, offset: 90951},
+																											pos:        position{line: 2876, col: 10, offset: 90952},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27532,28 +27532,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2898, col: 8, offset: 91349},
+																									pos: position{line: 2898, col: 8, offset: 91350},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2885, col: 12, offset: 91122},
+																											pos: position{line: 2885, col: 12, offset: 91123},
 																											run: (*parser).callonExtraListElement446,
 																											expr: &choiceExpr{
-																												pos: position{line: 2885, col: 13, offset: 91123},
+																												pos: position{line: 2885, col: 13, offset: 91124},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 13, offset: 91123},
+																														pos:        position{line: 2885, col: 13, offset: 91124},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 20, offset: 91130},
+																														pos:        position{line: 2885, col: 20, offset: 91131},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 29, offset: 91139},
+																														pos:        position{line: 2885, col: 29, offset: 91140},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27562,34 +27562,34 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2895, col: 8, offset: 91299},
+																											pos: position{line: 2895, col: 8, offset: 91300},
 																											expr: &anyMatcher{
-																												line: 2895, col: 9, offset: 91300,
+																												line: 2895, col: 9, offset: 91301,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1692, col: 9, offset: 54827},
+																									pos: position{line: 1692, col: 9, offset: 54828},
 																									expr: &actionExpr{
-																										pos: position{line: 677, col: 14, offset: 21557},
+																										pos: position{line: 677, col: 14, offset: 21558},
 																										run: (*parser).callonExtraListElement454,
 																										expr: &seqExpr{
-																											pos: position{line: 677, col: 14, offset: 21557},
+																											pos: position{line: 677, col: 14, offset: 21558},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2893, col: 11, offset: 91285},
+																													pos: position{line: 2893, col: 11, offset: 91286},
 																													expr: &anyMatcher{
-																														line: 2893, col: 13, offset: 91287,
+																														line: 2893, col: 13, offset: 91288,
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 677, col: 21, offset: 21564},
+																													pos: position{line: 677, col: 21, offset: 21565},
 																													expr: &actionExpr{
-																														pos: position{line: 2876, col: 10, offset: 90951},
+																														pos: position{line: 2876, col: 10, offset: 90952},
 																														run: (*parser).callonExtraListElement459,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2876, col: 10, offset: 90951},
+																															pos:        position{line: 2876, col: 10, offset: 90952},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27598,28 +27598,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2898, col: 8, offset: 91349},
+																													pos: position{line: 2898, col: 8, offset: 91350},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2885, col: 12, offset: 91122},
+																															pos: position{line: 2885, col: 12, offset: 91123},
 																															run: (*parser).callonExtraListElement462,
 																															expr: &choiceExpr{
-																																pos: position{line: 2885, col: 13, offset: 91123},
+																																pos: position{line: 2885, col: 13, offset: 91124},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2885, col: 13, offset: 91123},
+																																		pos:        position{line: 2885, col: 13, offset: 91124},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2885, col: 20, offset: 91130},
+																																		pos:        position{line: 2885, col: 20, offset: 91131},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2885, col: 29, offset: 91139},
+																																		pos:        position{line: 2885, col: 29, offset: 91140},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -27628,9 +27628,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2895, col: 8, offset: 91299},
+																															pos: position{line: 2895, col: 8, offset: 91300},
 																															expr: &anyMatcher{
-																																line: 2895, col: 9, offset: 91300,
+																																line: 2895, col: 9, offset: 91301,
 																															},
 																														},
 																													},
@@ -27643,18 +27643,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1698, col: 9, offset: 54956},
+																						pos: position{line: 1698, col: 9, offset: 54957},
 																						run: (*parser).callonExtraListElement469,
 																						expr: &seqExpr{
-																							pos: position{line: 1698, col: 9, offset: 54956},
+																							pos: position{line: 1698, col: 9, offset: 54957},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2880, col: 11, offset: 91012},
+																									pos: position{line: 2880, col: 11, offset: 91013},
 																									run: (*parser).callonExtraListElement471,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2880, col: 11, offset: 91012},
+																										pos: position{line: 2880, col: 11, offset: 91013},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2880, col: 11, offset: 91012},
+																											pos:        position{line: 2880, col: 11, offset: 91013},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27663,15 +27663,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1699, col: 9, offset: 55029},
+																									pos:   position{line: 1699, col: 9, offset: 55030},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1699, col: 18, offset: 55038},
+																										pos: position{line: 1699, col: 18, offset: 55039},
 																										run: (*parser).callonExtraListElement475,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1699, col: 18, offset: 55038},
+																											pos: position{line: 1699, col: 18, offset: 55039},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1699, col: 18, offset: 55038},
+																												pos:        position{line: 1699, col: 18, offset: 55039},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -27681,28 +27681,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2898, col: 8, offset: 91349},
+																									pos: position{line: 2898, col: 8, offset: 91350},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2885, col: 12, offset: 91122},
+																											pos: position{line: 2885, col: 12, offset: 91123},
 																											run: (*parser).callonExtraListElement479,
 																											expr: &choiceExpr{
-																												pos: position{line: 2885, col: 13, offset: 91123},
+																												pos: position{line: 2885, col: 13, offset: 91124},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 13, offset: 91123},
+																														pos:        position{line: 2885, col: 13, offset: 91124},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 20, offset: 91130},
+																														pos:        position{line: 2885, col: 20, offset: 91131},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 29, offset: 91139},
+																														pos:        position{line: 2885, col: 29, offset: 91140},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27711,9 +27711,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2895, col: 8, offset: 91299},
+																											pos: position{line: 2895, col: 8, offset: 91300},
 																											expr: &anyMatcher{
-																												line: 2895, col: 9, offset: 91300,
+																												line: 2895, col: 9, offset: 91301,
 																											},
 																										},
 																									},
@@ -27734,40 +27734,40 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1507, col: 11, offset: 48922},
+										pos:  position{line: 1507, col: 11, offset: 48923},
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2483, col: 22, offset: 79858},
+										pos: position{line: 2483, col: 22, offset: 79859},
 										run: (*parser).callonExtraListElement487,
 										expr: &seqExpr{
-											pos: position{line: 2483, col: 22, offset: 79858},
+											pos: position{line: 2483, col: 22, offset: 79859},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2488, col: 31, offset: 80079},
+													pos:        position{line: 2488, col: 31, offset: 80080},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2488, col: 36, offset: 80084},
+													pos: position{line: 2488, col: 36, offset: 80085},
 													expr: &litMatcher{
-														pos:        position{line: 2488, col: 37, offset: 80085},
+														pos:        position{line: 2488, col: 37, offset: 80086},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2483, col: 49, offset: 79885},
+													pos:   position{line: 2483, col: 49, offset: 79886},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2822, col: 13, offset: 89477},
+														pos: position{line: 2822, col: 13, offset: 89478},
 														run: (*parser).callonExtraListElement493,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2822, col: 13, offset: 89477},
+															pos: position{line: 2822, col: 13, offset: 89478},
 															expr: &charClassMatcher{
-																pos:        position{line: 2822, col: 13, offset: 89477},
+																pos:        position{line: 2822, col: 13, offset: 89478},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -27777,28 +27777,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2898, col: 8, offset: 91349},
+													pos: position{line: 2898, col: 8, offset: 91350},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91122},
+															pos: position{line: 2885, col: 12, offset: 91123},
 															run: (*parser).callonExtraListElement497,
 															expr: &choiceExpr{
-																pos: position{line: 2885, col: 13, offset: 91123},
+																pos: position{line: 2885, col: 13, offset: 91124},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 13, offset: 91123},
+																		pos:        position{line: 2885, col: 13, offset: 91124},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 20, offset: 91130},
+																		pos:        position{line: 2885, col: 20, offset: 91131},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 29, offset: 91139},
+																		pos:        position{line: 2885, col: 29, offset: 91140},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -27807,9 +27807,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2895, col: 8, offset: 91299},
+															pos: position{line: 2895, col: 8, offset: 91300},
 															expr: &anyMatcher{
-																line: 2895, col: 9, offset: 91300,
+																line: 2895, col: 9, offset: 91301,
 															},
 														},
 													},
@@ -27818,32 +27818,32 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1515, col: 5, offset: 49200},
+										pos: position{line: 1515, col: 5, offset: 49201},
 										run: (*parser).callonExtraListElement504,
 										expr: &seqExpr{
-											pos: position{line: 1515, col: 5, offset: 49200},
+											pos: position{line: 1515, col: 5, offset: 49201},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 1515, col: 5, offset: 49200},
+													pos: position{line: 1515, col: 5, offset: 49201},
 													expr: &actionExpr{
-														pos: position{line: 677, col: 14, offset: 21557},
+														pos: position{line: 677, col: 14, offset: 21558},
 														run: (*parser).callonExtraListElement507,
 														expr: &seqExpr{
-															pos: position{line: 677, col: 14, offset: 21557},
+															pos: position{line: 677, col: 14, offset: 21558},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2893, col: 11, offset: 91285},
+																	pos: position{line: 2893, col: 11, offset: 91286},
 																	expr: &anyMatcher{
-																		line: 2893, col: 13, offset: 91287,
+																		line: 2893, col: 13, offset: 91288,
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 677, col: 21, offset: 21564},
+																	pos: position{line: 677, col: 21, offset: 21565},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 90951},
+																		pos: position{line: 2876, col: 10, offset: 90952},
 																		run: (*parser).callonExtraListElement512,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 90951},
+																			pos:        position{line: 2876, col: 10, offset: 90952},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27852,28 +27852,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91349},
+																	pos: position{line: 2898, col: 8, offset: 91350},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91122},
+																			pos: position{line: 2885, col: 12, offset: 91123},
 																			run: (*parser).callonExtraListElement515,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91123},
+																				pos: position{line: 2885, col: 13, offset: 91124},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91123},
+																						pos:        position{line: 2885, col: 13, offset: 91124},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91130},
+																						pos:        position{line: 2885, col: 20, offset: 91131},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91139},
+																						pos:        position{line: 2885, col: 29, offset: 91140},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -27882,9 +27882,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91299},
+																			pos: position{line: 2895, col: 8, offset: 91300},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91300,
+																				line: 2895, col: 9, offset: 91301,
 																			},
 																		},
 																	},
@@ -27894,23 +27894,23 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1516, col: 5, offset: 49215},
+													pos: position{line: 1516, col: 5, offset: 49216},
 													expr: &seqExpr{
-														pos: position{line: 1546, col: 27, offset: 50041},
+														pos: position{line: 1546, col: 27, offset: 50042},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 1546, col: 27, offset: 50041},
+																pos:        position{line: 1546, col: 27, offset: 50042},
 																val:        "+",
 																ignoreCase: false,
 																want:       "\"+\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 1546, col: 31, offset: 50045},
+																pos: position{line: 1546, col: 31, offset: 50046},
 																expr: &actionExpr{
-																	pos: position{line: 2876, col: 10, offset: 90951},
+																	pos: position{line: 2876, col: 10, offset: 90952},
 																	run: (*parser).callonExtraListElement526,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2876, col: 10, offset: 90951},
+																		pos:        position{line: 2876, col: 10, offset: 90952},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -27919,25 +27919,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2885, col: 12, offset: 91122},
+																pos: position{line: 2885, col: 12, offset: 91123},
 																run: (*parser).callonExtraListElement528,
 																expr: &choiceExpr{
-																	pos: position{line: 2885, col: 13, offset: 91123},
+																	pos: position{line: 2885, col: 13, offset: 91124},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 13, offset: 91123},
+																			pos:        position{line: 2885, col: 13, offset: 91124},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 20, offset: 91130},
+																			pos:        position{line: 2885, col: 20, offset: 91131},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 29, offset: 91139},
+																			pos:        position{line: 2885, col: 29, offset: 91140},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -27949,20 +27949,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1517, col: 5, offset: 49243},
+													pos: position{line: 1517, col: 5, offset: 49244},
 													expr: &actionExpr{
-														pos: position{line: 1587, col: 5, offset: 51260},
+														pos: position{line: 1587, col: 5, offset: 51261},
 														run: (*parser).callonExtraListElement534,
 														expr: &seqExpr{
-															pos: position{line: 1587, col: 5, offset: 51260},
+															pos: position{line: 1587, col: 5, offset: 51261},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1587, col: 5, offset: 51260},
+																	pos: position{line: 1587, col: 5, offset: 51261},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 90951},
+																		pos: position{line: 2876, col: 10, offset: 90952},
 																		run: (*parser).callonExtraListElement537,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 90951},
+																			pos:        position{line: 2876, col: 10, offset: 90952},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27971,27 +27971,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1587, col: 12, offset: 51267},
+																	pos:   position{line: 1587, col: 12, offset: 51268},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1589, col: 9, offset: 51330},
+																		pos: position{line: 1589, col: 9, offset: 51331},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1589, col: 9, offset: 51330},
+																				pos: position{line: 1589, col: 9, offset: 51331},
 																				run: (*parser).callonExtraListElement541,
 																				expr: &seqExpr{
-																					pos: position{line: 1589, col: 9, offset: 51330},
+																					pos: position{line: 1589, col: 9, offset: 51331},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1589, col: 9, offset: 51330},
+																							pos:   position{line: 1589, col: 9, offset: 51331},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1589, col: 16, offset: 51337},
+																								pos: position{line: 1589, col: 16, offset: 51338},
 																								run: (*parser).callonExtraListElement544,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1589, col: 16, offset: 51337},
+																									pos: position{line: 1589, col: 16, offset: 51338},
 																									expr: &litMatcher{
-																										pos:        position{line: 1589, col: 17, offset: 51338},
+																										pos:        position{line: 1589, col: 17, offset: 51339},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -28000,22 +28000,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1593, col: 9, offset: 51438},
+																							pos: position{line: 1593, col: 9, offset: 51439},
 																							run: (*parser).callonExtraListElement547,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1612, col: 11, offset: 52155},
+																				pos: position{line: 1612, col: 11, offset: 52156},
 																				run: (*parser).callonExtraListElement548,
 																				expr: &seqExpr{
-																					pos: position{line: 1612, col: 11, offset: 52155},
+																					pos: position{line: 1612, col: 11, offset: 52156},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1612, col: 11, offset: 52155},
+																							pos: position{line: 1612, col: 11, offset: 52156},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1612, col: 12, offset: 52156},
+																								pos:        position{line: 1612, col: 12, offset: 52157},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -28023,7 +28023,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1612, col: 20, offset: 52164},
+																							pos:        position{line: 1612, col: 20, offset: 52165},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28032,20 +28032,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1614, col: 13, offset: 52281},
+																				pos: position{line: 1614, col: 13, offset: 52282},
 																				run: (*parser).callonExtraListElement553,
 																				expr: &seqExpr{
-																					pos: position{line: 1614, col: 13, offset: 52281},
+																					pos: position{line: 1614, col: 13, offset: 52282},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1614, col: 14, offset: 52282},
+																							pos:        position{line: 1614, col: 14, offset: 52283},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1614, col: 21, offset: 52289},
+																							pos:        position{line: 1614, col: 21, offset: 52290},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28054,20 +28054,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1616, col: 13, offset: 52409},
+																				pos: position{line: 1616, col: 13, offset: 52410},
 																				run: (*parser).callonExtraListElement557,
 																				expr: &seqExpr{
-																					pos: position{line: 1616, col: 13, offset: 52409},
+																					pos: position{line: 1616, col: 13, offset: 52410},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1616, col: 14, offset: 52410},
+																							pos:        position{line: 1616, col: 14, offset: 52411},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1616, col: 21, offset: 52417},
+																							pos:        position{line: 1616, col: 21, offset: 52418},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28076,15 +28076,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1618, col: 13, offset: 52537},
+																				pos: position{line: 1618, col: 13, offset: 52538},
 																				run: (*parser).callonExtraListElement561,
 																				expr: &seqExpr{
-																					pos: position{line: 1618, col: 13, offset: 52537},
+																					pos: position{line: 1618, col: 13, offset: 52538},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1618, col: 13, offset: 52537},
+																							pos: position{line: 1618, col: 13, offset: 52538},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1618, col: 14, offset: 52538},
+																								pos:        position{line: 1618, col: 14, offset: 52539},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -28092,7 +28092,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1618, col: 26, offset: 52550},
+																							pos:        position{line: 1618, col: 26, offset: 52551},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -28101,15 +28101,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1620, col: 13, offset: 52670},
+																				pos: position{line: 1620, col: 13, offset: 52671},
 																				run: (*parser).callonExtraListElement566,
 																				expr: &seqExpr{
-																					pos: position{line: 1620, col: 13, offset: 52670},
+																					pos: position{line: 1620, col: 13, offset: 52671},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1620, col: 13, offset: 52670},
+																							pos: position{line: 1620, col: 13, offset: 52671},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1620, col: 14, offset: 52671},
+																								pos:        position{line: 1620, col: 14, offset: 52672},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -28117,7 +28117,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1620, col: 26, offset: 52683},
+																							pos:        position{line: 1620, col: 26, offset: 52684},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -28129,12 +28129,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2880, col: 11, offset: 91012},
+																	pos: position{line: 2880, col: 11, offset: 91013},
 																	run: (*parser).callonExtraListElement571,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2880, col: 11, offset: 91012},
+																		pos: position{line: 2880, col: 11, offset: 91013},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 11, offset: 91012},
+																			pos:        position{line: 2880, col: 11, offset: 91013},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28147,20 +28147,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1518, col: 5, offset: 49273},
+													pos: position{line: 1518, col: 5, offset: 49274},
 													expr: &actionExpr{
-														pos: position{line: 1637, col: 5, offset: 53222},
+														pos: position{line: 1637, col: 5, offset: 53223},
 														run: (*parser).callonExtraListElement575,
 														expr: &seqExpr{
-															pos: position{line: 1637, col: 5, offset: 53222},
+															pos: position{line: 1637, col: 5, offset: 53223},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1637, col: 5, offset: 53222},
+																	pos: position{line: 1637, col: 5, offset: 53223},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 90951},
+																		pos: position{line: 2876, col: 10, offset: 90952},
 																		run: (*parser).callonExtraListElement578,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 90951},
+																			pos:        position{line: 2876, col: 10, offset: 90952},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28169,24 +28169,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1638, col: 5, offset: 53234},
+																	pos:   position{line: 1638, col: 5, offset: 53235},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1639, col: 9, offset: 53250},
+																		pos: position{line: 1639, col: 9, offset: 53251},
 																		run: (*parser).callonExtraListElement581,
 																		expr: &choiceExpr{
-																			pos: position{line: 1639, col: 10, offset: 53251},
+																			pos: position{line: 1639, col: 10, offset: 53252},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1639, col: 11, offset: 53252},
+																					pos:        position{line: 1639, col: 11, offset: 53253},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1639, col: 18, offset: 53259},
+																					pos: position{line: 1639, col: 18, offset: 53260},
 																					expr: &litMatcher{
-																						pos:        position{line: 1639, col: 19, offset: 53260},
+																						pos:        position{line: 1639, col: 19, offset: 53261},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -28197,16 +28197,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1642, col: 7, offset: 53350},
+																	pos: position{line: 1642, col: 7, offset: 53351},
 																	run: (*parser).callonExtraListElement586,
 																},
 																&actionExpr{
-																	pos: position{line: 2880, col: 11, offset: 91012},
+																	pos: position{line: 2880, col: 11, offset: 91013},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2880, col: 11, offset: 91012},
+																		pos: position{line: 2880, col: 11, offset: 91013},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 11, offset: 91012},
+																			pos:        position{line: 2880, col: 11, offset: 91013},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28219,29 +28219,29 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1519, col: 5, offset: 49305},
+													pos: position{line: 1519, col: 5, offset: 49306},
 													expr: &actionExpr{
-														pos: position{line: 1727, col: 5, offset: 55791},
+														pos: position{line: 1727, col: 5, offset: 55792},
 														run: (*parser).callonExtraListElement591,
 														expr: &seqExpr{
-															pos: position{line: 1727, col: 5, offset: 55791},
+															pos: position{line: 1727, col: 5, offset: 55792},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1727, col: 5, offset: 55791},
+																	pos:        position{line: 1727, col: 5, offset: 55792},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1727, col: 9, offset: 55795},
+																	pos:   position{line: 1727, col: 9, offset: 55796},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1727, col: 14, offset: 55800},
+																		pos: position{line: 1727, col: 14, offset: 55801},
 																		run: (*parser).callonExtraListElement595,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1727, col: 14, offset: 55800},
+																			pos: position{line: 1727, col: 14, offset: 55801},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1727, col: 14, offset: 55800},
+																				pos:        position{line: 1727, col: 14, offset: 55801},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -28251,18 +28251,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1727, col: 62, offset: 55848},
+																	pos:        position{line: 1727, col: 62, offset: 55849},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2880, col: 11, offset: 91012},
+																	pos: position{line: 2880, col: 11, offset: 91013},
 																	run: (*parser).callonExtraListElement599,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2880, col: 11, offset: 91012},
+																		pos: position{line: 2880, col: 11, offset: 91013},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 11, offset: 91012},
+																			pos:        position{line: 2880, col: 11, offset: 91013},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28275,31 +28275,31 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1520, col: 5, offset: 49335},
+													pos: position{line: 1520, col: 5, offset: 49336},
 													expr: &seqExpr{
-														pos: position{line: 1520, col: 7, offset: 49337},
+														pos: position{line: 1520, col: 7, offset: 49338},
 														exprs: []interface{}{
 															&actionExpr{
-																pos: position{line: 1672, col: 5, offset: 54241},
+																pos: position{line: 1672, col: 5, offset: 54242},
 																run: (*parser).callonExtraListElement604,
 																expr: &seqExpr{
-																	pos: position{line: 1672, col: 5, offset: 54241},
+																	pos: position{line: 1672, col: 5, offset: 54242},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1672, col: 5, offset: 54241},
+																			pos: position{line: 1672, col: 5, offset: 54242},
 																			expr: &seqExpr{
-																				pos: position{line: 2488, col: 31, offset: 80079},
+																				pos: position{line: 2488, col: 31, offset: 80080},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2488, col: 31, offset: 80079},
+																						pos:        position{line: 2488, col: 31, offset: 80080},
 																						val:        "//",
 																						ignoreCase: false,
 																						want:       "\"//\"",
 																					},
 																					&notExpr{
-																						pos: position{line: 2488, col: 36, offset: 80084},
+																						pos: position{line: 2488, col: 36, offset: 80085},
 																						expr: &litMatcher{
-																							pos:        position{line: 2488, col: 37, offset: 80085},
+																							pos:        position{line: 2488, col: 37, offset: 80086},
 																							val:        "//",
 																							ignoreCase: false,
 																							want:       "\"//\"",
@@ -28309,28 +28309,28 @@ var g = &grammar{
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 1673, col: 5, offset: 54273},
+																			pos: position{line: 1673, col: 5, offset: 54274},
 																			expr: &seqExpr{
-																				pos: position{line: 1673, col: 6, offset: 54274},
+																				pos: position{line: 1673, col: 6, offset: 54275},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1673, col: 6, offset: 54274},
+																						pos: position{line: 1673, col: 6, offset: 54275},
 																						expr: &actionExpr{
-																							pos: position{line: 1678, col: 5, offset: 54424},
+																							pos: position{line: 1678, col: 5, offset: 54425},
 																							run: (*parser).callonExtraListElement614,
 																							expr: &seqExpr{
-																								pos: position{line: 1678, col: 5, offset: 54424},
+																								pos: position{line: 1678, col: 5, offset: 54425},
 																								exprs: []interface{}{
 																									&labeledExpr{
-																										pos:   position{line: 1678, col: 5, offset: 54424},
+																										pos:   position{line: 1678, col: 5, offset: 54425},
 																										label: "separator",
 																										expr: &actionExpr{
-																											pos: position{line: 1678, col: 16, offset: 54435},
+																											pos: position{line: 1678, col: 16, offset: 54436},
 																											run: (*parser).callonExtraListElement617,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1678, col: 16, offset: 54435},
+																												pos: position{line: 1678, col: 16, offset: 54436},
 																												expr: &litMatcher{
-																													pos:        position{line: 1678, col: 17, offset: 54436},
+																													pos:        position{line: 1678, col: 17, offset: 54437},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
@@ -28339,7 +28339,7 @@ var g = &grammar{
 																										},
 																									},
 																									&andCodeExpr{
-																										pos: position{line: 1681, col: 5, offset: 54493},
+																										pos: position{line: 1681, col: 5, offset: 54494},
 																										run: (*parser).callonExtraListElement620,
 																									},
 																								},
@@ -28347,30 +28347,30 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1673, col: 35, offset: 54303},
+																						pos: position{line: 1673, col: 35, offset: 54304},
 																						expr: &choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91349},
+																							pos: position{line: 2898, col: 8, offset: 91350},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91122},
+																									pos: position{line: 2885, col: 12, offset: 91123},
 																									run: (*parser).callonExtraListElement623,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91123},
+																										pos: position{line: 2885, col: 13, offset: 91124},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91123},
+																												pos:        position{line: 2885, col: 13, offset: 91124},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91130},
+																												pos:        position{line: 2885, col: 20, offset: 91131},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91139},
+																												pos:        position{line: 2885, col: 29, offset: 91140},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28379,16 +28379,16 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91299},
+																									pos: position{line: 2895, col: 8, offset: 91300},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91300,
+																										line: 2895, col: 9, offset: 91301,
 																									},
 																								},
 																							},
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1673, col: 40, offset: 54308,
+																						line: 1673, col: 40, offset: 54309,
 																					},
 																				},
 																			},
@@ -28397,21 +28397,21 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1678, col: 5, offset: 54424},
+																pos: position{line: 1678, col: 5, offset: 54425},
 																run: (*parser).callonExtraListElement631,
 																expr: &seqExpr{
-																	pos: position{line: 1678, col: 5, offset: 54424},
+																	pos: position{line: 1678, col: 5, offset: 54425},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1678, col: 5, offset: 54424},
+																			pos:   position{line: 1678, col: 5, offset: 54425},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1678, col: 16, offset: 54435},
+																				pos: position{line: 1678, col: 16, offset: 54436},
 																				run: (*parser).callonExtraListElement634,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1678, col: 16, offset: 54435},
+																					pos: position{line: 1678, col: 16, offset: 54436},
 																					expr: &litMatcher{
-																						pos:        position{line: 1678, col: 17, offset: 54436},
+																						pos:        position{line: 1678, col: 17, offset: 54437},
 																						val:        ":",
 																						ignoreCase: false,
 																						want:       "\":\"",
@@ -28420,7 +28420,7 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1681, col: 5, offset: 54493},
+																			pos: position{line: 1681, col: 5, offset: 54494},
 																			run: (*parser).callonExtraListElement637,
 																		},
 																	},
@@ -28430,17 +28430,17 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1521, col: 5, offset: 49393},
+													pos: position{line: 1521, col: 5, offset: 49394},
 													expr: &actionExpr{
-														pos: position{line: 724, col: 5, offset: 23110},
+														pos: position{line: 724, col: 5, offset: 23111},
 														run: (*parser).callonExtraListElement639,
 														expr: &seqExpr{
-															pos: position{line: 724, col: 5, offset: 23110},
+															pos: position{line: 724, col: 5, offset: 23111},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 724, col: 5, offset: 23110},
+																	pos: position{line: 724, col: 5, offset: 23111},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2766, col: 13, offset: 88046},
+																		pos:        position{line: 2766, col: 13, offset: 88047},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -28448,36 +28448,36 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 725, col: 5, offset: 23140},
+																	pos:   position{line: 725, col: 5, offset: 23141},
 																	label: "delimiter",
 																	expr: &choiceExpr{
-																		pos: position{line: 726, col: 9, offset: 23160},
+																		pos: position{line: 726, col: 9, offset: 23161},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 740, col: 5, offset: 23652},
+																				pos: position{line: 740, col: 5, offset: 23653},
 																				run: (*parser).callonExtraListElement645,
 																				expr: &seqExpr{
-																					pos: position{line: 740, col: 5, offset: 23652},
+																					pos: position{line: 740, col: 5, offset: 23653},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 740, col: 5, offset: 23652},
+																							pos:   position{line: 740, col: 5, offset: 23653},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 740, col: 16, offset: 23663},
+																								pos: position{line: 740, col: 16, offset: 23664},
 																								run: (*parser).callonExtraListElement648,
 																								expr: &seqExpr{
-																									pos: position{line: 740, col: 16, offset: 23663},
+																									pos: position{line: 740, col: 16, offset: 23664},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 740, col: 16, offset: 23663},
+																											pos:        position{line: 740, col: 16, offset: 23664},
 																											val:        "////",
 																											ignoreCase: false,
 																											want:       "\"////\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 740, col: 23, offset: 23670},
+																											pos: position{line: 740, col: 23, offset: 23671},
 																											expr: &litMatcher{
-																												pos:        position{line: 740, col: 23, offset: 23670},
+																												pos:        position{line: 740, col: 23, offset: 23671},
 																												val:        "/",
 																												ignoreCase: false,
 																												want:       "\"/\"",
@@ -28488,12 +28488,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 742, col: 8, offset: 23754},
+																							pos: position{line: 742, col: 8, offset: 23755},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 90951},
+																								pos: position{line: 2876, col: 10, offset: 90952},
 																								run: (*parser).callonExtraListElement654,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 90951},
+																									pos:        position{line: 2876, col: 10, offset: 90952},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28502,28 +28502,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91349},
+																							pos: position{line: 2898, col: 8, offset: 91350},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91122},
+																									pos: position{line: 2885, col: 12, offset: 91123},
 																									run: (*parser).callonExtraListElement657,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91123},
+																										pos: position{line: 2885, col: 13, offset: 91124},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91123},
+																												pos:        position{line: 2885, col: 13, offset: 91124},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91130},
+																												pos:        position{line: 2885, col: 20, offset: 91131},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91139},
+																												pos:        position{line: 2885, col: 29, offset: 91140},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28532,9 +28532,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91299},
+																									pos: position{line: 2895, col: 8, offset: 91300},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91300,
+																										line: 2895, col: 9, offset: 91301,
 																									},
 																								},
 																							},
@@ -28543,30 +28543,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 747, col: 5, offset: 23900},
+																				pos: position{line: 747, col: 5, offset: 23901},
 																				run: (*parser).callonExtraListElement664,
 																				expr: &seqExpr{
-																					pos: position{line: 747, col: 5, offset: 23900},
+																					pos: position{line: 747, col: 5, offset: 23901},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 747, col: 5, offset: 23900},
+																							pos:   position{line: 747, col: 5, offset: 23901},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 747, col: 16, offset: 23911},
+																								pos: position{line: 747, col: 16, offset: 23912},
 																								run: (*parser).callonExtraListElement667,
 																								expr: &seqExpr{
-																									pos: position{line: 747, col: 16, offset: 23911},
+																									pos: position{line: 747, col: 16, offset: 23912},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 747, col: 16, offset: 23911},
+																											pos:        position{line: 747, col: 16, offset: 23912},
 																											val:        "====",
 																											ignoreCase: false,
 																											want:       "\"====\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 747, col: 23, offset: 23918},
+																											pos: position{line: 747, col: 23, offset: 23919},
 																											expr: &litMatcher{
-																												pos:        position{line: 747, col: 23, offset: 23918},
+																												pos:        position{line: 747, col: 23, offset: 23919},
 																												val:        "=",
 																												ignoreCase: false,
 																												want:       "\"=\"",
@@ -28577,12 +28577,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 749, col: 8, offset: 24002},
+																							pos: position{line: 749, col: 8, offset: 24003},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 90951},
+																								pos: position{line: 2876, col: 10, offset: 90952},
 																								run: (*parser).callonExtraListElement673,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 90951},
+																									pos:        position{line: 2876, col: 10, offset: 90952},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28591,28 +28591,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91349},
+																							pos: position{line: 2898, col: 8, offset: 91350},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91122},
+																									pos: position{line: 2885, col: 12, offset: 91123},
 																									run: (*parser).callonExtraListElement676,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91123},
+																										pos: position{line: 2885, col: 13, offset: 91124},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91123},
+																												pos:        position{line: 2885, col: 13, offset: 91124},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91130},
+																												pos:        position{line: 2885, col: 20, offset: 91131},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91139},
+																												pos:        position{line: 2885, col: 29, offset: 91140},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28621,9 +28621,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91299},
+																									pos: position{line: 2895, col: 8, offset: 91300},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91300,
+																										line: 2895, col: 9, offset: 91301,
 																									},
 																								},
 																							},
@@ -28632,27 +28632,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 760, col: 26, offset: 24388},
+																				pos: position{line: 760, col: 26, offset: 24389},
 																				run: (*parser).callonExtraListElement683,
 																				expr: &seqExpr{
-																					pos: position{line: 760, col: 26, offset: 24388},
+																					pos: position{line: 760, col: 26, offset: 24389},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 760, col: 26, offset: 24388},
+																							pos:        position{line: 760, col: 26, offset: 24389},
 																							val:        "```",
 																							ignoreCase: false,
 																							want:       "\"```\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 760, col: 32, offset: 24394},
+																							pos:   position{line: 760, col: 32, offset: 24395},
 																							label: "language",
 																							expr: &actionExpr{
-																								pos: position{line: 764, col: 13, offset: 24524},
+																								pos: position{line: 764, col: 13, offset: 24525},
 																								run: (*parser).callonExtraListElement687,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 764, col: 14, offset: 24525},
+																									pos: position{line: 764, col: 14, offset: 24526},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 764, col: 14, offset: 24525},
+																										pos:        position{line: 764, col: 14, offset: 24526},
 																										val:        "[^\\r\\n`\\t ]",
 																										chars:      []rune{'\r', '\n', '`', '\t', ' '},
 																										ignoreCase: false,
@@ -28662,12 +28662,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 760, col: 52, offset: 24414},
+																							pos: position{line: 760, col: 52, offset: 24415},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 90951},
+																								pos: position{line: 2876, col: 10, offset: 90952},
 																								run: (*parser).callonExtraListElement691,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 90951},
+																									pos:        position{line: 2876, col: 10, offset: 90952},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28676,28 +28676,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91349},
+																							pos: position{line: 2898, col: 8, offset: 91350},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91122},
+																									pos: position{line: 2885, col: 12, offset: 91123},
 																									run: (*parser).callonExtraListElement694,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91123},
+																										pos: position{line: 2885, col: 13, offset: 91124},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91123},
+																												pos:        position{line: 2885, col: 13, offset: 91124},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91130},
+																												pos:        position{line: 2885, col: 20, offset: 91131},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91139},
+																												pos:        position{line: 2885, col: 29, offset: 91140},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28706,9 +28706,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91299},
+																									pos: position{line: 2895, col: 8, offset: 91300},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91300,
+																										line: 2895, col: 9, offset: 91301,
 																									},
 																								},
 																							},
@@ -28717,30 +28717,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 754, col: 5, offset: 24147},
+																				pos: position{line: 754, col: 5, offset: 24148},
 																				run: (*parser).callonExtraListElement701,
 																				expr: &seqExpr{
-																					pos: position{line: 754, col: 5, offset: 24147},
+																					pos: position{line: 754, col: 5, offset: 24148},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 754, col: 5, offset: 24147},
+																							pos:   position{line: 754, col: 5, offset: 24148},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 754, col: 16, offset: 24158},
+																								pos: position{line: 754, col: 16, offset: 24159},
 																								run: (*parser).callonExtraListElement704,
 																								expr: &seqExpr{
-																									pos: position{line: 754, col: 16, offset: 24158},
+																									pos: position{line: 754, col: 16, offset: 24159},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 754, col: 16, offset: 24158},
+																											pos:        position{line: 754, col: 16, offset: 24159},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 754, col: 22, offset: 24164},
+																											pos: position{line: 754, col: 22, offset: 24165},
 																											expr: &litMatcher{
-																												pos:        position{line: 754, col: 22, offset: 24164},
+																												pos:        position{line: 754, col: 22, offset: 24165},
 																												val:        "`",
 																												ignoreCase: false,
 																												want:       "\"`\"",
@@ -28751,12 +28751,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 756, col: 8, offset: 24248},
+																							pos: position{line: 756, col: 8, offset: 24249},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 90951},
+																								pos: position{line: 2876, col: 10, offset: 90952},
 																								run: (*parser).callonExtraListElement710,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 90951},
+																									pos:        position{line: 2876, col: 10, offset: 90952},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28765,28 +28765,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91349},
+																							pos: position{line: 2898, col: 8, offset: 91350},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91122},
+																									pos: position{line: 2885, col: 12, offset: 91123},
 																									run: (*parser).callonExtraListElement713,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91123},
+																										pos: position{line: 2885, col: 13, offset: 91124},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91123},
+																												pos:        position{line: 2885, col: 13, offset: 91124},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91130},
+																												pos:        position{line: 2885, col: 20, offset: 91131},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91139},
+																												pos:        position{line: 2885, col: 29, offset: 91140},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28795,9 +28795,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91299},
+																									pos: position{line: 2895, col: 8, offset: 91300},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91300,
+																										line: 2895, col: 9, offset: 91301,
 																									},
 																								},
 																							},
@@ -28806,30 +28806,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 769, col: 5, offset: 24689},
+																				pos: position{line: 769, col: 5, offset: 24690},
 																				run: (*parser).callonExtraListElement720,
 																				expr: &seqExpr{
-																					pos: position{line: 769, col: 5, offset: 24689},
+																					pos: position{line: 769, col: 5, offset: 24690},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 769, col: 5, offset: 24689},
+																							pos:   position{line: 769, col: 5, offset: 24690},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 769, col: 16, offset: 24700},
+																								pos: position{line: 769, col: 16, offset: 24701},
 																								run: (*parser).callonExtraListElement723,
 																								expr: &seqExpr{
-																									pos: position{line: 769, col: 16, offset: 24700},
+																									pos: position{line: 769, col: 16, offset: 24701},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 769, col: 16, offset: 24700},
+																											pos:        position{line: 769, col: 16, offset: 24701},
 																											val:        "----",
 																											ignoreCase: false,
 																											want:       "\"----\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 769, col: 23, offset: 24707},
+																											pos: position{line: 769, col: 23, offset: 24708},
 																											expr: &litMatcher{
-																												pos:        position{line: 769, col: 23, offset: 24707},
+																												pos:        position{line: 769, col: 23, offset: 24708},
 																												val:        "-",
 																												ignoreCase: false,
 																												want:       "\"-\"",
@@ -28840,12 +28840,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 771, col: 8, offset: 24791},
+																							pos: position{line: 771, col: 8, offset: 24792},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 90951},
+																								pos: position{line: 2876, col: 10, offset: 90952},
 																								run: (*parser).callonExtraListElement729,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 90951},
+																									pos:        position{line: 2876, col: 10, offset: 90952},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28854,28 +28854,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91349},
+																							pos: position{line: 2898, col: 8, offset: 91350},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91122},
+																									pos: position{line: 2885, col: 12, offset: 91123},
 																									run: (*parser).callonExtraListElement732,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91123},
+																										pos: position{line: 2885, col: 13, offset: 91124},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91123},
+																												pos:        position{line: 2885, col: 13, offset: 91124},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91130},
+																												pos:        position{line: 2885, col: 20, offset: 91131},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91139},
+																												pos:        position{line: 2885, col: 29, offset: 91140},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28884,9 +28884,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91299},
+																									pos: position{line: 2895, col: 8, offset: 91300},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91300,
+																										line: 2895, col: 9, offset: 91301,
 																									},
 																								},
 																							},
@@ -28895,30 +28895,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 783, col: 5, offset: 25165},
+																				pos: position{line: 783, col: 5, offset: 25166},
 																				run: (*parser).callonExtraListElement739,
 																				expr: &seqExpr{
-																					pos: position{line: 783, col: 5, offset: 25165},
+																					pos: position{line: 783, col: 5, offset: 25166},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 783, col: 5, offset: 25165},
+																							pos:   position{line: 783, col: 5, offset: 25166},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 783, col: 16, offset: 25176},
+																								pos: position{line: 783, col: 16, offset: 25177},
 																								run: (*parser).callonExtraListElement742,
 																								expr: &seqExpr{
-																									pos: position{line: 783, col: 16, offset: 25176},
+																									pos: position{line: 783, col: 16, offset: 25177},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 783, col: 16, offset: 25176},
+																											pos:        position{line: 783, col: 16, offset: 25177},
 																											val:        "....",
 																											ignoreCase: false,
 																											want:       "\"....\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 783, col: 23, offset: 25183},
+																											pos: position{line: 783, col: 23, offset: 25184},
 																											expr: &litMatcher{
-																												pos:        position{line: 783, col: 23, offset: 25183},
+																												pos:        position{line: 783, col: 23, offset: 25184},
 																												val:        ".",
 																												ignoreCase: false,
 																												want:       "\".\"",
@@ -28929,12 +28929,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 785, col: 8, offset: 25267},
+																							pos: position{line: 785, col: 8, offset: 25268},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 90951},
+																								pos: position{line: 2876, col: 10, offset: 90952},
 																								run: (*parser).callonExtraListElement748,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 90951},
+																									pos:        position{line: 2876, col: 10, offset: 90952},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28943,28 +28943,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91349},
+																							pos: position{line: 2898, col: 8, offset: 91350},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91122},
+																									pos: position{line: 2885, col: 12, offset: 91123},
 																									run: (*parser).callonExtraListElement751,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91123},
+																										pos: position{line: 2885, col: 13, offset: 91124},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91123},
+																												pos:        position{line: 2885, col: 13, offset: 91124},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91130},
+																												pos:        position{line: 2885, col: 20, offset: 91131},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91139},
+																												pos:        position{line: 2885, col: 29, offset: 91140},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28973,9 +28973,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91299},
+																									pos: position{line: 2895, col: 8, offset: 91300},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91300,
+																										line: 2895, col: 9, offset: 91301,
 																									},
 																								},
 																							},
@@ -28984,30 +28984,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 790, col: 5, offset: 25417},
+																				pos: position{line: 790, col: 5, offset: 25418},
 																				run: (*parser).callonExtraListElement758,
 																				expr: &seqExpr{
-																					pos: position{line: 790, col: 5, offset: 25417},
+																					pos: position{line: 790, col: 5, offset: 25418},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 790, col: 5, offset: 25417},
+																							pos:   position{line: 790, col: 5, offset: 25418},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 790, col: 16, offset: 25428},
+																								pos: position{line: 790, col: 16, offset: 25429},
 																								run: (*parser).callonExtraListElement761,
 																								expr: &seqExpr{
-																									pos: position{line: 790, col: 16, offset: 25428},
+																									pos: position{line: 790, col: 16, offset: 25429},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 790, col: 16, offset: 25428},
+																											pos:        position{line: 790, col: 16, offset: 25429},
 																											val:        "++++",
 																											ignoreCase: false,
 																											want:       "\"++++\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 790, col: 23, offset: 25435},
+																											pos: position{line: 790, col: 23, offset: 25436},
 																											expr: &litMatcher{
-																												pos:        position{line: 790, col: 23, offset: 25435},
+																												pos:        position{line: 790, col: 23, offset: 25436},
 																												val:        "+",
 																												ignoreCase: false,
 																												want:       "\"+\"",
@@ -29018,12 +29018,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 792, col: 8, offset: 25519},
+																							pos: position{line: 792, col: 8, offset: 25520},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 90951},
+																								pos: position{line: 2876, col: 10, offset: 90952},
 																								run: (*parser).callonExtraListElement767,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 90951},
+																									pos:        position{line: 2876, col: 10, offset: 90952},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29032,28 +29032,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91349},
+																							pos: position{line: 2898, col: 8, offset: 91350},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91122},
+																									pos: position{line: 2885, col: 12, offset: 91123},
 																									run: (*parser).callonExtraListElement770,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91123},
+																										pos: position{line: 2885, col: 13, offset: 91124},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91123},
+																												pos:        position{line: 2885, col: 13, offset: 91124},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91130},
+																												pos:        position{line: 2885, col: 20, offset: 91131},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91139},
+																												pos:        position{line: 2885, col: 29, offset: 91140},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29062,9 +29062,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91299},
+																									pos: position{line: 2895, col: 8, offset: 91300},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91300,
+																										line: 2895, col: 9, offset: 91301,
 																									},
 																								},
 																							},
@@ -29073,30 +29073,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 797, col: 5, offset: 25667},
+																				pos: position{line: 797, col: 5, offset: 25668},
 																				run: (*parser).callonExtraListElement777,
 																				expr: &seqExpr{
-																					pos: position{line: 797, col: 5, offset: 25667},
+																					pos: position{line: 797, col: 5, offset: 25668},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 797, col: 5, offset: 25667},
+																							pos:   position{line: 797, col: 5, offset: 25668},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 797, col: 16, offset: 25678},
+																								pos: position{line: 797, col: 16, offset: 25679},
 																								run: (*parser).callonExtraListElement780,
 																								expr: &seqExpr{
-																									pos: position{line: 797, col: 16, offset: 25678},
+																									pos: position{line: 797, col: 16, offset: 25679},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 797, col: 16, offset: 25678},
+																											pos:        position{line: 797, col: 16, offset: 25679},
 																											val:        "____",
 																											ignoreCase: false,
 																											want:       "\"____\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 797, col: 23, offset: 25685},
+																											pos: position{line: 797, col: 23, offset: 25686},
 																											expr: &litMatcher{
-																												pos:        position{line: 797, col: 23, offset: 25685},
+																												pos:        position{line: 797, col: 23, offset: 25686},
 																												val:        "_",
 																												ignoreCase: false,
 																												want:       "\"_\"",
@@ -29107,12 +29107,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 799, col: 8, offset: 25769},
+																							pos: position{line: 799, col: 8, offset: 25770},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 90951},
+																								pos: position{line: 2876, col: 10, offset: 90952},
 																								run: (*parser).callonExtraListElement786,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 90951},
+																									pos:        position{line: 2876, col: 10, offset: 90952},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29121,28 +29121,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91349},
+																							pos: position{line: 2898, col: 8, offset: 91350},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91122},
+																									pos: position{line: 2885, col: 12, offset: 91123},
 																									run: (*parser).callonExtraListElement789,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91123},
+																										pos: position{line: 2885, col: 13, offset: 91124},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91123},
+																												pos:        position{line: 2885, col: 13, offset: 91124},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91130},
+																												pos:        position{line: 2885, col: 20, offset: 91131},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91139},
+																												pos:        position{line: 2885, col: 29, offset: 91140},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29151,9 +29151,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91299},
+																									pos: position{line: 2895, col: 8, offset: 91300},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91300,
+																										line: 2895, col: 9, offset: 91301,
 																									},
 																								},
 																							},
@@ -29162,30 +29162,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 804, col: 5, offset: 25913},
+																				pos: position{line: 804, col: 5, offset: 25914},
 																				run: (*parser).callonExtraListElement796,
 																				expr: &seqExpr{
-																					pos: position{line: 804, col: 5, offset: 25913},
+																					pos: position{line: 804, col: 5, offset: 25914},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 804, col: 5, offset: 25913},
+																							pos:   position{line: 804, col: 5, offset: 25914},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 804, col: 16, offset: 25924},
+																								pos: position{line: 804, col: 16, offset: 25925},
 																								run: (*parser).callonExtraListElement799,
 																								expr: &seqExpr{
-																									pos: position{line: 804, col: 16, offset: 25924},
+																									pos: position{line: 804, col: 16, offset: 25925},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 804, col: 16, offset: 25924},
+																											pos:        position{line: 804, col: 16, offset: 25925},
 																											val:        "****",
 																											ignoreCase: false,
 																											want:       "\"****\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 804, col: 23, offset: 25931},
+																											pos: position{line: 804, col: 23, offset: 25932},
 																											expr: &litMatcher{
-																												pos:        position{line: 804, col: 23, offset: 25931},
+																												pos:        position{line: 804, col: 23, offset: 25932},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -29196,12 +29196,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 806, col: 8, offset: 26015},
+																							pos: position{line: 806, col: 8, offset: 26016},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 90951},
+																								pos: position{line: 2876, col: 10, offset: 90952},
 																								run: (*parser).callonExtraListElement805,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 90951},
+																									pos:        position{line: 2876, col: 10, offset: 90952},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29210,28 +29210,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91349},
+																							pos: position{line: 2898, col: 8, offset: 91350},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91122},
+																									pos: position{line: 2885, col: 12, offset: 91123},
 																									run: (*parser).callonExtraListElement808,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91123},
+																										pos: position{line: 2885, col: 13, offset: 91124},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91123},
+																												pos:        position{line: 2885, col: 13, offset: 91124},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91130},
+																												pos:        position{line: 2885, col: 20, offset: 91131},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91139},
+																												pos:        position{line: 2885, col: 29, offset: 91140},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29240,9 +29240,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91299},
+																									pos: position{line: 2895, col: 8, offset: 91300},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91300,
+																										line: 2895, col: 9, offset: 91301,
 																									},
 																								},
 																							},
@@ -29258,15 +29258,15 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1522, col: 5, offset: 49413},
+													pos:   position{line: 1522, col: 5, offset: 49414},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2826, col: 14, offset: 89544},
+														pos: position{line: 2826, col: 14, offset: 89545},
 														run: (*parser).callonExtraListElement816,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2826, col: 14, offset: 89544},
+															pos: position{line: 2826, col: 14, offset: 89545},
 															expr: &charClassMatcher{
-																pos:        position{line: 2826, col: 14, offset: 89544},
+																pos:        position{line: 2826, col: 14, offset: 89545},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -29276,28 +29276,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2898, col: 8, offset: 91349},
+													pos: position{line: 2898, col: 8, offset: 91350},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91122},
+															pos: position{line: 2885, col: 12, offset: 91123},
 															run: (*parser).callonExtraListElement820,
 															expr: &choiceExpr{
-																pos: position{line: 2885, col: 13, offset: 91123},
+																pos: position{line: 2885, col: 13, offset: 91124},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 13, offset: 91123},
+																		pos:        position{line: 2885, col: 13, offset: 91124},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 20, offset: 91130},
+																		pos:        position{line: 2885, col: 20, offset: 91131},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 29, offset: 91139},
+																		pos:        position{line: 2885, col: 29, offset: 91140},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -29306,9 +29306,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2895, col: 8, offset: 91299},
+															pos: position{line: 2895, col: 8, offset: 91300},
 															expr: &anyMatcher{
-																line: 2895, col: 9, offset: 91300,
+																line: 2895, col: 9, offset: 91301,
 															},
 														},
 													},
@@ -29325,28 +29325,28 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuation",
-			pos:  position{line: 1538, col: 1, offset: 49804},
+			pos:  position{line: 1538, col: 1, offset: 49805},
 			expr: &actionExpr{
-				pos: position{line: 1539, col: 5, offset: 49829},
+				pos: position{line: 1539, col: 5, offset: 49830},
 				run: (*parser).callonListContinuation1,
 				expr: &seqExpr{
-					pos: position{line: 1539, col: 5, offset: 49829},
+					pos: position{line: 1539, col: 5, offset: 49830},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1539, col: 5, offset: 49829},
+							pos:   position{line: 1539, col: 5, offset: 49830},
 							label: "offset",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1539, col: 12, offset: 49836},
+								pos: position{line: 1539, col: 12, offset: 49837},
 								expr: &seqExpr{
-									pos: position{line: 1539, col: 13, offset: 49837},
+									pos: position{line: 1539, col: 13, offset: 49838},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 1539, col: 13, offset: 49837},
+											pos: position{line: 1539, col: 13, offset: 49838},
 											expr: &actionExpr{
-												pos: position{line: 2876, col: 10, offset: 90951},
+												pos: position{line: 2876, col: 10, offset: 90952},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2876, col: 10, offset: 90951},
+													pos:        position{line: 2876, col: 10, offset: 90952},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -29355,25 +29355,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2885, col: 12, offset: 91122},
+											pos: position{line: 2885, col: 12, offset: 91123},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2885, col: 13, offset: 91123},
+												pos: position{line: 2885, col: 13, offset: 91124},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2885, col: 13, offset: 91123},
+														pos:        position{line: 2885, col: 13, offset: 91124},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2885, col: 20, offset: 91130},
+														pos:        position{line: 2885, col: 20, offset: 91131},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2885, col: 29, offset: 91139},
+														pos:        position{line: 2885, col: 29, offset: 91140},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -29386,18 +29386,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1546, col: 27, offset: 50041},
+							pos:        position{line: 1546, col: 27, offset: 50042},
 							val:        "+",
 							ignoreCase: false,
 							want:       "\"+\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1546, col: 31, offset: 50045},
+							pos: position{line: 1546, col: 31, offset: 50046},
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 10, offset: 90951},
+								pos: position{line: 2876, col: 10, offset: 90952},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2876, col: 10, offset: 90951},
+									pos:        position{line: 2876, col: 10, offset: 90952},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -29406,25 +29406,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2885, col: 12, offset: 91122},
+							pos: position{line: 2885, col: 12, offset: 91123},
 							run: (*parser).callonListContinuation18,
 							expr: &choiceExpr{
-								pos: position{line: 2885, col: 13, offset: 91123},
+								pos: position{line: 2885, col: 13, offset: 91124},
 								alternatives: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2885, col: 13, offset: 91123},
+										pos:        position{line: 2885, col: 13, offset: 91124},
 										val:        "\n",
 										ignoreCase: false,
 										want:       "\"\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2885, col: 20, offset: 91130},
+										pos:        position{line: 2885, col: 20, offset: 91131},
 										val:        "\r\n",
 										ignoreCase: false,
 										want:       "\"\\r\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2885, col: 29, offset: 91139},
+										pos:        position{line: 2885, col: 29, offset: 91140},
 										val:        "\r",
 										ignoreCase: false,
 										want:       "\"\\r\"",
@@ -29433,12 +29433,12 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1541, col: 5, offset: 49886},
+							pos:   position{line: 1541, col: 5, offset: 49887},
 							label: "element",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1541, col: 13, offset: 49894},
+								pos: position{line: 1541, col: 13, offset: 49895},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1541, col: 13, offset: 49894},
+									pos:  position{line: 1541, col: 13, offset: 49895},
 									name: "ListContinuationElement",
 								},
 							},
@@ -29449,46 +29449,46 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuationElement",
-			pos:  position{line: 1548, col: 1, offset: 50061},
+			pos:  position{line: 1548, col: 1, offset: 50062},
 			expr: &actionExpr{
-				pos: position{line: 1549, col: 5, offset: 50132},
+				pos: position{line: 1549, col: 5, offset: 50133},
 				run: (*parser).callonListContinuationElement1,
 				expr: &seqExpr{
-					pos: position{line: 1549, col: 5, offset: 50132},
+					pos: position{line: 1549, col: 5, offset: 50133},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2893, col: 11, offset: 91285},
+							pos: position{line: 2893, col: 11, offset: 91286},
 							expr: &anyMatcher{
-								line: 2893, col: 13, offset: 91287,
+								line: 2893, col: 13, offset: 91288,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1550, col: 5, offset: 50160},
+							pos: position{line: 1550, col: 5, offset: 50161},
 							expr: &choiceExpr{
-								pos: position{line: 1487, col: 5, offset: 48118},
+								pos: position{line: 1487, col: 5, offset: 48119},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1580, col: 5, offset: 51052},
+										pos: position{line: 1580, col: 5, offset: 51053},
 										run: (*parser).callonListContinuationElement7,
 										expr: &seqExpr{
-											pos: position{line: 1580, col: 5, offset: 51052},
+											pos: position{line: 1580, col: 5, offset: 51053},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1580, col: 5, offset: 51052},
+													pos:   position{line: 1580, col: 5, offset: 51053},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1587, col: 5, offset: 51260},
+														pos: position{line: 1587, col: 5, offset: 51261},
 														run: (*parser).callonListContinuationElement10,
 														expr: &seqExpr{
-															pos: position{line: 1587, col: 5, offset: 51260},
+															pos: position{line: 1587, col: 5, offset: 51261},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1587, col: 5, offset: 51260},
+																	pos: position{line: 1587, col: 5, offset: 51261},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 90951},
+																		pos: position{line: 2876, col: 10, offset: 90952},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 90951},
+																			pos:        position{line: 2876, col: 10, offset: 90952},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29497,27 +29497,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1587, col: 12, offset: 51267},
+																	pos:   position{line: 1587, col: 12, offset: 51268},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1589, col: 9, offset: 51330},
+																		pos: position{line: 1589, col: 9, offset: 51331},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1589, col: 9, offset: 51330},
+																				pos: position{line: 1589, col: 9, offset: 51331},
 																				run: (*parser).callonListContinuationElement17,
 																				expr: &seqExpr{
-																					pos: position{line: 1589, col: 9, offset: 51330},
+																					pos: position{line: 1589, col: 9, offset: 51331},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1589, col: 9, offset: 51330},
+																							pos:   position{line: 1589, col: 9, offset: 51331},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1589, col: 16, offset: 51337},
+																								pos: position{line: 1589, col: 16, offset: 51338},
 																								run: (*parser).callonListContinuationElement20,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1589, col: 16, offset: 51337},
+																									pos: position{line: 1589, col: 16, offset: 51338},
 																									expr: &litMatcher{
-																										pos:        position{line: 1589, col: 17, offset: 51338},
+																										pos:        position{line: 1589, col: 17, offset: 51339},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -29526,22 +29526,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1593, col: 9, offset: 51438},
+																							pos: position{line: 1593, col: 9, offset: 51439},
 																							run: (*parser).callonListContinuationElement23,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1612, col: 11, offset: 52155},
+																				pos: position{line: 1612, col: 11, offset: 52156},
 																				run: (*parser).callonListContinuationElement24,
 																				expr: &seqExpr{
-																					pos: position{line: 1612, col: 11, offset: 52155},
+																					pos: position{line: 1612, col: 11, offset: 52156},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1612, col: 11, offset: 52155},
+																							pos: position{line: 1612, col: 11, offset: 52156},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1612, col: 12, offset: 52156},
+																								pos:        position{line: 1612, col: 12, offset: 52157},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -29549,7 +29549,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1612, col: 20, offset: 52164},
+																							pos:        position{line: 1612, col: 20, offset: 52165},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29558,20 +29558,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1614, col: 13, offset: 52281},
+																				pos: position{line: 1614, col: 13, offset: 52282},
 																				run: (*parser).callonListContinuationElement29,
 																				expr: &seqExpr{
-																					pos: position{line: 1614, col: 13, offset: 52281},
+																					pos: position{line: 1614, col: 13, offset: 52282},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1614, col: 14, offset: 52282},
+																							pos:        position{line: 1614, col: 14, offset: 52283},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1614, col: 21, offset: 52289},
+																							pos:        position{line: 1614, col: 21, offset: 52290},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29580,20 +29580,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1616, col: 13, offset: 52409},
+																				pos: position{line: 1616, col: 13, offset: 52410},
 																				run: (*parser).callonListContinuationElement33,
 																				expr: &seqExpr{
-																					pos: position{line: 1616, col: 13, offset: 52409},
+																					pos: position{line: 1616, col: 13, offset: 52410},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1616, col: 14, offset: 52410},
+																							pos:        position{line: 1616, col: 14, offset: 52411},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1616, col: 21, offset: 52417},
+																							pos:        position{line: 1616, col: 21, offset: 52418},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29602,15 +29602,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1618, col: 13, offset: 52537},
+																				pos: position{line: 1618, col: 13, offset: 52538},
 																				run: (*parser).callonListContinuationElement37,
 																				expr: &seqExpr{
-																					pos: position{line: 1618, col: 13, offset: 52537},
+																					pos: position{line: 1618, col: 13, offset: 52538},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1618, col: 13, offset: 52537},
+																							pos: position{line: 1618, col: 13, offset: 52538},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1618, col: 14, offset: 52538},
+																								pos:        position{line: 1618, col: 14, offset: 52539},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -29618,7 +29618,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1618, col: 26, offset: 52550},
+																							pos:        position{line: 1618, col: 26, offset: 52551},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -29627,15 +29627,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1620, col: 13, offset: 52670},
+																				pos: position{line: 1620, col: 13, offset: 52671},
 																				run: (*parser).callonListContinuationElement42,
 																				expr: &seqExpr{
-																					pos: position{line: 1620, col: 13, offset: 52670},
+																					pos: position{line: 1620, col: 13, offset: 52671},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1620, col: 13, offset: 52670},
+																							pos: position{line: 1620, col: 13, offset: 52671},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1620, col: 14, offset: 52671},
+																								pos:        position{line: 1620, col: 14, offset: 52672},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -29643,7 +29643,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1620, col: 26, offset: 52683},
+																							pos:        position{line: 1620, col: 26, offset: 52684},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -29655,12 +29655,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2880, col: 11, offset: 91012},
+																	pos: position{line: 2880, col: 11, offset: 91013},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2880, col: 11, offset: 91012},
+																		pos: position{line: 2880, col: 11, offset: 91013},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 11, offset: 91012},
+																			pos:        position{line: 2880, col: 11, offset: 91013},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29673,26 +29673,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1581, col: 5, offset: 51091},
+													pos:   position{line: 1581, col: 5, offset: 51092},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1528, col: 5, offset: 49558},
+														pos: position{line: 1528, col: 5, offset: 49559},
 														run: (*parser).callonListContinuationElement51,
 														expr: &seqExpr{
-															pos: position{line: 1528, col: 5, offset: 49558},
+															pos: position{line: 1528, col: 5, offset: 49559},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1528, col: 5, offset: 49558},
+																	pos:   position{line: 1528, col: 5, offset: 49559},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1528, col: 14, offset: 49567},
+																		pos: position{line: 1528, col: 14, offset: 49568},
 																		expr: &actionExpr{
-																			pos: position{line: 1528, col: 15, offset: 49568},
+																			pos: position{line: 1528, col: 15, offset: 49569},
 																			run: (*parser).callonListContinuationElement55,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1528, col: 15, offset: 49568},
+																				pos: position{line: 1528, col: 15, offset: 49569},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1528, col: 15, offset: 49568},
+																					pos:        position{line: 1528, col: 15, offset: 49569},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -29703,28 +29703,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91349},
+																	pos: position{line: 2898, col: 8, offset: 91350},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91122},
+																			pos: position{line: 2885, col: 12, offset: 91123},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91123},
+																				pos: position{line: 2885, col: 13, offset: 91124},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91123},
+																						pos:        position{line: 2885, col: 13, offset: 91124},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91130},
+																						pos:        position{line: 2885, col: 20, offset: 91131},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91139},
+																						pos:        position{line: 2885, col: 29, offset: 91140},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29733,9 +29733,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91299},
+																			pos: position{line: 2895, col: 8, offset: 91300},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91300,
+																				line: 2895, col: 9, offset: 91301,
 																			},
 																		},
 																	},
@@ -29748,27 +29748,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1630, col: 5, offset: 52949},
+										pos: position{line: 1630, col: 5, offset: 52950},
 										run: (*parser).callonListContinuationElement66,
 										expr: &seqExpr{
-											pos: position{line: 1630, col: 5, offset: 52949},
+											pos: position{line: 1630, col: 5, offset: 52950},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1630, col: 5, offset: 52949},
+													pos:   position{line: 1630, col: 5, offset: 52950},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1637, col: 5, offset: 53222},
+														pos: position{line: 1637, col: 5, offset: 53223},
 														run: (*parser).callonListContinuationElement69,
 														expr: &seqExpr{
-															pos: position{line: 1637, col: 5, offset: 53222},
+															pos: position{line: 1637, col: 5, offset: 53223},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1637, col: 5, offset: 53222},
+																	pos: position{line: 1637, col: 5, offset: 53223},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 90951},
+																		pos: position{line: 2876, col: 10, offset: 90952},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 90951},
+																			pos:        position{line: 2876, col: 10, offset: 90952},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29777,24 +29777,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1638, col: 5, offset: 53234},
+																	pos:   position{line: 1638, col: 5, offset: 53235},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1639, col: 9, offset: 53250},
+																		pos: position{line: 1639, col: 9, offset: 53251},
 																		run: (*parser).callonListContinuationElement75,
 																		expr: &choiceExpr{
-																			pos: position{line: 1639, col: 10, offset: 53251},
+																			pos: position{line: 1639, col: 10, offset: 53252},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1639, col: 11, offset: 53252},
+																					pos:        position{line: 1639, col: 11, offset: 53253},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1639, col: 18, offset: 53259},
+																					pos: position{line: 1639, col: 18, offset: 53260},
 																					expr: &litMatcher{
-																						pos:        position{line: 1639, col: 19, offset: 53260},
+																						pos:        position{line: 1639, col: 19, offset: 53261},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -29805,16 +29805,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1642, col: 7, offset: 53350},
+																	pos: position{line: 1642, col: 7, offset: 53351},
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2880, col: 11, offset: 91012},
+																	pos: position{line: 2880, col: 11, offset: 91013},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2880, col: 11, offset: 91012},
+																		pos: position{line: 2880, col: 11, offset: 91013},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 11, offset: 91012},
+																			pos:        position{line: 2880, col: 11, offset: 91013},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29827,56 +29827,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1631, col: 5, offset: 52990},
+													pos:   position{line: 1631, col: 5, offset: 52991},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1631, col: 16, offset: 53001},
+														pos: position{line: 1631, col: 16, offset: 53002},
 														expr: &actionExpr{
-															pos: position{line: 1652, col: 5, offset: 53615},
+															pos: position{line: 1652, col: 5, offset: 53616},
 															run: (*parser).callonListContinuationElement86,
 															expr: &seqExpr{
-																pos: position{line: 1652, col: 5, offset: 53615},
+																pos: position{line: 1652, col: 5, offset: 53616},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1652, col: 5, offset: 53615},
+																		pos: position{line: 1652, col: 5, offset: 53616},
 																		expr: &litMatcher{
-																			pos:        position{line: 1652, col: 6, offset: 53616},
+																			pos:        position{line: 1652, col: 6, offset: 53617},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1652, col: 10, offset: 53620},
+																		pos:   position{line: 1652, col: 10, offset: 53621},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1653, col: 7, offset: 53634},
+																			pos: position{line: 1653, col: 7, offset: 53635},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1653, col: 7, offset: 53634},
+																					pos: position{line: 1653, col: 7, offset: 53635},
 																					run: (*parser).callonListContinuationElement92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1653, col: 7, offset: 53634},
+																						pos:        position{line: 1653, col: 7, offset: 53635},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1654, col: 7, offset: 53679},
+																					pos: position{line: 1654, col: 7, offset: 53680},
 																					run: (*parser).callonListContinuationElement94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1654, col: 7, offset: 53679},
+																						pos:        position{line: 1654, col: 7, offset: 53680},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1655, col: 7, offset: 53722},
+																					pos: position{line: 1655, col: 7, offset: 53723},
 																					run: (*parser).callonListContinuationElement96,
 																					expr: &litMatcher{
-																						pos:        position{line: 1655, col: 7, offset: 53722},
+																						pos:        position{line: 1655, col: 7, offset: 53723},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -29886,12 +29886,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2880, col: 11, offset: 91012},
+																		pos: position{line: 2880, col: 11, offset: 91013},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2880, col: 11, offset: 91012},
+																			pos: position{line: 2880, col: 11, offset: 91013},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2880, col: 11, offset: 91012},
+																				pos:        position{line: 2880, col: 11, offset: 91013},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -29905,26 +29905,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1632, col: 5, offset: 53040},
+													pos:   position{line: 1632, col: 5, offset: 53041},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1528, col: 5, offset: 49558},
+														pos: position{line: 1528, col: 5, offset: 49559},
 														run: (*parser).callonListContinuationElement102,
 														expr: &seqExpr{
-															pos: position{line: 1528, col: 5, offset: 49558},
+															pos: position{line: 1528, col: 5, offset: 49559},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1528, col: 5, offset: 49558},
+																	pos:   position{line: 1528, col: 5, offset: 49559},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1528, col: 14, offset: 49567},
+																		pos: position{line: 1528, col: 14, offset: 49568},
 																		expr: &actionExpr{
-																			pos: position{line: 1528, col: 15, offset: 49568},
+																			pos: position{line: 1528, col: 15, offset: 49569},
 																			run: (*parser).callonListContinuationElement106,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1528, col: 15, offset: 49568},
+																				pos: position{line: 1528, col: 15, offset: 49569},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1528, col: 15, offset: 49568},
+																					pos:        position{line: 1528, col: 15, offset: 49569},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -29935,28 +29935,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91349},
+																	pos: position{line: 2898, col: 8, offset: 91350},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91122},
+																			pos: position{line: 2885, col: 12, offset: 91123},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91123},
+																				pos: position{line: 2885, col: 13, offset: 91124},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91123},
+																						pos:        position{line: 2885, col: 13, offset: 91124},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91130},
+																						pos:        position{line: 2885, col: 20, offset: 91131},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91139},
+																						pos:        position{line: 2885, col: 29, offset: 91140},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29965,9 +29965,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91299},
+																			pos: position{line: 2895, col: 8, offset: 91300},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91300,
+																				line: 2895, col: 9, offset: 91301,
 																			},
 																		},
 																	},
@@ -29980,36 +29980,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1721, col: 5, offset: 55594},
+										pos: position{line: 1721, col: 5, offset: 55595},
 										run: (*parser).callonListContinuationElement117,
 										expr: &seqExpr{
-											pos: position{line: 1721, col: 5, offset: 55594},
+											pos: position{line: 1721, col: 5, offset: 55595},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1721, col: 5, offset: 55594},
+													pos:   position{line: 1721, col: 5, offset: 55595},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1727, col: 5, offset: 55791},
+														pos: position{line: 1727, col: 5, offset: 55792},
 														run: (*parser).callonListContinuationElement120,
 														expr: &seqExpr{
-															pos: position{line: 1727, col: 5, offset: 55791},
+															pos: position{line: 1727, col: 5, offset: 55792},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1727, col: 5, offset: 55791},
+																	pos:        position{line: 1727, col: 5, offset: 55792},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1727, col: 9, offset: 55795},
+																	pos:   position{line: 1727, col: 9, offset: 55796},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1727, col: 14, offset: 55800},
+																		pos: position{line: 1727, col: 14, offset: 55801},
 																		run: (*parser).callonListContinuationElement124,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1727, col: 14, offset: 55800},
+																			pos: position{line: 1727, col: 14, offset: 55801},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1727, col: 14, offset: 55800},
+																				pos:        position{line: 1727, col: 14, offset: 55801},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -30019,18 +30019,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1727, col: 62, offset: 55848},
+																	pos:        position{line: 1727, col: 62, offset: 55849},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2880, col: 11, offset: 91012},
+																	pos: position{line: 2880, col: 11, offset: 91013},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2880, col: 11, offset: 91012},
+																		pos: position{line: 2880, col: 11, offset: 91013},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 11, offset: 91012},
+																			pos:        position{line: 2880, col: 11, offset: 91013},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30043,26 +30043,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1722, col: 5, offset: 55630},
+													pos:   position{line: 1722, col: 5, offset: 55631},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1528, col: 5, offset: 49558},
+														pos: position{line: 1528, col: 5, offset: 49559},
 														run: (*parser).callonListContinuationElement132,
 														expr: &seqExpr{
-															pos: position{line: 1528, col: 5, offset: 49558},
+															pos: position{line: 1528, col: 5, offset: 49559},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1528, col: 5, offset: 49558},
+																	pos:   position{line: 1528, col: 5, offset: 49559},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1528, col: 14, offset: 49567},
+																		pos: position{line: 1528, col: 14, offset: 49568},
 																		expr: &actionExpr{
-																			pos: position{line: 1528, col: 15, offset: 49568},
+																			pos: position{line: 1528, col: 15, offset: 49569},
 																			run: (*parser).callonListContinuationElement136,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1528, col: 15, offset: 49568},
+																				pos: position{line: 1528, col: 15, offset: 49569},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1528, col: 15, offset: 49568},
+																					pos:        position{line: 1528, col: 15, offset: 49569},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30073,28 +30073,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91349},
+																	pos: position{line: 2898, col: 8, offset: 91350},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91122},
+																			pos: position{line: 2885, col: 12, offset: 91123},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91123},
+																				pos: position{line: 2885, col: 13, offset: 91124},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91123},
+																						pos:        position{line: 2885, col: 13, offset: 91124},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91130},
+																						pos:        position{line: 2885, col: 20, offset: 91131},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91139},
+																						pos:        position{line: 2885, col: 29, offset: 91140},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30103,9 +30103,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91299},
+																			pos: position{line: 2895, col: 8, offset: 91300},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91300,
+																				line: 2895, col: 9, offset: 91301,
 																			},
 																		},
 																	},
@@ -30118,35 +30118,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1664, col: 5, offset: 53915},
+										pos: position{line: 1664, col: 5, offset: 53916},
 										run: (*parser).callonListContinuationElement147,
 										expr: &seqExpr{
-											pos: position{line: 1664, col: 5, offset: 53915},
+											pos: position{line: 1664, col: 5, offset: 53916},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1664, col: 5, offset: 53915},
+													pos:   position{line: 1664, col: 5, offset: 53916},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1672, col: 5, offset: 54241},
+														pos: position{line: 1672, col: 5, offset: 54242},
 														run: (*parser).callonListContinuationElement150,
 														expr: &seqExpr{
-															pos: position{line: 1672, col: 5, offset: 54241},
+															pos: position{line: 1672, col: 5, offset: 54242},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1672, col: 5, offset: 54241},
+																	pos: position{line: 1672, col: 5, offset: 54242},
 																	expr: &seqExpr{
-																		pos: position{line: 2488, col: 31, offset: 80079},
+																		pos: position{line: 2488, col: 31, offset: 80080},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2488, col: 31, offset: 80079},
+																				pos:        position{line: 2488, col: 31, offset: 80080},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2488, col: 36, offset: 80084},
+																				pos: position{line: 2488, col: 36, offset: 80085},
 																				expr: &litMatcher{
-																					pos:        position{line: 2488, col: 37, offset: 80085},
+																					pos:        position{line: 2488, col: 37, offset: 80086},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
@@ -30156,28 +30156,28 @@ var g = &grammar{
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 1673, col: 5, offset: 54273},
+																	pos: position{line: 1673, col: 5, offset: 54274},
 																	expr: &seqExpr{
-																		pos: position{line: 1673, col: 6, offset: 54274},
+																		pos: position{line: 1673, col: 6, offset: 54275},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1673, col: 6, offset: 54274},
+																				pos: position{line: 1673, col: 6, offset: 54275},
 																				expr: &actionExpr{
-																					pos: position{line: 1678, col: 5, offset: 54424},
+																					pos: position{line: 1678, col: 5, offset: 54425},
 																					run: (*parser).callonListContinuationElement160,
 																					expr: &seqExpr{
-																						pos: position{line: 1678, col: 5, offset: 54424},
+																						pos: position{line: 1678, col: 5, offset: 54425},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1678, col: 5, offset: 54424},
+																								pos:   position{line: 1678, col: 5, offset: 54425},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1678, col: 16, offset: 54435},
+																									pos: position{line: 1678, col: 16, offset: 54436},
 																									run: (*parser).callonListContinuationElement163,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1678, col: 16, offset: 54435},
+																										pos: position{line: 1678, col: 16, offset: 54436},
 																										expr: &litMatcher{
-																											pos:        position{line: 1678, col: 17, offset: 54436},
+																											pos:        position{line: 1678, col: 17, offset: 54437},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -30186,7 +30186,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1681, col: 5, offset: 54493},
+																								pos: position{line: 1681, col: 5, offset: 54494},
 																								run: (*parser).callonListContinuationElement166,
 																							},
 																						},
@@ -30194,30 +30194,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1673, col: 35, offset: 54303},
+																				pos: position{line: 1673, col: 35, offset: 54304},
 																				expr: &choiceExpr{
-																					pos: position{line: 2898, col: 8, offset: 91349},
+																					pos: position{line: 2898, col: 8, offset: 91350},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2885, col: 12, offset: 91122},
+																							pos: position{line: 2885, col: 12, offset: 91123},
 																							run: (*parser).callonListContinuationElement169,
 																							expr: &choiceExpr{
-																								pos: position{line: 2885, col: 13, offset: 91123},
+																								pos: position{line: 2885, col: 13, offset: 91124},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 13, offset: 91123},
+																										pos:        position{line: 2885, col: 13, offset: 91124},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 20, offset: 91130},
+																										pos:        position{line: 2885, col: 20, offset: 91131},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 29, offset: 91139},
+																										pos:        position{line: 2885, col: 29, offset: 91140},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -30226,16 +30226,16 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2895, col: 8, offset: 91299},
+																							pos: position{line: 2895, col: 8, offset: 91300},
 																							expr: &anyMatcher{
-																								line: 2895, col: 9, offset: 91300,
+																								line: 2895, col: 9, offset: 91301,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1673, col: 40, offset: 54308,
+																				line: 1673, col: 40, offset: 54309,
 																			},
 																		},
 																	},
@@ -30245,24 +30245,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1665, col: 5, offset: 53950},
+													pos:   position{line: 1665, col: 5, offset: 53951},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1678, col: 5, offset: 54424},
+														pos: position{line: 1678, col: 5, offset: 54425},
 														run: (*parser).callonListContinuationElement178,
 														expr: &seqExpr{
-															pos: position{line: 1678, col: 5, offset: 54424},
+															pos: position{line: 1678, col: 5, offset: 54425},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1678, col: 5, offset: 54424},
+																	pos:   position{line: 1678, col: 5, offset: 54425},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1678, col: 16, offset: 54435},
+																		pos: position{line: 1678, col: 16, offset: 54436},
 																		run: (*parser).callonListContinuationElement181,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1678, col: 16, offset: 54435},
+																			pos: position{line: 1678, col: 16, offset: 54436},
 																			expr: &litMatcher{
-																				pos:        position{line: 1678, col: 17, offset: 54436},
+																				pos:        position{line: 1678, col: 17, offset: 54437},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -30271,7 +30271,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1681, col: 5, offset: 54493},
+																	pos: position{line: 1681, col: 5, offset: 54494},
 																	run: (*parser).callonListContinuationElement184,
 																},
 															},
@@ -30279,24 +30279,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1666, col: 5, offset: 53995},
+													pos:   position{line: 1666, col: 5, offset: 53996},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1689, col: 5, offset: 54742},
+														pos: position{line: 1689, col: 5, offset: 54743},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1691, col: 9, offset: 54808},
+																pos: position{line: 1691, col: 9, offset: 54809},
 																run: (*parser).callonListContinuationElement187,
 																expr: &seqExpr{
-																	pos: position{line: 1691, col: 9, offset: 54808},
+																	pos: position{line: 1691, col: 9, offset: 54809},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1691, col: 9, offset: 54808},
+																			pos: position{line: 1691, col: 9, offset: 54809},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 90951},
+																				pos: position{line: 2876, col: 10, offset: 90952},
 																				run: (*parser).callonListContinuationElement190,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 90951},
+																					pos:        position{line: 2876, col: 10, offset: 90952},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30305,28 +30305,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91349},
+																			pos: position{line: 2898, col: 8, offset: 91350},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91122},
+																					pos: position{line: 2885, col: 12, offset: 91123},
 																					run: (*parser).callonListContinuationElement193,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91123},
+																						pos: position{line: 2885, col: 13, offset: 91124},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91123},
+																								pos:        position{line: 2885, col: 13, offset: 91124},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91130},
+																								pos:        position{line: 2885, col: 20, offset: 91131},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91139},
+																								pos:        position{line: 2885, col: 29, offset: 91140},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30335,34 +30335,34 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91299},
+																					pos: position{line: 2895, col: 8, offset: 91300},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91300,
+																						line: 2895, col: 9, offset: 91301,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1692, col: 9, offset: 54827},
+																			pos: position{line: 1692, col: 9, offset: 54828},
 																			expr: &actionExpr{
-																				pos: position{line: 677, col: 14, offset: 21557},
+																				pos: position{line: 677, col: 14, offset: 21558},
 																				run: (*parser).callonListContinuationElement201,
 																				expr: &seqExpr{
-																					pos: position{line: 677, col: 14, offset: 21557},
+																					pos: position{line: 677, col: 14, offset: 21558},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2893, col: 11, offset: 91285},
+																							pos: position{line: 2893, col: 11, offset: 91286},
 																							expr: &anyMatcher{
-																								line: 2893, col: 13, offset: 91287,
+																								line: 2893, col: 13, offset: 91288,
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 677, col: 21, offset: 21564},
+																							pos: position{line: 677, col: 21, offset: 21565},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 90951},
+																								pos: position{line: 2876, col: 10, offset: 90952},
 																								run: (*parser).callonListContinuationElement206,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 90951},
+																									pos:        position{line: 2876, col: 10, offset: 90952},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30371,28 +30371,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91349},
+																							pos: position{line: 2898, col: 8, offset: 91350},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91122},
+																									pos: position{line: 2885, col: 12, offset: 91123},
 																									run: (*parser).callonListContinuationElement209,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91123},
+																										pos: position{line: 2885, col: 13, offset: 91124},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91123},
+																												pos:        position{line: 2885, col: 13, offset: 91124},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91130},
+																												pos:        position{line: 2885, col: 20, offset: 91131},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91139},
+																												pos:        position{line: 2885, col: 29, offset: 91140},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30401,9 +30401,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91299},
+																									pos: position{line: 2895, col: 8, offset: 91300},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91300,
+																										line: 2895, col: 9, offset: 91301,
 																									},
 																								},
 																							},
@@ -30416,18 +30416,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1698, col: 9, offset: 54956},
+																pos: position{line: 1698, col: 9, offset: 54957},
 																run: (*parser).callonListContinuationElement216,
 																expr: &seqExpr{
-																	pos: position{line: 1698, col: 9, offset: 54956},
+																	pos: position{line: 1698, col: 9, offset: 54957},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2880, col: 11, offset: 91012},
+																			pos: position{line: 2880, col: 11, offset: 91013},
 																			run: (*parser).callonListContinuationElement218,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2880, col: 11, offset: 91012},
+																				pos: position{line: 2880, col: 11, offset: 91013},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2880, col: 11, offset: 91012},
+																					pos:        position{line: 2880, col: 11, offset: 91013},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30436,15 +30436,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1699, col: 9, offset: 55029},
+																			pos:   position{line: 1699, col: 9, offset: 55030},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1699, col: 18, offset: 55038},
+																				pos: position{line: 1699, col: 18, offset: 55039},
 																				run: (*parser).callonListContinuationElement222,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1699, col: 18, offset: 55038},
+																					pos: position{line: 1699, col: 18, offset: 55039},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1699, col: 18, offset: 55038},
+																						pos:        position{line: 1699, col: 18, offset: 55039},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -30454,28 +30454,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91349},
+																			pos: position{line: 2898, col: 8, offset: 91350},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91122},
+																					pos: position{line: 2885, col: 12, offset: 91123},
 																					run: (*parser).callonListContinuationElement226,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91123},
+																						pos: position{line: 2885, col: 13, offset: 91124},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91123},
+																								pos:        position{line: 2885, col: 13, offset: 91124},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91130},
+																								pos:        position{line: 2885, col: 20, offset: 91131},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91139},
+																								pos:        position{line: 2885, col: 29, offset: 91140},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30484,9 +30484,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91299},
+																					pos: position{line: 2895, col: 8, offset: 91300},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91300,
+																						line: 2895, col: 9, offset: 91301,
 																					},
 																				},
 																			},
@@ -30504,41 +30504,41 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1551, col: 5, offset: 50177},
+							pos:   position{line: 1551, col: 5, offset: 50178},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1551, col: 16, offset: 50188},
+								pos: position{line: 1551, col: 16, offset: 50189},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1551, col: 17, offset: 50189},
+									pos:  position{line: 1551, col: 17, offset: 50190},
 									name: "BlockAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1552, col: 5, offset: 50211},
+							pos:   position{line: 1552, col: 5, offset: 50212},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1553, col: 9, offset: 50229},
+								pos: position{line: 1553, col: 9, offset: 50230},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 677, col: 14, offset: 21557},
+										pos: position{line: 677, col: 14, offset: 21558},
 										run: (*parser).callonListContinuationElement238,
 										expr: &seqExpr{
-											pos: position{line: 677, col: 14, offset: 21557},
+											pos: position{line: 677, col: 14, offset: 21558},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2893, col: 11, offset: 91285},
+													pos: position{line: 2893, col: 11, offset: 91286},
 													expr: &anyMatcher{
-														line: 2893, col: 13, offset: 91287,
+														line: 2893, col: 13, offset: 91288,
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 677, col: 21, offset: 21564},
+													pos: position{line: 677, col: 21, offset: 21565},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 90951},
+														pos: position{line: 2876, col: 10, offset: 90952},
 														run: (*parser).callonListContinuationElement243,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 90951},
+															pos:        position{line: 2876, col: 10, offset: 90952},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30547,28 +30547,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2898, col: 8, offset: 91349},
+													pos: position{line: 2898, col: 8, offset: 91350},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91122},
+															pos: position{line: 2885, col: 12, offset: 91123},
 															run: (*parser).callonListContinuationElement246,
 															expr: &choiceExpr{
-																pos: position{line: 2885, col: 13, offset: 91123},
+																pos: position{line: 2885, col: 13, offset: 91124},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 13, offset: 91123},
+																		pos:        position{line: 2885, col: 13, offset: 91124},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 20, offset: 91130},
+																		pos:        position{line: 2885, col: 20, offset: 91131},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 29, offset: 91139},
+																		pos:        position{line: 2885, col: 29, offset: 91140},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30577,9 +30577,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2895, col: 8, offset: 91299},
+															pos: position{line: 2895, col: 8, offset: 91300},
 															expr: &anyMatcher{
-																line: 2895, col: 9, offset: 91300,
+																line: 2895, col: 9, offset: 91301,
 															},
 														},
 													},
@@ -30588,23 +30588,23 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1554, col: 11, offset: 50249},
+										pos:  position{line: 1554, col: 11, offset: 50250},
 										name: "AttributeDeclaration",
 									},
 									&actionExpr{
-										pos: position{line: 360, col: 19, offset: 10910},
+										pos: position{line: 360, col: 19, offset: 10911},
 										run: (*parser).callonListContinuationElement254,
 										expr: &seqExpr{
-											pos: position{line: 360, col: 19, offset: 10910},
+											pos: position{line: 360, col: 19, offset: 10911},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 360, col: 19, offset: 10910},
+													pos:        position{line: 360, col: 19, offset: 10911},
 													val:        ":!",
 													ignoreCase: false,
 													want:       "\":!\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 360, col: 24, offset: 10915},
+													pos:   position{line: 360, col: 24, offset: 10916},
 													label: "name",
 													expr: &actionExpr{
 														pos: position{line: 318, col: 18, offset: 9729},
@@ -30624,8 +30624,8 @@ var g = &grammar{
 																	pos: position{line: 318, col: 28, offset: 9739},
 																	expr: &charClassMatcher{
 																		pos:        position{line: 318, col: 29, offset: 9740},
-																		val:        "[-\\pL\\pN]",
-																		chars:      []rune{'-'},
+																		val:        "[_-\\pL\\pN]",
+																		chars:      []rune{'_', '-'},
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
@@ -30636,18 +30636,18 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 360, col: 45, offset: 10936},
+													pos:        position{line: 360, col: 45, offset: 10937},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 360, col: 49, offset: 10940},
+													pos: position{line: 360, col: 49, offset: 10941},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 90951},
+														pos: position{line: 2876, col: 10, offset: 90952},
 														run: (*parser).callonListContinuationElement265,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 90951},
+															pos:        position{line: 2876, col: 10, offset: 90952},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30656,28 +30656,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2898, col: 8, offset: 91349},
+													pos: position{line: 2898, col: 8, offset: 91350},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91122},
+															pos: position{line: 2885, col: 12, offset: 91123},
 															run: (*parser).callonListContinuationElement268,
 															expr: &choiceExpr{
-																pos: position{line: 2885, col: 13, offset: 91123},
+																pos: position{line: 2885, col: 13, offset: 91124},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 13, offset: 91123},
+																		pos:        position{line: 2885, col: 13, offset: 91124},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 20, offset: 91130},
+																		pos:        position{line: 2885, col: 20, offset: 91131},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 29, offset: 91139},
+																		pos:        position{line: 2885, col: 29, offset: 91140},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30686,9 +30686,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2895, col: 8, offset: 91299},
+															pos: position{line: 2895, col: 8, offset: 91300},
 															expr: &anyMatcher{
-																line: 2895, col: 9, offset: 91300,
+																line: 2895, col: 9, offset: 91301,
 															},
 														},
 													},
@@ -30697,19 +30697,19 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 362, col: 9, offset: 11031},
+										pos: position{line: 362, col: 9, offset: 11032},
 										run: (*parser).callonListContinuationElement275,
 										expr: &seqExpr{
-											pos: position{line: 362, col: 9, offset: 11031},
+											pos: position{line: 362, col: 9, offset: 11032},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 362, col: 9, offset: 11031},
+													pos:        position{line: 362, col: 9, offset: 11032},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 362, col: 13, offset: 11035},
+													pos:   position{line: 362, col: 13, offset: 11036},
 													label: "name",
 													expr: &actionExpr{
 														pos: position{line: 318, col: 18, offset: 9729},
@@ -30729,8 +30729,8 @@ var g = &grammar{
 																	pos: position{line: 318, col: 28, offset: 9739},
 																	expr: &charClassMatcher{
 																		pos:        position{line: 318, col: 29, offset: 9740},
-																		val:        "[-\\pL\\pN]",
-																		chars:      []rune{'-'},
+																		val:        "[_-\\pL\\pN]",
+																		chars:      []rune{'_', '-'},
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
@@ -30741,18 +30741,18 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 362, col: 34, offset: 11056},
+													pos:        position{line: 362, col: 34, offset: 11057},
 													val:        "!:",
 													ignoreCase: false,
 													want:       "\"!:\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 362, col: 39, offset: 11061},
+													pos: position{line: 362, col: 39, offset: 11062},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 90951},
+														pos: position{line: 2876, col: 10, offset: 90952},
 														run: (*parser).callonListContinuationElement286,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 90951},
+															pos:        position{line: 2876, col: 10, offset: 90952},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30761,28 +30761,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2898, col: 8, offset: 91349},
+													pos: position{line: 2898, col: 8, offset: 91350},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91122},
+															pos: position{line: 2885, col: 12, offset: 91123},
 															run: (*parser).callonListContinuationElement289,
 															expr: &choiceExpr{
-																pos: position{line: 2885, col: 13, offset: 91123},
+																pos: position{line: 2885, col: 13, offset: 91124},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 13, offset: 91123},
+																		pos:        position{line: 2885, col: 13, offset: 91124},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 20, offset: 91130},
+																		pos:        position{line: 2885, col: 20, offset: 91131},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 29, offset: 91139},
+																		pos:        position{line: 2885, col: 29, offset: 91140},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30791,9 +30791,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2895, col: 8, offset: 91299},
+															pos: position{line: 2895, col: 8, offset: 91300},
 															expr: &anyMatcher{
-																line: 2895, col: 9, offset: 91300,
+																line: 2895, col: 9, offset: 91301,
 															},
 														},
 													},
@@ -30802,36 +30802,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 820, col: 5, offset: 26397},
+										pos: position{line: 820, col: 5, offset: 26398},
 										run: (*parser).callonListContinuationElement296,
 										expr: &seqExpr{
-											pos: position{line: 820, col: 5, offset: 26397},
+											pos: position{line: 820, col: 5, offset: 26398},
 											exprs: []interface{}{
 												&actionExpr{
-													pos: position{line: 740, col: 5, offset: 23652},
+													pos: position{line: 740, col: 5, offset: 23653},
 													run: (*parser).callonListContinuationElement298,
 													expr: &seqExpr{
-														pos: position{line: 740, col: 5, offset: 23652},
+														pos: position{line: 740, col: 5, offset: 23653},
 														exprs: []interface{}{
 															&labeledExpr{
-																pos:   position{line: 740, col: 5, offset: 23652},
+																pos:   position{line: 740, col: 5, offset: 23653},
 																label: "delimiter",
 																expr: &actionExpr{
-																	pos: position{line: 740, col: 16, offset: 23663},
+																	pos: position{line: 740, col: 16, offset: 23664},
 																	run: (*parser).callonListContinuationElement301,
 																	expr: &seqExpr{
-																		pos: position{line: 740, col: 16, offset: 23663},
+																		pos: position{line: 740, col: 16, offset: 23664},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 740, col: 16, offset: 23663},
+																				pos:        position{line: 740, col: 16, offset: 23664},
 																				val:        "////",
 																				ignoreCase: false,
 																				want:       "\"////\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 740, col: 23, offset: 23670},
+																				pos: position{line: 740, col: 23, offset: 23671},
 																				expr: &litMatcher{
-																					pos:        position{line: 740, col: 23, offset: 23670},
+																					pos:        position{line: 740, col: 23, offset: 23671},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -30842,12 +30842,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 742, col: 8, offset: 23754},
+																pos: position{line: 742, col: 8, offset: 23755},
 																expr: &actionExpr{
-																	pos: position{line: 2876, col: 10, offset: 90951},
+																	pos: position{line: 2876, col: 10, offset: 90952},
 																	run: (*parser).callonListContinuationElement307,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2876, col: 10, offset: 90951},
+																		pos:        position{line: 2876, col: 10, offset: 90952},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -30856,28 +30856,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2898, col: 8, offset: 91349},
+																pos: position{line: 2898, col: 8, offset: 91350},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2885, col: 12, offset: 91122},
+																		pos: position{line: 2885, col: 12, offset: 91123},
 																		run: (*parser).callonListContinuationElement310,
 																		expr: &choiceExpr{
-																			pos: position{line: 2885, col: 13, offset: 91123},
+																			pos: position{line: 2885, col: 13, offset: 91124},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 13, offset: 91123},
+																					pos:        position{line: 2885, col: 13, offset: 91124},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 20, offset: 91130},
+																					pos:        position{line: 2885, col: 20, offset: 91131},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 29, offset: 91139},
+																					pos:        position{line: 2885, col: 29, offset: 91140},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -30886,9 +30886,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91299},
+																		pos: position{line: 2895, col: 8, offset: 91300},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91300,
+																			line: 2895, col: 9, offset: 91301,
 																		},
 																	},
 																},
@@ -30897,46 +30897,46 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 821, col: 5, offset: 26428},
+													pos:   position{line: 821, col: 5, offset: 26429},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 831, col: 5, offset: 26714},
+														pos: position{line: 831, col: 5, offset: 26715},
 														expr: &actionExpr{
-															pos: position{line: 831, col: 6, offset: 26715},
+															pos: position{line: 831, col: 6, offset: 26716},
 															run: (*parser).callonListContinuationElement319,
 															expr: &seqExpr{
-																pos: position{line: 831, col: 6, offset: 26715},
+																pos: position{line: 831, col: 6, offset: 26716},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 831, col: 6, offset: 26715},
+																		pos: position{line: 831, col: 6, offset: 26716},
 																		expr: &choiceExpr{
-																			pos: position{line: 828, col: 29, offset: 26657},
+																			pos: position{line: 828, col: 29, offset: 26658},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 740, col: 5, offset: 23652},
+																					pos: position{line: 740, col: 5, offset: 23653},
 																					run: (*parser).callonListContinuationElement323,
 																					expr: &seqExpr{
-																						pos: position{line: 740, col: 5, offset: 23652},
+																						pos: position{line: 740, col: 5, offset: 23653},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 740, col: 5, offset: 23652},
+																								pos:   position{line: 740, col: 5, offset: 23653},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 740, col: 16, offset: 23663},
+																									pos: position{line: 740, col: 16, offset: 23664},
 																									run: (*parser).callonListContinuationElement326,
 																									expr: &seqExpr{
-																										pos: position{line: 740, col: 16, offset: 23663},
+																										pos: position{line: 740, col: 16, offset: 23664},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 740, col: 16, offset: 23663},
+																												pos:        position{line: 740, col: 16, offset: 23664},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 740, col: 23, offset: 23670},
+																												pos: position{line: 740, col: 23, offset: 23671},
 																												expr: &litMatcher{
-																													pos:        position{line: 740, col: 23, offset: 23670},
+																													pos:        position{line: 740, col: 23, offset: 23671},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -30947,12 +30947,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 742, col: 8, offset: 23754},
+																								pos: position{line: 742, col: 8, offset: 23755},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 90951},
+																									pos: position{line: 2876, col: 10, offset: 90952},
 																									run: (*parser).callonListContinuationElement332,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 90951},
+																										pos:        position{line: 2876, col: 10, offset: 90952},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -30961,28 +30961,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2898, col: 8, offset: 91349},
+																								pos: position{line: 2898, col: 8, offset: 91350},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2885, col: 12, offset: 91122},
+																										pos: position{line: 2885, col: 12, offset: 91123},
 																										run: (*parser).callonListContinuationElement335,
 																										expr: &choiceExpr{
-																											pos: position{line: 2885, col: 13, offset: 91123},
+																											pos: position{line: 2885, col: 13, offset: 91124},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 13, offset: 91123},
+																													pos:        position{line: 2885, col: 13, offset: 91124},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 20, offset: 91130},
+																													pos:        position{line: 2885, col: 20, offset: 91131},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 29, offset: 91139},
+																													pos:        position{line: 2885, col: 29, offset: 91140},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -30991,9 +30991,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2895, col: 8, offset: 91299},
+																										pos: position{line: 2895, col: 8, offset: 91300},
 																										expr: &anyMatcher{
-																											line: 2895, col: 9, offset: 91300,
+																											line: 2895, col: 9, offset: 91301,
 																										},
 																									},
 																								},
@@ -31002,39 +31002,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91299},
+																					pos: position{line: 2895, col: 8, offset: 91300},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91300,
+																						line: 2895, col: 9, offset: 91301,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 832, col: 5, offset: 26745},
+																		pos:   position{line: 832, col: 5, offset: 26746},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26161},
+																			pos: position{line: 811, col: 5, offset: 26162},
 																			run: (*parser).callonListContinuationElement345,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26161},
+																				pos: position{line: 811, col: 5, offset: 26162},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2893, col: 11, offset: 91285},
+																						pos: position{line: 2893, col: 11, offset: 91286},
 																						expr: &anyMatcher{
-																							line: 2893, col: 13, offset: 91287,
+																							line: 2893, col: 13, offset: 91288,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26236},
+																						pos:   position{line: 812, col: 5, offset: 26237},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2822, col: 13, offset: 89477},
+																							pos: position{line: 2822, col: 13, offset: 89478},
 																							run: (*parser).callonListContinuationElement350,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2822, col: 13, offset: 89477},
+																								pos: position{line: 2822, col: 13, offset: 89478},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2822, col: 13, offset: 89477},
+																									pos:        position{line: 2822, col: 13, offset: 89478},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31044,28 +31044,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91349},
+																						pos: position{line: 2898, col: 8, offset: 91350},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91122},
+																								pos: position{line: 2885, col: 12, offset: 91123},
 																								run: (*parser).callonListContinuationElement354,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91123},
+																									pos: position{line: 2885, col: 13, offset: 91124},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91123},
+																											pos:        position{line: 2885, col: 13, offset: 91124},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91130},
+																											pos:        position{line: 2885, col: 20, offset: 91131},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91139},
+																											pos:        position{line: 2885, col: 29, offset: 91140},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31074,9 +31074,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91299},
+																								pos: position{line: 2895, col: 8, offset: 91300},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91300,
+																									line: 2895, col: 9, offset: 91301,
 																								},
 																							},
 																						},
@@ -31091,35 +31091,35 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 822, col: 5, offset: 26462},
+													pos: position{line: 822, col: 5, offset: 26463},
 													expr: &choiceExpr{
-														pos: position{line: 828, col: 29, offset: 26657},
+														pos: position{line: 828, col: 29, offset: 26658},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 740, col: 5, offset: 23652},
+																pos: position{line: 740, col: 5, offset: 23653},
 																run: (*parser).callonListContinuationElement363,
 																expr: &seqExpr{
-																	pos: position{line: 740, col: 5, offset: 23652},
+																	pos: position{line: 740, col: 5, offset: 23653},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 740, col: 5, offset: 23652},
+																			pos:   position{line: 740, col: 5, offset: 23653},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 740, col: 16, offset: 23663},
+																				pos: position{line: 740, col: 16, offset: 23664},
 																				run: (*parser).callonListContinuationElement366,
 																				expr: &seqExpr{
-																					pos: position{line: 740, col: 16, offset: 23663},
+																					pos: position{line: 740, col: 16, offset: 23664},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 740, col: 16, offset: 23663},
+																							pos:        position{line: 740, col: 16, offset: 23664},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 740, col: 23, offset: 23670},
+																							pos: position{line: 740, col: 23, offset: 23671},
 																							expr: &litMatcher{
-																								pos:        position{line: 740, col: 23, offset: 23670},
+																								pos:        position{line: 740, col: 23, offset: 23671},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -31130,12 +31130,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 742, col: 8, offset: 23754},
+																			pos: position{line: 742, col: 8, offset: 23755},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 90951},
+																				pos: position{line: 2876, col: 10, offset: 90952},
 																				run: (*parser).callonListContinuationElement372,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 90951},
+																					pos:        position{line: 2876, col: 10, offset: 90952},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -31144,28 +31144,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91349},
+																			pos: position{line: 2898, col: 8, offset: 91350},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91122},
+																					pos: position{line: 2885, col: 12, offset: 91123},
 																					run: (*parser).callonListContinuationElement375,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91123},
+																						pos: position{line: 2885, col: 13, offset: 91124},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91123},
+																								pos:        position{line: 2885, col: 13, offset: 91124},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91130},
+																								pos:        position{line: 2885, col: 20, offset: 91131},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91139},
+																								pos:        position{line: 2885, col: 29, offset: 91140},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31174,9 +31174,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91299},
+																					pos: position{line: 2895, col: 8, offset: 91300},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91300,
+																						line: 2895, col: 9, offset: 91301,
 																					},
 																				},
 																			},
@@ -31185,9 +31185,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91299},
+																pos: position{line: 2895, col: 8, offset: 91300},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91300,
+																	line: 2895, col: 9, offset: 91301,
 																},
 															},
 														},
@@ -31197,39 +31197,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 840, col: 5, offset: 26898},
+										pos: position{line: 840, col: 5, offset: 26899},
 										run: (*parser).callonListContinuationElement384,
 										expr: &seqExpr{
-											pos: position{line: 840, col: 5, offset: 26898},
+											pos: position{line: 840, col: 5, offset: 26899},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 840, col: 5, offset: 26898},
+													pos:   position{line: 840, col: 5, offset: 26899},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 747, col: 5, offset: 23900},
+														pos: position{line: 747, col: 5, offset: 23901},
 														run: (*parser).callonListContinuationElement387,
 														expr: &seqExpr{
-															pos: position{line: 747, col: 5, offset: 23900},
+															pos: position{line: 747, col: 5, offset: 23901},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 747, col: 5, offset: 23900},
+																	pos:   position{line: 747, col: 5, offset: 23901},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 747, col: 16, offset: 23911},
+																		pos: position{line: 747, col: 16, offset: 23912},
 																		run: (*parser).callonListContinuationElement390,
 																		expr: &seqExpr{
-																			pos: position{line: 747, col: 16, offset: 23911},
+																			pos: position{line: 747, col: 16, offset: 23912},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 747, col: 16, offset: 23911},
+																					pos:        position{line: 747, col: 16, offset: 23912},
 																					val:        "====",
 																					ignoreCase: false,
 																					want:       "\"====\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 747, col: 23, offset: 23918},
+																					pos: position{line: 747, col: 23, offset: 23919},
 																					expr: &litMatcher{
-																						pos:        position{line: 747, col: 23, offset: 23918},
+																						pos:        position{line: 747, col: 23, offset: 23919},
 																						val:        "=",
 																						ignoreCase: false,
 																						want:       "\"=\"",
@@ -31240,12 +31240,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 749, col: 8, offset: 24002},
+																	pos: position{line: 749, col: 8, offset: 24003},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 90951},
+																		pos: position{line: 2876, col: 10, offset: 90952},
 																		run: (*parser).callonListContinuationElement396,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 90951},
+																			pos:        position{line: 2876, col: 10, offset: 90952},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31254,28 +31254,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91349},
+																	pos: position{line: 2898, col: 8, offset: 91350},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91122},
+																			pos: position{line: 2885, col: 12, offset: 91123},
 																			run: (*parser).callonListContinuationElement399,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91123},
+																				pos: position{line: 2885, col: 13, offset: 91124},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91123},
+																						pos:        position{line: 2885, col: 13, offset: 91124},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91130},
+																						pos:        position{line: 2885, col: 20, offset: 91131},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91139},
+																						pos:        position{line: 2885, col: 29, offset: 91140},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31284,9 +31284,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91299},
+																			pos: position{line: 2895, col: 8, offset: 91300},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91300,
+																				line: 2895, col: 9, offset: 91301,
 																			},
 																		},
 																	},
@@ -31296,56 +31296,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 841, col: 5, offset: 26937},
+													pos: position{line: 841, col: 5, offset: 26938},
 													run: (*parser).callonListContinuationElement406,
 												},
 												&labeledExpr{
-													pos:   position{line: 844, col: 5, offset: 27029},
+													pos:   position{line: 844, col: 5, offset: 27030},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 859, col: 4, offset: 27426},
+														pos: position{line: 859, col: 4, offset: 27427},
 														expr: &actionExpr{
-															pos: position{line: 859, col: 5, offset: 27427},
+															pos: position{line: 859, col: 5, offset: 27428},
 															run: (*parser).callonListContinuationElement409,
 															expr: &seqExpr{
-																pos: position{line: 859, col: 5, offset: 27427},
+																pos: position{line: 859, col: 5, offset: 27428},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 859, col: 5, offset: 27427},
+																		pos: position{line: 859, col: 5, offset: 27428},
 																		expr: &choiceExpr{
-																			pos: position{line: 852, col: 5, offset: 27269},
+																			pos: position{line: 852, col: 5, offset: 27270},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 852, col: 5, offset: 27269},
+																					pos: position{line: 852, col: 5, offset: 27270},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 852, col: 5, offset: 27269},
+																							pos:   position{line: 852, col: 5, offset: 27270},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 747, col: 5, offset: 23900},
+																								pos: position{line: 747, col: 5, offset: 23901},
 																								run: (*parser).callonListContinuationElement415,
 																								expr: &seqExpr{
-																									pos: position{line: 747, col: 5, offset: 23900},
+																									pos: position{line: 747, col: 5, offset: 23901},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 747, col: 5, offset: 23900},
+																											pos:   position{line: 747, col: 5, offset: 23901},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 747, col: 16, offset: 23911},
+																												pos: position{line: 747, col: 16, offset: 23912},
 																												run: (*parser).callonListContinuationElement418,
 																												expr: &seqExpr{
-																													pos: position{line: 747, col: 16, offset: 23911},
+																													pos: position{line: 747, col: 16, offset: 23912},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 747, col: 16, offset: 23911},
+																															pos:        position{line: 747, col: 16, offset: 23912},
 																															val:        "====",
 																															ignoreCase: false,
 																															want:       "\"====\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 747, col: 23, offset: 23918},
+																															pos: position{line: 747, col: 23, offset: 23919},
 																															expr: &litMatcher{
-																																pos:        position{line: 747, col: 23, offset: 23918},
+																																pos:        position{line: 747, col: 23, offset: 23919},
 																																val:        "=",
 																																ignoreCase: false,
 																																want:       "\"=\"",
@@ -31356,12 +31356,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 749, col: 8, offset: 24002},
+																											pos: position{line: 749, col: 8, offset: 24003},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 90951},
+																												pos: position{line: 2876, col: 10, offset: 90952},
 																												run: (*parser).callonListContinuationElement424,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 90951},
+																													pos:        position{line: 2876, col: 10, offset: 90952},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31370,28 +31370,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91349},
+																											pos: position{line: 2898, col: 8, offset: 91350},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91122},
+																													pos: position{line: 2885, col: 12, offset: 91123},
 																													run: (*parser).callonListContinuationElement427,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91123},
+																														pos: position{line: 2885, col: 13, offset: 91124},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91123},
+																																pos:        position{line: 2885, col: 13, offset: 91124},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91130},
+																																pos:        position{line: 2885, col: 20, offset: 91131},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91139},
+																																pos:        position{line: 2885, col: 29, offset: 91140},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31400,9 +31400,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91299},
+																													pos: position{line: 2895, col: 8, offset: 91300},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91300,
+																														line: 2895, col: 9, offset: 91301,
 																													},
 																												},
 																											},
@@ -31412,45 +31412,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 853, col: 5, offset: 27300},
+																							pos: position{line: 853, col: 5, offset: 27301},
 																							run: (*parser).callonListContinuationElement434,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91299},
+																					pos: position{line: 2895, col: 8, offset: 91300},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91300,
+																						line: 2895, col: 9, offset: 91301,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 860, col: 5, offset: 27457},
+																		pos:   position{line: 860, col: 5, offset: 27458},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26161},
+																			pos: position{line: 811, col: 5, offset: 26162},
 																			run: (*parser).callonListContinuationElement438,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26161},
+																				pos: position{line: 811, col: 5, offset: 26162},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2893, col: 11, offset: 91285},
+																						pos: position{line: 2893, col: 11, offset: 91286},
 																						expr: &anyMatcher{
-																							line: 2893, col: 13, offset: 91287,
+																							line: 2893, col: 13, offset: 91288,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26236},
+																						pos:   position{line: 812, col: 5, offset: 26237},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2822, col: 13, offset: 89477},
+																							pos: position{line: 2822, col: 13, offset: 89478},
 																							run: (*parser).callonListContinuationElement443,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2822, col: 13, offset: 89477},
+																								pos: position{line: 2822, col: 13, offset: 89478},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2822, col: 13, offset: 89477},
+																									pos:        position{line: 2822, col: 13, offset: 89478},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31460,28 +31460,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91349},
+																						pos: position{line: 2898, col: 8, offset: 91350},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91122},
+																								pos: position{line: 2885, col: 12, offset: 91123},
 																								run: (*parser).callonListContinuationElement447,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91123},
+																									pos: position{line: 2885, col: 13, offset: 91124},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91123},
+																											pos:        position{line: 2885, col: 13, offset: 91124},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91130},
+																											pos:        position{line: 2885, col: 20, offset: 91131},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91139},
+																											pos:        position{line: 2885, col: 29, offset: 91140},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31490,9 +31490,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91299},
+																								pos: position{line: 2895, col: 8, offset: 91300},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91300,
+																									line: 2895, col: 9, offset: 91301,
 																								},
 																							},
 																						},
@@ -31507,44 +31507,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 845, col: 5, offset: 27063},
+													pos:   position{line: 845, col: 5, offset: 27064},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 845, col: 9, offset: 27067},
+														pos: position{line: 845, col: 9, offset: 27068},
 														expr: &choiceExpr{
-															pos: position{line: 852, col: 5, offset: 27269},
+															pos: position{line: 852, col: 5, offset: 27270},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 852, col: 5, offset: 27269},
+																	pos: position{line: 852, col: 5, offset: 27270},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 852, col: 5, offset: 27269},
+																			pos:   position{line: 852, col: 5, offset: 27270},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 747, col: 5, offset: 23900},
+																				pos: position{line: 747, col: 5, offset: 23901},
 																				run: (*parser).callonListContinuationElement459,
 																				expr: &seqExpr{
-																					pos: position{line: 747, col: 5, offset: 23900},
+																					pos: position{line: 747, col: 5, offset: 23901},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 747, col: 5, offset: 23900},
+																							pos:   position{line: 747, col: 5, offset: 23901},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 747, col: 16, offset: 23911},
+																								pos: position{line: 747, col: 16, offset: 23912},
 																								run: (*parser).callonListContinuationElement462,
 																								expr: &seqExpr{
-																									pos: position{line: 747, col: 16, offset: 23911},
+																									pos: position{line: 747, col: 16, offset: 23912},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 747, col: 16, offset: 23911},
+																											pos:        position{line: 747, col: 16, offset: 23912},
 																											val:        "====",
 																											ignoreCase: false,
 																											want:       "\"====\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 747, col: 23, offset: 23918},
+																											pos: position{line: 747, col: 23, offset: 23919},
 																											expr: &litMatcher{
-																												pos:        position{line: 747, col: 23, offset: 23918},
+																												pos:        position{line: 747, col: 23, offset: 23919},
 																												val:        "=",
 																												ignoreCase: false,
 																												want:       "\"=\"",
@@ -31555,12 +31555,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 749, col: 8, offset: 24002},
+																							pos: position{line: 749, col: 8, offset: 24003},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 90951},
+																								pos: position{line: 2876, col: 10, offset: 90952},
 																								run: (*parser).callonListContinuationElement468,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 90951},
+																									pos:        position{line: 2876, col: 10, offset: 90952},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -31569,28 +31569,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91349},
+																							pos: position{line: 2898, col: 8, offset: 91350},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91122},
+																									pos: position{line: 2885, col: 12, offset: 91123},
 																									run: (*parser).callonListContinuationElement471,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91123},
+																										pos: position{line: 2885, col: 13, offset: 91124},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91123},
+																												pos:        position{line: 2885, col: 13, offset: 91124},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91130},
+																												pos:        position{line: 2885, col: 20, offset: 91131},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91139},
+																												pos:        position{line: 2885, col: 29, offset: 91140},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -31599,9 +31599,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91299},
+																									pos: position{line: 2895, col: 8, offset: 91300},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91300,
+																										line: 2895, col: 9, offset: 91301,
 																									},
 																								},
 																							},
@@ -31611,15 +31611,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 853, col: 5, offset: 27300},
+																			pos: position{line: 853, col: 5, offset: 27301},
 																			run: (*parser).callonListContinuationElement478,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2895, col: 8, offset: 91299},
+																	pos: position{line: 2895, col: 8, offset: 91300},
 																	expr: &anyMatcher{
-																		line: 2895, col: 9, offset: 91300,
+																		line: 2895, col: 9, offset: 91301,
 																	},
 																},
 															},
@@ -31630,36 +31630,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 952, col: 5, offset: 29749},
+										pos: position{line: 952, col: 5, offset: 29750},
 										run: (*parser).callonListContinuationElement481,
 										expr: &seqExpr{
-											pos: position{line: 952, col: 5, offset: 29749},
+											pos: position{line: 952, col: 5, offset: 29750},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 952, col: 5, offset: 29749},
+													pos:   position{line: 952, col: 5, offset: 29750},
 													label: "delimiter",
 													expr: &actionExpr{
-														pos: position{line: 760, col: 26, offset: 24388},
+														pos: position{line: 760, col: 26, offset: 24389},
 														run: (*parser).callonListContinuationElement484,
 														expr: &seqExpr{
-															pos: position{line: 760, col: 26, offset: 24388},
+															pos: position{line: 760, col: 26, offset: 24389},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 760, col: 26, offset: 24388},
+																	pos:        position{line: 760, col: 26, offset: 24389},
 																	val:        "```",
 																	ignoreCase: false,
 																	want:       "\"```\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 760, col: 32, offset: 24394},
+																	pos:   position{line: 760, col: 32, offset: 24395},
 																	label: "language",
 																	expr: &actionExpr{
-																		pos: position{line: 764, col: 13, offset: 24524},
+																		pos: position{line: 764, col: 13, offset: 24525},
 																		run: (*parser).callonListContinuationElement488,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 764, col: 14, offset: 24525},
+																			pos: position{line: 764, col: 14, offset: 24526},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 764, col: 14, offset: 24525},
+																				pos:        position{line: 764, col: 14, offset: 24526},
 																				val:        "[^\\r\\n`\\t ]",
 																				chars:      []rune{'\r', '\n', '`', '\t', ' '},
 																				ignoreCase: false,
@@ -31669,12 +31669,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 760, col: 52, offset: 24414},
+																	pos: position{line: 760, col: 52, offset: 24415},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 90951},
+																		pos: position{line: 2876, col: 10, offset: 90952},
 																		run: (*parser).callonListContinuationElement492,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 90951},
+																			pos:        position{line: 2876, col: 10, offset: 90952},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31683,28 +31683,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91349},
+																	pos: position{line: 2898, col: 8, offset: 91350},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91122},
+																			pos: position{line: 2885, col: 12, offset: 91123},
 																			run: (*parser).callonListContinuationElement495,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91123},
+																				pos: position{line: 2885, col: 13, offset: 91124},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91123},
+																						pos:        position{line: 2885, col: 13, offset: 91124},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91130},
+																						pos:        position{line: 2885, col: 20, offset: 91131},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91139},
+																						pos:        position{line: 2885, col: 29, offset: 91140},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31713,9 +31713,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91299},
+																			pos: position{line: 2895, col: 8, offset: 91300},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91300,
+																				line: 2895, col: 9, offset: 91301,
 																			},
 																		},
 																	},
@@ -31725,34 +31725,34 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 953, col: 5, offset: 29795},
+													pos:   position{line: 953, col: 5, offset: 29796},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 966, col: 5, offset: 30268},
+														pos: position{line: 966, col: 5, offset: 30269},
 														expr: &actionExpr{
-															pos: position{line: 966, col: 6, offset: 30269},
+															pos: position{line: 966, col: 6, offset: 30270},
 															run: (*parser).callonListContinuationElement504,
 															expr: &seqExpr{
-																pos: position{line: 966, col: 6, offset: 30269},
+																pos: position{line: 966, col: 6, offset: 30270},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 966, col: 6, offset: 30269},
+																		pos: position{line: 966, col: 6, offset: 30270},
 																		expr: &seqExpr{
-																			pos: position{line: 963, col: 34, offset: 30216},
+																			pos: position{line: 963, col: 34, offset: 30217},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 963, col: 34, offset: 30216},
+																					pos:        position{line: 963, col: 34, offset: 30217},
 																					val:        "```",
 																					ignoreCase: false,
 																					want:       "\"```\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 963, col: 40, offset: 30222},
+																					pos: position{line: 963, col: 40, offset: 30223},
 																					expr: &actionExpr{
-																						pos: position{line: 2876, col: 10, offset: 90951},
+																						pos: position{line: 2876, col: 10, offset: 90952},
 																						run: (*parser).callonListContinuationElement510,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2876, col: 10, offset: 90951},
+																							pos:        position{line: 2876, col: 10, offset: 90952},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -31761,28 +31761,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2898, col: 8, offset: 91349},
+																					pos: position{line: 2898, col: 8, offset: 91350},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2885, col: 12, offset: 91122},
+																							pos: position{line: 2885, col: 12, offset: 91123},
 																							run: (*parser).callonListContinuationElement513,
 																							expr: &choiceExpr{
-																								pos: position{line: 2885, col: 13, offset: 91123},
+																								pos: position{line: 2885, col: 13, offset: 91124},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 13, offset: 91123},
+																										pos:        position{line: 2885, col: 13, offset: 91124},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 20, offset: 91130},
+																										pos:        position{line: 2885, col: 20, offset: 91131},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 29, offset: 91139},
+																										pos:        position{line: 2885, col: 29, offset: 91140},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -31791,9 +31791,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2895, col: 8, offset: 91299},
+																							pos: position{line: 2895, col: 8, offset: 91300},
 																							expr: &anyMatcher{
-																								line: 2895, col: 9, offset: 91300,
+																								line: 2895, col: 9, offset: 91301,
 																							},
 																						},
 																					},
@@ -31802,30 +31802,30 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 967, col: 5, offset: 30304},
+																		pos:   position{line: 967, col: 5, offset: 30305},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26161},
+																			pos: position{line: 811, col: 5, offset: 26162},
 																			run: (*parser).callonListContinuationElement521,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26161},
+																				pos: position{line: 811, col: 5, offset: 26162},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2893, col: 11, offset: 91285},
+																						pos: position{line: 2893, col: 11, offset: 91286},
 																						expr: &anyMatcher{
-																							line: 2893, col: 13, offset: 91287,
+																							line: 2893, col: 13, offset: 91288,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26236},
+																						pos:   position{line: 812, col: 5, offset: 26237},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2822, col: 13, offset: 89477},
+																							pos: position{line: 2822, col: 13, offset: 89478},
 																							run: (*parser).callonListContinuationElement526,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2822, col: 13, offset: 89477},
+																								pos: position{line: 2822, col: 13, offset: 89478},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2822, col: 13, offset: 89477},
+																									pos:        position{line: 2822, col: 13, offset: 89478},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31835,28 +31835,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91349},
+																						pos: position{line: 2898, col: 8, offset: 91350},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91122},
+																								pos: position{line: 2885, col: 12, offset: 91123},
 																								run: (*parser).callonListContinuationElement530,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91123},
+																									pos: position{line: 2885, col: 13, offset: 91124},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91123},
+																											pos:        position{line: 2885, col: 13, offset: 91124},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91130},
+																											pos:        position{line: 2885, col: 20, offset: 91131},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91139},
+																											pos:        position{line: 2885, col: 29, offset: 91140},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31865,9 +31865,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91299},
+																								pos: position{line: 2895, col: 8, offset: 91300},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91300,
+																									line: 2895, col: 9, offset: 91301,
 																								},
 																							},
 																						},
@@ -31882,23 +31882,23 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 954, col: 5, offset: 29834},
+													pos: position{line: 954, col: 5, offset: 29835},
 													expr: &seqExpr{
-														pos: position{line: 963, col: 34, offset: 30216},
+														pos: position{line: 963, col: 34, offset: 30217},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 963, col: 34, offset: 30216},
+																pos:        position{line: 963, col: 34, offset: 30217},
 																val:        "```",
 																ignoreCase: false,
 																want:       "\"```\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 963, col: 40, offset: 30222},
+																pos: position{line: 963, col: 40, offset: 30223},
 																expr: &actionExpr{
-																	pos: position{line: 2876, col: 10, offset: 90951},
+																	pos: position{line: 2876, col: 10, offset: 90952},
 																	run: (*parser).callonListContinuationElement541,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2876, col: 10, offset: 90951},
+																		pos:        position{line: 2876, col: 10, offset: 90952},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -31907,28 +31907,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2898, col: 8, offset: 91349},
+																pos: position{line: 2898, col: 8, offset: 91350},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2885, col: 12, offset: 91122},
+																		pos: position{line: 2885, col: 12, offset: 91123},
 																		run: (*parser).callonListContinuationElement544,
 																		expr: &choiceExpr{
-																			pos: position{line: 2885, col: 13, offset: 91123},
+																			pos: position{line: 2885, col: 13, offset: 91124},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 13, offset: 91123},
+																					pos:        position{line: 2885, col: 13, offset: 91124},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 20, offset: 91130},
+																					pos:        position{line: 2885, col: 20, offset: 91131},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 29, offset: 91139},
+																					pos:        position{line: 2885, col: 29, offset: 91140},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -31937,9 +31937,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91299},
+																		pos: position{line: 2895, col: 8, offset: 91300},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91300,
+																			line: 2895, col: 9, offset: 91301,
 																		},
 																	},
 																},
@@ -31951,39 +31951,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 868, col: 5, offset: 27610},
+										pos: position{line: 868, col: 5, offset: 27611},
 										run: (*parser).callonListContinuationElement551,
 										expr: &seqExpr{
-											pos: position{line: 868, col: 5, offset: 27610},
+											pos: position{line: 868, col: 5, offset: 27611},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 868, col: 5, offset: 27610},
+													pos:   position{line: 868, col: 5, offset: 27611},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 754, col: 5, offset: 24147},
+														pos: position{line: 754, col: 5, offset: 24148},
 														run: (*parser).callonListContinuationElement554,
 														expr: &seqExpr{
-															pos: position{line: 754, col: 5, offset: 24147},
+															pos: position{line: 754, col: 5, offset: 24148},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 754, col: 5, offset: 24147},
+																	pos:   position{line: 754, col: 5, offset: 24148},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 754, col: 16, offset: 24158},
+																		pos: position{line: 754, col: 16, offset: 24159},
 																		run: (*parser).callonListContinuationElement557,
 																		expr: &seqExpr{
-																			pos: position{line: 754, col: 16, offset: 24158},
+																			pos: position{line: 754, col: 16, offset: 24159},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 754, col: 16, offset: 24158},
+																					pos:        position{line: 754, col: 16, offset: 24159},
 																					val:        "```",
 																					ignoreCase: false,
 																					want:       "\"```\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 754, col: 22, offset: 24164},
+																					pos: position{line: 754, col: 22, offset: 24165},
 																					expr: &litMatcher{
-																						pos:        position{line: 754, col: 22, offset: 24164},
+																						pos:        position{line: 754, col: 22, offset: 24165},
 																						val:        "`",
 																						ignoreCase: false,
 																						want:       "\"`\"",
@@ -31994,12 +31994,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 756, col: 8, offset: 24248},
+																	pos: position{line: 756, col: 8, offset: 24249},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 90951},
+																		pos: position{line: 2876, col: 10, offset: 90952},
 																		run: (*parser).callonListContinuationElement563,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 90951},
+																			pos:        position{line: 2876, col: 10, offset: 90952},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32008,28 +32008,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91349},
+																	pos: position{line: 2898, col: 8, offset: 91350},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91122},
+																			pos: position{line: 2885, col: 12, offset: 91123},
 																			run: (*parser).callonListContinuationElement566,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91123},
+																				pos: position{line: 2885, col: 13, offset: 91124},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91123},
+																						pos:        position{line: 2885, col: 13, offset: 91124},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91130},
+																						pos:        position{line: 2885, col: 20, offset: 91131},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91139},
+																						pos:        position{line: 2885, col: 29, offset: 91140},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32038,9 +32038,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91299},
+																			pos: position{line: 2895, col: 8, offset: 91300},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91300,
+																				line: 2895, col: 9, offset: 91301,
 																			},
 																		},
 																	},
@@ -32050,56 +32050,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 869, col: 5, offset: 27648},
+													pos: position{line: 869, col: 5, offset: 27649},
 													run: (*parser).callonListContinuationElement573,
 												},
 												&labeledExpr{
-													pos:   position{line: 872, col: 5, offset: 27740},
+													pos:   position{line: 872, col: 5, offset: 27741},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 887, col: 5, offset: 28130},
+														pos: position{line: 887, col: 5, offset: 28131},
 														expr: &actionExpr{
-															pos: position{line: 887, col: 6, offset: 28131},
+															pos: position{line: 887, col: 6, offset: 28132},
 															run: (*parser).callonListContinuationElement576,
 															expr: &seqExpr{
-																pos: position{line: 887, col: 6, offset: 28131},
+																pos: position{line: 887, col: 6, offset: 28132},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 887, col: 6, offset: 28131},
+																		pos: position{line: 887, col: 6, offset: 28132},
 																		expr: &choiceExpr{
-																			pos: position{line: 880, col: 5, offset: 27974},
+																			pos: position{line: 880, col: 5, offset: 27975},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 880, col: 5, offset: 27974},
+																					pos: position{line: 880, col: 5, offset: 27975},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 880, col: 5, offset: 27974},
+																							pos:   position{line: 880, col: 5, offset: 27975},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 754, col: 5, offset: 24147},
+																								pos: position{line: 754, col: 5, offset: 24148},
 																								run: (*parser).callonListContinuationElement582,
 																								expr: &seqExpr{
-																									pos: position{line: 754, col: 5, offset: 24147},
+																									pos: position{line: 754, col: 5, offset: 24148},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 754, col: 5, offset: 24147},
+																											pos:   position{line: 754, col: 5, offset: 24148},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 754, col: 16, offset: 24158},
+																												pos: position{line: 754, col: 16, offset: 24159},
 																												run: (*parser).callonListContinuationElement585,
 																												expr: &seqExpr{
-																													pos: position{line: 754, col: 16, offset: 24158},
+																													pos: position{line: 754, col: 16, offset: 24159},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 754, col: 16, offset: 24158},
+																															pos:        position{line: 754, col: 16, offset: 24159},
 																															val:        "```",
 																															ignoreCase: false,
 																															want:       "\"```\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 754, col: 22, offset: 24164},
+																															pos: position{line: 754, col: 22, offset: 24165},
 																															expr: &litMatcher{
-																																pos:        position{line: 754, col: 22, offset: 24164},
+																																pos:        position{line: 754, col: 22, offset: 24165},
 																																val:        "`",
 																																ignoreCase: false,
 																																want:       "\"`\"",
@@ -32110,12 +32110,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 756, col: 8, offset: 24248},
+																											pos: position{line: 756, col: 8, offset: 24249},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 90951},
+																												pos: position{line: 2876, col: 10, offset: 90952},
 																												run: (*parser).callonListContinuationElement591,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 90951},
+																													pos:        position{line: 2876, col: 10, offset: 90952},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32124,28 +32124,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91349},
+																											pos: position{line: 2898, col: 8, offset: 91350},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91122},
+																													pos: position{line: 2885, col: 12, offset: 91123},
 																													run: (*parser).callonListContinuationElement594,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91123},
+																														pos: position{line: 2885, col: 13, offset: 91124},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91123},
+																																pos:        position{line: 2885, col: 13, offset: 91124},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91130},
+																																pos:        position{line: 2885, col: 20, offset: 91131},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91139},
+																																pos:        position{line: 2885, col: 29, offset: 91140},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32154,9 +32154,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91299},
+																													pos: position{line: 2895, col: 8, offset: 91300},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91300,
+																														line: 2895, col: 9, offset: 91301,
 																													},
 																												},
 																											},
@@ -32166,45 +32166,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 881, col: 5, offset: 28004},
+																							pos: position{line: 881, col: 5, offset: 28005},
 																							run: (*parser).callonListContinuationElement601,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91299},
+																					pos: position{line: 2895, col: 8, offset: 91300},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91300,
+																						line: 2895, col: 9, offset: 91301,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 888, col: 5, offset: 28160},
+																		pos:   position{line: 888, col: 5, offset: 28161},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26161},
+																			pos: position{line: 811, col: 5, offset: 26162},
 																			run: (*parser).callonListContinuationElement605,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26161},
+																				pos: position{line: 811, col: 5, offset: 26162},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2893, col: 11, offset: 91285},
+																						pos: position{line: 2893, col: 11, offset: 91286},
 																						expr: &anyMatcher{
-																							line: 2893, col: 13, offset: 91287,
+																							line: 2893, col: 13, offset: 91288,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26236},
+																						pos:   position{line: 812, col: 5, offset: 26237},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2822, col: 13, offset: 89477},
+																							pos: position{line: 2822, col: 13, offset: 89478},
 																							run: (*parser).callonListContinuationElement610,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2822, col: 13, offset: 89477},
+																								pos: position{line: 2822, col: 13, offset: 89478},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2822, col: 13, offset: 89477},
+																									pos:        position{line: 2822, col: 13, offset: 89478},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32214,28 +32214,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91349},
+																						pos: position{line: 2898, col: 8, offset: 91350},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91122},
+																								pos: position{line: 2885, col: 12, offset: 91123},
 																								run: (*parser).callonListContinuationElement614,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91123},
+																									pos: position{line: 2885, col: 13, offset: 91124},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91123},
+																											pos:        position{line: 2885, col: 13, offset: 91124},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91130},
+																											pos:        position{line: 2885, col: 20, offset: 91131},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91139},
+																											pos:        position{line: 2885, col: 29, offset: 91140},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32244,9 +32244,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91299},
+																								pos: position{line: 2895, col: 8, offset: 91300},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91300,
+																									line: 2895, col: 9, offset: 91301,
 																								},
 																							},
 																						},
@@ -32261,44 +32261,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 873, col: 5, offset: 27773},
+													pos:   position{line: 873, col: 5, offset: 27774},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 873, col: 9, offset: 27777},
+														pos: position{line: 873, col: 9, offset: 27778},
 														expr: &choiceExpr{
-															pos: position{line: 880, col: 5, offset: 27974},
+															pos: position{line: 880, col: 5, offset: 27975},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 880, col: 5, offset: 27974},
+																	pos: position{line: 880, col: 5, offset: 27975},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 880, col: 5, offset: 27974},
+																			pos:   position{line: 880, col: 5, offset: 27975},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 754, col: 5, offset: 24147},
+																				pos: position{line: 754, col: 5, offset: 24148},
 																				run: (*parser).callonListContinuationElement626,
 																				expr: &seqExpr{
-																					pos: position{line: 754, col: 5, offset: 24147},
+																					pos: position{line: 754, col: 5, offset: 24148},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 754, col: 5, offset: 24147},
+																							pos:   position{line: 754, col: 5, offset: 24148},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 754, col: 16, offset: 24158},
+																								pos: position{line: 754, col: 16, offset: 24159},
 																								run: (*parser).callonListContinuationElement629,
 																								expr: &seqExpr{
-																									pos: position{line: 754, col: 16, offset: 24158},
+																									pos: position{line: 754, col: 16, offset: 24159},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 754, col: 16, offset: 24158},
+																											pos:        position{line: 754, col: 16, offset: 24159},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 754, col: 22, offset: 24164},
+																											pos: position{line: 754, col: 22, offset: 24165},
 																											expr: &litMatcher{
-																												pos:        position{line: 754, col: 22, offset: 24164},
+																												pos:        position{line: 754, col: 22, offset: 24165},
 																												val:        "`",
 																												ignoreCase: false,
 																												want:       "\"`\"",
@@ -32309,12 +32309,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 756, col: 8, offset: 24248},
+																							pos: position{line: 756, col: 8, offset: 24249},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 90951},
+																								pos: position{line: 2876, col: 10, offset: 90952},
 																								run: (*parser).callonListContinuationElement635,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 90951},
+																									pos:        position{line: 2876, col: 10, offset: 90952},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32323,28 +32323,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91349},
+																							pos: position{line: 2898, col: 8, offset: 91350},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91122},
+																									pos: position{line: 2885, col: 12, offset: 91123},
 																									run: (*parser).callonListContinuationElement638,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91123},
+																										pos: position{line: 2885, col: 13, offset: 91124},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91123},
+																												pos:        position{line: 2885, col: 13, offset: 91124},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91130},
+																												pos:        position{line: 2885, col: 20, offset: 91131},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91139},
+																												pos:        position{line: 2885, col: 29, offset: 91140},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32353,9 +32353,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91299},
+																									pos: position{line: 2895, col: 8, offset: 91300},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91300,
+																										line: 2895, col: 9, offset: 91301,
 																									},
 																								},
 																							},
@@ -32365,15 +32365,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 881, col: 5, offset: 28004},
+																			pos: position{line: 881, col: 5, offset: 28005},
 																			run: (*parser).callonListContinuationElement645,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2895, col: 8, offset: 91299},
+																	pos: position{line: 2895, col: 8, offset: 91300},
 																	expr: &anyMatcher{
-																		line: 2895, col: 9, offset: 91300,
+																		line: 2895, col: 9, offset: 91301,
 																	},
 																},
 															},
@@ -32384,39 +32384,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 896, col: 5, offset: 28315},
+										pos: position{line: 896, col: 5, offset: 28316},
 										run: (*parser).callonListContinuationElement648,
 										expr: &seqExpr{
-											pos: position{line: 896, col: 5, offset: 28315},
+											pos: position{line: 896, col: 5, offset: 28316},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 896, col: 5, offset: 28315},
+													pos:   position{line: 896, col: 5, offset: 28316},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 769, col: 5, offset: 24689},
+														pos: position{line: 769, col: 5, offset: 24690},
 														run: (*parser).callonListContinuationElement651,
 														expr: &seqExpr{
-															pos: position{line: 769, col: 5, offset: 24689},
+															pos: position{line: 769, col: 5, offset: 24690},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 769, col: 5, offset: 24689},
+																	pos:   position{line: 769, col: 5, offset: 24690},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 769, col: 16, offset: 24700},
+																		pos: position{line: 769, col: 16, offset: 24701},
 																		run: (*parser).callonListContinuationElement654,
 																		expr: &seqExpr{
-																			pos: position{line: 769, col: 16, offset: 24700},
+																			pos: position{line: 769, col: 16, offset: 24701},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 769, col: 16, offset: 24700},
+																					pos:        position{line: 769, col: 16, offset: 24701},
 																					val:        "----",
 																					ignoreCase: false,
 																					want:       "\"----\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 769, col: 23, offset: 24707},
+																					pos: position{line: 769, col: 23, offset: 24708},
 																					expr: &litMatcher{
-																						pos:        position{line: 769, col: 23, offset: 24707},
+																						pos:        position{line: 769, col: 23, offset: 24708},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
@@ -32427,12 +32427,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 771, col: 8, offset: 24791},
+																	pos: position{line: 771, col: 8, offset: 24792},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 90951},
+																		pos: position{line: 2876, col: 10, offset: 90952},
 																		run: (*parser).callonListContinuationElement660,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 90951},
+																			pos:        position{line: 2876, col: 10, offset: 90952},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32441,28 +32441,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91349},
+																	pos: position{line: 2898, col: 8, offset: 91350},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91122},
+																			pos: position{line: 2885, col: 12, offset: 91123},
 																			run: (*parser).callonListContinuationElement663,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91123},
+																				pos: position{line: 2885, col: 13, offset: 91124},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91123},
+																						pos:        position{line: 2885, col: 13, offset: 91124},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91130},
+																						pos:        position{line: 2885, col: 20, offset: 91131},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91139},
+																						pos:        position{line: 2885, col: 29, offset: 91140},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32471,9 +32471,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91299},
+																			pos: position{line: 2895, col: 8, offset: 91300},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91300,
+																				line: 2895, col: 9, offset: 91301,
 																			},
 																		},
 																	},
@@ -32483,56 +32483,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 897, col: 5, offset: 28354},
+													pos: position{line: 897, col: 5, offset: 28355},
 													run: (*parser).callonListContinuationElement670,
 												},
 												&labeledExpr{
-													pos:   position{line: 900, col: 5, offset: 28446},
+													pos:   position{line: 900, col: 5, offset: 28447},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 915, col: 5, offset: 28844},
+														pos: position{line: 915, col: 5, offset: 28845},
 														expr: &actionExpr{
-															pos: position{line: 915, col: 6, offset: 28845},
+															pos: position{line: 915, col: 6, offset: 28846},
 															run: (*parser).callonListContinuationElement673,
 															expr: &seqExpr{
-																pos: position{line: 915, col: 6, offset: 28845},
+																pos: position{line: 915, col: 6, offset: 28846},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 915, col: 6, offset: 28845},
+																		pos: position{line: 915, col: 6, offset: 28846},
 																		expr: &choiceExpr{
-																			pos: position{line: 908, col: 5, offset: 28686},
+																			pos: position{line: 908, col: 5, offset: 28687},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 908, col: 5, offset: 28686},
+																					pos: position{line: 908, col: 5, offset: 28687},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 908, col: 5, offset: 28686},
+																							pos:   position{line: 908, col: 5, offset: 28687},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 769, col: 5, offset: 24689},
+																								pos: position{line: 769, col: 5, offset: 24690},
 																								run: (*parser).callonListContinuationElement679,
 																								expr: &seqExpr{
-																									pos: position{line: 769, col: 5, offset: 24689},
+																									pos: position{line: 769, col: 5, offset: 24690},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 769, col: 5, offset: 24689},
+																											pos:   position{line: 769, col: 5, offset: 24690},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 769, col: 16, offset: 24700},
+																												pos: position{line: 769, col: 16, offset: 24701},
 																												run: (*parser).callonListContinuationElement682,
 																												expr: &seqExpr{
-																													pos: position{line: 769, col: 16, offset: 24700},
+																													pos: position{line: 769, col: 16, offset: 24701},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 769, col: 16, offset: 24700},
+																															pos:        position{line: 769, col: 16, offset: 24701},
 																															val:        "----",
 																															ignoreCase: false,
 																															want:       "\"----\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 769, col: 23, offset: 24707},
+																															pos: position{line: 769, col: 23, offset: 24708},
 																															expr: &litMatcher{
-																																pos:        position{line: 769, col: 23, offset: 24707},
+																																pos:        position{line: 769, col: 23, offset: 24708},
 																																val:        "-",
 																																ignoreCase: false,
 																																want:       "\"-\"",
@@ -32543,12 +32543,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 771, col: 8, offset: 24791},
+																											pos: position{line: 771, col: 8, offset: 24792},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 90951},
+																												pos: position{line: 2876, col: 10, offset: 90952},
 																												run: (*parser).callonListContinuationElement688,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 90951},
+																													pos:        position{line: 2876, col: 10, offset: 90952},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32557,28 +32557,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91349},
+																											pos: position{line: 2898, col: 8, offset: 91350},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91122},
+																													pos: position{line: 2885, col: 12, offset: 91123},
 																													run: (*parser).callonListContinuationElement691,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91123},
+																														pos: position{line: 2885, col: 13, offset: 91124},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91123},
+																																pos:        position{line: 2885, col: 13, offset: 91124},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91130},
+																																pos:        position{line: 2885, col: 20, offset: 91131},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91139},
+																																pos:        position{line: 2885, col: 29, offset: 91140},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32587,9 +32587,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91299},
+																													pos: position{line: 2895, col: 8, offset: 91300},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91300,
+																														line: 2895, col: 9, offset: 91301,
 																													},
 																												},
 																											},
@@ -32599,45 +32599,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 909, col: 5, offset: 28717},
+																							pos: position{line: 909, col: 5, offset: 28718},
 																							run: (*parser).callonListContinuationElement698,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91299},
+																					pos: position{line: 2895, col: 8, offset: 91300},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91300,
+																						line: 2895, col: 9, offset: 91301,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 916, col: 5, offset: 28875},
+																		pos:   position{line: 916, col: 5, offset: 28876},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26161},
+																			pos: position{line: 811, col: 5, offset: 26162},
 																			run: (*parser).callonListContinuationElement702,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26161},
+																				pos: position{line: 811, col: 5, offset: 26162},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2893, col: 11, offset: 91285},
+																						pos: position{line: 2893, col: 11, offset: 91286},
 																						expr: &anyMatcher{
-																							line: 2893, col: 13, offset: 91287,
+																							line: 2893, col: 13, offset: 91288,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26236},
+																						pos:   position{line: 812, col: 5, offset: 26237},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2822, col: 13, offset: 89477},
+																							pos: position{line: 2822, col: 13, offset: 89478},
 																							run: (*parser).callonListContinuationElement707,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2822, col: 13, offset: 89477},
+																								pos: position{line: 2822, col: 13, offset: 89478},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2822, col: 13, offset: 89477},
+																									pos:        position{line: 2822, col: 13, offset: 89478},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32647,28 +32647,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91349},
+																						pos: position{line: 2898, col: 8, offset: 91350},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91122},
+																								pos: position{line: 2885, col: 12, offset: 91123},
 																								run: (*parser).callonListContinuationElement711,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91123},
+																									pos: position{line: 2885, col: 13, offset: 91124},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91123},
+																											pos:        position{line: 2885, col: 13, offset: 91124},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91130},
+																											pos:        position{line: 2885, col: 20, offset: 91131},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91139},
+																											pos:        position{line: 2885, col: 29, offset: 91140},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32677,9 +32677,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91299},
+																								pos: position{line: 2895, col: 8, offset: 91300},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91300,
+																									line: 2895, col: 9, offset: 91301,
 																								},
 																							},
 																						},
@@ -32694,44 +32694,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 901, col: 5, offset: 28480},
+													pos:   position{line: 901, col: 5, offset: 28481},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 901, col: 9, offset: 28484},
+														pos: position{line: 901, col: 9, offset: 28485},
 														expr: &choiceExpr{
-															pos: position{line: 908, col: 5, offset: 28686},
+															pos: position{line: 908, col: 5, offset: 28687},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 908, col: 5, offset: 28686},
+																	pos: position{line: 908, col: 5, offset: 28687},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 908, col: 5, offset: 28686},
+																			pos:   position{line: 908, col: 5, offset: 28687},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 769, col: 5, offset: 24689},
+																				pos: position{line: 769, col: 5, offset: 24690},
 																				run: (*parser).callonListContinuationElement723,
 																				expr: &seqExpr{
-																					pos: position{line: 769, col: 5, offset: 24689},
+																					pos: position{line: 769, col: 5, offset: 24690},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 769, col: 5, offset: 24689},
+																							pos:   position{line: 769, col: 5, offset: 24690},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 769, col: 16, offset: 24700},
+																								pos: position{line: 769, col: 16, offset: 24701},
 																								run: (*parser).callonListContinuationElement726,
 																								expr: &seqExpr{
-																									pos: position{line: 769, col: 16, offset: 24700},
+																									pos: position{line: 769, col: 16, offset: 24701},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 769, col: 16, offset: 24700},
+																											pos:        position{line: 769, col: 16, offset: 24701},
 																											val:        "----",
 																											ignoreCase: false,
 																											want:       "\"----\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 769, col: 23, offset: 24707},
+																											pos: position{line: 769, col: 23, offset: 24708},
 																											expr: &litMatcher{
-																												pos:        position{line: 769, col: 23, offset: 24707},
+																												pos:        position{line: 769, col: 23, offset: 24708},
 																												val:        "-",
 																												ignoreCase: false,
 																												want:       "\"-\"",
@@ -32742,12 +32742,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 771, col: 8, offset: 24791},
+																							pos: position{line: 771, col: 8, offset: 24792},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 90951},
+																								pos: position{line: 2876, col: 10, offset: 90952},
 																								run: (*parser).callonListContinuationElement732,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 90951},
+																									pos:        position{line: 2876, col: 10, offset: 90952},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32756,28 +32756,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91349},
+																							pos: position{line: 2898, col: 8, offset: 91350},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91122},
+																									pos: position{line: 2885, col: 12, offset: 91123},
 																									run: (*parser).callonListContinuationElement735,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91123},
+																										pos: position{line: 2885, col: 13, offset: 91124},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91123},
+																												pos:        position{line: 2885, col: 13, offset: 91124},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91130},
+																												pos:        position{line: 2885, col: 20, offset: 91131},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91139},
+																												pos:        position{line: 2885, col: 29, offset: 91140},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32786,9 +32786,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91299},
+																									pos: position{line: 2895, col: 8, offset: 91300},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91300,
+																										line: 2895, col: 9, offset: 91301,
 																									},
 																								},
 																							},
@@ -32798,15 +32798,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 909, col: 5, offset: 28717},
+																			pos: position{line: 909, col: 5, offset: 28718},
 																			run: (*parser).callonListContinuationElement742,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2895, col: 8, offset: 91299},
+																	pos: position{line: 2895, col: 8, offset: 91300},
 																	expr: &anyMatcher{
-																		line: 2895, col: 9, offset: 91300,
+																		line: 2895, col: 9, offset: 91301,
 																	},
 																},
 															},
@@ -32817,39 +32817,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 924, col: 5, offset: 29030},
+										pos: position{line: 924, col: 5, offset: 29031},
 										run: (*parser).callonListContinuationElement745,
 										expr: &seqExpr{
-											pos: position{line: 924, col: 5, offset: 29030},
+											pos: position{line: 924, col: 5, offset: 29031},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 924, col: 5, offset: 29030},
+													pos:   position{line: 924, col: 5, offset: 29031},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 783, col: 5, offset: 25165},
+														pos: position{line: 783, col: 5, offset: 25166},
 														run: (*parser).callonListContinuationElement748,
 														expr: &seqExpr{
-															pos: position{line: 783, col: 5, offset: 25165},
+															pos: position{line: 783, col: 5, offset: 25166},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 783, col: 5, offset: 25165},
+																	pos:   position{line: 783, col: 5, offset: 25166},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 783, col: 16, offset: 25176},
+																		pos: position{line: 783, col: 16, offset: 25177},
 																		run: (*parser).callonListContinuationElement751,
 																		expr: &seqExpr{
-																			pos: position{line: 783, col: 16, offset: 25176},
+																			pos: position{line: 783, col: 16, offset: 25177},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 783, col: 16, offset: 25176},
+																					pos:        position{line: 783, col: 16, offset: 25177},
 																					val:        "....",
 																					ignoreCase: false,
 																					want:       "\"....\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 783, col: 23, offset: 25183},
+																					pos: position{line: 783, col: 23, offset: 25184},
 																					expr: &litMatcher{
-																						pos:        position{line: 783, col: 23, offset: 25183},
+																						pos:        position{line: 783, col: 23, offset: 25184},
 																						val:        ".",
 																						ignoreCase: false,
 																						want:       "\".\"",
@@ -32860,12 +32860,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 785, col: 8, offset: 25267},
+																	pos: position{line: 785, col: 8, offset: 25268},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 90951},
+																		pos: position{line: 2876, col: 10, offset: 90952},
 																		run: (*parser).callonListContinuationElement757,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 90951},
+																			pos:        position{line: 2876, col: 10, offset: 90952},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32874,28 +32874,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91349},
+																	pos: position{line: 2898, col: 8, offset: 91350},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91122},
+																			pos: position{line: 2885, col: 12, offset: 91123},
 																			run: (*parser).callonListContinuationElement760,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91123},
+																				pos: position{line: 2885, col: 13, offset: 91124},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91123},
+																						pos:        position{line: 2885, col: 13, offset: 91124},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91130},
+																						pos:        position{line: 2885, col: 20, offset: 91131},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91139},
+																						pos:        position{line: 2885, col: 29, offset: 91140},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32904,9 +32904,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91299},
+																			pos: position{line: 2895, col: 8, offset: 91300},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91300,
+																				line: 2895, col: 9, offset: 91301,
 																			},
 																		},
 																	},
@@ -32916,56 +32916,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 925, col: 5, offset: 29069},
+													pos: position{line: 925, col: 5, offset: 29070},
 													run: (*parser).callonListContinuationElement767,
 												},
 												&labeledExpr{
-													pos:   position{line: 928, col: 5, offset: 29161},
+													pos:   position{line: 928, col: 5, offset: 29162},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 943, col: 5, offset: 29559},
+														pos: position{line: 943, col: 5, offset: 29560},
 														expr: &actionExpr{
-															pos: position{line: 943, col: 6, offset: 29560},
+															pos: position{line: 943, col: 6, offset: 29561},
 															run: (*parser).callonListContinuationElement770,
 															expr: &seqExpr{
-																pos: position{line: 943, col: 6, offset: 29560},
+																pos: position{line: 943, col: 6, offset: 29561},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 943, col: 6, offset: 29560},
+																		pos: position{line: 943, col: 6, offset: 29561},
 																		expr: &choiceExpr{
-																			pos: position{line: 936, col: 5, offset: 29401},
+																			pos: position{line: 936, col: 5, offset: 29402},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 936, col: 5, offset: 29401},
+																					pos: position{line: 936, col: 5, offset: 29402},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 936, col: 5, offset: 29401},
+																							pos:   position{line: 936, col: 5, offset: 29402},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 783, col: 5, offset: 25165},
+																								pos: position{line: 783, col: 5, offset: 25166},
 																								run: (*parser).callonListContinuationElement776,
 																								expr: &seqExpr{
-																									pos: position{line: 783, col: 5, offset: 25165},
+																									pos: position{line: 783, col: 5, offset: 25166},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 783, col: 5, offset: 25165},
+																											pos:   position{line: 783, col: 5, offset: 25166},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 783, col: 16, offset: 25176},
+																												pos: position{line: 783, col: 16, offset: 25177},
 																												run: (*parser).callonListContinuationElement779,
 																												expr: &seqExpr{
-																													pos: position{line: 783, col: 16, offset: 25176},
+																													pos: position{line: 783, col: 16, offset: 25177},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 783, col: 16, offset: 25176},
+																															pos:        position{line: 783, col: 16, offset: 25177},
 																															val:        "....",
 																															ignoreCase: false,
 																															want:       "\"....\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 783, col: 23, offset: 25183},
+																															pos: position{line: 783, col: 23, offset: 25184},
 																															expr: &litMatcher{
-																																pos:        position{line: 783, col: 23, offset: 25183},
+																																pos:        position{line: 783, col: 23, offset: 25184},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -32976,12 +32976,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 785, col: 8, offset: 25267},
+																											pos: position{line: 785, col: 8, offset: 25268},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 90951},
+																												pos: position{line: 2876, col: 10, offset: 90952},
 																												run: (*parser).callonListContinuationElement785,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 90951},
+																													pos:        position{line: 2876, col: 10, offset: 90952},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32990,28 +32990,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91349},
+																											pos: position{line: 2898, col: 8, offset: 91350},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91122},
+																													pos: position{line: 2885, col: 12, offset: 91123},
 																													run: (*parser).callonListContinuationElement788,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91123},
+																														pos: position{line: 2885, col: 13, offset: 91124},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91123},
+																																pos:        position{line: 2885, col: 13, offset: 91124},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91130},
+																																pos:        position{line: 2885, col: 20, offset: 91131},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91139},
+																																pos:        position{line: 2885, col: 29, offset: 91140},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33020,9 +33020,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91299},
+																													pos: position{line: 2895, col: 8, offset: 91300},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91300,
+																														line: 2895, col: 9, offset: 91301,
 																													},
 																												},
 																											},
@@ -33032,45 +33032,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 937, col: 5, offset: 29432},
+																							pos: position{line: 937, col: 5, offset: 29433},
 																							run: (*parser).callonListContinuationElement795,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91299},
+																					pos: position{line: 2895, col: 8, offset: 91300},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91300,
+																						line: 2895, col: 9, offset: 91301,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 944, col: 5, offset: 29590},
+																		pos:   position{line: 944, col: 5, offset: 29591},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26161},
+																			pos: position{line: 811, col: 5, offset: 26162},
 																			run: (*parser).callonListContinuationElement799,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26161},
+																				pos: position{line: 811, col: 5, offset: 26162},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2893, col: 11, offset: 91285},
+																						pos: position{line: 2893, col: 11, offset: 91286},
 																						expr: &anyMatcher{
-																							line: 2893, col: 13, offset: 91287,
+																							line: 2893, col: 13, offset: 91288,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26236},
+																						pos:   position{line: 812, col: 5, offset: 26237},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2822, col: 13, offset: 89477},
+																							pos: position{line: 2822, col: 13, offset: 89478},
 																							run: (*parser).callonListContinuationElement804,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2822, col: 13, offset: 89477},
+																								pos: position{line: 2822, col: 13, offset: 89478},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2822, col: 13, offset: 89477},
+																									pos:        position{line: 2822, col: 13, offset: 89478},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33080,28 +33080,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91349},
+																						pos: position{line: 2898, col: 8, offset: 91350},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91122},
+																								pos: position{line: 2885, col: 12, offset: 91123},
 																								run: (*parser).callonListContinuationElement808,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91123},
+																									pos: position{line: 2885, col: 13, offset: 91124},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91123},
+																											pos:        position{line: 2885, col: 13, offset: 91124},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91130},
+																											pos:        position{line: 2885, col: 20, offset: 91131},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91139},
+																											pos:        position{line: 2885, col: 29, offset: 91140},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33110,9 +33110,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91299},
+																								pos: position{line: 2895, col: 8, offset: 91300},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91300,
+																									line: 2895, col: 9, offset: 91301,
 																								},
 																							},
 																						},
@@ -33127,44 +33127,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 929, col: 5, offset: 29195},
+													pos:   position{line: 929, col: 5, offset: 29196},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 929, col: 9, offset: 29199},
+														pos: position{line: 929, col: 9, offset: 29200},
 														expr: &choiceExpr{
-															pos: position{line: 936, col: 5, offset: 29401},
+															pos: position{line: 936, col: 5, offset: 29402},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 936, col: 5, offset: 29401},
+																	pos: position{line: 936, col: 5, offset: 29402},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 936, col: 5, offset: 29401},
+																			pos:   position{line: 936, col: 5, offset: 29402},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 783, col: 5, offset: 25165},
+																				pos: position{line: 783, col: 5, offset: 25166},
 																				run: (*parser).callonListContinuationElement820,
 																				expr: &seqExpr{
-																					pos: position{line: 783, col: 5, offset: 25165},
+																					pos: position{line: 783, col: 5, offset: 25166},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 783, col: 5, offset: 25165},
+																							pos:   position{line: 783, col: 5, offset: 25166},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 783, col: 16, offset: 25176},
+																								pos: position{line: 783, col: 16, offset: 25177},
 																								run: (*parser).callonListContinuationElement823,
 																								expr: &seqExpr{
-																									pos: position{line: 783, col: 16, offset: 25176},
+																									pos: position{line: 783, col: 16, offset: 25177},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 783, col: 16, offset: 25176},
+																											pos:        position{line: 783, col: 16, offset: 25177},
 																											val:        "....",
 																											ignoreCase: false,
 																											want:       "\"....\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 783, col: 23, offset: 25183},
+																											pos: position{line: 783, col: 23, offset: 25184},
 																											expr: &litMatcher{
-																												pos:        position{line: 783, col: 23, offset: 25183},
+																												pos:        position{line: 783, col: 23, offset: 25184},
 																												val:        ".",
 																												ignoreCase: false,
 																												want:       "\".\"",
@@ -33175,12 +33175,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 785, col: 8, offset: 25267},
+																							pos: position{line: 785, col: 8, offset: 25268},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 90951},
+																								pos: position{line: 2876, col: 10, offset: 90952},
 																								run: (*parser).callonListContinuationElement829,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 90951},
+																									pos:        position{line: 2876, col: 10, offset: 90952},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33189,28 +33189,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91349},
+																							pos: position{line: 2898, col: 8, offset: 91350},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91122},
+																									pos: position{line: 2885, col: 12, offset: 91123},
 																									run: (*parser).callonListContinuationElement832,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91123},
+																										pos: position{line: 2885, col: 13, offset: 91124},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91123},
+																												pos:        position{line: 2885, col: 13, offset: 91124},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91130},
+																												pos:        position{line: 2885, col: 20, offset: 91131},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91139},
+																												pos:        position{line: 2885, col: 29, offset: 91140},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33219,9 +33219,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91299},
+																									pos: position{line: 2895, col: 8, offset: 91300},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91300,
+																										line: 2895, col: 9, offset: 91301,
 																									},
 																								},
 																							},
@@ -33231,15 +33231,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 937, col: 5, offset: 29432},
+																			pos: position{line: 937, col: 5, offset: 29433},
 																			run: (*parser).callonListContinuationElement839,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2895, col: 8, offset: 91299},
+																	pos: position{line: 2895, col: 8, offset: 91300},
 																	expr: &anyMatcher{
-																		line: 2895, col: 9, offset: 91300,
+																		line: 2895, col: 9, offset: 91301,
 																	},
 																},
 															},
@@ -33250,41 +33250,41 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 975, col: 5, offset: 30473},
+										pos: position{line: 975, col: 5, offset: 30474},
 										run: (*parser).callonListContinuationElement842,
 										expr: &seqExpr{
-											pos: position{line: 975, col: 5, offset: 30473},
+											pos: position{line: 975, col: 5, offset: 30474},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 975, col: 5, offset: 30473},
+													pos:   position{line: 975, col: 5, offset: 30474},
 													label: "firstLine",
 													expr: &actionExpr{
-														pos: position{line: 982, col: 5, offset: 30732},
+														pos: position{line: 982, col: 5, offset: 30733},
 														run: (*parser).callonListContinuationElement845,
 														expr: &seqExpr{
-															pos: position{line: 982, col: 5, offset: 30732},
+															pos: position{line: 982, col: 5, offset: 30733},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 982, col: 5, offset: 30732},
+																	pos: position{line: 982, col: 5, offset: 30733},
 																	expr: &actionExpr{
-																		pos: position{line: 677, col: 14, offset: 21557},
+																		pos: position{line: 677, col: 14, offset: 21558},
 																		run: (*parser).callonListContinuationElement848,
 																		expr: &seqExpr{
-																			pos: position{line: 677, col: 14, offset: 21557},
+																			pos: position{line: 677, col: 14, offset: 21558},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2893, col: 11, offset: 91285},
+																					pos: position{line: 2893, col: 11, offset: 91286},
 																					expr: &anyMatcher{
-																						line: 2893, col: 13, offset: 91287,
+																						line: 2893, col: 13, offset: 91288,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 677, col: 21, offset: 21564},
+																					pos: position{line: 677, col: 21, offset: 21565},
 																					expr: &actionExpr{
-																						pos: position{line: 2876, col: 10, offset: 90951},
+																						pos: position{line: 2876, col: 10, offset: 90952},
 																						run: (*parser).callonListContinuationElement853,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2876, col: 10, offset: 90951},
+																							pos:        position{line: 2876, col: 10, offset: 90952},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -33293,28 +33293,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2898, col: 8, offset: 91349},
+																					pos: position{line: 2898, col: 8, offset: 91350},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2885, col: 12, offset: 91122},
+																							pos: position{line: 2885, col: 12, offset: 91123},
 																							run: (*parser).callonListContinuationElement856,
 																							expr: &choiceExpr{
-																								pos: position{line: 2885, col: 13, offset: 91123},
+																								pos: position{line: 2885, col: 13, offset: 91124},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 13, offset: 91123},
+																										pos:        position{line: 2885, col: 13, offset: 91124},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 20, offset: 91130},
+																										pos:        position{line: 2885, col: 20, offset: 91131},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 29, offset: 91139},
+																										pos:        position{line: 2885, col: 29, offset: 91140},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -33323,9 +33323,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2895, col: 8, offset: 91299},
+																							pos: position{line: 2895, col: 8, offset: 91300},
 																							expr: &anyMatcher{
-																								line: 2895, col: 9, offset: 91300,
+																								line: 2895, col: 9, offset: 91301,
 																							},
 																						},
 																					},
@@ -33335,21 +33335,21 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 983, col: 5, offset: 30747},
+																	pos:        position{line: 983, col: 5, offset: 30748},
 																	val:        "> ",
 																	ignoreCase: false,
 																	want:       "\"> \"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 984, col: 5, offset: 30757},
+																	pos:   position{line: 984, col: 5, offset: 30758},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2826, col: 14, offset: 89544},
+																		pos: position{line: 2826, col: 14, offset: 89545},
 																		run: (*parser).callonListContinuationElement865,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2826, col: 14, offset: 89544},
+																			pos: position{line: 2826, col: 14, offset: 89545},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2826, col: 14, offset: 89544},
+																				pos:        position{line: 2826, col: 14, offset: 89545},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -33359,28 +33359,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91349},
+																	pos: position{line: 2898, col: 8, offset: 91350},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91122},
+																			pos: position{line: 2885, col: 12, offset: 91123},
 																			run: (*parser).callonListContinuationElement869,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91123},
+																				pos: position{line: 2885, col: 13, offset: 91124},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91123},
+																						pos:        position{line: 2885, col: 13, offset: 91124},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91130},
+																						pos:        position{line: 2885, col: 20, offset: 91131},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91139},
+																						pos:        position{line: 2885, col: 29, offset: 91140},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33389,9 +33389,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91299},
+																			pos: position{line: 2895, col: 8, offset: 91300},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91300,
+																				line: 2895, col: 9, offset: 91301,
 																			},
 																		},
 																	},
@@ -33401,40 +33401,40 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 976, col: 5, offset: 30510},
+													pos:   position{line: 976, col: 5, offset: 30511},
 													label: "otherLines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 976, col: 16, offset: 30521},
+														pos: position{line: 976, col: 16, offset: 30522},
 														expr: &choiceExpr{
-															pos: position{line: 976, col: 17, offset: 30522},
+															pos: position{line: 976, col: 17, offset: 30523},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 982, col: 5, offset: 30732},
+																	pos: position{line: 982, col: 5, offset: 30733},
 																	run: (*parser).callonListContinuationElement879,
 																	expr: &seqExpr{
-																		pos: position{line: 982, col: 5, offset: 30732},
+																		pos: position{line: 982, col: 5, offset: 30733},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 982, col: 5, offset: 30732},
+																				pos: position{line: 982, col: 5, offset: 30733},
 																				expr: &actionExpr{
-																					pos: position{line: 677, col: 14, offset: 21557},
+																					pos: position{line: 677, col: 14, offset: 21558},
 																					run: (*parser).callonListContinuationElement882,
 																					expr: &seqExpr{
-																						pos: position{line: 677, col: 14, offset: 21557},
+																						pos: position{line: 677, col: 14, offset: 21558},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2893, col: 11, offset: 91285},
+																								pos: position{line: 2893, col: 11, offset: 91286},
 																								expr: &anyMatcher{
-																									line: 2893, col: 13, offset: 91287,
+																									line: 2893, col: 13, offset: 91288,
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 677, col: 21, offset: 21564},
+																								pos: position{line: 677, col: 21, offset: 21565},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 90951},
+																									pos: position{line: 2876, col: 10, offset: 90952},
 																									run: (*parser).callonListContinuationElement887,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 90951},
+																										pos:        position{line: 2876, col: 10, offset: 90952},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33443,28 +33443,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2898, col: 8, offset: 91349},
+																								pos: position{line: 2898, col: 8, offset: 91350},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2885, col: 12, offset: 91122},
+																										pos: position{line: 2885, col: 12, offset: 91123},
 																										run: (*parser).callonListContinuationElement890,
 																										expr: &choiceExpr{
-																											pos: position{line: 2885, col: 13, offset: 91123},
+																											pos: position{line: 2885, col: 13, offset: 91124},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 13, offset: 91123},
+																													pos:        position{line: 2885, col: 13, offset: 91124},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 20, offset: 91130},
+																													pos:        position{line: 2885, col: 20, offset: 91131},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 29, offset: 91139},
+																													pos:        position{line: 2885, col: 29, offset: 91140},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33473,9 +33473,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2895, col: 8, offset: 91299},
+																										pos: position{line: 2895, col: 8, offset: 91300},
 																										expr: &anyMatcher{
-																											line: 2895, col: 9, offset: 91300,
+																											line: 2895, col: 9, offset: 91301,
 																										},
 																									},
 																								},
@@ -33485,21 +33485,21 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 983, col: 5, offset: 30747},
+																				pos:        position{line: 983, col: 5, offset: 30748},
 																				val:        "> ",
 																				ignoreCase: false,
 																				want:       "\"> \"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 984, col: 5, offset: 30757},
+																				pos:   position{line: 984, col: 5, offset: 30758},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2826, col: 14, offset: 89544},
+																					pos: position{line: 2826, col: 14, offset: 89545},
 																					run: (*parser).callonListContinuationElement899,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2826, col: 14, offset: 89544},
+																						pos: position{line: 2826, col: 14, offset: 89545},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2826, col: 14, offset: 89544},
+																							pos:        position{line: 2826, col: 14, offset: 89545},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33509,28 +33509,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2898, col: 8, offset: 91349},
+																				pos: position{line: 2898, col: 8, offset: 91350},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2885, col: 12, offset: 91122},
+																						pos: position{line: 2885, col: 12, offset: 91123},
 																						run: (*parser).callonListContinuationElement903,
 																						expr: &choiceExpr{
-																							pos: position{line: 2885, col: 13, offset: 91123},
+																							pos: position{line: 2885, col: 13, offset: 91124},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 13, offset: 91123},
+																									pos:        position{line: 2885, col: 13, offset: 91124},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 20, offset: 91130},
+																									pos:        position{line: 2885, col: 20, offset: 91131},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 29, offset: 91139},
+																									pos:        position{line: 2885, col: 29, offset: 91140},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33539,9 +33539,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91299},
+																						pos: position{line: 2895, col: 8, offset: 91300},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91300,
+																							line: 2895, col: 9, offset: 91301,
 																						},
 																					},
 																				},
@@ -33550,21 +33550,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1795, col: 5, offset: 58046},
+																	pos: position{line: 1795, col: 5, offset: 58047},
 																	run: (*parser).callonListContinuationElement910,
 																	expr: &seqExpr{
-																		pos: position{line: 1795, col: 5, offset: 58046},
+																		pos: position{line: 1795, col: 5, offset: 58047},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1795, col: 5, offset: 58046},
+																				pos:   position{line: 1795, col: 5, offset: 58047},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2826, col: 14, offset: 89544},
+																					pos: position{line: 2826, col: 14, offset: 89545},
 																					run: (*parser).callonListContinuationElement913,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2826, col: 14, offset: 89544},
+																						pos: position{line: 2826, col: 14, offset: 89545},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2826, col: 14, offset: 89544},
+																							pos:        position{line: 2826, col: 14, offset: 89545},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33574,32 +33574,32 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1796, col: 5, offset: 58070},
+																				pos: position{line: 1796, col: 5, offset: 58071},
 																				run: (*parser).callonListContinuationElement916,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2898, col: 8, offset: 91349},
+																				pos: position{line: 2898, col: 8, offset: 91350},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2885, col: 12, offset: 91122},
+																						pos: position{line: 2885, col: 12, offset: 91123},
 																						run: (*parser).callonListContinuationElement918,
 																						expr: &choiceExpr{
-																							pos: position{line: 2885, col: 13, offset: 91123},
+																							pos: position{line: 2885, col: 13, offset: 91124},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 13, offset: 91123},
+																									pos:        position{line: 2885, col: 13, offset: 91124},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 20, offset: 91130},
+																									pos:        position{line: 2885, col: 20, offset: 91131},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 29, offset: 91139},
+																									pos:        position{line: 2885, col: 29, offset: 91140},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33608,9 +33608,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91299},
+																						pos: position{line: 2895, col: 8, offset: 91300},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91300,
+																							line: 2895, col: 9, offset: 91301,
 																						},
 																					},
 																				},
@@ -33626,28 +33626,28 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 997, col: 5, offset: 31022},
+										pos: position{line: 997, col: 5, offset: 31023},
 										run: (*parser).callonListContinuationElement925,
 										expr: &seqExpr{
-											pos: position{line: 997, col: 5, offset: 31022},
+											pos: position{line: 997, col: 5, offset: 31023},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 997, col: 5, offset: 31022},
+													pos:   position{line: 997, col: 5, offset: 31023},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 776, col: 5, offset: 24934},
+														pos: position{line: 776, col: 5, offset: 24935},
 														run: (*parser).callonListContinuationElement928,
 														expr: &seqExpr{
-															pos: position{line: 776, col: 5, offset: 24934},
+															pos: position{line: 776, col: 5, offset: 24935},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 776, col: 5, offset: 24934},
+																	pos:   position{line: 776, col: 5, offset: 24935},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 776, col: 16, offset: 24945},
+																		pos: position{line: 776, col: 16, offset: 24946},
 																		run: (*parser).callonListContinuationElement931,
 																		expr: &litMatcher{
-																			pos:        position{line: 776, col: 16, offset: 24945},
+																			pos:        position{line: 776, col: 16, offset: 24946},
 																			val:        "--",
 																			ignoreCase: false,
 																			want:       "\"--\"",
@@ -33655,12 +33655,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 778, col: 8, offset: 25022},
+																	pos: position{line: 778, col: 8, offset: 25023},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 90951},
+																		pos: position{line: 2876, col: 10, offset: 90952},
 																		run: (*parser).callonListContinuationElement934,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 90951},
+																			pos:        position{line: 2876, col: 10, offset: 90952},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33669,28 +33669,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91349},
+																	pos: position{line: 2898, col: 8, offset: 91350},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91122},
+																			pos: position{line: 2885, col: 12, offset: 91123},
 																			run: (*parser).callonListContinuationElement937,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91123},
+																				pos: position{line: 2885, col: 13, offset: 91124},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91123},
+																						pos:        position{line: 2885, col: 13, offset: 91124},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91130},
+																						pos:        position{line: 2885, col: 20, offset: 91131},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91139},
+																						pos:        position{line: 2885, col: 29, offset: 91140},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33699,9 +33699,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91299},
+																			pos: position{line: 2895, col: 8, offset: 91300},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91300,
+																				line: 2895, col: 9, offset: 91301,
 																			},
 																		},
 																	},
@@ -33711,35 +33711,35 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 998, col: 5, offset: 31058},
+													pos:   position{line: 998, col: 5, offset: 31059},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1008, col: 5, offset: 31326},
+														pos: position{line: 1008, col: 5, offset: 31327},
 														expr: &actionExpr{
-															pos: position{line: 1008, col: 6, offset: 31327},
+															pos: position{line: 1008, col: 6, offset: 31328},
 															run: (*parser).callonListContinuationElement946,
 															expr: &seqExpr{
-																pos: position{line: 1008, col: 6, offset: 31327},
+																pos: position{line: 1008, col: 6, offset: 31328},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1008, col: 6, offset: 31327},
+																		pos: position{line: 1008, col: 6, offset: 31328},
 																		expr: &choiceExpr{
-																			pos: position{line: 1005, col: 26, offset: 31275},
+																			pos: position{line: 1005, col: 26, offset: 31276},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 776, col: 5, offset: 24934},
+																					pos: position{line: 776, col: 5, offset: 24935},
 																					run: (*parser).callonListContinuationElement950,
 																					expr: &seqExpr{
-																						pos: position{line: 776, col: 5, offset: 24934},
+																						pos: position{line: 776, col: 5, offset: 24935},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 776, col: 5, offset: 24934},
+																								pos:   position{line: 776, col: 5, offset: 24935},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 776, col: 16, offset: 24945},
+																									pos: position{line: 776, col: 16, offset: 24946},
 																									run: (*parser).callonListContinuationElement953,
 																									expr: &litMatcher{
-																										pos:        position{line: 776, col: 16, offset: 24945},
+																										pos:        position{line: 776, col: 16, offset: 24946},
 																										val:        "--",
 																										ignoreCase: false,
 																										want:       "\"--\"",
@@ -33747,12 +33747,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 778, col: 8, offset: 25022},
+																								pos: position{line: 778, col: 8, offset: 25023},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 90951},
+																									pos: position{line: 2876, col: 10, offset: 90952},
 																									run: (*parser).callonListContinuationElement956,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 90951},
+																										pos:        position{line: 2876, col: 10, offset: 90952},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33761,28 +33761,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2898, col: 8, offset: 91349},
+																								pos: position{line: 2898, col: 8, offset: 91350},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2885, col: 12, offset: 91122},
+																										pos: position{line: 2885, col: 12, offset: 91123},
 																										run: (*parser).callonListContinuationElement959,
 																										expr: &choiceExpr{
-																											pos: position{line: 2885, col: 13, offset: 91123},
+																											pos: position{line: 2885, col: 13, offset: 91124},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 13, offset: 91123},
+																													pos:        position{line: 2885, col: 13, offset: 91124},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 20, offset: 91130},
+																													pos:        position{line: 2885, col: 20, offset: 91131},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 29, offset: 91139},
+																													pos:        position{line: 2885, col: 29, offset: 91140},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33791,9 +33791,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2895, col: 8, offset: 91299},
+																										pos: position{line: 2895, col: 8, offset: 91300},
 																										expr: &anyMatcher{
-																											line: 2895, col: 9, offset: 91300,
+																											line: 2895, col: 9, offset: 91301,
 																										},
 																									},
 																								},
@@ -33802,39 +33802,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91299},
+																					pos: position{line: 2895, col: 8, offset: 91300},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91300,
+																						line: 2895, col: 9, offset: 91301,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1009, col: 5, offset: 31354},
+																		pos:   position{line: 1009, col: 5, offset: 31355},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26161},
+																			pos: position{line: 811, col: 5, offset: 26162},
 																			run: (*parser).callonListContinuationElement969,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26161},
+																				pos: position{line: 811, col: 5, offset: 26162},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2893, col: 11, offset: 91285},
+																						pos: position{line: 2893, col: 11, offset: 91286},
 																						expr: &anyMatcher{
-																							line: 2893, col: 13, offset: 91287,
+																							line: 2893, col: 13, offset: 91288,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26236},
+																						pos:   position{line: 812, col: 5, offset: 26237},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2822, col: 13, offset: 89477},
+																							pos: position{line: 2822, col: 13, offset: 89478},
 																							run: (*parser).callonListContinuationElement974,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2822, col: 13, offset: 89477},
+																								pos: position{line: 2822, col: 13, offset: 89478},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2822, col: 13, offset: 89477},
+																									pos:        position{line: 2822, col: 13, offset: 89478},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33844,28 +33844,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91349},
+																						pos: position{line: 2898, col: 8, offset: 91350},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91122},
+																								pos: position{line: 2885, col: 12, offset: 91123},
 																								run: (*parser).callonListContinuationElement978,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91123},
+																									pos: position{line: 2885, col: 13, offset: 91124},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91123},
+																											pos:        position{line: 2885, col: 13, offset: 91124},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91130},
+																											pos:        position{line: 2885, col: 20, offset: 91131},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91139},
+																											pos:        position{line: 2885, col: 29, offset: 91140},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33874,9 +33874,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91299},
+																								pos: position{line: 2895, col: 8, offset: 91300},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91300,
+																									line: 2895, col: 9, offset: 91301,
 																								},
 																							},
 																						},
@@ -33891,27 +33891,27 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 999, col: 5, offset: 31089},
+													pos:   position{line: 999, col: 5, offset: 31090},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 999, col: 9, offset: 31093},
+														pos: position{line: 999, col: 9, offset: 31094},
 														expr: &choiceExpr{
-															pos: position{line: 1005, col: 26, offset: 31275},
+															pos: position{line: 1005, col: 26, offset: 31276},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 776, col: 5, offset: 24934},
+																	pos: position{line: 776, col: 5, offset: 24935},
 																	run: (*parser).callonListContinuationElement988,
 																	expr: &seqExpr{
-																		pos: position{line: 776, col: 5, offset: 24934},
+																		pos: position{line: 776, col: 5, offset: 24935},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 776, col: 5, offset: 24934},
+																				pos:   position{line: 776, col: 5, offset: 24935},
 																				label: "delimiter",
 																				expr: &actionExpr{
-																					pos: position{line: 776, col: 16, offset: 24945},
+																					pos: position{line: 776, col: 16, offset: 24946},
 																					run: (*parser).callonListContinuationElement991,
 																					expr: &litMatcher{
-																						pos:        position{line: 776, col: 16, offset: 24945},
+																						pos:        position{line: 776, col: 16, offset: 24946},
 																						val:        "--",
 																						ignoreCase: false,
 																						want:       "\"--\"",
@@ -33919,12 +33919,12 @@ var g = &grammar{
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 778, col: 8, offset: 25022},
+																				pos: position{line: 778, col: 8, offset: 25023},
 																				expr: &actionExpr{
-																					pos: position{line: 2876, col: 10, offset: 90951},
+																					pos: position{line: 2876, col: 10, offset: 90952},
 																					run: (*parser).callonListContinuationElement994,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2876, col: 10, offset: 90951},
+																						pos:        position{line: 2876, col: 10, offset: 90952},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -33933,28 +33933,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2898, col: 8, offset: 91349},
+																				pos: position{line: 2898, col: 8, offset: 91350},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2885, col: 12, offset: 91122},
+																						pos: position{line: 2885, col: 12, offset: 91123},
 																						run: (*parser).callonListContinuationElement997,
 																						expr: &choiceExpr{
-																							pos: position{line: 2885, col: 13, offset: 91123},
+																							pos: position{line: 2885, col: 13, offset: 91124},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 13, offset: 91123},
+																									pos:        position{line: 2885, col: 13, offset: 91124},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 20, offset: 91130},
+																									pos:        position{line: 2885, col: 20, offset: 91131},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 29, offset: 91139},
+																									pos:        position{line: 2885, col: 29, offset: 91140},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33963,9 +33963,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91299},
+																						pos: position{line: 2895, col: 8, offset: 91300},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91300,
+																							line: 2895, col: 9, offset: 91301,
 																						},
 																					},
 																				},
@@ -33974,9 +33974,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2895, col: 8, offset: 91299},
+																	pos: position{line: 2895, col: 8, offset: 91300},
 																	expr: &anyMatcher{
-																		line: 2895, col: 9, offset: 91300,
+																		line: 2895, col: 9, offset: 91301,
 																	},
 																},
 															},
@@ -33987,39 +33987,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1017, col: 5, offset: 31517},
+										pos: position{line: 1017, col: 5, offset: 31518},
 										run: (*parser).callonListContinuationElement1006,
 										expr: &seqExpr{
-											pos: position{line: 1017, col: 5, offset: 31517},
+											pos: position{line: 1017, col: 5, offset: 31518},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1017, col: 5, offset: 31517},
+													pos:   position{line: 1017, col: 5, offset: 31518},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 790, col: 5, offset: 25417},
+														pos: position{line: 790, col: 5, offset: 25418},
 														run: (*parser).callonListContinuationElement1009,
 														expr: &seqExpr{
-															pos: position{line: 790, col: 5, offset: 25417},
+															pos: position{line: 790, col: 5, offset: 25418},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 790, col: 5, offset: 25417},
+																	pos:   position{line: 790, col: 5, offset: 25418},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 790, col: 16, offset: 25428},
+																		pos: position{line: 790, col: 16, offset: 25429},
 																		run: (*parser).callonListContinuationElement1012,
 																		expr: &seqExpr{
-																			pos: position{line: 790, col: 16, offset: 25428},
+																			pos: position{line: 790, col: 16, offset: 25429},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 790, col: 16, offset: 25428},
+																					pos:        position{line: 790, col: 16, offset: 25429},
 																					val:        "++++",
 																					ignoreCase: false,
 																					want:       "\"++++\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 790, col: 23, offset: 25435},
+																					pos: position{line: 790, col: 23, offset: 25436},
 																					expr: &litMatcher{
-																						pos:        position{line: 790, col: 23, offset: 25435},
+																						pos:        position{line: 790, col: 23, offset: 25436},
 																						val:        "+",
 																						ignoreCase: false,
 																						want:       "\"+\"",
@@ -34030,12 +34030,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 792, col: 8, offset: 25519},
+																	pos: position{line: 792, col: 8, offset: 25520},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 90951},
+																		pos: position{line: 2876, col: 10, offset: 90952},
 																		run: (*parser).callonListContinuationElement1018,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 90951},
+																			pos:        position{line: 2876, col: 10, offset: 90952},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34044,28 +34044,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91349},
+																	pos: position{line: 2898, col: 8, offset: 91350},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91122},
+																			pos: position{line: 2885, col: 12, offset: 91123},
 																			run: (*parser).callonListContinuationElement1021,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91123},
+																				pos: position{line: 2885, col: 13, offset: 91124},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91123},
+																						pos:        position{line: 2885, col: 13, offset: 91124},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91130},
+																						pos:        position{line: 2885, col: 20, offset: 91131},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91139},
+																						pos:        position{line: 2885, col: 29, offset: 91140},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34074,9 +34074,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91299},
+																			pos: position{line: 2895, col: 8, offset: 91300},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91300,
+																				line: 2895, col: 9, offset: 91301,
 																			},
 																		},
 																	},
@@ -34086,56 +34086,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1018, col: 5, offset: 31560},
+													pos: position{line: 1018, col: 5, offset: 31561},
 													run: (*parser).callonListContinuationElement1028,
 												},
 												&labeledExpr{
-													pos:   position{line: 1021, col: 5, offset: 31652},
+													pos:   position{line: 1021, col: 5, offset: 31653},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1036, col: 5, offset: 32082},
+														pos: position{line: 1036, col: 5, offset: 32083},
 														expr: &actionExpr{
-															pos: position{line: 1036, col: 6, offset: 32083},
+															pos: position{line: 1036, col: 6, offset: 32084},
 															run: (*parser).callonListContinuationElement1031,
 															expr: &seqExpr{
-																pos: position{line: 1036, col: 6, offset: 32083},
+																pos: position{line: 1036, col: 6, offset: 32084},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1036, col: 6, offset: 32083},
+																		pos: position{line: 1036, col: 6, offset: 32084},
 																		expr: &choiceExpr{
-																			pos: position{line: 1029, col: 5, offset: 31916},
+																			pos: position{line: 1029, col: 5, offset: 31917},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1029, col: 5, offset: 31916},
+																					pos: position{line: 1029, col: 5, offset: 31917},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1029, col: 5, offset: 31916},
+																							pos:   position{line: 1029, col: 5, offset: 31917},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 790, col: 5, offset: 25417},
+																								pos: position{line: 790, col: 5, offset: 25418},
 																								run: (*parser).callonListContinuationElement1037,
 																								expr: &seqExpr{
-																									pos: position{line: 790, col: 5, offset: 25417},
+																									pos: position{line: 790, col: 5, offset: 25418},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 790, col: 5, offset: 25417},
+																											pos:   position{line: 790, col: 5, offset: 25418},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 790, col: 16, offset: 25428},
+																												pos: position{line: 790, col: 16, offset: 25429},
 																												run: (*parser).callonListContinuationElement1040,
 																												expr: &seqExpr{
-																													pos: position{line: 790, col: 16, offset: 25428},
+																													pos: position{line: 790, col: 16, offset: 25429},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 790, col: 16, offset: 25428},
+																															pos:        position{line: 790, col: 16, offset: 25429},
 																															val:        "++++",
 																															ignoreCase: false,
 																															want:       "\"++++\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 790, col: 23, offset: 25435},
+																															pos: position{line: 790, col: 23, offset: 25436},
 																															expr: &litMatcher{
-																																pos:        position{line: 790, col: 23, offset: 25435},
+																																pos:        position{line: 790, col: 23, offset: 25436},
 																																val:        "+",
 																																ignoreCase: false,
 																																want:       "\"+\"",
@@ -34146,12 +34146,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 792, col: 8, offset: 25519},
+																											pos: position{line: 792, col: 8, offset: 25520},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 90951},
+																												pos: position{line: 2876, col: 10, offset: 90952},
 																												run: (*parser).callonListContinuationElement1046,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 90951},
+																													pos:        position{line: 2876, col: 10, offset: 90952},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34160,28 +34160,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91349},
+																											pos: position{line: 2898, col: 8, offset: 91350},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91122},
+																													pos: position{line: 2885, col: 12, offset: 91123},
 																													run: (*parser).callonListContinuationElement1049,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91123},
+																														pos: position{line: 2885, col: 13, offset: 91124},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91123},
+																																pos:        position{line: 2885, col: 13, offset: 91124},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91130},
+																																pos:        position{line: 2885, col: 20, offset: 91131},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91139},
+																																pos:        position{line: 2885, col: 29, offset: 91140},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34190,9 +34190,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91299},
+																													pos: position{line: 2895, col: 8, offset: 91300},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91300,
+																														line: 2895, col: 9, offset: 91301,
 																													},
 																												},
 																											},
@@ -34202,45 +34202,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1030, col: 5, offset: 31951},
+																							pos: position{line: 1030, col: 5, offset: 31952},
 																							run: (*parser).callonListContinuationElement1056,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91299},
+																					pos: position{line: 2895, col: 8, offset: 91300},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91300,
+																						line: 2895, col: 9, offset: 91301,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1037, col: 5, offset: 32117},
+																		pos:   position{line: 1037, col: 5, offset: 32118},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26161},
+																			pos: position{line: 811, col: 5, offset: 26162},
 																			run: (*parser).callonListContinuationElement1060,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26161},
+																				pos: position{line: 811, col: 5, offset: 26162},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2893, col: 11, offset: 91285},
+																						pos: position{line: 2893, col: 11, offset: 91286},
 																						expr: &anyMatcher{
-																							line: 2893, col: 13, offset: 91287,
+																							line: 2893, col: 13, offset: 91288,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26236},
+																						pos:   position{line: 812, col: 5, offset: 26237},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2822, col: 13, offset: 89477},
+																							pos: position{line: 2822, col: 13, offset: 89478},
 																							run: (*parser).callonListContinuationElement1065,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2822, col: 13, offset: 89477},
+																								pos: position{line: 2822, col: 13, offset: 89478},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2822, col: 13, offset: 89477},
+																									pos:        position{line: 2822, col: 13, offset: 89478},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34250,28 +34250,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91349},
+																						pos: position{line: 2898, col: 8, offset: 91350},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91122},
+																								pos: position{line: 2885, col: 12, offset: 91123},
 																								run: (*parser).callonListContinuationElement1069,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91123},
+																									pos: position{line: 2885, col: 13, offset: 91124},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91123},
+																											pos:        position{line: 2885, col: 13, offset: 91124},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91130},
+																											pos:        position{line: 2885, col: 20, offset: 91131},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91139},
+																											pos:        position{line: 2885, col: 29, offset: 91140},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34280,9 +34280,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91299},
+																								pos: position{line: 2895, col: 8, offset: 91300},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91300,
+																									line: 2895, col: 9, offset: 91301,
 																								},
 																							},
 																						},
@@ -34297,44 +34297,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1022, col: 5, offset: 31690},
+													pos:   position{line: 1022, col: 5, offset: 31691},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1022, col: 9, offset: 31694},
+														pos: position{line: 1022, col: 9, offset: 31695},
 														expr: &choiceExpr{
-															pos: position{line: 1029, col: 5, offset: 31916},
+															pos: position{line: 1029, col: 5, offset: 31917},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1029, col: 5, offset: 31916},
+																	pos: position{line: 1029, col: 5, offset: 31917},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1029, col: 5, offset: 31916},
+																			pos:   position{line: 1029, col: 5, offset: 31917},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 790, col: 5, offset: 25417},
+																				pos: position{line: 790, col: 5, offset: 25418},
 																				run: (*parser).callonListContinuationElement1081,
 																				expr: &seqExpr{
-																					pos: position{line: 790, col: 5, offset: 25417},
+																					pos: position{line: 790, col: 5, offset: 25418},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 790, col: 5, offset: 25417},
+																							pos:   position{line: 790, col: 5, offset: 25418},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 790, col: 16, offset: 25428},
+																								pos: position{line: 790, col: 16, offset: 25429},
 																								run: (*parser).callonListContinuationElement1084,
 																								expr: &seqExpr{
-																									pos: position{line: 790, col: 16, offset: 25428},
+																									pos: position{line: 790, col: 16, offset: 25429},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 790, col: 16, offset: 25428},
+																											pos:        position{line: 790, col: 16, offset: 25429},
 																											val:        "++++",
 																											ignoreCase: false,
 																											want:       "\"++++\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 790, col: 23, offset: 25435},
+																											pos: position{line: 790, col: 23, offset: 25436},
 																											expr: &litMatcher{
-																												pos:        position{line: 790, col: 23, offset: 25435},
+																												pos:        position{line: 790, col: 23, offset: 25436},
 																												val:        "+",
 																												ignoreCase: false,
 																												want:       "\"+\"",
@@ -34345,12 +34345,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 792, col: 8, offset: 25519},
+																							pos: position{line: 792, col: 8, offset: 25520},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 90951},
+																								pos: position{line: 2876, col: 10, offset: 90952},
 																								run: (*parser).callonListContinuationElement1090,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 90951},
+																									pos:        position{line: 2876, col: 10, offset: 90952},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34359,28 +34359,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91349},
+																							pos: position{line: 2898, col: 8, offset: 91350},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91122},
+																									pos: position{line: 2885, col: 12, offset: 91123},
 																									run: (*parser).callonListContinuationElement1093,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91123},
+																										pos: position{line: 2885, col: 13, offset: 91124},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91123},
+																												pos:        position{line: 2885, col: 13, offset: 91124},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91130},
+																												pos:        position{line: 2885, col: 20, offset: 91131},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91139},
+																												pos:        position{line: 2885, col: 29, offset: 91140},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34389,9 +34389,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91299},
+																									pos: position{line: 2895, col: 8, offset: 91300},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91300,
+																										line: 2895, col: 9, offset: 91301,
 																									},
 																								},
 																							},
@@ -34401,15 +34401,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1030, col: 5, offset: 31951},
+																			pos: position{line: 1030, col: 5, offset: 31952},
 																			run: (*parser).callonListContinuationElement1100,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2895, col: 8, offset: 91299},
+																	pos: position{line: 2895, col: 8, offset: 91300},
 																	expr: &anyMatcher{
-																		line: 2895, col: 9, offset: 91300,
+																		line: 2895, col: 9, offset: 91301,
 																	},
 																},
 															},
@@ -34420,39 +34420,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1045, col: 5, offset: 32268},
+										pos: position{line: 1045, col: 5, offset: 32269},
 										run: (*parser).callonListContinuationElement1103,
 										expr: &seqExpr{
-											pos: position{line: 1045, col: 5, offset: 32268},
+											pos: position{line: 1045, col: 5, offset: 32269},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1045, col: 5, offset: 32268},
+													pos:   position{line: 1045, col: 5, offset: 32269},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 797, col: 5, offset: 25667},
+														pos: position{line: 797, col: 5, offset: 25668},
 														run: (*parser).callonListContinuationElement1106,
 														expr: &seqExpr{
-															pos: position{line: 797, col: 5, offset: 25667},
+															pos: position{line: 797, col: 5, offset: 25668},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 797, col: 5, offset: 25667},
+																	pos:   position{line: 797, col: 5, offset: 25668},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 797, col: 16, offset: 25678},
+																		pos: position{line: 797, col: 16, offset: 25679},
 																		run: (*parser).callonListContinuationElement1109,
 																		expr: &seqExpr{
-																			pos: position{line: 797, col: 16, offset: 25678},
+																			pos: position{line: 797, col: 16, offset: 25679},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 797, col: 16, offset: 25678},
+																					pos:        position{line: 797, col: 16, offset: 25679},
 																					val:        "____",
 																					ignoreCase: false,
 																					want:       "\"____\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 797, col: 23, offset: 25685},
+																					pos: position{line: 797, col: 23, offset: 25686},
 																					expr: &litMatcher{
-																						pos:        position{line: 797, col: 23, offset: 25685},
+																						pos:        position{line: 797, col: 23, offset: 25686},
 																						val:        "_",
 																						ignoreCase: false,
 																						want:       "\"_\"",
@@ -34463,12 +34463,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 799, col: 8, offset: 25769},
+																	pos: position{line: 799, col: 8, offset: 25770},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 90951},
+																		pos: position{line: 2876, col: 10, offset: 90952},
 																		run: (*parser).callonListContinuationElement1115,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 90951},
+																			pos:        position{line: 2876, col: 10, offset: 90952},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34477,28 +34477,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91349},
+																	pos: position{line: 2898, col: 8, offset: 91350},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91122},
+																			pos: position{line: 2885, col: 12, offset: 91123},
 																			run: (*parser).callonListContinuationElement1118,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91123},
+																				pos: position{line: 2885, col: 13, offset: 91124},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91123},
+																						pos:        position{line: 2885, col: 13, offset: 91124},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91130},
+																						pos:        position{line: 2885, col: 20, offset: 91131},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91139},
+																						pos:        position{line: 2885, col: 29, offset: 91140},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34507,9 +34507,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91299},
+																			pos: position{line: 2895, col: 8, offset: 91300},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91300,
+																				line: 2895, col: 9, offset: 91301,
 																			},
 																		},
 																	},
@@ -34519,56 +34519,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1046, col: 5, offset: 32305},
+													pos: position{line: 1046, col: 5, offset: 32306},
 													run: (*parser).callonListContinuationElement1125,
 												},
 												&labeledExpr{
-													pos:   position{line: 1049, col: 5, offset: 32397},
+													pos:   position{line: 1049, col: 5, offset: 32398},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1064, col: 4, offset: 32778},
+														pos: position{line: 1064, col: 4, offset: 32779},
 														expr: &actionExpr{
-															pos: position{line: 1064, col: 5, offset: 32779},
+															pos: position{line: 1064, col: 5, offset: 32780},
 															run: (*parser).callonListContinuationElement1128,
 															expr: &seqExpr{
-																pos: position{line: 1064, col: 5, offset: 32779},
+																pos: position{line: 1064, col: 5, offset: 32780},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1064, col: 5, offset: 32779},
+																		pos: position{line: 1064, col: 5, offset: 32780},
 																		expr: &choiceExpr{
-																			pos: position{line: 1057, col: 5, offset: 32625},
+																			pos: position{line: 1057, col: 5, offset: 32626},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1057, col: 5, offset: 32625},
+																					pos: position{line: 1057, col: 5, offset: 32626},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1057, col: 5, offset: 32625},
+																							pos:   position{line: 1057, col: 5, offset: 32626},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 797, col: 5, offset: 25667},
+																								pos: position{line: 797, col: 5, offset: 25668},
 																								run: (*parser).callonListContinuationElement1134,
 																								expr: &seqExpr{
-																									pos: position{line: 797, col: 5, offset: 25667},
+																									pos: position{line: 797, col: 5, offset: 25668},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 797, col: 5, offset: 25667},
+																											pos:   position{line: 797, col: 5, offset: 25668},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 797, col: 16, offset: 25678},
+																												pos: position{line: 797, col: 16, offset: 25679},
 																												run: (*parser).callonListContinuationElement1137,
 																												expr: &seqExpr{
-																													pos: position{line: 797, col: 16, offset: 25678},
+																													pos: position{line: 797, col: 16, offset: 25679},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 797, col: 16, offset: 25678},
+																															pos:        position{line: 797, col: 16, offset: 25679},
 																															val:        "____",
 																															ignoreCase: false,
 																															want:       "\"____\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 797, col: 23, offset: 25685},
+																															pos: position{line: 797, col: 23, offset: 25686},
 																															expr: &litMatcher{
-																																pos:        position{line: 797, col: 23, offset: 25685},
+																																pos:        position{line: 797, col: 23, offset: 25686},
 																																val:        "_",
 																																ignoreCase: false,
 																																want:       "\"_\"",
@@ -34579,12 +34579,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 799, col: 8, offset: 25769},
+																											pos: position{line: 799, col: 8, offset: 25770},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 90951},
+																												pos: position{line: 2876, col: 10, offset: 90952},
 																												run: (*parser).callonListContinuationElement1143,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 90951},
+																													pos:        position{line: 2876, col: 10, offset: 90952},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34593,28 +34593,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91349},
+																											pos: position{line: 2898, col: 8, offset: 91350},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91122},
+																													pos: position{line: 2885, col: 12, offset: 91123},
 																													run: (*parser).callonListContinuationElement1146,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91123},
+																														pos: position{line: 2885, col: 13, offset: 91124},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91123},
+																																pos:        position{line: 2885, col: 13, offset: 91124},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91130},
+																																pos:        position{line: 2885, col: 20, offset: 91131},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91139},
+																																pos:        position{line: 2885, col: 29, offset: 91140},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34623,9 +34623,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91299},
+																													pos: position{line: 2895, col: 8, offset: 91300},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91300,
+																														line: 2895, col: 9, offset: 91301,
 																													},
 																												},
 																											},
@@ -34635,45 +34635,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1058, col: 5, offset: 32654},
+																							pos: position{line: 1058, col: 5, offset: 32655},
 																							run: (*parser).callonListContinuationElement1153,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91299},
+																					pos: position{line: 2895, col: 8, offset: 91300},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91300,
+																						line: 2895, col: 9, offset: 91301,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1065, col: 5, offset: 32807},
+																		pos:   position{line: 1065, col: 5, offset: 32808},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26161},
+																			pos: position{line: 811, col: 5, offset: 26162},
 																			run: (*parser).callonListContinuationElement1157,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26161},
+																				pos: position{line: 811, col: 5, offset: 26162},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2893, col: 11, offset: 91285},
+																						pos: position{line: 2893, col: 11, offset: 91286},
 																						expr: &anyMatcher{
-																							line: 2893, col: 13, offset: 91287,
+																							line: 2893, col: 13, offset: 91288,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26236},
+																						pos:   position{line: 812, col: 5, offset: 26237},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2822, col: 13, offset: 89477},
+																							pos: position{line: 2822, col: 13, offset: 89478},
 																							run: (*parser).callonListContinuationElement1162,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2822, col: 13, offset: 89477},
+																								pos: position{line: 2822, col: 13, offset: 89478},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2822, col: 13, offset: 89477},
+																									pos:        position{line: 2822, col: 13, offset: 89478},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34683,28 +34683,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91349},
+																						pos: position{line: 2898, col: 8, offset: 91350},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91122},
+																								pos: position{line: 2885, col: 12, offset: 91123},
 																								run: (*parser).callonListContinuationElement1166,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91123},
+																									pos: position{line: 2885, col: 13, offset: 91124},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91123},
+																											pos:        position{line: 2885, col: 13, offset: 91124},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91130},
+																											pos:        position{line: 2885, col: 20, offset: 91131},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91139},
+																											pos:        position{line: 2885, col: 29, offset: 91140},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34713,9 +34713,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91299},
+																								pos: position{line: 2895, col: 8, offset: 91300},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91300,
+																									line: 2895, col: 9, offset: 91301,
 																								},
 																							},
 																						},
@@ -34730,44 +34730,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1050, col: 5, offset: 32429},
+													pos:   position{line: 1050, col: 5, offset: 32430},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1050, col: 9, offset: 32433},
+														pos: position{line: 1050, col: 9, offset: 32434},
 														expr: &choiceExpr{
-															pos: position{line: 1057, col: 5, offset: 32625},
+															pos: position{line: 1057, col: 5, offset: 32626},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1057, col: 5, offset: 32625},
+																	pos: position{line: 1057, col: 5, offset: 32626},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1057, col: 5, offset: 32625},
+																			pos:   position{line: 1057, col: 5, offset: 32626},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 797, col: 5, offset: 25667},
+																				pos: position{line: 797, col: 5, offset: 25668},
 																				run: (*parser).callonListContinuationElement1178,
 																				expr: &seqExpr{
-																					pos: position{line: 797, col: 5, offset: 25667},
+																					pos: position{line: 797, col: 5, offset: 25668},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 797, col: 5, offset: 25667},
+																							pos:   position{line: 797, col: 5, offset: 25668},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 797, col: 16, offset: 25678},
+																								pos: position{line: 797, col: 16, offset: 25679},
 																								run: (*parser).callonListContinuationElement1181,
 																								expr: &seqExpr{
-																									pos: position{line: 797, col: 16, offset: 25678},
+																									pos: position{line: 797, col: 16, offset: 25679},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 797, col: 16, offset: 25678},
+																											pos:        position{line: 797, col: 16, offset: 25679},
 																											val:        "____",
 																											ignoreCase: false,
 																											want:       "\"____\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 797, col: 23, offset: 25685},
+																											pos: position{line: 797, col: 23, offset: 25686},
 																											expr: &litMatcher{
-																												pos:        position{line: 797, col: 23, offset: 25685},
+																												pos:        position{line: 797, col: 23, offset: 25686},
 																												val:        "_",
 																												ignoreCase: false,
 																												want:       "\"_\"",
@@ -34778,12 +34778,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 799, col: 8, offset: 25769},
+																							pos: position{line: 799, col: 8, offset: 25770},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 90951},
+																								pos: position{line: 2876, col: 10, offset: 90952},
 																								run: (*parser).callonListContinuationElement1187,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 90951},
+																									pos:        position{line: 2876, col: 10, offset: 90952},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34792,28 +34792,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91349},
+																							pos: position{line: 2898, col: 8, offset: 91350},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91122},
+																									pos: position{line: 2885, col: 12, offset: 91123},
 																									run: (*parser).callonListContinuationElement1190,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91123},
+																										pos: position{line: 2885, col: 13, offset: 91124},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91123},
+																												pos:        position{line: 2885, col: 13, offset: 91124},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91130},
+																												pos:        position{line: 2885, col: 20, offset: 91131},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91139},
+																												pos:        position{line: 2885, col: 29, offset: 91140},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34822,9 +34822,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91299},
+																									pos: position{line: 2895, col: 8, offset: 91300},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91300,
+																										line: 2895, col: 9, offset: 91301,
 																									},
 																								},
 																							},
@@ -34834,15 +34834,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1058, col: 5, offset: 32654},
+																			pos: position{line: 1058, col: 5, offset: 32655},
 																			run: (*parser).callonListContinuationElement1197,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2895, col: 8, offset: 91299},
+																	pos: position{line: 2895, col: 8, offset: 91300},
 																	expr: &anyMatcher{
-																		line: 2895, col: 9, offset: 91300,
+																		line: 2895, col: 9, offset: 91301,
 																	},
 																},
 															},
@@ -34853,39 +34853,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1073, col: 5, offset: 32962},
+										pos: position{line: 1073, col: 5, offset: 32963},
 										run: (*parser).callonListContinuationElement1200,
 										expr: &seqExpr{
-											pos: position{line: 1073, col: 5, offset: 32962},
+											pos: position{line: 1073, col: 5, offset: 32963},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1073, col: 5, offset: 32962},
+													pos:   position{line: 1073, col: 5, offset: 32963},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 804, col: 5, offset: 25913},
+														pos: position{line: 804, col: 5, offset: 25914},
 														run: (*parser).callonListContinuationElement1203,
 														expr: &seqExpr{
-															pos: position{line: 804, col: 5, offset: 25913},
+															pos: position{line: 804, col: 5, offset: 25914},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 804, col: 5, offset: 25913},
+																	pos:   position{line: 804, col: 5, offset: 25914},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 804, col: 16, offset: 25924},
+																		pos: position{line: 804, col: 16, offset: 25925},
 																		run: (*parser).callonListContinuationElement1206,
 																		expr: &seqExpr{
-																			pos: position{line: 804, col: 16, offset: 25924},
+																			pos: position{line: 804, col: 16, offset: 25925},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 804, col: 16, offset: 25924},
+																					pos:        position{line: 804, col: 16, offset: 25925},
 																					val:        "****",
 																					ignoreCase: false,
 																					want:       "\"****\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 804, col: 23, offset: 25931},
+																					pos: position{line: 804, col: 23, offset: 25932},
 																					expr: &litMatcher{
-																						pos:        position{line: 804, col: 23, offset: 25931},
+																						pos:        position{line: 804, col: 23, offset: 25932},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -34896,12 +34896,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 806, col: 8, offset: 26015},
+																	pos: position{line: 806, col: 8, offset: 26016},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 90951},
+																		pos: position{line: 2876, col: 10, offset: 90952},
 																		run: (*parser).callonListContinuationElement1212,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 90951},
+																			pos:        position{line: 2876, col: 10, offset: 90952},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34910,28 +34910,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91349},
+																	pos: position{line: 2898, col: 8, offset: 91350},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91122},
+																			pos: position{line: 2885, col: 12, offset: 91123},
 																			run: (*parser).callonListContinuationElement1215,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91123},
+																				pos: position{line: 2885, col: 13, offset: 91124},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91123},
+																						pos:        position{line: 2885, col: 13, offset: 91124},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91130},
+																						pos:        position{line: 2885, col: 20, offset: 91131},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91139},
+																						pos:        position{line: 2885, col: 29, offset: 91140},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34940,9 +34940,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91299},
+																			pos: position{line: 2895, col: 8, offset: 91300},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91300,
+																				line: 2895, col: 9, offset: 91301,
 																			},
 																		},
 																	},
@@ -34952,56 +34952,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1074, col: 5, offset: 33001},
+													pos: position{line: 1074, col: 5, offset: 33002},
 													run: (*parser).callonListContinuationElement1222,
 												},
 												&labeledExpr{
-													pos:   position{line: 1077, col: 5, offset: 33093},
+													pos:   position{line: 1077, col: 5, offset: 33094},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1092, col: 4, offset: 33490},
+														pos: position{line: 1092, col: 4, offset: 33491},
 														expr: &actionExpr{
-															pos: position{line: 1092, col: 5, offset: 33491},
+															pos: position{line: 1092, col: 5, offset: 33492},
 															run: (*parser).callonListContinuationElement1225,
 															expr: &seqExpr{
-																pos: position{line: 1092, col: 5, offset: 33491},
+																pos: position{line: 1092, col: 5, offset: 33492},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1092, col: 5, offset: 33491},
+																		pos: position{line: 1092, col: 5, offset: 33492},
 																		expr: &choiceExpr{
-																			pos: position{line: 1085, col: 5, offset: 33333},
+																			pos: position{line: 1085, col: 5, offset: 33334},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1085, col: 5, offset: 33333},
+																					pos: position{line: 1085, col: 5, offset: 33334},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1085, col: 5, offset: 33333},
+																							pos:   position{line: 1085, col: 5, offset: 33334},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 804, col: 5, offset: 25913},
+																								pos: position{line: 804, col: 5, offset: 25914},
 																								run: (*parser).callonListContinuationElement1231,
 																								expr: &seqExpr{
-																									pos: position{line: 804, col: 5, offset: 25913},
+																									pos: position{line: 804, col: 5, offset: 25914},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 804, col: 5, offset: 25913},
+																											pos:   position{line: 804, col: 5, offset: 25914},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 804, col: 16, offset: 25924},
+																												pos: position{line: 804, col: 16, offset: 25925},
 																												run: (*parser).callonListContinuationElement1234,
 																												expr: &seqExpr{
-																													pos: position{line: 804, col: 16, offset: 25924},
+																													pos: position{line: 804, col: 16, offset: 25925},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 804, col: 16, offset: 25924},
+																															pos:        position{line: 804, col: 16, offset: 25925},
 																															val:        "****",
 																															ignoreCase: false,
 																															want:       "\"****\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 804, col: 23, offset: 25931},
+																															pos: position{line: 804, col: 23, offset: 25932},
 																															expr: &litMatcher{
-																																pos:        position{line: 804, col: 23, offset: 25931},
+																																pos:        position{line: 804, col: 23, offset: 25932},
 																																val:        "*",
 																																ignoreCase: false,
 																																want:       "\"*\"",
@@ -35012,12 +35012,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 806, col: 8, offset: 26015},
+																											pos: position{line: 806, col: 8, offset: 26016},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 90951},
+																												pos: position{line: 2876, col: 10, offset: 90952},
 																												run: (*parser).callonListContinuationElement1240,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 90951},
+																													pos:        position{line: 2876, col: 10, offset: 90952},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35026,28 +35026,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91349},
+																											pos: position{line: 2898, col: 8, offset: 91350},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91122},
+																													pos: position{line: 2885, col: 12, offset: 91123},
 																													run: (*parser).callonListContinuationElement1243,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91123},
+																														pos: position{line: 2885, col: 13, offset: 91124},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91123},
+																																pos:        position{line: 2885, col: 13, offset: 91124},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91130},
+																																pos:        position{line: 2885, col: 20, offset: 91131},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91139},
+																																pos:        position{line: 2885, col: 29, offset: 91140},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35056,9 +35056,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91299},
+																													pos: position{line: 2895, col: 8, offset: 91300},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91300,
+																														line: 2895, col: 9, offset: 91301,
 																													},
 																												},
 																											},
@@ -35068,45 +35068,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1086, col: 5, offset: 33364},
+																							pos: position{line: 1086, col: 5, offset: 33365},
 																							run: (*parser).callonListContinuationElement1250,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91299},
+																					pos: position{line: 2895, col: 8, offset: 91300},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91300,
+																						line: 2895, col: 9, offset: 91301,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1093, col: 5, offset: 33521},
+																		pos:   position{line: 1093, col: 5, offset: 33522},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26161},
+																			pos: position{line: 811, col: 5, offset: 26162},
 																			run: (*parser).callonListContinuationElement1254,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26161},
+																				pos: position{line: 811, col: 5, offset: 26162},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2893, col: 11, offset: 91285},
+																						pos: position{line: 2893, col: 11, offset: 91286},
 																						expr: &anyMatcher{
-																							line: 2893, col: 13, offset: 91287,
+																							line: 2893, col: 13, offset: 91288,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26236},
+																						pos:   position{line: 812, col: 5, offset: 26237},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2822, col: 13, offset: 89477},
+																							pos: position{line: 2822, col: 13, offset: 89478},
 																							run: (*parser).callonListContinuationElement1259,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2822, col: 13, offset: 89477},
+																								pos: position{line: 2822, col: 13, offset: 89478},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2822, col: 13, offset: 89477},
+																									pos:        position{line: 2822, col: 13, offset: 89478},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35116,28 +35116,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91349},
+																						pos: position{line: 2898, col: 8, offset: 91350},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91122},
+																								pos: position{line: 2885, col: 12, offset: 91123},
 																								run: (*parser).callonListContinuationElement1263,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91123},
+																									pos: position{line: 2885, col: 13, offset: 91124},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91123},
+																											pos:        position{line: 2885, col: 13, offset: 91124},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91130},
+																											pos:        position{line: 2885, col: 20, offset: 91131},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91139},
+																											pos:        position{line: 2885, col: 29, offset: 91140},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35146,9 +35146,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91299},
+																								pos: position{line: 2895, col: 8, offset: 91300},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91300,
+																									line: 2895, col: 9, offset: 91301,
 																								},
 																							},
 																						},
@@ -35163,44 +35163,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1078, col: 5, offset: 33127},
+													pos:   position{line: 1078, col: 5, offset: 33128},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1078, col: 9, offset: 33131},
+														pos: position{line: 1078, col: 9, offset: 33132},
 														expr: &choiceExpr{
-															pos: position{line: 1085, col: 5, offset: 33333},
+															pos: position{line: 1085, col: 5, offset: 33334},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1085, col: 5, offset: 33333},
+																	pos: position{line: 1085, col: 5, offset: 33334},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1085, col: 5, offset: 33333},
+																			pos:   position{line: 1085, col: 5, offset: 33334},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 804, col: 5, offset: 25913},
+																				pos: position{line: 804, col: 5, offset: 25914},
 																				run: (*parser).callonListContinuationElement1275,
 																				expr: &seqExpr{
-																					pos: position{line: 804, col: 5, offset: 25913},
+																					pos: position{line: 804, col: 5, offset: 25914},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 804, col: 5, offset: 25913},
+																							pos:   position{line: 804, col: 5, offset: 25914},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 804, col: 16, offset: 25924},
+																								pos: position{line: 804, col: 16, offset: 25925},
 																								run: (*parser).callonListContinuationElement1278,
 																								expr: &seqExpr{
-																									pos: position{line: 804, col: 16, offset: 25924},
+																									pos: position{line: 804, col: 16, offset: 25925},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 804, col: 16, offset: 25924},
+																											pos:        position{line: 804, col: 16, offset: 25925},
 																											val:        "****",
 																											ignoreCase: false,
 																											want:       "\"****\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 804, col: 23, offset: 25931},
+																											pos: position{line: 804, col: 23, offset: 25932},
 																											expr: &litMatcher{
-																												pos:        position{line: 804, col: 23, offset: 25931},
+																												pos:        position{line: 804, col: 23, offset: 25932},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -35211,12 +35211,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 806, col: 8, offset: 26015},
+																							pos: position{line: 806, col: 8, offset: 26016},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 90951},
+																								pos: position{line: 2876, col: 10, offset: 90952},
 																								run: (*parser).callonListContinuationElement1284,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 90951},
+																									pos:        position{line: 2876, col: 10, offset: 90952},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35225,28 +35225,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91349},
+																							pos: position{line: 2898, col: 8, offset: 91350},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91122},
+																									pos: position{line: 2885, col: 12, offset: 91123},
 																									run: (*parser).callonListContinuationElement1287,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91123},
+																										pos: position{line: 2885, col: 13, offset: 91124},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91123},
+																												pos:        position{line: 2885, col: 13, offset: 91124},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91130},
+																												pos:        position{line: 2885, col: 20, offset: 91131},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91139},
+																												pos:        position{line: 2885, col: 29, offset: 91140},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35255,9 +35255,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91299},
+																									pos: position{line: 2895, col: 8, offset: 91300},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91300,
+																										line: 2895, col: 9, offset: 91301,
 																									},
 																								},
 																							},
@@ -35267,15 +35267,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1086, col: 5, offset: 33364},
+																			pos: position{line: 1086, col: 5, offset: 33365},
 																			run: (*parser).callonListContinuationElement1294,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2895, col: 8, offset: 91299},
+																	pos: position{line: 2895, col: 8, offset: 91300},
 																	expr: &anyMatcher{
-																		line: 2895, col: 9, offset: 91300,
+																		line: 2895, col: 9, offset: 91301,
 																	},
 																},
 															},
@@ -35286,52 +35286,52 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2721, col: 18, offset: 86546},
+										pos: position{line: 2721, col: 18, offset: 86547},
 										run: (*parser).callonListContinuationElement1297,
 										expr: &seqExpr{
-											pos: position{line: 2721, col: 18, offset: 86546},
+											pos: position{line: 2721, col: 18, offset: 86547},
 											exprs: []interface{}{
 												&choiceExpr{
-													pos: position{line: 2722, col: 9, offset: 86556},
+													pos: position{line: 2722, col: 9, offset: 86557},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2722, col: 9, offset: 86556},
+															pos:        position{line: 2722, col: 9, offset: 86557},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2723, col: 11, offset: 86592},
+															pos:        position{line: 2723, col: 11, offset: 86593},
 															val:        "***",
 															ignoreCase: false,
 															want:       "\"***\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2723, col: 19, offset: 86600},
+															pos:        position{line: 2723, col: 19, offset: 86601},
 															val:        "* * *",
 															ignoreCase: false,
 															want:       "\"* * *\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2723, col: 29, offset: 86610},
+															pos:        position{line: 2723, col: 29, offset: 86611},
 															val:        "---",
 															ignoreCase: false,
 															want:       "\"---\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2723, col: 37, offset: 86618},
+															pos:        position{line: 2723, col: 37, offset: 86619},
 															val:        "- - -",
 															ignoreCase: false,
 															want:       "\"- - -\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2723, col: 47, offset: 86628},
+															pos:        position{line: 2723, col: 47, offset: 86629},
 															val:        "___",
 															ignoreCase: false,
 															want:       "\"___\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2723, col: 55, offset: 86636},
+															pos:        position{line: 2723, col: 55, offset: 86637},
 															val:        "_ _ _",
 															ignoreCase: false,
 															want:       "\"_ _ _\"",
@@ -35339,12 +35339,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2724, col: 11, offset: 86682},
+													pos: position{line: 2724, col: 11, offset: 86683},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 90951},
+														pos: position{line: 2876, col: 10, offset: 90952},
 														run: (*parser).callonListContinuationElement1308,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 90951},
+															pos:        position{line: 2876, col: 10, offset: 90952},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35353,28 +35353,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2898, col: 8, offset: 91349},
+													pos: position{line: 2898, col: 8, offset: 91350},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91122},
+															pos: position{line: 2885, col: 12, offset: 91123},
 															run: (*parser).callonListContinuationElement1311,
 															expr: &choiceExpr{
-																pos: position{line: 2885, col: 13, offset: 91123},
+																pos: position{line: 2885, col: 13, offset: 91124},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 13, offset: 91123},
+																		pos:        position{line: 2885, col: 13, offset: 91124},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 20, offset: 91130},
+																		pos:        position{line: 2885, col: 20, offset: 91131},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 29, offset: 91139},
+																		pos:        position{line: 2885, col: 29, offset: 91140},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35383,20 +35383,20 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2895, col: 8, offset: 91299},
+															pos: position{line: 2895, col: 8, offset: 91300},
 															expr: &anyMatcher{
-																line: 2895, col: 9, offset: 91300,
+																line: 2895, col: 9, offset: 91301,
 															},
 														},
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2724, col: 22, offset: 86693},
+													pos: position{line: 2724, col: 22, offset: 86694},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 90951},
+														pos: position{line: 2876, col: 10, offset: 90952},
 														run: (*parser).callonListContinuationElement1319,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 90951},
+															pos:        position{line: 2876, col: 10, offset: 90952},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35405,28 +35405,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2898, col: 8, offset: 91349},
+													pos: position{line: 2898, col: 8, offset: 91350},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91122},
+															pos: position{line: 2885, col: 12, offset: 91123},
 															run: (*parser).callonListContinuationElement1322,
 															expr: &choiceExpr{
-																pos: position{line: 2885, col: 13, offset: 91123},
+																pos: position{line: 2885, col: 13, offset: 91124},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 13, offset: 91123},
+																		pos:        position{line: 2885, col: 13, offset: 91124},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 20, offset: 91130},
+																		pos:        position{line: 2885, col: 20, offset: 91131},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 29, offset: 91139},
+																		pos:        position{line: 2885, col: 29, offset: 91140},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35435,9 +35435,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2895, col: 8, offset: 91299},
+															pos: position{line: 2895, col: 8, offset: 91300},
 															expr: &anyMatcher{
-																line: 2895, col: 9, offset: 91300,
+																line: 2895, col: 9, offset: 91301,
 															},
 														},
 													},
@@ -35446,28 +35446,28 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1558, col: 11, offset: 50391},
+										pos:  position{line: 1558, col: 11, offset: 50392},
 										name: "ImageBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2612, col: 5, offset: 83482},
+										pos: position{line: 2612, col: 5, offset: 83483},
 										run: (*parser).callonListContinuationElement1330,
 										expr: &seqExpr{
-											pos: position{line: 2612, col: 5, offset: 83482},
+											pos: position{line: 2612, col: 5, offset: 83483},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2618, col: 19, offset: 83639},
+													pos:        position{line: 2618, col: 19, offset: 83640},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2618, col: 26, offset: 83646},
+													pos: position{line: 2618, col: 26, offset: 83647},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 90951},
+														pos: position{line: 2876, col: 10, offset: 90952},
 														run: (*parser).callonListContinuationElement1334,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 90951},
+															pos:        position{line: 2876, col: 10, offset: 90952},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35476,28 +35476,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2898, col: 8, offset: 91349},
+													pos: position{line: 2898, col: 8, offset: 91350},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91122},
+															pos: position{line: 2885, col: 12, offset: 91123},
 															run: (*parser).callonListContinuationElement1337,
 															expr: &choiceExpr{
-																pos: position{line: 2885, col: 13, offset: 91123},
+																pos: position{line: 2885, col: 13, offset: 91124},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 13, offset: 91123},
+																		pos:        position{line: 2885, col: 13, offset: 91124},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 20, offset: 91130},
+																		pos:        position{line: 2885, col: 20, offset: 91131},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 29, offset: 91139},
+																		pos:        position{line: 2885, col: 29, offset: 91140},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35506,40 +35506,40 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2895, col: 8, offset: 91299},
+															pos: position{line: 2895, col: 8, offset: 91300},
 															expr: &anyMatcher{
-																line: 2895, col: 9, offset: 91300,
+																line: 2895, col: 9, offset: 91301,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2613, col: 5, offset: 83506},
+													pos:   position{line: 2613, col: 5, offset: 83507},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2613, col: 11, offset: 83512},
+														pos: position{line: 2613, col: 11, offset: 83513},
 														expr: &choiceExpr{
-															pos: position{line: 2613, col: 12, offset: 83513},
+															pos: position{line: 2613, col: 12, offset: 83514},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 677, col: 14, offset: 21557},
+																	pos: position{line: 677, col: 14, offset: 21558},
 																	run: (*parser).callonListContinuationElement1347,
 																	expr: &seqExpr{
-																		pos: position{line: 677, col: 14, offset: 21557},
+																		pos: position{line: 677, col: 14, offset: 21558},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2893, col: 11, offset: 91285},
+																				pos: position{line: 2893, col: 11, offset: 91286},
 																				expr: &anyMatcher{
-																					line: 2893, col: 13, offset: 91287,
+																					line: 2893, col: 13, offset: 91288,
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 677, col: 21, offset: 21564},
+																				pos: position{line: 677, col: 21, offset: 21565},
 																				expr: &actionExpr{
-																					pos: position{line: 2876, col: 10, offset: 90951},
+																					pos: position{line: 2876, col: 10, offset: 90952},
 																					run: (*parser).callonListContinuationElement1352,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2876, col: 10, offset: 90951},
+																						pos:        position{line: 2876, col: 10, offset: 90952},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -35548,28 +35548,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2898, col: 8, offset: 91349},
+																				pos: position{line: 2898, col: 8, offset: 91350},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2885, col: 12, offset: 91122},
+																						pos: position{line: 2885, col: 12, offset: 91123},
 																						run: (*parser).callonListContinuationElement1355,
 																						expr: &choiceExpr{
-																							pos: position{line: 2885, col: 13, offset: 91123},
+																							pos: position{line: 2885, col: 13, offset: 91124},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 13, offset: 91123},
+																									pos:        position{line: 2885, col: 13, offset: 91124},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 20, offset: 91130},
+																									pos:        position{line: 2885, col: 20, offset: 91131},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 29, offset: 91139},
+																									pos:        position{line: 2885, col: 29, offset: 91140},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35578,9 +35578,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91299},
+																						pos: position{line: 2895, col: 8, offset: 91300},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91300,
+																							line: 2895, col: 9, offset: 91301,
 																						},
 																					},
 																				},
@@ -35589,32 +35589,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2625, col: 5, offset: 83758},
+																	pos: position{line: 2625, col: 5, offset: 83759},
 																	run: (*parser).callonListContinuationElement1362,
 																	expr: &seqExpr{
-																		pos: position{line: 2625, col: 5, offset: 83758},
+																		pos: position{line: 2625, col: 5, offset: 83759},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2625, col: 5, offset: 83758},
+																				pos: position{line: 2625, col: 5, offset: 83759},
 																				expr: &choiceExpr{
-																					pos: position{line: 2622, col: 22, offset: 83719},
+																					pos: position{line: 2622, col: 22, offset: 83720},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2618, col: 19, offset: 83639},
+																							pos: position{line: 2618, col: 19, offset: 83640},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2618, col: 19, offset: 83639},
+																									pos:        position{line: 2618, col: 19, offset: 83640},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2618, col: 26, offset: 83646},
+																									pos: position{line: 2618, col: 26, offset: 83647},
 																									expr: &actionExpr{
-																										pos: position{line: 2876, col: 10, offset: 90951},
+																										pos: position{line: 2876, col: 10, offset: 90952},
 																										run: (*parser).callonListContinuationElement1369,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2876, col: 10, offset: 90951},
+																											pos:        position{line: 2876, col: 10, offset: 90952},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -35623,28 +35623,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2898, col: 8, offset: 91349},
+																									pos: position{line: 2898, col: 8, offset: 91350},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2885, col: 12, offset: 91122},
+																											pos: position{line: 2885, col: 12, offset: 91123},
 																											run: (*parser).callonListContinuationElement1372,
 																											expr: &choiceExpr{
-																												pos: position{line: 2885, col: 13, offset: 91123},
+																												pos: position{line: 2885, col: 13, offset: 91124},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 13, offset: 91123},
+																														pos:        position{line: 2885, col: 13, offset: 91124},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 20, offset: 91130},
+																														pos:        position{line: 2885, col: 20, offset: 91131},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 29, offset: 91139},
+																														pos:        position{line: 2885, col: 29, offset: 91140},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -35653,9 +35653,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2895, col: 8, offset: 91299},
+																											pos: position{line: 2895, col: 8, offset: 91300},
 																											expr: &anyMatcher{
-																												line: 2895, col: 9, offset: 91300,
+																												line: 2895, col: 9, offset: 91301,
 																											},
 																										},
 																									},
@@ -35663,59 +35663,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2895, col: 8, offset: 91299},
+																							pos: position{line: 2895, col: 8, offset: 91300},
 																							expr: &anyMatcher{
-																								line: 2895, col: 9, offset: 91300,
+																								line: 2895, col: 9, offset: 91301,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2626, col: 5, offset: 83781},
+																				pos:   position{line: 2626, col: 5, offset: 83782},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2627, col: 9, offset: 83799},
+																					pos: position{line: 2627, col: 9, offset: 83800},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2627, col: 10, offset: 83800},
+																							pos: position{line: 2627, col: 10, offset: 83801},
 																							run: (*parser).callonListContinuationElement1383,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2627, col: 10, offset: 83800},
+																								pos:   position{line: 2627, col: 10, offset: 83801},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2627, col: 17, offset: 83807},
+																									pos: position{line: 2627, col: 17, offset: 83808},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2635, col: 21, offset: 84003},
+																											pos: position{line: 2635, col: 21, offset: 84004},
 																											run: (*parser).callonListContinuationElement1386,
 																											expr: &seqExpr{
-																												pos: position{line: 2635, col: 21, offset: 84003},
+																												pos: position{line: 2635, col: 21, offset: 84004},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2635, col: 21, offset: 84003},
+																														pos:   position{line: 2635, col: 21, offset: 84004},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2635, col: 27, offset: 84009},
+																															pos: position{line: 2635, col: 27, offset: 84010},
 																															expr: &actionExpr{
-																																pos: position{line: 2640, col: 5, offset: 84084},
+																																pos: position{line: 2640, col: 5, offset: 84085},
 																																run: (*parser).callonListContinuationElement1390,
 																																expr: &seqExpr{
-																																	pos: position{line: 2640, col: 5, offset: 84084},
+																																	pos: position{line: 2640, col: 5, offset: 84085},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2640, col: 5, offset: 84084},
+																																			pos:        position{line: 2640, col: 5, offset: 84085},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2640, col: 9, offset: 84088},
+																																			pos: position{line: 2640, col: 9, offset: 84089},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2876, col: 10, offset: 90951},
+																																				pos: position{line: 2876, col: 10, offset: 90952},
 																																				run: (*parser).callonListContinuationElement1394,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2876, col: 10, offset: 90951},
+																																					pos:        position{line: 2876, col: 10, offset: 90952},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -35724,21 +35724,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2640, col: 16, offset: 84095},
+																																			pos:   position{line: 2640, col: 16, offset: 84096},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2646, col: 5, offset: 84295},
+																																				pos: position{line: 2646, col: 5, offset: 84296},
 																																				run: (*parser).callonListContinuationElement1397,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2646, col: 5, offset: 84295},
+																																					pos:   position{line: 2646, col: 5, offset: 84296},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2646, col: 14, offset: 84304},
+																																						pos: position{line: 2646, col: 14, offset: 84305},
 																																						run: (*parser).callonListContinuationElement1399,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2646, col: 14, offset: 84304},
+																																							pos: position{line: 2646, col: 14, offset: 84305},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2646, col: 14, offset: 84304},
+																																								pos:        position{line: 2646, col: 14, offset: 84305},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -35755,28 +35755,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2898, col: 8, offset: 91349},
+																														pos: position{line: 2898, col: 8, offset: 91350},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2885, col: 12, offset: 91122},
+																																pos: position{line: 2885, col: 12, offset: 91123},
 																																run: (*parser).callonListContinuationElement1403,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2885, col: 13, offset: 91123},
+																																	pos: position{line: 2885, col: 13, offset: 91124},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2885, col: 13, offset: 91123},
+																																			pos:        position{line: 2885, col: 13, offset: 91124},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2885, col: 20, offset: 91130},
+																																			pos:        position{line: 2885, col: 20, offset: 91131},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2885, col: 29, offset: 91139},
+																																			pos:        position{line: 2885, col: 29, offset: 91140},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -35785,9 +35785,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2895, col: 8, offset: 91299},
+																																pos: position{line: 2895, col: 8, offset: 91300},
 																																expr: &anyMatcher{
-																																	line: 2895, col: 9, offset: 91300,
+																																	line: 2895, col: 9, offset: 91301,
 																																},
 																															},
 																														},
@@ -35796,40 +35796,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2652, col: 24, offset: 84440},
+																											pos: position{line: 2652, col: 24, offset: 84441},
 																											run: (*parser).callonListContinuationElement1410,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2652, col: 24, offset: 84440},
+																												pos:   position{line: 2652, col: 24, offset: 84441},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2652, col: 30, offset: 84446},
+																													pos: position{line: 2652, col: 30, offset: 84447},
 																													expr: &actionExpr{
-																														pos: position{line: 2657, col: 5, offset: 84522},
+																														pos: position{line: 2657, col: 5, offset: 84523},
 																														run: (*parser).callonListContinuationElement1413,
 																														expr: &seqExpr{
-																															pos: position{line: 2657, col: 5, offset: 84522},
+																															pos: position{line: 2657, col: 5, offset: 84523},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2657, col: 5, offset: 84522},
+																																	pos: position{line: 2657, col: 5, offset: 84523},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2622, col: 22, offset: 83719},
+																																		pos: position{line: 2622, col: 22, offset: 83720},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2618, col: 19, offset: 83639},
+																																				pos: position{line: 2618, col: 19, offset: 83640},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2618, col: 19, offset: 83639},
+																																						pos:        position{line: 2618, col: 19, offset: 83640},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2618, col: 26, offset: 83646},
+																																						pos: position{line: 2618, col: 26, offset: 83647},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2876, col: 10, offset: 90951},
+																																							pos: position{line: 2876, col: 10, offset: 90952},
 																																							run: (*parser).callonListContinuationElement1420,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2876, col: 10, offset: 90951},
+																																								pos:        position{line: 2876, col: 10, offset: 90952},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -35838,28 +35838,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2898, col: 8, offset: 91349},
+																																						pos: position{line: 2898, col: 8, offset: 91350},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2885, col: 12, offset: 91122},
+																																								pos: position{line: 2885, col: 12, offset: 91123},
 																																								run: (*parser).callonListContinuationElement1423,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2885, col: 13, offset: 91123},
+																																									pos: position{line: 2885, col: 13, offset: 91124},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2885, col: 13, offset: 91123},
+																																											pos:        position{line: 2885, col: 13, offset: 91124},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2885, col: 20, offset: 91130},
+																																											pos:        position{line: 2885, col: 20, offset: 91131},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2885, col: 29, offset: 91139},
+																																											pos:        position{line: 2885, col: 29, offset: 91140},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -35868,9 +35868,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2895, col: 8, offset: 91299},
+																																								pos: position{line: 2895, col: 8, offset: 91300},
 																																								expr: &anyMatcher{
-																																									line: 2895, col: 9, offset: 91300,
+																																									line: 2895, col: 9, offset: 91301,
 																																								},
 																																							},
 																																						},
@@ -35878,35 +35878,35 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2895, col: 8, offset: 91299},
+																																				pos: position{line: 2895, col: 8, offset: 91300},
 																																				expr: &anyMatcher{
-																																					line: 2895, col: 9, offset: 91300,
+																																					line: 2895, col: 9, offset: 91301,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2658, col: 5, offset: 84545},
+																																	pos: position{line: 2658, col: 5, offset: 84546},
 																																	expr: &actionExpr{
-																																		pos: position{line: 677, col: 14, offset: 21557},
+																																		pos: position{line: 677, col: 14, offset: 21558},
 																																		run: (*parser).callonListContinuationElement1433,
 																																		expr: &seqExpr{
-																																			pos: position{line: 677, col: 14, offset: 21557},
+																																			pos: position{line: 677, col: 14, offset: 21558},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2893, col: 11, offset: 91285},
+																																					pos: position{line: 2893, col: 11, offset: 91286},
 																																					expr: &anyMatcher{
-																																						line: 2893, col: 13, offset: 91287,
+																																						line: 2893, col: 13, offset: 91288,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
-																																					pos: position{line: 677, col: 21, offset: 21564},
+																																					pos: position{line: 677, col: 21, offset: 21565},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2876, col: 10, offset: 90951},
+																																						pos: position{line: 2876, col: 10, offset: 90952},
 																																						run: (*parser).callonListContinuationElement1438,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2876, col: 10, offset: 90951},
+																																							pos:        position{line: 2876, col: 10, offset: 90952},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -35915,28 +35915,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2898, col: 8, offset: 91349},
+																																					pos: position{line: 2898, col: 8, offset: 91350},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2885, col: 12, offset: 91122},
+																																							pos: position{line: 2885, col: 12, offset: 91123},
 																																							run: (*parser).callonListContinuationElement1441,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2885, col: 13, offset: 91123},
+																																								pos: position{line: 2885, col: 13, offset: 91124},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2885, col: 13, offset: 91123},
+																																										pos:        position{line: 2885, col: 13, offset: 91124},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2885, col: 20, offset: 91130},
+																																										pos:        position{line: 2885, col: 20, offset: 91131},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2885, col: 29, offset: 91139},
+																																										pos:        position{line: 2885, col: 29, offset: 91140},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -35945,9 +35945,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2895, col: 8, offset: 91299},
+																																							pos: position{line: 2895, col: 8, offset: 91300},
 																																							expr: &anyMatcher{
-																																								line: 2895, col: 9, offset: 91300,
+																																								line: 2895, col: 9, offset: 91301,
 																																							},
 																																						},
 																																					},
@@ -35957,17 +35957,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2659, col: 5, offset: 84560},
+																																	pos:   position{line: 2659, col: 5, offset: 84561},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2659, col: 12, offset: 84567},
+																																		pos: position{line: 2659, col: 12, offset: 84568},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2676, col: 20, offset: 85031},
+																																			pos: position{line: 2676, col: 20, offset: 85032},
 																																			run: (*parser).callonListContinuationElement1450,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2676, col: 20, offset: 85031},
+																																				pos: position{line: 2676, col: 20, offset: 85032},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2676, col: 20, offset: 85031},
+																																					pos:        position{line: 2676, col: 20, offset: 85032},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -35978,18 +35978,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2659, col: 31, offset: 84586},
+																																	pos:        position{line: 2659, col: 31, offset: 84587},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2659, col: 35, offset: 84590},
+																																	pos: position{line: 2659, col: 35, offset: 84591},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2876, col: 10, offset: 90951},
+																																		pos: position{line: 2876, col: 10, offset: 90952},
 																																		run: (*parser).callonListContinuationElement1455,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2876, col: 10, offset: 90951},
+																																			pos:        position{line: 2876, col: 10, offset: 90952},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -35998,27 +35998,27 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2659, col: 42, offset: 84597},
+																																	pos: position{line: 2659, col: 42, offset: 84598},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2885, col: 12, offset: 91122},
+																																		pos: position{line: 2885, col: 12, offset: 91123},
 																																		run: (*parser).callonListContinuationElement1458,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2885, col: 13, offset: 91123},
+																																			pos: position{line: 2885, col: 13, offset: 91124},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2885, col: 13, offset: 91123},
+																																					pos:        position{line: 2885, col: 13, offset: 91124},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2885, col: 20, offset: 91130},
+																																					pos:        position{line: 2885, col: 20, offset: 91131},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2885, col: 29, offset: 91139},
+																																					pos:        position{line: 2885, col: 29, offset: 91140},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -36028,37 +36028,37 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2659, col: 51, offset: 84606},
+																																	pos:   position{line: 2659, col: 51, offset: 84607},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2665, col: 5, offset: 84765},
+																																		pos: position{line: 2665, col: 5, offset: 84766},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2666, col: 9, offset: 84775},
+																																			pos: position{line: 2666, col: 9, offset: 84776},
 																																			run: (*parser).callonListContinuationElement1465,
 																																			expr: &seqExpr{
-																																				pos: position{line: 2666, col: 9, offset: 84775},
+																																				pos: position{line: 2666, col: 9, offset: 84776},
 																																				exprs: []interface{}{
 																																					&notExpr{
-																																						pos: position{line: 2666, col: 9, offset: 84775},
+																																						pos: position{line: 2666, col: 9, offset: 84776},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2622, col: 22, offset: 83719},
+																																							pos: position{line: 2622, col: 22, offset: 83720},
 																																							alternatives: []interface{}{
 																																								&seqExpr{
-																																									pos: position{line: 2618, col: 19, offset: 83639},
+																																									pos: position{line: 2618, col: 19, offset: 83640},
 																																									exprs: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2618, col: 19, offset: 83639},
+																																											pos:        position{line: 2618, col: 19, offset: 83640},
 																																											val:        "|===",
 																																											ignoreCase: false,
 																																											want:       "\"|===\"",
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 2618, col: 26, offset: 83646},
+																																											pos: position{line: 2618, col: 26, offset: 83647},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2876, col: 10, offset: 90951},
+																																												pos: position{line: 2876, col: 10, offset: 90952},
 																																												run: (*parser).callonListContinuationElement1472,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2876, col: 10, offset: 90951},
+																																													pos:        position{line: 2876, col: 10, offset: 90952},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -36067,28 +36067,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2898, col: 8, offset: 91349},
+																																											pos: position{line: 2898, col: 8, offset: 91350},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2885, col: 12, offset: 91122},
+																																													pos: position{line: 2885, col: 12, offset: 91123},
 																																													run: (*parser).callonListContinuationElement1475,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2885, col: 13, offset: 91123},
+																																														pos: position{line: 2885, col: 13, offset: 91124},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2885, col: 13, offset: 91123},
+																																																pos:        position{line: 2885, col: 13, offset: 91124},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2885, col: 20, offset: 91130},
+																																																pos:        position{line: 2885, col: 20, offset: 91131},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2885, col: 29, offset: 91139},
+																																																pos:        position{line: 2885, col: 29, offset: 91140},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -36097,9 +36097,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2895, col: 8, offset: 91299},
+																																													pos: position{line: 2895, col: 8, offset: 91300},
 																																													expr: &anyMatcher{
-																																														line: 2895, col: 9, offset: 91300,
+																																														line: 2895, col: 9, offset: 91301,
 																																													},
 																																												},
 																																											},
@@ -36107,35 +36107,35 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2895, col: 8, offset: 91299},
+																																									pos: position{line: 2895, col: 8, offset: 91300},
 																																									expr: &anyMatcher{
-																																										line: 2895, col: 9, offset: 91300,
+																																										line: 2895, col: 9, offset: 91301,
 																																									},
 																																								},
 																																							},
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2667, col: 9, offset: 84802},
+																																						pos: position{line: 2667, col: 9, offset: 84803},
 																																						expr: &actionExpr{
-																																							pos: position{line: 677, col: 14, offset: 21557},
+																																							pos: position{line: 677, col: 14, offset: 21558},
 																																							run: (*parser).callonListContinuationElement1485,
 																																							expr: &seqExpr{
-																																								pos: position{line: 677, col: 14, offset: 21557},
+																																								pos: position{line: 677, col: 14, offset: 21558},
 																																								exprs: []interface{}{
 																																									&andExpr{
-																																										pos: position{line: 2893, col: 11, offset: 91285},
+																																										pos: position{line: 2893, col: 11, offset: 91286},
 																																										expr: &anyMatcher{
-																																											line: 2893, col: 13, offset: 91287,
+																																											line: 2893, col: 13, offset: 91288,
 																																										},
 																																									},
 																																									&zeroOrMoreExpr{
-																																										pos: position{line: 677, col: 21, offset: 21564},
+																																										pos: position{line: 677, col: 21, offset: 21565},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2876, col: 10, offset: 90951},
+																																											pos: position{line: 2876, col: 10, offset: 90952},
 																																											run: (*parser).callonListContinuationElement1490,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2876, col: 10, offset: 90951},
+																																												pos:        position{line: 2876, col: 10, offset: 90952},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -36144,28 +36144,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2898, col: 8, offset: 91349},
+																																										pos: position{line: 2898, col: 8, offset: 91350},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2885, col: 12, offset: 91122},
+																																												pos: position{line: 2885, col: 12, offset: 91123},
 																																												run: (*parser).callonListContinuationElement1493,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2885, col: 13, offset: 91123},
+																																													pos: position{line: 2885, col: 13, offset: 91124},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2885, col: 13, offset: 91123},
+																																															pos:        position{line: 2885, col: 13, offset: 91124},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2885, col: 20, offset: 91130},
+																																															pos:        position{line: 2885, col: 20, offset: 91131},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2885, col: 29, offset: 91139},
+																																															pos:        position{line: 2885, col: 29, offset: 91140},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -36174,9 +36174,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2895, col: 8, offset: 91299},
+																																												pos: position{line: 2895, col: 8, offset: 91300},
 																																												expr: &anyMatcher{
-																																													line: 2895, col: 9, offset: 91300,
+																																													line: 2895, col: 9, offset: 91301,
 																																												},
 																																											},
 																																										},
@@ -36186,22 +36186,22 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2668, col: 9, offset: 84821},
+																																						pos: position{line: 2668, col: 9, offset: 84822},
 																																						expr: &seqExpr{
-																																							pos: position{line: 2668, col: 11, offset: 84823},
+																																							pos: position{line: 2668, col: 11, offset: 84824},
 																																							exprs: []interface{}{
 																																								&labeledExpr{
-																																									pos:   position{line: 2668, col: 11, offset: 84823},
+																																									pos:   position{line: 2668, col: 11, offset: 84824},
 																																									label: "format",
 																																									expr: &zeroOrOneExpr{
-																																										pos: position{line: 2668, col: 18, offset: 84830},
+																																										pos: position{line: 2668, col: 18, offset: 84831},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2676, col: 20, offset: 85031},
+																																											pos: position{line: 2676, col: 20, offset: 85032},
 																																											run: (*parser).callonListContinuationElement1504,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2676, col: 20, offset: 85031},
+																																												pos: position{line: 2676, col: 20, offset: 85032},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2676, col: 20, offset: 85031},
+																																													pos:        position{line: 2676, col: 20, offset: 85032},
 																																													val:        "[^ |\\r\\n]",
 																																													chars:      []rune{' ', '|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -36212,7 +36212,7 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&litMatcher{
-																																									pos:        position{line: 2668, col: 37, offset: 84849},
+																																									pos:        position{line: 2668, col: 37, offset: 84850},
 																																									val:        "|",
 																																									ignoreCase: false,
 																																									want:       "\"|\"",
@@ -36221,15 +36221,15 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2669, col: 9, offset: 84862},
+																																						pos:   position{line: 2669, col: 9, offset: 84863},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2669, col: 18, offset: 84871},
+																																							pos: position{line: 2669, col: 18, offset: 84872},
 																																							run: (*parser).callonListContinuationElement1509,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2669, col: 18, offset: 84871},
+																																								pos: position{line: 2669, col: 18, offset: 84872},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2669, col: 18, offset: 84871},
+																																									pos:        position{line: 2669, col: 18, offset: 84872},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -36239,30 +36239,30 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&zeroOrOneExpr{
-																																						pos: position{line: 2671, col: 12, offset: 84933},
+																																						pos: position{line: 2671, col: 12, offset: 84934},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2898, col: 8, offset: 91349},
+																																							pos: position{line: 2898, col: 8, offset: 91350},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2885, col: 12, offset: 91122},
+																																									pos: position{line: 2885, col: 12, offset: 91123},
 																																									run: (*parser).callonListContinuationElement1514,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2885, col: 13, offset: 91123},
+																																										pos: position{line: 2885, col: 13, offset: 91124},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2885, col: 13, offset: 91123},
+																																												pos:        position{line: 2885, col: 13, offset: 91124},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2885, col: 20, offset: 91130},
+																																												pos:        position{line: 2885, col: 20, offset: 91131},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2885, col: 29, offset: 91139},
+																																												pos:        position{line: 2885, col: 29, offset: 91140},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -36271,9 +36271,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2895, col: 8, offset: 91299},
+																																									pos: position{line: 2895, col: 8, offset: 91300},
 																																									expr: &anyMatcher{
-																																										line: 2895, col: 9, offset: 91300,
+																																										line: 2895, col: 9, offset: 91301,
 																																									},
 																																								},
 																																							},
@@ -36295,24 +36295,24 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 677, col: 14, offset: 21557},
+																							pos: position{line: 677, col: 14, offset: 21558},
 																							run: (*parser).callonListContinuationElement1521,
 																							expr: &seqExpr{
-																								pos: position{line: 677, col: 14, offset: 21557},
+																								pos: position{line: 677, col: 14, offset: 21558},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2893, col: 11, offset: 91285},
+																										pos: position{line: 2893, col: 11, offset: 91286},
 																										expr: &anyMatcher{
-																											line: 2893, col: 13, offset: 91287,
+																											line: 2893, col: 13, offset: 91288,
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 677, col: 21, offset: 21564},
+																										pos: position{line: 677, col: 21, offset: 21565},
 																										expr: &actionExpr{
-																											pos: position{line: 2876, col: 10, offset: 90951},
+																											pos: position{line: 2876, col: 10, offset: 90952},
 																											run: (*parser).callonListContinuationElement1526,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2876, col: 10, offset: 90951},
+																												pos:        position{line: 2876, col: 10, offset: 90952},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -36321,28 +36321,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2898, col: 8, offset: 91349},
+																										pos: position{line: 2898, col: 8, offset: 91350},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2885, col: 12, offset: 91122},
+																												pos: position{line: 2885, col: 12, offset: 91123},
 																												run: (*parser).callonListContinuationElement1529,
 																												expr: &choiceExpr{
-																													pos: position{line: 2885, col: 13, offset: 91123},
+																													pos: position{line: 2885, col: 13, offset: 91124},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2885, col: 13, offset: 91123},
+																															pos:        position{line: 2885, col: 13, offset: 91124},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2885, col: 20, offset: 91130},
+																															pos:        position{line: 2885, col: 20, offset: 91131},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2885, col: 29, offset: 91139},
+																															pos:        position{line: 2885, col: 29, offset: 91140},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -36351,9 +36351,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2895, col: 8, offset: 91299},
+																												pos: position{line: 2895, col: 8, offset: 91300},
 																												expr: &anyMatcher{
-																													line: 2895, col: 9, offset: 91300,
+																													line: 2895, col: 9, offset: 91301,
 																												},
 																											},
 																										},
@@ -36372,24 +36372,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2622, col: 22, offset: 83719},
+													pos: position{line: 2622, col: 22, offset: 83720},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2618, col: 19, offset: 83639},
+															pos: position{line: 2618, col: 19, offset: 83640},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2618, col: 19, offset: 83639},
+																	pos:        position{line: 2618, col: 19, offset: 83640},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2618, col: 26, offset: 83646},
+																	pos: position{line: 2618, col: 26, offset: 83647},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 90951},
+																		pos: position{line: 2876, col: 10, offset: 90952},
 																		run: (*parser).callonListContinuationElement1540,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 90951},
+																			pos:        position{line: 2876, col: 10, offset: 90952},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -36398,28 +36398,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91349},
+																	pos: position{line: 2898, col: 8, offset: 91350},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91122},
+																			pos: position{line: 2885, col: 12, offset: 91123},
 																			run: (*parser).callonListContinuationElement1543,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91123},
+																				pos: position{line: 2885, col: 13, offset: 91124},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91123},
+																						pos:        position{line: 2885, col: 13, offset: 91124},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91130},
+																						pos:        position{line: 2885, col: 20, offset: 91131},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91139},
+																						pos:        position{line: 2885, col: 29, offset: 91140},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36428,9 +36428,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91299},
+																			pos: position{line: 2895, col: 8, offset: 91300},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91300,
+																				line: 2895, col: 9, offset: 91301,
 																			},
 																		},
 																	},
@@ -36438,9 +36438,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2895, col: 8, offset: 91299},
+															pos: position{line: 2895, col: 8, offset: 91300},
 															expr: &anyMatcher{
-																line: 2895, col: 9, offset: 91300,
+																line: 2895, col: 9, offset: 91301,
 															},
 														},
 													},
@@ -36449,36 +36449,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2483, col: 22, offset: 79858},
+										pos: position{line: 2483, col: 22, offset: 79859},
 										run: (*parser).callonListContinuationElement1552,
 										expr: &seqExpr{
-											pos: position{line: 2483, col: 22, offset: 79858},
+											pos: position{line: 2483, col: 22, offset: 79859},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2488, col: 31, offset: 80079},
+													pos:        position{line: 2488, col: 31, offset: 80080},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2488, col: 36, offset: 80084},
+													pos: position{line: 2488, col: 36, offset: 80085},
 													expr: &litMatcher{
-														pos:        position{line: 2488, col: 37, offset: 80085},
+														pos:        position{line: 2488, col: 37, offset: 80086},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2483, col: 49, offset: 79885},
+													pos:   position{line: 2483, col: 49, offset: 79886},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2822, col: 13, offset: 89477},
+														pos: position{line: 2822, col: 13, offset: 89478},
 														run: (*parser).callonListContinuationElement1558,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2822, col: 13, offset: 89477},
+															pos: position{line: 2822, col: 13, offset: 89478},
 															expr: &charClassMatcher{
-																pos:        position{line: 2822, col: 13, offset: 89477},
+																pos:        position{line: 2822, col: 13, offset: 89478},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -36488,28 +36488,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2898, col: 8, offset: 91349},
+													pos: position{line: 2898, col: 8, offset: 91350},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91122},
+															pos: position{line: 2885, col: 12, offset: 91123},
 															run: (*parser).callonListContinuationElement1562,
 															expr: &choiceExpr{
-																pos: position{line: 2885, col: 13, offset: 91123},
+																pos: position{line: 2885, col: 13, offset: 91124},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 13, offset: 91123},
+																		pos:        position{line: 2885, col: 13, offset: 91124},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 20, offset: 91130},
+																		pos:        position{line: 2885, col: 20, offset: 91131},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 29, offset: 91139},
+																		pos:        position{line: 2885, col: 29, offset: 91140},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36518,9 +36518,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2895, col: 8, offset: 91299},
+															pos: position{line: 2895, col: 8, offset: 91300},
 															expr: &anyMatcher{
-																line: 2895, col: 9, offset: 91300,
+																line: 2895, col: 9, offset: 91301,
 															},
 														},
 													},
@@ -36529,94 +36529,94 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1571, col: 5, offset: 50821},
+										pos: position{line: 1571, col: 5, offset: 50822},
 										run: (*parser).callonListContinuationElement1569,
 										expr: &seqExpr{
-											pos: position{line: 1571, col: 5, offset: 50821},
+											pos: position{line: 1571, col: 5, offset: 50822},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1571, col: 5, offset: 50821},
+													pos:   position{line: 1571, col: 5, offset: 50822},
 													label: "style",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1571, col: 11, offset: 50827},
+														pos: position{line: 1571, col: 11, offset: 50828},
 														expr: &actionExpr{
-															pos: position{line: 1736, col: 5, offset: 56176},
+															pos: position{line: 1736, col: 5, offset: 56177},
 															run: (*parser).callonListContinuationElement1573,
 															expr: &seqExpr{
-																pos: position{line: 1736, col: 5, offset: 56176},
+																pos: position{line: 1736, col: 5, offset: 56177},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1736, col: 5, offset: 56176},
+																		pos: position{line: 1736, col: 5, offset: 56177},
 																		run: (*parser).callonListContinuationElement1575,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1739, col: 5, offset: 56239},
+																		pos:   position{line: 1739, col: 5, offset: 56240},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1739, col: 12, offset: 56246},
+																			pos: position{line: 1739, col: 12, offset: 56247},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1739, col: 12, offset: 56246},
+																					pos: position{line: 1739, col: 12, offset: 56247},
 																					run: (*parser).callonListContinuationElement1578,
 																					expr: &litMatcher{
-																						pos:        position{line: 1739, col: 12, offset: 56246},
+																						pos:        position{line: 1739, col: 12, offset: 56247},
 																						val:        "TIP: ",
 																						ignoreCase: false,
 																						want:       "\"TIP: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1741, col: 13, offset: 56302},
+																					pos: position{line: 1741, col: 13, offset: 56303},
 																					run: (*parser).callonListContinuationElement1580,
 																					expr: &litMatcher{
-																						pos:        position{line: 1741, col: 13, offset: 56302},
+																						pos:        position{line: 1741, col: 13, offset: 56303},
 																						val:        "NOTE: ",
 																						ignoreCase: false,
 																						want:       "\"NOTE: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1743, col: 13, offset: 56360},
+																					pos: position{line: 1743, col: 13, offset: 56361},
 																					run: (*parser).callonListContinuationElement1582,
 																					expr: &litMatcher{
-																						pos:        position{line: 1743, col: 13, offset: 56360},
+																						pos:        position{line: 1743, col: 13, offset: 56361},
 																						val:        "IMPORTANT: ",
 																						ignoreCase: false,
 																						want:       "\"IMPORTANT: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1745, col: 13, offset: 56428},
+																					pos: position{line: 1745, col: 13, offset: 56429},
 																					run: (*parser).callonListContinuationElement1584,
 																					expr: &litMatcher{
-																						pos:        position{line: 1745, col: 13, offset: 56428},
+																						pos:        position{line: 1745, col: 13, offset: 56429},
 																						val:        "WARNING: ",
 																						ignoreCase: false,
 																						want:       "\"WARNING: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1747, col: 13, offset: 56492},
+																					pos: position{line: 1747, col: 13, offset: 56493},
 																					run: (*parser).callonListContinuationElement1586,
 																					expr: &litMatcher{
-																						pos:        position{line: 1747, col: 13, offset: 56492},
+																						pos:        position{line: 1747, col: 13, offset: 56493},
 																						val:        "CAUTION: ",
 																						ignoreCase: false,
 																						want:       "\"CAUTION: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1749, col: 13, offset: 56556},
+																					pos: position{line: 1749, col: 13, offset: 56557},
 																					run: (*parser).callonListContinuationElement1588,
 																					expr: &andExpr{
-																						pos: position{line: 1749, col: 13, offset: 56556},
+																						pos: position{line: 1749, col: 13, offset: 56557},
 																						expr: &actionExpr{
-																							pos: position{line: 2880, col: 11, offset: 91012},
+																							pos: position{line: 2880, col: 11, offset: 91013},
 																							run: (*parser).callonListContinuationElement1590,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2880, col: 11, offset: 91012},
+																								pos: position{line: 2880, col: 11, offset: 91013},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 11, offset: 91012},
+																									pos:        position{line: 2880, col: 11, offset: 91013},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36630,17 +36630,17 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1751, col: 12, offset: 56626},
+																		pos: position{line: 1751, col: 12, offset: 56627},
 																		expr: &seqExpr{
-																			pos: position{line: 1751, col: 14, offset: 56628},
+																			pos: position{line: 1751, col: 14, offset: 56629},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1751, col: 14, offset: 56628},
+																					pos: position{line: 1751, col: 14, offset: 56629},
 																					expr: &actionExpr{
-																						pos: position{line: 2876, col: 10, offset: 90951},
+																						pos: position{line: 2876, col: 10, offset: 90952},
 																						run: (*parser).callonListContinuationElement1596,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2876, col: 10, offset: 90951},
+																							pos:        position{line: 2876, col: 10, offset: 90952},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36649,28 +36649,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2898, col: 8, offset: 91349},
+																					pos: position{line: 2898, col: 8, offset: 91350},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2885, col: 12, offset: 91122},
+																							pos: position{line: 2885, col: 12, offset: 91123},
 																							run: (*parser).callonListContinuationElement1599,
 																							expr: &choiceExpr{
-																								pos: position{line: 2885, col: 13, offset: 91123},
+																								pos: position{line: 2885, col: 13, offset: 91124},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 13, offset: 91123},
+																										pos:        position{line: 2885, col: 13, offset: 91124},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 20, offset: 91130},
+																										pos:        position{line: 2885, col: 20, offset: 91131},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 29, offset: 91139},
+																										pos:        position{line: 2885, col: 29, offset: 91140},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -36679,9 +36679,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2895, col: 8, offset: 91299},
+																							pos: position{line: 2895, col: 8, offset: 91300},
 																							expr: &anyMatcher{
-																								line: 2895, col: 9, offset: 91300,
+																								line: 2895, col: 9, offset: 91301,
 																							},
 																						},
 																					},
@@ -36695,35 +36695,35 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1572, col: 5, offset: 50850},
+													pos:   position{line: 1572, col: 5, offset: 50851},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1515, col: 5, offset: 49200},
+														pos: position{line: 1515, col: 5, offset: 49201},
 														run: (*parser).callonListContinuationElement1607,
 														expr: &seqExpr{
-															pos: position{line: 1515, col: 5, offset: 49200},
+															pos: position{line: 1515, col: 5, offset: 49201},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1515, col: 5, offset: 49200},
+																	pos: position{line: 1515, col: 5, offset: 49201},
 																	expr: &actionExpr{
-																		pos: position{line: 677, col: 14, offset: 21557},
+																		pos: position{line: 677, col: 14, offset: 21558},
 																		run: (*parser).callonListContinuationElement1610,
 																		expr: &seqExpr{
-																			pos: position{line: 677, col: 14, offset: 21557},
+																			pos: position{line: 677, col: 14, offset: 21558},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2893, col: 11, offset: 91285},
+																					pos: position{line: 2893, col: 11, offset: 91286},
 																					expr: &anyMatcher{
-																						line: 2893, col: 13, offset: 91287,
+																						line: 2893, col: 13, offset: 91288,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 677, col: 21, offset: 21564},
+																					pos: position{line: 677, col: 21, offset: 21565},
 																					expr: &actionExpr{
-																						pos: position{line: 2876, col: 10, offset: 90951},
+																						pos: position{line: 2876, col: 10, offset: 90952},
 																						run: (*parser).callonListContinuationElement1615,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2876, col: 10, offset: 90951},
+																							pos:        position{line: 2876, col: 10, offset: 90952},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36732,28 +36732,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2898, col: 8, offset: 91349},
+																					pos: position{line: 2898, col: 8, offset: 91350},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2885, col: 12, offset: 91122},
+																							pos: position{line: 2885, col: 12, offset: 91123},
 																							run: (*parser).callonListContinuationElement1618,
 																							expr: &choiceExpr{
-																								pos: position{line: 2885, col: 13, offset: 91123},
+																								pos: position{line: 2885, col: 13, offset: 91124},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 13, offset: 91123},
+																										pos:        position{line: 2885, col: 13, offset: 91124},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 20, offset: 91130},
+																										pos:        position{line: 2885, col: 20, offset: 91131},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 29, offset: 91139},
+																										pos:        position{line: 2885, col: 29, offset: 91140},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -36762,9 +36762,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2895, col: 8, offset: 91299},
+																							pos: position{line: 2895, col: 8, offset: 91300},
 																							expr: &anyMatcher{
-																								line: 2895, col: 9, offset: 91300,
+																								line: 2895, col: 9, offset: 91301,
 																							},
 																						},
 																					},
@@ -36774,23 +36774,23 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1516, col: 5, offset: 49215},
+																	pos: position{line: 1516, col: 5, offset: 49216},
 																	expr: &seqExpr{
-																		pos: position{line: 1546, col: 27, offset: 50041},
+																		pos: position{line: 1546, col: 27, offset: 50042},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1546, col: 27, offset: 50041},
+																				pos:        position{line: 1546, col: 27, offset: 50042},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 1546, col: 31, offset: 50045},
+																				pos: position{line: 1546, col: 31, offset: 50046},
 																				expr: &actionExpr{
-																					pos: position{line: 2876, col: 10, offset: 90951},
+																					pos: position{line: 2876, col: 10, offset: 90952},
 																					run: (*parser).callonListContinuationElement1629,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2876, col: 10, offset: 90951},
+																						pos:        position{line: 2876, col: 10, offset: 90952},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -36799,25 +36799,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91122},
+																				pos: position{line: 2885, col: 12, offset: 91123},
 																				run: (*parser).callonListContinuationElement1631,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91123},
+																					pos: position{line: 2885, col: 13, offset: 91124},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91123},
+																							pos:        position{line: 2885, col: 13, offset: 91124},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91130},
+																							pos:        position{line: 2885, col: 20, offset: 91131},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91139},
+																							pos:        position{line: 2885, col: 29, offset: 91140},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -36829,20 +36829,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1517, col: 5, offset: 49243},
+																	pos: position{line: 1517, col: 5, offset: 49244},
 																	expr: &actionExpr{
-																		pos: position{line: 1587, col: 5, offset: 51260},
+																		pos: position{line: 1587, col: 5, offset: 51261},
 																		run: (*parser).callonListContinuationElement1637,
 																		expr: &seqExpr{
-																			pos: position{line: 1587, col: 5, offset: 51260},
+																			pos: position{line: 1587, col: 5, offset: 51261},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1587, col: 5, offset: 51260},
+																					pos: position{line: 1587, col: 5, offset: 51261},
 																					expr: &actionExpr{
-																						pos: position{line: 2876, col: 10, offset: 90951},
+																						pos: position{line: 2876, col: 10, offset: 90952},
 																						run: (*parser).callonListContinuationElement1640,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2876, col: 10, offset: 90951},
+																							pos:        position{line: 2876, col: 10, offset: 90952},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36851,27 +36851,27 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1587, col: 12, offset: 51267},
+																					pos:   position{line: 1587, col: 12, offset: 51268},
 																					label: "prefix",
 																					expr: &choiceExpr{
-																						pos: position{line: 1589, col: 9, offset: 51330},
+																						pos: position{line: 1589, col: 9, offset: 51331},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 1589, col: 9, offset: 51330},
+																								pos: position{line: 1589, col: 9, offset: 51331},
 																								run: (*parser).callonListContinuationElement1644,
 																								expr: &seqExpr{
-																									pos: position{line: 1589, col: 9, offset: 51330},
+																									pos: position{line: 1589, col: 9, offset: 51331},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 1589, col: 9, offset: 51330},
+																											pos:   position{line: 1589, col: 9, offset: 51331},
 																											label: "depth",
 																											expr: &actionExpr{
-																												pos: position{line: 1589, col: 16, offset: 51337},
+																												pos: position{line: 1589, col: 16, offset: 51338},
 																												run: (*parser).callonListContinuationElement1647,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1589, col: 16, offset: 51337},
+																													pos: position{line: 1589, col: 16, offset: 51338},
 																													expr: &litMatcher{
-																														pos:        position{line: 1589, col: 17, offset: 51338},
+																														pos:        position{line: 1589, col: 17, offset: 51339},
 																														val:        ".",
 																														ignoreCase: false,
 																														want:       "\".\"",
@@ -36880,22 +36880,22 @@ var g = &grammar{
 																											},
 																										},
 																										&andCodeExpr{
-																											pos: position{line: 1593, col: 9, offset: 51438},
+																											pos: position{line: 1593, col: 9, offset: 51439},
 																											run: (*parser).callonListContinuationElement1650,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1612, col: 11, offset: 52155},
+																								pos: position{line: 1612, col: 11, offset: 52156},
 																								run: (*parser).callonListContinuationElement1651,
 																								expr: &seqExpr{
-																									pos: position{line: 1612, col: 11, offset: 52155},
+																									pos: position{line: 1612, col: 11, offset: 52156},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1612, col: 11, offset: 52155},
+																											pos: position{line: 1612, col: 11, offset: 52156},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1612, col: 12, offset: 52156},
+																												pos:        position{line: 1612, col: 12, offset: 52157},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -36903,7 +36903,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1612, col: 20, offset: 52164},
+																											pos:        position{line: 1612, col: 20, offset: 52165},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -36912,20 +36912,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1614, col: 13, offset: 52281},
+																								pos: position{line: 1614, col: 13, offset: 52282},
 																								run: (*parser).callonListContinuationElement1656,
 																								expr: &seqExpr{
-																									pos: position{line: 1614, col: 13, offset: 52281},
+																									pos: position{line: 1614, col: 13, offset: 52282},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1614, col: 14, offset: 52282},
+																											pos:        position{line: 1614, col: 14, offset: 52283},
 																											val:        "[a-z]",
 																											ranges:     []rune{'a', 'z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1614, col: 21, offset: 52289},
+																											pos:        position{line: 1614, col: 21, offset: 52290},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -36934,20 +36934,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1616, col: 13, offset: 52409},
+																								pos: position{line: 1616, col: 13, offset: 52410},
 																								run: (*parser).callonListContinuationElement1660,
 																								expr: &seqExpr{
-																									pos: position{line: 1616, col: 13, offset: 52409},
+																									pos: position{line: 1616, col: 13, offset: 52410},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1616, col: 14, offset: 52410},
+																											pos:        position{line: 1616, col: 14, offset: 52411},
 																											val:        "[A-Z]",
 																											ranges:     []rune{'A', 'Z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1616, col: 21, offset: 52417},
+																											pos:        position{line: 1616, col: 21, offset: 52418},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -36956,15 +36956,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1618, col: 13, offset: 52537},
+																								pos: position{line: 1618, col: 13, offset: 52538},
 																								run: (*parser).callonListContinuationElement1664,
 																								expr: &seqExpr{
-																									pos: position{line: 1618, col: 13, offset: 52537},
+																									pos: position{line: 1618, col: 13, offset: 52538},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1618, col: 13, offset: 52537},
+																											pos: position{line: 1618, col: 13, offset: 52538},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1618, col: 14, offset: 52538},
+																												pos:        position{line: 1618, col: 14, offset: 52539},
 																												val:        "[ivxdlcm]",
 																												chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																												ignoreCase: false,
@@ -36972,7 +36972,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1618, col: 26, offset: 52550},
+																											pos:        position{line: 1618, col: 26, offset: 52551},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -36981,15 +36981,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1620, col: 13, offset: 52670},
+																								pos: position{line: 1620, col: 13, offset: 52671},
 																								run: (*parser).callonListContinuationElement1669,
 																								expr: &seqExpr{
-																									pos: position{line: 1620, col: 13, offset: 52670},
+																									pos: position{line: 1620, col: 13, offset: 52671},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1620, col: 13, offset: 52670},
+																											pos: position{line: 1620, col: 13, offset: 52671},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1620, col: 14, offset: 52671},
+																												pos:        position{line: 1620, col: 14, offset: 52672},
 																												val:        "[IVXDLCM]",
 																												chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																												ignoreCase: false,
@@ -36997,7 +36997,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1620, col: 26, offset: 52683},
+																											pos:        position{line: 1620, col: 26, offset: 52684},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -37009,12 +37009,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2880, col: 11, offset: 91012},
+																					pos: position{line: 2880, col: 11, offset: 91013},
 																					run: (*parser).callonListContinuationElement1674,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2880, col: 11, offset: 91012},
+																						pos: position{line: 2880, col: 11, offset: 91013},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2880, col: 11, offset: 91012},
+																							pos:        position{line: 2880, col: 11, offset: 91013},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37027,20 +37027,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1518, col: 5, offset: 49273},
+																	pos: position{line: 1518, col: 5, offset: 49274},
 																	expr: &actionExpr{
-																		pos: position{line: 1637, col: 5, offset: 53222},
+																		pos: position{line: 1637, col: 5, offset: 53223},
 																		run: (*parser).callonListContinuationElement1678,
 																		expr: &seqExpr{
-																			pos: position{line: 1637, col: 5, offset: 53222},
+																			pos: position{line: 1637, col: 5, offset: 53223},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1637, col: 5, offset: 53222},
+																					pos: position{line: 1637, col: 5, offset: 53223},
 																					expr: &actionExpr{
-																						pos: position{line: 2876, col: 10, offset: 90951},
+																						pos: position{line: 2876, col: 10, offset: 90952},
 																						run: (*parser).callonListContinuationElement1681,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2876, col: 10, offset: 90951},
+																							pos:        position{line: 2876, col: 10, offset: 90952},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37049,24 +37049,24 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1638, col: 5, offset: 53234},
+																					pos:   position{line: 1638, col: 5, offset: 53235},
 																					label: "style",
 																					expr: &actionExpr{
-																						pos: position{line: 1639, col: 9, offset: 53250},
+																						pos: position{line: 1639, col: 9, offset: 53251},
 																						run: (*parser).callonListContinuationElement1684,
 																						expr: &choiceExpr{
-																							pos: position{line: 1639, col: 10, offset: 53251},
+																							pos: position{line: 1639, col: 10, offset: 53252},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1639, col: 11, offset: 53252},
+																									pos:        position{line: 1639, col: 11, offset: 53253},
 																									val:        "-",
 																									ignoreCase: false,
 																									want:       "\"-\"",
 																								},
 																								&oneOrMoreExpr{
-																									pos: position{line: 1639, col: 18, offset: 53259},
+																									pos: position{line: 1639, col: 18, offset: 53260},
 																									expr: &litMatcher{
-																										pos:        position{line: 1639, col: 19, offset: 53260},
+																										pos:        position{line: 1639, col: 19, offset: 53261},
 																										val:        "*",
 																										ignoreCase: false,
 																										want:       "\"*\"",
@@ -37077,16 +37077,16 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1642, col: 7, offset: 53350},
+																					pos: position{line: 1642, col: 7, offset: 53351},
 																					run: (*parser).callonListContinuationElement1689,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2880, col: 11, offset: 91012},
+																					pos: position{line: 2880, col: 11, offset: 91013},
 																					run: (*parser).callonListContinuationElement1690,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2880, col: 11, offset: 91012},
+																						pos: position{line: 2880, col: 11, offset: 91013},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2880, col: 11, offset: 91012},
+																							pos:        position{line: 2880, col: 11, offset: 91013},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37099,29 +37099,29 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1519, col: 5, offset: 49305},
+																	pos: position{line: 1519, col: 5, offset: 49306},
 																	expr: &actionExpr{
-																		pos: position{line: 1727, col: 5, offset: 55791},
+																		pos: position{line: 1727, col: 5, offset: 55792},
 																		run: (*parser).callonListContinuationElement1694,
 																		expr: &seqExpr{
-																			pos: position{line: 1727, col: 5, offset: 55791},
+																			pos: position{line: 1727, col: 5, offset: 55792},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1727, col: 5, offset: 55791},
+																					pos:        position{line: 1727, col: 5, offset: 55792},
 																					val:        "<",
 																					ignoreCase: false,
 																					want:       "\"<\"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1727, col: 9, offset: 55795},
+																					pos:   position{line: 1727, col: 9, offset: 55796},
 																					label: "ref",
 																					expr: &actionExpr{
-																						pos: position{line: 1727, col: 14, offset: 55800},
+																						pos: position{line: 1727, col: 14, offset: 55801},
 																						run: (*parser).callonListContinuationElement1698,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 1727, col: 14, offset: 55800},
+																							pos: position{line: 1727, col: 14, offset: 55801},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1727, col: 14, offset: 55800},
+																								pos:        position{line: 1727, col: 14, offset: 55801},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -37131,18 +37131,18 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 1727, col: 62, offset: 55848},
+																					pos:        position{line: 1727, col: 62, offset: 55849},
 																					val:        ">",
 																					ignoreCase: false,
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2880, col: 11, offset: 91012},
+																					pos: position{line: 2880, col: 11, offset: 91013},
 																					run: (*parser).callonListContinuationElement1702,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2880, col: 11, offset: 91012},
+																						pos: position{line: 2880, col: 11, offset: 91013},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2880, col: 11, offset: 91012},
+																							pos:        position{line: 2880, col: 11, offset: 91013},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37155,31 +37155,31 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1520, col: 5, offset: 49335},
+																	pos: position{line: 1520, col: 5, offset: 49336},
 																	expr: &seqExpr{
-																		pos: position{line: 1520, col: 7, offset: 49337},
+																		pos: position{line: 1520, col: 7, offset: 49338},
 																		exprs: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1672, col: 5, offset: 54241},
+																				pos: position{line: 1672, col: 5, offset: 54242},
 																				run: (*parser).callonListContinuationElement1707,
 																				expr: &seqExpr{
-																					pos: position{line: 1672, col: 5, offset: 54241},
+																					pos: position{line: 1672, col: 5, offset: 54242},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1672, col: 5, offset: 54241},
+																							pos: position{line: 1672, col: 5, offset: 54242},
 																							expr: &seqExpr{
-																								pos: position{line: 2488, col: 31, offset: 80079},
+																								pos: position{line: 2488, col: 31, offset: 80080},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2488, col: 31, offset: 80079},
+																										pos:        position{line: 2488, col: 31, offset: 80080},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2488, col: 36, offset: 80084},
+																										pos: position{line: 2488, col: 36, offset: 80085},
 																										expr: &litMatcher{
-																											pos:        position{line: 2488, col: 37, offset: 80085},
+																											pos:        position{line: 2488, col: 37, offset: 80086},
 																											val:        "//",
 																											ignoreCase: false,
 																											want:       "\"//\"",
@@ -37189,28 +37189,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1673, col: 5, offset: 54273},
+																							pos: position{line: 1673, col: 5, offset: 54274},
 																							expr: &seqExpr{
-																								pos: position{line: 1673, col: 6, offset: 54274},
+																								pos: position{line: 1673, col: 6, offset: 54275},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1673, col: 6, offset: 54274},
+																										pos: position{line: 1673, col: 6, offset: 54275},
 																										expr: &actionExpr{
-																											pos: position{line: 1678, col: 5, offset: 54424},
+																											pos: position{line: 1678, col: 5, offset: 54425},
 																											run: (*parser).callonListContinuationElement1717,
 																											expr: &seqExpr{
-																												pos: position{line: 1678, col: 5, offset: 54424},
+																												pos: position{line: 1678, col: 5, offset: 54425},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1678, col: 5, offset: 54424},
+																														pos:   position{line: 1678, col: 5, offset: 54425},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1678, col: 16, offset: 54435},
+																															pos: position{line: 1678, col: 16, offset: 54436},
 																															run: (*parser).callonListContinuationElement1720,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1678, col: 16, offset: 54435},
+																																pos: position{line: 1678, col: 16, offset: 54436},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1678, col: 17, offset: 54436},
+																																	pos:        position{line: 1678, col: 17, offset: 54437},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -37219,7 +37219,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1681, col: 5, offset: 54493},
+																														pos: position{line: 1681, col: 5, offset: 54494},
 																														run: (*parser).callonListContinuationElement1723,
 																													},
 																												},
@@ -37227,30 +37227,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1673, col: 35, offset: 54303},
+																										pos: position{line: 1673, col: 35, offset: 54304},
 																										expr: &choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91349},
+																											pos: position{line: 2898, col: 8, offset: 91350},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91122},
+																													pos: position{line: 2885, col: 12, offset: 91123},
 																													run: (*parser).callonListContinuationElement1726,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91123},
+																														pos: position{line: 2885, col: 13, offset: 91124},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91123},
+																																pos:        position{line: 2885, col: 13, offset: 91124},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91130},
+																																pos:        position{line: 2885, col: 20, offset: 91131},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91139},
+																																pos:        position{line: 2885, col: 29, offset: 91140},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37259,16 +37259,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91299},
+																													pos: position{line: 2895, col: 8, offset: 91300},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91300,
+																														line: 2895, col: 9, offset: 91301,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1673, col: 40, offset: 54308,
+																										line: 1673, col: 40, offset: 54309,
 																									},
 																								},
 																							},
@@ -37277,21 +37277,21 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1678, col: 5, offset: 54424},
+																				pos: position{line: 1678, col: 5, offset: 54425},
 																				run: (*parser).callonListContinuationElement1734,
 																				expr: &seqExpr{
-																					pos: position{line: 1678, col: 5, offset: 54424},
+																					pos: position{line: 1678, col: 5, offset: 54425},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1678, col: 5, offset: 54424},
+																							pos:   position{line: 1678, col: 5, offset: 54425},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1678, col: 16, offset: 54435},
+																								pos: position{line: 1678, col: 16, offset: 54436},
 																								run: (*parser).callonListContinuationElement1737,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1678, col: 16, offset: 54435},
+																									pos: position{line: 1678, col: 16, offset: 54436},
 																									expr: &litMatcher{
-																										pos:        position{line: 1678, col: 17, offset: 54436},
+																										pos:        position{line: 1678, col: 17, offset: 54437},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -37300,7 +37300,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1681, col: 5, offset: 54493},
+																							pos: position{line: 1681, col: 5, offset: 54494},
 																							run: (*parser).callonListContinuationElement1740,
 																						},
 																					},
@@ -37310,17 +37310,17 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1521, col: 5, offset: 49393},
+																	pos: position{line: 1521, col: 5, offset: 49394},
 																	expr: &actionExpr{
-																		pos: position{line: 724, col: 5, offset: 23110},
+																		pos: position{line: 724, col: 5, offset: 23111},
 																		run: (*parser).callonListContinuationElement1742,
 																		expr: &seqExpr{
-																			pos: position{line: 724, col: 5, offset: 23110},
+																			pos: position{line: 724, col: 5, offset: 23111},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 724, col: 5, offset: 23110},
+																					pos: position{line: 724, col: 5, offset: 23111},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2766, col: 13, offset: 88046},
+																						pos:        position{line: 2766, col: 13, offset: 88047},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -37328,36 +37328,36 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 725, col: 5, offset: 23140},
+																					pos:   position{line: 725, col: 5, offset: 23141},
 																					label: "delimiter",
 																					expr: &choiceExpr{
-																						pos: position{line: 726, col: 9, offset: 23160},
+																						pos: position{line: 726, col: 9, offset: 23161},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 740, col: 5, offset: 23652},
+																								pos: position{line: 740, col: 5, offset: 23653},
 																								run: (*parser).callonListContinuationElement1748,
 																								expr: &seqExpr{
-																									pos: position{line: 740, col: 5, offset: 23652},
+																									pos: position{line: 740, col: 5, offset: 23653},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 740, col: 5, offset: 23652},
+																											pos:   position{line: 740, col: 5, offset: 23653},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 740, col: 16, offset: 23663},
+																												pos: position{line: 740, col: 16, offset: 23664},
 																												run: (*parser).callonListContinuationElement1751,
 																												expr: &seqExpr{
-																													pos: position{line: 740, col: 16, offset: 23663},
+																													pos: position{line: 740, col: 16, offset: 23664},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 740, col: 16, offset: 23663},
+																															pos:        position{line: 740, col: 16, offset: 23664},
 																															val:        "////",
 																															ignoreCase: false,
 																															want:       "\"////\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 740, col: 23, offset: 23670},
+																															pos: position{line: 740, col: 23, offset: 23671},
 																															expr: &litMatcher{
-																																pos:        position{line: 740, col: 23, offset: 23670},
+																																pos:        position{line: 740, col: 23, offset: 23671},
 																																val:        "/",
 																																ignoreCase: false,
 																																want:       "\"/\"",
@@ -37368,12 +37368,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 742, col: 8, offset: 23754},
+																											pos: position{line: 742, col: 8, offset: 23755},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 90951},
+																												pos: position{line: 2876, col: 10, offset: 90952},
 																												run: (*parser).callonListContinuationElement1757,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 90951},
+																													pos:        position{line: 2876, col: 10, offset: 90952},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37382,28 +37382,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91349},
+																											pos: position{line: 2898, col: 8, offset: 91350},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91122},
+																													pos: position{line: 2885, col: 12, offset: 91123},
 																													run: (*parser).callonListContinuationElement1760,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91123},
+																														pos: position{line: 2885, col: 13, offset: 91124},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91123},
+																																pos:        position{line: 2885, col: 13, offset: 91124},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91130},
+																																pos:        position{line: 2885, col: 20, offset: 91131},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91139},
+																																pos:        position{line: 2885, col: 29, offset: 91140},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37412,9 +37412,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91299},
+																													pos: position{line: 2895, col: 8, offset: 91300},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91300,
+																														line: 2895, col: 9, offset: 91301,
 																													},
 																												},
 																											},
@@ -37423,30 +37423,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 747, col: 5, offset: 23900},
+																								pos: position{line: 747, col: 5, offset: 23901},
 																								run: (*parser).callonListContinuationElement1767,
 																								expr: &seqExpr{
-																									pos: position{line: 747, col: 5, offset: 23900},
+																									pos: position{line: 747, col: 5, offset: 23901},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 747, col: 5, offset: 23900},
+																											pos:   position{line: 747, col: 5, offset: 23901},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 747, col: 16, offset: 23911},
+																												pos: position{line: 747, col: 16, offset: 23912},
 																												run: (*parser).callonListContinuationElement1770,
 																												expr: &seqExpr{
-																													pos: position{line: 747, col: 16, offset: 23911},
+																													pos: position{line: 747, col: 16, offset: 23912},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 747, col: 16, offset: 23911},
+																															pos:        position{line: 747, col: 16, offset: 23912},
 																															val:        "====",
 																															ignoreCase: false,
 																															want:       "\"====\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 747, col: 23, offset: 23918},
+																															pos: position{line: 747, col: 23, offset: 23919},
 																															expr: &litMatcher{
-																																pos:        position{line: 747, col: 23, offset: 23918},
+																																pos:        position{line: 747, col: 23, offset: 23919},
 																																val:        "=",
 																																ignoreCase: false,
 																																want:       "\"=\"",
@@ -37457,12 +37457,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 749, col: 8, offset: 24002},
+																											pos: position{line: 749, col: 8, offset: 24003},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 90951},
+																												pos: position{line: 2876, col: 10, offset: 90952},
 																												run: (*parser).callonListContinuationElement1776,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 90951},
+																													pos:        position{line: 2876, col: 10, offset: 90952},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37471,28 +37471,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91349},
+																											pos: position{line: 2898, col: 8, offset: 91350},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91122},
+																													pos: position{line: 2885, col: 12, offset: 91123},
 																													run: (*parser).callonListContinuationElement1779,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91123},
+																														pos: position{line: 2885, col: 13, offset: 91124},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91123},
+																																pos:        position{line: 2885, col: 13, offset: 91124},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91130},
+																																pos:        position{line: 2885, col: 20, offset: 91131},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91139},
+																																pos:        position{line: 2885, col: 29, offset: 91140},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37501,9 +37501,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91299},
+																													pos: position{line: 2895, col: 8, offset: 91300},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91300,
+																														line: 2895, col: 9, offset: 91301,
 																													},
 																												},
 																											},
@@ -37512,27 +37512,27 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 760, col: 26, offset: 24388},
+																								pos: position{line: 760, col: 26, offset: 24389},
 																								run: (*parser).callonListContinuationElement1786,
 																								expr: &seqExpr{
-																									pos: position{line: 760, col: 26, offset: 24388},
+																									pos: position{line: 760, col: 26, offset: 24389},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 760, col: 26, offset: 24388},
+																											pos:        position{line: 760, col: 26, offset: 24389},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 760, col: 32, offset: 24394},
+																											pos:   position{line: 760, col: 32, offset: 24395},
 																											label: "language",
 																											expr: &actionExpr{
-																												pos: position{line: 764, col: 13, offset: 24524},
+																												pos: position{line: 764, col: 13, offset: 24525},
 																												run: (*parser).callonListContinuationElement1790,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 764, col: 14, offset: 24525},
+																													pos: position{line: 764, col: 14, offset: 24526},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 764, col: 14, offset: 24525},
+																														pos:        position{line: 764, col: 14, offset: 24526},
 																														val:        "[^\\r\\n`\\t ]",
 																														chars:      []rune{'\r', '\n', '`', '\t', ' '},
 																														ignoreCase: false,
@@ -37542,12 +37542,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 760, col: 52, offset: 24414},
+																											pos: position{line: 760, col: 52, offset: 24415},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 90951},
+																												pos: position{line: 2876, col: 10, offset: 90952},
 																												run: (*parser).callonListContinuationElement1794,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 90951},
+																													pos:        position{line: 2876, col: 10, offset: 90952},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37556,28 +37556,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91349},
+																											pos: position{line: 2898, col: 8, offset: 91350},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91122},
+																													pos: position{line: 2885, col: 12, offset: 91123},
 																													run: (*parser).callonListContinuationElement1797,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91123},
+																														pos: position{line: 2885, col: 13, offset: 91124},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91123},
+																																pos:        position{line: 2885, col: 13, offset: 91124},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91130},
+																																pos:        position{line: 2885, col: 20, offset: 91131},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91139},
+																																pos:        position{line: 2885, col: 29, offset: 91140},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37586,9 +37586,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91299},
+																													pos: position{line: 2895, col: 8, offset: 91300},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91300,
+																														line: 2895, col: 9, offset: 91301,
 																													},
 																												},
 																											},
@@ -37597,30 +37597,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 754, col: 5, offset: 24147},
+																								pos: position{line: 754, col: 5, offset: 24148},
 																								run: (*parser).callonListContinuationElement1804,
 																								expr: &seqExpr{
-																									pos: position{line: 754, col: 5, offset: 24147},
+																									pos: position{line: 754, col: 5, offset: 24148},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 754, col: 5, offset: 24147},
+																											pos:   position{line: 754, col: 5, offset: 24148},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 754, col: 16, offset: 24158},
+																												pos: position{line: 754, col: 16, offset: 24159},
 																												run: (*parser).callonListContinuationElement1807,
 																												expr: &seqExpr{
-																													pos: position{line: 754, col: 16, offset: 24158},
+																													pos: position{line: 754, col: 16, offset: 24159},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 754, col: 16, offset: 24158},
+																															pos:        position{line: 754, col: 16, offset: 24159},
 																															val:        "```",
 																															ignoreCase: false,
 																															want:       "\"```\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 754, col: 22, offset: 24164},
+																															pos: position{line: 754, col: 22, offset: 24165},
 																															expr: &litMatcher{
-																																pos:        position{line: 754, col: 22, offset: 24164},
+																																pos:        position{line: 754, col: 22, offset: 24165},
 																																val:        "`",
 																																ignoreCase: false,
 																																want:       "\"`\"",
@@ -37631,12 +37631,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 756, col: 8, offset: 24248},
+																											pos: position{line: 756, col: 8, offset: 24249},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 90951},
+																												pos: position{line: 2876, col: 10, offset: 90952},
 																												run: (*parser).callonListContinuationElement1813,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 90951},
+																													pos:        position{line: 2876, col: 10, offset: 90952},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37645,28 +37645,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91349},
+																											pos: position{line: 2898, col: 8, offset: 91350},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91122},
+																													pos: position{line: 2885, col: 12, offset: 91123},
 																													run: (*parser).callonListContinuationElement1816,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91123},
+																														pos: position{line: 2885, col: 13, offset: 91124},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91123},
+																																pos:        position{line: 2885, col: 13, offset: 91124},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91130},
+																																pos:        position{line: 2885, col: 20, offset: 91131},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91139},
+																																pos:        position{line: 2885, col: 29, offset: 91140},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37675,9 +37675,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91299},
+																													pos: position{line: 2895, col: 8, offset: 91300},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91300,
+																														line: 2895, col: 9, offset: 91301,
 																													},
 																												},
 																											},
@@ -37686,30 +37686,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 769, col: 5, offset: 24689},
+																								pos: position{line: 769, col: 5, offset: 24690},
 																								run: (*parser).callonListContinuationElement1823,
 																								expr: &seqExpr{
-																									pos: position{line: 769, col: 5, offset: 24689},
+																									pos: position{line: 769, col: 5, offset: 24690},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 769, col: 5, offset: 24689},
+																											pos:   position{line: 769, col: 5, offset: 24690},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 769, col: 16, offset: 24700},
+																												pos: position{line: 769, col: 16, offset: 24701},
 																												run: (*parser).callonListContinuationElement1826,
 																												expr: &seqExpr{
-																													pos: position{line: 769, col: 16, offset: 24700},
+																													pos: position{line: 769, col: 16, offset: 24701},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 769, col: 16, offset: 24700},
+																															pos:        position{line: 769, col: 16, offset: 24701},
 																															val:        "----",
 																															ignoreCase: false,
 																															want:       "\"----\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 769, col: 23, offset: 24707},
+																															pos: position{line: 769, col: 23, offset: 24708},
 																															expr: &litMatcher{
-																																pos:        position{line: 769, col: 23, offset: 24707},
+																																pos:        position{line: 769, col: 23, offset: 24708},
 																																val:        "-",
 																																ignoreCase: false,
 																																want:       "\"-\"",
@@ -37720,12 +37720,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 771, col: 8, offset: 24791},
+																											pos: position{line: 771, col: 8, offset: 24792},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 90951},
+																												pos: position{line: 2876, col: 10, offset: 90952},
 																												run: (*parser).callonListContinuationElement1832,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 90951},
+																													pos:        position{line: 2876, col: 10, offset: 90952},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37734,28 +37734,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91349},
+																											pos: position{line: 2898, col: 8, offset: 91350},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91122},
+																													pos: position{line: 2885, col: 12, offset: 91123},
 																													run: (*parser).callonListContinuationElement1835,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91123},
+																														pos: position{line: 2885, col: 13, offset: 91124},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91123},
+																																pos:        position{line: 2885, col: 13, offset: 91124},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91130},
+																																pos:        position{line: 2885, col: 20, offset: 91131},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91139},
+																																pos:        position{line: 2885, col: 29, offset: 91140},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37764,9 +37764,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91299},
+																													pos: position{line: 2895, col: 8, offset: 91300},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91300,
+																														line: 2895, col: 9, offset: 91301,
 																													},
 																												},
 																											},
@@ -37775,30 +37775,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 783, col: 5, offset: 25165},
+																								pos: position{line: 783, col: 5, offset: 25166},
 																								run: (*parser).callonListContinuationElement1842,
 																								expr: &seqExpr{
-																									pos: position{line: 783, col: 5, offset: 25165},
+																									pos: position{line: 783, col: 5, offset: 25166},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 783, col: 5, offset: 25165},
+																											pos:   position{line: 783, col: 5, offset: 25166},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 783, col: 16, offset: 25176},
+																												pos: position{line: 783, col: 16, offset: 25177},
 																												run: (*parser).callonListContinuationElement1845,
 																												expr: &seqExpr{
-																													pos: position{line: 783, col: 16, offset: 25176},
+																													pos: position{line: 783, col: 16, offset: 25177},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 783, col: 16, offset: 25176},
+																															pos:        position{line: 783, col: 16, offset: 25177},
 																															val:        "....",
 																															ignoreCase: false,
 																															want:       "\"....\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 783, col: 23, offset: 25183},
+																															pos: position{line: 783, col: 23, offset: 25184},
 																															expr: &litMatcher{
-																																pos:        position{line: 783, col: 23, offset: 25183},
+																																pos:        position{line: 783, col: 23, offset: 25184},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -37809,12 +37809,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 785, col: 8, offset: 25267},
+																											pos: position{line: 785, col: 8, offset: 25268},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 90951},
+																												pos: position{line: 2876, col: 10, offset: 90952},
 																												run: (*parser).callonListContinuationElement1851,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 90951},
+																													pos:        position{line: 2876, col: 10, offset: 90952},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37823,28 +37823,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91349},
+																											pos: position{line: 2898, col: 8, offset: 91350},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91122},
+																													pos: position{line: 2885, col: 12, offset: 91123},
 																													run: (*parser).callonListContinuationElement1854,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91123},
+																														pos: position{line: 2885, col: 13, offset: 91124},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91123},
+																																pos:        position{line: 2885, col: 13, offset: 91124},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91130},
+																																pos:        position{line: 2885, col: 20, offset: 91131},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91139},
+																																pos:        position{line: 2885, col: 29, offset: 91140},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37853,9 +37853,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91299},
+																													pos: position{line: 2895, col: 8, offset: 91300},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91300,
+																														line: 2895, col: 9, offset: 91301,
 																													},
 																												},
 																											},
@@ -37864,30 +37864,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 790, col: 5, offset: 25417},
+																								pos: position{line: 790, col: 5, offset: 25418},
 																								run: (*parser).callonListContinuationElement1861,
 																								expr: &seqExpr{
-																									pos: position{line: 790, col: 5, offset: 25417},
+																									pos: position{line: 790, col: 5, offset: 25418},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 790, col: 5, offset: 25417},
+																											pos:   position{line: 790, col: 5, offset: 25418},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 790, col: 16, offset: 25428},
+																												pos: position{line: 790, col: 16, offset: 25429},
 																												run: (*parser).callonListContinuationElement1864,
 																												expr: &seqExpr{
-																													pos: position{line: 790, col: 16, offset: 25428},
+																													pos: position{line: 790, col: 16, offset: 25429},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 790, col: 16, offset: 25428},
+																															pos:        position{line: 790, col: 16, offset: 25429},
 																															val:        "++++",
 																															ignoreCase: false,
 																															want:       "\"++++\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 790, col: 23, offset: 25435},
+																															pos: position{line: 790, col: 23, offset: 25436},
 																															expr: &litMatcher{
-																																pos:        position{line: 790, col: 23, offset: 25435},
+																																pos:        position{line: 790, col: 23, offset: 25436},
 																																val:        "+",
 																																ignoreCase: false,
 																																want:       "\"+\"",
@@ -37898,12 +37898,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 792, col: 8, offset: 25519},
+																											pos: position{line: 792, col: 8, offset: 25520},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 90951},
+																												pos: position{line: 2876, col: 10, offset: 90952},
 																												run: (*parser).callonListContinuationElement1870,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 90951},
+																													pos:        position{line: 2876, col: 10, offset: 90952},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37912,28 +37912,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91349},
+																											pos: position{line: 2898, col: 8, offset: 91350},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91122},
+																													pos: position{line: 2885, col: 12, offset: 91123},
 																													run: (*parser).callonListContinuationElement1873,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91123},
+																														pos: position{line: 2885, col: 13, offset: 91124},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91123},
+																																pos:        position{line: 2885, col: 13, offset: 91124},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91130},
+																																pos:        position{line: 2885, col: 20, offset: 91131},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91139},
+																																pos:        position{line: 2885, col: 29, offset: 91140},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37942,9 +37942,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91299},
+																													pos: position{line: 2895, col: 8, offset: 91300},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91300,
+																														line: 2895, col: 9, offset: 91301,
 																													},
 																												},
 																											},
@@ -37953,30 +37953,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 797, col: 5, offset: 25667},
+																								pos: position{line: 797, col: 5, offset: 25668},
 																								run: (*parser).callonListContinuationElement1880,
 																								expr: &seqExpr{
-																									pos: position{line: 797, col: 5, offset: 25667},
+																									pos: position{line: 797, col: 5, offset: 25668},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 797, col: 5, offset: 25667},
+																											pos:   position{line: 797, col: 5, offset: 25668},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 797, col: 16, offset: 25678},
+																												pos: position{line: 797, col: 16, offset: 25679},
 																												run: (*parser).callonListContinuationElement1883,
 																												expr: &seqExpr{
-																													pos: position{line: 797, col: 16, offset: 25678},
+																													pos: position{line: 797, col: 16, offset: 25679},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 797, col: 16, offset: 25678},
+																															pos:        position{line: 797, col: 16, offset: 25679},
 																															val:        "____",
 																															ignoreCase: false,
 																															want:       "\"____\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 797, col: 23, offset: 25685},
+																															pos: position{line: 797, col: 23, offset: 25686},
 																															expr: &litMatcher{
-																																pos:        position{line: 797, col: 23, offset: 25685},
+																																pos:        position{line: 797, col: 23, offset: 25686},
 																																val:        "_",
 																																ignoreCase: false,
 																																want:       "\"_\"",
@@ -37987,12 +37987,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 799, col: 8, offset: 25769},
+																											pos: position{line: 799, col: 8, offset: 25770},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 90951},
+																												pos: position{line: 2876, col: 10, offset: 90952},
 																												run: (*parser).callonListContinuationElement1889,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 90951},
+																													pos:        position{line: 2876, col: 10, offset: 90952},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38001,28 +38001,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91349},
+																											pos: position{line: 2898, col: 8, offset: 91350},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91122},
+																													pos: position{line: 2885, col: 12, offset: 91123},
 																													run: (*parser).callonListContinuationElement1892,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91123},
+																														pos: position{line: 2885, col: 13, offset: 91124},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91123},
+																																pos:        position{line: 2885, col: 13, offset: 91124},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91130},
+																																pos:        position{line: 2885, col: 20, offset: 91131},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91139},
+																																pos:        position{line: 2885, col: 29, offset: 91140},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38031,9 +38031,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91299},
+																													pos: position{line: 2895, col: 8, offset: 91300},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91300,
+																														line: 2895, col: 9, offset: 91301,
 																													},
 																												},
 																											},
@@ -38042,30 +38042,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 804, col: 5, offset: 25913},
+																								pos: position{line: 804, col: 5, offset: 25914},
 																								run: (*parser).callonListContinuationElement1899,
 																								expr: &seqExpr{
-																									pos: position{line: 804, col: 5, offset: 25913},
+																									pos: position{line: 804, col: 5, offset: 25914},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 804, col: 5, offset: 25913},
+																											pos:   position{line: 804, col: 5, offset: 25914},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 804, col: 16, offset: 25924},
+																												pos: position{line: 804, col: 16, offset: 25925},
 																												run: (*parser).callonListContinuationElement1902,
 																												expr: &seqExpr{
-																													pos: position{line: 804, col: 16, offset: 25924},
+																													pos: position{line: 804, col: 16, offset: 25925},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 804, col: 16, offset: 25924},
+																															pos:        position{line: 804, col: 16, offset: 25925},
 																															val:        "****",
 																															ignoreCase: false,
 																															want:       "\"****\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 804, col: 23, offset: 25931},
+																															pos: position{line: 804, col: 23, offset: 25932},
 																															expr: &litMatcher{
-																																pos:        position{line: 804, col: 23, offset: 25931},
+																																pos:        position{line: 804, col: 23, offset: 25932},
 																																val:        "*",
 																																ignoreCase: false,
 																																want:       "\"*\"",
@@ -38076,12 +38076,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 806, col: 8, offset: 26015},
+																											pos: position{line: 806, col: 8, offset: 26016},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 90951},
+																												pos: position{line: 2876, col: 10, offset: 90952},
 																												run: (*parser).callonListContinuationElement1908,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 90951},
+																													pos:        position{line: 2876, col: 10, offset: 90952},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38090,28 +38090,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91349},
+																											pos: position{line: 2898, col: 8, offset: 91350},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91122},
+																													pos: position{line: 2885, col: 12, offset: 91123},
 																													run: (*parser).callonListContinuationElement1911,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91123},
+																														pos: position{line: 2885, col: 13, offset: 91124},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91123},
+																																pos:        position{line: 2885, col: 13, offset: 91124},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91130},
+																																pos:        position{line: 2885, col: 20, offset: 91131},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91139},
+																																pos:        position{line: 2885, col: 29, offset: 91140},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38120,9 +38120,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91299},
+																													pos: position{line: 2895, col: 8, offset: 91300},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91300,
+																														line: 2895, col: 9, offset: 91301,
 																													},
 																												},
 																											},
@@ -38138,15 +38138,15 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1522, col: 5, offset: 49413},
+																	pos:   position{line: 1522, col: 5, offset: 49414},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2826, col: 14, offset: 89544},
+																		pos: position{line: 2826, col: 14, offset: 89545},
 																		run: (*parser).callonListContinuationElement1919,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2826, col: 14, offset: 89544},
+																			pos: position{line: 2826, col: 14, offset: 89545},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2826, col: 14, offset: 89544},
+																				pos:        position{line: 2826, col: 14, offset: 89545},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -38156,28 +38156,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91349},
+																	pos: position{line: 2898, col: 8, offset: 91350},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91122},
+																			pos: position{line: 2885, col: 12, offset: 91123},
 																			run: (*parser).callonListContinuationElement1923,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91123},
+																				pos: position{line: 2885, col: 13, offset: 91124},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91123},
+																						pos:        position{line: 2885, col: 13, offset: 91124},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91130},
+																						pos:        position{line: 2885, col: 20, offset: 91131},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91139},
+																						pos:        position{line: 2885, col: 29, offset: 91140},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -38186,9 +38186,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91299},
+																			pos: position{line: 2895, col: 8, offset: 91300},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91300,
+																				line: 2895, col: 9, offset: 91301,
 																			},
 																		},
 																	},
@@ -38209,33 +38209,33 @@ var g = &grammar{
 		},
 		{
 			name: "Callout",
-			pos:  position{line: 1711, col: 1, offset: 55285},
+			pos:  position{line: 1711, col: 1, offset: 55286},
 			expr: &actionExpr{
-				pos: position{line: 1713, col: 5, offset: 55363},
+				pos: position{line: 1713, col: 5, offset: 55364},
 				run: (*parser).callonCallout1,
 				expr: &seqExpr{
-					pos: position{line: 1713, col: 5, offset: 55363},
+					pos: position{line: 1713, col: 5, offset: 55364},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1713, col: 5, offset: 55363},
+							pos: position{line: 1713, col: 5, offset: 55364},
 							run: (*parser).callonCallout3,
 						},
 						&litMatcher{
-							pos:        position{line: 1716, col: 5, offset: 55430},
+							pos:        position{line: 1716, col: 5, offset: 55431},
 							val:        "<",
 							ignoreCase: false,
 							want:       "\"<\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1716, col: 9, offset: 55434},
+							pos:   position{line: 1716, col: 9, offset: 55435},
 							label: "ref",
 							expr: &actionExpr{
-								pos: position{line: 1716, col: 14, offset: 55439},
+								pos: position{line: 1716, col: 14, offset: 55440},
 								run: (*parser).callonCallout6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1716, col: 14, offset: 55439},
+									pos: position{line: 1716, col: 14, offset: 55440},
 									expr: &charClassMatcher{
-										pos:        position{line: 1716, col: 14, offset: 55439},
+										pos:        position{line: 1716, col: 14, offset: 55440},
 										val:        "[0-9]",
 										ranges:     []rune{'0', '9'},
 										ignoreCase: false,
@@ -38245,18 +38245,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1716, col: 62, offset: 55487},
+							pos:        position{line: 1716, col: 62, offset: 55488},
 							val:        ">",
 							ignoreCase: false,
 							want:       "\">\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1716, col: 66, offset: 55491},
+							pos: position{line: 1716, col: 66, offset: 55492},
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 10, offset: 90951},
+								pos: position{line: 2876, col: 10, offset: 90952},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2876, col: 10, offset: 90951},
+									pos:        position{line: 2876, col: 10, offset: 90952},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -38265,30 +38265,30 @@ var g = &grammar{
 							},
 						},
 						&andExpr{
-							pos: position{line: 1716, col: 73, offset: 55498},
+							pos: position{line: 1716, col: 73, offset: 55499},
 							expr: &choiceExpr{
-								pos: position{line: 1716, col: 75, offset: 55500},
+								pos: position{line: 1716, col: 75, offset: 55501},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2885, col: 12, offset: 91122},
+										pos: position{line: 2885, col: 12, offset: 91123},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2885, col: 13, offset: 91123},
+											pos: position{line: 2885, col: 13, offset: 91124},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2885, col: 13, offset: 91123},
+													pos:        position{line: 2885, col: 13, offset: 91124},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2885, col: 20, offset: 91130},
+													pos:        position{line: 2885, col: 20, offset: 91131},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2885, col: 29, offset: 91139},
+													pos:        position{line: 2885, col: 29, offset: 91140},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -38297,13 +38297,13 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2895, col: 8, offset: 91299},
+										pos: position{line: 2895, col: 8, offset: 91300},
 										expr: &anyMatcher{
-											line: 2895, col: 9, offset: 91300,
+											line: 2895, col: 9, offset: 91301,
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1716, col: 81, offset: 55506},
+										pos:  position{line: 1716, col: 81, offset: 55507},
 										name: "Callout",
 									},
 								},
@@ -38315,44 +38315,44 @@ var g = &grammar{
 		},
 		{
 			name: "ShortcutParagraph",
-			pos:  position{line: 1755, col: 1, offset: 56683},
+			pos:  position{line: 1755, col: 1, offset: 56684},
 			expr: &actionExpr{
-				pos: position{line: 1757, col: 5, offset: 56757},
+				pos: position{line: 1757, col: 5, offset: 56758},
 				run: (*parser).callonShortcutParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1757, col: 5, offset: 56757},
+					pos: position{line: 1757, col: 5, offset: 56758},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 1757, col: 5, offset: 56757},
+							pos: position{line: 1757, col: 5, offset: 56758},
 							expr: &seqExpr{
-								pos: position{line: 1757, col: 7, offset: 56759},
+								pos: position{line: 1757, col: 7, offset: 56760},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2766, col: 13, offset: 88046},
+										pos:        position{line: 2766, col: 13, offset: 88047},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
 										inverted:   false,
 									},
 									&notExpr{
-										pos: position{line: 1757, col: 16, offset: 56768},
+										pos: position{line: 1757, col: 16, offset: 56769},
 										expr: &seqExpr{
-											pos: position{line: 1757, col: 18, offset: 56770},
+											pos: position{line: 1757, col: 18, offset: 56771},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 1757, col: 19, offset: 56771},
+													pos:        position{line: 1757, col: 19, offset: 56772},
 													val:        "[.)]",
 													chars:      []rune{'.', ')'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2880, col: 11, offset: 91012},
+													pos: position{line: 2880, col: 11, offset: 91013},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2880, col: 11, offset: 91012},
+														pos: position{line: 2880, col: 11, offset: 91013},
 														expr: &charClassMatcher{
-															pos:        position{line: 2880, col: 11, offset: 91012},
+															pos:        position{line: 2880, col: 11, offset: 91013},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -38367,88 +38367,88 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1758, col: 5, offset: 56911},
+							pos:   position{line: 1758, col: 5, offset: 56912},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1758, col: 11, offset: 56917},
+								pos: position{line: 1758, col: 11, offset: 56918},
 								expr: &actionExpr{
-									pos: position{line: 1736, col: 5, offset: 56176},
+									pos: position{line: 1736, col: 5, offset: 56177},
 									run: (*parser).callonShortcutParagraph14,
 									expr: &seqExpr{
-										pos: position{line: 1736, col: 5, offset: 56176},
+										pos: position{line: 1736, col: 5, offset: 56177},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1736, col: 5, offset: 56176},
+												pos: position{line: 1736, col: 5, offset: 56177},
 												run: (*parser).callonShortcutParagraph16,
 											},
 											&labeledExpr{
-												pos:   position{line: 1739, col: 5, offset: 56239},
+												pos:   position{line: 1739, col: 5, offset: 56240},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1739, col: 12, offset: 56246},
+													pos: position{line: 1739, col: 12, offset: 56247},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1739, col: 12, offset: 56246},
+															pos: position{line: 1739, col: 12, offset: 56247},
 															run: (*parser).callonShortcutParagraph19,
 															expr: &litMatcher{
-																pos:        position{line: 1739, col: 12, offset: 56246},
+																pos:        position{line: 1739, col: 12, offset: 56247},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1741, col: 13, offset: 56302},
+															pos: position{line: 1741, col: 13, offset: 56303},
 															run: (*parser).callonShortcutParagraph21,
 															expr: &litMatcher{
-																pos:        position{line: 1741, col: 13, offset: 56302},
+																pos:        position{line: 1741, col: 13, offset: 56303},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1743, col: 13, offset: 56360},
+															pos: position{line: 1743, col: 13, offset: 56361},
 															run: (*parser).callonShortcutParagraph23,
 															expr: &litMatcher{
-																pos:        position{line: 1743, col: 13, offset: 56360},
+																pos:        position{line: 1743, col: 13, offset: 56361},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1745, col: 13, offset: 56428},
+															pos: position{line: 1745, col: 13, offset: 56429},
 															run: (*parser).callonShortcutParagraph25,
 															expr: &litMatcher{
-																pos:        position{line: 1745, col: 13, offset: 56428},
+																pos:        position{line: 1745, col: 13, offset: 56429},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1747, col: 13, offset: 56492},
+															pos: position{line: 1747, col: 13, offset: 56493},
 															run: (*parser).callonShortcutParagraph27,
 															expr: &litMatcher{
-																pos:        position{line: 1747, col: 13, offset: 56492},
+																pos:        position{line: 1747, col: 13, offset: 56493},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1749, col: 13, offset: 56556},
+															pos: position{line: 1749, col: 13, offset: 56557},
 															run: (*parser).callonShortcutParagraph29,
 															expr: &andExpr{
-																pos: position{line: 1749, col: 13, offset: 56556},
+																pos: position{line: 1749, col: 13, offset: 56557},
 																expr: &actionExpr{
-																	pos: position{line: 2880, col: 11, offset: 91012},
+																	pos: position{line: 2880, col: 11, offset: 91013},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2880, col: 11, offset: 91012},
+																		pos: position{line: 2880, col: 11, offset: 91013},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 11, offset: 91012},
+																			pos:        position{line: 2880, col: 11, offset: 91013},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -38462,17 +38462,17 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1751, col: 12, offset: 56626},
+												pos: position{line: 1751, col: 12, offset: 56627},
 												expr: &seqExpr{
-													pos: position{line: 1751, col: 14, offset: 56628},
+													pos: position{line: 1751, col: 14, offset: 56629},
 													exprs: []interface{}{
 														&zeroOrMoreExpr{
-															pos: position{line: 1751, col: 14, offset: 56628},
+															pos: position{line: 1751, col: 14, offset: 56629},
 															expr: &actionExpr{
-																pos: position{line: 2876, col: 10, offset: 90951},
+																pos: position{line: 2876, col: 10, offset: 90952},
 																run: (*parser).callonShortcutParagraph37,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2876, col: 10, offset: 90951},
+																	pos:        position{line: 2876, col: 10, offset: 90952},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -38481,28 +38481,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2898, col: 8, offset: 91349},
+															pos: position{line: 2898, col: 8, offset: 91350},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2885, col: 12, offset: 91122},
+																	pos: position{line: 2885, col: 12, offset: 91123},
 																	run: (*parser).callonShortcutParagraph40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2885, col: 13, offset: 91123},
+																		pos: position{line: 2885, col: 13, offset: 91124},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2885, col: 13, offset: 91123},
+																				pos:        position{line: 2885, col: 13, offset: 91124},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2885, col: 20, offset: 91130},
+																				pos:        position{line: 2885, col: 20, offset: 91131},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2885, col: 29, offset: 91139},
+																				pos:        position{line: 2885, col: 29, offset: 91140},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -38511,9 +38511,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2895, col: 8, offset: 91299},
+																	pos: position{line: 2895, col: 8, offset: 91300},
 																	expr: &anyMatcher{
-																		line: 2895, col: 9, offset: 91300,
+																		line: 2895, col: 9, offset: 91301,
 																	},
 																},
 															},
@@ -38527,24 +38527,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1759, col: 5, offset: 56939},
+							pos:   position{line: 1759, col: 5, offset: 56940},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1795, col: 5, offset: 58046},
+								pos: position{line: 1795, col: 5, offset: 58047},
 								run: (*parser).callonShortcutParagraph48,
 								expr: &seqExpr{
-									pos: position{line: 1795, col: 5, offset: 58046},
+									pos: position{line: 1795, col: 5, offset: 58047},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1795, col: 5, offset: 58046},
+											pos:   position{line: 1795, col: 5, offset: 58047},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2826, col: 14, offset: 89544},
+												pos: position{line: 2826, col: 14, offset: 89545},
 												run: (*parser).callonShortcutParagraph51,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2826, col: 14, offset: 89544},
+													pos: position{line: 2826, col: 14, offset: 89545},
 													expr: &charClassMatcher{
-														pos:        position{line: 2826, col: 14, offset: 89544},
+														pos:        position{line: 2826, col: 14, offset: 89545},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -38554,32 +38554,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1796, col: 5, offset: 58070},
+											pos: position{line: 1796, col: 5, offset: 58071},
 											run: (*parser).callonShortcutParagraph54,
 										},
 										&choiceExpr{
-											pos: position{line: 2898, col: 8, offset: 91349},
+											pos: position{line: 2898, col: 8, offset: 91350},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2885, col: 12, offset: 91122},
+													pos: position{line: 2885, col: 12, offset: 91123},
 													run: (*parser).callonShortcutParagraph56,
 													expr: &choiceExpr{
-														pos: position{line: 2885, col: 13, offset: 91123},
+														pos: position{line: 2885, col: 13, offset: 91124},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2885, col: 13, offset: 91123},
+																pos:        position{line: 2885, col: 13, offset: 91124},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2885, col: 20, offset: 91130},
+																pos:        position{line: 2885, col: 20, offset: 91131},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2885, col: 29, offset: 91139},
+																pos:        position{line: 2885, col: 29, offset: 91140},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -38588,9 +38588,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2895, col: 8, offset: 91299},
+													pos: position{line: 2895, col: 8, offset: 91300},
 													expr: &anyMatcher{
-														line: 2895, col: 9, offset: 91300,
+														line: 2895, col: 9, offset: 91301,
 													},
 												},
 											},
@@ -38600,47 +38600,47 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1760, col: 5, offset: 56973},
+							pos: position{line: 1760, col: 5, offset: 56974},
 							run: (*parser).callonShortcutParagraph63,
 						},
 						&labeledExpr{
-							pos:   position{line: 1767, col: 5, offset: 57303},
+							pos:   position{line: 1767, col: 5, offset: 57304},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1767, col: 16, offset: 57314},
+								pos: position{line: 1767, col: 16, offset: 57315},
 								expr: &actionExpr{
-									pos: position{line: 1768, col: 9, offset: 57324},
+									pos: position{line: 1768, col: 9, offset: 57325},
 									run: (*parser).callonShortcutParagraph66,
 									expr: &seqExpr{
-										pos: position{line: 1768, col: 9, offset: 57324},
+										pos: position{line: 1768, col: 9, offset: 57325},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2893, col: 11, offset: 91285},
+												pos: position{line: 2893, col: 11, offset: 91286},
 												expr: &anyMatcher{
-													line: 2893, col: 13, offset: 91287,
+													line: 2893, col: 13, offset: 91288,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1769, col: 9, offset: 57340},
+												pos: position{line: 1769, col: 9, offset: 57341},
 												expr: &actionExpr{
-													pos: position{line: 677, col: 14, offset: 21557},
+													pos: position{line: 677, col: 14, offset: 21558},
 													run: (*parser).callonShortcutParagraph71,
 													expr: &seqExpr{
-														pos: position{line: 677, col: 14, offset: 21557},
+														pos: position{line: 677, col: 14, offset: 21558},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2893, col: 11, offset: 91285},
+																pos: position{line: 2893, col: 11, offset: 91286},
 																expr: &anyMatcher{
-																	line: 2893, col: 13, offset: 91287,
+																	line: 2893, col: 13, offset: 91288,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 677, col: 21, offset: 21564},
+																pos: position{line: 677, col: 21, offset: 21565},
 																expr: &actionExpr{
-																	pos: position{line: 2876, col: 10, offset: 90951},
+																	pos: position{line: 2876, col: 10, offset: 90952},
 																	run: (*parser).callonShortcutParagraph76,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2876, col: 10, offset: 90951},
+																		pos:        position{line: 2876, col: 10, offset: 90952},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -38649,28 +38649,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2898, col: 8, offset: 91349},
+																pos: position{line: 2898, col: 8, offset: 91350},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2885, col: 12, offset: 91122},
+																		pos: position{line: 2885, col: 12, offset: 91123},
 																		run: (*parser).callonShortcutParagraph79,
 																		expr: &choiceExpr{
-																			pos: position{line: 2885, col: 13, offset: 91123},
+																			pos: position{line: 2885, col: 13, offset: 91124},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 13, offset: 91123},
+																					pos:        position{line: 2885, col: 13, offset: 91124},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 20, offset: 91130},
+																					pos:        position{line: 2885, col: 20, offset: 91131},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 29, offset: 91139},
+																					pos:        position{line: 2885, col: 29, offset: 91140},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -38679,9 +38679,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91299},
+																		pos: position{line: 2895, col: 8, offset: 91300},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91300,
+																			line: 2895, col: 9, offset: 91301,
 																		},
 																	},
 																},
@@ -38691,24 +38691,24 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1770, col: 9, offset: 57359},
+												pos: position{line: 1770, col: 9, offset: 57360},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1770, col: 10, offset: 57360},
+													pos:  position{line: 1770, col: 10, offset: 57361},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1771, col: 9, offset: 57384},
+												pos: position{line: 1771, col: 9, offset: 57385},
 												expr: &actionExpr{
-													pos: position{line: 724, col: 5, offset: 23110},
+													pos: position{line: 724, col: 5, offset: 23111},
 													run: (*parser).callonShortcutParagraph89,
 													expr: &seqExpr{
-														pos: position{line: 724, col: 5, offset: 23110},
+														pos: position{line: 724, col: 5, offset: 23111},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 724, col: 5, offset: 23110},
+																pos: position{line: 724, col: 5, offset: 23111},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2766, col: 13, offset: 88046},
+																	pos:        position{line: 2766, col: 13, offset: 88047},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -38716,36 +38716,36 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 725, col: 5, offset: 23140},
+																pos:   position{line: 725, col: 5, offset: 23141},
 																label: "delimiter",
 																expr: &choiceExpr{
-																	pos: position{line: 726, col: 9, offset: 23160},
+																	pos: position{line: 726, col: 9, offset: 23161},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 740, col: 5, offset: 23652},
+																			pos: position{line: 740, col: 5, offset: 23653},
 																			run: (*parser).callonShortcutParagraph95,
 																			expr: &seqExpr{
-																				pos: position{line: 740, col: 5, offset: 23652},
+																				pos: position{line: 740, col: 5, offset: 23653},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 740, col: 5, offset: 23652},
+																						pos:   position{line: 740, col: 5, offset: 23653},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 740, col: 16, offset: 23663},
+																							pos: position{line: 740, col: 16, offset: 23664},
 																							run: (*parser).callonShortcutParagraph98,
 																							expr: &seqExpr{
-																								pos: position{line: 740, col: 16, offset: 23663},
+																								pos: position{line: 740, col: 16, offset: 23664},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 740, col: 16, offset: 23663},
+																										pos:        position{line: 740, col: 16, offset: 23664},
 																										val:        "////",
 																										ignoreCase: false,
 																										want:       "\"////\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 740, col: 23, offset: 23670},
+																										pos: position{line: 740, col: 23, offset: 23671},
 																										expr: &litMatcher{
-																											pos:        position{line: 740, col: 23, offset: 23670},
+																											pos:        position{line: 740, col: 23, offset: 23671},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -38756,12 +38756,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 742, col: 8, offset: 23754},
+																						pos: position{line: 742, col: 8, offset: 23755},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 90951},
+																							pos: position{line: 2876, col: 10, offset: 90952},
 																							run: (*parser).callonShortcutParagraph104,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 90951},
+																								pos:        position{line: 2876, col: 10, offset: 90952},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38770,28 +38770,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91349},
+																						pos: position{line: 2898, col: 8, offset: 91350},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91122},
+																								pos: position{line: 2885, col: 12, offset: 91123},
 																								run: (*parser).callonShortcutParagraph107,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91123},
+																									pos: position{line: 2885, col: 13, offset: 91124},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91123},
+																											pos:        position{line: 2885, col: 13, offset: 91124},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91130},
+																											pos:        position{line: 2885, col: 20, offset: 91131},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91139},
+																											pos:        position{line: 2885, col: 29, offset: 91140},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38800,9 +38800,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91299},
+																								pos: position{line: 2895, col: 8, offset: 91300},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91300,
+																									line: 2895, col: 9, offset: 91301,
 																								},
 																							},
 																						},
@@ -38811,30 +38811,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 747, col: 5, offset: 23900},
+																			pos: position{line: 747, col: 5, offset: 23901},
 																			run: (*parser).callonShortcutParagraph114,
 																			expr: &seqExpr{
-																				pos: position{line: 747, col: 5, offset: 23900},
+																				pos: position{line: 747, col: 5, offset: 23901},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 747, col: 5, offset: 23900},
+																						pos:   position{line: 747, col: 5, offset: 23901},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 747, col: 16, offset: 23911},
+																							pos: position{line: 747, col: 16, offset: 23912},
 																							run: (*parser).callonShortcutParagraph117,
 																							expr: &seqExpr{
-																								pos: position{line: 747, col: 16, offset: 23911},
+																								pos: position{line: 747, col: 16, offset: 23912},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 747, col: 16, offset: 23911},
+																										pos:        position{line: 747, col: 16, offset: 23912},
 																										val:        "====",
 																										ignoreCase: false,
 																										want:       "\"====\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 747, col: 23, offset: 23918},
+																										pos: position{line: 747, col: 23, offset: 23919},
 																										expr: &litMatcher{
-																											pos:        position{line: 747, col: 23, offset: 23918},
+																											pos:        position{line: 747, col: 23, offset: 23919},
 																											val:        "=",
 																											ignoreCase: false,
 																											want:       "\"=\"",
@@ -38845,12 +38845,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 749, col: 8, offset: 24002},
+																						pos: position{line: 749, col: 8, offset: 24003},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 90951},
+																							pos: position{line: 2876, col: 10, offset: 90952},
 																							run: (*parser).callonShortcutParagraph123,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 90951},
+																								pos:        position{line: 2876, col: 10, offset: 90952},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38859,28 +38859,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91349},
+																						pos: position{line: 2898, col: 8, offset: 91350},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91122},
+																								pos: position{line: 2885, col: 12, offset: 91123},
 																								run: (*parser).callonShortcutParagraph126,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91123},
+																									pos: position{line: 2885, col: 13, offset: 91124},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91123},
+																											pos:        position{line: 2885, col: 13, offset: 91124},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91130},
+																											pos:        position{line: 2885, col: 20, offset: 91131},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91139},
+																											pos:        position{line: 2885, col: 29, offset: 91140},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38889,9 +38889,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91299},
+																								pos: position{line: 2895, col: 8, offset: 91300},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91300,
+																									line: 2895, col: 9, offset: 91301,
 																								},
 																							},
 																						},
@@ -38900,27 +38900,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 760, col: 26, offset: 24388},
+																			pos: position{line: 760, col: 26, offset: 24389},
 																			run: (*parser).callonShortcutParagraph133,
 																			expr: &seqExpr{
-																				pos: position{line: 760, col: 26, offset: 24388},
+																				pos: position{line: 760, col: 26, offset: 24389},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 760, col: 26, offset: 24388},
+																						pos:        position{line: 760, col: 26, offset: 24389},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 760, col: 32, offset: 24394},
+																						pos:   position{line: 760, col: 32, offset: 24395},
 																						label: "language",
 																						expr: &actionExpr{
-																							pos: position{line: 764, col: 13, offset: 24524},
+																							pos: position{line: 764, col: 13, offset: 24525},
 																							run: (*parser).callonShortcutParagraph137,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 764, col: 14, offset: 24525},
+																								pos: position{line: 764, col: 14, offset: 24526},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 764, col: 14, offset: 24525},
+																									pos:        position{line: 764, col: 14, offset: 24526},
 																									val:        "[^\\r\\n`\\t ]",
 																									chars:      []rune{'\r', '\n', '`', '\t', ' '},
 																									ignoreCase: false,
@@ -38930,12 +38930,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 760, col: 52, offset: 24414},
+																						pos: position{line: 760, col: 52, offset: 24415},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 90951},
+																							pos: position{line: 2876, col: 10, offset: 90952},
 																							run: (*parser).callonShortcutParagraph141,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 90951},
+																								pos:        position{line: 2876, col: 10, offset: 90952},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38944,28 +38944,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91349},
+																						pos: position{line: 2898, col: 8, offset: 91350},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91122},
+																								pos: position{line: 2885, col: 12, offset: 91123},
 																								run: (*parser).callonShortcutParagraph144,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91123},
+																									pos: position{line: 2885, col: 13, offset: 91124},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91123},
+																											pos:        position{line: 2885, col: 13, offset: 91124},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91130},
+																											pos:        position{line: 2885, col: 20, offset: 91131},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91139},
+																											pos:        position{line: 2885, col: 29, offset: 91140},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38974,9 +38974,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91299},
+																								pos: position{line: 2895, col: 8, offset: 91300},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91300,
+																									line: 2895, col: 9, offset: 91301,
 																								},
 																							},
 																						},
@@ -38985,30 +38985,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 754, col: 5, offset: 24147},
+																			pos: position{line: 754, col: 5, offset: 24148},
 																			run: (*parser).callonShortcutParagraph151,
 																			expr: &seqExpr{
-																				pos: position{line: 754, col: 5, offset: 24147},
+																				pos: position{line: 754, col: 5, offset: 24148},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 754, col: 5, offset: 24147},
+																						pos:   position{line: 754, col: 5, offset: 24148},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 754, col: 16, offset: 24158},
+																							pos: position{line: 754, col: 16, offset: 24159},
 																							run: (*parser).callonShortcutParagraph154,
 																							expr: &seqExpr{
-																								pos: position{line: 754, col: 16, offset: 24158},
+																								pos: position{line: 754, col: 16, offset: 24159},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 754, col: 16, offset: 24158},
+																										pos:        position{line: 754, col: 16, offset: 24159},
 																										val:        "```",
 																										ignoreCase: false,
 																										want:       "\"```\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 754, col: 22, offset: 24164},
+																										pos: position{line: 754, col: 22, offset: 24165},
 																										expr: &litMatcher{
-																											pos:        position{line: 754, col: 22, offset: 24164},
+																											pos:        position{line: 754, col: 22, offset: 24165},
 																											val:        "`",
 																											ignoreCase: false,
 																											want:       "\"`\"",
@@ -39019,12 +39019,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 756, col: 8, offset: 24248},
+																						pos: position{line: 756, col: 8, offset: 24249},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 90951},
+																							pos: position{line: 2876, col: 10, offset: 90952},
 																							run: (*parser).callonShortcutParagraph160,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 90951},
+																								pos:        position{line: 2876, col: 10, offset: 90952},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39033,28 +39033,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91349},
+																						pos: position{line: 2898, col: 8, offset: 91350},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91122},
+																								pos: position{line: 2885, col: 12, offset: 91123},
 																								run: (*parser).callonShortcutParagraph163,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91123},
+																									pos: position{line: 2885, col: 13, offset: 91124},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91123},
+																											pos:        position{line: 2885, col: 13, offset: 91124},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91130},
+																											pos:        position{line: 2885, col: 20, offset: 91131},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91139},
+																											pos:        position{line: 2885, col: 29, offset: 91140},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39063,9 +39063,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91299},
+																								pos: position{line: 2895, col: 8, offset: 91300},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91300,
+																									line: 2895, col: 9, offset: 91301,
 																								},
 																							},
 																						},
@@ -39074,30 +39074,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 769, col: 5, offset: 24689},
+																			pos: position{line: 769, col: 5, offset: 24690},
 																			run: (*parser).callonShortcutParagraph170,
 																			expr: &seqExpr{
-																				pos: position{line: 769, col: 5, offset: 24689},
+																				pos: position{line: 769, col: 5, offset: 24690},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 769, col: 5, offset: 24689},
+																						pos:   position{line: 769, col: 5, offset: 24690},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 769, col: 16, offset: 24700},
+																							pos: position{line: 769, col: 16, offset: 24701},
 																							run: (*parser).callonShortcutParagraph173,
 																							expr: &seqExpr{
-																								pos: position{line: 769, col: 16, offset: 24700},
+																								pos: position{line: 769, col: 16, offset: 24701},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 769, col: 16, offset: 24700},
+																										pos:        position{line: 769, col: 16, offset: 24701},
 																										val:        "----",
 																										ignoreCase: false,
 																										want:       "\"----\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 769, col: 23, offset: 24707},
+																										pos: position{line: 769, col: 23, offset: 24708},
 																										expr: &litMatcher{
-																											pos:        position{line: 769, col: 23, offset: 24707},
+																											pos:        position{line: 769, col: 23, offset: 24708},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
@@ -39108,12 +39108,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 771, col: 8, offset: 24791},
+																						pos: position{line: 771, col: 8, offset: 24792},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 90951},
+																							pos: position{line: 2876, col: 10, offset: 90952},
 																							run: (*parser).callonShortcutParagraph179,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 90951},
+																								pos:        position{line: 2876, col: 10, offset: 90952},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39122,28 +39122,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91349},
+																						pos: position{line: 2898, col: 8, offset: 91350},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91122},
+																								pos: position{line: 2885, col: 12, offset: 91123},
 																								run: (*parser).callonShortcutParagraph182,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91123},
+																									pos: position{line: 2885, col: 13, offset: 91124},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91123},
+																											pos:        position{line: 2885, col: 13, offset: 91124},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91130},
+																											pos:        position{line: 2885, col: 20, offset: 91131},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91139},
+																											pos:        position{line: 2885, col: 29, offset: 91140},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39152,9 +39152,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91299},
+																								pos: position{line: 2895, col: 8, offset: 91300},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91300,
+																									line: 2895, col: 9, offset: 91301,
 																								},
 																							},
 																						},
@@ -39163,30 +39163,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 783, col: 5, offset: 25165},
+																			pos: position{line: 783, col: 5, offset: 25166},
 																			run: (*parser).callonShortcutParagraph189,
 																			expr: &seqExpr{
-																				pos: position{line: 783, col: 5, offset: 25165},
+																				pos: position{line: 783, col: 5, offset: 25166},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 783, col: 5, offset: 25165},
+																						pos:   position{line: 783, col: 5, offset: 25166},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 783, col: 16, offset: 25176},
+																							pos: position{line: 783, col: 16, offset: 25177},
 																							run: (*parser).callonShortcutParagraph192,
 																							expr: &seqExpr{
-																								pos: position{line: 783, col: 16, offset: 25176},
+																								pos: position{line: 783, col: 16, offset: 25177},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 783, col: 16, offset: 25176},
+																										pos:        position{line: 783, col: 16, offset: 25177},
 																										val:        "....",
 																										ignoreCase: false,
 																										want:       "\"....\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 783, col: 23, offset: 25183},
+																										pos: position{line: 783, col: 23, offset: 25184},
 																										expr: &litMatcher{
-																											pos:        position{line: 783, col: 23, offset: 25183},
+																											pos:        position{line: 783, col: 23, offset: 25184},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -39197,12 +39197,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 785, col: 8, offset: 25267},
+																						pos: position{line: 785, col: 8, offset: 25268},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 90951},
+																							pos: position{line: 2876, col: 10, offset: 90952},
 																							run: (*parser).callonShortcutParagraph198,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 90951},
+																								pos:        position{line: 2876, col: 10, offset: 90952},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39211,28 +39211,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91349},
+																						pos: position{line: 2898, col: 8, offset: 91350},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91122},
+																								pos: position{line: 2885, col: 12, offset: 91123},
 																								run: (*parser).callonShortcutParagraph201,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91123},
+																									pos: position{line: 2885, col: 13, offset: 91124},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91123},
+																											pos:        position{line: 2885, col: 13, offset: 91124},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91130},
+																											pos:        position{line: 2885, col: 20, offset: 91131},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91139},
+																											pos:        position{line: 2885, col: 29, offset: 91140},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39241,9 +39241,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91299},
+																								pos: position{line: 2895, col: 8, offset: 91300},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91300,
+																									line: 2895, col: 9, offset: 91301,
 																								},
 																							},
 																						},
@@ -39252,30 +39252,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 790, col: 5, offset: 25417},
+																			pos: position{line: 790, col: 5, offset: 25418},
 																			run: (*parser).callonShortcutParagraph208,
 																			expr: &seqExpr{
-																				pos: position{line: 790, col: 5, offset: 25417},
+																				pos: position{line: 790, col: 5, offset: 25418},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 790, col: 5, offset: 25417},
+																						pos:   position{line: 790, col: 5, offset: 25418},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 790, col: 16, offset: 25428},
+																							pos: position{line: 790, col: 16, offset: 25429},
 																							run: (*parser).callonShortcutParagraph211,
 																							expr: &seqExpr{
-																								pos: position{line: 790, col: 16, offset: 25428},
+																								pos: position{line: 790, col: 16, offset: 25429},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 790, col: 16, offset: 25428},
+																										pos:        position{line: 790, col: 16, offset: 25429},
 																										val:        "++++",
 																										ignoreCase: false,
 																										want:       "\"++++\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 790, col: 23, offset: 25435},
+																										pos: position{line: 790, col: 23, offset: 25436},
 																										expr: &litMatcher{
-																											pos:        position{line: 790, col: 23, offset: 25435},
+																											pos:        position{line: 790, col: 23, offset: 25436},
 																											val:        "+",
 																											ignoreCase: false,
 																											want:       "\"+\"",
@@ -39286,12 +39286,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 792, col: 8, offset: 25519},
+																						pos: position{line: 792, col: 8, offset: 25520},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 90951},
+																							pos: position{line: 2876, col: 10, offset: 90952},
 																							run: (*parser).callonShortcutParagraph217,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 90951},
+																								pos:        position{line: 2876, col: 10, offset: 90952},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39300,28 +39300,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91349},
+																						pos: position{line: 2898, col: 8, offset: 91350},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91122},
+																								pos: position{line: 2885, col: 12, offset: 91123},
 																								run: (*parser).callonShortcutParagraph220,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91123},
+																									pos: position{line: 2885, col: 13, offset: 91124},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91123},
+																											pos:        position{line: 2885, col: 13, offset: 91124},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91130},
+																											pos:        position{line: 2885, col: 20, offset: 91131},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91139},
+																											pos:        position{line: 2885, col: 29, offset: 91140},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39330,9 +39330,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91299},
+																								pos: position{line: 2895, col: 8, offset: 91300},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91300,
+																									line: 2895, col: 9, offset: 91301,
 																								},
 																							},
 																						},
@@ -39341,30 +39341,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 797, col: 5, offset: 25667},
+																			pos: position{line: 797, col: 5, offset: 25668},
 																			run: (*parser).callonShortcutParagraph227,
 																			expr: &seqExpr{
-																				pos: position{line: 797, col: 5, offset: 25667},
+																				pos: position{line: 797, col: 5, offset: 25668},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 797, col: 5, offset: 25667},
+																						pos:   position{line: 797, col: 5, offset: 25668},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 797, col: 16, offset: 25678},
+																							pos: position{line: 797, col: 16, offset: 25679},
 																							run: (*parser).callonShortcutParagraph230,
 																							expr: &seqExpr{
-																								pos: position{line: 797, col: 16, offset: 25678},
+																								pos: position{line: 797, col: 16, offset: 25679},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 797, col: 16, offset: 25678},
+																										pos:        position{line: 797, col: 16, offset: 25679},
 																										val:        "____",
 																										ignoreCase: false,
 																										want:       "\"____\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 797, col: 23, offset: 25685},
+																										pos: position{line: 797, col: 23, offset: 25686},
 																										expr: &litMatcher{
-																											pos:        position{line: 797, col: 23, offset: 25685},
+																											pos:        position{line: 797, col: 23, offset: 25686},
 																											val:        "_",
 																											ignoreCase: false,
 																											want:       "\"_\"",
@@ -39375,12 +39375,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 799, col: 8, offset: 25769},
+																						pos: position{line: 799, col: 8, offset: 25770},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 90951},
+																							pos: position{line: 2876, col: 10, offset: 90952},
 																							run: (*parser).callonShortcutParagraph236,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 90951},
+																								pos:        position{line: 2876, col: 10, offset: 90952},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39389,28 +39389,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91349},
+																						pos: position{line: 2898, col: 8, offset: 91350},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91122},
+																								pos: position{line: 2885, col: 12, offset: 91123},
 																								run: (*parser).callonShortcutParagraph239,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91123},
+																									pos: position{line: 2885, col: 13, offset: 91124},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91123},
+																											pos:        position{line: 2885, col: 13, offset: 91124},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91130},
+																											pos:        position{line: 2885, col: 20, offset: 91131},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91139},
+																											pos:        position{line: 2885, col: 29, offset: 91140},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39419,9 +39419,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91299},
+																								pos: position{line: 2895, col: 8, offset: 91300},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91300,
+																									line: 2895, col: 9, offset: 91301,
 																								},
 																							},
 																						},
@@ -39430,30 +39430,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 804, col: 5, offset: 25913},
+																			pos: position{line: 804, col: 5, offset: 25914},
 																			run: (*parser).callonShortcutParagraph246,
 																			expr: &seqExpr{
-																				pos: position{line: 804, col: 5, offset: 25913},
+																				pos: position{line: 804, col: 5, offset: 25914},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 804, col: 5, offset: 25913},
+																						pos:   position{line: 804, col: 5, offset: 25914},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 804, col: 16, offset: 25924},
+																							pos: position{line: 804, col: 16, offset: 25925},
 																							run: (*parser).callonShortcutParagraph249,
 																							expr: &seqExpr{
-																								pos: position{line: 804, col: 16, offset: 25924},
+																								pos: position{line: 804, col: 16, offset: 25925},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 804, col: 16, offset: 25924},
+																										pos:        position{line: 804, col: 16, offset: 25925},
 																										val:        "****",
 																										ignoreCase: false,
 																										want:       "\"****\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 804, col: 23, offset: 25931},
+																										pos: position{line: 804, col: 23, offset: 25932},
 																										expr: &litMatcher{
-																											pos:        position{line: 804, col: 23, offset: 25931},
+																											pos:        position{line: 804, col: 23, offset: 25932},
 																											val:        "*",
 																											ignoreCase: false,
 																											want:       "\"*\"",
@@ -39464,12 +39464,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 806, col: 8, offset: 26015},
+																						pos: position{line: 806, col: 8, offset: 26016},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 90951},
+																							pos: position{line: 2876, col: 10, offset: 90952},
 																							run: (*parser).callonShortcutParagraph255,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 90951},
+																								pos:        position{line: 2876, col: 10, offset: 90952},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39478,28 +39478,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91349},
+																						pos: position{line: 2898, col: 8, offset: 91350},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91122},
+																								pos: position{line: 2885, col: 12, offset: 91123},
 																								run: (*parser).callonShortcutParagraph258,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91123},
+																									pos: position{line: 2885, col: 13, offset: 91124},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91123},
+																											pos:        position{line: 2885, col: 13, offset: 91124},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91130},
+																											pos:        position{line: 2885, col: 20, offset: 91131},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91139},
+																											pos:        position{line: 2885, col: 29, offset: 91140},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39508,9 +39508,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91299},
+																								pos: position{line: 2895, col: 8, offset: 91300},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91300,
+																									line: 2895, col: 9, offset: 91301,
 																								},
 																							},
 																						},
@@ -39526,23 +39526,23 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1772, col: 9, offset: 57408},
+												pos: position{line: 1772, col: 9, offset: 57409},
 												expr: &seqExpr{
-													pos: position{line: 1546, col: 27, offset: 50041},
+													pos: position{line: 1546, col: 27, offset: 50042},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 1546, col: 27, offset: 50041},
+															pos:        position{line: 1546, col: 27, offset: 50042},
 															val:        "+",
 															ignoreCase: false,
 															want:       "\"+\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 1546, col: 31, offset: 50045},
+															pos: position{line: 1546, col: 31, offset: 50046},
 															expr: &actionExpr{
-																pos: position{line: 2876, col: 10, offset: 90951},
+																pos: position{line: 2876, col: 10, offset: 90952},
 																run: (*parser).callonShortcutParagraph269,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2876, col: 10, offset: 90951},
+																	pos:        position{line: 2876, col: 10, offset: 90952},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -39551,25 +39551,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91122},
+															pos: position{line: 2885, col: 12, offset: 91123},
 															run: (*parser).callonShortcutParagraph271,
 															expr: &choiceExpr{
-																pos: position{line: 2885, col: 13, offset: 91123},
+																pos: position{line: 2885, col: 13, offset: 91124},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 13, offset: 91123},
+																		pos:        position{line: 2885, col: 13, offset: 91124},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 20, offset: 91130},
+																		pos:        position{line: 2885, col: 20, offset: 91131},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 29, offset: 91139},
+																		pos:        position{line: 2885, col: 29, offset: 91140},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -39581,42 +39581,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1773, col: 9, offset: 57440},
+												pos:   position{line: 1773, col: 9, offset: 57441},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1773, col: 15, offset: 57446},
+													pos: position{line: 1773, col: 15, offset: 57447},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2483, col: 22, offset: 79858},
+															pos: position{line: 2483, col: 22, offset: 79859},
 															run: (*parser).callonShortcutParagraph278,
 															expr: &seqExpr{
-																pos: position{line: 2483, col: 22, offset: 79858},
+																pos: position{line: 2483, col: 22, offset: 79859},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2488, col: 31, offset: 80079},
+																		pos:        position{line: 2488, col: 31, offset: 80080},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2488, col: 36, offset: 80084},
+																		pos: position{line: 2488, col: 36, offset: 80085},
 																		expr: &litMatcher{
-																			pos:        position{line: 2488, col: 37, offset: 80085},
+																			pos:        position{line: 2488, col: 37, offset: 80086},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2483, col: 49, offset: 79885},
+																		pos:   position{line: 2483, col: 49, offset: 79886},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2822, col: 13, offset: 89477},
+																			pos: position{line: 2822, col: 13, offset: 89478},
 																			run: (*parser).callonShortcutParagraph284,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2822, col: 13, offset: 89477},
+																				pos: position{line: 2822, col: 13, offset: 89478},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2822, col: 13, offset: 89477},
+																					pos:        position{line: 2822, col: 13, offset: 89478},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39626,28 +39626,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91349},
+																		pos: position{line: 2898, col: 8, offset: 91350},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91122},
+																				pos: position{line: 2885, col: 12, offset: 91123},
 																				run: (*parser).callonShortcutParagraph288,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91123},
+																					pos: position{line: 2885, col: 13, offset: 91124},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91123},
+																							pos:        position{line: 2885, col: 13, offset: 91124},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91130},
+																							pos:        position{line: 2885, col: 20, offset: 91131},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91139},
+																							pos:        position{line: 2885, col: 29, offset: 91140},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39656,9 +39656,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91299},
+																				pos: position{line: 2895, col: 8, offset: 91300},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91300,
+																					line: 2895, col: 9, offset: 91301,
 																				},
 																			},
 																		},
@@ -39667,21 +39667,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1795, col: 5, offset: 58046},
+															pos: position{line: 1795, col: 5, offset: 58047},
 															run: (*parser).callonShortcutParagraph295,
 															expr: &seqExpr{
-																pos: position{line: 1795, col: 5, offset: 58046},
+																pos: position{line: 1795, col: 5, offset: 58047},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1795, col: 5, offset: 58046},
+																		pos:   position{line: 1795, col: 5, offset: 58047},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2826, col: 14, offset: 89544},
+																			pos: position{line: 2826, col: 14, offset: 89545},
 																			run: (*parser).callonShortcutParagraph298,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2826, col: 14, offset: 89544},
+																				pos: position{line: 2826, col: 14, offset: 89545},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2826, col: 14, offset: 89544},
+																					pos:        position{line: 2826, col: 14, offset: 89545},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39691,32 +39691,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1796, col: 5, offset: 58070},
+																		pos: position{line: 1796, col: 5, offset: 58071},
 																		run: (*parser).callonShortcutParagraph301,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91349},
+																		pos: position{line: 2898, col: 8, offset: 91350},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91122},
+																				pos: position{line: 2885, col: 12, offset: 91123},
 																				run: (*parser).callonShortcutParagraph303,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91123},
+																					pos: position{line: 2885, col: 13, offset: 91124},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91123},
+																							pos:        position{line: 2885, col: 13, offset: 91124},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91130},
+																							pos:        position{line: 2885, col: 20, offset: 91131},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91139},
+																							pos:        position{line: 2885, col: 29, offset: 91140},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39725,9 +39725,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91299},
+																				pos: position{line: 2895, col: 8, offset: 91300},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91300,
+																					line: 2895, col: 9, offset: 91301,
 																				},
 																			},
 																		},
@@ -39749,96 +39749,96 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraph",
-			pos:  position{line: 1780, col: 1, offset: 57650},
+			pos:  position{line: 1780, col: 1, offset: 57651},
 			expr: &actionExpr{
-				pos: position{line: 1781, col: 5, offset: 57668},
+				pos: position{line: 1781, col: 5, offset: 57669},
 				run: (*parser).callonParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1781, col: 5, offset: 57668},
+					pos: position{line: 1781, col: 5, offset: 57669},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1781, col: 5, offset: 57668},
+							pos:   position{line: 1781, col: 5, offset: 57669},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1781, col: 11, offset: 57674},
+								pos: position{line: 1781, col: 11, offset: 57675},
 								expr: &actionExpr{
-									pos: position{line: 1736, col: 5, offset: 56176},
+									pos: position{line: 1736, col: 5, offset: 56177},
 									run: (*parser).callonParagraph5,
 									expr: &seqExpr{
-										pos: position{line: 1736, col: 5, offset: 56176},
+										pos: position{line: 1736, col: 5, offset: 56177},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1736, col: 5, offset: 56176},
+												pos: position{line: 1736, col: 5, offset: 56177},
 												run: (*parser).callonParagraph7,
 											},
 											&labeledExpr{
-												pos:   position{line: 1739, col: 5, offset: 56239},
+												pos:   position{line: 1739, col: 5, offset: 56240},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1739, col: 12, offset: 56246},
+													pos: position{line: 1739, col: 12, offset: 56247},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1739, col: 12, offset: 56246},
+															pos: position{line: 1739, col: 12, offset: 56247},
 															run: (*parser).callonParagraph10,
 															expr: &litMatcher{
-																pos:        position{line: 1739, col: 12, offset: 56246},
+																pos:        position{line: 1739, col: 12, offset: 56247},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1741, col: 13, offset: 56302},
+															pos: position{line: 1741, col: 13, offset: 56303},
 															run: (*parser).callonParagraph12,
 															expr: &litMatcher{
-																pos:        position{line: 1741, col: 13, offset: 56302},
+																pos:        position{line: 1741, col: 13, offset: 56303},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1743, col: 13, offset: 56360},
+															pos: position{line: 1743, col: 13, offset: 56361},
 															run: (*parser).callonParagraph14,
 															expr: &litMatcher{
-																pos:        position{line: 1743, col: 13, offset: 56360},
+																pos:        position{line: 1743, col: 13, offset: 56361},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1745, col: 13, offset: 56428},
+															pos: position{line: 1745, col: 13, offset: 56429},
 															run: (*parser).callonParagraph16,
 															expr: &litMatcher{
-																pos:        position{line: 1745, col: 13, offset: 56428},
+																pos:        position{line: 1745, col: 13, offset: 56429},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1747, col: 13, offset: 56492},
+															pos: position{line: 1747, col: 13, offset: 56493},
 															run: (*parser).callonParagraph18,
 															expr: &litMatcher{
-																pos:        position{line: 1747, col: 13, offset: 56492},
+																pos:        position{line: 1747, col: 13, offset: 56493},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1749, col: 13, offset: 56556},
+															pos: position{line: 1749, col: 13, offset: 56557},
 															run: (*parser).callonParagraph20,
 															expr: &andExpr{
-																pos: position{line: 1749, col: 13, offset: 56556},
+																pos: position{line: 1749, col: 13, offset: 56557},
 																expr: &actionExpr{
-																	pos: position{line: 2880, col: 11, offset: 91012},
+																	pos: position{line: 2880, col: 11, offset: 91013},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2880, col: 11, offset: 91012},
+																		pos: position{line: 2880, col: 11, offset: 91013},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 11, offset: 91012},
+																			pos:        position{line: 2880, col: 11, offset: 91013},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -39852,17 +39852,17 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1751, col: 12, offset: 56626},
+												pos: position{line: 1751, col: 12, offset: 56627},
 												expr: &seqExpr{
-													pos: position{line: 1751, col: 14, offset: 56628},
+													pos: position{line: 1751, col: 14, offset: 56629},
 													exprs: []interface{}{
 														&zeroOrMoreExpr{
-															pos: position{line: 1751, col: 14, offset: 56628},
+															pos: position{line: 1751, col: 14, offset: 56629},
 															expr: &actionExpr{
-																pos: position{line: 2876, col: 10, offset: 90951},
+																pos: position{line: 2876, col: 10, offset: 90952},
 																run: (*parser).callonParagraph28,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2876, col: 10, offset: 90951},
+																	pos:        position{line: 2876, col: 10, offset: 90952},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -39871,28 +39871,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2898, col: 8, offset: 91349},
+															pos: position{line: 2898, col: 8, offset: 91350},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2885, col: 12, offset: 91122},
+																	pos: position{line: 2885, col: 12, offset: 91123},
 																	run: (*parser).callonParagraph31,
 																	expr: &choiceExpr{
-																		pos: position{line: 2885, col: 13, offset: 91123},
+																		pos: position{line: 2885, col: 13, offset: 91124},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2885, col: 13, offset: 91123},
+																				pos:        position{line: 2885, col: 13, offset: 91124},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2885, col: 20, offset: 91130},
+																				pos:        position{line: 2885, col: 20, offset: 91131},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2885, col: 29, offset: 91139},
+																				pos:        position{line: 2885, col: 29, offset: 91140},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -39901,9 +39901,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2895, col: 8, offset: 91299},
+																	pos: position{line: 2895, col: 8, offset: 91300},
 																	expr: &anyMatcher{
-																		line: 2895, col: 9, offset: 91300,
+																		line: 2895, col: 9, offset: 91301,
 																	},
 																},
 															},
@@ -39917,24 +39917,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1782, col: 5, offset: 57697},
+							pos:   position{line: 1782, col: 5, offset: 57698},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1795, col: 5, offset: 58046},
+								pos: position{line: 1795, col: 5, offset: 58047},
 								run: (*parser).callonParagraph39,
 								expr: &seqExpr{
-									pos: position{line: 1795, col: 5, offset: 58046},
+									pos: position{line: 1795, col: 5, offset: 58047},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1795, col: 5, offset: 58046},
+											pos:   position{line: 1795, col: 5, offset: 58047},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2826, col: 14, offset: 89544},
+												pos: position{line: 2826, col: 14, offset: 89545},
 												run: (*parser).callonParagraph42,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2826, col: 14, offset: 89544},
+													pos: position{line: 2826, col: 14, offset: 89545},
 													expr: &charClassMatcher{
-														pos:        position{line: 2826, col: 14, offset: 89544},
+														pos:        position{line: 2826, col: 14, offset: 89545},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -39944,32 +39944,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1796, col: 5, offset: 58070},
+											pos: position{line: 1796, col: 5, offset: 58071},
 											run: (*parser).callonParagraph45,
 										},
 										&choiceExpr{
-											pos: position{line: 2898, col: 8, offset: 91349},
+											pos: position{line: 2898, col: 8, offset: 91350},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2885, col: 12, offset: 91122},
+													pos: position{line: 2885, col: 12, offset: 91123},
 													run: (*parser).callonParagraph47,
 													expr: &choiceExpr{
-														pos: position{line: 2885, col: 13, offset: 91123},
+														pos: position{line: 2885, col: 13, offset: 91124},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2885, col: 13, offset: 91123},
+																pos:        position{line: 2885, col: 13, offset: 91124},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2885, col: 20, offset: 91130},
+																pos:        position{line: 2885, col: 20, offset: 91131},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2885, col: 29, offset: 91139},
+																pos:        position{line: 2885, col: 29, offset: 91140},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -39978,9 +39978,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2895, col: 8, offset: 91299},
+													pos: position{line: 2895, col: 8, offset: 91300},
 													expr: &anyMatcher{
-														line: 2895, col: 9, offset: 91300,
+														line: 2895, col: 9, offset: 91301,
 													},
 												},
 											},
@@ -39990,43 +39990,43 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1783, col: 5, offset: 57731},
+							pos:   position{line: 1783, col: 5, offset: 57732},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1783, col: 16, offset: 57742},
+								pos: position{line: 1783, col: 16, offset: 57743},
 								expr: &actionExpr{
-									pos: position{line: 1784, col: 9, offset: 57752},
+									pos: position{line: 1784, col: 9, offset: 57753},
 									run: (*parser).callonParagraph56,
 									expr: &seqExpr{
-										pos: position{line: 1784, col: 9, offset: 57752},
+										pos: position{line: 1784, col: 9, offset: 57753},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2893, col: 11, offset: 91285},
+												pos: position{line: 2893, col: 11, offset: 91286},
 												expr: &anyMatcher{
-													line: 2893, col: 13, offset: 91287,
+													line: 2893, col: 13, offset: 91288,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1785, col: 9, offset: 57767},
+												pos: position{line: 1785, col: 9, offset: 57768},
 												expr: &actionExpr{
-													pos: position{line: 677, col: 14, offset: 21557},
+													pos: position{line: 677, col: 14, offset: 21558},
 													run: (*parser).callonParagraph61,
 													expr: &seqExpr{
-														pos: position{line: 677, col: 14, offset: 21557},
+														pos: position{line: 677, col: 14, offset: 21558},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2893, col: 11, offset: 91285},
+																pos: position{line: 2893, col: 11, offset: 91286},
 																expr: &anyMatcher{
-																	line: 2893, col: 13, offset: 91287,
+																	line: 2893, col: 13, offset: 91288,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 677, col: 21, offset: 21564},
+																pos: position{line: 677, col: 21, offset: 21565},
 																expr: &actionExpr{
-																	pos: position{line: 2876, col: 10, offset: 90951},
+																	pos: position{line: 2876, col: 10, offset: 90952},
 																	run: (*parser).callonParagraph66,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2876, col: 10, offset: 90951},
+																		pos:        position{line: 2876, col: 10, offset: 90952},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -40035,28 +40035,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2898, col: 8, offset: 91349},
+																pos: position{line: 2898, col: 8, offset: 91350},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2885, col: 12, offset: 91122},
+																		pos: position{line: 2885, col: 12, offset: 91123},
 																		run: (*parser).callonParagraph69,
 																		expr: &choiceExpr{
-																			pos: position{line: 2885, col: 13, offset: 91123},
+																			pos: position{line: 2885, col: 13, offset: 91124},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 13, offset: 91123},
+																					pos:        position{line: 2885, col: 13, offset: 91124},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 20, offset: 91130},
+																					pos:        position{line: 2885, col: 20, offset: 91131},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 29, offset: 91139},
+																					pos:        position{line: 2885, col: 29, offset: 91140},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -40065,9 +40065,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91299},
+																		pos: position{line: 2895, col: 8, offset: 91300},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91300,
+																			line: 2895, col: 9, offset: 91301,
 																		},
 																	},
 																},
@@ -40077,49 +40077,49 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1786, col: 9, offset: 57786},
+												pos: position{line: 1786, col: 9, offset: 57787},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1786, col: 10, offset: 57787},
+													pos:  position{line: 1786, col: 10, offset: 57788},
 													name: "BlockAttributes",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1787, col: 9, offset: 57811},
+												pos:   position{line: 1787, col: 9, offset: 57812},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1787, col: 15, offset: 57817},
+													pos: position{line: 1787, col: 15, offset: 57818},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2483, col: 22, offset: 79858},
+															pos: position{line: 2483, col: 22, offset: 79859},
 															run: (*parser).callonParagraph80,
 															expr: &seqExpr{
-																pos: position{line: 2483, col: 22, offset: 79858},
+																pos: position{line: 2483, col: 22, offset: 79859},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2488, col: 31, offset: 80079},
+																		pos:        position{line: 2488, col: 31, offset: 80080},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2488, col: 36, offset: 80084},
+																		pos: position{line: 2488, col: 36, offset: 80085},
 																		expr: &litMatcher{
-																			pos:        position{line: 2488, col: 37, offset: 80085},
+																			pos:        position{line: 2488, col: 37, offset: 80086},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2483, col: 49, offset: 79885},
+																		pos:   position{line: 2483, col: 49, offset: 79886},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2822, col: 13, offset: 89477},
+																			pos: position{line: 2822, col: 13, offset: 89478},
 																			run: (*parser).callonParagraph86,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2822, col: 13, offset: 89477},
+																				pos: position{line: 2822, col: 13, offset: 89478},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2822, col: 13, offset: 89477},
+																					pos:        position{line: 2822, col: 13, offset: 89478},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40129,28 +40129,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91349},
+																		pos: position{line: 2898, col: 8, offset: 91350},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91122},
+																				pos: position{line: 2885, col: 12, offset: 91123},
 																				run: (*parser).callonParagraph90,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91123},
+																					pos: position{line: 2885, col: 13, offset: 91124},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91123},
+																							pos:        position{line: 2885, col: 13, offset: 91124},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91130},
+																							pos:        position{line: 2885, col: 20, offset: 91131},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91139},
+																							pos:        position{line: 2885, col: 29, offset: 91140},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40159,9 +40159,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91299},
+																				pos: position{line: 2895, col: 8, offset: 91300},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91300,
+																					line: 2895, col: 9, offset: 91301,
 																				},
 																			},
 																		},
@@ -40170,21 +40170,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1795, col: 5, offset: 58046},
+															pos: position{line: 1795, col: 5, offset: 58047},
 															run: (*parser).callonParagraph97,
 															expr: &seqExpr{
-																pos: position{line: 1795, col: 5, offset: 58046},
+																pos: position{line: 1795, col: 5, offset: 58047},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1795, col: 5, offset: 58046},
+																		pos:   position{line: 1795, col: 5, offset: 58047},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2826, col: 14, offset: 89544},
+																			pos: position{line: 2826, col: 14, offset: 89545},
 																			run: (*parser).callonParagraph100,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2826, col: 14, offset: 89544},
+																				pos: position{line: 2826, col: 14, offset: 89545},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2826, col: 14, offset: 89544},
+																					pos:        position{line: 2826, col: 14, offset: 89545},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40194,32 +40194,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1796, col: 5, offset: 58070},
+																		pos: position{line: 1796, col: 5, offset: 58071},
 																		run: (*parser).callonParagraph103,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91349},
+																		pos: position{line: 2898, col: 8, offset: 91350},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91122},
+																				pos: position{line: 2885, col: 12, offset: 91123},
 																				run: (*parser).callonParagraph105,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91123},
+																					pos: position{line: 2885, col: 13, offset: 91124},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91123},
+																							pos:        position{line: 2885, col: 13, offset: 91124},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91130},
+																							pos:        position{line: 2885, col: 20, offset: 91131},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91139},
+																							pos:        position{line: 2885, col: 29, offset: 91140},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40228,9 +40228,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91299},
+																				pos: position{line: 2895, col: 8, offset: 91300},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91300,
+																					line: 2895, col: 9, offset: 91301,
 																				},
 																			},
 																		},
@@ -40252,16 +40252,16 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedText",
-			pos:  position{line: 1806, col: 1, offset: 58552},
+			pos:  position{line: 1806, col: 1, offset: 58553},
 			expr: &choiceExpr{
-				pos: position{line: 1806, col: 15, offset: 58566},
+				pos: position{line: 1806, col: 15, offset: 58567},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1806, col: 15, offset: 58566},
+						pos:  position{line: 1806, col: 15, offset: 58567},
 						name: "EscapedQuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1806, col: 35, offset: 58586},
+						pos:  position{line: 1806, col: 35, offset: 58587},
 						name: "UnescapedQuotedText",
 					},
 				},
@@ -40269,65 +40269,65 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedQuotedText",
-			pos:  position{line: 1808, col: 1, offset: 58607},
+			pos:  position{line: 1808, col: 1, offset: 58608},
 			expr: &actionExpr{
-				pos: position{line: 1809, col: 5, offset: 58632},
+				pos: position{line: 1809, col: 5, offset: 58633},
 				run: (*parser).callonEscapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1809, col: 5, offset: 58632},
+					pos: position{line: 1809, col: 5, offset: 58633},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1809, col: 5, offset: 58632},
+							pos:   position{line: 1809, col: 5, offset: 58633},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1809, col: 16, offset: 58643},
+								pos: position{line: 1809, col: 16, offset: 58644},
 								expr: &actionExpr{
-									pos: position{line: 1809, col: 17, offset: 58644},
+									pos: position{line: 1809, col: 17, offset: 58645},
 									run: (*parser).callonEscapedQuotedText5,
 									expr: &ruleRefExpr{
-										pos:  position{line: 1809, col: 17, offset: 58644},
+										pos:  position{line: 1809, col: 17, offset: 58645},
 										name: "LongHandAttributes",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 1812, col: 5, offset: 58712},
+							pos: position{line: 1812, col: 5, offset: 58713},
 							expr: &litMatcher{
-								pos:        position{line: 1812, col: 7, offset: 58714},
+								pos:        position{line: 1812, col: 7, offset: 58715},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1813, col: 5, offset: 58723},
+							pos:   position{line: 1813, col: 5, offset: 58724},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1814, col: 9, offset: 58741},
+								pos: position{line: 1814, col: 9, offset: 58742},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1814, col: 9, offset: 58741},
+										pos:  position{line: 1814, col: 9, offset: 58742},
 										name: "EscapedBoldText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1815, col: 11, offset: 58768},
+										pos:  position{line: 1815, col: 11, offset: 58769},
 										name: "EscapedItalicText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1816, col: 11, offset: 58796},
+										pos:  position{line: 1816, col: 11, offset: 58797},
 										name: "EscapedMonospaceText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1817, col: 11, offset: 58827},
+										pos:  position{line: 1817, col: 11, offset: 58828},
 										name: "EscapedMarkedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1818, col: 11, offset: 58855},
+										pos:  position{line: 1818, col: 11, offset: 58856},
 										name: "EscapedSubscriptText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1819, col: 11, offset: 58886},
+										pos:  position{line: 1819, col: 11, offset: 58887},
 										name: "EscapedSuperscriptText",
 									},
 								},
@@ -40339,36 +40339,36 @@ var g = &grammar{
 		},
 		{
 			name: "UnescapedQuotedText",
-			pos:  position{line: 1824, col: 1, offset: 59006},
+			pos:  position{line: 1824, col: 1, offset: 59007},
 			expr: &actionExpr{
-				pos: position{line: 1825, col: 5, offset: 59048},
+				pos: position{line: 1825, col: 5, offset: 59049},
 				run: (*parser).callonUnescapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1825, col: 5, offset: 59048},
+					pos: position{line: 1825, col: 5, offset: 59049},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1825, col: 5, offset: 59048},
+							pos:   position{line: 1825, col: 5, offset: 59049},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1825, col: 16, offset: 59059},
+								pos: position{line: 1825, col: 16, offset: 59060},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1825, col: 17, offset: 59060},
+									pos:  position{line: 1825, col: 17, offset: 59061},
 									name: "LongHandAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1826, col: 5, offset: 59085},
+							pos:   position{line: 1826, col: 5, offset: 59086},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1826, col: 14, offset: 59094},
+								pos: position{line: 1826, col: 14, offset: 59095},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1826, col: 14, offset: 59094},
+										pos:  position{line: 1826, col: 14, offset: 59095},
 										name: "SingleQuotedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1826, col: 33, offset: 59113},
+										pos:  position{line: 1826, col: 33, offset: 59114},
 										name: "DoubleQuotedText",
 									},
 								},
@@ -40380,32 +40380,32 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedText",
-			pos:  position{line: 1834, col: 1, offset: 59344},
+			pos:  position{line: 1834, col: 1, offset: 59345},
 			expr: &choiceExpr{
-				pos: position{line: 1835, col: 5, offset: 59369},
+				pos: position{line: 1835, col: 5, offset: 59370},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1835, col: 5, offset: 59369},
+						pos:  position{line: 1835, col: 5, offset: 59370},
 						name: "SingleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1836, col: 7, offset: 59396},
+						pos:  position{line: 1836, col: 7, offset: 59397},
 						name: "SingleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1837, col: 7, offset: 59424},
+						pos:  position{line: 1837, col: 7, offset: 59425},
 						name: "SingleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1838, col: 7, offset: 59456},
+						pos:  position{line: 1838, col: 7, offset: 59457},
 						name: "SingleQuoteMarkedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1839, col: 7, offset: 59484},
+						pos:  position{line: 1839, col: 7, offset: 59485},
 						name: "SubscriptText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1840, col: 7, offset: 59505},
+						pos:  position{line: 1840, col: 7, offset: 59506},
 						name: "SuperscriptText",
 					},
 				},
@@ -40413,24 +40413,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedText",
-			pos:  position{line: 1842, col: 1, offset: 59523},
+			pos:  position{line: 1842, col: 1, offset: 59524},
 			expr: &choiceExpr{
-				pos: position{line: 1843, col: 5, offset: 59548},
+				pos: position{line: 1843, col: 5, offset: 59549},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1843, col: 5, offset: 59548},
+						pos:  position{line: 1843, col: 5, offset: 59549},
 						name: "DoubleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1844, col: 7, offset: 59574},
+						pos:  position{line: 1844, col: 7, offset: 59575},
 						name: "DoubleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1845, col: 7, offset: 59602},
+						pos:  position{line: 1845, col: 7, offset: 59603},
 						name: "DoubleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1846, col: 7, offset: 59633},
+						pos:  position{line: 1846, col: 7, offset: 59634},
 						name: "DoubleQuoteMarkedText",
 					},
 				},
@@ -40438,26 +40438,26 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedTextElement",
-			pos:  position{line: 1860, col: 1, offset: 59987},
+			pos:  position{line: 1860, col: 1, offset: 59988},
 			expr: &choiceExpr{
-				pos: position{line: 1861, col: 5, offset: 60013},
+				pos: position{line: 1861, col: 5, offset: 60014},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2775, col: 5, offset: 88193},
+						pos: position{line: 2775, col: 5, offset: 88194},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2775, col: 5, offset: 88193},
+							pos: position{line: 2775, col: 5, offset: 88194},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2775, col: 5, offset: 88193},
+									pos:   position{line: 2775, col: 5, offset: 88194},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2775, col: 11, offset: 88199},
+										pos: position{line: 2775, col: 11, offset: 88200},
 										run: (*parser).callonQuotedTextElement5,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2775, col: 11, offset: 88199},
+											pos: position{line: 2775, col: 11, offset: 88200},
 											expr: &charClassMatcher{
-												pos:        position{line: 2775, col: 11, offset: 88199},
+												pos:        position{line: 2775, col: 11, offset: 88200},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40467,36 +40467,36 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2778, col: 5, offset: 88257},
+									pos: position{line: 2778, col: 5, offset: 88258},
 									expr: &seqExpr{
-										pos: position{line: 2779, col: 9, offset: 88268},
+										pos: position{line: 2779, col: 9, offset: 88269},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2779, col: 9, offset: 88268},
+												pos:        position{line: 2779, col: 9, offset: 88269},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2780, col: 9, offset: 88317},
+												pos: position{line: 2780, col: 9, offset: 88318},
 												run: (*parser).callonQuotedTextElement11,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2784, col: 5, offset: 88397},
+									pos: position{line: 2784, col: 5, offset: 88398},
 									expr: &seqExpr{
-										pos: position{line: 2785, col: 9, offset: 88408},
+										pos: position{line: 2785, col: 9, offset: 88409},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2785, col: 9, offset: 88408},
+												pos:        position{line: 2785, col: 9, offset: 88409},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2785, col: 13, offset: 88412},
+												pos:        position{line: 2785, col: 13, offset: 88413},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40509,12 +40509,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2880, col: 11, offset: 91012},
+						pos: position{line: 2880, col: 11, offset: 91013},
 						run: (*parser).callonQuotedTextElement16,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2880, col: 11, offset: 91012},
+							pos: position{line: 2880, col: 11, offset: 91013},
 							expr: &charClassMatcher{
-								pos:        position{line: 2880, col: 11, offset: 91012},
+								pos:        position{line: 2880, col: 11, offset: 91013},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -40523,29 +40523,29 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1863, col: 7, offset: 60076},
+						pos:  position{line: 1863, col: 7, offset: 60077},
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2501, col: 5, offset: 80575},
+						pos: position{line: 2501, col: 5, offset: 80576},
 						run: (*parser).callonQuotedTextElement20,
 						expr: &seqExpr{
-							pos: position{line: 2501, col: 5, offset: 80575},
+							pos: position{line: 2501, col: 5, offset: 80576},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2501, col: 5, offset: 80575},
+									pos: position{line: 2501, col: 5, offset: 80576},
 									run: (*parser).callonQuotedTextElement22,
 								},
 								&litMatcher{
-									pos:        position{line: 2504, col: 5, offset: 80646},
+									pos:        position{line: 2504, col: 5, offset: 80647},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2504, col: 10, offset: 80651},
+									pos: position{line: 2504, col: 10, offset: 80652},
 									expr: &charClassMatcher{
-										pos:        position{line: 2504, col: 11, offset: 80652},
+										pos:        position{line: 2504, col: 11, offset: 80653},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -40556,29 +40556,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2510, col: 5, offset: 80844},
+						pos: position{line: 2510, col: 5, offset: 80845},
 						run: (*parser).callonQuotedTextElement26,
 						expr: &seqExpr{
-							pos: position{line: 2510, col: 5, offset: 80844},
+							pos: position{line: 2510, col: 5, offset: 80845},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2510, col: 5, offset: 80844},
+									pos: position{line: 2510, col: 5, offset: 80845},
 									run: (*parser).callonQuotedTextElement28,
 								},
 								&andCodeExpr{
-									pos: position{line: 2513, col: 5, offset: 80915},
+									pos: position{line: 2513, col: 5, offset: 80916},
 									run: (*parser).callonQuotedTextElement29,
 								},
 								&litMatcher{
-									pos:        position{line: 2517, col: 5, offset: 81040},
+									pos:        position{line: 2517, col: 5, offset: 81041},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2517, col: 9, offset: 81044},
+									pos: position{line: 2517, col: 9, offset: 81045},
 									expr: &charClassMatcher{
-										pos:        position{line: 2517, col: 10, offset: 81045},
+										pos:        position{line: 2517, col: 10, offset: 81046},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -40589,27 +40589,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2793, col: 5, offset: 88605},
+						pos: position{line: 2793, col: 5, offset: 88606},
 						run: (*parser).callonQuotedTextElement33,
 						expr: &choiceExpr{
-							pos: position{line: 2794, col: 9, offset: 88615},
+							pos: position{line: 2794, col: 9, offset: 88616},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2794, col: 10, offset: 88616},
+									pos:        position{line: 2794, col: 10, offset: 88617},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2796, col: 13, offset: 88713},
+									pos: position{line: 2796, col: 13, offset: 88714},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2796, col: 13, offset: 88713},
+											pos: position{line: 2796, col: 13, offset: 88714},
 											run: (*parser).callonQuotedTextElement37,
 										},
 										&litMatcher{
-											pos:        position{line: 2799, col: 13, offset: 88813},
+											pos:        position{line: 2799, col: 13, offset: 88814},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -40617,20 +40617,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2799, col: 19, offset: 88819},
+									pos:        position{line: 2799, col: 19, offset: 88820},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2802, col: 13, offset: 88857},
+									pos: position{line: 2802, col: 13, offset: 88858},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2802, col: 13, offset: 88857},
+											pos: position{line: 2802, col: 13, offset: 88858},
 											run: (*parser).callonQuotedTextElement41,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2805, col: 14, offset: 88950},
+											pos:        position{line: 2805, col: 14, offset: 88951},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -40639,18 +40639,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2807, col: 12, offset: 88994},
+									pos: position{line: 2807, col: 12, offset: 88995},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2807, col: 12, offset: 88994},
+											pos:        position{line: 2807, col: 12, offset: 88995},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2807, col: 16, offset: 88998},
+											pos: position{line: 2807, col: 16, offset: 88999},
 											expr: &litMatcher{
-												pos:        position{line: 2807, col: 17, offset: 88999},
+												pos:        position{line: 2807, col: 17, offset: 89000},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -40662,35 +40662,35 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 636, col: 5, offset: 20177},
+						pos: position{line: 636, col: 5, offset: 20178},
 						run: (*parser).callonQuotedTextElement47,
 						expr: &seqExpr{
-							pos: position{line: 636, col: 5, offset: 20177},
+							pos: position{line: 636, col: 5, offset: 20178},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 636, col: 5, offset: 20177},
+									pos: position{line: 636, col: 5, offset: 20178},
 									run: (*parser).callonQuotedTextElement49,
 								},
 								&labeledExpr{
-									pos:   position{line: 639, col: 5, offset: 20249},
+									pos:   position{line: 639, col: 5, offset: 20250},
 									label: "element",
 									expr: &choiceExpr{
-										pos: position{line: 639, col: 14, offset: 20258},
+										pos: position{line: 639, col: 14, offset: 20259},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 645, col: 5, offset: 20387},
+												pos: position{line: 645, col: 5, offset: 20388},
 												run: (*parser).callonQuotedTextElement52,
 												expr: &seqExpr{
-													pos: position{line: 645, col: 5, offset: 20387},
+													pos: position{line: 645, col: 5, offset: 20388},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 645, col: 5, offset: 20387},
+															pos:        position{line: 645, col: 5, offset: 20388},
 															val:        "\\{",
 															ignoreCase: false,
 															want:       "\"\\\\{\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 645, col: 13, offset: 20395},
+															pos:   position{line: 645, col: 13, offset: 20396},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 318, col: 18, offset: 9729},
@@ -40710,8 +40710,8 @@ var g = &grammar{
 																			pos: position{line: 318, col: 28, offset: 9739},
 																			expr: &charClassMatcher{
 																				pos:        position{line: 318, col: 29, offset: 9740},
-																				val:        "[-\\pL\\pN]",
-																				chars:      []rune{'-'},
+																				val:        "[_-\\pL\\pN]",
+																				chars:      []rune{'_', '-'},
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
 																				inverted:   false,
@@ -40722,7 +40722,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 645, col: 32, offset: 20414},
+															pos:        position{line: 645, col: 32, offset: 20415},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -40731,19 +40731,19 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 652, col: 5, offset: 20655},
+												pos: position{line: 652, col: 5, offset: 20656},
 												run: (*parser).callonQuotedTextElement62,
 												expr: &seqExpr{
-													pos: position{line: 652, col: 5, offset: 20655},
+													pos: position{line: 652, col: 5, offset: 20656},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 652, col: 5, offset: 20655},
+															pos:        position{line: 652, col: 5, offset: 20656},
 															val:        "{",
 															ignoreCase: false,
 															want:       "\"{\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 652, col: 9, offset: 20659},
+															pos:   position{line: 652, col: 9, offset: 20660},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 318, col: 18, offset: 9729},
@@ -40763,8 +40763,8 @@ var g = &grammar{
 																			pos: position{line: 318, col: 28, offset: 9739},
 																			expr: &charClassMatcher{
 																				pos:        position{line: 318, col: 29, offset: 9740},
-																				val:        "[-\\pL\\pN]",
-																				chars:      []rune{'-'},
+																				val:        "[_-\\pL\\pN]",
+																				chars:      []rune{'_', '-'},
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
 																				inverted:   false,
@@ -40775,7 +40775,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 652, col: 28, offset: 20678},
+															pos:        position{line: 652, col: 28, offset: 20679},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -40784,19 +40784,19 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 658, col: 25, offset: 20859},
+												pos: position{line: 658, col: 25, offset: 20860},
 												run: (*parser).callonQuotedTextElement72,
 												expr: &seqExpr{
-													pos: position{line: 658, col: 25, offset: 20859},
+													pos: position{line: 658, col: 25, offset: 20860},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 658, col: 25, offset: 20859},
+															pos:        position{line: 658, col: 25, offset: 20860},
 															val:        "{counter:",
 															ignoreCase: false,
 															want:       "\"{counter:\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 658, col: 37, offset: 20871},
+															pos:   position{line: 658, col: 37, offset: 20872},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 318, col: 18, offset: 9729},
@@ -40816,8 +40816,8 @@ var g = &grammar{
 																			pos: position{line: 318, col: 28, offset: 9739},
 																			expr: &charClassMatcher{
 																				pos:        position{line: 318, col: 29, offset: 9740},
-																				val:        "[-\\pL\\pN]",
-																				chars:      []rune{'-'},
+																				val:        "[_-\\pL\\pN]",
+																				chars:      []rune{'_', '-'},
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
 																				inverted:   false,
@@ -40828,33 +40828,33 @@ var g = &grammar{
 															},
 														},
 														&labeledExpr{
-															pos:   position{line: 658, col: 56, offset: 20890},
+															pos:   position{line: 658, col: 56, offset: 20891},
 															label: "start",
 															expr: &zeroOrOneExpr{
-																pos: position{line: 658, col: 62, offset: 20896},
+																pos: position{line: 658, col: 62, offset: 20897},
 																expr: &actionExpr{
-																	pos: position{line: 666, col: 17, offset: 21191},
+																	pos: position{line: 666, col: 17, offset: 21192},
 																	run: (*parser).callonQuotedTextElement83,
 																	expr: &seqExpr{
-																		pos: position{line: 666, col: 17, offset: 21191},
+																		pos: position{line: 666, col: 17, offset: 21192},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 666, col: 17, offset: 21191},
+																				pos:        position{line: 666, col: 17, offset: 21192},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 666, col: 21, offset: 21195},
+																				pos:   position{line: 666, col: 21, offset: 21196},
 																				label: "start",
 																				expr: &choiceExpr{
-																					pos: position{line: 666, col: 28, offset: 21202},
+																					pos: position{line: 666, col: 28, offset: 21203},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 666, col: 28, offset: 21202},
+																							pos: position{line: 666, col: 28, offset: 21203},
 																							run: (*parser).callonQuotedTextElement88,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 666, col: 28, offset: 21202},
+																								pos:        position{line: 666, col: 28, offset: 21203},
 																								val:        "[A-Za-z]",
 																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																								ignoreCase: false,
@@ -40862,12 +40862,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 668, col: 9, offset: 21256},
+																							pos: position{line: 668, col: 9, offset: 21257},
 																							run: (*parser).callonQuotedTextElement90,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 668, col: 9, offset: 21256},
+																								pos: position{line: 668, col: 9, offset: 21257},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 668, col: 9, offset: 21256},
+																									pos:        position{line: 668, col: 9, offset: 21257},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -40884,7 +40884,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 658, col: 78, offset: 20912},
+															pos:        position{line: 658, col: 78, offset: 20913},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -40893,19 +40893,19 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 662, col: 25, offset: 21030},
+												pos: position{line: 662, col: 25, offset: 21031},
 												run: (*parser).callonQuotedTextElement94,
 												expr: &seqExpr{
-													pos: position{line: 662, col: 25, offset: 21030},
+													pos: position{line: 662, col: 25, offset: 21031},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 662, col: 25, offset: 21030},
+															pos:        position{line: 662, col: 25, offset: 21031},
 															val:        "{counter2:",
 															ignoreCase: false,
 															want:       "\"{counter2:\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 662, col: 38, offset: 21043},
+															pos:   position{line: 662, col: 38, offset: 21044},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 318, col: 18, offset: 9729},
@@ -40925,8 +40925,8 @@ var g = &grammar{
 																			pos: position{line: 318, col: 28, offset: 9739},
 																			expr: &charClassMatcher{
 																				pos:        position{line: 318, col: 29, offset: 9740},
-																				val:        "[-\\pL\\pN]",
-																				chars:      []rune{'-'},
+																				val:        "[_-\\pL\\pN]",
+																				chars:      []rune{'_', '-'},
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
 																				inverted:   false,
@@ -40937,33 +40937,33 @@ var g = &grammar{
 															},
 														},
 														&labeledExpr{
-															pos:   position{line: 662, col: 57, offset: 21062},
+															pos:   position{line: 662, col: 57, offset: 21063},
 															label: "start",
 															expr: &zeroOrOneExpr{
-																pos: position{line: 662, col: 63, offset: 21068},
+																pos: position{line: 662, col: 63, offset: 21069},
 																expr: &actionExpr{
-																	pos: position{line: 666, col: 17, offset: 21191},
+																	pos: position{line: 666, col: 17, offset: 21192},
 																	run: (*parser).callonQuotedTextElement105,
 																	expr: &seqExpr{
-																		pos: position{line: 666, col: 17, offset: 21191},
+																		pos: position{line: 666, col: 17, offset: 21192},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 666, col: 17, offset: 21191},
+																				pos:        position{line: 666, col: 17, offset: 21192},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 666, col: 21, offset: 21195},
+																				pos:   position{line: 666, col: 21, offset: 21196},
 																				label: "start",
 																				expr: &choiceExpr{
-																					pos: position{line: 666, col: 28, offset: 21202},
+																					pos: position{line: 666, col: 28, offset: 21203},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 666, col: 28, offset: 21202},
+																							pos: position{line: 666, col: 28, offset: 21203},
 																							run: (*parser).callonQuotedTextElement110,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 666, col: 28, offset: 21202},
+																								pos:        position{line: 666, col: 28, offset: 21203},
 																								val:        "[A-Za-z]",
 																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																								ignoreCase: false,
@@ -40971,12 +40971,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 668, col: 9, offset: 21256},
+																							pos: position{line: 668, col: 9, offset: 21257},
 																							run: (*parser).callonQuotedTextElement112,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 668, col: 9, offset: 21256},
+																								pos: position{line: 668, col: 9, offset: 21257},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 668, col: 9, offset: 21256},
+																									pos:        position{line: 668, col: 9, offset: 21257},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -40993,7 +40993,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 662, col: 79, offset: 21084},
+															pos:        position{line: 662, col: 79, offset: 21085},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -41008,31 +41008,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2889, col: 18, offset: 91222},
+						pos: position{line: 2889, col: 18, offset: 91223},
 						run: (*parser).callonQuotedTextElement116,
 						expr: &seqExpr{
-							pos: position{line: 2889, col: 18, offset: 91222},
+							pos: position{line: 2889, col: 18, offset: 91223},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2885, col: 12, offset: 91122},
+									pos: position{line: 2885, col: 12, offset: 91123},
 									run: (*parser).callonQuotedTextElement118,
 									expr: &choiceExpr{
-										pos: position{line: 2885, col: 13, offset: 91123},
+										pos: position{line: 2885, col: 13, offset: 91124},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2885, col: 13, offset: 91123},
+												pos:        position{line: 2885, col: 13, offset: 91124},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 20, offset: 91130},
+												pos:        position{line: 2885, col: 20, offset: 91131},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 29, offset: 91139},
+												pos:        position{line: 2885, col: 29, offset: 91140},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -41041,27 +41041,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2889, col: 26, offset: 91230},
+									pos: position{line: 2889, col: 26, offset: 91231},
 									expr: &actionExpr{
-										pos: position{line: 2885, col: 12, offset: 91122},
+										pos: position{line: 2885, col: 12, offset: 91123},
 										run: (*parser).callonQuotedTextElement124,
 										expr: &choiceExpr{
-											pos: position{line: 2885, col: 13, offset: 91123},
+											pos: position{line: 2885, col: 13, offset: 91124},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2885, col: 13, offset: 91123},
+													pos:        position{line: 2885, col: 13, offset: 91124},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2885, col: 20, offset: 91130},
+													pos:        position{line: 2885, col: 20, offset: 91131},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2885, col: 29, offset: 91139},
+													pos:        position{line: 2885, col: 29, offset: 91140},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -41074,31 +41074,31 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1868, col: 7, offset: 60243},
+						pos:  position{line: 1868, col: 7, offset: 60244},
 						name: "QuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1869, col: 7, offset: 60290},
+						pos:  position{line: 1869, col: 7, offset: 60291},
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2470, col: 5, offset: 79404},
+						pos: position{line: 2470, col: 5, offset: 79405},
 						run: (*parser).callonQuotedTextElement131,
 						expr: &seqExpr{
-							pos: position{line: 2470, col: 5, offset: 79404},
+							pos: position{line: 2470, col: 5, offset: 79405},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2470, col: 5, offset: 79404},
+									pos: position{line: 2470, col: 5, offset: 79405},
 									run: (*parser).callonQuotedTextElement133,
 								},
 								&labeledExpr{
-									pos:   position{line: 2473, col: 5, offset: 79480},
+									pos:   position{line: 2473, col: 5, offset: 79481},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2474, col: 9, offset: 79498},
+										pos: position{line: 2474, col: 9, offset: 79499},
 										run: (*parser).callonQuotedTextElement135,
 										expr: &charClassMatcher{
-											pos:        position{line: 2474, col: 10, offset: 79499},
+											pos:        position{line: 2474, col: 10, offset: 79500},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -41110,27 +41110,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1198, col: 23, offset: 37045},
+						pos: position{line: 1198, col: 23, offset: 37046},
 						run: (*parser).callonQuotedTextElement137,
 						expr: &seqExpr{
-							pos: position{line: 1198, col: 23, offset: 37045},
+							pos: position{line: 1198, col: 23, offset: 37046},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1196, col: 32, offset: 37013},
+									pos:        position{line: 1196, col: 32, offset: 37014},
 									val:        "�",
 									ignoreCase: false,
 									want:       "\"�\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1198, col: 51, offset: 37073},
+									pos:   position{line: 1198, col: 51, offset: 37074},
 									label: "ref",
 									expr: &actionExpr{
-										pos: position{line: 1198, col: 56, offset: 37078},
+										pos: position{line: 1198, col: 56, offset: 37079},
 										run: (*parser).callonQuotedTextElement141,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1198, col: 56, offset: 37078},
+											pos: position{line: 1198, col: 56, offset: 37079},
 											expr: &charClassMatcher{
-												pos:        position{line: 1198, col: 56, offset: 37078},
+												pos:        position{line: 1198, col: 56, offset: 37079},
 												val:        "[0-9]",
 												ranges:     []rune{'0', '9'},
 												ignoreCase: false,
@@ -41140,7 +41140,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1196, col: 32, offset: 37013},
+									pos:        position{line: 1196, col: 32, offset: 37014},
 									val:        "�",
 									ignoreCase: false,
 									want:       "\"�\"",
@@ -41149,10 +41149,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2815, col: 12, offset: 89259},
+						pos: position{line: 2815, col: 12, offset: 89260},
 						run: (*parser).callonQuotedTextElement145,
 						expr: &charClassMatcher{
-							pos:        position{line: 2815, col: 12, offset: 89259},
+							pos:        position{line: 2815, col: 12, offset: 89260},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -41164,29 +41164,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldText",
-			pos:  position{line: 1887, col: 1, offset: 60760},
+			pos:  position{line: 1887, col: 1, offset: 60761},
 			expr: &actionExpr{
-				pos: position{line: 1888, col: 5, offset: 60788},
+				pos: position{line: 1888, col: 5, offset: 60789},
 				run: (*parser).callonDoubleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1888, col: 5, offset: 60788},
+					pos: position{line: 1888, col: 5, offset: 60789},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1883, col: 38, offset: 60713},
+							pos:        position{line: 1883, col: 38, offset: 60714},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1889, col: 5, offset: 60827},
+							pos:   position{line: 1889, col: 5, offset: 60828},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1889, col: 15, offset: 60837},
+								pos:  position{line: 1889, col: 15, offset: 60838},
 								name: "DoubleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1885, col: 36, offset: 60754},
+							pos:        position{line: 1885, col: 36, offset: 60755},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
@@ -41197,44 +41197,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElements",
-			pos:  position{line: 1894, col: 1, offset: 60997},
+			pos:  position{line: 1894, col: 1, offset: 60998},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1894, col: 32, offset: 61028},
+				pos: position{line: 1894, col: 32, offset: 61029},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1894, col: 32, offset: 61028},
+					pos:  position{line: 1894, col: 32, offset: 61029},
 					name: "DoubleQuoteBoldTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteBoldTextElement",
-			pos:  position{line: 1896, col: 1, offset: 61059},
+			pos:  position{line: 1896, col: 1, offset: 61060},
 			expr: &actionExpr{
-				pos: position{line: 1897, col: 5, offset: 61094},
+				pos: position{line: 1897, col: 5, offset: 61095},
 				run: (*parser).callonDoubleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1897, col: 5, offset: 61094},
+					pos: position{line: 1897, col: 5, offset: 61095},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2893, col: 11, offset: 91285},
+							pos: position{line: 2893, col: 11, offset: 91286},
 							expr: &anyMatcher{
-								line: 2893, col: 13, offset: 91287,
+								line: 2893, col: 13, offset: 91288,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1898, col: 5, offset: 61105},
+							pos: position{line: 1898, col: 5, offset: 61106},
 							expr: &litMatcher{
-								pos:        position{line: 1885, col: 36, offset: 60754},
+								pos:        position{line: 1885, col: 36, offset: 60755},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1899, col: 5, offset: 61142},
+							pos:   position{line: 1899, col: 5, offset: 61143},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1899, col: 14, offset: 61151},
+								pos:  position{line: 1899, col: 14, offset: 61152},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41244,29 +41244,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldText",
-			pos:  position{line: 1924, col: 1, offset: 61831},
+			pos:  position{line: 1924, col: 1, offset: 61832},
 			expr: &actionExpr{
-				pos: position{line: 1925, col: 5, offset: 61859},
+				pos: position{line: 1925, col: 5, offset: 61860},
 				run: (*parser).callonSingleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1925, col: 5, offset: 61859},
+					pos: position{line: 1925, col: 5, offset: 61860},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1908, col: 5, offset: 61385},
+							pos:        position{line: 1908, col: 5, offset: 61386},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1909, col: 5, offset: 61394},
+							pos: position{line: 1909, col: 5, offset: 61395},
 							run: (*parser).callonSingleQuoteBoldText4,
 						},
 						&andExpr{
-							pos: position{line: 1913, col: 5, offset: 61512},
+							pos: position{line: 1913, col: 5, offset: 61513},
 							expr: &notExpr{
-								pos: position{line: 1913, col: 7, offset: 61514},
+								pos: position{line: 1913, col: 7, offset: 61515},
 								expr: &litMatcher{
-									pos:        position{line: 1913, col: 8, offset: 61515},
+									pos:        position{line: 1913, col: 8, offset: 61516},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41274,38 +41274,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1926, col: 5, offset: 61897},
+							pos:   position{line: 1926, col: 5, offset: 61898},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1926, col: 15, offset: 61907},
+								pos:  position{line: 1926, col: 15, offset: 61908},
 								name: "SingleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1916, col: 5, offset: 61635},
+							pos:        position{line: 1916, col: 5, offset: 61636},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&notExpr{
-							pos: position{line: 1917, col: 5, offset: 61644},
+							pos: position{line: 1917, col: 5, offset: 61645},
 							expr: &litMatcher{
-								pos:        position{line: 1917, col: 6, offset: 61645},
+								pos:        position{line: 1917, col: 6, offset: 61646},
 								val:        "*",
 								ignoreCase: false,
 								want:       "\"*\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1918, col: 5, offset: 61708},
+							pos: position{line: 1918, col: 5, offset: 61709},
 							run: (*parser).callonSingleQuoteBoldText13,
 						},
 						&andExpr{
-							pos: position{line: 1922, col: 5, offset: 61817},
+							pos: position{line: 1922, col: 5, offset: 61818},
 							expr: &notExpr{
-								pos: position{line: 1922, col: 7, offset: 61819},
+								pos: position{line: 1922, col: 7, offset: 61820},
 								expr: &charClassMatcher{
-									pos:        position{line: 2766, col: 13, offset: 88046},
+									pos:        position{line: 2766, col: 13, offset: 88047},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -41319,20 +41319,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElements",
-			pos:  position{line: 1931, col: 1, offset: 62067},
+			pos:  position{line: 1931, col: 1, offset: 62068},
 			expr: &actionExpr{
-				pos: position{line: 1932, col: 5, offset: 62104},
+				pos: position{line: 1932, col: 5, offset: 62105},
 				run: (*parser).callonSingleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1932, col: 5, offset: 62104},
+					pos: position{line: 1932, col: 5, offset: 62105},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1932, col: 5, offset: 62104},
+							pos: position{line: 1932, col: 5, offset: 62105},
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 10, offset: 90951},
+								pos: position{line: 2876, col: 10, offset: 90952},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2876, col: 10, offset: 90951},
+									pos:        position{line: 2876, col: 10, offset: 90952},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41341,18 +41341,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1933, col: 5, offset: 62143},
+							pos:   position{line: 1933, col: 5, offset: 62144},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1933, col: 14, offset: 62152},
+								pos: position{line: 1933, col: 14, offset: 62153},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1933, col: 15, offset: 62153},
+									pos:  position{line: 1933, col: 15, offset: 62154},
 									name: "SingleQuoteBoldTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1934, col: 5, offset: 62187},
+							pos: position{line: 1934, col: 5, offset: 62188},
 							run: (*parser).callonSingleQuoteBoldTextElements9,
 						},
 					},
@@ -41361,49 +41361,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElement",
-			pos:  position{line: 1940, col: 1, offset: 62328},
+			pos:  position{line: 1940, col: 1, offset: 62329},
 			expr: &actionExpr{
-				pos: position{line: 1941, col: 5, offset: 62363},
+				pos: position{line: 1941, col: 5, offset: 62364},
 				run: (*parser).callonSingleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1941, col: 5, offset: 62363},
+					pos: position{line: 1941, col: 5, offset: 62364},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2893, col: 11, offset: 91285},
+							pos: position{line: 2893, col: 11, offset: 91286},
 							expr: &anyMatcher{
-								line: 2893, col: 13, offset: 91287,
+								line: 2893, col: 13, offset: 91288,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1942, col: 5, offset: 62391},
+							pos: position{line: 1942, col: 5, offset: 62392},
 							expr: &seqExpr{
-								pos: position{line: 1916, col: 5, offset: 61635},
+								pos: position{line: 1916, col: 5, offset: 61636},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1916, col: 5, offset: 61635},
+										pos:        position{line: 1916, col: 5, offset: 61636},
 										val:        "*",
 										ignoreCase: false,
 										want:       "\"*\"",
 									},
 									&notExpr{
-										pos: position{line: 1917, col: 5, offset: 61644},
+										pos: position{line: 1917, col: 5, offset: 61645},
 										expr: &litMatcher{
-											pos:        position{line: 1917, col: 6, offset: 61645},
+											pos:        position{line: 1917, col: 6, offset: 61646},
 											val:        "*",
 											ignoreCase: false,
 											want:       "\"*\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1918, col: 5, offset: 61708},
+										pos: position{line: 1918, col: 5, offset: 61709},
 										run: (*parser).callonSingleQuoteBoldTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 1922, col: 5, offset: 61817},
+										pos: position{line: 1922, col: 5, offset: 61818},
 										expr: &notExpr{
-											pos: position{line: 1922, col: 7, offset: 61819},
+											pos: position{line: 1922, col: 7, offset: 61820},
 											expr: &charClassMatcher{
-												pos:        position{line: 2766, col: 13, offset: 88046},
+												pos:        position{line: 2766, col: 13, offset: 88047},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41415,10 +41415,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1943, col: 5, offset: 62428},
+							pos:   position{line: 1943, col: 5, offset: 62429},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1943, col: 14, offset: 62437},
+								pos:  position{line: 1943, col: 14, offset: 62438},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41428,35 +41428,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedBoldText",
-			pos:  position{line: 1948, col: 1, offset: 62525},
+			pos:  position{line: 1948, col: 1, offset: 62526},
 			expr: &choiceExpr{
-				pos: position{line: 1950, col: 5, offset: 62586},
+				pos: position{line: 1950, col: 5, offset: 62587},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1950, col: 5, offset: 62586},
+						pos: position{line: 1950, col: 5, offset: 62587},
 						run: (*parser).callonEscapedBoldText2,
 						expr: &seqExpr{
-							pos: position{line: 1950, col: 5, offset: 62586},
+							pos: position{line: 1950, col: 5, offset: 62587},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1950, col: 5, offset: 62586},
+									pos:   position{line: 1950, col: 5, offset: 62587},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1856, col: 25, offset: 59933},
+										pos: position{line: 1856, col: 25, offset: 59934},
 										run: (*parser).callonEscapedBoldText5,
 										expr: &seqExpr{
-											pos: position{line: 1856, col: 25, offset: 59933},
+											pos: position{line: 1856, col: 25, offset: 59934},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1856, col: 25, offset: 59933},
+													pos:        position{line: 1856, col: 25, offset: 59934},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1856, col: 30, offset: 59938},
+													pos: position{line: 1856, col: 30, offset: 59939},
 													expr: &litMatcher{
-														pos:        position{line: 1856, col: 30, offset: 59938},
+														pos:        position{line: 1856, col: 30, offset: 59939},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -41467,21 +41467,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1950, col: 40, offset: 62621},
+									pos:        position{line: 1950, col: 40, offset: 62622},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1950, col: 45, offset: 62626},
+									pos:   position{line: 1950, col: 45, offset: 62627},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1950, col: 55, offset: 62636},
+										pos:  position{line: 1950, col: 55, offset: 62637},
 										name: "DoubleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1950, col: 84, offset: 62665},
+									pos:        position{line: 1950, col: 84, offset: 62666},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
@@ -41490,21 +41490,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1954, col: 7, offset: 62829},
+						pos: position{line: 1954, col: 7, offset: 62830},
 						run: (*parser).callonEscapedBoldText14,
 						expr: &seqExpr{
-							pos: position{line: 1954, col: 7, offset: 62829},
+							pos: position{line: 1954, col: 7, offset: 62830},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1954, col: 7, offset: 62829},
+									pos:   position{line: 1954, col: 7, offset: 62830},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1852, col: 25, offset: 59860},
+										pos: position{line: 1852, col: 25, offset: 59861},
 										run: (*parser).callonEscapedBoldText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1852, col: 25, offset: 59860},
+											pos: position{line: 1852, col: 25, offset: 59861},
 											expr: &litMatcher{
-												pos:        position{line: 1852, col: 25, offset: 59860},
+												pos:        position{line: 1852, col: 25, offset: 59861},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41513,21 +41513,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1954, col: 42, offset: 62864},
+									pos:        position{line: 1954, col: 42, offset: 62865},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1954, col: 47, offset: 62869},
+									pos:   position{line: 1954, col: 47, offset: 62870},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1954, col: 57, offset: 62879},
+										pos:  position{line: 1954, col: 57, offset: 62880},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1954, col: 86, offset: 62908},
+									pos:        position{line: 1954, col: 86, offset: 62909},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41536,21 +41536,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1959, col: 7, offset: 63110},
+						pos: position{line: 1959, col: 7, offset: 63111},
 						run: (*parser).callonEscapedBoldText24,
 						expr: &seqExpr{
-							pos: position{line: 1959, col: 7, offset: 63110},
+							pos: position{line: 1959, col: 7, offset: 63111},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1959, col: 7, offset: 63110},
+									pos:   position{line: 1959, col: 7, offset: 63111},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1852, col: 25, offset: 59860},
+										pos: position{line: 1852, col: 25, offset: 59861},
 										run: (*parser).callonEscapedBoldText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1852, col: 25, offset: 59860},
+											pos: position{line: 1852, col: 25, offset: 59861},
 											expr: &litMatcher{
-												pos:        position{line: 1852, col: 25, offset: 59860},
+												pos:        position{line: 1852, col: 25, offset: 59861},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41559,21 +41559,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1959, col: 42, offset: 63145},
+									pos:        position{line: 1959, col: 42, offset: 63146},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1959, col: 46, offset: 63149},
+									pos:   position{line: 1959, col: 46, offset: 63150},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1959, col: 56, offset: 63159},
+										pos:  position{line: 1959, col: 56, offset: 63160},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1959, col: 85, offset: 63188},
+									pos:        position{line: 1959, col: 85, offset: 63189},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41586,29 +41586,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicText",
-			pos:  position{line: 1976, col: 1, offset: 63668},
+			pos:  position{line: 1976, col: 1, offset: 63669},
 			expr: &actionExpr{
-				pos: position{line: 1977, col: 5, offset: 63698},
+				pos: position{line: 1977, col: 5, offset: 63699},
 				run: (*parser).callonDoubleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 1977, col: 5, offset: 63698},
+					pos: position{line: 1977, col: 5, offset: 63699},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1972, col: 40, offset: 63619},
+							pos:        position{line: 1972, col: 40, offset: 63620},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1978, col: 5, offset: 63739},
+							pos:   position{line: 1978, col: 5, offset: 63740},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1978, col: 15, offset: 63749},
+								pos:  position{line: 1978, col: 15, offset: 63750},
 								name: "DoubleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1974, col: 38, offset: 63662},
+							pos:        position{line: 1974, col: 38, offset: 63663},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
@@ -41619,44 +41619,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElements",
-			pos:  position{line: 1983, col: 1, offset: 63914},
+			pos:  position{line: 1983, col: 1, offset: 63915},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1983, col: 34, offset: 63947},
+				pos: position{line: 1983, col: 34, offset: 63948},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1983, col: 34, offset: 63947},
+					pos:  position{line: 1983, col: 34, offset: 63948},
 					name: "DoubleQuoteItalicTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteItalicTextElement",
-			pos:  position{line: 1985, col: 1, offset: 63979},
+			pos:  position{line: 1985, col: 1, offset: 63980},
 			expr: &actionExpr{
-				pos: position{line: 1986, col: 5, offset: 64016},
+				pos: position{line: 1986, col: 5, offset: 64017},
 				run: (*parser).callonDoubleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1986, col: 5, offset: 64016},
+					pos: position{line: 1986, col: 5, offset: 64017},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2893, col: 11, offset: 91285},
+							pos: position{line: 2893, col: 11, offset: 91286},
 							expr: &anyMatcher{
-								line: 2893, col: 13, offset: 91287,
+								line: 2893, col: 13, offset: 91288,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1987, col: 5, offset: 64027},
+							pos: position{line: 1987, col: 5, offset: 64028},
 							expr: &litMatcher{
-								pos:        position{line: 1974, col: 38, offset: 63662},
+								pos:        position{line: 1974, col: 38, offset: 63663},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1988, col: 5, offset: 64066},
+							pos:   position{line: 1988, col: 5, offset: 64067},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1988, col: 14, offset: 64075},
+								pos:  position{line: 1988, col: 14, offset: 64076},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41666,29 +41666,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicText",
-			pos:  position{line: 2014, col: 1, offset: 64759},
+			pos:  position{line: 2014, col: 1, offset: 64760},
 			expr: &actionExpr{
-				pos: position{line: 2015, col: 5, offset: 64789},
+				pos: position{line: 2015, col: 5, offset: 64790},
 				run: (*parser).callonSingleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2015, col: 5, offset: 64789},
+					pos: position{line: 2015, col: 5, offset: 64790},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1997, col: 5, offset: 64317},
+							pos:        position{line: 1997, col: 5, offset: 64318},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1998, col: 5, offset: 64326},
+							pos: position{line: 1998, col: 5, offset: 64327},
 							run: (*parser).callonSingleQuoteItalicText4,
 						},
 						&andExpr{
-							pos: position{line: 2002, col: 5, offset: 64446},
+							pos: position{line: 2002, col: 5, offset: 64447},
 							expr: &notExpr{
-								pos: position{line: 2002, col: 7, offset: 64448},
+								pos: position{line: 2002, col: 7, offset: 64449},
 								expr: &litMatcher{
-									pos:        position{line: 2002, col: 8, offset: 64449},
+									pos:        position{line: 2002, col: 8, offset: 64450},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -41696,38 +41696,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2016, col: 5, offset: 64829},
+							pos:   position{line: 2016, col: 5, offset: 64830},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2016, col: 15, offset: 64839},
+								pos:  position{line: 2016, col: 15, offset: 64840},
 								name: "SingleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2006, col: 5, offset: 64559},
+							pos:        position{line: 2006, col: 5, offset: 64560},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&notExpr{
-							pos: position{line: 2007, col: 5, offset: 64568},
+							pos: position{line: 2007, col: 5, offset: 64569},
 							expr: &litMatcher{
-								pos:        position{line: 2007, col: 6, offset: 64569},
+								pos:        position{line: 2007, col: 6, offset: 64570},
 								val:        "_",
 								ignoreCase: false,
 								want:       "\"_\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2008, col: 5, offset: 64634},
+							pos: position{line: 2008, col: 5, offset: 64635},
 							run: (*parser).callonSingleQuoteItalicText13,
 						},
 						&andExpr{
-							pos: position{line: 2012, col: 5, offset: 64745},
+							pos: position{line: 2012, col: 5, offset: 64746},
 							expr: &notExpr{
-								pos: position{line: 2012, col: 7, offset: 64747},
+								pos: position{line: 2012, col: 7, offset: 64748},
 								expr: &charClassMatcher{
-									pos:        position{line: 2766, col: 13, offset: 88046},
+									pos:        position{line: 2766, col: 13, offset: 88047},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -41741,20 +41741,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElements",
-			pos:  position{line: 2021, col: 1, offset: 65006},
+			pos:  position{line: 2021, col: 1, offset: 65007},
 			expr: &actionExpr{
-				pos: position{line: 2022, col: 5, offset: 65044},
+				pos: position{line: 2022, col: 5, offset: 65045},
 				run: (*parser).callonSingleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2022, col: 5, offset: 65044},
+					pos: position{line: 2022, col: 5, offset: 65045},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2022, col: 5, offset: 65044},
+							pos: position{line: 2022, col: 5, offset: 65045},
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 10, offset: 90951},
+								pos: position{line: 2876, col: 10, offset: 90952},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2876, col: 10, offset: 90951},
+									pos:        position{line: 2876, col: 10, offset: 90952},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41763,18 +41763,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2023, col: 5, offset: 65083},
+							pos:   position{line: 2023, col: 5, offset: 65084},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2023, col: 14, offset: 65092},
+								pos: position{line: 2023, col: 14, offset: 65093},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2023, col: 15, offset: 65093},
+									pos:  position{line: 2023, col: 15, offset: 65094},
 									name: "SingleQuoteItalicTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2024, col: 5, offset: 65128},
+							pos: position{line: 2024, col: 5, offset: 65129},
 							run: (*parser).callonSingleQuoteItalicTextElements9,
 						},
 					},
@@ -41783,49 +41783,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElement",
-			pos:  position{line: 2030, col: 1, offset: 65269},
+			pos:  position{line: 2030, col: 1, offset: 65270},
 			expr: &actionExpr{
-				pos: position{line: 2031, col: 5, offset: 65306},
+				pos: position{line: 2031, col: 5, offset: 65307},
 				run: (*parser).callonSingleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2031, col: 5, offset: 65306},
+					pos: position{line: 2031, col: 5, offset: 65307},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2893, col: 11, offset: 91285},
+							pos: position{line: 2893, col: 11, offset: 91286},
 							expr: &anyMatcher{
-								line: 2893, col: 13, offset: 91287,
+								line: 2893, col: 13, offset: 91288,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2032, col: 5, offset: 65317},
+							pos: position{line: 2032, col: 5, offset: 65318},
 							expr: &seqExpr{
-								pos: position{line: 2006, col: 5, offset: 64559},
+								pos: position{line: 2006, col: 5, offset: 64560},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2006, col: 5, offset: 64559},
+										pos:        position{line: 2006, col: 5, offset: 64560},
 										val:        "_",
 										ignoreCase: false,
 										want:       "\"_\"",
 									},
 									&notExpr{
-										pos: position{line: 2007, col: 5, offset: 64568},
+										pos: position{line: 2007, col: 5, offset: 64569},
 										expr: &litMatcher{
-											pos:        position{line: 2007, col: 6, offset: 64569},
+											pos:        position{line: 2007, col: 6, offset: 64570},
 											val:        "_",
 											ignoreCase: false,
 											want:       "\"_\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2008, col: 5, offset: 64634},
+										pos: position{line: 2008, col: 5, offset: 64635},
 										run: (*parser).callonSingleQuoteItalicTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2012, col: 5, offset: 64745},
+										pos: position{line: 2012, col: 5, offset: 64746},
 										expr: &notExpr{
-											pos: position{line: 2012, col: 7, offset: 64747},
+											pos: position{line: 2012, col: 7, offset: 64748},
 											expr: &charClassMatcher{
-												pos:        position{line: 2766, col: 13, offset: 88046},
+												pos:        position{line: 2766, col: 13, offset: 88047},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41837,10 +41837,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2033, col: 5, offset: 65356},
+							pos:   position{line: 2033, col: 5, offset: 65357},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2033, col: 14, offset: 65365},
+								pos:  position{line: 2033, col: 14, offset: 65366},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41850,35 +41850,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedItalicText",
-			pos:  position{line: 2038, col: 1, offset: 65453},
+			pos:  position{line: 2038, col: 1, offset: 65454},
 			expr: &choiceExpr{
-				pos: position{line: 2040, col: 5, offset: 65518},
+				pos: position{line: 2040, col: 5, offset: 65519},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2040, col: 5, offset: 65518},
+						pos: position{line: 2040, col: 5, offset: 65519},
 						run: (*parser).callonEscapedItalicText2,
 						expr: &seqExpr{
-							pos: position{line: 2040, col: 5, offset: 65518},
+							pos: position{line: 2040, col: 5, offset: 65519},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2040, col: 5, offset: 65518},
+									pos:   position{line: 2040, col: 5, offset: 65519},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1856, col: 25, offset: 59933},
+										pos: position{line: 1856, col: 25, offset: 59934},
 										run: (*parser).callonEscapedItalicText5,
 										expr: &seqExpr{
-											pos: position{line: 1856, col: 25, offset: 59933},
+											pos: position{line: 1856, col: 25, offset: 59934},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1856, col: 25, offset: 59933},
+													pos:        position{line: 1856, col: 25, offset: 59934},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1856, col: 30, offset: 59938},
+													pos: position{line: 1856, col: 30, offset: 59939},
 													expr: &litMatcher{
-														pos:        position{line: 1856, col: 30, offset: 59938},
+														pos:        position{line: 1856, col: 30, offset: 59939},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -41889,21 +41889,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2040, col: 40, offset: 65553},
+									pos:        position{line: 2040, col: 40, offset: 65554},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2040, col: 45, offset: 65558},
+									pos:   position{line: 2040, col: 45, offset: 65559},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2040, col: 55, offset: 65568},
+										pos:  position{line: 2040, col: 55, offset: 65569},
 										name: "DoubleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2040, col: 86, offset: 65599},
+									pos:        position{line: 2040, col: 86, offset: 65600},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
@@ -41912,21 +41912,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2044, col: 7, offset: 65764},
+						pos: position{line: 2044, col: 7, offset: 65765},
 						run: (*parser).callonEscapedItalicText14,
 						expr: &seqExpr{
-							pos: position{line: 2044, col: 7, offset: 65764},
+							pos: position{line: 2044, col: 7, offset: 65765},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2044, col: 7, offset: 65764},
+									pos:   position{line: 2044, col: 7, offset: 65765},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1852, col: 25, offset: 59860},
+										pos: position{line: 1852, col: 25, offset: 59861},
 										run: (*parser).callonEscapedItalicText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1852, col: 25, offset: 59860},
+											pos: position{line: 1852, col: 25, offset: 59861},
 											expr: &litMatcher{
-												pos:        position{line: 1852, col: 25, offset: 59860},
+												pos:        position{line: 1852, col: 25, offset: 59861},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41935,21 +41935,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2044, col: 42, offset: 65799},
+									pos:        position{line: 2044, col: 42, offset: 65800},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2044, col: 47, offset: 65804},
+									pos:   position{line: 2044, col: 47, offset: 65805},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2044, col: 57, offset: 65814},
+										pos:  position{line: 2044, col: 57, offset: 65815},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2044, col: 88, offset: 65845},
+									pos:        position{line: 2044, col: 88, offset: 65846},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -41958,21 +41958,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2049, col: 7, offset: 66086},
+						pos: position{line: 2049, col: 7, offset: 66087},
 						run: (*parser).callonEscapedItalicText24,
 						expr: &seqExpr{
-							pos: position{line: 2049, col: 7, offset: 66086},
+							pos: position{line: 2049, col: 7, offset: 66087},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2049, col: 7, offset: 66086},
+									pos:   position{line: 2049, col: 7, offset: 66087},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1852, col: 25, offset: 59860},
+										pos: position{line: 1852, col: 25, offset: 59861},
 										run: (*parser).callonEscapedItalicText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1852, col: 25, offset: 59860},
+											pos: position{line: 1852, col: 25, offset: 59861},
 											expr: &litMatcher{
-												pos:        position{line: 1852, col: 25, offset: 59860},
+												pos:        position{line: 1852, col: 25, offset: 59861},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41981,21 +41981,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2049, col: 42, offset: 66121},
+									pos:        position{line: 2049, col: 42, offset: 66122},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2049, col: 46, offset: 66125},
+									pos:   position{line: 2049, col: 46, offset: 66126},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2049, col: 56, offset: 66135},
+										pos:  position{line: 2049, col: 56, offset: 66136},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2049, col: 87, offset: 66166},
+									pos:        position{line: 2049, col: 87, offset: 66167},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -42008,29 +42008,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceText",
-			pos:  position{line: 2066, col: 1, offset: 66730},
+			pos:  position{line: 2066, col: 1, offset: 66731},
 			expr: &actionExpr{
-				pos: position{line: 2067, col: 5, offset: 66763},
+				pos: position{line: 2067, col: 5, offset: 66764},
 				run: (*parser).callonDoubleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2067, col: 5, offset: 66763},
+					pos: position{line: 2067, col: 5, offset: 66764},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2062, col: 43, offset: 66678},
+							pos:        position{line: 2062, col: 43, offset: 66679},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2068, col: 5, offset: 66807},
+							pos:   position{line: 2068, col: 5, offset: 66808},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2068, col: 15, offset: 66817},
+								pos:  position{line: 2068, col: 15, offset: 66818},
 								name: "DoubleQuoteMonospaceTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2064, col: 41, offset: 66724},
+							pos:        position{line: 2064, col: 41, offset: 66725},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
@@ -42041,44 +42041,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElements",
-			pos:  position{line: 2073, col: 1, offset: 66992},
+			pos:  position{line: 2073, col: 1, offset: 66993},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 2073, col: 37, offset: 67028},
+				pos: position{line: 2073, col: 37, offset: 67029},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2073, col: 37, offset: 67028},
+					pos:  position{line: 2073, col: 37, offset: 67029},
 					name: "DoubleQuoteMonospaceTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElement",
-			pos:  position{line: 2075, col: 1, offset: 67095},
+			pos:  position{line: 2075, col: 1, offset: 67096},
 			expr: &actionExpr{
-				pos: position{line: 2076, col: 5, offset: 67135},
+				pos: position{line: 2076, col: 5, offset: 67136},
 				run: (*parser).callonDoubleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2076, col: 5, offset: 67135},
+					pos: position{line: 2076, col: 5, offset: 67136},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2893, col: 11, offset: 91285},
+							pos: position{line: 2893, col: 11, offset: 91286},
 							expr: &anyMatcher{
-								line: 2893, col: 13, offset: 91287,
+								line: 2893, col: 13, offset: 91288,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2077, col: 5, offset: 67146},
+							pos: position{line: 2077, col: 5, offset: 67147},
 							expr: &litMatcher{
-								pos:        position{line: 2064, col: 41, offset: 66724},
+								pos:        position{line: 2064, col: 41, offset: 66725},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2078, col: 5, offset: 67188},
+							pos:   position{line: 2078, col: 5, offset: 67189},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2078, col: 14, offset: 67197},
+								pos:  position{line: 2078, col: 14, offset: 67198},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42088,33 +42088,33 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextEndDelimiter",
-			pos:  position{line: 2096, col: 1, offset: 67739},
+			pos:  position{line: 2096, col: 1, offset: 67740},
 			expr: &seqExpr{
-				pos: position{line: 2097, col: 5, offset: 67784},
+				pos: position{line: 2097, col: 5, offset: 67785},
 				exprs: []interface{}{
 					&notExpr{
-						pos: position{line: 2097, col: 5, offset: 67784},
+						pos: position{line: 2097, col: 5, offset: 67785},
 						expr: &ruleRefExpr{
-							pos:  position{line: 2097, col: 6, offset: 67785},
+							pos:  position{line: 2097, col: 6, offset: 67786},
 							name: "QuotationMark",
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 2098, col: 5, offset: 67804},
+						pos:        position{line: 2098, col: 5, offset: 67805},
 						val:        "`",
 						ignoreCase: false,
 						want:       "\"`\"",
 					},
 					&andCodeExpr{
-						pos: position{line: 2099, col: 5, offset: 67812},
+						pos: position{line: 2099, col: 5, offset: 67813},
 						run: (*parser).callonSingleQuoteMonospaceTextEndDelimiter5,
 					},
 					&andExpr{
-						pos: position{line: 2103, col: 5, offset: 67926},
+						pos: position{line: 2103, col: 5, offset: 67927},
 						expr: &notExpr{
-							pos: position{line: 2103, col: 7, offset: 67928},
+							pos: position{line: 2103, col: 7, offset: 67929},
 							expr: &charClassMatcher{
-								pos:        position{line: 2766, col: 13, offset: 88046},
+								pos:        position{line: 2766, col: 13, offset: 88047},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -42127,29 +42127,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceText",
-			pos:  position{line: 2106, col: 1, offset: 67945},
+			pos:  position{line: 2106, col: 1, offset: 67946},
 			expr: &actionExpr{
-				pos: position{line: 2107, col: 5, offset: 67978},
+				pos: position{line: 2107, col: 5, offset: 67979},
 				run: (*parser).callonSingleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2107, col: 5, offset: 67978},
+					pos: position{line: 2107, col: 5, offset: 67979},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2089, col: 5, offset: 67541},
+							pos:        position{line: 2089, col: 5, offset: 67542},
 							val:        "`",
 							ignoreCase: false,
 							want:       "\"`\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2090, col: 5, offset: 67550},
+							pos: position{line: 2090, col: 5, offset: 67551},
 							run: (*parser).callonSingleQuoteMonospaceText4,
 						},
 						&andExpr{
-							pos: position{line: 2094, col: 5, offset: 67673},
+							pos: position{line: 2094, col: 5, offset: 67674},
 							expr: &notExpr{
-								pos: position{line: 2094, col: 7, offset: 67675},
+								pos: position{line: 2094, col: 7, offset: 67676},
 								expr: &litMatcher{
-									pos:        position{line: 2094, col: 8, offset: 67676},
+									pos:        position{line: 2094, col: 8, offset: 67677},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42157,15 +42157,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2108, col: 5, offset: 68022},
+							pos:   position{line: 2108, col: 5, offset: 68023},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2108, col: 15, offset: 68032},
+								pos:  position{line: 2108, col: 15, offset: 68033},
 								name: "SingleQuoteMonospaceTextElements",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 2109, col: 5, offset: 68071},
+							pos:  position{line: 2109, col: 5, offset: 68072},
 							name: "SingleQuoteMonospaceTextEndDelimiter",
 						},
 					},
@@ -42174,20 +42174,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElements",
-			pos:  position{line: 2113, col: 1, offset: 68208},
+			pos:  position{line: 2113, col: 1, offset: 68209},
 			expr: &actionExpr{
-				pos: position{line: 2114, col: 5, offset: 68249},
+				pos: position{line: 2114, col: 5, offset: 68250},
 				run: (*parser).callonSingleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2114, col: 5, offset: 68249},
+					pos: position{line: 2114, col: 5, offset: 68250},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2114, col: 5, offset: 68249},
+							pos: position{line: 2114, col: 5, offset: 68250},
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 10, offset: 90951},
+								pos: position{line: 2876, col: 10, offset: 90952},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2876, col: 10, offset: 90951},
+									pos:        position{line: 2876, col: 10, offset: 90952},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42196,18 +42196,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2115, col: 5, offset: 68288},
+							pos:   position{line: 2115, col: 5, offset: 68289},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2115, col: 14, offset: 68297},
+								pos: position{line: 2115, col: 14, offset: 68298},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2115, col: 15, offset: 68298},
+									pos:  position{line: 2115, col: 15, offset: 68299},
 									name: "SingleQuoteMonospaceTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2116, col: 5, offset: 68336},
+							pos: position{line: 2116, col: 5, offset: 68337},
 							run: (*parser).callonSingleQuoteMonospaceTextElements9,
 						},
 					},
@@ -42216,31 +42216,31 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElement",
-			pos:  position{line: 2122, col: 1, offset: 68477},
+			pos:  position{line: 2122, col: 1, offset: 68478},
 			expr: &actionExpr{
-				pos: position{line: 2123, col: 5, offset: 68517},
+				pos: position{line: 2123, col: 5, offset: 68518},
 				run: (*parser).callonSingleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2123, col: 5, offset: 68517},
+					pos: position{line: 2123, col: 5, offset: 68518},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2893, col: 11, offset: 91285},
+							pos: position{line: 2893, col: 11, offset: 91286},
 							expr: &anyMatcher{
-								line: 2893, col: 13, offset: 91287,
+								line: 2893, col: 13, offset: 91288,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2124, col: 5, offset: 68528},
+							pos: position{line: 2124, col: 5, offset: 68529},
 							expr: &ruleRefExpr{
-								pos:  position{line: 2124, col: 6, offset: 68529},
+								pos:  position{line: 2124, col: 6, offset: 68530},
 								name: "SingleQuoteMonospaceTextEndDelimiter",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2125, col: 5, offset: 68570},
+							pos:   position{line: 2125, col: 5, offset: 68571},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2125, col: 14, offset: 68579},
+								pos:  position{line: 2125, col: 14, offset: 68580},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42250,35 +42250,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMonospaceText",
-			pos:  position{line: 2130, col: 1, offset: 68667},
+			pos:  position{line: 2130, col: 1, offset: 68668},
 			expr: &choiceExpr{
-				pos: position{line: 2132, col: 5, offset: 68738},
+				pos: position{line: 2132, col: 5, offset: 68739},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2132, col: 5, offset: 68738},
+						pos: position{line: 2132, col: 5, offset: 68739},
 						run: (*parser).callonEscapedMonospaceText2,
 						expr: &seqExpr{
-							pos: position{line: 2132, col: 5, offset: 68738},
+							pos: position{line: 2132, col: 5, offset: 68739},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2132, col: 5, offset: 68738},
+									pos:   position{line: 2132, col: 5, offset: 68739},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1856, col: 25, offset: 59933},
+										pos: position{line: 1856, col: 25, offset: 59934},
 										run: (*parser).callonEscapedMonospaceText5,
 										expr: &seqExpr{
-											pos: position{line: 1856, col: 25, offset: 59933},
+											pos: position{line: 1856, col: 25, offset: 59934},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1856, col: 25, offset: 59933},
+													pos:        position{line: 1856, col: 25, offset: 59934},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1856, col: 30, offset: 59938},
+													pos: position{line: 1856, col: 30, offset: 59939},
 													expr: &litMatcher{
-														pos:        position{line: 1856, col: 30, offset: 59938},
+														pos:        position{line: 1856, col: 30, offset: 59939},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42289,21 +42289,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2132, col: 40, offset: 68773},
+									pos:        position{line: 2132, col: 40, offset: 68774},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2132, col: 45, offset: 68778},
+									pos:   position{line: 2132, col: 45, offset: 68779},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2132, col: 55, offset: 68788},
+										pos:  position{line: 2132, col: 55, offset: 68789},
 										name: "DoubleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2132, col: 89, offset: 68822},
+									pos:        position{line: 2132, col: 89, offset: 68823},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
@@ -42312,21 +42312,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2136, col: 7, offset: 68991},
+						pos: position{line: 2136, col: 7, offset: 68992},
 						run: (*parser).callonEscapedMonospaceText14,
 						expr: &seqExpr{
-							pos: position{line: 2136, col: 7, offset: 68991},
+							pos: position{line: 2136, col: 7, offset: 68992},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2136, col: 7, offset: 68991},
+									pos:   position{line: 2136, col: 7, offset: 68992},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1852, col: 25, offset: 59860},
+										pos: position{line: 1852, col: 25, offset: 59861},
 										run: (*parser).callonEscapedMonospaceText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1852, col: 25, offset: 59860},
+											pos: position{line: 1852, col: 25, offset: 59861},
 											expr: &litMatcher{
-												pos:        position{line: 1852, col: 25, offset: 59860},
+												pos:        position{line: 1852, col: 25, offset: 59861},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42335,21 +42335,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2136, col: 42, offset: 69026},
+									pos:        position{line: 2136, col: 42, offset: 69027},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2136, col: 47, offset: 69031},
+									pos:   position{line: 2136, col: 47, offset: 69032},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2136, col: 57, offset: 69041},
+										pos:  position{line: 2136, col: 57, offset: 69042},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2136, col: 91, offset: 69075},
+									pos:        position{line: 2136, col: 91, offset: 69076},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42358,21 +42358,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2141, col: 7, offset: 69281},
+						pos: position{line: 2141, col: 7, offset: 69282},
 						run: (*parser).callonEscapedMonospaceText24,
 						expr: &seqExpr{
-							pos: position{line: 2141, col: 7, offset: 69281},
+							pos: position{line: 2141, col: 7, offset: 69282},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2141, col: 7, offset: 69281},
+									pos:   position{line: 2141, col: 7, offset: 69282},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1852, col: 25, offset: 59860},
+										pos: position{line: 1852, col: 25, offset: 59861},
 										run: (*parser).callonEscapedMonospaceText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1852, col: 25, offset: 59860},
+											pos: position{line: 1852, col: 25, offset: 59861},
 											expr: &litMatcher{
-												pos:        position{line: 1852, col: 25, offset: 59860},
+												pos:        position{line: 1852, col: 25, offset: 59861},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42381,21 +42381,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2141, col: 42, offset: 69316},
+									pos:        position{line: 2141, col: 42, offset: 69317},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2141, col: 46, offset: 69320},
+									pos:   position{line: 2141, col: 46, offset: 69321},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2141, col: 56, offset: 69330},
+										pos:  position{line: 2141, col: 56, offset: 69331},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2141, col: 90, offset: 69364},
+									pos:        position{line: 2141, col: 90, offset: 69365},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42408,29 +42408,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedText",
-			pos:  position{line: 2158, col: 1, offset: 69849},
+			pos:  position{line: 2158, col: 1, offset: 69850},
 			expr: &actionExpr{
-				pos: position{line: 2159, col: 5, offset: 69879},
+				pos: position{line: 2159, col: 5, offset: 69880},
 				run: (*parser).callonDoubleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2159, col: 5, offset: 69879},
+					pos: position{line: 2159, col: 5, offset: 69880},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2154, col: 40, offset: 69800},
+							pos:        position{line: 2154, col: 40, offset: 69801},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2160, col: 5, offset: 69920},
+							pos:   position{line: 2160, col: 5, offset: 69921},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2160, col: 15, offset: 69930},
+								pos:  position{line: 2160, col: 15, offset: 69931},
 								name: "DoubleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2156, col: 38, offset: 69843},
+							pos:        position{line: 2156, col: 38, offset: 69844},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
@@ -42441,44 +42441,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElements",
-			pos:  position{line: 2165, col: 1, offset: 70096},
+			pos:  position{line: 2165, col: 1, offset: 70097},
 			expr: &zeroOrMoreExpr{
-				pos: position{line: 2165, col: 34, offset: 70129},
+				pos: position{line: 2165, col: 34, offset: 70130},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2165, col: 34, offset: 70129},
+					pos:  position{line: 2165, col: 34, offset: 70130},
 					name: "DoubleQuoteMarkedTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMarkedTextElement",
-			pos:  position{line: 2167, col: 1, offset: 70160},
+			pos:  position{line: 2167, col: 1, offset: 70161},
 			expr: &actionExpr{
-				pos: position{line: 2168, col: 5, offset: 70229},
+				pos: position{line: 2168, col: 5, offset: 70230},
 				run: (*parser).callonDoubleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2168, col: 5, offset: 70229},
+					pos: position{line: 2168, col: 5, offset: 70230},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2893, col: 11, offset: 91285},
+							pos: position{line: 2893, col: 11, offset: 91286},
 							expr: &anyMatcher{
-								line: 2893, col: 13, offset: 91287,
+								line: 2893, col: 13, offset: 91288,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2169, col: 5, offset: 70240},
+							pos: position{line: 2169, col: 5, offset: 70241},
 							expr: &litMatcher{
-								pos:        position{line: 2156, col: 38, offset: 69843},
+								pos:        position{line: 2156, col: 38, offset: 69844},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2170, col: 5, offset: 70279},
+							pos:   position{line: 2170, col: 5, offset: 70280},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2170, col: 14, offset: 70288},
+								pos:  position{line: 2170, col: 14, offset: 70289},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42488,29 +42488,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedText",
-			pos:  position{line: 2195, col: 1, offset: 70970},
+			pos:  position{line: 2195, col: 1, offset: 70971},
 			expr: &actionExpr{
-				pos: position{line: 2196, col: 5, offset: 71000},
+				pos: position{line: 2196, col: 5, offset: 71001},
 				run: (*parser).callonSingleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2196, col: 5, offset: 71000},
+					pos: position{line: 2196, col: 5, offset: 71001},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2179, col: 5, offset: 70536},
+							pos:        position{line: 2179, col: 5, offset: 70537},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2180, col: 5, offset: 70545},
+							pos: position{line: 2180, col: 5, offset: 70546},
 							run: (*parser).callonSingleQuoteMarkedText4,
 						},
 						&andExpr{
-							pos: position{line: 2184, col: 5, offset: 70665},
+							pos: position{line: 2184, col: 5, offset: 70666},
 							expr: &notExpr{
-								pos: position{line: 2184, col: 7, offset: 70667},
+								pos: position{line: 2184, col: 7, offset: 70668},
 								expr: &litMatcher{
-									pos:        position{line: 2184, col: 8, offset: 70668},
+									pos:        position{line: 2184, col: 8, offset: 70669},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -42518,38 +42518,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2197, col: 5, offset: 71040},
+							pos:   position{line: 2197, col: 5, offset: 71041},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2197, col: 15, offset: 71050},
+								pos:  position{line: 2197, col: 15, offset: 71051},
 								name: "SingleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2187, col: 5, offset: 70773},
+							pos:        position{line: 2187, col: 5, offset: 70774},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&notExpr{
-							pos: position{line: 2188, col: 5, offset: 70781},
+							pos: position{line: 2188, col: 5, offset: 70782},
 							expr: &litMatcher{
-								pos:        position{line: 2188, col: 6, offset: 70782},
+								pos:        position{line: 2188, col: 6, offset: 70783},
 								val:        "#",
 								ignoreCase: false,
 								want:       "\"#\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2189, col: 5, offset: 70845},
+							pos: position{line: 2189, col: 5, offset: 70846},
 							run: (*parser).callonSingleQuoteMarkedText13,
 						},
 						&andExpr{
-							pos: position{line: 2193, col: 5, offset: 70956},
+							pos: position{line: 2193, col: 5, offset: 70957},
 							expr: &notExpr{
-								pos: position{line: 2193, col: 7, offset: 70958},
+								pos: position{line: 2193, col: 7, offset: 70959},
 								expr: &charClassMatcher{
-									pos:        position{line: 2766, col: 13, offset: 88046},
+									pos:        position{line: 2766, col: 13, offset: 88047},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -42563,20 +42563,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElements",
-			pos:  position{line: 2202, col: 1, offset: 71217},
+			pos:  position{line: 2202, col: 1, offset: 71218},
 			expr: &actionExpr{
-				pos: position{line: 2203, col: 5, offset: 71255},
+				pos: position{line: 2203, col: 5, offset: 71256},
 				run: (*parser).callonSingleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2203, col: 5, offset: 71255},
+					pos: position{line: 2203, col: 5, offset: 71256},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2203, col: 5, offset: 71255},
+							pos: position{line: 2203, col: 5, offset: 71256},
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 10, offset: 90951},
+								pos: position{line: 2876, col: 10, offset: 90952},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2876, col: 10, offset: 90951},
+									pos:        position{line: 2876, col: 10, offset: 90952},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42585,18 +42585,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2204, col: 5, offset: 71294},
+							pos:   position{line: 2204, col: 5, offset: 71295},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2204, col: 14, offset: 71303},
+								pos: position{line: 2204, col: 14, offset: 71304},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2204, col: 15, offset: 71304},
+									pos:  position{line: 2204, col: 15, offset: 71305},
 									name: "SingleQuoteMarkedTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2205, col: 5, offset: 71340},
+							pos: position{line: 2205, col: 5, offset: 71341},
 							run: (*parser).callonSingleQuoteMarkedTextElements9,
 						},
 					},
@@ -42605,49 +42605,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElement",
-			pos:  position{line: 2211, col: 1, offset: 71481},
+			pos:  position{line: 2211, col: 1, offset: 71482},
 			expr: &actionExpr{
-				pos: position{line: 2212, col: 5, offset: 71518},
+				pos: position{line: 2212, col: 5, offset: 71519},
 				run: (*parser).callonSingleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2212, col: 5, offset: 71518},
+					pos: position{line: 2212, col: 5, offset: 71519},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2893, col: 11, offset: 91285},
+							pos: position{line: 2893, col: 11, offset: 91286},
 							expr: &anyMatcher{
-								line: 2893, col: 13, offset: 91287,
+								line: 2893, col: 13, offset: 91288,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2213, col: 5, offset: 71529},
+							pos: position{line: 2213, col: 5, offset: 71530},
 							expr: &seqExpr{
-								pos: position{line: 2187, col: 5, offset: 70773},
+								pos: position{line: 2187, col: 5, offset: 70774},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2187, col: 5, offset: 70773},
+										pos:        position{line: 2187, col: 5, offset: 70774},
 										val:        "#",
 										ignoreCase: false,
 										want:       "\"#\"",
 									},
 									&notExpr{
-										pos: position{line: 2188, col: 5, offset: 70781},
+										pos: position{line: 2188, col: 5, offset: 70782},
 										expr: &litMatcher{
-											pos:        position{line: 2188, col: 6, offset: 70782},
+											pos:        position{line: 2188, col: 6, offset: 70783},
 											val:        "#",
 											ignoreCase: false,
 											want:       "\"#\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2189, col: 5, offset: 70845},
+										pos: position{line: 2189, col: 5, offset: 70846},
 										run: (*parser).callonSingleQuoteMarkedTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2193, col: 5, offset: 70956},
+										pos: position{line: 2193, col: 5, offset: 70957},
 										expr: &notExpr{
-											pos: position{line: 2193, col: 7, offset: 70958},
+											pos: position{line: 2193, col: 7, offset: 70959},
 											expr: &charClassMatcher{
-												pos:        position{line: 2766, col: 13, offset: 88046},
+												pos:        position{line: 2766, col: 13, offset: 88047},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42659,10 +42659,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2214, col: 5, offset: 71568},
+							pos:   position{line: 2214, col: 5, offset: 71569},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2214, col: 14, offset: 71577},
+								pos:  position{line: 2214, col: 14, offset: 71578},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42672,35 +42672,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMarkedText",
-			pos:  position{line: 2219, col: 1, offset: 71665},
+			pos:  position{line: 2219, col: 1, offset: 71666},
 			expr: &choiceExpr{
-				pos: position{line: 2221, col: 5, offset: 71729},
+				pos: position{line: 2221, col: 5, offset: 71730},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2221, col: 5, offset: 71729},
+						pos: position{line: 2221, col: 5, offset: 71730},
 						run: (*parser).callonEscapedMarkedText2,
 						expr: &seqExpr{
-							pos: position{line: 2221, col: 5, offset: 71729},
+							pos: position{line: 2221, col: 5, offset: 71730},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2221, col: 5, offset: 71729},
+									pos:   position{line: 2221, col: 5, offset: 71730},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1856, col: 25, offset: 59933},
+										pos: position{line: 1856, col: 25, offset: 59934},
 										run: (*parser).callonEscapedMarkedText5,
 										expr: &seqExpr{
-											pos: position{line: 1856, col: 25, offset: 59933},
+											pos: position{line: 1856, col: 25, offset: 59934},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1856, col: 25, offset: 59933},
+													pos:        position{line: 1856, col: 25, offset: 59934},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1856, col: 30, offset: 59938},
+													pos: position{line: 1856, col: 30, offset: 59939},
 													expr: &litMatcher{
-														pos:        position{line: 1856, col: 30, offset: 59938},
+														pos:        position{line: 1856, col: 30, offset: 59939},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42711,21 +42711,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2221, col: 40, offset: 71764},
+									pos:        position{line: 2221, col: 40, offset: 71765},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2221, col: 45, offset: 71769},
+									pos:   position{line: 2221, col: 45, offset: 71770},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2221, col: 55, offset: 71779},
+										pos:  position{line: 2221, col: 55, offset: 71780},
 										name: "DoubleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2221, col: 86, offset: 71810},
+									pos:        position{line: 2221, col: 86, offset: 71811},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
@@ -42734,21 +42734,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2225, col: 7, offset: 71975},
+						pos: position{line: 2225, col: 7, offset: 71976},
 						run: (*parser).callonEscapedMarkedText14,
 						expr: &seqExpr{
-							pos: position{line: 2225, col: 7, offset: 71975},
+							pos: position{line: 2225, col: 7, offset: 71976},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2225, col: 7, offset: 71975},
+									pos:   position{line: 2225, col: 7, offset: 71976},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1852, col: 25, offset: 59860},
+										pos: position{line: 1852, col: 25, offset: 59861},
 										run: (*parser).callonEscapedMarkedText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1852, col: 25, offset: 59860},
+											pos: position{line: 1852, col: 25, offset: 59861},
 											expr: &litMatcher{
-												pos:        position{line: 1852, col: 25, offset: 59860},
+												pos:        position{line: 1852, col: 25, offset: 59861},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42757,21 +42757,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2225, col: 42, offset: 72010},
+									pos:        position{line: 2225, col: 42, offset: 72011},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2225, col: 47, offset: 72015},
+									pos:   position{line: 2225, col: 47, offset: 72016},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2225, col: 57, offset: 72025},
+										pos:  position{line: 2225, col: 57, offset: 72026},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2225, col: 88, offset: 72056},
+									pos:        position{line: 2225, col: 88, offset: 72057},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -42780,21 +42780,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2230, col: 7, offset: 72259},
+						pos: position{line: 2230, col: 7, offset: 72260},
 						run: (*parser).callonEscapedMarkedText24,
 						expr: &seqExpr{
-							pos: position{line: 2230, col: 7, offset: 72259},
+							pos: position{line: 2230, col: 7, offset: 72260},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2230, col: 7, offset: 72259},
+									pos:   position{line: 2230, col: 7, offset: 72260},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1852, col: 25, offset: 59860},
+										pos: position{line: 1852, col: 25, offset: 59861},
 										run: (*parser).callonEscapedMarkedText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1852, col: 25, offset: 59860},
+											pos: position{line: 1852, col: 25, offset: 59861},
 											expr: &litMatcher{
-												pos:        position{line: 1852, col: 25, offset: 59860},
+												pos:        position{line: 1852, col: 25, offset: 59861},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42803,21 +42803,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2230, col: 42, offset: 72294},
+									pos:        position{line: 2230, col: 42, offset: 72295},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2230, col: 46, offset: 72298},
+									pos:   position{line: 2230, col: 46, offset: 72299},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2230, col: 56, offset: 72308},
+										pos:  position{line: 2230, col: 56, offset: 72309},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2230, col: 87, offset: 72339},
+									pos:        position{line: 2230, col: 87, offset: 72340},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -42830,29 +42830,29 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptText",
-			pos:  position{line: 2237, col: 1, offset: 72606},
+			pos:  position{line: 2237, col: 1, offset: 72607},
 			expr: &actionExpr{
-				pos: position{line: 2238, col: 5, offset: 72628},
+				pos: position{line: 2238, col: 5, offset: 72629},
 				run: (*parser).callonSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2238, col: 5, offset: 72628},
+					pos: position{line: 2238, col: 5, offset: 72629},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2244, col: 27, offset: 72843},
+							pos:        position{line: 2244, col: 27, offset: 72844},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2239, col: 5, offset: 72655},
+							pos:   position{line: 2239, col: 5, offset: 72656},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2239, col: 14, offset: 72664},
+								pos:  position{line: 2239, col: 14, offset: 72665},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2244, col: 27, offset: 72843},
+							pos:        position{line: 2244, col: 27, offset: 72844},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -42863,43 +42863,43 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptTextElement",
-			pos:  position{line: 2246, col: 1, offset: 72848},
+			pos:  position{line: 2246, col: 1, offset: 72849},
 			expr: &choiceExpr{
-				pos: position{line: 2246, col: 25, offset: 72872},
+				pos: position{line: 2246, col: 25, offset: 72873},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2246, col: 25, offset: 72872},
+						pos:  position{line: 2246, col: 25, offset: 72873},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2248, col: 21, offset: 72924},
+						pos: position{line: 2248, col: 21, offset: 72925},
 						run: (*parser).callonSubscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2248, col: 21, offset: 72924},
+							pos:   position{line: 2248, col: 21, offset: 72925},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2248, col: 30, offset: 72933},
+								pos: position{line: 2248, col: 30, offset: 72934},
 								expr: &choiceExpr{
-									pos: position{line: 2248, col: 31, offset: 72934},
+									pos: position{line: 2248, col: 31, offset: 72935},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2470, col: 5, offset: 79404},
+											pos: position{line: 2470, col: 5, offset: 79405},
 											run: (*parser).callonSubscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2470, col: 5, offset: 79404},
+												pos: position{line: 2470, col: 5, offset: 79405},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2470, col: 5, offset: 79404},
+														pos: position{line: 2470, col: 5, offset: 79405},
 														run: (*parser).callonSubscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2473, col: 5, offset: 79480},
+														pos:   position{line: 2473, col: 5, offset: 79481},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2474, col: 9, offset: 79498},
+															pos: position{line: 2474, col: 9, offset: 79499},
 															run: (*parser).callonSubscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2474, col: 10, offset: 79499},
+																pos:        position{line: 2474, col: 10, offset: 79500},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -42911,7 +42911,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2248, col: 50, offset: 72953},
+											pos:        position{line: 2248, col: 50, offset: 72954},
 											val:        "[^\\r\\n ~]",
 											chars:      []rune{'\r', '\n', ' ', '~'},
 											ignoreCase: false,
@@ -42927,23 +42927,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2252, col: 1, offset: 73003},
+			pos:  position{line: 2252, col: 1, offset: 73004},
 			expr: &actionExpr{
-				pos: position{line: 2254, col: 5, offset: 73070},
+				pos: position{line: 2254, col: 5, offset: 73071},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2254, col: 5, offset: 73070},
+					pos: position{line: 2254, col: 5, offset: 73071},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2254, col: 5, offset: 73070},
+							pos:   position{line: 2254, col: 5, offset: 73071},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1852, col: 25, offset: 59860},
+								pos: position{line: 1852, col: 25, offset: 59861},
 								run: (*parser).callonEscapedSubscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1852, col: 25, offset: 59860},
+									pos: position{line: 1852, col: 25, offset: 59861},
 									expr: &litMatcher{
-										pos:        position{line: 1852, col: 25, offset: 59860},
+										pos:        position{line: 1852, col: 25, offset: 59861},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -42952,21 +42952,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2244, col: 27, offset: 72843},
+							pos:        position{line: 2244, col: 27, offset: 72844},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2256, col: 5, offset: 73138},
+							pos:   position{line: 2256, col: 5, offset: 73139},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2256, col: 14, offset: 73147},
+								pos:  position{line: 2256, col: 14, offset: 73148},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2244, col: 27, offset: 72843},
+							pos:        position{line: 2244, col: 27, offset: 72844},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -42977,29 +42977,29 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2264, col: 1, offset: 73410},
+			pos:  position{line: 2264, col: 1, offset: 73411},
 			expr: &actionExpr{
-				pos: position{line: 2265, col: 5, offset: 73434},
+				pos: position{line: 2265, col: 5, offset: 73435},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2265, col: 5, offset: 73434},
+					pos: position{line: 2265, col: 5, offset: 73435},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2271, col: 29, offset: 73661},
+							pos:        position{line: 2271, col: 29, offset: 73662},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2266, col: 5, offset: 73464},
+							pos:   position{line: 2266, col: 5, offset: 73465},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2266, col: 14, offset: 73473},
+								pos:  position{line: 2266, col: 14, offset: 73474},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2271, col: 29, offset: 73661},
+							pos:        position{line: 2271, col: 29, offset: 73662},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -43010,43 +43010,43 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2273, col: 1, offset: 73666},
+			pos:  position{line: 2273, col: 1, offset: 73667},
 			expr: &choiceExpr{
-				pos: position{line: 2273, col: 27, offset: 73692},
+				pos: position{line: 2273, col: 27, offset: 73693},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2273, col: 27, offset: 73692},
+						pos:  position{line: 2273, col: 27, offset: 73693},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2275, col: 23, offset: 73748},
+						pos: position{line: 2275, col: 23, offset: 73749},
 						run: (*parser).callonSuperscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2275, col: 23, offset: 73748},
+							pos:   position{line: 2275, col: 23, offset: 73749},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2275, col: 32, offset: 73757},
+								pos: position{line: 2275, col: 32, offset: 73758},
 								expr: &choiceExpr{
-									pos: position{line: 2275, col: 33, offset: 73758},
+									pos: position{line: 2275, col: 33, offset: 73759},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2470, col: 5, offset: 79404},
+											pos: position{line: 2470, col: 5, offset: 79405},
 											run: (*parser).callonSuperscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2470, col: 5, offset: 79404},
+												pos: position{line: 2470, col: 5, offset: 79405},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2470, col: 5, offset: 79404},
+														pos: position{line: 2470, col: 5, offset: 79405},
 														run: (*parser).callonSuperscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2473, col: 5, offset: 79480},
+														pos:   position{line: 2473, col: 5, offset: 79481},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2474, col: 9, offset: 79498},
+															pos: position{line: 2474, col: 9, offset: 79499},
 															run: (*parser).callonSuperscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2474, col: 10, offset: 79499},
+																pos:        position{line: 2474, col: 10, offset: 79500},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -43058,7 +43058,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2275, col: 52, offset: 73777},
+											pos:        position{line: 2275, col: 52, offset: 73778},
 											val:        "[^\\r\\n ^]",
 											chars:      []rune{'\r', '\n', ' ', '^'},
 											ignoreCase: false,
@@ -43074,23 +43074,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2279, col: 1, offset: 73827},
+			pos:  position{line: 2279, col: 1, offset: 73828},
 			expr: &actionExpr{
-				pos: position{line: 2281, col: 5, offset: 73899},
+				pos: position{line: 2281, col: 5, offset: 73900},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2281, col: 5, offset: 73899},
+					pos: position{line: 2281, col: 5, offset: 73900},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2281, col: 5, offset: 73899},
+							pos:   position{line: 2281, col: 5, offset: 73900},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1852, col: 25, offset: 59860},
+								pos: position{line: 1852, col: 25, offset: 59861},
 								run: (*parser).callonEscapedSuperscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1852, col: 25, offset: 59860},
+									pos: position{line: 1852, col: 25, offset: 59861},
 									expr: &litMatcher{
-										pos:        position{line: 1852, col: 25, offset: 59860},
+										pos:        position{line: 1852, col: 25, offset: 59861},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -43099,21 +43099,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2271, col: 29, offset: 73661},
+							pos:        position{line: 2271, col: 29, offset: 73662},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2283, col: 5, offset: 73969},
+							pos:   position{line: 2283, col: 5, offset: 73970},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2283, col: 14, offset: 73978},
+								pos:  position{line: 2283, col: 14, offset: 73979},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2271, col: 29, offset: 73661},
+							pos:        position{line: 2271, col: 29, offset: 73662},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -43124,27 +43124,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2292, col: 1, offset: 74447},
+			pos:  position{line: 2292, col: 1, offset: 74448},
 			expr: &actionExpr{
-				pos: position{line: 2293, col: 5, offset: 74463},
+				pos: position{line: 2293, col: 5, offset: 74464},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2293, col: 5, offset: 74463},
+					pos: position{line: 2293, col: 5, offset: 74464},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2293, col: 5, offset: 74463},
+							pos: position{line: 2293, col: 5, offset: 74464},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2296, col: 5, offset: 74526},
+							pos:   position{line: 2296, col: 5, offset: 74527},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2296, col: 12, offset: 74533},
+								pos: position{line: 2296, col: 12, offset: 74534},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2296, col: 12, offset: 74533},
+									pos: position{line: 2296, col: 12, offset: 74534},
 									expr: &litMatcher{
-										pos:        position{line: 2296, col: 13, offset: 74534},
+										pos:        position{line: 2296, col: 13, offset: 74535},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -43153,16 +43153,16 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2300, col: 5, offset: 74642},
+							pos: position{line: 2300, col: 5, offset: 74643},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2880, col: 11, offset: 91012},
+							pos: position{line: 2880, col: 11, offset: 91013},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2880, col: 11, offset: 91012},
+								pos: position{line: 2880, col: 11, offset: 91013},
 								expr: &charClassMatcher{
-									pos:        position{line: 2880, col: 11, offset: 91012},
+									pos:        position{line: 2880, col: 11, offset: 91013},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43171,36 +43171,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2304, col: 12, offset: 74801},
+							pos:   position{line: 2304, col: 12, offset: 74802},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2304, col: 19, offset: 74808},
+								pos:  position{line: 2304, col: 19, offset: 74809},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2898, col: 8, offset: 91349},
+							pos: position{line: 2898, col: 8, offset: 91350},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2885, col: 12, offset: 91122},
+									pos: position{line: 2885, col: 12, offset: 91123},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2885, col: 13, offset: 91123},
+										pos: position{line: 2885, col: 13, offset: 91124},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2885, col: 13, offset: 91123},
+												pos:        position{line: 2885, col: 13, offset: 91124},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 20, offset: 91130},
+												pos:        position{line: 2885, col: 20, offset: 91131},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 29, offset: 91139},
+												pos:        position{line: 2885, col: 29, offset: 91140},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -43209,9 +43209,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2895, col: 8, offset: 91299},
+									pos: position{line: 2895, col: 8, offset: 91300},
 									expr: &anyMatcher{
-										line: 2895, col: 9, offset: 91300,
+										line: 2895, col: 9, offset: 91301,
 									},
 								},
 							},
@@ -43222,24 +43222,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2308, col: 1, offset: 74904},
+			pos:  position{line: 2308, col: 1, offset: 74905},
 			expr: &actionExpr{
-				pos: position{line: 2309, col: 5, offset: 74925},
+				pos: position{line: 2309, col: 5, offset: 74926},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2309, col: 5, offset: 74925},
+					pos: position{line: 2309, col: 5, offset: 74926},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2309, col: 5, offset: 74925},
+							pos: position{line: 2309, col: 5, offset: 74926},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2314, col: 5, offset: 75040},
+							pos:   position{line: 2314, col: 5, offset: 75041},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2314, col: 14, offset: 75049},
+								pos: position{line: 2314, col: 14, offset: 75050},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2314, col: 15, offset: 75050},
+									pos:  position{line: 2314, col: 15, offset: 75051},
 									name: "SectionTitleElement",
 								},
 							},
@@ -43250,38 +43250,38 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2318, col: 1, offset: 75131},
+			pos:  position{line: 2318, col: 1, offset: 75132},
 			expr: &actionExpr{
-				pos: position{line: 2319, col: 5, offset: 75158},
+				pos: position{line: 2319, col: 5, offset: 75159},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2319, col: 5, offset: 75158},
+					pos: position{line: 2319, col: 5, offset: 75159},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2319, col: 5, offset: 75158},
+							pos: position{line: 2319, col: 5, offset: 75159},
 							expr: &choiceExpr{
-								pos: position{line: 2898, col: 8, offset: 91349},
+								pos: position{line: 2898, col: 8, offset: 91350},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2885, col: 12, offset: 91122},
+										pos: position{line: 2885, col: 12, offset: 91123},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2885, col: 13, offset: 91123},
+											pos: position{line: 2885, col: 13, offset: 91124},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2885, col: 13, offset: 91123},
+													pos:        position{line: 2885, col: 13, offset: 91124},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2885, col: 20, offset: 91130},
+													pos:        position{line: 2885, col: 20, offset: 91131},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2885, col: 29, offset: 91139},
+													pos:        position{line: 2885, col: 29, offset: 91140},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -43290,29 +43290,29 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2895, col: 8, offset: 91299},
+										pos: position{line: 2895, col: 8, offset: 91300},
 										expr: &anyMatcher{
-											line: 2895, col: 9, offset: 91300,
+											line: 2895, col: 9, offset: 91301,
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2320, col: 5, offset: 75167},
+							pos:   position{line: 2320, col: 5, offset: 75168},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2320, col: 14, offset: 75176},
+								pos: position{line: 2320, col: 14, offset: 75177},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2320, col: 14, offset: 75176},
+										pos:  position{line: 2320, col: 14, offset: 75177},
 										name: "SectionTitleLineElement",
 									},
 									&actionExpr{
-										pos: position{line: 2815, col: 12, offset: 89259},
+										pos: position{line: 2815, col: 12, offset: 89260},
 										run: (*parser).callonSectionTitleElement15,
 										expr: &charClassMatcher{
-											pos:        position{line: 2815, col: 12, offset: 89259},
+											pos:        position{line: 2815, col: 12, offset: 89260},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -43328,21 +43328,21 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleLineElement",
-			pos:  position{line: 2325, col: 1, offset: 75280},
+			pos:  position{line: 2325, col: 1, offset: 75281},
 			expr: &actionExpr{
-				pos: position{line: 2326, col: 5, offset: 75311},
+				pos: position{line: 2326, col: 5, offset: 75312},
 				run: (*parser).callonSectionTitleLineElement1,
 				expr: &seqExpr{
-					pos: position{line: 2326, col: 5, offset: 75311},
+					pos: position{line: 2326, col: 5, offset: 75312},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2326, col: 5, offset: 75311},
+							pos:   position{line: 2326, col: 5, offset: 75312},
 							label: "start",
 							expr: &actionExpr{
-								pos: position{line: 2901, col: 16, offset: 91473},
+								pos: position{line: 2901, col: 16, offset: 91474},
 								run: (*parser).callonSectionTitleLineElement4,
 								expr: &litMatcher{
-									pos:        position{line: 2901, col: 16, offset: 91473},
+									pos:        position{line: 2901, col: 16, offset: 91474},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -43350,27 +43350,27 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2327, col: 5, offset: 75335},
+							pos:   position{line: 2327, col: 5, offset: 75336},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2328, col: 9, offset: 75353},
+								pos: position{line: 2328, col: 9, offset: 75354},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2775, col: 5, offset: 88193},
+										pos: position{line: 2775, col: 5, offset: 88194},
 										run: (*parser).callonSectionTitleLineElement8,
 										expr: &seqExpr{
-											pos: position{line: 2775, col: 5, offset: 88193},
+											pos: position{line: 2775, col: 5, offset: 88194},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2775, col: 5, offset: 88193},
+													pos:   position{line: 2775, col: 5, offset: 88194},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2775, col: 11, offset: 88199},
+														pos: position{line: 2775, col: 11, offset: 88200},
 														run: (*parser).callonSectionTitleLineElement11,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2775, col: 11, offset: 88199},
+															pos: position{line: 2775, col: 11, offset: 88200},
 															expr: &charClassMatcher{
-																pos:        position{line: 2775, col: 11, offset: 88199},
+																pos:        position{line: 2775, col: 11, offset: 88200},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -43380,36 +43380,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2778, col: 5, offset: 88257},
+													pos: position{line: 2778, col: 5, offset: 88258},
 													expr: &seqExpr{
-														pos: position{line: 2779, col: 9, offset: 88268},
+														pos: position{line: 2779, col: 9, offset: 88269},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2779, col: 9, offset: 88268},
+																pos:        position{line: 2779, col: 9, offset: 88269},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2780, col: 9, offset: 88317},
+																pos: position{line: 2780, col: 9, offset: 88318},
 																run: (*parser).callonSectionTitleLineElement17,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2784, col: 5, offset: 88397},
+													pos: position{line: 2784, col: 5, offset: 88398},
 													expr: &seqExpr{
-														pos: position{line: 2785, col: 9, offset: 88408},
+														pos: position{line: 2785, col: 9, offset: 88409},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2785, col: 9, offset: 88408},
+																pos:        position{line: 2785, col: 9, offset: 88409},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2785, col: 13, offset: 88412},
+																pos:        position{line: 2785, col: 13, offset: 88413},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -43422,12 +43422,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2880, col: 11, offset: 91012},
+										pos: position{line: 2880, col: 11, offset: 91013},
 										run: (*parser).callonSectionTitleLineElement22,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2880, col: 11, offset: 91012},
+											pos: position{line: 2880, col: 11, offset: 91013},
 											expr: &charClassMatcher{
-												pos:        position{line: 2880, col: 11, offset: 91012},
+												pos:        position{line: 2880, col: 11, offset: 91013},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -43436,25 +43436,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2501, col: 5, offset: 80575},
+										pos: position{line: 2501, col: 5, offset: 80576},
 										run: (*parser).callonSectionTitleLineElement25,
 										expr: &seqExpr{
-											pos: position{line: 2501, col: 5, offset: 80575},
+											pos: position{line: 2501, col: 5, offset: 80576},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2501, col: 5, offset: 80575},
+													pos: position{line: 2501, col: 5, offset: 80576},
 													run: (*parser).callonSectionTitleLineElement27,
 												},
 												&litMatcher{
-													pos:        position{line: 2504, col: 5, offset: 80646},
+													pos:        position{line: 2504, col: 5, offset: 80647},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2504, col: 10, offset: 80651},
+													pos: position{line: 2504, col: 10, offset: 80652},
 													expr: &charClassMatcher{
-														pos:        position{line: 2504, col: 11, offset: 80652},
+														pos:        position{line: 2504, col: 11, offset: 80653},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -43465,29 +43465,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2510, col: 5, offset: 80844},
+										pos: position{line: 2510, col: 5, offset: 80845},
 										run: (*parser).callonSectionTitleLineElement31,
 										expr: &seqExpr{
-											pos: position{line: 2510, col: 5, offset: 80844},
+											pos: position{line: 2510, col: 5, offset: 80845},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2510, col: 5, offset: 80844},
+													pos: position{line: 2510, col: 5, offset: 80845},
 													run: (*parser).callonSectionTitleLineElement33,
 												},
 												&andCodeExpr{
-													pos: position{line: 2513, col: 5, offset: 80915},
+													pos: position{line: 2513, col: 5, offset: 80916},
 													run: (*parser).callonSectionTitleLineElement34,
 												},
 												&litMatcher{
-													pos:        position{line: 2517, col: 5, offset: 81040},
+													pos:        position{line: 2517, col: 5, offset: 81041},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2517, col: 9, offset: 81044},
+													pos: position{line: 2517, col: 9, offset: 81045},
 													expr: &charClassMatcher{
-														pos:        position{line: 2517, col: 10, offset: 81045},
+														pos:        position{line: 2517, col: 10, offset: 81046},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -43498,31 +43498,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2331, col: 11, offset: 75418},
+										pos:  position{line: 2331, col: 11, offset: 75419},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2793, col: 5, offset: 88605},
+										pos: position{line: 2793, col: 5, offset: 88606},
 										run: (*parser).callonSectionTitleLineElement39,
 										expr: &choiceExpr{
-											pos: position{line: 2794, col: 9, offset: 88615},
+											pos: position{line: 2794, col: 9, offset: 88616},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2794, col: 10, offset: 88616},
+													pos:        position{line: 2794, col: 10, offset: 88617},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2796, col: 13, offset: 88713},
+													pos: position{line: 2796, col: 13, offset: 88714},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2796, col: 13, offset: 88713},
+															pos: position{line: 2796, col: 13, offset: 88714},
 															run: (*parser).callonSectionTitleLineElement43,
 														},
 														&litMatcher{
-															pos:        position{line: 2799, col: 13, offset: 88813},
+															pos:        position{line: 2799, col: 13, offset: 88814},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -43530,20 +43530,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2799, col: 19, offset: 88819},
+													pos:        position{line: 2799, col: 19, offset: 88820},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2802, col: 13, offset: 88857},
+													pos: position{line: 2802, col: 13, offset: 88858},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2802, col: 13, offset: 88857},
+															pos: position{line: 2802, col: 13, offset: 88858},
 															run: (*parser).callonSectionTitleLineElement47,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2805, col: 14, offset: 88950},
+															pos:        position{line: 2805, col: 14, offset: 88951},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -43552,18 +43552,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2807, col: 12, offset: 88994},
+													pos: position{line: 2807, col: 12, offset: 88995},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2807, col: 12, offset: 88994},
+															pos:        position{line: 2807, col: 12, offset: 88995},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2807, col: 16, offset: 88998},
+															pos: position{line: 2807, col: 16, offset: 88999},
 															expr: &litMatcher{
-																pos:        position{line: 2807, col: 17, offset: 88999},
+																pos:        position{line: 2807, col: 17, offset: 89000},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -43575,35 +43575,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2333, col: 11, offset: 75491},
+										pos:  position{line: 2333, col: 11, offset: 75492},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2334, col: 11, offset: 75507},
+										pos:  position{line: 2334, col: 11, offset: 75508},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2335, col: 11, offset: 75535},
+										pos:  position{line: 2335, col: 11, offset: 75536},
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2470, col: 5, offset: 79404},
+										pos: position{line: 2470, col: 5, offset: 79405},
 										run: (*parser).callonSectionTitleLineElement56,
 										expr: &seqExpr{
-											pos: position{line: 2470, col: 5, offset: 79404},
+											pos: position{line: 2470, col: 5, offset: 79405},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2470, col: 5, offset: 79404},
+													pos: position{line: 2470, col: 5, offset: 79405},
 													run: (*parser).callonSectionTitleLineElement58,
 												},
 												&labeledExpr{
-													pos:   position{line: 2473, col: 5, offset: 79480},
+													pos:   position{line: 2473, col: 5, offset: 79481},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2474, col: 9, offset: 79498},
+														pos: position{line: 2474, col: 9, offset: 79499},
 														run: (*parser).callonSectionTitleLineElement60,
 														expr: &charClassMatcher{
-															pos:        position{line: 2474, col: 10, offset: 79499},
+															pos:        position{line: 2474, col: 10, offset: 79500},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -43615,39 +43615,39 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2337, col: 11, offset: 75620},
+										pos:  position{line: 2337, col: 11, offset: 75621},
 										name: "InlineIcon",
 									},
 									&actionExpr{
-										pos: position{line: 636, col: 5, offset: 20177},
+										pos: position{line: 636, col: 5, offset: 20178},
 										run: (*parser).callonSectionTitleLineElement63,
 										expr: &seqExpr{
-											pos: position{line: 636, col: 5, offset: 20177},
+											pos: position{line: 636, col: 5, offset: 20178},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 636, col: 5, offset: 20177},
+													pos: position{line: 636, col: 5, offset: 20178},
 													run: (*parser).callonSectionTitleLineElement65,
 												},
 												&labeledExpr{
-													pos:   position{line: 639, col: 5, offset: 20249},
+													pos:   position{line: 639, col: 5, offset: 20250},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 639, col: 14, offset: 20258},
+														pos: position{line: 639, col: 14, offset: 20259},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 645, col: 5, offset: 20387},
+																pos: position{line: 645, col: 5, offset: 20388},
 																run: (*parser).callonSectionTitleLineElement68,
 																expr: &seqExpr{
-																	pos: position{line: 645, col: 5, offset: 20387},
+																	pos: position{line: 645, col: 5, offset: 20388},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 645, col: 5, offset: 20387},
+																			pos:        position{line: 645, col: 5, offset: 20388},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 645, col: 13, offset: 20395},
+																			pos:   position{line: 645, col: 13, offset: 20396},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9729},
@@ -43667,8 +43667,8 @@ var g = &grammar{
 																							pos: position{line: 318, col: 28, offset: 9739},
 																							expr: &charClassMatcher{
 																								pos:        position{line: 318, col: 29, offset: 9740},
-																								val:        "[-\\pL\\pN]",
-																								chars:      []rune{'-'},
+																								val:        "[_-\\pL\\pN]",
+																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
 																								inverted:   false,
@@ -43679,7 +43679,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 645, col: 32, offset: 20414},
+																			pos:        position{line: 645, col: 32, offset: 20415},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -43688,19 +43688,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 652, col: 5, offset: 20655},
+																pos: position{line: 652, col: 5, offset: 20656},
 																run: (*parser).callonSectionTitleLineElement78,
 																expr: &seqExpr{
-																	pos: position{line: 652, col: 5, offset: 20655},
+																	pos: position{line: 652, col: 5, offset: 20656},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 652, col: 5, offset: 20655},
+																			pos:        position{line: 652, col: 5, offset: 20656},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 652, col: 9, offset: 20659},
+																			pos:   position{line: 652, col: 9, offset: 20660},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9729},
@@ -43720,8 +43720,8 @@ var g = &grammar{
 																							pos: position{line: 318, col: 28, offset: 9739},
 																							expr: &charClassMatcher{
 																								pos:        position{line: 318, col: 29, offset: 9740},
-																								val:        "[-\\pL\\pN]",
-																								chars:      []rune{'-'},
+																								val:        "[_-\\pL\\pN]",
+																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
 																								inverted:   false,
@@ -43732,7 +43732,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 652, col: 28, offset: 20678},
+																			pos:        position{line: 652, col: 28, offset: 20679},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -43741,19 +43741,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 658, col: 25, offset: 20859},
+																pos: position{line: 658, col: 25, offset: 20860},
 																run: (*parser).callonSectionTitleLineElement88,
 																expr: &seqExpr{
-																	pos: position{line: 658, col: 25, offset: 20859},
+																	pos: position{line: 658, col: 25, offset: 20860},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 658, col: 25, offset: 20859},
+																			pos:        position{line: 658, col: 25, offset: 20860},
 																			val:        "{counter:",
 																			ignoreCase: false,
 																			want:       "\"{counter:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 658, col: 37, offset: 20871},
+																			pos:   position{line: 658, col: 37, offset: 20872},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9729},
@@ -43773,8 +43773,8 @@ var g = &grammar{
 																							pos: position{line: 318, col: 28, offset: 9739},
 																							expr: &charClassMatcher{
 																								pos:        position{line: 318, col: 29, offset: 9740},
-																								val:        "[-\\pL\\pN]",
-																								chars:      []rune{'-'},
+																								val:        "[_-\\pL\\pN]",
+																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
 																								inverted:   false,
@@ -43785,33 +43785,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 658, col: 56, offset: 20890},
+																			pos:   position{line: 658, col: 56, offset: 20891},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 658, col: 62, offset: 20896},
+																				pos: position{line: 658, col: 62, offset: 20897},
 																				expr: &actionExpr{
-																					pos: position{line: 666, col: 17, offset: 21191},
+																					pos: position{line: 666, col: 17, offset: 21192},
 																					run: (*parser).callonSectionTitleLineElement99,
 																					expr: &seqExpr{
-																						pos: position{line: 666, col: 17, offset: 21191},
+																						pos: position{line: 666, col: 17, offset: 21192},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 666, col: 17, offset: 21191},
+																								pos:        position{line: 666, col: 17, offset: 21192},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 666, col: 21, offset: 21195},
+																								pos:   position{line: 666, col: 21, offset: 21196},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 666, col: 28, offset: 21202},
+																									pos: position{line: 666, col: 28, offset: 21203},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 666, col: 28, offset: 21202},
+																											pos: position{line: 666, col: 28, offset: 21203},
 																											run: (*parser).callonSectionTitleLineElement104,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 666, col: 28, offset: 21202},
+																												pos:        position{line: 666, col: 28, offset: 21203},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -43819,12 +43819,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 668, col: 9, offset: 21256},
+																											pos: position{line: 668, col: 9, offset: 21257},
 																											run: (*parser).callonSectionTitleLineElement106,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 668, col: 9, offset: 21256},
+																												pos: position{line: 668, col: 9, offset: 21257},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 668, col: 9, offset: 21256},
+																													pos:        position{line: 668, col: 9, offset: 21257},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -43841,7 +43841,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 658, col: 78, offset: 20912},
+																			pos:        position{line: 658, col: 78, offset: 20913},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -43850,19 +43850,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 662, col: 25, offset: 21030},
+																pos: position{line: 662, col: 25, offset: 21031},
 																run: (*parser).callonSectionTitleLineElement110,
 																expr: &seqExpr{
-																	pos: position{line: 662, col: 25, offset: 21030},
+																	pos: position{line: 662, col: 25, offset: 21031},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 662, col: 25, offset: 21030},
+																			pos:        position{line: 662, col: 25, offset: 21031},
 																			val:        "{counter2:",
 																			ignoreCase: false,
 																			want:       "\"{counter2:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 662, col: 38, offset: 21043},
+																			pos:   position{line: 662, col: 38, offset: 21044},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9729},
@@ -43882,8 +43882,8 @@ var g = &grammar{
 																							pos: position{line: 318, col: 28, offset: 9739},
 																							expr: &charClassMatcher{
 																								pos:        position{line: 318, col: 29, offset: 9740},
-																								val:        "[-\\pL\\pN]",
-																								chars:      []rune{'-'},
+																								val:        "[_-\\pL\\pN]",
+																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																								ignoreCase: false,
 																								inverted:   false,
@@ -43894,33 +43894,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 662, col: 57, offset: 21062},
+																			pos:   position{line: 662, col: 57, offset: 21063},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 662, col: 63, offset: 21068},
+																				pos: position{line: 662, col: 63, offset: 21069},
 																				expr: &actionExpr{
-																					pos: position{line: 666, col: 17, offset: 21191},
+																					pos: position{line: 666, col: 17, offset: 21192},
 																					run: (*parser).callonSectionTitleLineElement121,
 																					expr: &seqExpr{
-																						pos: position{line: 666, col: 17, offset: 21191},
+																						pos: position{line: 666, col: 17, offset: 21192},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 666, col: 17, offset: 21191},
+																								pos:        position{line: 666, col: 17, offset: 21192},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 666, col: 21, offset: 21195},
+																								pos:   position{line: 666, col: 21, offset: 21196},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 666, col: 28, offset: 21202},
+																									pos: position{line: 666, col: 28, offset: 21203},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 666, col: 28, offset: 21202},
+																											pos: position{line: 666, col: 28, offset: 21203},
 																											run: (*parser).callonSectionTitleLineElement126,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 666, col: 28, offset: 21202},
+																												pos:        position{line: 666, col: 28, offset: 21203},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -43928,12 +43928,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 668, col: 9, offset: 21256},
+																											pos: position{line: 668, col: 9, offset: 21257},
 																											run: (*parser).callonSectionTitleLineElement128,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 668, col: 9, offset: 21256},
+																												pos: position{line: 668, col: 9, offset: 21257},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 668, col: 9, offset: 21256},
+																													pos:        position{line: 668, col: 9, offset: 21257},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -43950,7 +43950,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 662, col: 79, offset: 21084},
+																			pos:        position{line: 662, col: 79, offset: 21085},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -43965,27 +43965,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1198, col: 23, offset: 37045},
+										pos: position{line: 1198, col: 23, offset: 37046},
 										run: (*parser).callonSectionTitleLineElement132,
 										expr: &seqExpr{
-											pos: position{line: 1198, col: 23, offset: 37045},
+											pos: position{line: 1198, col: 23, offset: 37046},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1196, col: 32, offset: 37013},
+													pos:        position{line: 1196, col: 32, offset: 37014},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1198, col: 51, offset: 37073},
+													pos:   position{line: 1198, col: 51, offset: 37074},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1198, col: 56, offset: 37078},
+														pos: position{line: 1198, col: 56, offset: 37079},
 														run: (*parser).callonSectionTitleLineElement136,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1198, col: 56, offset: 37078},
+															pos: position{line: 1198, col: 56, offset: 37079},
 															expr: &charClassMatcher{
-																pos:        position{line: 1198, col: 56, offset: 37078},
+																pos:        position{line: 1198, col: 56, offset: 37079},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -43995,7 +43995,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1196, col: 32, offset: 37013},
+													pos:        position{line: 1196, col: 32, offset: 37014},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
@@ -44004,51 +44004,51 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2353, col: 5, offset: 76114},
+										pos: position{line: 2353, col: 5, offset: 76115},
 										run: (*parser).callonSectionTitleLineElement140,
 										expr: &seqExpr{
-											pos: position{line: 2353, col: 5, offset: 76114},
+											pos: position{line: 2353, col: 5, offset: 76115},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2353, col: 5, offset: 76114},
+													pos: position{line: 2353, col: 5, offset: 76115},
 													run: (*parser).callonSectionTitleLineElement142,
 												},
 												&labeledExpr{
-													pos:   position{line: 2356, col: 5, offset: 76169},
+													pos:   position{line: 2356, col: 5, offset: 76170},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 404, col: 5, offset: 12405},
+														pos: position{line: 404, col: 5, offset: 12406},
 														run: (*parser).callonSectionTitleLineElement144,
 														expr: &seqExpr{
-															pos: position{line: 404, col: 5, offset: 12405},
+															pos: position{line: 404, col: 5, offset: 12406},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 404, col: 5, offset: 12405},
+																	pos:        position{line: 404, col: 5, offset: 12406},
 																	val:        "[[",
 																	ignoreCase: false,
 																	want:       "\"[[\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 405, col: 5, offset: 12415},
+																	pos:   position{line: 405, col: 5, offset: 12416},
 																	label: "id",
 																	expr: &actionExpr{
-																		pos: position{line: 406, col: 9, offset: 12428},
+																		pos: position{line: 406, col: 9, offset: 12429},
 																		run: (*parser).callonSectionTitleLineElement148,
 																		expr: &labeledExpr{
-																			pos:   position{line: 406, col: 9, offset: 12428},
+																			pos:   position{line: 406, col: 9, offset: 12429},
 																			label: "elements",
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 406, col: 18, offset: 12437},
+																				pos: position{line: 406, col: 18, offset: 12438},
 																				expr: &choiceExpr{
-																					pos: position{line: 407, col: 13, offset: 12451},
+																					pos: position{line: 407, col: 13, offset: 12452},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 407, col: 14, offset: 12452},
+																							pos: position{line: 407, col: 14, offset: 12453},
 																							run: (*parser).callonSectionTitleLineElement152,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 407, col: 14, offset: 12452},
+																								pos: position{line: 407, col: 14, offset: 12453},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 407, col: 14, offset: 12452},
+																									pos:        position{line: 407, col: 14, offset: 12453},
 																									val:        "[^=\\r\\n�{]]",
 																									chars:      []rune{'=', '\r', '\n', '�', '{', ']'},
 																									ignoreCase: false,
@@ -44057,27 +44057,27 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 1198, col: 23, offset: 37045},
+																							pos: position{line: 1198, col: 23, offset: 37046},
 																							run: (*parser).callonSectionTitleLineElement155,
 																							expr: &seqExpr{
-																								pos: position{line: 1198, col: 23, offset: 37045},
+																								pos: position{line: 1198, col: 23, offset: 37046},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 1196, col: 32, offset: 37013},
+																										pos:        position{line: 1196, col: 32, offset: 37014},
 																										val:        "�",
 																										ignoreCase: false,
 																										want:       "\"�\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1198, col: 51, offset: 37073},
+																										pos:   position{line: 1198, col: 51, offset: 37074},
 																										label: "ref",
 																										expr: &actionExpr{
-																											pos: position{line: 1198, col: 56, offset: 37078},
+																											pos: position{line: 1198, col: 56, offset: 37079},
 																											run: (*parser).callonSectionTitleLineElement159,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1198, col: 56, offset: 37078},
+																												pos: position{line: 1198, col: 56, offset: 37079},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1198, col: 56, offset: 37078},
+																													pos:        position{line: 1198, col: 56, offset: 37079},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -44087,7 +44087,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1196, col: 32, offset: 37013},
+																										pos:        position{line: 1196, col: 32, offset: 37014},
 																										val:        "�",
 																										ignoreCase: false,
 																										want:       "\"�\"",
@@ -44096,35 +44096,35 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 636, col: 5, offset: 20177},
+																							pos: position{line: 636, col: 5, offset: 20178},
 																							run: (*parser).callonSectionTitleLineElement163,
 																							expr: &seqExpr{
-																								pos: position{line: 636, col: 5, offset: 20177},
+																								pos: position{line: 636, col: 5, offset: 20178},
 																								exprs: []interface{}{
 																									&andCodeExpr{
-																										pos: position{line: 636, col: 5, offset: 20177},
+																										pos: position{line: 636, col: 5, offset: 20178},
 																										run: (*parser).callonSectionTitleLineElement165,
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 639, col: 5, offset: 20249},
+																										pos:   position{line: 639, col: 5, offset: 20250},
 																										label: "element",
 																										expr: &choiceExpr{
-																											pos: position{line: 639, col: 14, offset: 20258},
+																											pos: position{line: 639, col: 14, offset: 20259},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 645, col: 5, offset: 20387},
+																													pos: position{line: 645, col: 5, offset: 20388},
 																													run: (*parser).callonSectionTitleLineElement168,
 																													expr: &seqExpr{
-																														pos: position{line: 645, col: 5, offset: 20387},
+																														pos: position{line: 645, col: 5, offset: 20388},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 645, col: 5, offset: 20387},
+																																pos:        position{line: 645, col: 5, offset: 20388},
 																																val:        "\\{",
 																																ignoreCase: false,
 																																want:       "\"\\\\{\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 645, col: 13, offset: 20395},
+																																pos:   position{line: 645, col: 13, offset: 20396},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 318, col: 18, offset: 9729},
@@ -44144,8 +44144,8 @@ var g = &grammar{
 																																				pos: position{line: 318, col: 28, offset: 9739},
 																																				expr: &charClassMatcher{
 																																					pos:        position{line: 318, col: 29, offset: 9740},
-																																					val:        "[-\\pL\\pN]",
-																																					chars:      []rune{'-'},
+																																					val:        "[_-\\pL\\pN]",
+																																					chars:      []rune{'_', '-'},
 																																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																					ignoreCase: false,
 																																					inverted:   false,
@@ -44156,7 +44156,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 645, col: 32, offset: 20414},
+																																pos:        position{line: 645, col: 32, offset: 20415},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -44165,19 +44165,19 @@ var g = &grammar{
 																													},
 																												},
 																												&actionExpr{
-																													pos: position{line: 652, col: 5, offset: 20655},
+																													pos: position{line: 652, col: 5, offset: 20656},
 																													run: (*parser).callonSectionTitleLineElement178,
 																													expr: &seqExpr{
-																														pos: position{line: 652, col: 5, offset: 20655},
+																														pos: position{line: 652, col: 5, offset: 20656},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 652, col: 5, offset: 20655},
+																																pos:        position{line: 652, col: 5, offset: 20656},
 																																val:        "{",
 																																ignoreCase: false,
 																																want:       "\"{\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 652, col: 9, offset: 20659},
+																																pos:   position{line: 652, col: 9, offset: 20660},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 318, col: 18, offset: 9729},
@@ -44197,8 +44197,8 @@ var g = &grammar{
 																																				pos: position{line: 318, col: 28, offset: 9739},
 																																				expr: &charClassMatcher{
 																																					pos:        position{line: 318, col: 29, offset: 9740},
-																																					val:        "[-\\pL\\pN]",
-																																					chars:      []rune{'-'},
+																																					val:        "[_-\\pL\\pN]",
+																																					chars:      []rune{'_', '-'},
 																																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																					ignoreCase: false,
 																																					inverted:   false,
@@ -44209,7 +44209,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 652, col: 28, offset: 20678},
+																																pos:        position{line: 652, col: 28, offset: 20679},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -44218,19 +44218,19 @@ var g = &grammar{
 																													},
 																												},
 																												&actionExpr{
-																													pos: position{line: 658, col: 25, offset: 20859},
+																													pos: position{line: 658, col: 25, offset: 20860},
 																													run: (*parser).callonSectionTitleLineElement188,
 																													expr: &seqExpr{
-																														pos: position{line: 658, col: 25, offset: 20859},
+																														pos: position{line: 658, col: 25, offset: 20860},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 658, col: 25, offset: 20859},
+																																pos:        position{line: 658, col: 25, offset: 20860},
 																																val:        "{counter:",
 																																ignoreCase: false,
 																																want:       "\"{counter:\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 658, col: 37, offset: 20871},
+																																pos:   position{line: 658, col: 37, offset: 20872},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 318, col: 18, offset: 9729},
@@ -44250,8 +44250,8 @@ var g = &grammar{
 																																				pos: position{line: 318, col: 28, offset: 9739},
 																																				expr: &charClassMatcher{
 																																					pos:        position{line: 318, col: 29, offset: 9740},
-																																					val:        "[-\\pL\\pN]",
-																																					chars:      []rune{'-'},
+																																					val:        "[_-\\pL\\pN]",
+																																					chars:      []rune{'_', '-'},
 																																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																					ignoreCase: false,
 																																					inverted:   false,
@@ -44262,33 +44262,33 @@ var g = &grammar{
 																																},
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 658, col: 56, offset: 20890},
+																																pos:   position{line: 658, col: 56, offset: 20891},
 																																label: "start",
 																																expr: &zeroOrOneExpr{
-																																	pos: position{line: 658, col: 62, offset: 20896},
+																																	pos: position{line: 658, col: 62, offset: 20897},
 																																	expr: &actionExpr{
-																																		pos: position{line: 666, col: 17, offset: 21191},
+																																		pos: position{line: 666, col: 17, offset: 21192},
 																																		run: (*parser).callonSectionTitleLineElement199,
 																																		expr: &seqExpr{
-																																			pos: position{line: 666, col: 17, offset: 21191},
+																																			pos: position{line: 666, col: 17, offset: 21192},
 																																			exprs: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 666, col: 17, offset: 21191},
+																																					pos:        position{line: 666, col: 17, offset: 21192},
 																																					val:        ":",
 																																					ignoreCase: false,
 																																					want:       "\":\"",
 																																				},
 																																				&labeledExpr{
-																																					pos:   position{line: 666, col: 21, offset: 21195},
+																																					pos:   position{line: 666, col: 21, offset: 21196},
 																																					label: "start",
 																																					expr: &choiceExpr{
-																																						pos: position{line: 666, col: 28, offset: 21202},
+																																						pos: position{line: 666, col: 28, offset: 21203},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 666, col: 28, offset: 21202},
+																																								pos: position{line: 666, col: 28, offset: 21203},
 																																								run: (*parser).callonSectionTitleLineElement204,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 666, col: 28, offset: 21202},
+																																									pos:        position{line: 666, col: 28, offset: 21203},
 																																									val:        "[A-Za-z]",
 																																									ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																									ignoreCase: false,
@@ -44296,12 +44296,12 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&actionExpr{
-																																								pos: position{line: 668, col: 9, offset: 21256},
+																																								pos: position{line: 668, col: 9, offset: 21257},
 																																								run: (*parser).callonSectionTitleLineElement206,
 																																								expr: &oneOrMoreExpr{
-																																									pos: position{line: 668, col: 9, offset: 21256},
+																																									pos: position{line: 668, col: 9, offset: 21257},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 668, col: 9, offset: 21256},
+																																										pos:        position{line: 668, col: 9, offset: 21257},
 																																										val:        "[0-9]",
 																																										ranges:     []rune{'0', '9'},
 																																										ignoreCase: false,
@@ -44318,7 +44318,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 658, col: 78, offset: 20912},
+																																pos:        position{line: 658, col: 78, offset: 20913},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -44327,19 +44327,19 @@ var g = &grammar{
 																													},
 																												},
 																												&actionExpr{
-																													pos: position{line: 662, col: 25, offset: 21030},
+																													pos: position{line: 662, col: 25, offset: 21031},
 																													run: (*parser).callonSectionTitleLineElement210,
 																													expr: &seqExpr{
-																														pos: position{line: 662, col: 25, offset: 21030},
+																														pos: position{line: 662, col: 25, offset: 21031},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 662, col: 25, offset: 21030},
+																																pos:        position{line: 662, col: 25, offset: 21031},
 																																val:        "{counter2:",
 																																ignoreCase: false,
 																																want:       "\"{counter2:\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 662, col: 38, offset: 21043},
+																																pos:   position{line: 662, col: 38, offset: 21044},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 318, col: 18, offset: 9729},
@@ -44359,8 +44359,8 @@ var g = &grammar{
 																																				pos: position{line: 318, col: 28, offset: 9739},
 																																				expr: &charClassMatcher{
 																																					pos:        position{line: 318, col: 29, offset: 9740},
-																																					val:        "[-\\pL\\pN]",
-																																					chars:      []rune{'-'},
+																																					val:        "[_-\\pL\\pN]",
+																																					chars:      []rune{'_', '-'},
 																																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																																					ignoreCase: false,
 																																					inverted:   false,
@@ -44371,33 +44371,33 @@ var g = &grammar{
 																																},
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 662, col: 57, offset: 21062},
+																																pos:   position{line: 662, col: 57, offset: 21063},
 																																label: "start",
 																																expr: &zeroOrOneExpr{
-																																	pos: position{line: 662, col: 63, offset: 21068},
+																																	pos: position{line: 662, col: 63, offset: 21069},
 																																	expr: &actionExpr{
-																																		pos: position{line: 666, col: 17, offset: 21191},
+																																		pos: position{line: 666, col: 17, offset: 21192},
 																																		run: (*parser).callonSectionTitleLineElement221,
 																																		expr: &seqExpr{
-																																			pos: position{line: 666, col: 17, offset: 21191},
+																																			pos: position{line: 666, col: 17, offset: 21192},
 																																			exprs: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 666, col: 17, offset: 21191},
+																																					pos:        position{line: 666, col: 17, offset: 21192},
 																																					val:        ":",
 																																					ignoreCase: false,
 																																					want:       "\":\"",
 																																				},
 																																				&labeledExpr{
-																																					pos:   position{line: 666, col: 21, offset: 21195},
+																																					pos:   position{line: 666, col: 21, offset: 21196},
 																																					label: "start",
 																																					expr: &choiceExpr{
-																																						pos: position{line: 666, col: 28, offset: 21202},
+																																						pos: position{line: 666, col: 28, offset: 21203},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 666, col: 28, offset: 21202},
+																																								pos: position{line: 666, col: 28, offset: 21203},
 																																								run: (*parser).callonSectionTitleLineElement226,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 666, col: 28, offset: 21202},
+																																									pos:        position{line: 666, col: 28, offset: 21203},
 																																									val:        "[A-Za-z]",
 																																									ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																									ignoreCase: false,
@@ -44405,12 +44405,12 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&actionExpr{
-																																								pos: position{line: 668, col: 9, offset: 21256},
+																																								pos: position{line: 668, col: 9, offset: 21257},
 																																								run: (*parser).callonSectionTitleLineElement228,
 																																								expr: &oneOrMoreExpr{
-																																									pos: position{line: 668, col: 9, offset: 21256},
+																																									pos: position{line: 668, col: 9, offset: 21257},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 668, col: 9, offset: 21256},
+																																										pos:        position{line: 668, col: 9, offset: 21257},
 																																										val:        "[0-9]",
 																																										ranges:     []rune{'0', '9'},
 																																										ignoreCase: false,
@@ -44427,7 +44427,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 662, col: 79, offset: 21084},
+																																pos:        position{line: 662, col: 79, offset: 21085},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -44442,10 +44442,10 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 412, col: 16, offset: 12685},
+																							pos: position{line: 412, col: 16, offset: 12686},
 																							run: (*parser).callonSectionTitleLineElement232,
 																							expr: &litMatcher{
-																								pos:        position{line: 412, col: 16, offset: 12685},
+																								pos:        position{line: 412, col: 16, offset: 12686},
 																								val:        "{",
 																								ignoreCase: false,
 																								want:       "\"{\"",
@@ -44458,7 +44458,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 418, col: 5, offset: 12871},
+																	pos:        position{line: 418, col: 5, offset: 12872},
 																	val:        "]]",
 																	ignoreCase: false,
 																	want:       "\"]]\"",
@@ -44468,12 +44468,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2356, col: 26, offset: 76190},
+													pos: position{line: 2356, col: 26, offset: 76191},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 90951},
+														pos: position{line: 2876, col: 10, offset: 90952},
 														run: (*parser).callonSectionTitleLineElement236,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 90951},
+															pos:        position{line: 2876, col: 10, offset: 90952},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -44482,30 +44482,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 2356, col: 33, offset: 76197},
+													pos: position{line: 2356, col: 33, offset: 76198},
 													expr: &choiceExpr{
-														pos: position{line: 2898, col: 8, offset: 91349},
+														pos: position{line: 2898, col: 8, offset: 91350},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2885, col: 12, offset: 91122},
+																pos: position{line: 2885, col: 12, offset: 91123},
 																run: (*parser).callonSectionTitleLineElement240,
 																expr: &choiceExpr{
-																	pos: position{line: 2885, col: 13, offset: 91123},
+																	pos: position{line: 2885, col: 13, offset: 91124},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 13, offset: 91123},
+																			pos:        position{line: 2885, col: 13, offset: 91124},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 20, offset: 91130},
+																			pos:        position{line: 2885, col: 20, offset: 91131},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 29, offset: 91139},
+																			pos:        position{line: 2885, col: 29, offset: 91140},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -44514,9 +44514,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91299},
+																pos: position{line: 2895, col: 8, offset: 91300},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91300,
+																	line: 2895, col: 9, offset: 91301,
 																},
 															},
 														},
@@ -44526,27 +44526,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1253, col: 5, offset: 38805},
+										pos: position{line: 1253, col: 5, offset: 38806},
 										run: (*parser).callonSectionTitleLineElement247,
 										expr: &seqExpr{
-											pos: position{line: 1253, col: 5, offset: 38805},
+											pos: position{line: 1253, col: 5, offset: 38806},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1253, col: 5, offset: 38805},
+													pos:        position{line: 1253, col: 5, offset: 38806},
 													val:        "\\[[",
 													ignoreCase: false,
 													want:       "\"\\\\[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1253, col: 14, offset: 38814},
+													pos:   position{line: 1253, col: 14, offset: 38815},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2861, col: 7, offset: 90603},
+														pos: position{line: 2861, col: 7, offset: 90604},
 														run: (*parser).callonSectionTitleLineElement251,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2861, col: 7, offset: 90603},
+															pos: position{line: 2861, col: 7, offset: 90604},
 															expr: &charClassMatcher{
-																pos:        position{line: 2861, col: 7, offset: 90603},
+																pos:        position{line: 2861, col: 7, offset: 90604},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -44556,7 +44556,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1253, col: 22, offset: 38822},
+													pos:        position{line: 1253, col: 22, offset: 38823},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -44565,27 +44565,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1258, col: 5, offset: 38941},
+										pos: position{line: 1258, col: 5, offset: 38942},
 										run: (*parser).callonSectionTitleLineElement255,
 										expr: &seqExpr{
-											pos: position{line: 1258, col: 5, offset: 38941},
+											pos: position{line: 1258, col: 5, offset: 38942},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1258, col: 5, offset: 38941},
+													pos:        position{line: 1258, col: 5, offset: 38942},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1258, col: 10, offset: 38946},
+													pos:   position{line: 1258, col: 10, offset: 38947},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2861, col: 7, offset: 90603},
+														pos: position{line: 2861, col: 7, offset: 90604},
 														run: (*parser).callonSectionTitleLineElement259,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2861, col: 7, offset: 90603},
+															pos: position{line: 2861, col: 7, offset: 90604},
 															expr: &charClassMatcher{
-																pos:        position{line: 2861, col: 7, offset: 90603},
+																pos:        position{line: 2861, col: 7, offset: 90604},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -44595,7 +44595,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1258, col: 18, offset: 38954},
+													pos:        position{line: 1258, col: 18, offset: 38955},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -44604,20 +44604,20 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2342, col: 11, offset: 75874},
+										pos:  position{line: 2342, col: 11, offset: 75875},
 										name: "InlineFootnote",
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2343, col: 5, offset: 75894},
+							pos:   position{line: 2343, col: 5, offset: 75895},
 							label: "end",
 							expr: &actionExpr{
-								pos: position{line: 2901, col: 16, offset: 91473},
+								pos: position{line: 2901, col: 16, offset: 91474},
 								run: (*parser).callonSectionTitleLineElement265,
 								expr: &litMatcher{
-									pos:        position{line: 2901, col: 16, offset: 91473},
+									pos:        position{line: 2901, col: 16, offset: 91474},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -44625,7 +44625,7 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2344, col: 5, offset: 75916},
+							pos: position{line: 2344, col: 5, offset: 75917},
 							run: (*parser).callonSectionTitleLineElement267,
 						},
 					},
@@ -44634,52 +44634,52 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2366, col: 1, offset: 76459},
+			pos:  position{line: 2366, col: 1, offset: 76460},
 			expr: &actionExpr{
-				pos: position{line: 2367, col: 5, offset: 76546},
+				pos: position{line: 2367, col: 5, offset: 76547},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2367, col: 5, offset: 76546},
+					pos: position{line: 2367, col: 5, offset: 76547},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2367, col: 5, offset: 76546},
+							pos:   position{line: 2367, col: 5, offset: 76547},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2367, col: 14, offset: 76555},
+								pos: position{line: 2367, col: 14, offset: 76556},
 								expr: &actionExpr{
-									pos: position{line: 2369, col: 9, offset: 76581},
+									pos: position{line: 2369, col: 9, offset: 76582},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2369, col: 9, offset: 76581},
+										pos: position{line: 2369, col: 9, offset: 76582},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2893, col: 11, offset: 91285},
+												pos: position{line: 2893, col: 11, offset: 91286},
 												expr: &anyMatcher{
-													line: 2893, col: 13, offset: 91287,
+													line: 2893, col: 13, offset: 91288,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2370, col: 9, offset: 76596},
+												pos:   position{line: 2370, col: 9, offset: 76597},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2371, col: 13, offset: 76618},
+													pos: position{line: 2371, col: 13, offset: 76619},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2775, col: 5, offset: 88193},
+															pos: position{line: 2775, col: 5, offset: 88194},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2775, col: 5, offset: 88193},
+																pos: position{line: 2775, col: 5, offset: 88194},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 2775, col: 5, offset: 88193},
+																		pos:   position{line: 2775, col: 5, offset: 88194},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2775, col: 11, offset: 88199},
+																			pos: position{line: 2775, col: 11, offset: 88200},
 																			run: (*parser).callonNormalGroup14,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2775, col: 11, offset: 88199},
+																				pos: position{line: 2775, col: 11, offset: 88200},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2775, col: 11, offset: 88199},
+																					pos:        position{line: 2775, col: 11, offset: 88200},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -44689,36 +44689,36 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2778, col: 5, offset: 88257},
+																		pos: position{line: 2778, col: 5, offset: 88258},
 																		expr: &seqExpr{
-																			pos: position{line: 2779, col: 9, offset: 88268},
+																			pos: position{line: 2779, col: 9, offset: 88269},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2779, col: 9, offset: 88268},
+																					pos:        position{line: 2779, col: 9, offset: 88269},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2780, col: 9, offset: 88317},
+																					pos: position{line: 2780, col: 9, offset: 88318},
 																					run: (*parser).callonNormalGroup20,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2784, col: 5, offset: 88397},
+																		pos: position{line: 2784, col: 5, offset: 88398},
 																		expr: &seqExpr{
-																			pos: position{line: 2785, col: 9, offset: 88408},
+																			pos: position{line: 2785, col: 9, offset: 88409},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2785, col: 9, offset: 88408},
+																					pos:        position{line: 2785, col: 9, offset: 88409},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2785, col: 13, offset: 88412},
+																					pos:        position{line: 2785, col: 13, offset: 88413},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -44731,12 +44731,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2880, col: 11, offset: 91012},
+															pos: position{line: 2880, col: 11, offset: 91013},
 															run: (*parser).callonNormalGroup25,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2880, col: 11, offset: 91012},
+																pos: position{line: 2880, col: 11, offset: 91013},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2880, col: 11, offset: 91012},
+																	pos:        position{line: 2880, col: 11, offset: 91013},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -44745,29 +44745,29 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2373, col: 15, offset: 76664},
+															pos:  position{line: 2373, col: 15, offset: 76665},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2501, col: 5, offset: 80575},
+															pos: position{line: 2501, col: 5, offset: 80576},
 															run: (*parser).callonNormalGroup29,
 															expr: &seqExpr{
-																pos: position{line: 2501, col: 5, offset: 80575},
+																pos: position{line: 2501, col: 5, offset: 80576},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2501, col: 5, offset: 80575},
+																		pos: position{line: 2501, col: 5, offset: 80576},
 																		run: (*parser).callonNormalGroup31,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2504, col: 5, offset: 80646},
+																		pos:        position{line: 2504, col: 5, offset: 80647},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2504, col: 10, offset: 80651},
+																		pos: position{line: 2504, col: 10, offset: 80652},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2504, col: 11, offset: 80652},
+																			pos:        position{line: 2504, col: 11, offset: 80653},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -44778,29 +44778,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2510, col: 5, offset: 80844},
+															pos: position{line: 2510, col: 5, offset: 80845},
 															run: (*parser).callonNormalGroup35,
 															expr: &seqExpr{
-																pos: position{line: 2510, col: 5, offset: 80844},
+																pos: position{line: 2510, col: 5, offset: 80845},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2510, col: 5, offset: 80844},
+																		pos: position{line: 2510, col: 5, offset: 80845},
 																		run: (*parser).callonNormalGroup37,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2513, col: 5, offset: 80915},
+																		pos: position{line: 2513, col: 5, offset: 80916},
 																		run: (*parser).callonNormalGroup38,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2517, col: 5, offset: 81040},
+																		pos:        position{line: 2517, col: 5, offset: 81041},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2517, col: 9, offset: 81044},
+																		pos: position{line: 2517, col: 9, offset: 81045},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2517, col: 10, offset: 81045},
+																			pos:        position{line: 2517, col: 10, offset: 81046},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -44811,27 +44811,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2793, col: 5, offset: 88605},
+															pos: position{line: 2793, col: 5, offset: 88606},
 															run: (*parser).callonNormalGroup42,
 															expr: &choiceExpr{
-																pos: position{line: 2794, col: 9, offset: 88615},
+																pos: position{line: 2794, col: 9, offset: 88616},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2794, col: 10, offset: 88616},
+																		pos:        position{line: 2794, col: 10, offset: 88617},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2796, col: 13, offset: 88713},
+																		pos: position{line: 2796, col: 13, offset: 88714},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2796, col: 13, offset: 88713},
+																				pos: position{line: 2796, col: 13, offset: 88714},
 																				run: (*parser).callonNormalGroup46,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2799, col: 13, offset: 88813},
+																				pos:        position{line: 2799, col: 13, offset: 88814},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -44839,20 +44839,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2799, col: 19, offset: 88819},
+																		pos:        position{line: 2799, col: 19, offset: 88820},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2802, col: 13, offset: 88857},
+																		pos: position{line: 2802, col: 13, offset: 88858},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2802, col: 13, offset: 88857},
+																				pos: position{line: 2802, col: 13, offset: 88858},
 																				run: (*parser).callonNormalGroup50,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2805, col: 14, offset: 88950},
+																				pos:        position{line: 2805, col: 14, offset: 88951},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -44861,18 +44861,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2807, col: 12, offset: 88994},
+																		pos: position{line: 2807, col: 12, offset: 88995},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2807, col: 12, offset: 88994},
+																				pos:        position{line: 2807, col: 12, offset: 88995},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2807, col: 16, offset: 88998},
+																				pos: position{line: 2807, col: 16, offset: 88999},
 																				expr: &litMatcher{
-																					pos:        position{line: 2807, col: 17, offset: 88999},
+																					pos:        position{line: 2807, col: 17, offset: 89000},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -44884,25 +44884,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91122},
+															pos: position{line: 2885, col: 12, offset: 91123},
 															run: (*parser).callonNormalGroup56,
 															expr: &choiceExpr{
-																pos: position{line: 2885, col: 13, offset: 91123},
+																pos: position{line: 2885, col: 13, offset: 91124},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 13, offset: 91123},
+																		pos:        position{line: 2885, col: 13, offset: 91124},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 20, offset: 91130},
+																		pos:        position{line: 2885, col: 20, offset: 91131},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 29, offset: 91139},
+																		pos:        position{line: 2885, col: 29, offset: 91140},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -44911,35 +44911,35 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 636, col: 5, offset: 20177},
+															pos: position{line: 636, col: 5, offset: 20178},
 															run: (*parser).callonNormalGroup61,
 															expr: &seqExpr{
-																pos: position{line: 636, col: 5, offset: 20177},
+																pos: position{line: 636, col: 5, offset: 20178},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 636, col: 5, offset: 20177},
+																		pos: position{line: 636, col: 5, offset: 20178},
 																		run: (*parser).callonNormalGroup63,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 639, col: 5, offset: 20249},
+																		pos:   position{line: 639, col: 5, offset: 20250},
 																		label: "element",
 																		expr: &choiceExpr{
-																			pos: position{line: 639, col: 14, offset: 20258},
+																			pos: position{line: 639, col: 14, offset: 20259},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 645, col: 5, offset: 20387},
+																					pos: position{line: 645, col: 5, offset: 20388},
 																					run: (*parser).callonNormalGroup66,
 																					expr: &seqExpr{
-																						pos: position{line: 645, col: 5, offset: 20387},
+																						pos: position{line: 645, col: 5, offset: 20388},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 645, col: 5, offset: 20387},
+																								pos:        position{line: 645, col: 5, offset: 20388},
 																								val:        "\\{",
 																								ignoreCase: false,
 																								want:       "\"\\\\{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 645, col: 13, offset: 20395},
+																								pos:   position{line: 645, col: 13, offset: 20396},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9729},
@@ -44959,8 +44959,8 @@ var g = &grammar{
 																												pos: position{line: 318, col: 28, offset: 9739},
 																												expr: &charClassMatcher{
 																													pos:        position{line: 318, col: 29, offset: 9740},
-																													val:        "[-\\pL\\pN]",
-																													chars:      []rune{'-'},
+																													val:        "[_-\\pL\\pN]",
+																													chars:      []rune{'_', '-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																													ignoreCase: false,
 																													inverted:   false,
@@ -44971,7 +44971,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 645, col: 32, offset: 20414},
+																								pos:        position{line: 645, col: 32, offset: 20415},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -44980,19 +44980,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 652, col: 5, offset: 20655},
+																					pos: position{line: 652, col: 5, offset: 20656},
 																					run: (*parser).callonNormalGroup76,
 																					expr: &seqExpr{
-																						pos: position{line: 652, col: 5, offset: 20655},
+																						pos: position{line: 652, col: 5, offset: 20656},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 652, col: 5, offset: 20655},
+																								pos:        position{line: 652, col: 5, offset: 20656},
 																								val:        "{",
 																								ignoreCase: false,
 																								want:       "\"{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 652, col: 9, offset: 20659},
+																								pos:   position{line: 652, col: 9, offset: 20660},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9729},
@@ -45012,8 +45012,8 @@ var g = &grammar{
 																												pos: position{line: 318, col: 28, offset: 9739},
 																												expr: &charClassMatcher{
 																													pos:        position{line: 318, col: 29, offset: 9740},
-																													val:        "[-\\pL\\pN]",
-																													chars:      []rune{'-'},
+																													val:        "[_-\\pL\\pN]",
+																													chars:      []rune{'_', '-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																													ignoreCase: false,
 																													inverted:   false,
@@ -45024,7 +45024,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 652, col: 28, offset: 20678},
+																								pos:        position{line: 652, col: 28, offset: 20679},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -45033,19 +45033,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 658, col: 25, offset: 20859},
+																					pos: position{line: 658, col: 25, offset: 20860},
 																					run: (*parser).callonNormalGroup86,
 																					expr: &seqExpr{
-																						pos: position{line: 658, col: 25, offset: 20859},
+																						pos: position{line: 658, col: 25, offset: 20860},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 658, col: 25, offset: 20859},
+																								pos:        position{line: 658, col: 25, offset: 20860},
 																								val:        "{counter:",
 																								ignoreCase: false,
 																								want:       "\"{counter:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 658, col: 37, offset: 20871},
+																								pos:   position{line: 658, col: 37, offset: 20872},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9729},
@@ -45065,8 +45065,8 @@ var g = &grammar{
 																												pos: position{line: 318, col: 28, offset: 9739},
 																												expr: &charClassMatcher{
 																													pos:        position{line: 318, col: 29, offset: 9740},
-																													val:        "[-\\pL\\pN]",
-																													chars:      []rune{'-'},
+																													val:        "[_-\\pL\\pN]",
+																													chars:      []rune{'_', '-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																													ignoreCase: false,
 																													inverted:   false,
@@ -45077,33 +45077,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 658, col: 56, offset: 20890},
+																								pos:   position{line: 658, col: 56, offset: 20891},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 658, col: 62, offset: 20896},
+																									pos: position{line: 658, col: 62, offset: 20897},
 																									expr: &actionExpr{
-																										pos: position{line: 666, col: 17, offset: 21191},
+																										pos: position{line: 666, col: 17, offset: 21192},
 																										run: (*parser).callonNormalGroup97,
 																										expr: &seqExpr{
-																											pos: position{line: 666, col: 17, offset: 21191},
+																											pos: position{line: 666, col: 17, offset: 21192},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 666, col: 17, offset: 21191},
+																													pos:        position{line: 666, col: 17, offset: 21192},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 666, col: 21, offset: 21195},
+																													pos:   position{line: 666, col: 21, offset: 21196},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 666, col: 28, offset: 21202},
+																														pos: position{line: 666, col: 28, offset: 21203},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 666, col: 28, offset: 21202},
+																																pos: position{line: 666, col: 28, offset: 21203},
 																																run: (*parser).callonNormalGroup102,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 666, col: 28, offset: 21202},
+																																	pos:        position{line: 666, col: 28, offset: 21203},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -45111,12 +45111,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 668, col: 9, offset: 21256},
+																																pos: position{line: 668, col: 9, offset: 21257},
 																																run: (*parser).callonNormalGroup104,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 668, col: 9, offset: 21256},
+																																	pos: position{line: 668, col: 9, offset: 21257},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 668, col: 9, offset: 21256},
+																																		pos:        position{line: 668, col: 9, offset: 21257},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -45133,7 +45133,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 658, col: 78, offset: 20912},
+																								pos:        position{line: 658, col: 78, offset: 20913},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -45142,19 +45142,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 662, col: 25, offset: 21030},
+																					pos: position{line: 662, col: 25, offset: 21031},
 																					run: (*parser).callonNormalGroup108,
 																					expr: &seqExpr{
-																						pos: position{line: 662, col: 25, offset: 21030},
+																						pos: position{line: 662, col: 25, offset: 21031},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 662, col: 25, offset: 21030},
+																								pos:        position{line: 662, col: 25, offset: 21031},
 																								val:        "{counter2:",
 																								ignoreCase: false,
 																								want:       "\"{counter2:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 662, col: 38, offset: 21043},
+																								pos:   position{line: 662, col: 38, offset: 21044},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9729},
@@ -45174,8 +45174,8 @@ var g = &grammar{
 																												pos: position{line: 318, col: 28, offset: 9739},
 																												expr: &charClassMatcher{
 																													pos:        position{line: 318, col: 29, offset: 9740},
-																													val:        "[-\\pL\\pN]",
-																													chars:      []rune{'-'},
+																													val:        "[_-\\pL\\pN]",
+																													chars:      []rune{'_', '-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																													ignoreCase: false,
 																													inverted:   false,
@@ -45186,33 +45186,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 662, col: 57, offset: 21062},
+																								pos:   position{line: 662, col: 57, offset: 21063},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 662, col: 63, offset: 21068},
+																									pos: position{line: 662, col: 63, offset: 21069},
 																									expr: &actionExpr{
-																										pos: position{line: 666, col: 17, offset: 21191},
+																										pos: position{line: 666, col: 17, offset: 21192},
 																										run: (*parser).callonNormalGroup119,
 																										expr: &seqExpr{
-																											pos: position{line: 666, col: 17, offset: 21191},
+																											pos: position{line: 666, col: 17, offset: 21192},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 666, col: 17, offset: 21191},
+																													pos:        position{line: 666, col: 17, offset: 21192},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 666, col: 21, offset: 21195},
+																													pos:   position{line: 666, col: 21, offset: 21196},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 666, col: 28, offset: 21202},
+																														pos: position{line: 666, col: 28, offset: 21203},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 666, col: 28, offset: 21202},
+																																pos: position{line: 666, col: 28, offset: 21203},
 																																run: (*parser).callonNormalGroup124,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 666, col: 28, offset: 21202},
+																																	pos:        position{line: 666, col: 28, offset: 21203},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -45220,12 +45220,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 668, col: 9, offset: 21256},
+																																pos: position{line: 668, col: 9, offset: 21257},
 																																run: (*parser).callonNormalGroup126,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 668, col: 9, offset: 21256},
+																																	pos: position{line: 668, col: 9, offset: 21257},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 668, col: 9, offset: 21256},
+																																		pos:        position{line: 668, col: 9, offset: 21257},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -45242,7 +45242,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 662, col: 79, offset: 21084},
+																								pos:        position{line: 662, col: 79, offset: 21085},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -45257,35 +45257,35 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2378, col: 15, offset: 76831},
+															pos:  position{line: 2378, col: 15, offset: 76832},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2379, col: 15, offset: 76851},
+															pos:  position{line: 2379, col: 15, offset: 76852},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2380, col: 15, offset: 76940},
+															pos:  position{line: 2380, col: 15, offset: 76941},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2470, col: 5, offset: 79404},
+															pos: position{line: 2470, col: 5, offset: 79405},
 															run: (*parser).callonNormalGroup133,
 															expr: &seqExpr{
-																pos: position{line: 2470, col: 5, offset: 79404},
+																pos: position{line: 2470, col: 5, offset: 79405},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2470, col: 5, offset: 79404},
+																		pos: position{line: 2470, col: 5, offset: 79405},
 																		run: (*parser).callonNormalGroup135,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2473, col: 5, offset: 79480},
+																		pos:   position{line: 2473, col: 5, offset: 79481},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2474, col: 9, offset: 79498},
+																			pos: position{line: 2474, col: 9, offset: 79499},
 																			run: (*parser).callonNormalGroup137,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2474, col: 10, offset: 79499},
+																				pos:        position{line: 2474, col: 10, offset: 79500},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -45297,32 +45297,32 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1206, col: 5, offset: 37491},
+															pos: position{line: 1206, col: 5, offset: 37492},
 															run: (*parser).callonNormalGroup139,
 															expr: &seqExpr{
-																pos: position{line: 1206, col: 5, offset: 37491},
+																pos: position{line: 1206, col: 5, offset: 37492},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1206, col: 5, offset: 37491},
+																		pos: position{line: 1206, col: 5, offset: 37492},
 																		run: (*parser).callonNormalGroup141,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1209, col: 5, offset: 37567},
+																		pos:        position{line: 1209, col: 5, offset: 37568},
 																		val:        "+",
 																		ignoreCase: false,
 																		want:       "\"+\"",
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1210, col: 5, offset: 37575},
+																		pos: position{line: 1210, col: 5, offset: 37576},
 																		run: (*parser).callonNormalGroup143,
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1214, col: 5, offset: 37662},
+																		pos: position{line: 1214, col: 5, offset: 37663},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 90951},
+																			pos: position{line: 2876, col: 10, offset: 90952},
 																			run: (*parser).callonNormalGroup145,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 90951},
+																				pos:        position{line: 2876, col: 10, offset: 90952},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45331,30 +45331,30 @@ var g = &grammar{
 																		},
 																	},
 																	&andExpr{
-																		pos: position{line: 1214, col: 12, offset: 37669},
+																		pos: position{line: 1214, col: 12, offset: 37670},
 																		expr: &choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91349},
+																			pos: position{line: 2898, col: 8, offset: 91350},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91122},
+																					pos: position{line: 2885, col: 12, offset: 91123},
 																					run: (*parser).callonNormalGroup149,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91123},
+																						pos: position{line: 2885, col: 13, offset: 91124},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91123},
+																								pos:        position{line: 2885, col: 13, offset: 91124},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91130},
+																								pos:        position{line: 2885, col: 20, offset: 91131},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91139},
+																								pos:        position{line: 2885, col: 29, offset: 91140},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -45363,9 +45363,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91299},
+																					pos: position{line: 2895, col: 8, offset: 91300},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91300,
+																						line: 2895, col: 9, offset: 91301,
 																					},
 																				},
 																			},
@@ -45375,31 +45375,31 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2383, col: 15, offset: 77122},
+															pos:  position{line: 2383, col: 15, offset: 77123},
 															name: "InlinePassthrough",
 														},
 														&actionExpr{
-															pos: position{line: 1198, col: 23, offset: 37045},
+															pos: position{line: 1198, col: 23, offset: 37046},
 															run: (*parser).callonNormalGroup157,
 															expr: &seqExpr{
-																pos: position{line: 1198, col: 23, offset: 37045},
+																pos: position{line: 1198, col: 23, offset: 37046},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1196, col: 32, offset: 37013},
+																		pos:        position{line: 1196, col: 32, offset: 37014},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1198, col: 51, offset: 37073},
+																		pos:   position{line: 1198, col: 51, offset: 37074},
 																		label: "ref",
 																		expr: &actionExpr{
-																			pos: position{line: 1198, col: 56, offset: 37078},
+																			pos: position{line: 1198, col: 56, offset: 37079},
 																			run: (*parser).callonNormalGroup161,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1198, col: 56, offset: 37078},
+																				pos: position{line: 1198, col: 56, offset: 37079},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1198, col: 56, offset: 37078},
+																					pos:        position{line: 1198, col: 56, offset: 37079},
 																					val:        "[0-9]",
 																					ranges:     []rune{'0', '9'},
 																					ignoreCase: false,
@@ -45409,7 +45409,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1196, col: 32, offset: 37013},
+																		pos:        position{line: 1196, col: 32, offset: 37014},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
@@ -45418,10 +45418,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2815, col: 12, offset: 89259},
+															pos: position{line: 2815, col: 12, offset: 89260},
 															run: (*parser).callonNormalGroup165,
 															expr: &charClassMatcher{
-																pos:        position{line: 2815, col: 12, offset: 89259},
+																pos:        position{line: 2815, col: 12, offset: 89260},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -45437,9 +45437,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2895, col: 8, offset: 91299},
+							pos: position{line: 2895, col: 8, offset: 91300},
 							expr: &anyMatcher{
-								line: 2895, col: 9, offset: 91300,
+								line: 2895, col: 9, offset: 91301,
 							},
 						},
 					},
@@ -45448,28 +45448,28 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2394, col: 1, offset: 77560},
+			pos:  position{line: 2394, col: 1, offset: 77561},
 			expr: &actionExpr{
-				pos: position{line: 2395, col: 5, offset: 77593},
+				pos: position{line: 2395, col: 5, offset: 77594},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2395, col: 5, offset: 77593},
+					pos: position{line: 2395, col: 5, offset: 77594},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2395, col: 5, offset: 77593},
+							pos:   position{line: 2395, col: 5, offset: 77594},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2395, col: 14, offset: 77602},
+								pos: position{line: 2395, col: 14, offset: 77603},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2395, col: 15, offset: 77603},
+									pos:  position{line: 2395, col: 15, offset: 77604},
 									name: "AttributeStructuredValueElement",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2895, col: 8, offset: 91299},
+							pos: position{line: 2895, col: 8, offset: 91300},
 							expr: &anyMatcher{
-								line: 2895, col: 9, offset: 91300,
+								line: 2895, col: 9, offset: 91301,
 							},
 						},
 					},
@@ -45478,41 +45478,41 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2399, col: 1, offset: 77700},
+			pos:  position{line: 2399, col: 1, offset: 77701},
 			expr: &actionExpr{
-				pos: position{line: 2400, col: 5, offset: 77740},
+				pos: position{line: 2400, col: 5, offset: 77741},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2400, col: 5, offset: 77740},
+					pos: position{line: 2400, col: 5, offset: 77741},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2893, col: 11, offset: 91285},
+							pos: position{line: 2893, col: 11, offset: 91286},
 							expr: &anyMatcher{
-								line: 2893, col: 13, offset: 91287,
+								line: 2893, col: 13, offset: 91288,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2401, col: 5, offset: 77751},
+							pos:   position{line: 2401, col: 5, offset: 77752},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2402, col: 9, offset: 77769},
+								pos: position{line: 2402, col: 9, offset: 77770},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2775, col: 5, offset: 88193},
+										pos: position{line: 2775, col: 5, offset: 88194},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2775, col: 5, offset: 88193},
+											pos: position{line: 2775, col: 5, offset: 88194},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2775, col: 5, offset: 88193},
+													pos:   position{line: 2775, col: 5, offset: 88194},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2775, col: 11, offset: 88199},
+														pos: position{line: 2775, col: 11, offset: 88200},
 														run: (*parser).callonAttributeStructuredValueElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2775, col: 11, offset: 88199},
+															pos: position{line: 2775, col: 11, offset: 88200},
 															expr: &charClassMatcher{
-																pos:        position{line: 2775, col: 11, offset: 88199},
+																pos:        position{line: 2775, col: 11, offset: 88200},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45522,36 +45522,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2778, col: 5, offset: 88257},
+													pos: position{line: 2778, col: 5, offset: 88258},
 													expr: &seqExpr{
-														pos: position{line: 2779, col: 9, offset: 88268},
+														pos: position{line: 2779, col: 9, offset: 88269},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2779, col: 9, offset: 88268},
+																pos:        position{line: 2779, col: 9, offset: 88269},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2780, col: 9, offset: 88317},
+																pos: position{line: 2780, col: 9, offset: 88318},
 																run: (*parser).callonAttributeStructuredValueElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2784, col: 5, offset: 88397},
+													pos: position{line: 2784, col: 5, offset: 88398},
 													expr: &seqExpr{
-														pos: position{line: 2785, col: 9, offset: 88408},
+														pos: position{line: 2785, col: 9, offset: 88409},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2785, col: 9, offset: 88408},
+																pos:        position{line: 2785, col: 9, offset: 88409},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2785, col: 13, offset: 88412},
+																pos:        position{line: 2785, col: 13, offset: 88413},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45564,10 +45564,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2876, col: 10, offset: 90951},
+										pos: position{line: 2876, col: 10, offset: 90952},
 										run: (*parser).callonAttributeStructuredValueElement21,
 										expr: &charClassMatcher{
-											pos:        position{line: 2876, col: 10, offset: 90951},
+											pos:        position{line: 2876, col: 10, offset: 90952},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -45575,31 +45575,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2404, col: 11, offset: 77807},
+										pos:  position{line: 2404, col: 11, offset: 77808},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2793, col: 5, offset: 88605},
+										pos: position{line: 2793, col: 5, offset: 88606},
 										run: (*parser).callonAttributeStructuredValueElement24,
 										expr: &choiceExpr{
-											pos: position{line: 2794, col: 9, offset: 88615},
+											pos: position{line: 2794, col: 9, offset: 88616},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2794, col: 10, offset: 88616},
+													pos:        position{line: 2794, col: 10, offset: 88617},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2796, col: 13, offset: 88713},
+													pos: position{line: 2796, col: 13, offset: 88714},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2796, col: 13, offset: 88713},
+															pos: position{line: 2796, col: 13, offset: 88714},
 															run: (*parser).callonAttributeStructuredValueElement28,
 														},
 														&litMatcher{
-															pos:        position{line: 2799, col: 13, offset: 88813},
+															pos:        position{line: 2799, col: 13, offset: 88814},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -45607,20 +45607,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2799, col: 19, offset: 88819},
+													pos:        position{line: 2799, col: 19, offset: 88820},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2802, col: 13, offset: 88857},
+													pos: position{line: 2802, col: 13, offset: 88858},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2802, col: 13, offset: 88857},
+															pos: position{line: 2802, col: 13, offset: 88858},
 															run: (*parser).callonAttributeStructuredValueElement32,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2805, col: 14, offset: 88950},
+															pos:        position{line: 2805, col: 14, offset: 88951},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -45629,18 +45629,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2807, col: 12, offset: 88994},
+													pos: position{line: 2807, col: 12, offset: 88995},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2807, col: 12, offset: 88994},
+															pos:        position{line: 2807, col: 12, offset: 88995},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2807, col: 16, offset: 88998},
+															pos: position{line: 2807, col: 16, offset: 88999},
 															expr: &litMatcher{
-																pos:        position{line: 2807, col: 17, offset: 88999},
+																pos:        position{line: 2807, col: 17, offset: 89000},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -45652,31 +45652,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2406, col: 11, offset: 77880},
+										pos:  position{line: 2406, col: 11, offset: 77881},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2407, col: 11, offset: 77896},
+										pos:  position{line: 2407, col: 11, offset: 77897},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2470, col: 5, offset: 79404},
+										pos: position{line: 2470, col: 5, offset: 79405},
 										run: (*parser).callonAttributeStructuredValueElement40,
 										expr: &seqExpr{
-											pos: position{line: 2470, col: 5, offset: 79404},
+											pos: position{line: 2470, col: 5, offset: 79405},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2470, col: 5, offset: 79404},
+													pos: position{line: 2470, col: 5, offset: 79405},
 													run: (*parser).callonAttributeStructuredValueElement42,
 												},
 												&labeledExpr{
-													pos:   position{line: 2473, col: 5, offset: 79480},
+													pos:   position{line: 2473, col: 5, offset: 79481},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2474, col: 9, offset: 79498},
+														pos: position{line: 2474, col: 9, offset: 79499},
 														run: (*parser).callonAttributeStructuredValueElement44,
 														expr: &charClassMatcher{
-															pos:        position{line: 2474, col: 10, offset: 79499},
+															pos:        position{line: 2474, col: 10, offset: 79500},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -45688,27 +45688,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1198, col: 23, offset: 37045},
+										pos: position{line: 1198, col: 23, offset: 37046},
 										run: (*parser).callonAttributeStructuredValueElement46,
 										expr: &seqExpr{
-											pos: position{line: 1198, col: 23, offset: 37045},
+											pos: position{line: 1198, col: 23, offset: 37046},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1196, col: 32, offset: 37013},
+													pos:        position{line: 1196, col: 32, offset: 37014},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1198, col: 51, offset: 37073},
+													pos:   position{line: 1198, col: 51, offset: 37074},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1198, col: 56, offset: 37078},
+														pos: position{line: 1198, col: 56, offset: 37079},
 														run: (*parser).callonAttributeStructuredValueElement50,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1198, col: 56, offset: 37078},
+															pos: position{line: 1198, col: 56, offset: 37079},
 															expr: &charClassMatcher{
-																pos:        position{line: 1198, col: 56, offset: 37078},
+																pos:        position{line: 1198, col: 56, offset: 37079},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -45718,7 +45718,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1196, col: 32, offset: 37013},
+													pos:        position{line: 1196, col: 32, offset: 37014},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
@@ -45727,25 +45727,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2885, col: 12, offset: 91122},
+										pos: position{line: 2885, col: 12, offset: 91123},
 										run: (*parser).callonAttributeStructuredValueElement54,
 										expr: &choiceExpr{
-											pos: position{line: 2885, col: 13, offset: 91123},
+											pos: position{line: 2885, col: 13, offset: 91124},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2885, col: 13, offset: 91123},
+													pos:        position{line: 2885, col: 13, offset: 91124},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2885, col: 20, offset: 91130},
+													pos:        position{line: 2885, col: 20, offset: 91131},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2885, col: 29, offset: 91139},
+													pos:        position{line: 2885, col: 29, offset: 91140},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -45754,10 +45754,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2815, col: 12, offset: 89259},
+										pos: position{line: 2815, col: 12, offset: 89260},
 										run: (*parser).callonAttributeStructuredValueElement59,
 										expr: &charClassMatcher{
-											pos:        position{line: 2815, col: 12, offset: 89259},
+											pos:        position{line: 2815, col: 12, offset: 89260},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -45773,73 +45773,73 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2418, col: 1, offset: 78166},
+			pos:  position{line: 2418, col: 1, offset: 78167},
 			expr: &actionExpr{
-				pos: position{line: 2420, col: 5, offset: 78248},
+				pos: position{line: 2420, col: 5, offset: 78249},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2420, col: 5, offset: 78248},
+					pos: position{line: 2420, col: 5, offset: 78249},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2420, col: 5, offset: 78248},
+							pos: position{line: 2420, col: 5, offset: 78249},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2423, col: 5, offset: 78313},
+							pos:   position{line: 2423, col: 5, offset: 78314},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2424, col: 9, offset: 78331},
+								pos: position{line: 2424, col: 9, offset: 78332},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2424, col: 9, offset: 78331},
+										pos:  position{line: 2424, col: 9, offset: 78332},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2425, col: 11, offset: 78352},
+										pos:  position{line: 2425, col: 11, offset: 78353},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2426, col: 11, offset: 78375},
+										pos:  position{line: 2426, col: 11, offset: 78376},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2427, col: 11, offset: 78391},
+										pos:  position{line: 2427, col: 11, offset: 78392},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2428, col: 11, offset: 78420},
+										pos:  position{line: 2428, col: 11, offset: 78421},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2429, col: 11, offset: 78446},
+										pos:  position{line: 2429, col: 11, offset: 78447},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2430, col: 11, offset: 78472},
+										pos:  position{line: 2430, col: 11, offset: 78473},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
-										pos: position{line: 1253, col: 5, offset: 38805},
+										pos: position{line: 1253, col: 5, offset: 38806},
 										run: (*parser).callonInlineMacro13,
 										expr: &seqExpr{
-											pos: position{line: 1253, col: 5, offset: 38805},
+											pos: position{line: 1253, col: 5, offset: 38806},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1253, col: 5, offset: 38805},
+													pos:        position{line: 1253, col: 5, offset: 38806},
 													val:        "\\[[",
 													ignoreCase: false,
 													want:       "\"\\\\[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1253, col: 14, offset: 38814},
+													pos:   position{line: 1253, col: 14, offset: 38815},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2861, col: 7, offset: 90603},
+														pos: position{line: 2861, col: 7, offset: 90604},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2861, col: 7, offset: 90603},
+															pos: position{line: 2861, col: 7, offset: 90604},
 															expr: &charClassMatcher{
-																pos:        position{line: 2861, col: 7, offset: 90603},
+																pos:        position{line: 2861, col: 7, offset: 90604},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -45849,7 +45849,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1253, col: 22, offset: 38822},
+													pos:        position{line: 1253, col: 22, offset: 38823},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -45858,27 +45858,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1258, col: 5, offset: 38941},
+										pos: position{line: 1258, col: 5, offset: 38942},
 										run: (*parser).callonInlineMacro21,
 										expr: &seqExpr{
-											pos: position{line: 1258, col: 5, offset: 38941},
+											pos: position{line: 1258, col: 5, offset: 38942},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1258, col: 5, offset: 38941},
+													pos:        position{line: 1258, col: 5, offset: 38942},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1258, col: 10, offset: 38946},
+													pos:   position{line: 1258, col: 10, offset: 38947},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2861, col: 7, offset: 90603},
+														pos: position{line: 2861, col: 7, offset: 90604},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2861, col: 7, offset: 90603},
+															pos: position{line: 2861, col: 7, offset: 90604},
 															expr: &charClassMatcher{
-																pos:        position{line: 2861, col: 7, offset: 90603},
+																pos:        position{line: 2861, col: 7, offset: 90604},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -45888,7 +45888,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1258, col: 18, offset: 38954},
+													pos:        position{line: 1258, col: 18, offset: 38955},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -45897,40 +45897,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1297, col: 23, offset: 40430},
+										pos: position{line: 1297, col: 23, offset: 40431},
 										run: (*parser).callonInlineMacro29,
 										expr: &seqExpr{
-											pos: position{line: 1297, col: 23, offset: 40430},
+											pos: position{line: 1297, col: 23, offset: 40431},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1297, col: 23, offset: 40430},
+													pos:        position{line: 1297, col: 23, offset: 40431},
 													val:        "(((",
 													ignoreCase: false,
 													want:       "\"(((\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1297, col: 29, offset: 40436},
+													pos:   position{line: 1297, col: 29, offset: 40437},
 													label: "term1",
 													expr: &actionExpr{
-														pos: position{line: 1304, col: 30, offset: 40767},
+														pos: position{line: 1304, col: 30, offset: 40768},
 														run: (*parser).callonInlineMacro33,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1304, col: 30, offset: 40767},
+															pos: position{line: 1304, col: 30, offset: 40768},
 															expr: &choiceExpr{
-																pos: position{line: 1304, col: 31, offset: 40768},
+																pos: position{line: 1304, col: 31, offset: 40769},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2766, col: 13, offset: 88046},
+																		pos:        position{line: 2766, col: 13, offset: 88047},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 90951},
+																		pos: position{line: 2876, col: 10, offset: 90952},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 90951},
+																			pos:        position{line: 2876, col: 10, offset: 90952},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -45943,23 +45943,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1298, col: 5, offset: 40475},
+													pos:   position{line: 1298, col: 5, offset: 40476},
 													label: "term2",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1298, col: 11, offset: 40481},
+														pos: position{line: 1298, col: 11, offset: 40482},
 														expr: &actionExpr{
-															pos: position{line: 1298, col: 12, offset: 40482},
+															pos: position{line: 1298, col: 12, offset: 40483},
 															run: (*parser).callonInlineMacro41,
 															expr: &seqExpr{
-																pos: position{line: 1298, col: 12, offset: 40482},
+																pos: position{line: 1298, col: 12, offset: 40483},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1298, col: 12, offset: 40482},
+																		pos: position{line: 1298, col: 12, offset: 40483},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 90951},
+																			pos: position{line: 2876, col: 10, offset: 90952},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 90951},
+																				pos:        position{line: 2876, col: 10, offset: 90952},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45968,18 +45968,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1298, col: 19, offset: 40489},
+																		pos:        position{line: 1298, col: 19, offset: 40490},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1298, col: 23, offset: 40493},
+																		pos: position{line: 1298, col: 23, offset: 40494},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 90951},
+																			pos: position{line: 2876, col: 10, offset: 90952},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 90951},
+																				pos:        position{line: 2876, col: 10, offset: 90952},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45988,28 +45988,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1298, col: 30, offset: 40500},
+																		pos:   position{line: 1298, col: 30, offset: 40501},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1304, col: 30, offset: 40767},
+																			pos: position{line: 1304, col: 30, offset: 40768},
 																			run: (*parser).callonInlineMacro51,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1304, col: 30, offset: 40767},
+																				pos: position{line: 1304, col: 30, offset: 40768},
 																				expr: &choiceExpr{
-																					pos: position{line: 1304, col: 31, offset: 40768},
+																					pos: position{line: 1304, col: 31, offset: 40769},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2766, col: 13, offset: 88046},
+																							pos:        position{line: 2766, col: 13, offset: 88047},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 90951},
+																							pos: position{line: 2876, col: 10, offset: 90952},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 90951},
+																								pos:        position{line: 2876, col: 10, offset: 90952},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -46027,23 +46027,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1299, col: 5, offset: 40567},
+													pos:   position{line: 1299, col: 5, offset: 40568},
 													label: "term3",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1299, col: 11, offset: 40573},
+														pos: position{line: 1299, col: 11, offset: 40574},
 														expr: &actionExpr{
-															pos: position{line: 1299, col: 12, offset: 40574},
+															pos: position{line: 1299, col: 12, offset: 40575},
 															run: (*parser).callonInlineMacro59,
 															expr: &seqExpr{
-																pos: position{line: 1299, col: 12, offset: 40574},
+																pos: position{line: 1299, col: 12, offset: 40575},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1299, col: 12, offset: 40574},
+																		pos: position{line: 1299, col: 12, offset: 40575},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 90951},
+																			pos: position{line: 2876, col: 10, offset: 90952},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 90951},
+																				pos:        position{line: 2876, col: 10, offset: 90952},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46052,18 +46052,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1299, col: 19, offset: 40581},
+																		pos:        position{line: 1299, col: 19, offset: 40582},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1299, col: 23, offset: 40585},
+																		pos: position{line: 1299, col: 23, offset: 40586},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 90951},
+																			pos: position{line: 2876, col: 10, offset: 90952},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 90951},
+																				pos:        position{line: 2876, col: 10, offset: 90952},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46072,28 +46072,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1299, col: 30, offset: 40592},
+																		pos:   position{line: 1299, col: 30, offset: 40593},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1304, col: 30, offset: 40767},
+																			pos: position{line: 1304, col: 30, offset: 40768},
 																			run: (*parser).callonInlineMacro69,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1304, col: 30, offset: 40767},
+																				pos: position{line: 1304, col: 30, offset: 40768},
 																				expr: &choiceExpr{
-																					pos: position{line: 1304, col: 31, offset: 40768},
+																					pos: position{line: 1304, col: 31, offset: 40769},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2766, col: 13, offset: 88046},
+																							pos:        position{line: 2766, col: 13, offset: 88047},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 90951},
+																							pos: position{line: 2876, col: 10, offset: 90952},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 90951},
+																								pos:        position{line: 2876, col: 10, offset: 90952},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -46111,7 +46111,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1300, col: 5, offset: 40659},
+													pos:        position{line: 1300, col: 5, offset: 40660},
 													val:        ")))",
 													ignoreCase: false,
 													want:       "\")))\"",
@@ -46120,15 +46120,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2433, col: 11, offset: 78551},
+										pos:  position{line: 2433, col: 11, offset: 78552},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2434, col: 11, offset: 78571},
+										pos:  position{line: 2434, col: 11, offset: 78572},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2435, col: 11, offset: 78594},
+										pos:  position{line: 2435, col: 11, offset: 78595},
 										name: "InlineMenu",
 									},
 								},
@@ -46140,80 +46140,80 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2439, col: 1, offset: 78651},
+			pos:  position{line: 2439, col: 1, offset: 78652},
 			expr: &actionExpr{
-				pos: position{line: 2441, col: 5, offset: 78739},
+				pos: position{line: 2441, col: 5, offset: 78740},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2441, col: 5, offset: 78739},
+					pos: position{line: 2441, col: 5, offset: 78740},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2441, col: 5, offset: 78739},
+							pos: position{line: 2441, col: 5, offset: 78740},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2444, col: 5, offset: 78816},
+							pos:   position{line: 2444, col: 5, offset: 78817},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2445, col: 9, offset: 78834},
+								pos: position{line: 2445, col: 9, offset: 78835},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1379, col: 26, offset: 44105},
+										pos: position{line: 1379, col: 26, offset: 44106},
 										run: (*parser).callonInlinePassthrough6,
 										expr: &seqExpr{
-											pos: position{line: 1379, col: 26, offset: 44105},
+											pos: position{line: 1379, col: 26, offset: 44106},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1377, col: 32, offset: 44073},
+													pos:        position{line: 1377, col: 32, offset: 44074},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1379, col: 54, offset: 44133},
+													pos:   position{line: 1379, col: 54, offset: 44134},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1383, col: 33, offset: 44346},
+														pos: position{line: 1383, col: 33, offset: 44347},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1383, col: 34, offset: 44347},
+																pos: position{line: 1383, col: 34, offset: 44348},
 																run: (*parser).callonInlinePassthrough11,
 																expr: &zeroOrMoreExpr{
-																	pos: position{line: 1383, col: 34, offset: 44347},
+																	pos: position{line: 1383, col: 34, offset: 44348},
 																	expr: &seqExpr{
-																		pos: position{line: 1383, col: 35, offset: 44348},
+																		pos: position{line: 1383, col: 35, offset: 44349},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1383, col: 35, offset: 44348},
+																				pos: position{line: 1383, col: 35, offset: 44349},
 																				expr: &litMatcher{
-																					pos:        position{line: 1377, col: 32, offset: 44073},
+																					pos:        position{line: 1377, col: 32, offset: 44074},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1383, col: 64, offset: 44377,
+																				line: 1383, col: 64, offset: 44378,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1385, col: 11, offset: 44550},
+																pos: position{line: 1385, col: 11, offset: 44551},
 																run: (*parser).callonInlinePassthrough17,
 																expr: &zeroOrOneExpr{
-																	pos: position{line: 1385, col: 11, offset: 44550},
+																	pos: position{line: 1385, col: 11, offset: 44551},
 																	expr: &seqExpr{
-																		pos: position{line: 1385, col: 12, offset: 44551},
+																		pos: position{line: 1385, col: 12, offset: 44552},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1385, col: 12, offset: 44551},
+																				pos: position{line: 1385, col: 12, offset: 44552},
 																				expr: &actionExpr{
-																					pos: position{line: 2876, col: 10, offset: 90951},
+																					pos: position{line: 2876, col: 10, offset: 90952},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2876, col: 10, offset: 90951},
+																						pos:        position{line: 2876, col: 10, offset: 90952},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -46222,27 +46222,27 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1385, col: 19, offset: 44558},
+																				pos: position{line: 1385, col: 19, offset: 44559},
 																				expr: &actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91122},
+																					pos: position{line: 2885, col: 12, offset: 91123},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91123},
+																						pos: position{line: 2885, col: 13, offset: 91124},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91123},
+																								pos:        position{line: 2885, col: 13, offset: 91124},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91130},
+																								pos:        position{line: 2885, col: 20, offset: 91131},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91139},
+																								pos:        position{line: 2885, col: 29, offset: 91140},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -46252,16 +46252,16 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1385, col: 28, offset: 44567},
+																				pos: position{line: 1385, col: 28, offset: 44568},
 																				expr: &litMatcher{
-																					pos:        position{line: 1377, col: 32, offset: 44073},
+																					pos:        position{line: 1377, col: 32, offset: 44074},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1385, col: 57, offset: 44596,
+																				line: 1385, col: 57, offset: 44597,
 																			},
 																		},
 																	},
@@ -46271,15 +46271,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1377, col: 32, offset: 44073},
+													pos:        position{line: 1377, col: 32, offset: 44074},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&notExpr{
-													pos: position{line: 1379, col: 121, offset: 44200},
+													pos: position{line: 1379, col: 121, offset: 44201},
 													expr: &charClassMatcher{
-														pos:        position{line: 2766, col: 13, offset: 88046},
+														pos:        position{line: 2766, col: 13, offset: 88047},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -46290,45 +46290,45 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1367, col: 26, offset: 43388},
+										pos: position{line: 1367, col: 26, offset: 43389},
 										run: (*parser).callonInlinePassthrough35,
 										expr: &seqExpr{
-											pos: position{line: 1367, col: 26, offset: 43388},
+											pos: position{line: 1367, col: 26, offset: 43389},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1365, col: 32, offset: 43358},
+													pos:        position{line: 1365, col: 32, offset: 43359},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1367, col: 54, offset: 43416},
+													pos:   position{line: 1367, col: 54, offset: 43417},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1371, col: 33, offset: 43629},
+														pos: position{line: 1371, col: 33, offset: 43630},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1371, col: 34, offset: 43630},
+																pos: position{line: 1371, col: 34, offset: 43631},
 																run: (*parser).callonInlinePassthrough40,
 																expr: &seqExpr{
-																	pos: position{line: 1371, col: 34, offset: 43630},
+																	pos: position{line: 1371, col: 34, offset: 43631},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1371, col: 35, offset: 43631},
+																			pos: position{line: 1371, col: 35, offset: 43632},
 																			expr: &litMatcher{
-																				pos:        position{line: 1365, col: 32, offset: 43358},
+																				pos:        position{line: 1365, col: 32, offset: 43359},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1371, col: 64, offset: 43660},
+																			pos: position{line: 1371, col: 64, offset: 43661},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 90951},
+																				pos: position{line: 2876, col: 10, offset: 90952},
 																				run: (*parser).callonInlinePassthrough45,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 90951},
+																					pos:        position{line: 2876, col: 10, offset: 90952},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -46337,27 +46337,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1371, col: 71, offset: 43667},
+																			pos: position{line: 1371, col: 71, offset: 43668},
 																			expr: &actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91122},
+																				pos: position{line: 2885, col: 12, offset: 91123},
 																				run: (*parser).callonInlinePassthrough48,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91123},
+																					pos: position{line: 2885, col: 13, offset: 91124},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91123},
+																							pos:        position{line: 2885, col: 13, offset: 91124},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91130},
+																							pos:        position{line: 2885, col: 20, offset: 91131},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91139},
+																							pos:        position{line: 2885, col: 29, offset: 91140},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -46367,25 +46367,25 @@ var g = &grammar{
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1371, col: 80, offset: 43676,
+																			line: 1371, col: 80, offset: 43677,
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1371, col: 83, offset: 43679},
+																			pos: position{line: 1371, col: 83, offset: 43680},
 																			expr: &seqExpr{
-																				pos: position{line: 1371, col: 84, offset: 43680},
+																				pos: position{line: 1371, col: 84, offset: 43681},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1371, col: 84, offset: 43680},
+																						pos: position{line: 1371, col: 84, offset: 43681},
 																						expr: &seqExpr{
-																							pos: position{line: 1371, col: 86, offset: 43682},
+																							pos: position{line: 1371, col: 86, offset: 43683},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2880, col: 11, offset: 91012},
+																									pos: position{line: 2880, col: 11, offset: 91013},
 																									run: (*parser).callonInlinePassthrough58,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2880, col: 11, offset: 91012},
+																										pos: position{line: 2880, col: 11, offset: 91013},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2880, col: 11, offset: 91012},
+																											pos:        position{line: 2880, col: 11, offset: 91013},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -46394,7 +46394,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1365, col: 32, offset: 43358},
+																									pos:        position{line: 1365, col: 32, offset: 43359},
 																									val:        "+",
 																									ignoreCase: false,
 																									want:       "\"+\"",
@@ -46403,36 +46403,36 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1371, col: 122, offset: 43718},
+																						pos: position{line: 1371, col: 122, offset: 43719},
 																						expr: &litMatcher{
-																							pos:        position{line: 1365, col: 32, offset: 43358},
+																							pos:        position{line: 1365, col: 32, offset: 43359},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1371, col: 151, offset: 43747},
+																						pos: position{line: 1371, col: 151, offset: 43748},
 																						expr: &actionExpr{
-																							pos: position{line: 2885, col: 12, offset: 91122},
+																							pos: position{line: 2885, col: 12, offset: 91123},
 																							run: (*parser).callonInlinePassthrough65,
 																							expr: &choiceExpr{
-																								pos: position{line: 2885, col: 13, offset: 91123},
+																								pos: position{line: 2885, col: 13, offset: 91124},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 13, offset: 91123},
+																										pos:        position{line: 2885, col: 13, offset: 91124},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 20, offset: 91130},
+																										pos:        position{line: 2885, col: 20, offset: 91131},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 29, offset: 91139},
+																										pos:        position{line: 2885, col: 29, offset: 91140},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -46442,7 +46442,7 @@ var g = &grammar{
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1371, col: 160, offset: 43756,
+																						line: 1371, col: 160, offset: 43757,
 																					},
 																				},
 																			},
@@ -46451,18 +46451,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1373, col: 11, offset: 43906},
+																pos: position{line: 1373, col: 11, offset: 43907},
 																run: (*parser).callonInlinePassthrough71,
 																expr: &seqExpr{
-																	pos: position{line: 1373, col: 12, offset: 43907},
+																	pos: position{line: 1373, col: 12, offset: 43908},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1373, col: 12, offset: 43907},
+																			pos: position{line: 1373, col: 12, offset: 43908},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 90951},
+																				pos: position{line: 2876, col: 10, offset: 90952},
 																				run: (*parser).callonInlinePassthrough74,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 90951},
+																					pos:        position{line: 2876, col: 10, offset: 90952},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -46471,27 +46471,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1373, col: 19, offset: 43914},
+																			pos: position{line: 1373, col: 19, offset: 43915},
 																			expr: &actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91122},
+																				pos: position{line: 2885, col: 12, offset: 91123},
 																				run: (*parser).callonInlinePassthrough77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91123},
+																					pos: position{line: 2885, col: 13, offset: 91124},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91123},
+																							pos:        position{line: 2885, col: 13, offset: 91124},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91130},
+																							pos:        position{line: 2885, col: 20, offset: 91131},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91139},
+																							pos:        position{line: 2885, col: 29, offset: 91140},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -46501,16 +46501,16 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1373, col: 28, offset: 43923},
+																			pos: position{line: 1373, col: 28, offset: 43924},
 																			expr: &litMatcher{
-																				pos:        position{line: 1365, col: 32, offset: 43358},
+																				pos:        position{line: 1365, col: 32, offset: 43359},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1373, col: 57, offset: 43952,
+																			line: 1373, col: 57, offset: 43953,
 																		},
 																	},
 																},
@@ -46519,15 +46519,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1365, col: 32, offset: 43358},
+													pos:        position{line: 1365, col: 32, offset: 43359},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&notExpr{
-													pos: position{line: 1367, col: 121, offset: 43483},
+													pos: position{line: 1367, col: 121, offset: 43484},
 													expr: &charClassMatcher{
-														pos:        position{line: 2766, col: 13, offset: 88046},
+														pos:        position{line: 2766, col: 13, offset: 88047},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -46538,7 +46538,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2445, col: 57, offset: 78882},
+										pos:  position{line: 2445, col: 57, offset: 78883},
 										name: "PassthroughMacro",
 									},
 								},
@@ -46550,16 +46550,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2450, col: 1, offset: 78942},
+			pos:  position{line: 2450, col: 1, offset: 78943},
 			expr: &seqExpr{
-				pos: position{line: 2452, col: 5, offset: 79018},
+				pos: position{line: 2452, col: 5, offset: 79019},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2452, col: 5, offset: 79018},
+						pos: position{line: 2452, col: 5, offset: 79019},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2455, col: 5, offset: 79083},
+						pos:  position{line: 2455, col: 5, offset: 79084},
 						name: "QuotedText",
 					},
 				},
@@ -46567,22 +46567,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2457, col: 1, offset: 79096},
+			pos:  position{line: 2457, col: 1, offset: 79097},
 			expr: &actionExpr{
-				pos: position{line: 2459, col: 5, offset: 79178},
+				pos: position{line: 2459, col: 5, offset: 79179},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2459, col: 5, offset: 79178},
+					pos: position{line: 2459, col: 5, offset: 79179},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2459, col: 5, offset: 79178},
+							pos: position{line: 2459, col: 5, offset: 79179},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2462, col: 5, offset: 79249},
+							pos:   position{line: 2462, col: 5, offset: 79250},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2463, col: 9, offset: 79267},
+								pos:  position{line: 2463, col: 9, offset: 79268},
 								name: "Symbol",
 							},
 						},
@@ -46592,93 +46592,93 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2521, col: 1, offset: 81097},
+			pos:  position{line: 2521, col: 1, offset: 81098},
 			expr: &choiceExpr{
-				pos: position{line: 2523, col: 5, offset: 81127},
+				pos: position{line: 2523, col: 5, offset: 81128},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2523, col: 5, offset: 81127},
+						pos: position{line: 2523, col: 5, offset: 81128},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2523, col: 5, offset: 81127},
+							pos: position{line: 2523, col: 5, offset: 81128},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2523, col: 5, offset: 81127},
+									pos:        position{line: 2523, col: 5, offset: 81128},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2523, col: 10, offset: 81132},
+									pos: position{line: 2523, col: 10, offset: 81133},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2523, col: 10, offset: 81132},
+											pos:  position{line: 2523, col: 10, offset: 81133},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2552, col: 14, offset: 82266},
+											pos: position{line: 2552, col: 14, offset: 82267},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2552, col: 14, offset: 82266},
+												pos:        position{line: 2552, col: 14, offset: 82267},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2556, col: 14, offset: 82332},
+											pos: position{line: 2556, col: 14, offset: 82333},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2556, col: 14, offset: 82332},
+												pos:        position{line: 2556, col: 14, offset: 82333},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2560, col: 15, offset: 82401},
+											pos: position{line: 2560, col: 15, offset: 82402},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2560, col: 15, offset: 82401},
+												pos:        position{line: 2560, col: 15, offset: 82402},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2564, col: 13, offset: 82466},
+											pos: position{line: 2564, col: 13, offset: 82467},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2564, col: 13, offset: 82466},
+												pos:        position{line: 2564, col: 13, offset: 82467},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2571, col: 5, offset: 82604},
+											pos: position{line: 2571, col: 5, offset: 82605},
 											run: (*parser).callonSymbol15,
 											expr: &seqExpr{
-												pos: position{line: 2571, col: 5, offset: 82604},
+												pos: position{line: 2571, col: 5, offset: 82605},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2571, col: 5, offset: 82604},
+														pos:        position{line: 2571, col: 5, offset: 82605},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2572, col: 5, offset: 82614},
+														pos: position{line: 2572, col: 5, offset: 82615},
 														run: (*parser).callonSymbol18,
 													},
 													&choiceExpr{
-														pos: position{line: 2576, col: 6, offset: 82701},
+														pos: position{line: 2576, col: 6, offset: 82702},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2876, col: 10, offset: 90951},
+																pos: position{line: 2876, col: 10, offset: 90952},
 																run: (*parser).callonSymbol20,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2876, col: 10, offset: 90951},
+																	pos:        position{line: 2876, col: 10, offset: 90952},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -46686,30 +46686,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2576, col: 14, offset: 82709},
+																pos: position{line: 2576, col: 14, offset: 82710},
 																expr: &choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91349},
+																	pos: position{line: 2898, col: 8, offset: 91350},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91122},
+																			pos: position{line: 2885, col: 12, offset: 91123},
 																			run: (*parser).callonSymbol24,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91123},
+																				pos: position{line: 2885, col: 13, offset: 91124},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91123},
+																						pos:        position{line: 2885, col: 13, offset: 91124},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91130},
+																						pos:        position{line: 2885, col: 20, offset: 91131},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91139},
+																						pos:        position{line: 2885, col: 29, offset: 91140},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -46718,9 +46718,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91299},
+																			pos: position{line: 2895, col: 8, offset: 91300},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91300,
+																				line: 2895, col: 9, offset: 91301,
 																			},
 																		},
 																	},
@@ -46732,53 +46732,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2581, col: 5, offset: 82829},
+											pos: position{line: 2581, col: 5, offset: 82830},
 											run: (*parser).callonSymbol31,
 											expr: &seqExpr{
-												pos: position{line: 2581, col: 5, offset: 82829},
+												pos: position{line: 2581, col: 5, offset: 82830},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2581, col: 5, offset: 82829},
+														pos:        position{line: 2581, col: 5, offset: 82830},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2582, col: 5, offset: 82839},
+														pos: position{line: 2582, col: 5, offset: 82840},
 														run: (*parser).callonSymbol34,
 													},
 													&andExpr{
-														pos: position{line: 2586, col: 5, offset: 82928},
+														pos: position{line: 2586, col: 5, offset: 82929},
 														expr: &choiceExpr{
-															pos: position{line: 2586, col: 7, offset: 82930},
+															pos: position{line: 2586, col: 7, offset: 82931},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2766, col: 13, offset: 88046},
+																	pos:        position{line: 2766, col: 13, offset: 88047},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2885, col: 12, offset: 91122},
+																	pos: position{line: 2885, col: 12, offset: 91123},
 																	run: (*parser).callonSymbol38,
 																	expr: &choiceExpr{
-																		pos: position{line: 2885, col: 13, offset: 91123},
+																		pos: position{line: 2885, col: 13, offset: 91124},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2885, col: 13, offset: 91123},
+																				pos:        position{line: 2885, col: 13, offset: 91124},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2885, col: 20, offset: 91130},
+																				pos:        position{line: 2885, col: 20, offset: 91131},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2885, col: 29, offset: 91139},
+																				pos:        position{line: 2885, col: 29, offset: 91140},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -46787,9 +46787,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2895, col: 8, offset: 91299},
+																	pos: position{line: 2895, col: 8, offset: 91300},
 																	expr: &anyMatcher{
-																		line: 2895, col: 9, offset: 91300,
+																		line: 2895, col: 9, offset: 91301,
 																	},
 																},
 															},
@@ -46804,63 +46804,63 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2526, col: 7, offset: 81296},
+						pos: position{line: 2526, col: 7, offset: 81297},
 						run: (*parser).callonSymbol45,
 						expr: &seqExpr{
-							pos: position{line: 2526, col: 7, offset: 81296},
+							pos: position{line: 2526, col: 7, offset: 81297},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2526, col: 7, offset: 81296},
+									pos:        position{line: 2526, col: 7, offset: 81297},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2526, col: 11, offset: 81300},
+									pos:   position{line: 2526, col: 11, offset: 81301},
 									label: "elements",
 									expr: &choiceExpr{
-										pos: position{line: 2526, col: 21, offset: 81310},
+										pos: position{line: 2526, col: 21, offset: 81311},
 										alternatives: []interface{}{
 											&seqExpr{
-												pos: position{line: 2526, col: 21, offset: 81310},
+												pos: position{line: 2526, col: 21, offset: 81311},
 												exprs: []interface{}{
 													&charClassMatcher{
-														pos:        position{line: 2526, col: 21, offset: 81310},
+														pos:        position{line: 2526, col: 21, offset: 81311},
 														val:        "[-=]",
 														chars:      []rune{'-', '='},
 														ignoreCase: false,
 														inverted:   false,
 													},
 													&andExpr{
-														pos: position{line: 2526, col: 26, offset: 81315},
+														pos: position{line: 2526, col: 26, offset: 81316},
 														expr: &litMatcher{
-															pos:        position{line: 2526, col: 27, offset: 81316},
+															pos:        position{line: 2526, col: 27, offset: 81317},
 															val:        ">",
 															ignoreCase: false,
 															want:       "\">\"",
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2526, col: 32, offset: 81321},
+														pos: position{line: 2526, col: 32, offset: 81322},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2470, col: 5, offset: 79404},
+																pos: position{line: 2470, col: 5, offset: 79405},
 																run: (*parser).callonSymbol55,
 																expr: &seqExpr{
-																	pos: position{line: 2470, col: 5, offset: 79404},
+																	pos: position{line: 2470, col: 5, offset: 79405},
 																	exprs: []interface{}{
 																		&andCodeExpr{
-																			pos: position{line: 2470, col: 5, offset: 79404},
+																			pos: position{line: 2470, col: 5, offset: 79405},
 																			run: (*parser).callonSymbol57,
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 2473, col: 5, offset: 79480},
+																			pos:   position{line: 2473, col: 5, offset: 79481},
 																			label: "element",
 																			expr: &actionExpr{
-																				pos: position{line: 2474, col: 9, offset: 79498},
+																				pos: position{line: 2474, col: 9, offset: 79499},
 																				run: (*parser).callonSymbol59,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2474, col: 10, offset: 79499},
+																					pos:        position{line: 2474, col: 10, offset: 79500},
 																					val:        "[<>&]",
 																					chars:      []rune{'<', '>', '&'},
 																					ignoreCase: false,
@@ -46872,28 +46872,28 @@ var g = &grammar{
 																},
 															},
 															&anyMatcher{
-																line: 2526, col: 51, offset: 81340,
+																line: 2526, col: 51, offset: 81341,
 															},
 														},
 													},
 												},
 											},
 											&seqExpr{
-												pos: position{line: 2526, col: 56, offset: 81345},
+												pos: position{line: 2526, col: 56, offset: 81346},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2526, col: 56, offset: 81345},
+														pos: position{line: 2526, col: 56, offset: 81346},
 														expr: &choiceExpr{
-															pos: position{line: 2526, col: 58, offset: 81347},
+															pos: position{line: 2526, col: 58, offset: 81348},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2526, col: 58, offset: 81347},
+																	pos:        position{line: 2526, col: 58, offset: 81348},
 																	val:        "<-",
 																	ignoreCase: false,
 																	want:       "\"<-\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2526, col: 65, offset: 81354},
+																	pos:        position{line: 2526, col: 65, offset: 81355},
 																	val:        "<=",
 																	ignoreCase: false,
 																	want:       "\"<=\"",
@@ -46902,26 +46902,26 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2526, col: 72, offset: 81361},
+														pos: position{line: 2526, col: 72, offset: 81362},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2470, col: 5, offset: 79404},
+																pos: position{line: 2470, col: 5, offset: 79405},
 																run: (*parser).callonSymbol68,
 																expr: &seqExpr{
-																	pos: position{line: 2470, col: 5, offset: 79404},
+																	pos: position{line: 2470, col: 5, offset: 79405},
 																	exprs: []interface{}{
 																		&andCodeExpr{
-																			pos: position{line: 2470, col: 5, offset: 79404},
+																			pos: position{line: 2470, col: 5, offset: 79405},
 																			run: (*parser).callonSymbol70,
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 2473, col: 5, offset: 79480},
+																			pos:   position{line: 2473, col: 5, offset: 79481},
 																			label: "element",
 																			expr: &actionExpr{
-																				pos: position{line: 2474, col: 9, offset: 79498},
+																				pos: position{line: 2474, col: 9, offset: 79499},
 																				run: (*parser).callonSymbol72,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2474, col: 10, offset: 79499},
+																					pos:        position{line: 2474, col: 10, offset: 79500},
 																					val:        "[<>&]",
 																					chars:      []rune{'<', '>', '&'},
 																					ignoreCase: false,
@@ -46933,12 +46933,12 @@ var g = &grammar{
 																},
 															},
 															&anyMatcher{
-																line: 2526, col: 91, offset: 81380,
+																line: 2526, col: 91, offset: 81381,
 															},
 														},
 													},
 													&anyMatcher{
-														line: 2526, col: 94, offset: 81383,
+														line: 2526, col: 94, offset: 81384,
 													},
 												},
 											},
@@ -46949,73 +46949,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2527, col: 7, offset: 81417},
+						pos:  position{line: 2527, col: 7, offset: 81418},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2552, col: 14, offset: 82266},
+						pos: position{line: 2552, col: 14, offset: 82267},
 						run: (*parser).callonSymbol77,
 						expr: &litMatcher{
-							pos:        position{line: 2552, col: 14, offset: 82266},
+							pos:        position{line: 2552, col: 14, offset: 82267},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2556, col: 14, offset: 82332},
+						pos: position{line: 2556, col: 14, offset: 82333},
 						run: (*parser).callonSymbol79,
 						expr: &litMatcher{
-							pos:        position{line: 2556, col: 14, offset: 82332},
+							pos:        position{line: 2556, col: 14, offset: 82333},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2560, col: 15, offset: 82401},
+						pos: position{line: 2560, col: 15, offset: 82402},
 						run: (*parser).callonSymbol81,
 						expr: &litMatcher{
-							pos:        position{line: 2560, col: 15, offset: 82401},
+							pos:        position{line: 2560, col: 15, offset: 82402},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2564, col: 13, offset: 82466},
+						pos: position{line: 2564, col: 13, offset: 82467},
 						run: (*parser).callonSymbol83,
 						expr: &litMatcher{
-							pos:        position{line: 2564, col: 13, offset: 82466},
+							pos:        position{line: 2564, col: 13, offset: 82467},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2571, col: 5, offset: 82604},
+						pos: position{line: 2571, col: 5, offset: 82605},
 						run: (*parser).callonSymbol85,
 						expr: &seqExpr{
-							pos: position{line: 2571, col: 5, offset: 82604},
+							pos: position{line: 2571, col: 5, offset: 82605},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2571, col: 5, offset: 82604},
+									pos:        position{line: 2571, col: 5, offset: 82605},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2572, col: 5, offset: 82614},
+									pos: position{line: 2572, col: 5, offset: 82615},
 									run: (*parser).callonSymbol88,
 								},
 								&choiceExpr{
-									pos: position{line: 2576, col: 6, offset: 82701},
+									pos: position{line: 2576, col: 6, offset: 82702},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2876, col: 10, offset: 90951},
+											pos: position{line: 2876, col: 10, offset: 90952},
 											run: (*parser).callonSymbol90,
 											expr: &charClassMatcher{
-												pos:        position{line: 2876, col: 10, offset: 90951},
+												pos:        position{line: 2876, col: 10, offset: 90952},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -47023,30 +47023,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2576, col: 14, offset: 82709},
+											pos: position{line: 2576, col: 14, offset: 82710},
 											expr: &choiceExpr{
-												pos: position{line: 2898, col: 8, offset: 91349},
+												pos: position{line: 2898, col: 8, offset: 91350},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2885, col: 12, offset: 91122},
+														pos: position{line: 2885, col: 12, offset: 91123},
 														run: (*parser).callonSymbol94,
 														expr: &choiceExpr{
-															pos: position{line: 2885, col: 13, offset: 91123},
+															pos: position{line: 2885, col: 13, offset: 91124},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2885, col: 13, offset: 91123},
+																	pos:        position{line: 2885, col: 13, offset: 91124},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2885, col: 20, offset: 91130},
+																	pos:        position{line: 2885, col: 20, offset: 91131},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2885, col: 29, offset: 91139},
+																	pos:        position{line: 2885, col: 29, offset: 91140},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -47055,9 +47055,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2895, col: 8, offset: 91299},
+														pos: position{line: 2895, col: 8, offset: 91300},
 														expr: &anyMatcher{
-															line: 2895, col: 9, offset: 91300,
+															line: 2895, col: 9, offset: 91301,
 														},
 													},
 												},
@@ -47069,53 +47069,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2581, col: 5, offset: 82829},
+						pos: position{line: 2581, col: 5, offset: 82830},
 						run: (*parser).callonSymbol101,
 						expr: &seqExpr{
-							pos: position{line: 2581, col: 5, offset: 82829},
+							pos: position{line: 2581, col: 5, offset: 82830},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2581, col: 5, offset: 82829},
+									pos:        position{line: 2581, col: 5, offset: 82830},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2582, col: 5, offset: 82839},
+									pos: position{line: 2582, col: 5, offset: 82840},
 									run: (*parser).callonSymbol104,
 								},
 								&andExpr{
-									pos: position{line: 2586, col: 5, offset: 82928},
+									pos: position{line: 2586, col: 5, offset: 82929},
 									expr: &choiceExpr{
-										pos: position{line: 2586, col: 7, offset: 82930},
+										pos: position{line: 2586, col: 7, offset: 82931},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2766, col: 13, offset: 88046},
+												pos:        position{line: 2766, col: 13, offset: 88047},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2885, col: 12, offset: 91122},
+												pos: position{line: 2885, col: 12, offset: 91123},
 												run: (*parser).callonSymbol108,
 												expr: &choiceExpr{
-													pos: position{line: 2885, col: 13, offset: 91123},
+													pos: position{line: 2885, col: 13, offset: 91124},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2885, col: 13, offset: 91123},
+															pos:        position{line: 2885, col: 13, offset: 91124},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2885, col: 20, offset: 91130},
+															pos:        position{line: 2885, col: 20, offset: 91131},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2885, col: 29, offset: 91139},
+															pos:        position{line: 2885, col: 29, offset: 91140},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -47124,9 +47124,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2895, col: 8, offset: 91299},
+												pos: position{line: 2895, col: 8, offset: 91300},
 												expr: &anyMatcher{
-													line: 2895, col: 9, offset: 91300,
+													line: 2895, col: 9, offset: 91301,
 												},
 											},
 										},
@@ -47136,40 +47136,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2592, col: 21, offset: 83018},
+						pos: position{line: 2592, col: 21, offset: 83019},
 						run: (*parser).callonSymbol115,
 						expr: &litMatcher{
-							pos:        position{line: 2592, col: 21, offset: 83018},
+							pos:        position{line: 2592, col: 21, offset: 83019},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2596, col: 20, offset: 83088},
+						pos: position{line: 2596, col: 20, offset: 83089},
 						run: (*parser).callonSymbol117,
 						expr: &litMatcher{
-							pos:        position{line: 2596, col: 20, offset: 83088},
+							pos:        position{line: 2596, col: 20, offset: 83089},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2600, col: 21, offset: 83159},
+						pos: position{line: 2600, col: 21, offset: 83160},
 						run: (*parser).callonSymbol119,
 						expr: &litMatcher{
-							pos:        position{line: 2600, col: 21, offset: 83159},
+							pos:        position{line: 2600, col: 21, offset: 83160},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2604, col: 20, offset: 83229},
+						pos: position{line: 2604, col: 20, offset: 83230},
 						run: (*parser).callonSymbol121,
 						expr: &litMatcher{
-							pos:        position{line: 2604, col: 20, offset: 83229},
+							pos:        position{line: 2604, col: 20, offset: 83230},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -47180,43 +47180,43 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2538, col: 1, offset: 81607},
+			pos:  position{line: 2538, col: 1, offset: 81608},
 			expr: &choiceExpr{
-				pos: position{line: 2539, col: 5, offset: 81629},
+				pos: position{line: 2539, col: 5, offset: 81630},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2539, col: 5, offset: 81629},
+						pos: position{line: 2539, col: 5, offset: 81630},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2539, col: 5, offset: 81629},
+							pos: position{line: 2539, col: 5, offset: 81630},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2539, col: 5, offset: 81629},
+									pos:        position{line: 2539, col: 5, offset: 81630},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2539, col: 11, offset: 81635},
+									pos: position{line: 2539, col: 11, offset: 81636},
 									expr: &seqExpr{
-										pos: position{line: 2089, col: 5, offset: 67541},
+										pos: position{line: 2089, col: 5, offset: 67542},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2089, col: 5, offset: 67541},
+												pos:        position{line: 2089, col: 5, offset: 67542},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2090, col: 5, offset: 67550},
+												pos: position{line: 2090, col: 5, offset: 67551},
 												run: (*parser).callonQuotationMark8,
 											},
 											&andExpr{
-												pos: position{line: 2094, col: 5, offset: 67673},
+												pos: position{line: 2094, col: 5, offset: 67674},
 												expr: &notExpr{
-													pos: position{line: 2094, col: 7, offset: 67675},
+													pos: position{line: 2094, col: 7, offset: 67676},
 													expr: &litMatcher{
-														pos:        position{line: 2094, col: 8, offset: 67676},
+														pos:        position{line: 2094, col: 8, offset: 67677},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -47230,21 +47230,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2542, col: 7, offset: 81788},
+						pos: position{line: 2542, col: 7, offset: 81789},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2542, col: 7, offset: 81788},
+							pos: position{line: 2542, col: 7, offset: 81789},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2542, col: 7, offset: 81788},
+									pos:        position{line: 2542, col: 7, offset: 81789},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2542, col: 13, offset: 81794},
+									pos: position{line: 2542, col: 13, offset: 81795},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2542, col: 14, offset: 81795},
+										pos:  position{line: 2542, col: 14, offset: 81796},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -47252,38 +47252,38 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2545, col: 7, offset: 81945},
+						pos: position{line: 2545, col: 7, offset: 81946},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2545, col: 7, offset: 81945},
+							pos: position{line: 2545, col: 7, offset: 81946},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2545, col: 7, offset: 81945},
+									pos:        position{line: 2545, col: 7, offset: 81946},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2545, col: 12, offset: 81950},
+									pos: position{line: 2545, col: 12, offset: 81951},
 									expr: &seqExpr{
-										pos: position{line: 2089, col: 5, offset: 67541},
+										pos: position{line: 2089, col: 5, offset: 67542},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2089, col: 5, offset: 67541},
+												pos:        position{line: 2089, col: 5, offset: 67542},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2090, col: 5, offset: 67550},
+												pos: position{line: 2090, col: 5, offset: 67551},
 												run: (*parser).callonQuotationMark23,
 											},
 											&andExpr{
-												pos: position{line: 2094, col: 5, offset: 67673},
+												pos: position{line: 2094, col: 5, offset: 67674},
 												expr: &notExpr{
-													pos: position{line: 2094, col: 7, offset: 67675},
+													pos: position{line: 2094, col: 7, offset: 67676},
 													expr: &litMatcher{
-														pos:        position{line: 2094, col: 8, offset: 67676},
+														pos:        position{line: 2094, col: 8, offset: 67677},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -47297,21 +47297,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2548, col: 7, offset: 82103},
+						pos: position{line: 2548, col: 7, offset: 82104},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2548, col: 7, offset: 82103},
+							pos: position{line: 2548, col: 7, offset: 82104},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2548, col: 7, offset: 82103},
+									pos:        position{line: 2548, col: 7, offset: 82104},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2548, col: 12, offset: 82108},
+									pos: position{line: 2548, col: 12, offset: 82109},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2548, col: 13, offset: 82109},
+										pos:  position{line: 2548, col: 13, offset: 82110},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -47323,63 +47323,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2681, col: 1, offset: 85131},
+			pos:  position{line: 2681, col: 1, offset: 85132},
 			expr: &actionExpr{
-				pos: position{line: 2681, col: 26, offset: 85156},
+				pos: position{line: 2681, col: 26, offset: 85157},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2681, col: 26, offset: 85156},
+					pos: position{line: 2681, col: 26, offset: 85157},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2681, col: 26, offset: 85156},
+							pos:   position{line: 2681, col: 26, offset: 85157},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2681, col: 31, offset: 85161},
+								pos: position{line: 2681, col: 31, offset: 85162},
 								expr: &actionExpr{
-									pos: position{line: 2686, col: 5, offset: 85224},
+									pos: position{line: 2686, col: 5, offset: 85225},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2686, col: 5, offset: 85224},
+										pos: position{line: 2686, col: 5, offset: 85225},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2893, col: 11, offset: 91285},
+												pos: position{line: 2893, col: 11, offset: 91286},
 												expr: &anyMatcher{
-													line: 2893, col: 13, offset: 91287,
+													line: 2893, col: 13, offset: 91288,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2689, col: 5, offset: 85350},
+												pos:   position{line: 2689, col: 5, offset: 85351},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2689, col: 16, offset: 85361},
+													pos: position{line: 2689, col: 16, offset: 85362},
 													expr: &actionExpr{
-														pos: position{line: 2689, col: 17, offset: 85362},
+														pos: position{line: 2689, col: 17, offset: 85363},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2689, col: 17, offset: 85362},
+															pos: position{line: 2689, col: 17, offset: 85363},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2689, col: 17, offset: 85362},
+																	pos:   position{line: 2689, col: 17, offset: 85363},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2868, col: 12, offset: 90778},
+																		pos: position{line: 2868, col: 12, offset: 90779},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2868, col: 13, offset: 90779},
+																			pos: position{line: 2868, col: 13, offset: 90780},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2868, col: 13, offset: 90779},
+																					pos: position{line: 2868, col: 13, offset: 90780},
 																					expr: &litMatcher{
-																						pos:        position{line: 2868, col: 13, offset: 90779},
+																						pos:        position{line: 2868, col: 13, offset: 90780},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2868, col: 18, offset: 90784},
+																					pos: position{line: 2868, col: 18, offset: 90785},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2868, col: 18, offset: 90784},
+																						pos:        position{line: 2868, col: 18, offset: 90785},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -47391,7 +47391,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2689, col: 27, offset: 85372},
+																	pos:        position{line: 2689, col: 27, offset: 85373},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -47402,38 +47402,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2690, col: 5, offset: 85400},
+												pos:   position{line: 2690, col: 5, offset: 85401},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2690, col: 12, offset: 85407},
+													pos: position{line: 2690, col: 12, offset: 85408},
 													expr: &choiceExpr{
-														pos: position{line: 2691, col: 9, offset: 85417},
+														pos: position{line: 2691, col: 9, offset: 85418},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2691, col: 9, offset: 85417},
+																pos: position{line: 2691, col: 9, offset: 85418},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2691, col: 9, offset: 85417},
+																	pos:        position{line: 2691, col: 9, offset: 85418},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2692, col: 11, offset: 85464},
+																pos: position{line: 2692, col: 11, offset: 85465},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2692, col: 11, offset: 85464},
+																	pos:        position{line: 2692, col: 11, offset: 85465},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2693, col: 11, offset: 85512},
+																pos: position{line: 2693, col: 11, offset: 85513},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2693, col: 11, offset: 85512},
+																	pos:        position{line: 2693, col: 11, offset: 85513},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -47444,38 +47444,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2695, col: 5, offset: 85562},
+												pos:   position{line: 2695, col: 5, offset: 85563},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2695, col: 12, offset: 85569},
+													pos: position{line: 2695, col: 12, offset: 85570},
 													expr: &choiceExpr{
-														pos: position{line: 2696, col: 9, offset: 85579},
+														pos: position{line: 2696, col: 9, offset: 85580},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2696, col: 9, offset: 85579},
+																pos: position{line: 2696, col: 9, offset: 85580},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2696, col: 9, offset: 85579},
+																	pos:        position{line: 2696, col: 9, offset: 85580},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2697, col: 11, offset: 85626},
+																pos: position{line: 2697, col: 11, offset: 85627},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2697, col: 11, offset: 85626},
+																	pos:        position{line: 2697, col: 11, offset: 85627},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2698, col: 11, offset: 85676},
+																pos: position{line: 2698, col: 11, offset: 85677},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2698, col: 11, offset: 85676},
+																	pos:        position{line: 2698, col: 11, offset: 85677},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -47486,32 +47486,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2700, col: 5, offset: 85727},
+												pos:   position{line: 2700, col: 5, offset: 85728},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2700, col: 12, offset: 85734},
+													pos: position{line: 2700, col: 12, offset: 85735},
 													expr: &choiceExpr{
-														pos: position{line: 2700, col: 13, offset: 85735},
+														pos: position{line: 2700, col: 13, offset: 85736},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2868, col: 12, offset: 90778},
+																pos: position{line: 2868, col: 12, offset: 90779},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2868, col: 13, offset: 90779},
+																	pos: position{line: 2868, col: 13, offset: 90780},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2868, col: 13, offset: 90779},
+																			pos: position{line: 2868, col: 13, offset: 90780},
 																			expr: &litMatcher{
-																				pos:        position{line: 2868, col: 13, offset: 90779},
+																				pos:        position{line: 2868, col: 13, offset: 90780},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2868, col: 18, offset: 90784},
+																			pos: position{line: 2868, col: 18, offset: 90785},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2868, col: 18, offset: 90784},
+																				pos:        position{line: 2868, col: 18, offset: 90785},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -47522,10 +47522,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2700, col: 24, offset: 85746},
+																pos: position{line: 2700, col: 24, offset: 85747},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2700, col: 24, offset: 85746},
+																	pos:        position{line: 2700, col: 24, offset: 85747},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -47536,15 +47536,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2701, col: 5, offset: 85788},
+												pos:   position{line: 2701, col: 5, offset: 85789},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2701, col: 11, offset: 85794},
+													pos: position{line: 2701, col: 11, offset: 85795},
 													expr: &actionExpr{
-														pos: position{line: 2701, col: 12, offset: 85795},
+														pos: position{line: 2701, col: 12, offset: 85796},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2701, col: 12, offset: 85795},
+															pos:        position{line: 2701, col: 12, offset: 85796},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -47554,12 +47554,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2703, col: 5, offset: 85925},
+												pos:   position{line: 2703, col: 5, offset: 85926},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2703, col: 11, offset: 85931},
+													pos: position{line: 2703, col: 11, offset: 85932},
 													expr: &litMatcher{
-														pos:        position{line: 2703, col: 12, offset: 85932},
+														pos:        position{line: 2703, col: 12, offset: 85933},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -47567,7 +47567,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2704, col: 5, offset: 85942},
+												pos: position{line: 2704, col: 5, offset: 85943},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -47576,9 +47576,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2895, col: 8, offset: 91299},
+							pos: position{line: 2895, col: 8, offset: 91300},
 							expr: &anyMatcher{
-								line: 2895, col: 9, offset: 91300,
+								line: 2895, col: 9, offset: 91301,
 							},
 						},
 					},
@@ -47587,23 +47587,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2731, col: 1, offset: 86946},
+			pos:  position{line: 2731, col: 1, offset: 86947},
 			expr: &actionExpr{
-				pos: position{line: 2732, col: 5, offset: 86969},
+				pos: position{line: 2732, col: 5, offset: 86970},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2732, col: 5, offset: 86969},
+					pos: position{line: 2732, col: 5, offset: 86970},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2732, col: 5, offset: 86969},
+							pos:   position{line: 2732, col: 5, offset: 86970},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2755, col: 18, offset: 87710},
+								pos: position{line: 2755, col: 18, offset: 87711},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2755, col: 19, offset: 87711},
+									pos: position{line: 2755, col: 19, offset: 87712},
 									expr: &charClassMatcher{
-										pos:        position{line: 2755, col: 19, offset: 87711},
+										pos:        position{line: 2755, col: 19, offset: 87712},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47614,25 +47614,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2733, col: 5, offset: 86995},
+							pos: position{line: 2733, col: 5, offset: 86996},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2737, col: 5, offset: 87123},
+							pos:        position{line: 2737, col: 5, offset: 87124},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2738, col: 5, offset: 87133},
+							pos:   position{line: 2738, col: 5, offset: 87134},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2759, col: 19, offset: 87786},
+								pos: position{line: 2759, col: 19, offset: 87787},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2759, col: 19, offset: 87786},
+									pos: position{line: 2759, col: 19, offset: 87787},
 									expr: &charClassMatcher{
-										pos:        position{line: 2759, col: 19, offset: 87786},
+										pos:        position{line: 2759, col: 19, offset: 87787},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -47642,36 +47642,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2739, col: 5, offset: 87161},
+							pos:   position{line: 2739, col: 5, offset: 87162},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2739, col: 17, offset: 87173},
+								pos:  position{line: 2739, col: 17, offset: 87174},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2898, col: 8, offset: 91349},
+							pos: position{line: 2898, col: 8, offset: 91350},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2885, col: 12, offset: 91122},
+									pos: position{line: 2885, col: 12, offset: 91123},
 									run: (*parser).callonUserMacroBlock16,
 									expr: &choiceExpr{
-										pos: position{line: 2885, col: 13, offset: 91123},
+										pos: position{line: 2885, col: 13, offset: 91124},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2885, col: 13, offset: 91123},
+												pos:        position{line: 2885, col: 13, offset: 91124},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 20, offset: 91130},
+												pos:        position{line: 2885, col: 20, offset: 91131},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 29, offset: 91139},
+												pos:        position{line: 2885, col: 29, offset: 91140},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -47680,9 +47680,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2895, col: 8, offset: 91299},
+									pos: position{line: 2895, col: 8, offset: 91300},
 									expr: &anyMatcher{
-										line: 2895, col: 9, offset: 91300,
+										line: 2895, col: 9, offset: 91301,
 									},
 								},
 							},
@@ -47693,23 +47693,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2743, col: 1, offset: 87321},
+			pos:  position{line: 2743, col: 1, offset: 87322},
 			expr: &actionExpr{
-				pos: position{line: 2744, col: 5, offset: 87345},
+				pos: position{line: 2744, col: 5, offset: 87346},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2744, col: 5, offset: 87345},
+					pos: position{line: 2744, col: 5, offset: 87346},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2744, col: 5, offset: 87345},
+							pos:   position{line: 2744, col: 5, offset: 87346},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2755, col: 18, offset: 87710},
+								pos: position{line: 2755, col: 18, offset: 87711},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2755, col: 19, offset: 87711},
+									pos: position{line: 2755, col: 19, offset: 87712},
 									expr: &charClassMatcher{
-										pos:        position{line: 2755, col: 19, offset: 87711},
+										pos:        position{line: 2755, col: 19, offset: 87712},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47720,25 +47720,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2745, col: 5, offset: 87371},
+							pos: position{line: 2745, col: 5, offset: 87372},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2749, col: 5, offset: 87499},
+							pos:        position{line: 2749, col: 5, offset: 87500},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2750, col: 5, offset: 87508},
+							pos:   position{line: 2750, col: 5, offset: 87509},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2759, col: 19, offset: 87786},
+								pos: position{line: 2759, col: 19, offset: 87787},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2759, col: 19, offset: 87786},
+									pos: position{line: 2759, col: 19, offset: 87787},
 									expr: &charClassMatcher{
-										pos:        position{line: 2759, col: 19, offset: 87786},
+										pos:        position{line: 2759, col: 19, offset: 87787},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -47748,10 +47748,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2751, col: 5, offset: 87536},
+							pos:   position{line: 2751, col: 5, offset: 87537},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2751, col: 17, offset: 87548},
+								pos:  position{line: 2751, col: 17, offset: 87549},
 								name: "InlineAttributes",
 							},
 						},
@@ -47761,43 +47761,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2830, col: 1, offset: 89598},
+			pos:  position{line: 2830, col: 1, offset: 89599},
 			expr: &actionExpr{
-				pos: position{line: 2830, col: 17, offset: 89614},
+				pos: position{line: 2830, col: 17, offset: 89615},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2830, col: 17, offset: 89614},
+					pos:   position{line: 2830, col: 17, offset: 89615},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2847, col: 5, offset: 90068},
+						pos: position{line: 2847, col: 5, offset: 90069},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2847, col: 5, offset: 90068},
+							pos:   position{line: 2847, col: 5, offset: 90069},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2847, col: 14, offset: 90077},
+								pos: position{line: 2847, col: 14, offset: 90078},
 								expr: &choiceExpr{
-									pos: position{line: 2848, col: 9, offset: 90087},
+									pos: position{line: 2848, col: 9, offset: 90088},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2848, col: 9, offset: 90087},
+											pos: position{line: 2848, col: 9, offset: 90088},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2848, col: 9, offset: 90087},
+												pos: position{line: 2848, col: 9, offset: 90088},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2848, col: 9, offset: 90087},
+														pos: position{line: 2848, col: 9, offset: 90088},
 														expr: &litMatcher{
-															pos:        position{line: 2848, col: 10, offset: 90088},
+															pos:        position{line: 2848, col: 10, offset: 90089},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2849, col: 9, offset: 90116},
+														pos: position{line: 2849, col: 9, offset: 90117},
 														expr: &charClassMatcher{
-															pos:        position{line: 2849, col: 10, offset: 90117},
+															pos:        position{line: 2849, col: 10, offset: 90118},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -47808,27 +47808,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2852, col: 11, offset: 90329},
+											pos: position{line: 2852, col: 11, offset: 90330},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2852, col: 11, offset: 90329},
+													pos:        position{line: 2852, col: 11, offset: 90330},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2852, col: 19, offset: 90337},
+													pos: position{line: 2852, col: 19, offset: 90338},
 													expr: &seqExpr{
-														pos: position{line: 2852, col: 21, offset: 90339},
+														pos: position{line: 2852, col: 21, offset: 90340},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2852, col: 21, offset: 90339},
+																pos: position{line: 2852, col: 21, offset: 90340},
 																expr: &actionExpr{
-																	pos: position{line: 2876, col: 10, offset: 90951},
+																	pos: position{line: 2876, col: 10, offset: 90952},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2876, col: 10, offset: 90951},
+																		pos:        position{line: 2876, col: 10, offset: 90952},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -47837,11 +47837,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2852, col: 28, offset: 90346},
+																pos: position{line: 2852, col: 28, offset: 90347},
 																expr: &notExpr{
-																	pos: position{line: 2895, col: 8, offset: 91299},
+																	pos: position{line: 2895, col: 8, offset: 91300},
 																	expr: &anyMatcher{
-																		line: 2895, col: 9, offset: 91300,
+																		line: 2895, col: 9, offset: 91301,
 																	},
 																},
 															},
@@ -47851,35 +47851,35 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 636, col: 5, offset: 20177},
+											pos: position{line: 636, col: 5, offset: 20178},
 											run: (*parser).callonFileLocation23,
 											expr: &seqExpr{
-												pos: position{line: 636, col: 5, offset: 20177},
+												pos: position{line: 636, col: 5, offset: 20178},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 636, col: 5, offset: 20177},
+														pos: position{line: 636, col: 5, offset: 20178},
 														run: (*parser).callonFileLocation25,
 													},
 													&labeledExpr{
-														pos:   position{line: 639, col: 5, offset: 20249},
+														pos:   position{line: 639, col: 5, offset: 20250},
 														label: "element",
 														expr: &choiceExpr{
-															pos: position{line: 639, col: 14, offset: 20258},
+															pos: position{line: 639, col: 14, offset: 20259},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 645, col: 5, offset: 20387},
+																	pos: position{line: 645, col: 5, offset: 20388},
 																	run: (*parser).callonFileLocation28,
 																	expr: &seqExpr{
-																		pos: position{line: 645, col: 5, offset: 20387},
+																		pos: position{line: 645, col: 5, offset: 20388},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 645, col: 5, offset: 20387},
+																				pos:        position{line: 645, col: 5, offset: 20388},
 																				val:        "\\{",
 																				ignoreCase: false,
 																				want:       "\"\\\\{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 645, col: 13, offset: 20395},
+																				pos:   position{line: 645, col: 13, offset: 20396},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9729},
@@ -47899,8 +47899,8 @@ var g = &grammar{
 																								pos: position{line: 318, col: 28, offset: 9739},
 																								expr: &charClassMatcher{
 																									pos:        position{line: 318, col: 29, offset: 9740},
-																									val:        "[-\\pL\\pN]",
-																									chars:      []rune{'-'},
+																									val:        "[_-\\pL\\pN]",
+																									chars:      []rune{'_', '-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
 																									inverted:   false,
@@ -47911,7 +47911,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 645, col: 32, offset: 20414},
+																				pos:        position{line: 645, col: 32, offset: 20415},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -47920,19 +47920,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 652, col: 5, offset: 20655},
+																	pos: position{line: 652, col: 5, offset: 20656},
 																	run: (*parser).callonFileLocation38,
 																	expr: &seqExpr{
-																		pos: position{line: 652, col: 5, offset: 20655},
+																		pos: position{line: 652, col: 5, offset: 20656},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 652, col: 5, offset: 20655},
+																				pos:        position{line: 652, col: 5, offset: 20656},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 652, col: 9, offset: 20659},
+																				pos:   position{line: 652, col: 9, offset: 20660},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9729},
@@ -47952,8 +47952,8 @@ var g = &grammar{
 																								pos: position{line: 318, col: 28, offset: 9739},
 																								expr: &charClassMatcher{
 																									pos:        position{line: 318, col: 29, offset: 9740},
-																									val:        "[-\\pL\\pN]",
-																									chars:      []rune{'-'},
+																									val:        "[_-\\pL\\pN]",
+																									chars:      []rune{'_', '-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
 																									inverted:   false,
@@ -47964,7 +47964,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 652, col: 28, offset: 20678},
+																				pos:        position{line: 652, col: 28, offset: 20679},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -47973,19 +47973,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 658, col: 25, offset: 20859},
+																	pos: position{line: 658, col: 25, offset: 20860},
 																	run: (*parser).callonFileLocation48,
 																	expr: &seqExpr{
-																		pos: position{line: 658, col: 25, offset: 20859},
+																		pos: position{line: 658, col: 25, offset: 20860},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 658, col: 25, offset: 20859},
+																				pos:        position{line: 658, col: 25, offset: 20860},
 																				val:        "{counter:",
 																				ignoreCase: false,
 																				want:       "\"{counter:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 658, col: 37, offset: 20871},
+																				pos:   position{line: 658, col: 37, offset: 20872},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9729},
@@ -48005,8 +48005,8 @@ var g = &grammar{
 																								pos: position{line: 318, col: 28, offset: 9739},
 																								expr: &charClassMatcher{
 																									pos:        position{line: 318, col: 29, offset: 9740},
-																									val:        "[-\\pL\\pN]",
-																									chars:      []rune{'-'},
+																									val:        "[_-\\pL\\pN]",
+																									chars:      []rune{'_', '-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
 																									inverted:   false,
@@ -48017,33 +48017,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 658, col: 56, offset: 20890},
+																				pos:   position{line: 658, col: 56, offset: 20891},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 658, col: 62, offset: 20896},
+																					pos: position{line: 658, col: 62, offset: 20897},
 																					expr: &actionExpr{
-																						pos: position{line: 666, col: 17, offset: 21191},
+																						pos: position{line: 666, col: 17, offset: 21192},
 																						run: (*parser).callonFileLocation59,
 																						expr: &seqExpr{
-																							pos: position{line: 666, col: 17, offset: 21191},
+																							pos: position{line: 666, col: 17, offset: 21192},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 666, col: 17, offset: 21191},
+																									pos:        position{line: 666, col: 17, offset: 21192},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 666, col: 21, offset: 21195},
+																									pos:   position{line: 666, col: 21, offset: 21196},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 666, col: 28, offset: 21202},
+																										pos: position{line: 666, col: 28, offset: 21203},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 666, col: 28, offset: 21202},
+																												pos: position{line: 666, col: 28, offset: 21203},
 																												run: (*parser).callonFileLocation64,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 666, col: 28, offset: 21202},
+																													pos:        position{line: 666, col: 28, offset: 21203},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -48051,12 +48051,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 668, col: 9, offset: 21256},
+																												pos: position{line: 668, col: 9, offset: 21257},
 																												run: (*parser).callonFileLocation66,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 668, col: 9, offset: 21256},
+																													pos: position{line: 668, col: 9, offset: 21257},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 668, col: 9, offset: 21256},
+																														pos:        position{line: 668, col: 9, offset: 21257},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -48073,7 +48073,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 658, col: 78, offset: 20912},
+																				pos:        position{line: 658, col: 78, offset: 20913},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -48082,19 +48082,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 662, col: 25, offset: 21030},
+																	pos: position{line: 662, col: 25, offset: 21031},
 																	run: (*parser).callonFileLocation70,
 																	expr: &seqExpr{
-																		pos: position{line: 662, col: 25, offset: 21030},
+																		pos: position{line: 662, col: 25, offset: 21031},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 662, col: 25, offset: 21030},
+																				pos:        position{line: 662, col: 25, offset: 21031},
 																				val:        "{counter2:",
 																				ignoreCase: false,
 																				want:       "\"{counter2:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 662, col: 38, offset: 21043},
+																				pos:   position{line: 662, col: 38, offset: 21044},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9729},
@@ -48114,8 +48114,8 @@ var g = &grammar{
 																								pos: position{line: 318, col: 28, offset: 9739},
 																								expr: &charClassMatcher{
 																									pos:        position{line: 318, col: 29, offset: 9740},
-																									val:        "[-\\pL\\pN]",
-																									chars:      []rune{'-'},
+																									val:        "[_-\\pL\\pN]",
+																									chars:      []rune{'_', '-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
 																									inverted:   false,
@@ -48126,33 +48126,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 662, col: 57, offset: 21062},
+																				pos:   position{line: 662, col: 57, offset: 21063},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 662, col: 63, offset: 21068},
+																					pos: position{line: 662, col: 63, offset: 21069},
 																					expr: &actionExpr{
-																						pos: position{line: 666, col: 17, offset: 21191},
+																						pos: position{line: 666, col: 17, offset: 21192},
 																						run: (*parser).callonFileLocation81,
 																						expr: &seqExpr{
-																							pos: position{line: 666, col: 17, offset: 21191},
+																							pos: position{line: 666, col: 17, offset: 21192},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 666, col: 17, offset: 21191},
+																									pos:        position{line: 666, col: 17, offset: 21192},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 666, col: 21, offset: 21195},
+																									pos:   position{line: 666, col: 21, offset: 21196},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 666, col: 28, offset: 21202},
+																										pos: position{line: 666, col: 28, offset: 21203},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 666, col: 28, offset: 21202},
+																												pos: position{line: 666, col: 28, offset: 21203},
 																												run: (*parser).callonFileLocation86,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 666, col: 28, offset: 21202},
+																													pos:        position{line: 666, col: 28, offset: 21203},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -48160,12 +48160,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 668, col: 9, offset: 21256},
+																												pos: position{line: 668, col: 9, offset: 21257},
 																												run: (*parser).callonFileLocation88,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 668, col: 9, offset: 21256},
+																													pos: position{line: 668, col: 9, offset: 21257},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 668, col: 9, offset: 21256},
+																														pos:        position{line: 668, col: 9, offset: 21257},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -48182,7 +48182,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 662, col: 79, offset: 21084},
+																				pos:        position{line: 662, col: 79, offset: 21085},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -48197,27 +48197,27 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1198, col: 23, offset: 37045},
+											pos: position{line: 1198, col: 23, offset: 37046},
 											run: (*parser).callonFileLocation92,
 											expr: &seqExpr{
-												pos: position{line: 1198, col: 23, offset: 37045},
+												pos: position{line: 1198, col: 23, offset: 37046},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 1196, col: 32, offset: 37013},
+														pos:        position{line: 1196, col: 32, offset: 37014},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 1198, col: 51, offset: 37073},
+														pos:   position{line: 1198, col: 51, offset: 37074},
 														label: "ref",
 														expr: &actionExpr{
-															pos: position{line: 1198, col: 56, offset: 37078},
+															pos: position{line: 1198, col: 56, offset: 37079},
 															run: (*parser).callonFileLocation96,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 1198, col: 56, offset: 37078},
+																pos: position{line: 1198, col: 56, offset: 37079},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1198, col: 56, offset: 37078},
+																	pos:        position{line: 1198, col: 56, offset: 37079},
 																	val:        "[0-9]",
 																	ranges:     []rune{'0', '9'},
 																	ignoreCase: false,
@@ -48227,7 +48227,7 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 1196, col: 32, offset: 37013},
+														pos:        position{line: 1196, col: 32, offset: 37014},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
@@ -48236,10 +48236,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2855, col: 11, offset: 90466},
+											pos: position{line: 2855, col: 11, offset: 90467},
 											run: (*parser).callonFileLocation100,
 											expr: &litMatcher{
-												pos:        position{line: 2855, col: 11, offset: 90466},
+												pos:        position{line: 2855, col: 11, offset: 90467},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index cb80044..cf64b75 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -315,7 +315,7 @@ AttributeDeclaration <-
 // AttributeName has at least one char, 
 // must begin with a word character (A-Z, a-z, 0-9) or an underscore ("_") 
 // and must only contain word characters (A-Z, a-z, 0-9) and hyphens ("-").
-AttributeName <- [\pL\pN_] ([\pL\pN-])* {
+AttributeName <- [\pL\pN_] ([\pL\pN_-])* {
         return string(c.text), nil
     }
 
-- 
2.43.0


From 8cf8a6f6cff9a8787bafe343e5132a9a5b23291e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:20 +0000
Subject: [PATCH 089/143] fix: conversion failed with references to 'authors'
 and 'revision'

---
 pkg/parser/document_processing_apply_substitutions.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 6eb78bd..90ca688 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -593,6 +593,16 @@ func valueForAttributeRef(ctx *ParseContext, a *types.AttributeReference) (inter
 		return strings.Trim(fmt.Sprint(v), "[]"), true, nil // sequence of values in the front-matter
 	case *types.DocumentAuthorFullName:
 		return v.FullName(), true, nil
+	case []*types.DocumentAuthor:
+		names := make([]string, 0, len(v))
+		for _, author := range v {
+			if name := author.FullName(); name != "" {
+				names = append(names, name)
+			}
+		}
+		return strings.Join(names, ", "), true, nil
+	case *types.DocumentRevision: // not an attribute of the document itself
+		return "{" + a.Name + "}", false, nil
 	case bool, int, int64, uint64, float64, time.Time, map[interface{}]interface{}: // in the configuration or in the front-matter
 		return fmt.Sprint(v), true, nil
 	default:
-- 
2.43.0


From 74d5223cde635a0390627dd15baa34abf74fea2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:38 +0000
Subject: [PATCH 090/143] fix: revision numbers with a single digit

---
 pkg/parser/parser.go  | 4 ++--
 pkg/parser/parser.peg | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 17bb5e9..6535870 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -17818,7 +17818,7 @@ var g = &grammar{
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
-																												&oneOrMoreExpr{
+																												&zeroOrMoreExpr{
 																													pos: position{line: 1179, col: 38, offset: 36521},
 																													expr: &charClassMatcher{
 																														pos:        position{line: 1179, col: 38, offset: 36521},
@@ -17853,7 +17853,7 @@ var g = &grammar{
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
-																												&oneOrMoreExpr{
+																												&zeroOrMoreExpr{
 																													pos: position{line: 1181, col: 17, offset: 36581},
 																													expr: &charClassMatcher{
 																														pos:        position{line: 1181, col: 17, offset: 36581},
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index cf64b75..4f892dc 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -1176,9 +1176,9 @@ DocumentRevision <- Space* !":" revision:(
 }
 
 // DocumentRevisionNumber MUST start with a `v` or MAY start with a `v` but MUST end with a `,`
-DocumentRevisionNumber <- "v"i [0-9] [^:,\r\n]+ {
+DocumentRevisionNumber <- "v"i [0-9] [^:,\r\n]* {
     return string(c.text), nil
-} / "v"i? [0-9] [^:,\r\n]+ Space* &"," {
+} / "v"i? [0-9] [^:,\r\n]* Space* &"," {
     return string(c.text), nil
 }
 
-- 
2.43.0


From 5cfeea3d9090713c4829b12602cc6ed1c6923cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:05 +0000
Subject: [PATCH 091/143] fix: titles of documents after declarations of
 attributes or comments were lost, and the front-matter replaced the
 attributes of the header

---
 libasciidoc.go                                | 24 +++------
 pkg/parser/document_processing_aggregate.go   | 24 +++------
 .../document_processing_parse_fragments.go    | 14 +++--
 pkg/renderer/sgml/sgml.go                     | 20 ++-----
 pkg/types/types.go                            | 54 ++++++++++++-------
 5 files changed, 62 insertions(+), 74 deletions(-)

diff --git a/libasciidoc.go b/libasciidoc.go
index 265dd60..b34b714 100644
--- a/libasciidoc.go
+++ b/libasciidoc.go
@@ -107,23 +107,15 @@ func Convert(source io.Reader, output io.Writer, config *configuration.Configura
 // otherwise the one which is declared in the header or before the first element of the document
 func documentType(doc *types.Document, config *configuration.Configuration) string {
 	attrs := types.Attributes{}
-	declare := func(elements []interface{}) {
-		for _, e := range elements {
-			switch e := e.(type) {
-			case *types.AttributeDeclaration:
-				attrs[e.Name] = e.Value
-			case *types.AttributeReset:
-				delete(attrs, e.Name)
-			default:
-				return
-			}
-		}
-	}
-	if header, _ := doc.Header(); header != nil {
-		for _, e := range header.Elements {
-			declare([]interface{}{e})
+	for _, e := range doc.Declarations() {
+		switch e := e.(type) {
+		case *types.FrontMatter:
+			attrs = attrs.SetAll(e.Attributes)
+		case *types.AttributeDeclaration:
+			attrs[e.Name] = e.Value
+		case *types.AttributeReset:
+			delete(attrs, e.Name)
 		}
 	}
-	declare(doc.Elements)
 	return attrs.AddAll(config.Attributes).GetAsStringWithDefault(types.AttrDocType, "article")
 }
diff --git a/pkg/parser/document_processing_aggregate.go b/pkg/parser/document_processing_aggregate.go
index f599047..8e225bd 100644
--- a/pkg/parser/document_processing_aggregate.go
+++ b/pkg/parser/document_processing_aggregate.go
@@ -212,20 +212,12 @@ func insertPreamble(doc *types.Document) {
 	}
 	// now, insert the preamble instead of the 'n' blocks that belong to the preamble
 	// and copy the other items
-	elements := make([]interface{}, len(doc.Elements)-len(preamble.Elements)+1)
-	if frontmatter := doc.FrontMatter(); frontmatter != nil {
-		elements[0] = frontmatter
-	}
-	if header, offset := doc.Header(); header != nil {
-		log.Debug("inserting preamble after header")
-		elements[0+offset] = header
-		elements[1+offset] = preamble
-		copy(elements[2+offset:], doc.Elements[1+len(preamble.Elements)+offset:])
-	} else {
-		log.Debug("inserting preamble at beginning of document")
-		elements[0] = preamble
-		copy(elements[1:], doc.Elements[len(preamble.Elements):])
-	}
+	log.Debugf("inserting preamble after header")
+	_, offset := doc.Header()
+	elements := make([]interface{}, 0, len(doc.Elements)-len(preamble.Elements)+1)
+	elements = append(elements, doc.Elements[:offset+1]...)
+	elements = append(elements, preamble)
+	elements = append(elements, doc.Elements[offset+1+len(preamble.Elements):]...)
 	doc.Elements = elements
 }
 
@@ -237,10 +229,8 @@ func newPreamble(doc *types.Document) *types.Preamble {
 	preamble := &types.Preamble{
 		Elements: make([]interface{}, 0, len(doc.Elements)),
 	}
-	for _, e := range doc.Elements {
+	for _, e := range doc.BodyElements() {
 		switch e.(type) {
-		case *types.DocumentHeader, *types.FrontMatter:
-			continue
 		case *types.Section:
 			return preamble
 		default:
diff --git a/pkg/parser/document_processing_parse_fragments.go b/pkg/parser/document_processing_parse_fragments.go
index 517efad..c783f1b 100644
--- a/pkg/parser/document_processing_parse_fragments.go
+++ b/pkg/parser/document_processing_parse_fragments.go
@@ -95,14 +95,18 @@ func (c *current) isDocumentHeaderAllowed() bool {
 	return found && allowed && !c.isWithinDelimitedBlock()
 }
 
-// disables the `DocumentHeader` grammar rule if the element is anything but a BlankLine or a FrontMatter
+// disables the `DocumentHeader` grammar rule if the element is anything but a BlankLine, a comment, a FrontMatter
+// or the declaration of an attribute
 func (c *current) disableDocumentHeaderRule(element interface{}) {
-	switch element.(type) {
-	case *types.BlankLine, *types.FrontMatter, *types.AttributeDeclaration:
+	switch element := element.(type) {
+	case *types.BlankLine, *types.FrontMatter, *types.AttributeDeclaration, *types.AttributeReset, *types.SinglelineComment:
 		return
-	default:
-		c.globalStore[documentHeaderKey] = false
+	case *types.DelimitedBlock:
+		if element.Kind == types.Comment {
+			return
+		}
 	}
+	c.globalStore[documentHeaderKey] = false
 }
 
 const blockAttributesKey = "block_attributes"
diff --git a/pkg/renderer/sgml/sgml.go b/pkg/renderer/sgml/sgml.go
index 9b5cd10..0e698f3 100644
--- a/pkg/renderer/sgml/sgml.go
+++ b/pkg/renderer/sgml/sgml.go
@@ -48,27 +48,15 @@ func Render(doc *types.Document, config *configuration.Configuration, output io.
 	if !exists {
 		renderedTitle = DefaultTitle
 	}
-	// process attribute declaration in the header
-	if header, _ := doc.Header(); header != nil {
-		for _, e := range header.Elements {
-			switch e := e.(type) {
-			case *types.AttributeDeclaration:
-				ctx.setAttribute(e.Name, e.Value)
-			case *types.AttributeReset:
-				ctx.resetAttribute(e.Name)
-			}
-		}
-	}
-	// also, process standalone attriute declaration before the first section
-elements:
-	for _, e := range doc.Elements {
+	// process the attribute declarations before and in the header, or before the first element
+	for _, e := range doc.Declarations() {
 		switch e := e.(type) {
+		case *types.FrontMatter:
+			ctx.setAttributes(e.Attributes)
 		case *types.AttributeDeclaration:
 			ctx.setAttribute(e.Name, e.Value)
 		case *types.AttributeReset:
 			ctx.resetAttribute(e.Name)
-		default:
-			break elements
 		}
 	}
 	if ctx.sectionNumbering, err = doc.SectionNumbersWith(ctx.config.Attributes); err != nil {
diff --git a/pkg/types/types.go b/pkg/types/types.go
index 1c8152e..91f0d7a 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -114,8 +114,8 @@ elements:
 		switch e := e.(type) {
 		case *DocumentHeader:
 			return e, i
-		case *BlankLine, *FrontMatter:
-			// expect DocumentHeader to be positioned after optional FrontMatter and blanklines in-between
+		case *BlankLine, *FrontMatter, *AttributeDeclaration, *AttributeReset:
+			// expect DocumentHeader to be positioned after optional FrontMatter, declarations of attributes and blanklines in-between
 			continue
 		default:
 			log.Debugf("no header in document")
@@ -125,20 +125,37 @@ elements:
 	return nil, -1
 }
 
-// BodyElements returns the elements to render in the body
+// BodyElements returns the elements to render in the body, ie, the ones after the header if there is one
 func (d *Document) BodyElements() []interface{} {
-	if len(d.Elements) == 0 {
-		return nil
+	if header, i := d.Header(); header != nil {
+		return d.Elements[i+1:]
 	}
-	elements := make([]interface{}, 0, len(d.Elements))
-	for i, e := range d.Elements {
-		if _, ok := e.(*DocumentHeader); ok {
-			elements = append(elements, d.Elements[i+1:]...)
-			return elements
+	return d.Elements
+}
+
+// Declarations returns the front-matter and the declarations and resets of attributes which come
+// before the body of the document: before the header, in the header, or before the first element if there is no header
+func (d *Document) Declarations() []interface{} {
+	var result []interface{}
+	for _, e := range d.Elements {
+		switch e := e.(type) {
+		case *FrontMatter, *AttributeDeclaration, *AttributeReset:
+			result = append(result, e)
+		case *BlankLine:
+			// ignore
+		case *DocumentHeader:
+			for _, e := range e.Elements {
+				switch e.(type) {
+				case *AttributeDeclaration, *AttributeReset:
+					result = append(result, e)
+				}
+			}
+			return result
+		default:
+			return result
 		}
-		elements = append(elements, e)
 	}
-	return elements
+	return result
 }
 
 var _ WithElementAddition = &Document{}
@@ -160,15 +177,12 @@ func (d *Document) SectionNumbersWith(attrs Attributes) (SectionNumbers, error)
 	if attrs.Has(AttrSectionNumbering) || attrs.Has(AttrNumbered) {
 		return numberAllSections(d.Elements, ""), nil
 	}
-	enabled := false
-	if header, _ := d.Header(); header != nil {
-		// lookup the `sectnums` or `numbered` attribute in the header
-		var err error
-		if _, enabled, err = traverseElements(header.Elements, false, ""); err != nil {
-			return nil, err
-		}
+	// lookup the `sectnums` or `numbered` attribute before and in the header
+	_, enabled, err := traverseElements(d.Declarations(), false, "") // disabled by default
+	if err != nil {
+		return nil, err
 	}
-	numbers, _, err := traverseElements(d.Elements, enabled, "") // disabled by default
+	numbers, _, err := traverseElements(d.BodyElements(), enabled, "")
 	return numbers, err
 }
 
-- 
2.43.0


From d1bd08618267d3cc4006af297db111ae8570c345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:36 +0000
Subject: [PATCH 092/143] fix: links to email addresses with '.', '+', '-', '_'
 or '%' lost a part of the address

---
 pkg/parser/parser.go  | 13476 ++++++++++++++++++++--------------------
 pkg/parser/parser.peg |    13 +-
 2 files changed, 6809 insertions(+), 6680 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 6535870..3edf7ff 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 360, col: 49, offset: 10941},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 90952},
+														pos: position{line: 2873, col: 10, offset: 90962},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 90952},
+															pos:        position{line: 2873, col: 10, offset: 90962},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2898, col: 8, offset: 91350},
+													pos: position{line: 2895, col: 8, offset: 91360},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91123},
+															pos: position{line: 2882, col: 12, offset: 91133},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2885, col: 13, offset: 91124},
+																pos: position{line: 2882, col: 13, offset: 91134},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 13, offset: 91124},
+																		pos:        position{line: 2882, col: 13, offset: 91134},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 20, offset: 91131},
+																		pos:        position{line: 2882, col: 20, offset: 91141},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 29, offset: 91140},
+																		pos:        position{line: 2882, col: 29, offset: 91150},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2895, col: 8, offset: 91300},
+															pos: position{line: 2892, col: 8, offset: 91310},
 															expr: &anyMatcher{
-																line: 2895, col: 9, offset: 91301,
+																line: 2892, col: 9, offset: 91311,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 39, offset: 11062},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 90952},
+														pos: position{line: 2873, col: 10, offset: 90962},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 90952},
+															pos:        position{line: 2873, col: 10, offset: 90962},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2898, col: 8, offset: 91350},
+													pos: position{line: 2895, col: 8, offset: 91360},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91123},
+															pos: position{line: 2882, col: 12, offset: 91133},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2885, col: 13, offset: 91124},
+																pos: position{line: 2882, col: 13, offset: 91134},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 13, offset: 91124},
+																		pos:        position{line: 2882, col: 13, offset: 91134},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 20, offset: 91131},
+																		pos:        position{line: 2882, col: 20, offset: 91141},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 29, offset: 91140},
+																		pos:        position{line: 2882, col: 29, offset: 91150},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2895, col: 8, offset: 91300},
+															pos: position{line: 2892, col: 8, offset: 91310},
 															expr: &anyMatcher{
-																line: 2895, col: 9, offset: 91301,
+																line: 2892, col: 9, offset: 91311,
 															},
 														},
 													},
@@ -321,10 +321,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 78, col: 41, offset: 2149},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 90952},
+																							pos: position{line: 2873, col: 10, offset: 90962},
 																							run: (*parser).callonDocumentRawLine66,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 90952},
+																								pos:        position{line: 2873, col: 10, offset: 90962},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -333,9 +333,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91300},
+																						pos: position{line: 2892, col: 8, offset: 91310},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91301,
+																							line: 2892, col: 9, offset: 91311,
 																						},
 																					},
 																				},
@@ -363,10 +363,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 90952},
+														pos: position{line: 2873, col: 10, offset: 90962},
 														run: (*parser).callonDocumentRawLine73,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 90952},
+															pos:        position{line: 2873, col: 10, offset: 90962},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -375,9 +375,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2895, col: 8, offset: 91300},
+													pos: position{line: 2892, col: 8, offset: 91310},
 													expr: &anyMatcher{
-														line: 2895, col: 9, offset: 91301,
+														line: 2892, col: 9, offset: 91311,
 													},
 												},
 											},
@@ -446,10 +446,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 78, col: 41, offset: 2149},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 90952},
+																							pos: position{line: 2873, col: 10, offset: 90962},
 																							run: (*parser).callonDocumentRawLine94,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 90952},
+																								pos:        position{line: 2873, col: 10, offset: 90962},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -458,9 +458,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91300},
+																						pos: position{line: 2892, col: 8, offset: 91310},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91301,
+																							line: 2892, col: 9, offset: 91311,
 																						},
 																					},
 																				},
@@ -488,10 +488,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 90952},
+														pos: position{line: 2873, col: 10, offset: 90962},
 														run: (*parser).callonDocumentRawLine101,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 90952},
+															pos:        position{line: 2873, col: 10, offset: 90962},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -500,9 +500,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2895, col: 8, offset: 91300},
+													pos: position{line: 2892, col: 8, offset: 91310},
 													expr: &anyMatcher{
-														line: 2895, col: 9, offset: 91301,
+														line: 2892, col: 9, offset: 91311,
 													},
 												},
 											},
@@ -972,24 +972,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2872, col: 10, offset: 90855},
+																pos: position{line: 2869, col: 10, offset: 90865},
 																run: (*parser).callonDocumentRawLine197,
 																expr: &seqExpr{
-																	pos: position{line: 2872, col: 11, offset: 90856},
+																	pos: position{line: 2869, col: 11, offset: 90866},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2872, col: 11, offset: 90856},
+																			pos: position{line: 2869, col: 11, offset: 90866},
 																			expr: &litMatcher{
-																				pos:        position{line: 2872, col: 11, offset: 90856},
+																				pos:        position{line: 2869, col: 11, offset: 90866},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2872, col: 16, offset: 90861},
+																			pos: position{line: 2869, col: 16, offset: 90871},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2872, col: 16, offset: 90861},
+																				pos:        position{line: 2869, col: 16, offset: 90871},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -997,15 +997,15 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2872, col: 23, offset: 90868},
+																			pos:        position{line: 2869, col: 23, offset: 90878},
 																			val:        ".",
 																			ignoreCase: false,
 																			want:       "\".\"",
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2872, col: 27, offset: 90872},
+																			pos: position{line: 2869, col: 27, offset: 90882},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2872, col: 27, offset: 90872},
+																				pos:        position{line: 2869, col: 27, offset: 90882},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1016,24 +1016,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2868, col: 12, offset: 90779},
+																pos: position{line: 2865, col: 12, offset: 90789},
 																run: (*parser).callonDocumentRawLine206,
 																expr: &seqExpr{
-																	pos: position{line: 2868, col: 13, offset: 90780},
+																	pos: position{line: 2865, col: 13, offset: 90790},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2868, col: 13, offset: 90780},
+																			pos: position{line: 2865, col: 13, offset: 90790},
 																			expr: &litMatcher{
-																				pos:        position{line: 2868, col: 13, offset: 90780},
+																				pos:        position{line: 2865, col: 13, offset: 90790},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2868, col: 18, offset: 90785},
+																			pos: position{line: 2865, col: 18, offset: 90795},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2868, col: 18, offset: 90785},
+																				pos:        position{line: 2865, col: 18, offset: 90795},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1049,10 +1049,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2280},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 90952},
+														pos: position{line: 2873, col: 10, offset: 90962},
 														run: (*parser).callonDocumentRawLine213,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 90952},
+															pos:        position{line: 2873, col: 10, offset: 90962},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1132,10 +1132,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2326},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 90952},
+														pos: position{line: 2873, col: 10, offset: 90962},
 														run: (*parser).callonDocumentRawLine230,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 90952},
+															pos:        position{line: 2873, col: 10, offset: 90962},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1595,24 +1595,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2872, col: 10, offset: 90855},
+																pos: position{line: 2869, col: 10, offset: 90865},
 																run: (*parser).callonDocumentRawLine321,
 																expr: &seqExpr{
-																	pos: position{line: 2872, col: 11, offset: 90856},
+																	pos: position{line: 2869, col: 11, offset: 90866},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2872, col: 11, offset: 90856},
+																			pos: position{line: 2869, col: 11, offset: 90866},
 																			expr: &litMatcher{
-																				pos:        position{line: 2872, col: 11, offset: 90856},
+																				pos:        position{line: 2869, col: 11, offset: 90866},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2872, col: 16, offset: 90861},
+																			pos: position{line: 2869, col: 16, offset: 90871},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2872, col: 16, offset: 90861},
+																				pos:        position{line: 2869, col: 16, offset: 90871},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1620,15 +1620,15 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2872, col: 23, offset: 90868},
+																			pos:        position{line: 2869, col: 23, offset: 90878},
 																			val:        ".",
 																			ignoreCase: false,
 																			want:       "\".\"",
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2872, col: 27, offset: 90872},
+																			pos: position{line: 2869, col: 27, offset: 90882},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2872, col: 27, offset: 90872},
+																				pos:        position{line: 2869, col: 27, offset: 90882},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1639,24 +1639,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2868, col: 12, offset: 90779},
+																pos: position{line: 2865, col: 12, offset: 90789},
 																run: (*parser).callonDocumentRawLine330,
 																expr: &seqExpr{
-																	pos: position{line: 2868, col: 13, offset: 90780},
+																	pos: position{line: 2865, col: 13, offset: 90790},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2868, col: 13, offset: 90780},
+																			pos: position{line: 2865, col: 13, offset: 90790},
 																			expr: &litMatcher{
-																				pos:        position{line: 2868, col: 13, offset: 90780},
+																				pos:        position{line: 2865, col: 13, offset: 90790},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2868, col: 18, offset: 90785},
+																			pos: position{line: 2865, col: 18, offset: 90795},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2868, col: 18, offset: 90785},
+																				pos:        position{line: 2865, col: 18, offset: 90795},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1678,10 +1678,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2378},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 90952},
+														pos: position{line: 2873, col: 10, offset: 90962},
 														run: (*parser).callonDocumentRawLine338,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 90952},
+															pos:        position{line: 2873, col: 10, offset: 90962},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1690,9 +1690,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2895, col: 8, offset: 91300},
+													pos: position{line: 2892, col: 8, offset: 91310},
 													expr: &anyMatcher{
-														line: 2895, col: 9, offset: 91301,
+														line: 2892, col: 9, offset: 91311,
 													},
 												},
 											},
@@ -1764,10 +1764,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 78, col: 41, offset: 2149},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 90952},
+																							pos: position{line: 2873, col: 10, offset: 90962},
 																							run: (*parser).callonDocumentRawLine360,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 90952},
+																								pos:        position{line: 2873, col: 10, offset: 90962},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -1776,9 +1776,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91300},
+																						pos: position{line: 2892, col: 8, offset: 91310},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91301,
+																							line: 2892, col: 9, offset: 91311,
 																						},
 																					},
 																				},
@@ -1806,10 +1806,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3474},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 90952},
+														pos: position{line: 2873, col: 10, offset: 90962},
 														run: (*parser).callonDocumentRawLine367,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 90952},
+															pos:        position{line: 2873, col: 10, offset: 90962},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1818,9 +1818,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2895, col: 8, offset: 91300},
+													pos: position{line: 2892, col: 8, offset: 91310},
 													expr: &anyMatcher{
-														line: 2895, col: 9, offset: 91301,
+														line: 2892, col: 9, offset: 91311,
 													},
 												},
 											},
@@ -1835,7 +1835,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 724, col: 5, offset: 23111},
 													expr: &charClassMatcher{
-														pos:        position{line: 2766, col: 13, offset: 88047},
+														pos:        position{line: 2763, col: 13, offset: 88036},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1885,10 +1885,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 742, col: 8, offset: 23755},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 90952},
+																				pos: position{line: 2873, col: 10, offset: 90962},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 90952},
+																					pos:        position{line: 2873, col: 10, offset: 90962},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1897,28 +1897,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91350},
+																			pos: position{line: 2895, col: 8, offset: 91360},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91123},
+																					pos: position{line: 2882, col: 12, offset: 91133},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91124},
+																						pos: position{line: 2882, col: 13, offset: 91134},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91124},
+																								pos:        position{line: 2882, col: 13, offset: 91134},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91131},
+																								pos:        position{line: 2882, col: 20, offset: 91141},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91140},
+																								pos:        position{line: 2882, col: 29, offset: 91150},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1927,9 +1927,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91300},
+																					pos: position{line: 2892, col: 8, offset: 91310},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91301,
+																						line: 2892, col: 9, offset: 91311,
 																					},
 																				},
 																			},
@@ -1974,10 +1974,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 749, col: 8, offset: 24003},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 90952},
+																				pos: position{line: 2873, col: 10, offset: 90962},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 90952},
+																					pos:        position{line: 2873, col: 10, offset: 90962},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1986,28 +1986,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91350},
+																			pos: position{line: 2895, col: 8, offset: 91360},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91123},
+																					pos: position{line: 2882, col: 12, offset: 91133},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91124},
+																						pos: position{line: 2882, col: 13, offset: 91134},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91124},
+																								pos:        position{line: 2882, col: 13, offset: 91134},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91131},
+																								pos:        position{line: 2882, col: 20, offset: 91141},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91140},
+																								pos:        position{line: 2882, col: 29, offset: 91150},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2016,9 +2016,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91300},
+																					pos: position{line: 2892, col: 8, offset: 91310},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91301,
+																						line: 2892, col: 9, offset: 91311,
 																					},
 																				},
 																			},
@@ -2059,10 +2059,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 760, col: 52, offset: 24415},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 90952},
+																				pos: position{line: 2873, col: 10, offset: 90962},
 																				run: (*parser).callonDocumentRawLine423,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 90952},
+																					pos:        position{line: 2873, col: 10, offset: 90962},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2071,28 +2071,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91350},
+																			pos: position{line: 2895, col: 8, offset: 91360},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91123},
+																					pos: position{line: 2882, col: 12, offset: 91133},
 																					run: (*parser).callonDocumentRawLine426,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91124},
+																						pos: position{line: 2882, col: 13, offset: 91134},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91124},
+																								pos:        position{line: 2882, col: 13, offset: 91134},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91131},
+																								pos:        position{line: 2882, col: 20, offset: 91141},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91140},
+																								pos:        position{line: 2882, col: 29, offset: 91150},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2101,9 +2101,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91300},
+																					pos: position{line: 2892, col: 8, offset: 91310},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91301,
+																						line: 2892, col: 9, offset: 91311,
 																					},
 																				},
 																			},
@@ -2148,10 +2148,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 756, col: 8, offset: 24249},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 90952},
+																				pos: position{line: 2873, col: 10, offset: 90962},
 																				run: (*parser).callonDocumentRawLine442,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 90952},
+																					pos:        position{line: 2873, col: 10, offset: 90962},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2160,28 +2160,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91350},
+																			pos: position{line: 2895, col: 8, offset: 91360},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91123},
+																					pos: position{line: 2882, col: 12, offset: 91133},
 																					run: (*parser).callonDocumentRawLine445,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91124},
+																						pos: position{line: 2882, col: 13, offset: 91134},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91124},
+																								pos:        position{line: 2882, col: 13, offset: 91134},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91131},
+																								pos:        position{line: 2882, col: 20, offset: 91141},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91140},
+																								pos:        position{line: 2882, col: 29, offset: 91150},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2190,9 +2190,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91300},
+																					pos: position{line: 2892, col: 8, offset: 91310},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91301,
+																						line: 2892, col: 9, offset: 91311,
 																					},
 																				},
 																			},
@@ -2237,10 +2237,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 771, col: 8, offset: 24792},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 90952},
+																				pos: position{line: 2873, col: 10, offset: 90962},
 																				run: (*parser).callonDocumentRawLine461,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 90952},
+																					pos:        position{line: 2873, col: 10, offset: 90962},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2249,28 +2249,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91350},
+																			pos: position{line: 2895, col: 8, offset: 91360},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91123},
+																					pos: position{line: 2882, col: 12, offset: 91133},
 																					run: (*parser).callonDocumentRawLine464,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91124},
+																						pos: position{line: 2882, col: 13, offset: 91134},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91124},
+																								pos:        position{line: 2882, col: 13, offset: 91134},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91131},
+																								pos:        position{line: 2882, col: 20, offset: 91141},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91140},
+																								pos:        position{line: 2882, col: 29, offset: 91150},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2279,9 +2279,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91300},
+																					pos: position{line: 2892, col: 8, offset: 91310},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91301,
+																						line: 2892, col: 9, offset: 91311,
 																					},
 																				},
 																			},
@@ -2326,10 +2326,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 785, col: 8, offset: 25268},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 90952},
+																				pos: position{line: 2873, col: 10, offset: 90962},
 																				run: (*parser).callonDocumentRawLine480,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 90952},
+																					pos:        position{line: 2873, col: 10, offset: 90962},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2338,28 +2338,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91350},
+																			pos: position{line: 2895, col: 8, offset: 91360},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91123},
+																					pos: position{line: 2882, col: 12, offset: 91133},
 																					run: (*parser).callonDocumentRawLine483,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91124},
+																						pos: position{line: 2882, col: 13, offset: 91134},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91124},
+																								pos:        position{line: 2882, col: 13, offset: 91134},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91131},
+																								pos:        position{line: 2882, col: 20, offset: 91141},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91140},
+																								pos:        position{line: 2882, col: 29, offset: 91150},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2368,9 +2368,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91300},
+																					pos: position{line: 2892, col: 8, offset: 91310},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91301,
+																						line: 2892, col: 9, offset: 91311,
 																					},
 																				},
 																			},
@@ -2415,10 +2415,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 792, col: 8, offset: 25520},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 90952},
+																				pos: position{line: 2873, col: 10, offset: 90962},
 																				run: (*parser).callonDocumentRawLine499,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 90952},
+																					pos:        position{line: 2873, col: 10, offset: 90962},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2427,28 +2427,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91350},
+																			pos: position{line: 2895, col: 8, offset: 91360},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91123},
+																					pos: position{line: 2882, col: 12, offset: 91133},
 																					run: (*parser).callonDocumentRawLine502,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91124},
+																						pos: position{line: 2882, col: 13, offset: 91134},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91124},
+																								pos:        position{line: 2882, col: 13, offset: 91134},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91131},
+																								pos:        position{line: 2882, col: 20, offset: 91141},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91140},
+																								pos:        position{line: 2882, col: 29, offset: 91150},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2457,9 +2457,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91300},
+																					pos: position{line: 2892, col: 8, offset: 91310},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91301,
+																						line: 2892, col: 9, offset: 91311,
 																					},
 																				},
 																			},
@@ -2504,10 +2504,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 799, col: 8, offset: 25770},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 90952},
+																				pos: position{line: 2873, col: 10, offset: 90962},
 																				run: (*parser).callonDocumentRawLine518,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 90952},
+																					pos:        position{line: 2873, col: 10, offset: 90962},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2516,28 +2516,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91350},
+																			pos: position{line: 2895, col: 8, offset: 91360},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91123},
+																					pos: position{line: 2882, col: 12, offset: 91133},
 																					run: (*parser).callonDocumentRawLine521,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91124},
+																						pos: position{line: 2882, col: 13, offset: 91134},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91124},
+																								pos:        position{line: 2882, col: 13, offset: 91134},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91131},
+																								pos:        position{line: 2882, col: 20, offset: 91141},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91140},
+																								pos:        position{line: 2882, col: 29, offset: 91150},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2546,9 +2546,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91300},
+																					pos: position{line: 2892, col: 8, offset: 91310},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91301,
+																						line: 2892, col: 9, offset: 91311,
 																					},
 																				},
 																			},
@@ -2593,10 +2593,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 806, col: 8, offset: 26016},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 90952},
+																				pos: position{line: 2873, col: 10, offset: 90962},
 																				run: (*parser).callonDocumentRawLine537,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 90952},
+																					pos:        position{line: 2873, col: 10, offset: 90962},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2605,28 +2605,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91350},
+																			pos: position{line: 2895, col: 8, offset: 91360},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91123},
+																					pos: position{line: 2882, col: 12, offset: 91133},
 																					run: (*parser).callonDocumentRawLine540,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91124},
+																						pos: position{line: 2882, col: 13, offset: 91134},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91124},
+																								pos:        position{line: 2882, col: 13, offset: 91134},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91131},
+																								pos:        position{line: 2882, col: 20, offset: 91141},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91140},
+																								pos:        position{line: 2882, col: 29, offset: 91150},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2635,9 +2635,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91300},
+																					pos: position{line: 2892, col: 8, offset: 91310},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91301,
+																						line: 2892, col: 9, offset: 91311,
 																					},
 																				},
 																			},
@@ -2687,12 +2687,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine555,
 												},
 												&actionExpr{
-													pos: position{line: 2880, col: 11, offset: 91013},
+													pos: position{line: 2877, col: 11, offset: 91023},
 													run: (*parser).callonDocumentRawLine556,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2880, col: 11, offset: 91013},
+														pos: position{line: 2877, col: 11, offset: 91023},
 														expr: &charClassMatcher{
-															pos:        position{line: 2880, col: 11, offset: 91013},
+															pos:        position{line: 2877, col: 11, offset: 91023},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2701,12 +2701,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2826, col: 14, offset: 89545},
+													pos: position{line: 2823, col: 14, offset: 89555},
 													run: (*parser).callonDocumentRawLine559,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2826, col: 14, offset: 89545},
+														pos: position{line: 2823, col: 14, offset: 89555},
 														expr: &charClassMatcher{
-															pos:        position{line: 2826, col: 14, offset: 89545},
+															pos:        position{line: 2823, col: 14, offset: 89555},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2715,9 +2715,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2895, col: 8, offset: 91300},
+													pos: position{line: 2892, col: 8, offset: 91310},
 													expr: &anyMatcher{
-														line: 2895, col: 9, offset: 91301,
+														line: 2892, col: 9, offset: 91311,
 													},
 												},
 											},
@@ -2727,9 +2727,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2895, col: 8, offset: 91300},
+							pos: position{line: 2892, col: 8, offset: 91310},
 							expr: &anyMatcher{
-								line: 2895, col: 9, offset: 91301,
+								line: 2892, col: 9, offset: 91311,
 							},
 						},
 					},
@@ -2764,41 +2764,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2830, col: 17, offset: 89615},
+												pos: position{line: 2827, col: 17, offset: 89625},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2830, col: 17, offset: 89615},
+													pos:   position{line: 2827, col: 17, offset: 89625},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2847, col: 5, offset: 90069},
+														pos: position{line: 2844, col: 5, offset: 90079},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2847, col: 5, offset: 90069},
+															pos:   position{line: 2844, col: 5, offset: 90079},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2847, col: 14, offset: 90078},
+																pos: position{line: 2844, col: 14, offset: 90088},
 																expr: &choiceExpr{
-																	pos: position{line: 2848, col: 9, offset: 90088},
+																	pos: position{line: 2845, col: 9, offset: 90098},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2848, col: 9, offset: 90088},
+																			pos: position{line: 2845, col: 9, offset: 90098},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2848, col: 9, offset: 90088},
+																				pos: position{line: 2845, col: 9, offset: 90098},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2848, col: 9, offset: 90088},
+																						pos: position{line: 2845, col: 9, offset: 90098},
 																						expr: &litMatcher{
-																							pos:        position{line: 2848, col: 10, offset: 90089},
+																							pos:        position{line: 2845, col: 10, offset: 90099},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2849, col: 9, offset: 90117},
+																						pos: position{line: 2846, col: 9, offset: 90127},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2849, col: 10, offset: 90118},
+																							pos:        position{line: 2846, col: 10, offset: 90128},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2809,27 +2809,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2852, col: 11, offset: 90330},
+																			pos: position{line: 2849, col: 11, offset: 90340},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2852, col: 11, offset: 90330},
+																					pos:        position{line: 2849, col: 11, offset: 90340},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2852, col: 19, offset: 90338},
+																					pos: position{line: 2849, col: 19, offset: 90348},
 																					expr: &seqExpr{
-																						pos: position{line: 2852, col: 21, offset: 90340},
+																						pos: position{line: 2849, col: 21, offset: 90350},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2852, col: 21, offset: 90340},
+																								pos: position{line: 2849, col: 21, offset: 90350},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 90952},
+																									pos: position{line: 2873, col: 10, offset: 90962},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 90952},
+																										pos:        position{line: 2873, col: 10, offset: 90962},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2838,11 +2838,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2852, col: 28, offset: 90347},
+																								pos: position{line: 2849, col: 28, offset: 90357},
 																								expr: &notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91300},
+																									pos: position{line: 2892, col: 8, offset: 91310},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91301,
+																										line: 2892, col: 9, offset: 91311,
 																									},
 																								},
 																							},
@@ -3237,10 +3237,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2855, col: 11, offset: 90467},
+																			pos: position{line: 2852, col: 11, offset: 90477},
 																			run: (*parser).callonFileInclusion107,
 																			expr: &litMatcher{
-																				pos:        position{line: 2855, col: 11, offset: 90467},
+																				pos:        position{line: 2852, col: 11, offset: 90477},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3269,10 +3269,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 10, offset: 90952},
+								pos: position{line: 2873, col: 10, offset: 90962},
 								run: (*parser).callonFileInclusion112,
 								expr: &charClassMatcher{
-									pos:        position{line: 2876, col: 10, offset: 90952},
+									pos:        position{line: 2873, col: 10, offset: 90962},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3281,28 +3281,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2898, col: 8, offset: 91350},
+							pos: position{line: 2895, col: 8, offset: 91360},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2885, col: 12, offset: 91123},
+									pos: position{line: 2882, col: 12, offset: 91133},
 									run: (*parser).callonFileInclusion115,
 									expr: &choiceExpr{
-										pos: position{line: 2885, col: 13, offset: 91124},
+										pos: position{line: 2882, col: 13, offset: 91134},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2885, col: 13, offset: 91124},
+												pos:        position{line: 2882, col: 13, offset: 91134},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 20, offset: 91131},
+												pos:        position{line: 2882, col: 20, offset: 91141},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 29, offset: 91140},
+												pos:        position{line: 2882, col: 29, offset: 91150},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3311,9 +3311,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2895, col: 8, offset: 91300},
+									pos: position{line: 2892, col: 8, offset: 91310},
 									expr: &anyMatcher{
-										line: 2895, col: 9, offset: 91301,
+										line: 2892, col: 9, offset: 91311,
 									},
 								},
 							},
@@ -3359,24 +3359,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2868, col: 12, offset: 90779},
+																				pos: position{line: 2865, col: 12, offset: 90789},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2868, col: 13, offset: 90780},
+																					pos: position{line: 2865, col: 13, offset: 90790},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2868, col: 13, offset: 90780},
+																							pos: position{line: 2865, col: 13, offset: 90790},
 																							expr: &litMatcher{
-																								pos:        position{line: 2868, col: 13, offset: 90780},
+																								pos:        position{line: 2865, col: 13, offset: 90790},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2868, col: 18, offset: 90785},
+																							pos: position{line: 2865, col: 18, offset: 90795},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2868, col: 18, offset: 90785},
+																								pos:        position{line: 2865, col: 18, offset: 90795},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3397,24 +3397,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2868, col: 12, offset: 90779},
+																				pos: position{line: 2865, col: 12, offset: 90789},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2868, col: 13, offset: 90780},
+																					pos: position{line: 2865, col: 13, offset: 90790},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2868, col: 13, offset: 90780},
+																							pos: position{line: 2865, col: 13, offset: 90790},
 																							expr: &litMatcher{
-																								pos:        position{line: 2868, col: 13, offset: 90780},
+																								pos:        position{line: 2865, col: 13, offset: 90790},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2868, col: 18, offset: 90785},
+																							pos: position{line: 2865, col: 18, offset: 90795},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2868, col: 18, offset: 90785},
+																								pos:        position{line: 2865, col: 18, offset: 90795},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3435,24 +3435,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2868, col: 12, offset: 90779},
+																		pos: position{line: 2865, col: 12, offset: 90789},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2868, col: 13, offset: 90780},
+																			pos: position{line: 2865, col: 13, offset: 90790},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2868, col: 13, offset: 90780},
+																					pos: position{line: 2865, col: 13, offset: 90790},
 																					expr: &litMatcher{
-																						pos:        position{line: 2868, col: 13, offset: 90780},
+																						pos:        position{line: 2865, col: 13, offset: 90790},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2868, col: 18, offset: 90785},
+																					pos: position{line: 2865, col: 18, offset: 90795},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2868, col: 18, offset: 90785},
+																						pos:        position{line: 2865, col: 18, offset: 90795},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3501,24 +3501,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2868, col: 12, offset: 90779},
+																									pos: position{line: 2865, col: 12, offset: 90789},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2868, col: 13, offset: 90780},
+																										pos: position{line: 2865, col: 13, offset: 90790},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2868, col: 13, offset: 90780},
+																												pos: position{line: 2865, col: 13, offset: 90790},
 																												expr: &litMatcher{
-																													pos:        position{line: 2868, col: 13, offset: 90780},
+																													pos:        position{line: 2865, col: 13, offset: 90790},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2868, col: 18, offset: 90785},
+																												pos: position{line: 2865, col: 18, offset: 90795},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2868, col: 18, offset: 90785},
+																													pos:        position{line: 2865, col: 18, offset: 90795},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3539,24 +3539,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2868, col: 12, offset: 90779},
+																									pos: position{line: 2865, col: 12, offset: 90789},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2868, col: 13, offset: 90780},
+																										pos: position{line: 2865, col: 13, offset: 90790},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2868, col: 13, offset: 90780},
+																												pos: position{line: 2865, col: 13, offset: 90790},
 																												expr: &litMatcher{
-																													pos:        position{line: 2868, col: 13, offset: 90780},
+																													pos:        position{line: 2865, col: 13, offset: 90790},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2868, col: 18, offset: 90785},
+																												pos: position{line: 2865, col: 18, offset: 90795},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2868, col: 18, offset: 90785},
+																													pos:        position{line: 2865, col: 18, offset: 90795},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3577,24 +3577,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 12, offset: 90779},
+																							pos: position{line: 2865, col: 12, offset: 90789},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2868, col: 13, offset: 90780},
+																								pos: position{line: 2865, col: 13, offset: 90790},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2868, col: 13, offset: 90780},
+																										pos: position{line: 2865, col: 13, offset: 90790},
 																										expr: &litMatcher{
-																											pos:        position{line: 2868, col: 13, offset: 90780},
+																											pos:        position{line: 2865, col: 13, offset: 90790},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2868, col: 18, offset: 90785},
+																										pos: position{line: 2865, col: 18, offset: 90795},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2868, col: 18, offset: 90785},
+																											pos:        position{line: 2865, col: 18, offset: 90795},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3627,24 +3627,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2868, col: 12, offset: 90779},
+														pos: position{line: 2865, col: 12, offset: 90789},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2868, col: 13, offset: 90780},
+															pos: position{line: 2865, col: 13, offset: 90790},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2868, col: 13, offset: 90780},
+																	pos: position{line: 2865, col: 13, offset: 90790},
 																	expr: &litMatcher{
-																		pos:        position{line: 2868, col: 13, offset: 90780},
+																		pos:        position{line: 2865, col: 13, offset: 90790},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2868, col: 18, offset: 90785},
+																	pos: position{line: 2865, col: 18, offset: 90795},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2868, col: 18, offset: 90785},
+																		pos:        position{line: 2865, col: 18, offset: 90795},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3665,24 +3665,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2868, col: 12, offset: 90779},
+														pos: position{line: 2865, col: 12, offset: 90789},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2868, col: 13, offset: 90780},
+															pos: position{line: 2865, col: 13, offset: 90790},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2868, col: 13, offset: 90780},
+																	pos: position{line: 2865, col: 13, offset: 90790},
 																	expr: &litMatcher{
-																		pos:        position{line: 2868, col: 13, offset: 90780},
+																		pos:        position{line: 2865, col: 13, offset: 90790},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2868, col: 18, offset: 90785},
+																	pos: position{line: 2865, col: 18, offset: 90795},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2868, col: 18, offset: 90785},
+																		pos:        position{line: 2865, col: 18, offset: 90795},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3703,24 +3703,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2868, col: 12, offset: 90779},
+												pos: position{line: 2865, col: 12, offset: 90789},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2868, col: 13, offset: 90780},
+													pos: position{line: 2865, col: 13, offset: 90790},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2868, col: 13, offset: 90780},
+															pos: position{line: 2865, col: 13, offset: 90790},
 															expr: &litMatcher{
-																pos:        position{line: 2868, col: 13, offset: 90780},
+																pos:        position{line: 2865, col: 13, offset: 90790},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2868, col: 18, offset: 90785},
+															pos: position{line: 2865, col: 18, offset: 90795},
 															expr: &charClassMatcher{
-																pos:        position{line: 2868, col: 18, offset: 90785},
+																pos:        position{line: 2865, col: 18, offset: 90795},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3736,9 +3736,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2895, col: 8, offset: 91300},
+							pos: position{line: 2892, col: 8, offset: 91310},
 							expr: &anyMatcher{
-								line: 2895, col: 9, offset: 91301,
+								line: 2892, col: 9, offset: 91311,
 							},
 						},
 					},
@@ -4063,9 +4063,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2895, col: 8, offset: 91300},
+							pos: position{line: 2892, col: 8, offset: 91310},
 							expr: &anyMatcher{
-								line: 2895, col: 9, offset: 91301,
+								line: 2892, col: 9, offset: 91311,
 							},
 						},
 					},
@@ -4189,28 +4189,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2898, col: 8, offset: 91350},
+							pos: position{line: 2895, col: 8, offset: 91360},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2885, col: 12, offset: 91123},
+									pos: position{line: 2882, col: 12, offset: 91133},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2885, col: 13, offset: 91124},
+										pos: position{line: 2882, col: 13, offset: 91134},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2885, col: 13, offset: 91124},
+												pos:        position{line: 2882, col: 13, offset: 91134},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 20, offset: 91131},
+												pos:        position{line: 2882, col: 20, offset: 91141},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 29, offset: 91140},
+												pos:        position{line: 2882, col: 29, offset: 91150},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4219,9 +4219,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2895, col: 8, offset: 91300},
+									pos: position{line: 2892, col: 8, offset: 91310},
 									expr: &anyMatcher{
-										line: 2895, col: 9, offset: 91301,
+										line: 2892, col: 9, offset: 91311,
 									},
 								},
 							},
@@ -4240,9 +4240,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2893, col: 11, offset: 91286},
+							pos: position{line: 2890, col: 11, offset: 91296},
 							expr: &anyMatcher{
-								line: 2893, col: 13, offset: 91288,
+								line: 2890, col: 13, offset: 91298,
 							},
 						},
 						&labeledExpr{
@@ -4337,10 +4337,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 360, col: 49, offset: 10941},
 														expr: &actionExpr{
-															pos: position{line: 2876, col: 10, offset: 90952},
+															pos: position{line: 2873, col: 10, offset: 90962},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2876, col: 10, offset: 90952},
+																pos:        position{line: 2873, col: 10, offset: 90962},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4349,28 +4349,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2898, col: 8, offset: 91350},
+														pos: position{line: 2895, col: 8, offset: 91360},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2885, col: 12, offset: 91123},
+																pos: position{line: 2882, col: 12, offset: 91133},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2885, col: 13, offset: 91124},
+																	pos: position{line: 2882, col: 13, offset: 91134},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 13, offset: 91124},
+																			pos:        position{line: 2882, col: 13, offset: 91134},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 20, offset: 91131},
+																			pos:        position{line: 2882, col: 20, offset: 91141},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 29, offset: 91140},
+																			pos:        position{line: 2882, col: 29, offset: 91150},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4379,9 +4379,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91300},
+																pos: position{line: 2892, col: 8, offset: 91310},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91301,
+																	line: 2892, col: 9, offset: 91311,
 																},
 															},
 														},
@@ -4442,10 +4442,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 39, offset: 11062},
 														expr: &actionExpr{
-															pos: position{line: 2876, col: 10, offset: 90952},
+															pos: position{line: 2873, col: 10, offset: 90962},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2876, col: 10, offset: 90952},
+																pos:        position{line: 2873, col: 10, offset: 90962},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4454,28 +4454,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2898, col: 8, offset: 91350},
+														pos: position{line: 2895, col: 8, offset: 91360},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2885, col: 12, offset: 91123},
+																pos: position{line: 2882, col: 12, offset: 91133},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2885, col: 13, offset: 91124},
+																	pos: position{line: 2882, col: 13, offset: 91134},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 13, offset: 91124},
+																			pos:        position{line: 2882, col: 13, offset: 91134},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 20, offset: 91131},
+																			pos:        position{line: 2882, col: 20, offset: 91141},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 29, offset: 91140},
+																			pos:        position{line: 2882, col: 29, offset: 91150},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4484,9 +4484,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91300},
+																pos: position{line: 2892, col: 8, offset: 91310},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91301,
+																	line: 2892, col: 9, offset: 91311,
 																},
 															},
 														},
@@ -4501,18 +4501,18 @@ var g = &grammar{
 												pos: position{line: 677, col: 14, offset: 21558},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2893, col: 11, offset: 91286},
+														pos: position{line: 2890, col: 11, offset: 91296},
 														expr: &anyMatcher{
-															line: 2893, col: 13, offset: 91288,
+															line: 2890, col: 13, offset: 91298,
 														},
 													},
 													&zeroOrMoreExpr{
 														pos: position{line: 677, col: 21, offset: 21565},
 														expr: &actionExpr{
-															pos: position{line: 2876, col: 10, offset: 90952},
+															pos: position{line: 2873, col: 10, offset: 90962},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2876, col: 10, offset: 90952},
+																pos:        position{line: 2873, col: 10, offset: 90962},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4521,28 +4521,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2898, col: 8, offset: 91350},
+														pos: position{line: 2895, col: 8, offset: 91360},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2885, col: 12, offset: 91123},
+																pos: position{line: 2882, col: 12, offset: 91133},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2885, col: 13, offset: 91124},
+																	pos: position{line: 2882, col: 13, offset: 91134},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 13, offset: 91124},
+																			pos:        position{line: 2882, col: 13, offset: 91134},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 20, offset: 91131},
+																			pos:        position{line: 2882, col: 20, offset: 91141},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 29, offset: 91140},
+																			pos:        position{line: 2882, col: 29, offset: 91150},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4551,9 +4551,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91300},
+																pos: position{line: 2892, col: 8, offset: 91310},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91301,
+																	line: 2892, col: 9, offset: 91311,
 																},
 															},
 														},
@@ -4612,10 +4612,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 742, col: 8, offset: 23755},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 90952},
+																		pos: position{line: 2873, col: 10, offset: 90962},
 																		run: (*parser).callonDocumentFragment86,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 90952},
+																			pos:        position{line: 2873, col: 10, offset: 90962},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -4624,28 +4624,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91350},
+																	pos: position{line: 2895, col: 8, offset: 91360},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91123},
+																			pos: position{line: 2882, col: 12, offset: 91133},
 																			run: (*parser).callonDocumentFragment89,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91124},
+																				pos: position{line: 2882, col: 13, offset: 91134},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91124},
+																						pos:        position{line: 2882, col: 13, offset: 91134},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91131},
+																						pos:        position{line: 2882, col: 20, offset: 91141},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91140},
+																						pos:        position{line: 2882, col: 29, offset: 91150},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -4654,9 +4654,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91300},
+																			pos: position{line: 2892, col: 8, offset: 91310},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91301,
+																				line: 2892, col: 9, offset: 91311,
 																			},
 																		},
 																	},
@@ -4717,10 +4717,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 742, col: 8, offset: 23755},
 																									expr: &actionExpr{
-																										pos: position{line: 2876, col: 10, offset: 90952},
+																										pos: position{line: 2873, col: 10, offset: 90962},
 																										run: (*parser).callonDocumentFragment111,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2876, col: 10, offset: 90952},
+																											pos:        position{line: 2873, col: 10, offset: 90962},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -4729,28 +4729,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2898, col: 8, offset: 91350},
+																									pos: position{line: 2895, col: 8, offset: 91360},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2885, col: 12, offset: 91123},
+																											pos: position{line: 2882, col: 12, offset: 91133},
 																											run: (*parser).callonDocumentFragment114,
 																											expr: &choiceExpr{
-																												pos: position{line: 2885, col: 13, offset: 91124},
+																												pos: position{line: 2882, col: 13, offset: 91134},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 13, offset: 91124},
+																														pos:        position{line: 2882, col: 13, offset: 91134},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 20, offset: 91131},
+																														pos:        position{line: 2882, col: 20, offset: 91141},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 29, offset: 91140},
+																														pos:        position{line: 2882, col: 29, offset: 91150},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -4759,9 +4759,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2895, col: 8, offset: 91300},
+																											pos: position{line: 2892, col: 8, offset: 91310},
 																											expr: &anyMatcher{
-																												line: 2895, col: 9, offset: 91301,
+																												line: 2892, col: 9, offset: 91311,
 																											},
 																										},
 																									},
@@ -4770,9 +4770,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91300},
+																						pos: position{line: 2892, col: 8, offset: 91310},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91301,
+																							line: 2892, col: 9, offset: 91311,
 																						},
 																					},
 																				},
@@ -4788,21 +4788,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26162},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2893, col: 11, offset: 91286},
+																							pos: position{line: 2890, col: 11, offset: 91296},
 																							expr: &anyMatcher{
-																								line: 2893, col: 13, offset: 91288,
+																								line: 2890, col: 13, offset: 91298,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26237},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2822, col: 13, offset: 89478},
+																								pos: position{line: 2819, col: 13, offset: 89488},
 																								run: (*parser).callonDocumentFragment129,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2822, col: 13, offset: 89478},
+																									pos: position{line: 2819, col: 13, offset: 89488},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2822, col: 13, offset: 89478},
+																										pos:        position{line: 2819, col: 13, offset: 89488},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4812,28 +4812,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91350},
+																							pos: position{line: 2895, col: 8, offset: 91360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91123},
+																									pos: position{line: 2882, col: 12, offset: 91133},
 																									run: (*parser).callonDocumentFragment133,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91124},
+																										pos: position{line: 2882, col: 13, offset: 91134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91124},
+																												pos:        position{line: 2882, col: 13, offset: 91134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91131},
+																												pos:        position{line: 2882, col: 20, offset: 91141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91140},
+																												pos:        position{line: 2882, col: 29, offset: 91150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4842,9 +4842,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91300},
+																									pos: position{line: 2892, col: 8, offset: 91310},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91301,
+																										line: 2892, col: 9, offset: 91311,
 																									},
 																								},
 																							},
@@ -4900,10 +4900,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 742, col: 8, offset: 23755},
 																				expr: &actionExpr{
-																					pos: position{line: 2876, col: 10, offset: 90952},
+																					pos: position{line: 2873, col: 10, offset: 90962},
 																					run: (*parser).callonDocumentFragment151,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2876, col: 10, offset: 90952},
+																						pos:        position{line: 2873, col: 10, offset: 90962},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -4912,28 +4912,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2898, col: 8, offset: 91350},
+																				pos: position{line: 2895, col: 8, offset: 91360},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2885, col: 12, offset: 91123},
+																						pos: position{line: 2882, col: 12, offset: 91133},
 																						run: (*parser).callonDocumentFragment154,
 																						expr: &choiceExpr{
-																							pos: position{line: 2885, col: 13, offset: 91124},
+																							pos: position{line: 2882, col: 13, offset: 91134},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 13, offset: 91124},
+																									pos:        position{line: 2882, col: 13, offset: 91134},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 20, offset: 91131},
+																									pos:        position{line: 2882, col: 20, offset: 91141},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 29, offset: 91140},
+																									pos:        position{line: 2882, col: 29, offset: 91150},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -4942,9 +4942,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91300},
+																						pos: position{line: 2892, col: 8, offset: 91310},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91301,
+																							line: 2892, col: 9, offset: 91311,
 																						},
 																					},
 																				},
@@ -4953,9 +4953,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2895, col: 8, offset: 91300},
+																	pos: position{line: 2892, col: 8, offset: 91310},
 																	expr: &anyMatcher{
-																		line: 2895, col: 9, offset: 91301,
+																		line: 2892, col: 9, offset: 91311,
 																	},
 																},
 															},
@@ -5010,10 +5010,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 749, col: 8, offset: 24003},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 90952},
+																			pos: position{line: 2873, col: 10, offset: 90962},
 																			run: (*parser).callonDocumentFragment175,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 90952},
+																				pos:        position{line: 2873, col: 10, offset: 90962},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5022,28 +5022,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91350},
+																		pos: position{line: 2895, col: 8, offset: 91360},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91123},
+																				pos: position{line: 2882, col: 12, offset: 91133},
 																				run: (*parser).callonDocumentFragment178,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91124},
+																					pos: position{line: 2882, col: 13, offset: 91134},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91124},
+																							pos:        position{line: 2882, col: 13, offset: 91134},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91131},
+																							pos:        position{line: 2882, col: 20, offset: 91141},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91140},
+																							pos:        position{line: 2882, col: 29, offset: 91150},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5052,9 +5052,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91300},
+																				pos: position{line: 2892, col: 8, offset: 91310},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91301,
+																					line: 2892, col: 9, offset: 91311,
 																				},
 																			},
 																		},
@@ -5126,10 +5126,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 749, col: 8, offset: 24003},
 																												expr: &actionExpr{
-																													pos: position{line: 2876, col: 10, offset: 90952},
+																													pos: position{line: 2873, col: 10, offset: 90962},
 																													run: (*parser).callonDocumentFragment203,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2876, col: 10, offset: 90952},
+																														pos:        position{line: 2873, col: 10, offset: 90962},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5138,28 +5138,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2898, col: 8, offset: 91350},
+																												pos: position{line: 2895, col: 8, offset: 91360},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2885, col: 12, offset: 91123},
+																														pos: position{line: 2882, col: 12, offset: 91133},
 																														run: (*parser).callonDocumentFragment206,
 																														expr: &choiceExpr{
-																															pos: position{line: 2885, col: 13, offset: 91124},
+																															pos: position{line: 2882, col: 13, offset: 91134},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 13, offset: 91124},
+																																	pos:        position{line: 2882, col: 13, offset: 91134},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 20, offset: 91131},
+																																	pos:        position{line: 2882, col: 20, offset: 91141},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 29, offset: 91140},
+																																	pos:        position{line: 2882, col: 29, offset: 91150},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5168,9 +5168,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2895, col: 8, offset: 91300},
+																														pos: position{line: 2892, col: 8, offset: 91310},
 																														expr: &anyMatcher{
-																															line: 2895, col: 9, offset: 91301,
+																															line: 2892, col: 9, offset: 91311,
 																														},
 																													},
 																												},
@@ -5186,9 +5186,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91300},
+																						pos: position{line: 2892, col: 8, offset: 91310},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91301,
+																							line: 2892, col: 9, offset: 91311,
 																						},
 																					},
 																				},
@@ -5204,21 +5204,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26162},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2893, col: 11, offset: 91286},
+																							pos: position{line: 2890, col: 11, offset: 91296},
 																							expr: &anyMatcher{
-																								line: 2893, col: 13, offset: 91288,
+																								line: 2890, col: 13, offset: 91298,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26237},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2822, col: 13, offset: 89478},
+																								pos: position{line: 2819, col: 13, offset: 89488},
 																								run: (*parser).callonDocumentFragment222,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2822, col: 13, offset: 89478},
+																									pos: position{line: 2819, col: 13, offset: 89488},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2822, col: 13, offset: 89478},
+																										pos:        position{line: 2819, col: 13, offset: 89488},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5228,28 +5228,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91350},
+																							pos: position{line: 2895, col: 8, offset: 91360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91123},
+																									pos: position{line: 2882, col: 12, offset: 91133},
 																									run: (*parser).callonDocumentFragment226,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91124},
+																										pos: position{line: 2882, col: 13, offset: 91134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91124},
+																												pos:        position{line: 2882, col: 13, offset: 91134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91131},
+																												pos:        position{line: 2882, col: 20, offset: 91141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91140},
+																												pos:        position{line: 2882, col: 29, offset: 91150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5258,9 +5258,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91300},
+																									pos: position{line: 2892, col: 8, offset: 91310},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91301,
+																										line: 2892, col: 9, offset: 91311,
 																									},
 																								},
 																							},
@@ -5325,10 +5325,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 749, col: 8, offset: 24003},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 90952},
+																									pos: position{line: 2873, col: 10, offset: 90962},
 																									run: (*parser).callonDocumentFragment247,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 90952},
+																										pos:        position{line: 2873, col: 10, offset: 90962},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5337,28 +5337,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2898, col: 8, offset: 91350},
+																								pos: position{line: 2895, col: 8, offset: 91360},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2885, col: 12, offset: 91123},
+																										pos: position{line: 2882, col: 12, offset: 91133},
 																										run: (*parser).callonDocumentFragment250,
 																										expr: &choiceExpr{
-																											pos: position{line: 2885, col: 13, offset: 91124},
+																											pos: position{line: 2882, col: 13, offset: 91134},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 13, offset: 91124},
+																													pos:        position{line: 2882, col: 13, offset: 91134},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 20, offset: 91131},
+																													pos:        position{line: 2882, col: 20, offset: 91141},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 29, offset: 91140},
+																													pos:        position{line: 2882, col: 29, offset: 91150},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5367,9 +5367,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2895, col: 8, offset: 91300},
+																										pos: position{line: 2892, col: 8, offset: 91310},
 																										expr: &anyMatcher{
-																											line: 2895, col: 9, offset: 91301,
+																											line: 2892, col: 9, offset: 91311,
 																										},
 																									},
 																								},
@@ -5385,9 +5385,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91300},
+																		pos: position{line: 2892, col: 8, offset: 91310},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91301,
+																			line: 2892, col: 9, offset: 91311,
 																		},
 																	},
 																},
@@ -5439,10 +5439,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 760, col: 52, offset: 24415},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 90952},
+																			pos: position{line: 2873, col: 10, offset: 90962},
 																			run: (*parser).callonDocumentFragment271,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 90952},
+																				pos:        position{line: 2873, col: 10, offset: 90962},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5451,28 +5451,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91350},
+																		pos: position{line: 2895, col: 8, offset: 91360},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91123},
+																				pos: position{line: 2882, col: 12, offset: 91133},
 																				run: (*parser).callonDocumentFragment274,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91124},
+																					pos: position{line: 2882, col: 13, offset: 91134},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91124},
+																							pos:        position{line: 2882, col: 13, offset: 91134},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91131},
+																							pos:        position{line: 2882, col: 20, offset: 91141},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91140},
+																							pos:        position{line: 2882, col: 29, offset: 91150},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5481,9 +5481,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91300},
+																				pos: position{line: 2892, col: 8, offset: 91310},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91301,
+																					line: 2892, col: 9, offset: 91311,
 																				},
 																			},
 																		},
@@ -5517,10 +5517,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 963, col: 40, offset: 30223},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 90952},
+																							pos: position{line: 2873, col: 10, offset: 90962},
 																							run: (*parser).callonDocumentFragment289,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 90952},
+																								pos:        position{line: 2873, col: 10, offset: 90962},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5529,28 +5529,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91350},
+																						pos: position{line: 2895, col: 8, offset: 91360},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91123},
+																								pos: position{line: 2882, col: 12, offset: 91133},
 																								run: (*parser).callonDocumentFragment292,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91124},
+																									pos: position{line: 2882, col: 13, offset: 91134},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91124},
+																											pos:        position{line: 2882, col: 13, offset: 91134},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91131},
+																											pos:        position{line: 2882, col: 20, offset: 91141},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91140},
+																											pos:        position{line: 2882, col: 29, offset: 91150},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5559,9 +5559,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91300},
+																								pos: position{line: 2892, col: 8, offset: 91310},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91301,
+																									line: 2892, col: 9, offset: 91311,
 																								},
 																							},
 																						},
@@ -5579,21 +5579,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26162},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2893, col: 11, offset: 91286},
+																							pos: position{line: 2890, col: 11, offset: 91296},
 																							expr: &anyMatcher{
-																								line: 2893, col: 13, offset: 91288,
+																								line: 2890, col: 13, offset: 91298,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26237},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2822, col: 13, offset: 89478},
+																								pos: position{line: 2819, col: 13, offset: 89488},
 																								run: (*parser).callonDocumentFragment305,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2822, col: 13, offset: 89478},
+																									pos: position{line: 2819, col: 13, offset: 89488},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2822, col: 13, offset: 89478},
+																										pos:        position{line: 2819, col: 13, offset: 89488},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5603,28 +5603,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91350},
+																							pos: position{line: 2895, col: 8, offset: 91360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91123},
+																									pos: position{line: 2882, col: 12, offset: 91133},
 																									run: (*parser).callonDocumentFragment309,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91124},
+																										pos: position{line: 2882, col: 13, offset: 91134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91124},
+																												pos:        position{line: 2882, col: 13, offset: 91134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91131},
+																												pos:        position{line: 2882, col: 20, offset: 91141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91140},
+																												pos:        position{line: 2882, col: 29, offset: 91150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5633,9 +5633,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91300},
+																									pos: position{line: 2892, col: 8, offset: 91310},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91301,
+																										line: 2892, col: 9, offset: 91311,
 																									},
 																								},
 																							},
@@ -5663,10 +5663,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 963, col: 40, offset: 30223},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 90952},
+																		pos: position{line: 2873, col: 10, offset: 90962},
 																		run: (*parser).callonDocumentFragment320,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 90952},
+																			pos:        position{line: 2873, col: 10, offset: 90962},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5675,28 +5675,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91350},
+																	pos: position{line: 2895, col: 8, offset: 91360},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91123},
+																			pos: position{line: 2882, col: 12, offset: 91133},
 																			run: (*parser).callonDocumentFragment323,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91124},
+																				pos: position{line: 2882, col: 13, offset: 91134},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91124},
+																						pos:        position{line: 2882, col: 13, offset: 91134},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91131},
+																						pos:        position{line: 2882, col: 20, offset: 91141},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91140},
+																						pos:        position{line: 2882, col: 29, offset: 91150},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5705,9 +5705,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91300},
+																			pos: position{line: 2892, col: 8, offset: 91310},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91301,
+																				line: 2892, col: 9, offset: 91311,
 																			},
 																		},
 																	},
@@ -5764,10 +5764,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 756, col: 8, offset: 24249},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 90952},
+																			pos: position{line: 2873, col: 10, offset: 90962},
 																			run: (*parser).callonDocumentFragment342,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 90952},
+																				pos:        position{line: 2873, col: 10, offset: 90962},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5776,28 +5776,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91350},
+																		pos: position{line: 2895, col: 8, offset: 91360},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91123},
+																				pos: position{line: 2882, col: 12, offset: 91133},
 																				run: (*parser).callonDocumentFragment345,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91124},
+																					pos: position{line: 2882, col: 13, offset: 91134},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91124},
+																							pos:        position{line: 2882, col: 13, offset: 91134},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91131},
+																							pos:        position{line: 2882, col: 20, offset: 91141},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91140},
+																							pos:        position{line: 2882, col: 29, offset: 91150},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5806,9 +5806,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91300},
+																				pos: position{line: 2892, col: 8, offset: 91310},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91301,
+																					line: 2892, col: 9, offset: 91311,
 																				},
 																			},
 																		},
@@ -5880,10 +5880,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 756, col: 8, offset: 24249},
 																												expr: &actionExpr{
-																													pos: position{line: 2876, col: 10, offset: 90952},
+																													pos: position{line: 2873, col: 10, offset: 90962},
 																													run: (*parser).callonDocumentFragment370,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2876, col: 10, offset: 90952},
+																														pos:        position{line: 2873, col: 10, offset: 90962},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5892,28 +5892,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2898, col: 8, offset: 91350},
+																												pos: position{line: 2895, col: 8, offset: 91360},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2885, col: 12, offset: 91123},
+																														pos: position{line: 2882, col: 12, offset: 91133},
 																														run: (*parser).callonDocumentFragment373,
 																														expr: &choiceExpr{
-																															pos: position{line: 2885, col: 13, offset: 91124},
+																															pos: position{line: 2882, col: 13, offset: 91134},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 13, offset: 91124},
+																																	pos:        position{line: 2882, col: 13, offset: 91134},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 20, offset: 91131},
+																																	pos:        position{line: 2882, col: 20, offset: 91141},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 29, offset: 91140},
+																																	pos:        position{line: 2882, col: 29, offset: 91150},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5922,9 +5922,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2895, col: 8, offset: 91300},
+																														pos: position{line: 2892, col: 8, offset: 91310},
 																														expr: &anyMatcher{
-																															line: 2895, col: 9, offset: 91301,
+																															line: 2892, col: 9, offset: 91311,
 																														},
 																													},
 																												},
@@ -5940,9 +5940,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91300},
+																						pos: position{line: 2892, col: 8, offset: 91310},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91301,
+																							line: 2892, col: 9, offset: 91311,
 																						},
 																					},
 																				},
@@ -5958,21 +5958,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26162},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2893, col: 11, offset: 91286},
+																							pos: position{line: 2890, col: 11, offset: 91296},
 																							expr: &anyMatcher{
-																								line: 2893, col: 13, offset: 91288,
+																								line: 2890, col: 13, offset: 91298,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26237},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2822, col: 13, offset: 89478},
+																								pos: position{line: 2819, col: 13, offset: 89488},
 																								run: (*parser).callonDocumentFragment389,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2822, col: 13, offset: 89478},
+																									pos: position{line: 2819, col: 13, offset: 89488},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2822, col: 13, offset: 89478},
+																										pos:        position{line: 2819, col: 13, offset: 89488},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5982,28 +5982,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91350},
+																							pos: position{line: 2895, col: 8, offset: 91360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91123},
+																									pos: position{line: 2882, col: 12, offset: 91133},
 																									run: (*parser).callonDocumentFragment393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91124},
+																										pos: position{line: 2882, col: 13, offset: 91134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91124},
+																												pos:        position{line: 2882, col: 13, offset: 91134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91131},
+																												pos:        position{line: 2882, col: 20, offset: 91141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91140},
+																												pos:        position{line: 2882, col: 29, offset: 91150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6012,9 +6012,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91300},
+																									pos: position{line: 2892, col: 8, offset: 91310},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91301,
+																										line: 2892, col: 9, offset: 91311,
 																									},
 																								},
 																							},
@@ -6079,10 +6079,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 756, col: 8, offset: 24249},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 90952},
+																									pos: position{line: 2873, col: 10, offset: 90962},
 																									run: (*parser).callonDocumentFragment414,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 90952},
+																										pos:        position{line: 2873, col: 10, offset: 90962},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6091,28 +6091,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2898, col: 8, offset: 91350},
+																								pos: position{line: 2895, col: 8, offset: 91360},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2885, col: 12, offset: 91123},
+																										pos: position{line: 2882, col: 12, offset: 91133},
 																										run: (*parser).callonDocumentFragment417,
 																										expr: &choiceExpr{
-																											pos: position{line: 2885, col: 13, offset: 91124},
+																											pos: position{line: 2882, col: 13, offset: 91134},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 13, offset: 91124},
+																													pos:        position{line: 2882, col: 13, offset: 91134},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 20, offset: 91131},
+																													pos:        position{line: 2882, col: 20, offset: 91141},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 29, offset: 91140},
+																													pos:        position{line: 2882, col: 29, offset: 91150},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6121,9 +6121,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2895, col: 8, offset: 91300},
+																										pos: position{line: 2892, col: 8, offset: 91310},
 																										expr: &anyMatcher{
-																											line: 2895, col: 9, offset: 91301,
+																											line: 2892, col: 9, offset: 91311,
 																										},
 																									},
 																								},
@@ -6139,9 +6139,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91300},
+																		pos: position{line: 2892, col: 8, offset: 91310},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91301,
+																			line: 2892, col: 9, offset: 91311,
 																		},
 																	},
 																},
@@ -6197,10 +6197,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 771, col: 8, offset: 24792},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 90952},
+																			pos: position{line: 2873, col: 10, offset: 90962},
 																			run: (*parser).callonDocumentFragment439,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 90952},
+																				pos:        position{line: 2873, col: 10, offset: 90962},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6209,28 +6209,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91350},
+																		pos: position{line: 2895, col: 8, offset: 91360},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91123},
+																				pos: position{line: 2882, col: 12, offset: 91133},
 																				run: (*parser).callonDocumentFragment442,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91124},
+																					pos: position{line: 2882, col: 13, offset: 91134},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91124},
+																							pos:        position{line: 2882, col: 13, offset: 91134},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91131},
+																							pos:        position{line: 2882, col: 20, offset: 91141},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91140},
+																							pos:        position{line: 2882, col: 29, offset: 91150},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6239,9 +6239,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91300},
+																				pos: position{line: 2892, col: 8, offset: 91310},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91301,
+																					line: 2892, col: 9, offset: 91311,
 																				},
 																			},
 																		},
@@ -6313,10 +6313,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 771, col: 8, offset: 24792},
 																												expr: &actionExpr{
-																													pos: position{line: 2876, col: 10, offset: 90952},
+																													pos: position{line: 2873, col: 10, offset: 90962},
 																													run: (*parser).callonDocumentFragment467,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2876, col: 10, offset: 90952},
+																														pos:        position{line: 2873, col: 10, offset: 90962},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6325,28 +6325,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2898, col: 8, offset: 91350},
+																												pos: position{line: 2895, col: 8, offset: 91360},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2885, col: 12, offset: 91123},
+																														pos: position{line: 2882, col: 12, offset: 91133},
 																														run: (*parser).callonDocumentFragment470,
 																														expr: &choiceExpr{
-																															pos: position{line: 2885, col: 13, offset: 91124},
+																															pos: position{line: 2882, col: 13, offset: 91134},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 13, offset: 91124},
+																																	pos:        position{line: 2882, col: 13, offset: 91134},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 20, offset: 91131},
+																																	pos:        position{line: 2882, col: 20, offset: 91141},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 29, offset: 91140},
+																																	pos:        position{line: 2882, col: 29, offset: 91150},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6355,9 +6355,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2895, col: 8, offset: 91300},
+																														pos: position{line: 2892, col: 8, offset: 91310},
 																														expr: &anyMatcher{
-																															line: 2895, col: 9, offset: 91301,
+																															line: 2892, col: 9, offset: 91311,
 																														},
 																													},
 																												},
@@ -6373,9 +6373,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91300},
+																						pos: position{line: 2892, col: 8, offset: 91310},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91301,
+																							line: 2892, col: 9, offset: 91311,
 																						},
 																					},
 																				},
@@ -6391,21 +6391,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26162},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2893, col: 11, offset: 91286},
+																							pos: position{line: 2890, col: 11, offset: 91296},
 																							expr: &anyMatcher{
-																								line: 2893, col: 13, offset: 91288,
+																								line: 2890, col: 13, offset: 91298,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26237},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2822, col: 13, offset: 89478},
+																								pos: position{line: 2819, col: 13, offset: 89488},
 																								run: (*parser).callonDocumentFragment486,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2822, col: 13, offset: 89478},
+																									pos: position{line: 2819, col: 13, offset: 89488},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2822, col: 13, offset: 89478},
+																										pos:        position{line: 2819, col: 13, offset: 89488},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6415,28 +6415,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91350},
+																							pos: position{line: 2895, col: 8, offset: 91360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91123},
+																									pos: position{line: 2882, col: 12, offset: 91133},
 																									run: (*parser).callonDocumentFragment490,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91124},
+																										pos: position{line: 2882, col: 13, offset: 91134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91124},
+																												pos:        position{line: 2882, col: 13, offset: 91134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91131},
+																												pos:        position{line: 2882, col: 20, offset: 91141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91140},
+																												pos:        position{line: 2882, col: 29, offset: 91150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6445,9 +6445,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91300},
+																									pos: position{line: 2892, col: 8, offset: 91310},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91301,
+																										line: 2892, col: 9, offset: 91311,
 																									},
 																								},
 																							},
@@ -6512,10 +6512,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 771, col: 8, offset: 24792},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 90952},
+																									pos: position{line: 2873, col: 10, offset: 90962},
 																									run: (*parser).callonDocumentFragment511,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 90952},
+																										pos:        position{line: 2873, col: 10, offset: 90962},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6524,28 +6524,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2898, col: 8, offset: 91350},
+																								pos: position{line: 2895, col: 8, offset: 91360},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2885, col: 12, offset: 91123},
+																										pos: position{line: 2882, col: 12, offset: 91133},
 																										run: (*parser).callonDocumentFragment514,
 																										expr: &choiceExpr{
-																											pos: position{line: 2885, col: 13, offset: 91124},
+																											pos: position{line: 2882, col: 13, offset: 91134},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 13, offset: 91124},
+																													pos:        position{line: 2882, col: 13, offset: 91134},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 20, offset: 91131},
+																													pos:        position{line: 2882, col: 20, offset: 91141},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 29, offset: 91140},
+																													pos:        position{line: 2882, col: 29, offset: 91150},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6554,9 +6554,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2895, col: 8, offset: 91300},
+																										pos: position{line: 2892, col: 8, offset: 91310},
 																										expr: &anyMatcher{
-																											line: 2895, col: 9, offset: 91301,
+																											line: 2892, col: 9, offset: 91311,
 																										},
 																									},
 																								},
@@ -6572,9 +6572,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91300},
+																		pos: position{line: 2892, col: 8, offset: 91310},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91301,
+																			line: 2892, col: 9, offset: 91311,
 																		},
 																	},
 																},
@@ -6630,10 +6630,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 785, col: 8, offset: 25268},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 90952},
+																			pos: position{line: 2873, col: 10, offset: 90962},
 																			run: (*parser).callonDocumentFragment536,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 90952},
+																				pos:        position{line: 2873, col: 10, offset: 90962},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6642,28 +6642,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91350},
+																		pos: position{line: 2895, col: 8, offset: 91360},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91123},
+																				pos: position{line: 2882, col: 12, offset: 91133},
 																				run: (*parser).callonDocumentFragment539,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91124},
+																					pos: position{line: 2882, col: 13, offset: 91134},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91124},
+																							pos:        position{line: 2882, col: 13, offset: 91134},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91131},
+																							pos:        position{line: 2882, col: 20, offset: 91141},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91140},
+																							pos:        position{line: 2882, col: 29, offset: 91150},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6672,9 +6672,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91300},
+																				pos: position{line: 2892, col: 8, offset: 91310},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91301,
+																					line: 2892, col: 9, offset: 91311,
 																				},
 																			},
 																		},
@@ -6746,10 +6746,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 785, col: 8, offset: 25268},
 																												expr: &actionExpr{
-																													pos: position{line: 2876, col: 10, offset: 90952},
+																													pos: position{line: 2873, col: 10, offset: 90962},
 																													run: (*parser).callonDocumentFragment564,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2876, col: 10, offset: 90952},
+																														pos:        position{line: 2873, col: 10, offset: 90962},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6758,28 +6758,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2898, col: 8, offset: 91350},
+																												pos: position{line: 2895, col: 8, offset: 91360},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2885, col: 12, offset: 91123},
+																														pos: position{line: 2882, col: 12, offset: 91133},
 																														run: (*parser).callonDocumentFragment567,
 																														expr: &choiceExpr{
-																															pos: position{line: 2885, col: 13, offset: 91124},
+																															pos: position{line: 2882, col: 13, offset: 91134},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 13, offset: 91124},
+																																	pos:        position{line: 2882, col: 13, offset: 91134},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 20, offset: 91131},
+																																	pos:        position{line: 2882, col: 20, offset: 91141},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 29, offset: 91140},
+																																	pos:        position{line: 2882, col: 29, offset: 91150},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6788,9 +6788,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2895, col: 8, offset: 91300},
+																														pos: position{line: 2892, col: 8, offset: 91310},
 																														expr: &anyMatcher{
-																															line: 2895, col: 9, offset: 91301,
+																															line: 2892, col: 9, offset: 91311,
 																														},
 																													},
 																												},
@@ -6806,9 +6806,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91300},
+																						pos: position{line: 2892, col: 8, offset: 91310},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91301,
+																							line: 2892, col: 9, offset: 91311,
 																						},
 																					},
 																				},
@@ -6824,21 +6824,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26162},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2893, col: 11, offset: 91286},
+																							pos: position{line: 2890, col: 11, offset: 91296},
 																							expr: &anyMatcher{
-																								line: 2893, col: 13, offset: 91288,
+																								line: 2890, col: 13, offset: 91298,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26237},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2822, col: 13, offset: 89478},
+																								pos: position{line: 2819, col: 13, offset: 89488},
 																								run: (*parser).callonDocumentFragment583,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2822, col: 13, offset: 89478},
+																									pos: position{line: 2819, col: 13, offset: 89488},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2822, col: 13, offset: 89478},
+																										pos:        position{line: 2819, col: 13, offset: 89488},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6848,28 +6848,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91350},
+																							pos: position{line: 2895, col: 8, offset: 91360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91123},
+																									pos: position{line: 2882, col: 12, offset: 91133},
 																									run: (*parser).callonDocumentFragment587,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91124},
+																										pos: position{line: 2882, col: 13, offset: 91134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91124},
+																												pos:        position{line: 2882, col: 13, offset: 91134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91131},
+																												pos:        position{line: 2882, col: 20, offset: 91141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91140},
+																												pos:        position{line: 2882, col: 29, offset: 91150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6878,9 +6878,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91300},
+																									pos: position{line: 2892, col: 8, offset: 91310},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91301,
+																										line: 2892, col: 9, offset: 91311,
 																									},
 																								},
 																							},
@@ -6945,10 +6945,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 785, col: 8, offset: 25268},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 90952},
+																									pos: position{line: 2873, col: 10, offset: 90962},
 																									run: (*parser).callonDocumentFragment608,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 90952},
+																										pos:        position{line: 2873, col: 10, offset: 90962},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6957,28 +6957,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2898, col: 8, offset: 91350},
+																								pos: position{line: 2895, col: 8, offset: 91360},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2885, col: 12, offset: 91123},
+																										pos: position{line: 2882, col: 12, offset: 91133},
 																										run: (*parser).callonDocumentFragment611,
 																										expr: &choiceExpr{
-																											pos: position{line: 2885, col: 13, offset: 91124},
+																											pos: position{line: 2882, col: 13, offset: 91134},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 13, offset: 91124},
+																													pos:        position{line: 2882, col: 13, offset: 91134},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 20, offset: 91131},
+																													pos:        position{line: 2882, col: 20, offset: 91141},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 29, offset: 91140},
+																													pos:        position{line: 2882, col: 29, offset: 91150},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6987,9 +6987,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2895, col: 8, offset: 91300},
+																										pos: position{line: 2892, col: 8, offset: 91310},
 																										expr: &anyMatcher{
-																											line: 2895, col: 9, offset: 91301,
+																											line: 2892, col: 9, offset: 91311,
 																										},
 																									},
 																								},
@@ -7005,9 +7005,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91300},
+																		pos: position{line: 2892, col: 8, offset: 91310},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91301,
+																			line: 2892, col: 9, offset: 91311,
 																		},
 																	},
 																},
@@ -7041,18 +7041,18 @@ var g = &grammar{
 																				pos: position{line: 677, col: 14, offset: 21558},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2893, col: 11, offset: 91286},
+																						pos: position{line: 2890, col: 11, offset: 91296},
 																						expr: &anyMatcher{
-																							line: 2893, col: 13, offset: 91288,
+																							line: 2890, col: 13, offset: 91298,
 																						},
 																					},
 																					&zeroOrMoreExpr{
 																						pos: position{line: 677, col: 21, offset: 21565},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 90952},
+																							pos: position{line: 2873, col: 10, offset: 90962},
 																							run: (*parser).callonDocumentFragment632,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 90952},
+																								pos:        position{line: 2873, col: 10, offset: 90962},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -7061,28 +7061,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91350},
+																						pos: position{line: 2895, col: 8, offset: 91360},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91123},
+																								pos: position{line: 2882, col: 12, offset: 91133},
 																								run: (*parser).callonDocumentFragment635,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91124},
+																									pos: position{line: 2882, col: 13, offset: 91134},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91124},
+																											pos:        position{line: 2882, col: 13, offset: 91134},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91131},
+																											pos:        position{line: 2882, col: 20, offset: 91141},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91140},
+																											pos:        position{line: 2882, col: 29, offset: 91150},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -7091,9 +7091,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91300},
+																								pos: position{line: 2892, col: 8, offset: 91310},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91301,
+																									line: 2892, col: 9, offset: 91311,
 																								},
 																							},
 																						},
@@ -7112,12 +7112,12 @@ var g = &grammar{
 																		pos:   position{line: 984, col: 5, offset: 30758},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2826, col: 14, offset: 89545},
+																			pos: position{line: 2823, col: 14, offset: 89555},
 																			run: (*parser).callonDocumentFragment644,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2826, col: 14, offset: 89545},
+																				pos: position{line: 2823, col: 14, offset: 89555},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2826, col: 14, offset: 89545},
+																					pos:        position{line: 2823, col: 14, offset: 89555},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -7127,28 +7127,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91350},
+																		pos: position{line: 2895, col: 8, offset: 91360},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91123},
+																				pos: position{line: 2882, col: 12, offset: 91133},
 																				run: (*parser).callonDocumentFragment648,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91124},
+																					pos: position{line: 2882, col: 13, offset: 91134},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91124},
+																							pos:        position{line: 2882, col: 13, offset: 91134},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91131},
+																							pos:        position{line: 2882, col: 20, offset: 91141},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91140},
+																							pos:        position{line: 2882, col: 29, offset: 91150},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7157,9 +7157,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91300},
+																				pos: position{line: 2892, col: 8, offset: 91310},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91301,
+																					line: 2892, col: 9, offset: 91311,
 																				},
 																			},
 																		},
@@ -7191,18 +7191,18 @@ var g = &grammar{
 																							pos: position{line: 677, col: 14, offset: 21558},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2893, col: 11, offset: 91286},
+																									pos: position{line: 2890, col: 11, offset: 91296},
 																									expr: &anyMatcher{
-																										line: 2893, col: 13, offset: 91288,
+																										line: 2890, col: 13, offset: 91298,
 																									},
 																								},
 																								&zeroOrMoreExpr{
 																									pos: position{line: 677, col: 21, offset: 21565},
 																									expr: &actionExpr{
-																										pos: position{line: 2876, col: 10, offset: 90952},
+																										pos: position{line: 2873, col: 10, offset: 90962},
 																										run: (*parser).callonDocumentFragment666,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2876, col: 10, offset: 90952},
+																											pos:        position{line: 2873, col: 10, offset: 90962},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7211,28 +7211,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2898, col: 8, offset: 91350},
+																									pos: position{line: 2895, col: 8, offset: 91360},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2885, col: 12, offset: 91123},
+																											pos: position{line: 2882, col: 12, offset: 91133},
 																											run: (*parser).callonDocumentFragment669,
 																											expr: &choiceExpr{
-																												pos: position{line: 2885, col: 13, offset: 91124},
+																												pos: position{line: 2882, col: 13, offset: 91134},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 13, offset: 91124},
+																														pos:        position{line: 2882, col: 13, offset: 91134},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 20, offset: 91131},
+																														pos:        position{line: 2882, col: 20, offset: 91141},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 29, offset: 91140},
+																														pos:        position{line: 2882, col: 29, offset: 91150},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7241,9 +7241,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2895, col: 8, offset: 91300},
+																											pos: position{line: 2892, col: 8, offset: 91310},
 																											expr: &anyMatcher{
-																												line: 2895, col: 9, offset: 91301,
+																												line: 2892, col: 9, offset: 91311,
 																											},
 																										},
 																									},
@@ -7262,12 +7262,12 @@ var g = &grammar{
 																					pos:   position{line: 984, col: 5, offset: 30758},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2826, col: 14, offset: 89545},
+																						pos: position{line: 2823, col: 14, offset: 89555},
 																						run: (*parser).callonDocumentFragment678,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2826, col: 14, offset: 89545},
+																							pos: position{line: 2823, col: 14, offset: 89555},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2826, col: 14, offset: 89545},
+																								pos:        position{line: 2823, col: 14, offset: 89555},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7277,28 +7277,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2898, col: 8, offset: 91350},
+																					pos: position{line: 2895, col: 8, offset: 91360},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2885, col: 12, offset: 91123},
+																							pos: position{line: 2882, col: 12, offset: 91133},
 																							run: (*parser).callonDocumentFragment682,
 																							expr: &choiceExpr{
-																								pos: position{line: 2885, col: 13, offset: 91124},
+																								pos: position{line: 2882, col: 13, offset: 91134},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 13, offset: 91124},
+																										pos:        position{line: 2882, col: 13, offset: 91134},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 20, offset: 91131},
+																										pos:        position{line: 2882, col: 20, offset: 91141},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 29, offset: 91140},
+																										pos:        position{line: 2882, col: 29, offset: 91150},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7307,9 +7307,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2895, col: 8, offset: 91300},
+																							pos: position{line: 2892, col: 8, offset: 91310},
 																							expr: &anyMatcher{
-																								line: 2895, col: 9, offset: 91301,
+																								line: 2892, col: 9, offset: 91311,
 																							},
 																						},
 																					},
@@ -7318,21 +7318,21 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 1795, col: 5, offset: 58047},
+																		pos: position{line: 1792, col: 5, offset: 58036},
 																		run: (*parser).callonDocumentFragment689,
 																		expr: &seqExpr{
-																			pos: position{line: 1795, col: 5, offset: 58047},
+																			pos: position{line: 1792, col: 5, offset: 58036},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1795, col: 5, offset: 58047},
+																					pos:   position{line: 1792, col: 5, offset: 58036},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2826, col: 14, offset: 89545},
+																						pos: position{line: 2823, col: 14, offset: 89555},
 																						run: (*parser).callonDocumentFragment692,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2826, col: 14, offset: 89545},
+																							pos: position{line: 2823, col: 14, offset: 89555},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2826, col: 14, offset: 89545},
+																								pos:        position{line: 2823, col: 14, offset: 89555},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7342,32 +7342,32 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1796, col: 5, offset: 58071},
+																					pos: position{line: 1793, col: 5, offset: 58060},
 																					run: (*parser).callonDocumentFragment695,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2898, col: 8, offset: 91350},
+																					pos: position{line: 2895, col: 8, offset: 91360},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2885, col: 12, offset: 91123},
+																							pos: position{line: 2882, col: 12, offset: 91133},
 																							run: (*parser).callonDocumentFragment697,
 																							expr: &choiceExpr{
-																								pos: position{line: 2885, col: 13, offset: 91124},
+																								pos: position{line: 2882, col: 13, offset: 91134},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 13, offset: 91124},
+																										pos:        position{line: 2882, col: 13, offset: 91134},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 20, offset: 91131},
+																										pos:        position{line: 2882, col: 20, offset: 91141},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 29, offset: 91140},
+																										pos:        position{line: 2882, col: 29, offset: 91150},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7376,9 +7376,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2895, col: 8, offset: 91300},
+																							pos: position{line: 2892, col: 8, offset: 91310},
 																							expr: &anyMatcher{
-																								line: 2895, col: 9, offset: 91301,
+																								line: 2892, col: 9, offset: 91311,
 																							},
 																						},
 																					},
@@ -7425,10 +7425,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 778, col: 8, offset: 25023},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 90952},
+																			pos: position{line: 2873, col: 10, offset: 90962},
 																			run: (*parser).callonDocumentFragment713,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 90952},
+																				pos:        position{line: 2873, col: 10, offset: 90962},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7437,28 +7437,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91350},
+																		pos: position{line: 2895, col: 8, offset: 91360},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91123},
+																				pos: position{line: 2882, col: 12, offset: 91133},
 																				run: (*parser).callonDocumentFragment716,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91124},
+																					pos: position{line: 2882, col: 13, offset: 91134},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91124},
+																							pos:        position{line: 2882, col: 13, offset: 91134},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91131},
+																							pos:        position{line: 2882, col: 20, offset: 91141},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91140},
+																							pos:        position{line: 2882, col: 29, offset: 91150},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7467,9 +7467,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91300},
+																				pos: position{line: 2892, col: 8, offset: 91310},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91301,
+																					line: 2892, col: 9, offset: 91311,
 																				},
 																			},
 																		},
@@ -7517,10 +7517,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 778, col: 8, offset: 25023},
 																									expr: &actionExpr{
-																										pos: position{line: 2876, col: 10, offset: 90952},
+																										pos: position{line: 2873, col: 10, offset: 90962},
 																										run: (*parser).callonDocumentFragment735,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2876, col: 10, offset: 90952},
+																											pos:        position{line: 2873, col: 10, offset: 90962},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7529,28 +7529,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2898, col: 8, offset: 91350},
+																									pos: position{line: 2895, col: 8, offset: 91360},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2885, col: 12, offset: 91123},
+																											pos: position{line: 2882, col: 12, offset: 91133},
 																											run: (*parser).callonDocumentFragment738,
 																											expr: &choiceExpr{
-																												pos: position{line: 2885, col: 13, offset: 91124},
+																												pos: position{line: 2882, col: 13, offset: 91134},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 13, offset: 91124},
+																														pos:        position{line: 2882, col: 13, offset: 91134},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 20, offset: 91131},
+																														pos:        position{line: 2882, col: 20, offset: 91141},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 29, offset: 91140},
+																														pos:        position{line: 2882, col: 29, offset: 91150},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7559,9 +7559,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2895, col: 8, offset: 91300},
+																											pos: position{line: 2892, col: 8, offset: 91310},
 																											expr: &anyMatcher{
-																												line: 2895, col: 9, offset: 91301,
+																												line: 2892, col: 9, offset: 91311,
 																											},
 																										},
 																									},
@@ -7570,9 +7570,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91300},
+																						pos: position{line: 2892, col: 8, offset: 91310},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91301,
+																							line: 2892, col: 9, offset: 91311,
 																						},
 																					},
 																				},
@@ -7588,21 +7588,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26162},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2893, col: 11, offset: 91286},
+																							pos: position{line: 2890, col: 11, offset: 91296},
 																							expr: &anyMatcher{
-																								line: 2893, col: 13, offset: 91288,
+																								line: 2890, col: 13, offset: 91298,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26237},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2822, col: 13, offset: 89478},
+																								pos: position{line: 2819, col: 13, offset: 89488},
 																								run: (*parser).callonDocumentFragment753,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2822, col: 13, offset: 89478},
+																									pos: position{line: 2819, col: 13, offset: 89488},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2822, col: 13, offset: 89478},
+																										pos:        position{line: 2819, col: 13, offset: 89488},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7612,28 +7612,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91350},
+																							pos: position{line: 2895, col: 8, offset: 91360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91123},
+																									pos: position{line: 2882, col: 12, offset: 91133},
 																									run: (*parser).callonDocumentFragment757,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91124},
+																										pos: position{line: 2882, col: 13, offset: 91134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91124},
+																												pos:        position{line: 2882, col: 13, offset: 91134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91131},
+																												pos:        position{line: 2882, col: 20, offset: 91141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91140},
+																												pos:        position{line: 2882, col: 29, offset: 91150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7642,9 +7642,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91300},
+																									pos: position{line: 2892, col: 8, offset: 91310},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91301,
+																										line: 2892, col: 9, offset: 91311,
 																									},
 																								},
 																							},
@@ -7689,10 +7689,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 778, col: 8, offset: 25023},
 																					expr: &actionExpr{
-																						pos: position{line: 2876, col: 10, offset: 90952},
+																						pos: position{line: 2873, col: 10, offset: 90962},
 																						run: (*parser).callonDocumentFragment773,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2876, col: 10, offset: 90952},
+																							pos:        position{line: 2873, col: 10, offset: 90962},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7701,28 +7701,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2898, col: 8, offset: 91350},
+																					pos: position{line: 2895, col: 8, offset: 91360},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2885, col: 12, offset: 91123},
+																							pos: position{line: 2882, col: 12, offset: 91133},
 																							run: (*parser).callonDocumentFragment776,
 																							expr: &choiceExpr{
-																								pos: position{line: 2885, col: 13, offset: 91124},
+																								pos: position{line: 2882, col: 13, offset: 91134},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 13, offset: 91124},
+																										pos:        position{line: 2882, col: 13, offset: 91134},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 20, offset: 91131},
+																										pos:        position{line: 2882, col: 20, offset: 91141},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 29, offset: 91140},
+																										pos:        position{line: 2882, col: 29, offset: 91150},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7731,9 +7731,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2895, col: 8, offset: 91300},
+																							pos: position{line: 2892, col: 8, offset: 91310},
 																							expr: &anyMatcher{
-																								line: 2895, col: 9, offset: 91301,
+																								line: 2892, col: 9, offset: 91311,
 																							},
 																						},
 																					},
@@ -7742,9 +7742,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91300},
+																		pos: position{line: 2892, col: 8, offset: 91310},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91301,
+																			line: 2892, col: 9, offset: 91311,
 																		},
 																	},
 																},
@@ -7800,10 +7800,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 792, col: 8, offset: 25520},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 90952},
+																			pos: position{line: 2873, col: 10, offset: 90962},
 																			run: (*parser).callonDocumentFragment797,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 90952},
+																				pos:        position{line: 2873, col: 10, offset: 90962},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7812,28 +7812,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91350},
+																		pos: position{line: 2895, col: 8, offset: 91360},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91123},
+																				pos: position{line: 2882, col: 12, offset: 91133},
 																				run: (*parser).callonDocumentFragment800,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91124},
+																					pos: position{line: 2882, col: 13, offset: 91134},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91124},
+																							pos:        position{line: 2882, col: 13, offset: 91134},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91131},
+																							pos:        position{line: 2882, col: 20, offset: 91141},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91140},
+																							pos:        position{line: 2882, col: 29, offset: 91150},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7842,9 +7842,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91300},
+																				pos: position{line: 2892, col: 8, offset: 91310},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91301,
+																					line: 2892, col: 9, offset: 91311,
 																				},
 																			},
 																		},
@@ -7916,10 +7916,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 792, col: 8, offset: 25520},
 																												expr: &actionExpr{
-																													pos: position{line: 2876, col: 10, offset: 90952},
+																													pos: position{line: 2873, col: 10, offset: 90962},
 																													run: (*parser).callonDocumentFragment825,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2876, col: 10, offset: 90952},
+																														pos:        position{line: 2873, col: 10, offset: 90962},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7928,28 +7928,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2898, col: 8, offset: 91350},
+																												pos: position{line: 2895, col: 8, offset: 91360},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2885, col: 12, offset: 91123},
+																														pos: position{line: 2882, col: 12, offset: 91133},
 																														run: (*parser).callonDocumentFragment828,
 																														expr: &choiceExpr{
-																															pos: position{line: 2885, col: 13, offset: 91124},
+																															pos: position{line: 2882, col: 13, offset: 91134},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 13, offset: 91124},
+																																	pos:        position{line: 2882, col: 13, offset: 91134},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 20, offset: 91131},
+																																	pos:        position{line: 2882, col: 20, offset: 91141},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 29, offset: 91140},
+																																	pos:        position{line: 2882, col: 29, offset: 91150},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7958,9 +7958,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2895, col: 8, offset: 91300},
+																														pos: position{line: 2892, col: 8, offset: 91310},
 																														expr: &anyMatcher{
-																															line: 2895, col: 9, offset: 91301,
+																															line: 2892, col: 9, offset: 91311,
 																														},
 																													},
 																												},
@@ -7976,9 +7976,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91300},
+																						pos: position{line: 2892, col: 8, offset: 91310},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91301,
+																							line: 2892, col: 9, offset: 91311,
 																						},
 																					},
 																				},
@@ -7994,21 +7994,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26162},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2893, col: 11, offset: 91286},
+																							pos: position{line: 2890, col: 11, offset: 91296},
 																							expr: &anyMatcher{
-																								line: 2893, col: 13, offset: 91288,
+																								line: 2890, col: 13, offset: 91298,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26237},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2822, col: 13, offset: 89478},
+																								pos: position{line: 2819, col: 13, offset: 89488},
 																								run: (*parser).callonDocumentFragment844,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2822, col: 13, offset: 89478},
+																									pos: position{line: 2819, col: 13, offset: 89488},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2822, col: 13, offset: 89478},
+																										pos:        position{line: 2819, col: 13, offset: 89488},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8018,28 +8018,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91350},
+																							pos: position{line: 2895, col: 8, offset: 91360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91123},
+																									pos: position{line: 2882, col: 12, offset: 91133},
 																									run: (*parser).callonDocumentFragment848,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91124},
+																										pos: position{line: 2882, col: 13, offset: 91134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91124},
+																												pos:        position{line: 2882, col: 13, offset: 91134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91131},
+																												pos:        position{line: 2882, col: 20, offset: 91141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91140},
+																												pos:        position{line: 2882, col: 29, offset: 91150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8048,9 +8048,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91300},
+																									pos: position{line: 2892, col: 8, offset: 91310},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91301,
+																										line: 2892, col: 9, offset: 91311,
 																									},
 																								},
 																							},
@@ -8115,10 +8115,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 792, col: 8, offset: 25520},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 90952},
+																									pos: position{line: 2873, col: 10, offset: 90962},
 																									run: (*parser).callonDocumentFragment869,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 90952},
+																										pos:        position{line: 2873, col: 10, offset: 90962},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8127,28 +8127,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2898, col: 8, offset: 91350},
+																								pos: position{line: 2895, col: 8, offset: 91360},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2885, col: 12, offset: 91123},
+																										pos: position{line: 2882, col: 12, offset: 91133},
 																										run: (*parser).callonDocumentFragment872,
 																										expr: &choiceExpr{
-																											pos: position{line: 2885, col: 13, offset: 91124},
+																											pos: position{line: 2882, col: 13, offset: 91134},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 13, offset: 91124},
+																													pos:        position{line: 2882, col: 13, offset: 91134},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 20, offset: 91131},
+																													pos:        position{line: 2882, col: 20, offset: 91141},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 29, offset: 91140},
+																													pos:        position{line: 2882, col: 29, offset: 91150},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8157,9 +8157,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2895, col: 8, offset: 91300},
+																										pos: position{line: 2892, col: 8, offset: 91310},
 																										expr: &anyMatcher{
-																											line: 2895, col: 9, offset: 91301,
+																											line: 2892, col: 9, offset: 91311,
 																										},
 																									},
 																								},
@@ -8175,9 +8175,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91300},
+																		pos: position{line: 2892, col: 8, offset: 91310},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91301,
+																			line: 2892, col: 9, offset: 91311,
 																		},
 																	},
 																},
@@ -8233,10 +8233,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 799, col: 8, offset: 25770},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 90952},
+																			pos: position{line: 2873, col: 10, offset: 90962},
 																			run: (*parser).callonDocumentFragment894,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 90952},
+																				pos:        position{line: 2873, col: 10, offset: 90962},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8245,28 +8245,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91350},
+																		pos: position{line: 2895, col: 8, offset: 91360},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91123},
+																				pos: position{line: 2882, col: 12, offset: 91133},
 																				run: (*parser).callonDocumentFragment897,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91124},
+																					pos: position{line: 2882, col: 13, offset: 91134},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91124},
+																							pos:        position{line: 2882, col: 13, offset: 91134},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91131},
+																							pos:        position{line: 2882, col: 20, offset: 91141},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91140},
+																							pos:        position{line: 2882, col: 29, offset: 91150},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8275,9 +8275,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91300},
+																				pos: position{line: 2892, col: 8, offset: 91310},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91301,
+																					line: 2892, col: 9, offset: 91311,
 																				},
 																			},
 																		},
@@ -8349,10 +8349,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 799, col: 8, offset: 25770},
 																												expr: &actionExpr{
-																													pos: position{line: 2876, col: 10, offset: 90952},
+																													pos: position{line: 2873, col: 10, offset: 90962},
 																													run: (*parser).callonDocumentFragment922,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2876, col: 10, offset: 90952},
+																														pos:        position{line: 2873, col: 10, offset: 90962},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8361,28 +8361,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2898, col: 8, offset: 91350},
+																												pos: position{line: 2895, col: 8, offset: 91360},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2885, col: 12, offset: 91123},
+																														pos: position{line: 2882, col: 12, offset: 91133},
 																														run: (*parser).callonDocumentFragment925,
 																														expr: &choiceExpr{
-																															pos: position{line: 2885, col: 13, offset: 91124},
+																															pos: position{line: 2882, col: 13, offset: 91134},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 13, offset: 91124},
+																																	pos:        position{line: 2882, col: 13, offset: 91134},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 20, offset: 91131},
+																																	pos:        position{line: 2882, col: 20, offset: 91141},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 29, offset: 91140},
+																																	pos:        position{line: 2882, col: 29, offset: 91150},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8391,9 +8391,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2895, col: 8, offset: 91300},
+																														pos: position{line: 2892, col: 8, offset: 91310},
 																														expr: &anyMatcher{
-																															line: 2895, col: 9, offset: 91301,
+																															line: 2892, col: 9, offset: 91311,
 																														},
 																													},
 																												},
@@ -8409,9 +8409,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91300},
+																						pos: position{line: 2892, col: 8, offset: 91310},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91301,
+																							line: 2892, col: 9, offset: 91311,
 																						},
 																					},
 																				},
@@ -8427,21 +8427,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26162},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2893, col: 11, offset: 91286},
+																							pos: position{line: 2890, col: 11, offset: 91296},
 																							expr: &anyMatcher{
-																								line: 2893, col: 13, offset: 91288,
+																								line: 2890, col: 13, offset: 91298,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26237},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2822, col: 13, offset: 89478},
+																								pos: position{line: 2819, col: 13, offset: 89488},
 																								run: (*parser).callonDocumentFragment941,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2822, col: 13, offset: 89478},
+																									pos: position{line: 2819, col: 13, offset: 89488},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2822, col: 13, offset: 89478},
+																										pos:        position{line: 2819, col: 13, offset: 89488},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8451,28 +8451,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91350},
+																							pos: position{line: 2895, col: 8, offset: 91360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91123},
+																									pos: position{line: 2882, col: 12, offset: 91133},
 																									run: (*parser).callonDocumentFragment945,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91124},
+																										pos: position{line: 2882, col: 13, offset: 91134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91124},
+																												pos:        position{line: 2882, col: 13, offset: 91134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91131},
+																												pos:        position{line: 2882, col: 20, offset: 91141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91140},
+																												pos:        position{line: 2882, col: 29, offset: 91150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8481,9 +8481,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91300},
+																									pos: position{line: 2892, col: 8, offset: 91310},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91301,
+																										line: 2892, col: 9, offset: 91311,
 																									},
 																								},
 																							},
@@ -8548,10 +8548,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 799, col: 8, offset: 25770},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 90952},
+																									pos: position{line: 2873, col: 10, offset: 90962},
 																									run: (*parser).callonDocumentFragment966,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 90952},
+																										pos:        position{line: 2873, col: 10, offset: 90962},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8560,28 +8560,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2898, col: 8, offset: 91350},
+																								pos: position{line: 2895, col: 8, offset: 91360},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2885, col: 12, offset: 91123},
+																										pos: position{line: 2882, col: 12, offset: 91133},
 																										run: (*parser).callonDocumentFragment969,
 																										expr: &choiceExpr{
-																											pos: position{line: 2885, col: 13, offset: 91124},
+																											pos: position{line: 2882, col: 13, offset: 91134},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 13, offset: 91124},
+																													pos:        position{line: 2882, col: 13, offset: 91134},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 20, offset: 91131},
+																													pos:        position{line: 2882, col: 20, offset: 91141},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 29, offset: 91140},
+																													pos:        position{line: 2882, col: 29, offset: 91150},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8590,9 +8590,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2895, col: 8, offset: 91300},
+																										pos: position{line: 2892, col: 8, offset: 91310},
 																										expr: &anyMatcher{
-																											line: 2895, col: 9, offset: 91301,
+																											line: 2892, col: 9, offset: 91311,
 																										},
 																									},
 																								},
@@ -8608,9 +8608,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91300},
+																		pos: position{line: 2892, col: 8, offset: 91310},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91301,
+																			line: 2892, col: 9, offset: 91311,
 																		},
 																	},
 																},
@@ -8666,10 +8666,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 806, col: 8, offset: 26016},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 90952},
+																			pos: position{line: 2873, col: 10, offset: 90962},
 																			run: (*parser).callonDocumentFragment991,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 90952},
+																				pos:        position{line: 2873, col: 10, offset: 90962},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8678,28 +8678,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91350},
+																		pos: position{line: 2895, col: 8, offset: 91360},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91123},
+																				pos: position{line: 2882, col: 12, offset: 91133},
 																				run: (*parser).callonDocumentFragment994,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91124},
+																					pos: position{line: 2882, col: 13, offset: 91134},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91124},
+																							pos:        position{line: 2882, col: 13, offset: 91134},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91131},
+																							pos:        position{line: 2882, col: 20, offset: 91141},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91140},
+																							pos:        position{line: 2882, col: 29, offset: 91150},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8708,9 +8708,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91300},
+																				pos: position{line: 2892, col: 8, offset: 91310},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91301,
+																					line: 2892, col: 9, offset: 91311,
 																				},
 																			},
 																		},
@@ -8782,10 +8782,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 806, col: 8, offset: 26016},
 																												expr: &actionExpr{
-																													pos: position{line: 2876, col: 10, offset: 90952},
+																													pos: position{line: 2873, col: 10, offset: 90962},
 																													run: (*parser).callonDocumentFragment1019,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2876, col: 10, offset: 90952},
+																														pos:        position{line: 2873, col: 10, offset: 90962},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8794,28 +8794,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2898, col: 8, offset: 91350},
+																												pos: position{line: 2895, col: 8, offset: 91360},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2885, col: 12, offset: 91123},
+																														pos: position{line: 2882, col: 12, offset: 91133},
 																														run: (*parser).callonDocumentFragment1022,
 																														expr: &choiceExpr{
-																															pos: position{line: 2885, col: 13, offset: 91124},
+																															pos: position{line: 2882, col: 13, offset: 91134},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 13, offset: 91124},
+																																	pos:        position{line: 2882, col: 13, offset: 91134},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 20, offset: 91131},
+																																	pos:        position{line: 2882, col: 20, offset: 91141},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 29, offset: 91140},
+																																	pos:        position{line: 2882, col: 29, offset: 91150},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8824,9 +8824,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2895, col: 8, offset: 91300},
+																														pos: position{line: 2892, col: 8, offset: 91310},
 																														expr: &anyMatcher{
-																															line: 2895, col: 9, offset: 91301,
+																															line: 2892, col: 9, offset: 91311,
 																														},
 																													},
 																												},
@@ -8842,9 +8842,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91300},
+																						pos: position{line: 2892, col: 8, offset: 91310},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91301,
+																							line: 2892, col: 9, offset: 91311,
 																						},
 																					},
 																				},
@@ -8860,21 +8860,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26162},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2893, col: 11, offset: 91286},
+																							pos: position{line: 2890, col: 11, offset: 91296},
 																							expr: &anyMatcher{
-																								line: 2893, col: 13, offset: 91288,
+																								line: 2890, col: 13, offset: 91298,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26237},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2822, col: 13, offset: 89478},
+																								pos: position{line: 2819, col: 13, offset: 89488},
 																								run: (*parser).callonDocumentFragment1038,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2822, col: 13, offset: 89478},
+																									pos: position{line: 2819, col: 13, offset: 89488},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2822, col: 13, offset: 89478},
+																										pos:        position{line: 2819, col: 13, offset: 89488},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8884,28 +8884,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91350},
+																							pos: position{line: 2895, col: 8, offset: 91360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91123},
+																									pos: position{line: 2882, col: 12, offset: 91133},
 																									run: (*parser).callonDocumentFragment1042,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91124},
+																										pos: position{line: 2882, col: 13, offset: 91134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91124},
+																												pos:        position{line: 2882, col: 13, offset: 91134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91131},
+																												pos:        position{line: 2882, col: 20, offset: 91141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91140},
+																												pos:        position{line: 2882, col: 29, offset: 91150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8914,9 +8914,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91300},
+																									pos: position{line: 2892, col: 8, offset: 91310},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91301,
+																										line: 2892, col: 9, offset: 91311,
 																									},
 																								},
 																							},
@@ -8981,10 +8981,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 806, col: 8, offset: 26016},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 90952},
+																									pos: position{line: 2873, col: 10, offset: 90962},
 																									run: (*parser).callonDocumentFragment1063,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 90952},
+																										pos:        position{line: 2873, col: 10, offset: 90962},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8993,28 +8993,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2898, col: 8, offset: 91350},
+																								pos: position{line: 2895, col: 8, offset: 91360},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2885, col: 12, offset: 91123},
+																										pos: position{line: 2882, col: 12, offset: 91133},
 																										run: (*parser).callonDocumentFragment1066,
 																										expr: &choiceExpr{
-																											pos: position{line: 2885, col: 13, offset: 91124},
+																											pos: position{line: 2882, col: 13, offset: 91134},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 13, offset: 91124},
+																													pos:        position{line: 2882, col: 13, offset: 91134},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 20, offset: 91131},
+																													pos:        position{line: 2882, col: 20, offset: 91141},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 29, offset: 91140},
+																													pos:        position{line: 2882, col: 29, offset: 91150},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -9023,9 +9023,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2895, col: 8, offset: 91300},
+																										pos: position{line: 2892, col: 8, offset: 91310},
 																										expr: &anyMatcher{
-																											line: 2895, col: 9, offset: 91301,
+																											line: 2892, col: 9, offset: 91311,
 																										},
 																									},
 																								},
@@ -9041,9 +9041,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91300},
+																		pos: position{line: 2892, col: 8, offset: 91310},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91301,
+																			line: 2892, col: 9, offset: 91311,
 																		},
 																	},
 																},
@@ -9054,52 +9054,52 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2721, col: 18, offset: 86547},
+											pos: position{line: 2718, col: 18, offset: 86536},
 											run: (*parser).callonDocumentFragment1076,
 											expr: &seqExpr{
-												pos: position{line: 2721, col: 18, offset: 86547},
+												pos: position{line: 2718, col: 18, offset: 86536},
 												exprs: []interface{}{
 													&choiceExpr{
-														pos: position{line: 2722, col: 9, offset: 86557},
+														pos: position{line: 2719, col: 9, offset: 86546},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2722, col: 9, offset: 86557},
+																pos:        position{line: 2719, col: 9, offset: 86546},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2723, col: 11, offset: 86593},
+																pos:        position{line: 2720, col: 11, offset: 86582},
 																val:        "***",
 																ignoreCase: false,
 																want:       "\"***\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2723, col: 19, offset: 86601},
+																pos:        position{line: 2720, col: 19, offset: 86590},
 																val:        "* * *",
 																ignoreCase: false,
 																want:       "\"* * *\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2723, col: 29, offset: 86611},
+																pos:        position{line: 2720, col: 29, offset: 86600},
 																val:        "---",
 																ignoreCase: false,
 																want:       "\"---\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2723, col: 37, offset: 86619},
+																pos:        position{line: 2720, col: 37, offset: 86608},
 																val:        "- - -",
 																ignoreCase: false,
 																want:       "\"- - -\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2723, col: 47, offset: 86629},
+																pos:        position{line: 2720, col: 47, offset: 86618},
 																val:        "___",
 																ignoreCase: false,
 																want:       "\"___\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2723, col: 55, offset: 86637},
+																pos:        position{line: 2720, col: 55, offset: 86626},
 																val:        "_ _ _",
 																ignoreCase: false,
 																want:       "\"_ _ _\"",
@@ -9107,12 +9107,12 @@ var g = &grammar{
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2724, col: 11, offset: 86683},
+														pos: position{line: 2721, col: 11, offset: 86672},
 														expr: &actionExpr{
-															pos: position{line: 2876, col: 10, offset: 90952},
+															pos: position{line: 2873, col: 10, offset: 90962},
 															run: (*parser).callonDocumentFragment1087,
 															expr: &charClassMatcher{
-																pos:        position{line: 2876, col: 10, offset: 90952},
+																pos:        position{line: 2873, col: 10, offset: 90962},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9121,28 +9121,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2898, col: 8, offset: 91350},
+														pos: position{line: 2895, col: 8, offset: 91360},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2885, col: 12, offset: 91123},
+																pos: position{line: 2882, col: 12, offset: 91133},
 																run: (*parser).callonDocumentFragment1090,
 																expr: &choiceExpr{
-																	pos: position{line: 2885, col: 13, offset: 91124},
+																	pos: position{line: 2882, col: 13, offset: 91134},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 13, offset: 91124},
+																			pos:        position{line: 2882, col: 13, offset: 91134},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 20, offset: 91131},
+																			pos:        position{line: 2882, col: 20, offset: 91141},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 29, offset: 91140},
+																			pos:        position{line: 2882, col: 29, offset: 91150},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9151,20 +9151,20 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91300},
+																pos: position{line: 2892, col: 8, offset: 91310},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91301,
+																	line: 2892, col: 9, offset: 91311,
 																},
 															},
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2724, col: 22, offset: 86694},
+														pos: position{line: 2721, col: 22, offset: 86683},
 														expr: &actionExpr{
-															pos: position{line: 2876, col: 10, offset: 90952},
+															pos: position{line: 2873, col: 10, offset: 90962},
 															run: (*parser).callonDocumentFragment1098,
 															expr: &charClassMatcher{
-																pos:        position{line: 2876, col: 10, offset: 90952},
+																pos:        position{line: 2873, col: 10, offset: 90962},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9173,28 +9173,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2898, col: 8, offset: 91350},
+														pos: position{line: 2895, col: 8, offset: 91360},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2885, col: 12, offset: 91123},
+																pos: position{line: 2882, col: 12, offset: 91133},
 																run: (*parser).callonDocumentFragment1101,
 																expr: &choiceExpr{
-																	pos: position{line: 2885, col: 13, offset: 91124},
+																	pos: position{line: 2882, col: 13, offset: 91134},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 13, offset: 91124},
+																			pos:        position{line: 2882, col: 13, offset: 91134},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 20, offset: 91131},
+																			pos:        position{line: 2882, col: 20, offset: 91141},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 29, offset: 91140},
+																			pos:        position{line: 2882, col: 29, offset: 91150},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9203,9 +9203,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91300},
+																pos: position{line: 2892, col: 8, offset: 91310},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91301,
+																	line: 2892, col: 9, offset: 91311,
 																},
 															},
 														},
@@ -9218,24 +9218,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2612, col: 5, offset: 83483},
+											pos: position{line: 2609, col: 5, offset: 83472},
 											run: (*parser).callonDocumentFragment1109,
 											expr: &seqExpr{
-												pos: position{line: 2612, col: 5, offset: 83483},
+												pos: position{line: 2609, col: 5, offset: 83472},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2618, col: 19, offset: 83640},
+														pos:        position{line: 2615, col: 19, offset: 83629},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2618, col: 26, offset: 83647},
+														pos: position{line: 2615, col: 26, offset: 83636},
 														expr: &actionExpr{
-															pos: position{line: 2876, col: 10, offset: 90952},
+															pos: position{line: 2873, col: 10, offset: 90962},
 															run: (*parser).callonDocumentFragment1113,
 															expr: &charClassMatcher{
-																pos:        position{line: 2876, col: 10, offset: 90952},
+																pos:        position{line: 2873, col: 10, offset: 90962},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9244,28 +9244,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2898, col: 8, offset: 91350},
+														pos: position{line: 2895, col: 8, offset: 91360},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2885, col: 12, offset: 91123},
+																pos: position{line: 2882, col: 12, offset: 91133},
 																run: (*parser).callonDocumentFragment1116,
 																expr: &choiceExpr{
-																	pos: position{line: 2885, col: 13, offset: 91124},
+																	pos: position{line: 2882, col: 13, offset: 91134},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 13, offset: 91124},
+																			pos:        position{line: 2882, col: 13, offset: 91134},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 20, offset: 91131},
+																			pos:        position{line: 2882, col: 20, offset: 91141},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 29, offset: 91140},
+																			pos:        position{line: 2882, col: 29, offset: 91150},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9274,20 +9274,20 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91300},
+																pos: position{line: 2892, col: 8, offset: 91310},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91301,
+																	line: 2892, col: 9, offset: 91311,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2613, col: 5, offset: 83507},
+														pos:   position{line: 2610, col: 5, offset: 83496},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2613, col: 11, offset: 83513},
+															pos: position{line: 2610, col: 11, offset: 83502},
 															expr: &choiceExpr{
-																pos: position{line: 2613, col: 12, offset: 83514},
+																pos: position{line: 2610, col: 12, offset: 83503},
 																alternatives: []interface{}{
 																	&actionExpr{
 																		pos: position{line: 677, col: 14, offset: 21558},
@@ -9296,18 +9296,18 @@ var g = &grammar{
 																			pos: position{line: 677, col: 14, offset: 21558},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2893, col: 11, offset: 91286},
+																					pos: position{line: 2890, col: 11, offset: 91296},
 																					expr: &anyMatcher{
-																						line: 2893, col: 13, offset: 91288,
+																						line: 2890, col: 13, offset: 91298,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21565},
 																					expr: &actionExpr{
-																						pos: position{line: 2876, col: 10, offset: 90952},
+																						pos: position{line: 2873, col: 10, offset: 90962},
 																						run: (*parser).callonDocumentFragment1131,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2876, col: 10, offset: 90952},
+																							pos:        position{line: 2873, col: 10, offset: 90962},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9316,28 +9316,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2898, col: 8, offset: 91350},
+																					pos: position{line: 2895, col: 8, offset: 91360},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2885, col: 12, offset: 91123},
+																							pos: position{line: 2882, col: 12, offset: 91133},
 																							run: (*parser).callonDocumentFragment1134,
 																							expr: &choiceExpr{
-																								pos: position{line: 2885, col: 13, offset: 91124},
+																								pos: position{line: 2882, col: 13, offset: 91134},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 13, offset: 91124},
+																										pos:        position{line: 2882, col: 13, offset: 91134},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 20, offset: 91131},
+																										pos:        position{line: 2882, col: 20, offset: 91141},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 29, offset: 91140},
+																										pos:        position{line: 2882, col: 29, offset: 91150},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9346,9 +9346,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2895, col: 8, offset: 91300},
+																							pos: position{line: 2892, col: 8, offset: 91310},
 																							expr: &anyMatcher{
-																								line: 2895, col: 9, offset: 91301,
+																								line: 2892, col: 9, offset: 91311,
 																							},
 																						},
 																					},
@@ -9357,32 +9357,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2625, col: 5, offset: 83759},
+																		pos: position{line: 2622, col: 5, offset: 83748},
 																		run: (*parser).callonDocumentFragment1141,
 																		expr: &seqExpr{
-																			pos: position{line: 2625, col: 5, offset: 83759},
+																			pos: position{line: 2622, col: 5, offset: 83748},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2625, col: 5, offset: 83759},
+																					pos: position{line: 2622, col: 5, offset: 83748},
 																					expr: &choiceExpr{
-																						pos: position{line: 2622, col: 22, offset: 83720},
+																						pos: position{line: 2619, col: 22, offset: 83709},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2618, col: 19, offset: 83640},
+																								pos: position{line: 2615, col: 19, offset: 83629},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2618, col: 19, offset: 83640},
+																										pos:        position{line: 2615, col: 19, offset: 83629},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2618, col: 26, offset: 83647},
+																										pos: position{line: 2615, col: 26, offset: 83636},
 																										expr: &actionExpr{
-																											pos: position{line: 2876, col: 10, offset: 90952},
+																											pos: position{line: 2873, col: 10, offset: 90962},
 																											run: (*parser).callonDocumentFragment1148,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2876, col: 10, offset: 90952},
+																												pos:        position{line: 2873, col: 10, offset: 90962},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9391,28 +9391,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2898, col: 8, offset: 91350},
+																										pos: position{line: 2895, col: 8, offset: 91360},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2885, col: 12, offset: 91123},
+																												pos: position{line: 2882, col: 12, offset: 91133},
 																												run: (*parser).callonDocumentFragment1151,
 																												expr: &choiceExpr{
-																													pos: position{line: 2885, col: 13, offset: 91124},
+																													pos: position{line: 2882, col: 13, offset: 91134},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2885, col: 13, offset: 91124},
+																															pos:        position{line: 2882, col: 13, offset: 91134},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2885, col: 20, offset: 91131},
+																															pos:        position{line: 2882, col: 20, offset: 91141},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2885, col: 29, offset: 91140},
+																															pos:        position{line: 2882, col: 29, offset: 91150},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9421,9 +9421,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2895, col: 8, offset: 91300},
+																												pos: position{line: 2892, col: 8, offset: 91310},
 																												expr: &anyMatcher{
-																													line: 2895, col: 9, offset: 91301,
+																													line: 2892, col: 9, offset: 91311,
 																												},
 																											},
 																										},
@@ -9431,59 +9431,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91300},
+																								pos: position{line: 2892, col: 8, offset: 91310},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91301,
+																									line: 2892, col: 9, offset: 91311,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2626, col: 5, offset: 83782},
+																					pos:   position{line: 2623, col: 5, offset: 83771},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2627, col: 9, offset: 83800},
+																						pos: position{line: 2624, col: 9, offset: 83789},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2627, col: 10, offset: 83801},
+																								pos: position{line: 2624, col: 10, offset: 83790},
 																								run: (*parser).callonDocumentFragment1162,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2627, col: 10, offset: 83801},
+																									pos:   position{line: 2624, col: 10, offset: 83790},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2627, col: 17, offset: 83808},
+																										pos: position{line: 2624, col: 17, offset: 83797},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2635, col: 21, offset: 84004},
+																												pos: position{line: 2632, col: 21, offset: 83993},
 																												run: (*parser).callonDocumentFragment1165,
 																												expr: &seqExpr{
-																													pos: position{line: 2635, col: 21, offset: 84004},
+																													pos: position{line: 2632, col: 21, offset: 83993},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2635, col: 21, offset: 84004},
+																															pos:   position{line: 2632, col: 21, offset: 83993},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2635, col: 27, offset: 84010},
+																																pos: position{line: 2632, col: 27, offset: 83999},
 																																expr: &actionExpr{
-																																	pos: position{line: 2640, col: 5, offset: 84085},
+																																	pos: position{line: 2637, col: 5, offset: 84074},
 																																	run: (*parser).callonDocumentFragment1169,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2640, col: 5, offset: 84085},
+																																		pos: position{line: 2637, col: 5, offset: 84074},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2640, col: 5, offset: 84085},
+																																				pos:        position{line: 2637, col: 5, offset: 84074},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2640, col: 9, offset: 84089},
+																																				pos: position{line: 2637, col: 9, offset: 84078},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2876, col: 10, offset: 90952},
+																																					pos: position{line: 2873, col: 10, offset: 90962},
 																																					run: (*parser).callonDocumentFragment1173,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2876, col: 10, offset: 90952},
+																																						pos:        position{line: 2873, col: 10, offset: 90962},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9492,21 +9492,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2640, col: 16, offset: 84096},
+																																				pos:   position{line: 2637, col: 16, offset: 84085},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2646, col: 5, offset: 84296},
+																																					pos: position{line: 2643, col: 5, offset: 84285},
 																																					run: (*parser).callonDocumentFragment1176,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2646, col: 5, offset: 84296},
+																																						pos:   position{line: 2643, col: 5, offset: 84285},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2646, col: 14, offset: 84305},
+																																							pos: position{line: 2643, col: 14, offset: 84294},
 																																							run: (*parser).callonDocumentFragment1178,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2646, col: 14, offset: 84305},
+																																								pos: position{line: 2643, col: 14, offset: 84294},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2646, col: 14, offset: 84305},
+																																									pos:        position{line: 2643, col: 14, offset: 84294},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9523,28 +9523,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2898, col: 8, offset: 91350},
+																															pos: position{line: 2895, col: 8, offset: 91360},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2885, col: 12, offset: 91123},
+																																	pos: position{line: 2882, col: 12, offset: 91133},
 																																	run: (*parser).callonDocumentFragment1182,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2885, col: 13, offset: 91124},
+																																		pos: position{line: 2882, col: 13, offset: 91134},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2885, col: 13, offset: 91124},
+																																				pos:        position{line: 2882, col: 13, offset: 91134},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2885, col: 20, offset: 91131},
+																																				pos:        position{line: 2882, col: 20, offset: 91141},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2885, col: 29, offset: 91140},
+																																				pos:        position{line: 2882, col: 29, offset: 91150},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9553,9 +9553,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2895, col: 8, offset: 91300},
+																																	pos: position{line: 2892, col: 8, offset: 91310},
 																																	expr: &anyMatcher{
-																																		line: 2895, col: 9, offset: 91301,
+																																		line: 2892, col: 9, offset: 91311,
 																																	},
 																																},
 																															},
@@ -9564,40 +9564,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2652, col: 24, offset: 84441},
+																												pos: position{line: 2649, col: 24, offset: 84430},
 																												run: (*parser).callonDocumentFragment1189,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2652, col: 24, offset: 84441},
+																													pos:   position{line: 2649, col: 24, offset: 84430},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2652, col: 30, offset: 84447},
+																														pos: position{line: 2649, col: 30, offset: 84436},
 																														expr: &actionExpr{
-																															pos: position{line: 2657, col: 5, offset: 84523},
+																															pos: position{line: 2654, col: 5, offset: 84512},
 																															run: (*parser).callonDocumentFragment1192,
 																															expr: &seqExpr{
-																																pos: position{line: 2657, col: 5, offset: 84523},
+																																pos: position{line: 2654, col: 5, offset: 84512},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2657, col: 5, offset: 84523},
+																																		pos: position{line: 2654, col: 5, offset: 84512},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2622, col: 22, offset: 83720},
+																																			pos: position{line: 2619, col: 22, offset: 83709},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2618, col: 19, offset: 83640},
+																																					pos: position{line: 2615, col: 19, offset: 83629},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2618, col: 19, offset: 83640},
+																																							pos:        position{line: 2615, col: 19, offset: 83629},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2618, col: 26, offset: 83647},
+																																							pos: position{line: 2615, col: 26, offset: 83636},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2876, col: 10, offset: 90952},
+																																								pos: position{line: 2873, col: 10, offset: 90962},
 																																								run: (*parser).callonDocumentFragment1199,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2876, col: 10, offset: 90952},
+																																									pos:        position{line: 2873, col: 10, offset: 90962},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9606,28 +9606,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2898, col: 8, offset: 91350},
+																																							pos: position{line: 2895, col: 8, offset: 91360},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2885, col: 12, offset: 91123},
+																																									pos: position{line: 2882, col: 12, offset: 91133},
 																																									run: (*parser).callonDocumentFragment1202,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2885, col: 13, offset: 91124},
+																																										pos: position{line: 2882, col: 13, offset: 91134},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2885, col: 13, offset: 91124},
+																																												pos:        position{line: 2882, col: 13, offset: 91134},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2885, col: 20, offset: 91131},
+																																												pos:        position{line: 2882, col: 20, offset: 91141},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2885, col: 29, offset: 91140},
+																																												pos:        position{line: 2882, col: 29, offset: 91150},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9636,9 +9636,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2895, col: 8, offset: 91300},
+																																									pos: position{line: 2892, col: 8, offset: 91310},
 																																									expr: &anyMatcher{
-																																										line: 2895, col: 9, offset: 91301,
+																																										line: 2892, col: 9, offset: 91311,
 																																									},
 																																								},
 																																							},
@@ -9646,16 +9646,16 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2895, col: 8, offset: 91300},
+																																					pos: position{line: 2892, col: 8, offset: 91310},
 																																					expr: &anyMatcher{
-																																						line: 2895, col: 9, offset: 91301,
+																																						line: 2892, col: 9, offset: 91311,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2658, col: 5, offset: 84546},
+																																		pos: position{line: 2655, col: 5, offset: 84535},
 																																		expr: &actionExpr{
 																																			pos: position{line: 677, col: 14, offset: 21558},
 																																			run: (*parser).callonDocumentFragment1212,
@@ -9663,18 +9663,18 @@ var g = &grammar{
 																																				pos: position{line: 677, col: 14, offset: 21558},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2893, col: 11, offset: 91286},
+																																						pos: position{line: 2890, col: 11, offset: 91296},
 																																						expr: &anyMatcher{
-																																							line: 2893, col: 13, offset: 91288,
+																																							line: 2890, col: 13, offset: 91298,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
 																																						pos: position{line: 677, col: 21, offset: 21565},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2876, col: 10, offset: 90952},
+																																							pos: position{line: 2873, col: 10, offset: 90962},
 																																							run: (*parser).callonDocumentFragment1217,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2876, col: 10, offset: 90952},
+																																								pos:        position{line: 2873, col: 10, offset: 90962},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9683,28 +9683,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2898, col: 8, offset: 91350},
+																																						pos: position{line: 2895, col: 8, offset: 91360},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2885, col: 12, offset: 91123},
+																																								pos: position{line: 2882, col: 12, offset: 91133},
 																																								run: (*parser).callonDocumentFragment1220,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2885, col: 13, offset: 91124},
+																																									pos: position{line: 2882, col: 13, offset: 91134},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2885, col: 13, offset: 91124},
+																																											pos:        position{line: 2882, col: 13, offset: 91134},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2885, col: 20, offset: 91131},
+																																											pos:        position{line: 2882, col: 20, offset: 91141},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2885, col: 29, offset: 91140},
+																																											pos:        position{line: 2882, col: 29, offset: 91150},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9713,9 +9713,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2895, col: 8, offset: 91300},
+																																								pos: position{line: 2892, col: 8, offset: 91310},
 																																								expr: &anyMatcher{
-																																									line: 2895, col: 9, offset: 91301,
+																																									line: 2892, col: 9, offset: 91311,
 																																								},
 																																							},
 																																						},
@@ -9725,17 +9725,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2659, col: 5, offset: 84561},
+																																		pos:   position{line: 2656, col: 5, offset: 84550},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2659, col: 12, offset: 84568},
+																																			pos: position{line: 2656, col: 12, offset: 84557},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2676, col: 20, offset: 85032},
+																																				pos: position{line: 2673, col: 20, offset: 85021},
 																																				run: (*parser).callonDocumentFragment1229,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2676, col: 20, offset: 85032},
+																																					pos: position{line: 2673, col: 20, offset: 85021},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2676, col: 20, offset: 85032},
+																																						pos:        position{line: 2673, col: 20, offset: 85021},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9746,18 +9746,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2659, col: 31, offset: 84587},
+																																		pos:        position{line: 2656, col: 31, offset: 84576},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2659, col: 35, offset: 84591},
+																																		pos: position{line: 2656, col: 35, offset: 84580},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2876, col: 10, offset: 90952},
+																																			pos: position{line: 2873, col: 10, offset: 90962},
 																																			run: (*parser).callonDocumentFragment1234,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2876, col: 10, offset: 90952},
+																																				pos:        position{line: 2873, col: 10, offset: 90962},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9766,27 +9766,27 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2659, col: 42, offset: 84598},
+																																		pos: position{line: 2656, col: 42, offset: 84587},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2885, col: 12, offset: 91123},
+																																			pos: position{line: 2882, col: 12, offset: 91133},
 																																			run: (*parser).callonDocumentFragment1237,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2885, col: 13, offset: 91124},
+																																				pos: position{line: 2882, col: 13, offset: 91134},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2885, col: 13, offset: 91124},
+																																						pos:        position{line: 2882, col: 13, offset: 91134},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2885, col: 20, offset: 91131},
+																																						pos:        position{line: 2882, col: 20, offset: 91141},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2885, col: 29, offset: 91140},
+																																						pos:        position{line: 2882, col: 29, offset: 91150},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9796,37 +9796,37 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2659, col: 51, offset: 84607},
+																																		pos:   position{line: 2656, col: 51, offset: 84596},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2665, col: 5, offset: 84766},
+																																			pos: position{line: 2662, col: 5, offset: 84755},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2666, col: 9, offset: 84776},
+																																				pos: position{line: 2663, col: 9, offset: 84765},
 																																				run: (*parser).callonDocumentFragment1244,
 																																				expr: &seqExpr{
-																																					pos: position{line: 2666, col: 9, offset: 84776},
+																																					pos: position{line: 2663, col: 9, offset: 84765},
 																																					exprs: []interface{}{
 																																						&notExpr{
-																																							pos: position{line: 2666, col: 9, offset: 84776},
+																																							pos: position{line: 2663, col: 9, offset: 84765},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2622, col: 22, offset: 83720},
+																																								pos: position{line: 2619, col: 22, offset: 83709},
 																																								alternatives: []interface{}{
 																																									&seqExpr{
-																																										pos: position{line: 2618, col: 19, offset: 83640},
+																																										pos: position{line: 2615, col: 19, offset: 83629},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2618, col: 19, offset: 83640},
+																																												pos:        position{line: 2615, col: 19, offset: 83629},
 																																												val:        "|===",
 																																												ignoreCase: false,
 																																												want:       "\"|===\"",
 																																											},
 																																											&zeroOrMoreExpr{
-																																												pos: position{line: 2618, col: 26, offset: 83647},
+																																												pos: position{line: 2615, col: 26, offset: 83636},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2876, col: 10, offset: 90952},
+																																													pos: position{line: 2873, col: 10, offset: 90962},
 																																													run: (*parser).callonDocumentFragment1251,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2876, col: 10, offset: 90952},
+																																														pos:        position{line: 2873, col: 10, offset: 90962},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -9835,28 +9835,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2898, col: 8, offset: 91350},
+																																												pos: position{line: 2895, col: 8, offset: 91360},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2885, col: 12, offset: 91123},
+																																														pos: position{line: 2882, col: 12, offset: 91133},
 																																														run: (*parser).callonDocumentFragment1254,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2885, col: 13, offset: 91124},
+																																															pos: position{line: 2882, col: 13, offset: 91134},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2885, col: 13, offset: 91124},
+																																																	pos:        position{line: 2882, col: 13, offset: 91134},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2885, col: 20, offset: 91131},
+																																																	pos:        position{line: 2882, col: 20, offset: 91141},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2885, col: 29, offset: 91140},
+																																																	pos:        position{line: 2882, col: 29, offset: 91150},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -9865,9 +9865,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2895, col: 8, offset: 91300},
+																																														pos: position{line: 2892, col: 8, offset: 91310},
 																																														expr: &anyMatcher{
-																																															line: 2895, col: 9, offset: 91301,
+																																															line: 2892, col: 9, offset: 91311,
 																																														},
 																																													},
 																																												},
@@ -9875,16 +9875,16 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2895, col: 8, offset: 91300},
+																																										pos: position{line: 2892, col: 8, offset: 91310},
 																																										expr: &anyMatcher{
-																																											line: 2895, col: 9, offset: 91301,
+																																											line: 2892, col: 9, offset: 91311,
 																																										},
 																																									},
 																																								},
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2667, col: 9, offset: 84803},
+																																							pos: position{line: 2664, col: 9, offset: 84792},
 																																							expr: &actionExpr{
 																																								pos: position{line: 677, col: 14, offset: 21558},
 																																								run: (*parser).callonDocumentFragment1264,
@@ -9892,18 +9892,18 @@ var g = &grammar{
 																																									pos: position{line: 677, col: 14, offset: 21558},
 																																									exprs: []interface{}{
 																																										&andExpr{
-																																											pos: position{line: 2893, col: 11, offset: 91286},
+																																											pos: position{line: 2890, col: 11, offset: 91296},
 																																											expr: &anyMatcher{
-																																												line: 2893, col: 13, offset: 91288,
+																																												line: 2890, col: 13, offset: 91298,
 																																											},
 																																										},
 																																										&zeroOrMoreExpr{
 																																											pos: position{line: 677, col: 21, offset: 21565},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2876, col: 10, offset: 90952},
+																																												pos: position{line: 2873, col: 10, offset: 90962},
 																																												run: (*parser).callonDocumentFragment1269,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2876, col: 10, offset: 90952},
+																																													pos:        position{line: 2873, col: 10, offset: 90962},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -9912,28 +9912,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2898, col: 8, offset: 91350},
+																																											pos: position{line: 2895, col: 8, offset: 91360},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2885, col: 12, offset: 91123},
+																																													pos: position{line: 2882, col: 12, offset: 91133},
 																																													run: (*parser).callonDocumentFragment1272,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2885, col: 13, offset: 91124},
+																																														pos: position{line: 2882, col: 13, offset: 91134},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2885, col: 13, offset: 91124},
+																																																pos:        position{line: 2882, col: 13, offset: 91134},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2885, col: 20, offset: 91131},
+																																																pos:        position{line: 2882, col: 20, offset: 91141},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2885, col: 29, offset: 91140},
+																																																pos:        position{line: 2882, col: 29, offset: 91150},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -9942,9 +9942,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2895, col: 8, offset: 91300},
+																																													pos: position{line: 2892, col: 8, offset: 91310},
 																																													expr: &anyMatcher{
-																																														line: 2895, col: 9, offset: 91301,
+																																														line: 2892, col: 9, offset: 91311,
 																																													},
 																																												},
 																																											},
@@ -9954,22 +9954,22 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2668, col: 9, offset: 84822},
+																																							pos: position{line: 2665, col: 9, offset: 84811},
 																																							expr: &seqExpr{
-																																								pos: position{line: 2668, col: 11, offset: 84824},
+																																								pos: position{line: 2665, col: 11, offset: 84813},
 																																								exprs: []interface{}{
 																																									&labeledExpr{
-																																										pos:   position{line: 2668, col: 11, offset: 84824},
+																																										pos:   position{line: 2665, col: 11, offset: 84813},
 																																										label: "format",
 																																										expr: &zeroOrOneExpr{
-																																											pos: position{line: 2668, col: 18, offset: 84831},
+																																											pos: position{line: 2665, col: 18, offset: 84820},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2676, col: 20, offset: 85032},
+																																												pos: position{line: 2673, col: 20, offset: 85021},
 																																												run: (*parser).callonDocumentFragment1283,
 																																												expr: &zeroOrMoreExpr{
-																																													pos: position{line: 2676, col: 20, offset: 85032},
+																																													pos: position{line: 2673, col: 20, offset: 85021},
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2676, col: 20, offset: 85032},
+																																														pos:        position{line: 2673, col: 20, offset: 85021},
 																																														val:        "[^ |\\r\\n]",
 																																														chars:      []rune{' ', '|', '\r', '\n'},
 																																														ignoreCase: false,
@@ -9980,7 +9980,7 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2668, col: 37, offset: 84850},
+																																										pos:        position{line: 2665, col: 37, offset: 84839},
 																																										val:        "|",
 																																										ignoreCase: false,
 																																										want:       "\"|\"",
@@ -9989,15 +9989,15 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&labeledExpr{
-																																							pos:   position{line: 2669, col: 9, offset: 84863},
+																																							pos:   position{line: 2666, col: 9, offset: 84852},
 																																							label: "content",
 																																							expr: &actionExpr{
-																																								pos: position{line: 2669, col: 18, offset: 84872},
+																																								pos: position{line: 2666, col: 18, offset: 84861},
 																																								run: (*parser).callonDocumentFragment1288,
 																																								expr: &zeroOrMoreExpr{
-																																									pos: position{line: 2669, col: 18, offset: 84872},
+																																									pos: position{line: 2666, col: 18, offset: 84861},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2669, col: 18, offset: 84872},
+																																										pos:        position{line: 2666, col: 18, offset: 84861},
 																																										val:        "[^|\\r\\n]",
 																																										chars:      []rune{'|', '\r', '\n'},
 																																										ignoreCase: false,
@@ -10007,30 +10007,30 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&zeroOrOneExpr{
-																																							pos: position{line: 2671, col: 12, offset: 84934},
+																																							pos: position{line: 2668, col: 12, offset: 84923},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2898, col: 8, offset: 91350},
+																																								pos: position{line: 2895, col: 8, offset: 91360},
 																																								alternatives: []interface{}{
 																																									&actionExpr{
-																																										pos: position{line: 2885, col: 12, offset: 91123},
+																																										pos: position{line: 2882, col: 12, offset: 91133},
 																																										run: (*parser).callonDocumentFragment1293,
 																																										expr: &choiceExpr{
-																																											pos: position{line: 2885, col: 13, offset: 91124},
+																																											pos: position{line: 2882, col: 13, offset: 91134},
 																																											alternatives: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2885, col: 13, offset: 91124},
+																																													pos:        position{line: 2882, col: 13, offset: 91134},
 																																													val:        "\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2885, col: 20, offset: 91131},
+																																													pos:        position{line: 2882, col: 20, offset: 91141},
 																																													val:        "\r\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2885, col: 29, offset: 91140},
+																																													pos:        position{line: 2882, col: 29, offset: 91150},
 																																													val:        "\r",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\"",
@@ -10039,9 +10039,9 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2895, col: 8, offset: 91300},
+																																										pos: position{line: 2892, col: 8, offset: 91310},
 																																										expr: &anyMatcher{
-																																											line: 2895, col: 9, offset: 91301,
+																																											line: 2892, col: 9, offset: 91311,
 																																										},
 																																									},
 																																								},
@@ -10069,18 +10069,18 @@ var g = &grammar{
 																									pos: position{line: 677, col: 14, offset: 21558},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2893, col: 11, offset: 91286},
+																											pos: position{line: 2890, col: 11, offset: 91296},
 																											expr: &anyMatcher{
-																												line: 2893, col: 13, offset: 91288,
+																												line: 2890, col: 13, offset: 91298,
 																											},
 																										},
 																										&zeroOrMoreExpr{
 																											pos: position{line: 677, col: 21, offset: 21565},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 90952},
+																												pos: position{line: 2873, col: 10, offset: 90962},
 																												run: (*parser).callonDocumentFragment1305,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 90952},
+																													pos:        position{line: 2873, col: 10, offset: 90962},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -10089,28 +10089,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91350},
+																											pos: position{line: 2895, col: 8, offset: 91360},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91123},
+																													pos: position{line: 2882, col: 12, offset: 91133},
 																													run: (*parser).callonDocumentFragment1308,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91124},
+																														pos: position{line: 2882, col: 13, offset: 91134},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91124},
+																																pos:        position{line: 2882, col: 13, offset: 91134},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91131},
+																																pos:        position{line: 2882, col: 20, offset: 91141},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91140},
+																																pos:        position{line: 2882, col: 29, offset: 91150},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -10119,9 +10119,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91300},
+																													pos: position{line: 2892, col: 8, offset: 91310},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91301,
+																														line: 2892, col: 9, offset: 91311,
 																													},
 																												},
 																											},
@@ -10140,24 +10140,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2622, col: 22, offset: 83720},
+														pos: position{line: 2619, col: 22, offset: 83709},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2618, col: 19, offset: 83640},
+																pos: position{line: 2615, col: 19, offset: 83629},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2618, col: 19, offset: 83640},
+																		pos:        position{line: 2615, col: 19, offset: 83629},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2618, col: 26, offset: 83647},
+																		pos: position{line: 2615, col: 26, offset: 83636},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 90952},
+																			pos: position{line: 2873, col: 10, offset: 90962},
 																			run: (*parser).callonDocumentFragment1319,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 90952},
+																				pos:        position{line: 2873, col: 10, offset: 90962},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10166,28 +10166,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91350},
+																		pos: position{line: 2895, col: 8, offset: 91360},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91123},
+																				pos: position{line: 2882, col: 12, offset: 91133},
 																				run: (*parser).callonDocumentFragment1322,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91124},
+																					pos: position{line: 2882, col: 13, offset: 91134},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91124},
+																							pos:        position{line: 2882, col: 13, offset: 91134},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91131},
+																							pos:        position{line: 2882, col: 20, offset: 91141},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91140},
+																							pos:        position{line: 2882, col: 29, offset: 91150},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10196,9 +10196,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91300},
+																				pos: position{line: 2892, col: 8, offset: 91310},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91301,
+																					line: 2892, col: 9, offset: 91311,
 																				},
 																			},
 																		},
@@ -10206,9 +10206,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91300},
+																pos: position{line: 2892, col: 8, offset: 91310},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91301,
+																	line: 2892, col: 9, offset: 91311,
 																},
 															},
 														},
@@ -10217,36 +10217,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2483, col: 22, offset: 79859},
+											pos: position{line: 2480, col: 22, offset: 79848},
 											run: (*parser).callonDocumentFragment1331,
 											expr: &seqExpr{
-												pos: position{line: 2483, col: 22, offset: 79859},
+												pos: position{line: 2480, col: 22, offset: 79848},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2488, col: 31, offset: 80080},
+														pos:        position{line: 2485, col: 31, offset: 80069},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2488, col: 36, offset: 80085},
+														pos: position{line: 2485, col: 36, offset: 80074},
 														expr: &litMatcher{
-															pos:        position{line: 2488, col: 37, offset: 80086},
+															pos:        position{line: 2485, col: 37, offset: 80075},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2483, col: 49, offset: 79886},
+														pos:   position{line: 2480, col: 49, offset: 79875},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2822, col: 13, offset: 89478},
+															pos: position{line: 2819, col: 13, offset: 89488},
 															run: (*parser).callonDocumentFragment1337,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2822, col: 13, offset: 89478},
+																pos: position{line: 2819, col: 13, offset: 89488},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2822, col: 13, offset: 89478},
+																	pos:        position{line: 2819, col: 13, offset: 89488},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10256,28 +10256,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2898, col: 8, offset: 91350},
+														pos: position{line: 2895, col: 8, offset: 91360},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2885, col: 12, offset: 91123},
+																pos: position{line: 2882, col: 12, offset: 91133},
 																run: (*parser).callonDocumentFragment1341,
 																expr: &choiceExpr{
-																	pos: position{line: 2885, col: 13, offset: 91124},
+																	pos: position{line: 2882, col: 13, offset: 91134},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 13, offset: 91124},
+																			pos:        position{line: 2882, col: 13, offset: 91134},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 20, offset: 91131},
+																			pos:        position{line: 2882, col: 20, offset: 91141},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 29, offset: 91140},
+																			pos:        position{line: 2882, col: 29, offset: 91150},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10286,9 +10286,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91300},
+																pos: position{line: 2892, col: 8, offset: 91310},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91301,
+																	line: 2892, col: 9, offset: 91311,
 																},
 															},
 														},
@@ -10324,10 +10324,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1234, col: 36, offset: 38271},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 90952},
+																			pos: position{line: 2873, col: 10, offset: 90962},
 																			run: (*parser).callonDocumentFragment1356,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 90952},
+																				pos:        position{line: 2873, col: 10, offset: 90962},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10336,28 +10336,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91350},
+																		pos: position{line: 2895, col: 8, offset: 91360},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91123},
+																				pos: position{line: 2882, col: 12, offset: 91133},
 																				run: (*parser).callonDocumentFragment1359,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91124},
+																					pos: position{line: 2882, col: 13, offset: 91134},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91124},
+																							pos:        position{line: 2882, col: 13, offset: 91134},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91131},
+																							pos:        position{line: 2882, col: 20, offset: 91141},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91140},
+																							pos:        position{line: 2882, col: 29, offset: 91150},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10366,9 +10366,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91300},
+																				pos: position{line: 2892, col: 8, offset: 91310},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91301,
+																					line: 2892, col: 9, offset: 91311,
 																				},
 																			},
 																		},
@@ -10402,10 +10402,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 1234, col: 36, offset: 38271},
 																												expr: &actionExpr{
-																													pos: position{line: 2876, col: 10, offset: 90952},
+																													pos: position{line: 2873, col: 10, offset: 90962},
 																													run: (*parser).callonDocumentFragment1376,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2876, col: 10, offset: 90952},
+																														pos:        position{line: 2873, col: 10, offset: 90962},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -10414,28 +10414,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2898, col: 8, offset: 91350},
+																												pos: position{line: 2895, col: 8, offset: 91360},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2885, col: 12, offset: 91123},
+																														pos: position{line: 2882, col: 12, offset: 91133},
 																														run: (*parser).callonDocumentFragment1379,
 																														expr: &choiceExpr{
-																															pos: position{line: 2885, col: 13, offset: 91124},
+																															pos: position{line: 2882, col: 13, offset: 91134},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 13, offset: 91124},
+																																	pos:        position{line: 2882, col: 13, offset: 91134},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 20, offset: 91131},
+																																	pos:        position{line: 2882, col: 20, offset: 91141},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 29, offset: 91140},
+																																	pos:        position{line: 2882, col: 29, offset: 91150},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -10444,9 +10444,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2895, col: 8, offset: 91300},
+																														pos: position{line: 2892, col: 8, offset: 91310},
 																														expr: &anyMatcher{
-																															line: 2895, col: 9, offset: 91301,
+																															line: 2892, col: 9, offset: 91311,
 																														},
 																													},
 																												},
@@ -10473,10 +10473,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1234, col: 36, offset: 38271},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 90952},
+																			pos: position{line: 2873, col: 10, offset: 90962},
 																			run: (*parser).callonDocumentFragment1389,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 90952},
+																				pos:        position{line: 2873, col: 10, offset: 90962},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10485,28 +10485,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91350},
+																		pos: position{line: 2895, col: 8, offset: 91360},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91123},
+																				pos: position{line: 2882, col: 12, offset: 91133},
 																				run: (*parser).callonDocumentFragment1392,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91124},
+																					pos: position{line: 2882, col: 13, offset: 91134},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91124},
+																							pos:        position{line: 2882, col: 13, offset: 91134},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91131},
+																							pos:        position{line: 2882, col: 20, offset: 91141},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91140},
+																							pos:        position{line: 2882, col: 29, offset: 91150},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10515,9 +10515,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91300},
+																				pos: position{line: 2892, col: 8, offset: 91310},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91301,
+																					line: 2892, col: 9, offset: 91311,
 																				},
 																			},
 																		},
@@ -10618,9 +10618,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2895, col: 8, offset: 91300},
+							pos: position{line: 2892, col: 8, offset: 91310},
 							expr: &anyMatcher{
-								line: 2895, col: 9, offset: 91301,
+								line: 2892, col: 9, offset: 91311,
 							},
 						},
 					},
@@ -10692,12 +10692,12 @@ var g = &grammar{
 										pos: position{line: 305, col: 9, offset: 9232},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2880, col: 11, offset: 91013},
+												pos: position{line: 2877, col: 11, offset: 91023},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2880, col: 11, offset: 91013},
+													pos: position{line: 2877, col: 11, offset: 91023},
 													expr: &charClassMatcher{
-														pos:        position{line: 2880, col: 11, offset: 91013},
+														pos:        position{line: 2877, col: 11, offset: 91023},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10721,10 +10721,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 310, col: 5, offset: 9412},
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 10, offset: 90952},
+								pos: position{line: 2873, col: 10, offset: 90962},
 								run: (*parser).callonAttributeDeclaration21,
 								expr: &charClassMatcher{
-									pos:        position{line: 2876, col: 10, offset: 90952},
+									pos:        position{line: 2873, col: 10, offset: 90962},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -10733,28 +10733,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2898, col: 8, offset: 91350},
+							pos: position{line: 2895, col: 8, offset: 91360},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2885, col: 12, offset: 91123},
+									pos: position{line: 2882, col: 12, offset: 91133},
 									run: (*parser).callonAttributeDeclaration24,
 									expr: &choiceExpr{
-										pos: position{line: 2885, col: 13, offset: 91124},
+										pos: position{line: 2882, col: 13, offset: 91134},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2885, col: 13, offset: 91124},
+												pos:        position{line: 2882, col: 13, offset: 91134},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 20, offset: 91131},
+												pos:        position{line: 2882, col: 20, offset: 91141},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 29, offset: 91140},
+												pos:        position{line: 2882, col: 29, offset: 91150},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10763,9 +10763,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2895, col: 8, offset: 91300},
+									pos: position{line: 2892, col: 8, offset: 91310},
 									expr: &anyMatcher{
-										line: 2895, col: 9, offset: 91301,
+										line: 2892, col: 9, offset: 91311,
 									},
 								},
 							},
@@ -10811,10 +10811,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 325, col: 14, offset: 9910},
 												expr: &actionExpr{
-													pos: position{line: 2876, col: 10, offset: 90952},
+													pos: position{line: 2873, col: 10, offset: 90962},
 													run: (*parser).callonAttributeDeclarationValue11,
 													expr: &charClassMatcher{
-														pos:        position{line: 2876, col: 10, offset: 90952},
+														pos:        position{line: 2873, col: 10, offset: 90962},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10823,25 +10823,25 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 2885, col: 12, offset: 91123},
+												pos: position{line: 2882, col: 12, offset: 91133},
 												run: (*parser).callonAttributeDeclarationValue13,
 												expr: &choiceExpr{
-													pos: position{line: 2885, col: 13, offset: 91124},
+													pos: position{line: 2882, col: 13, offset: 91134},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2885, col: 13, offset: 91124},
+															pos:        position{line: 2882, col: 13, offset: 91134},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2885, col: 20, offset: 91131},
+															pos:        position{line: 2882, col: 20, offset: 91141},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2885, col: 29, offset: 91140},
+															pos:        position{line: 2882, col: 29, offset: 91150},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10852,10 +10852,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 326, col: 9, offset: 9934},
 												expr: &actionExpr{
-													pos: position{line: 2876, col: 10, offset: 90952},
+													pos: position{line: 2873, col: 10, offset: 90962},
 													run: (*parser).callonAttributeDeclarationValue19,
 													expr: &charClassMatcher{
-														pos:        position{line: 2876, col: 10, offset: 90952},
+														pos:        position{line: 2873, col: 10, offset: 90962},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10925,10 +10925,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 344, col: 13, offset: 10479},
 										expr: &actionExpr{
-											pos: position{line: 2876, col: 10, offset: 90952},
+											pos: position{line: 2873, col: 10, offset: 90962},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2876, col: 10, offset: 90952},
+												pos:        position{line: 2873, col: 10, offset: 90962},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10937,28 +10937,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2898, col: 8, offset: 91350},
+										pos: position{line: 2895, col: 8, offset: 91360},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2885, col: 12, offset: 91123},
+												pos: position{line: 2882, col: 12, offset: 91133},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2885, col: 13, offset: 91124},
+													pos: position{line: 2882, col: 13, offset: 91134},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2885, col: 13, offset: 91124},
+															pos:        position{line: 2882, col: 13, offset: 91134},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2885, col: 20, offset: 91131},
+															pos:        position{line: 2882, col: 20, offset: 91141},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2885, col: 29, offset: 91140},
+															pos:        position{line: 2882, col: 29, offset: 91150},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10967,9 +10967,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2895, col: 8, offset: 91300},
+												pos: position{line: 2892, col: 8, offset: 91310},
 												expr: &anyMatcher{
-													line: 2895, col: 9, offset: 91301,
+													line: 2892, col: 9, offset: 91311,
 												},
 											},
 										},
@@ -11002,23 +11002,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2470, col: 5, offset: 79405},
+										pos: position{line: 2467, col: 5, offset: 79394},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2470, col: 5, offset: 79405},
+											pos: position{line: 2467, col: 5, offset: 79394},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2470, col: 5, offset: 79405},
+													pos: position{line: 2467, col: 5, offset: 79394},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2473, col: 5, offset: 79481},
+													pos:   position{line: 2470, col: 5, offset: 79470},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2474, col: 9, offset: 79499},
+														pos: position{line: 2471, col: 9, offset: 79488},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2474, col: 10, offset: 79500},
+															pos:        position{line: 2471, col: 10, offset: 79489},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -11030,10 +11030,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2876, col: 10, offset: 90952},
+										pos: position{line: 2873, col: 10, offset: 90962},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2876, col: 10, offset: 90952},
+											pos:        position{line: 2873, col: 10, offset: 90962},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -11870,10 +11870,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 372, col: 35, offset: 11488},
 												expr: &actionExpr{
-													pos: position{line: 2876, col: 10, offset: 90952},
+													pos: position{line: 2873, col: 10, offset: 90962},
 													run: (*parser).callonBlockAttributes100,
 													expr: &charClassMatcher{
-														pos:        position{line: 2876, col: 10, offset: 90952},
+														pos:        position{line: 2873, col: 10, offset: 90962},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11882,28 +11882,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2898, col: 8, offset: 91350},
+												pos: position{line: 2895, col: 8, offset: 91360},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2885, col: 12, offset: 91123},
+														pos: position{line: 2882, col: 12, offset: 91133},
 														run: (*parser).callonBlockAttributes103,
 														expr: &choiceExpr{
-															pos: position{line: 2885, col: 13, offset: 91124},
+															pos: position{line: 2882, col: 13, offset: 91134},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2885, col: 13, offset: 91124},
+																	pos:        position{line: 2882, col: 13, offset: 91134},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2885, col: 20, offset: 91131},
+																	pos:        position{line: 2882, col: 20, offset: 91141},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2885, col: 29, offset: 91140},
+																	pos:        position{line: 2882, col: 29, offset: 91150},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11912,9 +11912,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2895, col: 8, offset: 91300},
+														pos: position{line: 2892, col: 8, offset: 91310},
 														expr: &anyMatcher{
-															line: 2895, col: 9, offset: 91301,
+															line: 2892, col: 9, offset: 91311,
 														},
 													},
 												},
@@ -11928,18 +11928,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21558},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2893, col: 11, offset: 91286},
+																pos: position{line: 2890, col: 11, offset: 91296},
 																expr: &anyMatcher{
-																	line: 2893, col: 13, offset: 91288,
+																	line: 2890, col: 13, offset: 91298,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21565},
 																expr: &actionExpr{
-																	pos: position{line: 2876, col: 10, offset: 90952},
+																	pos: position{line: 2873, col: 10, offset: 90962},
 																	run: (*parser).callonBlockAttributes116,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2876, col: 10, offset: 90952},
+																		pos:        position{line: 2873, col: 10, offset: 90962},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -11948,28 +11948,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2898, col: 8, offset: 91350},
+																pos: position{line: 2895, col: 8, offset: 91360},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2885, col: 12, offset: 91123},
+																		pos: position{line: 2882, col: 12, offset: 91133},
 																		run: (*parser).callonBlockAttributes119,
 																		expr: &choiceExpr{
-																			pos: position{line: 2885, col: 13, offset: 91124},
+																			pos: position{line: 2882, col: 13, offset: 91134},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 13, offset: 91124},
+																					pos:        position{line: 2882, col: 13, offset: 91134},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 20, offset: 91131},
+																					pos:        position{line: 2882, col: 20, offset: 91141},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 29, offset: 91140},
+																					pos:        position{line: 2882, col: 29, offset: 91150},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -11978,9 +11978,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91300},
+																		pos: position{line: 2892, col: 8, offset: 91310},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91301,
+																			line: 2892, col: 9, offset: 91311,
 																		},
 																	},
 																},
@@ -12032,12 +12032,12 @@ var g = &grammar{
 																		pos: position{line: 426, col: 9, offset: 13132},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2770, col: 14, offset: 88121},
+																				pos: position{line: 2767, col: 14, offset: 88110},
 																				run: (*parser).callonBlockAttributes137,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2770, col: 14, offset: 88121},
+																					pos: position{line: 2767, col: 14, offset: 88110},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2770, col: 14, offset: 88121},
+																						pos:        position{line: 2767, col: 14, offset: 88110},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -12046,10 +12046,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 90952},
+																				pos: position{line: 2873, col: 10, offset: 90962},
 																				run: (*parser).callonBlockAttributes140,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 90952},
+																					pos:        position{line: 2873, col: 10, offset: 90962},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -12057,27 +12057,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2793, col: 5, offset: 88606},
+																				pos: position{line: 2790, col: 5, offset: 88616},
 																				run: (*parser).callonBlockAttributes142,
 																				expr: &choiceExpr{
-																					pos: position{line: 2794, col: 9, offset: 88616},
+																					pos: position{line: 2791, col: 9, offset: 88626},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2794, col: 10, offset: 88617},
+																							pos:        position{line: 2791, col: 10, offset: 88627},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2796, col: 13, offset: 88714},
+																							pos: position{line: 2793, col: 13, offset: 88724},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2796, col: 13, offset: 88714},
+																									pos: position{line: 2793, col: 13, offset: 88724},
 																									run: (*parser).callonBlockAttributes146,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2799, col: 13, offset: 88814},
+																									pos:        position{line: 2796, col: 13, offset: 88824},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -12085,20 +12085,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2799, col: 19, offset: 88820},
+																							pos:        position{line: 2796, col: 19, offset: 88830},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2802, col: 13, offset: 88858},
+																							pos: position{line: 2799, col: 13, offset: 88868},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2802, col: 13, offset: 88858},
+																									pos: position{line: 2799, col: 13, offset: 88868},
 																									run: (*parser).callonBlockAttributes150,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2805, col: 14, offset: 88951},
+																									pos:        position{line: 2802, col: 14, offset: 88961},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -12107,18 +12107,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2807, col: 12, offset: 88995},
+																							pos: position{line: 2804, col: 12, offset: 89005},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2807, col: 12, offset: 88995},
+																									pos:        position{line: 2804, col: 12, offset: 89005},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2807, col: 16, offset: 88999},
+																									pos: position{line: 2804, col: 16, offset: 89009},
 																									expr: &litMatcher{
-																										pos:        position{line: 2807, col: 17, offset: 89000},
+																										pos:        position{line: 2804, col: 17, offset: 89010},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12236,10 +12236,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2815, col: 12, offset: 89260},
+																				pos: position{line: 2812, col: 12, offset: 89270},
 																				run: (*parser).callonBlockAttributes176,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2815, col: 12, offset: 89260},
+																					pos:        position{line: 2812, col: 12, offset: 89270},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12257,10 +12257,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 376, col: 35, offset: 11643},
 												expr: &actionExpr{
-													pos: position{line: 2876, col: 10, offset: 90952},
+													pos: position{line: 2873, col: 10, offset: 90962},
 													run: (*parser).callonBlockAttributes179,
 													expr: &charClassMatcher{
-														pos:        position{line: 2876, col: 10, offset: 90952},
+														pos:        position{line: 2873, col: 10, offset: 90962},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12269,28 +12269,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2898, col: 8, offset: 91350},
+												pos: position{line: 2895, col: 8, offset: 91360},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2885, col: 12, offset: 91123},
+														pos: position{line: 2882, col: 12, offset: 91133},
 														run: (*parser).callonBlockAttributes182,
 														expr: &choiceExpr{
-															pos: position{line: 2885, col: 13, offset: 91124},
+															pos: position{line: 2882, col: 13, offset: 91134},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2885, col: 13, offset: 91124},
+																	pos:        position{line: 2882, col: 13, offset: 91134},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2885, col: 20, offset: 91131},
+																	pos:        position{line: 2882, col: 20, offset: 91141},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2885, col: 29, offset: 91140},
+																	pos:        position{line: 2882, col: 29, offset: 91150},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12299,9 +12299,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2895, col: 8, offset: 91300},
+														pos: position{line: 2892, col: 8, offset: 91310},
 														expr: &anyMatcher{
-															line: 2895, col: 9, offset: 91301,
+															line: 2892, col: 9, offset: 91311,
 														},
 													},
 												},
@@ -12315,18 +12315,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21558},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2893, col: 11, offset: 91286},
+																pos: position{line: 2890, col: 11, offset: 91296},
 																expr: &anyMatcher{
-																	line: 2893, col: 13, offset: 91288,
+																	line: 2890, col: 13, offset: 91298,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21565},
 																expr: &actionExpr{
-																	pos: position{line: 2876, col: 10, offset: 90952},
+																	pos: position{line: 2873, col: 10, offset: 90962},
 																	run: (*parser).callonBlockAttributes195,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2876, col: 10, offset: 90952},
+																		pos:        position{line: 2873, col: 10, offset: 90962},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12335,28 +12335,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2898, col: 8, offset: 91350},
+																pos: position{line: 2895, col: 8, offset: 91360},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2885, col: 12, offset: 91123},
+																		pos: position{line: 2882, col: 12, offset: 91133},
 																		run: (*parser).callonBlockAttributes198,
 																		expr: &choiceExpr{
-																			pos: position{line: 2885, col: 13, offset: 91124},
+																			pos: position{line: 2882, col: 13, offset: 91134},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 13, offset: 91124},
+																					pos:        position{line: 2882, col: 13, offset: 91134},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 20, offset: 91131},
+																					pos:        position{line: 2882, col: 20, offset: 91141},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 29, offset: 91140},
+																					pos:        position{line: 2882, col: 29, offset: 91150},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12365,9 +12365,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91300},
+																		pos: position{line: 2892, col: 8, offset: 91310},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91301,
+																			line: 2892, col: 9, offset: 91311,
 																		},
 																	},
 																},
@@ -12389,10 +12389,10 @@ var g = &grammar{
 												pos:   position{line: 380, col: 12, offset: 11744},
 												label: "start",
 												expr: &actionExpr{
-													pos: position{line: 2901, col: 16, offset: 91474},
+													pos: position{line: 2898, col: 16, offset: 91484},
 													run: (*parser).callonBlockAttributes208,
 													expr: &litMatcher{
-														pos:        position{line: 2901, col: 16, offset: 91474},
+														pos:        position{line: 2898, col: 16, offset: 91484},
 														val:        "",
 														ignoreCase: false,
 														want:       "\"\"",
@@ -12410,10 +12410,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 380, col: 64, offset: 11796},
 												expr: &actionExpr{
-													pos: position{line: 2876, col: 10, offset: 90952},
+													pos: position{line: 2873, col: 10, offset: 90962},
 													run: (*parser).callonBlockAttributes213,
 													expr: &charClassMatcher{
-														pos:        position{line: 2876, col: 10, offset: 90952},
+														pos:        position{line: 2873, col: 10, offset: 90962},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12425,10 +12425,10 @@ var g = &grammar{
 												pos:   position{line: 380, col: 71, offset: 11803},
 												label: "end",
 												expr: &actionExpr{
-													pos: position{line: 2901, col: 16, offset: 91474},
+													pos: position{line: 2898, col: 16, offset: 91484},
 													run: (*parser).callonBlockAttributes216,
 													expr: &litMatcher{
-														pos:        position{line: 2901, col: 16, offset: 91474},
+														pos:        position{line: 2898, col: 16, offset: 91484},
 														val:        "",
 														ignoreCase: false,
 														want:       "\"\"",
@@ -12440,28 +12440,28 @@ var g = &grammar{
 												run: (*parser).callonBlockAttributes218,
 											},
 											&choiceExpr{
-												pos: position{line: 2898, col: 8, offset: 91350},
+												pos: position{line: 2895, col: 8, offset: 91360},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2885, col: 12, offset: 91123},
+														pos: position{line: 2882, col: 12, offset: 91133},
 														run: (*parser).callonBlockAttributes220,
 														expr: &choiceExpr{
-															pos: position{line: 2885, col: 13, offset: 91124},
+															pos: position{line: 2882, col: 13, offset: 91134},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2885, col: 13, offset: 91124},
+																	pos:        position{line: 2882, col: 13, offset: 91134},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2885, col: 20, offset: 91131},
+																	pos:        position{line: 2882, col: 20, offset: 91141},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2885, col: 29, offset: 91140},
+																	pos:        position{line: 2882, col: 29, offset: 91150},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12470,9 +12470,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2895, col: 8, offset: 91300},
+														pos: position{line: 2892, col: 8, offset: 91310},
 														expr: &anyMatcher{
-															line: 2895, col: 9, offset: 91301,
+															line: 2892, col: 9, offset: 91311,
 														},
 													},
 												},
@@ -12486,18 +12486,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21558},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2893, col: 11, offset: 91286},
+																pos: position{line: 2890, col: 11, offset: 91296},
 																expr: &anyMatcher{
-																	line: 2893, col: 13, offset: 91288,
+																	line: 2890, col: 13, offset: 91298,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21565},
 																expr: &actionExpr{
-																	pos: position{line: 2876, col: 10, offset: 90952},
+																	pos: position{line: 2873, col: 10, offset: 90962},
 																	run: (*parser).callonBlockAttributes233,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2876, col: 10, offset: 90952},
+																		pos:        position{line: 2873, col: 10, offset: 90962},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12506,28 +12506,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2898, col: 8, offset: 91350},
+																pos: position{line: 2895, col: 8, offset: 91360},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2885, col: 12, offset: 91123},
+																		pos: position{line: 2882, col: 12, offset: 91133},
 																		run: (*parser).callonBlockAttributes236,
 																		expr: &choiceExpr{
-																			pos: position{line: 2885, col: 13, offset: 91124},
+																			pos: position{line: 2882, col: 13, offset: 91134},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 13, offset: 91124},
+																					pos:        position{line: 2882, col: 13, offset: 91134},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 20, offset: 91131},
+																					pos:        position{line: 2882, col: 20, offset: 91141},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 29, offset: 91140},
+																					pos:        position{line: 2882, col: 29, offset: 91150},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12536,9 +12536,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91300},
+																		pos: position{line: 2892, col: 8, offset: 91310},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91301,
+																			line: 2892, col: 9, offset: 91311,
 																		},
 																	},
 																},
@@ -12786,10 +12786,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 466, col: 13, offset: 14600},
 										expr: &actionExpr{
-											pos: position{line: 2876, col: 10, offset: 90952},
+											pos: position{line: 2873, col: 10, offset: 90962},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2876, col: 10, offset: 90952},
+												pos:        position{line: 2873, col: 10, offset: 90962},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13321,10 +13321,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 518, col: 9, offset: 16182},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 90952},
+														pos: position{line: 2873, col: 10, offset: 90962},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 90952},
+															pos:        position{line: 2873, col: 10, offset: 90962},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13385,10 +13385,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 524, col: 34, offset: 16325},
 														expr: &actionExpr{
-															pos: position{line: 2876, col: 10, offset: 90952},
+															pos: position{line: 2873, col: 10, offset: 90962},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2876, col: 10, offset: 90952},
+																pos:        position{line: 2873, col: 10, offset: 90962},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13428,10 +13428,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 529, col: 13, offset: 16489},
 												expr: &actionExpr{
-													pos: position{line: 2876, col: 10, offset: 90952},
+													pos: position{line: 2873, col: 10, offset: 90962},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2876, col: 10, offset: 90952},
+														pos:        position{line: 2873, col: 10, offset: 90962},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13454,10 +13454,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 529, col: 26, offset: 16502},
 																expr: &actionExpr{
-																	pos: position{line: 2876, col: 10, offset: 90952},
+																	pos: position{line: 2873, col: 10, offset: 90962},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2876, col: 10, offset: 90952},
+																		pos:        position{line: 2873, col: 10, offset: 90962},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13512,10 +13512,10 @@ var g = &grammar{
 										&notExpr{
 											pos: position{line: 549, col: 22, offset: 17149},
 											expr: &actionExpr{
-												pos: position{line: 2876, col: 10, offset: 90952},
+												pos: position{line: 2873, col: 10, offset: 90962},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2876, col: 10, offset: 90952},
+													pos:        position{line: 2873, col: 10, offset: 90962},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13546,10 +13546,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 542, col: 9, offset: 16894},
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 10, offset: 90952},
+								pos: position{line: 2873, col: 10, offset: 90962},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2876, col: 10, offset: 90952},
+									pos:        position{line: 2873, col: 10, offset: 90962},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13579,10 +13579,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 543, col: 33, offset: 16934},
 										expr: &actionExpr{
-											pos: position{line: 2876, col: 10, offset: 90952},
+											pos: position{line: 2873, col: 10, offset: 90962},
 											run: (*parser).callonNamedAttribute21,
 											expr: &charClassMatcher{
-												pos:        position{line: 2876, col: 10, offset: 90952},
+												pos:        position{line: 2873, col: 10, offset: 90962},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13637,10 +13637,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 559, col: 9, offset: 17366},
 											expr: &actionExpr{
-												pos: position{line: 2876, col: 10, offset: 90952},
+												pos: position{line: 2873, col: 10, offset: 90962},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2876, col: 10, offset: 90952},
+													pos:        position{line: 2873, col: 10, offset: 90962},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13719,12 +13719,12 @@ var g = &grammar{
 							pos: position{line: 572, col: 9, offset: 17683},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2770, col: 14, offset: 88121},
+									pos: position{line: 2767, col: 14, offset: 88110},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2770, col: 14, offset: 88121},
+										pos: position{line: 2767, col: 14, offset: 88110},
 										expr: &charClassMatcher{
-											pos:        position{line: 2770, col: 14, offset: 88121},
+											pos:        position{line: 2767, col: 14, offset: 88110},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -13733,10 +13733,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2876, col: 10, offset: 90952},
+									pos: position{line: 2873, col: 10, offset: 90962},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2876, col: 10, offset: 90952},
+										pos:        position{line: 2873, col: 10, offset: 90962},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14193,10 +14193,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 592, col: 14, offset: 18423},
 											expr: &actionExpr{
-												pos: position{line: 2876, col: 10, offset: 90952},
+												pos: position{line: 2873, col: 10, offset: 90962},
 												run: (*parser).callonDoubleQuotedAttributeValue13,
 												expr: &charClassMatcher{
-													pos:        position{line: 2876, col: 10, offset: 90952},
+													pos:        position{line: 2873, col: 10, offset: 90962},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14233,12 +14233,12 @@ var g = &grammar{
 							pos: position{line: 598, col: 9, offset: 18534},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2770, col: 14, offset: 88121},
+									pos: position{line: 2767, col: 14, offset: 88110},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2770, col: 14, offset: 88121},
+										pos: position{line: 2767, col: 14, offset: 88110},
 										expr: &charClassMatcher{
-											pos:        position{line: 2770, col: 14, offset: 88121},
+											pos:        position{line: 2767, col: 14, offset: 88110},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14247,10 +14247,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2876, col: 10, offset: 90952},
+									pos: position{line: 2873, col: 10, offset: 90962},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2876, col: 10, offset: 90952},
+										pos:        position{line: 2873, col: 10, offset: 90962},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14677,10 +14677,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 619, col: 5, offset: 19390},
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 10, offset: 90952},
+								pos: position{line: 2873, col: 10, offset: 90962},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2876, col: 10, offset: 90952},
+									pos:        position{line: 2873, col: 10, offset: 90962},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -15070,10 +15070,10 @@ var g = &grammar{
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2876, col: 10, offset: 90952},
+											pos: position{line: 2873, col: 10, offset: 90962},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2876, col: 10, offset: 90952},
+												pos:        position{line: 2873, col: 10, offset: 90962},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -15124,12 +15124,12 @@ var g = &grammar{
 									pos:   position{line: 686, col: 32, offset: 21918},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2861, col: 7, offset: 90604},
+										pos: position{line: 2858, col: 7, offset: 90614},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2861, col: 7, offset: 90604},
+											pos: position{line: 2858, col: 7, offset: 90614},
 											expr: &charClassMatcher{
-												pos:        position{line: 2861, col: 7, offset: 90604},
+												pos:        position{line: 2858, col: 7, offset: 90614},
 												val:        "[^[]<>,\\r\\n]",
 												chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 												ignoreCase: false,
@@ -15141,10 +15141,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 686, col: 40, offset: 21926},
 									expr: &actionExpr{
-										pos: position{line: 2876, col: 10, offset: 90952},
+										pos: position{line: 2873, col: 10, offset: 90962},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2876, col: 10, offset: 90952},
+											pos:        position{line: 2873, col: 10, offset: 90962},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15161,10 +15161,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 686, col: 51, offset: 21937},
 									expr: &actionExpr{
-										pos: position{line: 2876, col: 10, offset: 90952},
+										pos: position{line: 2873, col: 10, offset: 90962},
 										run: (*parser).callonCrossReference14,
 										expr: &charClassMatcher{
-											pos:        position{line: 2876, col: 10, offset: 90952},
+											pos:        position{line: 2873, col: 10, offset: 90962},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15339,12 +15339,12 @@ var g = &grammar{
 									pos:   position{line: 688, col: 14, offset: 22050},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2861, col: 7, offset: 90604},
+										pos: position{line: 2858, col: 7, offset: 90614},
 										run: (*parser).callonCrossReference49,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2861, col: 7, offset: 90604},
+											pos: position{line: 2858, col: 7, offset: 90614},
 											expr: &charClassMatcher{
-												pos:        position{line: 2861, col: 7, offset: 90604},
+												pos:        position{line: 2858, col: 7, offset: 90614},
 												val:        "[^[]<>,\\r\\n]",
 												chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 												ignoreCase: false,
@@ -15388,41 +15388,41 @@ var g = &grammar{
 							pos:   position{line: 692, col: 35, offset: 22163},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2830, col: 17, offset: 89615},
+								pos: position{line: 2827, col: 17, offset: 89625},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2830, col: 17, offset: 89615},
+									pos:   position{line: 2827, col: 17, offset: 89625},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2847, col: 5, offset: 90069},
+										pos: position{line: 2844, col: 5, offset: 90079},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2847, col: 5, offset: 90069},
+											pos:   position{line: 2844, col: 5, offset: 90079},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2847, col: 14, offset: 90078},
+												pos: position{line: 2844, col: 14, offset: 90088},
 												expr: &choiceExpr{
-													pos: position{line: 2848, col: 9, offset: 90088},
+													pos: position{line: 2845, col: 9, offset: 90098},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2848, col: 9, offset: 90088},
+															pos: position{line: 2845, col: 9, offset: 90098},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2848, col: 9, offset: 90088},
+																pos: position{line: 2845, col: 9, offset: 90098},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2848, col: 9, offset: 90088},
+																		pos: position{line: 2845, col: 9, offset: 90098},
 																		expr: &litMatcher{
-																			pos:        position{line: 2848, col: 10, offset: 90089},
+																			pos:        position{line: 2845, col: 10, offset: 90099},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2849, col: 9, offset: 90117},
+																		pos: position{line: 2846, col: 9, offset: 90127},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2849, col: 10, offset: 90118},
+																			pos:        position{line: 2846, col: 10, offset: 90128},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -15433,27 +15433,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2852, col: 11, offset: 90330},
+															pos: position{line: 2849, col: 11, offset: 90340},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2852, col: 11, offset: 90330},
+																	pos:        position{line: 2849, col: 11, offset: 90340},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2852, col: 19, offset: 90338},
+																	pos: position{line: 2849, col: 19, offset: 90348},
 																	expr: &seqExpr{
-																		pos: position{line: 2852, col: 21, offset: 90340},
+																		pos: position{line: 2849, col: 21, offset: 90350},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2852, col: 21, offset: 90340},
+																				pos: position{line: 2849, col: 21, offset: 90350},
 																				expr: &actionExpr{
-																					pos: position{line: 2876, col: 10, offset: 90952},
+																					pos: position{line: 2873, col: 10, offset: 90962},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2876, col: 10, offset: 90952},
+																						pos:        position{line: 2873, col: 10, offset: 90962},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -15462,11 +15462,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2852, col: 28, offset: 90347},
+																				pos: position{line: 2849, col: 28, offset: 90357},
 																				expr: &notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91300},
+																					pos: position{line: 2892, col: 8, offset: 91310},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91301,
+																						line: 2892, col: 9, offset: 91311,
 																					},
 																				},
 																			},
@@ -15861,10 +15861,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2855, col: 11, offset: 90467},
+															pos: position{line: 2852, col: 11, offset: 90477},
 															run: (*parser).callonExternalCrossReference104,
 															expr: &litMatcher{
-																pos:        position{line: 2855, col: 11, offset: 90467},
+																pos:        position{line: 2852, col: 11, offset: 90477},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -15909,12 +15909,12 @@ var g = &grammar{
 							pos:   position{line: 989, col: 11, offset: 30880},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2826, col: 14, offset: 89545},
+								pos: position{line: 2823, col: 14, offset: 89555},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2826, col: 14, offset: 89545},
+									pos: position{line: 2823, col: 14, offset: 89555},
 									expr: &charClassMatcher{
-										pos:        position{line: 2826, col: 14, offset: 89545},
+										pos:        position{line: 2823, col: 14, offset: 89555},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -15924,28 +15924,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2898, col: 8, offset: 91350},
+							pos: position{line: 2895, col: 8, offset: 91360},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2885, col: 12, offset: 91123},
+									pos: position{line: 2882, col: 12, offset: 91133},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2885, col: 13, offset: 91124},
+										pos: position{line: 2882, col: 13, offset: 91134},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2885, col: 13, offset: 91124},
+												pos:        position{line: 2882, col: 13, offset: 91134},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 20, offset: 91131},
+												pos:        position{line: 2882, col: 20, offset: 91141},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 29, offset: 91140},
+												pos:        position{line: 2882, col: 29, offset: 91150},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -15954,9 +15954,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2895, col: 8, offset: 91300},
+									pos: position{line: 2892, col: 8, offset: 91310},
 									expr: &anyMatcher{
-										line: 2895, col: 9, offset: 91301,
+										line: 2892, col: 9, offset: 91311,
 									},
 								},
 							},
@@ -15984,36 +15984,36 @@ var g = &grammar{
 								pos: position{line: 1104, col: 6, offset: 33882},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2483, col: 22, offset: 79859},
+										pos: position{line: 2480, col: 22, offset: 79848},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2483, col: 22, offset: 79859},
+											pos: position{line: 2480, col: 22, offset: 79848},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2488, col: 31, offset: 80080},
+													pos:        position{line: 2485, col: 31, offset: 80069},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2488, col: 36, offset: 80085},
+													pos: position{line: 2485, col: 36, offset: 80074},
 													expr: &litMatcher{
-														pos:        position{line: 2488, col: 37, offset: 80086},
+														pos:        position{line: 2485, col: 37, offset: 80075},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2483, col: 49, offset: 79886},
+													pos:   position{line: 2480, col: 49, offset: 79875},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2822, col: 13, offset: 89478},
+														pos: position{line: 2819, col: 13, offset: 89488},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2822, col: 13, offset: 89478},
+															pos: position{line: 2819, col: 13, offset: 89488},
 															expr: &charClassMatcher{
-																pos:        position{line: 2822, col: 13, offset: 89478},
+																pos:        position{line: 2819, col: 13, offset: 89488},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16023,28 +16023,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2898, col: 8, offset: 91350},
+													pos: position{line: 2895, col: 8, offset: 91360},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91123},
+															pos: position{line: 2882, col: 12, offset: 91133},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2885, col: 13, offset: 91124},
+																pos: position{line: 2882, col: 13, offset: 91134},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 13, offset: 91124},
+																		pos:        position{line: 2882, col: 13, offset: 91134},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 20, offset: 91131},
+																		pos:        position{line: 2882, col: 20, offset: 91141},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 29, offset: 91140},
+																		pos:        position{line: 2882, col: 29, offset: 91150},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16053,9 +16053,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2895, col: 8, offset: 91300},
+															pos: position{line: 2892, col: 8, offset: 91310},
 															expr: &anyMatcher{
-																line: 2895, col: 9, offset: 91301,
+																line: 2892, col: 9, offset: 91311,
 															},
 														},
 													},
@@ -16106,10 +16106,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 742, col: 8, offset: 23755},
 																expr: &actionExpr{
-																	pos: position{line: 2876, col: 10, offset: 90952},
+																	pos: position{line: 2873, col: 10, offset: 90962},
 																	run: (*parser).callonDocumentHeader34,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2876, col: 10, offset: 90952},
+																		pos:        position{line: 2873, col: 10, offset: 90962},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16118,28 +16118,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2898, col: 8, offset: 91350},
+																pos: position{line: 2895, col: 8, offset: 91360},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2885, col: 12, offset: 91123},
+																		pos: position{line: 2882, col: 12, offset: 91133},
 																		run: (*parser).callonDocumentHeader37,
 																		expr: &choiceExpr{
-																			pos: position{line: 2885, col: 13, offset: 91124},
+																			pos: position{line: 2882, col: 13, offset: 91134},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 13, offset: 91124},
+																					pos:        position{line: 2882, col: 13, offset: 91134},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 20, offset: 91131},
+																					pos:        position{line: 2882, col: 20, offset: 91141},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 29, offset: 91140},
+																					pos:        position{line: 2882, col: 29, offset: 91150},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -16148,9 +16148,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91300},
+																		pos: position{line: 2892, col: 8, offset: 91310},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91301,
+																			line: 2892, col: 9, offset: 91311,
 																		},
 																	},
 																},
@@ -16211,10 +16211,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 742, col: 8, offset: 23755},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 90952},
+																									pos: position{line: 2873, col: 10, offset: 90962},
 																									run: (*parser).callonDocumentHeader59,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 90952},
+																										pos:        position{line: 2873, col: 10, offset: 90962},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -16223,28 +16223,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2898, col: 8, offset: 91350},
+																								pos: position{line: 2895, col: 8, offset: 91360},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2885, col: 12, offset: 91123},
+																										pos: position{line: 2882, col: 12, offset: 91133},
 																										run: (*parser).callonDocumentHeader62,
 																										expr: &choiceExpr{
-																											pos: position{line: 2885, col: 13, offset: 91124},
+																											pos: position{line: 2882, col: 13, offset: 91134},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 13, offset: 91124},
+																													pos:        position{line: 2882, col: 13, offset: 91134},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 20, offset: 91131},
+																													pos:        position{line: 2882, col: 20, offset: 91141},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 29, offset: 91140},
+																													pos:        position{line: 2882, col: 29, offset: 91150},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -16253,9 +16253,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2895, col: 8, offset: 91300},
+																										pos: position{line: 2892, col: 8, offset: 91310},
 																										expr: &anyMatcher{
-																											line: 2895, col: 9, offset: 91301,
+																											line: 2892, col: 9, offset: 91311,
 																										},
 																									},
 																								},
@@ -16264,9 +16264,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91300},
+																					pos: position{line: 2892, col: 8, offset: 91310},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91301,
+																						line: 2892, col: 9, offset: 91311,
 																					},
 																				},
 																			},
@@ -16282,21 +16282,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26162},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2893, col: 11, offset: 91286},
+																						pos: position{line: 2890, col: 11, offset: 91296},
 																						expr: &anyMatcher{
-																							line: 2893, col: 13, offset: 91288,
+																							line: 2890, col: 13, offset: 91298,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26237},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2822, col: 13, offset: 89478},
+																							pos: position{line: 2819, col: 13, offset: 89488},
 																							run: (*parser).callonDocumentHeader77,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2822, col: 13, offset: 89478},
+																								pos: position{line: 2819, col: 13, offset: 89488},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2822, col: 13, offset: 89478},
+																									pos:        position{line: 2819, col: 13, offset: 89488},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16306,28 +16306,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91350},
+																						pos: position{line: 2895, col: 8, offset: 91360},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91123},
+																								pos: position{line: 2882, col: 12, offset: 91133},
 																								run: (*parser).callonDocumentHeader81,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91124},
+																									pos: position{line: 2882, col: 13, offset: 91134},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91124},
+																											pos:        position{line: 2882, col: 13, offset: 91134},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91131},
+																											pos:        position{line: 2882, col: 20, offset: 91141},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91140},
+																											pos:        position{line: 2882, col: 29, offset: 91150},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16336,9 +16336,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91300},
+																								pos: position{line: 2892, col: 8, offset: 91310},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91301,
+																									line: 2892, col: 9, offset: 91311,
 																								},
 																							},
 																						},
@@ -16394,10 +16394,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 742, col: 8, offset: 23755},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 90952},
+																				pos: position{line: 2873, col: 10, offset: 90962},
 																				run: (*parser).callonDocumentHeader99,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 90952},
+																					pos:        position{line: 2873, col: 10, offset: 90962},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -16406,28 +16406,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91350},
+																			pos: position{line: 2895, col: 8, offset: 91360},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91123},
+																					pos: position{line: 2882, col: 12, offset: 91133},
 																					run: (*parser).callonDocumentHeader102,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91124},
+																						pos: position{line: 2882, col: 13, offset: 91134},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91124},
+																								pos:        position{line: 2882, col: 13, offset: 91134},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91131},
+																								pos:        position{line: 2882, col: 20, offset: 91141},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91140},
+																								pos:        position{line: 2882, col: 29, offset: 91150},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -16436,9 +16436,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91300},
+																					pos: position{line: 2892, col: 8, offset: 91310},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91301,
+																						line: 2892, col: 9, offset: 91311,
 																					},
 																				},
 																			},
@@ -16447,9 +16447,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91300},
+																pos: position{line: 2892, col: 8, offset: 91310},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91301,
+																	line: 2892, col: 9, offset: 91311,
 																},
 															},
 														},
@@ -16475,36 +16475,36 @@ var g = &grammar{
 								pos: position{line: 1106, col: 6, offset: 34005},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2483, col: 22, offset: 79859},
+										pos: position{line: 2480, col: 22, offset: 79848},
 										run: (*parser).callonDocumentHeader115,
 										expr: &seqExpr{
-											pos: position{line: 2483, col: 22, offset: 79859},
+											pos: position{line: 2480, col: 22, offset: 79848},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2488, col: 31, offset: 80080},
+													pos:        position{line: 2485, col: 31, offset: 80069},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2488, col: 36, offset: 80085},
+													pos: position{line: 2485, col: 36, offset: 80074},
 													expr: &litMatcher{
-														pos:        position{line: 2488, col: 37, offset: 80086},
+														pos:        position{line: 2485, col: 37, offset: 80075},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2483, col: 49, offset: 79886},
+													pos:   position{line: 2480, col: 49, offset: 79875},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2822, col: 13, offset: 89478},
+														pos: position{line: 2819, col: 13, offset: 89488},
 														run: (*parser).callonDocumentHeader121,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2822, col: 13, offset: 89478},
+															pos: position{line: 2819, col: 13, offset: 89488},
 															expr: &charClassMatcher{
-																pos:        position{line: 2822, col: 13, offset: 89478},
+																pos:        position{line: 2819, col: 13, offset: 89488},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16514,28 +16514,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2898, col: 8, offset: 91350},
+													pos: position{line: 2895, col: 8, offset: 91360},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91123},
+															pos: position{line: 2882, col: 12, offset: 91133},
 															run: (*parser).callonDocumentHeader125,
 															expr: &choiceExpr{
-																pos: position{line: 2885, col: 13, offset: 91124},
+																pos: position{line: 2882, col: 13, offset: 91134},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 13, offset: 91124},
+																		pos:        position{line: 2882, col: 13, offset: 91134},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 20, offset: 91131},
+																		pos:        position{line: 2882, col: 20, offset: 91141},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 29, offset: 91140},
+																		pos:        position{line: 2882, col: 29, offset: 91150},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16544,9 +16544,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2895, col: 8, offset: 91300},
+															pos: position{line: 2892, col: 8, offset: 91310},
 															expr: &anyMatcher{
-																line: 2895, col: 9, offset: 91301,
+																line: 2892, col: 9, offset: 91311,
 															},
 														},
 													},
@@ -16597,10 +16597,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 742, col: 8, offset: 23755},
 																expr: &actionExpr{
-																	pos: position{line: 2876, col: 10, offset: 90952},
+																	pos: position{line: 2873, col: 10, offset: 90962},
 																	run: (*parser).callonDocumentHeader143,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2876, col: 10, offset: 90952},
+																		pos:        position{line: 2873, col: 10, offset: 90962},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16609,28 +16609,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2898, col: 8, offset: 91350},
+																pos: position{line: 2895, col: 8, offset: 91360},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2885, col: 12, offset: 91123},
+																		pos: position{line: 2882, col: 12, offset: 91133},
 																		run: (*parser).callonDocumentHeader146,
 																		expr: &choiceExpr{
-																			pos: position{line: 2885, col: 13, offset: 91124},
+																			pos: position{line: 2882, col: 13, offset: 91134},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 13, offset: 91124},
+																					pos:        position{line: 2882, col: 13, offset: 91134},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 20, offset: 91131},
+																					pos:        position{line: 2882, col: 20, offset: 91141},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 29, offset: 91140},
+																					pos:        position{line: 2882, col: 29, offset: 91150},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -16639,9 +16639,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91300},
+																		pos: position{line: 2892, col: 8, offset: 91310},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91301,
+																			line: 2892, col: 9, offset: 91311,
 																		},
 																	},
 																},
@@ -16702,10 +16702,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 742, col: 8, offset: 23755},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 90952},
+																									pos: position{line: 2873, col: 10, offset: 90962},
 																									run: (*parser).callonDocumentHeader168,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 90952},
+																										pos:        position{line: 2873, col: 10, offset: 90962},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -16714,28 +16714,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2898, col: 8, offset: 91350},
+																								pos: position{line: 2895, col: 8, offset: 91360},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2885, col: 12, offset: 91123},
+																										pos: position{line: 2882, col: 12, offset: 91133},
 																										run: (*parser).callonDocumentHeader171,
 																										expr: &choiceExpr{
-																											pos: position{line: 2885, col: 13, offset: 91124},
+																											pos: position{line: 2882, col: 13, offset: 91134},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 13, offset: 91124},
+																													pos:        position{line: 2882, col: 13, offset: 91134},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 20, offset: 91131},
+																													pos:        position{line: 2882, col: 20, offset: 91141},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 29, offset: 91140},
+																													pos:        position{line: 2882, col: 29, offset: 91150},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -16744,9 +16744,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2895, col: 8, offset: 91300},
+																										pos: position{line: 2892, col: 8, offset: 91310},
 																										expr: &anyMatcher{
-																											line: 2895, col: 9, offset: 91301,
+																											line: 2892, col: 9, offset: 91311,
 																										},
 																									},
 																								},
@@ -16755,9 +16755,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91300},
+																					pos: position{line: 2892, col: 8, offset: 91310},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91301,
+																						line: 2892, col: 9, offset: 91311,
 																					},
 																				},
 																			},
@@ -16773,21 +16773,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26162},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2893, col: 11, offset: 91286},
+																						pos: position{line: 2890, col: 11, offset: 91296},
 																						expr: &anyMatcher{
-																							line: 2893, col: 13, offset: 91288,
+																							line: 2890, col: 13, offset: 91298,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26237},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2822, col: 13, offset: 89478},
+																							pos: position{line: 2819, col: 13, offset: 89488},
 																							run: (*parser).callonDocumentHeader186,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2822, col: 13, offset: 89478},
+																								pos: position{line: 2819, col: 13, offset: 89488},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2822, col: 13, offset: 89478},
+																									pos:        position{line: 2819, col: 13, offset: 89488},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16797,28 +16797,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91350},
+																						pos: position{line: 2895, col: 8, offset: 91360},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91123},
+																								pos: position{line: 2882, col: 12, offset: 91133},
 																								run: (*parser).callonDocumentHeader190,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91124},
+																									pos: position{line: 2882, col: 13, offset: 91134},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91124},
+																											pos:        position{line: 2882, col: 13, offset: 91134},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91131},
+																											pos:        position{line: 2882, col: 20, offset: 91141},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91140},
+																											pos:        position{line: 2882, col: 29, offset: 91150},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16827,9 +16827,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91300},
+																								pos: position{line: 2892, col: 8, offset: 91310},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91301,
+																									line: 2892, col: 9, offset: 91311,
 																								},
 																							},
 																						},
@@ -16885,10 +16885,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 742, col: 8, offset: 23755},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 90952},
+																				pos: position{line: 2873, col: 10, offset: 90962},
 																				run: (*parser).callonDocumentHeader208,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 90952},
+																					pos:        position{line: 2873, col: 10, offset: 90962},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -16897,28 +16897,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91350},
+																			pos: position{line: 2895, col: 8, offset: 91360},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91123},
+																					pos: position{line: 2882, col: 12, offset: 91133},
 																					run: (*parser).callonDocumentHeader211,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91124},
+																						pos: position{line: 2882, col: 13, offset: 91134},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91124},
+																								pos:        position{line: 2882, col: 13, offset: 91134},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91131},
+																								pos:        position{line: 2882, col: 20, offset: 91141},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91140},
+																								pos:        position{line: 2882, col: 29, offset: 91150},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -16927,9 +16927,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91300},
+																					pos: position{line: 2892, col: 8, offset: 91310},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91301,
+																						line: 2892, col: 9, offset: 91311,
 																					},
 																				},
 																			},
@@ -16938,9 +16938,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91300},
+																pos: position{line: 2892, col: 8, offset: 91310},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91301,
+																	line: 2892, col: 9, offset: 91311,
 																},
 															},
 														},
@@ -16984,10 +16984,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1125, col: 20, offset: 34760},
 																expr: &actionExpr{
-																	pos: position{line: 2876, col: 10, offset: 90952},
+																	pos: position{line: 2873, col: 10, offset: 90962},
 																	run: (*parser).callonDocumentHeader230,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2876, col: 10, offset: 90952},
+																		pos:        position{line: 2873, col: 10, offset: 90962},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17038,10 +17038,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1144, col: 5, offset: 35365},
 																										expr: &actionExpr{
-																											pos: position{line: 2876, col: 10, offset: 90952},
+																											pos: position{line: 2873, col: 10, offset: 90962},
 																											run: (*parser).callonDocumentHeader245,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2876, col: 10, offset: 90952},
+																												pos:        position{line: 2873, col: 10, offset: 90962},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17073,10 +17073,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1148, col: 5, offset: 35464},
 																										expr: &actionExpr{
-																											pos: position{line: 2876, col: 10, offset: 90952},
+																											pos: position{line: 2873, col: 10, offset: 90962},
 																											run: (*parser).callonDocumentHeader253,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2876, col: 10, offset: 90952},
+																												pos:        position{line: 2873, col: 10, offset: 90962},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17108,10 +17108,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1152, col: 5, offset: 35561},
 																										expr: &actionExpr{
-																											pos: position{line: 2876, col: 10, offset: 90952},
+																											pos: position{line: 2873, col: 10, offset: 90962},
 																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2876, col: 10, offset: 90952},
+																												pos:        position{line: 2873, col: 10, offset: 90962},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17136,9 +17136,9 @@ var g = &grammar{
 																								pos: position{line: 1158, col: 5, offset: 35683},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2893, col: 11, offset: 91286},
+																										pos: position{line: 2890, col: 11, offset: 91296},
 																										expr: &anyMatcher{
-																											line: 2893, col: 13, offset: 91288,
+																											line: 2890, col: 13, offset: 91298,
 																										},
 																									},
 																									&litMatcher{
@@ -17179,10 +17179,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1130, col: 69, offset: 34953},
 																					expr: &actionExpr{
-																						pos: position{line: 2876, col: 10, offset: 90952},
+																						pos: position{line: 2873, col: 10, offset: 90962},
 																						run: (*parser).callonDocumentHeader276,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2876, col: 10, offset: 90952},
+																							pos:        position{line: 2873, col: 10, offset: 90962},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17202,10 +17202,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1130, col: 81, offset: 34965},
 																					expr: &actionExpr{
-																						pos: position{line: 2876, col: 10, offset: 90952},
+																						pos: position{line: 2873, col: 10, offset: 90962},
 																						run: (*parser).callonDocumentHeader281,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2876, col: 10, offset: 90952},
+																							pos:        position{line: 2873, col: 10, offset: 90962},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17223,28 +17223,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2898, col: 8, offset: 91350},
+																pos: position{line: 2895, col: 8, offset: 91360},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2885, col: 12, offset: 91123},
+																		pos: position{line: 2882, col: 12, offset: 91133},
 																		run: (*parser).callonDocumentHeader285,
 																		expr: &choiceExpr{
-																			pos: position{line: 2885, col: 13, offset: 91124},
+																			pos: position{line: 2882, col: 13, offset: 91134},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 13, offset: 91124},
+																					pos:        position{line: 2882, col: 13, offset: 91134},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 20, offset: 91131},
+																					pos:        position{line: 2882, col: 20, offset: 91141},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 29, offset: 91140},
+																					pos:        position{line: 2882, col: 29, offset: 91150},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17253,9 +17253,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91300},
+																		pos: position{line: 2892, col: 8, offset: 91310},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91301,
+																			line: 2892, col: 9, offset: 91311,
 																		},
 																	},
 																},
@@ -17270,36 +17270,36 @@ var g = &grammar{
 													pos: position{line: 1120, col: 6, offset: 34535},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2483, col: 22, offset: 79859},
+															pos: position{line: 2480, col: 22, offset: 79848},
 															run: (*parser).callonDocumentHeader294,
 															expr: &seqExpr{
-																pos: position{line: 2483, col: 22, offset: 79859},
+																pos: position{line: 2480, col: 22, offset: 79848},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2488, col: 31, offset: 80080},
+																		pos:        position{line: 2485, col: 31, offset: 80069},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2488, col: 36, offset: 80085},
+																		pos: position{line: 2485, col: 36, offset: 80074},
 																		expr: &litMatcher{
-																			pos:        position{line: 2488, col: 37, offset: 80086},
+																			pos:        position{line: 2485, col: 37, offset: 80075},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2483, col: 49, offset: 79886},
+																		pos:   position{line: 2480, col: 49, offset: 79875},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2822, col: 13, offset: 89478},
+																			pos: position{line: 2819, col: 13, offset: 89488},
 																			run: (*parser).callonDocumentHeader300,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2822, col: 13, offset: 89478},
+																				pos: position{line: 2819, col: 13, offset: 89488},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2822, col: 13, offset: 89478},
+																					pos:        position{line: 2819, col: 13, offset: 89488},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -17309,28 +17309,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91350},
+																		pos: position{line: 2895, col: 8, offset: 91360},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91123},
+																				pos: position{line: 2882, col: 12, offset: 91133},
 																				run: (*parser).callonDocumentHeader304,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91124},
+																					pos: position{line: 2882, col: 13, offset: 91134},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91124},
+																							pos:        position{line: 2882, col: 13, offset: 91134},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91131},
+																							pos:        position{line: 2882, col: 20, offset: 91141},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91140},
+																							pos:        position{line: 2882, col: 29, offset: 91150},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -17339,9 +17339,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91300},
+																				pos: position{line: 2892, col: 8, offset: 91310},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91301,
+																					line: 2892, col: 9, offset: 91311,
 																				},
 																			},
 																		},
@@ -17392,10 +17392,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 742, col: 8, offset: 23755},
 																					expr: &actionExpr{
-																						pos: position{line: 2876, col: 10, offset: 90952},
+																						pos: position{line: 2873, col: 10, offset: 90962},
 																						run: (*parser).callonDocumentHeader322,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2876, col: 10, offset: 90952},
+																							pos:        position{line: 2873, col: 10, offset: 90962},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17404,28 +17404,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2898, col: 8, offset: 91350},
+																					pos: position{line: 2895, col: 8, offset: 91360},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2885, col: 12, offset: 91123},
+																							pos: position{line: 2882, col: 12, offset: 91133},
 																							run: (*parser).callonDocumentHeader325,
 																							expr: &choiceExpr{
-																								pos: position{line: 2885, col: 13, offset: 91124},
+																								pos: position{line: 2882, col: 13, offset: 91134},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 13, offset: 91124},
+																										pos:        position{line: 2882, col: 13, offset: 91134},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 20, offset: 91131},
+																										pos:        position{line: 2882, col: 20, offset: 91141},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 29, offset: 91140},
+																										pos:        position{line: 2882, col: 29, offset: 91150},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -17434,9 +17434,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2895, col: 8, offset: 91300},
+																							pos: position{line: 2892, col: 8, offset: 91310},
 																							expr: &anyMatcher{
-																								line: 2895, col: 9, offset: 91301,
+																								line: 2892, col: 9, offset: 91311,
 																							},
 																						},
 																					},
@@ -17497,10 +17497,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 742, col: 8, offset: 23755},
 																													expr: &actionExpr{
-																														pos: position{line: 2876, col: 10, offset: 90952},
+																														pos: position{line: 2873, col: 10, offset: 90962},
 																														run: (*parser).callonDocumentHeader347,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2876, col: 10, offset: 90952},
+																															pos:        position{line: 2873, col: 10, offset: 90962},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -17509,28 +17509,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2898, col: 8, offset: 91350},
+																													pos: position{line: 2895, col: 8, offset: 91360},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2885, col: 12, offset: 91123},
+																															pos: position{line: 2882, col: 12, offset: 91133},
 																															run: (*parser).callonDocumentHeader350,
 																															expr: &choiceExpr{
-																																pos: position{line: 2885, col: 13, offset: 91124},
+																																pos: position{line: 2882, col: 13, offset: 91134},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2885, col: 13, offset: 91124},
+																																		pos:        position{line: 2882, col: 13, offset: 91134},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2885, col: 20, offset: 91131},
+																																		pos:        position{line: 2882, col: 20, offset: 91141},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2885, col: 29, offset: 91140},
+																																		pos:        position{line: 2882, col: 29, offset: 91150},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -17539,9 +17539,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2895, col: 8, offset: 91300},
+																															pos: position{line: 2892, col: 8, offset: 91310},
 																															expr: &anyMatcher{
-																																line: 2895, col: 9, offset: 91301,
+																																line: 2892, col: 9, offset: 91311,
 																															},
 																														},
 																													},
@@ -17550,9 +17550,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2895, col: 8, offset: 91300},
+																										pos: position{line: 2892, col: 8, offset: 91310},
 																										expr: &anyMatcher{
-																											line: 2895, col: 9, offset: 91301,
+																											line: 2892, col: 9, offset: 91311,
 																										},
 																									},
 																								},
@@ -17568,21 +17568,21 @@ var g = &grammar{
 																									pos: position{line: 811, col: 5, offset: 26162},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2893, col: 11, offset: 91286},
+																											pos: position{line: 2890, col: 11, offset: 91296},
 																											expr: &anyMatcher{
-																												line: 2893, col: 13, offset: 91288,
+																												line: 2890, col: 13, offset: 91298,
 																											},
 																										},
 																										&labeledExpr{
 																											pos:   position{line: 812, col: 5, offset: 26237},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2822, col: 13, offset: 89478},
+																												pos: position{line: 2819, col: 13, offset: 89488},
 																												run: (*parser).callonDocumentHeader365,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2822, col: 13, offset: 89478},
+																													pos: position{line: 2819, col: 13, offset: 89488},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2822, col: 13, offset: 89478},
+																														pos:        position{line: 2819, col: 13, offset: 89488},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -17592,28 +17592,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91350},
+																											pos: position{line: 2895, col: 8, offset: 91360},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91123},
+																													pos: position{line: 2882, col: 12, offset: 91133},
 																													run: (*parser).callonDocumentHeader369,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91124},
+																														pos: position{line: 2882, col: 13, offset: 91134},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91124},
+																																pos:        position{line: 2882, col: 13, offset: 91134},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91131},
+																																pos:        position{line: 2882, col: 20, offset: 91141},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91140},
+																																pos:        position{line: 2882, col: 29, offset: 91150},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17622,9 +17622,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91300},
+																													pos: position{line: 2892, col: 8, offset: 91310},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91301,
+																														line: 2892, col: 9, offset: 91311,
 																													},
 																												},
 																											},
@@ -17680,10 +17680,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 742, col: 8, offset: 23755},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 90952},
+																									pos: position{line: 2873, col: 10, offset: 90962},
 																									run: (*parser).callonDocumentHeader387,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 90952},
+																										pos:        position{line: 2873, col: 10, offset: 90962},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -17692,28 +17692,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2898, col: 8, offset: 91350},
+																								pos: position{line: 2895, col: 8, offset: 91360},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2885, col: 12, offset: 91123},
+																										pos: position{line: 2882, col: 12, offset: 91133},
 																										run: (*parser).callonDocumentHeader390,
 																										expr: &choiceExpr{
-																											pos: position{line: 2885, col: 13, offset: 91124},
+																											pos: position{line: 2882, col: 13, offset: 91134},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 13, offset: 91124},
+																													pos:        position{line: 2882, col: 13, offset: 91134},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 20, offset: 91131},
+																													pos:        position{line: 2882, col: 20, offset: 91141},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 29, offset: 91140},
+																													pos:        position{line: 2882, col: 29, offset: 91150},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -17722,9 +17722,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2895, col: 8, offset: 91300},
+																										pos: position{line: 2892, col: 8, offset: 91310},
 																										expr: &anyMatcher{
-																											line: 2895, col: 9, offset: 91301,
+																											line: 2892, col: 9, offset: 91311,
 																										},
 																									},
 																								},
@@ -17733,9 +17733,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91300},
+																					pos: position{line: 2892, col: 8, offset: 91310},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91301,
+																						line: 2892, col: 9, offset: 91311,
 																					},
 																				},
 																			},
@@ -17761,10 +17761,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1169, col: 21, offset: 35961},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 90952},
+																		pos: position{line: 2873, col: 10, offset: 90962},
 																		run: (*parser).callonDocumentHeader404,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 90952},
+																			pos:        position{line: 2873, col: 10, offset: 90962},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -17866,10 +17866,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 1181, col: 28, offset: 36592},
 																													expr: &actionExpr{
-																														pos: position{line: 2876, col: 10, offset: 90952},
+																														pos: position{line: 2873, col: 10, offset: 90962},
 																														run: (*parser).callonDocumentHeader428,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2876, col: 10, offset: 90952},
+																															pos:        position{line: 2873, col: 10, offset: 90962},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -18016,28 +18016,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91350},
+																	pos: position{line: 2895, col: 8, offset: 91360},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91123},
+																			pos: position{line: 2882, col: 12, offset: 91133},
 																			run: (*parser).callonDocumentHeader460,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91124},
+																				pos: position{line: 2882, col: 13, offset: 91134},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91124},
+																						pos:        position{line: 2882, col: 13, offset: 91134},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91131},
+																						pos:        position{line: 2882, col: 20, offset: 91141},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91140},
+																						pos:        position{line: 2882, col: 29, offset: 91150},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18046,9 +18046,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91300},
+																			pos: position{line: 2892, col: 8, offset: 91310},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91301,
+																				line: 2892, col: 9, offset: 91311,
 																			},
 																		},
 																	},
@@ -18128,10 +18128,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 360, col: 49, offset: 10941},
 														expr: &actionExpr{
-															pos: position{line: 2876, col: 10, offset: 90952},
+															pos: position{line: 2873, col: 10, offset: 90962},
 															run: (*parser).callonDocumentHeader482,
 															expr: &charClassMatcher{
-																pos:        position{line: 2876, col: 10, offset: 90952},
+																pos:        position{line: 2873, col: 10, offset: 90962},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18140,28 +18140,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2898, col: 8, offset: 91350},
+														pos: position{line: 2895, col: 8, offset: 91360},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2885, col: 12, offset: 91123},
+																pos: position{line: 2882, col: 12, offset: 91133},
 																run: (*parser).callonDocumentHeader485,
 																expr: &choiceExpr{
-																	pos: position{line: 2885, col: 13, offset: 91124},
+																	pos: position{line: 2882, col: 13, offset: 91134},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 13, offset: 91124},
+																			pos:        position{line: 2882, col: 13, offset: 91134},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 20, offset: 91131},
+																			pos:        position{line: 2882, col: 20, offset: 91141},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 29, offset: 91140},
+																			pos:        position{line: 2882, col: 29, offset: 91150},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18170,9 +18170,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91300},
+																pos: position{line: 2892, col: 8, offset: 91310},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91301,
+																	line: 2892, col: 9, offset: 91311,
 																},
 															},
 														},
@@ -18233,10 +18233,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 39, offset: 11062},
 														expr: &actionExpr{
-															pos: position{line: 2876, col: 10, offset: 90952},
+															pos: position{line: 2873, col: 10, offset: 90962},
 															run: (*parser).callonDocumentHeader503,
 															expr: &charClassMatcher{
-																pos:        position{line: 2876, col: 10, offset: 90952},
+																pos:        position{line: 2873, col: 10, offset: 90962},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18245,28 +18245,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2898, col: 8, offset: 91350},
+														pos: position{line: 2895, col: 8, offset: 91360},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2885, col: 12, offset: 91123},
+																pos: position{line: 2882, col: 12, offset: 91133},
 																run: (*parser).callonDocumentHeader506,
 																expr: &choiceExpr{
-																	pos: position{line: 2885, col: 13, offset: 91124},
+																	pos: position{line: 2882, col: 13, offset: 91134},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 13, offset: 91124},
+																			pos:        position{line: 2882, col: 13, offset: 91134},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 20, offset: 91131},
+																			pos:        position{line: 2882, col: 20, offset: 91141},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 29, offset: 91140},
+																			pos:        position{line: 2882, col: 29, offset: 91150},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18275,9 +18275,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91300},
+																pos: position{line: 2892, col: 8, offset: 91310},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91301,
+																	line: 2892, col: 9, offset: 91311,
 																},
 															},
 														},
@@ -18286,36 +18286,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2483, col: 22, offset: 79859},
+											pos: position{line: 2480, col: 22, offset: 79848},
 											run: (*parser).callonDocumentHeader513,
 											expr: &seqExpr{
-												pos: position{line: 2483, col: 22, offset: 79859},
+												pos: position{line: 2480, col: 22, offset: 79848},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2488, col: 31, offset: 80080},
+														pos:        position{line: 2485, col: 31, offset: 80069},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2488, col: 36, offset: 80085},
+														pos: position{line: 2485, col: 36, offset: 80074},
 														expr: &litMatcher{
-															pos:        position{line: 2488, col: 37, offset: 80086},
+															pos:        position{line: 2485, col: 37, offset: 80075},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2483, col: 49, offset: 79886},
+														pos:   position{line: 2480, col: 49, offset: 79875},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2822, col: 13, offset: 89478},
+															pos: position{line: 2819, col: 13, offset: 89488},
 															run: (*parser).callonDocumentHeader519,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2822, col: 13, offset: 89478},
+																pos: position{line: 2819, col: 13, offset: 89488},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2822, col: 13, offset: 89478},
+																	pos:        position{line: 2819, col: 13, offset: 89488},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -18325,28 +18325,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2898, col: 8, offset: 91350},
+														pos: position{line: 2895, col: 8, offset: 91360},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2885, col: 12, offset: 91123},
+																pos: position{line: 2882, col: 12, offset: 91133},
 																run: (*parser).callonDocumentHeader523,
 																expr: &choiceExpr{
-																	pos: position{line: 2885, col: 13, offset: 91124},
+																	pos: position{line: 2882, col: 13, offset: 91134},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 13, offset: 91124},
+																			pos:        position{line: 2882, col: 13, offset: 91134},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 20, offset: 91131},
+																			pos:        position{line: 2882, col: 20, offset: 91141},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 29, offset: 91140},
+																			pos:        position{line: 2882, col: 29, offset: 91150},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18355,9 +18355,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91300},
+																pos: position{line: 2892, col: 8, offset: 91310},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91301,
+																	line: 2892, col: 9, offset: 91311,
 																},
 															},
 														},
@@ -18408,10 +18408,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 742, col: 8, offset: 23755},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 90952},
+																		pos: position{line: 2873, col: 10, offset: 90962},
 																		run: (*parser).callonDocumentHeader541,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 90952},
+																			pos:        position{line: 2873, col: 10, offset: 90962},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18420,28 +18420,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91350},
+																	pos: position{line: 2895, col: 8, offset: 91360},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91123},
+																			pos: position{line: 2882, col: 12, offset: 91133},
 																			run: (*parser).callonDocumentHeader544,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91124},
+																				pos: position{line: 2882, col: 13, offset: 91134},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91124},
+																						pos:        position{line: 2882, col: 13, offset: 91134},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91131},
+																						pos:        position{line: 2882, col: 20, offset: 91141},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91140},
+																						pos:        position{line: 2882, col: 29, offset: 91150},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18450,9 +18450,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91300},
+																			pos: position{line: 2892, col: 8, offset: 91310},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91301,
+																				line: 2892, col: 9, offset: 91311,
 																			},
 																		},
 																	},
@@ -18513,10 +18513,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 742, col: 8, offset: 23755},
 																									expr: &actionExpr{
-																										pos: position{line: 2876, col: 10, offset: 90952},
+																										pos: position{line: 2873, col: 10, offset: 90962},
 																										run: (*parser).callonDocumentHeader566,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2876, col: 10, offset: 90952},
+																											pos:        position{line: 2873, col: 10, offset: 90962},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -18525,28 +18525,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2898, col: 8, offset: 91350},
+																									pos: position{line: 2895, col: 8, offset: 91360},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2885, col: 12, offset: 91123},
+																											pos: position{line: 2882, col: 12, offset: 91133},
 																											run: (*parser).callonDocumentHeader569,
 																											expr: &choiceExpr{
-																												pos: position{line: 2885, col: 13, offset: 91124},
+																												pos: position{line: 2882, col: 13, offset: 91134},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 13, offset: 91124},
+																														pos:        position{line: 2882, col: 13, offset: 91134},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 20, offset: 91131},
+																														pos:        position{line: 2882, col: 20, offset: 91141},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 29, offset: 91140},
+																														pos:        position{line: 2882, col: 29, offset: 91150},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -18555,9 +18555,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2895, col: 8, offset: 91300},
+																											pos: position{line: 2892, col: 8, offset: 91310},
 																											expr: &anyMatcher{
-																												line: 2895, col: 9, offset: 91301,
+																												line: 2892, col: 9, offset: 91311,
 																											},
 																										},
 																									},
@@ -18566,9 +18566,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91300},
+																						pos: position{line: 2892, col: 8, offset: 91310},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91301,
+																							line: 2892, col: 9, offset: 91311,
 																						},
 																					},
 																				},
@@ -18584,21 +18584,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26162},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2893, col: 11, offset: 91286},
+																							pos: position{line: 2890, col: 11, offset: 91296},
 																							expr: &anyMatcher{
-																								line: 2893, col: 13, offset: 91288,
+																								line: 2890, col: 13, offset: 91298,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26237},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2822, col: 13, offset: 89478},
+																								pos: position{line: 2819, col: 13, offset: 89488},
 																								run: (*parser).callonDocumentHeader584,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2822, col: 13, offset: 89478},
+																									pos: position{line: 2819, col: 13, offset: 89488},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2822, col: 13, offset: 89478},
+																										pos:        position{line: 2819, col: 13, offset: 89488},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -18608,28 +18608,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91350},
+																							pos: position{line: 2895, col: 8, offset: 91360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91123},
+																									pos: position{line: 2882, col: 12, offset: 91133},
 																									run: (*parser).callonDocumentHeader588,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91124},
+																										pos: position{line: 2882, col: 13, offset: 91134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91124},
+																												pos:        position{line: 2882, col: 13, offset: 91134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91131},
+																												pos:        position{line: 2882, col: 20, offset: 91141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91140},
+																												pos:        position{line: 2882, col: 29, offset: 91150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -18638,9 +18638,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91300},
+																									pos: position{line: 2892, col: 8, offset: 91310},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91301,
+																										line: 2892, col: 9, offset: 91311,
 																									},
 																								},
 																							},
@@ -18696,10 +18696,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 742, col: 8, offset: 23755},
 																				expr: &actionExpr{
-																					pos: position{line: 2876, col: 10, offset: 90952},
+																					pos: position{line: 2873, col: 10, offset: 90962},
 																					run: (*parser).callonDocumentHeader606,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2876, col: 10, offset: 90952},
+																						pos:        position{line: 2873, col: 10, offset: 90962},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -18708,28 +18708,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2898, col: 8, offset: 91350},
+																				pos: position{line: 2895, col: 8, offset: 91360},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2885, col: 12, offset: 91123},
+																						pos: position{line: 2882, col: 12, offset: 91133},
 																						run: (*parser).callonDocumentHeader609,
 																						expr: &choiceExpr{
-																							pos: position{line: 2885, col: 13, offset: 91124},
+																							pos: position{line: 2882, col: 13, offset: 91134},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 13, offset: 91124},
+																									pos:        position{line: 2882, col: 13, offset: 91134},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 20, offset: 91131},
+																									pos:        position{line: 2882, col: 20, offset: 91141},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 29, offset: 91140},
+																									pos:        position{line: 2882, col: 29, offset: 91150},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -18738,9 +18738,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91300},
+																						pos: position{line: 2892, col: 8, offset: 91310},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91301,
+																							line: 2892, col: 9, offset: 91311,
 																						},
 																					},
 																				},
@@ -18749,9 +18749,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2895, col: 8, offset: 91300},
+																	pos: position{line: 2892, col: 8, offset: 91310},
 																	expr: &anyMatcher{
-																		line: 2895, col: 9, offset: 91301,
+																		line: 2892, col: 9, offset: 91311,
 																	},
 																},
 															},
@@ -18784,12 +18784,12 @@ var g = &grammar{
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2880, col: 11, offset: 91013},
+							pos: position{line: 2877, col: 11, offset: 91023},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2880, col: 11, offset: 91013},
+								pos: position{line: 2877, col: 11, offset: 91023},
 								expr: &charClassMatcher{
-									pos:        position{line: 2880, col: 11, offset: 91013},
+									pos:        position{line: 2877, col: 11, offset: 91023},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18806,28 +18806,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2898, col: 8, offset: 91350},
+							pos: position{line: 2895, col: 8, offset: 91360},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2885, col: 12, offset: 91123},
+									pos: position{line: 2882, col: 12, offset: 91133},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2885, col: 13, offset: 91124},
+										pos: position{line: 2882, col: 13, offset: 91134},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2885, col: 13, offset: 91124},
+												pos:        position{line: 2882, col: 13, offset: 91134},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 20, offset: 91131},
+												pos:        position{line: 2882, col: 20, offset: 91141},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 29, offset: 91140},
+												pos:        position{line: 2882, col: 29, offset: 91150},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -18836,9 +18836,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2895, col: 8, offset: 91300},
+									pos: position{line: 2892, col: 8, offset: 91310},
 									expr: &anyMatcher{
-										line: 2895, col: 9, offset: 91301,
+										line: 2892, col: 9, offset: 91311,
 									},
 								},
 							},
@@ -18877,10 +18877,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1144, col: 5, offset: 35365},
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 10, offset: 90952},
+								pos: position{line: 2873, col: 10, offset: 90962},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2876, col: 10, offset: 90952},
+									pos:        position{line: 2873, col: 10, offset: 90962},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18912,10 +18912,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1148, col: 5, offset: 35464},
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 10, offset: 90952},
+								pos: position{line: 2873, col: 10, offset: 90962},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2876, col: 10, offset: 90952},
+									pos:        position{line: 2873, col: 10, offset: 90962},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18947,10 +18947,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1152, col: 5, offset: 35561},
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 10, offset: 90952},
+								pos: position{line: 2873, col: 10, offset: 90962},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2876, col: 10, offset: 90952},
+									pos:        position{line: 2873, col: 10, offset: 90962},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19016,12 +19016,12 @@ var g = &grammar{
 							pos:   position{line: 1280, col: 13, offset: 39763},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2861, col: 7, offset: 90604},
+								pos: position{line: 2858, col: 7, offset: 90614},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2861, col: 7, offset: 90604},
+									pos: position{line: 2858, col: 7, offset: 90614},
 									expr: &charClassMatcher{
-										pos:        position{line: 2861, col: 7, offset: 90604},
+										pos:        position{line: 2858, col: 7, offset: 90614},
 										val:        "[^[]<>,\\r\\n]",
 										chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 										ignoreCase: false,
@@ -19090,12 +19090,12 @@ var g = &grammar{
 							pos: position{line: 1291, col: 31, offset: 40223},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2770, col: 14, offset: 88121},
+									pos: position{line: 2767, col: 14, offset: 88110},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2770, col: 14, offset: 88121},
+										pos: position{line: 2767, col: 14, offset: 88110},
 										expr: &charClassMatcher{
-											pos:        position{line: 2770, col: 14, offset: 88121},
+											pos:        position{line: 2767, col: 14, offset: 88110},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -19108,10 +19108,10 @@ var g = &grammar{
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2876, col: 10, offset: 90952},
+									pos: position{line: 2873, col: 10, offset: 90962},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2876, col: 10, offset: 90952},
+										pos:        position{line: 2873, col: 10, offset: 90962},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -19119,23 +19119,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2470, col: 5, offset: 79405},
+									pos: position{line: 2467, col: 5, offset: 79394},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2470, col: 5, offset: 79405},
+										pos: position{line: 2467, col: 5, offset: 79394},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2470, col: 5, offset: 79405},
+												pos: position{line: 2467, col: 5, offset: 79394},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2473, col: 5, offset: 79481},
+												pos:   position{line: 2470, col: 5, offset: 79470},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2474, col: 9, offset: 79499},
+													pos: position{line: 2471, col: 9, offset: 79488},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2474, col: 10, offset: 79500},
+														pos:        position{line: 2471, col: 10, offset: 79489},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -19225,10 +19225,10 @@ var g = &grammar{
 							pos:   position{line: 1312, col: 5, offset: 41031},
 							label: "start",
 							expr: &actionExpr{
-								pos: position{line: 2901, col: 16, offset: 91474},
+								pos: position{line: 2898, col: 16, offset: 91484},
 								run: (*parser).callonImageBlock4,
 								expr: &litMatcher{
-									pos:        position{line: 2901, col: 16, offset: 91474},
+									pos:        position{line: 2898, col: 16, offset: 91484},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -19245,48 +19245,48 @@ var g = &grammar{
 							pos:   position{line: 1312, col: 35, offset: 41061},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2834, col: 13, offset: 89711},
+								pos: position{line: 2831, col: 13, offset: 89721},
 								run: (*parser).callonImageBlock8,
 								expr: &seqExpr{
-									pos: position{line: 2834, col: 13, offset: 89711},
+									pos: position{line: 2831, col: 13, offset: 89721},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2834, col: 13, offset: 89711},
+											pos:   position{line: 2831, col: 13, offset: 89721},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2834, col: 20, offset: 89718},
+												pos: position{line: 2831, col: 20, offset: 89728},
 												expr: &actionExpr{
-													pos: position{line: 2842, col: 11, offset: 89957},
+													pos: position{line: 2839, col: 11, offset: 89967},
 													run: (*parser).callonImageBlock12,
 													expr: &choiceExpr{
-														pos: position{line: 2842, col: 12, offset: 89958},
+														pos: position{line: 2839, col: 12, offset: 89968},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2842, col: 12, offset: 89958},
+																pos:        position{line: 2839, col: 12, offset: 89968},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2842, col: 24, offset: 89970},
+																pos:        position{line: 2839, col: 24, offset: 89980},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2842, col: 37, offset: 89983},
+																pos:        position{line: 2839, col: 37, offset: 89993},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2842, col: 48, offset: 89994},
+																pos:        position{line: 2839, col: 48, offset: 90004},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2842, col: 59, offset: 90005},
+																pos:        position{line: 2839, col: 59, offset: 90015},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19297,38 +19297,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2834, col: 30, offset: 89728},
+											pos:   position{line: 2831, col: 30, offset: 89738},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2847, col: 5, offset: 90069},
+												pos: position{line: 2844, col: 5, offset: 90079},
 												run: (*parser).callonImageBlock20,
 												expr: &labeledExpr{
-													pos:   position{line: 2847, col: 5, offset: 90069},
+													pos:   position{line: 2844, col: 5, offset: 90079},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2847, col: 14, offset: 90078},
+														pos: position{line: 2844, col: 14, offset: 90088},
 														expr: &choiceExpr{
-															pos: position{line: 2848, col: 9, offset: 90088},
+															pos: position{line: 2845, col: 9, offset: 90098},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2848, col: 9, offset: 90088},
+																	pos: position{line: 2845, col: 9, offset: 90098},
 																	run: (*parser).callonImageBlock24,
 																	expr: &seqExpr{
-																		pos: position{line: 2848, col: 9, offset: 90088},
+																		pos: position{line: 2845, col: 9, offset: 90098},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2848, col: 9, offset: 90088},
+																				pos: position{line: 2845, col: 9, offset: 90098},
 																				expr: &litMatcher{
-																					pos:        position{line: 2848, col: 10, offset: 90089},
+																					pos:        position{line: 2845, col: 10, offset: 90099},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2849, col: 9, offset: 90117},
+																				pos: position{line: 2846, col: 9, offset: 90127},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2849, col: 10, offset: 90118},
+																					pos:        position{line: 2846, col: 10, offset: 90128},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19339,27 +19339,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2852, col: 11, offset: 90330},
+																	pos: position{line: 2849, col: 11, offset: 90340},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2852, col: 11, offset: 90330},
+																			pos:        position{line: 2849, col: 11, offset: 90340},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2852, col: 19, offset: 90338},
+																			pos: position{line: 2849, col: 19, offset: 90348},
 																			expr: &seqExpr{
-																				pos: position{line: 2852, col: 21, offset: 90340},
+																				pos: position{line: 2849, col: 21, offset: 90350},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2852, col: 21, offset: 90340},
+																						pos: position{line: 2849, col: 21, offset: 90350},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 90952},
+																							pos: position{line: 2873, col: 10, offset: 90962},
 																							run: (*parser).callonImageBlock35,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 90952},
+																								pos:        position{line: 2873, col: 10, offset: 90962},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19368,11 +19368,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2852, col: 28, offset: 90347},
+																						pos: position{line: 2849, col: 28, offset: 90357},
 																						expr: &notExpr{
-																							pos: position{line: 2895, col: 8, offset: 91300},
+																							pos: position{line: 2892, col: 8, offset: 91310},
 																							expr: &anyMatcher{
-																								line: 2895, col: 9, offset: 91301,
+																								line: 2892, col: 9, offset: 91311,
 																							},
 																						},
 																					},
@@ -19767,10 +19767,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2855, col: 11, offset: 90467},
+																	pos: position{line: 2852, col: 11, offset: 90477},
 																	run: (*parser).callonImageBlock117,
 																	expr: &litMatcher{
-																		pos:        position{line: 2855, col: 11, offset: 90467},
+																		pos:        position{line: 2852, col: 11, offset: 90477},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -19797,10 +19797,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1312, col: 81, offset: 41107},
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 10, offset: 90952},
+								pos: position{line: 2873, col: 10, offset: 90962},
 								run: (*parser).callonImageBlock122,
 								expr: &charClassMatcher{
-									pos:        position{line: 2876, col: 10, offset: 90952},
+									pos:        position{line: 2873, col: 10, offset: 90962},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19812,10 +19812,10 @@ var g = &grammar{
 							pos:   position{line: 1312, col: 88, offset: 41114},
 							label: "end",
 							expr: &actionExpr{
-								pos: position{line: 2901, col: 16, offset: 91474},
+								pos: position{line: 2898, col: 16, offset: 91484},
 								run: (*parser).callonImageBlock125,
 								expr: &litMatcher{
-									pos:        position{line: 2901, col: 16, offset: 91474},
+									pos:        position{line: 2898, col: 16, offset: 91484},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -19827,28 +19827,28 @@ var g = &grammar{
 							run: (*parser).callonImageBlock127,
 						},
 						&choiceExpr{
-							pos: position{line: 2898, col: 8, offset: 91350},
+							pos: position{line: 2895, col: 8, offset: 91360},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2885, col: 12, offset: 91123},
+									pos: position{line: 2882, col: 12, offset: 91133},
 									run: (*parser).callonImageBlock129,
 									expr: &choiceExpr{
-										pos: position{line: 2885, col: 13, offset: 91124},
+										pos: position{line: 2882, col: 13, offset: 91134},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2885, col: 13, offset: 91124},
+												pos:        position{line: 2882, col: 13, offset: 91134},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 20, offset: 91131},
+												pos:        position{line: 2882, col: 20, offset: 91141},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 29, offset: 91140},
+												pos:        position{line: 2882, col: 29, offset: 91150},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19857,9 +19857,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2895, col: 8, offset: 91300},
+									pos: position{line: 2892, col: 8, offset: 91310},
 									expr: &anyMatcher{
-										line: 2895, col: 9, offset: 91301,
+										line: 2892, col: 9, offset: 91311,
 									},
 								},
 							},
@@ -19896,48 +19896,48 @@ var g = &grammar{
 							pos:   position{line: 1317, col: 30, offset: 41401},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2834, col: 13, offset: 89711},
+								pos: position{line: 2831, col: 13, offset: 89721},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2834, col: 13, offset: 89711},
+									pos: position{line: 2831, col: 13, offset: 89721},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2834, col: 13, offset: 89711},
+											pos:   position{line: 2831, col: 13, offset: 89721},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2834, col: 20, offset: 89718},
+												pos: position{line: 2831, col: 20, offset: 89728},
 												expr: &actionExpr{
-													pos: position{line: 2842, col: 11, offset: 89957},
+													pos: position{line: 2839, col: 11, offset: 89967},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2842, col: 12, offset: 89958},
+														pos: position{line: 2839, col: 12, offset: 89968},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2842, col: 12, offset: 89958},
+																pos:        position{line: 2839, col: 12, offset: 89968},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2842, col: 24, offset: 89970},
+																pos:        position{line: 2839, col: 24, offset: 89980},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2842, col: 37, offset: 89983},
+																pos:        position{line: 2839, col: 37, offset: 89993},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2842, col: 48, offset: 89994},
+																pos:        position{line: 2839, col: 48, offset: 90004},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2842, col: 59, offset: 90005},
+																pos:        position{line: 2839, col: 59, offset: 90015},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19948,38 +19948,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2834, col: 30, offset: 89728},
+											pos:   position{line: 2831, col: 30, offset: 89738},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2847, col: 5, offset: 90069},
+												pos: position{line: 2844, col: 5, offset: 90079},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2847, col: 5, offset: 90069},
+													pos:   position{line: 2844, col: 5, offset: 90079},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2847, col: 14, offset: 90078},
+														pos: position{line: 2844, col: 14, offset: 90088},
 														expr: &choiceExpr{
-															pos: position{line: 2848, col: 9, offset: 90088},
+															pos: position{line: 2845, col: 9, offset: 90098},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2848, col: 9, offset: 90088},
+																	pos: position{line: 2845, col: 9, offset: 90098},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2848, col: 9, offset: 90088},
+																		pos: position{line: 2845, col: 9, offset: 90098},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2848, col: 9, offset: 90088},
+																				pos: position{line: 2845, col: 9, offset: 90098},
 																				expr: &litMatcher{
-																					pos:        position{line: 2848, col: 10, offset: 90089},
+																					pos:        position{line: 2845, col: 10, offset: 90099},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2849, col: 9, offset: 90117},
+																				pos: position{line: 2846, col: 9, offset: 90127},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2849, col: 10, offset: 90118},
+																					pos:        position{line: 2846, col: 10, offset: 90128},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19990,27 +19990,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2852, col: 11, offset: 90330},
+																	pos: position{line: 2849, col: 11, offset: 90340},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2852, col: 11, offset: 90330},
+																			pos:        position{line: 2849, col: 11, offset: 90340},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2852, col: 19, offset: 90338},
+																			pos: position{line: 2849, col: 19, offset: 90348},
 																			expr: &seqExpr{
-																				pos: position{line: 2852, col: 21, offset: 90340},
+																				pos: position{line: 2849, col: 21, offset: 90350},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2852, col: 21, offset: 90340},
+																						pos: position{line: 2849, col: 21, offset: 90350},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 90952},
+																							pos: position{line: 2873, col: 10, offset: 90962},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 90952},
+																								pos:        position{line: 2873, col: 10, offset: 90962},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20019,11 +20019,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2852, col: 28, offset: 90347},
+																						pos: position{line: 2849, col: 28, offset: 90357},
 																						expr: &notExpr{
-																							pos: position{line: 2895, col: 8, offset: 91300},
+																							pos: position{line: 2892, col: 8, offset: 91310},
 																							expr: &anyMatcher{
-																								line: 2895, col: 9, offset: 91301,
+																								line: 2892, col: 9, offset: 91311,
 																							},
 																						},
 																					},
@@ -20418,10 +20418,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2855, col: 11, offset: 90467},
+																	pos: position{line: 2852, col: 11, offset: 90477},
 																	run: (*parser).callonInlineImage116,
 																	expr: &litMatcher{
-																		pos:        position{line: 2855, col: 11, offset: 90467},
+																		pos:        position{line: 2852, col: 11, offset: 90477},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20600,21 +20600,21 @@ var g = &grammar{
 								pos: position{line: 1344, col: 9, offset: 42687},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2775, col: 5, offset: 88194},
+										pos: position{line: 2772, col: 5, offset: 88183},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2775, col: 5, offset: 88194},
+											pos: position{line: 2772, col: 5, offset: 88183},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2775, col: 5, offset: 88194},
+													pos:   position{line: 2772, col: 5, offset: 88183},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2775, col: 11, offset: 88200},
+														pos: position{line: 2772, col: 11, offset: 88189},
 														run: (*parser).callonFootnoteElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2775, col: 11, offset: 88200},
+															pos: position{line: 2772, col: 11, offset: 88189},
 															expr: &charClassMatcher{
-																pos:        position{line: 2775, col: 11, offset: 88200},
+																pos:        position{line: 2772, col: 11, offset: 88189},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -20624,36 +20624,61 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2778, col: 5, offset: 88258},
+													pos: position{line: 2775, col: 5, offset: 88247},
 													expr: &seqExpr{
-														pos: position{line: 2779, col: 9, offset: 88269},
+														pos: position{line: 2776, col: 9, offset: 88258},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2779, col: 9, offset: 88269},
+																pos:        position{line: 2776, col: 9, offset: 88258},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2780, col: 9, offset: 88318},
+																pos: position{line: 2777, col: 9, offset: 88307},
 																run: (*parser).callonFootnoteElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2784, col: 5, offset: 88398},
+													pos: position{line: 2781, col: 5, offset: 88387},
 													expr: &seqExpr{
-														pos: position{line: 2785, col: 9, offset: 88409},
+														pos: position{line: 2782, col: 9, offset: 88398},
 														exprs: []interface{}{
+															&zeroOrMoreExpr{
+																pos: position{line: 2782, col: 9, offset: 88398},
+																expr: &seqExpr{
+																	pos: position{line: 2782, col: 10, offset: 88399},
+																	exprs: []interface{}{
+																		&charClassMatcher{
+																			pos:        position{line: 2782, col: 10, offset: 88399},
+																			val:        "[._%+-]",
+																			chars:      []rune{'.', '_', '%', '+', '-'},
+																			ignoreCase: false,
+																			inverted:   false,
+																		},
+																		&oneOrMoreExpr{
+																			pos: position{line: 2782, col: 18, offset: 88407},
+																			expr: &charClassMatcher{
+																				pos:        position{line: 2782, col: 18, offset: 88407},
+																				val:        "[\\pL\\pN]",
+																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																				ignoreCase: false,
+																				inverted:   false,
+																			},
+																		},
+																	},
+																},
+															},
 															&litMatcher{
-																pos:        position{line: 2785, col: 9, offset: 88409},
+																pos:        position{line: 2782, col: 30, offset: 88419},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2785, col: 13, offset: 88413},
+																pos:        position{line: 2782, col: 34, offset: 88423},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -20666,12 +20691,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2880, col: 11, offset: 91013},
-										run: (*parser).callonFootnoteElement21,
+										pos: position{line: 2877, col: 11, offset: 91023},
+										run: (*parser).callonFootnoteElement26,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2880, col: 11, offset: 91013},
+											pos: position{line: 2877, col: 11, offset: 91023},
 											expr: &charClassMatcher{
-												pos:        position{line: 2880, col: 11, offset: 91013},
+												pos:        position{line: 2877, col: 11, offset: 91023},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -20680,25 +20705,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2501, col: 5, offset: 80576},
-										run: (*parser).callonFootnoteElement24,
+										pos: position{line: 2498, col: 5, offset: 80565},
+										run: (*parser).callonFootnoteElement29,
 										expr: &seqExpr{
-											pos: position{line: 2501, col: 5, offset: 80576},
+											pos: position{line: 2498, col: 5, offset: 80565},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2501, col: 5, offset: 80576},
-													run: (*parser).callonFootnoteElement26,
+													pos: position{line: 2498, col: 5, offset: 80565},
+													run: (*parser).callonFootnoteElement31,
 												},
 												&litMatcher{
-													pos:        position{line: 2504, col: 5, offset: 80647},
+													pos:        position{line: 2501, col: 5, offset: 80636},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2504, col: 10, offset: 80652},
+													pos: position{line: 2501, col: 10, offset: 80641},
 													expr: &charClassMatcher{
-														pos:        position{line: 2504, col: 11, offset: 80653},
+														pos:        position{line: 2501, col: 11, offset: 80642},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -20709,29 +20734,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2510, col: 5, offset: 80845},
-										run: (*parser).callonFootnoteElement30,
+										pos: position{line: 2507, col: 5, offset: 80834},
+										run: (*parser).callonFootnoteElement35,
 										expr: &seqExpr{
-											pos: position{line: 2510, col: 5, offset: 80845},
+											pos: position{line: 2507, col: 5, offset: 80834},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2510, col: 5, offset: 80845},
-													run: (*parser).callonFootnoteElement32,
+													pos: position{line: 2507, col: 5, offset: 80834},
+													run: (*parser).callonFootnoteElement37,
 												},
 												&andCodeExpr{
-													pos: position{line: 2513, col: 5, offset: 80916},
-													run: (*parser).callonFootnoteElement33,
+													pos: position{line: 2510, col: 5, offset: 80905},
+													run: (*parser).callonFootnoteElement38,
 												},
 												&litMatcher{
-													pos:        position{line: 2517, col: 5, offset: 81041},
+													pos:        position{line: 2514, col: 5, offset: 81030},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2517, col: 9, offset: 81045},
+													pos: position{line: 2514, col: 9, offset: 81034},
 													expr: &charClassMatcher{
-														pos:        position{line: 2517, col: 10, offset: 81046},
+														pos:        position{line: 2514, col: 10, offset: 81035},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -20750,27 +20775,27 @@ var g = &grammar{
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2793, col: 5, offset: 88606},
-										run: (*parser).callonFootnoteElement39,
+										pos: position{line: 2790, col: 5, offset: 88616},
+										run: (*parser).callonFootnoteElement44,
 										expr: &choiceExpr{
-											pos: position{line: 2794, col: 9, offset: 88616},
+											pos: position{line: 2791, col: 9, offset: 88626},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2794, col: 10, offset: 88617},
+													pos:        position{line: 2791, col: 10, offset: 88627},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2796, col: 13, offset: 88714},
+													pos: position{line: 2793, col: 13, offset: 88724},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2796, col: 13, offset: 88714},
-															run: (*parser).callonFootnoteElement43,
+															pos: position{line: 2793, col: 13, offset: 88724},
+															run: (*parser).callonFootnoteElement48,
 														},
 														&litMatcher{
-															pos:        position{line: 2799, col: 13, offset: 88814},
+															pos:        position{line: 2796, col: 13, offset: 88824},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -20778,20 +20803,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2799, col: 19, offset: 88820},
+													pos:        position{line: 2796, col: 19, offset: 88830},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2802, col: 13, offset: 88858},
+													pos: position{line: 2799, col: 13, offset: 88868},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2802, col: 13, offset: 88858},
-															run: (*parser).callonFootnoteElement47,
+															pos: position{line: 2799, col: 13, offset: 88868},
+															run: (*parser).callonFootnoteElement52,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2805, col: 14, offset: 88951},
+															pos:        position{line: 2802, col: 14, offset: 88961},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -20800,18 +20825,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2807, col: 12, offset: 88995},
+													pos: position{line: 2804, col: 12, offset: 89005},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2807, col: 12, offset: 88995},
+															pos:        position{line: 2804, col: 12, offset: 89005},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2807, col: 16, offset: 88999},
+															pos: position{line: 2804, col: 16, offset: 89009},
 															expr: &litMatcher{
-																pos:        position{line: 2807, col: 17, offset: 89000},
+																pos:        position{line: 2804, col: 17, offset: 89010},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -20828,13 +20853,13 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1206, col: 5, offset: 37492},
-										run: (*parser).callonFootnoteElement54,
+										run: (*parser).callonFootnoteElement59,
 										expr: &seqExpr{
 											pos: position{line: 1206, col: 5, offset: 37492},
 											exprs: []interface{}{
 												&andCodeExpr{
 													pos: position{line: 1206, col: 5, offset: 37492},
-													run: (*parser).callonFootnoteElement56,
+													run: (*parser).callonFootnoteElement61,
 												},
 												&litMatcher{
 													pos:        position{line: 1209, col: 5, offset: 37568},
@@ -20844,15 +20869,15 @@ var g = &grammar{
 												},
 												&andCodeExpr{
 													pos: position{line: 1210, col: 5, offset: 37576},
-													run: (*parser).callonFootnoteElement58,
+													run: (*parser).callonFootnoteElement63,
 												},
 												&zeroOrMoreExpr{
 													pos: position{line: 1214, col: 5, offset: 37663},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 90952},
-														run: (*parser).callonFootnoteElement60,
+														pos: position{line: 2873, col: 10, offset: 90962},
+														run: (*parser).callonFootnoteElement65,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 90952},
+															pos:        position{line: 2873, col: 10, offset: 90962},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -20863,28 +20888,28 @@ var g = &grammar{
 												&andExpr{
 													pos: position{line: 1214, col: 12, offset: 37670},
 													expr: &choiceExpr{
-														pos: position{line: 2898, col: 8, offset: 91350},
+														pos: position{line: 2895, col: 8, offset: 91360},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2885, col: 12, offset: 91123},
-																run: (*parser).callonFootnoteElement64,
+																pos: position{line: 2882, col: 12, offset: 91133},
+																run: (*parser).callonFootnoteElement69,
 																expr: &choiceExpr{
-																	pos: position{line: 2885, col: 13, offset: 91124},
+																	pos: position{line: 2882, col: 13, offset: 91134},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 13, offset: 91124},
+																			pos:        position{line: 2882, col: 13, offset: 91134},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 20, offset: 91131},
+																			pos:        position{line: 2882, col: 20, offset: 91141},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 29, offset: 91140},
+																			pos:        position{line: 2882, col: 29, offset: 91150},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -20893,9 +20918,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91300},
+																pos: position{line: 2892, col: 8, offset: 91310},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91301,
+																	line: 2892, col: 9, offset: 91311,
 																},
 															},
 														},
@@ -20906,13 +20931,13 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 636, col: 5, offset: 20178},
-										run: (*parser).callonFootnoteElement71,
+										run: (*parser).callonFootnoteElement76,
 										expr: &seqExpr{
 											pos: position{line: 636, col: 5, offset: 20178},
 											exprs: []interface{}{
 												&andCodeExpr{
 													pos: position{line: 636, col: 5, offset: 20178},
-													run: (*parser).callonFootnoteElement73,
+													run: (*parser).callonFootnoteElement78,
 												},
 												&labeledExpr{
 													pos:   position{line: 639, col: 5, offset: 20250},
@@ -20922,7 +20947,7 @@ var g = &grammar{
 														alternatives: []interface{}{
 															&actionExpr{
 																pos: position{line: 645, col: 5, offset: 20388},
-																run: (*parser).callonFootnoteElement76,
+																run: (*parser).callonFootnoteElement81,
 																expr: &seqExpr{
 																	pos: position{line: 645, col: 5, offset: 20388},
 																	exprs: []interface{}{
@@ -20937,7 +20962,7 @@ var g = &grammar{
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9729},
-																				run: (*parser).callonFootnoteElement80,
+																				run: (*parser).callonFootnoteElement85,
 																				expr: &seqExpr{
 																					pos: position{line: 318, col: 18, offset: 9729},
 																					exprs: []interface{}{
@@ -20975,7 +21000,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 652, col: 5, offset: 20656},
-																run: (*parser).callonFootnoteElement86,
+																run: (*parser).callonFootnoteElement91,
 																expr: &seqExpr{
 																	pos: position{line: 652, col: 5, offset: 20656},
 																	exprs: []interface{}{
@@ -20990,7 +21015,7 @@ var g = &grammar{
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9729},
-																				run: (*parser).callonFootnoteElement90,
+																				run: (*parser).callonFootnoteElement95,
 																				expr: &seqExpr{
 																					pos: position{line: 318, col: 18, offset: 9729},
 																					exprs: []interface{}{
@@ -21028,7 +21053,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 658, col: 25, offset: 20860},
-																run: (*parser).callonFootnoteElement96,
+																run: (*parser).callonFootnoteElement101,
 																expr: &seqExpr{
 																	pos: position{line: 658, col: 25, offset: 20860},
 																	exprs: []interface{}{
@@ -21043,7 +21068,7 @@ var g = &grammar{
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9729},
-																				run: (*parser).callonFootnoteElement100,
+																				run: (*parser).callonFootnoteElement105,
 																				expr: &seqExpr{
 																					pos: position{line: 318, col: 18, offset: 9729},
 																					exprs: []interface{}{
@@ -21077,7 +21102,7 @@ var g = &grammar{
 																				pos: position{line: 658, col: 62, offset: 20897},
 																				expr: &actionExpr{
 																					pos: position{line: 666, col: 17, offset: 21192},
-																					run: (*parser).callonFootnoteElement107,
+																					run: (*parser).callonFootnoteElement112,
 																					expr: &seqExpr{
 																						pos: position{line: 666, col: 17, offset: 21192},
 																						exprs: []interface{}{
@@ -21095,7 +21120,7 @@ var g = &grammar{
 																									alternatives: []interface{}{
 																										&actionExpr{
 																											pos: position{line: 666, col: 28, offset: 21203},
-																											run: (*parser).callonFootnoteElement112,
+																											run: (*parser).callonFootnoteElement117,
 																											expr: &charClassMatcher{
 																												pos:        position{line: 666, col: 28, offset: 21203},
 																												val:        "[A-Za-z]",
@@ -21106,7 +21131,7 @@ var g = &grammar{
 																										},
 																										&actionExpr{
 																											pos: position{line: 668, col: 9, offset: 21257},
-																											run: (*parser).callonFootnoteElement114,
+																											run: (*parser).callonFootnoteElement119,
 																											expr: &oneOrMoreExpr{
 																												pos: position{line: 668, col: 9, offset: 21257},
 																												expr: &charClassMatcher{
@@ -21137,7 +21162,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 662, col: 25, offset: 21031},
-																run: (*parser).callonFootnoteElement118,
+																run: (*parser).callonFootnoteElement123,
 																expr: &seqExpr{
 																	pos: position{line: 662, col: 25, offset: 21031},
 																	exprs: []interface{}{
@@ -21152,7 +21177,7 @@ var g = &grammar{
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9729},
-																				run: (*parser).callonFootnoteElement122,
+																				run: (*parser).callonFootnoteElement127,
 																				expr: &seqExpr{
 																					pos: position{line: 318, col: 18, offset: 9729},
 																					exprs: []interface{}{
@@ -21186,7 +21211,7 @@ var g = &grammar{
 																				pos: position{line: 662, col: 63, offset: 21069},
 																				expr: &actionExpr{
 																					pos: position{line: 666, col: 17, offset: 21192},
-																					run: (*parser).callonFootnoteElement129,
+																					run: (*parser).callonFootnoteElement134,
 																					expr: &seqExpr{
 																						pos: position{line: 666, col: 17, offset: 21192},
 																						exprs: []interface{}{
@@ -21204,7 +21229,7 @@ var g = &grammar{
 																									alternatives: []interface{}{
 																										&actionExpr{
 																											pos: position{line: 666, col: 28, offset: 21203},
-																											run: (*parser).callonFootnoteElement134,
+																											run: (*parser).callonFootnoteElement139,
 																											expr: &charClassMatcher{
 																												pos:        position{line: 666, col: 28, offset: 21203},
 																												val:        "[A-Za-z]",
@@ -21215,7 +21240,7 @@ var g = &grammar{
 																										},
 																										&actionExpr{
 																											pos: position{line: 668, col: 9, offset: 21257},
-																											run: (*parser).callonFootnoteElement136,
+																											run: (*parser).callonFootnoteElement141,
 																											expr: &oneOrMoreExpr{
 																												pos: position{line: 668, col: 9, offset: 21257},
 																												expr: &charClassMatcher{
@@ -21251,23 +21276,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2470, col: 5, offset: 79405},
-										run: (*parser).callonFootnoteElement140,
+										pos: position{line: 2467, col: 5, offset: 79394},
+										run: (*parser).callonFootnoteElement145,
 										expr: &seqExpr{
-											pos: position{line: 2470, col: 5, offset: 79405},
+											pos: position{line: 2467, col: 5, offset: 79394},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2470, col: 5, offset: 79405},
-													run: (*parser).callonFootnoteElement142,
+													pos: position{line: 2467, col: 5, offset: 79394},
+													run: (*parser).callonFootnoteElement147,
 												},
 												&labeledExpr{
-													pos:   position{line: 2473, col: 5, offset: 79481},
+													pos:   position{line: 2470, col: 5, offset: 79470},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2474, col: 9, offset: 79499},
-														run: (*parser).callonFootnoteElement144,
+														pos: position{line: 2471, col: 9, offset: 79488},
+														run: (*parser).callonFootnoteElement149,
 														expr: &charClassMatcher{
-															pos:        position{line: 2474, col: 10, offset: 79500},
+															pos:        position{line: 2471, col: 10, offset: 79489},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -21279,25 +21304,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2885, col: 12, offset: 91123},
-										run: (*parser).callonFootnoteElement146,
+										pos: position{line: 2882, col: 12, offset: 91133},
+										run: (*parser).callonFootnoteElement151,
 										expr: &choiceExpr{
-											pos: position{line: 2885, col: 13, offset: 91124},
+											pos: position{line: 2882, col: 13, offset: 91134},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2885, col: 13, offset: 91124},
+													pos:        position{line: 2882, col: 13, offset: 91134},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2885, col: 20, offset: 91131},
+													pos:        position{line: 2882, col: 20, offset: 91141},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2885, col: 29, offset: 91140},
+													pos:        position{line: 2882, col: 29, offset: 91150},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -21306,10 +21331,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2815, col: 12, offset: 89260},
-										run: (*parser).callonFootnoteElement151,
+										pos: position{line: 2812, col: 12, offset: 89270},
+										run: (*parser).callonFootnoteElement156,
 										expr: &charClassMatcher{
-											pos:        position{line: 2815, col: 12, offset: 89260},
+											pos:        position{line: 2812, col: 12, offset: 89270},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -21461,55 +21486,55 @@ var g = &grammar{
 									pos:   position{line: 1416, col: 5, offset: 45657},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2838, col: 23, offset: 89838},
+										pos: position{line: 2835, col: 23, offset: 89848},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2838, col: 23, offset: 89838},
+											pos: position{line: 2835, col: 23, offset: 89848},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2838, col: 23, offset: 89838},
+													pos: position{line: 2835, col: 23, offset: 89848},
 													expr: &litMatcher{
-														pos:        position{line: 2838, col: 24, offset: 89839},
+														pos:        position{line: 2835, col: 24, offset: 89849},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2838, col: 28, offset: 89843},
+													pos:   position{line: 2835, col: 28, offset: 89853},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2842, col: 11, offset: 89957},
+														pos: position{line: 2839, col: 11, offset: 89967},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2842, col: 12, offset: 89958},
+															pos: position{line: 2839, col: 12, offset: 89968},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2842, col: 12, offset: 89958},
+																	pos:        position{line: 2839, col: 12, offset: 89968},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2842, col: 24, offset: 89970},
+																	pos:        position{line: 2839, col: 24, offset: 89980},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2842, col: 37, offset: 89983},
+																	pos:        position{line: 2839, col: 37, offset: 89993},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2842, col: 48, offset: 89994},
+																	pos:        position{line: 2839, col: 48, offset: 90004},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2842, col: 59, offset: 90005},
+																	pos:        position{line: 2839, col: 59, offset: 90015},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -21519,38 +21544,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2838, col: 44, offset: 89859},
+													pos:   position{line: 2835, col: 44, offset: 89869},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2847, col: 5, offset: 90069},
+														pos: position{line: 2844, col: 5, offset: 90079},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2847, col: 5, offset: 90069},
+															pos:   position{line: 2844, col: 5, offset: 90079},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2847, col: 14, offset: 90078},
+																pos: position{line: 2844, col: 14, offset: 90088},
 																expr: &choiceExpr{
-																	pos: position{line: 2848, col: 9, offset: 90088},
+																	pos: position{line: 2845, col: 9, offset: 90098},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2848, col: 9, offset: 90088},
+																			pos: position{line: 2845, col: 9, offset: 90098},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2848, col: 9, offset: 90088},
+																				pos: position{line: 2845, col: 9, offset: 90098},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2848, col: 9, offset: 90088},
+																						pos: position{line: 2845, col: 9, offset: 90098},
 																						expr: &litMatcher{
-																							pos:        position{line: 2848, col: 10, offset: 90089},
+																							pos:        position{line: 2845, col: 10, offset: 90099},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2849, col: 9, offset: 90117},
+																						pos: position{line: 2846, col: 9, offset: 90127},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2849, col: 10, offset: 90118},
+																							pos:        position{line: 2846, col: 10, offset: 90128},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -21561,27 +21586,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2852, col: 11, offset: 90330},
+																			pos: position{line: 2849, col: 11, offset: 90340},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2852, col: 11, offset: 90330},
+																					pos:        position{line: 2849, col: 11, offset: 90340},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2852, col: 19, offset: 90338},
+																					pos: position{line: 2849, col: 19, offset: 90348},
 																					expr: &seqExpr{
-																						pos: position{line: 2852, col: 21, offset: 90340},
+																						pos: position{line: 2849, col: 21, offset: 90350},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2852, col: 21, offset: 90340},
+																								pos: position{line: 2849, col: 21, offset: 90350},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 90952},
+																									pos: position{line: 2873, col: 10, offset: 90962},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 90952},
+																										pos:        position{line: 2873, col: 10, offset: 90962},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -21590,11 +21615,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2852, col: 28, offset: 90347},
+																								pos: position{line: 2849, col: 28, offset: 90357},
 																								expr: &notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91300},
+																									pos: position{line: 2892, col: 8, offset: 91310},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91301,
+																										line: 2892, col: 9, offset: 91311,
 																									},
 																								},
 																							},
@@ -21989,10 +22014,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2855, col: 11, offset: 90467},
+																			pos: position{line: 2852, col: 11, offset: 90477},
 																			run: (*parser).callonLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2855, col: 11, offset: 90467},
+																				pos:        position{line: 2852, col: 11, offset: 90477},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22078,51 +22103,85 @@ var g = &grammar{
 									pos:   position{line: 1450, col: 47, offset: 46899},
 									label: "domain",
 									expr: &actionExpr{
-										pos: position{line: 1467, col: 23, offset: 47419},
+										pos: position{line: 1468, col: 23, offset: 47476},
 										run: (*parser).callonLink133,
 										expr: &seqExpr{
-											pos: position{line: 1467, col: 23, offset: 47419},
+											pos: position{line: 1468, col: 23, offset: 47476},
 											exprs: []interface{}{
-												&labeledExpr{
-													pos:   position{line: 1467, col: 23, offset: 47419},
-													label: "domain",
-													expr: &actionExpr{
-														pos: position{line: 1467, col: 31, offset: 47427},
-														run: (*parser).callonLink136,
-														expr: &seqExpr{
-															pos: position{line: 1467, col: 31, offset: 47427},
-															exprs: []interface{}{
-																&oneOrMoreExpr{
-																	pos: position{line: 1467, col: 31, offset: 47427},
-																	expr: &charClassMatcher{
-																		pos:        position{line: 1467, col: 31, offset: 47427},
-																		val:        "[\\pL\\pN]",
-																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																		ignoreCase: false,
-																		inverted:   false,
-																	},
+												&oneOrMoreExpr{
+													pos: position{line: 1472, col: 28, offset: 47602},
+													expr: &charClassMatcher{
+														pos:        position{line: 1472, col: 28, offset: 47602},
+														val:        "[\\pL\\pN]",
+														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+														ignoreCase: false,
+														inverted:   false,
+													},
+												},
+												&zeroOrMoreExpr{
+													pos: position{line: 1472, col: 38, offset: 47612},
+													expr: &seqExpr{
+														pos: position{line: 1472, col: 39, offset: 47613},
+														exprs: []interface{}{
+															&litMatcher{
+																pos:        position{line: 1472, col: 39, offset: 47613},
+																val:        "-",
+																ignoreCase: false,
+																want:       "\"-\"",
+															},
+															&oneOrMoreExpr{
+																pos: position{line: 1472, col: 43, offset: 47617},
+																expr: &charClassMatcher{
+																	pos:        position{line: 1472, col: 43, offset: 47617},
+																	val:        "[\\pL\\pN]",
+																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																	ignoreCase: false,
+																	inverted:   false,
 																},
-																&zeroOrMoreExpr{
-																	pos: position{line: 1467, col: 41, offset: 47437},
-																	expr: &seqExpr{
-																		pos: position{line: 1467, col: 42, offset: 47438},
-																		exprs: []interface{}{
-																			&litMatcher{
-																				pos:        position{line: 1467, col: 42, offset: 47438},
-																				val:        ".",
+															},
+														},
+													},
+												},
+												&zeroOrMoreExpr{
+													pos: position{line: 1468, col: 47, offset: 47500},
+													expr: &seqExpr{
+														pos: position{line: 1468, col: 48, offset: 47501},
+														exprs: []interface{}{
+															&litMatcher{
+																pos:        position{line: 1468, col: 48, offset: 47501},
+																val:        ".",
+																ignoreCase: false,
+																want:       "\".\"",
+															},
+															&oneOrMoreExpr{
+																pos: position{line: 1472, col: 28, offset: 47602},
+																expr: &charClassMatcher{
+																	pos:        position{line: 1472, col: 28, offset: 47602},
+																	val:        "[\\pL\\pN]",
+																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																	ignoreCase: false,
+																	inverted:   false,
+																},
+															},
+															&zeroOrMoreExpr{
+																pos: position{line: 1472, col: 38, offset: 47612},
+																expr: &seqExpr{
+																	pos: position{line: 1472, col: 39, offset: 47613},
+																	exprs: []interface{}{
+																		&litMatcher{
+																			pos:        position{line: 1472, col: 39, offset: 47613},
+																			val:        "-",
+																			ignoreCase: false,
+																			want:       "\"-\"",
+																		},
+																		&oneOrMoreExpr{
+																			pos: position{line: 1472, col: 43, offset: 47617},
+																			expr: &charClassMatcher{
+																				pos:        position{line: 1472, col: 43, offset: 47617},
+																				val:        "[\\pL\\pN]",
+																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
-																				want:       "\".\"",
-																			},
-																			&oneOrMoreExpr{
-																				pos: position{line: 1467, col: 46, offset: 47442},
-																				expr: &charClassMatcher{
-																					pos:        position{line: 1467, col: 46, offset: 47442},
-																					val:        "[-\\pL\\pN]",
-																					chars:      []rune{'-'},
-																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																					ignoreCase: false,
-																					inverted:   false,
-																				},
+																				inverted:   false,
 																			},
 																		},
 																	},
@@ -22131,10 +22190,6 @@ var g = &grammar{
 														},
 													},
 												},
-												&andCodeExpr{
-													pos: position{line: 1470, col: 5, offset: 47503},
-													run: (*parser).callonLink145,
-												},
 											},
 										},
 									},
@@ -22167,48 +22222,48 @@ var g = &grammar{
 									pos:   position{line: 1429, col: 17, offset: 46072},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2834, col: 13, offset: 89711},
+										pos: position{line: 2831, col: 13, offset: 89721},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2834, col: 13, offset: 89711},
+											pos: position{line: 2831, col: 13, offset: 89721},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2834, col: 13, offset: 89711},
+													pos:   position{line: 2831, col: 13, offset: 89721},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2834, col: 20, offset: 89718},
+														pos: position{line: 2831, col: 20, offset: 89728},
 														expr: &actionExpr{
-															pos: position{line: 2842, col: 11, offset: 89957},
+															pos: position{line: 2839, col: 11, offset: 89967},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2842, col: 12, offset: 89958},
+																pos: position{line: 2839, col: 12, offset: 89968},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2842, col: 12, offset: 89958},
+																		pos:        position{line: 2839, col: 12, offset: 89968},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2842, col: 24, offset: 89970},
+																		pos:        position{line: 2839, col: 24, offset: 89980},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2842, col: 37, offset: 89983},
+																		pos:        position{line: 2839, col: 37, offset: 89993},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2842, col: 48, offset: 89994},
+																		pos:        position{line: 2839, col: 48, offset: 90004},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2842, col: 59, offset: 90005},
+																		pos:        position{line: 2839, col: 59, offset: 90015},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22219,38 +22274,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2834, col: 30, offset: 89728},
+													pos:   position{line: 2831, col: 30, offset: 89738},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2847, col: 5, offset: 90069},
+														pos: position{line: 2844, col: 5, offset: 90079},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2847, col: 5, offset: 90069},
+															pos:   position{line: 2844, col: 5, offset: 90079},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2847, col: 14, offset: 90078},
+																pos: position{line: 2844, col: 14, offset: 90088},
 																expr: &choiceExpr{
-																	pos: position{line: 2848, col: 9, offset: 90088},
+																	pos: position{line: 2845, col: 9, offset: 90098},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2848, col: 9, offset: 90088},
+																			pos: position{line: 2845, col: 9, offset: 90098},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2848, col: 9, offset: 90088},
+																				pos: position{line: 2845, col: 9, offset: 90098},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2848, col: 9, offset: 90088},
+																						pos: position{line: 2845, col: 9, offset: 90098},
 																						expr: &litMatcher{
-																							pos:        position{line: 2848, col: 10, offset: 90089},
+																							pos:        position{line: 2845, col: 10, offset: 90099},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2849, col: 9, offset: 90117},
+																						pos: position{line: 2846, col: 9, offset: 90127},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2849, col: 10, offset: 90118},
+																							pos:        position{line: 2846, col: 10, offset: 90128},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22261,27 +22316,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2852, col: 11, offset: 90330},
+																			pos: position{line: 2849, col: 11, offset: 90340},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2852, col: 11, offset: 90330},
+																					pos:        position{line: 2849, col: 11, offset: 90340},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2852, col: 19, offset: 90338},
+																					pos: position{line: 2849, col: 19, offset: 90348},
 																					expr: &seqExpr{
-																						pos: position{line: 2852, col: 21, offset: 90340},
+																						pos: position{line: 2849, col: 21, offset: 90350},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2852, col: 21, offset: 90340},
+																								pos: position{line: 2849, col: 21, offset: 90350},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 90952},
+																									pos: position{line: 2873, col: 10, offset: 90962},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 90952},
+																										pos:        position{line: 2873, col: 10, offset: 90962},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22290,11 +22345,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2852, col: 28, offset: 90347},
+																								pos: position{line: 2849, col: 28, offset: 90357},
 																								expr: &notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91300},
+																									pos: position{line: 2892, col: 8, offset: 91310},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91301,
+																										line: 2892, col: 9, offset: 91311,
 																									},
 																								},
 																							},
@@ -22689,10 +22744,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2855, col: 11, offset: 90467},
+																			pos: position{line: 2852, col: 11, offset: 90477},
 																			run: (*parser).callonRelativeLink115,
 																			expr: &litMatcher{
-																				pos:        position{line: 2855, col: 11, offset: 90467},
+																				pos:        position{line: 2852, col: 11, offset: 90477},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22735,48 +22790,48 @@ var g = &grammar{
 									pos:   position{line: 1434, col: 13, offset: 46239},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2834, col: 13, offset: 89711},
+										pos: position{line: 2831, col: 13, offset: 89721},
 										run: (*parser).callonRelativeLink123,
 										expr: &seqExpr{
-											pos: position{line: 2834, col: 13, offset: 89711},
+											pos: position{line: 2831, col: 13, offset: 89721},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2834, col: 13, offset: 89711},
+													pos:   position{line: 2831, col: 13, offset: 89721},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2834, col: 20, offset: 89718},
+														pos: position{line: 2831, col: 20, offset: 89728},
 														expr: &actionExpr{
-															pos: position{line: 2842, col: 11, offset: 89957},
+															pos: position{line: 2839, col: 11, offset: 89967},
 															run: (*parser).callonRelativeLink127,
 															expr: &choiceExpr{
-																pos: position{line: 2842, col: 12, offset: 89958},
+																pos: position{line: 2839, col: 12, offset: 89968},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2842, col: 12, offset: 89958},
+																		pos:        position{line: 2839, col: 12, offset: 89968},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2842, col: 24, offset: 89970},
+																		pos:        position{line: 2839, col: 24, offset: 89980},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2842, col: 37, offset: 89983},
+																		pos:        position{line: 2839, col: 37, offset: 89993},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2842, col: 48, offset: 89994},
+																		pos:        position{line: 2839, col: 48, offset: 90004},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2842, col: 59, offset: 90005},
+																		pos:        position{line: 2839, col: 59, offset: 90015},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22787,38 +22842,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2834, col: 30, offset: 89728},
+													pos:   position{line: 2831, col: 30, offset: 89738},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2847, col: 5, offset: 90069},
+														pos: position{line: 2844, col: 5, offset: 90079},
 														run: (*parser).callonRelativeLink135,
 														expr: &labeledExpr{
-															pos:   position{line: 2847, col: 5, offset: 90069},
+															pos:   position{line: 2844, col: 5, offset: 90079},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2847, col: 14, offset: 90078},
+																pos: position{line: 2844, col: 14, offset: 90088},
 																expr: &choiceExpr{
-																	pos: position{line: 2848, col: 9, offset: 90088},
+																	pos: position{line: 2845, col: 9, offset: 90098},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2848, col: 9, offset: 90088},
+																			pos: position{line: 2845, col: 9, offset: 90098},
 																			run: (*parser).callonRelativeLink139,
 																			expr: &seqExpr{
-																				pos: position{line: 2848, col: 9, offset: 90088},
+																				pos: position{line: 2845, col: 9, offset: 90098},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2848, col: 9, offset: 90088},
+																						pos: position{line: 2845, col: 9, offset: 90098},
 																						expr: &litMatcher{
-																							pos:        position{line: 2848, col: 10, offset: 90089},
+																							pos:        position{line: 2845, col: 10, offset: 90099},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2849, col: 9, offset: 90117},
+																						pos: position{line: 2846, col: 9, offset: 90127},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2849, col: 10, offset: 90118},
+																							pos:        position{line: 2846, col: 10, offset: 90128},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22829,27 +22884,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2852, col: 11, offset: 90330},
+																			pos: position{line: 2849, col: 11, offset: 90340},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2852, col: 11, offset: 90330},
+																					pos:        position{line: 2849, col: 11, offset: 90340},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2852, col: 19, offset: 90338},
+																					pos: position{line: 2849, col: 19, offset: 90348},
 																					expr: &seqExpr{
-																						pos: position{line: 2852, col: 21, offset: 90340},
+																						pos: position{line: 2849, col: 21, offset: 90350},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2852, col: 21, offset: 90340},
+																								pos: position{line: 2849, col: 21, offset: 90350},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 90952},
+																									pos: position{line: 2873, col: 10, offset: 90962},
 																									run: (*parser).callonRelativeLink150,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 90952},
+																										pos:        position{line: 2873, col: 10, offset: 90962},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22858,11 +22913,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2852, col: 28, offset: 90347},
+																								pos: position{line: 2849, col: 28, offset: 90357},
 																								expr: &notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91300},
+																									pos: position{line: 2892, col: 8, offset: 91310},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91301,
+																										line: 2892, col: 9, offset: 91311,
 																									},
 																								},
 																							},
@@ -23257,10 +23312,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2855, col: 11, offset: 90467},
+																			pos: position{line: 2852, col: 11, offset: 90477},
 																			run: (*parser).callonRelativeLink232,
 																			expr: &litMatcher{
-																				pos:        position{line: 2855, col: 11, offset: 90467},
+																				pos:        position{line: 2852, col: 11, offset: 90477},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23312,55 +23367,55 @@ var g = &grammar{
 									pos:   position{line: 1441, col: 9, offset: 46548},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2838, col: 23, offset: 89838},
+										pos: position{line: 2835, col: 23, offset: 89848},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2838, col: 23, offset: 89838},
+											pos: position{line: 2835, col: 23, offset: 89848},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2838, col: 23, offset: 89838},
+													pos: position{line: 2835, col: 23, offset: 89848},
 													expr: &litMatcher{
-														pos:        position{line: 2838, col: 24, offset: 89839},
+														pos:        position{line: 2835, col: 24, offset: 89849},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2838, col: 28, offset: 89843},
+													pos:   position{line: 2835, col: 28, offset: 89853},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2842, col: 11, offset: 89957},
+														pos: position{line: 2839, col: 11, offset: 89967},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2842, col: 12, offset: 89958},
+															pos: position{line: 2839, col: 12, offset: 89968},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2842, col: 12, offset: 89958},
+																	pos:        position{line: 2839, col: 12, offset: 89968},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2842, col: 24, offset: 89970},
+																	pos:        position{line: 2839, col: 24, offset: 89980},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2842, col: 37, offset: 89983},
+																	pos:        position{line: 2839, col: 37, offset: 89993},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2842, col: 48, offset: 89994},
+																	pos:        position{line: 2839, col: 48, offset: 90004},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2842, col: 59, offset: 90005},
+																	pos:        position{line: 2839, col: 59, offset: 90015},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23370,38 +23425,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2838, col: 44, offset: 89859},
+													pos:   position{line: 2835, col: 44, offset: 89869},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2847, col: 5, offset: 90069},
+														pos: position{line: 2844, col: 5, offset: 90079},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2847, col: 5, offset: 90069},
+															pos:   position{line: 2844, col: 5, offset: 90079},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2847, col: 14, offset: 90078},
+																pos: position{line: 2844, col: 14, offset: 90088},
 																expr: &choiceExpr{
-																	pos: position{line: 2848, col: 9, offset: 90088},
+																	pos: position{line: 2845, col: 9, offset: 90098},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2848, col: 9, offset: 90088},
+																			pos: position{line: 2845, col: 9, offset: 90098},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2848, col: 9, offset: 90088},
+																				pos: position{line: 2845, col: 9, offset: 90098},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2848, col: 9, offset: 90088},
+																						pos: position{line: 2845, col: 9, offset: 90098},
 																						expr: &litMatcher{
-																							pos:        position{line: 2848, col: 10, offset: 90089},
+																							pos:        position{line: 2845, col: 10, offset: 90099},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2849, col: 9, offset: 90117},
+																						pos: position{line: 2846, col: 9, offset: 90127},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2849, col: 10, offset: 90118},
+																							pos:        position{line: 2846, col: 10, offset: 90128},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23412,27 +23467,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2852, col: 11, offset: 90330},
+																			pos: position{line: 2849, col: 11, offset: 90340},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2852, col: 11, offset: 90330},
+																					pos:        position{line: 2849, col: 11, offset: 90340},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2852, col: 19, offset: 90338},
+																					pos: position{line: 2849, col: 19, offset: 90348},
 																					expr: &seqExpr{
-																						pos: position{line: 2852, col: 21, offset: 90340},
+																						pos: position{line: 2849, col: 21, offset: 90350},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2852, col: 21, offset: 90340},
+																								pos: position{line: 2849, col: 21, offset: 90350},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 90952},
+																									pos: position{line: 2873, col: 10, offset: 90962},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 90952},
+																										pos:        position{line: 2873, col: 10, offset: 90962},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23441,11 +23496,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2852, col: 28, offset: 90347},
+																								pos: position{line: 2849, col: 28, offset: 90357},
 																								expr: &notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91300},
+																									pos: position{line: 2892, col: 8, offset: 91310},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91301,
+																										line: 2892, col: 9, offset: 91311,
 																									},
 																								},
 																							},
@@ -23840,10 +23895,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2855, col: 11, offset: 90467},
+																			pos: position{line: 2852, col: 11, offset: 90477},
 																			run: (*parser).callonExternalLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2855, col: 11, offset: 90467},
+																				pos:        position{line: 2852, col: 11, offset: 90477},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23883,55 +23938,55 @@ var g = &grammar{
 									pos:   position{line: 1446, col: 5, offset: 46718},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2838, col: 23, offset: 89838},
+										pos: position{line: 2835, col: 23, offset: 89848},
 										run: (*parser).callonExternalLink124,
 										expr: &seqExpr{
-											pos: position{line: 2838, col: 23, offset: 89838},
+											pos: position{line: 2835, col: 23, offset: 89848},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2838, col: 23, offset: 89838},
+													pos: position{line: 2835, col: 23, offset: 89848},
 													expr: &litMatcher{
-														pos:        position{line: 2838, col: 24, offset: 89839},
+														pos:        position{line: 2835, col: 24, offset: 89849},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2838, col: 28, offset: 89843},
+													pos:   position{line: 2835, col: 28, offset: 89853},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2842, col: 11, offset: 89957},
+														pos: position{line: 2839, col: 11, offset: 89967},
 														run: (*parser).callonExternalLink129,
 														expr: &choiceExpr{
-															pos: position{line: 2842, col: 12, offset: 89958},
+															pos: position{line: 2839, col: 12, offset: 89968},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2842, col: 12, offset: 89958},
+																	pos:        position{line: 2839, col: 12, offset: 89968},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2842, col: 24, offset: 89970},
+																	pos:        position{line: 2839, col: 24, offset: 89980},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2842, col: 37, offset: 89983},
+																	pos:        position{line: 2839, col: 37, offset: 89993},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2842, col: 48, offset: 89994},
+																	pos:        position{line: 2839, col: 48, offset: 90004},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2842, col: 59, offset: 90005},
+																	pos:        position{line: 2839, col: 59, offset: 90015},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23941,38 +23996,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2838, col: 44, offset: 89859},
+													pos:   position{line: 2835, col: 44, offset: 89869},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2847, col: 5, offset: 90069},
+														pos: position{line: 2844, col: 5, offset: 90079},
 														run: (*parser).callonExternalLink137,
 														expr: &labeledExpr{
-															pos:   position{line: 2847, col: 5, offset: 90069},
+															pos:   position{line: 2844, col: 5, offset: 90079},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2847, col: 14, offset: 90078},
+																pos: position{line: 2844, col: 14, offset: 90088},
 																expr: &choiceExpr{
-																	pos: position{line: 2848, col: 9, offset: 90088},
+																	pos: position{line: 2845, col: 9, offset: 90098},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2848, col: 9, offset: 90088},
+																			pos: position{line: 2845, col: 9, offset: 90098},
 																			run: (*parser).callonExternalLink141,
 																			expr: &seqExpr{
-																				pos: position{line: 2848, col: 9, offset: 90088},
+																				pos: position{line: 2845, col: 9, offset: 90098},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2848, col: 9, offset: 90088},
+																						pos: position{line: 2845, col: 9, offset: 90098},
 																						expr: &litMatcher{
-																							pos:        position{line: 2848, col: 10, offset: 90089},
+																							pos:        position{line: 2845, col: 10, offset: 90099},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2849, col: 9, offset: 90117},
+																						pos: position{line: 2846, col: 9, offset: 90127},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2849, col: 10, offset: 90118},
+																							pos:        position{line: 2846, col: 10, offset: 90128},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23983,27 +24038,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2852, col: 11, offset: 90330},
+																			pos: position{line: 2849, col: 11, offset: 90340},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2852, col: 11, offset: 90330},
+																					pos:        position{line: 2849, col: 11, offset: 90340},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2852, col: 19, offset: 90338},
+																					pos: position{line: 2849, col: 19, offset: 90348},
 																					expr: &seqExpr{
-																						pos: position{line: 2852, col: 21, offset: 90340},
+																						pos: position{line: 2849, col: 21, offset: 90350},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2852, col: 21, offset: 90340},
+																								pos: position{line: 2849, col: 21, offset: 90350},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 90952},
+																									pos: position{line: 2873, col: 10, offset: 90962},
 																									run: (*parser).callonExternalLink152,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 90952},
+																										pos:        position{line: 2873, col: 10, offset: 90962},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24012,11 +24067,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2852, col: 28, offset: 90347},
+																								pos: position{line: 2849, col: 28, offset: 90357},
 																								expr: &notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91300},
+																									pos: position{line: 2892, col: 8, offset: 91310},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91301,
+																										line: 2892, col: 9, offset: 91311,
 																									},
 																								},
 																							},
@@ -24411,10 +24466,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2855, col: 11, offset: 90467},
+																			pos: position{line: 2852, col: 11, offset: 90477},
 																			run: (*parser).callonExternalLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2855, col: 11, offset: 90467},
+																				pos:        position{line: 2852, col: 11, offset: 90477},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24449,41 +24504,41 @@ var g = &grammar{
 		},
 		{
 			name: "ListElements",
-			pos:  position{line: 1480, col: 1, offset: 47896},
+			pos:  position{line: 1477, col: 1, offset: 47885},
 			expr: &actionExpr{
-				pos: position{line: 1481, col: 5, offset: 47917},
+				pos: position{line: 1478, col: 5, offset: 47906},
 				run: (*parser).callonListElements1,
 				expr: &seqExpr{
-					pos: position{line: 1481, col: 5, offset: 47917},
+					pos: position{line: 1478, col: 5, offset: 47906},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1481, col: 5, offset: 47917},
+							pos:   position{line: 1478, col: 5, offset: 47906},
 							label: "firstElement",
 							expr: &choiceExpr{
-								pos: position{line: 1487, col: 5, offset: 48119},
+								pos: position{line: 1484, col: 5, offset: 48108},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1580, col: 5, offset: 51053},
+										pos: position{line: 1577, col: 5, offset: 51042},
 										run: (*parser).callonListElements5,
 										expr: &seqExpr{
-											pos: position{line: 1580, col: 5, offset: 51053},
+											pos: position{line: 1577, col: 5, offset: 51042},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1580, col: 5, offset: 51053},
+													pos:   position{line: 1577, col: 5, offset: 51042},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1587, col: 5, offset: 51261},
+														pos: position{line: 1584, col: 5, offset: 51250},
 														run: (*parser).callonListElements8,
 														expr: &seqExpr{
-															pos: position{line: 1587, col: 5, offset: 51261},
+															pos: position{line: 1584, col: 5, offset: 51250},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1587, col: 5, offset: 51261},
+																	pos: position{line: 1584, col: 5, offset: 51250},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 90952},
+																		pos: position{line: 2873, col: 10, offset: 90962},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 90952},
+																			pos:        position{line: 2873, col: 10, offset: 90962},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24492,27 +24547,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1587, col: 12, offset: 51268},
+																	pos:   position{line: 1584, col: 12, offset: 51257},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1589, col: 9, offset: 51331},
+																		pos: position{line: 1586, col: 9, offset: 51320},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1589, col: 9, offset: 51331},
+																				pos: position{line: 1586, col: 9, offset: 51320},
 																				run: (*parser).callonListElements15,
 																				expr: &seqExpr{
-																					pos: position{line: 1589, col: 9, offset: 51331},
+																					pos: position{line: 1586, col: 9, offset: 51320},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1589, col: 9, offset: 51331},
+																							pos:   position{line: 1586, col: 9, offset: 51320},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1589, col: 16, offset: 51338},
+																								pos: position{line: 1586, col: 16, offset: 51327},
 																								run: (*parser).callonListElements18,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1589, col: 16, offset: 51338},
+																									pos: position{line: 1586, col: 16, offset: 51327},
 																									expr: &litMatcher{
-																										pos:        position{line: 1589, col: 17, offset: 51339},
+																										pos:        position{line: 1586, col: 17, offset: 51328},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -24521,22 +24576,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1593, col: 9, offset: 51439},
+																							pos: position{line: 1590, col: 9, offset: 51428},
 																							run: (*parser).callonListElements21,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1612, col: 11, offset: 52156},
+																				pos: position{line: 1609, col: 11, offset: 52145},
 																				run: (*parser).callonListElements22,
 																				expr: &seqExpr{
-																					pos: position{line: 1612, col: 11, offset: 52156},
+																					pos: position{line: 1609, col: 11, offset: 52145},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1612, col: 11, offset: 52156},
+																							pos: position{line: 1609, col: 11, offset: 52145},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1612, col: 12, offset: 52157},
+																								pos:        position{line: 1609, col: 12, offset: 52146},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -24544,7 +24599,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1612, col: 20, offset: 52165},
+																							pos:        position{line: 1609, col: 20, offset: 52154},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24553,20 +24608,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1614, col: 13, offset: 52282},
+																				pos: position{line: 1611, col: 13, offset: 52271},
 																				run: (*parser).callonListElements27,
 																				expr: &seqExpr{
-																					pos: position{line: 1614, col: 13, offset: 52282},
+																					pos: position{line: 1611, col: 13, offset: 52271},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1614, col: 14, offset: 52283},
+																							pos:        position{line: 1611, col: 14, offset: 52272},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1614, col: 21, offset: 52290},
+																							pos:        position{line: 1611, col: 21, offset: 52279},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24575,20 +24630,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1616, col: 13, offset: 52410},
+																				pos: position{line: 1613, col: 13, offset: 52399},
 																				run: (*parser).callonListElements31,
 																				expr: &seqExpr{
-																					pos: position{line: 1616, col: 13, offset: 52410},
+																					pos: position{line: 1613, col: 13, offset: 52399},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1616, col: 14, offset: 52411},
+																							pos:        position{line: 1613, col: 14, offset: 52400},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1616, col: 21, offset: 52418},
+																							pos:        position{line: 1613, col: 21, offset: 52407},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24597,15 +24652,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1618, col: 13, offset: 52538},
+																				pos: position{line: 1615, col: 13, offset: 52527},
 																				run: (*parser).callonListElements35,
 																				expr: &seqExpr{
-																					pos: position{line: 1618, col: 13, offset: 52538},
+																					pos: position{line: 1615, col: 13, offset: 52527},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1618, col: 13, offset: 52538},
+																							pos: position{line: 1615, col: 13, offset: 52527},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1618, col: 14, offset: 52539},
+																								pos:        position{line: 1615, col: 14, offset: 52528},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -24613,7 +24668,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1618, col: 26, offset: 52551},
+																							pos:        position{line: 1615, col: 26, offset: 52540},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -24622,15 +24677,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1620, col: 13, offset: 52671},
+																				pos: position{line: 1617, col: 13, offset: 52660},
 																				run: (*parser).callonListElements40,
 																				expr: &seqExpr{
-																					pos: position{line: 1620, col: 13, offset: 52671},
+																					pos: position{line: 1617, col: 13, offset: 52660},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1620, col: 13, offset: 52671},
+																							pos: position{line: 1617, col: 13, offset: 52660},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1620, col: 14, offset: 52672},
+																								pos:        position{line: 1617, col: 14, offset: 52661},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -24638,7 +24693,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1620, col: 26, offset: 52684},
+																							pos:        position{line: 1617, col: 26, offset: 52673},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -24650,12 +24705,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2880, col: 11, offset: 91013},
+																	pos: position{line: 2877, col: 11, offset: 91023},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2880, col: 11, offset: 91013},
+																		pos: position{line: 2877, col: 11, offset: 91023},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 11, offset: 91013},
+																			pos:        position{line: 2877, col: 11, offset: 91023},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24668,26 +24723,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1581, col: 5, offset: 51092},
+													pos:   position{line: 1578, col: 5, offset: 51081},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1528, col: 5, offset: 49559},
+														pos: position{line: 1525, col: 5, offset: 49548},
 														run: (*parser).callonListElements49,
 														expr: &seqExpr{
-															pos: position{line: 1528, col: 5, offset: 49559},
+															pos: position{line: 1525, col: 5, offset: 49548},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1528, col: 5, offset: 49559},
+																	pos:   position{line: 1525, col: 5, offset: 49548},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1528, col: 14, offset: 49568},
+																		pos: position{line: 1525, col: 14, offset: 49557},
 																		expr: &actionExpr{
-																			pos: position{line: 1528, col: 15, offset: 49569},
+																			pos: position{line: 1525, col: 15, offset: 49558},
 																			run: (*parser).callonListElements53,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1528, col: 15, offset: 49569},
+																				pos: position{line: 1525, col: 15, offset: 49558},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1528, col: 15, offset: 49569},
+																					pos:        position{line: 1525, col: 15, offset: 49558},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -24698,28 +24753,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91350},
+																	pos: position{line: 2895, col: 8, offset: 91360},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91123},
+																			pos: position{line: 2882, col: 12, offset: 91133},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91124},
+																				pos: position{line: 2882, col: 13, offset: 91134},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91124},
+																						pos:        position{line: 2882, col: 13, offset: 91134},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91131},
+																						pos:        position{line: 2882, col: 20, offset: 91141},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91140},
+																						pos:        position{line: 2882, col: 29, offset: 91150},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -24728,9 +24783,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91300},
+																			pos: position{line: 2892, col: 8, offset: 91310},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91301,
+																				line: 2892, col: 9, offset: 91311,
 																			},
 																		},
 																	},
@@ -24743,27 +24798,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1630, col: 5, offset: 52950},
+										pos: position{line: 1627, col: 5, offset: 52939},
 										run: (*parser).callonListElements64,
 										expr: &seqExpr{
-											pos: position{line: 1630, col: 5, offset: 52950},
+											pos: position{line: 1627, col: 5, offset: 52939},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1630, col: 5, offset: 52950},
+													pos:   position{line: 1627, col: 5, offset: 52939},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1637, col: 5, offset: 53223},
+														pos: position{line: 1634, col: 5, offset: 53212},
 														run: (*parser).callonListElements67,
 														expr: &seqExpr{
-															pos: position{line: 1637, col: 5, offset: 53223},
+															pos: position{line: 1634, col: 5, offset: 53212},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1637, col: 5, offset: 53223},
+																	pos: position{line: 1634, col: 5, offset: 53212},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 90952},
+																		pos: position{line: 2873, col: 10, offset: 90962},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 90952},
+																			pos:        position{line: 2873, col: 10, offset: 90962},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24772,24 +24827,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1638, col: 5, offset: 53235},
+																	pos:   position{line: 1635, col: 5, offset: 53224},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1639, col: 9, offset: 53251},
+																		pos: position{line: 1636, col: 9, offset: 53240},
 																		run: (*parser).callonListElements73,
 																		expr: &choiceExpr{
-																			pos: position{line: 1639, col: 10, offset: 53252},
+																			pos: position{line: 1636, col: 10, offset: 53241},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1639, col: 11, offset: 53253},
+																					pos:        position{line: 1636, col: 11, offset: 53242},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1639, col: 18, offset: 53260},
+																					pos: position{line: 1636, col: 18, offset: 53249},
 																					expr: &litMatcher{
-																						pos:        position{line: 1639, col: 19, offset: 53261},
+																						pos:        position{line: 1636, col: 19, offset: 53250},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -24800,16 +24855,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1642, col: 7, offset: 53351},
+																	pos: position{line: 1639, col: 7, offset: 53340},
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2880, col: 11, offset: 91013},
+																	pos: position{line: 2877, col: 11, offset: 91023},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2880, col: 11, offset: 91013},
+																		pos: position{line: 2877, col: 11, offset: 91023},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 11, offset: 91013},
+																			pos:        position{line: 2877, col: 11, offset: 91023},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24822,56 +24877,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1631, col: 5, offset: 52991},
+													pos:   position{line: 1628, col: 5, offset: 52980},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1631, col: 16, offset: 53002},
+														pos: position{line: 1628, col: 16, offset: 52991},
 														expr: &actionExpr{
-															pos: position{line: 1652, col: 5, offset: 53616},
+															pos: position{line: 1649, col: 5, offset: 53605},
 															run: (*parser).callonListElements84,
 															expr: &seqExpr{
-																pos: position{line: 1652, col: 5, offset: 53616},
+																pos: position{line: 1649, col: 5, offset: 53605},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1652, col: 5, offset: 53616},
+																		pos: position{line: 1649, col: 5, offset: 53605},
 																		expr: &litMatcher{
-																			pos:        position{line: 1652, col: 6, offset: 53617},
+																			pos:        position{line: 1649, col: 6, offset: 53606},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1652, col: 10, offset: 53621},
+																		pos:   position{line: 1649, col: 10, offset: 53610},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1653, col: 7, offset: 53635},
+																			pos: position{line: 1650, col: 7, offset: 53624},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1653, col: 7, offset: 53635},
+																					pos: position{line: 1650, col: 7, offset: 53624},
 																					run: (*parser).callonListElements90,
 																					expr: &litMatcher{
-																						pos:        position{line: 1653, col: 7, offset: 53635},
+																						pos:        position{line: 1650, col: 7, offset: 53624},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1654, col: 7, offset: 53680},
+																					pos: position{line: 1651, col: 7, offset: 53669},
 																					run: (*parser).callonListElements92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1654, col: 7, offset: 53680},
+																						pos:        position{line: 1651, col: 7, offset: 53669},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1655, col: 7, offset: 53723},
+																					pos: position{line: 1652, col: 7, offset: 53712},
 																					run: (*parser).callonListElements94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1655, col: 7, offset: 53723},
+																						pos:        position{line: 1652, col: 7, offset: 53712},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -24881,12 +24936,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2880, col: 11, offset: 91013},
+																		pos: position{line: 2877, col: 11, offset: 91023},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2880, col: 11, offset: 91013},
+																			pos: position{line: 2877, col: 11, offset: 91023},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2880, col: 11, offset: 91013},
+																				pos:        position{line: 2877, col: 11, offset: 91023},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -24900,26 +24955,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1632, col: 5, offset: 53041},
+													pos:   position{line: 1629, col: 5, offset: 53030},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1528, col: 5, offset: 49559},
+														pos: position{line: 1525, col: 5, offset: 49548},
 														run: (*parser).callonListElements100,
 														expr: &seqExpr{
-															pos: position{line: 1528, col: 5, offset: 49559},
+															pos: position{line: 1525, col: 5, offset: 49548},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1528, col: 5, offset: 49559},
+																	pos:   position{line: 1525, col: 5, offset: 49548},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1528, col: 14, offset: 49568},
+																		pos: position{line: 1525, col: 14, offset: 49557},
 																		expr: &actionExpr{
-																			pos: position{line: 1528, col: 15, offset: 49569},
+																			pos: position{line: 1525, col: 15, offset: 49558},
 																			run: (*parser).callonListElements104,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1528, col: 15, offset: 49569},
+																				pos: position{line: 1525, col: 15, offset: 49558},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1528, col: 15, offset: 49569},
+																					pos:        position{line: 1525, col: 15, offset: 49558},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -24930,28 +24985,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91350},
+																	pos: position{line: 2895, col: 8, offset: 91360},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91123},
+																			pos: position{line: 2882, col: 12, offset: 91133},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91124},
+																				pos: position{line: 2882, col: 13, offset: 91134},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91124},
+																						pos:        position{line: 2882, col: 13, offset: 91134},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91131},
+																						pos:        position{line: 2882, col: 20, offset: 91141},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91140},
+																						pos:        position{line: 2882, col: 29, offset: 91150},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -24960,9 +25015,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91300},
+																			pos: position{line: 2892, col: 8, offset: 91310},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91301,
+																				line: 2892, col: 9, offset: 91311,
 																			},
 																		},
 																	},
@@ -24975,36 +25030,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1721, col: 5, offset: 55595},
+										pos: position{line: 1718, col: 5, offset: 55584},
 										run: (*parser).callonListElements115,
 										expr: &seqExpr{
-											pos: position{line: 1721, col: 5, offset: 55595},
+											pos: position{line: 1718, col: 5, offset: 55584},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1721, col: 5, offset: 55595},
+													pos:   position{line: 1718, col: 5, offset: 55584},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1727, col: 5, offset: 55792},
+														pos: position{line: 1724, col: 5, offset: 55781},
 														run: (*parser).callonListElements118,
 														expr: &seqExpr{
-															pos: position{line: 1727, col: 5, offset: 55792},
+															pos: position{line: 1724, col: 5, offset: 55781},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1727, col: 5, offset: 55792},
+																	pos:        position{line: 1724, col: 5, offset: 55781},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1727, col: 9, offset: 55796},
+																	pos:   position{line: 1724, col: 9, offset: 55785},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1727, col: 14, offset: 55801},
+																		pos: position{line: 1724, col: 14, offset: 55790},
 																		run: (*parser).callonListElements122,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1727, col: 14, offset: 55801},
+																			pos: position{line: 1724, col: 14, offset: 55790},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1727, col: 14, offset: 55801},
+																				pos:        position{line: 1724, col: 14, offset: 55790},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -25014,18 +25069,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1727, col: 62, offset: 55849},
+																	pos:        position{line: 1724, col: 62, offset: 55838},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2880, col: 11, offset: 91013},
+																	pos: position{line: 2877, col: 11, offset: 91023},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2880, col: 11, offset: 91013},
+																		pos: position{line: 2877, col: 11, offset: 91023},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 11, offset: 91013},
+																			pos:        position{line: 2877, col: 11, offset: 91023},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25038,26 +25093,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1722, col: 5, offset: 55631},
+													pos:   position{line: 1719, col: 5, offset: 55620},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1528, col: 5, offset: 49559},
+														pos: position{line: 1525, col: 5, offset: 49548},
 														run: (*parser).callonListElements130,
 														expr: &seqExpr{
-															pos: position{line: 1528, col: 5, offset: 49559},
+															pos: position{line: 1525, col: 5, offset: 49548},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1528, col: 5, offset: 49559},
+																	pos:   position{line: 1525, col: 5, offset: 49548},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1528, col: 14, offset: 49568},
+																		pos: position{line: 1525, col: 14, offset: 49557},
 																		expr: &actionExpr{
-																			pos: position{line: 1528, col: 15, offset: 49569},
+																			pos: position{line: 1525, col: 15, offset: 49558},
 																			run: (*parser).callonListElements134,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1528, col: 15, offset: 49569},
+																				pos: position{line: 1525, col: 15, offset: 49558},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1528, col: 15, offset: 49569},
+																					pos:        position{line: 1525, col: 15, offset: 49558},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25068,28 +25123,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91350},
+																	pos: position{line: 2895, col: 8, offset: 91360},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91123},
+																			pos: position{line: 2882, col: 12, offset: 91133},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91124},
+																				pos: position{line: 2882, col: 13, offset: 91134},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91124},
+																						pos:        position{line: 2882, col: 13, offset: 91134},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91131},
+																						pos:        position{line: 2882, col: 20, offset: 91141},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91140},
+																						pos:        position{line: 2882, col: 29, offset: 91150},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25098,9 +25153,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91300},
+																			pos: position{line: 2892, col: 8, offset: 91310},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91301,
+																				line: 2892, col: 9, offset: 91311,
 																			},
 																		},
 																	},
@@ -25113,35 +25168,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1664, col: 5, offset: 53916},
+										pos: position{line: 1661, col: 5, offset: 53905},
 										run: (*parser).callonListElements145,
 										expr: &seqExpr{
-											pos: position{line: 1664, col: 5, offset: 53916},
+											pos: position{line: 1661, col: 5, offset: 53905},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1664, col: 5, offset: 53916},
+													pos:   position{line: 1661, col: 5, offset: 53905},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1672, col: 5, offset: 54242},
+														pos: position{line: 1669, col: 5, offset: 54231},
 														run: (*parser).callonListElements148,
 														expr: &seqExpr{
-															pos: position{line: 1672, col: 5, offset: 54242},
+															pos: position{line: 1669, col: 5, offset: 54231},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1672, col: 5, offset: 54242},
+																	pos: position{line: 1669, col: 5, offset: 54231},
 																	expr: &seqExpr{
-																		pos: position{line: 2488, col: 31, offset: 80080},
+																		pos: position{line: 2485, col: 31, offset: 80069},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2488, col: 31, offset: 80080},
+																				pos:        position{line: 2485, col: 31, offset: 80069},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2488, col: 36, offset: 80085},
+																				pos: position{line: 2485, col: 36, offset: 80074},
 																				expr: &litMatcher{
-																					pos:        position{line: 2488, col: 37, offset: 80086},
+																					pos:        position{line: 2485, col: 37, offset: 80075},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
@@ -25151,28 +25206,28 @@ var g = &grammar{
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 1673, col: 5, offset: 54274},
+																	pos: position{line: 1670, col: 5, offset: 54263},
 																	expr: &seqExpr{
-																		pos: position{line: 1673, col: 6, offset: 54275},
+																		pos: position{line: 1670, col: 6, offset: 54264},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1673, col: 6, offset: 54275},
+																				pos: position{line: 1670, col: 6, offset: 54264},
 																				expr: &actionExpr{
-																					pos: position{line: 1678, col: 5, offset: 54425},
+																					pos: position{line: 1675, col: 5, offset: 54414},
 																					run: (*parser).callonListElements158,
 																					expr: &seqExpr{
-																						pos: position{line: 1678, col: 5, offset: 54425},
+																						pos: position{line: 1675, col: 5, offset: 54414},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1678, col: 5, offset: 54425},
+																								pos:   position{line: 1675, col: 5, offset: 54414},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1678, col: 16, offset: 54436},
+																									pos: position{line: 1675, col: 16, offset: 54425},
 																									run: (*parser).callonListElements161,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1678, col: 16, offset: 54436},
+																										pos: position{line: 1675, col: 16, offset: 54425},
 																										expr: &litMatcher{
-																											pos:        position{line: 1678, col: 17, offset: 54437},
+																											pos:        position{line: 1675, col: 17, offset: 54426},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -25181,7 +25236,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1681, col: 5, offset: 54494},
+																								pos: position{line: 1678, col: 5, offset: 54483},
 																								run: (*parser).callonListElements164,
 																							},
 																						},
@@ -25189,30 +25244,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1673, col: 35, offset: 54304},
+																				pos: position{line: 1670, col: 35, offset: 54293},
 																				expr: &choiceExpr{
-																					pos: position{line: 2898, col: 8, offset: 91350},
+																					pos: position{line: 2895, col: 8, offset: 91360},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2885, col: 12, offset: 91123},
+																							pos: position{line: 2882, col: 12, offset: 91133},
 																							run: (*parser).callonListElements167,
 																							expr: &choiceExpr{
-																								pos: position{line: 2885, col: 13, offset: 91124},
+																								pos: position{line: 2882, col: 13, offset: 91134},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 13, offset: 91124},
+																										pos:        position{line: 2882, col: 13, offset: 91134},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 20, offset: 91131},
+																										pos:        position{line: 2882, col: 20, offset: 91141},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 29, offset: 91140},
+																										pos:        position{line: 2882, col: 29, offset: 91150},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -25221,16 +25276,16 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2895, col: 8, offset: 91300},
+																							pos: position{line: 2892, col: 8, offset: 91310},
 																							expr: &anyMatcher{
-																								line: 2895, col: 9, offset: 91301,
+																								line: 2892, col: 9, offset: 91311,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1673, col: 40, offset: 54309,
+																				line: 1670, col: 40, offset: 54298,
 																			},
 																		},
 																	},
@@ -25240,24 +25295,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1665, col: 5, offset: 53951},
+													pos:   position{line: 1662, col: 5, offset: 53940},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1678, col: 5, offset: 54425},
+														pos: position{line: 1675, col: 5, offset: 54414},
 														run: (*parser).callonListElements176,
 														expr: &seqExpr{
-															pos: position{line: 1678, col: 5, offset: 54425},
+															pos: position{line: 1675, col: 5, offset: 54414},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1678, col: 5, offset: 54425},
+																	pos:   position{line: 1675, col: 5, offset: 54414},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1678, col: 16, offset: 54436},
+																		pos: position{line: 1675, col: 16, offset: 54425},
 																		run: (*parser).callonListElements179,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1678, col: 16, offset: 54436},
+																			pos: position{line: 1675, col: 16, offset: 54425},
 																			expr: &litMatcher{
-																				pos:        position{line: 1678, col: 17, offset: 54437},
+																				pos:        position{line: 1675, col: 17, offset: 54426},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -25266,7 +25321,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1681, col: 5, offset: 54494},
+																	pos: position{line: 1678, col: 5, offset: 54483},
 																	run: (*parser).callonListElements182,
 																},
 															},
@@ -25274,24 +25329,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1666, col: 5, offset: 53996},
+													pos:   position{line: 1663, col: 5, offset: 53985},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1689, col: 5, offset: 54743},
+														pos: position{line: 1686, col: 5, offset: 54732},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1691, col: 9, offset: 54809},
+																pos: position{line: 1688, col: 9, offset: 54798},
 																run: (*parser).callonListElements185,
 																expr: &seqExpr{
-																	pos: position{line: 1691, col: 9, offset: 54809},
+																	pos: position{line: 1688, col: 9, offset: 54798},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1691, col: 9, offset: 54809},
+																			pos: position{line: 1688, col: 9, offset: 54798},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 90952},
+																				pos: position{line: 2873, col: 10, offset: 90962},
 																				run: (*parser).callonListElements188,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 90952},
+																					pos:        position{line: 2873, col: 10, offset: 90962},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25300,28 +25355,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91350},
+																			pos: position{line: 2895, col: 8, offset: 91360},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91123},
+																					pos: position{line: 2882, col: 12, offset: 91133},
 																					run: (*parser).callonListElements191,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91124},
+																						pos: position{line: 2882, col: 13, offset: 91134},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91124},
+																								pos:        position{line: 2882, col: 13, offset: 91134},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91131},
+																								pos:        position{line: 2882, col: 20, offset: 91141},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91140},
+																								pos:        position{line: 2882, col: 29, offset: 91150},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25330,15 +25385,15 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91300},
+																					pos: position{line: 2892, col: 8, offset: 91310},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91301,
+																						line: 2892, col: 9, offset: 91311,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1692, col: 9, offset: 54828},
+																			pos: position{line: 1689, col: 9, offset: 54817},
 																			expr: &actionExpr{
 																				pos: position{line: 677, col: 14, offset: 21558},
 																				run: (*parser).callonListElements199,
@@ -25346,18 +25401,18 @@ var g = &grammar{
 																					pos: position{line: 677, col: 14, offset: 21558},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2893, col: 11, offset: 91286},
+																							pos: position{line: 2890, col: 11, offset: 91296},
 																							expr: &anyMatcher{
-																								line: 2893, col: 13, offset: 91288,
+																								line: 2890, col: 13, offset: 91298,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 677, col: 21, offset: 21565},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 90952},
+																								pos: position{line: 2873, col: 10, offset: 90962},
 																								run: (*parser).callonListElements204,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 90952},
+																									pos:        position{line: 2873, col: 10, offset: 90962},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25366,28 +25421,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91350},
+																							pos: position{line: 2895, col: 8, offset: 91360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91123},
+																									pos: position{line: 2882, col: 12, offset: 91133},
 																									run: (*parser).callonListElements207,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91124},
+																										pos: position{line: 2882, col: 13, offset: 91134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91124},
+																												pos:        position{line: 2882, col: 13, offset: 91134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91131},
+																												pos:        position{line: 2882, col: 20, offset: 91141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91140},
+																												pos:        position{line: 2882, col: 29, offset: 91150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25396,9 +25451,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91300},
+																									pos: position{line: 2892, col: 8, offset: 91310},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91301,
+																										line: 2892, col: 9, offset: 91311,
 																									},
 																								},
 																							},
@@ -25411,18 +25466,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1698, col: 9, offset: 54957},
+																pos: position{line: 1695, col: 9, offset: 54946},
 																run: (*parser).callonListElements214,
 																expr: &seqExpr{
-																	pos: position{line: 1698, col: 9, offset: 54957},
+																	pos: position{line: 1695, col: 9, offset: 54946},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2880, col: 11, offset: 91013},
+																			pos: position{line: 2877, col: 11, offset: 91023},
 																			run: (*parser).callonListElements216,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2880, col: 11, offset: 91013},
+																				pos: position{line: 2877, col: 11, offset: 91023},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2880, col: 11, offset: 91013},
+																					pos:        position{line: 2877, col: 11, offset: 91023},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25431,15 +25486,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1699, col: 9, offset: 55030},
+																			pos:   position{line: 1696, col: 9, offset: 55019},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1699, col: 18, offset: 55039},
+																				pos: position{line: 1696, col: 18, offset: 55028},
 																				run: (*parser).callonListElements220,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1699, col: 18, offset: 55039},
+																					pos: position{line: 1696, col: 18, offset: 55028},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1699, col: 18, offset: 55039},
+																						pos:        position{line: 1696, col: 18, offset: 55028},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -25449,28 +25504,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91350},
+																			pos: position{line: 2895, col: 8, offset: 91360},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91123},
+																					pos: position{line: 2882, col: 12, offset: 91133},
 																					run: (*parser).callonListElements224,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91124},
+																						pos: position{line: 2882, col: 13, offset: 91134},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91124},
+																								pos:        position{line: 2882, col: 13, offset: 91134},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91131},
+																								pos:        position{line: 2882, col: 20, offset: 91141},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91140},
+																								pos:        position{line: 2882, col: 29, offset: 91150},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25479,9 +25534,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91300},
+																					pos: position{line: 2892, col: 8, offset: 91310},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91301,
+																						line: 2892, col: 9, offset: 91311,
 																					},
 																				},
 																			},
@@ -25499,10 +25554,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1482, col: 5, offset: 47948},
+							pos:   position{line: 1479, col: 5, offset: 47937},
 							label: "extraElements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1482, col: 20, offset: 47963},
+								pos:  position{line: 1479, col: 20, offset: 47952},
 								name: "ExtraListElements",
 							},
 						},
@@ -25512,17 +25567,17 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElements",
-			pos:  position{line: 1492, col: 1, offset: 48218},
+			pos:  position{line: 1489, col: 1, offset: 48207},
 			expr: &actionExpr{
-				pos: position{line: 1492, col: 22, offset: 48239},
+				pos: position{line: 1489, col: 22, offset: 48228},
 				run: (*parser).callonExtraListElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1492, col: 22, offset: 48239},
+					pos:   position{line: 1489, col: 22, offset: 48228},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1492, col: 31, offset: 48248},
+						pos: position{line: 1489, col: 31, offset: 48237},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1492, col: 32, offset: 48249},
+							pos:  position{line: 1489, col: 32, offset: 48238},
 							name: "ExtraListElement",
 						},
 					},
@@ -25531,33 +25586,33 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElement",
-			pos:  position{line: 1496, col: 1, offset: 48329},
+			pos:  position{line: 1493, col: 1, offset: 48318},
 			expr: &actionExpr{
-				pos: position{line: 1497, col: 5, offset: 48468},
+				pos: position{line: 1494, col: 5, offset: 48457},
 				run: (*parser).callonExtraListElement1,
 				expr: &seqExpr{
-					pos: position{line: 1497, col: 5, offset: 48468},
+					pos: position{line: 1494, col: 5, offset: 48457},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2893, col: 11, offset: 91286},
+							pos: position{line: 2890, col: 11, offset: 91296},
 							expr: &anyMatcher{
-								line: 2893, col: 13, offset: 91288,
+								line: 2890, col: 13, offset: 91298,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1498, col: 5, offset: 48480},
+							pos:   position{line: 1495, col: 5, offset: 48469},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1499, col: 9, offset: 48498},
+								pos: position{line: 1496, col: 9, offset: 48487},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1499, col: 13, offset: 48502},
+										pos: position{line: 1496, col: 13, offset: 48491},
 										run: (*parser).callonExtraListElement7,
 										expr: &seqExpr{
-											pos: position{line: 1499, col: 13, offset: 48502},
+											pos: position{line: 1496, col: 13, offset: 48491},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 1499, col: 13, offset: 48502},
+													pos: position{line: 1496, col: 13, offset: 48491},
 													expr: &actionExpr{
 														pos: position{line: 677, col: 14, offset: 21558},
 														run: (*parser).callonExtraListElement10,
@@ -25565,18 +25620,18 @@ var g = &grammar{
 															pos: position{line: 677, col: 14, offset: 21558},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2893, col: 11, offset: 91286},
+																	pos: position{line: 2890, col: 11, offset: 91296},
 																	expr: &anyMatcher{
-																		line: 2893, col: 13, offset: 91288,
+																		line: 2890, col: 13, offset: 91298,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 677, col: 21, offset: 21565},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 90952},
+																		pos: position{line: 2873, col: 10, offset: 90962},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 90952},
+																			pos:        position{line: 2873, col: 10, offset: 90962},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25585,28 +25640,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91350},
+																	pos: position{line: 2895, col: 8, offset: 91360},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91123},
+																			pos: position{line: 2882, col: 12, offset: 91133},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91124},
+																				pos: position{line: 2882, col: 13, offset: 91134},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91124},
+																						pos:        position{line: 2882, col: 13, offset: 91134},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91131},
+																						pos:        position{line: 2882, col: 20, offset: 91141},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91140},
+																						pos:        position{line: 2882, col: 29, offset: 91150},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25615,9 +25670,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91300},
+																			pos: position{line: 2892, col: 8, offset: 91310},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91301,
+																				line: 2892, col: 9, offset: 91311,
 																			},
 																		},
 																	},
@@ -25627,33 +25682,33 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1500, col: 13, offset: 48526},
+													pos:   position{line: 1497, col: 13, offset: 48515},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1500, col: 22, offset: 48535},
+														pos: position{line: 1497, col: 22, offset: 48524},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1580, col: 5, offset: 51053},
+																pos: position{line: 1577, col: 5, offset: 51042},
 																run: (*parser).callonExtraListElement27,
 																expr: &seqExpr{
-																	pos: position{line: 1580, col: 5, offset: 51053},
+																	pos: position{line: 1577, col: 5, offset: 51042},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1580, col: 5, offset: 51053},
+																			pos:   position{line: 1577, col: 5, offset: 51042},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1587, col: 5, offset: 51261},
+																				pos: position{line: 1584, col: 5, offset: 51250},
 																				run: (*parser).callonExtraListElement30,
 																				expr: &seqExpr{
-																					pos: position{line: 1587, col: 5, offset: 51261},
+																					pos: position{line: 1584, col: 5, offset: 51250},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1587, col: 5, offset: 51261},
+																							pos: position{line: 1584, col: 5, offset: 51250},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 90952},
+																								pos: position{line: 2873, col: 10, offset: 90962},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 90952},
+																									pos:        position{line: 2873, col: 10, offset: 90962},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25662,27 +25717,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1587, col: 12, offset: 51268},
+																							pos:   position{line: 1584, col: 12, offset: 51257},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1589, col: 9, offset: 51331},
+																								pos: position{line: 1586, col: 9, offset: 51320},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1589, col: 9, offset: 51331},
+																										pos: position{line: 1586, col: 9, offset: 51320},
 																										run: (*parser).callonExtraListElement37,
 																										expr: &seqExpr{
-																											pos: position{line: 1589, col: 9, offset: 51331},
+																											pos: position{line: 1586, col: 9, offset: 51320},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1589, col: 9, offset: 51331},
+																													pos:   position{line: 1586, col: 9, offset: 51320},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1589, col: 16, offset: 51338},
+																														pos: position{line: 1586, col: 16, offset: 51327},
 																														run: (*parser).callonExtraListElement40,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1589, col: 16, offset: 51338},
+																															pos: position{line: 1586, col: 16, offset: 51327},
 																															expr: &litMatcher{
-																																pos:        position{line: 1589, col: 17, offset: 51339},
+																																pos:        position{line: 1586, col: 17, offset: 51328},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -25691,22 +25746,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1593, col: 9, offset: 51439},
+																													pos: position{line: 1590, col: 9, offset: 51428},
 																													run: (*parser).callonExtraListElement43,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1612, col: 11, offset: 52156},
+																										pos: position{line: 1609, col: 11, offset: 52145},
 																										run: (*parser).callonExtraListElement44,
 																										expr: &seqExpr{
-																											pos: position{line: 1612, col: 11, offset: 52156},
+																											pos: position{line: 1609, col: 11, offset: 52145},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1612, col: 11, offset: 52156},
+																													pos: position{line: 1609, col: 11, offset: 52145},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1612, col: 12, offset: 52157},
+																														pos:        position{line: 1609, col: 12, offset: 52146},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -25714,7 +25769,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1612, col: 20, offset: 52165},
+																													pos:        position{line: 1609, col: 20, offset: 52154},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -25723,20 +25778,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1614, col: 13, offset: 52282},
+																										pos: position{line: 1611, col: 13, offset: 52271},
 																										run: (*parser).callonExtraListElement49,
 																										expr: &seqExpr{
-																											pos: position{line: 1614, col: 13, offset: 52282},
+																											pos: position{line: 1611, col: 13, offset: 52271},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1614, col: 14, offset: 52283},
+																													pos:        position{line: 1611, col: 14, offset: 52272},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1614, col: 21, offset: 52290},
+																													pos:        position{line: 1611, col: 21, offset: 52279},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -25745,20 +25800,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1616, col: 13, offset: 52410},
+																										pos: position{line: 1613, col: 13, offset: 52399},
 																										run: (*parser).callonExtraListElement53,
 																										expr: &seqExpr{
-																											pos: position{line: 1616, col: 13, offset: 52410},
+																											pos: position{line: 1613, col: 13, offset: 52399},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1616, col: 14, offset: 52411},
+																													pos:        position{line: 1613, col: 14, offset: 52400},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1616, col: 21, offset: 52418},
+																													pos:        position{line: 1613, col: 21, offset: 52407},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -25767,15 +25822,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1618, col: 13, offset: 52538},
+																										pos: position{line: 1615, col: 13, offset: 52527},
 																										run: (*parser).callonExtraListElement57,
 																										expr: &seqExpr{
-																											pos: position{line: 1618, col: 13, offset: 52538},
+																											pos: position{line: 1615, col: 13, offset: 52527},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1618, col: 13, offset: 52538},
+																													pos: position{line: 1615, col: 13, offset: 52527},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1618, col: 14, offset: 52539},
+																														pos:        position{line: 1615, col: 14, offset: 52528},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -25783,7 +25838,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1618, col: 26, offset: 52551},
+																													pos:        position{line: 1615, col: 26, offset: 52540},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -25792,15 +25847,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1620, col: 13, offset: 52671},
+																										pos: position{line: 1617, col: 13, offset: 52660},
 																										run: (*parser).callonExtraListElement62,
 																										expr: &seqExpr{
-																											pos: position{line: 1620, col: 13, offset: 52671},
+																											pos: position{line: 1617, col: 13, offset: 52660},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1620, col: 13, offset: 52671},
+																													pos: position{line: 1617, col: 13, offset: 52660},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1620, col: 14, offset: 52672},
+																														pos:        position{line: 1617, col: 14, offset: 52661},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -25808,7 +25863,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1620, col: 26, offset: 52684},
+																													pos:        position{line: 1617, col: 26, offset: 52673},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -25820,12 +25875,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2880, col: 11, offset: 91013},
+																							pos: position{line: 2877, col: 11, offset: 91023},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2880, col: 11, offset: 91013},
+																								pos: position{line: 2877, col: 11, offset: 91023},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 11, offset: 91013},
+																									pos:        position{line: 2877, col: 11, offset: 91023},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25838,26 +25893,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1581, col: 5, offset: 51092},
+																			pos:   position{line: 1578, col: 5, offset: 51081},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1528, col: 5, offset: 49559},
+																				pos: position{line: 1525, col: 5, offset: 49548},
 																				run: (*parser).callonExtraListElement71,
 																				expr: &seqExpr{
-																					pos: position{line: 1528, col: 5, offset: 49559},
+																					pos: position{line: 1525, col: 5, offset: 49548},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1528, col: 5, offset: 49559},
+																							pos:   position{line: 1525, col: 5, offset: 49548},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1528, col: 14, offset: 49568},
+																								pos: position{line: 1525, col: 14, offset: 49557},
 																								expr: &actionExpr{
-																									pos: position{line: 1528, col: 15, offset: 49569},
+																									pos: position{line: 1525, col: 15, offset: 49558},
 																									run: (*parser).callonExtraListElement75,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1528, col: 15, offset: 49569},
+																										pos: position{line: 1525, col: 15, offset: 49558},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1528, col: 15, offset: 49569},
+																											pos:        position{line: 1525, col: 15, offset: 49558},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -25868,28 +25923,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91350},
+																							pos: position{line: 2895, col: 8, offset: 91360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91123},
+																									pos: position{line: 2882, col: 12, offset: 91133},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91124},
+																										pos: position{line: 2882, col: 13, offset: 91134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91124},
+																												pos:        position{line: 2882, col: 13, offset: 91134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91131},
+																												pos:        position{line: 2882, col: 20, offset: 91141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91140},
+																												pos:        position{line: 2882, col: 29, offset: 91150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25898,9 +25953,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91300},
+																									pos: position{line: 2892, col: 8, offset: 91310},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91301,
+																										line: 2892, col: 9, offset: 91311,
 																									},
 																								},
 																							},
@@ -25913,27 +25968,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1630, col: 5, offset: 52950},
+																pos: position{line: 1627, col: 5, offset: 52939},
 																run: (*parser).callonExtraListElement86,
 																expr: &seqExpr{
-																	pos: position{line: 1630, col: 5, offset: 52950},
+																	pos: position{line: 1627, col: 5, offset: 52939},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1630, col: 5, offset: 52950},
+																			pos:   position{line: 1627, col: 5, offset: 52939},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1637, col: 5, offset: 53223},
+																				pos: position{line: 1634, col: 5, offset: 53212},
 																				run: (*parser).callonExtraListElement89,
 																				expr: &seqExpr{
-																					pos: position{line: 1637, col: 5, offset: 53223},
+																					pos: position{line: 1634, col: 5, offset: 53212},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1637, col: 5, offset: 53223},
+																							pos: position{line: 1634, col: 5, offset: 53212},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 90952},
+																								pos: position{line: 2873, col: 10, offset: 90962},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 90952},
+																									pos:        position{line: 2873, col: 10, offset: 90962},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25942,24 +25997,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1638, col: 5, offset: 53235},
+																							pos:   position{line: 1635, col: 5, offset: 53224},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1639, col: 9, offset: 53251},
+																								pos: position{line: 1636, col: 9, offset: 53240},
 																								run: (*parser).callonExtraListElement95,
 																								expr: &choiceExpr{
-																									pos: position{line: 1639, col: 10, offset: 53252},
+																									pos: position{line: 1636, col: 10, offset: 53241},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1639, col: 11, offset: 53253},
+																											pos:        position{line: 1636, col: 11, offset: 53242},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1639, col: 18, offset: 53260},
+																											pos: position{line: 1636, col: 18, offset: 53249},
 																											expr: &litMatcher{
-																												pos:        position{line: 1639, col: 19, offset: 53261},
+																												pos:        position{line: 1636, col: 19, offset: 53250},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -25970,16 +26025,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1642, col: 7, offset: 53351},
+																							pos: position{line: 1639, col: 7, offset: 53340},
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2880, col: 11, offset: 91013},
+																							pos: position{line: 2877, col: 11, offset: 91023},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2880, col: 11, offset: 91013},
+																								pos: position{line: 2877, col: 11, offset: 91023},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 11, offset: 91013},
+																									pos:        position{line: 2877, col: 11, offset: 91023},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25992,56 +26047,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1631, col: 5, offset: 52991},
+																			pos:   position{line: 1628, col: 5, offset: 52980},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1631, col: 16, offset: 53002},
+																				pos: position{line: 1628, col: 16, offset: 52991},
 																				expr: &actionExpr{
-																					pos: position{line: 1652, col: 5, offset: 53616},
+																					pos: position{line: 1649, col: 5, offset: 53605},
 																					run: (*parser).callonExtraListElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 1652, col: 5, offset: 53616},
+																						pos: position{line: 1649, col: 5, offset: 53605},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1652, col: 5, offset: 53616},
+																								pos: position{line: 1649, col: 5, offset: 53605},
 																								expr: &litMatcher{
-																									pos:        position{line: 1652, col: 6, offset: 53617},
+																									pos:        position{line: 1649, col: 6, offset: 53606},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1652, col: 10, offset: 53621},
+																								pos:   position{line: 1649, col: 10, offset: 53610},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1653, col: 7, offset: 53635},
+																									pos: position{line: 1650, col: 7, offset: 53624},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1653, col: 7, offset: 53635},
+																											pos: position{line: 1650, col: 7, offset: 53624},
 																											run: (*parser).callonExtraListElement112,
 																											expr: &litMatcher{
-																												pos:        position{line: 1653, col: 7, offset: 53635},
+																												pos:        position{line: 1650, col: 7, offset: 53624},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1654, col: 7, offset: 53680},
+																											pos: position{line: 1651, col: 7, offset: 53669},
 																											run: (*parser).callonExtraListElement114,
 																											expr: &litMatcher{
-																												pos:        position{line: 1654, col: 7, offset: 53680},
+																												pos:        position{line: 1651, col: 7, offset: 53669},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1655, col: 7, offset: 53723},
+																											pos: position{line: 1652, col: 7, offset: 53712},
 																											run: (*parser).callonExtraListElement116,
 																											expr: &litMatcher{
-																												pos:        position{line: 1655, col: 7, offset: 53723},
+																												pos:        position{line: 1652, col: 7, offset: 53712},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -26051,12 +26106,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2880, col: 11, offset: 91013},
+																								pos: position{line: 2877, col: 11, offset: 91023},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2880, col: 11, offset: 91013},
+																									pos: position{line: 2877, col: 11, offset: 91023},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2880, col: 11, offset: 91013},
+																										pos:        position{line: 2877, col: 11, offset: 91023},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -26070,26 +26125,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1632, col: 5, offset: 53041},
+																			pos:   position{line: 1629, col: 5, offset: 53030},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1528, col: 5, offset: 49559},
+																				pos: position{line: 1525, col: 5, offset: 49548},
 																				run: (*parser).callonExtraListElement122,
 																				expr: &seqExpr{
-																					pos: position{line: 1528, col: 5, offset: 49559},
+																					pos: position{line: 1525, col: 5, offset: 49548},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1528, col: 5, offset: 49559},
+																							pos:   position{line: 1525, col: 5, offset: 49548},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1528, col: 14, offset: 49568},
+																								pos: position{line: 1525, col: 14, offset: 49557},
 																								expr: &actionExpr{
-																									pos: position{line: 1528, col: 15, offset: 49569},
+																									pos: position{line: 1525, col: 15, offset: 49558},
 																									run: (*parser).callonExtraListElement126,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1528, col: 15, offset: 49569},
+																										pos: position{line: 1525, col: 15, offset: 49558},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1528, col: 15, offset: 49569},
+																											pos:        position{line: 1525, col: 15, offset: 49558},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26100,28 +26155,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91350},
+																							pos: position{line: 2895, col: 8, offset: 91360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91123},
+																									pos: position{line: 2882, col: 12, offset: 91133},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91124},
+																										pos: position{line: 2882, col: 13, offset: 91134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91124},
+																												pos:        position{line: 2882, col: 13, offset: 91134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91131},
+																												pos:        position{line: 2882, col: 20, offset: 91141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91140},
+																												pos:        position{line: 2882, col: 29, offset: 91150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26130,9 +26185,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91300},
+																									pos: position{line: 2892, col: 8, offset: 91310},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91301,
+																										line: 2892, col: 9, offset: 91311,
 																									},
 																								},
 																							},
@@ -26145,36 +26200,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1721, col: 5, offset: 55595},
+																pos: position{line: 1718, col: 5, offset: 55584},
 																run: (*parser).callonExtraListElement137,
 																expr: &seqExpr{
-																	pos: position{line: 1721, col: 5, offset: 55595},
+																	pos: position{line: 1718, col: 5, offset: 55584},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1721, col: 5, offset: 55595},
+																			pos:   position{line: 1718, col: 5, offset: 55584},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1727, col: 5, offset: 55792},
+																				pos: position{line: 1724, col: 5, offset: 55781},
 																				run: (*parser).callonExtraListElement140,
 																				expr: &seqExpr{
-																					pos: position{line: 1727, col: 5, offset: 55792},
+																					pos: position{line: 1724, col: 5, offset: 55781},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1727, col: 5, offset: 55792},
+																							pos:        position{line: 1724, col: 5, offset: 55781},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1727, col: 9, offset: 55796},
+																							pos:   position{line: 1724, col: 9, offset: 55785},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1727, col: 14, offset: 55801},
+																								pos: position{line: 1724, col: 14, offset: 55790},
 																								run: (*parser).callonExtraListElement144,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1727, col: 14, offset: 55801},
+																									pos: position{line: 1724, col: 14, offset: 55790},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1727, col: 14, offset: 55801},
+																										pos:        position{line: 1724, col: 14, offset: 55790},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -26184,18 +26239,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1727, col: 62, offset: 55849},
+																							pos:        position{line: 1724, col: 62, offset: 55838},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2880, col: 11, offset: 91013},
+																							pos: position{line: 2877, col: 11, offset: 91023},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2880, col: 11, offset: 91013},
+																								pos: position{line: 2877, col: 11, offset: 91023},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 11, offset: 91013},
+																									pos:        position{line: 2877, col: 11, offset: 91023},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26208,26 +26263,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1722, col: 5, offset: 55631},
+																			pos:   position{line: 1719, col: 5, offset: 55620},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1528, col: 5, offset: 49559},
+																				pos: position{line: 1525, col: 5, offset: 49548},
 																				run: (*parser).callonExtraListElement152,
 																				expr: &seqExpr{
-																					pos: position{line: 1528, col: 5, offset: 49559},
+																					pos: position{line: 1525, col: 5, offset: 49548},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1528, col: 5, offset: 49559},
+																							pos:   position{line: 1525, col: 5, offset: 49548},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1528, col: 14, offset: 49568},
+																								pos: position{line: 1525, col: 14, offset: 49557},
 																								expr: &actionExpr{
-																									pos: position{line: 1528, col: 15, offset: 49569},
+																									pos: position{line: 1525, col: 15, offset: 49558},
 																									run: (*parser).callonExtraListElement156,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1528, col: 15, offset: 49569},
+																										pos: position{line: 1525, col: 15, offset: 49558},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1528, col: 15, offset: 49569},
+																											pos:        position{line: 1525, col: 15, offset: 49558},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26238,28 +26293,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91350},
+																							pos: position{line: 2895, col: 8, offset: 91360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91123},
+																									pos: position{line: 2882, col: 12, offset: 91133},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91124},
+																										pos: position{line: 2882, col: 13, offset: 91134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91124},
+																												pos:        position{line: 2882, col: 13, offset: 91134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91131},
+																												pos:        position{line: 2882, col: 20, offset: 91141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91140},
+																												pos:        position{line: 2882, col: 29, offset: 91150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26268,9 +26323,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91300},
+																									pos: position{line: 2892, col: 8, offset: 91310},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91301,
+																										line: 2892, col: 9, offset: 91311,
 																									},
 																								},
 																							},
@@ -26283,35 +26338,35 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1664, col: 5, offset: 53916},
+																pos: position{line: 1661, col: 5, offset: 53905},
 																run: (*parser).callonExtraListElement167,
 																expr: &seqExpr{
-																	pos: position{line: 1664, col: 5, offset: 53916},
+																	pos: position{line: 1661, col: 5, offset: 53905},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1664, col: 5, offset: 53916},
+																			pos:   position{line: 1661, col: 5, offset: 53905},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1672, col: 5, offset: 54242},
+																				pos: position{line: 1669, col: 5, offset: 54231},
 																				run: (*parser).callonExtraListElement170,
 																				expr: &seqExpr{
-																					pos: position{line: 1672, col: 5, offset: 54242},
+																					pos: position{line: 1669, col: 5, offset: 54231},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1672, col: 5, offset: 54242},
+																							pos: position{line: 1669, col: 5, offset: 54231},
 																							expr: &seqExpr{
-																								pos: position{line: 2488, col: 31, offset: 80080},
+																								pos: position{line: 2485, col: 31, offset: 80069},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2488, col: 31, offset: 80080},
+																										pos:        position{line: 2485, col: 31, offset: 80069},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2488, col: 36, offset: 80085},
+																										pos: position{line: 2485, col: 36, offset: 80074},
 																										expr: &litMatcher{
-																											pos:        position{line: 2488, col: 37, offset: 80086},
+																											pos:        position{line: 2485, col: 37, offset: 80075},
 																											val:        "//",
 																											ignoreCase: false,
 																											want:       "\"//\"",
@@ -26321,28 +26376,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1673, col: 5, offset: 54274},
+																							pos: position{line: 1670, col: 5, offset: 54263},
 																							expr: &seqExpr{
-																								pos: position{line: 1673, col: 6, offset: 54275},
+																								pos: position{line: 1670, col: 6, offset: 54264},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1673, col: 6, offset: 54275},
+																										pos: position{line: 1670, col: 6, offset: 54264},
 																										expr: &actionExpr{
-																											pos: position{line: 1678, col: 5, offset: 54425},
+																											pos: position{line: 1675, col: 5, offset: 54414},
 																											run: (*parser).callonExtraListElement180,
 																											expr: &seqExpr{
-																												pos: position{line: 1678, col: 5, offset: 54425},
+																												pos: position{line: 1675, col: 5, offset: 54414},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1678, col: 5, offset: 54425},
+																														pos:   position{line: 1675, col: 5, offset: 54414},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1678, col: 16, offset: 54436},
+																															pos: position{line: 1675, col: 16, offset: 54425},
 																															run: (*parser).callonExtraListElement183,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1678, col: 16, offset: 54436},
+																																pos: position{line: 1675, col: 16, offset: 54425},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1678, col: 17, offset: 54437},
+																																	pos:        position{line: 1675, col: 17, offset: 54426},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -26351,7 +26406,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1681, col: 5, offset: 54494},
+																														pos: position{line: 1678, col: 5, offset: 54483},
 																														run: (*parser).callonExtraListElement186,
 																													},
 																												},
@@ -26359,30 +26414,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1673, col: 35, offset: 54304},
+																										pos: position{line: 1670, col: 35, offset: 54293},
 																										expr: &choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91350},
+																											pos: position{line: 2895, col: 8, offset: 91360},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91123},
+																													pos: position{line: 2882, col: 12, offset: 91133},
 																													run: (*parser).callonExtraListElement189,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91124},
+																														pos: position{line: 2882, col: 13, offset: 91134},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91124},
+																																pos:        position{line: 2882, col: 13, offset: 91134},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91131},
+																																pos:        position{line: 2882, col: 20, offset: 91141},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91140},
+																																pos:        position{line: 2882, col: 29, offset: 91150},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -26391,16 +26446,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91300},
+																													pos: position{line: 2892, col: 8, offset: 91310},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91301,
+																														line: 2892, col: 9, offset: 91311,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1673, col: 40, offset: 54309,
+																										line: 1670, col: 40, offset: 54298,
 																									},
 																								},
 																							},
@@ -26410,24 +26465,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1665, col: 5, offset: 53951},
+																			pos:   position{line: 1662, col: 5, offset: 53940},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1678, col: 5, offset: 54425},
+																				pos: position{line: 1675, col: 5, offset: 54414},
 																				run: (*parser).callonExtraListElement198,
 																				expr: &seqExpr{
-																					pos: position{line: 1678, col: 5, offset: 54425},
+																					pos: position{line: 1675, col: 5, offset: 54414},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1678, col: 5, offset: 54425},
+																							pos:   position{line: 1675, col: 5, offset: 54414},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1678, col: 16, offset: 54436},
+																								pos: position{line: 1675, col: 16, offset: 54425},
 																								run: (*parser).callonExtraListElement201,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1678, col: 16, offset: 54436},
+																									pos: position{line: 1675, col: 16, offset: 54425},
 																									expr: &litMatcher{
-																										pos:        position{line: 1678, col: 17, offset: 54437},
+																										pos:        position{line: 1675, col: 17, offset: 54426},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -26436,7 +26491,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1681, col: 5, offset: 54494},
+																							pos: position{line: 1678, col: 5, offset: 54483},
 																							run: (*parser).callonExtraListElement204,
 																						},
 																					},
@@ -26444,24 +26499,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1666, col: 5, offset: 53996},
+																			pos:   position{line: 1663, col: 5, offset: 53985},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1689, col: 5, offset: 54743},
+																				pos: position{line: 1686, col: 5, offset: 54732},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1691, col: 9, offset: 54809},
+																						pos: position{line: 1688, col: 9, offset: 54798},
 																						run: (*parser).callonExtraListElement207,
 																						expr: &seqExpr{
-																							pos: position{line: 1691, col: 9, offset: 54809},
+																							pos: position{line: 1688, col: 9, offset: 54798},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1691, col: 9, offset: 54809},
+																									pos: position{line: 1688, col: 9, offset: 54798},
 																									expr: &actionExpr{
-																										pos: position{line: 2876, col: 10, offset: 90952},
+																										pos: position{line: 2873, col: 10, offset: 90962},
 																										run: (*parser).callonExtraListElement210,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2876, col: 10, offset: 90952},
+																											pos:        position{line: 2873, col: 10, offset: 90962},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26470,28 +26525,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2898, col: 8, offset: 91350},
+																									pos: position{line: 2895, col: 8, offset: 91360},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2885, col: 12, offset: 91123},
+																											pos: position{line: 2882, col: 12, offset: 91133},
 																											run: (*parser).callonExtraListElement213,
 																											expr: &choiceExpr{
-																												pos: position{line: 2885, col: 13, offset: 91124},
+																												pos: position{line: 2882, col: 13, offset: 91134},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 13, offset: 91124},
+																														pos:        position{line: 2882, col: 13, offset: 91134},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 20, offset: 91131},
+																														pos:        position{line: 2882, col: 20, offset: 91141},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 29, offset: 91140},
+																														pos:        position{line: 2882, col: 29, offset: 91150},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26500,15 +26555,15 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2895, col: 8, offset: 91300},
+																											pos: position{line: 2892, col: 8, offset: 91310},
 																											expr: &anyMatcher{
-																												line: 2895, col: 9, offset: 91301,
+																												line: 2892, col: 9, offset: 91311,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1692, col: 9, offset: 54828},
+																									pos: position{line: 1689, col: 9, offset: 54817},
 																									expr: &actionExpr{
 																										pos: position{line: 677, col: 14, offset: 21558},
 																										run: (*parser).callonExtraListElement221,
@@ -26516,18 +26571,18 @@ var g = &grammar{
 																											pos: position{line: 677, col: 14, offset: 21558},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2893, col: 11, offset: 91286},
+																													pos: position{line: 2890, col: 11, offset: 91296},
 																													expr: &anyMatcher{
-																														line: 2893, col: 13, offset: 91288,
+																														line: 2890, col: 13, offset: 91298,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 677, col: 21, offset: 21565},
 																													expr: &actionExpr{
-																														pos: position{line: 2876, col: 10, offset: 90952},
+																														pos: position{line: 2873, col: 10, offset: 90962},
 																														run: (*parser).callonExtraListElement226,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2876, col: 10, offset: 90952},
+																															pos:        position{line: 2873, col: 10, offset: 90962},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -26536,28 +26591,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2898, col: 8, offset: 91350},
+																													pos: position{line: 2895, col: 8, offset: 91360},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2885, col: 12, offset: 91123},
+																															pos: position{line: 2882, col: 12, offset: 91133},
 																															run: (*parser).callonExtraListElement229,
 																															expr: &choiceExpr{
-																																pos: position{line: 2885, col: 13, offset: 91124},
+																																pos: position{line: 2882, col: 13, offset: 91134},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2885, col: 13, offset: 91124},
+																																		pos:        position{line: 2882, col: 13, offset: 91134},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2885, col: 20, offset: 91131},
+																																		pos:        position{line: 2882, col: 20, offset: 91141},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2885, col: 29, offset: 91140},
+																																		pos:        position{line: 2882, col: 29, offset: 91150},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -26566,9 +26621,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2895, col: 8, offset: 91300},
+																															pos: position{line: 2892, col: 8, offset: 91310},
 																															expr: &anyMatcher{
-																																line: 2895, col: 9, offset: 91301,
+																																line: 2892, col: 9, offset: 91311,
 																															},
 																														},
 																													},
@@ -26581,18 +26636,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1698, col: 9, offset: 54957},
+																						pos: position{line: 1695, col: 9, offset: 54946},
 																						run: (*parser).callonExtraListElement236,
 																						expr: &seqExpr{
-																							pos: position{line: 1698, col: 9, offset: 54957},
+																							pos: position{line: 1695, col: 9, offset: 54946},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2880, col: 11, offset: 91013},
+																									pos: position{line: 2877, col: 11, offset: 91023},
 																									run: (*parser).callonExtraListElement238,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2880, col: 11, offset: 91013},
+																										pos: position{line: 2877, col: 11, offset: 91023},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2880, col: 11, offset: 91013},
+																											pos:        position{line: 2877, col: 11, offset: 91023},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26601,15 +26656,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1699, col: 9, offset: 55030},
+																									pos:   position{line: 1696, col: 9, offset: 55019},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1699, col: 18, offset: 55039},
+																										pos: position{line: 1696, col: 18, offset: 55028},
 																										run: (*parser).callonExtraListElement242,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1699, col: 18, offset: 55039},
+																											pos: position{line: 1696, col: 18, offset: 55028},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1699, col: 18, offset: 55039},
+																												pos:        position{line: 1696, col: 18, offset: 55028},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -26619,28 +26674,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2898, col: 8, offset: 91350},
+																									pos: position{line: 2895, col: 8, offset: 91360},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2885, col: 12, offset: 91123},
+																											pos: position{line: 2882, col: 12, offset: 91133},
 																											run: (*parser).callonExtraListElement246,
 																											expr: &choiceExpr{
-																												pos: position{line: 2885, col: 13, offset: 91124},
+																												pos: position{line: 2882, col: 13, offset: 91134},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 13, offset: 91124},
+																														pos:        position{line: 2882, col: 13, offset: 91134},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 20, offset: 91131},
+																														pos:        position{line: 2882, col: 20, offset: 91141},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 29, offset: 91140},
+																														pos:        position{line: 2882, col: 29, offset: 91150},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26649,9 +26704,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2895, col: 8, offset: 91300},
+																											pos: position{line: 2892, col: 8, offset: 91310},
 																											expr: &anyMatcher{
-																												line: 2895, col: 9, offset: 91301,
+																												line: 2892, col: 9, offset: 91311,
 																											},
 																										},
 																									},
@@ -26672,50 +26727,50 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1503, col: 13, offset: 48686},
+										pos: position{line: 1500, col: 13, offset: 48675},
 										run: (*parser).callonExtraListElement253,
 										expr: &seqExpr{
-											pos: position{line: 1503, col: 13, offset: 48686},
+											pos: position{line: 1500, col: 13, offset: 48675},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1503, col: 13, offset: 48686},
+													pos:   position{line: 1500, col: 13, offset: 48675},
 													label: "attributes",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1503, col: 24, offset: 48697},
+														pos: position{line: 1500, col: 24, offset: 48686},
 														expr: &ruleRefExpr{
-															pos:  position{line: 1503, col: 25, offset: 48698},
+															pos:  position{line: 1500, col: 25, offset: 48687},
 															name: "BlockAttributes",
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1504, col: 13, offset: 48729},
+													pos:   position{line: 1501, col: 13, offset: 48718},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1504, col: 22, offset: 48738},
+														pos: position{line: 1501, col: 22, offset: 48727},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1580, col: 5, offset: 51053},
+																pos: position{line: 1577, col: 5, offset: 51042},
 																run: (*parser).callonExtraListElement260,
 																expr: &seqExpr{
-																	pos: position{line: 1580, col: 5, offset: 51053},
+																	pos: position{line: 1577, col: 5, offset: 51042},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1580, col: 5, offset: 51053},
+																			pos:   position{line: 1577, col: 5, offset: 51042},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1587, col: 5, offset: 51261},
+																				pos: position{line: 1584, col: 5, offset: 51250},
 																				run: (*parser).callonExtraListElement263,
 																				expr: &seqExpr{
-																					pos: position{line: 1587, col: 5, offset: 51261},
+																					pos: position{line: 1584, col: 5, offset: 51250},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1587, col: 5, offset: 51261},
+																							pos: position{line: 1584, col: 5, offset: 51250},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 90952},
+																								pos: position{line: 2873, col: 10, offset: 90962},
 																								run: (*parser).callonExtraListElement266,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 90952},
+																									pos:        position{line: 2873, col: 10, offset: 90962},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26724,27 +26779,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1587, col: 12, offset: 51268},
+																							pos:   position{line: 1584, col: 12, offset: 51257},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1589, col: 9, offset: 51331},
+																								pos: position{line: 1586, col: 9, offset: 51320},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1589, col: 9, offset: 51331},
+																										pos: position{line: 1586, col: 9, offset: 51320},
 																										run: (*parser).callonExtraListElement270,
 																										expr: &seqExpr{
-																											pos: position{line: 1589, col: 9, offset: 51331},
+																											pos: position{line: 1586, col: 9, offset: 51320},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1589, col: 9, offset: 51331},
+																													pos:   position{line: 1586, col: 9, offset: 51320},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1589, col: 16, offset: 51338},
+																														pos: position{line: 1586, col: 16, offset: 51327},
 																														run: (*parser).callonExtraListElement273,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1589, col: 16, offset: 51338},
+																															pos: position{line: 1586, col: 16, offset: 51327},
 																															expr: &litMatcher{
-																																pos:        position{line: 1589, col: 17, offset: 51339},
+																																pos:        position{line: 1586, col: 17, offset: 51328},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -26753,22 +26808,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1593, col: 9, offset: 51439},
+																													pos: position{line: 1590, col: 9, offset: 51428},
 																													run: (*parser).callonExtraListElement276,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1612, col: 11, offset: 52156},
+																										pos: position{line: 1609, col: 11, offset: 52145},
 																										run: (*parser).callonExtraListElement277,
 																										expr: &seqExpr{
-																											pos: position{line: 1612, col: 11, offset: 52156},
+																											pos: position{line: 1609, col: 11, offset: 52145},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1612, col: 11, offset: 52156},
+																													pos: position{line: 1609, col: 11, offset: 52145},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1612, col: 12, offset: 52157},
+																														pos:        position{line: 1609, col: 12, offset: 52146},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -26776,7 +26831,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1612, col: 20, offset: 52165},
+																													pos:        position{line: 1609, col: 20, offset: 52154},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26785,20 +26840,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1614, col: 13, offset: 52282},
+																										pos: position{line: 1611, col: 13, offset: 52271},
 																										run: (*parser).callonExtraListElement282,
 																										expr: &seqExpr{
-																											pos: position{line: 1614, col: 13, offset: 52282},
+																											pos: position{line: 1611, col: 13, offset: 52271},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1614, col: 14, offset: 52283},
+																													pos:        position{line: 1611, col: 14, offset: 52272},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1614, col: 21, offset: 52290},
+																													pos:        position{line: 1611, col: 21, offset: 52279},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26807,20 +26862,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1616, col: 13, offset: 52410},
+																										pos: position{line: 1613, col: 13, offset: 52399},
 																										run: (*parser).callonExtraListElement286,
 																										expr: &seqExpr{
-																											pos: position{line: 1616, col: 13, offset: 52410},
+																											pos: position{line: 1613, col: 13, offset: 52399},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1616, col: 14, offset: 52411},
+																													pos:        position{line: 1613, col: 14, offset: 52400},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1616, col: 21, offset: 52418},
+																													pos:        position{line: 1613, col: 21, offset: 52407},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26829,15 +26884,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1618, col: 13, offset: 52538},
+																										pos: position{line: 1615, col: 13, offset: 52527},
 																										run: (*parser).callonExtraListElement290,
 																										expr: &seqExpr{
-																											pos: position{line: 1618, col: 13, offset: 52538},
+																											pos: position{line: 1615, col: 13, offset: 52527},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1618, col: 13, offset: 52538},
+																													pos: position{line: 1615, col: 13, offset: 52527},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1618, col: 14, offset: 52539},
+																														pos:        position{line: 1615, col: 14, offset: 52528},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -26845,7 +26900,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1618, col: 26, offset: 52551},
+																													pos:        position{line: 1615, col: 26, offset: 52540},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26854,15 +26909,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1620, col: 13, offset: 52671},
+																										pos: position{line: 1617, col: 13, offset: 52660},
 																										run: (*parser).callonExtraListElement295,
 																										expr: &seqExpr{
-																											pos: position{line: 1620, col: 13, offset: 52671},
+																											pos: position{line: 1617, col: 13, offset: 52660},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1620, col: 13, offset: 52671},
+																													pos: position{line: 1617, col: 13, offset: 52660},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1620, col: 14, offset: 52672},
+																														pos:        position{line: 1617, col: 14, offset: 52661},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -26870,7 +26925,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1620, col: 26, offset: 52684},
+																													pos:        position{line: 1617, col: 26, offset: 52673},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26882,12 +26937,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2880, col: 11, offset: 91013},
+																							pos: position{line: 2877, col: 11, offset: 91023},
 																							run: (*parser).callonExtraListElement300,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2880, col: 11, offset: 91013},
+																								pos: position{line: 2877, col: 11, offset: 91023},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 11, offset: 91013},
+																									pos:        position{line: 2877, col: 11, offset: 91023},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26900,26 +26955,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1581, col: 5, offset: 51092},
+																			pos:   position{line: 1578, col: 5, offset: 51081},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1528, col: 5, offset: 49559},
+																				pos: position{line: 1525, col: 5, offset: 49548},
 																				run: (*parser).callonExtraListElement304,
 																				expr: &seqExpr{
-																					pos: position{line: 1528, col: 5, offset: 49559},
+																					pos: position{line: 1525, col: 5, offset: 49548},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1528, col: 5, offset: 49559},
+																							pos:   position{line: 1525, col: 5, offset: 49548},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1528, col: 14, offset: 49568},
+																								pos: position{line: 1525, col: 14, offset: 49557},
 																								expr: &actionExpr{
-																									pos: position{line: 1528, col: 15, offset: 49569},
+																									pos: position{line: 1525, col: 15, offset: 49558},
 																									run: (*parser).callonExtraListElement308,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1528, col: 15, offset: 49569},
+																										pos: position{line: 1525, col: 15, offset: 49558},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1528, col: 15, offset: 49569},
+																											pos:        position{line: 1525, col: 15, offset: 49558},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26930,28 +26985,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91350},
+																							pos: position{line: 2895, col: 8, offset: 91360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91123},
+																									pos: position{line: 2882, col: 12, offset: 91133},
 																									run: (*parser).callonExtraListElement312,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91124},
+																										pos: position{line: 2882, col: 13, offset: 91134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91124},
+																												pos:        position{line: 2882, col: 13, offset: 91134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91131},
+																												pos:        position{line: 2882, col: 20, offset: 91141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91140},
+																												pos:        position{line: 2882, col: 29, offset: 91150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26960,9 +27015,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91300},
+																									pos: position{line: 2892, col: 8, offset: 91310},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91301,
+																										line: 2892, col: 9, offset: 91311,
 																									},
 																								},
 																							},
@@ -26975,27 +27030,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1630, col: 5, offset: 52950},
+																pos: position{line: 1627, col: 5, offset: 52939},
 																run: (*parser).callonExtraListElement319,
 																expr: &seqExpr{
-																	pos: position{line: 1630, col: 5, offset: 52950},
+																	pos: position{line: 1627, col: 5, offset: 52939},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1630, col: 5, offset: 52950},
+																			pos:   position{line: 1627, col: 5, offset: 52939},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1637, col: 5, offset: 53223},
+																				pos: position{line: 1634, col: 5, offset: 53212},
 																				run: (*parser).callonExtraListElement322,
 																				expr: &seqExpr{
-																					pos: position{line: 1637, col: 5, offset: 53223},
+																					pos: position{line: 1634, col: 5, offset: 53212},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1637, col: 5, offset: 53223},
+																							pos: position{line: 1634, col: 5, offset: 53212},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 90952},
+																								pos: position{line: 2873, col: 10, offset: 90962},
 																								run: (*parser).callonExtraListElement325,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 90952},
+																									pos:        position{line: 2873, col: 10, offset: 90962},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27004,24 +27059,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1638, col: 5, offset: 53235},
+																							pos:   position{line: 1635, col: 5, offset: 53224},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1639, col: 9, offset: 53251},
+																								pos: position{line: 1636, col: 9, offset: 53240},
 																								run: (*parser).callonExtraListElement328,
 																								expr: &choiceExpr{
-																									pos: position{line: 1639, col: 10, offset: 53252},
+																									pos: position{line: 1636, col: 10, offset: 53241},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1639, col: 11, offset: 53253},
+																											pos:        position{line: 1636, col: 11, offset: 53242},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1639, col: 18, offset: 53260},
+																											pos: position{line: 1636, col: 18, offset: 53249},
 																											expr: &litMatcher{
-																												pos:        position{line: 1639, col: 19, offset: 53261},
+																												pos:        position{line: 1636, col: 19, offset: 53250},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -27032,16 +27087,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1642, col: 7, offset: 53351},
+																							pos: position{line: 1639, col: 7, offset: 53340},
 																							run: (*parser).callonExtraListElement333,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2880, col: 11, offset: 91013},
+																							pos: position{line: 2877, col: 11, offset: 91023},
 																							run: (*parser).callonExtraListElement334,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2880, col: 11, offset: 91013},
+																								pos: position{line: 2877, col: 11, offset: 91023},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 11, offset: 91013},
+																									pos:        position{line: 2877, col: 11, offset: 91023},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27054,56 +27109,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1631, col: 5, offset: 52991},
+																			pos:   position{line: 1628, col: 5, offset: 52980},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1631, col: 16, offset: 53002},
+																				pos: position{line: 1628, col: 16, offset: 52991},
 																				expr: &actionExpr{
-																					pos: position{line: 1652, col: 5, offset: 53616},
+																					pos: position{line: 1649, col: 5, offset: 53605},
 																					run: (*parser).callonExtraListElement339,
 																					expr: &seqExpr{
-																						pos: position{line: 1652, col: 5, offset: 53616},
+																						pos: position{line: 1649, col: 5, offset: 53605},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1652, col: 5, offset: 53616},
+																								pos: position{line: 1649, col: 5, offset: 53605},
 																								expr: &litMatcher{
-																									pos:        position{line: 1652, col: 6, offset: 53617},
+																									pos:        position{line: 1649, col: 6, offset: 53606},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1652, col: 10, offset: 53621},
+																								pos:   position{line: 1649, col: 10, offset: 53610},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1653, col: 7, offset: 53635},
+																									pos: position{line: 1650, col: 7, offset: 53624},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1653, col: 7, offset: 53635},
+																											pos: position{line: 1650, col: 7, offset: 53624},
 																											run: (*parser).callonExtraListElement345,
 																											expr: &litMatcher{
-																												pos:        position{line: 1653, col: 7, offset: 53635},
+																												pos:        position{line: 1650, col: 7, offset: 53624},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1654, col: 7, offset: 53680},
+																											pos: position{line: 1651, col: 7, offset: 53669},
 																											run: (*parser).callonExtraListElement347,
 																											expr: &litMatcher{
-																												pos:        position{line: 1654, col: 7, offset: 53680},
+																												pos:        position{line: 1651, col: 7, offset: 53669},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1655, col: 7, offset: 53723},
+																											pos: position{line: 1652, col: 7, offset: 53712},
 																											run: (*parser).callonExtraListElement349,
 																											expr: &litMatcher{
-																												pos:        position{line: 1655, col: 7, offset: 53723},
+																												pos:        position{line: 1652, col: 7, offset: 53712},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -27113,12 +27168,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2880, col: 11, offset: 91013},
+																								pos: position{line: 2877, col: 11, offset: 91023},
 																								run: (*parser).callonExtraListElement351,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2880, col: 11, offset: 91013},
+																									pos: position{line: 2877, col: 11, offset: 91023},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2880, col: 11, offset: 91013},
+																										pos:        position{line: 2877, col: 11, offset: 91023},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27132,26 +27187,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1632, col: 5, offset: 53041},
+																			pos:   position{line: 1629, col: 5, offset: 53030},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1528, col: 5, offset: 49559},
+																				pos: position{line: 1525, col: 5, offset: 49548},
 																				run: (*parser).callonExtraListElement355,
 																				expr: &seqExpr{
-																					pos: position{line: 1528, col: 5, offset: 49559},
+																					pos: position{line: 1525, col: 5, offset: 49548},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1528, col: 5, offset: 49559},
+																							pos:   position{line: 1525, col: 5, offset: 49548},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1528, col: 14, offset: 49568},
+																								pos: position{line: 1525, col: 14, offset: 49557},
 																								expr: &actionExpr{
-																									pos: position{line: 1528, col: 15, offset: 49569},
+																									pos: position{line: 1525, col: 15, offset: 49558},
 																									run: (*parser).callonExtraListElement359,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1528, col: 15, offset: 49569},
+																										pos: position{line: 1525, col: 15, offset: 49558},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1528, col: 15, offset: 49569},
+																											pos:        position{line: 1525, col: 15, offset: 49558},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27162,28 +27217,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91350},
+																							pos: position{line: 2895, col: 8, offset: 91360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91123},
+																									pos: position{line: 2882, col: 12, offset: 91133},
 																									run: (*parser).callonExtraListElement363,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91124},
+																										pos: position{line: 2882, col: 13, offset: 91134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91124},
+																												pos:        position{line: 2882, col: 13, offset: 91134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91131},
+																												pos:        position{line: 2882, col: 20, offset: 91141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91140},
+																												pos:        position{line: 2882, col: 29, offset: 91150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27192,9 +27247,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91300},
+																									pos: position{line: 2892, col: 8, offset: 91310},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91301,
+																										line: 2892, col: 9, offset: 91311,
 																									},
 																								},
 																							},
@@ -27207,36 +27262,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1721, col: 5, offset: 55595},
+																pos: position{line: 1718, col: 5, offset: 55584},
 																run: (*parser).callonExtraListElement370,
 																expr: &seqExpr{
-																	pos: position{line: 1721, col: 5, offset: 55595},
+																	pos: position{line: 1718, col: 5, offset: 55584},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1721, col: 5, offset: 55595},
+																			pos:   position{line: 1718, col: 5, offset: 55584},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1727, col: 5, offset: 55792},
+																				pos: position{line: 1724, col: 5, offset: 55781},
 																				run: (*parser).callonExtraListElement373,
 																				expr: &seqExpr{
-																					pos: position{line: 1727, col: 5, offset: 55792},
+																					pos: position{line: 1724, col: 5, offset: 55781},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1727, col: 5, offset: 55792},
+																							pos:        position{line: 1724, col: 5, offset: 55781},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1727, col: 9, offset: 55796},
+																							pos:   position{line: 1724, col: 9, offset: 55785},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1727, col: 14, offset: 55801},
+																								pos: position{line: 1724, col: 14, offset: 55790},
 																								run: (*parser).callonExtraListElement377,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1727, col: 14, offset: 55801},
+																									pos: position{line: 1724, col: 14, offset: 55790},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1727, col: 14, offset: 55801},
+																										pos:        position{line: 1724, col: 14, offset: 55790},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -27246,18 +27301,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1727, col: 62, offset: 55849},
+																							pos:        position{line: 1724, col: 62, offset: 55838},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2880, col: 11, offset: 91013},
+																							pos: position{line: 2877, col: 11, offset: 91023},
 																							run: (*parser).callonExtraListElement381,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2880, col: 11, offset: 91013},
+																								pos: position{line: 2877, col: 11, offset: 91023},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 11, offset: 91013},
+																									pos:        position{line: 2877, col: 11, offset: 91023},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27270,26 +27325,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1722, col: 5, offset: 55631},
+																			pos:   position{line: 1719, col: 5, offset: 55620},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1528, col: 5, offset: 49559},
+																				pos: position{line: 1525, col: 5, offset: 49548},
 																				run: (*parser).callonExtraListElement385,
 																				expr: &seqExpr{
-																					pos: position{line: 1528, col: 5, offset: 49559},
+																					pos: position{line: 1525, col: 5, offset: 49548},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1528, col: 5, offset: 49559},
+																							pos:   position{line: 1525, col: 5, offset: 49548},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1528, col: 14, offset: 49568},
+																								pos: position{line: 1525, col: 14, offset: 49557},
 																								expr: &actionExpr{
-																									pos: position{line: 1528, col: 15, offset: 49569},
+																									pos: position{line: 1525, col: 15, offset: 49558},
 																									run: (*parser).callonExtraListElement389,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1528, col: 15, offset: 49569},
+																										pos: position{line: 1525, col: 15, offset: 49558},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1528, col: 15, offset: 49569},
+																											pos:        position{line: 1525, col: 15, offset: 49558},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27300,28 +27355,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91350},
+																							pos: position{line: 2895, col: 8, offset: 91360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91123},
+																									pos: position{line: 2882, col: 12, offset: 91133},
 																									run: (*parser).callonExtraListElement393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91124},
+																										pos: position{line: 2882, col: 13, offset: 91134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91124},
+																												pos:        position{line: 2882, col: 13, offset: 91134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91131},
+																												pos:        position{line: 2882, col: 20, offset: 91141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91140},
+																												pos:        position{line: 2882, col: 29, offset: 91150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27330,9 +27385,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91300},
+																									pos: position{line: 2892, col: 8, offset: 91310},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91301,
+																										line: 2892, col: 9, offset: 91311,
 																									},
 																								},
 																							},
@@ -27345,35 +27400,35 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1664, col: 5, offset: 53916},
+																pos: position{line: 1661, col: 5, offset: 53905},
 																run: (*parser).callonExtraListElement400,
 																expr: &seqExpr{
-																	pos: position{line: 1664, col: 5, offset: 53916},
+																	pos: position{line: 1661, col: 5, offset: 53905},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1664, col: 5, offset: 53916},
+																			pos:   position{line: 1661, col: 5, offset: 53905},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1672, col: 5, offset: 54242},
+																				pos: position{line: 1669, col: 5, offset: 54231},
 																				run: (*parser).callonExtraListElement403,
 																				expr: &seqExpr{
-																					pos: position{line: 1672, col: 5, offset: 54242},
+																					pos: position{line: 1669, col: 5, offset: 54231},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1672, col: 5, offset: 54242},
+																							pos: position{line: 1669, col: 5, offset: 54231},
 																							expr: &seqExpr{
-																								pos: position{line: 2488, col: 31, offset: 80080},
+																								pos: position{line: 2485, col: 31, offset: 80069},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2488, col: 31, offset: 80080},
+																										pos:        position{line: 2485, col: 31, offset: 80069},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2488, col: 36, offset: 80085},
+																										pos: position{line: 2485, col: 36, offset: 80074},
 																										expr: &litMatcher{
-																											pos:        position{line: 2488, col: 37, offset: 80086},
+																											pos:        position{line: 2485, col: 37, offset: 80075},
 																											val:        "//",
 																											ignoreCase: false,
 																											want:       "\"//\"",
@@ -27383,28 +27438,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1673, col: 5, offset: 54274},
+																							pos: position{line: 1670, col: 5, offset: 54263},
 																							expr: &seqExpr{
-																								pos: position{line: 1673, col: 6, offset: 54275},
+																								pos: position{line: 1670, col: 6, offset: 54264},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1673, col: 6, offset: 54275},
+																										pos: position{line: 1670, col: 6, offset: 54264},
 																										expr: &actionExpr{
-																											pos: position{line: 1678, col: 5, offset: 54425},
+																											pos: position{line: 1675, col: 5, offset: 54414},
 																											run: (*parser).callonExtraListElement413,
 																											expr: &seqExpr{
-																												pos: position{line: 1678, col: 5, offset: 54425},
+																												pos: position{line: 1675, col: 5, offset: 54414},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1678, col: 5, offset: 54425},
+																														pos:   position{line: 1675, col: 5, offset: 54414},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1678, col: 16, offset: 54436},
+																															pos: position{line: 1675, col: 16, offset: 54425},
 																															run: (*parser).callonExtraListElement416,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1678, col: 16, offset: 54436},
+																																pos: position{line: 1675, col: 16, offset: 54425},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1678, col: 17, offset: 54437},
+																																	pos:        position{line: 1675, col: 17, offset: 54426},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -27413,7 +27468,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1681, col: 5, offset: 54494},
+																														pos: position{line: 1678, col: 5, offset: 54483},
 																														run: (*parser).callonExtraListElement419,
 																													},
 																												},
@@ -27421,30 +27476,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1673, col: 35, offset: 54304},
+																										pos: position{line: 1670, col: 35, offset: 54293},
 																										expr: &choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91350},
+																											pos: position{line: 2895, col: 8, offset: 91360},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91123},
+																													pos: position{line: 2882, col: 12, offset: 91133},
 																													run: (*parser).callonExtraListElement422,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91124},
+																														pos: position{line: 2882, col: 13, offset: 91134},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91124},
+																																pos:        position{line: 2882, col: 13, offset: 91134},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91131},
+																																pos:        position{line: 2882, col: 20, offset: 91141},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91140},
+																																pos:        position{line: 2882, col: 29, offset: 91150},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -27453,16 +27508,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91300},
+																													pos: position{line: 2892, col: 8, offset: 91310},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91301,
+																														line: 2892, col: 9, offset: 91311,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1673, col: 40, offset: 54309,
+																										line: 1670, col: 40, offset: 54298,
 																									},
 																								},
 																							},
@@ -27472,24 +27527,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1665, col: 5, offset: 53951},
+																			pos:   position{line: 1662, col: 5, offset: 53940},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1678, col: 5, offset: 54425},
+																				pos: position{line: 1675, col: 5, offset: 54414},
 																				run: (*parser).callonExtraListElement431,
 																				expr: &seqExpr{
-																					pos: position{line: 1678, col: 5, offset: 54425},
+																					pos: position{line: 1675, col: 5, offset: 54414},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1678, col: 5, offset: 54425},
+																							pos:   position{line: 1675, col: 5, offset: 54414},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1678, col: 16, offset: 54436},
+																								pos: position{line: 1675, col: 16, offset: 54425},
 																								run: (*parser).callonExtraListElement434,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1678, col: 16, offset: 54436},
+																									pos: position{line: 1675, col: 16, offset: 54425},
 																									expr: &litMatcher{
-																										pos:        position{line: 1678, col: 17, offset: 54437},
+																										pos:        position{line: 1675, col: 17, offset: 54426},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -27498,7 +27553,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1681, col: 5, offset: 54494},
+																							pos: position{line: 1678, col: 5, offset: 54483},
 																							run: (*parser).callonExtraListElement437,
 																						},
 																					},
@@ -27506,24 +27561,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1666, col: 5, offset: 53996},
+																			pos:   position{line: 1663, col: 5, offset: 53985},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1689, col: 5, offset: 54743},
+																				pos: position{line: 1686, col: 5, offset: 54732},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1691, col: 9, offset: 54809},
+																						pos: position{line: 1688, col: 9, offset: 54798},
 																						run: (*parser).callonExtraListElement440,
 																						expr: &seqExpr{
-																							pos: position{line: 1691, col: 9, offset: 54809},
+																							pos: position{line: 1688, col: 9, offset: 54798},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1691, col: 9, offset: 54809},
+																									pos: position{line: 1688, col: 9, offset: 54798},
 																									expr: &actionExpr{
-																										pos: position{line: 2876, col: 10, offset: 90952},
+																										pos: position{line: 2873, col: 10, offset: 90962},
 																										run: (*parser).callonExtraListElement443,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2876, col: 10, offset: 90952},
+																											pos:        position{line: 2873, col: 10, offset: 90962},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27532,28 +27587,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2898, col: 8, offset: 91350},
+																									pos: position{line: 2895, col: 8, offset: 91360},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2885, col: 12, offset: 91123},
+																											pos: position{line: 2882, col: 12, offset: 91133},
 																											run: (*parser).callonExtraListElement446,
 																											expr: &choiceExpr{
-																												pos: position{line: 2885, col: 13, offset: 91124},
+																												pos: position{line: 2882, col: 13, offset: 91134},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 13, offset: 91124},
+																														pos:        position{line: 2882, col: 13, offset: 91134},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 20, offset: 91131},
+																														pos:        position{line: 2882, col: 20, offset: 91141},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 29, offset: 91140},
+																														pos:        position{line: 2882, col: 29, offset: 91150},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27562,15 +27617,15 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2895, col: 8, offset: 91300},
+																											pos: position{line: 2892, col: 8, offset: 91310},
 																											expr: &anyMatcher{
-																												line: 2895, col: 9, offset: 91301,
+																												line: 2892, col: 9, offset: 91311,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1692, col: 9, offset: 54828},
+																									pos: position{line: 1689, col: 9, offset: 54817},
 																									expr: &actionExpr{
 																										pos: position{line: 677, col: 14, offset: 21558},
 																										run: (*parser).callonExtraListElement454,
@@ -27578,18 +27633,18 @@ var g = &grammar{
 																											pos: position{line: 677, col: 14, offset: 21558},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2893, col: 11, offset: 91286},
+																													pos: position{line: 2890, col: 11, offset: 91296},
 																													expr: &anyMatcher{
-																														line: 2893, col: 13, offset: 91288,
+																														line: 2890, col: 13, offset: 91298,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 677, col: 21, offset: 21565},
 																													expr: &actionExpr{
-																														pos: position{line: 2876, col: 10, offset: 90952},
+																														pos: position{line: 2873, col: 10, offset: 90962},
 																														run: (*parser).callonExtraListElement459,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2876, col: 10, offset: 90952},
+																															pos:        position{line: 2873, col: 10, offset: 90962},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27598,28 +27653,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2898, col: 8, offset: 91350},
+																													pos: position{line: 2895, col: 8, offset: 91360},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2885, col: 12, offset: 91123},
+																															pos: position{line: 2882, col: 12, offset: 91133},
 																															run: (*parser).callonExtraListElement462,
 																															expr: &choiceExpr{
-																																pos: position{line: 2885, col: 13, offset: 91124},
+																																pos: position{line: 2882, col: 13, offset: 91134},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2885, col: 13, offset: 91124},
+																																		pos:        position{line: 2882, col: 13, offset: 91134},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2885, col: 20, offset: 91131},
+																																		pos:        position{line: 2882, col: 20, offset: 91141},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2885, col: 29, offset: 91140},
+																																		pos:        position{line: 2882, col: 29, offset: 91150},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -27628,9 +27683,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2895, col: 8, offset: 91300},
+																															pos: position{line: 2892, col: 8, offset: 91310},
 																															expr: &anyMatcher{
-																																line: 2895, col: 9, offset: 91301,
+																																line: 2892, col: 9, offset: 91311,
 																															},
 																														},
 																													},
@@ -27643,18 +27698,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1698, col: 9, offset: 54957},
+																						pos: position{line: 1695, col: 9, offset: 54946},
 																						run: (*parser).callonExtraListElement469,
 																						expr: &seqExpr{
-																							pos: position{line: 1698, col: 9, offset: 54957},
+																							pos: position{line: 1695, col: 9, offset: 54946},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2880, col: 11, offset: 91013},
+																									pos: position{line: 2877, col: 11, offset: 91023},
 																									run: (*parser).callonExtraListElement471,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2880, col: 11, offset: 91013},
+																										pos: position{line: 2877, col: 11, offset: 91023},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2880, col: 11, offset: 91013},
+																											pos:        position{line: 2877, col: 11, offset: 91023},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27663,15 +27718,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1699, col: 9, offset: 55030},
+																									pos:   position{line: 1696, col: 9, offset: 55019},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1699, col: 18, offset: 55039},
+																										pos: position{line: 1696, col: 18, offset: 55028},
 																										run: (*parser).callonExtraListElement475,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1699, col: 18, offset: 55039},
+																											pos: position{line: 1696, col: 18, offset: 55028},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1699, col: 18, offset: 55039},
+																												pos:        position{line: 1696, col: 18, offset: 55028},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -27681,28 +27736,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2898, col: 8, offset: 91350},
+																									pos: position{line: 2895, col: 8, offset: 91360},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2885, col: 12, offset: 91123},
+																											pos: position{line: 2882, col: 12, offset: 91133},
 																											run: (*parser).callonExtraListElement479,
 																											expr: &choiceExpr{
-																												pos: position{line: 2885, col: 13, offset: 91124},
+																												pos: position{line: 2882, col: 13, offset: 91134},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 13, offset: 91124},
+																														pos:        position{line: 2882, col: 13, offset: 91134},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 20, offset: 91131},
+																														pos:        position{line: 2882, col: 20, offset: 91141},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 29, offset: 91140},
+																														pos:        position{line: 2882, col: 29, offset: 91150},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27711,9 +27766,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2895, col: 8, offset: 91300},
+																											pos: position{line: 2892, col: 8, offset: 91310},
 																											expr: &anyMatcher{
-																												line: 2895, col: 9, offset: 91301,
+																												line: 2892, col: 9, offset: 91311,
 																											},
 																										},
 																									},
@@ -27734,40 +27789,40 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1507, col: 11, offset: 48923},
+										pos:  position{line: 1504, col: 11, offset: 48912},
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2483, col: 22, offset: 79859},
+										pos: position{line: 2480, col: 22, offset: 79848},
 										run: (*parser).callonExtraListElement487,
 										expr: &seqExpr{
-											pos: position{line: 2483, col: 22, offset: 79859},
+											pos: position{line: 2480, col: 22, offset: 79848},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2488, col: 31, offset: 80080},
+													pos:        position{line: 2485, col: 31, offset: 80069},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2488, col: 36, offset: 80085},
+													pos: position{line: 2485, col: 36, offset: 80074},
 													expr: &litMatcher{
-														pos:        position{line: 2488, col: 37, offset: 80086},
+														pos:        position{line: 2485, col: 37, offset: 80075},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2483, col: 49, offset: 79886},
+													pos:   position{line: 2480, col: 49, offset: 79875},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2822, col: 13, offset: 89478},
+														pos: position{line: 2819, col: 13, offset: 89488},
 														run: (*parser).callonExtraListElement493,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2822, col: 13, offset: 89478},
+															pos: position{line: 2819, col: 13, offset: 89488},
 															expr: &charClassMatcher{
-																pos:        position{line: 2822, col: 13, offset: 89478},
+																pos:        position{line: 2819, col: 13, offset: 89488},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -27777,28 +27832,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2898, col: 8, offset: 91350},
+													pos: position{line: 2895, col: 8, offset: 91360},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91123},
+															pos: position{line: 2882, col: 12, offset: 91133},
 															run: (*parser).callonExtraListElement497,
 															expr: &choiceExpr{
-																pos: position{line: 2885, col: 13, offset: 91124},
+																pos: position{line: 2882, col: 13, offset: 91134},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 13, offset: 91124},
+																		pos:        position{line: 2882, col: 13, offset: 91134},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 20, offset: 91131},
+																		pos:        position{line: 2882, col: 20, offset: 91141},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 29, offset: 91140},
+																		pos:        position{line: 2882, col: 29, offset: 91150},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -27807,9 +27862,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2895, col: 8, offset: 91300},
+															pos: position{line: 2892, col: 8, offset: 91310},
 															expr: &anyMatcher{
-																line: 2895, col: 9, offset: 91301,
+																line: 2892, col: 9, offset: 91311,
 															},
 														},
 													},
@@ -27818,13 +27873,13 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1515, col: 5, offset: 49201},
+										pos: position{line: 1512, col: 5, offset: 49190},
 										run: (*parser).callonExtraListElement504,
 										expr: &seqExpr{
-											pos: position{line: 1515, col: 5, offset: 49201},
+											pos: position{line: 1512, col: 5, offset: 49190},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 1515, col: 5, offset: 49201},
+													pos: position{line: 1512, col: 5, offset: 49190},
 													expr: &actionExpr{
 														pos: position{line: 677, col: 14, offset: 21558},
 														run: (*parser).callonExtraListElement507,
@@ -27832,18 +27887,18 @@ var g = &grammar{
 															pos: position{line: 677, col: 14, offset: 21558},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2893, col: 11, offset: 91286},
+																	pos: position{line: 2890, col: 11, offset: 91296},
 																	expr: &anyMatcher{
-																		line: 2893, col: 13, offset: 91288,
+																		line: 2890, col: 13, offset: 91298,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 677, col: 21, offset: 21565},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 90952},
+																		pos: position{line: 2873, col: 10, offset: 90962},
 																		run: (*parser).callonExtraListElement512,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 90952},
+																			pos:        position{line: 2873, col: 10, offset: 90962},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27852,28 +27907,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91350},
+																	pos: position{line: 2895, col: 8, offset: 91360},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91123},
+																			pos: position{line: 2882, col: 12, offset: 91133},
 																			run: (*parser).callonExtraListElement515,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91124},
+																				pos: position{line: 2882, col: 13, offset: 91134},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91124},
+																						pos:        position{line: 2882, col: 13, offset: 91134},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91131},
+																						pos:        position{line: 2882, col: 20, offset: 91141},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91140},
+																						pos:        position{line: 2882, col: 29, offset: 91150},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -27882,9 +27937,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91300},
+																			pos: position{line: 2892, col: 8, offset: 91310},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91301,
+																				line: 2892, col: 9, offset: 91311,
 																			},
 																		},
 																	},
@@ -27894,23 +27949,23 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1516, col: 5, offset: 49216},
+													pos: position{line: 1513, col: 5, offset: 49205},
 													expr: &seqExpr{
-														pos: position{line: 1546, col: 27, offset: 50042},
+														pos: position{line: 1543, col: 27, offset: 50031},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 1546, col: 27, offset: 50042},
+																pos:        position{line: 1543, col: 27, offset: 50031},
 																val:        "+",
 																ignoreCase: false,
 																want:       "\"+\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 1546, col: 31, offset: 50046},
+																pos: position{line: 1543, col: 31, offset: 50035},
 																expr: &actionExpr{
-																	pos: position{line: 2876, col: 10, offset: 90952},
+																	pos: position{line: 2873, col: 10, offset: 90962},
 																	run: (*parser).callonExtraListElement526,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2876, col: 10, offset: 90952},
+																		pos:        position{line: 2873, col: 10, offset: 90962},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -27919,25 +27974,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2885, col: 12, offset: 91123},
+																pos: position{line: 2882, col: 12, offset: 91133},
 																run: (*parser).callonExtraListElement528,
 																expr: &choiceExpr{
-																	pos: position{line: 2885, col: 13, offset: 91124},
+																	pos: position{line: 2882, col: 13, offset: 91134},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 13, offset: 91124},
+																			pos:        position{line: 2882, col: 13, offset: 91134},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 20, offset: 91131},
+																			pos:        position{line: 2882, col: 20, offset: 91141},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 29, offset: 91140},
+																			pos:        position{line: 2882, col: 29, offset: 91150},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -27949,20 +28004,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1517, col: 5, offset: 49244},
+													pos: position{line: 1514, col: 5, offset: 49233},
 													expr: &actionExpr{
-														pos: position{line: 1587, col: 5, offset: 51261},
+														pos: position{line: 1584, col: 5, offset: 51250},
 														run: (*parser).callonExtraListElement534,
 														expr: &seqExpr{
-															pos: position{line: 1587, col: 5, offset: 51261},
+															pos: position{line: 1584, col: 5, offset: 51250},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1587, col: 5, offset: 51261},
+																	pos: position{line: 1584, col: 5, offset: 51250},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 90952},
+																		pos: position{line: 2873, col: 10, offset: 90962},
 																		run: (*parser).callonExtraListElement537,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 90952},
+																			pos:        position{line: 2873, col: 10, offset: 90962},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27971,27 +28026,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1587, col: 12, offset: 51268},
+																	pos:   position{line: 1584, col: 12, offset: 51257},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1589, col: 9, offset: 51331},
+																		pos: position{line: 1586, col: 9, offset: 51320},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1589, col: 9, offset: 51331},
+																				pos: position{line: 1586, col: 9, offset: 51320},
 																				run: (*parser).callonExtraListElement541,
 																				expr: &seqExpr{
-																					pos: position{line: 1589, col: 9, offset: 51331},
+																					pos: position{line: 1586, col: 9, offset: 51320},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1589, col: 9, offset: 51331},
+																							pos:   position{line: 1586, col: 9, offset: 51320},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1589, col: 16, offset: 51338},
+																								pos: position{line: 1586, col: 16, offset: 51327},
 																								run: (*parser).callonExtraListElement544,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1589, col: 16, offset: 51338},
+																									pos: position{line: 1586, col: 16, offset: 51327},
 																									expr: &litMatcher{
-																										pos:        position{line: 1589, col: 17, offset: 51339},
+																										pos:        position{line: 1586, col: 17, offset: 51328},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -28000,22 +28055,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1593, col: 9, offset: 51439},
+																							pos: position{line: 1590, col: 9, offset: 51428},
 																							run: (*parser).callonExtraListElement547,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1612, col: 11, offset: 52156},
+																				pos: position{line: 1609, col: 11, offset: 52145},
 																				run: (*parser).callonExtraListElement548,
 																				expr: &seqExpr{
-																					pos: position{line: 1612, col: 11, offset: 52156},
+																					pos: position{line: 1609, col: 11, offset: 52145},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1612, col: 11, offset: 52156},
+																							pos: position{line: 1609, col: 11, offset: 52145},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1612, col: 12, offset: 52157},
+																								pos:        position{line: 1609, col: 12, offset: 52146},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -28023,7 +28078,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1612, col: 20, offset: 52165},
+																							pos:        position{line: 1609, col: 20, offset: 52154},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28032,20 +28087,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1614, col: 13, offset: 52282},
+																				pos: position{line: 1611, col: 13, offset: 52271},
 																				run: (*parser).callonExtraListElement553,
 																				expr: &seqExpr{
-																					pos: position{line: 1614, col: 13, offset: 52282},
+																					pos: position{line: 1611, col: 13, offset: 52271},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1614, col: 14, offset: 52283},
+																							pos:        position{line: 1611, col: 14, offset: 52272},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1614, col: 21, offset: 52290},
+																							pos:        position{line: 1611, col: 21, offset: 52279},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28054,20 +28109,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1616, col: 13, offset: 52410},
+																				pos: position{line: 1613, col: 13, offset: 52399},
 																				run: (*parser).callonExtraListElement557,
 																				expr: &seqExpr{
-																					pos: position{line: 1616, col: 13, offset: 52410},
+																					pos: position{line: 1613, col: 13, offset: 52399},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1616, col: 14, offset: 52411},
+																							pos:        position{line: 1613, col: 14, offset: 52400},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1616, col: 21, offset: 52418},
+																							pos:        position{line: 1613, col: 21, offset: 52407},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28076,15 +28131,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1618, col: 13, offset: 52538},
+																				pos: position{line: 1615, col: 13, offset: 52527},
 																				run: (*parser).callonExtraListElement561,
 																				expr: &seqExpr{
-																					pos: position{line: 1618, col: 13, offset: 52538},
+																					pos: position{line: 1615, col: 13, offset: 52527},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1618, col: 13, offset: 52538},
+																							pos: position{line: 1615, col: 13, offset: 52527},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1618, col: 14, offset: 52539},
+																								pos:        position{line: 1615, col: 14, offset: 52528},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -28092,7 +28147,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1618, col: 26, offset: 52551},
+																							pos:        position{line: 1615, col: 26, offset: 52540},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -28101,15 +28156,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1620, col: 13, offset: 52671},
+																				pos: position{line: 1617, col: 13, offset: 52660},
 																				run: (*parser).callonExtraListElement566,
 																				expr: &seqExpr{
-																					pos: position{line: 1620, col: 13, offset: 52671},
+																					pos: position{line: 1617, col: 13, offset: 52660},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1620, col: 13, offset: 52671},
+																							pos: position{line: 1617, col: 13, offset: 52660},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1620, col: 14, offset: 52672},
+																								pos:        position{line: 1617, col: 14, offset: 52661},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -28117,7 +28172,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1620, col: 26, offset: 52684},
+																							pos:        position{line: 1617, col: 26, offset: 52673},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -28129,12 +28184,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2880, col: 11, offset: 91013},
+																	pos: position{line: 2877, col: 11, offset: 91023},
 																	run: (*parser).callonExtraListElement571,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2880, col: 11, offset: 91013},
+																		pos: position{line: 2877, col: 11, offset: 91023},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 11, offset: 91013},
+																			pos:        position{line: 2877, col: 11, offset: 91023},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28147,20 +28202,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1518, col: 5, offset: 49274},
+													pos: position{line: 1515, col: 5, offset: 49263},
 													expr: &actionExpr{
-														pos: position{line: 1637, col: 5, offset: 53223},
+														pos: position{line: 1634, col: 5, offset: 53212},
 														run: (*parser).callonExtraListElement575,
 														expr: &seqExpr{
-															pos: position{line: 1637, col: 5, offset: 53223},
+															pos: position{line: 1634, col: 5, offset: 53212},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1637, col: 5, offset: 53223},
+																	pos: position{line: 1634, col: 5, offset: 53212},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 90952},
+																		pos: position{line: 2873, col: 10, offset: 90962},
 																		run: (*parser).callonExtraListElement578,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 90952},
+																			pos:        position{line: 2873, col: 10, offset: 90962},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28169,24 +28224,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1638, col: 5, offset: 53235},
+																	pos:   position{line: 1635, col: 5, offset: 53224},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1639, col: 9, offset: 53251},
+																		pos: position{line: 1636, col: 9, offset: 53240},
 																		run: (*parser).callonExtraListElement581,
 																		expr: &choiceExpr{
-																			pos: position{line: 1639, col: 10, offset: 53252},
+																			pos: position{line: 1636, col: 10, offset: 53241},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1639, col: 11, offset: 53253},
+																					pos:        position{line: 1636, col: 11, offset: 53242},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1639, col: 18, offset: 53260},
+																					pos: position{line: 1636, col: 18, offset: 53249},
 																					expr: &litMatcher{
-																						pos:        position{line: 1639, col: 19, offset: 53261},
+																						pos:        position{line: 1636, col: 19, offset: 53250},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -28197,16 +28252,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1642, col: 7, offset: 53351},
+																	pos: position{line: 1639, col: 7, offset: 53340},
 																	run: (*parser).callonExtraListElement586,
 																},
 																&actionExpr{
-																	pos: position{line: 2880, col: 11, offset: 91013},
+																	pos: position{line: 2877, col: 11, offset: 91023},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2880, col: 11, offset: 91013},
+																		pos: position{line: 2877, col: 11, offset: 91023},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 11, offset: 91013},
+																			pos:        position{line: 2877, col: 11, offset: 91023},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28219,29 +28274,29 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1519, col: 5, offset: 49306},
+													pos: position{line: 1516, col: 5, offset: 49295},
 													expr: &actionExpr{
-														pos: position{line: 1727, col: 5, offset: 55792},
+														pos: position{line: 1724, col: 5, offset: 55781},
 														run: (*parser).callonExtraListElement591,
 														expr: &seqExpr{
-															pos: position{line: 1727, col: 5, offset: 55792},
+															pos: position{line: 1724, col: 5, offset: 55781},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1727, col: 5, offset: 55792},
+																	pos:        position{line: 1724, col: 5, offset: 55781},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1727, col: 9, offset: 55796},
+																	pos:   position{line: 1724, col: 9, offset: 55785},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1727, col: 14, offset: 55801},
+																		pos: position{line: 1724, col: 14, offset: 55790},
 																		run: (*parser).callonExtraListElement595,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1727, col: 14, offset: 55801},
+																			pos: position{line: 1724, col: 14, offset: 55790},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1727, col: 14, offset: 55801},
+																				pos:        position{line: 1724, col: 14, offset: 55790},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -28251,18 +28306,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1727, col: 62, offset: 55849},
+																	pos:        position{line: 1724, col: 62, offset: 55838},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2880, col: 11, offset: 91013},
+																	pos: position{line: 2877, col: 11, offset: 91023},
 																	run: (*parser).callonExtraListElement599,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2880, col: 11, offset: 91013},
+																		pos: position{line: 2877, col: 11, offset: 91023},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 11, offset: 91013},
+																			pos:        position{line: 2877, col: 11, offset: 91023},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28275,31 +28330,31 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1520, col: 5, offset: 49336},
+													pos: position{line: 1517, col: 5, offset: 49325},
 													expr: &seqExpr{
-														pos: position{line: 1520, col: 7, offset: 49338},
+														pos: position{line: 1517, col: 7, offset: 49327},
 														exprs: []interface{}{
 															&actionExpr{
-																pos: position{line: 1672, col: 5, offset: 54242},
+																pos: position{line: 1669, col: 5, offset: 54231},
 																run: (*parser).callonExtraListElement604,
 																expr: &seqExpr{
-																	pos: position{line: 1672, col: 5, offset: 54242},
+																	pos: position{line: 1669, col: 5, offset: 54231},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1672, col: 5, offset: 54242},
+																			pos: position{line: 1669, col: 5, offset: 54231},
 																			expr: &seqExpr{
-																				pos: position{line: 2488, col: 31, offset: 80080},
+																				pos: position{line: 2485, col: 31, offset: 80069},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2488, col: 31, offset: 80080},
+																						pos:        position{line: 2485, col: 31, offset: 80069},
 																						val:        "//",
 																						ignoreCase: false,
 																						want:       "\"//\"",
 																					},
 																					&notExpr{
-																						pos: position{line: 2488, col: 36, offset: 80085},
+																						pos: position{line: 2485, col: 36, offset: 80074},
 																						expr: &litMatcher{
-																							pos:        position{line: 2488, col: 37, offset: 80086},
+																							pos:        position{line: 2485, col: 37, offset: 80075},
 																							val:        "//",
 																							ignoreCase: false,
 																							want:       "\"//\"",
@@ -28309,28 +28364,28 @@ var g = &grammar{
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 1673, col: 5, offset: 54274},
+																			pos: position{line: 1670, col: 5, offset: 54263},
 																			expr: &seqExpr{
-																				pos: position{line: 1673, col: 6, offset: 54275},
+																				pos: position{line: 1670, col: 6, offset: 54264},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1673, col: 6, offset: 54275},
+																						pos: position{line: 1670, col: 6, offset: 54264},
 																						expr: &actionExpr{
-																							pos: position{line: 1678, col: 5, offset: 54425},
+																							pos: position{line: 1675, col: 5, offset: 54414},
 																							run: (*parser).callonExtraListElement614,
 																							expr: &seqExpr{
-																								pos: position{line: 1678, col: 5, offset: 54425},
+																								pos: position{line: 1675, col: 5, offset: 54414},
 																								exprs: []interface{}{
 																									&labeledExpr{
-																										pos:   position{line: 1678, col: 5, offset: 54425},
+																										pos:   position{line: 1675, col: 5, offset: 54414},
 																										label: "separator",
 																										expr: &actionExpr{
-																											pos: position{line: 1678, col: 16, offset: 54436},
+																											pos: position{line: 1675, col: 16, offset: 54425},
 																											run: (*parser).callonExtraListElement617,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1678, col: 16, offset: 54436},
+																												pos: position{line: 1675, col: 16, offset: 54425},
 																												expr: &litMatcher{
-																													pos:        position{line: 1678, col: 17, offset: 54437},
+																													pos:        position{line: 1675, col: 17, offset: 54426},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
@@ -28339,7 +28394,7 @@ var g = &grammar{
 																										},
 																									},
 																									&andCodeExpr{
-																										pos: position{line: 1681, col: 5, offset: 54494},
+																										pos: position{line: 1678, col: 5, offset: 54483},
 																										run: (*parser).callonExtraListElement620,
 																									},
 																								},
@@ -28347,30 +28402,30 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1673, col: 35, offset: 54304},
+																						pos: position{line: 1670, col: 35, offset: 54293},
 																						expr: &choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91350},
+																							pos: position{line: 2895, col: 8, offset: 91360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91123},
+																									pos: position{line: 2882, col: 12, offset: 91133},
 																									run: (*parser).callonExtraListElement623,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91124},
+																										pos: position{line: 2882, col: 13, offset: 91134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91124},
+																												pos:        position{line: 2882, col: 13, offset: 91134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91131},
+																												pos:        position{line: 2882, col: 20, offset: 91141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91140},
+																												pos:        position{line: 2882, col: 29, offset: 91150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28379,16 +28434,16 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91300},
+																									pos: position{line: 2892, col: 8, offset: 91310},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91301,
+																										line: 2892, col: 9, offset: 91311,
 																									},
 																								},
 																							},
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1673, col: 40, offset: 54309,
+																						line: 1670, col: 40, offset: 54298,
 																					},
 																				},
 																			},
@@ -28397,21 +28452,21 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1678, col: 5, offset: 54425},
+																pos: position{line: 1675, col: 5, offset: 54414},
 																run: (*parser).callonExtraListElement631,
 																expr: &seqExpr{
-																	pos: position{line: 1678, col: 5, offset: 54425},
+																	pos: position{line: 1675, col: 5, offset: 54414},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1678, col: 5, offset: 54425},
+																			pos:   position{line: 1675, col: 5, offset: 54414},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1678, col: 16, offset: 54436},
+																				pos: position{line: 1675, col: 16, offset: 54425},
 																				run: (*parser).callonExtraListElement634,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1678, col: 16, offset: 54436},
+																					pos: position{line: 1675, col: 16, offset: 54425},
 																					expr: &litMatcher{
-																						pos:        position{line: 1678, col: 17, offset: 54437},
+																						pos:        position{line: 1675, col: 17, offset: 54426},
 																						val:        ":",
 																						ignoreCase: false,
 																						want:       "\":\"",
@@ -28420,7 +28475,7 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1681, col: 5, offset: 54494},
+																			pos: position{line: 1678, col: 5, offset: 54483},
 																			run: (*parser).callonExtraListElement637,
 																		},
 																	},
@@ -28430,7 +28485,7 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1521, col: 5, offset: 49394},
+													pos: position{line: 1518, col: 5, offset: 49383},
 													expr: &actionExpr{
 														pos: position{line: 724, col: 5, offset: 23111},
 														run: (*parser).callonExtraListElement639,
@@ -28440,7 +28495,7 @@ var g = &grammar{
 																&notExpr{
 																	pos: position{line: 724, col: 5, offset: 23111},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2766, col: 13, offset: 88047},
+																		pos:        position{line: 2763, col: 13, offset: 88036},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -28490,10 +28545,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 742, col: 8, offset: 23755},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 90952},
+																								pos: position{line: 2873, col: 10, offset: 90962},
 																								run: (*parser).callonExtraListElement654,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 90952},
+																									pos:        position{line: 2873, col: 10, offset: 90962},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28502,28 +28557,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91350},
+																							pos: position{line: 2895, col: 8, offset: 91360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91123},
+																									pos: position{line: 2882, col: 12, offset: 91133},
 																									run: (*parser).callonExtraListElement657,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91124},
+																										pos: position{line: 2882, col: 13, offset: 91134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91124},
+																												pos:        position{line: 2882, col: 13, offset: 91134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91131},
+																												pos:        position{line: 2882, col: 20, offset: 91141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91140},
+																												pos:        position{line: 2882, col: 29, offset: 91150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28532,9 +28587,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91300},
+																									pos: position{line: 2892, col: 8, offset: 91310},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91301,
+																										line: 2892, col: 9, offset: 91311,
 																									},
 																								},
 																							},
@@ -28579,10 +28634,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 749, col: 8, offset: 24003},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 90952},
+																								pos: position{line: 2873, col: 10, offset: 90962},
 																								run: (*parser).callonExtraListElement673,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 90952},
+																									pos:        position{line: 2873, col: 10, offset: 90962},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28591,28 +28646,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91350},
+																							pos: position{line: 2895, col: 8, offset: 91360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91123},
+																									pos: position{line: 2882, col: 12, offset: 91133},
 																									run: (*parser).callonExtraListElement676,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91124},
+																										pos: position{line: 2882, col: 13, offset: 91134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91124},
+																												pos:        position{line: 2882, col: 13, offset: 91134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91131},
+																												pos:        position{line: 2882, col: 20, offset: 91141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91140},
+																												pos:        position{line: 2882, col: 29, offset: 91150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28621,9 +28676,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91300},
+																									pos: position{line: 2892, col: 8, offset: 91310},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91301,
+																										line: 2892, col: 9, offset: 91311,
 																									},
 																								},
 																							},
@@ -28664,10 +28719,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 760, col: 52, offset: 24415},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 90952},
+																								pos: position{line: 2873, col: 10, offset: 90962},
 																								run: (*parser).callonExtraListElement691,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 90952},
+																									pos:        position{line: 2873, col: 10, offset: 90962},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28676,28 +28731,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91350},
+																							pos: position{line: 2895, col: 8, offset: 91360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91123},
+																									pos: position{line: 2882, col: 12, offset: 91133},
 																									run: (*parser).callonExtraListElement694,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91124},
+																										pos: position{line: 2882, col: 13, offset: 91134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91124},
+																												pos:        position{line: 2882, col: 13, offset: 91134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91131},
+																												pos:        position{line: 2882, col: 20, offset: 91141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91140},
+																												pos:        position{line: 2882, col: 29, offset: 91150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28706,9 +28761,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91300},
+																									pos: position{line: 2892, col: 8, offset: 91310},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91301,
+																										line: 2892, col: 9, offset: 91311,
 																									},
 																								},
 																							},
@@ -28753,10 +28808,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 756, col: 8, offset: 24249},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 90952},
+																								pos: position{line: 2873, col: 10, offset: 90962},
 																								run: (*parser).callonExtraListElement710,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 90952},
+																									pos:        position{line: 2873, col: 10, offset: 90962},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28765,28 +28820,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91350},
+																							pos: position{line: 2895, col: 8, offset: 91360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91123},
+																									pos: position{line: 2882, col: 12, offset: 91133},
 																									run: (*parser).callonExtraListElement713,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91124},
+																										pos: position{line: 2882, col: 13, offset: 91134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91124},
+																												pos:        position{line: 2882, col: 13, offset: 91134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91131},
+																												pos:        position{line: 2882, col: 20, offset: 91141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91140},
+																												pos:        position{line: 2882, col: 29, offset: 91150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28795,9 +28850,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91300},
+																									pos: position{line: 2892, col: 8, offset: 91310},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91301,
+																										line: 2892, col: 9, offset: 91311,
 																									},
 																								},
 																							},
@@ -28842,10 +28897,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 771, col: 8, offset: 24792},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 90952},
+																								pos: position{line: 2873, col: 10, offset: 90962},
 																								run: (*parser).callonExtraListElement729,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 90952},
+																									pos:        position{line: 2873, col: 10, offset: 90962},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28854,28 +28909,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91350},
+																							pos: position{line: 2895, col: 8, offset: 91360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91123},
+																									pos: position{line: 2882, col: 12, offset: 91133},
 																									run: (*parser).callonExtraListElement732,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91124},
+																										pos: position{line: 2882, col: 13, offset: 91134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91124},
+																												pos:        position{line: 2882, col: 13, offset: 91134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91131},
+																												pos:        position{line: 2882, col: 20, offset: 91141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91140},
+																												pos:        position{line: 2882, col: 29, offset: 91150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28884,9 +28939,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91300},
+																									pos: position{line: 2892, col: 8, offset: 91310},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91301,
+																										line: 2892, col: 9, offset: 91311,
 																									},
 																								},
 																							},
@@ -28931,10 +28986,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 785, col: 8, offset: 25268},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 90952},
+																								pos: position{line: 2873, col: 10, offset: 90962},
 																								run: (*parser).callonExtraListElement748,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 90952},
+																									pos:        position{line: 2873, col: 10, offset: 90962},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28943,28 +28998,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91350},
+																							pos: position{line: 2895, col: 8, offset: 91360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91123},
+																									pos: position{line: 2882, col: 12, offset: 91133},
 																									run: (*parser).callonExtraListElement751,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91124},
+																										pos: position{line: 2882, col: 13, offset: 91134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91124},
+																												pos:        position{line: 2882, col: 13, offset: 91134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91131},
+																												pos:        position{line: 2882, col: 20, offset: 91141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91140},
+																												pos:        position{line: 2882, col: 29, offset: 91150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28973,9 +29028,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91300},
+																									pos: position{line: 2892, col: 8, offset: 91310},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91301,
+																										line: 2892, col: 9, offset: 91311,
 																									},
 																								},
 																							},
@@ -29020,10 +29075,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 792, col: 8, offset: 25520},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 90952},
+																								pos: position{line: 2873, col: 10, offset: 90962},
 																								run: (*parser).callonExtraListElement767,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 90952},
+																									pos:        position{line: 2873, col: 10, offset: 90962},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29032,28 +29087,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91350},
+																							pos: position{line: 2895, col: 8, offset: 91360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91123},
+																									pos: position{line: 2882, col: 12, offset: 91133},
 																									run: (*parser).callonExtraListElement770,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91124},
+																										pos: position{line: 2882, col: 13, offset: 91134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91124},
+																												pos:        position{line: 2882, col: 13, offset: 91134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91131},
+																												pos:        position{line: 2882, col: 20, offset: 91141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91140},
+																												pos:        position{line: 2882, col: 29, offset: 91150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29062,9 +29117,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91300},
+																									pos: position{line: 2892, col: 8, offset: 91310},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91301,
+																										line: 2892, col: 9, offset: 91311,
 																									},
 																								},
 																							},
@@ -29109,10 +29164,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 799, col: 8, offset: 25770},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 90952},
+																								pos: position{line: 2873, col: 10, offset: 90962},
 																								run: (*parser).callonExtraListElement786,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 90952},
+																									pos:        position{line: 2873, col: 10, offset: 90962},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29121,28 +29176,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91350},
+																							pos: position{line: 2895, col: 8, offset: 91360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91123},
+																									pos: position{line: 2882, col: 12, offset: 91133},
 																									run: (*parser).callonExtraListElement789,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91124},
+																										pos: position{line: 2882, col: 13, offset: 91134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91124},
+																												pos:        position{line: 2882, col: 13, offset: 91134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91131},
+																												pos:        position{line: 2882, col: 20, offset: 91141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91140},
+																												pos:        position{line: 2882, col: 29, offset: 91150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29151,9 +29206,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91300},
+																									pos: position{line: 2892, col: 8, offset: 91310},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91301,
+																										line: 2892, col: 9, offset: 91311,
 																									},
 																								},
 																							},
@@ -29198,10 +29253,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 806, col: 8, offset: 26016},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 90952},
+																								pos: position{line: 2873, col: 10, offset: 90962},
 																								run: (*parser).callonExtraListElement805,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 90952},
+																									pos:        position{line: 2873, col: 10, offset: 90962},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29210,28 +29265,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91350},
+																							pos: position{line: 2895, col: 8, offset: 91360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91123},
+																									pos: position{line: 2882, col: 12, offset: 91133},
 																									run: (*parser).callonExtraListElement808,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91124},
+																										pos: position{line: 2882, col: 13, offset: 91134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91124},
+																												pos:        position{line: 2882, col: 13, offset: 91134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91131},
+																												pos:        position{line: 2882, col: 20, offset: 91141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91140},
+																												pos:        position{line: 2882, col: 29, offset: 91150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29240,9 +29295,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91300},
+																									pos: position{line: 2892, col: 8, offset: 91310},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91301,
+																										line: 2892, col: 9, offset: 91311,
 																									},
 																								},
 																							},
@@ -29258,15 +29313,15 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1522, col: 5, offset: 49414},
+													pos:   position{line: 1519, col: 5, offset: 49403},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2826, col: 14, offset: 89545},
+														pos: position{line: 2823, col: 14, offset: 89555},
 														run: (*parser).callonExtraListElement816,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2826, col: 14, offset: 89545},
+															pos: position{line: 2823, col: 14, offset: 89555},
 															expr: &charClassMatcher{
-																pos:        position{line: 2826, col: 14, offset: 89545},
+																pos:        position{line: 2823, col: 14, offset: 89555},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -29276,28 +29331,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2898, col: 8, offset: 91350},
+													pos: position{line: 2895, col: 8, offset: 91360},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91123},
+															pos: position{line: 2882, col: 12, offset: 91133},
 															run: (*parser).callonExtraListElement820,
 															expr: &choiceExpr{
-																pos: position{line: 2885, col: 13, offset: 91124},
+																pos: position{line: 2882, col: 13, offset: 91134},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 13, offset: 91124},
+																		pos:        position{line: 2882, col: 13, offset: 91134},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 20, offset: 91131},
+																		pos:        position{line: 2882, col: 20, offset: 91141},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 29, offset: 91140},
+																		pos:        position{line: 2882, col: 29, offset: 91150},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -29306,9 +29361,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2895, col: 8, offset: 91300},
+															pos: position{line: 2892, col: 8, offset: 91310},
 															expr: &anyMatcher{
-																line: 2895, col: 9, offset: 91301,
+																line: 2892, col: 9, offset: 91311,
 															},
 														},
 													},
@@ -29325,28 +29380,28 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuation",
-			pos:  position{line: 1538, col: 1, offset: 49805},
+			pos:  position{line: 1535, col: 1, offset: 49794},
 			expr: &actionExpr{
-				pos: position{line: 1539, col: 5, offset: 49830},
+				pos: position{line: 1536, col: 5, offset: 49819},
 				run: (*parser).callonListContinuation1,
 				expr: &seqExpr{
-					pos: position{line: 1539, col: 5, offset: 49830},
+					pos: position{line: 1536, col: 5, offset: 49819},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1539, col: 5, offset: 49830},
+							pos:   position{line: 1536, col: 5, offset: 49819},
 							label: "offset",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1539, col: 12, offset: 49837},
+								pos: position{line: 1536, col: 12, offset: 49826},
 								expr: &seqExpr{
-									pos: position{line: 1539, col: 13, offset: 49838},
+									pos: position{line: 1536, col: 13, offset: 49827},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 1539, col: 13, offset: 49838},
+											pos: position{line: 1536, col: 13, offset: 49827},
 											expr: &actionExpr{
-												pos: position{line: 2876, col: 10, offset: 90952},
+												pos: position{line: 2873, col: 10, offset: 90962},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2876, col: 10, offset: 90952},
+													pos:        position{line: 2873, col: 10, offset: 90962},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -29355,25 +29410,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2885, col: 12, offset: 91123},
+											pos: position{line: 2882, col: 12, offset: 91133},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2885, col: 13, offset: 91124},
+												pos: position{line: 2882, col: 13, offset: 91134},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2885, col: 13, offset: 91124},
+														pos:        position{line: 2882, col: 13, offset: 91134},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2885, col: 20, offset: 91131},
+														pos:        position{line: 2882, col: 20, offset: 91141},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2885, col: 29, offset: 91140},
+														pos:        position{line: 2882, col: 29, offset: 91150},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -29386,18 +29441,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1546, col: 27, offset: 50042},
+							pos:        position{line: 1543, col: 27, offset: 50031},
 							val:        "+",
 							ignoreCase: false,
 							want:       "\"+\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1546, col: 31, offset: 50046},
+							pos: position{line: 1543, col: 31, offset: 50035},
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 10, offset: 90952},
+								pos: position{line: 2873, col: 10, offset: 90962},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2876, col: 10, offset: 90952},
+									pos:        position{line: 2873, col: 10, offset: 90962},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -29406,25 +29461,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2885, col: 12, offset: 91123},
+							pos: position{line: 2882, col: 12, offset: 91133},
 							run: (*parser).callonListContinuation18,
 							expr: &choiceExpr{
-								pos: position{line: 2885, col: 13, offset: 91124},
+								pos: position{line: 2882, col: 13, offset: 91134},
 								alternatives: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2885, col: 13, offset: 91124},
+										pos:        position{line: 2882, col: 13, offset: 91134},
 										val:        "\n",
 										ignoreCase: false,
 										want:       "\"\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2885, col: 20, offset: 91131},
+										pos:        position{line: 2882, col: 20, offset: 91141},
 										val:        "\r\n",
 										ignoreCase: false,
 										want:       "\"\\r\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2885, col: 29, offset: 91140},
+										pos:        position{line: 2882, col: 29, offset: 91150},
 										val:        "\r",
 										ignoreCase: false,
 										want:       "\"\\r\"",
@@ -29433,12 +29488,12 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1541, col: 5, offset: 49887},
+							pos:   position{line: 1538, col: 5, offset: 49876},
 							label: "element",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1541, col: 13, offset: 49895},
+								pos: position{line: 1538, col: 13, offset: 49884},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1541, col: 13, offset: 49895},
+									pos:  position{line: 1538, col: 13, offset: 49884},
 									name: "ListContinuationElement",
 								},
 							},
@@ -29449,46 +29504,46 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuationElement",
-			pos:  position{line: 1548, col: 1, offset: 50062},
+			pos:  position{line: 1545, col: 1, offset: 50051},
 			expr: &actionExpr{
-				pos: position{line: 1549, col: 5, offset: 50133},
+				pos: position{line: 1546, col: 5, offset: 50122},
 				run: (*parser).callonListContinuationElement1,
 				expr: &seqExpr{
-					pos: position{line: 1549, col: 5, offset: 50133},
+					pos: position{line: 1546, col: 5, offset: 50122},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2893, col: 11, offset: 91286},
+							pos: position{line: 2890, col: 11, offset: 91296},
 							expr: &anyMatcher{
-								line: 2893, col: 13, offset: 91288,
+								line: 2890, col: 13, offset: 91298,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1550, col: 5, offset: 50161},
+							pos: position{line: 1547, col: 5, offset: 50150},
 							expr: &choiceExpr{
-								pos: position{line: 1487, col: 5, offset: 48119},
+								pos: position{line: 1484, col: 5, offset: 48108},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1580, col: 5, offset: 51053},
+										pos: position{line: 1577, col: 5, offset: 51042},
 										run: (*parser).callonListContinuationElement7,
 										expr: &seqExpr{
-											pos: position{line: 1580, col: 5, offset: 51053},
+											pos: position{line: 1577, col: 5, offset: 51042},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1580, col: 5, offset: 51053},
+													pos:   position{line: 1577, col: 5, offset: 51042},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1587, col: 5, offset: 51261},
+														pos: position{line: 1584, col: 5, offset: 51250},
 														run: (*parser).callonListContinuationElement10,
 														expr: &seqExpr{
-															pos: position{line: 1587, col: 5, offset: 51261},
+															pos: position{line: 1584, col: 5, offset: 51250},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1587, col: 5, offset: 51261},
+																	pos: position{line: 1584, col: 5, offset: 51250},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 90952},
+																		pos: position{line: 2873, col: 10, offset: 90962},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 90952},
+																			pos:        position{line: 2873, col: 10, offset: 90962},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29497,27 +29552,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1587, col: 12, offset: 51268},
+																	pos:   position{line: 1584, col: 12, offset: 51257},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1589, col: 9, offset: 51331},
+																		pos: position{line: 1586, col: 9, offset: 51320},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1589, col: 9, offset: 51331},
+																				pos: position{line: 1586, col: 9, offset: 51320},
 																				run: (*parser).callonListContinuationElement17,
 																				expr: &seqExpr{
-																					pos: position{line: 1589, col: 9, offset: 51331},
+																					pos: position{line: 1586, col: 9, offset: 51320},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1589, col: 9, offset: 51331},
+																							pos:   position{line: 1586, col: 9, offset: 51320},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1589, col: 16, offset: 51338},
+																								pos: position{line: 1586, col: 16, offset: 51327},
 																								run: (*parser).callonListContinuationElement20,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1589, col: 16, offset: 51338},
+																									pos: position{line: 1586, col: 16, offset: 51327},
 																									expr: &litMatcher{
-																										pos:        position{line: 1589, col: 17, offset: 51339},
+																										pos:        position{line: 1586, col: 17, offset: 51328},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -29526,22 +29581,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1593, col: 9, offset: 51439},
+																							pos: position{line: 1590, col: 9, offset: 51428},
 																							run: (*parser).callonListContinuationElement23,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1612, col: 11, offset: 52156},
+																				pos: position{line: 1609, col: 11, offset: 52145},
 																				run: (*parser).callonListContinuationElement24,
 																				expr: &seqExpr{
-																					pos: position{line: 1612, col: 11, offset: 52156},
+																					pos: position{line: 1609, col: 11, offset: 52145},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1612, col: 11, offset: 52156},
+																							pos: position{line: 1609, col: 11, offset: 52145},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1612, col: 12, offset: 52157},
+																								pos:        position{line: 1609, col: 12, offset: 52146},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -29549,7 +29604,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1612, col: 20, offset: 52165},
+																							pos:        position{line: 1609, col: 20, offset: 52154},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29558,20 +29613,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1614, col: 13, offset: 52282},
+																				pos: position{line: 1611, col: 13, offset: 52271},
 																				run: (*parser).callonListContinuationElement29,
 																				expr: &seqExpr{
-																					pos: position{line: 1614, col: 13, offset: 52282},
+																					pos: position{line: 1611, col: 13, offset: 52271},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1614, col: 14, offset: 52283},
+																							pos:        position{line: 1611, col: 14, offset: 52272},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1614, col: 21, offset: 52290},
+																							pos:        position{line: 1611, col: 21, offset: 52279},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29580,20 +29635,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1616, col: 13, offset: 52410},
+																				pos: position{line: 1613, col: 13, offset: 52399},
 																				run: (*parser).callonListContinuationElement33,
 																				expr: &seqExpr{
-																					pos: position{line: 1616, col: 13, offset: 52410},
+																					pos: position{line: 1613, col: 13, offset: 52399},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1616, col: 14, offset: 52411},
+																							pos:        position{line: 1613, col: 14, offset: 52400},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1616, col: 21, offset: 52418},
+																							pos:        position{line: 1613, col: 21, offset: 52407},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29602,15 +29657,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1618, col: 13, offset: 52538},
+																				pos: position{line: 1615, col: 13, offset: 52527},
 																				run: (*parser).callonListContinuationElement37,
 																				expr: &seqExpr{
-																					pos: position{line: 1618, col: 13, offset: 52538},
+																					pos: position{line: 1615, col: 13, offset: 52527},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1618, col: 13, offset: 52538},
+																							pos: position{line: 1615, col: 13, offset: 52527},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1618, col: 14, offset: 52539},
+																								pos:        position{line: 1615, col: 14, offset: 52528},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -29618,7 +29673,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1618, col: 26, offset: 52551},
+																							pos:        position{line: 1615, col: 26, offset: 52540},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -29627,15 +29682,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1620, col: 13, offset: 52671},
+																				pos: position{line: 1617, col: 13, offset: 52660},
 																				run: (*parser).callonListContinuationElement42,
 																				expr: &seqExpr{
-																					pos: position{line: 1620, col: 13, offset: 52671},
+																					pos: position{line: 1617, col: 13, offset: 52660},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1620, col: 13, offset: 52671},
+																							pos: position{line: 1617, col: 13, offset: 52660},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1620, col: 14, offset: 52672},
+																								pos:        position{line: 1617, col: 14, offset: 52661},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -29643,7 +29698,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1620, col: 26, offset: 52684},
+																							pos:        position{line: 1617, col: 26, offset: 52673},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -29655,12 +29710,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2880, col: 11, offset: 91013},
+																	pos: position{line: 2877, col: 11, offset: 91023},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2880, col: 11, offset: 91013},
+																		pos: position{line: 2877, col: 11, offset: 91023},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 11, offset: 91013},
+																			pos:        position{line: 2877, col: 11, offset: 91023},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29673,26 +29728,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1581, col: 5, offset: 51092},
+													pos:   position{line: 1578, col: 5, offset: 51081},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1528, col: 5, offset: 49559},
+														pos: position{line: 1525, col: 5, offset: 49548},
 														run: (*parser).callonListContinuationElement51,
 														expr: &seqExpr{
-															pos: position{line: 1528, col: 5, offset: 49559},
+															pos: position{line: 1525, col: 5, offset: 49548},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1528, col: 5, offset: 49559},
+																	pos:   position{line: 1525, col: 5, offset: 49548},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1528, col: 14, offset: 49568},
+																		pos: position{line: 1525, col: 14, offset: 49557},
 																		expr: &actionExpr{
-																			pos: position{line: 1528, col: 15, offset: 49569},
+																			pos: position{line: 1525, col: 15, offset: 49558},
 																			run: (*parser).callonListContinuationElement55,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1528, col: 15, offset: 49569},
+																				pos: position{line: 1525, col: 15, offset: 49558},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1528, col: 15, offset: 49569},
+																					pos:        position{line: 1525, col: 15, offset: 49558},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -29703,28 +29758,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91350},
+																	pos: position{line: 2895, col: 8, offset: 91360},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91123},
+																			pos: position{line: 2882, col: 12, offset: 91133},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91124},
+																				pos: position{line: 2882, col: 13, offset: 91134},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91124},
+																						pos:        position{line: 2882, col: 13, offset: 91134},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91131},
+																						pos:        position{line: 2882, col: 20, offset: 91141},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91140},
+																						pos:        position{line: 2882, col: 29, offset: 91150},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29733,9 +29788,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91300},
+																			pos: position{line: 2892, col: 8, offset: 91310},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91301,
+																				line: 2892, col: 9, offset: 91311,
 																			},
 																		},
 																	},
@@ -29748,27 +29803,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1630, col: 5, offset: 52950},
+										pos: position{line: 1627, col: 5, offset: 52939},
 										run: (*parser).callonListContinuationElement66,
 										expr: &seqExpr{
-											pos: position{line: 1630, col: 5, offset: 52950},
+											pos: position{line: 1627, col: 5, offset: 52939},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1630, col: 5, offset: 52950},
+													pos:   position{line: 1627, col: 5, offset: 52939},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1637, col: 5, offset: 53223},
+														pos: position{line: 1634, col: 5, offset: 53212},
 														run: (*parser).callonListContinuationElement69,
 														expr: &seqExpr{
-															pos: position{line: 1637, col: 5, offset: 53223},
+															pos: position{line: 1634, col: 5, offset: 53212},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1637, col: 5, offset: 53223},
+																	pos: position{line: 1634, col: 5, offset: 53212},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 90952},
+																		pos: position{line: 2873, col: 10, offset: 90962},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 90952},
+																			pos:        position{line: 2873, col: 10, offset: 90962},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29777,24 +29832,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1638, col: 5, offset: 53235},
+																	pos:   position{line: 1635, col: 5, offset: 53224},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1639, col: 9, offset: 53251},
+																		pos: position{line: 1636, col: 9, offset: 53240},
 																		run: (*parser).callonListContinuationElement75,
 																		expr: &choiceExpr{
-																			pos: position{line: 1639, col: 10, offset: 53252},
+																			pos: position{line: 1636, col: 10, offset: 53241},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1639, col: 11, offset: 53253},
+																					pos:        position{line: 1636, col: 11, offset: 53242},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1639, col: 18, offset: 53260},
+																					pos: position{line: 1636, col: 18, offset: 53249},
 																					expr: &litMatcher{
-																						pos:        position{line: 1639, col: 19, offset: 53261},
+																						pos:        position{line: 1636, col: 19, offset: 53250},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -29805,16 +29860,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1642, col: 7, offset: 53351},
+																	pos: position{line: 1639, col: 7, offset: 53340},
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2880, col: 11, offset: 91013},
+																	pos: position{line: 2877, col: 11, offset: 91023},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2880, col: 11, offset: 91013},
+																		pos: position{line: 2877, col: 11, offset: 91023},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 11, offset: 91013},
+																			pos:        position{line: 2877, col: 11, offset: 91023},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29827,56 +29882,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1631, col: 5, offset: 52991},
+													pos:   position{line: 1628, col: 5, offset: 52980},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1631, col: 16, offset: 53002},
+														pos: position{line: 1628, col: 16, offset: 52991},
 														expr: &actionExpr{
-															pos: position{line: 1652, col: 5, offset: 53616},
+															pos: position{line: 1649, col: 5, offset: 53605},
 															run: (*parser).callonListContinuationElement86,
 															expr: &seqExpr{
-																pos: position{line: 1652, col: 5, offset: 53616},
+																pos: position{line: 1649, col: 5, offset: 53605},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1652, col: 5, offset: 53616},
+																		pos: position{line: 1649, col: 5, offset: 53605},
 																		expr: &litMatcher{
-																			pos:        position{line: 1652, col: 6, offset: 53617},
+																			pos:        position{line: 1649, col: 6, offset: 53606},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1652, col: 10, offset: 53621},
+																		pos:   position{line: 1649, col: 10, offset: 53610},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1653, col: 7, offset: 53635},
+																			pos: position{line: 1650, col: 7, offset: 53624},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1653, col: 7, offset: 53635},
+																					pos: position{line: 1650, col: 7, offset: 53624},
 																					run: (*parser).callonListContinuationElement92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1653, col: 7, offset: 53635},
+																						pos:        position{line: 1650, col: 7, offset: 53624},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1654, col: 7, offset: 53680},
+																					pos: position{line: 1651, col: 7, offset: 53669},
 																					run: (*parser).callonListContinuationElement94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1654, col: 7, offset: 53680},
+																						pos:        position{line: 1651, col: 7, offset: 53669},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1655, col: 7, offset: 53723},
+																					pos: position{line: 1652, col: 7, offset: 53712},
 																					run: (*parser).callonListContinuationElement96,
 																					expr: &litMatcher{
-																						pos:        position{line: 1655, col: 7, offset: 53723},
+																						pos:        position{line: 1652, col: 7, offset: 53712},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -29886,12 +29941,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2880, col: 11, offset: 91013},
+																		pos: position{line: 2877, col: 11, offset: 91023},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2880, col: 11, offset: 91013},
+																			pos: position{line: 2877, col: 11, offset: 91023},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2880, col: 11, offset: 91013},
+																				pos:        position{line: 2877, col: 11, offset: 91023},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -29905,26 +29960,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1632, col: 5, offset: 53041},
+													pos:   position{line: 1629, col: 5, offset: 53030},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1528, col: 5, offset: 49559},
+														pos: position{line: 1525, col: 5, offset: 49548},
 														run: (*parser).callonListContinuationElement102,
 														expr: &seqExpr{
-															pos: position{line: 1528, col: 5, offset: 49559},
+															pos: position{line: 1525, col: 5, offset: 49548},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1528, col: 5, offset: 49559},
+																	pos:   position{line: 1525, col: 5, offset: 49548},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1528, col: 14, offset: 49568},
+																		pos: position{line: 1525, col: 14, offset: 49557},
 																		expr: &actionExpr{
-																			pos: position{line: 1528, col: 15, offset: 49569},
+																			pos: position{line: 1525, col: 15, offset: 49558},
 																			run: (*parser).callonListContinuationElement106,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1528, col: 15, offset: 49569},
+																				pos: position{line: 1525, col: 15, offset: 49558},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1528, col: 15, offset: 49569},
+																					pos:        position{line: 1525, col: 15, offset: 49558},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -29935,28 +29990,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91350},
+																	pos: position{line: 2895, col: 8, offset: 91360},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91123},
+																			pos: position{line: 2882, col: 12, offset: 91133},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91124},
+																				pos: position{line: 2882, col: 13, offset: 91134},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91124},
+																						pos:        position{line: 2882, col: 13, offset: 91134},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91131},
+																						pos:        position{line: 2882, col: 20, offset: 91141},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91140},
+																						pos:        position{line: 2882, col: 29, offset: 91150},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29965,9 +30020,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91300},
+																			pos: position{line: 2892, col: 8, offset: 91310},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91301,
+																				line: 2892, col: 9, offset: 91311,
 																			},
 																		},
 																	},
@@ -29980,36 +30035,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1721, col: 5, offset: 55595},
+										pos: position{line: 1718, col: 5, offset: 55584},
 										run: (*parser).callonListContinuationElement117,
 										expr: &seqExpr{
-											pos: position{line: 1721, col: 5, offset: 55595},
+											pos: position{line: 1718, col: 5, offset: 55584},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1721, col: 5, offset: 55595},
+													pos:   position{line: 1718, col: 5, offset: 55584},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1727, col: 5, offset: 55792},
+														pos: position{line: 1724, col: 5, offset: 55781},
 														run: (*parser).callonListContinuationElement120,
 														expr: &seqExpr{
-															pos: position{line: 1727, col: 5, offset: 55792},
+															pos: position{line: 1724, col: 5, offset: 55781},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1727, col: 5, offset: 55792},
+																	pos:        position{line: 1724, col: 5, offset: 55781},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1727, col: 9, offset: 55796},
+																	pos:   position{line: 1724, col: 9, offset: 55785},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1727, col: 14, offset: 55801},
+																		pos: position{line: 1724, col: 14, offset: 55790},
 																		run: (*parser).callonListContinuationElement124,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1727, col: 14, offset: 55801},
+																			pos: position{line: 1724, col: 14, offset: 55790},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1727, col: 14, offset: 55801},
+																				pos:        position{line: 1724, col: 14, offset: 55790},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -30019,18 +30074,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1727, col: 62, offset: 55849},
+																	pos:        position{line: 1724, col: 62, offset: 55838},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2880, col: 11, offset: 91013},
+																	pos: position{line: 2877, col: 11, offset: 91023},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2880, col: 11, offset: 91013},
+																		pos: position{line: 2877, col: 11, offset: 91023},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 11, offset: 91013},
+																			pos:        position{line: 2877, col: 11, offset: 91023},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30043,26 +30098,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1722, col: 5, offset: 55631},
+													pos:   position{line: 1719, col: 5, offset: 55620},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1528, col: 5, offset: 49559},
+														pos: position{line: 1525, col: 5, offset: 49548},
 														run: (*parser).callonListContinuationElement132,
 														expr: &seqExpr{
-															pos: position{line: 1528, col: 5, offset: 49559},
+															pos: position{line: 1525, col: 5, offset: 49548},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1528, col: 5, offset: 49559},
+																	pos:   position{line: 1525, col: 5, offset: 49548},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1528, col: 14, offset: 49568},
+																		pos: position{line: 1525, col: 14, offset: 49557},
 																		expr: &actionExpr{
-																			pos: position{line: 1528, col: 15, offset: 49569},
+																			pos: position{line: 1525, col: 15, offset: 49558},
 																			run: (*parser).callonListContinuationElement136,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1528, col: 15, offset: 49569},
+																				pos: position{line: 1525, col: 15, offset: 49558},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1528, col: 15, offset: 49569},
+																					pos:        position{line: 1525, col: 15, offset: 49558},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30073,28 +30128,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91350},
+																	pos: position{line: 2895, col: 8, offset: 91360},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91123},
+																			pos: position{line: 2882, col: 12, offset: 91133},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91124},
+																				pos: position{line: 2882, col: 13, offset: 91134},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91124},
+																						pos:        position{line: 2882, col: 13, offset: 91134},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91131},
+																						pos:        position{line: 2882, col: 20, offset: 91141},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91140},
+																						pos:        position{line: 2882, col: 29, offset: 91150},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30103,9 +30158,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91300},
+																			pos: position{line: 2892, col: 8, offset: 91310},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91301,
+																				line: 2892, col: 9, offset: 91311,
 																			},
 																		},
 																	},
@@ -30118,35 +30173,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1664, col: 5, offset: 53916},
+										pos: position{line: 1661, col: 5, offset: 53905},
 										run: (*parser).callonListContinuationElement147,
 										expr: &seqExpr{
-											pos: position{line: 1664, col: 5, offset: 53916},
+											pos: position{line: 1661, col: 5, offset: 53905},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1664, col: 5, offset: 53916},
+													pos:   position{line: 1661, col: 5, offset: 53905},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1672, col: 5, offset: 54242},
+														pos: position{line: 1669, col: 5, offset: 54231},
 														run: (*parser).callonListContinuationElement150,
 														expr: &seqExpr{
-															pos: position{line: 1672, col: 5, offset: 54242},
+															pos: position{line: 1669, col: 5, offset: 54231},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1672, col: 5, offset: 54242},
+																	pos: position{line: 1669, col: 5, offset: 54231},
 																	expr: &seqExpr{
-																		pos: position{line: 2488, col: 31, offset: 80080},
+																		pos: position{line: 2485, col: 31, offset: 80069},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2488, col: 31, offset: 80080},
+																				pos:        position{line: 2485, col: 31, offset: 80069},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2488, col: 36, offset: 80085},
+																				pos: position{line: 2485, col: 36, offset: 80074},
 																				expr: &litMatcher{
-																					pos:        position{line: 2488, col: 37, offset: 80086},
+																					pos:        position{line: 2485, col: 37, offset: 80075},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
@@ -30156,28 +30211,28 @@ var g = &grammar{
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 1673, col: 5, offset: 54274},
+																	pos: position{line: 1670, col: 5, offset: 54263},
 																	expr: &seqExpr{
-																		pos: position{line: 1673, col: 6, offset: 54275},
+																		pos: position{line: 1670, col: 6, offset: 54264},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1673, col: 6, offset: 54275},
+																				pos: position{line: 1670, col: 6, offset: 54264},
 																				expr: &actionExpr{
-																					pos: position{line: 1678, col: 5, offset: 54425},
+																					pos: position{line: 1675, col: 5, offset: 54414},
 																					run: (*parser).callonListContinuationElement160,
 																					expr: &seqExpr{
-																						pos: position{line: 1678, col: 5, offset: 54425},
+																						pos: position{line: 1675, col: 5, offset: 54414},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1678, col: 5, offset: 54425},
+																								pos:   position{line: 1675, col: 5, offset: 54414},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1678, col: 16, offset: 54436},
+																									pos: position{line: 1675, col: 16, offset: 54425},
 																									run: (*parser).callonListContinuationElement163,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1678, col: 16, offset: 54436},
+																										pos: position{line: 1675, col: 16, offset: 54425},
 																										expr: &litMatcher{
-																											pos:        position{line: 1678, col: 17, offset: 54437},
+																											pos:        position{line: 1675, col: 17, offset: 54426},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -30186,7 +30241,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1681, col: 5, offset: 54494},
+																								pos: position{line: 1678, col: 5, offset: 54483},
 																								run: (*parser).callonListContinuationElement166,
 																							},
 																						},
@@ -30194,30 +30249,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1673, col: 35, offset: 54304},
+																				pos: position{line: 1670, col: 35, offset: 54293},
 																				expr: &choiceExpr{
-																					pos: position{line: 2898, col: 8, offset: 91350},
+																					pos: position{line: 2895, col: 8, offset: 91360},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2885, col: 12, offset: 91123},
+																							pos: position{line: 2882, col: 12, offset: 91133},
 																							run: (*parser).callonListContinuationElement169,
 																							expr: &choiceExpr{
-																								pos: position{line: 2885, col: 13, offset: 91124},
+																								pos: position{line: 2882, col: 13, offset: 91134},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 13, offset: 91124},
+																										pos:        position{line: 2882, col: 13, offset: 91134},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 20, offset: 91131},
+																										pos:        position{line: 2882, col: 20, offset: 91141},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 29, offset: 91140},
+																										pos:        position{line: 2882, col: 29, offset: 91150},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -30226,16 +30281,16 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2895, col: 8, offset: 91300},
+																							pos: position{line: 2892, col: 8, offset: 91310},
 																							expr: &anyMatcher{
-																								line: 2895, col: 9, offset: 91301,
+																								line: 2892, col: 9, offset: 91311,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1673, col: 40, offset: 54309,
+																				line: 1670, col: 40, offset: 54298,
 																			},
 																		},
 																	},
@@ -30245,24 +30300,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1665, col: 5, offset: 53951},
+													pos:   position{line: 1662, col: 5, offset: 53940},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1678, col: 5, offset: 54425},
+														pos: position{line: 1675, col: 5, offset: 54414},
 														run: (*parser).callonListContinuationElement178,
 														expr: &seqExpr{
-															pos: position{line: 1678, col: 5, offset: 54425},
+															pos: position{line: 1675, col: 5, offset: 54414},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1678, col: 5, offset: 54425},
+																	pos:   position{line: 1675, col: 5, offset: 54414},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1678, col: 16, offset: 54436},
+																		pos: position{line: 1675, col: 16, offset: 54425},
 																		run: (*parser).callonListContinuationElement181,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1678, col: 16, offset: 54436},
+																			pos: position{line: 1675, col: 16, offset: 54425},
 																			expr: &litMatcher{
-																				pos:        position{line: 1678, col: 17, offset: 54437},
+																				pos:        position{line: 1675, col: 17, offset: 54426},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -30271,7 +30326,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1681, col: 5, offset: 54494},
+																	pos: position{line: 1678, col: 5, offset: 54483},
 																	run: (*parser).callonListContinuationElement184,
 																},
 															},
@@ -30279,24 +30334,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1666, col: 5, offset: 53996},
+													pos:   position{line: 1663, col: 5, offset: 53985},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1689, col: 5, offset: 54743},
+														pos: position{line: 1686, col: 5, offset: 54732},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1691, col: 9, offset: 54809},
+																pos: position{line: 1688, col: 9, offset: 54798},
 																run: (*parser).callonListContinuationElement187,
 																expr: &seqExpr{
-																	pos: position{line: 1691, col: 9, offset: 54809},
+																	pos: position{line: 1688, col: 9, offset: 54798},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1691, col: 9, offset: 54809},
+																			pos: position{line: 1688, col: 9, offset: 54798},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 90952},
+																				pos: position{line: 2873, col: 10, offset: 90962},
 																				run: (*parser).callonListContinuationElement190,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 90952},
+																					pos:        position{line: 2873, col: 10, offset: 90962},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30305,28 +30360,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91350},
+																			pos: position{line: 2895, col: 8, offset: 91360},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91123},
+																					pos: position{line: 2882, col: 12, offset: 91133},
 																					run: (*parser).callonListContinuationElement193,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91124},
+																						pos: position{line: 2882, col: 13, offset: 91134},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91124},
+																								pos:        position{line: 2882, col: 13, offset: 91134},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91131},
+																								pos:        position{line: 2882, col: 20, offset: 91141},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91140},
+																								pos:        position{line: 2882, col: 29, offset: 91150},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30335,15 +30390,15 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91300},
+																					pos: position{line: 2892, col: 8, offset: 91310},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91301,
+																						line: 2892, col: 9, offset: 91311,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1692, col: 9, offset: 54828},
+																			pos: position{line: 1689, col: 9, offset: 54817},
 																			expr: &actionExpr{
 																				pos: position{line: 677, col: 14, offset: 21558},
 																				run: (*parser).callonListContinuationElement201,
@@ -30351,18 +30406,18 @@ var g = &grammar{
 																					pos: position{line: 677, col: 14, offset: 21558},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2893, col: 11, offset: 91286},
+																							pos: position{line: 2890, col: 11, offset: 91296},
 																							expr: &anyMatcher{
-																								line: 2893, col: 13, offset: 91288,
+																								line: 2890, col: 13, offset: 91298,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 677, col: 21, offset: 21565},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 90952},
+																								pos: position{line: 2873, col: 10, offset: 90962},
 																								run: (*parser).callonListContinuationElement206,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 90952},
+																									pos:        position{line: 2873, col: 10, offset: 90962},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30371,28 +30426,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91350},
+																							pos: position{line: 2895, col: 8, offset: 91360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91123},
+																									pos: position{line: 2882, col: 12, offset: 91133},
 																									run: (*parser).callonListContinuationElement209,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91124},
+																										pos: position{line: 2882, col: 13, offset: 91134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91124},
+																												pos:        position{line: 2882, col: 13, offset: 91134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91131},
+																												pos:        position{line: 2882, col: 20, offset: 91141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91140},
+																												pos:        position{line: 2882, col: 29, offset: 91150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30401,9 +30456,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91300},
+																									pos: position{line: 2892, col: 8, offset: 91310},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91301,
+																										line: 2892, col: 9, offset: 91311,
 																									},
 																								},
 																							},
@@ -30416,18 +30471,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1698, col: 9, offset: 54957},
+																pos: position{line: 1695, col: 9, offset: 54946},
 																run: (*parser).callonListContinuationElement216,
 																expr: &seqExpr{
-																	pos: position{line: 1698, col: 9, offset: 54957},
+																	pos: position{line: 1695, col: 9, offset: 54946},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2880, col: 11, offset: 91013},
+																			pos: position{line: 2877, col: 11, offset: 91023},
 																			run: (*parser).callonListContinuationElement218,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2880, col: 11, offset: 91013},
+																				pos: position{line: 2877, col: 11, offset: 91023},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2880, col: 11, offset: 91013},
+																					pos:        position{line: 2877, col: 11, offset: 91023},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30436,15 +30491,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1699, col: 9, offset: 55030},
+																			pos:   position{line: 1696, col: 9, offset: 55019},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1699, col: 18, offset: 55039},
+																				pos: position{line: 1696, col: 18, offset: 55028},
 																				run: (*parser).callonListContinuationElement222,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1699, col: 18, offset: 55039},
+																					pos: position{line: 1696, col: 18, offset: 55028},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1699, col: 18, offset: 55039},
+																						pos:        position{line: 1696, col: 18, offset: 55028},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -30454,28 +30509,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91350},
+																			pos: position{line: 2895, col: 8, offset: 91360},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91123},
+																					pos: position{line: 2882, col: 12, offset: 91133},
 																					run: (*parser).callonListContinuationElement226,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91124},
+																						pos: position{line: 2882, col: 13, offset: 91134},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91124},
+																								pos:        position{line: 2882, col: 13, offset: 91134},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91131},
+																								pos:        position{line: 2882, col: 20, offset: 91141},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91140},
+																								pos:        position{line: 2882, col: 29, offset: 91150},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30484,9 +30539,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91300},
+																					pos: position{line: 2892, col: 8, offset: 91310},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91301,
+																						line: 2892, col: 9, offset: 91311,
 																					},
 																				},
 																			},
@@ -30504,21 +30559,21 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1551, col: 5, offset: 50178},
+							pos:   position{line: 1548, col: 5, offset: 50167},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1551, col: 16, offset: 50189},
+								pos: position{line: 1548, col: 16, offset: 50178},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1551, col: 17, offset: 50190},
+									pos:  position{line: 1548, col: 17, offset: 50179},
 									name: "BlockAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1552, col: 5, offset: 50212},
+							pos:   position{line: 1549, col: 5, offset: 50201},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1553, col: 9, offset: 50230},
+								pos: position{line: 1550, col: 9, offset: 50219},
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 677, col: 14, offset: 21558},
@@ -30527,18 +30582,18 @@ var g = &grammar{
 											pos: position{line: 677, col: 14, offset: 21558},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2893, col: 11, offset: 91286},
+													pos: position{line: 2890, col: 11, offset: 91296},
 													expr: &anyMatcher{
-														line: 2893, col: 13, offset: 91288,
+														line: 2890, col: 13, offset: 91298,
 													},
 												},
 												&zeroOrMoreExpr{
 													pos: position{line: 677, col: 21, offset: 21565},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 90952},
+														pos: position{line: 2873, col: 10, offset: 90962},
 														run: (*parser).callonListContinuationElement243,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 90952},
+															pos:        position{line: 2873, col: 10, offset: 90962},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30547,28 +30602,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2898, col: 8, offset: 91350},
+													pos: position{line: 2895, col: 8, offset: 91360},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91123},
+															pos: position{line: 2882, col: 12, offset: 91133},
 															run: (*parser).callonListContinuationElement246,
 															expr: &choiceExpr{
-																pos: position{line: 2885, col: 13, offset: 91124},
+																pos: position{line: 2882, col: 13, offset: 91134},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 13, offset: 91124},
+																		pos:        position{line: 2882, col: 13, offset: 91134},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 20, offset: 91131},
+																		pos:        position{line: 2882, col: 20, offset: 91141},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 29, offset: 91140},
+																		pos:        position{line: 2882, col: 29, offset: 91150},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30577,9 +30632,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2895, col: 8, offset: 91300},
+															pos: position{line: 2892, col: 8, offset: 91310},
 															expr: &anyMatcher{
-																line: 2895, col: 9, offset: 91301,
+																line: 2892, col: 9, offset: 91311,
 															},
 														},
 													},
@@ -30588,7 +30643,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1554, col: 11, offset: 50250},
+										pos:  position{line: 1551, col: 11, offset: 50239},
 										name: "AttributeDeclaration",
 									},
 									&actionExpr{
@@ -30644,10 +30699,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 360, col: 49, offset: 10941},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 90952},
+														pos: position{line: 2873, col: 10, offset: 90962},
 														run: (*parser).callonListContinuationElement265,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 90952},
+															pos:        position{line: 2873, col: 10, offset: 90962},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30656,28 +30711,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2898, col: 8, offset: 91350},
+													pos: position{line: 2895, col: 8, offset: 91360},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91123},
+															pos: position{line: 2882, col: 12, offset: 91133},
 															run: (*parser).callonListContinuationElement268,
 															expr: &choiceExpr{
-																pos: position{line: 2885, col: 13, offset: 91124},
+																pos: position{line: 2882, col: 13, offset: 91134},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 13, offset: 91124},
+																		pos:        position{line: 2882, col: 13, offset: 91134},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 20, offset: 91131},
+																		pos:        position{line: 2882, col: 20, offset: 91141},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 29, offset: 91140},
+																		pos:        position{line: 2882, col: 29, offset: 91150},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30686,9 +30741,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2895, col: 8, offset: 91300},
+															pos: position{line: 2892, col: 8, offset: 91310},
 															expr: &anyMatcher{
-																line: 2895, col: 9, offset: 91301,
+																line: 2892, col: 9, offset: 91311,
 															},
 														},
 													},
@@ -30749,10 +30804,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 39, offset: 11062},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 90952},
+														pos: position{line: 2873, col: 10, offset: 90962},
 														run: (*parser).callonListContinuationElement286,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 90952},
+															pos:        position{line: 2873, col: 10, offset: 90962},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30761,28 +30816,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2898, col: 8, offset: 91350},
+													pos: position{line: 2895, col: 8, offset: 91360},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91123},
+															pos: position{line: 2882, col: 12, offset: 91133},
 															run: (*parser).callonListContinuationElement289,
 															expr: &choiceExpr{
-																pos: position{line: 2885, col: 13, offset: 91124},
+																pos: position{line: 2882, col: 13, offset: 91134},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 13, offset: 91124},
+																		pos:        position{line: 2882, col: 13, offset: 91134},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 20, offset: 91131},
+																		pos:        position{line: 2882, col: 20, offset: 91141},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 29, offset: 91140},
+																		pos:        position{line: 2882, col: 29, offset: 91150},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30791,9 +30846,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2895, col: 8, offset: 91300},
+															pos: position{line: 2892, col: 8, offset: 91310},
 															expr: &anyMatcher{
-																line: 2895, col: 9, offset: 91301,
+																line: 2892, col: 9, offset: 91311,
 															},
 														},
 													},
@@ -30844,10 +30899,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 742, col: 8, offset: 23755},
 																expr: &actionExpr{
-																	pos: position{line: 2876, col: 10, offset: 90952},
+																	pos: position{line: 2873, col: 10, offset: 90962},
 																	run: (*parser).callonListContinuationElement307,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2876, col: 10, offset: 90952},
+																		pos:        position{line: 2873, col: 10, offset: 90962},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -30856,28 +30911,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2898, col: 8, offset: 91350},
+																pos: position{line: 2895, col: 8, offset: 91360},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2885, col: 12, offset: 91123},
+																		pos: position{line: 2882, col: 12, offset: 91133},
 																		run: (*parser).callonListContinuationElement310,
 																		expr: &choiceExpr{
-																			pos: position{line: 2885, col: 13, offset: 91124},
+																			pos: position{line: 2882, col: 13, offset: 91134},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 13, offset: 91124},
+																					pos:        position{line: 2882, col: 13, offset: 91134},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 20, offset: 91131},
+																					pos:        position{line: 2882, col: 20, offset: 91141},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 29, offset: 91140},
+																					pos:        position{line: 2882, col: 29, offset: 91150},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -30886,9 +30941,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91300},
+																		pos: position{line: 2892, col: 8, offset: 91310},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91301,
+																			line: 2892, col: 9, offset: 91311,
 																		},
 																	},
 																},
@@ -30949,10 +31004,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 742, col: 8, offset: 23755},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 90952},
+																									pos: position{line: 2873, col: 10, offset: 90962},
 																									run: (*parser).callonListContinuationElement332,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 90952},
+																										pos:        position{line: 2873, col: 10, offset: 90962},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -30961,28 +31016,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2898, col: 8, offset: 91350},
+																								pos: position{line: 2895, col: 8, offset: 91360},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2885, col: 12, offset: 91123},
+																										pos: position{line: 2882, col: 12, offset: 91133},
 																										run: (*parser).callonListContinuationElement335,
 																										expr: &choiceExpr{
-																											pos: position{line: 2885, col: 13, offset: 91124},
+																											pos: position{line: 2882, col: 13, offset: 91134},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 13, offset: 91124},
+																													pos:        position{line: 2882, col: 13, offset: 91134},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 20, offset: 91131},
+																													pos:        position{line: 2882, col: 20, offset: 91141},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 29, offset: 91140},
+																													pos:        position{line: 2882, col: 29, offset: 91150},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -30991,9 +31046,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2895, col: 8, offset: 91300},
+																										pos: position{line: 2892, col: 8, offset: 91310},
 																										expr: &anyMatcher{
-																											line: 2895, col: 9, offset: 91301,
+																											line: 2892, col: 9, offset: 91311,
 																										},
 																									},
 																								},
@@ -31002,9 +31057,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91300},
+																					pos: position{line: 2892, col: 8, offset: 91310},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91301,
+																						line: 2892, col: 9, offset: 91311,
 																					},
 																				},
 																			},
@@ -31020,21 +31075,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26162},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2893, col: 11, offset: 91286},
+																						pos: position{line: 2890, col: 11, offset: 91296},
 																						expr: &anyMatcher{
-																							line: 2893, col: 13, offset: 91288,
+																							line: 2890, col: 13, offset: 91298,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26237},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2822, col: 13, offset: 89478},
+																							pos: position{line: 2819, col: 13, offset: 89488},
 																							run: (*parser).callonListContinuationElement350,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2822, col: 13, offset: 89478},
+																								pos: position{line: 2819, col: 13, offset: 89488},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2822, col: 13, offset: 89478},
+																									pos:        position{line: 2819, col: 13, offset: 89488},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31044,28 +31099,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91350},
+																						pos: position{line: 2895, col: 8, offset: 91360},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91123},
+																								pos: position{line: 2882, col: 12, offset: 91133},
 																								run: (*parser).callonListContinuationElement354,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91124},
+																									pos: position{line: 2882, col: 13, offset: 91134},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91124},
+																											pos:        position{line: 2882, col: 13, offset: 91134},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91131},
+																											pos:        position{line: 2882, col: 20, offset: 91141},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91140},
+																											pos:        position{line: 2882, col: 29, offset: 91150},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31074,9 +31129,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91300},
+																								pos: position{line: 2892, col: 8, offset: 91310},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91301,
+																									line: 2892, col: 9, offset: 91311,
 																								},
 																							},
 																						},
@@ -31132,10 +31187,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 742, col: 8, offset: 23755},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 90952},
+																				pos: position{line: 2873, col: 10, offset: 90962},
 																				run: (*parser).callonListContinuationElement372,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 90952},
+																					pos:        position{line: 2873, col: 10, offset: 90962},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -31144,28 +31199,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91350},
+																			pos: position{line: 2895, col: 8, offset: 91360},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91123},
+																					pos: position{line: 2882, col: 12, offset: 91133},
 																					run: (*parser).callonListContinuationElement375,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91124},
+																						pos: position{line: 2882, col: 13, offset: 91134},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91124},
+																								pos:        position{line: 2882, col: 13, offset: 91134},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91131},
+																								pos:        position{line: 2882, col: 20, offset: 91141},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91140},
+																								pos:        position{line: 2882, col: 29, offset: 91150},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31174,9 +31229,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91300},
+																					pos: position{line: 2892, col: 8, offset: 91310},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91301,
+																						line: 2892, col: 9, offset: 91311,
 																					},
 																				},
 																			},
@@ -31185,9 +31240,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91300},
+																pos: position{line: 2892, col: 8, offset: 91310},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91301,
+																	line: 2892, col: 9, offset: 91311,
 																},
 															},
 														},
@@ -31242,10 +31297,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 749, col: 8, offset: 24003},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 90952},
+																		pos: position{line: 2873, col: 10, offset: 90962},
 																		run: (*parser).callonListContinuationElement396,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 90952},
+																			pos:        position{line: 2873, col: 10, offset: 90962},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31254,28 +31309,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91350},
+																	pos: position{line: 2895, col: 8, offset: 91360},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91123},
+																			pos: position{line: 2882, col: 12, offset: 91133},
 																			run: (*parser).callonListContinuationElement399,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91124},
+																				pos: position{line: 2882, col: 13, offset: 91134},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91124},
+																						pos:        position{line: 2882, col: 13, offset: 91134},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91131},
+																						pos:        position{line: 2882, col: 20, offset: 91141},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91140},
+																						pos:        position{line: 2882, col: 29, offset: 91150},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31284,9 +31339,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91300},
+																			pos: position{line: 2892, col: 8, offset: 91310},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91301,
+																				line: 2892, col: 9, offset: 91311,
 																			},
 																		},
 																	},
@@ -31358,10 +31413,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 749, col: 8, offset: 24003},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 90952},
+																												pos: position{line: 2873, col: 10, offset: 90962},
 																												run: (*parser).callonListContinuationElement424,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 90952},
+																													pos:        position{line: 2873, col: 10, offset: 90962},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31370,28 +31425,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91350},
+																											pos: position{line: 2895, col: 8, offset: 91360},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91123},
+																													pos: position{line: 2882, col: 12, offset: 91133},
 																													run: (*parser).callonListContinuationElement427,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91124},
+																														pos: position{line: 2882, col: 13, offset: 91134},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91124},
+																																pos:        position{line: 2882, col: 13, offset: 91134},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91131},
+																																pos:        position{line: 2882, col: 20, offset: 91141},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91140},
+																																pos:        position{line: 2882, col: 29, offset: 91150},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31400,9 +31455,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91300},
+																													pos: position{line: 2892, col: 8, offset: 91310},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91301,
+																														line: 2892, col: 9, offset: 91311,
 																													},
 																												},
 																											},
@@ -31418,9 +31473,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91300},
+																					pos: position{line: 2892, col: 8, offset: 91310},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91301,
+																						line: 2892, col: 9, offset: 91311,
 																					},
 																				},
 																			},
@@ -31436,21 +31491,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26162},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2893, col: 11, offset: 91286},
+																						pos: position{line: 2890, col: 11, offset: 91296},
 																						expr: &anyMatcher{
-																							line: 2893, col: 13, offset: 91288,
+																							line: 2890, col: 13, offset: 91298,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26237},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2822, col: 13, offset: 89478},
+																							pos: position{line: 2819, col: 13, offset: 89488},
 																							run: (*parser).callonListContinuationElement443,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2822, col: 13, offset: 89478},
+																								pos: position{line: 2819, col: 13, offset: 89488},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2822, col: 13, offset: 89478},
+																									pos:        position{line: 2819, col: 13, offset: 89488},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31460,28 +31515,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91350},
+																						pos: position{line: 2895, col: 8, offset: 91360},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91123},
+																								pos: position{line: 2882, col: 12, offset: 91133},
 																								run: (*parser).callonListContinuationElement447,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91124},
+																									pos: position{line: 2882, col: 13, offset: 91134},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91124},
+																											pos:        position{line: 2882, col: 13, offset: 91134},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91131},
+																											pos:        position{line: 2882, col: 20, offset: 91141},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91140},
+																											pos:        position{line: 2882, col: 29, offset: 91150},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31490,9 +31545,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91300},
+																								pos: position{line: 2892, col: 8, offset: 91310},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91301,
+																									line: 2892, col: 9, offset: 91311,
 																								},
 																							},
 																						},
@@ -31557,10 +31612,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 749, col: 8, offset: 24003},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 90952},
+																								pos: position{line: 2873, col: 10, offset: 90962},
 																								run: (*parser).callonListContinuationElement468,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 90952},
+																									pos:        position{line: 2873, col: 10, offset: 90962},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -31569,28 +31624,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91350},
+																							pos: position{line: 2895, col: 8, offset: 91360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91123},
+																									pos: position{line: 2882, col: 12, offset: 91133},
 																									run: (*parser).callonListContinuationElement471,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91124},
+																										pos: position{line: 2882, col: 13, offset: 91134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91124},
+																												pos:        position{line: 2882, col: 13, offset: 91134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91131},
+																												pos:        position{line: 2882, col: 20, offset: 91141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91140},
+																												pos:        position{line: 2882, col: 29, offset: 91150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -31599,9 +31654,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91300},
+																									pos: position{line: 2892, col: 8, offset: 91310},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91301,
+																										line: 2892, col: 9, offset: 91311,
 																									},
 																								},
 																							},
@@ -31617,9 +31672,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2895, col: 8, offset: 91300},
+																	pos: position{line: 2892, col: 8, offset: 91310},
 																	expr: &anyMatcher{
-																		line: 2895, col: 9, offset: 91301,
+																		line: 2892, col: 9, offset: 91311,
 																	},
 																},
 															},
@@ -31671,10 +31726,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 760, col: 52, offset: 24415},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 90952},
+																		pos: position{line: 2873, col: 10, offset: 90962},
 																		run: (*parser).callonListContinuationElement492,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 90952},
+																			pos:        position{line: 2873, col: 10, offset: 90962},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31683,28 +31738,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91350},
+																	pos: position{line: 2895, col: 8, offset: 91360},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91123},
+																			pos: position{line: 2882, col: 12, offset: 91133},
 																			run: (*parser).callonListContinuationElement495,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91124},
+																				pos: position{line: 2882, col: 13, offset: 91134},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91124},
+																						pos:        position{line: 2882, col: 13, offset: 91134},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91131},
+																						pos:        position{line: 2882, col: 20, offset: 91141},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91140},
+																						pos:        position{line: 2882, col: 29, offset: 91150},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31713,9 +31768,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91300},
+																			pos: position{line: 2892, col: 8, offset: 91310},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91301,
+																				line: 2892, col: 9, offset: 91311,
 																			},
 																		},
 																	},
@@ -31749,10 +31804,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 963, col: 40, offset: 30223},
 																					expr: &actionExpr{
-																						pos: position{line: 2876, col: 10, offset: 90952},
+																						pos: position{line: 2873, col: 10, offset: 90962},
 																						run: (*parser).callonListContinuationElement510,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2876, col: 10, offset: 90952},
+																							pos:        position{line: 2873, col: 10, offset: 90962},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -31761,28 +31816,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2898, col: 8, offset: 91350},
+																					pos: position{line: 2895, col: 8, offset: 91360},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2885, col: 12, offset: 91123},
+																							pos: position{line: 2882, col: 12, offset: 91133},
 																							run: (*parser).callonListContinuationElement513,
 																							expr: &choiceExpr{
-																								pos: position{line: 2885, col: 13, offset: 91124},
+																								pos: position{line: 2882, col: 13, offset: 91134},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 13, offset: 91124},
+																										pos:        position{line: 2882, col: 13, offset: 91134},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 20, offset: 91131},
+																										pos:        position{line: 2882, col: 20, offset: 91141},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 29, offset: 91140},
+																										pos:        position{line: 2882, col: 29, offset: 91150},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -31791,9 +31846,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2895, col: 8, offset: 91300},
+																							pos: position{line: 2892, col: 8, offset: 91310},
 																							expr: &anyMatcher{
-																								line: 2895, col: 9, offset: 91301,
+																								line: 2892, col: 9, offset: 91311,
 																							},
 																						},
 																					},
@@ -31811,21 +31866,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26162},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2893, col: 11, offset: 91286},
+																						pos: position{line: 2890, col: 11, offset: 91296},
 																						expr: &anyMatcher{
-																							line: 2893, col: 13, offset: 91288,
+																							line: 2890, col: 13, offset: 91298,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26237},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2822, col: 13, offset: 89478},
+																							pos: position{line: 2819, col: 13, offset: 89488},
 																							run: (*parser).callonListContinuationElement526,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2822, col: 13, offset: 89478},
+																								pos: position{line: 2819, col: 13, offset: 89488},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2822, col: 13, offset: 89478},
+																									pos:        position{line: 2819, col: 13, offset: 89488},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31835,28 +31890,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91350},
+																						pos: position{line: 2895, col: 8, offset: 91360},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91123},
+																								pos: position{line: 2882, col: 12, offset: 91133},
 																								run: (*parser).callonListContinuationElement530,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91124},
+																									pos: position{line: 2882, col: 13, offset: 91134},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91124},
+																											pos:        position{line: 2882, col: 13, offset: 91134},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91131},
+																											pos:        position{line: 2882, col: 20, offset: 91141},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91140},
+																											pos:        position{line: 2882, col: 29, offset: 91150},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31865,9 +31920,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91300},
+																								pos: position{line: 2892, col: 8, offset: 91310},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91301,
+																									line: 2892, col: 9, offset: 91311,
 																								},
 																							},
 																						},
@@ -31895,10 +31950,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 963, col: 40, offset: 30223},
 																expr: &actionExpr{
-																	pos: position{line: 2876, col: 10, offset: 90952},
+																	pos: position{line: 2873, col: 10, offset: 90962},
 																	run: (*parser).callonListContinuationElement541,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2876, col: 10, offset: 90952},
+																		pos:        position{line: 2873, col: 10, offset: 90962},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -31907,28 +31962,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2898, col: 8, offset: 91350},
+																pos: position{line: 2895, col: 8, offset: 91360},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2885, col: 12, offset: 91123},
+																		pos: position{line: 2882, col: 12, offset: 91133},
 																		run: (*parser).callonListContinuationElement544,
 																		expr: &choiceExpr{
-																			pos: position{line: 2885, col: 13, offset: 91124},
+																			pos: position{line: 2882, col: 13, offset: 91134},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 13, offset: 91124},
+																					pos:        position{line: 2882, col: 13, offset: 91134},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 20, offset: 91131},
+																					pos:        position{line: 2882, col: 20, offset: 91141},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 29, offset: 91140},
+																					pos:        position{line: 2882, col: 29, offset: 91150},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -31937,9 +31992,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91300},
+																		pos: position{line: 2892, col: 8, offset: 91310},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91301,
+																			line: 2892, col: 9, offset: 91311,
 																		},
 																	},
 																},
@@ -31996,10 +32051,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 756, col: 8, offset: 24249},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 90952},
+																		pos: position{line: 2873, col: 10, offset: 90962},
 																		run: (*parser).callonListContinuationElement563,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 90952},
+																			pos:        position{line: 2873, col: 10, offset: 90962},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32008,28 +32063,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91350},
+																	pos: position{line: 2895, col: 8, offset: 91360},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91123},
+																			pos: position{line: 2882, col: 12, offset: 91133},
 																			run: (*parser).callonListContinuationElement566,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91124},
+																				pos: position{line: 2882, col: 13, offset: 91134},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91124},
+																						pos:        position{line: 2882, col: 13, offset: 91134},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91131},
+																						pos:        position{line: 2882, col: 20, offset: 91141},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91140},
+																						pos:        position{line: 2882, col: 29, offset: 91150},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32038,9 +32093,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91300},
+																			pos: position{line: 2892, col: 8, offset: 91310},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91301,
+																				line: 2892, col: 9, offset: 91311,
 																			},
 																		},
 																	},
@@ -32112,10 +32167,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 756, col: 8, offset: 24249},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 90952},
+																												pos: position{line: 2873, col: 10, offset: 90962},
 																												run: (*parser).callonListContinuationElement591,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 90952},
+																													pos:        position{line: 2873, col: 10, offset: 90962},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32124,28 +32179,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91350},
+																											pos: position{line: 2895, col: 8, offset: 91360},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91123},
+																													pos: position{line: 2882, col: 12, offset: 91133},
 																													run: (*parser).callonListContinuationElement594,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91124},
+																														pos: position{line: 2882, col: 13, offset: 91134},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91124},
+																																pos:        position{line: 2882, col: 13, offset: 91134},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91131},
+																																pos:        position{line: 2882, col: 20, offset: 91141},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91140},
+																																pos:        position{line: 2882, col: 29, offset: 91150},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32154,9 +32209,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91300},
+																													pos: position{line: 2892, col: 8, offset: 91310},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91301,
+																														line: 2892, col: 9, offset: 91311,
 																													},
 																												},
 																											},
@@ -32172,9 +32227,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91300},
+																					pos: position{line: 2892, col: 8, offset: 91310},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91301,
+																						line: 2892, col: 9, offset: 91311,
 																					},
 																				},
 																			},
@@ -32190,21 +32245,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26162},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2893, col: 11, offset: 91286},
+																						pos: position{line: 2890, col: 11, offset: 91296},
 																						expr: &anyMatcher{
-																							line: 2893, col: 13, offset: 91288,
+																							line: 2890, col: 13, offset: 91298,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26237},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2822, col: 13, offset: 89478},
+																							pos: position{line: 2819, col: 13, offset: 89488},
 																							run: (*parser).callonListContinuationElement610,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2822, col: 13, offset: 89478},
+																								pos: position{line: 2819, col: 13, offset: 89488},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2822, col: 13, offset: 89478},
+																									pos:        position{line: 2819, col: 13, offset: 89488},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32214,28 +32269,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91350},
+																						pos: position{line: 2895, col: 8, offset: 91360},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91123},
+																								pos: position{line: 2882, col: 12, offset: 91133},
 																								run: (*parser).callonListContinuationElement614,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91124},
+																									pos: position{line: 2882, col: 13, offset: 91134},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91124},
+																											pos:        position{line: 2882, col: 13, offset: 91134},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91131},
+																											pos:        position{line: 2882, col: 20, offset: 91141},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91140},
+																											pos:        position{line: 2882, col: 29, offset: 91150},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32244,9 +32299,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91300},
+																								pos: position{line: 2892, col: 8, offset: 91310},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91301,
+																									line: 2892, col: 9, offset: 91311,
 																								},
 																							},
 																						},
@@ -32311,10 +32366,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 756, col: 8, offset: 24249},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 90952},
+																								pos: position{line: 2873, col: 10, offset: 90962},
 																								run: (*parser).callonListContinuationElement635,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 90952},
+																									pos:        position{line: 2873, col: 10, offset: 90962},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32323,28 +32378,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91350},
+																							pos: position{line: 2895, col: 8, offset: 91360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91123},
+																									pos: position{line: 2882, col: 12, offset: 91133},
 																									run: (*parser).callonListContinuationElement638,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91124},
+																										pos: position{line: 2882, col: 13, offset: 91134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91124},
+																												pos:        position{line: 2882, col: 13, offset: 91134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91131},
+																												pos:        position{line: 2882, col: 20, offset: 91141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91140},
+																												pos:        position{line: 2882, col: 29, offset: 91150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32353,9 +32408,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91300},
+																									pos: position{line: 2892, col: 8, offset: 91310},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91301,
+																										line: 2892, col: 9, offset: 91311,
 																									},
 																								},
 																							},
@@ -32371,9 +32426,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2895, col: 8, offset: 91300},
+																	pos: position{line: 2892, col: 8, offset: 91310},
 																	expr: &anyMatcher{
-																		line: 2895, col: 9, offset: 91301,
+																		line: 2892, col: 9, offset: 91311,
 																	},
 																},
 															},
@@ -32429,10 +32484,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 771, col: 8, offset: 24792},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 90952},
+																		pos: position{line: 2873, col: 10, offset: 90962},
 																		run: (*parser).callonListContinuationElement660,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 90952},
+																			pos:        position{line: 2873, col: 10, offset: 90962},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32441,28 +32496,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91350},
+																	pos: position{line: 2895, col: 8, offset: 91360},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91123},
+																			pos: position{line: 2882, col: 12, offset: 91133},
 																			run: (*parser).callonListContinuationElement663,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91124},
+																				pos: position{line: 2882, col: 13, offset: 91134},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91124},
+																						pos:        position{line: 2882, col: 13, offset: 91134},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91131},
+																						pos:        position{line: 2882, col: 20, offset: 91141},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91140},
+																						pos:        position{line: 2882, col: 29, offset: 91150},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32471,9 +32526,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91300},
+																			pos: position{line: 2892, col: 8, offset: 91310},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91301,
+																				line: 2892, col: 9, offset: 91311,
 																			},
 																		},
 																	},
@@ -32545,10 +32600,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 771, col: 8, offset: 24792},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 90952},
+																												pos: position{line: 2873, col: 10, offset: 90962},
 																												run: (*parser).callonListContinuationElement688,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 90952},
+																													pos:        position{line: 2873, col: 10, offset: 90962},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32557,28 +32612,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91350},
+																											pos: position{line: 2895, col: 8, offset: 91360},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91123},
+																													pos: position{line: 2882, col: 12, offset: 91133},
 																													run: (*parser).callonListContinuationElement691,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91124},
+																														pos: position{line: 2882, col: 13, offset: 91134},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91124},
+																																pos:        position{line: 2882, col: 13, offset: 91134},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91131},
+																																pos:        position{line: 2882, col: 20, offset: 91141},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91140},
+																																pos:        position{line: 2882, col: 29, offset: 91150},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32587,9 +32642,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91300},
+																													pos: position{line: 2892, col: 8, offset: 91310},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91301,
+																														line: 2892, col: 9, offset: 91311,
 																													},
 																												},
 																											},
@@ -32605,9 +32660,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91300},
+																					pos: position{line: 2892, col: 8, offset: 91310},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91301,
+																						line: 2892, col: 9, offset: 91311,
 																					},
 																				},
 																			},
@@ -32623,21 +32678,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26162},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2893, col: 11, offset: 91286},
+																						pos: position{line: 2890, col: 11, offset: 91296},
 																						expr: &anyMatcher{
-																							line: 2893, col: 13, offset: 91288,
+																							line: 2890, col: 13, offset: 91298,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26237},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2822, col: 13, offset: 89478},
+																							pos: position{line: 2819, col: 13, offset: 89488},
 																							run: (*parser).callonListContinuationElement707,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2822, col: 13, offset: 89478},
+																								pos: position{line: 2819, col: 13, offset: 89488},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2822, col: 13, offset: 89478},
+																									pos:        position{line: 2819, col: 13, offset: 89488},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32647,28 +32702,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91350},
+																						pos: position{line: 2895, col: 8, offset: 91360},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91123},
+																								pos: position{line: 2882, col: 12, offset: 91133},
 																								run: (*parser).callonListContinuationElement711,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91124},
+																									pos: position{line: 2882, col: 13, offset: 91134},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91124},
+																											pos:        position{line: 2882, col: 13, offset: 91134},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91131},
+																											pos:        position{line: 2882, col: 20, offset: 91141},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91140},
+																											pos:        position{line: 2882, col: 29, offset: 91150},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32677,9 +32732,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91300},
+																								pos: position{line: 2892, col: 8, offset: 91310},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91301,
+																									line: 2892, col: 9, offset: 91311,
 																								},
 																							},
 																						},
@@ -32744,10 +32799,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 771, col: 8, offset: 24792},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 90952},
+																								pos: position{line: 2873, col: 10, offset: 90962},
 																								run: (*parser).callonListContinuationElement732,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 90952},
+																									pos:        position{line: 2873, col: 10, offset: 90962},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32756,28 +32811,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91350},
+																							pos: position{line: 2895, col: 8, offset: 91360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91123},
+																									pos: position{line: 2882, col: 12, offset: 91133},
 																									run: (*parser).callonListContinuationElement735,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91124},
+																										pos: position{line: 2882, col: 13, offset: 91134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91124},
+																												pos:        position{line: 2882, col: 13, offset: 91134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91131},
+																												pos:        position{line: 2882, col: 20, offset: 91141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91140},
+																												pos:        position{line: 2882, col: 29, offset: 91150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32786,9 +32841,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91300},
+																									pos: position{line: 2892, col: 8, offset: 91310},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91301,
+																										line: 2892, col: 9, offset: 91311,
 																									},
 																								},
 																							},
@@ -32804,9 +32859,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2895, col: 8, offset: 91300},
+																	pos: position{line: 2892, col: 8, offset: 91310},
 																	expr: &anyMatcher{
-																		line: 2895, col: 9, offset: 91301,
+																		line: 2892, col: 9, offset: 91311,
 																	},
 																},
 															},
@@ -32862,10 +32917,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 785, col: 8, offset: 25268},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 90952},
+																		pos: position{line: 2873, col: 10, offset: 90962},
 																		run: (*parser).callonListContinuationElement757,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 90952},
+																			pos:        position{line: 2873, col: 10, offset: 90962},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32874,28 +32929,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91350},
+																	pos: position{line: 2895, col: 8, offset: 91360},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91123},
+																			pos: position{line: 2882, col: 12, offset: 91133},
 																			run: (*parser).callonListContinuationElement760,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91124},
+																				pos: position{line: 2882, col: 13, offset: 91134},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91124},
+																						pos:        position{line: 2882, col: 13, offset: 91134},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91131},
+																						pos:        position{line: 2882, col: 20, offset: 91141},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91140},
+																						pos:        position{line: 2882, col: 29, offset: 91150},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32904,9 +32959,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91300},
+																			pos: position{line: 2892, col: 8, offset: 91310},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91301,
+																				line: 2892, col: 9, offset: 91311,
 																			},
 																		},
 																	},
@@ -32978,10 +33033,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 785, col: 8, offset: 25268},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 90952},
+																												pos: position{line: 2873, col: 10, offset: 90962},
 																												run: (*parser).callonListContinuationElement785,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 90952},
+																													pos:        position{line: 2873, col: 10, offset: 90962},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32990,28 +33045,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91350},
+																											pos: position{line: 2895, col: 8, offset: 91360},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91123},
+																													pos: position{line: 2882, col: 12, offset: 91133},
 																													run: (*parser).callonListContinuationElement788,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91124},
+																														pos: position{line: 2882, col: 13, offset: 91134},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91124},
+																																pos:        position{line: 2882, col: 13, offset: 91134},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91131},
+																																pos:        position{line: 2882, col: 20, offset: 91141},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91140},
+																																pos:        position{line: 2882, col: 29, offset: 91150},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33020,9 +33075,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91300},
+																													pos: position{line: 2892, col: 8, offset: 91310},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91301,
+																														line: 2892, col: 9, offset: 91311,
 																													},
 																												},
 																											},
@@ -33038,9 +33093,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91300},
+																					pos: position{line: 2892, col: 8, offset: 91310},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91301,
+																						line: 2892, col: 9, offset: 91311,
 																					},
 																				},
 																			},
@@ -33056,21 +33111,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26162},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2893, col: 11, offset: 91286},
+																						pos: position{line: 2890, col: 11, offset: 91296},
 																						expr: &anyMatcher{
-																							line: 2893, col: 13, offset: 91288,
+																							line: 2890, col: 13, offset: 91298,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26237},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2822, col: 13, offset: 89478},
+																							pos: position{line: 2819, col: 13, offset: 89488},
 																							run: (*parser).callonListContinuationElement804,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2822, col: 13, offset: 89478},
+																								pos: position{line: 2819, col: 13, offset: 89488},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2822, col: 13, offset: 89478},
+																									pos:        position{line: 2819, col: 13, offset: 89488},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33080,28 +33135,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91350},
+																						pos: position{line: 2895, col: 8, offset: 91360},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91123},
+																								pos: position{line: 2882, col: 12, offset: 91133},
 																								run: (*parser).callonListContinuationElement808,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91124},
+																									pos: position{line: 2882, col: 13, offset: 91134},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91124},
+																											pos:        position{line: 2882, col: 13, offset: 91134},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91131},
+																											pos:        position{line: 2882, col: 20, offset: 91141},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91140},
+																											pos:        position{line: 2882, col: 29, offset: 91150},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33110,9 +33165,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91300},
+																								pos: position{line: 2892, col: 8, offset: 91310},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91301,
+																									line: 2892, col: 9, offset: 91311,
 																								},
 																							},
 																						},
@@ -33177,10 +33232,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 785, col: 8, offset: 25268},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 90952},
+																								pos: position{line: 2873, col: 10, offset: 90962},
 																								run: (*parser).callonListContinuationElement829,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 90952},
+																									pos:        position{line: 2873, col: 10, offset: 90962},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33189,28 +33244,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91350},
+																							pos: position{line: 2895, col: 8, offset: 91360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91123},
+																									pos: position{line: 2882, col: 12, offset: 91133},
 																									run: (*parser).callonListContinuationElement832,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91124},
+																										pos: position{line: 2882, col: 13, offset: 91134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91124},
+																												pos:        position{line: 2882, col: 13, offset: 91134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91131},
+																												pos:        position{line: 2882, col: 20, offset: 91141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91140},
+																												pos:        position{line: 2882, col: 29, offset: 91150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33219,9 +33274,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91300},
+																									pos: position{line: 2892, col: 8, offset: 91310},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91301,
+																										line: 2892, col: 9, offset: 91311,
 																									},
 																								},
 																							},
@@ -33237,9 +33292,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2895, col: 8, offset: 91300},
+																	pos: position{line: 2892, col: 8, offset: 91310},
 																	expr: &anyMatcher{
-																		line: 2895, col: 9, offset: 91301,
+																		line: 2892, col: 9, offset: 91311,
 																	},
 																},
 															},
@@ -33273,18 +33328,18 @@ var g = &grammar{
 																			pos: position{line: 677, col: 14, offset: 21558},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2893, col: 11, offset: 91286},
+																					pos: position{line: 2890, col: 11, offset: 91296},
 																					expr: &anyMatcher{
-																						line: 2893, col: 13, offset: 91288,
+																						line: 2890, col: 13, offset: 91298,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21565},
 																					expr: &actionExpr{
-																						pos: position{line: 2876, col: 10, offset: 90952},
+																						pos: position{line: 2873, col: 10, offset: 90962},
 																						run: (*parser).callonListContinuationElement853,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2876, col: 10, offset: 90952},
+																							pos:        position{line: 2873, col: 10, offset: 90962},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -33293,28 +33348,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2898, col: 8, offset: 91350},
+																					pos: position{line: 2895, col: 8, offset: 91360},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2885, col: 12, offset: 91123},
+																							pos: position{line: 2882, col: 12, offset: 91133},
 																							run: (*parser).callonListContinuationElement856,
 																							expr: &choiceExpr{
-																								pos: position{line: 2885, col: 13, offset: 91124},
+																								pos: position{line: 2882, col: 13, offset: 91134},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 13, offset: 91124},
+																										pos:        position{line: 2882, col: 13, offset: 91134},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 20, offset: 91131},
+																										pos:        position{line: 2882, col: 20, offset: 91141},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 29, offset: 91140},
+																										pos:        position{line: 2882, col: 29, offset: 91150},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -33323,9 +33378,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2895, col: 8, offset: 91300},
+																							pos: position{line: 2892, col: 8, offset: 91310},
 																							expr: &anyMatcher{
-																								line: 2895, col: 9, offset: 91301,
+																								line: 2892, col: 9, offset: 91311,
 																							},
 																						},
 																					},
@@ -33344,12 +33399,12 @@ var g = &grammar{
 																	pos:   position{line: 984, col: 5, offset: 30758},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2826, col: 14, offset: 89545},
+																		pos: position{line: 2823, col: 14, offset: 89555},
 																		run: (*parser).callonListContinuationElement865,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2826, col: 14, offset: 89545},
+																			pos: position{line: 2823, col: 14, offset: 89555},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2826, col: 14, offset: 89545},
+																				pos:        position{line: 2823, col: 14, offset: 89555},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -33359,28 +33414,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91350},
+																	pos: position{line: 2895, col: 8, offset: 91360},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91123},
+																			pos: position{line: 2882, col: 12, offset: 91133},
 																			run: (*parser).callonListContinuationElement869,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91124},
+																				pos: position{line: 2882, col: 13, offset: 91134},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91124},
+																						pos:        position{line: 2882, col: 13, offset: 91134},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91131},
+																						pos:        position{line: 2882, col: 20, offset: 91141},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91140},
+																						pos:        position{line: 2882, col: 29, offset: 91150},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33389,9 +33444,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91300},
+																			pos: position{line: 2892, col: 8, offset: 91310},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91301,
+																				line: 2892, col: 9, offset: 91311,
 																			},
 																		},
 																	},
@@ -33423,18 +33478,18 @@ var g = &grammar{
 																						pos: position{line: 677, col: 14, offset: 21558},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2893, col: 11, offset: 91286},
+																								pos: position{line: 2890, col: 11, offset: 91296},
 																								expr: &anyMatcher{
-																									line: 2893, col: 13, offset: 91288,
+																									line: 2890, col: 13, offset: 91298,
 																								},
 																							},
 																							&zeroOrMoreExpr{
 																								pos: position{line: 677, col: 21, offset: 21565},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 90952},
+																									pos: position{line: 2873, col: 10, offset: 90962},
 																									run: (*parser).callonListContinuationElement887,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 90952},
+																										pos:        position{line: 2873, col: 10, offset: 90962},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33443,28 +33498,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2898, col: 8, offset: 91350},
+																								pos: position{line: 2895, col: 8, offset: 91360},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2885, col: 12, offset: 91123},
+																										pos: position{line: 2882, col: 12, offset: 91133},
 																										run: (*parser).callonListContinuationElement890,
 																										expr: &choiceExpr{
-																											pos: position{line: 2885, col: 13, offset: 91124},
+																											pos: position{line: 2882, col: 13, offset: 91134},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 13, offset: 91124},
+																													pos:        position{line: 2882, col: 13, offset: 91134},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 20, offset: 91131},
+																													pos:        position{line: 2882, col: 20, offset: 91141},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 29, offset: 91140},
+																													pos:        position{line: 2882, col: 29, offset: 91150},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33473,9 +33528,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2895, col: 8, offset: 91300},
+																										pos: position{line: 2892, col: 8, offset: 91310},
 																										expr: &anyMatcher{
-																											line: 2895, col: 9, offset: 91301,
+																											line: 2892, col: 9, offset: 91311,
 																										},
 																									},
 																								},
@@ -33494,12 +33549,12 @@ var g = &grammar{
 																				pos:   position{line: 984, col: 5, offset: 30758},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2826, col: 14, offset: 89545},
+																					pos: position{line: 2823, col: 14, offset: 89555},
 																					run: (*parser).callonListContinuationElement899,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2826, col: 14, offset: 89545},
+																						pos: position{line: 2823, col: 14, offset: 89555},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2826, col: 14, offset: 89545},
+																							pos:        position{line: 2823, col: 14, offset: 89555},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33509,28 +33564,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2898, col: 8, offset: 91350},
+																				pos: position{line: 2895, col: 8, offset: 91360},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2885, col: 12, offset: 91123},
+																						pos: position{line: 2882, col: 12, offset: 91133},
 																						run: (*parser).callonListContinuationElement903,
 																						expr: &choiceExpr{
-																							pos: position{line: 2885, col: 13, offset: 91124},
+																							pos: position{line: 2882, col: 13, offset: 91134},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 13, offset: 91124},
+																									pos:        position{line: 2882, col: 13, offset: 91134},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 20, offset: 91131},
+																									pos:        position{line: 2882, col: 20, offset: 91141},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 29, offset: 91140},
+																									pos:        position{line: 2882, col: 29, offset: 91150},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33539,9 +33594,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91300},
+																						pos: position{line: 2892, col: 8, offset: 91310},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91301,
+																							line: 2892, col: 9, offset: 91311,
 																						},
 																					},
 																				},
@@ -33550,21 +33605,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1795, col: 5, offset: 58047},
+																	pos: position{line: 1792, col: 5, offset: 58036},
 																	run: (*parser).callonListContinuationElement910,
 																	expr: &seqExpr{
-																		pos: position{line: 1795, col: 5, offset: 58047},
+																		pos: position{line: 1792, col: 5, offset: 58036},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1795, col: 5, offset: 58047},
+																				pos:   position{line: 1792, col: 5, offset: 58036},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2826, col: 14, offset: 89545},
+																					pos: position{line: 2823, col: 14, offset: 89555},
 																					run: (*parser).callonListContinuationElement913,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2826, col: 14, offset: 89545},
+																						pos: position{line: 2823, col: 14, offset: 89555},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2826, col: 14, offset: 89545},
+																							pos:        position{line: 2823, col: 14, offset: 89555},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33574,32 +33629,32 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1796, col: 5, offset: 58071},
+																				pos: position{line: 1793, col: 5, offset: 58060},
 																				run: (*parser).callonListContinuationElement916,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2898, col: 8, offset: 91350},
+																				pos: position{line: 2895, col: 8, offset: 91360},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2885, col: 12, offset: 91123},
+																						pos: position{line: 2882, col: 12, offset: 91133},
 																						run: (*parser).callonListContinuationElement918,
 																						expr: &choiceExpr{
-																							pos: position{line: 2885, col: 13, offset: 91124},
+																							pos: position{line: 2882, col: 13, offset: 91134},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 13, offset: 91124},
+																									pos:        position{line: 2882, col: 13, offset: 91134},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 20, offset: 91131},
+																									pos:        position{line: 2882, col: 20, offset: 91141},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 29, offset: 91140},
+																									pos:        position{line: 2882, col: 29, offset: 91150},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33608,9 +33663,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91300},
+																						pos: position{line: 2892, col: 8, offset: 91310},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91301,
+																							line: 2892, col: 9, offset: 91311,
 																						},
 																					},
 																				},
@@ -33657,10 +33712,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 778, col: 8, offset: 25023},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 90952},
+																		pos: position{line: 2873, col: 10, offset: 90962},
 																		run: (*parser).callonListContinuationElement934,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 90952},
+																			pos:        position{line: 2873, col: 10, offset: 90962},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33669,28 +33724,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91350},
+																	pos: position{line: 2895, col: 8, offset: 91360},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91123},
+																			pos: position{line: 2882, col: 12, offset: 91133},
 																			run: (*parser).callonListContinuationElement937,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91124},
+																				pos: position{line: 2882, col: 13, offset: 91134},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91124},
+																						pos:        position{line: 2882, col: 13, offset: 91134},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91131},
+																						pos:        position{line: 2882, col: 20, offset: 91141},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91140},
+																						pos:        position{line: 2882, col: 29, offset: 91150},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33699,9 +33754,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91300},
+																			pos: position{line: 2892, col: 8, offset: 91310},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91301,
+																				line: 2892, col: 9, offset: 91311,
 																			},
 																		},
 																	},
@@ -33749,10 +33804,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 778, col: 8, offset: 25023},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 90952},
+																									pos: position{line: 2873, col: 10, offset: 90962},
 																									run: (*parser).callonListContinuationElement956,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 90952},
+																										pos:        position{line: 2873, col: 10, offset: 90962},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33761,28 +33816,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2898, col: 8, offset: 91350},
+																								pos: position{line: 2895, col: 8, offset: 91360},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2885, col: 12, offset: 91123},
+																										pos: position{line: 2882, col: 12, offset: 91133},
 																										run: (*parser).callonListContinuationElement959,
 																										expr: &choiceExpr{
-																											pos: position{line: 2885, col: 13, offset: 91124},
+																											pos: position{line: 2882, col: 13, offset: 91134},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 13, offset: 91124},
+																													pos:        position{line: 2882, col: 13, offset: 91134},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 20, offset: 91131},
+																													pos:        position{line: 2882, col: 20, offset: 91141},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 29, offset: 91140},
+																													pos:        position{line: 2882, col: 29, offset: 91150},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33791,9 +33846,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2895, col: 8, offset: 91300},
+																										pos: position{line: 2892, col: 8, offset: 91310},
 																										expr: &anyMatcher{
-																											line: 2895, col: 9, offset: 91301,
+																											line: 2892, col: 9, offset: 91311,
 																										},
 																									},
 																								},
@@ -33802,9 +33857,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91300},
+																					pos: position{line: 2892, col: 8, offset: 91310},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91301,
+																						line: 2892, col: 9, offset: 91311,
 																					},
 																				},
 																			},
@@ -33820,21 +33875,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26162},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2893, col: 11, offset: 91286},
+																						pos: position{line: 2890, col: 11, offset: 91296},
 																						expr: &anyMatcher{
-																							line: 2893, col: 13, offset: 91288,
+																							line: 2890, col: 13, offset: 91298,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26237},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2822, col: 13, offset: 89478},
+																							pos: position{line: 2819, col: 13, offset: 89488},
 																							run: (*parser).callonListContinuationElement974,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2822, col: 13, offset: 89478},
+																								pos: position{line: 2819, col: 13, offset: 89488},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2822, col: 13, offset: 89478},
+																									pos:        position{line: 2819, col: 13, offset: 89488},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33844,28 +33899,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91350},
+																						pos: position{line: 2895, col: 8, offset: 91360},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91123},
+																								pos: position{line: 2882, col: 12, offset: 91133},
 																								run: (*parser).callonListContinuationElement978,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91124},
+																									pos: position{line: 2882, col: 13, offset: 91134},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91124},
+																											pos:        position{line: 2882, col: 13, offset: 91134},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91131},
+																											pos:        position{line: 2882, col: 20, offset: 91141},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91140},
+																											pos:        position{line: 2882, col: 29, offset: 91150},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33874,9 +33929,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91300},
+																								pos: position{line: 2892, col: 8, offset: 91310},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91301,
+																									line: 2892, col: 9, offset: 91311,
 																								},
 																							},
 																						},
@@ -33921,10 +33976,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 778, col: 8, offset: 25023},
 																				expr: &actionExpr{
-																					pos: position{line: 2876, col: 10, offset: 90952},
+																					pos: position{line: 2873, col: 10, offset: 90962},
 																					run: (*parser).callonListContinuationElement994,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2876, col: 10, offset: 90952},
+																						pos:        position{line: 2873, col: 10, offset: 90962},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -33933,28 +33988,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2898, col: 8, offset: 91350},
+																				pos: position{line: 2895, col: 8, offset: 91360},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2885, col: 12, offset: 91123},
+																						pos: position{line: 2882, col: 12, offset: 91133},
 																						run: (*parser).callonListContinuationElement997,
 																						expr: &choiceExpr{
-																							pos: position{line: 2885, col: 13, offset: 91124},
+																							pos: position{line: 2882, col: 13, offset: 91134},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 13, offset: 91124},
+																									pos:        position{line: 2882, col: 13, offset: 91134},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 20, offset: 91131},
+																									pos:        position{line: 2882, col: 20, offset: 91141},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 29, offset: 91140},
+																									pos:        position{line: 2882, col: 29, offset: 91150},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33963,9 +34018,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91300},
+																						pos: position{line: 2892, col: 8, offset: 91310},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91301,
+																							line: 2892, col: 9, offset: 91311,
 																						},
 																					},
 																				},
@@ -33974,9 +34029,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2895, col: 8, offset: 91300},
+																	pos: position{line: 2892, col: 8, offset: 91310},
 																	expr: &anyMatcher{
-																		line: 2895, col: 9, offset: 91301,
+																		line: 2892, col: 9, offset: 91311,
 																	},
 																},
 															},
@@ -34032,10 +34087,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 792, col: 8, offset: 25520},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 90952},
+																		pos: position{line: 2873, col: 10, offset: 90962},
 																		run: (*parser).callonListContinuationElement1018,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 90952},
+																			pos:        position{line: 2873, col: 10, offset: 90962},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34044,28 +34099,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91350},
+																	pos: position{line: 2895, col: 8, offset: 91360},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91123},
+																			pos: position{line: 2882, col: 12, offset: 91133},
 																			run: (*parser).callonListContinuationElement1021,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91124},
+																				pos: position{line: 2882, col: 13, offset: 91134},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91124},
+																						pos:        position{line: 2882, col: 13, offset: 91134},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91131},
+																						pos:        position{line: 2882, col: 20, offset: 91141},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91140},
+																						pos:        position{line: 2882, col: 29, offset: 91150},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34074,9 +34129,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91300},
+																			pos: position{line: 2892, col: 8, offset: 91310},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91301,
+																				line: 2892, col: 9, offset: 91311,
 																			},
 																		},
 																	},
@@ -34148,10 +34203,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 792, col: 8, offset: 25520},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 90952},
+																												pos: position{line: 2873, col: 10, offset: 90962},
 																												run: (*parser).callonListContinuationElement1046,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 90952},
+																													pos:        position{line: 2873, col: 10, offset: 90962},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34160,28 +34215,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91350},
+																											pos: position{line: 2895, col: 8, offset: 91360},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91123},
+																													pos: position{line: 2882, col: 12, offset: 91133},
 																													run: (*parser).callonListContinuationElement1049,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91124},
+																														pos: position{line: 2882, col: 13, offset: 91134},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91124},
+																																pos:        position{line: 2882, col: 13, offset: 91134},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91131},
+																																pos:        position{line: 2882, col: 20, offset: 91141},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91140},
+																																pos:        position{line: 2882, col: 29, offset: 91150},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34190,9 +34245,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91300},
+																													pos: position{line: 2892, col: 8, offset: 91310},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91301,
+																														line: 2892, col: 9, offset: 91311,
 																													},
 																												},
 																											},
@@ -34208,9 +34263,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91300},
+																					pos: position{line: 2892, col: 8, offset: 91310},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91301,
+																						line: 2892, col: 9, offset: 91311,
 																					},
 																				},
 																			},
@@ -34226,21 +34281,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26162},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2893, col: 11, offset: 91286},
+																						pos: position{line: 2890, col: 11, offset: 91296},
 																						expr: &anyMatcher{
-																							line: 2893, col: 13, offset: 91288,
+																							line: 2890, col: 13, offset: 91298,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26237},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2822, col: 13, offset: 89478},
+																							pos: position{line: 2819, col: 13, offset: 89488},
 																							run: (*parser).callonListContinuationElement1065,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2822, col: 13, offset: 89478},
+																								pos: position{line: 2819, col: 13, offset: 89488},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2822, col: 13, offset: 89478},
+																									pos:        position{line: 2819, col: 13, offset: 89488},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34250,28 +34305,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91350},
+																						pos: position{line: 2895, col: 8, offset: 91360},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91123},
+																								pos: position{line: 2882, col: 12, offset: 91133},
 																								run: (*parser).callonListContinuationElement1069,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91124},
+																									pos: position{line: 2882, col: 13, offset: 91134},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91124},
+																											pos:        position{line: 2882, col: 13, offset: 91134},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91131},
+																											pos:        position{line: 2882, col: 20, offset: 91141},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91140},
+																											pos:        position{line: 2882, col: 29, offset: 91150},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34280,9 +34335,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91300},
+																								pos: position{line: 2892, col: 8, offset: 91310},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91301,
+																									line: 2892, col: 9, offset: 91311,
 																								},
 																							},
 																						},
@@ -34347,10 +34402,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 792, col: 8, offset: 25520},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 90952},
+																								pos: position{line: 2873, col: 10, offset: 90962},
 																								run: (*parser).callonListContinuationElement1090,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 90952},
+																									pos:        position{line: 2873, col: 10, offset: 90962},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34359,28 +34414,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91350},
+																							pos: position{line: 2895, col: 8, offset: 91360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91123},
+																									pos: position{line: 2882, col: 12, offset: 91133},
 																									run: (*parser).callonListContinuationElement1093,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91124},
+																										pos: position{line: 2882, col: 13, offset: 91134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91124},
+																												pos:        position{line: 2882, col: 13, offset: 91134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91131},
+																												pos:        position{line: 2882, col: 20, offset: 91141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91140},
+																												pos:        position{line: 2882, col: 29, offset: 91150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34389,9 +34444,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91300},
+																									pos: position{line: 2892, col: 8, offset: 91310},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91301,
+																										line: 2892, col: 9, offset: 91311,
 																									},
 																								},
 																							},
@@ -34407,9 +34462,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2895, col: 8, offset: 91300},
+																	pos: position{line: 2892, col: 8, offset: 91310},
 																	expr: &anyMatcher{
-																		line: 2895, col: 9, offset: 91301,
+																		line: 2892, col: 9, offset: 91311,
 																	},
 																},
 															},
@@ -34465,10 +34520,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 799, col: 8, offset: 25770},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 90952},
+																		pos: position{line: 2873, col: 10, offset: 90962},
 																		run: (*parser).callonListContinuationElement1115,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 90952},
+																			pos:        position{line: 2873, col: 10, offset: 90962},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34477,28 +34532,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91350},
+																	pos: position{line: 2895, col: 8, offset: 91360},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91123},
+																			pos: position{line: 2882, col: 12, offset: 91133},
 																			run: (*parser).callonListContinuationElement1118,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91124},
+																				pos: position{line: 2882, col: 13, offset: 91134},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91124},
+																						pos:        position{line: 2882, col: 13, offset: 91134},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91131},
+																						pos:        position{line: 2882, col: 20, offset: 91141},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91140},
+																						pos:        position{line: 2882, col: 29, offset: 91150},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34507,9 +34562,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91300},
+																			pos: position{line: 2892, col: 8, offset: 91310},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91301,
+																				line: 2892, col: 9, offset: 91311,
 																			},
 																		},
 																	},
@@ -34581,10 +34636,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 799, col: 8, offset: 25770},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 90952},
+																												pos: position{line: 2873, col: 10, offset: 90962},
 																												run: (*parser).callonListContinuationElement1143,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 90952},
+																													pos:        position{line: 2873, col: 10, offset: 90962},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34593,28 +34648,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91350},
+																											pos: position{line: 2895, col: 8, offset: 91360},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91123},
+																													pos: position{line: 2882, col: 12, offset: 91133},
 																													run: (*parser).callonListContinuationElement1146,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91124},
+																														pos: position{line: 2882, col: 13, offset: 91134},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91124},
+																																pos:        position{line: 2882, col: 13, offset: 91134},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91131},
+																																pos:        position{line: 2882, col: 20, offset: 91141},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91140},
+																																pos:        position{line: 2882, col: 29, offset: 91150},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34623,9 +34678,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91300},
+																													pos: position{line: 2892, col: 8, offset: 91310},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91301,
+																														line: 2892, col: 9, offset: 91311,
 																													},
 																												},
 																											},
@@ -34641,9 +34696,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91300},
+																					pos: position{line: 2892, col: 8, offset: 91310},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91301,
+																						line: 2892, col: 9, offset: 91311,
 																					},
 																				},
 																			},
@@ -34659,21 +34714,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26162},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2893, col: 11, offset: 91286},
+																						pos: position{line: 2890, col: 11, offset: 91296},
 																						expr: &anyMatcher{
-																							line: 2893, col: 13, offset: 91288,
+																							line: 2890, col: 13, offset: 91298,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26237},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2822, col: 13, offset: 89478},
+																							pos: position{line: 2819, col: 13, offset: 89488},
 																							run: (*parser).callonListContinuationElement1162,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2822, col: 13, offset: 89478},
+																								pos: position{line: 2819, col: 13, offset: 89488},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2822, col: 13, offset: 89478},
+																									pos:        position{line: 2819, col: 13, offset: 89488},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34683,28 +34738,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91350},
+																						pos: position{line: 2895, col: 8, offset: 91360},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91123},
+																								pos: position{line: 2882, col: 12, offset: 91133},
 																								run: (*parser).callonListContinuationElement1166,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91124},
+																									pos: position{line: 2882, col: 13, offset: 91134},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91124},
+																											pos:        position{line: 2882, col: 13, offset: 91134},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91131},
+																											pos:        position{line: 2882, col: 20, offset: 91141},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91140},
+																											pos:        position{line: 2882, col: 29, offset: 91150},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34713,9 +34768,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91300},
+																								pos: position{line: 2892, col: 8, offset: 91310},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91301,
+																									line: 2892, col: 9, offset: 91311,
 																								},
 																							},
 																						},
@@ -34780,10 +34835,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 799, col: 8, offset: 25770},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 90952},
+																								pos: position{line: 2873, col: 10, offset: 90962},
 																								run: (*parser).callonListContinuationElement1187,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 90952},
+																									pos:        position{line: 2873, col: 10, offset: 90962},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34792,28 +34847,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91350},
+																							pos: position{line: 2895, col: 8, offset: 91360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91123},
+																									pos: position{line: 2882, col: 12, offset: 91133},
 																									run: (*parser).callonListContinuationElement1190,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91124},
+																										pos: position{line: 2882, col: 13, offset: 91134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91124},
+																												pos:        position{line: 2882, col: 13, offset: 91134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91131},
+																												pos:        position{line: 2882, col: 20, offset: 91141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91140},
+																												pos:        position{line: 2882, col: 29, offset: 91150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34822,9 +34877,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91300},
+																									pos: position{line: 2892, col: 8, offset: 91310},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91301,
+																										line: 2892, col: 9, offset: 91311,
 																									},
 																								},
 																							},
@@ -34840,9 +34895,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2895, col: 8, offset: 91300},
+																	pos: position{line: 2892, col: 8, offset: 91310},
 																	expr: &anyMatcher{
-																		line: 2895, col: 9, offset: 91301,
+																		line: 2892, col: 9, offset: 91311,
 																	},
 																},
 															},
@@ -34898,10 +34953,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 806, col: 8, offset: 26016},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 90952},
+																		pos: position{line: 2873, col: 10, offset: 90962},
 																		run: (*parser).callonListContinuationElement1212,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 90952},
+																			pos:        position{line: 2873, col: 10, offset: 90962},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34910,28 +34965,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91350},
+																	pos: position{line: 2895, col: 8, offset: 91360},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91123},
+																			pos: position{line: 2882, col: 12, offset: 91133},
 																			run: (*parser).callonListContinuationElement1215,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91124},
+																				pos: position{line: 2882, col: 13, offset: 91134},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91124},
+																						pos:        position{line: 2882, col: 13, offset: 91134},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91131},
+																						pos:        position{line: 2882, col: 20, offset: 91141},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91140},
+																						pos:        position{line: 2882, col: 29, offset: 91150},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34940,9 +34995,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91300},
+																			pos: position{line: 2892, col: 8, offset: 91310},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91301,
+																				line: 2892, col: 9, offset: 91311,
 																			},
 																		},
 																	},
@@ -35014,10 +35069,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 806, col: 8, offset: 26016},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 90952},
+																												pos: position{line: 2873, col: 10, offset: 90962},
 																												run: (*parser).callonListContinuationElement1240,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 90952},
+																													pos:        position{line: 2873, col: 10, offset: 90962},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35026,28 +35081,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91350},
+																											pos: position{line: 2895, col: 8, offset: 91360},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91123},
+																													pos: position{line: 2882, col: 12, offset: 91133},
 																													run: (*parser).callonListContinuationElement1243,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91124},
+																														pos: position{line: 2882, col: 13, offset: 91134},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91124},
+																																pos:        position{line: 2882, col: 13, offset: 91134},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91131},
+																																pos:        position{line: 2882, col: 20, offset: 91141},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91140},
+																																pos:        position{line: 2882, col: 29, offset: 91150},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35056,9 +35111,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91300},
+																													pos: position{line: 2892, col: 8, offset: 91310},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91301,
+																														line: 2892, col: 9, offset: 91311,
 																													},
 																												},
 																											},
@@ -35074,9 +35129,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91300},
+																					pos: position{line: 2892, col: 8, offset: 91310},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91301,
+																						line: 2892, col: 9, offset: 91311,
 																					},
 																				},
 																			},
@@ -35092,21 +35147,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26162},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2893, col: 11, offset: 91286},
+																						pos: position{line: 2890, col: 11, offset: 91296},
 																						expr: &anyMatcher{
-																							line: 2893, col: 13, offset: 91288,
+																							line: 2890, col: 13, offset: 91298,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26237},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2822, col: 13, offset: 89478},
+																							pos: position{line: 2819, col: 13, offset: 89488},
 																							run: (*parser).callonListContinuationElement1259,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2822, col: 13, offset: 89478},
+																								pos: position{line: 2819, col: 13, offset: 89488},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2822, col: 13, offset: 89478},
+																									pos:        position{line: 2819, col: 13, offset: 89488},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35116,28 +35171,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91350},
+																						pos: position{line: 2895, col: 8, offset: 91360},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91123},
+																								pos: position{line: 2882, col: 12, offset: 91133},
 																								run: (*parser).callonListContinuationElement1263,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91124},
+																									pos: position{line: 2882, col: 13, offset: 91134},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91124},
+																											pos:        position{line: 2882, col: 13, offset: 91134},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91131},
+																											pos:        position{line: 2882, col: 20, offset: 91141},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91140},
+																											pos:        position{line: 2882, col: 29, offset: 91150},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35146,9 +35201,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91300},
+																								pos: position{line: 2892, col: 8, offset: 91310},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91301,
+																									line: 2892, col: 9, offset: 91311,
 																								},
 																							},
 																						},
@@ -35213,10 +35268,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 806, col: 8, offset: 26016},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 90952},
+																								pos: position{line: 2873, col: 10, offset: 90962},
 																								run: (*parser).callonListContinuationElement1284,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 90952},
+																									pos:        position{line: 2873, col: 10, offset: 90962},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35225,28 +35280,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91350},
+																							pos: position{line: 2895, col: 8, offset: 91360},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91123},
+																									pos: position{line: 2882, col: 12, offset: 91133},
 																									run: (*parser).callonListContinuationElement1287,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91124},
+																										pos: position{line: 2882, col: 13, offset: 91134},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91124},
+																												pos:        position{line: 2882, col: 13, offset: 91134},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91131},
+																												pos:        position{line: 2882, col: 20, offset: 91141},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91140},
+																												pos:        position{line: 2882, col: 29, offset: 91150},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35255,9 +35310,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91300},
+																									pos: position{line: 2892, col: 8, offset: 91310},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91301,
+																										line: 2892, col: 9, offset: 91311,
 																									},
 																								},
 																							},
@@ -35273,9 +35328,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2895, col: 8, offset: 91300},
+																	pos: position{line: 2892, col: 8, offset: 91310},
 																	expr: &anyMatcher{
-																		line: 2895, col: 9, offset: 91301,
+																		line: 2892, col: 9, offset: 91311,
 																	},
 																},
 															},
@@ -35286,52 +35341,52 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2721, col: 18, offset: 86547},
+										pos: position{line: 2718, col: 18, offset: 86536},
 										run: (*parser).callonListContinuationElement1297,
 										expr: &seqExpr{
-											pos: position{line: 2721, col: 18, offset: 86547},
+											pos: position{line: 2718, col: 18, offset: 86536},
 											exprs: []interface{}{
 												&choiceExpr{
-													pos: position{line: 2722, col: 9, offset: 86557},
+													pos: position{line: 2719, col: 9, offset: 86546},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2722, col: 9, offset: 86557},
+															pos:        position{line: 2719, col: 9, offset: 86546},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2723, col: 11, offset: 86593},
+															pos:        position{line: 2720, col: 11, offset: 86582},
 															val:        "***",
 															ignoreCase: false,
 															want:       "\"***\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2723, col: 19, offset: 86601},
+															pos:        position{line: 2720, col: 19, offset: 86590},
 															val:        "* * *",
 															ignoreCase: false,
 															want:       "\"* * *\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2723, col: 29, offset: 86611},
+															pos:        position{line: 2720, col: 29, offset: 86600},
 															val:        "---",
 															ignoreCase: false,
 															want:       "\"---\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2723, col: 37, offset: 86619},
+															pos:        position{line: 2720, col: 37, offset: 86608},
 															val:        "- - -",
 															ignoreCase: false,
 															want:       "\"- - -\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2723, col: 47, offset: 86629},
+															pos:        position{line: 2720, col: 47, offset: 86618},
 															val:        "___",
 															ignoreCase: false,
 															want:       "\"___\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2723, col: 55, offset: 86637},
+															pos:        position{line: 2720, col: 55, offset: 86626},
 															val:        "_ _ _",
 															ignoreCase: false,
 															want:       "\"_ _ _\"",
@@ -35339,12 +35394,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2724, col: 11, offset: 86683},
+													pos: position{line: 2721, col: 11, offset: 86672},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 90952},
+														pos: position{line: 2873, col: 10, offset: 90962},
 														run: (*parser).callonListContinuationElement1308,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 90952},
+															pos:        position{line: 2873, col: 10, offset: 90962},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35353,28 +35408,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2898, col: 8, offset: 91350},
+													pos: position{line: 2895, col: 8, offset: 91360},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91123},
+															pos: position{line: 2882, col: 12, offset: 91133},
 															run: (*parser).callonListContinuationElement1311,
 															expr: &choiceExpr{
-																pos: position{line: 2885, col: 13, offset: 91124},
+																pos: position{line: 2882, col: 13, offset: 91134},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 13, offset: 91124},
+																		pos:        position{line: 2882, col: 13, offset: 91134},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 20, offset: 91131},
+																		pos:        position{line: 2882, col: 20, offset: 91141},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 29, offset: 91140},
+																		pos:        position{line: 2882, col: 29, offset: 91150},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35383,20 +35438,20 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2895, col: 8, offset: 91300},
+															pos: position{line: 2892, col: 8, offset: 91310},
 															expr: &anyMatcher{
-																line: 2895, col: 9, offset: 91301,
+																line: 2892, col: 9, offset: 91311,
 															},
 														},
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2724, col: 22, offset: 86694},
+													pos: position{line: 2721, col: 22, offset: 86683},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 90952},
+														pos: position{line: 2873, col: 10, offset: 90962},
 														run: (*parser).callonListContinuationElement1319,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 90952},
+															pos:        position{line: 2873, col: 10, offset: 90962},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35405,28 +35460,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2898, col: 8, offset: 91350},
+													pos: position{line: 2895, col: 8, offset: 91360},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91123},
+															pos: position{line: 2882, col: 12, offset: 91133},
 															run: (*parser).callonListContinuationElement1322,
 															expr: &choiceExpr{
-																pos: position{line: 2885, col: 13, offset: 91124},
+																pos: position{line: 2882, col: 13, offset: 91134},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 13, offset: 91124},
+																		pos:        position{line: 2882, col: 13, offset: 91134},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 20, offset: 91131},
+																		pos:        position{line: 2882, col: 20, offset: 91141},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 29, offset: 91140},
+																		pos:        position{line: 2882, col: 29, offset: 91150},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35435,9 +35490,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2895, col: 8, offset: 91300},
+															pos: position{line: 2892, col: 8, offset: 91310},
 															expr: &anyMatcher{
-																line: 2895, col: 9, offset: 91301,
+																line: 2892, col: 9, offset: 91311,
 															},
 														},
 													},
@@ -35446,28 +35501,28 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1558, col: 11, offset: 50392},
+										pos:  position{line: 1555, col: 11, offset: 50381},
 										name: "ImageBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2612, col: 5, offset: 83483},
+										pos: position{line: 2609, col: 5, offset: 83472},
 										run: (*parser).callonListContinuationElement1330,
 										expr: &seqExpr{
-											pos: position{line: 2612, col: 5, offset: 83483},
+											pos: position{line: 2609, col: 5, offset: 83472},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2618, col: 19, offset: 83640},
+													pos:        position{line: 2615, col: 19, offset: 83629},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2618, col: 26, offset: 83647},
+													pos: position{line: 2615, col: 26, offset: 83636},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 90952},
+														pos: position{line: 2873, col: 10, offset: 90962},
 														run: (*parser).callonListContinuationElement1334,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 90952},
+															pos:        position{line: 2873, col: 10, offset: 90962},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35476,28 +35531,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2898, col: 8, offset: 91350},
+													pos: position{line: 2895, col: 8, offset: 91360},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91123},
+															pos: position{line: 2882, col: 12, offset: 91133},
 															run: (*parser).callonListContinuationElement1337,
 															expr: &choiceExpr{
-																pos: position{line: 2885, col: 13, offset: 91124},
+																pos: position{line: 2882, col: 13, offset: 91134},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 13, offset: 91124},
+																		pos:        position{line: 2882, col: 13, offset: 91134},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 20, offset: 91131},
+																		pos:        position{line: 2882, col: 20, offset: 91141},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 29, offset: 91140},
+																		pos:        position{line: 2882, col: 29, offset: 91150},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35506,20 +35561,20 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2895, col: 8, offset: 91300},
+															pos: position{line: 2892, col: 8, offset: 91310},
 															expr: &anyMatcher{
-																line: 2895, col: 9, offset: 91301,
+																line: 2892, col: 9, offset: 91311,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2613, col: 5, offset: 83507},
+													pos:   position{line: 2610, col: 5, offset: 83496},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2613, col: 11, offset: 83513},
+														pos: position{line: 2610, col: 11, offset: 83502},
 														expr: &choiceExpr{
-															pos: position{line: 2613, col: 12, offset: 83514},
+															pos: position{line: 2610, col: 12, offset: 83503},
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 677, col: 14, offset: 21558},
@@ -35528,18 +35583,18 @@ var g = &grammar{
 																		pos: position{line: 677, col: 14, offset: 21558},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2893, col: 11, offset: 91286},
+																				pos: position{line: 2890, col: 11, offset: 91296},
 																				expr: &anyMatcher{
-																					line: 2893, col: 13, offset: 91288,
+																					line: 2890, col: 13, offset: 91298,
 																				},
 																			},
 																			&zeroOrMoreExpr{
 																				pos: position{line: 677, col: 21, offset: 21565},
 																				expr: &actionExpr{
-																					pos: position{line: 2876, col: 10, offset: 90952},
+																					pos: position{line: 2873, col: 10, offset: 90962},
 																					run: (*parser).callonListContinuationElement1352,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2876, col: 10, offset: 90952},
+																						pos:        position{line: 2873, col: 10, offset: 90962},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -35548,28 +35603,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2898, col: 8, offset: 91350},
+																				pos: position{line: 2895, col: 8, offset: 91360},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2885, col: 12, offset: 91123},
+																						pos: position{line: 2882, col: 12, offset: 91133},
 																						run: (*parser).callonListContinuationElement1355,
 																						expr: &choiceExpr{
-																							pos: position{line: 2885, col: 13, offset: 91124},
+																							pos: position{line: 2882, col: 13, offset: 91134},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 13, offset: 91124},
+																									pos:        position{line: 2882, col: 13, offset: 91134},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 20, offset: 91131},
+																									pos:        position{line: 2882, col: 20, offset: 91141},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 29, offset: 91140},
+																									pos:        position{line: 2882, col: 29, offset: 91150},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35578,9 +35633,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91300},
+																						pos: position{line: 2892, col: 8, offset: 91310},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91301,
+																							line: 2892, col: 9, offset: 91311,
 																						},
 																					},
 																				},
@@ -35589,32 +35644,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2625, col: 5, offset: 83759},
+																	pos: position{line: 2622, col: 5, offset: 83748},
 																	run: (*parser).callonListContinuationElement1362,
 																	expr: &seqExpr{
-																		pos: position{line: 2625, col: 5, offset: 83759},
+																		pos: position{line: 2622, col: 5, offset: 83748},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2625, col: 5, offset: 83759},
+																				pos: position{line: 2622, col: 5, offset: 83748},
 																				expr: &choiceExpr{
-																					pos: position{line: 2622, col: 22, offset: 83720},
+																					pos: position{line: 2619, col: 22, offset: 83709},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2618, col: 19, offset: 83640},
+																							pos: position{line: 2615, col: 19, offset: 83629},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2618, col: 19, offset: 83640},
+																									pos:        position{line: 2615, col: 19, offset: 83629},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2618, col: 26, offset: 83647},
+																									pos: position{line: 2615, col: 26, offset: 83636},
 																									expr: &actionExpr{
-																										pos: position{line: 2876, col: 10, offset: 90952},
+																										pos: position{line: 2873, col: 10, offset: 90962},
 																										run: (*parser).callonListContinuationElement1369,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2876, col: 10, offset: 90952},
+																											pos:        position{line: 2873, col: 10, offset: 90962},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -35623,28 +35678,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2898, col: 8, offset: 91350},
+																									pos: position{line: 2895, col: 8, offset: 91360},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2885, col: 12, offset: 91123},
+																											pos: position{line: 2882, col: 12, offset: 91133},
 																											run: (*parser).callonListContinuationElement1372,
 																											expr: &choiceExpr{
-																												pos: position{line: 2885, col: 13, offset: 91124},
+																												pos: position{line: 2882, col: 13, offset: 91134},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 13, offset: 91124},
+																														pos:        position{line: 2882, col: 13, offset: 91134},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 20, offset: 91131},
+																														pos:        position{line: 2882, col: 20, offset: 91141},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 29, offset: 91140},
+																														pos:        position{line: 2882, col: 29, offset: 91150},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -35653,9 +35708,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2895, col: 8, offset: 91300},
+																											pos: position{line: 2892, col: 8, offset: 91310},
 																											expr: &anyMatcher{
-																												line: 2895, col: 9, offset: 91301,
+																												line: 2892, col: 9, offset: 91311,
 																											},
 																										},
 																									},
@@ -35663,59 +35718,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2895, col: 8, offset: 91300},
+																							pos: position{line: 2892, col: 8, offset: 91310},
 																							expr: &anyMatcher{
-																								line: 2895, col: 9, offset: 91301,
+																								line: 2892, col: 9, offset: 91311,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2626, col: 5, offset: 83782},
+																				pos:   position{line: 2623, col: 5, offset: 83771},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2627, col: 9, offset: 83800},
+																					pos: position{line: 2624, col: 9, offset: 83789},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2627, col: 10, offset: 83801},
+																							pos: position{line: 2624, col: 10, offset: 83790},
 																							run: (*parser).callonListContinuationElement1383,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2627, col: 10, offset: 83801},
+																								pos:   position{line: 2624, col: 10, offset: 83790},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2627, col: 17, offset: 83808},
+																									pos: position{line: 2624, col: 17, offset: 83797},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2635, col: 21, offset: 84004},
+																											pos: position{line: 2632, col: 21, offset: 83993},
 																											run: (*parser).callonListContinuationElement1386,
 																											expr: &seqExpr{
-																												pos: position{line: 2635, col: 21, offset: 84004},
+																												pos: position{line: 2632, col: 21, offset: 83993},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2635, col: 21, offset: 84004},
+																														pos:   position{line: 2632, col: 21, offset: 83993},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2635, col: 27, offset: 84010},
+																															pos: position{line: 2632, col: 27, offset: 83999},
 																															expr: &actionExpr{
-																																pos: position{line: 2640, col: 5, offset: 84085},
+																																pos: position{line: 2637, col: 5, offset: 84074},
 																																run: (*parser).callonListContinuationElement1390,
 																																expr: &seqExpr{
-																																	pos: position{line: 2640, col: 5, offset: 84085},
+																																	pos: position{line: 2637, col: 5, offset: 84074},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2640, col: 5, offset: 84085},
+																																			pos:        position{line: 2637, col: 5, offset: 84074},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2640, col: 9, offset: 84089},
+																																			pos: position{line: 2637, col: 9, offset: 84078},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2876, col: 10, offset: 90952},
+																																				pos: position{line: 2873, col: 10, offset: 90962},
 																																				run: (*parser).callonListContinuationElement1394,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2876, col: 10, offset: 90952},
+																																					pos:        position{line: 2873, col: 10, offset: 90962},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -35724,21 +35779,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2640, col: 16, offset: 84096},
+																																			pos:   position{line: 2637, col: 16, offset: 84085},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2646, col: 5, offset: 84296},
+																																				pos: position{line: 2643, col: 5, offset: 84285},
 																																				run: (*parser).callonListContinuationElement1397,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2646, col: 5, offset: 84296},
+																																					pos:   position{line: 2643, col: 5, offset: 84285},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2646, col: 14, offset: 84305},
+																																						pos: position{line: 2643, col: 14, offset: 84294},
 																																						run: (*parser).callonListContinuationElement1399,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2646, col: 14, offset: 84305},
+																																							pos: position{line: 2643, col: 14, offset: 84294},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2646, col: 14, offset: 84305},
+																																								pos:        position{line: 2643, col: 14, offset: 84294},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -35755,28 +35810,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2898, col: 8, offset: 91350},
+																														pos: position{line: 2895, col: 8, offset: 91360},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2885, col: 12, offset: 91123},
+																																pos: position{line: 2882, col: 12, offset: 91133},
 																																run: (*parser).callonListContinuationElement1403,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2885, col: 13, offset: 91124},
+																																	pos: position{line: 2882, col: 13, offset: 91134},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2885, col: 13, offset: 91124},
+																																			pos:        position{line: 2882, col: 13, offset: 91134},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2885, col: 20, offset: 91131},
+																																			pos:        position{line: 2882, col: 20, offset: 91141},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2885, col: 29, offset: 91140},
+																																			pos:        position{line: 2882, col: 29, offset: 91150},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -35785,9 +35840,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2895, col: 8, offset: 91300},
+																																pos: position{line: 2892, col: 8, offset: 91310},
 																																expr: &anyMatcher{
-																																	line: 2895, col: 9, offset: 91301,
+																																	line: 2892, col: 9, offset: 91311,
 																																},
 																															},
 																														},
@@ -35796,40 +35851,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2652, col: 24, offset: 84441},
+																											pos: position{line: 2649, col: 24, offset: 84430},
 																											run: (*parser).callonListContinuationElement1410,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2652, col: 24, offset: 84441},
+																												pos:   position{line: 2649, col: 24, offset: 84430},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2652, col: 30, offset: 84447},
+																													pos: position{line: 2649, col: 30, offset: 84436},
 																													expr: &actionExpr{
-																														pos: position{line: 2657, col: 5, offset: 84523},
+																														pos: position{line: 2654, col: 5, offset: 84512},
 																														run: (*parser).callonListContinuationElement1413,
 																														expr: &seqExpr{
-																															pos: position{line: 2657, col: 5, offset: 84523},
+																															pos: position{line: 2654, col: 5, offset: 84512},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2657, col: 5, offset: 84523},
+																																	pos: position{line: 2654, col: 5, offset: 84512},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2622, col: 22, offset: 83720},
+																																		pos: position{line: 2619, col: 22, offset: 83709},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2618, col: 19, offset: 83640},
+																																				pos: position{line: 2615, col: 19, offset: 83629},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2618, col: 19, offset: 83640},
+																																						pos:        position{line: 2615, col: 19, offset: 83629},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2618, col: 26, offset: 83647},
+																																						pos: position{line: 2615, col: 26, offset: 83636},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2876, col: 10, offset: 90952},
+																																							pos: position{line: 2873, col: 10, offset: 90962},
 																																							run: (*parser).callonListContinuationElement1420,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2876, col: 10, offset: 90952},
+																																								pos:        position{line: 2873, col: 10, offset: 90962},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -35838,28 +35893,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2898, col: 8, offset: 91350},
+																																						pos: position{line: 2895, col: 8, offset: 91360},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2885, col: 12, offset: 91123},
+																																								pos: position{line: 2882, col: 12, offset: 91133},
 																																								run: (*parser).callonListContinuationElement1423,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2885, col: 13, offset: 91124},
+																																									pos: position{line: 2882, col: 13, offset: 91134},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2885, col: 13, offset: 91124},
+																																											pos:        position{line: 2882, col: 13, offset: 91134},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2885, col: 20, offset: 91131},
+																																											pos:        position{line: 2882, col: 20, offset: 91141},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2885, col: 29, offset: 91140},
+																																											pos:        position{line: 2882, col: 29, offset: 91150},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -35868,9 +35923,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2895, col: 8, offset: 91300},
+																																								pos: position{line: 2892, col: 8, offset: 91310},
 																																								expr: &anyMatcher{
-																																									line: 2895, col: 9, offset: 91301,
+																																									line: 2892, col: 9, offset: 91311,
 																																								},
 																																							},
 																																						},
@@ -35878,16 +35933,16 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2895, col: 8, offset: 91300},
+																																				pos: position{line: 2892, col: 8, offset: 91310},
 																																				expr: &anyMatcher{
-																																					line: 2895, col: 9, offset: 91301,
+																																					line: 2892, col: 9, offset: 91311,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2658, col: 5, offset: 84546},
+																																	pos: position{line: 2655, col: 5, offset: 84535},
 																																	expr: &actionExpr{
 																																		pos: position{line: 677, col: 14, offset: 21558},
 																																		run: (*parser).callonListContinuationElement1433,
@@ -35895,18 +35950,18 @@ var g = &grammar{
 																																			pos: position{line: 677, col: 14, offset: 21558},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2893, col: 11, offset: 91286},
+																																					pos: position{line: 2890, col: 11, offset: 91296},
 																																					expr: &anyMatcher{
-																																						line: 2893, col: 13, offset: 91288,
+																																						line: 2890, col: 13, offset: 91298,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
 																																					pos: position{line: 677, col: 21, offset: 21565},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2876, col: 10, offset: 90952},
+																																						pos: position{line: 2873, col: 10, offset: 90962},
 																																						run: (*parser).callonListContinuationElement1438,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2876, col: 10, offset: 90952},
+																																							pos:        position{line: 2873, col: 10, offset: 90962},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -35915,28 +35970,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2898, col: 8, offset: 91350},
+																																					pos: position{line: 2895, col: 8, offset: 91360},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2885, col: 12, offset: 91123},
+																																							pos: position{line: 2882, col: 12, offset: 91133},
 																																							run: (*parser).callonListContinuationElement1441,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2885, col: 13, offset: 91124},
+																																								pos: position{line: 2882, col: 13, offset: 91134},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2885, col: 13, offset: 91124},
+																																										pos:        position{line: 2882, col: 13, offset: 91134},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2885, col: 20, offset: 91131},
+																																										pos:        position{line: 2882, col: 20, offset: 91141},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2885, col: 29, offset: 91140},
+																																										pos:        position{line: 2882, col: 29, offset: 91150},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -35945,9 +36000,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2895, col: 8, offset: 91300},
+																																							pos: position{line: 2892, col: 8, offset: 91310},
 																																							expr: &anyMatcher{
-																																								line: 2895, col: 9, offset: 91301,
+																																								line: 2892, col: 9, offset: 91311,
 																																							},
 																																						},
 																																					},
@@ -35957,17 +36012,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2659, col: 5, offset: 84561},
+																																	pos:   position{line: 2656, col: 5, offset: 84550},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2659, col: 12, offset: 84568},
+																																		pos: position{line: 2656, col: 12, offset: 84557},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2676, col: 20, offset: 85032},
+																																			pos: position{line: 2673, col: 20, offset: 85021},
 																																			run: (*parser).callonListContinuationElement1450,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2676, col: 20, offset: 85032},
+																																				pos: position{line: 2673, col: 20, offset: 85021},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2676, col: 20, offset: 85032},
+																																					pos:        position{line: 2673, col: 20, offset: 85021},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -35978,18 +36033,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2659, col: 31, offset: 84587},
+																																	pos:        position{line: 2656, col: 31, offset: 84576},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2659, col: 35, offset: 84591},
+																																	pos: position{line: 2656, col: 35, offset: 84580},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2876, col: 10, offset: 90952},
+																																		pos: position{line: 2873, col: 10, offset: 90962},
 																																		run: (*parser).callonListContinuationElement1455,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2876, col: 10, offset: 90952},
+																																			pos:        position{line: 2873, col: 10, offset: 90962},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -35998,27 +36053,27 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2659, col: 42, offset: 84598},
+																																	pos: position{line: 2656, col: 42, offset: 84587},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2885, col: 12, offset: 91123},
+																																		pos: position{line: 2882, col: 12, offset: 91133},
 																																		run: (*parser).callonListContinuationElement1458,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2885, col: 13, offset: 91124},
+																																			pos: position{line: 2882, col: 13, offset: 91134},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2885, col: 13, offset: 91124},
+																																					pos:        position{line: 2882, col: 13, offset: 91134},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2885, col: 20, offset: 91131},
+																																					pos:        position{line: 2882, col: 20, offset: 91141},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2885, col: 29, offset: 91140},
+																																					pos:        position{line: 2882, col: 29, offset: 91150},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -36028,37 +36083,37 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2659, col: 51, offset: 84607},
+																																	pos:   position{line: 2656, col: 51, offset: 84596},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2665, col: 5, offset: 84766},
+																																		pos: position{line: 2662, col: 5, offset: 84755},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2666, col: 9, offset: 84776},
+																																			pos: position{line: 2663, col: 9, offset: 84765},
 																																			run: (*parser).callonListContinuationElement1465,
 																																			expr: &seqExpr{
-																																				pos: position{line: 2666, col: 9, offset: 84776},
+																																				pos: position{line: 2663, col: 9, offset: 84765},
 																																				exprs: []interface{}{
 																																					&notExpr{
-																																						pos: position{line: 2666, col: 9, offset: 84776},
+																																						pos: position{line: 2663, col: 9, offset: 84765},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2622, col: 22, offset: 83720},
+																																							pos: position{line: 2619, col: 22, offset: 83709},
 																																							alternatives: []interface{}{
 																																								&seqExpr{
-																																									pos: position{line: 2618, col: 19, offset: 83640},
+																																									pos: position{line: 2615, col: 19, offset: 83629},
 																																									exprs: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2618, col: 19, offset: 83640},
+																																											pos:        position{line: 2615, col: 19, offset: 83629},
 																																											val:        "|===",
 																																											ignoreCase: false,
 																																											want:       "\"|===\"",
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 2618, col: 26, offset: 83647},
+																																											pos: position{line: 2615, col: 26, offset: 83636},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2876, col: 10, offset: 90952},
+																																												pos: position{line: 2873, col: 10, offset: 90962},
 																																												run: (*parser).callonListContinuationElement1472,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2876, col: 10, offset: 90952},
+																																													pos:        position{line: 2873, col: 10, offset: 90962},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -36067,28 +36122,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2898, col: 8, offset: 91350},
+																																											pos: position{line: 2895, col: 8, offset: 91360},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2885, col: 12, offset: 91123},
+																																													pos: position{line: 2882, col: 12, offset: 91133},
 																																													run: (*parser).callonListContinuationElement1475,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2885, col: 13, offset: 91124},
+																																														pos: position{line: 2882, col: 13, offset: 91134},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2885, col: 13, offset: 91124},
+																																																pos:        position{line: 2882, col: 13, offset: 91134},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2885, col: 20, offset: 91131},
+																																																pos:        position{line: 2882, col: 20, offset: 91141},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2885, col: 29, offset: 91140},
+																																																pos:        position{line: 2882, col: 29, offset: 91150},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -36097,9 +36152,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2895, col: 8, offset: 91300},
+																																													pos: position{line: 2892, col: 8, offset: 91310},
 																																													expr: &anyMatcher{
-																																														line: 2895, col: 9, offset: 91301,
+																																														line: 2892, col: 9, offset: 91311,
 																																													},
 																																												},
 																																											},
@@ -36107,16 +36162,16 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2895, col: 8, offset: 91300},
+																																									pos: position{line: 2892, col: 8, offset: 91310},
 																																									expr: &anyMatcher{
-																																										line: 2895, col: 9, offset: 91301,
+																																										line: 2892, col: 9, offset: 91311,
 																																									},
 																																								},
 																																							},
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2667, col: 9, offset: 84803},
+																																						pos: position{line: 2664, col: 9, offset: 84792},
 																																						expr: &actionExpr{
 																																							pos: position{line: 677, col: 14, offset: 21558},
 																																							run: (*parser).callonListContinuationElement1485,
@@ -36124,18 +36179,18 @@ var g = &grammar{
 																																								pos: position{line: 677, col: 14, offset: 21558},
 																																								exprs: []interface{}{
 																																									&andExpr{
-																																										pos: position{line: 2893, col: 11, offset: 91286},
+																																										pos: position{line: 2890, col: 11, offset: 91296},
 																																										expr: &anyMatcher{
-																																											line: 2893, col: 13, offset: 91288,
+																																											line: 2890, col: 13, offset: 91298,
 																																										},
 																																									},
 																																									&zeroOrMoreExpr{
 																																										pos: position{line: 677, col: 21, offset: 21565},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2876, col: 10, offset: 90952},
+																																											pos: position{line: 2873, col: 10, offset: 90962},
 																																											run: (*parser).callonListContinuationElement1490,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2876, col: 10, offset: 90952},
+																																												pos:        position{line: 2873, col: 10, offset: 90962},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -36144,28 +36199,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2898, col: 8, offset: 91350},
+																																										pos: position{line: 2895, col: 8, offset: 91360},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2885, col: 12, offset: 91123},
+																																												pos: position{line: 2882, col: 12, offset: 91133},
 																																												run: (*parser).callonListContinuationElement1493,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2885, col: 13, offset: 91124},
+																																													pos: position{line: 2882, col: 13, offset: 91134},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2885, col: 13, offset: 91124},
+																																															pos:        position{line: 2882, col: 13, offset: 91134},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2885, col: 20, offset: 91131},
+																																															pos:        position{line: 2882, col: 20, offset: 91141},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2885, col: 29, offset: 91140},
+																																															pos:        position{line: 2882, col: 29, offset: 91150},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -36174,9 +36229,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2895, col: 8, offset: 91300},
+																																												pos: position{line: 2892, col: 8, offset: 91310},
 																																												expr: &anyMatcher{
-																																													line: 2895, col: 9, offset: 91301,
+																																													line: 2892, col: 9, offset: 91311,
 																																												},
 																																											},
 																																										},
@@ -36186,22 +36241,22 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2668, col: 9, offset: 84822},
+																																						pos: position{line: 2665, col: 9, offset: 84811},
 																																						expr: &seqExpr{
-																																							pos: position{line: 2668, col: 11, offset: 84824},
+																																							pos: position{line: 2665, col: 11, offset: 84813},
 																																							exprs: []interface{}{
 																																								&labeledExpr{
-																																									pos:   position{line: 2668, col: 11, offset: 84824},
+																																									pos:   position{line: 2665, col: 11, offset: 84813},
 																																									label: "format",
 																																									expr: &zeroOrOneExpr{
-																																										pos: position{line: 2668, col: 18, offset: 84831},
+																																										pos: position{line: 2665, col: 18, offset: 84820},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2676, col: 20, offset: 85032},
+																																											pos: position{line: 2673, col: 20, offset: 85021},
 																																											run: (*parser).callonListContinuationElement1504,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2676, col: 20, offset: 85032},
+																																												pos: position{line: 2673, col: 20, offset: 85021},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2676, col: 20, offset: 85032},
+																																													pos:        position{line: 2673, col: 20, offset: 85021},
 																																													val:        "[^ |\\r\\n]",
 																																													chars:      []rune{' ', '|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -36212,7 +36267,7 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&litMatcher{
-																																									pos:        position{line: 2668, col: 37, offset: 84850},
+																																									pos:        position{line: 2665, col: 37, offset: 84839},
 																																									val:        "|",
 																																									ignoreCase: false,
 																																									want:       "\"|\"",
@@ -36221,15 +36276,15 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2669, col: 9, offset: 84863},
+																																						pos:   position{line: 2666, col: 9, offset: 84852},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2669, col: 18, offset: 84872},
+																																							pos: position{line: 2666, col: 18, offset: 84861},
 																																							run: (*parser).callonListContinuationElement1509,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2669, col: 18, offset: 84872},
+																																								pos: position{line: 2666, col: 18, offset: 84861},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2669, col: 18, offset: 84872},
+																																									pos:        position{line: 2666, col: 18, offset: 84861},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -36239,30 +36294,30 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&zeroOrOneExpr{
-																																						pos: position{line: 2671, col: 12, offset: 84934},
+																																						pos: position{line: 2668, col: 12, offset: 84923},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2898, col: 8, offset: 91350},
+																																							pos: position{line: 2895, col: 8, offset: 91360},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2885, col: 12, offset: 91123},
+																																									pos: position{line: 2882, col: 12, offset: 91133},
 																																									run: (*parser).callonListContinuationElement1514,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2885, col: 13, offset: 91124},
+																																										pos: position{line: 2882, col: 13, offset: 91134},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2885, col: 13, offset: 91124},
+																																												pos:        position{line: 2882, col: 13, offset: 91134},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2885, col: 20, offset: 91131},
+																																												pos:        position{line: 2882, col: 20, offset: 91141},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2885, col: 29, offset: 91140},
+																																												pos:        position{line: 2882, col: 29, offset: 91150},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -36271,9 +36326,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2895, col: 8, offset: 91300},
+																																									pos: position{line: 2892, col: 8, offset: 91310},
 																																									expr: &anyMatcher{
-																																										line: 2895, col: 9, offset: 91301,
+																																										line: 2892, col: 9, offset: 91311,
 																																									},
 																																								},
 																																							},
@@ -36301,18 +36356,18 @@ var g = &grammar{
 																								pos: position{line: 677, col: 14, offset: 21558},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2893, col: 11, offset: 91286},
+																										pos: position{line: 2890, col: 11, offset: 91296},
 																										expr: &anyMatcher{
-																											line: 2893, col: 13, offset: 91288,
+																											line: 2890, col: 13, offset: 91298,
 																										},
 																									},
 																									&zeroOrMoreExpr{
 																										pos: position{line: 677, col: 21, offset: 21565},
 																										expr: &actionExpr{
-																											pos: position{line: 2876, col: 10, offset: 90952},
+																											pos: position{line: 2873, col: 10, offset: 90962},
 																											run: (*parser).callonListContinuationElement1526,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2876, col: 10, offset: 90952},
+																												pos:        position{line: 2873, col: 10, offset: 90962},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -36321,28 +36376,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2898, col: 8, offset: 91350},
+																										pos: position{line: 2895, col: 8, offset: 91360},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2885, col: 12, offset: 91123},
+																												pos: position{line: 2882, col: 12, offset: 91133},
 																												run: (*parser).callonListContinuationElement1529,
 																												expr: &choiceExpr{
-																													pos: position{line: 2885, col: 13, offset: 91124},
+																													pos: position{line: 2882, col: 13, offset: 91134},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2885, col: 13, offset: 91124},
+																															pos:        position{line: 2882, col: 13, offset: 91134},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2885, col: 20, offset: 91131},
+																															pos:        position{line: 2882, col: 20, offset: 91141},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2885, col: 29, offset: 91140},
+																															pos:        position{line: 2882, col: 29, offset: 91150},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -36351,9 +36406,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2895, col: 8, offset: 91300},
+																												pos: position{line: 2892, col: 8, offset: 91310},
 																												expr: &anyMatcher{
-																													line: 2895, col: 9, offset: 91301,
+																													line: 2892, col: 9, offset: 91311,
 																												},
 																											},
 																										},
@@ -36372,24 +36427,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2622, col: 22, offset: 83720},
+													pos: position{line: 2619, col: 22, offset: 83709},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2618, col: 19, offset: 83640},
+															pos: position{line: 2615, col: 19, offset: 83629},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2618, col: 19, offset: 83640},
+																	pos:        position{line: 2615, col: 19, offset: 83629},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2618, col: 26, offset: 83647},
+																	pos: position{line: 2615, col: 26, offset: 83636},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 90952},
+																		pos: position{line: 2873, col: 10, offset: 90962},
 																		run: (*parser).callonListContinuationElement1540,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 90952},
+																			pos:        position{line: 2873, col: 10, offset: 90962},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -36398,28 +36453,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91350},
+																	pos: position{line: 2895, col: 8, offset: 91360},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91123},
+																			pos: position{line: 2882, col: 12, offset: 91133},
 																			run: (*parser).callonListContinuationElement1543,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91124},
+																				pos: position{line: 2882, col: 13, offset: 91134},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91124},
+																						pos:        position{line: 2882, col: 13, offset: 91134},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91131},
+																						pos:        position{line: 2882, col: 20, offset: 91141},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91140},
+																						pos:        position{line: 2882, col: 29, offset: 91150},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36428,9 +36483,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91300},
+																			pos: position{line: 2892, col: 8, offset: 91310},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91301,
+																				line: 2892, col: 9, offset: 91311,
 																			},
 																		},
 																	},
@@ -36438,9 +36493,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2895, col: 8, offset: 91300},
+															pos: position{line: 2892, col: 8, offset: 91310},
 															expr: &anyMatcher{
-																line: 2895, col: 9, offset: 91301,
+																line: 2892, col: 9, offset: 91311,
 															},
 														},
 													},
@@ -36449,36 +36504,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2483, col: 22, offset: 79859},
+										pos: position{line: 2480, col: 22, offset: 79848},
 										run: (*parser).callonListContinuationElement1552,
 										expr: &seqExpr{
-											pos: position{line: 2483, col: 22, offset: 79859},
+											pos: position{line: 2480, col: 22, offset: 79848},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2488, col: 31, offset: 80080},
+													pos:        position{line: 2485, col: 31, offset: 80069},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2488, col: 36, offset: 80085},
+													pos: position{line: 2485, col: 36, offset: 80074},
 													expr: &litMatcher{
-														pos:        position{line: 2488, col: 37, offset: 80086},
+														pos:        position{line: 2485, col: 37, offset: 80075},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2483, col: 49, offset: 79886},
+													pos:   position{line: 2480, col: 49, offset: 79875},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2822, col: 13, offset: 89478},
+														pos: position{line: 2819, col: 13, offset: 89488},
 														run: (*parser).callonListContinuationElement1558,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2822, col: 13, offset: 89478},
+															pos: position{line: 2819, col: 13, offset: 89488},
 															expr: &charClassMatcher{
-																pos:        position{line: 2822, col: 13, offset: 89478},
+																pos:        position{line: 2819, col: 13, offset: 89488},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -36488,28 +36543,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2898, col: 8, offset: 91350},
+													pos: position{line: 2895, col: 8, offset: 91360},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91123},
+															pos: position{line: 2882, col: 12, offset: 91133},
 															run: (*parser).callonListContinuationElement1562,
 															expr: &choiceExpr{
-																pos: position{line: 2885, col: 13, offset: 91124},
+																pos: position{line: 2882, col: 13, offset: 91134},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 13, offset: 91124},
+																		pos:        position{line: 2882, col: 13, offset: 91134},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 20, offset: 91131},
+																		pos:        position{line: 2882, col: 20, offset: 91141},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 29, offset: 91140},
+																		pos:        position{line: 2882, col: 29, offset: 91150},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36518,9 +36573,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2895, col: 8, offset: 91300},
+															pos: position{line: 2892, col: 8, offset: 91310},
 															expr: &anyMatcher{
-																line: 2895, col: 9, offset: 91301,
+																line: 2892, col: 9, offset: 91311,
 															},
 														},
 													},
@@ -36529,94 +36584,94 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1571, col: 5, offset: 50822},
+										pos: position{line: 1568, col: 5, offset: 50811},
 										run: (*parser).callonListContinuationElement1569,
 										expr: &seqExpr{
-											pos: position{line: 1571, col: 5, offset: 50822},
+											pos: position{line: 1568, col: 5, offset: 50811},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1571, col: 5, offset: 50822},
+													pos:   position{line: 1568, col: 5, offset: 50811},
 													label: "style",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1571, col: 11, offset: 50828},
+														pos: position{line: 1568, col: 11, offset: 50817},
 														expr: &actionExpr{
-															pos: position{line: 1736, col: 5, offset: 56177},
+															pos: position{line: 1733, col: 5, offset: 56166},
 															run: (*parser).callonListContinuationElement1573,
 															expr: &seqExpr{
-																pos: position{line: 1736, col: 5, offset: 56177},
+																pos: position{line: 1733, col: 5, offset: 56166},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1736, col: 5, offset: 56177},
+																		pos: position{line: 1733, col: 5, offset: 56166},
 																		run: (*parser).callonListContinuationElement1575,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1739, col: 5, offset: 56240},
+																		pos:   position{line: 1736, col: 5, offset: 56229},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1739, col: 12, offset: 56247},
+																			pos: position{line: 1736, col: 12, offset: 56236},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1739, col: 12, offset: 56247},
+																					pos: position{line: 1736, col: 12, offset: 56236},
 																					run: (*parser).callonListContinuationElement1578,
 																					expr: &litMatcher{
-																						pos:        position{line: 1739, col: 12, offset: 56247},
+																						pos:        position{line: 1736, col: 12, offset: 56236},
 																						val:        "TIP: ",
 																						ignoreCase: false,
 																						want:       "\"TIP: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1741, col: 13, offset: 56303},
+																					pos: position{line: 1738, col: 13, offset: 56292},
 																					run: (*parser).callonListContinuationElement1580,
 																					expr: &litMatcher{
-																						pos:        position{line: 1741, col: 13, offset: 56303},
+																						pos:        position{line: 1738, col: 13, offset: 56292},
 																						val:        "NOTE: ",
 																						ignoreCase: false,
 																						want:       "\"NOTE: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1743, col: 13, offset: 56361},
+																					pos: position{line: 1740, col: 13, offset: 56350},
 																					run: (*parser).callonListContinuationElement1582,
 																					expr: &litMatcher{
-																						pos:        position{line: 1743, col: 13, offset: 56361},
+																						pos:        position{line: 1740, col: 13, offset: 56350},
 																						val:        "IMPORTANT: ",
 																						ignoreCase: false,
 																						want:       "\"IMPORTANT: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1745, col: 13, offset: 56429},
+																					pos: position{line: 1742, col: 13, offset: 56418},
 																					run: (*parser).callonListContinuationElement1584,
 																					expr: &litMatcher{
-																						pos:        position{line: 1745, col: 13, offset: 56429},
+																						pos:        position{line: 1742, col: 13, offset: 56418},
 																						val:        "WARNING: ",
 																						ignoreCase: false,
 																						want:       "\"WARNING: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1747, col: 13, offset: 56493},
+																					pos: position{line: 1744, col: 13, offset: 56482},
 																					run: (*parser).callonListContinuationElement1586,
 																					expr: &litMatcher{
-																						pos:        position{line: 1747, col: 13, offset: 56493},
+																						pos:        position{line: 1744, col: 13, offset: 56482},
 																						val:        "CAUTION: ",
 																						ignoreCase: false,
 																						want:       "\"CAUTION: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1749, col: 13, offset: 56557},
+																					pos: position{line: 1746, col: 13, offset: 56546},
 																					run: (*parser).callonListContinuationElement1588,
 																					expr: &andExpr{
-																						pos: position{line: 1749, col: 13, offset: 56557},
+																						pos: position{line: 1746, col: 13, offset: 56546},
 																						expr: &actionExpr{
-																							pos: position{line: 2880, col: 11, offset: 91013},
+																							pos: position{line: 2877, col: 11, offset: 91023},
 																							run: (*parser).callonListContinuationElement1590,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2880, col: 11, offset: 91013},
+																								pos: position{line: 2877, col: 11, offset: 91023},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 11, offset: 91013},
+																									pos:        position{line: 2877, col: 11, offset: 91023},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36630,17 +36685,17 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1751, col: 12, offset: 56627},
+																		pos: position{line: 1748, col: 12, offset: 56616},
 																		expr: &seqExpr{
-																			pos: position{line: 1751, col: 14, offset: 56629},
+																			pos: position{line: 1748, col: 14, offset: 56618},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1751, col: 14, offset: 56629},
+																					pos: position{line: 1748, col: 14, offset: 56618},
 																					expr: &actionExpr{
-																						pos: position{line: 2876, col: 10, offset: 90952},
+																						pos: position{line: 2873, col: 10, offset: 90962},
 																						run: (*parser).callonListContinuationElement1596,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2876, col: 10, offset: 90952},
+																							pos:        position{line: 2873, col: 10, offset: 90962},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36649,28 +36704,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2898, col: 8, offset: 91350},
+																					pos: position{line: 2895, col: 8, offset: 91360},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2885, col: 12, offset: 91123},
+																							pos: position{line: 2882, col: 12, offset: 91133},
 																							run: (*parser).callonListContinuationElement1599,
 																							expr: &choiceExpr{
-																								pos: position{line: 2885, col: 13, offset: 91124},
+																								pos: position{line: 2882, col: 13, offset: 91134},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 13, offset: 91124},
+																										pos:        position{line: 2882, col: 13, offset: 91134},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 20, offset: 91131},
+																										pos:        position{line: 2882, col: 20, offset: 91141},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 29, offset: 91140},
+																										pos:        position{line: 2882, col: 29, offset: 91150},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -36679,9 +36734,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2895, col: 8, offset: 91300},
+																							pos: position{line: 2892, col: 8, offset: 91310},
 																							expr: &anyMatcher{
-																								line: 2895, col: 9, offset: 91301,
+																								line: 2892, col: 9, offset: 91311,
 																							},
 																						},
 																					},
@@ -36695,16 +36750,16 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1572, col: 5, offset: 50851},
+													pos:   position{line: 1569, col: 5, offset: 50840},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1515, col: 5, offset: 49201},
+														pos: position{line: 1512, col: 5, offset: 49190},
 														run: (*parser).callonListContinuationElement1607,
 														expr: &seqExpr{
-															pos: position{line: 1515, col: 5, offset: 49201},
+															pos: position{line: 1512, col: 5, offset: 49190},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1515, col: 5, offset: 49201},
+																	pos: position{line: 1512, col: 5, offset: 49190},
 																	expr: &actionExpr{
 																		pos: position{line: 677, col: 14, offset: 21558},
 																		run: (*parser).callonListContinuationElement1610,
@@ -36712,18 +36767,18 @@ var g = &grammar{
 																			pos: position{line: 677, col: 14, offset: 21558},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2893, col: 11, offset: 91286},
+																					pos: position{line: 2890, col: 11, offset: 91296},
 																					expr: &anyMatcher{
-																						line: 2893, col: 13, offset: 91288,
+																						line: 2890, col: 13, offset: 91298,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21565},
 																					expr: &actionExpr{
-																						pos: position{line: 2876, col: 10, offset: 90952},
+																						pos: position{line: 2873, col: 10, offset: 90962},
 																						run: (*parser).callonListContinuationElement1615,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2876, col: 10, offset: 90952},
+																							pos:        position{line: 2873, col: 10, offset: 90962},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36732,28 +36787,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2898, col: 8, offset: 91350},
+																					pos: position{line: 2895, col: 8, offset: 91360},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2885, col: 12, offset: 91123},
+																							pos: position{line: 2882, col: 12, offset: 91133},
 																							run: (*parser).callonListContinuationElement1618,
 																							expr: &choiceExpr{
-																								pos: position{line: 2885, col: 13, offset: 91124},
+																								pos: position{line: 2882, col: 13, offset: 91134},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 13, offset: 91124},
+																										pos:        position{line: 2882, col: 13, offset: 91134},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 20, offset: 91131},
+																										pos:        position{line: 2882, col: 20, offset: 91141},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 29, offset: 91140},
+																										pos:        position{line: 2882, col: 29, offset: 91150},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -36762,9 +36817,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2895, col: 8, offset: 91300},
+																							pos: position{line: 2892, col: 8, offset: 91310},
 																							expr: &anyMatcher{
-																								line: 2895, col: 9, offset: 91301,
+																								line: 2892, col: 9, offset: 91311,
 																							},
 																						},
 																					},
@@ -36774,23 +36829,23 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1516, col: 5, offset: 49216},
+																	pos: position{line: 1513, col: 5, offset: 49205},
 																	expr: &seqExpr{
-																		pos: position{line: 1546, col: 27, offset: 50042},
+																		pos: position{line: 1543, col: 27, offset: 50031},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1546, col: 27, offset: 50042},
+																				pos:        position{line: 1543, col: 27, offset: 50031},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 1546, col: 31, offset: 50046},
+																				pos: position{line: 1543, col: 31, offset: 50035},
 																				expr: &actionExpr{
-																					pos: position{line: 2876, col: 10, offset: 90952},
+																					pos: position{line: 2873, col: 10, offset: 90962},
 																					run: (*parser).callonListContinuationElement1629,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2876, col: 10, offset: 90952},
+																						pos:        position{line: 2873, col: 10, offset: 90962},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -36799,25 +36854,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91123},
+																				pos: position{line: 2882, col: 12, offset: 91133},
 																				run: (*parser).callonListContinuationElement1631,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91124},
+																					pos: position{line: 2882, col: 13, offset: 91134},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91124},
+																							pos:        position{line: 2882, col: 13, offset: 91134},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91131},
+																							pos:        position{line: 2882, col: 20, offset: 91141},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91140},
+																							pos:        position{line: 2882, col: 29, offset: 91150},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -36829,20 +36884,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1517, col: 5, offset: 49244},
+																	pos: position{line: 1514, col: 5, offset: 49233},
 																	expr: &actionExpr{
-																		pos: position{line: 1587, col: 5, offset: 51261},
+																		pos: position{line: 1584, col: 5, offset: 51250},
 																		run: (*parser).callonListContinuationElement1637,
 																		expr: &seqExpr{
-																			pos: position{line: 1587, col: 5, offset: 51261},
+																			pos: position{line: 1584, col: 5, offset: 51250},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1587, col: 5, offset: 51261},
+																					pos: position{line: 1584, col: 5, offset: 51250},
 																					expr: &actionExpr{
-																						pos: position{line: 2876, col: 10, offset: 90952},
+																						pos: position{line: 2873, col: 10, offset: 90962},
 																						run: (*parser).callonListContinuationElement1640,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2876, col: 10, offset: 90952},
+																							pos:        position{line: 2873, col: 10, offset: 90962},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36851,27 +36906,27 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1587, col: 12, offset: 51268},
+																					pos:   position{line: 1584, col: 12, offset: 51257},
 																					label: "prefix",
 																					expr: &choiceExpr{
-																						pos: position{line: 1589, col: 9, offset: 51331},
+																						pos: position{line: 1586, col: 9, offset: 51320},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 1589, col: 9, offset: 51331},
+																								pos: position{line: 1586, col: 9, offset: 51320},
 																								run: (*parser).callonListContinuationElement1644,
 																								expr: &seqExpr{
-																									pos: position{line: 1589, col: 9, offset: 51331},
+																									pos: position{line: 1586, col: 9, offset: 51320},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 1589, col: 9, offset: 51331},
+																											pos:   position{line: 1586, col: 9, offset: 51320},
 																											label: "depth",
 																											expr: &actionExpr{
-																												pos: position{line: 1589, col: 16, offset: 51338},
+																												pos: position{line: 1586, col: 16, offset: 51327},
 																												run: (*parser).callonListContinuationElement1647,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1589, col: 16, offset: 51338},
+																													pos: position{line: 1586, col: 16, offset: 51327},
 																													expr: &litMatcher{
-																														pos:        position{line: 1589, col: 17, offset: 51339},
+																														pos:        position{line: 1586, col: 17, offset: 51328},
 																														val:        ".",
 																														ignoreCase: false,
 																														want:       "\".\"",
@@ -36880,22 +36935,22 @@ var g = &grammar{
 																											},
 																										},
 																										&andCodeExpr{
-																											pos: position{line: 1593, col: 9, offset: 51439},
+																											pos: position{line: 1590, col: 9, offset: 51428},
 																											run: (*parser).callonListContinuationElement1650,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1612, col: 11, offset: 52156},
+																								pos: position{line: 1609, col: 11, offset: 52145},
 																								run: (*parser).callonListContinuationElement1651,
 																								expr: &seqExpr{
-																									pos: position{line: 1612, col: 11, offset: 52156},
+																									pos: position{line: 1609, col: 11, offset: 52145},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1612, col: 11, offset: 52156},
+																											pos: position{line: 1609, col: 11, offset: 52145},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1612, col: 12, offset: 52157},
+																												pos:        position{line: 1609, col: 12, offset: 52146},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -36903,7 +36958,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1612, col: 20, offset: 52165},
+																											pos:        position{line: 1609, col: 20, offset: 52154},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -36912,20 +36967,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1614, col: 13, offset: 52282},
+																								pos: position{line: 1611, col: 13, offset: 52271},
 																								run: (*parser).callonListContinuationElement1656,
 																								expr: &seqExpr{
-																									pos: position{line: 1614, col: 13, offset: 52282},
+																									pos: position{line: 1611, col: 13, offset: 52271},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1614, col: 14, offset: 52283},
+																											pos:        position{line: 1611, col: 14, offset: 52272},
 																											val:        "[a-z]",
 																											ranges:     []rune{'a', 'z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1614, col: 21, offset: 52290},
+																											pos:        position{line: 1611, col: 21, offset: 52279},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -36934,20 +36989,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1616, col: 13, offset: 52410},
+																								pos: position{line: 1613, col: 13, offset: 52399},
 																								run: (*parser).callonListContinuationElement1660,
 																								expr: &seqExpr{
-																									pos: position{line: 1616, col: 13, offset: 52410},
+																									pos: position{line: 1613, col: 13, offset: 52399},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1616, col: 14, offset: 52411},
+																											pos:        position{line: 1613, col: 14, offset: 52400},
 																											val:        "[A-Z]",
 																											ranges:     []rune{'A', 'Z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1616, col: 21, offset: 52418},
+																											pos:        position{line: 1613, col: 21, offset: 52407},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -36956,15 +37011,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1618, col: 13, offset: 52538},
+																								pos: position{line: 1615, col: 13, offset: 52527},
 																								run: (*parser).callonListContinuationElement1664,
 																								expr: &seqExpr{
-																									pos: position{line: 1618, col: 13, offset: 52538},
+																									pos: position{line: 1615, col: 13, offset: 52527},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1618, col: 13, offset: 52538},
+																											pos: position{line: 1615, col: 13, offset: 52527},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1618, col: 14, offset: 52539},
+																												pos:        position{line: 1615, col: 14, offset: 52528},
 																												val:        "[ivxdlcm]",
 																												chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																												ignoreCase: false,
@@ -36972,7 +37027,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1618, col: 26, offset: 52551},
+																											pos:        position{line: 1615, col: 26, offset: 52540},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -36981,15 +37036,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1620, col: 13, offset: 52671},
+																								pos: position{line: 1617, col: 13, offset: 52660},
 																								run: (*parser).callonListContinuationElement1669,
 																								expr: &seqExpr{
-																									pos: position{line: 1620, col: 13, offset: 52671},
+																									pos: position{line: 1617, col: 13, offset: 52660},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1620, col: 13, offset: 52671},
+																											pos: position{line: 1617, col: 13, offset: 52660},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1620, col: 14, offset: 52672},
+																												pos:        position{line: 1617, col: 14, offset: 52661},
 																												val:        "[IVXDLCM]",
 																												chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																												ignoreCase: false,
@@ -36997,7 +37052,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1620, col: 26, offset: 52684},
+																											pos:        position{line: 1617, col: 26, offset: 52673},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -37009,12 +37064,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2880, col: 11, offset: 91013},
+																					pos: position{line: 2877, col: 11, offset: 91023},
 																					run: (*parser).callonListContinuationElement1674,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2880, col: 11, offset: 91013},
+																						pos: position{line: 2877, col: 11, offset: 91023},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2880, col: 11, offset: 91013},
+																							pos:        position{line: 2877, col: 11, offset: 91023},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37027,20 +37082,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1518, col: 5, offset: 49274},
+																	pos: position{line: 1515, col: 5, offset: 49263},
 																	expr: &actionExpr{
-																		pos: position{line: 1637, col: 5, offset: 53223},
+																		pos: position{line: 1634, col: 5, offset: 53212},
 																		run: (*parser).callonListContinuationElement1678,
 																		expr: &seqExpr{
-																			pos: position{line: 1637, col: 5, offset: 53223},
+																			pos: position{line: 1634, col: 5, offset: 53212},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1637, col: 5, offset: 53223},
+																					pos: position{line: 1634, col: 5, offset: 53212},
 																					expr: &actionExpr{
-																						pos: position{line: 2876, col: 10, offset: 90952},
+																						pos: position{line: 2873, col: 10, offset: 90962},
 																						run: (*parser).callonListContinuationElement1681,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2876, col: 10, offset: 90952},
+																							pos:        position{line: 2873, col: 10, offset: 90962},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37049,24 +37104,24 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1638, col: 5, offset: 53235},
+																					pos:   position{line: 1635, col: 5, offset: 53224},
 																					label: "style",
 																					expr: &actionExpr{
-																						pos: position{line: 1639, col: 9, offset: 53251},
+																						pos: position{line: 1636, col: 9, offset: 53240},
 																						run: (*parser).callonListContinuationElement1684,
 																						expr: &choiceExpr{
-																							pos: position{line: 1639, col: 10, offset: 53252},
+																							pos: position{line: 1636, col: 10, offset: 53241},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1639, col: 11, offset: 53253},
+																									pos:        position{line: 1636, col: 11, offset: 53242},
 																									val:        "-",
 																									ignoreCase: false,
 																									want:       "\"-\"",
 																								},
 																								&oneOrMoreExpr{
-																									pos: position{line: 1639, col: 18, offset: 53260},
+																									pos: position{line: 1636, col: 18, offset: 53249},
 																									expr: &litMatcher{
-																										pos:        position{line: 1639, col: 19, offset: 53261},
+																										pos:        position{line: 1636, col: 19, offset: 53250},
 																										val:        "*",
 																										ignoreCase: false,
 																										want:       "\"*\"",
@@ -37077,16 +37132,16 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1642, col: 7, offset: 53351},
+																					pos: position{line: 1639, col: 7, offset: 53340},
 																					run: (*parser).callonListContinuationElement1689,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2880, col: 11, offset: 91013},
+																					pos: position{line: 2877, col: 11, offset: 91023},
 																					run: (*parser).callonListContinuationElement1690,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2880, col: 11, offset: 91013},
+																						pos: position{line: 2877, col: 11, offset: 91023},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2880, col: 11, offset: 91013},
+																							pos:        position{line: 2877, col: 11, offset: 91023},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37099,29 +37154,29 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1519, col: 5, offset: 49306},
+																	pos: position{line: 1516, col: 5, offset: 49295},
 																	expr: &actionExpr{
-																		pos: position{line: 1727, col: 5, offset: 55792},
+																		pos: position{line: 1724, col: 5, offset: 55781},
 																		run: (*parser).callonListContinuationElement1694,
 																		expr: &seqExpr{
-																			pos: position{line: 1727, col: 5, offset: 55792},
+																			pos: position{line: 1724, col: 5, offset: 55781},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1727, col: 5, offset: 55792},
+																					pos:        position{line: 1724, col: 5, offset: 55781},
 																					val:        "<",
 																					ignoreCase: false,
 																					want:       "\"<\"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1727, col: 9, offset: 55796},
+																					pos:   position{line: 1724, col: 9, offset: 55785},
 																					label: "ref",
 																					expr: &actionExpr{
-																						pos: position{line: 1727, col: 14, offset: 55801},
+																						pos: position{line: 1724, col: 14, offset: 55790},
 																						run: (*parser).callonListContinuationElement1698,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 1727, col: 14, offset: 55801},
+																							pos: position{line: 1724, col: 14, offset: 55790},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1727, col: 14, offset: 55801},
+																								pos:        position{line: 1724, col: 14, offset: 55790},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -37131,18 +37186,18 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 1727, col: 62, offset: 55849},
+																					pos:        position{line: 1724, col: 62, offset: 55838},
 																					val:        ">",
 																					ignoreCase: false,
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2880, col: 11, offset: 91013},
+																					pos: position{line: 2877, col: 11, offset: 91023},
 																					run: (*parser).callonListContinuationElement1702,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2880, col: 11, offset: 91013},
+																						pos: position{line: 2877, col: 11, offset: 91023},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2880, col: 11, offset: 91013},
+																							pos:        position{line: 2877, col: 11, offset: 91023},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37155,31 +37210,31 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1520, col: 5, offset: 49336},
+																	pos: position{line: 1517, col: 5, offset: 49325},
 																	expr: &seqExpr{
-																		pos: position{line: 1520, col: 7, offset: 49338},
+																		pos: position{line: 1517, col: 7, offset: 49327},
 																		exprs: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1672, col: 5, offset: 54242},
+																				pos: position{line: 1669, col: 5, offset: 54231},
 																				run: (*parser).callonListContinuationElement1707,
 																				expr: &seqExpr{
-																					pos: position{line: 1672, col: 5, offset: 54242},
+																					pos: position{line: 1669, col: 5, offset: 54231},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1672, col: 5, offset: 54242},
+																							pos: position{line: 1669, col: 5, offset: 54231},
 																							expr: &seqExpr{
-																								pos: position{line: 2488, col: 31, offset: 80080},
+																								pos: position{line: 2485, col: 31, offset: 80069},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2488, col: 31, offset: 80080},
+																										pos:        position{line: 2485, col: 31, offset: 80069},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2488, col: 36, offset: 80085},
+																										pos: position{line: 2485, col: 36, offset: 80074},
 																										expr: &litMatcher{
-																											pos:        position{line: 2488, col: 37, offset: 80086},
+																											pos:        position{line: 2485, col: 37, offset: 80075},
 																											val:        "//",
 																											ignoreCase: false,
 																											want:       "\"//\"",
@@ -37189,28 +37244,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1673, col: 5, offset: 54274},
+																							pos: position{line: 1670, col: 5, offset: 54263},
 																							expr: &seqExpr{
-																								pos: position{line: 1673, col: 6, offset: 54275},
+																								pos: position{line: 1670, col: 6, offset: 54264},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1673, col: 6, offset: 54275},
+																										pos: position{line: 1670, col: 6, offset: 54264},
 																										expr: &actionExpr{
-																											pos: position{line: 1678, col: 5, offset: 54425},
+																											pos: position{line: 1675, col: 5, offset: 54414},
 																											run: (*parser).callonListContinuationElement1717,
 																											expr: &seqExpr{
-																												pos: position{line: 1678, col: 5, offset: 54425},
+																												pos: position{line: 1675, col: 5, offset: 54414},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1678, col: 5, offset: 54425},
+																														pos:   position{line: 1675, col: 5, offset: 54414},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1678, col: 16, offset: 54436},
+																															pos: position{line: 1675, col: 16, offset: 54425},
 																															run: (*parser).callonListContinuationElement1720,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1678, col: 16, offset: 54436},
+																																pos: position{line: 1675, col: 16, offset: 54425},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1678, col: 17, offset: 54437},
+																																	pos:        position{line: 1675, col: 17, offset: 54426},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -37219,7 +37274,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1681, col: 5, offset: 54494},
+																														pos: position{line: 1678, col: 5, offset: 54483},
 																														run: (*parser).callonListContinuationElement1723,
 																													},
 																												},
@@ -37227,30 +37282,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1673, col: 35, offset: 54304},
+																										pos: position{line: 1670, col: 35, offset: 54293},
 																										expr: &choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91350},
+																											pos: position{line: 2895, col: 8, offset: 91360},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91123},
+																													pos: position{line: 2882, col: 12, offset: 91133},
 																													run: (*parser).callonListContinuationElement1726,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91124},
+																														pos: position{line: 2882, col: 13, offset: 91134},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91124},
+																																pos:        position{line: 2882, col: 13, offset: 91134},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91131},
+																																pos:        position{line: 2882, col: 20, offset: 91141},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91140},
+																																pos:        position{line: 2882, col: 29, offset: 91150},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37259,16 +37314,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91300},
+																													pos: position{line: 2892, col: 8, offset: 91310},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91301,
+																														line: 2892, col: 9, offset: 91311,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1673, col: 40, offset: 54309,
+																										line: 1670, col: 40, offset: 54298,
 																									},
 																								},
 																							},
@@ -37277,21 +37332,21 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1678, col: 5, offset: 54425},
+																				pos: position{line: 1675, col: 5, offset: 54414},
 																				run: (*parser).callonListContinuationElement1734,
 																				expr: &seqExpr{
-																					pos: position{line: 1678, col: 5, offset: 54425},
+																					pos: position{line: 1675, col: 5, offset: 54414},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1678, col: 5, offset: 54425},
+																							pos:   position{line: 1675, col: 5, offset: 54414},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1678, col: 16, offset: 54436},
+																								pos: position{line: 1675, col: 16, offset: 54425},
 																								run: (*parser).callonListContinuationElement1737,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1678, col: 16, offset: 54436},
+																									pos: position{line: 1675, col: 16, offset: 54425},
 																									expr: &litMatcher{
-																										pos:        position{line: 1678, col: 17, offset: 54437},
+																										pos:        position{line: 1675, col: 17, offset: 54426},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -37300,7 +37355,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1681, col: 5, offset: 54494},
+																							pos: position{line: 1678, col: 5, offset: 54483},
 																							run: (*parser).callonListContinuationElement1740,
 																						},
 																					},
@@ -37310,7 +37365,7 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1521, col: 5, offset: 49394},
+																	pos: position{line: 1518, col: 5, offset: 49383},
 																	expr: &actionExpr{
 																		pos: position{line: 724, col: 5, offset: 23111},
 																		run: (*parser).callonListContinuationElement1742,
@@ -37320,7 +37375,7 @@ var g = &grammar{
 																				&notExpr{
 																					pos: position{line: 724, col: 5, offset: 23111},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2766, col: 13, offset: 88047},
+																						pos:        position{line: 2763, col: 13, offset: 88036},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -37370,10 +37425,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 742, col: 8, offset: 23755},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 90952},
+																												pos: position{line: 2873, col: 10, offset: 90962},
 																												run: (*parser).callonListContinuationElement1757,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 90952},
+																													pos:        position{line: 2873, col: 10, offset: 90962},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37382,28 +37437,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91350},
+																											pos: position{line: 2895, col: 8, offset: 91360},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91123},
+																													pos: position{line: 2882, col: 12, offset: 91133},
 																													run: (*parser).callonListContinuationElement1760,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91124},
+																														pos: position{line: 2882, col: 13, offset: 91134},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91124},
+																																pos:        position{line: 2882, col: 13, offset: 91134},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91131},
+																																pos:        position{line: 2882, col: 20, offset: 91141},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91140},
+																																pos:        position{line: 2882, col: 29, offset: 91150},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37412,9 +37467,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91300},
+																													pos: position{line: 2892, col: 8, offset: 91310},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91301,
+																														line: 2892, col: 9, offset: 91311,
 																													},
 																												},
 																											},
@@ -37459,10 +37514,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 749, col: 8, offset: 24003},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 90952},
+																												pos: position{line: 2873, col: 10, offset: 90962},
 																												run: (*parser).callonListContinuationElement1776,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 90952},
+																													pos:        position{line: 2873, col: 10, offset: 90962},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37471,28 +37526,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91350},
+																											pos: position{line: 2895, col: 8, offset: 91360},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91123},
+																													pos: position{line: 2882, col: 12, offset: 91133},
 																													run: (*parser).callonListContinuationElement1779,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91124},
+																														pos: position{line: 2882, col: 13, offset: 91134},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91124},
+																																pos:        position{line: 2882, col: 13, offset: 91134},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91131},
+																																pos:        position{line: 2882, col: 20, offset: 91141},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91140},
+																																pos:        position{line: 2882, col: 29, offset: 91150},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37501,9 +37556,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91300},
+																													pos: position{line: 2892, col: 8, offset: 91310},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91301,
+																														line: 2892, col: 9, offset: 91311,
 																													},
 																												},
 																											},
@@ -37544,10 +37599,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 760, col: 52, offset: 24415},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 90952},
+																												pos: position{line: 2873, col: 10, offset: 90962},
 																												run: (*parser).callonListContinuationElement1794,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 90952},
+																													pos:        position{line: 2873, col: 10, offset: 90962},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37556,28 +37611,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91350},
+																											pos: position{line: 2895, col: 8, offset: 91360},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91123},
+																													pos: position{line: 2882, col: 12, offset: 91133},
 																													run: (*parser).callonListContinuationElement1797,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91124},
+																														pos: position{line: 2882, col: 13, offset: 91134},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91124},
+																																pos:        position{line: 2882, col: 13, offset: 91134},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91131},
+																																pos:        position{line: 2882, col: 20, offset: 91141},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91140},
+																																pos:        position{line: 2882, col: 29, offset: 91150},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37586,9 +37641,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91300},
+																													pos: position{line: 2892, col: 8, offset: 91310},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91301,
+																														line: 2892, col: 9, offset: 91311,
 																													},
 																												},
 																											},
@@ -37633,10 +37688,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 756, col: 8, offset: 24249},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 90952},
+																												pos: position{line: 2873, col: 10, offset: 90962},
 																												run: (*parser).callonListContinuationElement1813,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 90952},
+																													pos:        position{line: 2873, col: 10, offset: 90962},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37645,28 +37700,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91350},
+																											pos: position{line: 2895, col: 8, offset: 91360},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91123},
+																													pos: position{line: 2882, col: 12, offset: 91133},
 																													run: (*parser).callonListContinuationElement1816,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91124},
+																														pos: position{line: 2882, col: 13, offset: 91134},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91124},
+																																pos:        position{line: 2882, col: 13, offset: 91134},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91131},
+																																pos:        position{line: 2882, col: 20, offset: 91141},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91140},
+																																pos:        position{line: 2882, col: 29, offset: 91150},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37675,9 +37730,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91300},
+																													pos: position{line: 2892, col: 8, offset: 91310},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91301,
+																														line: 2892, col: 9, offset: 91311,
 																													},
 																												},
 																											},
@@ -37722,10 +37777,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 771, col: 8, offset: 24792},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 90952},
+																												pos: position{line: 2873, col: 10, offset: 90962},
 																												run: (*parser).callonListContinuationElement1832,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 90952},
+																													pos:        position{line: 2873, col: 10, offset: 90962},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37734,28 +37789,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91350},
+																											pos: position{line: 2895, col: 8, offset: 91360},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91123},
+																													pos: position{line: 2882, col: 12, offset: 91133},
 																													run: (*parser).callonListContinuationElement1835,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91124},
+																														pos: position{line: 2882, col: 13, offset: 91134},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91124},
+																																pos:        position{line: 2882, col: 13, offset: 91134},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91131},
+																																pos:        position{line: 2882, col: 20, offset: 91141},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91140},
+																																pos:        position{line: 2882, col: 29, offset: 91150},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37764,9 +37819,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91300},
+																													pos: position{line: 2892, col: 8, offset: 91310},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91301,
+																														line: 2892, col: 9, offset: 91311,
 																													},
 																												},
 																											},
@@ -37811,10 +37866,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 785, col: 8, offset: 25268},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 90952},
+																												pos: position{line: 2873, col: 10, offset: 90962},
 																												run: (*parser).callonListContinuationElement1851,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 90952},
+																													pos:        position{line: 2873, col: 10, offset: 90962},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37823,28 +37878,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91350},
+																											pos: position{line: 2895, col: 8, offset: 91360},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91123},
+																													pos: position{line: 2882, col: 12, offset: 91133},
 																													run: (*parser).callonListContinuationElement1854,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91124},
+																														pos: position{line: 2882, col: 13, offset: 91134},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91124},
+																																pos:        position{line: 2882, col: 13, offset: 91134},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91131},
+																																pos:        position{line: 2882, col: 20, offset: 91141},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91140},
+																																pos:        position{line: 2882, col: 29, offset: 91150},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37853,9 +37908,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91300},
+																													pos: position{line: 2892, col: 8, offset: 91310},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91301,
+																														line: 2892, col: 9, offset: 91311,
 																													},
 																												},
 																											},
@@ -37900,10 +37955,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 792, col: 8, offset: 25520},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 90952},
+																												pos: position{line: 2873, col: 10, offset: 90962},
 																												run: (*parser).callonListContinuationElement1870,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 90952},
+																													pos:        position{line: 2873, col: 10, offset: 90962},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37912,28 +37967,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91350},
+																											pos: position{line: 2895, col: 8, offset: 91360},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91123},
+																													pos: position{line: 2882, col: 12, offset: 91133},
 																													run: (*parser).callonListContinuationElement1873,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91124},
+																														pos: position{line: 2882, col: 13, offset: 91134},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91124},
+																																pos:        position{line: 2882, col: 13, offset: 91134},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91131},
+																																pos:        position{line: 2882, col: 20, offset: 91141},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91140},
+																																pos:        position{line: 2882, col: 29, offset: 91150},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37942,9 +37997,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91300},
+																													pos: position{line: 2892, col: 8, offset: 91310},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91301,
+																														line: 2892, col: 9, offset: 91311,
 																													},
 																												},
 																											},
@@ -37989,10 +38044,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 799, col: 8, offset: 25770},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 90952},
+																												pos: position{line: 2873, col: 10, offset: 90962},
 																												run: (*parser).callonListContinuationElement1889,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 90952},
+																													pos:        position{line: 2873, col: 10, offset: 90962},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38001,28 +38056,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91350},
+																											pos: position{line: 2895, col: 8, offset: 91360},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91123},
+																													pos: position{line: 2882, col: 12, offset: 91133},
 																													run: (*parser).callonListContinuationElement1892,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91124},
+																														pos: position{line: 2882, col: 13, offset: 91134},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91124},
+																																pos:        position{line: 2882, col: 13, offset: 91134},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91131},
+																																pos:        position{line: 2882, col: 20, offset: 91141},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91140},
+																																pos:        position{line: 2882, col: 29, offset: 91150},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38031,9 +38086,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91300},
+																													pos: position{line: 2892, col: 8, offset: 91310},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91301,
+																														line: 2892, col: 9, offset: 91311,
 																													},
 																												},
 																											},
@@ -38078,10 +38133,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 806, col: 8, offset: 26016},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 90952},
+																												pos: position{line: 2873, col: 10, offset: 90962},
 																												run: (*parser).callonListContinuationElement1908,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 90952},
+																													pos:        position{line: 2873, col: 10, offset: 90962},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38090,28 +38145,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91350},
+																											pos: position{line: 2895, col: 8, offset: 91360},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91123},
+																													pos: position{line: 2882, col: 12, offset: 91133},
 																													run: (*parser).callonListContinuationElement1911,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91124},
+																														pos: position{line: 2882, col: 13, offset: 91134},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91124},
+																																pos:        position{line: 2882, col: 13, offset: 91134},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91131},
+																																pos:        position{line: 2882, col: 20, offset: 91141},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91140},
+																																pos:        position{line: 2882, col: 29, offset: 91150},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38120,9 +38175,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91300},
+																													pos: position{line: 2892, col: 8, offset: 91310},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91301,
+																														line: 2892, col: 9, offset: 91311,
 																													},
 																												},
 																											},
@@ -38138,15 +38193,15 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1522, col: 5, offset: 49414},
+																	pos:   position{line: 1519, col: 5, offset: 49403},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2826, col: 14, offset: 89545},
+																		pos: position{line: 2823, col: 14, offset: 89555},
 																		run: (*parser).callonListContinuationElement1919,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2826, col: 14, offset: 89545},
+																			pos: position{line: 2823, col: 14, offset: 89555},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2826, col: 14, offset: 89545},
+																				pos:        position{line: 2823, col: 14, offset: 89555},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -38156,28 +38211,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91350},
+																	pos: position{line: 2895, col: 8, offset: 91360},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91123},
+																			pos: position{line: 2882, col: 12, offset: 91133},
 																			run: (*parser).callonListContinuationElement1923,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91124},
+																				pos: position{line: 2882, col: 13, offset: 91134},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91124},
+																						pos:        position{line: 2882, col: 13, offset: 91134},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91131},
+																						pos:        position{line: 2882, col: 20, offset: 91141},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91140},
+																						pos:        position{line: 2882, col: 29, offset: 91150},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -38186,9 +38241,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91300},
+																			pos: position{line: 2892, col: 8, offset: 91310},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91301,
+																				line: 2892, col: 9, offset: 91311,
 																			},
 																		},
 																	},
@@ -38209,33 +38264,33 @@ var g = &grammar{
 		},
 		{
 			name: "Callout",
-			pos:  position{line: 1711, col: 1, offset: 55286},
+			pos:  position{line: 1708, col: 1, offset: 55275},
 			expr: &actionExpr{
-				pos: position{line: 1713, col: 5, offset: 55364},
+				pos: position{line: 1710, col: 5, offset: 55353},
 				run: (*parser).callonCallout1,
 				expr: &seqExpr{
-					pos: position{line: 1713, col: 5, offset: 55364},
+					pos: position{line: 1710, col: 5, offset: 55353},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1713, col: 5, offset: 55364},
+							pos: position{line: 1710, col: 5, offset: 55353},
 							run: (*parser).callonCallout3,
 						},
 						&litMatcher{
-							pos:        position{line: 1716, col: 5, offset: 55431},
+							pos:        position{line: 1713, col: 5, offset: 55420},
 							val:        "<",
 							ignoreCase: false,
 							want:       "\"<\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1716, col: 9, offset: 55435},
+							pos:   position{line: 1713, col: 9, offset: 55424},
 							label: "ref",
 							expr: &actionExpr{
-								pos: position{line: 1716, col: 14, offset: 55440},
+								pos: position{line: 1713, col: 14, offset: 55429},
 								run: (*parser).callonCallout6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1716, col: 14, offset: 55440},
+									pos: position{line: 1713, col: 14, offset: 55429},
 									expr: &charClassMatcher{
-										pos:        position{line: 1716, col: 14, offset: 55440},
+										pos:        position{line: 1713, col: 14, offset: 55429},
 										val:        "[0-9]",
 										ranges:     []rune{'0', '9'},
 										ignoreCase: false,
@@ -38245,18 +38300,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1716, col: 62, offset: 55488},
+							pos:        position{line: 1713, col: 62, offset: 55477},
 							val:        ">",
 							ignoreCase: false,
 							want:       "\">\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1716, col: 66, offset: 55492},
+							pos: position{line: 1713, col: 66, offset: 55481},
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 10, offset: 90952},
+								pos: position{line: 2873, col: 10, offset: 90962},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2876, col: 10, offset: 90952},
+									pos:        position{line: 2873, col: 10, offset: 90962},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -38265,30 +38320,30 @@ var g = &grammar{
 							},
 						},
 						&andExpr{
-							pos: position{line: 1716, col: 73, offset: 55499},
+							pos: position{line: 1713, col: 73, offset: 55488},
 							expr: &choiceExpr{
-								pos: position{line: 1716, col: 75, offset: 55501},
+								pos: position{line: 1713, col: 75, offset: 55490},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2885, col: 12, offset: 91123},
+										pos: position{line: 2882, col: 12, offset: 91133},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2885, col: 13, offset: 91124},
+											pos: position{line: 2882, col: 13, offset: 91134},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2885, col: 13, offset: 91124},
+													pos:        position{line: 2882, col: 13, offset: 91134},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2885, col: 20, offset: 91131},
+													pos:        position{line: 2882, col: 20, offset: 91141},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2885, col: 29, offset: 91140},
+													pos:        position{line: 2882, col: 29, offset: 91150},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -38297,13 +38352,13 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2895, col: 8, offset: 91300},
+										pos: position{line: 2892, col: 8, offset: 91310},
 										expr: &anyMatcher{
-											line: 2895, col: 9, offset: 91301,
+											line: 2892, col: 9, offset: 91311,
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1716, col: 81, offset: 55507},
+										pos:  position{line: 1713, col: 81, offset: 55496},
 										name: "Callout",
 									},
 								},
@@ -38315,44 +38370,44 @@ var g = &grammar{
 		},
 		{
 			name: "ShortcutParagraph",
-			pos:  position{line: 1755, col: 1, offset: 56684},
+			pos:  position{line: 1752, col: 1, offset: 56673},
 			expr: &actionExpr{
-				pos: position{line: 1757, col: 5, offset: 56758},
+				pos: position{line: 1754, col: 5, offset: 56747},
 				run: (*parser).callonShortcutParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1757, col: 5, offset: 56758},
+					pos: position{line: 1754, col: 5, offset: 56747},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 1757, col: 5, offset: 56758},
+							pos: position{line: 1754, col: 5, offset: 56747},
 							expr: &seqExpr{
-								pos: position{line: 1757, col: 7, offset: 56760},
+								pos: position{line: 1754, col: 7, offset: 56749},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2766, col: 13, offset: 88047},
+										pos:        position{line: 2763, col: 13, offset: 88036},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
 										inverted:   false,
 									},
 									&notExpr{
-										pos: position{line: 1757, col: 16, offset: 56769},
+										pos: position{line: 1754, col: 16, offset: 56758},
 										expr: &seqExpr{
-											pos: position{line: 1757, col: 18, offset: 56771},
+											pos: position{line: 1754, col: 18, offset: 56760},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 1757, col: 19, offset: 56772},
+													pos:        position{line: 1754, col: 19, offset: 56761},
 													val:        "[.)]",
 													chars:      []rune{'.', ')'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2880, col: 11, offset: 91013},
+													pos: position{line: 2877, col: 11, offset: 91023},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2880, col: 11, offset: 91013},
+														pos: position{line: 2877, col: 11, offset: 91023},
 														expr: &charClassMatcher{
-															pos:        position{line: 2880, col: 11, offset: 91013},
+															pos:        position{line: 2877, col: 11, offset: 91023},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -38367,88 +38422,88 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1758, col: 5, offset: 56912},
+							pos:   position{line: 1755, col: 5, offset: 56901},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1758, col: 11, offset: 56918},
+								pos: position{line: 1755, col: 11, offset: 56907},
 								expr: &actionExpr{
-									pos: position{line: 1736, col: 5, offset: 56177},
+									pos: position{line: 1733, col: 5, offset: 56166},
 									run: (*parser).callonShortcutParagraph14,
 									expr: &seqExpr{
-										pos: position{line: 1736, col: 5, offset: 56177},
+										pos: position{line: 1733, col: 5, offset: 56166},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1736, col: 5, offset: 56177},
+												pos: position{line: 1733, col: 5, offset: 56166},
 												run: (*parser).callonShortcutParagraph16,
 											},
 											&labeledExpr{
-												pos:   position{line: 1739, col: 5, offset: 56240},
+												pos:   position{line: 1736, col: 5, offset: 56229},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1739, col: 12, offset: 56247},
+													pos: position{line: 1736, col: 12, offset: 56236},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1739, col: 12, offset: 56247},
+															pos: position{line: 1736, col: 12, offset: 56236},
 															run: (*parser).callonShortcutParagraph19,
 															expr: &litMatcher{
-																pos:        position{line: 1739, col: 12, offset: 56247},
+																pos:        position{line: 1736, col: 12, offset: 56236},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1741, col: 13, offset: 56303},
+															pos: position{line: 1738, col: 13, offset: 56292},
 															run: (*parser).callonShortcutParagraph21,
 															expr: &litMatcher{
-																pos:        position{line: 1741, col: 13, offset: 56303},
+																pos:        position{line: 1738, col: 13, offset: 56292},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1743, col: 13, offset: 56361},
+															pos: position{line: 1740, col: 13, offset: 56350},
 															run: (*parser).callonShortcutParagraph23,
 															expr: &litMatcher{
-																pos:        position{line: 1743, col: 13, offset: 56361},
+																pos:        position{line: 1740, col: 13, offset: 56350},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1745, col: 13, offset: 56429},
+															pos: position{line: 1742, col: 13, offset: 56418},
 															run: (*parser).callonShortcutParagraph25,
 															expr: &litMatcher{
-																pos:        position{line: 1745, col: 13, offset: 56429},
+																pos:        position{line: 1742, col: 13, offset: 56418},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1747, col: 13, offset: 56493},
+															pos: position{line: 1744, col: 13, offset: 56482},
 															run: (*parser).callonShortcutParagraph27,
 															expr: &litMatcher{
-																pos:        position{line: 1747, col: 13, offset: 56493},
+																pos:        position{line: 1744, col: 13, offset: 56482},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1749, col: 13, offset: 56557},
+															pos: position{line: 1746, col: 13, offset: 56546},
 															run: (*parser).callonShortcutParagraph29,
 															expr: &andExpr{
-																pos: position{line: 1749, col: 13, offset: 56557},
+																pos: position{line: 1746, col: 13, offset: 56546},
 																expr: &actionExpr{
-																	pos: position{line: 2880, col: 11, offset: 91013},
+																	pos: position{line: 2877, col: 11, offset: 91023},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2880, col: 11, offset: 91013},
+																		pos: position{line: 2877, col: 11, offset: 91023},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 11, offset: 91013},
+																			pos:        position{line: 2877, col: 11, offset: 91023},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -38462,17 +38517,17 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1751, col: 12, offset: 56627},
+												pos: position{line: 1748, col: 12, offset: 56616},
 												expr: &seqExpr{
-													pos: position{line: 1751, col: 14, offset: 56629},
+													pos: position{line: 1748, col: 14, offset: 56618},
 													exprs: []interface{}{
 														&zeroOrMoreExpr{
-															pos: position{line: 1751, col: 14, offset: 56629},
+															pos: position{line: 1748, col: 14, offset: 56618},
 															expr: &actionExpr{
-																pos: position{line: 2876, col: 10, offset: 90952},
+																pos: position{line: 2873, col: 10, offset: 90962},
 																run: (*parser).callonShortcutParagraph37,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2876, col: 10, offset: 90952},
+																	pos:        position{line: 2873, col: 10, offset: 90962},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -38481,28 +38536,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2898, col: 8, offset: 91350},
+															pos: position{line: 2895, col: 8, offset: 91360},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2885, col: 12, offset: 91123},
+																	pos: position{line: 2882, col: 12, offset: 91133},
 																	run: (*parser).callonShortcutParagraph40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2885, col: 13, offset: 91124},
+																		pos: position{line: 2882, col: 13, offset: 91134},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2885, col: 13, offset: 91124},
+																				pos:        position{line: 2882, col: 13, offset: 91134},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2885, col: 20, offset: 91131},
+																				pos:        position{line: 2882, col: 20, offset: 91141},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2885, col: 29, offset: 91140},
+																				pos:        position{line: 2882, col: 29, offset: 91150},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -38511,9 +38566,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2895, col: 8, offset: 91300},
+																	pos: position{line: 2892, col: 8, offset: 91310},
 																	expr: &anyMatcher{
-																		line: 2895, col: 9, offset: 91301,
+																		line: 2892, col: 9, offset: 91311,
 																	},
 																},
 															},
@@ -38527,24 +38582,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1759, col: 5, offset: 56940},
+							pos:   position{line: 1756, col: 5, offset: 56929},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1795, col: 5, offset: 58047},
+								pos: position{line: 1792, col: 5, offset: 58036},
 								run: (*parser).callonShortcutParagraph48,
 								expr: &seqExpr{
-									pos: position{line: 1795, col: 5, offset: 58047},
+									pos: position{line: 1792, col: 5, offset: 58036},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1795, col: 5, offset: 58047},
+											pos:   position{line: 1792, col: 5, offset: 58036},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2826, col: 14, offset: 89545},
+												pos: position{line: 2823, col: 14, offset: 89555},
 												run: (*parser).callonShortcutParagraph51,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2826, col: 14, offset: 89545},
+													pos: position{line: 2823, col: 14, offset: 89555},
 													expr: &charClassMatcher{
-														pos:        position{line: 2826, col: 14, offset: 89545},
+														pos:        position{line: 2823, col: 14, offset: 89555},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -38554,32 +38609,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1796, col: 5, offset: 58071},
+											pos: position{line: 1793, col: 5, offset: 58060},
 											run: (*parser).callonShortcutParagraph54,
 										},
 										&choiceExpr{
-											pos: position{line: 2898, col: 8, offset: 91350},
+											pos: position{line: 2895, col: 8, offset: 91360},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2885, col: 12, offset: 91123},
+													pos: position{line: 2882, col: 12, offset: 91133},
 													run: (*parser).callonShortcutParagraph56,
 													expr: &choiceExpr{
-														pos: position{line: 2885, col: 13, offset: 91124},
+														pos: position{line: 2882, col: 13, offset: 91134},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2885, col: 13, offset: 91124},
+																pos:        position{line: 2882, col: 13, offset: 91134},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2885, col: 20, offset: 91131},
+																pos:        position{line: 2882, col: 20, offset: 91141},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2885, col: 29, offset: 91140},
+																pos:        position{line: 2882, col: 29, offset: 91150},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -38588,9 +38643,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2895, col: 8, offset: 91300},
+													pos: position{line: 2892, col: 8, offset: 91310},
 													expr: &anyMatcher{
-														line: 2895, col: 9, offset: 91301,
+														line: 2892, col: 9, offset: 91311,
 													},
 												},
 											},
@@ -38600,28 +38655,28 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1760, col: 5, offset: 56974},
+							pos: position{line: 1757, col: 5, offset: 56963},
 							run: (*parser).callonShortcutParagraph63,
 						},
 						&labeledExpr{
-							pos:   position{line: 1767, col: 5, offset: 57304},
+							pos:   position{line: 1764, col: 5, offset: 57293},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1767, col: 16, offset: 57315},
+								pos: position{line: 1764, col: 16, offset: 57304},
 								expr: &actionExpr{
-									pos: position{line: 1768, col: 9, offset: 57325},
+									pos: position{line: 1765, col: 9, offset: 57314},
 									run: (*parser).callonShortcutParagraph66,
 									expr: &seqExpr{
-										pos: position{line: 1768, col: 9, offset: 57325},
+										pos: position{line: 1765, col: 9, offset: 57314},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2893, col: 11, offset: 91286},
+												pos: position{line: 2890, col: 11, offset: 91296},
 												expr: &anyMatcher{
-													line: 2893, col: 13, offset: 91288,
+													line: 2890, col: 13, offset: 91298,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1769, col: 9, offset: 57341},
+												pos: position{line: 1766, col: 9, offset: 57330},
 												expr: &actionExpr{
 													pos: position{line: 677, col: 14, offset: 21558},
 													run: (*parser).callonShortcutParagraph71,
@@ -38629,18 +38684,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21558},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2893, col: 11, offset: 91286},
+																pos: position{line: 2890, col: 11, offset: 91296},
 																expr: &anyMatcher{
-																	line: 2893, col: 13, offset: 91288,
+																	line: 2890, col: 13, offset: 91298,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21565},
 																expr: &actionExpr{
-																	pos: position{line: 2876, col: 10, offset: 90952},
+																	pos: position{line: 2873, col: 10, offset: 90962},
 																	run: (*parser).callonShortcutParagraph76,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2876, col: 10, offset: 90952},
+																		pos:        position{line: 2873, col: 10, offset: 90962},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -38649,28 +38704,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2898, col: 8, offset: 91350},
+																pos: position{line: 2895, col: 8, offset: 91360},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2885, col: 12, offset: 91123},
+																		pos: position{line: 2882, col: 12, offset: 91133},
 																		run: (*parser).callonShortcutParagraph79,
 																		expr: &choiceExpr{
-																			pos: position{line: 2885, col: 13, offset: 91124},
+																			pos: position{line: 2882, col: 13, offset: 91134},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 13, offset: 91124},
+																					pos:        position{line: 2882, col: 13, offset: 91134},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 20, offset: 91131},
+																					pos:        position{line: 2882, col: 20, offset: 91141},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 29, offset: 91140},
+																					pos:        position{line: 2882, col: 29, offset: 91150},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -38679,9 +38734,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91300},
+																		pos: position{line: 2892, col: 8, offset: 91310},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91301,
+																			line: 2892, col: 9, offset: 91311,
 																		},
 																	},
 																},
@@ -38691,14 +38746,14 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1770, col: 9, offset: 57360},
+												pos: position{line: 1767, col: 9, offset: 57349},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1770, col: 10, offset: 57361},
+													pos:  position{line: 1767, col: 10, offset: 57350},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1771, col: 9, offset: 57385},
+												pos: position{line: 1768, col: 9, offset: 57374},
 												expr: &actionExpr{
 													pos: position{line: 724, col: 5, offset: 23111},
 													run: (*parser).callonShortcutParagraph89,
@@ -38708,7 +38763,7 @@ var g = &grammar{
 															&notExpr{
 																pos: position{line: 724, col: 5, offset: 23111},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2766, col: 13, offset: 88047},
+																	pos:        position{line: 2763, col: 13, offset: 88036},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -38758,10 +38813,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 742, col: 8, offset: 23755},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 90952},
+																							pos: position{line: 2873, col: 10, offset: 90962},
 																							run: (*parser).callonShortcutParagraph104,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 90952},
+																								pos:        position{line: 2873, col: 10, offset: 90962},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38770,28 +38825,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91350},
+																						pos: position{line: 2895, col: 8, offset: 91360},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91123},
+																								pos: position{line: 2882, col: 12, offset: 91133},
 																								run: (*parser).callonShortcutParagraph107,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91124},
+																									pos: position{line: 2882, col: 13, offset: 91134},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91124},
+																											pos:        position{line: 2882, col: 13, offset: 91134},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91131},
+																											pos:        position{line: 2882, col: 20, offset: 91141},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91140},
+																											pos:        position{line: 2882, col: 29, offset: 91150},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38800,9 +38855,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91300},
+																								pos: position{line: 2892, col: 8, offset: 91310},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91301,
+																									line: 2892, col: 9, offset: 91311,
 																								},
 																							},
 																						},
@@ -38847,10 +38902,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 749, col: 8, offset: 24003},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 90952},
+																							pos: position{line: 2873, col: 10, offset: 90962},
 																							run: (*parser).callonShortcutParagraph123,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 90952},
+																								pos:        position{line: 2873, col: 10, offset: 90962},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38859,28 +38914,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91350},
+																						pos: position{line: 2895, col: 8, offset: 91360},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91123},
+																								pos: position{line: 2882, col: 12, offset: 91133},
 																								run: (*parser).callonShortcutParagraph126,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91124},
+																									pos: position{line: 2882, col: 13, offset: 91134},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91124},
+																											pos:        position{line: 2882, col: 13, offset: 91134},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91131},
+																											pos:        position{line: 2882, col: 20, offset: 91141},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91140},
+																											pos:        position{line: 2882, col: 29, offset: 91150},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38889,9 +38944,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91300},
+																								pos: position{line: 2892, col: 8, offset: 91310},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91301,
+																									line: 2892, col: 9, offset: 91311,
 																								},
 																							},
 																						},
@@ -38932,10 +38987,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 760, col: 52, offset: 24415},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 90952},
+																							pos: position{line: 2873, col: 10, offset: 90962},
 																							run: (*parser).callonShortcutParagraph141,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 90952},
+																								pos:        position{line: 2873, col: 10, offset: 90962},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38944,28 +38999,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91350},
+																						pos: position{line: 2895, col: 8, offset: 91360},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91123},
+																								pos: position{line: 2882, col: 12, offset: 91133},
 																								run: (*parser).callonShortcutParagraph144,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91124},
+																									pos: position{line: 2882, col: 13, offset: 91134},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91124},
+																											pos:        position{line: 2882, col: 13, offset: 91134},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91131},
+																											pos:        position{line: 2882, col: 20, offset: 91141},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91140},
+																											pos:        position{line: 2882, col: 29, offset: 91150},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38974,9 +39029,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91300},
+																								pos: position{line: 2892, col: 8, offset: 91310},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91301,
+																									line: 2892, col: 9, offset: 91311,
 																								},
 																							},
 																						},
@@ -39021,10 +39076,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 756, col: 8, offset: 24249},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 90952},
+																							pos: position{line: 2873, col: 10, offset: 90962},
 																							run: (*parser).callonShortcutParagraph160,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 90952},
+																								pos:        position{line: 2873, col: 10, offset: 90962},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39033,28 +39088,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91350},
+																						pos: position{line: 2895, col: 8, offset: 91360},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91123},
+																								pos: position{line: 2882, col: 12, offset: 91133},
 																								run: (*parser).callonShortcutParagraph163,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91124},
+																									pos: position{line: 2882, col: 13, offset: 91134},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91124},
+																											pos:        position{line: 2882, col: 13, offset: 91134},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91131},
+																											pos:        position{line: 2882, col: 20, offset: 91141},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91140},
+																											pos:        position{line: 2882, col: 29, offset: 91150},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39063,9 +39118,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91300},
+																								pos: position{line: 2892, col: 8, offset: 91310},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91301,
+																									line: 2892, col: 9, offset: 91311,
 																								},
 																							},
 																						},
@@ -39110,10 +39165,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 771, col: 8, offset: 24792},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 90952},
+																							pos: position{line: 2873, col: 10, offset: 90962},
 																							run: (*parser).callonShortcutParagraph179,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 90952},
+																								pos:        position{line: 2873, col: 10, offset: 90962},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39122,28 +39177,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91350},
+																						pos: position{line: 2895, col: 8, offset: 91360},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91123},
+																								pos: position{line: 2882, col: 12, offset: 91133},
 																								run: (*parser).callonShortcutParagraph182,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91124},
+																									pos: position{line: 2882, col: 13, offset: 91134},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91124},
+																											pos:        position{line: 2882, col: 13, offset: 91134},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91131},
+																											pos:        position{line: 2882, col: 20, offset: 91141},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91140},
+																											pos:        position{line: 2882, col: 29, offset: 91150},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39152,9 +39207,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91300},
+																								pos: position{line: 2892, col: 8, offset: 91310},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91301,
+																									line: 2892, col: 9, offset: 91311,
 																								},
 																							},
 																						},
@@ -39199,10 +39254,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 785, col: 8, offset: 25268},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 90952},
+																							pos: position{line: 2873, col: 10, offset: 90962},
 																							run: (*parser).callonShortcutParagraph198,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 90952},
+																								pos:        position{line: 2873, col: 10, offset: 90962},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39211,28 +39266,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91350},
+																						pos: position{line: 2895, col: 8, offset: 91360},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91123},
+																								pos: position{line: 2882, col: 12, offset: 91133},
 																								run: (*parser).callonShortcutParagraph201,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91124},
+																									pos: position{line: 2882, col: 13, offset: 91134},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91124},
+																											pos:        position{line: 2882, col: 13, offset: 91134},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91131},
+																											pos:        position{line: 2882, col: 20, offset: 91141},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91140},
+																											pos:        position{line: 2882, col: 29, offset: 91150},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39241,9 +39296,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91300},
+																								pos: position{line: 2892, col: 8, offset: 91310},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91301,
+																									line: 2892, col: 9, offset: 91311,
 																								},
 																							},
 																						},
@@ -39288,10 +39343,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 792, col: 8, offset: 25520},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 90952},
+																							pos: position{line: 2873, col: 10, offset: 90962},
 																							run: (*parser).callonShortcutParagraph217,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 90952},
+																								pos:        position{line: 2873, col: 10, offset: 90962},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39300,28 +39355,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91350},
+																						pos: position{line: 2895, col: 8, offset: 91360},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91123},
+																								pos: position{line: 2882, col: 12, offset: 91133},
 																								run: (*parser).callonShortcutParagraph220,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91124},
+																									pos: position{line: 2882, col: 13, offset: 91134},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91124},
+																											pos:        position{line: 2882, col: 13, offset: 91134},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91131},
+																											pos:        position{line: 2882, col: 20, offset: 91141},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91140},
+																											pos:        position{line: 2882, col: 29, offset: 91150},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39330,9 +39385,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91300},
+																								pos: position{line: 2892, col: 8, offset: 91310},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91301,
+																									line: 2892, col: 9, offset: 91311,
 																								},
 																							},
 																						},
@@ -39377,10 +39432,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 799, col: 8, offset: 25770},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 90952},
+																							pos: position{line: 2873, col: 10, offset: 90962},
 																							run: (*parser).callonShortcutParagraph236,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 90952},
+																								pos:        position{line: 2873, col: 10, offset: 90962},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39389,28 +39444,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91350},
+																						pos: position{line: 2895, col: 8, offset: 91360},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91123},
+																								pos: position{line: 2882, col: 12, offset: 91133},
 																								run: (*parser).callonShortcutParagraph239,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91124},
+																									pos: position{line: 2882, col: 13, offset: 91134},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91124},
+																											pos:        position{line: 2882, col: 13, offset: 91134},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91131},
+																											pos:        position{line: 2882, col: 20, offset: 91141},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91140},
+																											pos:        position{line: 2882, col: 29, offset: 91150},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39419,9 +39474,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91300},
+																								pos: position{line: 2892, col: 8, offset: 91310},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91301,
+																									line: 2892, col: 9, offset: 91311,
 																								},
 																							},
 																						},
@@ -39466,10 +39521,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 806, col: 8, offset: 26016},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 90952},
+																							pos: position{line: 2873, col: 10, offset: 90962},
 																							run: (*parser).callonShortcutParagraph255,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 90952},
+																								pos:        position{line: 2873, col: 10, offset: 90962},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39478,28 +39533,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91350},
+																						pos: position{line: 2895, col: 8, offset: 91360},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91123},
+																								pos: position{line: 2882, col: 12, offset: 91133},
 																								run: (*parser).callonShortcutParagraph258,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91124},
+																									pos: position{line: 2882, col: 13, offset: 91134},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91124},
+																											pos:        position{line: 2882, col: 13, offset: 91134},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91131},
+																											pos:        position{line: 2882, col: 20, offset: 91141},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91140},
+																											pos:        position{line: 2882, col: 29, offset: 91150},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39508,9 +39563,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91300},
+																								pos: position{line: 2892, col: 8, offset: 91310},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91301,
+																									line: 2892, col: 9, offset: 91311,
 																								},
 																							},
 																						},
@@ -39526,23 +39581,23 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1772, col: 9, offset: 57409},
+												pos: position{line: 1769, col: 9, offset: 57398},
 												expr: &seqExpr{
-													pos: position{line: 1546, col: 27, offset: 50042},
+													pos: position{line: 1543, col: 27, offset: 50031},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 1546, col: 27, offset: 50042},
+															pos:        position{line: 1543, col: 27, offset: 50031},
 															val:        "+",
 															ignoreCase: false,
 															want:       "\"+\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 1546, col: 31, offset: 50046},
+															pos: position{line: 1543, col: 31, offset: 50035},
 															expr: &actionExpr{
-																pos: position{line: 2876, col: 10, offset: 90952},
+																pos: position{line: 2873, col: 10, offset: 90962},
 																run: (*parser).callonShortcutParagraph269,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2876, col: 10, offset: 90952},
+																	pos:        position{line: 2873, col: 10, offset: 90962},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -39551,25 +39606,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91123},
+															pos: position{line: 2882, col: 12, offset: 91133},
 															run: (*parser).callonShortcutParagraph271,
 															expr: &choiceExpr{
-																pos: position{line: 2885, col: 13, offset: 91124},
+																pos: position{line: 2882, col: 13, offset: 91134},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 13, offset: 91124},
+																		pos:        position{line: 2882, col: 13, offset: 91134},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 20, offset: 91131},
+																		pos:        position{line: 2882, col: 20, offset: 91141},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 29, offset: 91140},
+																		pos:        position{line: 2882, col: 29, offset: 91150},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -39581,42 +39636,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1773, col: 9, offset: 57441},
+												pos:   position{line: 1770, col: 9, offset: 57430},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1773, col: 15, offset: 57447},
+													pos: position{line: 1770, col: 15, offset: 57436},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2483, col: 22, offset: 79859},
+															pos: position{line: 2480, col: 22, offset: 79848},
 															run: (*parser).callonShortcutParagraph278,
 															expr: &seqExpr{
-																pos: position{line: 2483, col: 22, offset: 79859},
+																pos: position{line: 2480, col: 22, offset: 79848},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2488, col: 31, offset: 80080},
+																		pos:        position{line: 2485, col: 31, offset: 80069},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2488, col: 36, offset: 80085},
+																		pos: position{line: 2485, col: 36, offset: 80074},
 																		expr: &litMatcher{
-																			pos:        position{line: 2488, col: 37, offset: 80086},
+																			pos:        position{line: 2485, col: 37, offset: 80075},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2483, col: 49, offset: 79886},
+																		pos:   position{line: 2480, col: 49, offset: 79875},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2822, col: 13, offset: 89478},
+																			pos: position{line: 2819, col: 13, offset: 89488},
 																			run: (*parser).callonShortcutParagraph284,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2822, col: 13, offset: 89478},
+																				pos: position{line: 2819, col: 13, offset: 89488},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2822, col: 13, offset: 89478},
+																					pos:        position{line: 2819, col: 13, offset: 89488},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39626,28 +39681,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91350},
+																		pos: position{line: 2895, col: 8, offset: 91360},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91123},
+																				pos: position{line: 2882, col: 12, offset: 91133},
 																				run: (*parser).callonShortcutParagraph288,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91124},
+																					pos: position{line: 2882, col: 13, offset: 91134},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91124},
+																							pos:        position{line: 2882, col: 13, offset: 91134},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91131},
+																							pos:        position{line: 2882, col: 20, offset: 91141},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91140},
+																							pos:        position{line: 2882, col: 29, offset: 91150},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39656,9 +39711,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91300},
+																				pos: position{line: 2892, col: 8, offset: 91310},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91301,
+																					line: 2892, col: 9, offset: 91311,
 																				},
 																			},
 																		},
@@ -39667,21 +39722,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1795, col: 5, offset: 58047},
+															pos: position{line: 1792, col: 5, offset: 58036},
 															run: (*parser).callonShortcutParagraph295,
 															expr: &seqExpr{
-																pos: position{line: 1795, col: 5, offset: 58047},
+																pos: position{line: 1792, col: 5, offset: 58036},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1795, col: 5, offset: 58047},
+																		pos:   position{line: 1792, col: 5, offset: 58036},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2826, col: 14, offset: 89545},
+																			pos: position{line: 2823, col: 14, offset: 89555},
 																			run: (*parser).callonShortcutParagraph298,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2826, col: 14, offset: 89545},
+																				pos: position{line: 2823, col: 14, offset: 89555},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2826, col: 14, offset: 89545},
+																					pos:        position{line: 2823, col: 14, offset: 89555},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39691,32 +39746,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1796, col: 5, offset: 58071},
+																		pos: position{line: 1793, col: 5, offset: 58060},
 																		run: (*parser).callonShortcutParagraph301,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91350},
+																		pos: position{line: 2895, col: 8, offset: 91360},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91123},
+																				pos: position{line: 2882, col: 12, offset: 91133},
 																				run: (*parser).callonShortcutParagraph303,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91124},
+																					pos: position{line: 2882, col: 13, offset: 91134},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91124},
+																							pos:        position{line: 2882, col: 13, offset: 91134},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91131},
+																							pos:        position{line: 2882, col: 20, offset: 91141},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91140},
+																							pos:        position{line: 2882, col: 29, offset: 91150},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39725,9 +39780,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91300},
+																				pos: position{line: 2892, col: 8, offset: 91310},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91301,
+																					line: 2892, col: 9, offset: 91311,
 																				},
 																			},
 																		},
@@ -39749,96 +39804,96 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraph",
-			pos:  position{line: 1780, col: 1, offset: 57651},
+			pos:  position{line: 1777, col: 1, offset: 57640},
 			expr: &actionExpr{
-				pos: position{line: 1781, col: 5, offset: 57669},
+				pos: position{line: 1778, col: 5, offset: 57658},
 				run: (*parser).callonParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1781, col: 5, offset: 57669},
+					pos: position{line: 1778, col: 5, offset: 57658},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1781, col: 5, offset: 57669},
+							pos:   position{line: 1778, col: 5, offset: 57658},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1781, col: 11, offset: 57675},
+								pos: position{line: 1778, col: 11, offset: 57664},
 								expr: &actionExpr{
-									pos: position{line: 1736, col: 5, offset: 56177},
+									pos: position{line: 1733, col: 5, offset: 56166},
 									run: (*parser).callonParagraph5,
 									expr: &seqExpr{
-										pos: position{line: 1736, col: 5, offset: 56177},
+										pos: position{line: 1733, col: 5, offset: 56166},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1736, col: 5, offset: 56177},
+												pos: position{line: 1733, col: 5, offset: 56166},
 												run: (*parser).callonParagraph7,
 											},
 											&labeledExpr{
-												pos:   position{line: 1739, col: 5, offset: 56240},
+												pos:   position{line: 1736, col: 5, offset: 56229},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1739, col: 12, offset: 56247},
+													pos: position{line: 1736, col: 12, offset: 56236},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1739, col: 12, offset: 56247},
+															pos: position{line: 1736, col: 12, offset: 56236},
 															run: (*parser).callonParagraph10,
 															expr: &litMatcher{
-																pos:        position{line: 1739, col: 12, offset: 56247},
+																pos:        position{line: 1736, col: 12, offset: 56236},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1741, col: 13, offset: 56303},
+															pos: position{line: 1738, col: 13, offset: 56292},
 															run: (*parser).callonParagraph12,
 															expr: &litMatcher{
-																pos:        position{line: 1741, col: 13, offset: 56303},
+																pos:        position{line: 1738, col: 13, offset: 56292},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1743, col: 13, offset: 56361},
+															pos: position{line: 1740, col: 13, offset: 56350},
 															run: (*parser).callonParagraph14,
 															expr: &litMatcher{
-																pos:        position{line: 1743, col: 13, offset: 56361},
+																pos:        position{line: 1740, col: 13, offset: 56350},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1745, col: 13, offset: 56429},
+															pos: position{line: 1742, col: 13, offset: 56418},
 															run: (*parser).callonParagraph16,
 															expr: &litMatcher{
-																pos:        position{line: 1745, col: 13, offset: 56429},
+																pos:        position{line: 1742, col: 13, offset: 56418},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1747, col: 13, offset: 56493},
+															pos: position{line: 1744, col: 13, offset: 56482},
 															run: (*parser).callonParagraph18,
 															expr: &litMatcher{
-																pos:        position{line: 1747, col: 13, offset: 56493},
+																pos:        position{line: 1744, col: 13, offset: 56482},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1749, col: 13, offset: 56557},
+															pos: position{line: 1746, col: 13, offset: 56546},
 															run: (*parser).callonParagraph20,
 															expr: &andExpr{
-																pos: position{line: 1749, col: 13, offset: 56557},
+																pos: position{line: 1746, col: 13, offset: 56546},
 																expr: &actionExpr{
-																	pos: position{line: 2880, col: 11, offset: 91013},
+																	pos: position{line: 2877, col: 11, offset: 91023},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2880, col: 11, offset: 91013},
+																		pos: position{line: 2877, col: 11, offset: 91023},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 11, offset: 91013},
+																			pos:        position{line: 2877, col: 11, offset: 91023},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -39852,17 +39907,17 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1751, col: 12, offset: 56627},
+												pos: position{line: 1748, col: 12, offset: 56616},
 												expr: &seqExpr{
-													pos: position{line: 1751, col: 14, offset: 56629},
+													pos: position{line: 1748, col: 14, offset: 56618},
 													exprs: []interface{}{
 														&zeroOrMoreExpr{
-															pos: position{line: 1751, col: 14, offset: 56629},
+															pos: position{line: 1748, col: 14, offset: 56618},
 															expr: &actionExpr{
-																pos: position{line: 2876, col: 10, offset: 90952},
+																pos: position{line: 2873, col: 10, offset: 90962},
 																run: (*parser).callonParagraph28,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2876, col: 10, offset: 90952},
+																	pos:        position{line: 2873, col: 10, offset: 90962},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -39871,28 +39926,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2898, col: 8, offset: 91350},
+															pos: position{line: 2895, col: 8, offset: 91360},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2885, col: 12, offset: 91123},
+																	pos: position{line: 2882, col: 12, offset: 91133},
 																	run: (*parser).callonParagraph31,
 																	expr: &choiceExpr{
-																		pos: position{line: 2885, col: 13, offset: 91124},
+																		pos: position{line: 2882, col: 13, offset: 91134},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2885, col: 13, offset: 91124},
+																				pos:        position{line: 2882, col: 13, offset: 91134},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2885, col: 20, offset: 91131},
+																				pos:        position{line: 2882, col: 20, offset: 91141},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2885, col: 29, offset: 91140},
+																				pos:        position{line: 2882, col: 29, offset: 91150},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -39901,9 +39956,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2895, col: 8, offset: 91300},
+																	pos: position{line: 2892, col: 8, offset: 91310},
 																	expr: &anyMatcher{
-																		line: 2895, col: 9, offset: 91301,
+																		line: 2892, col: 9, offset: 91311,
 																	},
 																},
 															},
@@ -39917,24 +39972,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1782, col: 5, offset: 57698},
+							pos:   position{line: 1779, col: 5, offset: 57687},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1795, col: 5, offset: 58047},
+								pos: position{line: 1792, col: 5, offset: 58036},
 								run: (*parser).callonParagraph39,
 								expr: &seqExpr{
-									pos: position{line: 1795, col: 5, offset: 58047},
+									pos: position{line: 1792, col: 5, offset: 58036},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1795, col: 5, offset: 58047},
+											pos:   position{line: 1792, col: 5, offset: 58036},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2826, col: 14, offset: 89545},
+												pos: position{line: 2823, col: 14, offset: 89555},
 												run: (*parser).callonParagraph42,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2826, col: 14, offset: 89545},
+													pos: position{line: 2823, col: 14, offset: 89555},
 													expr: &charClassMatcher{
-														pos:        position{line: 2826, col: 14, offset: 89545},
+														pos:        position{line: 2823, col: 14, offset: 89555},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -39944,32 +39999,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1796, col: 5, offset: 58071},
+											pos: position{line: 1793, col: 5, offset: 58060},
 											run: (*parser).callonParagraph45,
 										},
 										&choiceExpr{
-											pos: position{line: 2898, col: 8, offset: 91350},
+											pos: position{line: 2895, col: 8, offset: 91360},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2885, col: 12, offset: 91123},
+													pos: position{line: 2882, col: 12, offset: 91133},
 													run: (*parser).callonParagraph47,
 													expr: &choiceExpr{
-														pos: position{line: 2885, col: 13, offset: 91124},
+														pos: position{line: 2882, col: 13, offset: 91134},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2885, col: 13, offset: 91124},
+																pos:        position{line: 2882, col: 13, offset: 91134},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2885, col: 20, offset: 91131},
+																pos:        position{line: 2882, col: 20, offset: 91141},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2885, col: 29, offset: 91140},
+																pos:        position{line: 2882, col: 29, offset: 91150},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -39978,9 +40033,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2895, col: 8, offset: 91300},
+													pos: position{line: 2892, col: 8, offset: 91310},
 													expr: &anyMatcher{
-														line: 2895, col: 9, offset: 91301,
+														line: 2892, col: 9, offset: 91311,
 													},
 												},
 											},
@@ -39990,24 +40045,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1783, col: 5, offset: 57732},
+							pos:   position{line: 1780, col: 5, offset: 57721},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1783, col: 16, offset: 57743},
+								pos: position{line: 1780, col: 16, offset: 57732},
 								expr: &actionExpr{
-									pos: position{line: 1784, col: 9, offset: 57753},
+									pos: position{line: 1781, col: 9, offset: 57742},
 									run: (*parser).callonParagraph56,
 									expr: &seqExpr{
-										pos: position{line: 1784, col: 9, offset: 57753},
+										pos: position{line: 1781, col: 9, offset: 57742},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2893, col: 11, offset: 91286},
+												pos: position{line: 2890, col: 11, offset: 91296},
 												expr: &anyMatcher{
-													line: 2893, col: 13, offset: 91288,
+													line: 2890, col: 13, offset: 91298,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1785, col: 9, offset: 57768},
+												pos: position{line: 1782, col: 9, offset: 57757},
 												expr: &actionExpr{
 													pos: position{line: 677, col: 14, offset: 21558},
 													run: (*parser).callonParagraph61,
@@ -40015,18 +40070,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21558},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2893, col: 11, offset: 91286},
+																pos: position{line: 2890, col: 11, offset: 91296},
 																expr: &anyMatcher{
-																	line: 2893, col: 13, offset: 91288,
+																	line: 2890, col: 13, offset: 91298,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21565},
 																expr: &actionExpr{
-																	pos: position{line: 2876, col: 10, offset: 90952},
+																	pos: position{line: 2873, col: 10, offset: 90962},
 																	run: (*parser).callonParagraph66,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2876, col: 10, offset: 90952},
+																		pos:        position{line: 2873, col: 10, offset: 90962},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -40035,28 +40090,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2898, col: 8, offset: 91350},
+																pos: position{line: 2895, col: 8, offset: 91360},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2885, col: 12, offset: 91123},
+																		pos: position{line: 2882, col: 12, offset: 91133},
 																		run: (*parser).callonParagraph69,
 																		expr: &choiceExpr{
-																			pos: position{line: 2885, col: 13, offset: 91124},
+																			pos: position{line: 2882, col: 13, offset: 91134},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 13, offset: 91124},
+																					pos:        position{line: 2882, col: 13, offset: 91134},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 20, offset: 91131},
+																					pos:        position{line: 2882, col: 20, offset: 91141},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 29, offset: 91140},
+																					pos:        position{line: 2882, col: 29, offset: 91150},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -40065,9 +40120,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91300},
+																		pos: position{line: 2892, col: 8, offset: 91310},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91301,
+																			line: 2892, col: 9, offset: 91311,
 																		},
 																	},
 																},
@@ -40077,49 +40132,49 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1786, col: 9, offset: 57787},
+												pos: position{line: 1783, col: 9, offset: 57776},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1786, col: 10, offset: 57788},
+													pos:  position{line: 1783, col: 10, offset: 57777},
 													name: "BlockAttributes",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1787, col: 9, offset: 57812},
+												pos:   position{line: 1784, col: 9, offset: 57801},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1787, col: 15, offset: 57818},
+													pos: position{line: 1784, col: 15, offset: 57807},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2483, col: 22, offset: 79859},
+															pos: position{line: 2480, col: 22, offset: 79848},
 															run: (*parser).callonParagraph80,
 															expr: &seqExpr{
-																pos: position{line: 2483, col: 22, offset: 79859},
+																pos: position{line: 2480, col: 22, offset: 79848},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2488, col: 31, offset: 80080},
+																		pos:        position{line: 2485, col: 31, offset: 80069},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2488, col: 36, offset: 80085},
+																		pos: position{line: 2485, col: 36, offset: 80074},
 																		expr: &litMatcher{
-																			pos:        position{line: 2488, col: 37, offset: 80086},
+																			pos:        position{line: 2485, col: 37, offset: 80075},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2483, col: 49, offset: 79886},
+																		pos:   position{line: 2480, col: 49, offset: 79875},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2822, col: 13, offset: 89478},
+																			pos: position{line: 2819, col: 13, offset: 89488},
 																			run: (*parser).callonParagraph86,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2822, col: 13, offset: 89478},
+																				pos: position{line: 2819, col: 13, offset: 89488},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2822, col: 13, offset: 89478},
+																					pos:        position{line: 2819, col: 13, offset: 89488},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40129,28 +40184,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91350},
+																		pos: position{line: 2895, col: 8, offset: 91360},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91123},
+																				pos: position{line: 2882, col: 12, offset: 91133},
 																				run: (*parser).callonParagraph90,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91124},
+																					pos: position{line: 2882, col: 13, offset: 91134},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91124},
+																							pos:        position{line: 2882, col: 13, offset: 91134},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91131},
+																							pos:        position{line: 2882, col: 20, offset: 91141},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91140},
+																							pos:        position{line: 2882, col: 29, offset: 91150},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40159,9 +40214,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91300},
+																				pos: position{line: 2892, col: 8, offset: 91310},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91301,
+																					line: 2892, col: 9, offset: 91311,
 																				},
 																			},
 																		},
@@ -40170,21 +40225,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1795, col: 5, offset: 58047},
+															pos: position{line: 1792, col: 5, offset: 58036},
 															run: (*parser).callonParagraph97,
 															expr: &seqExpr{
-																pos: position{line: 1795, col: 5, offset: 58047},
+																pos: position{line: 1792, col: 5, offset: 58036},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1795, col: 5, offset: 58047},
+																		pos:   position{line: 1792, col: 5, offset: 58036},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2826, col: 14, offset: 89545},
+																			pos: position{line: 2823, col: 14, offset: 89555},
 																			run: (*parser).callonParagraph100,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2826, col: 14, offset: 89545},
+																				pos: position{line: 2823, col: 14, offset: 89555},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2826, col: 14, offset: 89545},
+																					pos:        position{line: 2823, col: 14, offset: 89555},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40194,32 +40249,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1796, col: 5, offset: 58071},
+																		pos: position{line: 1793, col: 5, offset: 58060},
 																		run: (*parser).callonParagraph103,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91350},
+																		pos: position{line: 2895, col: 8, offset: 91360},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91123},
+																				pos: position{line: 2882, col: 12, offset: 91133},
 																				run: (*parser).callonParagraph105,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91124},
+																					pos: position{line: 2882, col: 13, offset: 91134},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91124},
+																							pos:        position{line: 2882, col: 13, offset: 91134},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91131},
+																							pos:        position{line: 2882, col: 20, offset: 91141},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91140},
+																							pos:        position{line: 2882, col: 29, offset: 91150},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40228,9 +40283,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91300},
+																				pos: position{line: 2892, col: 8, offset: 91310},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91301,
+																					line: 2892, col: 9, offset: 91311,
 																				},
 																			},
 																		},
@@ -40252,16 +40307,16 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedText",
-			pos:  position{line: 1806, col: 1, offset: 58553},
+			pos:  position{line: 1803, col: 1, offset: 58542},
 			expr: &choiceExpr{
-				pos: position{line: 1806, col: 15, offset: 58567},
+				pos: position{line: 1803, col: 15, offset: 58556},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1806, col: 15, offset: 58567},
+						pos:  position{line: 1803, col: 15, offset: 58556},
 						name: "EscapedQuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1806, col: 35, offset: 58587},
+						pos:  position{line: 1803, col: 35, offset: 58576},
 						name: "UnescapedQuotedText",
 					},
 				},
@@ -40269,65 +40324,65 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedQuotedText",
-			pos:  position{line: 1808, col: 1, offset: 58608},
+			pos:  position{line: 1805, col: 1, offset: 58597},
 			expr: &actionExpr{
-				pos: position{line: 1809, col: 5, offset: 58633},
+				pos: position{line: 1806, col: 5, offset: 58622},
 				run: (*parser).callonEscapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1809, col: 5, offset: 58633},
+					pos: position{line: 1806, col: 5, offset: 58622},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1809, col: 5, offset: 58633},
+							pos:   position{line: 1806, col: 5, offset: 58622},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1809, col: 16, offset: 58644},
+								pos: position{line: 1806, col: 16, offset: 58633},
 								expr: &actionExpr{
-									pos: position{line: 1809, col: 17, offset: 58645},
+									pos: position{line: 1806, col: 17, offset: 58634},
 									run: (*parser).callonEscapedQuotedText5,
 									expr: &ruleRefExpr{
-										pos:  position{line: 1809, col: 17, offset: 58645},
+										pos:  position{line: 1806, col: 17, offset: 58634},
 										name: "LongHandAttributes",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 1812, col: 5, offset: 58713},
+							pos: position{line: 1809, col: 5, offset: 58702},
 							expr: &litMatcher{
-								pos:        position{line: 1812, col: 7, offset: 58715},
+								pos:        position{line: 1809, col: 7, offset: 58704},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1813, col: 5, offset: 58724},
+							pos:   position{line: 1810, col: 5, offset: 58713},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1814, col: 9, offset: 58742},
+								pos: position{line: 1811, col: 9, offset: 58731},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1814, col: 9, offset: 58742},
+										pos:  position{line: 1811, col: 9, offset: 58731},
 										name: "EscapedBoldText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1815, col: 11, offset: 58769},
+										pos:  position{line: 1812, col: 11, offset: 58758},
 										name: "EscapedItalicText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1816, col: 11, offset: 58797},
+										pos:  position{line: 1813, col: 11, offset: 58786},
 										name: "EscapedMonospaceText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1817, col: 11, offset: 58828},
+										pos:  position{line: 1814, col: 11, offset: 58817},
 										name: "EscapedMarkedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1818, col: 11, offset: 58856},
+										pos:  position{line: 1815, col: 11, offset: 58845},
 										name: "EscapedSubscriptText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1819, col: 11, offset: 58887},
+										pos:  position{line: 1816, col: 11, offset: 58876},
 										name: "EscapedSuperscriptText",
 									},
 								},
@@ -40339,36 +40394,36 @@ var g = &grammar{
 		},
 		{
 			name: "UnescapedQuotedText",
-			pos:  position{line: 1824, col: 1, offset: 59007},
+			pos:  position{line: 1821, col: 1, offset: 58996},
 			expr: &actionExpr{
-				pos: position{line: 1825, col: 5, offset: 59049},
+				pos: position{line: 1822, col: 5, offset: 59038},
 				run: (*parser).callonUnescapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1825, col: 5, offset: 59049},
+					pos: position{line: 1822, col: 5, offset: 59038},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1825, col: 5, offset: 59049},
+							pos:   position{line: 1822, col: 5, offset: 59038},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1825, col: 16, offset: 59060},
+								pos: position{line: 1822, col: 16, offset: 59049},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1825, col: 17, offset: 59061},
+									pos:  position{line: 1822, col: 17, offset: 59050},
 									name: "LongHandAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1826, col: 5, offset: 59086},
+							pos:   position{line: 1823, col: 5, offset: 59075},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1826, col: 14, offset: 59095},
+								pos: position{line: 1823, col: 14, offset: 59084},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1826, col: 14, offset: 59095},
+										pos:  position{line: 1823, col: 14, offset: 59084},
 										name: "SingleQuotedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1826, col: 33, offset: 59114},
+										pos:  position{line: 1823, col: 33, offset: 59103},
 										name: "DoubleQuotedText",
 									},
 								},
@@ -40380,32 +40435,32 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedText",
-			pos:  position{line: 1834, col: 1, offset: 59345},
+			pos:  position{line: 1831, col: 1, offset: 59334},
 			expr: &choiceExpr{
-				pos: position{line: 1835, col: 5, offset: 59370},
+				pos: position{line: 1832, col: 5, offset: 59359},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1835, col: 5, offset: 59370},
+						pos:  position{line: 1832, col: 5, offset: 59359},
 						name: "SingleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1836, col: 7, offset: 59397},
+						pos:  position{line: 1833, col: 7, offset: 59386},
 						name: "SingleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1837, col: 7, offset: 59425},
+						pos:  position{line: 1834, col: 7, offset: 59414},
 						name: "SingleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1838, col: 7, offset: 59457},
+						pos:  position{line: 1835, col: 7, offset: 59446},
 						name: "SingleQuoteMarkedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1839, col: 7, offset: 59485},
+						pos:  position{line: 1836, col: 7, offset: 59474},
 						name: "SubscriptText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1840, col: 7, offset: 59506},
+						pos:  position{line: 1837, col: 7, offset: 59495},
 						name: "SuperscriptText",
 					},
 				},
@@ -40413,24 +40468,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedText",
-			pos:  position{line: 1842, col: 1, offset: 59524},
+			pos:  position{line: 1839, col: 1, offset: 59513},
 			expr: &choiceExpr{
-				pos: position{line: 1843, col: 5, offset: 59549},
+				pos: position{line: 1840, col: 5, offset: 59538},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1843, col: 5, offset: 59549},
+						pos:  position{line: 1840, col: 5, offset: 59538},
 						name: "DoubleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1844, col: 7, offset: 59575},
+						pos:  position{line: 1841, col: 7, offset: 59564},
 						name: "DoubleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1845, col: 7, offset: 59603},
+						pos:  position{line: 1842, col: 7, offset: 59592},
 						name: "DoubleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1846, col: 7, offset: 59634},
+						pos:  position{line: 1843, col: 7, offset: 59623},
 						name: "DoubleQuoteMarkedText",
 					},
 				},
@@ -40438,26 +40493,26 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedTextElement",
-			pos:  position{line: 1860, col: 1, offset: 59988},
+			pos:  position{line: 1857, col: 1, offset: 59977},
 			expr: &choiceExpr{
-				pos: position{line: 1861, col: 5, offset: 60014},
+				pos: position{line: 1858, col: 5, offset: 60003},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2775, col: 5, offset: 88194},
+						pos: position{line: 2772, col: 5, offset: 88183},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2775, col: 5, offset: 88194},
+							pos: position{line: 2772, col: 5, offset: 88183},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2775, col: 5, offset: 88194},
+									pos:   position{line: 2772, col: 5, offset: 88183},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2775, col: 11, offset: 88200},
+										pos: position{line: 2772, col: 11, offset: 88189},
 										run: (*parser).callonQuotedTextElement5,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2775, col: 11, offset: 88200},
+											pos: position{line: 2772, col: 11, offset: 88189},
 											expr: &charClassMatcher{
-												pos:        position{line: 2775, col: 11, offset: 88200},
+												pos:        position{line: 2772, col: 11, offset: 88189},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40467,36 +40522,61 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2778, col: 5, offset: 88258},
+									pos: position{line: 2775, col: 5, offset: 88247},
 									expr: &seqExpr{
-										pos: position{line: 2779, col: 9, offset: 88269},
+										pos: position{line: 2776, col: 9, offset: 88258},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2779, col: 9, offset: 88269},
+												pos:        position{line: 2776, col: 9, offset: 88258},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2780, col: 9, offset: 88318},
+												pos: position{line: 2777, col: 9, offset: 88307},
 												run: (*parser).callonQuotedTextElement11,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2784, col: 5, offset: 88398},
+									pos: position{line: 2781, col: 5, offset: 88387},
 									expr: &seqExpr{
-										pos: position{line: 2785, col: 9, offset: 88409},
+										pos: position{line: 2782, col: 9, offset: 88398},
 										exprs: []interface{}{
+											&zeroOrMoreExpr{
+												pos: position{line: 2782, col: 9, offset: 88398},
+												expr: &seqExpr{
+													pos: position{line: 2782, col: 10, offset: 88399},
+													exprs: []interface{}{
+														&charClassMatcher{
+															pos:        position{line: 2782, col: 10, offset: 88399},
+															val:        "[._%+-]",
+															chars:      []rune{'.', '_', '%', '+', '-'},
+															ignoreCase: false,
+															inverted:   false,
+														},
+														&oneOrMoreExpr{
+															pos: position{line: 2782, col: 18, offset: 88407},
+															expr: &charClassMatcher{
+																pos:        position{line: 2782, col: 18, offset: 88407},
+																val:        "[\\pL\\pN]",
+																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																ignoreCase: false,
+																inverted:   false,
+															},
+														},
+													},
+												},
+											},
 											&litMatcher{
-												pos:        position{line: 2785, col: 9, offset: 88409},
+												pos:        position{line: 2782, col: 30, offset: 88419},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2785, col: 13, offset: 88413},
+												pos:        position{line: 2782, col: 34, offset: 88423},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40509,12 +40589,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2880, col: 11, offset: 91013},
-						run: (*parser).callonQuotedTextElement16,
+						pos: position{line: 2877, col: 11, offset: 91023},
+						run: (*parser).callonQuotedTextElement21,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2880, col: 11, offset: 91013},
+							pos: position{line: 2877, col: 11, offset: 91023},
 							expr: &charClassMatcher{
-								pos:        position{line: 2880, col: 11, offset: 91013},
+								pos:        position{line: 2877, col: 11, offset: 91023},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -40523,29 +40603,29 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1863, col: 7, offset: 60077},
+						pos:  position{line: 1860, col: 7, offset: 60066},
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2501, col: 5, offset: 80576},
-						run: (*parser).callonQuotedTextElement20,
+						pos: position{line: 2498, col: 5, offset: 80565},
+						run: (*parser).callonQuotedTextElement25,
 						expr: &seqExpr{
-							pos: position{line: 2501, col: 5, offset: 80576},
+							pos: position{line: 2498, col: 5, offset: 80565},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2501, col: 5, offset: 80576},
-									run: (*parser).callonQuotedTextElement22,
+									pos: position{line: 2498, col: 5, offset: 80565},
+									run: (*parser).callonQuotedTextElement27,
 								},
 								&litMatcher{
-									pos:        position{line: 2504, col: 5, offset: 80647},
+									pos:        position{line: 2501, col: 5, offset: 80636},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2504, col: 10, offset: 80652},
+									pos: position{line: 2501, col: 10, offset: 80641},
 									expr: &charClassMatcher{
-										pos:        position{line: 2504, col: 11, offset: 80653},
+										pos:        position{line: 2501, col: 11, offset: 80642},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -40556,29 +40636,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2510, col: 5, offset: 80845},
-						run: (*parser).callonQuotedTextElement26,
+						pos: position{line: 2507, col: 5, offset: 80834},
+						run: (*parser).callonQuotedTextElement31,
 						expr: &seqExpr{
-							pos: position{line: 2510, col: 5, offset: 80845},
+							pos: position{line: 2507, col: 5, offset: 80834},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2510, col: 5, offset: 80845},
-									run: (*parser).callonQuotedTextElement28,
+									pos: position{line: 2507, col: 5, offset: 80834},
+									run: (*parser).callonQuotedTextElement33,
 								},
 								&andCodeExpr{
-									pos: position{line: 2513, col: 5, offset: 80916},
-									run: (*parser).callonQuotedTextElement29,
+									pos: position{line: 2510, col: 5, offset: 80905},
+									run: (*parser).callonQuotedTextElement34,
 								},
 								&litMatcher{
-									pos:        position{line: 2517, col: 5, offset: 81041},
+									pos:        position{line: 2514, col: 5, offset: 81030},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2517, col: 9, offset: 81045},
+									pos: position{line: 2514, col: 9, offset: 81034},
 									expr: &charClassMatcher{
-										pos:        position{line: 2517, col: 10, offset: 81046},
+										pos:        position{line: 2514, col: 10, offset: 81035},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -40589,27 +40669,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2793, col: 5, offset: 88606},
-						run: (*parser).callonQuotedTextElement33,
+						pos: position{line: 2790, col: 5, offset: 88616},
+						run: (*parser).callonQuotedTextElement38,
 						expr: &choiceExpr{
-							pos: position{line: 2794, col: 9, offset: 88616},
+							pos: position{line: 2791, col: 9, offset: 88626},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2794, col: 10, offset: 88617},
+									pos:        position{line: 2791, col: 10, offset: 88627},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2796, col: 13, offset: 88714},
+									pos: position{line: 2793, col: 13, offset: 88724},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2796, col: 13, offset: 88714},
-											run: (*parser).callonQuotedTextElement37,
+											pos: position{line: 2793, col: 13, offset: 88724},
+											run: (*parser).callonQuotedTextElement42,
 										},
 										&litMatcher{
-											pos:        position{line: 2799, col: 13, offset: 88814},
+											pos:        position{line: 2796, col: 13, offset: 88824},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -40617,20 +40697,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2799, col: 19, offset: 88820},
+									pos:        position{line: 2796, col: 19, offset: 88830},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2802, col: 13, offset: 88858},
+									pos: position{line: 2799, col: 13, offset: 88868},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2802, col: 13, offset: 88858},
-											run: (*parser).callonQuotedTextElement41,
+											pos: position{line: 2799, col: 13, offset: 88868},
+											run: (*parser).callonQuotedTextElement46,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2805, col: 14, offset: 88951},
+											pos:        position{line: 2802, col: 14, offset: 88961},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -40639,18 +40719,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2807, col: 12, offset: 88995},
+									pos: position{line: 2804, col: 12, offset: 89005},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2807, col: 12, offset: 88995},
+											pos:        position{line: 2804, col: 12, offset: 89005},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2807, col: 16, offset: 88999},
+											pos: position{line: 2804, col: 16, offset: 89009},
 											expr: &litMatcher{
-												pos:        position{line: 2807, col: 17, offset: 89000},
+												pos:        position{line: 2804, col: 17, offset: 89010},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -40663,13 +40743,13 @@ var g = &grammar{
 					},
 					&actionExpr{
 						pos: position{line: 636, col: 5, offset: 20178},
-						run: (*parser).callonQuotedTextElement47,
+						run: (*parser).callonQuotedTextElement52,
 						expr: &seqExpr{
 							pos: position{line: 636, col: 5, offset: 20178},
 							exprs: []interface{}{
 								&andCodeExpr{
 									pos: position{line: 636, col: 5, offset: 20178},
-									run: (*parser).callonQuotedTextElement49,
+									run: (*parser).callonQuotedTextElement54,
 								},
 								&labeledExpr{
 									pos:   position{line: 639, col: 5, offset: 20250},
@@ -40679,7 +40759,7 @@ var g = &grammar{
 										alternatives: []interface{}{
 											&actionExpr{
 												pos: position{line: 645, col: 5, offset: 20388},
-												run: (*parser).callonQuotedTextElement52,
+												run: (*parser).callonQuotedTextElement57,
 												expr: &seqExpr{
 													pos: position{line: 645, col: 5, offset: 20388},
 													exprs: []interface{}{
@@ -40694,7 +40774,7 @@ var g = &grammar{
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 318, col: 18, offset: 9729},
-																run: (*parser).callonQuotedTextElement56,
+																run: (*parser).callonQuotedTextElement61,
 																expr: &seqExpr{
 																	pos: position{line: 318, col: 18, offset: 9729},
 																	exprs: []interface{}{
@@ -40732,7 +40812,7 @@ var g = &grammar{
 											},
 											&actionExpr{
 												pos: position{line: 652, col: 5, offset: 20656},
-												run: (*parser).callonQuotedTextElement62,
+												run: (*parser).callonQuotedTextElement67,
 												expr: &seqExpr{
 													pos: position{line: 652, col: 5, offset: 20656},
 													exprs: []interface{}{
@@ -40747,7 +40827,7 @@ var g = &grammar{
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 318, col: 18, offset: 9729},
-																run: (*parser).callonQuotedTextElement66,
+																run: (*parser).callonQuotedTextElement71,
 																expr: &seqExpr{
 																	pos: position{line: 318, col: 18, offset: 9729},
 																	exprs: []interface{}{
@@ -40785,7 +40865,7 @@ var g = &grammar{
 											},
 											&actionExpr{
 												pos: position{line: 658, col: 25, offset: 20860},
-												run: (*parser).callonQuotedTextElement72,
+												run: (*parser).callonQuotedTextElement77,
 												expr: &seqExpr{
 													pos: position{line: 658, col: 25, offset: 20860},
 													exprs: []interface{}{
@@ -40800,7 +40880,7 @@ var g = &grammar{
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 318, col: 18, offset: 9729},
-																run: (*parser).callonQuotedTextElement76,
+																run: (*parser).callonQuotedTextElement81,
 																expr: &seqExpr{
 																	pos: position{line: 318, col: 18, offset: 9729},
 																	exprs: []interface{}{
@@ -40834,7 +40914,7 @@ var g = &grammar{
 																pos: position{line: 658, col: 62, offset: 20897},
 																expr: &actionExpr{
 																	pos: position{line: 666, col: 17, offset: 21192},
-																	run: (*parser).callonQuotedTextElement83,
+																	run: (*parser).callonQuotedTextElement88,
 																	expr: &seqExpr{
 																		pos: position{line: 666, col: 17, offset: 21192},
 																		exprs: []interface{}{
@@ -40852,7 +40932,7 @@ var g = &grammar{
 																					alternatives: []interface{}{
 																						&actionExpr{
 																							pos: position{line: 666, col: 28, offset: 21203},
-																							run: (*parser).callonQuotedTextElement88,
+																							run: (*parser).callonQuotedTextElement93,
 																							expr: &charClassMatcher{
 																								pos:        position{line: 666, col: 28, offset: 21203},
 																								val:        "[A-Za-z]",
@@ -40863,7 +40943,7 @@ var g = &grammar{
 																						},
 																						&actionExpr{
 																							pos: position{line: 668, col: 9, offset: 21257},
-																							run: (*parser).callonQuotedTextElement90,
+																							run: (*parser).callonQuotedTextElement95,
 																							expr: &oneOrMoreExpr{
 																								pos: position{line: 668, col: 9, offset: 21257},
 																								expr: &charClassMatcher{
@@ -40894,7 +40974,7 @@ var g = &grammar{
 											},
 											&actionExpr{
 												pos: position{line: 662, col: 25, offset: 21031},
-												run: (*parser).callonQuotedTextElement94,
+												run: (*parser).callonQuotedTextElement99,
 												expr: &seqExpr{
 													pos: position{line: 662, col: 25, offset: 21031},
 													exprs: []interface{}{
@@ -40909,7 +40989,7 @@ var g = &grammar{
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 318, col: 18, offset: 9729},
-																run: (*parser).callonQuotedTextElement98,
+																run: (*parser).callonQuotedTextElement103,
 																expr: &seqExpr{
 																	pos: position{line: 318, col: 18, offset: 9729},
 																	exprs: []interface{}{
@@ -40943,7 +41023,7 @@ var g = &grammar{
 																pos: position{line: 662, col: 63, offset: 21069},
 																expr: &actionExpr{
 																	pos: position{line: 666, col: 17, offset: 21192},
-																	run: (*parser).callonQuotedTextElement105,
+																	run: (*parser).callonQuotedTextElement110,
 																	expr: &seqExpr{
 																		pos: position{line: 666, col: 17, offset: 21192},
 																		exprs: []interface{}{
@@ -40961,7 +41041,7 @@ var g = &grammar{
 																					alternatives: []interface{}{
 																						&actionExpr{
 																							pos: position{line: 666, col: 28, offset: 21203},
-																							run: (*parser).callonQuotedTextElement110,
+																							run: (*parser).callonQuotedTextElement115,
 																							expr: &charClassMatcher{
 																								pos:        position{line: 666, col: 28, offset: 21203},
 																								val:        "[A-Za-z]",
@@ -40972,7 +41052,7 @@ var g = &grammar{
 																						},
 																						&actionExpr{
 																							pos: position{line: 668, col: 9, offset: 21257},
-																							run: (*parser).callonQuotedTextElement112,
+																							run: (*parser).callonQuotedTextElement117,
 																							expr: &oneOrMoreExpr{
 																								pos: position{line: 668, col: 9, offset: 21257},
 																								expr: &charClassMatcher{
@@ -41008,31 +41088,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2889, col: 18, offset: 91223},
-						run: (*parser).callonQuotedTextElement116,
+						pos: position{line: 2886, col: 18, offset: 91233},
+						run: (*parser).callonQuotedTextElement121,
 						expr: &seqExpr{
-							pos: position{line: 2889, col: 18, offset: 91223},
+							pos: position{line: 2886, col: 18, offset: 91233},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2885, col: 12, offset: 91123},
-									run: (*parser).callonQuotedTextElement118,
+									pos: position{line: 2882, col: 12, offset: 91133},
+									run: (*parser).callonQuotedTextElement123,
 									expr: &choiceExpr{
-										pos: position{line: 2885, col: 13, offset: 91124},
+										pos: position{line: 2882, col: 13, offset: 91134},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2885, col: 13, offset: 91124},
+												pos:        position{line: 2882, col: 13, offset: 91134},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 20, offset: 91131},
+												pos:        position{line: 2882, col: 20, offset: 91141},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 29, offset: 91140},
+												pos:        position{line: 2882, col: 29, offset: 91150},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -41041,27 +41121,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2889, col: 26, offset: 91231},
+									pos: position{line: 2886, col: 26, offset: 91241},
 									expr: &actionExpr{
-										pos: position{line: 2885, col: 12, offset: 91123},
-										run: (*parser).callonQuotedTextElement124,
+										pos: position{line: 2882, col: 12, offset: 91133},
+										run: (*parser).callonQuotedTextElement129,
 										expr: &choiceExpr{
-											pos: position{line: 2885, col: 13, offset: 91124},
+											pos: position{line: 2882, col: 13, offset: 91134},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2885, col: 13, offset: 91124},
+													pos:        position{line: 2882, col: 13, offset: 91134},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2885, col: 20, offset: 91131},
+													pos:        position{line: 2882, col: 20, offset: 91141},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2885, col: 29, offset: 91140},
+													pos:        position{line: 2882, col: 29, offset: 91150},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -41074,31 +41154,31 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1868, col: 7, offset: 60244},
+						pos:  position{line: 1865, col: 7, offset: 60233},
 						name: "QuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1869, col: 7, offset: 60291},
+						pos:  position{line: 1866, col: 7, offset: 60280},
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2470, col: 5, offset: 79405},
-						run: (*parser).callonQuotedTextElement131,
+						pos: position{line: 2467, col: 5, offset: 79394},
+						run: (*parser).callonQuotedTextElement136,
 						expr: &seqExpr{
-							pos: position{line: 2470, col: 5, offset: 79405},
+							pos: position{line: 2467, col: 5, offset: 79394},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2470, col: 5, offset: 79405},
-									run: (*parser).callonQuotedTextElement133,
+									pos: position{line: 2467, col: 5, offset: 79394},
+									run: (*parser).callonQuotedTextElement138,
 								},
 								&labeledExpr{
-									pos:   position{line: 2473, col: 5, offset: 79481},
+									pos:   position{line: 2470, col: 5, offset: 79470},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2474, col: 9, offset: 79499},
-										run: (*parser).callonQuotedTextElement135,
+										pos: position{line: 2471, col: 9, offset: 79488},
+										run: (*parser).callonQuotedTextElement140,
 										expr: &charClassMatcher{
-											pos:        position{line: 2474, col: 10, offset: 79500},
+											pos:        position{line: 2471, col: 10, offset: 79489},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -41111,7 +41191,7 @@ var g = &grammar{
 					},
 					&actionExpr{
 						pos: position{line: 1198, col: 23, offset: 37046},
-						run: (*parser).callonQuotedTextElement137,
+						run: (*parser).callonQuotedTextElement142,
 						expr: &seqExpr{
 							pos: position{line: 1198, col: 23, offset: 37046},
 							exprs: []interface{}{
@@ -41126,7 +41206,7 @@ var g = &grammar{
 									label: "ref",
 									expr: &actionExpr{
 										pos: position{line: 1198, col: 56, offset: 37079},
-										run: (*parser).callonQuotedTextElement141,
+										run: (*parser).callonQuotedTextElement146,
 										expr: &oneOrMoreExpr{
 											pos: position{line: 1198, col: 56, offset: 37079},
 											expr: &charClassMatcher{
@@ -41149,10 +41229,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2815, col: 12, offset: 89260},
-						run: (*parser).callonQuotedTextElement145,
+						pos: position{line: 2812, col: 12, offset: 89270},
+						run: (*parser).callonQuotedTextElement150,
 						expr: &charClassMatcher{
-							pos:        position{line: 2815, col: 12, offset: 89260},
+							pos:        position{line: 2812, col: 12, offset: 89270},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -41164,29 +41244,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldText",
-			pos:  position{line: 1887, col: 1, offset: 60761},
+			pos:  position{line: 1884, col: 1, offset: 60750},
 			expr: &actionExpr{
-				pos: position{line: 1888, col: 5, offset: 60789},
+				pos: position{line: 1885, col: 5, offset: 60778},
 				run: (*parser).callonDoubleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1888, col: 5, offset: 60789},
+					pos: position{line: 1885, col: 5, offset: 60778},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1883, col: 38, offset: 60714},
+							pos:        position{line: 1880, col: 38, offset: 60703},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1889, col: 5, offset: 60828},
+							pos:   position{line: 1886, col: 5, offset: 60817},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1889, col: 15, offset: 60838},
+								pos:  position{line: 1886, col: 15, offset: 60827},
 								name: "DoubleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1885, col: 36, offset: 60755},
+							pos:        position{line: 1882, col: 36, offset: 60744},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
@@ -41197,44 +41277,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElements",
-			pos:  position{line: 1894, col: 1, offset: 60998},
+			pos:  position{line: 1891, col: 1, offset: 60987},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1894, col: 32, offset: 61029},
+				pos: position{line: 1891, col: 32, offset: 61018},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1894, col: 32, offset: 61029},
+					pos:  position{line: 1891, col: 32, offset: 61018},
 					name: "DoubleQuoteBoldTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteBoldTextElement",
-			pos:  position{line: 1896, col: 1, offset: 61060},
+			pos:  position{line: 1893, col: 1, offset: 61049},
 			expr: &actionExpr{
-				pos: position{line: 1897, col: 5, offset: 61095},
+				pos: position{line: 1894, col: 5, offset: 61084},
 				run: (*parser).callonDoubleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1897, col: 5, offset: 61095},
+					pos: position{line: 1894, col: 5, offset: 61084},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2893, col: 11, offset: 91286},
+							pos: position{line: 2890, col: 11, offset: 91296},
 							expr: &anyMatcher{
-								line: 2893, col: 13, offset: 91288,
+								line: 2890, col: 13, offset: 91298,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1898, col: 5, offset: 61106},
+							pos: position{line: 1895, col: 5, offset: 61095},
 							expr: &litMatcher{
-								pos:        position{line: 1885, col: 36, offset: 60755},
+								pos:        position{line: 1882, col: 36, offset: 60744},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1899, col: 5, offset: 61143},
+							pos:   position{line: 1896, col: 5, offset: 61132},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1899, col: 14, offset: 61152},
+								pos:  position{line: 1896, col: 14, offset: 61141},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41244,29 +41324,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldText",
-			pos:  position{line: 1924, col: 1, offset: 61832},
+			pos:  position{line: 1921, col: 1, offset: 61821},
 			expr: &actionExpr{
-				pos: position{line: 1925, col: 5, offset: 61860},
+				pos: position{line: 1922, col: 5, offset: 61849},
 				run: (*parser).callonSingleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1925, col: 5, offset: 61860},
+					pos: position{line: 1922, col: 5, offset: 61849},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1908, col: 5, offset: 61386},
+							pos:        position{line: 1905, col: 5, offset: 61375},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1909, col: 5, offset: 61395},
+							pos: position{line: 1906, col: 5, offset: 61384},
 							run: (*parser).callonSingleQuoteBoldText4,
 						},
 						&andExpr{
-							pos: position{line: 1913, col: 5, offset: 61513},
+							pos: position{line: 1910, col: 5, offset: 61502},
 							expr: &notExpr{
-								pos: position{line: 1913, col: 7, offset: 61515},
+								pos: position{line: 1910, col: 7, offset: 61504},
 								expr: &litMatcher{
-									pos:        position{line: 1913, col: 8, offset: 61516},
+									pos:        position{line: 1910, col: 8, offset: 61505},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41274,38 +41354,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1926, col: 5, offset: 61898},
+							pos:   position{line: 1923, col: 5, offset: 61887},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1926, col: 15, offset: 61908},
+								pos:  position{line: 1923, col: 15, offset: 61897},
 								name: "SingleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1916, col: 5, offset: 61636},
+							pos:        position{line: 1913, col: 5, offset: 61625},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&notExpr{
-							pos: position{line: 1917, col: 5, offset: 61645},
+							pos: position{line: 1914, col: 5, offset: 61634},
 							expr: &litMatcher{
-								pos:        position{line: 1917, col: 6, offset: 61646},
+								pos:        position{line: 1914, col: 6, offset: 61635},
 								val:        "*",
 								ignoreCase: false,
 								want:       "\"*\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1918, col: 5, offset: 61709},
+							pos: position{line: 1915, col: 5, offset: 61698},
 							run: (*parser).callonSingleQuoteBoldText13,
 						},
 						&andExpr{
-							pos: position{line: 1922, col: 5, offset: 61818},
+							pos: position{line: 1919, col: 5, offset: 61807},
 							expr: &notExpr{
-								pos: position{line: 1922, col: 7, offset: 61820},
+								pos: position{line: 1919, col: 7, offset: 61809},
 								expr: &charClassMatcher{
-									pos:        position{line: 2766, col: 13, offset: 88047},
+									pos:        position{line: 2763, col: 13, offset: 88036},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -41319,20 +41399,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElements",
-			pos:  position{line: 1931, col: 1, offset: 62068},
+			pos:  position{line: 1928, col: 1, offset: 62057},
 			expr: &actionExpr{
-				pos: position{line: 1932, col: 5, offset: 62105},
+				pos: position{line: 1929, col: 5, offset: 62094},
 				run: (*parser).callonSingleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1932, col: 5, offset: 62105},
+					pos: position{line: 1929, col: 5, offset: 62094},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1932, col: 5, offset: 62105},
+							pos: position{line: 1929, col: 5, offset: 62094},
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 10, offset: 90952},
+								pos: position{line: 2873, col: 10, offset: 90962},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2876, col: 10, offset: 90952},
+									pos:        position{line: 2873, col: 10, offset: 90962},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41341,18 +41421,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1933, col: 5, offset: 62144},
+							pos:   position{line: 1930, col: 5, offset: 62133},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1933, col: 14, offset: 62153},
+								pos: position{line: 1930, col: 14, offset: 62142},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1933, col: 15, offset: 62154},
+									pos:  position{line: 1930, col: 15, offset: 62143},
 									name: "SingleQuoteBoldTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1934, col: 5, offset: 62188},
+							pos: position{line: 1931, col: 5, offset: 62177},
 							run: (*parser).callonSingleQuoteBoldTextElements9,
 						},
 					},
@@ -41361,49 +41441,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElement",
-			pos:  position{line: 1940, col: 1, offset: 62329},
+			pos:  position{line: 1937, col: 1, offset: 62318},
 			expr: &actionExpr{
-				pos: position{line: 1941, col: 5, offset: 62364},
+				pos: position{line: 1938, col: 5, offset: 62353},
 				run: (*parser).callonSingleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1941, col: 5, offset: 62364},
+					pos: position{line: 1938, col: 5, offset: 62353},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2893, col: 11, offset: 91286},
+							pos: position{line: 2890, col: 11, offset: 91296},
 							expr: &anyMatcher{
-								line: 2893, col: 13, offset: 91288,
+								line: 2890, col: 13, offset: 91298,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1942, col: 5, offset: 62392},
+							pos: position{line: 1939, col: 5, offset: 62381},
 							expr: &seqExpr{
-								pos: position{line: 1916, col: 5, offset: 61636},
+								pos: position{line: 1913, col: 5, offset: 61625},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1916, col: 5, offset: 61636},
+										pos:        position{line: 1913, col: 5, offset: 61625},
 										val:        "*",
 										ignoreCase: false,
 										want:       "\"*\"",
 									},
 									&notExpr{
-										pos: position{line: 1917, col: 5, offset: 61645},
+										pos: position{line: 1914, col: 5, offset: 61634},
 										expr: &litMatcher{
-											pos:        position{line: 1917, col: 6, offset: 61646},
+											pos:        position{line: 1914, col: 6, offset: 61635},
 											val:        "*",
 											ignoreCase: false,
 											want:       "\"*\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1918, col: 5, offset: 61709},
+										pos: position{line: 1915, col: 5, offset: 61698},
 										run: (*parser).callonSingleQuoteBoldTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 1922, col: 5, offset: 61818},
+										pos: position{line: 1919, col: 5, offset: 61807},
 										expr: &notExpr{
-											pos: position{line: 1922, col: 7, offset: 61820},
+											pos: position{line: 1919, col: 7, offset: 61809},
 											expr: &charClassMatcher{
-												pos:        position{line: 2766, col: 13, offset: 88047},
+												pos:        position{line: 2763, col: 13, offset: 88036},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41415,10 +41495,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1943, col: 5, offset: 62429},
+							pos:   position{line: 1940, col: 5, offset: 62418},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1943, col: 14, offset: 62438},
+								pos:  position{line: 1940, col: 14, offset: 62427},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41428,35 +41508,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedBoldText",
-			pos:  position{line: 1948, col: 1, offset: 62526},
+			pos:  position{line: 1945, col: 1, offset: 62515},
 			expr: &choiceExpr{
-				pos: position{line: 1950, col: 5, offset: 62587},
+				pos: position{line: 1947, col: 5, offset: 62576},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1950, col: 5, offset: 62587},
+						pos: position{line: 1947, col: 5, offset: 62576},
 						run: (*parser).callonEscapedBoldText2,
 						expr: &seqExpr{
-							pos: position{line: 1950, col: 5, offset: 62587},
+							pos: position{line: 1947, col: 5, offset: 62576},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1950, col: 5, offset: 62587},
+									pos:   position{line: 1947, col: 5, offset: 62576},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1856, col: 25, offset: 59934},
+										pos: position{line: 1853, col: 25, offset: 59923},
 										run: (*parser).callonEscapedBoldText5,
 										expr: &seqExpr{
-											pos: position{line: 1856, col: 25, offset: 59934},
+											pos: position{line: 1853, col: 25, offset: 59923},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1856, col: 25, offset: 59934},
+													pos:        position{line: 1853, col: 25, offset: 59923},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1856, col: 30, offset: 59939},
+													pos: position{line: 1853, col: 30, offset: 59928},
 													expr: &litMatcher{
-														pos:        position{line: 1856, col: 30, offset: 59939},
+														pos:        position{line: 1853, col: 30, offset: 59928},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -41467,21 +41547,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1950, col: 40, offset: 62622},
+									pos:        position{line: 1947, col: 40, offset: 62611},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1950, col: 45, offset: 62627},
+									pos:   position{line: 1947, col: 45, offset: 62616},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1950, col: 55, offset: 62637},
+										pos:  position{line: 1947, col: 55, offset: 62626},
 										name: "DoubleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1950, col: 84, offset: 62666},
+									pos:        position{line: 1947, col: 84, offset: 62655},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
@@ -41490,21 +41570,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1954, col: 7, offset: 62830},
+						pos: position{line: 1951, col: 7, offset: 62819},
 						run: (*parser).callonEscapedBoldText14,
 						expr: &seqExpr{
-							pos: position{line: 1954, col: 7, offset: 62830},
+							pos: position{line: 1951, col: 7, offset: 62819},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1954, col: 7, offset: 62830},
+									pos:   position{line: 1951, col: 7, offset: 62819},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1852, col: 25, offset: 59861},
+										pos: position{line: 1849, col: 25, offset: 59850},
 										run: (*parser).callonEscapedBoldText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1852, col: 25, offset: 59861},
+											pos: position{line: 1849, col: 25, offset: 59850},
 											expr: &litMatcher{
-												pos:        position{line: 1852, col: 25, offset: 59861},
+												pos:        position{line: 1849, col: 25, offset: 59850},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41513,21 +41593,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1954, col: 42, offset: 62865},
+									pos:        position{line: 1951, col: 42, offset: 62854},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1954, col: 47, offset: 62870},
+									pos:   position{line: 1951, col: 47, offset: 62859},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1954, col: 57, offset: 62880},
+										pos:  position{line: 1951, col: 57, offset: 62869},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1954, col: 86, offset: 62909},
+									pos:        position{line: 1951, col: 86, offset: 62898},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41536,21 +41616,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1959, col: 7, offset: 63111},
+						pos: position{line: 1956, col: 7, offset: 63100},
 						run: (*parser).callonEscapedBoldText24,
 						expr: &seqExpr{
-							pos: position{line: 1959, col: 7, offset: 63111},
+							pos: position{line: 1956, col: 7, offset: 63100},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1959, col: 7, offset: 63111},
+									pos:   position{line: 1956, col: 7, offset: 63100},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1852, col: 25, offset: 59861},
+										pos: position{line: 1849, col: 25, offset: 59850},
 										run: (*parser).callonEscapedBoldText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1852, col: 25, offset: 59861},
+											pos: position{line: 1849, col: 25, offset: 59850},
 											expr: &litMatcher{
-												pos:        position{line: 1852, col: 25, offset: 59861},
+												pos:        position{line: 1849, col: 25, offset: 59850},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41559,21 +41639,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1959, col: 42, offset: 63146},
+									pos:        position{line: 1956, col: 42, offset: 63135},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1959, col: 46, offset: 63150},
+									pos:   position{line: 1956, col: 46, offset: 63139},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1959, col: 56, offset: 63160},
+										pos:  position{line: 1956, col: 56, offset: 63149},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1959, col: 85, offset: 63189},
+									pos:        position{line: 1956, col: 85, offset: 63178},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41586,29 +41666,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicText",
-			pos:  position{line: 1976, col: 1, offset: 63669},
+			pos:  position{line: 1973, col: 1, offset: 63658},
 			expr: &actionExpr{
-				pos: position{line: 1977, col: 5, offset: 63699},
+				pos: position{line: 1974, col: 5, offset: 63688},
 				run: (*parser).callonDoubleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 1977, col: 5, offset: 63699},
+					pos: position{line: 1974, col: 5, offset: 63688},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1972, col: 40, offset: 63620},
+							pos:        position{line: 1969, col: 40, offset: 63609},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1978, col: 5, offset: 63740},
+							pos:   position{line: 1975, col: 5, offset: 63729},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1978, col: 15, offset: 63750},
+								pos:  position{line: 1975, col: 15, offset: 63739},
 								name: "DoubleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1974, col: 38, offset: 63663},
+							pos:        position{line: 1971, col: 38, offset: 63652},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
@@ -41619,44 +41699,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElements",
-			pos:  position{line: 1983, col: 1, offset: 63915},
+			pos:  position{line: 1980, col: 1, offset: 63904},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1983, col: 34, offset: 63948},
+				pos: position{line: 1980, col: 34, offset: 63937},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1983, col: 34, offset: 63948},
+					pos:  position{line: 1980, col: 34, offset: 63937},
 					name: "DoubleQuoteItalicTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteItalicTextElement",
-			pos:  position{line: 1985, col: 1, offset: 63980},
+			pos:  position{line: 1982, col: 1, offset: 63969},
 			expr: &actionExpr{
-				pos: position{line: 1986, col: 5, offset: 64017},
+				pos: position{line: 1983, col: 5, offset: 64006},
 				run: (*parser).callonDoubleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1986, col: 5, offset: 64017},
+					pos: position{line: 1983, col: 5, offset: 64006},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2893, col: 11, offset: 91286},
+							pos: position{line: 2890, col: 11, offset: 91296},
 							expr: &anyMatcher{
-								line: 2893, col: 13, offset: 91288,
+								line: 2890, col: 13, offset: 91298,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1987, col: 5, offset: 64028},
+							pos: position{line: 1984, col: 5, offset: 64017},
 							expr: &litMatcher{
-								pos:        position{line: 1974, col: 38, offset: 63663},
+								pos:        position{line: 1971, col: 38, offset: 63652},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1988, col: 5, offset: 64067},
+							pos:   position{line: 1985, col: 5, offset: 64056},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1988, col: 14, offset: 64076},
+								pos:  position{line: 1985, col: 14, offset: 64065},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41666,29 +41746,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicText",
-			pos:  position{line: 2014, col: 1, offset: 64760},
+			pos:  position{line: 2011, col: 1, offset: 64749},
 			expr: &actionExpr{
-				pos: position{line: 2015, col: 5, offset: 64790},
+				pos: position{line: 2012, col: 5, offset: 64779},
 				run: (*parser).callonSingleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2015, col: 5, offset: 64790},
+					pos: position{line: 2012, col: 5, offset: 64779},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1997, col: 5, offset: 64318},
+							pos:        position{line: 1994, col: 5, offset: 64307},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1998, col: 5, offset: 64327},
+							pos: position{line: 1995, col: 5, offset: 64316},
 							run: (*parser).callonSingleQuoteItalicText4,
 						},
 						&andExpr{
-							pos: position{line: 2002, col: 5, offset: 64447},
+							pos: position{line: 1999, col: 5, offset: 64436},
 							expr: &notExpr{
-								pos: position{line: 2002, col: 7, offset: 64449},
+								pos: position{line: 1999, col: 7, offset: 64438},
 								expr: &litMatcher{
-									pos:        position{line: 2002, col: 8, offset: 64450},
+									pos:        position{line: 1999, col: 8, offset: 64439},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -41696,38 +41776,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2016, col: 5, offset: 64830},
+							pos:   position{line: 2013, col: 5, offset: 64819},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2016, col: 15, offset: 64840},
+								pos:  position{line: 2013, col: 15, offset: 64829},
 								name: "SingleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2006, col: 5, offset: 64560},
+							pos:        position{line: 2003, col: 5, offset: 64549},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&notExpr{
-							pos: position{line: 2007, col: 5, offset: 64569},
+							pos: position{line: 2004, col: 5, offset: 64558},
 							expr: &litMatcher{
-								pos:        position{line: 2007, col: 6, offset: 64570},
+								pos:        position{line: 2004, col: 6, offset: 64559},
 								val:        "_",
 								ignoreCase: false,
 								want:       "\"_\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2008, col: 5, offset: 64635},
+							pos: position{line: 2005, col: 5, offset: 64624},
 							run: (*parser).callonSingleQuoteItalicText13,
 						},
 						&andExpr{
-							pos: position{line: 2012, col: 5, offset: 64746},
+							pos: position{line: 2009, col: 5, offset: 64735},
 							expr: &notExpr{
-								pos: position{line: 2012, col: 7, offset: 64748},
+								pos: position{line: 2009, col: 7, offset: 64737},
 								expr: &charClassMatcher{
-									pos:        position{line: 2766, col: 13, offset: 88047},
+									pos:        position{line: 2763, col: 13, offset: 88036},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -41741,20 +41821,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElements",
-			pos:  position{line: 2021, col: 1, offset: 65007},
+			pos:  position{line: 2018, col: 1, offset: 64996},
 			expr: &actionExpr{
-				pos: position{line: 2022, col: 5, offset: 65045},
+				pos: position{line: 2019, col: 5, offset: 65034},
 				run: (*parser).callonSingleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2022, col: 5, offset: 65045},
+					pos: position{line: 2019, col: 5, offset: 65034},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2022, col: 5, offset: 65045},
+							pos: position{line: 2019, col: 5, offset: 65034},
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 10, offset: 90952},
+								pos: position{line: 2873, col: 10, offset: 90962},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2876, col: 10, offset: 90952},
+									pos:        position{line: 2873, col: 10, offset: 90962},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41763,18 +41843,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2023, col: 5, offset: 65084},
+							pos:   position{line: 2020, col: 5, offset: 65073},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2023, col: 14, offset: 65093},
+								pos: position{line: 2020, col: 14, offset: 65082},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2023, col: 15, offset: 65094},
+									pos:  position{line: 2020, col: 15, offset: 65083},
 									name: "SingleQuoteItalicTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2024, col: 5, offset: 65129},
+							pos: position{line: 2021, col: 5, offset: 65118},
 							run: (*parser).callonSingleQuoteItalicTextElements9,
 						},
 					},
@@ -41783,49 +41863,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElement",
-			pos:  position{line: 2030, col: 1, offset: 65270},
+			pos:  position{line: 2027, col: 1, offset: 65259},
 			expr: &actionExpr{
-				pos: position{line: 2031, col: 5, offset: 65307},
+				pos: position{line: 2028, col: 5, offset: 65296},
 				run: (*parser).callonSingleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2031, col: 5, offset: 65307},
+					pos: position{line: 2028, col: 5, offset: 65296},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2893, col: 11, offset: 91286},
+							pos: position{line: 2890, col: 11, offset: 91296},
 							expr: &anyMatcher{
-								line: 2893, col: 13, offset: 91288,
+								line: 2890, col: 13, offset: 91298,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2032, col: 5, offset: 65318},
+							pos: position{line: 2029, col: 5, offset: 65307},
 							expr: &seqExpr{
-								pos: position{line: 2006, col: 5, offset: 64560},
+								pos: position{line: 2003, col: 5, offset: 64549},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2006, col: 5, offset: 64560},
+										pos:        position{line: 2003, col: 5, offset: 64549},
 										val:        "_",
 										ignoreCase: false,
 										want:       "\"_\"",
 									},
 									&notExpr{
-										pos: position{line: 2007, col: 5, offset: 64569},
+										pos: position{line: 2004, col: 5, offset: 64558},
 										expr: &litMatcher{
-											pos:        position{line: 2007, col: 6, offset: 64570},
+											pos:        position{line: 2004, col: 6, offset: 64559},
 											val:        "_",
 											ignoreCase: false,
 											want:       "\"_\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2008, col: 5, offset: 64635},
+										pos: position{line: 2005, col: 5, offset: 64624},
 										run: (*parser).callonSingleQuoteItalicTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2012, col: 5, offset: 64746},
+										pos: position{line: 2009, col: 5, offset: 64735},
 										expr: &notExpr{
-											pos: position{line: 2012, col: 7, offset: 64748},
+											pos: position{line: 2009, col: 7, offset: 64737},
 											expr: &charClassMatcher{
-												pos:        position{line: 2766, col: 13, offset: 88047},
+												pos:        position{line: 2763, col: 13, offset: 88036},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41837,10 +41917,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2033, col: 5, offset: 65357},
+							pos:   position{line: 2030, col: 5, offset: 65346},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2033, col: 14, offset: 65366},
+								pos:  position{line: 2030, col: 14, offset: 65355},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41850,35 +41930,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedItalicText",
-			pos:  position{line: 2038, col: 1, offset: 65454},
+			pos:  position{line: 2035, col: 1, offset: 65443},
 			expr: &choiceExpr{
-				pos: position{line: 2040, col: 5, offset: 65519},
+				pos: position{line: 2037, col: 5, offset: 65508},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2040, col: 5, offset: 65519},
+						pos: position{line: 2037, col: 5, offset: 65508},
 						run: (*parser).callonEscapedItalicText2,
 						expr: &seqExpr{
-							pos: position{line: 2040, col: 5, offset: 65519},
+							pos: position{line: 2037, col: 5, offset: 65508},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2040, col: 5, offset: 65519},
+									pos:   position{line: 2037, col: 5, offset: 65508},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1856, col: 25, offset: 59934},
+										pos: position{line: 1853, col: 25, offset: 59923},
 										run: (*parser).callonEscapedItalicText5,
 										expr: &seqExpr{
-											pos: position{line: 1856, col: 25, offset: 59934},
+											pos: position{line: 1853, col: 25, offset: 59923},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1856, col: 25, offset: 59934},
+													pos:        position{line: 1853, col: 25, offset: 59923},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1856, col: 30, offset: 59939},
+													pos: position{line: 1853, col: 30, offset: 59928},
 													expr: &litMatcher{
-														pos:        position{line: 1856, col: 30, offset: 59939},
+														pos:        position{line: 1853, col: 30, offset: 59928},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -41889,21 +41969,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2040, col: 40, offset: 65554},
+									pos:        position{line: 2037, col: 40, offset: 65543},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2040, col: 45, offset: 65559},
+									pos:   position{line: 2037, col: 45, offset: 65548},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2040, col: 55, offset: 65569},
+										pos:  position{line: 2037, col: 55, offset: 65558},
 										name: "DoubleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2040, col: 86, offset: 65600},
+									pos:        position{line: 2037, col: 86, offset: 65589},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
@@ -41912,21 +41992,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2044, col: 7, offset: 65765},
+						pos: position{line: 2041, col: 7, offset: 65754},
 						run: (*parser).callonEscapedItalicText14,
 						expr: &seqExpr{
-							pos: position{line: 2044, col: 7, offset: 65765},
+							pos: position{line: 2041, col: 7, offset: 65754},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2044, col: 7, offset: 65765},
+									pos:   position{line: 2041, col: 7, offset: 65754},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1852, col: 25, offset: 59861},
+										pos: position{line: 1849, col: 25, offset: 59850},
 										run: (*parser).callonEscapedItalicText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1852, col: 25, offset: 59861},
+											pos: position{line: 1849, col: 25, offset: 59850},
 											expr: &litMatcher{
-												pos:        position{line: 1852, col: 25, offset: 59861},
+												pos:        position{line: 1849, col: 25, offset: 59850},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41935,21 +42015,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2044, col: 42, offset: 65800},
+									pos:        position{line: 2041, col: 42, offset: 65789},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2044, col: 47, offset: 65805},
+									pos:   position{line: 2041, col: 47, offset: 65794},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2044, col: 57, offset: 65815},
+										pos:  position{line: 2041, col: 57, offset: 65804},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2044, col: 88, offset: 65846},
+									pos:        position{line: 2041, col: 88, offset: 65835},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -41958,21 +42038,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2049, col: 7, offset: 66087},
+						pos: position{line: 2046, col: 7, offset: 66076},
 						run: (*parser).callonEscapedItalicText24,
 						expr: &seqExpr{
-							pos: position{line: 2049, col: 7, offset: 66087},
+							pos: position{line: 2046, col: 7, offset: 66076},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2049, col: 7, offset: 66087},
+									pos:   position{line: 2046, col: 7, offset: 66076},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1852, col: 25, offset: 59861},
+										pos: position{line: 1849, col: 25, offset: 59850},
 										run: (*parser).callonEscapedItalicText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1852, col: 25, offset: 59861},
+											pos: position{line: 1849, col: 25, offset: 59850},
 											expr: &litMatcher{
-												pos:        position{line: 1852, col: 25, offset: 59861},
+												pos:        position{line: 1849, col: 25, offset: 59850},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41981,21 +42061,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2049, col: 42, offset: 66122},
+									pos:        position{line: 2046, col: 42, offset: 66111},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2049, col: 46, offset: 66126},
+									pos:   position{line: 2046, col: 46, offset: 66115},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2049, col: 56, offset: 66136},
+										pos:  position{line: 2046, col: 56, offset: 66125},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2049, col: 87, offset: 66167},
+									pos:        position{line: 2046, col: 87, offset: 66156},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -42008,29 +42088,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceText",
-			pos:  position{line: 2066, col: 1, offset: 66731},
+			pos:  position{line: 2063, col: 1, offset: 66720},
 			expr: &actionExpr{
-				pos: position{line: 2067, col: 5, offset: 66764},
+				pos: position{line: 2064, col: 5, offset: 66753},
 				run: (*parser).callonDoubleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2067, col: 5, offset: 66764},
+					pos: position{line: 2064, col: 5, offset: 66753},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2062, col: 43, offset: 66679},
+							pos:        position{line: 2059, col: 43, offset: 66668},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2068, col: 5, offset: 66808},
+							pos:   position{line: 2065, col: 5, offset: 66797},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2068, col: 15, offset: 66818},
+								pos:  position{line: 2065, col: 15, offset: 66807},
 								name: "DoubleQuoteMonospaceTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2064, col: 41, offset: 66725},
+							pos:        position{line: 2061, col: 41, offset: 66714},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
@@ -42041,44 +42121,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElements",
-			pos:  position{line: 2073, col: 1, offset: 66993},
+			pos:  position{line: 2070, col: 1, offset: 66982},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 2073, col: 37, offset: 67029},
+				pos: position{line: 2070, col: 37, offset: 67018},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2073, col: 37, offset: 67029},
+					pos:  position{line: 2070, col: 37, offset: 67018},
 					name: "DoubleQuoteMonospaceTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElement",
-			pos:  position{line: 2075, col: 1, offset: 67096},
+			pos:  position{line: 2072, col: 1, offset: 67085},
 			expr: &actionExpr{
-				pos: position{line: 2076, col: 5, offset: 67136},
+				pos: position{line: 2073, col: 5, offset: 67125},
 				run: (*parser).callonDoubleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2076, col: 5, offset: 67136},
+					pos: position{line: 2073, col: 5, offset: 67125},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2893, col: 11, offset: 91286},
+							pos: position{line: 2890, col: 11, offset: 91296},
 							expr: &anyMatcher{
-								line: 2893, col: 13, offset: 91288,
+								line: 2890, col: 13, offset: 91298,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2077, col: 5, offset: 67147},
+							pos: position{line: 2074, col: 5, offset: 67136},
 							expr: &litMatcher{
-								pos:        position{line: 2064, col: 41, offset: 66725},
+								pos:        position{line: 2061, col: 41, offset: 66714},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2078, col: 5, offset: 67189},
+							pos:   position{line: 2075, col: 5, offset: 67178},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2078, col: 14, offset: 67198},
+								pos:  position{line: 2075, col: 14, offset: 67187},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42088,33 +42168,33 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextEndDelimiter",
-			pos:  position{line: 2096, col: 1, offset: 67740},
+			pos:  position{line: 2093, col: 1, offset: 67729},
 			expr: &seqExpr{
-				pos: position{line: 2097, col: 5, offset: 67785},
+				pos: position{line: 2094, col: 5, offset: 67774},
 				exprs: []interface{}{
 					&notExpr{
-						pos: position{line: 2097, col: 5, offset: 67785},
+						pos: position{line: 2094, col: 5, offset: 67774},
 						expr: &ruleRefExpr{
-							pos:  position{line: 2097, col: 6, offset: 67786},
+							pos:  position{line: 2094, col: 6, offset: 67775},
 							name: "QuotationMark",
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 2098, col: 5, offset: 67805},
+						pos:        position{line: 2095, col: 5, offset: 67794},
 						val:        "`",
 						ignoreCase: false,
 						want:       "\"`\"",
 					},
 					&andCodeExpr{
-						pos: position{line: 2099, col: 5, offset: 67813},
+						pos: position{line: 2096, col: 5, offset: 67802},
 						run: (*parser).callonSingleQuoteMonospaceTextEndDelimiter5,
 					},
 					&andExpr{
-						pos: position{line: 2103, col: 5, offset: 67927},
+						pos: position{line: 2100, col: 5, offset: 67916},
 						expr: &notExpr{
-							pos: position{line: 2103, col: 7, offset: 67929},
+							pos: position{line: 2100, col: 7, offset: 67918},
 							expr: &charClassMatcher{
-								pos:        position{line: 2766, col: 13, offset: 88047},
+								pos:        position{line: 2763, col: 13, offset: 88036},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -42127,29 +42207,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceText",
-			pos:  position{line: 2106, col: 1, offset: 67946},
+			pos:  position{line: 2103, col: 1, offset: 67935},
 			expr: &actionExpr{
-				pos: position{line: 2107, col: 5, offset: 67979},
+				pos: position{line: 2104, col: 5, offset: 67968},
 				run: (*parser).callonSingleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2107, col: 5, offset: 67979},
+					pos: position{line: 2104, col: 5, offset: 67968},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2089, col: 5, offset: 67542},
+							pos:        position{line: 2086, col: 5, offset: 67531},
 							val:        "`",
 							ignoreCase: false,
 							want:       "\"`\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2090, col: 5, offset: 67551},
+							pos: position{line: 2087, col: 5, offset: 67540},
 							run: (*parser).callonSingleQuoteMonospaceText4,
 						},
 						&andExpr{
-							pos: position{line: 2094, col: 5, offset: 67674},
+							pos: position{line: 2091, col: 5, offset: 67663},
 							expr: &notExpr{
-								pos: position{line: 2094, col: 7, offset: 67676},
+								pos: position{line: 2091, col: 7, offset: 67665},
 								expr: &litMatcher{
-									pos:        position{line: 2094, col: 8, offset: 67677},
+									pos:        position{line: 2091, col: 8, offset: 67666},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42157,15 +42237,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2108, col: 5, offset: 68023},
+							pos:   position{line: 2105, col: 5, offset: 68012},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2108, col: 15, offset: 68033},
+								pos:  position{line: 2105, col: 15, offset: 68022},
 								name: "SingleQuoteMonospaceTextElements",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 2109, col: 5, offset: 68072},
+							pos:  position{line: 2106, col: 5, offset: 68061},
 							name: "SingleQuoteMonospaceTextEndDelimiter",
 						},
 					},
@@ -42174,20 +42254,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElements",
-			pos:  position{line: 2113, col: 1, offset: 68209},
+			pos:  position{line: 2110, col: 1, offset: 68198},
 			expr: &actionExpr{
-				pos: position{line: 2114, col: 5, offset: 68250},
+				pos: position{line: 2111, col: 5, offset: 68239},
 				run: (*parser).callonSingleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2114, col: 5, offset: 68250},
+					pos: position{line: 2111, col: 5, offset: 68239},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2114, col: 5, offset: 68250},
+							pos: position{line: 2111, col: 5, offset: 68239},
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 10, offset: 90952},
+								pos: position{line: 2873, col: 10, offset: 90962},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2876, col: 10, offset: 90952},
+									pos:        position{line: 2873, col: 10, offset: 90962},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42196,18 +42276,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2115, col: 5, offset: 68289},
+							pos:   position{line: 2112, col: 5, offset: 68278},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2115, col: 14, offset: 68298},
+								pos: position{line: 2112, col: 14, offset: 68287},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2115, col: 15, offset: 68299},
+									pos:  position{line: 2112, col: 15, offset: 68288},
 									name: "SingleQuoteMonospaceTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2116, col: 5, offset: 68337},
+							pos: position{line: 2113, col: 5, offset: 68326},
 							run: (*parser).callonSingleQuoteMonospaceTextElements9,
 						},
 					},
@@ -42216,31 +42296,31 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElement",
-			pos:  position{line: 2122, col: 1, offset: 68478},
+			pos:  position{line: 2119, col: 1, offset: 68467},
 			expr: &actionExpr{
-				pos: position{line: 2123, col: 5, offset: 68518},
+				pos: position{line: 2120, col: 5, offset: 68507},
 				run: (*parser).callonSingleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2123, col: 5, offset: 68518},
+					pos: position{line: 2120, col: 5, offset: 68507},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2893, col: 11, offset: 91286},
+							pos: position{line: 2890, col: 11, offset: 91296},
 							expr: &anyMatcher{
-								line: 2893, col: 13, offset: 91288,
+								line: 2890, col: 13, offset: 91298,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2124, col: 5, offset: 68529},
+							pos: position{line: 2121, col: 5, offset: 68518},
 							expr: &ruleRefExpr{
-								pos:  position{line: 2124, col: 6, offset: 68530},
+								pos:  position{line: 2121, col: 6, offset: 68519},
 								name: "SingleQuoteMonospaceTextEndDelimiter",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2125, col: 5, offset: 68571},
+							pos:   position{line: 2122, col: 5, offset: 68560},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2125, col: 14, offset: 68580},
+								pos:  position{line: 2122, col: 14, offset: 68569},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42250,35 +42330,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMonospaceText",
-			pos:  position{line: 2130, col: 1, offset: 68668},
+			pos:  position{line: 2127, col: 1, offset: 68657},
 			expr: &choiceExpr{
-				pos: position{line: 2132, col: 5, offset: 68739},
+				pos: position{line: 2129, col: 5, offset: 68728},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2132, col: 5, offset: 68739},
+						pos: position{line: 2129, col: 5, offset: 68728},
 						run: (*parser).callonEscapedMonospaceText2,
 						expr: &seqExpr{
-							pos: position{line: 2132, col: 5, offset: 68739},
+							pos: position{line: 2129, col: 5, offset: 68728},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2132, col: 5, offset: 68739},
+									pos:   position{line: 2129, col: 5, offset: 68728},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1856, col: 25, offset: 59934},
+										pos: position{line: 1853, col: 25, offset: 59923},
 										run: (*parser).callonEscapedMonospaceText5,
 										expr: &seqExpr{
-											pos: position{line: 1856, col: 25, offset: 59934},
+											pos: position{line: 1853, col: 25, offset: 59923},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1856, col: 25, offset: 59934},
+													pos:        position{line: 1853, col: 25, offset: 59923},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1856, col: 30, offset: 59939},
+													pos: position{line: 1853, col: 30, offset: 59928},
 													expr: &litMatcher{
-														pos:        position{line: 1856, col: 30, offset: 59939},
+														pos:        position{line: 1853, col: 30, offset: 59928},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42289,21 +42369,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2132, col: 40, offset: 68774},
+									pos:        position{line: 2129, col: 40, offset: 68763},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2132, col: 45, offset: 68779},
+									pos:   position{line: 2129, col: 45, offset: 68768},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2132, col: 55, offset: 68789},
+										pos:  position{line: 2129, col: 55, offset: 68778},
 										name: "DoubleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2132, col: 89, offset: 68823},
+									pos:        position{line: 2129, col: 89, offset: 68812},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
@@ -42312,21 +42392,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2136, col: 7, offset: 68992},
+						pos: position{line: 2133, col: 7, offset: 68981},
 						run: (*parser).callonEscapedMonospaceText14,
 						expr: &seqExpr{
-							pos: position{line: 2136, col: 7, offset: 68992},
+							pos: position{line: 2133, col: 7, offset: 68981},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2136, col: 7, offset: 68992},
+									pos:   position{line: 2133, col: 7, offset: 68981},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1852, col: 25, offset: 59861},
+										pos: position{line: 1849, col: 25, offset: 59850},
 										run: (*parser).callonEscapedMonospaceText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1852, col: 25, offset: 59861},
+											pos: position{line: 1849, col: 25, offset: 59850},
 											expr: &litMatcher{
-												pos:        position{line: 1852, col: 25, offset: 59861},
+												pos:        position{line: 1849, col: 25, offset: 59850},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42335,21 +42415,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2136, col: 42, offset: 69027},
+									pos:        position{line: 2133, col: 42, offset: 69016},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2136, col: 47, offset: 69032},
+									pos:   position{line: 2133, col: 47, offset: 69021},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2136, col: 57, offset: 69042},
+										pos:  position{line: 2133, col: 57, offset: 69031},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2136, col: 91, offset: 69076},
+									pos:        position{line: 2133, col: 91, offset: 69065},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42358,21 +42438,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2141, col: 7, offset: 69282},
+						pos: position{line: 2138, col: 7, offset: 69271},
 						run: (*parser).callonEscapedMonospaceText24,
 						expr: &seqExpr{
-							pos: position{line: 2141, col: 7, offset: 69282},
+							pos: position{line: 2138, col: 7, offset: 69271},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2141, col: 7, offset: 69282},
+									pos:   position{line: 2138, col: 7, offset: 69271},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1852, col: 25, offset: 59861},
+										pos: position{line: 1849, col: 25, offset: 59850},
 										run: (*parser).callonEscapedMonospaceText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1852, col: 25, offset: 59861},
+											pos: position{line: 1849, col: 25, offset: 59850},
 											expr: &litMatcher{
-												pos:        position{line: 1852, col: 25, offset: 59861},
+												pos:        position{line: 1849, col: 25, offset: 59850},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42381,21 +42461,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2141, col: 42, offset: 69317},
+									pos:        position{line: 2138, col: 42, offset: 69306},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2141, col: 46, offset: 69321},
+									pos:   position{line: 2138, col: 46, offset: 69310},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2141, col: 56, offset: 69331},
+										pos:  position{line: 2138, col: 56, offset: 69320},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2141, col: 90, offset: 69365},
+									pos:        position{line: 2138, col: 90, offset: 69354},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42408,29 +42488,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedText",
-			pos:  position{line: 2158, col: 1, offset: 69850},
+			pos:  position{line: 2155, col: 1, offset: 69839},
 			expr: &actionExpr{
-				pos: position{line: 2159, col: 5, offset: 69880},
+				pos: position{line: 2156, col: 5, offset: 69869},
 				run: (*parser).callonDoubleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2159, col: 5, offset: 69880},
+					pos: position{line: 2156, col: 5, offset: 69869},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2154, col: 40, offset: 69801},
+							pos:        position{line: 2151, col: 40, offset: 69790},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2160, col: 5, offset: 69921},
+							pos:   position{line: 2157, col: 5, offset: 69910},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2160, col: 15, offset: 69931},
+								pos:  position{line: 2157, col: 15, offset: 69920},
 								name: "DoubleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2156, col: 38, offset: 69844},
+							pos:        position{line: 2153, col: 38, offset: 69833},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
@@ -42441,44 +42521,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElements",
-			pos:  position{line: 2165, col: 1, offset: 70097},
+			pos:  position{line: 2162, col: 1, offset: 70086},
 			expr: &zeroOrMoreExpr{
-				pos: position{line: 2165, col: 34, offset: 70130},
+				pos: position{line: 2162, col: 34, offset: 70119},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2165, col: 34, offset: 70130},
+					pos:  position{line: 2162, col: 34, offset: 70119},
 					name: "DoubleQuoteMarkedTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMarkedTextElement",
-			pos:  position{line: 2167, col: 1, offset: 70161},
+			pos:  position{line: 2164, col: 1, offset: 70150},
 			expr: &actionExpr{
-				pos: position{line: 2168, col: 5, offset: 70230},
+				pos: position{line: 2165, col: 5, offset: 70219},
 				run: (*parser).callonDoubleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2168, col: 5, offset: 70230},
+					pos: position{line: 2165, col: 5, offset: 70219},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2893, col: 11, offset: 91286},
+							pos: position{line: 2890, col: 11, offset: 91296},
 							expr: &anyMatcher{
-								line: 2893, col: 13, offset: 91288,
+								line: 2890, col: 13, offset: 91298,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2169, col: 5, offset: 70241},
+							pos: position{line: 2166, col: 5, offset: 70230},
 							expr: &litMatcher{
-								pos:        position{line: 2156, col: 38, offset: 69844},
+								pos:        position{line: 2153, col: 38, offset: 69833},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2170, col: 5, offset: 70280},
+							pos:   position{line: 2167, col: 5, offset: 70269},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2170, col: 14, offset: 70289},
+								pos:  position{line: 2167, col: 14, offset: 70278},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42488,29 +42568,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedText",
-			pos:  position{line: 2195, col: 1, offset: 70971},
+			pos:  position{line: 2192, col: 1, offset: 70960},
 			expr: &actionExpr{
-				pos: position{line: 2196, col: 5, offset: 71001},
+				pos: position{line: 2193, col: 5, offset: 70990},
 				run: (*parser).callonSingleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2196, col: 5, offset: 71001},
+					pos: position{line: 2193, col: 5, offset: 70990},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2179, col: 5, offset: 70537},
+							pos:        position{line: 2176, col: 5, offset: 70526},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2180, col: 5, offset: 70546},
+							pos: position{line: 2177, col: 5, offset: 70535},
 							run: (*parser).callonSingleQuoteMarkedText4,
 						},
 						&andExpr{
-							pos: position{line: 2184, col: 5, offset: 70666},
+							pos: position{line: 2181, col: 5, offset: 70655},
 							expr: &notExpr{
-								pos: position{line: 2184, col: 7, offset: 70668},
+								pos: position{line: 2181, col: 7, offset: 70657},
 								expr: &litMatcher{
-									pos:        position{line: 2184, col: 8, offset: 70669},
+									pos:        position{line: 2181, col: 8, offset: 70658},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -42518,38 +42598,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2197, col: 5, offset: 71041},
+							pos:   position{line: 2194, col: 5, offset: 71030},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2197, col: 15, offset: 71051},
+								pos:  position{line: 2194, col: 15, offset: 71040},
 								name: "SingleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2187, col: 5, offset: 70774},
+							pos:        position{line: 2184, col: 5, offset: 70763},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&notExpr{
-							pos: position{line: 2188, col: 5, offset: 70782},
+							pos: position{line: 2185, col: 5, offset: 70771},
 							expr: &litMatcher{
-								pos:        position{line: 2188, col: 6, offset: 70783},
+								pos:        position{line: 2185, col: 6, offset: 70772},
 								val:        "#",
 								ignoreCase: false,
 								want:       "\"#\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2189, col: 5, offset: 70846},
+							pos: position{line: 2186, col: 5, offset: 70835},
 							run: (*parser).callonSingleQuoteMarkedText13,
 						},
 						&andExpr{
-							pos: position{line: 2193, col: 5, offset: 70957},
+							pos: position{line: 2190, col: 5, offset: 70946},
 							expr: &notExpr{
-								pos: position{line: 2193, col: 7, offset: 70959},
+								pos: position{line: 2190, col: 7, offset: 70948},
 								expr: &charClassMatcher{
-									pos:        position{line: 2766, col: 13, offset: 88047},
+									pos:        position{line: 2763, col: 13, offset: 88036},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -42563,20 +42643,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElements",
-			pos:  position{line: 2202, col: 1, offset: 71218},
+			pos:  position{line: 2199, col: 1, offset: 71207},
 			expr: &actionExpr{
-				pos: position{line: 2203, col: 5, offset: 71256},
+				pos: position{line: 2200, col: 5, offset: 71245},
 				run: (*parser).callonSingleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2203, col: 5, offset: 71256},
+					pos: position{line: 2200, col: 5, offset: 71245},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2203, col: 5, offset: 71256},
+							pos: position{line: 2200, col: 5, offset: 71245},
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 10, offset: 90952},
+								pos: position{line: 2873, col: 10, offset: 90962},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2876, col: 10, offset: 90952},
+									pos:        position{line: 2873, col: 10, offset: 90962},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42585,18 +42665,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2204, col: 5, offset: 71295},
+							pos:   position{line: 2201, col: 5, offset: 71284},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2204, col: 14, offset: 71304},
+								pos: position{line: 2201, col: 14, offset: 71293},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2204, col: 15, offset: 71305},
+									pos:  position{line: 2201, col: 15, offset: 71294},
 									name: "SingleQuoteMarkedTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2205, col: 5, offset: 71341},
+							pos: position{line: 2202, col: 5, offset: 71330},
 							run: (*parser).callonSingleQuoteMarkedTextElements9,
 						},
 					},
@@ -42605,49 +42685,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElement",
-			pos:  position{line: 2211, col: 1, offset: 71482},
+			pos:  position{line: 2208, col: 1, offset: 71471},
 			expr: &actionExpr{
-				pos: position{line: 2212, col: 5, offset: 71519},
+				pos: position{line: 2209, col: 5, offset: 71508},
 				run: (*parser).callonSingleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2212, col: 5, offset: 71519},
+					pos: position{line: 2209, col: 5, offset: 71508},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2893, col: 11, offset: 91286},
+							pos: position{line: 2890, col: 11, offset: 91296},
 							expr: &anyMatcher{
-								line: 2893, col: 13, offset: 91288,
+								line: 2890, col: 13, offset: 91298,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2213, col: 5, offset: 71530},
+							pos: position{line: 2210, col: 5, offset: 71519},
 							expr: &seqExpr{
-								pos: position{line: 2187, col: 5, offset: 70774},
+								pos: position{line: 2184, col: 5, offset: 70763},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2187, col: 5, offset: 70774},
+										pos:        position{line: 2184, col: 5, offset: 70763},
 										val:        "#",
 										ignoreCase: false,
 										want:       "\"#\"",
 									},
 									&notExpr{
-										pos: position{line: 2188, col: 5, offset: 70782},
+										pos: position{line: 2185, col: 5, offset: 70771},
 										expr: &litMatcher{
-											pos:        position{line: 2188, col: 6, offset: 70783},
+											pos:        position{line: 2185, col: 6, offset: 70772},
 											val:        "#",
 											ignoreCase: false,
 											want:       "\"#\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2189, col: 5, offset: 70846},
+										pos: position{line: 2186, col: 5, offset: 70835},
 										run: (*parser).callonSingleQuoteMarkedTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2193, col: 5, offset: 70957},
+										pos: position{line: 2190, col: 5, offset: 70946},
 										expr: &notExpr{
-											pos: position{line: 2193, col: 7, offset: 70959},
+											pos: position{line: 2190, col: 7, offset: 70948},
 											expr: &charClassMatcher{
-												pos:        position{line: 2766, col: 13, offset: 88047},
+												pos:        position{line: 2763, col: 13, offset: 88036},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42659,10 +42739,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2214, col: 5, offset: 71569},
+							pos:   position{line: 2211, col: 5, offset: 71558},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2214, col: 14, offset: 71578},
+								pos:  position{line: 2211, col: 14, offset: 71567},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42672,35 +42752,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMarkedText",
-			pos:  position{line: 2219, col: 1, offset: 71666},
+			pos:  position{line: 2216, col: 1, offset: 71655},
 			expr: &choiceExpr{
-				pos: position{line: 2221, col: 5, offset: 71730},
+				pos: position{line: 2218, col: 5, offset: 71719},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2221, col: 5, offset: 71730},
+						pos: position{line: 2218, col: 5, offset: 71719},
 						run: (*parser).callonEscapedMarkedText2,
 						expr: &seqExpr{
-							pos: position{line: 2221, col: 5, offset: 71730},
+							pos: position{line: 2218, col: 5, offset: 71719},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2221, col: 5, offset: 71730},
+									pos:   position{line: 2218, col: 5, offset: 71719},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1856, col: 25, offset: 59934},
+										pos: position{line: 1853, col: 25, offset: 59923},
 										run: (*parser).callonEscapedMarkedText5,
 										expr: &seqExpr{
-											pos: position{line: 1856, col: 25, offset: 59934},
+											pos: position{line: 1853, col: 25, offset: 59923},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1856, col: 25, offset: 59934},
+													pos:        position{line: 1853, col: 25, offset: 59923},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1856, col: 30, offset: 59939},
+													pos: position{line: 1853, col: 30, offset: 59928},
 													expr: &litMatcher{
-														pos:        position{line: 1856, col: 30, offset: 59939},
+														pos:        position{line: 1853, col: 30, offset: 59928},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42711,21 +42791,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2221, col: 40, offset: 71765},
+									pos:        position{line: 2218, col: 40, offset: 71754},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2221, col: 45, offset: 71770},
+									pos:   position{line: 2218, col: 45, offset: 71759},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2221, col: 55, offset: 71780},
+										pos:  position{line: 2218, col: 55, offset: 71769},
 										name: "DoubleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2221, col: 86, offset: 71811},
+									pos:        position{line: 2218, col: 86, offset: 71800},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
@@ -42734,21 +42814,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2225, col: 7, offset: 71976},
+						pos: position{line: 2222, col: 7, offset: 71965},
 						run: (*parser).callonEscapedMarkedText14,
 						expr: &seqExpr{
-							pos: position{line: 2225, col: 7, offset: 71976},
+							pos: position{line: 2222, col: 7, offset: 71965},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2225, col: 7, offset: 71976},
+									pos:   position{line: 2222, col: 7, offset: 71965},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1852, col: 25, offset: 59861},
+										pos: position{line: 1849, col: 25, offset: 59850},
 										run: (*parser).callonEscapedMarkedText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1852, col: 25, offset: 59861},
+											pos: position{line: 1849, col: 25, offset: 59850},
 											expr: &litMatcher{
-												pos:        position{line: 1852, col: 25, offset: 59861},
+												pos:        position{line: 1849, col: 25, offset: 59850},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42757,21 +42837,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2225, col: 42, offset: 72011},
+									pos:        position{line: 2222, col: 42, offset: 72000},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2225, col: 47, offset: 72016},
+									pos:   position{line: 2222, col: 47, offset: 72005},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2225, col: 57, offset: 72026},
+										pos:  position{line: 2222, col: 57, offset: 72015},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2225, col: 88, offset: 72057},
+									pos:        position{line: 2222, col: 88, offset: 72046},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -42780,21 +42860,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2230, col: 7, offset: 72260},
+						pos: position{line: 2227, col: 7, offset: 72249},
 						run: (*parser).callonEscapedMarkedText24,
 						expr: &seqExpr{
-							pos: position{line: 2230, col: 7, offset: 72260},
+							pos: position{line: 2227, col: 7, offset: 72249},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2230, col: 7, offset: 72260},
+									pos:   position{line: 2227, col: 7, offset: 72249},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1852, col: 25, offset: 59861},
+										pos: position{line: 1849, col: 25, offset: 59850},
 										run: (*parser).callonEscapedMarkedText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1852, col: 25, offset: 59861},
+											pos: position{line: 1849, col: 25, offset: 59850},
 											expr: &litMatcher{
-												pos:        position{line: 1852, col: 25, offset: 59861},
+												pos:        position{line: 1849, col: 25, offset: 59850},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42803,21 +42883,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2230, col: 42, offset: 72295},
+									pos:        position{line: 2227, col: 42, offset: 72284},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2230, col: 46, offset: 72299},
+									pos:   position{line: 2227, col: 46, offset: 72288},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2230, col: 56, offset: 72309},
+										pos:  position{line: 2227, col: 56, offset: 72298},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2230, col: 87, offset: 72340},
+									pos:        position{line: 2227, col: 87, offset: 72329},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -42830,29 +42910,29 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptText",
-			pos:  position{line: 2237, col: 1, offset: 72607},
+			pos:  position{line: 2234, col: 1, offset: 72596},
 			expr: &actionExpr{
-				pos: position{line: 2238, col: 5, offset: 72629},
+				pos: position{line: 2235, col: 5, offset: 72618},
 				run: (*parser).callonSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2238, col: 5, offset: 72629},
+					pos: position{line: 2235, col: 5, offset: 72618},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2244, col: 27, offset: 72844},
+							pos:        position{line: 2241, col: 27, offset: 72833},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2239, col: 5, offset: 72656},
+							pos:   position{line: 2236, col: 5, offset: 72645},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2239, col: 14, offset: 72665},
+								pos:  position{line: 2236, col: 14, offset: 72654},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2244, col: 27, offset: 72844},
+							pos:        position{line: 2241, col: 27, offset: 72833},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -42863,43 +42943,43 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptTextElement",
-			pos:  position{line: 2246, col: 1, offset: 72849},
+			pos:  position{line: 2243, col: 1, offset: 72838},
 			expr: &choiceExpr{
-				pos: position{line: 2246, col: 25, offset: 72873},
+				pos: position{line: 2243, col: 25, offset: 72862},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2246, col: 25, offset: 72873},
+						pos:  position{line: 2243, col: 25, offset: 72862},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2248, col: 21, offset: 72925},
+						pos: position{line: 2245, col: 21, offset: 72914},
 						run: (*parser).callonSubscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2248, col: 21, offset: 72925},
+							pos:   position{line: 2245, col: 21, offset: 72914},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2248, col: 30, offset: 72934},
+								pos: position{line: 2245, col: 30, offset: 72923},
 								expr: &choiceExpr{
-									pos: position{line: 2248, col: 31, offset: 72935},
+									pos: position{line: 2245, col: 31, offset: 72924},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2470, col: 5, offset: 79405},
+											pos: position{line: 2467, col: 5, offset: 79394},
 											run: (*parser).callonSubscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2470, col: 5, offset: 79405},
+												pos: position{line: 2467, col: 5, offset: 79394},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2470, col: 5, offset: 79405},
+														pos: position{line: 2467, col: 5, offset: 79394},
 														run: (*parser).callonSubscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2473, col: 5, offset: 79481},
+														pos:   position{line: 2470, col: 5, offset: 79470},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2474, col: 9, offset: 79499},
+															pos: position{line: 2471, col: 9, offset: 79488},
 															run: (*parser).callonSubscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2474, col: 10, offset: 79500},
+																pos:        position{line: 2471, col: 10, offset: 79489},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -42911,7 +42991,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2248, col: 50, offset: 72954},
+											pos:        position{line: 2245, col: 50, offset: 72943},
 											val:        "[^\\r\\n ~]",
 											chars:      []rune{'\r', '\n', ' ', '~'},
 											ignoreCase: false,
@@ -42927,23 +43007,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2252, col: 1, offset: 73004},
+			pos:  position{line: 2249, col: 1, offset: 72993},
 			expr: &actionExpr{
-				pos: position{line: 2254, col: 5, offset: 73071},
+				pos: position{line: 2251, col: 5, offset: 73060},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2254, col: 5, offset: 73071},
+					pos: position{line: 2251, col: 5, offset: 73060},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2254, col: 5, offset: 73071},
+							pos:   position{line: 2251, col: 5, offset: 73060},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1852, col: 25, offset: 59861},
+								pos: position{line: 1849, col: 25, offset: 59850},
 								run: (*parser).callonEscapedSubscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1852, col: 25, offset: 59861},
+									pos: position{line: 1849, col: 25, offset: 59850},
 									expr: &litMatcher{
-										pos:        position{line: 1852, col: 25, offset: 59861},
+										pos:        position{line: 1849, col: 25, offset: 59850},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -42952,21 +43032,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2244, col: 27, offset: 72844},
+							pos:        position{line: 2241, col: 27, offset: 72833},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2256, col: 5, offset: 73139},
+							pos:   position{line: 2253, col: 5, offset: 73128},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2256, col: 14, offset: 73148},
+								pos:  position{line: 2253, col: 14, offset: 73137},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2244, col: 27, offset: 72844},
+							pos:        position{line: 2241, col: 27, offset: 72833},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -42977,29 +43057,29 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2264, col: 1, offset: 73411},
+			pos:  position{line: 2261, col: 1, offset: 73400},
 			expr: &actionExpr{
-				pos: position{line: 2265, col: 5, offset: 73435},
+				pos: position{line: 2262, col: 5, offset: 73424},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2265, col: 5, offset: 73435},
+					pos: position{line: 2262, col: 5, offset: 73424},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2271, col: 29, offset: 73662},
+							pos:        position{line: 2268, col: 29, offset: 73651},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2266, col: 5, offset: 73465},
+							pos:   position{line: 2263, col: 5, offset: 73454},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2266, col: 14, offset: 73474},
+								pos:  position{line: 2263, col: 14, offset: 73463},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2271, col: 29, offset: 73662},
+							pos:        position{line: 2268, col: 29, offset: 73651},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -43010,43 +43090,43 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2273, col: 1, offset: 73667},
+			pos:  position{line: 2270, col: 1, offset: 73656},
 			expr: &choiceExpr{
-				pos: position{line: 2273, col: 27, offset: 73693},
+				pos: position{line: 2270, col: 27, offset: 73682},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2273, col: 27, offset: 73693},
+						pos:  position{line: 2270, col: 27, offset: 73682},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2275, col: 23, offset: 73749},
+						pos: position{line: 2272, col: 23, offset: 73738},
 						run: (*parser).callonSuperscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2275, col: 23, offset: 73749},
+							pos:   position{line: 2272, col: 23, offset: 73738},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2275, col: 32, offset: 73758},
+								pos: position{line: 2272, col: 32, offset: 73747},
 								expr: &choiceExpr{
-									pos: position{line: 2275, col: 33, offset: 73759},
+									pos: position{line: 2272, col: 33, offset: 73748},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2470, col: 5, offset: 79405},
+											pos: position{line: 2467, col: 5, offset: 79394},
 											run: (*parser).callonSuperscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2470, col: 5, offset: 79405},
+												pos: position{line: 2467, col: 5, offset: 79394},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2470, col: 5, offset: 79405},
+														pos: position{line: 2467, col: 5, offset: 79394},
 														run: (*parser).callonSuperscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2473, col: 5, offset: 79481},
+														pos:   position{line: 2470, col: 5, offset: 79470},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2474, col: 9, offset: 79499},
+															pos: position{line: 2471, col: 9, offset: 79488},
 															run: (*parser).callonSuperscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2474, col: 10, offset: 79500},
+																pos:        position{line: 2471, col: 10, offset: 79489},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -43058,7 +43138,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2275, col: 52, offset: 73778},
+											pos:        position{line: 2272, col: 52, offset: 73767},
 											val:        "[^\\r\\n ^]",
 											chars:      []rune{'\r', '\n', ' ', '^'},
 											ignoreCase: false,
@@ -43074,23 +43154,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2279, col: 1, offset: 73828},
+			pos:  position{line: 2276, col: 1, offset: 73817},
 			expr: &actionExpr{
-				pos: position{line: 2281, col: 5, offset: 73900},
+				pos: position{line: 2278, col: 5, offset: 73889},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2281, col: 5, offset: 73900},
+					pos: position{line: 2278, col: 5, offset: 73889},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2281, col: 5, offset: 73900},
+							pos:   position{line: 2278, col: 5, offset: 73889},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1852, col: 25, offset: 59861},
+								pos: position{line: 1849, col: 25, offset: 59850},
 								run: (*parser).callonEscapedSuperscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1852, col: 25, offset: 59861},
+									pos: position{line: 1849, col: 25, offset: 59850},
 									expr: &litMatcher{
-										pos:        position{line: 1852, col: 25, offset: 59861},
+										pos:        position{line: 1849, col: 25, offset: 59850},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -43099,21 +43179,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2271, col: 29, offset: 73662},
+							pos:        position{line: 2268, col: 29, offset: 73651},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2283, col: 5, offset: 73970},
+							pos:   position{line: 2280, col: 5, offset: 73959},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2283, col: 14, offset: 73979},
+								pos:  position{line: 2280, col: 14, offset: 73968},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2271, col: 29, offset: 73662},
+							pos:        position{line: 2268, col: 29, offset: 73651},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -43124,27 +43204,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2292, col: 1, offset: 74448},
+			pos:  position{line: 2289, col: 1, offset: 74437},
 			expr: &actionExpr{
-				pos: position{line: 2293, col: 5, offset: 74464},
+				pos: position{line: 2290, col: 5, offset: 74453},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2293, col: 5, offset: 74464},
+					pos: position{line: 2290, col: 5, offset: 74453},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2293, col: 5, offset: 74464},
+							pos: position{line: 2290, col: 5, offset: 74453},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2296, col: 5, offset: 74527},
+							pos:   position{line: 2293, col: 5, offset: 74516},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2296, col: 12, offset: 74534},
+								pos: position{line: 2293, col: 12, offset: 74523},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2296, col: 12, offset: 74534},
+									pos: position{line: 2293, col: 12, offset: 74523},
 									expr: &litMatcher{
-										pos:        position{line: 2296, col: 13, offset: 74535},
+										pos:        position{line: 2293, col: 13, offset: 74524},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -43153,16 +43233,16 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2300, col: 5, offset: 74643},
+							pos: position{line: 2297, col: 5, offset: 74632},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2880, col: 11, offset: 91013},
+							pos: position{line: 2877, col: 11, offset: 91023},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2880, col: 11, offset: 91013},
+								pos: position{line: 2877, col: 11, offset: 91023},
 								expr: &charClassMatcher{
-									pos:        position{line: 2880, col: 11, offset: 91013},
+									pos:        position{line: 2877, col: 11, offset: 91023},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43171,36 +43251,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2304, col: 12, offset: 74802},
+							pos:   position{line: 2301, col: 12, offset: 74791},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2304, col: 19, offset: 74809},
+								pos:  position{line: 2301, col: 19, offset: 74798},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2898, col: 8, offset: 91350},
+							pos: position{line: 2895, col: 8, offset: 91360},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2885, col: 12, offset: 91123},
+									pos: position{line: 2882, col: 12, offset: 91133},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2885, col: 13, offset: 91124},
+										pos: position{line: 2882, col: 13, offset: 91134},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2885, col: 13, offset: 91124},
+												pos:        position{line: 2882, col: 13, offset: 91134},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 20, offset: 91131},
+												pos:        position{line: 2882, col: 20, offset: 91141},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 29, offset: 91140},
+												pos:        position{line: 2882, col: 29, offset: 91150},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -43209,9 +43289,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2895, col: 8, offset: 91300},
+									pos: position{line: 2892, col: 8, offset: 91310},
 									expr: &anyMatcher{
-										line: 2895, col: 9, offset: 91301,
+										line: 2892, col: 9, offset: 91311,
 									},
 								},
 							},
@@ -43222,24 +43302,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2308, col: 1, offset: 74905},
+			pos:  position{line: 2305, col: 1, offset: 74894},
 			expr: &actionExpr{
-				pos: position{line: 2309, col: 5, offset: 74926},
+				pos: position{line: 2306, col: 5, offset: 74915},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2309, col: 5, offset: 74926},
+					pos: position{line: 2306, col: 5, offset: 74915},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2309, col: 5, offset: 74926},
+							pos: position{line: 2306, col: 5, offset: 74915},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2314, col: 5, offset: 75041},
+							pos:   position{line: 2311, col: 5, offset: 75030},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2314, col: 14, offset: 75050},
+								pos: position{line: 2311, col: 14, offset: 75039},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2314, col: 15, offset: 75051},
+									pos:  position{line: 2311, col: 15, offset: 75040},
 									name: "SectionTitleElement",
 								},
 							},
@@ -43250,38 +43330,38 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2318, col: 1, offset: 75132},
+			pos:  position{line: 2315, col: 1, offset: 75121},
 			expr: &actionExpr{
-				pos: position{line: 2319, col: 5, offset: 75159},
+				pos: position{line: 2316, col: 5, offset: 75148},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2319, col: 5, offset: 75159},
+					pos: position{line: 2316, col: 5, offset: 75148},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2319, col: 5, offset: 75159},
+							pos: position{line: 2316, col: 5, offset: 75148},
 							expr: &choiceExpr{
-								pos: position{line: 2898, col: 8, offset: 91350},
+								pos: position{line: 2895, col: 8, offset: 91360},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2885, col: 12, offset: 91123},
+										pos: position{line: 2882, col: 12, offset: 91133},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2885, col: 13, offset: 91124},
+											pos: position{line: 2882, col: 13, offset: 91134},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2885, col: 13, offset: 91124},
+													pos:        position{line: 2882, col: 13, offset: 91134},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2885, col: 20, offset: 91131},
+													pos:        position{line: 2882, col: 20, offset: 91141},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2885, col: 29, offset: 91140},
+													pos:        position{line: 2882, col: 29, offset: 91150},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -43290,29 +43370,29 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2895, col: 8, offset: 91300},
+										pos: position{line: 2892, col: 8, offset: 91310},
 										expr: &anyMatcher{
-											line: 2895, col: 9, offset: 91301,
+											line: 2892, col: 9, offset: 91311,
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2320, col: 5, offset: 75168},
+							pos:   position{line: 2317, col: 5, offset: 75157},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2320, col: 14, offset: 75177},
+								pos: position{line: 2317, col: 14, offset: 75166},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2320, col: 14, offset: 75177},
+										pos:  position{line: 2317, col: 14, offset: 75166},
 										name: "SectionTitleLineElement",
 									},
 									&actionExpr{
-										pos: position{line: 2815, col: 12, offset: 89260},
+										pos: position{line: 2812, col: 12, offset: 89270},
 										run: (*parser).callonSectionTitleElement15,
 										expr: &charClassMatcher{
-											pos:        position{line: 2815, col: 12, offset: 89260},
+											pos:        position{line: 2812, col: 12, offset: 89270},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -43328,21 +43408,21 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleLineElement",
-			pos:  position{line: 2325, col: 1, offset: 75281},
+			pos:  position{line: 2322, col: 1, offset: 75270},
 			expr: &actionExpr{
-				pos: position{line: 2326, col: 5, offset: 75312},
+				pos: position{line: 2323, col: 5, offset: 75301},
 				run: (*parser).callonSectionTitleLineElement1,
 				expr: &seqExpr{
-					pos: position{line: 2326, col: 5, offset: 75312},
+					pos: position{line: 2323, col: 5, offset: 75301},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2326, col: 5, offset: 75312},
+							pos:   position{line: 2323, col: 5, offset: 75301},
 							label: "start",
 							expr: &actionExpr{
-								pos: position{line: 2901, col: 16, offset: 91474},
+								pos: position{line: 2898, col: 16, offset: 91484},
 								run: (*parser).callonSectionTitleLineElement4,
 								expr: &litMatcher{
-									pos:        position{line: 2901, col: 16, offset: 91474},
+									pos:        position{line: 2898, col: 16, offset: 91484},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -43350,27 +43430,27 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2327, col: 5, offset: 75336},
+							pos:   position{line: 2324, col: 5, offset: 75325},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2328, col: 9, offset: 75354},
+								pos: position{line: 2325, col: 9, offset: 75343},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2775, col: 5, offset: 88194},
+										pos: position{line: 2772, col: 5, offset: 88183},
 										run: (*parser).callonSectionTitleLineElement8,
 										expr: &seqExpr{
-											pos: position{line: 2775, col: 5, offset: 88194},
+											pos: position{line: 2772, col: 5, offset: 88183},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2775, col: 5, offset: 88194},
+													pos:   position{line: 2772, col: 5, offset: 88183},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2775, col: 11, offset: 88200},
+														pos: position{line: 2772, col: 11, offset: 88189},
 														run: (*parser).callonSectionTitleLineElement11,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2775, col: 11, offset: 88200},
+															pos: position{line: 2772, col: 11, offset: 88189},
 															expr: &charClassMatcher{
-																pos:        position{line: 2775, col: 11, offset: 88200},
+																pos:        position{line: 2772, col: 11, offset: 88189},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -43380,36 +43460,61 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2778, col: 5, offset: 88258},
+													pos: position{line: 2775, col: 5, offset: 88247},
 													expr: &seqExpr{
-														pos: position{line: 2779, col: 9, offset: 88269},
+														pos: position{line: 2776, col: 9, offset: 88258},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2779, col: 9, offset: 88269},
+																pos:        position{line: 2776, col: 9, offset: 88258},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2780, col: 9, offset: 88318},
+																pos: position{line: 2777, col: 9, offset: 88307},
 																run: (*parser).callonSectionTitleLineElement17,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2784, col: 5, offset: 88398},
+													pos: position{line: 2781, col: 5, offset: 88387},
 													expr: &seqExpr{
-														pos: position{line: 2785, col: 9, offset: 88409},
+														pos: position{line: 2782, col: 9, offset: 88398},
 														exprs: []interface{}{
+															&zeroOrMoreExpr{
+																pos: position{line: 2782, col: 9, offset: 88398},
+																expr: &seqExpr{
+																	pos: position{line: 2782, col: 10, offset: 88399},
+																	exprs: []interface{}{
+																		&charClassMatcher{
+																			pos:        position{line: 2782, col: 10, offset: 88399},
+																			val:        "[._%+-]",
+																			chars:      []rune{'.', '_', '%', '+', '-'},
+																			ignoreCase: false,
+																			inverted:   false,
+																		},
+																		&oneOrMoreExpr{
+																			pos: position{line: 2782, col: 18, offset: 88407},
+																			expr: &charClassMatcher{
+																				pos:        position{line: 2782, col: 18, offset: 88407},
+																				val:        "[\\pL\\pN]",
+																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																				ignoreCase: false,
+																				inverted:   false,
+																			},
+																		},
+																	},
+																},
+															},
 															&litMatcher{
-																pos:        position{line: 2785, col: 9, offset: 88409},
+																pos:        position{line: 2782, col: 30, offset: 88419},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2785, col: 13, offset: 88413},
+																pos:        position{line: 2782, col: 34, offset: 88423},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -43422,12 +43527,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2880, col: 11, offset: 91013},
-										run: (*parser).callonSectionTitleLineElement22,
+										pos: position{line: 2877, col: 11, offset: 91023},
+										run: (*parser).callonSectionTitleLineElement27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2880, col: 11, offset: 91013},
+											pos: position{line: 2877, col: 11, offset: 91023},
 											expr: &charClassMatcher{
-												pos:        position{line: 2880, col: 11, offset: 91013},
+												pos:        position{line: 2877, col: 11, offset: 91023},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -43436,25 +43541,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2501, col: 5, offset: 80576},
-										run: (*parser).callonSectionTitleLineElement25,
+										pos: position{line: 2498, col: 5, offset: 80565},
+										run: (*parser).callonSectionTitleLineElement30,
 										expr: &seqExpr{
-											pos: position{line: 2501, col: 5, offset: 80576},
+											pos: position{line: 2498, col: 5, offset: 80565},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2501, col: 5, offset: 80576},
-													run: (*parser).callonSectionTitleLineElement27,
+													pos: position{line: 2498, col: 5, offset: 80565},
+													run: (*parser).callonSectionTitleLineElement32,
 												},
 												&litMatcher{
-													pos:        position{line: 2504, col: 5, offset: 80647},
+													pos:        position{line: 2501, col: 5, offset: 80636},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2504, col: 10, offset: 80652},
+													pos: position{line: 2501, col: 10, offset: 80641},
 													expr: &charClassMatcher{
-														pos:        position{line: 2504, col: 11, offset: 80653},
+														pos:        position{line: 2501, col: 11, offset: 80642},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -43465,29 +43570,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2510, col: 5, offset: 80845},
-										run: (*parser).callonSectionTitleLineElement31,
+										pos: position{line: 2507, col: 5, offset: 80834},
+										run: (*parser).callonSectionTitleLineElement36,
 										expr: &seqExpr{
-											pos: position{line: 2510, col: 5, offset: 80845},
+											pos: position{line: 2507, col: 5, offset: 80834},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2510, col: 5, offset: 80845},
-													run: (*parser).callonSectionTitleLineElement33,
+													pos: position{line: 2507, col: 5, offset: 80834},
+													run: (*parser).callonSectionTitleLineElement38,
 												},
 												&andCodeExpr{
-													pos: position{line: 2513, col: 5, offset: 80916},
-													run: (*parser).callonSectionTitleLineElement34,
+													pos: position{line: 2510, col: 5, offset: 80905},
+													run: (*parser).callonSectionTitleLineElement39,
 												},
 												&litMatcher{
-													pos:        position{line: 2517, col: 5, offset: 81041},
+													pos:        position{line: 2514, col: 5, offset: 81030},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2517, col: 9, offset: 81045},
+													pos: position{line: 2514, col: 9, offset: 81034},
 													expr: &charClassMatcher{
-														pos:        position{line: 2517, col: 10, offset: 81046},
+														pos:        position{line: 2514, col: 10, offset: 81035},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -43498,31 +43603,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2331, col: 11, offset: 75419},
+										pos:  position{line: 2328, col: 11, offset: 75408},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2793, col: 5, offset: 88606},
-										run: (*parser).callonSectionTitleLineElement39,
+										pos: position{line: 2790, col: 5, offset: 88616},
+										run: (*parser).callonSectionTitleLineElement44,
 										expr: &choiceExpr{
-											pos: position{line: 2794, col: 9, offset: 88616},
+											pos: position{line: 2791, col: 9, offset: 88626},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2794, col: 10, offset: 88617},
+													pos:        position{line: 2791, col: 10, offset: 88627},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2796, col: 13, offset: 88714},
+													pos: position{line: 2793, col: 13, offset: 88724},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2796, col: 13, offset: 88714},
-															run: (*parser).callonSectionTitleLineElement43,
+															pos: position{line: 2793, col: 13, offset: 88724},
+															run: (*parser).callonSectionTitleLineElement48,
 														},
 														&litMatcher{
-															pos:        position{line: 2799, col: 13, offset: 88814},
+															pos:        position{line: 2796, col: 13, offset: 88824},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -43530,20 +43635,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2799, col: 19, offset: 88820},
+													pos:        position{line: 2796, col: 19, offset: 88830},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2802, col: 13, offset: 88858},
+													pos: position{line: 2799, col: 13, offset: 88868},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2802, col: 13, offset: 88858},
-															run: (*parser).callonSectionTitleLineElement47,
+															pos: position{line: 2799, col: 13, offset: 88868},
+															run: (*parser).callonSectionTitleLineElement52,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2805, col: 14, offset: 88951},
+															pos:        position{line: 2802, col: 14, offset: 88961},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -43552,18 +43657,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2807, col: 12, offset: 88995},
+													pos: position{line: 2804, col: 12, offset: 89005},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2807, col: 12, offset: 88995},
+															pos:        position{line: 2804, col: 12, offset: 89005},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2807, col: 16, offset: 88999},
+															pos: position{line: 2804, col: 16, offset: 89009},
 															expr: &litMatcher{
-																pos:        position{line: 2807, col: 17, offset: 89000},
+																pos:        position{line: 2804, col: 17, offset: 89010},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -43575,35 +43680,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2333, col: 11, offset: 75492},
+										pos:  position{line: 2330, col: 11, offset: 75481},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2334, col: 11, offset: 75508},
+										pos:  position{line: 2331, col: 11, offset: 75497},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2335, col: 11, offset: 75536},
+										pos:  position{line: 2332, col: 11, offset: 75525},
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2470, col: 5, offset: 79405},
-										run: (*parser).callonSectionTitleLineElement56,
+										pos: position{line: 2467, col: 5, offset: 79394},
+										run: (*parser).callonSectionTitleLineElement61,
 										expr: &seqExpr{
-											pos: position{line: 2470, col: 5, offset: 79405},
+											pos: position{line: 2467, col: 5, offset: 79394},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2470, col: 5, offset: 79405},
-													run: (*parser).callonSectionTitleLineElement58,
+													pos: position{line: 2467, col: 5, offset: 79394},
+													run: (*parser).callonSectionTitleLineElement63,
 												},
 												&labeledExpr{
-													pos:   position{line: 2473, col: 5, offset: 79481},
+													pos:   position{line: 2470, col: 5, offset: 79470},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2474, col: 9, offset: 79499},
-														run: (*parser).callonSectionTitleLineElement60,
+														pos: position{line: 2471, col: 9, offset: 79488},
+														run: (*parser).callonSectionTitleLineElement65,
 														expr: &charClassMatcher{
-															pos:        position{line: 2474, col: 10, offset: 79500},
+															pos:        position{line: 2471, col: 10, offset: 79489},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -43615,18 +43720,18 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2337, col: 11, offset: 75621},
+										pos:  position{line: 2334, col: 11, offset: 75610},
 										name: "InlineIcon",
 									},
 									&actionExpr{
 										pos: position{line: 636, col: 5, offset: 20178},
-										run: (*parser).callonSectionTitleLineElement63,
+										run: (*parser).callonSectionTitleLineElement68,
 										expr: &seqExpr{
 											pos: position{line: 636, col: 5, offset: 20178},
 											exprs: []interface{}{
 												&andCodeExpr{
 													pos: position{line: 636, col: 5, offset: 20178},
-													run: (*parser).callonSectionTitleLineElement65,
+													run: (*parser).callonSectionTitleLineElement70,
 												},
 												&labeledExpr{
 													pos:   position{line: 639, col: 5, offset: 20250},
@@ -43636,7 +43741,7 @@ var g = &grammar{
 														alternatives: []interface{}{
 															&actionExpr{
 																pos: position{line: 645, col: 5, offset: 20388},
-																run: (*parser).callonSectionTitleLineElement68,
+																run: (*parser).callonSectionTitleLineElement73,
 																expr: &seqExpr{
 																	pos: position{line: 645, col: 5, offset: 20388},
 																	exprs: []interface{}{
@@ -43651,7 +43756,7 @@ var g = &grammar{
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9729},
-																				run: (*parser).callonSectionTitleLineElement72,
+																				run: (*parser).callonSectionTitleLineElement77,
 																				expr: &seqExpr{
 																					pos: position{line: 318, col: 18, offset: 9729},
 																					exprs: []interface{}{
@@ -43689,7 +43794,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 652, col: 5, offset: 20656},
-																run: (*parser).callonSectionTitleLineElement78,
+																run: (*parser).callonSectionTitleLineElement83,
 																expr: &seqExpr{
 																	pos: position{line: 652, col: 5, offset: 20656},
 																	exprs: []interface{}{
@@ -43704,7 +43809,7 @@ var g = &grammar{
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9729},
-																				run: (*parser).callonSectionTitleLineElement82,
+																				run: (*parser).callonSectionTitleLineElement87,
 																				expr: &seqExpr{
 																					pos: position{line: 318, col: 18, offset: 9729},
 																					exprs: []interface{}{
@@ -43742,7 +43847,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 658, col: 25, offset: 20860},
-																run: (*parser).callonSectionTitleLineElement88,
+																run: (*parser).callonSectionTitleLineElement93,
 																expr: &seqExpr{
 																	pos: position{line: 658, col: 25, offset: 20860},
 																	exprs: []interface{}{
@@ -43757,7 +43862,7 @@ var g = &grammar{
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9729},
-																				run: (*parser).callonSectionTitleLineElement92,
+																				run: (*parser).callonSectionTitleLineElement97,
 																				expr: &seqExpr{
 																					pos: position{line: 318, col: 18, offset: 9729},
 																					exprs: []interface{}{
@@ -43791,7 +43896,7 @@ var g = &grammar{
 																				pos: position{line: 658, col: 62, offset: 20897},
 																				expr: &actionExpr{
 																					pos: position{line: 666, col: 17, offset: 21192},
-																					run: (*parser).callonSectionTitleLineElement99,
+																					run: (*parser).callonSectionTitleLineElement104,
 																					expr: &seqExpr{
 																						pos: position{line: 666, col: 17, offset: 21192},
 																						exprs: []interface{}{
@@ -43809,7 +43914,7 @@ var g = &grammar{
 																									alternatives: []interface{}{
 																										&actionExpr{
 																											pos: position{line: 666, col: 28, offset: 21203},
-																											run: (*parser).callonSectionTitleLineElement104,
+																											run: (*parser).callonSectionTitleLineElement109,
 																											expr: &charClassMatcher{
 																												pos:        position{line: 666, col: 28, offset: 21203},
 																												val:        "[A-Za-z]",
@@ -43820,7 +43925,7 @@ var g = &grammar{
 																										},
 																										&actionExpr{
 																											pos: position{line: 668, col: 9, offset: 21257},
-																											run: (*parser).callonSectionTitleLineElement106,
+																											run: (*parser).callonSectionTitleLineElement111,
 																											expr: &oneOrMoreExpr{
 																												pos: position{line: 668, col: 9, offset: 21257},
 																												expr: &charClassMatcher{
@@ -43851,7 +43956,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 662, col: 25, offset: 21031},
-																run: (*parser).callonSectionTitleLineElement110,
+																run: (*parser).callonSectionTitleLineElement115,
 																expr: &seqExpr{
 																	pos: position{line: 662, col: 25, offset: 21031},
 																	exprs: []interface{}{
@@ -43866,7 +43971,7 @@ var g = &grammar{
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9729},
-																				run: (*parser).callonSectionTitleLineElement114,
+																				run: (*parser).callonSectionTitleLineElement119,
 																				expr: &seqExpr{
 																					pos: position{line: 318, col: 18, offset: 9729},
 																					exprs: []interface{}{
@@ -43900,7 +44005,7 @@ var g = &grammar{
 																				pos: position{line: 662, col: 63, offset: 21069},
 																				expr: &actionExpr{
 																					pos: position{line: 666, col: 17, offset: 21192},
-																					run: (*parser).callonSectionTitleLineElement121,
+																					run: (*parser).callonSectionTitleLineElement126,
 																					expr: &seqExpr{
 																						pos: position{line: 666, col: 17, offset: 21192},
 																						exprs: []interface{}{
@@ -43918,7 +44023,7 @@ var g = &grammar{
 																									alternatives: []interface{}{
 																										&actionExpr{
 																											pos: position{line: 666, col: 28, offset: 21203},
-																											run: (*parser).callonSectionTitleLineElement126,
+																											run: (*parser).callonSectionTitleLineElement131,
 																											expr: &charClassMatcher{
 																												pos:        position{line: 666, col: 28, offset: 21203},
 																												val:        "[A-Za-z]",
@@ -43929,7 +44034,7 @@ var g = &grammar{
 																										},
 																										&actionExpr{
 																											pos: position{line: 668, col: 9, offset: 21257},
-																											run: (*parser).callonSectionTitleLineElement128,
+																											run: (*parser).callonSectionTitleLineElement133,
 																											expr: &oneOrMoreExpr{
 																												pos: position{line: 668, col: 9, offset: 21257},
 																												expr: &charClassMatcher{
@@ -43966,7 +44071,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1198, col: 23, offset: 37046},
-										run: (*parser).callonSectionTitleLineElement132,
+										run: (*parser).callonSectionTitleLineElement137,
 										expr: &seqExpr{
 											pos: position{line: 1198, col: 23, offset: 37046},
 											exprs: []interface{}{
@@ -43981,7 +44086,7 @@ var g = &grammar{
 													label: "ref",
 													expr: &actionExpr{
 														pos: position{line: 1198, col: 56, offset: 37079},
-														run: (*parser).callonSectionTitleLineElement136,
+														run: (*parser).callonSectionTitleLineElement141,
 														expr: &oneOrMoreExpr{
 															pos: position{line: 1198, col: 56, offset: 37079},
 															expr: &charClassMatcher{
@@ -44004,21 +44109,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2353, col: 5, offset: 76115},
-										run: (*parser).callonSectionTitleLineElement140,
+										pos: position{line: 2350, col: 5, offset: 76104},
+										run: (*parser).callonSectionTitleLineElement145,
 										expr: &seqExpr{
-											pos: position{line: 2353, col: 5, offset: 76115},
+											pos: position{line: 2350, col: 5, offset: 76104},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2353, col: 5, offset: 76115},
-													run: (*parser).callonSectionTitleLineElement142,
+													pos: position{line: 2350, col: 5, offset: 76104},
+													run: (*parser).callonSectionTitleLineElement147,
 												},
 												&labeledExpr{
-													pos:   position{line: 2356, col: 5, offset: 76170},
+													pos:   position{line: 2353, col: 5, offset: 76159},
 													label: "id",
 													expr: &actionExpr{
 														pos: position{line: 404, col: 5, offset: 12406},
-														run: (*parser).callonSectionTitleLineElement144,
+														run: (*parser).callonSectionTitleLineElement149,
 														expr: &seqExpr{
 															pos: position{line: 404, col: 5, offset: 12406},
 															exprs: []interface{}{
@@ -44033,7 +44138,7 @@ var g = &grammar{
 																	label: "id",
 																	expr: &actionExpr{
 																		pos: position{line: 406, col: 9, offset: 12429},
-																		run: (*parser).callonSectionTitleLineElement148,
+																		run: (*parser).callonSectionTitleLineElement153,
 																		expr: &labeledExpr{
 																			pos:   position{line: 406, col: 9, offset: 12429},
 																			label: "elements",
@@ -44044,7 +44149,7 @@ var g = &grammar{
 																					alternatives: []interface{}{
 																						&actionExpr{
 																							pos: position{line: 407, col: 14, offset: 12453},
-																							run: (*parser).callonSectionTitleLineElement152,
+																							run: (*parser).callonSectionTitleLineElement157,
 																							expr: &oneOrMoreExpr{
 																								pos: position{line: 407, col: 14, offset: 12453},
 																								expr: &charClassMatcher{
@@ -44058,7 +44163,7 @@ var g = &grammar{
 																						},
 																						&actionExpr{
 																							pos: position{line: 1198, col: 23, offset: 37046},
-																							run: (*parser).callonSectionTitleLineElement155,
+																							run: (*parser).callonSectionTitleLineElement160,
 																							expr: &seqExpr{
 																								pos: position{line: 1198, col: 23, offset: 37046},
 																								exprs: []interface{}{
@@ -44073,7 +44178,7 @@ var g = &grammar{
 																										label: "ref",
 																										expr: &actionExpr{
 																											pos: position{line: 1198, col: 56, offset: 37079},
-																											run: (*parser).callonSectionTitleLineElement159,
+																											run: (*parser).callonSectionTitleLineElement164,
 																											expr: &oneOrMoreExpr{
 																												pos: position{line: 1198, col: 56, offset: 37079},
 																												expr: &charClassMatcher{
@@ -44097,13 +44202,13 @@ var g = &grammar{
 																						},
 																						&actionExpr{
 																							pos: position{line: 636, col: 5, offset: 20178},
-																							run: (*parser).callonSectionTitleLineElement163,
+																							run: (*parser).callonSectionTitleLineElement168,
 																							expr: &seqExpr{
 																								pos: position{line: 636, col: 5, offset: 20178},
 																								exprs: []interface{}{
 																									&andCodeExpr{
 																										pos: position{line: 636, col: 5, offset: 20178},
-																										run: (*parser).callonSectionTitleLineElement165,
+																										run: (*parser).callonSectionTitleLineElement170,
 																									},
 																									&labeledExpr{
 																										pos:   position{line: 639, col: 5, offset: 20250},
@@ -44113,7 +44218,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 645, col: 5, offset: 20388},
-																													run: (*parser).callonSectionTitleLineElement168,
+																													run: (*parser).callonSectionTitleLineElement173,
 																													expr: &seqExpr{
 																														pos: position{line: 645, col: 5, offset: 20388},
 																														exprs: []interface{}{
@@ -44128,7 +44233,7 @@ var g = &grammar{
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 318, col: 18, offset: 9729},
-																																	run: (*parser).callonSectionTitleLineElement172,
+																																	run: (*parser).callonSectionTitleLineElement177,
 																																	expr: &seqExpr{
 																																		pos: position{line: 318, col: 18, offset: 9729},
 																																		exprs: []interface{}{
@@ -44166,7 +44271,7 @@ var g = &grammar{
 																												},
 																												&actionExpr{
 																													pos: position{line: 652, col: 5, offset: 20656},
-																													run: (*parser).callonSectionTitleLineElement178,
+																													run: (*parser).callonSectionTitleLineElement183,
 																													expr: &seqExpr{
 																														pos: position{line: 652, col: 5, offset: 20656},
 																														exprs: []interface{}{
@@ -44181,7 +44286,7 @@ var g = &grammar{
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 318, col: 18, offset: 9729},
-																																	run: (*parser).callonSectionTitleLineElement182,
+																																	run: (*parser).callonSectionTitleLineElement187,
 																																	expr: &seqExpr{
 																																		pos: position{line: 318, col: 18, offset: 9729},
 																																		exprs: []interface{}{
@@ -44219,7 +44324,7 @@ var g = &grammar{
 																												},
 																												&actionExpr{
 																													pos: position{line: 658, col: 25, offset: 20860},
-																													run: (*parser).callonSectionTitleLineElement188,
+																													run: (*parser).callonSectionTitleLineElement193,
 																													expr: &seqExpr{
 																														pos: position{line: 658, col: 25, offset: 20860},
 																														exprs: []interface{}{
@@ -44234,7 +44339,7 @@ var g = &grammar{
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 318, col: 18, offset: 9729},
-																																	run: (*parser).callonSectionTitleLineElement192,
+																																	run: (*parser).callonSectionTitleLineElement197,
 																																	expr: &seqExpr{
 																																		pos: position{line: 318, col: 18, offset: 9729},
 																																		exprs: []interface{}{
@@ -44268,7 +44373,7 @@ var g = &grammar{
 																																	pos: position{line: 658, col: 62, offset: 20897},
 																																	expr: &actionExpr{
 																																		pos: position{line: 666, col: 17, offset: 21192},
-																																		run: (*parser).callonSectionTitleLineElement199,
+																																		run: (*parser).callonSectionTitleLineElement204,
 																																		expr: &seqExpr{
 																																			pos: position{line: 666, col: 17, offset: 21192},
 																																			exprs: []interface{}{
@@ -44286,7 +44391,7 @@ var g = &grammar{
 																																						alternatives: []interface{}{
 																																							&actionExpr{
 																																								pos: position{line: 666, col: 28, offset: 21203},
-																																								run: (*parser).callonSectionTitleLineElement204,
+																																								run: (*parser).callonSectionTitleLineElement209,
 																																								expr: &charClassMatcher{
 																																									pos:        position{line: 666, col: 28, offset: 21203},
 																																									val:        "[A-Za-z]",
@@ -44297,7 +44402,7 @@ var g = &grammar{
 																																							},
 																																							&actionExpr{
 																																								pos: position{line: 668, col: 9, offset: 21257},
-																																								run: (*parser).callonSectionTitleLineElement206,
+																																								run: (*parser).callonSectionTitleLineElement211,
 																																								expr: &oneOrMoreExpr{
 																																									pos: position{line: 668, col: 9, offset: 21257},
 																																									expr: &charClassMatcher{
@@ -44328,7 +44433,7 @@ var g = &grammar{
 																												},
 																												&actionExpr{
 																													pos: position{line: 662, col: 25, offset: 21031},
-																													run: (*parser).callonSectionTitleLineElement210,
+																													run: (*parser).callonSectionTitleLineElement215,
 																													expr: &seqExpr{
 																														pos: position{line: 662, col: 25, offset: 21031},
 																														exprs: []interface{}{
@@ -44343,7 +44448,7 @@ var g = &grammar{
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 318, col: 18, offset: 9729},
-																																	run: (*parser).callonSectionTitleLineElement214,
+																																	run: (*parser).callonSectionTitleLineElement219,
 																																	expr: &seqExpr{
 																																		pos: position{line: 318, col: 18, offset: 9729},
 																																		exprs: []interface{}{
@@ -44377,7 +44482,7 @@ var g = &grammar{
 																																	pos: position{line: 662, col: 63, offset: 21069},
 																																	expr: &actionExpr{
 																																		pos: position{line: 666, col: 17, offset: 21192},
-																																		run: (*parser).callonSectionTitleLineElement221,
+																																		run: (*parser).callonSectionTitleLineElement226,
 																																		expr: &seqExpr{
 																																			pos: position{line: 666, col: 17, offset: 21192},
 																																			exprs: []interface{}{
@@ -44395,7 +44500,7 @@ var g = &grammar{
 																																						alternatives: []interface{}{
 																																							&actionExpr{
 																																								pos: position{line: 666, col: 28, offset: 21203},
-																																								run: (*parser).callonSectionTitleLineElement226,
+																																								run: (*parser).callonSectionTitleLineElement231,
 																																								expr: &charClassMatcher{
 																																									pos:        position{line: 666, col: 28, offset: 21203},
 																																									val:        "[A-Za-z]",
@@ -44406,7 +44511,7 @@ var g = &grammar{
 																																							},
 																																							&actionExpr{
 																																								pos: position{line: 668, col: 9, offset: 21257},
-																																								run: (*parser).callonSectionTitleLineElement228,
+																																								run: (*parser).callonSectionTitleLineElement233,
 																																								expr: &oneOrMoreExpr{
 																																									pos: position{line: 668, col: 9, offset: 21257},
 																																									expr: &charClassMatcher{
@@ -44443,7 +44548,7 @@ var g = &grammar{
 																						},
 																						&actionExpr{
 																							pos: position{line: 412, col: 16, offset: 12686},
-																							run: (*parser).callonSectionTitleLineElement232,
+																							run: (*parser).callonSectionTitleLineElement237,
 																							expr: &litMatcher{
 																								pos:        position{line: 412, col: 16, offset: 12686},
 																								val:        "{",
@@ -44468,12 +44573,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2356, col: 26, offset: 76191},
+													pos: position{line: 2353, col: 26, offset: 76180},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 90952},
-														run: (*parser).callonSectionTitleLineElement236,
+														pos: position{line: 2873, col: 10, offset: 90962},
+														run: (*parser).callonSectionTitleLineElement241,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 90952},
+															pos:        position{line: 2873, col: 10, offset: 90962},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -44482,30 +44587,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 2356, col: 33, offset: 76198},
+													pos: position{line: 2353, col: 33, offset: 76187},
 													expr: &choiceExpr{
-														pos: position{line: 2898, col: 8, offset: 91350},
+														pos: position{line: 2895, col: 8, offset: 91360},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2885, col: 12, offset: 91123},
-																run: (*parser).callonSectionTitleLineElement240,
+																pos: position{line: 2882, col: 12, offset: 91133},
+																run: (*parser).callonSectionTitleLineElement245,
 																expr: &choiceExpr{
-																	pos: position{line: 2885, col: 13, offset: 91124},
+																	pos: position{line: 2882, col: 13, offset: 91134},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 13, offset: 91124},
+																			pos:        position{line: 2882, col: 13, offset: 91134},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 20, offset: 91131},
+																			pos:        position{line: 2882, col: 20, offset: 91141},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 29, offset: 91140},
+																			pos:        position{line: 2882, col: 29, offset: 91150},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -44514,9 +44619,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91300},
+																pos: position{line: 2892, col: 8, offset: 91310},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91301,
+																	line: 2892, col: 9, offset: 91311,
 																},
 															},
 														},
@@ -44527,7 +44632,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1253, col: 5, offset: 38806},
-										run: (*parser).callonSectionTitleLineElement247,
+										run: (*parser).callonSectionTitleLineElement252,
 										expr: &seqExpr{
 											pos: position{line: 1253, col: 5, offset: 38806},
 											exprs: []interface{}{
@@ -44541,12 +44646,12 @@ var g = &grammar{
 													pos:   position{line: 1253, col: 14, offset: 38815},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2861, col: 7, offset: 90604},
-														run: (*parser).callonSectionTitleLineElement251,
+														pos: position{line: 2858, col: 7, offset: 90614},
+														run: (*parser).callonSectionTitleLineElement256,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2861, col: 7, offset: 90604},
+															pos: position{line: 2858, col: 7, offset: 90614},
 															expr: &charClassMatcher{
-																pos:        position{line: 2861, col: 7, offset: 90604},
+																pos:        position{line: 2858, col: 7, offset: 90614},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -44566,7 +44671,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1258, col: 5, offset: 38942},
-										run: (*parser).callonSectionTitleLineElement255,
+										run: (*parser).callonSectionTitleLineElement260,
 										expr: &seqExpr{
 											pos: position{line: 1258, col: 5, offset: 38942},
 											exprs: []interface{}{
@@ -44580,12 +44685,12 @@ var g = &grammar{
 													pos:   position{line: 1258, col: 10, offset: 38947},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2861, col: 7, offset: 90604},
-														run: (*parser).callonSectionTitleLineElement259,
+														pos: position{line: 2858, col: 7, offset: 90614},
+														run: (*parser).callonSectionTitleLineElement264,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2861, col: 7, offset: 90604},
+															pos: position{line: 2858, col: 7, offset: 90614},
 															expr: &charClassMatcher{
-																pos:        position{line: 2861, col: 7, offset: 90604},
+																pos:        position{line: 2858, col: 7, offset: 90614},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -44604,20 +44709,20 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2342, col: 11, offset: 75875},
+										pos:  position{line: 2339, col: 11, offset: 75864},
 										name: "InlineFootnote",
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2343, col: 5, offset: 75895},
+							pos:   position{line: 2340, col: 5, offset: 75884},
 							label: "end",
 							expr: &actionExpr{
-								pos: position{line: 2901, col: 16, offset: 91474},
-								run: (*parser).callonSectionTitleLineElement265,
+								pos: position{line: 2898, col: 16, offset: 91484},
+								run: (*parser).callonSectionTitleLineElement270,
 								expr: &litMatcher{
-									pos:        position{line: 2901, col: 16, offset: 91474},
+									pos:        position{line: 2898, col: 16, offset: 91484},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -44625,8 +44730,8 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2344, col: 5, offset: 75917},
-							run: (*parser).callonSectionTitleLineElement267,
+							pos: position{line: 2341, col: 5, offset: 75906},
+							run: (*parser).callonSectionTitleLineElement272,
 						},
 					},
 				},
@@ -44634,52 +44739,52 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2366, col: 1, offset: 76460},
+			pos:  position{line: 2363, col: 1, offset: 76449},
 			expr: &actionExpr{
-				pos: position{line: 2367, col: 5, offset: 76547},
+				pos: position{line: 2364, col: 5, offset: 76536},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2367, col: 5, offset: 76547},
+					pos: position{line: 2364, col: 5, offset: 76536},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2367, col: 5, offset: 76547},
+							pos:   position{line: 2364, col: 5, offset: 76536},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2367, col: 14, offset: 76556},
+								pos: position{line: 2364, col: 14, offset: 76545},
 								expr: &actionExpr{
-									pos: position{line: 2369, col: 9, offset: 76582},
+									pos: position{line: 2366, col: 9, offset: 76571},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2369, col: 9, offset: 76582},
+										pos: position{line: 2366, col: 9, offset: 76571},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2893, col: 11, offset: 91286},
+												pos: position{line: 2890, col: 11, offset: 91296},
 												expr: &anyMatcher{
-													line: 2893, col: 13, offset: 91288,
+													line: 2890, col: 13, offset: 91298,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2370, col: 9, offset: 76597},
+												pos:   position{line: 2367, col: 9, offset: 76586},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2371, col: 13, offset: 76619},
+													pos: position{line: 2368, col: 13, offset: 76608},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2775, col: 5, offset: 88194},
+															pos: position{line: 2772, col: 5, offset: 88183},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2775, col: 5, offset: 88194},
+																pos: position{line: 2772, col: 5, offset: 88183},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 2775, col: 5, offset: 88194},
+																		pos:   position{line: 2772, col: 5, offset: 88183},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2775, col: 11, offset: 88200},
+																			pos: position{line: 2772, col: 11, offset: 88189},
 																			run: (*parser).callonNormalGroup14,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2775, col: 11, offset: 88200},
+																				pos: position{line: 2772, col: 11, offset: 88189},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2775, col: 11, offset: 88200},
+																					pos:        position{line: 2772, col: 11, offset: 88189},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -44689,36 +44794,61 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2778, col: 5, offset: 88258},
+																		pos: position{line: 2775, col: 5, offset: 88247},
 																		expr: &seqExpr{
-																			pos: position{line: 2779, col: 9, offset: 88269},
+																			pos: position{line: 2776, col: 9, offset: 88258},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2779, col: 9, offset: 88269},
+																					pos:        position{line: 2776, col: 9, offset: 88258},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2780, col: 9, offset: 88318},
+																					pos: position{line: 2777, col: 9, offset: 88307},
 																					run: (*parser).callonNormalGroup20,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2784, col: 5, offset: 88398},
+																		pos: position{line: 2781, col: 5, offset: 88387},
 																		expr: &seqExpr{
-																			pos: position{line: 2785, col: 9, offset: 88409},
+																			pos: position{line: 2782, col: 9, offset: 88398},
 																			exprs: []interface{}{
+																				&zeroOrMoreExpr{
+																					pos: position{line: 2782, col: 9, offset: 88398},
+																					expr: &seqExpr{
+																						pos: position{line: 2782, col: 10, offset: 88399},
+																						exprs: []interface{}{
+																							&charClassMatcher{
+																								pos:        position{line: 2782, col: 10, offset: 88399},
+																								val:        "[._%+-]",
+																								chars:      []rune{'.', '_', '%', '+', '-'},
+																								ignoreCase: false,
+																								inverted:   false,
+																							},
+																							&oneOrMoreExpr{
+																								pos: position{line: 2782, col: 18, offset: 88407},
+																								expr: &charClassMatcher{
+																									pos:        position{line: 2782, col: 18, offset: 88407},
+																									val:        "[\\pL\\pN]",
+																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																									ignoreCase: false,
+																									inverted:   false,
+																								},
+																							},
+																						},
+																					},
+																				},
 																				&litMatcher{
-																					pos:        position{line: 2785, col: 9, offset: 88409},
+																					pos:        position{line: 2782, col: 30, offset: 88419},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2785, col: 13, offset: 88413},
+																					pos:        position{line: 2782, col: 34, offset: 88423},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -44731,12 +44861,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2880, col: 11, offset: 91013},
-															run: (*parser).callonNormalGroup25,
+															pos: position{line: 2877, col: 11, offset: 91023},
+															run: (*parser).callonNormalGroup30,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2880, col: 11, offset: 91013},
+																pos: position{line: 2877, col: 11, offset: 91023},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2880, col: 11, offset: 91013},
+																	pos:        position{line: 2877, col: 11, offset: 91023},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -44745,29 +44875,29 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2373, col: 15, offset: 76665},
+															pos:  position{line: 2370, col: 15, offset: 76654},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2501, col: 5, offset: 80576},
-															run: (*parser).callonNormalGroup29,
+															pos: position{line: 2498, col: 5, offset: 80565},
+															run: (*parser).callonNormalGroup34,
 															expr: &seqExpr{
-																pos: position{line: 2501, col: 5, offset: 80576},
+																pos: position{line: 2498, col: 5, offset: 80565},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2501, col: 5, offset: 80576},
-																		run: (*parser).callonNormalGroup31,
+																		pos: position{line: 2498, col: 5, offset: 80565},
+																		run: (*parser).callonNormalGroup36,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2504, col: 5, offset: 80647},
+																		pos:        position{line: 2501, col: 5, offset: 80636},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2504, col: 10, offset: 80652},
+																		pos: position{line: 2501, col: 10, offset: 80641},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2504, col: 11, offset: 80653},
+																			pos:        position{line: 2501, col: 11, offset: 80642},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -44778,29 +44908,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2510, col: 5, offset: 80845},
-															run: (*parser).callonNormalGroup35,
+															pos: position{line: 2507, col: 5, offset: 80834},
+															run: (*parser).callonNormalGroup40,
 															expr: &seqExpr{
-																pos: position{line: 2510, col: 5, offset: 80845},
+																pos: position{line: 2507, col: 5, offset: 80834},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2510, col: 5, offset: 80845},
-																		run: (*parser).callonNormalGroup37,
+																		pos: position{line: 2507, col: 5, offset: 80834},
+																		run: (*parser).callonNormalGroup42,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2513, col: 5, offset: 80916},
-																		run: (*parser).callonNormalGroup38,
+																		pos: position{line: 2510, col: 5, offset: 80905},
+																		run: (*parser).callonNormalGroup43,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2517, col: 5, offset: 81041},
+																		pos:        position{line: 2514, col: 5, offset: 81030},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2517, col: 9, offset: 81045},
+																		pos: position{line: 2514, col: 9, offset: 81034},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2517, col: 10, offset: 81046},
+																			pos:        position{line: 2514, col: 10, offset: 81035},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -44811,27 +44941,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2793, col: 5, offset: 88606},
-															run: (*parser).callonNormalGroup42,
+															pos: position{line: 2790, col: 5, offset: 88616},
+															run: (*parser).callonNormalGroup47,
 															expr: &choiceExpr{
-																pos: position{line: 2794, col: 9, offset: 88616},
+																pos: position{line: 2791, col: 9, offset: 88626},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2794, col: 10, offset: 88617},
+																		pos:        position{line: 2791, col: 10, offset: 88627},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2796, col: 13, offset: 88714},
+																		pos: position{line: 2793, col: 13, offset: 88724},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2796, col: 13, offset: 88714},
-																				run: (*parser).callonNormalGroup46,
+																				pos: position{line: 2793, col: 13, offset: 88724},
+																				run: (*parser).callonNormalGroup51,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2799, col: 13, offset: 88814},
+																				pos:        position{line: 2796, col: 13, offset: 88824},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -44839,20 +44969,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2799, col: 19, offset: 88820},
+																		pos:        position{line: 2796, col: 19, offset: 88830},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2802, col: 13, offset: 88858},
+																		pos: position{line: 2799, col: 13, offset: 88868},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2802, col: 13, offset: 88858},
-																				run: (*parser).callonNormalGroup50,
+																				pos: position{line: 2799, col: 13, offset: 88868},
+																				run: (*parser).callonNormalGroup55,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2805, col: 14, offset: 88951},
+																				pos:        position{line: 2802, col: 14, offset: 88961},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -44861,18 +44991,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2807, col: 12, offset: 88995},
+																		pos: position{line: 2804, col: 12, offset: 89005},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2807, col: 12, offset: 88995},
+																				pos:        position{line: 2804, col: 12, offset: 89005},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2807, col: 16, offset: 88999},
+																				pos: position{line: 2804, col: 16, offset: 89009},
 																				expr: &litMatcher{
-																					pos:        position{line: 2807, col: 17, offset: 89000},
+																					pos:        position{line: 2804, col: 17, offset: 89010},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -44884,25 +45014,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91123},
-															run: (*parser).callonNormalGroup56,
+															pos: position{line: 2882, col: 12, offset: 91133},
+															run: (*parser).callonNormalGroup61,
 															expr: &choiceExpr{
-																pos: position{line: 2885, col: 13, offset: 91124},
+																pos: position{line: 2882, col: 13, offset: 91134},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 13, offset: 91124},
+																		pos:        position{line: 2882, col: 13, offset: 91134},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 20, offset: 91131},
+																		pos:        position{line: 2882, col: 20, offset: 91141},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 29, offset: 91140},
+																		pos:        position{line: 2882, col: 29, offset: 91150},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -44912,13 +45042,13 @@ var g = &grammar{
 														},
 														&actionExpr{
 															pos: position{line: 636, col: 5, offset: 20178},
-															run: (*parser).callonNormalGroup61,
+															run: (*parser).callonNormalGroup66,
 															expr: &seqExpr{
 																pos: position{line: 636, col: 5, offset: 20178},
 																exprs: []interface{}{
 																	&andCodeExpr{
 																		pos: position{line: 636, col: 5, offset: 20178},
-																		run: (*parser).callonNormalGroup63,
+																		run: (*parser).callonNormalGroup68,
 																	},
 																	&labeledExpr{
 																		pos:   position{line: 639, col: 5, offset: 20250},
@@ -44928,7 +45058,7 @@ var g = &grammar{
 																			alternatives: []interface{}{
 																				&actionExpr{
 																					pos: position{line: 645, col: 5, offset: 20388},
-																					run: (*parser).callonNormalGroup66,
+																					run: (*parser).callonNormalGroup71,
 																					expr: &seqExpr{
 																						pos: position{line: 645, col: 5, offset: 20388},
 																						exprs: []interface{}{
@@ -44943,7 +45073,7 @@ var g = &grammar{
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9729},
-																									run: (*parser).callonNormalGroup70,
+																									run: (*parser).callonNormalGroup75,
 																									expr: &seqExpr{
 																										pos: position{line: 318, col: 18, offset: 9729},
 																										exprs: []interface{}{
@@ -44981,7 +45111,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 652, col: 5, offset: 20656},
-																					run: (*parser).callonNormalGroup76,
+																					run: (*parser).callonNormalGroup81,
 																					expr: &seqExpr{
 																						pos: position{line: 652, col: 5, offset: 20656},
 																						exprs: []interface{}{
@@ -44996,7 +45126,7 @@ var g = &grammar{
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9729},
-																									run: (*parser).callonNormalGroup80,
+																									run: (*parser).callonNormalGroup85,
 																									expr: &seqExpr{
 																										pos: position{line: 318, col: 18, offset: 9729},
 																										exprs: []interface{}{
@@ -45034,7 +45164,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 658, col: 25, offset: 20860},
-																					run: (*parser).callonNormalGroup86,
+																					run: (*parser).callonNormalGroup91,
 																					expr: &seqExpr{
 																						pos: position{line: 658, col: 25, offset: 20860},
 																						exprs: []interface{}{
@@ -45049,7 +45179,7 @@ var g = &grammar{
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9729},
-																									run: (*parser).callonNormalGroup90,
+																									run: (*parser).callonNormalGroup95,
 																									expr: &seqExpr{
 																										pos: position{line: 318, col: 18, offset: 9729},
 																										exprs: []interface{}{
@@ -45083,7 +45213,7 @@ var g = &grammar{
 																									pos: position{line: 658, col: 62, offset: 20897},
 																									expr: &actionExpr{
 																										pos: position{line: 666, col: 17, offset: 21192},
-																										run: (*parser).callonNormalGroup97,
+																										run: (*parser).callonNormalGroup102,
 																										expr: &seqExpr{
 																											pos: position{line: 666, col: 17, offset: 21192},
 																											exprs: []interface{}{
@@ -45101,7 +45231,7 @@ var g = &grammar{
 																														alternatives: []interface{}{
 																															&actionExpr{
 																																pos: position{line: 666, col: 28, offset: 21203},
-																																run: (*parser).callonNormalGroup102,
+																																run: (*parser).callonNormalGroup107,
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 666, col: 28, offset: 21203},
 																																	val:        "[A-Za-z]",
@@ -45112,7 +45242,7 @@ var g = &grammar{
 																															},
 																															&actionExpr{
 																																pos: position{line: 668, col: 9, offset: 21257},
-																																run: (*parser).callonNormalGroup104,
+																																run: (*parser).callonNormalGroup109,
 																																expr: &oneOrMoreExpr{
 																																	pos: position{line: 668, col: 9, offset: 21257},
 																																	expr: &charClassMatcher{
@@ -45143,7 +45273,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 662, col: 25, offset: 21031},
-																					run: (*parser).callonNormalGroup108,
+																					run: (*parser).callonNormalGroup113,
 																					expr: &seqExpr{
 																						pos: position{line: 662, col: 25, offset: 21031},
 																						exprs: []interface{}{
@@ -45158,7 +45288,7 @@ var g = &grammar{
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9729},
-																									run: (*parser).callonNormalGroup112,
+																									run: (*parser).callonNormalGroup117,
 																									expr: &seqExpr{
 																										pos: position{line: 318, col: 18, offset: 9729},
 																										exprs: []interface{}{
@@ -45192,7 +45322,7 @@ var g = &grammar{
 																									pos: position{line: 662, col: 63, offset: 21069},
 																									expr: &actionExpr{
 																										pos: position{line: 666, col: 17, offset: 21192},
-																										run: (*parser).callonNormalGroup119,
+																										run: (*parser).callonNormalGroup124,
 																										expr: &seqExpr{
 																											pos: position{line: 666, col: 17, offset: 21192},
 																											exprs: []interface{}{
@@ -45210,7 +45340,7 @@ var g = &grammar{
 																														alternatives: []interface{}{
 																															&actionExpr{
 																																pos: position{line: 666, col: 28, offset: 21203},
-																																run: (*parser).callonNormalGroup124,
+																																run: (*parser).callonNormalGroup129,
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 666, col: 28, offset: 21203},
 																																	val:        "[A-Za-z]",
@@ -45221,7 +45351,7 @@ var g = &grammar{
 																															},
 																															&actionExpr{
 																																pos: position{line: 668, col: 9, offset: 21257},
-																																run: (*parser).callonNormalGroup126,
+																																run: (*parser).callonNormalGroup131,
 																																expr: &oneOrMoreExpr{
 																																	pos: position{line: 668, col: 9, offset: 21257},
 																																	expr: &charClassMatcher{
@@ -45257,35 +45387,35 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2378, col: 15, offset: 76832},
+															pos:  position{line: 2375, col: 15, offset: 76821},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2379, col: 15, offset: 76852},
+															pos:  position{line: 2376, col: 15, offset: 76841},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2380, col: 15, offset: 76941},
+															pos:  position{line: 2377, col: 15, offset: 76930},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2470, col: 5, offset: 79405},
-															run: (*parser).callonNormalGroup133,
+															pos: position{line: 2467, col: 5, offset: 79394},
+															run: (*parser).callonNormalGroup138,
 															expr: &seqExpr{
-																pos: position{line: 2470, col: 5, offset: 79405},
+																pos: position{line: 2467, col: 5, offset: 79394},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2470, col: 5, offset: 79405},
-																		run: (*parser).callonNormalGroup135,
+																		pos: position{line: 2467, col: 5, offset: 79394},
+																		run: (*parser).callonNormalGroup140,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2473, col: 5, offset: 79481},
+																		pos:   position{line: 2470, col: 5, offset: 79470},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2474, col: 9, offset: 79499},
-																			run: (*parser).callonNormalGroup137,
+																			pos: position{line: 2471, col: 9, offset: 79488},
+																			run: (*parser).callonNormalGroup142,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2474, col: 10, offset: 79500},
+																				pos:        position{line: 2471, col: 10, offset: 79489},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -45298,13 +45428,13 @@ var g = &grammar{
 														},
 														&actionExpr{
 															pos: position{line: 1206, col: 5, offset: 37492},
-															run: (*parser).callonNormalGroup139,
+															run: (*parser).callonNormalGroup144,
 															expr: &seqExpr{
 																pos: position{line: 1206, col: 5, offset: 37492},
 																exprs: []interface{}{
 																	&andCodeExpr{
 																		pos: position{line: 1206, col: 5, offset: 37492},
-																		run: (*parser).callonNormalGroup141,
+																		run: (*parser).callonNormalGroup146,
 																	},
 																	&litMatcher{
 																		pos:        position{line: 1209, col: 5, offset: 37568},
@@ -45314,15 +45444,15 @@ var g = &grammar{
 																	},
 																	&andCodeExpr{
 																		pos: position{line: 1210, col: 5, offset: 37576},
-																		run: (*parser).callonNormalGroup143,
+																		run: (*parser).callonNormalGroup148,
 																	},
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1214, col: 5, offset: 37663},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 90952},
-																			run: (*parser).callonNormalGroup145,
+																			pos: position{line: 2873, col: 10, offset: 90962},
+																			run: (*parser).callonNormalGroup150,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 90952},
+																				pos:        position{line: 2873, col: 10, offset: 90962},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45333,28 +45463,28 @@ var g = &grammar{
 																	&andExpr{
 																		pos: position{line: 1214, col: 12, offset: 37670},
 																		expr: &choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91350},
+																			pos: position{line: 2895, col: 8, offset: 91360},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91123},
-																					run: (*parser).callonNormalGroup149,
+																					pos: position{line: 2882, col: 12, offset: 91133},
+																					run: (*parser).callonNormalGroup154,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91124},
+																						pos: position{line: 2882, col: 13, offset: 91134},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91124},
+																								pos:        position{line: 2882, col: 13, offset: 91134},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91131},
+																								pos:        position{line: 2882, col: 20, offset: 91141},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91140},
+																								pos:        position{line: 2882, col: 29, offset: 91150},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -45363,9 +45493,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91300},
+																					pos: position{line: 2892, col: 8, offset: 91310},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91301,
+																						line: 2892, col: 9, offset: 91311,
 																					},
 																				},
 																			},
@@ -45375,12 +45505,12 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2383, col: 15, offset: 77123},
+															pos:  position{line: 2380, col: 15, offset: 77112},
 															name: "InlinePassthrough",
 														},
 														&actionExpr{
 															pos: position{line: 1198, col: 23, offset: 37046},
-															run: (*parser).callonNormalGroup157,
+															run: (*parser).callonNormalGroup162,
 															expr: &seqExpr{
 																pos: position{line: 1198, col: 23, offset: 37046},
 																exprs: []interface{}{
@@ -45395,7 +45525,7 @@ var g = &grammar{
 																		label: "ref",
 																		expr: &actionExpr{
 																			pos: position{line: 1198, col: 56, offset: 37079},
-																			run: (*parser).callonNormalGroup161,
+																			run: (*parser).callonNormalGroup166,
 																			expr: &oneOrMoreExpr{
 																				pos: position{line: 1198, col: 56, offset: 37079},
 																				expr: &charClassMatcher{
@@ -45418,10 +45548,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2815, col: 12, offset: 89260},
-															run: (*parser).callonNormalGroup165,
+															pos: position{line: 2812, col: 12, offset: 89270},
+															run: (*parser).callonNormalGroup170,
 															expr: &charClassMatcher{
-																pos:        position{line: 2815, col: 12, offset: 89260},
+																pos:        position{line: 2812, col: 12, offset: 89270},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -45437,9 +45567,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2895, col: 8, offset: 91300},
+							pos: position{line: 2892, col: 8, offset: 91310},
 							expr: &anyMatcher{
-								line: 2895, col: 9, offset: 91301,
+								line: 2892, col: 9, offset: 91311,
 							},
 						},
 					},
@@ -45448,28 +45578,28 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2394, col: 1, offset: 77561},
+			pos:  position{line: 2391, col: 1, offset: 77550},
 			expr: &actionExpr{
-				pos: position{line: 2395, col: 5, offset: 77594},
+				pos: position{line: 2392, col: 5, offset: 77583},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2395, col: 5, offset: 77594},
+					pos: position{line: 2392, col: 5, offset: 77583},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2395, col: 5, offset: 77594},
+							pos:   position{line: 2392, col: 5, offset: 77583},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2395, col: 14, offset: 77603},
+								pos: position{line: 2392, col: 14, offset: 77592},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2395, col: 15, offset: 77604},
+									pos:  position{line: 2392, col: 15, offset: 77593},
 									name: "AttributeStructuredValueElement",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2895, col: 8, offset: 91300},
+							pos: position{line: 2892, col: 8, offset: 91310},
 							expr: &anyMatcher{
-								line: 2895, col: 9, offset: 91301,
+								line: 2892, col: 9, offset: 91311,
 							},
 						},
 					},
@@ -45478,41 +45608,41 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2399, col: 1, offset: 77701},
+			pos:  position{line: 2396, col: 1, offset: 77690},
 			expr: &actionExpr{
-				pos: position{line: 2400, col: 5, offset: 77741},
+				pos: position{line: 2397, col: 5, offset: 77730},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2400, col: 5, offset: 77741},
+					pos: position{line: 2397, col: 5, offset: 77730},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2893, col: 11, offset: 91286},
+							pos: position{line: 2890, col: 11, offset: 91296},
 							expr: &anyMatcher{
-								line: 2893, col: 13, offset: 91288,
+								line: 2890, col: 13, offset: 91298,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2401, col: 5, offset: 77752},
+							pos:   position{line: 2398, col: 5, offset: 77741},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2402, col: 9, offset: 77770},
+								pos: position{line: 2399, col: 9, offset: 77759},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2775, col: 5, offset: 88194},
+										pos: position{line: 2772, col: 5, offset: 88183},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2775, col: 5, offset: 88194},
+											pos: position{line: 2772, col: 5, offset: 88183},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2775, col: 5, offset: 88194},
+													pos:   position{line: 2772, col: 5, offset: 88183},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2775, col: 11, offset: 88200},
+														pos: position{line: 2772, col: 11, offset: 88189},
 														run: (*parser).callonAttributeStructuredValueElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2775, col: 11, offset: 88200},
+															pos: position{line: 2772, col: 11, offset: 88189},
 															expr: &charClassMatcher{
-																pos:        position{line: 2775, col: 11, offset: 88200},
+																pos:        position{line: 2772, col: 11, offset: 88189},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45522,36 +45652,61 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2778, col: 5, offset: 88258},
+													pos: position{line: 2775, col: 5, offset: 88247},
 													expr: &seqExpr{
-														pos: position{line: 2779, col: 9, offset: 88269},
+														pos: position{line: 2776, col: 9, offset: 88258},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2779, col: 9, offset: 88269},
+																pos:        position{line: 2776, col: 9, offset: 88258},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2780, col: 9, offset: 88318},
+																pos: position{line: 2777, col: 9, offset: 88307},
 																run: (*parser).callonAttributeStructuredValueElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2784, col: 5, offset: 88398},
+													pos: position{line: 2781, col: 5, offset: 88387},
 													expr: &seqExpr{
-														pos: position{line: 2785, col: 9, offset: 88409},
+														pos: position{line: 2782, col: 9, offset: 88398},
 														exprs: []interface{}{
+															&zeroOrMoreExpr{
+																pos: position{line: 2782, col: 9, offset: 88398},
+																expr: &seqExpr{
+																	pos: position{line: 2782, col: 10, offset: 88399},
+																	exprs: []interface{}{
+																		&charClassMatcher{
+																			pos:        position{line: 2782, col: 10, offset: 88399},
+																			val:        "[._%+-]",
+																			chars:      []rune{'.', '_', '%', '+', '-'},
+																			ignoreCase: false,
+																			inverted:   false,
+																		},
+																		&oneOrMoreExpr{
+																			pos: position{line: 2782, col: 18, offset: 88407},
+																			expr: &charClassMatcher{
+																				pos:        position{line: 2782, col: 18, offset: 88407},
+																				val:        "[\\pL\\pN]",
+																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																				ignoreCase: false,
+																				inverted:   false,
+																			},
+																		},
+																	},
+																},
+															},
 															&litMatcher{
-																pos:        position{line: 2785, col: 9, offset: 88409},
+																pos:        position{line: 2782, col: 30, offset: 88419},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2785, col: 13, offset: 88413},
+																pos:        position{line: 2782, col: 34, offset: 88423},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45564,10 +45719,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2876, col: 10, offset: 90952},
-										run: (*parser).callonAttributeStructuredValueElement21,
+										pos: position{line: 2873, col: 10, offset: 90962},
+										run: (*parser).callonAttributeStructuredValueElement26,
 										expr: &charClassMatcher{
-											pos:        position{line: 2876, col: 10, offset: 90952},
+											pos:        position{line: 2873, col: 10, offset: 90962},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -45575,31 +45730,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2404, col: 11, offset: 77808},
+										pos:  position{line: 2401, col: 11, offset: 77797},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2793, col: 5, offset: 88606},
-										run: (*parser).callonAttributeStructuredValueElement24,
+										pos: position{line: 2790, col: 5, offset: 88616},
+										run: (*parser).callonAttributeStructuredValueElement29,
 										expr: &choiceExpr{
-											pos: position{line: 2794, col: 9, offset: 88616},
+											pos: position{line: 2791, col: 9, offset: 88626},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2794, col: 10, offset: 88617},
+													pos:        position{line: 2791, col: 10, offset: 88627},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2796, col: 13, offset: 88714},
+													pos: position{line: 2793, col: 13, offset: 88724},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2796, col: 13, offset: 88714},
-															run: (*parser).callonAttributeStructuredValueElement28,
+															pos: position{line: 2793, col: 13, offset: 88724},
+															run: (*parser).callonAttributeStructuredValueElement33,
 														},
 														&litMatcher{
-															pos:        position{line: 2799, col: 13, offset: 88814},
+															pos:        position{line: 2796, col: 13, offset: 88824},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -45607,20 +45762,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2799, col: 19, offset: 88820},
+													pos:        position{line: 2796, col: 19, offset: 88830},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2802, col: 13, offset: 88858},
+													pos: position{line: 2799, col: 13, offset: 88868},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2802, col: 13, offset: 88858},
-															run: (*parser).callonAttributeStructuredValueElement32,
+															pos: position{line: 2799, col: 13, offset: 88868},
+															run: (*parser).callonAttributeStructuredValueElement37,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2805, col: 14, offset: 88951},
+															pos:        position{line: 2802, col: 14, offset: 88961},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -45629,18 +45784,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2807, col: 12, offset: 88995},
+													pos: position{line: 2804, col: 12, offset: 89005},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2807, col: 12, offset: 88995},
+															pos:        position{line: 2804, col: 12, offset: 89005},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2807, col: 16, offset: 88999},
+															pos: position{line: 2804, col: 16, offset: 89009},
 															expr: &litMatcher{
-																pos:        position{line: 2807, col: 17, offset: 89000},
+																pos:        position{line: 2804, col: 17, offset: 89010},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -45652,31 +45807,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2406, col: 11, offset: 77881},
+										pos:  position{line: 2403, col: 11, offset: 77870},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2407, col: 11, offset: 77897},
+										pos:  position{line: 2404, col: 11, offset: 77886},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2470, col: 5, offset: 79405},
-										run: (*parser).callonAttributeStructuredValueElement40,
+										pos: position{line: 2467, col: 5, offset: 79394},
+										run: (*parser).callonAttributeStructuredValueElement45,
 										expr: &seqExpr{
-											pos: position{line: 2470, col: 5, offset: 79405},
+											pos: position{line: 2467, col: 5, offset: 79394},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2470, col: 5, offset: 79405},
-													run: (*parser).callonAttributeStructuredValueElement42,
+													pos: position{line: 2467, col: 5, offset: 79394},
+													run: (*parser).callonAttributeStructuredValueElement47,
 												},
 												&labeledExpr{
-													pos:   position{line: 2473, col: 5, offset: 79481},
+													pos:   position{line: 2470, col: 5, offset: 79470},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2474, col: 9, offset: 79499},
-														run: (*parser).callonAttributeStructuredValueElement44,
+														pos: position{line: 2471, col: 9, offset: 79488},
+														run: (*parser).callonAttributeStructuredValueElement49,
 														expr: &charClassMatcher{
-															pos:        position{line: 2474, col: 10, offset: 79500},
+															pos:        position{line: 2471, col: 10, offset: 79489},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -45689,7 +45844,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1198, col: 23, offset: 37046},
-										run: (*parser).callonAttributeStructuredValueElement46,
+										run: (*parser).callonAttributeStructuredValueElement51,
 										expr: &seqExpr{
 											pos: position{line: 1198, col: 23, offset: 37046},
 											exprs: []interface{}{
@@ -45704,7 +45859,7 @@ var g = &grammar{
 													label: "ref",
 													expr: &actionExpr{
 														pos: position{line: 1198, col: 56, offset: 37079},
-														run: (*parser).callonAttributeStructuredValueElement50,
+														run: (*parser).callonAttributeStructuredValueElement55,
 														expr: &oneOrMoreExpr{
 															pos: position{line: 1198, col: 56, offset: 37079},
 															expr: &charClassMatcher{
@@ -45727,25 +45882,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2885, col: 12, offset: 91123},
-										run: (*parser).callonAttributeStructuredValueElement54,
+										pos: position{line: 2882, col: 12, offset: 91133},
+										run: (*parser).callonAttributeStructuredValueElement59,
 										expr: &choiceExpr{
-											pos: position{line: 2885, col: 13, offset: 91124},
+											pos: position{line: 2882, col: 13, offset: 91134},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2885, col: 13, offset: 91124},
+													pos:        position{line: 2882, col: 13, offset: 91134},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2885, col: 20, offset: 91131},
+													pos:        position{line: 2882, col: 20, offset: 91141},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2885, col: 29, offset: 91140},
+													pos:        position{line: 2882, col: 29, offset: 91150},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -45754,10 +45909,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2815, col: 12, offset: 89260},
-										run: (*parser).callonAttributeStructuredValueElement59,
+										pos: position{line: 2812, col: 12, offset: 89270},
+										run: (*parser).callonAttributeStructuredValueElement64,
 										expr: &charClassMatcher{
-											pos:        position{line: 2815, col: 12, offset: 89260},
+											pos:        position{line: 2812, col: 12, offset: 89270},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -45773,49 +45928,49 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2418, col: 1, offset: 78167},
+			pos:  position{line: 2415, col: 1, offset: 78156},
 			expr: &actionExpr{
-				pos: position{line: 2420, col: 5, offset: 78249},
+				pos: position{line: 2417, col: 5, offset: 78238},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2420, col: 5, offset: 78249},
+					pos: position{line: 2417, col: 5, offset: 78238},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2420, col: 5, offset: 78249},
+							pos: position{line: 2417, col: 5, offset: 78238},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2423, col: 5, offset: 78314},
+							pos:   position{line: 2420, col: 5, offset: 78303},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2424, col: 9, offset: 78332},
+								pos: position{line: 2421, col: 9, offset: 78321},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2424, col: 9, offset: 78332},
+										pos:  position{line: 2421, col: 9, offset: 78321},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2425, col: 11, offset: 78353},
+										pos:  position{line: 2422, col: 11, offset: 78342},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2426, col: 11, offset: 78376},
+										pos:  position{line: 2423, col: 11, offset: 78365},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2427, col: 11, offset: 78392},
+										pos:  position{line: 2424, col: 11, offset: 78381},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2428, col: 11, offset: 78421},
+										pos:  position{line: 2425, col: 11, offset: 78410},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2429, col: 11, offset: 78447},
+										pos:  position{line: 2426, col: 11, offset: 78436},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2430, col: 11, offset: 78473},
+										pos:  position{line: 2427, col: 11, offset: 78462},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
@@ -45834,12 +45989,12 @@ var g = &grammar{
 													pos:   position{line: 1253, col: 14, offset: 38815},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2861, col: 7, offset: 90604},
+														pos: position{line: 2858, col: 7, offset: 90614},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2861, col: 7, offset: 90604},
+															pos: position{line: 2858, col: 7, offset: 90614},
 															expr: &charClassMatcher{
-																pos:        position{line: 2861, col: 7, offset: 90604},
+																pos:        position{line: 2858, col: 7, offset: 90614},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -45873,12 +46028,12 @@ var g = &grammar{
 													pos:   position{line: 1258, col: 10, offset: 38947},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2861, col: 7, offset: 90604},
+														pos: position{line: 2858, col: 7, offset: 90614},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2861, col: 7, offset: 90604},
+															pos: position{line: 2858, col: 7, offset: 90614},
 															expr: &charClassMatcher{
-																pos:        position{line: 2861, col: 7, offset: 90604},
+																pos:        position{line: 2858, col: 7, offset: 90614},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -45920,17 +46075,17 @@ var g = &grammar{
 																pos: position{line: 1304, col: 31, offset: 40769},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2766, col: 13, offset: 88047},
+																		pos:        position{line: 2763, col: 13, offset: 88036},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 90952},
+																		pos: position{line: 2873, col: 10, offset: 90962},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 90952},
+																			pos:        position{line: 2873, col: 10, offset: 90962},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -45956,10 +46111,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1298, col: 12, offset: 40483},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 90952},
+																			pos: position{line: 2873, col: 10, offset: 90962},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 90952},
+																				pos:        position{line: 2873, col: 10, offset: 90962},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45976,10 +46131,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1298, col: 23, offset: 40494},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 90952},
+																			pos: position{line: 2873, col: 10, offset: 90962},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 90952},
+																				pos:        position{line: 2873, col: 10, offset: 90962},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45999,17 +46154,17 @@ var g = &grammar{
 																					pos: position{line: 1304, col: 31, offset: 40769},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2766, col: 13, offset: 88047},
+																							pos:        position{line: 2763, col: 13, offset: 88036},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 90952},
+																							pos: position{line: 2873, col: 10, offset: 90962},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 90952},
+																								pos:        position{line: 2873, col: 10, offset: 90962},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -46040,10 +46195,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1299, col: 12, offset: 40575},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 90952},
+																			pos: position{line: 2873, col: 10, offset: 90962},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 90952},
+																				pos:        position{line: 2873, col: 10, offset: 90962},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46060,10 +46215,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1299, col: 23, offset: 40586},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 90952},
+																			pos: position{line: 2873, col: 10, offset: 90962},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 90952},
+																				pos:        position{line: 2873, col: 10, offset: 90962},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46083,17 +46238,17 @@ var g = &grammar{
 																					pos: position{line: 1304, col: 31, offset: 40769},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2766, col: 13, offset: 88047},
+																							pos:        position{line: 2763, col: 13, offset: 88036},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 90952},
+																							pos: position{line: 2873, col: 10, offset: 90962},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 90952},
+																								pos:        position{line: 2873, col: 10, offset: 90962},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -46120,15 +46275,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2433, col: 11, offset: 78552},
+										pos:  position{line: 2430, col: 11, offset: 78541},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2434, col: 11, offset: 78572},
+										pos:  position{line: 2431, col: 11, offset: 78561},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2435, col: 11, offset: 78595},
+										pos:  position{line: 2432, col: 11, offset: 78584},
 										name: "InlineMenu",
 									},
 								},
@@ -46140,22 +46295,22 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2439, col: 1, offset: 78652},
+			pos:  position{line: 2436, col: 1, offset: 78641},
 			expr: &actionExpr{
-				pos: position{line: 2441, col: 5, offset: 78740},
+				pos: position{line: 2438, col: 5, offset: 78729},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2441, col: 5, offset: 78740},
+					pos: position{line: 2438, col: 5, offset: 78729},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2441, col: 5, offset: 78740},
+							pos: position{line: 2438, col: 5, offset: 78729},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2444, col: 5, offset: 78817},
+							pos:   position{line: 2441, col: 5, offset: 78806},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2445, col: 9, offset: 78835},
+								pos: position{line: 2442, col: 9, offset: 78824},
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 1379, col: 26, offset: 44106},
@@ -46210,10 +46365,10 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1385, col: 12, offset: 44552},
 																				expr: &actionExpr{
-																					pos: position{line: 2876, col: 10, offset: 90952},
+																					pos: position{line: 2873, col: 10, offset: 90962},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2876, col: 10, offset: 90952},
+																						pos:        position{line: 2873, col: 10, offset: 90962},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -46224,25 +46379,25 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1385, col: 19, offset: 44559},
 																				expr: &actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91123},
+																					pos: position{line: 2882, col: 12, offset: 91133},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91124},
+																						pos: position{line: 2882, col: 13, offset: 91134},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91124},
+																								pos:        position{line: 2882, col: 13, offset: 91134},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91131},
+																								pos:        position{line: 2882, col: 20, offset: 91141},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91140},
+																								pos:        position{line: 2882, col: 29, offset: 91150},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -46279,7 +46434,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1379, col: 121, offset: 44201},
 													expr: &charClassMatcher{
-														pos:        position{line: 2766, col: 13, offset: 88047},
+														pos:        position{line: 2763, col: 13, offset: 88036},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -46325,10 +46480,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1371, col: 64, offset: 43661},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 90952},
+																				pos: position{line: 2873, col: 10, offset: 90962},
 																				run: (*parser).callonInlinePassthrough45,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 90952},
+																					pos:        position{line: 2873, col: 10, offset: 90962},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -46339,25 +46494,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1371, col: 71, offset: 43668},
 																			expr: &actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91123},
+																				pos: position{line: 2882, col: 12, offset: 91133},
 																				run: (*parser).callonInlinePassthrough48,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91124},
+																					pos: position{line: 2882, col: 13, offset: 91134},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91124},
+																							pos:        position{line: 2882, col: 13, offset: 91134},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91131},
+																							pos:        position{line: 2882, col: 20, offset: 91141},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91140},
+																							pos:        position{line: 2882, col: 29, offset: 91150},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -46380,12 +46535,12 @@ var g = &grammar{
 																							pos: position{line: 1371, col: 86, offset: 43683},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2880, col: 11, offset: 91013},
+																									pos: position{line: 2877, col: 11, offset: 91023},
 																									run: (*parser).callonInlinePassthrough58,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2880, col: 11, offset: 91013},
+																										pos: position{line: 2877, col: 11, offset: 91023},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2880, col: 11, offset: 91013},
+																											pos:        position{line: 2877, col: 11, offset: 91023},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -46414,25 +46569,25 @@ var g = &grammar{
 																					&notExpr{
 																						pos: position{line: 1371, col: 151, offset: 43748},
 																						expr: &actionExpr{
-																							pos: position{line: 2885, col: 12, offset: 91123},
+																							pos: position{line: 2882, col: 12, offset: 91133},
 																							run: (*parser).callonInlinePassthrough65,
 																							expr: &choiceExpr{
-																								pos: position{line: 2885, col: 13, offset: 91124},
+																								pos: position{line: 2882, col: 13, offset: 91134},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 13, offset: 91124},
+																										pos:        position{line: 2882, col: 13, offset: 91134},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 20, offset: 91131},
+																										pos:        position{line: 2882, col: 20, offset: 91141},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 29, offset: 91140},
+																										pos:        position{line: 2882, col: 29, offset: 91150},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -46459,10 +46614,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1373, col: 12, offset: 43908},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 90952},
+																				pos: position{line: 2873, col: 10, offset: 90962},
 																				run: (*parser).callonInlinePassthrough74,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 90952},
+																					pos:        position{line: 2873, col: 10, offset: 90962},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -46473,25 +46628,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1373, col: 19, offset: 43915},
 																			expr: &actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91123},
+																				pos: position{line: 2882, col: 12, offset: 91133},
 																				run: (*parser).callonInlinePassthrough77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91124},
+																					pos: position{line: 2882, col: 13, offset: 91134},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91124},
+																							pos:        position{line: 2882, col: 13, offset: 91134},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91131},
+																							pos:        position{line: 2882, col: 20, offset: 91141},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91140},
+																							pos:        position{line: 2882, col: 29, offset: 91150},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -46527,7 +46682,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1367, col: 121, offset: 43484},
 													expr: &charClassMatcher{
-														pos:        position{line: 2766, col: 13, offset: 88047},
+														pos:        position{line: 2763, col: 13, offset: 88036},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -46538,7 +46693,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2445, col: 57, offset: 78883},
+										pos:  position{line: 2442, col: 57, offset: 78872},
 										name: "PassthroughMacro",
 									},
 								},
@@ -46550,16 +46705,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2450, col: 1, offset: 78943},
+			pos:  position{line: 2447, col: 1, offset: 78932},
 			expr: &seqExpr{
-				pos: position{line: 2452, col: 5, offset: 79019},
+				pos: position{line: 2449, col: 5, offset: 79008},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2452, col: 5, offset: 79019},
+						pos: position{line: 2449, col: 5, offset: 79008},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2455, col: 5, offset: 79084},
+						pos:  position{line: 2452, col: 5, offset: 79073},
 						name: "QuotedText",
 					},
 				},
@@ -46567,22 +46722,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2457, col: 1, offset: 79097},
+			pos:  position{line: 2454, col: 1, offset: 79086},
 			expr: &actionExpr{
-				pos: position{line: 2459, col: 5, offset: 79179},
+				pos: position{line: 2456, col: 5, offset: 79168},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2459, col: 5, offset: 79179},
+					pos: position{line: 2456, col: 5, offset: 79168},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2459, col: 5, offset: 79179},
+							pos: position{line: 2456, col: 5, offset: 79168},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2462, col: 5, offset: 79250},
+							pos:   position{line: 2459, col: 5, offset: 79239},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2463, col: 9, offset: 79268},
+								pos:  position{line: 2460, col: 9, offset: 79257},
 								name: "Symbol",
 							},
 						},
@@ -46592,93 +46747,93 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2521, col: 1, offset: 81098},
+			pos:  position{line: 2518, col: 1, offset: 81087},
 			expr: &choiceExpr{
-				pos: position{line: 2523, col: 5, offset: 81128},
+				pos: position{line: 2520, col: 5, offset: 81117},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2523, col: 5, offset: 81128},
+						pos: position{line: 2520, col: 5, offset: 81117},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2523, col: 5, offset: 81128},
+							pos: position{line: 2520, col: 5, offset: 81117},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2523, col: 5, offset: 81128},
+									pos:        position{line: 2520, col: 5, offset: 81117},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2523, col: 10, offset: 81133},
+									pos: position{line: 2520, col: 10, offset: 81122},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2523, col: 10, offset: 81133},
+											pos:  position{line: 2520, col: 10, offset: 81122},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2552, col: 14, offset: 82267},
+											pos: position{line: 2549, col: 14, offset: 82256},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2552, col: 14, offset: 82267},
+												pos:        position{line: 2549, col: 14, offset: 82256},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2556, col: 14, offset: 82333},
+											pos: position{line: 2553, col: 14, offset: 82322},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2556, col: 14, offset: 82333},
+												pos:        position{line: 2553, col: 14, offset: 82322},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2560, col: 15, offset: 82402},
+											pos: position{line: 2557, col: 15, offset: 82391},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2560, col: 15, offset: 82402},
+												pos:        position{line: 2557, col: 15, offset: 82391},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2564, col: 13, offset: 82467},
+											pos: position{line: 2561, col: 13, offset: 82456},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2564, col: 13, offset: 82467},
+												pos:        position{line: 2561, col: 13, offset: 82456},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2571, col: 5, offset: 82605},
+											pos: position{line: 2568, col: 5, offset: 82594},
 											run: (*parser).callonSymbol15,
 											expr: &seqExpr{
-												pos: position{line: 2571, col: 5, offset: 82605},
+												pos: position{line: 2568, col: 5, offset: 82594},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2571, col: 5, offset: 82605},
+														pos:        position{line: 2568, col: 5, offset: 82594},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2572, col: 5, offset: 82615},
+														pos: position{line: 2569, col: 5, offset: 82604},
 														run: (*parser).callonSymbol18,
 													},
 													&choiceExpr{
-														pos: position{line: 2576, col: 6, offset: 82702},
+														pos: position{line: 2573, col: 6, offset: 82691},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2876, col: 10, offset: 90952},
+																pos: position{line: 2873, col: 10, offset: 90962},
 																run: (*parser).callonSymbol20,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2876, col: 10, offset: 90952},
+																	pos:        position{line: 2873, col: 10, offset: 90962},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -46686,30 +46841,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2576, col: 14, offset: 82710},
+																pos: position{line: 2573, col: 14, offset: 82699},
 																expr: &choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91350},
+																	pos: position{line: 2895, col: 8, offset: 91360},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91123},
+																			pos: position{line: 2882, col: 12, offset: 91133},
 																			run: (*parser).callonSymbol24,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91124},
+																				pos: position{line: 2882, col: 13, offset: 91134},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91124},
+																						pos:        position{line: 2882, col: 13, offset: 91134},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91131},
+																						pos:        position{line: 2882, col: 20, offset: 91141},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91140},
+																						pos:        position{line: 2882, col: 29, offset: 91150},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -46718,9 +46873,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91300},
+																			pos: position{line: 2892, col: 8, offset: 91310},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91301,
+																				line: 2892, col: 9, offset: 91311,
 																			},
 																		},
 																	},
@@ -46732,53 +46887,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2581, col: 5, offset: 82830},
+											pos: position{line: 2578, col: 5, offset: 82819},
 											run: (*parser).callonSymbol31,
 											expr: &seqExpr{
-												pos: position{line: 2581, col: 5, offset: 82830},
+												pos: position{line: 2578, col: 5, offset: 82819},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2581, col: 5, offset: 82830},
+														pos:        position{line: 2578, col: 5, offset: 82819},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2582, col: 5, offset: 82840},
+														pos: position{line: 2579, col: 5, offset: 82829},
 														run: (*parser).callonSymbol34,
 													},
 													&andExpr{
-														pos: position{line: 2586, col: 5, offset: 82929},
+														pos: position{line: 2583, col: 5, offset: 82918},
 														expr: &choiceExpr{
-															pos: position{line: 2586, col: 7, offset: 82931},
+															pos: position{line: 2583, col: 7, offset: 82920},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2766, col: 13, offset: 88047},
+																	pos:        position{line: 2763, col: 13, offset: 88036},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2885, col: 12, offset: 91123},
+																	pos: position{line: 2882, col: 12, offset: 91133},
 																	run: (*parser).callonSymbol38,
 																	expr: &choiceExpr{
-																		pos: position{line: 2885, col: 13, offset: 91124},
+																		pos: position{line: 2882, col: 13, offset: 91134},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2885, col: 13, offset: 91124},
+																				pos:        position{line: 2882, col: 13, offset: 91134},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2885, col: 20, offset: 91131},
+																				pos:        position{line: 2882, col: 20, offset: 91141},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2885, col: 29, offset: 91140},
+																				pos:        position{line: 2882, col: 29, offset: 91150},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -46787,9 +46942,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2895, col: 8, offset: 91300},
+																	pos: position{line: 2892, col: 8, offset: 91310},
 																	expr: &anyMatcher{
-																		line: 2895, col: 9, offset: 91301,
+																		line: 2892, col: 9, offset: 91311,
 																	},
 																},
 															},
@@ -46804,63 +46959,63 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2526, col: 7, offset: 81297},
+						pos: position{line: 2523, col: 7, offset: 81286},
 						run: (*parser).callonSymbol45,
 						expr: &seqExpr{
-							pos: position{line: 2526, col: 7, offset: 81297},
+							pos: position{line: 2523, col: 7, offset: 81286},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2526, col: 7, offset: 81297},
+									pos:        position{line: 2523, col: 7, offset: 81286},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2526, col: 11, offset: 81301},
+									pos:   position{line: 2523, col: 11, offset: 81290},
 									label: "elements",
 									expr: &choiceExpr{
-										pos: position{line: 2526, col: 21, offset: 81311},
+										pos: position{line: 2523, col: 21, offset: 81300},
 										alternatives: []interface{}{
 											&seqExpr{
-												pos: position{line: 2526, col: 21, offset: 81311},
+												pos: position{line: 2523, col: 21, offset: 81300},
 												exprs: []interface{}{
 													&charClassMatcher{
-														pos:        position{line: 2526, col: 21, offset: 81311},
+														pos:        position{line: 2523, col: 21, offset: 81300},
 														val:        "[-=]",
 														chars:      []rune{'-', '='},
 														ignoreCase: false,
 														inverted:   false,
 													},
 													&andExpr{
-														pos: position{line: 2526, col: 26, offset: 81316},
+														pos: position{line: 2523, col: 26, offset: 81305},
 														expr: &litMatcher{
-															pos:        position{line: 2526, col: 27, offset: 81317},
+															pos:        position{line: 2523, col: 27, offset: 81306},
 															val:        ">",
 															ignoreCase: false,
 															want:       "\">\"",
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2526, col: 32, offset: 81322},
+														pos: position{line: 2523, col: 32, offset: 81311},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2470, col: 5, offset: 79405},
+																pos: position{line: 2467, col: 5, offset: 79394},
 																run: (*parser).callonSymbol55,
 																expr: &seqExpr{
-																	pos: position{line: 2470, col: 5, offset: 79405},
+																	pos: position{line: 2467, col: 5, offset: 79394},
 																	exprs: []interface{}{
 																		&andCodeExpr{
-																			pos: position{line: 2470, col: 5, offset: 79405},
+																			pos: position{line: 2467, col: 5, offset: 79394},
 																			run: (*parser).callonSymbol57,
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 2473, col: 5, offset: 79481},
+																			pos:   position{line: 2470, col: 5, offset: 79470},
 																			label: "element",
 																			expr: &actionExpr{
-																				pos: position{line: 2474, col: 9, offset: 79499},
+																				pos: position{line: 2471, col: 9, offset: 79488},
 																				run: (*parser).callonSymbol59,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2474, col: 10, offset: 79500},
+																					pos:        position{line: 2471, col: 10, offset: 79489},
 																					val:        "[<>&]",
 																					chars:      []rune{'<', '>', '&'},
 																					ignoreCase: false,
@@ -46872,28 +47027,28 @@ var g = &grammar{
 																},
 															},
 															&anyMatcher{
-																line: 2526, col: 51, offset: 81341,
+																line: 2523, col: 51, offset: 81330,
 															},
 														},
 													},
 												},
 											},
 											&seqExpr{
-												pos: position{line: 2526, col: 56, offset: 81346},
+												pos: position{line: 2523, col: 56, offset: 81335},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2526, col: 56, offset: 81346},
+														pos: position{line: 2523, col: 56, offset: 81335},
 														expr: &choiceExpr{
-															pos: position{line: 2526, col: 58, offset: 81348},
+															pos: position{line: 2523, col: 58, offset: 81337},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2526, col: 58, offset: 81348},
+																	pos:        position{line: 2523, col: 58, offset: 81337},
 																	val:        "<-",
 																	ignoreCase: false,
 																	want:       "\"<-\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2526, col: 65, offset: 81355},
+																	pos:        position{line: 2523, col: 65, offset: 81344},
 																	val:        "<=",
 																	ignoreCase: false,
 																	want:       "\"<=\"",
@@ -46902,26 +47057,26 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2526, col: 72, offset: 81362},
+														pos: position{line: 2523, col: 72, offset: 81351},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2470, col: 5, offset: 79405},
+																pos: position{line: 2467, col: 5, offset: 79394},
 																run: (*parser).callonSymbol68,
 																expr: &seqExpr{
-																	pos: position{line: 2470, col: 5, offset: 79405},
+																	pos: position{line: 2467, col: 5, offset: 79394},
 																	exprs: []interface{}{
 																		&andCodeExpr{
-																			pos: position{line: 2470, col: 5, offset: 79405},
+																			pos: position{line: 2467, col: 5, offset: 79394},
 																			run: (*parser).callonSymbol70,
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 2473, col: 5, offset: 79481},
+																			pos:   position{line: 2470, col: 5, offset: 79470},
 																			label: "element",
 																			expr: &actionExpr{
-																				pos: position{line: 2474, col: 9, offset: 79499},
+																				pos: position{line: 2471, col: 9, offset: 79488},
 																				run: (*parser).callonSymbol72,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2474, col: 10, offset: 79500},
+																					pos:        position{line: 2471, col: 10, offset: 79489},
 																					val:        "[<>&]",
 																					chars:      []rune{'<', '>', '&'},
 																					ignoreCase: false,
@@ -46933,12 +47088,12 @@ var g = &grammar{
 																},
 															},
 															&anyMatcher{
-																line: 2526, col: 91, offset: 81381,
+																line: 2523, col: 91, offset: 81370,
 															},
 														},
 													},
 													&anyMatcher{
-														line: 2526, col: 94, offset: 81384,
+														line: 2523, col: 94, offset: 81373,
 													},
 												},
 											},
@@ -46949,73 +47104,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2527, col: 7, offset: 81418},
+						pos:  position{line: 2524, col: 7, offset: 81407},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2552, col: 14, offset: 82267},
+						pos: position{line: 2549, col: 14, offset: 82256},
 						run: (*parser).callonSymbol77,
 						expr: &litMatcher{
-							pos:        position{line: 2552, col: 14, offset: 82267},
+							pos:        position{line: 2549, col: 14, offset: 82256},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2556, col: 14, offset: 82333},
+						pos: position{line: 2553, col: 14, offset: 82322},
 						run: (*parser).callonSymbol79,
 						expr: &litMatcher{
-							pos:        position{line: 2556, col: 14, offset: 82333},
+							pos:        position{line: 2553, col: 14, offset: 82322},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2560, col: 15, offset: 82402},
+						pos: position{line: 2557, col: 15, offset: 82391},
 						run: (*parser).callonSymbol81,
 						expr: &litMatcher{
-							pos:        position{line: 2560, col: 15, offset: 82402},
+							pos:        position{line: 2557, col: 15, offset: 82391},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2564, col: 13, offset: 82467},
+						pos: position{line: 2561, col: 13, offset: 82456},
 						run: (*parser).callonSymbol83,
 						expr: &litMatcher{
-							pos:        position{line: 2564, col: 13, offset: 82467},
+							pos:        position{line: 2561, col: 13, offset: 82456},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2571, col: 5, offset: 82605},
+						pos: position{line: 2568, col: 5, offset: 82594},
 						run: (*parser).callonSymbol85,
 						expr: &seqExpr{
-							pos: position{line: 2571, col: 5, offset: 82605},
+							pos: position{line: 2568, col: 5, offset: 82594},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2571, col: 5, offset: 82605},
+									pos:        position{line: 2568, col: 5, offset: 82594},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2572, col: 5, offset: 82615},
+									pos: position{line: 2569, col: 5, offset: 82604},
 									run: (*parser).callonSymbol88,
 								},
 								&choiceExpr{
-									pos: position{line: 2576, col: 6, offset: 82702},
+									pos: position{line: 2573, col: 6, offset: 82691},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2876, col: 10, offset: 90952},
+											pos: position{line: 2873, col: 10, offset: 90962},
 											run: (*parser).callonSymbol90,
 											expr: &charClassMatcher{
-												pos:        position{line: 2876, col: 10, offset: 90952},
+												pos:        position{line: 2873, col: 10, offset: 90962},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -47023,30 +47178,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2576, col: 14, offset: 82710},
+											pos: position{line: 2573, col: 14, offset: 82699},
 											expr: &choiceExpr{
-												pos: position{line: 2898, col: 8, offset: 91350},
+												pos: position{line: 2895, col: 8, offset: 91360},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2885, col: 12, offset: 91123},
+														pos: position{line: 2882, col: 12, offset: 91133},
 														run: (*parser).callonSymbol94,
 														expr: &choiceExpr{
-															pos: position{line: 2885, col: 13, offset: 91124},
+															pos: position{line: 2882, col: 13, offset: 91134},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2885, col: 13, offset: 91124},
+																	pos:        position{line: 2882, col: 13, offset: 91134},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2885, col: 20, offset: 91131},
+																	pos:        position{line: 2882, col: 20, offset: 91141},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2885, col: 29, offset: 91140},
+																	pos:        position{line: 2882, col: 29, offset: 91150},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -47055,9 +47210,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2895, col: 8, offset: 91300},
+														pos: position{line: 2892, col: 8, offset: 91310},
 														expr: &anyMatcher{
-															line: 2895, col: 9, offset: 91301,
+															line: 2892, col: 9, offset: 91311,
 														},
 													},
 												},
@@ -47069,53 +47224,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2581, col: 5, offset: 82830},
+						pos: position{line: 2578, col: 5, offset: 82819},
 						run: (*parser).callonSymbol101,
 						expr: &seqExpr{
-							pos: position{line: 2581, col: 5, offset: 82830},
+							pos: position{line: 2578, col: 5, offset: 82819},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2581, col: 5, offset: 82830},
+									pos:        position{line: 2578, col: 5, offset: 82819},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2582, col: 5, offset: 82840},
+									pos: position{line: 2579, col: 5, offset: 82829},
 									run: (*parser).callonSymbol104,
 								},
 								&andExpr{
-									pos: position{line: 2586, col: 5, offset: 82929},
+									pos: position{line: 2583, col: 5, offset: 82918},
 									expr: &choiceExpr{
-										pos: position{line: 2586, col: 7, offset: 82931},
+										pos: position{line: 2583, col: 7, offset: 82920},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2766, col: 13, offset: 88047},
+												pos:        position{line: 2763, col: 13, offset: 88036},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2885, col: 12, offset: 91123},
+												pos: position{line: 2882, col: 12, offset: 91133},
 												run: (*parser).callonSymbol108,
 												expr: &choiceExpr{
-													pos: position{line: 2885, col: 13, offset: 91124},
+													pos: position{line: 2882, col: 13, offset: 91134},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2885, col: 13, offset: 91124},
+															pos:        position{line: 2882, col: 13, offset: 91134},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2885, col: 20, offset: 91131},
+															pos:        position{line: 2882, col: 20, offset: 91141},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2885, col: 29, offset: 91140},
+															pos:        position{line: 2882, col: 29, offset: 91150},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -47124,9 +47279,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2895, col: 8, offset: 91300},
+												pos: position{line: 2892, col: 8, offset: 91310},
 												expr: &anyMatcher{
-													line: 2895, col: 9, offset: 91301,
+													line: 2892, col: 9, offset: 91311,
 												},
 											},
 										},
@@ -47136,40 +47291,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2592, col: 21, offset: 83019},
+						pos: position{line: 2589, col: 21, offset: 83008},
 						run: (*parser).callonSymbol115,
 						expr: &litMatcher{
-							pos:        position{line: 2592, col: 21, offset: 83019},
+							pos:        position{line: 2589, col: 21, offset: 83008},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2596, col: 20, offset: 83089},
+						pos: position{line: 2593, col: 20, offset: 83078},
 						run: (*parser).callonSymbol117,
 						expr: &litMatcher{
-							pos:        position{line: 2596, col: 20, offset: 83089},
+							pos:        position{line: 2593, col: 20, offset: 83078},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2600, col: 21, offset: 83160},
+						pos: position{line: 2597, col: 21, offset: 83149},
 						run: (*parser).callonSymbol119,
 						expr: &litMatcher{
-							pos:        position{line: 2600, col: 21, offset: 83160},
+							pos:        position{line: 2597, col: 21, offset: 83149},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2604, col: 20, offset: 83230},
+						pos: position{line: 2601, col: 20, offset: 83219},
 						run: (*parser).callonSymbol121,
 						expr: &litMatcher{
-							pos:        position{line: 2604, col: 20, offset: 83230},
+							pos:        position{line: 2601, col: 20, offset: 83219},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -47180,43 +47335,43 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2538, col: 1, offset: 81608},
+			pos:  position{line: 2535, col: 1, offset: 81597},
 			expr: &choiceExpr{
-				pos: position{line: 2539, col: 5, offset: 81630},
+				pos: position{line: 2536, col: 5, offset: 81619},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2539, col: 5, offset: 81630},
+						pos: position{line: 2536, col: 5, offset: 81619},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2539, col: 5, offset: 81630},
+							pos: position{line: 2536, col: 5, offset: 81619},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2539, col: 5, offset: 81630},
+									pos:        position{line: 2536, col: 5, offset: 81619},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2539, col: 11, offset: 81636},
+									pos: position{line: 2536, col: 11, offset: 81625},
 									expr: &seqExpr{
-										pos: position{line: 2089, col: 5, offset: 67542},
+										pos: position{line: 2086, col: 5, offset: 67531},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2089, col: 5, offset: 67542},
+												pos:        position{line: 2086, col: 5, offset: 67531},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2090, col: 5, offset: 67551},
+												pos: position{line: 2087, col: 5, offset: 67540},
 												run: (*parser).callonQuotationMark8,
 											},
 											&andExpr{
-												pos: position{line: 2094, col: 5, offset: 67674},
+												pos: position{line: 2091, col: 5, offset: 67663},
 												expr: &notExpr{
-													pos: position{line: 2094, col: 7, offset: 67676},
+													pos: position{line: 2091, col: 7, offset: 67665},
 													expr: &litMatcher{
-														pos:        position{line: 2094, col: 8, offset: 67677},
+														pos:        position{line: 2091, col: 8, offset: 67666},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -47230,21 +47385,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2542, col: 7, offset: 81789},
+						pos: position{line: 2539, col: 7, offset: 81778},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2542, col: 7, offset: 81789},
+							pos: position{line: 2539, col: 7, offset: 81778},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2542, col: 7, offset: 81789},
+									pos:        position{line: 2539, col: 7, offset: 81778},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2542, col: 13, offset: 81795},
+									pos: position{line: 2539, col: 13, offset: 81784},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2542, col: 14, offset: 81796},
+										pos:  position{line: 2539, col: 14, offset: 81785},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -47252,38 +47407,38 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2545, col: 7, offset: 81946},
+						pos: position{line: 2542, col: 7, offset: 81935},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2545, col: 7, offset: 81946},
+							pos: position{line: 2542, col: 7, offset: 81935},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2545, col: 7, offset: 81946},
+									pos:        position{line: 2542, col: 7, offset: 81935},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2545, col: 12, offset: 81951},
+									pos: position{line: 2542, col: 12, offset: 81940},
 									expr: &seqExpr{
-										pos: position{line: 2089, col: 5, offset: 67542},
+										pos: position{line: 2086, col: 5, offset: 67531},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2089, col: 5, offset: 67542},
+												pos:        position{line: 2086, col: 5, offset: 67531},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2090, col: 5, offset: 67551},
+												pos: position{line: 2087, col: 5, offset: 67540},
 												run: (*parser).callonQuotationMark23,
 											},
 											&andExpr{
-												pos: position{line: 2094, col: 5, offset: 67674},
+												pos: position{line: 2091, col: 5, offset: 67663},
 												expr: &notExpr{
-													pos: position{line: 2094, col: 7, offset: 67676},
+													pos: position{line: 2091, col: 7, offset: 67665},
 													expr: &litMatcher{
-														pos:        position{line: 2094, col: 8, offset: 67677},
+														pos:        position{line: 2091, col: 8, offset: 67666},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -47297,21 +47452,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2548, col: 7, offset: 82104},
+						pos: position{line: 2545, col: 7, offset: 82093},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2548, col: 7, offset: 82104},
+							pos: position{line: 2545, col: 7, offset: 82093},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2548, col: 7, offset: 82104},
+									pos:        position{line: 2545, col: 7, offset: 82093},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2548, col: 12, offset: 82109},
+									pos: position{line: 2545, col: 12, offset: 82098},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2548, col: 13, offset: 82110},
+										pos:  position{line: 2545, col: 13, offset: 82099},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -47323,63 +47478,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2681, col: 1, offset: 85132},
+			pos:  position{line: 2678, col: 1, offset: 85121},
 			expr: &actionExpr{
-				pos: position{line: 2681, col: 26, offset: 85157},
+				pos: position{line: 2678, col: 26, offset: 85146},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2681, col: 26, offset: 85157},
+					pos: position{line: 2678, col: 26, offset: 85146},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2681, col: 26, offset: 85157},
+							pos:   position{line: 2678, col: 26, offset: 85146},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2681, col: 31, offset: 85162},
+								pos: position{line: 2678, col: 31, offset: 85151},
 								expr: &actionExpr{
-									pos: position{line: 2686, col: 5, offset: 85225},
+									pos: position{line: 2683, col: 5, offset: 85214},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2686, col: 5, offset: 85225},
+										pos: position{line: 2683, col: 5, offset: 85214},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2893, col: 11, offset: 91286},
+												pos: position{line: 2890, col: 11, offset: 91296},
 												expr: &anyMatcher{
-													line: 2893, col: 13, offset: 91288,
+													line: 2890, col: 13, offset: 91298,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2689, col: 5, offset: 85351},
+												pos:   position{line: 2686, col: 5, offset: 85340},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2689, col: 16, offset: 85362},
+													pos: position{line: 2686, col: 16, offset: 85351},
 													expr: &actionExpr{
-														pos: position{line: 2689, col: 17, offset: 85363},
+														pos: position{line: 2686, col: 17, offset: 85352},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2689, col: 17, offset: 85363},
+															pos: position{line: 2686, col: 17, offset: 85352},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2689, col: 17, offset: 85363},
+																	pos:   position{line: 2686, col: 17, offset: 85352},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2868, col: 12, offset: 90779},
+																		pos: position{line: 2865, col: 12, offset: 90789},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2868, col: 13, offset: 90780},
+																			pos: position{line: 2865, col: 13, offset: 90790},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2868, col: 13, offset: 90780},
+																					pos: position{line: 2865, col: 13, offset: 90790},
 																					expr: &litMatcher{
-																						pos:        position{line: 2868, col: 13, offset: 90780},
+																						pos:        position{line: 2865, col: 13, offset: 90790},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2868, col: 18, offset: 90785},
+																					pos: position{line: 2865, col: 18, offset: 90795},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2868, col: 18, offset: 90785},
+																						pos:        position{line: 2865, col: 18, offset: 90795},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -47391,7 +47546,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2689, col: 27, offset: 85373},
+																	pos:        position{line: 2686, col: 27, offset: 85362},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -47402,38 +47557,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2690, col: 5, offset: 85401},
+												pos:   position{line: 2687, col: 5, offset: 85390},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2690, col: 12, offset: 85408},
+													pos: position{line: 2687, col: 12, offset: 85397},
 													expr: &choiceExpr{
-														pos: position{line: 2691, col: 9, offset: 85418},
+														pos: position{line: 2688, col: 9, offset: 85407},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2691, col: 9, offset: 85418},
+																pos: position{line: 2688, col: 9, offset: 85407},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2691, col: 9, offset: 85418},
+																	pos:        position{line: 2688, col: 9, offset: 85407},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2692, col: 11, offset: 85465},
+																pos: position{line: 2689, col: 11, offset: 85454},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2692, col: 11, offset: 85465},
+																	pos:        position{line: 2689, col: 11, offset: 85454},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2693, col: 11, offset: 85513},
+																pos: position{line: 2690, col: 11, offset: 85502},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2693, col: 11, offset: 85513},
+																	pos:        position{line: 2690, col: 11, offset: 85502},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -47444,38 +47599,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2695, col: 5, offset: 85563},
+												pos:   position{line: 2692, col: 5, offset: 85552},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2695, col: 12, offset: 85570},
+													pos: position{line: 2692, col: 12, offset: 85559},
 													expr: &choiceExpr{
-														pos: position{line: 2696, col: 9, offset: 85580},
+														pos: position{line: 2693, col: 9, offset: 85569},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2696, col: 9, offset: 85580},
+																pos: position{line: 2693, col: 9, offset: 85569},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2696, col: 9, offset: 85580},
+																	pos:        position{line: 2693, col: 9, offset: 85569},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2697, col: 11, offset: 85627},
+																pos: position{line: 2694, col: 11, offset: 85616},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2697, col: 11, offset: 85627},
+																	pos:        position{line: 2694, col: 11, offset: 85616},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2698, col: 11, offset: 85677},
+																pos: position{line: 2695, col: 11, offset: 85666},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2698, col: 11, offset: 85677},
+																	pos:        position{line: 2695, col: 11, offset: 85666},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -47486,32 +47641,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2700, col: 5, offset: 85728},
+												pos:   position{line: 2697, col: 5, offset: 85717},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2700, col: 12, offset: 85735},
+													pos: position{line: 2697, col: 12, offset: 85724},
 													expr: &choiceExpr{
-														pos: position{line: 2700, col: 13, offset: 85736},
+														pos: position{line: 2697, col: 13, offset: 85725},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2868, col: 12, offset: 90779},
+																pos: position{line: 2865, col: 12, offset: 90789},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2868, col: 13, offset: 90780},
+																	pos: position{line: 2865, col: 13, offset: 90790},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2868, col: 13, offset: 90780},
+																			pos: position{line: 2865, col: 13, offset: 90790},
 																			expr: &litMatcher{
-																				pos:        position{line: 2868, col: 13, offset: 90780},
+																				pos:        position{line: 2865, col: 13, offset: 90790},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2868, col: 18, offset: 90785},
+																			pos: position{line: 2865, col: 18, offset: 90795},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2868, col: 18, offset: 90785},
+																				pos:        position{line: 2865, col: 18, offset: 90795},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -47522,10 +47677,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2700, col: 24, offset: 85747},
+																pos: position{line: 2697, col: 24, offset: 85736},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2700, col: 24, offset: 85747},
+																	pos:        position{line: 2697, col: 24, offset: 85736},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -47536,15 +47691,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2701, col: 5, offset: 85789},
+												pos:   position{line: 2698, col: 5, offset: 85778},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2701, col: 11, offset: 85795},
+													pos: position{line: 2698, col: 11, offset: 85784},
 													expr: &actionExpr{
-														pos: position{line: 2701, col: 12, offset: 85796},
+														pos: position{line: 2698, col: 12, offset: 85785},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2701, col: 12, offset: 85796},
+															pos:        position{line: 2698, col: 12, offset: 85785},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -47554,12 +47709,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2703, col: 5, offset: 85926},
+												pos:   position{line: 2700, col: 5, offset: 85915},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2703, col: 11, offset: 85932},
+													pos: position{line: 2700, col: 11, offset: 85921},
 													expr: &litMatcher{
-														pos:        position{line: 2703, col: 12, offset: 85933},
+														pos:        position{line: 2700, col: 12, offset: 85922},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -47567,7 +47722,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2704, col: 5, offset: 85943},
+												pos: position{line: 2701, col: 5, offset: 85932},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -47576,9 +47731,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2895, col: 8, offset: 91300},
+							pos: position{line: 2892, col: 8, offset: 91310},
 							expr: &anyMatcher{
-								line: 2895, col: 9, offset: 91301,
+								line: 2892, col: 9, offset: 91311,
 							},
 						},
 					},
@@ -47587,23 +47742,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2731, col: 1, offset: 86947},
+			pos:  position{line: 2728, col: 1, offset: 86936},
 			expr: &actionExpr{
-				pos: position{line: 2732, col: 5, offset: 86970},
+				pos: position{line: 2729, col: 5, offset: 86959},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2732, col: 5, offset: 86970},
+					pos: position{line: 2729, col: 5, offset: 86959},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2732, col: 5, offset: 86970},
+							pos:   position{line: 2729, col: 5, offset: 86959},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2755, col: 18, offset: 87711},
+								pos: position{line: 2752, col: 18, offset: 87700},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2755, col: 19, offset: 87712},
+									pos: position{line: 2752, col: 19, offset: 87701},
 									expr: &charClassMatcher{
-										pos:        position{line: 2755, col: 19, offset: 87712},
+										pos:        position{line: 2752, col: 19, offset: 87701},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47614,25 +47769,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2733, col: 5, offset: 86996},
+							pos: position{line: 2730, col: 5, offset: 86985},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2737, col: 5, offset: 87124},
+							pos:        position{line: 2734, col: 5, offset: 87113},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2738, col: 5, offset: 87134},
+							pos:   position{line: 2735, col: 5, offset: 87123},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2759, col: 19, offset: 87787},
+								pos: position{line: 2756, col: 19, offset: 87776},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2759, col: 19, offset: 87787},
+									pos: position{line: 2756, col: 19, offset: 87776},
 									expr: &charClassMatcher{
-										pos:        position{line: 2759, col: 19, offset: 87787},
+										pos:        position{line: 2756, col: 19, offset: 87776},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -47642,36 +47797,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2739, col: 5, offset: 87162},
+							pos:   position{line: 2736, col: 5, offset: 87151},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2739, col: 17, offset: 87174},
+								pos:  position{line: 2736, col: 17, offset: 87163},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2898, col: 8, offset: 91350},
+							pos: position{line: 2895, col: 8, offset: 91360},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2885, col: 12, offset: 91123},
+									pos: position{line: 2882, col: 12, offset: 91133},
 									run: (*parser).callonUserMacroBlock16,
 									expr: &choiceExpr{
-										pos: position{line: 2885, col: 13, offset: 91124},
+										pos: position{line: 2882, col: 13, offset: 91134},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2885, col: 13, offset: 91124},
+												pos:        position{line: 2882, col: 13, offset: 91134},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 20, offset: 91131},
+												pos:        position{line: 2882, col: 20, offset: 91141},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 29, offset: 91140},
+												pos:        position{line: 2882, col: 29, offset: 91150},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -47680,9 +47835,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2895, col: 8, offset: 91300},
+									pos: position{line: 2892, col: 8, offset: 91310},
 									expr: &anyMatcher{
-										line: 2895, col: 9, offset: 91301,
+										line: 2892, col: 9, offset: 91311,
 									},
 								},
 							},
@@ -47693,23 +47848,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2743, col: 1, offset: 87322},
+			pos:  position{line: 2740, col: 1, offset: 87311},
 			expr: &actionExpr{
-				pos: position{line: 2744, col: 5, offset: 87346},
+				pos: position{line: 2741, col: 5, offset: 87335},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2744, col: 5, offset: 87346},
+					pos: position{line: 2741, col: 5, offset: 87335},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2744, col: 5, offset: 87346},
+							pos:   position{line: 2741, col: 5, offset: 87335},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2755, col: 18, offset: 87711},
+								pos: position{line: 2752, col: 18, offset: 87700},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2755, col: 19, offset: 87712},
+									pos: position{line: 2752, col: 19, offset: 87701},
 									expr: &charClassMatcher{
-										pos:        position{line: 2755, col: 19, offset: 87712},
+										pos:        position{line: 2752, col: 19, offset: 87701},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47720,25 +47875,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2745, col: 5, offset: 87372},
+							pos: position{line: 2742, col: 5, offset: 87361},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2749, col: 5, offset: 87500},
+							pos:        position{line: 2746, col: 5, offset: 87489},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2750, col: 5, offset: 87509},
+							pos:   position{line: 2747, col: 5, offset: 87498},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2759, col: 19, offset: 87787},
+								pos: position{line: 2756, col: 19, offset: 87776},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2759, col: 19, offset: 87787},
+									pos: position{line: 2756, col: 19, offset: 87776},
 									expr: &charClassMatcher{
-										pos:        position{line: 2759, col: 19, offset: 87787},
+										pos:        position{line: 2756, col: 19, offset: 87776},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -47748,10 +47903,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2751, col: 5, offset: 87537},
+							pos:   position{line: 2748, col: 5, offset: 87526},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2751, col: 17, offset: 87549},
+								pos:  position{line: 2748, col: 17, offset: 87538},
 								name: "InlineAttributes",
 							},
 						},
@@ -47761,43 +47916,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2830, col: 1, offset: 89599},
+			pos:  position{line: 2827, col: 1, offset: 89609},
 			expr: &actionExpr{
-				pos: position{line: 2830, col: 17, offset: 89615},
+				pos: position{line: 2827, col: 17, offset: 89625},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2830, col: 17, offset: 89615},
+					pos:   position{line: 2827, col: 17, offset: 89625},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2847, col: 5, offset: 90069},
+						pos: position{line: 2844, col: 5, offset: 90079},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2847, col: 5, offset: 90069},
+							pos:   position{line: 2844, col: 5, offset: 90079},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2847, col: 14, offset: 90078},
+								pos: position{line: 2844, col: 14, offset: 90088},
 								expr: &choiceExpr{
-									pos: position{line: 2848, col: 9, offset: 90088},
+									pos: position{line: 2845, col: 9, offset: 90098},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2848, col: 9, offset: 90088},
+											pos: position{line: 2845, col: 9, offset: 90098},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2848, col: 9, offset: 90088},
+												pos: position{line: 2845, col: 9, offset: 90098},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2848, col: 9, offset: 90088},
+														pos: position{line: 2845, col: 9, offset: 90098},
 														expr: &litMatcher{
-															pos:        position{line: 2848, col: 10, offset: 90089},
+															pos:        position{line: 2845, col: 10, offset: 90099},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2849, col: 9, offset: 90117},
+														pos: position{line: 2846, col: 9, offset: 90127},
 														expr: &charClassMatcher{
-															pos:        position{line: 2849, col: 10, offset: 90118},
+															pos:        position{line: 2846, col: 10, offset: 90128},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -47808,27 +47963,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2852, col: 11, offset: 90330},
+											pos: position{line: 2849, col: 11, offset: 90340},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2852, col: 11, offset: 90330},
+													pos:        position{line: 2849, col: 11, offset: 90340},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2852, col: 19, offset: 90338},
+													pos: position{line: 2849, col: 19, offset: 90348},
 													expr: &seqExpr{
-														pos: position{line: 2852, col: 21, offset: 90340},
+														pos: position{line: 2849, col: 21, offset: 90350},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2852, col: 21, offset: 90340},
+																pos: position{line: 2849, col: 21, offset: 90350},
 																expr: &actionExpr{
-																	pos: position{line: 2876, col: 10, offset: 90952},
+																	pos: position{line: 2873, col: 10, offset: 90962},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2876, col: 10, offset: 90952},
+																		pos:        position{line: 2873, col: 10, offset: 90962},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -47837,11 +47992,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2852, col: 28, offset: 90347},
+																pos: position{line: 2849, col: 28, offset: 90357},
 																expr: &notExpr{
-																	pos: position{line: 2895, col: 8, offset: 91300},
+																	pos: position{line: 2892, col: 8, offset: 91310},
 																	expr: &anyMatcher{
-																		line: 2895, col: 9, offset: 91301,
+																		line: 2892, col: 9, offset: 91311,
 																	},
 																},
 															},
@@ -48236,10 +48391,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2855, col: 11, offset: 90467},
+											pos: position{line: 2852, col: 11, offset: 90477},
 											run: (*parser).callonFileLocation100,
 											expr: &litMatcher{
-												pos:        position{line: 2855, col: 11, offset: 90467},
+												pos:        position{line: 2852, col: 11, offset: 90477},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -58826,194 +58981,194 @@ func (p *parser) callonFootnoteElement7() (interface{}, error) {
 	return p.cur.onFootnoteElement7(stack["text"])
 }
 
-func (c *current) onFootnoteElement21() (interface{}, error) {
+func (c *current) onFootnoteElement26() (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement21() (interface{}, error) {
+func (p *parser) callonFootnoteElement26() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement21()
+	return p.cur.onFootnoteElement26()
 }
 
-func (c *current) onFootnoteElement26() (bool, error) {
+func (c *current) onFootnoteElement31() (bool, error) {
 	return c.isSubstitutionEnabled(Replacements), nil
 
 }
 
-func (p *parser) callonFootnoteElement26() (bool, error) {
+func (p *parser) callonFootnoteElement31() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement26()
+	return p.cur.onFootnoteElement31()
 }
 
-func (c *current) onFootnoteElement24() (interface{}, error) {
+func (c *current) onFootnoteElement29() (interface{}, error) {
 	//log.Debug("matched escaped apostrophe")
 	return types.NewStringElement(`'`) // retain the apostrophe, but discard the `\` escape char
 
 }
 
-func (p *parser) callonFootnoteElement24() (interface{}, error) {
+func (p *parser) callonFootnoteElement29() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement24()
+	return p.cur.onFootnoteElement29()
 }
 
-func (c *current) onFootnoteElement32() (bool, error) {
+func (c *current) onFootnoteElement37() (bool, error) {
 	return c.isSubstitutionEnabled(Replacements), nil
 
 }
 
-func (p *parser) callonFootnoteElement32() (bool, error) {
+func (p *parser) callonFootnoteElement37() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement32()
+	return p.cur.onFootnoteElement37()
 }
 
-func (c *current) onFootnoteElement33() (bool, error) {
+func (c *current) onFootnoteElement38() (bool, error) {
 	//log.Debugf("TypographicQuote at pos %s", c.pos.String())
 	return c.isPrecededByAlphanum(), nil
 
 }
 
-func (p *parser) callonFootnoteElement33() (bool, error) {
+func (p *parser) callonFootnoteElement38() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement33()
+	return p.cur.onFootnoteElement38()
 }
 
-func (c *current) onFootnoteElement30() (interface{}, error) {
+func (c *current) onFootnoteElement35() (interface{}, error) {
 	return types.NewSymbol("'")
 
 }
 
-func (p *parser) callonFootnoteElement30() (interface{}, error) {
+func (p *parser) callonFootnoteElement35() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement30()
+	return p.cur.onFootnoteElement35()
 }
 
-func (c *current) onFootnoteElement43() (bool, error) {
+func (c *current) onFootnoteElement48() (bool, error) {
 
 	return c.allSubstitutionsDisabled(Macros, Quotes), nil
 
 }
 
-func (p *parser) callonFootnoteElement43() (bool, error) {
+func (p *parser) callonFootnoteElement48() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement43()
+	return p.cur.onFootnoteElement48()
 }
 
-func (c *current) onFootnoteElement47() (bool, error) {
+func (c *current) onFootnoteElement52() (bool, error) {
 
 	return c.isSubstitutionDisabled(Quotes), nil
 
 }
 
-func (p *parser) callonFootnoteElement47() (bool, error) {
+func (p *parser) callonFootnoteElement52() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement47()
+	return p.cur.onFootnoteElement52()
 }
 
-func (c *current) onFootnoteElement39() (interface{}, error) {
+func (c *current) onFootnoteElement44() (interface{}, error) {
 
 	log.Debugf("new punctuation: '%v'", string(c.text))
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement39() (interface{}, error) {
+func (p *parser) callonFootnoteElement44() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement39()
+	return p.cur.onFootnoteElement44()
 }
 
-func (c *current) onFootnoteElement56() (bool, error) {
+func (c *current) onFootnoteElement61() (bool, error) {
 
 	return c.isSubstitutionEnabled(PostReplacements), nil
 
 }
 
-func (p *parser) callonFootnoteElement56() (bool, error) {
+func (p *parser) callonFootnoteElement61() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement56()
+	return p.cur.onFootnoteElement61()
 }
 
-func (c *current) onFootnoteElement58() (bool, error) {
+func (c *current) onFootnoteElement63() (bool, error) {
 
 	log.Debug("LineBreak")
 	return c.isPrecededBySpace(), nil
 
 }
 
-func (p *parser) callonFootnoteElement58() (bool, error) {
+func (p *parser) callonFootnoteElement63() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement58()
+	return p.cur.onFootnoteElement63()
 }
 
-func (c *current) onFootnoteElement60() (interface{}, error) {
+func (c *current) onFootnoteElement65() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement60() (interface{}, error) {
+func (p *parser) callonFootnoteElement65() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement60()
+	return p.cur.onFootnoteElement65()
 }
 
-func (c *current) onFootnoteElement64() (interface{}, error) {
+func (c *current) onFootnoteElement69() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonFootnoteElement64() (interface{}, error) {
+func (p *parser) callonFootnoteElement69() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement64()
+	return p.cur.onFootnoteElement69()
 }
 
-func (c *current) onFootnoteElement54() (interface{}, error) {
+func (c *current) onFootnoteElement59() (interface{}, error) {
 	return types.NewLineBreak()
 
 }
 
-func (p *parser) callonFootnoteElement54() (interface{}, error) {
+func (p *parser) callonFootnoteElement59() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement54()
+	return p.cur.onFootnoteElement59()
 }
 
-func (c *current) onFootnoteElement73() (bool, error) {
+func (c *current) onFootnoteElement78() (bool, error) {
 	return c.isSubstitutionEnabled(AttributeRefs), nil
 
 }
 
-func (p *parser) callonFootnoteElement73() (bool, error) {
+func (p *parser) callonFootnoteElement78() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement73()
+	return p.cur.onFootnoteElement78()
 }
 
-func (c *current) onFootnoteElement80() (interface{}, error) {
+func (c *current) onFootnoteElement85() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement80() (interface{}, error) {
+func (p *parser) callonFootnoteElement85() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement80()
+	return p.cur.onFootnoteElement85()
 }
 
-func (c *current) onFootnoteElement76(name interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement81(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -59021,201 +59176,201 @@ func (c *current) onFootnoteElement76(name interface{}) (interface{}, error) {
 
 }
 
-func (p *parser) callonFootnoteElement76() (interface{}, error) {
+func (p *parser) callonFootnoteElement81() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement76(stack["name"])
+	return p.cur.onFootnoteElement81(stack["name"])
 }
 
-func (c *current) onFootnoteElement90() (interface{}, error) {
+func (c *current) onFootnoteElement95() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement90() (interface{}, error) {
+func (p *parser) callonFootnoteElement95() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement90()
+	return p.cur.onFootnoteElement95()
 }
 
-func (c *current) onFootnoteElement86(name interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement91(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonFootnoteElement86() (interface{}, error) {
+func (p *parser) callonFootnoteElement91() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement86(stack["name"])
+	return p.cur.onFootnoteElement91(stack["name"])
 }
 
-func (c *current) onFootnoteElement100() (interface{}, error) {
+func (c *current) onFootnoteElement105() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement100() (interface{}, error) {
+func (p *parser) callonFootnoteElement105() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement100()
+	return p.cur.onFootnoteElement105()
 }
 
-func (c *current) onFootnoteElement112() (interface{}, error) {
+func (c *current) onFootnoteElement117() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement112() (interface{}, error) {
+func (p *parser) callonFootnoteElement117() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement112()
+	return p.cur.onFootnoteElement117()
 }
 
-func (c *current) onFootnoteElement114() (interface{}, error) {
+func (c *current) onFootnoteElement119() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonFootnoteElement114() (interface{}, error) {
+func (p *parser) callonFootnoteElement119() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement114()
+	return p.cur.onFootnoteElement119()
 }
 
-func (c *current) onFootnoteElement107(start interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement112(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonFootnoteElement107() (interface{}, error) {
+func (p *parser) callonFootnoteElement112() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement107(stack["start"])
+	return p.cur.onFootnoteElement112(stack["start"])
 }
 
-func (c *current) onFootnoteElement96(name, start interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement101(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
 }
 
-func (p *parser) callonFootnoteElement96() (interface{}, error) {
+func (p *parser) callonFootnoteElement101() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement96(stack["name"], stack["start"])
+	return p.cur.onFootnoteElement101(stack["name"], stack["start"])
 }
 
-func (c *current) onFootnoteElement122() (interface{}, error) {
+func (c *current) onFootnoteElement127() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement122() (interface{}, error) {
+func (p *parser) callonFootnoteElement127() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement122()
+	return p.cur.onFootnoteElement127()
 }
 
-func (c *current) onFootnoteElement134() (interface{}, error) {
+func (c *current) onFootnoteElement139() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement134() (interface{}, error) {
+func (p *parser) callonFootnoteElement139() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement134()
+	return p.cur.onFootnoteElement139()
 }
 
-func (c *current) onFootnoteElement136() (interface{}, error) {
+func (c *current) onFootnoteElement141() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonFootnoteElement136() (interface{}, error) {
+func (p *parser) callonFootnoteElement141() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement136()
+	return p.cur.onFootnoteElement141()
 }
 
-func (c *current) onFootnoteElement129(start interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement134(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonFootnoteElement129() (interface{}, error) {
+func (p *parser) callonFootnoteElement134() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement129(stack["start"])
+	return p.cur.onFootnoteElement134(stack["start"])
 }
 
-func (c *current) onFootnoteElement118(name, start interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement123(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
 }
 
-func (p *parser) callonFootnoteElement118() (interface{}, error) {
+func (p *parser) callonFootnoteElement123() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement118(stack["name"], stack["start"])
+	return p.cur.onFootnoteElement123(stack["name"], stack["start"])
 }
 
-func (c *current) onFootnoteElement71(element interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement76(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonFootnoteElement71() (interface{}, error) {
+func (p *parser) callonFootnoteElement76() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement71(stack["element"])
+	return p.cur.onFootnoteElement76(stack["element"])
 }
 
-func (c *current) onFootnoteElement142() (bool, error) {
+func (c *current) onFootnoteElement147() (bool, error) {
 	return c.isSubstitutionEnabled(SpecialCharacters), nil
 
 }
 
-func (p *parser) callonFootnoteElement142() (bool, error) {
+func (p *parser) callonFootnoteElement147() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement142()
+	return p.cur.onFootnoteElement147()
 }
 
-func (c *current) onFootnoteElement144() (interface{}, error) {
+func (c *current) onFootnoteElement149() (interface{}, error) {
 	return types.NewSpecialCharacter(string(c.text))
 
 }
 
-func (p *parser) callonFootnoteElement144() (interface{}, error) {
+func (p *parser) callonFootnoteElement149() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement144()
+	return p.cur.onFootnoteElement149()
 }
 
-func (c *current) onFootnoteElement140(element interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement145(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonFootnoteElement140() (interface{}, error) {
+func (p *parser) callonFootnoteElement145() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement140(stack["element"])
+	return p.cur.onFootnoteElement145(stack["element"])
 }
 
-func (c *current) onFootnoteElement146() (interface{}, error) {
+func (c *current) onFootnoteElement151() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonFootnoteElement146() (interface{}, error) {
+func (p *parser) callonFootnoteElement151() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement146()
+	return p.cur.onFootnoteElement151()
 }
 
-func (c *current) onFootnoteElement151() (interface{}, error) {
+func (c *current) onFootnoteElement156() (interface{}, error) {
 
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("matching anychar '%s' at position %v", string(c.text), c.pos.String())
@@ -59224,10 +59379,10 @@ func (c *current) onFootnoteElement151() (interface{}, error) {
 
 }
 
-func (p *parser) callonFootnoteElement151() (interface{}, error) {
+func (p *parser) callonFootnoteElement156() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement151()
+	return p.cur.onFootnoteElement156()
 }
 
 func (c *current) onFootnoteElement1(element interface{}) (interface{}, error) {
@@ -59626,38 +59781,15 @@ func (p *parser) callonLink124() (interface{}, error) {
 	return p.cur.onLink124(stack["local"])
 }
 
-func (c *current) onLink136() (interface{}, error) {
+func (c *current) onLink133() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonLink136() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onLink136()
-}
-
-func (c *current) onLink145(domain interface{}) (bool, error) {
-	// must not end with `-`
-	return !strings.HasSuffix(domain.(string), "-"), nil
-
-}
-
-func (p *parser) callonLink145() (bool, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onLink145(stack["domain"])
-}
-
-func (c *current) onLink133(domain interface{}) (interface{}, error) {
-	return domain, nil
-
-}
-
 func (p *parser) callonLink133() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onLink133(stack["domain"])
+	return p.cur.onLink133()
 }
 
 func (c *current) onLink121(local, domain interface{}) (interface{}, error) {
@@ -69595,135 +69727,135 @@ func (p *parser) callonQuotedTextElement2() (interface{}, error) {
 	return p.cur.onQuotedTextElement2(stack["text"])
 }
 
-func (c *current) onQuotedTextElement16() (interface{}, error) {
+func (c *current) onQuotedTextElement21() (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement16() (interface{}, error) {
+func (p *parser) callonQuotedTextElement21() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement16()
+	return p.cur.onQuotedTextElement21()
 }
 
-func (c *current) onQuotedTextElement22() (bool, error) {
+func (c *current) onQuotedTextElement27() (bool, error) {
 	return c.isSubstitutionEnabled(Replacements), nil
 
 }
 
-func (p *parser) callonQuotedTextElement22() (bool, error) {
+func (p *parser) callonQuotedTextElement27() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement22()
+	return p.cur.onQuotedTextElement27()
 }
 
-func (c *current) onQuotedTextElement20() (interface{}, error) {
+func (c *current) onQuotedTextElement25() (interface{}, error) {
 	//log.Debug("matched escaped apostrophe")
 	return types.NewStringElement(`'`) // retain the apostrophe, but discard the `\` escape char
 
 }
 
-func (p *parser) callonQuotedTextElement20() (interface{}, error) {
+func (p *parser) callonQuotedTextElement25() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement20()
+	return p.cur.onQuotedTextElement25()
 }
 
-func (c *current) onQuotedTextElement28() (bool, error) {
+func (c *current) onQuotedTextElement33() (bool, error) {
 	return c.isSubstitutionEnabled(Replacements), nil
 
 }
 
-func (p *parser) callonQuotedTextElement28() (bool, error) {
+func (p *parser) callonQuotedTextElement33() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement28()
+	return p.cur.onQuotedTextElement33()
 }
 
-func (c *current) onQuotedTextElement29() (bool, error) {
+func (c *current) onQuotedTextElement34() (bool, error) {
 	//log.Debugf("TypographicQuote at pos %s", c.pos.String())
 	return c.isPrecededByAlphanum(), nil
 
 }
 
-func (p *parser) callonQuotedTextElement29() (bool, error) {
+func (p *parser) callonQuotedTextElement34() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement29()
+	return p.cur.onQuotedTextElement34()
 }
 
-func (c *current) onQuotedTextElement26() (interface{}, error) {
+func (c *current) onQuotedTextElement31() (interface{}, error) {
 	return types.NewSymbol("'")
 
 }
 
-func (p *parser) callonQuotedTextElement26() (interface{}, error) {
+func (p *parser) callonQuotedTextElement31() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement26()
+	return p.cur.onQuotedTextElement31()
 }
 
-func (c *current) onQuotedTextElement37() (bool, error) {
+func (c *current) onQuotedTextElement42() (bool, error) {
 
 	return c.allSubstitutionsDisabled(Macros, Quotes), nil
 
 }
 
-func (p *parser) callonQuotedTextElement37() (bool, error) {
+func (p *parser) callonQuotedTextElement42() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement37()
+	return p.cur.onQuotedTextElement42()
 }
 
-func (c *current) onQuotedTextElement41() (bool, error) {
+func (c *current) onQuotedTextElement46() (bool, error) {
 
 	return c.isSubstitutionDisabled(Quotes), nil
 
 }
 
-func (p *parser) callonQuotedTextElement41() (bool, error) {
+func (p *parser) callonQuotedTextElement46() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement41()
+	return p.cur.onQuotedTextElement46()
 }
 
-func (c *current) onQuotedTextElement33() (interface{}, error) {
+func (c *current) onQuotedTextElement38() (interface{}, error) {
 
 	log.Debugf("new punctuation: '%v'", string(c.text))
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement33() (interface{}, error) {
+func (p *parser) callonQuotedTextElement38() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement33()
+	return p.cur.onQuotedTextElement38()
 }
 
-func (c *current) onQuotedTextElement49() (bool, error) {
+func (c *current) onQuotedTextElement54() (bool, error) {
 	return c.isSubstitutionEnabled(AttributeRefs), nil
 
 }
 
-func (p *parser) callonQuotedTextElement49() (bool, error) {
+func (p *parser) callonQuotedTextElement54() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement49()
+	return p.cur.onQuotedTextElement54()
 }
 
-func (c *current) onQuotedTextElement56() (interface{}, error) {
+func (c *current) onQuotedTextElement61() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement56() (interface{}, error) {
+func (p *parser) callonQuotedTextElement61() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement56()
+	return p.cur.onQuotedTextElement61()
 }
 
-func (c *current) onQuotedTextElement52(name interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement57(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -69731,242 +69863,242 @@ func (c *current) onQuotedTextElement52(name interface{}) (interface{}, error) {
 
 }
 
-func (p *parser) callonQuotedTextElement52() (interface{}, error) {
+func (p *parser) callonQuotedTextElement57() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement52(stack["name"])
+	return p.cur.onQuotedTextElement57(stack["name"])
 }
 
-func (c *current) onQuotedTextElement66() (interface{}, error) {
+func (c *current) onQuotedTextElement71() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement66() (interface{}, error) {
+func (p *parser) callonQuotedTextElement71() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement66()
+	return p.cur.onQuotedTextElement71()
 }
 
-func (c *current) onQuotedTextElement62(name interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement67(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonQuotedTextElement62() (interface{}, error) {
+func (p *parser) callonQuotedTextElement67() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement62(stack["name"])
+	return p.cur.onQuotedTextElement67(stack["name"])
 }
 
-func (c *current) onQuotedTextElement76() (interface{}, error) {
+func (c *current) onQuotedTextElement81() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement76() (interface{}, error) {
+func (p *parser) callonQuotedTextElement81() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement76()
+	return p.cur.onQuotedTextElement81()
 }
 
-func (c *current) onQuotedTextElement88() (interface{}, error) {
+func (c *current) onQuotedTextElement93() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement88() (interface{}, error) {
+func (p *parser) callonQuotedTextElement93() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement88()
+	return p.cur.onQuotedTextElement93()
 }
 
-func (c *current) onQuotedTextElement90() (interface{}, error) {
+func (c *current) onQuotedTextElement95() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonQuotedTextElement90() (interface{}, error) {
+func (p *parser) callonQuotedTextElement95() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement90()
+	return p.cur.onQuotedTextElement95()
 }
 
-func (c *current) onQuotedTextElement83(start interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement88(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonQuotedTextElement83() (interface{}, error) {
+func (p *parser) callonQuotedTextElement88() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement83(stack["start"])
+	return p.cur.onQuotedTextElement88(stack["start"])
 }
 
-func (c *current) onQuotedTextElement72(name, start interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement77(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
 }
 
-func (p *parser) callonQuotedTextElement72() (interface{}, error) {
+func (p *parser) callonQuotedTextElement77() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement72(stack["name"], stack["start"])
+	return p.cur.onQuotedTextElement77(stack["name"], stack["start"])
 }
 
-func (c *current) onQuotedTextElement98() (interface{}, error) {
+func (c *current) onQuotedTextElement103() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement98() (interface{}, error) {
+func (p *parser) callonQuotedTextElement103() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement98()
+	return p.cur.onQuotedTextElement103()
 }
 
-func (c *current) onQuotedTextElement110() (interface{}, error) {
+func (c *current) onQuotedTextElement115() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement110() (interface{}, error) {
+func (p *parser) callonQuotedTextElement115() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement110()
+	return p.cur.onQuotedTextElement115()
 }
 
-func (c *current) onQuotedTextElement112() (interface{}, error) {
+func (c *current) onQuotedTextElement117() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonQuotedTextElement112() (interface{}, error) {
+func (p *parser) callonQuotedTextElement117() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement112()
+	return p.cur.onQuotedTextElement117()
 }
 
-func (c *current) onQuotedTextElement105(start interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement110(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonQuotedTextElement105() (interface{}, error) {
+func (p *parser) callonQuotedTextElement110() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement105(stack["start"])
+	return p.cur.onQuotedTextElement110(stack["start"])
 }
 
-func (c *current) onQuotedTextElement94(name, start interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement99(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
 }
 
-func (p *parser) callonQuotedTextElement94() (interface{}, error) {
+func (p *parser) callonQuotedTextElement99() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement94(stack["name"], stack["start"])
+	return p.cur.onQuotedTextElement99(stack["name"], stack["start"])
 }
 
-func (c *current) onQuotedTextElement47(element interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement52(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonQuotedTextElement47() (interface{}, error) {
+func (p *parser) callonQuotedTextElement52() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement47(stack["element"])
+	return p.cur.onQuotedTextElement52(stack["element"])
 }
 
-func (c *current) onQuotedTextElement118() (interface{}, error) {
+func (c *current) onQuotedTextElement123() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonQuotedTextElement118() (interface{}, error) {
+func (p *parser) callonQuotedTextElement123() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement118()
+	return p.cur.onQuotedTextElement123()
 }
 
-func (c *current) onQuotedTextElement124() (interface{}, error) {
+func (c *current) onQuotedTextElement129() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonQuotedTextElement124() (interface{}, error) {
+func (p *parser) callonQuotedTextElement129() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement124()
+	return p.cur.onQuotedTextElement129()
 }
 
-func (c *current) onQuotedTextElement116() (interface{}, error) {
+func (c *current) onQuotedTextElement121() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonQuotedTextElement116() (interface{}, error) {
+func (p *parser) callonQuotedTextElement121() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement116()
+	return p.cur.onQuotedTextElement121()
 }
 
-func (c *current) onQuotedTextElement133() (bool, error) {
+func (c *current) onQuotedTextElement138() (bool, error) {
 	return c.isSubstitutionEnabled(SpecialCharacters), nil
 
 }
 
-func (p *parser) callonQuotedTextElement133() (bool, error) {
+func (p *parser) callonQuotedTextElement138() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement133()
+	return p.cur.onQuotedTextElement138()
 }
 
-func (c *current) onQuotedTextElement135() (interface{}, error) {
+func (c *current) onQuotedTextElement140() (interface{}, error) {
 	return types.NewSpecialCharacter(string(c.text))
 
 }
 
-func (p *parser) callonQuotedTextElement135() (interface{}, error) {
+func (p *parser) callonQuotedTextElement140() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement135()
+	return p.cur.onQuotedTextElement140()
 }
 
-func (c *current) onQuotedTextElement131(element interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement136(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonQuotedTextElement131() (interface{}, error) {
+func (p *parser) callonQuotedTextElement136() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement131(stack["element"])
+	return p.cur.onQuotedTextElement136(stack["element"])
 }
 
-func (c *current) onQuotedTextElement141() (interface{}, error) {
+func (c *current) onQuotedTextElement146() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonQuotedTextElement141() (interface{}, error) {
+func (p *parser) callonQuotedTextElement146() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement141()
+	return p.cur.onQuotedTextElement146()
 }
 
-func (c *current) onQuotedTextElement137(ref interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement142(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
 
-func (p *parser) callonQuotedTextElement137() (interface{}, error) {
+func (p *parser) callonQuotedTextElement142() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement137(stack["ref"])
+	return p.cur.onQuotedTextElement142(stack["ref"])
 }
 
-func (c *current) onQuotedTextElement145() (interface{}, error) {
+func (c *current) onQuotedTextElement150() (interface{}, error) {
 
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("matching anychar '%s' at position %v", string(c.text), c.pos.String())
@@ -69975,10 +70107,10 @@ func (c *current) onQuotedTextElement145() (interface{}, error) {
 
 }
 
-func (p *parser) callonQuotedTextElement145() (interface{}, error) {
+func (p *parser) callonQuotedTextElement150() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement145()
+	return p.cur.onQuotedTextElement150()
 }
 
 func (c *current) onDoubleQuoteBoldText1(elements interface{}) (interface{}, error) {
@@ -71049,168 +71181,168 @@ func (p *parser) callonSectionTitleLineElement8() (interface{}, error) {
 	return p.cur.onSectionTitleLineElement8(stack["text"])
 }
 
-func (c *current) onSectionTitleLineElement22() (interface{}, error) {
+func (c *current) onSectionTitleLineElement27() (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement22() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement27() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement22()
+	return p.cur.onSectionTitleLineElement27()
 }
 
-func (c *current) onSectionTitleLineElement27() (bool, error) {
+func (c *current) onSectionTitleLineElement32() (bool, error) {
 	return c.isSubstitutionEnabled(Replacements), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement27() (bool, error) {
+func (p *parser) callonSectionTitleLineElement32() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement27()
+	return p.cur.onSectionTitleLineElement32()
 }
 
-func (c *current) onSectionTitleLineElement25() (interface{}, error) {
+func (c *current) onSectionTitleLineElement30() (interface{}, error) {
 	//log.Debug("matched escaped apostrophe")
 	return types.NewStringElement(`'`) // retain the apostrophe, but discard the `\` escape char
 
 }
 
-func (p *parser) callonSectionTitleLineElement25() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement30() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement25()
+	return p.cur.onSectionTitleLineElement30()
 }
 
-func (c *current) onSectionTitleLineElement33() (bool, error) {
+func (c *current) onSectionTitleLineElement38() (bool, error) {
 	return c.isSubstitutionEnabled(Replacements), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement33() (bool, error) {
+func (p *parser) callonSectionTitleLineElement38() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement33()
+	return p.cur.onSectionTitleLineElement38()
 }
 
-func (c *current) onSectionTitleLineElement34() (bool, error) {
+func (c *current) onSectionTitleLineElement39() (bool, error) {
 	//log.Debugf("TypographicQuote at pos %s", c.pos.String())
 	return c.isPrecededByAlphanum(), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement34() (bool, error) {
+func (p *parser) callonSectionTitleLineElement39() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement34()
+	return p.cur.onSectionTitleLineElement39()
 }
 
-func (c *current) onSectionTitleLineElement31() (interface{}, error) {
+func (c *current) onSectionTitleLineElement36() (interface{}, error) {
 	return types.NewSymbol("'")
 
 }
 
-func (p *parser) callonSectionTitleLineElement31() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement36() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement31()
+	return p.cur.onSectionTitleLineElement36()
 }
 
-func (c *current) onSectionTitleLineElement43() (bool, error) {
+func (c *current) onSectionTitleLineElement48() (bool, error) {
 
 	return c.allSubstitutionsDisabled(Macros, Quotes), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement43() (bool, error) {
+func (p *parser) callonSectionTitleLineElement48() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement43()
+	return p.cur.onSectionTitleLineElement48()
 }
 
-func (c *current) onSectionTitleLineElement47() (bool, error) {
+func (c *current) onSectionTitleLineElement52() (bool, error) {
 
 	return c.isSubstitutionDisabled(Quotes), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement47() (bool, error) {
+func (p *parser) callonSectionTitleLineElement52() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement47()
+	return p.cur.onSectionTitleLineElement52()
 }
 
-func (c *current) onSectionTitleLineElement39() (interface{}, error) {
+func (c *current) onSectionTitleLineElement44() (interface{}, error) {
 
 	log.Debugf("new punctuation: '%v'", string(c.text))
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement39() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement44() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement39()
+	return p.cur.onSectionTitleLineElement44()
 }
 
-func (c *current) onSectionTitleLineElement58() (bool, error) {
+func (c *current) onSectionTitleLineElement63() (bool, error) {
 	return c.isSubstitutionEnabled(SpecialCharacters), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement58() (bool, error) {
+func (p *parser) callonSectionTitleLineElement63() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement58()
+	return p.cur.onSectionTitleLineElement63()
 }
 
-func (c *current) onSectionTitleLineElement60() (interface{}, error) {
+func (c *current) onSectionTitleLineElement65() (interface{}, error) {
 	return types.NewSpecialCharacter(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleLineElement60() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement65() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement60()
+	return p.cur.onSectionTitleLineElement65()
 }
 
-func (c *current) onSectionTitleLineElement56(element interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement61(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement56() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement61() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement56(stack["element"])
+	return p.cur.onSectionTitleLineElement61(stack["element"])
 }
 
-func (c *current) onSectionTitleLineElement65() (bool, error) {
+func (c *current) onSectionTitleLineElement70() (bool, error) {
 	return c.isSubstitutionEnabled(AttributeRefs), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement65() (bool, error) {
+func (p *parser) callonSectionTitleLineElement70() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement65()
+	return p.cur.onSectionTitleLineElement70()
 }
 
-func (c *current) onSectionTitleLineElement72() (interface{}, error) {
+func (c *current) onSectionTitleLineElement77() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement72() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement77() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement72()
+	return p.cur.onSectionTitleLineElement77()
 }
 
-func (c *current) onSectionTitleLineElement68(name interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement73(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -71218,242 +71350,242 @@ func (c *current) onSectionTitleLineElement68(name interface{}) (interface{}, er
 
 }
 
-func (p *parser) callonSectionTitleLineElement68() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement73() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement68(stack["name"])
+	return p.cur.onSectionTitleLineElement73(stack["name"])
 }
 
-func (c *current) onSectionTitleLineElement82() (interface{}, error) {
+func (c *current) onSectionTitleLineElement87() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement82() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement87() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement82()
+	return p.cur.onSectionTitleLineElement87()
 }
 
-func (c *current) onSectionTitleLineElement78(name interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement83(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleLineElement78() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement83() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement78(stack["name"])
+	return p.cur.onSectionTitleLineElement83(stack["name"])
 }
 
-func (c *current) onSectionTitleLineElement92() (interface{}, error) {
+func (c *current) onSectionTitleLineElement97() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement92() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement97() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement92()
+	return p.cur.onSectionTitleLineElement97()
 }
 
-func (c *current) onSectionTitleLineElement104() (interface{}, error) {
+func (c *current) onSectionTitleLineElement109() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement104() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement109() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement104()
+	return p.cur.onSectionTitleLineElement109()
 }
 
-func (c *current) onSectionTitleLineElement106() (interface{}, error) {
+func (c *current) onSectionTitleLineElement111() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleLineElement106() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement111() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement106()
+	return p.cur.onSectionTitleLineElement111()
 }
 
-func (c *current) onSectionTitleLineElement99(start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement104(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement99() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement104() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement99(stack["start"])
+	return p.cur.onSectionTitleLineElement104(stack["start"])
 }
 
-func (c *current) onSectionTitleLineElement88(name, start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement93(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
 }
 
-func (p *parser) callonSectionTitleLineElement88() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement93() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement88(stack["name"], stack["start"])
+	return p.cur.onSectionTitleLineElement93(stack["name"], stack["start"])
 }
 
-func (c *current) onSectionTitleLineElement114() (interface{}, error) {
+func (c *current) onSectionTitleLineElement119() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement114() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement119() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement114()
+	return p.cur.onSectionTitleLineElement119()
 }
 
-func (c *current) onSectionTitleLineElement126() (interface{}, error) {
+func (c *current) onSectionTitleLineElement131() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement126() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement131() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement126()
+	return p.cur.onSectionTitleLineElement131()
 }
 
-func (c *current) onSectionTitleLineElement128() (interface{}, error) {
+func (c *current) onSectionTitleLineElement133() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleLineElement128() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement133() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement128()
+	return p.cur.onSectionTitleLineElement133()
 }
 
-func (c *current) onSectionTitleLineElement121(start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement126(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement121() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement126() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement121(stack["start"])
+	return p.cur.onSectionTitleLineElement126(stack["start"])
 }
 
-func (c *current) onSectionTitleLineElement110(name, start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement115(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
 }
 
-func (p *parser) callonSectionTitleLineElement110() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement115() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement110(stack["name"], stack["start"])
+	return p.cur.onSectionTitleLineElement115(stack["name"], stack["start"])
 }
 
-func (c *current) onSectionTitleLineElement63(element interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement68(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement63() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement68() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement63(stack["element"])
+	return p.cur.onSectionTitleLineElement68(stack["element"])
 }
 
-func (c *current) onSectionTitleLineElement136() (interface{}, error) {
+func (c *current) onSectionTitleLineElement141() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonSectionTitleLineElement136() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement141() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement136()
+	return p.cur.onSectionTitleLineElement141()
 }
 
-func (c *current) onSectionTitleLineElement132(ref interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement137(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
 
-func (p *parser) callonSectionTitleLineElement132() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement137() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement132(stack["ref"])
+	return p.cur.onSectionTitleLineElement137(stack["ref"])
 }
 
-func (c *current) onSectionTitleLineElement142() (bool, error) {
+func (c *current) onSectionTitleLineElement147() (bool, error) {
 	return c.isPrecededBySpace(), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement142() (bool, error) {
+func (p *parser) callonSectionTitleLineElement147() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement142()
+	return p.cur.onSectionTitleLineElement147()
 }
 
-func (c *current) onSectionTitleLineElement152() (interface{}, error) {
+func (c *current) onSectionTitleLineElement157() (interface{}, error) {
 	// spaces, commas and dots are allowed in this syntax
 	return types.NewStringElement(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleLineElement152() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement157() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement152()
+	return p.cur.onSectionTitleLineElement157()
 }
 
-func (c *current) onSectionTitleLineElement159() (interface{}, error) {
+func (c *current) onSectionTitleLineElement164() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonSectionTitleLineElement159() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement164() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement159()
+	return p.cur.onSectionTitleLineElement164()
 }
 
-func (c *current) onSectionTitleLineElement155(ref interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement160(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
 
-func (p *parser) callonSectionTitleLineElement155() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement160() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement155(stack["ref"])
+	return p.cur.onSectionTitleLineElement160(stack["ref"])
 }
 
-func (c *current) onSectionTitleLineElement165() (bool, error) {
+func (c *current) onSectionTitleLineElement170() (bool, error) {
 	return c.isSubstitutionEnabled(AttributeRefs), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement165() (bool, error) {
+func (p *parser) callonSectionTitleLineElement170() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement165()
+	return p.cur.onSectionTitleLineElement170()
 }
 
-func (c *current) onSectionTitleLineElement172() (interface{}, error) {
+func (c *current) onSectionTitleLineElement177() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement172() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement177() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement172()
+	return p.cur.onSectionTitleLineElement177()
 }
 
-func (c *current) onSectionTitleLineElement168(name interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement173(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -71461,292 +71593,292 @@ func (c *current) onSectionTitleLineElement168(name interface{}) (interface{}, e
 
 }
 
-func (p *parser) callonSectionTitleLineElement168() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement173() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement168(stack["name"])
+	return p.cur.onSectionTitleLineElement173(stack["name"])
 }
 
-func (c *current) onSectionTitleLineElement182() (interface{}, error) {
+func (c *current) onSectionTitleLineElement187() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement182() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement187() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement182()
+	return p.cur.onSectionTitleLineElement187()
 }
 
-func (c *current) onSectionTitleLineElement178(name interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement183(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleLineElement178() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement183() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement178(stack["name"])
+	return p.cur.onSectionTitleLineElement183(stack["name"])
 }
 
-func (c *current) onSectionTitleLineElement192() (interface{}, error) {
+func (c *current) onSectionTitleLineElement197() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement192() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement197() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement192()
+	return p.cur.onSectionTitleLineElement197()
 }
 
-func (c *current) onSectionTitleLineElement204() (interface{}, error) {
+func (c *current) onSectionTitleLineElement209() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement204() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement209() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement204()
+	return p.cur.onSectionTitleLineElement209()
 }
 
-func (c *current) onSectionTitleLineElement206() (interface{}, error) {
+func (c *current) onSectionTitleLineElement211() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleLineElement206() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement211() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement206()
+	return p.cur.onSectionTitleLineElement211()
 }
 
-func (c *current) onSectionTitleLineElement199(start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement204(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement199() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement204() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement199(stack["start"])
+	return p.cur.onSectionTitleLineElement204(stack["start"])
 }
 
-func (c *current) onSectionTitleLineElement188(name, start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement193(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
 }
 
-func (p *parser) callonSectionTitleLineElement188() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement193() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement188(stack["name"], stack["start"])
+	return p.cur.onSectionTitleLineElement193(stack["name"], stack["start"])
 }
 
-func (c *current) onSectionTitleLineElement214() (interface{}, error) {
+func (c *current) onSectionTitleLineElement219() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement214() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement219() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement214()
+	return p.cur.onSectionTitleLineElement219()
 }
 
-func (c *current) onSectionTitleLineElement226() (interface{}, error) {
+func (c *current) onSectionTitleLineElement231() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement226() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement231() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement226()
+	return p.cur.onSectionTitleLineElement231()
 }
 
-func (c *current) onSectionTitleLineElement228() (interface{}, error) {
+func (c *current) onSectionTitleLineElement233() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleLineElement228() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement233() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement228()
+	return p.cur.onSectionTitleLineElement233()
 }
 
-func (c *current) onSectionTitleLineElement221(start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement226(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement221() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement226() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement221(stack["start"])
+	return p.cur.onSectionTitleLineElement226(stack["start"])
 }
 
-func (c *current) onSectionTitleLineElement210(name, start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement215(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
 }
 
-func (p *parser) callonSectionTitleLineElement210() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement215() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement210(stack["name"], stack["start"])
+	return p.cur.onSectionTitleLineElement215(stack["name"], stack["start"])
 }
 
-func (c *current) onSectionTitleLineElement163(element interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement168(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement163() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement168() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement163(stack["element"])
+	return p.cur.onSectionTitleLineElement168(stack["element"])
 }
 
-func (c *current) onSectionTitleLineElement232() (interface{}, error) {
+func (c *current) onSectionTitleLineElement237() (interface{}, error) {
 
 	return types.NewStringElement(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleLineElement232() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement237() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement232()
+	return p.cur.onSectionTitleLineElement237()
 }
 
-func (c *current) onSectionTitleLineElement148(elements interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement153(elements interface{}) (interface{}, error) {
 	return types.Reduce(elements, strings.TrimSpace), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement148() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement153() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement148(stack["elements"])
+	return p.cur.onSectionTitleLineElement153(stack["elements"])
 }
 
-func (c *current) onSectionTitleLineElement144(id interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement149(id interface{}) (interface{}, error) {
 	return types.NewIDAttribute(id)
 
 }
 
-func (p *parser) callonSectionTitleLineElement144() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement149() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement144(stack["id"])
+	return p.cur.onSectionTitleLineElement149(stack["id"])
 }
 
-func (c *current) onSectionTitleLineElement236() (interface{}, error) {
+func (c *current) onSectionTitleLineElement241() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement236() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement241() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement236()
+	return p.cur.onSectionTitleLineElement241()
 }
 
-func (c *current) onSectionTitleLineElement240() (interface{}, error) {
+func (c *current) onSectionTitleLineElement245() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonSectionTitleLineElement240() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement245() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement240()
+	return p.cur.onSectionTitleLineElement245()
 }
 
-func (c *current) onSectionTitleLineElement140(id interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement145(id interface{}) (interface{}, error) {
 
 	return id, nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement140() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement145() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement140(stack["id"])
+	return p.cur.onSectionTitleLineElement145(stack["id"])
 }
 
-func (c *current) onSectionTitleLineElement251() (interface{}, error) {
+func (c *current) onSectionTitleLineElement256() (interface{}, error) {
 	// previously:(Alphas / (!Newline !Space !"[" !"]" !"<<" !">>" !","  .))+
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement251() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement256() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement251()
+	return p.cur.onSectionTitleLineElement256()
 }
 
-func (c *current) onSectionTitleLineElement247(id interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement252(id interface{}) (interface{}, error) {
 	return types.NewStringElement(strings.TrimPrefix(string(c.text), `\`))
 
 }
 
-func (p *parser) callonSectionTitleLineElement247() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement252() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement247(stack["id"])
+	return p.cur.onSectionTitleLineElement252(stack["id"])
 }
 
-func (c *current) onSectionTitleLineElement259() (interface{}, error) {
+func (c *current) onSectionTitleLineElement264() (interface{}, error) {
 	// previously:(Alphas / (!Newline !Space !"[" !"]" !"<<" !">>" !","  .))+
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement259() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement264() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement259()
+	return p.cur.onSectionTitleLineElement264()
 }
 
-func (c *current) onSectionTitleLineElement255(id interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement260(id interface{}) (interface{}, error) {
 	// no EOL here since there can be multiple InlineElementID on the same line
 	return types.NewInlineAnchor(id.(string))
 
 }
 
-func (p *parser) callonSectionTitleLineElement255() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement260() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement255(stack["id"])
+	return p.cur.onSectionTitleLineElement260(stack["id"])
 }
 
-func (c *current) onSectionTitleLineElement265() (interface{}, error) {
+func (c *current) onSectionTitleLineElement270() (interface{}, error) {
 	return c.currentLine(), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement265() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement270() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement265()
+	return p.cur.onSectionTitleLineElement270()
 }
 
-func (c *current) onSectionTitleLineElement267(start, element, end interface{}) (bool, error) {
+func (c *current) onSectionTitleLineElement272(start, element, end interface{}) (bool, error) {
 	return start == end, nil // titles are on a single line
 
 }
 
-func (p *parser) callonSectionTitleLineElement267() (bool, error) {
+func (p *parser) callonSectionTitleLineElement272() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement267(stack["start"], stack["element"], stack["end"])
+	return p.cur.onSectionTitleLineElement272(stack["start"], stack["element"], stack["end"])
 }
 
 func (c *current) onSectionTitleLineElement1(start, element, end interface{}) (interface{}, error) {
@@ -71794,146 +71926,146 @@ func (p *parser) callonNormalGroup11() (interface{}, error) {
 	return p.cur.onNormalGroup11(stack["text"])
 }
 
-func (c *current) onNormalGroup25() (interface{}, error) {
+func (c *current) onNormalGroup30() (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup25() (interface{}, error) {
+func (p *parser) callonNormalGroup30() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup25()
+	return p.cur.onNormalGroup30()
 }
 
-func (c *current) onNormalGroup31() (bool, error) {
+func (c *current) onNormalGroup36() (bool, error) {
 	return c.isSubstitutionEnabled(Replacements), nil
 
 }
 
-func (p *parser) callonNormalGroup31() (bool, error) {
+func (p *parser) callonNormalGroup36() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup31()
+	return p.cur.onNormalGroup36()
 }
 
-func (c *current) onNormalGroup29() (interface{}, error) {
+func (c *current) onNormalGroup34() (interface{}, error) {
 	//log.Debug("matched escaped apostrophe")
 	return types.NewStringElement(`'`) // retain the apostrophe, but discard the `\` escape char
 
 }
 
-func (p *parser) callonNormalGroup29() (interface{}, error) {
+func (p *parser) callonNormalGroup34() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup29()
+	return p.cur.onNormalGroup34()
 }
 
-func (c *current) onNormalGroup37() (bool, error) {
+func (c *current) onNormalGroup42() (bool, error) {
 	return c.isSubstitutionEnabled(Replacements), nil
 
 }
 
-func (p *parser) callonNormalGroup37() (bool, error) {
+func (p *parser) callonNormalGroup42() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup37()
+	return p.cur.onNormalGroup42()
 }
 
-func (c *current) onNormalGroup38() (bool, error) {
+func (c *current) onNormalGroup43() (bool, error) {
 	//log.Debugf("TypographicQuote at pos %s", c.pos.String())
 	return c.isPrecededByAlphanum(), nil
 
 }
 
-func (p *parser) callonNormalGroup38() (bool, error) {
+func (p *parser) callonNormalGroup43() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup38()
+	return p.cur.onNormalGroup43()
 }
 
-func (c *current) onNormalGroup35() (interface{}, error) {
+func (c *current) onNormalGroup40() (interface{}, error) {
 	return types.NewSymbol("'")
 
 }
 
-func (p *parser) callonNormalGroup35() (interface{}, error) {
+func (p *parser) callonNormalGroup40() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup35()
+	return p.cur.onNormalGroup40()
 }
 
-func (c *current) onNormalGroup46() (bool, error) {
+func (c *current) onNormalGroup51() (bool, error) {
 
 	return c.allSubstitutionsDisabled(Macros, Quotes), nil
 
 }
 
-func (p *parser) callonNormalGroup46() (bool, error) {
+func (p *parser) callonNormalGroup51() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup46()
+	return p.cur.onNormalGroup51()
 }
 
-func (c *current) onNormalGroup50() (bool, error) {
+func (c *current) onNormalGroup55() (bool, error) {
 
 	return c.isSubstitutionDisabled(Quotes), nil
 
 }
 
-func (p *parser) callonNormalGroup50() (bool, error) {
+func (p *parser) callonNormalGroup55() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup50()
+	return p.cur.onNormalGroup55()
 }
 
-func (c *current) onNormalGroup42() (interface{}, error) {
+func (c *current) onNormalGroup47() (interface{}, error) {
 
 	log.Debugf("new punctuation: '%v'", string(c.text))
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup42() (interface{}, error) {
+func (p *parser) callonNormalGroup47() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup42()
+	return p.cur.onNormalGroup47()
 }
 
-func (c *current) onNormalGroup56() (interface{}, error) {
+func (c *current) onNormalGroup61() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonNormalGroup56() (interface{}, error) {
+func (p *parser) callonNormalGroup61() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup56()
+	return p.cur.onNormalGroup61()
 }
 
-func (c *current) onNormalGroup63() (bool, error) {
+func (c *current) onNormalGroup68() (bool, error) {
 	return c.isSubstitutionEnabled(AttributeRefs), nil
 
 }
 
-func (p *parser) callonNormalGroup63() (bool, error) {
+func (p *parser) callonNormalGroup68() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup63()
+	return p.cur.onNormalGroup68()
 }
 
-func (c *current) onNormalGroup70() (interface{}, error) {
+func (c *current) onNormalGroup75() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup70() (interface{}, error) {
+func (p *parser) callonNormalGroup75() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup70()
+	return p.cur.onNormalGroup75()
 }
 
-func (c *current) onNormalGroup66(name interface{}) (interface{}, error) {
+func (c *current) onNormalGroup71(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -71941,269 +72073,269 @@ func (c *current) onNormalGroup66(name interface{}) (interface{}, error) {
 
 }
 
-func (p *parser) callonNormalGroup66() (interface{}, error) {
+func (p *parser) callonNormalGroup71() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup66(stack["name"])
+	return p.cur.onNormalGroup71(stack["name"])
 }
 
-func (c *current) onNormalGroup80() (interface{}, error) {
+func (c *current) onNormalGroup85() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup80() (interface{}, error) {
+func (p *parser) callonNormalGroup85() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup80()
+	return p.cur.onNormalGroup85()
 }
 
-func (c *current) onNormalGroup76(name interface{}) (interface{}, error) {
+func (c *current) onNormalGroup81(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonNormalGroup76() (interface{}, error) {
+func (p *parser) callonNormalGroup81() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup76(stack["name"])
+	return p.cur.onNormalGroup81(stack["name"])
 }
 
-func (c *current) onNormalGroup90() (interface{}, error) {
+func (c *current) onNormalGroup95() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup90() (interface{}, error) {
+func (p *parser) callonNormalGroup95() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup90()
+	return p.cur.onNormalGroup95()
 }
 
-func (c *current) onNormalGroup102() (interface{}, error) {
+func (c *current) onNormalGroup107() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup102() (interface{}, error) {
+func (p *parser) callonNormalGroup107() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup102()
+	return p.cur.onNormalGroup107()
 }
 
-func (c *current) onNormalGroup104() (interface{}, error) {
+func (c *current) onNormalGroup109() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonNormalGroup104() (interface{}, error) {
+func (p *parser) callonNormalGroup109() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup104()
+	return p.cur.onNormalGroup109()
 }
 
-func (c *current) onNormalGroup97(start interface{}) (interface{}, error) {
+func (c *current) onNormalGroup102(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonNormalGroup97() (interface{}, error) {
+func (p *parser) callonNormalGroup102() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup97(stack["start"])
+	return p.cur.onNormalGroup102(stack["start"])
 }
 
-func (c *current) onNormalGroup86(name, start interface{}) (interface{}, error) {
+func (c *current) onNormalGroup91(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
 }
 
-func (p *parser) callonNormalGroup86() (interface{}, error) {
+func (p *parser) callonNormalGroup91() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup86(stack["name"], stack["start"])
+	return p.cur.onNormalGroup91(stack["name"], stack["start"])
 }
 
-func (c *current) onNormalGroup112() (interface{}, error) {
+func (c *current) onNormalGroup117() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup112() (interface{}, error) {
+func (p *parser) callonNormalGroup117() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup112()
+	return p.cur.onNormalGroup117()
 }
 
-func (c *current) onNormalGroup124() (interface{}, error) {
+func (c *current) onNormalGroup129() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup124() (interface{}, error) {
+func (p *parser) callonNormalGroup129() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup124()
+	return p.cur.onNormalGroup129()
 }
 
-func (c *current) onNormalGroup126() (interface{}, error) {
+func (c *current) onNormalGroup131() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonNormalGroup126() (interface{}, error) {
+func (p *parser) callonNormalGroup131() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup126()
+	return p.cur.onNormalGroup131()
 }
 
-func (c *current) onNormalGroup119(start interface{}) (interface{}, error) {
+func (c *current) onNormalGroup124(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonNormalGroup119() (interface{}, error) {
+func (p *parser) callonNormalGroup124() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup119(stack["start"])
+	return p.cur.onNormalGroup124(stack["start"])
 }
 
-func (c *current) onNormalGroup108(name, start interface{}) (interface{}, error) {
+func (c *current) onNormalGroup113(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
 }
 
-func (p *parser) callonNormalGroup108() (interface{}, error) {
+func (p *parser) callonNormalGroup113() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup108(stack["name"], stack["start"])
+	return p.cur.onNormalGroup113(stack["name"], stack["start"])
 }
 
-func (c *current) onNormalGroup61(element interface{}) (interface{}, error) {
+func (c *current) onNormalGroup66(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonNormalGroup61() (interface{}, error) {
+func (p *parser) callonNormalGroup66() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup61(stack["element"])
+	return p.cur.onNormalGroup66(stack["element"])
 }
 
-func (c *current) onNormalGroup135() (bool, error) {
+func (c *current) onNormalGroup140() (bool, error) {
 	return c.isSubstitutionEnabled(SpecialCharacters), nil
 
 }
 
-func (p *parser) callonNormalGroup135() (bool, error) {
+func (p *parser) callonNormalGroup140() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup135()
+	return p.cur.onNormalGroup140()
 }
 
-func (c *current) onNormalGroup137() (interface{}, error) {
+func (c *current) onNormalGroup142() (interface{}, error) {
 	return types.NewSpecialCharacter(string(c.text))
 
 }
 
-func (p *parser) callonNormalGroup137() (interface{}, error) {
+func (p *parser) callonNormalGroup142() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup137()
+	return p.cur.onNormalGroup142()
 }
 
-func (c *current) onNormalGroup133(element interface{}) (interface{}, error) {
+func (c *current) onNormalGroup138(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonNormalGroup133() (interface{}, error) {
+func (p *parser) callonNormalGroup138() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup133(stack["element"])
+	return p.cur.onNormalGroup138(stack["element"])
 }
 
-func (c *current) onNormalGroup141() (bool, error) {
+func (c *current) onNormalGroup146() (bool, error) {
 
 	return c.isSubstitutionEnabled(PostReplacements), nil
 
 }
 
-func (p *parser) callonNormalGroup141() (bool, error) {
+func (p *parser) callonNormalGroup146() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup141()
+	return p.cur.onNormalGroup146()
 }
 
-func (c *current) onNormalGroup143() (bool, error) {
+func (c *current) onNormalGroup148() (bool, error) {
 
 	log.Debug("LineBreak")
 	return c.isPrecededBySpace(), nil
 
 }
 
-func (p *parser) callonNormalGroup143() (bool, error) {
+func (p *parser) callonNormalGroup148() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup143()
+	return p.cur.onNormalGroup148()
 }
 
-func (c *current) onNormalGroup145() (interface{}, error) {
+func (c *current) onNormalGroup150() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup145() (interface{}, error) {
+func (p *parser) callonNormalGroup150() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup145()
+	return p.cur.onNormalGroup150()
 }
 
-func (c *current) onNormalGroup149() (interface{}, error) {
+func (c *current) onNormalGroup154() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonNormalGroup149() (interface{}, error) {
+func (p *parser) callonNormalGroup154() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup149()
+	return p.cur.onNormalGroup154()
 }
 
-func (c *current) onNormalGroup139() (interface{}, error) {
+func (c *current) onNormalGroup144() (interface{}, error) {
 	return types.NewLineBreak()
 
 }
 
-func (p *parser) callonNormalGroup139() (interface{}, error) {
+func (p *parser) callonNormalGroup144() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup139()
+	return p.cur.onNormalGroup144()
 }
 
-func (c *current) onNormalGroup161() (interface{}, error) {
+func (c *current) onNormalGroup166() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonNormalGroup161() (interface{}, error) {
+func (p *parser) callonNormalGroup166() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup161()
+	return p.cur.onNormalGroup166()
 }
 
-func (c *current) onNormalGroup157(ref interface{}) (interface{}, error) {
+func (c *current) onNormalGroup162(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
 
-func (p *parser) callonNormalGroup157() (interface{}, error) {
+func (p *parser) callonNormalGroup162() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup157(stack["ref"])
+	return p.cur.onNormalGroup162(stack["ref"])
 }
 
-func (c *current) onNormalGroup165() (interface{}, error) {
+func (c *current) onNormalGroup170() (interface{}, error) {
 
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("matching anychar '%s' at position %v", string(c.text), c.pos.String())
@@ -72212,10 +72344,10 @@ func (c *current) onNormalGroup165() (interface{}, error) {
 
 }
 
-func (p *parser) callonNormalGroup165() (interface{}, error) {
+func (p *parser) callonNormalGroup170() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup165()
+	return p.cur.onNormalGroup170()
 }
 
 func (c *current) onNormalGroup5(element interface{}) (interface{}, error) {
@@ -72287,120 +72419,120 @@ func (p *parser) callonAttributeStructuredValueElement7() (interface{}, error) {
 	return p.cur.onAttributeStructuredValueElement7(stack["text"])
 }
 
-func (c *current) onAttributeStructuredValueElement21() (interface{}, error) {
+func (c *current) onAttributeStructuredValueElement26() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonAttributeStructuredValueElement21() (interface{}, error) {
+func (p *parser) callonAttributeStructuredValueElement26() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement21()
+	return p.cur.onAttributeStructuredValueElement26()
 }
 
-func (c *current) onAttributeStructuredValueElement28() (bool, error) {
+func (c *current) onAttributeStructuredValueElement33() (bool, error) {
 
 	return c.allSubstitutionsDisabled(Macros, Quotes), nil
 
 }
 
-func (p *parser) callonAttributeStructuredValueElement28() (bool, error) {
+func (p *parser) callonAttributeStructuredValueElement33() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement28()
+	return p.cur.onAttributeStructuredValueElement33()
 }
 
-func (c *current) onAttributeStructuredValueElement32() (bool, error) {
+func (c *current) onAttributeStructuredValueElement37() (bool, error) {
 
 	return c.isSubstitutionDisabled(Quotes), nil
 
 }
 
-func (p *parser) callonAttributeStructuredValueElement32() (bool, error) {
+func (p *parser) callonAttributeStructuredValueElement37() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement32()
+	return p.cur.onAttributeStructuredValueElement37()
 }
 
-func (c *current) onAttributeStructuredValueElement24() (interface{}, error) {
+func (c *current) onAttributeStructuredValueElement29() (interface{}, error) {
 
 	log.Debugf("new punctuation: '%v'", string(c.text))
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonAttributeStructuredValueElement24() (interface{}, error) {
+func (p *parser) callonAttributeStructuredValueElement29() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement24()
+	return p.cur.onAttributeStructuredValueElement29()
 }
 
-func (c *current) onAttributeStructuredValueElement42() (bool, error) {
+func (c *current) onAttributeStructuredValueElement47() (bool, error) {
 	return c.isSubstitutionEnabled(SpecialCharacters), nil
 
 }
 
-func (p *parser) callonAttributeStructuredValueElement42() (bool, error) {
+func (p *parser) callonAttributeStructuredValueElement47() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement42()
+	return p.cur.onAttributeStructuredValueElement47()
 }
 
-func (c *current) onAttributeStructuredValueElement44() (interface{}, error) {
+func (c *current) onAttributeStructuredValueElement49() (interface{}, error) {
 	return types.NewSpecialCharacter(string(c.text))
 
 }
 
-func (p *parser) callonAttributeStructuredValueElement44() (interface{}, error) {
+func (p *parser) callonAttributeStructuredValueElement49() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement44()
+	return p.cur.onAttributeStructuredValueElement49()
 }
 
-func (c *current) onAttributeStructuredValueElement40(element interface{}) (interface{}, error) {
+func (c *current) onAttributeStructuredValueElement45(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonAttributeStructuredValueElement40() (interface{}, error) {
+func (p *parser) callonAttributeStructuredValueElement45() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement40(stack["element"])
+	return p.cur.onAttributeStructuredValueElement45(stack["element"])
 }
 
-func (c *current) onAttributeStructuredValueElement50() (interface{}, error) {
+func (c *current) onAttributeStructuredValueElement55() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonAttributeStructuredValueElement50() (interface{}, error) {
+func (p *parser) callonAttributeStructuredValueElement55() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement50()
+	return p.cur.onAttributeStructuredValueElement55()
 }
 
-func (c *current) onAttributeStructuredValueElement46(ref interface{}) (interface{}, error) {
+func (c *current) onAttributeStructuredValueElement51(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
 
-func (p *parser) callonAttributeStructuredValueElement46() (interface{}, error) {
+func (p *parser) callonAttributeStructuredValueElement51() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement46(stack["ref"])
+	return p.cur.onAttributeStructuredValueElement51(stack["ref"])
 }
 
-func (c *current) onAttributeStructuredValueElement54() (interface{}, error) {
+func (c *current) onAttributeStructuredValueElement59() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonAttributeStructuredValueElement54() (interface{}, error) {
+func (p *parser) callonAttributeStructuredValueElement59() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement54()
+	return p.cur.onAttributeStructuredValueElement59()
 }
 
-func (c *current) onAttributeStructuredValueElement59() (interface{}, error) {
+func (c *current) onAttributeStructuredValueElement64() (interface{}, error) {
 
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("matching anychar '%s' at position %v", string(c.text), c.pos.String())
@@ -72409,10 +72541,10 @@ func (c *current) onAttributeStructuredValueElement59() (interface{}, error) {
 
 }
 
-func (p *parser) callonAttributeStructuredValueElement59() (interface{}, error) {
+func (p *parser) callonAttributeStructuredValueElement64() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement59()
+	return p.cur.onAttributeStructuredValueElement64()
 }
 
 func (c *current) onAttributeStructuredValueElement1(element interface{}) (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 4f892dc..d149d30 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -1464,16 +1464,13 @@ EmailAddressLocal <-
         return local, nil
     }
 
-EmailAddressDomain <- domain:([\pL\pN]+ ("." [\pL\pN-]+)* {
+// labels may contain `-`, but not start nor end with it
+EmailAddressDomain <- EmailAddressDomainLabel ("." EmailAddressDomainLabel)* {
         return string(c.text), nil
-    })
-    &{
-        // must not end with `-`
-        return !strings.HasSuffix(domain.(string), "-"), nil
-    }{
-        return domain, nil
     }
 
+EmailAddressDomainLabel <- [\pL\pN]+ ("-" [\pL\pN]+)*
+
 // -----------------------------------------------------------------------------------------------------------------------
 // List 
 // -----------------------------------------------------------------------------------------------------------------------
@@ -2782,7 +2779,7 @@ InlineText <-
         } 
     )
     !(
-        "@" [\pL\pN] // avoid conflict with email address
+        ([._%+-] [\pL\pN]+)* "@" [\pL\pN] // avoid conflict with email address
     ) 
     {
         log.Debugf("new text: '%v'", string(c.text))
-- 
2.43.0


From 58f27df9b67a59816a3054cf2801c7b3ac141fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:19 +0000
Subject: [PATCH 093/143] fix: links with '^' and no text were empty, and '^'
 after references to attributes was text

---
 pkg/types/types.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index 91f0d7a..3a88e9b 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -2964,9 +2964,21 @@ func NewInlineLink(url *Location, attributes interface{}) (*InlineLink, error) {
 		AttrPositional1: AttrInlineLinkText,
 	})
 	// also, look for `^` suffix in `AttrInlineLinkText` attribute for a `_blank` target
-	if text, found := attrs[AttrInlineLinkText].(string); found && strings.HasSuffix(text, "^") {
-		attrs[AttrInlineLinkText] = strings.TrimSuffix(text, "^")
-		attrs[AttrInlineLinkTarget] = "_blank"
+	switch text := attrs[AttrInlineLinkText].(type) {
+	case string:
+		if strings.HasSuffix(text, "^") {
+			if text = strings.TrimSuffix(text, "^"); text != "" {
+				attrs[AttrInlineLinkText] = text
+			} else { // no text, as in `[]`
+				delete(attrs, AttrInlineLinkText)
+			}
+			attrs[AttrInlineLinkTarget] = "_blank"
+		}
+	case []interface{}: // with references to attributes
+		if suffix, ok := text[len(text)-1].(*StringElement); ok && strings.HasSuffix(suffix.Content, "^") {
+			suffix.Content = strings.TrimSuffix(suffix.Content, "^")
+			attrs[AttrInlineLinkTarget] = "_blank"
+		}
 	}
 	return &InlineLink{
 		Location:   url,
-- 
2.43.0


From 364af7aa9b4890fcdbaf8576ca88637016d5fe57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:33 +0000
Subject: [PATCH 094/143] fix: roles of icons were rendered as '[role]'

---
 pkg/renderer/sgml/icon.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/renderer/sgml/icon.go b/pkg/renderer/sgml/icon.go
index fa5eab5..663faee 100644
--- a/pkg/renderer/sgml/icon.go
+++ b/pkg/renderer/sgml/icon.go
@@ -18,6 +18,10 @@ func (r *sgmlRenderer) renderInlineIcon(ctx *context, icon *types.Icon) (string,
 	if err != nil {
 		return "", err
 	}
+	roles, err := r.renderElementRoles(ctx, icon.Attributes)
+	if err != nil {
+		return "", errors.Wrap(err, "unable to render icon roles")
+	}
 	return r.execute(r.inlineIcon, struct {
 		Class  string
 		Role   string
@@ -31,7 +35,7 @@ func (r *sgmlRenderer) renderInlineIcon(ctx *context, icon *types.Icon) (string,
 		ID:     r.renderElementID(icon.Attributes),
 		Link:   icon.Attributes.GetAsStringWithDefault(types.AttrInlineLink, ""),
 		Window: icon.Attributes.GetAsStringWithDefault(types.AttrImageWindow, ""),
-		Role:   icon.Attributes.GetAsStringWithDefault(types.AttrRoles, ""),
+		Role:   roles,
 	})
 }
 
-- 
2.43.0


From e9b409893f39c26da2386066e5f65ab999d8ccea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:03 +0000
Subject: [PATCH 095/143] fix: buttons and menus were not recognized when
 'experimental' was set by the configuration or the front-matter

---
 pkg/parser/context.go                                 | 10 ++++++++++
 pkg/parser/document_processing_apply_substitutions.go |  5 +++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/pkg/parser/context.go b/pkg/parser/context.go
index 85defa9..ed7f4ed 100644
--- a/pkg/parser/context.go
+++ b/pkg/parser/context.go
@@ -32,6 +32,9 @@ func NewParseContext(config *configuration.Configuration, options ...Option) *Pa
 		GlobalStore(usermacrosKey, config.Macros),
 		GlobalStore(enabledSubstitutionsKey, normalSubstitutions()),
 	}
+	if config.Attributes.Has(types.AttrExperimental) {
+		opts = append(opts, enableExperimentalMacros(true))
+	}
 	opts = append(opts, options...)
 	return &ParseContext{
 		filename:     config.Filename,
@@ -56,6 +59,13 @@ func (c *ParseContext) Clone() *ParseContext {
 	}
 }
 
+// updateExperimentalMacros enables the experimental macros if the `experimental` attribute is set
+// (in the document or in the configuration), and disables them otherwise
+func (c *ParseContext) updateExperimentalMacros() {
+	_, found := c.attributes.get(types.AttrExperimental)
+	c.opts = append(c.opts, enableExperimentalMacros(found))
+}
+
 type options []Option
 
 func (o options) clone() []Option {
diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 90ca688..9d338dc 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -63,6 +63,7 @@ func applySubstitutionsOnElement(ctx *ParseContext, element interface{}, opts ..
 	switch b := element.(type) {
 	case *types.FrontMatter:
 		ctx.attributes.setAll(b.Attributes)
+		ctx.updateExperimentalMacros()
 		return nil
 	case *types.DocumentHeader:
 		return applySubstitutionsOnDocumentHeader(ctx, b, opts...)
@@ -109,7 +110,7 @@ func applySubstitutionsOnAttributeDeclaration(ctx *ParseContext, b *types.Attrib
 	b.Value = v
 	ctx.attributes.set(b.Name, b.Value)
 	if b.Name == types.AttrExperimental {
-		ctx.opts = append(ctx.opts, enableExperimentalMacros(true)) // TODO: add `ctx.ExperimentalMacrosEnabled()` instead?
+		ctx.updateExperimentalMacros()
 	}
 	return nil
 }
@@ -117,7 +118,7 @@ func applySubstitutionsOnAttributeDeclaration(ctx *ParseContext, b *types.Attrib
 func applySubstitutionsOnAttributeReset(ctx *ParseContext, b *types.AttributeReset, _ ...Option) error {
 	ctx.attributes.unset(b.Name)
 	if b.Name == types.AttrExperimental {
-		ctx.opts = append(ctx.opts, enableExperimentalMacros(false))
+		ctx.updateExperimentalMacros()
 	}
 	return nil
 }
-- 
2.43.0


From 01f6caaddb2346761eb6c2de2653403ff0d73c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:09 +0000
Subject: [PATCH 096/143] fix: cross references to a section of another
 document lost the identifier of the section

---
 pkg/renderer/sgml/cross_reference.go | 37 ++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/pkg/renderer/sgml/cross_reference.go b/pkg/renderer/sgml/cross_reference.go
index 8a03773..66195b1 100644
--- a/pkg/renderer/sgml/cross_reference.go
+++ b/pkg/renderer/sgml/cross_reference.go
@@ -86,19 +86,36 @@ func (r *sgmlRenderer) renderExternalCrossReference(ctx *context, xref *types.Ex
 }
 
 func defaultXrefLabel(xref *types.ExternalCrossReference) string {
-	loc := xref.Location.ToDisplayString()
-	ext := filepath.Ext(loc)
-	if ext == "" {
-		return "[" + loc + "]" // internal references are within brackets
+	path, fragment := splitXrefLocation(xref)
+	if path == "" {
+		return "[" + fragment + "]" // internal references are within brackets
 	}
-	return loc[:len(loc)-len(ext)] + ".html"
+	return path
 }
 
 func getCrossReferenceLocation(xref *types.ExternalCrossReference) string {
-	loc := xref.Location.ToDisplayString()
-	ext := filepath.Ext(loc)
-	if ext == "" { // internal reference
-		return "#" + loc
+	path, fragment := splitXrefLocation(xref)
+	if path != "" && fragment == "" {
+		return path
 	}
-	return loc[:len(loc)-len(ext)] + ".html" // TODO output extension
+	return path + "#" + fragment
+}
+
+// splitXrefLocation returns the path to the document (empty for an internal reference), with the extension of the output,
+// and the ID of the element within this document (empty for a reference to the document itself)
+func splitXrefLocation(xref *types.ExternalCrossReference) (string, string) {
+	path := xref.Location.ToDisplayString()
+	fragment := ""
+	i := strings.Index(path, "#")
+	if i >= 0 {
+		path, fragment = path[:i], path[i+1:]
+	}
+	if path == "" {
+		return "", fragment
+	}
+	ext := filepath.Ext(path)
+	if ext == "" && i < 0 {
+		return "", path // internal reference
+	}
+	return path[:len(path)-len(ext)] + ".html", fragment // TODO output extension
 }
-- 
2.43.0


From 882a238fdbfc9406ecb5d8a8cb1bf7863f93b7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:47 +0000
Subject: [PATCH 097/143] fix: conversion failed when a title of a block had a
 reference to an undefined attribute within a quoted text or a footnote

---
 pkg/parser/document_processing_apply_substitutions.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 9d338dc..9d640d9 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -263,6 +263,10 @@ func reparseAttributes(ctx *ParseContext, element types.WithAttributes, opts ...
 		switch k {
 		case types.AttrTitle, types.AttrXRefLabel:
 			subs := attributeSubstitutions()
+			// the references to attributes were already replaced
+			if err := subs.remove(AttributeRefs); err != nil {
+				return err
+			}
 			// same as above, but do not allow for inline macros (eg: links)
 			if err := subs.append(Macros); err != nil {
 				return err
@@ -274,6 +278,9 @@ func reparseAttributes(ctx *ParseContext, element types.WithAttributes, opts ...
 			attrs[k] = types.Reduce(v)
 		case types.AttrInlineLinkText:
 			subs := attributeSubstitutions()
+			if err := subs.remove(AttributeRefs); err != nil {
+				return err
+			}
 			v, err := parseWithSubstitutions(v, subs, append(append(ctx.opts, Entrypoint("AttributeStructuredValue")), opts...)...)
 			if err != nil {
 				return err
-- 
2.43.0


From 4e3e01673fc0d304f03b4adaf30160270afd1aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:20 +0000
Subject: [PATCH 098/143] fix: conversion failed when the text of a link had a
 reference to an undefined attribute within a quoted text

---
 pkg/parser/document_processing_apply_substitutions.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 9d640d9..1a0196b 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -321,6 +321,11 @@ func reparseInlineElements(ctx *ParseContext, elements []interface{}, subs *subs
 
 func reparseInlineAttributes(ctx *ParseContext, element types.WithAttributes, subs *substitutions, opts ...Option) error {
 	// in some specific cases, we need to reparse values to support links and quoted texts
+	subs = &substitutions{sequence: subs.sequence} // do not change the ones of the other elements
+	// the references to attributes were already replaced
+	if err := subs.remove(AttributeRefs); err != nil {
+		return err
+	}
 	attrs := element.GetAttributes()
 	for k, v := range attrs {
 		switch k {
-- 
2.43.0


From 1f72b7de870747a4a724f219715d9ce9da3a674c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:21 +0000
Subject: [PATCH 099/143] fix: characters of the source which are the same as a
 placeholder made the conversion fail or duplicated an element

---
 ...document_processing_apply_substitutions.go |    34 +-
 pkg/parser/parser.go                          | 20278 ++++++++--------
 pkg/parser/parser.peg                         |     3 +-
 3 files changed, 10141 insertions(+), 10174 deletions(-)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 1a0196b..4ac3eb0 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -3,6 +3,8 @@ package parser
 import (
 	"bytes"
 	"fmt"
+	"math"
+	"regexp"
 	"strconv"
 	"strings"
 	"time"
@@ -722,6 +724,7 @@ func serialize(content interface{}, subs *substitutions) ([]byte, *placeholders,
 		return []byte(content), placeholders, nil
 	case []interface{}:
 		result := bytes.NewBuffer(nil)
+		placeholders.reserve(content)
 		for _, element := range content {
 			switch element := element.(type) {
 			case *types.RawLine:
@@ -806,6 +809,29 @@ func newPlaceholders() *placeholders {
 	}
 }
 
+// matches the text which could be mistaken for a placeholder
+var placeholderRE = regexp.MustCompile("\uFFFD([0-9]+)")
+
+// reserve makes sure that the references of the placeholders do not collide with the text of the given elements
+func (p *placeholders) reserve(elements []interface{}) {
+	for _, e := range elements {
+		var content string
+		switch e := e.(type) {
+		case *types.RawLine:
+			content = e.Content
+		case string:
+			content = e
+		case *types.StringElement:
+			content = e.Content
+		}
+		for _, m := range placeholderRE.FindAllStringSubmatch(content, -1) {
+			if ref, err := strconv.Atoi(m[1]); err == nil && ref > p.seq && ref < math.MaxInt32 {
+				p.seq = ref
+			}
+		}
+	}
+}
+
 func (p *placeholders) add(element interface{}) *types.ElementPlaceHolder {
 	p.seq++
 	p.elements[strconv.Itoa(p.seq)] = element
@@ -820,7 +846,13 @@ func (p *placeholders) restore(elements []interface{}) ([]interface{}, error) {
 	for i, e := range elements {
 		switch e := e.(type) {
 		case *types.ElementPlaceHolder:
-			elements[i] = p.elements[e.Ref]
+			if element, found := p.elements[e.Ref]; found {
+				elements[i] = element
+			} else { // not a placeholder, but the same characters in the source
+				elements[i] = &types.StringElement{
+					Content: e.String(),
+				}
+			}
 		case types.WithElements:
 			elmts, err := p.restore(e.GetElements())
 			if err != nil {
diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 3edf7ff..ee6e4ef 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -45,28 +45,28 @@ var g = &grammar{
 										name: "AttributeDeclaration",
 									},
 									&actionExpr{
-										pos: position{line: 360, col: 19, offset: 10911},
+										pos: position{line: 359, col: 19, offset: 10849},
 										run: (*parser).callonDocumentRawLine6,
 										expr: &seqExpr{
-											pos: position{line: 360, col: 19, offset: 10911},
+											pos: position{line: 359, col: 19, offset: 10849},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 360, col: 19, offset: 10911},
+													pos:        position{line: 359, col: 19, offset: 10849},
 													val:        ":!",
 													ignoreCase: false,
 													want:       "\":!\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 360, col: 24, offset: 10916},
+													pos:   position{line: 359, col: 24, offset: 10854},
 													label: "name",
 													expr: &actionExpr{
-														pos: position{line: 318, col: 18, offset: 9729},
+														pos: position{line: 317, col: 18, offset: 9667},
 														run: (*parser).callonDocumentRawLine10,
 														expr: &seqExpr{
-															pos: position{line: 318, col: 18, offset: 9729},
+															pos: position{line: 317, col: 18, offset: 9667},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 318, col: 18, offset: 9729},
+																	pos:        position{line: 317, col: 18, offset: 9667},
 																	val:        "[_\\pL\\pN]",
 																	chars:      []rune{'_'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -74,9 +74,9 @@ var g = &grammar{
 																	inverted:   false,
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 318, col: 28, offset: 9739},
+																	pos: position{line: 317, col: 28, offset: 9677},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 318, col: 29, offset: 9740},
+																		pos:        position{line: 317, col: 29, offset: 9678},
 																		val:        "[_-\\pL\\pN]",
 																		chars:      []rune{'_', '-'},
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -89,18 +89,18 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 360, col: 45, offset: 10937},
+													pos:        position{line: 359, col: 45, offset: 10875},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 360, col: 49, offset: 10941},
+													pos: position{line: 359, col: 49, offset: 10879},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90962},
+														pos: position{line: 2872, col: 10, offset: 90900},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90962},
+															pos:        position{line: 2872, col: 10, offset: 90900},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2895, col: 8, offset: 91360},
+													pos: position{line: 2894, col: 8, offset: 91298},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2882, col: 12, offset: 91133},
+															pos: position{line: 2881, col: 12, offset: 91071},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2882, col: 13, offset: 91134},
+																pos: position{line: 2881, col: 13, offset: 91072},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 13, offset: 91134},
+																		pos:        position{line: 2881, col: 13, offset: 91072},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 20, offset: 91141},
+																		pos:        position{line: 2881, col: 20, offset: 91079},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 29, offset: 91150},
+																		pos:        position{line: 2881, col: 29, offset: 91088},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2892, col: 8, offset: 91310},
+															pos: position{line: 2891, col: 8, offset: 91248},
 															expr: &anyMatcher{
-																line: 2892, col: 9, offset: 91311,
+																line: 2891, col: 9, offset: 91249,
 															},
 														},
 													},
@@ -150,28 +150,28 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 362, col: 9, offset: 11032},
+										pos: position{line: 361, col: 9, offset: 10970},
 										run: (*parser).callonDocumentRawLine27,
 										expr: &seqExpr{
-											pos: position{line: 362, col: 9, offset: 11032},
+											pos: position{line: 361, col: 9, offset: 10970},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 362, col: 9, offset: 11032},
+													pos:        position{line: 361, col: 9, offset: 10970},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 362, col: 13, offset: 11036},
+													pos:   position{line: 361, col: 13, offset: 10974},
 													label: "name",
 													expr: &actionExpr{
-														pos: position{line: 318, col: 18, offset: 9729},
+														pos: position{line: 317, col: 18, offset: 9667},
 														run: (*parser).callonDocumentRawLine31,
 														expr: &seqExpr{
-															pos: position{line: 318, col: 18, offset: 9729},
+															pos: position{line: 317, col: 18, offset: 9667},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 318, col: 18, offset: 9729},
+																	pos:        position{line: 317, col: 18, offset: 9667},
 																	val:        "[_\\pL\\pN]",
 																	chars:      []rune{'_'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -179,9 +179,9 @@ var g = &grammar{
 																	inverted:   false,
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 318, col: 28, offset: 9739},
+																	pos: position{line: 317, col: 28, offset: 9677},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 318, col: 29, offset: 9740},
+																		pos:        position{line: 317, col: 29, offset: 9678},
 																		val:        "[_-\\pL\\pN]",
 																		chars:      []rune{'_', '-'},
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -194,18 +194,18 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 362, col: 34, offset: 11057},
+													pos:        position{line: 361, col: 34, offset: 10995},
 													val:        "!:",
 													ignoreCase: false,
 													want:       "\"!:\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 362, col: 39, offset: 11062},
+													pos: position{line: 361, col: 39, offset: 11000},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90962},
+														pos: position{line: 2872, col: 10, offset: 90900},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90962},
+															pos:        position{line: 2872, col: 10, offset: 90900},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2895, col: 8, offset: 91360},
+													pos: position{line: 2894, col: 8, offset: 91298},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2882, col: 12, offset: 91133},
+															pos: position{line: 2881, col: 12, offset: 91071},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2882, col: 13, offset: 91134},
+																pos: position{line: 2881, col: 13, offset: 91072},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 13, offset: 91134},
+																		pos:        position{line: 2881, col: 13, offset: 91072},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 20, offset: 91141},
+																		pos:        position{line: 2881, col: 20, offset: 91079},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 29, offset: 91150},
+																		pos:        position{line: 2881, col: 29, offset: 91088},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2892, col: 8, offset: 91310},
+															pos: position{line: 2891, col: 8, offset: 91248},
 															expr: &anyMatcher{
-																line: 2892, col: 9, offset: 91311,
+																line: 2891, col: 9, offset: 91249,
 															},
 														},
 													},
@@ -321,10 +321,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 78, col: 41, offset: 2149},
 																						expr: &actionExpr{
-																							pos: position{line: 2873, col: 10, offset: 90962},
+																							pos: position{line: 2872, col: 10, offset: 90900},
 																							run: (*parser).callonDocumentRawLine66,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2873, col: 10, offset: 90962},
+																								pos:        position{line: 2872, col: 10, offset: 90900},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -333,9 +333,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91310},
+																						pos: position{line: 2891, col: 8, offset: 91248},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91311,
+																							line: 2891, col: 9, offset: 91249,
 																						},
 																					},
 																				},
@@ -363,10 +363,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90962},
+														pos: position{line: 2872, col: 10, offset: 90900},
 														run: (*parser).callonDocumentRawLine73,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90962},
+															pos:        position{line: 2872, col: 10, offset: 90900},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -375,9 +375,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2892, col: 8, offset: 91310},
+													pos: position{line: 2891, col: 8, offset: 91248},
 													expr: &anyMatcher{
-														line: 2892, col: 9, offset: 91311,
+														line: 2891, col: 9, offset: 91249,
 													},
 												},
 											},
@@ -446,10 +446,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 78, col: 41, offset: 2149},
 																						expr: &actionExpr{
-																							pos: position{line: 2873, col: 10, offset: 90962},
+																							pos: position{line: 2872, col: 10, offset: 90900},
 																							run: (*parser).callonDocumentRawLine94,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2873, col: 10, offset: 90962},
+																								pos:        position{line: 2872, col: 10, offset: 90900},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -458,9 +458,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91310},
+																						pos: position{line: 2891, col: 8, offset: 91248},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91311,
+																							line: 2891, col: 9, offset: 91249,
 																						},
 																					},
 																				},
@@ -488,10 +488,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90962},
+														pos: position{line: 2872, col: 10, offset: 90900},
 														run: (*parser).callonDocumentRawLine101,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90962},
+															pos:        position{line: 2872, col: 10, offset: 90900},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -500,9 +500,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2892, col: 8, offset: 91310},
+													pos: position{line: 2891, col: 8, offset: 91248},
 													expr: &anyMatcher{
-														line: 2892, col: 9, offset: 91311,
+														line: 2891, col: 9, offset: 91249,
 													},
 												},
 											},
@@ -547,28 +547,28 @@ var g = &grammar{
 																					pos: position{line: 92, col: 14, offset: 2522},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 645, col: 5, offset: 20388},
+																							pos: position{line: 644, col: 5, offset: 20326},
 																							run: (*parser).callonDocumentRawLine116,
 																							expr: &seqExpr{
-																								pos: position{line: 645, col: 5, offset: 20388},
+																								pos: position{line: 644, col: 5, offset: 20326},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 645, col: 5, offset: 20388},
+																										pos:        position{line: 644, col: 5, offset: 20326},
 																										val:        "\\{",
 																										ignoreCase: false,
 																										want:       "\"\\\\{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 645, col: 13, offset: 20396},
+																										pos:   position{line: 644, col: 13, offset: 20334},
 																										label: "name",
 																										expr: &actionExpr{
-																											pos: position{line: 318, col: 18, offset: 9729},
+																											pos: position{line: 317, col: 18, offset: 9667},
 																											run: (*parser).callonDocumentRawLine120,
 																											expr: &seqExpr{
-																												pos: position{line: 318, col: 18, offset: 9729},
+																												pos: position{line: 317, col: 18, offset: 9667},
 																												exprs: []interface{}{
 																													&charClassMatcher{
-																														pos:        position{line: 318, col: 18, offset: 9729},
+																														pos:        position{line: 317, col: 18, offset: 9667},
 																														val:        "[_\\pL\\pN]",
 																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -576,9 +576,9 @@ var g = &grammar{
 																														inverted:   false,
 																													},
 																													&zeroOrMoreExpr{
-																														pos: position{line: 318, col: 28, offset: 9739},
+																														pos: position{line: 317, col: 28, offset: 9677},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9740},
+																															pos:        position{line: 317, col: 29, offset: 9678},
 																															val:        "[_-\\pL\\pN]",
 																															chars:      []rune{'_', '-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -591,7 +591,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 645, col: 32, offset: 20415},
+																										pos:        position{line: 644, col: 32, offset: 20353},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -600,28 +600,28 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 652, col: 5, offset: 20656},
+																							pos: position{line: 651, col: 5, offset: 20594},
 																							run: (*parser).callonDocumentRawLine126,
 																							expr: &seqExpr{
-																								pos: position{line: 652, col: 5, offset: 20656},
+																								pos: position{line: 651, col: 5, offset: 20594},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 652, col: 5, offset: 20656},
+																										pos:        position{line: 651, col: 5, offset: 20594},
 																										val:        "{",
 																										ignoreCase: false,
 																										want:       "\"{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 652, col: 9, offset: 20660},
+																										pos:   position{line: 651, col: 9, offset: 20598},
 																										label: "name",
 																										expr: &actionExpr{
-																											pos: position{line: 318, col: 18, offset: 9729},
+																											pos: position{line: 317, col: 18, offset: 9667},
 																											run: (*parser).callonDocumentRawLine130,
 																											expr: &seqExpr{
-																												pos: position{line: 318, col: 18, offset: 9729},
+																												pos: position{line: 317, col: 18, offset: 9667},
 																												exprs: []interface{}{
 																													&charClassMatcher{
-																														pos:        position{line: 318, col: 18, offset: 9729},
+																														pos:        position{line: 317, col: 18, offset: 9667},
 																														val:        "[_\\pL\\pN]",
 																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -629,9 +629,9 @@ var g = &grammar{
 																														inverted:   false,
 																													},
 																													&zeroOrMoreExpr{
-																														pos: position{line: 318, col: 28, offset: 9739},
+																														pos: position{line: 317, col: 28, offset: 9677},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9740},
+																															pos:        position{line: 317, col: 29, offset: 9678},
 																															val:        "[_-\\pL\\pN]",
 																															chars:      []rune{'_', '-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -644,7 +644,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 652, col: 28, offset: 20679},
+																										pos:        position{line: 651, col: 28, offset: 20617},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -710,28 +710,28 @@ var g = &grammar{
 																					pos: position{line: 93, col: 15, offset: 2687},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 645, col: 5, offset: 20388},
+																							pos: position{line: 644, col: 5, offset: 20326},
 																							run: (*parser).callonDocumentRawLine148,
 																							expr: &seqExpr{
-																								pos: position{line: 645, col: 5, offset: 20388},
+																								pos: position{line: 644, col: 5, offset: 20326},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 645, col: 5, offset: 20388},
+																										pos:        position{line: 644, col: 5, offset: 20326},
 																										val:        "\\{",
 																										ignoreCase: false,
 																										want:       "\"\\\\{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 645, col: 13, offset: 20396},
+																										pos:   position{line: 644, col: 13, offset: 20334},
 																										label: "name",
 																										expr: &actionExpr{
-																											pos: position{line: 318, col: 18, offset: 9729},
+																											pos: position{line: 317, col: 18, offset: 9667},
 																											run: (*parser).callonDocumentRawLine152,
 																											expr: &seqExpr{
-																												pos: position{line: 318, col: 18, offset: 9729},
+																												pos: position{line: 317, col: 18, offset: 9667},
 																												exprs: []interface{}{
 																													&charClassMatcher{
-																														pos:        position{line: 318, col: 18, offset: 9729},
+																														pos:        position{line: 317, col: 18, offset: 9667},
 																														val:        "[_\\pL\\pN]",
 																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -739,9 +739,9 @@ var g = &grammar{
 																														inverted:   false,
 																													},
 																													&zeroOrMoreExpr{
-																														pos: position{line: 318, col: 28, offset: 9739},
+																														pos: position{line: 317, col: 28, offset: 9677},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9740},
+																															pos:        position{line: 317, col: 29, offset: 9678},
 																															val:        "[_-\\pL\\pN]",
 																															chars:      []rune{'_', '-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -754,7 +754,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 645, col: 32, offset: 20415},
+																										pos:        position{line: 644, col: 32, offset: 20353},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -763,28 +763,28 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 652, col: 5, offset: 20656},
+																							pos: position{line: 651, col: 5, offset: 20594},
 																							run: (*parser).callonDocumentRawLine158,
 																							expr: &seqExpr{
-																								pos: position{line: 652, col: 5, offset: 20656},
+																								pos: position{line: 651, col: 5, offset: 20594},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 652, col: 5, offset: 20656},
+																										pos:        position{line: 651, col: 5, offset: 20594},
 																										val:        "{",
 																										ignoreCase: false,
 																										want:       "\"{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 652, col: 9, offset: 20660},
+																										pos:   position{line: 651, col: 9, offset: 20598},
 																										label: "name",
 																										expr: &actionExpr{
-																											pos: position{line: 318, col: 18, offset: 9729},
+																											pos: position{line: 317, col: 18, offset: 9667},
 																											run: (*parser).callonDocumentRawLine162,
 																											expr: &seqExpr{
-																												pos: position{line: 318, col: 18, offset: 9729},
+																												pos: position{line: 317, col: 18, offset: 9667},
 																												exprs: []interface{}{
 																													&charClassMatcher{
-																														pos:        position{line: 318, col: 18, offset: 9729},
+																														pos:        position{line: 317, col: 18, offset: 9667},
 																														val:        "[_\\pL\\pN]",
 																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -792,9 +792,9 @@ var g = &grammar{
 																														inverted:   false,
 																													},
 																													&zeroOrMoreExpr{
-																														pos: position{line: 318, col: 28, offset: 9739},
+																														pos: position{line: 317, col: 28, offset: 9677},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9740},
+																															pos:        position{line: 317, col: 29, offset: 9678},
 																															val:        "[_-\\pL\\pN]",
 																															chars:      []rune{'_', '-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -807,7 +807,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 652, col: 28, offset: 20679},
+																										pos:        position{line: 651, col: 28, offset: 20617},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -859,31 +859,31 @@ var g = &grammar{
 																	pos:   position{line: 94, col: 8, offset: 2844},
 																	label: "s",
 																	expr: &choiceExpr{
-																		pos: position{line: 645, col: 5, offset: 20388},
+																		pos: position{line: 644, col: 5, offset: 20326},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 645, col: 5, offset: 20388},
+																				pos: position{line: 644, col: 5, offset: 20326},
 																				run: (*parser).callonDocumentRawLine177,
 																				expr: &seqExpr{
-																					pos: position{line: 645, col: 5, offset: 20388},
+																					pos: position{line: 644, col: 5, offset: 20326},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 645, col: 5, offset: 20388},
+																							pos:        position{line: 644, col: 5, offset: 20326},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 645, col: 13, offset: 20396},
+																							pos:   position{line: 644, col: 13, offset: 20334},
 																							label: "name",
 																							expr: &actionExpr{
-																								pos: position{line: 318, col: 18, offset: 9729},
+																								pos: position{line: 317, col: 18, offset: 9667},
 																								run: (*parser).callonDocumentRawLine181,
 																								expr: &seqExpr{
-																									pos: position{line: 318, col: 18, offset: 9729},
+																									pos: position{line: 317, col: 18, offset: 9667},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 318, col: 18, offset: 9729},
+																											pos:        position{line: 317, col: 18, offset: 9667},
 																											val:        "[_\\pL\\pN]",
 																											chars:      []rune{'_'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -891,9 +891,9 @@ var g = &grammar{
 																											inverted:   false,
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 318, col: 28, offset: 9739},
+																											pos: position{line: 317, col: 28, offset: 9677},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 318, col: 29, offset: 9740},
+																												pos:        position{line: 317, col: 29, offset: 9678},
 																												val:        "[_-\\pL\\pN]",
 																												chars:      []rune{'_', '-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -906,7 +906,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 645, col: 32, offset: 20415},
+																							pos:        position{line: 644, col: 32, offset: 20353},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -915,28 +915,28 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 652, col: 5, offset: 20656},
+																				pos: position{line: 651, col: 5, offset: 20594},
 																				run: (*parser).callonDocumentRawLine187,
 																				expr: &seqExpr{
-																					pos: position{line: 652, col: 5, offset: 20656},
+																					pos: position{line: 651, col: 5, offset: 20594},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 652, col: 5, offset: 20656},
+																							pos:        position{line: 651, col: 5, offset: 20594},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 652, col: 9, offset: 20660},
+																							pos:   position{line: 651, col: 9, offset: 20598},
 																							label: "name",
 																							expr: &actionExpr{
-																								pos: position{line: 318, col: 18, offset: 9729},
+																								pos: position{line: 317, col: 18, offset: 9667},
 																								run: (*parser).callonDocumentRawLine191,
 																								expr: &seqExpr{
-																									pos: position{line: 318, col: 18, offset: 9729},
+																									pos: position{line: 317, col: 18, offset: 9667},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 318, col: 18, offset: 9729},
+																											pos:        position{line: 317, col: 18, offset: 9667},
 																											val:        "[_\\pL\\pN]",
 																											chars:      []rune{'_'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -944,9 +944,9 @@ var g = &grammar{
 																											inverted:   false,
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 318, col: 28, offset: 9739},
+																											pos: position{line: 317, col: 28, offset: 9677},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 318, col: 29, offset: 9740},
+																												pos:        position{line: 317, col: 29, offset: 9678},
 																												val:        "[_-\\pL\\pN]",
 																												chars:      []rune{'_', '-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -959,7 +959,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 652, col: 28, offset: 20679},
+																							pos:        position{line: 651, col: 28, offset: 20617},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -972,24 +972,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2869, col: 10, offset: 90865},
+																pos: position{line: 2868, col: 10, offset: 90803},
 																run: (*parser).callonDocumentRawLine197,
 																expr: &seqExpr{
-																	pos: position{line: 2869, col: 11, offset: 90866},
+																	pos: position{line: 2868, col: 11, offset: 90804},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2869, col: 11, offset: 90866},
+																			pos: position{line: 2868, col: 11, offset: 90804},
 																			expr: &litMatcher{
-																				pos:        position{line: 2869, col: 11, offset: 90866},
+																				pos:        position{line: 2868, col: 11, offset: 90804},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2869, col: 16, offset: 90871},
+																			pos: position{line: 2868, col: 16, offset: 90809},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2869, col: 16, offset: 90871},
+																				pos:        position{line: 2868, col: 16, offset: 90809},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -997,15 +997,15 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2869, col: 23, offset: 90878},
+																			pos:        position{line: 2868, col: 23, offset: 90816},
 																			val:        ".",
 																			ignoreCase: false,
 																			want:       "\".\"",
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2869, col: 27, offset: 90882},
+																			pos: position{line: 2868, col: 27, offset: 90820},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2869, col: 27, offset: 90882},
+																				pos:        position{line: 2868, col: 27, offset: 90820},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1016,24 +1016,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2865, col: 12, offset: 90789},
+																pos: position{line: 2864, col: 12, offset: 90727},
 																run: (*parser).callonDocumentRawLine206,
 																expr: &seqExpr{
-																	pos: position{line: 2865, col: 13, offset: 90790},
+																	pos: position{line: 2864, col: 13, offset: 90728},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2865, col: 13, offset: 90790},
+																			pos: position{line: 2864, col: 13, offset: 90728},
 																			expr: &litMatcher{
-																				pos:        position{line: 2865, col: 13, offset: 90790},
+																				pos:        position{line: 2864, col: 13, offset: 90728},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2865, col: 18, offset: 90795},
+																			pos: position{line: 2864, col: 18, offset: 90733},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2865, col: 18, offset: 90795},
+																				pos:        position{line: 2864, col: 18, offset: 90733},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1049,10 +1049,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2280},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90962},
+														pos: position{line: 2872, col: 10, offset: 90900},
 														run: (*parser).callonDocumentRawLine213,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90962},
+															pos:        position{line: 2872, col: 10, offset: 90900},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1132,10 +1132,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2326},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90962},
+														pos: position{line: 2872, col: 10, offset: 90900},
 														run: (*parser).callonDocumentRawLine230,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90962},
+															pos:        position{line: 2872, col: 10, offset: 90900},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1170,28 +1170,28 @@ var g = &grammar{
 																					pos: position{line: 92, col: 14, offset: 2522},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 645, col: 5, offset: 20388},
+																							pos: position{line: 644, col: 5, offset: 20326},
 																							run: (*parser).callonDocumentRawLine240,
 																							expr: &seqExpr{
-																								pos: position{line: 645, col: 5, offset: 20388},
+																								pos: position{line: 644, col: 5, offset: 20326},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 645, col: 5, offset: 20388},
+																										pos:        position{line: 644, col: 5, offset: 20326},
 																										val:        "\\{",
 																										ignoreCase: false,
 																										want:       "\"\\\\{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 645, col: 13, offset: 20396},
+																										pos:   position{line: 644, col: 13, offset: 20334},
 																										label: "name",
 																										expr: &actionExpr{
-																											pos: position{line: 318, col: 18, offset: 9729},
+																											pos: position{line: 317, col: 18, offset: 9667},
 																											run: (*parser).callonDocumentRawLine244,
 																											expr: &seqExpr{
-																												pos: position{line: 318, col: 18, offset: 9729},
+																												pos: position{line: 317, col: 18, offset: 9667},
 																												exprs: []interface{}{
 																													&charClassMatcher{
-																														pos:        position{line: 318, col: 18, offset: 9729},
+																														pos:        position{line: 317, col: 18, offset: 9667},
 																														val:        "[_\\pL\\pN]",
 																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -1199,9 +1199,9 @@ var g = &grammar{
 																														inverted:   false,
 																													},
 																													&zeroOrMoreExpr{
-																														pos: position{line: 318, col: 28, offset: 9739},
+																														pos: position{line: 317, col: 28, offset: 9677},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9740},
+																															pos:        position{line: 317, col: 29, offset: 9678},
 																															val:        "[_-\\pL\\pN]",
 																															chars:      []rune{'_', '-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -1214,7 +1214,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 645, col: 32, offset: 20415},
+																										pos:        position{line: 644, col: 32, offset: 20353},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -1223,28 +1223,28 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 652, col: 5, offset: 20656},
+																							pos: position{line: 651, col: 5, offset: 20594},
 																							run: (*parser).callonDocumentRawLine250,
 																							expr: &seqExpr{
-																								pos: position{line: 652, col: 5, offset: 20656},
+																								pos: position{line: 651, col: 5, offset: 20594},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 652, col: 5, offset: 20656},
+																										pos:        position{line: 651, col: 5, offset: 20594},
 																										val:        "{",
 																										ignoreCase: false,
 																										want:       "\"{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 652, col: 9, offset: 20660},
+																										pos:   position{line: 651, col: 9, offset: 20598},
 																										label: "name",
 																										expr: &actionExpr{
-																											pos: position{line: 318, col: 18, offset: 9729},
+																											pos: position{line: 317, col: 18, offset: 9667},
 																											run: (*parser).callonDocumentRawLine254,
 																											expr: &seqExpr{
-																												pos: position{line: 318, col: 18, offset: 9729},
+																												pos: position{line: 317, col: 18, offset: 9667},
 																												exprs: []interface{}{
 																													&charClassMatcher{
-																														pos:        position{line: 318, col: 18, offset: 9729},
+																														pos:        position{line: 317, col: 18, offset: 9667},
 																														val:        "[_\\pL\\pN]",
 																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -1252,9 +1252,9 @@ var g = &grammar{
 																														inverted:   false,
 																													},
 																													&zeroOrMoreExpr{
-																														pos: position{line: 318, col: 28, offset: 9739},
+																														pos: position{line: 317, col: 28, offset: 9677},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9740},
+																															pos:        position{line: 317, col: 29, offset: 9678},
 																															val:        "[_-\\pL\\pN]",
 																															chars:      []rune{'_', '-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -1267,7 +1267,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 652, col: 28, offset: 20679},
+																										pos:        position{line: 651, col: 28, offset: 20617},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -1333,28 +1333,28 @@ var g = &grammar{
 																					pos: position{line: 93, col: 15, offset: 2687},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 645, col: 5, offset: 20388},
+																							pos: position{line: 644, col: 5, offset: 20326},
 																							run: (*parser).callonDocumentRawLine272,
 																							expr: &seqExpr{
-																								pos: position{line: 645, col: 5, offset: 20388},
+																								pos: position{line: 644, col: 5, offset: 20326},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 645, col: 5, offset: 20388},
+																										pos:        position{line: 644, col: 5, offset: 20326},
 																										val:        "\\{",
 																										ignoreCase: false,
 																										want:       "\"\\\\{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 645, col: 13, offset: 20396},
+																										pos:   position{line: 644, col: 13, offset: 20334},
 																										label: "name",
 																										expr: &actionExpr{
-																											pos: position{line: 318, col: 18, offset: 9729},
+																											pos: position{line: 317, col: 18, offset: 9667},
 																											run: (*parser).callonDocumentRawLine276,
 																											expr: &seqExpr{
-																												pos: position{line: 318, col: 18, offset: 9729},
+																												pos: position{line: 317, col: 18, offset: 9667},
 																												exprs: []interface{}{
 																													&charClassMatcher{
-																														pos:        position{line: 318, col: 18, offset: 9729},
+																														pos:        position{line: 317, col: 18, offset: 9667},
 																														val:        "[_\\pL\\pN]",
 																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -1362,9 +1362,9 @@ var g = &grammar{
 																														inverted:   false,
 																													},
 																													&zeroOrMoreExpr{
-																														pos: position{line: 318, col: 28, offset: 9739},
+																														pos: position{line: 317, col: 28, offset: 9677},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9740},
+																															pos:        position{line: 317, col: 29, offset: 9678},
 																															val:        "[_-\\pL\\pN]",
 																															chars:      []rune{'_', '-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -1377,7 +1377,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 645, col: 32, offset: 20415},
+																										pos:        position{line: 644, col: 32, offset: 20353},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -1386,28 +1386,28 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 652, col: 5, offset: 20656},
+																							pos: position{line: 651, col: 5, offset: 20594},
 																							run: (*parser).callonDocumentRawLine282,
 																							expr: &seqExpr{
-																								pos: position{line: 652, col: 5, offset: 20656},
+																								pos: position{line: 651, col: 5, offset: 20594},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 652, col: 5, offset: 20656},
+																										pos:        position{line: 651, col: 5, offset: 20594},
 																										val:        "{",
 																										ignoreCase: false,
 																										want:       "\"{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 652, col: 9, offset: 20660},
+																										pos:   position{line: 651, col: 9, offset: 20598},
 																										label: "name",
 																										expr: &actionExpr{
-																											pos: position{line: 318, col: 18, offset: 9729},
+																											pos: position{line: 317, col: 18, offset: 9667},
 																											run: (*parser).callonDocumentRawLine286,
 																											expr: &seqExpr{
-																												pos: position{line: 318, col: 18, offset: 9729},
+																												pos: position{line: 317, col: 18, offset: 9667},
 																												exprs: []interface{}{
 																													&charClassMatcher{
-																														pos:        position{line: 318, col: 18, offset: 9729},
+																														pos:        position{line: 317, col: 18, offset: 9667},
 																														val:        "[_\\pL\\pN]",
 																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -1415,9 +1415,9 @@ var g = &grammar{
 																														inverted:   false,
 																													},
 																													&zeroOrMoreExpr{
-																														pos: position{line: 318, col: 28, offset: 9739},
+																														pos: position{line: 317, col: 28, offset: 9677},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9740},
+																															pos:        position{line: 317, col: 29, offset: 9678},
 																															val:        "[_-\\pL\\pN]",
 																															chars:      []rune{'_', '-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -1430,7 +1430,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 652, col: 28, offset: 20679},
+																										pos:        position{line: 651, col: 28, offset: 20617},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -1482,31 +1482,31 @@ var g = &grammar{
 																	pos:   position{line: 94, col: 8, offset: 2844},
 																	label: "s",
 																	expr: &choiceExpr{
-																		pos: position{line: 645, col: 5, offset: 20388},
+																		pos: position{line: 644, col: 5, offset: 20326},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 645, col: 5, offset: 20388},
+																				pos: position{line: 644, col: 5, offset: 20326},
 																				run: (*parser).callonDocumentRawLine301,
 																				expr: &seqExpr{
-																					pos: position{line: 645, col: 5, offset: 20388},
+																					pos: position{line: 644, col: 5, offset: 20326},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 645, col: 5, offset: 20388},
+																							pos:        position{line: 644, col: 5, offset: 20326},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 645, col: 13, offset: 20396},
+																							pos:   position{line: 644, col: 13, offset: 20334},
 																							label: "name",
 																							expr: &actionExpr{
-																								pos: position{line: 318, col: 18, offset: 9729},
+																								pos: position{line: 317, col: 18, offset: 9667},
 																								run: (*parser).callonDocumentRawLine305,
 																								expr: &seqExpr{
-																									pos: position{line: 318, col: 18, offset: 9729},
+																									pos: position{line: 317, col: 18, offset: 9667},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 318, col: 18, offset: 9729},
+																											pos:        position{line: 317, col: 18, offset: 9667},
 																											val:        "[_\\pL\\pN]",
 																											chars:      []rune{'_'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -1514,9 +1514,9 @@ var g = &grammar{
 																											inverted:   false,
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 318, col: 28, offset: 9739},
+																											pos: position{line: 317, col: 28, offset: 9677},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 318, col: 29, offset: 9740},
+																												pos:        position{line: 317, col: 29, offset: 9678},
 																												val:        "[_-\\pL\\pN]",
 																												chars:      []rune{'_', '-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -1529,7 +1529,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 645, col: 32, offset: 20415},
+																							pos:        position{line: 644, col: 32, offset: 20353},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -1538,28 +1538,28 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 652, col: 5, offset: 20656},
+																				pos: position{line: 651, col: 5, offset: 20594},
 																				run: (*parser).callonDocumentRawLine311,
 																				expr: &seqExpr{
-																					pos: position{line: 652, col: 5, offset: 20656},
+																					pos: position{line: 651, col: 5, offset: 20594},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 652, col: 5, offset: 20656},
+																							pos:        position{line: 651, col: 5, offset: 20594},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 652, col: 9, offset: 20660},
+																							pos:   position{line: 651, col: 9, offset: 20598},
 																							label: "name",
 																							expr: &actionExpr{
-																								pos: position{line: 318, col: 18, offset: 9729},
+																								pos: position{line: 317, col: 18, offset: 9667},
 																								run: (*parser).callonDocumentRawLine315,
 																								expr: &seqExpr{
-																									pos: position{line: 318, col: 18, offset: 9729},
+																									pos: position{line: 317, col: 18, offset: 9667},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 318, col: 18, offset: 9729},
+																											pos:        position{line: 317, col: 18, offset: 9667},
 																											val:        "[_\\pL\\pN]",
 																											chars:      []rune{'_'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -1567,9 +1567,9 @@ var g = &grammar{
 																											inverted:   false,
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 318, col: 28, offset: 9739},
+																											pos: position{line: 317, col: 28, offset: 9677},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 318, col: 29, offset: 9740},
+																												pos:        position{line: 317, col: 29, offset: 9678},
 																												val:        "[_-\\pL\\pN]",
 																												chars:      []rune{'_', '-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -1582,7 +1582,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 652, col: 28, offset: 20679},
+																							pos:        position{line: 651, col: 28, offset: 20617},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -1595,24 +1595,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2869, col: 10, offset: 90865},
+																pos: position{line: 2868, col: 10, offset: 90803},
 																run: (*parser).callonDocumentRawLine321,
 																expr: &seqExpr{
-																	pos: position{line: 2869, col: 11, offset: 90866},
+																	pos: position{line: 2868, col: 11, offset: 90804},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2869, col: 11, offset: 90866},
+																			pos: position{line: 2868, col: 11, offset: 90804},
 																			expr: &litMatcher{
-																				pos:        position{line: 2869, col: 11, offset: 90866},
+																				pos:        position{line: 2868, col: 11, offset: 90804},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2869, col: 16, offset: 90871},
+																			pos: position{line: 2868, col: 16, offset: 90809},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2869, col: 16, offset: 90871},
+																				pos:        position{line: 2868, col: 16, offset: 90809},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1620,15 +1620,15 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2869, col: 23, offset: 90878},
+																			pos:        position{line: 2868, col: 23, offset: 90816},
 																			val:        ".",
 																			ignoreCase: false,
 																			want:       "\".\"",
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2869, col: 27, offset: 90882},
+																			pos: position{line: 2868, col: 27, offset: 90820},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2869, col: 27, offset: 90882},
+																				pos:        position{line: 2868, col: 27, offset: 90820},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1639,24 +1639,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2865, col: 12, offset: 90789},
+																pos: position{line: 2864, col: 12, offset: 90727},
 																run: (*parser).callonDocumentRawLine330,
 																expr: &seqExpr{
-																	pos: position{line: 2865, col: 13, offset: 90790},
+																	pos: position{line: 2864, col: 13, offset: 90728},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2865, col: 13, offset: 90790},
+																			pos: position{line: 2864, col: 13, offset: 90728},
 																			expr: &litMatcher{
-																				pos:        position{line: 2865, col: 13, offset: 90790},
+																				pos:        position{line: 2864, col: 13, offset: 90728},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2865, col: 18, offset: 90795},
+																			pos: position{line: 2864, col: 18, offset: 90733},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2865, col: 18, offset: 90795},
+																				pos:        position{line: 2864, col: 18, offset: 90733},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1678,10 +1678,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2378},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90962},
+														pos: position{line: 2872, col: 10, offset: 90900},
 														run: (*parser).callonDocumentRawLine338,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90962},
+															pos:        position{line: 2872, col: 10, offset: 90900},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1690,9 +1690,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2892, col: 8, offset: 91310},
+													pos: position{line: 2891, col: 8, offset: 91248},
 													expr: &anyMatcher{
-														line: 2892, col: 9, offset: 91311,
+														line: 2891, col: 9, offset: 91249,
 													},
 												},
 											},
@@ -1764,10 +1764,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 78, col: 41, offset: 2149},
 																						expr: &actionExpr{
-																							pos: position{line: 2873, col: 10, offset: 90962},
+																							pos: position{line: 2872, col: 10, offset: 90900},
 																							run: (*parser).callonDocumentRawLine360,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2873, col: 10, offset: 90962},
+																								pos:        position{line: 2872, col: 10, offset: 90900},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -1776,9 +1776,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91310},
+																						pos: position{line: 2891, col: 8, offset: 91248},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91311,
+																							line: 2891, col: 9, offset: 91249,
 																						},
 																					},
 																				},
@@ -1806,10 +1806,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3474},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90962},
+														pos: position{line: 2872, col: 10, offset: 90900},
 														run: (*parser).callonDocumentRawLine367,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90962},
+															pos:        position{line: 2872, col: 10, offset: 90900},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1818,24 +1818,24 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2892, col: 8, offset: 91310},
+													pos: position{line: 2891, col: 8, offset: 91248},
 													expr: &anyMatcher{
-														line: 2892, col: 9, offset: 91311,
+														line: 2891, col: 9, offset: 91249,
 													},
 												},
 											},
 										},
 									},
 									&actionExpr{
-										pos: position{line: 724, col: 5, offset: 23111},
+										pos: position{line: 723, col: 5, offset: 23049},
 										run: (*parser).callonDocumentRawLine371,
 										expr: &seqExpr{
-											pos: position{line: 724, col: 5, offset: 23111},
+											pos: position{line: 723, col: 5, offset: 23049},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 724, col: 5, offset: 23111},
+													pos: position{line: 723, col: 5, offset: 23049},
 													expr: &charClassMatcher{
-														pos:        position{line: 2763, col: 13, offset: 88036},
+														pos:        position{line: 2762, col: 13, offset: 87974},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1843,36 +1843,36 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 725, col: 5, offset: 23141},
+													pos:   position{line: 724, col: 5, offset: 23079},
 													label: "delimiter",
 													expr: &choiceExpr{
-														pos: position{line: 726, col: 9, offset: 23161},
+														pos: position{line: 725, col: 9, offset: 23099},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 740, col: 5, offset: 23653},
+																pos: position{line: 739, col: 5, offset: 23591},
 																run: (*parser).callonDocumentRawLine377,
 																expr: &seqExpr{
-																	pos: position{line: 740, col: 5, offset: 23653},
+																	pos: position{line: 739, col: 5, offset: 23591},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 740, col: 5, offset: 23653},
+																			pos:   position{line: 739, col: 5, offset: 23591},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 740, col: 16, offset: 23664},
+																				pos: position{line: 739, col: 16, offset: 23602},
 																				run: (*parser).callonDocumentRawLine380,
 																				expr: &seqExpr{
-																					pos: position{line: 740, col: 16, offset: 23664},
+																					pos: position{line: 739, col: 16, offset: 23602},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 740, col: 16, offset: 23664},
+																							pos:        position{line: 739, col: 16, offset: 23602},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 740, col: 23, offset: 23671},
+																							pos: position{line: 739, col: 23, offset: 23609},
 																							expr: &litMatcher{
-																								pos:        position{line: 740, col: 23, offset: 23671},
+																								pos:        position{line: 739, col: 23, offset: 23609},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -1883,12 +1883,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 742, col: 8, offset: 23755},
+																			pos: position{line: 741, col: 8, offset: 23693},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90962},
+																				pos: position{line: 2872, col: 10, offset: 90900},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90962},
+																					pos:        position{line: 2872, col: 10, offset: 90900},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1897,28 +1897,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91360},
+																			pos: position{line: 2894, col: 8, offset: 91298},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 91133},
+																					pos: position{line: 2881, col: 12, offset: 91071},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 91134},
+																						pos: position{line: 2881, col: 13, offset: 91072},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 91134},
+																								pos:        position{line: 2881, col: 13, offset: 91072},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 91141},
+																								pos:        position{line: 2881, col: 20, offset: 91079},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 91150},
+																								pos:        position{line: 2881, col: 29, offset: 91088},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1927,9 +1927,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91310},
+																					pos: position{line: 2891, col: 8, offset: 91248},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91311,
+																						line: 2891, col: 9, offset: 91249,
 																					},
 																				},
 																			},
@@ -1938,30 +1938,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 747, col: 5, offset: 23901},
+																pos: position{line: 746, col: 5, offset: 23839},
 																run: (*parser).callonDocumentRawLine396,
 																expr: &seqExpr{
-																	pos: position{line: 747, col: 5, offset: 23901},
+																	pos: position{line: 746, col: 5, offset: 23839},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 747, col: 5, offset: 23901},
+																			pos:   position{line: 746, col: 5, offset: 23839},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 747, col: 16, offset: 23912},
+																				pos: position{line: 746, col: 16, offset: 23850},
 																				run: (*parser).callonDocumentRawLine399,
 																				expr: &seqExpr{
-																					pos: position{line: 747, col: 16, offset: 23912},
+																					pos: position{line: 746, col: 16, offset: 23850},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 747, col: 16, offset: 23912},
+																							pos:        position{line: 746, col: 16, offset: 23850},
 																							val:        "====",
 																							ignoreCase: false,
 																							want:       "\"====\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 747, col: 23, offset: 23919},
+																							pos: position{line: 746, col: 23, offset: 23857},
 																							expr: &litMatcher{
-																								pos:        position{line: 747, col: 23, offset: 23919},
+																								pos:        position{line: 746, col: 23, offset: 23857},
 																								val:        "=",
 																								ignoreCase: false,
 																								want:       "\"=\"",
@@ -1972,12 +1972,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 749, col: 8, offset: 24003},
+																			pos: position{line: 748, col: 8, offset: 23941},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90962},
+																				pos: position{line: 2872, col: 10, offset: 90900},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90962},
+																					pos:        position{line: 2872, col: 10, offset: 90900},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1986,28 +1986,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91360},
+																			pos: position{line: 2894, col: 8, offset: 91298},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 91133},
+																					pos: position{line: 2881, col: 12, offset: 91071},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 91134},
+																						pos: position{line: 2881, col: 13, offset: 91072},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 91134},
+																								pos:        position{line: 2881, col: 13, offset: 91072},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 91141},
+																								pos:        position{line: 2881, col: 20, offset: 91079},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 91150},
+																								pos:        position{line: 2881, col: 29, offset: 91088},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2016,9 +2016,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91310},
+																					pos: position{line: 2891, col: 8, offset: 91248},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91311,
+																						line: 2891, col: 9, offset: 91249,
 																					},
 																				},
 																			},
@@ -2027,27 +2027,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 760, col: 26, offset: 24389},
+																pos: position{line: 759, col: 26, offset: 24327},
 																run: (*parser).callonDocumentRawLine415,
 																expr: &seqExpr{
-																	pos: position{line: 760, col: 26, offset: 24389},
+																	pos: position{line: 759, col: 26, offset: 24327},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 760, col: 26, offset: 24389},
+																			pos:        position{line: 759, col: 26, offset: 24327},
 																			val:        "```",
 																			ignoreCase: false,
 																			want:       "\"```\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 760, col: 32, offset: 24395},
+																			pos:   position{line: 759, col: 32, offset: 24333},
 																			label: "language",
 																			expr: &actionExpr{
-																				pos: position{line: 764, col: 13, offset: 24525},
+																				pos: position{line: 763, col: 13, offset: 24463},
 																				run: (*parser).callonDocumentRawLine419,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 764, col: 14, offset: 24526},
+																					pos: position{line: 763, col: 14, offset: 24464},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 764, col: 14, offset: 24526},
+																						pos:        position{line: 763, col: 14, offset: 24464},
 																						val:        "[^\\r\\n`\\t ]",
 																						chars:      []rune{'\r', '\n', '`', '\t', ' '},
 																						ignoreCase: false,
@@ -2057,12 +2057,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 760, col: 52, offset: 24415},
+																			pos: position{line: 759, col: 52, offset: 24353},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90962},
+																				pos: position{line: 2872, col: 10, offset: 90900},
 																				run: (*parser).callonDocumentRawLine423,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90962},
+																					pos:        position{line: 2872, col: 10, offset: 90900},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2071,28 +2071,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91360},
+																			pos: position{line: 2894, col: 8, offset: 91298},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 91133},
+																					pos: position{line: 2881, col: 12, offset: 91071},
 																					run: (*parser).callonDocumentRawLine426,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 91134},
+																						pos: position{line: 2881, col: 13, offset: 91072},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 91134},
+																								pos:        position{line: 2881, col: 13, offset: 91072},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 91141},
+																								pos:        position{line: 2881, col: 20, offset: 91079},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 91150},
+																								pos:        position{line: 2881, col: 29, offset: 91088},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2101,9 +2101,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91310},
+																					pos: position{line: 2891, col: 8, offset: 91248},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91311,
+																						line: 2891, col: 9, offset: 91249,
 																					},
 																				},
 																			},
@@ -2112,30 +2112,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 754, col: 5, offset: 24148},
+																pos: position{line: 753, col: 5, offset: 24086},
 																run: (*parser).callonDocumentRawLine433,
 																expr: &seqExpr{
-																	pos: position{line: 754, col: 5, offset: 24148},
+																	pos: position{line: 753, col: 5, offset: 24086},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 754, col: 5, offset: 24148},
+																			pos:   position{line: 753, col: 5, offset: 24086},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 754, col: 16, offset: 24159},
+																				pos: position{line: 753, col: 16, offset: 24097},
 																				run: (*parser).callonDocumentRawLine436,
 																				expr: &seqExpr{
-																					pos: position{line: 754, col: 16, offset: 24159},
+																					pos: position{line: 753, col: 16, offset: 24097},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 754, col: 16, offset: 24159},
+																							pos:        position{line: 753, col: 16, offset: 24097},
 																							val:        "```",
 																							ignoreCase: false,
 																							want:       "\"```\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 754, col: 22, offset: 24165},
+																							pos: position{line: 753, col: 22, offset: 24103},
 																							expr: &litMatcher{
-																								pos:        position{line: 754, col: 22, offset: 24165},
+																								pos:        position{line: 753, col: 22, offset: 24103},
 																								val:        "`",
 																								ignoreCase: false,
 																								want:       "\"`\"",
@@ -2146,12 +2146,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 756, col: 8, offset: 24249},
+																			pos: position{line: 755, col: 8, offset: 24187},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90962},
+																				pos: position{line: 2872, col: 10, offset: 90900},
 																				run: (*parser).callonDocumentRawLine442,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90962},
+																					pos:        position{line: 2872, col: 10, offset: 90900},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2160,28 +2160,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91360},
+																			pos: position{line: 2894, col: 8, offset: 91298},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 91133},
+																					pos: position{line: 2881, col: 12, offset: 91071},
 																					run: (*parser).callonDocumentRawLine445,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 91134},
+																						pos: position{line: 2881, col: 13, offset: 91072},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 91134},
+																								pos:        position{line: 2881, col: 13, offset: 91072},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 91141},
+																								pos:        position{line: 2881, col: 20, offset: 91079},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 91150},
+																								pos:        position{line: 2881, col: 29, offset: 91088},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2190,9 +2190,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91310},
+																					pos: position{line: 2891, col: 8, offset: 91248},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91311,
+																						line: 2891, col: 9, offset: 91249,
 																					},
 																				},
 																			},
@@ -2201,30 +2201,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 769, col: 5, offset: 24690},
+																pos: position{line: 768, col: 5, offset: 24628},
 																run: (*parser).callonDocumentRawLine452,
 																expr: &seqExpr{
-																	pos: position{line: 769, col: 5, offset: 24690},
+																	pos: position{line: 768, col: 5, offset: 24628},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 769, col: 5, offset: 24690},
+																			pos:   position{line: 768, col: 5, offset: 24628},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 769, col: 16, offset: 24701},
+																				pos: position{line: 768, col: 16, offset: 24639},
 																				run: (*parser).callonDocumentRawLine455,
 																				expr: &seqExpr{
-																					pos: position{line: 769, col: 16, offset: 24701},
+																					pos: position{line: 768, col: 16, offset: 24639},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 769, col: 16, offset: 24701},
+																							pos:        position{line: 768, col: 16, offset: 24639},
 																							val:        "----",
 																							ignoreCase: false,
 																							want:       "\"----\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 769, col: 23, offset: 24708},
+																							pos: position{line: 768, col: 23, offset: 24646},
 																							expr: &litMatcher{
-																								pos:        position{line: 769, col: 23, offset: 24708},
+																								pos:        position{line: 768, col: 23, offset: 24646},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
@@ -2235,12 +2235,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 771, col: 8, offset: 24792},
+																			pos: position{line: 770, col: 8, offset: 24730},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90962},
+																				pos: position{line: 2872, col: 10, offset: 90900},
 																				run: (*parser).callonDocumentRawLine461,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90962},
+																					pos:        position{line: 2872, col: 10, offset: 90900},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2249,28 +2249,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91360},
+																			pos: position{line: 2894, col: 8, offset: 91298},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 91133},
+																					pos: position{line: 2881, col: 12, offset: 91071},
 																					run: (*parser).callonDocumentRawLine464,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 91134},
+																						pos: position{line: 2881, col: 13, offset: 91072},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 91134},
+																								pos:        position{line: 2881, col: 13, offset: 91072},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 91141},
+																								pos:        position{line: 2881, col: 20, offset: 91079},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 91150},
+																								pos:        position{line: 2881, col: 29, offset: 91088},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2279,9 +2279,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91310},
+																					pos: position{line: 2891, col: 8, offset: 91248},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91311,
+																						line: 2891, col: 9, offset: 91249,
 																					},
 																				},
 																			},
@@ -2290,30 +2290,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 783, col: 5, offset: 25166},
+																pos: position{line: 782, col: 5, offset: 25104},
 																run: (*parser).callonDocumentRawLine471,
 																expr: &seqExpr{
-																	pos: position{line: 783, col: 5, offset: 25166},
+																	pos: position{line: 782, col: 5, offset: 25104},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 783, col: 5, offset: 25166},
+																			pos:   position{line: 782, col: 5, offset: 25104},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 783, col: 16, offset: 25177},
+																				pos: position{line: 782, col: 16, offset: 25115},
 																				run: (*parser).callonDocumentRawLine474,
 																				expr: &seqExpr{
-																					pos: position{line: 783, col: 16, offset: 25177},
+																					pos: position{line: 782, col: 16, offset: 25115},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 783, col: 16, offset: 25177},
+																							pos:        position{line: 782, col: 16, offset: 25115},
 																							val:        "....",
 																							ignoreCase: false,
 																							want:       "\"....\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 783, col: 23, offset: 25184},
+																							pos: position{line: 782, col: 23, offset: 25122},
 																							expr: &litMatcher{
-																								pos:        position{line: 783, col: 23, offset: 25184},
+																								pos:        position{line: 782, col: 23, offset: 25122},
 																								val:        ".",
 																								ignoreCase: false,
 																								want:       "\".\"",
@@ -2324,12 +2324,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 785, col: 8, offset: 25268},
+																			pos: position{line: 784, col: 8, offset: 25206},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90962},
+																				pos: position{line: 2872, col: 10, offset: 90900},
 																				run: (*parser).callonDocumentRawLine480,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90962},
+																					pos:        position{line: 2872, col: 10, offset: 90900},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2338,28 +2338,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91360},
+																			pos: position{line: 2894, col: 8, offset: 91298},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 91133},
+																					pos: position{line: 2881, col: 12, offset: 91071},
 																					run: (*parser).callonDocumentRawLine483,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 91134},
+																						pos: position{line: 2881, col: 13, offset: 91072},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 91134},
+																								pos:        position{line: 2881, col: 13, offset: 91072},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 91141},
+																								pos:        position{line: 2881, col: 20, offset: 91079},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 91150},
+																								pos:        position{line: 2881, col: 29, offset: 91088},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2368,9 +2368,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91310},
+																					pos: position{line: 2891, col: 8, offset: 91248},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91311,
+																						line: 2891, col: 9, offset: 91249,
 																					},
 																				},
 																			},
@@ -2379,30 +2379,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 790, col: 5, offset: 25418},
+																pos: position{line: 789, col: 5, offset: 25356},
 																run: (*parser).callonDocumentRawLine490,
 																expr: &seqExpr{
-																	pos: position{line: 790, col: 5, offset: 25418},
+																	pos: position{line: 789, col: 5, offset: 25356},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 790, col: 5, offset: 25418},
+																			pos:   position{line: 789, col: 5, offset: 25356},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 790, col: 16, offset: 25429},
+																				pos: position{line: 789, col: 16, offset: 25367},
 																				run: (*parser).callonDocumentRawLine493,
 																				expr: &seqExpr{
-																					pos: position{line: 790, col: 16, offset: 25429},
+																					pos: position{line: 789, col: 16, offset: 25367},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 790, col: 16, offset: 25429},
+																							pos:        position{line: 789, col: 16, offset: 25367},
 																							val:        "++++",
 																							ignoreCase: false,
 																							want:       "\"++++\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 790, col: 23, offset: 25436},
+																							pos: position{line: 789, col: 23, offset: 25374},
 																							expr: &litMatcher{
-																								pos:        position{line: 790, col: 23, offset: 25436},
+																								pos:        position{line: 789, col: 23, offset: 25374},
 																								val:        "+",
 																								ignoreCase: false,
 																								want:       "\"+\"",
@@ -2413,12 +2413,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 792, col: 8, offset: 25520},
+																			pos: position{line: 791, col: 8, offset: 25458},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90962},
+																				pos: position{line: 2872, col: 10, offset: 90900},
 																				run: (*parser).callonDocumentRawLine499,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90962},
+																					pos:        position{line: 2872, col: 10, offset: 90900},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2427,28 +2427,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91360},
+																			pos: position{line: 2894, col: 8, offset: 91298},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 91133},
+																					pos: position{line: 2881, col: 12, offset: 91071},
 																					run: (*parser).callonDocumentRawLine502,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 91134},
+																						pos: position{line: 2881, col: 13, offset: 91072},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 91134},
+																								pos:        position{line: 2881, col: 13, offset: 91072},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 91141},
+																								pos:        position{line: 2881, col: 20, offset: 91079},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 91150},
+																								pos:        position{line: 2881, col: 29, offset: 91088},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2457,9 +2457,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91310},
+																					pos: position{line: 2891, col: 8, offset: 91248},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91311,
+																						line: 2891, col: 9, offset: 91249,
 																					},
 																				},
 																			},
@@ -2468,30 +2468,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 797, col: 5, offset: 25668},
+																pos: position{line: 796, col: 5, offset: 25606},
 																run: (*parser).callonDocumentRawLine509,
 																expr: &seqExpr{
-																	pos: position{line: 797, col: 5, offset: 25668},
+																	pos: position{line: 796, col: 5, offset: 25606},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 797, col: 5, offset: 25668},
+																			pos:   position{line: 796, col: 5, offset: 25606},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 797, col: 16, offset: 25679},
+																				pos: position{line: 796, col: 16, offset: 25617},
 																				run: (*parser).callonDocumentRawLine512,
 																				expr: &seqExpr{
-																					pos: position{line: 797, col: 16, offset: 25679},
+																					pos: position{line: 796, col: 16, offset: 25617},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 797, col: 16, offset: 25679},
+																							pos:        position{line: 796, col: 16, offset: 25617},
 																							val:        "____",
 																							ignoreCase: false,
 																							want:       "\"____\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 797, col: 23, offset: 25686},
+																							pos: position{line: 796, col: 23, offset: 25624},
 																							expr: &litMatcher{
-																								pos:        position{line: 797, col: 23, offset: 25686},
+																								pos:        position{line: 796, col: 23, offset: 25624},
 																								val:        "_",
 																								ignoreCase: false,
 																								want:       "\"_\"",
@@ -2502,12 +2502,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 799, col: 8, offset: 25770},
+																			pos: position{line: 798, col: 8, offset: 25708},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90962},
+																				pos: position{line: 2872, col: 10, offset: 90900},
 																				run: (*parser).callonDocumentRawLine518,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90962},
+																					pos:        position{line: 2872, col: 10, offset: 90900},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2516,28 +2516,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91360},
+																			pos: position{line: 2894, col: 8, offset: 91298},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 91133},
+																					pos: position{line: 2881, col: 12, offset: 91071},
 																					run: (*parser).callonDocumentRawLine521,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 91134},
+																						pos: position{line: 2881, col: 13, offset: 91072},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 91134},
+																								pos:        position{line: 2881, col: 13, offset: 91072},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 91141},
+																								pos:        position{line: 2881, col: 20, offset: 91079},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 91150},
+																								pos:        position{line: 2881, col: 29, offset: 91088},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2546,9 +2546,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91310},
+																					pos: position{line: 2891, col: 8, offset: 91248},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91311,
+																						line: 2891, col: 9, offset: 91249,
 																					},
 																				},
 																			},
@@ -2557,30 +2557,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 804, col: 5, offset: 25914},
+																pos: position{line: 803, col: 5, offset: 25852},
 																run: (*parser).callonDocumentRawLine528,
 																expr: &seqExpr{
-																	pos: position{line: 804, col: 5, offset: 25914},
+																	pos: position{line: 803, col: 5, offset: 25852},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 804, col: 5, offset: 25914},
+																			pos:   position{line: 803, col: 5, offset: 25852},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 804, col: 16, offset: 25925},
+																				pos: position{line: 803, col: 16, offset: 25863},
 																				run: (*parser).callonDocumentRawLine531,
 																				expr: &seqExpr{
-																					pos: position{line: 804, col: 16, offset: 25925},
+																					pos: position{line: 803, col: 16, offset: 25863},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 804, col: 16, offset: 25925},
+																							pos:        position{line: 803, col: 16, offset: 25863},
 																							val:        "****",
 																							ignoreCase: false,
 																							want:       "\"****\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 804, col: 23, offset: 25932},
+																							pos: position{line: 803, col: 23, offset: 25870},
 																							expr: &litMatcher{
-																								pos:        position{line: 804, col: 23, offset: 25932},
+																								pos:        position{line: 803, col: 23, offset: 25870},
 																								val:        "*",
 																								ignoreCase: false,
 																								want:       "\"*\"",
@@ -2591,12 +2591,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 806, col: 8, offset: 26016},
+																			pos: position{line: 805, col: 8, offset: 25954},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90962},
+																				pos: position{line: 2872, col: 10, offset: 90900},
 																				run: (*parser).callonDocumentRawLine537,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90962},
+																					pos:        position{line: 2872, col: 10, offset: 90900},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2605,28 +2605,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91360},
+																			pos: position{line: 2894, col: 8, offset: 91298},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 91133},
+																					pos: position{line: 2881, col: 12, offset: 91071},
 																					run: (*parser).callonDocumentRawLine540,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 91134},
+																						pos: position{line: 2881, col: 13, offset: 91072},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 91134},
+																								pos:        position{line: 2881, col: 13, offset: 91072},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 91141},
+																								pos:        position{line: 2881, col: 20, offset: 91079},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 91150},
+																								pos:        position{line: 2881, col: 29, offset: 91088},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2635,9 +2635,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91310},
+																					pos: position{line: 2891, col: 8, offset: 91248},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91311,
+																						line: 2891, col: 9, offset: 91249,
 																					},
 																				},
 																			},
@@ -2687,12 +2687,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine555,
 												},
 												&actionExpr{
-													pos: position{line: 2877, col: 11, offset: 91023},
+													pos: position{line: 2876, col: 11, offset: 90961},
 													run: (*parser).callonDocumentRawLine556,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2877, col: 11, offset: 91023},
+														pos: position{line: 2876, col: 11, offset: 90961},
 														expr: &charClassMatcher{
-															pos:        position{line: 2877, col: 11, offset: 91023},
+															pos:        position{line: 2876, col: 11, offset: 90961},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2701,12 +2701,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2823, col: 14, offset: 89555},
+													pos: position{line: 2822, col: 14, offset: 89493},
 													run: (*parser).callonDocumentRawLine559,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2823, col: 14, offset: 89555},
+														pos: position{line: 2822, col: 14, offset: 89493},
 														expr: &charClassMatcher{
-															pos:        position{line: 2823, col: 14, offset: 89555},
+															pos:        position{line: 2822, col: 14, offset: 89493},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2715,9 +2715,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2892, col: 8, offset: 91310},
+													pos: position{line: 2891, col: 8, offset: 91248},
 													expr: &anyMatcher{
-														line: 2892, col: 9, offset: 91311,
+														line: 2891, col: 9, offset: 91249,
 													},
 												},
 											},
@@ -2727,9 +2727,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2892, col: 8, offset: 91310},
+							pos: position{line: 2891, col: 8, offset: 91248},
 							expr: &anyMatcher{
-								line: 2892, col: 9, offset: 91311,
+								line: 2891, col: 9, offset: 91249,
 							},
 						},
 					},
@@ -2764,41 +2764,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2827, col: 17, offset: 89625},
+												pos: position{line: 2826, col: 17, offset: 89563},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2827, col: 17, offset: 89625},
+													pos:   position{line: 2826, col: 17, offset: 89563},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2844, col: 5, offset: 90079},
+														pos: position{line: 2843, col: 5, offset: 90017},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2844, col: 5, offset: 90079},
+															pos:   position{line: 2843, col: 5, offset: 90017},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2844, col: 14, offset: 90088},
+																pos: position{line: 2843, col: 14, offset: 90026},
 																expr: &choiceExpr{
-																	pos: position{line: 2845, col: 9, offset: 90098},
+																	pos: position{line: 2844, col: 9, offset: 90036},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2845, col: 9, offset: 90098},
+																			pos: position{line: 2844, col: 9, offset: 90036},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2845, col: 9, offset: 90098},
+																				pos: position{line: 2844, col: 9, offset: 90036},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2845, col: 9, offset: 90098},
+																						pos: position{line: 2844, col: 9, offset: 90036},
 																						expr: &litMatcher{
-																							pos:        position{line: 2845, col: 10, offset: 90099},
+																							pos:        position{line: 2844, col: 10, offset: 90037},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2846, col: 9, offset: 90127},
+																						pos: position{line: 2845, col: 9, offset: 90065},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2846, col: 10, offset: 90128},
+																							pos:        position{line: 2845, col: 10, offset: 90066},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2809,27 +2809,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2849, col: 11, offset: 90340},
+																			pos: position{line: 2848, col: 11, offset: 90278},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2849, col: 11, offset: 90340},
+																					pos:        position{line: 2848, col: 11, offset: 90278},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2849, col: 19, offset: 90348},
+																					pos: position{line: 2848, col: 19, offset: 90286},
 																					expr: &seqExpr{
-																						pos: position{line: 2849, col: 21, offset: 90350},
+																						pos: position{line: 2848, col: 21, offset: 90288},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2849, col: 21, offset: 90350},
+																								pos: position{line: 2848, col: 21, offset: 90288},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90962},
+																									pos: position{line: 2872, col: 10, offset: 90900},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90962},
+																										pos:        position{line: 2872, col: 10, offset: 90900},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2838,11 +2838,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2849, col: 28, offset: 90357},
+																								pos: position{line: 2848, col: 28, offset: 90295},
 																								expr: &notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91310},
+																									pos: position{line: 2891, col: 8, offset: 91248},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91311,
+																										line: 2891, col: 9, offset: 91249,
 																									},
 																								},
 																							},
@@ -2852,44 +2852,44 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 636, col: 5, offset: 20178},
+																			pos: position{line: 635, col: 5, offset: 20116},
 																			run: (*parser).callonFileInclusion30,
 																			expr: &seqExpr{
-																				pos: position{line: 636, col: 5, offset: 20178},
+																				pos: position{line: 635, col: 5, offset: 20116},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 636, col: 5, offset: 20178},
+																						pos: position{line: 635, col: 5, offset: 20116},
 																						run: (*parser).callonFileInclusion32,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 639, col: 5, offset: 20250},
+																						pos:   position{line: 638, col: 5, offset: 20188},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 639, col: 14, offset: 20259},
+																							pos: position{line: 638, col: 14, offset: 20197},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 645, col: 5, offset: 20388},
+																									pos: position{line: 644, col: 5, offset: 20326},
 																									run: (*parser).callonFileInclusion35,
 																									expr: &seqExpr{
-																										pos: position{line: 645, col: 5, offset: 20388},
+																										pos: position{line: 644, col: 5, offset: 20326},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 645, col: 5, offset: 20388},
+																												pos:        position{line: 644, col: 5, offset: 20326},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 645, col: 13, offset: 20396},
+																												pos:   position{line: 644, col: 13, offset: 20334},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9729},
+																													pos: position{line: 317, col: 18, offset: 9667},
 																													run: (*parser).callonFileInclusion39,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9729},
+																														pos: position{line: 317, col: 18, offset: 9667},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9729},
+																																pos:        position{line: 317, col: 18, offset: 9667},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -2897,9 +2897,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9739},
+																																pos: position{line: 317, col: 28, offset: 9677},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9740},
+																																	pos:        position{line: 317, col: 29, offset: 9678},
 																																	val:        "[_-\\pL\\pN]",
 																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -2912,7 +2912,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 645, col: 32, offset: 20415},
+																												pos:        position{line: 644, col: 32, offset: 20353},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -2921,28 +2921,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 652, col: 5, offset: 20656},
+																									pos: position{line: 651, col: 5, offset: 20594},
 																									run: (*parser).callonFileInclusion45,
 																									expr: &seqExpr{
-																										pos: position{line: 652, col: 5, offset: 20656},
+																										pos: position{line: 651, col: 5, offset: 20594},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 652, col: 5, offset: 20656},
+																												pos:        position{line: 651, col: 5, offset: 20594},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 652, col: 9, offset: 20660},
+																												pos:   position{line: 651, col: 9, offset: 20598},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9729},
+																													pos: position{line: 317, col: 18, offset: 9667},
 																													run: (*parser).callonFileInclusion49,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9729},
+																														pos: position{line: 317, col: 18, offset: 9667},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9729},
+																																pos:        position{line: 317, col: 18, offset: 9667},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -2950,9 +2950,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9739},
+																																pos: position{line: 317, col: 28, offset: 9677},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9740},
+																																	pos:        position{line: 317, col: 29, offset: 9678},
 																																	val:        "[_-\\pL\\pN]",
 																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -2965,7 +2965,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 652, col: 28, offset: 20679},
+																												pos:        position{line: 651, col: 28, offset: 20617},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -2974,28 +2974,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 658, col: 25, offset: 20860},
+																									pos: position{line: 657, col: 25, offset: 20798},
 																									run: (*parser).callonFileInclusion55,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 25, offset: 20860},
+																										pos: position{line: 657, col: 25, offset: 20798},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 658, col: 25, offset: 20860},
+																												pos:        position{line: 657, col: 25, offset: 20798},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 37, offset: 20872},
+																												pos:   position{line: 657, col: 37, offset: 20810},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9729},
+																													pos: position{line: 317, col: 18, offset: 9667},
 																													run: (*parser).callonFileInclusion59,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9729},
+																														pos: position{line: 317, col: 18, offset: 9667},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9729},
+																																pos:        position{line: 317, col: 18, offset: 9667},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -3003,9 +3003,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9739},
+																																pos: position{line: 317, col: 28, offset: 9677},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9740},
+																																	pos:        position{line: 317, col: 29, offset: 9678},
 																																	val:        "[_-\\pL\\pN]",
 																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -3018,33 +3018,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 56, offset: 20891},
+																												pos:   position{line: 657, col: 56, offset: 20829},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 658, col: 62, offset: 20897},
+																													pos: position{line: 657, col: 62, offset: 20835},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21192},
+																														pos: position{line: 665, col: 17, offset: 21130},
 																														run: (*parser).callonFileInclusion66,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21192},
+																															pos: position{line: 665, col: 17, offset: 21130},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21192},
+																																	pos:        position{line: 665, col: 17, offset: 21130},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21196},
+																																	pos:   position{line: 665, col: 21, offset: 21134},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21203},
+																																		pos: position{line: 665, col: 28, offset: 21141},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21203},
+																																				pos: position{line: 665, col: 28, offset: 21141},
 																																				run: (*parser).callonFileInclusion71,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21203},
+																																					pos:        position{line: 665, col: 28, offset: 21141},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -3052,12 +3052,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21257},
+																																				pos: position{line: 667, col: 9, offset: 21195},
 																																				run: (*parser).callonFileInclusion73,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21257},
+																																					pos: position{line: 667, col: 9, offset: 21195},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21257},
+																																						pos:        position{line: 667, col: 9, offset: 21195},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -3074,7 +3074,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 78, offset: 20913},
+																												pos:        position{line: 657, col: 78, offset: 20851},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -3083,28 +3083,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 662, col: 25, offset: 21031},
+																									pos: position{line: 661, col: 25, offset: 20969},
 																									run: (*parser).callonFileInclusion77,
 																									expr: &seqExpr{
-																										pos: position{line: 662, col: 25, offset: 21031},
+																										pos: position{line: 661, col: 25, offset: 20969},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 662, col: 25, offset: 21031},
+																												pos:        position{line: 661, col: 25, offset: 20969},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 38, offset: 21044},
+																												pos:   position{line: 661, col: 38, offset: 20982},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9729},
+																													pos: position{line: 317, col: 18, offset: 9667},
 																													run: (*parser).callonFileInclusion81,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9729},
+																														pos: position{line: 317, col: 18, offset: 9667},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9729},
+																																pos:        position{line: 317, col: 18, offset: 9667},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -3112,9 +3112,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9739},
+																																pos: position{line: 317, col: 28, offset: 9677},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9740},
+																																	pos:        position{line: 317, col: 29, offset: 9678},
 																																	val:        "[_-\\pL\\pN]",
 																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -3127,33 +3127,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 57, offset: 21063},
+																												pos:   position{line: 661, col: 57, offset: 21001},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 662, col: 63, offset: 21069},
+																													pos: position{line: 661, col: 63, offset: 21007},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21192},
+																														pos: position{line: 665, col: 17, offset: 21130},
 																														run: (*parser).callonFileInclusion88,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21192},
+																															pos: position{line: 665, col: 17, offset: 21130},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21192},
+																																	pos:        position{line: 665, col: 17, offset: 21130},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21196},
+																																	pos:   position{line: 665, col: 21, offset: 21134},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21203},
+																																		pos: position{line: 665, col: 28, offset: 21141},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21203},
+																																				pos: position{line: 665, col: 28, offset: 21141},
 																																				run: (*parser).callonFileInclusion93,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21203},
+																																					pos:        position{line: 665, col: 28, offset: 21141},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -3161,12 +3161,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21257},
+																																				pos: position{line: 667, col: 9, offset: 21195},
 																																				run: (*parser).callonFileInclusion95,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21257},
+																																					pos: position{line: 667, col: 9, offset: 21195},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21257},
+																																						pos:        position{line: 667, col: 9, offset: 21195},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -3183,7 +3183,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 662, col: 79, offset: 21085},
+																												pos:        position{line: 661, col: 79, offset: 21023},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -3198,27 +3198,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1198, col: 23, offset: 37046},
+																			pos: position{line: 1197, col: 23, offset: 36984},
 																			run: (*parser).callonFileInclusion99,
 																			expr: &seqExpr{
-																				pos: position{line: 1198, col: 23, offset: 37046},
+																				pos: position{line: 1197, col: 23, offset: 36984},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 37014},
+																						pos:        position{line: 1195, col: 32, offset: 36952},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1198, col: 51, offset: 37074},
+																						pos:   position{line: 1197, col: 51, offset: 37012},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1198, col: 56, offset: 37079},
+																							pos: position{line: 1197, col: 56, offset: 37017},
 																							run: (*parser).callonFileInclusion103,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1198, col: 56, offset: 37079},
+																								pos: position{line: 1197, col: 56, offset: 37017},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1198, col: 56, offset: 37079},
+																									pos:        position{line: 1197, col: 56, offset: 37017},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -3228,7 +3228,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 37014},
+																						pos:        position{line: 1195, col: 32, offset: 36952},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -3237,10 +3237,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2852, col: 11, offset: 90477},
+																			pos: position{line: 2851, col: 11, offset: 90415},
 																			run: (*parser).callonFileInclusion107,
 																			expr: &litMatcher{
-																				pos:        position{line: 2852, col: 11, offset: 90477},
+																				pos:        position{line: 2851, col: 11, offset: 90415},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3269,10 +3269,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2873, col: 10, offset: 90962},
+								pos: position{line: 2872, col: 10, offset: 90900},
 								run: (*parser).callonFileInclusion112,
 								expr: &charClassMatcher{
-									pos:        position{line: 2873, col: 10, offset: 90962},
+									pos:        position{line: 2872, col: 10, offset: 90900},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3281,28 +3281,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2895, col: 8, offset: 91360},
+							pos: position{line: 2894, col: 8, offset: 91298},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2882, col: 12, offset: 91133},
+									pos: position{line: 2881, col: 12, offset: 91071},
 									run: (*parser).callonFileInclusion115,
 									expr: &choiceExpr{
-										pos: position{line: 2882, col: 13, offset: 91134},
+										pos: position{line: 2881, col: 13, offset: 91072},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2882, col: 13, offset: 91134},
+												pos:        position{line: 2881, col: 13, offset: 91072},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 20, offset: 91141},
+												pos:        position{line: 2881, col: 20, offset: 91079},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 29, offset: 91150},
+												pos:        position{line: 2881, col: 29, offset: 91088},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3311,9 +3311,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2892, col: 8, offset: 91310},
+									pos: position{line: 2891, col: 8, offset: 91248},
 									expr: &anyMatcher{
-										line: 2892, col: 9, offset: 91311,
+										line: 2891, col: 9, offset: 91249,
 									},
 								},
 							},
@@ -3359,24 +3359,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2865, col: 12, offset: 90789},
+																				pos: position{line: 2864, col: 12, offset: 90727},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2865, col: 13, offset: 90790},
+																					pos: position{line: 2864, col: 13, offset: 90728},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2865, col: 13, offset: 90790},
+																							pos: position{line: 2864, col: 13, offset: 90728},
 																							expr: &litMatcher{
-																								pos:        position{line: 2865, col: 13, offset: 90790},
+																								pos:        position{line: 2864, col: 13, offset: 90728},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2865, col: 18, offset: 90795},
+																							pos: position{line: 2864, col: 18, offset: 90733},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2865, col: 18, offset: 90795},
+																								pos:        position{line: 2864, col: 18, offset: 90733},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3397,24 +3397,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2865, col: 12, offset: 90789},
+																				pos: position{line: 2864, col: 12, offset: 90727},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2865, col: 13, offset: 90790},
+																					pos: position{line: 2864, col: 13, offset: 90728},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2865, col: 13, offset: 90790},
+																							pos: position{line: 2864, col: 13, offset: 90728},
 																							expr: &litMatcher{
-																								pos:        position{line: 2865, col: 13, offset: 90790},
+																								pos:        position{line: 2864, col: 13, offset: 90728},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2865, col: 18, offset: 90795},
+																							pos: position{line: 2864, col: 18, offset: 90733},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2865, col: 18, offset: 90795},
+																								pos:        position{line: 2864, col: 18, offset: 90733},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3435,24 +3435,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2865, col: 12, offset: 90789},
+																		pos: position{line: 2864, col: 12, offset: 90727},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2865, col: 13, offset: 90790},
+																			pos: position{line: 2864, col: 13, offset: 90728},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2865, col: 13, offset: 90790},
+																					pos: position{line: 2864, col: 13, offset: 90728},
 																					expr: &litMatcher{
-																						pos:        position{line: 2865, col: 13, offset: 90790},
+																						pos:        position{line: 2864, col: 13, offset: 90728},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2865, col: 18, offset: 90795},
+																					pos: position{line: 2864, col: 18, offset: 90733},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2865, col: 18, offset: 90795},
+																						pos:        position{line: 2864, col: 18, offset: 90733},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3501,24 +3501,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2865, col: 12, offset: 90789},
+																									pos: position{line: 2864, col: 12, offset: 90727},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2865, col: 13, offset: 90790},
+																										pos: position{line: 2864, col: 13, offset: 90728},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2865, col: 13, offset: 90790},
+																												pos: position{line: 2864, col: 13, offset: 90728},
 																												expr: &litMatcher{
-																													pos:        position{line: 2865, col: 13, offset: 90790},
+																													pos:        position{line: 2864, col: 13, offset: 90728},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2865, col: 18, offset: 90795},
+																												pos: position{line: 2864, col: 18, offset: 90733},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2865, col: 18, offset: 90795},
+																													pos:        position{line: 2864, col: 18, offset: 90733},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3539,24 +3539,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2865, col: 12, offset: 90789},
+																									pos: position{line: 2864, col: 12, offset: 90727},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2865, col: 13, offset: 90790},
+																										pos: position{line: 2864, col: 13, offset: 90728},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2865, col: 13, offset: 90790},
+																												pos: position{line: 2864, col: 13, offset: 90728},
 																												expr: &litMatcher{
-																													pos:        position{line: 2865, col: 13, offset: 90790},
+																													pos:        position{line: 2864, col: 13, offset: 90728},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2865, col: 18, offset: 90795},
+																												pos: position{line: 2864, col: 18, offset: 90733},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2865, col: 18, offset: 90795},
+																													pos:        position{line: 2864, col: 18, offset: 90733},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3577,24 +3577,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2865, col: 12, offset: 90789},
+																							pos: position{line: 2864, col: 12, offset: 90727},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2865, col: 13, offset: 90790},
+																								pos: position{line: 2864, col: 13, offset: 90728},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2865, col: 13, offset: 90790},
+																										pos: position{line: 2864, col: 13, offset: 90728},
 																										expr: &litMatcher{
-																											pos:        position{line: 2865, col: 13, offset: 90790},
+																											pos:        position{line: 2864, col: 13, offset: 90728},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2865, col: 18, offset: 90795},
+																										pos: position{line: 2864, col: 18, offset: 90733},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2865, col: 18, offset: 90795},
+																											pos:        position{line: 2864, col: 18, offset: 90733},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3627,24 +3627,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2865, col: 12, offset: 90789},
+														pos: position{line: 2864, col: 12, offset: 90727},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2865, col: 13, offset: 90790},
+															pos: position{line: 2864, col: 13, offset: 90728},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2865, col: 13, offset: 90790},
+																	pos: position{line: 2864, col: 13, offset: 90728},
 																	expr: &litMatcher{
-																		pos:        position{line: 2865, col: 13, offset: 90790},
+																		pos:        position{line: 2864, col: 13, offset: 90728},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2865, col: 18, offset: 90795},
+																	pos: position{line: 2864, col: 18, offset: 90733},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2865, col: 18, offset: 90795},
+																		pos:        position{line: 2864, col: 18, offset: 90733},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3665,24 +3665,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2865, col: 12, offset: 90789},
+														pos: position{line: 2864, col: 12, offset: 90727},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2865, col: 13, offset: 90790},
+															pos: position{line: 2864, col: 13, offset: 90728},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2865, col: 13, offset: 90790},
+																	pos: position{line: 2864, col: 13, offset: 90728},
 																	expr: &litMatcher{
-																		pos:        position{line: 2865, col: 13, offset: 90790},
+																		pos:        position{line: 2864, col: 13, offset: 90728},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2865, col: 18, offset: 90795},
+																	pos: position{line: 2864, col: 18, offset: 90733},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2865, col: 18, offset: 90795},
+																		pos:        position{line: 2864, col: 18, offset: 90733},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3703,24 +3703,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2865, col: 12, offset: 90789},
+												pos: position{line: 2864, col: 12, offset: 90727},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2865, col: 13, offset: 90790},
+													pos: position{line: 2864, col: 13, offset: 90728},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2865, col: 13, offset: 90790},
+															pos: position{line: 2864, col: 13, offset: 90728},
 															expr: &litMatcher{
-																pos:        position{line: 2865, col: 13, offset: 90790},
+																pos:        position{line: 2864, col: 13, offset: 90728},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2865, col: 18, offset: 90795},
+															pos: position{line: 2864, col: 18, offset: 90733},
 															expr: &charClassMatcher{
-																pos:        position{line: 2865, col: 18, offset: 90795},
+																pos:        position{line: 2864, col: 18, offset: 90733},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3736,9 +3736,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2892, col: 8, offset: 91310},
+							pos: position{line: 2891, col: 8, offset: 91248},
 							expr: &anyMatcher{
-								line: 2892, col: 9, offset: 91311,
+								line: 2891, col: 9, offset: 91249,
 							},
 						},
 					},
@@ -4063,9 +4063,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2892, col: 8, offset: 91310},
+							pos: position{line: 2891, col: 8, offset: 91248},
 							expr: &anyMatcher{
-								line: 2892, col: 9, offset: 91311,
+								line: 2891, col: 9, offset: 91249,
 							},
 						},
 					},
@@ -4189,28 +4189,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2895, col: 8, offset: 91360},
+							pos: position{line: 2894, col: 8, offset: 91298},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2882, col: 12, offset: 91133},
+									pos: position{line: 2881, col: 12, offset: 91071},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2882, col: 13, offset: 91134},
+										pos: position{line: 2881, col: 13, offset: 91072},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2882, col: 13, offset: 91134},
+												pos:        position{line: 2881, col: 13, offset: 91072},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 20, offset: 91141},
+												pos:        position{line: 2881, col: 20, offset: 91079},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 29, offset: 91150},
+												pos:        position{line: 2881, col: 29, offset: 91088},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4219,9 +4219,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2892, col: 8, offset: 91310},
+									pos: position{line: 2891, col: 8, offset: 91248},
 									expr: &anyMatcher{
-										line: 2892, col: 9, offset: 91311,
+										line: 2891, col: 9, offset: 91249,
 									},
 								},
 							},
@@ -4240,9 +4240,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2890, col: 11, offset: 91296},
+							pos: position{line: 2889, col: 11, offset: 91234},
 							expr: &anyMatcher{
-								line: 2890, col: 13, offset: 91298,
+								line: 2889, col: 13, offset: 91236,
 							},
 						},
 						&labeledExpr{
@@ -4285,28 +4285,28 @@ var g = &grammar{
 											name: "AttributeDeclaration",
 										},
 										&actionExpr{
-											pos: position{line: 360, col: 19, offset: 10911},
+											pos: position{line: 359, col: 19, offset: 10849},
 											run: (*parser).callonDocumentFragment16,
 											expr: &seqExpr{
-												pos: position{line: 360, col: 19, offset: 10911},
+												pos: position{line: 359, col: 19, offset: 10849},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 360, col: 19, offset: 10911},
+														pos:        position{line: 359, col: 19, offset: 10849},
 														val:        ":!",
 														ignoreCase: false,
 														want:       "\":!\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 360, col: 24, offset: 10916},
+														pos:   position{line: 359, col: 24, offset: 10854},
 														label: "name",
 														expr: &actionExpr{
-															pos: position{line: 318, col: 18, offset: 9729},
+															pos: position{line: 317, col: 18, offset: 9667},
 															run: (*parser).callonDocumentFragment20,
 															expr: &seqExpr{
-																pos: position{line: 318, col: 18, offset: 9729},
+																pos: position{line: 317, col: 18, offset: 9667},
 																exprs: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 318, col: 18, offset: 9729},
+																		pos:        position{line: 317, col: 18, offset: 9667},
 																		val:        "[_\\pL\\pN]",
 																		chars:      []rune{'_'},
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -4314,9 +4314,9 @@ var g = &grammar{
 																		inverted:   false,
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 318, col: 28, offset: 9739},
+																		pos: position{line: 317, col: 28, offset: 9677},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 318, col: 29, offset: 9740},
+																			pos:        position{line: 317, col: 29, offset: 9678},
 																			val:        "[_-\\pL\\pN]",
 																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -4329,18 +4329,18 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 360, col: 45, offset: 10937},
+														pos:        position{line: 359, col: 45, offset: 10875},
 														val:        ":",
 														ignoreCase: false,
 														want:       "\":\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 360, col: 49, offset: 10941},
+														pos: position{line: 359, col: 49, offset: 10879},
 														expr: &actionExpr{
-															pos: position{line: 2873, col: 10, offset: 90962},
+															pos: position{line: 2872, col: 10, offset: 90900},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2873, col: 10, offset: 90962},
+																pos:        position{line: 2872, col: 10, offset: 90900},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4349,28 +4349,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2895, col: 8, offset: 91360},
+														pos: position{line: 2894, col: 8, offset: 91298},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2882, col: 12, offset: 91133},
+																pos: position{line: 2881, col: 12, offset: 91071},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2882, col: 13, offset: 91134},
+																	pos: position{line: 2881, col: 13, offset: 91072},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 13, offset: 91134},
+																			pos:        position{line: 2881, col: 13, offset: 91072},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 20, offset: 91141},
+																			pos:        position{line: 2881, col: 20, offset: 91079},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 29, offset: 91150},
+																			pos:        position{line: 2881, col: 29, offset: 91088},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4379,9 +4379,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2892, col: 8, offset: 91310},
+																pos: position{line: 2891, col: 8, offset: 91248},
 																expr: &anyMatcher{
-																	line: 2892, col: 9, offset: 91311,
+																	line: 2891, col: 9, offset: 91249,
 																},
 															},
 														},
@@ -4390,28 +4390,28 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 362, col: 9, offset: 11032},
+											pos: position{line: 361, col: 9, offset: 10970},
 											run: (*parser).callonDocumentFragment37,
 											expr: &seqExpr{
-												pos: position{line: 362, col: 9, offset: 11032},
+												pos: position{line: 361, col: 9, offset: 10970},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 362, col: 9, offset: 11032},
+														pos:        position{line: 361, col: 9, offset: 10970},
 														val:        ":",
 														ignoreCase: false,
 														want:       "\":\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 362, col: 13, offset: 11036},
+														pos:   position{line: 361, col: 13, offset: 10974},
 														label: "name",
 														expr: &actionExpr{
-															pos: position{line: 318, col: 18, offset: 9729},
+															pos: position{line: 317, col: 18, offset: 9667},
 															run: (*parser).callonDocumentFragment41,
 															expr: &seqExpr{
-																pos: position{line: 318, col: 18, offset: 9729},
+																pos: position{line: 317, col: 18, offset: 9667},
 																exprs: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 318, col: 18, offset: 9729},
+																		pos:        position{line: 317, col: 18, offset: 9667},
 																		val:        "[_\\pL\\pN]",
 																		chars:      []rune{'_'},
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -4419,9 +4419,9 @@ var g = &grammar{
 																		inverted:   false,
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 318, col: 28, offset: 9739},
+																		pos: position{line: 317, col: 28, offset: 9677},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 318, col: 29, offset: 9740},
+																			pos:        position{line: 317, col: 29, offset: 9678},
 																			val:        "[_-\\pL\\pN]",
 																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -4434,18 +4434,18 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 362, col: 34, offset: 11057},
+														pos:        position{line: 361, col: 34, offset: 10995},
 														val:        "!:",
 														ignoreCase: false,
 														want:       "\"!:\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 362, col: 39, offset: 11062},
+														pos: position{line: 361, col: 39, offset: 11000},
 														expr: &actionExpr{
-															pos: position{line: 2873, col: 10, offset: 90962},
+															pos: position{line: 2872, col: 10, offset: 90900},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2873, col: 10, offset: 90962},
+																pos:        position{line: 2872, col: 10, offset: 90900},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4454,28 +4454,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2895, col: 8, offset: 91360},
+														pos: position{line: 2894, col: 8, offset: 91298},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2882, col: 12, offset: 91133},
+																pos: position{line: 2881, col: 12, offset: 91071},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2882, col: 13, offset: 91134},
+																	pos: position{line: 2881, col: 13, offset: 91072},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 13, offset: 91134},
+																			pos:        position{line: 2881, col: 13, offset: 91072},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 20, offset: 91141},
+																			pos:        position{line: 2881, col: 20, offset: 91079},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 29, offset: 91150},
+																			pos:        position{line: 2881, col: 29, offset: 91088},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4484,9 +4484,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2892, col: 8, offset: 91310},
+																pos: position{line: 2891, col: 8, offset: 91248},
 																expr: &anyMatcher{
-																	line: 2892, col: 9, offset: 91311,
+																	line: 2891, col: 9, offset: 91249,
 																},
 															},
 														},
@@ -4495,24 +4495,24 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 677, col: 14, offset: 21558},
+											pos: position{line: 676, col: 14, offset: 21496},
 											run: (*parser).callonDocumentFragment58,
 											expr: &seqExpr{
-												pos: position{line: 677, col: 14, offset: 21558},
+												pos: position{line: 676, col: 14, offset: 21496},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2890, col: 11, offset: 91296},
+														pos: position{line: 2889, col: 11, offset: 91234},
 														expr: &anyMatcher{
-															line: 2890, col: 13, offset: 91298,
+															line: 2889, col: 13, offset: 91236,
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 677, col: 21, offset: 21565},
+														pos: position{line: 676, col: 21, offset: 21503},
 														expr: &actionExpr{
-															pos: position{line: 2873, col: 10, offset: 90962},
+															pos: position{line: 2872, col: 10, offset: 90900},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2873, col: 10, offset: 90962},
+																pos:        position{line: 2872, col: 10, offset: 90900},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4521,28 +4521,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2895, col: 8, offset: 91360},
+														pos: position{line: 2894, col: 8, offset: 91298},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2882, col: 12, offset: 91133},
+																pos: position{line: 2881, col: 12, offset: 91071},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2882, col: 13, offset: 91134},
+																	pos: position{line: 2881, col: 13, offset: 91072},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 13, offset: 91134},
+																			pos:        position{line: 2881, col: 13, offset: 91072},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 20, offset: 91141},
+																			pos:        position{line: 2881, col: 20, offset: 91079},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 29, offset: 91150},
+																			pos:        position{line: 2881, col: 29, offset: 91088},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4551,9 +4551,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2892, col: 8, offset: 91310},
+																pos: position{line: 2891, col: 8, offset: 91248},
 																expr: &anyMatcher{
-																	line: 2892, col: 9, offset: 91311,
+																	line: 2891, col: 9, offset: 91249,
 																},
 															},
 														},
@@ -4570,36 +4570,36 @@ var g = &grammar{
 											name: "Section",
 										},
 										&actionExpr{
-											pos: position{line: 820, col: 5, offset: 26398},
+											pos: position{line: 819, col: 5, offset: 26336},
 											run: (*parser).callonDocumentFragment75,
 											expr: &seqExpr{
-												pos: position{line: 820, col: 5, offset: 26398},
+												pos: position{line: 819, col: 5, offset: 26336},
 												exprs: []interface{}{
 													&actionExpr{
-														pos: position{line: 740, col: 5, offset: 23653},
+														pos: position{line: 739, col: 5, offset: 23591},
 														run: (*parser).callonDocumentFragment77,
 														expr: &seqExpr{
-															pos: position{line: 740, col: 5, offset: 23653},
+															pos: position{line: 739, col: 5, offset: 23591},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 740, col: 5, offset: 23653},
+																	pos:   position{line: 739, col: 5, offset: 23591},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 740, col: 16, offset: 23664},
+																		pos: position{line: 739, col: 16, offset: 23602},
 																		run: (*parser).callonDocumentFragment80,
 																		expr: &seqExpr{
-																			pos: position{line: 740, col: 16, offset: 23664},
+																			pos: position{line: 739, col: 16, offset: 23602},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 740, col: 16, offset: 23664},
+																					pos:        position{line: 739, col: 16, offset: 23602},
 																					val:        "////",
 																					ignoreCase: false,
 																					want:       "\"////\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 740, col: 23, offset: 23671},
+																					pos: position{line: 739, col: 23, offset: 23609},
 																					expr: &litMatcher{
-																						pos:        position{line: 740, col: 23, offset: 23671},
+																						pos:        position{line: 739, col: 23, offset: 23609},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
@@ -4610,12 +4610,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 742, col: 8, offset: 23755},
+																	pos: position{line: 741, col: 8, offset: 23693},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90962},
+																		pos: position{line: 2872, col: 10, offset: 90900},
 																		run: (*parser).callonDocumentFragment86,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90962},
+																			pos:        position{line: 2872, col: 10, offset: 90900},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -4624,28 +4624,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91360},
+																	pos: position{line: 2894, col: 8, offset: 91298},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91133},
+																			pos: position{line: 2881, col: 12, offset: 91071},
 																			run: (*parser).callonDocumentFragment89,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91134},
+																				pos: position{line: 2881, col: 13, offset: 91072},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91134},
+																						pos:        position{line: 2881, col: 13, offset: 91072},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91141},
+																						pos:        position{line: 2881, col: 20, offset: 91079},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91150},
+																						pos:        position{line: 2881, col: 29, offset: 91088},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -4654,9 +4654,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91310},
+																			pos: position{line: 2891, col: 8, offset: 91248},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91311,
+																				line: 2891, col: 9, offset: 91249,
 																			},
 																		},
 																	},
@@ -4665,46 +4665,46 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 821, col: 5, offset: 26429},
+														pos:   position{line: 820, col: 5, offset: 26367},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 831, col: 5, offset: 26715},
+															pos: position{line: 830, col: 5, offset: 26653},
 															expr: &actionExpr{
-																pos: position{line: 831, col: 6, offset: 26716},
+																pos: position{line: 830, col: 6, offset: 26654},
 																run: (*parser).callonDocumentFragment98,
 																expr: &seqExpr{
-																	pos: position{line: 831, col: 6, offset: 26716},
+																	pos: position{line: 830, col: 6, offset: 26654},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 831, col: 6, offset: 26716},
+																			pos: position{line: 830, col: 6, offset: 26654},
 																			expr: &choiceExpr{
-																				pos: position{line: 828, col: 29, offset: 26658},
+																				pos: position{line: 827, col: 29, offset: 26596},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 740, col: 5, offset: 23653},
+																						pos: position{line: 739, col: 5, offset: 23591},
 																						run: (*parser).callonDocumentFragment102,
 																						expr: &seqExpr{
-																							pos: position{line: 740, col: 5, offset: 23653},
+																							pos: position{line: 739, col: 5, offset: 23591},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 740, col: 5, offset: 23653},
+																									pos:   position{line: 739, col: 5, offset: 23591},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 740, col: 16, offset: 23664},
+																										pos: position{line: 739, col: 16, offset: 23602},
 																										run: (*parser).callonDocumentFragment105,
 																										expr: &seqExpr{
-																											pos: position{line: 740, col: 16, offset: 23664},
+																											pos: position{line: 739, col: 16, offset: 23602},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 740, col: 16, offset: 23664},
+																													pos:        position{line: 739, col: 16, offset: 23602},
 																													val:        "////",
 																													ignoreCase: false,
 																													want:       "\"////\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 740, col: 23, offset: 23671},
+																													pos: position{line: 739, col: 23, offset: 23609},
 																													expr: &litMatcher{
-																														pos:        position{line: 740, col: 23, offset: 23671},
+																														pos:        position{line: 739, col: 23, offset: 23609},
 																														val:        "/",
 																														ignoreCase: false,
 																														want:       "\"/\"",
@@ -4715,12 +4715,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 742, col: 8, offset: 23755},
+																									pos: position{line: 741, col: 8, offset: 23693},
 																									expr: &actionExpr{
-																										pos: position{line: 2873, col: 10, offset: 90962},
+																										pos: position{line: 2872, col: 10, offset: 90900},
 																										run: (*parser).callonDocumentFragment111,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2873, col: 10, offset: 90962},
+																											pos:        position{line: 2872, col: 10, offset: 90900},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -4729,28 +4729,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2895, col: 8, offset: 91360},
+																									pos: position{line: 2894, col: 8, offset: 91298},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2882, col: 12, offset: 91133},
+																											pos: position{line: 2881, col: 12, offset: 91071},
 																											run: (*parser).callonDocumentFragment114,
 																											expr: &choiceExpr{
-																												pos: position{line: 2882, col: 13, offset: 91134},
+																												pos: position{line: 2881, col: 13, offset: 91072},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 13, offset: 91134},
+																														pos:        position{line: 2881, col: 13, offset: 91072},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 20, offset: 91141},
+																														pos:        position{line: 2881, col: 20, offset: 91079},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 29, offset: 91150},
+																														pos:        position{line: 2881, col: 29, offset: 91088},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -4759,9 +4759,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2892, col: 8, offset: 91310},
+																											pos: position{line: 2891, col: 8, offset: 91248},
 																											expr: &anyMatcher{
-																												line: 2892, col: 9, offset: 91311,
+																												line: 2891, col: 9, offset: 91249,
 																											},
 																										},
 																									},
@@ -4770,39 +4770,39 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91310},
+																						pos: position{line: 2891, col: 8, offset: 91248},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91311,
+																							line: 2891, col: 9, offset: 91249,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 832, col: 5, offset: 26746},
+																			pos:   position{line: 831, col: 5, offset: 26684},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26162},
+																				pos: position{line: 810, col: 5, offset: 26100},
 																				run: (*parser).callonDocumentFragment124,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26162},
+																					pos: position{line: 810, col: 5, offset: 26100},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2890, col: 11, offset: 91296},
+																							pos: position{line: 2889, col: 11, offset: 91234},
 																							expr: &anyMatcher{
-																								line: 2890, col: 13, offset: 91298,
+																								line: 2889, col: 13, offset: 91236,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26237},
+																							pos:   position{line: 811, col: 5, offset: 26175},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2819, col: 13, offset: 89488},
+																								pos: position{line: 2818, col: 13, offset: 89426},
 																								run: (*parser).callonDocumentFragment129,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2819, col: 13, offset: 89488},
+																									pos: position{line: 2818, col: 13, offset: 89426},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2819, col: 13, offset: 89488},
+																										pos:        position{line: 2818, col: 13, offset: 89426},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4812,28 +4812,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91360},
+																							pos: position{line: 2894, col: 8, offset: 91298},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91133},
+																									pos: position{line: 2881, col: 12, offset: 91071},
 																									run: (*parser).callonDocumentFragment133,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91134},
+																										pos: position{line: 2881, col: 13, offset: 91072},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91134},
+																												pos:        position{line: 2881, col: 13, offset: 91072},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91141},
+																												pos:        position{line: 2881, col: 20, offset: 91079},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91150},
+																												pos:        position{line: 2881, col: 29, offset: 91088},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4842,9 +4842,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91310},
+																									pos: position{line: 2891, col: 8, offset: 91248},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91311,
+																										line: 2891, col: 9, offset: 91249,
 																									},
 																								},
 																							},
@@ -4859,35 +4859,35 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 822, col: 5, offset: 26463},
+														pos: position{line: 821, col: 5, offset: 26401},
 														expr: &choiceExpr{
-															pos: position{line: 828, col: 29, offset: 26658},
+															pos: position{line: 827, col: 29, offset: 26596},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 740, col: 5, offset: 23653},
+																	pos: position{line: 739, col: 5, offset: 23591},
 																	run: (*parser).callonDocumentFragment142,
 																	expr: &seqExpr{
-																		pos: position{line: 740, col: 5, offset: 23653},
+																		pos: position{line: 739, col: 5, offset: 23591},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 740, col: 5, offset: 23653},
+																				pos:   position{line: 739, col: 5, offset: 23591},
 																				label: "delimiter",
 																				expr: &actionExpr{
-																					pos: position{line: 740, col: 16, offset: 23664},
+																					pos: position{line: 739, col: 16, offset: 23602},
 																					run: (*parser).callonDocumentFragment145,
 																					expr: &seqExpr{
-																						pos: position{line: 740, col: 16, offset: 23664},
+																						pos: position{line: 739, col: 16, offset: 23602},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 740, col: 16, offset: 23664},
+																								pos:        position{line: 739, col: 16, offset: 23602},
 																								val:        "////",
 																								ignoreCase: false,
 																								want:       "\"////\"",
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 740, col: 23, offset: 23671},
+																								pos: position{line: 739, col: 23, offset: 23609},
 																								expr: &litMatcher{
-																									pos:        position{line: 740, col: 23, offset: 23671},
+																									pos:        position{line: 739, col: 23, offset: 23609},
 																									val:        "/",
 																									ignoreCase: false,
 																									want:       "\"/\"",
@@ -4898,12 +4898,12 @@ var g = &grammar{
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 742, col: 8, offset: 23755},
+																				pos: position{line: 741, col: 8, offset: 23693},
 																				expr: &actionExpr{
-																					pos: position{line: 2873, col: 10, offset: 90962},
+																					pos: position{line: 2872, col: 10, offset: 90900},
 																					run: (*parser).callonDocumentFragment151,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2873, col: 10, offset: 90962},
+																						pos:        position{line: 2872, col: 10, offset: 90900},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -4912,28 +4912,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2895, col: 8, offset: 91360},
+																				pos: position{line: 2894, col: 8, offset: 91298},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2882, col: 12, offset: 91133},
+																						pos: position{line: 2881, col: 12, offset: 91071},
 																						run: (*parser).callonDocumentFragment154,
 																						expr: &choiceExpr{
-																							pos: position{line: 2882, col: 13, offset: 91134},
+																							pos: position{line: 2881, col: 13, offset: 91072},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 13, offset: 91134},
+																									pos:        position{line: 2881, col: 13, offset: 91072},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 20, offset: 91141},
+																									pos:        position{line: 2881, col: 20, offset: 91079},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 29, offset: 91150},
+																									pos:        position{line: 2881, col: 29, offset: 91088},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -4942,9 +4942,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91310},
+																						pos: position{line: 2891, col: 8, offset: 91248},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91311,
+																							line: 2891, col: 9, offset: 91249,
 																						},
 																					},
 																				},
@@ -4953,9 +4953,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2892, col: 8, offset: 91310},
+																	pos: position{line: 2891, col: 8, offset: 91248},
 																	expr: &anyMatcher{
-																		line: 2892, col: 9, offset: 91311,
+																		line: 2891, col: 9, offset: 91249,
 																	},
 																},
 															},
@@ -4965,39 +4965,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 840, col: 5, offset: 26899},
+											pos: position{line: 839, col: 5, offset: 26837},
 											run: (*parser).callonDocumentFragment163,
 											expr: &seqExpr{
-												pos: position{line: 840, col: 5, offset: 26899},
+												pos: position{line: 839, col: 5, offset: 26837},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 840, col: 5, offset: 26899},
+														pos:   position{line: 839, col: 5, offset: 26837},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 747, col: 5, offset: 23901},
+															pos: position{line: 746, col: 5, offset: 23839},
 															run: (*parser).callonDocumentFragment166,
 															expr: &seqExpr{
-																pos: position{line: 747, col: 5, offset: 23901},
+																pos: position{line: 746, col: 5, offset: 23839},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 747, col: 5, offset: 23901},
+																		pos:   position{line: 746, col: 5, offset: 23839},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 747, col: 16, offset: 23912},
+																			pos: position{line: 746, col: 16, offset: 23850},
 																			run: (*parser).callonDocumentFragment169,
 																			expr: &seqExpr{
-																				pos: position{line: 747, col: 16, offset: 23912},
+																				pos: position{line: 746, col: 16, offset: 23850},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 747, col: 16, offset: 23912},
+																						pos:        position{line: 746, col: 16, offset: 23850},
 																						val:        "====",
 																						ignoreCase: false,
 																						want:       "\"====\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 747, col: 23, offset: 23919},
+																						pos: position{line: 746, col: 23, offset: 23857},
 																						expr: &litMatcher{
-																							pos:        position{line: 747, col: 23, offset: 23919},
+																							pos:        position{line: 746, col: 23, offset: 23857},
 																							val:        "=",
 																							ignoreCase: false,
 																							want:       "\"=\"",
@@ -5008,12 +5008,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 749, col: 8, offset: 24003},
+																		pos: position{line: 748, col: 8, offset: 23941},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90962},
+																			pos: position{line: 2872, col: 10, offset: 90900},
 																			run: (*parser).callonDocumentFragment175,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90962},
+																				pos:        position{line: 2872, col: 10, offset: 90900},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5022,28 +5022,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91360},
+																		pos: position{line: 2894, col: 8, offset: 91298},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91133},
+																				pos: position{line: 2881, col: 12, offset: 91071},
 																				run: (*parser).callonDocumentFragment178,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91134},
+																					pos: position{line: 2881, col: 13, offset: 91072},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91134},
+																							pos:        position{line: 2881, col: 13, offset: 91072},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91141},
+																							pos:        position{line: 2881, col: 20, offset: 91079},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91150},
+																							pos:        position{line: 2881, col: 29, offset: 91088},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5052,9 +5052,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91310},
+																				pos: position{line: 2891, col: 8, offset: 91248},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91311,
+																					line: 2891, col: 9, offset: 91249,
 																				},
 																			},
 																		},
@@ -5064,56 +5064,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 841, col: 5, offset: 26938},
+														pos: position{line: 840, col: 5, offset: 26876},
 														run: (*parser).callonDocumentFragment185,
 													},
 													&labeledExpr{
-														pos:   position{line: 844, col: 5, offset: 27030},
+														pos:   position{line: 843, col: 5, offset: 26968},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 859, col: 4, offset: 27427},
+															pos: position{line: 858, col: 4, offset: 27365},
 															expr: &actionExpr{
-																pos: position{line: 859, col: 5, offset: 27428},
+																pos: position{line: 858, col: 5, offset: 27366},
 																run: (*parser).callonDocumentFragment188,
 																expr: &seqExpr{
-																	pos: position{line: 859, col: 5, offset: 27428},
+																	pos: position{line: 858, col: 5, offset: 27366},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 859, col: 5, offset: 27428},
+																			pos: position{line: 858, col: 5, offset: 27366},
 																			expr: &choiceExpr{
-																				pos: position{line: 852, col: 5, offset: 27270},
+																				pos: position{line: 851, col: 5, offset: 27208},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 852, col: 5, offset: 27270},
+																						pos: position{line: 851, col: 5, offset: 27208},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 852, col: 5, offset: 27270},
+																								pos:   position{line: 851, col: 5, offset: 27208},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 747, col: 5, offset: 23901},
+																									pos: position{line: 746, col: 5, offset: 23839},
 																									run: (*parser).callonDocumentFragment194,
 																									expr: &seqExpr{
-																										pos: position{line: 747, col: 5, offset: 23901},
+																										pos: position{line: 746, col: 5, offset: 23839},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 747, col: 5, offset: 23901},
+																												pos:   position{line: 746, col: 5, offset: 23839},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 747, col: 16, offset: 23912},
+																													pos: position{line: 746, col: 16, offset: 23850},
 																													run: (*parser).callonDocumentFragment197,
 																													expr: &seqExpr{
-																														pos: position{line: 747, col: 16, offset: 23912},
+																														pos: position{line: 746, col: 16, offset: 23850},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 747, col: 16, offset: 23912},
+																																pos:        position{line: 746, col: 16, offset: 23850},
 																																val:        "====",
 																																ignoreCase: false,
 																																want:       "\"====\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 747, col: 23, offset: 23919},
+																																pos: position{line: 746, col: 23, offset: 23857},
 																																expr: &litMatcher{
-																																	pos:        position{line: 747, col: 23, offset: 23919},
+																																	pos:        position{line: 746, col: 23, offset: 23857},
 																																	val:        "=",
 																																	ignoreCase: false,
 																																	want:       "\"=\"",
@@ -5124,12 +5124,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 749, col: 8, offset: 24003},
+																												pos: position{line: 748, col: 8, offset: 23941},
 																												expr: &actionExpr{
-																													pos: position{line: 2873, col: 10, offset: 90962},
+																													pos: position{line: 2872, col: 10, offset: 90900},
 																													run: (*parser).callonDocumentFragment203,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2873, col: 10, offset: 90962},
+																														pos:        position{line: 2872, col: 10, offset: 90900},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5138,28 +5138,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2895, col: 8, offset: 91360},
+																												pos: position{line: 2894, col: 8, offset: 91298},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2882, col: 12, offset: 91133},
+																														pos: position{line: 2881, col: 12, offset: 91071},
 																														run: (*parser).callonDocumentFragment206,
 																														expr: &choiceExpr{
-																															pos: position{line: 2882, col: 13, offset: 91134},
+																															pos: position{line: 2881, col: 13, offset: 91072},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 13, offset: 91134},
+																																	pos:        position{line: 2881, col: 13, offset: 91072},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 20, offset: 91141},
+																																	pos:        position{line: 2881, col: 20, offset: 91079},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 29, offset: 91150},
+																																	pos:        position{line: 2881, col: 29, offset: 91088},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5168,9 +5168,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2892, col: 8, offset: 91310},
+																														pos: position{line: 2891, col: 8, offset: 91248},
 																														expr: &anyMatcher{
-																															line: 2892, col: 9, offset: 91311,
+																															line: 2891, col: 9, offset: 91249,
 																														},
 																													},
 																												},
@@ -5180,45 +5180,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 853, col: 5, offset: 27301},
+																								pos: position{line: 852, col: 5, offset: 27239},
 																								run: (*parser).callonDocumentFragment213,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91310},
+																						pos: position{line: 2891, col: 8, offset: 91248},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91311,
+																							line: 2891, col: 9, offset: 91249,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 860, col: 5, offset: 27458},
+																			pos:   position{line: 859, col: 5, offset: 27396},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26162},
+																				pos: position{line: 810, col: 5, offset: 26100},
 																				run: (*parser).callonDocumentFragment217,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26162},
+																					pos: position{line: 810, col: 5, offset: 26100},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2890, col: 11, offset: 91296},
+																							pos: position{line: 2889, col: 11, offset: 91234},
 																							expr: &anyMatcher{
-																								line: 2890, col: 13, offset: 91298,
+																								line: 2889, col: 13, offset: 91236,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26237},
+																							pos:   position{line: 811, col: 5, offset: 26175},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2819, col: 13, offset: 89488},
+																								pos: position{line: 2818, col: 13, offset: 89426},
 																								run: (*parser).callonDocumentFragment222,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2819, col: 13, offset: 89488},
+																									pos: position{line: 2818, col: 13, offset: 89426},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2819, col: 13, offset: 89488},
+																										pos:        position{line: 2818, col: 13, offset: 89426},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5228,28 +5228,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91360},
+																							pos: position{line: 2894, col: 8, offset: 91298},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91133},
+																									pos: position{line: 2881, col: 12, offset: 91071},
 																									run: (*parser).callonDocumentFragment226,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91134},
+																										pos: position{line: 2881, col: 13, offset: 91072},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91134},
+																												pos:        position{line: 2881, col: 13, offset: 91072},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91141},
+																												pos:        position{line: 2881, col: 20, offset: 91079},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91150},
+																												pos:        position{line: 2881, col: 29, offset: 91088},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5258,9 +5258,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91310},
+																									pos: position{line: 2891, col: 8, offset: 91248},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91311,
+																										line: 2891, col: 9, offset: 91249,
 																									},
 																								},
 																							},
@@ -5275,44 +5275,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 845, col: 5, offset: 27064},
+														pos:   position{line: 844, col: 5, offset: 27002},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 845, col: 9, offset: 27068},
+															pos: position{line: 844, col: 9, offset: 27006},
 															expr: &choiceExpr{
-																pos: position{line: 852, col: 5, offset: 27270},
+																pos: position{line: 851, col: 5, offset: 27208},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 852, col: 5, offset: 27270},
+																		pos: position{line: 851, col: 5, offset: 27208},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 852, col: 5, offset: 27270},
+																				pos:   position{line: 851, col: 5, offset: 27208},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 747, col: 5, offset: 23901},
+																					pos: position{line: 746, col: 5, offset: 23839},
 																					run: (*parser).callonDocumentFragment238,
 																					expr: &seqExpr{
-																						pos: position{line: 747, col: 5, offset: 23901},
+																						pos: position{line: 746, col: 5, offset: 23839},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 747, col: 5, offset: 23901},
+																								pos:   position{line: 746, col: 5, offset: 23839},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 747, col: 16, offset: 23912},
+																									pos: position{line: 746, col: 16, offset: 23850},
 																									run: (*parser).callonDocumentFragment241,
 																									expr: &seqExpr{
-																										pos: position{line: 747, col: 16, offset: 23912},
+																										pos: position{line: 746, col: 16, offset: 23850},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 747, col: 16, offset: 23912},
+																												pos:        position{line: 746, col: 16, offset: 23850},
 																												val:        "====",
 																												ignoreCase: false,
 																												want:       "\"====\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 747, col: 23, offset: 23919},
+																												pos: position{line: 746, col: 23, offset: 23857},
 																												expr: &litMatcher{
-																													pos:        position{line: 747, col: 23, offset: 23919},
+																													pos:        position{line: 746, col: 23, offset: 23857},
 																													val:        "=",
 																													ignoreCase: false,
 																													want:       "\"=\"",
@@ -5323,12 +5323,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 749, col: 8, offset: 24003},
+																								pos: position{line: 748, col: 8, offset: 23941},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90962},
+																									pos: position{line: 2872, col: 10, offset: 90900},
 																									run: (*parser).callonDocumentFragment247,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90962},
+																										pos:        position{line: 2872, col: 10, offset: 90900},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5337,28 +5337,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91360},
+																								pos: position{line: 2894, col: 8, offset: 91298},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91133},
+																										pos: position{line: 2881, col: 12, offset: 91071},
 																										run: (*parser).callonDocumentFragment250,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91134},
+																											pos: position{line: 2881, col: 13, offset: 91072},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91134},
+																													pos:        position{line: 2881, col: 13, offset: 91072},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91141},
+																													pos:        position{line: 2881, col: 20, offset: 91079},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91150},
+																													pos:        position{line: 2881, col: 29, offset: 91088},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5367,9 +5367,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91310},
+																										pos: position{line: 2891, col: 8, offset: 91248},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91311,
+																											line: 2891, col: 9, offset: 91249,
 																										},
 																									},
 																								},
@@ -5379,15 +5379,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 853, col: 5, offset: 27301},
+																				pos: position{line: 852, col: 5, offset: 27239},
 																				run: (*parser).callonDocumentFragment257,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91310},
+																		pos: position{line: 2891, col: 8, offset: 91248},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91311,
+																			line: 2891, col: 9, offset: 91249,
 																		},
 																	},
 																},
@@ -5398,36 +5398,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 952, col: 5, offset: 29750},
+											pos: position{line: 951, col: 5, offset: 29688},
 											run: (*parser).callonDocumentFragment260,
 											expr: &seqExpr{
-												pos: position{line: 952, col: 5, offset: 29750},
+												pos: position{line: 951, col: 5, offset: 29688},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 952, col: 5, offset: 29750},
+														pos:   position{line: 951, col: 5, offset: 29688},
 														label: "delimiter",
 														expr: &actionExpr{
-															pos: position{line: 760, col: 26, offset: 24389},
+															pos: position{line: 759, col: 26, offset: 24327},
 															run: (*parser).callonDocumentFragment263,
 															expr: &seqExpr{
-																pos: position{line: 760, col: 26, offset: 24389},
+																pos: position{line: 759, col: 26, offset: 24327},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 760, col: 26, offset: 24389},
+																		pos:        position{line: 759, col: 26, offset: 24327},
 																		val:        "```",
 																		ignoreCase: false,
 																		want:       "\"```\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 760, col: 32, offset: 24395},
+																		pos:   position{line: 759, col: 32, offset: 24333},
 																		label: "language",
 																		expr: &actionExpr{
-																			pos: position{line: 764, col: 13, offset: 24525},
+																			pos: position{line: 763, col: 13, offset: 24463},
 																			run: (*parser).callonDocumentFragment267,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 764, col: 14, offset: 24526},
+																				pos: position{line: 763, col: 14, offset: 24464},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 764, col: 14, offset: 24526},
+																					pos:        position{line: 763, col: 14, offset: 24464},
 																					val:        "[^\\r\\n`\\t ]",
 																					chars:      []rune{'\r', '\n', '`', '\t', ' '},
 																					ignoreCase: false,
@@ -5437,12 +5437,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 760, col: 52, offset: 24415},
+																		pos: position{line: 759, col: 52, offset: 24353},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90962},
+																			pos: position{line: 2872, col: 10, offset: 90900},
 																			run: (*parser).callonDocumentFragment271,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90962},
+																				pos:        position{line: 2872, col: 10, offset: 90900},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5451,28 +5451,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91360},
+																		pos: position{line: 2894, col: 8, offset: 91298},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91133},
+																				pos: position{line: 2881, col: 12, offset: 91071},
 																				run: (*parser).callonDocumentFragment274,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91134},
+																					pos: position{line: 2881, col: 13, offset: 91072},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91134},
+																							pos:        position{line: 2881, col: 13, offset: 91072},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91141},
+																							pos:        position{line: 2881, col: 20, offset: 91079},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91150},
+																							pos:        position{line: 2881, col: 29, offset: 91088},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5481,9 +5481,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91310},
+																				pos: position{line: 2891, col: 8, offset: 91248},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91311,
+																					line: 2891, col: 9, offset: 91249,
 																				},
 																			},
 																		},
@@ -5493,34 +5493,34 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 953, col: 5, offset: 29796},
+														pos:   position{line: 952, col: 5, offset: 29734},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 966, col: 5, offset: 30269},
+															pos: position{line: 965, col: 5, offset: 30207},
 															expr: &actionExpr{
-																pos: position{line: 966, col: 6, offset: 30270},
+																pos: position{line: 965, col: 6, offset: 30208},
 																run: (*parser).callonDocumentFragment283,
 																expr: &seqExpr{
-																	pos: position{line: 966, col: 6, offset: 30270},
+																	pos: position{line: 965, col: 6, offset: 30208},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 966, col: 6, offset: 30270},
+																			pos: position{line: 965, col: 6, offset: 30208},
 																			expr: &seqExpr{
-																				pos: position{line: 963, col: 34, offset: 30217},
+																				pos: position{line: 962, col: 34, offset: 30155},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 963, col: 34, offset: 30217},
+																						pos:        position{line: 962, col: 34, offset: 30155},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 963, col: 40, offset: 30223},
+																						pos: position{line: 962, col: 40, offset: 30161},
 																						expr: &actionExpr{
-																							pos: position{line: 2873, col: 10, offset: 90962},
+																							pos: position{line: 2872, col: 10, offset: 90900},
 																							run: (*parser).callonDocumentFragment289,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2873, col: 10, offset: 90962},
+																								pos:        position{line: 2872, col: 10, offset: 90900},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5529,28 +5529,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91360},
+																						pos: position{line: 2894, col: 8, offset: 91298},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 91133},
+																								pos: position{line: 2881, col: 12, offset: 91071},
 																								run: (*parser).callonDocumentFragment292,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 91134},
+																									pos: position{line: 2881, col: 13, offset: 91072},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 91134},
+																											pos:        position{line: 2881, col: 13, offset: 91072},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 91141},
+																											pos:        position{line: 2881, col: 20, offset: 91079},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 91150},
+																											pos:        position{line: 2881, col: 29, offset: 91088},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5559,9 +5559,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91310},
+																								pos: position{line: 2891, col: 8, offset: 91248},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91311,
+																									line: 2891, col: 9, offset: 91249,
 																								},
 																							},
 																						},
@@ -5570,30 +5570,30 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 967, col: 5, offset: 30305},
+																			pos:   position{line: 966, col: 5, offset: 30243},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26162},
+																				pos: position{line: 810, col: 5, offset: 26100},
 																				run: (*parser).callonDocumentFragment300,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26162},
+																					pos: position{line: 810, col: 5, offset: 26100},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2890, col: 11, offset: 91296},
+																							pos: position{line: 2889, col: 11, offset: 91234},
 																							expr: &anyMatcher{
-																								line: 2890, col: 13, offset: 91298,
+																								line: 2889, col: 13, offset: 91236,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26237},
+																							pos:   position{line: 811, col: 5, offset: 26175},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2819, col: 13, offset: 89488},
+																								pos: position{line: 2818, col: 13, offset: 89426},
 																								run: (*parser).callonDocumentFragment305,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2819, col: 13, offset: 89488},
+																									pos: position{line: 2818, col: 13, offset: 89426},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2819, col: 13, offset: 89488},
+																										pos:        position{line: 2818, col: 13, offset: 89426},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5603,28 +5603,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91360},
+																							pos: position{line: 2894, col: 8, offset: 91298},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91133},
+																									pos: position{line: 2881, col: 12, offset: 91071},
 																									run: (*parser).callonDocumentFragment309,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91134},
+																										pos: position{line: 2881, col: 13, offset: 91072},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91134},
+																												pos:        position{line: 2881, col: 13, offset: 91072},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91141},
+																												pos:        position{line: 2881, col: 20, offset: 91079},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91150},
+																												pos:        position{line: 2881, col: 29, offset: 91088},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5633,9 +5633,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91310},
+																									pos: position{line: 2891, col: 8, offset: 91248},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91311,
+																										line: 2891, col: 9, offset: 91249,
 																									},
 																								},
 																							},
@@ -5650,23 +5650,23 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 954, col: 5, offset: 29835},
+														pos: position{line: 953, col: 5, offset: 29773},
 														expr: &seqExpr{
-															pos: position{line: 963, col: 34, offset: 30217},
+															pos: position{line: 962, col: 34, offset: 30155},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 963, col: 34, offset: 30217},
+																	pos:        position{line: 962, col: 34, offset: 30155},
 																	val:        "```",
 																	ignoreCase: false,
 																	want:       "\"```\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 963, col: 40, offset: 30223},
+																	pos: position{line: 962, col: 40, offset: 30161},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90962},
+																		pos: position{line: 2872, col: 10, offset: 90900},
 																		run: (*parser).callonDocumentFragment320,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90962},
+																			pos:        position{line: 2872, col: 10, offset: 90900},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5675,28 +5675,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91360},
+																	pos: position{line: 2894, col: 8, offset: 91298},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91133},
+																			pos: position{line: 2881, col: 12, offset: 91071},
 																			run: (*parser).callonDocumentFragment323,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91134},
+																				pos: position{line: 2881, col: 13, offset: 91072},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91134},
+																						pos:        position{line: 2881, col: 13, offset: 91072},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91141},
+																						pos:        position{line: 2881, col: 20, offset: 91079},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91150},
+																						pos:        position{line: 2881, col: 29, offset: 91088},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5705,9 +5705,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91310},
+																			pos: position{line: 2891, col: 8, offset: 91248},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91311,
+																				line: 2891, col: 9, offset: 91249,
 																			},
 																		},
 																	},
@@ -5719,39 +5719,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 868, col: 5, offset: 27611},
+											pos: position{line: 867, col: 5, offset: 27549},
 											run: (*parser).callonDocumentFragment330,
 											expr: &seqExpr{
-												pos: position{line: 868, col: 5, offset: 27611},
+												pos: position{line: 867, col: 5, offset: 27549},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 868, col: 5, offset: 27611},
+														pos:   position{line: 867, col: 5, offset: 27549},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 754, col: 5, offset: 24148},
+															pos: position{line: 753, col: 5, offset: 24086},
 															run: (*parser).callonDocumentFragment333,
 															expr: &seqExpr{
-																pos: position{line: 754, col: 5, offset: 24148},
+																pos: position{line: 753, col: 5, offset: 24086},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 754, col: 5, offset: 24148},
+																		pos:   position{line: 753, col: 5, offset: 24086},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 754, col: 16, offset: 24159},
+																			pos: position{line: 753, col: 16, offset: 24097},
 																			run: (*parser).callonDocumentFragment336,
 																			expr: &seqExpr{
-																				pos: position{line: 754, col: 16, offset: 24159},
+																				pos: position{line: 753, col: 16, offset: 24097},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 754, col: 16, offset: 24159},
+																						pos:        position{line: 753, col: 16, offset: 24097},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 754, col: 22, offset: 24165},
+																						pos: position{line: 753, col: 22, offset: 24103},
 																						expr: &litMatcher{
-																							pos:        position{line: 754, col: 22, offset: 24165},
+																							pos:        position{line: 753, col: 22, offset: 24103},
 																							val:        "`",
 																							ignoreCase: false,
 																							want:       "\"`\"",
@@ -5762,12 +5762,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 756, col: 8, offset: 24249},
+																		pos: position{line: 755, col: 8, offset: 24187},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90962},
+																			pos: position{line: 2872, col: 10, offset: 90900},
 																			run: (*parser).callonDocumentFragment342,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90962},
+																				pos:        position{line: 2872, col: 10, offset: 90900},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5776,28 +5776,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91360},
+																		pos: position{line: 2894, col: 8, offset: 91298},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91133},
+																				pos: position{line: 2881, col: 12, offset: 91071},
 																				run: (*parser).callonDocumentFragment345,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91134},
+																					pos: position{line: 2881, col: 13, offset: 91072},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91134},
+																							pos:        position{line: 2881, col: 13, offset: 91072},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91141},
+																							pos:        position{line: 2881, col: 20, offset: 91079},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91150},
+																							pos:        position{line: 2881, col: 29, offset: 91088},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5806,9 +5806,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91310},
+																				pos: position{line: 2891, col: 8, offset: 91248},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91311,
+																					line: 2891, col: 9, offset: 91249,
 																				},
 																			},
 																		},
@@ -5818,56 +5818,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 869, col: 5, offset: 27649},
+														pos: position{line: 868, col: 5, offset: 27587},
 														run: (*parser).callonDocumentFragment352,
 													},
 													&labeledExpr{
-														pos:   position{line: 872, col: 5, offset: 27741},
+														pos:   position{line: 871, col: 5, offset: 27679},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 887, col: 5, offset: 28131},
+															pos: position{line: 886, col: 5, offset: 28069},
 															expr: &actionExpr{
-																pos: position{line: 887, col: 6, offset: 28132},
+																pos: position{line: 886, col: 6, offset: 28070},
 																run: (*parser).callonDocumentFragment355,
 																expr: &seqExpr{
-																	pos: position{line: 887, col: 6, offset: 28132},
+																	pos: position{line: 886, col: 6, offset: 28070},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 887, col: 6, offset: 28132},
+																			pos: position{line: 886, col: 6, offset: 28070},
 																			expr: &choiceExpr{
-																				pos: position{line: 880, col: 5, offset: 27975},
+																				pos: position{line: 879, col: 5, offset: 27913},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 880, col: 5, offset: 27975},
+																						pos: position{line: 879, col: 5, offset: 27913},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 880, col: 5, offset: 27975},
+																								pos:   position{line: 879, col: 5, offset: 27913},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 754, col: 5, offset: 24148},
+																									pos: position{line: 753, col: 5, offset: 24086},
 																									run: (*parser).callonDocumentFragment361,
 																									expr: &seqExpr{
-																										pos: position{line: 754, col: 5, offset: 24148},
+																										pos: position{line: 753, col: 5, offset: 24086},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 754, col: 5, offset: 24148},
+																												pos:   position{line: 753, col: 5, offset: 24086},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 754, col: 16, offset: 24159},
+																													pos: position{line: 753, col: 16, offset: 24097},
 																													run: (*parser).callonDocumentFragment364,
 																													expr: &seqExpr{
-																														pos: position{line: 754, col: 16, offset: 24159},
+																														pos: position{line: 753, col: 16, offset: 24097},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 754, col: 16, offset: 24159},
+																																pos:        position{line: 753, col: 16, offset: 24097},
 																																val:        "```",
 																																ignoreCase: false,
 																																want:       "\"```\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 754, col: 22, offset: 24165},
+																																pos: position{line: 753, col: 22, offset: 24103},
 																																expr: &litMatcher{
-																																	pos:        position{line: 754, col: 22, offset: 24165},
+																																	pos:        position{line: 753, col: 22, offset: 24103},
 																																	val:        "`",
 																																	ignoreCase: false,
 																																	want:       "\"`\"",
@@ -5878,12 +5878,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 756, col: 8, offset: 24249},
+																												pos: position{line: 755, col: 8, offset: 24187},
 																												expr: &actionExpr{
-																													pos: position{line: 2873, col: 10, offset: 90962},
+																													pos: position{line: 2872, col: 10, offset: 90900},
 																													run: (*parser).callonDocumentFragment370,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2873, col: 10, offset: 90962},
+																														pos:        position{line: 2872, col: 10, offset: 90900},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5892,28 +5892,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2895, col: 8, offset: 91360},
+																												pos: position{line: 2894, col: 8, offset: 91298},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2882, col: 12, offset: 91133},
+																														pos: position{line: 2881, col: 12, offset: 91071},
 																														run: (*parser).callonDocumentFragment373,
 																														expr: &choiceExpr{
-																															pos: position{line: 2882, col: 13, offset: 91134},
+																															pos: position{line: 2881, col: 13, offset: 91072},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 13, offset: 91134},
+																																	pos:        position{line: 2881, col: 13, offset: 91072},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 20, offset: 91141},
+																																	pos:        position{line: 2881, col: 20, offset: 91079},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 29, offset: 91150},
+																																	pos:        position{line: 2881, col: 29, offset: 91088},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5922,9 +5922,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2892, col: 8, offset: 91310},
+																														pos: position{line: 2891, col: 8, offset: 91248},
 																														expr: &anyMatcher{
-																															line: 2892, col: 9, offset: 91311,
+																															line: 2891, col: 9, offset: 91249,
 																														},
 																													},
 																												},
@@ -5934,45 +5934,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 881, col: 5, offset: 28005},
+																								pos: position{line: 880, col: 5, offset: 27943},
 																								run: (*parser).callonDocumentFragment380,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91310},
+																						pos: position{line: 2891, col: 8, offset: 91248},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91311,
+																							line: 2891, col: 9, offset: 91249,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 888, col: 5, offset: 28161},
+																			pos:   position{line: 887, col: 5, offset: 28099},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26162},
+																				pos: position{line: 810, col: 5, offset: 26100},
 																				run: (*parser).callonDocumentFragment384,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26162},
+																					pos: position{line: 810, col: 5, offset: 26100},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2890, col: 11, offset: 91296},
+																							pos: position{line: 2889, col: 11, offset: 91234},
 																							expr: &anyMatcher{
-																								line: 2890, col: 13, offset: 91298,
+																								line: 2889, col: 13, offset: 91236,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26237},
+																							pos:   position{line: 811, col: 5, offset: 26175},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2819, col: 13, offset: 89488},
+																								pos: position{line: 2818, col: 13, offset: 89426},
 																								run: (*parser).callonDocumentFragment389,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2819, col: 13, offset: 89488},
+																									pos: position{line: 2818, col: 13, offset: 89426},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2819, col: 13, offset: 89488},
+																										pos:        position{line: 2818, col: 13, offset: 89426},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5982,28 +5982,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91360},
+																							pos: position{line: 2894, col: 8, offset: 91298},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91133},
+																									pos: position{line: 2881, col: 12, offset: 91071},
 																									run: (*parser).callonDocumentFragment393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91134},
+																										pos: position{line: 2881, col: 13, offset: 91072},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91134},
+																												pos:        position{line: 2881, col: 13, offset: 91072},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91141},
+																												pos:        position{line: 2881, col: 20, offset: 91079},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91150},
+																												pos:        position{line: 2881, col: 29, offset: 91088},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6012,9 +6012,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91310},
+																									pos: position{line: 2891, col: 8, offset: 91248},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91311,
+																										line: 2891, col: 9, offset: 91249,
 																									},
 																								},
 																							},
@@ -6029,44 +6029,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 873, col: 5, offset: 27774},
+														pos:   position{line: 872, col: 5, offset: 27712},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 873, col: 9, offset: 27778},
+															pos: position{line: 872, col: 9, offset: 27716},
 															expr: &choiceExpr{
-																pos: position{line: 880, col: 5, offset: 27975},
+																pos: position{line: 879, col: 5, offset: 27913},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 880, col: 5, offset: 27975},
+																		pos: position{line: 879, col: 5, offset: 27913},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 880, col: 5, offset: 27975},
+																				pos:   position{line: 879, col: 5, offset: 27913},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 754, col: 5, offset: 24148},
+																					pos: position{line: 753, col: 5, offset: 24086},
 																					run: (*parser).callonDocumentFragment405,
 																					expr: &seqExpr{
-																						pos: position{line: 754, col: 5, offset: 24148},
+																						pos: position{line: 753, col: 5, offset: 24086},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 754, col: 5, offset: 24148},
+																								pos:   position{line: 753, col: 5, offset: 24086},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 754, col: 16, offset: 24159},
+																									pos: position{line: 753, col: 16, offset: 24097},
 																									run: (*parser).callonDocumentFragment408,
 																									expr: &seqExpr{
-																										pos: position{line: 754, col: 16, offset: 24159},
+																										pos: position{line: 753, col: 16, offset: 24097},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 754, col: 16, offset: 24159},
+																												pos:        position{line: 753, col: 16, offset: 24097},
 																												val:        "```",
 																												ignoreCase: false,
 																												want:       "\"```\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 754, col: 22, offset: 24165},
+																												pos: position{line: 753, col: 22, offset: 24103},
 																												expr: &litMatcher{
-																													pos:        position{line: 754, col: 22, offset: 24165},
+																													pos:        position{line: 753, col: 22, offset: 24103},
 																													val:        "`",
 																													ignoreCase: false,
 																													want:       "\"`\"",
@@ -6077,12 +6077,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 756, col: 8, offset: 24249},
+																								pos: position{line: 755, col: 8, offset: 24187},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90962},
+																									pos: position{line: 2872, col: 10, offset: 90900},
 																									run: (*parser).callonDocumentFragment414,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90962},
+																										pos:        position{line: 2872, col: 10, offset: 90900},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6091,28 +6091,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91360},
+																								pos: position{line: 2894, col: 8, offset: 91298},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91133},
+																										pos: position{line: 2881, col: 12, offset: 91071},
 																										run: (*parser).callonDocumentFragment417,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91134},
+																											pos: position{line: 2881, col: 13, offset: 91072},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91134},
+																													pos:        position{line: 2881, col: 13, offset: 91072},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91141},
+																													pos:        position{line: 2881, col: 20, offset: 91079},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91150},
+																													pos:        position{line: 2881, col: 29, offset: 91088},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6121,9 +6121,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91310},
+																										pos: position{line: 2891, col: 8, offset: 91248},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91311,
+																											line: 2891, col: 9, offset: 91249,
 																										},
 																									},
 																								},
@@ -6133,15 +6133,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 881, col: 5, offset: 28005},
+																				pos: position{line: 880, col: 5, offset: 27943},
 																				run: (*parser).callonDocumentFragment424,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91310},
+																		pos: position{line: 2891, col: 8, offset: 91248},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91311,
+																			line: 2891, col: 9, offset: 91249,
 																		},
 																	},
 																},
@@ -6152,39 +6152,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 896, col: 5, offset: 28316},
+											pos: position{line: 895, col: 5, offset: 28254},
 											run: (*parser).callonDocumentFragment427,
 											expr: &seqExpr{
-												pos: position{line: 896, col: 5, offset: 28316},
+												pos: position{line: 895, col: 5, offset: 28254},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 896, col: 5, offset: 28316},
+														pos:   position{line: 895, col: 5, offset: 28254},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 769, col: 5, offset: 24690},
+															pos: position{line: 768, col: 5, offset: 24628},
 															run: (*parser).callonDocumentFragment430,
 															expr: &seqExpr{
-																pos: position{line: 769, col: 5, offset: 24690},
+																pos: position{line: 768, col: 5, offset: 24628},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 769, col: 5, offset: 24690},
+																		pos:   position{line: 768, col: 5, offset: 24628},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 769, col: 16, offset: 24701},
+																			pos: position{line: 768, col: 16, offset: 24639},
 																			run: (*parser).callonDocumentFragment433,
 																			expr: &seqExpr{
-																				pos: position{line: 769, col: 16, offset: 24701},
+																				pos: position{line: 768, col: 16, offset: 24639},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 769, col: 16, offset: 24701},
+																						pos:        position{line: 768, col: 16, offset: 24639},
 																						val:        "----",
 																						ignoreCase: false,
 																						want:       "\"----\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 769, col: 23, offset: 24708},
+																						pos: position{line: 768, col: 23, offset: 24646},
 																						expr: &litMatcher{
-																							pos:        position{line: 769, col: 23, offset: 24708},
+																							pos:        position{line: 768, col: 23, offset: 24646},
 																							val:        "-",
 																							ignoreCase: false,
 																							want:       "\"-\"",
@@ -6195,12 +6195,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 771, col: 8, offset: 24792},
+																		pos: position{line: 770, col: 8, offset: 24730},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90962},
+																			pos: position{line: 2872, col: 10, offset: 90900},
 																			run: (*parser).callonDocumentFragment439,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90962},
+																				pos:        position{line: 2872, col: 10, offset: 90900},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6209,28 +6209,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91360},
+																		pos: position{line: 2894, col: 8, offset: 91298},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91133},
+																				pos: position{line: 2881, col: 12, offset: 91071},
 																				run: (*parser).callonDocumentFragment442,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91134},
+																					pos: position{line: 2881, col: 13, offset: 91072},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91134},
+																							pos:        position{line: 2881, col: 13, offset: 91072},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91141},
+																							pos:        position{line: 2881, col: 20, offset: 91079},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91150},
+																							pos:        position{line: 2881, col: 29, offset: 91088},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6239,9 +6239,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91310},
+																				pos: position{line: 2891, col: 8, offset: 91248},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91311,
+																					line: 2891, col: 9, offset: 91249,
 																				},
 																			},
 																		},
@@ -6251,56 +6251,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 897, col: 5, offset: 28355},
+														pos: position{line: 896, col: 5, offset: 28293},
 														run: (*parser).callonDocumentFragment449,
 													},
 													&labeledExpr{
-														pos:   position{line: 900, col: 5, offset: 28447},
+														pos:   position{line: 899, col: 5, offset: 28385},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 915, col: 5, offset: 28845},
+															pos: position{line: 914, col: 5, offset: 28783},
 															expr: &actionExpr{
-																pos: position{line: 915, col: 6, offset: 28846},
+																pos: position{line: 914, col: 6, offset: 28784},
 																run: (*parser).callonDocumentFragment452,
 																expr: &seqExpr{
-																	pos: position{line: 915, col: 6, offset: 28846},
+																	pos: position{line: 914, col: 6, offset: 28784},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 915, col: 6, offset: 28846},
+																			pos: position{line: 914, col: 6, offset: 28784},
 																			expr: &choiceExpr{
-																				pos: position{line: 908, col: 5, offset: 28687},
+																				pos: position{line: 907, col: 5, offset: 28625},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 908, col: 5, offset: 28687},
+																						pos: position{line: 907, col: 5, offset: 28625},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 908, col: 5, offset: 28687},
+																								pos:   position{line: 907, col: 5, offset: 28625},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 769, col: 5, offset: 24690},
+																									pos: position{line: 768, col: 5, offset: 24628},
 																									run: (*parser).callonDocumentFragment458,
 																									expr: &seqExpr{
-																										pos: position{line: 769, col: 5, offset: 24690},
+																										pos: position{line: 768, col: 5, offset: 24628},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 769, col: 5, offset: 24690},
+																												pos:   position{line: 768, col: 5, offset: 24628},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 769, col: 16, offset: 24701},
+																													pos: position{line: 768, col: 16, offset: 24639},
 																													run: (*parser).callonDocumentFragment461,
 																													expr: &seqExpr{
-																														pos: position{line: 769, col: 16, offset: 24701},
+																														pos: position{line: 768, col: 16, offset: 24639},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 769, col: 16, offset: 24701},
+																																pos:        position{line: 768, col: 16, offset: 24639},
 																																val:        "----",
 																																ignoreCase: false,
 																																want:       "\"----\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 769, col: 23, offset: 24708},
+																																pos: position{line: 768, col: 23, offset: 24646},
 																																expr: &litMatcher{
-																																	pos:        position{line: 769, col: 23, offset: 24708},
+																																	pos:        position{line: 768, col: 23, offset: 24646},
 																																	val:        "-",
 																																	ignoreCase: false,
 																																	want:       "\"-\"",
@@ -6311,12 +6311,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 771, col: 8, offset: 24792},
+																												pos: position{line: 770, col: 8, offset: 24730},
 																												expr: &actionExpr{
-																													pos: position{line: 2873, col: 10, offset: 90962},
+																													pos: position{line: 2872, col: 10, offset: 90900},
 																													run: (*parser).callonDocumentFragment467,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2873, col: 10, offset: 90962},
+																														pos:        position{line: 2872, col: 10, offset: 90900},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6325,28 +6325,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2895, col: 8, offset: 91360},
+																												pos: position{line: 2894, col: 8, offset: 91298},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2882, col: 12, offset: 91133},
+																														pos: position{line: 2881, col: 12, offset: 91071},
 																														run: (*parser).callonDocumentFragment470,
 																														expr: &choiceExpr{
-																															pos: position{line: 2882, col: 13, offset: 91134},
+																															pos: position{line: 2881, col: 13, offset: 91072},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 13, offset: 91134},
+																																	pos:        position{line: 2881, col: 13, offset: 91072},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 20, offset: 91141},
+																																	pos:        position{line: 2881, col: 20, offset: 91079},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 29, offset: 91150},
+																																	pos:        position{line: 2881, col: 29, offset: 91088},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6355,9 +6355,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2892, col: 8, offset: 91310},
+																														pos: position{line: 2891, col: 8, offset: 91248},
 																														expr: &anyMatcher{
-																															line: 2892, col: 9, offset: 91311,
+																															line: 2891, col: 9, offset: 91249,
 																														},
 																													},
 																												},
@@ -6367,45 +6367,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 909, col: 5, offset: 28718},
+																								pos: position{line: 908, col: 5, offset: 28656},
 																								run: (*parser).callonDocumentFragment477,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91310},
+																						pos: position{line: 2891, col: 8, offset: 91248},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91311,
+																							line: 2891, col: 9, offset: 91249,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 916, col: 5, offset: 28876},
+																			pos:   position{line: 915, col: 5, offset: 28814},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26162},
+																				pos: position{line: 810, col: 5, offset: 26100},
 																				run: (*parser).callonDocumentFragment481,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26162},
+																					pos: position{line: 810, col: 5, offset: 26100},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2890, col: 11, offset: 91296},
+																							pos: position{line: 2889, col: 11, offset: 91234},
 																							expr: &anyMatcher{
-																								line: 2890, col: 13, offset: 91298,
+																								line: 2889, col: 13, offset: 91236,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26237},
+																							pos:   position{line: 811, col: 5, offset: 26175},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2819, col: 13, offset: 89488},
+																								pos: position{line: 2818, col: 13, offset: 89426},
 																								run: (*parser).callonDocumentFragment486,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2819, col: 13, offset: 89488},
+																									pos: position{line: 2818, col: 13, offset: 89426},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2819, col: 13, offset: 89488},
+																										pos:        position{line: 2818, col: 13, offset: 89426},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6415,28 +6415,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91360},
+																							pos: position{line: 2894, col: 8, offset: 91298},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91133},
+																									pos: position{line: 2881, col: 12, offset: 91071},
 																									run: (*parser).callonDocumentFragment490,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91134},
+																										pos: position{line: 2881, col: 13, offset: 91072},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91134},
+																												pos:        position{line: 2881, col: 13, offset: 91072},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91141},
+																												pos:        position{line: 2881, col: 20, offset: 91079},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91150},
+																												pos:        position{line: 2881, col: 29, offset: 91088},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6445,9 +6445,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91310},
+																									pos: position{line: 2891, col: 8, offset: 91248},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91311,
+																										line: 2891, col: 9, offset: 91249,
 																									},
 																								},
 																							},
@@ -6462,44 +6462,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 901, col: 5, offset: 28481},
+														pos:   position{line: 900, col: 5, offset: 28419},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 901, col: 9, offset: 28485},
+															pos: position{line: 900, col: 9, offset: 28423},
 															expr: &choiceExpr{
-																pos: position{line: 908, col: 5, offset: 28687},
+																pos: position{line: 907, col: 5, offset: 28625},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 908, col: 5, offset: 28687},
+																		pos: position{line: 907, col: 5, offset: 28625},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 908, col: 5, offset: 28687},
+																				pos:   position{line: 907, col: 5, offset: 28625},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 769, col: 5, offset: 24690},
+																					pos: position{line: 768, col: 5, offset: 24628},
 																					run: (*parser).callonDocumentFragment502,
 																					expr: &seqExpr{
-																						pos: position{line: 769, col: 5, offset: 24690},
+																						pos: position{line: 768, col: 5, offset: 24628},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 769, col: 5, offset: 24690},
+																								pos:   position{line: 768, col: 5, offset: 24628},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 769, col: 16, offset: 24701},
+																									pos: position{line: 768, col: 16, offset: 24639},
 																									run: (*parser).callonDocumentFragment505,
 																									expr: &seqExpr{
-																										pos: position{line: 769, col: 16, offset: 24701},
+																										pos: position{line: 768, col: 16, offset: 24639},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 769, col: 16, offset: 24701},
+																												pos:        position{line: 768, col: 16, offset: 24639},
 																												val:        "----",
 																												ignoreCase: false,
 																												want:       "\"----\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 769, col: 23, offset: 24708},
+																												pos: position{line: 768, col: 23, offset: 24646},
 																												expr: &litMatcher{
-																													pos:        position{line: 769, col: 23, offset: 24708},
+																													pos:        position{line: 768, col: 23, offset: 24646},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
@@ -6510,12 +6510,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 771, col: 8, offset: 24792},
+																								pos: position{line: 770, col: 8, offset: 24730},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90962},
+																									pos: position{line: 2872, col: 10, offset: 90900},
 																									run: (*parser).callonDocumentFragment511,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90962},
+																										pos:        position{line: 2872, col: 10, offset: 90900},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6524,28 +6524,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91360},
+																								pos: position{line: 2894, col: 8, offset: 91298},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91133},
+																										pos: position{line: 2881, col: 12, offset: 91071},
 																										run: (*parser).callonDocumentFragment514,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91134},
+																											pos: position{line: 2881, col: 13, offset: 91072},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91134},
+																													pos:        position{line: 2881, col: 13, offset: 91072},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91141},
+																													pos:        position{line: 2881, col: 20, offset: 91079},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91150},
+																													pos:        position{line: 2881, col: 29, offset: 91088},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6554,9 +6554,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91310},
+																										pos: position{line: 2891, col: 8, offset: 91248},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91311,
+																											line: 2891, col: 9, offset: 91249,
 																										},
 																									},
 																								},
@@ -6566,15 +6566,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 909, col: 5, offset: 28718},
+																				pos: position{line: 908, col: 5, offset: 28656},
 																				run: (*parser).callonDocumentFragment521,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91310},
+																		pos: position{line: 2891, col: 8, offset: 91248},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91311,
+																			line: 2891, col: 9, offset: 91249,
 																		},
 																	},
 																},
@@ -6585,39 +6585,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 924, col: 5, offset: 29031},
+											pos: position{line: 923, col: 5, offset: 28969},
 											run: (*parser).callonDocumentFragment524,
 											expr: &seqExpr{
-												pos: position{line: 924, col: 5, offset: 29031},
+												pos: position{line: 923, col: 5, offset: 28969},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 924, col: 5, offset: 29031},
+														pos:   position{line: 923, col: 5, offset: 28969},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 783, col: 5, offset: 25166},
+															pos: position{line: 782, col: 5, offset: 25104},
 															run: (*parser).callonDocumentFragment527,
 															expr: &seqExpr{
-																pos: position{line: 783, col: 5, offset: 25166},
+																pos: position{line: 782, col: 5, offset: 25104},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 783, col: 5, offset: 25166},
+																		pos:   position{line: 782, col: 5, offset: 25104},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 783, col: 16, offset: 25177},
+																			pos: position{line: 782, col: 16, offset: 25115},
 																			run: (*parser).callonDocumentFragment530,
 																			expr: &seqExpr{
-																				pos: position{line: 783, col: 16, offset: 25177},
+																				pos: position{line: 782, col: 16, offset: 25115},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 783, col: 16, offset: 25177},
+																						pos:        position{line: 782, col: 16, offset: 25115},
 																						val:        "....",
 																						ignoreCase: false,
 																						want:       "\"....\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 783, col: 23, offset: 25184},
+																						pos: position{line: 782, col: 23, offset: 25122},
 																						expr: &litMatcher{
-																							pos:        position{line: 783, col: 23, offset: 25184},
+																							pos:        position{line: 782, col: 23, offset: 25122},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -6628,12 +6628,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 785, col: 8, offset: 25268},
+																		pos: position{line: 784, col: 8, offset: 25206},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90962},
+																			pos: position{line: 2872, col: 10, offset: 90900},
 																			run: (*parser).callonDocumentFragment536,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90962},
+																				pos:        position{line: 2872, col: 10, offset: 90900},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6642,28 +6642,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91360},
+																		pos: position{line: 2894, col: 8, offset: 91298},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91133},
+																				pos: position{line: 2881, col: 12, offset: 91071},
 																				run: (*parser).callonDocumentFragment539,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91134},
+																					pos: position{line: 2881, col: 13, offset: 91072},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91134},
+																							pos:        position{line: 2881, col: 13, offset: 91072},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91141},
+																							pos:        position{line: 2881, col: 20, offset: 91079},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91150},
+																							pos:        position{line: 2881, col: 29, offset: 91088},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6672,9 +6672,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91310},
+																				pos: position{line: 2891, col: 8, offset: 91248},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91311,
+																					line: 2891, col: 9, offset: 91249,
 																				},
 																			},
 																		},
@@ -6684,56 +6684,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 925, col: 5, offset: 29070},
+														pos: position{line: 924, col: 5, offset: 29008},
 														run: (*parser).callonDocumentFragment546,
 													},
 													&labeledExpr{
-														pos:   position{line: 928, col: 5, offset: 29162},
+														pos:   position{line: 927, col: 5, offset: 29100},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 943, col: 5, offset: 29560},
+															pos: position{line: 942, col: 5, offset: 29498},
 															expr: &actionExpr{
-																pos: position{line: 943, col: 6, offset: 29561},
+																pos: position{line: 942, col: 6, offset: 29499},
 																run: (*parser).callonDocumentFragment549,
 																expr: &seqExpr{
-																	pos: position{line: 943, col: 6, offset: 29561},
+																	pos: position{line: 942, col: 6, offset: 29499},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 943, col: 6, offset: 29561},
+																			pos: position{line: 942, col: 6, offset: 29499},
 																			expr: &choiceExpr{
-																				pos: position{line: 936, col: 5, offset: 29402},
+																				pos: position{line: 935, col: 5, offset: 29340},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 936, col: 5, offset: 29402},
+																						pos: position{line: 935, col: 5, offset: 29340},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 936, col: 5, offset: 29402},
+																								pos:   position{line: 935, col: 5, offset: 29340},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 783, col: 5, offset: 25166},
+																									pos: position{line: 782, col: 5, offset: 25104},
 																									run: (*parser).callonDocumentFragment555,
 																									expr: &seqExpr{
-																										pos: position{line: 783, col: 5, offset: 25166},
+																										pos: position{line: 782, col: 5, offset: 25104},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 783, col: 5, offset: 25166},
+																												pos:   position{line: 782, col: 5, offset: 25104},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 783, col: 16, offset: 25177},
+																													pos: position{line: 782, col: 16, offset: 25115},
 																													run: (*parser).callonDocumentFragment558,
 																													expr: &seqExpr{
-																														pos: position{line: 783, col: 16, offset: 25177},
+																														pos: position{line: 782, col: 16, offset: 25115},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 783, col: 16, offset: 25177},
+																																pos:        position{line: 782, col: 16, offset: 25115},
 																																val:        "....",
 																																ignoreCase: false,
 																																want:       "\"....\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 783, col: 23, offset: 25184},
+																																pos: position{line: 782, col: 23, offset: 25122},
 																																expr: &litMatcher{
-																																	pos:        position{line: 783, col: 23, offset: 25184},
+																																	pos:        position{line: 782, col: 23, offset: 25122},
 																																	val:        ".",
 																																	ignoreCase: false,
 																																	want:       "\".\"",
@@ -6744,12 +6744,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 785, col: 8, offset: 25268},
+																												pos: position{line: 784, col: 8, offset: 25206},
 																												expr: &actionExpr{
-																													pos: position{line: 2873, col: 10, offset: 90962},
+																													pos: position{line: 2872, col: 10, offset: 90900},
 																													run: (*parser).callonDocumentFragment564,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2873, col: 10, offset: 90962},
+																														pos:        position{line: 2872, col: 10, offset: 90900},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6758,28 +6758,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2895, col: 8, offset: 91360},
+																												pos: position{line: 2894, col: 8, offset: 91298},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2882, col: 12, offset: 91133},
+																														pos: position{line: 2881, col: 12, offset: 91071},
 																														run: (*parser).callonDocumentFragment567,
 																														expr: &choiceExpr{
-																															pos: position{line: 2882, col: 13, offset: 91134},
+																															pos: position{line: 2881, col: 13, offset: 91072},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 13, offset: 91134},
+																																	pos:        position{line: 2881, col: 13, offset: 91072},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 20, offset: 91141},
+																																	pos:        position{line: 2881, col: 20, offset: 91079},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 29, offset: 91150},
+																																	pos:        position{line: 2881, col: 29, offset: 91088},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6788,9 +6788,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2892, col: 8, offset: 91310},
+																														pos: position{line: 2891, col: 8, offset: 91248},
 																														expr: &anyMatcher{
-																															line: 2892, col: 9, offset: 91311,
+																															line: 2891, col: 9, offset: 91249,
 																														},
 																													},
 																												},
@@ -6800,45 +6800,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 937, col: 5, offset: 29433},
+																								pos: position{line: 936, col: 5, offset: 29371},
 																								run: (*parser).callonDocumentFragment574,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91310},
+																						pos: position{line: 2891, col: 8, offset: 91248},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91311,
+																							line: 2891, col: 9, offset: 91249,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 944, col: 5, offset: 29591},
+																			pos:   position{line: 943, col: 5, offset: 29529},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26162},
+																				pos: position{line: 810, col: 5, offset: 26100},
 																				run: (*parser).callonDocumentFragment578,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26162},
+																					pos: position{line: 810, col: 5, offset: 26100},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2890, col: 11, offset: 91296},
+																							pos: position{line: 2889, col: 11, offset: 91234},
 																							expr: &anyMatcher{
-																								line: 2890, col: 13, offset: 91298,
+																								line: 2889, col: 13, offset: 91236,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26237},
+																							pos:   position{line: 811, col: 5, offset: 26175},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2819, col: 13, offset: 89488},
+																								pos: position{line: 2818, col: 13, offset: 89426},
 																								run: (*parser).callonDocumentFragment583,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2819, col: 13, offset: 89488},
+																									pos: position{line: 2818, col: 13, offset: 89426},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2819, col: 13, offset: 89488},
+																										pos:        position{line: 2818, col: 13, offset: 89426},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6848,28 +6848,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91360},
+																							pos: position{line: 2894, col: 8, offset: 91298},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91133},
+																									pos: position{line: 2881, col: 12, offset: 91071},
 																									run: (*parser).callonDocumentFragment587,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91134},
+																										pos: position{line: 2881, col: 13, offset: 91072},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91134},
+																												pos:        position{line: 2881, col: 13, offset: 91072},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91141},
+																												pos:        position{line: 2881, col: 20, offset: 91079},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91150},
+																												pos:        position{line: 2881, col: 29, offset: 91088},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6878,9 +6878,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91310},
+																									pos: position{line: 2891, col: 8, offset: 91248},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91311,
+																										line: 2891, col: 9, offset: 91249,
 																									},
 																								},
 																							},
@@ -6895,44 +6895,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 929, col: 5, offset: 29196},
+														pos:   position{line: 928, col: 5, offset: 29134},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 929, col: 9, offset: 29200},
+															pos: position{line: 928, col: 9, offset: 29138},
 															expr: &choiceExpr{
-																pos: position{line: 936, col: 5, offset: 29402},
+																pos: position{line: 935, col: 5, offset: 29340},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 936, col: 5, offset: 29402},
+																		pos: position{line: 935, col: 5, offset: 29340},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 936, col: 5, offset: 29402},
+																				pos:   position{line: 935, col: 5, offset: 29340},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 783, col: 5, offset: 25166},
+																					pos: position{line: 782, col: 5, offset: 25104},
 																					run: (*parser).callonDocumentFragment599,
 																					expr: &seqExpr{
-																						pos: position{line: 783, col: 5, offset: 25166},
+																						pos: position{line: 782, col: 5, offset: 25104},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 783, col: 5, offset: 25166},
+																								pos:   position{line: 782, col: 5, offset: 25104},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 783, col: 16, offset: 25177},
+																									pos: position{line: 782, col: 16, offset: 25115},
 																									run: (*parser).callonDocumentFragment602,
 																									expr: &seqExpr{
-																										pos: position{line: 783, col: 16, offset: 25177},
+																										pos: position{line: 782, col: 16, offset: 25115},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 783, col: 16, offset: 25177},
+																												pos:        position{line: 782, col: 16, offset: 25115},
 																												val:        "....",
 																												ignoreCase: false,
 																												want:       "\"....\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 783, col: 23, offset: 25184},
+																												pos: position{line: 782, col: 23, offset: 25122},
 																												expr: &litMatcher{
-																													pos:        position{line: 783, col: 23, offset: 25184},
+																													pos:        position{line: 782, col: 23, offset: 25122},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -6943,12 +6943,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 785, col: 8, offset: 25268},
+																								pos: position{line: 784, col: 8, offset: 25206},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90962},
+																									pos: position{line: 2872, col: 10, offset: 90900},
 																									run: (*parser).callonDocumentFragment608,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90962},
+																										pos:        position{line: 2872, col: 10, offset: 90900},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6957,28 +6957,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91360},
+																								pos: position{line: 2894, col: 8, offset: 91298},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91133},
+																										pos: position{line: 2881, col: 12, offset: 91071},
 																										run: (*parser).callonDocumentFragment611,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91134},
+																											pos: position{line: 2881, col: 13, offset: 91072},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91134},
+																													pos:        position{line: 2881, col: 13, offset: 91072},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91141},
+																													pos:        position{line: 2881, col: 20, offset: 91079},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91150},
+																													pos:        position{line: 2881, col: 29, offset: 91088},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6987,9 +6987,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91310},
+																										pos: position{line: 2891, col: 8, offset: 91248},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91311,
+																											line: 2891, col: 9, offset: 91249,
 																										},
 																									},
 																								},
@@ -6999,15 +6999,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 937, col: 5, offset: 29433},
+																				pos: position{line: 936, col: 5, offset: 29371},
 																				run: (*parser).callonDocumentFragment618,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91310},
+																		pos: position{line: 2891, col: 8, offset: 91248},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91311,
+																			line: 2891, col: 9, offset: 91249,
 																		},
 																	},
 																},
@@ -7018,41 +7018,41 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 975, col: 5, offset: 30474},
+											pos: position{line: 974, col: 5, offset: 30412},
 											run: (*parser).callonDocumentFragment621,
 											expr: &seqExpr{
-												pos: position{line: 975, col: 5, offset: 30474},
+												pos: position{line: 974, col: 5, offset: 30412},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 975, col: 5, offset: 30474},
+														pos:   position{line: 974, col: 5, offset: 30412},
 														label: "firstLine",
 														expr: &actionExpr{
-															pos: position{line: 982, col: 5, offset: 30733},
+															pos: position{line: 981, col: 5, offset: 30671},
 															run: (*parser).callonDocumentFragment624,
 															expr: &seqExpr{
-																pos: position{line: 982, col: 5, offset: 30733},
+																pos: position{line: 981, col: 5, offset: 30671},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 982, col: 5, offset: 30733},
+																		pos: position{line: 981, col: 5, offset: 30671},
 																		expr: &actionExpr{
-																			pos: position{line: 677, col: 14, offset: 21558},
+																			pos: position{line: 676, col: 14, offset: 21496},
 																			run: (*parser).callonDocumentFragment627,
 																			expr: &seqExpr{
-																				pos: position{line: 677, col: 14, offset: 21558},
+																				pos: position{line: 676, col: 14, offset: 21496},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2890, col: 11, offset: 91296},
+																						pos: position{line: 2889, col: 11, offset: 91234},
 																						expr: &anyMatcher{
-																							line: 2890, col: 13, offset: 91298,
+																							line: 2889, col: 13, offset: 91236,
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 677, col: 21, offset: 21565},
+																						pos: position{line: 676, col: 21, offset: 21503},
 																						expr: &actionExpr{
-																							pos: position{line: 2873, col: 10, offset: 90962},
+																							pos: position{line: 2872, col: 10, offset: 90900},
 																							run: (*parser).callonDocumentFragment632,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2873, col: 10, offset: 90962},
+																								pos:        position{line: 2872, col: 10, offset: 90900},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -7061,28 +7061,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91360},
+																						pos: position{line: 2894, col: 8, offset: 91298},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 91133},
+																								pos: position{line: 2881, col: 12, offset: 91071},
 																								run: (*parser).callonDocumentFragment635,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 91134},
+																									pos: position{line: 2881, col: 13, offset: 91072},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 91134},
+																											pos:        position{line: 2881, col: 13, offset: 91072},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 91141},
+																											pos:        position{line: 2881, col: 20, offset: 91079},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 91150},
+																											pos:        position{line: 2881, col: 29, offset: 91088},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -7091,9 +7091,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91310},
+																								pos: position{line: 2891, col: 8, offset: 91248},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91311,
+																									line: 2891, col: 9, offset: 91249,
 																								},
 																							},
 																						},
@@ -7103,21 +7103,21 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 983, col: 5, offset: 30748},
+																		pos:        position{line: 982, col: 5, offset: 30686},
 																		val:        "> ",
 																		ignoreCase: false,
 																		want:       "\"> \"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 984, col: 5, offset: 30758},
+																		pos:   position{line: 983, col: 5, offset: 30696},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2823, col: 14, offset: 89555},
+																			pos: position{line: 2822, col: 14, offset: 89493},
 																			run: (*parser).callonDocumentFragment644,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2823, col: 14, offset: 89555},
+																				pos: position{line: 2822, col: 14, offset: 89493},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2823, col: 14, offset: 89555},
+																					pos:        position{line: 2822, col: 14, offset: 89493},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -7127,28 +7127,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91360},
+																		pos: position{line: 2894, col: 8, offset: 91298},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91133},
+																				pos: position{line: 2881, col: 12, offset: 91071},
 																				run: (*parser).callonDocumentFragment648,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91134},
+																					pos: position{line: 2881, col: 13, offset: 91072},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91134},
+																							pos:        position{line: 2881, col: 13, offset: 91072},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91141},
+																							pos:        position{line: 2881, col: 20, offset: 91079},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91150},
+																							pos:        position{line: 2881, col: 29, offset: 91088},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7157,9 +7157,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91310},
+																				pos: position{line: 2891, col: 8, offset: 91248},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91311,
+																					line: 2891, col: 9, offset: 91249,
 																				},
 																			},
 																		},
@@ -7169,40 +7169,40 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 976, col: 5, offset: 30511},
+														pos:   position{line: 975, col: 5, offset: 30449},
 														label: "otherLines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 976, col: 16, offset: 30522},
+															pos: position{line: 975, col: 16, offset: 30460},
 															expr: &choiceExpr{
-																pos: position{line: 976, col: 17, offset: 30523},
+																pos: position{line: 975, col: 17, offset: 30461},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 982, col: 5, offset: 30733},
+																		pos: position{line: 981, col: 5, offset: 30671},
 																		run: (*parser).callonDocumentFragment658,
 																		expr: &seqExpr{
-																			pos: position{line: 982, col: 5, offset: 30733},
+																			pos: position{line: 981, col: 5, offset: 30671},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 982, col: 5, offset: 30733},
+																					pos: position{line: 981, col: 5, offset: 30671},
 																					expr: &actionExpr{
-																						pos: position{line: 677, col: 14, offset: 21558},
+																						pos: position{line: 676, col: 14, offset: 21496},
 																						run: (*parser).callonDocumentFragment661,
 																						expr: &seqExpr{
-																							pos: position{line: 677, col: 14, offset: 21558},
+																							pos: position{line: 676, col: 14, offset: 21496},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2890, col: 11, offset: 91296},
+																									pos: position{line: 2889, col: 11, offset: 91234},
 																									expr: &anyMatcher{
-																										line: 2890, col: 13, offset: 91298,
+																										line: 2889, col: 13, offset: 91236,
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 677, col: 21, offset: 21565},
+																									pos: position{line: 676, col: 21, offset: 21503},
 																									expr: &actionExpr{
-																										pos: position{line: 2873, col: 10, offset: 90962},
+																										pos: position{line: 2872, col: 10, offset: 90900},
 																										run: (*parser).callonDocumentFragment666,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2873, col: 10, offset: 90962},
+																											pos:        position{line: 2872, col: 10, offset: 90900},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7211,28 +7211,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2895, col: 8, offset: 91360},
+																									pos: position{line: 2894, col: 8, offset: 91298},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2882, col: 12, offset: 91133},
+																											pos: position{line: 2881, col: 12, offset: 91071},
 																											run: (*parser).callonDocumentFragment669,
 																											expr: &choiceExpr{
-																												pos: position{line: 2882, col: 13, offset: 91134},
+																												pos: position{line: 2881, col: 13, offset: 91072},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 13, offset: 91134},
+																														pos:        position{line: 2881, col: 13, offset: 91072},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 20, offset: 91141},
+																														pos:        position{line: 2881, col: 20, offset: 91079},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 29, offset: 91150},
+																														pos:        position{line: 2881, col: 29, offset: 91088},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7241,9 +7241,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2892, col: 8, offset: 91310},
+																											pos: position{line: 2891, col: 8, offset: 91248},
 																											expr: &anyMatcher{
-																												line: 2892, col: 9, offset: 91311,
+																												line: 2891, col: 9, offset: 91249,
 																											},
 																										},
 																									},
@@ -7253,21 +7253,21 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 983, col: 5, offset: 30748},
+																					pos:        position{line: 982, col: 5, offset: 30686},
 																					val:        "> ",
 																					ignoreCase: false,
 																					want:       "\"> \"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 984, col: 5, offset: 30758},
+																					pos:   position{line: 983, col: 5, offset: 30696},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2823, col: 14, offset: 89555},
+																						pos: position{line: 2822, col: 14, offset: 89493},
 																						run: (*parser).callonDocumentFragment678,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2823, col: 14, offset: 89555},
+																							pos: position{line: 2822, col: 14, offset: 89493},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2823, col: 14, offset: 89555},
+																								pos:        position{line: 2822, col: 14, offset: 89493},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7277,28 +7277,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2895, col: 8, offset: 91360},
+																					pos: position{line: 2894, col: 8, offset: 91298},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2882, col: 12, offset: 91133},
+																							pos: position{line: 2881, col: 12, offset: 91071},
 																							run: (*parser).callonDocumentFragment682,
 																							expr: &choiceExpr{
-																								pos: position{line: 2882, col: 13, offset: 91134},
+																								pos: position{line: 2881, col: 13, offset: 91072},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 91134},
+																										pos:        position{line: 2881, col: 13, offset: 91072},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 20, offset: 91141},
+																										pos:        position{line: 2881, col: 20, offset: 91079},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 29, offset: 91150},
+																										pos:        position{line: 2881, col: 29, offset: 91088},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7307,9 +7307,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2892, col: 8, offset: 91310},
+																							pos: position{line: 2891, col: 8, offset: 91248},
 																							expr: &anyMatcher{
-																								line: 2892, col: 9, offset: 91311,
+																								line: 2891, col: 9, offset: 91249,
 																							},
 																						},
 																					},
@@ -7318,21 +7318,21 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 1792, col: 5, offset: 58036},
+																		pos: position{line: 1791, col: 5, offset: 57974},
 																		run: (*parser).callonDocumentFragment689,
 																		expr: &seqExpr{
-																			pos: position{line: 1792, col: 5, offset: 58036},
+																			pos: position{line: 1791, col: 5, offset: 57974},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1792, col: 5, offset: 58036},
+																					pos:   position{line: 1791, col: 5, offset: 57974},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2823, col: 14, offset: 89555},
+																						pos: position{line: 2822, col: 14, offset: 89493},
 																						run: (*parser).callonDocumentFragment692,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2823, col: 14, offset: 89555},
+																							pos: position{line: 2822, col: 14, offset: 89493},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2823, col: 14, offset: 89555},
+																								pos:        position{line: 2822, col: 14, offset: 89493},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7342,32 +7342,32 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1793, col: 5, offset: 58060},
+																					pos: position{line: 1792, col: 5, offset: 57998},
 																					run: (*parser).callonDocumentFragment695,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2895, col: 8, offset: 91360},
+																					pos: position{line: 2894, col: 8, offset: 91298},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2882, col: 12, offset: 91133},
+																							pos: position{line: 2881, col: 12, offset: 91071},
 																							run: (*parser).callonDocumentFragment697,
 																							expr: &choiceExpr{
-																								pos: position{line: 2882, col: 13, offset: 91134},
+																								pos: position{line: 2881, col: 13, offset: 91072},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 91134},
+																										pos:        position{line: 2881, col: 13, offset: 91072},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 20, offset: 91141},
+																										pos:        position{line: 2881, col: 20, offset: 91079},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 29, offset: 91150},
+																										pos:        position{line: 2881, col: 29, offset: 91088},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7376,9 +7376,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2892, col: 8, offset: 91310},
+																							pos: position{line: 2891, col: 8, offset: 91248},
 																							expr: &anyMatcher{
-																								line: 2892, col: 9, offset: 91311,
+																								line: 2891, col: 9, offset: 91249,
 																							},
 																						},
 																					},
@@ -7394,28 +7394,28 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 997, col: 5, offset: 31023},
+											pos: position{line: 996, col: 5, offset: 30961},
 											run: (*parser).callonDocumentFragment704,
 											expr: &seqExpr{
-												pos: position{line: 997, col: 5, offset: 31023},
+												pos: position{line: 996, col: 5, offset: 30961},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 997, col: 5, offset: 31023},
+														pos:   position{line: 996, col: 5, offset: 30961},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 776, col: 5, offset: 24935},
+															pos: position{line: 775, col: 5, offset: 24873},
 															run: (*parser).callonDocumentFragment707,
 															expr: &seqExpr{
-																pos: position{line: 776, col: 5, offset: 24935},
+																pos: position{line: 775, col: 5, offset: 24873},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 776, col: 5, offset: 24935},
+																		pos:   position{line: 775, col: 5, offset: 24873},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 776, col: 16, offset: 24946},
+																			pos: position{line: 775, col: 16, offset: 24884},
 																			run: (*parser).callonDocumentFragment710,
 																			expr: &litMatcher{
-																				pos:        position{line: 776, col: 16, offset: 24946},
+																				pos:        position{line: 775, col: 16, offset: 24884},
 																				val:        "--",
 																				ignoreCase: false,
 																				want:       "\"--\"",
@@ -7423,12 +7423,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 778, col: 8, offset: 25023},
+																		pos: position{line: 777, col: 8, offset: 24961},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90962},
+																			pos: position{line: 2872, col: 10, offset: 90900},
 																			run: (*parser).callonDocumentFragment713,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90962},
+																				pos:        position{line: 2872, col: 10, offset: 90900},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7437,28 +7437,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91360},
+																		pos: position{line: 2894, col: 8, offset: 91298},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91133},
+																				pos: position{line: 2881, col: 12, offset: 91071},
 																				run: (*parser).callonDocumentFragment716,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91134},
+																					pos: position{line: 2881, col: 13, offset: 91072},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91134},
+																							pos:        position{line: 2881, col: 13, offset: 91072},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91141},
+																							pos:        position{line: 2881, col: 20, offset: 91079},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91150},
+																							pos:        position{line: 2881, col: 29, offset: 91088},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7467,9 +7467,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91310},
+																				pos: position{line: 2891, col: 8, offset: 91248},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91311,
+																					line: 2891, col: 9, offset: 91249,
 																				},
 																			},
 																		},
@@ -7479,35 +7479,35 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 998, col: 5, offset: 31059},
+														pos:   position{line: 997, col: 5, offset: 30997},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1008, col: 5, offset: 31327},
+															pos: position{line: 1007, col: 5, offset: 31265},
 															expr: &actionExpr{
-																pos: position{line: 1008, col: 6, offset: 31328},
+																pos: position{line: 1007, col: 6, offset: 31266},
 																run: (*parser).callonDocumentFragment725,
 																expr: &seqExpr{
-																	pos: position{line: 1008, col: 6, offset: 31328},
+																	pos: position{line: 1007, col: 6, offset: 31266},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1008, col: 6, offset: 31328},
+																			pos: position{line: 1007, col: 6, offset: 31266},
 																			expr: &choiceExpr{
-																				pos: position{line: 1005, col: 26, offset: 31276},
+																				pos: position{line: 1004, col: 26, offset: 31214},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 776, col: 5, offset: 24935},
+																						pos: position{line: 775, col: 5, offset: 24873},
 																						run: (*parser).callonDocumentFragment729,
 																						expr: &seqExpr{
-																							pos: position{line: 776, col: 5, offset: 24935},
+																							pos: position{line: 775, col: 5, offset: 24873},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 776, col: 5, offset: 24935},
+																									pos:   position{line: 775, col: 5, offset: 24873},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 776, col: 16, offset: 24946},
+																										pos: position{line: 775, col: 16, offset: 24884},
 																										run: (*parser).callonDocumentFragment732,
 																										expr: &litMatcher{
-																											pos:        position{line: 776, col: 16, offset: 24946},
+																											pos:        position{line: 775, col: 16, offset: 24884},
 																											val:        "--",
 																											ignoreCase: false,
 																											want:       "\"--\"",
@@ -7515,12 +7515,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 778, col: 8, offset: 25023},
+																									pos: position{line: 777, col: 8, offset: 24961},
 																									expr: &actionExpr{
-																										pos: position{line: 2873, col: 10, offset: 90962},
+																										pos: position{line: 2872, col: 10, offset: 90900},
 																										run: (*parser).callonDocumentFragment735,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2873, col: 10, offset: 90962},
+																											pos:        position{line: 2872, col: 10, offset: 90900},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7529,28 +7529,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2895, col: 8, offset: 91360},
+																									pos: position{line: 2894, col: 8, offset: 91298},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2882, col: 12, offset: 91133},
+																											pos: position{line: 2881, col: 12, offset: 91071},
 																											run: (*parser).callonDocumentFragment738,
 																											expr: &choiceExpr{
-																												pos: position{line: 2882, col: 13, offset: 91134},
+																												pos: position{line: 2881, col: 13, offset: 91072},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 13, offset: 91134},
+																														pos:        position{line: 2881, col: 13, offset: 91072},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 20, offset: 91141},
+																														pos:        position{line: 2881, col: 20, offset: 91079},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 29, offset: 91150},
+																														pos:        position{line: 2881, col: 29, offset: 91088},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7559,9 +7559,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2892, col: 8, offset: 91310},
+																											pos: position{line: 2891, col: 8, offset: 91248},
 																											expr: &anyMatcher{
-																												line: 2892, col: 9, offset: 91311,
+																												line: 2891, col: 9, offset: 91249,
 																											},
 																										},
 																									},
@@ -7570,39 +7570,39 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91310},
+																						pos: position{line: 2891, col: 8, offset: 91248},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91311,
+																							line: 2891, col: 9, offset: 91249,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1009, col: 5, offset: 31355},
+																			pos:   position{line: 1008, col: 5, offset: 31293},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26162},
+																				pos: position{line: 810, col: 5, offset: 26100},
 																				run: (*parser).callonDocumentFragment748,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26162},
+																					pos: position{line: 810, col: 5, offset: 26100},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2890, col: 11, offset: 91296},
+																							pos: position{line: 2889, col: 11, offset: 91234},
 																							expr: &anyMatcher{
-																								line: 2890, col: 13, offset: 91298,
+																								line: 2889, col: 13, offset: 91236,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26237},
+																							pos:   position{line: 811, col: 5, offset: 26175},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2819, col: 13, offset: 89488},
+																								pos: position{line: 2818, col: 13, offset: 89426},
 																								run: (*parser).callonDocumentFragment753,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2819, col: 13, offset: 89488},
+																									pos: position{line: 2818, col: 13, offset: 89426},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2819, col: 13, offset: 89488},
+																										pos:        position{line: 2818, col: 13, offset: 89426},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7612,28 +7612,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91360},
+																							pos: position{line: 2894, col: 8, offset: 91298},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91133},
+																									pos: position{line: 2881, col: 12, offset: 91071},
 																									run: (*parser).callonDocumentFragment757,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91134},
+																										pos: position{line: 2881, col: 13, offset: 91072},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91134},
+																												pos:        position{line: 2881, col: 13, offset: 91072},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91141},
+																												pos:        position{line: 2881, col: 20, offset: 91079},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91150},
+																												pos:        position{line: 2881, col: 29, offset: 91088},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7642,9 +7642,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91310},
+																									pos: position{line: 2891, col: 8, offset: 91248},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91311,
+																										line: 2891, col: 9, offset: 91249,
 																									},
 																								},
 																							},
@@ -7659,27 +7659,27 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 999, col: 5, offset: 31090},
+														pos:   position{line: 998, col: 5, offset: 31028},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 999, col: 9, offset: 31094},
+															pos: position{line: 998, col: 9, offset: 31032},
 															expr: &choiceExpr{
-																pos: position{line: 1005, col: 26, offset: 31276},
+																pos: position{line: 1004, col: 26, offset: 31214},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 776, col: 5, offset: 24935},
+																		pos: position{line: 775, col: 5, offset: 24873},
 																		run: (*parser).callonDocumentFragment767,
 																		expr: &seqExpr{
-																			pos: position{line: 776, col: 5, offset: 24935},
+																			pos: position{line: 775, col: 5, offset: 24873},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 776, col: 5, offset: 24935},
+																					pos:   position{line: 775, col: 5, offset: 24873},
 																					label: "delimiter",
 																					expr: &actionExpr{
-																						pos: position{line: 776, col: 16, offset: 24946},
+																						pos: position{line: 775, col: 16, offset: 24884},
 																						run: (*parser).callonDocumentFragment770,
 																						expr: &litMatcher{
-																							pos:        position{line: 776, col: 16, offset: 24946},
+																							pos:        position{line: 775, col: 16, offset: 24884},
 																							val:        "--",
 																							ignoreCase: false,
 																							want:       "\"--\"",
@@ -7687,12 +7687,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 778, col: 8, offset: 25023},
+																					pos: position{line: 777, col: 8, offset: 24961},
 																					expr: &actionExpr{
-																						pos: position{line: 2873, col: 10, offset: 90962},
+																						pos: position{line: 2872, col: 10, offset: 90900},
 																						run: (*parser).callonDocumentFragment773,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2873, col: 10, offset: 90962},
+																							pos:        position{line: 2872, col: 10, offset: 90900},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7701,28 +7701,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2895, col: 8, offset: 91360},
+																					pos: position{line: 2894, col: 8, offset: 91298},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2882, col: 12, offset: 91133},
+																							pos: position{line: 2881, col: 12, offset: 91071},
 																							run: (*parser).callonDocumentFragment776,
 																							expr: &choiceExpr{
-																								pos: position{line: 2882, col: 13, offset: 91134},
+																								pos: position{line: 2881, col: 13, offset: 91072},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 91134},
+																										pos:        position{line: 2881, col: 13, offset: 91072},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 20, offset: 91141},
+																										pos:        position{line: 2881, col: 20, offset: 91079},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 29, offset: 91150},
+																										pos:        position{line: 2881, col: 29, offset: 91088},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7731,9 +7731,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2892, col: 8, offset: 91310},
+																							pos: position{line: 2891, col: 8, offset: 91248},
 																							expr: &anyMatcher{
-																								line: 2892, col: 9, offset: 91311,
+																								line: 2891, col: 9, offset: 91249,
 																							},
 																						},
 																					},
@@ -7742,9 +7742,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91310},
+																		pos: position{line: 2891, col: 8, offset: 91248},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91311,
+																			line: 2891, col: 9, offset: 91249,
 																		},
 																	},
 																},
@@ -7755,39 +7755,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1017, col: 5, offset: 31518},
+											pos: position{line: 1016, col: 5, offset: 31456},
 											run: (*parser).callonDocumentFragment785,
 											expr: &seqExpr{
-												pos: position{line: 1017, col: 5, offset: 31518},
+												pos: position{line: 1016, col: 5, offset: 31456},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1017, col: 5, offset: 31518},
+														pos:   position{line: 1016, col: 5, offset: 31456},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 790, col: 5, offset: 25418},
+															pos: position{line: 789, col: 5, offset: 25356},
 															run: (*parser).callonDocumentFragment788,
 															expr: &seqExpr{
-																pos: position{line: 790, col: 5, offset: 25418},
+																pos: position{line: 789, col: 5, offset: 25356},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 790, col: 5, offset: 25418},
+																		pos:   position{line: 789, col: 5, offset: 25356},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 790, col: 16, offset: 25429},
+																			pos: position{line: 789, col: 16, offset: 25367},
 																			run: (*parser).callonDocumentFragment791,
 																			expr: &seqExpr{
-																				pos: position{line: 790, col: 16, offset: 25429},
+																				pos: position{line: 789, col: 16, offset: 25367},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 790, col: 16, offset: 25429},
+																						pos:        position{line: 789, col: 16, offset: 25367},
 																						val:        "++++",
 																						ignoreCase: false,
 																						want:       "\"++++\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 790, col: 23, offset: 25436},
+																						pos: position{line: 789, col: 23, offset: 25374},
 																						expr: &litMatcher{
-																							pos:        position{line: 790, col: 23, offset: 25436},
+																							pos:        position{line: 789, col: 23, offset: 25374},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
@@ -7798,12 +7798,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 792, col: 8, offset: 25520},
+																		pos: position{line: 791, col: 8, offset: 25458},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90962},
+																			pos: position{line: 2872, col: 10, offset: 90900},
 																			run: (*parser).callonDocumentFragment797,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90962},
+																				pos:        position{line: 2872, col: 10, offset: 90900},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7812,28 +7812,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91360},
+																		pos: position{line: 2894, col: 8, offset: 91298},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91133},
+																				pos: position{line: 2881, col: 12, offset: 91071},
 																				run: (*parser).callonDocumentFragment800,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91134},
+																					pos: position{line: 2881, col: 13, offset: 91072},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91134},
+																							pos:        position{line: 2881, col: 13, offset: 91072},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91141},
+																							pos:        position{line: 2881, col: 20, offset: 91079},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91150},
+																							pos:        position{line: 2881, col: 29, offset: 91088},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7842,9 +7842,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91310},
+																				pos: position{line: 2891, col: 8, offset: 91248},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91311,
+																					line: 2891, col: 9, offset: 91249,
 																				},
 																			},
 																		},
@@ -7854,56 +7854,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1018, col: 5, offset: 31561},
+														pos: position{line: 1017, col: 5, offset: 31499},
 														run: (*parser).callonDocumentFragment807,
 													},
 													&labeledExpr{
-														pos:   position{line: 1021, col: 5, offset: 31653},
+														pos:   position{line: 1020, col: 5, offset: 31591},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1036, col: 5, offset: 32083},
+															pos: position{line: 1035, col: 5, offset: 32021},
 															expr: &actionExpr{
-																pos: position{line: 1036, col: 6, offset: 32084},
+																pos: position{line: 1035, col: 6, offset: 32022},
 																run: (*parser).callonDocumentFragment810,
 																expr: &seqExpr{
-																	pos: position{line: 1036, col: 6, offset: 32084},
+																	pos: position{line: 1035, col: 6, offset: 32022},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1036, col: 6, offset: 32084},
+																			pos: position{line: 1035, col: 6, offset: 32022},
 																			expr: &choiceExpr{
-																				pos: position{line: 1029, col: 5, offset: 31917},
+																				pos: position{line: 1028, col: 5, offset: 31855},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1029, col: 5, offset: 31917},
+																						pos: position{line: 1028, col: 5, offset: 31855},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1029, col: 5, offset: 31917},
+																								pos:   position{line: 1028, col: 5, offset: 31855},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 790, col: 5, offset: 25418},
+																									pos: position{line: 789, col: 5, offset: 25356},
 																									run: (*parser).callonDocumentFragment816,
 																									expr: &seqExpr{
-																										pos: position{line: 790, col: 5, offset: 25418},
+																										pos: position{line: 789, col: 5, offset: 25356},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 790, col: 5, offset: 25418},
+																												pos:   position{line: 789, col: 5, offset: 25356},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 790, col: 16, offset: 25429},
+																													pos: position{line: 789, col: 16, offset: 25367},
 																													run: (*parser).callonDocumentFragment819,
 																													expr: &seqExpr{
-																														pos: position{line: 790, col: 16, offset: 25429},
+																														pos: position{line: 789, col: 16, offset: 25367},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 790, col: 16, offset: 25429},
+																																pos:        position{line: 789, col: 16, offset: 25367},
 																																val:        "++++",
 																																ignoreCase: false,
 																																want:       "\"++++\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 790, col: 23, offset: 25436},
+																																pos: position{line: 789, col: 23, offset: 25374},
 																																expr: &litMatcher{
-																																	pos:        position{line: 790, col: 23, offset: 25436},
+																																	pos:        position{line: 789, col: 23, offset: 25374},
 																																	val:        "+",
 																																	ignoreCase: false,
 																																	want:       "\"+\"",
@@ -7914,12 +7914,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 792, col: 8, offset: 25520},
+																												pos: position{line: 791, col: 8, offset: 25458},
 																												expr: &actionExpr{
-																													pos: position{line: 2873, col: 10, offset: 90962},
+																													pos: position{line: 2872, col: 10, offset: 90900},
 																													run: (*parser).callonDocumentFragment825,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2873, col: 10, offset: 90962},
+																														pos:        position{line: 2872, col: 10, offset: 90900},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7928,28 +7928,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2895, col: 8, offset: 91360},
+																												pos: position{line: 2894, col: 8, offset: 91298},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2882, col: 12, offset: 91133},
+																														pos: position{line: 2881, col: 12, offset: 91071},
 																														run: (*parser).callonDocumentFragment828,
 																														expr: &choiceExpr{
-																															pos: position{line: 2882, col: 13, offset: 91134},
+																															pos: position{line: 2881, col: 13, offset: 91072},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 13, offset: 91134},
+																																	pos:        position{line: 2881, col: 13, offset: 91072},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 20, offset: 91141},
+																																	pos:        position{line: 2881, col: 20, offset: 91079},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 29, offset: 91150},
+																																	pos:        position{line: 2881, col: 29, offset: 91088},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7958,9 +7958,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2892, col: 8, offset: 91310},
+																														pos: position{line: 2891, col: 8, offset: 91248},
 																														expr: &anyMatcher{
-																															line: 2892, col: 9, offset: 91311,
+																															line: 2891, col: 9, offset: 91249,
 																														},
 																													},
 																												},
@@ -7970,45 +7970,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1030, col: 5, offset: 31952},
+																								pos: position{line: 1029, col: 5, offset: 31890},
 																								run: (*parser).callonDocumentFragment835,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91310},
+																						pos: position{line: 2891, col: 8, offset: 91248},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91311,
+																							line: 2891, col: 9, offset: 91249,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1037, col: 5, offset: 32118},
+																			pos:   position{line: 1036, col: 5, offset: 32056},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26162},
+																				pos: position{line: 810, col: 5, offset: 26100},
 																				run: (*parser).callonDocumentFragment839,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26162},
+																					pos: position{line: 810, col: 5, offset: 26100},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2890, col: 11, offset: 91296},
+																							pos: position{line: 2889, col: 11, offset: 91234},
 																							expr: &anyMatcher{
-																								line: 2890, col: 13, offset: 91298,
+																								line: 2889, col: 13, offset: 91236,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26237},
+																							pos:   position{line: 811, col: 5, offset: 26175},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2819, col: 13, offset: 89488},
+																								pos: position{line: 2818, col: 13, offset: 89426},
 																								run: (*parser).callonDocumentFragment844,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2819, col: 13, offset: 89488},
+																									pos: position{line: 2818, col: 13, offset: 89426},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2819, col: 13, offset: 89488},
+																										pos:        position{line: 2818, col: 13, offset: 89426},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8018,28 +8018,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91360},
+																							pos: position{line: 2894, col: 8, offset: 91298},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91133},
+																									pos: position{line: 2881, col: 12, offset: 91071},
 																									run: (*parser).callonDocumentFragment848,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91134},
+																										pos: position{line: 2881, col: 13, offset: 91072},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91134},
+																												pos:        position{line: 2881, col: 13, offset: 91072},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91141},
+																												pos:        position{line: 2881, col: 20, offset: 91079},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91150},
+																												pos:        position{line: 2881, col: 29, offset: 91088},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8048,9 +8048,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91310},
+																									pos: position{line: 2891, col: 8, offset: 91248},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91311,
+																										line: 2891, col: 9, offset: 91249,
 																									},
 																								},
 																							},
@@ -8065,44 +8065,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1022, col: 5, offset: 31691},
+														pos:   position{line: 1021, col: 5, offset: 31629},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1022, col: 9, offset: 31695},
+															pos: position{line: 1021, col: 9, offset: 31633},
 															expr: &choiceExpr{
-																pos: position{line: 1029, col: 5, offset: 31917},
+																pos: position{line: 1028, col: 5, offset: 31855},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1029, col: 5, offset: 31917},
+																		pos: position{line: 1028, col: 5, offset: 31855},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1029, col: 5, offset: 31917},
+																				pos:   position{line: 1028, col: 5, offset: 31855},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 790, col: 5, offset: 25418},
+																					pos: position{line: 789, col: 5, offset: 25356},
 																					run: (*parser).callonDocumentFragment860,
 																					expr: &seqExpr{
-																						pos: position{line: 790, col: 5, offset: 25418},
+																						pos: position{line: 789, col: 5, offset: 25356},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 790, col: 5, offset: 25418},
+																								pos:   position{line: 789, col: 5, offset: 25356},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 790, col: 16, offset: 25429},
+																									pos: position{line: 789, col: 16, offset: 25367},
 																									run: (*parser).callonDocumentFragment863,
 																									expr: &seqExpr{
-																										pos: position{line: 790, col: 16, offset: 25429},
+																										pos: position{line: 789, col: 16, offset: 25367},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 790, col: 16, offset: 25429},
+																												pos:        position{line: 789, col: 16, offset: 25367},
 																												val:        "++++",
 																												ignoreCase: false,
 																												want:       "\"++++\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 790, col: 23, offset: 25436},
+																												pos: position{line: 789, col: 23, offset: 25374},
 																												expr: &litMatcher{
-																													pos:        position{line: 790, col: 23, offset: 25436},
+																													pos:        position{line: 789, col: 23, offset: 25374},
 																													val:        "+",
 																													ignoreCase: false,
 																													want:       "\"+\"",
@@ -8113,12 +8113,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 792, col: 8, offset: 25520},
+																								pos: position{line: 791, col: 8, offset: 25458},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90962},
+																									pos: position{line: 2872, col: 10, offset: 90900},
 																									run: (*parser).callonDocumentFragment869,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90962},
+																										pos:        position{line: 2872, col: 10, offset: 90900},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8127,28 +8127,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91360},
+																								pos: position{line: 2894, col: 8, offset: 91298},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91133},
+																										pos: position{line: 2881, col: 12, offset: 91071},
 																										run: (*parser).callonDocumentFragment872,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91134},
+																											pos: position{line: 2881, col: 13, offset: 91072},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91134},
+																													pos:        position{line: 2881, col: 13, offset: 91072},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91141},
+																													pos:        position{line: 2881, col: 20, offset: 91079},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91150},
+																													pos:        position{line: 2881, col: 29, offset: 91088},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8157,9 +8157,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91310},
+																										pos: position{line: 2891, col: 8, offset: 91248},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91311,
+																											line: 2891, col: 9, offset: 91249,
 																										},
 																									},
 																								},
@@ -8169,15 +8169,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1030, col: 5, offset: 31952},
+																				pos: position{line: 1029, col: 5, offset: 31890},
 																				run: (*parser).callonDocumentFragment879,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91310},
+																		pos: position{line: 2891, col: 8, offset: 91248},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91311,
+																			line: 2891, col: 9, offset: 91249,
 																		},
 																	},
 																},
@@ -8188,39 +8188,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1045, col: 5, offset: 32269},
+											pos: position{line: 1044, col: 5, offset: 32207},
 											run: (*parser).callonDocumentFragment882,
 											expr: &seqExpr{
-												pos: position{line: 1045, col: 5, offset: 32269},
+												pos: position{line: 1044, col: 5, offset: 32207},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1045, col: 5, offset: 32269},
+														pos:   position{line: 1044, col: 5, offset: 32207},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 797, col: 5, offset: 25668},
+															pos: position{line: 796, col: 5, offset: 25606},
 															run: (*parser).callonDocumentFragment885,
 															expr: &seqExpr{
-																pos: position{line: 797, col: 5, offset: 25668},
+																pos: position{line: 796, col: 5, offset: 25606},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 797, col: 5, offset: 25668},
+																		pos:   position{line: 796, col: 5, offset: 25606},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 797, col: 16, offset: 25679},
+																			pos: position{line: 796, col: 16, offset: 25617},
 																			run: (*parser).callonDocumentFragment888,
 																			expr: &seqExpr{
-																				pos: position{line: 797, col: 16, offset: 25679},
+																				pos: position{line: 796, col: 16, offset: 25617},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 797, col: 16, offset: 25679},
+																						pos:        position{line: 796, col: 16, offset: 25617},
 																						val:        "____",
 																						ignoreCase: false,
 																						want:       "\"____\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 797, col: 23, offset: 25686},
+																						pos: position{line: 796, col: 23, offset: 25624},
 																						expr: &litMatcher{
-																							pos:        position{line: 797, col: 23, offset: 25686},
+																							pos:        position{line: 796, col: 23, offset: 25624},
 																							val:        "_",
 																							ignoreCase: false,
 																							want:       "\"_\"",
@@ -8231,12 +8231,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 799, col: 8, offset: 25770},
+																		pos: position{line: 798, col: 8, offset: 25708},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90962},
+																			pos: position{line: 2872, col: 10, offset: 90900},
 																			run: (*parser).callonDocumentFragment894,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90962},
+																				pos:        position{line: 2872, col: 10, offset: 90900},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8245,28 +8245,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91360},
+																		pos: position{line: 2894, col: 8, offset: 91298},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91133},
+																				pos: position{line: 2881, col: 12, offset: 91071},
 																				run: (*parser).callonDocumentFragment897,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91134},
+																					pos: position{line: 2881, col: 13, offset: 91072},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91134},
+																							pos:        position{line: 2881, col: 13, offset: 91072},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91141},
+																							pos:        position{line: 2881, col: 20, offset: 91079},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91150},
+																							pos:        position{line: 2881, col: 29, offset: 91088},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8275,9 +8275,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91310},
+																				pos: position{line: 2891, col: 8, offset: 91248},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91311,
+																					line: 2891, col: 9, offset: 91249,
 																				},
 																			},
 																		},
@@ -8287,56 +8287,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1046, col: 5, offset: 32306},
+														pos: position{line: 1045, col: 5, offset: 32244},
 														run: (*parser).callonDocumentFragment904,
 													},
 													&labeledExpr{
-														pos:   position{line: 1049, col: 5, offset: 32398},
+														pos:   position{line: 1048, col: 5, offset: 32336},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1064, col: 4, offset: 32779},
+															pos: position{line: 1063, col: 4, offset: 32717},
 															expr: &actionExpr{
-																pos: position{line: 1064, col: 5, offset: 32780},
+																pos: position{line: 1063, col: 5, offset: 32718},
 																run: (*parser).callonDocumentFragment907,
 																expr: &seqExpr{
-																	pos: position{line: 1064, col: 5, offset: 32780},
+																	pos: position{line: 1063, col: 5, offset: 32718},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1064, col: 5, offset: 32780},
+																			pos: position{line: 1063, col: 5, offset: 32718},
 																			expr: &choiceExpr{
-																				pos: position{line: 1057, col: 5, offset: 32626},
+																				pos: position{line: 1056, col: 5, offset: 32564},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1057, col: 5, offset: 32626},
+																						pos: position{line: 1056, col: 5, offset: 32564},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1057, col: 5, offset: 32626},
+																								pos:   position{line: 1056, col: 5, offset: 32564},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 797, col: 5, offset: 25668},
+																									pos: position{line: 796, col: 5, offset: 25606},
 																									run: (*parser).callonDocumentFragment913,
 																									expr: &seqExpr{
-																										pos: position{line: 797, col: 5, offset: 25668},
+																										pos: position{line: 796, col: 5, offset: 25606},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 797, col: 5, offset: 25668},
+																												pos:   position{line: 796, col: 5, offset: 25606},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 797, col: 16, offset: 25679},
+																													pos: position{line: 796, col: 16, offset: 25617},
 																													run: (*parser).callonDocumentFragment916,
 																													expr: &seqExpr{
-																														pos: position{line: 797, col: 16, offset: 25679},
+																														pos: position{line: 796, col: 16, offset: 25617},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 797, col: 16, offset: 25679},
+																																pos:        position{line: 796, col: 16, offset: 25617},
 																																val:        "____",
 																																ignoreCase: false,
 																																want:       "\"____\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 797, col: 23, offset: 25686},
+																																pos: position{line: 796, col: 23, offset: 25624},
 																																expr: &litMatcher{
-																																	pos:        position{line: 797, col: 23, offset: 25686},
+																																	pos:        position{line: 796, col: 23, offset: 25624},
 																																	val:        "_",
 																																	ignoreCase: false,
 																																	want:       "\"_\"",
@@ -8347,12 +8347,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 799, col: 8, offset: 25770},
+																												pos: position{line: 798, col: 8, offset: 25708},
 																												expr: &actionExpr{
-																													pos: position{line: 2873, col: 10, offset: 90962},
+																													pos: position{line: 2872, col: 10, offset: 90900},
 																													run: (*parser).callonDocumentFragment922,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2873, col: 10, offset: 90962},
+																														pos:        position{line: 2872, col: 10, offset: 90900},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8361,28 +8361,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2895, col: 8, offset: 91360},
+																												pos: position{line: 2894, col: 8, offset: 91298},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2882, col: 12, offset: 91133},
+																														pos: position{line: 2881, col: 12, offset: 91071},
 																														run: (*parser).callonDocumentFragment925,
 																														expr: &choiceExpr{
-																															pos: position{line: 2882, col: 13, offset: 91134},
+																															pos: position{line: 2881, col: 13, offset: 91072},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 13, offset: 91134},
+																																	pos:        position{line: 2881, col: 13, offset: 91072},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 20, offset: 91141},
+																																	pos:        position{line: 2881, col: 20, offset: 91079},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 29, offset: 91150},
+																																	pos:        position{line: 2881, col: 29, offset: 91088},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8391,9 +8391,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2892, col: 8, offset: 91310},
+																														pos: position{line: 2891, col: 8, offset: 91248},
 																														expr: &anyMatcher{
-																															line: 2892, col: 9, offset: 91311,
+																															line: 2891, col: 9, offset: 91249,
 																														},
 																													},
 																												},
@@ -8403,45 +8403,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1058, col: 5, offset: 32655},
+																								pos: position{line: 1057, col: 5, offset: 32593},
 																								run: (*parser).callonDocumentFragment932,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91310},
+																						pos: position{line: 2891, col: 8, offset: 91248},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91311,
+																							line: 2891, col: 9, offset: 91249,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1065, col: 5, offset: 32808},
+																			pos:   position{line: 1064, col: 5, offset: 32746},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26162},
+																				pos: position{line: 810, col: 5, offset: 26100},
 																				run: (*parser).callonDocumentFragment936,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26162},
+																					pos: position{line: 810, col: 5, offset: 26100},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2890, col: 11, offset: 91296},
+																							pos: position{line: 2889, col: 11, offset: 91234},
 																							expr: &anyMatcher{
-																								line: 2890, col: 13, offset: 91298,
+																								line: 2889, col: 13, offset: 91236,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26237},
+																							pos:   position{line: 811, col: 5, offset: 26175},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2819, col: 13, offset: 89488},
+																								pos: position{line: 2818, col: 13, offset: 89426},
 																								run: (*parser).callonDocumentFragment941,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2819, col: 13, offset: 89488},
+																									pos: position{line: 2818, col: 13, offset: 89426},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2819, col: 13, offset: 89488},
+																										pos:        position{line: 2818, col: 13, offset: 89426},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8451,28 +8451,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91360},
+																							pos: position{line: 2894, col: 8, offset: 91298},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91133},
+																									pos: position{line: 2881, col: 12, offset: 91071},
 																									run: (*parser).callonDocumentFragment945,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91134},
+																										pos: position{line: 2881, col: 13, offset: 91072},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91134},
+																												pos:        position{line: 2881, col: 13, offset: 91072},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91141},
+																												pos:        position{line: 2881, col: 20, offset: 91079},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91150},
+																												pos:        position{line: 2881, col: 29, offset: 91088},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8481,9 +8481,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91310},
+																									pos: position{line: 2891, col: 8, offset: 91248},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91311,
+																										line: 2891, col: 9, offset: 91249,
 																									},
 																								},
 																							},
@@ -8498,44 +8498,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1050, col: 5, offset: 32430},
+														pos:   position{line: 1049, col: 5, offset: 32368},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1050, col: 9, offset: 32434},
+															pos: position{line: 1049, col: 9, offset: 32372},
 															expr: &choiceExpr{
-																pos: position{line: 1057, col: 5, offset: 32626},
+																pos: position{line: 1056, col: 5, offset: 32564},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1057, col: 5, offset: 32626},
+																		pos: position{line: 1056, col: 5, offset: 32564},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1057, col: 5, offset: 32626},
+																				pos:   position{line: 1056, col: 5, offset: 32564},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 797, col: 5, offset: 25668},
+																					pos: position{line: 796, col: 5, offset: 25606},
 																					run: (*parser).callonDocumentFragment957,
 																					expr: &seqExpr{
-																						pos: position{line: 797, col: 5, offset: 25668},
+																						pos: position{line: 796, col: 5, offset: 25606},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 797, col: 5, offset: 25668},
+																								pos:   position{line: 796, col: 5, offset: 25606},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 797, col: 16, offset: 25679},
+																									pos: position{line: 796, col: 16, offset: 25617},
 																									run: (*parser).callonDocumentFragment960,
 																									expr: &seqExpr{
-																										pos: position{line: 797, col: 16, offset: 25679},
+																										pos: position{line: 796, col: 16, offset: 25617},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 797, col: 16, offset: 25679},
+																												pos:        position{line: 796, col: 16, offset: 25617},
 																												val:        "____",
 																												ignoreCase: false,
 																												want:       "\"____\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 797, col: 23, offset: 25686},
+																												pos: position{line: 796, col: 23, offset: 25624},
 																												expr: &litMatcher{
-																													pos:        position{line: 797, col: 23, offset: 25686},
+																													pos:        position{line: 796, col: 23, offset: 25624},
 																													val:        "_",
 																													ignoreCase: false,
 																													want:       "\"_\"",
@@ -8546,12 +8546,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 799, col: 8, offset: 25770},
+																								pos: position{line: 798, col: 8, offset: 25708},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90962},
+																									pos: position{line: 2872, col: 10, offset: 90900},
 																									run: (*parser).callonDocumentFragment966,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90962},
+																										pos:        position{line: 2872, col: 10, offset: 90900},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8560,28 +8560,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91360},
+																								pos: position{line: 2894, col: 8, offset: 91298},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91133},
+																										pos: position{line: 2881, col: 12, offset: 91071},
 																										run: (*parser).callonDocumentFragment969,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91134},
+																											pos: position{line: 2881, col: 13, offset: 91072},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91134},
+																													pos:        position{line: 2881, col: 13, offset: 91072},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91141},
+																													pos:        position{line: 2881, col: 20, offset: 91079},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91150},
+																													pos:        position{line: 2881, col: 29, offset: 91088},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8590,9 +8590,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91310},
+																										pos: position{line: 2891, col: 8, offset: 91248},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91311,
+																											line: 2891, col: 9, offset: 91249,
 																										},
 																									},
 																								},
@@ -8602,15 +8602,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1058, col: 5, offset: 32655},
+																				pos: position{line: 1057, col: 5, offset: 32593},
 																				run: (*parser).callonDocumentFragment976,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91310},
+																		pos: position{line: 2891, col: 8, offset: 91248},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91311,
+																			line: 2891, col: 9, offset: 91249,
 																		},
 																	},
 																},
@@ -8621,39 +8621,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1073, col: 5, offset: 32963},
+											pos: position{line: 1072, col: 5, offset: 32901},
 											run: (*parser).callonDocumentFragment979,
 											expr: &seqExpr{
-												pos: position{line: 1073, col: 5, offset: 32963},
+												pos: position{line: 1072, col: 5, offset: 32901},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1073, col: 5, offset: 32963},
+														pos:   position{line: 1072, col: 5, offset: 32901},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 804, col: 5, offset: 25914},
+															pos: position{line: 803, col: 5, offset: 25852},
 															run: (*parser).callonDocumentFragment982,
 															expr: &seqExpr{
-																pos: position{line: 804, col: 5, offset: 25914},
+																pos: position{line: 803, col: 5, offset: 25852},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 804, col: 5, offset: 25914},
+																		pos:   position{line: 803, col: 5, offset: 25852},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 804, col: 16, offset: 25925},
+																			pos: position{line: 803, col: 16, offset: 25863},
 																			run: (*parser).callonDocumentFragment985,
 																			expr: &seqExpr{
-																				pos: position{line: 804, col: 16, offset: 25925},
+																				pos: position{line: 803, col: 16, offset: 25863},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 804, col: 16, offset: 25925},
+																						pos:        position{line: 803, col: 16, offset: 25863},
 																						val:        "****",
 																						ignoreCase: false,
 																						want:       "\"****\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 804, col: 23, offset: 25932},
+																						pos: position{line: 803, col: 23, offset: 25870},
 																						expr: &litMatcher{
-																							pos:        position{line: 804, col: 23, offset: 25932},
+																							pos:        position{line: 803, col: 23, offset: 25870},
 																							val:        "*",
 																							ignoreCase: false,
 																							want:       "\"*\"",
@@ -8664,12 +8664,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 806, col: 8, offset: 26016},
+																		pos: position{line: 805, col: 8, offset: 25954},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90962},
+																			pos: position{line: 2872, col: 10, offset: 90900},
 																			run: (*parser).callonDocumentFragment991,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90962},
+																				pos:        position{line: 2872, col: 10, offset: 90900},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8678,28 +8678,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91360},
+																		pos: position{line: 2894, col: 8, offset: 91298},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91133},
+																				pos: position{line: 2881, col: 12, offset: 91071},
 																				run: (*parser).callonDocumentFragment994,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91134},
+																					pos: position{line: 2881, col: 13, offset: 91072},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91134},
+																							pos:        position{line: 2881, col: 13, offset: 91072},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91141},
+																							pos:        position{line: 2881, col: 20, offset: 91079},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91150},
+																							pos:        position{line: 2881, col: 29, offset: 91088},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8708,9 +8708,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91310},
+																				pos: position{line: 2891, col: 8, offset: 91248},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91311,
+																					line: 2891, col: 9, offset: 91249,
 																				},
 																			},
 																		},
@@ -8720,56 +8720,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1074, col: 5, offset: 33002},
+														pos: position{line: 1073, col: 5, offset: 32940},
 														run: (*parser).callonDocumentFragment1001,
 													},
 													&labeledExpr{
-														pos:   position{line: 1077, col: 5, offset: 33094},
+														pos:   position{line: 1076, col: 5, offset: 33032},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1092, col: 4, offset: 33491},
+															pos: position{line: 1091, col: 4, offset: 33429},
 															expr: &actionExpr{
-																pos: position{line: 1092, col: 5, offset: 33492},
+																pos: position{line: 1091, col: 5, offset: 33430},
 																run: (*parser).callonDocumentFragment1004,
 																expr: &seqExpr{
-																	pos: position{line: 1092, col: 5, offset: 33492},
+																	pos: position{line: 1091, col: 5, offset: 33430},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1092, col: 5, offset: 33492},
+																			pos: position{line: 1091, col: 5, offset: 33430},
 																			expr: &choiceExpr{
-																				pos: position{line: 1085, col: 5, offset: 33334},
+																				pos: position{line: 1084, col: 5, offset: 33272},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1085, col: 5, offset: 33334},
+																						pos: position{line: 1084, col: 5, offset: 33272},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1085, col: 5, offset: 33334},
+																								pos:   position{line: 1084, col: 5, offset: 33272},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 804, col: 5, offset: 25914},
+																									pos: position{line: 803, col: 5, offset: 25852},
 																									run: (*parser).callonDocumentFragment1010,
 																									expr: &seqExpr{
-																										pos: position{line: 804, col: 5, offset: 25914},
+																										pos: position{line: 803, col: 5, offset: 25852},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 804, col: 5, offset: 25914},
+																												pos:   position{line: 803, col: 5, offset: 25852},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 804, col: 16, offset: 25925},
+																													pos: position{line: 803, col: 16, offset: 25863},
 																													run: (*parser).callonDocumentFragment1013,
 																													expr: &seqExpr{
-																														pos: position{line: 804, col: 16, offset: 25925},
+																														pos: position{line: 803, col: 16, offset: 25863},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 804, col: 16, offset: 25925},
+																																pos:        position{line: 803, col: 16, offset: 25863},
 																																val:        "****",
 																																ignoreCase: false,
 																																want:       "\"****\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 804, col: 23, offset: 25932},
+																																pos: position{line: 803, col: 23, offset: 25870},
 																																expr: &litMatcher{
-																																	pos:        position{line: 804, col: 23, offset: 25932},
+																																	pos:        position{line: 803, col: 23, offset: 25870},
 																																	val:        "*",
 																																	ignoreCase: false,
 																																	want:       "\"*\"",
@@ -8780,12 +8780,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 806, col: 8, offset: 26016},
+																												pos: position{line: 805, col: 8, offset: 25954},
 																												expr: &actionExpr{
-																													pos: position{line: 2873, col: 10, offset: 90962},
+																													pos: position{line: 2872, col: 10, offset: 90900},
 																													run: (*parser).callonDocumentFragment1019,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2873, col: 10, offset: 90962},
+																														pos:        position{line: 2872, col: 10, offset: 90900},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8794,28 +8794,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2895, col: 8, offset: 91360},
+																												pos: position{line: 2894, col: 8, offset: 91298},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2882, col: 12, offset: 91133},
+																														pos: position{line: 2881, col: 12, offset: 91071},
 																														run: (*parser).callonDocumentFragment1022,
 																														expr: &choiceExpr{
-																															pos: position{line: 2882, col: 13, offset: 91134},
+																															pos: position{line: 2881, col: 13, offset: 91072},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 13, offset: 91134},
+																																	pos:        position{line: 2881, col: 13, offset: 91072},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 20, offset: 91141},
+																																	pos:        position{line: 2881, col: 20, offset: 91079},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 29, offset: 91150},
+																																	pos:        position{line: 2881, col: 29, offset: 91088},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8824,9 +8824,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2892, col: 8, offset: 91310},
+																														pos: position{line: 2891, col: 8, offset: 91248},
 																														expr: &anyMatcher{
-																															line: 2892, col: 9, offset: 91311,
+																															line: 2891, col: 9, offset: 91249,
 																														},
 																													},
 																												},
@@ -8836,45 +8836,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1086, col: 5, offset: 33365},
+																								pos: position{line: 1085, col: 5, offset: 33303},
 																								run: (*parser).callonDocumentFragment1029,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91310},
+																						pos: position{line: 2891, col: 8, offset: 91248},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91311,
+																							line: 2891, col: 9, offset: 91249,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1093, col: 5, offset: 33522},
+																			pos:   position{line: 1092, col: 5, offset: 33460},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26162},
+																				pos: position{line: 810, col: 5, offset: 26100},
 																				run: (*parser).callonDocumentFragment1033,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26162},
+																					pos: position{line: 810, col: 5, offset: 26100},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2890, col: 11, offset: 91296},
+																							pos: position{line: 2889, col: 11, offset: 91234},
 																							expr: &anyMatcher{
-																								line: 2890, col: 13, offset: 91298,
+																								line: 2889, col: 13, offset: 91236,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26237},
+																							pos:   position{line: 811, col: 5, offset: 26175},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2819, col: 13, offset: 89488},
+																								pos: position{line: 2818, col: 13, offset: 89426},
 																								run: (*parser).callonDocumentFragment1038,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2819, col: 13, offset: 89488},
+																									pos: position{line: 2818, col: 13, offset: 89426},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2819, col: 13, offset: 89488},
+																										pos:        position{line: 2818, col: 13, offset: 89426},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8884,28 +8884,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91360},
+																							pos: position{line: 2894, col: 8, offset: 91298},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91133},
+																									pos: position{line: 2881, col: 12, offset: 91071},
 																									run: (*parser).callonDocumentFragment1042,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91134},
+																										pos: position{line: 2881, col: 13, offset: 91072},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91134},
+																												pos:        position{line: 2881, col: 13, offset: 91072},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91141},
+																												pos:        position{line: 2881, col: 20, offset: 91079},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91150},
+																												pos:        position{line: 2881, col: 29, offset: 91088},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8914,9 +8914,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91310},
+																									pos: position{line: 2891, col: 8, offset: 91248},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91311,
+																										line: 2891, col: 9, offset: 91249,
 																									},
 																								},
 																							},
@@ -8931,44 +8931,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1078, col: 5, offset: 33128},
+														pos:   position{line: 1077, col: 5, offset: 33066},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1078, col: 9, offset: 33132},
+															pos: position{line: 1077, col: 9, offset: 33070},
 															expr: &choiceExpr{
-																pos: position{line: 1085, col: 5, offset: 33334},
+																pos: position{line: 1084, col: 5, offset: 33272},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1085, col: 5, offset: 33334},
+																		pos: position{line: 1084, col: 5, offset: 33272},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1085, col: 5, offset: 33334},
+																				pos:   position{line: 1084, col: 5, offset: 33272},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 804, col: 5, offset: 25914},
+																					pos: position{line: 803, col: 5, offset: 25852},
 																					run: (*parser).callonDocumentFragment1054,
 																					expr: &seqExpr{
-																						pos: position{line: 804, col: 5, offset: 25914},
+																						pos: position{line: 803, col: 5, offset: 25852},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 804, col: 5, offset: 25914},
+																								pos:   position{line: 803, col: 5, offset: 25852},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 804, col: 16, offset: 25925},
+																									pos: position{line: 803, col: 16, offset: 25863},
 																									run: (*parser).callonDocumentFragment1057,
 																									expr: &seqExpr{
-																										pos: position{line: 804, col: 16, offset: 25925},
+																										pos: position{line: 803, col: 16, offset: 25863},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 804, col: 16, offset: 25925},
+																												pos:        position{line: 803, col: 16, offset: 25863},
 																												val:        "****",
 																												ignoreCase: false,
 																												want:       "\"****\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 804, col: 23, offset: 25932},
+																												pos: position{line: 803, col: 23, offset: 25870},
 																												expr: &litMatcher{
-																													pos:        position{line: 804, col: 23, offset: 25932},
+																													pos:        position{line: 803, col: 23, offset: 25870},
 																													val:        "*",
 																													ignoreCase: false,
 																													want:       "\"*\"",
@@ -8979,12 +8979,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 806, col: 8, offset: 26016},
+																								pos: position{line: 805, col: 8, offset: 25954},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90962},
+																									pos: position{line: 2872, col: 10, offset: 90900},
 																									run: (*parser).callonDocumentFragment1063,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90962},
+																										pos:        position{line: 2872, col: 10, offset: 90900},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8993,28 +8993,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91360},
+																								pos: position{line: 2894, col: 8, offset: 91298},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91133},
+																										pos: position{line: 2881, col: 12, offset: 91071},
 																										run: (*parser).callonDocumentFragment1066,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91134},
+																											pos: position{line: 2881, col: 13, offset: 91072},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91134},
+																													pos:        position{line: 2881, col: 13, offset: 91072},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91141},
+																													pos:        position{line: 2881, col: 20, offset: 91079},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91150},
+																													pos:        position{line: 2881, col: 29, offset: 91088},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -9023,9 +9023,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91310},
+																										pos: position{line: 2891, col: 8, offset: 91248},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91311,
+																											line: 2891, col: 9, offset: 91249,
 																										},
 																									},
 																								},
@@ -9035,15 +9035,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1086, col: 5, offset: 33365},
+																				pos: position{line: 1085, col: 5, offset: 33303},
 																				run: (*parser).callonDocumentFragment1073,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91310},
+																		pos: position{line: 2891, col: 8, offset: 91248},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91311,
+																			line: 2891, col: 9, offset: 91249,
 																		},
 																	},
 																},
@@ -9054,52 +9054,52 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2718, col: 18, offset: 86536},
+											pos: position{line: 2717, col: 18, offset: 86474},
 											run: (*parser).callonDocumentFragment1076,
 											expr: &seqExpr{
-												pos: position{line: 2718, col: 18, offset: 86536},
+												pos: position{line: 2717, col: 18, offset: 86474},
 												exprs: []interface{}{
 													&choiceExpr{
-														pos: position{line: 2719, col: 9, offset: 86546},
+														pos: position{line: 2718, col: 9, offset: 86484},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2719, col: 9, offset: 86546},
+																pos:        position{line: 2718, col: 9, offset: 86484},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2720, col: 11, offset: 86582},
+																pos:        position{line: 2719, col: 11, offset: 86520},
 																val:        "***",
 																ignoreCase: false,
 																want:       "\"***\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2720, col: 19, offset: 86590},
+																pos:        position{line: 2719, col: 19, offset: 86528},
 																val:        "* * *",
 																ignoreCase: false,
 																want:       "\"* * *\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2720, col: 29, offset: 86600},
+																pos:        position{line: 2719, col: 29, offset: 86538},
 																val:        "---",
 																ignoreCase: false,
 																want:       "\"---\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2720, col: 37, offset: 86608},
+																pos:        position{line: 2719, col: 37, offset: 86546},
 																val:        "- - -",
 																ignoreCase: false,
 																want:       "\"- - -\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2720, col: 47, offset: 86618},
+																pos:        position{line: 2719, col: 47, offset: 86556},
 																val:        "___",
 																ignoreCase: false,
 																want:       "\"___\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2720, col: 55, offset: 86626},
+																pos:        position{line: 2719, col: 55, offset: 86564},
 																val:        "_ _ _",
 																ignoreCase: false,
 																want:       "\"_ _ _\"",
@@ -9107,12 +9107,12 @@ var g = &grammar{
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2721, col: 11, offset: 86672},
+														pos: position{line: 2720, col: 11, offset: 86610},
 														expr: &actionExpr{
-															pos: position{line: 2873, col: 10, offset: 90962},
+															pos: position{line: 2872, col: 10, offset: 90900},
 															run: (*parser).callonDocumentFragment1087,
 															expr: &charClassMatcher{
-																pos:        position{line: 2873, col: 10, offset: 90962},
+																pos:        position{line: 2872, col: 10, offset: 90900},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9121,28 +9121,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2895, col: 8, offset: 91360},
+														pos: position{line: 2894, col: 8, offset: 91298},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2882, col: 12, offset: 91133},
+																pos: position{line: 2881, col: 12, offset: 91071},
 																run: (*parser).callonDocumentFragment1090,
 																expr: &choiceExpr{
-																	pos: position{line: 2882, col: 13, offset: 91134},
+																	pos: position{line: 2881, col: 13, offset: 91072},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 13, offset: 91134},
+																			pos:        position{line: 2881, col: 13, offset: 91072},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 20, offset: 91141},
+																			pos:        position{line: 2881, col: 20, offset: 91079},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 29, offset: 91150},
+																			pos:        position{line: 2881, col: 29, offset: 91088},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9151,20 +9151,20 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2892, col: 8, offset: 91310},
+																pos: position{line: 2891, col: 8, offset: 91248},
 																expr: &anyMatcher{
-																	line: 2892, col: 9, offset: 91311,
+																	line: 2891, col: 9, offset: 91249,
 																},
 															},
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2721, col: 22, offset: 86683},
+														pos: position{line: 2720, col: 22, offset: 86621},
 														expr: &actionExpr{
-															pos: position{line: 2873, col: 10, offset: 90962},
+															pos: position{line: 2872, col: 10, offset: 90900},
 															run: (*parser).callonDocumentFragment1098,
 															expr: &charClassMatcher{
-																pos:        position{line: 2873, col: 10, offset: 90962},
+																pos:        position{line: 2872, col: 10, offset: 90900},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9173,28 +9173,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2895, col: 8, offset: 91360},
+														pos: position{line: 2894, col: 8, offset: 91298},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2882, col: 12, offset: 91133},
+																pos: position{line: 2881, col: 12, offset: 91071},
 																run: (*parser).callonDocumentFragment1101,
 																expr: &choiceExpr{
-																	pos: position{line: 2882, col: 13, offset: 91134},
+																	pos: position{line: 2881, col: 13, offset: 91072},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 13, offset: 91134},
+																			pos:        position{line: 2881, col: 13, offset: 91072},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 20, offset: 91141},
+																			pos:        position{line: 2881, col: 20, offset: 91079},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 29, offset: 91150},
+																			pos:        position{line: 2881, col: 29, offset: 91088},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9203,9 +9203,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2892, col: 8, offset: 91310},
+																pos: position{line: 2891, col: 8, offset: 91248},
 																expr: &anyMatcher{
-																	line: 2892, col: 9, offset: 91311,
+																	line: 2891, col: 9, offset: 91249,
 																},
 															},
 														},
@@ -9218,24 +9218,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2609, col: 5, offset: 83472},
+											pos: position{line: 2608, col: 5, offset: 83410},
 											run: (*parser).callonDocumentFragment1109,
 											expr: &seqExpr{
-												pos: position{line: 2609, col: 5, offset: 83472},
+												pos: position{line: 2608, col: 5, offset: 83410},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2615, col: 19, offset: 83629},
+														pos:        position{line: 2614, col: 19, offset: 83567},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2615, col: 26, offset: 83636},
+														pos: position{line: 2614, col: 26, offset: 83574},
 														expr: &actionExpr{
-															pos: position{line: 2873, col: 10, offset: 90962},
+															pos: position{line: 2872, col: 10, offset: 90900},
 															run: (*parser).callonDocumentFragment1113,
 															expr: &charClassMatcher{
-																pos:        position{line: 2873, col: 10, offset: 90962},
+																pos:        position{line: 2872, col: 10, offset: 90900},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9244,28 +9244,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2895, col: 8, offset: 91360},
+														pos: position{line: 2894, col: 8, offset: 91298},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2882, col: 12, offset: 91133},
+																pos: position{line: 2881, col: 12, offset: 91071},
 																run: (*parser).callonDocumentFragment1116,
 																expr: &choiceExpr{
-																	pos: position{line: 2882, col: 13, offset: 91134},
+																	pos: position{line: 2881, col: 13, offset: 91072},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 13, offset: 91134},
+																			pos:        position{line: 2881, col: 13, offset: 91072},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 20, offset: 91141},
+																			pos:        position{line: 2881, col: 20, offset: 91079},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 29, offset: 91150},
+																			pos:        position{line: 2881, col: 29, offset: 91088},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9274,40 +9274,40 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2892, col: 8, offset: 91310},
+																pos: position{line: 2891, col: 8, offset: 91248},
 																expr: &anyMatcher{
-																	line: 2892, col: 9, offset: 91311,
+																	line: 2891, col: 9, offset: 91249,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2610, col: 5, offset: 83496},
+														pos:   position{line: 2609, col: 5, offset: 83434},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2610, col: 11, offset: 83502},
+															pos: position{line: 2609, col: 11, offset: 83440},
 															expr: &choiceExpr{
-																pos: position{line: 2610, col: 12, offset: 83503},
+																pos: position{line: 2609, col: 12, offset: 83441},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 677, col: 14, offset: 21558},
+																		pos: position{line: 676, col: 14, offset: 21496},
 																		run: (*parser).callonDocumentFragment1126,
 																		expr: &seqExpr{
-																			pos: position{line: 677, col: 14, offset: 21558},
+																			pos: position{line: 676, col: 14, offset: 21496},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2890, col: 11, offset: 91296},
+																					pos: position{line: 2889, col: 11, offset: 91234},
 																					expr: &anyMatcher{
-																						line: 2890, col: 13, offset: 91298,
+																						line: 2889, col: 13, offset: 91236,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 677, col: 21, offset: 21565},
+																					pos: position{line: 676, col: 21, offset: 21503},
 																					expr: &actionExpr{
-																						pos: position{line: 2873, col: 10, offset: 90962},
+																						pos: position{line: 2872, col: 10, offset: 90900},
 																						run: (*parser).callonDocumentFragment1131,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2873, col: 10, offset: 90962},
+																							pos:        position{line: 2872, col: 10, offset: 90900},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9316,28 +9316,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2895, col: 8, offset: 91360},
+																					pos: position{line: 2894, col: 8, offset: 91298},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2882, col: 12, offset: 91133},
+																							pos: position{line: 2881, col: 12, offset: 91071},
 																							run: (*parser).callonDocumentFragment1134,
 																							expr: &choiceExpr{
-																								pos: position{line: 2882, col: 13, offset: 91134},
+																								pos: position{line: 2881, col: 13, offset: 91072},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 91134},
+																										pos:        position{line: 2881, col: 13, offset: 91072},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 20, offset: 91141},
+																										pos:        position{line: 2881, col: 20, offset: 91079},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 29, offset: 91150},
+																										pos:        position{line: 2881, col: 29, offset: 91088},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9346,9 +9346,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2892, col: 8, offset: 91310},
+																							pos: position{line: 2891, col: 8, offset: 91248},
 																							expr: &anyMatcher{
-																								line: 2892, col: 9, offset: 91311,
+																								line: 2891, col: 9, offset: 91249,
 																							},
 																						},
 																					},
@@ -9357,32 +9357,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2622, col: 5, offset: 83748},
+																		pos: position{line: 2621, col: 5, offset: 83686},
 																		run: (*parser).callonDocumentFragment1141,
 																		expr: &seqExpr{
-																			pos: position{line: 2622, col: 5, offset: 83748},
+																			pos: position{line: 2621, col: 5, offset: 83686},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2622, col: 5, offset: 83748},
+																					pos: position{line: 2621, col: 5, offset: 83686},
 																					expr: &choiceExpr{
-																						pos: position{line: 2619, col: 22, offset: 83709},
+																						pos: position{line: 2618, col: 22, offset: 83647},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2615, col: 19, offset: 83629},
+																								pos: position{line: 2614, col: 19, offset: 83567},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2615, col: 19, offset: 83629},
+																										pos:        position{line: 2614, col: 19, offset: 83567},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2615, col: 26, offset: 83636},
+																										pos: position{line: 2614, col: 26, offset: 83574},
 																										expr: &actionExpr{
-																											pos: position{line: 2873, col: 10, offset: 90962},
+																											pos: position{line: 2872, col: 10, offset: 90900},
 																											run: (*parser).callonDocumentFragment1148,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2873, col: 10, offset: 90962},
+																												pos:        position{line: 2872, col: 10, offset: 90900},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9391,28 +9391,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2895, col: 8, offset: 91360},
+																										pos: position{line: 2894, col: 8, offset: 91298},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2882, col: 12, offset: 91133},
+																												pos: position{line: 2881, col: 12, offset: 91071},
 																												run: (*parser).callonDocumentFragment1151,
 																												expr: &choiceExpr{
-																													pos: position{line: 2882, col: 13, offset: 91134},
+																													pos: position{line: 2881, col: 13, offset: 91072},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2882, col: 13, offset: 91134},
+																															pos:        position{line: 2881, col: 13, offset: 91072},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2882, col: 20, offset: 91141},
+																															pos:        position{line: 2881, col: 20, offset: 91079},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2882, col: 29, offset: 91150},
+																															pos:        position{line: 2881, col: 29, offset: 91088},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9421,9 +9421,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2892, col: 8, offset: 91310},
+																												pos: position{line: 2891, col: 8, offset: 91248},
 																												expr: &anyMatcher{
-																													line: 2892, col: 9, offset: 91311,
+																													line: 2891, col: 9, offset: 91249,
 																												},
 																											},
 																										},
@@ -9431,59 +9431,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91310},
+																								pos: position{line: 2891, col: 8, offset: 91248},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91311,
+																									line: 2891, col: 9, offset: 91249,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2623, col: 5, offset: 83771},
+																					pos:   position{line: 2622, col: 5, offset: 83709},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2624, col: 9, offset: 83789},
+																						pos: position{line: 2623, col: 9, offset: 83727},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2624, col: 10, offset: 83790},
+																								pos: position{line: 2623, col: 10, offset: 83728},
 																								run: (*parser).callonDocumentFragment1162,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2624, col: 10, offset: 83790},
+																									pos:   position{line: 2623, col: 10, offset: 83728},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2624, col: 17, offset: 83797},
+																										pos: position{line: 2623, col: 17, offset: 83735},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2632, col: 21, offset: 83993},
+																												pos: position{line: 2631, col: 21, offset: 83931},
 																												run: (*parser).callonDocumentFragment1165,
 																												expr: &seqExpr{
-																													pos: position{line: 2632, col: 21, offset: 83993},
+																													pos: position{line: 2631, col: 21, offset: 83931},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2632, col: 21, offset: 83993},
+																															pos:   position{line: 2631, col: 21, offset: 83931},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2632, col: 27, offset: 83999},
+																																pos: position{line: 2631, col: 27, offset: 83937},
 																																expr: &actionExpr{
-																																	pos: position{line: 2637, col: 5, offset: 84074},
+																																	pos: position{line: 2636, col: 5, offset: 84012},
 																																	run: (*parser).callonDocumentFragment1169,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2637, col: 5, offset: 84074},
+																																		pos: position{line: 2636, col: 5, offset: 84012},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2637, col: 5, offset: 84074},
+																																				pos:        position{line: 2636, col: 5, offset: 84012},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2637, col: 9, offset: 84078},
+																																				pos: position{line: 2636, col: 9, offset: 84016},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2873, col: 10, offset: 90962},
+																																					pos: position{line: 2872, col: 10, offset: 90900},
 																																					run: (*parser).callonDocumentFragment1173,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2873, col: 10, offset: 90962},
+																																						pos:        position{line: 2872, col: 10, offset: 90900},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9492,21 +9492,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2637, col: 16, offset: 84085},
+																																				pos:   position{line: 2636, col: 16, offset: 84023},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2643, col: 5, offset: 84285},
+																																					pos: position{line: 2642, col: 5, offset: 84223},
 																																					run: (*parser).callonDocumentFragment1176,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2643, col: 5, offset: 84285},
+																																						pos:   position{line: 2642, col: 5, offset: 84223},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2643, col: 14, offset: 84294},
+																																							pos: position{line: 2642, col: 14, offset: 84232},
 																																							run: (*parser).callonDocumentFragment1178,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2643, col: 14, offset: 84294},
+																																								pos: position{line: 2642, col: 14, offset: 84232},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2643, col: 14, offset: 84294},
+																																									pos:        position{line: 2642, col: 14, offset: 84232},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9523,28 +9523,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2895, col: 8, offset: 91360},
+																															pos: position{line: 2894, col: 8, offset: 91298},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2882, col: 12, offset: 91133},
+																																	pos: position{line: 2881, col: 12, offset: 91071},
 																																	run: (*parser).callonDocumentFragment1182,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2882, col: 13, offset: 91134},
+																																		pos: position{line: 2881, col: 13, offset: 91072},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2882, col: 13, offset: 91134},
+																																				pos:        position{line: 2881, col: 13, offset: 91072},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2882, col: 20, offset: 91141},
+																																				pos:        position{line: 2881, col: 20, offset: 91079},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2882, col: 29, offset: 91150},
+																																				pos:        position{line: 2881, col: 29, offset: 91088},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9553,9 +9553,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2892, col: 8, offset: 91310},
+																																	pos: position{line: 2891, col: 8, offset: 91248},
 																																	expr: &anyMatcher{
-																																		line: 2892, col: 9, offset: 91311,
+																																		line: 2891, col: 9, offset: 91249,
 																																	},
 																																},
 																															},
@@ -9564,40 +9564,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2649, col: 24, offset: 84430},
+																												pos: position{line: 2648, col: 24, offset: 84368},
 																												run: (*parser).callonDocumentFragment1189,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2649, col: 24, offset: 84430},
+																													pos:   position{line: 2648, col: 24, offset: 84368},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2649, col: 30, offset: 84436},
+																														pos: position{line: 2648, col: 30, offset: 84374},
 																														expr: &actionExpr{
-																															pos: position{line: 2654, col: 5, offset: 84512},
+																															pos: position{line: 2653, col: 5, offset: 84450},
 																															run: (*parser).callonDocumentFragment1192,
 																															expr: &seqExpr{
-																																pos: position{line: 2654, col: 5, offset: 84512},
+																																pos: position{line: 2653, col: 5, offset: 84450},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2654, col: 5, offset: 84512},
+																																		pos: position{line: 2653, col: 5, offset: 84450},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2619, col: 22, offset: 83709},
+																																			pos: position{line: 2618, col: 22, offset: 83647},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2615, col: 19, offset: 83629},
+																																					pos: position{line: 2614, col: 19, offset: 83567},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2615, col: 19, offset: 83629},
+																																							pos:        position{line: 2614, col: 19, offset: 83567},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2615, col: 26, offset: 83636},
+																																							pos: position{line: 2614, col: 26, offset: 83574},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2873, col: 10, offset: 90962},
+																																								pos: position{line: 2872, col: 10, offset: 90900},
 																																								run: (*parser).callonDocumentFragment1199,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2873, col: 10, offset: 90962},
+																																									pos:        position{line: 2872, col: 10, offset: 90900},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9606,28 +9606,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2895, col: 8, offset: 91360},
+																																							pos: position{line: 2894, col: 8, offset: 91298},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2882, col: 12, offset: 91133},
+																																									pos: position{line: 2881, col: 12, offset: 91071},
 																																									run: (*parser).callonDocumentFragment1202,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2882, col: 13, offset: 91134},
+																																										pos: position{line: 2881, col: 13, offset: 91072},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2882, col: 13, offset: 91134},
+																																												pos:        position{line: 2881, col: 13, offset: 91072},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2882, col: 20, offset: 91141},
+																																												pos:        position{line: 2881, col: 20, offset: 91079},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2882, col: 29, offset: 91150},
+																																												pos:        position{line: 2881, col: 29, offset: 91088},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9636,9 +9636,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2892, col: 8, offset: 91310},
+																																									pos: position{line: 2891, col: 8, offset: 91248},
 																																									expr: &anyMatcher{
-																																										line: 2892, col: 9, offset: 91311,
+																																										line: 2891, col: 9, offset: 91249,
 																																									},
 																																								},
 																																							},
@@ -9646,35 +9646,35 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2892, col: 8, offset: 91310},
+																																					pos: position{line: 2891, col: 8, offset: 91248},
 																																					expr: &anyMatcher{
-																																						line: 2892, col: 9, offset: 91311,
+																																						line: 2891, col: 9, offset: 91249,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2655, col: 5, offset: 84535},
+																																		pos: position{line: 2654, col: 5, offset: 84473},
 																																		expr: &actionExpr{
-																																			pos: position{line: 677, col: 14, offset: 21558},
+																																			pos: position{line: 676, col: 14, offset: 21496},
 																																			run: (*parser).callonDocumentFragment1212,
 																																			expr: &seqExpr{
-																																				pos: position{line: 677, col: 14, offset: 21558},
+																																				pos: position{line: 676, col: 14, offset: 21496},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2890, col: 11, offset: 91296},
+																																						pos: position{line: 2889, col: 11, offset: 91234},
 																																						expr: &anyMatcher{
-																																							line: 2890, col: 13, offset: 91298,
+																																							line: 2889, col: 13, offset: 91236,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 677, col: 21, offset: 21565},
+																																						pos: position{line: 676, col: 21, offset: 21503},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2873, col: 10, offset: 90962},
+																																							pos: position{line: 2872, col: 10, offset: 90900},
 																																							run: (*parser).callonDocumentFragment1217,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2873, col: 10, offset: 90962},
+																																								pos:        position{line: 2872, col: 10, offset: 90900},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9683,28 +9683,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2895, col: 8, offset: 91360},
+																																						pos: position{line: 2894, col: 8, offset: 91298},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2882, col: 12, offset: 91133},
+																																								pos: position{line: 2881, col: 12, offset: 91071},
 																																								run: (*parser).callonDocumentFragment1220,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2882, col: 13, offset: 91134},
+																																									pos: position{line: 2881, col: 13, offset: 91072},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2882, col: 13, offset: 91134},
+																																											pos:        position{line: 2881, col: 13, offset: 91072},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2882, col: 20, offset: 91141},
+																																											pos:        position{line: 2881, col: 20, offset: 91079},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2882, col: 29, offset: 91150},
+																																											pos:        position{line: 2881, col: 29, offset: 91088},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9713,9 +9713,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2892, col: 8, offset: 91310},
+																																								pos: position{line: 2891, col: 8, offset: 91248},
 																																								expr: &anyMatcher{
-																																									line: 2892, col: 9, offset: 91311,
+																																									line: 2891, col: 9, offset: 91249,
 																																								},
 																																							},
 																																						},
@@ -9725,17 +9725,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2656, col: 5, offset: 84550},
+																																		pos:   position{line: 2655, col: 5, offset: 84488},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2656, col: 12, offset: 84557},
+																																			pos: position{line: 2655, col: 12, offset: 84495},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2673, col: 20, offset: 85021},
+																																				pos: position{line: 2672, col: 20, offset: 84959},
 																																				run: (*parser).callonDocumentFragment1229,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2673, col: 20, offset: 85021},
+																																					pos: position{line: 2672, col: 20, offset: 84959},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2673, col: 20, offset: 85021},
+																																						pos:        position{line: 2672, col: 20, offset: 84959},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9746,18 +9746,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2656, col: 31, offset: 84576},
+																																		pos:        position{line: 2655, col: 31, offset: 84514},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2656, col: 35, offset: 84580},
+																																		pos: position{line: 2655, col: 35, offset: 84518},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2873, col: 10, offset: 90962},
+																																			pos: position{line: 2872, col: 10, offset: 90900},
 																																			run: (*parser).callonDocumentFragment1234,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2873, col: 10, offset: 90962},
+																																				pos:        position{line: 2872, col: 10, offset: 90900},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9766,27 +9766,27 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2656, col: 42, offset: 84587},
+																																		pos: position{line: 2655, col: 42, offset: 84525},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2882, col: 12, offset: 91133},
+																																			pos: position{line: 2881, col: 12, offset: 91071},
 																																			run: (*parser).callonDocumentFragment1237,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2882, col: 13, offset: 91134},
+																																				pos: position{line: 2881, col: 13, offset: 91072},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2882, col: 13, offset: 91134},
+																																						pos:        position{line: 2881, col: 13, offset: 91072},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2882, col: 20, offset: 91141},
+																																						pos:        position{line: 2881, col: 20, offset: 91079},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2882, col: 29, offset: 91150},
+																																						pos:        position{line: 2881, col: 29, offset: 91088},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9796,37 +9796,37 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2656, col: 51, offset: 84596},
+																																		pos:   position{line: 2655, col: 51, offset: 84534},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2662, col: 5, offset: 84755},
+																																			pos: position{line: 2661, col: 5, offset: 84693},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2663, col: 9, offset: 84765},
+																																				pos: position{line: 2662, col: 9, offset: 84703},
 																																				run: (*parser).callonDocumentFragment1244,
 																																				expr: &seqExpr{
-																																					pos: position{line: 2663, col: 9, offset: 84765},
+																																					pos: position{line: 2662, col: 9, offset: 84703},
 																																					exprs: []interface{}{
 																																						&notExpr{
-																																							pos: position{line: 2663, col: 9, offset: 84765},
+																																							pos: position{line: 2662, col: 9, offset: 84703},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2619, col: 22, offset: 83709},
+																																								pos: position{line: 2618, col: 22, offset: 83647},
 																																								alternatives: []interface{}{
 																																									&seqExpr{
-																																										pos: position{line: 2615, col: 19, offset: 83629},
+																																										pos: position{line: 2614, col: 19, offset: 83567},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2615, col: 19, offset: 83629},
+																																												pos:        position{line: 2614, col: 19, offset: 83567},
 																																												val:        "|===",
 																																												ignoreCase: false,
 																																												want:       "\"|===\"",
 																																											},
 																																											&zeroOrMoreExpr{
-																																												pos: position{line: 2615, col: 26, offset: 83636},
+																																												pos: position{line: 2614, col: 26, offset: 83574},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2873, col: 10, offset: 90962},
+																																													pos: position{line: 2872, col: 10, offset: 90900},
 																																													run: (*parser).callonDocumentFragment1251,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2873, col: 10, offset: 90962},
+																																														pos:        position{line: 2872, col: 10, offset: 90900},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -9835,28 +9835,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2895, col: 8, offset: 91360},
+																																												pos: position{line: 2894, col: 8, offset: 91298},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2882, col: 12, offset: 91133},
+																																														pos: position{line: 2881, col: 12, offset: 91071},
 																																														run: (*parser).callonDocumentFragment1254,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2882, col: 13, offset: 91134},
+																																															pos: position{line: 2881, col: 13, offset: 91072},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2882, col: 13, offset: 91134},
+																																																	pos:        position{line: 2881, col: 13, offset: 91072},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2882, col: 20, offset: 91141},
+																																																	pos:        position{line: 2881, col: 20, offset: 91079},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2882, col: 29, offset: 91150},
+																																																	pos:        position{line: 2881, col: 29, offset: 91088},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -9865,9 +9865,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2892, col: 8, offset: 91310},
+																																														pos: position{line: 2891, col: 8, offset: 91248},
 																																														expr: &anyMatcher{
-																																															line: 2892, col: 9, offset: 91311,
+																																															line: 2891, col: 9, offset: 91249,
 																																														},
 																																													},
 																																												},
@@ -9875,35 +9875,35 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2892, col: 8, offset: 91310},
+																																										pos: position{line: 2891, col: 8, offset: 91248},
 																																										expr: &anyMatcher{
-																																											line: 2892, col: 9, offset: 91311,
+																																											line: 2891, col: 9, offset: 91249,
 																																										},
 																																									},
 																																								},
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2664, col: 9, offset: 84792},
+																																							pos: position{line: 2663, col: 9, offset: 84730},
 																																							expr: &actionExpr{
-																																								pos: position{line: 677, col: 14, offset: 21558},
+																																								pos: position{line: 676, col: 14, offset: 21496},
 																																								run: (*parser).callonDocumentFragment1264,
 																																								expr: &seqExpr{
-																																									pos: position{line: 677, col: 14, offset: 21558},
+																																									pos: position{line: 676, col: 14, offset: 21496},
 																																									exprs: []interface{}{
 																																										&andExpr{
-																																											pos: position{line: 2890, col: 11, offset: 91296},
+																																											pos: position{line: 2889, col: 11, offset: 91234},
 																																											expr: &anyMatcher{
-																																												line: 2890, col: 13, offset: 91298,
+																																												line: 2889, col: 13, offset: 91236,
 																																											},
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 677, col: 21, offset: 21565},
+																																											pos: position{line: 676, col: 21, offset: 21503},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2873, col: 10, offset: 90962},
+																																												pos: position{line: 2872, col: 10, offset: 90900},
 																																												run: (*parser).callonDocumentFragment1269,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2873, col: 10, offset: 90962},
+																																													pos:        position{line: 2872, col: 10, offset: 90900},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -9912,28 +9912,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2895, col: 8, offset: 91360},
+																																											pos: position{line: 2894, col: 8, offset: 91298},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2882, col: 12, offset: 91133},
+																																													pos: position{line: 2881, col: 12, offset: 91071},
 																																													run: (*parser).callonDocumentFragment1272,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2882, col: 13, offset: 91134},
+																																														pos: position{line: 2881, col: 13, offset: 91072},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2882, col: 13, offset: 91134},
+																																																pos:        position{line: 2881, col: 13, offset: 91072},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2882, col: 20, offset: 91141},
+																																																pos:        position{line: 2881, col: 20, offset: 91079},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2882, col: 29, offset: 91150},
+																																																pos:        position{line: 2881, col: 29, offset: 91088},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -9942,9 +9942,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2892, col: 8, offset: 91310},
+																																													pos: position{line: 2891, col: 8, offset: 91248},
 																																													expr: &anyMatcher{
-																																														line: 2892, col: 9, offset: 91311,
+																																														line: 2891, col: 9, offset: 91249,
 																																													},
 																																												},
 																																											},
@@ -9954,22 +9954,22 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2665, col: 9, offset: 84811},
+																																							pos: position{line: 2664, col: 9, offset: 84749},
 																																							expr: &seqExpr{
-																																								pos: position{line: 2665, col: 11, offset: 84813},
+																																								pos: position{line: 2664, col: 11, offset: 84751},
 																																								exprs: []interface{}{
 																																									&labeledExpr{
-																																										pos:   position{line: 2665, col: 11, offset: 84813},
+																																										pos:   position{line: 2664, col: 11, offset: 84751},
 																																										label: "format",
 																																										expr: &zeroOrOneExpr{
-																																											pos: position{line: 2665, col: 18, offset: 84820},
+																																											pos: position{line: 2664, col: 18, offset: 84758},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2673, col: 20, offset: 85021},
+																																												pos: position{line: 2672, col: 20, offset: 84959},
 																																												run: (*parser).callonDocumentFragment1283,
 																																												expr: &zeroOrMoreExpr{
-																																													pos: position{line: 2673, col: 20, offset: 85021},
+																																													pos: position{line: 2672, col: 20, offset: 84959},
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2673, col: 20, offset: 85021},
+																																														pos:        position{line: 2672, col: 20, offset: 84959},
 																																														val:        "[^ |\\r\\n]",
 																																														chars:      []rune{' ', '|', '\r', '\n'},
 																																														ignoreCase: false,
@@ -9980,7 +9980,7 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2665, col: 37, offset: 84839},
+																																										pos:        position{line: 2664, col: 37, offset: 84777},
 																																										val:        "|",
 																																										ignoreCase: false,
 																																										want:       "\"|\"",
@@ -9989,15 +9989,15 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&labeledExpr{
-																																							pos:   position{line: 2666, col: 9, offset: 84852},
+																																							pos:   position{line: 2665, col: 9, offset: 84790},
 																																							label: "content",
 																																							expr: &actionExpr{
-																																								pos: position{line: 2666, col: 18, offset: 84861},
+																																								pos: position{line: 2665, col: 18, offset: 84799},
 																																								run: (*parser).callonDocumentFragment1288,
 																																								expr: &zeroOrMoreExpr{
-																																									pos: position{line: 2666, col: 18, offset: 84861},
+																																									pos: position{line: 2665, col: 18, offset: 84799},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2666, col: 18, offset: 84861},
+																																										pos:        position{line: 2665, col: 18, offset: 84799},
 																																										val:        "[^|\\r\\n]",
 																																										chars:      []rune{'|', '\r', '\n'},
 																																										ignoreCase: false,
@@ -10007,30 +10007,30 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&zeroOrOneExpr{
-																																							pos: position{line: 2668, col: 12, offset: 84923},
+																																							pos: position{line: 2667, col: 12, offset: 84861},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2895, col: 8, offset: 91360},
+																																								pos: position{line: 2894, col: 8, offset: 91298},
 																																								alternatives: []interface{}{
 																																									&actionExpr{
-																																										pos: position{line: 2882, col: 12, offset: 91133},
+																																										pos: position{line: 2881, col: 12, offset: 91071},
 																																										run: (*parser).callonDocumentFragment1293,
 																																										expr: &choiceExpr{
-																																											pos: position{line: 2882, col: 13, offset: 91134},
+																																											pos: position{line: 2881, col: 13, offset: 91072},
 																																											alternatives: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2882, col: 13, offset: 91134},
+																																													pos:        position{line: 2881, col: 13, offset: 91072},
 																																													val:        "\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2882, col: 20, offset: 91141},
+																																													pos:        position{line: 2881, col: 20, offset: 91079},
 																																													val:        "\r\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2882, col: 29, offset: 91150},
+																																													pos:        position{line: 2881, col: 29, offset: 91088},
 																																													val:        "\r",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\"",
@@ -10039,9 +10039,9 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2892, col: 8, offset: 91310},
+																																										pos: position{line: 2891, col: 8, offset: 91248},
 																																										expr: &anyMatcher{
-																																											line: 2892, col: 9, offset: 91311,
+																																											line: 2891, col: 9, offset: 91249,
 																																										},
 																																									},
 																																								},
@@ -10063,24 +10063,24 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 677, col: 14, offset: 21558},
+																								pos: position{line: 676, col: 14, offset: 21496},
 																								run: (*parser).callonDocumentFragment1300,
 																								expr: &seqExpr{
-																									pos: position{line: 677, col: 14, offset: 21558},
+																									pos: position{line: 676, col: 14, offset: 21496},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2890, col: 11, offset: 91296},
+																											pos: position{line: 2889, col: 11, offset: 91234},
 																											expr: &anyMatcher{
-																												line: 2890, col: 13, offset: 91298,
+																												line: 2889, col: 13, offset: 91236,
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 677, col: 21, offset: 21565},
+																											pos: position{line: 676, col: 21, offset: 21503},
 																											expr: &actionExpr{
-																												pos: position{line: 2873, col: 10, offset: 90962},
+																												pos: position{line: 2872, col: 10, offset: 90900},
 																												run: (*parser).callonDocumentFragment1305,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2873, col: 10, offset: 90962},
+																													pos:        position{line: 2872, col: 10, offset: 90900},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -10089,28 +10089,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91360},
+																											pos: position{line: 2894, col: 8, offset: 91298},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 91133},
+																													pos: position{line: 2881, col: 12, offset: 91071},
 																													run: (*parser).callonDocumentFragment1308,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 91134},
+																														pos: position{line: 2881, col: 13, offset: 91072},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 91134},
+																																pos:        position{line: 2881, col: 13, offset: 91072},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 91141},
+																																pos:        position{line: 2881, col: 20, offset: 91079},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 91150},
+																																pos:        position{line: 2881, col: 29, offset: 91088},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -10119,9 +10119,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91310},
+																													pos: position{line: 2891, col: 8, offset: 91248},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91311,
+																														line: 2891, col: 9, offset: 91249,
 																													},
 																												},
 																											},
@@ -10140,24 +10140,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2619, col: 22, offset: 83709},
+														pos: position{line: 2618, col: 22, offset: 83647},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2615, col: 19, offset: 83629},
+																pos: position{line: 2614, col: 19, offset: 83567},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2615, col: 19, offset: 83629},
+																		pos:        position{line: 2614, col: 19, offset: 83567},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2615, col: 26, offset: 83636},
+																		pos: position{line: 2614, col: 26, offset: 83574},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90962},
+																			pos: position{line: 2872, col: 10, offset: 90900},
 																			run: (*parser).callonDocumentFragment1319,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90962},
+																				pos:        position{line: 2872, col: 10, offset: 90900},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10166,28 +10166,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91360},
+																		pos: position{line: 2894, col: 8, offset: 91298},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91133},
+																				pos: position{line: 2881, col: 12, offset: 91071},
 																				run: (*parser).callonDocumentFragment1322,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91134},
+																					pos: position{line: 2881, col: 13, offset: 91072},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91134},
+																							pos:        position{line: 2881, col: 13, offset: 91072},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91141},
+																							pos:        position{line: 2881, col: 20, offset: 91079},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91150},
+																							pos:        position{line: 2881, col: 29, offset: 91088},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10196,9 +10196,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91310},
+																				pos: position{line: 2891, col: 8, offset: 91248},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91311,
+																					line: 2891, col: 9, offset: 91249,
 																				},
 																			},
 																		},
@@ -10206,9 +10206,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2892, col: 8, offset: 91310},
+																pos: position{line: 2891, col: 8, offset: 91248},
 																expr: &anyMatcher{
-																	line: 2892, col: 9, offset: 91311,
+																	line: 2891, col: 9, offset: 91249,
 																},
 															},
 														},
@@ -10217,36 +10217,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2480, col: 22, offset: 79848},
+											pos: position{line: 2479, col: 22, offset: 79786},
 											run: (*parser).callonDocumentFragment1331,
 											expr: &seqExpr{
-												pos: position{line: 2480, col: 22, offset: 79848},
+												pos: position{line: 2479, col: 22, offset: 79786},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2485, col: 31, offset: 80069},
+														pos:        position{line: 2484, col: 31, offset: 80007},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2485, col: 36, offset: 80074},
+														pos: position{line: 2484, col: 36, offset: 80012},
 														expr: &litMatcher{
-															pos:        position{line: 2485, col: 37, offset: 80075},
+															pos:        position{line: 2484, col: 37, offset: 80013},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2480, col: 49, offset: 79875},
+														pos:   position{line: 2479, col: 49, offset: 79813},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2819, col: 13, offset: 89488},
+															pos: position{line: 2818, col: 13, offset: 89426},
 															run: (*parser).callonDocumentFragment1337,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2819, col: 13, offset: 89488},
+																pos: position{line: 2818, col: 13, offset: 89426},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2819, col: 13, offset: 89488},
+																	pos:        position{line: 2818, col: 13, offset: 89426},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10256,28 +10256,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2895, col: 8, offset: 91360},
+														pos: position{line: 2894, col: 8, offset: 91298},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2882, col: 12, offset: 91133},
+																pos: position{line: 2881, col: 12, offset: 91071},
 																run: (*parser).callonDocumentFragment1341,
 																expr: &choiceExpr{
-																	pos: position{line: 2882, col: 13, offset: 91134},
+																	pos: position{line: 2881, col: 13, offset: 91072},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 13, offset: 91134},
+																			pos:        position{line: 2881, col: 13, offset: 91072},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 20, offset: 91141},
+																			pos:        position{line: 2881, col: 20, offset: 91079},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 29, offset: 91150},
+																			pos:        position{line: 2881, col: 29, offset: 91088},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10286,9 +10286,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2892, col: 8, offset: 91310},
+																pos: position{line: 2891, col: 8, offset: 91248},
 																expr: &anyMatcher{
-																	line: 2892, col: 9, offset: 91311,
+																	line: 2891, col: 9, offset: 91249,
 																},
 															},
 														},
@@ -10297,37 +10297,37 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1222, col: 5, offset: 37892},
+											pos: position{line: 1221, col: 5, offset: 37830},
 											run: (*parser).callonDocumentFragment1348,
 											expr: &seqExpr{
-												pos: position{line: 1222, col: 5, offset: 37892},
+												pos: position{line: 1221, col: 5, offset: 37830},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 1222, col: 5, offset: 37892},
+														pos: position{line: 1221, col: 5, offset: 37830},
 														run: (*parser).callonDocumentFragment1350,
 													},
 													&labeledExpr{
-														pos:   position{line: 1225, col: 5, offset: 37950},
+														pos:   position{line: 1224, col: 5, offset: 37888},
 														label: "frontmatter",
 														expr: &actionExpr{
-															pos: position{line: 1230, col: 20, offset: 38045},
+															pos: position{line: 1229, col: 20, offset: 37983},
 															run: (*parser).callonDocumentFragment1352,
 															expr: &seqExpr{
-																pos: position{line: 1230, col: 20, offset: 38045},
+																pos: position{line: 1229, col: 20, offset: 37983},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1234, col: 30, offset: 38265},
+																		pos:        position{line: 1233, col: 30, offset: 38203},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1234, col: 36, offset: 38271},
+																		pos: position{line: 1233, col: 36, offset: 38209},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90962},
+																			pos: position{line: 2872, col: 10, offset: 90900},
 																			run: (*parser).callonDocumentFragment1356,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90962},
+																				pos:        position{line: 2872, col: 10, offset: 90900},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10336,28 +10336,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91360},
+																		pos: position{line: 2894, col: 8, offset: 91298},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91133},
+																				pos: position{line: 2881, col: 12, offset: 91071},
 																				run: (*parser).callonDocumentFragment1359,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91134},
+																					pos: position{line: 2881, col: 13, offset: 91072},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91134},
+																							pos:        position{line: 2881, col: 13, offset: 91072},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91141},
+																							pos:        position{line: 2881, col: 20, offset: 91079},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91150},
+																							pos:        position{line: 2881, col: 29, offset: 91088},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10366,46 +10366,46 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91310},
+																				pos: position{line: 2891, col: 8, offset: 91248},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91311,
+																					line: 2891, col: 9, offset: 91249,
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1230, col: 45, offset: 38070},
+																		pos:   position{line: 1229, col: 45, offset: 38008},
 																		label: "content",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 1230, col: 53, offset: 38078},
+																			pos: position{line: 1229, col: 53, offset: 38016},
 																			expr: &actionExpr{
-																				pos: position{line: 1236, col: 27, offset: 38309},
+																				pos: position{line: 1235, col: 27, offset: 38247},
 																				run: (*parser).callonDocumentFragment1368,
 																				expr: &zeroOrMoreExpr{
-																					pos: position{line: 1236, col: 27, offset: 38309},
+																					pos: position{line: 1235, col: 27, offset: 38247},
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1236, col: 28, offset: 38310},
+																						pos: position{line: 1235, col: 28, offset: 38248},
 																						expr: &seqExpr{
-																							pos: position{line: 1236, col: 29, offset: 38311},
+																							pos: position{line: 1235, col: 29, offset: 38249},
 																							exprs: []interface{}{
 																								&notExpr{
-																									pos: position{line: 1236, col: 29, offset: 38311},
+																									pos: position{line: 1235, col: 29, offset: 38249},
 																									expr: &seqExpr{
-																										pos: position{line: 1234, col: 30, offset: 38265},
+																										pos: position{line: 1233, col: 30, offset: 38203},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 1234, col: 30, offset: 38265},
+																												pos:        position{line: 1233, col: 30, offset: 38203},
 																												val:        "---",
 																												ignoreCase: false,
 																												want:       "\"---\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 1234, col: 36, offset: 38271},
+																												pos: position{line: 1233, col: 36, offset: 38209},
 																												expr: &actionExpr{
-																													pos: position{line: 2873, col: 10, offset: 90962},
+																													pos: position{line: 2872, col: 10, offset: 90900},
 																													run: (*parser).callonDocumentFragment1376,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2873, col: 10, offset: 90962},
+																														pos:        position{line: 2872, col: 10, offset: 90900},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -10414,28 +10414,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2895, col: 8, offset: 91360},
+																												pos: position{line: 2894, col: 8, offset: 91298},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2882, col: 12, offset: 91133},
+																														pos: position{line: 2881, col: 12, offset: 91071},
 																														run: (*parser).callonDocumentFragment1379,
 																														expr: &choiceExpr{
-																															pos: position{line: 2882, col: 13, offset: 91134},
+																															pos: position{line: 2881, col: 13, offset: 91072},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 13, offset: 91134},
+																																	pos:        position{line: 2881, col: 13, offset: 91072},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 20, offset: 91141},
+																																	pos:        position{line: 2881, col: 20, offset: 91079},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2882, col: 29, offset: 91150},
+																																	pos:        position{line: 2881, col: 29, offset: 91088},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -10444,9 +10444,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2892, col: 8, offset: 91310},
+																														pos: position{line: 2891, col: 8, offset: 91248},
 																														expr: &anyMatcher{
-																															line: 2892, col: 9, offset: 91311,
+																															line: 2891, col: 9, offset: 91249,
 																														},
 																													},
 																												},
@@ -10455,7 +10455,7 @@ var g = &grammar{
 																									},
 																								},
 																								&anyMatcher{
-																									line: 1236, col: 55, offset: 38337,
+																									line: 1235, col: 55, offset: 38275,
 																								},
 																							},
 																						},
@@ -10465,18 +10465,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1234, col: 30, offset: 38265},
+																		pos:        position{line: 1233, col: 30, offset: 38203},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1234, col: 36, offset: 38271},
+																		pos: position{line: 1233, col: 36, offset: 38209},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90962},
+																			pos: position{line: 2872, col: 10, offset: 90900},
 																			run: (*parser).callonDocumentFragment1389,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90962},
+																				pos:        position{line: 2872, col: 10, offset: 90900},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10485,28 +10485,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91360},
+																		pos: position{line: 2894, col: 8, offset: 91298},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91133},
+																				pos: position{line: 2881, col: 12, offset: 91071},
 																				run: (*parser).callonDocumentFragment1392,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91134},
+																					pos: position{line: 2881, col: 13, offset: 91072},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91134},
+																							pos:        position{line: 2881, col: 13, offset: 91072},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91141},
+																							pos:        position{line: 2881, col: 20, offset: 91079},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91150},
+																							pos:        position{line: 2881, col: 29, offset: 91088},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10515,15 +10515,15 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91310},
+																				pos: position{line: 2891, col: 8, offset: 91248},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91311,
+																					line: 2891, col: 9, offset: 91249,
 																				},
 																			},
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1230, col: 104, offset: 38129},
+																		pos: position{line: 1229, col: 104, offset: 38067},
 																		run: (*parser).callonDocumentFragment1399,
 																	},
 																},
@@ -10567,60 +10567,16 @@ var g = &grammar{
 							label: "elements",
 							expr: &zeroOrMoreExpr{
 								pos: position{line: 281, col: 14, offset: 8378},
-								expr: &choiceExpr{
-									pos: position{line: 282, col: 9, offset: 8388},
-									alternatives: []interface{}{
-										&actionExpr{
-											pos: position{line: 1198, col: 23, offset: 37046},
-											run: (*parser).callonDelimitedBlockElements7,
-											expr: &seqExpr{
-												pos: position{line: 1198, col: 23, offset: 37046},
-												exprs: []interface{}{
-													&litMatcher{
-														pos:        position{line: 1196, col: 32, offset: 37014},
-														val:        "�",
-														ignoreCase: false,
-														want:       "\"�\"",
-													},
-													&labeledExpr{
-														pos:   position{line: 1198, col: 51, offset: 37074},
-														label: "ref",
-														expr: &actionExpr{
-															pos: position{line: 1198, col: 56, offset: 37079},
-															run: (*parser).callonDelimitedBlockElements11,
-															expr: &oneOrMoreExpr{
-																pos: position{line: 1198, col: 56, offset: 37079},
-																expr: &charClassMatcher{
-																	pos:        position{line: 1198, col: 56, offset: 37079},
-																	val:        "[0-9]",
-																	ranges:     []rune{'0', '9'},
-																	ignoreCase: false,
-																	inverted:   false,
-																},
-															},
-														},
-													},
-													&litMatcher{
-														pos:        position{line: 1196, col: 32, offset: 37014},
-														val:        "�",
-														ignoreCase: false,
-														want:       "\"�\"",
-													},
-												},
-											},
-										},
-										&ruleRefExpr{
-											pos:  position{line: 283, col: 11, offset: 8450},
-											name: "DocumentFragment",
-										},
-									},
+								expr: &ruleRefExpr{
+									pos:  position{line: 282, col: 9, offset: 8388},
+									name: "DocumentFragment",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2892, col: 8, offset: 91310},
+							pos: position{line: 2891, col: 8, offset: 91248},
 							expr: &anyMatcher{
-								line: 2892, col: 9, offset: 91311,
+								line: 2891, col: 9, offset: 91249,
 							},
 						},
 					},
@@ -10629,30 +10585,30 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeDeclaration",
-			pos:  position{line: 302, col: 1, offset: 9153},
+			pos:  position{line: 301, col: 1, offset: 9091},
 			expr: &actionExpr{
-				pos: position{line: 303, col: 5, offset: 9182},
+				pos: position{line: 302, col: 5, offset: 9120},
 				run: (*parser).callonAttributeDeclaration1,
 				expr: &seqExpr{
-					pos: position{line: 303, col: 5, offset: 9182},
+					pos: position{line: 302, col: 5, offset: 9120},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 303, col: 5, offset: 9182},
+							pos:        position{line: 302, col: 5, offset: 9120},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 303, col: 9, offset: 9186},
+							pos:   position{line: 302, col: 9, offset: 9124},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 318, col: 18, offset: 9729},
+								pos: position{line: 317, col: 18, offset: 9667},
 								run: (*parser).callonAttributeDeclaration5,
 								expr: &seqExpr{
-									pos: position{line: 318, col: 18, offset: 9729},
+									pos: position{line: 317, col: 18, offset: 9667},
 									exprs: []interface{}{
 										&charClassMatcher{
-											pos:        position{line: 318, col: 18, offset: 9729},
+											pos:        position{line: 317, col: 18, offset: 9667},
 											val:        "[_\\pL\\pN]",
 											chars:      []rune{'_'},
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -10660,9 +10616,9 @@ var g = &grammar{
 											inverted:   false,
 										},
 										&zeroOrMoreExpr{
-											pos: position{line: 318, col: 28, offset: 9739},
+											pos: position{line: 317, col: 28, offset: 9677},
 											expr: &charClassMatcher{
-												pos:        position{line: 318, col: 29, offset: 9740},
+												pos:        position{line: 317, col: 29, offset: 9678},
 												val:        "[_-\\pL\\pN]",
 												chars:      []rune{'_', '-'},
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -10675,29 +10631,29 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 303, col: 30, offset: 9207},
+							pos:        position{line: 302, col: 30, offset: 9145},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 304, col: 5, offset: 9216},
+							pos:   position{line: 303, col: 5, offset: 9154},
 							label: "value",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 304, col: 11, offset: 9222},
+								pos: position{line: 303, col: 11, offset: 9160},
 								expr: &actionExpr{
-									pos: position{line: 305, col: 9, offset: 9232},
+									pos: position{line: 304, col: 9, offset: 9170},
 									run: (*parser).callonAttributeDeclaration13,
 									expr: &seqExpr{
-										pos: position{line: 305, col: 9, offset: 9232},
+										pos: position{line: 304, col: 9, offset: 9170},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2877, col: 11, offset: 91023},
+												pos: position{line: 2876, col: 11, offset: 90961},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2877, col: 11, offset: 91023},
+													pos: position{line: 2876, col: 11, offset: 90961},
 													expr: &charClassMatcher{
-														pos:        position{line: 2877, col: 11, offset: 91023},
+														pos:        position{line: 2876, col: 11, offset: 90961},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10706,10 +10662,10 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 306, col: 9, offset: 9324},
+												pos:   position{line: 305, col: 9, offset: 9262},
 												label: "value",
 												expr: &ruleRefExpr{
-													pos:  position{line: 306, col: 16, offset: 9331},
+													pos:  position{line: 305, col: 16, offset: 9269},
 													name: "AttributeDeclarationValue",
 												},
 											},
@@ -10719,12 +10675,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 310, col: 5, offset: 9412},
+							pos: position{line: 309, col: 5, offset: 9350},
 							expr: &actionExpr{
-								pos: position{line: 2873, col: 10, offset: 90962},
+								pos: position{line: 2872, col: 10, offset: 90900},
 								run: (*parser).callonAttributeDeclaration21,
 								expr: &charClassMatcher{
-									pos:        position{line: 2873, col: 10, offset: 90962},
+									pos:        position{line: 2872, col: 10, offset: 90900},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -10733,28 +10689,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2895, col: 8, offset: 91360},
+							pos: position{line: 2894, col: 8, offset: 91298},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2882, col: 12, offset: 91133},
+									pos: position{line: 2881, col: 12, offset: 91071},
 									run: (*parser).callonAttributeDeclaration24,
 									expr: &choiceExpr{
-										pos: position{line: 2882, col: 13, offset: 91134},
+										pos: position{line: 2881, col: 13, offset: 91072},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2882, col: 13, offset: 91134},
+												pos:        position{line: 2881, col: 13, offset: 91072},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 20, offset: 91141},
+												pos:        position{line: 2881, col: 20, offset: 91079},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 29, offset: 91150},
+												pos:        position{line: 2881, col: 29, offset: 91088},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10763,9 +10719,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2892, col: 8, offset: 91310},
+									pos: position{line: 2891, col: 8, offset: 91248},
 									expr: &anyMatcher{
-										line: 2892, col: 9, offset: 91311,
+										line: 2891, col: 9, offset: 91249,
 									},
 								},
 							},
@@ -10776,45 +10732,45 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeDeclarationValue",
-			pos:  position{line: 322, col: 1, offset: 9797},
+			pos:  position{line: 321, col: 1, offset: 9735},
 			expr: &actionExpr{
-				pos: position{line: 323, col: 5, offset: 9831},
+				pos: position{line: 322, col: 5, offset: 9769},
 				run: (*parser).callonAttributeDeclarationValue1,
 				expr: &seqExpr{
-					pos: position{line: 323, col: 5, offset: 9831},
+					pos: position{line: 322, col: 5, offset: 9769},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 323, col: 5, offset: 9831},
+							pos:   position{line: 322, col: 5, offset: 9769},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 323, col: 15, offset: 9841},
+								pos:  position{line: 322, col: 15, offset: 9779},
 								name: "AttributeDeclarationValueElements",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 324, col: 5, offset: 9881},
+							pos:   position{line: 323, col: 5, offset: 9819},
 							label: "otherElements",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 324, col: 19, offset: 9895},
+								pos: position{line: 323, col: 19, offset: 9833},
 								expr: &actionExpr{
-									pos: position{line: 325, col: 9, offset: 9905},
+									pos: position{line: 324, col: 9, offset: 9843},
 									run: (*parser).callonAttributeDeclarationValue7,
 									expr: &seqExpr{
-										pos: position{line: 325, col: 9, offset: 9905},
+										pos: position{line: 324, col: 9, offset: 9843},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 325, col: 9, offset: 9905},
+												pos:        position{line: 324, col: 9, offset: 9843},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 325, col: 14, offset: 9910},
+												pos: position{line: 324, col: 14, offset: 9848},
 												expr: &actionExpr{
-													pos: position{line: 2873, col: 10, offset: 90962},
+													pos: position{line: 2872, col: 10, offset: 90900},
 													run: (*parser).callonAttributeDeclarationValue11,
 													expr: &charClassMatcher{
-														pos:        position{line: 2873, col: 10, offset: 90962},
+														pos:        position{line: 2872, col: 10, offset: 90900},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10823,25 +10779,25 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 2882, col: 12, offset: 91133},
+												pos: position{line: 2881, col: 12, offset: 91071},
 												run: (*parser).callonAttributeDeclarationValue13,
 												expr: &choiceExpr{
-													pos: position{line: 2882, col: 13, offset: 91134},
+													pos: position{line: 2881, col: 13, offset: 91072},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2882, col: 13, offset: 91134},
+															pos:        position{line: 2881, col: 13, offset: 91072},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2882, col: 20, offset: 91141},
+															pos:        position{line: 2881, col: 20, offset: 91079},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2882, col: 29, offset: 91150},
+															pos:        position{line: 2881, col: 29, offset: 91088},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10850,12 +10806,12 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 326, col: 9, offset: 9934},
+												pos: position{line: 325, col: 9, offset: 9872},
 												expr: &actionExpr{
-													pos: position{line: 2873, col: 10, offset: 90962},
+													pos: position{line: 2872, col: 10, offset: 90900},
 													run: (*parser).callonAttributeDeclarationValue19,
 													expr: &charClassMatcher{
-														pos:        position{line: 2873, col: 10, offset: 90962},
+														pos:        position{line: 2872, col: 10, offset: 90900},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10864,10 +10820,10 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 327, col: 9, offset: 9949},
+												pos:   position{line: 326, col: 9, offset: 9887},
 												label: "elements",
 												expr: &ruleRefExpr{
-													pos:  position{line: 327, col: 19, offset: 9959},
+													pos:  position{line: 326, col: 19, offset: 9897},
 													name: "AttributeDeclarationValueElements",
 												},
 											},
@@ -10882,17 +10838,17 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeDeclarationValueElements",
-			pos:  position{line: 338, col: 1, offset: 10289},
+			pos:  position{line: 337, col: 1, offset: 10227},
 			expr: &actionExpr{
-				pos: position{line: 339, col: 5, offset: 10331},
+				pos: position{line: 338, col: 5, offset: 10269},
 				run: (*parser).callonAttributeDeclarationValueElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 339, col: 5, offset: 10331},
+					pos:   position{line: 338, col: 5, offset: 10269},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 339, col: 14, offset: 10340},
+						pos: position{line: 338, col: 14, offset: 10278},
 						expr: &ruleRefExpr{
-							pos:  position{line: 339, col: 15, offset: 10341},
+							pos:  position{line: 338, col: 15, offset: 10279},
 							name: "AttributeDeclarationValueElement",
 						},
 					},
@@ -10901,34 +10857,34 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeDeclarationValueElement",
-			pos:  position{line: 343, col: 1, offset: 10430},
+			pos:  position{line: 342, col: 1, offset: 10368},
 			expr: &actionExpr{
-				pos: position{line: 344, col: 5, offset: 10471},
+				pos: position{line: 343, col: 5, offset: 10409},
 				run: (*parser).callonAttributeDeclarationValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 344, col: 5, offset: 10471},
+					pos: position{line: 343, col: 5, offset: 10409},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 344, col: 5, offset: 10471},
+							pos: position{line: 343, col: 5, offset: 10409},
 							expr: &seqExpr{
-								pos: position{line: 344, col: 7, offset: 10473},
+								pos: position{line: 343, col: 7, offset: 10411},
 								exprs: []interface{}{
 									&zeroOrOneExpr{
-										pos: position{line: 344, col: 7, offset: 10473},
+										pos: position{line: 343, col: 7, offset: 10411},
 										expr: &litMatcher{
-											pos:        position{line: 344, col: 7, offset: 10473},
+											pos:        position{line: 343, col: 7, offset: 10411},
 											val:        "\\",
 											ignoreCase: false,
 											want:       "\"\\\\\"",
 										},
 									},
 									&zeroOrMoreExpr{
-										pos: position{line: 344, col: 13, offset: 10479},
+										pos: position{line: 343, col: 13, offset: 10417},
 										expr: &actionExpr{
-											pos: position{line: 2873, col: 10, offset: 90962},
+											pos: position{line: 2872, col: 10, offset: 90900},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2873, col: 10, offset: 90962},
+												pos:        position{line: 2872, col: 10, offset: 90900},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10937,28 +10893,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2895, col: 8, offset: 91360},
+										pos: position{line: 2894, col: 8, offset: 91298},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2882, col: 12, offset: 91133},
+												pos: position{line: 2881, col: 12, offset: 91071},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2882, col: 13, offset: 91134},
+													pos: position{line: 2881, col: 13, offset: 91072},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2882, col: 13, offset: 91134},
+															pos:        position{line: 2881, col: 13, offset: 91072},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2882, col: 20, offset: 91141},
+															pos:        position{line: 2881, col: 20, offset: 91079},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2882, col: 29, offset: 91150},
+															pos:        position{line: 2881, col: 29, offset: 91088},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10967,9 +10923,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2892, col: 8, offset: 91310},
+												pos: position{line: 2891, col: 8, offset: 91248},
 												expr: &anyMatcher{
-													line: 2892, col: 9, offset: 91311,
+													line: 2891, col: 9, offset: 91249,
 												},
 											},
 										},
@@ -10978,22 +10934,22 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 345, col: 5, offset: 10495},
+							pos:   position{line: 344, col: 5, offset: 10433},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 346, col: 9, offset: 10513},
+								pos: position{line: 345, col: 9, offset: 10451},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 346, col: 9, offset: 10513},
+										pos:  position{line: 345, col: 9, offset: 10451},
 										name: "InlinePassthrough",
 									},
 									&actionExpr{
-										pos: position{line: 347, col: 12, offset: 10542},
+										pos: position{line: 346, col: 12, offset: 10480},
 										run: (*parser).callonAttributeDeclarationValueElement21,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 347, col: 12, offset: 10542},
+											pos: position{line: 346, col: 12, offset: 10480},
 											expr: &charClassMatcher{
-												pos:        position{line: 347, col: 12, offset: 10542},
+												pos:        position{line: 346, col: 12, offset: 10480},
 												val:        "[^\\r\\n<>&{ ]",
 												chars:      []rune{'\r', '\n', '<', '>', '&', '{', ' '},
 												ignoreCase: false,
@@ -11002,23 +10958,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2467, col: 5, offset: 79394},
+										pos: position{line: 2466, col: 5, offset: 79332},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2467, col: 5, offset: 79394},
+											pos: position{line: 2466, col: 5, offset: 79332},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2467, col: 5, offset: 79394},
+													pos: position{line: 2466, col: 5, offset: 79332},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2470, col: 5, offset: 79470},
+													pos:   position{line: 2469, col: 5, offset: 79408},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2471, col: 9, offset: 79488},
+														pos: position{line: 2470, col: 9, offset: 79426},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2471, col: 10, offset: 79489},
+															pos:        position{line: 2470, col: 10, offset: 79427},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -11030,10 +10986,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2873, col: 10, offset: 90962},
+										pos: position{line: 2872, col: 10, offset: 90900},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2873, col: 10, offset: 90962},
+											pos:        position{line: 2872, col: 10, offset: 90900},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -11041,44 +10997,44 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 636, col: 5, offset: 20178},
+										pos: position{line: 635, col: 5, offset: 20116},
 										run: (*parser).callonAttributeDeclarationValueElement32,
 										expr: &seqExpr{
-											pos: position{line: 636, col: 5, offset: 20178},
+											pos: position{line: 635, col: 5, offset: 20116},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 636, col: 5, offset: 20178},
+													pos: position{line: 635, col: 5, offset: 20116},
 													run: (*parser).callonAttributeDeclarationValueElement34,
 												},
 												&labeledExpr{
-													pos:   position{line: 639, col: 5, offset: 20250},
+													pos:   position{line: 638, col: 5, offset: 20188},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 639, col: 14, offset: 20259},
+														pos: position{line: 638, col: 14, offset: 20197},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 645, col: 5, offset: 20388},
+																pos: position{line: 644, col: 5, offset: 20326},
 																run: (*parser).callonAttributeDeclarationValueElement37,
 																expr: &seqExpr{
-																	pos: position{line: 645, col: 5, offset: 20388},
+																	pos: position{line: 644, col: 5, offset: 20326},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 645, col: 5, offset: 20388},
+																			pos:        position{line: 644, col: 5, offset: 20326},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 645, col: 13, offset: 20396},
+																			pos:   position{line: 644, col: 13, offset: 20334},
 																			label: "name",
 																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9729},
+																				pos: position{line: 317, col: 18, offset: 9667},
 																				run: (*parser).callonAttributeDeclarationValueElement41,
 																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9729},
+																					pos: position{line: 317, col: 18, offset: 9667},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9729},
+																							pos:        position{line: 317, col: 18, offset: 9667},
 																							val:        "[_\\pL\\pN]",
 																							chars:      []rune{'_'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11086,9 +11042,9 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9739},
+																							pos: position{line: 317, col: 28, offset: 9677},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9740},
+																								pos:        position{line: 317, col: 29, offset: 9678},
 																								val:        "[_-\\pL\\pN]",
 																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11101,7 +11057,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 645, col: 32, offset: 20415},
+																			pos:        position{line: 644, col: 32, offset: 20353},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11110,28 +11066,28 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 652, col: 5, offset: 20656},
+																pos: position{line: 651, col: 5, offset: 20594},
 																run: (*parser).callonAttributeDeclarationValueElement47,
 																expr: &seqExpr{
-																	pos: position{line: 652, col: 5, offset: 20656},
+																	pos: position{line: 651, col: 5, offset: 20594},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 652, col: 5, offset: 20656},
+																			pos:        position{line: 651, col: 5, offset: 20594},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 652, col: 9, offset: 20660},
+																			pos:   position{line: 651, col: 9, offset: 20598},
 																			label: "name",
 																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9729},
+																				pos: position{line: 317, col: 18, offset: 9667},
 																				run: (*parser).callonAttributeDeclarationValueElement51,
 																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9729},
+																					pos: position{line: 317, col: 18, offset: 9667},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9729},
+																							pos:        position{line: 317, col: 18, offset: 9667},
 																							val:        "[_\\pL\\pN]",
 																							chars:      []rune{'_'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11139,9 +11095,9 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9739},
+																							pos: position{line: 317, col: 28, offset: 9677},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9740},
+																								pos:        position{line: 317, col: 29, offset: 9678},
 																								val:        "[_-\\pL\\pN]",
 																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11154,7 +11110,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 652, col: 28, offset: 20679},
+																			pos:        position{line: 651, col: 28, offset: 20617},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11163,28 +11119,28 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 658, col: 25, offset: 20860},
+																pos: position{line: 657, col: 25, offset: 20798},
 																run: (*parser).callonAttributeDeclarationValueElement57,
 																expr: &seqExpr{
-																	pos: position{line: 658, col: 25, offset: 20860},
+																	pos: position{line: 657, col: 25, offset: 20798},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 658, col: 25, offset: 20860},
+																			pos:        position{line: 657, col: 25, offset: 20798},
 																			val:        "{counter:",
 																			ignoreCase: false,
 																			want:       "\"{counter:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 658, col: 37, offset: 20872},
+																			pos:   position{line: 657, col: 37, offset: 20810},
 																			label: "name",
 																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9729},
+																				pos: position{line: 317, col: 18, offset: 9667},
 																				run: (*parser).callonAttributeDeclarationValueElement61,
 																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9729},
+																					pos: position{line: 317, col: 18, offset: 9667},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9729},
+																							pos:        position{line: 317, col: 18, offset: 9667},
 																							val:        "[_\\pL\\pN]",
 																							chars:      []rune{'_'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11192,9 +11148,9 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9739},
+																							pos: position{line: 317, col: 28, offset: 9677},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9740},
+																								pos:        position{line: 317, col: 29, offset: 9678},
 																								val:        "[_-\\pL\\pN]",
 																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11207,33 +11163,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 658, col: 56, offset: 20891},
+																			pos:   position{line: 657, col: 56, offset: 20829},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 658, col: 62, offset: 20897},
+																				pos: position{line: 657, col: 62, offset: 20835},
 																				expr: &actionExpr{
-																					pos: position{line: 666, col: 17, offset: 21192},
+																					pos: position{line: 665, col: 17, offset: 21130},
 																					run: (*parser).callonAttributeDeclarationValueElement68,
 																					expr: &seqExpr{
-																						pos: position{line: 666, col: 17, offset: 21192},
+																						pos: position{line: 665, col: 17, offset: 21130},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 666, col: 17, offset: 21192},
+																								pos:        position{line: 665, col: 17, offset: 21130},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 666, col: 21, offset: 21196},
+																								pos:   position{line: 665, col: 21, offset: 21134},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 666, col: 28, offset: 21203},
+																									pos: position{line: 665, col: 28, offset: 21141},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 666, col: 28, offset: 21203},
+																											pos: position{line: 665, col: 28, offset: 21141},
 																											run: (*parser).callonAttributeDeclarationValueElement73,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 666, col: 28, offset: 21203},
+																												pos:        position{line: 665, col: 28, offset: 21141},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -11241,12 +11197,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 668, col: 9, offset: 21257},
+																											pos: position{line: 667, col: 9, offset: 21195},
 																											run: (*parser).callonAttributeDeclarationValueElement75,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 668, col: 9, offset: 21257},
+																												pos: position{line: 667, col: 9, offset: 21195},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 668, col: 9, offset: 21257},
+																													pos:        position{line: 667, col: 9, offset: 21195},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -11263,7 +11219,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 658, col: 78, offset: 20913},
+																			pos:        position{line: 657, col: 78, offset: 20851},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11272,28 +11228,28 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 662, col: 25, offset: 21031},
+																pos: position{line: 661, col: 25, offset: 20969},
 																run: (*parser).callonAttributeDeclarationValueElement79,
 																expr: &seqExpr{
-																	pos: position{line: 662, col: 25, offset: 21031},
+																	pos: position{line: 661, col: 25, offset: 20969},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 662, col: 25, offset: 21031},
+																			pos:        position{line: 661, col: 25, offset: 20969},
 																			val:        "{counter2:",
 																			ignoreCase: false,
 																			want:       "\"{counter2:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 662, col: 38, offset: 21044},
+																			pos:   position{line: 661, col: 38, offset: 20982},
 																			label: "name",
 																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9729},
+																				pos: position{line: 317, col: 18, offset: 9667},
 																				run: (*parser).callonAttributeDeclarationValueElement83,
 																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9729},
+																					pos: position{line: 317, col: 18, offset: 9667},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9729},
+																							pos:        position{line: 317, col: 18, offset: 9667},
 																							val:        "[_\\pL\\pN]",
 																							chars:      []rune{'_'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11301,9 +11257,9 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9739},
+																							pos: position{line: 317, col: 28, offset: 9677},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9740},
+																								pos:        position{line: 317, col: 29, offset: 9678},
 																								val:        "[_-\\pL\\pN]",
 																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11316,33 +11272,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 662, col: 57, offset: 21063},
+																			pos:   position{line: 661, col: 57, offset: 21001},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 662, col: 63, offset: 21069},
+																				pos: position{line: 661, col: 63, offset: 21007},
 																				expr: &actionExpr{
-																					pos: position{line: 666, col: 17, offset: 21192},
+																					pos: position{line: 665, col: 17, offset: 21130},
 																					run: (*parser).callonAttributeDeclarationValueElement90,
 																					expr: &seqExpr{
-																						pos: position{line: 666, col: 17, offset: 21192},
+																						pos: position{line: 665, col: 17, offset: 21130},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 666, col: 17, offset: 21192},
+																								pos:        position{line: 665, col: 17, offset: 21130},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 666, col: 21, offset: 21196},
+																								pos:   position{line: 665, col: 21, offset: 21134},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 666, col: 28, offset: 21203},
+																									pos: position{line: 665, col: 28, offset: 21141},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 666, col: 28, offset: 21203},
+																											pos: position{line: 665, col: 28, offset: 21141},
 																											run: (*parser).callonAttributeDeclarationValueElement95,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 666, col: 28, offset: 21203},
+																												pos:        position{line: 665, col: 28, offset: 21141},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -11350,12 +11306,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 668, col: 9, offset: 21257},
+																											pos: position{line: 667, col: 9, offset: 21195},
 																											run: (*parser).callonAttributeDeclarationValueElement97,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 668, col: 9, offset: 21257},
+																												pos: position{line: 667, col: 9, offset: 21195},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 668, col: 9, offset: 21257},
+																													pos:        position{line: 667, col: 9, offset: 21195},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -11372,7 +11328,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 662, col: 79, offset: 21085},
+																			pos:        position{line: 661, col: 79, offset: 21023},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11395,60 +11351,60 @@ var g = &grammar{
 		},
 		{
 			name: "BlockAttributes",
-			pos:  position{line: 369, col: 1, offset: 11361},
+			pos:  position{line: 368, col: 1, offset: 11299},
 			expr: &actionExpr{
-				pos: position{line: 370, col: 5, offset: 11384},
+				pos: position{line: 369, col: 5, offset: 11322},
 				run: (*parser).callonBlockAttributes1,
 				expr: &labeledExpr{
-					pos:   position{line: 370, col: 5, offset: 11384},
+					pos:   position{line: 369, col: 5, offset: 11322},
 					label: "attributes",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 370, col: 16, offset: 11395},
+						pos: position{line: 369, col: 16, offset: 11333},
 						expr: &choiceExpr{
-							pos: position{line: 372, col: 9, offset: 11462},
+							pos: position{line: 371, col: 9, offset: 11400},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 372, col: 10, offset: 11463},
+									pos: position{line: 371, col: 10, offset: 11401},
 									run: (*parser).callonBlockAttributes5,
 									expr: &seqExpr{
-										pos: position{line: 372, col: 10, offset: 11463},
+										pos: position{line: 371, col: 10, offset: 11401},
 										exprs: []interface{}{
 											&labeledExpr{
-												pos:   position{line: 372, col: 10, offset: 11463},
+												pos:   position{line: 371, col: 10, offset: 11401},
 												label: "anchor",
 												expr: &actionExpr{
-													pos: position{line: 404, col: 5, offset: 12406},
+													pos: position{line: 403, col: 5, offset: 12344},
 													run: (*parser).callonBlockAttributes8,
 													expr: &seqExpr{
-														pos: position{line: 404, col: 5, offset: 12406},
+														pos: position{line: 403, col: 5, offset: 12344},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 404, col: 5, offset: 12406},
+																pos:        position{line: 403, col: 5, offset: 12344},
 																val:        "[[",
 																ignoreCase: false,
 																want:       "\"[[\"",
 															},
 															&labeledExpr{
-																pos:   position{line: 405, col: 5, offset: 12416},
+																pos:   position{line: 404, col: 5, offset: 12354},
 																label: "id",
 																expr: &actionExpr{
-																	pos: position{line: 406, col: 9, offset: 12429},
+																	pos: position{line: 405, col: 9, offset: 12367},
 																	run: (*parser).callonBlockAttributes12,
 																	expr: &labeledExpr{
-																		pos:   position{line: 406, col: 9, offset: 12429},
+																		pos:   position{line: 405, col: 9, offset: 12367},
 																		label: "elements",
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 406, col: 18, offset: 12438},
+																			pos: position{line: 405, col: 18, offset: 12376},
 																			expr: &choiceExpr{
-																				pos: position{line: 407, col: 13, offset: 12452},
+																				pos: position{line: 406, col: 13, offset: 12390},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 407, col: 14, offset: 12453},
+																						pos: position{line: 406, col: 14, offset: 12391},
 																						run: (*parser).callonBlockAttributes16,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 407, col: 14, offset: 12453},
+																							pos: position{line: 406, col: 14, offset: 12391},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 407, col: 14, offset: 12453},
+																								pos:        position{line: 406, col: 14, offset: 12391},
 																								val:        "[^=\\r\\n�{]]",
 																								chars:      []rune{'=', '\r', '\n', '�', '{', ']'},
 																								ignoreCase: false,
@@ -11457,27 +11413,27 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1198, col: 23, offset: 37046},
+																						pos: position{line: 1197, col: 23, offset: 36984},
 																						run: (*parser).callonBlockAttributes19,
 																						expr: &seqExpr{
-																							pos: position{line: 1198, col: 23, offset: 37046},
+																							pos: position{line: 1197, col: 23, offset: 36984},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1196, col: 32, offset: 37014},
+																									pos:        position{line: 1195, col: 32, offset: 36952},
 																									val:        "�",
 																									ignoreCase: false,
 																									want:       "\"�\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1198, col: 51, offset: 37074},
+																									pos:   position{line: 1197, col: 51, offset: 37012},
 																									label: "ref",
 																									expr: &actionExpr{
-																										pos: position{line: 1198, col: 56, offset: 37079},
+																										pos: position{line: 1197, col: 56, offset: 37017},
 																										run: (*parser).callonBlockAttributes23,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1198, col: 56, offset: 37079},
+																											pos: position{line: 1197, col: 56, offset: 37017},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1198, col: 56, offset: 37079},
+																												pos:        position{line: 1197, col: 56, offset: 37017},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -11487,7 +11443,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1196, col: 32, offset: 37014},
+																									pos:        position{line: 1195, col: 32, offset: 36952},
 																									val:        "�",
 																									ignoreCase: false,
 																									want:       "\"�\"",
@@ -11496,44 +11452,44 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 636, col: 5, offset: 20178},
+																						pos: position{line: 635, col: 5, offset: 20116},
 																						run: (*parser).callonBlockAttributes27,
 																						expr: &seqExpr{
-																							pos: position{line: 636, col: 5, offset: 20178},
+																							pos: position{line: 635, col: 5, offset: 20116},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 636, col: 5, offset: 20178},
+																									pos: position{line: 635, col: 5, offset: 20116},
 																									run: (*parser).callonBlockAttributes29,
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 639, col: 5, offset: 20250},
+																									pos:   position{line: 638, col: 5, offset: 20188},
 																									label: "element",
 																									expr: &choiceExpr{
-																										pos: position{line: 639, col: 14, offset: 20259},
+																										pos: position{line: 638, col: 14, offset: 20197},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 645, col: 5, offset: 20388},
+																												pos: position{line: 644, col: 5, offset: 20326},
 																												run: (*parser).callonBlockAttributes32,
 																												expr: &seqExpr{
-																													pos: position{line: 645, col: 5, offset: 20388},
+																													pos: position{line: 644, col: 5, offset: 20326},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 645, col: 5, offset: 20388},
+																															pos:        position{line: 644, col: 5, offset: 20326},
 																															val:        "\\{",
 																															ignoreCase: false,
 																															want:       "\"\\\\{\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 645, col: 13, offset: 20396},
+																															pos:   position{line: 644, col: 13, offset: 20334},
 																															label: "name",
 																															expr: &actionExpr{
-																																pos: position{line: 318, col: 18, offset: 9729},
+																																pos: position{line: 317, col: 18, offset: 9667},
 																																run: (*parser).callonBlockAttributes36,
 																																expr: &seqExpr{
-																																	pos: position{line: 318, col: 18, offset: 9729},
+																																	pos: position{line: 317, col: 18, offset: 9667},
 																																	exprs: []interface{}{
 																																		&charClassMatcher{
-																																			pos:        position{line: 318, col: 18, offset: 9729},
+																																			pos:        position{line: 317, col: 18, offset: 9667},
 																																			val:        "[_\\pL\\pN]",
 																																			chars:      []rune{'_'},
 																																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11541,9 +11497,9 @@ var g = &grammar{
 																																			inverted:   false,
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 318, col: 28, offset: 9739},
+																																			pos: position{line: 317, col: 28, offset: 9677},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 318, col: 29, offset: 9740},
+																																				pos:        position{line: 317, col: 29, offset: 9678},
 																																				val:        "[_-\\pL\\pN]",
 																																				chars:      []rune{'_', '-'},
 																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11556,7 +11512,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 645, col: 32, offset: 20415},
+																															pos:        position{line: 644, col: 32, offset: 20353},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11565,28 +11521,28 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 652, col: 5, offset: 20656},
+																												pos: position{line: 651, col: 5, offset: 20594},
 																												run: (*parser).callonBlockAttributes42,
 																												expr: &seqExpr{
-																													pos: position{line: 652, col: 5, offset: 20656},
+																													pos: position{line: 651, col: 5, offset: 20594},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 652, col: 5, offset: 20656},
+																															pos:        position{line: 651, col: 5, offset: 20594},
 																															val:        "{",
 																															ignoreCase: false,
 																															want:       "\"{\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 652, col: 9, offset: 20660},
+																															pos:   position{line: 651, col: 9, offset: 20598},
 																															label: "name",
 																															expr: &actionExpr{
-																																pos: position{line: 318, col: 18, offset: 9729},
+																																pos: position{line: 317, col: 18, offset: 9667},
 																																run: (*parser).callonBlockAttributes46,
 																																expr: &seqExpr{
-																																	pos: position{line: 318, col: 18, offset: 9729},
+																																	pos: position{line: 317, col: 18, offset: 9667},
 																																	exprs: []interface{}{
 																																		&charClassMatcher{
-																																			pos:        position{line: 318, col: 18, offset: 9729},
+																																			pos:        position{line: 317, col: 18, offset: 9667},
 																																			val:        "[_\\pL\\pN]",
 																																			chars:      []rune{'_'},
 																																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11594,9 +11550,9 @@ var g = &grammar{
 																																			inverted:   false,
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 318, col: 28, offset: 9739},
+																																			pos: position{line: 317, col: 28, offset: 9677},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 318, col: 29, offset: 9740},
+																																				pos:        position{line: 317, col: 29, offset: 9678},
 																																				val:        "[_-\\pL\\pN]",
 																																				chars:      []rune{'_', '-'},
 																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11609,7 +11565,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 652, col: 28, offset: 20679},
+																															pos:        position{line: 651, col: 28, offset: 20617},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11618,28 +11574,28 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 658, col: 25, offset: 20860},
+																												pos: position{line: 657, col: 25, offset: 20798},
 																												run: (*parser).callonBlockAttributes52,
 																												expr: &seqExpr{
-																													pos: position{line: 658, col: 25, offset: 20860},
+																													pos: position{line: 657, col: 25, offset: 20798},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 658, col: 25, offset: 20860},
+																															pos:        position{line: 657, col: 25, offset: 20798},
 																															val:        "{counter:",
 																															ignoreCase: false,
 																															want:       "\"{counter:\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 658, col: 37, offset: 20872},
+																															pos:   position{line: 657, col: 37, offset: 20810},
 																															label: "name",
 																															expr: &actionExpr{
-																																pos: position{line: 318, col: 18, offset: 9729},
+																																pos: position{line: 317, col: 18, offset: 9667},
 																																run: (*parser).callonBlockAttributes56,
 																																expr: &seqExpr{
-																																	pos: position{line: 318, col: 18, offset: 9729},
+																																	pos: position{line: 317, col: 18, offset: 9667},
 																																	exprs: []interface{}{
 																																		&charClassMatcher{
-																																			pos:        position{line: 318, col: 18, offset: 9729},
+																																			pos:        position{line: 317, col: 18, offset: 9667},
 																																			val:        "[_\\pL\\pN]",
 																																			chars:      []rune{'_'},
 																																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11647,9 +11603,9 @@ var g = &grammar{
 																																			inverted:   false,
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 318, col: 28, offset: 9739},
+																																			pos: position{line: 317, col: 28, offset: 9677},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 318, col: 29, offset: 9740},
+																																				pos:        position{line: 317, col: 29, offset: 9678},
 																																				val:        "[_-\\pL\\pN]",
 																																				chars:      []rune{'_', '-'},
 																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11662,33 +11618,33 @@ var g = &grammar{
 																															},
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 658, col: 56, offset: 20891},
+																															pos:   position{line: 657, col: 56, offset: 20829},
 																															label: "start",
 																															expr: &zeroOrOneExpr{
-																																pos: position{line: 658, col: 62, offset: 20897},
+																																pos: position{line: 657, col: 62, offset: 20835},
 																																expr: &actionExpr{
-																																	pos: position{line: 666, col: 17, offset: 21192},
+																																	pos: position{line: 665, col: 17, offset: 21130},
 																																	run: (*parser).callonBlockAttributes63,
 																																	expr: &seqExpr{
-																																		pos: position{line: 666, col: 17, offset: 21192},
+																																		pos: position{line: 665, col: 17, offset: 21130},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 666, col: 17, offset: 21192},
+																																				pos:        position{line: 665, col: 17, offset: 21130},
 																																				val:        ":",
 																																				ignoreCase: false,
 																																				want:       "\":\"",
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 666, col: 21, offset: 21196},
+																																				pos:   position{line: 665, col: 21, offset: 21134},
 																																				label: "start",
 																																				expr: &choiceExpr{
-																																					pos: position{line: 666, col: 28, offset: 21203},
+																																					pos: position{line: 665, col: 28, offset: 21141},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 666, col: 28, offset: 21203},
+																																							pos: position{line: 665, col: 28, offset: 21141},
 																																							run: (*parser).callonBlockAttributes68,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 666, col: 28, offset: 21203},
+																																								pos:        position{line: 665, col: 28, offset: 21141},
 																																								val:        "[A-Za-z]",
 																																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																								ignoreCase: false,
@@ -11696,12 +11652,12 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&actionExpr{
-																																							pos: position{line: 668, col: 9, offset: 21257},
+																																							pos: position{line: 667, col: 9, offset: 21195},
 																																							run: (*parser).callonBlockAttributes70,
 																																							expr: &oneOrMoreExpr{
-																																								pos: position{line: 668, col: 9, offset: 21257},
+																																								pos: position{line: 667, col: 9, offset: 21195},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 668, col: 9, offset: 21257},
+																																									pos:        position{line: 667, col: 9, offset: 21195},
 																																									val:        "[0-9]",
 																																									ranges:     []rune{'0', '9'},
 																																									ignoreCase: false,
@@ -11718,7 +11674,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 658, col: 78, offset: 20913},
+																															pos:        position{line: 657, col: 78, offset: 20851},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11727,28 +11683,28 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 662, col: 25, offset: 21031},
+																												pos: position{line: 661, col: 25, offset: 20969},
 																												run: (*parser).callonBlockAttributes74,
 																												expr: &seqExpr{
-																													pos: position{line: 662, col: 25, offset: 21031},
+																													pos: position{line: 661, col: 25, offset: 20969},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 662, col: 25, offset: 21031},
+																															pos:        position{line: 661, col: 25, offset: 20969},
 																															val:        "{counter2:",
 																															ignoreCase: false,
 																															want:       "\"{counter2:\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 662, col: 38, offset: 21044},
+																															pos:   position{line: 661, col: 38, offset: 20982},
 																															label: "name",
 																															expr: &actionExpr{
-																																pos: position{line: 318, col: 18, offset: 9729},
+																																pos: position{line: 317, col: 18, offset: 9667},
 																																run: (*parser).callonBlockAttributes78,
 																																expr: &seqExpr{
-																																	pos: position{line: 318, col: 18, offset: 9729},
+																																	pos: position{line: 317, col: 18, offset: 9667},
 																																	exprs: []interface{}{
 																																		&charClassMatcher{
-																																			pos:        position{line: 318, col: 18, offset: 9729},
+																																			pos:        position{line: 317, col: 18, offset: 9667},
 																																			val:        "[_\\pL\\pN]",
 																																			chars:      []rune{'_'},
 																																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11756,9 +11712,9 @@ var g = &grammar{
 																																			inverted:   false,
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 318, col: 28, offset: 9739},
+																																			pos: position{line: 317, col: 28, offset: 9677},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 318, col: 29, offset: 9740},
+																																				pos:        position{line: 317, col: 29, offset: 9678},
 																																				val:        "[_-\\pL\\pN]",
 																																				chars:      []rune{'_', '-'},
 																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -11771,33 +11727,33 @@ var g = &grammar{
 																															},
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 662, col: 57, offset: 21063},
+																															pos:   position{line: 661, col: 57, offset: 21001},
 																															label: "start",
 																															expr: &zeroOrOneExpr{
-																																pos: position{line: 662, col: 63, offset: 21069},
+																																pos: position{line: 661, col: 63, offset: 21007},
 																																expr: &actionExpr{
-																																	pos: position{line: 666, col: 17, offset: 21192},
+																																	pos: position{line: 665, col: 17, offset: 21130},
 																																	run: (*parser).callonBlockAttributes85,
 																																	expr: &seqExpr{
-																																		pos: position{line: 666, col: 17, offset: 21192},
+																																		pos: position{line: 665, col: 17, offset: 21130},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 666, col: 17, offset: 21192},
+																																				pos:        position{line: 665, col: 17, offset: 21130},
 																																				val:        ":",
 																																				ignoreCase: false,
 																																				want:       "\":\"",
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 666, col: 21, offset: 21196},
+																																				pos:   position{line: 665, col: 21, offset: 21134},
 																																				label: "start",
 																																				expr: &choiceExpr{
-																																					pos: position{line: 666, col: 28, offset: 21203},
+																																					pos: position{line: 665, col: 28, offset: 21141},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 666, col: 28, offset: 21203},
+																																							pos: position{line: 665, col: 28, offset: 21141},
 																																							run: (*parser).callonBlockAttributes90,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 666, col: 28, offset: 21203},
+																																								pos:        position{line: 665, col: 28, offset: 21141},
 																																								val:        "[A-Za-z]",
 																																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																								ignoreCase: false,
@@ -11805,12 +11761,12 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&actionExpr{
-																																							pos: position{line: 668, col: 9, offset: 21257},
+																																							pos: position{line: 667, col: 9, offset: 21195},
 																																							run: (*parser).callonBlockAttributes92,
 																																							expr: &oneOrMoreExpr{
-																																								pos: position{line: 668, col: 9, offset: 21257},
+																																								pos: position{line: 667, col: 9, offset: 21195},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 668, col: 9, offset: 21257},
+																																									pos:        position{line: 667, col: 9, offset: 21195},
 																																									val:        "[0-9]",
 																																									ranges:     []rune{'0', '9'},
 																																									ignoreCase: false,
@@ -11827,7 +11783,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 662, col: 79, offset: 21085},
+																															pos:        position{line: 661, col: 79, offset: 21023},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11842,10 +11798,10 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 412, col: 16, offset: 12686},
+																						pos: position{line: 411, col: 16, offset: 12624},
 																						run: (*parser).callonBlockAttributes96,
 																						expr: &litMatcher{
-																							pos:        position{line: 412, col: 16, offset: 12686},
+																							pos:        position{line: 411, col: 16, offset: 12624},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
@@ -11858,7 +11814,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 418, col: 5, offset: 12872},
+																pos:        position{line: 417, col: 5, offset: 12810},
 																val:        "]]",
 																ignoreCase: false,
 																want:       "\"]]\"",
@@ -11868,12 +11824,12 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 372, col: 35, offset: 11488},
+												pos: position{line: 371, col: 35, offset: 11426},
 												expr: &actionExpr{
-													pos: position{line: 2873, col: 10, offset: 90962},
+													pos: position{line: 2872, col: 10, offset: 90900},
 													run: (*parser).callonBlockAttributes100,
 													expr: &charClassMatcher{
-														pos:        position{line: 2873, col: 10, offset: 90962},
+														pos:        position{line: 2872, col: 10, offset: 90900},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11882,28 +11838,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2895, col: 8, offset: 91360},
+												pos: position{line: 2894, col: 8, offset: 91298},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2882, col: 12, offset: 91133},
+														pos: position{line: 2881, col: 12, offset: 91071},
 														run: (*parser).callonBlockAttributes103,
 														expr: &choiceExpr{
-															pos: position{line: 2882, col: 13, offset: 91134},
+															pos: position{line: 2881, col: 13, offset: 91072},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2882, col: 13, offset: 91134},
+																	pos:        position{line: 2881, col: 13, offset: 91072},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2882, col: 20, offset: 91141},
+																	pos:        position{line: 2881, col: 20, offset: 91079},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2882, col: 29, offset: 91150},
+																	pos:        position{line: 2881, col: 29, offset: 91088},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11912,34 +11868,34 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2892, col: 8, offset: 91310},
+														pos: position{line: 2891, col: 8, offset: 91248},
 														expr: &anyMatcher{
-															line: 2892, col: 9, offset: 91311,
+															line: 2891, col: 9, offset: 91249,
 														},
 													},
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 372, col: 46, offset: 11499},
+												pos: position{line: 371, col: 46, offset: 11437},
 												expr: &actionExpr{
-													pos: position{line: 677, col: 14, offset: 21558},
+													pos: position{line: 676, col: 14, offset: 21496},
 													run: (*parser).callonBlockAttributes111,
 													expr: &seqExpr{
-														pos: position{line: 677, col: 14, offset: 21558},
+														pos: position{line: 676, col: 14, offset: 21496},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2890, col: 11, offset: 91296},
+																pos: position{line: 2889, col: 11, offset: 91234},
 																expr: &anyMatcher{
-																	line: 2890, col: 13, offset: 91298,
+																	line: 2889, col: 13, offset: 91236,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 677, col: 21, offset: 21565},
+																pos: position{line: 676, col: 21, offset: 21503},
 																expr: &actionExpr{
-																	pos: position{line: 2873, col: 10, offset: 90962},
+																	pos: position{line: 2872, col: 10, offset: 90900},
 																	run: (*parser).callonBlockAttributes116,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2873, col: 10, offset: 90962},
+																		pos:        position{line: 2872, col: 10, offset: 90900},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -11948,28 +11904,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2895, col: 8, offset: 91360},
+																pos: position{line: 2894, col: 8, offset: 91298},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2882, col: 12, offset: 91133},
+																		pos: position{line: 2881, col: 12, offset: 91071},
 																		run: (*parser).callonBlockAttributes119,
 																		expr: &choiceExpr{
-																			pos: position{line: 2882, col: 13, offset: 91134},
+																			pos: position{line: 2881, col: 13, offset: 91072},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 13, offset: 91134},
+																					pos:        position{line: 2881, col: 13, offset: 91072},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 20, offset: 91141},
+																					pos:        position{line: 2881, col: 20, offset: 91079},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 29, offset: 91150},
+																					pos:        position{line: 2881, col: 29, offset: 91088},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -11978,9 +11934,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91310},
+																		pos: position{line: 2891, col: 8, offset: 91248},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91311,
+																			line: 2891, col: 9, offset: 91249,
 																		},
 																	},
 																},
@@ -11993,30 +11949,30 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 376, col: 12, offset: 11620},
+									pos: position{line: 375, col: 12, offset: 11558},
 									run: (*parser).callonBlockAttributes126,
 									expr: &seqExpr{
-										pos: position{line: 376, col: 12, offset: 11620},
+										pos: position{line: 375, col: 12, offset: 11558},
 										exprs: []interface{}{
 											&labeledExpr{
-												pos:   position{line: 376, col: 12, offset: 11620},
+												pos:   position{line: 375, col: 12, offset: 11558},
 												label: "title",
 												expr: &actionExpr{
-													pos: position{line: 423, col: 19, offset: 12991},
+													pos: position{line: 422, col: 19, offset: 12929},
 													run: (*parser).callonBlockAttributes129,
 													expr: &seqExpr{
-														pos: position{line: 423, col: 19, offset: 12991},
+														pos: position{line: 422, col: 19, offset: 12929},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 423, col: 19, offset: 12991},
+																pos:        position{line: 422, col: 19, offset: 12929},
 																val:        ".",
 																ignoreCase: false,
 																want:       "\".\"",
 															},
 															&notExpr{
-																pos: position{line: 424, col: 5, offset: 13000},
+																pos: position{line: 423, col: 5, offset: 12938},
 																expr: &charClassMatcher{
-																	pos:        position{line: 424, col: 6, offset: 13001},
+																	pos:        position{line: 423, col: 6, offset: 12939},
 																	val:        "[. ]",
 																	chars:      []rune{'.', ' '},
 																	ignoreCase: false,
@@ -12024,20 +11980,20 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 425, col: 5, offset: 13113},
+																pos:   position{line: 424, col: 5, offset: 13051},
 																label: "elements",
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 425, col: 14, offset: 13122},
+																	pos: position{line: 424, col: 14, offset: 13060},
 																	expr: &choiceExpr{
-																		pos: position{line: 426, col: 9, offset: 13132},
+																		pos: position{line: 425, col: 9, offset: 13070},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2767, col: 14, offset: 88110},
+																				pos: position{line: 2766, col: 14, offset: 88048},
 																				run: (*parser).callonBlockAttributes137,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2767, col: 14, offset: 88110},
+																					pos: position{line: 2766, col: 14, offset: 88048},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2767, col: 14, offset: 88110},
+																						pos:        position{line: 2766, col: 14, offset: 88048},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -12046,10 +12002,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90962},
+																				pos: position{line: 2872, col: 10, offset: 90900},
 																				run: (*parser).callonBlockAttributes140,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90962},
+																					pos:        position{line: 2872, col: 10, offset: 90900},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -12057,27 +12013,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2790, col: 5, offset: 88616},
+																				pos: position{line: 2789, col: 5, offset: 88554},
 																				run: (*parser).callonBlockAttributes142,
 																				expr: &choiceExpr{
-																					pos: position{line: 2791, col: 9, offset: 88626},
+																					pos: position{line: 2790, col: 9, offset: 88564},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2791, col: 10, offset: 88627},
+																							pos:        position{line: 2790, col: 10, offset: 88565},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2793, col: 13, offset: 88724},
+																							pos: position{line: 2792, col: 13, offset: 88662},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2793, col: 13, offset: 88724},
+																									pos: position{line: 2792, col: 13, offset: 88662},
 																									run: (*parser).callonBlockAttributes146,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2796, col: 13, offset: 88824},
+																									pos:        position{line: 2795, col: 13, offset: 88762},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -12085,20 +12041,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2796, col: 19, offset: 88830},
+																							pos:        position{line: 2795, col: 19, offset: 88768},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2799, col: 13, offset: 88868},
+																							pos: position{line: 2798, col: 13, offset: 88806},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2799, col: 13, offset: 88868},
+																									pos: position{line: 2798, col: 13, offset: 88806},
 																									run: (*parser).callonBlockAttributes150,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2802, col: 14, offset: 88961},
+																									pos:        position{line: 2801, col: 14, offset: 88899},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -12107,18 +12063,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2804, col: 12, offset: 89005},
+																							pos: position{line: 2803, col: 12, offset: 88943},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2804, col: 12, offset: 89005},
+																									pos:        position{line: 2803, col: 12, offset: 88943},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2804, col: 16, offset: 89009},
+																									pos: position{line: 2803, col: 16, offset: 88947},
 																									expr: &litMatcher{
-																										pos:        position{line: 2804, col: 17, offset: 89010},
+																										pos:        position{line: 2803, col: 17, offset: 88948},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12130,28 +12086,28 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 645, col: 5, offset: 20388},
+																				pos: position{line: 644, col: 5, offset: 20326},
 																				run: (*parser).callonBlockAttributes156,
 																				expr: &seqExpr{
-																					pos: position{line: 645, col: 5, offset: 20388},
+																					pos: position{line: 644, col: 5, offset: 20326},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 645, col: 5, offset: 20388},
+																							pos:        position{line: 644, col: 5, offset: 20326},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 645, col: 13, offset: 20396},
+																							pos:   position{line: 644, col: 13, offset: 20334},
 																							label: "name",
 																							expr: &actionExpr{
-																								pos: position{line: 318, col: 18, offset: 9729},
+																								pos: position{line: 317, col: 18, offset: 9667},
 																								run: (*parser).callonBlockAttributes160,
 																								expr: &seqExpr{
-																									pos: position{line: 318, col: 18, offset: 9729},
+																									pos: position{line: 317, col: 18, offset: 9667},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 318, col: 18, offset: 9729},
+																											pos:        position{line: 317, col: 18, offset: 9667},
 																											val:        "[_\\pL\\pN]",
 																											chars:      []rune{'_'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -12159,9 +12115,9 @@ var g = &grammar{
 																											inverted:   false,
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 318, col: 28, offset: 9739},
+																											pos: position{line: 317, col: 28, offset: 9677},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 318, col: 29, offset: 9740},
+																												pos:        position{line: 317, col: 29, offset: 9678},
 																												val:        "[_-\\pL\\pN]",
 																												chars:      []rune{'_', '-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -12174,7 +12130,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 645, col: 32, offset: 20415},
+																							pos:        position{line: 644, col: 32, offset: 20353},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -12183,28 +12139,28 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 652, col: 5, offset: 20656},
+																				pos: position{line: 651, col: 5, offset: 20594},
 																				run: (*parser).callonBlockAttributes166,
 																				expr: &seqExpr{
-																					pos: position{line: 652, col: 5, offset: 20656},
+																					pos: position{line: 651, col: 5, offset: 20594},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 652, col: 5, offset: 20656},
+																							pos:        position{line: 651, col: 5, offset: 20594},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 652, col: 9, offset: 20660},
+																							pos:   position{line: 651, col: 9, offset: 20598},
 																							label: "name",
 																							expr: &actionExpr{
-																								pos: position{line: 318, col: 18, offset: 9729},
+																								pos: position{line: 317, col: 18, offset: 9667},
 																								run: (*parser).callonBlockAttributes170,
 																								expr: &seqExpr{
-																									pos: position{line: 318, col: 18, offset: 9729},
+																									pos: position{line: 317, col: 18, offset: 9667},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 318, col: 18, offset: 9729},
+																											pos:        position{line: 317, col: 18, offset: 9667},
 																											val:        "[_\\pL\\pN]",
 																											chars:      []rune{'_'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -12212,9 +12168,9 @@ var g = &grammar{
 																											inverted:   false,
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 318, col: 28, offset: 9739},
+																											pos: position{line: 317, col: 28, offset: 9677},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 318, col: 29, offset: 9740},
+																												pos:        position{line: 317, col: 29, offset: 9678},
 																												val:        "[_-\\pL\\pN]",
 																												chars:      []rune{'_', '-'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -12227,7 +12183,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 652, col: 28, offset: 20679},
+																							pos:        position{line: 651, col: 28, offset: 20617},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -12236,10 +12192,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2812, col: 12, offset: 89270},
+																				pos: position{line: 2811, col: 12, offset: 89208},
 																				run: (*parser).callonBlockAttributes176,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2812, col: 12, offset: 89270},
+																					pos:        position{line: 2811, col: 12, offset: 89208},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12255,12 +12211,12 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 376, col: 35, offset: 11643},
+												pos: position{line: 375, col: 35, offset: 11581},
 												expr: &actionExpr{
-													pos: position{line: 2873, col: 10, offset: 90962},
+													pos: position{line: 2872, col: 10, offset: 90900},
 													run: (*parser).callonBlockAttributes179,
 													expr: &charClassMatcher{
-														pos:        position{line: 2873, col: 10, offset: 90962},
+														pos:        position{line: 2872, col: 10, offset: 90900},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12269,28 +12225,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2895, col: 8, offset: 91360},
+												pos: position{line: 2894, col: 8, offset: 91298},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2882, col: 12, offset: 91133},
+														pos: position{line: 2881, col: 12, offset: 91071},
 														run: (*parser).callonBlockAttributes182,
 														expr: &choiceExpr{
-															pos: position{line: 2882, col: 13, offset: 91134},
+															pos: position{line: 2881, col: 13, offset: 91072},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2882, col: 13, offset: 91134},
+																	pos:        position{line: 2881, col: 13, offset: 91072},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2882, col: 20, offset: 91141},
+																	pos:        position{line: 2881, col: 20, offset: 91079},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2882, col: 29, offset: 91150},
+																	pos:        position{line: 2881, col: 29, offset: 91088},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12299,34 +12255,34 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2892, col: 8, offset: 91310},
+														pos: position{line: 2891, col: 8, offset: 91248},
 														expr: &anyMatcher{
-															line: 2892, col: 9, offset: 91311,
+															line: 2891, col: 9, offset: 91249,
 														},
 													},
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 376, col: 46, offset: 11654},
+												pos: position{line: 375, col: 46, offset: 11592},
 												expr: &actionExpr{
-													pos: position{line: 677, col: 14, offset: 21558},
+													pos: position{line: 676, col: 14, offset: 21496},
 													run: (*parser).callonBlockAttributes190,
 													expr: &seqExpr{
-														pos: position{line: 677, col: 14, offset: 21558},
+														pos: position{line: 676, col: 14, offset: 21496},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2890, col: 11, offset: 91296},
+																pos: position{line: 2889, col: 11, offset: 91234},
 																expr: &anyMatcher{
-																	line: 2890, col: 13, offset: 91298,
+																	line: 2889, col: 13, offset: 91236,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 677, col: 21, offset: 21565},
+																pos: position{line: 676, col: 21, offset: 21503},
 																expr: &actionExpr{
-																	pos: position{line: 2873, col: 10, offset: 90962},
+																	pos: position{line: 2872, col: 10, offset: 90900},
 																	run: (*parser).callonBlockAttributes195,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2873, col: 10, offset: 90962},
+																		pos:        position{line: 2872, col: 10, offset: 90900},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12335,28 +12291,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2895, col: 8, offset: 91360},
+																pos: position{line: 2894, col: 8, offset: 91298},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2882, col: 12, offset: 91133},
+																		pos: position{line: 2881, col: 12, offset: 91071},
 																		run: (*parser).callonBlockAttributes198,
 																		expr: &choiceExpr{
-																			pos: position{line: 2882, col: 13, offset: 91134},
+																			pos: position{line: 2881, col: 13, offset: 91072},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 13, offset: 91134},
+																					pos:        position{line: 2881, col: 13, offset: 91072},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 20, offset: 91141},
+																					pos:        position{line: 2881, col: 20, offset: 91079},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 29, offset: 91150},
+																					pos:        position{line: 2881, col: 29, offset: 91088},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12365,9 +12321,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91310},
+																		pos: position{line: 2891, col: 8, offset: 91248},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91311,
+																			line: 2891, col: 9, offset: 91249,
 																		},
 																	},
 																},
@@ -12380,19 +12336,19 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 380, col: 12, offset: 11744},
+									pos: position{line: 379, col: 12, offset: 11682},
 									run: (*parser).callonBlockAttributes205,
 									expr: &seqExpr{
-										pos: position{line: 380, col: 12, offset: 11744},
+										pos: position{line: 379, col: 12, offset: 11682},
 										exprs: []interface{}{
 											&labeledExpr{
-												pos:   position{line: 380, col: 12, offset: 11744},
+												pos:   position{line: 379, col: 12, offset: 11682},
 												label: "start",
 												expr: &actionExpr{
-													pos: position{line: 2898, col: 16, offset: 91484},
+													pos: position{line: 2897, col: 16, offset: 91422},
 													run: (*parser).callonBlockAttributes208,
 													expr: &litMatcher{
-														pos:        position{line: 2898, col: 16, offset: 91484},
+														pos:        position{line: 2897, col: 16, offset: 91422},
 														val:        "",
 														ignoreCase: false,
 														want:       "\"\"",
@@ -12400,20 +12356,20 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 380, col: 32, offset: 11764},
+												pos:   position{line: 379, col: 32, offset: 11702},
 												label: "attributes",
 												expr: &ruleRefExpr{
-													pos:  position{line: 380, col: 44, offset: 11776},
+													pos:  position{line: 379, col: 44, offset: 11714},
 													name: "LongHandAttributes",
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 380, col: 64, offset: 11796},
+												pos: position{line: 379, col: 64, offset: 11734},
 												expr: &actionExpr{
-													pos: position{line: 2873, col: 10, offset: 90962},
+													pos: position{line: 2872, col: 10, offset: 90900},
 													run: (*parser).callonBlockAttributes213,
 													expr: &charClassMatcher{
-														pos:        position{line: 2873, col: 10, offset: 90962},
+														pos:        position{line: 2872, col: 10, offset: 90900},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12422,13 +12378,13 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 380, col: 71, offset: 11803},
+												pos:   position{line: 379, col: 71, offset: 11741},
 												label: "end",
 												expr: &actionExpr{
-													pos: position{line: 2898, col: 16, offset: 91484},
+													pos: position{line: 2897, col: 16, offset: 91422},
 													run: (*parser).callonBlockAttributes216,
 													expr: &litMatcher{
-														pos:        position{line: 2898, col: 16, offset: 91484},
+														pos:        position{line: 2897, col: 16, offset: 91422},
 														val:        "",
 														ignoreCase: false,
 														want:       "\"\"",
@@ -12436,32 +12392,32 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 380, col: 89, offset: 11821},
+												pos: position{line: 379, col: 89, offset: 11759},
 												run: (*parser).callonBlockAttributes218,
 											},
 											&choiceExpr{
-												pos: position{line: 2895, col: 8, offset: 91360},
+												pos: position{line: 2894, col: 8, offset: 91298},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2882, col: 12, offset: 91133},
+														pos: position{line: 2881, col: 12, offset: 91071},
 														run: (*parser).callonBlockAttributes220,
 														expr: &choiceExpr{
-															pos: position{line: 2882, col: 13, offset: 91134},
+															pos: position{line: 2881, col: 13, offset: 91072},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2882, col: 13, offset: 91134},
+																	pos:        position{line: 2881, col: 13, offset: 91072},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2882, col: 20, offset: 91141},
+																	pos:        position{line: 2881, col: 20, offset: 91079},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2882, col: 29, offset: 91150},
+																	pos:        position{line: 2881, col: 29, offset: 91088},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12470,34 +12426,34 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2892, col: 8, offset: 91310},
+														pos: position{line: 2891, col: 8, offset: 91248},
 														expr: &anyMatcher{
-															line: 2892, col: 9, offset: 91311,
+															line: 2891, col: 9, offset: 91249,
 														},
 													},
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 380, col: 123, offset: 11855},
+												pos: position{line: 379, col: 123, offset: 11793},
 												expr: &actionExpr{
-													pos: position{line: 677, col: 14, offset: 21558},
+													pos: position{line: 676, col: 14, offset: 21496},
 													run: (*parser).callonBlockAttributes228,
 													expr: &seqExpr{
-														pos: position{line: 677, col: 14, offset: 21558},
+														pos: position{line: 676, col: 14, offset: 21496},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2890, col: 11, offset: 91296},
+																pos: position{line: 2889, col: 11, offset: 91234},
 																expr: &anyMatcher{
-																	line: 2890, col: 13, offset: 91298,
+																	line: 2889, col: 13, offset: 91236,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 677, col: 21, offset: 21565},
+																pos: position{line: 676, col: 21, offset: 21503},
 																expr: &actionExpr{
-																	pos: position{line: 2873, col: 10, offset: 90962},
+																	pos: position{line: 2872, col: 10, offset: 90900},
 																	run: (*parser).callonBlockAttributes233,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2873, col: 10, offset: 90962},
+																		pos:        position{line: 2872, col: 10, offset: 90900},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12506,28 +12462,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2895, col: 8, offset: 91360},
+																pos: position{line: 2894, col: 8, offset: 91298},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2882, col: 12, offset: 91133},
+																		pos: position{line: 2881, col: 12, offset: 91071},
 																		run: (*parser).callonBlockAttributes236,
 																		expr: &choiceExpr{
-																			pos: position{line: 2882, col: 13, offset: 91134},
+																			pos: position{line: 2881, col: 13, offset: 91072},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 13, offset: 91134},
+																					pos:        position{line: 2881, col: 13, offset: 91072},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 20, offset: 91141},
+																					pos:        position{line: 2881, col: 20, offset: 91079},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 29, offset: 91150},
+																					pos:        position{line: 2881, col: 29, offset: 91088},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12536,9 +12492,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91310},
+																		pos: position{line: 2891, col: 8, offset: 91248},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91311,
+																			line: 2891, col: 9, offset: 91249,
 																		},
 																	},
 																},
@@ -12558,51 +12514,51 @@ var g = &grammar{
 		},
 		{
 			name: "InlineAttributes",
-			pos:  position{line: 388, col: 1, offset: 12039},
+			pos:  position{line: 387, col: 1, offset: 11977},
 			expr: &actionExpr{
-				pos: position{line: 389, col: 5, offset: 12063},
+				pos: position{line: 388, col: 5, offset: 12001},
 				run: (*parser).callonInlineAttributes1,
 				expr: &seqExpr{
-					pos: position{line: 389, col: 5, offset: 12063},
+					pos: position{line: 388, col: 5, offset: 12001},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 389, col: 5, offset: 12063},
+							pos:        position{line: 388, col: 5, offset: 12001},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 390, col: 5, offset: 12071},
+							pos:   position{line: 389, col: 5, offset: 12009},
 							label: "attributes",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 390, col: 16, offset: 12082},
+								pos: position{line: 389, col: 16, offset: 12020},
 								expr: &actionExpr{
-									pos: position{line: 391, col: 9, offset: 12092},
+									pos: position{line: 390, col: 9, offset: 12030},
 									run: (*parser).callonInlineAttributes6,
 									expr: &seqExpr{
-										pos: position{line: 392, col: 13, offset: 12106},
+										pos: position{line: 391, col: 13, offset: 12044},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 392, col: 13, offset: 12106},
+												pos: position{line: 391, col: 13, offset: 12044},
 												expr: &litMatcher{
-													pos:        position{line: 392, col: 14, offset: 12107},
+													pos:        position{line: 391, col: 14, offset: 12045},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 393, col: 13, offset: 12139},
+												pos:   position{line: 392, col: 13, offset: 12077},
 												label: "attribute",
 												expr: &choiceExpr{
-													pos: position{line: 393, col: 24, offset: 12150},
+													pos: position{line: 392, col: 24, offset: 12088},
 													alternatives: []interface{}{
 														&ruleRefExpr{
-															pos:  position{line: 393, col: 24, offset: 12150},
+															pos:  position{line: 392, col: 24, offset: 12088},
 															name: "PositionalAttribute",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 393, col: 46, offset: 12172},
+															pos:  position{line: 392, col: 46, offset: 12110},
 															name: "NamedAttribute",
 														},
 													},
@@ -12614,7 +12570,7 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 398, col: 5, offset: 12255},
+							pos:        position{line: 397, col: 5, offset: 12193},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -12625,62 +12581,62 @@ var g = &grammar{
 		},
 		{
 			name: "LongHandAttributes",
-			pos:  position{line: 437, col: 1, offset: 13513},
+			pos:  position{line: 436, col: 1, offset: 13451},
 			expr: &actionExpr{
-				pos: position{line: 438, col: 5, offset: 13539},
+				pos: position{line: 437, col: 5, offset: 13477},
 				run: (*parser).callonLongHandAttributes1,
 				expr: &seqExpr{
-					pos: position{line: 438, col: 5, offset: 13539},
+					pos: position{line: 437, col: 5, offset: 13477},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 438, col: 5, offset: 13539},
+							pos: position{line: 437, col: 5, offset: 13477},
 							expr: &litMatcher{
-								pos:        position{line: 438, col: 6, offset: 13540},
+								pos:        position{line: 437, col: 6, offset: 13478},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 438, col: 10, offset: 13544},
+							pos:        position{line: 437, col: 10, offset: 13482},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&notExpr{
-							pos: position{line: 438, col: 14, offset: 13548},
+							pos: position{line: 437, col: 14, offset: 13486},
 							expr: &litMatcher{
-								pos:        position{line: 438, col: 15, offset: 13549},
+								pos:        position{line: 437, col: 15, offset: 13487},
 								val:        "[",
 								ignoreCase: false,
 								want:       "\"[\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 439, col: 5, offset: 13662},
+							pos:   position{line: 438, col: 5, offset: 13600},
 							label: "firstPositionalAttributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 439, col: 31, offset: 13688},
+								pos: position{line: 438, col: 31, offset: 13626},
 								expr: &ruleRefExpr{
-									pos:  position{line: 439, col: 32, offset: 13689},
+									pos:  position{line: 438, col: 32, offset: 13627},
 									name: "FirstPositionalAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 440, col: 5, offset: 13721},
+							pos:   position{line: 439, col: 5, offset: 13659},
 							label: "otherAttributes",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 440, col: 21, offset: 13737},
+								pos: position{line: 439, col: 21, offset: 13675},
 								expr: &choiceExpr{
-									pos: position{line: 440, col: 22, offset: 13738},
+									pos: position{line: 439, col: 22, offset: 13676},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 440, col: 22, offset: 13738},
+											pos:  position{line: 439, col: 22, offset: 13676},
 											name: "PositionalAttribute",
 										},
 										&ruleRefExpr{
-											pos:  position{line: 440, col: 44, offset: 13760},
+											pos:  position{line: 439, col: 44, offset: 13698},
 											name: "NamedAttribute",
 										},
 									},
@@ -12688,7 +12644,7 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 441, col: 5, offset: 13781},
+							pos:        position{line: 440, col: 5, offset: 13719},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -12699,69 +12655,69 @@ var g = &grammar{
 		},
 		{
 			name: "FirstPositionalAttributes",
-			pos:  position{line: 454, col: 1, offset: 14309},
+			pos:  position{line: 453, col: 1, offset: 14247},
 			expr: &actionExpr{
-				pos: position{line: 455, col: 5, offset: 14343},
+				pos: position{line: 454, col: 5, offset: 14281},
 				run: (*parser).callonFirstPositionalAttributes1,
 				expr: &seqExpr{
-					pos: position{line: 455, col: 5, offset: 14343},
+					pos: position{line: 454, col: 5, offset: 14281},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 455, col: 5, offset: 14343},
+							pos:   position{line: 454, col: 5, offset: 14281},
 							label: "main",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 455, col: 10, offset: 14348},
+								pos: position{line: 454, col: 10, offset: 14286},
 								expr: &ruleRefExpr{
-									pos:  position{line: 456, col: 9, offset: 14358},
+									pos:  position{line: 455, col: 9, offset: 14296},
 									name: "ShortHandAttribute",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 458, col: 5, offset: 14388},
+							pos:   position{line: 457, col: 5, offset: 14326},
 							label: "extras",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 458, col: 12, offset: 14395},
+								pos: position{line: 457, col: 12, offset: 14333},
 								expr: &actionExpr{
-									pos: position{line: 459, col: 9, offset: 14406},
+									pos: position{line: 458, col: 9, offset: 14344},
 									run: (*parser).callonFirstPositionalAttributes8,
 									expr: &seqExpr{
-										pos: position{line: 459, col: 9, offset: 14406},
+										pos: position{line: 458, col: 9, offset: 14344},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 459, col: 9, offset: 14406},
+												pos: position{line: 458, col: 9, offset: 14344},
 												expr: &litMatcher{
-													pos:        position{line: 459, col: 10, offset: 14407},
+													pos:        position{line: 458, col: 10, offset: 14345},
 													val:        ",",
 													ignoreCase: false,
 													want:       "\",\"",
 												},
 											},
 											&notExpr{
-												pos: position{line: 459, col: 14, offset: 14411},
+												pos: position{line: 458, col: 14, offset: 14349},
 												expr: &litMatcher{
-													pos:        position{line: 459, col: 15, offset: 14412},
+													pos:        position{line: 458, col: 15, offset: 14350},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 460, col: 9, offset: 14424},
+												pos:   position{line: 459, col: 9, offset: 14362},
 												label: "extra",
 												expr: &choiceExpr{
-													pos: position{line: 461, col: 13, offset: 14444},
+													pos: position{line: 460, col: 13, offset: 14382},
 													alternatives: []interface{}{
 														&ruleRefExpr{
-															pos:  position{line: 461, col: 13, offset: 14444},
+															pos:  position{line: 460, col: 13, offset: 14382},
 															name: "ShortHandIDAttribute",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 462, col: 15, offset: 14480},
+															pos:  position{line: 461, col: 15, offset: 14418},
 															name: "ShortHandOptionAttribute",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 463, col: 15, offset: 14519},
+															pos:  position{line: 462, col: 15, offset: 14457},
 															name: "ShortHandDotRoleAttribute",
 														},
 													},
@@ -12773,23 +12729,23 @@ var g = &grammar{
 							},
 						},
 						&zeroOrOneExpr{
-							pos: position{line: 466, col: 8, offset: 14595},
+							pos: position{line: 465, col: 8, offset: 14533},
 							expr: &seqExpr{
-								pos: position{line: 466, col: 9, offset: 14596},
+								pos: position{line: 465, col: 9, offset: 14534},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 466, col: 9, offset: 14596},
+										pos:        position{line: 465, col: 9, offset: 14534},
 										val:        ",",
 										ignoreCase: false,
 										want:       "\",\"",
 									},
 									&zeroOrMoreExpr{
-										pos: position{line: 466, col: 13, offset: 14600},
+										pos: position{line: 465, col: 13, offset: 14538},
 										expr: &actionExpr{
-											pos: position{line: 2873, col: 10, offset: 90962},
+											pos: position{line: 2872, col: 10, offset: 90900},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2873, col: 10, offset: 90962},
+												pos:        position{line: 2872, col: 10, offset: 90900},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -12801,7 +12757,7 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 467, col: 5, offset: 14614},
+							pos: position{line: 466, col: 5, offset: 14552},
 							run: (*parser).callonFirstPositionalAttributes25,
 						},
 					},
@@ -12810,24 +12766,24 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandIDAttribute",
-			pos:  position{line: 483, col: 1, offset: 15030},
+			pos:  position{line: 482, col: 1, offset: 14968},
 			expr: &actionExpr{
-				pos: position{line: 483, col: 25, offset: 15054},
+				pos: position{line: 482, col: 25, offset: 14992},
 				run: (*parser).callonShortHandIDAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 483, col: 25, offset: 15054},
+					pos: position{line: 482, col: 25, offset: 14992},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 483, col: 25, offset: 15054},
+							pos:        position{line: 482, col: 25, offset: 14992},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 483, col: 29, offset: 15058},
+							pos:   position{line: 482, col: 29, offset: 14996},
 							label: "id",
 							expr: &ruleRefExpr{
-								pos:  position{line: 483, col: 33, offset: 15062},
+								pos:  position{line: 482, col: 33, offset: 15000},
 								name: "ShortHandAttributeValue",
 							},
 						},
@@ -12837,15 +12793,15 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandAttribute",
-			pos:  position{line: 487, col: 1, offset: 15136},
+			pos:  position{line: 486, col: 1, offset: 15074},
 			expr: &actionExpr{
-				pos: position{line: 487, col: 23, offset: 15158},
+				pos: position{line: 486, col: 23, offset: 15096},
 				run: (*parser).callonShortHandAttribute1,
 				expr: &labeledExpr{
-					pos:   position{line: 487, col: 23, offset: 15158},
+					pos:   position{line: 486, col: 23, offset: 15096},
 					label: "value",
 					expr: &ruleRefExpr{
-						pos:  position{line: 487, col: 30, offset: 15165},
+						pos:  position{line: 486, col: 30, offset: 15103},
 						name: "ShortHandAttributeValue",
 					},
 				},
@@ -12853,24 +12809,24 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandDotRoleAttribute",
-			pos:  position{line: 492, col: 1, offset: 15291},
+			pos:  position{line: 491, col: 1, offset: 15229},
 			expr: &actionExpr{
-				pos: position{line: 492, col: 30, offset: 15320},
+				pos: position{line: 491, col: 30, offset: 15258},
 				run: (*parser).callonShortHandDotRoleAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 492, col: 30, offset: 15320},
+					pos: position{line: 491, col: 30, offset: 15258},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 492, col: 30, offset: 15320},
+							pos:        position{line: 491, col: 30, offset: 15258},
 							val:        ".",
 							ignoreCase: false,
 							want:       "\".\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 492, col: 34, offset: 15324},
+							pos:   position{line: 491, col: 34, offset: 15262},
 							label: "role",
 							expr: &ruleRefExpr{
-								pos:  position{line: 492, col: 40, offset: 15330},
+								pos:  position{line: 491, col: 40, offset: 15268},
 								name: "ShortHandAttributeValue",
 							},
 						},
@@ -12880,24 +12836,24 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandOptionAttribute",
-			pos:  position{line: 497, col: 1, offset: 15452},
+			pos:  position{line: 496, col: 1, offset: 15390},
 			expr: &actionExpr{
-				pos: position{line: 497, col: 29, offset: 15480},
+				pos: position{line: 496, col: 29, offset: 15418},
 				run: (*parser).callonShortHandOptionAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 497, col: 29, offset: 15480},
+					pos: position{line: 496, col: 29, offset: 15418},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 497, col: 29, offset: 15480},
+							pos:        position{line: 496, col: 29, offset: 15418},
 							val:        "%",
 							ignoreCase: false,
 							want:       "\"%\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 497, col: 33, offset: 15484},
+							pos:   position{line: 496, col: 33, offset: 15422},
 							label: "option",
 							expr: &ruleRefExpr{
-								pos:  position{line: 497, col: 41, offset: 15492},
+								pos:  position{line: 496, col: 41, offset: 15430},
 								name: "ShortHandAttributeValue",
 							},
 						},
@@ -12907,43 +12863,43 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandAttributeValue",
-			pos:  position{line: 502, col: 1, offset: 15605},
+			pos:  position{line: 501, col: 1, offset: 15543},
 			expr: &choiceExpr{
-				pos: position{line: 503, col: 5, offset: 15637},
+				pos: position{line: 502, col: 5, offset: 15575},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 503, col: 5, offset: 15637},
+						pos:  position{line: 502, col: 5, offset: 15575},
 						name: "SingleQuotedAttributeValue",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 504, col: 7, offset: 15671},
+						pos:  position{line: 503, col: 7, offset: 15609},
 						name: "DoubleQuotedAttributeValue",
 					},
 					&actionExpr{
-						pos: position{line: 505, col: 7, offset: 15705},
+						pos: position{line: 504, col: 7, offset: 15643},
 						run: (*parser).callonShortHandAttributeValue4,
 						expr: &seqExpr{
-							pos: position{line: 505, col: 7, offset: 15705},
+							pos: position{line: 504, col: 7, offset: 15643},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 505, col: 7, offset: 15705},
+									pos:   position{line: 504, col: 7, offset: 15643},
 									label: "elements",
 									expr: &oneOrMoreExpr{
-										pos: position{line: 505, col: 16, offset: 15714},
+										pos: position{line: 504, col: 16, offset: 15652},
 										expr: &choiceExpr{
-											pos: position{line: 508, col: 9, offset: 15896},
+											pos: position{line: 507, col: 9, offset: 15834},
 											alternatives: []interface{}{
 												&ruleRefExpr{
-													pos:  position{line: 508, col: 9, offset: 15896},
+													pos:  position{line: 507, col: 9, offset: 15834},
 													name: "QuotationMark",
 												},
 												&actionExpr{
-													pos: position{line: 509, col: 12, offset: 15922},
+													pos: position{line: 508, col: 12, offset: 15860},
 													run: (*parser).callonShortHandAttributeValue10,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 509, col: 12, offset: 15922},
+														pos: position{line: 508, col: 12, offset: 15860},
 														expr: &charClassMatcher{
-															pos:        position{line: 509, col: 12, offset: 15922},
+															pos:        position{line: 508, col: 12, offset: 15860},
 															val:        "[^,=.%# \\r\\n�{]]",
 															chars:      []rune{',', '=', '.', '%', '#', ' ', '\r', '\n', '�', '{', ']'},
 															ignoreCase: false,
@@ -12952,44 +12908,44 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 636, col: 5, offset: 20178},
+													pos: position{line: 635, col: 5, offset: 20116},
 													run: (*parser).callonShortHandAttributeValue13,
 													expr: &seqExpr{
-														pos: position{line: 636, col: 5, offset: 20178},
+														pos: position{line: 635, col: 5, offset: 20116},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 636, col: 5, offset: 20178},
+																pos: position{line: 635, col: 5, offset: 20116},
 																run: (*parser).callonShortHandAttributeValue15,
 															},
 															&labeledExpr{
-																pos:   position{line: 639, col: 5, offset: 20250},
+																pos:   position{line: 638, col: 5, offset: 20188},
 																label: "element",
 																expr: &choiceExpr{
-																	pos: position{line: 639, col: 14, offset: 20259},
+																	pos: position{line: 638, col: 14, offset: 20197},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 645, col: 5, offset: 20388},
+																			pos: position{line: 644, col: 5, offset: 20326},
 																			run: (*parser).callonShortHandAttributeValue18,
 																			expr: &seqExpr{
-																				pos: position{line: 645, col: 5, offset: 20388},
+																				pos: position{line: 644, col: 5, offset: 20326},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 645, col: 5, offset: 20388},
+																						pos:        position{line: 644, col: 5, offset: 20326},
 																						val:        "\\{",
 																						ignoreCase: false,
 																						want:       "\"\\\\{\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 645, col: 13, offset: 20396},
+																						pos:   position{line: 644, col: 13, offset: 20334},
 																						label: "name",
 																						expr: &actionExpr{
-																							pos: position{line: 318, col: 18, offset: 9729},
+																							pos: position{line: 317, col: 18, offset: 9667},
 																							run: (*parser).callonShortHandAttributeValue22,
 																							expr: &seqExpr{
-																								pos: position{line: 318, col: 18, offset: 9729},
+																								pos: position{line: 317, col: 18, offset: 9667},
 																								exprs: []interface{}{
 																									&charClassMatcher{
-																										pos:        position{line: 318, col: 18, offset: 9729},
+																										pos:        position{line: 317, col: 18, offset: 9667},
 																										val:        "[_\\pL\\pN]",
 																										chars:      []rune{'_'},
 																										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -12997,9 +12953,9 @@ var g = &grammar{
 																										inverted:   false,
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 318, col: 28, offset: 9739},
+																										pos: position{line: 317, col: 28, offset: 9677},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 318, col: 29, offset: 9740},
+																											pos:        position{line: 317, col: 29, offset: 9678},
 																											val:        "[_-\\pL\\pN]",
 																											chars:      []rune{'_', '-'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -13012,7 +12968,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 645, col: 32, offset: 20415},
+																						pos:        position{line: 644, col: 32, offset: 20353},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13021,28 +12977,28 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 652, col: 5, offset: 20656},
+																			pos: position{line: 651, col: 5, offset: 20594},
 																			run: (*parser).callonShortHandAttributeValue28,
 																			expr: &seqExpr{
-																				pos: position{line: 652, col: 5, offset: 20656},
+																				pos: position{line: 651, col: 5, offset: 20594},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 652, col: 5, offset: 20656},
+																						pos:        position{line: 651, col: 5, offset: 20594},
 																						val:        "{",
 																						ignoreCase: false,
 																						want:       "\"{\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 652, col: 9, offset: 20660},
+																						pos:   position{line: 651, col: 9, offset: 20598},
 																						label: "name",
 																						expr: &actionExpr{
-																							pos: position{line: 318, col: 18, offset: 9729},
+																							pos: position{line: 317, col: 18, offset: 9667},
 																							run: (*parser).callonShortHandAttributeValue32,
 																							expr: &seqExpr{
-																								pos: position{line: 318, col: 18, offset: 9729},
+																								pos: position{line: 317, col: 18, offset: 9667},
 																								exprs: []interface{}{
 																									&charClassMatcher{
-																										pos:        position{line: 318, col: 18, offset: 9729},
+																										pos:        position{line: 317, col: 18, offset: 9667},
 																										val:        "[_\\pL\\pN]",
 																										chars:      []rune{'_'},
 																										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -13050,9 +13006,9 @@ var g = &grammar{
 																										inverted:   false,
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 318, col: 28, offset: 9739},
+																										pos: position{line: 317, col: 28, offset: 9677},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 318, col: 29, offset: 9740},
+																											pos:        position{line: 317, col: 29, offset: 9678},
 																											val:        "[_-\\pL\\pN]",
 																											chars:      []rune{'_', '-'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -13065,7 +13021,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 652, col: 28, offset: 20679},
+																						pos:        position{line: 651, col: 28, offset: 20617},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13074,28 +13030,28 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 658, col: 25, offset: 20860},
+																			pos: position{line: 657, col: 25, offset: 20798},
 																			run: (*parser).callonShortHandAttributeValue38,
 																			expr: &seqExpr{
-																				pos: position{line: 658, col: 25, offset: 20860},
+																				pos: position{line: 657, col: 25, offset: 20798},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 658, col: 25, offset: 20860},
+																						pos:        position{line: 657, col: 25, offset: 20798},
 																						val:        "{counter:",
 																						ignoreCase: false,
 																						want:       "\"{counter:\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 658, col: 37, offset: 20872},
+																						pos:   position{line: 657, col: 37, offset: 20810},
 																						label: "name",
 																						expr: &actionExpr{
-																							pos: position{line: 318, col: 18, offset: 9729},
+																							pos: position{line: 317, col: 18, offset: 9667},
 																							run: (*parser).callonShortHandAttributeValue42,
 																							expr: &seqExpr{
-																								pos: position{line: 318, col: 18, offset: 9729},
+																								pos: position{line: 317, col: 18, offset: 9667},
 																								exprs: []interface{}{
 																									&charClassMatcher{
-																										pos:        position{line: 318, col: 18, offset: 9729},
+																										pos:        position{line: 317, col: 18, offset: 9667},
 																										val:        "[_\\pL\\pN]",
 																										chars:      []rune{'_'},
 																										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -13103,9 +13059,9 @@ var g = &grammar{
 																										inverted:   false,
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 318, col: 28, offset: 9739},
+																										pos: position{line: 317, col: 28, offset: 9677},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 318, col: 29, offset: 9740},
+																											pos:        position{line: 317, col: 29, offset: 9678},
 																											val:        "[_-\\pL\\pN]",
 																											chars:      []rune{'_', '-'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -13118,33 +13074,33 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 658, col: 56, offset: 20891},
+																						pos:   position{line: 657, col: 56, offset: 20829},
 																						label: "start",
 																						expr: &zeroOrOneExpr{
-																							pos: position{line: 658, col: 62, offset: 20897},
+																							pos: position{line: 657, col: 62, offset: 20835},
 																							expr: &actionExpr{
-																								pos: position{line: 666, col: 17, offset: 21192},
+																								pos: position{line: 665, col: 17, offset: 21130},
 																								run: (*parser).callonShortHandAttributeValue49,
 																								expr: &seqExpr{
-																									pos: position{line: 666, col: 17, offset: 21192},
+																									pos: position{line: 665, col: 17, offset: 21130},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 666, col: 17, offset: 21192},
+																											pos:        position{line: 665, col: 17, offset: 21130},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 666, col: 21, offset: 21196},
+																											pos:   position{line: 665, col: 21, offset: 21134},
 																											label: "start",
 																											expr: &choiceExpr{
-																												pos: position{line: 666, col: 28, offset: 21203},
+																												pos: position{line: 665, col: 28, offset: 21141},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 666, col: 28, offset: 21203},
+																														pos: position{line: 665, col: 28, offset: 21141},
 																														run: (*parser).callonShortHandAttributeValue54,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 666, col: 28, offset: 21203},
+																															pos:        position{line: 665, col: 28, offset: 21141},
 																															val:        "[A-Za-z]",
 																															ranges:     []rune{'A', 'Z', 'a', 'z'},
 																															ignoreCase: false,
@@ -13152,12 +13108,12 @@ var g = &grammar{
 																														},
 																													},
 																													&actionExpr{
-																														pos: position{line: 668, col: 9, offset: 21257},
+																														pos: position{line: 667, col: 9, offset: 21195},
 																														run: (*parser).callonShortHandAttributeValue56,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 668, col: 9, offset: 21257},
+																															pos: position{line: 667, col: 9, offset: 21195},
 																															expr: &charClassMatcher{
-																																pos:        position{line: 668, col: 9, offset: 21257},
+																																pos:        position{line: 667, col: 9, offset: 21195},
 																																val:        "[0-9]",
 																																ranges:     []rune{'0', '9'},
 																																ignoreCase: false,
@@ -13174,7 +13130,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 658, col: 78, offset: 20913},
+																						pos:        position{line: 657, col: 78, offset: 20851},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13183,28 +13139,28 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 662, col: 25, offset: 21031},
+																			pos: position{line: 661, col: 25, offset: 20969},
 																			run: (*parser).callonShortHandAttributeValue60,
 																			expr: &seqExpr{
-																				pos: position{line: 662, col: 25, offset: 21031},
+																				pos: position{line: 661, col: 25, offset: 20969},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 662, col: 25, offset: 21031},
+																						pos:        position{line: 661, col: 25, offset: 20969},
 																						val:        "{counter2:",
 																						ignoreCase: false,
 																						want:       "\"{counter2:\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 662, col: 38, offset: 21044},
+																						pos:   position{line: 661, col: 38, offset: 20982},
 																						label: "name",
 																						expr: &actionExpr{
-																							pos: position{line: 318, col: 18, offset: 9729},
+																							pos: position{line: 317, col: 18, offset: 9667},
 																							run: (*parser).callonShortHandAttributeValue64,
 																							expr: &seqExpr{
-																								pos: position{line: 318, col: 18, offset: 9729},
+																								pos: position{line: 317, col: 18, offset: 9667},
 																								exprs: []interface{}{
 																									&charClassMatcher{
-																										pos:        position{line: 318, col: 18, offset: 9729},
+																										pos:        position{line: 317, col: 18, offset: 9667},
 																										val:        "[_\\pL\\pN]",
 																										chars:      []rune{'_'},
 																										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -13212,9 +13168,9 @@ var g = &grammar{
 																										inverted:   false,
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 318, col: 28, offset: 9739},
+																										pos: position{line: 317, col: 28, offset: 9677},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 318, col: 29, offset: 9740},
+																											pos:        position{line: 317, col: 29, offset: 9678},
 																											val:        "[_-\\pL\\pN]",
 																											chars:      []rune{'_', '-'},
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -13227,33 +13183,33 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 662, col: 57, offset: 21063},
+																						pos:   position{line: 661, col: 57, offset: 21001},
 																						label: "start",
 																						expr: &zeroOrOneExpr{
-																							pos: position{line: 662, col: 63, offset: 21069},
+																							pos: position{line: 661, col: 63, offset: 21007},
 																							expr: &actionExpr{
-																								pos: position{line: 666, col: 17, offset: 21192},
+																								pos: position{line: 665, col: 17, offset: 21130},
 																								run: (*parser).callonShortHandAttributeValue71,
 																								expr: &seqExpr{
-																									pos: position{line: 666, col: 17, offset: 21192},
+																									pos: position{line: 665, col: 17, offset: 21130},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 666, col: 17, offset: 21192},
+																											pos:        position{line: 665, col: 17, offset: 21130},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 666, col: 21, offset: 21196},
+																											pos:   position{line: 665, col: 21, offset: 21134},
 																											label: "start",
 																											expr: &choiceExpr{
-																												pos: position{line: 666, col: 28, offset: 21203},
+																												pos: position{line: 665, col: 28, offset: 21141},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 666, col: 28, offset: 21203},
+																														pos: position{line: 665, col: 28, offset: 21141},
 																														run: (*parser).callonShortHandAttributeValue76,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 666, col: 28, offset: 21203},
+																															pos:        position{line: 665, col: 28, offset: 21141},
 																															val:        "[A-Za-z]",
 																															ranges:     []rune{'A', 'Z', 'a', 'z'},
 																															ignoreCase: false,
@@ -13261,12 +13217,12 @@ var g = &grammar{
 																														},
 																													},
 																													&actionExpr{
-																														pos: position{line: 668, col: 9, offset: 21257},
+																														pos: position{line: 667, col: 9, offset: 21195},
 																														run: (*parser).callonShortHandAttributeValue78,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 668, col: 9, offset: 21257},
+																															pos: position{line: 667, col: 9, offset: 21195},
 																															expr: &charClassMatcher{
-																																pos:        position{line: 668, col: 9, offset: 21257},
+																																pos:        position{line: 667, col: 9, offset: 21195},
 																																val:        "[0-9]",
 																																ranges:     []rune{'0', '9'},
 																																ignoreCase: false,
@@ -13283,7 +13239,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 662, col: 79, offset: 21085},
+																						pos:        position{line: 661, col: 79, offset: 21023},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13298,10 +13254,10 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 514, col: 12, offset: 16090},
+													pos: position{line: 513, col: 12, offset: 16028},
 													run: (*parser).callonShortHandAttributeValue82,
 													expr: &litMatcher{
-														pos:        position{line: 514, col: 12, offset: 16090},
+														pos:        position{line: 513, col: 12, offset: 16028},
 														val:        "{",
 														ignoreCase: false,
 														want:       "\"{\"",
@@ -13312,19 +13268,19 @@ var g = &grammar{
 									},
 								},
 								&andExpr{
-									pos: position{line: 518, col: 5, offset: 16178},
+									pos: position{line: 517, col: 5, offset: 16116},
 									expr: &notExpr{
-										pos: position{line: 518, col: 7, offset: 16180},
+										pos: position{line: 517, col: 7, offset: 16118},
 										expr: &seqExpr{
-											pos: position{line: 518, col: 9, offset: 16182},
+											pos: position{line: 517, col: 9, offset: 16120},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 518, col: 9, offset: 16182},
+													pos: position{line: 517, col: 9, offset: 16120},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90962},
+														pos: position{line: 2872, col: 10, offset: 90900},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90962},
+															pos:        position{line: 2872, col: 10, offset: 90900},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13333,7 +13289,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 518, col: 16, offset: 16189},
+													pos:        position{line: 517, col: 16, offset: 16127},
 													val:        "=",
 													ignoreCase: false,
 													want:       "\"=\"",
@@ -13350,45 +13306,45 @@ var g = &grammar{
 		},
 		{
 			name: "PositionalAttribute",
-			pos:  position{line: 523, col: 1, offset: 16267},
+			pos:  position{line: 522, col: 1, offset: 16205},
 			expr: &choiceExpr{
-				pos: position{line: 523, col: 24, offset: 16290},
+				pos: position{line: 522, col: 24, offset: 16228},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 524, col: 5, offset: 16296},
+						pos: position{line: 523, col: 5, offset: 16234},
 						run: (*parser).callonPositionalAttribute2,
 						expr: &seqExpr{
-							pos: position{line: 524, col: 5, offset: 16296},
+							pos: position{line: 523, col: 5, offset: 16234},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 524, col: 5, offset: 16296},
+									pos:   position{line: 523, col: 5, offset: 16234},
 									label: "value",
 									expr: &ruleRefExpr{
-										pos:  position{line: 524, col: 12, offset: 16303},
+										pos:  position{line: 523, col: 12, offset: 16241},
 										name: "AttributeValue",
 									},
 								},
 								&choiceExpr{
-									pos: position{line: 524, col: 29, offset: 16320},
+									pos: position{line: 523, col: 29, offset: 16258},
 									alternatives: []interface{}{
 										&zeroOrOneExpr{
-											pos: position{line: 524, col: 29, offset: 16320},
+											pos: position{line: 523, col: 29, offset: 16258},
 											expr: &seqExpr{
-												pos: position{line: 524, col: 30, offset: 16321},
+												pos: position{line: 523, col: 30, offset: 16259},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 524, col: 30, offset: 16321},
+														pos:        position{line: 523, col: 30, offset: 16259},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 524, col: 34, offset: 16325},
+														pos: position{line: 523, col: 34, offset: 16263},
 														expr: &actionExpr{
-															pos: position{line: 2873, col: 10, offset: 90962},
+															pos: position{line: 2872, col: 10, offset: 90900},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2873, col: 10, offset: 90962},
+																pos:        position{line: 2872, col: 10, offset: 90900},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13400,9 +13356,9 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 524, col: 45, offset: 16336},
+											pos: position{line: 523, col: 45, offset: 16274},
 											expr: &litMatcher{
-												pos:        position{line: 524, col: 46, offset: 16337},
+												pos:        position{line: 523, col: 46, offset: 16275},
 												val:        "]",
 												ignoreCase: false,
 												want:       "\"]\"",
@@ -13414,24 +13370,24 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 529, col: 6, offset: 16482},
+						pos: position{line: 528, col: 6, offset: 16420},
 						run: (*parser).callonPositionalAttribute15,
 						expr: &seqExpr{
-							pos: position{line: 529, col: 6, offset: 16482},
+							pos: position{line: 528, col: 6, offset: 16420},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 529, col: 6, offset: 16482},
+									pos:   position{line: 528, col: 6, offset: 16420},
 									label: "value",
 									expr: &seqExpr{
-										pos: position{line: 529, col: 13, offset: 16489},
+										pos: position{line: 528, col: 13, offset: 16427},
 										exprs: []interface{}{
 											&zeroOrMoreExpr{
-												pos: position{line: 529, col: 13, offset: 16489},
+												pos: position{line: 528, col: 13, offset: 16427},
 												expr: &actionExpr{
-													pos: position{line: 2873, col: 10, offset: 90962},
+													pos: position{line: 2872, col: 10, offset: 90900},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2873, col: 10, offset: 90962},
+														pos:        position{line: 2872, col: 10, offset: 90900},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13440,24 +13396,24 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 529, col: 21, offset: 16497},
+												pos: position{line: 528, col: 21, offset: 16435},
 												alternatives: []interface{}{
 													&seqExpr{
-														pos: position{line: 529, col: 22, offset: 16498},
+														pos: position{line: 528, col: 22, offset: 16436},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 529, col: 22, offset: 16498},
+																pos:        position{line: 528, col: 22, offset: 16436},
 																val:        ",",
 																ignoreCase: false,
 																want:       "\",\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 529, col: 26, offset: 16502},
+																pos: position{line: 528, col: 26, offset: 16440},
 																expr: &actionExpr{
-																	pos: position{line: 2873, col: 10, offset: 90962},
+																	pos: position{line: 2872, col: 10, offset: 90900},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2873, col: 10, offset: 90962},
+																		pos:        position{line: 2872, col: 10, offset: 90900},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13468,9 +13424,9 @@ var g = &grammar{
 														},
 													},
 													&andExpr{
-														pos: position{line: 529, col: 36, offset: 16512},
+														pos: position{line: 528, col: 36, offset: 16450},
 														expr: &litMatcher{
-															pos:        position{line: 529, col: 37, offset: 16513},
+															pos:        position{line: 528, col: 37, offset: 16451},
 															val:        "]",
 															ignoreCase: false,
 															want:       "\"]\"",
@@ -13482,7 +13438,7 @@ var g = &grammar{
 									},
 								},
 								&andCodeExpr{
-									pos: position{line: 530, col: 5, offset: 16523},
+									pos: position{line: 529, col: 5, offset: 16461},
 									run: (*parser).callonPositionalAttribute30,
 								},
 							},
@@ -13493,29 +13449,29 @@ var g = &grammar{
 		},
 		{
 			name: "NamedAttribute",
-			pos:  position{line: 540, col: 1, offset: 16838},
+			pos:  position{line: 539, col: 1, offset: 16776},
 			expr: &actionExpr{
-				pos: position{line: 541, col: 5, offset: 16861},
+				pos: position{line: 540, col: 5, offset: 16799},
 				run: (*parser).callonNamedAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 541, col: 5, offset: 16861},
+					pos: position{line: 540, col: 5, offset: 16799},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 541, col: 5, offset: 16861},
+							pos:   position{line: 540, col: 5, offset: 16799},
 							label: "key",
 							expr: &actionExpr{
-								pos: position{line: 549, col: 22, offset: 17149},
+								pos: position{line: 548, col: 22, offset: 17087},
 								run: (*parser).callonNamedAttribute4,
 								expr: &seqExpr{
-									pos: position{line: 549, col: 22, offset: 17149},
+									pos: position{line: 548, col: 22, offset: 17087},
 									exprs: []interface{}{
 										&notExpr{
-											pos: position{line: 549, col: 22, offset: 17149},
+											pos: position{line: 548, col: 22, offset: 17087},
 											expr: &actionExpr{
-												pos: position{line: 2873, col: 10, offset: 90962},
+												pos: position{line: 2872, col: 10, offset: 90900},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2873, col: 10, offset: 90962},
+													pos:        position{line: 2872, col: 10, offset: 90900},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13524,9 +13480,9 @@ var g = &grammar{
 											},
 										},
 										&oneOrMoreExpr{
-											pos: position{line: 549, col: 29, offset: 17156},
+											pos: position{line: 548, col: 29, offset: 17094},
 											expr: &charClassMatcher{
-												pos:        position{line: 549, col: 29, offset: 17156},
+												pos:        position{line: 548, col: 29, offset: 17094},
 												val:        "[^\\r\\n=,]]",
 												chars:      []rune{'\r', '\n', '=', ',', ']'},
 												ignoreCase: false,
@@ -13538,18 +13494,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 542, col: 5, offset: 16890},
+							pos:        position{line: 541, col: 5, offset: 16828},
 							val:        "=",
 							ignoreCase: false,
 							want:       "\"=\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 542, col: 9, offset: 16894},
+							pos: position{line: 541, col: 9, offset: 16832},
 							expr: &actionExpr{
-								pos: position{line: 2873, col: 10, offset: 90962},
+								pos: position{line: 2872, col: 10, offset: 90900},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2873, col: 10, offset: 90962},
+									pos:        position{line: 2872, col: 10, offset: 90900},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13558,31 +13514,31 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 543, col: 5, offset: 16906},
+							pos:   position{line: 542, col: 5, offset: 16844},
 							label: "value",
 							expr: &ruleRefExpr{
-								pos:  position{line: 543, col: 12, offset: 16913},
+								pos:  position{line: 542, col: 12, offset: 16851},
 								name: "AttributeValue",
 							},
 						},
 						&zeroOrOneExpr{
-							pos: position{line: 543, col: 28, offset: 16929},
+							pos: position{line: 542, col: 28, offset: 16867},
 							expr: &seqExpr{
-								pos: position{line: 543, col: 29, offset: 16930},
+								pos: position{line: 542, col: 29, offset: 16868},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 543, col: 29, offset: 16930},
+										pos:        position{line: 542, col: 29, offset: 16868},
 										val:        ",",
 										ignoreCase: false,
 										want:       "\",\"",
 									},
 									&zeroOrMoreExpr{
-										pos: position{line: 543, col: 33, offset: 16934},
+										pos: position{line: 542, col: 33, offset: 16872},
 										expr: &actionExpr{
-											pos: position{line: 2873, col: 10, offset: 90962},
+											pos: position{line: 2872, col: 10, offset: 90900},
 											run: (*parser).callonNamedAttribute21,
 											expr: &charClassMatcher{
-												pos:        position{line: 2873, col: 10, offset: 90962},
+												pos:        position{line: 2872, col: 10, offset: 90900},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13599,48 +13555,48 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeValue",
-			pos:  position{line: 553, col: 1, offset: 17213},
+			pos:  position{line: 552, col: 1, offset: 17151},
 			expr: &actionExpr{
-				pos: position{line: 554, col: 5, offset: 17236},
+				pos: position{line: 553, col: 5, offset: 17174},
 				run: (*parser).callonAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 554, col: 5, offset: 17236},
+					pos: position{line: 553, col: 5, offset: 17174},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 554, col: 5, offset: 17236},
+							pos:   position{line: 553, col: 5, offset: 17174},
 							label: "value",
 							expr: &choiceExpr{
-								pos: position{line: 555, col: 9, offset: 17252},
+								pos: position{line: 554, col: 9, offset: 17190},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 555, col: 9, offset: 17252},
+										pos:  position{line: 554, col: 9, offset: 17190},
 										name: "SingleQuotedAttributeValue",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 556, col: 11, offset: 17290},
+										pos:  position{line: 555, col: 11, offset: 17228},
 										name: "DoubleQuotedAttributeValue",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 557, col: 11, offset: 17328},
+										pos:  position{line: 556, col: 11, offset: 17266},
 										name: "UnquotedAttributeValue",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 559, col: 5, offset: 17362},
+							pos: position{line: 558, col: 5, offset: 17300},
 							expr: &notExpr{
-								pos: position{line: 559, col: 7, offset: 17364},
+								pos: position{line: 558, col: 7, offset: 17302},
 								expr: &seqExpr{
-									pos: position{line: 559, col: 9, offset: 17366},
+									pos: position{line: 558, col: 9, offset: 17304},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 559, col: 9, offset: 17366},
+											pos: position{line: 558, col: 9, offset: 17304},
 											expr: &actionExpr{
-												pos: position{line: 2873, col: 10, offset: 90962},
+												pos: position{line: 2872, col: 10, offset: 90900},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2873, col: 10, offset: 90962},
+													pos:        position{line: 2872, col: 10, offset: 90900},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13649,7 +13605,7 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 559, col: 16, offset: 17373},
+											pos:        position{line: 558, col: 16, offset: 17311},
 											val:        "=",
 											ignoreCase: false,
 											want:       "\"=\"",
@@ -13664,38 +13620,38 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedAttributeValue",
-			pos:  position{line: 563, col: 1, offset: 17414},
+			pos:  position{line: 562, col: 1, offset: 17352},
 			expr: &actionExpr{
-				pos: position{line: 564, col: 5, offset: 17449},
+				pos: position{line: 563, col: 5, offset: 17387},
 				run: (*parser).callonSingleQuotedAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 564, col: 5, offset: 17449},
+					pos: position{line: 563, col: 5, offset: 17387},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 564, col: 5, offset: 17449},
+							pos:        position{line: 563, col: 5, offset: 17387},
 							val:        "'",
 							ignoreCase: false,
 							want:       "\"'\"",
 						},
 						&notExpr{
-							pos: position{line: 564, col: 9, offset: 17453},
+							pos: position{line: 563, col: 9, offset: 17391},
 							expr: &litMatcher{
-								pos:        position{line: 564, col: 10, offset: 17454},
+								pos:        position{line: 563, col: 10, offset: 17392},
 								val:        "`",
 								ignoreCase: false,
 								want:       "\"`\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 565, col: 5, offset: 17533},
+							pos:   position{line: 564, col: 5, offset: 17471},
 							label: "content",
 							expr: &ruleRefExpr{
-								pos:  position{line: 565, col: 14, offset: 17542},
+								pos:  position{line: 564, col: 14, offset: 17480},
 								name: "SingleQuotedAttributeValueContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 566, col: 5, offset: 17581},
+							pos:        position{line: 565, col: 5, offset: 17519},
 							val:        "'",
 							ignoreCase: false,
 							want:       "\"'\"",
@@ -13706,25 +13662,25 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedAttributeValueContent",
-			pos:  position{line: 570, col: 1, offset: 17622},
+			pos:  position{line: 569, col: 1, offset: 17560},
 			expr: &actionExpr{
-				pos: position{line: 571, col: 5, offset: 17664},
+				pos: position{line: 570, col: 5, offset: 17602},
 				run: (*parser).callonSingleQuotedAttributeValueContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 571, col: 5, offset: 17664},
+					pos:   position{line: 570, col: 5, offset: 17602},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 571, col: 14, offset: 17673},
+						pos: position{line: 570, col: 14, offset: 17611},
 						expr: &choiceExpr{
-							pos: position{line: 572, col: 9, offset: 17683},
+							pos: position{line: 571, col: 9, offset: 17621},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2767, col: 14, offset: 88110},
+									pos: position{line: 2766, col: 14, offset: 88048},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2767, col: 14, offset: 88110},
+										pos: position{line: 2766, col: 14, offset: 88048},
 										expr: &charClassMatcher{
-											pos:        position{line: 2767, col: 14, offset: 88110},
+											pos:        position{line: 2766, col: 14, offset: 88048},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -13733,10 +13689,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2873, col: 10, offset: 90962},
+									pos: position{line: 2872, col: 10, offset: 90900},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2873, col: 10, offset: 90962},
+										pos:        position{line: 2872, col: 10, offset: 90900},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -13744,48 +13700,48 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 574, col: 11, offset: 17719},
+									pos:  position{line: 573, col: 11, offset: 17657},
 									name: "QuotationMark",
 								},
 								&actionExpr{
-									pos: position{line: 636, col: 5, offset: 20178},
+									pos: position{line: 635, col: 5, offset: 20116},
 									run: (*parser).callonSingleQuotedAttributeValueContent11,
 									expr: &seqExpr{
-										pos: position{line: 636, col: 5, offset: 20178},
+										pos: position{line: 635, col: 5, offset: 20116},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 636, col: 5, offset: 20178},
+												pos: position{line: 635, col: 5, offset: 20116},
 												run: (*parser).callonSingleQuotedAttributeValueContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 639, col: 5, offset: 20250},
+												pos:   position{line: 638, col: 5, offset: 20188},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 639, col: 14, offset: 20259},
+													pos: position{line: 638, col: 14, offset: 20197},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 645, col: 5, offset: 20388},
+															pos: position{line: 644, col: 5, offset: 20326},
 															run: (*parser).callonSingleQuotedAttributeValueContent16,
 															expr: &seqExpr{
-																pos: position{line: 645, col: 5, offset: 20388},
+																pos: position{line: 644, col: 5, offset: 20326},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 645, col: 5, offset: 20388},
+																		pos:        position{line: 644, col: 5, offset: 20326},
 																		val:        "\\{",
 																		ignoreCase: false,
 																		want:       "\"\\\\{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 645, col: 13, offset: 20396},
+																		pos:   position{line: 644, col: 13, offset: 20334},
 																		label: "name",
 																		expr: &actionExpr{
-																			pos: position{line: 318, col: 18, offset: 9729},
+																			pos: position{line: 317, col: 18, offset: 9667},
 																			run: (*parser).callonSingleQuotedAttributeValueContent20,
 																			expr: &seqExpr{
-																				pos: position{line: 318, col: 18, offset: 9729},
+																				pos: position{line: 317, col: 18, offset: 9667},
 																				exprs: []interface{}{
 																					&charClassMatcher{
-																						pos:        position{line: 318, col: 18, offset: 9729},
+																						pos:        position{line: 317, col: 18, offset: 9667},
 																						val:        "[_\\pL\\pN]",
 																						chars:      []rune{'_'},
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -13793,9 +13749,9 @@ var g = &grammar{
 																						inverted:   false,
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 318, col: 28, offset: 9739},
+																						pos: position{line: 317, col: 28, offset: 9677},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 318, col: 29, offset: 9740},
+																							pos:        position{line: 317, col: 29, offset: 9678},
 																							val:        "[_-\\pL\\pN]",
 																							chars:      []rune{'_', '-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -13808,7 +13764,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 645, col: 32, offset: 20415},
+																		pos:        position{line: 644, col: 32, offset: 20353},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -13817,28 +13773,28 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 652, col: 5, offset: 20656},
+															pos: position{line: 651, col: 5, offset: 20594},
 															run: (*parser).callonSingleQuotedAttributeValueContent26,
 															expr: &seqExpr{
-																pos: position{line: 652, col: 5, offset: 20656},
+																pos: position{line: 651, col: 5, offset: 20594},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 652, col: 5, offset: 20656},
+																		pos:        position{line: 651, col: 5, offset: 20594},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 652, col: 9, offset: 20660},
+																		pos:   position{line: 651, col: 9, offset: 20598},
 																		label: "name",
 																		expr: &actionExpr{
-																			pos: position{line: 318, col: 18, offset: 9729},
+																			pos: position{line: 317, col: 18, offset: 9667},
 																			run: (*parser).callonSingleQuotedAttributeValueContent30,
 																			expr: &seqExpr{
-																				pos: position{line: 318, col: 18, offset: 9729},
+																				pos: position{line: 317, col: 18, offset: 9667},
 																				exprs: []interface{}{
 																					&charClassMatcher{
-																						pos:        position{line: 318, col: 18, offset: 9729},
+																						pos:        position{line: 317, col: 18, offset: 9667},
 																						val:        "[_\\pL\\pN]",
 																						chars:      []rune{'_'},
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -13846,9 +13802,9 @@ var g = &grammar{
 																						inverted:   false,
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 318, col: 28, offset: 9739},
+																						pos: position{line: 317, col: 28, offset: 9677},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 318, col: 29, offset: 9740},
+																							pos:        position{line: 317, col: 29, offset: 9678},
 																							val:        "[_-\\pL\\pN]",
 																							chars:      []rune{'_', '-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -13861,7 +13817,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 652, col: 28, offset: 20679},
+																		pos:        position{line: 651, col: 28, offset: 20617},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -13870,28 +13826,28 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 658, col: 25, offset: 20860},
+															pos: position{line: 657, col: 25, offset: 20798},
 															run: (*parser).callonSingleQuotedAttributeValueContent36,
 															expr: &seqExpr{
-																pos: position{line: 658, col: 25, offset: 20860},
+																pos: position{line: 657, col: 25, offset: 20798},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 658, col: 25, offset: 20860},
+																		pos:        position{line: 657, col: 25, offset: 20798},
 																		val:        "{counter:",
 																		ignoreCase: false,
 																		want:       "\"{counter:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 658, col: 37, offset: 20872},
+																		pos:   position{line: 657, col: 37, offset: 20810},
 																		label: "name",
 																		expr: &actionExpr{
-																			pos: position{line: 318, col: 18, offset: 9729},
+																			pos: position{line: 317, col: 18, offset: 9667},
 																			run: (*parser).callonSingleQuotedAttributeValueContent40,
 																			expr: &seqExpr{
-																				pos: position{line: 318, col: 18, offset: 9729},
+																				pos: position{line: 317, col: 18, offset: 9667},
 																				exprs: []interface{}{
 																					&charClassMatcher{
-																						pos:        position{line: 318, col: 18, offset: 9729},
+																						pos:        position{line: 317, col: 18, offset: 9667},
 																						val:        "[_\\pL\\pN]",
 																						chars:      []rune{'_'},
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -13899,9 +13855,9 @@ var g = &grammar{
 																						inverted:   false,
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 318, col: 28, offset: 9739},
+																						pos: position{line: 317, col: 28, offset: 9677},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 318, col: 29, offset: 9740},
+																							pos:        position{line: 317, col: 29, offset: 9678},
 																							val:        "[_-\\pL\\pN]",
 																							chars:      []rune{'_', '-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -13914,33 +13870,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 658, col: 56, offset: 20891},
+																		pos:   position{line: 657, col: 56, offset: 20829},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 658, col: 62, offset: 20897},
+																			pos: position{line: 657, col: 62, offset: 20835},
 																			expr: &actionExpr{
-																				pos: position{line: 666, col: 17, offset: 21192},
+																				pos: position{line: 665, col: 17, offset: 21130},
 																				run: (*parser).callonSingleQuotedAttributeValueContent47,
 																				expr: &seqExpr{
-																					pos: position{line: 666, col: 17, offset: 21192},
+																					pos: position{line: 665, col: 17, offset: 21130},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 666, col: 17, offset: 21192},
+																							pos:        position{line: 665, col: 17, offset: 21130},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 666, col: 21, offset: 21196},
+																							pos:   position{line: 665, col: 21, offset: 21134},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 666, col: 28, offset: 21203},
+																								pos: position{line: 665, col: 28, offset: 21141},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 666, col: 28, offset: 21203},
+																										pos: position{line: 665, col: 28, offset: 21141},
 																										run: (*parser).callonSingleQuotedAttributeValueContent52,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 666, col: 28, offset: 21203},
+																											pos:        position{line: 665, col: 28, offset: 21141},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -13948,12 +13904,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 668, col: 9, offset: 21257},
+																										pos: position{line: 667, col: 9, offset: 21195},
 																										run: (*parser).callonSingleQuotedAttributeValueContent54,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 668, col: 9, offset: 21257},
+																											pos: position{line: 667, col: 9, offset: 21195},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 668, col: 9, offset: 21257},
+																												pos:        position{line: 667, col: 9, offset: 21195},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -13970,7 +13926,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 658, col: 78, offset: 20913},
+																		pos:        position{line: 657, col: 78, offset: 20851},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -13979,28 +13935,28 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 662, col: 25, offset: 21031},
+															pos: position{line: 661, col: 25, offset: 20969},
 															run: (*parser).callonSingleQuotedAttributeValueContent58,
 															expr: &seqExpr{
-																pos: position{line: 662, col: 25, offset: 21031},
+																pos: position{line: 661, col: 25, offset: 20969},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 662, col: 25, offset: 21031},
+																		pos:        position{line: 661, col: 25, offset: 20969},
 																		val:        "{counter2:",
 																		ignoreCase: false,
 																		want:       "\"{counter2:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 662, col: 38, offset: 21044},
+																		pos:   position{line: 661, col: 38, offset: 20982},
 																		label: "name",
 																		expr: &actionExpr{
-																			pos: position{line: 318, col: 18, offset: 9729},
+																			pos: position{line: 317, col: 18, offset: 9667},
 																			run: (*parser).callonSingleQuotedAttributeValueContent62,
 																			expr: &seqExpr{
-																				pos: position{line: 318, col: 18, offset: 9729},
+																				pos: position{line: 317, col: 18, offset: 9667},
 																				exprs: []interface{}{
 																					&charClassMatcher{
-																						pos:        position{line: 318, col: 18, offset: 9729},
+																						pos:        position{line: 317, col: 18, offset: 9667},
 																						val:        "[_\\pL\\pN]",
 																						chars:      []rune{'_'},
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14008,9 +13964,9 @@ var g = &grammar{
 																						inverted:   false,
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 318, col: 28, offset: 9739},
+																						pos: position{line: 317, col: 28, offset: 9677},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 318, col: 29, offset: 9740},
+																							pos:        position{line: 317, col: 29, offset: 9678},
 																							val:        "[_-\\pL\\pN]",
 																							chars:      []rune{'_', '-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14023,33 +13979,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 662, col: 57, offset: 21063},
+																		pos:   position{line: 661, col: 57, offset: 21001},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 662, col: 63, offset: 21069},
+																			pos: position{line: 661, col: 63, offset: 21007},
 																			expr: &actionExpr{
-																				pos: position{line: 666, col: 17, offset: 21192},
+																				pos: position{line: 665, col: 17, offset: 21130},
 																				run: (*parser).callonSingleQuotedAttributeValueContent69,
 																				expr: &seqExpr{
-																					pos: position{line: 666, col: 17, offset: 21192},
+																					pos: position{line: 665, col: 17, offset: 21130},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 666, col: 17, offset: 21192},
+																							pos:        position{line: 665, col: 17, offset: 21130},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 666, col: 21, offset: 21196},
+																							pos:   position{line: 665, col: 21, offset: 21134},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 666, col: 28, offset: 21203},
+																								pos: position{line: 665, col: 28, offset: 21141},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 666, col: 28, offset: 21203},
+																										pos: position{line: 665, col: 28, offset: 21141},
 																										run: (*parser).callonSingleQuotedAttributeValueContent74,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 666, col: 28, offset: 21203},
+																											pos:        position{line: 665, col: 28, offset: 21141},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14057,12 +14013,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 668, col: 9, offset: 21257},
+																										pos: position{line: 667, col: 9, offset: 21195},
 																										run: (*parser).callonSingleQuotedAttributeValueContent76,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 668, col: 9, offset: 21257},
+																											pos: position{line: 667, col: 9, offset: 21195},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 668, col: 9, offset: 21257},
+																												pos:        position{line: 667, col: 9, offset: 21195},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14079,7 +14035,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 662, col: 79, offset: 21085},
+																		pos:        position{line: 661, col: 79, offset: 21023},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14094,44 +14050,44 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 576, col: 12, offset: 17773},
+									pos: position{line: 575, col: 12, offset: 17711},
 									run: (*parser).callonSingleQuotedAttributeValueContent80,
 									expr: &litMatcher{
-										pos:        position{line: 576, col: 12, offset: 17773},
+										pos:        position{line: 575, col: 12, offset: 17711},
 										val:        "\\'",
 										ignoreCase: false,
 										want:       "\"\\\\'\"",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 579, col: 13, offset: 17875},
+									pos:        position{line: 578, col: 13, offset: 17813},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&litMatcher{
-									pos:        position{line: 579, col: 20, offset: 17882},
+									pos:        position{line: 578, col: 20, offset: 17820},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&actionExpr{
-									pos: position{line: 579, col: 27, offset: 17889},
+									pos: position{line: 578, col: 27, offset: 17827},
 									run: (*parser).callonSingleQuotedAttributeValueContent84,
 									expr: &litMatcher{
-										pos:        position{line: 579, col: 27, offset: 17889},
+										pos:        position{line: 578, col: 27, offset: 17827},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
 									},
 								},
 								&actionExpr{
-									pos: position{line: 582, col: 12, offset: 18049},
+									pos: position{line: 581, col: 12, offset: 17987},
 									run: (*parser).callonSingleQuotedAttributeValueContent86,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 582, col: 12, offset: 18049},
+										pos: position{line: 581, col: 12, offset: 17987},
 										expr: &charClassMatcher{
-											pos:        position{line: 582, col: 12, offset: 18049},
+											pos:        position{line: 581, col: 12, offset: 17987},
 											val:        "[^\\r\\n\\\\\\ ]",
 											chars:      []rune{'\r', '\n', '\\', '\'', ' '},
 											ignoreCase: false,
@@ -14147,56 +14103,56 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedAttributeValue",
-			pos:  position{line: 589, col: 1, offset: 18246},
+			pos:  position{line: 588, col: 1, offset: 18184},
 			expr: &actionExpr{
-				pos: position{line: 590, col: 5, offset: 18281},
+				pos: position{line: 589, col: 5, offset: 18219},
 				run: (*parser).callonDoubleQuotedAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 590, col: 5, offset: 18281},
+					pos: position{line: 589, col: 5, offset: 18219},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 590, col: 5, offset: 18281},
+							pos:        position{line: 589, col: 5, offset: 18219},
 							val:        "\"",
 							ignoreCase: false,
 							want:       "\"\\\"\"",
 						},
 						&notExpr{
-							pos: position{line: 590, col: 10, offset: 18286},
+							pos: position{line: 589, col: 10, offset: 18224},
 							expr: &litMatcher{
-								pos:        position{line: 590, col: 11, offset: 18287},
+								pos:        position{line: 589, col: 11, offset: 18225},
 								val:        "`",
 								ignoreCase: false,
 								want:       "\"`\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 591, col: 5, offset: 18366},
+							pos:   position{line: 590, col: 5, offset: 18304},
 							label: "content",
 							expr: &ruleRefExpr{
-								pos:  position{line: 591, col: 14, offset: 18375},
+								pos:  position{line: 590, col: 14, offset: 18313},
 								name: "DoubleQuotedAttributeValueContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 592, col: 5, offset: 18414},
+							pos:        position{line: 591, col: 5, offset: 18352},
 							val:        "\"",
 							ignoreCase: false,
 							want:       "\"\\\"\"",
 						},
 						&andExpr{
-							pos: position{line: 592, col: 10, offset: 18419},
+							pos: position{line: 591, col: 10, offset: 18357},
 							expr: &notExpr{
-								pos: position{line: 592, col: 12, offset: 18421},
+								pos: position{line: 591, col: 12, offset: 18359},
 								expr: &seqExpr{
-									pos: position{line: 592, col: 14, offset: 18423},
+									pos: position{line: 591, col: 14, offset: 18361},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 592, col: 14, offset: 18423},
+											pos: position{line: 591, col: 14, offset: 18361},
 											expr: &actionExpr{
-												pos: position{line: 2873, col: 10, offset: 90962},
+												pos: position{line: 2872, col: 10, offset: 90900},
 												run: (*parser).callonDoubleQuotedAttributeValue13,
 												expr: &charClassMatcher{
-													pos:        position{line: 2873, col: 10, offset: 90962},
+													pos:        position{line: 2872, col: 10, offset: 90900},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14205,7 +14161,7 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 592, col: 21, offset: 18430},
+											pos:        position{line: 591, col: 21, offset: 18368},
 											val:        "=",
 											ignoreCase: false,
 											want:       "\"=\"",
@@ -14220,25 +14176,25 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedAttributeValueContent",
-			pos:  position{line: 596, col: 1, offset: 18473},
+			pos:  position{line: 595, col: 1, offset: 18411},
 			expr: &actionExpr{
-				pos: position{line: 597, col: 5, offset: 18515},
+				pos: position{line: 596, col: 5, offset: 18453},
 				run: (*parser).callonDoubleQuotedAttributeValueContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 597, col: 5, offset: 18515},
+					pos:   position{line: 596, col: 5, offset: 18453},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 597, col: 14, offset: 18524},
+						pos: position{line: 596, col: 14, offset: 18462},
 						expr: &choiceExpr{
-							pos: position{line: 598, col: 9, offset: 18534},
+							pos: position{line: 597, col: 9, offset: 18472},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2767, col: 14, offset: 88110},
+									pos: position{line: 2766, col: 14, offset: 88048},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2767, col: 14, offset: 88110},
+										pos: position{line: 2766, col: 14, offset: 88048},
 										expr: &charClassMatcher{
-											pos:        position{line: 2767, col: 14, offset: 88110},
+											pos:        position{line: 2766, col: 14, offset: 88048},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14247,10 +14203,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2873, col: 10, offset: 90962},
+									pos: position{line: 2872, col: 10, offset: 90900},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2873, col: 10, offset: 90962},
+										pos:        position{line: 2872, col: 10, offset: 90900},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14258,48 +14214,48 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 600, col: 11, offset: 18570},
+									pos:  position{line: 599, col: 11, offset: 18508},
 									name: "QuotationMark",
 								},
 								&actionExpr{
-									pos: position{line: 636, col: 5, offset: 20178},
+									pos: position{line: 635, col: 5, offset: 20116},
 									run: (*parser).callonDoubleQuotedAttributeValueContent11,
 									expr: &seqExpr{
-										pos: position{line: 636, col: 5, offset: 20178},
+										pos: position{line: 635, col: 5, offset: 20116},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 636, col: 5, offset: 20178},
+												pos: position{line: 635, col: 5, offset: 20116},
 												run: (*parser).callonDoubleQuotedAttributeValueContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 639, col: 5, offset: 20250},
+												pos:   position{line: 638, col: 5, offset: 20188},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 639, col: 14, offset: 20259},
+													pos: position{line: 638, col: 14, offset: 20197},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 645, col: 5, offset: 20388},
+															pos: position{line: 644, col: 5, offset: 20326},
 															run: (*parser).callonDoubleQuotedAttributeValueContent16,
 															expr: &seqExpr{
-																pos: position{line: 645, col: 5, offset: 20388},
+																pos: position{line: 644, col: 5, offset: 20326},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 645, col: 5, offset: 20388},
+																		pos:        position{line: 644, col: 5, offset: 20326},
 																		val:        "\\{",
 																		ignoreCase: false,
 																		want:       "\"\\\\{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 645, col: 13, offset: 20396},
+																		pos:   position{line: 644, col: 13, offset: 20334},
 																		label: "name",
 																		expr: &actionExpr{
-																			pos: position{line: 318, col: 18, offset: 9729},
+																			pos: position{line: 317, col: 18, offset: 9667},
 																			run: (*parser).callonDoubleQuotedAttributeValueContent20,
 																			expr: &seqExpr{
-																				pos: position{line: 318, col: 18, offset: 9729},
+																				pos: position{line: 317, col: 18, offset: 9667},
 																				exprs: []interface{}{
 																					&charClassMatcher{
-																						pos:        position{line: 318, col: 18, offset: 9729},
+																						pos:        position{line: 317, col: 18, offset: 9667},
 																						val:        "[_\\pL\\pN]",
 																						chars:      []rune{'_'},
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14307,9 +14263,9 @@ var g = &grammar{
 																						inverted:   false,
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 318, col: 28, offset: 9739},
+																						pos: position{line: 317, col: 28, offset: 9677},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 318, col: 29, offset: 9740},
+																							pos:        position{line: 317, col: 29, offset: 9678},
 																							val:        "[_-\\pL\\pN]",
 																							chars:      []rune{'_', '-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14322,7 +14278,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 645, col: 32, offset: 20415},
+																		pos:        position{line: 644, col: 32, offset: 20353},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14331,28 +14287,28 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 652, col: 5, offset: 20656},
+															pos: position{line: 651, col: 5, offset: 20594},
 															run: (*parser).callonDoubleQuotedAttributeValueContent26,
 															expr: &seqExpr{
-																pos: position{line: 652, col: 5, offset: 20656},
+																pos: position{line: 651, col: 5, offset: 20594},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 652, col: 5, offset: 20656},
+																		pos:        position{line: 651, col: 5, offset: 20594},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 652, col: 9, offset: 20660},
+																		pos:   position{line: 651, col: 9, offset: 20598},
 																		label: "name",
 																		expr: &actionExpr{
-																			pos: position{line: 318, col: 18, offset: 9729},
+																			pos: position{line: 317, col: 18, offset: 9667},
 																			run: (*parser).callonDoubleQuotedAttributeValueContent30,
 																			expr: &seqExpr{
-																				pos: position{line: 318, col: 18, offset: 9729},
+																				pos: position{line: 317, col: 18, offset: 9667},
 																				exprs: []interface{}{
 																					&charClassMatcher{
-																						pos:        position{line: 318, col: 18, offset: 9729},
+																						pos:        position{line: 317, col: 18, offset: 9667},
 																						val:        "[_\\pL\\pN]",
 																						chars:      []rune{'_'},
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14360,9 +14316,9 @@ var g = &grammar{
 																						inverted:   false,
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 318, col: 28, offset: 9739},
+																						pos: position{line: 317, col: 28, offset: 9677},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 318, col: 29, offset: 9740},
+																							pos:        position{line: 317, col: 29, offset: 9678},
 																							val:        "[_-\\pL\\pN]",
 																							chars:      []rune{'_', '-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14375,7 +14331,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 652, col: 28, offset: 20679},
+																		pos:        position{line: 651, col: 28, offset: 20617},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14384,28 +14340,28 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 658, col: 25, offset: 20860},
+															pos: position{line: 657, col: 25, offset: 20798},
 															run: (*parser).callonDoubleQuotedAttributeValueContent36,
 															expr: &seqExpr{
-																pos: position{line: 658, col: 25, offset: 20860},
+																pos: position{line: 657, col: 25, offset: 20798},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 658, col: 25, offset: 20860},
+																		pos:        position{line: 657, col: 25, offset: 20798},
 																		val:        "{counter:",
 																		ignoreCase: false,
 																		want:       "\"{counter:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 658, col: 37, offset: 20872},
+																		pos:   position{line: 657, col: 37, offset: 20810},
 																		label: "name",
 																		expr: &actionExpr{
-																			pos: position{line: 318, col: 18, offset: 9729},
+																			pos: position{line: 317, col: 18, offset: 9667},
 																			run: (*parser).callonDoubleQuotedAttributeValueContent40,
 																			expr: &seqExpr{
-																				pos: position{line: 318, col: 18, offset: 9729},
+																				pos: position{line: 317, col: 18, offset: 9667},
 																				exprs: []interface{}{
 																					&charClassMatcher{
-																						pos:        position{line: 318, col: 18, offset: 9729},
+																						pos:        position{line: 317, col: 18, offset: 9667},
 																						val:        "[_\\pL\\pN]",
 																						chars:      []rune{'_'},
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14413,9 +14369,9 @@ var g = &grammar{
 																						inverted:   false,
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 318, col: 28, offset: 9739},
+																						pos: position{line: 317, col: 28, offset: 9677},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 318, col: 29, offset: 9740},
+																							pos:        position{line: 317, col: 29, offset: 9678},
 																							val:        "[_-\\pL\\pN]",
 																							chars:      []rune{'_', '-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14428,33 +14384,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 658, col: 56, offset: 20891},
+																		pos:   position{line: 657, col: 56, offset: 20829},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 658, col: 62, offset: 20897},
+																			pos: position{line: 657, col: 62, offset: 20835},
 																			expr: &actionExpr{
-																				pos: position{line: 666, col: 17, offset: 21192},
+																				pos: position{line: 665, col: 17, offset: 21130},
 																				run: (*parser).callonDoubleQuotedAttributeValueContent47,
 																				expr: &seqExpr{
-																					pos: position{line: 666, col: 17, offset: 21192},
+																					pos: position{line: 665, col: 17, offset: 21130},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 666, col: 17, offset: 21192},
+																							pos:        position{line: 665, col: 17, offset: 21130},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 666, col: 21, offset: 21196},
+																							pos:   position{line: 665, col: 21, offset: 21134},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 666, col: 28, offset: 21203},
+																								pos: position{line: 665, col: 28, offset: 21141},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 666, col: 28, offset: 21203},
+																										pos: position{line: 665, col: 28, offset: 21141},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent52,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 666, col: 28, offset: 21203},
+																											pos:        position{line: 665, col: 28, offset: 21141},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14462,12 +14418,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 668, col: 9, offset: 21257},
+																										pos: position{line: 667, col: 9, offset: 21195},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent54,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 668, col: 9, offset: 21257},
+																											pos: position{line: 667, col: 9, offset: 21195},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 668, col: 9, offset: 21257},
+																												pos:        position{line: 667, col: 9, offset: 21195},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14484,7 +14440,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 658, col: 78, offset: 20913},
+																		pos:        position{line: 657, col: 78, offset: 20851},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14493,28 +14449,28 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 662, col: 25, offset: 21031},
+															pos: position{line: 661, col: 25, offset: 20969},
 															run: (*parser).callonDoubleQuotedAttributeValueContent58,
 															expr: &seqExpr{
-																pos: position{line: 662, col: 25, offset: 21031},
+																pos: position{line: 661, col: 25, offset: 20969},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 662, col: 25, offset: 21031},
+																		pos:        position{line: 661, col: 25, offset: 20969},
 																		val:        "{counter2:",
 																		ignoreCase: false,
 																		want:       "\"{counter2:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 662, col: 38, offset: 21044},
+																		pos:   position{line: 661, col: 38, offset: 20982},
 																		label: "name",
 																		expr: &actionExpr{
-																			pos: position{line: 318, col: 18, offset: 9729},
+																			pos: position{line: 317, col: 18, offset: 9667},
 																			run: (*parser).callonDoubleQuotedAttributeValueContent62,
 																			expr: &seqExpr{
-																				pos: position{line: 318, col: 18, offset: 9729},
+																				pos: position{line: 317, col: 18, offset: 9667},
 																				exprs: []interface{}{
 																					&charClassMatcher{
-																						pos:        position{line: 318, col: 18, offset: 9729},
+																						pos:        position{line: 317, col: 18, offset: 9667},
 																						val:        "[_\\pL\\pN]",
 																						chars:      []rune{'_'},
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14522,9 +14478,9 @@ var g = &grammar{
 																						inverted:   false,
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 318, col: 28, offset: 9739},
+																						pos: position{line: 317, col: 28, offset: 9677},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 318, col: 29, offset: 9740},
+																							pos:        position{line: 317, col: 29, offset: 9678},
 																							val:        "[_-\\pL\\pN]",
 																							chars:      []rune{'_', '-'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14537,33 +14493,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 662, col: 57, offset: 21063},
+																		pos:   position{line: 661, col: 57, offset: 21001},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 662, col: 63, offset: 21069},
+																			pos: position{line: 661, col: 63, offset: 21007},
 																			expr: &actionExpr{
-																				pos: position{line: 666, col: 17, offset: 21192},
+																				pos: position{line: 665, col: 17, offset: 21130},
 																				run: (*parser).callonDoubleQuotedAttributeValueContent69,
 																				expr: &seqExpr{
-																					pos: position{line: 666, col: 17, offset: 21192},
+																					pos: position{line: 665, col: 17, offset: 21130},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 666, col: 17, offset: 21192},
+																							pos:        position{line: 665, col: 17, offset: 21130},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 666, col: 21, offset: 21196},
+																							pos:   position{line: 665, col: 21, offset: 21134},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 666, col: 28, offset: 21203},
+																								pos: position{line: 665, col: 28, offset: 21141},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 666, col: 28, offset: 21203},
+																										pos: position{line: 665, col: 28, offset: 21141},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent74,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 666, col: 28, offset: 21203},
+																											pos:        position{line: 665, col: 28, offset: 21141},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14571,12 +14527,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 668, col: 9, offset: 21257},
+																										pos: position{line: 667, col: 9, offset: 21195},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent76,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 668, col: 9, offset: 21257},
+																											pos: position{line: 667, col: 9, offset: 21195},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 668, col: 9, offset: 21257},
+																												pos:        position{line: 667, col: 9, offset: 21195},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14593,7 +14549,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 662, col: 79, offset: 21085},
+																		pos:        position{line: 661, col: 79, offset: 21023},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14608,50 +14564,50 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 602, col: 12, offset: 18625},
+									pos: position{line: 601, col: 12, offset: 18563},
 									run: (*parser).callonDoubleQuotedAttributeValueContent80,
 									expr: &litMatcher{
-										pos:        position{line: 602, col: 12, offset: 18625},
+										pos:        position{line: 601, col: 12, offset: 18563},
 										val:        "\\\"",
 										ignoreCase: false,
 										want:       "\"\\\\\\\"\"",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 605, col: 13, offset: 18727},
+									pos:        position{line: 604, col: 13, offset: 18665},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&litMatcher{
-									pos:        position{line: 605, col: 21, offset: 18735},
+									pos:        position{line: 604, col: 21, offset: 18673},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&litMatcher{
-									pos:        position{line: 605, col: 29, offset: 18743},
+									pos:        position{line: 604, col: 29, offset: 18681},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&actionExpr{
-									pos: position{line: 605, col: 35, offset: 18749},
+									pos: position{line: 604, col: 35, offset: 18687},
 									run: (*parser).callonDoubleQuotedAttributeValueContent85,
 									expr: &litMatcher{
-										pos:        position{line: 605, col: 35, offset: 18749},
+										pos:        position{line: 604, col: 35, offset: 18687},
 										val:        "`",
 										ignoreCase: false,
 										want:       "\"`\"",
 									},
 								},
 								&actionExpr{
-									pos: position{line: 608, col: 12, offset: 18932},
+									pos: position{line: 607, col: 12, offset: 18870},
 									run: (*parser).callonDoubleQuotedAttributeValueContent87,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 608, col: 12, offset: 18932},
+										pos: position{line: 607, col: 12, offset: 18870},
 										expr: &charClassMatcher{
-											pos:        position{line: 608, col: 12, offset: 18932},
+											pos:        position{line: 607, col: 12, offset: 18870},
 											val:        "[^\\r\\n\\\\\"` ]",
 											chars:      []rune{'\r', '\n', '\\', '"', '`', ' '},
 											ignoreCase: false,
@@ -14667,20 +14623,20 @@ var g = &grammar{
 		},
 		{
 			name: "UnquotedAttributeValue",
-			pos:  position{line: 616, col: 1, offset: 19206},
+			pos:  position{line: 615, col: 1, offset: 19144},
 			expr: &actionExpr{
-				pos: position{line: 619, col: 5, offset: 19390},
+				pos: position{line: 618, col: 5, offset: 19328},
 				run: (*parser).callonUnquotedAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 619, col: 5, offset: 19390},
+					pos: position{line: 618, col: 5, offset: 19328},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 619, col: 5, offset: 19390},
+							pos: position{line: 618, col: 5, offset: 19328},
 							expr: &actionExpr{
-								pos: position{line: 2873, col: 10, offset: 90962},
+								pos: position{line: 2872, col: 10, offset: 90900},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2873, col: 10, offset: 90962},
+									pos:        position{line: 2872, col: 10, offset: 90900},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -14689,28 +14645,28 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 620, col: 5, offset: 19459},
+							pos:   position{line: 619, col: 5, offset: 19397},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 620, col: 14, offset: 19468},
+								pos: position{line: 619, col: 14, offset: 19406},
 								expr: &choiceExpr{
-									pos: position{line: 621, col: 9, offset: 19478},
+									pos: position{line: 620, col: 9, offset: 19416},
 									alternatives: []interface{}{
 										&seqExpr{
-											pos: position{line: 621, col: 10, offset: 19479},
+											pos: position{line: 620, col: 10, offset: 19417},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 621, col: 10, offset: 19479},
+													pos:        position{line: 620, col: 10, offset: 19417},
 													val:        "[",
 													ignoreCase: false,
 													want:       "\"[\"",
 												},
 												&ruleRefExpr{
-													pos:  position{line: 621, col: 14, offset: 19483},
+													pos:  position{line: 620, col: 14, offset: 19421},
 													name: "UnquotedAttributeValue",
 												},
 												&litMatcher{
-													pos:        position{line: 621, col: 37, offset: 19506},
+													pos:        position{line: 620, col: 37, offset: 19444},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
@@ -14718,44 +14674,44 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 636, col: 5, offset: 20178},
+											pos: position{line: 635, col: 5, offset: 20116},
 											run: (*parser).callonUnquotedAttributeValue13,
 											expr: &seqExpr{
-												pos: position{line: 636, col: 5, offset: 20178},
+												pos: position{line: 635, col: 5, offset: 20116},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 636, col: 5, offset: 20178},
+														pos: position{line: 635, col: 5, offset: 20116},
 														run: (*parser).callonUnquotedAttributeValue15,
 													},
 													&labeledExpr{
-														pos:   position{line: 639, col: 5, offset: 20250},
+														pos:   position{line: 638, col: 5, offset: 20188},
 														label: "element",
 														expr: &choiceExpr{
-															pos: position{line: 639, col: 14, offset: 20259},
+															pos: position{line: 638, col: 14, offset: 20197},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 645, col: 5, offset: 20388},
+																	pos: position{line: 644, col: 5, offset: 20326},
 																	run: (*parser).callonUnquotedAttributeValue18,
 																	expr: &seqExpr{
-																		pos: position{line: 645, col: 5, offset: 20388},
+																		pos: position{line: 644, col: 5, offset: 20326},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 645, col: 5, offset: 20388},
+																				pos:        position{line: 644, col: 5, offset: 20326},
 																				val:        "\\{",
 																				ignoreCase: false,
 																				want:       "\"\\\\{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 645, col: 13, offset: 20396},
+																				pos:   position{line: 644, col: 13, offset: 20334},
 																				label: "name",
 																				expr: &actionExpr{
-																					pos: position{line: 318, col: 18, offset: 9729},
+																					pos: position{line: 317, col: 18, offset: 9667},
 																					run: (*parser).callonUnquotedAttributeValue22,
 																					expr: &seqExpr{
-																						pos: position{line: 318, col: 18, offset: 9729},
+																						pos: position{line: 317, col: 18, offset: 9667},
 																						exprs: []interface{}{
 																							&charClassMatcher{
-																								pos:        position{line: 318, col: 18, offset: 9729},
+																								pos:        position{line: 317, col: 18, offset: 9667},
 																								val:        "[_\\pL\\pN]",
 																								chars:      []rune{'_'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14763,9 +14719,9 @@ var g = &grammar{
 																								inverted:   false,
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 318, col: 28, offset: 9739},
+																								pos: position{line: 317, col: 28, offset: 9677},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 318, col: 29, offset: 9740},
+																									pos:        position{line: 317, col: 29, offset: 9678},
 																									val:        "[_-\\pL\\pN]",
 																									chars:      []rune{'_', '-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14778,7 +14734,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 645, col: 32, offset: 20415},
+																				pos:        position{line: 644, col: 32, offset: 20353},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -14787,28 +14743,28 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 652, col: 5, offset: 20656},
+																	pos: position{line: 651, col: 5, offset: 20594},
 																	run: (*parser).callonUnquotedAttributeValue28,
 																	expr: &seqExpr{
-																		pos: position{line: 652, col: 5, offset: 20656},
+																		pos: position{line: 651, col: 5, offset: 20594},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 652, col: 5, offset: 20656},
+																				pos:        position{line: 651, col: 5, offset: 20594},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 652, col: 9, offset: 20660},
+																				pos:   position{line: 651, col: 9, offset: 20598},
 																				label: "name",
 																				expr: &actionExpr{
-																					pos: position{line: 318, col: 18, offset: 9729},
+																					pos: position{line: 317, col: 18, offset: 9667},
 																					run: (*parser).callonUnquotedAttributeValue32,
 																					expr: &seqExpr{
-																						pos: position{line: 318, col: 18, offset: 9729},
+																						pos: position{line: 317, col: 18, offset: 9667},
 																						exprs: []interface{}{
 																							&charClassMatcher{
-																								pos:        position{line: 318, col: 18, offset: 9729},
+																								pos:        position{line: 317, col: 18, offset: 9667},
 																								val:        "[_\\pL\\pN]",
 																								chars:      []rune{'_'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14816,9 +14772,9 @@ var g = &grammar{
 																								inverted:   false,
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 318, col: 28, offset: 9739},
+																								pos: position{line: 317, col: 28, offset: 9677},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 318, col: 29, offset: 9740},
+																									pos:        position{line: 317, col: 29, offset: 9678},
 																									val:        "[_-\\pL\\pN]",
 																									chars:      []rune{'_', '-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14831,7 +14787,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 652, col: 28, offset: 20679},
+																				pos:        position{line: 651, col: 28, offset: 20617},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -14840,28 +14796,28 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 658, col: 25, offset: 20860},
+																	pos: position{line: 657, col: 25, offset: 20798},
 																	run: (*parser).callonUnquotedAttributeValue38,
 																	expr: &seqExpr{
-																		pos: position{line: 658, col: 25, offset: 20860},
+																		pos: position{line: 657, col: 25, offset: 20798},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 658, col: 25, offset: 20860},
+																				pos:        position{line: 657, col: 25, offset: 20798},
 																				val:        "{counter:",
 																				ignoreCase: false,
 																				want:       "\"{counter:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 658, col: 37, offset: 20872},
+																				pos:   position{line: 657, col: 37, offset: 20810},
 																				label: "name",
 																				expr: &actionExpr{
-																					pos: position{line: 318, col: 18, offset: 9729},
+																					pos: position{line: 317, col: 18, offset: 9667},
 																					run: (*parser).callonUnquotedAttributeValue42,
 																					expr: &seqExpr{
-																						pos: position{line: 318, col: 18, offset: 9729},
+																						pos: position{line: 317, col: 18, offset: 9667},
 																						exprs: []interface{}{
 																							&charClassMatcher{
-																								pos:        position{line: 318, col: 18, offset: 9729},
+																								pos:        position{line: 317, col: 18, offset: 9667},
 																								val:        "[_\\pL\\pN]",
 																								chars:      []rune{'_'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14869,9 +14825,9 @@ var g = &grammar{
 																								inverted:   false,
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 318, col: 28, offset: 9739},
+																								pos: position{line: 317, col: 28, offset: 9677},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 318, col: 29, offset: 9740},
+																									pos:        position{line: 317, col: 29, offset: 9678},
 																									val:        "[_-\\pL\\pN]",
 																									chars:      []rune{'_', '-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14884,33 +14840,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 658, col: 56, offset: 20891},
+																				pos:   position{line: 657, col: 56, offset: 20829},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 658, col: 62, offset: 20897},
+																					pos: position{line: 657, col: 62, offset: 20835},
 																					expr: &actionExpr{
-																						pos: position{line: 666, col: 17, offset: 21192},
+																						pos: position{line: 665, col: 17, offset: 21130},
 																						run: (*parser).callonUnquotedAttributeValue49,
 																						expr: &seqExpr{
-																							pos: position{line: 666, col: 17, offset: 21192},
+																							pos: position{line: 665, col: 17, offset: 21130},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 666, col: 17, offset: 21192},
+																									pos:        position{line: 665, col: 17, offset: 21130},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 666, col: 21, offset: 21196},
+																									pos:   position{line: 665, col: 21, offset: 21134},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 666, col: 28, offset: 21203},
+																										pos: position{line: 665, col: 28, offset: 21141},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 666, col: 28, offset: 21203},
+																												pos: position{line: 665, col: 28, offset: 21141},
 																												run: (*parser).callonUnquotedAttributeValue54,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 666, col: 28, offset: 21203},
+																													pos:        position{line: 665, col: 28, offset: 21141},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -14918,12 +14874,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 668, col: 9, offset: 21257},
+																												pos: position{line: 667, col: 9, offset: 21195},
 																												run: (*parser).callonUnquotedAttributeValue56,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 668, col: 9, offset: 21257},
+																													pos: position{line: 667, col: 9, offset: 21195},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 668, col: 9, offset: 21257},
+																														pos:        position{line: 667, col: 9, offset: 21195},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -14940,7 +14896,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 658, col: 78, offset: 20913},
+																				pos:        position{line: 657, col: 78, offset: 20851},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -14949,28 +14905,28 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 662, col: 25, offset: 21031},
+																	pos: position{line: 661, col: 25, offset: 20969},
 																	run: (*parser).callonUnquotedAttributeValue60,
 																	expr: &seqExpr{
-																		pos: position{line: 662, col: 25, offset: 21031},
+																		pos: position{line: 661, col: 25, offset: 20969},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 662, col: 25, offset: 21031},
+																				pos:        position{line: 661, col: 25, offset: 20969},
 																				val:        "{counter2:",
 																				ignoreCase: false,
 																				want:       "\"{counter2:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 662, col: 38, offset: 21044},
+																				pos:   position{line: 661, col: 38, offset: 20982},
 																				label: "name",
 																				expr: &actionExpr{
-																					pos: position{line: 318, col: 18, offset: 9729},
+																					pos: position{line: 317, col: 18, offset: 9667},
 																					run: (*parser).callonUnquotedAttributeValue64,
 																					expr: &seqExpr{
-																						pos: position{line: 318, col: 18, offset: 9729},
+																						pos: position{line: 317, col: 18, offset: 9667},
 																						exprs: []interface{}{
 																							&charClassMatcher{
-																								pos:        position{line: 318, col: 18, offset: 9729},
+																								pos:        position{line: 317, col: 18, offset: 9667},
 																								val:        "[_\\pL\\pN]",
 																								chars:      []rune{'_'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14978,9 +14934,9 @@ var g = &grammar{
 																								inverted:   false,
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 318, col: 28, offset: 9739},
+																								pos: position{line: 317, col: 28, offset: 9677},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 318, col: 29, offset: 9740},
+																									pos:        position{line: 317, col: 29, offset: 9678},
 																									val:        "[_-\\pL\\pN]",
 																									chars:      []rune{'_', '-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -14993,33 +14949,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 662, col: 57, offset: 21063},
+																				pos:   position{line: 661, col: 57, offset: 21001},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 662, col: 63, offset: 21069},
+																					pos: position{line: 661, col: 63, offset: 21007},
 																					expr: &actionExpr{
-																						pos: position{line: 666, col: 17, offset: 21192},
+																						pos: position{line: 665, col: 17, offset: 21130},
 																						run: (*parser).callonUnquotedAttributeValue71,
 																						expr: &seqExpr{
-																							pos: position{line: 666, col: 17, offset: 21192},
+																							pos: position{line: 665, col: 17, offset: 21130},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 666, col: 17, offset: 21192},
+																									pos:        position{line: 665, col: 17, offset: 21130},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 666, col: 21, offset: 21196},
+																									pos:   position{line: 665, col: 21, offset: 21134},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 666, col: 28, offset: 21203},
+																										pos: position{line: 665, col: 28, offset: 21141},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 666, col: 28, offset: 21203},
+																												pos: position{line: 665, col: 28, offset: 21141},
 																												run: (*parser).callonUnquotedAttributeValue76,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 666, col: 28, offset: 21203},
+																													pos:        position{line: 665, col: 28, offset: 21141},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -15027,12 +14983,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 668, col: 9, offset: 21257},
+																												pos: position{line: 667, col: 9, offset: 21195},
 																												run: (*parser).callonUnquotedAttributeValue78,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 668, col: 9, offset: 21257},
+																													pos: position{line: 667, col: 9, offset: 21195},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 668, col: 9, offset: 21257},
+																														pos:        position{line: 667, col: 9, offset: 21195},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -15049,7 +15005,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 662, col: 79, offset: 21085},
+																				pos:        position{line: 661, col: 79, offset: 21023},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -15064,16 +15020,16 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 622, col: 32, offset: 19593},
+											pos:        position{line: 621, col: 32, offset: 19531},
 											val:        "{",
 											ignoreCase: false,
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2873, col: 10, offset: 90962},
+											pos: position{line: 2872, col: 10, offset: 90900},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2873, col: 10, offset: 90962},
+												pos:        position{line: 2872, col: 10, offset: 90900},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -15081,12 +15037,12 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 624, col: 12, offset: 19678},
+											pos: position{line: 623, col: 12, offset: 19616},
 											run: (*parser).callonUnquotedAttributeValue85,
 											expr: &oneOrMoreExpr{
-												pos: position{line: 624, col: 12, offset: 19678},
+												pos: position{line: 623, col: 12, offset: 19616},
 												expr: &charClassMatcher{
-													pos:        position{line: 624, col: 12, offset: 19678},
+													pos:        position{line: 623, col: 12, offset: 19616},
 													val:        "[^=,]{ ]",
 													chars:      []rune{'=', ',', ']', '{', ' '},
 													ignoreCase: false,
@@ -15104,32 +15060,32 @@ var g = &grammar{
 		},
 		{
 			name: "CrossReference",
-			pos:  position{line: 684, col: 1, offset: 21819},
+			pos:  position{line: 683, col: 1, offset: 21757},
 			expr: &choiceExpr{
-				pos: position{line: 684, col: 19, offset: 21837},
+				pos: position{line: 683, col: 19, offset: 21775},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 686, col: 27, offset: 21913},
+						pos: position{line: 685, col: 27, offset: 21851},
 						run: (*parser).callonCrossReference2,
 						expr: &seqExpr{
-							pos: position{line: 686, col: 27, offset: 21913},
+							pos: position{line: 685, col: 27, offset: 21851},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 686, col: 27, offset: 21913},
+									pos:        position{line: 685, col: 27, offset: 21851},
 									val:        "<<",
 									ignoreCase: false,
 									want:       "\"<<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 686, col: 32, offset: 21918},
+									pos:   position{line: 685, col: 32, offset: 21856},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2858, col: 7, offset: 90614},
+										pos: position{line: 2857, col: 7, offset: 90552},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2858, col: 7, offset: 90614},
+											pos: position{line: 2857, col: 7, offset: 90552},
 											expr: &charClassMatcher{
-												pos:        position{line: 2858, col: 7, offset: 90614},
+												pos:        position{line: 2857, col: 7, offset: 90552},
 												val:        "[^[]<>,\\r\\n]",
 												chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 												ignoreCase: false,
@@ -15139,12 +15095,12 @@ var g = &grammar{
 									},
 								},
 								&zeroOrMoreExpr{
-									pos: position{line: 686, col: 40, offset: 21926},
+									pos: position{line: 685, col: 40, offset: 21864},
 									expr: &actionExpr{
-										pos: position{line: 2873, col: 10, offset: 90962},
+										pos: position{line: 2872, col: 10, offset: 90900},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2873, col: 10, offset: 90962},
+											pos:        position{line: 2872, col: 10, offset: 90900},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15153,18 +15109,18 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 686, col: 47, offset: 21933},
+									pos:        position{line: 685, col: 47, offset: 21871},
 									val:        ",",
 									ignoreCase: false,
 									want:       "\",\"",
 								},
 								&zeroOrMoreExpr{
-									pos: position{line: 686, col: 51, offset: 21937},
+									pos: position{line: 685, col: 51, offset: 21875},
 									expr: &actionExpr{
-										pos: position{line: 2873, col: 10, offset: 90962},
+										pos: position{line: 2872, col: 10, offset: 90900},
 										run: (*parser).callonCrossReference14,
 										expr: &charClassMatcher{
-											pos:        position{line: 2873, col: 10, offset: 90962},
+											pos:        position{line: 2872, col: 10, offset: 90900},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15173,20 +15129,20 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 686, col: 58, offset: 21944},
+									pos:   position{line: 685, col: 58, offset: 21882},
 									label: "label",
 									expr: &oneOrMoreExpr{
-										pos: position{line: 696, col: 24, offset: 22345},
+										pos: position{line: 695, col: 24, offset: 22283},
 										expr: &choiceExpr{
-											pos: position{line: 697, col: 5, offset: 22351},
+											pos: position{line: 696, col: 5, offset: 22289},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 697, col: 6, offset: 22352},
+													pos: position{line: 696, col: 6, offset: 22290},
 													run: (*parser).callonCrossReference19,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 697, col: 6, offset: 22352},
+														pos: position{line: 696, col: 6, offset: 22290},
 														expr: &charClassMatcher{
-															pos:        position{line: 697, col: 6, offset: 22352},
+															pos:        position{line: 696, col: 6, offset: 22290},
 															val:        "[^\\r\\n{<>]",
 															chars:      []rune{'\r', '\n', '{', '<', '>'},
 															ignoreCase: false,
@@ -15195,28 +15151,28 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 645, col: 5, offset: 20388},
+													pos: position{line: 644, col: 5, offset: 20326},
 													run: (*parser).callonCrossReference22,
 													expr: &seqExpr{
-														pos: position{line: 645, col: 5, offset: 20388},
+														pos: position{line: 644, col: 5, offset: 20326},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 645, col: 5, offset: 20388},
+																pos:        position{line: 644, col: 5, offset: 20326},
 																val:        "\\{",
 																ignoreCase: false,
 																want:       "\"\\\\{\"",
 															},
 															&labeledExpr{
-																pos:   position{line: 645, col: 13, offset: 20396},
+																pos:   position{line: 644, col: 13, offset: 20334},
 																label: "name",
 																expr: &actionExpr{
-																	pos: position{line: 318, col: 18, offset: 9729},
+																	pos: position{line: 317, col: 18, offset: 9667},
 																	run: (*parser).callonCrossReference26,
 																	expr: &seqExpr{
-																		pos: position{line: 318, col: 18, offset: 9729},
+																		pos: position{line: 317, col: 18, offset: 9667},
 																		exprs: []interface{}{
 																			&charClassMatcher{
-																				pos:        position{line: 318, col: 18, offset: 9729},
+																				pos:        position{line: 317, col: 18, offset: 9667},
 																				val:        "[_\\pL\\pN]",
 																				chars:      []rune{'_'},
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15224,9 +15180,9 @@ var g = &grammar{
 																				inverted:   false,
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 318, col: 28, offset: 9739},
+																				pos: position{line: 317, col: 28, offset: 9677},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 318, col: 29, offset: 9740},
+																					pos:        position{line: 317, col: 29, offset: 9678},
 																					val:        "[_-\\pL\\pN]",
 																					chars:      []rune{'_', '-'},
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15239,7 +15195,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 645, col: 32, offset: 20415},
+																pos:        position{line: 644, col: 32, offset: 20353},
 																val:        "}",
 																ignoreCase: false,
 																want:       "\"}\"",
@@ -15248,28 +15204,28 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 652, col: 5, offset: 20656},
+													pos: position{line: 651, col: 5, offset: 20594},
 													run: (*parser).callonCrossReference32,
 													expr: &seqExpr{
-														pos: position{line: 652, col: 5, offset: 20656},
+														pos: position{line: 651, col: 5, offset: 20594},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 652, col: 5, offset: 20656},
+																pos:        position{line: 651, col: 5, offset: 20594},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
 															},
 															&labeledExpr{
-																pos:   position{line: 652, col: 9, offset: 20660},
+																pos:   position{line: 651, col: 9, offset: 20598},
 																label: "name",
 																expr: &actionExpr{
-																	pos: position{line: 318, col: 18, offset: 9729},
+																	pos: position{line: 317, col: 18, offset: 9667},
 																	run: (*parser).callonCrossReference36,
 																	expr: &seqExpr{
-																		pos: position{line: 318, col: 18, offset: 9729},
+																		pos: position{line: 317, col: 18, offset: 9667},
 																		exprs: []interface{}{
 																			&charClassMatcher{
-																				pos:        position{line: 318, col: 18, offset: 9729},
+																				pos:        position{line: 317, col: 18, offset: 9667},
 																				val:        "[_\\pL\\pN]",
 																				chars:      []rune{'_'},
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15277,9 +15233,9 @@ var g = &grammar{
 																				inverted:   false,
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 318, col: 28, offset: 9739},
+																				pos: position{line: 317, col: 28, offset: 9677},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 318, col: 29, offset: 9740},
+																					pos:        position{line: 317, col: 29, offset: 9678},
 																					val:        "[_-\\pL\\pN]",
 																					chars:      []rune{'_', '-'},
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15292,7 +15248,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 652, col: 28, offset: 20679},
+																pos:        position{line: 651, col: 28, offset: 20617},
 																val:        "}",
 																ignoreCase: false,
 																want:       "\"}\"",
@@ -15301,10 +15257,10 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 701, col: 8, offset: 22579},
+													pos: position{line: 700, col: 8, offset: 22517},
 													run: (*parser).callonCrossReference42,
 													expr: &litMatcher{
-														pos:        position{line: 701, col: 8, offset: 22579},
+														pos:        position{line: 700, col: 8, offset: 22517},
 														val:        "{",
 														ignoreCase: false,
 														want:       "\"{\"",
@@ -15315,7 +15271,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 686, col: 86, offset: 21972},
+									pos:        position{line: 685, col: 86, offset: 21910},
 									val:        ">>",
 									ignoreCase: false,
 									want:       "\">>\"",
@@ -15324,27 +15280,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 688, col: 9, offset: 22045},
+						pos: position{line: 687, col: 9, offset: 21983},
 						run: (*parser).callonCrossReference45,
 						expr: &seqExpr{
-							pos: position{line: 688, col: 9, offset: 22045},
+							pos: position{line: 687, col: 9, offset: 21983},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 688, col: 9, offset: 22045},
+									pos:        position{line: 687, col: 9, offset: 21983},
 									val:        "<<",
 									ignoreCase: false,
 									want:       "\"<<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 688, col: 14, offset: 22050},
+									pos:   position{line: 687, col: 14, offset: 21988},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2858, col: 7, offset: 90614},
+										pos: position{line: 2857, col: 7, offset: 90552},
 										run: (*parser).callonCrossReference49,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2858, col: 7, offset: 90614},
+											pos: position{line: 2857, col: 7, offset: 90552},
 											expr: &charClassMatcher{
-												pos:        position{line: 2858, col: 7, offset: 90614},
+												pos:        position{line: 2857, col: 7, offset: 90552},
 												val:        "[^[]<>,\\r\\n]",
 												chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 												ignoreCase: false,
@@ -15354,7 +15310,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 688, col: 22, offset: 22058},
+									pos:        position{line: 687, col: 22, offset: 21996},
 									val:        ">>",
 									ignoreCase: false,
 									want:       "\">>\"",
@@ -15363,7 +15319,7 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 684, col: 44, offset: 21862},
+						pos:  position{line: 683, col: 44, offset: 21800},
 						name: "ExternalCrossReference",
 					},
 				},
@@ -15371,58 +15327,58 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalCrossReference",
-			pos:  position{line: 692, col: 1, offset: 22129},
+			pos:  position{line: 691, col: 1, offset: 22067},
 			expr: &actionExpr{
-				pos: position{line: 692, col: 27, offset: 22155},
+				pos: position{line: 691, col: 27, offset: 22093},
 				run: (*parser).callonExternalCrossReference1,
 				expr: &seqExpr{
-					pos: position{line: 692, col: 27, offset: 22155},
+					pos: position{line: 691, col: 27, offset: 22093},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 692, col: 27, offset: 22155},
+							pos:        position{line: 691, col: 27, offset: 22093},
 							val:        "xref:",
 							ignoreCase: false,
 							want:       "\"xref:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 692, col: 35, offset: 22163},
+							pos:   position{line: 691, col: 35, offset: 22101},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2827, col: 17, offset: 89625},
+								pos: position{line: 2826, col: 17, offset: 89563},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2827, col: 17, offset: 89625},
+									pos:   position{line: 2826, col: 17, offset: 89563},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2844, col: 5, offset: 90079},
+										pos: position{line: 2843, col: 5, offset: 90017},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2844, col: 5, offset: 90079},
+											pos:   position{line: 2843, col: 5, offset: 90017},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2844, col: 14, offset: 90088},
+												pos: position{line: 2843, col: 14, offset: 90026},
 												expr: &choiceExpr{
-													pos: position{line: 2845, col: 9, offset: 90098},
+													pos: position{line: 2844, col: 9, offset: 90036},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2845, col: 9, offset: 90098},
+															pos: position{line: 2844, col: 9, offset: 90036},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2845, col: 9, offset: 90098},
+																pos: position{line: 2844, col: 9, offset: 90036},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2845, col: 9, offset: 90098},
+																		pos: position{line: 2844, col: 9, offset: 90036},
 																		expr: &litMatcher{
-																			pos:        position{line: 2845, col: 10, offset: 90099},
+																			pos:        position{line: 2844, col: 10, offset: 90037},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2846, col: 9, offset: 90127},
+																		pos: position{line: 2845, col: 9, offset: 90065},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2846, col: 10, offset: 90128},
+																			pos:        position{line: 2845, col: 10, offset: 90066},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -15433,27 +15389,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2849, col: 11, offset: 90340},
+															pos: position{line: 2848, col: 11, offset: 90278},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2849, col: 11, offset: 90340},
+																	pos:        position{line: 2848, col: 11, offset: 90278},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2849, col: 19, offset: 90348},
+																	pos: position{line: 2848, col: 19, offset: 90286},
 																	expr: &seqExpr{
-																		pos: position{line: 2849, col: 21, offset: 90350},
+																		pos: position{line: 2848, col: 21, offset: 90288},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2849, col: 21, offset: 90350},
+																				pos: position{line: 2848, col: 21, offset: 90288},
 																				expr: &actionExpr{
-																					pos: position{line: 2873, col: 10, offset: 90962},
+																					pos: position{line: 2872, col: 10, offset: 90900},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2873, col: 10, offset: 90962},
+																						pos:        position{line: 2872, col: 10, offset: 90900},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -15462,11 +15418,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2849, col: 28, offset: 90357},
+																				pos: position{line: 2848, col: 28, offset: 90295},
 																				expr: &notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91310},
+																					pos: position{line: 2891, col: 8, offset: 91248},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91311,
+																						line: 2891, col: 9, offset: 91249,
 																					},
 																				},
 																			},
@@ -15476,44 +15432,44 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 636, col: 5, offset: 20178},
+															pos: position{line: 635, col: 5, offset: 20116},
 															run: (*parser).callonExternalCrossReference27,
 															expr: &seqExpr{
-																pos: position{line: 636, col: 5, offset: 20178},
+																pos: position{line: 635, col: 5, offset: 20116},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 636, col: 5, offset: 20178},
+																		pos: position{line: 635, col: 5, offset: 20116},
 																		run: (*parser).callonExternalCrossReference29,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 639, col: 5, offset: 20250},
+																		pos:   position{line: 638, col: 5, offset: 20188},
 																		label: "element",
 																		expr: &choiceExpr{
-																			pos: position{line: 639, col: 14, offset: 20259},
+																			pos: position{line: 638, col: 14, offset: 20197},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 645, col: 5, offset: 20388},
+																					pos: position{line: 644, col: 5, offset: 20326},
 																					run: (*parser).callonExternalCrossReference32,
 																					expr: &seqExpr{
-																						pos: position{line: 645, col: 5, offset: 20388},
+																						pos: position{line: 644, col: 5, offset: 20326},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 645, col: 5, offset: 20388},
+																								pos:        position{line: 644, col: 5, offset: 20326},
 																								val:        "\\{",
 																								ignoreCase: false,
 																								want:       "\"\\\\{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 645, col: 13, offset: 20396},
+																								pos:   position{line: 644, col: 13, offset: 20334},
 																								label: "name",
 																								expr: &actionExpr{
-																									pos: position{line: 318, col: 18, offset: 9729},
+																									pos: position{line: 317, col: 18, offset: 9667},
 																									run: (*parser).callonExternalCrossReference36,
 																									expr: &seqExpr{
-																										pos: position{line: 318, col: 18, offset: 9729},
+																										pos: position{line: 317, col: 18, offset: 9667},
 																										exprs: []interface{}{
 																											&charClassMatcher{
-																												pos:        position{line: 318, col: 18, offset: 9729},
+																												pos:        position{line: 317, col: 18, offset: 9667},
 																												val:        "[_\\pL\\pN]",
 																												chars:      []rune{'_'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15521,9 +15477,9 @@ var g = &grammar{
 																												inverted:   false,
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 318, col: 28, offset: 9739},
+																												pos: position{line: 317, col: 28, offset: 9677},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 318, col: 29, offset: 9740},
+																													pos:        position{line: 317, col: 29, offset: 9678},
 																													val:        "[_-\\pL\\pN]",
 																													chars:      []rune{'_', '-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15536,7 +15492,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 645, col: 32, offset: 20415},
+																								pos:        position{line: 644, col: 32, offset: 20353},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -15545,28 +15501,28 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 652, col: 5, offset: 20656},
+																					pos: position{line: 651, col: 5, offset: 20594},
 																					run: (*parser).callonExternalCrossReference42,
 																					expr: &seqExpr{
-																						pos: position{line: 652, col: 5, offset: 20656},
+																						pos: position{line: 651, col: 5, offset: 20594},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 652, col: 5, offset: 20656},
+																								pos:        position{line: 651, col: 5, offset: 20594},
 																								val:        "{",
 																								ignoreCase: false,
 																								want:       "\"{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 652, col: 9, offset: 20660},
+																								pos:   position{line: 651, col: 9, offset: 20598},
 																								label: "name",
 																								expr: &actionExpr{
-																									pos: position{line: 318, col: 18, offset: 9729},
+																									pos: position{line: 317, col: 18, offset: 9667},
 																									run: (*parser).callonExternalCrossReference46,
 																									expr: &seqExpr{
-																										pos: position{line: 318, col: 18, offset: 9729},
+																										pos: position{line: 317, col: 18, offset: 9667},
 																										exprs: []interface{}{
 																											&charClassMatcher{
-																												pos:        position{line: 318, col: 18, offset: 9729},
+																												pos:        position{line: 317, col: 18, offset: 9667},
 																												val:        "[_\\pL\\pN]",
 																												chars:      []rune{'_'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15574,9 +15530,9 @@ var g = &grammar{
 																												inverted:   false,
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 318, col: 28, offset: 9739},
+																												pos: position{line: 317, col: 28, offset: 9677},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 318, col: 29, offset: 9740},
+																													pos:        position{line: 317, col: 29, offset: 9678},
 																													val:        "[_-\\pL\\pN]",
 																													chars:      []rune{'_', '-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15589,7 +15545,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 652, col: 28, offset: 20679},
+																								pos:        position{line: 651, col: 28, offset: 20617},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -15598,28 +15554,28 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 658, col: 25, offset: 20860},
+																					pos: position{line: 657, col: 25, offset: 20798},
 																					run: (*parser).callonExternalCrossReference52,
 																					expr: &seqExpr{
-																						pos: position{line: 658, col: 25, offset: 20860},
+																						pos: position{line: 657, col: 25, offset: 20798},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 658, col: 25, offset: 20860},
+																								pos:        position{line: 657, col: 25, offset: 20798},
 																								val:        "{counter:",
 																								ignoreCase: false,
 																								want:       "\"{counter:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 658, col: 37, offset: 20872},
+																								pos:   position{line: 657, col: 37, offset: 20810},
 																								label: "name",
 																								expr: &actionExpr{
-																									pos: position{line: 318, col: 18, offset: 9729},
+																									pos: position{line: 317, col: 18, offset: 9667},
 																									run: (*parser).callonExternalCrossReference56,
 																									expr: &seqExpr{
-																										pos: position{line: 318, col: 18, offset: 9729},
+																										pos: position{line: 317, col: 18, offset: 9667},
 																										exprs: []interface{}{
 																											&charClassMatcher{
-																												pos:        position{line: 318, col: 18, offset: 9729},
+																												pos:        position{line: 317, col: 18, offset: 9667},
 																												val:        "[_\\pL\\pN]",
 																												chars:      []rune{'_'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15627,9 +15583,9 @@ var g = &grammar{
 																												inverted:   false,
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 318, col: 28, offset: 9739},
+																												pos: position{line: 317, col: 28, offset: 9677},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 318, col: 29, offset: 9740},
+																													pos:        position{line: 317, col: 29, offset: 9678},
 																													val:        "[_-\\pL\\pN]",
 																													chars:      []rune{'_', '-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15642,33 +15598,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 658, col: 56, offset: 20891},
+																								pos:   position{line: 657, col: 56, offset: 20829},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 658, col: 62, offset: 20897},
+																									pos: position{line: 657, col: 62, offset: 20835},
 																									expr: &actionExpr{
-																										pos: position{line: 666, col: 17, offset: 21192},
+																										pos: position{line: 665, col: 17, offset: 21130},
 																										run: (*parser).callonExternalCrossReference63,
 																										expr: &seqExpr{
-																											pos: position{line: 666, col: 17, offset: 21192},
+																											pos: position{line: 665, col: 17, offset: 21130},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 666, col: 17, offset: 21192},
+																													pos:        position{line: 665, col: 17, offset: 21130},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 666, col: 21, offset: 21196},
+																													pos:   position{line: 665, col: 21, offset: 21134},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 666, col: 28, offset: 21203},
+																														pos: position{line: 665, col: 28, offset: 21141},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 666, col: 28, offset: 21203},
+																																pos: position{line: 665, col: 28, offset: 21141},
 																																run: (*parser).callonExternalCrossReference68,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 666, col: 28, offset: 21203},
+																																	pos:        position{line: 665, col: 28, offset: 21141},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -15676,12 +15632,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 668, col: 9, offset: 21257},
+																																pos: position{line: 667, col: 9, offset: 21195},
 																																run: (*parser).callonExternalCrossReference70,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 668, col: 9, offset: 21257},
+																																	pos: position{line: 667, col: 9, offset: 21195},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 668, col: 9, offset: 21257},
+																																		pos:        position{line: 667, col: 9, offset: 21195},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -15698,7 +15654,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 658, col: 78, offset: 20913},
+																								pos:        position{line: 657, col: 78, offset: 20851},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -15707,28 +15663,28 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 662, col: 25, offset: 21031},
+																					pos: position{line: 661, col: 25, offset: 20969},
 																					run: (*parser).callonExternalCrossReference74,
 																					expr: &seqExpr{
-																						pos: position{line: 662, col: 25, offset: 21031},
+																						pos: position{line: 661, col: 25, offset: 20969},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 662, col: 25, offset: 21031},
+																								pos:        position{line: 661, col: 25, offset: 20969},
 																								val:        "{counter2:",
 																								ignoreCase: false,
 																								want:       "\"{counter2:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 662, col: 38, offset: 21044},
+																								pos:   position{line: 661, col: 38, offset: 20982},
 																								label: "name",
 																								expr: &actionExpr{
-																									pos: position{line: 318, col: 18, offset: 9729},
+																									pos: position{line: 317, col: 18, offset: 9667},
 																									run: (*parser).callonExternalCrossReference78,
 																									expr: &seqExpr{
-																										pos: position{line: 318, col: 18, offset: 9729},
+																										pos: position{line: 317, col: 18, offset: 9667},
 																										exprs: []interface{}{
 																											&charClassMatcher{
-																												pos:        position{line: 318, col: 18, offset: 9729},
+																												pos:        position{line: 317, col: 18, offset: 9667},
 																												val:        "[_\\pL\\pN]",
 																												chars:      []rune{'_'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15736,9 +15692,9 @@ var g = &grammar{
 																												inverted:   false,
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 318, col: 28, offset: 9739},
+																												pos: position{line: 317, col: 28, offset: 9677},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 318, col: 29, offset: 9740},
+																													pos:        position{line: 317, col: 29, offset: 9678},
 																													val:        "[_-\\pL\\pN]",
 																													chars:      []rune{'_', '-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -15751,33 +15707,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 662, col: 57, offset: 21063},
+																								pos:   position{line: 661, col: 57, offset: 21001},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 662, col: 63, offset: 21069},
+																									pos: position{line: 661, col: 63, offset: 21007},
 																									expr: &actionExpr{
-																										pos: position{line: 666, col: 17, offset: 21192},
+																										pos: position{line: 665, col: 17, offset: 21130},
 																										run: (*parser).callonExternalCrossReference85,
 																										expr: &seqExpr{
-																											pos: position{line: 666, col: 17, offset: 21192},
+																											pos: position{line: 665, col: 17, offset: 21130},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 666, col: 17, offset: 21192},
+																													pos:        position{line: 665, col: 17, offset: 21130},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 666, col: 21, offset: 21196},
+																													pos:   position{line: 665, col: 21, offset: 21134},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 666, col: 28, offset: 21203},
+																														pos: position{line: 665, col: 28, offset: 21141},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 666, col: 28, offset: 21203},
+																																pos: position{line: 665, col: 28, offset: 21141},
 																																run: (*parser).callonExternalCrossReference90,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 666, col: 28, offset: 21203},
+																																	pos:        position{line: 665, col: 28, offset: 21141},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -15785,12 +15741,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 668, col: 9, offset: 21257},
+																																pos: position{line: 667, col: 9, offset: 21195},
 																																run: (*parser).callonExternalCrossReference92,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 668, col: 9, offset: 21257},
+																																	pos: position{line: 667, col: 9, offset: 21195},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 668, col: 9, offset: 21257},
+																																		pos:        position{line: 667, col: 9, offset: 21195},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -15807,7 +15763,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 662, col: 79, offset: 21085},
+																								pos:        position{line: 661, col: 79, offset: 21023},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -15822,27 +15778,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1198, col: 23, offset: 37046},
+															pos: position{line: 1197, col: 23, offset: 36984},
 															run: (*parser).callonExternalCrossReference96,
 															expr: &seqExpr{
-																pos: position{line: 1198, col: 23, offset: 37046},
+																pos: position{line: 1197, col: 23, offset: 36984},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1196, col: 32, offset: 37014},
+																		pos:        position{line: 1195, col: 32, offset: 36952},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1198, col: 51, offset: 37074},
+																		pos:   position{line: 1197, col: 51, offset: 37012},
 																		label: "ref",
 																		expr: &actionExpr{
-																			pos: position{line: 1198, col: 56, offset: 37079},
+																			pos: position{line: 1197, col: 56, offset: 37017},
 																			run: (*parser).callonExternalCrossReference100,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1198, col: 56, offset: 37079},
+																				pos: position{line: 1197, col: 56, offset: 37017},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1198, col: 56, offset: 37079},
+																					pos:        position{line: 1197, col: 56, offset: 37017},
 																					val:        "[0-9]",
 																					ranges:     []rune{'0', '9'},
 																					ignoreCase: false,
@@ -15852,7 +15808,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1196, col: 32, offset: 37014},
+																		pos:        position{line: 1195, col: 32, offset: 36952},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
@@ -15861,10 +15817,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2852, col: 11, offset: 90477},
+															pos: position{line: 2851, col: 11, offset: 90415},
 															run: (*parser).callonExternalCrossReference104,
 															expr: &litMatcher{
-																pos:        position{line: 2852, col: 11, offset: 90477},
+																pos:        position{line: 2851, col: 11, offset: 90415},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -15879,10 +15835,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 692, col: 54, offset: 22182},
+							pos:   position{line: 691, col: 54, offset: 22120},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 692, col: 66, offset: 22194},
+								pos:  position{line: 691, col: 66, offset: 22132},
 								name: "InlineAttributes",
 							},
 						},
@@ -15892,29 +15848,29 @@ var g = &grammar{
 		},
 		{
 			name: "MarkdownQuoteAttribution",
-			pos:  position{line: 988, col: 1, offset: 30841},
+			pos:  position{line: 987, col: 1, offset: 30779},
 			expr: &actionExpr{
-				pos: position{line: 989, col: 5, offset: 30874},
+				pos: position{line: 988, col: 5, offset: 30812},
 				run: (*parser).callonMarkdownQuoteAttribution1,
 				expr: &seqExpr{
-					pos: position{line: 989, col: 5, offset: 30874},
+					pos: position{line: 988, col: 5, offset: 30812},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 989, col: 5, offset: 30874},
+							pos:        position{line: 988, col: 5, offset: 30812},
 							val:        "-- ",
 							ignoreCase: false,
 							want:       "\"-- \"",
 						},
 						&labeledExpr{
-							pos:   position{line: 989, col: 11, offset: 30880},
+							pos:   position{line: 988, col: 11, offset: 30818},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2823, col: 14, offset: 89555},
+								pos: position{line: 2822, col: 14, offset: 89493},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2823, col: 14, offset: 89555},
+									pos: position{line: 2822, col: 14, offset: 89493},
 									expr: &charClassMatcher{
-										pos:        position{line: 2823, col: 14, offset: 89555},
+										pos:        position{line: 2822, col: 14, offset: 89493},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -15924,28 +15880,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2895, col: 8, offset: 91360},
+							pos: position{line: 2894, col: 8, offset: 91298},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2882, col: 12, offset: 91133},
+									pos: position{line: 2881, col: 12, offset: 91071},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2882, col: 13, offset: 91134},
+										pos: position{line: 2881, col: 13, offset: 91072},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2882, col: 13, offset: 91134},
+												pos:        position{line: 2881, col: 13, offset: 91072},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 20, offset: 91141},
+												pos:        position{line: 2881, col: 20, offset: 91079},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 29, offset: 91150},
+												pos:        position{line: 2881, col: 29, offset: 91088},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -15954,9 +15910,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2892, col: 8, offset: 91310},
+									pos: position{line: 2891, col: 8, offset: 91248},
 									expr: &anyMatcher{
-										line: 2892, col: 9, offset: 91311,
+										line: 2891, col: 9, offset: 91249,
 									},
 								},
 							},
@@ -15967,53 +15923,53 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentHeader",
-			pos:  position{line: 1100, col: 1, offset: 33797},
+			pos:  position{line: 1099, col: 1, offset: 33735},
 			expr: &actionExpr{
-				pos: position{line: 1101, col: 5, offset: 33820},
+				pos: position{line: 1100, col: 5, offset: 33758},
 				run: (*parser).callonDocumentHeader1,
 				expr: &seqExpr{
-					pos: position{line: 1101, col: 5, offset: 33820},
+					pos: position{line: 1100, col: 5, offset: 33758},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1101, col: 5, offset: 33820},
+							pos: position{line: 1100, col: 5, offset: 33758},
 							run: (*parser).callonDocumentHeader3,
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1104, col: 5, offset: 33881},
+							pos: position{line: 1103, col: 5, offset: 33819},
 							expr: &choiceExpr{
-								pos: position{line: 1104, col: 6, offset: 33882},
+								pos: position{line: 1103, col: 6, offset: 33820},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2480, col: 22, offset: 79848},
+										pos: position{line: 2479, col: 22, offset: 79786},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2480, col: 22, offset: 79848},
+											pos: position{line: 2479, col: 22, offset: 79786},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2485, col: 31, offset: 80069},
+													pos:        position{line: 2484, col: 31, offset: 80007},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2485, col: 36, offset: 80074},
+													pos: position{line: 2484, col: 36, offset: 80012},
 													expr: &litMatcher{
-														pos:        position{line: 2485, col: 37, offset: 80075},
+														pos:        position{line: 2484, col: 37, offset: 80013},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2480, col: 49, offset: 79875},
+													pos:   position{line: 2479, col: 49, offset: 79813},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2819, col: 13, offset: 89488},
+														pos: position{line: 2818, col: 13, offset: 89426},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2819, col: 13, offset: 89488},
+															pos: position{line: 2818, col: 13, offset: 89426},
 															expr: &charClassMatcher{
-																pos:        position{line: 2819, col: 13, offset: 89488},
+																pos:        position{line: 2818, col: 13, offset: 89426},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16023,28 +15979,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2895, col: 8, offset: 91360},
+													pos: position{line: 2894, col: 8, offset: 91298},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2882, col: 12, offset: 91133},
+															pos: position{line: 2881, col: 12, offset: 91071},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2882, col: 13, offset: 91134},
+																pos: position{line: 2881, col: 13, offset: 91072},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 13, offset: 91134},
+																		pos:        position{line: 2881, col: 13, offset: 91072},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 20, offset: 91141},
+																		pos:        position{line: 2881, col: 20, offset: 91079},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 29, offset: 91150},
+																		pos:        position{line: 2881, col: 29, offset: 91088},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16053,9 +16009,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2892, col: 8, offset: 91310},
+															pos: position{line: 2891, col: 8, offset: 91248},
 															expr: &anyMatcher{
-																line: 2892, col: 9, offset: 91311,
+																line: 2891, col: 9, offset: 91249,
 															},
 														},
 													},
@@ -16064,36 +16020,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 820, col: 5, offset: 26398},
+										pos: position{line: 819, col: 5, offset: 26336},
 										run: (*parser).callonDocumentHeader23,
 										expr: &seqExpr{
-											pos: position{line: 820, col: 5, offset: 26398},
+											pos: position{line: 819, col: 5, offset: 26336},
 											exprs: []interface{}{
 												&actionExpr{
-													pos: position{line: 740, col: 5, offset: 23653},
+													pos: position{line: 739, col: 5, offset: 23591},
 													run: (*parser).callonDocumentHeader25,
 													expr: &seqExpr{
-														pos: position{line: 740, col: 5, offset: 23653},
+														pos: position{line: 739, col: 5, offset: 23591},
 														exprs: []interface{}{
 															&labeledExpr{
-																pos:   position{line: 740, col: 5, offset: 23653},
+																pos:   position{line: 739, col: 5, offset: 23591},
 																label: "delimiter",
 																expr: &actionExpr{
-																	pos: position{line: 740, col: 16, offset: 23664},
+																	pos: position{line: 739, col: 16, offset: 23602},
 																	run: (*parser).callonDocumentHeader28,
 																	expr: &seqExpr{
-																		pos: position{line: 740, col: 16, offset: 23664},
+																		pos: position{line: 739, col: 16, offset: 23602},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 740, col: 16, offset: 23664},
+																				pos:        position{line: 739, col: 16, offset: 23602},
 																				val:        "////",
 																				ignoreCase: false,
 																				want:       "\"////\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 740, col: 23, offset: 23671},
+																				pos: position{line: 739, col: 23, offset: 23609},
 																				expr: &litMatcher{
-																					pos:        position{line: 740, col: 23, offset: 23671},
+																					pos:        position{line: 739, col: 23, offset: 23609},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -16104,12 +16060,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 742, col: 8, offset: 23755},
+																pos: position{line: 741, col: 8, offset: 23693},
 																expr: &actionExpr{
-																	pos: position{line: 2873, col: 10, offset: 90962},
+																	pos: position{line: 2872, col: 10, offset: 90900},
 																	run: (*parser).callonDocumentHeader34,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2873, col: 10, offset: 90962},
+																		pos:        position{line: 2872, col: 10, offset: 90900},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16118,28 +16074,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2895, col: 8, offset: 91360},
+																pos: position{line: 2894, col: 8, offset: 91298},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2882, col: 12, offset: 91133},
+																		pos: position{line: 2881, col: 12, offset: 91071},
 																		run: (*parser).callonDocumentHeader37,
 																		expr: &choiceExpr{
-																			pos: position{line: 2882, col: 13, offset: 91134},
+																			pos: position{line: 2881, col: 13, offset: 91072},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 13, offset: 91134},
+																					pos:        position{line: 2881, col: 13, offset: 91072},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 20, offset: 91141},
+																					pos:        position{line: 2881, col: 20, offset: 91079},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 29, offset: 91150},
+																					pos:        position{line: 2881, col: 29, offset: 91088},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -16148,9 +16104,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91310},
+																		pos: position{line: 2891, col: 8, offset: 91248},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91311,
+																			line: 2891, col: 9, offset: 91249,
 																		},
 																	},
 																},
@@ -16159,46 +16115,46 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 821, col: 5, offset: 26429},
+													pos:   position{line: 820, col: 5, offset: 26367},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 831, col: 5, offset: 26715},
+														pos: position{line: 830, col: 5, offset: 26653},
 														expr: &actionExpr{
-															pos: position{line: 831, col: 6, offset: 26716},
+															pos: position{line: 830, col: 6, offset: 26654},
 															run: (*parser).callonDocumentHeader46,
 															expr: &seqExpr{
-																pos: position{line: 831, col: 6, offset: 26716},
+																pos: position{line: 830, col: 6, offset: 26654},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 831, col: 6, offset: 26716},
+																		pos: position{line: 830, col: 6, offset: 26654},
 																		expr: &choiceExpr{
-																			pos: position{line: 828, col: 29, offset: 26658},
+																			pos: position{line: 827, col: 29, offset: 26596},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 740, col: 5, offset: 23653},
+																					pos: position{line: 739, col: 5, offset: 23591},
 																					run: (*parser).callonDocumentHeader50,
 																					expr: &seqExpr{
-																						pos: position{line: 740, col: 5, offset: 23653},
+																						pos: position{line: 739, col: 5, offset: 23591},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 740, col: 5, offset: 23653},
+																								pos:   position{line: 739, col: 5, offset: 23591},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 740, col: 16, offset: 23664},
+																									pos: position{line: 739, col: 16, offset: 23602},
 																									run: (*parser).callonDocumentHeader53,
 																									expr: &seqExpr{
-																										pos: position{line: 740, col: 16, offset: 23664},
+																										pos: position{line: 739, col: 16, offset: 23602},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 740, col: 16, offset: 23664},
+																												pos:        position{line: 739, col: 16, offset: 23602},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 740, col: 23, offset: 23671},
+																												pos: position{line: 739, col: 23, offset: 23609},
 																												expr: &litMatcher{
-																													pos:        position{line: 740, col: 23, offset: 23671},
+																													pos:        position{line: 739, col: 23, offset: 23609},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -16209,12 +16165,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 742, col: 8, offset: 23755},
+																								pos: position{line: 741, col: 8, offset: 23693},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90962},
+																									pos: position{line: 2872, col: 10, offset: 90900},
 																									run: (*parser).callonDocumentHeader59,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90962},
+																										pos:        position{line: 2872, col: 10, offset: 90900},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -16223,28 +16179,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91360},
+																								pos: position{line: 2894, col: 8, offset: 91298},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91133},
+																										pos: position{line: 2881, col: 12, offset: 91071},
 																										run: (*parser).callonDocumentHeader62,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91134},
+																											pos: position{line: 2881, col: 13, offset: 91072},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91134},
+																													pos:        position{line: 2881, col: 13, offset: 91072},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91141},
+																													pos:        position{line: 2881, col: 20, offset: 91079},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91150},
+																													pos:        position{line: 2881, col: 29, offset: 91088},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -16253,9 +16209,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91310},
+																										pos: position{line: 2891, col: 8, offset: 91248},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91311,
+																											line: 2891, col: 9, offset: 91249,
 																										},
 																									},
 																								},
@@ -16264,39 +16220,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91310},
+																					pos: position{line: 2891, col: 8, offset: 91248},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91311,
+																						line: 2891, col: 9, offset: 91249,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 832, col: 5, offset: 26746},
+																		pos:   position{line: 831, col: 5, offset: 26684},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26162},
+																			pos: position{line: 810, col: 5, offset: 26100},
 																			run: (*parser).callonDocumentHeader72,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26162},
+																				pos: position{line: 810, col: 5, offset: 26100},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2890, col: 11, offset: 91296},
+																						pos: position{line: 2889, col: 11, offset: 91234},
 																						expr: &anyMatcher{
-																							line: 2890, col: 13, offset: 91298,
+																							line: 2889, col: 13, offset: 91236,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26237},
+																						pos:   position{line: 811, col: 5, offset: 26175},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2819, col: 13, offset: 89488},
+																							pos: position{line: 2818, col: 13, offset: 89426},
 																							run: (*parser).callonDocumentHeader77,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2819, col: 13, offset: 89488},
+																								pos: position{line: 2818, col: 13, offset: 89426},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2819, col: 13, offset: 89488},
+																									pos:        position{line: 2818, col: 13, offset: 89426},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16306,28 +16262,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91360},
+																						pos: position{line: 2894, col: 8, offset: 91298},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 91133},
+																								pos: position{line: 2881, col: 12, offset: 91071},
 																								run: (*parser).callonDocumentHeader81,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 91134},
+																									pos: position{line: 2881, col: 13, offset: 91072},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 91134},
+																											pos:        position{line: 2881, col: 13, offset: 91072},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 91141},
+																											pos:        position{line: 2881, col: 20, offset: 91079},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 91150},
+																											pos:        position{line: 2881, col: 29, offset: 91088},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16336,9 +16292,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91310},
+																								pos: position{line: 2891, col: 8, offset: 91248},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91311,
+																									line: 2891, col: 9, offset: 91249,
 																								},
 																							},
 																						},
@@ -16353,35 +16309,35 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 822, col: 5, offset: 26463},
+													pos: position{line: 821, col: 5, offset: 26401},
 													expr: &choiceExpr{
-														pos: position{line: 828, col: 29, offset: 26658},
+														pos: position{line: 827, col: 29, offset: 26596},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 740, col: 5, offset: 23653},
+																pos: position{line: 739, col: 5, offset: 23591},
 																run: (*parser).callonDocumentHeader90,
 																expr: &seqExpr{
-																	pos: position{line: 740, col: 5, offset: 23653},
+																	pos: position{line: 739, col: 5, offset: 23591},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 740, col: 5, offset: 23653},
+																			pos:   position{line: 739, col: 5, offset: 23591},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 740, col: 16, offset: 23664},
+																				pos: position{line: 739, col: 16, offset: 23602},
 																				run: (*parser).callonDocumentHeader93,
 																				expr: &seqExpr{
-																					pos: position{line: 740, col: 16, offset: 23664},
+																					pos: position{line: 739, col: 16, offset: 23602},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 740, col: 16, offset: 23664},
+																							pos:        position{line: 739, col: 16, offset: 23602},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 740, col: 23, offset: 23671},
+																							pos: position{line: 739, col: 23, offset: 23609},
 																							expr: &litMatcher{
-																								pos:        position{line: 740, col: 23, offset: 23671},
+																								pos:        position{line: 739, col: 23, offset: 23609},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -16392,12 +16348,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 742, col: 8, offset: 23755},
+																			pos: position{line: 741, col: 8, offset: 23693},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90962},
+																				pos: position{line: 2872, col: 10, offset: 90900},
 																				run: (*parser).callonDocumentHeader99,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90962},
+																					pos:        position{line: 2872, col: 10, offset: 90900},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -16406,28 +16362,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91360},
+																			pos: position{line: 2894, col: 8, offset: 91298},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 91133},
+																					pos: position{line: 2881, col: 12, offset: 91071},
 																					run: (*parser).callonDocumentHeader102,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 91134},
+																						pos: position{line: 2881, col: 13, offset: 91072},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 91134},
+																								pos:        position{line: 2881, col: 13, offset: 91072},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 91141},
+																								pos:        position{line: 2881, col: 20, offset: 91079},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 91150},
+																								pos:        position{line: 2881, col: 29, offset: 91088},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -16436,9 +16392,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91310},
+																					pos: position{line: 2891, col: 8, offset: 91248},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91311,
+																						line: 2891, col: 9, offset: 91249,
 																					},
 																				},
 																			},
@@ -16447,9 +16403,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2892, col: 8, offset: 91310},
+																pos: position{line: 2891, col: 8, offset: 91248},
 																expr: &anyMatcher{
-																	line: 2892, col: 9, offset: 91311,
+																	line: 2891, col: 9, offset: 91249,
 																},
 															},
 														},
@@ -16462,49 +16418,49 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1105, col: 5, offset: 33978},
+							pos:   position{line: 1104, col: 5, offset: 33916},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1105, col: 12, offset: 33985},
+								pos:  position{line: 1104, col: 12, offset: 33923},
 								name: "DocumentTitle",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1106, col: 5, offset: 34004},
+							pos: position{line: 1105, col: 5, offset: 33942},
 							expr: &choiceExpr{
-								pos: position{line: 1106, col: 6, offset: 34005},
+								pos: position{line: 1105, col: 6, offset: 33943},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2480, col: 22, offset: 79848},
+										pos: position{line: 2479, col: 22, offset: 79786},
 										run: (*parser).callonDocumentHeader115,
 										expr: &seqExpr{
-											pos: position{line: 2480, col: 22, offset: 79848},
+											pos: position{line: 2479, col: 22, offset: 79786},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2485, col: 31, offset: 80069},
+													pos:        position{line: 2484, col: 31, offset: 80007},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2485, col: 36, offset: 80074},
+													pos: position{line: 2484, col: 36, offset: 80012},
 													expr: &litMatcher{
-														pos:        position{line: 2485, col: 37, offset: 80075},
+														pos:        position{line: 2484, col: 37, offset: 80013},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2480, col: 49, offset: 79875},
+													pos:   position{line: 2479, col: 49, offset: 79813},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2819, col: 13, offset: 89488},
+														pos: position{line: 2818, col: 13, offset: 89426},
 														run: (*parser).callonDocumentHeader121,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2819, col: 13, offset: 89488},
+															pos: position{line: 2818, col: 13, offset: 89426},
 															expr: &charClassMatcher{
-																pos:        position{line: 2819, col: 13, offset: 89488},
+																pos:        position{line: 2818, col: 13, offset: 89426},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16514,28 +16470,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2895, col: 8, offset: 91360},
+													pos: position{line: 2894, col: 8, offset: 91298},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2882, col: 12, offset: 91133},
+															pos: position{line: 2881, col: 12, offset: 91071},
 															run: (*parser).callonDocumentHeader125,
 															expr: &choiceExpr{
-																pos: position{line: 2882, col: 13, offset: 91134},
+																pos: position{line: 2881, col: 13, offset: 91072},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 13, offset: 91134},
+																		pos:        position{line: 2881, col: 13, offset: 91072},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 20, offset: 91141},
+																		pos:        position{line: 2881, col: 20, offset: 91079},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 29, offset: 91150},
+																		pos:        position{line: 2881, col: 29, offset: 91088},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16544,9 +16500,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2892, col: 8, offset: 91310},
+															pos: position{line: 2891, col: 8, offset: 91248},
 															expr: &anyMatcher{
-																line: 2892, col: 9, offset: 91311,
+																line: 2891, col: 9, offset: 91249,
 															},
 														},
 													},
@@ -16555,36 +16511,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 820, col: 5, offset: 26398},
+										pos: position{line: 819, col: 5, offset: 26336},
 										run: (*parser).callonDocumentHeader132,
 										expr: &seqExpr{
-											pos: position{line: 820, col: 5, offset: 26398},
+											pos: position{line: 819, col: 5, offset: 26336},
 											exprs: []interface{}{
 												&actionExpr{
-													pos: position{line: 740, col: 5, offset: 23653},
+													pos: position{line: 739, col: 5, offset: 23591},
 													run: (*parser).callonDocumentHeader134,
 													expr: &seqExpr{
-														pos: position{line: 740, col: 5, offset: 23653},
+														pos: position{line: 739, col: 5, offset: 23591},
 														exprs: []interface{}{
 															&labeledExpr{
-																pos:   position{line: 740, col: 5, offset: 23653},
+																pos:   position{line: 739, col: 5, offset: 23591},
 																label: "delimiter",
 																expr: &actionExpr{
-																	pos: position{line: 740, col: 16, offset: 23664},
+																	pos: position{line: 739, col: 16, offset: 23602},
 																	run: (*parser).callonDocumentHeader137,
 																	expr: &seqExpr{
-																		pos: position{line: 740, col: 16, offset: 23664},
+																		pos: position{line: 739, col: 16, offset: 23602},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 740, col: 16, offset: 23664},
+																				pos:        position{line: 739, col: 16, offset: 23602},
 																				val:        "////",
 																				ignoreCase: false,
 																				want:       "\"////\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 740, col: 23, offset: 23671},
+																				pos: position{line: 739, col: 23, offset: 23609},
 																				expr: &litMatcher{
-																					pos:        position{line: 740, col: 23, offset: 23671},
+																					pos:        position{line: 739, col: 23, offset: 23609},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -16595,12 +16551,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 742, col: 8, offset: 23755},
+																pos: position{line: 741, col: 8, offset: 23693},
 																expr: &actionExpr{
-																	pos: position{line: 2873, col: 10, offset: 90962},
+																	pos: position{line: 2872, col: 10, offset: 90900},
 																	run: (*parser).callonDocumentHeader143,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2873, col: 10, offset: 90962},
+																		pos:        position{line: 2872, col: 10, offset: 90900},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16609,28 +16565,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2895, col: 8, offset: 91360},
+																pos: position{line: 2894, col: 8, offset: 91298},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2882, col: 12, offset: 91133},
+																		pos: position{line: 2881, col: 12, offset: 91071},
 																		run: (*parser).callonDocumentHeader146,
 																		expr: &choiceExpr{
-																			pos: position{line: 2882, col: 13, offset: 91134},
+																			pos: position{line: 2881, col: 13, offset: 91072},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 13, offset: 91134},
+																					pos:        position{line: 2881, col: 13, offset: 91072},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 20, offset: 91141},
+																					pos:        position{line: 2881, col: 20, offset: 91079},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 29, offset: 91150},
+																					pos:        position{line: 2881, col: 29, offset: 91088},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -16639,9 +16595,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91310},
+																		pos: position{line: 2891, col: 8, offset: 91248},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91311,
+																			line: 2891, col: 9, offset: 91249,
 																		},
 																	},
 																},
@@ -16650,46 +16606,46 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 821, col: 5, offset: 26429},
+													pos:   position{line: 820, col: 5, offset: 26367},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 831, col: 5, offset: 26715},
+														pos: position{line: 830, col: 5, offset: 26653},
 														expr: &actionExpr{
-															pos: position{line: 831, col: 6, offset: 26716},
+															pos: position{line: 830, col: 6, offset: 26654},
 															run: (*parser).callonDocumentHeader155,
 															expr: &seqExpr{
-																pos: position{line: 831, col: 6, offset: 26716},
+																pos: position{line: 830, col: 6, offset: 26654},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 831, col: 6, offset: 26716},
+																		pos: position{line: 830, col: 6, offset: 26654},
 																		expr: &choiceExpr{
-																			pos: position{line: 828, col: 29, offset: 26658},
+																			pos: position{line: 827, col: 29, offset: 26596},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 740, col: 5, offset: 23653},
+																					pos: position{line: 739, col: 5, offset: 23591},
 																					run: (*parser).callonDocumentHeader159,
 																					expr: &seqExpr{
-																						pos: position{line: 740, col: 5, offset: 23653},
+																						pos: position{line: 739, col: 5, offset: 23591},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 740, col: 5, offset: 23653},
+																								pos:   position{line: 739, col: 5, offset: 23591},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 740, col: 16, offset: 23664},
+																									pos: position{line: 739, col: 16, offset: 23602},
 																									run: (*parser).callonDocumentHeader162,
 																									expr: &seqExpr{
-																										pos: position{line: 740, col: 16, offset: 23664},
+																										pos: position{line: 739, col: 16, offset: 23602},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 740, col: 16, offset: 23664},
+																												pos:        position{line: 739, col: 16, offset: 23602},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 740, col: 23, offset: 23671},
+																												pos: position{line: 739, col: 23, offset: 23609},
 																												expr: &litMatcher{
-																													pos:        position{line: 740, col: 23, offset: 23671},
+																													pos:        position{line: 739, col: 23, offset: 23609},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -16700,12 +16656,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 742, col: 8, offset: 23755},
+																								pos: position{line: 741, col: 8, offset: 23693},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90962},
+																									pos: position{line: 2872, col: 10, offset: 90900},
 																									run: (*parser).callonDocumentHeader168,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90962},
+																										pos:        position{line: 2872, col: 10, offset: 90900},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -16714,28 +16670,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91360},
+																								pos: position{line: 2894, col: 8, offset: 91298},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91133},
+																										pos: position{line: 2881, col: 12, offset: 91071},
 																										run: (*parser).callonDocumentHeader171,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91134},
+																											pos: position{line: 2881, col: 13, offset: 91072},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91134},
+																													pos:        position{line: 2881, col: 13, offset: 91072},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91141},
+																													pos:        position{line: 2881, col: 20, offset: 91079},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91150},
+																													pos:        position{line: 2881, col: 29, offset: 91088},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -16744,9 +16700,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91310},
+																										pos: position{line: 2891, col: 8, offset: 91248},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91311,
+																											line: 2891, col: 9, offset: 91249,
 																										},
 																									},
 																								},
@@ -16755,39 +16711,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91310},
+																					pos: position{line: 2891, col: 8, offset: 91248},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91311,
+																						line: 2891, col: 9, offset: 91249,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 832, col: 5, offset: 26746},
+																		pos:   position{line: 831, col: 5, offset: 26684},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26162},
+																			pos: position{line: 810, col: 5, offset: 26100},
 																			run: (*parser).callonDocumentHeader181,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26162},
+																				pos: position{line: 810, col: 5, offset: 26100},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2890, col: 11, offset: 91296},
+																						pos: position{line: 2889, col: 11, offset: 91234},
 																						expr: &anyMatcher{
-																							line: 2890, col: 13, offset: 91298,
+																							line: 2889, col: 13, offset: 91236,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26237},
+																						pos:   position{line: 811, col: 5, offset: 26175},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2819, col: 13, offset: 89488},
+																							pos: position{line: 2818, col: 13, offset: 89426},
 																							run: (*parser).callonDocumentHeader186,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2819, col: 13, offset: 89488},
+																								pos: position{line: 2818, col: 13, offset: 89426},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2819, col: 13, offset: 89488},
+																									pos:        position{line: 2818, col: 13, offset: 89426},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16797,28 +16753,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91360},
+																						pos: position{line: 2894, col: 8, offset: 91298},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 91133},
+																								pos: position{line: 2881, col: 12, offset: 91071},
 																								run: (*parser).callonDocumentHeader190,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 91134},
+																									pos: position{line: 2881, col: 13, offset: 91072},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 91134},
+																											pos:        position{line: 2881, col: 13, offset: 91072},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 91141},
+																											pos:        position{line: 2881, col: 20, offset: 91079},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 91150},
+																											pos:        position{line: 2881, col: 29, offset: 91088},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16827,9 +16783,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91310},
+																								pos: position{line: 2891, col: 8, offset: 91248},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91311,
+																									line: 2891, col: 9, offset: 91249,
 																								},
 																							},
 																						},
@@ -16844,35 +16800,35 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 822, col: 5, offset: 26463},
+													pos: position{line: 821, col: 5, offset: 26401},
 													expr: &choiceExpr{
-														pos: position{line: 828, col: 29, offset: 26658},
+														pos: position{line: 827, col: 29, offset: 26596},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 740, col: 5, offset: 23653},
+																pos: position{line: 739, col: 5, offset: 23591},
 																run: (*parser).callonDocumentHeader199,
 																expr: &seqExpr{
-																	pos: position{line: 740, col: 5, offset: 23653},
+																	pos: position{line: 739, col: 5, offset: 23591},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 740, col: 5, offset: 23653},
+																			pos:   position{line: 739, col: 5, offset: 23591},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 740, col: 16, offset: 23664},
+																				pos: position{line: 739, col: 16, offset: 23602},
 																				run: (*parser).callonDocumentHeader202,
 																				expr: &seqExpr{
-																					pos: position{line: 740, col: 16, offset: 23664},
+																					pos: position{line: 739, col: 16, offset: 23602},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 740, col: 16, offset: 23664},
+																							pos:        position{line: 739, col: 16, offset: 23602},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 740, col: 23, offset: 23671},
+																							pos: position{line: 739, col: 23, offset: 23609},
 																							expr: &litMatcher{
-																								pos:        position{line: 740, col: 23, offset: 23671},
+																								pos:        position{line: 739, col: 23, offset: 23609},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -16883,12 +16839,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 742, col: 8, offset: 23755},
+																			pos: position{line: 741, col: 8, offset: 23693},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90962},
+																				pos: position{line: 2872, col: 10, offset: 90900},
 																				run: (*parser).callonDocumentHeader208,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90962},
+																					pos:        position{line: 2872, col: 10, offset: 90900},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -16897,28 +16853,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91360},
+																			pos: position{line: 2894, col: 8, offset: 91298},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 91133},
+																					pos: position{line: 2881, col: 12, offset: 91071},
 																					run: (*parser).callonDocumentHeader211,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 91134},
+																						pos: position{line: 2881, col: 13, offset: 91072},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 91134},
+																								pos:        position{line: 2881, col: 13, offset: 91072},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 91141},
+																								pos:        position{line: 2881, col: 20, offset: 91079},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 91150},
+																								pos:        position{line: 2881, col: 29, offset: 91088},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -16927,9 +16883,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91310},
+																					pos: position{line: 2891, col: 8, offset: 91248},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91311,
+																						line: 2891, col: 9, offset: 91249,
 																					},
 																				},
 																			},
@@ -16938,9 +16894,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2892, col: 8, offset: 91310},
+																pos: position{line: 2891, col: 8, offset: 91248},
 																expr: &anyMatcher{
-																	line: 2892, col: 9, offset: 91311,
+																	line: 2891, col: 9, offset: 91249,
 																},
 															},
 														},
@@ -16953,41 +16909,41 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1107, col: 5, offset: 34101},
+							pos:   position{line: 1106, col: 5, offset: 34039},
 							label: "authorsAndRevision",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1107, col: 24, offset: 34120},
+								pos: position{line: 1106, col: 24, offset: 34058},
 								expr: &actionExpr{
-									pos: position{line: 1118, col: 5, offset: 34495},
+									pos: position{line: 1117, col: 5, offset: 34433},
 									run: (*parser).callonDocumentHeader222,
 									expr: &seqExpr{
-										pos: position{line: 1118, col: 5, offset: 34495},
+										pos: position{line: 1117, col: 5, offset: 34433},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1118, col: 5, offset: 34495},
+												pos: position{line: 1117, col: 5, offset: 34433},
 												expr: &litMatcher{
-													pos:        position{line: 1118, col: 6, offset: 34496},
+													pos:        position{line: 1117, col: 6, offset: 34434},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1119, col: 5, offset: 34504},
+												pos:   position{line: 1118, col: 5, offset: 34442},
 												label: "authors",
 												expr: &actionExpr{
-													pos: position{line: 1125, col: 20, offset: 34760},
+													pos: position{line: 1124, col: 20, offset: 34698},
 													run: (*parser).callonDocumentHeader227,
 													expr: &seqExpr{
-														pos: position{line: 1125, col: 20, offset: 34760},
+														pos: position{line: 1124, col: 20, offset: 34698},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 1125, col: 20, offset: 34760},
+																pos: position{line: 1124, col: 20, offset: 34698},
 																expr: &actionExpr{
-																	pos: position{line: 2873, col: 10, offset: 90962},
+																	pos: position{line: 2872, col: 10, offset: 90900},
 																	run: (*parser).callonDocumentHeader230,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2873, col: 10, offset: 90962},
+																		pos:        position{line: 2872, col: 10, offset: 90900},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16996,37 +16952,37 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 1125, col: 27, offset: 34767},
+																pos:   position{line: 1124, col: 27, offset: 34705},
 																label: "authors",
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 1125, col: 36, offset: 34776},
+																	pos: position{line: 1124, col: 36, offset: 34714},
 																	expr: &actionExpr{
-																		pos: position{line: 1130, col: 5, offset: 34889},
+																		pos: position{line: 1129, col: 5, offset: 34827},
 																		run: (*parser).callonDocumentHeader234,
 																		expr: &seqExpr{
-																			pos: position{line: 1130, col: 5, offset: 34889},
+																			pos: position{line: 1129, col: 5, offset: 34827},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1130, col: 5, offset: 34889},
+																					pos:   position{line: 1129, col: 5, offset: 34827},
 																					label: "fullName",
 																					expr: &zeroOrOneExpr{
-																						pos: position{line: 1130, col: 14, offset: 34898},
+																						pos: position{line: 1129, col: 14, offset: 34836},
 																						expr: &actionExpr{
-																							pos: position{line: 1141, col: 5, offset: 35278},
+																							pos: position{line: 1140, col: 5, offset: 35216},
 																							run: (*parser).callonDocumentHeader238,
 																							expr: &seqExpr{
-																								pos: position{line: 1141, col: 5, offset: 35278},
+																								pos: position{line: 1140, col: 5, offset: 35216},
 																								exprs: []interface{}{
 																									&labeledExpr{
-																										pos:   position{line: 1141, col: 5, offset: 35278},
+																										pos:   position{line: 1140, col: 5, offset: 35216},
 																										label: "part1",
 																										expr: &actionExpr{
-																											pos: position{line: 1141, col: 12, offset: 35285},
+																											pos: position{line: 1140, col: 12, offset: 35223},
 																											run: (*parser).callonDocumentHeader241,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1141, col: 12, offset: 35285},
+																												pos: position{line: 1140, col: 12, offset: 35223},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1141, col: 12, offset: 35285},
+																													pos:        position{line: 1140, col: 12, offset: 35223},
 																													val:        "[^<;\\r\\n ]",
 																													chars:      []rune{'<', ';', '\r', '\n', ' '},
 																													ignoreCase: false,
@@ -17036,12 +16992,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1144, col: 5, offset: 35365},
+																										pos: position{line: 1143, col: 5, offset: 35303},
 																										expr: &actionExpr{
-																											pos: position{line: 2873, col: 10, offset: 90962},
+																											pos: position{line: 2872, col: 10, offset: 90900},
 																											run: (*parser).callonDocumentHeader245,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2873, col: 10, offset: 90962},
+																												pos:        position{line: 2872, col: 10, offset: 90900},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17050,17 +17006,17 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1145, col: 5, offset: 35376},
+																										pos:   position{line: 1144, col: 5, offset: 35314},
 																										label: "part2",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 1145, col: 11, offset: 35382},
+																											pos: position{line: 1144, col: 11, offset: 35320},
 																											expr: &actionExpr{
-																												pos: position{line: 1145, col: 12, offset: 35383},
+																												pos: position{line: 1144, col: 12, offset: 35321},
 																												run: (*parser).callonDocumentHeader249,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1145, col: 12, offset: 35383},
+																													pos: position{line: 1144, col: 12, offset: 35321},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1145, col: 12, offset: 35383},
+																														pos:        position{line: 1144, col: 12, offset: 35321},
 																														val:        "[^<;\\r\\n ]",
 																														chars:      []rune{'<', ';', '\r', '\n', ' '},
 																														ignoreCase: false,
@@ -17071,12 +17027,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1148, col: 5, offset: 35464},
+																										pos: position{line: 1147, col: 5, offset: 35402},
 																										expr: &actionExpr{
-																											pos: position{line: 2873, col: 10, offset: 90962},
+																											pos: position{line: 2872, col: 10, offset: 90900},
 																											run: (*parser).callonDocumentHeader253,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2873, col: 10, offset: 90962},
+																												pos:        position{line: 2872, col: 10, offset: 90900},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17085,17 +17041,17 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1149, col: 5, offset: 35475},
+																										pos:   position{line: 1148, col: 5, offset: 35413},
 																										label: "part3",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 1149, col: 11, offset: 35481},
+																											pos: position{line: 1148, col: 11, offset: 35419},
 																											expr: &actionExpr{
-																												pos: position{line: 1149, col: 12, offset: 35482},
+																												pos: position{line: 1148, col: 12, offset: 35420},
 																												run: (*parser).callonDocumentHeader257,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1149, col: 12, offset: 35482},
+																													pos: position{line: 1148, col: 12, offset: 35420},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1149, col: 12, offset: 35482},
+																														pos:        position{line: 1148, col: 12, offset: 35420},
 																														val:        "[^<;\\r\\n]",
 																														chars:      []rune{'<', ';', '\r', '\n'},
 																														ignoreCase: false,
@@ -17106,12 +17062,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1152, col: 5, offset: 35561},
+																										pos: position{line: 1151, col: 5, offset: 35499},
 																										expr: &actionExpr{
-																											pos: position{line: 2873, col: 10, offset: 90962},
+																											pos: position{line: 2872, col: 10, offset: 90900},
 																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2873, col: 10, offset: 90962},
+																												pos:        position{line: 2872, col: 10, offset: 90900},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17125,38 +17081,38 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1130, col: 40, offset: 34924},
+																					pos:   position{line: 1129, col: 40, offset: 34862},
 																					label: "email",
 																					expr: &zeroOrOneExpr{
-																						pos: position{line: 1130, col: 46, offset: 34930},
+																						pos: position{line: 1129, col: 46, offset: 34868},
 																						expr: &actionExpr{
-																							pos: position{line: 1158, col: 5, offset: 35683},
+																							pos: position{line: 1157, col: 5, offset: 35621},
 																							run: (*parser).callonDocumentHeader265,
 																							expr: &seqExpr{
-																								pos: position{line: 1158, col: 5, offset: 35683},
+																								pos: position{line: 1157, col: 5, offset: 35621},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2890, col: 11, offset: 91296},
+																										pos: position{line: 2889, col: 11, offset: 91234},
 																										expr: &anyMatcher{
-																											line: 2890, col: 13, offset: 91298,
+																											line: 2889, col: 13, offset: 91236,
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1159, col: 5, offset: 35695},
+																										pos:        position{line: 1158, col: 5, offset: 35633},
 																										val:        "<",
 																										ignoreCase: false,
 																										want:       "\"<\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1160, col: 5, offset: 35704},
+																										pos:   position{line: 1159, col: 5, offset: 35642},
 																										label: "email",
 																										expr: &actionExpr{
-																											pos: position{line: 1160, col: 12, offset: 35711},
+																											pos: position{line: 1159, col: 12, offset: 35649},
 																											run: (*parser).callonDocumentHeader271,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1160, col: 13, offset: 35712},
+																												pos: position{line: 1159, col: 13, offset: 35650},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1160, col: 13, offset: 35712},
+																													pos:        position{line: 1159, col: 13, offset: 35650},
 																													val:        "[^>\\r\\n]",
 																													chars:      []rune{'>', '\r', '\n'},
 																													ignoreCase: false,
@@ -17166,7 +17122,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1163, col: 5, offset: 35772},
+																										pos:        position{line: 1162, col: 5, offset: 35710},
 																										val:        ">",
 																										ignoreCase: false,
 																										want:       "\">\"",
@@ -17177,12 +17133,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1130, col: 69, offset: 34953},
+																					pos: position{line: 1129, col: 69, offset: 34891},
 																					expr: &actionExpr{
-																						pos: position{line: 2873, col: 10, offset: 90962},
+																						pos: position{line: 2872, col: 10, offset: 90900},
 																						run: (*parser).callonDocumentHeader276,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2873, col: 10, offset: 90962},
+																							pos:        position{line: 2872, col: 10, offset: 90900},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17191,21 +17147,21 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrOneExpr{
-																					pos: position{line: 1130, col: 76, offset: 34960},
+																					pos: position{line: 1129, col: 76, offset: 34898},
 																					expr: &litMatcher{
-																						pos:        position{line: 1130, col: 76, offset: 34960},
+																						pos:        position{line: 1129, col: 76, offset: 34898},
 																						val:        ";",
 																						ignoreCase: false,
 																						want:       "\";\"",
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1130, col: 81, offset: 34965},
+																					pos: position{line: 1129, col: 81, offset: 34903},
 																					expr: &actionExpr{
-																						pos: position{line: 2873, col: 10, offset: 90962},
+																						pos: position{line: 2872, col: 10, offset: 90900},
 																						run: (*parser).callonDocumentHeader281,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2873, col: 10, offset: 90962},
+																							pos:        position{line: 2872, col: 10, offset: 90900},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17214,7 +17170,7 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1131, col: 5, offset: 34977},
+																					pos: position{line: 1130, col: 5, offset: 34915},
 																					run: (*parser).callonDocumentHeader283,
 																				},
 																			},
@@ -17223,28 +17179,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2895, col: 8, offset: 91360},
+																pos: position{line: 2894, col: 8, offset: 91298},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2882, col: 12, offset: 91133},
+																		pos: position{line: 2881, col: 12, offset: 91071},
 																		run: (*parser).callonDocumentHeader285,
 																		expr: &choiceExpr{
-																			pos: position{line: 2882, col: 13, offset: 91134},
+																			pos: position{line: 2881, col: 13, offset: 91072},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 13, offset: 91134},
+																					pos:        position{line: 2881, col: 13, offset: 91072},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 20, offset: 91141},
+																					pos:        position{line: 2881, col: 20, offset: 91079},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 29, offset: 91150},
+																					pos:        position{line: 2881, col: 29, offset: 91088},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17253,9 +17209,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91310},
+																		pos: position{line: 2891, col: 8, offset: 91248},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91311,
+																			line: 2891, col: 9, offset: 91249,
 																		},
 																	},
 																},
@@ -17265,41 +17221,41 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 1120, col: 5, offset: 34534},
+												pos: position{line: 1119, col: 5, offset: 34472},
 												expr: &choiceExpr{
-													pos: position{line: 1120, col: 6, offset: 34535},
+													pos: position{line: 1119, col: 6, offset: 34473},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2480, col: 22, offset: 79848},
+															pos: position{line: 2479, col: 22, offset: 79786},
 															run: (*parser).callonDocumentHeader294,
 															expr: &seqExpr{
-																pos: position{line: 2480, col: 22, offset: 79848},
+																pos: position{line: 2479, col: 22, offset: 79786},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2485, col: 31, offset: 80069},
+																		pos:        position{line: 2484, col: 31, offset: 80007},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2485, col: 36, offset: 80074},
+																		pos: position{line: 2484, col: 36, offset: 80012},
 																		expr: &litMatcher{
-																			pos:        position{line: 2485, col: 37, offset: 80075},
+																			pos:        position{line: 2484, col: 37, offset: 80013},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2480, col: 49, offset: 79875},
+																		pos:   position{line: 2479, col: 49, offset: 79813},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2819, col: 13, offset: 89488},
+																			pos: position{line: 2818, col: 13, offset: 89426},
 																			run: (*parser).callonDocumentHeader300,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2819, col: 13, offset: 89488},
+																				pos: position{line: 2818, col: 13, offset: 89426},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2819, col: 13, offset: 89488},
+																					pos:        position{line: 2818, col: 13, offset: 89426},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -17309,28 +17265,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91360},
+																		pos: position{line: 2894, col: 8, offset: 91298},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91133},
+																				pos: position{line: 2881, col: 12, offset: 91071},
 																				run: (*parser).callonDocumentHeader304,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91134},
+																					pos: position{line: 2881, col: 13, offset: 91072},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91134},
+																							pos:        position{line: 2881, col: 13, offset: 91072},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91141},
+																							pos:        position{line: 2881, col: 20, offset: 91079},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91150},
+																							pos:        position{line: 2881, col: 29, offset: 91088},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -17339,9 +17295,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91310},
+																				pos: position{line: 2891, col: 8, offset: 91248},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91311,
+																					line: 2891, col: 9, offset: 91249,
 																				},
 																			},
 																		},
@@ -17350,36 +17306,36 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 820, col: 5, offset: 26398},
+															pos: position{line: 819, col: 5, offset: 26336},
 															run: (*parser).callonDocumentHeader311,
 															expr: &seqExpr{
-																pos: position{line: 820, col: 5, offset: 26398},
+																pos: position{line: 819, col: 5, offset: 26336},
 																exprs: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 740, col: 5, offset: 23653},
+																		pos: position{line: 739, col: 5, offset: 23591},
 																		run: (*parser).callonDocumentHeader313,
 																		expr: &seqExpr{
-																			pos: position{line: 740, col: 5, offset: 23653},
+																			pos: position{line: 739, col: 5, offset: 23591},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 740, col: 5, offset: 23653},
+																					pos:   position{line: 739, col: 5, offset: 23591},
 																					label: "delimiter",
 																					expr: &actionExpr{
-																						pos: position{line: 740, col: 16, offset: 23664},
+																						pos: position{line: 739, col: 16, offset: 23602},
 																						run: (*parser).callonDocumentHeader316,
 																						expr: &seqExpr{
-																							pos: position{line: 740, col: 16, offset: 23664},
+																							pos: position{line: 739, col: 16, offset: 23602},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 740, col: 16, offset: 23664},
+																									pos:        position{line: 739, col: 16, offset: 23602},
 																									val:        "////",
 																									ignoreCase: false,
 																									want:       "\"////\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 740, col: 23, offset: 23671},
+																									pos: position{line: 739, col: 23, offset: 23609},
 																									expr: &litMatcher{
-																										pos:        position{line: 740, col: 23, offset: 23671},
+																										pos:        position{line: 739, col: 23, offset: 23609},
 																										val:        "/",
 																										ignoreCase: false,
 																										want:       "\"/\"",
@@ -17390,12 +17346,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 742, col: 8, offset: 23755},
+																					pos: position{line: 741, col: 8, offset: 23693},
 																					expr: &actionExpr{
-																						pos: position{line: 2873, col: 10, offset: 90962},
+																						pos: position{line: 2872, col: 10, offset: 90900},
 																						run: (*parser).callonDocumentHeader322,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2873, col: 10, offset: 90962},
+																							pos:        position{line: 2872, col: 10, offset: 90900},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17404,28 +17360,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2895, col: 8, offset: 91360},
+																					pos: position{line: 2894, col: 8, offset: 91298},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2882, col: 12, offset: 91133},
+																							pos: position{line: 2881, col: 12, offset: 91071},
 																							run: (*parser).callonDocumentHeader325,
 																							expr: &choiceExpr{
-																								pos: position{line: 2882, col: 13, offset: 91134},
+																								pos: position{line: 2881, col: 13, offset: 91072},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 91134},
+																										pos:        position{line: 2881, col: 13, offset: 91072},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 20, offset: 91141},
+																										pos:        position{line: 2881, col: 20, offset: 91079},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 29, offset: 91150},
+																										pos:        position{line: 2881, col: 29, offset: 91088},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -17434,9 +17390,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2892, col: 8, offset: 91310},
+																							pos: position{line: 2891, col: 8, offset: 91248},
 																							expr: &anyMatcher{
-																								line: 2892, col: 9, offset: 91311,
+																								line: 2891, col: 9, offset: 91249,
 																							},
 																						},
 																					},
@@ -17445,46 +17401,46 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 821, col: 5, offset: 26429},
+																		pos:   position{line: 820, col: 5, offset: 26367},
 																		label: "content",
 																		expr: &zeroOrMoreExpr{
-																			pos: position{line: 831, col: 5, offset: 26715},
+																			pos: position{line: 830, col: 5, offset: 26653},
 																			expr: &actionExpr{
-																				pos: position{line: 831, col: 6, offset: 26716},
+																				pos: position{line: 830, col: 6, offset: 26654},
 																				run: (*parser).callonDocumentHeader334,
 																				expr: &seqExpr{
-																					pos: position{line: 831, col: 6, offset: 26716},
+																					pos: position{line: 830, col: 6, offset: 26654},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 831, col: 6, offset: 26716},
+																							pos: position{line: 830, col: 6, offset: 26654},
 																							expr: &choiceExpr{
-																								pos: position{line: 828, col: 29, offset: 26658},
+																								pos: position{line: 827, col: 29, offset: 26596},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 740, col: 5, offset: 23653},
+																										pos: position{line: 739, col: 5, offset: 23591},
 																										run: (*parser).callonDocumentHeader338,
 																										expr: &seqExpr{
-																											pos: position{line: 740, col: 5, offset: 23653},
+																											pos: position{line: 739, col: 5, offset: 23591},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 740, col: 5, offset: 23653},
+																													pos:   position{line: 739, col: 5, offset: 23591},
 																													label: "delimiter",
 																													expr: &actionExpr{
-																														pos: position{line: 740, col: 16, offset: 23664},
+																														pos: position{line: 739, col: 16, offset: 23602},
 																														run: (*parser).callonDocumentHeader341,
 																														expr: &seqExpr{
-																															pos: position{line: 740, col: 16, offset: 23664},
+																															pos: position{line: 739, col: 16, offset: 23602},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 740, col: 16, offset: 23664},
+																																	pos:        position{line: 739, col: 16, offset: 23602},
 																																	val:        "////",
 																																	ignoreCase: false,
 																																	want:       "\"////\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 740, col: 23, offset: 23671},
+																																	pos: position{line: 739, col: 23, offset: 23609},
 																																	expr: &litMatcher{
-																																		pos:        position{line: 740, col: 23, offset: 23671},
+																																		pos:        position{line: 739, col: 23, offset: 23609},
 																																		val:        "/",
 																																		ignoreCase: false,
 																																		want:       "\"/\"",
@@ -17495,12 +17451,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 742, col: 8, offset: 23755},
+																													pos: position{line: 741, col: 8, offset: 23693},
 																													expr: &actionExpr{
-																														pos: position{line: 2873, col: 10, offset: 90962},
+																														pos: position{line: 2872, col: 10, offset: 90900},
 																														run: (*parser).callonDocumentHeader347,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2873, col: 10, offset: 90962},
+																															pos:        position{line: 2872, col: 10, offset: 90900},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -17509,28 +17465,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2895, col: 8, offset: 91360},
+																													pos: position{line: 2894, col: 8, offset: 91298},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2882, col: 12, offset: 91133},
+																															pos: position{line: 2881, col: 12, offset: 91071},
 																															run: (*parser).callonDocumentHeader350,
 																															expr: &choiceExpr{
-																																pos: position{line: 2882, col: 13, offset: 91134},
+																																pos: position{line: 2881, col: 13, offset: 91072},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 13, offset: 91134},
+																																		pos:        position{line: 2881, col: 13, offset: 91072},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 20, offset: 91141},
+																																		pos:        position{line: 2881, col: 20, offset: 91079},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 29, offset: 91150},
+																																		pos:        position{line: 2881, col: 29, offset: 91088},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -17539,9 +17495,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2892, col: 8, offset: 91310},
+																															pos: position{line: 2891, col: 8, offset: 91248},
 																															expr: &anyMatcher{
-																																line: 2892, col: 9, offset: 91311,
+																																line: 2891, col: 9, offset: 91249,
 																															},
 																														},
 																													},
@@ -17550,39 +17506,39 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91310},
+																										pos: position{line: 2891, col: 8, offset: 91248},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91311,
+																											line: 2891, col: 9, offset: 91249,
 																										},
 																									},
 																								},
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 832, col: 5, offset: 26746},
+																							pos:   position{line: 831, col: 5, offset: 26684},
 																							label: "line",
 																							expr: &actionExpr{
-																								pos: position{line: 811, col: 5, offset: 26162},
+																								pos: position{line: 810, col: 5, offset: 26100},
 																								run: (*parser).callonDocumentHeader360,
 																								expr: &seqExpr{
-																									pos: position{line: 811, col: 5, offset: 26162},
+																									pos: position{line: 810, col: 5, offset: 26100},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2890, col: 11, offset: 91296},
+																											pos: position{line: 2889, col: 11, offset: 91234},
 																											expr: &anyMatcher{
-																												line: 2890, col: 13, offset: 91298,
+																												line: 2889, col: 13, offset: 91236,
 																											},
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 812, col: 5, offset: 26237},
+																											pos:   position{line: 811, col: 5, offset: 26175},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2819, col: 13, offset: 89488},
+																												pos: position{line: 2818, col: 13, offset: 89426},
 																												run: (*parser).callonDocumentHeader365,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2819, col: 13, offset: 89488},
+																													pos: position{line: 2818, col: 13, offset: 89426},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2819, col: 13, offset: 89488},
+																														pos:        position{line: 2818, col: 13, offset: 89426},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -17592,28 +17548,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91360},
+																											pos: position{line: 2894, col: 8, offset: 91298},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 91133},
+																													pos: position{line: 2881, col: 12, offset: 91071},
 																													run: (*parser).callonDocumentHeader369,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 91134},
+																														pos: position{line: 2881, col: 13, offset: 91072},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 91134},
+																																pos:        position{line: 2881, col: 13, offset: 91072},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 91141},
+																																pos:        position{line: 2881, col: 20, offset: 91079},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 91150},
+																																pos:        position{line: 2881, col: 29, offset: 91088},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17622,9 +17578,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91310},
+																													pos: position{line: 2891, col: 8, offset: 91248},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91311,
+																														line: 2891, col: 9, offset: 91249,
 																													},
 																												},
 																											},
@@ -17639,35 +17595,35 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrOneExpr{
-																		pos: position{line: 822, col: 5, offset: 26463},
+																		pos: position{line: 821, col: 5, offset: 26401},
 																		expr: &choiceExpr{
-																			pos: position{line: 828, col: 29, offset: 26658},
+																			pos: position{line: 827, col: 29, offset: 26596},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 740, col: 5, offset: 23653},
+																					pos: position{line: 739, col: 5, offset: 23591},
 																					run: (*parser).callonDocumentHeader378,
 																					expr: &seqExpr{
-																						pos: position{line: 740, col: 5, offset: 23653},
+																						pos: position{line: 739, col: 5, offset: 23591},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 740, col: 5, offset: 23653},
+																								pos:   position{line: 739, col: 5, offset: 23591},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 740, col: 16, offset: 23664},
+																									pos: position{line: 739, col: 16, offset: 23602},
 																									run: (*parser).callonDocumentHeader381,
 																									expr: &seqExpr{
-																										pos: position{line: 740, col: 16, offset: 23664},
+																										pos: position{line: 739, col: 16, offset: 23602},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 740, col: 16, offset: 23664},
+																												pos:        position{line: 739, col: 16, offset: 23602},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 740, col: 23, offset: 23671},
+																												pos: position{line: 739, col: 23, offset: 23609},
 																												expr: &litMatcher{
-																													pos:        position{line: 740, col: 23, offset: 23671},
+																													pos:        position{line: 739, col: 23, offset: 23609},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -17678,12 +17634,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 742, col: 8, offset: 23755},
+																								pos: position{line: 741, col: 8, offset: 23693},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90962},
+																									pos: position{line: 2872, col: 10, offset: 90900},
 																									run: (*parser).callonDocumentHeader387,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90962},
+																										pos:        position{line: 2872, col: 10, offset: 90900},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -17692,28 +17648,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91360},
+																								pos: position{line: 2894, col: 8, offset: 91298},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91133},
+																										pos: position{line: 2881, col: 12, offset: 91071},
 																										run: (*parser).callonDocumentHeader390,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91134},
+																											pos: position{line: 2881, col: 13, offset: 91072},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91134},
+																													pos:        position{line: 2881, col: 13, offset: 91072},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91141},
+																													pos:        position{line: 2881, col: 20, offset: 91079},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91150},
+																													pos:        position{line: 2881, col: 29, offset: 91088},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -17722,9 +17678,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91310},
+																										pos: position{line: 2891, col: 8, offset: 91248},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91311,
+																											line: 2891, col: 9, offset: 91249,
 																										},
 																									},
 																								},
@@ -17733,9 +17689,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91310},
+																					pos: position{line: 2891, col: 8, offset: 91248},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91311,
+																						line: 2891, col: 9, offset: 91249,
 																					},
 																				},
 																			},
@@ -17748,23 +17704,23 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1121, col: 5, offset: 34609},
+												pos:   position{line: 1120, col: 5, offset: 34547},
 												label: "revision",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 1121, col: 14, offset: 34618},
+													pos: position{line: 1120, col: 14, offset: 34556},
 													expr: &actionExpr{
-														pos: position{line: 1169, col: 21, offset: 35961},
+														pos: position{line: 1168, col: 21, offset: 35899},
 														run: (*parser).callonDocumentHeader401,
 														expr: &seqExpr{
-															pos: position{line: 1169, col: 21, offset: 35961},
+															pos: position{line: 1168, col: 21, offset: 35899},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1169, col: 21, offset: 35961},
+																	pos: position{line: 1168, col: 21, offset: 35899},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90962},
+																		pos: position{line: 2872, col: 10, offset: 90900},
 																		run: (*parser).callonDocumentHeader404,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90962},
+																			pos:        position{line: 2872, col: 10, offset: 90900},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -17773,55 +17729,55 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1169, col: 28, offset: 35968},
+																	pos: position{line: 1168, col: 28, offset: 35906},
 																	expr: &litMatcher{
-																		pos:        position{line: 1169, col: 29, offset: 35969},
+																		pos:        position{line: 1168, col: 29, offset: 35907},
 																		val:        ":",
 																		ignoreCase: false,
 																		want:       "\":\"",
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1169, col: 33, offset: 35973},
+																	pos:   position{line: 1168, col: 33, offset: 35911},
 																	label: "revision",
 																	expr: &choiceExpr{
-																		pos: position{line: 1170, col: 9, offset: 35992},
+																		pos: position{line: 1169, col: 9, offset: 35930},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1170, col: 10, offset: 35993},
+																				pos: position{line: 1169, col: 10, offset: 35931},
 																				run: (*parser).callonDocumentHeader410,
 																				expr: &seqExpr{
-																					pos: position{line: 1170, col: 10, offset: 35993},
+																					pos: position{line: 1169, col: 10, offset: 35931},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1170, col: 10, offset: 35993},
+																							pos:   position{line: 1169, col: 10, offset: 35931},
 																							label: "revnumber",
 																							expr: &choiceExpr{
-																								pos: position{line: 1179, col: 27, offset: 36510},
+																								pos: position{line: 1178, col: 27, offset: 36448},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1179, col: 27, offset: 36510},
+																										pos: position{line: 1178, col: 27, offset: 36448},
 																										run: (*parser).callonDocumentHeader414,
 																										expr: &seqExpr{
-																											pos: position{line: 1179, col: 27, offset: 36510},
+																											pos: position{line: 1178, col: 27, offset: 36448},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 1179, col: 27, offset: 36510},
+																													pos:        position{line: 1178, col: 27, offset: 36448},
 																													val:        "v",
 																													ignoreCase: true,
 																													want:       "\"v\"i",
 																												},
 																												&charClassMatcher{
-																													pos:        position{line: 1179, col: 32, offset: 36515},
+																													pos:        position{line: 1178, col: 32, offset: 36453},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 1179, col: 38, offset: 36521},
+																													pos: position{line: 1178, col: 38, offset: 36459},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1179, col: 38, offset: 36521},
+																														pos:        position{line: 1178, col: 38, offset: 36459},
 																														val:        "[^:,\\r\\n]",
 																														chars:      []rune{':', ',', '\r', '\n'},
 																														ignoreCase: false,
@@ -17832,31 +17788,31 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1181, col: 5, offset: 36569},
+																										pos: position{line: 1180, col: 5, offset: 36507},
 																										run: (*parser).callonDocumentHeader420,
 																										expr: &seqExpr{
-																											pos: position{line: 1181, col: 5, offset: 36569},
+																											pos: position{line: 1180, col: 5, offset: 36507},
 																											exprs: []interface{}{
 																												&zeroOrOneExpr{
-																													pos: position{line: 1181, col: 5, offset: 36569},
+																													pos: position{line: 1180, col: 5, offset: 36507},
 																													expr: &litMatcher{
-																														pos:        position{line: 1181, col: 5, offset: 36569},
+																														pos:        position{line: 1180, col: 5, offset: 36507},
 																														val:        "v",
 																														ignoreCase: true,
 																														want:       "\"v\"i",
 																													},
 																												},
 																												&charClassMatcher{
-																													pos:        position{line: 1181, col: 11, offset: 36575},
+																													pos:        position{line: 1180, col: 11, offset: 36513},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 1181, col: 17, offset: 36581},
+																													pos: position{line: 1180, col: 17, offset: 36519},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1181, col: 17, offset: 36581},
+																														pos:        position{line: 1180, col: 17, offset: 36519},
 																														val:        "[^:,\\r\\n]",
 																														chars:      []rune{':', ',', '\r', '\n'},
 																														ignoreCase: false,
@@ -17864,12 +17820,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 1181, col: 28, offset: 36592},
+																													pos: position{line: 1180, col: 28, offset: 36530},
 																													expr: &actionExpr{
-																														pos: position{line: 2873, col: 10, offset: 90962},
+																														pos: position{line: 2872, col: 10, offset: 90900},
 																														run: (*parser).callonDocumentHeader428,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2873, col: 10, offset: 90962},
+																															pos:        position{line: 2872, col: 10, offset: 90900},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -17878,9 +17834,9 @@ var g = &grammar{
 																													},
 																												},
 																												&andExpr{
-																													pos: position{line: 1181, col: 35, offset: 36599},
+																													pos: position{line: 1180, col: 35, offset: 36537},
 																													expr: &litMatcher{
-																														pos:        position{line: 1181, col: 36, offset: 36600},
+																														pos:        position{line: 1180, col: 36, offset: 36538},
 																														val:        ",",
 																														ignoreCase: false,
 																														want:       "\",\"",
@@ -17893,26 +17849,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1170, col: 45, offset: 36028},
+																							pos: position{line: 1169, col: 45, offset: 35966},
 																							expr: &litMatcher{
-																								pos:        position{line: 1170, col: 45, offset: 36028},
+																								pos:        position{line: 1169, col: 45, offset: 35966},
 																								val:        ",",
 																								ignoreCase: false,
 																								want:       "\",\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1170, col: 50, offset: 36033},
+																							pos:   position{line: 1169, col: 50, offset: 35971},
 																							label: "revdate",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1170, col: 58, offset: 36041},
+																								pos: position{line: 1169, col: 58, offset: 35979},
 																								expr: &actionExpr{
-																									pos: position{line: 1185, col: 25, offset: 36664},
+																									pos: position{line: 1184, col: 25, offset: 36602},
 																									run: (*parser).callonDocumentHeader436,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1185, col: 25, offset: 36664},
+																										pos: position{line: 1184, col: 25, offset: 36602},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1185, col: 25, offset: 36664},
+																											pos:        position{line: 1184, col: 25, offset: 36602},
 																											val:        "[^:\\r\\n]",
 																											chars:      []rune{':', '\r', '\n'},
 																											ignoreCase: false,
@@ -17923,26 +17879,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1170, col: 82, offset: 36065},
+																							pos: position{line: 1169, col: 82, offset: 36003},
 																							expr: &litMatcher{
-																								pos:        position{line: 1170, col: 82, offset: 36065},
+																								pos:        position{line: 1169, col: 82, offset: 36003},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1170, col: 87, offset: 36070},
+																							pos:   position{line: 1169, col: 87, offset: 36008},
 																							label: "revremark",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1170, col: 97, offset: 36080},
+																								pos: position{line: 1169, col: 97, offset: 36018},
 																								expr: &actionExpr{
-																									pos: position{line: 1189, col: 27, offset: 36736},
+																									pos: position{line: 1188, col: 27, offset: 36674},
 																									run: (*parser).callonDocumentHeader443,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1189, col: 27, offset: 36736},
+																										pos: position{line: 1188, col: 27, offset: 36674},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1189, col: 27, offset: 36736},
+																											pos:        position{line: 1188, col: 27, offset: 36674},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -17956,21 +17912,21 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1172, col: 15, offset: 36198},
+																				pos: position{line: 1171, col: 15, offset: 36136},
 																				run: (*parser).callonDocumentHeader446,
 																				expr: &seqExpr{
-																					pos: position{line: 1172, col: 15, offset: 36198},
+																					pos: position{line: 1171, col: 15, offset: 36136},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1172, col: 15, offset: 36198},
+																							pos:   position{line: 1171, col: 15, offset: 36136},
 																							label: "revdate",
 																							expr: &actionExpr{
-																								pos: position{line: 1185, col: 25, offset: 36664},
+																								pos: position{line: 1184, col: 25, offset: 36602},
 																								run: (*parser).callonDocumentHeader449,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1185, col: 25, offset: 36664},
+																									pos: position{line: 1184, col: 25, offset: 36602},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1185, col: 25, offset: 36664},
+																										pos:        position{line: 1184, col: 25, offset: 36602},
 																										val:        "[^:\\r\\n]",
 																										chars:      []rune{':', '\r', '\n'},
 																										ignoreCase: false,
@@ -17980,26 +17936,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1172, col: 46, offset: 36229},
+																							pos: position{line: 1171, col: 46, offset: 36167},
 																							expr: &litMatcher{
-																								pos:        position{line: 1172, col: 46, offset: 36229},
+																								pos:        position{line: 1171, col: 46, offset: 36167},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1172, col: 51, offset: 36234},
+																							pos:   position{line: 1171, col: 51, offset: 36172},
 																							label: "revremark",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1172, col: 61, offset: 36244},
+																								pos: position{line: 1171, col: 61, offset: 36182},
 																								expr: &actionExpr{
-																									pos: position{line: 1189, col: 27, offset: 36736},
+																									pos: position{line: 1188, col: 27, offset: 36674},
 																									run: (*parser).callonDocumentHeader456,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1189, col: 27, offset: 36736},
+																										pos: position{line: 1188, col: 27, offset: 36674},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1189, col: 27, offset: 36736},
+																											pos:        position{line: 1188, col: 27, offset: 36674},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -18016,28 +17972,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91360},
+																	pos: position{line: 2894, col: 8, offset: 91298},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91133},
+																			pos: position{line: 2881, col: 12, offset: 91071},
 																			run: (*parser).callonDocumentHeader460,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91134},
+																				pos: position{line: 2881, col: 13, offset: 91072},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91134},
+																						pos:        position{line: 2881, col: 13, offset: 91072},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91141},
+																						pos:        position{line: 2881, col: 20, offset: 91079},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91150},
+																						pos:        position{line: 2881, col: 29, offset: 91088},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18046,9 +18002,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91310},
+																			pos: position{line: 2891, col: 8, offset: 91248},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91311,
+																				line: 2891, col: 9, offset: 91249,
 																			},
 																		},
 																	},
@@ -18064,40 +18020,40 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1108, col: 5, offset: 34155},
+							pos:   position{line: 1107, col: 5, offset: 34093},
 							label: "extraElements",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1108, col: 19, offset: 34169},
+								pos: position{line: 1107, col: 19, offset: 34107},
 								expr: &choiceExpr{
-									pos: position{line: 1108, col: 20, offset: 34170},
+									pos: position{line: 1107, col: 20, offset: 34108},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 1108, col: 20, offset: 34170},
+											pos:  position{line: 1107, col: 20, offset: 34108},
 											name: "AttributeDeclaration",
 										},
 										&actionExpr{
-											pos: position{line: 360, col: 19, offset: 10911},
+											pos: position{line: 359, col: 19, offset: 10849},
 											run: (*parser).callonDocumentHeader471,
 											expr: &seqExpr{
-												pos: position{line: 360, col: 19, offset: 10911},
+												pos: position{line: 359, col: 19, offset: 10849},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 360, col: 19, offset: 10911},
+														pos:        position{line: 359, col: 19, offset: 10849},
 														val:        ":!",
 														ignoreCase: false,
 														want:       "\":!\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 360, col: 24, offset: 10916},
+														pos:   position{line: 359, col: 24, offset: 10854},
 														label: "name",
 														expr: &actionExpr{
-															pos: position{line: 318, col: 18, offset: 9729},
+															pos: position{line: 317, col: 18, offset: 9667},
 															run: (*parser).callonDocumentHeader475,
 															expr: &seqExpr{
-																pos: position{line: 318, col: 18, offset: 9729},
+																pos: position{line: 317, col: 18, offset: 9667},
 																exprs: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 318, col: 18, offset: 9729},
+																		pos:        position{line: 317, col: 18, offset: 9667},
 																		val:        "[_\\pL\\pN]",
 																		chars:      []rune{'_'},
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -18105,9 +18061,9 @@ var g = &grammar{
 																		inverted:   false,
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 318, col: 28, offset: 9739},
+																		pos: position{line: 317, col: 28, offset: 9677},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 318, col: 29, offset: 9740},
+																			pos:        position{line: 317, col: 29, offset: 9678},
 																			val:        "[_-\\pL\\pN]",
 																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -18120,18 +18076,18 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 360, col: 45, offset: 10937},
+														pos:        position{line: 359, col: 45, offset: 10875},
 														val:        ":",
 														ignoreCase: false,
 														want:       "\":\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 360, col: 49, offset: 10941},
+														pos: position{line: 359, col: 49, offset: 10879},
 														expr: &actionExpr{
-															pos: position{line: 2873, col: 10, offset: 90962},
+															pos: position{line: 2872, col: 10, offset: 90900},
 															run: (*parser).callonDocumentHeader482,
 															expr: &charClassMatcher{
-																pos:        position{line: 2873, col: 10, offset: 90962},
+																pos:        position{line: 2872, col: 10, offset: 90900},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18140,28 +18096,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2895, col: 8, offset: 91360},
+														pos: position{line: 2894, col: 8, offset: 91298},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2882, col: 12, offset: 91133},
+																pos: position{line: 2881, col: 12, offset: 91071},
 																run: (*parser).callonDocumentHeader485,
 																expr: &choiceExpr{
-																	pos: position{line: 2882, col: 13, offset: 91134},
+																	pos: position{line: 2881, col: 13, offset: 91072},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 13, offset: 91134},
+																			pos:        position{line: 2881, col: 13, offset: 91072},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 20, offset: 91141},
+																			pos:        position{line: 2881, col: 20, offset: 91079},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 29, offset: 91150},
+																			pos:        position{line: 2881, col: 29, offset: 91088},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18170,9 +18126,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2892, col: 8, offset: 91310},
+																pos: position{line: 2891, col: 8, offset: 91248},
 																expr: &anyMatcher{
-																	line: 2892, col: 9, offset: 91311,
+																	line: 2891, col: 9, offset: 91249,
 																},
 															},
 														},
@@ -18181,28 +18137,28 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 362, col: 9, offset: 11032},
+											pos: position{line: 361, col: 9, offset: 10970},
 											run: (*parser).callonDocumentHeader492,
 											expr: &seqExpr{
-												pos: position{line: 362, col: 9, offset: 11032},
+												pos: position{line: 361, col: 9, offset: 10970},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 362, col: 9, offset: 11032},
+														pos:        position{line: 361, col: 9, offset: 10970},
 														val:        ":",
 														ignoreCase: false,
 														want:       "\":\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 362, col: 13, offset: 11036},
+														pos:   position{line: 361, col: 13, offset: 10974},
 														label: "name",
 														expr: &actionExpr{
-															pos: position{line: 318, col: 18, offset: 9729},
+															pos: position{line: 317, col: 18, offset: 9667},
 															run: (*parser).callonDocumentHeader496,
 															expr: &seqExpr{
-																pos: position{line: 318, col: 18, offset: 9729},
+																pos: position{line: 317, col: 18, offset: 9667},
 																exprs: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 318, col: 18, offset: 9729},
+																		pos:        position{line: 317, col: 18, offset: 9667},
 																		val:        "[_\\pL\\pN]",
 																		chars:      []rune{'_'},
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -18210,9 +18166,9 @@ var g = &grammar{
 																		inverted:   false,
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 318, col: 28, offset: 9739},
+																		pos: position{line: 317, col: 28, offset: 9677},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 318, col: 29, offset: 9740},
+																			pos:        position{line: 317, col: 29, offset: 9678},
 																			val:        "[_-\\pL\\pN]",
 																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -18225,18 +18181,18 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 362, col: 34, offset: 11057},
+														pos:        position{line: 361, col: 34, offset: 10995},
 														val:        "!:",
 														ignoreCase: false,
 														want:       "\"!:\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 362, col: 39, offset: 11062},
+														pos: position{line: 361, col: 39, offset: 11000},
 														expr: &actionExpr{
-															pos: position{line: 2873, col: 10, offset: 90962},
+															pos: position{line: 2872, col: 10, offset: 90900},
 															run: (*parser).callonDocumentHeader503,
 															expr: &charClassMatcher{
-																pos:        position{line: 2873, col: 10, offset: 90962},
+																pos:        position{line: 2872, col: 10, offset: 90900},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18245,28 +18201,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2895, col: 8, offset: 91360},
+														pos: position{line: 2894, col: 8, offset: 91298},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2882, col: 12, offset: 91133},
+																pos: position{line: 2881, col: 12, offset: 91071},
 																run: (*parser).callonDocumentHeader506,
 																expr: &choiceExpr{
-																	pos: position{line: 2882, col: 13, offset: 91134},
+																	pos: position{line: 2881, col: 13, offset: 91072},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 13, offset: 91134},
+																			pos:        position{line: 2881, col: 13, offset: 91072},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 20, offset: 91141},
+																			pos:        position{line: 2881, col: 20, offset: 91079},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 29, offset: 91150},
+																			pos:        position{line: 2881, col: 29, offset: 91088},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18275,9 +18231,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2892, col: 8, offset: 91310},
+																pos: position{line: 2891, col: 8, offset: 91248},
 																expr: &anyMatcher{
-																	line: 2892, col: 9, offset: 91311,
+																	line: 2891, col: 9, offset: 91249,
 																},
 															},
 														},
@@ -18286,36 +18242,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2480, col: 22, offset: 79848},
+											pos: position{line: 2479, col: 22, offset: 79786},
 											run: (*parser).callonDocumentHeader513,
 											expr: &seqExpr{
-												pos: position{line: 2480, col: 22, offset: 79848},
+												pos: position{line: 2479, col: 22, offset: 79786},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2485, col: 31, offset: 80069},
+														pos:        position{line: 2484, col: 31, offset: 80007},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2485, col: 36, offset: 80074},
+														pos: position{line: 2484, col: 36, offset: 80012},
 														expr: &litMatcher{
-															pos:        position{line: 2485, col: 37, offset: 80075},
+															pos:        position{line: 2484, col: 37, offset: 80013},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2480, col: 49, offset: 79875},
+														pos:   position{line: 2479, col: 49, offset: 79813},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2819, col: 13, offset: 89488},
+															pos: position{line: 2818, col: 13, offset: 89426},
 															run: (*parser).callonDocumentHeader519,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2819, col: 13, offset: 89488},
+																pos: position{line: 2818, col: 13, offset: 89426},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2819, col: 13, offset: 89488},
+																	pos:        position{line: 2818, col: 13, offset: 89426},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -18325,28 +18281,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2895, col: 8, offset: 91360},
+														pos: position{line: 2894, col: 8, offset: 91298},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2882, col: 12, offset: 91133},
+																pos: position{line: 2881, col: 12, offset: 91071},
 																run: (*parser).callonDocumentHeader523,
 																expr: &choiceExpr{
-																	pos: position{line: 2882, col: 13, offset: 91134},
+																	pos: position{line: 2881, col: 13, offset: 91072},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 13, offset: 91134},
+																			pos:        position{line: 2881, col: 13, offset: 91072},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 20, offset: 91141},
+																			pos:        position{line: 2881, col: 20, offset: 91079},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 29, offset: 91150},
+																			pos:        position{line: 2881, col: 29, offset: 91088},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18355,9 +18311,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2892, col: 8, offset: 91310},
+																pos: position{line: 2891, col: 8, offset: 91248},
 																expr: &anyMatcher{
-																	line: 2892, col: 9, offset: 91311,
+																	line: 2891, col: 9, offset: 91249,
 																},
 															},
 														},
@@ -18366,36 +18322,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 820, col: 5, offset: 26398},
+											pos: position{line: 819, col: 5, offset: 26336},
 											run: (*parser).callonDocumentHeader530,
 											expr: &seqExpr{
-												pos: position{line: 820, col: 5, offset: 26398},
+												pos: position{line: 819, col: 5, offset: 26336},
 												exprs: []interface{}{
 													&actionExpr{
-														pos: position{line: 740, col: 5, offset: 23653},
+														pos: position{line: 739, col: 5, offset: 23591},
 														run: (*parser).callonDocumentHeader532,
 														expr: &seqExpr{
-															pos: position{line: 740, col: 5, offset: 23653},
+															pos: position{line: 739, col: 5, offset: 23591},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 740, col: 5, offset: 23653},
+																	pos:   position{line: 739, col: 5, offset: 23591},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 740, col: 16, offset: 23664},
+																		pos: position{line: 739, col: 16, offset: 23602},
 																		run: (*parser).callonDocumentHeader535,
 																		expr: &seqExpr{
-																			pos: position{line: 740, col: 16, offset: 23664},
+																			pos: position{line: 739, col: 16, offset: 23602},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 740, col: 16, offset: 23664},
+																					pos:        position{line: 739, col: 16, offset: 23602},
 																					val:        "////",
 																					ignoreCase: false,
 																					want:       "\"////\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 740, col: 23, offset: 23671},
+																					pos: position{line: 739, col: 23, offset: 23609},
 																					expr: &litMatcher{
-																						pos:        position{line: 740, col: 23, offset: 23671},
+																						pos:        position{line: 739, col: 23, offset: 23609},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
@@ -18406,12 +18362,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 742, col: 8, offset: 23755},
+																	pos: position{line: 741, col: 8, offset: 23693},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90962},
+																		pos: position{line: 2872, col: 10, offset: 90900},
 																		run: (*parser).callonDocumentHeader541,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90962},
+																			pos:        position{line: 2872, col: 10, offset: 90900},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18420,28 +18376,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91360},
+																	pos: position{line: 2894, col: 8, offset: 91298},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91133},
+																			pos: position{line: 2881, col: 12, offset: 91071},
 																			run: (*parser).callonDocumentHeader544,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91134},
+																				pos: position{line: 2881, col: 13, offset: 91072},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91134},
+																						pos:        position{line: 2881, col: 13, offset: 91072},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91141},
+																						pos:        position{line: 2881, col: 20, offset: 91079},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91150},
+																						pos:        position{line: 2881, col: 29, offset: 91088},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18450,9 +18406,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91310},
+																			pos: position{line: 2891, col: 8, offset: 91248},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91311,
+																				line: 2891, col: 9, offset: 91249,
 																			},
 																		},
 																	},
@@ -18461,46 +18417,46 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 821, col: 5, offset: 26429},
+														pos:   position{line: 820, col: 5, offset: 26367},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 831, col: 5, offset: 26715},
+															pos: position{line: 830, col: 5, offset: 26653},
 															expr: &actionExpr{
-																pos: position{line: 831, col: 6, offset: 26716},
+																pos: position{line: 830, col: 6, offset: 26654},
 																run: (*parser).callonDocumentHeader553,
 																expr: &seqExpr{
-																	pos: position{line: 831, col: 6, offset: 26716},
+																	pos: position{line: 830, col: 6, offset: 26654},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 831, col: 6, offset: 26716},
+																			pos: position{line: 830, col: 6, offset: 26654},
 																			expr: &choiceExpr{
-																				pos: position{line: 828, col: 29, offset: 26658},
+																				pos: position{line: 827, col: 29, offset: 26596},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 740, col: 5, offset: 23653},
+																						pos: position{line: 739, col: 5, offset: 23591},
 																						run: (*parser).callonDocumentHeader557,
 																						expr: &seqExpr{
-																							pos: position{line: 740, col: 5, offset: 23653},
+																							pos: position{line: 739, col: 5, offset: 23591},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 740, col: 5, offset: 23653},
+																									pos:   position{line: 739, col: 5, offset: 23591},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 740, col: 16, offset: 23664},
+																										pos: position{line: 739, col: 16, offset: 23602},
 																										run: (*parser).callonDocumentHeader560,
 																										expr: &seqExpr{
-																											pos: position{line: 740, col: 16, offset: 23664},
+																											pos: position{line: 739, col: 16, offset: 23602},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 740, col: 16, offset: 23664},
+																													pos:        position{line: 739, col: 16, offset: 23602},
 																													val:        "////",
 																													ignoreCase: false,
 																													want:       "\"////\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 740, col: 23, offset: 23671},
+																													pos: position{line: 739, col: 23, offset: 23609},
 																													expr: &litMatcher{
-																														pos:        position{line: 740, col: 23, offset: 23671},
+																														pos:        position{line: 739, col: 23, offset: 23609},
 																														val:        "/",
 																														ignoreCase: false,
 																														want:       "\"/\"",
@@ -18511,12 +18467,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 742, col: 8, offset: 23755},
+																									pos: position{line: 741, col: 8, offset: 23693},
 																									expr: &actionExpr{
-																										pos: position{line: 2873, col: 10, offset: 90962},
+																										pos: position{line: 2872, col: 10, offset: 90900},
 																										run: (*parser).callonDocumentHeader566,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2873, col: 10, offset: 90962},
+																											pos:        position{line: 2872, col: 10, offset: 90900},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -18525,28 +18481,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2895, col: 8, offset: 91360},
+																									pos: position{line: 2894, col: 8, offset: 91298},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2882, col: 12, offset: 91133},
+																											pos: position{line: 2881, col: 12, offset: 91071},
 																											run: (*parser).callonDocumentHeader569,
 																											expr: &choiceExpr{
-																												pos: position{line: 2882, col: 13, offset: 91134},
+																												pos: position{line: 2881, col: 13, offset: 91072},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 13, offset: 91134},
+																														pos:        position{line: 2881, col: 13, offset: 91072},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 20, offset: 91141},
+																														pos:        position{line: 2881, col: 20, offset: 91079},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 29, offset: 91150},
+																														pos:        position{line: 2881, col: 29, offset: 91088},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -18555,9 +18511,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2892, col: 8, offset: 91310},
+																											pos: position{line: 2891, col: 8, offset: 91248},
 																											expr: &anyMatcher{
-																												line: 2892, col: 9, offset: 91311,
+																												line: 2891, col: 9, offset: 91249,
 																											},
 																										},
 																									},
@@ -18566,39 +18522,39 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91310},
+																						pos: position{line: 2891, col: 8, offset: 91248},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91311,
+																							line: 2891, col: 9, offset: 91249,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 832, col: 5, offset: 26746},
+																			pos:   position{line: 831, col: 5, offset: 26684},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26162},
+																				pos: position{line: 810, col: 5, offset: 26100},
 																				run: (*parser).callonDocumentHeader579,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26162},
+																					pos: position{line: 810, col: 5, offset: 26100},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2890, col: 11, offset: 91296},
+																							pos: position{line: 2889, col: 11, offset: 91234},
 																							expr: &anyMatcher{
-																								line: 2890, col: 13, offset: 91298,
+																								line: 2889, col: 13, offset: 91236,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26237},
+																							pos:   position{line: 811, col: 5, offset: 26175},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2819, col: 13, offset: 89488},
+																								pos: position{line: 2818, col: 13, offset: 89426},
 																								run: (*parser).callonDocumentHeader584,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2819, col: 13, offset: 89488},
+																									pos: position{line: 2818, col: 13, offset: 89426},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2819, col: 13, offset: 89488},
+																										pos:        position{line: 2818, col: 13, offset: 89426},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -18608,28 +18564,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91360},
+																							pos: position{line: 2894, col: 8, offset: 91298},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91133},
+																									pos: position{line: 2881, col: 12, offset: 91071},
 																									run: (*parser).callonDocumentHeader588,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91134},
+																										pos: position{line: 2881, col: 13, offset: 91072},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91134},
+																												pos:        position{line: 2881, col: 13, offset: 91072},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91141},
+																												pos:        position{line: 2881, col: 20, offset: 91079},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91150},
+																												pos:        position{line: 2881, col: 29, offset: 91088},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -18638,9 +18594,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91310},
+																									pos: position{line: 2891, col: 8, offset: 91248},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91311,
+																										line: 2891, col: 9, offset: 91249,
 																									},
 																								},
 																							},
@@ -18655,35 +18611,35 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 822, col: 5, offset: 26463},
+														pos: position{line: 821, col: 5, offset: 26401},
 														expr: &choiceExpr{
-															pos: position{line: 828, col: 29, offset: 26658},
+															pos: position{line: 827, col: 29, offset: 26596},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 740, col: 5, offset: 23653},
+																	pos: position{line: 739, col: 5, offset: 23591},
 																	run: (*parser).callonDocumentHeader597,
 																	expr: &seqExpr{
-																		pos: position{line: 740, col: 5, offset: 23653},
+																		pos: position{line: 739, col: 5, offset: 23591},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 740, col: 5, offset: 23653},
+																				pos:   position{line: 739, col: 5, offset: 23591},
 																				label: "delimiter",
 																				expr: &actionExpr{
-																					pos: position{line: 740, col: 16, offset: 23664},
+																					pos: position{line: 739, col: 16, offset: 23602},
 																					run: (*parser).callonDocumentHeader600,
 																					expr: &seqExpr{
-																						pos: position{line: 740, col: 16, offset: 23664},
+																						pos: position{line: 739, col: 16, offset: 23602},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 740, col: 16, offset: 23664},
+																								pos:        position{line: 739, col: 16, offset: 23602},
 																								val:        "////",
 																								ignoreCase: false,
 																								want:       "\"////\"",
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 740, col: 23, offset: 23671},
+																								pos: position{line: 739, col: 23, offset: 23609},
 																								expr: &litMatcher{
-																									pos:        position{line: 740, col: 23, offset: 23671},
+																									pos:        position{line: 739, col: 23, offset: 23609},
 																									val:        "/",
 																									ignoreCase: false,
 																									want:       "\"/\"",
@@ -18694,12 +18650,12 @@ var g = &grammar{
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 742, col: 8, offset: 23755},
+																				pos: position{line: 741, col: 8, offset: 23693},
 																				expr: &actionExpr{
-																					pos: position{line: 2873, col: 10, offset: 90962},
+																					pos: position{line: 2872, col: 10, offset: 90900},
 																					run: (*parser).callonDocumentHeader606,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2873, col: 10, offset: 90962},
+																						pos:        position{line: 2872, col: 10, offset: 90900},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -18708,28 +18664,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2895, col: 8, offset: 91360},
+																				pos: position{line: 2894, col: 8, offset: 91298},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2882, col: 12, offset: 91133},
+																						pos: position{line: 2881, col: 12, offset: 91071},
 																						run: (*parser).callonDocumentHeader609,
 																						expr: &choiceExpr{
-																							pos: position{line: 2882, col: 13, offset: 91134},
+																							pos: position{line: 2881, col: 13, offset: 91072},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 13, offset: 91134},
+																									pos:        position{line: 2881, col: 13, offset: 91072},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 20, offset: 91141},
+																									pos:        position{line: 2881, col: 20, offset: 91079},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 29, offset: 91150},
+																									pos:        position{line: 2881, col: 29, offset: 91088},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -18738,9 +18694,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91310},
+																						pos: position{line: 2891, col: 8, offset: 91248},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91311,
+																							line: 2891, col: 9, offset: 91249,
 																						},
 																					},
 																				},
@@ -18749,9 +18705,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2892, col: 8, offset: 91310},
+																	pos: position{line: 2891, col: 8, offset: 91248},
 																	expr: &anyMatcher{
-																		line: 2892, col: 9, offset: 91311,
+																		line: 2891, col: 9, offset: 91249,
 																	},
 																},
 															},
@@ -18770,26 +18726,26 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentTitle",
-			pos:  position{line: 1112, col: 1, offset: 34367},
+			pos:  position{line: 1111, col: 1, offset: 34305},
 			expr: &actionExpr{
-				pos: position{line: 1113, col: 5, offset: 34389},
+				pos: position{line: 1112, col: 5, offset: 34327},
 				run: (*parser).callonDocumentTitle1,
 				expr: &seqExpr{
-					pos: position{line: 1113, col: 5, offset: 34389},
+					pos: position{line: 1112, col: 5, offset: 34327},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1113, col: 5, offset: 34389},
+							pos:        position{line: 1112, col: 5, offset: 34327},
 							val:        "=",
 							ignoreCase: false,
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2877, col: 11, offset: 91023},
+							pos: position{line: 2876, col: 11, offset: 90961},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2877, col: 11, offset: 91023},
+								pos: position{line: 2876, col: 11, offset: 90961},
 								expr: &charClassMatcher{
-									pos:        position{line: 2877, col: 11, offset: 91023},
+									pos:        position{line: 2876, col: 11, offset: 90961},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18798,36 +18754,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1113, col: 16, offset: 34400},
+							pos:   position{line: 1112, col: 16, offset: 34338},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1113, col: 23, offset: 34407},
+								pos:  position{line: 1112, col: 23, offset: 34345},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2895, col: 8, offset: 91360},
+							pos: position{line: 2894, col: 8, offset: 91298},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2882, col: 12, offset: 91133},
+									pos: position{line: 2881, col: 12, offset: 91071},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2882, col: 13, offset: 91134},
+										pos: position{line: 2881, col: 13, offset: 91072},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2882, col: 13, offset: 91134},
+												pos:        position{line: 2881, col: 13, offset: 91072},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 20, offset: 91141},
+												pos:        position{line: 2881, col: 20, offset: 91079},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 29, offset: 91150},
+												pos:        position{line: 2881, col: 29, offset: 91088},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -18836,9 +18792,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2892, col: 8, offset: 91310},
+									pos: position{line: 2891, col: 8, offset: 91248},
 									expr: &anyMatcher{
-										line: 2892, col: 9, offset: 91311,
+										line: 2891, col: 9, offset: 91249,
 									},
 								},
 							},
@@ -18849,23 +18805,23 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentAuthorFullName",
-			pos:  position{line: 1140, col: 1, offset: 35247},
+			pos:  position{line: 1139, col: 1, offset: 35185},
 			expr: &actionExpr{
-				pos: position{line: 1141, col: 5, offset: 35278},
+				pos: position{line: 1140, col: 5, offset: 35216},
 				run: (*parser).callonDocumentAuthorFullName1,
 				expr: &seqExpr{
-					pos: position{line: 1141, col: 5, offset: 35278},
+					pos: position{line: 1140, col: 5, offset: 35216},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1141, col: 5, offset: 35278},
+							pos:   position{line: 1140, col: 5, offset: 35216},
 							label: "part1",
 							expr: &actionExpr{
-								pos: position{line: 1141, col: 12, offset: 35285},
+								pos: position{line: 1140, col: 12, offset: 35223},
 								run: (*parser).callonDocumentAuthorFullName4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1141, col: 12, offset: 35285},
+									pos: position{line: 1140, col: 12, offset: 35223},
 									expr: &charClassMatcher{
-										pos:        position{line: 1141, col: 12, offset: 35285},
+										pos:        position{line: 1140, col: 12, offset: 35223},
 										val:        "[^<;\\r\\n ]",
 										chars:      []rune{'<', ';', '\r', '\n', ' '},
 										ignoreCase: false,
@@ -18875,12 +18831,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1144, col: 5, offset: 35365},
+							pos: position{line: 1143, col: 5, offset: 35303},
 							expr: &actionExpr{
-								pos: position{line: 2873, col: 10, offset: 90962},
+								pos: position{line: 2872, col: 10, offset: 90900},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2873, col: 10, offset: 90962},
+									pos:        position{line: 2872, col: 10, offset: 90900},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18889,17 +18845,17 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1145, col: 5, offset: 35376},
+							pos:   position{line: 1144, col: 5, offset: 35314},
 							label: "part2",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1145, col: 11, offset: 35382},
+								pos: position{line: 1144, col: 11, offset: 35320},
 								expr: &actionExpr{
-									pos: position{line: 1145, col: 12, offset: 35383},
+									pos: position{line: 1144, col: 12, offset: 35321},
 									run: (*parser).callonDocumentAuthorFullName12,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1145, col: 12, offset: 35383},
+										pos: position{line: 1144, col: 12, offset: 35321},
 										expr: &charClassMatcher{
-											pos:        position{line: 1145, col: 12, offset: 35383},
+											pos:        position{line: 1144, col: 12, offset: 35321},
 											val:        "[^<;\\r\\n ]",
 											chars:      []rune{'<', ';', '\r', '\n', ' '},
 											ignoreCase: false,
@@ -18910,12 +18866,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1148, col: 5, offset: 35464},
+							pos: position{line: 1147, col: 5, offset: 35402},
 							expr: &actionExpr{
-								pos: position{line: 2873, col: 10, offset: 90962},
+								pos: position{line: 2872, col: 10, offset: 90900},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2873, col: 10, offset: 90962},
+									pos:        position{line: 2872, col: 10, offset: 90900},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18924,17 +18880,17 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1149, col: 5, offset: 35475},
+							pos:   position{line: 1148, col: 5, offset: 35413},
 							label: "part3",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1149, col: 11, offset: 35481},
+								pos: position{line: 1148, col: 11, offset: 35419},
 								expr: &actionExpr{
-									pos: position{line: 1149, col: 12, offset: 35482},
+									pos: position{line: 1148, col: 12, offset: 35420},
 									run: (*parser).callonDocumentAuthorFullName20,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1149, col: 12, offset: 35482},
+										pos: position{line: 1148, col: 12, offset: 35420},
 										expr: &charClassMatcher{
-											pos:        position{line: 1149, col: 12, offset: 35482},
+											pos:        position{line: 1148, col: 12, offset: 35420},
 											val:        "[^<;\\r\\n]",
 											chars:      []rune{'<', ';', '\r', '\n'},
 											ignoreCase: false,
@@ -18945,12 +18901,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1152, col: 5, offset: 35561},
+							pos: position{line: 1151, col: 5, offset: 35499},
 							expr: &actionExpr{
-								pos: position{line: 2873, col: 10, offset: 90962},
+								pos: position{line: 2872, col: 10, offset: 90900},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2873, col: 10, offset: 90962},
+									pos:        position{line: 2872, col: 10, offset: 90900},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18964,28 +18920,28 @@ var g = &grammar{
 		},
 		{
 			name: "InlineButton",
-			pos:  position{line: 1265, col: 1, offset: 39290},
+			pos:  position{line: 1264, col: 1, offset: 39228},
 			expr: &actionExpr{
-				pos: position{line: 1266, col: 5, offset: 39311},
+				pos: position{line: 1265, col: 5, offset: 39249},
 				run: (*parser).callonInlineButton1,
 				expr: &seqExpr{
-					pos: position{line: 1266, col: 5, offset: 39311},
+					pos: position{line: 1265, col: 5, offset: 39249},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1266, col: 5, offset: 39311},
+							pos: position{line: 1265, col: 5, offset: 39249},
 							run: (*parser).callonInlineButton3,
 						},
 						&litMatcher{
-							pos:        position{line: 1269, col: 5, offset: 39370},
+							pos:        position{line: 1268, col: 5, offset: 39308},
 							val:        "btn:",
 							ignoreCase: false,
 							want:       "\"btn:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1269, col: 12, offset: 39377},
+							pos:   position{line: 1268, col: 12, offset: 39315},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1269, col: 24, offset: 39389},
+								pos:  position{line: 1268, col: 24, offset: 39327},
 								name: "InlineAttributes",
 							},
 						},
@@ -18995,33 +18951,33 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMenu",
-			pos:  position{line: 1276, col: 1, offset: 39677},
+			pos:  position{line: 1275, col: 1, offset: 39615},
 			expr: &actionExpr{
-				pos: position{line: 1277, col: 5, offset: 39696},
+				pos: position{line: 1276, col: 5, offset: 39634},
 				run: (*parser).callonInlineMenu1,
 				expr: &seqExpr{
-					pos: position{line: 1277, col: 5, offset: 39696},
+					pos: position{line: 1276, col: 5, offset: 39634},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1277, col: 5, offset: 39696},
+							pos: position{line: 1276, col: 5, offset: 39634},
 							run: (*parser).callonInlineMenu3,
 						},
 						&litMatcher{
-							pos:        position{line: 1280, col: 5, offset: 39755},
+							pos:        position{line: 1279, col: 5, offset: 39693},
 							val:        "menu:",
 							ignoreCase: false,
 							want:       "\"menu:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1280, col: 13, offset: 39763},
+							pos:   position{line: 1279, col: 13, offset: 39701},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2858, col: 7, offset: 90614},
+								pos: position{line: 2857, col: 7, offset: 90552},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2858, col: 7, offset: 90614},
+									pos: position{line: 2857, col: 7, offset: 90552},
 									expr: &charClassMatcher{
-										pos:        position{line: 2858, col: 7, offset: 90614},
+										pos:        position{line: 2857, col: 7, offset: 90552},
 										val:        "[^[]<>,\\r\\n]",
 										chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 										ignoreCase: false,
@@ -19031,10 +18987,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1280, col: 21, offset: 39771},
+							pos:   position{line: 1279, col: 21, offset: 39709},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1280, col: 33, offset: 39783},
+								pos:  position{line: 1279, col: 33, offset: 39721},
 								name: "InlineAttributes",
 							},
 						},
@@ -19044,29 +19000,29 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTerm",
-			pos:  position{line: 1287, col: 1, offset: 40082},
+			pos:  position{line: 1286, col: 1, offset: 40020},
 			expr: &actionExpr{
-				pos: position{line: 1287, col: 14, offset: 40095},
+				pos: position{line: 1286, col: 14, offset: 40033},
 				run: (*parser).callonIndexTerm1,
 				expr: &seqExpr{
-					pos: position{line: 1287, col: 14, offset: 40095},
+					pos: position{line: 1286, col: 14, offset: 40033},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1287, col: 14, offset: 40095},
+							pos:        position{line: 1286, col: 14, offset: 40033},
 							val:        "((",
 							ignoreCase: false,
 							want:       "\"((\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1287, col: 19, offset: 40100},
+							pos:   position{line: 1286, col: 19, offset: 40038},
 							label: "term",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1287, col: 25, offset: 40106},
+								pos:  position{line: 1286, col: 25, offset: 40044},
 								name: "IndexTermContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1287, col: 43, offset: 40124},
+							pos:        position{line: 1286, col: 43, offset: 40062},
 							val:        "))",
 							ignoreCase: false,
 							want:       "\"))\"",
@@ -19077,25 +19033,25 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTermContent",
-			pos:  position{line: 1291, col: 1, offset: 40193},
+			pos:  position{line: 1290, col: 1, offset: 40131},
 			expr: &actionExpr{
-				pos: position{line: 1291, col: 21, offset: 40213},
+				pos: position{line: 1290, col: 21, offset: 40151},
 				run: (*parser).callonIndexTermContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 1291, col: 21, offset: 40213},
+					pos:   position{line: 1290, col: 21, offset: 40151},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 1291, col: 30, offset: 40222},
+						pos: position{line: 1290, col: 30, offset: 40160},
 						expr: &choiceExpr{
-							pos: position{line: 1291, col: 31, offset: 40223},
+							pos: position{line: 1290, col: 31, offset: 40161},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2767, col: 14, offset: 88110},
+									pos: position{line: 2766, col: 14, offset: 88048},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2767, col: 14, offset: 88110},
+										pos: position{line: 2766, col: 14, offset: 88048},
 										expr: &charClassMatcher{
-											pos:        position{line: 2767, col: 14, offset: 88110},
+											pos:        position{line: 2766, col: 14, offset: 88048},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -19104,14 +19060,14 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 1291, col: 43, offset: 40235},
+									pos:  position{line: 1290, col: 43, offset: 40173},
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2873, col: 10, offset: 90962},
+									pos: position{line: 2872, col: 10, offset: 90900},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2873, col: 10, offset: 90962},
+										pos:        position{line: 2872, col: 10, offset: 90900},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -19119,23 +19075,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2467, col: 5, offset: 79394},
+									pos: position{line: 2466, col: 5, offset: 79332},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2467, col: 5, offset: 79394},
+										pos: position{line: 2466, col: 5, offset: 79332},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2467, col: 5, offset: 79394},
+												pos: position{line: 2466, col: 5, offset: 79332},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2470, col: 5, offset: 79470},
+												pos:   position{line: 2469, col: 5, offset: 79408},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2471, col: 9, offset: 79488},
+													pos: position{line: 2470, col: 9, offset: 79426},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2471, col: 10, offset: 79489},
+														pos:        position{line: 2470, col: 10, offset: 79427},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -19147,27 +19103,27 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1198, col: 23, offset: 37046},
+									pos: position{line: 1197, col: 23, offset: 36984},
 									run: (*parser).callonIndexTermContent17,
 									expr: &seqExpr{
-										pos: position{line: 1198, col: 23, offset: 37046},
+										pos: position{line: 1197, col: 23, offset: 36984},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 1196, col: 32, offset: 37014},
+												pos:        position{line: 1195, col: 32, offset: 36952},
 												val:        "�",
 												ignoreCase: false,
 												want:       "\"�\"",
 											},
 											&labeledExpr{
-												pos:   position{line: 1198, col: 51, offset: 37074},
+												pos:   position{line: 1197, col: 51, offset: 37012},
 												label: "ref",
 												expr: &actionExpr{
-													pos: position{line: 1198, col: 56, offset: 37079},
+													pos: position{line: 1197, col: 56, offset: 37017},
 													run: (*parser).callonIndexTermContent21,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1198, col: 56, offset: 37079},
+														pos: position{line: 1197, col: 56, offset: 37017},
 														expr: &charClassMatcher{
-															pos:        position{line: 1198, col: 56, offset: 37079},
+															pos:        position{line: 1197, col: 56, offset: 37017},
 															val:        "[0-9]",
 															ranges:     []rune{'0', '9'},
 															ignoreCase: false,
@@ -19177,7 +19133,7 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 1196, col: 32, offset: 37014},
+												pos:        position{line: 1195, col: 32, offset: 36952},
 												val:        "�",
 												ignoreCase: false,
 												want:       "\"�\"",
@@ -19186,22 +19142,22 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1291, col: 104, offset: 40296},
+									pos: position{line: 1290, col: 104, offset: 40234},
 									run: (*parser).callonIndexTermContent25,
 									expr: &seqExpr{
-										pos: position{line: 1291, col: 105, offset: 40297},
+										pos: position{line: 1290, col: 105, offset: 40235},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1291, col: 105, offset: 40297},
+												pos: position{line: 1290, col: 105, offset: 40235},
 												expr: &litMatcher{
-													pos:        position{line: 1291, col: 106, offset: 40298},
+													pos:        position{line: 1290, col: 106, offset: 40236},
 													val:        "))",
 													ignoreCase: false,
 													want:       "\"))\"",
 												},
 											},
 											&anyMatcher{
-												line: 1291, col: 111, offset: 40303,
+												line: 1290, col: 111, offset: 40241,
 											},
 										},
 									},
@@ -19214,21 +19170,21 @@ var g = &grammar{
 		},
 		{
 			name: "ImageBlock",
-			pos:  position{line: 1311, col: 1, offset: 41012},
+			pos:  position{line: 1310, col: 1, offset: 40950},
 			expr: &actionExpr{
-				pos: position{line: 1312, col: 5, offset: 41031},
+				pos: position{line: 1311, col: 5, offset: 40969},
 				run: (*parser).callonImageBlock1,
 				expr: &seqExpr{
-					pos: position{line: 1312, col: 5, offset: 41031},
+					pos: position{line: 1311, col: 5, offset: 40969},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1312, col: 5, offset: 41031},
+							pos:   position{line: 1311, col: 5, offset: 40969},
 							label: "start",
 							expr: &actionExpr{
-								pos: position{line: 2898, col: 16, offset: 91484},
+								pos: position{line: 2897, col: 16, offset: 91422},
 								run: (*parser).callonImageBlock4,
 								expr: &litMatcher{
-									pos:        position{line: 2898, col: 16, offset: 91484},
+									pos:        position{line: 2897, col: 16, offset: 91422},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -19236,57 +19192,57 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1312, col: 25, offset: 41051},
+							pos:        position{line: 1311, col: 25, offset: 40989},
 							val:        "image::",
 							ignoreCase: false,
 							want:       "\"image::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1312, col: 35, offset: 41061},
+							pos:   position{line: 1311, col: 35, offset: 40999},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2831, col: 13, offset: 89721},
+								pos: position{line: 2830, col: 13, offset: 89659},
 								run: (*parser).callonImageBlock8,
 								expr: &seqExpr{
-									pos: position{line: 2831, col: 13, offset: 89721},
+									pos: position{line: 2830, col: 13, offset: 89659},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2831, col: 13, offset: 89721},
+											pos:   position{line: 2830, col: 13, offset: 89659},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2831, col: 20, offset: 89728},
+												pos: position{line: 2830, col: 20, offset: 89666},
 												expr: &actionExpr{
-													pos: position{line: 2839, col: 11, offset: 89967},
+													pos: position{line: 2838, col: 11, offset: 89905},
 													run: (*parser).callonImageBlock12,
 													expr: &choiceExpr{
-														pos: position{line: 2839, col: 12, offset: 89968},
+														pos: position{line: 2838, col: 12, offset: 89906},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2839, col: 12, offset: 89968},
+																pos:        position{line: 2838, col: 12, offset: 89906},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2839, col: 24, offset: 89980},
+																pos:        position{line: 2838, col: 24, offset: 89918},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2839, col: 37, offset: 89993},
+																pos:        position{line: 2838, col: 37, offset: 89931},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2839, col: 48, offset: 90004},
+																pos:        position{line: 2838, col: 48, offset: 89942},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2839, col: 59, offset: 90015},
+																pos:        position{line: 2838, col: 59, offset: 89953},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19297,38 +19253,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2831, col: 30, offset: 89738},
+											pos:   position{line: 2830, col: 30, offset: 89676},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2844, col: 5, offset: 90079},
+												pos: position{line: 2843, col: 5, offset: 90017},
 												run: (*parser).callonImageBlock20,
 												expr: &labeledExpr{
-													pos:   position{line: 2844, col: 5, offset: 90079},
+													pos:   position{line: 2843, col: 5, offset: 90017},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2844, col: 14, offset: 90088},
+														pos: position{line: 2843, col: 14, offset: 90026},
 														expr: &choiceExpr{
-															pos: position{line: 2845, col: 9, offset: 90098},
+															pos: position{line: 2844, col: 9, offset: 90036},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2845, col: 9, offset: 90098},
+																	pos: position{line: 2844, col: 9, offset: 90036},
 																	run: (*parser).callonImageBlock24,
 																	expr: &seqExpr{
-																		pos: position{line: 2845, col: 9, offset: 90098},
+																		pos: position{line: 2844, col: 9, offset: 90036},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2845, col: 9, offset: 90098},
+																				pos: position{line: 2844, col: 9, offset: 90036},
 																				expr: &litMatcher{
-																					pos:        position{line: 2845, col: 10, offset: 90099},
+																					pos:        position{line: 2844, col: 10, offset: 90037},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2846, col: 9, offset: 90127},
+																				pos: position{line: 2845, col: 9, offset: 90065},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2846, col: 10, offset: 90128},
+																					pos:        position{line: 2845, col: 10, offset: 90066},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19339,27 +19295,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2849, col: 11, offset: 90340},
+																	pos: position{line: 2848, col: 11, offset: 90278},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2849, col: 11, offset: 90340},
+																			pos:        position{line: 2848, col: 11, offset: 90278},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2849, col: 19, offset: 90348},
+																			pos: position{line: 2848, col: 19, offset: 90286},
 																			expr: &seqExpr{
-																				pos: position{line: 2849, col: 21, offset: 90350},
+																				pos: position{line: 2848, col: 21, offset: 90288},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2849, col: 21, offset: 90350},
+																						pos: position{line: 2848, col: 21, offset: 90288},
 																						expr: &actionExpr{
-																							pos: position{line: 2873, col: 10, offset: 90962},
+																							pos: position{line: 2872, col: 10, offset: 90900},
 																							run: (*parser).callonImageBlock35,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2873, col: 10, offset: 90962},
+																								pos:        position{line: 2872, col: 10, offset: 90900},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19368,11 +19324,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2849, col: 28, offset: 90357},
+																						pos: position{line: 2848, col: 28, offset: 90295},
 																						expr: &notExpr{
-																							pos: position{line: 2892, col: 8, offset: 91310},
+																							pos: position{line: 2891, col: 8, offset: 91248},
 																							expr: &anyMatcher{
-																								line: 2892, col: 9, offset: 91311,
+																								line: 2891, col: 9, offset: 91249,
 																							},
 																						},
 																					},
@@ -19382,44 +19338,44 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 636, col: 5, offset: 20178},
+																	pos: position{line: 635, col: 5, offset: 20116},
 																	run: (*parser).callonImageBlock40,
 																	expr: &seqExpr{
-																		pos: position{line: 636, col: 5, offset: 20178},
+																		pos: position{line: 635, col: 5, offset: 20116},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 636, col: 5, offset: 20178},
+																				pos: position{line: 635, col: 5, offset: 20116},
 																				run: (*parser).callonImageBlock42,
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 639, col: 5, offset: 20250},
+																				pos:   position{line: 638, col: 5, offset: 20188},
 																				label: "element",
 																				expr: &choiceExpr{
-																					pos: position{line: 639, col: 14, offset: 20259},
+																					pos: position{line: 638, col: 14, offset: 20197},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 645, col: 5, offset: 20388},
+																							pos: position{line: 644, col: 5, offset: 20326},
 																							run: (*parser).callonImageBlock45,
 																							expr: &seqExpr{
-																								pos: position{line: 645, col: 5, offset: 20388},
+																								pos: position{line: 644, col: 5, offset: 20326},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 645, col: 5, offset: 20388},
+																										pos:        position{line: 644, col: 5, offset: 20326},
 																										val:        "\\{",
 																										ignoreCase: false,
 																										want:       "\"\\\\{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 645, col: 13, offset: 20396},
+																										pos:   position{line: 644, col: 13, offset: 20334},
 																										label: "name",
 																										expr: &actionExpr{
-																											pos: position{line: 318, col: 18, offset: 9729},
+																											pos: position{line: 317, col: 18, offset: 9667},
 																											run: (*parser).callonImageBlock49,
 																											expr: &seqExpr{
-																												pos: position{line: 318, col: 18, offset: 9729},
+																												pos: position{line: 317, col: 18, offset: 9667},
 																												exprs: []interface{}{
 																													&charClassMatcher{
-																														pos:        position{line: 318, col: 18, offset: 9729},
+																														pos:        position{line: 317, col: 18, offset: 9667},
 																														val:        "[_\\pL\\pN]",
 																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -19427,9 +19383,9 @@ var g = &grammar{
 																														inverted:   false,
 																													},
 																													&zeroOrMoreExpr{
-																														pos: position{line: 318, col: 28, offset: 9739},
+																														pos: position{line: 317, col: 28, offset: 9677},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9740},
+																															pos:        position{line: 317, col: 29, offset: 9678},
 																															val:        "[_-\\pL\\pN]",
 																															chars:      []rune{'_', '-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -19442,7 +19398,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 645, col: 32, offset: 20415},
+																										pos:        position{line: 644, col: 32, offset: 20353},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -19451,28 +19407,28 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 652, col: 5, offset: 20656},
+																							pos: position{line: 651, col: 5, offset: 20594},
 																							run: (*parser).callonImageBlock55,
 																							expr: &seqExpr{
-																								pos: position{line: 652, col: 5, offset: 20656},
+																								pos: position{line: 651, col: 5, offset: 20594},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 652, col: 5, offset: 20656},
+																										pos:        position{line: 651, col: 5, offset: 20594},
 																										val:        "{",
 																										ignoreCase: false,
 																										want:       "\"{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 652, col: 9, offset: 20660},
+																										pos:   position{line: 651, col: 9, offset: 20598},
 																										label: "name",
 																										expr: &actionExpr{
-																											pos: position{line: 318, col: 18, offset: 9729},
+																											pos: position{line: 317, col: 18, offset: 9667},
 																											run: (*parser).callonImageBlock59,
 																											expr: &seqExpr{
-																												pos: position{line: 318, col: 18, offset: 9729},
+																												pos: position{line: 317, col: 18, offset: 9667},
 																												exprs: []interface{}{
 																													&charClassMatcher{
-																														pos:        position{line: 318, col: 18, offset: 9729},
+																														pos:        position{line: 317, col: 18, offset: 9667},
 																														val:        "[_\\pL\\pN]",
 																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -19480,9 +19436,9 @@ var g = &grammar{
 																														inverted:   false,
 																													},
 																													&zeroOrMoreExpr{
-																														pos: position{line: 318, col: 28, offset: 9739},
+																														pos: position{line: 317, col: 28, offset: 9677},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9740},
+																															pos:        position{line: 317, col: 29, offset: 9678},
 																															val:        "[_-\\pL\\pN]",
 																															chars:      []rune{'_', '-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -19495,7 +19451,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 652, col: 28, offset: 20679},
+																										pos:        position{line: 651, col: 28, offset: 20617},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -19504,28 +19460,28 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 658, col: 25, offset: 20860},
+																							pos: position{line: 657, col: 25, offset: 20798},
 																							run: (*parser).callonImageBlock65,
 																							expr: &seqExpr{
-																								pos: position{line: 658, col: 25, offset: 20860},
+																								pos: position{line: 657, col: 25, offset: 20798},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 658, col: 25, offset: 20860},
+																										pos:        position{line: 657, col: 25, offset: 20798},
 																										val:        "{counter:",
 																										ignoreCase: false,
 																										want:       "\"{counter:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 658, col: 37, offset: 20872},
+																										pos:   position{line: 657, col: 37, offset: 20810},
 																										label: "name",
 																										expr: &actionExpr{
-																											pos: position{line: 318, col: 18, offset: 9729},
+																											pos: position{line: 317, col: 18, offset: 9667},
 																											run: (*parser).callonImageBlock69,
 																											expr: &seqExpr{
-																												pos: position{line: 318, col: 18, offset: 9729},
+																												pos: position{line: 317, col: 18, offset: 9667},
 																												exprs: []interface{}{
 																													&charClassMatcher{
-																														pos:        position{line: 318, col: 18, offset: 9729},
+																														pos:        position{line: 317, col: 18, offset: 9667},
 																														val:        "[_\\pL\\pN]",
 																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -19533,9 +19489,9 @@ var g = &grammar{
 																														inverted:   false,
 																													},
 																													&zeroOrMoreExpr{
-																														pos: position{line: 318, col: 28, offset: 9739},
+																														pos: position{line: 317, col: 28, offset: 9677},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9740},
+																															pos:        position{line: 317, col: 29, offset: 9678},
 																															val:        "[_-\\pL\\pN]",
 																															chars:      []rune{'_', '-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -19548,33 +19504,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 658, col: 56, offset: 20891},
+																										pos:   position{line: 657, col: 56, offset: 20829},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 658, col: 62, offset: 20897},
+																											pos: position{line: 657, col: 62, offset: 20835},
 																											expr: &actionExpr{
-																												pos: position{line: 666, col: 17, offset: 21192},
+																												pos: position{line: 665, col: 17, offset: 21130},
 																												run: (*parser).callonImageBlock76,
 																												expr: &seqExpr{
-																													pos: position{line: 666, col: 17, offset: 21192},
+																													pos: position{line: 665, col: 17, offset: 21130},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 666, col: 17, offset: 21192},
+																															pos:        position{line: 665, col: 17, offset: 21130},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 666, col: 21, offset: 21196},
+																															pos:   position{line: 665, col: 21, offset: 21134},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 666, col: 28, offset: 21203},
+																																pos: position{line: 665, col: 28, offset: 21141},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 666, col: 28, offset: 21203},
+																																		pos: position{line: 665, col: 28, offset: 21141},
 																																		run: (*parser).callonImageBlock81,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 666, col: 28, offset: 21203},
+																																			pos:        position{line: 665, col: 28, offset: 21141},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -19582,12 +19538,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 668, col: 9, offset: 21257},
+																																		pos: position{line: 667, col: 9, offset: 21195},
 																																		run: (*parser).callonImageBlock83,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 668, col: 9, offset: 21257},
+																																			pos: position{line: 667, col: 9, offset: 21195},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 668, col: 9, offset: 21257},
+																																				pos:        position{line: 667, col: 9, offset: 21195},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -19604,7 +19560,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 658, col: 78, offset: 20913},
+																										pos:        position{line: 657, col: 78, offset: 20851},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -19613,28 +19569,28 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 662, col: 25, offset: 21031},
+																							pos: position{line: 661, col: 25, offset: 20969},
 																							run: (*parser).callonImageBlock87,
 																							expr: &seqExpr{
-																								pos: position{line: 662, col: 25, offset: 21031},
+																								pos: position{line: 661, col: 25, offset: 20969},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 662, col: 25, offset: 21031},
+																										pos:        position{line: 661, col: 25, offset: 20969},
 																										val:        "{counter2:",
 																										ignoreCase: false,
 																										want:       "\"{counter2:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 662, col: 38, offset: 21044},
+																										pos:   position{line: 661, col: 38, offset: 20982},
 																										label: "name",
 																										expr: &actionExpr{
-																											pos: position{line: 318, col: 18, offset: 9729},
+																											pos: position{line: 317, col: 18, offset: 9667},
 																											run: (*parser).callonImageBlock91,
 																											expr: &seqExpr{
-																												pos: position{line: 318, col: 18, offset: 9729},
+																												pos: position{line: 317, col: 18, offset: 9667},
 																												exprs: []interface{}{
 																													&charClassMatcher{
-																														pos:        position{line: 318, col: 18, offset: 9729},
+																														pos:        position{line: 317, col: 18, offset: 9667},
 																														val:        "[_\\pL\\pN]",
 																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -19642,9 +19598,9 @@ var g = &grammar{
 																														inverted:   false,
 																													},
 																													&zeroOrMoreExpr{
-																														pos: position{line: 318, col: 28, offset: 9739},
+																														pos: position{line: 317, col: 28, offset: 9677},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9740},
+																															pos:        position{line: 317, col: 29, offset: 9678},
 																															val:        "[_-\\pL\\pN]",
 																															chars:      []rune{'_', '-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -19657,33 +19613,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 662, col: 57, offset: 21063},
+																										pos:   position{line: 661, col: 57, offset: 21001},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 662, col: 63, offset: 21069},
+																											pos: position{line: 661, col: 63, offset: 21007},
 																											expr: &actionExpr{
-																												pos: position{line: 666, col: 17, offset: 21192},
+																												pos: position{line: 665, col: 17, offset: 21130},
 																												run: (*parser).callonImageBlock98,
 																												expr: &seqExpr{
-																													pos: position{line: 666, col: 17, offset: 21192},
+																													pos: position{line: 665, col: 17, offset: 21130},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 666, col: 17, offset: 21192},
+																															pos:        position{line: 665, col: 17, offset: 21130},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 666, col: 21, offset: 21196},
+																															pos:   position{line: 665, col: 21, offset: 21134},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 666, col: 28, offset: 21203},
+																																pos: position{line: 665, col: 28, offset: 21141},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 666, col: 28, offset: 21203},
+																																		pos: position{line: 665, col: 28, offset: 21141},
 																																		run: (*parser).callonImageBlock103,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 666, col: 28, offset: 21203},
+																																			pos:        position{line: 665, col: 28, offset: 21141},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -19691,12 +19647,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 668, col: 9, offset: 21257},
+																																		pos: position{line: 667, col: 9, offset: 21195},
 																																		run: (*parser).callonImageBlock105,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 668, col: 9, offset: 21257},
+																																			pos: position{line: 667, col: 9, offset: 21195},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 668, col: 9, offset: 21257},
+																																				pos:        position{line: 667, col: 9, offset: 21195},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -19713,7 +19669,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 662, col: 79, offset: 21085},
+																										pos:        position{line: 661, col: 79, offset: 21023},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -19728,27 +19684,27 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1198, col: 23, offset: 37046},
+																	pos: position{line: 1197, col: 23, offset: 36984},
 																	run: (*parser).callonImageBlock109,
 																	expr: &seqExpr{
-																		pos: position{line: 1198, col: 23, offset: 37046},
+																		pos: position{line: 1197, col: 23, offset: 36984},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1196, col: 32, offset: 37014},
+																				pos:        position{line: 1195, col: 32, offset: 36952},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1198, col: 51, offset: 37074},
+																				pos:   position{line: 1197, col: 51, offset: 37012},
 																				label: "ref",
 																				expr: &actionExpr{
-																					pos: position{line: 1198, col: 56, offset: 37079},
+																					pos: position{line: 1197, col: 56, offset: 37017},
 																					run: (*parser).callonImageBlock113,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1198, col: 56, offset: 37079},
+																						pos: position{line: 1197, col: 56, offset: 37017},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 1198, col: 56, offset: 37079},
+																							pos:        position{line: 1197, col: 56, offset: 37017},
 																							val:        "[0-9]",
 																							ranges:     []rune{'0', '9'},
 																							ignoreCase: false,
@@ -19758,7 +19714,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1196, col: 32, offset: 37014},
+																				pos:        position{line: 1195, col: 32, offset: 36952},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
@@ -19767,10 +19723,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2852, col: 11, offset: 90477},
+																	pos: position{line: 2851, col: 11, offset: 90415},
 																	run: (*parser).callonImageBlock117,
 																	expr: &litMatcher{
-																		pos:        position{line: 2852, col: 11, offset: 90477},
+																		pos:        position{line: 2851, col: 11, offset: 90415},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -19787,20 +19743,20 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1312, col: 51, offset: 41077},
+							pos:   position{line: 1311, col: 51, offset: 41015},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1312, col: 63, offset: 41089},
+								pos:  position{line: 1311, col: 63, offset: 41027},
 								name: "InlineAttributes",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1312, col: 81, offset: 41107},
+							pos: position{line: 1311, col: 81, offset: 41045},
 							expr: &actionExpr{
-								pos: position{line: 2873, col: 10, offset: 90962},
+								pos: position{line: 2872, col: 10, offset: 90900},
 								run: (*parser).callonImageBlock122,
 								expr: &charClassMatcher{
-									pos:        position{line: 2873, col: 10, offset: 90962},
+									pos:        position{line: 2872, col: 10, offset: 90900},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19809,13 +19765,13 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1312, col: 88, offset: 41114},
+							pos:   position{line: 1311, col: 88, offset: 41052},
 							label: "end",
 							expr: &actionExpr{
-								pos: position{line: 2898, col: 16, offset: 91484},
+								pos: position{line: 2897, col: 16, offset: 91422},
 								run: (*parser).callonImageBlock125,
 								expr: &litMatcher{
-									pos:        position{line: 2898, col: 16, offset: 91484},
+									pos:        position{line: 2897, col: 16, offset: 91422},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -19823,32 +19779,32 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1312, col: 106, offset: 41132},
+							pos: position{line: 1311, col: 106, offset: 41070},
 							run: (*parser).callonImageBlock127,
 						},
 						&choiceExpr{
-							pos: position{line: 2895, col: 8, offset: 91360},
+							pos: position{line: 2894, col: 8, offset: 91298},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2882, col: 12, offset: 91133},
+									pos: position{line: 2881, col: 12, offset: 91071},
 									run: (*parser).callonImageBlock129,
 									expr: &choiceExpr{
-										pos: position{line: 2882, col: 13, offset: 91134},
+										pos: position{line: 2881, col: 13, offset: 91072},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2882, col: 13, offset: 91134},
+												pos:        position{line: 2881, col: 13, offset: 91072},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 20, offset: 91141},
+												pos:        position{line: 2881, col: 20, offset: 91079},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 29, offset: 91150},
+												pos:        position{line: 2881, col: 29, offset: 91088},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19857,9 +19813,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2892, col: 8, offset: 91310},
+									pos: position{line: 2891, col: 8, offset: 91248},
 									expr: &anyMatcher{
-										line: 2892, col: 9, offset: 91311,
+										line: 2891, col: 9, offset: 91249,
 									},
 								},
 							},
@@ -19870,74 +19826,74 @@ var g = &grammar{
 		},
 		{
 			name: "InlineImage",
-			pos:  position{line: 1317, col: 1, offset: 41372},
+			pos:  position{line: 1316, col: 1, offset: 41310},
 			expr: &actionExpr{
-				pos: position{line: 1317, col: 16, offset: 41387},
+				pos: position{line: 1316, col: 16, offset: 41325},
 				run: (*parser).callonInlineImage1,
 				expr: &seqExpr{
-					pos: position{line: 1317, col: 16, offset: 41387},
+					pos: position{line: 1316, col: 16, offset: 41325},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1317, col: 16, offset: 41387},
+							pos:        position{line: 1316, col: 16, offset: 41325},
 							val:        "image:",
 							ignoreCase: false,
 							want:       "\"image:\"",
 						},
 						&notExpr{
-							pos: position{line: 1317, col: 25, offset: 41396},
+							pos: position{line: 1316, col: 25, offset: 41334},
 							expr: &litMatcher{
-								pos:        position{line: 1317, col: 26, offset: 41397},
+								pos:        position{line: 1316, col: 26, offset: 41335},
 								val:        ":",
 								ignoreCase: false,
 								want:       "\":\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1317, col: 30, offset: 41401},
+							pos:   position{line: 1316, col: 30, offset: 41339},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2831, col: 13, offset: 89721},
+								pos: position{line: 2830, col: 13, offset: 89659},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2831, col: 13, offset: 89721},
+									pos: position{line: 2830, col: 13, offset: 89659},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2831, col: 13, offset: 89721},
+											pos:   position{line: 2830, col: 13, offset: 89659},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2831, col: 20, offset: 89728},
+												pos: position{line: 2830, col: 20, offset: 89666},
 												expr: &actionExpr{
-													pos: position{line: 2839, col: 11, offset: 89967},
+													pos: position{line: 2838, col: 11, offset: 89905},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2839, col: 12, offset: 89968},
+														pos: position{line: 2838, col: 12, offset: 89906},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2839, col: 12, offset: 89968},
+																pos:        position{line: 2838, col: 12, offset: 89906},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2839, col: 24, offset: 89980},
+																pos:        position{line: 2838, col: 24, offset: 89918},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2839, col: 37, offset: 89993},
+																pos:        position{line: 2838, col: 37, offset: 89931},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2839, col: 48, offset: 90004},
+																pos:        position{line: 2838, col: 48, offset: 89942},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2839, col: 59, offset: 90015},
+																pos:        position{line: 2838, col: 59, offset: 89953},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19948,38 +19904,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2831, col: 30, offset: 89738},
+											pos:   position{line: 2830, col: 30, offset: 89676},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2844, col: 5, offset: 90079},
+												pos: position{line: 2843, col: 5, offset: 90017},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2844, col: 5, offset: 90079},
+													pos:   position{line: 2843, col: 5, offset: 90017},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2844, col: 14, offset: 90088},
+														pos: position{line: 2843, col: 14, offset: 90026},
 														expr: &choiceExpr{
-															pos: position{line: 2845, col: 9, offset: 90098},
+															pos: position{line: 2844, col: 9, offset: 90036},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2845, col: 9, offset: 90098},
+																	pos: position{line: 2844, col: 9, offset: 90036},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2845, col: 9, offset: 90098},
+																		pos: position{line: 2844, col: 9, offset: 90036},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2845, col: 9, offset: 90098},
+																				pos: position{line: 2844, col: 9, offset: 90036},
 																				expr: &litMatcher{
-																					pos:        position{line: 2845, col: 10, offset: 90099},
+																					pos:        position{line: 2844, col: 10, offset: 90037},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2846, col: 9, offset: 90127},
+																				pos: position{line: 2845, col: 9, offset: 90065},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2846, col: 10, offset: 90128},
+																					pos:        position{line: 2845, col: 10, offset: 90066},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19990,27 +19946,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2849, col: 11, offset: 90340},
+																	pos: position{line: 2848, col: 11, offset: 90278},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2849, col: 11, offset: 90340},
+																			pos:        position{line: 2848, col: 11, offset: 90278},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2849, col: 19, offset: 90348},
+																			pos: position{line: 2848, col: 19, offset: 90286},
 																			expr: &seqExpr{
-																				pos: position{line: 2849, col: 21, offset: 90350},
+																				pos: position{line: 2848, col: 21, offset: 90288},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2849, col: 21, offset: 90350},
+																						pos: position{line: 2848, col: 21, offset: 90288},
 																						expr: &actionExpr{
-																							pos: position{line: 2873, col: 10, offset: 90962},
+																							pos: position{line: 2872, col: 10, offset: 90900},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2873, col: 10, offset: 90962},
+																								pos:        position{line: 2872, col: 10, offset: 90900},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20019,11 +19975,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2849, col: 28, offset: 90357},
+																						pos: position{line: 2848, col: 28, offset: 90295},
 																						expr: &notExpr{
-																							pos: position{line: 2892, col: 8, offset: 91310},
+																							pos: position{line: 2891, col: 8, offset: 91248},
 																							expr: &anyMatcher{
-																								line: 2892, col: 9, offset: 91311,
+																								line: 2891, col: 9, offset: 91249,
 																							},
 																						},
 																					},
@@ -20033,44 +19989,44 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 636, col: 5, offset: 20178},
+																	pos: position{line: 635, col: 5, offset: 20116},
 																	run: (*parser).callonInlineImage39,
 																	expr: &seqExpr{
-																		pos: position{line: 636, col: 5, offset: 20178},
+																		pos: position{line: 635, col: 5, offset: 20116},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 636, col: 5, offset: 20178},
+																				pos: position{line: 635, col: 5, offset: 20116},
 																				run: (*parser).callonInlineImage41,
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 639, col: 5, offset: 20250},
+																				pos:   position{line: 638, col: 5, offset: 20188},
 																				label: "element",
 																				expr: &choiceExpr{
-																					pos: position{line: 639, col: 14, offset: 20259},
+																					pos: position{line: 638, col: 14, offset: 20197},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 645, col: 5, offset: 20388},
+																							pos: position{line: 644, col: 5, offset: 20326},
 																							run: (*parser).callonInlineImage44,
 																							expr: &seqExpr{
-																								pos: position{line: 645, col: 5, offset: 20388},
+																								pos: position{line: 644, col: 5, offset: 20326},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 645, col: 5, offset: 20388},
+																										pos:        position{line: 644, col: 5, offset: 20326},
 																										val:        "\\{",
 																										ignoreCase: false,
 																										want:       "\"\\\\{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 645, col: 13, offset: 20396},
+																										pos:   position{line: 644, col: 13, offset: 20334},
 																										label: "name",
 																										expr: &actionExpr{
-																											pos: position{line: 318, col: 18, offset: 9729},
+																											pos: position{line: 317, col: 18, offset: 9667},
 																											run: (*parser).callonInlineImage48,
 																											expr: &seqExpr{
-																												pos: position{line: 318, col: 18, offset: 9729},
+																												pos: position{line: 317, col: 18, offset: 9667},
 																												exprs: []interface{}{
 																													&charClassMatcher{
-																														pos:        position{line: 318, col: 18, offset: 9729},
+																														pos:        position{line: 317, col: 18, offset: 9667},
 																														val:        "[_\\pL\\pN]",
 																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20078,9 +20034,9 @@ var g = &grammar{
 																														inverted:   false,
 																													},
 																													&zeroOrMoreExpr{
-																														pos: position{line: 318, col: 28, offset: 9739},
+																														pos: position{line: 317, col: 28, offset: 9677},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9740},
+																															pos:        position{line: 317, col: 29, offset: 9678},
 																															val:        "[_-\\pL\\pN]",
 																															chars:      []rune{'_', '-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20093,7 +20049,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 645, col: 32, offset: 20415},
+																										pos:        position{line: 644, col: 32, offset: 20353},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20102,28 +20058,28 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 652, col: 5, offset: 20656},
+																							pos: position{line: 651, col: 5, offset: 20594},
 																							run: (*parser).callonInlineImage54,
 																							expr: &seqExpr{
-																								pos: position{line: 652, col: 5, offset: 20656},
+																								pos: position{line: 651, col: 5, offset: 20594},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 652, col: 5, offset: 20656},
+																										pos:        position{line: 651, col: 5, offset: 20594},
 																										val:        "{",
 																										ignoreCase: false,
 																										want:       "\"{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 652, col: 9, offset: 20660},
+																										pos:   position{line: 651, col: 9, offset: 20598},
 																										label: "name",
 																										expr: &actionExpr{
-																											pos: position{line: 318, col: 18, offset: 9729},
+																											pos: position{line: 317, col: 18, offset: 9667},
 																											run: (*parser).callonInlineImage58,
 																											expr: &seqExpr{
-																												pos: position{line: 318, col: 18, offset: 9729},
+																												pos: position{line: 317, col: 18, offset: 9667},
 																												exprs: []interface{}{
 																													&charClassMatcher{
-																														pos:        position{line: 318, col: 18, offset: 9729},
+																														pos:        position{line: 317, col: 18, offset: 9667},
 																														val:        "[_\\pL\\pN]",
 																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20131,9 +20087,9 @@ var g = &grammar{
 																														inverted:   false,
 																													},
 																													&zeroOrMoreExpr{
-																														pos: position{line: 318, col: 28, offset: 9739},
+																														pos: position{line: 317, col: 28, offset: 9677},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9740},
+																															pos:        position{line: 317, col: 29, offset: 9678},
 																															val:        "[_-\\pL\\pN]",
 																															chars:      []rune{'_', '-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20146,7 +20102,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 652, col: 28, offset: 20679},
+																										pos:        position{line: 651, col: 28, offset: 20617},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20155,28 +20111,28 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 658, col: 25, offset: 20860},
+																							pos: position{line: 657, col: 25, offset: 20798},
 																							run: (*parser).callonInlineImage64,
 																							expr: &seqExpr{
-																								pos: position{line: 658, col: 25, offset: 20860},
+																								pos: position{line: 657, col: 25, offset: 20798},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 658, col: 25, offset: 20860},
+																										pos:        position{line: 657, col: 25, offset: 20798},
 																										val:        "{counter:",
 																										ignoreCase: false,
 																										want:       "\"{counter:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 658, col: 37, offset: 20872},
+																										pos:   position{line: 657, col: 37, offset: 20810},
 																										label: "name",
 																										expr: &actionExpr{
-																											pos: position{line: 318, col: 18, offset: 9729},
+																											pos: position{line: 317, col: 18, offset: 9667},
 																											run: (*parser).callonInlineImage68,
 																											expr: &seqExpr{
-																												pos: position{line: 318, col: 18, offset: 9729},
+																												pos: position{line: 317, col: 18, offset: 9667},
 																												exprs: []interface{}{
 																													&charClassMatcher{
-																														pos:        position{line: 318, col: 18, offset: 9729},
+																														pos:        position{line: 317, col: 18, offset: 9667},
 																														val:        "[_\\pL\\pN]",
 																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20184,9 +20140,9 @@ var g = &grammar{
 																														inverted:   false,
 																													},
 																													&zeroOrMoreExpr{
-																														pos: position{line: 318, col: 28, offset: 9739},
+																														pos: position{line: 317, col: 28, offset: 9677},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9740},
+																															pos:        position{line: 317, col: 29, offset: 9678},
 																															val:        "[_-\\pL\\pN]",
 																															chars:      []rune{'_', '-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20199,33 +20155,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 658, col: 56, offset: 20891},
+																										pos:   position{line: 657, col: 56, offset: 20829},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 658, col: 62, offset: 20897},
+																											pos: position{line: 657, col: 62, offset: 20835},
 																											expr: &actionExpr{
-																												pos: position{line: 666, col: 17, offset: 21192},
+																												pos: position{line: 665, col: 17, offset: 21130},
 																												run: (*parser).callonInlineImage75,
 																												expr: &seqExpr{
-																													pos: position{line: 666, col: 17, offset: 21192},
+																													pos: position{line: 665, col: 17, offset: 21130},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 666, col: 17, offset: 21192},
+																															pos:        position{line: 665, col: 17, offset: 21130},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 666, col: 21, offset: 21196},
+																															pos:   position{line: 665, col: 21, offset: 21134},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 666, col: 28, offset: 21203},
+																																pos: position{line: 665, col: 28, offset: 21141},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 666, col: 28, offset: 21203},
+																																		pos: position{line: 665, col: 28, offset: 21141},
 																																		run: (*parser).callonInlineImage80,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 666, col: 28, offset: 21203},
+																																			pos:        position{line: 665, col: 28, offset: 21141},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -20233,12 +20189,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 668, col: 9, offset: 21257},
+																																		pos: position{line: 667, col: 9, offset: 21195},
 																																		run: (*parser).callonInlineImage82,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 668, col: 9, offset: 21257},
+																																			pos: position{line: 667, col: 9, offset: 21195},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 668, col: 9, offset: 21257},
+																																				pos:        position{line: 667, col: 9, offset: 21195},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20255,7 +20211,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 658, col: 78, offset: 20913},
+																										pos:        position{line: 657, col: 78, offset: 20851},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20264,28 +20220,28 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 662, col: 25, offset: 21031},
+																							pos: position{line: 661, col: 25, offset: 20969},
 																							run: (*parser).callonInlineImage86,
 																							expr: &seqExpr{
-																								pos: position{line: 662, col: 25, offset: 21031},
+																								pos: position{line: 661, col: 25, offset: 20969},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 662, col: 25, offset: 21031},
+																										pos:        position{line: 661, col: 25, offset: 20969},
 																										val:        "{counter2:",
 																										ignoreCase: false,
 																										want:       "\"{counter2:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 662, col: 38, offset: 21044},
+																										pos:   position{line: 661, col: 38, offset: 20982},
 																										label: "name",
 																										expr: &actionExpr{
-																											pos: position{line: 318, col: 18, offset: 9729},
+																											pos: position{line: 317, col: 18, offset: 9667},
 																											run: (*parser).callonInlineImage90,
 																											expr: &seqExpr{
-																												pos: position{line: 318, col: 18, offset: 9729},
+																												pos: position{line: 317, col: 18, offset: 9667},
 																												exprs: []interface{}{
 																													&charClassMatcher{
-																														pos:        position{line: 318, col: 18, offset: 9729},
+																														pos:        position{line: 317, col: 18, offset: 9667},
 																														val:        "[_\\pL\\pN]",
 																														chars:      []rune{'_'},
 																														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20293,9 +20249,9 @@ var g = &grammar{
 																														inverted:   false,
 																													},
 																													&zeroOrMoreExpr{
-																														pos: position{line: 318, col: 28, offset: 9739},
+																														pos: position{line: 317, col: 28, offset: 9677},
 																														expr: &charClassMatcher{
-																															pos:        position{line: 318, col: 29, offset: 9740},
+																															pos:        position{line: 317, col: 29, offset: 9678},
 																															val:        "[_-\\pL\\pN]",
 																															chars:      []rune{'_', '-'},
 																															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20308,33 +20264,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 662, col: 57, offset: 21063},
+																										pos:   position{line: 661, col: 57, offset: 21001},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 662, col: 63, offset: 21069},
+																											pos: position{line: 661, col: 63, offset: 21007},
 																											expr: &actionExpr{
-																												pos: position{line: 666, col: 17, offset: 21192},
+																												pos: position{line: 665, col: 17, offset: 21130},
 																												run: (*parser).callonInlineImage97,
 																												expr: &seqExpr{
-																													pos: position{line: 666, col: 17, offset: 21192},
+																													pos: position{line: 665, col: 17, offset: 21130},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 666, col: 17, offset: 21192},
+																															pos:        position{line: 665, col: 17, offset: 21130},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 666, col: 21, offset: 21196},
+																															pos:   position{line: 665, col: 21, offset: 21134},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 666, col: 28, offset: 21203},
+																																pos: position{line: 665, col: 28, offset: 21141},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 666, col: 28, offset: 21203},
+																																		pos: position{line: 665, col: 28, offset: 21141},
 																																		run: (*parser).callonInlineImage102,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 666, col: 28, offset: 21203},
+																																			pos:        position{line: 665, col: 28, offset: 21141},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -20342,12 +20298,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 668, col: 9, offset: 21257},
+																																		pos: position{line: 667, col: 9, offset: 21195},
 																																		run: (*parser).callonInlineImage104,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 668, col: 9, offset: 21257},
+																																			pos: position{line: 667, col: 9, offset: 21195},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 668, col: 9, offset: 21257},
+																																				pos:        position{line: 667, col: 9, offset: 21195},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20364,7 +20320,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 662, col: 79, offset: 21085},
+																										pos:        position{line: 661, col: 79, offset: 21023},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20379,27 +20335,27 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1198, col: 23, offset: 37046},
+																	pos: position{line: 1197, col: 23, offset: 36984},
 																	run: (*parser).callonInlineImage108,
 																	expr: &seqExpr{
-																		pos: position{line: 1198, col: 23, offset: 37046},
+																		pos: position{line: 1197, col: 23, offset: 36984},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1196, col: 32, offset: 37014},
+																				pos:        position{line: 1195, col: 32, offset: 36952},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1198, col: 51, offset: 37074},
+																				pos:   position{line: 1197, col: 51, offset: 37012},
 																				label: "ref",
 																				expr: &actionExpr{
-																					pos: position{line: 1198, col: 56, offset: 37079},
+																					pos: position{line: 1197, col: 56, offset: 37017},
 																					run: (*parser).callonInlineImage112,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1198, col: 56, offset: 37079},
+																						pos: position{line: 1197, col: 56, offset: 37017},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 1198, col: 56, offset: 37079},
+																							pos:        position{line: 1197, col: 56, offset: 37017},
 																							val:        "[0-9]",
 																							ranges:     []rune{'0', '9'},
 																							ignoreCase: false,
@@ -20409,7 +20365,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1196, col: 32, offset: 37014},
+																				pos:        position{line: 1195, col: 32, offset: 36952},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
@@ -20418,10 +20374,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2852, col: 11, offset: 90477},
+																	pos: position{line: 2851, col: 11, offset: 90415},
 																	run: (*parser).callonInlineImage116,
 																	expr: &litMatcher{
-																		pos:        position{line: 2852, col: 11, offset: 90477},
+																		pos:        position{line: 2851, col: 11, offset: 90415},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20438,10 +20394,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1317, col: 46, offset: 41417},
+							pos:   position{line: 1316, col: 46, offset: 41355},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1317, col: 58, offset: 41429},
+								pos:  position{line: 1316, col: 58, offset: 41367},
 								name: "InlineAttributes",
 							},
 						},
@@ -20451,29 +20407,29 @@ var g = &grammar{
 		},
 		{
 			name: "InlineIcon",
-			pos:  position{line: 1324, col: 1, offset: 41825},
+			pos:  position{line: 1323, col: 1, offset: 41763},
 			expr: &actionExpr{
-				pos: position{line: 1324, col: 15, offset: 41839},
+				pos: position{line: 1323, col: 15, offset: 41777},
 				run: (*parser).callonInlineIcon1,
 				expr: &seqExpr{
-					pos: position{line: 1324, col: 15, offset: 41839},
+					pos: position{line: 1323, col: 15, offset: 41777},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1324, col: 15, offset: 41839},
+							pos:        position{line: 1323, col: 15, offset: 41777},
 							val:        "icon:",
 							ignoreCase: false,
 							want:       "\"icon:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1324, col: 23, offset: 41847},
+							pos:   position{line: 1323, col: 23, offset: 41785},
 							label: "icon",
 							expr: &actionExpr{
-								pos: position{line: 1324, col: 29, offset: 41853},
+								pos: position{line: 1323, col: 29, offset: 41791},
 								run: (*parser).callonInlineIcon5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1324, col: 29, offset: 41853},
+									pos: position{line: 1323, col: 29, offset: 41791},
 									expr: &charClassMatcher{
-										pos:        position{line: 1324, col: 29, offset: 41853},
+										pos:        position{line: 1323, col: 29, offset: 41791},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20484,10 +20440,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1324, col: 73, offset: 41897},
+							pos:   position{line: 1323, col: 73, offset: 41835},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1324, col: 85, offset: 41909},
+								pos:  position{line: 1323, col: 85, offset: 41847},
 								name: "InlineAttributes",
 							},
 						},
@@ -20497,31 +20453,31 @@ var g = &grammar{
 		},
 		{
 			name: "InlineFootnote",
-			pos:  position{line: 1331, col: 1, offset: 42275},
+			pos:  position{line: 1330, col: 1, offset: 42213},
 			expr: &actionExpr{
-				pos: position{line: 1331, col: 19, offset: 42293},
+				pos: position{line: 1330, col: 19, offset: 42231},
 				run: (*parser).callonInlineFootnote1,
 				expr: &seqExpr{
-					pos: position{line: 1331, col: 19, offset: 42293},
+					pos: position{line: 1330, col: 19, offset: 42231},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1331, col: 19, offset: 42293},
+							pos:        position{line: 1330, col: 19, offset: 42231},
 							val:        "footnote:",
 							ignoreCase: false,
 							want:       "\"footnote:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1331, col: 31, offset: 42305},
+							pos:   position{line: 1330, col: 31, offset: 42243},
 							label: "ref",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1331, col: 35, offset: 42309},
+								pos: position{line: 1330, col: 35, offset: 42247},
 								expr: &actionExpr{
-									pos: position{line: 1335, col: 16, offset: 42469},
+									pos: position{line: 1334, col: 16, offset: 42407},
 									run: (*parser).callonInlineFootnote6,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1335, col: 16, offset: 42469},
+										pos: position{line: 1334, col: 16, offset: 42407},
 										expr: &charClassMatcher{
-											pos:        position{line: 1335, col: 16, offset: 42469},
+											pos:        position{line: 1334, col: 16, offset: 42407},
 											val:        "[_-\\pL\\pN]",
 											chars:      []rune{'_', '-'},
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20533,21 +20489,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1331, col: 50, offset: 42324},
+							pos:        position{line: 1330, col: 50, offset: 42262},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1331, col: 54, offset: 42328},
+							pos:   position{line: 1330, col: 54, offset: 42266},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1331, col: 64, offset: 42338},
+								pos:  position{line: 1330, col: 64, offset: 42276},
 								name: "FootnoteElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1331, col: 82, offset: 42356},
+							pos:        position{line: 1330, col: 82, offset: 42294},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -20558,17 +20514,17 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElements",
-			pos:  position{line: 1337, col: 1, offset: 42513},
+			pos:  position{line: 1336, col: 1, offset: 42451},
 			expr: &actionExpr{
-				pos: position{line: 1337, col: 21, offset: 42533},
+				pos: position{line: 1336, col: 21, offset: 42471},
 				run: (*parser).callonFootnoteElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1337, col: 21, offset: 42533},
+					pos:   position{line: 1336, col: 21, offset: 42471},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1337, col: 30, offset: 42542},
+						pos: position{line: 1336, col: 30, offset: 42480},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1337, col: 31, offset: 42543},
+							pos:  position{line: 1336, col: 31, offset: 42481},
 							name: "FootnoteElement",
 						},
 					},
@@ -20577,44 +20533,44 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElement",
-			pos:  position{line: 1341, col: 1, offset: 42635},
+			pos:  position{line: 1340, col: 1, offset: 42573},
 			expr: &actionExpr{
-				pos: position{line: 1342, col: 5, offset: 42659},
+				pos: position{line: 1341, col: 5, offset: 42597},
 				run: (*parser).callonFootnoteElement1,
 				expr: &seqExpr{
-					pos: position{line: 1342, col: 5, offset: 42659},
+					pos: position{line: 1341, col: 5, offset: 42597},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1342, col: 5, offset: 42659},
+							pos: position{line: 1341, col: 5, offset: 42597},
 							expr: &litMatcher{
-								pos:        position{line: 1342, col: 6, offset: 42660},
+								pos:        position{line: 1341, col: 6, offset: 42598},
 								val:        "]",
 								ignoreCase: false,
 								want:       "\"]\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1343, col: 5, offset: 42669},
+							pos:   position{line: 1342, col: 5, offset: 42607},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1344, col: 9, offset: 42687},
+								pos: position{line: 1343, col: 9, offset: 42625},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2772, col: 5, offset: 88183},
+										pos: position{line: 2771, col: 5, offset: 88121},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2772, col: 5, offset: 88183},
+											pos: position{line: 2771, col: 5, offset: 88121},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2772, col: 5, offset: 88183},
+													pos:   position{line: 2771, col: 5, offset: 88121},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2772, col: 11, offset: 88189},
+														pos: position{line: 2771, col: 11, offset: 88127},
 														run: (*parser).callonFootnoteElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2772, col: 11, offset: 88189},
+															pos: position{line: 2771, col: 11, offset: 88127},
 															expr: &charClassMatcher{
-																pos:        position{line: 2772, col: 11, offset: 88189},
+																pos:        position{line: 2771, col: 11, offset: 88127},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -20624,44 +20580,44 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2775, col: 5, offset: 88247},
+													pos: position{line: 2774, col: 5, offset: 88185},
 													expr: &seqExpr{
-														pos: position{line: 2776, col: 9, offset: 88258},
+														pos: position{line: 2775, col: 9, offset: 88196},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2776, col: 9, offset: 88258},
+																pos:        position{line: 2775, col: 9, offset: 88196},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2777, col: 9, offset: 88307},
+																pos: position{line: 2776, col: 9, offset: 88245},
 																run: (*parser).callonFootnoteElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2781, col: 5, offset: 88387},
+													pos: position{line: 2780, col: 5, offset: 88325},
 													expr: &seqExpr{
-														pos: position{line: 2782, col: 9, offset: 88398},
+														pos: position{line: 2781, col: 9, offset: 88336},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2782, col: 9, offset: 88398},
+																pos: position{line: 2781, col: 9, offset: 88336},
 																expr: &seqExpr{
-																	pos: position{line: 2782, col: 10, offset: 88399},
+																	pos: position{line: 2781, col: 10, offset: 88337},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2782, col: 10, offset: 88399},
+																			pos:        position{line: 2781, col: 10, offset: 88337},
 																			val:        "[._%+-]",
 																			chars:      []rune{'.', '_', '%', '+', '-'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2782, col: 18, offset: 88407},
+																			pos: position{line: 2781, col: 18, offset: 88345},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2782, col: 18, offset: 88407},
+																				pos:        position{line: 2781, col: 18, offset: 88345},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -20672,13 +20628,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2782, col: 30, offset: 88419},
+																pos:        position{line: 2781, col: 30, offset: 88357},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2782, col: 34, offset: 88423},
+																pos:        position{line: 2781, col: 34, offset: 88361},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -20691,12 +20647,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2877, col: 11, offset: 91023},
+										pos: position{line: 2876, col: 11, offset: 90961},
 										run: (*parser).callonFootnoteElement26,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2877, col: 11, offset: 91023},
+											pos: position{line: 2876, col: 11, offset: 90961},
 											expr: &charClassMatcher{
-												pos:        position{line: 2877, col: 11, offset: 91023},
+												pos:        position{line: 2876, col: 11, offset: 90961},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -20705,25 +20661,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2498, col: 5, offset: 80565},
+										pos: position{line: 2497, col: 5, offset: 80503},
 										run: (*parser).callonFootnoteElement29,
 										expr: &seqExpr{
-											pos: position{line: 2498, col: 5, offset: 80565},
+											pos: position{line: 2497, col: 5, offset: 80503},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2498, col: 5, offset: 80565},
+													pos: position{line: 2497, col: 5, offset: 80503},
 													run: (*parser).callonFootnoteElement31,
 												},
 												&litMatcher{
-													pos:        position{line: 2501, col: 5, offset: 80636},
+													pos:        position{line: 2500, col: 5, offset: 80574},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2501, col: 10, offset: 80641},
+													pos: position{line: 2500, col: 10, offset: 80579},
 													expr: &charClassMatcher{
-														pos:        position{line: 2501, col: 11, offset: 80642},
+														pos:        position{line: 2500, col: 11, offset: 80580},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -20734,29 +20690,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2507, col: 5, offset: 80834},
+										pos: position{line: 2506, col: 5, offset: 80772},
 										run: (*parser).callonFootnoteElement35,
 										expr: &seqExpr{
-											pos: position{line: 2507, col: 5, offset: 80834},
+											pos: position{line: 2506, col: 5, offset: 80772},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2507, col: 5, offset: 80834},
+													pos: position{line: 2506, col: 5, offset: 80772},
 													run: (*parser).callonFootnoteElement37,
 												},
 												&andCodeExpr{
-													pos: position{line: 2510, col: 5, offset: 80905},
+													pos: position{line: 2509, col: 5, offset: 80843},
 													run: (*parser).callonFootnoteElement38,
 												},
 												&litMatcher{
-													pos:        position{line: 2514, col: 5, offset: 81030},
+													pos:        position{line: 2513, col: 5, offset: 80968},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2514, col: 9, offset: 81034},
+													pos: position{line: 2513, col: 9, offset: 80972},
 													expr: &charClassMatcher{
-														pos:        position{line: 2514, col: 10, offset: 81035},
+														pos:        position{line: 2513, col: 10, offset: 80973},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -20767,35 +20723,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1347, col: 11, offset: 42754},
+										pos:  position{line: 1346, col: 11, offset: 42692},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1348, col: 11, offset: 42770},
+										pos:  position{line: 1347, col: 11, offset: 42708},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2790, col: 5, offset: 88616},
+										pos: position{line: 2789, col: 5, offset: 88554},
 										run: (*parser).callonFootnoteElement44,
 										expr: &choiceExpr{
-											pos: position{line: 2791, col: 9, offset: 88626},
+											pos: position{line: 2790, col: 9, offset: 88564},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2791, col: 10, offset: 88627},
+													pos:        position{line: 2790, col: 10, offset: 88565},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2793, col: 13, offset: 88724},
+													pos: position{line: 2792, col: 13, offset: 88662},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2793, col: 13, offset: 88724},
+															pos: position{line: 2792, col: 13, offset: 88662},
 															run: (*parser).callonFootnoteElement48,
 														},
 														&litMatcher{
-															pos:        position{line: 2796, col: 13, offset: 88824},
+															pos:        position{line: 2795, col: 13, offset: 88762},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -20803,20 +20759,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2796, col: 19, offset: 88830},
+													pos:        position{line: 2795, col: 19, offset: 88768},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2799, col: 13, offset: 88868},
+													pos: position{line: 2798, col: 13, offset: 88806},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2799, col: 13, offset: 88868},
+															pos: position{line: 2798, col: 13, offset: 88806},
 															run: (*parser).callonFootnoteElement52,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2802, col: 14, offset: 88961},
+															pos:        position{line: 2801, col: 14, offset: 88899},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -20825,18 +20781,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2804, col: 12, offset: 89005},
+													pos: position{line: 2803, col: 12, offset: 88943},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2804, col: 12, offset: 89005},
+															pos:        position{line: 2803, col: 12, offset: 88943},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2804, col: 16, offset: 89009},
+															pos: position{line: 2803, col: 16, offset: 88947},
 															expr: &litMatcher{
-																pos:        position{line: 2804, col: 17, offset: 89010},
+																pos:        position{line: 2803, col: 17, offset: 88948},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -20848,36 +20804,36 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1350, col: 11, offset: 42843},
+										pos:  position{line: 1349, col: 11, offset: 42781},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 1206, col: 5, offset: 37492},
+										pos: position{line: 1205, col: 5, offset: 37430},
 										run: (*parser).callonFootnoteElement59,
 										expr: &seqExpr{
-											pos: position{line: 1206, col: 5, offset: 37492},
+											pos: position{line: 1205, col: 5, offset: 37430},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 1206, col: 5, offset: 37492},
+													pos: position{line: 1205, col: 5, offset: 37430},
 													run: (*parser).callonFootnoteElement61,
 												},
 												&litMatcher{
-													pos:        position{line: 1209, col: 5, offset: 37568},
+													pos:        position{line: 1208, col: 5, offset: 37506},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&andCodeExpr{
-													pos: position{line: 1210, col: 5, offset: 37576},
+													pos: position{line: 1209, col: 5, offset: 37514},
 													run: (*parser).callonFootnoteElement63,
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1214, col: 5, offset: 37663},
+													pos: position{line: 1213, col: 5, offset: 37601},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90962},
+														pos: position{line: 2872, col: 10, offset: 90900},
 														run: (*parser).callonFootnoteElement65,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90962},
+															pos:        position{line: 2872, col: 10, offset: 90900},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -20886,30 +20842,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 1214, col: 12, offset: 37670},
+													pos: position{line: 1213, col: 12, offset: 37608},
 													expr: &choiceExpr{
-														pos: position{line: 2895, col: 8, offset: 91360},
+														pos: position{line: 2894, col: 8, offset: 91298},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2882, col: 12, offset: 91133},
+																pos: position{line: 2881, col: 12, offset: 91071},
 																run: (*parser).callonFootnoteElement69,
 																expr: &choiceExpr{
-																	pos: position{line: 2882, col: 13, offset: 91134},
+																	pos: position{line: 2881, col: 13, offset: 91072},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 13, offset: 91134},
+																			pos:        position{line: 2881, col: 13, offset: 91072},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 20, offset: 91141},
+																			pos:        position{line: 2881, col: 20, offset: 91079},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 29, offset: 91150},
+																			pos:        position{line: 2881, col: 29, offset: 91088},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -20918,9 +20874,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2892, col: 8, offset: 91310},
+																pos: position{line: 2891, col: 8, offset: 91248},
 																expr: &anyMatcher{
-																	line: 2892, col: 9, offset: 91311,
+																	line: 2891, col: 9, offset: 91249,
 																},
 															},
 														},
@@ -20930,44 +20886,44 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 636, col: 5, offset: 20178},
+										pos: position{line: 635, col: 5, offset: 20116},
 										run: (*parser).callonFootnoteElement76,
 										expr: &seqExpr{
-											pos: position{line: 636, col: 5, offset: 20178},
+											pos: position{line: 635, col: 5, offset: 20116},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 636, col: 5, offset: 20178},
+													pos: position{line: 635, col: 5, offset: 20116},
 													run: (*parser).callonFootnoteElement78,
 												},
 												&labeledExpr{
-													pos:   position{line: 639, col: 5, offset: 20250},
+													pos:   position{line: 638, col: 5, offset: 20188},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 639, col: 14, offset: 20259},
+														pos: position{line: 638, col: 14, offset: 20197},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 645, col: 5, offset: 20388},
+																pos: position{line: 644, col: 5, offset: 20326},
 																run: (*parser).callonFootnoteElement81,
 																expr: &seqExpr{
-																	pos: position{line: 645, col: 5, offset: 20388},
+																	pos: position{line: 644, col: 5, offset: 20326},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 645, col: 5, offset: 20388},
+																			pos:        position{line: 644, col: 5, offset: 20326},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 645, col: 13, offset: 20396},
+																			pos:   position{line: 644, col: 13, offset: 20334},
 																			label: "name",
 																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9729},
+																				pos: position{line: 317, col: 18, offset: 9667},
 																				run: (*parser).callonFootnoteElement85,
 																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9729},
+																					pos: position{line: 317, col: 18, offset: 9667},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9729},
+																							pos:        position{line: 317, col: 18, offset: 9667},
 																							val:        "[_\\pL\\pN]",
 																							chars:      []rune{'_'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20975,9 +20931,9 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9739},
+																							pos: position{line: 317, col: 28, offset: 9677},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9740},
+																								pos:        position{line: 317, col: 29, offset: 9678},
 																								val:        "[_-\\pL\\pN]",
 																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20990,7 +20946,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 645, col: 32, offset: 20415},
+																			pos:        position{line: 644, col: 32, offset: 20353},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -20999,28 +20955,28 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 652, col: 5, offset: 20656},
+																pos: position{line: 651, col: 5, offset: 20594},
 																run: (*parser).callonFootnoteElement91,
 																expr: &seqExpr{
-																	pos: position{line: 652, col: 5, offset: 20656},
+																	pos: position{line: 651, col: 5, offset: 20594},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 652, col: 5, offset: 20656},
+																			pos:        position{line: 651, col: 5, offset: 20594},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 652, col: 9, offset: 20660},
+																			pos:   position{line: 651, col: 9, offset: 20598},
 																			label: "name",
 																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9729},
+																				pos: position{line: 317, col: 18, offset: 9667},
 																				run: (*parser).callonFootnoteElement95,
 																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9729},
+																					pos: position{line: 317, col: 18, offset: 9667},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9729},
+																							pos:        position{line: 317, col: 18, offset: 9667},
 																							val:        "[_\\pL\\pN]",
 																							chars:      []rune{'_'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21028,9 +20984,9 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9739},
+																							pos: position{line: 317, col: 28, offset: 9677},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9740},
+																								pos:        position{line: 317, col: 29, offset: 9678},
 																								val:        "[_-\\pL\\pN]",
 																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21043,7 +20999,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 652, col: 28, offset: 20679},
+																			pos:        position{line: 651, col: 28, offset: 20617},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21052,28 +21008,28 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 658, col: 25, offset: 20860},
+																pos: position{line: 657, col: 25, offset: 20798},
 																run: (*parser).callonFootnoteElement101,
 																expr: &seqExpr{
-																	pos: position{line: 658, col: 25, offset: 20860},
+																	pos: position{line: 657, col: 25, offset: 20798},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 658, col: 25, offset: 20860},
+																			pos:        position{line: 657, col: 25, offset: 20798},
 																			val:        "{counter:",
 																			ignoreCase: false,
 																			want:       "\"{counter:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 658, col: 37, offset: 20872},
+																			pos:   position{line: 657, col: 37, offset: 20810},
 																			label: "name",
 																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9729},
+																				pos: position{line: 317, col: 18, offset: 9667},
 																				run: (*parser).callonFootnoteElement105,
 																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9729},
+																					pos: position{line: 317, col: 18, offset: 9667},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9729},
+																							pos:        position{line: 317, col: 18, offset: 9667},
 																							val:        "[_\\pL\\pN]",
 																							chars:      []rune{'_'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21081,9 +21037,9 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9739},
+																							pos: position{line: 317, col: 28, offset: 9677},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9740},
+																								pos:        position{line: 317, col: 29, offset: 9678},
 																								val:        "[_-\\pL\\pN]",
 																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21096,33 +21052,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 658, col: 56, offset: 20891},
+																			pos:   position{line: 657, col: 56, offset: 20829},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 658, col: 62, offset: 20897},
+																				pos: position{line: 657, col: 62, offset: 20835},
 																				expr: &actionExpr{
-																					pos: position{line: 666, col: 17, offset: 21192},
+																					pos: position{line: 665, col: 17, offset: 21130},
 																					run: (*parser).callonFootnoteElement112,
 																					expr: &seqExpr{
-																						pos: position{line: 666, col: 17, offset: 21192},
+																						pos: position{line: 665, col: 17, offset: 21130},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 666, col: 17, offset: 21192},
+																								pos:        position{line: 665, col: 17, offset: 21130},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 666, col: 21, offset: 21196},
+																								pos:   position{line: 665, col: 21, offset: 21134},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 666, col: 28, offset: 21203},
+																									pos: position{line: 665, col: 28, offset: 21141},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 666, col: 28, offset: 21203},
+																											pos: position{line: 665, col: 28, offset: 21141},
 																											run: (*parser).callonFootnoteElement117,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 666, col: 28, offset: 21203},
+																												pos:        position{line: 665, col: 28, offset: 21141},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -21130,12 +21086,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 668, col: 9, offset: 21257},
+																											pos: position{line: 667, col: 9, offset: 21195},
 																											run: (*parser).callonFootnoteElement119,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 668, col: 9, offset: 21257},
+																												pos: position{line: 667, col: 9, offset: 21195},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 668, col: 9, offset: 21257},
+																													pos:        position{line: 667, col: 9, offset: 21195},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -21152,7 +21108,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 658, col: 78, offset: 20913},
+																			pos:        position{line: 657, col: 78, offset: 20851},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21161,28 +21117,28 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 662, col: 25, offset: 21031},
+																pos: position{line: 661, col: 25, offset: 20969},
 																run: (*parser).callonFootnoteElement123,
 																expr: &seqExpr{
-																	pos: position{line: 662, col: 25, offset: 21031},
+																	pos: position{line: 661, col: 25, offset: 20969},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 662, col: 25, offset: 21031},
+																			pos:        position{line: 661, col: 25, offset: 20969},
 																			val:        "{counter2:",
 																			ignoreCase: false,
 																			want:       "\"{counter2:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 662, col: 38, offset: 21044},
+																			pos:   position{line: 661, col: 38, offset: 20982},
 																			label: "name",
 																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9729},
+																				pos: position{line: 317, col: 18, offset: 9667},
 																				run: (*parser).callonFootnoteElement127,
 																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9729},
+																					pos: position{line: 317, col: 18, offset: 9667},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9729},
+																							pos:        position{line: 317, col: 18, offset: 9667},
 																							val:        "[_\\pL\\pN]",
 																							chars:      []rune{'_'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21190,9 +21146,9 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9739},
+																							pos: position{line: 317, col: 28, offset: 9677},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9740},
+																								pos:        position{line: 317, col: 29, offset: 9678},
 																								val:        "[_-\\pL\\pN]",
 																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21205,33 +21161,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 662, col: 57, offset: 21063},
+																			pos:   position{line: 661, col: 57, offset: 21001},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 662, col: 63, offset: 21069},
+																				pos: position{line: 661, col: 63, offset: 21007},
 																				expr: &actionExpr{
-																					pos: position{line: 666, col: 17, offset: 21192},
+																					pos: position{line: 665, col: 17, offset: 21130},
 																					run: (*parser).callonFootnoteElement134,
 																					expr: &seqExpr{
-																						pos: position{line: 666, col: 17, offset: 21192},
+																						pos: position{line: 665, col: 17, offset: 21130},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 666, col: 17, offset: 21192},
+																								pos:        position{line: 665, col: 17, offset: 21130},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 666, col: 21, offset: 21196},
+																								pos:   position{line: 665, col: 21, offset: 21134},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 666, col: 28, offset: 21203},
+																									pos: position{line: 665, col: 28, offset: 21141},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 666, col: 28, offset: 21203},
+																											pos: position{line: 665, col: 28, offset: 21141},
 																											run: (*parser).callonFootnoteElement139,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 666, col: 28, offset: 21203},
+																												pos:        position{line: 665, col: 28, offset: 21141},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -21239,12 +21195,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 668, col: 9, offset: 21257},
+																											pos: position{line: 667, col: 9, offset: 21195},
 																											run: (*parser).callonFootnoteElement141,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 668, col: 9, offset: 21257},
+																												pos: position{line: 667, col: 9, offset: 21195},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 668, col: 9, offset: 21257},
+																													pos:        position{line: 667, col: 9, offset: 21195},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -21261,7 +21217,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 662, col: 79, offset: 21085},
+																			pos:        position{line: 661, col: 79, offset: 21023},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21276,23 +21232,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2467, col: 5, offset: 79394},
+										pos: position{line: 2466, col: 5, offset: 79332},
 										run: (*parser).callonFootnoteElement145,
 										expr: &seqExpr{
-											pos: position{line: 2467, col: 5, offset: 79394},
+											pos: position{line: 2466, col: 5, offset: 79332},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2467, col: 5, offset: 79394},
+													pos: position{line: 2466, col: 5, offset: 79332},
 													run: (*parser).callonFootnoteElement147,
 												},
 												&labeledExpr{
-													pos:   position{line: 2470, col: 5, offset: 79470},
+													pos:   position{line: 2469, col: 5, offset: 79408},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2471, col: 9, offset: 79488},
+														pos: position{line: 2470, col: 9, offset: 79426},
 														run: (*parser).callonFootnoteElement149,
 														expr: &charClassMatcher{
-															pos:        position{line: 2471, col: 10, offset: 79489},
+															pos:        position{line: 2470, col: 10, offset: 79427},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -21304,25 +21260,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2882, col: 12, offset: 91133},
+										pos: position{line: 2881, col: 12, offset: 91071},
 										run: (*parser).callonFootnoteElement151,
 										expr: &choiceExpr{
-											pos: position{line: 2882, col: 13, offset: 91134},
+											pos: position{line: 2881, col: 13, offset: 91072},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2882, col: 13, offset: 91134},
+													pos:        position{line: 2881, col: 13, offset: 91072},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2882, col: 20, offset: 91141},
+													pos:        position{line: 2881, col: 20, offset: 91079},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2882, col: 29, offset: 91150},
+													pos:        position{line: 2881, col: 29, offset: 91088},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -21331,10 +21287,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2812, col: 12, offset: 89270},
+										pos: position{line: 2811, col: 12, offset: 89208},
 										run: (*parser).callonFootnoteElement156,
 										expr: &charClassMatcher{
-											pos:        position{line: 2812, col: 12, offset: 89270},
+											pos:        position{line: 2811, col: 12, offset: 89208},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -21350,32 +21306,32 @@ var g = &grammar{
 		},
 		{
 			name: "PassthroughMacro",
-			pos:  position{line: 1389, col: 1, offset: 44688},
+			pos:  position{line: 1388, col: 1, offset: 44626},
 			expr: &choiceExpr{
-				pos: position{line: 1389, col: 21, offset: 44708},
+				pos: position{line: 1388, col: 21, offset: 44646},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1389, col: 21, offset: 44708},
+						pos: position{line: 1388, col: 21, offset: 44646},
 						run: (*parser).callonPassthroughMacro2,
 						expr: &seqExpr{
-							pos: position{line: 1389, col: 21, offset: 44708},
+							pos: position{line: 1388, col: 21, offset: 44646},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1389, col: 21, offset: 44708},
+									pos:        position{line: 1388, col: 21, offset: 44646},
 									val:        "pass:[",
 									ignoreCase: false,
 									want:       "\"pass:[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1389, col: 30, offset: 44717},
+									pos:   position{line: 1388, col: 30, offset: 44655},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1389, col: 38, offset: 44725},
+										pos: position{line: 1388, col: 38, offset: 44663},
 										expr: &actionExpr{
-											pos: position{line: 1405, col: 30, offset: 45315},
+											pos: position{line: 1404, col: 30, offset: 45253},
 											run: (*parser).callonPassthroughMacro7,
 											expr: &charClassMatcher{
-												pos:        position{line: 1405, col: 30, offset: 45315},
+												pos:        position{line: 1404, col: 30, offset: 45253},
 												val:        "[^]]",
 												chars:      []rune{']'},
 												ignoreCase: false,
@@ -21385,7 +21341,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1389, col: 67, offset: 44754},
+									pos:        position{line: 1388, col: 67, offset: 44692},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -21394,34 +21350,34 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1391, col: 9, offset: 44858},
+						pos: position{line: 1390, col: 9, offset: 44796},
 						run: (*parser).callonPassthroughMacro10,
 						expr: &seqExpr{
-							pos: position{line: 1391, col: 9, offset: 44858},
+							pos: position{line: 1390, col: 9, offset: 44796},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 1395, col: 33, offset: 45064},
+									pos: position{line: 1394, col: 33, offset: 45002},
 									run: (*parser).callonPassthroughMacro12,
 									expr: &litMatcher{
-										pos:        position{line: 1395, col: 33, offset: 45064},
+										pos:        position{line: 1394, col: 33, offset: 45002},
 										val:        "pass:q[",
 										ignoreCase: false,
 										want:       "\"pass:q[\"",
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1391, col: 38, offset: 44887},
+									pos:   position{line: 1390, col: 38, offset: 44825},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1391, col: 46, offset: 44895},
+										pos: position{line: 1390, col: 46, offset: 44833},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1391, col: 47, offset: 44896},
+											pos:  position{line: 1390, col: 47, offset: 44834},
 											name: "PassthroughMacroQuotesElement",
 										},
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1391, col: 79, offset: 44928},
+									pos:        position{line: 1390, col: 79, offset: 44866},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -21434,25 +21390,25 @@ var g = &grammar{
 		},
 		{
 			name: "PassthroughMacroQuotesElement",
-			pos:  position{line: 1400, col: 1, offset: 45135},
+			pos:  position{line: 1399, col: 1, offset: 45073},
 			expr: &actionExpr{
-				pos: position{line: 1400, col: 34, offset: 45168},
+				pos: position{line: 1399, col: 34, offset: 45106},
 				run: (*parser).callonPassthroughMacroQuotesElement1,
 				expr: &labeledExpr{
-					pos:   position{line: 1400, col: 34, offset: 45168},
+					pos:   position{line: 1399, col: 34, offset: 45106},
 					label: "element",
 					expr: &choiceExpr{
-						pos: position{line: 1400, col: 43, offset: 45177},
+						pos: position{line: 1399, col: 43, offset: 45115},
 						alternatives: []interface{}{
 							&ruleRefExpr{
-								pos:  position{line: 1400, col: 43, offset: 45177},
+								pos:  position{line: 1399, col: 43, offset: 45115},
 								name: "QuotedText",
 							},
 							&actionExpr{
-								pos: position{line: 1405, col: 30, offset: 45315},
+								pos: position{line: 1404, col: 30, offset: 45253},
 								run: (*parser).callonPassthroughMacroQuotesElement5,
 								expr: &charClassMatcher{
-									pos:        position{line: 1405, col: 30, offset: 45315},
+									pos:        position{line: 1404, col: 30, offset: 45253},
 									val:        "[^]]",
 									chars:      []rune{']'},
 									ignoreCase: false,
@@ -21466,75 +21422,75 @@ var g = &grammar{
 		},
 		{
 			name: "Link",
-			pos:  position{line: 1412, col: 1, offset: 45571},
+			pos:  position{line: 1411, col: 1, offset: 45509},
 			expr: &choiceExpr{
-				pos: position{line: 1412, col: 9, offset: 45579},
+				pos: position{line: 1411, col: 9, offset: 45517},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1415, col: 5, offset: 45648},
+						pos: position{line: 1414, col: 5, offset: 45586},
 						run: (*parser).callonLink2,
 						expr: &seqExpr{
-							pos: position{line: 1415, col: 5, offset: 45648},
+							pos: position{line: 1414, col: 5, offset: 45586},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1415, col: 5, offset: 45648},
+									pos:        position{line: 1414, col: 5, offset: 45586},
 									val:        "<",
 									ignoreCase: false,
 									want:       "\"<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1416, col: 5, offset: 45657},
+									pos:   position{line: 1415, col: 5, offset: 45595},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2835, col: 23, offset: 89848},
+										pos: position{line: 2834, col: 23, offset: 89786},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2835, col: 23, offset: 89848},
+											pos: position{line: 2834, col: 23, offset: 89786},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2835, col: 23, offset: 89848},
+													pos: position{line: 2834, col: 23, offset: 89786},
 													expr: &litMatcher{
-														pos:        position{line: 2835, col: 24, offset: 89849},
+														pos:        position{line: 2834, col: 24, offset: 89787},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2835, col: 28, offset: 89853},
+													pos:   position{line: 2834, col: 28, offset: 89791},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2839, col: 11, offset: 89967},
+														pos: position{line: 2838, col: 11, offset: 89905},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2839, col: 12, offset: 89968},
+															pos: position{line: 2838, col: 12, offset: 89906},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2839, col: 12, offset: 89968},
+																	pos:        position{line: 2838, col: 12, offset: 89906},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2839, col: 24, offset: 89980},
+																	pos:        position{line: 2838, col: 24, offset: 89918},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2839, col: 37, offset: 89993},
+																	pos:        position{line: 2838, col: 37, offset: 89931},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2839, col: 48, offset: 90004},
+																	pos:        position{line: 2838, col: 48, offset: 89942},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2839, col: 59, offset: 90015},
+																	pos:        position{line: 2838, col: 59, offset: 89953},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -21544,38 +21500,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2835, col: 44, offset: 89869},
+													pos:   position{line: 2834, col: 44, offset: 89807},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2844, col: 5, offset: 90079},
+														pos: position{line: 2843, col: 5, offset: 90017},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2844, col: 5, offset: 90079},
+															pos:   position{line: 2843, col: 5, offset: 90017},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2844, col: 14, offset: 90088},
+																pos: position{line: 2843, col: 14, offset: 90026},
 																expr: &choiceExpr{
-																	pos: position{line: 2845, col: 9, offset: 90098},
+																	pos: position{line: 2844, col: 9, offset: 90036},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2845, col: 9, offset: 90098},
+																			pos: position{line: 2844, col: 9, offset: 90036},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2845, col: 9, offset: 90098},
+																				pos: position{line: 2844, col: 9, offset: 90036},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2845, col: 9, offset: 90098},
+																						pos: position{line: 2844, col: 9, offset: 90036},
 																						expr: &litMatcher{
-																							pos:        position{line: 2845, col: 10, offset: 90099},
+																							pos:        position{line: 2844, col: 10, offset: 90037},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2846, col: 9, offset: 90127},
+																						pos: position{line: 2845, col: 9, offset: 90065},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2846, col: 10, offset: 90128},
+																							pos:        position{line: 2845, col: 10, offset: 90066},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -21586,27 +21542,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2849, col: 11, offset: 90340},
+																			pos: position{line: 2848, col: 11, offset: 90278},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2849, col: 11, offset: 90340},
+																					pos:        position{line: 2848, col: 11, offset: 90278},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2849, col: 19, offset: 90348},
+																					pos: position{line: 2848, col: 19, offset: 90286},
 																					expr: &seqExpr{
-																						pos: position{line: 2849, col: 21, offset: 90350},
+																						pos: position{line: 2848, col: 21, offset: 90288},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2849, col: 21, offset: 90350},
+																								pos: position{line: 2848, col: 21, offset: 90288},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90962},
+																									pos: position{line: 2872, col: 10, offset: 90900},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90962},
+																										pos:        position{line: 2872, col: 10, offset: 90900},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -21615,11 +21571,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2849, col: 28, offset: 90357},
+																								pos: position{line: 2848, col: 28, offset: 90295},
 																								expr: &notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91310},
+																									pos: position{line: 2891, col: 8, offset: 91248},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91311,
+																										line: 2891, col: 9, offset: 91249,
 																									},
 																								},
 																							},
@@ -21629,44 +21585,44 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 636, col: 5, offset: 20178},
+																			pos: position{line: 635, col: 5, offset: 20116},
 																			run: (*parser).callonLink39,
 																			expr: &seqExpr{
-																				pos: position{line: 636, col: 5, offset: 20178},
+																				pos: position{line: 635, col: 5, offset: 20116},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 636, col: 5, offset: 20178},
+																						pos: position{line: 635, col: 5, offset: 20116},
 																						run: (*parser).callonLink41,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 639, col: 5, offset: 20250},
+																						pos:   position{line: 638, col: 5, offset: 20188},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 639, col: 14, offset: 20259},
+																							pos: position{line: 638, col: 14, offset: 20197},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 645, col: 5, offset: 20388},
+																									pos: position{line: 644, col: 5, offset: 20326},
 																									run: (*parser).callonLink44,
 																									expr: &seqExpr{
-																										pos: position{line: 645, col: 5, offset: 20388},
+																										pos: position{line: 644, col: 5, offset: 20326},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 645, col: 5, offset: 20388},
+																												pos:        position{line: 644, col: 5, offset: 20326},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 645, col: 13, offset: 20396},
+																												pos:   position{line: 644, col: 13, offset: 20334},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9729},
+																													pos: position{line: 317, col: 18, offset: 9667},
 																													run: (*parser).callonLink48,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9729},
+																														pos: position{line: 317, col: 18, offset: 9667},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9729},
+																																pos:        position{line: 317, col: 18, offset: 9667},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21674,9 +21630,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9739},
+																																pos: position{line: 317, col: 28, offset: 9677},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9740},
+																																	pos:        position{line: 317, col: 29, offset: 9678},
 																																	val:        "[_-\\pL\\pN]",
 																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21689,7 +21645,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 645, col: 32, offset: 20415},
+																												pos:        position{line: 644, col: 32, offset: 20353},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -21698,28 +21654,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 652, col: 5, offset: 20656},
+																									pos: position{line: 651, col: 5, offset: 20594},
 																									run: (*parser).callonLink54,
 																									expr: &seqExpr{
-																										pos: position{line: 652, col: 5, offset: 20656},
+																										pos: position{line: 651, col: 5, offset: 20594},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 652, col: 5, offset: 20656},
+																												pos:        position{line: 651, col: 5, offset: 20594},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 652, col: 9, offset: 20660},
+																												pos:   position{line: 651, col: 9, offset: 20598},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9729},
+																													pos: position{line: 317, col: 18, offset: 9667},
 																													run: (*parser).callonLink58,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9729},
+																														pos: position{line: 317, col: 18, offset: 9667},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9729},
+																																pos:        position{line: 317, col: 18, offset: 9667},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21727,9 +21683,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9739},
+																																pos: position{line: 317, col: 28, offset: 9677},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9740},
+																																	pos:        position{line: 317, col: 29, offset: 9678},
 																																	val:        "[_-\\pL\\pN]",
 																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21742,7 +21698,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 652, col: 28, offset: 20679},
+																												pos:        position{line: 651, col: 28, offset: 20617},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -21751,28 +21707,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 658, col: 25, offset: 20860},
+																									pos: position{line: 657, col: 25, offset: 20798},
 																									run: (*parser).callonLink64,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 25, offset: 20860},
+																										pos: position{line: 657, col: 25, offset: 20798},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 658, col: 25, offset: 20860},
+																												pos:        position{line: 657, col: 25, offset: 20798},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 37, offset: 20872},
+																												pos:   position{line: 657, col: 37, offset: 20810},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9729},
+																													pos: position{line: 317, col: 18, offset: 9667},
 																													run: (*parser).callonLink68,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9729},
+																														pos: position{line: 317, col: 18, offset: 9667},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9729},
+																																pos:        position{line: 317, col: 18, offset: 9667},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21780,9 +21736,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9739},
+																																pos: position{line: 317, col: 28, offset: 9677},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9740},
+																																	pos:        position{line: 317, col: 29, offset: 9678},
 																																	val:        "[_-\\pL\\pN]",
 																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21795,33 +21751,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 56, offset: 20891},
+																												pos:   position{line: 657, col: 56, offset: 20829},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 658, col: 62, offset: 20897},
+																													pos: position{line: 657, col: 62, offset: 20835},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21192},
+																														pos: position{line: 665, col: 17, offset: 21130},
 																														run: (*parser).callonLink75,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21192},
+																															pos: position{line: 665, col: 17, offset: 21130},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21192},
+																																	pos:        position{line: 665, col: 17, offset: 21130},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21196},
+																																	pos:   position{line: 665, col: 21, offset: 21134},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21203},
+																																		pos: position{line: 665, col: 28, offset: 21141},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21203},
+																																				pos: position{line: 665, col: 28, offset: 21141},
 																																				run: (*parser).callonLink80,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21203},
+																																					pos:        position{line: 665, col: 28, offset: 21141},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -21829,12 +21785,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21257},
+																																				pos: position{line: 667, col: 9, offset: 21195},
 																																				run: (*parser).callonLink82,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21257},
+																																					pos: position{line: 667, col: 9, offset: 21195},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21257},
+																																						pos:        position{line: 667, col: 9, offset: 21195},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -21851,7 +21807,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 78, offset: 20913},
+																												pos:        position{line: 657, col: 78, offset: 20851},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -21860,28 +21816,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 662, col: 25, offset: 21031},
+																									pos: position{line: 661, col: 25, offset: 20969},
 																									run: (*parser).callonLink86,
 																									expr: &seqExpr{
-																										pos: position{line: 662, col: 25, offset: 21031},
+																										pos: position{line: 661, col: 25, offset: 20969},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 662, col: 25, offset: 21031},
+																												pos:        position{line: 661, col: 25, offset: 20969},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 38, offset: 21044},
+																												pos:   position{line: 661, col: 38, offset: 20982},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9729},
+																													pos: position{line: 317, col: 18, offset: 9667},
 																													run: (*parser).callonLink90,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9729},
+																														pos: position{line: 317, col: 18, offset: 9667},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9729},
+																																pos:        position{line: 317, col: 18, offset: 9667},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21889,9 +21845,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9739},
+																																pos: position{line: 317, col: 28, offset: 9677},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9740},
+																																	pos:        position{line: 317, col: 29, offset: 9678},
 																																	val:        "[_-\\pL\\pN]",
 																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21904,33 +21860,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 57, offset: 21063},
+																												pos:   position{line: 661, col: 57, offset: 21001},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 662, col: 63, offset: 21069},
+																													pos: position{line: 661, col: 63, offset: 21007},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21192},
+																														pos: position{line: 665, col: 17, offset: 21130},
 																														run: (*parser).callonLink97,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21192},
+																															pos: position{line: 665, col: 17, offset: 21130},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21192},
+																																	pos:        position{line: 665, col: 17, offset: 21130},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21196},
+																																	pos:   position{line: 665, col: 21, offset: 21134},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21203},
+																																		pos: position{line: 665, col: 28, offset: 21141},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21203},
+																																				pos: position{line: 665, col: 28, offset: 21141},
 																																				run: (*parser).callonLink102,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21203},
+																																					pos:        position{line: 665, col: 28, offset: 21141},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -21938,12 +21894,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21257},
+																																				pos: position{line: 667, col: 9, offset: 21195},
 																																				run: (*parser).callonLink104,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21257},
+																																					pos: position{line: 667, col: 9, offset: 21195},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21257},
+																																						pos:        position{line: 667, col: 9, offset: 21195},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -21960,7 +21916,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 662, col: 79, offset: 21085},
+																												pos:        position{line: 661, col: 79, offset: 21023},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -21975,27 +21931,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1198, col: 23, offset: 37046},
+																			pos: position{line: 1197, col: 23, offset: 36984},
 																			run: (*parser).callonLink108,
 																			expr: &seqExpr{
-																				pos: position{line: 1198, col: 23, offset: 37046},
+																				pos: position{line: 1197, col: 23, offset: 36984},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 37014},
+																						pos:        position{line: 1195, col: 32, offset: 36952},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1198, col: 51, offset: 37074},
+																						pos:   position{line: 1197, col: 51, offset: 37012},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1198, col: 56, offset: 37079},
+																							pos: position{line: 1197, col: 56, offset: 37017},
 																							run: (*parser).callonLink112,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1198, col: 56, offset: 37079},
+																								pos: position{line: 1197, col: 56, offset: 37017},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1198, col: 56, offset: 37079},
+																									pos:        position{line: 1197, col: 56, offset: 37017},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -22005,7 +21961,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 37014},
+																						pos:        position{line: 1195, col: 32, offset: 36952},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -22014,10 +21970,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2852, col: 11, offset: 90477},
+																			pos: position{line: 2851, col: 11, offset: 90415},
 																			run: (*parser).callonLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2852, col: 11, offset: 90477},
+																				pos:        position{line: 2851, col: 11, offset: 90415},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22034,7 +21990,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1421, col: 5, offset: 45876},
+									pos:        position{line: 1420, col: 5, offset: 45814},
 									val:        ">",
 									ignoreCase: false,
 									want:       "\">\"",
@@ -22043,38 +21999,38 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1412, col: 19, offset: 45589},
+						pos:  position{line: 1411, col: 19, offset: 45527},
 						name: "RelativeLink",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1412, col: 34, offset: 45604},
+						pos:  position{line: 1411, col: 34, offset: 45542},
 						name: "ExternalLink",
 					},
 					&actionExpr{
-						pos: position{line: 1450, col: 17, offset: 46869},
+						pos: position{line: 1449, col: 17, offset: 46807},
 						run: (*parser).callonLink121,
 						expr: &seqExpr{
-							pos: position{line: 1450, col: 17, offset: 46869},
+							pos: position{line: 1449, col: 17, offset: 46807},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1450, col: 17, offset: 46869},
+									pos:   position{line: 1449, col: 17, offset: 46807},
 									label: "local",
 									expr: &actionExpr{
-										pos: position{line: 1455, col: 5, offset: 47034},
+										pos: position{line: 1454, col: 5, offset: 46972},
 										run: (*parser).callonLink124,
 										expr: &seqExpr{
-											pos: position{line: 1455, col: 5, offset: 47034},
+											pos: position{line: 1454, col: 5, offset: 46972},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1455, col: 5, offset: 47034},
+													pos:   position{line: 1454, col: 5, offset: 46972},
 													label: "local",
 													expr: &actionExpr{
-														pos: position{line: 1455, col: 12, offset: 47041},
+														pos: position{line: 1454, col: 12, offset: 46979},
 														run: (*parser).callonLink127,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1455, col: 12, offset: 47041},
+															pos: position{line: 1454, col: 12, offset: 46979},
 															expr: &charClassMatcher{
-																pos:        position{line: 1455, col: 12, offset: 47041},
+																pos:        position{line: 1454, col: 12, offset: 46979},
 																val:        "[!#$%&\\*=?^_`{|}~.+-/\\pL\\pN]",
 																chars:      []rune{'!', '#', '$', '%', '&', '\'', '*', '=', '?', '^', '_', '`', '{', '|', '}', '~', '.'},
 																ranges:     []rune{'+', '/'},
@@ -22086,7 +22042,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1458, col: 5, offset: 47125},
+													pos: position{line: 1457, col: 5, offset: 47063},
 													run: (*parser).callonLink130,
 												},
 											},
@@ -22094,24 +22050,24 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1450, col: 43, offset: 46895},
+									pos:        position{line: 1449, col: 43, offset: 46833},
 									val:        "@",
 									ignoreCase: false,
 									want:       "\"@\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1450, col: 47, offset: 46899},
+									pos:   position{line: 1449, col: 47, offset: 46837},
 									label: "domain",
 									expr: &actionExpr{
-										pos: position{line: 1468, col: 23, offset: 47476},
+										pos: position{line: 1467, col: 23, offset: 47414},
 										run: (*parser).callonLink133,
 										expr: &seqExpr{
-											pos: position{line: 1468, col: 23, offset: 47476},
+											pos: position{line: 1467, col: 23, offset: 47414},
 											exprs: []interface{}{
 												&oneOrMoreExpr{
-													pos: position{line: 1472, col: 28, offset: 47602},
+													pos: position{line: 1471, col: 28, offset: 47540},
 													expr: &charClassMatcher{
-														pos:        position{line: 1472, col: 28, offset: 47602},
+														pos:        position{line: 1471, col: 28, offset: 47540},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -22119,20 +22075,20 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1472, col: 38, offset: 47612},
+													pos: position{line: 1471, col: 38, offset: 47550},
 													expr: &seqExpr{
-														pos: position{line: 1472, col: 39, offset: 47613},
+														pos: position{line: 1471, col: 39, offset: 47551},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 1472, col: 39, offset: 47613},
+																pos:        position{line: 1471, col: 39, offset: 47551},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 															&oneOrMoreExpr{
-																pos: position{line: 1472, col: 43, offset: 47617},
+																pos: position{line: 1471, col: 43, offset: 47555},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1472, col: 43, offset: 47617},
+																	pos:        position{line: 1471, col: 43, offset: 47555},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -22143,20 +22099,20 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1468, col: 47, offset: 47500},
+													pos: position{line: 1467, col: 47, offset: 47438},
 													expr: &seqExpr{
-														pos: position{line: 1468, col: 48, offset: 47501},
+														pos: position{line: 1467, col: 48, offset: 47439},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 1468, col: 48, offset: 47501},
+																pos:        position{line: 1467, col: 48, offset: 47439},
 																val:        ".",
 																ignoreCase: false,
 																want:       "\".\"",
 															},
 															&oneOrMoreExpr{
-																pos: position{line: 1472, col: 28, offset: 47602},
+																pos: position{line: 1471, col: 28, offset: 47540},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1472, col: 28, offset: 47602},
+																	pos:        position{line: 1471, col: 28, offset: 47540},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -22164,20 +22120,20 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 1472, col: 38, offset: 47612},
+																pos: position{line: 1471, col: 38, offset: 47550},
 																expr: &seqExpr{
-																	pos: position{line: 1472, col: 39, offset: 47613},
+																	pos: position{line: 1471, col: 39, offset: 47551},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 1472, col: 39, offset: 47613},
+																			pos:        position{line: 1471, col: 39, offset: 47551},
 																			val:        "-",
 																			ignoreCase: false,
 																			want:       "\"-\"",
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 1472, col: 43, offset: 47617},
+																			pos: position{line: 1471, col: 43, offset: 47555},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1472, col: 43, offset: 47617},
+																				pos:        position{line: 1471, col: 43, offset: 47555},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -22202,68 +22158,68 @@ var g = &grammar{
 		},
 		{
 			name: "RelativeLink",
-			pos:  position{line: 1427, col: 1, offset: 46024},
+			pos:  position{line: 1426, col: 1, offset: 45962},
 			expr: &choiceExpr{
-				pos: position{line: 1429, col: 5, offset: 46060},
+				pos: position{line: 1428, col: 5, offset: 45998},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1429, col: 5, offset: 46060},
+						pos: position{line: 1428, col: 5, offset: 45998},
 						run: (*parser).callonRelativeLink2,
 						expr: &seqExpr{
-							pos: position{line: 1429, col: 5, offset: 46060},
+							pos: position{line: 1428, col: 5, offset: 45998},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1429, col: 5, offset: 46060},
+									pos:        position{line: 1428, col: 5, offset: 45998},
 									val:        "\\link:",
 									ignoreCase: false,
 									want:       "\"\\\\link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1429, col: 17, offset: 46072},
+									pos:   position{line: 1428, col: 17, offset: 46010},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2831, col: 13, offset: 89721},
+										pos: position{line: 2830, col: 13, offset: 89659},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2831, col: 13, offset: 89721},
+											pos: position{line: 2830, col: 13, offset: 89659},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2831, col: 13, offset: 89721},
+													pos:   position{line: 2830, col: 13, offset: 89659},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2831, col: 20, offset: 89728},
+														pos: position{line: 2830, col: 20, offset: 89666},
 														expr: &actionExpr{
-															pos: position{line: 2839, col: 11, offset: 89967},
+															pos: position{line: 2838, col: 11, offset: 89905},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2839, col: 12, offset: 89968},
+																pos: position{line: 2838, col: 12, offset: 89906},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2839, col: 12, offset: 89968},
+																		pos:        position{line: 2838, col: 12, offset: 89906},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2839, col: 24, offset: 89980},
+																		pos:        position{line: 2838, col: 24, offset: 89918},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2839, col: 37, offset: 89993},
+																		pos:        position{line: 2838, col: 37, offset: 89931},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2839, col: 48, offset: 90004},
+																		pos:        position{line: 2838, col: 48, offset: 89942},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2839, col: 59, offset: 90015},
+																		pos:        position{line: 2838, col: 59, offset: 89953},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22274,38 +22230,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2831, col: 30, offset: 89738},
+													pos:   position{line: 2830, col: 30, offset: 89676},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2844, col: 5, offset: 90079},
+														pos: position{line: 2843, col: 5, offset: 90017},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2844, col: 5, offset: 90079},
+															pos:   position{line: 2843, col: 5, offset: 90017},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2844, col: 14, offset: 90088},
+																pos: position{line: 2843, col: 14, offset: 90026},
 																expr: &choiceExpr{
-																	pos: position{line: 2845, col: 9, offset: 90098},
+																	pos: position{line: 2844, col: 9, offset: 90036},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2845, col: 9, offset: 90098},
+																			pos: position{line: 2844, col: 9, offset: 90036},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2845, col: 9, offset: 90098},
+																				pos: position{line: 2844, col: 9, offset: 90036},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2845, col: 9, offset: 90098},
+																						pos: position{line: 2844, col: 9, offset: 90036},
 																						expr: &litMatcher{
-																							pos:        position{line: 2845, col: 10, offset: 90099},
+																							pos:        position{line: 2844, col: 10, offset: 90037},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2846, col: 9, offset: 90127},
+																						pos: position{line: 2845, col: 9, offset: 90065},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2846, col: 10, offset: 90128},
+																							pos:        position{line: 2845, col: 10, offset: 90066},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22316,27 +22272,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2849, col: 11, offset: 90340},
+																			pos: position{line: 2848, col: 11, offset: 90278},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2849, col: 11, offset: 90340},
+																					pos:        position{line: 2848, col: 11, offset: 90278},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2849, col: 19, offset: 90348},
+																					pos: position{line: 2848, col: 19, offset: 90286},
 																					expr: &seqExpr{
-																						pos: position{line: 2849, col: 21, offset: 90350},
+																						pos: position{line: 2848, col: 21, offset: 90288},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2849, col: 21, offset: 90350},
+																								pos: position{line: 2848, col: 21, offset: 90288},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90962},
+																									pos: position{line: 2872, col: 10, offset: 90900},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90962},
+																										pos:        position{line: 2872, col: 10, offset: 90900},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22345,11 +22301,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2849, col: 28, offset: 90357},
+																								pos: position{line: 2848, col: 28, offset: 90295},
 																								expr: &notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91310},
+																									pos: position{line: 2891, col: 8, offset: 91248},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91311,
+																										line: 2891, col: 9, offset: 91249,
 																									},
 																								},
 																							},
@@ -22359,44 +22315,44 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 636, col: 5, offset: 20178},
+																			pos: position{line: 635, col: 5, offset: 20116},
 																			run: (*parser).callonRelativeLink38,
 																			expr: &seqExpr{
-																				pos: position{line: 636, col: 5, offset: 20178},
+																				pos: position{line: 635, col: 5, offset: 20116},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 636, col: 5, offset: 20178},
+																						pos: position{line: 635, col: 5, offset: 20116},
 																						run: (*parser).callonRelativeLink40,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 639, col: 5, offset: 20250},
+																						pos:   position{line: 638, col: 5, offset: 20188},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 639, col: 14, offset: 20259},
+																							pos: position{line: 638, col: 14, offset: 20197},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 645, col: 5, offset: 20388},
+																									pos: position{line: 644, col: 5, offset: 20326},
 																									run: (*parser).callonRelativeLink43,
 																									expr: &seqExpr{
-																										pos: position{line: 645, col: 5, offset: 20388},
+																										pos: position{line: 644, col: 5, offset: 20326},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 645, col: 5, offset: 20388},
+																												pos:        position{line: 644, col: 5, offset: 20326},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 645, col: 13, offset: 20396},
+																												pos:   position{line: 644, col: 13, offset: 20334},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9729},
+																													pos: position{line: 317, col: 18, offset: 9667},
 																													run: (*parser).callonRelativeLink47,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9729},
+																														pos: position{line: 317, col: 18, offset: 9667},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9729},
+																																pos:        position{line: 317, col: 18, offset: 9667},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22404,9 +22360,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9739},
+																																pos: position{line: 317, col: 28, offset: 9677},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9740},
+																																	pos:        position{line: 317, col: 29, offset: 9678},
 																																	val:        "[_-\\pL\\pN]",
 																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22419,7 +22375,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 645, col: 32, offset: 20415},
+																												pos:        position{line: 644, col: 32, offset: 20353},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22428,28 +22384,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 652, col: 5, offset: 20656},
+																									pos: position{line: 651, col: 5, offset: 20594},
 																									run: (*parser).callonRelativeLink53,
 																									expr: &seqExpr{
-																										pos: position{line: 652, col: 5, offset: 20656},
+																										pos: position{line: 651, col: 5, offset: 20594},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 652, col: 5, offset: 20656},
+																												pos:        position{line: 651, col: 5, offset: 20594},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 652, col: 9, offset: 20660},
+																												pos:   position{line: 651, col: 9, offset: 20598},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9729},
+																													pos: position{line: 317, col: 18, offset: 9667},
 																													run: (*parser).callonRelativeLink57,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9729},
+																														pos: position{line: 317, col: 18, offset: 9667},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9729},
+																																pos:        position{line: 317, col: 18, offset: 9667},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22457,9 +22413,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9739},
+																																pos: position{line: 317, col: 28, offset: 9677},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9740},
+																																	pos:        position{line: 317, col: 29, offset: 9678},
 																																	val:        "[_-\\pL\\pN]",
 																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22472,7 +22428,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 652, col: 28, offset: 20679},
+																												pos:        position{line: 651, col: 28, offset: 20617},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22481,28 +22437,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 658, col: 25, offset: 20860},
+																									pos: position{line: 657, col: 25, offset: 20798},
 																									run: (*parser).callonRelativeLink63,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 25, offset: 20860},
+																										pos: position{line: 657, col: 25, offset: 20798},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 658, col: 25, offset: 20860},
+																												pos:        position{line: 657, col: 25, offset: 20798},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 37, offset: 20872},
+																												pos:   position{line: 657, col: 37, offset: 20810},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9729},
+																													pos: position{line: 317, col: 18, offset: 9667},
 																													run: (*parser).callonRelativeLink67,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9729},
+																														pos: position{line: 317, col: 18, offset: 9667},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9729},
+																																pos:        position{line: 317, col: 18, offset: 9667},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22510,9 +22466,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9739},
+																																pos: position{line: 317, col: 28, offset: 9677},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9740},
+																																	pos:        position{line: 317, col: 29, offset: 9678},
 																																	val:        "[_-\\pL\\pN]",
 																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22525,33 +22481,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 56, offset: 20891},
+																												pos:   position{line: 657, col: 56, offset: 20829},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 658, col: 62, offset: 20897},
+																													pos: position{line: 657, col: 62, offset: 20835},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21192},
+																														pos: position{line: 665, col: 17, offset: 21130},
 																														run: (*parser).callonRelativeLink74,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21192},
+																															pos: position{line: 665, col: 17, offset: 21130},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21192},
+																																	pos:        position{line: 665, col: 17, offset: 21130},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21196},
+																																	pos:   position{line: 665, col: 21, offset: 21134},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21203},
+																																		pos: position{line: 665, col: 28, offset: 21141},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21203},
+																																				pos: position{line: 665, col: 28, offset: 21141},
 																																				run: (*parser).callonRelativeLink79,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21203},
+																																					pos:        position{line: 665, col: 28, offset: 21141},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22559,12 +22515,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21257},
+																																				pos: position{line: 667, col: 9, offset: 21195},
 																																				run: (*parser).callonRelativeLink81,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21257},
+																																					pos: position{line: 667, col: 9, offset: 21195},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21257},
+																																						pos:        position{line: 667, col: 9, offset: 21195},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -22581,7 +22537,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 78, offset: 20913},
+																												pos:        position{line: 657, col: 78, offset: 20851},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22590,28 +22546,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 662, col: 25, offset: 21031},
+																									pos: position{line: 661, col: 25, offset: 20969},
 																									run: (*parser).callonRelativeLink85,
 																									expr: &seqExpr{
-																										pos: position{line: 662, col: 25, offset: 21031},
+																										pos: position{line: 661, col: 25, offset: 20969},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 662, col: 25, offset: 21031},
+																												pos:        position{line: 661, col: 25, offset: 20969},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 38, offset: 21044},
+																												pos:   position{line: 661, col: 38, offset: 20982},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9729},
+																													pos: position{line: 317, col: 18, offset: 9667},
 																													run: (*parser).callonRelativeLink89,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9729},
+																														pos: position{line: 317, col: 18, offset: 9667},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9729},
+																																pos:        position{line: 317, col: 18, offset: 9667},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22619,9 +22575,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9739},
+																																pos: position{line: 317, col: 28, offset: 9677},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9740},
+																																	pos:        position{line: 317, col: 29, offset: 9678},
 																																	val:        "[_-\\pL\\pN]",
 																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22634,33 +22590,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 57, offset: 21063},
+																												pos:   position{line: 661, col: 57, offset: 21001},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 662, col: 63, offset: 21069},
+																													pos: position{line: 661, col: 63, offset: 21007},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21192},
+																														pos: position{line: 665, col: 17, offset: 21130},
 																														run: (*parser).callonRelativeLink96,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21192},
+																															pos: position{line: 665, col: 17, offset: 21130},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21192},
+																																	pos:        position{line: 665, col: 17, offset: 21130},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21196},
+																																	pos:   position{line: 665, col: 21, offset: 21134},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21203},
+																																		pos: position{line: 665, col: 28, offset: 21141},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21203},
+																																				pos: position{line: 665, col: 28, offset: 21141},
 																																				run: (*parser).callonRelativeLink101,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21203},
+																																					pos:        position{line: 665, col: 28, offset: 21141},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22668,12 +22624,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21257},
+																																				pos: position{line: 667, col: 9, offset: 21195},
 																																				run: (*parser).callonRelativeLink103,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21257},
+																																					pos: position{line: 667, col: 9, offset: 21195},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21257},
+																																						pos:        position{line: 667, col: 9, offset: 21195},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -22690,7 +22646,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 662, col: 79, offset: 21085},
+																												pos:        position{line: 661, col: 79, offset: 21023},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22705,27 +22661,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1198, col: 23, offset: 37046},
+																			pos: position{line: 1197, col: 23, offset: 36984},
 																			run: (*parser).callonRelativeLink107,
 																			expr: &seqExpr{
-																				pos: position{line: 1198, col: 23, offset: 37046},
+																				pos: position{line: 1197, col: 23, offset: 36984},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 37014},
+																						pos:        position{line: 1195, col: 32, offset: 36952},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1198, col: 51, offset: 37074},
+																						pos:   position{line: 1197, col: 51, offset: 37012},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1198, col: 56, offset: 37079},
+																							pos: position{line: 1197, col: 56, offset: 37017},
 																							run: (*parser).callonRelativeLink111,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1198, col: 56, offset: 37079},
+																								pos: position{line: 1197, col: 56, offset: 37017},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1198, col: 56, offset: 37079},
+																									pos:        position{line: 1197, col: 56, offset: 37017},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -22735,7 +22691,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 37014},
+																						pos:        position{line: 1195, col: 32, offset: 36952},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -22744,10 +22700,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2852, col: 11, offset: 90477},
+																			pos: position{line: 2851, col: 11, offset: 90415},
 																			run: (*parser).callonRelativeLink115,
 																			expr: &litMatcher{
-																				pos:        position{line: 2852, col: 11, offset: 90477},
+																				pos:        position{line: 2851, col: 11, offset: 90415},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22764,10 +22720,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1429, col: 32, offset: 46087},
+									pos:   position{line: 1428, col: 32, offset: 46025},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1429, col: 44, offset: 46099},
+										pos:  position{line: 1428, col: 44, offset: 46037},
 										name: "InlineAttributes",
 									},
 								},
@@ -22775,63 +22731,63 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1434, col: 5, offset: 46231},
+						pos: position{line: 1433, col: 5, offset: 46169},
 						run: (*parser).callonRelativeLink119,
 						expr: &seqExpr{
-							pos: position{line: 1434, col: 5, offset: 46231},
+							pos: position{line: 1433, col: 5, offset: 46169},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1434, col: 5, offset: 46231},
+									pos:        position{line: 1433, col: 5, offset: 46169},
 									val:        "link:",
 									ignoreCase: false,
 									want:       "\"link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1434, col: 13, offset: 46239},
+									pos:   position{line: 1433, col: 13, offset: 46177},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2831, col: 13, offset: 89721},
+										pos: position{line: 2830, col: 13, offset: 89659},
 										run: (*parser).callonRelativeLink123,
 										expr: &seqExpr{
-											pos: position{line: 2831, col: 13, offset: 89721},
+											pos: position{line: 2830, col: 13, offset: 89659},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2831, col: 13, offset: 89721},
+													pos:   position{line: 2830, col: 13, offset: 89659},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2831, col: 20, offset: 89728},
+														pos: position{line: 2830, col: 20, offset: 89666},
 														expr: &actionExpr{
-															pos: position{line: 2839, col: 11, offset: 89967},
+															pos: position{line: 2838, col: 11, offset: 89905},
 															run: (*parser).callonRelativeLink127,
 															expr: &choiceExpr{
-																pos: position{line: 2839, col: 12, offset: 89968},
+																pos: position{line: 2838, col: 12, offset: 89906},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2839, col: 12, offset: 89968},
+																		pos:        position{line: 2838, col: 12, offset: 89906},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2839, col: 24, offset: 89980},
+																		pos:        position{line: 2838, col: 24, offset: 89918},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2839, col: 37, offset: 89993},
+																		pos:        position{line: 2838, col: 37, offset: 89931},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2839, col: 48, offset: 90004},
+																		pos:        position{line: 2838, col: 48, offset: 89942},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2839, col: 59, offset: 90015},
+																		pos:        position{line: 2838, col: 59, offset: 89953},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22842,38 +22798,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2831, col: 30, offset: 89738},
+													pos:   position{line: 2830, col: 30, offset: 89676},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2844, col: 5, offset: 90079},
+														pos: position{line: 2843, col: 5, offset: 90017},
 														run: (*parser).callonRelativeLink135,
 														expr: &labeledExpr{
-															pos:   position{line: 2844, col: 5, offset: 90079},
+															pos:   position{line: 2843, col: 5, offset: 90017},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2844, col: 14, offset: 90088},
+																pos: position{line: 2843, col: 14, offset: 90026},
 																expr: &choiceExpr{
-																	pos: position{line: 2845, col: 9, offset: 90098},
+																	pos: position{line: 2844, col: 9, offset: 90036},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2845, col: 9, offset: 90098},
+																			pos: position{line: 2844, col: 9, offset: 90036},
 																			run: (*parser).callonRelativeLink139,
 																			expr: &seqExpr{
-																				pos: position{line: 2845, col: 9, offset: 90098},
+																				pos: position{line: 2844, col: 9, offset: 90036},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2845, col: 9, offset: 90098},
+																						pos: position{line: 2844, col: 9, offset: 90036},
 																						expr: &litMatcher{
-																							pos:        position{line: 2845, col: 10, offset: 90099},
+																							pos:        position{line: 2844, col: 10, offset: 90037},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2846, col: 9, offset: 90127},
+																						pos: position{line: 2845, col: 9, offset: 90065},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2846, col: 10, offset: 90128},
+																							pos:        position{line: 2845, col: 10, offset: 90066},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22884,27 +22840,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2849, col: 11, offset: 90340},
+																			pos: position{line: 2848, col: 11, offset: 90278},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2849, col: 11, offset: 90340},
+																					pos:        position{line: 2848, col: 11, offset: 90278},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2849, col: 19, offset: 90348},
+																					pos: position{line: 2848, col: 19, offset: 90286},
 																					expr: &seqExpr{
-																						pos: position{line: 2849, col: 21, offset: 90350},
+																						pos: position{line: 2848, col: 21, offset: 90288},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2849, col: 21, offset: 90350},
+																								pos: position{line: 2848, col: 21, offset: 90288},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90962},
+																									pos: position{line: 2872, col: 10, offset: 90900},
 																									run: (*parser).callonRelativeLink150,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90962},
+																										pos:        position{line: 2872, col: 10, offset: 90900},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22913,11 +22869,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2849, col: 28, offset: 90357},
+																								pos: position{line: 2848, col: 28, offset: 90295},
 																								expr: &notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91310},
+																									pos: position{line: 2891, col: 8, offset: 91248},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91311,
+																										line: 2891, col: 9, offset: 91249,
 																									},
 																								},
 																							},
@@ -22927,44 +22883,44 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 636, col: 5, offset: 20178},
+																			pos: position{line: 635, col: 5, offset: 20116},
 																			run: (*parser).callonRelativeLink155,
 																			expr: &seqExpr{
-																				pos: position{line: 636, col: 5, offset: 20178},
+																				pos: position{line: 635, col: 5, offset: 20116},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 636, col: 5, offset: 20178},
+																						pos: position{line: 635, col: 5, offset: 20116},
 																						run: (*parser).callonRelativeLink157,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 639, col: 5, offset: 20250},
+																						pos:   position{line: 638, col: 5, offset: 20188},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 639, col: 14, offset: 20259},
+																							pos: position{line: 638, col: 14, offset: 20197},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 645, col: 5, offset: 20388},
+																									pos: position{line: 644, col: 5, offset: 20326},
 																									run: (*parser).callonRelativeLink160,
 																									expr: &seqExpr{
-																										pos: position{line: 645, col: 5, offset: 20388},
+																										pos: position{line: 644, col: 5, offset: 20326},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 645, col: 5, offset: 20388},
+																												pos:        position{line: 644, col: 5, offset: 20326},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 645, col: 13, offset: 20396},
+																												pos:   position{line: 644, col: 13, offset: 20334},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9729},
+																													pos: position{line: 317, col: 18, offset: 9667},
 																													run: (*parser).callonRelativeLink164,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9729},
+																														pos: position{line: 317, col: 18, offset: 9667},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9729},
+																																pos:        position{line: 317, col: 18, offset: 9667},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22972,9 +22928,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9739},
+																																pos: position{line: 317, col: 28, offset: 9677},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9740},
+																																	pos:        position{line: 317, col: 29, offset: 9678},
 																																	val:        "[_-\\pL\\pN]",
 																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22987,7 +22943,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 645, col: 32, offset: 20415},
+																												pos:        position{line: 644, col: 32, offset: 20353},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22996,28 +22952,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 652, col: 5, offset: 20656},
+																									pos: position{line: 651, col: 5, offset: 20594},
 																									run: (*parser).callonRelativeLink170,
 																									expr: &seqExpr{
-																										pos: position{line: 652, col: 5, offset: 20656},
+																										pos: position{line: 651, col: 5, offset: 20594},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 652, col: 5, offset: 20656},
+																												pos:        position{line: 651, col: 5, offset: 20594},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 652, col: 9, offset: 20660},
+																												pos:   position{line: 651, col: 9, offset: 20598},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9729},
+																													pos: position{line: 317, col: 18, offset: 9667},
 																													run: (*parser).callonRelativeLink174,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9729},
+																														pos: position{line: 317, col: 18, offset: 9667},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9729},
+																																pos:        position{line: 317, col: 18, offset: 9667},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23025,9 +22981,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9739},
+																																pos: position{line: 317, col: 28, offset: 9677},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9740},
+																																	pos:        position{line: 317, col: 29, offset: 9678},
 																																	val:        "[_-\\pL\\pN]",
 																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23040,7 +22996,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 652, col: 28, offset: 20679},
+																												pos:        position{line: 651, col: 28, offset: 20617},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23049,28 +23005,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 658, col: 25, offset: 20860},
+																									pos: position{line: 657, col: 25, offset: 20798},
 																									run: (*parser).callonRelativeLink180,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 25, offset: 20860},
+																										pos: position{line: 657, col: 25, offset: 20798},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 658, col: 25, offset: 20860},
+																												pos:        position{line: 657, col: 25, offset: 20798},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 37, offset: 20872},
+																												pos:   position{line: 657, col: 37, offset: 20810},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9729},
+																													pos: position{line: 317, col: 18, offset: 9667},
 																													run: (*parser).callonRelativeLink184,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9729},
+																														pos: position{line: 317, col: 18, offset: 9667},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9729},
+																																pos:        position{line: 317, col: 18, offset: 9667},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23078,9 +23034,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9739},
+																																pos: position{line: 317, col: 28, offset: 9677},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9740},
+																																	pos:        position{line: 317, col: 29, offset: 9678},
 																																	val:        "[_-\\pL\\pN]",
 																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23093,33 +23049,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 56, offset: 20891},
+																												pos:   position{line: 657, col: 56, offset: 20829},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 658, col: 62, offset: 20897},
+																													pos: position{line: 657, col: 62, offset: 20835},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21192},
+																														pos: position{line: 665, col: 17, offset: 21130},
 																														run: (*parser).callonRelativeLink191,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21192},
+																															pos: position{line: 665, col: 17, offset: 21130},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21192},
+																																	pos:        position{line: 665, col: 17, offset: 21130},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21196},
+																																	pos:   position{line: 665, col: 21, offset: 21134},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21203},
+																																		pos: position{line: 665, col: 28, offset: 21141},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21203},
+																																				pos: position{line: 665, col: 28, offset: 21141},
 																																				run: (*parser).callonRelativeLink196,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21203},
+																																					pos:        position{line: 665, col: 28, offset: 21141},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23127,12 +23083,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21257},
+																																				pos: position{line: 667, col: 9, offset: 21195},
 																																				run: (*parser).callonRelativeLink198,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21257},
+																																					pos: position{line: 667, col: 9, offset: 21195},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21257},
+																																						pos:        position{line: 667, col: 9, offset: 21195},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23149,7 +23105,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 78, offset: 20913},
+																												pos:        position{line: 657, col: 78, offset: 20851},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23158,28 +23114,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 662, col: 25, offset: 21031},
+																									pos: position{line: 661, col: 25, offset: 20969},
 																									run: (*parser).callonRelativeLink202,
 																									expr: &seqExpr{
-																										pos: position{line: 662, col: 25, offset: 21031},
+																										pos: position{line: 661, col: 25, offset: 20969},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 662, col: 25, offset: 21031},
+																												pos:        position{line: 661, col: 25, offset: 20969},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 38, offset: 21044},
+																												pos:   position{line: 661, col: 38, offset: 20982},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9729},
+																													pos: position{line: 317, col: 18, offset: 9667},
 																													run: (*parser).callonRelativeLink206,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9729},
+																														pos: position{line: 317, col: 18, offset: 9667},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9729},
+																																pos:        position{line: 317, col: 18, offset: 9667},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23187,9 +23143,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9739},
+																																pos: position{line: 317, col: 28, offset: 9677},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9740},
+																																	pos:        position{line: 317, col: 29, offset: 9678},
 																																	val:        "[_-\\pL\\pN]",
 																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23202,33 +23158,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 57, offset: 21063},
+																												pos:   position{line: 661, col: 57, offset: 21001},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 662, col: 63, offset: 21069},
+																													pos: position{line: 661, col: 63, offset: 21007},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21192},
+																														pos: position{line: 665, col: 17, offset: 21130},
 																														run: (*parser).callonRelativeLink213,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21192},
+																															pos: position{line: 665, col: 17, offset: 21130},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21192},
+																																	pos:        position{line: 665, col: 17, offset: 21130},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21196},
+																																	pos:   position{line: 665, col: 21, offset: 21134},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21203},
+																																		pos: position{line: 665, col: 28, offset: 21141},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21203},
+																																				pos: position{line: 665, col: 28, offset: 21141},
 																																				run: (*parser).callonRelativeLink218,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21203},
+																																					pos:        position{line: 665, col: 28, offset: 21141},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23236,12 +23192,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21257},
+																																				pos: position{line: 667, col: 9, offset: 21195},
 																																				run: (*parser).callonRelativeLink220,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21257},
+																																					pos: position{line: 667, col: 9, offset: 21195},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21257},
+																																						pos:        position{line: 667, col: 9, offset: 21195},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23258,7 +23214,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 662, col: 79, offset: 21085},
+																												pos:        position{line: 661, col: 79, offset: 21023},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23273,27 +23229,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1198, col: 23, offset: 37046},
+																			pos: position{line: 1197, col: 23, offset: 36984},
 																			run: (*parser).callonRelativeLink224,
 																			expr: &seqExpr{
-																				pos: position{line: 1198, col: 23, offset: 37046},
+																				pos: position{line: 1197, col: 23, offset: 36984},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 37014},
+																						pos:        position{line: 1195, col: 32, offset: 36952},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1198, col: 51, offset: 37074},
+																						pos:   position{line: 1197, col: 51, offset: 37012},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1198, col: 56, offset: 37079},
+																							pos: position{line: 1197, col: 56, offset: 37017},
 																							run: (*parser).callonRelativeLink228,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1198, col: 56, offset: 37079},
+																								pos: position{line: 1197, col: 56, offset: 37017},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1198, col: 56, offset: 37079},
+																									pos:        position{line: 1197, col: 56, offset: 37017},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -23303,7 +23259,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 37014},
+																						pos:        position{line: 1195, col: 32, offset: 36952},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -23312,10 +23268,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2852, col: 11, offset: 90477},
+																			pos: position{line: 2851, col: 11, offset: 90415},
 																			run: (*parser).callonRelativeLink232,
 																			expr: &litMatcher{
-																				pos:        position{line: 2852, col: 11, offset: 90477},
+																				pos:        position{line: 2851, col: 11, offset: 90415},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23332,10 +23288,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1434, col: 28, offset: 46254},
+									pos:   position{line: 1433, col: 28, offset: 46192},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1434, col: 40, offset: 46266},
+										pos:  position{line: 1433, col: 40, offset: 46204},
 										name: "InlineAttributes",
 									},
 								},
@@ -23347,75 +23303,75 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalLink",
-			pos:  position{line: 1438, col: 1, offset: 46382},
+			pos:  position{line: 1437, col: 1, offset: 46320},
 			expr: &choiceExpr{
-				pos: position{line: 1441, col: 5, offset: 46544},
+				pos: position{line: 1440, col: 5, offset: 46482},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1441, col: 5, offset: 46544},
+						pos: position{line: 1440, col: 5, offset: 46482},
 						run: (*parser).callonExternalLink2,
 						expr: &seqExpr{
-							pos: position{line: 1441, col: 5, offset: 46544},
+							pos: position{line: 1440, col: 5, offset: 46482},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1441, col: 5, offset: 46544},
+									pos:        position{line: 1440, col: 5, offset: 46482},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1441, col: 9, offset: 46548},
+									pos:   position{line: 1440, col: 9, offset: 46486},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2835, col: 23, offset: 89848},
+										pos: position{line: 2834, col: 23, offset: 89786},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2835, col: 23, offset: 89848},
+											pos: position{line: 2834, col: 23, offset: 89786},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2835, col: 23, offset: 89848},
+													pos: position{line: 2834, col: 23, offset: 89786},
 													expr: &litMatcher{
-														pos:        position{line: 2835, col: 24, offset: 89849},
+														pos:        position{line: 2834, col: 24, offset: 89787},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2835, col: 28, offset: 89853},
+													pos:   position{line: 2834, col: 28, offset: 89791},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2839, col: 11, offset: 89967},
+														pos: position{line: 2838, col: 11, offset: 89905},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2839, col: 12, offset: 89968},
+															pos: position{line: 2838, col: 12, offset: 89906},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2839, col: 12, offset: 89968},
+																	pos:        position{line: 2838, col: 12, offset: 89906},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2839, col: 24, offset: 89980},
+																	pos:        position{line: 2838, col: 24, offset: 89918},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2839, col: 37, offset: 89993},
+																	pos:        position{line: 2838, col: 37, offset: 89931},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2839, col: 48, offset: 90004},
+																	pos:        position{line: 2838, col: 48, offset: 89942},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2839, col: 59, offset: 90015},
+																	pos:        position{line: 2838, col: 59, offset: 89953},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23425,38 +23381,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2835, col: 44, offset: 89869},
+													pos:   position{line: 2834, col: 44, offset: 89807},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2844, col: 5, offset: 90079},
+														pos: position{line: 2843, col: 5, offset: 90017},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2844, col: 5, offset: 90079},
+															pos:   position{line: 2843, col: 5, offset: 90017},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2844, col: 14, offset: 90088},
+																pos: position{line: 2843, col: 14, offset: 90026},
 																expr: &choiceExpr{
-																	pos: position{line: 2845, col: 9, offset: 90098},
+																	pos: position{line: 2844, col: 9, offset: 90036},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2845, col: 9, offset: 90098},
+																			pos: position{line: 2844, col: 9, offset: 90036},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2845, col: 9, offset: 90098},
+																				pos: position{line: 2844, col: 9, offset: 90036},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2845, col: 9, offset: 90098},
+																						pos: position{line: 2844, col: 9, offset: 90036},
 																						expr: &litMatcher{
-																							pos:        position{line: 2845, col: 10, offset: 90099},
+																							pos:        position{line: 2844, col: 10, offset: 90037},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2846, col: 9, offset: 90127},
+																						pos: position{line: 2845, col: 9, offset: 90065},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2846, col: 10, offset: 90128},
+																							pos:        position{line: 2845, col: 10, offset: 90066},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23467,27 +23423,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2849, col: 11, offset: 90340},
+																			pos: position{line: 2848, col: 11, offset: 90278},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2849, col: 11, offset: 90340},
+																					pos:        position{line: 2848, col: 11, offset: 90278},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2849, col: 19, offset: 90348},
+																					pos: position{line: 2848, col: 19, offset: 90286},
 																					expr: &seqExpr{
-																						pos: position{line: 2849, col: 21, offset: 90350},
+																						pos: position{line: 2848, col: 21, offset: 90288},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2849, col: 21, offset: 90350},
+																								pos: position{line: 2848, col: 21, offset: 90288},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90962},
+																									pos: position{line: 2872, col: 10, offset: 90900},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90962},
+																										pos:        position{line: 2872, col: 10, offset: 90900},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23496,11 +23452,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2849, col: 28, offset: 90357},
+																								pos: position{line: 2848, col: 28, offset: 90295},
 																								expr: &notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91310},
+																									pos: position{line: 2891, col: 8, offset: 91248},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91311,
+																										line: 2891, col: 9, offset: 91249,
 																									},
 																								},
 																							},
@@ -23510,44 +23466,44 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 636, col: 5, offset: 20178},
+																			pos: position{line: 635, col: 5, offset: 20116},
 																			run: (*parser).callonExternalLink39,
 																			expr: &seqExpr{
-																				pos: position{line: 636, col: 5, offset: 20178},
+																				pos: position{line: 635, col: 5, offset: 20116},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 636, col: 5, offset: 20178},
+																						pos: position{line: 635, col: 5, offset: 20116},
 																						run: (*parser).callonExternalLink41,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 639, col: 5, offset: 20250},
+																						pos:   position{line: 638, col: 5, offset: 20188},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 639, col: 14, offset: 20259},
+																							pos: position{line: 638, col: 14, offset: 20197},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 645, col: 5, offset: 20388},
+																									pos: position{line: 644, col: 5, offset: 20326},
 																									run: (*parser).callonExternalLink44,
 																									expr: &seqExpr{
-																										pos: position{line: 645, col: 5, offset: 20388},
+																										pos: position{line: 644, col: 5, offset: 20326},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 645, col: 5, offset: 20388},
+																												pos:        position{line: 644, col: 5, offset: 20326},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 645, col: 13, offset: 20396},
+																												pos:   position{line: 644, col: 13, offset: 20334},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9729},
+																													pos: position{line: 317, col: 18, offset: 9667},
 																													run: (*parser).callonExternalLink48,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9729},
+																														pos: position{line: 317, col: 18, offset: 9667},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9729},
+																																pos:        position{line: 317, col: 18, offset: 9667},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23555,9 +23511,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9739},
+																																pos: position{line: 317, col: 28, offset: 9677},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9740},
+																																	pos:        position{line: 317, col: 29, offset: 9678},
 																																	val:        "[_-\\pL\\pN]",
 																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23570,7 +23526,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 645, col: 32, offset: 20415},
+																												pos:        position{line: 644, col: 32, offset: 20353},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23579,28 +23535,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 652, col: 5, offset: 20656},
+																									pos: position{line: 651, col: 5, offset: 20594},
 																									run: (*parser).callonExternalLink54,
 																									expr: &seqExpr{
-																										pos: position{line: 652, col: 5, offset: 20656},
+																										pos: position{line: 651, col: 5, offset: 20594},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 652, col: 5, offset: 20656},
+																												pos:        position{line: 651, col: 5, offset: 20594},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 652, col: 9, offset: 20660},
+																												pos:   position{line: 651, col: 9, offset: 20598},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9729},
+																													pos: position{line: 317, col: 18, offset: 9667},
 																													run: (*parser).callonExternalLink58,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9729},
+																														pos: position{line: 317, col: 18, offset: 9667},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9729},
+																																pos:        position{line: 317, col: 18, offset: 9667},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23608,9 +23564,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9739},
+																																pos: position{line: 317, col: 28, offset: 9677},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9740},
+																																	pos:        position{line: 317, col: 29, offset: 9678},
 																																	val:        "[_-\\pL\\pN]",
 																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23623,7 +23579,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 652, col: 28, offset: 20679},
+																												pos:        position{line: 651, col: 28, offset: 20617},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23632,28 +23588,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 658, col: 25, offset: 20860},
+																									pos: position{line: 657, col: 25, offset: 20798},
 																									run: (*parser).callonExternalLink64,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 25, offset: 20860},
+																										pos: position{line: 657, col: 25, offset: 20798},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 658, col: 25, offset: 20860},
+																												pos:        position{line: 657, col: 25, offset: 20798},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 37, offset: 20872},
+																												pos:   position{line: 657, col: 37, offset: 20810},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9729},
+																													pos: position{line: 317, col: 18, offset: 9667},
 																													run: (*parser).callonExternalLink68,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9729},
+																														pos: position{line: 317, col: 18, offset: 9667},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9729},
+																																pos:        position{line: 317, col: 18, offset: 9667},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23661,9 +23617,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9739},
+																																pos: position{line: 317, col: 28, offset: 9677},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9740},
+																																	pos:        position{line: 317, col: 29, offset: 9678},
 																																	val:        "[_-\\pL\\pN]",
 																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23676,33 +23632,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 56, offset: 20891},
+																												pos:   position{line: 657, col: 56, offset: 20829},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 658, col: 62, offset: 20897},
+																													pos: position{line: 657, col: 62, offset: 20835},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21192},
+																														pos: position{line: 665, col: 17, offset: 21130},
 																														run: (*parser).callonExternalLink75,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21192},
+																															pos: position{line: 665, col: 17, offset: 21130},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21192},
+																																	pos:        position{line: 665, col: 17, offset: 21130},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21196},
+																																	pos:   position{line: 665, col: 21, offset: 21134},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21203},
+																																		pos: position{line: 665, col: 28, offset: 21141},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21203},
+																																				pos: position{line: 665, col: 28, offset: 21141},
 																																				run: (*parser).callonExternalLink80,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21203},
+																																					pos:        position{line: 665, col: 28, offset: 21141},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23710,12 +23666,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21257},
+																																				pos: position{line: 667, col: 9, offset: 21195},
 																																				run: (*parser).callonExternalLink82,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21257},
+																																					pos: position{line: 667, col: 9, offset: 21195},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21257},
+																																						pos:        position{line: 667, col: 9, offset: 21195},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23732,7 +23688,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 78, offset: 20913},
+																												pos:        position{line: 657, col: 78, offset: 20851},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23741,28 +23697,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 662, col: 25, offset: 21031},
+																									pos: position{line: 661, col: 25, offset: 20969},
 																									run: (*parser).callonExternalLink86,
 																									expr: &seqExpr{
-																										pos: position{line: 662, col: 25, offset: 21031},
+																										pos: position{line: 661, col: 25, offset: 20969},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 662, col: 25, offset: 21031},
+																												pos:        position{line: 661, col: 25, offset: 20969},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 38, offset: 21044},
+																												pos:   position{line: 661, col: 38, offset: 20982},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9729},
+																													pos: position{line: 317, col: 18, offset: 9667},
 																													run: (*parser).callonExternalLink90,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9729},
+																														pos: position{line: 317, col: 18, offset: 9667},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9729},
+																																pos:        position{line: 317, col: 18, offset: 9667},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23770,9 +23726,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9739},
+																																pos: position{line: 317, col: 28, offset: 9677},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9740},
+																																	pos:        position{line: 317, col: 29, offset: 9678},
 																																	val:        "[_-\\pL\\pN]",
 																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -23785,33 +23741,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 57, offset: 21063},
+																												pos:   position{line: 661, col: 57, offset: 21001},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 662, col: 63, offset: 21069},
+																													pos: position{line: 661, col: 63, offset: 21007},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21192},
+																														pos: position{line: 665, col: 17, offset: 21130},
 																														run: (*parser).callonExternalLink97,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21192},
+																															pos: position{line: 665, col: 17, offset: 21130},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21192},
+																																	pos:        position{line: 665, col: 17, offset: 21130},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21196},
+																																	pos:   position{line: 665, col: 21, offset: 21134},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21203},
+																																		pos: position{line: 665, col: 28, offset: 21141},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21203},
+																																				pos: position{line: 665, col: 28, offset: 21141},
 																																				run: (*parser).callonExternalLink102,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21203},
+																																					pos:        position{line: 665, col: 28, offset: 21141},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23819,12 +23775,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21257},
+																																				pos: position{line: 667, col: 9, offset: 21195},
 																																				run: (*parser).callonExternalLink104,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21257},
+																																					pos: position{line: 667, col: 9, offset: 21195},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21257},
+																																						pos:        position{line: 667, col: 9, offset: 21195},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23841,7 +23797,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 662, col: 79, offset: 21085},
+																												pos:        position{line: 661, col: 79, offset: 21023},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23856,27 +23812,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1198, col: 23, offset: 37046},
+																			pos: position{line: 1197, col: 23, offset: 36984},
 																			run: (*parser).callonExternalLink108,
 																			expr: &seqExpr{
-																				pos: position{line: 1198, col: 23, offset: 37046},
+																				pos: position{line: 1197, col: 23, offset: 36984},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 37014},
+																						pos:        position{line: 1195, col: 32, offset: 36952},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1198, col: 51, offset: 37074},
+																						pos:   position{line: 1197, col: 51, offset: 37012},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1198, col: 56, offset: 37079},
+																							pos: position{line: 1197, col: 56, offset: 37017},
 																							run: (*parser).callonExternalLink112,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1198, col: 56, offset: 37079},
+																								pos: position{line: 1197, col: 56, offset: 37017},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1198, col: 56, offset: 37079},
+																									pos:        position{line: 1197, col: 56, offset: 37017},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -23886,7 +23842,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 37014},
+																						pos:        position{line: 1195, col: 32, offset: 36952},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -23895,10 +23851,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2852, col: 11, offset: 90477},
+																			pos: position{line: 2851, col: 11, offset: 90415},
 																			run: (*parser).callonExternalLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2852, col: 11, offset: 90477},
+																				pos:        position{line: 2851, col: 11, offset: 90415},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23915,12 +23871,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1441, col: 34, offset: 46573},
+									pos:   position{line: 1440, col: 34, offset: 46511},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1441, col: 45, offset: 46584},
+										pos: position{line: 1440, col: 45, offset: 46522},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1441, col: 46, offset: 46585},
+											pos:  position{line: 1440, col: 46, offset: 46523},
 											name: "InlineAttributes",
 										},
 									},
@@ -23929,64 +23885,64 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1446, col: 5, offset: 46718},
+						pos: position{line: 1445, col: 5, offset: 46656},
 						run: (*parser).callonExternalLink121,
 						expr: &seqExpr{
-							pos: position{line: 1446, col: 5, offset: 46718},
+							pos: position{line: 1445, col: 5, offset: 46656},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1446, col: 5, offset: 46718},
+									pos:   position{line: 1445, col: 5, offset: 46656},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2835, col: 23, offset: 89848},
+										pos: position{line: 2834, col: 23, offset: 89786},
 										run: (*parser).callonExternalLink124,
 										expr: &seqExpr{
-											pos: position{line: 2835, col: 23, offset: 89848},
+											pos: position{line: 2834, col: 23, offset: 89786},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2835, col: 23, offset: 89848},
+													pos: position{line: 2834, col: 23, offset: 89786},
 													expr: &litMatcher{
-														pos:        position{line: 2835, col: 24, offset: 89849},
+														pos:        position{line: 2834, col: 24, offset: 89787},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2835, col: 28, offset: 89853},
+													pos:   position{line: 2834, col: 28, offset: 89791},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2839, col: 11, offset: 89967},
+														pos: position{line: 2838, col: 11, offset: 89905},
 														run: (*parser).callonExternalLink129,
 														expr: &choiceExpr{
-															pos: position{line: 2839, col: 12, offset: 89968},
+															pos: position{line: 2838, col: 12, offset: 89906},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2839, col: 12, offset: 89968},
+																	pos:        position{line: 2838, col: 12, offset: 89906},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2839, col: 24, offset: 89980},
+																	pos:        position{line: 2838, col: 24, offset: 89918},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2839, col: 37, offset: 89993},
+																	pos:        position{line: 2838, col: 37, offset: 89931},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2839, col: 48, offset: 90004},
+																	pos:        position{line: 2838, col: 48, offset: 89942},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2839, col: 59, offset: 90015},
+																	pos:        position{line: 2838, col: 59, offset: 89953},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23996,38 +23952,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2835, col: 44, offset: 89869},
+													pos:   position{line: 2834, col: 44, offset: 89807},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2844, col: 5, offset: 90079},
+														pos: position{line: 2843, col: 5, offset: 90017},
 														run: (*parser).callonExternalLink137,
 														expr: &labeledExpr{
-															pos:   position{line: 2844, col: 5, offset: 90079},
+															pos:   position{line: 2843, col: 5, offset: 90017},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2844, col: 14, offset: 90088},
+																pos: position{line: 2843, col: 14, offset: 90026},
 																expr: &choiceExpr{
-																	pos: position{line: 2845, col: 9, offset: 90098},
+																	pos: position{line: 2844, col: 9, offset: 90036},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2845, col: 9, offset: 90098},
+																			pos: position{line: 2844, col: 9, offset: 90036},
 																			run: (*parser).callonExternalLink141,
 																			expr: &seqExpr{
-																				pos: position{line: 2845, col: 9, offset: 90098},
+																				pos: position{line: 2844, col: 9, offset: 90036},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2845, col: 9, offset: 90098},
+																						pos: position{line: 2844, col: 9, offset: 90036},
 																						expr: &litMatcher{
-																							pos:        position{line: 2845, col: 10, offset: 90099},
+																							pos:        position{line: 2844, col: 10, offset: 90037},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2846, col: 9, offset: 90127},
+																						pos: position{line: 2845, col: 9, offset: 90065},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2846, col: 10, offset: 90128},
+																							pos:        position{line: 2845, col: 10, offset: 90066},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24038,27 +23994,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2849, col: 11, offset: 90340},
+																			pos: position{line: 2848, col: 11, offset: 90278},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2849, col: 11, offset: 90340},
+																					pos:        position{line: 2848, col: 11, offset: 90278},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2849, col: 19, offset: 90348},
+																					pos: position{line: 2848, col: 19, offset: 90286},
 																					expr: &seqExpr{
-																						pos: position{line: 2849, col: 21, offset: 90350},
+																						pos: position{line: 2848, col: 21, offset: 90288},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2849, col: 21, offset: 90350},
+																								pos: position{line: 2848, col: 21, offset: 90288},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90962},
+																									pos: position{line: 2872, col: 10, offset: 90900},
 																									run: (*parser).callonExternalLink152,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90962},
+																										pos:        position{line: 2872, col: 10, offset: 90900},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24067,11 +24023,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2849, col: 28, offset: 90357},
+																								pos: position{line: 2848, col: 28, offset: 90295},
 																								expr: &notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91310},
+																									pos: position{line: 2891, col: 8, offset: 91248},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91311,
+																										line: 2891, col: 9, offset: 91249,
 																									},
 																								},
 																							},
@@ -24081,44 +24037,44 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 636, col: 5, offset: 20178},
+																			pos: position{line: 635, col: 5, offset: 20116},
 																			run: (*parser).callonExternalLink157,
 																			expr: &seqExpr{
-																				pos: position{line: 636, col: 5, offset: 20178},
+																				pos: position{line: 635, col: 5, offset: 20116},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 636, col: 5, offset: 20178},
+																						pos: position{line: 635, col: 5, offset: 20116},
 																						run: (*parser).callonExternalLink159,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 639, col: 5, offset: 20250},
+																						pos:   position{line: 638, col: 5, offset: 20188},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 639, col: 14, offset: 20259},
+																							pos: position{line: 638, col: 14, offset: 20197},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 645, col: 5, offset: 20388},
+																									pos: position{line: 644, col: 5, offset: 20326},
 																									run: (*parser).callonExternalLink162,
 																									expr: &seqExpr{
-																										pos: position{line: 645, col: 5, offset: 20388},
+																										pos: position{line: 644, col: 5, offset: 20326},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 645, col: 5, offset: 20388},
+																												pos:        position{line: 644, col: 5, offset: 20326},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 645, col: 13, offset: 20396},
+																												pos:   position{line: 644, col: 13, offset: 20334},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9729},
+																													pos: position{line: 317, col: 18, offset: 9667},
 																													run: (*parser).callonExternalLink166,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9729},
+																														pos: position{line: 317, col: 18, offset: 9667},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9729},
+																																pos:        position{line: 317, col: 18, offset: 9667},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -24126,9 +24082,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9739},
+																																pos: position{line: 317, col: 28, offset: 9677},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9740},
+																																	pos:        position{line: 317, col: 29, offset: 9678},
 																																	val:        "[_-\\pL\\pN]",
 																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -24141,7 +24097,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 645, col: 32, offset: 20415},
+																												pos:        position{line: 644, col: 32, offset: 20353},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24150,28 +24106,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 652, col: 5, offset: 20656},
+																									pos: position{line: 651, col: 5, offset: 20594},
 																									run: (*parser).callonExternalLink172,
 																									expr: &seqExpr{
-																										pos: position{line: 652, col: 5, offset: 20656},
+																										pos: position{line: 651, col: 5, offset: 20594},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 652, col: 5, offset: 20656},
+																												pos:        position{line: 651, col: 5, offset: 20594},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 652, col: 9, offset: 20660},
+																												pos:   position{line: 651, col: 9, offset: 20598},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9729},
+																													pos: position{line: 317, col: 18, offset: 9667},
 																													run: (*parser).callonExternalLink176,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9729},
+																														pos: position{line: 317, col: 18, offset: 9667},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9729},
+																																pos:        position{line: 317, col: 18, offset: 9667},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -24179,9 +24135,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9739},
+																																pos: position{line: 317, col: 28, offset: 9677},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9740},
+																																	pos:        position{line: 317, col: 29, offset: 9678},
 																																	val:        "[_-\\pL\\pN]",
 																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -24194,7 +24150,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 652, col: 28, offset: 20679},
+																												pos:        position{line: 651, col: 28, offset: 20617},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24203,28 +24159,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 658, col: 25, offset: 20860},
+																									pos: position{line: 657, col: 25, offset: 20798},
 																									run: (*parser).callonExternalLink182,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 25, offset: 20860},
+																										pos: position{line: 657, col: 25, offset: 20798},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 658, col: 25, offset: 20860},
+																												pos:        position{line: 657, col: 25, offset: 20798},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 37, offset: 20872},
+																												pos:   position{line: 657, col: 37, offset: 20810},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9729},
+																													pos: position{line: 317, col: 18, offset: 9667},
 																													run: (*parser).callonExternalLink186,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9729},
+																														pos: position{line: 317, col: 18, offset: 9667},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9729},
+																																pos:        position{line: 317, col: 18, offset: 9667},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -24232,9 +24188,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9739},
+																																pos: position{line: 317, col: 28, offset: 9677},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9740},
+																																	pos:        position{line: 317, col: 29, offset: 9678},
 																																	val:        "[_-\\pL\\pN]",
 																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -24247,33 +24203,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 56, offset: 20891},
+																												pos:   position{line: 657, col: 56, offset: 20829},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 658, col: 62, offset: 20897},
+																													pos: position{line: 657, col: 62, offset: 20835},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21192},
+																														pos: position{line: 665, col: 17, offset: 21130},
 																														run: (*parser).callonExternalLink193,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21192},
+																															pos: position{line: 665, col: 17, offset: 21130},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21192},
+																																	pos:        position{line: 665, col: 17, offset: 21130},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21196},
+																																	pos:   position{line: 665, col: 21, offset: 21134},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21203},
+																																		pos: position{line: 665, col: 28, offset: 21141},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21203},
+																																				pos: position{line: 665, col: 28, offset: 21141},
 																																				run: (*parser).callonExternalLink198,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21203},
+																																					pos:        position{line: 665, col: 28, offset: 21141},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24281,12 +24237,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21257},
+																																				pos: position{line: 667, col: 9, offset: 21195},
 																																				run: (*parser).callonExternalLink200,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21257},
+																																					pos: position{line: 667, col: 9, offset: 21195},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21257},
+																																						pos:        position{line: 667, col: 9, offset: 21195},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24303,7 +24259,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 78, offset: 20913},
+																												pos:        position{line: 657, col: 78, offset: 20851},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24312,28 +24268,28 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 662, col: 25, offset: 21031},
+																									pos: position{line: 661, col: 25, offset: 20969},
 																									run: (*parser).callonExternalLink204,
 																									expr: &seqExpr{
-																										pos: position{line: 662, col: 25, offset: 21031},
+																										pos: position{line: 661, col: 25, offset: 20969},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 662, col: 25, offset: 21031},
+																												pos:        position{line: 661, col: 25, offset: 20969},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 38, offset: 21044},
+																												pos:   position{line: 661, col: 38, offset: 20982},
 																												label: "name",
 																												expr: &actionExpr{
-																													pos: position{line: 318, col: 18, offset: 9729},
+																													pos: position{line: 317, col: 18, offset: 9667},
 																													run: (*parser).callonExternalLink208,
 																													expr: &seqExpr{
-																														pos: position{line: 318, col: 18, offset: 9729},
+																														pos: position{line: 317, col: 18, offset: 9667},
 																														exprs: []interface{}{
 																															&charClassMatcher{
-																																pos:        position{line: 318, col: 18, offset: 9729},
+																																pos:        position{line: 317, col: 18, offset: 9667},
 																																val:        "[_\\pL\\pN]",
 																																chars:      []rune{'_'},
 																																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -24341,9 +24297,9 @@ var g = &grammar{
 																																inverted:   false,
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 318, col: 28, offset: 9739},
+																																pos: position{line: 317, col: 28, offset: 9677},
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 318, col: 29, offset: 9740},
+																																	pos:        position{line: 317, col: 29, offset: 9678},
 																																	val:        "[_-\\pL\\pN]",
 																																	chars:      []rune{'_', '-'},
 																																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -24356,33 +24312,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 57, offset: 21063},
+																												pos:   position{line: 661, col: 57, offset: 21001},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 662, col: 63, offset: 21069},
+																													pos: position{line: 661, col: 63, offset: 21007},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21192},
+																														pos: position{line: 665, col: 17, offset: 21130},
 																														run: (*parser).callonExternalLink215,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21192},
+																															pos: position{line: 665, col: 17, offset: 21130},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21192},
+																																	pos:        position{line: 665, col: 17, offset: 21130},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21196},
+																																	pos:   position{line: 665, col: 21, offset: 21134},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21203},
+																																		pos: position{line: 665, col: 28, offset: 21141},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21203},
+																																				pos: position{line: 665, col: 28, offset: 21141},
 																																				run: (*parser).callonExternalLink220,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21203},
+																																					pos:        position{line: 665, col: 28, offset: 21141},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24390,12 +24346,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21257},
+																																				pos: position{line: 667, col: 9, offset: 21195},
 																																				run: (*parser).callonExternalLink222,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21257},
+																																					pos: position{line: 667, col: 9, offset: 21195},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21257},
+																																						pos:        position{line: 667, col: 9, offset: 21195},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24412,7 +24368,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 662, col: 79, offset: 21085},
+																												pos:        position{line: 661, col: 79, offset: 21023},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24427,27 +24383,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1198, col: 23, offset: 37046},
+																			pos: position{line: 1197, col: 23, offset: 36984},
 																			run: (*parser).callonExternalLink226,
 																			expr: &seqExpr{
-																				pos: position{line: 1198, col: 23, offset: 37046},
+																				pos: position{line: 1197, col: 23, offset: 36984},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 37014},
+																						pos:        position{line: 1195, col: 32, offset: 36952},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1198, col: 51, offset: 37074},
+																						pos:   position{line: 1197, col: 51, offset: 37012},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1198, col: 56, offset: 37079},
+																							pos: position{line: 1197, col: 56, offset: 37017},
 																							run: (*parser).callonExternalLink230,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1198, col: 56, offset: 37079},
+																								pos: position{line: 1197, col: 56, offset: 37017},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1198, col: 56, offset: 37079},
+																									pos:        position{line: 1197, col: 56, offset: 37017},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -24457,7 +24413,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 37014},
+																						pos:        position{line: 1195, col: 32, offset: 36952},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -24466,10 +24422,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2852, col: 11, offset: 90477},
+																			pos: position{line: 2851, col: 11, offset: 90415},
 																			run: (*parser).callonExternalLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2852, col: 11, offset: 90477},
+																				pos:        position{line: 2851, col: 11, offset: 90415},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24486,12 +24442,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1446, col: 30, offset: 46743},
+									pos:   position{line: 1445, col: 30, offset: 46681},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1446, col: 41, offset: 46754},
+										pos: position{line: 1445, col: 41, offset: 46692},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1446, col: 42, offset: 46755},
+											pos:  position{line: 1445, col: 42, offset: 46693},
 											name: "InlineAttributes",
 										},
 									},
@@ -24504,41 +24460,41 @@ var g = &grammar{
 		},
 		{
 			name: "ListElements",
-			pos:  position{line: 1477, col: 1, offset: 47885},
+			pos:  position{line: 1476, col: 1, offset: 47823},
 			expr: &actionExpr{
-				pos: position{line: 1478, col: 5, offset: 47906},
+				pos: position{line: 1477, col: 5, offset: 47844},
 				run: (*parser).callonListElements1,
 				expr: &seqExpr{
-					pos: position{line: 1478, col: 5, offset: 47906},
+					pos: position{line: 1477, col: 5, offset: 47844},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1478, col: 5, offset: 47906},
+							pos:   position{line: 1477, col: 5, offset: 47844},
 							label: "firstElement",
 							expr: &choiceExpr{
-								pos: position{line: 1484, col: 5, offset: 48108},
+								pos: position{line: 1483, col: 5, offset: 48046},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1577, col: 5, offset: 51042},
+										pos: position{line: 1576, col: 5, offset: 50980},
 										run: (*parser).callonListElements5,
 										expr: &seqExpr{
-											pos: position{line: 1577, col: 5, offset: 51042},
+											pos: position{line: 1576, col: 5, offset: 50980},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1577, col: 5, offset: 51042},
+													pos:   position{line: 1576, col: 5, offset: 50980},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1584, col: 5, offset: 51250},
+														pos: position{line: 1583, col: 5, offset: 51188},
 														run: (*parser).callonListElements8,
 														expr: &seqExpr{
-															pos: position{line: 1584, col: 5, offset: 51250},
+															pos: position{line: 1583, col: 5, offset: 51188},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1584, col: 5, offset: 51250},
+																	pos: position{line: 1583, col: 5, offset: 51188},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90962},
+																		pos: position{line: 2872, col: 10, offset: 90900},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90962},
+																			pos:        position{line: 2872, col: 10, offset: 90900},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24547,27 +24503,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1584, col: 12, offset: 51257},
+																	pos:   position{line: 1583, col: 12, offset: 51195},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1586, col: 9, offset: 51320},
+																		pos: position{line: 1585, col: 9, offset: 51258},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1586, col: 9, offset: 51320},
+																				pos: position{line: 1585, col: 9, offset: 51258},
 																				run: (*parser).callonListElements15,
 																				expr: &seqExpr{
-																					pos: position{line: 1586, col: 9, offset: 51320},
+																					pos: position{line: 1585, col: 9, offset: 51258},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1586, col: 9, offset: 51320},
+																							pos:   position{line: 1585, col: 9, offset: 51258},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1586, col: 16, offset: 51327},
+																								pos: position{line: 1585, col: 16, offset: 51265},
 																								run: (*parser).callonListElements18,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1586, col: 16, offset: 51327},
+																									pos: position{line: 1585, col: 16, offset: 51265},
 																									expr: &litMatcher{
-																										pos:        position{line: 1586, col: 17, offset: 51328},
+																										pos:        position{line: 1585, col: 17, offset: 51266},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -24576,22 +24532,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1590, col: 9, offset: 51428},
+																							pos: position{line: 1589, col: 9, offset: 51366},
 																							run: (*parser).callonListElements21,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1609, col: 11, offset: 52145},
+																				pos: position{line: 1608, col: 11, offset: 52083},
 																				run: (*parser).callonListElements22,
 																				expr: &seqExpr{
-																					pos: position{line: 1609, col: 11, offset: 52145},
+																					pos: position{line: 1608, col: 11, offset: 52083},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1609, col: 11, offset: 52145},
+																							pos: position{line: 1608, col: 11, offset: 52083},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1609, col: 12, offset: 52146},
+																								pos:        position{line: 1608, col: 12, offset: 52084},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -24599,7 +24555,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1609, col: 20, offset: 52154},
+																							pos:        position{line: 1608, col: 20, offset: 52092},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24608,20 +24564,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1611, col: 13, offset: 52271},
+																				pos: position{line: 1610, col: 13, offset: 52209},
 																				run: (*parser).callonListElements27,
 																				expr: &seqExpr{
-																					pos: position{line: 1611, col: 13, offset: 52271},
+																					pos: position{line: 1610, col: 13, offset: 52209},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1611, col: 14, offset: 52272},
+																							pos:        position{line: 1610, col: 14, offset: 52210},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1611, col: 21, offset: 52279},
+																							pos:        position{line: 1610, col: 21, offset: 52217},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24630,20 +24586,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1613, col: 13, offset: 52399},
+																				pos: position{line: 1612, col: 13, offset: 52337},
 																				run: (*parser).callonListElements31,
 																				expr: &seqExpr{
-																					pos: position{line: 1613, col: 13, offset: 52399},
+																					pos: position{line: 1612, col: 13, offset: 52337},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1613, col: 14, offset: 52400},
+																							pos:        position{line: 1612, col: 14, offset: 52338},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1613, col: 21, offset: 52407},
+																							pos:        position{line: 1612, col: 21, offset: 52345},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24652,15 +24608,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1615, col: 13, offset: 52527},
+																				pos: position{line: 1614, col: 13, offset: 52465},
 																				run: (*parser).callonListElements35,
 																				expr: &seqExpr{
-																					pos: position{line: 1615, col: 13, offset: 52527},
+																					pos: position{line: 1614, col: 13, offset: 52465},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1615, col: 13, offset: 52527},
+																							pos: position{line: 1614, col: 13, offset: 52465},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1615, col: 14, offset: 52528},
+																								pos:        position{line: 1614, col: 14, offset: 52466},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -24668,7 +24624,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1615, col: 26, offset: 52540},
+																							pos:        position{line: 1614, col: 26, offset: 52478},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -24677,15 +24633,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1617, col: 13, offset: 52660},
+																				pos: position{line: 1616, col: 13, offset: 52598},
 																				run: (*parser).callonListElements40,
 																				expr: &seqExpr{
-																					pos: position{line: 1617, col: 13, offset: 52660},
+																					pos: position{line: 1616, col: 13, offset: 52598},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1617, col: 13, offset: 52660},
+																							pos: position{line: 1616, col: 13, offset: 52598},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1617, col: 14, offset: 52661},
+																								pos:        position{line: 1616, col: 14, offset: 52599},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -24693,7 +24649,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1617, col: 26, offset: 52673},
+																							pos:        position{line: 1616, col: 26, offset: 52611},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -24705,12 +24661,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2877, col: 11, offset: 91023},
+																	pos: position{line: 2876, col: 11, offset: 90961},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2877, col: 11, offset: 91023},
+																		pos: position{line: 2876, col: 11, offset: 90961},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 11, offset: 91023},
+																			pos:        position{line: 2876, col: 11, offset: 90961},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24723,26 +24679,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1578, col: 5, offset: 51081},
+													pos:   position{line: 1577, col: 5, offset: 51019},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1525, col: 5, offset: 49548},
+														pos: position{line: 1524, col: 5, offset: 49486},
 														run: (*parser).callonListElements49,
 														expr: &seqExpr{
-															pos: position{line: 1525, col: 5, offset: 49548},
+															pos: position{line: 1524, col: 5, offset: 49486},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1525, col: 5, offset: 49548},
+																	pos:   position{line: 1524, col: 5, offset: 49486},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1525, col: 14, offset: 49557},
+																		pos: position{line: 1524, col: 14, offset: 49495},
 																		expr: &actionExpr{
-																			pos: position{line: 1525, col: 15, offset: 49558},
+																			pos: position{line: 1524, col: 15, offset: 49496},
 																			run: (*parser).callonListElements53,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1525, col: 15, offset: 49558},
+																				pos: position{line: 1524, col: 15, offset: 49496},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1525, col: 15, offset: 49558},
+																					pos:        position{line: 1524, col: 15, offset: 49496},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -24753,28 +24709,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91360},
+																	pos: position{line: 2894, col: 8, offset: 91298},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91133},
+																			pos: position{line: 2881, col: 12, offset: 91071},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91134},
+																				pos: position{line: 2881, col: 13, offset: 91072},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91134},
+																						pos:        position{line: 2881, col: 13, offset: 91072},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91141},
+																						pos:        position{line: 2881, col: 20, offset: 91079},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91150},
+																						pos:        position{line: 2881, col: 29, offset: 91088},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -24783,9 +24739,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91310},
+																			pos: position{line: 2891, col: 8, offset: 91248},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91311,
+																				line: 2891, col: 9, offset: 91249,
 																			},
 																		},
 																	},
@@ -24798,27 +24754,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1627, col: 5, offset: 52939},
+										pos: position{line: 1626, col: 5, offset: 52877},
 										run: (*parser).callonListElements64,
 										expr: &seqExpr{
-											pos: position{line: 1627, col: 5, offset: 52939},
+											pos: position{line: 1626, col: 5, offset: 52877},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1627, col: 5, offset: 52939},
+													pos:   position{line: 1626, col: 5, offset: 52877},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1634, col: 5, offset: 53212},
+														pos: position{line: 1633, col: 5, offset: 53150},
 														run: (*parser).callonListElements67,
 														expr: &seqExpr{
-															pos: position{line: 1634, col: 5, offset: 53212},
+															pos: position{line: 1633, col: 5, offset: 53150},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1634, col: 5, offset: 53212},
+																	pos: position{line: 1633, col: 5, offset: 53150},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90962},
+																		pos: position{line: 2872, col: 10, offset: 90900},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90962},
+																			pos:        position{line: 2872, col: 10, offset: 90900},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24827,24 +24783,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1635, col: 5, offset: 53224},
+																	pos:   position{line: 1634, col: 5, offset: 53162},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1636, col: 9, offset: 53240},
+																		pos: position{line: 1635, col: 9, offset: 53178},
 																		run: (*parser).callonListElements73,
 																		expr: &choiceExpr{
-																			pos: position{line: 1636, col: 10, offset: 53241},
+																			pos: position{line: 1635, col: 10, offset: 53179},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1636, col: 11, offset: 53242},
+																					pos:        position{line: 1635, col: 11, offset: 53180},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1636, col: 18, offset: 53249},
+																					pos: position{line: 1635, col: 18, offset: 53187},
 																					expr: &litMatcher{
-																						pos:        position{line: 1636, col: 19, offset: 53250},
+																						pos:        position{line: 1635, col: 19, offset: 53188},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -24855,16 +24811,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1639, col: 7, offset: 53340},
+																	pos: position{line: 1638, col: 7, offset: 53278},
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2877, col: 11, offset: 91023},
+																	pos: position{line: 2876, col: 11, offset: 90961},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2877, col: 11, offset: 91023},
+																		pos: position{line: 2876, col: 11, offset: 90961},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 11, offset: 91023},
+																			pos:        position{line: 2876, col: 11, offset: 90961},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24877,56 +24833,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1628, col: 5, offset: 52980},
+													pos:   position{line: 1627, col: 5, offset: 52918},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1628, col: 16, offset: 52991},
+														pos: position{line: 1627, col: 16, offset: 52929},
 														expr: &actionExpr{
-															pos: position{line: 1649, col: 5, offset: 53605},
+															pos: position{line: 1648, col: 5, offset: 53543},
 															run: (*parser).callonListElements84,
 															expr: &seqExpr{
-																pos: position{line: 1649, col: 5, offset: 53605},
+																pos: position{line: 1648, col: 5, offset: 53543},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1649, col: 5, offset: 53605},
+																		pos: position{line: 1648, col: 5, offset: 53543},
 																		expr: &litMatcher{
-																			pos:        position{line: 1649, col: 6, offset: 53606},
+																			pos:        position{line: 1648, col: 6, offset: 53544},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1649, col: 10, offset: 53610},
+																		pos:   position{line: 1648, col: 10, offset: 53548},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1650, col: 7, offset: 53624},
+																			pos: position{line: 1649, col: 7, offset: 53562},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1650, col: 7, offset: 53624},
+																					pos: position{line: 1649, col: 7, offset: 53562},
 																					run: (*parser).callonListElements90,
 																					expr: &litMatcher{
-																						pos:        position{line: 1650, col: 7, offset: 53624},
+																						pos:        position{line: 1649, col: 7, offset: 53562},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1651, col: 7, offset: 53669},
+																					pos: position{line: 1650, col: 7, offset: 53607},
 																					run: (*parser).callonListElements92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1651, col: 7, offset: 53669},
+																						pos:        position{line: 1650, col: 7, offset: 53607},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1652, col: 7, offset: 53712},
+																					pos: position{line: 1651, col: 7, offset: 53650},
 																					run: (*parser).callonListElements94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1652, col: 7, offset: 53712},
+																						pos:        position{line: 1651, col: 7, offset: 53650},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -24936,12 +24892,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2877, col: 11, offset: 91023},
+																		pos: position{line: 2876, col: 11, offset: 90961},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2877, col: 11, offset: 91023},
+																			pos: position{line: 2876, col: 11, offset: 90961},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 11, offset: 91023},
+																				pos:        position{line: 2876, col: 11, offset: 90961},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -24955,26 +24911,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1629, col: 5, offset: 53030},
+													pos:   position{line: 1628, col: 5, offset: 52968},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1525, col: 5, offset: 49548},
+														pos: position{line: 1524, col: 5, offset: 49486},
 														run: (*parser).callonListElements100,
 														expr: &seqExpr{
-															pos: position{line: 1525, col: 5, offset: 49548},
+															pos: position{line: 1524, col: 5, offset: 49486},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1525, col: 5, offset: 49548},
+																	pos:   position{line: 1524, col: 5, offset: 49486},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1525, col: 14, offset: 49557},
+																		pos: position{line: 1524, col: 14, offset: 49495},
 																		expr: &actionExpr{
-																			pos: position{line: 1525, col: 15, offset: 49558},
+																			pos: position{line: 1524, col: 15, offset: 49496},
 																			run: (*parser).callonListElements104,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1525, col: 15, offset: 49558},
+																				pos: position{line: 1524, col: 15, offset: 49496},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1525, col: 15, offset: 49558},
+																					pos:        position{line: 1524, col: 15, offset: 49496},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -24985,28 +24941,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91360},
+																	pos: position{line: 2894, col: 8, offset: 91298},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91133},
+																			pos: position{line: 2881, col: 12, offset: 91071},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91134},
+																				pos: position{line: 2881, col: 13, offset: 91072},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91134},
+																						pos:        position{line: 2881, col: 13, offset: 91072},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91141},
+																						pos:        position{line: 2881, col: 20, offset: 91079},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91150},
+																						pos:        position{line: 2881, col: 29, offset: 91088},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25015,9 +24971,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91310},
+																			pos: position{line: 2891, col: 8, offset: 91248},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91311,
+																				line: 2891, col: 9, offset: 91249,
 																			},
 																		},
 																	},
@@ -25030,36 +24986,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1718, col: 5, offset: 55584},
+										pos: position{line: 1717, col: 5, offset: 55522},
 										run: (*parser).callonListElements115,
 										expr: &seqExpr{
-											pos: position{line: 1718, col: 5, offset: 55584},
+											pos: position{line: 1717, col: 5, offset: 55522},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1718, col: 5, offset: 55584},
+													pos:   position{line: 1717, col: 5, offset: 55522},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1724, col: 5, offset: 55781},
+														pos: position{line: 1723, col: 5, offset: 55719},
 														run: (*parser).callonListElements118,
 														expr: &seqExpr{
-															pos: position{line: 1724, col: 5, offset: 55781},
+															pos: position{line: 1723, col: 5, offset: 55719},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1724, col: 5, offset: 55781},
+																	pos:        position{line: 1723, col: 5, offset: 55719},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1724, col: 9, offset: 55785},
+																	pos:   position{line: 1723, col: 9, offset: 55723},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1724, col: 14, offset: 55790},
+																		pos: position{line: 1723, col: 14, offset: 55728},
 																		run: (*parser).callonListElements122,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1724, col: 14, offset: 55790},
+																			pos: position{line: 1723, col: 14, offset: 55728},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1724, col: 14, offset: 55790},
+																				pos:        position{line: 1723, col: 14, offset: 55728},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -25069,18 +25025,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1724, col: 62, offset: 55838},
+																	pos:        position{line: 1723, col: 62, offset: 55776},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2877, col: 11, offset: 91023},
+																	pos: position{line: 2876, col: 11, offset: 90961},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2877, col: 11, offset: 91023},
+																		pos: position{line: 2876, col: 11, offset: 90961},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 11, offset: 91023},
+																			pos:        position{line: 2876, col: 11, offset: 90961},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25093,26 +25049,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1719, col: 5, offset: 55620},
+													pos:   position{line: 1718, col: 5, offset: 55558},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1525, col: 5, offset: 49548},
+														pos: position{line: 1524, col: 5, offset: 49486},
 														run: (*parser).callonListElements130,
 														expr: &seqExpr{
-															pos: position{line: 1525, col: 5, offset: 49548},
+															pos: position{line: 1524, col: 5, offset: 49486},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1525, col: 5, offset: 49548},
+																	pos:   position{line: 1524, col: 5, offset: 49486},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1525, col: 14, offset: 49557},
+																		pos: position{line: 1524, col: 14, offset: 49495},
 																		expr: &actionExpr{
-																			pos: position{line: 1525, col: 15, offset: 49558},
+																			pos: position{line: 1524, col: 15, offset: 49496},
 																			run: (*parser).callonListElements134,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1525, col: 15, offset: 49558},
+																				pos: position{line: 1524, col: 15, offset: 49496},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1525, col: 15, offset: 49558},
+																					pos:        position{line: 1524, col: 15, offset: 49496},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25123,28 +25079,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91360},
+																	pos: position{line: 2894, col: 8, offset: 91298},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91133},
+																			pos: position{line: 2881, col: 12, offset: 91071},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91134},
+																				pos: position{line: 2881, col: 13, offset: 91072},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91134},
+																						pos:        position{line: 2881, col: 13, offset: 91072},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91141},
+																						pos:        position{line: 2881, col: 20, offset: 91079},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91150},
+																						pos:        position{line: 2881, col: 29, offset: 91088},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25153,9 +25109,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91310},
+																			pos: position{line: 2891, col: 8, offset: 91248},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91311,
+																				line: 2891, col: 9, offset: 91249,
 																			},
 																		},
 																	},
@@ -25168,35 +25124,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1661, col: 5, offset: 53905},
+										pos: position{line: 1660, col: 5, offset: 53843},
 										run: (*parser).callonListElements145,
 										expr: &seqExpr{
-											pos: position{line: 1661, col: 5, offset: 53905},
+											pos: position{line: 1660, col: 5, offset: 53843},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1661, col: 5, offset: 53905},
+													pos:   position{line: 1660, col: 5, offset: 53843},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1669, col: 5, offset: 54231},
+														pos: position{line: 1668, col: 5, offset: 54169},
 														run: (*parser).callonListElements148,
 														expr: &seqExpr{
-															pos: position{line: 1669, col: 5, offset: 54231},
+															pos: position{line: 1668, col: 5, offset: 54169},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1669, col: 5, offset: 54231},
+																	pos: position{line: 1668, col: 5, offset: 54169},
 																	expr: &seqExpr{
-																		pos: position{line: 2485, col: 31, offset: 80069},
+																		pos: position{line: 2484, col: 31, offset: 80007},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2485, col: 31, offset: 80069},
+																				pos:        position{line: 2484, col: 31, offset: 80007},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2485, col: 36, offset: 80074},
+																				pos: position{line: 2484, col: 36, offset: 80012},
 																				expr: &litMatcher{
-																					pos:        position{line: 2485, col: 37, offset: 80075},
+																					pos:        position{line: 2484, col: 37, offset: 80013},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
@@ -25206,28 +25162,28 @@ var g = &grammar{
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 1670, col: 5, offset: 54263},
+																	pos: position{line: 1669, col: 5, offset: 54201},
 																	expr: &seqExpr{
-																		pos: position{line: 1670, col: 6, offset: 54264},
+																		pos: position{line: 1669, col: 6, offset: 54202},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1670, col: 6, offset: 54264},
+																				pos: position{line: 1669, col: 6, offset: 54202},
 																				expr: &actionExpr{
-																					pos: position{line: 1675, col: 5, offset: 54414},
+																					pos: position{line: 1674, col: 5, offset: 54352},
 																					run: (*parser).callonListElements158,
 																					expr: &seqExpr{
-																						pos: position{line: 1675, col: 5, offset: 54414},
+																						pos: position{line: 1674, col: 5, offset: 54352},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1675, col: 5, offset: 54414},
+																								pos:   position{line: 1674, col: 5, offset: 54352},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1675, col: 16, offset: 54425},
+																									pos: position{line: 1674, col: 16, offset: 54363},
 																									run: (*parser).callonListElements161,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1675, col: 16, offset: 54425},
+																										pos: position{line: 1674, col: 16, offset: 54363},
 																										expr: &litMatcher{
-																											pos:        position{line: 1675, col: 17, offset: 54426},
+																											pos:        position{line: 1674, col: 17, offset: 54364},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -25236,7 +25192,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1678, col: 5, offset: 54483},
+																								pos: position{line: 1677, col: 5, offset: 54421},
 																								run: (*parser).callonListElements164,
 																							},
 																						},
@@ -25244,30 +25200,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1670, col: 35, offset: 54293},
+																				pos: position{line: 1669, col: 35, offset: 54231},
 																				expr: &choiceExpr{
-																					pos: position{line: 2895, col: 8, offset: 91360},
+																					pos: position{line: 2894, col: 8, offset: 91298},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2882, col: 12, offset: 91133},
+																							pos: position{line: 2881, col: 12, offset: 91071},
 																							run: (*parser).callonListElements167,
 																							expr: &choiceExpr{
-																								pos: position{line: 2882, col: 13, offset: 91134},
+																								pos: position{line: 2881, col: 13, offset: 91072},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 91134},
+																										pos:        position{line: 2881, col: 13, offset: 91072},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 20, offset: 91141},
+																										pos:        position{line: 2881, col: 20, offset: 91079},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 29, offset: 91150},
+																										pos:        position{line: 2881, col: 29, offset: 91088},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -25276,16 +25232,16 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2892, col: 8, offset: 91310},
+																							pos: position{line: 2891, col: 8, offset: 91248},
 																							expr: &anyMatcher{
-																								line: 2892, col: 9, offset: 91311,
+																								line: 2891, col: 9, offset: 91249,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1670, col: 40, offset: 54298,
+																				line: 1669, col: 40, offset: 54236,
 																			},
 																		},
 																	},
@@ -25295,24 +25251,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1662, col: 5, offset: 53940},
+													pos:   position{line: 1661, col: 5, offset: 53878},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1675, col: 5, offset: 54414},
+														pos: position{line: 1674, col: 5, offset: 54352},
 														run: (*parser).callonListElements176,
 														expr: &seqExpr{
-															pos: position{line: 1675, col: 5, offset: 54414},
+															pos: position{line: 1674, col: 5, offset: 54352},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1675, col: 5, offset: 54414},
+																	pos:   position{line: 1674, col: 5, offset: 54352},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1675, col: 16, offset: 54425},
+																		pos: position{line: 1674, col: 16, offset: 54363},
 																		run: (*parser).callonListElements179,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1675, col: 16, offset: 54425},
+																			pos: position{line: 1674, col: 16, offset: 54363},
 																			expr: &litMatcher{
-																				pos:        position{line: 1675, col: 17, offset: 54426},
+																				pos:        position{line: 1674, col: 17, offset: 54364},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -25321,7 +25277,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1678, col: 5, offset: 54483},
+																	pos: position{line: 1677, col: 5, offset: 54421},
 																	run: (*parser).callonListElements182,
 																},
 															},
@@ -25329,24 +25285,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1663, col: 5, offset: 53985},
+													pos:   position{line: 1662, col: 5, offset: 53923},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1686, col: 5, offset: 54732},
+														pos: position{line: 1685, col: 5, offset: 54670},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1688, col: 9, offset: 54798},
+																pos: position{line: 1687, col: 9, offset: 54736},
 																run: (*parser).callonListElements185,
 																expr: &seqExpr{
-																	pos: position{line: 1688, col: 9, offset: 54798},
+																	pos: position{line: 1687, col: 9, offset: 54736},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1688, col: 9, offset: 54798},
+																			pos: position{line: 1687, col: 9, offset: 54736},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90962},
+																				pos: position{line: 2872, col: 10, offset: 90900},
 																				run: (*parser).callonListElements188,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90962},
+																					pos:        position{line: 2872, col: 10, offset: 90900},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25355,28 +25311,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91360},
+																			pos: position{line: 2894, col: 8, offset: 91298},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 91133},
+																					pos: position{line: 2881, col: 12, offset: 91071},
 																					run: (*parser).callonListElements191,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 91134},
+																						pos: position{line: 2881, col: 13, offset: 91072},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 91134},
+																								pos:        position{line: 2881, col: 13, offset: 91072},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 91141},
+																								pos:        position{line: 2881, col: 20, offset: 91079},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 91150},
+																								pos:        position{line: 2881, col: 29, offset: 91088},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25385,34 +25341,34 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91310},
+																					pos: position{line: 2891, col: 8, offset: 91248},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91311,
+																						line: 2891, col: 9, offset: 91249,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1689, col: 9, offset: 54817},
+																			pos: position{line: 1688, col: 9, offset: 54755},
 																			expr: &actionExpr{
-																				pos: position{line: 677, col: 14, offset: 21558},
+																				pos: position{line: 676, col: 14, offset: 21496},
 																				run: (*parser).callonListElements199,
 																				expr: &seqExpr{
-																					pos: position{line: 677, col: 14, offset: 21558},
+																					pos: position{line: 676, col: 14, offset: 21496},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2890, col: 11, offset: 91296},
+																							pos: position{line: 2889, col: 11, offset: 91234},
 																							expr: &anyMatcher{
-																								line: 2890, col: 13, offset: 91298,
+																								line: 2889, col: 13, offset: 91236,
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 677, col: 21, offset: 21565},
+																							pos: position{line: 676, col: 21, offset: 21503},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90962},
+																								pos: position{line: 2872, col: 10, offset: 90900},
 																								run: (*parser).callonListElements204,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90962},
+																									pos:        position{line: 2872, col: 10, offset: 90900},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25421,28 +25377,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91360},
+																							pos: position{line: 2894, col: 8, offset: 91298},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91133},
+																									pos: position{line: 2881, col: 12, offset: 91071},
 																									run: (*parser).callonListElements207,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91134},
+																										pos: position{line: 2881, col: 13, offset: 91072},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91134},
+																												pos:        position{line: 2881, col: 13, offset: 91072},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91141},
+																												pos:        position{line: 2881, col: 20, offset: 91079},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91150},
+																												pos:        position{line: 2881, col: 29, offset: 91088},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25451,9 +25407,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91310},
+																									pos: position{line: 2891, col: 8, offset: 91248},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91311,
+																										line: 2891, col: 9, offset: 91249,
 																									},
 																								},
 																							},
@@ -25466,18 +25422,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1695, col: 9, offset: 54946},
+																pos: position{line: 1694, col: 9, offset: 54884},
 																run: (*parser).callonListElements214,
 																expr: &seqExpr{
-																	pos: position{line: 1695, col: 9, offset: 54946},
+																	pos: position{line: 1694, col: 9, offset: 54884},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2877, col: 11, offset: 91023},
+																			pos: position{line: 2876, col: 11, offset: 90961},
 																			run: (*parser).callonListElements216,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2877, col: 11, offset: 91023},
+																				pos: position{line: 2876, col: 11, offset: 90961},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 11, offset: 91023},
+																					pos:        position{line: 2876, col: 11, offset: 90961},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25486,15 +25442,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1696, col: 9, offset: 55019},
+																			pos:   position{line: 1695, col: 9, offset: 54957},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1696, col: 18, offset: 55028},
+																				pos: position{line: 1695, col: 18, offset: 54966},
 																				run: (*parser).callonListElements220,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1696, col: 18, offset: 55028},
+																					pos: position{line: 1695, col: 18, offset: 54966},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1696, col: 18, offset: 55028},
+																						pos:        position{line: 1695, col: 18, offset: 54966},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -25504,28 +25460,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91360},
+																			pos: position{line: 2894, col: 8, offset: 91298},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 91133},
+																					pos: position{line: 2881, col: 12, offset: 91071},
 																					run: (*parser).callonListElements224,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 91134},
+																						pos: position{line: 2881, col: 13, offset: 91072},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 91134},
+																								pos:        position{line: 2881, col: 13, offset: 91072},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 91141},
+																								pos:        position{line: 2881, col: 20, offset: 91079},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 91150},
+																								pos:        position{line: 2881, col: 29, offset: 91088},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25534,9 +25490,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91310},
+																					pos: position{line: 2891, col: 8, offset: 91248},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91311,
+																						line: 2891, col: 9, offset: 91249,
 																					},
 																				},
 																			},
@@ -25554,10 +25510,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1479, col: 5, offset: 47937},
+							pos:   position{line: 1478, col: 5, offset: 47875},
 							label: "extraElements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1479, col: 20, offset: 47952},
+								pos:  position{line: 1478, col: 20, offset: 47890},
 								name: "ExtraListElements",
 							},
 						},
@@ -25567,17 +25523,17 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElements",
-			pos:  position{line: 1489, col: 1, offset: 48207},
+			pos:  position{line: 1488, col: 1, offset: 48145},
 			expr: &actionExpr{
-				pos: position{line: 1489, col: 22, offset: 48228},
+				pos: position{line: 1488, col: 22, offset: 48166},
 				run: (*parser).callonExtraListElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1489, col: 22, offset: 48228},
+					pos:   position{line: 1488, col: 22, offset: 48166},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1489, col: 31, offset: 48237},
+						pos: position{line: 1488, col: 31, offset: 48175},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1489, col: 32, offset: 48238},
+							pos:  position{line: 1488, col: 32, offset: 48176},
 							name: "ExtraListElement",
 						},
 					},
@@ -25586,52 +25542,52 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElement",
-			pos:  position{line: 1493, col: 1, offset: 48318},
+			pos:  position{line: 1492, col: 1, offset: 48256},
 			expr: &actionExpr{
-				pos: position{line: 1494, col: 5, offset: 48457},
+				pos: position{line: 1493, col: 5, offset: 48395},
 				run: (*parser).callonExtraListElement1,
 				expr: &seqExpr{
-					pos: position{line: 1494, col: 5, offset: 48457},
+					pos: position{line: 1493, col: 5, offset: 48395},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2890, col: 11, offset: 91296},
+							pos: position{line: 2889, col: 11, offset: 91234},
 							expr: &anyMatcher{
-								line: 2890, col: 13, offset: 91298,
+								line: 2889, col: 13, offset: 91236,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1495, col: 5, offset: 48469},
+							pos:   position{line: 1494, col: 5, offset: 48407},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1496, col: 9, offset: 48487},
+								pos: position{line: 1495, col: 9, offset: 48425},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1496, col: 13, offset: 48491},
+										pos: position{line: 1495, col: 13, offset: 48429},
 										run: (*parser).callonExtraListElement7,
 										expr: &seqExpr{
-											pos: position{line: 1496, col: 13, offset: 48491},
+											pos: position{line: 1495, col: 13, offset: 48429},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 1496, col: 13, offset: 48491},
+													pos: position{line: 1495, col: 13, offset: 48429},
 													expr: &actionExpr{
-														pos: position{line: 677, col: 14, offset: 21558},
+														pos: position{line: 676, col: 14, offset: 21496},
 														run: (*parser).callonExtraListElement10,
 														expr: &seqExpr{
-															pos: position{line: 677, col: 14, offset: 21558},
+															pos: position{line: 676, col: 14, offset: 21496},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2890, col: 11, offset: 91296},
+																	pos: position{line: 2889, col: 11, offset: 91234},
 																	expr: &anyMatcher{
-																		line: 2890, col: 13, offset: 91298,
+																		line: 2889, col: 13, offset: 91236,
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 677, col: 21, offset: 21565},
+																	pos: position{line: 676, col: 21, offset: 21503},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90962},
+																		pos: position{line: 2872, col: 10, offset: 90900},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90962},
+																			pos:        position{line: 2872, col: 10, offset: 90900},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25640,28 +25596,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91360},
+																	pos: position{line: 2894, col: 8, offset: 91298},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91133},
+																			pos: position{line: 2881, col: 12, offset: 91071},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91134},
+																				pos: position{line: 2881, col: 13, offset: 91072},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91134},
+																						pos:        position{line: 2881, col: 13, offset: 91072},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91141},
+																						pos:        position{line: 2881, col: 20, offset: 91079},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91150},
+																						pos:        position{line: 2881, col: 29, offset: 91088},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25670,9 +25626,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91310},
+																			pos: position{line: 2891, col: 8, offset: 91248},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91311,
+																				line: 2891, col: 9, offset: 91249,
 																			},
 																		},
 																	},
@@ -25682,33 +25638,33 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1497, col: 13, offset: 48515},
+													pos:   position{line: 1496, col: 13, offset: 48453},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1497, col: 22, offset: 48524},
+														pos: position{line: 1496, col: 22, offset: 48462},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1577, col: 5, offset: 51042},
+																pos: position{line: 1576, col: 5, offset: 50980},
 																run: (*parser).callonExtraListElement27,
 																expr: &seqExpr{
-																	pos: position{line: 1577, col: 5, offset: 51042},
+																	pos: position{line: 1576, col: 5, offset: 50980},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1577, col: 5, offset: 51042},
+																			pos:   position{line: 1576, col: 5, offset: 50980},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1584, col: 5, offset: 51250},
+																				pos: position{line: 1583, col: 5, offset: 51188},
 																				run: (*parser).callonExtraListElement30,
 																				expr: &seqExpr{
-																					pos: position{line: 1584, col: 5, offset: 51250},
+																					pos: position{line: 1583, col: 5, offset: 51188},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1584, col: 5, offset: 51250},
+																							pos: position{line: 1583, col: 5, offset: 51188},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90962},
+																								pos: position{line: 2872, col: 10, offset: 90900},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90962},
+																									pos:        position{line: 2872, col: 10, offset: 90900},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25717,27 +25673,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1584, col: 12, offset: 51257},
+																							pos:   position{line: 1583, col: 12, offset: 51195},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1586, col: 9, offset: 51320},
+																								pos: position{line: 1585, col: 9, offset: 51258},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1586, col: 9, offset: 51320},
+																										pos: position{line: 1585, col: 9, offset: 51258},
 																										run: (*parser).callonExtraListElement37,
 																										expr: &seqExpr{
-																											pos: position{line: 1586, col: 9, offset: 51320},
+																											pos: position{line: 1585, col: 9, offset: 51258},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1586, col: 9, offset: 51320},
+																													pos:   position{line: 1585, col: 9, offset: 51258},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1586, col: 16, offset: 51327},
+																														pos: position{line: 1585, col: 16, offset: 51265},
 																														run: (*parser).callonExtraListElement40,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1586, col: 16, offset: 51327},
+																															pos: position{line: 1585, col: 16, offset: 51265},
 																															expr: &litMatcher{
-																																pos:        position{line: 1586, col: 17, offset: 51328},
+																																pos:        position{line: 1585, col: 17, offset: 51266},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -25746,22 +25702,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1590, col: 9, offset: 51428},
+																													pos: position{line: 1589, col: 9, offset: 51366},
 																													run: (*parser).callonExtraListElement43,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1609, col: 11, offset: 52145},
+																										pos: position{line: 1608, col: 11, offset: 52083},
 																										run: (*parser).callonExtraListElement44,
 																										expr: &seqExpr{
-																											pos: position{line: 1609, col: 11, offset: 52145},
+																											pos: position{line: 1608, col: 11, offset: 52083},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1609, col: 11, offset: 52145},
+																													pos: position{line: 1608, col: 11, offset: 52083},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1609, col: 12, offset: 52146},
+																														pos:        position{line: 1608, col: 12, offset: 52084},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -25769,7 +25725,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1609, col: 20, offset: 52154},
+																													pos:        position{line: 1608, col: 20, offset: 52092},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -25778,20 +25734,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1611, col: 13, offset: 52271},
+																										pos: position{line: 1610, col: 13, offset: 52209},
 																										run: (*parser).callonExtraListElement49,
 																										expr: &seqExpr{
-																											pos: position{line: 1611, col: 13, offset: 52271},
+																											pos: position{line: 1610, col: 13, offset: 52209},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1611, col: 14, offset: 52272},
+																													pos:        position{line: 1610, col: 14, offset: 52210},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1611, col: 21, offset: 52279},
+																													pos:        position{line: 1610, col: 21, offset: 52217},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -25800,20 +25756,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1613, col: 13, offset: 52399},
+																										pos: position{line: 1612, col: 13, offset: 52337},
 																										run: (*parser).callonExtraListElement53,
 																										expr: &seqExpr{
-																											pos: position{line: 1613, col: 13, offset: 52399},
+																											pos: position{line: 1612, col: 13, offset: 52337},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1613, col: 14, offset: 52400},
+																													pos:        position{line: 1612, col: 14, offset: 52338},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1613, col: 21, offset: 52407},
+																													pos:        position{line: 1612, col: 21, offset: 52345},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -25822,15 +25778,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1615, col: 13, offset: 52527},
+																										pos: position{line: 1614, col: 13, offset: 52465},
 																										run: (*parser).callonExtraListElement57,
 																										expr: &seqExpr{
-																											pos: position{line: 1615, col: 13, offset: 52527},
+																											pos: position{line: 1614, col: 13, offset: 52465},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1615, col: 13, offset: 52527},
+																													pos: position{line: 1614, col: 13, offset: 52465},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1615, col: 14, offset: 52528},
+																														pos:        position{line: 1614, col: 14, offset: 52466},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -25838,7 +25794,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1615, col: 26, offset: 52540},
+																													pos:        position{line: 1614, col: 26, offset: 52478},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -25847,15 +25803,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1617, col: 13, offset: 52660},
+																										pos: position{line: 1616, col: 13, offset: 52598},
 																										run: (*parser).callonExtraListElement62,
 																										expr: &seqExpr{
-																											pos: position{line: 1617, col: 13, offset: 52660},
+																											pos: position{line: 1616, col: 13, offset: 52598},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1617, col: 13, offset: 52660},
+																													pos: position{line: 1616, col: 13, offset: 52598},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1617, col: 14, offset: 52661},
+																														pos:        position{line: 1616, col: 14, offset: 52599},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -25863,7 +25819,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1617, col: 26, offset: 52673},
+																													pos:        position{line: 1616, col: 26, offset: 52611},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -25875,12 +25831,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2877, col: 11, offset: 91023},
+																							pos: position{line: 2876, col: 11, offset: 90961},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2877, col: 11, offset: 91023},
+																								pos: position{line: 2876, col: 11, offset: 90961},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 11, offset: 91023},
+																									pos:        position{line: 2876, col: 11, offset: 90961},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25893,26 +25849,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1578, col: 5, offset: 51081},
+																			pos:   position{line: 1577, col: 5, offset: 51019},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1525, col: 5, offset: 49548},
+																				pos: position{line: 1524, col: 5, offset: 49486},
 																				run: (*parser).callonExtraListElement71,
 																				expr: &seqExpr{
-																					pos: position{line: 1525, col: 5, offset: 49548},
+																					pos: position{line: 1524, col: 5, offset: 49486},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1525, col: 5, offset: 49548},
+																							pos:   position{line: 1524, col: 5, offset: 49486},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1525, col: 14, offset: 49557},
+																								pos: position{line: 1524, col: 14, offset: 49495},
 																								expr: &actionExpr{
-																									pos: position{line: 1525, col: 15, offset: 49558},
+																									pos: position{line: 1524, col: 15, offset: 49496},
 																									run: (*parser).callonExtraListElement75,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1525, col: 15, offset: 49558},
+																										pos: position{line: 1524, col: 15, offset: 49496},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1525, col: 15, offset: 49558},
+																											pos:        position{line: 1524, col: 15, offset: 49496},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -25923,28 +25879,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91360},
+																							pos: position{line: 2894, col: 8, offset: 91298},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91133},
+																									pos: position{line: 2881, col: 12, offset: 91071},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91134},
+																										pos: position{line: 2881, col: 13, offset: 91072},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91134},
+																												pos:        position{line: 2881, col: 13, offset: 91072},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91141},
+																												pos:        position{line: 2881, col: 20, offset: 91079},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91150},
+																												pos:        position{line: 2881, col: 29, offset: 91088},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25953,9 +25909,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91310},
+																									pos: position{line: 2891, col: 8, offset: 91248},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91311,
+																										line: 2891, col: 9, offset: 91249,
 																									},
 																								},
 																							},
@@ -25968,27 +25924,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1627, col: 5, offset: 52939},
+																pos: position{line: 1626, col: 5, offset: 52877},
 																run: (*parser).callonExtraListElement86,
 																expr: &seqExpr{
-																	pos: position{line: 1627, col: 5, offset: 52939},
+																	pos: position{line: 1626, col: 5, offset: 52877},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1627, col: 5, offset: 52939},
+																			pos:   position{line: 1626, col: 5, offset: 52877},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1634, col: 5, offset: 53212},
+																				pos: position{line: 1633, col: 5, offset: 53150},
 																				run: (*parser).callonExtraListElement89,
 																				expr: &seqExpr{
-																					pos: position{line: 1634, col: 5, offset: 53212},
+																					pos: position{line: 1633, col: 5, offset: 53150},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1634, col: 5, offset: 53212},
+																							pos: position{line: 1633, col: 5, offset: 53150},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90962},
+																								pos: position{line: 2872, col: 10, offset: 90900},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90962},
+																									pos:        position{line: 2872, col: 10, offset: 90900},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25997,24 +25953,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1635, col: 5, offset: 53224},
+																							pos:   position{line: 1634, col: 5, offset: 53162},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1636, col: 9, offset: 53240},
+																								pos: position{line: 1635, col: 9, offset: 53178},
 																								run: (*parser).callonExtraListElement95,
 																								expr: &choiceExpr{
-																									pos: position{line: 1636, col: 10, offset: 53241},
+																									pos: position{line: 1635, col: 10, offset: 53179},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1636, col: 11, offset: 53242},
+																											pos:        position{line: 1635, col: 11, offset: 53180},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1636, col: 18, offset: 53249},
+																											pos: position{line: 1635, col: 18, offset: 53187},
 																											expr: &litMatcher{
-																												pos:        position{line: 1636, col: 19, offset: 53250},
+																												pos:        position{line: 1635, col: 19, offset: 53188},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -26025,16 +25981,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1639, col: 7, offset: 53340},
+																							pos: position{line: 1638, col: 7, offset: 53278},
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2877, col: 11, offset: 91023},
+																							pos: position{line: 2876, col: 11, offset: 90961},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2877, col: 11, offset: 91023},
+																								pos: position{line: 2876, col: 11, offset: 90961},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 11, offset: 91023},
+																									pos:        position{line: 2876, col: 11, offset: 90961},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26047,56 +26003,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1628, col: 5, offset: 52980},
+																			pos:   position{line: 1627, col: 5, offset: 52918},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1628, col: 16, offset: 52991},
+																				pos: position{line: 1627, col: 16, offset: 52929},
 																				expr: &actionExpr{
-																					pos: position{line: 1649, col: 5, offset: 53605},
+																					pos: position{line: 1648, col: 5, offset: 53543},
 																					run: (*parser).callonExtraListElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 1649, col: 5, offset: 53605},
+																						pos: position{line: 1648, col: 5, offset: 53543},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1649, col: 5, offset: 53605},
+																								pos: position{line: 1648, col: 5, offset: 53543},
 																								expr: &litMatcher{
-																									pos:        position{line: 1649, col: 6, offset: 53606},
+																									pos:        position{line: 1648, col: 6, offset: 53544},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1649, col: 10, offset: 53610},
+																								pos:   position{line: 1648, col: 10, offset: 53548},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1650, col: 7, offset: 53624},
+																									pos: position{line: 1649, col: 7, offset: 53562},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1650, col: 7, offset: 53624},
+																											pos: position{line: 1649, col: 7, offset: 53562},
 																											run: (*parser).callonExtraListElement112,
 																											expr: &litMatcher{
-																												pos:        position{line: 1650, col: 7, offset: 53624},
+																												pos:        position{line: 1649, col: 7, offset: 53562},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1651, col: 7, offset: 53669},
+																											pos: position{line: 1650, col: 7, offset: 53607},
 																											run: (*parser).callonExtraListElement114,
 																											expr: &litMatcher{
-																												pos:        position{line: 1651, col: 7, offset: 53669},
+																												pos:        position{line: 1650, col: 7, offset: 53607},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1652, col: 7, offset: 53712},
+																											pos: position{line: 1651, col: 7, offset: 53650},
 																											run: (*parser).callonExtraListElement116,
 																											expr: &litMatcher{
-																												pos:        position{line: 1652, col: 7, offset: 53712},
+																												pos:        position{line: 1651, col: 7, offset: 53650},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -26106,12 +26062,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2877, col: 11, offset: 91023},
+																								pos: position{line: 2876, col: 11, offset: 90961},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2877, col: 11, offset: 91023},
+																									pos: position{line: 2876, col: 11, offset: 90961},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 11, offset: 91023},
+																										pos:        position{line: 2876, col: 11, offset: 90961},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -26125,26 +26081,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1629, col: 5, offset: 53030},
+																			pos:   position{line: 1628, col: 5, offset: 52968},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1525, col: 5, offset: 49548},
+																				pos: position{line: 1524, col: 5, offset: 49486},
 																				run: (*parser).callonExtraListElement122,
 																				expr: &seqExpr{
-																					pos: position{line: 1525, col: 5, offset: 49548},
+																					pos: position{line: 1524, col: 5, offset: 49486},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1525, col: 5, offset: 49548},
+																							pos:   position{line: 1524, col: 5, offset: 49486},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1525, col: 14, offset: 49557},
+																								pos: position{line: 1524, col: 14, offset: 49495},
 																								expr: &actionExpr{
-																									pos: position{line: 1525, col: 15, offset: 49558},
+																									pos: position{line: 1524, col: 15, offset: 49496},
 																									run: (*parser).callonExtraListElement126,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1525, col: 15, offset: 49558},
+																										pos: position{line: 1524, col: 15, offset: 49496},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1525, col: 15, offset: 49558},
+																											pos:        position{line: 1524, col: 15, offset: 49496},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26155,28 +26111,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91360},
+																							pos: position{line: 2894, col: 8, offset: 91298},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91133},
+																									pos: position{line: 2881, col: 12, offset: 91071},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91134},
+																										pos: position{line: 2881, col: 13, offset: 91072},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91134},
+																												pos:        position{line: 2881, col: 13, offset: 91072},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91141},
+																												pos:        position{line: 2881, col: 20, offset: 91079},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91150},
+																												pos:        position{line: 2881, col: 29, offset: 91088},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26185,9 +26141,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91310},
+																									pos: position{line: 2891, col: 8, offset: 91248},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91311,
+																										line: 2891, col: 9, offset: 91249,
 																									},
 																								},
 																							},
@@ -26200,36 +26156,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1718, col: 5, offset: 55584},
+																pos: position{line: 1717, col: 5, offset: 55522},
 																run: (*parser).callonExtraListElement137,
 																expr: &seqExpr{
-																	pos: position{line: 1718, col: 5, offset: 55584},
+																	pos: position{line: 1717, col: 5, offset: 55522},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1718, col: 5, offset: 55584},
+																			pos:   position{line: 1717, col: 5, offset: 55522},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1724, col: 5, offset: 55781},
+																				pos: position{line: 1723, col: 5, offset: 55719},
 																				run: (*parser).callonExtraListElement140,
 																				expr: &seqExpr{
-																					pos: position{line: 1724, col: 5, offset: 55781},
+																					pos: position{line: 1723, col: 5, offset: 55719},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1724, col: 5, offset: 55781},
+																							pos:        position{line: 1723, col: 5, offset: 55719},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1724, col: 9, offset: 55785},
+																							pos:   position{line: 1723, col: 9, offset: 55723},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1724, col: 14, offset: 55790},
+																								pos: position{line: 1723, col: 14, offset: 55728},
 																								run: (*parser).callonExtraListElement144,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1724, col: 14, offset: 55790},
+																									pos: position{line: 1723, col: 14, offset: 55728},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1724, col: 14, offset: 55790},
+																										pos:        position{line: 1723, col: 14, offset: 55728},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -26239,18 +26195,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1724, col: 62, offset: 55838},
+																							pos:        position{line: 1723, col: 62, offset: 55776},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2877, col: 11, offset: 91023},
+																							pos: position{line: 2876, col: 11, offset: 90961},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2877, col: 11, offset: 91023},
+																								pos: position{line: 2876, col: 11, offset: 90961},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 11, offset: 91023},
+																									pos:        position{line: 2876, col: 11, offset: 90961},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26263,26 +26219,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1719, col: 5, offset: 55620},
+																			pos:   position{line: 1718, col: 5, offset: 55558},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1525, col: 5, offset: 49548},
+																				pos: position{line: 1524, col: 5, offset: 49486},
 																				run: (*parser).callonExtraListElement152,
 																				expr: &seqExpr{
-																					pos: position{line: 1525, col: 5, offset: 49548},
+																					pos: position{line: 1524, col: 5, offset: 49486},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1525, col: 5, offset: 49548},
+																							pos:   position{line: 1524, col: 5, offset: 49486},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1525, col: 14, offset: 49557},
+																								pos: position{line: 1524, col: 14, offset: 49495},
 																								expr: &actionExpr{
-																									pos: position{line: 1525, col: 15, offset: 49558},
+																									pos: position{line: 1524, col: 15, offset: 49496},
 																									run: (*parser).callonExtraListElement156,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1525, col: 15, offset: 49558},
+																										pos: position{line: 1524, col: 15, offset: 49496},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1525, col: 15, offset: 49558},
+																											pos:        position{line: 1524, col: 15, offset: 49496},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26293,28 +26249,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91360},
+																							pos: position{line: 2894, col: 8, offset: 91298},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91133},
+																									pos: position{line: 2881, col: 12, offset: 91071},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91134},
+																										pos: position{line: 2881, col: 13, offset: 91072},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91134},
+																												pos:        position{line: 2881, col: 13, offset: 91072},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91141},
+																												pos:        position{line: 2881, col: 20, offset: 91079},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91150},
+																												pos:        position{line: 2881, col: 29, offset: 91088},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26323,9 +26279,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91310},
+																									pos: position{line: 2891, col: 8, offset: 91248},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91311,
+																										line: 2891, col: 9, offset: 91249,
 																									},
 																								},
 																							},
@@ -26338,35 +26294,35 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1661, col: 5, offset: 53905},
+																pos: position{line: 1660, col: 5, offset: 53843},
 																run: (*parser).callonExtraListElement167,
 																expr: &seqExpr{
-																	pos: position{line: 1661, col: 5, offset: 53905},
+																	pos: position{line: 1660, col: 5, offset: 53843},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1661, col: 5, offset: 53905},
+																			pos:   position{line: 1660, col: 5, offset: 53843},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1669, col: 5, offset: 54231},
+																				pos: position{line: 1668, col: 5, offset: 54169},
 																				run: (*parser).callonExtraListElement170,
 																				expr: &seqExpr{
-																					pos: position{line: 1669, col: 5, offset: 54231},
+																					pos: position{line: 1668, col: 5, offset: 54169},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1669, col: 5, offset: 54231},
+																							pos: position{line: 1668, col: 5, offset: 54169},
 																							expr: &seqExpr{
-																								pos: position{line: 2485, col: 31, offset: 80069},
+																								pos: position{line: 2484, col: 31, offset: 80007},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2485, col: 31, offset: 80069},
+																										pos:        position{line: 2484, col: 31, offset: 80007},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2485, col: 36, offset: 80074},
+																										pos: position{line: 2484, col: 36, offset: 80012},
 																										expr: &litMatcher{
-																											pos:        position{line: 2485, col: 37, offset: 80075},
+																											pos:        position{line: 2484, col: 37, offset: 80013},
 																											val:        "//",
 																											ignoreCase: false,
 																											want:       "\"//\"",
@@ -26376,28 +26332,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1670, col: 5, offset: 54263},
+																							pos: position{line: 1669, col: 5, offset: 54201},
 																							expr: &seqExpr{
-																								pos: position{line: 1670, col: 6, offset: 54264},
+																								pos: position{line: 1669, col: 6, offset: 54202},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1670, col: 6, offset: 54264},
+																										pos: position{line: 1669, col: 6, offset: 54202},
 																										expr: &actionExpr{
-																											pos: position{line: 1675, col: 5, offset: 54414},
+																											pos: position{line: 1674, col: 5, offset: 54352},
 																											run: (*parser).callonExtraListElement180,
 																											expr: &seqExpr{
-																												pos: position{line: 1675, col: 5, offset: 54414},
+																												pos: position{line: 1674, col: 5, offset: 54352},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1675, col: 5, offset: 54414},
+																														pos:   position{line: 1674, col: 5, offset: 54352},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1675, col: 16, offset: 54425},
+																															pos: position{line: 1674, col: 16, offset: 54363},
 																															run: (*parser).callonExtraListElement183,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1675, col: 16, offset: 54425},
+																																pos: position{line: 1674, col: 16, offset: 54363},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1675, col: 17, offset: 54426},
+																																	pos:        position{line: 1674, col: 17, offset: 54364},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -26406,7 +26362,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1678, col: 5, offset: 54483},
+																														pos: position{line: 1677, col: 5, offset: 54421},
 																														run: (*parser).callonExtraListElement186,
 																													},
 																												},
@@ -26414,30 +26370,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1670, col: 35, offset: 54293},
+																										pos: position{line: 1669, col: 35, offset: 54231},
 																										expr: &choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91360},
+																											pos: position{line: 2894, col: 8, offset: 91298},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 91133},
+																													pos: position{line: 2881, col: 12, offset: 91071},
 																													run: (*parser).callonExtraListElement189,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 91134},
+																														pos: position{line: 2881, col: 13, offset: 91072},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 91134},
+																																pos:        position{line: 2881, col: 13, offset: 91072},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 91141},
+																																pos:        position{line: 2881, col: 20, offset: 91079},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 91150},
+																																pos:        position{line: 2881, col: 29, offset: 91088},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -26446,16 +26402,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91310},
+																													pos: position{line: 2891, col: 8, offset: 91248},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91311,
+																														line: 2891, col: 9, offset: 91249,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1670, col: 40, offset: 54298,
+																										line: 1669, col: 40, offset: 54236,
 																									},
 																								},
 																							},
@@ -26465,24 +26421,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1662, col: 5, offset: 53940},
+																			pos:   position{line: 1661, col: 5, offset: 53878},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1675, col: 5, offset: 54414},
+																				pos: position{line: 1674, col: 5, offset: 54352},
 																				run: (*parser).callonExtraListElement198,
 																				expr: &seqExpr{
-																					pos: position{line: 1675, col: 5, offset: 54414},
+																					pos: position{line: 1674, col: 5, offset: 54352},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1675, col: 5, offset: 54414},
+																							pos:   position{line: 1674, col: 5, offset: 54352},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1675, col: 16, offset: 54425},
+																								pos: position{line: 1674, col: 16, offset: 54363},
 																								run: (*parser).callonExtraListElement201,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1675, col: 16, offset: 54425},
+																									pos: position{line: 1674, col: 16, offset: 54363},
 																									expr: &litMatcher{
-																										pos:        position{line: 1675, col: 17, offset: 54426},
+																										pos:        position{line: 1674, col: 17, offset: 54364},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -26491,7 +26447,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1678, col: 5, offset: 54483},
+																							pos: position{line: 1677, col: 5, offset: 54421},
 																							run: (*parser).callonExtraListElement204,
 																						},
 																					},
@@ -26499,24 +26455,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1663, col: 5, offset: 53985},
+																			pos:   position{line: 1662, col: 5, offset: 53923},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1686, col: 5, offset: 54732},
+																				pos: position{line: 1685, col: 5, offset: 54670},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1688, col: 9, offset: 54798},
+																						pos: position{line: 1687, col: 9, offset: 54736},
 																						run: (*parser).callonExtraListElement207,
 																						expr: &seqExpr{
-																							pos: position{line: 1688, col: 9, offset: 54798},
+																							pos: position{line: 1687, col: 9, offset: 54736},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1688, col: 9, offset: 54798},
+																									pos: position{line: 1687, col: 9, offset: 54736},
 																									expr: &actionExpr{
-																										pos: position{line: 2873, col: 10, offset: 90962},
+																										pos: position{line: 2872, col: 10, offset: 90900},
 																										run: (*parser).callonExtraListElement210,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2873, col: 10, offset: 90962},
+																											pos:        position{line: 2872, col: 10, offset: 90900},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26525,28 +26481,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2895, col: 8, offset: 91360},
+																									pos: position{line: 2894, col: 8, offset: 91298},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2882, col: 12, offset: 91133},
+																											pos: position{line: 2881, col: 12, offset: 91071},
 																											run: (*parser).callonExtraListElement213,
 																											expr: &choiceExpr{
-																												pos: position{line: 2882, col: 13, offset: 91134},
+																												pos: position{line: 2881, col: 13, offset: 91072},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 13, offset: 91134},
+																														pos:        position{line: 2881, col: 13, offset: 91072},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 20, offset: 91141},
+																														pos:        position{line: 2881, col: 20, offset: 91079},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 29, offset: 91150},
+																														pos:        position{line: 2881, col: 29, offset: 91088},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26555,34 +26511,34 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2892, col: 8, offset: 91310},
+																											pos: position{line: 2891, col: 8, offset: 91248},
 																											expr: &anyMatcher{
-																												line: 2892, col: 9, offset: 91311,
+																												line: 2891, col: 9, offset: 91249,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1689, col: 9, offset: 54817},
+																									pos: position{line: 1688, col: 9, offset: 54755},
 																									expr: &actionExpr{
-																										pos: position{line: 677, col: 14, offset: 21558},
+																										pos: position{line: 676, col: 14, offset: 21496},
 																										run: (*parser).callonExtraListElement221,
 																										expr: &seqExpr{
-																											pos: position{line: 677, col: 14, offset: 21558},
+																											pos: position{line: 676, col: 14, offset: 21496},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2890, col: 11, offset: 91296},
+																													pos: position{line: 2889, col: 11, offset: 91234},
 																													expr: &anyMatcher{
-																														line: 2890, col: 13, offset: 91298,
+																														line: 2889, col: 13, offset: 91236,
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 677, col: 21, offset: 21565},
+																													pos: position{line: 676, col: 21, offset: 21503},
 																													expr: &actionExpr{
-																														pos: position{line: 2873, col: 10, offset: 90962},
+																														pos: position{line: 2872, col: 10, offset: 90900},
 																														run: (*parser).callonExtraListElement226,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2873, col: 10, offset: 90962},
+																															pos:        position{line: 2872, col: 10, offset: 90900},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -26591,28 +26547,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2895, col: 8, offset: 91360},
+																													pos: position{line: 2894, col: 8, offset: 91298},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2882, col: 12, offset: 91133},
+																															pos: position{line: 2881, col: 12, offset: 91071},
 																															run: (*parser).callonExtraListElement229,
 																															expr: &choiceExpr{
-																																pos: position{line: 2882, col: 13, offset: 91134},
+																																pos: position{line: 2881, col: 13, offset: 91072},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 13, offset: 91134},
+																																		pos:        position{line: 2881, col: 13, offset: 91072},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 20, offset: 91141},
+																																		pos:        position{line: 2881, col: 20, offset: 91079},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 29, offset: 91150},
+																																		pos:        position{line: 2881, col: 29, offset: 91088},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -26621,9 +26577,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2892, col: 8, offset: 91310},
+																															pos: position{line: 2891, col: 8, offset: 91248},
 																															expr: &anyMatcher{
-																																line: 2892, col: 9, offset: 91311,
+																																line: 2891, col: 9, offset: 91249,
 																															},
 																														},
 																													},
@@ -26636,18 +26592,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1695, col: 9, offset: 54946},
+																						pos: position{line: 1694, col: 9, offset: 54884},
 																						run: (*parser).callonExtraListElement236,
 																						expr: &seqExpr{
-																							pos: position{line: 1695, col: 9, offset: 54946},
+																							pos: position{line: 1694, col: 9, offset: 54884},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2877, col: 11, offset: 91023},
+																									pos: position{line: 2876, col: 11, offset: 90961},
 																									run: (*parser).callonExtraListElement238,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2877, col: 11, offset: 91023},
+																										pos: position{line: 2876, col: 11, offset: 90961},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2877, col: 11, offset: 91023},
+																											pos:        position{line: 2876, col: 11, offset: 90961},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26656,15 +26612,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1696, col: 9, offset: 55019},
+																									pos:   position{line: 1695, col: 9, offset: 54957},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1696, col: 18, offset: 55028},
+																										pos: position{line: 1695, col: 18, offset: 54966},
 																										run: (*parser).callonExtraListElement242,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1696, col: 18, offset: 55028},
+																											pos: position{line: 1695, col: 18, offset: 54966},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1696, col: 18, offset: 55028},
+																												pos:        position{line: 1695, col: 18, offset: 54966},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -26674,28 +26630,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2895, col: 8, offset: 91360},
+																									pos: position{line: 2894, col: 8, offset: 91298},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2882, col: 12, offset: 91133},
+																											pos: position{line: 2881, col: 12, offset: 91071},
 																											run: (*parser).callonExtraListElement246,
 																											expr: &choiceExpr{
-																												pos: position{line: 2882, col: 13, offset: 91134},
+																												pos: position{line: 2881, col: 13, offset: 91072},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 13, offset: 91134},
+																														pos:        position{line: 2881, col: 13, offset: 91072},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 20, offset: 91141},
+																														pos:        position{line: 2881, col: 20, offset: 91079},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 29, offset: 91150},
+																														pos:        position{line: 2881, col: 29, offset: 91088},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26704,9 +26660,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2892, col: 8, offset: 91310},
+																											pos: position{line: 2891, col: 8, offset: 91248},
 																											expr: &anyMatcher{
-																												line: 2892, col: 9, offset: 91311,
+																												line: 2891, col: 9, offset: 91249,
 																											},
 																										},
 																									},
@@ -26727,50 +26683,50 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1500, col: 13, offset: 48675},
+										pos: position{line: 1499, col: 13, offset: 48613},
 										run: (*parser).callonExtraListElement253,
 										expr: &seqExpr{
-											pos: position{line: 1500, col: 13, offset: 48675},
+											pos: position{line: 1499, col: 13, offset: 48613},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1500, col: 13, offset: 48675},
+													pos:   position{line: 1499, col: 13, offset: 48613},
 													label: "attributes",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1500, col: 24, offset: 48686},
+														pos: position{line: 1499, col: 24, offset: 48624},
 														expr: &ruleRefExpr{
-															pos:  position{line: 1500, col: 25, offset: 48687},
+															pos:  position{line: 1499, col: 25, offset: 48625},
 															name: "BlockAttributes",
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1501, col: 13, offset: 48718},
+													pos:   position{line: 1500, col: 13, offset: 48656},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1501, col: 22, offset: 48727},
+														pos: position{line: 1500, col: 22, offset: 48665},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1577, col: 5, offset: 51042},
+																pos: position{line: 1576, col: 5, offset: 50980},
 																run: (*parser).callonExtraListElement260,
 																expr: &seqExpr{
-																	pos: position{line: 1577, col: 5, offset: 51042},
+																	pos: position{line: 1576, col: 5, offset: 50980},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1577, col: 5, offset: 51042},
+																			pos:   position{line: 1576, col: 5, offset: 50980},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1584, col: 5, offset: 51250},
+																				pos: position{line: 1583, col: 5, offset: 51188},
 																				run: (*parser).callonExtraListElement263,
 																				expr: &seqExpr{
-																					pos: position{line: 1584, col: 5, offset: 51250},
+																					pos: position{line: 1583, col: 5, offset: 51188},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1584, col: 5, offset: 51250},
+																							pos: position{line: 1583, col: 5, offset: 51188},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90962},
+																								pos: position{line: 2872, col: 10, offset: 90900},
 																								run: (*parser).callonExtraListElement266,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90962},
+																									pos:        position{line: 2872, col: 10, offset: 90900},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26779,27 +26735,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1584, col: 12, offset: 51257},
+																							pos:   position{line: 1583, col: 12, offset: 51195},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1586, col: 9, offset: 51320},
+																								pos: position{line: 1585, col: 9, offset: 51258},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1586, col: 9, offset: 51320},
+																										pos: position{line: 1585, col: 9, offset: 51258},
 																										run: (*parser).callonExtraListElement270,
 																										expr: &seqExpr{
-																											pos: position{line: 1586, col: 9, offset: 51320},
+																											pos: position{line: 1585, col: 9, offset: 51258},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1586, col: 9, offset: 51320},
+																													pos:   position{line: 1585, col: 9, offset: 51258},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1586, col: 16, offset: 51327},
+																														pos: position{line: 1585, col: 16, offset: 51265},
 																														run: (*parser).callonExtraListElement273,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1586, col: 16, offset: 51327},
+																															pos: position{line: 1585, col: 16, offset: 51265},
 																															expr: &litMatcher{
-																																pos:        position{line: 1586, col: 17, offset: 51328},
+																																pos:        position{line: 1585, col: 17, offset: 51266},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -26808,22 +26764,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1590, col: 9, offset: 51428},
+																													pos: position{line: 1589, col: 9, offset: 51366},
 																													run: (*parser).callonExtraListElement276,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1609, col: 11, offset: 52145},
+																										pos: position{line: 1608, col: 11, offset: 52083},
 																										run: (*parser).callonExtraListElement277,
 																										expr: &seqExpr{
-																											pos: position{line: 1609, col: 11, offset: 52145},
+																											pos: position{line: 1608, col: 11, offset: 52083},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1609, col: 11, offset: 52145},
+																													pos: position{line: 1608, col: 11, offset: 52083},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1609, col: 12, offset: 52146},
+																														pos:        position{line: 1608, col: 12, offset: 52084},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -26831,7 +26787,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1609, col: 20, offset: 52154},
+																													pos:        position{line: 1608, col: 20, offset: 52092},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26840,20 +26796,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1611, col: 13, offset: 52271},
+																										pos: position{line: 1610, col: 13, offset: 52209},
 																										run: (*parser).callonExtraListElement282,
 																										expr: &seqExpr{
-																											pos: position{line: 1611, col: 13, offset: 52271},
+																											pos: position{line: 1610, col: 13, offset: 52209},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1611, col: 14, offset: 52272},
+																													pos:        position{line: 1610, col: 14, offset: 52210},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1611, col: 21, offset: 52279},
+																													pos:        position{line: 1610, col: 21, offset: 52217},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26862,20 +26818,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1613, col: 13, offset: 52399},
+																										pos: position{line: 1612, col: 13, offset: 52337},
 																										run: (*parser).callonExtraListElement286,
 																										expr: &seqExpr{
-																											pos: position{line: 1613, col: 13, offset: 52399},
+																											pos: position{line: 1612, col: 13, offset: 52337},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1613, col: 14, offset: 52400},
+																													pos:        position{line: 1612, col: 14, offset: 52338},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1613, col: 21, offset: 52407},
+																													pos:        position{line: 1612, col: 21, offset: 52345},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26884,15 +26840,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1615, col: 13, offset: 52527},
+																										pos: position{line: 1614, col: 13, offset: 52465},
 																										run: (*parser).callonExtraListElement290,
 																										expr: &seqExpr{
-																											pos: position{line: 1615, col: 13, offset: 52527},
+																											pos: position{line: 1614, col: 13, offset: 52465},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1615, col: 13, offset: 52527},
+																													pos: position{line: 1614, col: 13, offset: 52465},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1615, col: 14, offset: 52528},
+																														pos:        position{line: 1614, col: 14, offset: 52466},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -26900,7 +26856,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1615, col: 26, offset: 52540},
+																													pos:        position{line: 1614, col: 26, offset: 52478},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26909,15 +26865,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1617, col: 13, offset: 52660},
+																										pos: position{line: 1616, col: 13, offset: 52598},
 																										run: (*parser).callonExtraListElement295,
 																										expr: &seqExpr{
-																											pos: position{line: 1617, col: 13, offset: 52660},
+																											pos: position{line: 1616, col: 13, offset: 52598},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1617, col: 13, offset: 52660},
+																													pos: position{line: 1616, col: 13, offset: 52598},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1617, col: 14, offset: 52661},
+																														pos:        position{line: 1616, col: 14, offset: 52599},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -26925,7 +26881,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1617, col: 26, offset: 52673},
+																													pos:        position{line: 1616, col: 26, offset: 52611},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26937,12 +26893,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2877, col: 11, offset: 91023},
+																							pos: position{line: 2876, col: 11, offset: 90961},
 																							run: (*parser).callonExtraListElement300,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2877, col: 11, offset: 91023},
+																								pos: position{line: 2876, col: 11, offset: 90961},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 11, offset: 91023},
+																									pos:        position{line: 2876, col: 11, offset: 90961},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26955,26 +26911,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1578, col: 5, offset: 51081},
+																			pos:   position{line: 1577, col: 5, offset: 51019},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1525, col: 5, offset: 49548},
+																				pos: position{line: 1524, col: 5, offset: 49486},
 																				run: (*parser).callonExtraListElement304,
 																				expr: &seqExpr{
-																					pos: position{line: 1525, col: 5, offset: 49548},
+																					pos: position{line: 1524, col: 5, offset: 49486},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1525, col: 5, offset: 49548},
+																							pos:   position{line: 1524, col: 5, offset: 49486},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1525, col: 14, offset: 49557},
+																								pos: position{line: 1524, col: 14, offset: 49495},
 																								expr: &actionExpr{
-																									pos: position{line: 1525, col: 15, offset: 49558},
+																									pos: position{line: 1524, col: 15, offset: 49496},
 																									run: (*parser).callonExtraListElement308,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1525, col: 15, offset: 49558},
+																										pos: position{line: 1524, col: 15, offset: 49496},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1525, col: 15, offset: 49558},
+																											pos:        position{line: 1524, col: 15, offset: 49496},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26985,28 +26941,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91360},
+																							pos: position{line: 2894, col: 8, offset: 91298},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91133},
+																									pos: position{line: 2881, col: 12, offset: 91071},
 																									run: (*parser).callonExtraListElement312,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91134},
+																										pos: position{line: 2881, col: 13, offset: 91072},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91134},
+																												pos:        position{line: 2881, col: 13, offset: 91072},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91141},
+																												pos:        position{line: 2881, col: 20, offset: 91079},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91150},
+																												pos:        position{line: 2881, col: 29, offset: 91088},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27015,9 +26971,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91310},
+																									pos: position{line: 2891, col: 8, offset: 91248},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91311,
+																										line: 2891, col: 9, offset: 91249,
 																									},
 																								},
 																							},
@@ -27030,27 +26986,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1627, col: 5, offset: 52939},
+																pos: position{line: 1626, col: 5, offset: 52877},
 																run: (*parser).callonExtraListElement319,
 																expr: &seqExpr{
-																	pos: position{line: 1627, col: 5, offset: 52939},
+																	pos: position{line: 1626, col: 5, offset: 52877},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1627, col: 5, offset: 52939},
+																			pos:   position{line: 1626, col: 5, offset: 52877},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1634, col: 5, offset: 53212},
+																				pos: position{line: 1633, col: 5, offset: 53150},
 																				run: (*parser).callonExtraListElement322,
 																				expr: &seqExpr{
-																					pos: position{line: 1634, col: 5, offset: 53212},
+																					pos: position{line: 1633, col: 5, offset: 53150},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1634, col: 5, offset: 53212},
+																							pos: position{line: 1633, col: 5, offset: 53150},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90962},
+																								pos: position{line: 2872, col: 10, offset: 90900},
 																								run: (*parser).callonExtraListElement325,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90962},
+																									pos:        position{line: 2872, col: 10, offset: 90900},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27059,24 +27015,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1635, col: 5, offset: 53224},
+																							pos:   position{line: 1634, col: 5, offset: 53162},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1636, col: 9, offset: 53240},
+																								pos: position{line: 1635, col: 9, offset: 53178},
 																								run: (*parser).callonExtraListElement328,
 																								expr: &choiceExpr{
-																									pos: position{line: 1636, col: 10, offset: 53241},
+																									pos: position{line: 1635, col: 10, offset: 53179},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1636, col: 11, offset: 53242},
+																											pos:        position{line: 1635, col: 11, offset: 53180},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1636, col: 18, offset: 53249},
+																											pos: position{line: 1635, col: 18, offset: 53187},
 																											expr: &litMatcher{
-																												pos:        position{line: 1636, col: 19, offset: 53250},
+																												pos:        position{line: 1635, col: 19, offset: 53188},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -27087,16 +27043,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1639, col: 7, offset: 53340},
+																							pos: position{line: 1638, col: 7, offset: 53278},
 																							run: (*parser).callonExtraListElement333,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2877, col: 11, offset: 91023},
+																							pos: position{line: 2876, col: 11, offset: 90961},
 																							run: (*parser).callonExtraListElement334,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2877, col: 11, offset: 91023},
+																								pos: position{line: 2876, col: 11, offset: 90961},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 11, offset: 91023},
+																									pos:        position{line: 2876, col: 11, offset: 90961},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27109,56 +27065,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1628, col: 5, offset: 52980},
+																			pos:   position{line: 1627, col: 5, offset: 52918},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1628, col: 16, offset: 52991},
+																				pos: position{line: 1627, col: 16, offset: 52929},
 																				expr: &actionExpr{
-																					pos: position{line: 1649, col: 5, offset: 53605},
+																					pos: position{line: 1648, col: 5, offset: 53543},
 																					run: (*parser).callonExtraListElement339,
 																					expr: &seqExpr{
-																						pos: position{line: 1649, col: 5, offset: 53605},
+																						pos: position{line: 1648, col: 5, offset: 53543},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1649, col: 5, offset: 53605},
+																								pos: position{line: 1648, col: 5, offset: 53543},
 																								expr: &litMatcher{
-																									pos:        position{line: 1649, col: 6, offset: 53606},
+																									pos:        position{line: 1648, col: 6, offset: 53544},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1649, col: 10, offset: 53610},
+																								pos:   position{line: 1648, col: 10, offset: 53548},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1650, col: 7, offset: 53624},
+																									pos: position{line: 1649, col: 7, offset: 53562},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1650, col: 7, offset: 53624},
+																											pos: position{line: 1649, col: 7, offset: 53562},
 																											run: (*parser).callonExtraListElement345,
 																											expr: &litMatcher{
-																												pos:        position{line: 1650, col: 7, offset: 53624},
+																												pos:        position{line: 1649, col: 7, offset: 53562},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1651, col: 7, offset: 53669},
+																											pos: position{line: 1650, col: 7, offset: 53607},
 																											run: (*parser).callonExtraListElement347,
 																											expr: &litMatcher{
-																												pos:        position{line: 1651, col: 7, offset: 53669},
+																												pos:        position{line: 1650, col: 7, offset: 53607},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1652, col: 7, offset: 53712},
+																											pos: position{line: 1651, col: 7, offset: 53650},
 																											run: (*parser).callonExtraListElement349,
 																											expr: &litMatcher{
-																												pos:        position{line: 1652, col: 7, offset: 53712},
+																												pos:        position{line: 1651, col: 7, offset: 53650},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -27168,12 +27124,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2877, col: 11, offset: 91023},
+																								pos: position{line: 2876, col: 11, offset: 90961},
 																								run: (*parser).callonExtraListElement351,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2877, col: 11, offset: 91023},
+																									pos: position{line: 2876, col: 11, offset: 90961},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 11, offset: 91023},
+																										pos:        position{line: 2876, col: 11, offset: 90961},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27187,26 +27143,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1629, col: 5, offset: 53030},
+																			pos:   position{line: 1628, col: 5, offset: 52968},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1525, col: 5, offset: 49548},
+																				pos: position{line: 1524, col: 5, offset: 49486},
 																				run: (*parser).callonExtraListElement355,
 																				expr: &seqExpr{
-																					pos: position{line: 1525, col: 5, offset: 49548},
+																					pos: position{line: 1524, col: 5, offset: 49486},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1525, col: 5, offset: 49548},
+																							pos:   position{line: 1524, col: 5, offset: 49486},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1525, col: 14, offset: 49557},
+																								pos: position{line: 1524, col: 14, offset: 49495},
 																								expr: &actionExpr{
-																									pos: position{line: 1525, col: 15, offset: 49558},
+																									pos: position{line: 1524, col: 15, offset: 49496},
 																									run: (*parser).callonExtraListElement359,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1525, col: 15, offset: 49558},
+																										pos: position{line: 1524, col: 15, offset: 49496},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1525, col: 15, offset: 49558},
+																											pos:        position{line: 1524, col: 15, offset: 49496},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27217,28 +27173,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91360},
+																							pos: position{line: 2894, col: 8, offset: 91298},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91133},
+																									pos: position{line: 2881, col: 12, offset: 91071},
 																									run: (*parser).callonExtraListElement363,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91134},
+																										pos: position{line: 2881, col: 13, offset: 91072},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91134},
+																												pos:        position{line: 2881, col: 13, offset: 91072},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91141},
+																												pos:        position{line: 2881, col: 20, offset: 91079},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91150},
+																												pos:        position{line: 2881, col: 29, offset: 91088},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27247,9 +27203,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91310},
+																									pos: position{line: 2891, col: 8, offset: 91248},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91311,
+																										line: 2891, col: 9, offset: 91249,
 																									},
 																								},
 																							},
@@ -27262,36 +27218,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1718, col: 5, offset: 55584},
+																pos: position{line: 1717, col: 5, offset: 55522},
 																run: (*parser).callonExtraListElement370,
 																expr: &seqExpr{
-																	pos: position{line: 1718, col: 5, offset: 55584},
+																	pos: position{line: 1717, col: 5, offset: 55522},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1718, col: 5, offset: 55584},
+																			pos:   position{line: 1717, col: 5, offset: 55522},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1724, col: 5, offset: 55781},
+																				pos: position{line: 1723, col: 5, offset: 55719},
 																				run: (*parser).callonExtraListElement373,
 																				expr: &seqExpr{
-																					pos: position{line: 1724, col: 5, offset: 55781},
+																					pos: position{line: 1723, col: 5, offset: 55719},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1724, col: 5, offset: 55781},
+																							pos:        position{line: 1723, col: 5, offset: 55719},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1724, col: 9, offset: 55785},
+																							pos:   position{line: 1723, col: 9, offset: 55723},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1724, col: 14, offset: 55790},
+																								pos: position{line: 1723, col: 14, offset: 55728},
 																								run: (*parser).callonExtraListElement377,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1724, col: 14, offset: 55790},
+																									pos: position{line: 1723, col: 14, offset: 55728},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1724, col: 14, offset: 55790},
+																										pos:        position{line: 1723, col: 14, offset: 55728},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -27301,18 +27257,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1724, col: 62, offset: 55838},
+																							pos:        position{line: 1723, col: 62, offset: 55776},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2877, col: 11, offset: 91023},
+																							pos: position{line: 2876, col: 11, offset: 90961},
 																							run: (*parser).callonExtraListElement381,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2877, col: 11, offset: 91023},
+																								pos: position{line: 2876, col: 11, offset: 90961},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 11, offset: 91023},
+																									pos:        position{line: 2876, col: 11, offset: 90961},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27325,26 +27281,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1719, col: 5, offset: 55620},
+																			pos:   position{line: 1718, col: 5, offset: 55558},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1525, col: 5, offset: 49548},
+																				pos: position{line: 1524, col: 5, offset: 49486},
 																				run: (*parser).callonExtraListElement385,
 																				expr: &seqExpr{
-																					pos: position{line: 1525, col: 5, offset: 49548},
+																					pos: position{line: 1524, col: 5, offset: 49486},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1525, col: 5, offset: 49548},
+																							pos:   position{line: 1524, col: 5, offset: 49486},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1525, col: 14, offset: 49557},
+																								pos: position{line: 1524, col: 14, offset: 49495},
 																								expr: &actionExpr{
-																									pos: position{line: 1525, col: 15, offset: 49558},
+																									pos: position{line: 1524, col: 15, offset: 49496},
 																									run: (*parser).callonExtraListElement389,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1525, col: 15, offset: 49558},
+																										pos: position{line: 1524, col: 15, offset: 49496},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1525, col: 15, offset: 49558},
+																											pos:        position{line: 1524, col: 15, offset: 49496},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27355,28 +27311,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91360},
+																							pos: position{line: 2894, col: 8, offset: 91298},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91133},
+																									pos: position{line: 2881, col: 12, offset: 91071},
 																									run: (*parser).callonExtraListElement393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91134},
+																										pos: position{line: 2881, col: 13, offset: 91072},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91134},
+																												pos:        position{line: 2881, col: 13, offset: 91072},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91141},
+																												pos:        position{line: 2881, col: 20, offset: 91079},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91150},
+																												pos:        position{line: 2881, col: 29, offset: 91088},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27385,9 +27341,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91310},
+																									pos: position{line: 2891, col: 8, offset: 91248},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91311,
+																										line: 2891, col: 9, offset: 91249,
 																									},
 																								},
 																							},
@@ -27400,35 +27356,35 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1661, col: 5, offset: 53905},
+																pos: position{line: 1660, col: 5, offset: 53843},
 																run: (*parser).callonExtraListElement400,
 																expr: &seqExpr{
-																	pos: position{line: 1661, col: 5, offset: 53905},
+																	pos: position{line: 1660, col: 5, offset: 53843},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1661, col: 5, offset: 53905},
+																			pos:   position{line: 1660, col: 5, offset: 53843},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1669, col: 5, offset: 54231},
+																				pos: position{line: 1668, col: 5, offset: 54169},
 																				run: (*parser).callonExtraListElement403,
 																				expr: &seqExpr{
-																					pos: position{line: 1669, col: 5, offset: 54231},
+																					pos: position{line: 1668, col: 5, offset: 54169},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1669, col: 5, offset: 54231},
+																							pos: position{line: 1668, col: 5, offset: 54169},
 																							expr: &seqExpr{
-																								pos: position{line: 2485, col: 31, offset: 80069},
+																								pos: position{line: 2484, col: 31, offset: 80007},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2485, col: 31, offset: 80069},
+																										pos:        position{line: 2484, col: 31, offset: 80007},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2485, col: 36, offset: 80074},
+																										pos: position{line: 2484, col: 36, offset: 80012},
 																										expr: &litMatcher{
-																											pos:        position{line: 2485, col: 37, offset: 80075},
+																											pos:        position{line: 2484, col: 37, offset: 80013},
 																											val:        "//",
 																											ignoreCase: false,
 																											want:       "\"//\"",
@@ -27438,28 +27394,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1670, col: 5, offset: 54263},
+																							pos: position{line: 1669, col: 5, offset: 54201},
 																							expr: &seqExpr{
-																								pos: position{line: 1670, col: 6, offset: 54264},
+																								pos: position{line: 1669, col: 6, offset: 54202},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1670, col: 6, offset: 54264},
+																										pos: position{line: 1669, col: 6, offset: 54202},
 																										expr: &actionExpr{
-																											pos: position{line: 1675, col: 5, offset: 54414},
+																											pos: position{line: 1674, col: 5, offset: 54352},
 																											run: (*parser).callonExtraListElement413,
 																											expr: &seqExpr{
-																												pos: position{line: 1675, col: 5, offset: 54414},
+																												pos: position{line: 1674, col: 5, offset: 54352},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1675, col: 5, offset: 54414},
+																														pos:   position{line: 1674, col: 5, offset: 54352},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1675, col: 16, offset: 54425},
+																															pos: position{line: 1674, col: 16, offset: 54363},
 																															run: (*parser).callonExtraListElement416,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1675, col: 16, offset: 54425},
+																																pos: position{line: 1674, col: 16, offset: 54363},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1675, col: 17, offset: 54426},
+																																	pos:        position{line: 1674, col: 17, offset: 54364},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -27468,7 +27424,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1678, col: 5, offset: 54483},
+																														pos: position{line: 1677, col: 5, offset: 54421},
 																														run: (*parser).callonExtraListElement419,
 																													},
 																												},
@@ -27476,30 +27432,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1670, col: 35, offset: 54293},
+																										pos: position{line: 1669, col: 35, offset: 54231},
 																										expr: &choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91360},
+																											pos: position{line: 2894, col: 8, offset: 91298},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 91133},
+																													pos: position{line: 2881, col: 12, offset: 91071},
 																													run: (*parser).callonExtraListElement422,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 91134},
+																														pos: position{line: 2881, col: 13, offset: 91072},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 91134},
+																																pos:        position{line: 2881, col: 13, offset: 91072},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 91141},
+																																pos:        position{line: 2881, col: 20, offset: 91079},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 91150},
+																																pos:        position{line: 2881, col: 29, offset: 91088},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -27508,16 +27464,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91310},
+																													pos: position{line: 2891, col: 8, offset: 91248},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91311,
+																														line: 2891, col: 9, offset: 91249,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1670, col: 40, offset: 54298,
+																										line: 1669, col: 40, offset: 54236,
 																									},
 																								},
 																							},
@@ -27527,24 +27483,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1662, col: 5, offset: 53940},
+																			pos:   position{line: 1661, col: 5, offset: 53878},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1675, col: 5, offset: 54414},
+																				pos: position{line: 1674, col: 5, offset: 54352},
 																				run: (*parser).callonExtraListElement431,
 																				expr: &seqExpr{
-																					pos: position{line: 1675, col: 5, offset: 54414},
+																					pos: position{line: 1674, col: 5, offset: 54352},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1675, col: 5, offset: 54414},
+																							pos:   position{line: 1674, col: 5, offset: 54352},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1675, col: 16, offset: 54425},
+																								pos: position{line: 1674, col: 16, offset: 54363},
 																								run: (*parser).callonExtraListElement434,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1675, col: 16, offset: 54425},
+																									pos: position{line: 1674, col: 16, offset: 54363},
 																									expr: &litMatcher{
-																										pos:        position{line: 1675, col: 17, offset: 54426},
+																										pos:        position{line: 1674, col: 17, offset: 54364},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -27553,7 +27509,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1678, col: 5, offset: 54483},
+																							pos: position{line: 1677, col: 5, offset: 54421},
 																							run: (*parser).callonExtraListElement437,
 																						},
 																					},
@@ -27561,24 +27517,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1663, col: 5, offset: 53985},
+																			pos:   position{line: 1662, col: 5, offset: 53923},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1686, col: 5, offset: 54732},
+																				pos: position{line: 1685, col: 5, offset: 54670},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1688, col: 9, offset: 54798},
+																						pos: position{line: 1687, col: 9, offset: 54736},
 																						run: (*parser).callonExtraListElement440,
 																						expr: &seqExpr{
-																							pos: position{line: 1688, col: 9, offset: 54798},
+																							pos: position{line: 1687, col: 9, offset: 54736},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1688, col: 9, offset: 54798},
+																									pos: position{line: 1687, col: 9, offset: 54736},
 																									expr: &actionExpr{
-																										pos: position{line: 2873, col: 10, offset: 90962},
+																										pos: position{line: 2872, col: 10, offset: 90900},
 																										run: (*parser).callonExtraListElement443,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2873, col: 10, offset: 90962},
+																											pos:        position{line: 2872, col: 10, offset: 90900},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27587,28 +27543,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2895, col: 8, offset: 91360},
+																									pos: position{line: 2894, col: 8, offset: 91298},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2882, col: 12, offset: 91133},
+																											pos: position{line: 2881, col: 12, offset: 91071},
 																											run: (*parser).callonExtraListElement446,
 																											expr: &choiceExpr{
-																												pos: position{line: 2882, col: 13, offset: 91134},
+																												pos: position{line: 2881, col: 13, offset: 91072},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 13, offset: 91134},
+																														pos:        position{line: 2881, col: 13, offset: 91072},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 20, offset: 91141},
+																														pos:        position{line: 2881, col: 20, offset: 91079},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 29, offset: 91150},
+																														pos:        position{line: 2881, col: 29, offset: 91088},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27617,34 +27573,34 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2892, col: 8, offset: 91310},
+																											pos: position{line: 2891, col: 8, offset: 91248},
 																											expr: &anyMatcher{
-																												line: 2892, col: 9, offset: 91311,
+																												line: 2891, col: 9, offset: 91249,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1689, col: 9, offset: 54817},
+																									pos: position{line: 1688, col: 9, offset: 54755},
 																									expr: &actionExpr{
-																										pos: position{line: 677, col: 14, offset: 21558},
+																										pos: position{line: 676, col: 14, offset: 21496},
 																										run: (*parser).callonExtraListElement454,
 																										expr: &seqExpr{
-																											pos: position{line: 677, col: 14, offset: 21558},
+																											pos: position{line: 676, col: 14, offset: 21496},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2890, col: 11, offset: 91296},
+																													pos: position{line: 2889, col: 11, offset: 91234},
 																													expr: &anyMatcher{
-																														line: 2890, col: 13, offset: 91298,
+																														line: 2889, col: 13, offset: 91236,
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 677, col: 21, offset: 21565},
+																													pos: position{line: 676, col: 21, offset: 21503},
 																													expr: &actionExpr{
-																														pos: position{line: 2873, col: 10, offset: 90962},
+																														pos: position{line: 2872, col: 10, offset: 90900},
 																														run: (*parser).callonExtraListElement459,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2873, col: 10, offset: 90962},
+																															pos:        position{line: 2872, col: 10, offset: 90900},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27653,28 +27609,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2895, col: 8, offset: 91360},
+																													pos: position{line: 2894, col: 8, offset: 91298},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2882, col: 12, offset: 91133},
+																															pos: position{line: 2881, col: 12, offset: 91071},
 																															run: (*parser).callonExtraListElement462,
 																															expr: &choiceExpr{
-																																pos: position{line: 2882, col: 13, offset: 91134},
+																																pos: position{line: 2881, col: 13, offset: 91072},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 13, offset: 91134},
+																																		pos:        position{line: 2881, col: 13, offset: 91072},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 20, offset: 91141},
+																																		pos:        position{line: 2881, col: 20, offset: 91079},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2882, col: 29, offset: 91150},
+																																		pos:        position{line: 2881, col: 29, offset: 91088},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -27683,9 +27639,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2892, col: 8, offset: 91310},
+																															pos: position{line: 2891, col: 8, offset: 91248},
 																															expr: &anyMatcher{
-																																line: 2892, col: 9, offset: 91311,
+																																line: 2891, col: 9, offset: 91249,
 																															},
 																														},
 																													},
@@ -27698,18 +27654,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1695, col: 9, offset: 54946},
+																						pos: position{line: 1694, col: 9, offset: 54884},
 																						run: (*parser).callonExtraListElement469,
 																						expr: &seqExpr{
-																							pos: position{line: 1695, col: 9, offset: 54946},
+																							pos: position{line: 1694, col: 9, offset: 54884},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2877, col: 11, offset: 91023},
+																									pos: position{line: 2876, col: 11, offset: 90961},
 																									run: (*parser).callonExtraListElement471,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2877, col: 11, offset: 91023},
+																										pos: position{line: 2876, col: 11, offset: 90961},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2877, col: 11, offset: 91023},
+																											pos:        position{line: 2876, col: 11, offset: 90961},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27718,15 +27674,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1696, col: 9, offset: 55019},
+																									pos:   position{line: 1695, col: 9, offset: 54957},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1696, col: 18, offset: 55028},
+																										pos: position{line: 1695, col: 18, offset: 54966},
 																										run: (*parser).callonExtraListElement475,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1696, col: 18, offset: 55028},
+																											pos: position{line: 1695, col: 18, offset: 54966},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1696, col: 18, offset: 55028},
+																												pos:        position{line: 1695, col: 18, offset: 54966},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -27736,28 +27692,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2895, col: 8, offset: 91360},
+																									pos: position{line: 2894, col: 8, offset: 91298},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2882, col: 12, offset: 91133},
+																											pos: position{line: 2881, col: 12, offset: 91071},
 																											run: (*parser).callonExtraListElement479,
 																											expr: &choiceExpr{
-																												pos: position{line: 2882, col: 13, offset: 91134},
+																												pos: position{line: 2881, col: 13, offset: 91072},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 13, offset: 91134},
+																														pos:        position{line: 2881, col: 13, offset: 91072},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 20, offset: 91141},
+																														pos:        position{line: 2881, col: 20, offset: 91079},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 29, offset: 91150},
+																														pos:        position{line: 2881, col: 29, offset: 91088},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27766,9 +27722,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2892, col: 8, offset: 91310},
+																											pos: position{line: 2891, col: 8, offset: 91248},
 																											expr: &anyMatcher{
-																												line: 2892, col: 9, offset: 91311,
+																												line: 2891, col: 9, offset: 91249,
 																											},
 																										},
 																									},
@@ -27789,40 +27745,40 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1504, col: 11, offset: 48912},
+										pos:  position{line: 1503, col: 11, offset: 48850},
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2480, col: 22, offset: 79848},
+										pos: position{line: 2479, col: 22, offset: 79786},
 										run: (*parser).callonExtraListElement487,
 										expr: &seqExpr{
-											pos: position{line: 2480, col: 22, offset: 79848},
+											pos: position{line: 2479, col: 22, offset: 79786},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2485, col: 31, offset: 80069},
+													pos:        position{line: 2484, col: 31, offset: 80007},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2485, col: 36, offset: 80074},
+													pos: position{line: 2484, col: 36, offset: 80012},
 													expr: &litMatcher{
-														pos:        position{line: 2485, col: 37, offset: 80075},
+														pos:        position{line: 2484, col: 37, offset: 80013},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2480, col: 49, offset: 79875},
+													pos:   position{line: 2479, col: 49, offset: 79813},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2819, col: 13, offset: 89488},
+														pos: position{line: 2818, col: 13, offset: 89426},
 														run: (*parser).callonExtraListElement493,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2819, col: 13, offset: 89488},
+															pos: position{line: 2818, col: 13, offset: 89426},
 															expr: &charClassMatcher{
-																pos:        position{line: 2819, col: 13, offset: 89488},
+																pos:        position{line: 2818, col: 13, offset: 89426},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -27832,28 +27788,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2895, col: 8, offset: 91360},
+													pos: position{line: 2894, col: 8, offset: 91298},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2882, col: 12, offset: 91133},
+															pos: position{line: 2881, col: 12, offset: 91071},
 															run: (*parser).callonExtraListElement497,
 															expr: &choiceExpr{
-																pos: position{line: 2882, col: 13, offset: 91134},
+																pos: position{line: 2881, col: 13, offset: 91072},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 13, offset: 91134},
+																		pos:        position{line: 2881, col: 13, offset: 91072},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 20, offset: 91141},
+																		pos:        position{line: 2881, col: 20, offset: 91079},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 29, offset: 91150},
+																		pos:        position{line: 2881, col: 29, offset: 91088},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -27862,9 +27818,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2892, col: 8, offset: 91310},
+															pos: position{line: 2891, col: 8, offset: 91248},
 															expr: &anyMatcher{
-																line: 2892, col: 9, offset: 91311,
+																line: 2891, col: 9, offset: 91249,
 															},
 														},
 													},
@@ -27873,32 +27829,32 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1512, col: 5, offset: 49190},
+										pos: position{line: 1511, col: 5, offset: 49128},
 										run: (*parser).callonExtraListElement504,
 										expr: &seqExpr{
-											pos: position{line: 1512, col: 5, offset: 49190},
+											pos: position{line: 1511, col: 5, offset: 49128},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 1512, col: 5, offset: 49190},
+													pos: position{line: 1511, col: 5, offset: 49128},
 													expr: &actionExpr{
-														pos: position{line: 677, col: 14, offset: 21558},
+														pos: position{line: 676, col: 14, offset: 21496},
 														run: (*parser).callonExtraListElement507,
 														expr: &seqExpr{
-															pos: position{line: 677, col: 14, offset: 21558},
+															pos: position{line: 676, col: 14, offset: 21496},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2890, col: 11, offset: 91296},
+																	pos: position{line: 2889, col: 11, offset: 91234},
 																	expr: &anyMatcher{
-																		line: 2890, col: 13, offset: 91298,
+																		line: 2889, col: 13, offset: 91236,
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 677, col: 21, offset: 21565},
+																	pos: position{line: 676, col: 21, offset: 21503},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90962},
+																		pos: position{line: 2872, col: 10, offset: 90900},
 																		run: (*parser).callonExtraListElement512,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90962},
+																			pos:        position{line: 2872, col: 10, offset: 90900},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27907,28 +27863,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91360},
+																	pos: position{line: 2894, col: 8, offset: 91298},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91133},
+																			pos: position{line: 2881, col: 12, offset: 91071},
 																			run: (*parser).callonExtraListElement515,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91134},
+																				pos: position{line: 2881, col: 13, offset: 91072},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91134},
+																						pos:        position{line: 2881, col: 13, offset: 91072},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91141},
+																						pos:        position{line: 2881, col: 20, offset: 91079},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91150},
+																						pos:        position{line: 2881, col: 29, offset: 91088},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -27937,9 +27893,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91310},
+																			pos: position{line: 2891, col: 8, offset: 91248},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91311,
+																				line: 2891, col: 9, offset: 91249,
 																			},
 																		},
 																	},
@@ -27949,23 +27905,23 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1513, col: 5, offset: 49205},
+													pos: position{line: 1512, col: 5, offset: 49143},
 													expr: &seqExpr{
-														pos: position{line: 1543, col: 27, offset: 50031},
+														pos: position{line: 1542, col: 27, offset: 49969},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 1543, col: 27, offset: 50031},
+																pos:        position{line: 1542, col: 27, offset: 49969},
 																val:        "+",
 																ignoreCase: false,
 																want:       "\"+\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 1543, col: 31, offset: 50035},
+																pos: position{line: 1542, col: 31, offset: 49973},
 																expr: &actionExpr{
-																	pos: position{line: 2873, col: 10, offset: 90962},
+																	pos: position{line: 2872, col: 10, offset: 90900},
 																	run: (*parser).callonExtraListElement526,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2873, col: 10, offset: 90962},
+																		pos:        position{line: 2872, col: 10, offset: 90900},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -27974,25 +27930,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2882, col: 12, offset: 91133},
+																pos: position{line: 2881, col: 12, offset: 91071},
 																run: (*parser).callonExtraListElement528,
 																expr: &choiceExpr{
-																	pos: position{line: 2882, col: 13, offset: 91134},
+																	pos: position{line: 2881, col: 13, offset: 91072},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 13, offset: 91134},
+																			pos:        position{line: 2881, col: 13, offset: 91072},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 20, offset: 91141},
+																			pos:        position{line: 2881, col: 20, offset: 91079},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 29, offset: 91150},
+																			pos:        position{line: 2881, col: 29, offset: 91088},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -28004,20 +27960,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1514, col: 5, offset: 49233},
+													pos: position{line: 1513, col: 5, offset: 49171},
 													expr: &actionExpr{
-														pos: position{line: 1584, col: 5, offset: 51250},
+														pos: position{line: 1583, col: 5, offset: 51188},
 														run: (*parser).callonExtraListElement534,
 														expr: &seqExpr{
-															pos: position{line: 1584, col: 5, offset: 51250},
+															pos: position{line: 1583, col: 5, offset: 51188},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1584, col: 5, offset: 51250},
+																	pos: position{line: 1583, col: 5, offset: 51188},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90962},
+																		pos: position{line: 2872, col: 10, offset: 90900},
 																		run: (*parser).callonExtraListElement537,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90962},
+																			pos:        position{line: 2872, col: 10, offset: 90900},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28026,27 +27982,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1584, col: 12, offset: 51257},
+																	pos:   position{line: 1583, col: 12, offset: 51195},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1586, col: 9, offset: 51320},
+																		pos: position{line: 1585, col: 9, offset: 51258},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1586, col: 9, offset: 51320},
+																				pos: position{line: 1585, col: 9, offset: 51258},
 																				run: (*parser).callonExtraListElement541,
 																				expr: &seqExpr{
-																					pos: position{line: 1586, col: 9, offset: 51320},
+																					pos: position{line: 1585, col: 9, offset: 51258},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1586, col: 9, offset: 51320},
+																							pos:   position{line: 1585, col: 9, offset: 51258},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1586, col: 16, offset: 51327},
+																								pos: position{line: 1585, col: 16, offset: 51265},
 																								run: (*parser).callonExtraListElement544,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1586, col: 16, offset: 51327},
+																									pos: position{line: 1585, col: 16, offset: 51265},
 																									expr: &litMatcher{
-																										pos:        position{line: 1586, col: 17, offset: 51328},
+																										pos:        position{line: 1585, col: 17, offset: 51266},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -28055,22 +28011,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1590, col: 9, offset: 51428},
+																							pos: position{line: 1589, col: 9, offset: 51366},
 																							run: (*parser).callonExtraListElement547,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1609, col: 11, offset: 52145},
+																				pos: position{line: 1608, col: 11, offset: 52083},
 																				run: (*parser).callonExtraListElement548,
 																				expr: &seqExpr{
-																					pos: position{line: 1609, col: 11, offset: 52145},
+																					pos: position{line: 1608, col: 11, offset: 52083},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1609, col: 11, offset: 52145},
+																							pos: position{line: 1608, col: 11, offset: 52083},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1609, col: 12, offset: 52146},
+																								pos:        position{line: 1608, col: 12, offset: 52084},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -28078,7 +28034,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1609, col: 20, offset: 52154},
+																							pos:        position{line: 1608, col: 20, offset: 52092},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28087,20 +28043,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1611, col: 13, offset: 52271},
+																				pos: position{line: 1610, col: 13, offset: 52209},
 																				run: (*parser).callonExtraListElement553,
 																				expr: &seqExpr{
-																					pos: position{line: 1611, col: 13, offset: 52271},
+																					pos: position{line: 1610, col: 13, offset: 52209},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1611, col: 14, offset: 52272},
+																							pos:        position{line: 1610, col: 14, offset: 52210},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1611, col: 21, offset: 52279},
+																							pos:        position{line: 1610, col: 21, offset: 52217},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28109,20 +28065,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1613, col: 13, offset: 52399},
+																				pos: position{line: 1612, col: 13, offset: 52337},
 																				run: (*parser).callonExtraListElement557,
 																				expr: &seqExpr{
-																					pos: position{line: 1613, col: 13, offset: 52399},
+																					pos: position{line: 1612, col: 13, offset: 52337},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1613, col: 14, offset: 52400},
+																							pos:        position{line: 1612, col: 14, offset: 52338},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1613, col: 21, offset: 52407},
+																							pos:        position{line: 1612, col: 21, offset: 52345},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28131,15 +28087,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1615, col: 13, offset: 52527},
+																				pos: position{line: 1614, col: 13, offset: 52465},
 																				run: (*parser).callonExtraListElement561,
 																				expr: &seqExpr{
-																					pos: position{line: 1615, col: 13, offset: 52527},
+																					pos: position{line: 1614, col: 13, offset: 52465},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1615, col: 13, offset: 52527},
+																							pos: position{line: 1614, col: 13, offset: 52465},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1615, col: 14, offset: 52528},
+																								pos:        position{line: 1614, col: 14, offset: 52466},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -28147,7 +28103,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1615, col: 26, offset: 52540},
+																							pos:        position{line: 1614, col: 26, offset: 52478},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -28156,15 +28112,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1617, col: 13, offset: 52660},
+																				pos: position{line: 1616, col: 13, offset: 52598},
 																				run: (*parser).callonExtraListElement566,
 																				expr: &seqExpr{
-																					pos: position{line: 1617, col: 13, offset: 52660},
+																					pos: position{line: 1616, col: 13, offset: 52598},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1617, col: 13, offset: 52660},
+																							pos: position{line: 1616, col: 13, offset: 52598},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1617, col: 14, offset: 52661},
+																								pos:        position{line: 1616, col: 14, offset: 52599},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -28172,7 +28128,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1617, col: 26, offset: 52673},
+																							pos:        position{line: 1616, col: 26, offset: 52611},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -28184,12 +28140,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2877, col: 11, offset: 91023},
+																	pos: position{line: 2876, col: 11, offset: 90961},
 																	run: (*parser).callonExtraListElement571,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2877, col: 11, offset: 91023},
+																		pos: position{line: 2876, col: 11, offset: 90961},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 11, offset: 91023},
+																			pos:        position{line: 2876, col: 11, offset: 90961},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28202,20 +28158,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1515, col: 5, offset: 49263},
+													pos: position{line: 1514, col: 5, offset: 49201},
 													expr: &actionExpr{
-														pos: position{line: 1634, col: 5, offset: 53212},
+														pos: position{line: 1633, col: 5, offset: 53150},
 														run: (*parser).callonExtraListElement575,
 														expr: &seqExpr{
-															pos: position{line: 1634, col: 5, offset: 53212},
+															pos: position{line: 1633, col: 5, offset: 53150},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1634, col: 5, offset: 53212},
+																	pos: position{line: 1633, col: 5, offset: 53150},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90962},
+																		pos: position{line: 2872, col: 10, offset: 90900},
 																		run: (*parser).callonExtraListElement578,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90962},
+																			pos:        position{line: 2872, col: 10, offset: 90900},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28224,24 +28180,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1635, col: 5, offset: 53224},
+																	pos:   position{line: 1634, col: 5, offset: 53162},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1636, col: 9, offset: 53240},
+																		pos: position{line: 1635, col: 9, offset: 53178},
 																		run: (*parser).callonExtraListElement581,
 																		expr: &choiceExpr{
-																			pos: position{line: 1636, col: 10, offset: 53241},
+																			pos: position{line: 1635, col: 10, offset: 53179},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1636, col: 11, offset: 53242},
+																					pos:        position{line: 1635, col: 11, offset: 53180},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1636, col: 18, offset: 53249},
+																					pos: position{line: 1635, col: 18, offset: 53187},
 																					expr: &litMatcher{
-																						pos:        position{line: 1636, col: 19, offset: 53250},
+																						pos:        position{line: 1635, col: 19, offset: 53188},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -28252,16 +28208,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1639, col: 7, offset: 53340},
+																	pos: position{line: 1638, col: 7, offset: 53278},
 																	run: (*parser).callonExtraListElement586,
 																},
 																&actionExpr{
-																	pos: position{line: 2877, col: 11, offset: 91023},
+																	pos: position{line: 2876, col: 11, offset: 90961},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2877, col: 11, offset: 91023},
+																		pos: position{line: 2876, col: 11, offset: 90961},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 11, offset: 91023},
+																			pos:        position{line: 2876, col: 11, offset: 90961},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28274,29 +28230,29 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1516, col: 5, offset: 49295},
+													pos: position{line: 1515, col: 5, offset: 49233},
 													expr: &actionExpr{
-														pos: position{line: 1724, col: 5, offset: 55781},
+														pos: position{line: 1723, col: 5, offset: 55719},
 														run: (*parser).callonExtraListElement591,
 														expr: &seqExpr{
-															pos: position{line: 1724, col: 5, offset: 55781},
+															pos: position{line: 1723, col: 5, offset: 55719},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1724, col: 5, offset: 55781},
+																	pos:        position{line: 1723, col: 5, offset: 55719},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1724, col: 9, offset: 55785},
+																	pos:   position{line: 1723, col: 9, offset: 55723},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1724, col: 14, offset: 55790},
+																		pos: position{line: 1723, col: 14, offset: 55728},
 																		run: (*parser).callonExtraListElement595,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1724, col: 14, offset: 55790},
+																			pos: position{line: 1723, col: 14, offset: 55728},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1724, col: 14, offset: 55790},
+																				pos:        position{line: 1723, col: 14, offset: 55728},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -28306,18 +28262,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1724, col: 62, offset: 55838},
+																	pos:        position{line: 1723, col: 62, offset: 55776},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2877, col: 11, offset: 91023},
+																	pos: position{line: 2876, col: 11, offset: 90961},
 																	run: (*parser).callonExtraListElement599,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2877, col: 11, offset: 91023},
+																		pos: position{line: 2876, col: 11, offset: 90961},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 11, offset: 91023},
+																			pos:        position{line: 2876, col: 11, offset: 90961},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28330,31 +28286,31 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1517, col: 5, offset: 49325},
+													pos: position{line: 1516, col: 5, offset: 49263},
 													expr: &seqExpr{
-														pos: position{line: 1517, col: 7, offset: 49327},
+														pos: position{line: 1516, col: 7, offset: 49265},
 														exprs: []interface{}{
 															&actionExpr{
-																pos: position{line: 1669, col: 5, offset: 54231},
+																pos: position{line: 1668, col: 5, offset: 54169},
 																run: (*parser).callonExtraListElement604,
 																expr: &seqExpr{
-																	pos: position{line: 1669, col: 5, offset: 54231},
+																	pos: position{line: 1668, col: 5, offset: 54169},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1669, col: 5, offset: 54231},
+																			pos: position{line: 1668, col: 5, offset: 54169},
 																			expr: &seqExpr{
-																				pos: position{line: 2485, col: 31, offset: 80069},
+																				pos: position{line: 2484, col: 31, offset: 80007},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2485, col: 31, offset: 80069},
+																						pos:        position{line: 2484, col: 31, offset: 80007},
 																						val:        "//",
 																						ignoreCase: false,
 																						want:       "\"//\"",
 																					},
 																					&notExpr{
-																						pos: position{line: 2485, col: 36, offset: 80074},
+																						pos: position{line: 2484, col: 36, offset: 80012},
 																						expr: &litMatcher{
-																							pos:        position{line: 2485, col: 37, offset: 80075},
+																							pos:        position{line: 2484, col: 37, offset: 80013},
 																							val:        "//",
 																							ignoreCase: false,
 																							want:       "\"//\"",
@@ -28364,28 +28320,28 @@ var g = &grammar{
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 1670, col: 5, offset: 54263},
+																			pos: position{line: 1669, col: 5, offset: 54201},
 																			expr: &seqExpr{
-																				pos: position{line: 1670, col: 6, offset: 54264},
+																				pos: position{line: 1669, col: 6, offset: 54202},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1670, col: 6, offset: 54264},
+																						pos: position{line: 1669, col: 6, offset: 54202},
 																						expr: &actionExpr{
-																							pos: position{line: 1675, col: 5, offset: 54414},
+																							pos: position{line: 1674, col: 5, offset: 54352},
 																							run: (*parser).callonExtraListElement614,
 																							expr: &seqExpr{
-																								pos: position{line: 1675, col: 5, offset: 54414},
+																								pos: position{line: 1674, col: 5, offset: 54352},
 																								exprs: []interface{}{
 																									&labeledExpr{
-																										pos:   position{line: 1675, col: 5, offset: 54414},
+																										pos:   position{line: 1674, col: 5, offset: 54352},
 																										label: "separator",
 																										expr: &actionExpr{
-																											pos: position{line: 1675, col: 16, offset: 54425},
+																											pos: position{line: 1674, col: 16, offset: 54363},
 																											run: (*parser).callonExtraListElement617,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1675, col: 16, offset: 54425},
+																												pos: position{line: 1674, col: 16, offset: 54363},
 																												expr: &litMatcher{
-																													pos:        position{line: 1675, col: 17, offset: 54426},
+																													pos:        position{line: 1674, col: 17, offset: 54364},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
@@ -28394,7 +28350,7 @@ var g = &grammar{
 																										},
 																									},
 																									&andCodeExpr{
-																										pos: position{line: 1678, col: 5, offset: 54483},
+																										pos: position{line: 1677, col: 5, offset: 54421},
 																										run: (*parser).callonExtraListElement620,
 																									},
 																								},
@@ -28402,30 +28358,30 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1670, col: 35, offset: 54293},
+																						pos: position{line: 1669, col: 35, offset: 54231},
 																						expr: &choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91360},
+																							pos: position{line: 2894, col: 8, offset: 91298},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91133},
+																									pos: position{line: 2881, col: 12, offset: 91071},
 																									run: (*parser).callonExtraListElement623,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91134},
+																										pos: position{line: 2881, col: 13, offset: 91072},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91134},
+																												pos:        position{line: 2881, col: 13, offset: 91072},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91141},
+																												pos:        position{line: 2881, col: 20, offset: 91079},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91150},
+																												pos:        position{line: 2881, col: 29, offset: 91088},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28434,16 +28390,16 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91310},
+																									pos: position{line: 2891, col: 8, offset: 91248},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91311,
+																										line: 2891, col: 9, offset: 91249,
 																									},
 																								},
 																							},
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1670, col: 40, offset: 54298,
+																						line: 1669, col: 40, offset: 54236,
 																					},
 																				},
 																			},
@@ -28452,21 +28408,21 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1675, col: 5, offset: 54414},
+																pos: position{line: 1674, col: 5, offset: 54352},
 																run: (*parser).callonExtraListElement631,
 																expr: &seqExpr{
-																	pos: position{line: 1675, col: 5, offset: 54414},
+																	pos: position{line: 1674, col: 5, offset: 54352},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1675, col: 5, offset: 54414},
+																			pos:   position{line: 1674, col: 5, offset: 54352},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1675, col: 16, offset: 54425},
+																				pos: position{line: 1674, col: 16, offset: 54363},
 																				run: (*parser).callonExtraListElement634,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1675, col: 16, offset: 54425},
+																					pos: position{line: 1674, col: 16, offset: 54363},
 																					expr: &litMatcher{
-																						pos:        position{line: 1675, col: 17, offset: 54426},
+																						pos:        position{line: 1674, col: 17, offset: 54364},
 																						val:        ":",
 																						ignoreCase: false,
 																						want:       "\":\"",
@@ -28475,7 +28431,7 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1678, col: 5, offset: 54483},
+																			pos: position{line: 1677, col: 5, offset: 54421},
 																			run: (*parser).callonExtraListElement637,
 																		},
 																	},
@@ -28485,17 +28441,17 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1518, col: 5, offset: 49383},
+													pos: position{line: 1517, col: 5, offset: 49321},
 													expr: &actionExpr{
-														pos: position{line: 724, col: 5, offset: 23111},
+														pos: position{line: 723, col: 5, offset: 23049},
 														run: (*parser).callonExtraListElement639,
 														expr: &seqExpr{
-															pos: position{line: 724, col: 5, offset: 23111},
+															pos: position{line: 723, col: 5, offset: 23049},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 724, col: 5, offset: 23111},
+																	pos: position{line: 723, col: 5, offset: 23049},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2763, col: 13, offset: 88036},
+																		pos:        position{line: 2762, col: 13, offset: 87974},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -28503,36 +28459,36 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 725, col: 5, offset: 23141},
+																	pos:   position{line: 724, col: 5, offset: 23079},
 																	label: "delimiter",
 																	expr: &choiceExpr{
-																		pos: position{line: 726, col: 9, offset: 23161},
+																		pos: position{line: 725, col: 9, offset: 23099},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 740, col: 5, offset: 23653},
+																				pos: position{line: 739, col: 5, offset: 23591},
 																				run: (*parser).callonExtraListElement645,
 																				expr: &seqExpr{
-																					pos: position{line: 740, col: 5, offset: 23653},
+																					pos: position{line: 739, col: 5, offset: 23591},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 740, col: 5, offset: 23653},
+																							pos:   position{line: 739, col: 5, offset: 23591},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 740, col: 16, offset: 23664},
+																								pos: position{line: 739, col: 16, offset: 23602},
 																								run: (*parser).callonExtraListElement648,
 																								expr: &seqExpr{
-																									pos: position{line: 740, col: 16, offset: 23664},
+																									pos: position{line: 739, col: 16, offset: 23602},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 740, col: 16, offset: 23664},
+																											pos:        position{line: 739, col: 16, offset: 23602},
 																											val:        "////",
 																											ignoreCase: false,
 																											want:       "\"////\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 740, col: 23, offset: 23671},
+																											pos: position{line: 739, col: 23, offset: 23609},
 																											expr: &litMatcher{
-																												pos:        position{line: 740, col: 23, offset: 23671},
+																												pos:        position{line: 739, col: 23, offset: 23609},
 																												val:        "/",
 																												ignoreCase: false,
 																												want:       "\"/\"",
@@ -28543,12 +28499,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 742, col: 8, offset: 23755},
+																							pos: position{line: 741, col: 8, offset: 23693},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90962},
+																								pos: position{line: 2872, col: 10, offset: 90900},
 																								run: (*parser).callonExtraListElement654,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90962},
+																									pos:        position{line: 2872, col: 10, offset: 90900},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28557,28 +28513,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91360},
+																							pos: position{line: 2894, col: 8, offset: 91298},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91133},
+																									pos: position{line: 2881, col: 12, offset: 91071},
 																									run: (*parser).callonExtraListElement657,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91134},
+																										pos: position{line: 2881, col: 13, offset: 91072},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91134},
+																												pos:        position{line: 2881, col: 13, offset: 91072},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91141},
+																												pos:        position{line: 2881, col: 20, offset: 91079},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91150},
+																												pos:        position{line: 2881, col: 29, offset: 91088},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28587,9 +28543,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91310},
+																									pos: position{line: 2891, col: 8, offset: 91248},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91311,
+																										line: 2891, col: 9, offset: 91249,
 																									},
 																								},
 																							},
@@ -28598,30 +28554,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 747, col: 5, offset: 23901},
+																				pos: position{line: 746, col: 5, offset: 23839},
 																				run: (*parser).callonExtraListElement664,
 																				expr: &seqExpr{
-																					pos: position{line: 747, col: 5, offset: 23901},
+																					pos: position{line: 746, col: 5, offset: 23839},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 747, col: 5, offset: 23901},
+																							pos:   position{line: 746, col: 5, offset: 23839},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 747, col: 16, offset: 23912},
+																								pos: position{line: 746, col: 16, offset: 23850},
 																								run: (*parser).callonExtraListElement667,
 																								expr: &seqExpr{
-																									pos: position{line: 747, col: 16, offset: 23912},
+																									pos: position{line: 746, col: 16, offset: 23850},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 747, col: 16, offset: 23912},
+																											pos:        position{line: 746, col: 16, offset: 23850},
 																											val:        "====",
 																											ignoreCase: false,
 																											want:       "\"====\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 747, col: 23, offset: 23919},
+																											pos: position{line: 746, col: 23, offset: 23857},
 																											expr: &litMatcher{
-																												pos:        position{line: 747, col: 23, offset: 23919},
+																												pos:        position{line: 746, col: 23, offset: 23857},
 																												val:        "=",
 																												ignoreCase: false,
 																												want:       "\"=\"",
@@ -28632,12 +28588,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 749, col: 8, offset: 24003},
+																							pos: position{line: 748, col: 8, offset: 23941},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90962},
+																								pos: position{line: 2872, col: 10, offset: 90900},
 																								run: (*parser).callonExtraListElement673,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90962},
+																									pos:        position{line: 2872, col: 10, offset: 90900},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28646,28 +28602,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91360},
+																							pos: position{line: 2894, col: 8, offset: 91298},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91133},
+																									pos: position{line: 2881, col: 12, offset: 91071},
 																									run: (*parser).callonExtraListElement676,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91134},
+																										pos: position{line: 2881, col: 13, offset: 91072},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91134},
+																												pos:        position{line: 2881, col: 13, offset: 91072},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91141},
+																												pos:        position{line: 2881, col: 20, offset: 91079},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91150},
+																												pos:        position{line: 2881, col: 29, offset: 91088},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28676,9 +28632,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91310},
+																									pos: position{line: 2891, col: 8, offset: 91248},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91311,
+																										line: 2891, col: 9, offset: 91249,
 																									},
 																								},
 																							},
@@ -28687,27 +28643,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 760, col: 26, offset: 24389},
+																				pos: position{line: 759, col: 26, offset: 24327},
 																				run: (*parser).callonExtraListElement683,
 																				expr: &seqExpr{
-																					pos: position{line: 760, col: 26, offset: 24389},
+																					pos: position{line: 759, col: 26, offset: 24327},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 760, col: 26, offset: 24389},
+																							pos:        position{line: 759, col: 26, offset: 24327},
 																							val:        "```",
 																							ignoreCase: false,
 																							want:       "\"```\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 760, col: 32, offset: 24395},
+																							pos:   position{line: 759, col: 32, offset: 24333},
 																							label: "language",
 																							expr: &actionExpr{
-																								pos: position{line: 764, col: 13, offset: 24525},
+																								pos: position{line: 763, col: 13, offset: 24463},
 																								run: (*parser).callonExtraListElement687,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 764, col: 14, offset: 24526},
+																									pos: position{line: 763, col: 14, offset: 24464},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 764, col: 14, offset: 24526},
+																										pos:        position{line: 763, col: 14, offset: 24464},
 																										val:        "[^\\r\\n`\\t ]",
 																										chars:      []rune{'\r', '\n', '`', '\t', ' '},
 																										ignoreCase: false,
@@ -28717,12 +28673,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 760, col: 52, offset: 24415},
+																							pos: position{line: 759, col: 52, offset: 24353},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90962},
+																								pos: position{line: 2872, col: 10, offset: 90900},
 																								run: (*parser).callonExtraListElement691,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90962},
+																									pos:        position{line: 2872, col: 10, offset: 90900},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28731,28 +28687,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91360},
+																							pos: position{line: 2894, col: 8, offset: 91298},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91133},
+																									pos: position{line: 2881, col: 12, offset: 91071},
 																									run: (*parser).callonExtraListElement694,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91134},
+																										pos: position{line: 2881, col: 13, offset: 91072},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91134},
+																												pos:        position{line: 2881, col: 13, offset: 91072},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91141},
+																												pos:        position{line: 2881, col: 20, offset: 91079},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91150},
+																												pos:        position{line: 2881, col: 29, offset: 91088},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28761,9 +28717,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91310},
+																									pos: position{line: 2891, col: 8, offset: 91248},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91311,
+																										line: 2891, col: 9, offset: 91249,
 																									},
 																								},
 																							},
@@ -28772,30 +28728,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 754, col: 5, offset: 24148},
+																				pos: position{line: 753, col: 5, offset: 24086},
 																				run: (*parser).callonExtraListElement701,
 																				expr: &seqExpr{
-																					pos: position{line: 754, col: 5, offset: 24148},
+																					pos: position{line: 753, col: 5, offset: 24086},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 754, col: 5, offset: 24148},
+																							pos:   position{line: 753, col: 5, offset: 24086},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 754, col: 16, offset: 24159},
+																								pos: position{line: 753, col: 16, offset: 24097},
 																								run: (*parser).callonExtraListElement704,
 																								expr: &seqExpr{
-																									pos: position{line: 754, col: 16, offset: 24159},
+																									pos: position{line: 753, col: 16, offset: 24097},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 754, col: 16, offset: 24159},
+																											pos:        position{line: 753, col: 16, offset: 24097},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 754, col: 22, offset: 24165},
+																											pos: position{line: 753, col: 22, offset: 24103},
 																											expr: &litMatcher{
-																												pos:        position{line: 754, col: 22, offset: 24165},
+																												pos:        position{line: 753, col: 22, offset: 24103},
 																												val:        "`",
 																												ignoreCase: false,
 																												want:       "\"`\"",
@@ -28806,12 +28762,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 756, col: 8, offset: 24249},
+																							pos: position{line: 755, col: 8, offset: 24187},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90962},
+																								pos: position{line: 2872, col: 10, offset: 90900},
 																								run: (*parser).callonExtraListElement710,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90962},
+																									pos:        position{line: 2872, col: 10, offset: 90900},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28820,28 +28776,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91360},
+																							pos: position{line: 2894, col: 8, offset: 91298},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91133},
+																									pos: position{line: 2881, col: 12, offset: 91071},
 																									run: (*parser).callonExtraListElement713,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91134},
+																										pos: position{line: 2881, col: 13, offset: 91072},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91134},
+																												pos:        position{line: 2881, col: 13, offset: 91072},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91141},
+																												pos:        position{line: 2881, col: 20, offset: 91079},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91150},
+																												pos:        position{line: 2881, col: 29, offset: 91088},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28850,9 +28806,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91310},
+																									pos: position{line: 2891, col: 8, offset: 91248},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91311,
+																										line: 2891, col: 9, offset: 91249,
 																									},
 																								},
 																							},
@@ -28861,30 +28817,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 769, col: 5, offset: 24690},
+																				pos: position{line: 768, col: 5, offset: 24628},
 																				run: (*parser).callonExtraListElement720,
 																				expr: &seqExpr{
-																					pos: position{line: 769, col: 5, offset: 24690},
+																					pos: position{line: 768, col: 5, offset: 24628},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 769, col: 5, offset: 24690},
+																							pos:   position{line: 768, col: 5, offset: 24628},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 769, col: 16, offset: 24701},
+																								pos: position{line: 768, col: 16, offset: 24639},
 																								run: (*parser).callonExtraListElement723,
 																								expr: &seqExpr{
-																									pos: position{line: 769, col: 16, offset: 24701},
+																									pos: position{line: 768, col: 16, offset: 24639},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 769, col: 16, offset: 24701},
+																											pos:        position{line: 768, col: 16, offset: 24639},
 																											val:        "----",
 																											ignoreCase: false,
 																											want:       "\"----\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 769, col: 23, offset: 24708},
+																											pos: position{line: 768, col: 23, offset: 24646},
 																											expr: &litMatcher{
-																												pos:        position{line: 769, col: 23, offset: 24708},
+																												pos:        position{line: 768, col: 23, offset: 24646},
 																												val:        "-",
 																												ignoreCase: false,
 																												want:       "\"-\"",
@@ -28895,12 +28851,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 771, col: 8, offset: 24792},
+																							pos: position{line: 770, col: 8, offset: 24730},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90962},
+																								pos: position{line: 2872, col: 10, offset: 90900},
 																								run: (*parser).callonExtraListElement729,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90962},
+																									pos:        position{line: 2872, col: 10, offset: 90900},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28909,28 +28865,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91360},
+																							pos: position{line: 2894, col: 8, offset: 91298},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91133},
+																									pos: position{line: 2881, col: 12, offset: 91071},
 																									run: (*parser).callonExtraListElement732,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91134},
+																										pos: position{line: 2881, col: 13, offset: 91072},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91134},
+																												pos:        position{line: 2881, col: 13, offset: 91072},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91141},
+																												pos:        position{line: 2881, col: 20, offset: 91079},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91150},
+																												pos:        position{line: 2881, col: 29, offset: 91088},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28939,9 +28895,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91310},
+																									pos: position{line: 2891, col: 8, offset: 91248},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91311,
+																										line: 2891, col: 9, offset: 91249,
 																									},
 																								},
 																							},
@@ -28950,30 +28906,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 783, col: 5, offset: 25166},
+																				pos: position{line: 782, col: 5, offset: 25104},
 																				run: (*parser).callonExtraListElement739,
 																				expr: &seqExpr{
-																					pos: position{line: 783, col: 5, offset: 25166},
+																					pos: position{line: 782, col: 5, offset: 25104},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 783, col: 5, offset: 25166},
+																							pos:   position{line: 782, col: 5, offset: 25104},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 783, col: 16, offset: 25177},
+																								pos: position{line: 782, col: 16, offset: 25115},
 																								run: (*parser).callonExtraListElement742,
 																								expr: &seqExpr{
-																									pos: position{line: 783, col: 16, offset: 25177},
+																									pos: position{line: 782, col: 16, offset: 25115},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 783, col: 16, offset: 25177},
+																											pos:        position{line: 782, col: 16, offset: 25115},
 																											val:        "....",
 																											ignoreCase: false,
 																											want:       "\"....\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 783, col: 23, offset: 25184},
+																											pos: position{line: 782, col: 23, offset: 25122},
 																											expr: &litMatcher{
-																												pos:        position{line: 783, col: 23, offset: 25184},
+																												pos:        position{line: 782, col: 23, offset: 25122},
 																												val:        ".",
 																												ignoreCase: false,
 																												want:       "\".\"",
@@ -28984,12 +28940,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 785, col: 8, offset: 25268},
+																							pos: position{line: 784, col: 8, offset: 25206},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90962},
+																								pos: position{line: 2872, col: 10, offset: 90900},
 																								run: (*parser).callonExtraListElement748,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90962},
+																									pos:        position{line: 2872, col: 10, offset: 90900},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28998,28 +28954,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91360},
+																							pos: position{line: 2894, col: 8, offset: 91298},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91133},
+																									pos: position{line: 2881, col: 12, offset: 91071},
 																									run: (*parser).callonExtraListElement751,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91134},
+																										pos: position{line: 2881, col: 13, offset: 91072},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91134},
+																												pos:        position{line: 2881, col: 13, offset: 91072},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91141},
+																												pos:        position{line: 2881, col: 20, offset: 91079},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91150},
+																												pos:        position{line: 2881, col: 29, offset: 91088},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29028,9 +28984,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91310},
+																									pos: position{line: 2891, col: 8, offset: 91248},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91311,
+																										line: 2891, col: 9, offset: 91249,
 																									},
 																								},
 																							},
@@ -29039,30 +28995,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 790, col: 5, offset: 25418},
+																				pos: position{line: 789, col: 5, offset: 25356},
 																				run: (*parser).callonExtraListElement758,
 																				expr: &seqExpr{
-																					pos: position{line: 790, col: 5, offset: 25418},
+																					pos: position{line: 789, col: 5, offset: 25356},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 790, col: 5, offset: 25418},
+																							pos:   position{line: 789, col: 5, offset: 25356},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 790, col: 16, offset: 25429},
+																								pos: position{line: 789, col: 16, offset: 25367},
 																								run: (*parser).callonExtraListElement761,
 																								expr: &seqExpr{
-																									pos: position{line: 790, col: 16, offset: 25429},
+																									pos: position{line: 789, col: 16, offset: 25367},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 790, col: 16, offset: 25429},
+																											pos:        position{line: 789, col: 16, offset: 25367},
 																											val:        "++++",
 																											ignoreCase: false,
 																											want:       "\"++++\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 790, col: 23, offset: 25436},
+																											pos: position{line: 789, col: 23, offset: 25374},
 																											expr: &litMatcher{
-																												pos:        position{line: 790, col: 23, offset: 25436},
+																												pos:        position{line: 789, col: 23, offset: 25374},
 																												val:        "+",
 																												ignoreCase: false,
 																												want:       "\"+\"",
@@ -29073,12 +29029,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 792, col: 8, offset: 25520},
+																							pos: position{line: 791, col: 8, offset: 25458},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90962},
+																								pos: position{line: 2872, col: 10, offset: 90900},
 																								run: (*parser).callonExtraListElement767,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90962},
+																									pos:        position{line: 2872, col: 10, offset: 90900},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29087,28 +29043,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91360},
+																							pos: position{line: 2894, col: 8, offset: 91298},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91133},
+																									pos: position{line: 2881, col: 12, offset: 91071},
 																									run: (*parser).callonExtraListElement770,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91134},
+																										pos: position{line: 2881, col: 13, offset: 91072},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91134},
+																												pos:        position{line: 2881, col: 13, offset: 91072},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91141},
+																												pos:        position{line: 2881, col: 20, offset: 91079},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91150},
+																												pos:        position{line: 2881, col: 29, offset: 91088},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29117,9 +29073,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91310},
+																									pos: position{line: 2891, col: 8, offset: 91248},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91311,
+																										line: 2891, col: 9, offset: 91249,
 																									},
 																								},
 																							},
@@ -29128,30 +29084,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 797, col: 5, offset: 25668},
+																				pos: position{line: 796, col: 5, offset: 25606},
 																				run: (*parser).callonExtraListElement777,
 																				expr: &seqExpr{
-																					pos: position{line: 797, col: 5, offset: 25668},
+																					pos: position{line: 796, col: 5, offset: 25606},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 797, col: 5, offset: 25668},
+																							pos:   position{line: 796, col: 5, offset: 25606},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 797, col: 16, offset: 25679},
+																								pos: position{line: 796, col: 16, offset: 25617},
 																								run: (*parser).callonExtraListElement780,
 																								expr: &seqExpr{
-																									pos: position{line: 797, col: 16, offset: 25679},
+																									pos: position{line: 796, col: 16, offset: 25617},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 797, col: 16, offset: 25679},
+																											pos:        position{line: 796, col: 16, offset: 25617},
 																											val:        "____",
 																											ignoreCase: false,
 																											want:       "\"____\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 797, col: 23, offset: 25686},
+																											pos: position{line: 796, col: 23, offset: 25624},
 																											expr: &litMatcher{
-																												pos:        position{line: 797, col: 23, offset: 25686},
+																												pos:        position{line: 796, col: 23, offset: 25624},
 																												val:        "_",
 																												ignoreCase: false,
 																												want:       "\"_\"",
@@ -29162,12 +29118,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 799, col: 8, offset: 25770},
+																							pos: position{line: 798, col: 8, offset: 25708},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90962},
+																								pos: position{line: 2872, col: 10, offset: 90900},
 																								run: (*parser).callonExtraListElement786,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90962},
+																									pos:        position{line: 2872, col: 10, offset: 90900},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29176,28 +29132,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91360},
+																							pos: position{line: 2894, col: 8, offset: 91298},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91133},
+																									pos: position{line: 2881, col: 12, offset: 91071},
 																									run: (*parser).callonExtraListElement789,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91134},
+																										pos: position{line: 2881, col: 13, offset: 91072},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91134},
+																												pos:        position{line: 2881, col: 13, offset: 91072},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91141},
+																												pos:        position{line: 2881, col: 20, offset: 91079},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91150},
+																												pos:        position{line: 2881, col: 29, offset: 91088},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29206,9 +29162,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91310},
+																									pos: position{line: 2891, col: 8, offset: 91248},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91311,
+																										line: 2891, col: 9, offset: 91249,
 																									},
 																								},
 																							},
@@ -29217,30 +29173,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 804, col: 5, offset: 25914},
+																				pos: position{line: 803, col: 5, offset: 25852},
 																				run: (*parser).callonExtraListElement796,
 																				expr: &seqExpr{
-																					pos: position{line: 804, col: 5, offset: 25914},
+																					pos: position{line: 803, col: 5, offset: 25852},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 804, col: 5, offset: 25914},
+																							pos:   position{line: 803, col: 5, offset: 25852},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 804, col: 16, offset: 25925},
+																								pos: position{line: 803, col: 16, offset: 25863},
 																								run: (*parser).callonExtraListElement799,
 																								expr: &seqExpr{
-																									pos: position{line: 804, col: 16, offset: 25925},
+																									pos: position{line: 803, col: 16, offset: 25863},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 804, col: 16, offset: 25925},
+																											pos:        position{line: 803, col: 16, offset: 25863},
 																											val:        "****",
 																											ignoreCase: false,
 																											want:       "\"****\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 804, col: 23, offset: 25932},
+																											pos: position{line: 803, col: 23, offset: 25870},
 																											expr: &litMatcher{
-																												pos:        position{line: 804, col: 23, offset: 25932},
+																												pos:        position{line: 803, col: 23, offset: 25870},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -29251,12 +29207,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 806, col: 8, offset: 26016},
+																							pos: position{line: 805, col: 8, offset: 25954},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90962},
+																								pos: position{line: 2872, col: 10, offset: 90900},
 																								run: (*parser).callonExtraListElement805,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90962},
+																									pos:        position{line: 2872, col: 10, offset: 90900},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29265,28 +29221,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91360},
+																							pos: position{line: 2894, col: 8, offset: 91298},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91133},
+																									pos: position{line: 2881, col: 12, offset: 91071},
 																									run: (*parser).callonExtraListElement808,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91134},
+																										pos: position{line: 2881, col: 13, offset: 91072},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91134},
+																												pos:        position{line: 2881, col: 13, offset: 91072},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91141},
+																												pos:        position{line: 2881, col: 20, offset: 91079},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91150},
+																												pos:        position{line: 2881, col: 29, offset: 91088},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29295,9 +29251,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91310},
+																									pos: position{line: 2891, col: 8, offset: 91248},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91311,
+																										line: 2891, col: 9, offset: 91249,
 																									},
 																								},
 																							},
@@ -29313,15 +29269,15 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1519, col: 5, offset: 49403},
+													pos:   position{line: 1518, col: 5, offset: 49341},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2823, col: 14, offset: 89555},
+														pos: position{line: 2822, col: 14, offset: 89493},
 														run: (*parser).callonExtraListElement816,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2823, col: 14, offset: 89555},
+															pos: position{line: 2822, col: 14, offset: 89493},
 															expr: &charClassMatcher{
-																pos:        position{line: 2823, col: 14, offset: 89555},
+																pos:        position{line: 2822, col: 14, offset: 89493},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -29331,28 +29287,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2895, col: 8, offset: 91360},
+													pos: position{line: 2894, col: 8, offset: 91298},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2882, col: 12, offset: 91133},
+															pos: position{line: 2881, col: 12, offset: 91071},
 															run: (*parser).callonExtraListElement820,
 															expr: &choiceExpr{
-																pos: position{line: 2882, col: 13, offset: 91134},
+																pos: position{line: 2881, col: 13, offset: 91072},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 13, offset: 91134},
+																		pos:        position{line: 2881, col: 13, offset: 91072},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 20, offset: 91141},
+																		pos:        position{line: 2881, col: 20, offset: 91079},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 29, offset: 91150},
+																		pos:        position{line: 2881, col: 29, offset: 91088},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -29361,9 +29317,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2892, col: 8, offset: 91310},
+															pos: position{line: 2891, col: 8, offset: 91248},
 															expr: &anyMatcher{
-																line: 2892, col: 9, offset: 91311,
+																line: 2891, col: 9, offset: 91249,
 															},
 														},
 													},
@@ -29380,28 +29336,28 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuation",
-			pos:  position{line: 1535, col: 1, offset: 49794},
+			pos:  position{line: 1534, col: 1, offset: 49732},
 			expr: &actionExpr{
-				pos: position{line: 1536, col: 5, offset: 49819},
+				pos: position{line: 1535, col: 5, offset: 49757},
 				run: (*parser).callonListContinuation1,
 				expr: &seqExpr{
-					pos: position{line: 1536, col: 5, offset: 49819},
+					pos: position{line: 1535, col: 5, offset: 49757},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1536, col: 5, offset: 49819},
+							pos:   position{line: 1535, col: 5, offset: 49757},
 							label: "offset",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1536, col: 12, offset: 49826},
+								pos: position{line: 1535, col: 12, offset: 49764},
 								expr: &seqExpr{
-									pos: position{line: 1536, col: 13, offset: 49827},
+									pos: position{line: 1535, col: 13, offset: 49765},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 1536, col: 13, offset: 49827},
+											pos: position{line: 1535, col: 13, offset: 49765},
 											expr: &actionExpr{
-												pos: position{line: 2873, col: 10, offset: 90962},
+												pos: position{line: 2872, col: 10, offset: 90900},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2873, col: 10, offset: 90962},
+													pos:        position{line: 2872, col: 10, offset: 90900},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -29410,25 +29366,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2882, col: 12, offset: 91133},
+											pos: position{line: 2881, col: 12, offset: 91071},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2882, col: 13, offset: 91134},
+												pos: position{line: 2881, col: 13, offset: 91072},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2882, col: 13, offset: 91134},
+														pos:        position{line: 2881, col: 13, offset: 91072},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2882, col: 20, offset: 91141},
+														pos:        position{line: 2881, col: 20, offset: 91079},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2882, col: 29, offset: 91150},
+														pos:        position{line: 2881, col: 29, offset: 91088},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -29441,18 +29397,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1543, col: 27, offset: 50031},
+							pos:        position{line: 1542, col: 27, offset: 49969},
 							val:        "+",
 							ignoreCase: false,
 							want:       "\"+\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1543, col: 31, offset: 50035},
+							pos: position{line: 1542, col: 31, offset: 49973},
 							expr: &actionExpr{
-								pos: position{line: 2873, col: 10, offset: 90962},
+								pos: position{line: 2872, col: 10, offset: 90900},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2873, col: 10, offset: 90962},
+									pos:        position{line: 2872, col: 10, offset: 90900},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -29461,25 +29417,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2882, col: 12, offset: 91133},
+							pos: position{line: 2881, col: 12, offset: 91071},
 							run: (*parser).callonListContinuation18,
 							expr: &choiceExpr{
-								pos: position{line: 2882, col: 13, offset: 91134},
+								pos: position{line: 2881, col: 13, offset: 91072},
 								alternatives: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2882, col: 13, offset: 91134},
+										pos:        position{line: 2881, col: 13, offset: 91072},
 										val:        "\n",
 										ignoreCase: false,
 										want:       "\"\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2882, col: 20, offset: 91141},
+										pos:        position{line: 2881, col: 20, offset: 91079},
 										val:        "\r\n",
 										ignoreCase: false,
 										want:       "\"\\r\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2882, col: 29, offset: 91150},
+										pos:        position{line: 2881, col: 29, offset: 91088},
 										val:        "\r",
 										ignoreCase: false,
 										want:       "\"\\r\"",
@@ -29488,12 +29444,12 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1538, col: 5, offset: 49876},
+							pos:   position{line: 1537, col: 5, offset: 49814},
 							label: "element",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1538, col: 13, offset: 49884},
+								pos: position{line: 1537, col: 13, offset: 49822},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1538, col: 13, offset: 49884},
+									pos:  position{line: 1537, col: 13, offset: 49822},
 									name: "ListContinuationElement",
 								},
 							},
@@ -29504,46 +29460,46 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuationElement",
-			pos:  position{line: 1545, col: 1, offset: 50051},
+			pos:  position{line: 1544, col: 1, offset: 49989},
 			expr: &actionExpr{
-				pos: position{line: 1546, col: 5, offset: 50122},
+				pos: position{line: 1545, col: 5, offset: 50060},
 				run: (*parser).callonListContinuationElement1,
 				expr: &seqExpr{
-					pos: position{line: 1546, col: 5, offset: 50122},
+					pos: position{line: 1545, col: 5, offset: 50060},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2890, col: 11, offset: 91296},
+							pos: position{line: 2889, col: 11, offset: 91234},
 							expr: &anyMatcher{
-								line: 2890, col: 13, offset: 91298,
+								line: 2889, col: 13, offset: 91236,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1547, col: 5, offset: 50150},
+							pos: position{line: 1546, col: 5, offset: 50088},
 							expr: &choiceExpr{
-								pos: position{line: 1484, col: 5, offset: 48108},
+								pos: position{line: 1483, col: 5, offset: 48046},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1577, col: 5, offset: 51042},
+										pos: position{line: 1576, col: 5, offset: 50980},
 										run: (*parser).callonListContinuationElement7,
 										expr: &seqExpr{
-											pos: position{line: 1577, col: 5, offset: 51042},
+											pos: position{line: 1576, col: 5, offset: 50980},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1577, col: 5, offset: 51042},
+													pos:   position{line: 1576, col: 5, offset: 50980},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1584, col: 5, offset: 51250},
+														pos: position{line: 1583, col: 5, offset: 51188},
 														run: (*parser).callonListContinuationElement10,
 														expr: &seqExpr{
-															pos: position{line: 1584, col: 5, offset: 51250},
+															pos: position{line: 1583, col: 5, offset: 51188},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1584, col: 5, offset: 51250},
+																	pos: position{line: 1583, col: 5, offset: 51188},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90962},
+																		pos: position{line: 2872, col: 10, offset: 90900},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90962},
+																			pos:        position{line: 2872, col: 10, offset: 90900},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29552,27 +29508,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1584, col: 12, offset: 51257},
+																	pos:   position{line: 1583, col: 12, offset: 51195},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1586, col: 9, offset: 51320},
+																		pos: position{line: 1585, col: 9, offset: 51258},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1586, col: 9, offset: 51320},
+																				pos: position{line: 1585, col: 9, offset: 51258},
 																				run: (*parser).callonListContinuationElement17,
 																				expr: &seqExpr{
-																					pos: position{line: 1586, col: 9, offset: 51320},
+																					pos: position{line: 1585, col: 9, offset: 51258},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1586, col: 9, offset: 51320},
+																							pos:   position{line: 1585, col: 9, offset: 51258},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1586, col: 16, offset: 51327},
+																								pos: position{line: 1585, col: 16, offset: 51265},
 																								run: (*parser).callonListContinuationElement20,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1586, col: 16, offset: 51327},
+																									pos: position{line: 1585, col: 16, offset: 51265},
 																									expr: &litMatcher{
-																										pos:        position{line: 1586, col: 17, offset: 51328},
+																										pos:        position{line: 1585, col: 17, offset: 51266},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -29581,22 +29537,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1590, col: 9, offset: 51428},
+																							pos: position{line: 1589, col: 9, offset: 51366},
 																							run: (*parser).callonListContinuationElement23,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1609, col: 11, offset: 52145},
+																				pos: position{line: 1608, col: 11, offset: 52083},
 																				run: (*parser).callonListContinuationElement24,
 																				expr: &seqExpr{
-																					pos: position{line: 1609, col: 11, offset: 52145},
+																					pos: position{line: 1608, col: 11, offset: 52083},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1609, col: 11, offset: 52145},
+																							pos: position{line: 1608, col: 11, offset: 52083},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1609, col: 12, offset: 52146},
+																								pos:        position{line: 1608, col: 12, offset: 52084},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -29604,7 +29560,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1609, col: 20, offset: 52154},
+																							pos:        position{line: 1608, col: 20, offset: 52092},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29613,20 +29569,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1611, col: 13, offset: 52271},
+																				pos: position{line: 1610, col: 13, offset: 52209},
 																				run: (*parser).callonListContinuationElement29,
 																				expr: &seqExpr{
-																					pos: position{line: 1611, col: 13, offset: 52271},
+																					pos: position{line: 1610, col: 13, offset: 52209},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1611, col: 14, offset: 52272},
+																							pos:        position{line: 1610, col: 14, offset: 52210},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1611, col: 21, offset: 52279},
+																							pos:        position{line: 1610, col: 21, offset: 52217},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29635,20 +29591,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1613, col: 13, offset: 52399},
+																				pos: position{line: 1612, col: 13, offset: 52337},
 																				run: (*parser).callonListContinuationElement33,
 																				expr: &seqExpr{
-																					pos: position{line: 1613, col: 13, offset: 52399},
+																					pos: position{line: 1612, col: 13, offset: 52337},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1613, col: 14, offset: 52400},
+																							pos:        position{line: 1612, col: 14, offset: 52338},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1613, col: 21, offset: 52407},
+																							pos:        position{line: 1612, col: 21, offset: 52345},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29657,15 +29613,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1615, col: 13, offset: 52527},
+																				pos: position{line: 1614, col: 13, offset: 52465},
 																				run: (*parser).callonListContinuationElement37,
 																				expr: &seqExpr{
-																					pos: position{line: 1615, col: 13, offset: 52527},
+																					pos: position{line: 1614, col: 13, offset: 52465},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1615, col: 13, offset: 52527},
+																							pos: position{line: 1614, col: 13, offset: 52465},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1615, col: 14, offset: 52528},
+																								pos:        position{line: 1614, col: 14, offset: 52466},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -29673,7 +29629,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1615, col: 26, offset: 52540},
+																							pos:        position{line: 1614, col: 26, offset: 52478},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -29682,15 +29638,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1617, col: 13, offset: 52660},
+																				pos: position{line: 1616, col: 13, offset: 52598},
 																				run: (*parser).callonListContinuationElement42,
 																				expr: &seqExpr{
-																					pos: position{line: 1617, col: 13, offset: 52660},
+																					pos: position{line: 1616, col: 13, offset: 52598},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1617, col: 13, offset: 52660},
+																							pos: position{line: 1616, col: 13, offset: 52598},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1617, col: 14, offset: 52661},
+																								pos:        position{line: 1616, col: 14, offset: 52599},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -29698,7 +29654,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1617, col: 26, offset: 52673},
+																							pos:        position{line: 1616, col: 26, offset: 52611},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -29710,12 +29666,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2877, col: 11, offset: 91023},
+																	pos: position{line: 2876, col: 11, offset: 90961},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2877, col: 11, offset: 91023},
+																		pos: position{line: 2876, col: 11, offset: 90961},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 11, offset: 91023},
+																			pos:        position{line: 2876, col: 11, offset: 90961},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29728,26 +29684,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1578, col: 5, offset: 51081},
+													pos:   position{line: 1577, col: 5, offset: 51019},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1525, col: 5, offset: 49548},
+														pos: position{line: 1524, col: 5, offset: 49486},
 														run: (*parser).callonListContinuationElement51,
 														expr: &seqExpr{
-															pos: position{line: 1525, col: 5, offset: 49548},
+															pos: position{line: 1524, col: 5, offset: 49486},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1525, col: 5, offset: 49548},
+																	pos:   position{line: 1524, col: 5, offset: 49486},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1525, col: 14, offset: 49557},
+																		pos: position{line: 1524, col: 14, offset: 49495},
 																		expr: &actionExpr{
-																			pos: position{line: 1525, col: 15, offset: 49558},
+																			pos: position{line: 1524, col: 15, offset: 49496},
 																			run: (*parser).callonListContinuationElement55,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1525, col: 15, offset: 49558},
+																				pos: position{line: 1524, col: 15, offset: 49496},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1525, col: 15, offset: 49558},
+																					pos:        position{line: 1524, col: 15, offset: 49496},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -29758,28 +29714,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91360},
+																	pos: position{line: 2894, col: 8, offset: 91298},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91133},
+																			pos: position{line: 2881, col: 12, offset: 91071},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91134},
+																				pos: position{line: 2881, col: 13, offset: 91072},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91134},
+																						pos:        position{line: 2881, col: 13, offset: 91072},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91141},
+																						pos:        position{line: 2881, col: 20, offset: 91079},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91150},
+																						pos:        position{line: 2881, col: 29, offset: 91088},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29788,9 +29744,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91310},
+																			pos: position{line: 2891, col: 8, offset: 91248},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91311,
+																				line: 2891, col: 9, offset: 91249,
 																			},
 																		},
 																	},
@@ -29803,27 +29759,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1627, col: 5, offset: 52939},
+										pos: position{line: 1626, col: 5, offset: 52877},
 										run: (*parser).callonListContinuationElement66,
 										expr: &seqExpr{
-											pos: position{line: 1627, col: 5, offset: 52939},
+											pos: position{line: 1626, col: 5, offset: 52877},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1627, col: 5, offset: 52939},
+													pos:   position{line: 1626, col: 5, offset: 52877},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1634, col: 5, offset: 53212},
+														pos: position{line: 1633, col: 5, offset: 53150},
 														run: (*parser).callonListContinuationElement69,
 														expr: &seqExpr{
-															pos: position{line: 1634, col: 5, offset: 53212},
+															pos: position{line: 1633, col: 5, offset: 53150},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1634, col: 5, offset: 53212},
+																	pos: position{line: 1633, col: 5, offset: 53150},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90962},
+																		pos: position{line: 2872, col: 10, offset: 90900},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90962},
+																			pos:        position{line: 2872, col: 10, offset: 90900},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29832,24 +29788,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1635, col: 5, offset: 53224},
+																	pos:   position{line: 1634, col: 5, offset: 53162},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1636, col: 9, offset: 53240},
+																		pos: position{line: 1635, col: 9, offset: 53178},
 																		run: (*parser).callonListContinuationElement75,
 																		expr: &choiceExpr{
-																			pos: position{line: 1636, col: 10, offset: 53241},
+																			pos: position{line: 1635, col: 10, offset: 53179},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1636, col: 11, offset: 53242},
+																					pos:        position{line: 1635, col: 11, offset: 53180},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1636, col: 18, offset: 53249},
+																					pos: position{line: 1635, col: 18, offset: 53187},
 																					expr: &litMatcher{
-																						pos:        position{line: 1636, col: 19, offset: 53250},
+																						pos:        position{line: 1635, col: 19, offset: 53188},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -29860,16 +29816,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1639, col: 7, offset: 53340},
+																	pos: position{line: 1638, col: 7, offset: 53278},
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2877, col: 11, offset: 91023},
+																	pos: position{line: 2876, col: 11, offset: 90961},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2877, col: 11, offset: 91023},
+																		pos: position{line: 2876, col: 11, offset: 90961},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 11, offset: 91023},
+																			pos:        position{line: 2876, col: 11, offset: 90961},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29882,56 +29838,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1628, col: 5, offset: 52980},
+													pos:   position{line: 1627, col: 5, offset: 52918},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1628, col: 16, offset: 52991},
+														pos: position{line: 1627, col: 16, offset: 52929},
 														expr: &actionExpr{
-															pos: position{line: 1649, col: 5, offset: 53605},
+															pos: position{line: 1648, col: 5, offset: 53543},
 															run: (*parser).callonListContinuationElement86,
 															expr: &seqExpr{
-																pos: position{line: 1649, col: 5, offset: 53605},
+																pos: position{line: 1648, col: 5, offset: 53543},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1649, col: 5, offset: 53605},
+																		pos: position{line: 1648, col: 5, offset: 53543},
 																		expr: &litMatcher{
-																			pos:        position{line: 1649, col: 6, offset: 53606},
+																			pos:        position{line: 1648, col: 6, offset: 53544},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1649, col: 10, offset: 53610},
+																		pos:   position{line: 1648, col: 10, offset: 53548},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1650, col: 7, offset: 53624},
+																			pos: position{line: 1649, col: 7, offset: 53562},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1650, col: 7, offset: 53624},
+																					pos: position{line: 1649, col: 7, offset: 53562},
 																					run: (*parser).callonListContinuationElement92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1650, col: 7, offset: 53624},
+																						pos:        position{line: 1649, col: 7, offset: 53562},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1651, col: 7, offset: 53669},
+																					pos: position{line: 1650, col: 7, offset: 53607},
 																					run: (*parser).callonListContinuationElement94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1651, col: 7, offset: 53669},
+																						pos:        position{line: 1650, col: 7, offset: 53607},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1652, col: 7, offset: 53712},
+																					pos: position{line: 1651, col: 7, offset: 53650},
 																					run: (*parser).callonListContinuationElement96,
 																					expr: &litMatcher{
-																						pos:        position{line: 1652, col: 7, offset: 53712},
+																						pos:        position{line: 1651, col: 7, offset: 53650},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -29941,12 +29897,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2877, col: 11, offset: 91023},
+																		pos: position{line: 2876, col: 11, offset: 90961},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2877, col: 11, offset: 91023},
+																			pos: position{line: 2876, col: 11, offset: 90961},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 11, offset: 91023},
+																				pos:        position{line: 2876, col: 11, offset: 90961},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -29960,26 +29916,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1629, col: 5, offset: 53030},
+													pos:   position{line: 1628, col: 5, offset: 52968},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1525, col: 5, offset: 49548},
+														pos: position{line: 1524, col: 5, offset: 49486},
 														run: (*parser).callonListContinuationElement102,
 														expr: &seqExpr{
-															pos: position{line: 1525, col: 5, offset: 49548},
+															pos: position{line: 1524, col: 5, offset: 49486},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1525, col: 5, offset: 49548},
+																	pos:   position{line: 1524, col: 5, offset: 49486},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1525, col: 14, offset: 49557},
+																		pos: position{line: 1524, col: 14, offset: 49495},
 																		expr: &actionExpr{
-																			pos: position{line: 1525, col: 15, offset: 49558},
+																			pos: position{line: 1524, col: 15, offset: 49496},
 																			run: (*parser).callonListContinuationElement106,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1525, col: 15, offset: 49558},
+																				pos: position{line: 1524, col: 15, offset: 49496},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1525, col: 15, offset: 49558},
+																					pos:        position{line: 1524, col: 15, offset: 49496},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -29990,28 +29946,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91360},
+																	pos: position{line: 2894, col: 8, offset: 91298},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91133},
+																			pos: position{line: 2881, col: 12, offset: 91071},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91134},
+																				pos: position{line: 2881, col: 13, offset: 91072},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91134},
+																						pos:        position{line: 2881, col: 13, offset: 91072},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91141},
+																						pos:        position{line: 2881, col: 20, offset: 91079},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91150},
+																						pos:        position{line: 2881, col: 29, offset: 91088},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30020,9 +29976,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91310},
+																			pos: position{line: 2891, col: 8, offset: 91248},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91311,
+																				line: 2891, col: 9, offset: 91249,
 																			},
 																		},
 																	},
@@ -30035,36 +29991,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1718, col: 5, offset: 55584},
+										pos: position{line: 1717, col: 5, offset: 55522},
 										run: (*parser).callonListContinuationElement117,
 										expr: &seqExpr{
-											pos: position{line: 1718, col: 5, offset: 55584},
+											pos: position{line: 1717, col: 5, offset: 55522},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1718, col: 5, offset: 55584},
+													pos:   position{line: 1717, col: 5, offset: 55522},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1724, col: 5, offset: 55781},
+														pos: position{line: 1723, col: 5, offset: 55719},
 														run: (*parser).callonListContinuationElement120,
 														expr: &seqExpr{
-															pos: position{line: 1724, col: 5, offset: 55781},
+															pos: position{line: 1723, col: 5, offset: 55719},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1724, col: 5, offset: 55781},
+																	pos:        position{line: 1723, col: 5, offset: 55719},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1724, col: 9, offset: 55785},
+																	pos:   position{line: 1723, col: 9, offset: 55723},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1724, col: 14, offset: 55790},
+																		pos: position{line: 1723, col: 14, offset: 55728},
 																		run: (*parser).callonListContinuationElement124,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1724, col: 14, offset: 55790},
+																			pos: position{line: 1723, col: 14, offset: 55728},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1724, col: 14, offset: 55790},
+																				pos:        position{line: 1723, col: 14, offset: 55728},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -30074,18 +30030,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1724, col: 62, offset: 55838},
+																	pos:        position{line: 1723, col: 62, offset: 55776},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2877, col: 11, offset: 91023},
+																	pos: position{line: 2876, col: 11, offset: 90961},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2877, col: 11, offset: 91023},
+																		pos: position{line: 2876, col: 11, offset: 90961},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 11, offset: 91023},
+																			pos:        position{line: 2876, col: 11, offset: 90961},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30098,26 +30054,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1719, col: 5, offset: 55620},
+													pos:   position{line: 1718, col: 5, offset: 55558},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1525, col: 5, offset: 49548},
+														pos: position{line: 1524, col: 5, offset: 49486},
 														run: (*parser).callonListContinuationElement132,
 														expr: &seqExpr{
-															pos: position{line: 1525, col: 5, offset: 49548},
+															pos: position{line: 1524, col: 5, offset: 49486},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1525, col: 5, offset: 49548},
+																	pos:   position{line: 1524, col: 5, offset: 49486},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1525, col: 14, offset: 49557},
+																		pos: position{line: 1524, col: 14, offset: 49495},
 																		expr: &actionExpr{
-																			pos: position{line: 1525, col: 15, offset: 49558},
+																			pos: position{line: 1524, col: 15, offset: 49496},
 																			run: (*parser).callonListContinuationElement136,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1525, col: 15, offset: 49558},
+																				pos: position{line: 1524, col: 15, offset: 49496},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1525, col: 15, offset: 49558},
+																					pos:        position{line: 1524, col: 15, offset: 49496},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30128,28 +30084,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91360},
+																	pos: position{line: 2894, col: 8, offset: 91298},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91133},
+																			pos: position{line: 2881, col: 12, offset: 91071},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91134},
+																				pos: position{line: 2881, col: 13, offset: 91072},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91134},
+																						pos:        position{line: 2881, col: 13, offset: 91072},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91141},
+																						pos:        position{line: 2881, col: 20, offset: 91079},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91150},
+																						pos:        position{line: 2881, col: 29, offset: 91088},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30158,9 +30114,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91310},
+																			pos: position{line: 2891, col: 8, offset: 91248},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91311,
+																				line: 2891, col: 9, offset: 91249,
 																			},
 																		},
 																	},
@@ -30173,35 +30129,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1661, col: 5, offset: 53905},
+										pos: position{line: 1660, col: 5, offset: 53843},
 										run: (*parser).callonListContinuationElement147,
 										expr: &seqExpr{
-											pos: position{line: 1661, col: 5, offset: 53905},
+											pos: position{line: 1660, col: 5, offset: 53843},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1661, col: 5, offset: 53905},
+													pos:   position{line: 1660, col: 5, offset: 53843},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1669, col: 5, offset: 54231},
+														pos: position{line: 1668, col: 5, offset: 54169},
 														run: (*parser).callonListContinuationElement150,
 														expr: &seqExpr{
-															pos: position{line: 1669, col: 5, offset: 54231},
+															pos: position{line: 1668, col: 5, offset: 54169},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1669, col: 5, offset: 54231},
+																	pos: position{line: 1668, col: 5, offset: 54169},
 																	expr: &seqExpr{
-																		pos: position{line: 2485, col: 31, offset: 80069},
+																		pos: position{line: 2484, col: 31, offset: 80007},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2485, col: 31, offset: 80069},
+																				pos:        position{line: 2484, col: 31, offset: 80007},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2485, col: 36, offset: 80074},
+																				pos: position{line: 2484, col: 36, offset: 80012},
 																				expr: &litMatcher{
-																					pos:        position{line: 2485, col: 37, offset: 80075},
+																					pos:        position{line: 2484, col: 37, offset: 80013},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
@@ -30211,28 +30167,28 @@ var g = &grammar{
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 1670, col: 5, offset: 54263},
+																	pos: position{line: 1669, col: 5, offset: 54201},
 																	expr: &seqExpr{
-																		pos: position{line: 1670, col: 6, offset: 54264},
+																		pos: position{line: 1669, col: 6, offset: 54202},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1670, col: 6, offset: 54264},
+																				pos: position{line: 1669, col: 6, offset: 54202},
 																				expr: &actionExpr{
-																					pos: position{line: 1675, col: 5, offset: 54414},
+																					pos: position{line: 1674, col: 5, offset: 54352},
 																					run: (*parser).callonListContinuationElement160,
 																					expr: &seqExpr{
-																						pos: position{line: 1675, col: 5, offset: 54414},
+																						pos: position{line: 1674, col: 5, offset: 54352},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1675, col: 5, offset: 54414},
+																								pos:   position{line: 1674, col: 5, offset: 54352},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1675, col: 16, offset: 54425},
+																									pos: position{line: 1674, col: 16, offset: 54363},
 																									run: (*parser).callonListContinuationElement163,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1675, col: 16, offset: 54425},
+																										pos: position{line: 1674, col: 16, offset: 54363},
 																										expr: &litMatcher{
-																											pos:        position{line: 1675, col: 17, offset: 54426},
+																											pos:        position{line: 1674, col: 17, offset: 54364},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -30241,7 +30197,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1678, col: 5, offset: 54483},
+																								pos: position{line: 1677, col: 5, offset: 54421},
 																								run: (*parser).callonListContinuationElement166,
 																							},
 																						},
@@ -30249,30 +30205,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1670, col: 35, offset: 54293},
+																				pos: position{line: 1669, col: 35, offset: 54231},
 																				expr: &choiceExpr{
-																					pos: position{line: 2895, col: 8, offset: 91360},
+																					pos: position{line: 2894, col: 8, offset: 91298},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2882, col: 12, offset: 91133},
+																							pos: position{line: 2881, col: 12, offset: 91071},
 																							run: (*parser).callonListContinuationElement169,
 																							expr: &choiceExpr{
-																								pos: position{line: 2882, col: 13, offset: 91134},
+																								pos: position{line: 2881, col: 13, offset: 91072},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 91134},
+																										pos:        position{line: 2881, col: 13, offset: 91072},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 20, offset: 91141},
+																										pos:        position{line: 2881, col: 20, offset: 91079},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 29, offset: 91150},
+																										pos:        position{line: 2881, col: 29, offset: 91088},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -30281,16 +30237,16 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2892, col: 8, offset: 91310},
+																							pos: position{line: 2891, col: 8, offset: 91248},
 																							expr: &anyMatcher{
-																								line: 2892, col: 9, offset: 91311,
+																								line: 2891, col: 9, offset: 91249,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1670, col: 40, offset: 54298,
+																				line: 1669, col: 40, offset: 54236,
 																			},
 																		},
 																	},
@@ -30300,24 +30256,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1662, col: 5, offset: 53940},
+													pos:   position{line: 1661, col: 5, offset: 53878},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1675, col: 5, offset: 54414},
+														pos: position{line: 1674, col: 5, offset: 54352},
 														run: (*parser).callonListContinuationElement178,
 														expr: &seqExpr{
-															pos: position{line: 1675, col: 5, offset: 54414},
+															pos: position{line: 1674, col: 5, offset: 54352},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1675, col: 5, offset: 54414},
+																	pos:   position{line: 1674, col: 5, offset: 54352},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1675, col: 16, offset: 54425},
+																		pos: position{line: 1674, col: 16, offset: 54363},
 																		run: (*parser).callonListContinuationElement181,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1675, col: 16, offset: 54425},
+																			pos: position{line: 1674, col: 16, offset: 54363},
 																			expr: &litMatcher{
-																				pos:        position{line: 1675, col: 17, offset: 54426},
+																				pos:        position{line: 1674, col: 17, offset: 54364},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -30326,7 +30282,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1678, col: 5, offset: 54483},
+																	pos: position{line: 1677, col: 5, offset: 54421},
 																	run: (*parser).callonListContinuationElement184,
 																},
 															},
@@ -30334,24 +30290,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1663, col: 5, offset: 53985},
+													pos:   position{line: 1662, col: 5, offset: 53923},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1686, col: 5, offset: 54732},
+														pos: position{line: 1685, col: 5, offset: 54670},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1688, col: 9, offset: 54798},
+																pos: position{line: 1687, col: 9, offset: 54736},
 																run: (*parser).callonListContinuationElement187,
 																expr: &seqExpr{
-																	pos: position{line: 1688, col: 9, offset: 54798},
+																	pos: position{line: 1687, col: 9, offset: 54736},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1688, col: 9, offset: 54798},
+																			pos: position{line: 1687, col: 9, offset: 54736},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90962},
+																				pos: position{line: 2872, col: 10, offset: 90900},
 																				run: (*parser).callonListContinuationElement190,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90962},
+																					pos:        position{line: 2872, col: 10, offset: 90900},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30360,28 +30316,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91360},
+																			pos: position{line: 2894, col: 8, offset: 91298},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 91133},
+																					pos: position{line: 2881, col: 12, offset: 91071},
 																					run: (*parser).callonListContinuationElement193,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 91134},
+																						pos: position{line: 2881, col: 13, offset: 91072},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 91134},
+																								pos:        position{line: 2881, col: 13, offset: 91072},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 91141},
+																								pos:        position{line: 2881, col: 20, offset: 91079},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 91150},
+																								pos:        position{line: 2881, col: 29, offset: 91088},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30390,34 +30346,34 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91310},
+																					pos: position{line: 2891, col: 8, offset: 91248},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91311,
+																						line: 2891, col: 9, offset: 91249,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1689, col: 9, offset: 54817},
+																			pos: position{line: 1688, col: 9, offset: 54755},
 																			expr: &actionExpr{
-																				pos: position{line: 677, col: 14, offset: 21558},
+																				pos: position{line: 676, col: 14, offset: 21496},
 																				run: (*parser).callonListContinuationElement201,
 																				expr: &seqExpr{
-																					pos: position{line: 677, col: 14, offset: 21558},
+																					pos: position{line: 676, col: 14, offset: 21496},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2890, col: 11, offset: 91296},
+																							pos: position{line: 2889, col: 11, offset: 91234},
 																							expr: &anyMatcher{
-																								line: 2890, col: 13, offset: 91298,
+																								line: 2889, col: 13, offset: 91236,
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 677, col: 21, offset: 21565},
+																							pos: position{line: 676, col: 21, offset: 21503},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90962},
+																								pos: position{line: 2872, col: 10, offset: 90900},
 																								run: (*parser).callonListContinuationElement206,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90962},
+																									pos:        position{line: 2872, col: 10, offset: 90900},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30426,28 +30382,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91360},
+																							pos: position{line: 2894, col: 8, offset: 91298},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91133},
+																									pos: position{line: 2881, col: 12, offset: 91071},
 																									run: (*parser).callonListContinuationElement209,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91134},
+																										pos: position{line: 2881, col: 13, offset: 91072},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91134},
+																												pos:        position{line: 2881, col: 13, offset: 91072},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91141},
+																												pos:        position{line: 2881, col: 20, offset: 91079},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91150},
+																												pos:        position{line: 2881, col: 29, offset: 91088},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30456,9 +30412,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91310},
+																									pos: position{line: 2891, col: 8, offset: 91248},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91311,
+																										line: 2891, col: 9, offset: 91249,
 																									},
 																								},
 																							},
@@ -30471,18 +30427,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1695, col: 9, offset: 54946},
+																pos: position{line: 1694, col: 9, offset: 54884},
 																run: (*parser).callonListContinuationElement216,
 																expr: &seqExpr{
-																	pos: position{line: 1695, col: 9, offset: 54946},
+																	pos: position{line: 1694, col: 9, offset: 54884},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2877, col: 11, offset: 91023},
+																			pos: position{line: 2876, col: 11, offset: 90961},
 																			run: (*parser).callonListContinuationElement218,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2877, col: 11, offset: 91023},
+																				pos: position{line: 2876, col: 11, offset: 90961},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 11, offset: 91023},
+																					pos:        position{line: 2876, col: 11, offset: 90961},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30491,15 +30447,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1696, col: 9, offset: 55019},
+																			pos:   position{line: 1695, col: 9, offset: 54957},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1696, col: 18, offset: 55028},
+																				pos: position{line: 1695, col: 18, offset: 54966},
 																				run: (*parser).callonListContinuationElement222,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1696, col: 18, offset: 55028},
+																					pos: position{line: 1695, col: 18, offset: 54966},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1696, col: 18, offset: 55028},
+																						pos:        position{line: 1695, col: 18, offset: 54966},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -30509,28 +30465,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91360},
+																			pos: position{line: 2894, col: 8, offset: 91298},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 91133},
+																					pos: position{line: 2881, col: 12, offset: 91071},
 																					run: (*parser).callonListContinuationElement226,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 91134},
+																						pos: position{line: 2881, col: 13, offset: 91072},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 91134},
+																								pos:        position{line: 2881, col: 13, offset: 91072},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 91141},
+																								pos:        position{line: 2881, col: 20, offset: 91079},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 91150},
+																								pos:        position{line: 2881, col: 29, offset: 91088},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30539,9 +30495,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91310},
+																					pos: position{line: 2891, col: 8, offset: 91248},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91311,
+																						line: 2891, col: 9, offset: 91249,
 																					},
 																				},
 																			},
@@ -30559,41 +30515,41 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1548, col: 5, offset: 50167},
+							pos:   position{line: 1547, col: 5, offset: 50105},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1548, col: 16, offset: 50178},
+								pos: position{line: 1547, col: 16, offset: 50116},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1548, col: 17, offset: 50179},
+									pos:  position{line: 1547, col: 17, offset: 50117},
 									name: "BlockAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1549, col: 5, offset: 50201},
+							pos:   position{line: 1548, col: 5, offset: 50139},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1550, col: 9, offset: 50219},
+								pos: position{line: 1549, col: 9, offset: 50157},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 677, col: 14, offset: 21558},
+										pos: position{line: 676, col: 14, offset: 21496},
 										run: (*parser).callonListContinuationElement238,
 										expr: &seqExpr{
-											pos: position{line: 677, col: 14, offset: 21558},
+											pos: position{line: 676, col: 14, offset: 21496},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2890, col: 11, offset: 91296},
+													pos: position{line: 2889, col: 11, offset: 91234},
 													expr: &anyMatcher{
-														line: 2890, col: 13, offset: 91298,
+														line: 2889, col: 13, offset: 91236,
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 677, col: 21, offset: 21565},
+													pos: position{line: 676, col: 21, offset: 21503},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90962},
+														pos: position{line: 2872, col: 10, offset: 90900},
 														run: (*parser).callonListContinuationElement243,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90962},
+															pos:        position{line: 2872, col: 10, offset: 90900},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30602,28 +30558,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2895, col: 8, offset: 91360},
+													pos: position{line: 2894, col: 8, offset: 91298},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2882, col: 12, offset: 91133},
+															pos: position{line: 2881, col: 12, offset: 91071},
 															run: (*parser).callonListContinuationElement246,
 															expr: &choiceExpr{
-																pos: position{line: 2882, col: 13, offset: 91134},
+																pos: position{line: 2881, col: 13, offset: 91072},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 13, offset: 91134},
+																		pos:        position{line: 2881, col: 13, offset: 91072},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 20, offset: 91141},
+																		pos:        position{line: 2881, col: 20, offset: 91079},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 29, offset: 91150},
+																		pos:        position{line: 2881, col: 29, offset: 91088},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30632,9 +30588,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2892, col: 8, offset: 91310},
+															pos: position{line: 2891, col: 8, offset: 91248},
 															expr: &anyMatcher{
-																line: 2892, col: 9, offset: 91311,
+																line: 2891, col: 9, offset: 91249,
 															},
 														},
 													},
@@ -30643,32 +30599,32 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1551, col: 11, offset: 50239},
+										pos:  position{line: 1550, col: 11, offset: 50177},
 										name: "AttributeDeclaration",
 									},
 									&actionExpr{
-										pos: position{line: 360, col: 19, offset: 10911},
+										pos: position{line: 359, col: 19, offset: 10849},
 										run: (*parser).callonListContinuationElement254,
 										expr: &seqExpr{
-											pos: position{line: 360, col: 19, offset: 10911},
+											pos: position{line: 359, col: 19, offset: 10849},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 360, col: 19, offset: 10911},
+													pos:        position{line: 359, col: 19, offset: 10849},
 													val:        ":!",
 													ignoreCase: false,
 													want:       "\":!\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 360, col: 24, offset: 10916},
+													pos:   position{line: 359, col: 24, offset: 10854},
 													label: "name",
 													expr: &actionExpr{
-														pos: position{line: 318, col: 18, offset: 9729},
+														pos: position{line: 317, col: 18, offset: 9667},
 														run: (*parser).callonListContinuationElement258,
 														expr: &seqExpr{
-															pos: position{line: 318, col: 18, offset: 9729},
+															pos: position{line: 317, col: 18, offset: 9667},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 318, col: 18, offset: 9729},
+																	pos:        position{line: 317, col: 18, offset: 9667},
 																	val:        "[_\\pL\\pN]",
 																	chars:      []rune{'_'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -30676,9 +30632,9 @@ var g = &grammar{
 																	inverted:   false,
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 318, col: 28, offset: 9739},
+																	pos: position{line: 317, col: 28, offset: 9677},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 318, col: 29, offset: 9740},
+																		pos:        position{line: 317, col: 29, offset: 9678},
 																		val:        "[_-\\pL\\pN]",
 																		chars:      []rune{'_', '-'},
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -30691,18 +30647,18 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 360, col: 45, offset: 10937},
+													pos:        position{line: 359, col: 45, offset: 10875},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 360, col: 49, offset: 10941},
+													pos: position{line: 359, col: 49, offset: 10879},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90962},
+														pos: position{line: 2872, col: 10, offset: 90900},
 														run: (*parser).callonListContinuationElement265,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90962},
+															pos:        position{line: 2872, col: 10, offset: 90900},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30711,28 +30667,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2895, col: 8, offset: 91360},
+													pos: position{line: 2894, col: 8, offset: 91298},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2882, col: 12, offset: 91133},
+															pos: position{line: 2881, col: 12, offset: 91071},
 															run: (*parser).callonListContinuationElement268,
 															expr: &choiceExpr{
-																pos: position{line: 2882, col: 13, offset: 91134},
+																pos: position{line: 2881, col: 13, offset: 91072},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 13, offset: 91134},
+																		pos:        position{line: 2881, col: 13, offset: 91072},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 20, offset: 91141},
+																		pos:        position{line: 2881, col: 20, offset: 91079},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 29, offset: 91150},
+																		pos:        position{line: 2881, col: 29, offset: 91088},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30741,9 +30697,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2892, col: 8, offset: 91310},
+															pos: position{line: 2891, col: 8, offset: 91248},
 															expr: &anyMatcher{
-																line: 2892, col: 9, offset: 91311,
+																line: 2891, col: 9, offset: 91249,
 															},
 														},
 													},
@@ -30752,28 +30708,28 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 362, col: 9, offset: 11032},
+										pos: position{line: 361, col: 9, offset: 10970},
 										run: (*parser).callonListContinuationElement275,
 										expr: &seqExpr{
-											pos: position{line: 362, col: 9, offset: 11032},
+											pos: position{line: 361, col: 9, offset: 10970},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 362, col: 9, offset: 11032},
+													pos:        position{line: 361, col: 9, offset: 10970},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 362, col: 13, offset: 11036},
+													pos:   position{line: 361, col: 13, offset: 10974},
 													label: "name",
 													expr: &actionExpr{
-														pos: position{line: 318, col: 18, offset: 9729},
+														pos: position{line: 317, col: 18, offset: 9667},
 														run: (*parser).callonListContinuationElement279,
 														expr: &seqExpr{
-															pos: position{line: 318, col: 18, offset: 9729},
+															pos: position{line: 317, col: 18, offset: 9667},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 318, col: 18, offset: 9729},
+																	pos:        position{line: 317, col: 18, offset: 9667},
 																	val:        "[_\\pL\\pN]",
 																	chars:      []rune{'_'},
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -30781,9 +30737,9 @@ var g = &grammar{
 																	inverted:   false,
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 318, col: 28, offset: 9739},
+																	pos: position{line: 317, col: 28, offset: 9677},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 318, col: 29, offset: 9740},
+																		pos:        position{line: 317, col: 29, offset: 9678},
 																		val:        "[_-\\pL\\pN]",
 																		chars:      []rune{'_', '-'},
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -30796,18 +30752,18 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 362, col: 34, offset: 11057},
+													pos:        position{line: 361, col: 34, offset: 10995},
 													val:        "!:",
 													ignoreCase: false,
 													want:       "\"!:\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 362, col: 39, offset: 11062},
+													pos: position{line: 361, col: 39, offset: 11000},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90962},
+														pos: position{line: 2872, col: 10, offset: 90900},
 														run: (*parser).callonListContinuationElement286,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90962},
+															pos:        position{line: 2872, col: 10, offset: 90900},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30816,28 +30772,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2895, col: 8, offset: 91360},
+													pos: position{line: 2894, col: 8, offset: 91298},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2882, col: 12, offset: 91133},
+															pos: position{line: 2881, col: 12, offset: 91071},
 															run: (*parser).callonListContinuationElement289,
 															expr: &choiceExpr{
-																pos: position{line: 2882, col: 13, offset: 91134},
+																pos: position{line: 2881, col: 13, offset: 91072},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 13, offset: 91134},
+																		pos:        position{line: 2881, col: 13, offset: 91072},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 20, offset: 91141},
+																		pos:        position{line: 2881, col: 20, offset: 91079},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 29, offset: 91150},
+																		pos:        position{line: 2881, col: 29, offset: 91088},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30846,9 +30802,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2892, col: 8, offset: 91310},
+															pos: position{line: 2891, col: 8, offset: 91248},
 															expr: &anyMatcher{
-																line: 2892, col: 9, offset: 91311,
+																line: 2891, col: 9, offset: 91249,
 															},
 														},
 													},
@@ -30857,36 +30813,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 820, col: 5, offset: 26398},
+										pos: position{line: 819, col: 5, offset: 26336},
 										run: (*parser).callonListContinuationElement296,
 										expr: &seqExpr{
-											pos: position{line: 820, col: 5, offset: 26398},
+											pos: position{line: 819, col: 5, offset: 26336},
 											exprs: []interface{}{
 												&actionExpr{
-													pos: position{line: 740, col: 5, offset: 23653},
+													pos: position{line: 739, col: 5, offset: 23591},
 													run: (*parser).callonListContinuationElement298,
 													expr: &seqExpr{
-														pos: position{line: 740, col: 5, offset: 23653},
+														pos: position{line: 739, col: 5, offset: 23591},
 														exprs: []interface{}{
 															&labeledExpr{
-																pos:   position{line: 740, col: 5, offset: 23653},
+																pos:   position{line: 739, col: 5, offset: 23591},
 																label: "delimiter",
 																expr: &actionExpr{
-																	pos: position{line: 740, col: 16, offset: 23664},
+																	pos: position{line: 739, col: 16, offset: 23602},
 																	run: (*parser).callonListContinuationElement301,
 																	expr: &seqExpr{
-																		pos: position{line: 740, col: 16, offset: 23664},
+																		pos: position{line: 739, col: 16, offset: 23602},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 740, col: 16, offset: 23664},
+																				pos:        position{line: 739, col: 16, offset: 23602},
 																				val:        "////",
 																				ignoreCase: false,
 																				want:       "\"////\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 740, col: 23, offset: 23671},
+																				pos: position{line: 739, col: 23, offset: 23609},
 																				expr: &litMatcher{
-																					pos:        position{line: 740, col: 23, offset: 23671},
+																					pos:        position{line: 739, col: 23, offset: 23609},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -30897,12 +30853,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 742, col: 8, offset: 23755},
+																pos: position{line: 741, col: 8, offset: 23693},
 																expr: &actionExpr{
-																	pos: position{line: 2873, col: 10, offset: 90962},
+																	pos: position{line: 2872, col: 10, offset: 90900},
 																	run: (*parser).callonListContinuationElement307,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2873, col: 10, offset: 90962},
+																		pos:        position{line: 2872, col: 10, offset: 90900},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -30911,28 +30867,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2895, col: 8, offset: 91360},
+																pos: position{line: 2894, col: 8, offset: 91298},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2882, col: 12, offset: 91133},
+																		pos: position{line: 2881, col: 12, offset: 91071},
 																		run: (*parser).callonListContinuationElement310,
 																		expr: &choiceExpr{
-																			pos: position{line: 2882, col: 13, offset: 91134},
+																			pos: position{line: 2881, col: 13, offset: 91072},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 13, offset: 91134},
+																					pos:        position{line: 2881, col: 13, offset: 91072},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 20, offset: 91141},
+																					pos:        position{line: 2881, col: 20, offset: 91079},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 29, offset: 91150},
+																					pos:        position{line: 2881, col: 29, offset: 91088},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -30941,9 +30897,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91310},
+																		pos: position{line: 2891, col: 8, offset: 91248},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91311,
+																			line: 2891, col: 9, offset: 91249,
 																		},
 																	},
 																},
@@ -30952,46 +30908,46 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 821, col: 5, offset: 26429},
+													pos:   position{line: 820, col: 5, offset: 26367},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 831, col: 5, offset: 26715},
+														pos: position{line: 830, col: 5, offset: 26653},
 														expr: &actionExpr{
-															pos: position{line: 831, col: 6, offset: 26716},
+															pos: position{line: 830, col: 6, offset: 26654},
 															run: (*parser).callonListContinuationElement319,
 															expr: &seqExpr{
-																pos: position{line: 831, col: 6, offset: 26716},
+																pos: position{line: 830, col: 6, offset: 26654},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 831, col: 6, offset: 26716},
+																		pos: position{line: 830, col: 6, offset: 26654},
 																		expr: &choiceExpr{
-																			pos: position{line: 828, col: 29, offset: 26658},
+																			pos: position{line: 827, col: 29, offset: 26596},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 740, col: 5, offset: 23653},
+																					pos: position{line: 739, col: 5, offset: 23591},
 																					run: (*parser).callonListContinuationElement323,
 																					expr: &seqExpr{
-																						pos: position{line: 740, col: 5, offset: 23653},
+																						pos: position{line: 739, col: 5, offset: 23591},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 740, col: 5, offset: 23653},
+																								pos:   position{line: 739, col: 5, offset: 23591},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 740, col: 16, offset: 23664},
+																									pos: position{line: 739, col: 16, offset: 23602},
 																									run: (*parser).callonListContinuationElement326,
 																									expr: &seqExpr{
-																										pos: position{line: 740, col: 16, offset: 23664},
+																										pos: position{line: 739, col: 16, offset: 23602},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 740, col: 16, offset: 23664},
+																												pos:        position{line: 739, col: 16, offset: 23602},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 740, col: 23, offset: 23671},
+																												pos: position{line: 739, col: 23, offset: 23609},
 																												expr: &litMatcher{
-																													pos:        position{line: 740, col: 23, offset: 23671},
+																													pos:        position{line: 739, col: 23, offset: 23609},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -31002,12 +30958,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 742, col: 8, offset: 23755},
+																								pos: position{line: 741, col: 8, offset: 23693},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90962},
+																									pos: position{line: 2872, col: 10, offset: 90900},
 																									run: (*parser).callonListContinuationElement332,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90962},
+																										pos:        position{line: 2872, col: 10, offset: 90900},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -31016,28 +30972,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91360},
+																								pos: position{line: 2894, col: 8, offset: 91298},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91133},
+																										pos: position{line: 2881, col: 12, offset: 91071},
 																										run: (*parser).callonListContinuationElement335,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91134},
+																											pos: position{line: 2881, col: 13, offset: 91072},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91134},
+																													pos:        position{line: 2881, col: 13, offset: 91072},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91141},
+																													pos:        position{line: 2881, col: 20, offset: 91079},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91150},
+																													pos:        position{line: 2881, col: 29, offset: 91088},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -31046,9 +31002,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91310},
+																										pos: position{line: 2891, col: 8, offset: 91248},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91311,
+																											line: 2891, col: 9, offset: 91249,
 																										},
 																									},
 																								},
@@ -31057,39 +31013,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91310},
+																					pos: position{line: 2891, col: 8, offset: 91248},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91311,
+																						line: 2891, col: 9, offset: 91249,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 832, col: 5, offset: 26746},
+																		pos:   position{line: 831, col: 5, offset: 26684},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26162},
+																			pos: position{line: 810, col: 5, offset: 26100},
 																			run: (*parser).callonListContinuationElement345,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26162},
+																				pos: position{line: 810, col: 5, offset: 26100},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2890, col: 11, offset: 91296},
+																						pos: position{line: 2889, col: 11, offset: 91234},
 																						expr: &anyMatcher{
-																							line: 2890, col: 13, offset: 91298,
+																							line: 2889, col: 13, offset: 91236,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26237},
+																						pos:   position{line: 811, col: 5, offset: 26175},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2819, col: 13, offset: 89488},
+																							pos: position{line: 2818, col: 13, offset: 89426},
 																							run: (*parser).callonListContinuationElement350,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2819, col: 13, offset: 89488},
+																								pos: position{line: 2818, col: 13, offset: 89426},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2819, col: 13, offset: 89488},
+																									pos:        position{line: 2818, col: 13, offset: 89426},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31099,28 +31055,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91360},
+																						pos: position{line: 2894, col: 8, offset: 91298},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 91133},
+																								pos: position{line: 2881, col: 12, offset: 91071},
 																								run: (*parser).callonListContinuationElement354,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 91134},
+																									pos: position{line: 2881, col: 13, offset: 91072},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 91134},
+																											pos:        position{line: 2881, col: 13, offset: 91072},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 91141},
+																											pos:        position{line: 2881, col: 20, offset: 91079},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 91150},
+																											pos:        position{line: 2881, col: 29, offset: 91088},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31129,9 +31085,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91310},
+																								pos: position{line: 2891, col: 8, offset: 91248},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91311,
+																									line: 2891, col: 9, offset: 91249,
 																								},
 																							},
 																						},
@@ -31146,35 +31102,35 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 822, col: 5, offset: 26463},
+													pos: position{line: 821, col: 5, offset: 26401},
 													expr: &choiceExpr{
-														pos: position{line: 828, col: 29, offset: 26658},
+														pos: position{line: 827, col: 29, offset: 26596},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 740, col: 5, offset: 23653},
+																pos: position{line: 739, col: 5, offset: 23591},
 																run: (*parser).callonListContinuationElement363,
 																expr: &seqExpr{
-																	pos: position{line: 740, col: 5, offset: 23653},
+																	pos: position{line: 739, col: 5, offset: 23591},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 740, col: 5, offset: 23653},
+																			pos:   position{line: 739, col: 5, offset: 23591},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 740, col: 16, offset: 23664},
+																				pos: position{line: 739, col: 16, offset: 23602},
 																				run: (*parser).callonListContinuationElement366,
 																				expr: &seqExpr{
-																					pos: position{line: 740, col: 16, offset: 23664},
+																					pos: position{line: 739, col: 16, offset: 23602},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 740, col: 16, offset: 23664},
+																							pos:        position{line: 739, col: 16, offset: 23602},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 740, col: 23, offset: 23671},
+																							pos: position{line: 739, col: 23, offset: 23609},
 																							expr: &litMatcher{
-																								pos:        position{line: 740, col: 23, offset: 23671},
+																								pos:        position{line: 739, col: 23, offset: 23609},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -31185,12 +31141,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 742, col: 8, offset: 23755},
+																			pos: position{line: 741, col: 8, offset: 23693},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90962},
+																				pos: position{line: 2872, col: 10, offset: 90900},
 																				run: (*parser).callonListContinuationElement372,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90962},
+																					pos:        position{line: 2872, col: 10, offset: 90900},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -31199,28 +31155,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91360},
+																			pos: position{line: 2894, col: 8, offset: 91298},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 91133},
+																					pos: position{line: 2881, col: 12, offset: 91071},
 																					run: (*parser).callonListContinuationElement375,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 91134},
+																						pos: position{line: 2881, col: 13, offset: 91072},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 91134},
+																								pos:        position{line: 2881, col: 13, offset: 91072},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 91141},
+																								pos:        position{line: 2881, col: 20, offset: 91079},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 91150},
+																								pos:        position{line: 2881, col: 29, offset: 91088},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31229,9 +31185,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91310},
+																					pos: position{line: 2891, col: 8, offset: 91248},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91311,
+																						line: 2891, col: 9, offset: 91249,
 																					},
 																				},
 																			},
@@ -31240,9 +31196,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2892, col: 8, offset: 91310},
+																pos: position{line: 2891, col: 8, offset: 91248},
 																expr: &anyMatcher{
-																	line: 2892, col: 9, offset: 91311,
+																	line: 2891, col: 9, offset: 91249,
 																},
 															},
 														},
@@ -31252,39 +31208,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 840, col: 5, offset: 26899},
+										pos: position{line: 839, col: 5, offset: 26837},
 										run: (*parser).callonListContinuationElement384,
 										expr: &seqExpr{
-											pos: position{line: 840, col: 5, offset: 26899},
+											pos: position{line: 839, col: 5, offset: 26837},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 840, col: 5, offset: 26899},
+													pos:   position{line: 839, col: 5, offset: 26837},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 747, col: 5, offset: 23901},
+														pos: position{line: 746, col: 5, offset: 23839},
 														run: (*parser).callonListContinuationElement387,
 														expr: &seqExpr{
-															pos: position{line: 747, col: 5, offset: 23901},
+															pos: position{line: 746, col: 5, offset: 23839},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 747, col: 5, offset: 23901},
+																	pos:   position{line: 746, col: 5, offset: 23839},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 747, col: 16, offset: 23912},
+																		pos: position{line: 746, col: 16, offset: 23850},
 																		run: (*parser).callonListContinuationElement390,
 																		expr: &seqExpr{
-																			pos: position{line: 747, col: 16, offset: 23912},
+																			pos: position{line: 746, col: 16, offset: 23850},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 747, col: 16, offset: 23912},
+																					pos:        position{line: 746, col: 16, offset: 23850},
 																					val:        "====",
 																					ignoreCase: false,
 																					want:       "\"====\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 747, col: 23, offset: 23919},
+																					pos: position{line: 746, col: 23, offset: 23857},
 																					expr: &litMatcher{
-																						pos:        position{line: 747, col: 23, offset: 23919},
+																						pos:        position{line: 746, col: 23, offset: 23857},
 																						val:        "=",
 																						ignoreCase: false,
 																						want:       "\"=\"",
@@ -31295,12 +31251,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 749, col: 8, offset: 24003},
+																	pos: position{line: 748, col: 8, offset: 23941},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90962},
+																		pos: position{line: 2872, col: 10, offset: 90900},
 																		run: (*parser).callonListContinuationElement396,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90962},
+																			pos:        position{line: 2872, col: 10, offset: 90900},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31309,28 +31265,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91360},
+																	pos: position{line: 2894, col: 8, offset: 91298},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91133},
+																			pos: position{line: 2881, col: 12, offset: 91071},
 																			run: (*parser).callonListContinuationElement399,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91134},
+																				pos: position{line: 2881, col: 13, offset: 91072},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91134},
+																						pos:        position{line: 2881, col: 13, offset: 91072},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91141},
+																						pos:        position{line: 2881, col: 20, offset: 91079},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91150},
+																						pos:        position{line: 2881, col: 29, offset: 91088},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31339,9 +31295,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91310},
+																			pos: position{line: 2891, col: 8, offset: 91248},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91311,
+																				line: 2891, col: 9, offset: 91249,
 																			},
 																		},
 																	},
@@ -31351,56 +31307,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 841, col: 5, offset: 26938},
+													pos: position{line: 840, col: 5, offset: 26876},
 													run: (*parser).callonListContinuationElement406,
 												},
 												&labeledExpr{
-													pos:   position{line: 844, col: 5, offset: 27030},
+													pos:   position{line: 843, col: 5, offset: 26968},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 859, col: 4, offset: 27427},
+														pos: position{line: 858, col: 4, offset: 27365},
 														expr: &actionExpr{
-															pos: position{line: 859, col: 5, offset: 27428},
+															pos: position{line: 858, col: 5, offset: 27366},
 															run: (*parser).callonListContinuationElement409,
 															expr: &seqExpr{
-																pos: position{line: 859, col: 5, offset: 27428},
+																pos: position{line: 858, col: 5, offset: 27366},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 859, col: 5, offset: 27428},
+																		pos: position{line: 858, col: 5, offset: 27366},
 																		expr: &choiceExpr{
-																			pos: position{line: 852, col: 5, offset: 27270},
+																			pos: position{line: 851, col: 5, offset: 27208},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 852, col: 5, offset: 27270},
+																					pos: position{line: 851, col: 5, offset: 27208},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 852, col: 5, offset: 27270},
+																							pos:   position{line: 851, col: 5, offset: 27208},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 747, col: 5, offset: 23901},
+																								pos: position{line: 746, col: 5, offset: 23839},
 																								run: (*parser).callonListContinuationElement415,
 																								expr: &seqExpr{
-																									pos: position{line: 747, col: 5, offset: 23901},
+																									pos: position{line: 746, col: 5, offset: 23839},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 747, col: 5, offset: 23901},
+																											pos:   position{line: 746, col: 5, offset: 23839},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 747, col: 16, offset: 23912},
+																												pos: position{line: 746, col: 16, offset: 23850},
 																												run: (*parser).callonListContinuationElement418,
 																												expr: &seqExpr{
-																													pos: position{line: 747, col: 16, offset: 23912},
+																													pos: position{line: 746, col: 16, offset: 23850},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 747, col: 16, offset: 23912},
+																															pos:        position{line: 746, col: 16, offset: 23850},
 																															val:        "====",
 																															ignoreCase: false,
 																															want:       "\"====\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 747, col: 23, offset: 23919},
+																															pos: position{line: 746, col: 23, offset: 23857},
 																															expr: &litMatcher{
-																																pos:        position{line: 747, col: 23, offset: 23919},
+																																pos:        position{line: 746, col: 23, offset: 23857},
 																																val:        "=",
 																																ignoreCase: false,
 																																want:       "\"=\"",
@@ -31411,12 +31367,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 749, col: 8, offset: 24003},
+																											pos: position{line: 748, col: 8, offset: 23941},
 																											expr: &actionExpr{
-																												pos: position{line: 2873, col: 10, offset: 90962},
+																												pos: position{line: 2872, col: 10, offset: 90900},
 																												run: (*parser).callonListContinuationElement424,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2873, col: 10, offset: 90962},
+																													pos:        position{line: 2872, col: 10, offset: 90900},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31425,28 +31381,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91360},
+																											pos: position{line: 2894, col: 8, offset: 91298},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 91133},
+																													pos: position{line: 2881, col: 12, offset: 91071},
 																													run: (*parser).callonListContinuationElement427,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 91134},
+																														pos: position{line: 2881, col: 13, offset: 91072},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 91134},
+																																pos:        position{line: 2881, col: 13, offset: 91072},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 91141},
+																																pos:        position{line: 2881, col: 20, offset: 91079},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 91150},
+																																pos:        position{line: 2881, col: 29, offset: 91088},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31455,9 +31411,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91310},
+																													pos: position{line: 2891, col: 8, offset: 91248},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91311,
+																														line: 2891, col: 9, offset: 91249,
 																													},
 																												},
 																											},
@@ -31467,45 +31423,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 853, col: 5, offset: 27301},
+																							pos: position{line: 852, col: 5, offset: 27239},
 																							run: (*parser).callonListContinuationElement434,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91310},
+																					pos: position{line: 2891, col: 8, offset: 91248},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91311,
+																						line: 2891, col: 9, offset: 91249,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 860, col: 5, offset: 27458},
+																		pos:   position{line: 859, col: 5, offset: 27396},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26162},
+																			pos: position{line: 810, col: 5, offset: 26100},
 																			run: (*parser).callonListContinuationElement438,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26162},
+																				pos: position{line: 810, col: 5, offset: 26100},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2890, col: 11, offset: 91296},
+																						pos: position{line: 2889, col: 11, offset: 91234},
 																						expr: &anyMatcher{
-																							line: 2890, col: 13, offset: 91298,
+																							line: 2889, col: 13, offset: 91236,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26237},
+																						pos:   position{line: 811, col: 5, offset: 26175},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2819, col: 13, offset: 89488},
+																							pos: position{line: 2818, col: 13, offset: 89426},
 																							run: (*parser).callonListContinuationElement443,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2819, col: 13, offset: 89488},
+																								pos: position{line: 2818, col: 13, offset: 89426},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2819, col: 13, offset: 89488},
+																									pos:        position{line: 2818, col: 13, offset: 89426},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31515,28 +31471,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91360},
+																						pos: position{line: 2894, col: 8, offset: 91298},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 91133},
+																								pos: position{line: 2881, col: 12, offset: 91071},
 																								run: (*parser).callonListContinuationElement447,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 91134},
+																									pos: position{line: 2881, col: 13, offset: 91072},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 91134},
+																											pos:        position{line: 2881, col: 13, offset: 91072},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 91141},
+																											pos:        position{line: 2881, col: 20, offset: 91079},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 91150},
+																											pos:        position{line: 2881, col: 29, offset: 91088},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31545,9 +31501,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91310},
+																								pos: position{line: 2891, col: 8, offset: 91248},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91311,
+																									line: 2891, col: 9, offset: 91249,
 																								},
 																							},
 																						},
@@ -31562,44 +31518,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 845, col: 5, offset: 27064},
+													pos:   position{line: 844, col: 5, offset: 27002},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 845, col: 9, offset: 27068},
+														pos: position{line: 844, col: 9, offset: 27006},
 														expr: &choiceExpr{
-															pos: position{line: 852, col: 5, offset: 27270},
+															pos: position{line: 851, col: 5, offset: 27208},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 852, col: 5, offset: 27270},
+																	pos: position{line: 851, col: 5, offset: 27208},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 852, col: 5, offset: 27270},
+																			pos:   position{line: 851, col: 5, offset: 27208},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 747, col: 5, offset: 23901},
+																				pos: position{line: 746, col: 5, offset: 23839},
 																				run: (*parser).callonListContinuationElement459,
 																				expr: &seqExpr{
-																					pos: position{line: 747, col: 5, offset: 23901},
+																					pos: position{line: 746, col: 5, offset: 23839},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 747, col: 5, offset: 23901},
+																							pos:   position{line: 746, col: 5, offset: 23839},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 747, col: 16, offset: 23912},
+																								pos: position{line: 746, col: 16, offset: 23850},
 																								run: (*parser).callonListContinuationElement462,
 																								expr: &seqExpr{
-																									pos: position{line: 747, col: 16, offset: 23912},
+																									pos: position{line: 746, col: 16, offset: 23850},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 747, col: 16, offset: 23912},
+																											pos:        position{line: 746, col: 16, offset: 23850},
 																											val:        "====",
 																											ignoreCase: false,
 																											want:       "\"====\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 747, col: 23, offset: 23919},
+																											pos: position{line: 746, col: 23, offset: 23857},
 																											expr: &litMatcher{
-																												pos:        position{line: 747, col: 23, offset: 23919},
+																												pos:        position{line: 746, col: 23, offset: 23857},
 																												val:        "=",
 																												ignoreCase: false,
 																												want:       "\"=\"",
@@ -31610,12 +31566,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 749, col: 8, offset: 24003},
+																							pos: position{line: 748, col: 8, offset: 23941},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90962},
+																								pos: position{line: 2872, col: 10, offset: 90900},
 																								run: (*parser).callonListContinuationElement468,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90962},
+																									pos:        position{line: 2872, col: 10, offset: 90900},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -31624,28 +31580,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91360},
+																							pos: position{line: 2894, col: 8, offset: 91298},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91133},
+																									pos: position{line: 2881, col: 12, offset: 91071},
 																									run: (*parser).callonListContinuationElement471,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91134},
+																										pos: position{line: 2881, col: 13, offset: 91072},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91134},
+																												pos:        position{line: 2881, col: 13, offset: 91072},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91141},
+																												pos:        position{line: 2881, col: 20, offset: 91079},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91150},
+																												pos:        position{line: 2881, col: 29, offset: 91088},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -31654,9 +31610,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91310},
+																									pos: position{line: 2891, col: 8, offset: 91248},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91311,
+																										line: 2891, col: 9, offset: 91249,
 																									},
 																								},
 																							},
@@ -31666,15 +31622,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 853, col: 5, offset: 27301},
+																			pos: position{line: 852, col: 5, offset: 27239},
 																			run: (*parser).callonListContinuationElement478,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2892, col: 8, offset: 91310},
+																	pos: position{line: 2891, col: 8, offset: 91248},
 																	expr: &anyMatcher{
-																		line: 2892, col: 9, offset: 91311,
+																		line: 2891, col: 9, offset: 91249,
 																	},
 																},
 															},
@@ -31685,36 +31641,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 952, col: 5, offset: 29750},
+										pos: position{line: 951, col: 5, offset: 29688},
 										run: (*parser).callonListContinuationElement481,
 										expr: &seqExpr{
-											pos: position{line: 952, col: 5, offset: 29750},
+											pos: position{line: 951, col: 5, offset: 29688},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 952, col: 5, offset: 29750},
+													pos:   position{line: 951, col: 5, offset: 29688},
 													label: "delimiter",
 													expr: &actionExpr{
-														pos: position{line: 760, col: 26, offset: 24389},
+														pos: position{line: 759, col: 26, offset: 24327},
 														run: (*parser).callonListContinuationElement484,
 														expr: &seqExpr{
-															pos: position{line: 760, col: 26, offset: 24389},
+															pos: position{line: 759, col: 26, offset: 24327},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 760, col: 26, offset: 24389},
+																	pos:        position{line: 759, col: 26, offset: 24327},
 																	val:        "```",
 																	ignoreCase: false,
 																	want:       "\"```\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 760, col: 32, offset: 24395},
+																	pos:   position{line: 759, col: 32, offset: 24333},
 																	label: "language",
 																	expr: &actionExpr{
-																		pos: position{line: 764, col: 13, offset: 24525},
+																		pos: position{line: 763, col: 13, offset: 24463},
 																		run: (*parser).callonListContinuationElement488,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 764, col: 14, offset: 24526},
+																			pos: position{line: 763, col: 14, offset: 24464},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 764, col: 14, offset: 24526},
+																				pos:        position{line: 763, col: 14, offset: 24464},
 																				val:        "[^\\r\\n`\\t ]",
 																				chars:      []rune{'\r', '\n', '`', '\t', ' '},
 																				ignoreCase: false,
@@ -31724,12 +31680,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 760, col: 52, offset: 24415},
+																	pos: position{line: 759, col: 52, offset: 24353},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90962},
+																		pos: position{line: 2872, col: 10, offset: 90900},
 																		run: (*parser).callonListContinuationElement492,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90962},
+																			pos:        position{line: 2872, col: 10, offset: 90900},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31738,28 +31694,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91360},
+																	pos: position{line: 2894, col: 8, offset: 91298},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91133},
+																			pos: position{line: 2881, col: 12, offset: 91071},
 																			run: (*parser).callonListContinuationElement495,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91134},
+																				pos: position{line: 2881, col: 13, offset: 91072},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91134},
+																						pos:        position{line: 2881, col: 13, offset: 91072},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91141},
+																						pos:        position{line: 2881, col: 20, offset: 91079},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91150},
+																						pos:        position{line: 2881, col: 29, offset: 91088},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31768,9 +31724,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91310},
+																			pos: position{line: 2891, col: 8, offset: 91248},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91311,
+																				line: 2891, col: 9, offset: 91249,
 																			},
 																		},
 																	},
@@ -31780,34 +31736,34 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 953, col: 5, offset: 29796},
+													pos:   position{line: 952, col: 5, offset: 29734},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 966, col: 5, offset: 30269},
+														pos: position{line: 965, col: 5, offset: 30207},
 														expr: &actionExpr{
-															pos: position{line: 966, col: 6, offset: 30270},
+															pos: position{line: 965, col: 6, offset: 30208},
 															run: (*parser).callonListContinuationElement504,
 															expr: &seqExpr{
-																pos: position{line: 966, col: 6, offset: 30270},
+																pos: position{line: 965, col: 6, offset: 30208},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 966, col: 6, offset: 30270},
+																		pos: position{line: 965, col: 6, offset: 30208},
 																		expr: &seqExpr{
-																			pos: position{line: 963, col: 34, offset: 30217},
+																			pos: position{line: 962, col: 34, offset: 30155},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 963, col: 34, offset: 30217},
+																					pos:        position{line: 962, col: 34, offset: 30155},
 																					val:        "```",
 																					ignoreCase: false,
 																					want:       "\"```\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 963, col: 40, offset: 30223},
+																					pos: position{line: 962, col: 40, offset: 30161},
 																					expr: &actionExpr{
-																						pos: position{line: 2873, col: 10, offset: 90962},
+																						pos: position{line: 2872, col: 10, offset: 90900},
 																						run: (*parser).callonListContinuationElement510,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2873, col: 10, offset: 90962},
+																							pos:        position{line: 2872, col: 10, offset: 90900},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -31816,28 +31772,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2895, col: 8, offset: 91360},
+																					pos: position{line: 2894, col: 8, offset: 91298},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2882, col: 12, offset: 91133},
+																							pos: position{line: 2881, col: 12, offset: 91071},
 																							run: (*parser).callonListContinuationElement513,
 																							expr: &choiceExpr{
-																								pos: position{line: 2882, col: 13, offset: 91134},
+																								pos: position{line: 2881, col: 13, offset: 91072},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 91134},
+																										pos:        position{line: 2881, col: 13, offset: 91072},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 20, offset: 91141},
+																										pos:        position{line: 2881, col: 20, offset: 91079},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 29, offset: 91150},
+																										pos:        position{line: 2881, col: 29, offset: 91088},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -31846,9 +31802,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2892, col: 8, offset: 91310},
+																							pos: position{line: 2891, col: 8, offset: 91248},
 																							expr: &anyMatcher{
-																								line: 2892, col: 9, offset: 91311,
+																								line: 2891, col: 9, offset: 91249,
 																							},
 																						},
 																					},
@@ -31857,30 +31813,30 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 967, col: 5, offset: 30305},
+																		pos:   position{line: 966, col: 5, offset: 30243},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26162},
+																			pos: position{line: 810, col: 5, offset: 26100},
 																			run: (*parser).callonListContinuationElement521,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26162},
+																				pos: position{line: 810, col: 5, offset: 26100},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2890, col: 11, offset: 91296},
+																						pos: position{line: 2889, col: 11, offset: 91234},
 																						expr: &anyMatcher{
-																							line: 2890, col: 13, offset: 91298,
+																							line: 2889, col: 13, offset: 91236,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26237},
+																						pos:   position{line: 811, col: 5, offset: 26175},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2819, col: 13, offset: 89488},
+																							pos: position{line: 2818, col: 13, offset: 89426},
 																							run: (*parser).callonListContinuationElement526,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2819, col: 13, offset: 89488},
+																								pos: position{line: 2818, col: 13, offset: 89426},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2819, col: 13, offset: 89488},
+																									pos:        position{line: 2818, col: 13, offset: 89426},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31890,28 +31846,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91360},
+																						pos: position{line: 2894, col: 8, offset: 91298},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 91133},
+																								pos: position{line: 2881, col: 12, offset: 91071},
 																								run: (*parser).callonListContinuationElement530,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 91134},
+																									pos: position{line: 2881, col: 13, offset: 91072},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 91134},
+																											pos:        position{line: 2881, col: 13, offset: 91072},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 91141},
+																											pos:        position{line: 2881, col: 20, offset: 91079},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 91150},
+																											pos:        position{line: 2881, col: 29, offset: 91088},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31920,9 +31876,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91310},
+																								pos: position{line: 2891, col: 8, offset: 91248},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91311,
+																									line: 2891, col: 9, offset: 91249,
 																								},
 																							},
 																						},
@@ -31937,23 +31893,23 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 954, col: 5, offset: 29835},
+													pos: position{line: 953, col: 5, offset: 29773},
 													expr: &seqExpr{
-														pos: position{line: 963, col: 34, offset: 30217},
+														pos: position{line: 962, col: 34, offset: 30155},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 963, col: 34, offset: 30217},
+																pos:        position{line: 962, col: 34, offset: 30155},
 																val:        "```",
 																ignoreCase: false,
 																want:       "\"```\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 963, col: 40, offset: 30223},
+																pos: position{line: 962, col: 40, offset: 30161},
 																expr: &actionExpr{
-																	pos: position{line: 2873, col: 10, offset: 90962},
+																	pos: position{line: 2872, col: 10, offset: 90900},
 																	run: (*parser).callonListContinuationElement541,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2873, col: 10, offset: 90962},
+																		pos:        position{line: 2872, col: 10, offset: 90900},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -31962,28 +31918,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2895, col: 8, offset: 91360},
+																pos: position{line: 2894, col: 8, offset: 91298},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2882, col: 12, offset: 91133},
+																		pos: position{line: 2881, col: 12, offset: 91071},
 																		run: (*parser).callonListContinuationElement544,
 																		expr: &choiceExpr{
-																			pos: position{line: 2882, col: 13, offset: 91134},
+																			pos: position{line: 2881, col: 13, offset: 91072},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 13, offset: 91134},
+																					pos:        position{line: 2881, col: 13, offset: 91072},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 20, offset: 91141},
+																					pos:        position{line: 2881, col: 20, offset: 91079},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 29, offset: 91150},
+																					pos:        position{line: 2881, col: 29, offset: 91088},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -31992,9 +31948,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91310},
+																		pos: position{line: 2891, col: 8, offset: 91248},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91311,
+																			line: 2891, col: 9, offset: 91249,
 																		},
 																	},
 																},
@@ -32006,39 +31962,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 868, col: 5, offset: 27611},
+										pos: position{line: 867, col: 5, offset: 27549},
 										run: (*parser).callonListContinuationElement551,
 										expr: &seqExpr{
-											pos: position{line: 868, col: 5, offset: 27611},
+											pos: position{line: 867, col: 5, offset: 27549},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 868, col: 5, offset: 27611},
+													pos:   position{line: 867, col: 5, offset: 27549},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 754, col: 5, offset: 24148},
+														pos: position{line: 753, col: 5, offset: 24086},
 														run: (*parser).callonListContinuationElement554,
 														expr: &seqExpr{
-															pos: position{line: 754, col: 5, offset: 24148},
+															pos: position{line: 753, col: 5, offset: 24086},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 754, col: 5, offset: 24148},
+																	pos:   position{line: 753, col: 5, offset: 24086},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 754, col: 16, offset: 24159},
+																		pos: position{line: 753, col: 16, offset: 24097},
 																		run: (*parser).callonListContinuationElement557,
 																		expr: &seqExpr{
-																			pos: position{line: 754, col: 16, offset: 24159},
+																			pos: position{line: 753, col: 16, offset: 24097},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 754, col: 16, offset: 24159},
+																					pos:        position{line: 753, col: 16, offset: 24097},
 																					val:        "```",
 																					ignoreCase: false,
 																					want:       "\"```\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 754, col: 22, offset: 24165},
+																					pos: position{line: 753, col: 22, offset: 24103},
 																					expr: &litMatcher{
-																						pos:        position{line: 754, col: 22, offset: 24165},
+																						pos:        position{line: 753, col: 22, offset: 24103},
 																						val:        "`",
 																						ignoreCase: false,
 																						want:       "\"`\"",
@@ -32049,12 +32005,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 756, col: 8, offset: 24249},
+																	pos: position{line: 755, col: 8, offset: 24187},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90962},
+																		pos: position{line: 2872, col: 10, offset: 90900},
 																		run: (*parser).callonListContinuationElement563,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90962},
+																			pos:        position{line: 2872, col: 10, offset: 90900},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32063,28 +32019,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91360},
+																	pos: position{line: 2894, col: 8, offset: 91298},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91133},
+																			pos: position{line: 2881, col: 12, offset: 91071},
 																			run: (*parser).callonListContinuationElement566,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91134},
+																				pos: position{line: 2881, col: 13, offset: 91072},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91134},
+																						pos:        position{line: 2881, col: 13, offset: 91072},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91141},
+																						pos:        position{line: 2881, col: 20, offset: 91079},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91150},
+																						pos:        position{line: 2881, col: 29, offset: 91088},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32093,9 +32049,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91310},
+																			pos: position{line: 2891, col: 8, offset: 91248},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91311,
+																				line: 2891, col: 9, offset: 91249,
 																			},
 																		},
 																	},
@@ -32105,56 +32061,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 869, col: 5, offset: 27649},
+													pos: position{line: 868, col: 5, offset: 27587},
 													run: (*parser).callonListContinuationElement573,
 												},
 												&labeledExpr{
-													pos:   position{line: 872, col: 5, offset: 27741},
+													pos:   position{line: 871, col: 5, offset: 27679},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 887, col: 5, offset: 28131},
+														pos: position{line: 886, col: 5, offset: 28069},
 														expr: &actionExpr{
-															pos: position{line: 887, col: 6, offset: 28132},
+															pos: position{line: 886, col: 6, offset: 28070},
 															run: (*parser).callonListContinuationElement576,
 															expr: &seqExpr{
-																pos: position{line: 887, col: 6, offset: 28132},
+																pos: position{line: 886, col: 6, offset: 28070},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 887, col: 6, offset: 28132},
+																		pos: position{line: 886, col: 6, offset: 28070},
 																		expr: &choiceExpr{
-																			pos: position{line: 880, col: 5, offset: 27975},
+																			pos: position{line: 879, col: 5, offset: 27913},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 880, col: 5, offset: 27975},
+																					pos: position{line: 879, col: 5, offset: 27913},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 880, col: 5, offset: 27975},
+																							pos:   position{line: 879, col: 5, offset: 27913},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 754, col: 5, offset: 24148},
+																								pos: position{line: 753, col: 5, offset: 24086},
 																								run: (*parser).callonListContinuationElement582,
 																								expr: &seqExpr{
-																									pos: position{line: 754, col: 5, offset: 24148},
+																									pos: position{line: 753, col: 5, offset: 24086},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 754, col: 5, offset: 24148},
+																											pos:   position{line: 753, col: 5, offset: 24086},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 754, col: 16, offset: 24159},
+																												pos: position{line: 753, col: 16, offset: 24097},
 																												run: (*parser).callonListContinuationElement585,
 																												expr: &seqExpr{
-																													pos: position{line: 754, col: 16, offset: 24159},
+																													pos: position{line: 753, col: 16, offset: 24097},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 754, col: 16, offset: 24159},
+																															pos:        position{line: 753, col: 16, offset: 24097},
 																															val:        "```",
 																															ignoreCase: false,
 																															want:       "\"```\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 754, col: 22, offset: 24165},
+																															pos: position{line: 753, col: 22, offset: 24103},
 																															expr: &litMatcher{
-																																pos:        position{line: 754, col: 22, offset: 24165},
+																																pos:        position{line: 753, col: 22, offset: 24103},
 																																val:        "`",
 																																ignoreCase: false,
 																																want:       "\"`\"",
@@ -32165,12 +32121,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 756, col: 8, offset: 24249},
+																											pos: position{line: 755, col: 8, offset: 24187},
 																											expr: &actionExpr{
-																												pos: position{line: 2873, col: 10, offset: 90962},
+																												pos: position{line: 2872, col: 10, offset: 90900},
 																												run: (*parser).callonListContinuationElement591,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2873, col: 10, offset: 90962},
+																													pos:        position{line: 2872, col: 10, offset: 90900},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32179,28 +32135,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91360},
+																											pos: position{line: 2894, col: 8, offset: 91298},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 91133},
+																													pos: position{line: 2881, col: 12, offset: 91071},
 																													run: (*parser).callonListContinuationElement594,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 91134},
+																														pos: position{line: 2881, col: 13, offset: 91072},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 91134},
+																																pos:        position{line: 2881, col: 13, offset: 91072},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 91141},
+																																pos:        position{line: 2881, col: 20, offset: 91079},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 91150},
+																																pos:        position{line: 2881, col: 29, offset: 91088},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32209,9 +32165,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91310},
+																													pos: position{line: 2891, col: 8, offset: 91248},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91311,
+																														line: 2891, col: 9, offset: 91249,
 																													},
 																												},
 																											},
@@ -32221,45 +32177,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 881, col: 5, offset: 28005},
+																							pos: position{line: 880, col: 5, offset: 27943},
 																							run: (*parser).callonListContinuationElement601,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91310},
+																					pos: position{line: 2891, col: 8, offset: 91248},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91311,
+																						line: 2891, col: 9, offset: 91249,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 888, col: 5, offset: 28161},
+																		pos:   position{line: 887, col: 5, offset: 28099},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26162},
+																			pos: position{line: 810, col: 5, offset: 26100},
 																			run: (*parser).callonListContinuationElement605,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26162},
+																				pos: position{line: 810, col: 5, offset: 26100},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2890, col: 11, offset: 91296},
+																						pos: position{line: 2889, col: 11, offset: 91234},
 																						expr: &anyMatcher{
-																							line: 2890, col: 13, offset: 91298,
+																							line: 2889, col: 13, offset: 91236,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26237},
+																						pos:   position{line: 811, col: 5, offset: 26175},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2819, col: 13, offset: 89488},
+																							pos: position{line: 2818, col: 13, offset: 89426},
 																							run: (*parser).callonListContinuationElement610,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2819, col: 13, offset: 89488},
+																								pos: position{line: 2818, col: 13, offset: 89426},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2819, col: 13, offset: 89488},
+																									pos:        position{line: 2818, col: 13, offset: 89426},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32269,28 +32225,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91360},
+																						pos: position{line: 2894, col: 8, offset: 91298},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 91133},
+																								pos: position{line: 2881, col: 12, offset: 91071},
 																								run: (*parser).callonListContinuationElement614,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 91134},
+																									pos: position{line: 2881, col: 13, offset: 91072},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 91134},
+																											pos:        position{line: 2881, col: 13, offset: 91072},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 91141},
+																											pos:        position{line: 2881, col: 20, offset: 91079},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 91150},
+																											pos:        position{line: 2881, col: 29, offset: 91088},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32299,9 +32255,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91310},
+																								pos: position{line: 2891, col: 8, offset: 91248},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91311,
+																									line: 2891, col: 9, offset: 91249,
 																								},
 																							},
 																						},
@@ -32316,44 +32272,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 873, col: 5, offset: 27774},
+													pos:   position{line: 872, col: 5, offset: 27712},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 873, col: 9, offset: 27778},
+														pos: position{line: 872, col: 9, offset: 27716},
 														expr: &choiceExpr{
-															pos: position{line: 880, col: 5, offset: 27975},
+															pos: position{line: 879, col: 5, offset: 27913},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 880, col: 5, offset: 27975},
+																	pos: position{line: 879, col: 5, offset: 27913},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 880, col: 5, offset: 27975},
+																			pos:   position{line: 879, col: 5, offset: 27913},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 754, col: 5, offset: 24148},
+																				pos: position{line: 753, col: 5, offset: 24086},
 																				run: (*parser).callonListContinuationElement626,
 																				expr: &seqExpr{
-																					pos: position{line: 754, col: 5, offset: 24148},
+																					pos: position{line: 753, col: 5, offset: 24086},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 754, col: 5, offset: 24148},
+																							pos:   position{line: 753, col: 5, offset: 24086},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 754, col: 16, offset: 24159},
+																								pos: position{line: 753, col: 16, offset: 24097},
 																								run: (*parser).callonListContinuationElement629,
 																								expr: &seqExpr{
-																									pos: position{line: 754, col: 16, offset: 24159},
+																									pos: position{line: 753, col: 16, offset: 24097},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 754, col: 16, offset: 24159},
+																											pos:        position{line: 753, col: 16, offset: 24097},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 754, col: 22, offset: 24165},
+																											pos: position{line: 753, col: 22, offset: 24103},
 																											expr: &litMatcher{
-																												pos:        position{line: 754, col: 22, offset: 24165},
+																												pos:        position{line: 753, col: 22, offset: 24103},
 																												val:        "`",
 																												ignoreCase: false,
 																												want:       "\"`\"",
@@ -32364,12 +32320,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 756, col: 8, offset: 24249},
+																							pos: position{line: 755, col: 8, offset: 24187},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90962},
+																								pos: position{line: 2872, col: 10, offset: 90900},
 																								run: (*parser).callonListContinuationElement635,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90962},
+																									pos:        position{line: 2872, col: 10, offset: 90900},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32378,28 +32334,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91360},
+																							pos: position{line: 2894, col: 8, offset: 91298},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91133},
+																									pos: position{line: 2881, col: 12, offset: 91071},
 																									run: (*parser).callonListContinuationElement638,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91134},
+																										pos: position{line: 2881, col: 13, offset: 91072},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91134},
+																												pos:        position{line: 2881, col: 13, offset: 91072},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91141},
+																												pos:        position{line: 2881, col: 20, offset: 91079},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91150},
+																												pos:        position{line: 2881, col: 29, offset: 91088},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32408,9 +32364,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91310},
+																									pos: position{line: 2891, col: 8, offset: 91248},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91311,
+																										line: 2891, col: 9, offset: 91249,
 																									},
 																								},
 																							},
@@ -32420,15 +32376,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 881, col: 5, offset: 28005},
+																			pos: position{line: 880, col: 5, offset: 27943},
 																			run: (*parser).callonListContinuationElement645,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2892, col: 8, offset: 91310},
+																	pos: position{line: 2891, col: 8, offset: 91248},
 																	expr: &anyMatcher{
-																		line: 2892, col: 9, offset: 91311,
+																		line: 2891, col: 9, offset: 91249,
 																	},
 																},
 															},
@@ -32439,39 +32395,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 896, col: 5, offset: 28316},
+										pos: position{line: 895, col: 5, offset: 28254},
 										run: (*parser).callonListContinuationElement648,
 										expr: &seqExpr{
-											pos: position{line: 896, col: 5, offset: 28316},
+											pos: position{line: 895, col: 5, offset: 28254},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 896, col: 5, offset: 28316},
+													pos:   position{line: 895, col: 5, offset: 28254},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 769, col: 5, offset: 24690},
+														pos: position{line: 768, col: 5, offset: 24628},
 														run: (*parser).callonListContinuationElement651,
 														expr: &seqExpr{
-															pos: position{line: 769, col: 5, offset: 24690},
+															pos: position{line: 768, col: 5, offset: 24628},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 769, col: 5, offset: 24690},
+																	pos:   position{line: 768, col: 5, offset: 24628},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 769, col: 16, offset: 24701},
+																		pos: position{line: 768, col: 16, offset: 24639},
 																		run: (*parser).callonListContinuationElement654,
 																		expr: &seqExpr{
-																			pos: position{line: 769, col: 16, offset: 24701},
+																			pos: position{line: 768, col: 16, offset: 24639},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 769, col: 16, offset: 24701},
+																					pos:        position{line: 768, col: 16, offset: 24639},
 																					val:        "----",
 																					ignoreCase: false,
 																					want:       "\"----\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 769, col: 23, offset: 24708},
+																					pos: position{line: 768, col: 23, offset: 24646},
 																					expr: &litMatcher{
-																						pos:        position{line: 769, col: 23, offset: 24708},
+																						pos:        position{line: 768, col: 23, offset: 24646},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
@@ -32482,12 +32438,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 771, col: 8, offset: 24792},
+																	pos: position{line: 770, col: 8, offset: 24730},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90962},
+																		pos: position{line: 2872, col: 10, offset: 90900},
 																		run: (*parser).callonListContinuationElement660,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90962},
+																			pos:        position{line: 2872, col: 10, offset: 90900},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32496,28 +32452,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91360},
+																	pos: position{line: 2894, col: 8, offset: 91298},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91133},
+																			pos: position{line: 2881, col: 12, offset: 91071},
 																			run: (*parser).callonListContinuationElement663,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91134},
+																				pos: position{line: 2881, col: 13, offset: 91072},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91134},
+																						pos:        position{line: 2881, col: 13, offset: 91072},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91141},
+																						pos:        position{line: 2881, col: 20, offset: 91079},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91150},
+																						pos:        position{line: 2881, col: 29, offset: 91088},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32526,9 +32482,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91310},
+																			pos: position{line: 2891, col: 8, offset: 91248},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91311,
+																				line: 2891, col: 9, offset: 91249,
 																			},
 																		},
 																	},
@@ -32538,56 +32494,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 897, col: 5, offset: 28355},
+													pos: position{line: 896, col: 5, offset: 28293},
 													run: (*parser).callonListContinuationElement670,
 												},
 												&labeledExpr{
-													pos:   position{line: 900, col: 5, offset: 28447},
+													pos:   position{line: 899, col: 5, offset: 28385},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 915, col: 5, offset: 28845},
+														pos: position{line: 914, col: 5, offset: 28783},
 														expr: &actionExpr{
-															pos: position{line: 915, col: 6, offset: 28846},
+															pos: position{line: 914, col: 6, offset: 28784},
 															run: (*parser).callonListContinuationElement673,
 															expr: &seqExpr{
-																pos: position{line: 915, col: 6, offset: 28846},
+																pos: position{line: 914, col: 6, offset: 28784},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 915, col: 6, offset: 28846},
+																		pos: position{line: 914, col: 6, offset: 28784},
 																		expr: &choiceExpr{
-																			pos: position{line: 908, col: 5, offset: 28687},
+																			pos: position{line: 907, col: 5, offset: 28625},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 908, col: 5, offset: 28687},
+																					pos: position{line: 907, col: 5, offset: 28625},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 908, col: 5, offset: 28687},
+																							pos:   position{line: 907, col: 5, offset: 28625},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 769, col: 5, offset: 24690},
+																								pos: position{line: 768, col: 5, offset: 24628},
 																								run: (*parser).callonListContinuationElement679,
 																								expr: &seqExpr{
-																									pos: position{line: 769, col: 5, offset: 24690},
+																									pos: position{line: 768, col: 5, offset: 24628},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 769, col: 5, offset: 24690},
+																											pos:   position{line: 768, col: 5, offset: 24628},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 769, col: 16, offset: 24701},
+																												pos: position{line: 768, col: 16, offset: 24639},
 																												run: (*parser).callonListContinuationElement682,
 																												expr: &seqExpr{
-																													pos: position{line: 769, col: 16, offset: 24701},
+																													pos: position{line: 768, col: 16, offset: 24639},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 769, col: 16, offset: 24701},
+																															pos:        position{line: 768, col: 16, offset: 24639},
 																															val:        "----",
 																															ignoreCase: false,
 																															want:       "\"----\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 769, col: 23, offset: 24708},
+																															pos: position{line: 768, col: 23, offset: 24646},
 																															expr: &litMatcher{
-																																pos:        position{line: 769, col: 23, offset: 24708},
+																																pos:        position{line: 768, col: 23, offset: 24646},
 																																val:        "-",
 																																ignoreCase: false,
 																																want:       "\"-\"",
@@ -32598,12 +32554,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 771, col: 8, offset: 24792},
+																											pos: position{line: 770, col: 8, offset: 24730},
 																											expr: &actionExpr{
-																												pos: position{line: 2873, col: 10, offset: 90962},
+																												pos: position{line: 2872, col: 10, offset: 90900},
 																												run: (*parser).callonListContinuationElement688,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2873, col: 10, offset: 90962},
+																													pos:        position{line: 2872, col: 10, offset: 90900},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32612,28 +32568,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91360},
+																											pos: position{line: 2894, col: 8, offset: 91298},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 91133},
+																													pos: position{line: 2881, col: 12, offset: 91071},
 																													run: (*parser).callonListContinuationElement691,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 91134},
+																														pos: position{line: 2881, col: 13, offset: 91072},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 91134},
+																																pos:        position{line: 2881, col: 13, offset: 91072},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 91141},
+																																pos:        position{line: 2881, col: 20, offset: 91079},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 91150},
+																																pos:        position{line: 2881, col: 29, offset: 91088},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32642,9 +32598,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91310},
+																													pos: position{line: 2891, col: 8, offset: 91248},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91311,
+																														line: 2891, col: 9, offset: 91249,
 																													},
 																												},
 																											},
@@ -32654,45 +32610,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 909, col: 5, offset: 28718},
+																							pos: position{line: 908, col: 5, offset: 28656},
 																							run: (*parser).callonListContinuationElement698,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91310},
+																					pos: position{line: 2891, col: 8, offset: 91248},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91311,
+																						line: 2891, col: 9, offset: 91249,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 916, col: 5, offset: 28876},
+																		pos:   position{line: 915, col: 5, offset: 28814},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26162},
+																			pos: position{line: 810, col: 5, offset: 26100},
 																			run: (*parser).callonListContinuationElement702,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26162},
+																				pos: position{line: 810, col: 5, offset: 26100},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2890, col: 11, offset: 91296},
+																						pos: position{line: 2889, col: 11, offset: 91234},
 																						expr: &anyMatcher{
-																							line: 2890, col: 13, offset: 91298,
+																							line: 2889, col: 13, offset: 91236,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26237},
+																						pos:   position{line: 811, col: 5, offset: 26175},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2819, col: 13, offset: 89488},
+																							pos: position{line: 2818, col: 13, offset: 89426},
 																							run: (*parser).callonListContinuationElement707,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2819, col: 13, offset: 89488},
+																								pos: position{line: 2818, col: 13, offset: 89426},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2819, col: 13, offset: 89488},
+																									pos:        position{line: 2818, col: 13, offset: 89426},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32702,28 +32658,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91360},
+																						pos: position{line: 2894, col: 8, offset: 91298},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 91133},
+																								pos: position{line: 2881, col: 12, offset: 91071},
 																								run: (*parser).callonListContinuationElement711,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 91134},
+																									pos: position{line: 2881, col: 13, offset: 91072},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 91134},
+																											pos:        position{line: 2881, col: 13, offset: 91072},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 91141},
+																											pos:        position{line: 2881, col: 20, offset: 91079},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 91150},
+																											pos:        position{line: 2881, col: 29, offset: 91088},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32732,9 +32688,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91310},
+																								pos: position{line: 2891, col: 8, offset: 91248},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91311,
+																									line: 2891, col: 9, offset: 91249,
 																								},
 																							},
 																						},
@@ -32749,44 +32705,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 901, col: 5, offset: 28481},
+													pos:   position{line: 900, col: 5, offset: 28419},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 901, col: 9, offset: 28485},
+														pos: position{line: 900, col: 9, offset: 28423},
 														expr: &choiceExpr{
-															pos: position{line: 908, col: 5, offset: 28687},
+															pos: position{line: 907, col: 5, offset: 28625},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 908, col: 5, offset: 28687},
+																	pos: position{line: 907, col: 5, offset: 28625},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 908, col: 5, offset: 28687},
+																			pos:   position{line: 907, col: 5, offset: 28625},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 769, col: 5, offset: 24690},
+																				pos: position{line: 768, col: 5, offset: 24628},
 																				run: (*parser).callonListContinuationElement723,
 																				expr: &seqExpr{
-																					pos: position{line: 769, col: 5, offset: 24690},
+																					pos: position{line: 768, col: 5, offset: 24628},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 769, col: 5, offset: 24690},
+																							pos:   position{line: 768, col: 5, offset: 24628},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 769, col: 16, offset: 24701},
+																								pos: position{line: 768, col: 16, offset: 24639},
 																								run: (*parser).callonListContinuationElement726,
 																								expr: &seqExpr{
-																									pos: position{line: 769, col: 16, offset: 24701},
+																									pos: position{line: 768, col: 16, offset: 24639},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 769, col: 16, offset: 24701},
+																											pos:        position{line: 768, col: 16, offset: 24639},
 																											val:        "----",
 																											ignoreCase: false,
 																											want:       "\"----\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 769, col: 23, offset: 24708},
+																											pos: position{line: 768, col: 23, offset: 24646},
 																											expr: &litMatcher{
-																												pos:        position{line: 769, col: 23, offset: 24708},
+																												pos:        position{line: 768, col: 23, offset: 24646},
 																												val:        "-",
 																												ignoreCase: false,
 																												want:       "\"-\"",
@@ -32797,12 +32753,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 771, col: 8, offset: 24792},
+																							pos: position{line: 770, col: 8, offset: 24730},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90962},
+																								pos: position{line: 2872, col: 10, offset: 90900},
 																								run: (*parser).callonListContinuationElement732,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90962},
+																									pos:        position{line: 2872, col: 10, offset: 90900},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32811,28 +32767,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91360},
+																							pos: position{line: 2894, col: 8, offset: 91298},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91133},
+																									pos: position{line: 2881, col: 12, offset: 91071},
 																									run: (*parser).callonListContinuationElement735,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91134},
+																										pos: position{line: 2881, col: 13, offset: 91072},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91134},
+																												pos:        position{line: 2881, col: 13, offset: 91072},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91141},
+																												pos:        position{line: 2881, col: 20, offset: 91079},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91150},
+																												pos:        position{line: 2881, col: 29, offset: 91088},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32841,9 +32797,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91310},
+																									pos: position{line: 2891, col: 8, offset: 91248},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91311,
+																										line: 2891, col: 9, offset: 91249,
 																									},
 																								},
 																							},
@@ -32853,15 +32809,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 909, col: 5, offset: 28718},
+																			pos: position{line: 908, col: 5, offset: 28656},
 																			run: (*parser).callonListContinuationElement742,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2892, col: 8, offset: 91310},
+																	pos: position{line: 2891, col: 8, offset: 91248},
 																	expr: &anyMatcher{
-																		line: 2892, col: 9, offset: 91311,
+																		line: 2891, col: 9, offset: 91249,
 																	},
 																},
 															},
@@ -32872,39 +32828,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 924, col: 5, offset: 29031},
+										pos: position{line: 923, col: 5, offset: 28969},
 										run: (*parser).callonListContinuationElement745,
 										expr: &seqExpr{
-											pos: position{line: 924, col: 5, offset: 29031},
+											pos: position{line: 923, col: 5, offset: 28969},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 924, col: 5, offset: 29031},
+													pos:   position{line: 923, col: 5, offset: 28969},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 783, col: 5, offset: 25166},
+														pos: position{line: 782, col: 5, offset: 25104},
 														run: (*parser).callonListContinuationElement748,
 														expr: &seqExpr{
-															pos: position{line: 783, col: 5, offset: 25166},
+															pos: position{line: 782, col: 5, offset: 25104},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 783, col: 5, offset: 25166},
+																	pos:   position{line: 782, col: 5, offset: 25104},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 783, col: 16, offset: 25177},
+																		pos: position{line: 782, col: 16, offset: 25115},
 																		run: (*parser).callonListContinuationElement751,
 																		expr: &seqExpr{
-																			pos: position{line: 783, col: 16, offset: 25177},
+																			pos: position{line: 782, col: 16, offset: 25115},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 783, col: 16, offset: 25177},
+																					pos:        position{line: 782, col: 16, offset: 25115},
 																					val:        "....",
 																					ignoreCase: false,
 																					want:       "\"....\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 783, col: 23, offset: 25184},
+																					pos: position{line: 782, col: 23, offset: 25122},
 																					expr: &litMatcher{
-																						pos:        position{line: 783, col: 23, offset: 25184},
+																						pos:        position{line: 782, col: 23, offset: 25122},
 																						val:        ".",
 																						ignoreCase: false,
 																						want:       "\".\"",
@@ -32915,12 +32871,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 785, col: 8, offset: 25268},
+																	pos: position{line: 784, col: 8, offset: 25206},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90962},
+																		pos: position{line: 2872, col: 10, offset: 90900},
 																		run: (*parser).callonListContinuationElement757,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90962},
+																			pos:        position{line: 2872, col: 10, offset: 90900},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32929,28 +32885,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91360},
+																	pos: position{line: 2894, col: 8, offset: 91298},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91133},
+																			pos: position{line: 2881, col: 12, offset: 91071},
 																			run: (*parser).callonListContinuationElement760,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91134},
+																				pos: position{line: 2881, col: 13, offset: 91072},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91134},
+																						pos:        position{line: 2881, col: 13, offset: 91072},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91141},
+																						pos:        position{line: 2881, col: 20, offset: 91079},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91150},
+																						pos:        position{line: 2881, col: 29, offset: 91088},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32959,9 +32915,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91310},
+																			pos: position{line: 2891, col: 8, offset: 91248},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91311,
+																				line: 2891, col: 9, offset: 91249,
 																			},
 																		},
 																	},
@@ -32971,56 +32927,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 925, col: 5, offset: 29070},
+													pos: position{line: 924, col: 5, offset: 29008},
 													run: (*parser).callonListContinuationElement767,
 												},
 												&labeledExpr{
-													pos:   position{line: 928, col: 5, offset: 29162},
+													pos:   position{line: 927, col: 5, offset: 29100},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 943, col: 5, offset: 29560},
+														pos: position{line: 942, col: 5, offset: 29498},
 														expr: &actionExpr{
-															pos: position{line: 943, col: 6, offset: 29561},
+															pos: position{line: 942, col: 6, offset: 29499},
 															run: (*parser).callonListContinuationElement770,
 															expr: &seqExpr{
-																pos: position{line: 943, col: 6, offset: 29561},
+																pos: position{line: 942, col: 6, offset: 29499},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 943, col: 6, offset: 29561},
+																		pos: position{line: 942, col: 6, offset: 29499},
 																		expr: &choiceExpr{
-																			pos: position{line: 936, col: 5, offset: 29402},
+																			pos: position{line: 935, col: 5, offset: 29340},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 936, col: 5, offset: 29402},
+																					pos: position{line: 935, col: 5, offset: 29340},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 936, col: 5, offset: 29402},
+																							pos:   position{line: 935, col: 5, offset: 29340},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 783, col: 5, offset: 25166},
+																								pos: position{line: 782, col: 5, offset: 25104},
 																								run: (*parser).callonListContinuationElement776,
 																								expr: &seqExpr{
-																									pos: position{line: 783, col: 5, offset: 25166},
+																									pos: position{line: 782, col: 5, offset: 25104},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 783, col: 5, offset: 25166},
+																											pos:   position{line: 782, col: 5, offset: 25104},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 783, col: 16, offset: 25177},
+																												pos: position{line: 782, col: 16, offset: 25115},
 																												run: (*parser).callonListContinuationElement779,
 																												expr: &seqExpr{
-																													pos: position{line: 783, col: 16, offset: 25177},
+																													pos: position{line: 782, col: 16, offset: 25115},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 783, col: 16, offset: 25177},
+																															pos:        position{line: 782, col: 16, offset: 25115},
 																															val:        "....",
 																															ignoreCase: false,
 																															want:       "\"....\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 783, col: 23, offset: 25184},
+																															pos: position{line: 782, col: 23, offset: 25122},
 																															expr: &litMatcher{
-																																pos:        position{line: 783, col: 23, offset: 25184},
+																																pos:        position{line: 782, col: 23, offset: 25122},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -33031,12 +32987,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 785, col: 8, offset: 25268},
+																											pos: position{line: 784, col: 8, offset: 25206},
 																											expr: &actionExpr{
-																												pos: position{line: 2873, col: 10, offset: 90962},
+																												pos: position{line: 2872, col: 10, offset: 90900},
 																												run: (*parser).callonListContinuationElement785,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2873, col: 10, offset: 90962},
+																													pos:        position{line: 2872, col: 10, offset: 90900},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33045,28 +33001,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91360},
+																											pos: position{line: 2894, col: 8, offset: 91298},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 91133},
+																													pos: position{line: 2881, col: 12, offset: 91071},
 																													run: (*parser).callonListContinuationElement788,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 91134},
+																														pos: position{line: 2881, col: 13, offset: 91072},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 91134},
+																																pos:        position{line: 2881, col: 13, offset: 91072},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 91141},
+																																pos:        position{line: 2881, col: 20, offset: 91079},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 91150},
+																																pos:        position{line: 2881, col: 29, offset: 91088},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33075,9 +33031,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91310},
+																													pos: position{line: 2891, col: 8, offset: 91248},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91311,
+																														line: 2891, col: 9, offset: 91249,
 																													},
 																												},
 																											},
@@ -33087,45 +33043,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 937, col: 5, offset: 29433},
+																							pos: position{line: 936, col: 5, offset: 29371},
 																							run: (*parser).callonListContinuationElement795,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91310},
+																					pos: position{line: 2891, col: 8, offset: 91248},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91311,
+																						line: 2891, col: 9, offset: 91249,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 944, col: 5, offset: 29591},
+																		pos:   position{line: 943, col: 5, offset: 29529},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26162},
+																			pos: position{line: 810, col: 5, offset: 26100},
 																			run: (*parser).callonListContinuationElement799,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26162},
+																				pos: position{line: 810, col: 5, offset: 26100},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2890, col: 11, offset: 91296},
+																						pos: position{line: 2889, col: 11, offset: 91234},
 																						expr: &anyMatcher{
-																							line: 2890, col: 13, offset: 91298,
+																							line: 2889, col: 13, offset: 91236,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26237},
+																						pos:   position{line: 811, col: 5, offset: 26175},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2819, col: 13, offset: 89488},
+																							pos: position{line: 2818, col: 13, offset: 89426},
 																							run: (*parser).callonListContinuationElement804,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2819, col: 13, offset: 89488},
+																								pos: position{line: 2818, col: 13, offset: 89426},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2819, col: 13, offset: 89488},
+																									pos:        position{line: 2818, col: 13, offset: 89426},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33135,28 +33091,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91360},
+																						pos: position{line: 2894, col: 8, offset: 91298},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 91133},
+																								pos: position{line: 2881, col: 12, offset: 91071},
 																								run: (*parser).callonListContinuationElement808,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 91134},
+																									pos: position{line: 2881, col: 13, offset: 91072},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 91134},
+																											pos:        position{line: 2881, col: 13, offset: 91072},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 91141},
+																											pos:        position{line: 2881, col: 20, offset: 91079},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 91150},
+																											pos:        position{line: 2881, col: 29, offset: 91088},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33165,9 +33121,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91310},
+																								pos: position{line: 2891, col: 8, offset: 91248},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91311,
+																									line: 2891, col: 9, offset: 91249,
 																								},
 																							},
 																						},
@@ -33182,44 +33138,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 929, col: 5, offset: 29196},
+													pos:   position{line: 928, col: 5, offset: 29134},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 929, col: 9, offset: 29200},
+														pos: position{line: 928, col: 9, offset: 29138},
 														expr: &choiceExpr{
-															pos: position{line: 936, col: 5, offset: 29402},
+															pos: position{line: 935, col: 5, offset: 29340},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 936, col: 5, offset: 29402},
+																	pos: position{line: 935, col: 5, offset: 29340},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 936, col: 5, offset: 29402},
+																			pos:   position{line: 935, col: 5, offset: 29340},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 783, col: 5, offset: 25166},
+																				pos: position{line: 782, col: 5, offset: 25104},
 																				run: (*parser).callonListContinuationElement820,
 																				expr: &seqExpr{
-																					pos: position{line: 783, col: 5, offset: 25166},
+																					pos: position{line: 782, col: 5, offset: 25104},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 783, col: 5, offset: 25166},
+																							pos:   position{line: 782, col: 5, offset: 25104},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 783, col: 16, offset: 25177},
+																								pos: position{line: 782, col: 16, offset: 25115},
 																								run: (*parser).callonListContinuationElement823,
 																								expr: &seqExpr{
-																									pos: position{line: 783, col: 16, offset: 25177},
+																									pos: position{line: 782, col: 16, offset: 25115},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 783, col: 16, offset: 25177},
+																											pos:        position{line: 782, col: 16, offset: 25115},
 																											val:        "....",
 																											ignoreCase: false,
 																											want:       "\"....\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 783, col: 23, offset: 25184},
+																											pos: position{line: 782, col: 23, offset: 25122},
 																											expr: &litMatcher{
-																												pos:        position{line: 783, col: 23, offset: 25184},
+																												pos:        position{line: 782, col: 23, offset: 25122},
 																												val:        ".",
 																												ignoreCase: false,
 																												want:       "\".\"",
@@ -33230,12 +33186,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 785, col: 8, offset: 25268},
+																							pos: position{line: 784, col: 8, offset: 25206},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90962},
+																								pos: position{line: 2872, col: 10, offset: 90900},
 																								run: (*parser).callonListContinuationElement829,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90962},
+																									pos:        position{line: 2872, col: 10, offset: 90900},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33244,28 +33200,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91360},
+																							pos: position{line: 2894, col: 8, offset: 91298},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91133},
+																									pos: position{line: 2881, col: 12, offset: 91071},
 																									run: (*parser).callonListContinuationElement832,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91134},
+																										pos: position{line: 2881, col: 13, offset: 91072},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91134},
+																												pos:        position{line: 2881, col: 13, offset: 91072},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91141},
+																												pos:        position{line: 2881, col: 20, offset: 91079},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91150},
+																												pos:        position{line: 2881, col: 29, offset: 91088},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33274,9 +33230,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91310},
+																									pos: position{line: 2891, col: 8, offset: 91248},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91311,
+																										line: 2891, col: 9, offset: 91249,
 																									},
 																								},
 																							},
@@ -33286,15 +33242,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 937, col: 5, offset: 29433},
+																			pos: position{line: 936, col: 5, offset: 29371},
 																			run: (*parser).callonListContinuationElement839,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2892, col: 8, offset: 91310},
+																	pos: position{line: 2891, col: 8, offset: 91248},
 																	expr: &anyMatcher{
-																		line: 2892, col: 9, offset: 91311,
+																		line: 2891, col: 9, offset: 91249,
 																	},
 																},
 															},
@@ -33305,41 +33261,41 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 975, col: 5, offset: 30474},
+										pos: position{line: 974, col: 5, offset: 30412},
 										run: (*parser).callonListContinuationElement842,
 										expr: &seqExpr{
-											pos: position{line: 975, col: 5, offset: 30474},
+											pos: position{line: 974, col: 5, offset: 30412},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 975, col: 5, offset: 30474},
+													pos:   position{line: 974, col: 5, offset: 30412},
 													label: "firstLine",
 													expr: &actionExpr{
-														pos: position{line: 982, col: 5, offset: 30733},
+														pos: position{line: 981, col: 5, offset: 30671},
 														run: (*parser).callonListContinuationElement845,
 														expr: &seqExpr{
-															pos: position{line: 982, col: 5, offset: 30733},
+															pos: position{line: 981, col: 5, offset: 30671},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 982, col: 5, offset: 30733},
+																	pos: position{line: 981, col: 5, offset: 30671},
 																	expr: &actionExpr{
-																		pos: position{line: 677, col: 14, offset: 21558},
+																		pos: position{line: 676, col: 14, offset: 21496},
 																		run: (*parser).callonListContinuationElement848,
 																		expr: &seqExpr{
-																			pos: position{line: 677, col: 14, offset: 21558},
+																			pos: position{line: 676, col: 14, offset: 21496},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2890, col: 11, offset: 91296},
+																					pos: position{line: 2889, col: 11, offset: 91234},
 																					expr: &anyMatcher{
-																						line: 2890, col: 13, offset: 91298,
+																						line: 2889, col: 13, offset: 91236,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 677, col: 21, offset: 21565},
+																					pos: position{line: 676, col: 21, offset: 21503},
 																					expr: &actionExpr{
-																						pos: position{line: 2873, col: 10, offset: 90962},
+																						pos: position{line: 2872, col: 10, offset: 90900},
 																						run: (*parser).callonListContinuationElement853,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2873, col: 10, offset: 90962},
+																							pos:        position{line: 2872, col: 10, offset: 90900},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -33348,28 +33304,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2895, col: 8, offset: 91360},
+																					pos: position{line: 2894, col: 8, offset: 91298},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2882, col: 12, offset: 91133},
+																							pos: position{line: 2881, col: 12, offset: 91071},
 																							run: (*parser).callonListContinuationElement856,
 																							expr: &choiceExpr{
-																								pos: position{line: 2882, col: 13, offset: 91134},
+																								pos: position{line: 2881, col: 13, offset: 91072},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 91134},
+																										pos:        position{line: 2881, col: 13, offset: 91072},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 20, offset: 91141},
+																										pos:        position{line: 2881, col: 20, offset: 91079},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 29, offset: 91150},
+																										pos:        position{line: 2881, col: 29, offset: 91088},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -33378,9 +33334,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2892, col: 8, offset: 91310},
+																							pos: position{line: 2891, col: 8, offset: 91248},
 																							expr: &anyMatcher{
-																								line: 2892, col: 9, offset: 91311,
+																								line: 2891, col: 9, offset: 91249,
 																							},
 																						},
 																					},
@@ -33390,21 +33346,21 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 983, col: 5, offset: 30748},
+																	pos:        position{line: 982, col: 5, offset: 30686},
 																	val:        "> ",
 																	ignoreCase: false,
 																	want:       "\"> \"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 984, col: 5, offset: 30758},
+																	pos:   position{line: 983, col: 5, offset: 30696},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2823, col: 14, offset: 89555},
+																		pos: position{line: 2822, col: 14, offset: 89493},
 																		run: (*parser).callonListContinuationElement865,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2823, col: 14, offset: 89555},
+																			pos: position{line: 2822, col: 14, offset: 89493},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2823, col: 14, offset: 89555},
+																				pos:        position{line: 2822, col: 14, offset: 89493},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -33414,28 +33370,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91360},
+																	pos: position{line: 2894, col: 8, offset: 91298},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91133},
+																			pos: position{line: 2881, col: 12, offset: 91071},
 																			run: (*parser).callonListContinuationElement869,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91134},
+																				pos: position{line: 2881, col: 13, offset: 91072},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91134},
+																						pos:        position{line: 2881, col: 13, offset: 91072},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91141},
+																						pos:        position{line: 2881, col: 20, offset: 91079},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91150},
+																						pos:        position{line: 2881, col: 29, offset: 91088},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33444,9 +33400,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91310},
+																			pos: position{line: 2891, col: 8, offset: 91248},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91311,
+																				line: 2891, col: 9, offset: 91249,
 																			},
 																		},
 																	},
@@ -33456,40 +33412,40 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 976, col: 5, offset: 30511},
+													pos:   position{line: 975, col: 5, offset: 30449},
 													label: "otherLines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 976, col: 16, offset: 30522},
+														pos: position{line: 975, col: 16, offset: 30460},
 														expr: &choiceExpr{
-															pos: position{line: 976, col: 17, offset: 30523},
+															pos: position{line: 975, col: 17, offset: 30461},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 982, col: 5, offset: 30733},
+																	pos: position{line: 981, col: 5, offset: 30671},
 																	run: (*parser).callonListContinuationElement879,
 																	expr: &seqExpr{
-																		pos: position{line: 982, col: 5, offset: 30733},
+																		pos: position{line: 981, col: 5, offset: 30671},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 982, col: 5, offset: 30733},
+																				pos: position{line: 981, col: 5, offset: 30671},
 																				expr: &actionExpr{
-																					pos: position{line: 677, col: 14, offset: 21558},
+																					pos: position{line: 676, col: 14, offset: 21496},
 																					run: (*parser).callonListContinuationElement882,
 																					expr: &seqExpr{
-																						pos: position{line: 677, col: 14, offset: 21558},
+																						pos: position{line: 676, col: 14, offset: 21496},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2890, col: 11, offset: 91296},
+																								pos: position{line: 2889, col: 11, offset: 91234},
 																								expr: &anyMatcher{
-																									line: 2890, col: 13, offset: 91298,
+																									line: 2889, col: 13, offset: 91236,
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 677, col: 21, offset: 21565},
+																								pos: position{line: 676, col: 21, offset: 21503},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90962},
+																									pos: position{line: 2872, col: 10, offset: 90900},
 																									run: (*parser).callonListContinuationElement887,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90962},
+																										pos:        position{line: 2872, col: 10, offset: 90900},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33498,28 +33454,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91360},
+																								pos: position{line: 2894, col: 8, offset: 91298},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91133},
+																										pos: position{line: 2881, col: 12, offset: 91071},
 																										run: (*parser).callonListContinuationElement890,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91134},
+																											pos: position{line: 2881, col: 13, offset: 91072},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91134},
+																													pos:        position{line: 2881, col: 13, offset: 91072},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91141},
+																													pos:        position{line: 2881, col: 20, offset: 91079},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91150},
+																													pos:        position{line: 2881, col: 29, offset: 91088},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33528,9 +33484,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91310},
+																										pos: position{line: 2891, col: 8, offset: 91248},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91311,
+																											line: 2891, col: 9, offset: 91249,
 																										},
 																									},
 																								},
@@ -33540,21 +33496,21 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 983, col: 5, offset: 30748},
+																				pos:        position{line: 982, col: 5, offset: 30686},
 																				val:        "> ",
 																				ignoreCase: false,
 																				want:       "\"> \"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 984, col: 5, offset: 30758},
+																				pos:   position{line: 983, col: 5, offset: 30696},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2823, col: 14, offset: 89555},
+																					pos: position{line: 2822, col: 14, offset: 89493},
 																					run: (*parser).callonListContinuationElement899,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2823, col: 14, offset: 89555},
+																						pos: position{line: 2822, col: 14, offset: 89493},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2823, col: 14, offset: 89555},
+																							pos:        position{line: 2822, col: 14, offset: 89493},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33564,28 +33520,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2895, col: 8, offset: 91360},
+																				pos: position{line: 2894, col: 8, offset: 91298},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2882, col: 12, offset: 91133},
+																						pos: position{line: 2881, col: 12, offset: 91071},
 																						run: (*parser).callonListContinuationElement903,
 																						expr: &choiceExpr{
-																							pos: position{line: 2882, col: 13, offset: 91134},
+																							pos: position{line: 2881, col: 13, offset: 91072},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 13, offset: 91134},
+																									pos:        position{line: 2881, col: 13, offset: 91072},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 20, offset: 91141},
+																									pos:        position{line: 2881, col: 20, offset: 91079},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 29, offset: 91150},
+																									pos:        position{line: 2881, col: 29, offset: 91088},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33594,9 +33550,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91310},
+																						pos: position{line: 2891, col: 8, offset: 91248},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91311,
+																							line: 2891, col: 9, offset: 91249,
 																						},
 																					},
 																				},
@@ -33605,21 +33561,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1792, col: 5, offset: 58036},
+																	pos: position{line: 1791, col: 5, offset: 57974},
 																	run: (*parser).callonListContinuationElement910,
 																	expr: &seqExpr{
-																		pos: position{line: 1792, col: 5, offset: 58036},
+																		pos: position{line: 1791, col: 5, offset: 57974},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1792, col: 5, offset: 58036},
+																				pos:   position{line: 1791, col: 5, offset: 57974},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2823, col: 14, offset: 89555},
+																					pos: position{line: 2822, col: 14, offset: 89493},
 																					run: (*parser).callonListContinuationElement913,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2823, col: 14, offset: 89555},
+																						pos: position{line: 2822, col: 14, offset: 89493},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2823, col: 14, offset: 89555},
+																							pos:        position{line: 2822, col: 14, offset: 89493},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33629,32 +33585,32 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1793, col: 5, offset: 58060},
+																				pos: position{line: 1792, col: 5, offset: 57998},
 																				run: (*parser).callonListContinuationElement916,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2895, col: 8, offset: 91360},
+																				pos: position{line: 2894, col: 8, offset: 91298},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2882, col: 12, offset: 91133},
+																						pos: position{line: 2881, col: 12, offset: 91071},
 																						run: (*parser).callonListContinuationElement918,
 																						expr: &choiceExpr{
-																							pos: position{line: 2882, col: 13, offset: 91134},
+																							pos: position{line: 2881, col: 13, offset: 91072},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 13, offset: 91134},
+																									pos:        position{line: 2881, col: 13, offset: 91072},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 20, offset: 91141},
+																									pos:        position{line: 2881, col: 20, offset: 91079},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 29, offset: 91150},
+																									pos:        position{line: 2881, col: 29, offset: 91088},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33663,9 +33619,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91310},
+																						pos: position{line: 2891, col: 8, offset: 91248},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91311,
+																							line: 2891, col: 9, offset: 91249,
 																						},
 																					},
 																				},
@@ -33681,28 +33637,28 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 997, col: 5, offset: 31023},
+										pos: position{line: 996, col: 5, offset: 30961},
 										run: (*parser).callonListContinuationElement925,
 										expr: &seqExpr{
-											pos: position{line: 997, col: 5, offset: 31023},
+											pos: position{line: 996, col: 5, offset: 30961},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 997, col: 5, offset: 31023},
+													pos:   position{line: 996, col: 5, offset: 30961},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 776, col: 5, offset: 24935},
+														pos: position{line: 775, col: 5, offset: 24873},
 														run: (*parser).callonListContinuationElement928,
 														expr: &seqExpr{
-															pos: position{line: 776, col: 5, offset: 24935},
+															pos: position{line: 775, col: 5, offset: 24873},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 776, col: 5, offset: 24935},
+																	pos:   position{line: 775, col: 5, offset: 24873},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 776, col: 16, offset: 24946},
+																		pos: position{line: 775, col: 16, offset: 24884},
 																		run: (*parser).callonListContinuationElement931,
 																		expr: &litMatcher{
-																			pos:        position{line: 776, col: 16, offset: 24946},
+																			pos:        position{line: 775, col: 16, offset: 24884},
 																			val:        "--",
 																			ignoreCase: false,
 																			want:       "\"--\"",
@@ -33710,12 +33666,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 778, col: 8, offset: 25023},
+																	pos: position{line: 777, col: 8, offset: 24961},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90962},
+																		pos: position{line: 2872, col: 10, offset: 90900},
 																		run: (*parser).callonListContinuationElement934,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90962},
+																			pos:        position{line: 2872, col: 10, offset: 90900},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33724,28 +33680,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91360},
+																	pos: position{line: 2894, col: 8, offset: 91298},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91133},
+																			pos: position{line: 2881, col: 12, offset: 91071},
 																			run: (*parser).callonListContinuationElement937,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91134},
+																				pos: position{line: 2881, col: 13, offset: 91072},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91134},
+																						pos:        position{line: 2881, col: 13, offset: 91072},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91141},
+																						pos:        position{line: 2881, col: 20, offset: 91079},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91150},
+																						pos:        position{line: 2881, col: 29, offset: 91088},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33754,9 +33710,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91310},
+																			pos: position{line: 2891, col: 8, offset: 91248},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91311,
+																				line: 2891, col: 9, offset: 91249,
 																			},
 																		},
 																	},
@@ -33766,35 +33722,35 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 998, col: 5, offset: 31059},
+													pos:   position{line: 997, col: 5, offset: 30997},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1008, col: 5, offset: 31327},
+														pos: position{line: 1007, col: 5, offset: 31265},
 														expr: &actionExpr{
-															pos: position{line: 1008, col: 6, offset: 31328},
+															pos: position{line: 1007, col: 6, offset: 31266},
 															run: (*parser).callonListContinuationElement946,
 															expr: &seqExpr{
-																pos: position{line: 1008, col: 6, offset: 31328},
+																pos: position{line: 1007, col: 6, offset: 31266},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1008, col: 6, offset: 31328},
+																		pos: position{line: 1007, col: 6, offset: 31266},
 																		expr: &choiceExpr{
-																			pos: position{line: 1005, col: 26, offset: 31276},
+																			pos: position{line: 1004, col: 26, offset: 31214},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 776, col: 5, offset: 24935},
+																					pos: position{line: 775, col: 5, offset: 24873},
 																					run: (*parser).callonListContinuationElement950,
 																					expr: &seqExpr{
-																						pos: position{line: 776, col: 5, offset: 24935},
+																						pos: position{line: 775, col: 5, offset: 24873},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 776, col: 5, offset: 24935},
+																								pos:   position{line: 775, col: 5, offset: 24873},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 776, col: 16, offset: 24946},
+																									pos: position{line: 775, col: 16, offset: 24884},
 																									run: (*parser).callonListContinuationElement953,
 																									expr: &litMatcher{
-																										pos:        position{line: 776, col: 16, offset: 24946},
+																										pos:        position{line: 775, col: 16, offset: 24884},
 																										val:        "--",
 																										ignoreCase: false,
 																										want:       "\"--\"",
@@ -33802,12 +33758,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 778, col: 8, offset: 25023},
+																								pos: position{line: 777, col: 8, offset: 24961},
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 10, offset: 90962},
+																									pos: position{line: 2872, col: 10, offset: 90900},
 																									run: (*parser).callonListContinuationElement956,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2873, col: 10, offset: 90962},
+																										pos:        position{line: 2872, col: 10, offset: 90900},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33816,28 +33772,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2895, col: 8, offset: 91360},
+																								pos: position{line: 2894, col: 8, offset: 91298},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2882, col: 12, offset: 91133},
+																										pos: position{line: 2881, col: 12, offset: 91071},
 																										run: (*parser).callonListContinuationElement959,
 																										expr: &choiceExpr{
-																											pos: position{line: 2882, col: 13, offset: 91134},
+																											pos: position{line: 2881, col: 13, offset: 91072},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 13, offset: 91134},
+																													pos:        position{line: 2881, col: 13, offset: 91072},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 20, offset: 91141},
+																													pos:        position{line: 2881, col: 20, offset: 91079},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2882, col: 29, offset: 91150},
+																													pos:        position{line: 2881, col: 29, offset: 91088},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33846,9 +33802,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2892, col: 8, offset: 91310},
+																										pos: position{line: 2891, col: 8, offset: 91248},
 																										expr: &anyMatcher{
-																											line: 2892, col: 9, offset: 91311,
+																											line: 2891, col: 9, offset: 91249,
 																										},
 																									},
 																								},
@@ -33857,39 +33813,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91310},
+																					pos: position{line: 2891, col: 8, offset: 91248},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91311,
+																						line: 2891, col: 9, offset: 91249,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1009, col: 5, offset: 31355},
+																		pos:   position{line: 1008, col: 5, offset: 31293},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26162},
+																			pos: position{line: 810, col: 5, offset: 26100},
 																			run: (*parser).callonListContinuationElement969,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26162},
+																				pos: position{line: 810, col: 5, offset: 26100},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2890, col: 11, offset: 91296},
+																						pos: position{line: 2889, col: 11, offset: 91234},
 																						expr: &anyMatcher{
-																							line: 2890, col: 13, offset: 91298,
+																							line: 2889, col: 13, offset: 91236,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26237},
+																						pos:   position{line: 811, col: 5, offset: 26175},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2819, col: 13, offset: 89488},
+																							pos: position{line: 2818, col: 13, offset: 89426},
 																							run: (*parser).callonListContinuationElement974,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2819, col: 13, offset: 89488},
+																								pos: position{line: 2818, col: 13, offset: 89426},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2819, col: 13, offset: 89488},
+																									pos:        position{line: 2818, col: 13, offset: 89426},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33899,28 +33855,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91360},
+																						pos: position{line: 2894, col: 8, offset: 91298},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 91133},
+																								pos: position{line: 2881, col: 12, offset: 91071},
 																								run: (*parser).callonListContinuationElement978,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 91134},
+																									pos: position{line: 2881, col: 13, offset: 91072},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 91134},
+																											pos:        position{line: 2881, col: 13, offset: 91072},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 91141},
+																											pos:        position{line: 2881, col: 20, offset: 91079},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 91150},
+																											pos:        position{line: 2881, col: 29, offset: 91088},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33929,9 +33885,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91310},
+																								pos: position{line: 2891, col: 8, offset: 91248},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91311,
+																									line: 2891, col: 9, offset: 91249,
 																								},
 																							},
 																						},
@@ -33946,27 +33902,27 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 999, col: 5, offset: 31090},
+													pos:   position{line: 998, col: 5, offset: 31028},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 999, col: 9, offset: 31094},
+														pos: position{line: 998, col: 9, offset: 31032},
 														expr: &choiceExpr{
-															pos: position{line: 1005, col: 26, offset: 31276},
+															pos: position{line: 1004, col: 26, offset: 31214},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 776, col: 5, offset: 24935},
+																	pos: position{line: 775, col: 5, offset: 24873},
 																	run: (*parser).callonListContinuationElement988,
 																	expr: &seqExpr{
-																		pos: position{line: 776, col: 5, offset: 24935},
+																		pos: position{line: 775, col: 5, offset: 24873},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 776, col: 5, offset: 24935},
+																				pos:   position{line: 775, col: 5, offset: 24873},
 																				label: "delimiter",
 																				expr: &actionExpr{
-																					pos: position{line: 776, col: 16, offset: 24946},
+																					pos: position{line: 775, col: 16, offset: 24884},
 																					run: (*parser).callonListContinuationElement991,
 																					expr: &litMatcher{
-																						pos:        position{line: 776, col: 16, offset: 24946},
+																						pos:        position{line: 775, col: 16, offset: 24884},
 																						val:        "--",
 																						ignoreCase: false,
 																						want:       "\"--\"",
@@ -33974,12 +33930,12 @@ var g = &grammar{
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 778, col: 8, offset: 25023},
+																				pos: position{line: 777, col: 8, offset: 24961},
 																				expr: &actionExpr{
-																					pos: position{line: 2873, col: 10, offset: 90962},
+																					pos: position{line: 2872, col: 10, offset: 90900},
 																					run: (*parser).callonListContinuationElement994,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2873, col: 10, offset: 90962},
+																						pos:        position{line: 2872, col: 10, offset: 90900},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -33988,28 +33944,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2895, col: 8, offset: 91360},
+																				pos: position{line: 2894, col: 8, offset: 91298},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2882, col: 12, offset: 91133},
+																						pos: position{line: 2881, col: 12, offset: 91071},
 																						run: (*parser).callonListContinuationElement997,
 																						expr: &choiceExpr{
-																							pos: position{line: 2882, col: 13, offset: 91134},
+																							pos: position{line: 2881, col: 13, offset: 91072},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 13, offset: 91134},
+																									pos:        position{line: 2881, col: 13, offset: 91072},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 20, offset: 91141},
+																									pos:        position{line: 2881, col: 20, offset: 91079},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 29, offset: 91150},
+																									pos:        position{line: 2881, col: 29, offset: 91088},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34018,9 +33974,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91310},
+																						pos: position{line: 2891, col: 8, offset: 91248},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91311,
+																							line: 2891, col: 9, offset: 91249,
 																						},
 																					},
 																				},
@@ -34029,9 +33985,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2892, col: 8, offset: 91310},
+																	pos: position{line: 2891, col: 8, offset: 91248},
 																	expr: &anyMatcher{
-																		line: 2892, col: 9, offset: 91311,
+																		line: 2891, col: 9, offset: 91249,
 																	},
 																},
 															},
@@ -34042,39 +33998,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1017, col: 5, offset: 31518},
+										pos: position{line: 1016, col: 5, offset: 31456},
 										run: (*parser).callonListContinuationElement1006,
 										expr: &seqExpr{
-											pos: position{line: 1017, col: 5, offset: 31518},
+											pos: position{line: 1016, col: 5, offset: 31456},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1017, col: 5, offset: 31518},
+													pos:   position{line: 1016, col: 5, offset: 31456},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 790, col: 5, offset: 25418},
+														pos: position{line: 789, col: 5, offset: 25356},
 														run: (*parser).callonListContinuationElement1009,
 														expr: &seqExpr{
-															pos: position{line: 790, col: 5, offset: 25418},
+															pos: position{line: 789, col: 5, offset: 25356},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 790, col: 5, offset: 25418},
+																	pos:   position{line: 789, col: 5, offset: 25356},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 790, col: 16, offset: 25429},
+																		pos: position{line: 789, col: 16, offset: 25367},
 																		run: (*parser).callonListContinuationElement1012,
 																		expr: &seqExpr{
-																			pos: position{line: 790, col: 16, offset: 25429},
+																			pos: position{line: 789, col: 16, offset: 25367},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 790, col: 16, offset: 25429},
+																					pos:        position{line: 789, col: 16, offset: 25367},
 																					val:        "++++",
 																					ignoreCase: false,
 																					want:       "\"++++\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 790, col: 23, offset: 25436},
+																					pos: position{line: 789, col: 23, offset: 25374},
 																					expr: &litMatcher{
-																						pos:        position{line: 790, col: 23, offset: 25436},
+																						pos:        position{line: 789, col: 23, offset: 25374},
 																						val:        "+",
 																						ignoreCase: false,
 																						want:       "\"+\"",
@@ -34085,12 +34041,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 792, col: 8, offset: 25520},
+																	pos: position{line: 791, col: 8, offset: 25458},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90962},
+																		pos: position{line: 2872, col: 10, offset: 90900},
 																		run: (*parser).callonListContinuationElement1018,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90962},
+																			pos:        position{line: 2872, col: 10, offset: 90900},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34099,28 +34055,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91360},
+																	pos: position{line: 2894, col: 8, offset: 91298},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91133},
+																			pos: position{line: 2881, col: 12, offset: 91071},
 																			run: (*parser).callonListContinuationElement1021,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91134},
+																				pos: position{line: 2881, col: 13, offset: 91072},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91134},
+																						pos:        position{line: 2881, col: 13, offset: 91072},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91141},
+																						pos:        position{line: 2881, col: 20, offset: 91079},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91150},
+																						pos:        position{line: 2881, col: 29, offset: 91088},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34129,9 +34085,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91310},
+																			pos: position{line: 2891, col: 8, offset: 91248},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91311,
+																				line: 2891, col: 9, offset: 91249,
 																			},
 																		},
 																	},
@@ -34141,56 +34097,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1018, col: 5, offset: 31561},
+													pos: position{line: 1017, col: 5, offset: 31499},
 													run: (*parser).callonListContinuationElement1028,
 												},
 												&labeledExpr{
-													pos:   position{line: 1021, col: 5, offset: 31653},
+													pos:   position{line: 1020, col: 5, offset: 31591},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1036, col: 5, offset: 32083},
+														pos: position{line: 1035, col: 5, offset: 32021},
 														expr: &actionExpr{
-															pos: position{line: 1036, col: 6, offset: 32084},
+															pos: position{line: 1035, col: 6, offset: 32022},
 															run: (*parser).callonListContinuationElement1031,
 															expr: &seqExpr{
-																pos: position{line: 1036, col: 6, offset: 32084},
+																pos: position{line: 1035, col: 6, offset: 32022},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1036, col: 6, offset: 32084},
+																		pos: position{line: 1035, col: 6, offset: 32022},
 																		expr: &choiceExpr{
-																			pos: position{line: 1029, col: 5, offset: 31917},
+																			pos: position{line: 1028, col: 5, offset: 31855},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1029, col: 5, offset: 31917},
+																					pos: position{line: 1028, col: 5, offset: 31855},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1029, col: 5, offset: 31917},
+																							pos:   position{line: 1028, col: 5, offset: 31855},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 790, col: 5, offset: 25418},
+																								pos: position{line: 789, col: 5, offset: 25356},
 																								run: (*parser).callonListContinuationElement1037,
 																								expr: &seqExpr{
-																									pos: position{line: 790, col: 5, offset: 25418},
+																									pos: position{line: 789, col: 5, offset: 25356},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 790, col: 5, offset: 25418},
+																											pos:   position{line: 789, col: 5, offset: 25356},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 790, col: 16, offset: 25429},
+																												pos: position{line: 789, col: 16, offset: 25367},
 																												run: (*parser).callonListContinuationElement1040,
 																												expr: &seqExpr{
-																													pos: position{line: 790, col: 16, offset: 25429},
+																													pos: position{line: 789, col: 16, offset: 25367},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 790, col: 16, offset: 25429},
+																															pos:        position{line: 789, col: 16, offset: 25367},
 																															val:        "++++",
 																															ignoreCase: false,
 																															want:       "\"++++\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 790, col: 23, offset: 25436},
+																															pos: position{line: 789, col: 23, offset: 25374},
 																															expr: &litMatcher{
-																																pos:        position{line: 790, col: 23, offset: 25436},
+																																pos:        position{line: 789, col: 23, offset: 25374},
 																																val:        "+",
 																																ignoreCase: false,
 																																want:       "\"+\"",
@@ -34201,12 +34157,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 792, col: 8, offset: 25520},
+																											pos: position{line: 791, col: 8, offset: 25458},
 																											expr: &actionExpr{
-																												pos: position{line: 2873, col: 10, offset: 90962},
+																												pos: position{line: 2872, col: 10, offset: 90900},
 																												run: (*parser).callonListContinuationElement1046,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2873, col: 10, offset: 90962},
+																													pos:        position{line: 2872, col: 10, offset: 90900},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34215,28 +34171,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91360},
+																											pos: position{line: 2894, col: 8, offset: 91298},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 91133},
+																													pos: position{line: 2881, col: 12, offset: 91071},
 																													run: (*parser).callonListContinuationElement1049,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 91134},
+																														pos: position{line: 2881, col: 13, offset: 91072},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 91134},
+																																pos:        position{line: 2881, col: 13, offset: 91072},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 91141},
+																																pos:        position{line: 2881, col: 20, offset: 91079},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 91150},
+																																pos:        position{line: 2881, col: 29, offset: 91088},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34245,9 +34201,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91310},
+																													pos: position{line: 2891, col: 8, offset: 91248},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91311,
+																														line: 2891, col: 9, offset: 91249,
 																													},
 																												},
 																											},
@@ -34257,45 +34213,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1030, col: 5, offset: 31952},
+																							pos: position{line: 1029, col: 5, offset: 31890},
 																							run: (*parser).callonListContinuationElement1056,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91310},
+																					pos: position{line: 2891, col: 8, offset: 91248},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91311,
+																						line: 2891, col: 9, offset: 91249,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1037, col: 5, offset: 32118},
+																		pos:   position{line: 1036, col: 5, offset: 32056},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26162},
+																			pos: position{line: 810, col: 5, offset: 26100},
 																			run: (*parser).callonListContinuationElement1060,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26162},
+																				pos: position{line: 810, col: 5, offset: 26100},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2890, col: 11, offset: 91296},
+																						pos: position{line: 2889, col: 11, offset: 91234},
 																						expr: &anyMatcher{
-																							line: 2890, col: 13, offset: 91298,
+																							line: 2889, col: 13, offset: 91236,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26237},
+																						pos:   position{line: 811, col: 5, offset: 26175},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2819, col: 13, offset: 89488},
+																							pos: position{line: 2818, col: 13, offset: 89426},
 																							run: (*parser).callonListContinuationElement1065,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2819, col: 13, offset: 89488},
+																								pos: position{line: 2818, col: 13, offset: 89426},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2819, col: 13, offset: 89488},
+																									pos:        position{line: 2818, col: 13, offset: 89426},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34305,28 +34261,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91360},
+																						pos: position{line: 2894, col: 8, offset: 91298},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 91133},
+																								pos: position{line: 2881, col: 12, offset: 91071},
 																								run: (*parser).callonListContinuationElement1069,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 91134},
+																									pos: position{line: 2881, col: 13, offset: 91072},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 91134},
+																											pos:        position{line: 2881, col: 13, offset: 91072},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 91141},
+																											pos:        position{line: 2881, col: 20, offset: 91079},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 91150},
+																											pos:        position{line: 2881, col: 29, offset: 91088},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34335,9 +34291,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91310},
+																								pos: position{line: 2891, col: 8, offset: 91248},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91311,
+																									line: 2891, col: 9, offset: 91249,
 																								},
 																							},
 																						},
@@ -34352,44 +34308,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1022, col: 5, offset: 31691},
+													pos:   position{line: 1021, col: 5, offset: 31629},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1022, col: 9, offset: 31695},
+														pos: position{line: 1021, col: 9, offset: 31633},
 														expr: &choiceExpr{
-															pos: position{line: 1029, col: 5, offset: 31917},
+															pos: position{line: 1028, col: 5, offset: 31855},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1029, col: 5, offset: 31917},
+																	pos: position{line: 1028, col: 5, offset: 31855},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1029, col: 5, offset: 31917},
+																			pos:   position{line: 1028, col: 5, offset: 31855},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 790, col: 5, offset: 25418},
+																				pos: position{line: 789, col: 5, offset: 25356},
 																				run: (*parser).callonListContinuationElement1081,
 																				expr: &seqExpr{
-																					pos: position{line: 790, col: 5, offset: 25418},
+																					pos: position{line: 789, col: 5, offset: 25356},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 790, col: 5, offset: 25418},
+																							pos:   position{line: 789, col: 5, offset: 25356},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 790, col: 16, offset: 25429},
+																								pos: position{line: 789, col: 16, offset: 25367},
 																								run: (*parser).callonListContinuationElement1084,
 																								expr: &seqExpr{
-																									pos: position{line: 790, col: 16, offset: 25429},
+																									pos: position{line: 789, col: 16, offset: 25367},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 790, col: 16, offset: 25429},
+																											pos:        position{line: 789, col: 16, offset: 25367},
 																											val:        "++++",
 																											ignoreCase: false,
 																											want:       "\"++++\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 790, col: 23, offset: 25436},
+																											pos: position{line: 789, col: 23, offset: 25374},
 																											expr: &litMatcher{
-																												pos:        position{line: 790, col: 23, offset: 25436},
+																												pos:        position{line: 789, col: 23, offset: 25374},
 																												val:        "+",
 																												ignoreCase: false,
 																												want:       "\"+\"",
@@ -34400,12 +34356,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 792, col: 8, offset: 25520},
+																							pos: position{line: 791, col: 8, offset: 25458},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90962},
+																								pos: position{line: 2872, col: 10, offset: 90900},
 																								run: (*parser).callonListContinuationElement1090,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90962},
+																									pos:        position{line: 2872, col: 10, offset: 90900},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34414,28 +34370,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91360},
+																							pos: position{line: 2894, col: 8, offset: 91298},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91133},
+																									pos: position{line: 2881, col: 12, offset: 91071},
 																									run: (*parser).callonListContinuationElement1093,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91134},
+																										pos: position{line: 2881, col: 13, offset: 91072},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91134},
+																												pos:        position{line: 2881, col: 13, offset: 91072},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91141},
+																												pos:        position{line: 2881, col: 20, offset: 91079},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91150},
+																												pos:        position{line: 2881, col: 29, offset: 91088},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34444,9 +34400,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91310},
+																									pos: position{line: 2891, col: 8, offset: 91248},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91311,
+																										line: 2891, col: 9, offset: 91249,
 																									},
 																								},
 																							},
@@ -34456,15 +34412,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1030, col: 5, offset: 31952},
+																			pos: position{line: 1029, col: 5, offset: 31890},
 																			run: (*parser).callonListContinuationElement1100,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2892, col: 8, offset: 91310},
+																	pos: position{line: 2891, col: 8, offset: 91248},
 																	expr: &anyMatcher{
-																		line: 2892, col: 9, offset: 91311,
+																		line: 2891, col: 9, offset: 91249,
 																	},
 																},
 															},
@@ -34475,39 +34431,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1045, col: 5, offset: 32269},
+										pos: position{line: 1044, col: 5, offset: 32207},
 										run: (*parser).callonListContinuationElement1103,
 										expr: &seqExpr{
-											pos: position{line: 1045, col: 5, offset: 32269},
+											pos: position{line: 1044, col: 5, offset: 32207},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1045, col: 5, offset: 32269},
+													pos:   position{line: 1044, col: 5, offset: 32207},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 797, col: 5, offset: 25668},
+														pos: position{line: 796, col: 5, offset: 25606},
 														run: (*parser).callonListContinuationElement1106,
 														expr: &seqExpr{
-															pos: position{line: 797, col: 5, offset: 25668},
+															pos: position{line: 796, col: 5, offset: 25606},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 797, col: 5, offset: 25668},
+																	pos:   position{line: 796, col: 5, offset: 25606},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 797, col: 16, offset: 25679},
+																		pos: position{line: 796, col: 16, offset: 25617},
 																		run: (*parser).callonListContinuationElement1109,
 																		expr: &seqExpr{
-																			pos: position{line: 797, col: 16, offset: 25679},
+																			pos: position{line: 796, col: 16, offset: 25617},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 797, col: 16, offset: 25679},
+																					pos:        position{line: 796, col: 16, offset: 25617},
 																					val:        "____",
 																					ignoreCase: false,
 																					want:       "\"____\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 797, col: 23, offset: 25686},
+																					pos: position{line: 796, col: 23, offset: 25624},
 																					expr: &litMatcher{
-																						pos:        position{line: 797, col: 23, offset: 25686},
+																						pos:        position{line: 796, col: 23, offset: 25624},
 																						val:        "_",
 																						ignoreCase: false,
 																						want:       "\"_\"",
@@ -34518,12 +34474,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 799, col: 8, offset: 25770},
+																	pos: position{line: 798, col: 8, offset: 25708},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90962},
+																		pos: position{line: 2872, col: 10, offset: 90900},
 																		run: (*parser).callonListContinuationElement1115,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90962},
+																			pos:        position{line: 2872, col: 10, offset: 90900},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34532,28 +34488,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91360},
+																	pos: position{line: 2894, col: 8, offset: 91298},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91133},
+																			pos: position{line: 2881, col: 12, offset: 91071},
 																			run: (*parser).callonListContinuationElement1118,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91134},
+																				pos: position{line: 2881, col: 13, offset: 91072},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91134},
+																						pos:        position{line: 2881, col: 13, offset: 91072},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91141},
+																						pos:        position{line: 2881, col: 20, offset: 91079},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91150},
+																						pos:        position{line: 2881, col: 29, offset: 91088},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34562,9 +34518,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91310},
+																			pos: position{line: 2891, col: 8, offset: 91248},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91311,
+																				line: 2891, col: 9, offset: 91249,
 																			},
 																		},
 																	},
@@ -34574,56 +34530,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1046, col: 5, offset: 32306},
+													pos: position{line: 1045, col: 5, offset: 32244},
 													run: (*parser).callonListContinuationElement1125,
 												},
 												&labeledExpr{
-													pos:   position{line: 1049, col: 5, offset: 32398},
+													pos:   position{line: 1048, col: 5, offset: 32336},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1064, col: 4, offset: 32779},
+														pos: position{line: 1063, col: 4, offset: 32717},
 														expr: &actionExpr{
-															pos: position{line: 1064, col: 5, offset: 32780},
+															pos: position{line: 1063, col: 5, offset: 32718},
 															run: (*parser).callonListContinuationElement1128,
 															expr: &seqExpr{
-																pos: position{line: 1064, col: 5, offset: 32780},
+																pos: position{line: 1063, col: 5, offset: 32718},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1064, col: 5, offset: 32780},
+																		pos: position{line: 1063, col: 5, offset: 32718},
 																		expr: &choiceExpr{
-																			pos: position{line: 1057, col: 5, offset: 32626},
+																			pos: position{line: 1056, col: 5, offset: 32564},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1057, col: 5, offset: 32626},
+																					pos: position{line: 1056, col: 5, offset: 32564},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1057, col: 5, offset: 32626},
+																							pos:   position{line: 1056, col: 5, offset: 32564},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 797, col: 5, offset: 25668},
+																								pos: position{line: 796, col: 5, offset: 25606},
 																								run: (*parser).callonListContinuationElement1134,
 																								expr: &seqExpr{
-																									pos: position{line: 797, col: 5, offset: 25668},
+																									pos: position{line: 796, col: 5, offset: 25606},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 797, col: 5, offset: 25668},
+																											pos:   position{line: 796, col: 5, offset: 25606},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 797, col: 16, offset: 25679},
+																												pos: position{line: 796, col: 16, offset: 25617},
 																												run: (*parser).callonListContinuationElement1137,
 																												expr: &seqExpr{
-																													pos: position{line: 797, col: 16, offset: 25679},
+																													pos: position{line: 796, col: 16, offset: 25617},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 797, col: 16, offset: 25679},
+																															pos:        position{line: 796, col: 16, offset: 25617},
 																															val:        "____",
 																															ignoreCase: false,
 																															want:       "\"____\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 797, col: 23, offset: 25686},
+																															pos: position{line: 796, col: 23, offset: 25624},
 																															expr: &litMatcher{
-																																pos:        position{line: 797, col: 23, offset: 25686},
+																																pos:        position{line: 796, col: 23, offset: 25624},
 																																val:        "_",
 																																ignoreCase: false,
 																																want:       "\"_\"",
@@ -34634,12 +34590,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 799, col: 8, offset: 25770},
+																											pos: position{line: 798, col: 8, offset: 25708},
 																											expr: &actionExpr{
-																												pos: position{line: 2873, col: 10, offset: 90962},
+																												pos: position{line: 2872, col: 10, offset: 90900},
 																												run: (*parser).callonListContinuationElement1143,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2873, col: 10, offset: 90962},
+																													pos:        position{line: 2872, col: 10, offset: 90900},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34648,28 +34604,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91360},
+																											pos: position{line: 2894, col: 8, offset: 91298},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 91133},
+																													pos: position{line: 2881, col: 12, offset: 91071},
 																													run: (*parser).callonListContinuationElement1146,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 91134},
+																														pos: position{line: 2881, col: 13, offset: 91072},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 91134},
+																																pos:        position{line: 2881, col: 13, offset: 91072},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 91141},
+																																pos:        position{line: 2881, col: 20, offset: 91079},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 91150},
+																																pos:        position{line: 2881, col: 29, offset: 91088},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34678,9 +34634,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91310},
+																													pos: position{line: 2891, col: 8, offset: 91248},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91311,
+																														line: 2891, col: 9, offset: 91249,
 																													},
 																												},
 																											},
@@ -34690,45 +34646,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1058, col: 5, offset: 32655},
+																							pos: position{line: 1057, col: 5, offset: 32593},
 																							run: (*parser).callonListContinuationElement1153,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91310},
+																					pos: position{line: 2891, col: 8, offset: 91248},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91311,
+																						line: 2891, col: 9, offset: 91249,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1065, col: 5, offset: 32808},
+																		pos:   position{line: 1064, col: 5, offset: 32746},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26162},
+																			pos: position{line: 810, col: 5, offset: 26100},
 																			run: (*parser).callonListContinuationElement1157,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26162},
+																				pos: position{line: 810, col: 5, offset: 26100},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2890, col: 11, offset: 91296},
+																						pos: position{line: 2889, col: 11, offset: 91234},
 																						expr: &anyMatcher{
-																							line: 2890, col: 13, offset: 91298,
+																							line: 2889, col: 13, offset: 91236,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26237},
+																						pos:   position{line: 811, col: 5, offset: 26175},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2819, col: 13, offset: 89488},
+																							pos: position{line: 2818, col: 13, offset: 89426},
 																							run: (*parser).callonListContinuationElement1162,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2819, col: 13, offset: 89488},
+																								pos: position{line: 2818, col: 13, offset: 89426},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2819, col: 13, offset: 89488},
+																									pos:        position{line: 2818, col: 13, offset: 89426},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34738,28 +34694,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91360},
+																						pos: position{line: 2894, col: 8, offset: 91298},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 91133},
+																								pos: position{line: 2881, col: 12, offset: 91071},
 																								run: (*parser).callonListContinuationElement1166,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 91134},
+																									pos: position{line: 2881, col: 13, offset: 91072},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 91134},
+																											pos:        position{line: 2881, col: 13, offset: 91072},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 91141},
+																											pos:        position{line: 2881, col: 20, offset: 91079},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 91150},
+																											pos:        position{line: 2881, col: 29, offset: 91088},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34768,9 +34724,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91310},
+																								pos: position{line: 2891, col: 8, offset: 91248},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91311,
+																									line: 2891, col: 9, offset: 91249,
 																								},
 																							},
 																						},
@@ -34785,44 +34741,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1050, col: 5, offset: 32430},
+													pos:   position{line: 1049, col: 5, offset: 32368},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1050, col: 9, offset: 32434},
+														pos: position{line: 1049, col: 9, offset: 32372},
 														expr: &choiceExpr{
-															pos: position{line: 1057, col: 5, offset: 32626},
+															pos: position{line: 1056, col: 5, offset: 32564},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1057, col: 5, offset: 32626},
+																	pos: position{line: 1056, col: 5, offset: 32564},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1057, col: 5, offset: 32626},
+																			pos:   position{line: 1056, col: 5, offset: 32564},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 797, col: 5, offset: 25668},
+																				pos: position{line: 796, col: 5, offset: 25606},
 																				run: (*parser).callonListContinuationElement1178,
 																				expr: &seqExpr{
-																					pos: position{line: 797, col: 5, offset: 25668},
+																					pos: position{line: 796, col: 5, offset: 25606},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 797, col: 5, offset: 25668},
+																							pos:   position{line: 796, col: 5, offset: 25606},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 797, col: 16, offset: 25679},
+																								pos: position{line: 796, col: 16, offset: 25617},
 																								run: (*parser).callonListContinuationElement1181,
 																								expr: &seqExpr{
-																									pos: position{line: 797, col: 16, offset: 25679},
+																									pos: position{line: 796, col: 16, offset: 25617},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 797, col: 16, offset: 25679},
+																											pos:        position{line: 796, col: 16, offset: 25617},
 																											val:        "____",
 																											ignoreCase: false,
 																											want:       "\"____\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 797, col: 23, offset: 25686},
+																											pos: position{line: 796, col: 23, offset: 25624},
 																											expr: &litMatcher{
-																												pos:        position{line: 797, col: 23, offset: 25686},
+																												pos:        position{line: 796, col: 23, offset: 25624},
 																												val:        "_",
 																												ignoreCase: false,
 																												want:       "\"_\"",
@@ -34833,12 +34789,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 799, col: 8, offset: 25770},
+																							pos: position{line: 798, col: 8, offset: 25708},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90962},
+																								pos: position{line: 2872, col: 10, offset: 90900},
 																								run: (*parser).callonListContinuationElement1187,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90962},
+																									pos:        position{line: 2872, col: 10, offset: 90900},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34847,28 +34803,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91360},
+																							pos: position{line: 2894, col: 8, offset: 91298},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91133},
+																									pos: position{line: 2881, col: 12, offset: 91071},
 																									run: (*parser).callonListContinuationElement1190,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91134},
+																										pos: position{line: 2881, col: 13, offset: 91072},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91134},
+																												pos:        position{line: 2881, col: 13, offset: 91072},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91141},
+																												pos:        position{line: 2881, col: 20, offset: 91079},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91150},
+																												pos:        position{line: 2881, col: 29, offset: 91088},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34877,9 +34833,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91310},
+																									pos: position{line: 2891, col: 8, offset: 91248},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91311,
+																										line: 2891, col: 9, offset: 91249,
 																									},
 																								},
 																							},
@@ -34889,15 +34845,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1058, col: 5, offset: 32655},
+																			pos: position{line: 1057, col: 5, offset: 32593},
 																			run: (*parser).callonListContinuationElement1197,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2892, col: 8, offset: 91310},
+																	pos: position{line: 2891, col: 8, offset: 91248},
 																	expr: &anyMatcher{
-																		line: 2892, col: 9, offset: 91311,
+																		line: 2891, col: 9, offset: 91249,
 																	},
 																},
 															},
@@ -34908,39 +34864,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1073, col: 5, offset: 32963},
+										pos: position{line: 1072, col: 5, offset: 32901},
 										run: (*parser).callonListContinuationElement1200,
 										expr: &seqExpr{
-											pos: position{line: 1073, col: 5, offset: 32963},
+											pos: position{line: 1072, col: 5, offset: 32901},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1073, col: 5, offset: 32963},
+													pos:   position{line: 1072, col: 5, offset: 32901},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 804, col: 5, offset: 25914},
+														pos: position{line: 803, col: 5, offset: 25852},
 														run: (*parser).callonListContinuationElement1203,
 														expr: &seqExpr{
-															pos: position{line: 804, col: 5, offset: 25914},
+															pos: position{line: 803, col: 5, offset: 25852},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 804, col: 5, offset: 25914},
+																	pos:   position{line: 803, col: 5, offset: 25852},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 804, col: 16, offset: 25925},
+																		pos: position{line: 803, col: 16, offset: 25863},
 																		run: (*parser).callonListContinuationElement1206,
 																		expr: &seqExpr{
-																			pos: position{line: 804, col: 16, offset: 25925},
+																			pos: position{line: 803, col: 16, offset: 25863},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 804, col: 16, offset: 25925},
+																					pos:        position{line: 803, col: 16, offset: 25863},
 																					val:        "****",
 																					ignoreCase: false,
 																					want:       "\"****\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 804, col: 23, offset: 25932},
+																					pos: position{line: 803, col: 23, offset: 25870},
 																					expr: &litMatcher{
-																						pos:        position{line: 804, col: 23, offset: 25932},
+																						pos:        position{line: 803, col: 23, offset: 25870},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -34951,12 +34907,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 806, col: 8, offset: 26016},
+																	pos: position{line: 805, col: 8, offset: 25954},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90962},
+																		pos: position{line: 2872, col: 10, offset: 90900},
 																		run: (*parser).callonListContinuationElement1212,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90962},
+																			pos:        position{line: 2872, col: 10, offset: 90900},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34965,28 +34921,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91360},
+																	pos: position{line: 2894, col: 8, offset: 91298},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91133},
+																			pos: position{line: 2881, col: 12, offset: 91071},
 																			run: (*parser).callonListContinuationElement1215,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91134},
+																				pos: position{line: 2881, col: 13, offset: 91072},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91134},
+																						pos:        position{line: 2881, col: 13, offset: 91072},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91141},
+																						pos:        position{line: 2881, col: 20, offset: 91079},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91150},
+																						pos:        position{line: 2881, col: 29, offset: 91088},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34995,9 +34951,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91310},
+																			pos: position{line: 2891, col: 8, offset: 91248},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91311,
+																				line: 2891, col: 9, offset: 91249,
 																			},
 																		},
 																	},
@@ -35007,56 +34963,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1074, col: 5, offset: 33002},
+													pos: position{line: 1073, col: 5, offset: 32940},
 													run: (*parser).callonListContinuationElement1222,
 												},
 												&labeledExpr{
-													pos:   position{line: 1077, col: 5, offset: 33094},
+													pos:   position{line: 1076, col: 5, offset: 33032},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1092, col: 4, offset: 33491},
+														pos: position{line: 1091, col: 4, offset: 33429},
 														expr: &actionExpr{
-															pos: position{line: 1092, col: 5, offset: 33492},
+															pos: position{line: 1091, col: 5, offset: 33430},
 															run: (*parser).callonListContinuationElement1225,
 															expr: &seqExpr{
-																pos: position{line: 1092, col: 5, offset: 33492},
+																pos: position{line: 1091, col: 5, offset: 33430},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1092, col: 5, offset: 33492},
+																		pos: position{line: 1091, col: 5, offset: 33430},
 																		expr: &choiceExpr{
-																			pos: position{line: 1085, col: 5, offset: 33334},
+																			pos: position{line: 1084, col: 5, offset: 33272},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1085, col: 5, offset: 33334},
+																					pos: position{line: 1084, col: 5, offset: 33272},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1085, col: 5, offset: 33334},
+																							pos:   position{line: 1084, col: 5, offset: 33272},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 804, col: 5, offset: 25914},
+																								pos: position{line: 803, col: 5, offset: 25852},
 																								run: (*parser).callonListContinuationElement1231,
 																								expr: &seqExpr{
-																									pos: position{line: 804, col: 5, offset: 25914},
+																									pos: position{line: 803, col: 5, offset: 25852},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 804, col: 5, offset: 25914},
+																											pos:   position{line: 803, col: 5, offset: 25852},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 804, col: 16, offset: 25925},
+																												pos: position{line: 803, col: 16, offset: 25863},
 																												run: (*parser).callonListContinuationElement1234,
 																												expr: &seqExpr{
-																													pos: position{line: 804, col: 16, offset: 25925},
+																													pos: position{line: 803, col: 16, offset: 25863},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 804, col: 16, offset: 25925},
+																															pos:        position{line: 803, col: 16, offset: 25863},
 																															val:        "****",
 																															ignoreCase: false,
 																															want:       "\"****\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 804, col: 23, offset: 25932},
+																															pos: position{line: 803, col: 23, offset: 25870},
 																															expr: &litMatcher{
-																																pos:        position{line: 804, col: 23, offset: 25932},
+																																pos:        position{line: 803, col: 23, offset: 25870},
 																																val:        "*",
 																																ignoreCase: false,
 																																want:       "\"*\"",
@@ -35067,12 +35023,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 806, col: 8, offset: 26016},
+																											pos: position{line: 805, col: 8, offset: 25954},
 																											expr: &actionExpr{
-																												pos: position{line: 2873, col: 10, offset: 90962},
+																												pos: position{line: 2872, col: 10, offset: 90900},
 																												run: (*parser).callonListContinuationElement1240,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2873, col: 10, offset: 90962},
+																													pos:        position{line: 2872, col: 10, offset: 90900},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35081,28 +35037,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91360},
+																											pos: position{line: 2894, col: 8, offset: 91298},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 91133},
+																													pos: position{line: 2881, col: 12, offset: 91071},
 																													run: (*parser).callonListContinuationElement1243,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 91134},
+																														pos: position{line: 2881, col: 13, offset: 91072},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 91134},
+																																pos:        position{line: 2881, col: 13, offset: 91072},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 91141},
+																																pos:        position{line: 2881, col: 20, offset: 91079},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 91150},
+																																pos:        position{line: 2881, col: 29, offset: 91088},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35111,9 +35067,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91310},
+																													pos: position{line: 2891, col: 8, offset: 91248},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91311,
+																														line: 2891, col: 9, offset: 91249,
 																													},
 																												},
 																											},
@@ -35123,45 +35079,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1086, col: 5, offset: 33365},
+																							pos: position{line: 1085, col: 5, offset: 33303},
 																							run: (*parser).callonListContinuationElement1250,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91310},
+																					pos: position{line: 2891, col: 8, offset: 91248},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91311,
+																						line: 2891, col: 9, offset: 91249,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1093, col: 5, offset: 33522},
+																		pos:   position{line: 1092, col: 5, offset: 33460},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26162},
+																			pos: position{line: 810, col: 5, offset: 26100},
 																			run: (*parser).callonListContinuationElement1254,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26162},
+																				pos: position{line: 810, col: 5, offset: 26100},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2890, col: 11, offset: 91296},
+																						pos: position{line: 2889, col: 11, offset: 91234},
 																						expr: &anyMatcher{
-																							line: 2890, col: 13, offset: 91298,
+																							line: 2889, col: 13, offset: 91236,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26237},
+																						pos:   position{line: 811, col: 5, offset: 26175},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2819, col: 13, offset: 89488},
+																							pos: position{line: 2818, col: 13, offset: 89426},
 																							run: (*parser).callonListContinuationElement1259,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2819, col: 13, offset: 89488},
+																								pos: position{line: 2818, col: 13, offset: 89426},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2819, col: 13, offset: 89488},
+																									pos:        position{line: 2818, col: 13, offset: 89426},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35171,28 +35127,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91360},
+																						pos: position{line: 2894, col: 8, offset: 91298},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 91133},
+																								pos: position{line: 2881, col: 12, offset: 91071},
 																								run: (*parser).callonListContinuationElement1263,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 91134},
+																									pos: position{line: 2881, col: 13, offset: 91072},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 91134},
+																											pos:        position{line: 2881, col: 13, offset: 91072},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 91141},
+																											pos:        position{line: 2881, col: 20, offset: 91079},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 91150},
+																											pos:        position{line: 2881, col: 29, offset: 91088},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35201,9 +35157,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91310},
+																								pos: position{line: 2891, col: 8, offset: 91248},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91311,
+																									line: 2891, col: 9, offset: 91249,
 																								},
 																							},
 																						},
@@ -35218,44 +35174,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1078, col: 5, offset: 33128},
+													pos:   position{line: 1077, col: 5, offset: 33066},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1078, col: 9, offset: 33132},
+														pos: position{line: 1077, col: 9, offset: 33070},
 														expr: &choiceExpr{
-															pos: position{line: 1085, col: 5, offset: 33334},
+															pos: position{line: 1084, col: 5, offset: 33272},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1085, col: 5, offset: 33334},
+																	pos: position{line: 1084, col: 5, offset: 33272},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1085, col: 5, offset: 33334},
+																			pos:   position{line: 1084, col: 5, offset: 33272},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 804, col: 5, offset: 25914},
+																				pos: position{line: 803, col: 5, offset: 25852},
 																				run: (*parser).callonListContinuationElement1275,
 																				expr: &seqExpr{
-																					pos: position{line: 804, col: 5, offset: 25914},
+																					pos: position{line: 803, col: 5, offset: 25852},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 804, col: 5, offset: 25914},
+																							pos:   position{line: 803, col: 5, offset: 25852},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 804, col: 16, offset: 25925},
+																								pos: position{line: 803, col: 16, offset: 25863},
 																								run: (*parser).callonListContinuationElement1278,
 																								expr: &seqExpr{
-																									pos: position{line: 804, col: 16, offset: 25925},
+																									pos: position{line: 803, col: 16, offset: 25863},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 804, col: 16, offset: 25925},
+																											pos:        position{line: 803, col: 16, offset: 25863},
 																											val:        "****",
 																											ignoreCase: false,
 																											want:       "\"****\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 804, col: 23, offset: 25932},
+																											pos: position{line: 803, col: 23, offset: 25870},
 																											expr: &litMatcher{
-																												pos:        position{line: 804, col: 23, offset: 25932},
+																												pos:        position{line: 803, col: 23, offset: 25870},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -35266,12 +35222,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 806, col: 8, offset: 26016},
+																							pos: position{line: 805, col: 8, offset: 25954},
 																							expr: &actionExpr{
-																								pos: position{line: 2873, col: 10, offset: 90962},
+																								pos: position{line: 2872, col: 10, offset: 90900},
 																								run: (*parser).callonListContinuationElement1284,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2873, col: 10, offset: 90962},
+																									pos:        position{line: 2872, col: 10, offset: 90900},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35280,28 +35236,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2895, col: 8, offset: 91360},
+																							pos: position{line: 2894, col: 8, offset: 91298},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 12, offset: 91133},
+																									pos: position{line: 2881, col: 12, offset: 91071},
 																									run: (*parser).callonListContinuationElement1287,
 																									expr: &choiceExpr{
-																										pos: position{line: 2882, col: 13, offset: 91134},
+																										pos: position{line: 2881, col: 13, offset: 91072},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 13, offset: 91134},
+																												pos:        position{line: 2881, col: 13, offset: 91072},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 20, offset: 91141},
+																												pos:        position{line: 2881, col: 20, offset: 91079},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2882, col: 29, offset: 91150},
+																												pos:        position{line: 2881, col: 29, offset: 91088},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35310,9 +35266,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2892, col: 8, offset: 91310},
+																									pos: position{line: 2891, col: 8, offset: 91248},
 																									expr: &anyMatcher{
-																										line: 2892, col: 9, offset: 91311,
+																										line: 2891, col: 9, offset: 91249,
 																									},
 																								},
 																							},
@@ -35322,15 +35278,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1086, col: 5, offset: 33365},
+																			pos: position{line: 1085, col: 5, offset: 33303},
 																			run: (*parser).callonListContinuationElement1294,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2892, col: 8, offset: 91310},
+																	pos: position{line: 2891, col: 8, offset: 91248},
 																	expr: &anyMatcher{
-																		line: 2892, col: 9, offset: 91311,
+																		line: 2891, col: 9, offset: 91249,
 																	},
 																},
 															},
@@ -35341,52 +35297,52 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2718, col: 18, offset: 86536},
+										pos: position{line: 2717, col: 18, offset: 86474},
 										run: (*parser).callonListContinuationElement1297,
 										expr: &seqExpr{
-											pos: position{line: 2718, col: 18, offset: 86536},
+											pos: position{line: 2717, col: 18, offset: 86474},
 											exprs: []interface{}{
 												&choiceExpr{
-													pos: position{line: 2719, col: 9, offset: 86546},
+													pos: position{line: 2718, col: 9, offset: 86484},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2719, col: 9, offset: 86546},
+															pos:        position{line: 2718, col: 9, offset: 86484},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2720, col: 11, offset: 86582},
+															pos:        position{line: 2719, col: 11, offset: 86520},
 															val:        "***",
 															ignoreCase: false,
 															want:       "\"***\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2720, col: 19, offset: 86590},
+															pos:        position{line: 2719, col: 19, offset: 86528},
 															val:        "* * *",
 															ignoreCase: false,
 															want:       "\"* * *\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2720, col: 29, offset: 86600},
+															pos:        position{line: 2719, col: 29, offset: 86538},
 															val:        "---",
 															ignoreCase: false,
 															want:       "\"---\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2720, col: 37, offset: 86608},
+															pos:        position{line: 2719, col: 37, offset: 86546},
 															val:        "- - -",
 															ignoreCase: false,
 															want:       "\"- - -\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2720, col: 47, offset: 86618},
+															pos:        position{line: 2719, col: 47, offset: 86556},
 															val:        "___",
 															ignoreCase: false,
 															want:       "\"___\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2720, col: 55, offset: 86626},
+															pos:        position{line: 2719, col: 55, offset: 86564},
 															val:        "_ _ _",
 															ignoreCase: false,
 															want:       "\"_ _ _\"",
@@ -35394,12 +35350,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2721, col: 11, offset: 86672},
+													pos: position{line: 2720, col: 11, offset: 86610},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90962},
+														pos: position{line: 2872, col: 10, offset: 90900},
 														run: (*parser).callonListContinuationElement1308,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90962},
+															pos:        position{line: 2872, col: 10, offset: 90900},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35408,28 +35364,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2895, col: 8, offset: 91360},
+													pos: position{line: 2894, col: 8, offset: 91298},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2882, col: 12, offset: 91133},
+															pos: position{line: 2881, col: 12, offset: 91071},
 															run: (*parser).callonListContinuationElement1311,
 															expr: &choiceExpr{
-																pos: position{line: 2882, col: 13, offset: 91134},
+																pos: position{line: 2881, col: 13, offset: 91072},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 13, offset: 91134},
+																		pos:        position{line: 2881, col: 13, offset: 91072},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 20, offset: 91141},
+																		pos:        position{line: 2881, col: 20, offset: 91079},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 29, offset: 91150},
+																		pos:        position{line: 2881, col: 29, offset: 91088},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35438,20 +35394,20 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2892, col: 8, offset: 91310},
+															pos: position{line: 2891, col: 8, offset: 91248},
 															expr: &anyMatcher{
-																line: 2892, col: 9, offset: 91311,
+																line: 2891, col: 9, offset: 91249,
 															},
 														},
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2721, col: 22, offset: 86683},
+													pos: position{line: 2720, col: 22, offset: 86621},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90962},
+														pos: position{line: 2872, col: 10, offset: 90900},
 														run: (*parser).callonListContinuationElement1319,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90962},
+															pos:        position{line: 2872, col: 10, offset: 90900},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35460,28 +35416,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2895, col: 8, offset: 91360},
+													pos: position{line: 2894, col: 8, offset: 91298},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2882, col: 12, offset: 91133},
+															pos: position{line: 2881, col: 12, offset: 91071},
 															run: (*parser).callonListContinuationElement1322,
 															expr: &choiceExpr{
-																pos: position{line: 2882, col: 13, offset: 91134},
+																pos: position{line: 2881, col: 13, offset: 91072},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 13, offset: 91134},
+																		pos:        position{line: 2881, col: 13, offset: 91072},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 20, offset: 91141},
+																		pos:        position{line: 2881, col: 20, offset: 91079},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 29, offset: 91150},
+																		pos:        position{line: 2881, col: 29, offset: 91088},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35490,9 +35446,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2892, col: 8, offset: 91310},
+															pos: position{line: 2891, col: 8, offset: 91248},
 															expr: &anyMatcher{
-																line: 2892, col: 9, offset: 91311,
+																line: 2891, col: 9, offset: 91249,
 															},
 														},
 													},
@@ -35501,28 +35457,28 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1555, col: 11, offset: 50381},
+										pos:  position{line: 1554, col: 11, offset: 50319},
 										name: "ImageBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2609, col: 5, offset: 83472},
+										pos: position{line: 2608, col: 5, offset: 83410},
 										run: (*parser).callonListContinuationElement1330,
 										expr: &seqExpr{
-											pos: position{line: 2609, col: 5, offset: 83472},
+											pos: position{line: 2608, col: 5, offset: 83410},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2615, col: 19, offset: 83629},
+													pos:        position{line: 2614, col: 19, offset: 83567},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2615, col: 26, offset: 83636},
+													pos: position{line: 2614, col: 26, offset: 83574},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90962},
+														pos: position{line: 2872, col: 10, offset: 90900},
 														run: (*parser).callonListContinuationElement1334,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90962},
+															pos:        position{line: 2872, col: 10, offset: 90900},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35531,28 +35487,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2895, col: 8, offset: 91360},
+													pos: position{line: 2894, col: 8, offset: 91298},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2882, col: 12, offset: 91133},
+															pos: position{line: 2881, col: 12, offset: 91071},
 															run: (*parser).callonListContinuationElement1337,
 															expr: &choiceExpr{
-																pos: position{line: 2882, col: 13, offset: 91134},
+																pos: position{line: 2881, col: 13, offset: 91072},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 13, offset: 91134},
+																		pos:        position{line: 2881, col: 13, offset: 91072},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 20, offset: 91141},
+																		pos:        position{line: 2881, col: 20, offset: 91079},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 29, offset: 91150},
+																		pos:        position{line: 2881, col: 29, offset: 91088},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35561,40 +35517,40 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2892, col: 8, offset: 91310},
+															pos: position{line: 2891, col: 8, offset: 91248},
 															expr: &anyMatcher{
-																line: 2892, col: 9, offset: 91311,
+																line: 2891, col: 9, offset: 91249,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2610, col: 5, offset: 83496},
+													pos:   position{line: 2609, col: 5, offset: 83434},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2610, col: 11, offset: 83502},
+														pos: position{line: 2609, col: 11, offset: 83440},
 														expr: &choiceExpr{
-															pos: position{line: 2610, col: 12, offset: 83503},
+															pos: position{line: 2609, col: 12, offset: 83441},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 677, col: 14, offset: 21558},
+																	pos: position{line: 676, col: 14, offset: 21496},
 																	run: (*parser).callonListContinuationElement1347,
 																	expr: &seqExpr{
-																		pos: position{line: 677, col: 14, offset: 21558},
+																		pos: position{line: 676, col: 14, offset: 21496},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2890, col: 11, offset: 91296},
+																				pos: position{line: 2889, col: 11, offset: 91234},
 																				expr: &anyMatcher{
-																					line: 2890, col: 13, offset: 91298,
+																					line: 2889, col: 13, offset: 91236,
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 677, col: 21, offset: 21565},
+																				pos: position{line: 676, col: 21, offset: 21503},
 																				expr: &actionExpr{
-																					pos: position{line: 2873, col: 10, offset: 90962},
+																					pos: position{line: 2872, col: 10, offset: 90900},
 																					run: (*parser).callonListContinuationElement1352,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2873, col: 10, offset: 90962},
+																						pos:        position{line: 2872, col: 10, offset: 90900},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -35603,28 +35559,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2895, col: 8, offset: 91360},
+																				pos: position{line: 2894, col: 8, offset: 91298},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2882, col: 12, offset: 91133},
+																						pos: position{line: 2881, col: 12, offset: 91071},
 																						run: (*parser).callonListContinuationElement1355,
 																						expr: &choiceExpr{
-																							pos: position{line: 2882, col: 13, offset: 91134},
+																							pos: position{line: 2881, col: 13, offset: 91072},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 13, offset: 91134},
+																									pos:        position{line: 2881, col: 13, offset: 91072},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 20, offset: 91141},
+																									pos:        position{line: 2881, col: 20, offset: 91079},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2882, col: 29, offset: 91150},
+																									pos:        position{line: 2881, col: 29, offset: 91088},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35633,9 +35589,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2892, col: 8, offset: 91310},
+																						pos: position{line: 2891, col: 8, offset: 91248},
 																						expr: &anyMatcher{
-																							line: 2892, col: 9, offset: 91311,
+																							line: 2891, col: 9, offset: 91249,
 																						},
 																					},
 																				},
@@ -35644,32 +35600,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2622, col: 5, offset: 83748},
+																	pos: position{line: 2621, col: 5, offset: 83686},
 																	run: (*parser).callonListContinuationElement1362,
 																	expr: &seqExpr{
-																		pos: position{line: 2622, col: 5, offset: 83748},
+																		pos: position{line: 2621, col: 5, offset: 83686},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2622, col: 5, offset: 83748},
+																				pos: position{line: 2621, col: 5, offset: 83686},
 																				expr: &choiceExpr{
-																					pos: position{line: 2619, col: 22, offset: 83709},
+																					pos: position{line: 2618, col: 22, offset: 83647},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2615, col: 19, offset: 83629},
+																							pos: position{line: 2614, col: 19, offset: 83567},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2615, col: 19, offset: 83629},
+																									pos:        position{line: 2614, col: 19, offset: 83567},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2615, col: 26, offset: 83636},
+																									pos: position{line: 2614, col: 26, offset: 83574},
 																									expr: &actionExpr{
-																										pos: position{line: 2873, col: 10, offset: 90962},
+																										pos: position{line: 2872, col: 10, offset: 90900},
 																										run: (*parser).callonListContinuationElement1369,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2873, col: 10, offset: 90962},
+																											pos:        position{line: 2872, col: 10, offset: 90900},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -35678,28 +35634,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2895, col: 8, offset: 91360},
+																									pos: position{line: 2894, col: 8, offset: 91298},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2882, col: 12, offset: 91133},
+																											pos: position{line: 2881, col: 12, offset: 91071},
 																											run: (*parser).callonListContinuationElement1372,
 																											expr: &choiceExpr{
-																												pos: position{line: 2882, col: 13, offset: 91134},
+																												pos: position{line: 2881, col: 13, offset: 91072},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 13, offset: 91134},
+																														pos:        position{line: 2881, col: 13, offset: 91072},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 20, offset: 91141},
+																														pos:        position{line: 2881, col: 20, offset: 91079},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2882, col: 29, offset: 91150},
+																														pos:        position{line: 2881, col: 29, offset: 91088},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -35708,9 +35664,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2892, col: 8, offset: 91310},
+																											pos: position{line: 2891, col: 8, offset: 91248},
 																											expr: &anyMatcher{
-																												line: 2892, col: 9, offset: 91311,
+																												line: 2891, col: 9, offset: 91249,
 																											},
 																										},
 																									},
@@ -35718,59 +35674,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2892, col: 8, offset: 91310},
+																							pos: position{line: 2891, col: 8, offset: 91248},
 																							expr: &anyMatcher{
-																								line: 2892, col: 9, offset: 91311,
+																								line: 2891, col: 9, offset: 91249,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2623, col: 5, offset: 83771},
+																				pos:   position{line: 2622, col: 5, offset: 83709},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2624, col: 9, offset: 83789},
+																					pos: position{line: 2623, col: 9, offset: 83727},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2624, col: 10, offset: 83790},
+																							pos: position{line: 2623, col: 10, offset: 83728},
 																							run: (*parser).callonListContinuationElement1383,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2624, col: 10, offset: 83790},
+																								pos:   position{line: 2623, col: 10, offset: 83728},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2624, col: 17, offset: 83797},
+																									pos: position{line: 2623, col: 17, offset: 83735},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2632, col: 21, offset: 83993},
+																											pos: position{line: 2631, col: 21, offset: 83931},
 																											run: (*parser).callonListContinuationElement1386,
 																											expr: &seqExpr{
-																												pos: position{line: 2632, col: 21, offset: 83993},
+																												pos: position{line: 2631, col: 21, offset: 83931},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2632, col: 21, offset: 83993},
+																														pos:   position{line: 2631, col: 21, offset: 83931},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2632, col: 27, offset: 83999},
+																															pos: position{line: 2631, col: 27, offset: 83937},
 																															expr: &actionExpr{
-																																pos: position{line: 2637, col: 5, offset: 84074},
+																																pos: position{line: 2636, col: 5, offset: 84012},
 																																run: (*parser).callonListContinuationElement1390,
 																																expr: &seqExpr{
-																																	pos: position{line: 2637, col: 5, offset: 84074},
+																																	pos: position{line: 2636, col: 5, offset: 84012},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2637, col: 5, offset: 84074},
+																																			pos:        position{line: 2636, col: 5, offset: 84012},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2637, col: 9, offset: 84078},
+																																			pos: position{line: 2636, col: 9, offset: 84016},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2873, col: 10, offset: 90962},
+																																				pos: position{line: 2872, col: 10, offset: 90900},
 																																				run: (*parser).callonListContinuationElement1394,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2873, col: 10, offset: 90962},
+																																					pos:        position{line: 2872, col: 10, offset: 90900},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -35779,21 +35735,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2637, col: 16, offset: 84085},
+																																			pos:   position{line: 2636, col: 16, offset: 84023},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2643, col: 5, offset: 84285},
+																																				pos: position{line: 2642, col: 5, offset: 84223},
 																																				run: (*parser).callonListContinuationElement1397,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2643, col: 5, offset: 84285},
+																																					pos:   position{line: 2642, col: 5, offset: 84223},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2643, col: 14, offset: 84294},
+																																						pos: position{line: 2642, col: 14, offset: 84232},
 																																						run: (*parser).callonListContinuationElement1399,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2643, col: 14, offset: 84294},
+																																							pos: position{line: 2642, col: 14, offset: 84232},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2643, col: 14, offset: 84294},
+																																								pos:        position{line: 2642, col: 14, offset: 84232},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -35810,28 +35766,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2895, col: 8, offset: 91360},
+																														pos: position{line: 2894, col: 8, offset: 91298},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2882, col: 12, offset: 91133},
+																																pos: position{line: 2881, col: 12, offset: 91071},
 																																run: (*parser).callonListContinuationElement1403,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2882, col: 13, offset: 91134},
+																																	pos: position{line: 2881, col: 13, offset: 91072},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2882, col: 13, offset: 91134},
+																																			pos:        position{line: 2881, col: 13, offset: 91072},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2882, col: 20, offset: 91141},
+																																			pos:        position{line: 2881, col: 20, offset: 91079},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2882, col: 29, offset: 91150},
+																																			pos:        position{line: 2881, col: 29, offset: 91088},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -35840,9 +35796,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2892, col: 8, offset: 91310},
+																																pos: position{line: 2891, col: 8, offset: 91248},
 																																expr: &anyMatcher{
-																																	line: 2892, col: 9, offset: 91311,
+																																	line: 2891, col: 9, offset: 91249,
 																																},
 																															},
 																														},
@@ -35851,40 +35807,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2649, col: 24, offset: 84430},
+																											pos: position{line: 2648, col: 24, offset: 84368},
 																											run: (*parser).callonListContinuationElement1410,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2649, col: 24, offset: 84430},
+																												pos:   position{line: 2648, col: 24, offset: 84368},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2649, col: 30, offset: 84436},
+																													pos: position{line: 2648, col: 30, offset: 84374},
 																													expr: &actionExpr{
-																														pos: position{line: 2654, col: 5, offset: 84512},
+																														pos: position{line: 2653, col: 5, offset: 84450},
 																														run: (*parser).callonListContinuationElement1413,
 																														expr: &seqExpr{
-																															pos: position{line: 2654, col: 5, offset: 84512},
+																															pos: position{line: 2653, col: 5, offset: 84450},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2654, col: 5, offset: 84512},
+																																	pos: position{line: 2653, col: 5, offset: 84450},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2619, col: 22, offset: 83709},
+																																		pos: position{line: 2618, col: 22, offset: 83647},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2615, col: 19, offset: 83629},
+																																				pos: position{line: 2614, col: 19, offset: 83567},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2615, col: 19, offset: 83629},
+																																						pos:        position{line: 2614, col: 19, offset: 83567},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2615, col: 26, offset: 83636},
+																																						pos: position{line: 2614, col: 26, offset: 83574},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2873, col: 10, offset: 90962},
+																																							pos: position{line: 2872, col: 10, offset: 90900},
 																																							run: (*parser).callonListContinuationElement1420,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2873, col: 10, offset: 90962},
+																																								pos:        position{line: 2872, col: 10, offset: 90900},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -35893,28 +35849,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2895, col: 8, offset: 91360},
+																																						pos: position{line: 2894, col: 8, offset: 91298},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2882, col: 12, offset: 91133},
+																																								pos: position{line: 2881, col: 12, offset: 91071},
 																																								run: (*parser).callonListContinuationElement1423,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2882, col: 13, offset: 91134},
+																																									pos: position{line: 2881, col: 13, offset: 91072},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2882, col: 13, offset: 91134},
+																																											pos:        position{line: 2881, col: 13, offset: 91072},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2882, col: 20, offset: 91141},
+																																											pos:        position{line: 2881, col: 20, offset: 91079},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2882, col: 29, offset: 91150},
+																																											pos:        position{line: 2881, col: 29, offset: 91088},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -35923,9 +35879,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2892, col: 8, offset: 91310},
+																																								pos: position{line: 2891, col: 8, offset: 91248},
 																																								expr: &anyMatcher{
-																																									line: 2892, col: 9, offset: 91311,
+																																									line: 2891, col: 9, offset: 91249,
 																																								},
 																																							},
 																																						},
@@ -35933,35 +35889,35 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2892, col: 8, offset: 91310},
+																																				pos: position{line: 2891, col: 8, offset: 91248},
 																																				expr: &anyMatcher{
-																																					line: 2892, col: 9, offset: 91311,
+																																					line: 2891, col: 9, offset: 91249,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2655, col: 5, offset: 84535},
+																																	pos: position{line: 2654, col: 5, offset: 84473},
 																																	expr: &actionExpr{
-																																		pos: position{line: 677, col: 14, offset: 21558},
+																																		pos: position{line: 676, col: 14, offset: 21496},
 																																		run: (*parser).callonListContinuationElement1433,
 																																		expr: &seqExpr{
-																																			pos: position{line: 677, col: 14, offset: 21558},
+																																			pos: position{line: 676, col: 14, offset: 21496},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2890, col: 11, offset: 91296},
+																																					pos: position{line: 2889, col: 11, offset: 91234},
 																																					expr: &anyMatcher{
-																																						line: 2890, col: 13, offset: 91298,
+																																						line: 2889, col: 13, offset: 91236,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
-																																					pos: position{line: 677, col: 21, offset: 21565},
+																																					pos: position{line: 676, col: 21, offset: 21503},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2873, col: 10, offset: 90962},
+																																						pos: position{line: 2872, col: 10, offset: 90900},
 																																						run: (*parser).callonListContinuationElement1438,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2873, col: 10, offset: 90962},
+																																							pos:        position{line: 2872, col: 10, offset: 90900},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -35970,28 +35926,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2895, col: 8, offset: 91360},
+																																					pos: position{line: 2894, col: 8, offset: 91298},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2882, col: 12, offset: 91133},
+																																							pos: position{line: 2881, col: 12, offset: 91071},
 																																							run: (*parser).callonListContinuationElement1441,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2882, col: 13, offset: 91134},
+																																								pos: position{line: 2881, col: 13, offset: 91072},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2882, col: 13, offset: 91134},
+																																										pos:        position{line: 2881, col: 13, offset: 91072},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2882, col: 20, offset: 91141},
+																																										pos:        position{line: 2881, col: 20, offset: 91079},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2882, col: 29, offset: 91150},
+																																										pos:        position{line: 2881, col: 29, offset: 91088},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -36000,9 +35956,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2892, col: 8, offset: 91310},
+																																							pos: position{line: 2891, col: 8, offset: 91248},
 																																							expr: &anyMatcher{
-																																								line: 2892, col: 9, offset: 91311,
+																																								line: 2891, col: 9, offset: 91249,
 																																							},
 																																						},
 																																					},
@@ -36012,17 +35968,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2656, col: 5, offset: 84550},
+																																	pos:   position{line: 2655, col: 5, offset: 84488},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2656, col: 12, offset: 84557},
+																																		pos: position{line: 2655, col: 12, offset: 84495},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2673, col: 20, offset: 85021},
+																																			pos: position{line: 2672, col: 20, offset: 84959},
 																																			run: (*parser).callonListContinuationElement1450,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2673, col: 20, offset: 85021},
+																																				pos: position{line: 2672, col: 20, offset: 84959},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2673, col: 20, offset: 85021},
+																																					pos:        position{line: 2672, col: 20, offset: 84959},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -36033,18 +35989,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2656, col: 31, offset: 84576},
+																																	pos:        position{line: 2655, col: 31, offset: 84514},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2656, col: 35, offset: 84580},
+																																	pos: position{line: 2655, col: 35, offset: 84518},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2873, col: 10, offset: 90962},
+																																		pos: position{line: 2872, col: 10, offset: 90900},
 																																		run: (*parser).callonListContinuationElement1455,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2873, col: 10, offset: 90962},
+																																			pos:        position{line: 2872, col: 10, offset: 90900},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -36053,27 +36009,27 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2656, col: 42, offset: 84587},
+																																	pos: position{line: 2655, col: 42, offset: 84525},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2882, col: 12, offset: 91133},
+																																		pos: position{line: 2881, col: 12, offset: 91071},
 																																		run: (*parser).callonListContinuationElement1458,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2882, col: 13, offset: 91134},
+																																			pos: position{line: 2881, col: 13, offset: 91072},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2882, col: 13, offset: 91134},
+																																					pos:        position{line: 2881, col: 13, offset: 91072},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2882, col: 20, offset: 91141},
+																																					pos:        position{line: 2881, col: 20, offset: 91079},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2882, col: 29, offset: 91150},
+																																					pos:        position{line: 2881, col: 29, offset: 91088},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -36083,37 +36039,37 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2656, col: 51, offset: 84596},
+																																	pos:   position{line: 2655, col: 51, offset: 84534},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2662, col: 5, offset: 84755},
+																																		pos: position{line: 2661, col: 5, offset: 84693},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2663, col: 9, offset: 84765},
+																																			pos: position{line: 2662, col: 9, offset: 84703},
 																																			run: (*parser).callonListContinuationElement1465,
 																																			expr: &seqExpr{
-																																				pos: position{line: 2663, col: 9, offset: 84765},
+																																				pos: position{line: 2662, col: 9, offset: 84703},
 																																				exprs: []interface{}{
 																																					&notExpr{
-																																						pos: position{line: 2663, col: 9, offset: 84765},
+																																						pos: position{line: 2662, col: 9, offset: 84703},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2619, col: 22, offset: 83709},
+																																							pos: position{line: 2618, col: 22, offset: 83647},
 																																							alternatives: []interface{}{
 																																								&seqExpr{
-																																									pos: position{line: 2615, col: 19, offset: 83629},
+																																									pos: position{line: 2614, col: 19, offset: 83567},
 																																									exprs: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2615, col: 19, offset: 83629},
+																																											pos:        position{line: 2614, col: 19, offset: 83567},
 																																											val:        "|===",
 																																											ignoreCase: false,
 																																											want:       "\"|===\"",
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 2615, col: 26, offset: 83636},
+																																											pos: position{line: 2614, col: 26, offset: 83574},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2873, col: 10, offset: 90962},
+																																												pos: position{line: 2872, col: 10, offset: 90900},
 																																												run: (*parser).callonListContinuationElement1472,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2873, col: 10, offset: 90962},
+																																													pos:        position{line: 2872, col: 10, offset: 90900},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -36122,28 +36078,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2895, col: 8, offset: 91360},
+																																											pos: position{line: 2894, col: 8, offset: 91298},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2882, col: 12, offset: 91133},
+																																													pos: position{line: 2881, col: 12, offset: 91071},
 																																													run: (*parser).callonListContinuationElement1475,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2882, col: 13, offset: 91134},
+																																														pos: position{line: 2881, col: 13, offset: 91072},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2882, col: 13, offset: 91134},
+																																																pos:        position{line: 2881, col: 13, offset: 91072},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2882, col: 20, offset: 91141},
+																																																pos:        position{line: 2881, col: 20, offset: 91079},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2882, col: 29, offset: 91150},
+																																																pos:        position{line: 2881, col: 29, offset: 91088},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -36152,9 +36108,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2892, col: 8, offset: 91310},
+																																													pos: position{line: 2891, col: 8, offset: 91248},
 																																													expr: &anyMatcher{
-																																														line: 2892, col: 9, offset: 91311,
+																																														line: 2891, col: 9, offset: 91249,
 																																													},
 																																												},
 																																											},
@@ -36162,35 +36118,35 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2892, col: 8, offset: 91310},
+																																									pos: position{line: 2891, col: 8, offset: 91248},
 																																									expr: &anyMatcher{
-																																										line: 2892, col: 9, offset: 91311,
+																																										line: 2891, col: 9, offset: 91249,
 																																									},
 																																								},
 																																							},
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2664, col: 9, offset: 84792},
+																																						pos: position{line: 2663, col: 9, offset: 84730},
 																																						expr: &actionExpr{
-																																							pos: position{line: 677, col: 14, offset: 21558},
+																																							pos: position{line: 676, col: 14, offset: 21496},
 																																							run: (*parser).callonListContinuationElement1485,
 																																							expr: &seqExpr{
-																																								pos: position{line: 677, col: 14, offset: 21558},
+																																								pos: position{line: 676, col: 14, offset: 21496},
 																																								exprs: []interface{}{
 																																									&andExpr{
-																																										pos: position{line: 2890, col: 11, offset: 91296},
+																																										pos: position{line: 2889, col: 11, offset: 91234},
 																																										expr: &anyMatcher{
-																																											line: 2890, col: 13, offset: 91298,
+																																											line: 2889, col: 13, offset: 91236,
 																																										},
 																																									},
 																																									&zeroOrMoreExpr{
-																																										pos: position{line: 677, col: 21, offset: 21565},
+																																										pos: position{line: 676, col: 21, offset: 21503},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2873, col: 10, offset: 90962},
+																																											pos: position{line: 2872, col: 10, offset: 90900},
 																																											run: (*parser).callonListContinuationElement1490,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2873, col: 10, offset: 90962},
+																																												pos:        position{line: 2872, col: 10, offset: 90900},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -36199,28 +36155,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2895, col: 8, offset: 91360},
+																																										pos: position{line: 2894, col: 8, offset: 91298},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2882, col: 12, offset: 91133},
+																																												pos: position{line: 2881, col: 12, offset: 91071},
 																																												run: (*parser).callonListContinuationElement1493,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2882, col: 13, offset: 91134},
+																																													pos: position{line: 2881, col: 13, offset: 91072},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2882, col: 13, offset: 91134},
+																																															pos:        position{line: 2881, col: 13, offset: 91072},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2882, col: 20, offset: 91141},
+																																															pos:        position{line: 2881, col: 20, offset: 91079},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2882, col: 29, offset: 91150},
+																																															pos:        position{line: 2881, col: 29, offset: 91088},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -36229,9 +36185,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2892, col: 8, offset: 91310},
+																																												pos: position{line: 2891, col: 8, offset: 91248},
 																																												expr: &anyMatcher{
-																																													line: 2892, col: 9, offset: 91311,
+																																													line: 2891, col: 9, offset: 91249,
 																																												},
 																																											},
 																																										},
@@ -36241,22 +36197,22 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2665, col: 9, offset: 84811},
+																																						pos: position{line: 2664, col: 9, offset: 84749},
 																																						expr: &seqExpr{
-																																							pos: position{line: 2665, col: 11, offset: 84813},
+																																							pos: position{line: 2664, col: 11, offset: 84751},
 																																							exprs: []interface{}{
 																																								&labeledExpr{
-																																									pos:   position{line: 2665, col: 11, offset: 84813},
+																																									pos:   position{line: 2664, col: 11, offset: 84751},
 																																									label: "format",
 																																									expr: &zeroOrOneExpr{
-																																										pos: position{line: 2665, col: 18, offset: 84820},
+																																										pos: position{line: 2664, col: 18, offset: 84758},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2673, col: 20, offset: 85021},
+																																											pos: position{line: 2672, col: 20, offset: 84959},
 																																											run: (*parser).callonListContinuationElement1504,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2673, col: 20, offset: 85021},
+																																												pos: position{line: 2672, col: 20, offset: 84959},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2673, col: 20, offset: 85021},
+																																													pos:        position{line: 2672, col: 20, offset: 84959},
 																																													val:        "[^ |\\r\\n]",
 																																													chars:      []rune{' ', '|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -36267,7 +36223,7 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&litMatcher{
-																																									pos:        position{line: 2665, col: 37, offset: 84839},
+																																									pos:        position{line: 2664, col: 37, offset: 84777},
 																																									val:        "|",
 																																									ignoreCase: false,
 																																									want:       "\"|\"",
@@ -36276,15 +36232,15 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2666, col: 9, offset: 84852},
+																																						pos:   position{line: 2665, col: 9, offset: 84790},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2666, col: 18, offset: 84861},
+																																							pos: position{line: 2665, col: 18, offset: 84799},
 																																							run: (*parser).callonListContinuationElement1509,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2666, col: 18, offset: 84861},
+																																								pos: position{line: 2665, col: 18, offset: 84799},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2666, col: 18, offset: 84861},
+																																									pos:        position{line: 2665, col: 18, offset: 84799},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -36294,30 +36250,30 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&zeroOrOneExpr{
-																																						pos: position{line: 2668, col: 12, offset: 84923},
+																																						pos: position{line: 2667, col: 12, offset: 84861},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2895, col: 8, offset: 91360},
+																																							pos: position{line: 2894, col: 8, offset: 91298},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2882, col: 12, offset: 91133},
+																																									pos: position{line: 2881, col: 12, offset: 91071},
 																																									run: (*parser).callonListContinuationElement1514,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2882, col: 13, offset: 91134},
+																																										pos: position{line: 2881, col: 13, offset: 91072},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2882, col: 13, offset: 91134},
+																																												pos:        position{line: 2881, col: 13, offset: 91072},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2882, col: 20, offset: 91141},
+																																												pos:        position{line: 2881, col: 20, offset: 91079},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2882, col: 29, offset: 91150},
+																																												pos:        position{line: 2881, col: 29, offset: 91088},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -36326,9 +36282,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2892, col: 8, offset: 91310},
+																																									pos: position{line: 2891, col: 8, offset: 91248},
 																																									expr: &anyMatcher{
-																																										line: 2892, col: 9, offset: 91311,
+																																										line: 2891, col: 9, offset: 91249,
 																																									},
 																																								},
 																																							},
@@ -36350,24 +36306,24 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 677, col: 14, offset: 21558},
+																							pos: position{line: 676, col: 14, offset: 21496},
 																							run: (*parser).callonListContinuationElement1521,
 																							expr: &seqExpr{
-																								pos: position{line: 677, col: 14, offset: 21558},
+																								pos: position{line: 676, col: 14, offset: 21496},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2890, col: 11, offset: 91296},
+																										pos: position{line: 2889, col: 11, offset: 91234},
 																										expr: &anyMatcher{
-																											line: 2890, col: 13, offset: 91298,
+																											line: 2889, col: 13, offset: 91236,
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 677, col: 21, offset: 21565},
+																										pos: position{line: 676, col: 21, offset: 21503},
 																										expr: &actionExpr{
-																											pos: position{line: 2873, col: 10, offset: 90962},
+																											pos: position{line: 2872, col: 10, offset: 90900},
 																											run: (*parser).callonListContinuationElement1526,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2873, col: 10, offset: 90962},
+																												pos:        position{line: 2872, col: 10, offset: 90900},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -36376,28 +36332,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2895, col: 8, offset: 91360},
+																										pos: position{line: 2894, col: 8, offset: 91298},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2882, col: 12, offset: 91133},
+																												pos: position{line: 2881, col: 12, offset: 91071},
 																												run: (*parser).callonListContinuationElement1529,
 																												expr: &choiceExpr{
-																													pos: position{line: 2882, col: 13, offset: 91134},
+																													pos: position{line: 2881, col: 13, offset: 91072},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2882, col: 13, offset: 91134},
+																															pos:        position{line: 2881, col: 13, offset: 91072},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2882, col: 20, offset: 91141},
+																															pos:        position{line: 2881, col: 20, offset: 91079},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2882, col: 29, offset: 91150},
+																															pos:        position{line: 2881, col: 29, offset: 91088},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -36406,9 +36362,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2892, col: 8, offset: 91310},
+																												pos: position{line: 2891, col: 8, offset: 91248},
 																												expr: &anyMatcher{
-																													line: 2892, col: 9, offset: 91311,
+																													line: 2891, col: 9, offset: 91249,
 																												},
 																											},
 																										},
@@ -36427,24 +36383,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2619, col: 22, offset: 83709},
+													pos: position{line: 2618, col: 22, offset: 83647},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2615, col: 19, offset: 83629},
+															pos: position{line: 2614, col: 19, offset: 83567},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2615, col: 19, offset: 83629},
+																	pos:        position{line: 2614, col: 19, offset: 83567},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2615, col: 26, offset: 83636},
+																	pos: position{line: 2614, col: 26, offset: 83574},
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90962},
+																		pos: position{line: 2872, col: 10, offset: 90900},
 																		run: (*parser).callonListContinuationElement1540,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90962},
+																			pos:        position{line: 2872, col: 10, offset: 90900},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -36453,28 +36409,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91360},
+																	pos: position{line: 2894, col: 8, offset: 91298},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91133},
+																			pos: position{line: 2881, col: 12, offset: 91071},
 																			run: (*parser).callonListContinuationElement1543,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91134},
+																				pos: position{line: 2881, col: 13, offset: 91072},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91134},
+																						pos:        position{line: 2881, col: 13, offset: 91072},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91141},
+																						pos:        position{line: 2881, col: 20, offset: 91079},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91150},
+																						pos:        position{line: 2881, col: 29, offset: 91088},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36483,9 +36439,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91310},
+																			pos: position{line: 2891, col: 8, offset: 91248},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91311,
+																				line: 2891, col: 9, offset: 91249,
 																			},
 																		},
 																	},
@@ -36493,9 +36449,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2892, col: 8, offset: 91310},
+															pos: position{line: 2891, col: 8, offset: 91248},
 															expr: &anyMatcher{
-																line: 2892, col: 9, offset: 91311,
+																line: 2891, col: 9, offset: 91249,
 															},
 														},
 													},
@@ -36504,36 +36460,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2480, col: 22, offset: 79848},
+										pos: position{line: 2479, col: 22, offset: 79786},
 										run: (*parser).callonListContinuationElement1552,
 										expr: &seqExpr{
-											pos: position{line: 2480, col: 22, offset: 79848},
+											pos: position{line: 2479, col: 22, offset: 79786},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2485, col: 31, offset: 80069},
+													pos:        position{line: 2484, col: 31, offset: 80007},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2485, col: 36, offset: 80074},
+													pos: position{line: 2484, col: 36, offset: 80012},
 													expr: &litMatcher{
-														pos:        position{line: 2485, col: 37, offset: 80075},
+														pos:        position{line: 2484, col: 37, offset: 80013},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2480, col: 49, offset: 79875},
+													pos:   position{line: 2479, col: 49, offset: 79813},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2819, col: 13, offset: 89488},
+														pos: position{line: 2818, col: 13, offset: 89426},
 														run: (*parser).callonListContinuationElement1558,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2819, col: 13, offset: 89488},
+															pos: position{line: 2818, col: 13, offset: 89426},
 															expr: &charClassMatcher{
-																pos:        position{line: 2819, col: 13, offset: 89488},
+																pos:        position{line: 2818, col: 13, offset: 89426},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -36543,28 +36499,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2895, col: 8, offset: 91360},
+													pos: position{line: 2894, col: 8, offset: 91298},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2882, col: 12, offset: 91133},
+															pos: position{line: 2881, col: 12, offset: 91071},
 															run: (*parser).callonListContinuationElement1562,
 															expr: &choiceExpr{
-																pos: position{line: 2882, col: 13, offset: 91134},
+																pos: position{line: 2881, col: 13, offset: 91072},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 13, offset: 91134},
+																		pos:        position{line: 2881, col: 13, offset: 91072},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 20, offset: 91141},
+																		pos:        position{line: 2881, col: 20, offset: 91079},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 29, offset: 91150},
+																		pos:        position{line: 2881, col: 29, offset: 91088},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36573,9 +36529,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2892, col: 8, offset: 91310},
+															pos: position{line: 2891, col: 8, offset: 91248},
 															expr: &anyMatcher{
-																line: 2892, col: 9, offset: 91311,
+																line: 2891, col: 9, offset: 91249,
 															},
 														},
 													},
@@ -36584,94 +36540,94 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1568, col: 5, offset: 50811},
+										pos: position{line: 1567, col: 5, offset: 50749},
 										run: (*parser).callonListContinuationElement1569,
 										expr: &seqExpr{
-											pos: position{line: 1568, col: 5, offset: 50811},
+											pos: position{line: 1567, col: 5, offset: 50749},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1568, col: 5, offset: 50811},
+													pos:   position{line: 1567, col: 5, offset: 50749},
 													label: "style",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1568, col: 11, offset: 50817},
+														pos: position{line: 1567, col: 11, offset: 50755},
 														expr: &actionExpr{
-															pos: position{line: 1733, col: 5, offset: 56166},
+															pos: position{line: 1732, col: 5, offset: 56104},
 															run: (*parser).callonListContinuationElement1573,
 															expr: &seqExpr{
-																pos: position{line: 1733, col: 5, offset: 56166},
+																pos: position{line: 1732, col: 5, offset: 56104},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1733, col: 5, offset: 56166},
+																		pos: position{line: 1732, col: 5, offset: 56104},
 																		run: (*parser).callonListContinuationElement1575,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1736, col: 5, offset: 56229},
+																		pos:   position{line: 1735, col: 5, offset: 56167},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1736, col: 12, offset: 56236},
+																			pos: position{line: 1735, col: 12, offset: 56174},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1736, col: 12, offset: 56236},
+																					pos: position{line: 1735, col: 12, offset: 56174},
 																					run: (*parser).callonListContinuationElement1578,
 																					expr: &litMatcher{
-																						pos:        position{line: 1736, col: 12, offset: 56236},
+																						pos:        position{line: 1735, col: 12, offset: 56174},
 																						val:        "TIP: ",
 																						ignoreCase: false,
 																						want:       "\"TIP: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1738, col: 13, offset: 56292},
+																					pos: position{line: 1737, col: 13, offset: 56230},
 																					run: (*parser).callonListContinuationElement1580,
 																					expr: &litMatcher{
-																						pos:        position{line: 1738, col: 13, offset: 56292},
+																						pos:        position{line: 1737, col: 13, offset: 56230},
 																						val:        "NOTE: ",
 																						ignoreCase: false,
 																						want:       "\"NOTE: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1740, col: 13, offset: 56350},
+																					pos: position{line: 1739, col: 13, offset: 56288},
 																					run: (*parser).callonListContinuationElement1582,
 																					expr: &litMatcher{
-																						pos:        position{line: 1740, col: 13, offset: 56350},
+																						pos:        position{line: 1739, col: 13, offset: 56288},
 																						val:        "IMPORTANT: ",
 																						ignoreCase: false,
 																						want:       "\"IMPORTANT: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1742, col: 13, offset: 56418},
+																					pos: position{line: 1741, col: 13, offset: 56356},
 																					run: (*parser).callonListContinuationElement1584,
 																					expr: &litMatcher{
-																						pos:        position{line: 1742, col: 13, offset: 56418},
+																						pos:        position{line: 1741, col: 13, offset: 56356},
 																						val:        "WARNING: ",
 																						ignoreCase: false,
 																						want:       "\"WARNING: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1744, col: 13, offset: 56482},
+																					pos: position{line: 1743, col: 13, offset: 56420},
 																					run: (*parser).callonListContinuationElement1586,
 																					expr: &litMatcher{
-																						pos:        position{line: 1744, col: 13, offset: 56482},
+																						pos:        position{line: 1743, col: 13, offset: 56420},
 																						val:        "CAUTION: ",
 																						ignoreCase: false,
 																						want:       "\"CAUTION: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1746, col: 13, offset: 56546},
+																					pos: position{line: 1745, col: 13, offset: 56484},
 																					run: (*parser).callonListContinuationElement1588,
 																					expr: &andExpr{
-																						pos: position{line: 1746, col: 13, offset: 56546},
+																						pos: position{line: 1745, col: 13, offset: 56484},
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 11, offset: 91023},
+																							pos: position{line: 2876, col: 11, offset: 90961},
 																							run: (*parser).callonListContinuationElement1590,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2877, col: 11, offset: 91023},
+																								pos: position{line: 2876, col: 11, offset: 90961},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 11, offset: 91023},
+																									pos:        position{line: 2876, col: 11, offset: 90961},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36685,17 +36641,17 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1748, col: 12, offset: 56616},
+																		pos: position{line: 1747, col: 12, offset: 56554},
 																		expr: &seqExpr{
-																			pos: position{line: 1748, col: 14, offset: 56618},
+																			pos: position{line: 1747, col: 14, offset: 56556},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1748, col: 14, offset: 56618},
+																					pos: position{line: 1747, col: 14, offset: 56556},
 																					expr: &actionExpr{
-																						pos: position{line: 2873, col: 10, offset: 90962},
+																						pos: position{line: 2872, col: 10, offset: 90900},
 																						run: (*parser).callonListContinuationElement1596,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2873, col: 10, offset: 90962},
+																							pos:        position{line: 2872, col: 10, offset: 90900},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36704,28 +36660,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2895, col: 8, offset: 91360},
+																					pos: position{line: 2894, col: 8, offset: 91298},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2882, col: 12, offset: 91133},
+																							pos: position{line: 2881, col: 12, offset: 91071},
 																							run: (*parser).callonListContinuationElement1599,
 																							expr: &choiceExpr{
-																								pos: position{line: 2882, col: 13, offset: 91134},
+																								pos: position{line: 2881, col: 13, offset: 91072},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 91134},
+																										pos:        position{line: 2881, col: 13, offset: 91072},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 20, offset: 91141},
+																										pos:        position{line: 2881, col: 20, offset: 91079},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 29, offset: 91150},
+																										pos:        position{line: 2881, col: 29, offset: 91088},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -36734,9 +36690,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2892, col: 8, offset: 91310},
+																							pos: position{line: 2891, col: 8, offset: 91248},
 																							expr: &anyMatcher{
-																								line: 2892, col: 9, offset: 91311,
+																								line: 2891, col: 9, offset: 91249,
 																							},
 																						},
 																					},
@@ -36750,35 +36706,35 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1569, col: 5, offset: 50840},
+													pos:   position{line: 1568, col: 5, offset: 50778},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1512, col: 5, offset: 49190},
+														pos: position{line: 1511, col: 5, offset: 49128},
 														run: (*parser).callonListContinuationElement1607,
 														expr: &seqExpr{
-															pos: position{line: 1512, col: 5, offset: 49190},
+															pos: position{line: 1511, col: 5, offset: 49128},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1512, col: 5, offset: 49190},
+																	pos: position{line: 1511, col: 5, offset: 49128},
 																	expr: &actionExpr{
-																		pos: position{line: 677, col: 14, offset: 21558},
+																		pos: position{line: 676, col: 14, offset: 21496},
 																		run: (*parser).callonListContinuationElement1610,
 																		expr: &seqExpr{
-																			pos: position{line: 677, col: 14, offset: 21558},
+																			pos: position{line: 676, col: 14, offset: 21496},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2890, col: 11, offset: 91296},
+																					pos: position{line: 2889, col: 11, offset: 91234},
 																					expr: &anyMatcher{
-																						line: 2890, col: 13, offset: 91298,
+																						line: 2889, col: 13, offset: 91236,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 677, col: 21, offset: 21565},
+																					pos: position{line: 676, col: 21, offset: 21503},
 																					expr: &actionExpr{
-																						pos: position{line: 2873, col: 10, offset: 90962},
+																						pos: position{line: 2872, col: 10, offset: 90900},
 																						run: (*parser).callonListContinuationElement1615,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2873, col: 10, offset: 90962},
+																							pos:        position{line: 2872, col: 10, offset: 90900},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36787,28 +36743,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2895, col: 8, offset: 91360},
+																					pos: position{line: 2894, col: 8, offset: 91298},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2882, col: 12, offset: 91133},
+																							pos: position{line: 2881, col: 12, offset: 91071},
 																							run: (*parser).callonListContinuationElement1618,
 																							expr: &choiceExpr{
-																								pos: position{line: 2882, col: 13, offset: 91134},
+																								pos: position{line: 2881, col: 13, offset: 91072},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 91134},
+																										pos:        position{line: 2881, col: 13, offset: 91072},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 20, offset: 91141},
+																										pos:        position{line: 2881, col: 20, offset: 91079},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 29, offset: 91150},
+																										pos:        position{line: 2881, col: 29, offset: 91088},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -36817,9 +36773,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2892, col: 8, offset: 91310},
+																							pos: position{line: 2891, col: 8, offset: 91248},
 																							expr: &anyMatcher{
-																								line: 2892, col: 9, offset: 91311,
+																								line: 2891, col: 9, offset: 91249,
 																							},
 																						},
 																					},
@@ -36829,23 +36785,23 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1513, col: 5, offset: 49205},
+																	pos: position{line: 1512, col: 5, offset: 49143},
 																	expr: &seqExpr{
-																		pos: position{line: 1543, col: 27, offset: 50031},
+																		pos: position{line: 1542, col: 27, offset: 49969},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1543, col: 27, offset: 50031},
+																				pos:        position{line: 1542, col: 27, offset: 49969},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 1543, col: 31, offset: 50035},
+																				pos: position{line: 1542, col: 31, offset: 49973},
 																				expr: &actionExpr{
-																					pos: position{line: 2873, col: 10, offset: 90962},
+																					pos: position{line: 2872, col: 10, offset: 90900},
 																					run: (*parser).callonListContinuationElement1629,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2873, col: 10, offset: 90962},
+																						pos:        position{line: 2872, col: 10, offset: 90900},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -36854,25 +36810,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91133},
+																				pos: position{line: 2881, col: 12, offset: 91071},
 																				run: (*parser).callonListContinuationElement1631,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91134},
+																					pos: position{line: 2881, col: 13, offset: 91072},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91134},
+																							pos:        position{line: 2881, col: 13, offset: 91072},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91141},
+																							pos:        position{line: 2881, col: 20, offset: 91079},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91150},
+																							pos:        position{line: 2881, col: 29, offset: 91088},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -36884,20 +36840,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1514, col: 5, offset: 49233},
+																	pos: position{line: 1513, col: 5, offset: 49171},
 																	expr: &actionExpr{
-																		pos: position{line: 1584, col: 5, offset: 51250},
+																		pos: position{line: 1583, col: 5, offset: 51188},
 																		run: (*parser).callonListContinuationElement1637,
 																		expr: &seqExpr{
-																			pos: position{line: 1584, col: 5, offset: 51250},
+																			pos: position{line: 1583, col: 5, offset: 51188},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1584, col: 5, offset: 51250},
+																					pos: position{line: 1583, col: 5, offset: 51188},
 																					expr: &actionExpr{
-																						pos: position{line: 2873, col: 10, offset: 90962},
+																						pos: position{line: 2872, col: 10, offset: 90900},
 																						run: (*parser).callonListContinuationElement1640,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2873, col: 10, offset: 90962},
+																							pos:        position{line: 2872, col: 10, offset: 90900},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36906,27 +36862,27 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1584, col: 12, offset: 51257},
+																					pos:   position{line: 1583, col: 12, offset: 51195},
 																					label: "prefix",
 																					expr: &choiceExpr{
-																						pos: position{line: 1586, col: 9, offset: 51320},
+																						pos: position{line: 1585, col: 9, offset: 51258},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 1586, col: 9, offset: 51320},
+																								pos: position{line: 1585, col: 9, offset: 51258},
 																								run: (*parser).callonListContinuationElement1644,
 																								expr: &seqExpr{
-																									pos: position{line: 1586, col: 9, offset: 51320},
+																									pos: position{line: 1585, col: 9, offset: 51258},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 1586, col: 9, offset: 51320},
+																											pos:   position{line: 1585, col: 9, offset: 51258},
 																											label: "depth",
 																											expr: &actionExpr{
-																												pos: position{line: 1586, col: 16, offset: 51327},
+																												pos: position{line: 1585, col: 16, offset: 51265},
 																												run: (*parser).callonListContinuationElement1647,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1586, col: 16, offset: 51327},
+																													pos: position{line: 1585, col: 16, offset: 51265},
 																													expr: &litMatcher{
-																														pos:        position{line: 1586, col: 17, offset: 51328},
+																														pos:        position{line: 1585, col: 17, offset: 51266},
 																														val:        ".",
 																														ignoreCase: false,
 																														want:       "\".\"",
@@ -36935,22 +36891,22 @@ var g = &grammar{
 																											},
 																										},
 																										&andCodeExpr{
-																											pos: position{line: 1590, col: 9, offset: 51428},
+																											pos: position{line: 1589, col: 9, offset: 51366},
 																											run: (*parser).callonListContinuationElement1650,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1609, col: 11, offset: 52145},
+																								pos: position{line: 1608, col: 11, offset: 52083},
 																								run: (*parser).callonListContinuationElement1651,
 																								expr: &seqExpr{
-																									pos: position{line: 1609, col: 11, offset: 52145},
+																									pos: position{line: 1608, col: 11, offset: 52083},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1609, col: 11, offset: 52145},
+																											pos: position{line: 1608, col: 11, offset: 52083},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1609, col: 12, offset: 52146},
+																												pos:        position{line: 1608, col: 12, offset: 52084},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -36958,7 +36914,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1609, col: 20, offset: 52154},
+																											pos:        position{line: 1608, col: 20, offset: 52092},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -36967,20 +36923,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1611, col: 13, offset: 52271},
+																								pos: position{line: 1610, col: 13, offset: 52209},
 																								run: (*parser).callonListContinuationElement1656,
 																								expr: &seqExpr{
-																									pos: position{line: 1611, col: 13, offset: 52271},
+																									pos: position{line: 1610, col: 13, offset: 52209},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1611, col: 14, offset: 52272},
+																											pos:        position{line: 1610, col: 14, offset: 52210},
 																											val:        "[a-z]",
 																											ranges:     []rune{'a', 'z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1611, col: 21, offset: 52279},
+																											pos:        position{line: 1610, col: 21, offset: 52217},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -36989,20 +36945,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1613, col: 13, offset: 52399},
+																								pos: position{line: 1612, col: 13, offset: 52337},
 																								run: (*parser).callonListContinuationElement1660,
 																								expr: &seqExpr{
-																									pos: position{line: 1613, col: 13, offset: 52399},
+																									pos: position{line: 1612, col: 13, offset: 52337},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1613, col: 14, offset: 52400},
+																											pos:        position{line: 1612, col: 14, offset: 52338},
 																											val:        "[A-Z]",
 																											ranges:     []rune{'A', 'Z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1613, col: 21, offset: 52407},
+																											pos:        position{line: 1612, col: 21, offset: 52345},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -37011,15 +36967,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1615, col: 13, offset: 52527},
+																								pos: position{line: 1614, col: 13, offset: 52465},
 																								run: (*parser).callonListContinuationElement1664,
 																								expr: &seqExpr{
-																									pos: position{line: 1615, col: 13, offset: 52527},
+																									pos: position{line: 1614, col: 13, offset: 52465},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1615, col: 13, offset: 52527},
+																											pos: position{line: 1614, col: 13, offset: 52465},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1615, col: 14, offset: 52528},
+																												pos:        position{line: 1614, col: 14, offset: 52466},
 																												val:        "[ivxdlcm]",
 																												chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																												ignoreCase: false,
@@ -37027,7 +36983,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1615, col: 26, offset: 52540},
+																											pos:        position{line: 1614, col: 26, offset: 52478},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -37036,15 +36992,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1617, col: 13, offset: 52660},
+																								pos: position{line: 1616, col: 13, offset: 52598},
 																								run: (*parser).callonListContinuationElement1669,
 																								expr: &seqExpr{
-																									pos: position{line: 1617, col: 13, offset: 52660},
+																									pos: position{line: 1616, col: 13, offset: 52598},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1617, col: 13, offset: 52660},
+																											pos: position{line: 1616, col: 13, offset: 52598},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1617, col: 14, offset: 52661},
+																												pos:        position{line: 1616, col: 14, offset: 52599},
 																												val:        "[IVXDLCM]",
 																												chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																												ignoreCase: false,
@@ -37052,7 +37008,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1617, col: 26, offset: 52673},
+																											pos:        position{line: 1616, col: 26, offset: 52611},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -37064,12 +37020,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2877, col: 11, offset: 91023},
+																					pos: position{line: 2876, col: 11, offset: 90961},
 																					run: (*parser).callonListContinuationElement1674,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2877, col: 11, offset: 91023},
+																						pos: position{line: 2876, col: 11, offset: 90961},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2877, col: 11, offset: 91023},
+																							pos:        position{line: 2876, col: 11, offset: 90961},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37082,20 +37038,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1515, col: 5, offset: 49263},
+																	pos: position{line: 1514, col: 5, offset: 49201},
 																	expr: &actionExpr{
-																		pos: position{line: 1634, col: 5, offset: 53212},
+																		pos: position{line: 1633, col: 5, offset: 53150},
 																		run: (*parser).callonListContinuationElement1678,
 																		expr: &seqExpr{
-																			pos: position{line: 1634, col: 5, offset: 53212},
+																			pos: position{line: 1633, col: 5, offset: 53150},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1634, col: 5, offset: 53212},
+																					pos: position{line: 1633, col: 5, offset: 53150},
 																					expr: &actionExpr{
-																						pos: position{line: 2873, col: 10, offset: 90962},
+																						pos: position{line: 2872, col: 10, offset: 90900},
 																						run: (*parser).callonListContinuationElement1681,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2873, col: 10, offset: 90962},
+																							pos:        position{line: 2872, col: 10, offset: 90900},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37104,24 +37060,24 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1635, col: 5, offset: 53224},
+																					pos:   position{line: 1634, col: 5, offset: 53162},
 																					label: "style",
 																					expr: &actionExpr{
-																						pos: position{line: 1636, col: 9, offset: 53240},
+																						pos: position{line: 1635, col: 9, offset: 53178},
 																						run: (*parser).callonListContinuationElement1684,
 																						expr: &choiceExpr{
-																							pos: position{line: 1636, col: 10, offset: 53241},
+																							pos: position{line: 1635, col: 10, offset: 53179},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1636, col: 11, offset: 53242},
+																									pos:        position{line: 1635, col: 11, offset: 53180},
 																									val:        "-",
 																									ignoreCase: false,
 																									want:       "\"-\"",
 																								},
 																								&oneOrMoreExpr{
-																									pos: position{line: 1636, col: 18, offset: 53249},
+																									pos: position{line: 1635, col: 18, offset: 53187},
 																									expr: &litMatcher{
-																										pos:        position{line: 1636, col: 19, offset: 53250},
+																										pos:        position{line: 1635, col: 19, offset: 53188},
 																										val:        "*",
 																										ignoreCase: false,
 																										want:       "\"*\"",
@@ -37132,16 +37088,16 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1639, col: 7, offset: 53340},
+																					pos: position{line: 1638, col: 7, offset: 53278},
 																					run: (*parser).callonListContinuationElement1689,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2877, col: 11, offset: 91023},
+																					pos: position{line: 2876, col: 11, offset: 90961},
 																					run: (*parser).callonListContinuationElement1690,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2877, col: 11, offset: 91023},
+																						pos: position{line: 2876, col: 11, offset: 90961},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2877, col: 11, offset: 91023},
+																							pos:        position{line: 2876, col: 11, offset: 90961},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37154,29 +37110,29 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1516, col: 5, offset: 49295},
+																	pos: position{line: 1515, col: 5, offset: 49233},
 																	expr: &actionExpr{
-																		pos: position{line: 1724, col: 5, offset: 55781},
+																		pos: position{line: 1723, col: 5, offset: 55719},
 																		run: (*parser).callonListContinuationElement1694,
 																		expr: &seqExpr{
-																			pos: position{line: 1724, col: 5, offset: 55781},
+																			pos: position{line: 1723, col: 5, offset: 55719},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1724, col: 5, offset: 55781},
+																					pos:        position{line: 1723, col: 5, offset: 55719},
 																					val:        "<",
 																					ignoreCase: false,
 																					want:       "\"<\"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1724, col: 9, offset: 55785},
+																					pos:   position{line: 1723, col: 9, offset: 55723},
 																					label: "ref",
 																					expr: &actionExpr{
-																						pos: position{line: 1724, col: 14, offset: 55790},
+																						pos: position{line: 1723, col: 14, offset: 55728},
 																						run: (*parser).callonListContinuationElement1698,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 1724, col: 14, offset: 55790},
+																							pos: position{line: 1723, col: 14, offset: 55728},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1724, col: 14, offset: 55790},
+																								pos:        position{line: 1723, col: 14, offset: 55728},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -37186,18 +37142,18 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 1724, col: 62, offset: 55838},
+																					pos:        position{line: 1723, col: 62, offset: 55776},
 																					val:        ">",
 																					ignoreCase: false,
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2877, col: 11, offset: 91023},
+																					pos: position{line: 2876, col: 11, offset: 90961},
 																					run: (*parser).callonListContinuationElement1702,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2877, col: 11, offset: 91023},
+																						pos: position{line: 2876, col: 11, offset: 90961},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2877, col: 11, offset: 91023},
+																							pos:        position{line: 2876, col: 11, offset: 90961},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37210,31 +37166,31 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1517, col: 5, offset: 49325},
+																	pos: position{line: 1516, col: 5, offset: 49263},
 																	expr: &seqExpr{
-																		pos: position{line: 1517, col: 7, offset: 49327},
+																		pos: position{line: 1516, col: 7, offset: 49265},
 																		exprs: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1669, col: 5, offset: 54231},
+																				pos: position{line: 1668, col: 5, offset: 54169},
 																				run: (*parser).callonListContinuationElement1707,
 																				expr: &seqExpr{
-																					pos: position{line: 1669, col: 5, offset: 54231},
+																					pos: position{line: 1668, col: 5, offset: 54169},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1669, col: 5, offset: 54231},
+																							pos: position{line: 1668, col: 5, offset: 54169},
 																							expr: &seqExpr{
-																								pos: position{line: 2485, col: 31, offset: 80069},
+																								pos: position{line: 2484, col: 31, offset: 80007},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2485, col: 31, offset: 80069},
+																										pos:        position{line: 2484, col: 31, offset: 80007},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2485, col: 36, offset: 80074},
+																										pos: position{line: 2484, col: 36, offset: 80012},
 																										expr: &litMatcher{
-																											pos:        position{line: 2485, col: 37, offset: 80075},
+																											pos:        position{line: 2484, col: 37, offset: 80013},
 																											val:        "//",
 																											ignoreCase: false,
 																											want:       "\"//\"",
@@ -37244,28 +37200,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1670, col: 5, offset: 54263},
+																							pos: position{line: 1669, col: 5, offset: 54201},
 																							expr: &seqExpr{
-																								pos: position{line: 1670, col: 6, offset: 54264},
+																								pos: position{line: 1669, col: 6, offset: 54202},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1670, col: 6, offset: 54264},
+																										pos: position{line: 1669, col: 6, offset: 54202},
 																										expr: &actionExpr{
-																											pos: position{line: 1675, col: 5, offset: 54414},
+																											pos: position{line: 1674, col: 5, offset: 54352},
 																											run: (*parser).callonListContinuationElement1717,
 																											expr: &seqExpr{
-																												pos: position{line: 1675, col: 5, offset: 54414},
+																												pos: position{line: 1674, col: 5, offset: 54352},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1675, col: 5, offset: 54414},
+																														pos:   position{line: 1674, col: 5, offset: 54352},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1675, col: 16, offset: 54425},
+																															pos: position{line: 1674, col: 16, offset: 54363},
 																															run: (*parser).callonListContinuationElement1720,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1675, col: 16, offset: 54425},
+																																pos: position{line: 1674, col: 16, offset: 54363},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1675, col: 17, offset: 54426},
+																																	pos:        position{line: 1674, col: 17, offset: 54364},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -37274,7 +37230,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1678, col: 5, offset: 54483},
+																														pos: position{line: 1677, col: 5, offset: 54421},
 																														run: (*parser).callonListContinuationElement1723,
 																													},
 																												},
@@ -37282,30 +37238,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1670, col: 35, offset: 54293},
+																										pos: position{line: 1669, col: 35, offset: 54231},
 																										expr: &choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91360},
+																											pos: position{line: 2894, col: 8, offset: 91298},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 91133},
+																													pos: position{line: 2881, col: 12, offset: 91071},
 																													run: (*parser).callonListContinuationElement1726,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 91134},
+																														pos: position{line: 2881, col: 13, offset: 91072},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 91134},
+																																pos:        position{line: 2881, col: 13, offset: 91072},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 91141},
+																																pos:        position{line: 2881, col: 20, offset: 91079},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 91150},
+																																pos:        position{line: 2881, col: 29, offset: 91088},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37314,16 +37270,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91310},
+																													pos: position{line: 2891, col: 8, offset: 91248},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91311,
+																														line: 2891, col: 9, offset: 91249,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1670, col: 40, offset: 54298,
+																										line: 1669, col: 40, offset: 54236,
 																									},
 																								},
 																							},
@@ -37332,21 +37288,21 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1675, col: 5, offset: 54414},
+																				pos: position{line: 1674, col: 5, offset: 54352},
 																				run: (*parser).callonListContinuationElement1734,
 																				expr: &seqExpr{
-																					pos: position{line: 1675, col: 5, offset: 54414},
+																					pos: position{line: 1674, col: 5, offset: 54352},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1675, col: 5, offset: 54414},
+																							pos:   position{line: 1674, col: 5, offset: 54352},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1675, col: 16, offset: 54425},
+																								pos: position{line: 1674, col: 16, offset: 54363},
 																								run: (*parser).callonListContinuationElement1737,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1675, col: 16, offset: 54425},
+																									pos: position{line: 1674, col: 16, offset: 54363},
 																									expr: &litMatcher{
-																										pos:        position{line: 1675, col: 17, offset: 54426},
+																										pos:        position{line: 1674, col: 17, offset: 54364},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -37355,7 +37311,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1678, col: 5, offset: 54483},
+																							pos: position{line: 1677, col: 5, offset: 54421},
 																							run: (*parser).callonListContinuationElement1740,
 																						},
 																					},
@@ -37365,17 +37321,17 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1518, col: 5, offset: 49383},
+																	pos: position{line: 1517, col: 5, offset: 49321},
 																	expr: &actionExpr{
-																		pos: position{line: 724, col: 5, offset: 23111},
+																		pos: position{line: 723, col: 5, offset: 23049},
 																		run: (*parser).callonListContinuationElement1742,
 																		expr: &seqExpr{
-																			pos: position{line: 724, col: 5, offset: 23111},
+																			pos: position{line: 723, col: 5, offset: 23049},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 724, col: 5, offset: 23111},
+																					pos: position{line: 723, col: 5, offset: 23049},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2763, col: 13, offset: 88036},
+																						pos:        position{line: 2762, col: 13, offset: 87974},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -37383,36 +37339,36 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 725, col: 5, offset: 23141},
+																					pos:   position{line: 724, col: 5, offset: 23079},
 																					label: "delimiter",
 																					expr: &choiceExpr{
-																						pos: position{line: 726, col: 9, offset: 23161},
+																						pos: position{line: 725, col: 9, offset: 23099},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 740, col: 5, offset: 23653},
+																								pos: position{line: 739, col: 5, offset: 23591},
 																								run: (*parser).callonListContinuationElement1748,
 																								expr: &seqExpr{
-																									pos: position{line: 740, col: 5, offset: 23653},
+																									pos: position{line: 739, col: 5, offset: 23591},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 740, col: 5, offset: 23653},
+																											pos:   position{line: 739, col: 5, offset: 23591},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 740, col: 16, offset: 23664},
+																												pos: position{line: 739, col: 16, offset: 23602},
 																												run: (*parser).callonListContinuationElement1751,
 																												expr: &seqExpr{
-																													pos: position{line: 740, col: 16, offset: 23664},
+																													pos: position{line: 739, col: 16, offset: 23602},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 740, col: 16, offset: 23664},
+																															pos:        position{line: 739, col: 16, offset: 23602},
 																															val:        "////",
 																															ignoreCase: false,
 																															want:       "\"////\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 740, col: 23, offset: 23671},
+																															pos: position{line: 739, col: 23, offset: 23609},
 																															expr: &litMatcher{
-																																pos:        position{line: 740, col: 23, offset: 23671},
+																																pos:        position{line: 739, col: 23, offset: 23609},
 																																val:        "/",
 																																ignoreCase: false,
 																																want:       "\"/\"",
@@ -37423,12 +37379,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 742, col: 8, offset: 23755},
+																											pos: position{line: 741, col: 8, offset: 23693},
 																											expr: &actionExpr{
-																												pos: position{line: 2873, col: 10, offset: 90962},
+																												pos: position{line: 2872, col: 10, offset: 90900},
 																												run: (*parser).callonListContinuationElement1757,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2873, col: 10, offset: 90962},
+																													pos:        position{line: 2872, col: 10, offset: 90900},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37437,28 +37393,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91360},
+																											pos: position{line: 2894, col: 8, offset: 91298},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 91133},
+																													pos: position{line: 2881, col: 12, offset: 91071},
 																													run: (*parser).callonListContinuationElement1760,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 91134},
+																														pos: position{line: 2881, col: 13, offset: 91072},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 91134},
+																																pos:        position{line: 2881, col: 13, offset: 91072},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 91141},
+																																pos:        position{line: 2881, col: 20, offset: 91079},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 91150},
+																																pos:        position{line: 2881, col: 29, offset: 91088},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37467,9 +37423,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91310},
+																													pos: position{line: 2891, col: 8, offset: 91248},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91311,
+																														line: 2891, col: 9, offset: 91249,
 																													},
 																												},
 																											},
@@ -37478,30 +37434,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 747, col: 5, offset: 23901},
+																								pos: position{line: 746, col: 5, offset: 23839},
 																								run: (*parser).callonListContinuationElement1767,
 																								expr: &seqExpr{
-																									pos: position{line: 747, col: 5, offset: 23901},
+																									pos: position{line: 746, col: 5, offset: 23839},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 747, col: 5, offset: 23901},
+																											pos:   position{line: 746, col: 5, offset: 23839},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 747, col: 16, offset: 23912},
+																												pos: position{line: 746, col: 16, offset: 23850},
 																												run: (*parser).callonListContinuationElement1770,
 																												expr: &seqExpr{
-																													pos: position{line: 747, col: 16, offset: 23912},
+																													pos: position{line: 746, col: 16, offset: 23850},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 747, col: 16, offset: 23912},
+																															pos:        position{line: 746, col: 16, offset: 23850},
 																															val:        "====",
 																															ignoreCase: false,
 																															want:       "\"====\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 747, col: 23, offset: 23919},
+																															pos: position{line: 746, col: 23, offset: 23857},
 																															expr: &litMatcher{
-																																pos:        position{line: 747, col: 23, offset: 23919},
+																																pos:        position{line: 746, col: 23, offset: 23857},
 																																val:        "=",
 																																ignoreCase: false,
 																																want:       "\"=\"",
@@ -37512,12 +37468,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 749, col: 8, offset: 24003},
+																											pos: position{line: 748, col: 8, offset: 23941},
 																											expr: &actionExpr{
-																												pos: position{line: 2873, col: 10, offset: 90962},
+																												pos: position{line: 2872, col: 10, offset: 90900},
 																												run: (*parser).callonListContinuationElement1776,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2873, col: 10, offset: 90962},
+																													pos:        position{line: 2872, col: 10, offset: 90900},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37526,28 +37482,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91360},
+																											pos: position{line: 2894, col: 8, offset: 91298},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 91133},
+																													pos: position{line: 2881, col: 12, offset: 91071},
 																													run: (*parser).callonListContinuationElement1779,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 91134},
+																														pos: position{line: 2881, col: 13, offset: 91072},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 91134},
+																																pos:        position{line: 2881, col: 13, offset: 91072},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 91141},
+																																pos:        position{line: 2881, col: 20, offset: 91079},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 91150},
+																																pos:        position{line: 2881, col: 29, offset: 91088},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37556,9 +37512,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91310},
+																													pos: position{line: 2891, col: 8, offset: 91248},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91311,
+																														line: 2891, col: 9, offset: 91249,
 																													},
 																												},
 																											},
@@ -37567,27 +37523,27 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 760, col: 26, offset: 24389},
+																								pos: position{line: 759, col: 26, offset: 24327},
 																								run: (*parser).callonListContinuationElement1786,
 																								expr: &seqExpr{
-																									pos: position{line: 760, col: 26, offset: 24389},
+																									pos: position{line: 759, col: 26, offset: 24327},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 760, col: 26, offset: 24389},
+																											pos:        position{line: 759, col: 26, offset: 24327},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 760, col: 32, offset: 24395},
+																											pos:   position{line: 759, col: 32, offset: 24333},
 																											label: "language",
 																											expr: &actionExpr{
-																												pos: position{line: 764, col: 13, offset: 24525},
+																												pos: position{line: 763, col: 13, offset: 24463},
 																												run: (*parser).callonListContinuationElement1790,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 764, col: 14, offset: 24526},
+																													pos: position{line: 763, col: 14, offset: 24464},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 764, col: 14, offset: 24526},
+																														pos:        position{line: 763, col: 14, offset: 24464},
 																														val:        "[^\\r\\n`\\t ]",
 																														chars:      []rune{'\r', '\n', '`', '\t', ' '},
 																														ignoreCase: false,
@@ -37597,12 +37553,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 760, col: 52, offset: 24415},
+																											pos: position{line: 759, col: 52, offset: 24353},
 																											expr: &actionExpr{
-																												pos: position{line: 2873, col: 10, offset: 90962},
+																												pos: position{line: 2872, col: 10, offset: 90900},
 																												run: (*parser).callonListContinuationElement1794,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2873, col: 10, offset: 90962},
+																													pos:        position{line: 2872, col: 10, offset: 90900},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37611,28 +37567,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91360},
+																											pos: position{line: 2894, col: 8, offset: 91298},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 91133},
+																													pos: position{line: 2881, col: 12, offset: 91071},
 																													run: (*parser).callonListContinuationElement1797,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 91134},
+																														pos: position{line: 2881, col: 13, offset: 91072},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 91134},
+																																pos:        position{line: 2881, col: 13, offset: 91072},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 91141},
+																																pos:        position{line: 2881, col: 20, offset: 91079},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 91150},
+																																pos:        position{line: 2881, col: 29, offset: 91088},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37641,9 +37597,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91310},
+																													pos: position{line: 2891, col: 8, offset: 91248},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91311,
+																														line: 2891, col: 9, offset: 91249,
 																													},
 																												},
 																											},
@@ -37652,30 +37608,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 754, col: 5, offset: 24148},
+																								pos: position{line: 753, col: 5, offset: 24086},
 																								run: (*parser).callonListContinuationElement1804,
 																								expr: &seqExpr{
-																									pos: position{line: 754, col: 5, offset: 24148},
+																									pos: position{line: 753, col: 5, offset: 24086},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 754, col: 5, offset: 24148},
+																											pos:   position{line: 753, col: 5, offset: 24086},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 754, col: 16, offset: 24159},
+																												pos: position{line: 753, col: 16, offset: 24097},
 																												run: (*parser).callonListContinuationElement1807,
 																												expr: &seqExpr{
-																													pos: position{line: 754, col: 16, offset: 24159},
+																													pos: position{line: 753, col: 16, offset: 24097},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 754, col: 16, offset: 24159},
+																															pos:        position{line: 753, col: 16, offset: 24097},
 																															val:        "```",
 																															ignoreCase: false,
 																															want:       "\"```\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 754, col: 22, offset: 24165},
+																															pos: position{line: 753, col: 22, offset: 24103},
 																															expr: &litMatcher{
-																																pos:        position{line: 754, col: 22, offset: 24165},
+																																pos:        position{line: 753, col: 22, offset: 24103},
 																																val:        "`",
 																																ignoreCase: false,
 																																want:       "\"`\"",
@@ -37686,12 +37642,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 756, col: 8, offset: 24249},
+																											pos: position{line: 755, col: 8, offset: 24187},
 																											expr: &actionExpr{
-																												pos: position{line: 2873, col: 10, offset: 90962},
+																												pos: position{line: 2872, col: 10, offset: 90900},
 																												run: (*parser).callonListContinuationElement1813,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2873, col: 10, offset: 90962},
+																													pos:        position{line: 2872, col: 10, offset: 90900},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37700,28 +37656,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91360},
+																											pos: position{line: 2894, col: 8, offset: 91298},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 91133},
+																													pos: position{line: 2881, col: 12, offset: 91071},
 																													run: (*parser).callonListContinuationElement1816,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 91134},
+																														pos: position{line: 2881, col: 13, offset: 91072},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 91134},
+																																pos:        position{line: 2881, col: 13, offset: 91072},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 91141},
+																																pos:        position{line: 2881, col: 20, offset: 91079},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 91150},
+																																pos:        position{line: 2881, col: 29, offset: 91088},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37730,9 +37686,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91310},
+																													pos: position{line: 2891, col: 8, offset: 91248},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91311,
+																														line: 2891, col: 9, offset: 91249,
 																													},
 																												},
 																											},
@@ -37741,30 +37697,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 769, col: 5, offset: 24690},
+																								pos: position{line: 768, col: 5, offset: 24628},
 																								run: (*parser).callonListContinuationElement1823,
 																								expr: &seqExpr{
-																									pos: position{line: 769, col: 5, offset: 24690},
+																									pos: position{line: 768, col: 5, offset: 24628},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 769, col: 5, offset: 24690},
+																											pos:   position{line: 768, col: 5, offset: 24628},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 769, col: 16, offset: 24701},
+																												pos: position{line: 768, col: 16, offset: 24639},
 																												run: (*parser).callonListContinuationElement1826,
 																												expr: &seqExpr{
-																													pos: position{line: 769, col: 16, offset: 24701},
+																													pos: position{line: 768, col: 16, offset: 24639},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 769, col: 16, offset: 24701},
+																															pos:        position{line: 768, col: 16, offset: 24639},
 																															val:        "----",
 																															ignoreCase: false,
 																															want:       "\"----\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 769, col: 23, offset: 24708},
+																															pos: position{line: 768, col: 23, offset: 24646},
 																															expr: &litMatcher{
-																																pos:        position{line: 769, col: 23, offset: 24708},
+																																pos:        position{line: 768, col: 23, offset: 24646},
 																																val:        "-",
 																																ignoreCase: false,
 																																want:       "\"-\"",
@@ -37775,12 +37731,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 771, col: 8, offset: 24792},
+																											pos: position{line: 770, col: 8, offset: 24730},
 																											expr: &actionExpr{
-																												pos: position{line: 2873, col: 10, offset: 90962},
+																												pos: position{line: 2872, col: 10, offset: 90900},
 																												run: (*parser).callonListContinuationElement1832,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2873, col: 10, offset: 90962},
+																													pos:        position{line: 2872, col: 10, offset: 90900},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37789,28 +37745,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91360},
+																											pos: position{line: 2894, col: 8, offset: 91298},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 91133},
+																													pos: position{line: 2881, col: 12, offset: 91071},
 																													run: (*parser).callonListContinuationElement1835,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 91134},
+																														pos: position{line: 2881, col: 13, offset: 91072},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 91134},
+																																pos:        position{line: 2881, col: 13, offset: 91072},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 91141},
+																																pos:        position{line: 2881, col: 20, offset: 91079},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 91150},
+																																pos:        position{line: 2881, col: 29, offset: 91088},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37819,9 +37775,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91310},
+																													pos: position{line: 2891, col: 8, offset: 91248},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91311,
+																														line: 2891, col: 9, offset: 91249,
 																													},
 																												},
 																											},
@@ -37830,30 +37786,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 783, col: 5, offset: 25166},
+																								pos: position{line: 782, col: 5, offset: 25104},
 																								run: (*parser).callonListContinuationElement1842,
 																								expr: &seqExpr{
-																									pos: position{line: 783, col: 5, offset: 25166},
+																									pos: position{line: 782, col: 5, offset: 25104},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 783, col: 5, offset: 25166},
+																											pos:   position{line: 782, col: 5, offset: 25104},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 783, col: 16, offset: 25177},
+																												pos: position{line: 782, col: 16, offset: 25115},
 																												run: (*parser).callonListContinuationElement1845,
 																												expr: &seqExpr{
-																													pos: position{line: 783, col: 16, offset: 25177},
+																													pos: position{line: 782, col: 16, offset: 25115},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 783, col: 16, offset: 25177},
+																															pos:        position{line: 782, col: 16, offset: 25115},
 																															val:        "....",
 																															ignoreCase: false,
 																															want:       "\"....\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 783, col: 23, offset: 25184},
+																															pos: position{line: 782, col: 23, offset: 25122},
 																															expr: &litMatcher{
-																																pos:        position{line: 783, col: 23, offset: 25184},
+																																pos:        position{line: 782, col: 23, offset: 25122},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -37864,12 +37820,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 785, col: 8, offset: 25268},
+																											pos: position{line: 784, col: 8, offset: 25206},
 																											expr: &actionExpr{
-																												pos: position{line: 2873, col: 10, offset: 90962},
+																												pos: position{line: 2872, col: 10, offset: 90900},
 																												run: (*parser).callonListContinuationElement1851,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2873, col: 10, offset: 90962},
+																													pos:        position{line: 2872, col: 10, offset: 90900},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37878,28 +37834,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91360},
+																											pos: position{line: 2894, col: 8, offset: 91298},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 91133},
+																													pos: position{line: 2881, col: 12, offset: 91071},
 																													run: (*parser).callonListContinuationElement1854,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 91134},
+																														pos: position{line: 2881, col: 13, offset: 91072},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 91134},
+																																pos:        position{line: 2881, col: 13, offset: 91072},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 91141},
+																																pos:        position{line: 2881, col: 20, offset: 91079},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 91150},
+																																pos:        position{line: 2881, col: 29, offset: 91088},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37908,9 +37864,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91310},
+																													pos: position{line: 2891, col: 8, offset: 91248},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91311,
+																														line: 2891, col: 9, offset: 91249,
 																													},
 																												},
 																											},
@@ -37919,30 +37875,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 790, col: 5, offset: 25418},
+																								pos: position{line: 789, col: 5, offset: 25356},
 																								run: (*parser).callonListContinuationElement1861,
 																								expr: &seqExpr{
-																									pos: position{line: 790, col: 5, offset: 25418},
+																									pos: position{line: 789, col: 5, offset: 25356},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 790, col: 5, offset: 25418},
+																											pos:   position{line: 789, col: 5, offset: 25356},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 790, col: 16, offset: 25429},
+																												pos: position{line: 789, col: 16, offset: 25367},
 																												run: (*parser).callonListContinuationElement1864,
 																												expr: &seqExpr{
-																													pos: position{line: 790, col: 16, offset: 25429},
+																													pos: position{line: 789, col: 16, offset: 25367},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 790, col: 16, offset: 25429},
+																															pos:        position{line: 789, col: 16, offset: 25367},
 																															val:        "++++",
 																															ignoreCase: false,
 																															want:       "\"++++\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 790, col: 23, offset: 25436},
+																															pos: position{line: 789, col: 23, offset: 25374},
 																															expr: &litMatcher{
-																																pos:        position{line: 790, col: 23, offset: 25436},
+																																pos:        position{line: 789, col: 23, offset: 25374},
 																																val:        "+",
 																																ignoreCase: false,
 																																want:       "\"+\"",
@@ -37953,12 +37909,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 792, col: 8, offset: 25520},
+																											pos: position{line: 791, col: 8, offset: 25458},
 																											expr: &actionExpr{
-																												pos: position{line: 2873, col: 10, offset: 90962},
+																												pos: position{line: 2872, col: 10, offset: 90900},
 																												run: (*parser).callonListContinuationElement1870,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2873, col: 10, offset: 90962},
+																													pos:        position{line: 2872, col: 10, offset: 90900},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37967,28 +37923,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91360},
+																											pos: position{line: 2894, col: 8, offset: 91298},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 91133},
+																													pos: position{line: 2881, col: 12, offset: 91071},
 																													run: (*parser).callonListContinuationElement1873,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 91134},
+																														pos: position{line: 2881, col: 13, offset: 91072},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 91134},
+																																pos:        position{line: 2881, col: 13, offset: 91072},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 91141},
+																																pos:        position{line: 2881, col: 20, offset: 91079},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 91150},
+																																pos:        position{line: 2881, col: 29, offset: 91088},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37997,9 +37953,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91310},
+																													pos: position{line: 2891, col: 8, offset: 91248},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91311,
+																														line: 2891, col: 9, offset: 91249,
 																													},
 																												},
 																											},
@@ -38008,30 +37964,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 797, col: 5, offset: 25668},
+																								pos: position{line: 796, col: 5, offset: 25606},
 																								run: (*parser).callonListContinuationElement1880,
 																								expr: &seqExpr{
-																									pos: position{line: 797, col: 5, offset: 25668},
+																									pos: position{line: 796, col: 5, offset: 25606},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 797, col: 5, offset: 25668},
+																											pos:   position{line: 796, col: 5, offset: 25606},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 797, col: 16, offset: 25679},
+																												pos: position{line: 796, col: 16, offset: 25617},
 																												run: (*parser).callonListContinuationElement1883,
 																												expr: &seqExpr{
-																													pos: position{line: 797, col: 16, offset: 25679},
+																													pos: position{line: 796, col: 16, offset: 25617},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 797, col: 16, offset: 25679},
+																															pos:        position{line: 796, col: 16, offset: 25617},
 																															val:        "____",
 																															ignoreCase: false,
 																															want:       "\"____\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 797, col: 23, offset: 25686},
+																															pos: position{line: 796, col: 23, offset: 25624},
 																															expr: &litMatcher{
-																																pos:        position{line: 797, col: 23, offset: 25686},
+																																pos:        position{line: 796, col: 23, offset: 25624},
 																																val:        "_",
 																																ignoreCase: false,
 																																want:       "\"_\"",
@@ -38042,12 +37998,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 799, col: 8, offset: 25770},
+																											pos: position{line: 798, col: 8, offset: 25708},
 																											expr: &actionExpr{
-																												pos: position{line: 2873, col: 10, offset: 90962},
+																												pos: position{line: 2872, col: 10, offset: 90900},
 																												run: (*parser).callonListContinuationElement1889,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2873, col: 10, offset: 90962},
+																													pos:        position{line: 2872, col: 10, offset: 90900},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38056,28 +38012,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91360},
+																											pos: position{line: 2894, col: 8, offset: 91298},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 91133},
+																													pos: position{line: 2881, col: 12, offset: 91071},
 																													run: (*parser).callonListContinuationElement1892,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 91134},
+																														pos: position{line: 2881, col: 13, offset: 91072},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 91134},
+																																pos:        position{line: 2881, col: 13, offset: 91072},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 91141},
+																																pos:        position{line: 2881, col: 20, offset: 91079},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 91150},
+																																pos:        position{line: 2881, col: 29, offset: 91088},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38086,9 +38042,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91310},
+																													pos: position{line: 2891, col: 8, offset: 91248},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91311,
+																														line: 2891, col: 9, offset: 91249,
 																													},
 																												},
 																											},
@@ -38097,30 +38053,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 804, col: 5, offset: 25914},
+																								pos: position{line: 803, col: 5, offset: 25852},
 																								run: (*parser).callonListContinuationElement1899,
 																								expr: &seqExpr{
-																									pos: position{line: 804, col: 5, offset: 25914},
+																									pos: position{line: 803, col: 5, offset: 25852},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 804, col: 5, offset: 25914},
+																											pos:   position{line: 803, col: 5, offset: 25852},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 804, col: 16, offset: 25925},
+																												pos: position{line: 803, col: 16, offset: 25863},
 																												run: (*parser).callonListContinuationElement1902,
 																												expr: &seqExpr{
-																													pos: position{line: 804, col: 16, offset: 25925},
+																													pos: position{line: 803, col: 16, offset: 25863},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 804, col: 16, offset: 25925},
+																															pos:        position{line: 803, col: 16, offset: 25863},
 																															val:        "****",
 																															ignoreCase: false,
 																															want:       "\"****\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 804, col: 23, offset: 25932},
+																															pos: position{line: 803, col: 23, offset: 25870},
 																															expr: &litMatcher{
-																																pos:        position{line: 804, col: 23, offset: 25932},
+																																pos:        position{line: 803, col: 23, offset: 25870},
 																																val:        "*",
 																																ignoreCase: false,
 																																want:       "\"*\"",
@@ -38131,12 +38087,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 806, col: 8, offset: 26016},
+																											pos: position{line: 805, col: 8, offset: 25954},
 																											expr: &actionExpr{
-																												pos: position{line: 2873, col: 10, offset: 90962},
+																												pos: position{line: 2872, col: 10, offset: 90900},
 																												run: (*parser).callonListContinuationElement1908,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2873, col: 10, offset: 90962},
+																													pos:        position{line: 2872, col: 10, offset: 90900},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38145,28 +38101,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2895, col: 8, offset: 91360},
+																											pos: position{line: 2894, col: 8, offset: 91298},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2882, col: 12, offset: 91133},
+																													pos: position{line: 2881, col: 12, offset: 91071},
 																													run: (*parser).callonListContinuationElement1911,
 																													expr: &choiceExpr{
-																														pos: position{line: 2882, col: 13, offset: 91134},
+																														pos: position{line: 2881, col: 13, offset: 91072},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 13, offset: 91134},
+																																pos:        position{line: 2881, col: 13, offset: 91072},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 20, offset: 91141},
+																																pos:        position{line: 2881, col: 20, offset: 91079},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2882, col: 29, offset: 91150},
+																																pos:        position{line: 2881, col: 29, offset: 91088},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38175,9 +38131,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2892, col: 8, offset: 91310},
+																													pos: position{line: 2891, col: 8, offset: 91248},
 																													expr: &anyMatcher{
-																														line: 2892, col: 9, offset: 91311,
+																														line: 2891, col: 9, offset: 91249,
 																													},
 																												},
 																											},
@@ -38193,15 +38149,15 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1519, col: 5, offset: 49403},
+																	pos:   position{line: 1518, col: 5, offset: 49341},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2823, col: 14, offset: 89555},
+																		pos: position{line: 2822, col: 14, offset: 89493},
 																		run: (*parser).callonListContinuationElement1919,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2823, col: 14, offset: 89555},
+																			pos: position{line: 2822, col: 14, offset: 89493},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2823, col: 14, offset: 89555},
+																				pos:        position{line: 2822, col: 14, offset: 89493},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -38211,28 +38167,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91360},
+																	pos: position{line: 2894, col: 8, offset: 91298},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91133},
+																			pos: position{line: 2881, col: 12, offset: 91071},
 																			run: (*parser).callonListContinuationElement1923,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91134},
+																				pos: position{line: 2881, col: 13, offset: 91072},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91134},
+																						pos:        position{line: 2881, col: 13, offset: 91072},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91141},
+																						pos:        position{line: 2881, col: 20, offset: 91079},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91150},
+																						pos:        position{line: 2881, col: 29, offset: 91088},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -38241,9 +38197,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91310},
+																			pos: position{line: 2891, col: 8, offset: 91248},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91311,
+																				line: 2891, col: 9, offset: 91249,
 																			},
 																		},
 																	},
@@ -38264,33 +38220,33 @@ var g = &grammar{
 		},
 		{
 			name: "Callout",
-			pos:  position{line: 1708, col: 1, offset: 55275},
+			pos:  position{line: 1707, col: 1, offset: 55213},
 			expr: &actionExpr{
-				pos: position{line: 1710, col: 5, offset: 55353},
+				pos: position{line: 1709, col: 5, offset: 55291},
 				run: (*parser).callonCallout1,
 				expr: &seqExpr{
-					pos: position{line: 1710, col: 5, offset: 55353},
+					pos: position{line: 1709, col: 5, offset: 55291},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1710, col: 5, offset: 55353},
+							pos: position{line: 1709, col: 5, offset: 55291},
 							run: (*parser).callonCallout3,
 						},
 						&litMatcher{
-							pos:        position{line: 1713, col: 5, offset: 55420},
+							pos:        position{line: 1712, col: 5, offset: 55358},
 							val:        "<",
 							ignoreCase: false,
 							want:       "\"<\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1713, col: 9, offset: 55424},
+							pos:   position{line: 1712, col: 9, offset: 55362},
 							label: "ref",
 							expr: &actionExpr{
-								pos: position{line: 1713, col: 14, offset: 55429},
+								pos: position{line: 1712, col: 14, offset: 55367},
 								run: (*parser).callonCallout6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1713, col: 14, offset: 55429},
+									pos: position{line: 1712, col: 14, offset: 55367},
 									expr: &charClassMatcher{
-										pos:        position{line: 1713, col: 14, offset: 55429},
+										pos:        position{line: 1712, col: 14, offset: 55367},
 										val:        "[0-9]",
 										ranges:     []rune{'0', '9'},
 										ignoreCase: false,
@@ -38300,18 +38256,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1713, col: 62, offset: 55477},
+							pos:        position{line: 1712, col: 62, offset: 55415},
 							val:        ">",
 							ignoreCase: false,
 							want:       "\">\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1713, col: 66, offset: 55481},
+							pos: position{line: 1712, col: 66, offset: 55419},
 							expr: &actionExpr{
-								pos: position{line: 2873, col: 10, offset: 90962},
+								pos: position{line: 2872, col: 10, offset: 90900},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2873, col: 10, offset: 90962},
+									pos:        position{line: 2872, col: 10, offset: 90900},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -38320,30 +38276,30 @@ var g = &grammar{
 							},
 						},
 						&andExpr{
-							pos: position{line: 1713, col: 73, offset: 55488},
+							pos: position{line: 1712, col: 73, offset: 55426},
 							expr: &choiceExpr{
-								pos: position{line: 1713, col: 75, offset: 55490},
+								pos: position{line: 1712, col: 75, offset: 55428},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2882, col: 12, offset: 91133},
+										pos: position{line: 2881, col: 12, offset: 91071},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2882, col: 13, offset: 91134},
+											pos: position{line: 2881, col: 13, offset: 91072},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2882, col: 13, offset: 91134},
+													pos:        position{line: 2881, col: 13, offset: 91072},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2882, col: 20, offset: 91141},
+													pos:        position{line: 2881, col: 20, offset: 91079},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2882, col: 29, offset: 91150},
+													pos:        position{line: 2881, col: 29, offset: 91088},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -38352,13 +38308,13 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2892, col: 8, offset: 91310},
+										pos: position{line: 2891, col: 8, offset: 91248},
 										expr: &anyMatcher{
-											line: 2892, col: 9, offset: 91311,
+											line: 2891, col: 9, offset: 91249,
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1713, col: 81, offset: 55496},
+										pos:  position{line: 1712, col: 81, offset: 55434},
 										name: "Callout",
 									},
 								},
@@ -38370,44 +38326,44 @@ var g = &grammar{
 		},
 		{
 			name: "ShortcutParagraph",
-			pos:  position{line: 1752, col: 1, offset: 56673},
+			pos:  position{line: 1751, col: 1, offset: 56611},
 			expr: &actionExpr{
-				pos: position{line: 1754, col: 5, offset: 56747},
+				pos: position{line: 1753, col: 5, offset: 56685},
 				run: (*parser).callonShortcutParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1754, col: 5, offset: 56747},
+					pos: position{line: 1753, col: 5, offset: 56685},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 1754, col: 5, offset: 56747},
+							pos: position{line: 1753, col: 5, offset: 56685},
 							expr: &seqExpr{
-								pos: position{line: 1754, col: 7, offset: 56749},
+								pos: position{line: 1753, col: 7, offset: 56687},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2763, col: 13, offset: 88036},
+										pos:        position{line: 2762, col: 13, offset: 87974},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
 										inverted:   false,
 									},
 									&notExpr{
-										pos: position{line: 1754, col: 16, offset: 56758},
+										pos: position{line: 1753, col: 16, offset: 56696},
 										expr: &seqExpr{
-											pos: position{line: 1754, col: 18, offset: 56760},
+											pos: position{line: 1753, col: 18, offset: 56698},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 1754, col: 19, offset: 56761},
+													pos:        position{line: 1753, col: 19, offset: 56699},
 													val:        "[.)]",
 													chars:      []rune{'.', ')'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2877, col: 11, offset: 91023},
+													pos: position{line: 2876, col: 11, offset: 90961},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2877, col: 11, offset: 91023},
+														pos: position{line: 2876, col: 11, offset: 90961},
 														expr: &charClassMatcher{
-															pos:        position{line: 2877, col: 11, offset: 91023},
+															pos:        position{line: 2876, col: 11, offset: 90961},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -38422,88 +38378,88 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1755, col: 5, offset: 56901},
+							pos:   position{line: 1754, col: 5, offset: 56839},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1755, col: 11, offset: 56907},
+								pos: position{line: 1754, col: 11, offset: 56845},
 								expr: &actionExpr{
-									pos: position{line: 1733, col: 5, offset: 56166},
+									pos: position{line: 1732, col: 5, offset: 56104},
 									run: (*parser).callonShortcutParagraph14,
 									expr: &seqExpr{
-										pos: position{line: 1733, col: 5, offset: 56166},
+										pos: position{line: 1732, col: 5, offset: 56104},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1733, col: 5, offset: 56166},
+												pos: position{line: 1732, col: 5, offset: 56104},
 												run: (*parser).callonShortcutParagraph16,
 											},
 											&labeledExpr{
-												pos:   position{line: 1736, col: 5, offset: 56229},
+												pos:   position{line: 1735, col: 5, offset: 56167},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1736, col: 12, offset: 56236},
+													pos: position{line: 1735, col: 12, offset: 56174},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1736, col: 12, offset: 56236},
+															pos: position{line: 1735, col: 12, offset: 56174},
 															run: (*parser).callonShortcutParagraph19,
 															expr: &litMatcher{
-																pos:        position{line: 1736, col: 12, offset: 56236},
+																pos:        position{line: 1735, col: 12, offset: 56174},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1738, col: 13, offset: 56292},
+															pos: position{line: 1737, col: 13, offset: 56230},
 															run: (*parser).callonShortcutParagraph21,
 															expr: &litMatcher{
-																pos:        position{line: 1738, col: 13, offset: 56292},
+																pos:        position{line: 1737, col: 13, offset: 56230},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1740, col: 13, offset: 56350},
+															pos: position{line: 1739, col: 13, offset: 56288},
 															run: (*parser).callonShortcutParagraph23,
 															expr: &litMatcher{
-																pos:        position{line: 1740, col: 13, offset: 56350},
+																pos:        position{line: 1739, col: 13, offset: 56288},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1742, col: 13, offset: 56418},
+															pos: position{line: 1741, col: 13, offset: 56356},
 															run: (*parser).callonShortcutParagraph25,
 															expr: &litMatcher{
-																pos:        position{line: 1742, col: 13, offset: 56418},
+																pos:        position{line: 1741, col: 13, offset: 56356},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1744, col: 13, offset: 56482},
+															pos: position{line: 1743, col: 13, offset: 56420},
 															run: (*parser).callonShortcutParagraph27,
 															expr: &litMatcher{
-																pos:        position{line: 1744, col: 13, offset: 56482},
+																pos:        position{line: 1743, col: 13, offset: 56420},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1746, col: 13, offset: 56546},
+															pos: position{line: 1745, col: 13, offset: 56484},
 															run: (*parser).callonShortcutParagraph29,
 															expr: &andExpr{
-																pos: position{line: 1746, col: 13, offset: 56546},
+																pos: position{line: 1745, col: 13, offset: 56484},
 																expr: &actionExpr{
-																	pos: position{line: 2877, col: 11, offset: 91023},
+																	pos: position{line: 2876, col: 11, offset: 90961},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2877, col: 11, offset: 91023},
+																		pos: position{line: 2876, col: 11, offset: 90961},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 11, offset: 91023},
+																			pos:        position{line: 2876, col: 11, offset: 90961},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -38517,17 +38473,17 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1748, col: 12, offset: 56616},
+												pos: position{line: 1747, col: 12, offset: 56554},
 												expr: &seqExpr{
-													pos: position{line: 1748, col: 14, offset: 56618},
+													pos: position{line: 1747, col: 14, offset: 56556},
 													exprs: []interface{}{
 														&zeroOrMoreExpr{
-															pos: position{line: 1748, col: 14, offset: 56618},
+															pos: position{line: 1747, col: 14, offset: 56556},
 															expr: &actionExpr{
-																pos: position{line: 2873, col: 10, offset: 90962},
+																pos: position{line: 2872, col: 10, offset: 90900},
 																run: (*parser).callonShortcutParagraph37,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2873, col: 10, offset: 90962},
+																	pos:        position{line: 2872, col: 10, offset: 90900},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -38536,28 +38492,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2895, col: 8, offset: 91360},
+															pos: position{line: 2894, col: 8, offset: 91298},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2882, col: 12, offset: 91133},
+																	pos: position{line: 2881, col: 12, offset: 91071},
 																	run: (*parser).callonShortcutParagraph40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2882, col: 13, offset: 91134},
+																		pos: position{line: 2881, col: 13, offset: 91072},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2882, col: 13, offset: 91134},
+																				pos:        position{line: 2881, col: 13, offset: 91072},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2882, col: 20, offset: 91141},
+																				pos:        position{line: 2881, col: 20, offset: 91079},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2882, col: 29, offset: 91150},
+																				pos:        position{line: 2881, col: 29, offset: 91088},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -38566,9 +38522,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2892, col: 8, offset: 91310},
+																	pos: position{line: 2891, col: 8, offset: 91248},
 																	expr: &anyMatcher{
-																		line: 2892, col: 9, offset: 91311,
+																		line: 2891, col: 9, offset: 91249,
 																	},
 																},
 															},
@@ -38582,24 +38538,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1756, col: 5, offset: 56929},
+							pos:   position{line: 1755, col: 5, offset: 56867},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1792, col: 5, offset: 58036},
+								pos: position{line: 1791, col: 5, offset: 57974},
 								run: (*parser).callonShortcutParagraph48,
 								expr: &seqExpr{
-									pos: position{line: 1792, col: 5, offset: 58036},
+									pos: position{line: 1791, col: 5, offset: 57974},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1792, col: 5, offset: 58036},
+											pos:   position{line: 1791, col: 5, offset: 57974},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2823, col: 14, offset: 89555},
+												pos: position{line: 2822, col: 14, offset: 89493},
 												run: (*parser).callonShortcutParagraph51,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2823, col: 14, offset: 89555},
+													pos: position{line: 2822, col: 14, offset: 89493},
 													expr: &charClassMatcher{
-														pos:        position{line: 2823, col: 14, offset: 89555},
+														pos:        position{line: 2822, col: 14, offset: 89493},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -38609,32 +38565,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1793, col: 5, offset: 58060},
+											pos: position{line: 1792, col: 5, offset: 57998},
 											run: (*parser).callonShortcutParagraph54,
 										},
 										&choiceExpr{
-											pos: position{line: 2895, col: 8, offset: 91360},
+											pos: position{line: 2894, col: 8, offset: 91298},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2882, col: 12, offset: 91133},
+													pos: position{line: 2881, col: 12, offset: 91071},
 													run: (*parser).callonShortcutParagraph56,
 													expr: &choiceExpr{
-														pos: position{line: 2882, col: 13, offset: 91134},
+														pos: position{line: 2881, col: 13, offset: 91072},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2882, col: 13, offset: 91134},
+																pos:        position{line: 2881, col: 13, offset: 91072},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2882, col: 20, offset: 91141},
+																pos:        position{line: 2881, col: 20, offset: 91079},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2882, col: 29, offset: 91150},
+																pos:        position{line: 2881, col: 29, offset: 91088},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -38643,9 +38599,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2892, col: 8, offset: 91310},
+													pos: position{line: 2891, col: 8, offset: 91248},
 													expr: &anyMatcher{
-														line: 2892, col: 9, offset: 91311,
+														line: 2891, col: 9, offset: 91249,
 													},
 												},
 											},
@@ -38655,47 +38611,47 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1757, col: 5, offset: 56963},
+							pos: position{line: 1756, col: 5, offset: 56901},
 							run: (*parser).callonShortcutParagraph63,
 						},
 						&labeledExpr{
-							pos:   position{line: 1764, col: 5, offset: 57293},
+							pos:   position{line: 1763, col: 5, offset: 57231},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1764, col: 16, offset: 57304},
+								pos: position{line: 1763, col: 16, offset: 57242},
 								expr: &actionExpr{
-									pos: position{line: 1765, col: 9, offset: 57314},
+									pos: position{line: 1764, col: 9, offset: 57252},
 									run: (*parser).callonShortcutParagraph66,
 									expr: &seqExpr{
-										pos: position{line: 1765, col: 9, offset: 57314},
+										pos: position{line: 1764, col: 9, offset: 57252},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2890, col: 11, offset: 91296},
+												pos: position{line: 2889, col: 11, offset: 91234},
 												expr: &anyMatcher{
-													line: 2890, col: 13, offset: 91298,
+													line: 2889, col: 13, offset: 91236,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1766, col: 9, offset: 57330},
+												pos: position{line: 1765, col: 9, offset: 57268},
 												expr: &actionExpr{
-													pos: position{line: 677, col: 14, offset: 21558},
+													pos: position{line: 676, col: 14, offset: 21496},
 													run: (*parser).callonShortcutParagraph71,
 													expr: &seqExpr{
-														pos: position{line: 677, col: 14, offset: 21558},
+														pos: position{line: 676, col: 14, offset: 21496},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2890, col: 11, offset: 91296},
+																pos: position{line: 2889, col: 11, offset: 91234},
 																expr: &anyMatcher{
-																	line: 2890, col: 13, offset: 91298,
+																	line: 2889, col: 13, offset: 91236,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 677, col: 21, offset: 21565},
+																pos: position{line: 676, col: 21, offset: 21503},
 																expr: &actionExpr{
-																	pos: position{line: 2873, col: 10, offset: 90962},
+																	pos: position{line: 2872, col: 10, offset: 90900},
 																	run: (*parser).callonShortcutParagraph76,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2873, col: 10, offset: 90962},
+																		pos:        position{line: 2872, col: 10, offset: 90900},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -38704,28 +38660,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2895, col: 8, offset: 91360},
+																pos: position{line: 2894, col: 8, offset: 91298},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2882, col: 12, offset: 91133},
+																		pos: position{line: 2881, col: 12, offset: 91071},
 																		run: (*parser).callonShortcutParagraph79,
 																		expr: &choiceExpr{
-																			pos: position{line: 2882, col: 13, offset: 91134},
+																			pos: position{line: 2881, col: 13, offset: 91072},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 13, offset: 91134},
+																					pos:        position{line: 2881, col: 13, offset: 91072},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 20, offset: 91141},
+																					pos:        position{line: 2881, col: 20, offset: 91079},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 29, offset: 91150},
+																					pos:        position{line: 2881, col: 29, offset: 91088},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -38734,9 +38690,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91310},
+																		pos: position{line: 2891, col: 8, offset: 91248},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91311,
+																			line: 2891, col: 9, offset: 91249,
 																		},
 																	},
 																},
@@ -38746,24 +38702,24 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1767, col: 9, offset: 57349},
+												pos: position{line: 1766, col: 9, offset: 57287},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1767, col: 10, offset: 57350},
+													pos:  position{line: 1766, col: 10, offset: 57288},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1768, col: 9, offset: 57374},
+												pos: position{line: 1767, col: 9, offset: 57312},
 												expr: &actionExpr{
-													pos: position{line: 724, col: 5, offset: 23111},
+													pos: position{line: 723, col: 5, offset: 23049},
 													run: (*parser).callonShortcutParagraph89,
 													expr: &seqExpr{
-														pos: position{line: 724, col: 5, offset: 23111},
+														pos: position{line: 723, col: 5, offset: 23049},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 724, col: 5, offset: 23111},
+																pos: position{line: 723, col: 5, offset: 23049},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2763, col: 13, offset: 88036},
+																	pos:        position{line: 2762, col: 13, offset: 87974},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -38771,36 +38727,36 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 725, col: 5, offset: 23141},
+																pos:   position{line: 724, col: 5, offset: 23079},
 																label: "delimiter",
 																expr: &choiceExpr{
-																	pos: position{line: 726, col: 9, offset: 23161},
+																	pos: position{line: 725, col: 9, offset: 23099},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 740, col: 5, offset: 23653},
+																			pos: position{line: 739, col: 5, offset: 23591},
 																			run: (*parser).callonShortcutParagraph95,
 																			expr: &seqExpr{
-																				pos: position{line: 740, col: 5, offset: 23653},
+																				pos: position{line: 739, col: 5, offset: 23591},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 740, col: 5, offset: 23653},
+																						pos:   position{line: 739, col: 5, offset: 23591},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 740, col: 16, offset: 23664},
+																							pos: position{line: 739, col: 16, offset: 23602},
 																							run: (*parser).callonShortcutParagraph98,
 																							expr: &seqExpr{
-																								pos: position{line: 740, col: 16, offset: 23664},
+																								pos: position{line: 739, col: 16, offset: 23602},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 740, col: 16, offset: 23664},
+																										pos:        position{line: 739, col: 16, offset: 23602},
 																										val:        "////",
 																										ignoreCase: false,
 																										want:       "\"////\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 740, col: 23, offset: 23671},
+																										pos: position{line: 739, col: 23, offset: 23609},
 																										expr: &litMatcher{
-																											pos:        position{line: 740, col: 23, offset: 23671},
+																											pos:        position{line: 739, col: 23, offset: 23609},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -38811,12 +38767,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 742, col: 8, offset: 23755},
+																						pos: position{line: 741, col: 8, offset: 23693},
 																						expr: &actionExpr{
-																							pos: position{line: 2873, col: 10, offset: 90962},
+																							pos: position{line: 2872, col: 10, offset: 90900},
 																							run: (*parser).callonShortcutParagraph104,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2873, col: 10, offset: 90962},
+																								pos:        position{line: 2872, col: 10, offset: 90900},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38825,28 +38781,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91360},
+																						pos: position{line: 2894, col: 8, offset: 91298},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 91133},
+																								pos: position{line: 2881, col: 12, offset: 91071},
 																								run: (*parser).callonShortcutParagraph107,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 91134},
+																									pos: position{line: 2881, col: 13, offset: 91072},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 91134},
+																											pos:        position{line: 2881, col: 13, offset: 91072},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 91141},
+																											pos:        position{line: 2881, col: 20, offset: 91079},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 91150},
+																											pos:        position{line: 2881, col: 29, offset: 91088},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38855,9 +38811,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91310},
+																								pos: position{line: 2891, col: 8, offset: 91248},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91311,
+																									line: 2891, col: 9, offset: 91249,
 																								},
 																							},
 																						},
@@ -38866,30 +38822,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 747, col: 5, offset: 23901},
+																			pos: position{line: 746, col: 5, offset: 23839},
 																			run: (*parser).callonShortcutParagraph114,
 																			expr: &seqExpr{
-																				pos: position{line: 747, col: 5, offset: 23901},
+																				pos: position{line: 746, col: 5, offset: 23839},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 747, col: 5, offset: 23901},
+																						pos:   position{line: 746, col: 5, offset: 23839},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 747, col: 16, offset: 23912},
+																							pos: position{line: 746, col: 16, offset: 23850},
 																							run: (*parser).callonShortcutParagraph117,
 																							expr: &seqExpr{
-																								pos: position{line: 747, col: 16, offset: 23912},
+																								pos: position{line: 746, col: 16, offset: 23850},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 747, col: 16, offset: 23912},
+																										pos:        position{line: 746, col: 16, offset: 23850},
 																										val:        "====",
 																										ignoreCase: false,
 																										want:       "\"====\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 747, col: 23, offset: 23919},
+																										pos: position{line: 746, col: 23, offset: 23857},
 																										expr: &litMatcher{
-																											pos:        position{line: 747, col: 23, offset: 23919},
+																											pos:        position{line: 746, col: 23, offset: 23857},
 																											val:        "=",
 																											ignoreCase: false,
 																											want:       "\"=\"",
@@ -38900,12 +38856,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 749, col: 8, offset: 24003},
+																						pos: position{line: 748, col: 8, offset: 23941},
 																						expr: &actionExpr{
-																							pos: position{line: 2873, col: 10, offset: 90962},
+																							pos: position{line: 2872, col: 10, offset: 90900},
 																							run: (*parser).callonShortcutParagraph123,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2873, col: 10, offset: 90962},
+																								pos:        position{line: 2872, col: 10, offset: 90900},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38914,28 +38870,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91360},
+																						pos: position{line: 2894, col: 8, offset: 91298},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 91133},
+																								pos: position{line: 2881, col: 12, offset: 91071},
 																								run: (*parser).callonShortcutParagraph126,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 91134},
+																									pos: position{line: 2881, col: 13, offset: 91072},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 91134},
+																											pos:        position{line: 2881, col: 13, offset: 91072},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 91141},
+																											pos:        position{line: 2881, col: 20, offset: 91079},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 91150},
+																											pos:        position{line: 2881, col: 29, offset: 91088},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38944,9 +38900,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91310},
+																								pos: position{line: 2891, col: 8, offset: 91248},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91311,
+																									line: 2891, col: 9, offset: 91249,
 																								},
 																							},
 																						},
@@ -38955,27 +38911,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 760, col: 26, offset: 24389},
+																			pos: position{line: 759, col: 26, offset: 24327},
 																			run: (*parser).callonShortcutParagraph133,
 																			expr: &seqExpr{
-																				pos: position{line: 760, col: 26, offset: 24389},
+																				pos: position{line: 759, col: 26, offset: 24327},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 760, col: 26, offset: 24389},
+																						pos:        position{line: 759, col: 26, offset: 24327},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 760, col: 32, offset: 24395},
+																						pos:   position{line: 759, col: 32, offset: 24333},
 																						label: "language",
 																						expr: &actionExpr{
-																							pos: position{line: 764, col: 13, offset: 24525},
+																							pos: position{line: 763, col: 13, offset: 24463},
 																							run: (*parser).callonShortcutParagraph137,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 764, col: 14, offset: 24526},
+																								pos: position{line: 763, col: 14, offset: 24464},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 764, col: 14, offset: 24526},
+																									pos:        position{line: 763, col: 14, offset: 24464},
 																									val:        "[^\\r\\n`\\t ]",
 																									chars:      []rune{'\r', '\n', '`', '\t', ' '},
 																									ignoreCase: false,
@@ -38985,12 +38941,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 760, col: 52, offset: 24415},
+																						pos: position{line: 759, col: 52, offset: 24353},
 																						expr: &actionExpr{
-																							pos: position{line: 2873, col: 10, offset: 90962},
+																							pos: position{line: 2872, col: 10, offset: 90900},
 																							run: (*parser).callonShortcutParagraph141,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2873, col: 10, offset: 90962},
+																								pos:        position{line: 2872, col: 10, offset: 90900},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38999,28 +38955,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91360},
+																						pos: position{line: 2894, col: 8, offset: 91298},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 91133},
+																								pos: position{line: 2881, col: 12, offset: 91071},
 																								run: (*parser).callonShortcutParagraph144,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 91134},
+																									pos: position{line: 2881, col: 13, offset: 91072},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 91134},
+																											pos:        position{line: 2881, col: 13, offset: 91072},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 91141},
+																											pos:        position{line: 2881, col: 20, offset: 91079},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 91150},
+																											pos:        position{line: 2881, col: 29, offset: 91088},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39029,9 +38985,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91310},
+																								pos: position{line: 2891, col: 8, offset: 91248},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91311,
+																									line: 2891, col: 9, offset: 91249,
 																								},
 																							},
 																						},
@@ -39040,30 +38996,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 754, col: 5, offset: 24148},
+																			pos: position{line: 753, col: 5, offset: 24086},
 																			run: (*parser).callonShortcutParagraph151,
 																			expr: &seqExpr{
-																				pos: position{line: 754, col: 5, offset: 24148},
+																				pos: position{line: 753, col: 5, offset: 24086},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 754, col: 5, offset: 24148},
+																						pos:   position{line: 753, col: 5, offset: 24086},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 754, col: 16, offset: 24159},
+																							pos: position{line: 753, col: 16, offset: 24097},
 																							run: (*parser).callonShortcutParagraph154,
 																							expr: &seqExpr{
-																								pos: position{line: 754, col: 16, offset: 24159},
+																								pos: position{line: 753, col: 16, offset: 24097},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 754, col: 16, offset: 24159},
+																										pos:        position{line: 753, col: 16, offset: 24097},
 																										val:        "```",
 																										ignoreCase: false,
 																										want:       "\"```\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 754, col: 22, offset: 24165},
+																										pos: position{line: 753, col: 22, offset: 24103},
 																										expr: &litMatcher{
-																											pos:        position{line: 754, col: 22, offset: 24165},
+																											pos:        position{line: 753, col: 22, offset: 24103},
 																											val:        "`",
 																											ignoreCase: false,
 																											want:       "\"`\"",
@@ -39074,12 +39030,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 756, col: 8, offset: 24249},
+																						pos: position{line: 755, col: 8, offset: 24187},
 																						expr: &actionExpr{
-																							pos: position{line: 2873, col: 10, offset: 90962},
+																							pos: position{line: 2872, col: 10, offset: 90900},
 																							run: (*parser).callonShortcutParagraph160,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2873, col: 10, offset: 90962},
+																								pos:        position{line: 2872, col: 10, offset: 90900},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39088,28 +39044,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91360},
+																						pos: position{line: 2894, col: 8, offset: 91298},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 91133},
+																								pos: position{line: 2881, col: 12, offset: 91071},
 																								run: (*parser).callonShortcutParagraph163,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 91134},
+																									pos: position{line: 2881, col: 13, offset: 91072},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 91134},
+																											pos:        position{line: 2881, col: 13, offset: 91072},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 91141},
+																											pos:        position{line: 2881, col: 20, offset: 91079},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 91150},
+																											pos:        position{line: 2881, col: 29, offset: 91088},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39118,9 +39074,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91310},
+																								pos: position{line: 2891, col: 8, offset: 91248},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91311,
+																									line: 2891, col: 9, offset: 91249,
 																								},
 																							},
 																						},
@@ -39129,30 +39085,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 769, col: 5, offset: 24690},
+																			pos: position{line: 768, col: 5, offset: 24628},
 																			run: (*parser).callonShortcutParagraph170,
 																			expr: &seqExpr{
-																				pos: position{line: 769, col: 5, offset: 24690},
+																				pos: position{line: 768, col: 5, offset: 24628},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 769, col: 5, offset: 24690},
+																						pos:   position{line: 768, col: 5, offset: 24628},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 769, col: 16, offset: 24701},
+																							pos: position{line: 768, col: 16, offset: 24639},
 																							run: (*parser).callonShortcutParagraph173,
 																							expr: &seqExpr{
-																								pos: position{line: 769, col: 16, offset: 24701},
+																								pos: position{line: 768, col: 16, offset: 24639},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 769, col: 16, offset: 24701},
+																										pos:        position{line: 768, col: 16, offset: 24639},
 																										val:        "----",
 																										ignoreCase: false,
 																										want:       "\"----\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 769, col: 23, offset: 24708},
+																										pos: position{line: 768, col: 23, offset: 24646},
 																										expr: &litMatcher{
-																											pos:        position{line: 769, col: 23, offset: 24708},
+																											pos:        position{line: 768, col: 23, offset: 24646},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
@@ -39163,12 +39119,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 771, col: 8, offset: 24792},
+																						pos: position{line: 770, col: 8, offset: 24730},
 																						expr: &actionExpr{
-																							pos: position{line: 2873, col: 10, offset: 90962},
+																							pos: position{line: 2872, col: 10, offset: 90900},
 																							run: (*parser).callonShortcutParagraph179,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2873, col: 10, offset: 90962},
+																								pos:        position{line: 2872, col: 10, offset: 90900},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39177,28 +39133,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91360},
+																						pos: position{line: 2894, col: 8, offset: 91298},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 91133},
+																								pos: position{line: 2881, col: 12, offset: 91071},
 																								run: (*parser).callonShortcutParagraph182,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 91134},
+																									pos: position{line: 2881, col: 13, offset: 91072},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 91134},
+																											pos:        position{line: 2881, col: 13, offset: 91072},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 91141},
+																											pos:        position{line: 2881, col: 20, offset: 91079},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 91150},
+																											pos:        position{line: 2881, col: 29, offset: 91088},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39207,9 +39163,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91310},
+																								pos: position{line: 2891, col: 8, offset: 91248},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91311,
+																									line: 2891, col: 9, offset: 91249,
 																								},
 																							},
 																						},
@@ -39218,30 +39174,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 783, col: 5, offset: 25166},
+																			pos: position{line: 782, col: 5, offset: 25104},
 																			run: (*parser).callonShortcutParagraph189,
 																			expr: &seqExpr{
-																				pos: position{line: 783, col: 5, offset: 25166},
+																				pos: position{line: 782, col: 5, offset: 25104},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 783, col: 5, offset: 25166},
+																						pos:   position{line: 782, col: 5, offset: 25104},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 783, col: 16, offset: 25177},
+																							pos: position{line: 782, col: 16, offset: 25115},
 																							run: (*parser).callonShortcutParagraph192,
 																							expr: &seqExpr{
-																								pos: position{line: 783, col: 16, offset: 25177},
+																								pos: position{line: 782, col: 16, offset: 25115},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 783, col: 16, offset: 25177},
+																										pos:        position{line: 782, col: 16, offset: 25115},
 																										val:        "....",
 																										ignoreCase: false,
 																										want:       "\"....\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 783, col: 23, offset: 25184},
+																										pos: position{line: 782, col: 23, offset: 25122},
 																										expr: &litMatcher{
-																											pos:        position{line: 783, col: 23, offset: 25184},
+																											pos:        position{line: 782, col: 23, offset: 25122},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -39252,12 +39208,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 785, col: 8, offset: 25268},
+																						pos: position{line: 784, col: 8, offset: 25206},
 																						expr: &actionExpr{
-																							pos: position{line: 2873, col: 10, offset: 90962},
+																							pos: position{line: 2872, col: 10, offset: 90900},
 																							run: (*parser).callonShortcutParagraph198,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2873, col: 10, offset: 90962},
+																								pos:        position{line: 2872, col: 10, offset: 90900},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39266,28 +39222,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91360},
+																						pos: position{line: 2894, col: 8, offset: 91298},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 91133},
+																								pos: position{line: 2881, col: 12, offset: 91071},
 																								run: (*parser).callonShortcutParagraph201,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 91134},
+																									pos: position{line: 2881, col: 13, offset: 91072},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 91134},
+																											pos:        position{line: 2881, col: 13, offset: 91072},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 91141},
+																											pos:        position{line: 2881, col: 20, offset: 91079},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 91150},
+																											pos:        position{line: 2881, col: 29, offset: 91088},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39296,9 +39252,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91310},
+																								pos: position{line: 2891, col: 8, offset: 91248},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91311,
+																									line: 2891, col: 9, offset: 91249,
 																								},
 																							},
 																						},
@@ -39307,30 +39263,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 790, col: 5, offset: 25418},
+																			pos: position{line: 789, col: 5, offset: 25356},
 																			run: (*parser).callonShortcutParagraph208,
 																			expr: &seqExpr{
-																				pos: position{line: 790, col: 5, offset: 25418},
+																				pos: position{line: 789, col: 5, offset: 25356},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 790, col: 5, offset: 25418},
+																						pos:   position{line: 789, col: 5, offset: 25356},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 790, col: 16, offset: 25429},
+																							pos: position{line: 789, col: 16, offset: 25367},
 																							run: (*parser).callonShortcutParagraph211,
 																							expr: &seqExpr{
-																								pos: position{line: 790, col: 16, offset: 25429},
+																								pos: position{line: 789, col: 16, offset: 25367},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 790, col: 16, offset: 25429},
+																										pos:        position{line: 789, col: 16, offset: 25367},
 																										val:        "++++",
 																										ignoreCase: false,
 																										want:       "\"++++\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 790, col: 23, offset: 25436},
+																										pos: position{line: 789, col: 23, offset: 25374},
 																										expr: &litMatcher{
-																											pos:        position{line: 790, col: 23, offset: 25436},
+																											pos:        position{line: 789, col: 23, offset: 25374},
 																											val:        "+",
 																											ignoreCase: false,
 																											want:       "\"+\"",
@@ -39341,12 +39297,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 792, col: 8, offset: 25520},
+																						pos: position{line: 791, col: 8, offset: 25458},
 																						expr: &actionExpr{
-																							pos: position{line: 2873, col: 10, offset: 90962},
+																							pos: position{line: 2872, col: 10, offset: 90900},
 																							run: (*parser).callonShortcutParagraph217,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2873, col: 10, offset: 90962},
+																								pos:        position{line: 2872, col: 10, offset: 90900},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39355,28 +39311,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91360},
+																						pos: position{line: 2894, col: 8, offset: 91298},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 91133},
+																								pos: position{line: 2881, col: 12, offset: 91071},
 																								run: (*parser).callonShortcutParagraph220,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 91134},
+																									pos: position{line: 2881, col: 13, offset: 91072},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 91134},
+																											pos:        position{line: 2881, col: 13, offset: 91072},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 91141},
+																											pos:        position{line: 2881, col: 20, offset: 91079},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 91150},
+																											pos:        position{line: 2881, col: 29, offset: 91088},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39385,9 +39341,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91310},
+																								pos: position{line: 2891, col: 8, offset: 91248},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91311,
+																									line: 2891, col: 9, offset: 91249,
 																								},
 																							},
 																						},
@@ -39396,30 +39352,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 797, col: 5, offset: 25668},
+																			pos: position{line: 796, col: 5, offset: 25606},
 																			run: (*parser).callonShortcutParagraph227,
 																			expr: &seqExpr{
-																				pos: position{line: 797, col: 5, offset: 25668},
+																				pos: position{line: 796, col: 5, offset: 25606},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 797, col: 5, offset: 25668},
+																						pos:   position{line: 796, col: 5, offset: 25606},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 797, col: 16, offset: 25679},
+																							pos: position{line: 796, col: 16, offset: 25617},
 																							run: (*parser).callonShortcutParagraph230,
 																							expr: &seqExpr{
-																								pos: position{line: 797, col: 16, offset: 25679},
+																								pos: position{line: 796, col: 16, offset: 25617},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 797, col: 16, offset: 25679},
+																										pos:        position{line: 796, col: 16, offset: 25617},
 																										val:        "____",
 																										ignoreCase: false,
 																										want:       "\"____\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 797, col: 23, offset: 25686},
+																										pos: position{line: 796, col: 23, offset: 25624},
 																										expr: &litMatcher{
-																											pos:        position{line: 797, col: 23, offset: 25686},
+																											pos:        position{line: 796, col: 23, offset: 25624},
 																											val:        "_",
 																											ignoreCase: false,
 																											want:       "\"_\"",
@@ -39430,12 +39386,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 799, col: 8, offset: 25770},
+																						pos: position{line: 798, col: 8, offset: 25708},
 																						expr: &actionExpr{
-																							pos: position{line: 2873, col: 10, offset: 90962},
+																							pos: position{line: 2872, col: 10, offset: 90900},
 																							run: (*parser).callonShortcutParagraph236,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2873, col: 10, offset: 90962},
+																								pos:        position{line: 2872, col: 10, offset: 90900},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39444,28 +39400,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91360},
+																						pos: position{line: 2894, col: 8, offset: 91298},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 91133},
+																								pos: position{line: 2881, col: 12, offset: 91071},
 																								run: (*parser).callonShortcutParagraph239,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 91134},
+																									pos: position{line: 2881, col: 13, offset: 91072},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 91134},
+																											pos:        position{line: 2881, col: 13, offset: 91072},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 91141},
+																											pos:        position{line: 2881, col: 20, offset: 91079},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 91150},
+																											pos:        position{line: 2881, col: 29, offset: 91088},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39474,9 +39430,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91310},
+																								pos: position{line: 2891, col: 8, offset: 91248},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91311,
+																									line: 2891, col: 9, offset: 91249,
 																								},
 																							},
 																						},
@@ -39485,30 +39441,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 804, col: 5, offset: 25914},
+																			pos: position{line: 803, col: 5, offset: 25852},
 																			run: (*parser).callonShortcutParagraph246,
 																			expr: &seqExpr{
-																				pos: position{line: 804, col: 5, offset: 25914},
+																				pos: position{line: 803, col: 5, offset: 25852},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 804, col: 5, offset: 25914},
+																						pos:   position{line: 803, col: 5, offset: 25852},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 804, col: 16, offset: 25925},
+																							pos: position{line: 803, col: 16, offset: 25863},
 																							run: (*parser).callonShortcutParagraph249,
 																							expr: &seqExpr{
-																								pos: position{line: 804, col: 16, offset: 25925},
+																								pos: position{line: 803, col: 16, offset: 25863},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 804, col: 16, offset: 25925},
+																										pos:        position{line: 803, col: 16, offset: 25863},
 																										val:        "****",
 																										ignoreCase: false,
 																										want:       "\"****\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 804, col: 23, offset: 25932},
+																										pos: position{line: 803, col: 23, offset: 25870},
 																										expr: &litMatcher{
-																											pos:        position{line: 804, col: 23, offset: 25932},
+																											pos:        position{line: 803, col: 23, offset: 25870},
 																											val:        "*",
 																											ignoreCase: false,
 																											want:       "\"*\"",
@@ -39519,12 +39475,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 806, col: 8, offset: 26016},
+																						pos: position{line: 805, col: 8, offset: 25954},
 																						expr: &actionExpr{
-																							pos: position{line: 2873, col: 10, offset: 90962},
+																							pos: position{line: 2872, col: 10, offset: 90900},
 																							run: (*parser).callonShortcutParagraph255,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2873, col: 10, offset: 90962},
+																								pos:        position{line: 2872, col: 10, offset: 90900},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39533,28 +39489,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2895, col: 8, offset: 91360},
+																						pos: position{line: 2894, col: 8, offset: 91298},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2882, col: 12, offset: 91133},
+																								pos: position{line: 2881, col: 12, offset: 91071},
 																								run: (*parser).callonShortcutParagraph258,
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 13, offset: 91134},
+																									pos: position{line: 2881, col: 13, offset: 91072},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 13, offset: 91134},
+																											pos:        position{line: 2881, col: 13, offset: 91072},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 20, offset: 91141},
+																											pos:        position{line: 2881, col: 20, offset: 91079},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2882, col: 29, offset: 91150},
+																											pos:        position{line: 2881, col: 29, offset: 91088},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39563,9 +39519,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2892, col: 8, offset: 91310},
+																								pos: position{line: 2891, col: 8, offset: 91248},
 																								expr: &anyMatcher{
-																									line: 2892, col: 9, offset: 91311,
+																									line: 2891, col: 9, offset: 91249,
 																								},
 																							},
 																						},
@@ -39581,23 +39537,23 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1769, col: 9, offset: 57398},
+												pos: position{line: 1768, col: 9, offset: 57336},
 												expr: &seqExpr{
-													pos: position{line: 1543, col: 27, offset: 50031},
+													pos: position{line: 1542, col: 27, offset: 49969},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 1543, col: 27, offset: 50031},
+															pos:        position{line: 1542, col: 27, offset: 49969},
 															val:        "+",
 															ignoreCase: false,
 															want:       "\"+\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 1543, col: 31, offset: 50035},
+															pos: position{line: 1542, col: 31, offset: 49973},
 															expr: &actionExpr{
-																pos: position{line: 2873, col: 10, offset: 90962},
+																pos: position{line: 2872, col: 10, offset: 90900},
 																run: (*parser).callonShortcutParagraph269,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2873, col: 10, offset: 90962},
+																	pos:        position{line: 2872, col: 10, offset: 90900},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -39606,25 +39562,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2882, col: 12, offset: 91133},
+															pos: position{line: 2881, col: 12, offset: 91071},
 															run: (*parser).callonShortcutParagraph271,
 															expr: &choiceExpr{
-																pos: position{line: 2882, col: 13, offset: 91134},
+																pos: position{line: 2881, col: 13, offset: 91072},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 13, offset: 91134},
+																		pos:        position{line: 2881, col: 13, offset: 91072},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 20, offset: 91141},
+																		pos:        position{line: 2881, col: 20, offset: 91079},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 29, offset: 91150},
+																		pos:        position{line: 2881, col: 29, offset: 91088},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -39636,42 +39592,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1770, col: 9, offset: 57430},
+												pos:   position{line: 1769, col: 9, offset: 57368},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1770, col: 15, offset: 57436},
+													pos: position{line: 1769, col: 15, offset: 57374},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2480, col: 22, offset: 79848},
+															pos: position{line: 2479, col: 22, offset: 79786},
 															run: (*parser).callonShortcutParagraph278,
 															expr: &seqExpr{
-																pos: position{line: 2480, col: 22, offset: 79848},
+																pos: position{line: 2479, col: 22, offset: 79786},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2485, col: 31, offset: 80069},
+																		pos:        position{line: 2484, col: 31, offset: 80007},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2485, col: 36, offset: 80074},
+																		pos: position{line: 2484, col: 36, offset: 80012},
 																		expr: &litMatcher{
-																			pos:        position{line: 2485, col: 37, offset: 80075},
+																			pos:        position{line: 2484, col: 37, offset: 80013},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2480, col: 49, offset: 79875},
+																		pos:   position{line: 2479, col: 49, offset: 79813},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2819, col: 13, offset: 89488},
+																			pos: position{line: 2818, col: 13, offset: 89426},
 																			run: (*parser).callonShortcutParagraph284,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2819, col: 13, offset: 89488},
+																				pos: position{line: 2818, col: 13, offset: 89426},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2819, col: 13, offset: 89488},
+																					pos:        position{line: 2818, col: 13, offset: 89426},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39681,28 +39637,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91360},
+																		pos: position{line: 2894, col: 8, offset: 91298},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91133},
+																				pos: position{line: 2881, col: 12, offset: 91071},
 																				run: (*parser).callonShortcutParagraph288,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91134},
+																					pos: position{line: 2881, col: 13, offset: 91072},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91134},
+																							pos:        position{line: 2881, col: 13, offset: 91072},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91141},
+																							pos:        position{line: 2881, col: 20, offset: 91079},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91150},
+																							pos:        position{line: 2881, col: 29, offset: 91088},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39711,9 +39667,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91310},
+																				pos: position{line: 2891, col: 8, offset: 91248},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91311,
+																					line: 2891, col: 9, offset: 91249,
 																				},
 																			},
 																		},
@@ -39722,21 +39678,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1792, col: 5, offset: 58036},
+															pos: position{line: 1791, col: 5, offset: 57974},
 															run: (*parser).callonShortcutParagraph295,
 															expr: &seqExpr{
-																pos: position{line: 1792, col: 5, offset: 58036},
+																pos: position{line: 1791, col: 5, offset: 57974},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1792, col: 5, offset: 58036},
+																		pos:   position{line: 1791, col: 5, offset: 57974},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2823, col: 14, offset: 89555},
+																			pos: position{line: 2822, col: 14, offset: 89493},
 																			run: (*parser).callonShortcutParagraph298,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2823, col: 14, offset: 89555},
+																				pos: position{line: 2822, col: 14, offset: 89493},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2823, col: 14, offset: 89555},
+																					pos:        position{line: 2822, col: 14, offset: 89493},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39746,32 +39702,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1793, col: 5, offset: 58060},
+																		pos: position{line: 1792, col: 5, offset: 57998},
 																		run: (*parser).callonShortcutParagraph301,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91360},
+																		pos: position{line: 2894, col: 8, offset: 91298},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91133},
+																				pos: position{line: 2881, col: 12, offset: 91071},
 																				run: (*parser).callonShortcutParagraph303,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91134},
+																					pos: position{line: 2881, col: 13, offset: 91072},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91134},
+																							pos:        position{line: 2881, col: 13, offset: 91072},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91141},
+																							pos:        position{line: 2881, col: 20, offset: 91079},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91150},
+																							pos:        position{line: 2881, col: 29, offset: 91088},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39780,9 +39736,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91310},
+																				pos: position{line: 2891, col: 8, offset: 91248},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91311,
+																					line: 2891, col: 9, offset: 91249,
 																				},
 																			},
 																		},
@@ -39804,96 +39760,96 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraph",
-			pos:  position{line: 1777, col: 1, offset: 57640},
+			pos:  position{line: 1776, col: 1, offset: 57578},
 			expr: &actionExpr{
-				pos: position{line: 1778, col: 5, offset: 57658},
+				pos: position{line: 1777, col: 5, offset: 57596},
 				run: (*parser).callonParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1778, col: 5, offset: 57658},
+					pos: position{line: 1777, col: 5, offset: 57596},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1778, col: 5, offset: 57658},
+							pos:   position{line: 1777, col: 5, offset: 57596},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1778, col: 11, offset: 57664},
+								pos: position{line: 1777, col: 11, offset: 57602},
 								expr: &actionExpr{
-									pos: position{line: 1733, col: 5, offset: 56166},
+									pos: position{line: 1732, col: 5, offset: 56104},
 									run: (*parser).callonParagraph5,
 									expr: &seqExpr{
-										pos: position{line: 1733, col: 5, offset: 56166},
+										pos: position{line: 1732, col: 5, offset: 56104},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1733, col: 5, offset: 56166},
+												pos: position{line: 1732, col: 5, offset: 56104},
 												run: (*parser).callonParagraph7,
 											},
 											&labeledExpr{
-												pos:   position{line: 1736, col: 5, offset: 56229},
+												pos:   position{line: 1735, col: 5, offset: 56167},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1736, col: 12, offset: 56236},
+													pos: position{line: 1735, col: 12, offset: 56174},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1736, col: 12, offset: 56236},
+															pos: position{line: 1735, col: 12, offset: 56174},
 															run: (*parser).callonParagraph10,
 															expr: &litMatcher{
-																pos:        position{line: 1736, col: 12, offset: 56236},
+																pos:        position{line: 1735, col: 12, offset: 56174},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1738, col: 13, offset: 56292},
+															pos: position{line: 1737, col: 13, offset: 56230},
 															run: (*parser).callonParagraph12,
 															expr: &litMatcher{
-																pos:        position{line: 1738, col: 13, offset: 56292},
+																pos:        position{line: 1737, col: 13, offset: 56230},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1740, col: 13, offset: 56350},
+															pos: position{line: 1739, col: 13, offset: 56288},
 															run: (*parser).callonParagraph14,
 															expr: &litMatcher{
-																pos:        position{line: 1740, col: 13, offset: 56350},
+																pos:        position{line: 1739, col: 13, offset: 56288},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1742, col: 13, offset: 56418},
+															pos: position{line: 1741, col: 13, offset: 56356},
 															run: (*parser).callonParagraph16,
 															expr: &litMatcher{
-																pos:        position{line: 1742, col: 13, offset: 56418},
+																pos:        position{line: 1741, col: 13, offset: 56356},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1744, col: 13, offset: 56482},
+															pos: position{line: 1743, col: 13, offset: 56420},
 															run: (*parser).callonParagraph18,
 															expr: &litMatcher{
-																pos:        position{line: 1744, col: 13, offset: 56482},
+																pos:        position{line: 1743, col: 13, offset: 56420},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1746, col: 13, offset: 56546},
+															pos: position{line: 1745, col: 13, offset: 56484},
 															run: (*parser).callonParagraph20,
 															expr: &andExpr{
-																pos: position{line: 1746, col: 13, offset: 56546},
+																pos: position{line: 1745, col: 13, offset: 56484},
 																expr: &actionExpr{
-																	pos: position{line: 2877, col: 11, offset: 91023},
+																	pos: position{line: 2876, col: 11, offset: 90961},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2877, col: 11, offset: 91023},
+																		pos: position{line: 2876, col: 11, offset: 90961},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 11, offset: 91023},
+																			pos:        position{line: 2876, col: 11, offset: 90961},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -39907,17 +39863,17 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1748, col: 12, offset: 56616},
+												pos: position{line: 1747, col: 12, offset: 56554},
 												expr: &seqExpr{
-													pos: position{line: 1748, col: 14, offset: 56618},
+													pos: position{line: 1747, col: 14, offset: 56556},
 													exprs: []interface{}{
 														&zeroOrMoreExpr{
-															pos: position{line: 1748, col: 14, offset: 56618},
+															pos: position{line: 1747, col: 14, offset: 56556},
 															expr: &actionExpr{
-																pos: position{line: 2873, col: 10, offset: 90962},
+																pos: position{line: 2872, col: 10, offset: 90900},
 																run: (*parser).callonParagraph28,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2873, col: 10, offset: 90962},
+																	pos:        position{line: 2872, col: 10, offset: 90900},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -39926,28 +39882,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2895, col: 8, offset: 91360},
+															pos: position{line: 2894, col: 8, offset: 91298},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2882, col: 12, offset: 91133},
+																	pos: position{line: 2881, col: 12, offset: 91071},
 																	run: (*parser).callonParagraph31,
 																	expr: &choiceExpr{
-																		pos: position{line: 2882, col: 13, offset: 91134},
+																		pos: position{line: 2881, col: 13, offset: 91072},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2882, col: 13, offset: 91134},
+																				pos:        position{line: 2881, col: 13, offset: 91072},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2882, col: 20, offset: 91141},
+																				pos:        position{line: 2881, col: 20, offset: 91079},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2882, col: 29, offset: 91150},
+																				pos:        position{line: 2881, col: 29, offset: 91088},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -39956,9 +39912,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2892, col: 8, offset: 91310},
+																	pos: position{line: 2891, col: 8, offset: 91248},
 																	expr: &anyMatcher{
-																		line: 2892, col: 9, offset: 91311,
+																		line: 2891, col: 9, offset: 91249,
 																	},
 																},
 															},
@@ -39972,24 +39928,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1779, col: 5, offset: 57687},
+							pos:   position{line: 1778, col: 5, offset: 57625},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1792, col: 5, offset: 58036},
+								pos: position{line: 1791, col: 5, offset: 57974},
 								run: (*parser).callonParagraph39,
 								expr: &seqExpr{
-									pos: position{line: 1792, col: 5, offset: 58036},
+									pos: position{line: 1791, col: 5, offset: 57974},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1792, col: 5, offset: 58036},
+											pos:   position{line: 1791, col: 5, offset: 57974},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2823, col: 14, offset: 89555},
+												pos: position{line: 2822, col: 14, offset: 89493},
 												run: (*parser).callonParagraph42,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2823, col: 14, offset: 89555},
+													pos: position{line: 2822, col: 14, offset: 89493},
 													expr: &charClassMatcher{
-														pos:        position{line: 2823, col: 14, offset: 89555},
+														pos:        position{line: 2822, col: 14, offset: 89493},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -39999,32 +39955,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1793, col: 5, offset: 58060},
+											pos: position{line: 1792, col: 5, offset: 57998},
 											run: (*parser).callonParagraph45,
 										},
 										&choiceExpr{
-											pos: position{line: 2895, col: 8, offset: 91360},
+											pos: position{line: 2894, col: 8, offset: 91298},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2882, col: 12, offset: 91133},
+													pos: position{line: 2881, col: 12, offset: 91071},
 													run: (*parser).callonParagraph47,
 													expr: &choiceExpr{
-														pos: position{line: 2882, col: 13, offset: 91134},
+														pos: position{line: 2881, col: 13, offset: 91072},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2882, col: 13, offset: 91134},
+																pos:        position{line: 2881, col: 13, offset: 91072},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2882, col: 20, offset: 91141},
+																pos:        position{line: 2881, col: 20, offset: 91079},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2882, col: 29, offset: 91150},
+																pos:        position{line: 2881, col: 29, offset: 91088},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -40033,9 +39989,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2892, col: 8, offset: 91310},
+													pos: position{line: 2891, col: 8, offset: 91248},
 													expr: &anyMatcher{
-														line: 2892, col: 9, offset: 91311,
+														line: 2891, col: 9, offset: 91249,
 													},
 												},
 											},
@@ -40045,43 +40001,43 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1780, col: 5, offset: 57721},
+							pos:   position{line: 1779, col: 5, offset: 57659},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1780, col: 16, offset: 57732},
+								pos: position{line: 1779, col: 16, offset: 57670},
 								expr: &actionExpr{
-									pos: position{line: 1781, col: 9, offset: 57742},
+									pos: position{line: 1780, col: 9, offset: 57680},
 									run: (*parser).callonParagraph56,
 									expr: &seqExpr{
-										pos: position{line: 1781, col: 9, offset: 57742},
+										pos: position{line: 1780, col: 9, offset: 57680},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2890, col: 11, offset: 91296},
+												pos: position{line: 2889, col: 11, offset: 91234},
 												expr: &anyMatcher{
-													line: 2890, col: 13, offset: 91298,
+													line: 2889, col: 13, offset: 91236,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1782, col: 9, offset: 57757},
+												pos: position{line: 1781, col: 9, offset: 57695},
 												expr: &actionExpr{
-													pos: position{line: 677, col: 14, offset: 21558},
+													pos: position{line: 676, col: 14, offset: 21496},
 													run: (*parser).callonParagraph61,
 													expr: &seqExpr{
-														pos: position{line: 677, col: 14, offset: 21558},
+														pos: position{line: 676, col: 14, offset: 21496},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2890, col: 11, offset: 91296},
+																pos: position{line: 2889, col: 11, offset: 91234},
 																expr: &anyMatcher{
-																	line: 2890, col: 13, offset: 91298,
+																	line: 2889, col: 13, offset: 91236,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 677, col: 21, offset: 21565},
+																pos: position{line: 676, col: 21, offset: 21503},
 																expr: &actionExpr{
-																	pos: position{line: 2873, col: 10, offset: 90962},
+																	pos: position{line: 2872, col: 10, offset: 90900},
 																	run: (*parser).callonParagraph66,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2873, col: 10, offset: 90962},
+																		pos:        position{line: 2872, col: 10, offset: 90900},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -40090,28 +40046,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2895, col: 8, offset: 91360},
+																pos: position{line: 2894, col: 8, offset: 91298},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2882, col: 12, offset: 91133},
+																		pos: position{line: 2881, col: 12, offset: 91071},
 																		run: (*parser).callonParagraph69,
 																		expr: &choiceExpr{
-																			pos: position{line: 2882, col: 13, offset: 91134},
+																			pos: position{line: 2881, col: 13, offset: 91072},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 13, offset: 91134},
+																					pos:        position{line: 2881, col: 13, offset: 91072},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 20, offset: 91141},
+																					pos:        position{line: 2881, col: 20, offset: 91079},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2882, col: 29, offset: 91150},
+																					pos:        position{line: 2881, col: 29, offset: 91088},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -40120,9 +40076,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2892, col: 8, offset: 91310},
+																		pos: position{line: 2891, col: 8, offset: 91248},
 																		expr: &anyMatcher{
-																			line: 2892, col: 9, offset: 91311,
+																			line: 2891, col: 9, offset: 91249,
 																		},
 																	},
 																},
@@ -40132,49 +40088,49 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1783, col: 9, offset: 57776},
+												pos: position{line: 1782, col: 9, offset: 57714},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1783, col: 10, offset: 57777},
+													pos:  position{line: 1782, col: 10, offset: 57715},
 													name: "BlockAttributes",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1784, col: 9, offset: 57801},
+												pos:   position{line: 1783, col: 9, offset: 57739},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1784, col: 15, offset: 57807},
+													pos: position{line: 1783, col: 15, offset: 57745},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2480, col: 22, offset: 79848},
+															pos: position{line: 2479, col: 22, offset: 79786},
 															run: (*parser).callonParagraph80,
 															expr: &seqExpr{
-																pos: position{line: 2480, col: 22, offset: 79848},
+																pos: position{line: 2479, col: 22, offset: 79786},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2485, col: 31, offset: 80069},
+																		pos:        position{line: 2484, col: 31, offset: 80007},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2485, col: 36, offset: 80074},
+																		pos: position{line: 2484, col: 36, offset: 80012},
 																		expr: &litMatcher{
-																			pos:        position{line: 2485, col: 37, offset: 80075},
+																			pos:        position{line: 2484, col: 37, offset: 80013},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2480, col: 49, offset: 79875},
+																		pos:   position{line: 2479, col: 49, offset: 79813},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2819, col: 13, offset: 89488},
+																			pos: position{line: 2818, col: 13, offset: 89426},
 																			run: (*parser).callonParagraph86,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2819, col: 13, offset: 89488},
+																				pos: position{line: 2818, col: 13, offset: 89426},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2819, col: 13, offset: 89488},
+																					pos:        position{line: 2818, col: 13, offset: 89426},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40184,28 +40140,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91360},
+																		pos: position{line: 2894, col: 8, offset: 91298},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91133},
+																				pos: position{line: 2881, col: 12, offset: 91071},
 																				run: (*parser).callonParagraph90,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91134},
+																					pos: position{line: 2881, col: 13, offset: 91072},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91134},
+																							pos:        position{line: 2881, col: 13, offset: 91072},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91141},
+																							pos:        position{line: 2881, col: 20, offset: 91079},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91150},
+																							pos:        position{line: 2881, col: 29, offset: 91088},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40214,9 +40170,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91310},
+																				pos: position{line: 2891, col: 8, offset: 91248},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91311,
+																					line: 2891, col: 9, offset: 91249,
 																				},
 																			},
 																		},
@@ -40225,21 +40181,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1792, col: 5, offset: 58036},
+															pos: position{line: 1791, col: 5, offset: 57974},
 															run: (*parser).callonParagraph97,
 															expr: &seqExpr{
-																pos: position{line: 1792, col: 5, offset: 58036},
+																pos: position{line: 1791, col: 5, offset: 57974},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1792, col: 5, offset: 58036},
+																		pos:   position{line: 1791, col: 5, offset: 57974},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2823, col: 14, offset: 89555},
+																			pos: position{line: 2822, col: 14, offset: 89493},
 																			run: (*parser).callonParagraph100,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2823, col: 14, offset: 89555},
+																				pos: position{line: 2822, col: 14, offset: 89493},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2823, col: 14, offset: 89555},
+																					pos:        position{line: 2822, col: 14, offset: 89493},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40249,32 +40205,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1793, col: 5, offset: 58060},
+																		pos: position{line: 1792, col: 5, offset: 57998},
 																		run: (*parser).callonParagraph103,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2895, col: 8, offset: 91360},
+																		pos: position{line: 2894, col: 8, offset: 91298},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91133},
+																				pos: position{line: 2881, col: 12, offset: 91071},
 																				run: (*parser).callonParagraph105,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91134},
+																					pos: position{line: 2881, col: 13, offset: 91072},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91134},
+																							pos:        position{line: 2881, col: 13, offset: 91072},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91141},
+																							pos:        position{line: 2881, col: 20, offset: 91079},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91150},
+																							pos:        position{line: 2881, col: 29, offset: 91088},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40283,9 +40239,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2892, col: 8, offset: 91310},
+																				pos: position{line: 2891, col: 8, offset: 91248},
 																				expr: &anyMatcher{
-																					line: 2892, col: 9, offset: 91311,
+																					line: 2891, col: 9, offset: 91249,
 																				},
 																			},
 																		},
@@ -40307,16 +40263,16 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedText",
-			pos:  position{line: 1803, col: 1, offset: 58542},
+			pos:  position{line: 1802, col: 1, offset: 58480},
 			expr: &choiceExpr{
-				pos: position{line: 1803, col: 15, offset: 58556},
+				pos: position{line: 1802, col: 15, offset: 58494},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1803, col: 15, offset: 58556},
+						pos:  position{line: 1802, col: 15, offset: 58494},
 						name: "EscapedQuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1803, col: 35, offset: 58576},
+						pos:  position{line: 1802, col: 35, offset: 58514},
 						name: "UnescapedQuotedText",
 					},
 				},
@@ -40324,65 +40280,65 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedQuotedText",
-			pos:  position{line: 1805, col: 1, offset: 58597},
+			pos:  position{line: 1804, col: 1, offset: 58535},
 			expr: &actionExpr{
-				pos: position{line: 1806, col: 5, offset: 58622},
+				pos: position{line: 1805, col: 5, offset: 58560},
 				run: (*parser).callonEscapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1806, col: 5, offset: 58622},
+					pos: position{line: 1805, col: 5, offset: 58560},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1806, col: 5, offset: 58622},
+							pos:   position{line: 1805, col: 5, offset: 58560},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1806, col: 16, offset: 58633},
+								pos: position{line: 1805, col: 16, offset: 58571},
 								expr: &actionExpr{
-									pos: position{line: 1806, col: 17, offset: 58634},
+									pos: position{line: 1805, col: 17, offset: 58572},
 									run: (*parser).callonEscapedQuotedText5,
 									expr: &ruleRefExpr{
-										pos:  position{line: 1806, col: 17, offset: 58634},
+										pos:  position{line: 1805, col: 17, offset: 58572},
 										name: "LongHandAttributes",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 1809, col: 5, offset: 58702},
+							pos: position{line: 1808, col: 5, offset: 58640},
 							expr: &litMatcher{
-								pos:        position{line: 1809, col: 7, offset: 58704},
+								pos:        position{line: 1808, col: 7, offset: 58642},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1810, col: 5, offset: 58713},
+							pos:   position{line: 1809, col: 5, offset: 58651},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1811, col: 9, offset: 58731},
+								pos: position{line: 1810, col: 9, offset: 58669},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1811, col: 9, offset: 58731},
+										pos:  position{line: 1810, col: 9, offset: 58669},
 										name: "EscapedBoldText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1812, col: 11, offset: 58758},
+										pos:  position{line: 1811, col: 11, offset: 58696},
 										name: "EscapedItalicText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1813, col: 11, offset: 58786},
+										pos:  position{line: 1812, col: 11, offset: 58724},
 										name: "EscapedMonospaceText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1814, col: 11, offset: 58817},
+										pos:  position{line: 1813, col: 11, offset: 58755},
 										name: "EscapedMarkedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1815, col: 11, offset: 58845},
+										pos:  position{line: 1814, col: 11, offset: 58783},
 										name: "EscapedSubscriptText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1816, col: 11, offset: 58876},
+										pos:  position{line: 1815, col: 11, offset: 58814},
 										name: "EscapedSuperscriptText",
 									},
 								},
@@ -40394,36 +40350,36 @@ var g = &grammar{
 		},
 		{
 			name: "UnescapedQuotedText",
-			pos:  position{line: 1821, col: 1, offset: 58996},
+			pos:  position{line: 1820, col: 1, offset: 58934},
 			expr: &actionExpr{
-				pos: position{line: 1822, col: 5, offset: 59038},
+				pos: position{line: 1821, col: 5, offset: 58976},
 				run: (*parser).callonUnescapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1822, col: 5, offset: 59038},
+					pos: position{line: 1821, col: 5, offset: 58976},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1822, col: 5, offset: 59038},
+							pos:   position{line: 1821, col: 5, offset: 58976},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1822, col: 16, offset: 59049},
+								pos: position{line: 1821, col: 16, offset: 58987},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1822, col: 17, offset: 59050},
+									pos:  position{line: 1821, col: 17, offset: 58988},
 									name: "LongHandAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1823, col: 5, offset: 59075},
+							pos:   position{line: 1822, col: 5, offset: 59013},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1823, col: 14, offset: 59084},
+								pos: position{line: 1822, col: 14, offset: 59022},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1823, col: 14, offset: 59084},
+										pos:  position{line: 1822, col: 14, offset: 59022},
 										name: "SingleQuotedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1823, col: 33, offset: 59103},
+										pos:  position{line: 1822, col: 33, offset: 59041},
 										name: "DoubleQuotedText",
 									},
 								},
@@ -40435,32 +40391,32 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedText",
-			pos:  position{line: 1831, col: 1, offset: 59334},
+			pos:  position{line: 1830, col: 1, offset: 59272},
 			expr: &choiceExpr{
-				pos: position{line: 1832, col: 5, offset: 59359},
+				pos: position{line: 1831, col: 5, offset: 59297},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1832, col: 5, offset: 59359},
+						pos:  position{line: 1831, col: 5, offset: 59297},
 						name: "SingleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1833, col: 7, offset: 59386},
+						pos:  position{line: 1832, col: 7, offset: 59324},
 						name: "SingleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1834, col: 7, offset: 59414},
+						pos:  position{line: 1833, col: 7, offset: 59352},
 						name: "SingleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1835, col: 7, offset: 59446},
+						pos:  position{line: 1834, col: 7, offset: 59384},
 						name: "SingleQuoteMarkedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1836, col: 7, offset: 59474},
+						pos:  position{line: 1835, col: 7, offset: 59412},
 						name: "SubscriptText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1837, col: 7, offset: 59495},
+						pos:  position{line: 1836, col: 7, offset: 59433},
 						name: "SuperscriptText",
 					},
 				},
@@ -40468,24 +40424,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedText",
-			pos:  position{line: 1839, col: 1, offset: 59513},
+			pos:  position{line: 1838, col: 1, offset: 59451},
 			expr: &choiceExpr{
-				pos: position{line: 1840, col: 5, offset: 59538},
+				pos: position{line: 1839, col: 5, offset: 59476},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1840, col: 5, offset: 59538},
+						pos:  position{line: 1839, col: 5, offset: 59476},
 						name: "DoubleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1841, col: 7, offset: 59564},
+						pos:  position{line: 1840, col: 7, offset: 59502},
 						name: "DoubleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1842, col: 7, offset: 59592},
+						pos:  position{line: 1841, col: 7, offset: 59530},
 						name: "DoubleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1843, col: 7, offset: 59623},
+						pos:  position{line: 1842, col: 7, offset: 59561},
 						name: "DoubleQuoteMarkedText",
 					},
 				},
@@ -40493,26 +40449,26 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedTextElement",
-			pos:  position{line: 1857, col: 1, offset: 59977},
+			pos:  position{line: 1856, col: 1, offset: 59915},
 			expr: &choiceExpr{
-				pos: position{line: 1858, col: 5, offset: 60003},
+				pos: position{line: 1857, col: 5, offset: 59941},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2772, col: 5, offset: 88183},
+						pos: position{line: 2771, col: 5, offset: 88121},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2772, col: 5, offset: 88183},
+							pos: position{line: 2771, col: 5, offset: 88121},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2772, col: 5, offset: 88183},
+									pos:   position{line: 2771, col: 5, offset: 88121},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2772, col: 11, offset: 88189},
+										pos: position{line: 2771, col: 11, offset: 88127},
 										run: (*parser).callonQuotedTextElement5,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2772, col: 11, offset: 88189},
+											pos: position{line: 2771, col: 11, offset: 88127},
 											expr: &charClassMatcher{
-												pos:        position{line: 2772, col: 11, offset: 88189},
+												pos:        position{line: 2771, col: 11, offset: 88127},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40522,44 +40478,44 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2775, col: 5, offset: 88247},
+									pos: position{line: 2774, col: 5, offset: 88185},
 									expr: &seqExpr{
-										pos: position{line: 2776, col: 9, offset: 88258},
+										pos: position{line: 2775, col: 9, offset: 88196},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2776, col: 9, offset: 88258},
+												pos:        position{line: 2775, col: 9, offset: 88196},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2777, col: 9, offset: 88307},
+												pos: position{line: 2776, col: 9, offset: 88245},
 												run: (*parser).callonQuotedTextElement11,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2781, col: 5, offset: 88387},
+									pos: position{line: 2780, col: 5, offset: 88325},
 									expr: &seqExpr{
-										pos: position{line: 2782, col: 9, offset: 88398},
+										pos: position{line: 2781, col: 9, offset: 88336},
 										exprs: []interface{}{
 											&zeroOrMoreExpr{
-												pos: position{line: 2782, col: 9, offset: 88398},
+												pos: position{line: 2781, col: 9, offset: 88336},
 												expr: &seqExpr{
-													pos: position{line: 2782, col: 10, offset: 88399},
+													pos: position{line: 2781, col: 10, offset: 88337},
 													exprs: []interface{}{
 														&charClassMatcher{
-															pos:        position{line: 2782, col: 10, offset: 88399},
+															pos:        position{line: 2781, col: 10, offset: 88337},
 															val:        "[._%+-]",
 															chars:      []rune{'.', '_', '%', '+', '-'},
 															ignoreCase: false,
 															inverted:   false,
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2782, col: 18, offset: 88407},
+															pos: position{line: 2781, col: 18, offset: 88345},
 															expr: &charClassMatcher{
-																pos:        position{line: 2782, col: 18, offset: 88407},
+																pos:        position{line: 2781, col: 18, offset: 88345},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -40570,13 +40526,13 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 2782, col: 30, offset: 88419},
+												pos:        position{line: 2781, col: 30, offset: 88357},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2782, col: 34, offset: 88423},
+												pos:        position{line: 2781, col: 34, offset: 88361},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40589,12 +40545,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2877, col: 11, offset: 91023},
+						pos: position{line: 2876, col: 11, offset: 90961},
 						run: (*parser).callonQuotedTextElement21,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2877, col: 11, offset: 91023},
+							pos: position{line: 2876, col: 11, offset: 90961},
 							expr: &charClassMatcher{
-								pos:        position{line: 2877, col: 11, offset: 91023},
+								pos:        position{line: 2876, col: 11, offset: 90961},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -40603,29 +40559,29 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1860, col: 7, offset: 60066},
+						pos:  position{line: 1859, col: 7, offset: 60004},
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2498, col: 5, offset: 80565},
+						pos: position{line: 2497, col: 5, offset: 80503},
 						run: (*parser).callonQuotedTextElement25,
 						expr: &seqExpr{
-							pos: position{line: 2498, col: 5, offset: 80565},
+							pos: position{line: 2497, col: 5, offset: 80503},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2498, col: 5, offset: 80565},
+									pos: position{line: 2497, col: 5, offset: 80503},
 									run: (*parser).callonQuotedTextElement27,
 								},
 								&litMatcher{
-									pos:        position{line: 2501, col: 5, offset: 80636},
+									pos:        position{line: 2500, col: 5, offset: 80574},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2501, col: 10, offset: 80641},
+									pos: position{line: 2500, col: 10, offset: 80579},
 									expr: &charClassMatcher{
-										pos:        position{line: 2501, col: 11, offset: 80642},
+										pos:        position{line: 2500, col: 11, offset: 80580},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -40636,29 +40592,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2507, col: 5, offset: 80834},
+						pos: position{line: 2506, col: 5, offset: 80772},
 						run: (*parser).callonQuotedTextElement31,
 						expr: &seqExpr{
-							pos: position{line: 2507, col: 5, offset: 80834},
+							pos: position{line: 2506, col: 5, offset: 80772},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2507, col: 5, offset: 80834},
+									pos: position{line: 2506, col: 5, offset: 80772},
 									run: (*parser).callonQuotedTextElement33,
 								},
 								&andCodeExpr{
-									pos: position{line: 2510, col: 5, offset: 80905},
+									pos: position{line: 2509, col: 5, offset: 80843},
 									run: (*parser).callonQuotedTextElement34,
 								},
 								&litMatcher{
-									pos:        position{line: 2514, col: 5, offset: 81030},
+									pos:        position{line: 2513, col: 5, offset: 80968},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2514, col: 9, offset: 81034},
+									pos: position{line: 2513, col: 9, offset: 80972},
 									expr: &charClassMatcher{
-										pos:        position{line: 2514, col: 10, offset: 81035},
+										pos:        position{line: 2513, col: 10, offset: 80973},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -40669,27 +40625,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2790, col: 5, offset: 88616},
+						pos: position{line: 2789, col: 5, offset: 88554},
 						run: (*parser).callonQuotedTextElement38,
 						expr: &choiceExpr{
-							pos: position{line: 2791, col: 9, offset: 88626},
+							pos: position{line: 2790, col: 9, offset: 88564},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2791, col: 10, offset: 88627},
+									pos:        position{line: 2790, col: 10, offset: 88565},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2793, col: 13, offset: 88724},
+									pos: position{line: 2792, col: 13, offset: 88662},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2793, col: 13, offset: 88724},
+											pos: position{line: 2792, col: 13, offset: 88662},
 											run: (*parser).callonQuotedTextElement42,
 										},
 										&litMatcher{
-											pos:        position{line: 2796, col: 13, offset: 88824},
+											pos:        position{line: 2795, col: 13, offset: 88762},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -40697,20 +40653,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2796, col: 19, offset: 88830},
+									pos:        position{line: 2795, col: 19, offset: 88768},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2799, col: 13, offset: 88868},
+									pos: position{line: 2798, col: 13, offset: 88806},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2799, col: 13, offset: 88868},
+											pos: position{line: 2798, col: 13, offset: 88806},
 											run: (*parser).callonQuotedTextElement46,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2802, col: 14, offset: 88961},
+											pos:        position{line: 2801, col: 14, offset: 88899},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -40719,18 +40675,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2804, col: 12, offset: 89005},
+									pos: position{line: 2803, col: 12, offset: 88943},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2804, col: 12, offset: 89005},
+											pos:        position{line: 2803, col: 12, offset: 88943},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2804, col: 16, offset: 89009},
+											pos: position{line: 2803, col: 16, offset: 88947},
 											expr: &litMatcher{
-												pos:        position{line: 2804, col: 17, offset: 89010},
+												pos:        position{line: 2803, col: 17, offset: 88948},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -40742,44 +40698,44 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 636, col: 5, offset: 20178},
+						pos: position{line: 635, col: 5, offset: 20116},
 						run: (*parser).callonQuotedTextElement52,
 						expr: &seqExpr{
-							pos: position{line: 636, col: 5, offset: 20178},
+							pos: position{line: 635, col: 5, offset: 20116},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 636, col: 5, offset: 20178},
+									pos: position{line: 635, col: 5, offset: 20116},
 									run: (*parser).callonQuotedTextElement54,
 								},
 								&labeledExpr{
-									pos:   position{line: 639, col: 5, offset: 20250},
+									pos:   position{line: 638, col: 5, offset: 20188},
 									label: "element",
 									expr: &choiceExpr{
-										pos: position{line: 639, col: 14, offset: 20259},
+										pos: position{line: 638, col: 14, offset: 20197},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 645, col: 5, offset: 20388},
+												pos: position{line: 644, col: 5, offset: 20326},
 												run: (*parser).callonQuotedTextElement57,
 												expr: &seqExpr{
-													pos: position{line: 645, col: 5, offset: 20388},
+													pos: position{line: 644, col: 5, offset: 20326},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 645, col: 5, offset: 20388},
+															pos:        position{line: 644, col: 5, offset: 20326},
 															val:        "\\{",
 															ignoreCase: false,
 															want:       "\"\\\\{\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 645, col: 13, offset: 20396},
+															pos:   position{line: 644, col: 13, offset: 20334},
 															label: "name",
 															expr: &actionExpr{
-																pos: position{line: 318, col: 18, offset: 9729},
+																pos: position{line: 317, col: 18, offset: 9667},
 																run: (*parser).callonQuotedTextElement61,
 																expr: &seqExpr{
-																	pos: position{line: 318, col: 18, offset: 9729},
+																	pos: position{line: 317, col: 18, offset: 9667},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 318, col: 18, offset: 9729},
+																			pos:        position{line: 317, col: 18, offset: 9667},
 																			val:        "[_\\pL\\pN]",
 																			chars:      []rune{'_'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -40787,9 +40743,9 @@ var g = &grammar{
 																			inverted:   false,
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 318, col: 28, offset: 9739},
+																			pos: position{line: 317, col: 28, offset: 9677},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 318, col: 29, offset: 9740},
+																				pos:        position{line: 317, col: 29, offset: 9678},
 																				val:        "[_-\\pL\\pN]",
 																				chars:      []rune{'_', '-'},
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -40802,7 +40758,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 645, col: 32, offset: 20415},
+															pos:        position{line: 644, col: 32, offset: 20353},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -40811,28 +40767,28 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 652, col: 5, offset: 20656},
+												pos: position{line: 651, col: 5, offset: 20594},
 												run: (*parser).callonQuotedTextElement67,
 												expr: &seqExpr{
-													pos: position{line: 652, col: 5, offset: 20656},
+													pos: position{line: 651, col: 5, offset: 20594},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 652, col: 5, offset: 20656},
+															pos:        position{line: 651, col: 5, offset: 20594},
 															val:        "{",
 															ignoreCase: false,
 															want:       "\"{\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 652, col: 9, offset: 20660},
+															pos:   position{line: 651, col: 9, offset: 20598},
 															label: "name",
 															expr: &actionExpr{
-																pos: position{line: 318, col: 18, offset: 9729},
+																pos: position{line: 317, col: 18, offset: 9667},
 																run: (*parser).callonQuotedTextElement71,
 																expr: &seqExpr{
-																	pos: position{line: 318, col: 18, offset: 9729},
+																	pos: position{line: 317, col: 18, offset: 9667},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 318, col: 18, offset: 9729},
+																			pos:        position{line: 317, col: 18, offset: 9667},
 																			val:        "[_\\pL\\pN]",
 																			chars:      []rune{'_'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -40840,9 +40796,9 @@ var g = &grammar{
 																			inverted:   false,
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 318, col: 28, offset: 9739},
+																			pos: position{line: 317, col: 28, offset: 9677},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 318, col: 29, offset: 9740},
+																				pos:        position{line: 317, col: 29, offset: 9678},
 																				val:        "[_-\\pL\\pN]",
 																				chars:      []rune{'_', '-'},
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -40855,7 +40811,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 652, col: 28, offset: 20679},
+															pos:        position{line: 651, col: 28, offset: 20617},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -40864,28 +40820,28 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 658, col: 25, offset: 20860},
+												pos: position{line: 657, col: 25, offset: 20798},
 												run: (*parser).callonQuotedTextElement77,
 												expr: &seqExpr{
-													pos: position{line: 658, col: 25, offset: 20860},
+													pos: position{line: 657, col: 25, offset: 20798},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 658, col: 25, offset: 20860},
+															pos:        position{line: 657, col: 25, offset: 20798},
 															val:        "{counter:",
 															ignoreCase: false,
 															want:       "\"{counter:\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 658, col: 37, offset: 20872},
+															pos:   position{line: 657, col: 37, offset: 20810},
 															label: "name",
 															expr: &actionExpr{
-																pos: position{line: 318, col: 18, offset: 9729},
+																pos: position{line: 317, col: 18, offset: 9667},
 																run: (*parser).callonQuotedTextElement81,
 																expr: &seqExpr{
-																	pos: position{line: 318, col: 18, offset: 9729},
+																	pos: position{line: 317, col: 18, offset: 9667},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 318, col: 18, offset: 9729},
+																			pos:        position{line: 317, col: 18, offset: 9667},
 																			val:        "[_\\pL\\pN]",
 																			chars:      []rune{'_'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -40893,9 +40849,9 @@ var g = &grammar{
 																			inverted:   false,
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 318, col: 28, offset: 9739},
+																			pos: position{line: 317, col: 28, offset: 9677},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 318, col: 29, offset: 9740},
+																				pos:        position{line: 317, col: 29, offset: 9678},
 																				val:        "[_-\\pL\\pN]",
 																				chars:      []rune{'_', '-'},
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -40908,33 +40864,33 @@ var g = &grammar{
 															},
 														},
 														&labeledExpr{
-															pos:   position{line: 658, col: 56, offset: 20891},
+															pos:   position{line: 657, col: 56, offset: 20829},
 															label: "start",
 															expr: &zeroOrOneExpr{
-																pos: position{line: 658, col: 62, offset: 20897},
+																pos: position{line: 657, col: 62, offset: 20835},
 																expr: &actionExpr{
-																	pos: position{line: 666, col: 17, offset: 21192},
+																	pos: position{line: 665, col: 17, offset: 21130},
 																	run: (*parser).callonQuotedTextElement88,
 																	expr: &seqExpr{
-																		pos: position{line: 666, col: 17, offset: 21192},
+																		pos: position{line: 665, col: 17, offset: 21130},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 666, col: 17, offset: 21192},
+																				pos:        position{line: 665, col: 17, offset: 21130},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 666, col: 21, offset: 21196},
+																				pos:   position{line: 665, col: 21, offset: 21134},
 																				label: "start",
 																				expr: &choiceExpr{
-																					pos: position{line: 666, col: 28, offset: 21203},
+																					pos: position{line: 665, col: 28, offset: 21141},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 666, col: 28, offset: 21203},
+																							pos: position{line: 665, col: 28, offset: 21141},
 																							run: (*parser).callonQuotedTextElement93,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 666, col: 28, offset: 21203},
+																								pos:        position{line: 665, col: 28, offset: 21141},
 																								val:        "[A-Za-z]",
 																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																								ignoreCase: false,
@@ -40942,12 +40898,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 668, col: 9, offset: 21257},
+																							pos: position{line: 667, col: 9, offset: 21195},
 																							run: (*parser).callonQuotedTextElement95,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 668, col: 9, offset: 21257},
+																								pos: position{line: 667, col: 9, offset: 21195},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 668, col: 9, offset: 21257},
+																									pos:        position{line: 667, col: 9, offset: 21195},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -40964,7 +40920,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 658, col: 78, offset: 20913},
+															pos:        position{line: 657, col: 78, offset: 20851},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -40973,28 +40929,28 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 662, col: 25, offset: 21031},
+												pos: position{line: 661, col: 25, offset: 20969},
 												run: (*parser).callonQuotedTextElement99,
 												expr: &seqExpr{
-													pos: position{line: 662, col: 25, offset: 21031},
+													pos: position{line: 661, col: 25, offset: 20969},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 662, col: 25, offset: 21031},
+															pos:        position{line: 661, col: 25, offset: 20969},
 															val:        "{counter2:",
 															ignoreCase: false,
 															want:       "\"{counter2:\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 662, col: 38, offset: 21044},
+															pos:   position{line: 661, col: 38, offset: 20982},
 															label: "name",
 															expr: &actionExpr{
-																pos: position{line: 318, col: 18, offset: 9729},
+																pos: position{line: 317, col: 18, offset: 9667},
 																run: (*parser).callonQuotedTextElement103,
 																expr: &seqExpr{
-																	pos: position{line: 318, col: 18, offset: 9729},
+																	pos: position{line: 317, col: 18, offset: 9667},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 318, col: 18, offset: 9729},
+																			pos:        position{line: 317, col: 18, offset: 9667},
 																			val:        "[_\\pL\\pN]",
 																			chars:      []rune{'_'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -41002,9 +40958,9 @@ var g = &grammar{
 																			inverted:   false,
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 318, col: 28, offset: 9739},
+																			pos: position{line: 317, col: 28, offset: 9677},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 318, col: 29, offset: 9740},
+																				pos:        position{line: 317, col: 29, offset: 9678},
 																				val:        "[_-\\pL\\pN]",
 																				chars:      []rune{'_', '-'},
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -41017,33 +40973,33 @@ var g = &grammar{
 															},
 														},
 														&labeledExpr{
-															pos:   position{line: 662, col: 57, offset: 21063},
+															pos:   position{line: 661, col: 57, offset: 21001},
 															label: "start",
 															expr: &zeroOrOneExpr{
-																pos: position{line: 662, col: 63, offset: 21069},
+																pos: position{line: 661, col: 63, offset: 21007},
 																expr: &actionExpr{
-																	pos: position{line: 666, col: 17, offset: 21192},
+																	pos: position{line: 665, col: 17, offset: 21130},
 																	run: (*parser).callonQuotedTextElement110,
 																	expr: &seqExpr{
-																		pos: position{line: 666, col: 17, offset: 21192},
+																		pos: position{line: 665, col: 17, offset: 21130},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 666, col: 17, offset: 21192},
+																				pos:        position{line: 665, col: 17, offset: 21130},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 666, col: 21, offset: 21196},
+																				pos:   position{line: 665, col: 21, offset: 21134},
 																				label: "start",
 																				expr: &choiceExpr{
-																					pos: position{line: 666, col: 28, offset: 21203},
+																					pos: position{line: 665, col: 28, offset: 21141},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 666, col: 28, offset: 21203},
+																							pos: position{line: 665, col: 28, offset: 21141},
 																							run: (*parser).callonQuotedTextElement115,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 666, col: 28, offset: 21203},
+																								pos:        position{line: 665, col: 28, offset: 21141},
 																								val:        "[A-Za-z]",
 																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																								ignoreCase: false,
@@ -41051,12 +41007,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 668, col: 9, offset: 21257},
+																							pos: position{line: 667, col: 9, offset: 21195},
 																							run: (*parser).callonQuotedTextElement117,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 668, col: 9, offset: 21257},
+																								pos: position{line: 667, col: 9, offset: 21195},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 668, col: 9, offset: 21257},
+																									pos:        position{line: 667, col: 9, offset: 21195},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -41073,7 +41029,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 662, col: 79, offset: 21085},
+															pos:        position{line: 661, col: 79, offset: 21023},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -41088,31 +41044,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2886, col: 18, offset: 91233},
+						pos: position{line: 2885, col: 18, offset: 91171},
 						run: (*parser).callonQuotedTextElement121,
 						expr: &seqExpr{
-							pos: position{line: 2886, col: 18, offset: 91233},
+							pos: position{line: 2885, col: 18, offset: 91171},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2882, col: 12, offset: 91133},
+									pos: position{line: 2881, col: 12, offset: 91071},
 									run: (*parser).callonQuotedTextElement123,
 									expr: &choiceExpr{
-										pos: position{line: 2882, col: 13, offset: 91134},
+										pos: position{line: 2881, col: 13, offset: 91072},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2882, col: 13, offset: 91134},
+												pos:        position{line: 2881, col: 13, offset: 91072},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 20, offset: 91141},
+												pos:        position{line: 2881, col: 20, offset: 91079},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 29, offset: 91150},
+												pos:        position{line: 2881, col: 29, offset: 91088},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -41121,27 +41077,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2886, col: 26, offset: 91241},
+									pos: position{line: 2885, col: 26, offset: 91179},
 									expr: &actionExpr{
-										pos: position{line: 2882, col: 12, offset: 91133},
+										pos: position{line: 2881, col: 12, offset: 91071},
 										run: (*parser).callonQuotedTextElement129,
 										expr: &choiceExpr{
-											pos: position{line: 2882, col: 13, offset: 91134},
+											pos: position{line: 2881, col: 13, offset: 91072},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2882, col: 13, offset: 91134},
+													pos:        position{line: 2881, col: 13, offset: 91072},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2882, col: 20, offset: 91141},
+													pos:        position{line: 2881, col: 20, offset: 91079},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2882, col: 29, offset: 91150},
+													pos:        position{line: 2881, col: 29, offset: 91088},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -41154,31 +41110,31 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1865, col: 7, offset: 60233},
+						pos:  position{line: 1864, col: 7, offset: 60171},
 						name: "QuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1866, col: 7, offset: 60280},
+						pos:  position{line: 1865, col: 7, offset: 60218},
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2467, col: 5, offset: 79394},
+						pos: position{line: 2466, col: 5, offset: 79332},
 						run: (*parser).callonQuotedTextElement136,
 						expr: &seqExpr{
-							pos: position{line: 2467, col: 5, offset: 79394},
+							pos: position{line: 2466, col: 5, offset: 79332},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2467, col: 5, offset: 79394},
+									pos: position{line: 2466, col: 5, offset: 79332},
 									run: (*parser).callonQuotedTextElement138,
 								},
 								&labeledExpr{
-									pos:   position{line: 2470, col: 5, offset: 79470},
+									pos:   position{line: 2469, col: 5, offset: 79408},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2471, col: 9, offset: 79488},
+										pos: position{line: 2470, col: 9, offset: 79426},
 										run: (*parser).callonQuotedTextElement140,
 										expr: &charClassMatcher{
-											pos:        position{line: 2471, col: 10, offset: 79489},
+											pos:        position{line: 2470, col: 10, offset: 79427},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -41190,27 +41146,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1198, col: 23, offset: 37046},
+						pos: position{line: 1197, col: 23, offset: 36984},
 						run: (*parser).callonQuotedTextElement142,
 						expr: &seqExpr{
-							pos: position{line: 1198, col: 23, offset: 37046},
+							pos: position{line: 1197, col: 23, offset: 36984},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1196, col: 32, offset: 37014},
+									pos:        position{line: 1195, col: 32, offset: 36952},
 									val:        "�",
 									ignoreCase: false,
 									want:       "\"�\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1198, col: 51, offset: 37074},
+									pos:   position{line: 1197, col: 51, offset: 37012},
 									label: "ref",
 									expr: &actionExpr{
-										pos: position{line: 1198, col: 56, offset: 37079},
+										pos: position{line: 1197, col: 56, offset: 37017},
 										run: (*parser).callonQuotedTextElement146,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1198, col: 56, offset: 37079},
+											pos: position{line: 1197, col: 56, offset: 37017},
 											expr: &charClassMatcher{
-												pos:        position{line: 1198, col: 56, offset: 37079},
+												pos:        position{line: 1197, col: 56, offset: 37017},
 												val:        "[0-9]",
 												ranges:     []rune{'0', '9'},
 												ignoreCase: false,
@@ -41220,7 +41176,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1196, col: 32, offset: 37014},
+									pos:        position{line: 1195, col: 32, offset: 36952},
 									val:        "�",
 									ignoreCase: false,
 									want:       "\"�\"",
@@ -41229,10 +41185,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2812, col: 12, offset: 89270},
+						pos: position{line: 2811, col: 12, offset: 89208},
 						run: (*parser).callonQuotedTextElement150,
 						expr: &charClassMatcher{
-							pos:        position{line: 2812, col: 12, offset: 89270},
+							pos:        position{line: 2811, col: 12, offset: 89208},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -41244,29 +41200,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldText",
-			pos:  position{line: 1884, col: 1, offset: 60750},
+			pos:  position{line: 1883, col: 1, offset: 60688},
 			expr: &actionExpr{
-				pos: position{line: 1885, col: 5, offset: 60778},
+				pos: position{line: 1884, col: 5, offset: 60716},
 				run: (*parser).callonDoubleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1885, col: 5, offset: 60778},
+					pos: position{line: 1884, col: 5, offset: 60716},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1880, col: 38, offset: 60703},
+							pos:        position{line: 1879, col: 38, offset: 60641},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1886, col: 5, offset: 60817},
+							pos:   position{line: 1885, col: 5, offset: 60755},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1886, col: 15, offset: 60827},
+								pos:  position{line: 1885, col: 15, offset: 60765},
 								name: "DoubleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1882, col: 36, offset: 60744},
+							pos:        position{line: 1881, col: 36, offset: 60682},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
@@ -41277,44 +41233,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElements",
-			pos:  position{line: 1891, col: 1, offset: 60987},
+			pos:  position{line: 1890, col: 1, offset: 60925},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1891, col: 32, offset: 61018},
+				pos: position{line: 1890, col: 32, offset: 60956},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1891, col: 32, offset: 61018},
+					pos:  position{line: 1890, col: 32, offset: 60956},
 					name: "DoubleQuoteBoldTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteBoldTextElement",
-			pos:  position{line: 1893, col: 1, offset: 61049},
+			pos:  position{line: 1892, col: 1, offset: 60987},
 			expr: &actionExpr{
-				pos: position{line: 1894, col: 5, offset: 61084},
+				pos: position{line: 1893, col: 5, offset: 61022},
 				run: (*parser).callonDoubleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1894, col: 5, offset: 61084},
+					pos: position{line: 1893, col: 5, offset: 61022},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2890, col: 11, offset: 91296},
+							pos: position{line: 2889, col: 11, offset: 91234},
 							expr: &anyMatcher{
-								line: 2890, col: 13, offset: 91298,
+								line: 2889, col: 13, offset: 91236,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1895, col: 5, offset: 61095},
+							pos: position{line: 1894, col: 5, offset: 61033},
 							expr: &litMatcher{
-								pos:        position{line: 1882, col: 36, offset: 60744},
+								pos:        position{line: 1881, col: 36, offset: 60682},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1896, col: 5, offset: 61132},
+							pos:   position{line: 1895, col: 5, offset: 61070},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1896, col: 14, offset: 61141},
+								pos:  position{line: 1895, col: 14, offset: 61079},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41324,29 +41280,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldText",
-			pos:  position{line: 1921, col: 1, offset: 61821},
+			pos:  position{line: 1920, col: 1, offset: 61759},
 			expr: &actionExpr{
-				pos: position{line: 1922, col: 5, offset: 61849},
+				pos: position{line: 1921, col: 5, offset: 61787},
 				run: (*parser).callonSingleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1922, col: 5, offset: 61849},
+					pos: position{line: 1921, col: 5, offset: 61787},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1905, col: 5, offset: 61375},
+							pos:        position{line: 1904, col: 5, offset: 61313},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1906, col: 5, offset: 61384},
+							pos: position{line: 1905, col: 5, offset: 61322},
 							run: (*parser).callonSingleQuoteBoldText4,
 						},
 						&andExpr{
-							pos: position{line: 1910, col: 5, offset: 61502},
+							pos: position{line: 1909, col: 5, offset: 61440},
 							expr: &notExpr{
-								pos: position{line: 1910, col: 7, offset: 61504},
+								pos: position{line: 1909, col: 7, offset: 61442},
 								expr: &litMatcher{
-									pos:        position{line: 1910, col: 8, offset: 61505},
+									pos:        position{line: 1909, col: 8, offset: 61443},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41354,38 +41310,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1923, col: 5, offset: 61887},
+							pos:   position{line: 1922, col: 5, offset: 61825},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1923, col: 15, offset: 61897},
+								pos:  position{line: 1922, col: 15, offset: 61835},
 								name: "SingleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1913, col: 5, offset: 61625},
+							pos:        position{line: 1912, col: 5, offset: 61563},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&notExpr{
-							pos: position{line: 1914, col: 5, offset: 61634},
+							pos: position{line: 1913, col: 5, offset: 61572},
 							expr: &litMatcher{
-								pos:        position{line: 1914, col: 6, offset: 61635},
+								pos:        position{line: 1913, col: 6, offset: 61573},
 								val:        "*",
 								ignoreCase: false,
 								want:       "\"*\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1915, col: 5, offset: 61698},
+							pos: position{line: 1914, col: 5, offset: 61636},
 							run: (*parser).callonSingleQuoteBoldText13,
 						},
 						&andExpr{
-							pos: position{line: 1919, col: 5, offset: 61807},
+							pos: position{line: 1918, col: 5, offset: 61745},
 							expr: &notExpr{
-								pos: position{line: 1919, col: 7, offset: 61809},
+								pos: position{line: 1918, col: 7, offset: 61747},
 								expr: &charClassMatcher{
-									pos:        position{line: 2763, col: 13, offset: 88036},
+									pos:        position{line: 2762, col: 13, offset: 87974},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -41399,20 +41355,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElements",
-			pos:  position{line: 1928, col: 1, offset: 62057},
+			pos:  position{line: 1927, col: 1, offset: 61995},
 			expr: &actionExpr{
-				pos: position{line: 1929, col: 5, offset: 62094},
+				pos: position{line: 1928, col: 5, offset: 62032},
 				run: (*parser).callonSingleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1929, col: 5, offset: 62094},
+					pos: position{line: 1928, col: 5, offset: 62032},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1929, col: 5, offset: 62094},
+							pos: position{line: 1928, col: 5, offset: 62032},
 							expr: &actionExpr{
-								pos: position{line: 2873, col: 10, offset: 90962},
+								pos: position{line: 2872, col: 10, offset: 90900},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2873, col: 10, offset: 90962},
+									pos:        position{line: 2872, col: 10, offset: 90900},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41421,18 +41377,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1930, col: 5, offset: 62133},
+							pos:   position{line: 1929, col: 5, offset: 62071},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1930, col: 14, offset: 62142},
+								pos: position{line: 1929, col: 14, offset: 62080},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1930, col: 15, offset: 62143},
+									pos:  position{line: 1929, col: 15, offset: 62081},
 									name: "SingleQuoteBoldTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1931, col: 5, offset: 62177},
+							pos: position{line: 1930, col: 5, offset: 62115},
 							run: (*parser).callonSingleQuoteBoldTextElements9,
 						},
 					},
@@ -41441,49 +41397,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElement",
-			pos:  position{line: 1937, col: 1, offset: 62318},
+			pos:  position{line: 1936, col: 1, offset: 62256},
 			expr: &actionExpr{
-				pos: position{line: 1938, col: 5, offset: 62353},
+				pos: position{line: 1937, col: 5, offset: 62291},
 				run: (*parser).callonSingleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1938, col: 5, offset: 62353},
+					pos: position{line: 1937, col: 5, offset: 62291},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2890, col: 11, offset: 91296},
+							pos: position{line: 2889, col: 11, offset: 91234},
 							expr: &anyMatcher{
-								line: 2890, col: 13, offset: 91298,
+								line: 2889, col: 13, offset: 91236,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1939, col: 5, offset: 62381},
+							pos: position{line: 1938, col: 5, offset: 62319},
 							expr: &seqExpr{
-								pos: position{line: 1913, col: 5, offset: 61625},
+								pos: position{line: 1912, col: 5, offset: 61563},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1913, col: 5, offset: 61625},
+										pos:        position{line: 1912, col: 5, offset: 61563},
 										val:        "*",
 										ignoreCase: false,
 										want:       "\"*\"",
 									},
 									&notExpr{
-										pos: position{line: 1914, col: 5, offset: 61634},
+										pos: position{line: 1913, col: 5, offset: 61572},
 										expr: &litMatcher{
-											pos:        position{line: 1914, col: 6, offset: 61635},
+											pos:        position{line: 1913, col: 6, offset: 61573},
 											val:        "*",
 											ignoreCase: false,
 											want:       "\"*\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1915, col: 5, offset: 61698},
+										pos: position{line: 1914, col: 5, offset: 61636},
 										run: (*parser).callonSingleQuoteBoldTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 1919, col: 5, offset: 61807},
+										pos: position{line: 1918, col: 5, offset: 61745},
 										expr: &notExpr{
-											pos: position{line: 1919, col: 7, offset: 61809},
+											pos: position{line: 1918, col: 7, offset: 61747},
 											expr: &charClassMatcher{
-												pos:        position{line: 2763, col: 13, offset: 88036},
+												pos:        position{line: 2762, col: 13, offset: 87974},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41495,10 +41451,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1940, col: 5, offset: 62418},
+							pos:   position{line: 1939, col: 5, offset: 62356},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1940, col: 14, offset: 62427},
+								pos:  position{line: 1939, col: 14, offset: 62365},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41508,35 +41464,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedBoldText",
-			pos:  position{line: 1945, col: 1, offset: 62515},
+			pos:  position{line: 1944, col: 1, offset: 62453},
 			expr: &choiceExpr{
-				pos: position{line: 1947, col: 5, offset: 62576},
+				pos: position{line: 1946, col: 5, offset: 62514},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1947, col: 5, offset: 62576},
+						pos: position{line: 1946, col: 5, offset: 62514},
 						run: (*parser).callonEscapedBoldText2,
 						expr: &seqExpr{
-							pos: position{line: 1947, col: 5, offset: 62576},
+							pos: position{line: 1946, col: 5, offset: 62514},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1947, col: 5, offset: 62576},
+									pos:   position{line: 1946, col: 5, offset: 62514},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1853, col: 25, offset: 59923},
+										pos: position{line: 1852, col: 25, offset: 59861},
 										run: (*parser).callonEscapedBoldText5,
 										expr: &seqExpr{
-											pos: position{line: 1853, col: 25, offset: 59923},
+											pos: position{line: 1852, col: 25, offset: 59861},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1853, col: 25, offset: 59923},
+													pos:        position{line: 1852, col: 25, offset: 59861},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1853, col: 30, offset: 59928},
+													pos: position{line: 1852, col: 30, offset: 59866},
 													expr: &litMatcher{
-														pos:        position{line: 1853, col: 30, offset: 59928},
+														pos:        position{line: 1852, col: 30, offset: 59866},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -41547,21 +41503,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1947, col: 40, offset: 62611},
+									pos:        position{line: 1946, col: 40, offset: 62549},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1947, col: 45, offset: 62616},
+									pos:   position{line: 1946, col: 45, offset: 62554},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1947, col: 55, offset: 62626},
+										pos:  position{line: 1946, col: 55, offset: 62564},
 										name: "DoubleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1947, col: 84, offset: 62655},
+									pos:        position{line: 1946, col: 84, offset: 62593},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
@@ -41570,21 +41526,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1951, col: 7, offset: 62819},
+						pos: position{line: 1950, col: 7, offset: 62757},
 						run: (*parser).callonEscapedBoldText14,
 						expr: &seqExpr{
-							pos: position{line: 1951, col: 7, offset: 62819},
+							pos: position{line: 1950, col: 7, offset: 62757},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1951, col: 7, offset: 62819},
+									pos:   position{line: 1950, col: 7, offset: 62757},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1849, col: 25, offset: 59850},
+										pos: position{line: 1848, col: 25, offset: 59788},
 										run: (*parser).callonEscapedBoldText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1849, col: 25, offset: 59850},
+											pos: position{line: 1848, col: 25, offset: 59788},
 											expr: &litMatcher{
-												pos:        position{line: 1849, col: 25, offset: 59850},
+												pos:        position{line: 1848, col: 25, offset: 59788},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41593,21 +41549,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1951, col: 42, offset: 62854},
+									pos:        position{line: 1950, col: 42, offset: 62792},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1951, col: 47, offset: 62859},
+									pos:   position{line: 1950, col: 47, offset: 62797},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1951, col: 57, offset: 62869},
+										pos:  position{line: 1950, col: 57, offset: 62807},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1951, col: 86, offset: 62898},
+									pos:        position{line: 1950, col: 86, offset: 62836},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41616,21 +41572,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1956, col: 7, offset: 63100},
+						pos: position{line: 1955, col: 7, offset: 63038},
 						run: (*parser).callonEscapedBoldText24,
 						expr: &seqExpr{
-							pos: position{line: 1956, col: 7, offset: 63100},
+							pos: position{line: 1955, col: 7, offset: 63038},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1956, col: 7, offset: 63100},
+									pos:   position{line: 1955, col: 7, offset: 63038},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1849, col: 25, offset: 59850},
+										pos: position{line: 1848, col: 25, offset: 59788},
 										run: (*parser).callonEscapedBoldText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1849, col: 25, offset: 59850},
+											pos: position{line: 1848, col: 25, offset: 59788},
 											expr: &litMatcher{
-												pos:        position{line: 1849, col: 25, offset: 59850},
+												pos:        position{line: 1848, col: 25, offset: 59788},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41639,21 +41595,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1956, col: 42, offset: 63135},
+									pos:        position{line: 1955, col: 42, offset: 63073},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1956, col: 46, offset: 63139},
+									pos:   position{line: 1955, col: 46, offset: 63077},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1956, col: 56, offset: 63149},
+										pos:  position{line: 1955, col: 56, offset: 63087},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1956, col: 85, offset: 63178},
+									pos:        position{line: 1955, col: 85, offset: 63116},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41666,29 +41622,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicText",
-			pos:  position{line: 1973, col: 1, offset: 63658},
+			pos:  position{line: 1972, col: 1, offset: 63596},
 			expr: &actionExpr{
-				pos: position{line: 1974, col: 5, offset: 63688},
+				pos: position{line: 1973, col: 5, offset: 63626},
 				run: (*parser).callonDoubleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 1974, col: 5, offset: 63688},
+					pos: position{line: 1973, col: 5, offset: 63626},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1969, col: 40, offset: 63609},
+							pos:        position{line: 1968, col: 40, offset: 63547},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1975, col: 5, offset: 63729},
+							pos:   position{line: 1974, col: 5, offset: 63667},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1975, col: 15, offset: 63739},
+								pos:  position{line: 1974, col: 15, offset: 63677},
 								name: "DoubleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1971, col: 38, offset: 63652},
+							pos:        position{line: 1970, col: 38, offset: 63590},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
@@ -41699,44 +41655,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElements",
-			pos:  position{line: 1980, col: 1, offset: 63904},
+			pos:  position{line: 1979, col: 1, offset: 63842},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1980, col: 34, offset: 63937},
+				pos: position{line: 1979, col: 34, offset: 63875},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1980, col: 34, offset: 63937},
+					pos:  position{line: 1979, col: 34, offset: 63875},
 					name: "DoubleQuoteItalicTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteItalicTextElement",
-			pos:  position{line: 1982, col: 1, offset: 63969},
+			pos:  position{line: 1981, col: 1, offset: 63907},
 			expr: &actionExpr{
-				pos: position{line: 1983, col: 5, offset: 64006},
+				pos: position{line: 1982, col: 5, offset: 63944},
 				run: (*parser).callonDoubleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1983, col: 5, offset: 64006},
+					pos: position{line: 1982, col: 5, offset: 63944},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2890, col: 11, offset: 91296},
+							pos: position{line: 2889, col: 11, offset: 91234},
 							expr: &anyMatcher{
-								line: 2890, col: 13, offset: 91298,
+								line: 2889, col: 13, offset: 91236,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1984, col: 5, offset: 64017},
+							pos: position{line: 1983, col: 5, offset: 63955},
 							expr: &litMatcher{
-								pos:        position{line: 1971, col: 38, offset: 63652},
+								pos:        position{line: 1970, col: 38, offset: 63590},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1985, col: 5, offset: 64056},
+							pos:   position{line: 1984, col: 5, offset: 63994},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1985, col: 14, offset: 64065},
+								pos:  position{line: 1984, col: 14, offset: 64003},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41746,29 +41702,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicText",
-			pos:  position{line: 2011, col: 1, offset: 64749},
+			pos:  position{line: 2010, col: 1, offset: 64687},
 			expr: &actionExpr{
-				pos: position{line: 2012, col: 5, offset: 64779},
+				pos: position{line: 2011, col: 5, offset: 64717},
 				run: (*parser).callonSingleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2012, col: 5, offset: 64779},
+					pos: position{line: 2011, col: 5, offset: 64717},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1994, col: 5, offset: 64307},
+							pos:        position{line: 1993, col: 5, offset: 64245},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1995, col: 5, offset: 64316},
+							pos: position{line: 1994, col: 5, offset: 64254},
 							run: (*parser).callonSingleQuoteItalicText4,
 						},
 						&andExpr{
-							pos: position{line: 1999, col: 5, offset: 64436},
+							pos: position{line: 1998, col: 5, offset: 64374},
 							expr: &notExpr{
-								pos: position{line: 1999, col: 7, offset: 64438},
+								pos: position{line: 1998, col: 7, offset: 64376},
 								expr: &litMatcher{
-									pos:        position{line: 1999, col: 8, offset: 64439},
+									pos:        position{line: 1998, col: 8, offset: 64377},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -41776,38 +41732,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2013, col: 5, offset: 64819},
+							pos:   position{line: 2012, col: 5, offset: 64757},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2013, col: 15, offset: 64829},
+								pos:  position{line: 2012, col: 15, offset: 64767},
 								name: "SingleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2003, col: 5, offset: 64549},
+							pos:        position{line: 2002, col: 5, offset: 64487},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&notExpr{
-							pos: position{line: 2004, col: 5, offset: 64558},
+							pos: position{line: 2003, col: 5, offset: 64496},
 							expr: &litMatcher{
-								pos:        position{line: 2004, col: 6, offset: 64559},
+								pos:        position{line: 2003, col: 6, offset: 64497},
 								val:        "_",
 								ignoreCase: false,
 								want:       "\"_\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2005, col: 5, offset: 64624},
+							pos: position{line: 2004, col: 5, offset: 64562},
 							run: (*parser).callonSingleQuoteItalicText13,
 						},
 						&andExpr{
-							pos: position{line: 2009, col: 5, offset: 64735},
+							pos: position{line: 2008, col: 5, offset: 64673},
 							expr: &notExpr{
-								pos: position{line: 2009, col: 7, offset: 64737},
+								pos: position{line: 2008, col: 7, offset: 64675},
 								expr: &charClassMatcher{
-									pos:        position{line: 2763, col: 13, offset: 88036},
+									pos:        position{line: 2762, col: 13, offset: 87974},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -41821,20 +41777,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElements",
-			pos:  position{line: 2018, col: 1, offset: 64996},
+			pos:  position{line: 2017, col: 1, offset: 64934},
 			expr: &actionExpr{
-				pos: position{line: 2019, col: 5, offset: 65034},
+				pos: position{line: 2018, col: 5, offset: 64972},
 				run: (*parser).callonSingleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2019, col: 5, offset: 65034},
+					pos: position{line: 2018, col: 5, offset: 64972},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2019, col: 5, offset: 65034},
+							pos: position{line: 2018, col: 5, offset: 64972},
 							expr: &actionExpr{
-								pos: position{line: 2873, col: 10, offset: 90962},
+								pos: position{line: 2872, col: 10, offset: 90900},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2873, col: 10, offset: 90962},
+									pos:        position{line: 2872, col: 10, offset: 90900},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41843,18 +41799,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2020, col: 5, offset: 65073},
+							pos:   position{line: 2019, col: 5, offset: 65011},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2020, col: 14, offset: 65082},
+								pos: position{line: 2019, col: 14, offset: 65020},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2020, col: 15, offset: 65083},
+									pos:  position{line: 2019, col: 15, offset: 65021},
 									name: "SingleQuoteItalicTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2021, col: 5, offset: 65118},
+							pos: position{line: 2020, col: 5, offset: 65056},
 							run: (*parser).callonSingleQuoteItalicTextElements9,
 						},
 					},
@@ -41863,49 +41819,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElement",
-			pos:  position{line: 2027, col: 1, offset: 65259},
+			pos:  position{line: 2026, col: 1, offset: 65197},
 			expr: &actionExpr{
-				pos: position{line: 2028, col: 5, offset: 65296},
+				pos: position{line: 2027, col: 5, offset: 65234},
 				run: (*parser).callonSingleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2028, col: 5, offset: 65296},
+					pos: position{line: 2027, col: 5, offset: 65234},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2890, col: 11, offset: 91296},
+							pos: position{line: 2889, col: 11, offset: 91234},
 							expr: &anyMatcher{
-								line: 2890, col: 13, offset: 91298,
+								line: 2889, col: 13, offset: 91236,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2029, col: 5, offset: 65307},
+							pos: position{line: 2028, col: 5, offset: 65245},
 							expr: &seqExpr{
-								pos: position{line: 2003, col: 5, offset: 64549},
+								pos: position{line: 2002, col: 5, offset: 64487},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2003, col: 5, offset: 64549},
+										pos:        position{line: 2002, col: 5, offset: 64487},
 										val:        "_",
 										ignoreCase: false,
 										want:       "\"_\"",
 									},
 									&notExpr{
-										pos: position{line: 2004, col: 5, offset: 64558},
+										pos: position{line: 2003, col: 5, offset: 64496},
 										expr: &litMatcher{
-											pos:        position{line: 2004, col: 6, offset: 64559},
+											pos:        position{line: 2003, col: 6, offset: 64497},
 											val:        "_",
 											ignoreCase: false,
 											want:       "\"_\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2005, col: 5, offset: 64624},
+										pos: position{line: 2004, col: 5, offset: 64562},
 										run: (*parser).callonSingleQuoteItalicTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2009, col: 5, offset: 64735},
+										pos: position{line: 2008, col: 5, offset: 64673},
 										expr: &notExpr{
-											pos: position{line: 2009, col: 7, offset: 64737},
+											pos: position{line: 2008, col: 7, offset: 64675},
 											expr: &charClassMatcher{
-												pos:        position{line: 2763, col: 13, offset: 88036},
+												pos:        position{line: 2762, col: 13, offset: 87974},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41917,10 +41873,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2030, col: 5, offset: 65346},
+							pos:   position{line: 2029, col: 5, offset: 65284},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2030, col: 14, offset: 65355},
+								pos:  position{line: 2029, col: 14, offset: 65293},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41930,35 +41886,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedItalicText",
-			pos:  position{line: 2035, col: 1, offset: 65443},
+			pos:  position{line: 2034, col: 1, offset: 65381},
 			expr: &choiceExpr{
-				pos: position{line: 2037, col: 5, offset: 65508},
+				pos: position{line: 2036, col: 5, offset: 65446},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2037, col: 5, offset: 65508},
+						pos: position{line: 2036, col: 5, offset: 65446},
 						run: (*parser).callonEscapedItalicText2,
 						expr: &seqExpr{
-							pos: position{line: 2037, col: 5, offset: 65508},
+							pos: position{line: 2036, col: 5, offset: 65446},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2037, col: 5, offset: 65508},
+									pos:   position{line: 2036, col: 5, offset: 65446},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1853, col: 25, offset: 59923},
+										pos: position{line: 1852, col: 25, offset: 59861},
 										run: (*parser).callonEscapedItalicText5,
 										expr: &seqExpr{
-											pos: position{line: 1853, col: 25, offset: 59923},
+											pos: position{line: 1852, col: 25, offset: 59861},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1853, col: 25, offset: 59923},
+													pos:        position{line: 1852, col: 25, offset: 59861},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1853, col: 30, offset: 59928},
+													pos: position{line: 1852, col: 30, offset: 59866},
 													expr: &litMatcher{
-														pos:        position{line: 1853, col: 30, offset: 59928},
+														pos:        position{line: 1852, col: 30, offset: 59866},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -41969,21 +41925,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2037, col: 40, offset: 65543},
+									pos:        position{line: 2036, col: 40, offset: 65481},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2037, col: 45, offset: 65548},
+									pos:   position{line: 2036, col: 45, offset: 65486},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2037, col: 55, offset: 65558},
+										pos:  position{line: 2036, col: 55, offset: 65496},
 										name: "DoubleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2037, col: 86, offset: 65589},
+									pos:        position{line: 2036, col: 86, offset: 65527},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
@@ -41992,21 +41948,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2041, col: 7, offset: 65754},
+						pos: position{line: 2040, col: 7, offset: 65692},
 						run: (*parser).callonEscapedItalicText14,
 						expr: &seqExpr{
-							pos: position{line: 2041, col: 7, offset: 65754},
+							pos: position{line: 2040, col: 7, offset: 65692},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2041, col: 7, offset: 65754},
+									pos:   position{line: 2040, col: 7, offset: 65692},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1849, col: 25, offset: 59850},
+										pos: position{line: 1848, col: 25, offset: 59788},
 										run: (*parser).callonEscapedItalicText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1849, col: 25, offset: 59850},
+											pos: position{line: 1848, col: 25, offset: 59788},
 											expr: &litMatcher{
-												pos:        position{line: 1849, col: 25, offset: 59850},
+												pos:        position{line: 1848, col: 25, offset: 59788},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42015,21 +41971,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2041, col: 42, offset: 65789},
+									pos:        position{line: 2040, col: 42, offset: 65727},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2041, col: 47, offset: 65794},
+									pos:   position{line: 2040, col: 47, offset: 65732},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2041, col: 57, offset: 65804},
+										pos:  position{line: 2040, col: 57, offset: 65742},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2041, col: 88, offset: 65835},
+									pos:        position{line: 2040, col: 88, offset: 65773},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -42038,21 +41994,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2046, col: 7, offset: 66076},
+						pos: position{line: 2045, col: 7, offset: 66014},
 						run: (*parser).callonEscapedItalicText24,
 						expr: &seqExpr{
-							pos: position{line: 2046, col: 7, offset: 66076},
+							pos: position{line: 2045, col: 7, offset: 66014},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2046, col: 7, offset: 66076},
+									pos:   position{line: 2045, col: 7, offset: 66014},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1849, col: 25, offset: 59850},
+										pos: position{line: 1848, col: 25, offset: 59788},
 										run: (*parser).callonEscapedItalicText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1849, col: 25, offset: 59850},
+											pos: position{line: 1848, col: 25, offset: 59788},
 											expr: &litMatcher{
-												pos:        position{line: 1849, col: 25, offset: 59850},
+												pos:        position{line: 1848, col: 25, offset: 59788},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42061,21 +42017,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2046, col: 42, offset: 66111},
+									pos:        position{line: 2045, col: 42, offset: 66049},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2046, col: 46, offset: 66115},
+									pos:   position{line: 2045, col: 46, offset: 66053},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2046, col: 56, offset: 66125},
+										pos:  position{line: 2045, col: 56, offset: 66063},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2046, col: 87, offset: 66156},
+									pos:        position{line: 2045, col: 87, offset: 66094},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -42088,29 +42044,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceText",
-			pos:  position{line: 2063, col: 1, offset: 66720},
+			pos:  position{line: 2062, col: 1, offset: 66658},
 			expr: &actionExpr{
-				pos: position{line: 2064, col: 5, offset: 66753},
+				pos: position{line: 2063, col: 5, offset: 66691},
 				run: (*parser).callonDoubleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2064, col: 5, offset: 66753},
+					pos: position{line: 2063, col: 5, offset: 66691},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2059, col: 43, offset: 66668},
+							pos:        position{line: 2058, col: 43, offset: 66606},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2065, col: 5, offset: 66797},
+							pos:   position{line: 2064, col: 5, offset: 66735},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2065, col: 15, offset: 66807},
+								pos:  position{line: 2064, col: 15, offset: 66745},
 								name: "DoubleQuoteMonospaceTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2061, col: 41, offset: 66714},
+							pos:        position{line: 2060, col: 41, offset: 66652},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
@@ -42121,44 +42077,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElements",
-			pos:  position{line: 2070, col: 1, offset: 66982},
+			pos:  position{line: 2069, col: 1, offset: 66920},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 2070, col: 37, offset: 67018},
+				pos: position{line: 2069, col: 37, offset: 66956},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2070, col: 37, offset: 67018},
+					pos:  position{line: 2069, col: 37, offset: 66956},
 					name: "DoubleQuoteMonospaceTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElement",
-			pos:  position{line: 2072, col: 1, offset: 67085},
+			pos:  position{line: 2071, col: 1, offset: 67023},
 			expr: &actionExpr{
-				pos: position{line: 2073, col: 5, offset: 67125},
+				pos: position{line: 2072, col: 5, offset: 67063},
 				run: (*parser).callonDoubleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2073, col: 5, offset: 67125},
+					pos: position{line: 2072, col: 5, offset: 67063},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2890, col: 11, offset: 91296},
+							pos: position{line: 2889, col: 11, offset: 91234},
 							expr: &anyMatcher{
-								line: 2890, col: 13, offset: 91298,
+								line: 2889, col: 13, offset: 91236,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2074, col: 5, offset: 67136},
+							pos: position{line: 2073, col: 5, offset: 67074},
 							expr: &litMatcher{
-								pos:        position{line: 2061, col: 41, offset: 66714},
+								pos:        position{line: 2060, col: 41, offset: 66652},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2075, col: 5, offset: 67178},
+							pos:   position{line: 2074, col: 5, offset: 67116},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2075, col: 14, offset: 67187},
+								pos:  position{line: 2074, col: 14, offset: 67125},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42168,33 +42124,33 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextEndDelimiter",
-			pos:  position{line: 2093, col: 1, offset: 67729},
+			pos:  position{line: 2092, col: 1, offset: 67667},
 			expr: &seqExpr{
-				pos: position{line: 2094, col: 5, offset: 67774},
+				pos: position{line: 2093, col: 5, offset: 67712},
 				exprs: []interface{}{
 					&notExpr{
-						pos: position{line: 2094, col: 5, offset: 67774},
+						pos: position{line: 2093, col: 5, offset: 67712},
 						expr: &ruleRefExpr{
-							pos:  position{line: 2094, col: 6, offset: 67775},
+							pos:  position{line: 2093, col: 6, offset: 67713},
 							name: "QuotationMark",
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 2095, col: 5, offset: 67794},
+						pos:        position{line: 2094, col: 5, offset: 67732},
 						val:        "`",
 						ignoreCase: false,
 						want:       "\"`\"",
 					},
 					&andCodeExpr{
-						pos: position{line: 2096, col: 5, offset: 67802},
+						pos: position{line: 2095, col: 5, offset: 67740},
 						run: (*parser).callonSingleQuoteMonospaceTextEndDelimiter5,
 					},
 					&andExpr{
-						pos: position{line: 2100, col: 5, offset: 67916},
+						pos: position{line: 2099, col: 5, offset: 67854},
 						expr: &notExpr{
-							pos: position{line: 2100, col: 7, offset: 67918},
+							pos: position{line: 2099, col: 7, offset: 67856},
 							expr: &charClassMatcher{
-								pos:        position{line: 2763, col: 13, offset: 88036},
+								pos:        position{line: 2762, col: 13, offset: 87974},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -42207,29 +42163,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceText",
-			pos:  position{line: 2103, col: 1, offset: 67935},
+			pos:  position{line: 2102, col: 1, offset: 67873},
 			expr: &actionExpr{
-				pos: position{line: 2104, col: 5, offset: 67968},
+				pos: position{line: 2103, col: 5, offset: 67906},
 				run: (*parser).callonSingleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2104, col: 5, offset: 67968},
+					pos: position{line: 2103, col: 5, offset: 67906},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2086, col: 5, offset: 67531},
+							pos:        position{line: 2085, col: 5, offset: 67469},
 							val:        "`",
 							ignoreCase: false,
 							want:       "\"`\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2087, col: 5, offset: 67540},
+							pos: position{line: 2086, col: 5, offset: 67478},
 							run: (*parser).callonSingleQuoteMonospaceText4,
 						},
 						&andExpr{
-							pos: position{line: 2091, col: 5, offset: 67663},
+							pos: position{line: 2090, col: 5, offset: 67601},
 							expr: &notExpr{
-								pos: position{line: 2091, col: 7, offset: 67665},
+								pos: position{line: 2090, col: 7, offset: 67603},
 								expr: &litMatcher{
-									pos:        position{line: 2091, col: 8, offset: 67666},
+									pos:        position{line: 2090, col: 8, offset: 67604},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42237,15 +42193,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2105, col: 5, offset: 68012},
+							pos:   position{line: 2104, col: 5, offset: 67950},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2105, col: 15, offset: 68022},
+								pos:  position{line: 2104, col: 15, offset: 67960},
 								name: "SingleQuoteMonospaceTextElements",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 2106, col: 5, offset: 68061},
+							pos:  position{line: 2105, col: 5, offset: 67999},
 							name: "SingleQuoteMonospaceTextEndDelimiter",
 						},
 					},
@@ -42254,20 +42210,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElements",
-			pos:  position{line: 2110, col: 1, offset: 68198},
+			pos:  position{line: 2109, col: 1, offset: 68136},
 			expr: &actionExpr{
-				pos: position{line: 2111, col: 5, offset: 68239},
+				pos: position{line: 2110, col: 5, offset: 68177},
 				run: (*parser).callonSingleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2111, col: 5, offset: 68239},
+					pos: position{line: 2110, col: 5, offset: 68177},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2111, col: 5, offset: 68239},
+							pos: position{line: 2110, col: 5, offset: 68177},
 							expr: &actionExpr{
-								pos: position{line: 2873, col: 10, offset: 90962},
+								pos: position{line: 2872, col: 10, offset: 90900},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2873, col: 10, offset: 90962},
+									pos:        position{line: 2872, col: 10, offset: 90900},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42276,18 +42232,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2112, col: 5, offset: 68278},
+							pos:   position{line: 2111, col: 5, offset: 68216},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2112, col: 14, offset: 68287},
+								pos: position{line: 2111, col: 14, offset: 68225},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2112, col: 15, offset: 68288},
+									pos:  position{line: 2111, col: 15, offset: 68226},
 									name: "SingleQuoteMonospaceTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2113, col: 5, offset: 68326},
+							pos: position{line: 2112, col: 5, offset: 68264},
 							run: (*parser).callonSingleQuoteMonospaceTextElements9,
 						},
 					},
@@ -42296,31 +42252,31 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElement",
-			pos:  position{line: 2119, col: 1, offset: 68467},
+			pos:  position{line: 2118, col: 1, offset: 68405},
 			expr: &actionExpr{
-				pos: position{line: 2120, col: 5, offset: 68507},
+				pos: position{line: 2119, col: 5, offset: 68445},
 				run: (*parser).callonSingleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2120, col: 5, offset: 68507},
+					pos: position{line: 2119, col: 5, offset: 68445},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2890, col: 11, offset: 91296},
+							pos: position{line: 2889, col: 11, offset: 91234},
 							expr: &anyMatcher{
-								line: 2890, col: 13, offset: 91298,
+								line: 2889, col: 13, offset: 91236,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2121, col: 5, offset: 68518},
+							pos: position{line: 2120, col: 5, offset: 68456},
 							expr: &ruleRefExpr{
-								pos:  position{line: 2121, col: 6, offset: 68519},
+								pos:  position{line: 2120, col: 6, offset: 68457},
 								name: "SingleQuoteMonospaceTextEndDelimiter",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2122, col: 5, offset: 68560},
+							pos:   position{line: 2121, col: 5, offset: 68498},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2122, col: 14, offset: 68569},
+								pos:  position{line: 2121, col: 14, offset: 68507},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42330,35 +42286,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMonospaceText",
-			pos:  position{line: 2127, col: 1, offset: 68657},
+			pos:  position{line: 2126, col: 1, offset: 68595},
 			expr: &choiceExpr{
-				pos: position{line: 2129, col: 5, offset: 68728},
+				pos: position{line: 2128, col: 5, offset: 68666},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2129, col: 5, offset: 68728},
+						pos: position{line: 2128, col: 5, offset: 68666},
 						run: (*parser).callonEscapedMonospaceText2,
 						expr: &seqExpr{
-							pos: position{line: 2129, col: 5, offset: 68728},
+							pos: position{line: 2128, col: 5, offset: 68666},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2129, col: 5, offset: 68728},
+									pos:   position{line: 2128, col: 5, offset: 68666},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1853, col: 25, offset: 59923},
+										pos: position{line: 1852, col: 25, offset: 59861},
 										run: (*parser).callonEscapedMonospaceText5,
 										expr: &seqExpr{
-											pos: position{line: 1853, col: 25, offset: 59923},
+											pos: position{line: 1852, col: 25, offset: 59861},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1853, col: 25, offset: 59923},
+													pos:        position{line: 1852, col: 25, offset: 59861},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1853, col: 30, offset: 59928},
+													pos: position{line: 1852, col: 30, offset: 59866},
 													expr: &litMatcher{
-														pos:        position{line: 1853, col: 30, offset: 59928},
+														pos:        position{line: 1852, col: 30, offset: 59866},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42369,21 +42325,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2129, col: 40, offset: 68763},
+									pos:        position{line: 2128, col: 40, offset: 68701},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2129, col: 45, offset: 68768},
+									pos:   position{line: 2128, col: 45, offset: 68706},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2129, col: 55, offset: 68778},
+										pos:  position{line: 2128, col: 55, offset: 68716},
 										name: "DoubleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2129, col: 89, offset: 68812},
+									pos:        position{line: 2128, col: 89, offset: 68750},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
@@ -42392,21 +42348,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2133, col: 7, offset: 68981},
+						pos: position{line: 2132, col: 7, offset: 68919},
 						run: (*parser).callonEscapedMonospaceText14,
 						expr: &seqExpr{
-							pos: position{line: 2133, col: 7, offset: 68981},
+							pos: position{line: 2132, col: 7, offset: 68919},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2133, col: 7, offset: 68981},
+									pos:   position{line: 2132, col: 7, offset: 68919},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1849, col: 25, offset: 59850},
+										pos: position{line: 1848, col: 25, offset: 59788},
 										run: (*parser).callonEscapedMonospaceText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1849, col: 25, offset: 59850},
+											pos: position{line: 1848, col: 25, offset: 59788},
 											expr: &litMatcher{
-												pos:        position{line: 1849, col: 25, offset: 59850},
+												pos:        position{line: 1848, col: 25, offset: 59788},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42415,21 +42371,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2133, col: 42, offset: 69016},
+									pos:        position{line: 2132, col: 42, offset: 68954},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2133, col: 47, offset: 69021},
+									pos:   position{line: 2132, col: 47, offset: 68959},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2133, col: 57, offset: 69031},
+										pos:  position{line: 2132, col: 57, offset: 68969},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2133, col: 91, offset: 69065},
+									pos:        position{line: 2132, col: 91, offset: 69003},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42438,21 +42394,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2138, col: 7, offset: 69271},
+						pos: position{line: 2137, col: 7, offset: 69209},
 						run: (*parser).callonEscapedMonospaceText24,
 						expr: &seqExpr{
-							pos: position{line: 2138, col: 7, offset: 69271},
+							pos: position{line: 2137, col: 7, offset: 69209},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2138, col: 7, offset: 69271},
+									pos:   position{line: 2137, col: 7, offset: 69209},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1849, col: 25, offset: 59850},
+										pos: position{line: 1848, col: 25, offset: 59788},
 										run: (*parser).callonEscapedMonospaceText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1849, col: 25, offset: 59850},
+											pos: position{line: 1848, col: 25, offset: 59788},
 											expr: &litMatcher{
-												pos:        position{line: 1849, col: 25, offset: 59850},
+												pos:        position{line: 1848, col: 25, offset: 59788},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42461,21 +42417,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2138, col: 42, offset: 69306},
+									pos:        position{line: 2137, col: 42, offset: 69244},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2138, col: 46, offset: 69310},
+									pos:   position{line: 2137, col: 46, offset: 69248},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2138, col: 56, offset: 69320},
+										pos:  position{line: 2137, col: 56, offset: 69258},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2138, col: 90, offset: 69354},
+									pos:        position{line: 2137, col: 90, offset: 69292},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42488,29 +42444,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedText",
-			pos:  position{line: 2155, col: 1, offset: 69839},
+			pos:  position{line: 2154, col: 1, offset: 69777},
 			expr: &actionExpr{
-				pos: position{line: 2156, col: 5, offset: 69869},
+				pos: position{line: 2155, col: 5, offset: 69807},
 				run: (*parser).callonDoubleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2156, col: 5, offset: 69869},
+					pos: position{line: 2155, col: 5, offset: 69807},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2151, col: 40, offset: 69790},
+							pos:        position{line: 2150, col: 40, offset: 69728},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2157, col: 5, offset: 69910},
+							pos:   position{line: 2156, col: 5, offset: 69848},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2157, col: 15, offset: 69920},
+								pos:  position{line: 2156, col: 15, offset: 69858},
 								name: "DoubleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2153, col: 38, offset: 69833},
+							pos:        position{line: 2152, col: 38, offset: 69771},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
@@ -42521,44 +42477,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElements",
-			pos:  position{line: 2162, col: 1, offset: 70086},
+			pos:  position{line: 2161, col: 1, offset: 70024},
 			expr: &zeroOrMoreExpr{
-				pos: position{line: 2162, col: 34, offset: 70119},
+				pos: position{line: 2161, col: 34, offset: 70057},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2162, col: 34, offset: 70119},
+					pos:  position{line: 2161, col: 34, offset: 70057},
 					name: "DoubleQuoteMarkedTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMarkedTextElement",
-			pos:  position{line: 2164, col: 1, offset: 70150},
+			pos:  position{line: 2163, col: 1, offset: 70088},
 			expr: &actionExpr{
-				pos: position{line: 2165, col: 5, offset: 70219},
+				pos: position{line: 2164, col: 5, offset: 70157},
 				run: (*parser).callonDoubleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2165, col: 5, offset: 70219},
+					pos: position{line: 2164, col: 5, offset: 70157},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2890, col: 11, offset: 91296},
+							pos: position{line: 2889, col: 11, offset: 91234},
 							expr: &anyMatcher{
-								line: 2890, col: 13, offset: 91298,
+								line: 2889, col: 13, offset: 91236,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2166, col: 5, offset: 70230},
+							pos: position{line: 2165, col: 5, offset: 70168},
 							expr: &litMatcher{
-								pos:        position{line: 2153, col: 38, offset: 69833},
+								pos:        position{line: 2152, col: 38, offset: 69771},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2167, col: 5, offset: 70269},
+							pos:   position{line: 2166, col: 5, offset: 70207},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2167, col: 14, offset: 70278},
+								pos:  position{line: 2166, col: 14, offset: 70216},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42568,29 +42524,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedText",
-			pos:  position{line: 2192, col: 1, offset: 70960},
+			pos:  position{line: 2191, col: 1, offset: 70898},
 			expr: &actionExpr{
-				pos: position{line: 2193, col: 5, offset: 70990},
+				pos: position{line: 2192, col: 5, offset: 70928},
 				run: (*parser).callonSingleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2193, col: 5, offset: 70990},
+					pos: position{line: 2192, col: 5, offset: 70928},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2176, col: 5, offset: 70526},
+							pos:        position{line: 2175, col: 5, offset: 70464},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2177, col: 5, offset: 70535},
+							pos: position{line: 2176, col: 5, offset: 70473},
 							run: (*parser).callonSingleQuoteMarkedText4,
 						},
 						&andExpr{
-							pos: position{line: 2181, col: 5, offset: 70655},
+							pos: position{line: 2180, col: 5, offset: 70593},
 							expr: &notExpr{
-								pos: position{line: 2181, col: 7, offset: 70657},
+								pos: position{line: 2180, col: 7, offset: 70595},
 								expr: &litMatcher{
-									pos:        position{line: 2181, col: 8, offset: 70658},
+									pos:        position{line: 2180, col: 8, offset: 70596},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -42598,38 +42554,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2194, col: 5, offset: 71030},
+							pos:   position{line: 2193, col: 5, offset: 70968},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2194, col: 15, offset: 71040},
+								pos:  position{line: 2193, col: 15, offset: 70978},
 								name: "SingleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2184, col: 5, offset: 70763},
+							pos:        position{line: 2183, col: 5, offset: 70701},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&notExpr{
-							pos: position{line: 2185, col: 5, offset: 70771},
+							pos: position{line: 2184, col: 5, offset: 70709},
 							expr: &litMatcher{
-								pos:        position{line: 2185, col: 6, offset: 70772},
+								pos:        position{line: 2184, col: 6, offset: 70710},
 								val:        "#",
 								ignoreCase: false,
 								want:       "\"#\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2186, col: 5, offset: 70835},
+							pos: position{line: 2185, col: 5, offset: 70773},
 							run: (*parser).callonSingleQuoteMarkedText13,
 						},
 						&andExpr{
-							pos: position{line: 2190, col: 5, offset: 70946},
+							pos: position{line: 2189, col: 5, offset: 70884},
 							expr: &notExpr{
-								pos: position{line: 2190, col: 7, offset: 70948},
+								pos: position{line: 2189, col: 7, offset: 70886},
 								expr: &charClassMatcher{
-									pos:        position{line: 2763, col: 13, offset: 88036},
+									pos:        position{line: 2762, col: 13, offset: 87974},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -42643,20 +42599,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElements",
-			pos:  position{line: 2199, col: 1, offset: 71207},
+			pos:  position{line: 2198, col: 1, offset: 71145},
 			expr: &actionExpr{
-				pos: position{line: 2200, col: 5, offset: 71245},
+				pos: position{line: 2199, col: 5, offset: 71183},
 				run: (*parser).callonSingleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2200, col: 5, offset: 71245},
+					pos: position{line: 2199, col: 5, offset: 71183},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2200, col: 5, offset: 71245},
+							pos: position{line: 2199, col: 5, offset: 71183},
 							expr: &actionExpr{
-								pos: position{line: 2873, col: 10, offset: 90962},
+								pos: position{line: 2872, col: 10, offset: 90900},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2873, col: 10, offset: 90962},
+									pos:        position{line: 2872, col: 10, offset: 90900},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42665,18 +42621,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2201, col: 5, offset: 71284},
+							pos:   position{line: 2200, col: 5, offset: 71222},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2201, col: 14, offset: 71293},
+								pos: position{line: 2200, col: 14, offset: 71231},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2201, col: 15, offset: 71294},
+									pos:  position{line: 2200, col: 15, offset: 71232},
 									name: "SingleQuoteMarkedTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2202, col: 5, offset: 71330},
+							pos: position{line: 2201, col: 5, offset: 71268},
 							run: (*parser).callonSingleQuoteMarkedTextElements9,
 						},
 					},
@@ -42685,49 +42641,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElement",
-			pos:  position{line: 2208, col: 1, offset: 71471},
+			pos:  position{line: 2207, col: 1, offset: 71409},
 			expr: &actionExpr{
-				pos: position{line: 2209, col: 5, offset: 71508},
+				pos: position{line: 2208, col: 5, offset: 71446},
 				run: (*parser).callonSingleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2209, col: 5, offset: 71508},
+					pos: position{line: 2208, col: 5, offset: 71446},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2890, col: 11, offset: 91296},
+							pos: position{line: 2889, col: 11, offset: 91234},
 							expr: &anyMatcher{
-								line: 2890, col: 13, offset: 91298,
+								line: 2889, col: 13, offset: 91236,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2210, col: 5, offset: 71519},
+							pos: position{line: 2209, col: 5, offset: 71457},
 							expr: &seqExpr{
-								pos: position{line: 2184, col: 5, offset: 70763},
+								pos: position{line: 2183, col: 5, offset: 70701},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2184, col: 5, offset: 70763},
+										pos:        position{line: 2183, col: 5, offset: 70701},
 										val:        "#",
 										ignoreCase: false,
 										want:       "\"#\"",
 									},
 									&notExpr{
-										pos: position{line: 2185, col: 5, offset: 70771},
+										pos: position{line: 2184, col: 5, offset: 70709},
 										expr: &litMatcher{
-											pos:        position{line: 2185, col: 6, offset: 70772},
+											pos:        position{line: 2184, col: 6, offset: 70710},
 											val:        "#",
 											ignoreCase: false,
 											want:       "\"#\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2186, col: 5, offset: 70835},
+										pos: position{line: 2185, col: 5, offset: 70773},
 										run: (*parser).callonSingleQuoteMarkedTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2190, col: 5, offset: 70946},
+										pos: position{line: 2189, col: 5, offset: 70884},
 										expr: &notExpr{
-											pos: position{line: 2190, col: 7, offset: 70948},
+											pos: position{line: 2189, col: 7, offset: 70886},
 											expr: &charClassMatcher{
-												pos:        position{line: 2763, col: 13, offset: 88036},
+												pos:        position{line: 2762, col: 13, offset: 87974},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42739,10 +42695,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2211, col: 5, offset: 71558},
+							pos:   position{line: 2210, col: 5, offset: 71496},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2211, col: 14, offset: 71567},
+								pos:  position{line: 2210, col: 14, offset: 71505},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42752,35 +42708,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMarkedText",
-			pos:  position{line: 2216, col: 1, offset: 71655},
+			pos:  position{line: 2215, col: 1, offset: 71593},
 			expr: &choiceExpr{
-				pos: position{line: 2218, col: 5, offset: 71719},
+				pos: position{line: 2217, col: 5, offset: 71657},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2218, col: 5, offset: 71719},
+						pos: position{line: 2217, col: 5, offset: 71657},
 						run: (*parser).callonEscapedMarkedText2,
 						expr: &seqExpr{
-							pos: position{line: 2218, col: 5, offset: 71719},
+							pos: position{line: 2217, col: 5, offset: 71657},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2218, col: 5, offset: 71719},
+									pos:   position{line: 2217, col: 5, offset: 71657},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1853, col: 25, offset: 59923},
+										pos: position{line: 1852, col: 25, offset: 59861},
 										run: (*parser).callonEscapedMarkedText5,
 										expr: &seqExpr{
-											pos: position{line: 1853, col: 25, offset: 59923},
+											pos: position{line: 1852, col: 25, offset: 59861},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1853, col: 25, offset: 59923},
+													pos:        position{line: 1852, col: 25, offset: 59861},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1853, col: 30, offset: 59928},
+													pos: position{line: 1852, col: 30, offset: 59866},
 													expr: &litMatcher{
-														pos:        position{line: 1853, col: 30, offset: 59928},
+														pos:        position{line: 1852, col: 30, offset: 59866},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42791,21 +42747,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2218, col: 40, offset: 71754},
+									pos:        position{line: 2217, col: 40, offset: 71692},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2218, col: 45, offset: 71759},
+									pos:   position{line: 2217, col: 45, offset: 71697},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2218, col: 55, offset: 71769},
+										pos:  position{line: 2217, col: 55, offset: 71707},
 										name: "DoubleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2218, col: 86, offset: 71800},
+									pos:        position{line: 2217, col: 86, offset: 71738},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
@@ -42814,21 +42770,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2222, col: 7, offset: 71965},
+						pos: position{line: 2221, col: 7, offset: 71903},
 						run: (*parser).callonEscapedMarkedText14,
 						expr: &seqExpr{
-							pos: position{line: 2222, col: 7, offset: 71965},
+							pos: position{line: 2221, col: 7, offset: 71903},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2222, col: 7, offset: 71965},
+									pos:   position{line: 2221, col: 7, offset: 71903},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1849, col: 25, offset: 59850},
+										pos: position{line: 1848, col: 25, offset: 59788},
 										run: (*parser).callonEscapedMarkedText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1849, col: 25, offset: 59850},
+											pos: position{line: 1848, col: 25, offset: 59788},
 											expr: &litMatcher{
-												pos:        position{line: 1849, col: 25, offset: 59850},
+												pos:        position{line: 1848, col: 25, offset: 59788},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42837,21 +42793,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2222, col: 42, offset: 72000},
+									pos:        position{line: 2221, col: 42, offset: 71938},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2222, col: 47, offset: 72005},
+									pos:   position{line: 2221, col: 47, offset: 71943},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2222, col: 57, offset: 72015},
+										pos:  position{line: 2221, col: 57, offset: 71953},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2222, col: 88, offset: 72046},
+									pos:        position{line: 2221, col: 88, offset: 71984},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -42860,21 +42816,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2227, col: 7, offset: 72249},
+						pos: position{line: 2226, col: 7, offset: 72187},
 						run: (*parser).callonEscapedMarkedText24,
 						expr: &seqExpr{
-							pos: position{line: 2227, col: 7, offset: 72249},
+							pos: position{line: 2226, col: 7, offset: 72187},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2227, col: 7, offset: 72249},
+									pos:   position{line: 2226, col: 7, offset: 72187},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1849, col: 25, offset: 59850},
+										pos: position{line: 1848, col: 25, offset: 59788},
 										run: (*parser).callonEscapedMarkedText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1849, col: 25, offset: 59850},
+											pos: position{line: 1848, col: 25, offset: 59788},
 											expr: &litMatcher{
-												pos:        position{line: 1849, col: 25, offset: 59850},
+												pos:        position{line: 1848, col: 25, offset: 59788},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42883,21 +42839,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2227, col: 42, offset: 72284},
+									pos:        position{line: 2226, col: 42, offset: 72222},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2227, col: 46, offset: 72288},
+									pos:   position{line: 2226, col: 46, offset: 72226},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2227, col: 56, offset: 72298},
+										pos:  position{line: 2226, col: 56, offset: 72236},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2227, col: 87, offset: 72329},
+									pos:        position{line: 2226, col: 87, offset: 72267},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -42910,29 +42866,29 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptText",
-			pos:  position{line: 2234, col: 1, offset: 72596},
+			pos:  position{line: 2233, col: 1, offset: 72534},
 			expr: &actionExpr{
-				pos: position{line: 2235, col: 5, offset: 72618},
+				pos: position{line: 2234, col: 5, offset: 72556},
 				run: (*parser).callonSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2235, col: 5, offset: 72618},
+					pos: position{line: 2234, col: 5, offset: 72556},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2241, col: 27, offset: 72833},
+							pos:        position{line: 2240, col: 27, offset: 72771},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2236, col: 5, offset: 72645},
+							pos:   position{line: 2235, col: 5, offset: 72583},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2236, col: 14, offset: 72654},
+								pos:  position{line: 2235, col: 14, offset: 72592},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2241, col: 27, offset: 72833},
+							pos:        position{line: 2240, col: 27, offset: 72771},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -42943,43 +42899,43 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptTextElement",
-			pos:  position{line: 2243, col: 1, offset: 72838},
+			pos:  position{line: 2242, col: 1, offset: 72776},
 			expr: &choiceExpr{
-				pos: position{line: 2243, col: 25, offset: 72862},
+				pos: position{line: 2242, col: 25, offset: 72800},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2243, col: 25, offset: 72862},
+						pos:  position{line: 2242, col: 25, offset: 72800},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2245, col: 21, offset: 72914},
+						pos: position{line: 2244, col: 21, offset: 72852},
 						run: (*parser).callonSubscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2245, col: 21, offset: 72914},
+							pos:   position{line: 2244, col: 21, offset: 72852},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2245, col: 30, offset: 72923},
+								pos: position{line: 2244, col: 30, offset: 72861},
 								expr: &choiceExpr{
-									pos: position{line: 2245, col: 31, offset: 72924},
+									pos: position{line: 2244, col: 31, offset: 72862},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2467, col: 5, offset: 79394},
+											pos: position{line: 2466, col: 5, offset: 79332},
 											run: (*parser).callonSubscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2467, col: 5, offset: 79394},
+												pos: position{line: 2466, col: 5, offset: 79332},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2467, col: 5, offset: 79394},
+														pos: position{line: 2466, col: 5, offset: 79332},
 														run: (*parser).callonSubscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2470, col: 5, offset: 79470},
+														pos:   position{line: 2469, col: 5, offset: 79408},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2471, col: 9, offset: 79488},
+															pos: position{line: 2470, col: 9, offset: 79426},
 															run: (*parser).callonSubscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2471, col: 10, offset: 79489},
+																pos:        position{line: 2470, col: 10, offset: 79427},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -42991,7 +42947,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2245, col: 50, offset: 72943},
+											pos:        position{line: 2244, col: 50, offset: 72881},
 											val:        "[^\\r\\n ~]",
 											chars:      []rune{'\r', '\n', ' ', '~'},
 											ignoreCase: false,
@@ -43007,23 +42963,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2249, col: 1, offset: 72993},
+			pos:  position{line: 2248, col: 1, offset: 72931},
 			expr: &actionExpr{
-				pos: position{line: 2251, col: 5, offset: 73060},
+				pos: position{line: 2250, col: 5, offset: 72998},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2251, col: 5, offset: 73060},
+					pos: position{line: 2250, col: 5, offset: 72998},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2251, col: 5, offset: 73060},
+							pos:   position{line: 2250, col: 5, offset: 72998},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1849, col: 25, offset: 59850},
+								pos: position{line: 1848, col: 25, offset: 59788},
 								run: (*parser).callonEscapedSubscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1849, col: 25, offset: 59850},
+									pos: position{line: 1848, col: 25, offset: 59788},
 									expr: &litMatcher{
-										pos:        position{line: 1849, col: 25, offset: 59850},
+										pos:        position{line: 1848, col: 25, offset: 59788},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -43032,21 +42988,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2241, col: 27, offset: 72833},
+							pos:        position{line: 2240, col: 27, offset: 72771},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2253, col: 5, offset: 73128},
+							pos:   position{line: 2252, col: 5, offset: 73066},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2253, col: 14, offset: 73137},
+								pos:  position{line: 2252, col: 14, offset: 73075},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2241, col: 27, offset: 72833},
+							pos:        position{line: 2240, col: 27, offset: 72771},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -43057,29 +43013,29 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2261, col: 1, offset: 73400},
+			pos:  position{line: 2260, col: 1, offset: 73338},
 			expr: &actionExpr{
-				pos: position{line: 2262, col: 5, offset: 73424},
+				pos: position{line: 2261, col: 5, offset: 73362},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2262, col: 5, offset: 73424},
+					pos: position{line: 2261, col: 5, offset: 73362},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2268, col: 29, offset: 73651},
+							pos:        position{line: 2267, col: 29, offset: 73589},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2263, col: 5, offset: 73454},
+							pos:   position{line: 2262, col: 5, offset: 73392},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2263, col: 14, offset: 73463},
+								pos:  position{line: 2262, col: 14, offset: 73401},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2268, col: 29, offset: 73651},
+							pos:        position{line: 2267, col: 29, offset: 73589},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -43090,43 +43046,43 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2270, col: 1, offset: 73656},
+			pos:  position{line: 2269, col: 1, offset: 73594},
 			expr: &choiceExpr{
-				pos: position{line: 2270, col: 27, offset: 73682},
+				pos: position{line: 2269, col: 27, offset: 73620},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2270, col: 27, offset: 73682},
+						pos:  position{line: 2269, col: 27, offset: 73620},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2272, col: 23, offset: 73738},
+						pos: position{line: 2271, col: 23, offset: 73676},
 						run: (*parser).callonSuperscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2272, col: 23, offset: 73738},
+							pos:   position{line: 2271, col: 23, offset: 73676},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2272, col: 32, offset: 73747},
+								pos: position{line: 2271, col: 32, offset: 73685},
 								expr: &choiceExpr{
-									pos: position{line: 2272, col: 33, offset: 73748},
+									pos: position{line: 2271, col: 33, offset: 73686},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2467, col: 5, offset: 79394},
+											pos: position{line: 2466, col: 5, offset: 79332},
 											run: (*parser).callonSuperscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2467, col: 5, offset: 79394},
+												pos: position{line: 2466, col: 5, offset: 79332},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2467, col: 5, offset: 79394},
+														pos: position{line: 2466, col: 5, offset: 79332},
 														run: (*parser).callonSuperscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2470, col: 5, offset: 79470},
+														pos:   position{line: 2469, col: 5, offset: 79408},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2471, col: 9, offset: 79488},
+															pos: position{line: 2470, col: 9, offset: 79426},
 															run: (*parser).callonSuperscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2471, col: 10, offset: 79489},
+																pos:        position{line: 2470, col: 10, offset: 79427},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -43138,7 +43094,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2272, col: 52, offset: 73767},
+											pos:        position{line: 2271, col: 52, offset: 73705},
 											val:        "[^\\r\\n ^]",
 											chars:      []rune{'\r', '\n', ' ', '^'},
 											ignoreCase: false,
@@ -43154,23 +43110,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2276, col: 1, offset: 73817},
+			pos:  position{line: 2275, col: 1, offset: 73755},
 			expr: &actionExpr{
-				pos: position{line: 2278, col: 5, offset: 73889},
+				pos: position{line: 2277, col: 5, offset: 73827},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2278, col: 5, offset: 73889},
+					pos: position{line: 2277, col: 5, offset: 73827},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2278, col: 5, offset: 73889},
+							pos:   position{line: 2277, col: 5, offset: 73827},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1849, col: 25, offset: 59850},
+								pos: position{line: 1848, col: 25, offset: 59788},
 								run: (*parser).callonEscapedSuperscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1849, col: 25, offset: 59850},
+									pos: position{line: 1848, col: 25, offset: 59788},
 									expr: &litMatcher{
-										pos:        position{line: 1849, col: 25, offset: 59850},
+										pos:        position{line: 1848, col: 25, offset: 59788},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -43179,21 +43135,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2268, col: 29, offset: 73651},
+							pos:        position{line: 2267, col: 29, offset: 73589},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2280, col: 5, offset: 73959},
+							pos:   position{line: 2279, col: 5, offset: 73897},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2280, col: 14, offset: 73968},
+								pos:  position{line: 2279, col: 14, offset: 73906},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2268, col: 29, offset: 73651},
+							pos:        position{line: 2267, col: 29, offset: 73589},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -43204,27 +43160,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2289, col: 1, offset: 74437},
+			pos:  position{line: 2288, col: 1, offset: 74375},
 			expr: &actionExpr{
-				pos: position{line: 2290, col: 5, offset: 74453},
+				pos: position{line: 2289, col: 5, offset: 74391},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2290, col: 5, offset: 74453},
+					pos: position{line: 2289, col: 5, offset: 74391},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2290, col: 5, offset: 74453},
+							pos: position{line: 2289, col: 5, offset: 74391},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2293, col: 5, offset: 74516},
+							pos:   position{line: 2292, col: 5, offset: 74454},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2293, col: 12, offset: 74523},
+								pos: position{line: 2292, col: 12, offset: 74461},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2293, col: 12, offset: 74523},
+									pos: position{line: 2292, col: 12, offset: 74461},
 									expr: &litMatcher{
-										pos:        position{line: 2293, col: 13, offset: 74524},
+										pos:        position{line: 2292, col: 13, offset: 74462},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -43233,16 +43189,16 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2297, col: 5, offset: 74632},
+							pos: position{line: 2296, col: 5, offset: 74570},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2877, col: 11, offset: 91023},
+							pos: position{line: 2876, col: 11, offset: 90961},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2877, col: 11, offset: 91023},
+								pos: position{line: 2876, col: 11, offset: 90961},
 								expr: &charClassMatcher{
-									pos:        position{line: 2877, col: 11, offset: 91023},
+									pos:        position{line: 2876, col: 11, offset: 90961},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43251,36 +43207,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2301, col: 12, offset: 74791},
+							pos:   position{line: 2300, col: 12, offset: 74729},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2301, col: 19, offset: 74798},
+								pos:  position{line: 2300, col: 19, offset: 74736},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2895, col: 8, offset: 91360},
+							pos: position{line: 2894, col: 8, offset: 91298},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2882, col: 12, offset: 91133},
+									pos: position{line: 2881, col: 12, offset: 91071},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2882, col: 13, offset: 91134},
+										pos: position{line: 2881, col: 13, offset: 91072},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2882, col: 13, offset: 91134},
+												pos:        position{line: 2881, col: 13, offset: 91072},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 20, offset: 91141},
+												pos:        position{line: 2881, col: 20, offset: 91079},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 29, offset: 91150},
+												pos:        position{line: 2881, col: 29, offset: 91088},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -43289,9 +43245,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2892, col: 8, offset: 91310},
+									pos: position{line: 2891, col: 8, offset: 91248},
 									expr: &anyMatcher{
-										line: 2892, col: 9, offset: 91311,
+										line: 2891, col: 9, offset: 91249,
 									},
 								},
 							},
@@ -43302,24 +43258,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2305, col: 1, offset: 74894},
+			pos:  position{line: 2304, col: 1, offset: 74832},
 			expr: &actionExpr{
-				pos: position{line: 2306, col: 5, offset: 74915},
+				pos: position{line: 2305, col: 5, offset: 74853},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2306, col: 5, offset: 74915},
+					pos: position{line: 2305, col: 5, offset: 74853},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2306, col: 5, offset: 74915},
+							pos: position{line: 2305, col: 5, offset: 74853},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2311, col: 5, offset: 75030},
+							pos:   position{line: 2310, col: 5, offset: 74968},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2311, col: 14, offset: 75039},
+								pos: position{line: 2310, col: 14, offset: 74977},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2311, col: 15, offset: 75040},
+									pos:  position{line: 2310, col: 15, offset: 74978},
 									name: "SectionTitleElement",
 								},
 							},
@@ -43330,38 +43286,38 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2315, col: 1, offset: 75121},
+			pos:  position{line: 2314, col: 1, offset: 75059},
 			expr: &actionExpr{
-				pos: position{line: 2316, col: 5, offset: 75148},
+				pos: position{line: 2315, col: 5, offset: 75086},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2316, col: 5, offset: 75148},
+					pos: position{line: 2315, col: 5, offset: 75086},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2316, col: 5, offset: 75148},
+							pos: position{line: 2315, col: 5, offset: 75086},
 							expr: &choiceExpr{
-								pos: position{line: 2895, col: 8, offset: 91360},
+								pos: position{line: 2894, col: 8, offset: 91298},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2882, col: 12, offset: 91133},
+										pos: position{line: 2881, col: 12, offset: 91071},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2882, col: 13, offset: 91134},
+											pos: position{line: 2881, col: 13, offset: 91072},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2882, col: 13, offset: 91134},
+													pos:        position{line: 2881, col: 13, offset: 91072},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2882, col: 20, offset: 91141},
+													pos:        position{line: 2881, col: 20, offset: 91079},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2882, col: 29, offset: 91150},
+													pos:        position{line: 2881, col: 29, offset: 91088},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -43370,29 +43326,29 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2892, col: 8, offset: 91310},
+										pos: position{line: 2891, col: 8, offset: 91248},
 										expr: &anyMatcher{
-											line: 2892, col: 9, offset: 91311,
+											line: 2891, col: 9, offset: 91249,
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2317, col: 5, offset: 75157},
+							pos:   position{line: 2316, col: 5, offset: 75095},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2317, col: 14, offset: 75166},
+								pos: position{line: 2316, col: 14, offset: 75104},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2317, col: 14, offset: 75166},
+										pos:  position{line: 2316, col: 14, offset: 75104},
 										name: "SectionTitleLineElement",
 									},
 									&actionExpr{
-										pos: position{line: 2812, col: 12, offset: 89270},
+										pos: position{line: 2811, col: 12, offset: 89208},
 										run: (*parser).callonSectionTitleElement15,
 										expr: &charClassMatcher{
-											pos:        position{line: 2812, col: 12, offset: 89270},
+											pos:        position{line: 2811, col: 12, offset: 89208},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -43408,21 +43364,21 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleLineElement",
-			pos:  position{line: 2322, col: 1, offset: 75270},
+			pos:  position{line: 2321, col: 1, offset: 75208},
 			expr: &actionExpr{
-				pos: position{line: 2323, col: 5, offset: 75301},
+				pos: position{line: 2322, col: 5, offset: 75239},
 				run: (*parser).callonSectionTitleLineElement1,
 				expr: &seqExpr{
-					pos: position{line: 2323, col: 5, offset: 75301},
+					pos: position{line: 2322, col: 5, offset: 75239},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2323, col: 5, offset: 75301},
+							pos:   position{line: 2322, col: 5, offset: 75239},
 							label: "start",
 							expr: &actionExpr{
-								pos: position{line: 2898, col: 16, offset: 91484},
+								pos: position{line: 2897, col: 16, offset: 91422},
 								run: (*parser).callonSectionTitleLineElement4,
 								expr: &litMatcher{
-									pos:        position{line: 2898, col: 16, offset: 91484},
+									pos:        position{line: 2897, col: 16, offset: 91422},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -43430,27 +43386,27 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2324, col: 5, offset: 75325},
+							pos:   position{line: 2323, col: 5, offset: 75263},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2325, col: 9, offset: 75343},
+								pos: position{line: 2324, col: 9, offset: 75281},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2772, col: 5, offset: 88183},
+										pos: position{line: 2771, col: 5, offset: 88121},
 										run: (*parser).callonSectionTitleLineElement8,
 										expr: &seqExpr{
-											pos: position{line: 2772, col: 5, offset: 88183},
+											pos: position{line: 2771, col: 5, offset: 88121},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2772, col: 5, offset: 88183},
+													pos:   position{line: 2771, col: 5, offset: 88121},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2772, col: 11, offset: 88189},
+														pos: position{line: 2771, col: 11, offset: 88127},
 														run: (*parser).callonSectionTitleLineElement11,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2772, col: 11, offset: 88189},
+															pos: position{line: 2771, col: 11, offset: 88127},
 															expr: &charClassMatcher{
-																pos:        position{line: 2772, col: 11, offset: 88189},
+																pos:        position{line: 2771, col: 11, offset: 88127},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -43460,44 +43416,44 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2775, col: 5, offset: 88247},
+													pos: position{line: 2774, col: 5, offset: 88185},
 													expr: &seqExpr{
-														pos: position{line: 2776, col: 9, offset: 88258},
+														pos: position{line: 2775, col: 9, offset: 88196},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2776, col: 9, offset: 88258},
+																pos:        position{line: 2775, col: 9, offset: 88196},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2777, col: 9, offset: 88307},
+																pos: position{line: 2776, col: 9, offset: 88245},
 																run: (*parser).callonSectionTitleLineElement17,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2781, col: 5, offset: 88387},
+													pos: position{line: 2780, col: 5, offset: 88325},
 													expr: &seqExpr{
-														pos: position{line: 2782, col: 9, offset: 88398},
+														pos: position{line: 2781, col: 9, offset: 88336},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2782, col: 9, offset: 88398},
+																pos: position{line: 2781, col: 9, offset: 88336},
 																expr: &seqExpr{
-																	pos: position{line: 2782, col: 10, offset: 88399},
+																	pos: position{line: 2781, col: 10, offset: 88337},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2782, col: 10, offset: 88399},
+																			pos:        position{line: 2781, col: 10, offset: 88337},
 																			val:        "[._%+-]",
 																			chars:      []rune{'.', '_', '%', '+', '-'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2782, col: 18, offset: 88407},
+																			pos: position{line: 2781, col: 18, offset: 88345},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2782, col: 18, offset: 88407},
+																				pos:        position{line: 2781, col: 18, offset: 88345},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -43508,13 +43464,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2782, col: 30, offset: 88419},
+																pos:        position{line: 2781, col: 30, offset: 88357},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2782, col: 34, offset: 88423},
+																pos:        position{line: 2781, col: 34, offset: 88361},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -43527,12 +43483,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2877, col: 11, offset: 91023},
+										pos: position{line: 2876, col: 11, offset: 90961},
 										run: (*parser).callonSectionTitleLineElement27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2877, col: 11, offset: 91023},
+											pos: position{line: 2876, col: 11, offset: 90961},
 											expr: &charClassMatcher{
-												pos:        position{line: 2877, col: 11, offset: 91023},
+												pos:        position{line: 2876, col: 11, offset: 90961},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -43541,25 +43497,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2498, col: 5, offset: 80565},
+										pos: position{line: 2497, col: 5, offset: 80503},
 										run: (*parser).callonSectionTitleLineElement30,
 										expr: &seqExpr{
-											pos: position{line: 2498, col: 5, offset: 80565},
+											pos: position{line: 2497, col: 5, offset: 80503},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2498, col: 5, offset: 80565},
+													pos: position{line: 2497, col: 5, offset: 80503},
 													run: (*parser).callonSectionTitleLineElement32,
 												},
 												&litMatcher{
-													pos:        position{line: 2501, col: 5, offset: 80636},
+													pos:        position{line: 2500, col: 5, offset: 80574},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2501, col: 10, offset: 80641},
+													pos: position{line: 2500, col: 10, offset: 80579},
 													expr: &charClassMatcher{
-														pos:        position{line: 2501, col: 11, offset: 80642},
+														pos:        position{line: 2500, col: 11, offset: 80580},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -43570,29 +43526,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2507, col: 5, offset: 80834},
+										pos: position{line: 2506, col: 5, offset: 80772},
 										run: (*parser).callonSectionTitleLineElement36,
 										expr: &seqExpr{
-											pos: position{line: 2507, col: 5, offset: 80834},
+											pos: position{line: 2506, col: 5, offset: 80772},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2507, col: 5, offset: 80834},
+													pos: position{line: 2506, col: 5, offset: 80772},
 													run: (*parser).callonSectionTitleLineElement38,
 												},
 												&andCodeExpr{
-													pos: position{line: 2510, col: 5, offset: 80905},
+													pos: position{line: 2509, col: 5, offset: 80843},
 													run: (*parser).callonSectionTitleLineElement39,
 												},
 												&litMatcher{
-													pos:        position{line: 2514, col: 5, offset: 81030},
+													pos:        position{line: 2513, col: 5, offset: 80968},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2514, col: 9, offset: 81034},
+													pos: position{line: 2513, col: 9, offset: 80972},
 													expr: &charClassMatcher{
-														pos:        position{line: 2514, col: 10, offset: 81035},
+														pos:        position{line: 2513, col: 10, offset: 80973},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -43603,31 +43559,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2328, col: 11, offset: 75408},
+										pos:  position{line: 2327, col: 11, offset: 75346},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2790, col: 5, offset: 88616},
+										pos: position{line: 2789, col: 5, offset: 88554},
 										run: (*parser).callonSectionTitleLineElement44,
 										expr: &choiceExpr{
-											pos: position{line: 2791, col: 9, offset: 88626},
+											pos: position{line: 2790, col: 9, offset: 88564},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2791, col: 10, offset: 88627},
+													pos:        position{line: 2790, col: 10, offset: 88565},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2793, col: 13, offset: 88724},
+													pos: position{line: 2792, col: 13, offset: 88662},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2793, col: 13, offset: 88724},
+															pos: position{line: 2792, col: 13, offset: 88662},
 															run: (*parser).callonSectionTitleLineElement48,
 														},
 														&litMatcher{
-															pos:        position{line: 2796, col: 13, offset: 88824},
+															pos:        position{line: 2795, col: 13, offset: 88762},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -43635,20 +43591,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2796, col: 19, offset: 88830},
+													pos:        position{line: 2795, col: 19, offset: 88768},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2799, col: 13, offset: 88868},
+													pos: position{line: 2798, col: 13, offset: 88806},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2799, col: 13, offset: 88868},
+															pos: position{line: 2798, col: 13, offset: 88806},
 															run: (*parser).callonSectionTitleLineElement52,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2802, col: 14, offset: 88961},
+															pos:        position{line: 2801, col: 14, offset: 88899},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -43657,18 +43613,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2804, col: 12, offset: 89005},
+													pos: position{line: 2803, col: 12, offset: 88943},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2804, col: 12, offset: 89005},
+															pos:        position{line: 2803, col: 12, offset: 88943},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2804, col: 16, offset: 89009},
+															pos: position{line: 2803, col: 16, offset: 88947},
 															expr: &litMatcher{
-																pos:        position{line: 2804, col: 17, offset: 89010},
+																pos:        position{line: 2803, col: 17, offset: 88948},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -43680,35 +43636,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2330, col: 11, offset: 75481},
+										pos:  position{line: 2329, col: 11, offset: 75419},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2331, col: 11, offset: 75497},
+										pos:  position{line: 2330, col: 11, offset: 75435},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2332, col: 11, offset: 75525},
+										pos:  position{line: 2331, col: 11, offset: 75463},
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2467, col: 5, offset: 79394},
+										pos: position{line: 2466, col: 5, offset: 79332},
 										run: (*parser).callonSectionTitleLineElement61,
 										expr: &seqExpr{
-											pos: position{line: 2467, col: 5, offset: 79394},
+											pos: position{line: 2466, col: 5, offset: 79332},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2467, col: 5, offset: 79394},
+													pos: position{line: 2466, col: 5, offset: 79332},
 													run: (*parser).callonSectionTitleLineElement63,
 												},
 												&labeledExpr{
-													pos:   position{line: 2470, col: 5, offset: 79470},
+													pos:   position{line: 2469, col: 5, offset: 79408},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2471, col: 9, offset: 79488},
+														pos: position{line: 2470, col: 9, offset: 79426},
 														run: (*parser).callonSectionTitleLineElement65,
 														expr: &charClassMatcher{
-															pos:        position{line: 2471, col: 10, offset: 79489},
+															pos:        position{line: 2470, col: 10, offset: 79427},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -43720,48 +43676,48 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2334, col: 11, offset: 75610},
+										pos:  position{line: 2333, col: 11, offset: 75548},
 										name: "InlineIcon",
 									},
 									&actionExpr{
-										pos: position{line: 636, col: 5, offset: 20178},
+										pos: position{line: 635, col: 5, offset: 20116},
 										run: (*parser).callonSectionTitleLineElement68,
 										expr: &seqExpr{
-											pos: position{line: 636, col: 5, offset: 20178},
+											pos: position{line: 635, col: 5, offset: 20116},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 636, col: 5, offset: 20178},
+													pos: position{line: 635, col: 5, offset: 20116},
 													run: (*parser).callonSectionTitleLineElement70,
 												},
 												&labeledExpr{
-													pos:   position{line: 639, col: 5, offset: 20250},
+													pos:   position{line: 638, col: 5, offset: 20188},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 639, col: 14, offset: 20259},
+														pos: position{line: 638, col: 14, offset: 20197},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 645, col: 5, offset: 20388},
+																pos: position{line: 644, col: 5, offset: 20326},
 																run: (*parser).callonSectionTitleLineElement73,
 																expr: &seqExpr{
-																	pos: position{line: 645, col: 5, offset: 20388},
+																	pos: position{line: 644, col: 5, offset: 20326},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 645, col: 5, offset: 20388},
+																			pos:        position{line: 644, col: 5, offset: 20326},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 645, col: 13, offset: 20396},
+																			pos:   position{line: 644, col: 13, offset: 20334},
 																			label: "name",
 																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9729},
+																				pos: position{line: 317, col: 18, offset: 9667},
 																				run: (*parser).callonSectionTitleLineElement77,
 																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9729},
+																					pos: position{line: 317, col: 18, offset: 9667},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9729},
+																							pos:        position{line: 317, col: 18, offset: 9667},
 																							val:        "[_\\pL\\pN]",
 																							chars:      []rune{'_'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -43769,9 +43725,9 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9739},
+																							pos: position{line: 317, col: 28, offset: 9677},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9740},
+																								pos:        position{line: 317, col: 29, offset: 9678},
 																								val:        "[_-\\pL\\pN]",
 																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -43784,7 +43740,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 645, col: 32, offset: 20415},
+																			pos:        position{line: 644, col: 32, offset: 20353},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -43793,28 +43749,28 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 652, col: 5, offset: 20656},
+																pos: position{line: 651, col: 5, offset: 20594},
 																run: (*parser).callonSectionTitleLineElement83,
 																expr: &seqExpr{
-																	pos: position{line: 652, col: 5, offset: 20656},
+																	pos: position{line: 651, col: 5, offset: 20594},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 652, col: 5, offset: 20656},
+																			pos:        position{line: 651, col: 5, offset: 20594},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 652, col: 9, offset: 20660},
+																			pos:   position{line: 651, col: 9, offset: 20598},
 																			label: "name",
 																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9729},
+																				pos: position{line: 317, col: 18, offset: 9667},
 																				run: (*parser).callonSectionTitleLineElement87,
 																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9729},
+																					pos: position{line: 317, col: 18, offset: 9667},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9729},
+																							pos:        position{line: 317, col: 18, offset: 9667},
 																							val:        "[_\\pL\\pN]",
 																							chars:      []rune{'_'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -43822,9 +43778,9 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9739},
+																							pos: position{line: 317, col: 28, offset: 9677},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9740},
+																								pos:        position{line: 317, col: 29, offset: 9678},
 																								val:        "[_-\\pL\\pN]",
 																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -43837,7 +43793,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 652, col: 28, offset: 20679},
+																			pos:        position{line: 651, col: 28, offset: 20617},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -43846,28 +43802,28 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 658, col: 25, offset: 20860},
+																pos: position{line: 657, col: 25, offset: 20798},
 																run: (*parser).callonSectionTitleLineElement93,
 																expr: &seqExpr{
-																	pos: position{line: 658, col: 25, offset: 20860},
+																	pos: position{line: 657, col: 25, offset: 20798},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 658, col: 25, offset: 20860},
+																			pos:        position{line: 657, col: 25, offset: 20798},
 																			val:        "{counter:",
 																			ignoreCase: false,
 																			want:       "\"{counter:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 658, col: 37, offset: 20872},
+																			pos:   position{line: 657, col: 37, offset: 20810},
 																			label: "name",
 																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9729},
+																				pos: position{line: 317, col: 18, offset: 9667},
 																				run: (*parser).callonSectionTitleLineElement97,
 																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9729},
+																					pos: position{line: 317, col: 18, offset: 9667},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9729},
+																							pos:        position{line: 317, col: 18, offset: 9667},
 																							val:        "[_\\pL\\pN]",
 																							chars:      []rune{'_'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -43875,9 +43831,9 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9739},
+																							pos: position{line: 317, col: 28, offset: 9677},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9740},
+																								pos:        position{line: 317, col: 29, offset: 9678},
 																								val:        "[_-\\pL\\pN]",
 																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -43890,33 +43846,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 658, col: 56, offset: 20891},
+																			pos:   position{line: 657, col: 56, offset: 20829},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 658, col: 62, offset: 20897},
+																				pos: position{line: 657, col: 62, offset: 20835},
 																				expr: &actionExpr{
-																					pos: position{line: 666, col: 17, offset: 21192},
+																					pos: position{line: 665, col: 17, offset: 21130},
 																					run: (*parser).callonSectionTitleLineElement104,
 																					expr: &seqExpr{
-																						pos: position{line: 666, col: 17, offset: 21192},
+																						pos: position{line: 665, col: 17, offset: 21130},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 666, col: 17, offset: 21192},
+																								pos:        position{line: 665, col: 17, offset: 21130},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 666, col: 21, offset: 21196},
+																								pos:   position{line: 665, col: 21, offset: 21134},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 666, col: 28, offset: 21203},
+																									pos: position{line: 665, col: 28, offset: 21141},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 666, col: 28, offset: 21203},
+																											pos: position{line: 665, col: 28, offset: 21141},
 																											run: (*parser).callonSectionTitleLineElement109,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 666, col: 28, offset: 21203},
+																												pos:        position{line: 665, col: 28, offset: 21141},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -43924,12 +43880,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 668, col: 9, offset: 21257},
+																											pos: position{line: 667, col: 9, offset: 21195},
 																											run: (*parser).callonSectionTitleLineElement111,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 668, col: 9, offset: 21257},
+																												pos: position{line: 667, col: 9, offset: 21195},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 668, col: 9, offset: 21257},
+																													pos:        position{line: 667, col: 9, offset: 21195},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -43946,7 +43902,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 658, col: 78, offset: 20913},
+																			pos:        position{line: 657, col: 78, offset: 20851},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -43955,28 +43911,28 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 662, col: 25, offset: 21031},
+																pos: position{line: 661, col: 25, offset: 20969},
 																run: (*parser).callonSectionTitleLineElement115,
 																expr: &seqExpr{
-																	pos: position{line: 662, col: 25, offset: 21031},
+																	pos: position{line: 661, col: 25, offset: 20969},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 662, col: 25, offset: 21031},
+																			pos:        position{line: 661, col: 25, offset: 20969},
 																			val:        "{counter2:",
 																			ignoreCase: false,
 																			want:       "\"{counter2:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 662, col: 38, offset: 21044},
+																			pos:   position{line: 661, col: 38, offset: 20982},
 																			label: "name",
 																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9729},
+																				pos: position{line: 317, col: 18, offset: 9667},
 																				run: (*parser).callonSectionTitleLineElement119,
 																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9729},
+																					pos: position{line: 317, col: 18, offset: 9667},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9729},
+																							pos:        position{line: 317, col: 18, offset: 9667},
 																							val:        "[_\\pL\\pN]",
 																							chars:      []rune{'_'},
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -43984,9 +43940,9 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9739},
+																							pos: position{line: 317, col: 28, offset: 9677},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9740},
+																								pos:        position{line: 317, col: 29, offset: 9678},
 																								val:        "[_-\\pL\\pN]",
 																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -43999,33 +43955,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 662, col: 57, offset: 21063},
+																			pos:   position{line: 661, col: 57, offset: 21001},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 662, col: 63, offset: 21069},
+																				pos: position{line: 661, col: 63, offset: 21007},
 																				expr: &actionExpr{
-																					pos: position{line: 666, col: 17, offset: 21192},
+																					pos: position{line: 665, col: 17, offset: 21130},
 																					run: (*parser).callonSectionTitleLineElement126,
 																					expr: &seqExpr{
-																						pos: position{line: 666, col: 17, offset: 21192},
+																						pos: position{line: 665, col: 17, offset: 21130},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 666, col: 17, offset: 21192},
+																								pos:        position{line: 665, col: 17, offset: 21130},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 666, col: 21, offset: 21196},
+																								pos:   position{line: 665, col: 21, offset: 21134},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 666, col: 28, offset: 21203},
+																									pos: position{line: 665, col: 28, offset: 21141},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 666, col: 28, offset: 21203},
+																											pos: position{line: 665, col: 28, offset: 21141},
 																											run: (*parser).callonSectionTitleLineElement131,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 666, col: 28, offset: 21203},
+																												pos:        position{line: 665, col: 28, offset: 21141},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -44033,12 +43989,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 668, col: 9, offset: 21257},
+																											pos: position{line: 667, col: 9, offset: 21195},
 																											run: (*parser).callonSectionTitleLineElement133,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 668, col: 9, offset: 21257},
+																												pos: position{line: 667, col: 9, offset: 21195},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 668, col: 9, offset: 21257},
+																													pos:        position{line: 667, col: 9, offset: 21195},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -44055,7 +44011,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 662, col: 79, offset: 21085},
+																			pos:        position{line: 661, col: 79, offset: 21023},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -44070,27 +44026,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1198, col: 23, offset: 37046},
+										pos: position{line: 1197, col: 23, offset: 36984},
 										run: (*parser).callonSectionTitleLineElement137,
 										expr: &seqExpr{
-											pos: position{line: 1198, col: 23, offset: 37046},
+											pos: position{line: 1197, col: 23, offset: 36984},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1196, col: 32, offset: 37014},
+													pos:        position{line: 1195, col: 32, offset: 36952},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1198, col: 51, offset: 37074},
+													pos:   position{line: 1197, col: 51, offset: 37012},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1198, col: 56, offset: 37079},
+														pos: position{line: 1197, col: 56, offset: 37017},
 														run: (*parser).callonSectionTitleLineElement141,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1198, col: 56, offset: 37079},
+															pos: position{line: 1197, col: 56, offset: 37017},
 															expr: &charClassMatcher{
-																pos:        position{line: 1198, col: 56, offset: 37079},
+																pos:        position{line: 1197, col: 56, offset: 37017},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -44100,7 +44056,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1196, col: 32, offset: 37014},
+													pos:        position{line: 1195, col: 32, offset: 36952},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
@@ -44109,51 +44065,51 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2350, col: 5, offset: 76104},
+										pos: position{line: 2349, col: 5, offset: 76042},
 										run: (*parser).callonSectionTitleLineElement145,
 										expr: &seqExpr{
-											pos: position{line: 2350, col: 5, offset: 76104},
+											pos: position{line: 2349, col: 5, offset: 76042},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2350, col: 5, offset: 76104},
+													pos: position{line: 2349, col: 5, offset: 76042},
 													run: (*parser).callonSectionTitleLineElement147,
 												},
 												&labeledExpr{
-													pos:   position{line: 2353, col: 5, offset: 76159},
+													pos:   position{line: 2352, col: 5, offset: 76097},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 404, col: 5, offset: 12406},
+														pos: position{line: 403, col: 5, offset: 12344},
 														run: (*parser).callonSectionTitleLineElement149,
 														expr: &seqExpr{
-															pos: position{line: 404, col: 5, offset: 12406},
+															pos: position{line: 403, col: 5, offset: 12344},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 404, col: 5, offset: 12406},
+																	pos:        position{line: 403, col: 5, offset: 12344},
 																	val:        "[[",
 																	ignoreCase: false,
 																	want:       "\"[[\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 405, col: 5, offset: 12416},
+																	pos:   position{line: 404, col: 5, offset: 12354},
 																	label: "id",
 																	expr: &actionExpr{
-																		pos: position{line: 406, col: 9, offset: 12429},
+																		pos: position{line: 405, col: 9, offset: 12367},
 																		run: (*parser).callonSectionTitleLineElement153,
 																		expr: &labeledExpr{
-																			pos:   position{line: 406, col: 9, offset: 12429},
+																			pos:   position{line: 405, col: 9, offset: 12367},
 																			label: "elements",
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 406, col: 18, offset: 12438},
+																				pos: position{line: 405, col: 18, offset: 12376},
 																				expr: &choiceExpr{
-																					pos: position{line: 407, col: 13, offset: 12452},
+																					pos: position{line: 406, col: 13, offset: 12390},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 407, col: 14, offset: 12453},
+																							pos: position{line: 406, col: 14, offset: 12391},
 																							run: (*parser).callonSectionTitleLineElement157,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 407, col: 14, offset: 12453},
+																								pos: position{line: 406, col: 14, offset: 12391},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 407, col: 14, offset: 12453},
+																									pos:        position{line: 406, col: 14, offset: 12391},
 																									val:        "[^=\\r\\n�{]]",
 																									chars:      []rune{'=', '\r', '\n', '�', '{', ']'},
 																									ignoreCase: false,
@@ -44162,27 +44118,27 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 1198, col: 23, offset: 37046},
+																							pos: position{line: 1197, col: 23, offset: 36984},
 																							run: (*parser).callonSectionTitleLineElement160,
 																							expr: &seqExpr{
-																								pos: position{line: 1198, col: 23, offset: 37046},
+																								pos: position{line: 1197, col: 23, offset: 36984},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 1196, col: 32, offset: 37014},
+																										pos:        position{line: 1195, col: 32, offset: 36952},
 																										val:        "�",
 																										ignoreCase: false,
 																										want:       "\"�\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1198, col: 51, offset: 37074},
+																										pos:   position{line: 1197, col: 51, offset: 37012},
 																										label: "ref",
 																										expr: &actionExpr{
-																											pos: position{line: 1198, col: 56, offset: 37079},
+																											pos: position{line: 1197, col: 56, offset: 37017},
 																											run: (*parser).callonSectionTitleLineElement164,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1198, col: 56, offset: 37079},
+																												pos: position{line: 1197, col: 56, offset: 37017},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1198, col: 56, offset: 37079},
+																													pos:        position{line: 1197, col: 56, offset: 37017},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -44192,7 +44148,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1196, col: 32, offset: 37014},
+																										pos:        position{line: 1195, col: 32, offset: 36952},
 																										val:        "�",
 																										ignoreCase: false,
 																										want:       "\"�\"",
@@ -44201,44 +44157,44 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 636, col: 5, offset: 20178},
+																							pos: position{line: 635, col: 5, offset: 20116},
 																							run: (*parser).callonSectionTitleLineElement168,
 																							expr: &seqExpr{
-																								pos: position{line: 636, col: 5, offset: 20178},
+																								pos: position{line: 635, col: 5, offset: 20116},
 																								exprs: []interface{}{
 																									&andCodeExpr{
-																										pos: position{line: 636, col: 5, offset: 20178},
+																										pos: position{line: 635, col: 5, offset: 20116},
 																										run: (*parser).callonSectionTitleLineElement170,
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 639, col: 5, offset: 20250},
+																										pos:   position{line: 638, col: 5, offset: 20188},
 																										label: "element",
 																										expr: &choiceExpr{
-																											pos: position{line: 639, col: 14, offset: 20259},
+																											pos: position{line: 638, col: 14, offset: 20197},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 645, col: 5, offset: 20388},
+																													pos: position{line: 644, col: 5, offset: 20326},
 																													run: (*parser).callonSectionTitleLineElement173,
 																													expr: &seqExpr{
-																														pos: position{line: 645, col: 5, offset: 20388},
+																														pos: position{line: 644, col: 5, offset: 20326},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 645, col: 5, offset: 20388},
+																																pos:        position{line: 644, col: 5, offset: 20326},
 																																val:        "\\{",
 																																ignoreCase: false,
 																																want:       "\"\\\\{\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 645, col: 13, offset: 20396},
+																																pos:   position{line: 644, col: 13, offset: 20334},
 																																label: "name",
 																																expr: &actionExpr{
-																																	pos: position{line: 318, col: 18, offset: 9729},
+																																	pos: position{line: 317, col: 18, offset: 9667},
 																																	run: (*parser).callonSectionTitleLineElement177,
 																																	expr: &seqExpr{
-																																		pos: position{line: 318, col: 18, offset: 9729},
+																																		pos: position{line: 317, col: 18, offset: 9667},
 																																		exprs: []interface{}{
 																																			&charClassMatcher{
-																																				pos:        position{line: 318, col: 18, offset: 9729},
+																																				pos:        position{line: 317, col: 18, offset: 9667},
 																																				val:        "[_\\pL\\pN]",
 																																				chars:      []rune{'_'},
 																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -44246,9 +44202,9 @@ var g = &grammar{
 																																				inverted:   false,
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 318, col: 28, offset: 9739},
+																																				pos: position{line: 317, col: 28, offset: 9677},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 318, col: 29, offset: 9740},
+																																					pos:        position{line: 317, col: 29, offset: 9678},
 																																					val:        "[_-\\pL\\pN]",
 																																					chars:      []rune{'_', '-'},
 																																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -44261,7 +44217,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 645, col: 32, offset: 20415},
+																																pos:        position{line: 644, col: 32, offset: 20353},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -44270,28 +44226,28 @@ var g = &grammar{
 																													},
 																												},
 																												&actionExpr{
-																													pos: position{line: 652, col: 5, offset: 20656},
+																													pos: position{line: 651, col: 5, offset: 20594},
 																													run: (*parser).callonSectionTitleLineElement183,
 																													expr: &seqExpr{
-																														pos: position{line: 652, col: 5, offset: 20656},
+																														pos: position{line: 651, col: 5, offset: 20594},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 652, col: 5, offset: 20656},
+																																pos:        position{line: 651, col: 5, offset: 20594},
 																																val:        "{",
 																																ignoreCase: false,
 																																want:       "\"{\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 652, col: 9, offset: 20660},
+																																pos:   position{line: 651, col: 9, offset: 20598},
 																																label: "name",
 																																expr: &actionExpr{
-																																	pos: position{line: 318, col: 18, offset: 9729},
+																																	pos: position{line: 317, col: 18, offset: 9667},
 																																	run: (*parser).callonSectionTitleLineElement187,
 																																	expr: &seqExpr{
-																																		pos: position{line: 318, col: 18, offset: 9729},
+																																		pos: position{line: 317, col: 18, offset: 9667},
 																																		exprs: []interface{}{
 																																			&charClassMatcher{
-																																				pos:        position{line: 318, col: 18, offset: 9729},
+																																				pos:        position{line: 317, col: 18, offset: 9667},
 																																				val:        "[_\\pL\\pN]",
 																																				chars:      []rune{'_'},
 																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -44299,9 +44255,9 @@ var g = &grammar{
 																																				inverted:   false,
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 318, col: 28, offset: 9739},
+																																				pos: position{line: 317, col: 28, offset: 9677},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 318, col: 29, offset: 9740},
+																																					pos:        position{line: 317, col: 29, offset: 9678},
 																																					val:        "[_-\\pL\\pN]",
 																																					chars:      []rune{'_', '-'},
 																																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -44314,7 +44270,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 652, col: 28, offset: 20679},
+																																pos:        position{line: 651, col: 28, offset: 20617},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -44323,28 +44279,28 @@ var g = &grammar{
 																													},
 																												},
 																												&actionExpr{
-																													pos: position{line: 658, col: 25, offset: 20860},
+																													pos: position{line: 657, col: 25, offset: 20798},
 																													run: (*parser).callonSectionTitleLineElement193,
 																													expr: &seqExpr{
-																														pos: position{line: 658, col: 25, offset: 20860},
+																														pos: position{line: 657, col: 25, offset: 20798},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 658, col: 25, offset: 20860},
+																																pos:        position{line: 657, col: 25, offset: 20798},
 																																val:        "{counter:",
 																																ignoreCase: false,
 																																want:       "\"{counter:\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 658, col: 37, offset: 20872},
+																																pos:   position{line: 657, col: 37, offset: 20810},
 																																label: "name",
 																																expr: &actionExpr{
-																																	pos: position{line: 318, col: 18, offset: 9729},
+																																	pos: position{line: 317, col: 18, offset: 9667},
 																																	run: (*parser).callonSectionTitleLineElement197,
 																																	expr: &seqExpr{
-																																		pos: position{line: 318, col: 18, offset: 9729},
+																																		pos: position{line: 317, col: 18, offset: 9667},
 																																		exprs: []interface{}{
 																																			&charClassMatcher{
-																																				pos:        position{line: 318, col: 18, offset: 9729},
+																																				pos:        position{line: 317, col: 18, offset: 9667},
 																																				val:        "[_\\pL\\pN]",
 																																				chars:      []rune{'_'},
 																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -44352,9 +44308,9 @@ var g = &grammar{
 																																				inverted:   false,
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 318, col: 28, offset: 9739},
+																																				pos: position{line: 317, col: 28, offset: 9677},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 318, col: 29, offset: 9740},
+																																					pos:        position{line: 317, col: 29, offset: 9678},
 																																					val:        "[_-\\pL\\pN]",
 																																					chars:      []rune{'_', '-'},
 																																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -44367,33 +44323,33 @@ var g = &grammar{
 																																},
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 658, col: 56, offset: 20891},
+																																pos:   position{line: 657, col: 56, offset: 20829},
 																																label: "start",
 																																expr: &zeroOrOneExpr{
-																																	pos: position{line: 658, col: 62, offset: 20897},
+																																	pos: position{line: 657, col: 62, offset: 20835},
 																																	expr: &actionExpr{
-																																		pos: position{line: 666, col: 17, offset: 21192},
+																																		pos: position{line: 665, col: 17, offset: 21130},
 																																		run: (*parser).callonSectionTitleLineElement204,
 																																		expr: &seqExpr{
-																																			pos: position{line: 666, col: 17, offset: 21192},
+																																			pos: position{line: 665, col: 17, offset: 21130},
 																																			exprs: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 666, col: 17, offset: 21192},
+																																					pos:        position{line: 665, col: 17, offset: 21130},
 																																					val:        ":",
 																																					ignoreCase: false,
 																																					want:       "\":\"",
 																																				},
 																																				&labeledExpr{
-																																					pos:   position{line: 666, col: 21, offset: 21196},
+																																					pos:   position{line: 665, col: 21, offset: 21134},
 																																					label: "start",
 																																					expr: &choiceExpr{
-																																						pos: position{line: 666, col: 28, offset: 21203},
+																																						pos: position{line: 665, col: 28, offset: 21141},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 666, col: 28, offset: 21203},
+																																								pos: position{line: 665, col: 28, offset: 21141},
 																																								run: (*parser).callonSectionTitleLineElement209,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 666, col: 28, offset: 21203},
+																																									pos:        position{line: 665, col: 28, offset: 21141},
 																																									val:        "[A-Za-z]",
 																																									ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																									ignoreCase: false,
@@ -44401,12 +44357,12 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&actionExpr{
-																																								pos: position{line: 668, col: 9, offset: 21257},
+																																								pos: position{line: 667, col: 9, offset: 21195},
 																																								run: (*parser).callonSectionTitleLineElement211,
 																																								expr: &oneOrMoreExpr{
-																																									pos: position{line: 668, col: 9, offset: 21257},
+																																									pos: position{line: 667, col: 9, offset: 21195},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 668, col: 9, offset: 21257},
+																																										pos:        position{line: 667, col: 9, offset: 21195},
 																																										val:        "[0-9]",
 																																										ranges:     []rune{'0', '9'},
 																																										ignoreCase: false,
@@ -44423,7 +44379,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 658, col: 78, offset: 20913},
+																																pos:        position{line: 657, col: 78, offset: 20851},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -44432,28 +44388,28 @@ var g = &grammar{
 																													},
 																												},
 																												&actionExpr{
-																													pos: position{line: 662, col: 25, offset: 21031},
+																													pos: position{line: 661, col: 25, offset: 20969},
 																													run: (*parser).callonSectionTitleLineElement215,
 																													expr: &seqExpr{
-																														pos: position{line: 662, col: 25, offset: 21031},
+																														pos: position{line: 661, col: 25, offset: 20969},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 662, col: 25, offset: 21031},
+																																pos:        position{line: 661, col: 25, offset: 20969},
 																																val:        "{counter2:",
 																																ignoreCase: false,
 																																want:       "\"{counter2:\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 662, col: 38, offset: 21044},
+																																pos:   position{line: 661, col: 38, offset: 20982},
 																																label: "name",
 																																expr: &actionExpr{
-																																	pos: position{line: 318, col: 18, offset: 9729},
+																																	pos: position{line: 317, col: 18, offset: 9667},
 																																	run: (*parser).callonSectionTitleLineElement219,
 																																	expr: &seqExpr{
-																																		pos: position{line: 318, col: 18, offset: 9729},
+																																		pos: position{line: 317, col: 18, offset: 9667},
 																																		exprs: []interface{}{
 																																			&charClassMatcher{
-																																				pos:        position{line: 318, col: 18, offset: 9729},
+																																				pos:        position{line: 317, col: 18, offset: 9667},
 																																				val:        "[_\\pL\\pN]",
 																																				chars:      []rune{'_'},
 																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -44461,9 +44417,9 @@ var g = &grammar{
 																																				inverted:   false,
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 318, col: 28, offset: 9739},
+																																				pos: position{line: 317, col: 28, offset: 9677},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 318, col: 29, offset: 9740},
+																																					pos:        position{line: 317, col: 29, offset: 9678},
 																																					val:        "[_-\\pL\\pN]",
 																																					chars:      []rune{'_', '-'},
 																																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -44476,33 +44432,33 @@ var g = &grammar{
 																																},
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 662, col: 57, offset: 21063},
+																																pos:   position{line: 661, col: 57, offset: 21001},
 																																label: "start",
 																																expr: &zeroOrOneExpr{
-																																	pos: position{line: 662, col: 63, offset: 21069},
+																																	pos: position{line: 661, col: 63, offset: 21007},
 																																	expr: &actionExpr{
-																																		pos: position{line: 666, col: 17, offset: 21192},
+																																		pos: position{line: 665, col: 17, offset: 21130},
 																																		run: (*parser).callonSectionTitleLineElement226,
 																																		expr: &seqExpr{
-																																			pos: position{line: 666, col: 17, offset: 21192},
+																																			pos: position{line: 665, col: 17, offset: 21130},
 																																			exprs: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 666, col: 17, offset: 21192},
+																																					pos:        position{line: 665, col: 17, offset: 21130},
 																																					val:        ":",
 																																					ignoreCase: false,
 																																					want:       "\":\"",
 																																				},
 																																				&labeledExpr{
-																																					pos:   position{line: 666, col: 21, offset: 21196},
+																																					pos:   position{line: 665, col: 21, offset: 21134},
 																																					label: "start",
 																																					expr: &choiceExpr{
-																																						pos: position{line: 666, col: 28, offset: 21203},
+																																						pos: position{line: 665, col: 28, offset: 21141},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 666, col: 28, offset: 21203},
+																																								pos: position{line: 665, col: 28, offset: 21141},
 																																								run: (*parser).callonSectionTitleLineElement231,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 666, col: 28, offset: 21203},
+																																									pos:        position{line: 665, col: 28, offset: 21141},
 																																									val:        "[A-Za-z]",
 																																									ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																									ignoreCase: false,
@@ -44510,12 +44466,12 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&actionExpr{
-																																								pos: position{line: 668, col: 9, offset: 21257},
+																																								pos: position{line: 667, col: 9, offset: 21195},
 																																								run: (*parser).callonSectionTitleLineElement233,
 																																								expr: &oneOrMoreExpr{
-																																									pos: position{line: 668, col: 9, offset: 21257},
+																																									pos: position{line: 667, col: 9, offset: 21195},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 668, col: 9, offset: 21257},
+																																										pos:        position{line: 667, col: 9, offset: 21195},
 																																										val:        "[0-9]",
 																																										ranges:     []rune{'0', '9'},
 																																										ignoreCase: false,
@@ -44532,7 +44488,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 662, col: 79, offset: 21085},
+																																pos:        position{line: 661, col: 79, offset: 21023},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -44547,10 +44503,10 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 412, col: 16, offset: 12686},
+																							pos: position{line: 411, col: 16, offset: 12624},
 																							run: (*parser).callonSectionTitleLineElement237,
 																							expr: &litMatcher{
-																								pos:        position{line: 412, col: 16, offset: 12686},
+																								pos:        position{line: 411, col: 16, offset: 12624},
 																								val:        "{",
 																								ignoreCase: false,
 																								want:       "\"{\"",
@@ -44563,7 +44519,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 418, col: 5, offset: 12872},
+																	pos:        position{line: 417, col: 5, offset: 12810},
 																	val:        "]]",
 																	ignoreCase: false,
 																	want:       "\"]]\"",
@@ -44573,12 +44529,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2353, col: 26, offset: 76180},
+													pos: position{line: 2352, col: 26, offset: 76118},
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 10, offset: 90962},
+														pos: position{line: 2872, col: 10, offset: 90900},
 														run: (*parser).callonSectionTitleLineElement241,
 														expr: &charClassMatcher{
-															pos:        position{line: 2873, col: 10, offset: 90962},
+															pos:        position{line: 2872, col: 10, offset: 90900},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -44587,30 +44543,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 2353, col: 33, offset: 76187},
+													pos: position{line: 2352, col: 33, offset: 76125},
 													expr: &choiceExpr{
-														pos: position{line: 2895, col: 8, offset: 91360},
+														pos: position{line: 2894, col: 8, offset: 91298},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2882, col: 12, offset: 91133},
+																pos: position{line: 2881, col: 12, offset: 91071},
 																run: (*parser).callonSectionTitleLineElement245,
 																expr: &choiceExpr{
-																	pos: position{line: 2882, col: 13, offset: 91134},
+																	pos: position{line: 2881, col: 13, offset: 91072},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 13, offset: 91134},
+																			pos:        position{line: 2881, col: 13, offset: 91072},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 20, offset: 91141},
+																			pos:        position{line: 2881, col: 20, offset: 91079},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2882, col: 29, offset: 91150},
+																			pos:        position{line: 2881, col: 29, offset: 91088},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -44619,9 +44575,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2892, col: 8, offset: 91310},
+																pos: position{line: 2891, col: 8, offset: 91248},
 																expr: &anyMatcher{
-																	line: 2892, col: 9, offset: 91311,
+																	line: 2891, col: 9, offset: 91249,
 																},
 															},
 														},
@@ -44631,27 +44587,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1253, col: 5, offset: 38806},
+										pos: position{line: 1252, col: 5, offset: 38744},
 										run: (*parser).callonSectionTitleLineElement252,
 										expr: &seqExpr{
-											pos: position{line: 1253, col: 5, offset: 38806},
+											pos: position{line: 1252, col: 5, offset: 38744},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1253, col: 5, offset: 38806},
+													pos:        position{line: 1252, col: 5, offset: 38744},
 													val:        "\\[[",
 													ignoreCase: false,
 													want:       "\"\\\\[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1253, col: 14, offset: 38815},
+													pos:   position{line: 1252, col: 14, offset: 38753},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2858, col: 7, offset: 90614},
+														pos: position{line: 2857, col: 7, offset: 90552},
 														run: (*parser).callonSectionTitleLineElement256,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2858, col: 7, offset: 90614},
+															pos: position{line: 2857, col: 7, offset: 90552},
 															expr: &charClassMatcher{
-																pos:        position{line: 2858, col: 7, offset: 90614},
+																pos:        position{line: 2857, col: 7, offset: 90552},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -44661,7 +44617,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1253, col: 22, offset: 38823},
+													pos:        position{line: 1252, col: 22, offset: 38761},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -44670,27 +44626,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1258, col: 5, offset: 38942},
+										pos: position{line: 1257, col: 5, offset: 38880},
 										run: (*parser).callonSectionTitleLineElement260,
 										expr: &seqExpr{
-											pos: position{line: 1258, col: 5, offset: 38942},
+											pos: position{line: 1257, col: 5, offset: 38880},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1258, col: 5, offset: 38942},
+													pos:        position{line: 1257, col: 5, offset: 38880},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1258, col: 10, offset: 38947},
+													pos:   position{line: 1257, col: 10, offset: 38885},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2858, col: 7, offset: 90614},
+														pos: position{line: 2857, col: 7, offset: 90552},
 														run: (*parser).callonSectionTitleLineElement264,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2858, col: 7, offset: 90614},
+															pos: position{line: 2857, col: 7, offset: 90552},
 															expr: &charClassMatcher{
-																pos:        position{line: 2858, col: 7, offset: 90614},
+																pos:        position{line: 2857, col: 7, offset: 90552},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -44700,7 +44656,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1258, col: 18, offset: 38955},
+													pos:        position{line: 1257, col: 18, offset: 38893},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -44709,20 +44665,20 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2339, col: 11, offset: 75864},
+										pos:  position{line: 2338, col: 11, offset: 75802},
 										name: "InlineFootnote",
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2340, col: 5, offset: 75884},
+							pos:   position{line: 2339, col: 5, offset: 75822},
 							label: "end",
 							expr: &actionExpr{
-								pos: position{line: 2898, col: 16, offset: 91484},
+								pos: position{line: 2897, col: 16, offset: 91422},
 								run: (*parser).callonSectionTitleLineElement270,
 								expr: &litMatcher{
-									pos:        position{line: 2898, col: 16, offset: 91484},
+									pos:        position{line: 2897, col: 16, offset: 91422},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -44730,7 +44686,7 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2341, col: 5, offset: 75906},
+							pos: position{line: 2340, col: 5, offset: 75844},
 							run: (*parser).callonSectionTitleLineElement272,
 						},
 					},
@@ -44739,52 +44695,52 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2363, col: 1, offset: 76449},
+			pos:  position{line: 2362, col: 1, offset: 76387},
 			expr: &actionExpr{
-				pos: position{line: 2364, col: 5, offset: 76536},
+				pos: position{line: 2363, col: 5, offset: 76474},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2364, col: 5, offset: 76536},
+					pos: position{line: 2363, col: 5, offset: 76474},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2364, col: 5, offset: 76536},
+							pos:   position{line: 2363, col: 5, offset: 76474},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2364, col: 14, offset: 76545},
+								pos: position{line: 2363, col: 14, offset: 76483},
 								expr: &actionExpr{
-									pos: position{line: 2366, col: 9, offset: 76571},
+									pos: position{line: 2365, col: 9, offset: 76509},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2366, col: 9, offset: 76571},
+										pos: position{line: 2365, col: 9, offset: 76509},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2890, col: 11, offset: 91296},
+												pos: position{line: 2889, col: 11, offset: 91234},
 												expr: &anyMatcher{
-													line: 2890, col: 13, offset: 91298,
+													line: 2889, col: 13, offset: 91236,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2367, col: 9, offset: 76586},
+												pos:   position{line: 2366, col: 9, offset: 76524},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2368, col: 13, offset: 76608},
+													pos: position{line: 2367, col: 13, offset: 76546},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2772, col: 5, offset: 88183},
+															pos: position{line: 2771, col: 5, offset: 88121},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2772, col: 5, offset: 88183},
+																pos: position{line: 2771, col: 5, offset: 88121},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 2772, col: 5, offset: 88183},
+																		pos:   position{line: 2771, col: 5, offset: 88121},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2772, col: 11, offset: 88189},
+																			pos: position{line: 2771, col: 11, offset: 88127},
 																			run: (*parser).callonNormalGroup14,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2772, col: 11, offset: 88189},
+																				pos: position{line: 2771, col: 11, offset: 88127},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2772, col: 11, offset: 88189},
+																					pos:        position{line: 2771, col: 11, offset: 88127},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -44794,44 +44750,44 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2775, col: 5, offset: 88247},
+																		pos: position{line: 2774, col: 5, offset: 88185},
 																		expr: &seqExpr{
-																			pos: position{line: 2776, col: 9, offset: 88258},
+																			pos: position{line: 2775, col: 9, offset: 88196},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2776, col: 9, offset: 88258},
+																					pos:        position{line: 2775, col: 9, offset: 88196},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2777, col: 9, offset: 88307},
+																					pos: position{line: 2776, col: 9, offset: 88245},
 																					run: (*parser).callonNormalGroup20,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2781, col: 5, offset: 88387},
+																		pos: position{line: 2780, col: 5, offset: 88325},
 																		expr: &seqExpr{
-																			pos: position{line: 2782, col: 9, offset: 88398},
+																			pos: position{line: 2781, col: 9, offset: 88336},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 2782, col: 9, offset: 88398},
+																					pos: position{line: 2781, col: 9, offset: 88336},
 																					expr: &seqExpr{
-																						pos: position{line: 2782, col: 10, offset: 88399},
+																						pos: position{line: 2781, col: 10, offset: 88337},
 																						exprs: []interface{}{
 																							&charClassMatcher{
-																								pos:        position{line: 2782, col: 10, offset: 88399},
+																								pos:        position{line: 2781, col: 10, offset: 88337},
 																								val:        "[._%+-]",
 																								chars:      []rune{'.', '_', '%', '+', '-'},
 																								ignoreCase: false,
 																								inverted:   false,
 																							},
 																							&oneOrMoreExpr{
-																								pos: position{line: 2782, col: 18, offset: 88407},
+																								pos: position{line: 2781, col: 18, offset: 88345},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2782, col: 18, offset: 88407},
+																									pos:        position{line: 2781, col: 18, offset: 88345},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -44842,13 +44798,13 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2782, col: 30, offset: 88419},
+																					pos:        position{line: 2781, col: 30, offset: 88357},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2782, col: 34, offset: 88423},
+																					pos:        position{line: 2781, col: 34, offset: 88361},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -44861,12 +44817,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2877, col: 11, offset: 91023},
+															pos: position{line: 2876, col: 11, offset: 90961},
 															run: (*parser).callonNormalGroup30,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2877, col: 11, offset: 91023},
+																pos: position{line: 2876, col: 11, offset: 90961},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2877, col: 11, offset: 91023},
+																	pos:        position{line: 2876, col: 11, offset: 90961},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -44875,29 +44831,29 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2370, col: 15, offset: 76654},
+															pos:  position{line: 2369, col: 15, offset: 76592},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2498, col: 5, offset: 80565},
+															pos: position{line: 2497, col: 5, offset: 80503},
 															run: (*parser).callonNormalGroup34,
 															expr: &seqExpr{
-																pos: position{line: 2498, col: 5, offset: 80565},
+																pos: position{line: 2497, col: 5, offset: 80503},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2498, col: 5, offset: 80565},
+																		pos: position{line: 2497, col: 5, offset: 80503},
 																		run: (*parser).callonNormalGroup36,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2501, col: 5, offset: 80636},
+																		pos:        position{line: 2500, col: 5, offset: 80574},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2501, col: 10, offset: 80641},
+																		pos: position{line: 2500, col: 10, offset: 80579},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2501, col: 11, offset: 80642},
+																			pos:        position{line: 2500, col: 11, offset: 80580},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -44908,29 +44864,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2507, col: 5, offset: 80834},
+															pos: position{line: 2506, col: 5, offset: 80772},
 															run: (*parser).callonNormalGroup40,
 															expr: &seqExpr{
-																pos: position{line: 2507, col: 5, offset: 80834},
+																pos: position{line: 2506, col: 5, offset: 80772},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2507, col: 5, offset: 80834},
+																		pos: position{line: 2506, col: 5, offset: 80772},
 																		run: (*parser).callonNormalGroup42,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2510, col: 5, offset: 80905},
+																		pos: position{line: 2509, col: 5, offset: 80843},
 																		run: (*parser).callonNormalGroup43,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2514, col: 5, offset: 81030},
+																		pos:        position{line: 2513, col: 5, offset: 80968},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2514, col: 9, offset: 81034},
+																		pos: position{line: 2513, col: 9, offset: 80972},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2514, col: 10, offset: 81035},
+																			pos:        position{line: 2513, col: 10, offset: 80973},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -44941,27 +44897,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2790, col: 5, offset: 88616},
+															pos: position{line: 2789, col: 5, offset: 88554},
 															run: (*parser).callonNormalGroup47,
 															expr: &choiceExpr{
-																pos: position{line: 2791, col: 9, offset: 88626},
+																pos: position{line: 2790, col: 9, offset: 88564},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2791, col: 10, offset: 88627},
+																		pos:        position{line: 2790, col: 10, offset: 88565},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2793, col: 13, offset: 88724},
+																		pos: position{line: 2792, col: 13, offset: 88662},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2793, col: 13, offset: 88724},
+																				pos: position{line: 2792, col: 13, offset: 88662},
 																				run: (*parser).callonNormalGroup51,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2796, col: 13, offset: 88824},
+																				pos:        position{line: 2795, col: 13, offset: 88762},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -44969,20 +44925,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2796, col: 19, offset: 88830},
+																		pos:        position{line: 2795, col: 19, offset: 88768},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2799, col: 13, offset: 88868},
+																		pos: position{line: 2798, col: 13, offset: 88806},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2799, col: 13, offset: 88868},
+																				pos: position{line: 2798, col: 13, offset: 88806},
 																				run: (*parser).callonNormalGroup55,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2802, col: 14, offset: 88961},
+																				pos:        position{line: 2801, col: 14, offset: 88899},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -44991,18 +44947,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2804, col: 12, offset: 89005},
+																		pos: position{line: 2803, col: 12, offset: 88943},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2804, col: 12, offset: 89005},
+																				pos:        position{line: 2803, col: 12, offset: 88943},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2804, col: 16, offset: 89009},
+																				pos: position{line: 2803, col: 16, offset: 88947},
 																				expr: &litMatcher{
-																					pos:        position{line: 2804, col: 17, offset: 89010},
+																					pos:        position{line: 2803, col: 17, offset: 88948},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -45014,25 +44970,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2882, col: 12, offset: 91133},
+															pos: position{line: 2881, col: 12, offset: 91071},
 															run: (*parser).callonNormalGroup61,
 															expr: &choiceExpr{
-																pos: position{line: 2882, col: 13, offset: 91134},
+																pos: position{line: 2881, col: 13, offset: 91072},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 13, offset: 91134},
+																		pos:        position{line: 2881, col: 13, offset: 91072},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 20, offset: 91141},
+																		pos:        position{line: 2881, col: 20, offset: 91079},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2882, col: 29, offset: 91150},
+																		pos:        position{line: 2881, col: 29, offset: 91088},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -45041,44 +44997,44 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 636, col: 5, offset: 20178},
+															pos: position{line: 635, col: 5, offset: 20116},
 															run: (*parser).callonNormalGroup66,
 															expr: &seqExpr{
-																pos: position{line: 636, col: 5, offset: 20178},
+																pos: position{line: 635, col: 5, offset: 20116},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 636, col: 5, offset: 20178},
+																		pos: position{line: 635, col: 5, offset: 20116},
 																		run: (*parser).callonNormalGroup68,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 639, col: 5, offset: 20250},
+																		pos:   position{line: 638, col: 5, offset: 20188},
 																		label: "element",
 																		expr: &choiceExpr{
-																			pos: position{line: 639, col: 14, offset: 20259},
+																			pos: position{line: 638, col: 14, offset: 20197},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 645, col: 5, offset: 20388},
+																					pos: position{line: 644, col: 5, offset: 20326},
 																					run: (*parser).callonNormalGroup71,
 																					expr: &seqExpr{
-																						pos: position{line: 645, col: 5, offset: 20388},
+																						pos: position{line: 644, col: 5, offset: 20326},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 645, col: 5, offset: 20388},
+																								pos:        position{line: 644, col: 5, offset: 20326},
 																								val:        "\\{",
 																								ignoreCase: false,
 																								want:       "\"\\\\{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 645, col: 13, offset: 20396},
+																								pos:   position{line: 644, col: 13, offset: 20334},
 																								label: "name",
 																								expr: &actionExpr{
-																									pos: position{line: 318, col: 18, offset: 9729},
+																									pos: position{line: 317, col: 18, offset: 9667},
 																									run: (*parser).callonNormalGroup75,
 																									expr: &seqExpr{
-																										pos: position{line: 318, col: 18, offset: 9729},
+																										pos: position{line: 317, col: 18, offset: 9667},
 																										exprs: []interface{}{
 																											&charClassMatcher{
-																												pos:        position{line: 318, col: 18, offset: 9729},
+																												pos:        position{line: 317, col: 18, offset: 9667},
 																												val:        "[_\\pL\\pN]",
 																												chars:      []rune{'_'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -45086,9 +45042,9 @@ var g = &grammar{
 																												inverted:   false,
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 318, col: 28, offset: 9739},
+																												pos: position{line: 317, col: 28, offset: 9677},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 318, col: 29, offset: 9740},
+																													pos:        position{line: 317, col: 29, offset: 9678},
 																													val:        "[_-\\pL\\pN]",
 																													chars:      []rune{'_', '-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -45101,7 +45057,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 645, col: 32, offset: 20415},
+																								pos:        position{line: 644, col: 32, offset: 20353},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -45110,28 +45066,28 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 652, col: 5, offset: 20656},
+																					pos: position{line: 651, col: 5, offset: 20594},
 																					run: (*parser).callonNormalGroup81,
 																					expr: &seqExpr{
-																						pos: position{line: 652, col: 5, offset: 20656},
+																						pos: position{line: 651, col: 5, offset: 20594},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 652, col: 5, offset: 20656},
+																								pos:        position{line: 651, col: 5, offset: 20594},
 																								val:        "{",
 																								ignoreCase: false,
 																								want:       "\"{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 652, col: 9, offset: 20660},
+																								pos:   position{line: 651, col: 9, offset: 20598},
 																								label: "name",
 																								expr: &actionExpr{
-																									pos: position{line: 318, col: 18, offset: 9729},
+																									pos: position{line: 317, col: 18, offset: 9667},
 																									run: (*parser).callonNormalGroup85,
 																									expr: &seqExpr{
-																										pos: position{line: 318, col: 18, offset: 9729},
+																										pos: position{line: 317, col: 18, offset: 9667},
 																										exprs: []interface{}{
 																											&charClassMatcher{
-																												pos:        position{line: 318, col: 18, offset: 9729},
+																												pos:        position{line: 317, col: 18, offset: 9667},
 																												val:        "[_\\pL\\pN]",
 																												chars:      []rune{'_'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -45139,9 +45095,9 @@ var g = &grammar{
 																												inverted:   false,
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 318, col: 28, offset: 9739},
+																												pos: position{line: 317, col: 28, offset: 9677},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 318, col: 29, offset: 9740},
+																													pos:        position{line: 317, col: 29, offset: 9678},
 																													val:        "[_-\\pL\\pN]",
 																													chars:      []rune{'_', '-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -45154,7 +45110,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 652, col: 28, offset: 20679},
+																								pos:        position{line: 651, col: 28, offset: 20617},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -45163,28 +45119,28 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 658, col: 25, offset: 20860},
+																					pos: position{line: 657, col: 25, offset: 20798},
 																					run: (*parser).callonNormalGroup91,
 																					expr: &seqExpr{
-																						pos: position{line: 658, col: 25, offset: 20860},
+																						pos: position{line: 657, col: 25, offset: 20798},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 658, col: 25, offset: 20860},
+																								pos:        position{line: 657, col: 25, offset: 20798},
 																								val:        "{counter:",
 																								ignoreCase: false,
 																								want:       "\"{counter:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 658, col: 37, offset: 20872},
+																								pos:   position{line: 657, col: 37, offset: 20810},
 																								label: "name",
 																								expr: &actionExpr{
-																									pos: position{line: 318, col: 18, offset: 9729},
+																									pos: position{line: 317, col: 18, offset: 9667},
 																									run: (*parser).callonNormalGroup95,
 																									expr: &seqExpr{
-																										pos: position{line: 318, col: 18, offset: 9729},
+																										pos: position{line: 317, col: 18, offset: 9667},
 																										exprs: []interface{}{
 																											&charClassMatcher{
-																												pos:        position{line: 318, col: 18, offset: 9729},
+																												pos:        position{line: 317, col: 18, offset: 9667},
 																												val:        "[_\\pL\\pN]",
 																												chars:      []rune{'_'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -45192,9 +45148,9 @@ var g = &grammar{
 																												inverted:   false,
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 318, col: 28, offset: 9739},
+																												pos: position{line: 317, col: 28, offset: 9677},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 318, col: 29, offset: 9740},
+																													pos:        position{line: 317, col: 29, offset: 9678},
 																													val:        "[_-\\pL\\pN]",
 																													chars:      []rune{'_', '-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -45207,33 +45163,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 658, col: 56, offset: 20891},
+																								pos:   position{line: 657, col: 56, offset: 20829},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 658, col: 62, offset: 20897},
+																									pos: position{line: 657, col: 62, offset: 20835},
 																									expr: &actionExpr{
-																										pos: position{line: 666, col: 17, offset: 21192},
+																										pos: position{line: 665, col: 17, offset: 21130},
 																										run: (*parser).callonNormalGroup102,
 																										expr: &seqExpr{
-																											pos: position{line: 666, col: 17, offset: 21192},
+																											pos: position{line: 665, col: 17, offset: 21130},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 666, col: 17, offset: 21192},
+																													pos:        position{line: 665, col: 17, offset: 21130},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 666, col: 21, offset: 21196},
+																													pos:   position{line: 665, col: 21, offset: 21134},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 666, col: 28, offset: 21203},
+																														pos: position{line: 665, col: 28, offset: 21141},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 666, col: 28, offset: 21203},
+																																pos: position{line: 665, col: 28, offset: 21141},
 																																run: (*parser).callonNormalGroup107,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 666, col: 28, offset: 21203},
+																																	pos:        position{line: 665, col: 28, offset: 21141},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -45241,12 +45197,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 668, col: 9, offset: 21257},
+																																pos: position{line: 667, col: 9, offset: 21195},
 																																run: (*parser).callonNormalGroup109,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 668, col: 9, offset: 21257},
+																																	pos: position{line: 667, col: 9, offset: 21195},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 668, col: 9, offset: 21257},
+																																		pos:        position{line: 667, col: 9, offset: 21195},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -45263,7 +45219,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 658, col: 78, offset: 20913},
+																								pos:        position{line: 657, col: 78, offset: 20851},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -45272,28 +45228,28 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 662, col: 25, offset: 21031},
+																					pos: position{line: 661, col: 25, offset: 20969},
 																					run: (*parser).callonNormalGroup113,
 																					expr: &seqExpr{
-																						pos: position{line: 662, col: 25, offset: 21031},
+																						pos: position{line: 661, col: 25, offset: 20969},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 662, col: 25, offset: 21031},
+																								pos:        position{line: 661, col: 25, offset: 20969},
 																								val:        "{counter2:",
 																								ignoreCase: false,
 																								want:       "\"{counter2:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 662, col: 38, offset: 21044},
+																								pos:   position{line: 661, col: 38, offset: 20982},
 																								label: "name",
 																								expr: &actionExpr{
-																									pos: position{line: 318, col: 18, offset: 9729},
+																									pos: position{line: 317, col: 18, offset: 9667},
 																									run: (*parser).callonNormalGroup117,
 																									expr: &seqExpr{
-																										pos: position{line: 318, col: 18, offset: 9729},
+																										pos: position{line: 317, col: 18, offset: 9667},
 																										exprs: []interface{}{
 																											&charClassMatcher{
-																												pos:        position{line: 318, col: 18, offset: 9729},
+																												pos:        position{line: 317, col: 18, offset: 9667},
 																												val:        "[_\\pL\\pN]",
 																												chars:      []rune{'_'},
 																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -45301,9 +45257,9 @@ var g = &grammar{
 																												inverted:   false,
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 318, col: 28, offset: 9739},
+																												pos: position{line: 317, col: 28, offset: 9677},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 318, col: 29, offset: 9740},
+																													pos:        position{line: 317, col: 29, offset: 9678},
 																													val:        "[_-\\pL\\pN]",
 																													chars:      []rune{'_', '-'},
 																													classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -45316,33 +45272,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 662, col: 57, offset: 21063},
+																								pos:   position{line: 661, col: 57, offset: 21001},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 662, col: 63, offset: 21069},
+																									pos: position{line: 661, col: 63, offset: 21007},
 																									expr: &actionExpr{
-																										pos: position{line: 666, col: 17, offset: 21192},
+																										pos: position{line: 665, col: 17, offset: 21130},
 																										run: (*parser).callonNormalGroup124,
 																										expr: &seqExpr{
-																											pos: position{line: 666, col: 17, offset: 21192},
+																											pos: position{line: 665, col: 17, offset: 21130},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 666, col: 17, offset: 21192},
+																													pos:        position{line: 665, col: 17, offset: 21130},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 666, col: 21, offset: 21196},
+																													pos:   position{line: 665, col: 21, offset: 21134},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 666, col: 28, offset: 21203},
+																														pos: position{line: 665, col: 28, offset: 21141},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 666, col: 28, offset: 21203},
+																																pos: position{line: 665, col: 28, offset: 21141},
 																																run: (*parser).callonNormalGroup129,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 666, col: 28, offset: 21203},
+																																	pos:        position{line: 665, col: 28, offset: 21141},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -45350,12 +45306,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 668, col: 9, offset: 21257},
+																																pos: position{line: 667, col: 9, offset: 21195},
 																																run: (*parser).callonNormalGroup131,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 668, col: 9, offset: 21257},
+																																	pos: position{line: 667, col: 9, offset: 21195},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 668, col: 9, offset: 21257},
+																																		pos:        position{line: 667, col: 9, offset: 21195},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -45372,7 +45328,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 662, col: 79, offset: 21085},
+																								pos:        position{line: 661, col: 79, offset: 21023},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -45387,35 +45343,35 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2375, col: 15, offset: 76821},
+															pos:  position{line: 2374, col: 15, offset: 76759},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2376, col: 15, offset: 76841},
+															pos:  position{line: 2375, col: 15, offset: 76779},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2377, col: 15, offset: 76930},
+															pos:  position{line: 2376, col: 15, offset: 76868},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2467, col: 5, offset: 79394},
+															pos: position{line: 2466, col: 5, offset: 79332},
 															run: (*parser).callonNormalGroup138,
 															expr: &seqExpr{
-																pos: position{line: 2467, col: 5, offset: 79394},
+																pos: position{line: 2466, col: 5, offset: 79332},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2467, col: 5, offset: 79394},
+																		pos: position{line: 2466, col: 5, offset: 79332},
 																		run: (*parser).callonNormalGroup140,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2470, col: 5, offset: 79470},
+																		pos:   position{line: 2469, col: 5, offset: 79408},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2471, col: 9, offset: 79488},
+																			pos: position{line: 2470, col: 9, offset: 79426},
 																			run: (*parser).callonNormalGroup142,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2471, col: 10, offset: 79489},
+																				pos:        position{line: 2470, col: 10, offset: 79427},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -45427,32 +45383,32 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1206, col: 5, offset: 37492},
+															pos: position{line: 1205, col: 5, offset: 37430},
 															run: (*parser).callonNormalGroup144,
 															expr: &seqExpr{
-																pos: position{line: 1206, col: 5, offset: 37492},
+																pos: position{line: 1205, col: 5, offset: 37430},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1206, col: 5, offset: 37492},
+																		pos: position{line: 1205, col: 5, offset: 37430},
 																		run: (*parser).callonNormalGroup146,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1209, col: 5, offset: 37568},
+																		pos:        position{line: 1208, col: 5, offset: 37506},
 																		val:        "+",
 																		ignoreCase: false,
 																		want:       "\"+\"",
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1210, col: 5, offset: 37576},
+																		pos: position{line: 1209, col: 5, offset: 37514},
 																		run: (*parser).callonNormalGroup148,
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1214, col: 5, offset: 37663},
+																		pos: position{line: 1213, col: 5, offset: 37601},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90962},
+																			pos: position{line: 2872, col: 10, offset: 90900},
 																			run: (*parser).callonNormalGroup150,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90962},
+																				pos:        position{line: 2872, col: 10, offset: 90900},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45461,30 +45417,30 @@ var g = &grammar{
 																		},
 																	},
 																	&andExpr{
-																		pos: position{line: 1214, col: 12, offset: 37670},
+																		pos: position{line: 1213, col: 12, offset: 37608},
 																		expr: &choiceExpr{
-																			pos: position{line: 2895, col: 8, offset: 91360},
+																			pos: position{line: 2894, col: 8, offset: 91298},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 91133},
+																					pos: position{line: 2881, col: 12, offset: 91071},
 																					run: (*parser).callonNormalGroup154,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 91134},
+																						pos: position{line: 2881, col: 13, offset: 91072},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 91134},
+																								pos:        position{line: 2881, col: 13, offset: 91072},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 91141},
+																								pos:        position{line: 2881, col: 20, offset: 91079},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 91150},
+																								pos:        position{line: 2881, col: 29, offset: 91088},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -45493,9 +45449,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2892, col: 8, offset: 91310},
+																					pos: position{line: 2891, col: 8, offset: 91248},
 																					expr: &anyMatcher{
-																						line: 2892, col: 9, offset: 91311,
+																						line: 2891, col: 9, offset: 91249,
 																					},
 																				},
 																			},
@@ -45505,31 +45461,31 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2380, col: 15, offset: 77112},
+															pos:  position{line: 2379, col: 15, offset: 77050},
 															name: "InlinePassthrough",
 														},
 														&actionExpr{
-															pos: position{line: 1198, col: 23, offset: 37046},
+															pos: position{line: 1197, col: 23, offset: 36984},
 															run: (*parser).callonNormalGroup162,
 															expr: &seqExpr{
-																pos: position{line: 1198, col: 23, offset: 37046},
+																pos: position{line: 1197, col: 23, offset: 36984},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1196, col: 32, offset: 37014},
+																		pos:        position{line: 1195, col: 32, offset: 36952},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1198, col: 51, offset: 37074},
+																		pos:   position{line: 1197, col: 51, offset: 37012},
 																		label: "ref",
 																		expr: &actionExpr{
-																			pos: position{line: 1198, col: 56, offset: 37079},
+																			pos: position{line: 1197, col: 56, offset: 37017},
 																			run: (*parser).callonNormalGroup166,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1198, col: 56, offset: 37079},
+																				pos: position{line: 1197, col: 56, offset: 37017},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1198, col: 56, offset: 37079},
+																					pos:        position{line: 1197, col: 56, offset: 37017},
 																					val:        "[0-9]",
 																					ranges:     []rune{'0', '9'},
 																					ignoreCase: false,
@@ -45539,7 +45495,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1196, col: 32, offset: 37014},
+																		pos:        position{line: 1195, col: 32, offset: 36952},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
@@ -45548,10 +45504,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2812, col: 12, offset: 89270},
+															pos: position{line: 2811, col: 12, offset: 89208},
 															run: (*parser).callonNormalGroup170,
 															expr: &charClassMatcher{
-																pos:        position{line: 2812, col: 12, offset: 89270},
+																pos:        position{line: 2811, col: 12, offset: 89208},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -45567,9 +45523,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2892, col: 8, offset: 91310},
+							pos: position{line: 2891, col: 8, offset: 91248},
 							expr: &anyMatcher{
-								line: 2892, col: 9, offset: 91311,
+								line: 2891, col: 9, offset: 91249,
 							},
 						},
 					},
@@ -45578,28 +45534,28 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2391, col: 1, offset: 77550},
+			pos:  position{line: 2390, col: 1, offset: 77488},
 			expr: &actionExpr{
-				pos: position{line: 2392, col: 5, offset: 77583},
+				pos: position{line: 2391, col: 5, offset: 77521},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2392, col: 5, offset: 77583},
+					pos: position{line: 2391, col: 5, offset: 77521},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2392, col: 5, offset: 77583},
+							pos:   position{line: 2391, col: 5, offset: 77521},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2392, col: 14, offset: 77592},
+								pos: position{line: 2391, col: 14, offset: 77530},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2392, col: 15, offset: 77593},
+									pos:  position{line: 2391, col: 15, offset: 77531},
 									name: "AttributeStructuredValueElement",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2892, col: 8, offset: 91310},
+							pos: position{line: 2891, col: 8, offset: 91248},
 							expr: &anyMatcher{
-								line: 2892, col: 9, offset: 91311,
+								line: 2891, col: 9, offset: 91249,
 							},
 						},
 					},
@@ -45608,41 +45564,41 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2396, col: 1, offset: 77690},
+			pos:  position{line: 2395, col: 1, offset: 77628},
 			expr: &actionExpr{
-				pos: position{line: 2397, col: 5, offset: 77730},
+				pos: position{line: 2396, col: 5, offset: 77668},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2397, col: 5, offset: 77730},
+					pos: position{line: 2396, col: 5, offset: 77668},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2890, col: 11, offset: 91296},
+							pos: position{line: 2889, col: 11, offset: 91234},
 							expr: &anyMatcher{
-								line: 2890, col: 13, offset: 91298,
+								line: 2889, col: 13, offset: 91236,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2398, col: 5, offset: 77741},
+							pos:   position{line: 2397, col: 5, offset: 77679},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2399, col: 9, offset: 77759},
+								pos: position{line: 2398, col: 9, offset: 77697},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2772, col: 5, offset: 88183},
+										pos: position{line: 2771, col: 5, offset: 88121},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2772, col: 5, offset: 88183},
+											pos: position{line: 2771, col: 5, offset: 88121},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2772, col: 5, offset: 88183},
+													pos:   position{line: 2771, col: 5, offset: 88121},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2772, col: 11, offset: 88189},
+														pos: position{line: 2771, col: 11, offset: 88127},
 														run: (*parser).callonAttributeStructuredValueElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2772, col: 11, offset: 88189},
+															pos: position{line: 2771, col: 11, offset: 88127},
 															expr: &charClassMatcher{
-																pos:        position{line: 2772, col: 11, offset: 88189},
+																pos:        position{line: 2771, col: 11, offset: 88127},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45652,44 +45608,44 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2775, col: 5, offset: 88247},
+													pos: position{line: 2774, col: 5, offset: 88185},
 													expr: &seqExpr{
-														pos: position{line: 2776, col: 9, offset: 88258},
+														pos: position{line: 2775, col: 9, offset: 88196},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2776, col: 9, offset: 88258},
+																pos:        position{line: 2775, col: 9, offset: 88196},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2777, col: 9, offset: 88307},
+																pos: position{line: 2776, col: 9, offset: 88245},
 																run: (*parser).callonAttributeStructuredValueElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2781, col: 5, offset: 88387},
+													pos: position{line: 2780, col: 5, offset: 88325},
 													expr: &seqExpr{
-														pos: position{line: 2782, col: 9, offset: 88398},
+														pos: position{line: 2781, col: 9, offset: 88336},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2782, col: 9, offset: 88398},
+																pos: position{line: 2781, col: 9, offset: 88336},
 																expr: &seqExpr{
-																	pos: position{line: 2782, col: 10, offset: 88399},
+																	pos: position{line: 2781, col: 10, offset: 88337},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2782, col: 10, offset: 88399},
+																			pos:        position{line: 2781, col: 10, offset: 88337},
 																			val:        "[._%+-]",
 																			chars:      []rune{'.', '_', '%', '+', '-'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2782, col: 18, offset: 88407},
+																			pos: position{line: 2781, col: 18, offset: 88345},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2782, col: 18, offset: 88407},
+																				pos:        position{line: 2781, col: 18, offset: 88345},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -45700,13 +45656,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2782, col: 30, offset: 88419},
+																pos:        position{line: 2781, col: 30, offset: 88357},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2782, col: 34, offset: 88423},
+																pos:        position{line: 2781, col: 34, offset: 88361},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45719,10 +45675,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2873, col: 10, offset: 90962},
+										pos: position{line: 2872, col: 10, offset: 90900},
 										run: (*parser).callonAttributeStructuredValueElement26,
 										expr: &charClassMatcher{
-											pos:        position{line: 2873, col: 10, offset: 90962},
+											pos:        position{line: 2872, col: 10, offset: 90900},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -45730,31 +45686,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2401, col: 11, offset: 77797},
+										pos:  position{line: 2400, col: 11, offset: 77735},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2790, col: 5, offset: 88616},
+										pos: position{line: 2789, col: 5, offset: 88554},
 										run: (*parser).callonAttributeStructuredValueElement29,
 										expr: &choiceExpr{
-											pos: position{line: 2791, col: 9, offset: 88626},
+											pos: position{line: 2790, col: 9, offset: 88564},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2791, col: 10, offset: 88627},
+													pos:        position{line: 2790, col: 10, offset: 88565},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2793, col: 13, offset: 88724},
+													pos: position{line: 2792, col: 13, offset: 88662},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2793, col: 13, offset: 88724},
+															pos: position{line: 2792, col: 13, offset: 88662},
 															run: (*parser).callonAttributeStructuredValueElement33,
 														},
 														&litMatcher{
-															pos:        position{line: 2796, col: 13, offset: 88824},
+															pos:        position{line: 2795, col: 13, offset: 88762},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -45762,20 +45718,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2796, col: 19, offset: 88830},
+													pos:        position{line: 2795, col: 19, offset: 88768},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2799, col: 13, offset: 88868},
+													pos: position{line: 2798, col: 13, offset: 88806},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2799, col: 13, offset: 88868},
+															pos: position{line: 2798, col: 13, offset: 88806},
 															run: (*parser).callonAttributeStructuredValueElement37,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2802, col: 14, offset: 88961},
+															pos:        position{line: 2801, col: 14, offset: 88899},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -45784,18 +45740,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2804, col: 12, offset: 89005},
+													pos: position{line: 2803, col: 12, offset: 88943},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2804, col: 12, offset: 89005},
+															pos:        position{line: 2803, col: 12, offset: 88943},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2804, col: 16, offset: 89009},
+															pos: position{line: 2803, col: 16, offset: 88947},
 															expr: &litMatcher{
-																pos:        position{line: 2804, col: 17, offset: 89010},
+																pos:        position{line: 2803, col: 17, offset: 88948},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -45807,31 +45763,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2403, col: 11, offset: 77870},
+										pos:  position{line: 2402, col: 11, offset: 77808},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2404, col: 11, offset: 77886},
+										pos:  position{line: 2403, col: 11, offset: 77824},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2467, col: 5, offset: 79394},
+										pos: position{line: 2466, col: 5, offset: 79332},
 										run: (*parser).callonAttributeStructuredValueElement45,
 										expr: &seqExpr{
-											pos: position{line: 2467, col: 5, offset: 79394},
+											pos: position{line: 2466, col: 5, offset: 79332},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2467, col: 5, offset: 79394},
+													pos: position{line: 2466, col: 5, offset: 79332},
 													run: (*parser).callonAttributeStructuredValueElement47,
 												},
 												&labeledExpr{
-													pos:   position{line: 2470, col: 5, offset: 79470},
+													pos:   position{line: 2469, col: 5, offset: 79408},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2471, col: 9, offset: 79488},
+														pos: position{line: 2470, col: 9, offset: 79426},
 														run: (*parser).callonAttributeStructuredValueElement49,
 														expr: &charClassMatcher{
-															pos:        position{line: 2471, col: 10, offset: 79489},
+															pos:        position{line: 2470, col: 10, offset: 79427},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -45843,27 +45799,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1198, col: 23, offset: 37046},
+										pos: position{line: 1197, col: 23, offset: 36984},
 										run: (*parser).callonAttributeStructuredValueElement51,
 										expr: &seqExpr{
-											pos: position{line: 1198, col: 23, offset: 37046},
+											pos: position{line: 1197, col: 23, offset: 36984},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1196, col: 32, offset: 37014},
+													pos:        position{line: 1195, col: 32, offset: 36952},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1198, col: 51, offset: 37074},
+													pos:   position{line: 1197, col: 51, offset: 37012},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1198, col: 56, offset: 37079},
+														pos: position{line: 1197, col: 56, offset: 37017},
 														run: (*parser).callonAttributeStructuredValueElement55,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1198, col: 56, offset: 37079},
+															pos: position{line: 1197, col: 56, offset: 37017},
 															expr: &charClassMatcher{
-																pos:        position{line: 1198, col: 56, offset: 37079},
+																pos:        position{line: 1197, col: 56, offset: 37017},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -45873,7 +45829,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1196, col: 32, offset: 37014},
+													pos:        position{line: 1195, col: 32, offset: 36952},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
@@ -45882,25 +45838,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2882, col: 12, offset: 91133},
+										pos: position{line: 2881, col: 12, offset: 91071},
 										run: (*parser).callonAttributeStructuredValueElement59,
 										expr: &choiceExpr{
-											pos: position{line: 2882, col: 13, offset: 91134},
+											pos: position{line: 2881, col: 13, offset: 91072},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2882, col: 13, offset: 91134},
+													pos:        position{line: 2881, col: 13, offset: 91072},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2882, col: 20, offset: 91141},
+													pos:        position{line: 2881, col: 20, offset: 91079},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2882, col: 29, offset: 91150},
+													pos:        position{line: 2881, col: 29, offset: 91088},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -45909,10 +45865,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2812, col: 12, offset: 89270},
+										pos: position{line: 2811, col: 12, offset: 89208},
 										run: (*parser).callonAttributeStructuredValueElement64,
 										expr: &charClassMatcher{
-											pos:        position{line: 2812, col: 12, offset: 89270},
+											pos:        position{line: 2811, col: 12, offset: 89208},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -45928,73 +45884,73 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2415, col: 1, offset: 78156},
+			pos:  position{line: 2414, col: 1, offset: 78094},
 			expr: &actionExpr{
-				pos: position{line: 2417, col: 5, offset: 78238},
+				pos: position{line: 2416, col: 5, offset: 78176},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2417, col: 5, offset: 78238},
+					pos: position{line: 2416, col: 5, offset: 78176},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2417, col: 5, offset: 78238},
+							pos: position{line: 2416, col: 5, offset: 78176},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2420, col: 5, offset: 78303},
+							pos:   position{line: 2419, col: 5, offset: 78241},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2421, col: 9, offset: 78321},
+								pos: position{line: 2420, col: 9, offset: 78259},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2421, col: 9, offset: 78321},
+										pos:  position{line: 2420, col: 9, offset: 78259},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2422, col: 11, offset: 78342},
+										pos:  position{line: 2421, col: 11, offset: 78280},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2423, col: 11, offset: 78365},
+										pos:  position{line: 2422, col: 11, offset: 78303},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2424, col: 11, offset: 78381},
+										pos:  position{line: 2423, col: 11, offset: 78319},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2425, col: 11, offset: 78410},
+										pos:  position{line: 2424, col: 11, offset: 78348},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2426, col: 11, offset: 78436},
+										pos:  position{line: 2425, col: 11, offset: 78374},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2427, col: 11, offset: 78462},
+										pos:  position{line: 2426, col: 11, offset: 78400},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
-										pos: position{line: 1253, col: 5, offset: 38806},
+										pos: position{line: 1252, col: 5, offset: 38744},
 										run: (*parser).callonInlineMacro13,
 										expr: &seqExpr{
-											pos: position{line: 1253, col: 5, offset: 38806},
+											pos: position{line: 1252, col: 5, offset: 38744},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1253, col: 5, offset: 38806},
+													pos:        position{line: 1252, col: 5, offset: 38744},
 													val:        "\\[[",
 													ignoreCase: false,
 													want:       "\"\\\\[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1253, col: 14, offset: 38815},
+													pos:   position{line: 1252, col: 14, offset: 38753},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2858, col: 7, offset: 90614},
+														pos: position{line: 2857, col: 7, offset: 90552},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2858, col: 7, offset: 90614},
+															pos: position{line: 2857, col: 7, offset: 90552},
 															expr: &charClassMatcher{
-																pos:        position{line: 2858, col: 7, offset: 90614},
+																pos:        position{line: 2857, col: 7, offset: 90552},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -46004,7 +45960,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1253, col: 22, offset: 38823},
+													pos:        position{line: 1252, col: 22, offset: 38761},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -46013,27 +45969,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1258, col: 5, offset: 38942},
+										pos: position{line: 1257, col: 5, offset: 38880},
 										run: (*parser).callonInlineMacro21,
 										expr: &seqExpr{
-											pos: position{line: 1258, col: 5, offset: 38942},
+											pos: position{line: 1257, col: 5, offset: 38880},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1258, col: 5, offset: 38942},
+													pos:        position{line: 1257, col: 5, offset: 38880},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1258, col: 10, offset: 38947},
+													pos:   position{line: 1257, col: 10, offset: 38885},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2858, col: 7, offset: 90614},
+														pos: position{line: 2857, col: 7, offset: 90552},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2858, col: 7, offset: 90614},
+															pos: position{line: 2857, col: 7, offset: 90552},
 															expr: &charClassMatcher{
-																pos:        position{line: 2858, col: 7, offset: 90614},
+																pos:        position{line: 2857, col: 7, offset: 90552},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -46043,7 +45999,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1258, col: 18, offset: 38955},
+													pos:        position{line: 1257, col: 18, offset: 38893},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -46052,40 +46008,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1297, col: 23, offset: 40431},
+										pos: position{line: 1296, col: 23, offset: 40369},
 										run: (*parser).callonInlineMacro29,
 										expr: &seqExpr{
-											pos: position{line: 1297, col: 23, offset: 40431},
+											pos: position{line: 1296, col: 23, offset: 40369},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1297, col: 23, offset: 40431},
+													pos:        position{line: 1296, col: 23, offset: 40369},
 													val:        "(((",
 													ignoreCase: false,
 													want:       "\"(((\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1297, col: 29, offset: 40437},
+													pos:   position{line: 1296, col: 29, offset: 40375},
 													label: "term1",
 													expr: &actionExpr{
-														pos: position{line: 1304, col: 30, offset: 40768},
+														pos: position{line: 1303, col: 30, offset: 40706},
 														run: (*parser).callonInlineMacro33,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1304, col: 30, offset: 40768},
+															pos: position{line: 1303, col: 30, offset: 40706},
 															expr: &choiceExpr{
-																pos: position{line: 1304, col: 31, offset: 40769},
+																pos: position{line: 1303, col: 31, offset: 40707},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2763, col: 13, offset: 88036},
+																		pos:        position{line: 2762, col: 13, offset: 87974},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2873, col: 10, offset: 90962},
+																		pos: position{line: 2872, col: 10, offset: 90900},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2873, col: 10, offset: 90962},
+																			pos:        position{line: 2872, col: 10, offset: 90900},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -46098,23 +46054,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1298, col: 5, offset: 40476},
+													pos:   position{line: 1297, col: 5, offset: 40414},
 													label: "term2",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1298, col: 11, offset: 40482},
+														pos: position{line: 1297, col: 11, offset: 40420},
 														expr: &actionExpr{
-															pos: position{line: 1298, col: 12, offset: 40483},
+															pos: position{line: 1297, col: 12, offset: 40421},
 															run: (*parser).callonInlineMacro41,
 															expr: &seqExpr{
-																pos: position{line: 1298, col: 12, offset: 40483},
+																pos: position{line: 1297, col: 12, offset: 40421},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1298, col: 12, offset: 40483},
+																		pos: position{line: 1297, col: 12, offset: 40421},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90962},
+																			pos: position{line: 2872, col: 10, offset: 90900},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90962},
+																				pos:        position{line: 2872, col: 10, offset: 90900},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46123,18 +46079,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1298, col: 19, offset: 40490},
+																		pos:        position{line: 1297, col: 19, offset: 40428},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1298, col: 23, offset: 40494},
+																		pos: position{line: 1297, col: 23, offset: 40432},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90962},
+																			pos: position{line: 2872, col: 10, offset: 90900},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90962},
+																				pos:        position{line: 2872, col: 10, offset: 90900},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46143,28 +46099,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1298, col: 30, offset: 40501},
+																		pos:   position{line: 1297, col: 30, offset: 40439},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1304, col: 30, offset: 40768},
+																			pos: position{line: 1303, col: 30, offset: 40706},
 																			run: (*parser).callonInlineMacro51,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1304, col: 30, offset: 40768},
+																				pos: position{line: 1303, col: 30, offset: 40706},
 																				expr: &choiceExpr{
-																					pos: position{line: 1304, col: 31, offset: 40769},
+																					pos: position{line: 1303, col: 31, offset: 40707},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2763, col: 13, offset: 88036},
+																							pos:        position{line: 2762, col: 13, offset: 87974},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2873, col: 10, offset: 90962},
+																							pos: position{line: 2872, col: 10, offset: 90900},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2873, col: 10, offset: 90962},
+																								pos:        position{line: 2872, col: 10, offset: 90900},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -46182,23 +46138,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1299, col: 5, offset: 40568},
+													pos:   position{line: 1298, col: 5, offset: 40506},
 													label: "term3",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1299, col: 11, offset: 40574},
+														pos: position{line: 1298, col: 11, offset: 40512},
 														expr: &actionExpr{
-															pos: position{line: 1299, col: 12, offset: 40575},
+															pos: position{line: 1298, col: 12, offset: 40513},
 															run: (*parser).callonInlineMacro59,
 															expr: &seqExpr{
-																pos: position{line: 1299, col: 12, offset: 40575},
+																pos: position{line: 1298, col: 12, offset: 40513},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1299, col: 12, offset: 40575},
+																		pos: position{line: 1298, col: 12, offset: 40513},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90962},
+																			pos: position{line: 2872, col: 10, offset: 90900},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90962},
+																				pos:        position{line: 2872, col: 10, offset: 90900},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46207,18 +46163,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1299, col: 19, offset: 40582},
+																		pos:        position{line: 1298, col: 19, offset: 40520},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1299, col: 23, offset: 40586},
+																		pos: position{line: 1298, col: 23, offset: 40524},
 																		expr: &actionExpr{
-																			pos: position{line: 2873, col: 10, offset: 90962},
+																			pos: position{line: 2872, col: 10, offset: 90900},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 10, offset: 90962},
+																				pos:        position{line: 2872, col: 10, offset: 90900},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46227,28 +46183,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1299, col: 30, offset: 40593},
+																		pos:   position{line: 1298, col: 30, offset: 40531},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1304, col: 30, offset: 40768},
+																			pos: position{line: 1303, col: 30, offset: 40706},
 																			run: (*parser).callonInlineMacro69,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1304, col: 30, offset: 40768},
+																				pos: position{line: 1303, col: 30, offset: 40706},
 																				expr: &choiceExpr{
-																					pos: position{line: 1304, col: 31, offset: 40769},
+																					pos: position{line: 1303, col: 31, offset: 40707},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2763, col: 13, offset: 88036},
+																							pos:        position{line: 2762, col: 13, offset: 87974},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2873, col: 10, offset: 90962},
+																							pos: position{line: 2872, col: 10, offset: 90900},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2873, col: 10, offset: 90962},
+																								pos:        position{line: 2872, col: 10, offset: 90900},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -46266,7 +46222,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1300, col: 5, offset: 40660},
+													pos:        position{line: 1299, col: 5, offset: 40598},
 													val:        ")))",
 													ignoreCase: false,
 													want:       "\")))\"",
@@ -46275,15 +46231,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2430, col: 11, offset: 78541},
+										pos:  position{line: 2429, col: 11, offset: 78479},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2431, col: 11, offset: 78561},
+										pos:  position{line: 2430, col: 11, offset: 78499},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2432, col: 11, offset: 78584},
+										pos:  position{line: 2431, col: 11, offset: 78522},
 										name: "InlineMenu",
 									},
 								},
@@ -46295,80 +46251,80 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2436, col: 1, offset: 78641},
+			pos:  position{line: 2435, col: 1, offset: 78579},
 			expr: &actionExpr{
-				pos: position{line: 2438, col: 5, offset: 78729},
+				pos: position{line: 2437, col: 5, offset: 78667},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2438, col: 5, offset: 78729},
+					pos: position{line: 2437, col: 5, offset: 78667},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2438, col: 5, offset: 78729},
+							pos: position{line: 2437, col: 5, offset: 78667},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2441, col: 5, offset: 78806},
+							pos:   position{line: 2440, col: 5, offset: 78744},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2442, col: 9, offset: 78824},
+								pos: position{line: 2441, col: 9, offset: 78762},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1379, col: 26, offset: 44106},
+										pos: position{line: 1378, col: 26, offset: 44044},
 										run: (*parser).callonInlinePassthrough6,
 										expr: &seqExpr{
-											pos: position{line: 1379, col: 26, offset: 44106},
+											pos: position{line: 1378, col: 26, offset: 44044},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1377, col: 32, offset: 44074},
+													pos:        position{line: 1376, col: 32, offset: 44012},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1379, col: 54, offset: 44134},
+													pos:   position{line: 1378, col: 54, offset: 44072},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1383, col: 33, offset: 44347},
+														pos: position{line: 1382, col: 33, offset: 44285},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1383, col: 34, offset: 44348},
+																pos: position{line: 1382, col: 34, offset: 44286},
 																run: (*parser).callonInlinePassthrough11,
 																expr: &zeroOrMoreExpr{
-																	pos: position{line: 1383, col: 34, offset: 44348},
+																	pos: position{line: 1382, col: 34, offset: 44286},
 																	expr: &seqExpr{
-																		pos: position{line: 1383, col: 35, offset: 44349},
+																		pos: position{line: 1382, col: 35, offset: 44287},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1383, col: 35, offset: 44349},
+																				pos: position{line: 1382, col: 35, offset: 44287},
 																				expr: &litMatcher{
-																					pos:        position{line: 1377, col: 32, offset: 44074},
+																					pos:        position{line: 1376, col: 32, offset: 44012},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1383, col: 64, offset: 44378,
+																				line: 1382, col: 64, offset: 44316,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1385, col: 11, offset: 44551},
+																pos: position{line: 1384, col: 11, offset: 44489},
 																run: (*parser).callonInlinePassthrough17,
 																expr: &zeroOrOneExpr{
-																	pos: position{line: 1385, col: 11, offset: 44551},
+																	pos: position{line: 1384, col: 11, offset: 44489},
 																	expr: &seqExpr{
-																		pos: position{line: 1385, col: 12, offset: 44552},
+																		pos: position{line: 1384, col: 12, offset: 44490},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1385, col: 12, offset: 44552},
+																				pos: position{line: 1384, col: 12, offset: 44490},
 																				expr: &actionExpr{
-																					pos: position{line: 2873, col: 10, offset: 90962},
+																					pos: position{line: 2872, col: 10, offset: 90900},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2873, col: 10, offset: 90962},
+																						pos:        position{line: 2872, col: 10, offset: 90900},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -46377,27 +46333,27 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1385, col: 19, offset: 44559},
+																				pos: position{line: 1384, col: 19, offset: 44497},
 																				expr: &actionExpr{
-																					pos: position{line: 2882, col: 12, offset: 91133},
+																					pos: position{line: 2881, col: 12, offset: 91071},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2882, col: 13, offset: 91134},
+																						pos: position{line: 2881, col: 13, offset: 91072},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 13, offset: 91134},
+																								pos:        position{line: 2881, col: 13, offset: 91072},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 20, offset: 91141},
+																								pos:        position{line: 2881, col: 20, offset: 91079},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2882, col: 29, offset: 91150},
+																								pos:        position{line: 2881, col: 29, offset: 91088},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -46407,16 +46363,16 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1385, col: 28, offset: 44568},
+																				pos: position{line: 1384, col: 28, offset: 44506},
 																				expr: &litMatcher{
-																					pos:        position{line: 1377, col: 32, offset: 44074},
+																					pos:        position{line: 1376, col: 32, offset: 44012},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1385, col: 57, offset: 44597,
+																				line: 1384, col: 57, offset: 44535,
 																			},
 																		},
 																	},
@@ -46426,15 +46382,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1377, col: 32, offset: 44074},
+													pos:        position{line: 1376, col: 32, offset: 44012},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&notExpr{
-													pos: position{line: 1379, col: 121, offset: 44201},
+													pos: position{line: 1378, col: 121, offset: 44139},
 													expr: &charClassMatcher{
-														pos:        position{line: 2763, col: 13, offset: 88036},
+														pos:        position{line: 2762, col: 13, offset: 87974},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -46445,45 +46401,45 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1367, col: 26, offset: 43389},
+										pos: position{line: 1366, col: 26, offset: 43327},
 										run: (*parser).callonInlinePassthrough35,
 										expr: &seqExpr{
-											pos: position{line: 1367, col: 26, offset: 43389},
+											pos: position{line: 1366, col: 26, offset: 43327},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1365, col: 32, offset: 43359},
+													pos:        position{line: 1364, col: 32, offset: 43297},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1367, col: 54, offset: 43417},
+													pos:   position{line: 1366, col: 54, offset: 43355},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1371, col: 33, offset: 43630},
+														pos: position{line: 1370, col: 33, offset: 43568},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1371, col: 34, offset: 43631},
+																pos: position{line: 1370, col: 34, offset: 43569},
 																run: (*parser).callonInlinePassthrough40,
 																expr: &seqExpr{
-																	pos: position{line: 1371, col: 34, offset: 43631},
+																	pos: position{line: 1370, col: 34, offset: 43569},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1371, col: 35, offset: 43632},
+																			pos: position{line: 1370, col: 35, offset: 43570},
 																			expr: &litMatcher{
-																				pos:        position{line: 1365, col: 32, offset: 43359},
+																				pos:        position{line: 1364, col: 32, offset: 43297},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1371, col: 64, offset: 43661},
+																			pos: position{line: 1370, col: 64, offset: 43599},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90962},
+																				pos: position{line: 2872, col: 10, offset: 90900},
 																				run: (*parser).callonInlinePassthrough45,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90962},
+																					pos:        position{line: 2872, col: 10, offset: 90900},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -46492,27 +46448,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1371, col: 71, offset: 43668},
+																			pos: position{line: 1370, col: 71, offset: 43606},
 																			expr: &actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91133},
+																				pos: position{line: 2881, col: 12, offset: 91071},
 																				run: (*parser).callonInlinePassthrough48,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91134},
+																					pos: position{line: 2881, col: 13, offset: 91072},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91134},
+																							pos:        position{line: 2881, col: 13, offset: 91072},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91141},
+																							pos:        position{line: 2881, col: 20, offset: 91079},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91150},
+																							pos:        position{line: 2881, col: 29, offset: 91088},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -46522,25 +46478,25 @@ var g = &grammar{
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1371, col: 80, offset: 43677,
+																			line: 1370, col: 80, offset: 43615,
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1371, col: 83, offset: 43680},
+																			pos: position{line: 1370, col: 83, offset: 43618},
 																			expr: &seqExpr{
-																				pos: position{line: 1371, col: 84, offset: 43681},
+																				pos: position{line: 1370, col: 84, offset: 43619},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1371, col: 84, offset: 43681},
+																						pos: position{line: 1370, col: 84, offset: 43619},
 																						expr: &seqExpr{
-																							pos: position{line: 1371, col: 86, offset: 43683},
+																							pos: position{line: 1370, col: 86, offset: 43621},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2877, col: 11, offset: 91023},
+																									pos: position{line: 2876, col: 11, offset: 90961},
 																									run: (*parser).callonInlinePassthrough58,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2877, col: 11, offset: 91023},
+																										pos: position{line: 2876, col: 11, offset: 90961},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2877, col: 11, offset: 91023},
+																											pos:        position{line: 2876, col: 11, offset: 90961},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -46549,7 +46505,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1365, col: 32, offset: 43359},
+																									pos:        position{line: 1364, col: 32, offset: 43297},
 																									val:        "+",
 																									ignoreCase: false,
 																									want:       "\"+\"",
@@ -46558,36 +46514,36 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1371, col: 122, offset: 43719},
+																						pos: position{line: 1370, col: 122, offset: 43657},
 																						expr: &litMatcher{
-																							pos:        position{line: 1365, col: 32, offset: 43359},
+																							pos:        position{line: 1364, col: 32, offset: 43297},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1371, col: 151, offset: 43748},
+																						pos: position{line: 1370, col: 151, offset: 43686},
 																						expr: &actionExpr{
-																							pos: position{line: 2882, col: 12, offset: 91133},
+																							pos: position{line: 2881, col: 12, offset: 91071},
 																							run: (*parser).callonInlinePassthrough65,
 																							expr: &choiceExpr{
-																								pos: position{line: 2882, col: 13, offset: 91134},
+																								pos: position{line: 2881, col: 13, offset: 91072},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 13, offset: 91134},
+																										pos:        position{line: 2881, col: 13, offset: 91072},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 20, offset: 91141},
+																										pos:        position{line: 2881, col: 20, offset: 91079},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2882, col: 29, offset: 91150},
+																										pos:        position{line: 2881, col: 29, offset: 91088},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -46597,7 +46553,7 @@ var g = &grammar{
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1371, col: 160, offset: 43757,
+																						line: 1370, col: 160, offset: 43695,
 																					},
 																				},
 																			},
@@ -46606,18 +46562,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1373, col: 11, offset: 43907},
+																pos: position{line: 1372, col: 11, offset: 43845},
 																run: (*parser).callonInlinePassthrough71,
 																expr: &seqExpr{
-																	pos: position{line: 1373, col: 12, offset: 43908},
+																	pos: position{line: 1372, col: 12, offset: 43846},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1373, col: 12, offset: 43908},
+																			pos: position{line: 1372, col: 12, offset: 43846},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 10, offset: 90962},
+																				pos: position{line: 2872, col: 10, offset: 90900},
 																				run: (*parser).callonInlinePassthrough74,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2873, col: 10, offset: 90962},
+																					pos:        position{line: 2872, col: 10, offset: 90900},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -46626,27 +46582,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1373, col: 19, offset: 43915},
+																			pos: position{line: 1372, col: 19, offset: 43853},
 																			expr: &actionExpr{
-																				pos: position{line: 2882, col: 12, offset: 91133},
+																				pos: position{line: 2881, col: 12, offset: 91071},
 																				run: (*parser).callonInlinePassthrough77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 13, offset: 91134},
+																					pos: position{line: 2881, col: 13, offset: 91072},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 13, offset: 91134},
+																							pos:        position{line: 2881, col: 13, offset: 91072},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 20, offset: 91141},
+																							pos:        position{line: 2881, col: 20, offset: 91079},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2882, col: 29, offset: 91150},
+																							pos:        position{line: 2881, col: 29, offset: 91088},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -46656,16 +46612,16 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1373, col: 28, offset: 43924},
+																			pos: position{line: 1372, col: 28, offset: 43862},
 																			expr: &litMatcher{
-																				pos:        position{line: 1365, col: 32, offset: 43359},
+																				pos:        position{line: 1364, col: 32, offset: 43297},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1373, col: 57, offset: 43953,
+																			line: 1372, col: 57, offset: 43891,
 																		},
 																	},
 																},
@@ -46674,15 +46630,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1365, col: 32, offset: 43359},
+													pos:        position{line: 1364, col: 32, offset: 43297},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&notExpr{
-													pos: position{line: 1367, col: 121, offset: 43484},
+													pos: position{line: 1366, col: 121, offset: 43422},
 													expr: &charClassMatcher{
-														pos:        position{line: 2763, col: 13, offset: 88036},
+														pos:        position{line: 2762, col: 13, offset: 87974},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -46693,7 +46649,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2442, col: 57, offset: 78872},
+										pos:  position{line: 2441, col: 57, offset: 78810},
 										name: "PassthroughMacro",
 									},
 								},
@@ -46705,16 +46661,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2447, col: 1, offset: 78932},
+			pos:  position{line: 2446, col: 1, offset: 78870},
 			expr: &seqExpr{
-				pos: position{line: 2449, col: 5, offset: 79008},
+				pos: position{line: 2448, col: 5, offset: 78946},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2449, col: 5, offset: 79008},
+						pos: position{line: 2448, col: 5, offset: 78946},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2452, col: 5, offset: 79073},
+						pos:  position{line: 2451, col: 5, offset: 79011},
 						name: "QuotedText",
 					},
 				},
@@ -46722,22 +46678,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2454, col: 1, offset: 79086},
+			pos:  position{line: 2453, col: 1, offset: 79024},
 			expr: &actionExpr{
-				pos: position{line: 2456, col: 5, offset: 79168},
+				pos: position{line: 2455, col: 5, offset: 79106},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2456, col: 5, offset: 79168},
+					pos: position{line: 2455, col: 5, offset: 79106},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2456, col: 5, offset: 79168},
+							pos: position{line: 2455, col: 5, offset: 79106},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2459, col: 5, offset: 79239},
+							pos:   position{line: 2458, col: 5, offset: 79177},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2460, col: 9, offset: 79257},
+								pos:  position{line: 2459, col: 9, offset: 79195},
 								name: "Symbol",
 							},
 						},
@@ -46747,93 +46703,93 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2518, col: 1, offset: 81087},
+			pos:  position{line: 2517, col: 1, offset: 81025},
 			expr: &choiceExpr{
-				pos: position{line: 2520, col: 5, offset: 81117},
+				pos: position{line: 2519, col: 5, offset: 81055},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2520, col: 5, offset: 81117},
+						pos: position{line: 2519, col: 5, offset: 81055},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2520, col: 5, offset: 81117},
+							pos: position{line: 2519, col: 5, offset: 81055},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2520, col: 5, offset: 81117},
+									pos:        position{line: 2519, col: 5, offset: 81055},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2520, col: 10, offset: 81122},
+									pos: position{line: 2519, col: 10, offset: 81060},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2520, col: 10, offset: 81122},
+											pos:  position{line: 2519, col: 10, offset: 81060},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2549, col: 14, offset: 82256},
+											pos: position{line: 2548, col: 14, offset: 82194},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2549, col: 14, offset: 82256},
+												pos:        position{line: 2548, col: 14, offset: 82194},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2553, col: 14, offset: 82322},
+											pos: position{line: 2552, col: 14, offset: 82260},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2553, col: 14, offset: 82322},
+												pos:        position{line: 2552, col: 14, offset: 82260},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2557, col: 15, offset: 82391},
+											pos: position{line: 2556, col: 15, offset: 82329},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2557, col: 15, offset: 82391},
+												pos:        position{line: 2556, col: 15, offset: 82329},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2561, col: 13, offset: 82456},
+											pos: position{line: 2560, col: 13, offset: 82394},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2561, col: 13, offset: 82456},
+												pos:        position{line: 2560, col: 13, offset: 82394},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2568, col: 5, offset: 82594},
+											pos: position{line: 2567, col: 5, offset: 82532},
 											run: (*parser).callonSymbol15,
 											expr: &seqExpr{
-												pos: position{line: 2568, col: 5, offset: 82594},
+												pos: position{line: 2567, col: 5, offset: 82532},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2568, col: 5, offset: 82594},
+														pos:        position{line: 2567, col: 5, offset: 82532},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2569, col: 5, offset: 82604},
+														pos: position{line: 2568, col: 5, offset: 82542},
 														run: (*parser).callonSymbol18,
 													},
 													&choiceExpr{
-														pos: position{line: 2573, col: 6, offset: 82691},
+														pos: position{line: 2572, col: 6, offset: 82629},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2873, col: 10, offset: 90962},
+																pos: position{line: 2872, col: 10, offset: 90900},
 																run: (*parser).callonSymbol20,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2873, col: 10, offset: 90962},
+																	pos:        position{line: 2872, col: 10, offset: 90900},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -46841,30 +46797,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2573, col: 14, offset: 82699},
+																pos: position{line: 2572, col: 14, offset: 82637},
 																expr: &choiceExpr{
-																	pos: position{line: 2895, col: 8, offset: 91360},
+																	pos: position{line: 2894, col: 8, offset: 91298},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 12, offset: 91133},
+																			pos: position{line: 2881, col: 12, offset: 91071},
 																			run: (*parser).callonSymbol24,
 																			expr: &choiceExpr{
-																				pos: position{line: 2882, col: 13, offset: 91134},
+																				pos: position{line: 2881, col: 13, offset: 91072},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 13, offset: 91134},
+																						pos:        position{line: 2881, col: 13, offset: 91072},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 20, offset: 91141},
+																						pos:        position{line: 2881, col: 20, offset: 91079},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2882, col: 29, offset: 91150},
+																						pos:        position{line: 2881, col: 29, offset: 91088},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -46873,9 +46829,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2892, col: 8, offset: 91310},
+																			pos: position{line: 2891, col: 8, offset: 91248},
 																			expr: &anyMatcher{
-																				line: 2892, col: 9, offset: 91311,
+																				line: 2891, col: 9, offset: 91249,
 																			},
 																		},
 																	},
@@ -46887,53 +46843,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2578, col: 5, offset: 82819},
+											pos: position{line: 2577, col: 5, offset: 82757},
 											run: (*parser).callonSymbol31,
 											expr: &seqExpr{
-												pos: position{line: 2578, col: 5, offset: 82819},
+												pos: position{line: 2577, col: 5, offset: 82757},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2578, col: 5, offset: 82819},
+														pos:        position{line: 2577, col: 5, offset: 82757},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2579, col: 5, offset: 82829},
+														pos: position{line: 2578, col: 5, offset: 82767},
 														run: (*parser).callonSymbol34,
 													},
 													&andExpr{
-														pos: position{line: 2583, col: 5, offset: 82918},
+														pos: position{line: 2582, col: 5, offset: 82856},
 														expr: &choiceExpr{
-															pos: position{line: 2583, col: 7, offset: 82920},
+															pos: position{line: 2582, col: 7, offset: 82858},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2763, col: 13, offset: 88036},
+																	pos:        position{line: 2762, col: 13, offset: 87974},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2882, col: 12, offset: 91133},
+																	pos: position{line: 2881, col: 12, offset: 91071},
 																	run: (*parser).callonSymbol38,
 																	expr: &choiceExpr{
-																		pos: position{line: 2882, col: 13, offset: 91134},
+																		pos: position{line: 2881, col: 13, offset: 91072},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2882, col: 13, offset: 91134},
+																				pos:        position{line: 2881, col: 13, offset: 91072},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2882, col: 20, offset: 91141},
+																				pos:        position{line: 2881, col: 20, offset: 91079},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2882, col: 29, offset: 91150},
+																				pos:        position{line: 2881, col: 29, offset: 91088},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -46942,9 +46898,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2892, col: 8, offset: 91310},
+																	pos: position{line: 2891, col: 8, offset: 91248},
 																	expr: &anyMatcher{
-																		line: 2892, col: 9, offset: 91311,
+																		line: 2891, col: 9, offset: 91249,
 																	},
 																},
 															},
@@ -46959,63 +46915,63 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2523, col: 7, offset: 81286},
+						pos: position{line: 2522, col: 7, offset: 81224},
 						run: (*parser).callonSymbol45,
 						expr: &seqExpr{
-							pos: position{line: 2523, col: 7, offset: 81286},
+							pos: position{line: 2522, col: 7, offset: 81224},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2523, col: 7, offset: 81286},
+									pos:        position{line: 2522, col: 7, offset: 81224},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2523, col: 11, offset: 81290},
+									pos:   position{line: 2522, col: 11, offset: 81228},
 									label: "elements",
 									expr: &choiceExpr{
-										pos: position{line: 2523, col: 21, offset: 81300},
+										pos: position{line: 2522, col: 21, offset: 81238},
 										alternatives: []interface{}{
 											&seqExpr{
-												pos: position{line: 2523, col: 21, offset: 81300},
+												pos: position{line: 2522, col: 21, offset: 81238},
 												exprs: []interface{}{
 													&charClassMatcher{
-														pos:        position{line: 2523, col: 21, offset: 81300},
+														pos:        position{line: 2522, col: 21, offset: 81238},
 														val:        "[-=]",
 														chars:      []rune{'-', '='},
 														ignoreCase: false,
 														inverted:   false,
 													},
 													&andExpr{
-														pos: position{line: 2523, col: 26, offset: 81305},
+														pos: position{line: 2522, col: 26, offset: 81243},
 														expr: &litMatcher{
-															pos:        position{line: 2523, col: 27, offset: 81306},
+															pos:        position{line: 2522, col: 27, offset: 81244},
 															val:        ">",
 															ignoreCase: false,
 															want:       "\">\"",
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2523, col: 32, offset: 81311},
+														pos: position{line: 2522, col: 32, offset: 81249},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2467, col: 5, offset: 79394},
+																pos: position{line: 2466, col: 5, offset: 79332},
 																run: (*parser).callonSymbol55,
 																expr: &seqExpr{
-																	pos: position{line: 2467, col: 5, offset: 79394},
+																	pos: position{line: 2466, col: 5, offset: 79332},
 																	exprs: []interface{}{
 																		&andCodeExpr{
-																			pos: position{line: 2467, col: 5, offset: 79394},
+																			pos: position{line: 2466, col: 5, offset: 79332},
 																			run: (*parser).callonSymbol57,
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 2470, col: 5, offset: 79470},
+																			pos:   position{line: 2469, col: 5, offset: 79408},
 																			label: "element",
 																			expr: &actionExpr{
-																				pos: position{line: 2471, col: 9, offset: 79488},
+																				pos: position{line: 2470, col: 9, offset: 79426},
 																				run: (*parser).callonSymbol59,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2471, col: 10, offset: 79489},
+																					pos:        position{line: 2470, col: 10, offset: 79427},
 																					val:        "[<>&]",
 																					chars:      []rune{'<', '>', '&'},
 																					ignoreCase: false,
@@ -47027,28 +46983,28 @@ var g = &grammar{
 																},
 															},
 															&anyMatcher{
-																line: 2523, col: 51, offset: 81330,
+																line: 2522, col: 51, offset: 81268,
 															},
 														},
 													},
 												},
 											},
 											&seqExpr{
-												pos: position{line: 2523, col: 56, offset: 81335},
+												pos: position{line: 2522, col: 56, offset: 81273},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2523, col: 56, offset: 81335},
+														pos: position{line: 2522, col: 56, offset: 81273},
 														expr: &choiceExpr{
-															pos: position{line: 2523, col: 58, offset: 81337},
+															pos: position{line: 2522, col: 58, offset: 81275},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2523, col: 58, offset: 81337},
+																	pos:        position{line: 2522, col: 58, offset: 81275},
 																	val:        "<-",
 																	ignoreCase: false,
 																	want:       "\"<-\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2523, col: 65, offset: 81344},
+																	pos:        position{line: 2522, col: 65, offset: 81282},
 																	val:        "<=",
 																	ignoreCase: false,
 																	want:       "\"<=\"",
@@ -47057,26 +47013,26 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2523, col: 72, offset: 81351},
+														pos: position{line: 2522, col: 72, offset: 81289},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2467, col: 5, offset: 79394},
+																pos: position{line: 2466, col: 5, offset: 79332},
 																run: (*parser).callonSymbol68,
 																expr: &seqExpr{
-																	pos: position{line: 2467, col: 5, offset: 79394},
+																	pos: position{line: 2466, col: 5, offset: 79332},
 																	exprs: []interface{}{
 																		&andCodeExpr{
-																			pos: position{line: 2467, col: 5, offset: 79394},
+																			pos: position{line: 2466, col: 5, offset: 79332},
 																			run: (*parser).callonSymbol70,
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 2470, col: 5, offset: 79470},
+																			pos:   position{line: 2469, col: 5, offset: 79408},
 																			label: "element",
 																			expr: &actionExpr{
-																				pos: position{line: 2471, col: 9, offset: 79488},
+																				pos: position{line: 2470, col: 9, offset: 79426},
 																				run: (*parser).callonSymbol72,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2471, col: 10, offset: 79489},
+																					pos:        position{line: 2470, col: 10, offset: 79427},
 																					val:        "[<>&]",
 																					chars:      []rune{'<', '>', '&'},
 																					ignoreCase: false,
@@ -47088,12 +47044,12 @@ var g = &grammar{
 																},
 															},
 															&anyMatcher{
-																line: 2523, col: 91, offset: 81370,
+																line: 2522, col: 91, offset: 81308,
 															},
 														},
 													},
 													&anyMatcher{
-														line: 2523, col: 94, offset: 81373,
+														line: 2522, col: 94, offset: 81311,
 													},
 												},
 											},
@@ -47104,73 +47060,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2524, col: 7, offset: 81407},
+						pos:  position{line: 2523, col: 7, offset: 81345},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2549, col: 14, offset: 82256},
+						pos: position{line: 2548, col: 14, offset: 82194},
 						run: (*parser).callonSymbol77,
 						expr: &litMatcher{
-							pos:        position{line: 2549, col: 14, offset: 82256},
+							pos:        position{line: 2548, col: 14, offset: 82194},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2553, col: 14, offset: 82322},
+						pos: position{line: 2552, col: 14, offset: 82260},
 						run: (*parser).callonSymbol79,
 						expr: &litMatcher{
-							pos:        position{line: 2553, col: 14, offset: 82322},
+							pos:        position{line: 2552, col: 14, offset: 82260},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2557, col: 15, offset: 82391},
+						pos: position{line: 2556, col: 15, offset: 82329},
 						run: (*parser).callonSymbol81,
 						expr: &litMatcher{
-							pos:        position{line: 2557, col: 15, offset: 82391},
+							pos:        position{line: 2556, col: 15, offset: 82329},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2561, col: 13, offset: 82456},
+						pos: position{line: 2560, col: 13, offset: 82394},
 						run: (*parser).callonSymbol83,
 						expr: &litMatcher{
-							pos:        position{line: 2561, col: 13, offset: 82456},
+							pos:        position{line: 2560, col: 13, offset: 82394},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2568, col: 5, offset: 82594},
+						pos: position{line: 2567, col: 5, offset: 82532},
 						run: (*parser).callonSymbol85,
 						expr: &seqExpr{
-							pos: position{line: 2568, col: 5, offset: 82594},
+							pos: position{line: 2567, col: 5, offset: 82532},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2568, col: 5, offset: 82594},
+									pos:        position{line: 2567, col: 5, offset: 82532},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2569, col: 5, offset: 82604},
+									pos: position{line: 2568, col: 5, offset: 82542},
 									run: (*parser).callonSymbol88,
 								},
 								&choiceExpr{
-									pos: position{line: 2573, col: 6, offset: 82691},
+									pos: position{line: 2572, col: 6, offset: 82629},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2873, col: 10, offset: 90962},
+											pos: position{line: 2872, col: 10, offset: 90900},
 											run: (*parser).callonSymbol90,
 											expr: &charClassMatcher{
-												pos:        position{line: 2873, col: 10, offset: 90962},
+												pos:        position{line: 2872, col: 10, offset: 90900},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -47178,30 +47134,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2573, col: 14, offset: 82699},
+											pos: position{line: 2572, col: 14, offset: 82637},
 											expr: &choiceExpr{
-												pos: position{line: 2895, col: 8, offset: 91360},
+												pos: position{line: 2894, col: 8, offset: 91298},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2882, col: 12, offset: 91133},
+														pos: position{line: 2881, col: 12, offset: 91071},
 														run: (*parser).callonSymbol94,
 														expr: &choiceExpr{
-															pos: position{line: 2882, col: 13, offset: 91134},
+															pos: position{line: 2881, col: 13, offset: 91072},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2882, col: 13, offset: 91134},
+																	pos:        position{line: 2881, col: 13, offset: 91072},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2882, col: 20, offset: 91141},
+																	pos:        position{line: 2881, col: 20, offset: 91079},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2882, col: 29, offset: 91150},
+																	pos:        position{line: 2881, col: 29, offset: 91088},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -47210,9 +47166,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2892, col: 8, offset: 91310},
+														pos: position{line: 2891, col: 8, offset: 91248},
 														expr: &anyMatcher{
-															line: 2892, col: 9, offset: 91311,
+															line: 2891, col: 9, offset: 91249,
 														},
 													},
 												},
@@ -47224,53 +47180,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2578, col: 5, offset: 82819},
+						pos: position{line: 2577, col: 5, offset: 82757},
 						run: (*parser).callonSymbol101,
 						expr: &seqExpr{
-							pos: position{line: 2578, col: 5, offset: 82819},
+							pos: position{line: 2577, col: 5, offset: 82757},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2578, col: 5, offset: 82819},
+									pos:        position{line: 2577, col: 5, offset: 82757},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2579, col: 5, offset: 82829},
+									pos: position{line: 2578, col: 5, offset: 82767},
 									run: (*parser).callonSymbol104,
 								},
 								&andExpr{
-									pos: position{line: 2583, col: 5, offset: 82918},
+									pos: position{line: 2582, col: 5, offset: 82856},
 									expr: &choiceExpr{
-										pos: position{line: 2583, col: 7, offset: 82920},
+										pos: position{line: 2582, col: 7, offset: 82858},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2763, col: 13, offset: 88036},
+												pos:        position{line: 2762, col: 13, offset: 87974},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2882, col: 12, offset: 91133},
+												pos: position{line: 2881, col: 12, offset: 91071},
 												run: (*parser).callonSymbol108,
 												expr: &choiceExpr{
-													pos: position{line: 2882, col: 13, offset: 91134},
+													pos: position{line: 2881, col: 13, offset: 91072},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2882, col: 13, offset: 91134},
+															pos:        position{line: 2881, col: 13, offset: 91072},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2882, col: 20, offset: 91141},
+															pos:        position{line: 2881, col: 20, offset: 91079},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2882, col: 29, offset: 91150},
+															pos:        position{line: 2881, col: 29, offset: 91088},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -47279,9 +47235,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2892, col: 8, offset: 91310},
+												pos: position{line: 2891, col: 8, offset: 91248},
 												expr: &anyMatcher{
-													line: 2892, col: 9, offset: 91311,
+													line: 2891, col: 9, offset: 91249,
 												},
 											},
 										},
@@ -47291,40 +47247,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2589, col: 21, offset: 83008},
+						pos: position{line: 2588, col: 21, offset: 82946},
 						run: (*parser).callonSymbol115,
 						expr: &litMatcher{
-							pos:        position{line: 2589, col: 21, offset: 83008},
+							pos:        position{line: 2588, col: 21, offset: 82946},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2593, col: 20, offset: 83078},
+						pos: position{line: 2592, col: 20, offset: 83016},
 						run: (*parser).callonSymbol117,
 						expr: &litMatcher{
-							pos:        position{line: 2593, col: 20, offset: 83078},
+							pos:        position{line: 2592, col: 20, offset: 83016},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2597, col: 21, offset: 83149},
+						pos: position{line: 2596, col: 21, offset: 83087},
 						run: (*parser).callonSymbol119,
 						expr: &litMatcher{
-							pos:        position{line: 2597, col: 21, offset: 83149},
+							pos:        position{line: 2596, col: 21, offset: 83087},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2601, col: 20, offset: 83219},
+						pos: position{line: 2600, col: 20, offset: 83157},
 						run: (*parser).callonSymbol121,
 						expr: &litMatcher{
-							pos:        position{line: 2601, col: 20, offset: 83219},
+							pos:        position{line: 2600, col: 20, offset: 83157},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -47335,43 +47291,43 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2535, col: 1, offset: 81597},
+			pos:  position{line: 2534, col: 1, offset: 81535},
 			expr: &choiceExpr{
-				pos: position{line: 2536, col: 5, offset: 81619},
+				pos: position{line: 2535, col: 5, offset: 81557},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2536, col: 5, offset: 81619},
+						pos: position{line: 2535, col: 5, offset: 81557},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2536, col: 5, offset: 81619},
+							pos: position{line: 2535, col: 5, offset: 81557},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2536, col: 5, offset: 81619},
+									pos:        position{line: 2535, col: 5, offset: 81557},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2536, col: 11, offset: 81625},
+									pos: position{line: 2535, col: 11, offset: 81563},
 									expr: &seqExpr{
-										pos: position{line: 2086, col: 5, offset: 67531},
+										pos: position{line: 2085, col: 5, offset: 67469},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2086, col: 5, offset: 67531},
+												pos:        position{line: 2085, col: 5, offset: 67469},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2087, col: 5, offset: 67540},
+												pos: position{line: 2086, col: 5, offset: 67478},
 												run: (*parser).callonQuotationMark8,
 											},
 											&andExpr{
-												pos: position{line: 2091, col: 5, offset: 67663},
+												pos: position{line: 2090, col: 5, offset: 67601},
 												expr: &notExpr{
-													pos: position{line: 2091, col: 7, offset: 67665},
+													pos: position{line: 2090, col: 7, offset: 67603},
 													expr: &litMatcher{
-														pos:        position{line: 2091, col: 8, offset: 67666},
+														pos:        position{line: 2090, col: 8, offset: 67604},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -47385,21 +47341,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2539, col: 7, offset: 81778},
+						pos: position{line: 2538, col: 7, offset: 81716},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2539, col: 7, offset: 81778},
+							pos: position{line: 2538, col: 7, offset: 81716},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2539, col: 7, offset: 81778},
+									pos:        position{line: 2538, col: 7, offset: 81716},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2539, col: 13, offset: 81784},
+									pos: position{line: 2538, col: 13, offset: 81722},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2539, col: 14, offset: 81785},
+										pos:  position{line: 2538, col: 14, offset: 81723},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -47407,38 +47363,38 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2542, col: 7, offset: 81935},
+						pos: position{line: 2541, col: 7, offset: 81873},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2542, col: 7, offset: 81935},
+							pos: position{line: 2541, col: 7, offset: 81873},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2542, col: 7, offset: 81935},
+									pos:        position{line: 2541, col: 7, offset: 81873},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2542, col: 12, offset: 81940},
+									pos: position{line: 2541, col: 12, offset: 81878},
 									expr: &seqExpr{
-										pos: position{line: 2086, col: 5, offset: 67531},
+										pos: position{line: 2085, col: 5, offset: 67469},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2086, col: 5, offset: 67531},
+												pos:        position{line: 2085, col: 5, offset: 67469},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2087, col: 5, offset: 67540},
+												pos: position{line: 2086, col: 5, offset: 67478},
 												run: (*parser).callonQuotationMark23,
 											},
 											&andExpr{
-												pos: position{line: 2091, col: 5, offset: 67663},
+												pos: position{line: 2090, col: 5, offset: 67601},
 												expr: &notExpr{
-													pos: position{line: 2091, col: 7, offset: 67665},
+													pos: position{line: 2090, col: 7, offset: 67603},
 													expr: &litMatcher{
-														pos:        position{line: 2091, col: 8, offset: 67666},
+														pos:        position{line: 2090, col: 8, offset: 67604},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -47452,21 +47408,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2545, col: 7, offset: 82093},
+						pos: position{line: 2544, col: 7, offset: 82031},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2545, col: 7, offset: 82093},
+							pos: position{line: 2544, col: 7, offset: 82031},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2545, col: 7, offset: 82093},
+									pos:        position{line: 2544, col: 7, offset: 82031},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2545, col: 12, offset: 82098},
+									pos: position{line: 2544, col: 12, offset: 82036},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2545, col: 13, offset: 82099},
+										pos:  position{line: 2544, col: 13, offset: 82037},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -47478,63 +47434,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2678, col: 1, offset: 85121},
+			pos:  position{line: 2677, col: 1, offset: 85059},
 			expr: &actionExpr{
-				pos: position{line: 2678, col: 26, offset: 85146},
+				pos: position{line: 2677, col: 26, offset: 85084},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2678, col: 26, offset: 85146},
+					pos: position{line: 2677, col: 26, offset: 85084},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2678, col: 26, offset: 85146},
+							pos:   position{line: 2677, col: 26, offset: 85084},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2678, col: 31, offset: 85151},
+								pos: position{line: 2677, col: 31, offset: 85089},
 								expr: &actionExpr{
-									pos: position{line: 2683, col: 5, offset: 85214},
+									pos: position{line: 2682, col: 5, offset: 85152},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2683, col: 5, offset: 85214},
+										pos: position{line: 2682, col: 5, offset: 85152},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2890, col: 11, offset: 91296},
+												pos: position{line: 2889, col: 11, offset: 91234},
 												expr: &anyMatcher{
-													line: 2890, col: 13, offset: 91298,
+													line: 2889, col: 13, offset: 91236,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2686, col: 5, offset: 85340},
+												pos:   position{line: 2685, col: 5, offset: 85278},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2686, col: 16, offset: 85351},
+													pos: position{line: 2685, col: 16, offset: 85289},
 													expr: &actionExpr{
-														pos: position{line: 2686, col: 17, offset: 85352},
+														pos: position{line: 2685, col: 17, offset: 85290},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2686, col: 17, offset: 85352},
+															pos: position{line: 2685, col: 17, offset: 85290},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2686, col: 17, offset: 85352},
+																	pos:   position{line: 2685, col: 17, offset: 85290},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2865, col: 12, offset: 90789},
+																		pos: position{line: 2864, col: 12, offset: 90727},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2865, col: 13, offset: 90790},
+																			pos: position{line: 2864, col: 13, offset: 90728},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2865, col: 13, offset: 90790},
+																					pos: position{line: 2864, col: 13, offset: 90728},
 																					expr: &litMatcher{
-																						pos:        position{line: 2865, col: 13, offset: 90790},
+																						pos:        position{line: 2864, col: 13, offset: 90728},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2865, col: 18, offset: 90795},
+																					pos: position{line: 2864, col: 18, offset: 90733},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2865, col: 18, offset: 90795},
+																						pos:        position{line: 2864, col: 18, offset: 90733},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -47546,7 +47502,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2686, col: 27, offset: 85362},
+																	pos:        position{line: 2685, col: 27, offset: 85300},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -47557,38 +47513,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2687, col: 5, offset: 85390},
+												pos:   position{line: 2686, col: 5, offset: 85328},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2687, col: 12, offset: 85397},
+													pos: position{line: 2686, col: 12, offset: 85335},
 													expr: &choiceExpr{
-														pos: position{line: 2688, col: 9, offset: 85407},
+														pos: position{line: 2687, col: 9, offset: 85345},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2688, col: 9, offset: 85407},
+																pos: position{line: 2687, col: 9, offset: 85345},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2688, col: 9, offset: 85407},
+																	pos:        position{line: 2687, col: 9, offset: 85345},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2689, col: 11, offset: 85454},
+																pos: position{line: 2688, col: 11, offset: 85392},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2689, col: 11, offset: 85454},
+																	pos:        position{line: 2688, col: 11, offset: 85392},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2690, col: 11, offset: 85502},
+																pos: position{line: 2689, col: 11, offset: 85440},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2690, col: 11, offset: 85502},
+																	pos:        position{line: 2689, col: 11, offset: 85440},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -47599,38 +47555,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2692, col: 5, offset: 85552},
+												pos:   position{line: 2691, col: 5, offset: 85490},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2692, col: 12, offset: 85559},
+													pos: position{line: 2691, col: 12, offset: 85497},
 													expr: &choiceExpr{
-														pos: position{line: 2693, col: 9, offset: 85569},
+														pos: position{line: 2692, col: 9, offset: 85507},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2693, col: 9, offset: 85569},
+																pos: position{line: 2692, col: 9, offset: 85507},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2693, col: 9, offset: 85569},
+																	pos:        position{line: 2692, col: 9, offset: 85507},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2694, col: 11, offset: 85616},
+																pos: position{line: 2693, col: 11, offset: 85554},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2694, col: 11, offset: 85616},
+																	pos:        position{line: 2693, col: 11, offset: 85554},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2695, col: 11, offset: 85666},
+																pos: position{line: 2694, col: 11, offset: 85604},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2695, col: 11, offset: 85666},
+																	pos:        position{line: 2694, col: 11, offset: 85604},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -47641,32 +47597,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2697, col: 5, offset: 85717},
+												pos:   position{line: 2696, col: 5, offset: 85655},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2697, col: 12, offset: 85724},
+													pos: position{line: 2696, col: 12, offset: 85662},
 													expr: &choiceExpr{
-														pos: position{line: 2697, col: 13, offset: 85725},
+														pos: position{line: 2696, col: 13, offset: 85663},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2865, col: 12, offset: 90789},
+																pos: position{line: 2864, col: 12, offset: 90727},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2865, col: 13, offset: 90790},
+																	pos: position{line: 2864, col: 13, offset: 90728},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2865, col: 13, offset: 90790},
+																			pos: position{line: 2864, col: 13, offset: 90728},
 																			expr: &litMatcher{
-																				pos:        position{line: 2865, col: 13, offset: 90790},
+																				pos:        position{line: 2864, col: 13, offset: 90728},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2865, col: 18, offset: 90795},
+																			pos: position{line: 2864, col: 18, offset: 90733},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2865, col: 18, offset: 90795},
+																				pos:        position{line: 2864, col: 18, offset: 90733},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -47677,10 +47633,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2697, col: 24, offset: 85736},
+																pos: position{line: 2696, col: 24, offset: 85674},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2697, col: 24, offset: 85736},
+																	pos:        position{line: 2696, col: 24, offset: 85674},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -47691,15 +47647,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2698, col: 5, offset: 85778},
+												pos:   position{line: 2697, col: 5, offset: 85716},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2698, col: 11, offset: 85784},
+													pos: position{line: 2697, col: 11, offset: 85722},
 													expr: &actionExpr{
-														pos: position{line: 2698, col: 12, offset: 85785},
+														pos: position{line: 2697, col: 12, offset: 85723},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2698, col: 12, offset: 85785},
+															pos:        position{line: 2697, col: 12, offset: 85723},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -47709,12 +47665,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2700, col: 5, offset: 85915},
+												pos:   position{line: 2699, col: 5, offset: 85853},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2700, col: 11, offset: 85921},
+													pos: position{line: 2699, col: 11, offset: 85859},
 													expr: &litMatcher{
-														pos:        position{line: 2700, col: 12, offset: 85922},
+														pos:        position{line: 2699, col: 12, offset: 85860},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -47722,7 +47678,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2701, col: 5, offset: 85932},
+												pos: position{line: 2700, col: 5, offset: 85870},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -47731,9 +47687,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2892, col: 8, offset: 91310},
+							pos: position{line: 2891, col: 8, offset: 91248},
 							expr: &anyMatcher{
-								line: 2892, col: 9, offset: 91311,
+								line: 2891, col: 9, offset: 91249,
 							},
 						},
 					},
@@ -47742,23 +47698,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2728, col: 1, offset: 86936},
+			pos:  position{line: 2727, col: 1, offset: 86874},
 			expr: &actionExpr{
-				pos: position{line: 2729, col: 5, offset: 86959},
+				pos: position{line: 2728, col: 5, offset: 86897},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2729, col: 5, offset: 86959},
+					pos: position{line: 2728, col: 5, offset: 86897},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2729, col: 5, offset: 86959},
+							pos:   position{line: 2728, col: 5, offset: 86897},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2752, col: 18, offset: 87700},
+								pos: position{line: 2751, col: 18, offset: 87638},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2752, col: 19, offset: 87701},
+									pos: position{line: 2751, col: 19, offset: 87639},
 									expr: &charClassMatcher{
-										pos:        position{line: 2752, col: 19, offset: 87701},
+										pos:        position{line: 2751, col: 19, offset: 87639},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47769,25 +47725,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2730, col: 5, offset: 86985},
+							pos: position{line: 2729, col: 5, offset: 86923},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2734, col: 5, offset: 87113},
+							pos:        position{line: 2733, col: 5, offset: 87051},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2735, col: 5, offset: 87123},
+							pos:   position{line: 2734, col: 5, offset: 87061},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2756, col: 19, offset: 87776},
+								pos: position{line: 2755, col: 19, offset: 87714},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2756, col: 19, offset: 87776},
+									pos: position{line: 2755, col: 19, offset: 87714},
 									expr: &charClassMatcher{
-										pos:        position{line: 2756, col: 19, offset: 87776},
+										pos:        position{line: 2755, col: 19, offset: 87714},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -47797,36 +47753,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2736, col: 5, offset: 87151},
+							pos:   position{line: 2735, col: 5, offset: 87089},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2736, col: 17, offset: 87163},
+								pos:  position{line: 2735, col: 17, offset: 87101},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2895, col: 8, offset: 91360},
+							pos: position{line: 2894, col: 8, offset: 91298},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2882, col: 12, offset: 91133},
+									pos: position{line: 2881, col: 12, offset: 91071},
 									run: (*parser).callonUserMacroBlock16,
 									expr: &choiceExpr{
-										pos: position{line: 2882, col: 13, offset: 91134},
+										pos: position{line: 2881, col: 13, offset: 91072},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2882, col: 13, offset: 91134},
+												pos:        position{line: 2881, col: 13, offset: 91072},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 20, offset: 91141},
+												pos:        position{line: 2881, col: 20, offset: 91079},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2882, col: 29, offset: 91150},
+												pos:        position{line: 2881, col: 29, offset: 91088},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -47835,9 +47791,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2892, col: 8, offset: 91310},
+									pos: position{line: 2891, col: 8, offset: 91248},
 									expr: &anyMatcher{
-										line: 2892, col: 9, offset: 91311,
+										line: 2891, col: 9, offset: 91249,
 									},
 								},
 							},
@@ -47848,23 +47804,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2740, col: 1, offset: 87311},
+			pos:  position{line: 2739, col: 1, offset: 87249},
 			expr: &actionExpr{
-				pos: position{line: 2741, col: 5, offset: 87335},
+				pos: position{line: 2740, col: 5, offset: 87273},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2741, col: 5, offset: 87335},
+					pos: position{line: 2740, col: 5, offset: 87273},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2741, col: 5, offset: 87335},
+							pos:   position{line: 2740, col: 5, offset: 87273},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2752, col: 18, offset: 87700},
+								pos: position{line: 2751, col: 18, offset: 87638},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2752, col: 19, offset: 87701},
+									pos: position{line: 2751, col: 19, offset: 87639},
 									expr: &charClassMatcher{
-										pos:        position{line: 2752, col: 19, offset: 87701},
+										pos:        position{line: 2751, col: 19, offset: 87639},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47875,25 +47831,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2742, col: 5, offset: 87361},
+							pos: position{line: 2741, col: 5, offset: 87299},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2746, col: 5, offset: 87489},
+							pos:        position{line: 2745, col: 5, offset: 87427},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2747, col: 5, offset: 87498},
+							pos:   position{line: 2746, col: 5, offset: 87436},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2756, col: 19, offset: 87776},
+								pos: position{line: 2755, col: 19, offset: 87714},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2756, col: 19, offset: 87776},
+									pos: position{line: 2755, col: 19, offset: 87714},
 									expr: &charClassMatcher{
-										pos:        position{line: 2756, col: 19, offset: 87776},
+										pos:        position{line: 2755, col: 19, offset: 87714},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -47903,10 +47859,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2748, col: 5, offset: 87526},
+							pos:   position{line: 2747, col: 5, offset: 87464},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2748, col: 17, offset: 87538},
+								pos:  position{line: 2747, col: 17, offset: 87476},
 								name: "InlineAttributes",
 							},
 						},
@@ -47916,43 +47872,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2827, col: 1, offset: 89609},
+			pos:  position{line: 2826, col: 1, offset: 89547},
 			expr: &actionExpr{
-				pos: position{line: 2827, col: 17, offset: 89625},
+				pos: position{line: 2826, col: 17, offset: 89563},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2827, col: 17, offset: 89625},
+					pos:   position{line: 2826, col: 17, offset: 89563},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2844, col: 5, offset: 90079},
+						pos: position{line: 2843, col: 5, offset: 90017},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2844, col: 5, offset: 90079},
+							pos:   position{line: 2843, col: 5, offset: 90017},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2844, col: 14, offset: 90088},
+								pos: position{line: 2843, col: 14, offset: 90026},
 								expr: &choiceExpr{
-									pos: position{line: 2845, col: 9, offset: 90098},
+									pos: position{line: 2844, col: 9, offset: 90036},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2845, col: 9, offset: 90098},
+											pos: position{line: 2844, col: 9, offset: 90036},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2845, col: 9, offset: 90098},
+												pos: position{line: 2844, col: 9, offset: 90036},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2845, col: 9, offset: 90098},
+														pos: position{line: 2844, col: 9, offset: 90036},
 														expr: &litMatcher{
-															pos:        position{line: 2845, col: 10, offset: 90099},
+															pos:        position{line: 2844, col: 10, offset: 90037},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2846, col: 9, offset: 90127},
+														pos: position{line: 2845, col: 9, offset: 90065},
 														expr: &charClassMatcher{
-															pos:        position{line: 2846, col: 10, offset: 90128},
+															pos:        position{line: 2845, col: 10, offset: 90066},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -47963,27 +47919,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2849, col: 11, offset: 90340},
+											pos: position{line: 2848, col: 11, offset: 90278},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2849, col: 11, offset: 90340},
+													pos:        position{line: 2848, col: 11, offset: 90278},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2849, col: 19, offset: 90348},
+													pos: position{line: 2848, col: 19, offset: 90286},
 													expr: &seqExpr{
-														pos: position{line: 2849, col: 21, offset: 90350},
+														pos: position{line: 2848, col: 21, offset: 90288},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2849, col: 21, offset: 90350},
+																pos: position{line: 2848, col: 21, offset: 90288},
 																expr: &actionExpr{
-																	pos: position{line: 2873, col: 10, offset: 90962},
+																	pos: position{line: 2872, col: 10, offset: 90900},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2873, col: 10, offset: 90962},
+																		pos:        position{line: 2872, col: 10, offset: 90900},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -47992,11 +47948,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2849, col: 28, offset: 90357},
+																pos: position{line: 2848, col: 28, offset: 90295},
 																expr: &notExpr{
-																	pos: position{line: 2892, col: 8, offset: 91310},
+																	pos: position{line: 2891, col: 8, offset: 91248},
 																	expr: &anyMatcher{
-																		line: 2892, col: 9, offset: 91311,
+																		line: 2891, col: 9, offset: 91249,
 																	},
 																},
 															},
@@ -48006,44 +47962,44 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 636, col: 5, offset: 20178},
+											pos: position{line: 635, col: 5, offset: 20116},
 											run: (*parser).callonFileLocation23,
 											expr: &seqExpr{
-												pos: position{line: 636, col: 5, offset: 20178},
+												pos: position{line: 635, col: 5, offset: 20116},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 636, col: 5, offset: 20178},
+														pos: position{line: 635, col: 5, offset: 20116},
 														run: (*parser).callonFileLocation25,
 													},
 													&labeledExpr{
-														pos:   position{line: 639, col: 5, offset: 20250},
+														pos:   position{line: 638, col: 5, offset: 20188},
 														label: "element",
 														expr: &choiceExpr{
-															pos: position{line: 639, col: 14, offset: 20259},
+															pos: position{line: 638, col: 14, offset: 20197},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 645, col: 5, offset: 20388},
+																	pos: position{line: 644, col: 5, offset: 20326},
 																	run: (*parser).callonFileLocation28,
 																	expr: &seqExpr{
-																		pos: position{line: 645, col: 5, offset: 20388},
+																		pos: position{line: 644, col: 5, offset: 20326},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 645, col: 5, offset: 20388},
+																				pos:        position{line: 644, col: 5, offset: 20326},
 																				val:        "\\{",
 																				ignoreCase: false,
 																				want:       "\"\\\\{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 645, col: 13, offset: 20396},
+																				pos:   position{line: 644, col: 13, offset: 20334},
 																				label: "name",
 																				expr: &actionExpr{
-																					pos: position{line: 318, col: 18, offset: 9729},
+																					pos: position{line: 317, col: 18, offset: 9667},
 																					run: (*parser).callonFileLocation32,
 																					expr: &seqExpr{
-																						pos: position{line: 318, col: 18, offset: 9729},
+																						pos: position{line: 317, col: 18, offset: 9667},
 																						exprs: []interface{}{
 																							&charClassMatcher{
-																								pos:        position{line: 318, col: 18, offset: 9729},
+																								pos:        position{line: 317, col: 18, offset: 9667},
 																								val:        "[_\\pL\\pN]",
 																								chars:      []rune{'_'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48051,9 +48007,9 @@ var g = &grammar{
 																								inverted:   false,
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 318, col: 28, offset: 9739},
+																								pos: position{line: 317, col: 28, offset: 9677},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 318, col: 29, offset: 9740},
+																									pos:        position{line: 317, col: 29, offset: 9678},
 																									val:        "[_-\\pL\\pN]",
 																									chars:      []rune{'_', '-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48066,7 +48022,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 645, col: 32, offset: 20415},
+																				pos:        position{line: 644, col: 32, offset: 20353},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -48075,28 +48031,28 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 652, col: 5, offset: 20656},
+																	pos: position{line: 651, col: 5, offset: 20594},
 																	run: (*parser).callonFileLocation38,
 																	expr: &seqExpr{
-																		pos: position{line: 652, col: 5, offset: 20656},
+																		pos: position{line: 651, col: 5, offset: 20594},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 652, col: 5, offset: 20656},
+																				pos:        position{line: 651, col: 5, offset: 20594},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 652, col: 9, offset: 20660},
+																				pos:   position{line: 651, col: 9, offset: 20598},
 																				label: "name",
 																				expr: &actionExpr{
-																					pos: position{line: 318, col: 18, offset: 9729},
+																					pos: position{line: 317, col: 18, offset: 9667},
 																					run: (*parser).callonFileLocation42,
 																					expr: &seqExpr{
-																						pos: position{line: 318, col: 18, offset: 9729},
+																						pos: position{line: 317, col: 18, offset: 9667},
 																						exprs: []interface{}{
 																							&charClassMatcher{
-																								pos:        position{line: 318, col: 18, offset: 9729},
+																								pos:        position{line: 317, col: 18, offset: 9667},
 																								val:        "[_\\pL\\pN]",
 																								chars:      []rune{'_'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48104,9 +48060,9 @@ var g = &grammar{
 																								inverted:   false,
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 318, col: 28, offset: 9739},
+																								pos: position{line: 317, col: 28, offset: 9677},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 318, col: 29, offset: 9740},
+																									pos:        position{line: 317, col: 29, offset: 9678},
 																									val:        "[_-\\pL\\pN]",
 																									chars:      []rune{'_', '-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48119,7 +48075,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 652, col: 28, offset: 20679},
+																				pos:        position{line: 651, col: 28, offset: 20617},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -48128,28 +48084,28 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 658, col: 25, offset: 20860},
+																	pos: position{line: 657, col: 25, offset: 20798},
 																	run: (*parser).callonFileLocation48,
 																	expr: &seqExpr{
-																		pos: position{line: 658, col: 25, offset: 20860},
+																		pos: position{line: 657, col: 25, offset: 20798},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 658, col: 25, offset: 20860},
+																				pos:        position{line: 657, col: 25, offset: 20798},
 																				val:        "{counter:",
 																				ignoreCase: false,
 																				want:       "\"{counter:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 658, col: 37, offset: 20872},
+																				pos:   position{line: 657, col: 37, offset: 20810},
 																				label: "name",
 																				expr: &actionExpr{
-																					pos: position{line: 318, col: 18, offset: 9729},
+																					pos: position{line: 317, col: 18, offset: 9667},
 																					run: (*parser).callonFileLocation52,
 																					expr: &seqExpr{
-																						pos: position{line: 318, col: 18, offset: 9729},
+																						pos: position{line: 317, col: 18, offset: 9667},
 																						exprs: []interface{}{
 																							&charClassMatcher{
-																								pos:        position{line: 318, col: 18, offset: 9729},
+																								pos:        position{line: 317, col: 18, offset: 9667},
 																								val:        "[_\\pL\\pN]",
 																								chars:      []rune{'_'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48157,9 +48113,9 @@ var g = &grammar{
 																								inverted:   false,
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 318, col: 28, offset: 9739},
+																								pos: position{line: 317, col: 28, offset: 9677},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 318, col: 29, offset: 9740},
+																									pos:        position{line: 317, col: 29, offset: 9678},
 																									val:        "[_-\\pL\\pN]",
 																									chars:      []rune{'_', '-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48172,33 +48128,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 658, col: 56, offset: 20891},
+																				pos:   position{line: 657, col: 56, offset: 20829},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 658, col: 62, offset: 20897},
+																					pos: position{line: 657, col: 62, offset: 20835},
 																					expr: &actionExpr{
-																						pos: position{line: 666, col: 17, offset: 21192},
+																						pos: position{line: 665, col: 17, offset: 21130},
 																						run: (*parser).callonFileLocation59,
 																						expr: &seqExpr{
-																							pos: position{line: 666, col: 17, offset: 21192},
+																							pos: position{line: 665, col: 17, offset: 21130},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 666, col: 17, offset: 21192},
+																									pos:        position{line: 665, col: 17, offset: 21130},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 666, col: 21, offset: 21196},
+																									pos:   position{line: 665, col: 21, offset: 21134},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 666, col: 28, offset: 21203},
+																										pos: position{line: 665, col: 28, offset: 21141},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 666, col: 28, offset: 21203},
+																												pos: position{line: 665, col: 28, offset: 21141},
 																												run: (*parser).callonFileLocation64,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 666, col: 28, offset: 21203},
+																													pos:        position{line: 665, col: 28, offset: 21141},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -48206,12 +48162,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 668, col: 9, offset: 21257},
+																												pos: position{line: 667, col: 9, offset: 21195},
 																												run: (*parser).callonFileLocation66,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 668, col: 9, offset: 21257},
+																													pos: position{line: 667, col: 9, offset: 21195},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 668, col: 9, offset: 21257},
+																														pos:        position{line: 667, col: 9, offset: 21195},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -48228,7 +48184,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 658, col: 78, offset: 20913},
+																				pos:        position{line: 657, col: 78, offset: 20851},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -48237,28 +48193,28 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 662, col: 25, offset: 21031},
+																	pos: position{line: 661, col: 25, offset: 20969},
 																	run: (*parser).callonFileLocation70,
 																	expr: &seqExpr{
-																		pos: position{line: 662, col: 25, offset: 21031},
+																		pos: position{line: 661, col: 25, offset: 20969},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 662, col: 25, offset: 21031},
+																				pos:        position{line: 661, col: 25, offset: 20969},
 																				val:        "{counter2:",
 																				ignoreCase: false,
 																				want:       "\"{counter2:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 662, col: 38, offset: 21044},
+																				pos:   position{line: 661, col: 38, offset: 20982},
 																				label: "name",
 																				expr: &actionExpr{
-																					pos: position{line: 318, col: 18, offset: 9729},
+																					pos: position{line: 317, col: 18, offset: 9667},
 																					run: (*parser).callonFileLocation74,
 																					expr: &seqExpr{
-																						pos: position{line: 318, col: 18, offset: 9729},
+																						pos: position{line: 317, col: 18, offset: 9667},
 																						exprs: []interface{}{
 																							&charClassMatcher{
-																								pos:        position{line: 318, col: 18, offset: 9729},
+																								pos:        position{line: 317, col: 18, offset: 9667},
 																								val:        "[_\\pL\\pN]",
 																								chars:      []rune{'_'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48266,9 +48222,9 @@ var g = &grammar{
 																								inverted:   false,
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 318, col: 28, offset: 9739},
+																								pos: position{line: 317, col: 28, offset: 9677},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 318, col: 29, offset: 9740},
+																									pos:        position{line: 317, col: 29, offset: 9678},
 																									val:        "[_-\\pL\\pN]",
 																									chars:      []rune{'_', '-'},
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48281,33 +48237,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 662, col: 57, offset: 21063},
+																				pos:   position{line: 661, col: 57, offset: 21001},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 662, col: 63, offset: 21069},
+																					pos: position{line: 661, col: 63, offset: 21007},
 																					expr: &actionExpr{
-																						pos: position{line: 666, col: 17, offset: 21192},
+																						pos: position{line: 665, col: 17, offset: 21130},
 																						run: (*parser).callonFileLocation81,
 																						expr: &seqExpr{
-																							pos: position{line: 666, col: 17, offset: 21192},
+																							pos: position{line: 665, col: 17, offset: 21130},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 666, col: 17, offset: 21192},
+																									pos:        position{line: 665, col: 17, offset: 21130},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 666, col: 21, offset: 21196},
+																									pos:   position{line: 665, col: 21, offset: 21134},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 666, col: 28, offset: 21203},
+																										pos: position{line: 665, col: 28, offset: 21141},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 666, col: 28, offset: 21203},
+																												pos: position{line: 665, col: 28, offset: 21141},
 																												run: (*parser).callonFileLocation86,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 666, col: 28, offset: 21203},
+																													pos:        position{line: 665, col: 28, offset: 21141},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -48315,12 +48271,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 668, col: 9, offset: 21257},
+																												pos: position{line: 667, col: 9, offset: 21195},
 																												run: (*parser).callonFileLocation88,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 668, col: 9, offset: 21257},
+																													pos: position{line: 667, col: 9, offset: 21195},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 668, col: 9, offset: 21257},
+																														pos:        position{line: 667, col: 9, offset: 21195},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -48337,7 +48293,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 662, col: 79, offset: 21085},
+																				pos:        position{line: 661, col: 79, offset: 21023},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -48352,27 +48308,27 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1198, col: 23, offset: 37046},
+											pos: position{line: 1197, col: 23, offset: 36984},
 											run: (*parser).callonFileLocation92,
 											expr: &seqExpr{
-												pos: position{line: 1198, col: 23, offset: 37046},
+												pos: position{line: 1197, col: 23, offset: 36984},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 1196, col: 32, offset: 37014},
+														pos:        position{line: 1195, col: 32, offset: 36952},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 1198, col: 51, offset: 37074},
+														pos:   position{line: 1197, col: 51, offset: 37012},
 														label: "ref",
 														expr: &actionExpr{
-															pos: position{line: 1198, col: 56, offset: 37079},
+															pos: position{line: 1197, col: 56, offset: 37017},
 															run: (*parser).callonFileLocation96,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 1198, col: 56, offset: 37079},
+																pos: position{line: 1197, col: 56, offset: 37017},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1198, col: 56, offset: 37079},
+																	pos:        position{line: 1197, col: 56, offset: 37017},
 																	val:        "[0-9]",
 																	ranges:     []rune{'0', '9'},
 																	ignoreCase: false,
@@ -48382,7 +48338,7 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 1196, col: 32, offset: 37014},
+														pos:        position{line: 1195, col: 32, offset: 36952},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
@@ -48391,10 +48347,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2852, col: 11, offset: 90477},
+											pos: position{line: 2851, col: 11, offset: 90415},
 											run: (*parser).callonFileLocation100,
 											expr: &litMatcher{
-												pos:        position{line: 2852, col: 11, offset: 90477},
+												pos:        position{line: 2851, col: 11, offset: 90415},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -53843,26 +53799,6 @@ func (p *parser) callonDelimitedBlockElements3() error {
 	return p.cur.onDelimitedBlockElements3()
 }
 
-func (c *current) onDelimitedBlockElements11() (interface{}, error) {
-	return string(c.text), nil
-}
-
-func (p *parser) callonDelimitedBlockElements11() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDelimitedBlockElements11()
-}
-
-func (c *current) onDelimitedBlockElements7(ref interface{}) (interface{}, error) {
-	return types.NewElementPlaceHolder(ref.(string))
-}
-
-func (p *parser) callonDelimitedBlockElements7() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDelimitedBlockElements7(stack["ref"])
-}
-
 func (c *current) onDelimitedBlockElements1(elements interface{}) (interface{}, error) {
 	return elements, nil
 
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index d149d30..469e79c 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -279,8 +279,7 @@ DelimitedBlockElements <-
         return nil
     }
     elements:(
-        ElementPlaceHolder // if there was a fileinclusion 
-        / DocumentFragment
+        DocumentFragment
     )* 
     EOF {
         return elements, nil
-- 
2.43.0


From 41df67dcd6a56ca040a9af0640fbf4102d383caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:12 +0000
Subject: [PATCH 100/143] fix: conversion failed when 'toc-title' had no value

---
 pkg/renderer/sgml/table_of_contents.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/renderer/sgml/table_of_contents.go b/pkg/renderer/sgml/table_of_contents.go
index 0e0186d..c5d31e9 100644
--- a/pkg/renderer/sgml/table_of_contents.go
+++ b/pkg/renderer/sgml/table_of_contents.go
@@ -116,6 +116,8 @@ func (r *sgmlRenderer) renderTableOfContentsTitle(ctx *context) (string, error)
 		return "Table of Contents", nil // default value // TODO: use a constant?
 	}
 	switch title := title.(type) {
+	case nil: // declared without a value
+		return "", nil
 	case string:
 		return title, nil
 	case []interface{}:
-- 
2.43.0


From 15513bc03c98652fa69d76113a68540a937dff94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:12 +0000
Subject: [PATCH 101/143] fix: conversion failed on images with names such as
 '50%-off.png', and embedded images had '.' as alternative text

---
 pkg/renderer/sgml/image.go | 11 +++++------
 pkg/types/types.go         |  7 +++----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/pkg/renderer/sgml/image.go b/pkg/renderer/sgml/image.go
index 9fa4d37..21eb521 100644
--- a/pkg/renderer/sgml/image.go
+++ b/pkg/renderer/sgml/image.go
@@ -46,7 +46,7 @@ func (r *sgmlRenderer) renderImageBlock(ctx *context, img *types.ImageBlock) (st
 		return "", errors.Wrap(err, "unable to render image")
 	}
 	src := r.getImageSrc(ctx, img.Location)
-	alt, err := r.renderImageAlt(img.Attributes, src)
+	alt, err := r.renderImageAlt(img.Attributes, img.Location.ToString())
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render image")
 	}
@@ -82,7 +82,7 @@ func (r *sgmlRenderer) renderInlineImage(ctx *context, img *types.InlineImage) (
 	}
 	href := img.Attributes.GetAsStringWithDefault(types.AttrInlineLink, "")
 	src := r.getImageSrc(ctx, img.Location)
-	alt, err := r.renderImageAlt(img.Attributes, src)
+	alt, err := r.renderImageAlt(img.Attributes, img.Location.ToString())
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render inline image")
 	}
@@ -138,12 +138,11 @@ func (r *sgmlRenderer) renderImageAlt(attrs types.Attributes, path string) (stri
 	if alt, found := attrs.GetAsString(types.AttrImageAlt); found {
 		return alt, nil
 	}
-	u, err := url.Parse(path)
-	if err != nil {
-		return "", errors.Wrap(err, "unable to render image")
+	if u, err := url.Parse(path); err == nil { // otherwise, the path is not a valid URL (eg: `50%-off.png`)
+		path = u.Path
 	}
 	// return base path without its extension
-	result := strings.TrimSuffix(filepath.Base(u.Path), filepath.Ext(u.Path))
+	result := strings.TrimSuffix(filepath.Base(path), filepath.Ext(path))
 	// replace separators
 	result = strings.ReplaceAll(result, "-", " ")
 	result = strings.ReplaceAll(result, "_", " ")
diff --git a/pkg/types/types.go b/pkg/types/types.go
index 3a88e9b..89313c1 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -3730,10 +3730,9 @@ func (l *Location) SetPathPrefix(p interface{}) {
 			p = p + "/"
 		}
 		if l.Scheme == "" && !strings.HasPrefix(l.ToString(), "/") {
-			if u, err := url.Parse(l.ToString()); err == nil {
-				if !u.IsAbs() {
-					l.SetPath(merge(p, l.Path))
-				}
+			// a path which is not a valid URL (eg: `50%-off.png`) is relative, too
+			if u, err := url.Parse(l.ToString()); err != nil || !u.IsAbs() {
+				l.SetPath(merge(p, l.Path))
 			}
 		}
 	}
-- 
2.43.0


From 42ab453d650b9da5042826bc29605ac1506915cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:35 +0000
Subject: [PATCH 102/143] fix: conversion failed on titles, links and footnotes
 with the same characters as a placeholder

---
 ...document_processing_apply_substitutions.go |    22 +-
 .../document_processing_refine_fragments.go   |     2 +-
 pkg/parser/parser.go                          | 13955 ++++++++--------
 pkg/parser/parser.peg                         |     6 +-
 4 files changed, 7125 insertions(+), 6860 deletions(-)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 4ac3eb0..6c76e53 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -678,7 +678,7 @@ func parseWithSubstitutions(content interface{}, subs *substitutions, opts ...Op
 		log.Debugf("parsing '%s' with '%s' substitutions", serialized, subs.toString())
 	}
 	// stats := Stats{}
-	elements, err := parseContent(serialized, append(opts, GlobalStore(enabledSubstitutionsKey, subs))...) // , Statistics(&stats, "no match"), Debug(false)
+	elements, err := parseContent(serialized, append(opts, GlobalStore(enabledSubstitutionsKey, subs), GlobalStore(placeholdersKey, placeholders))...) // , Statistics(&stats, "no match"), Debug(false)
 	if err != nil {
 		return nil, err
 	}
@@ -797,6 +797,18 @@ func serializePlainText(content interface{}) (string, error) {
 	}
 }
 
+const placeholdersKey string = "placeholders"
+
+// checks if there is an element behind the placeholder with the given reference (otherwise, the source has the same characters)
+func (c *current) isPlaceHolder(ref string) (bool, error) {
+	p, ok := c.globalStore[placeholdersKey].(*placeholders)
+	if !ok {
+		return false, nil
+	}
+	_, found := p.elements[ref]
+	return found, nil
+}
+
 type placeholders struct {
 	seq      int
 	elements map[string]interface{}
@@ -846,13 +858,7 @@ func (p *placeholders) restore(elements []interface{}) ([]interface{}, error) {
 	for i, e := range elements {
 		switch e := e.(type) {
 		case *types.ElementPlaceHolder:
-			if element, found := p.elements[e.Ref]; found {
-				elements[i] = element
-			} else { // not a placeholder, but the same characters in the source
-				elements[i] = &types.StringElement{
-					Content: e.String(),
-				}
-			}
+			elements[i] = p.elements[e.Ref]
 		case types.WithElements:
 			elmts, err := p.restore(e.GetElements())
 			if err != nil {
diff --git a/pkg/parser/document_processing_refine_fragments.go b/pkg/parser/document_processing_refine_fragments.go
index 77bcea2..7079a64 100644
--- a/pkg/parser/document_processing_refine_fragments.go
+++ b/pkg/parser/document_processing_refine_fragments.go
@@ -146,7 +146,7 @@ func reparseElements(elements []interface{}, opts ...Option) ([]interface{}, err
 	if err != nil {
 		return nil, err
 	}
-	elmts, err := Parse("", content, opts...)
+	elmts, err := Parse("", content, append(opts, GlobalStore(placeholdersKey, placeholders))...)
 	if err != nil {
 		return nil, errors.Wrap(err, "unable to parse elements") // ignore error (malformed content)
 	}
diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index ee6e4ef..241838a 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 359, col: 49, offset: 10879},
 													expr: &actionExpr{
-														pos: position{line: 2872, col: 10, offset: 90900},
+														pos: position{line: 2876, col: 10, offset: 91003},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2872, col: 10, offset: 90900},
+															pos:        position{line: 2876, col: 10, offset: 91003},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2894, col: 8, offset: 91298},
+													pos: position{line: 2898, col: 8, offset: 91401},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2881, col: 12, offset: 91071},
+															pos: position{line: 2885, col: 12, offset: 91174},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2881, col: 13, offset: 91072},
+																pos: position{line: 2885, col: 13, offset: 91175},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2881, col: 13, offset: 91072},
+																		pos:        position{line: 2885, col: 13, offset: 91175},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2881, col: 20, offset: 91079},
+																		pos:        position{line: 2885, col: 20, offset: 91182},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2881, col: 29, offset: 91088},
+																		pos:        position{line: 2885, col: 29, offset: 91191},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2891, col: 8, offset: 91248},
+															pos: position{line: 2895, col: 8, offset: 91351},
 															expr: &anyMatcher{
-																line: 2891, col: 9, offset: 91249,
+																line: 2895, col: 9, offset: 91352,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 361, col: 39, offset: 11000},
 													expr: &actionExpr{
-														pos: position{line: 2872, col: 10, offset: 90900},
+														pos: position{line: 2876, col: 10, offset: 91003},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2872, col: 10, offset: 90900},
+															pos:        position{line: 2876, col: 10, offset: 91003},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2894, col: 8, offset: 91298},
+													pos: position{line: 2898, col: 8, offset: 91401},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2881, col: 12, offset: 91071},
+															pos: position{line: 2885, col: 12, offset: 91174},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2881, col: 13, offset: 91072},
+																pos: position{line: 2885, col: 13, offset: 91175},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2881, col: 13, offset: 91072},
+																		pos:        position{line: 2885, col: 13, offset: 91175},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2881, col: 20, offset: 91079},
+																		pos:        position{line: 2885, col: 20, offset: 91182},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2881, col: 29, offset: 91088},
+																		pos:        position{line: 2885, col: 29, offset: 91191},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2891, col: 8, offset: 91248},
+															pos: position{line: 2895, col: 8, offset: 91351},
 															expr: &anyMatcher{
-																line: 2891, col: 9, offset: 91249,
+																line: 2895, col: 9, offset: 91352,
 															},
 														},
 													},
@@ -321,10 +321,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 78, col: 41, offset: 2149},
 																						expr: &actionExpr{
-																							pos: position{line: 2872, col: 10, offset: 90900},
+																							pos: position{line: 2876, col: 10, offset: 91003},
 																							run: (*parser).callonDocumentRawLine66,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2872, col: 10, offset: 90900},
+																								pos:        position{line: 2876, col: 10, offset: 91003},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -333,9 +333,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2891, col: 8, offset: 91248},
+																						pos: position{line: 2895, col: 8, offset: 91351},
 																						expr: &anyMatcher{
-																							line: 2891, col: 9, offset: 91249,
+																							line: 2895, col: 9, offset: 91352,
 																						},
 																					},
 																				},
@@ -363,10 +363,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2872, col: 10, offset: 90900},
+														pos: position{line: 2876, col: 10, offset: 91003},
 														run: (*parser).callonDocumentRawLine73,
 														expr: &charClassMatcher{
-															pos:        position{line: 2872, col: 10, offset: 90900},
+															pos:        position{line: 2876, col: 10, offset: 91003},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -375,9 +375,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2891, col: 8, offset: 91248},
+													pos: position{line: 2895, col: 8, offset: 91351},
 													expr: &anyMatcher{
-														line: 2891, col: 9, offset: 91249,
+														line: 2895, col: 9, offset: 91352,
 													},
 												},
 											},
@@ -446,10 +446,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 78, col: 41, offset: 2149},
 																						expr: &actionExpr{
-																							pos: position{line: 2872, col: 10, offset: 90900},
+																							pos: position{line: 2876, col: 10, offset: 91003},
 																							run: (*parser).callonDocumentRawLine94,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2872, col: 10, offset: 90900},
+																								pos:        position{line: 2876, col: 10, offset: 91003},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -458,9 +458,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2891, col: 8, offset: 91248},
+																						pos: position{line: 2895, col: 8, offset: 91351},
 																						expr: &anyMatcher{
-																							line: 2891, col: 9, offset: 91249,
+																							line: 2895, col: 9, offset: 91352,
 																						},
 																					},
 																				},
@@ -488,10 +488,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2872, col: 10, offset: 90900},
+														pos: position{line: 2876, col: 10, offset: 91003},
 														run: (*parser).callonDocumentRawLine101,
 														expr: &charClassMatcher{
-															pos:        position{line: 2872, col: 10, offset: 90900},
+															pos:        position{line: 2876, col: 10, offset: 91003},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -500,9 +500,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2891, col: 8, offset: 91248},
+													pos: position{line: 2895, col: 8, offset: 91351},
 													expr: &anyMatcher{
-														line: 2891, col: 9, offset: 91249,
+														line: 2895, col: 9, offset: 91352,
 													},
 												},
 											},
@@ -972,24 +972,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2868, col: 10, offset: 90803},
+																pos: position{line: 2872, col: 10, offset: 90906},
 																run: (*parser).callonDocumentRawLine197,
 																expr: &seqExpr{
-																	pos: position{line: 2868, col: 11, offset: 90804},
+																	pos: position{line: 2872, col: 11, offset: 90907},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2868, col: 11, offset: 90804},
+																			pos: position{line: 2872, col: 11, offset: 90907},
 																			expr: &litMatcher{
-																				pos:        position{line: 2868, col: 11, offset: 90804},
+																				pos:        position{line: 2872, col: 11, offset: 90907},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2868, col: 16, offset: 90809},
+																			pos: position{line: 2872, col: 16, offset: 90912},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2868, col: 16, offset: 90809},
+																				pos:        position{line: 2872, col: 16, offset: 90912},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -997,15 +997,15 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2868, col: 23, offset: 90816},
+																			pos:        position{line: 2872, col: 23, offset: 90919},
 																			val:        ".",
 																			ignoreCase: false,
 																			want:       "\".\"",
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2868, col: 27, offset: 90820},
+																			pos: position{line: 2872, col: 27, offset: 90923},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2868, col: 27, offset: 90820},
+																				pos:        position{line: 2872, col: 27, offset: 90923},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1016,24 +1016,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2864, col: 12, offset: 90727},
+																pos: position{line: 2868, col: 12, offset: 90830},
 																run: (*parser).callonDocumentRawLine206,
 																expr: &seqExpr{
-																	pos: position{line: 2864, col: 13, offset: 90728},
+																	pos: position{line: 2868, col: 13, offset: 90831},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2864, col: 13, offset: 90728},
+																			pos: position{line: 2868, col: 13, offset: 90831},
 																			expr: &litMatcher{
-																				pos:        position{line: 2864, col: 13, offset: 90728},
+																				pos:        position{line: 2868, col: 13, offset: 90831},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2864, col: 18, offset: 90733},
+																			pos: position{line: 2868, col: 18, offset: 90836},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2864, col: 18, offset: 90733},
+																				pos:        position{line: 2868, col: 18, offset: 90836},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1049,10 +1049,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2280},
 													expr: &actionExpr{
-														pos: position{line: 2872, col: 10, offset: 90900},
+														pos: position{line: 2876, col: 10, offset: 91003},
 														run: (*parser).callonDocumentRawLine213,
 														expr: &charClassMatcher{
-															pos:        position{line: 2872, col: 10, offset: 90900},
+															pos:        position{line: 2876, col: 10, offset: 91003},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1132,10 +1132,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2326},
 													expr: &actionExpr{
-														pos: position{line: 2872, col: 10, offset: 90900},
+														pos: position{line: 2876, col: 10, offset: 91003},
 														run: (*parser).callonDocumentRawLine230,
 														expr: &charClassMatcher{
-															pos:        position{line: 2872, col: 10, offset: 90900},
+															pos:        position{line: 2876, col: 10, offset: 91003},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1595,24 +1595,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2868, col: 10, offset: 90803},
+																pos: position{line: 2872, col: 10, offset: 90906},
 																run: (*parser).callonDocumentRawLine321,
 																expr: &seqExpr{
-																	pos: position{line: 2868, col: 11, offset: 90804},
+																	pos: position{line: 2872, col: 11, offset: 90907},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2868, col: 11, offset: 90804},
+																			pos: position{line: 2872, col: 11, offset: 90907},
 																			expr: &litMatcher{
-																				pos:        position{line: 2868, col: 11, offset: 90804},
+																				pos:        position{line: 2872, col: 11, offset: 90907},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2868, col: 16, offset: 90809},
+																			pos: position{line: 2872, col: 16, offset: 90912},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2868, col: 16, offset: 90809},
+																				pos:        position{line: 2872, col: 16, offset: 90912},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1620,15 +1620,15 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2868, col: 23, offset: 90816},
+																			pos:        position{line: 2872, col: 23, offset: 90919},
 																			val:        ".",
 																			ignoreCase: false,
 																			want:       "\".\"",
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2868, col: 27, offset: 90820},
+																			pos: position{line: 2872, col: 27, offset: 90923},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2868, col: 27, offset: 90820},
+																				pos:        position{line: 2872, col: 27, offset: 90923},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1639,24 +1639,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2864, col: 12, offset: 90727},
+																pos: position{line: 2868, col: 12, offset: 90830},
 																run: (*parser).callonDocumentRawLine330,
 																expr: &seqExpr{
-																	pos: position{line: 2864, col: 13, offset: 90728},
+																	pos: position{line: 2868, col: 13, offset: 90831},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2864, col: 13, offset: 90728},
+																			pos: position{line: 2868, col: 13, offset: 90831},
 																			expr: &litMatcher{
-																				pos:        position{line: 2864, col: 13, offset: 90728},
+																				pos:        position{line: 2868, col: 13, offset: 90831},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2864, col: 18, offset: 90733},
+																			pos: position{line: 2868, col: 18, offset: 90836},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2864, col: 18, offset: 90733},
+																				pos:        position{line: 2868, col: 18, offset: 90836},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1678,10 +1678,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2378},
 													expr: &actionExpr{
-														pos: position{line: 2872, col: 10, offset: 90900},
+														pos: position{line: 2876, col: 10, offset: 91003},
 														run: (*parser).callonDocumentRawLine338,
 														expr: &charClassMatcher{
-															pos:        position{line: 2872, col: 10, offset: 90900},
+															pos:        position{line: 2876, col: 10, offset: 91003},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1690,9 +1690,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2891, col: 8, offset: 91248},
+													pos: position{line: 2895, col: 8, offset: 91351},
 													expr: &anyMatcher{
-														line: 2891, col: 9, offset: 91249,
+														line: 2895, col: 9, offset: 91352,
 													},
 												},
 											},
@@ -1764,10 +1764,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 78, col: 41, offset: 2149},
 																						expr: &actionExpr{
-																							pos: position{line: 2872, col: 10, offset: 90900},
+																							pos: position{line: 2876, col: 10, offset: 91003},
 																							run: (*parser).callonDocumentRawLine360,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2872, col: 10, offset: 90900},
+																								pos:        position{line: 2876, col: 10, offset: 91003},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -1776,9 +1776,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2891, col: 8, offset: 91248},
+																						pos: position{line: 2895, col: 8, offset: 91351},
 																						expr: &anyMatcher{
-																							line: 2891, col: 9, offset: 91249,
+																							line: 2895, col: 9, offset: 91352,
 																						},
 																					},
 																				},
@@ -1806,10 +1806,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3474},
 													expr: &actionExpr{
-														pos: position{line: 2872, col: 10, offset: 90900},
+														pos: position{line: 2876, col: 10, offset: 91003},
 														run: (*parser).callonDocumentRawLine367,
 														expr: &charClassMatcher{
-															pos:        position{line: 2872, col: 10, offset: 90900},
+															pos:        position{line: 2876, col: 10, offset: 91003},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1818,9 +1818,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2891, col: 8, offset: 91248},
+													pos: position{line: 2895, col: 8, offset: 91351},
 													expr: &anyMatcher{
-														line: 2891, col: 9, offset: 91249,
+														line: 2895, col: 9, offset: 91352,
 													},
 												},
 											},
@@ -1835,7 +1835,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 723, col: 5, offset: 23049},
 													expr: &charClassMatcher{
-														pos:        position{line: 2762, col: 13, offset: 87974},
+														pos:        position{line: 2766, col: 13, offset: 88077},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1885,10 +1885,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 741, col: 8, offset: 23693},
 																			expr: &actionExpr{
-																				pos: position{line: 2872, col: 10, offset: 90900},
+																				pos: position{line: 2876, col: 10, offset: 91003},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2872, col: 10, offset: 90900},
+																					pos:        position{line: 2876, col: 10, offset: 91003},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1897,28 +1897,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2894, col: 8, offset: 91298},
+																			pos: position{line: 2898, col: 8, offset: 91401},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2881, col: 12, offset: 91071},
+																					pos: position{line: 2885, col: 12, offset: 91174},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2881, col: 13, offset: 91072},
+																						pos: position{line: 2885, col: 13, offset: 91175},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2881, col: 13, offset: 91072},
+																								pos:        position{line: 2885, col: 13, offset: 91175},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2881, col: 20, offset: 91079},
+																								pos:        position{line: 2885, col: 20, offset: 91182},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2881, col: 29, offset: 91088},
+																								pos:        position{line: 2885, col: 29, offset: 91191},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1927,9 +1927,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2891, col: 8, offset: 91248},
+																					pos: position{line: 2895, col: 8, offset: 91351},
 																					expr: &anyMatcher{
-																						line: 2891, col: 9, offset: 91249,
+																						line: 2895, col: 9, offset: 91352,
 																					},
 																				},
 																			},
@@ -1974,10 +1974,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 748, col: 8, offset: 23941},
 																			expr: &actionExpr{
-																				pos: position{line: 2872, col: 10, offset: 90900},
+																				pos: position{line: 2876, col: 10, offset: 91003},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2872, col: 10, offset: 90900},
+																					pos:        position{line: 2876, col: 10, offset: 91003},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1986,28 +1986,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2894, col: 8, offset: 91298},
+																			pos: position{line: 2898, col: 8, offset: 91401},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2881, col: 12, offset: 91071},
+																					pos: position{line: 2885, col: 12, offset: 91174},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2881, col: 13, offset: 91072},
+																						pos: position{line: 2885, col: 13, offset: 91175},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2881, col: 13, offset: 91072},
+																								pos:        position{line: 2885, col: 13, offset: 91175},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2881, col: 20, offset: 91079},
+																								pos:        position{line: 2885, col: 20, offset: 91182},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2881, col: 29, offset: 91088},
+																								pos:        position{line: 2885, col: 29, offset: 91191},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2016,9 +2016,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2891, col: 8, offset: 91248},
+																					pos: position{line: 2895, col: 8, offset: 91351},
 																					expr: &anyMatcher{
-																						line: 2891, col: 9, offset: 91249,
+																						line: 2895, col: 9, offset: 91352,
 																					},
 																				},
 																			},
@@ -2059,10 +2059,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 759, col: 52, offset: 24353},
 																			expr: &actionExpr{
-																				pos: position{line: 2872, col: 10, offset: 90900},
+																				pos: position{line: 2876, col: 10, offset: 91003},
 																				run: (*parser).callonDocumentRawLine423,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2872, col: 10, offset: 90900},
+																					pos:        position{line: 2876, col: 10, offset: 91003},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2071,28 +2071,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2894, col: 8, offset: 91298},
+																			pos: position{line: 2898, col: 8, offset: 91401},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2881, col: 12, offset: 91071},
+																					pos: position{line: 2885, col: 12, offset: 91174},
 																					run: (*parser).callonDocumentRawLine426,
 																					expr: &choiceExpr{
-																						pos: position{line: 2881, col: 13, offset: 91072},
+																						pos: position{line: 2885, col: 13, offset: 91175},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2881, col: 13, offset: 91072},
+																								pos:        position{line: 2885, col: 13, offset: 91175},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2881, col: 20, offset: 91079},
+																								pos:        position{line: 2885, col: 20, offset: 91182},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2881, col: 29, offset: 91088},
+																								pos:        position{line: 2885, col: 29, offset: 91191},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2101,9 +2101,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2891, col: 8, offset: 91248},
+																					pos: position{line: 2895, col: 8, offset: 91351},
 																					expr: &anyMatcher{
-																						line: 2891, col: 9, offset: 91249,
+																						line: 2895, col: 9, offset: 91352,
 																					},
 																				},
 																			},
@@ -2148,10 +2148,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 755, col: 8, offset: 24187},
 																			expr: &actionExpr{
-																				pos: position{line: 2872, col: 10, offset: 90900},
+																				pos: position{line: 2876, col: 10, offset: 91003},
 																				run: (*parser).callonDocumentRawLine442,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2872, col: 10, offset: 90900},
+																					pos:        position{line: 2876, col: 10, offset: 91003},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2160,28 +2160,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2894, col: 8, offset: 91298},
+																			pos: position{line: 2898, col: 8, offset: 91401},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2881, col: 12, offset: 91071},
+																					pos: position{line: 2885, col: 12, offset: 91174},
 																					run: (*parser).callonDocumentRawLine445,
 																					expr: &choiceExpr{
-																						pos: position{line: 2881, col: 13, offset: 91072},
+																						pos: position{line: 2885, col: 13, offset: 91175},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2881, col: 13, offset: 91072},
+																								pos:        position{line: 2885, col: 13, offset: 91175},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2881, col: 20, offset: 91079},
+																								pos:        position{line: 2885, col: 20, offset: 91182},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2881, col: 29, offset: 91088},
+																								pos:        position{line: 2885, col: 29, offset: 91191},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2190,9 +2190,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2891, col: 8, offset: 91248},
+																					pos: position{line: 2895, col: 8, offset: 91351},
 																					expr: &anyMatcher{
-																						line: 2891, col: 9, offset: 91249,
+																						line: 2895, col: 9, offset: 91352,
 																					},
 																				},
 																			},
@@ -2237,10 +2237,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 770, col: 8, offset: 24730},
 																			expr: &actionExpr{
-																				pos: position{line: 2872, col: 10, offset: 90900},
+																				pos: position{line: 2876, col: 10, offset: 91003},
 																				run: (*parser).callonDocumentRawLine461,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2872, col: 10, offset: 90900},
+																					pos:        position{line: 2876, col: 10, offset: 91003},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2249,28 +2249,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2894, col: 8, offset: 91298},
+																			pos: position{line: 2898, col: 8, offset: 91401},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2881, col: 12, offset: 91071},
+																					pos: position{line: 2885, col: 12, offset: 91174},
 																					run: (*parser).callonDocumentRawLine464,
 																					expr: &choiceExpr{
-																						pos: position{line: 2881, col: 13, offset: 91072},
+																						pos: position{line: 2885, col: 13, offset: 91175},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2881, col: 13, offset: 91072},
+																								pos:        position{line: 2885, col: 13, offset: 91175},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2881, col: 20, offset: 91079},
+																								pos:        position{line: 2885, col: 20, offset: 91182},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2881, col: 29, offset: 91088},
+																								pos:        position{line: 2885, col: 29, offset: 91191},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2279,9 +2279,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2891, col: 8, offset: 91248},
+																					pos: position{line: 2895, col: 8, offset: 91351},
 																					expr: &anyMatcher{
-																						line: 2891, col: 9, offset: 91249,
+																						line: 2895, col: 9, offset: 91352,
 																					},
 																				},
 																			},
@@ -2326,10 +2326,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 784, col: 8, offset: 25206},
 																			expr: &actionExpr{
-																				pos: position{line: 2872, col: 10, offset: 90900},
+																				pos: position{line: 2876, col: 10, offset: 91003},
 																				run: (*parser).callonDocumentRawLine480,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2872, col: 10, offset: 90900},
+																					pos:        position{line: 2876, col: 10, offset: 91003},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2338,28 +2338,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2894, col: 8, offset: 91298},
+																			pos: position{line: 2898, col: 8, offset: 91401},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2881, col: 12, offset: 91071},
+																					pos: position{line: 2885, col: 12, offset: 91174},
 																					run: (*parser).callonDocumentRawLine483,
 																					expr: &choiceExpr{
-																						pos: position{line: 2881, col: 13, offset: 91072},
+																						pos: position{line: 2885, col: 13, offset: 91175},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2881, col: 13, offset: 91072},
+																								pos:        position{line: 2885, col: 13, offset: 91175},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2881, col: 20, offset: 91079},
+																								pos:        position{line: 2885, col: 20, offset: 91182},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2881, col: 29, offset: 91088},
+																								pos:        position{line: 2885, col: 29, offset: 91191},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2368,9 +2368,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2891, col: 8, offset: 91248},
+																					pos: position{line: 2895, col: 8, offset: 91351},
 																					expr: &anyMatcher{
-																						line: 2891, col: 9, offset: 91249,
+																						line: 2895, col: 9, offset: 91352,
 																					},
 																				},
 																			},
@@ -2415,10 +2415,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 791, col: 8, offset: 25458},
 																			expr: &actionExpr{
-																				pos: position{line: 2872, col: 10, offset: 90900},
+																				pos: position{line: 2876, col: 10, offset: 91003},
 																				run: (*parser).callonDocumentRawLine499,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2872, col: 10, offset: 90900},
+																					pos:        position{line: 2876, col: 10, offset: 91003},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2427,28 +2427,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2894, col: 8, offset: 91298},
+																			pos: position{line: 2898, col: 8, offset: 91401},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2881, col: 12, offset: 91071},
+																					pos: position{line: 2885, col: 12, offset: 91174},
 																					run: (*parser).callonDocumentRawLine502,
 																					expr: &choiceExpr{
-																						pos: position{line: 2881, col: 13, offset: 91072},
+																						pos: position{line: 2885, col: 13, offset: 91175},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2881, col: 13, offset: 91072},
+																								pos:        position{line: 2885, col: 13, offset: 91175},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2881, col: 20, offset: 91079},
+																								pos:        position{line: 2885, col: 20, offset: 91182},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2881, col: 29, offset: 91088},
+																								pos:        position{line: 2885, col: 29, offset: 91191},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2457,9 +2457,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2891, col: 8, offset: 91248},
+																					pos: position{line: 2895, col: 8, offset: 91351},
 																					expr: &anyMatcher{
-																						line: 2891, col: 9, offset: 91249,
+																						line: 2895, col: 9, offset: 91352,
 																					},
 																				},
 																			},
@@ -2504,10 +2504,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 798, col: 8, offset: 25708},
 																			expr: &actionExpr{
-																				pos: position{line: 2872, col: 10, offset: 90900},
+																				pos: position{line: 2876, col: 10, offset: 91003},
 																				run: (*parser).callonDocumentRawLine518,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2872, col: 10, offset: 90900},
+																					pos:        position{line: 2876, col: 10, offset: 91003},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2516,28 +2516,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2894, col: 8, offset: 91298},
+																			pos: position{line: 2898, col: 8, offset: 91401},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2881, col: 12, offset: 91071},
+																					pos: position{line: 2885, col: 12, offset: 91174},
 																					run: (*parser).callonDocumentRawLine521,
 																					expr: &choiceExpr{
-																						pos: position{line: 2881, col: 13, offset: 91072},
+																						pos: position{line: 2885, col: 13, offset: 91175},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2881, col: 13, offset: 91072},
+																								pos:        position{line: 2885, col: 13, offset: 91175},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2881, col: 20, offset: 91079},
+																								pos:        position{line: 2885, col: 20, offset: 91182},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2881, col: 29, offset: 91088},
+																								pos:        position{line: 2885, col: 29, offset: 91191},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2546,9 +2546,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2891, col: 8, offset: 91248},
+																					pos: position{line: 2895, col: 8, offset: 91351},
 																					expr: &anyMatcher{
-																						line: 2891, col: 9, offset: 91249,
+																						line: 2895, col: 9, offset: 91352,
 																					},
 																				},
 																			},
@@ -2593,10 +2593,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 805, col: 8, offset: 25954},
 																			expr: &actionExpr{
-																				pos: position{line: 2872, col: 10, offset: 90900},
+																				pos: position{line: 2876, col: 10, offset: 91003},
 																				run: (*parser).callonDocumentRawLine537,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2872, col: 10, offset: 90900},
+																					pos:        position{line: 2876, col: 10, offset: 91003},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2605,28 +2605,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2894, col: 8, offset: 91298},
+																			pos: position{line: 2898, col: 8, offset: 91401},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2881, col: 12, offset: 91071},
+																					pos: position{line: 2885, col: 12, offset: 91174},
 																					run: (*parser).callonDocumentRawLine540,
 																					expr: &choiceExpr{
-																						pos: position{line: 2881, col: 13, offset: 91072},
+																						pos: position{line: 2885, col: 13, offset: 91175},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2881, col: 13, offset: 91072},
+																								pos:        position{line: 2885, col: 13, offset: 91175},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2881, col: 20, offset: 91079},
+																								pos:        position{line: 2885, col: 20, offset: 91182},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2881, col: 29, offset: 91088},
+																								pos:        position{line: 2885, col: 29, offset: 91191},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2635,9 +2635,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2891, col: 8, offset: 91248},
+																					pos: position{line: 2895, col: 8, offset: 91351},
 																					expr: &anyMatcher{
-																						line: 2891, col: 9, offset: 91249,
+																						line: 2895, col: 9, offset: 91352,
 																					},
 																				},
 																			},
@@ -2687,12 +2687,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine555,
 												},
 												&actionExpr{
-													pos: position{line: 2876, col: 11, offset: 90961},
+													pos: position{line: 2880, col: 11, offset: 91064},
 													run: (*parser).callonDocumentRawLine556,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2876, col: 11, offset: 90961},
+														pos: position{line: 2880, col: 11, offset: 91064},
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 11, offset: 90961},
+															pos:        position{line: 2880, col: 11, offset: 91064},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2701,12 +2701,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2822, col: 14, offset: 89493},
+													pos: position{line: 2826, col: 14, offset: 89596},
 													run: (*parser).callonDocumentRawLine559,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2822, col: 14, offset: 89493},
+														pos: position{line: 2826, col: 14, offset: 89596},
 														expr: &charClassMatcher{
-															pos:        position{line: 2822, col: 14, offset: 89493},
+															pos:        position{line: 2826, col: 14, offset: 89596},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2715,9 +2715,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2891, col: 8, offset: 91248},
+													pos: position{line: 2895, col: 8, offset: 91351},
 													expr: &anyMatcher{
-														line: 2891, col: 9, offset: 91249,
+														line: 2895, col: 9, offset: 91352,
 													},
 												},
 											},
@@ -2727,9 +2727,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2891, col: 8, offset: 91248},
+							pos: position{line: 2895, col: 8, offset: 91351},
 							expr: &anyMatcher{
-								line: 2891, col: 9, offset: 91249,
+								line: 2895, col: 9, offset: 91352,
 							},
 						},
 					},
@@ -2764,41 +2764,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2826, col: 17, offset: 89563},
+												pos: position{line: 2830, col: 17, offset: 89666},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2826, col: 17, offset: 89563},
+													pos:   position{line: 2830, col: 17, offset: 89666},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2843, col: 5, offset: 90017},
+														pos: position{line: 2847, col: 5, offset: 90120},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2843, col: 5, offset: 90017},
+															pos:   position{line: 2847, col: 5, offset: 90120},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2843, col: 14, offset: 90026},
+																pos: position{line: 2847, col: 14, offset: 90129},
 																expr: &choiceExpr{
-																	pos: position{line: 2844, col: 9, offset: 90036},
+																	pos: position{line: 2848, col: 9, offset: 90139},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2844, col: 9, offset: 90036},
+																			pos: position{line: 2848, col: 9, offset: 90139},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2844, col: 9, offset: 90036},
+																				pos: position{line: 2848, col: 9, offset: 90139},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2844, col: 9, offset: 90036},
+																						pos: position{line: 2848, col: 9, offset: 90139},
 																						expr: &litMatcher{
-																							pos:        position{line: 2844, col: 10, offset: 90037},
+																							pos:        position{line: 2848, col: 10, offset: 90140},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2845, col: 9, offset: 90065},
+																						pos: position{line: 2849, col: 9, offset: 90168},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2845, col: 10, offset: 90066},
+																							pos:        position{line: 2849, col: 10, offset: 90169},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2809,27 +2809,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2848, col: 11, offset: 90278},
+																			pos: position{line: 2852, col: 11, offset: 90381},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2848, col: 11, offset: 90278},
+																					pos:        position{line: 2852, col: 11, offset: 90381},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2848, col: 19, offset: 90286},
+																					pos: position{line: 2852, col: 19, offset: 90389},
 																					expr: &seqExpr{
-																						pos: position{line: 2848, col: 21, offset: 90288},
+																						pos: position{line: 2852, col: 21, offset: 90391},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2848, col: 21, offset: 90288},
+																								pos: position{line: 2852, col: 21, offset: 90391},
 																								expr: &actionExpr{
-																									pos: position{line: 2872, col: 10, offset: 90900},
+																									pos: position{line: 2876, col: 10, offset: 91003},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2872, col: 10, offset: 90900},
+																										pos:        position{line: 2876, col: 10, offset: 91003},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2838,11 +2838,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2848, col: 28, offset: 90295},
+																								pos: position{line: 2852, col: 28, offset: 90398},
 																								expr: &notExpr{
-																									pos: position{line: 2891, col: 8, offset: 91248},
+																									pos: position{line: 2895, col: 8, offset: 91351},
 																									expr: &anyMatcher{
-																										line: 2891, col: 9, offset: 91249,
+																										line: 2895, col: 9, offset: 91352,
 																									},
 																								},
 																							},
@@ -3233,14 +3233,18 @@ var g = &grammar{
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
+																					&andCodeExpr{
+																						pos: position{line: 1198, col: 5, offset: 37089},
+																						run: (*parser).callonFileInclusion107,
+																					},
 																				},
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2851, col: 11, offset: 90415},
-																			run: (*parser).callonFileInclusion107,
+																			pos: position{line: 2855, col: 11, offset: 90518},
+																			run: (*parser).callonFileInclusion108,
 																			expr: &litMatcher{
-																				pos:        position{line: 2851, col: 11, offset: 90415},
+																				pos:        position{line: 2855, col: 11, offset: 90518},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3269,10 +3273,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2872, col: 10, offset: 90900},
-								run: (*parser).callonFileInclusion112,
+								pos: position{line: 2876, col: 10, offset: 91003},
+								run: (*parser).callonFileInclusion113,
 								expr: &charClassMatcher{
-									pos:        position{line: 2872, col: 10, offset: 90900},
+									pos:        position{line: 2876, col: 10, offset: 91003},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3281,28 +3285,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2894, col: 8, offset: 91298},
+							pos: position{line: 2898, col: 8, offset: 91401},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2881, col: 12, offset: 91071},
-									run: (*parser).callonFileInclusion115,
+									pos: position{line: 2885, col: 12, offset: 91174},
+									run: (*parser).callonFileInclusion116,
 									expr: &choiceExpr{
-										pos: position{line: 2881, col: 13, offset: 91072},
+										pos: position{line: 2885, col: 13, offset: 91175},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2881, col: 13, offset: 91072},
+												pos:        position{line: 2885, col: 13, offset: 91175},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2881, col: 20, offset: 91079},
+												pos:        position{line: 2885, col: 20, offset: 91182},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2881, col: 29, offset: 91088},
+												pos:        position{line: 2885, col: 29, offset: 91191},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3311,9 +3315,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2891, col: 8, offset: 91248},
+									pos: position{line: 2895, col: 8, offset: 91351},
 									expr: &anyMatcher{
-										line: 2891, col: 9, offset: 91249,
+										line: 2895, col: 9, offset: 91352,
 									},
 								},
 							},
@@ -3359,24 +3363,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2864, col: 12, offset: 90727},
+																				pos: position{line: 2868, col: 12, offset: 90830},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2864, col: 13, offset: 90728},
+																					pos: position{line: 2868, col: 13, offset: 90831},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2864, col: 13, offset: 90728},
+																							pos: position{line: 2868, col: 13, offset: 90831},
 																							expr: &litMatcher{
-																								pos:        position{line: 2864, col: 13, offset: 90728},
+																								pos:        position{line: 2868, col: 13, offset: 90831},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2864, col: 18, offset: 90733},
+																							pos: position{line: 2868, col: 18, offset: 90836},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2864, col: 18, offset: 90733},
+																								pos:        position{line: 2868, col: 18, offset: 90836},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3397,24 +3401,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2864, col: 12, offset: 90727},
+																				pos: position{line: 2868, col: 12, offset: 90830},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2864, col: 13, offset: 90728},
+																					pos: position{line: 2868, col: 13, offset: 90831},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2864, col: 13, offset: 90728},
+																							pos: position{line: 2868, col: 13, offset: 90831},
 																							expr: &litMatcher{
-																								pos:        position{line: 2864, col: 13, offset: 90728},
+																								pos:        position{line: 2868, col: 13, offset: 90831},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2864, col: 18, offset: 90733},
+																							pos: position{line: 2868, col: 18, offset: 90836},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2864, col: 18, offset: 90733},
+																								pos:        position{line: 2868, col: 18, offset: 90836},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3435,24 +3439,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2864, col: 12, offset: 90727},
+																		pos: position{line: 2868, col: 12, offset: 90830},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2864, col: 13, offset: 90728},
+																			pos: position{line: 2868, col: 13, offset: 90831},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2864, col: 13, offset: 90728},
+																					pos: position{line: 2868, col: 13, offset: 90831},
 																					expr: &litMatcher{
-																						pos:        position{line: 2864, col: 13, offset: 90728},
+																						pos:        position{line: 2868, col: 13, offset: 90831},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2864, col: 18, offset: 90733},
+																					pos: position{line: 2868, col: 18, offset: 90836},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2864, col: 18, offset: 90733},
+																						pos:        position{line: 2868, col: 18, offset: 90836},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3501,24 +3505,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2864, col: 12, offset: 90727},
+																									pos: position{line: 2868, col: 12, offset: 90830},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2864, col: 13, offset: 90728},
+																										pos: position{line: 2868, col: 13, offset: 90831},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2864, col: 13, offset: 90728},
+																												pos: position{line: 2868, col: 13, offset: 90831},
 																												expr: &litMatcher{
-																													pos:        position{line: 2864, col: 13, offset: 90728},
+																													pos:        position{line: 2868, col: 13, offset: 90831},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2864, col: 18, offset: 90733},
+																												pos: position{line: 2868, col: 18, offset: 90836},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2864, col: 18, offset: 90733},
+																													pos:        position{line: 2868, col: 18, offset: 90836},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3539,24 +3543,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2864, col: 12, offset: 90727},
+																									pos: position{line: 2868, col: 12, offset: 90830},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2864, col: 13, offset: 90728},
+																										pos: position{line: 2868, col: 13, offset: 90831},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2864, col: 13, offset: 90728},
+																												pos: position{line: 2868, col: 13, offset: 90831},
 																												expr: &litMatcher{
-																													pos:        position{line: 2864, col: 13, offset: 90728},
+																													pos:        position{line: 2868, col: 13, offset: 90831},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2864, col: 18, offset: 90733},
+																												pos: position{line: 2868, col: 18, offset: 90836},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2864, col: 18, offset: 90733},
+																													pos:        position{line: 2868, col: 18, offset: 90836},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3577,24 +3581,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2864, col: 12, offset: 90727},
+																							pos: position{line: 2868, col: 12, offset: 90830},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2864, col: 13, offset: 90728},
+																								pos: position{line: 2868, col: 13, offset: 90831},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2864, col: 13, offset: 90728},
+																										pos: position{line: 2868, col: 13, offset: 90831},
 																										expr: &litMatcher{
-																											pos:        position{line: 2864, col: 13, offset: 90728},
+																											pos:        position{line: 2868, col: 13, offset: 90831},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2864, col: 18, offset: 90733},
+																										pos: position{line: 2868, col: 18, offset: 90836},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2864, col: 18, offset: 90733},
+																											pos:        position{line: 2868, col: 18, offset: 90836},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3627,24 +3631,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2864, col: 12, offset: 90727},
+														pos: position{line: 2868, col: 12, offset: 90830},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2864, col: 13, offset: 90728},
+															pos: position{line: 2868, col: 13, offset: 90831},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2864, col: 13, offset: 90728},
+																	pos: position{line: 2868, col: 13, offset: 90831},
 																	expr: &litMatcher{
-																		pos:        position{line: 2864, col: 13, offset: 90728},
+																		pos:        position{line: 2868, col: 13, offset: 90831},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2864, col: 18, offset: 90733},
+																	pos: position{line: 2868, col: 18, offset: 90836},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2864, col: 18, offset: 90733},
+																		pos:        position{line: 2868, col: 18, offset: 90836},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3665,24 +3669,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2864, col: 12, offset: 90727},
+														pos: position{line: 2868, col: 12, offset: 90830},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2864, col: 13, offset: 90728},
+															pos: position{line: 2868, col: 13, offset: 90831},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2864, col: 13, offset: 90728},
+																	pos: position{line: 2868, col: 13, offset: 90831},
 																	expr: &litMatcher{
-																		pos:        position{line: 2864, col: 13, offset: 90728},
+																		pos:        position{line: 2868, col: 13, offset: 90831},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2864, col: 18, offset: 90733},
+																	pos: position{line: 2868, col: 18, offset: 90836},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2864, col: 18, offset: 90733},
+																		pos:        position{line: 2868, col: 18, offset: 90836},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3703,24 +3707,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2864, col: 12, offset: 90727},
+												pos: position{line: 2868, col: 12, offset: 90830},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2864, col: 13, offset: 90728},
+													pos: position{line: 2868, col: 13, offset: 90831},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2864, col: 13, offset: 90728},
+															pos: position{line: 2868, col: 13, offset: 90831},
 															expr: &litMatcher{
-																pos:        position{line: 2864, col: 13, offset: 90728},
+																pos:        position{line: 2868, col: 13, offset: 90831},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2864, col: 18, offset: 90733},
+															pos: position{line: 2868, col: 18, offset: 90836},
 															expr: &charClassMatcher{
-																pos:        position{line: 2864, col: 18, offset: 90733},
+																pos:        position{line: 2868, col: 18, offset: 90836},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3736,9 +3740,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2891, col: 8, offset: 91248},
+							pos: position{line: 2895, col: 8, offset: 91351},
 							expr: &anyMatcher{
-								line: 2891, col: 9, offset: 91249,
+								line: 2895, col: 9, offset: 91352,
 							},
 						},
 					},
@@ -4063,9 +4067,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2891, col: 8, offset: 91248},
+							pos: position{line: 2895, col: 8, offset: 91351},
 							expr: &anyMatcher{
-								line: 2891, col: 9, offset: 91249,
+								line: 2895, col: 9, offset: 91352,
 							},
 						},
 					},
@@ -4189,28 +4193,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2894, col: 8, offset: 91298},
+							pos: position{line: 2898, col: 8, offset: 91401},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2881, col: 12, offset: 91071},
+									pos: position{line: 2885, col: 12, offset: 91174},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2881, col: 13, offset: 91072},
+										pos: position{line: 2885, col: 13, offset: 91175},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2881, col: 13, offset: 91072},
+												pos:        position{line: 2885, col: 13, offset: 91175},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2881, col: 20, offset: 91079},
+												pos:        position{line: 2885, col: 20, offset: 91182},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2881, col: 29, offset: 91088},
+												pos:        position{line: 2885, col: 29, offset: 91191},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4219,9 +4223,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2891, col: 8, offset: 91248},
+									pos: position{line: 2895, col: 8, offset: 91351},
 									expr: &anyMatcher{
-										line: 2891, col: 9, offset: 91249,
+										line: 2895, col: 9, offset: 91352,
 									},
 								},
 							},
@@ -4240,9 +4244,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2889, col: 11, offset: 91234},
+							pos: position{line: 2893, col: 11, offset: 91337},
 							expr: &anyMatcher{
-								line: 2889, col: 13, offset: 91236,
+								line: 2893, col: 13, offset: 91339,
 							},
 						},
 						&labeledExpr{
@@ -4337,10 +4341,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 359, col: 49, offset: 10879},
 														expr: &actionExpr{
-															pos: position{line: 2872, col: 10, offset: 90900},
+															pos: position{line: 2876, col: 10, offset: 91003},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2872, col: 10, offset: 90900},
+																pos:        position{line: 2876, col: 10, offset: 91003},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4349,28 +4353,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2894, col: 8, offset: 91298},
+														pos: position{line: 2898, col: 8, offset: 91401},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2881, col: 12, offset: 91071},
+																pos: position{line: 2885, col: 12, offset: 91174},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2881, col: 13, offset: 91072},
+																	pos: position{line: 2885, col: 13, offset: 91175},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2881, col: 13, offset: 91072},
+																			pos:        position{line: 2885, col: 13, offset: 91175},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2881, col: 20, offset: 91079},
+																			pos:        position{line: 2885, col: 20, offset: 91182},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2881, col: 29, offset: 91088},
+																			pos:        position{line: 2885, col: 29, offset: 91191},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4379,9 +4383,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2891, col: 8, offset: 91248},
+																pos: position{line: 2895, col: 8, offset: 91351},
 																expr: &anyMatcher{
-																	line: 2891, col: 9, offset: 91249,
+																	line: 2895, col: 9, offset: 91352,
 																},
 															},
 														},
@@ -4442,10 +4446,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 361, col: 39, offset: 11000},
 														expr: &actionExpr{
-															pos: position{line: 2872, col: 10, offset: 90900},
+															pos: position{line: 2876, col: 10, offset: 91003},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2872, col: 10, offset: 90900},
+																pos:        position{line: 2876, col: 10, offset: 91003},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4454,28 +4458,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2894, col: 8, offset: 91298},
+														pos: position{line: 2898, col: 8, offset: 91401},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2881, col: 12, offset: 91071},
+																pos: position{line: 2885, col: 12, offset: 91174},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2881, col: 13, offset: 91072},
+																	pos: position{line: 2885, col: 13, offset: 91175},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2881, col: 13, offset: 91072},
+																			pos:        position{line: 2885, col: 13, offset: 91175},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2881, col: 20, offset: 91079},
+																			pos:        position{line: 2885, col: 20, offset: 91182},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2881, col: 29, offset: 91088},
+																			pos:        position{line: 2885, col: 29, offset: 91191},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4484,9 +4488,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2891, col: 8, offset: 91248},
+																pos: position{line: 2895, col: 8, offset: 91351},
 																expr: &anyMatcher{
-																	line: 2891, col: 9, offset: 91249,
+																	line: 2895, col: 9, offset: 91352,
 																},
 															},
 														},
@@ -4501,18 +4505,18 @@ var g = &grammar{
 												pos: position{line: 676, col: 14, offset: 21496},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2889, col: 11, offset: 91234},
+														pos: position{line: 2893, col: 11, offset: 91337},
 														expr: &anyMatcher{
-															line: 2889, col: 13, offset: 91236,
+															line: 2893, col: 13, offset: 91339,
 														},
 													},
 													&zeroOrMoreExpr{
 														pos: position{line: 676, col: 21, offset: 21503},
 														expr: &actionExpr{
-															pos: position{line: 2872, col: 10, offset: 90900},
+															pos: position{line: 2876, col: 10, offset: 91003},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2872, col: 10, offset: 90900},
+																pos:        position{line: 2876, col: 10, offset: 91003},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4521,28 +4525,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2894, col: 8, offset: 91298},
+														pos: position{line: 2898, col: 8, offset: 91401},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2881, col: 12, offset: 91071},
+																pos: position{line: 2885, col: 12, offset: 91174},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2881, col: 13, offset: 91072},
+																	pos: position{line: 2885, col: 13, offset: 91175},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2881, col: 13, offset: 91072},
+																			pos:        position{line: 2885, col: 13, offset: 91175},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2881, col: 20, offset: 91079},
+																			pos:        position{line: 2885, col: 20, offset: 91182},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2881, col: 29, offset: 91088},
+																			pos:        position{line: 2885, col: 29, offset: 91191},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4551,9 +4555,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2891, col: 8, offset: 91248},
+																pos: position{line: 2895, col: 8, offset: 91351},
 																expr: &anyMatcher{
-																	line: 2891, col: 9, offset: 91249,
+																	line: 2895, col: 9, offset: 91352,
 																},
 															},
 														},
@@ -4612,10 +4616,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 741, col: 8, offset: 23693},
 																	expr: &actionExpr{
-																		pos: position{line: 2872, col: 10, offset: 90900},
+																		pos: position{line: 2876, col: 10, offset: 91003},
 																		run: (*parser).callonDocumentFragment86,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2872, col: 10, offset: 90900},
+																			pos:        position{line: 2876, col: 10, offset: 91003},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -4624,28 +4628,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2894, col: 8, offset: 91298},
+																	pos: position{line: 2898, col: 8, offset: 91401},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2881, col: 12, offset: 91071},
+																			pos: position{line: 2885, col: 12, offset: 91174},
 																			run: (*parser).callonDocumentFragment89,
 																			expr: &choiceExpr{
-																				pos: position{line: 2881, col: 13, offset: 91072},
+																				pos: position{line: 2885, col: 13, offset: 91175},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 13, offset: 91072},
+																						pos:        position{line: 2885, col: 13, offset: 91175},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 20, offset: 91079},
+																						pos:        position{line: 2885, col: 20, offset: 91182},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 29, offset: 91088},
+																						pos:        position{line: 2885, col: 29, offset: 91191},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -4654,9 +4658,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2891, col: 8, offset: 91248},
+																			pos: position{line: 2895, col: 8, offset: 91351},
 																			expr: &anyMatcher{
-																				line: 2891, col: 9, offset: 91249,
+																				line: 2895, col: 9, offset: 91352,
 																			},
 																		},
 																	},
@@ -4717,10 +4721,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 741, col: 8, offset: 23693},
 																									expr: &actionExpr{
-																										pos: position{line: 2872, col: 10, offset: 90900},
+																										pos: position{line: 2876, col: 10, offset: 91003},
 																										run: (*parser).callonDocumentFragment111,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2872, col: 10, offset: 90900},
+																											pos:        position{line: 2876, col: 10, offset: 91003},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -4729,28 +4733,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2894, col: 8, offset: 91298},
+																									pos: position{line: 2898, col: 8, offset: 91401},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2881, col: 12, offset: 91071},
+																											pos: position{line: 2885, col: 12, offset: 91174},
 																											run: (*parser).callonDocumentFragment114,
 																											expr: &choiceExpr{
-																												pos: position{line: 2881, col: 13, offset: 91072},
+																												pos: position{line: 2885, col: 13, offset: 91175},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2881, col: 13, offset: 91072},
+																														pos:        position{line: 2885, col: 13, offset: 91175},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2881, col: 20, offset: 91079},
+																														pos:        position{line: 2885, col: 20, offset: 91182},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2881, col: 29, offset: 91088},
+																														pos:        position{line: 2885, col: 29, offset: 91191},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -4759,9 +4763,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2891, col: 8, offset: 91248},
+																											pos: position{line: 2895, col: 8, offset: 91351},
 																											expr: &anyMatcher{
-																												line: 2891, col: 9, offset: 91249,
+																												line: 2895, col: 9, offset: 91352,
 																											},
 																										},
 																									},
@@ -4770,9 +4774,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2891, col: 8, offset: 91248},
+																						pos: position{line: 2895, col: 8, offset: 91351},
 																						expr: &anyMatcher{
-																							line: 2891, col: 9, offset: 91249,
+																							line: 2895, col: 9, offset: 91352,
 																						},
 																					},
 																				},
@@ -4788,21 +4792,21 @@ var g = &grammar{
 																					pos: position{line: 810, col: 5, offset: 26100},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2889, col: 11, offset: 91234},
+																							pos: position{line: 2893, col: 11, offset: 91337},
 																							expr: &anyMatcher{
-																								line: 2889, col: 13, offset: 91236,
+																								line: 2893, col: 13, offset: 91339,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 811, col: 5, offset: 26175},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2818, col: 13, offset: 89426},
+																								pos: position{line: 2822, col: 13, offset: 89529},
 																								run: (*parser).callonDocumentFragment129,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2818, col: 13, offset: 89426},
+																									pos: position{line: 2822, col: 13, offset: 89529},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2818, col: 13, offset: 89426},
+																										pos:        position{line: 2822, col: 13, offset: 89529},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4812,28 +4816,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2894, col: 8, offset: 91298},
+																							pos: position{line: 2898, col: 8, offset: 91401},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2881, col: 12, offset: 91071},
+																									pos: position{line: 2885, col: 12, offset: 91174},
 																									run: (*parser).callonDocumentFragment133,
 																									expr: &choiceExpr{
-																										pos: position{line: 2881, col: 13, offset: 91072},
+																										pos: position{line: 2885, col: 13, offset: 91175},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 13, offset: 91072},
+																												pos:        position{line: 2885, col: 13, offset: 91175},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 20, offset: 91079},
+																												pos:        position{line: 2885, col: 20, offset: 91182},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 29, offset: 91088},
+																												pos:        position{line: 2885, col: 29, offset: 91191},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4842,9 +4846,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2891, col: 8, offset: 91248},
+																									pos: position{line: 2895, col: 8, offset: 91351},
 																									expr: &anyMatcher{
-																										line: 2891, col: 9, offset: 91249,
+																										line: 2895, col: 9, offset: 91352,
 																									},
 																								},
 																							},
@@ -4900,10 +4904,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 741, col: 8, offset: 23693},
 																				expr: &actionExpr{
-																					pos: position{line: 2872, col: 10, offset: 90900},
+																					pos: position{line: 2876, col: 10, offset: 91003},
 																					run: (*parser).callonDocumentFragment151,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2872, col: 10, offset: 90900},
+																						pos:        position{line: 2876, col: 10, offset: 91003},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -4912,28 +4916,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2894, col: 8, offset: 91298},
+																				pos: position{line: 2898, col: 8, offset: 91401},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2881, col: 12, offset: 91071},
+																						pos: position{line: 2885, col: 12, offset: 91174},
 																						run: (*parser).callonDocumentFragment154,
 																						expr: &choiceExpr{
-																							pos: position{line: 2881, col: 13, offset: 91072},
+																							pos: position{line: 2885, col: 13, offset: 91175},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2881, col: 13, offset: 91072},
+																									pos:        position{line: 2885, col: 13, offset: 91175},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2881, col: 20, offset: 91079},
+																									pos:        position{line: 2885, col: 20, offset: 91182},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2881, col: 29, offset: 91088},
+																									pos:        position{line: 2885, col: 29, offset: 91191},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -4942,9 +4946,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2891, col: 8, offset: 91248},
+																						pos: position{line: 2895, col: 8, offset: 91351},
 																						expr: &anyMatcher{
-																							line: 2891, col: 9, offset: 91249,
+																							line: 2895, col: 9, offset: 91352,
 																						},
 																					},
 																				},
@@ -4953,9 +4957,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2891, col: 8, offset: 91248},
+																	pos: position{line: 2895, col: 8, offset: 91351},
 																	expr: &anyMatcher{
-																		line: 2891, col: 9, offset: 91249,
+																		line: 2895, col: 9, offset: 91352,
 																	},
 																},
 															},
@@ -5010,10 +5014,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 748, col: 8, offset: 23941},
 																		expr: &actionExpr{
-																			pos: position{line: 2872, col: 10, offset: 90900},
+																			pos: position{line: 2876, col: 10, offset: 91003},
 																			run: (*parser).callonDocumentFragment175,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2872, col: 10, offset: 90900},
+																				pos:        position{line: 2876, col: 10, offset: 91003},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5022,28 +5026,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2894, col: 8, offset: 91298},
+																		pos: position{line: 2898, col: 8, offset: 91401},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2881, col: 12, offset: 91071},
+																				pos: position{line: 2885, col: 12, offset: 91174},
 																				run: (*parser).callonDocumentFragment178,
 																				expr: &choiceExpr{
-																					pos: position{line: 2881, col: 13, offset: 91072},
+																					pos: position{line: 2885, col: 13, offset: 91175},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 13, offset: 91072},
+																							pos:        position{line: 2885, col: 13, offset: 91175},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 20, offset: 91079},
+																							pos:        position{line: 2885, col: 20, offset: 91182},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 29, offset: 91088},
+																							pos:        position{line: 2885, col: 29, offset: 91191},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5052,9 +5056,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2891, col: 8, offset: 91248},
+																				pos: position{line: 2895, col: 8, offset: 91351},
 																				expr: &anyMatcher{
-																					line: 2891, col: 9, offset: 91249,
+																					line: 2895, col: 9, offset: 91352,
 																				},
 																			},
 																		},
@@ -5126,10 +5130,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 748, col: 8, offset: 23941},
 																												expr: &actionExpr{
-																													pos: position{line: 2872, col: 10, offset: 90900},
+																													pos: position{line: 2876, col: 10, offset: 91003},
 																													run: (*parser).callonDocumentFragment203,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2872, col: 10, offset: 90900},
+																														pos:        position{line: 2876, col: 10, offset: 91003},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5138,28 +5142,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2894, col: 8, offset: 91298},
+																												pos: position{line: 2898, col: 8, offset: 91401},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2881, col: 12, offset: 91071},
+																														pos: position{line: 2885, col: 12, offset: 91174},
 																														run: (*parser).callonDocumentFragment206,
 																														expr: &choiceExpr{
-																															pos: position{line: 2881, col: 13, offset: 91072},
+																															pos: position{line: 2885, col: 13, offset: 91175},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2881, col: 13, offset: 91072},
+																																	pos:        position{line: 2885, col: 13, offset: 91175},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2881, col: 20, offset: 91079},
+																																	pos:        position{line: 2885, col: 20, offset: 91182},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2881, col: 29, offset: 91088},
+																																	pos:        position{line: 2885, col: 29, offset: 91191},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5168,9 +5172,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2891, col: 8, offset: 91248},
+																														pos: position{line: 2895, col: 8, offset: 91351},
 																														expr: &anyMatcher{
-																															line: 2891, col: 9, offset: 91249,
+																															line: 2895, col: 9, offset: 91352,
 																														},
 																													},
 																												},
@@ -5186,9 +5190,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2891, col: 8, offset: 91248},
+																						pos: position{line: 2895, col: 8, offset: 91351},
 																						expr: &anyMatcher{
-																							line: 2891, col: 9, offset: 91249,
+																							line: 2895, col: 9, offset: 91352,
 																						},
 																					},
 																				},
@@ -5204,21 +5208,21 @@ var g = &grammar{
 																					pos: position{line: 810, col: 5, offset: 26100},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2889, col: 11, offset: 91234},
+																							pos: position{line: 2893, col: 11, offset: 91337},
 																							expr: &anyMatcher{
-																								line: 2889, col: 13, offset: 91236,
+																								line: 2893, col: 13, offset: 91339,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 811, col: 5, offset: 26175},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2818, col: 13, offset: 89426},
+																								pos: position{line: 2822, col: 13, offset: 89529},
 																								run: (*parser).callonDocumentFragment222,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2818, col: 13, offset: 89426},
+																									pos: position{line: 2822, col: 13, offset: 89529},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2818, col: 13, offset: 89426},
+																										pos:        position{line: 2822, col: 13, offset: 89529},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5228,28 +5232,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2894, col: 8, offset: 91298},
+																							pos: position{line: 2898, col: 8, offset: 91401},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2881, col: 12, offset: 91071},
+																									pos: position{line: 2885, col: 12, offset: 91174},
 																									run: (*parser).callonDocumentFragment226,
 																									expr: &choiceExpr{
-																										pos: position{line: 2881, col: 13, offset: 91072},
+																										pos: position{line: 2885, col: 13, offset: 91175},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 13, offset: 91072},
+																												pos:        position{line: 2885, col: 13, offset: 91175},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 20, offset: 91079},
+																												pos:        position{line: 2885, col: 20, offset: 91182},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 29, offset: 91088},
+																												pos:        position{line: 2885, col: 29, offset: 91191},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5258,9 +5262,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2891, col: 8, offset: 91248},
+																									pos: position{line: 2895, col: 8, offset: 91351},
 																									expr: &anyMatcher{
-																										line: 2891, col: 9, offset: 91249,
+																										line: 2895, col: 9, offset: 91352,
 																									},
 																								},
 																							},
@@ -5325,10 +5329,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 748, col: 8, offset: 23941},
 																								expr: &actionExpr{
-																									pos: position{line: 2872, col: 10, offset: 90900},
+																									pos: position{line: 2876, col: 10, offset: 91003},
 																									run: (*parser).callonDocumentFragment247,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2872, col: 10, offset: 90900},
+																										pos:        position{line: 2876, col: 10, offset: 91003},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5337,28 +5341,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2894, col: 8, offset: 91298},
+																								pos: position{line: 2898, col: 8, offset: 91401},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2881, col: 12, offset: 91071},
+																										pos: position{line: 2885, col: 12, offset: 91174},
 																										run: (*parser).callonDocumentFragment250,
 																										expr: &choiceExpr{
-																											pos: position{line: 2881, col: 13, offset: 91072},
+																											pos: position{line: 2885, col: 13, offset: 91175},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2881, col: 13, offset: 91072},
+																													pos:        position{line: 2885, col: 13, offset: 91175},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2881, col: 20, offset: 91079},
+																													pos:        position{line: 2885, col: 20, offset: 91182},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2881, col: 29, offset: 91088},
+																													pos:        position{line: 2885, col: 29, offset: 91191},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5367,9 +5371,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2891, col: 8, offset: 91248},
+																										pos: position{line: 2895, col: 8, offset: 91351},
 																										expr: &anyMatcher{
-																											line: 2891, col: 9, offset: 91249,
+																											line: 2895, col: 9, offset: 91352,
 																										},
 																									},
 																								},
@@ -5385,9 +5389,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2891, col: 8, offset: 91248},
+																		pos: position{line: 2895, col: 8, offset: 91351},
 																		expr: &anyMatcher{
-																			line: 2891, col: 9, offset: 91249,
+																			line: 2895, col: 9, offset: 91352,
 																		},
 																	},
 																},
@@ -5439,10 +5443,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 759, col: 52, offset: 24353},
 																		expr: &actionExpr{
-																			pos: position{line: 2872, col: 10, offset: 90900},
+																			pos: position{line: 2876, col: 10, offset: 91003},
 																			run: (*parser).callonDocumentFragment271,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2872, col: 10, offset: 90900},
+																				pos:        position{line: 2876, col: 10, offset: 91003},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5451,28 +5455,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2894, col: 8, offset: 91298},
+																		pos: position{line: 2898, col: 8, offset: 91401},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2881, col: 12, offset: 91071},
+																				pos: position{line: 2885, col: 12, offset: 91174},
 																				run: (*parser).callonDocumentFragment274,
 																				expr: &choiceExpr{
-																					pos: position{line: 2881, col: 13, offset: 91072},
+																					pos: position{line: 2885, col: 13, offset: 91175},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 13, offset: 91072},
+																							pos:        position{line: 2885, col: 13, offset: 91175},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 20, offset: 91079},
+																							pos:        position{line: 2885, col: 20, offset: 91182},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 29, offset: 91088},
+																							pos:        position{line: 2885, col: 29, offset: 91191},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5481,9 +5485,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2891, col: 8, offset: 91248},
+																				pos: position{line: 2895, col: 8, offset: 91351},
 																				expr: &anyMatcher{
-																					line: 2891, col: 9, offset: 91249,
+																					line: 2895, col: 9, offset: 91352,
 																				},
 																			},
 																		},
@@ -5517,10 +5521,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 962, col: 40, offset: 30161},
 																						expr: &actionExpr{
-																							pos: position{line: 2872, col: 10, offset: 90900},
+																							pos: position{line: 2876, col: 10, offset: 91003},
 																							run: (*parser).callonDocumentFragment289,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2872, col: 10, offset: 90900},
+																								pos:        position{line: 2876, col: 10, offset: 91003},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5529,28 +5533,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2894, col: 8, offset: 91298},
+																						pos: position{line: 2898, col: 8, offset: 91401},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2881, col: 12, offset: 91071},
+																								pos: position{line: 2885, col: 12, offset: 91174},
 																								run: (*parser).callonDocumentFragment292,
 																								expr: &choiceExpr{
-																									pos: position{line: 2881, col: 13, offset: 91072},
+																									pos: position{line: 2885, col: 13, offset: 91175},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 13, offset: 91072},
+																											pos:        position{line: 2885, col: 13, offset: 91175},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 20, offset: 91079},
+																											pos:        position{line: 2885, col: 20, offset: 91182},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 29, offset: 91088},
+																											pos:        position{line: 2885, col: 29, offset: 91191},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5559,9 +5563,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2891, col: 8, offset: 91248},
+																								pos: position{line: 2895, col: 8, offset: 91351},
 																								expr: &anyMatcher{
-																									line: 2891, col: 9, offset: 91249,
+																									line: 2895, col: 9, offset: 91352,
 																								},
 																							},
 																						},
@@ -5579,21 +5583,21 @@ var g = &grammar{
 																					pos: position{line: 810, col: 5, offset: 26100},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2889, col: 11, offset: 91234},
+																							pos: position{line: 2893, col: 11, offset: 91337},
 																							expr: &anyMatcher{
-																								line: 2889, col: 13, offset: 91236,
+																								line: 2893, col: 13, offset: 91339,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 811, col: 5, offset: 26175},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2818, col: 13, offset: 89426},
+																								pos: position{line: 2822, col: 13, offset: 89529},
 																								run: (*parser).callonDocumentFragment305,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2818, col: 13, offset: 89426},
+																									pos: position{line: 2822, col: 13, offset: 89529},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2818, col: 13, offset: 89426},
+																										pos:        position{line: 2822, col: 13, offset: 89529},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5603,28 +5607,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2894, col: 8, offset: 91298},
+																							pos: position{line: 2898, col: 8, offset: 91401},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2881, col: 12, offset: 91071},
+																									pos: position{line: 2885, col: 12, offset: 91174},
 																									run: (*parser).callonDocumentFragment309,
 																									expr: &choiceExpr{
-																										pos: position{line: 2881, col: 13, offset: 91072},
+																										pos: position{line: 2885, col: 13, offset: 91175},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 13, offset: 91072},
+																												pos:        position{line: 2885, col: 13, offset: 91175},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 20, offset: 91079},
+																												pos:        position{line: 2885, col: 20, offset: 91182},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 29, offset: 91088},
+																												pos:        position{line: 2885, col: 29, offset: 91191},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5633,9 +5637,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2891, col: 8, offset: 91248},
+																									pos: position{line: 2895, col: 8, offset: 91351},
 																									expr: &anyMatcher{
-																										line: 2891, col: 9, offset: 91249,
+																										line: 2895, col: 9, offset: 91352,
 																									},
 																								},
 																							},
@@ -5663,10 +5667,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 962, col: 40, offset: 30161},
 																	expr: &actionExpr{
-																		pos: position{line: 2872, col: 10, offset: 90900},
+																		pos: position{line: 2876, col: 10, offset: 91003},
 																		run: (*parser).callonDocumentFragment320,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2872, col: 10, offset: 90900},
+																			pos:        position{line: 2876, col: 10, offset: 91003},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5675,28 +5679,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2894, col: 8, offset: 91298},
+																	pos: position{line: 2898, col: 8, offset: 91401},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2881, col: 12, offset: 91071},
+																			pos: position{line: 2885, col: 12, offset: 91174},
 																			run: (*parser).callonDocumentFragment323,
 																			expr: &choiceExpr{
-																				pos: position{line: 2881, col: 13, offset: 91072},
+																				pos: position{line: 2885, col: 13, offset: 91175},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 13, offset: 91072},
+																						pos:        position{line: 2885, col: 13, offset: 91175},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 20, offset: 91079},
+																						pos:        position{line: 2885, col: 20, offset: 91182},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 29, offset: 91088},
+																						pos:        position{line: 2885, col: 29, offset: 91191},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5705,9 +5709,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2891, col: 8, offset: 91248},
+																			pos: position{line: 2895, col: 8, offset: 91351},
 																			expr: &anyMatcher{
-																				line: 2891, col: 9, offset: 91249,
+																				line: 2895, col: 9, offset: 91352,
 																			},
 																		},
 																	},
@@ -5764,10 +5768,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 755, col: 8, offset: 24187},
 																		expr: &actionExpr{
-																			pos: position{line: 2872, col: 10, offset: 90900},
+																			pos: position{line: 2876, col: 10, offset: 91003},
 																			run: (*parser).callonDocumentFragment342,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2872, col: 10, offset: 90900},
+																				pos:        position{line: 2876, col: 10, offset: 91003},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5776,28 +5780,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2894, col: 8, offset: 91298},
+																		pos: position{line: 2898, col: 8, offset: 91401},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2881, col: 12, offset: 91071},
+																				pos: position{line: 2885, col: 12, offset: 91174},
 																				run: (*parser).callonDocumentFragment345,
 																				expr: &choiceExpr{
-																					pos: position{line: 2881, col: 13, offset: 91072},
+																					pos: position{line: 2885, col: 13, offset: 91175},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 13, offset: 91072},
+																							pos:        position{line: 2885, col: 13, offset: 91175},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 20, offset: 91079},
+																							pos:        position{line: 2885, col: 20, offset: 91182},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 29, offset: 91088},
+																							pos:        position{line: 2885, col: 29, offset: 91191},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5806,9 +5810,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2891, col: 8, offset: 91248},
+																				pos: position{line: 2895, col: 8, offset: 91351},
 																				expr: &anyMatcher{
-																					line: 2891, col: 9, offset: 91249,
+																					line: 2895, col: 9, offset: 91352,
 																				},
 																			},
 																		},
@@ -5880,10 +5884,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 755, col: 8, offset: 24187},
 																												expr: &actionExpr{
-																													pos: position{line: 2872, col: 10, offset: 90900},
+																													pos: position{line: 2876, col: 10, offset: 91003},
 																													run: (*parser).callonDocumentFragment370,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2872, col: 10, offset: 90900},
+																														pos:        position{line: 2876, col: 10, offset: 91003},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5892,28 +5896,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2894, col: 8, offset: 91298},
+																												pos: position{line: 2898, col: 8, offset: 91401},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2881, col: 12, offset: 91071},
+																														pos: position{line: 2885, col: 12, offset: 91174},
 																														run: (*parser).callonDocumentFragment373,
 																														expr: &choiceExpr{
-																															pos: position{line: 2881, col: 13, offset: 91072},
+																															pos: position{line: 2885, col: 13, offset: 91175},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2881, col: 13, offset: 91072},
+																																	pos:        position{line: 2885, col: 13, offset: 91175},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2881, col: 20, offset: 91079},
+																																	pos:        position{line: 2885, col: 20, offset: 91182},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2881, col: 29, offset: 91088},
+																																	pos:        position{line: 2885, col: 29, offset: 91191},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5922,9 +5926,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2891, col: 8, offset: 91248},
+																														pos: position{line: 2895, col: 8, offset: 91351},
 																														expr: &anyMatcher{
-																															line: 2891, col: 9, offset: 91249,
+																															line: 2895, col: 9, offset: 91352,
 																														},
 																													},
 																												},
@@ -5940,9 +5944,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2891, col: 8, offset: 91248},
+																						pos: position{line: 2895, col: 8, offset: 91351},
 																						expr: &anyMatcher{
-																							line: 2891, col: 9, offset: 91249,
+																							line: 2895, col: 9, offset: 91352,
 																						},
 																					},
 																				},
@@ -5958,21 +5962,21 @@ var g = &grammar{
 																					pos: position{line: 810, col: 5, offset: 26100},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2889, col: 11, offset: 91234},
+																							pos: position{line: 2893, col: 11, offset: 91337},
 																							expr: &anyMatcher{
-																								line: 2889, col: 13, offset: 91236,
+																								line: 2893, col: 13, offset: 91339,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 811, col: 5, offset: 26175},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2818, col: 13, offset: 89426},
+																								pos: position{line: 2822, col: 13, offset: 89529},
 																								run: (*parser).callonDocumentFragment389,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2818, col: 13, offset: 89426},
+																									pos: position{line: 2822, col: 13, offset: 89529},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2818, col: 13, offset: 89426},
+																										pos:        position{line: 2822, col: 13, offset: 89529},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5982,28 +5986,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2894, col: 8, offset: 91298},
+																							pos: position{line: 2898, col: 8, offset: 91401},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2881, col: 12, offset: 91071},
+																									pos: position{line: 2885, col: 12, offset: 91174},
 																									run: (*parser).callonDocumentFragment393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2881, col: 13, offset: 91072},
+																										pos: position{line: 2885, col: 13, offset: 91175},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 13, offset: 91072},
+																												pos:        position{line: 2885, col: 13, offset: 91175},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 20, offset: 91079},
+																												pos:        position{line: 2885, col: 20, offset: 91182},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 29, offset: 91088},
+																												pos:        position{line: 2885, col: 29, offset: 91191},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6012,9 +6016,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2891, col: 8, offset: 91248},
+																									pos: position{line: 2895, col: 8, offset: 91351},
 																									expr: &anyMatcher{
-																										line: 2891, col: 9, offset: 91249,
+																										line: 2895, col: 9, offset: 91352,
 																									},
 																								},
 																							},
@@ -6079,10 +6083,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 755, col: 8, offset: 24187},
 																								expr: &actionExpr{
-																									pos: position{line: 2872, col: 10, offset: 90900},
+																									pos: position{line: 2876, col: 10, offset: 91003},
 																									run: (*parser).callonDocumentFragment414,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2872, col: 10, offset: 90900},
+																										pos:        position{line: 2876, col: 10, offset: 91003},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6091,28 +6095,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2894, col: 8, offset: 91298},
+																								pos: position{line: 2898, col: 8, offset: 91401},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2881, col: 12, offset: 91071},
+																										pos: position{line: 2885, col: 12, offset: 91174},
 																										run: (*parser).callonDocumentFragment417,
 																										expr: &choiceExpr{
-																											pos: position{line: 2881, col: 13, offset: 91072},
+																											pos: position{line: 2885, col: 13, offset: 91175},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2881, col: 13, offset: 91072},
+																													pos:        position{line: 2885, col: 13, offset: 91175},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2881, col: 20, offset: 91079},
+																													pos:        position{line: 2885, col: 20, offset: 91182},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2881, col: 29, offset: 91088},
+																													pos:        position{line: 2885, col: 29, offset: 91191},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6121,9 +6125,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2891, col: 8, offset: 91248},
+																										pos: position{line: 2895, col: 8, offset: 91351},
 																										expr: &anyMatcher{
-																											line: 2891, col: 9, offset: 91249,
+																											line: 2895, col: 9, offset: 91352,
 																										},
 																									},
 																								},
@@ -6139,9 +6143,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2891, col: 8, offset: 91248},
+																		pos: position{line: 2895, col: 8, offset: 91351},
 																		expr: &anyMatcher{
-																			line: 2891, col: 9, offset: 91249,
+																			line: 2895, col: 9, offset: 91352,
 																		},
 																	},
 																},
@@ -6197,10 +6201,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 770, col: 8, offset: 24730},
 																		expr: &actionExpr{
-																			pos: position{line: 2872, col: 10, offset: 90900},
+																			pos: position{line: 2876, col: 10, offset: 91003},
 																			run: (*parser).callonDocumentFragment439,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2872, col: 10, offset: 90900},
+																				pos:        position{line: 2876, col: 10, offset: 91003},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6209,28 +6213,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2894, col: 8, offset: 91298},
+																		pos: position{line: 2898, col: 8, offset: 91401},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2881, col: 12, offset: 91071},
+																				pos: position{line: 2885, col: 12, offset: 91174},
 																				run: (*parser).callonDocumentFragment442,
 																				expr: &choiceExpr{
-																					pos: position{line: 2881, col: 13, offset: 91072},
+																					pos: position{line: 2885, col: 13, offset: 91175},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 13, offset: 91072},
+																							pos:        position{line: 2885, col: 13, offset: 91175},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 20, offset: 91079},
+																							pos:        position{line: 2885, col: 20, offset: 91182},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 29, offset: 91088},
+																							pos:        position{line: 2885, col: 29, offset: 91191},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6239,9 +6243,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2891, col: 8, offset: 91248},
+																				pos: position{line: 2895, col: 8, offset: 91351},
 																				expr: &anyMatcher{
-																					line: 2891, col: 9, offset: 91249,
+																					line: 2895, col: 9, offset: 91352,
 																				},
 																			},
 																		},
@@ -6313,10 +6317,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 770, col: 8, offset: 24730},
 																												expr: &actionExpr{
-																													pos: position{line: 2872, col: 10, offset: 90900},
+																													pos: position{line: 2876, col: 10, offset: 91003},
 																													run: (*parser).callonDocumentFragment467,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2872, col: 10, offset: 90900},
+																														pos:        position{line: 2876, col: 10, offset: 91003},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6325,28 +6329,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2894, col: 8, offset: 91298},
+																												pos: position{line: 2898, col: 8, offset: 91401},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2881, col: 12, offset: 91071},
+																														pos: position{line: 2885, col: 12, offset: 91174},
 																														run: (*parser).callonDocumentFragment470,
 																														expr: &choiceExpr{
-																															pos: position{line: 2881, col: 13, offset: 91072},
+																															pos: position{line: 2885, col: 13, offset: 91175},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2881, col: 13, offset: 91072},
+																																	pos:        position{line: 2885, col: 13, offset: 91175},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2881, col: 20, offset: 91079},
+																																	pos:        position{line: 2885, col: 20, offset: 91182},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2881, col: 29, offset: 91088},
+																																	pos:        position{line: 2885, col: 29, offset: 91191},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6355,9 +6359,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2891, col: 8, offset: 91248},
+																														pos: position{line: 2895, col: 8, offset: 91351},
 																														expr: &anyMatcher{
-																															line: 2891, col: 9, offset: 91249,
+																															line: 2895, col: 9, offset: 91352,
 																														},
 																													},
 																												},
@@ -6373,9 +6377,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2891, col: 8, offset: 91248},
+																						pos: position{line: 2895, col: 8, offset: 91351},
 																						expr: &anyMatcher{
-																							line: 2891, col: 9, offset: 91249,
+																							line: 2895, col: 9, offset: 91352,
 																						},
 																					},
 																				},
@@ -6391,21 +6395,21 @@ var g = &grammar{
 																					pos: position{line: 810, col: 5, offset: 26100},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2889, col: 11, offset: 91234},
+																							pos: position{line: 2893, col: 11, offset: 91337},
 																							expr: &anyMatcher{
-																								line: 2889, col: 13, offset: 91236,
+																								line: 2893, col: 13, offset: 91339,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 811, col: 5, offset: 26175},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2818, col: 13, offset: 89426},
+																								pos: position{line: 2822, col: 13, offset: 89529},
 																								run: (*parser).callonDocumentFragment486,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2818, col: 13, offset: 89426},
+																									pos: position{line: 2822, col: 13, offset: 89529},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2818, col: 13, offset: 89426},
+																										pos:        position{line: 2822, col: 13, offset: 89529},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6415,28 +6419,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2894, col: 8, offset: 91298},
+																							pos: position{line: 2898, col: 8, offset: 91401},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2881, col: 12, offset: 91071},
+																									pos: position{line: 2885, col: 12, offset: 91174},
 																									run: (*parser).callonDocumentFragment490,
 																									expr: &choiceExpr{
-																										pos: position{line: 2881, col: 13, offset: 91072},
+																										pos: position{line: 2885, col: 13, offset: 91175},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 13, offset: 91072},
+																												pos:        position{line: 2885, col: 13, offset: 91175},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 20, offset: 91079},
+																												pos:        position{line: 2885, col: 20, offset: 91182},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 29, offset: 91088},
+																												pos:        position{line: 2885, col: 29, offset: 91191},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6445,9 +6449,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2891, col: 8, offset: 91248},
+																									pos: position{line: 2895, col: 8, offset: 91351},
 																									expr: &anyMatcher{
-																										line: 2891, col: 9, offset: 91249,
+																										line: 2895, col: 9, offset: 91352,
 																									},
 																								},
 																							},
@@ -6512,10 +6516,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 770, col: 8, offset: 24730},
 																								expr: &actionExpr{
-																									pos: position{line: 2872, col: 10, offset: 90900},
+																									pos: position{line: 2876, col: 10, offset: 91003},
 																									run: (*parser).callonDocumentFragment511,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2872, col: 10, offset: 90900},
+																										pos:        position{line: 2876, col: 10, offset: 91003},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6524,28 +6528,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2894, col: 8, offset: 91298},
+																								pos: position{line: 2898, col: 8, offset: 91401},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2881, col: 12, offset: 91071},
+																										pos: position{line: 2885, col: 12, offset: 91174},
 																										run: (*parser).callonDocumentFragment514,
 																										expr: &choiceExpr{
-																											pos: position{line: 2881, col: 13, offset: 91072},
+																											pos: position{line: 2885, col: 13, offset: 91175},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2881, col: 13, offset: 91072},
+																													pos:        position{line: 2885, col: 13, offset: 91175},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2881, col: 20, offset: 91079},
+																													pos:        position{line: 2885, col: 20, offset: 91182},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2881, col: 29, offset: 91088},
+																													pos:        position{line: 2885, col: 29, offset: 91191},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6554,9 +6558,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2891, col: 8, offset: 91248},
+																										pos: position{line: 2895, col: 8, offset: 91351},
 																										expr: &anyMatcher{
-																											line: 2891, col: 9, offset: 91249,
+																											line: 2895, col: 9, offset: 91352,
 																										},
 																									},
 																								},
@@ -6572,9 +6576,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2891, col: 8, offset: 91248},
+																		pos: position{line: 2895, col: 8, offset: 91351},
 																		expr: &anyMatcher{
-																			line: 2891, col: 9, offset: 91249,
+																			line: 2895, col: 9, offset: 91352,
 																		},
 																	},
 																},
@@ -6630,10 +6634,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 784, col: 8, offset: 25206},
 																		expr: &actionExpr{
-																			pos: position{line: 2872, col: 10, offset: 90900},
+																			pos: position{line: 2876, col: 10, offset: 91003},
 																			run: (*parser).callonDocumentFragment536,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2872, col: 10, offset: 90900},
+																				pos:        position{line: 2876, col: 10, offset: 91003},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6642,28 +6646,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2894, col: 8, offset: 91298},
+																		pos: position{line: 2898, col: 8, offset: 91401},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2881, col: 12, offset: 91071},
+																				pos: position{line: 2885, col: 12, offset: 91174},
 																				run: (*parser).callonDocumentFragment539,
 																				expr: &choiceExpr{
-																					pos: position{line: 2881, col: 13, offset: 91072},
+																					pos: position{line: 2885, col: 13, offset: 91175},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 13, offset: 91072},
+																							pos:        position{line: 2885, col: 13, offset: 91175},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 20, offset: 91079},
+																							pos:        position{line: 2885, col: 20, offset: 91182},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 29, offset: 91088},
+																							pos:        position{line: 2885, col: 29, offset: 91191},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6672,9 +6676,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2891, col: 8, offset: 91248},
+																				pos: position{line: 2895, col: 8, offset: 91351},
 																				expr: &anyMatcher{
-																					line: 2891, col: 9, offset: 91249,
+																					line: 2895, col: 9, offset: 91352,
 																				},
 																			},
 																		},
@@ -6746,10 +6750,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 784, col: 8, offset: 25206},
 																												expr: &actionExpr{
-																													pos: position{line: 2872, col: 10, offset: 90900},
+																													pos: position{line: 2876, col: 10, offset: 91003},
 																													run: (*parser).callonDocumentFragment564,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2872, col: 10, offset: 90900},
+																														pos:        position{line: 2876, col: 10, offset: 91003},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6758,28 +6762,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2894, col: 8, offset: 91298},
+																												pos: position{line: 2898, col: 8, offset: 91401},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2881, col: 12, offset: 91071},
+																														pos: position{line: 2885, col: 12, offset: 91174},
 																														run: (*parser).callonDocumentFragment567,
 																														expr: &choiceExpr{
-																															pos: position{line: 2881, col: 13, offset: 91072},
+																															pos: position{line: 2885, col: 13, offset: 91175},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2881, col: 13, offset: 91072},
+																																	pos:        position{line: 2885, col: 13, offset: 91175},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2881, col: 20, offset: 91079},
+																																	pos:        position{line: 2885, col: 20, offset: 91182},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2881, col: 29, offset: 91088},
+																																	pos:        position{line: 2885, col: 29, offset: 91191},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6788,9 +6792,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2891, col: 8, offset: 91248},
+																														pos: position{line: 2895, col: 8, offset: 91351},
 																														expr: &anyMatcher{
-																															line: 2891, col: 9, offset: 91249,
+																															line: 2895, col: 9, offset: 91352,
 																														},
 																													},
 																												},
@@ -6806,9 +6810,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2891, col: 8, offset: 91248},
+																						pos: position{line: 2895, col: 8, offset: 91351},
 																						expr: &anyMatcher{
-																							line: 2891, col: 9, offset: 91249,
+																							line: 2895, col: 9, offset: 91352,
 																						},
 																					},
 																				},
@@ -6824,21 +6828,21 @@ var g = &grammar{
 																					pos: position{line: 810, col: 5, offset: 26100},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2889, col: 11, offset: 91234},
+																							pos: position{line: 2893, col: 11, offset: 91337},
 																							expr: &anyMatcher{
-																								line: 2889, col: 13, offset: 91236,
+																								line: 2893, col: 13, offset: 91339,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 811, col: 5, offset: 26175},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2818, col: 13, offset: 89426},
+																								pos: position{line: 2822, col: 13, offset: 89529},
 																								run: (*parser).callonDocumentFragment583,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2818, col: 13, offset: 89426},
+																									pos: position{line: 2822, col: 13, offset: 89529},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2818, col: 13, offset: 89426},
+																										pos:        position{line: 2822, col: 13, offset: 89529},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6848,28 +6852,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2894, col: 8, offset: 91298},
+																							pos: position{line: 2898, col: 8, offset: 91401},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2881, col: 12, offset: 91071},
+																									pos: position{line: 2885, col: 12, offset: 91174},
 																									run: (*parser).callonDocumentFragment587,
 																									expr: &choiceExpr{
-																										pos: position{line: 2881, col: 13, offset: 91072},
+																										pos: position{line: 2885, col: 13, offset: 91175},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 13, offset: 91072},
+																												pos:        position{line: 2885, col: 13, offset: 91175},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 20, offset: 91079},
+																												pos:        position{line: 2885, col: 20, offset: 91182},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 29, offset: 91088},
+																												pos:        position{line: 2885, col: 29, offset: 91191},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6878,9 +6882,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2891, col: 8, offset: 91248},
+																									pos: position{line: 2895, col: 8, offset: 91351},
 																									expr: &anyMatcher{
-																										line: 2891, col: 9, offset: 91249,
+																										line: 2895, col: 9, offset: 91352,
 																									},
 																								},
 																							},
@@ -6945,10 +6949,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 784, col: 8, offset: 25206},
 																								expr: &actionExpr{
-																									pos: position{line: 2872, col: 10, offset: 90900},
+																									pos: position{line: 2876, col: 10, offset: 91003},
 																									run: (*parser).callonDocumentFragment608,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2872, col: 10, offset: 90900},
+																										pos:        position{line: 2876, col: 10, offset: 91003},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6957,28 +6961,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2894, col: 8, offset: 91298},
+																								pos: position{line: 2898, col: 8, offset: 91401},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2881, col: 12, offset: 91071},
+																										pos: position{line: 2885, col: 12, offset: 91174},
 																										run: (*parser).callonDocumentFragment611,
 																										expr: &choiceExpr{
-																											pos: position{line: 2881, col: 13, offset: 91072},
+																											pos: position{line: 2885, col: 13, offset: 91175},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2881, col: 13, offset: 91072},
+																													pos:        position{line: 2885, col: 13, offset: 91175},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2881, col: 20, offset: 91079},
+																													pos:        position{line: 2885, col: 20, offset: 91182},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2881, col: 29, offset: 91088},
+																													pos:        position{line: 2885, col: 29, offset: 91191},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6987,9 +6991,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2891, col: 8, offset: 91248},
+																										pos: position{line: 2895, col: 8, offset: 91351},
 																										expr: &anyMatcher{
-																											line: 2891, col: 9, offset: 91249,
+																											line: 2895, col: 9, offset: 91352,
 																										},
 																									},
 																								},
@@ -7005,9 +7009,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2891, col: 8, offset: 91248},
+																		pos: position{line: 2895, col: 8, offset: 91351},
 																		expr: &anyMatcher{
-																			line: 2891, col: 9, offset: 91249,
+																			line: 2895, col: 9, offset: 91352,
 																		},
 																	},
 																},
@@ -7041,18 +7045,18 @@ var g = &grammar{
 																				pos: position{line: 676, col: 14, offset: 21496},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2889, col: 11, offset: 91234},
+																						pos: position{line: 2893, col: 11, offset: 91337},
 																						expr: &anyMatcher{
-																							line: 2889, col: 13, offset: 91236,
+																							line: 2893, col: 13, offset: 91339,
 																						},
 																					},
 																					&zeroOrMoreExpr{
 																						pos: position{line: 676, col: 21, offset: 21503},
 																						expr: &actionExpr{
-																							pos: position{line: 2872, col: 10, offset: 90900},
+																							pos: position{line: 2876, col: 10, offset: 91003},
 																							run: (*parser).callonDocumentFragment632,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2872, col: 10, offset: 90900},
+																								pos:        position{line: 2876, col: 10, offset: 91003},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -7061,28 +7065,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2894, col: 8, offset: 91298},
+																						pos: position{line: 2898, col: 8, offset: 91401},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2881, col: 12, offset: 91071},
+																								pos: position{line: 2885, col: 12, offset: 91174},
 																								run: (*parser).callonDocumentFragment635,
 																								expr: &choiceExpr{
-																									pos: position{line: 2881, col: 13, offset: 91072},
+																									pos: position{line: 2885, col: 13, offset: 91175},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 13, offset: 91072},
+																											pos:        position{line: 2885, col: 13, offset: 91175},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 20, offset: 91079},
+																											pos:        position{line: 2885, col: 20, offset: 91182},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 29, offset: 91088},
+																											pos:        position{line: 2885, col: 29, offset: 91191},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -7091,9 +7095,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2891, col: 8, offset: 91248},
+																								pos: position{line: 2895, col: 8, offset: 91351},
 																								expr: &anyMatcher{
-																									line: 2891, col: 9, offset: 91249,
+																									line: 2895, col: 9, offset: 91352,
 																								},
 																							},
 																						},
@@ -7112,12 +7116,12 @@ var g = &grammar{
 																		pos:   position{line: 983, col: 5, offset: 30696},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2822, col: 14, offset: 89493},
+																			pos: position{line: 2826, col: 14, offset: 89596},
 																			run: (*parser).callonDocumentFragment644,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2822, col: 14, offset: 89493},
+																				pos: position{line: 2826, col: 14, offset: 89596},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2822, col: 14, offset: 89493},
+																					pos:        position{line: 2826, col: 14, offset: 89596},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -7127,28 +7131,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2894, col: 8, offset: 91298},
+																		pos: position{line: 2898, col: 8, offset: 91401},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2881, col: 12, offset: 91071},
+																				pos: position{line: 2885, col: 12, offset: 91174},
 																				run: (*parser).callonDocumentFragment648,
 																				expr: &choiceExpr{
-																					pos: position{line: 2881, col: 13, offset: 91072},
+																					pos: position{line: 2885, col: 13, offset: 91175},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 13, offset: 91072},
+																							pos:        position{line: 2885, col: 13, offset: 91175},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 20, offset: 91079},
+																							pos:        position{line: 2885, col: 20, offset: 91182},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 29, offset: 91088},
+																							pos:        position{line: 2885, col: 29, offset: 91191},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7157,9 +7161,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2891, col: 8, offset: 91248},
+																				pos: position{line: 2895, col: 8, offset: 91351},
 																				expr: &anyMatcher{
-																					line: 2891, col: 9, offset: 91249,
+																					line: 2895, col: 9, offset: 91352,
 																				},
 																			},
 																		},
@@ -7191,18 +7195,18 @@ var g = &grammar{
 																							pos: position{line: 676, col: 14, offset: 21496},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2889, col: 11, offset: 91234},
+																									pos: position{line: 2893, col: 11, offset: 91337},
 																									expr: &anyMatcher{
-																										line: 2889, col: 13, offset: 91236,
+																										line: 2893, col: 13, offset: 91339,
 																									},
 																								},
 																								&zeroOrMoreExpr{
 																									pos: position{line: 676, col: 21, offset: 21503},
 																									expr: &actionExpr{
-																										pos: position{line: 2872, col: 10, offset: 90900},
+																										pos: position{line: 2876, col: 10, offset: 91003},
 																										run: (*parser).callonDocumentFragment666,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2872, col: 10, offset: 90900},
+																											pos:        position{line: 2876, col: 10, offset: 91003},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7211,28 +7215,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2894, col: 8, offset: 91298},
+																									pos: position{line: 2898, col: 8, offset: 91401},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2881, col: 12, offset: 91071},
+																											pos: position{line: 2885, col: 12, offset: 91174},
 																											run: (*parser).callonDocumentFragment669,
 																											expr: &choiceExpr{
-																												pos: position{line: 2881, col: 13, offset: 91072},
+																												pos: position{line: 2885, col: 13, offset: 91175},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2881, col: 13, offset: 91072},
+																														pos:        position{line: 2885, col: 13, offset: 91175},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2881, col: 20, offset: 91079},
+																														pos:        position{line: 2885, col: 20, offset: 91182},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2881, col: 29, offset: 91088},
+																														pos:        position{line: 2885, col: 29, offset: 91191},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7241,9 +7245,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2891, col: 8, offset: 91248},
+																											pos: position{line: 2895, col: 8, offset: 91351},
 																											expr: &anyMatcher{
-																												line: 2891, col: 9, offset: 91249,
+																												line: 2895, col: 9, offset: 91352,
 																											},
 																										},
 																									},
@@ -7262,12 +7266,12 @@ var g = &grammar{
 																					pos:   position{line: 983, col: 5, offset: 30696},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2822, col: 14, offset: 89493},
+																						pos: position{line: 2826, col: 14, offset: 89596},
 																						run: (*parser).callonDocumentFragment678,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2822, col: 14, offset: 89493},
+																							pos: position{line: 2826, col: 14, offset: 89596},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2822, col: 14, offset: 89493},
+																								pos:        position{line: 2826, col: 14, offset: 89596},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7277,28 +7281,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2894, col: 8, offset: 91298},
+																					pos: position{line: 2898, col: 8, offset: 91401},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2881, col: 12, offset: 91071},
+																							pos: position{line: 2885, col: 12, offset: 91174},
 																							run: (*parser).callonDocumentFragment682,
 																							expr: &choiceExpr{
-																								pos: position{line: 2881, col: 13, offset: 91072},
+																								pos: position{line: 2885, col: 13, offset: 91175},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2881, col: 13, offset: 91072},
+																										pos:        position{line: 2885, col: 13, offset: 91175},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2881, col: 20, offset: 91079},
+																										pos:        position{line: 2885, col: 20, offset: 91182},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2881, col: 29, offset: 91088},
+																										pos:        position{line: 2885, col: 29, offset: 91191},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7307,9 +7311,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2891, col: 8, offset: 91248},
+																							pos: position{line: 2895, col: 8, offset: 91351},
 																							expr: &anyMatcher{
-																								line: 2891, col: 9, offset: 91249,
+																								line: 2895, col: 9, offset: 91352,
 																							},
 																						},
 																					},
@@ -7318,21 +7322,21 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 1791, col: 5, offset: 57974},
+																		pos: position{line: 1795, col: 5, offset: 58077},
 																		run: (*parser).callonDocumentFragment689,
 																		expr: &seqExpr{
-																			pos: position{line: 1791, col: 5, offset: 57974},
+																			pos: position{line: 1795, col: 5, offset: 58077},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1791, col: 5, offset: 57974},
+																					pos:   position{line: 1795, col: 5, offset: 58077},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2822, col: 14, offset: 89493},
+																						pos: position{line: 2826, col: 14, offset: 89596},
 																						run: (*parser).callonDocumentFragment692,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2822, col: 14, offset: 89493},
+																							pos: position{line: 2826, col: 14, offset: 89596},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2822, col: 14, offset: 89493},
+																								pos:        position{line: 2826, col: 14, offset: 89596},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7342,32 +7346,32 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1792, col: 5, offset: 57998},
+																					pos: position{line: 1796, col: 5, offset: 58101},
 																					run: (*parser).callonDocumentFragment695,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2894, col: 8, offset: 91298},
+																					pos: position{line: 2898, col: 8, offset: 91401},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2881, col: 12, offset: 91071},
+																							pos: position{line: 2885, col: 12, offset: 91174},
 																							run: (*parser).callonDocumentFragment697,
 																							expr: &choiceExpr{
-																								pos: position{line: 2881, col: 13, offset: 91072},
+																								pos: position{line: 2885, col: 13, offset: 91175},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2881, col: 13, offset: 91072},
+																										pos:        position{line: 2885, col: 13, offset: 91175},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2881, col: 20, offset: 91079},
+																										pos:        position{line: 2885, col: 20, offset: 91182},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2881, col: 29, offset: 91088},
+																										pos:        position{line: 2885, col: 29, offset: 91191},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7376,9 +7380,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2891, col: 8, offset: 91248},
+																							pos: position{line: 2895, col: 8, offset: 91351},
 																							expr: &anyMatcher{
-																								line: 2891, col: 9, offset: 91249,
+																								line: 2895, col: 9, offset: 91352,
 																							},
 																						},
 																					},
@@ -7425,10 +7429,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 777, col: 8, offset: 24961},
 																		expr: &actionExpr{
-																			pos: position{line: 2872, col: 10, offset: 90900},
+																			pos: position{line: 2876, col: 10, offset: 91003},
 																			run: (*parser).callonDocumentFragment713,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2872, col: 10, offset: 90900},
+																				pos:        position{line: 2876, col: 10, offset: 91003},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7437,28 +7441,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2894, col: 8, offset: 91298},
+																		pos: position{line: 2898, col: 8, offset: 91401},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2881, col: 12, offset: 91071},
+																				pos: position{line: 2885, col: 12, offset: 91174},
 																				run: (*parser).callonDocumentFragment716,
 																				expr: &choiceExpr{
-																					pos: position{line: 2881, col: 13, offset: 91072},
+																					pos: position{line: 2885, col: 13, offset: 91175},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 13, offset: 91072},
+																							pos:        position{line: 2885, col: 13, offset: 91175},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 20, offset: 91079},
+																							pos:        position{line: 2885, col: 20, offset: 91182},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 29, offset: 91088},
+																							pos:        position{line: 2885, col: 29, offset: 91191},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7467,9 +7471,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2891, col: 8, offset: 91248},
+																				pos: position{line: 2895, col: 8, offset: 91351},
 																				expr: &anyMatcher{
-																					line: 2891, col: 9, offset: 91249,
+																					line: 2895, col: 9, offset: 91352,
 																				},
 																			},
 																		},
@@ -7517,10 +7521,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 777, col: 8, offset: 24961},
 																									expr: &actionExpr{
-																										pos: position{line: 2872, col: 10, offset: 90900},
+																										pos: position{line: 2876, col: 10, offset: 91003},
 																										run: (*parser).callonDocumentFragment735,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2872, col: 10, offset: 90900},
+																											pos:        position{line: 2876, col: 10, offset: 91003},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7529,28 +7533,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2894, col: 8, offset: 91298},
+																									pos: position{line: 2898, col: 8, offset: 91401},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2881, col: 12, offset: 91071},
+																											pos: position{line: 2885, col: 12, offset: 91174},
 																											run: (*parser).callonDocumentFragment738,
 																											expr: &choiceExpr{
-																												pos: position{line: 2881, col: 13, offset: 91072},
+																												pos: position{line: 2885, col: 13, offset: 91175},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2881, col: 13, offset: 91072},
+																														pos:        position{line: 2885, col: 13, offset: 91175},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2881, col: 20, offset: 91079},
+																														pos:        position{line: 2885, col: 20, offset: 91182},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2881, col: 29, offset: 91088},
+																														pos:        position{line: 2885, col: 29, offset: 91191},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7559,9 +7563,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2891, col: 8, offset: 91248},
+																											pos: position{line: 2895, col: 8, offset: 91351},
 																											expr: &anyMatcher{
-																												line: 2891, col: 9, offset: 91249,
+																												line: 2895, col: 9, offset: 91352,
 																											},
 																										},
 																									},
@@ -7570,9 +7574,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2891, col: 8, offset: 91248},
+																						pos: position{line: 2895, col: 8, offset: 91351},
 																						expr: &anyMatcher{
-																							line: 2891, col: 9, offset: 91249,
+																							line: 2895, col: 9, offset: 91352,
 																						},
 																					},
 																				},
@@ -7588,21 +7592,21 @@ var g = &grammar{
 																					pos: position{line: 810, col: 5, offset: 26100},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2889, col: 11, offset: 91234},
+																							pos: position{line: 2893, col: 11, offset: 91337},
 																							expr: &anyMatcher{
-																								line: 2889, col: 13, offset: 91236,
+																								line: 2893, col: 13, offset: 91339,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 811, col: 5, offset: 26175},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2818, col: 13, offset: 89426},
+																								pos: position{line: 2822, col: 13, offset: 89529},
 																								run: (*parser).callonDocumentFragment753,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2818, col: 13, offset: 89426},
+																									pos: position{line: 2822, col: 13, offset: 89529},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2818, col: 13, offset: 89426},
+																										pos:        position{line: 2822, col: 13, offset: 89529},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7612,28 +7616,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2894, col: 8, offset: 91298},
+																							pos: position{line: 2898, col: 8, offset: 91401},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2881, col: 12, offset: 91071},
+																									pos: position{line: 2885, col: 12, offset: 91174},
 																									run: (*parser).callonDocumentFragment757,
 																									expr: &choiceExpr{
-																										pos: position{line: 2881, col: 13, offset: 91072},
+																										pos: position{line: 2885, col: 13, offset: 91175},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 13, offset: 91072},
+																												pos:        position{line: 2885, col: 13, offset: 91175},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 20, offset: 91079},
+																												pos:        position{line: 2885, col: 20, offset: 91182},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 29, offset: 91088},
+																												pos:        position{line: 2885, col: 29, offset: 91191},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7642,9 +7646,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2891, col: 8, offset: 91248},
+																									pos: position{line: 2895, col: 8, offset: 91351},
 																									expr: &anyMatcher{
-																										line: 2891, col: 9, offset: 91249,
+																										line: 2895, col: 9, offset: 91352,
 																									},
 																								},
 																							},
@@ -7689,10 +7693,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 777, col: 8, offset: 24961},
 																					expr: &actionExpr{
-																						pos: position{line: 2872, col: 10, offset: 90900},
+																						pos: position{line: 2876, col: 10, offset: 91003},
 																						run: (*parser).callonDocumentFragment773,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2872, col: 10, offset: 90900},
+																							pos:        position{line: 2876, col: 10, offset: 91003},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7701,28 +7705,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2894, col: 8, offset: 91298},
+																					pos: position{line: 2898, col: 8, offset: 91401},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2881, col: 12, offset: 91071},
+																							pos: position{line: 2885, col: 12, offset: 91174},
 																							run: (*parser).callonDocumentFragment776,
 																							expr: &choiceExpr{
-																								pos: position{line: 2881, col: 13, offset: 91072},
+																								pos: position{line: 2885, col: 13, offset: 91175},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2881, col: 13, offset: 91072},
+																										pos:        position{line: 2885, col: 13, offset: 91175},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2881, col: 20, offset: 91079},
+																										pos:        position{line: 2885, col: 20, offset: 91182},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2881, col: 29, offset: 91088},
+																										pos:        position{line: 2885, col: 29, offset: 91191},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7731,9 +7735,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2891, col: 8, offset: 91248},
+																							pos: position{line: 2895, col: 8, offset: 91351},
 																							expr: &anyMatcher{
-																								line: 2891, col: 9, offset: 91249,
+																								line: 2895, col: 9, offset: 91352,
 																							},
 																						},
 																					},
@@ -7742,9 +7746,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2891, col: 8, offset: 91248},
+																		pos: position{line: 2895, col: 8, offset: 91351},
 																		expr: &anyMatcher{
-																			line: 2891, col: 9, offset: 91249,
+																			line: 2895, col: 9, offset: 91352,
 																		},
 																	},
 																},
@@ -7800,10 +7804,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 791, col: 8, offset: 25458},
 																		expr: &actionExpr{
-																			pos: position{line: 2872, col: 10, offset: 90900},
+																			pos: position{line: 2876, col: 10, offset: 91003},
 																			run: (*parser).callonDocumentFragment797,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2872, col: 10, offset: 90900},
+																				pos:        position{line: 2876, col: 10, offset: 91003},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7812,28 +7816,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2894, col: 8, offset: 91298},
+																		pos: position{line: 2898, col: 8, offset: 91401},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2881, col: 12, offset: 91071},
+																				pos: position{line: 2885, col: 12, offset: 91174},
 																				run: (*parser).callonDocumentFragment800,
 																				expr: &choiceExpr{
-																					pos: position{line: 2881, col: 13, offset: 91072},
+																					pos: position{line: 2885, col: 13, offset: 91175},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 13, offset: 91072},
+																							pos:        position{line: 2885, col: 13, offset: 91175},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 20, offset: 91079},
+																							pos:        position{line: 2885, col: 20, offset: 91182},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 29, offset: 91088},
+																							pos:        position{line: 2885, col: 29, offset: 91191},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7842,9 +7846,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2891, col: 8, offset: 91248},
+																				pos: position{line: 2895, col: 8, offset: 91351},
 																				expr: &anyMatcher{
-																					line: 2891, col: 9, offset: 91249,
+																					line: 2895, col: 9, offset: 91352,
 																				},
 																			},
 																		},
@@ -7916,10 +7920,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 791, col: 8, offset: 25458},
 																												expr: &actionExpr{
-																													pos: position{line: 2872, col: 10, offset: 90900},
+																													pos: position{line: 2876, col: 10, offset: 91003},
 																													run: (*parser).callonDocumentFragment825,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2872, col: 10, offset: 90900},
+																														pos:        position{line: 2876, col: 10, offset: 91003},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7928,28 +7932,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2894, col: 8, offset: 91298},
+																												pos: position{line: 2898, col: 8, offset: 91401},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2881, col: 12, offset: 91071},
+																														pos: position{line: 2885, col: 12, offset: 91174},
 																														run: (*parser).callonDocumentFragment828,
 																														expr: &choiceExpr{
-																															pos: position{line: 2881, col: 13, offset: 91072},
+																															pos: position{line: 2885, col: 13, offset: 91175},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2881, col: 13, offset: 91072},
+																																	pos:        position{line: 2885, col: 13, offset: 91175},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2881, col: 20, offset: 91079},
+																																	pos:        position{line: 2885, col: 20, offset: 91182},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2881, col: 29, offset: 91088},
+																																	pos:        position{line: 2885, col: 29, offset: 91191},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7958,9 +7962,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2891, col: 8, offset: 91248},
+																														pos: position{line: 2895, col: 8, offset: 91351},
 																														expr: &anyMatcher{
-																															line: 2891, col: 9, offset: 91249,
+																															line: 2895, col: 9, offset: 91352,
 																														},
 																													},
 																												},
@@ -7976,9 +7980,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2891, col: 8, offset: 91248},
+																						pos: position{line: 2895, col: 8, offset: 91351},
 																						expr: &anyMatcher{
-																							line: 2891, col: 9, offset: 91249,
+																							line: 2895, col: 9, offset: 91352,
 																						},
 																					},
 																				},
@@ -7994,21 +7998,21 @@ var g = &grammar{
 																					pos: position{line: 810, col: 5, offset: 26100},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2889, col: 11, offset: 91234},
+																							pos: position{line: 2893, col: 11, offset: 91337},
 																							expr: &anyMatcher{
-																								line: 2889, col: 13, offset: 91236,
+																								line: 2893, col: 13, offset: 91339,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 811, col: 5, offset: 26175},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2818, col: 13, offset: 89426},
+																								pos: position{line: 2822, col: 13, offset: 89529},
 																								run: (*parser).callonDocumentFragment844,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2818, col: 13, offset: 89426},
+																									pos: position{line: 2822, col: 13, offset: 89529},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2818, col: 13, offset: 89426},
+																										pos:        position{line: 2822, col: 13, offset: 89529},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8018,28 +8022,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2894, col: 8, offset: 91298},
+																							pos: position{line: 2898, col: 8, offset: 91401},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2881, col: 12, offset: 91071},
+																									pos: position{line: 2885, col: 12, offset: 91174},
 																									run: (*parser).callonDocumentFragment848,
 																									expr: &choiceExpr{
-																										pos: position{line: 2881, col: 13, offset: 91072},
+																										pos: position{line: 2885, col: 13, offset: 91175},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 13, offset: 91072},
+																												pos:        position{line: 2885, col: 13, offset: 91175},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 20, offset: 91079},
+																												pos:        position{line: 2885, col: 20, offset: 91182},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 29, offset: 91088},
+																												pos:        position{line: 2885, col: 29, offset: 91191},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8048,9 +8052,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2891, col: 8, offset: 91248},
+																									pos: position{line: 2895, col: 8, offset: 91351},
 																									expr: &anyMatcher{
-																										line: 2891, col: 9, offset: 91249,
+																										line: 2895, col: 9, offset: 91352,
 																									},
 																								},
 																							},
@@ -8115,10 +8119,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 791, col: 8, offset: 25458},
 																								expr: &actionExpr{
-																									pos: position{line: 2872, col: 10, offset: 90900},
+																									pos: position{line: 2876, col: 10, offset: 91003},
 																									run: (*parser).callonDocumentFragment869,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2872, col: 10, offset: 90900},
+																										pos:        position{line: 2876, col: 10, offset: 91003},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8127,28 +8131,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2894, col: 8, offset: 91298},
+																								pos: position{line: 2898, col: 8, offset: 91401},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2881, col: 12, offset: 91071},
+																										pos: position{line: 2885, col: 12, offset: 91174},
 																										run: (*parser).callonDocumentFragment872,
 																										expr: &choiceExpr{
-																											pos: position{line: 2881, col: 13, offset: 91072},
+																											pos: position{line: 2885, col: 13, offset: 91175},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2881, col: 13, offset: 91072},
+																													pos:        position{line: 2885, col: 13, offset: 91175},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2881, col: 20, offset: 91079},
+																													pos:        position{line: 2885, col: 20, offset: 91182},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2881, col: 29, offset: 91088},
+																													pos:        position{line: 2885, col: 29, offset: 91191},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8157,9 +8161,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2891, col: 8, offset: 91248},
+																										pos: position{line: 2895, col: 8, offset: 91351},
 																										expr: &anyMatcher{
-																											line: 2891, col: 9, offset: 91249,
+																											line: 2895, col: 9, offset: 91352,
 																										},
 																									},
 																								},
@@ -8175,9 +8179,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2891, col: 8, offset: 91248},
+																		pos: position{line: 2895, col: 8, offset: 91351},
 																		expr: &anyMatcher{
-																			line: 2891, col: 9, offset: 91249,
+																			line: 2895, col: 9, offset: 91352,
 																		},
 																	},
 																},
@@ -8233,10 +8237,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 798, col: 8, offset: 25708},
 																		expr: &actionExpr{
-																			pos: position{line: 2872, col: 10, offset: 90900},
+																			pos: position{line: 2876, col: 10, offset: 91003},
 																			run: (*parser).callonDocumentFragment894,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2872, col: 10, offset: 90900},
+																				pos:        position{line: 2876, col: 10, offset: 91003},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8245,28 +8249,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2894, col: 8, offset: 91298},
+																		pos: position{line: 2898, col: 8, offset: 91401},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2881, col: 12, offset: 91071},
+																				pos: position{line: 2885, col: 12, offset: 91174},
 																				run: (*parser).callonDocumentFragment897,
 																				expr: &choiceExpr{
-																					pos: position{line: 2881, col: 13, offset: 91072},
+																					pos: position{line: 2885, col: 13, offset: 91175},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 13, offset: 91072},
+																							pos:        position{line: 2885, col: 13, offset: 91175},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 20, offset: 91079},
+																							pos:        position{line: 2885, col: 20, offset: 91182},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 29, offset: 91088},
+																							pos:        position{line: 2885, col: 29, offset: 91191},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8275,9 +8279,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2891, col: 8, offset: 91248},
+																				pos: position{line: 2895, col: 8, offset: 91351},
 																				expr: &anyMatcher{
-																					line: 2891, col: 9, offset: 91249,
+																					line: 2895, col: 9, offset: 91352,
 																				},
 																			},
 																		},
@@ -8349,10 +8353,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 798, col: 8, offset: 25708},
 																												expr: &actionExpr{
-																													pos: position{line: 2872, col: 10, offset: 90900},
+																													pos: position{line: 2876, col: 10, offset: 91003},
 																													run: (*parser).callonDocumentFragment922,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2872, col: 10, offset: 90900},
+																														pos:        position{line: 2876, col: 10, offset: 91003},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8361,28 +8365,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2894, col: 8, offset: 91298},
+																												pos: position{line: 2898, col: 8, offset: 91401},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2881, col: 12, offset: 91071},
+																														pos: position{line: 2885, col: 12, offset: 91174},
 																														run: (*parser).callonDocumentFragment925,
 																														expr: &choiceExpr{
-																															pos: position{line: 2881, col: 13, offset: 91072},
+																															pos: position{line: 2885, col: 13, offset: 91175},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2881, col: 13, offset: 91072},
+																																	pos:        position{line: 2885, col: 13, offset: 91175},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2881, col: 20, offset: 91079},
+																																	pos:        position{line: 2885, col: 20, offset: 91182},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2881, col: 29, offset: 91088},
+																																	pos:        position{line: 2885, col: 29, offset: 91191},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8391,9 +8395,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2891, col: 8, offset: 91248},
+																														pos: position{line: 2895, col: 8, offset: 91351},
 																														expr: &anyMatcher{
-																															line: 2891, col: 9, offset: 91249,
+																															line: 2895, col: 9, offset: 91352,
 																														},
 																													},
 																												},
@@ -8409,9 +8413,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2891, col: 8, offset: 91248},
+																						pos: position{line: 2895, col: 8, offset: 91351},
 																						expr: &anyMatcher{
-																							line: 2891, col: 9, offset: 91249,
+																							line: 2895, col: 9, offset: 91352,
 																						},
 																					},
 																				},
@@ -8427,21 +8431,21 @@ var g = &grammar{
 																					pos: position{line: 810, col: 5, offset: 26100},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2889, col: 11, offset: 91234},
+																							pos: position{line: 2893, col: 11, offset: 91337},
 																							expr: &anyMatcher{
-																								line: 2889, col: 13, offset: 91236,
+																								line: 2893, col: 13, offset: 91339,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 811, col: 5, offset: 26175},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2818, col: 13, offset: 89426},
+																								pos: position{line: 2822, col: 13, offset: 89529},
 																								run: (*parser).callonDocumentFragment941,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2818, col: 13, offset: 89426},
+																									pos: position{line: 2822, col: 13, offset: 89529},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2818, col: 13, offset: 89426},
+																										pos:        position{line: 2822, col: 13, offset: 89529},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8451,28 +8455,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2894, col: 8, offset: 91298},
+																							pos: position{line: 2898, col: 8, offset: 91401},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2881, col: 12, offset: 91071},
+																									pos: position{line: 2885, col: 12, offset: 91174},
 																									run: (*parser).callonDocumentFragment945,
 																									expr: &choiceExpr{
-																										pos: position{line: 2881, col: 13, offset: 91072},
+																										pos: position{line: 2885, col: 13, offset: 91175},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 13, offset: 91072},
+																												pos:        position{line: 2885, col: 13, offset: 91175},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 20, offset: 91079},
+																												pos:        position{line: 2885, col: 20, offset: 91182},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 29, offset: 91088},
+																												pos:        position{line: 2885, col: 29, offset: 91191},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8481,9 +8485,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2891, col: 8, offset: 91248},
+																									pos: position{line: 2895, col: 8, offset: 91351},
 																									expr: &anyMatcher{
-																										line: 2891, col: 9, offset: 91249,
+																										line: 2895, col: 9, offset: 91352,
 																									},
 																								},
 																							},
@@ -8548,10 +8552,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 798, col: 8, offset: 25708},
 																								expr: &actionExpr{
-																									pos: position{line: 2872, col: 10, offset: 90900},
+																									pos: position{line: 2876, col: 10, offset: 91003},
 																									run: (*parser).callonDocumentFragment966,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2872, col: 10, offset: 90900},
+																										pos:        position{line: 2876, col: 10, offset: 91003},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8560,28 +8564,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2894, col: 8, offset: 91298},
+																								pos: position{line: 2898, col: 8, offset: 91401},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2881, col: 12, offset: 91071},
+																										pos: position{line: 2885, col: 12, offset: 91174},
 																										run: (*parser).callonDocumentFragment969,
 																										expr: &choiceExpr{
-																											pos: position{line: 2881, col: 13, offset: 91072},
+																											pos: position{line: 2885, col: 13, offset: 91175},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2881, col: 13, offset: 91072},
+																													pos:        position{line: 2885, col: 13, offset: 91175},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2881, col: 20, offset: 91079},
+																													pos:        position{line: 2885, col: 20, offset: 91182},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2881, col: 29, offset: 91088},
+																													pos:        position{line: 2885, col: 29, offset: 91191},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8590,9 +8594,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2891, col: 8, offset: 91248},
+																										pos: position{line: 2895, col: 8, offset: 91351},
 																										expr: &anyMatcher{
-																											line: 2891, col: 9, offset: 91249,
+																											line: 2895, col: 9, offset: 91352,
 																										},
 																									},
 																								},
@@ -8608,9 +8612,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2891, col: 8, offset: 91248},
+																		pos: position{line: 2895, col: 8, offset: 91351},
 																		expr: &anyMatcher{
-																			line: 2891, col: 9, offset: 91249,
+																			line: 2895, col: 9, offset: 91352,
 																		},
 																	},
 																},
@@ -8666,10 +8670,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 805, col: 8, offset: 25954},
 																		expr: &actionExpr{
-																			pos: position{line: 2872, col: 10, offset: 90900},
+																			pos: position{line: 2876, col: 10, offset: 91003},
 																			run: (*parser).callonDocumentFragment991,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2872, col: 10, offset: 90900},
+																				pos:        position{line: 2876, col: 10, offset: 91003},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8678,28 +8682,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2894, col: 8, offset: 91298},
+																		pos: position{line: 2898, col: 8, offset: 91401},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2881, col: 12, offset: 91071},
+																				pos: position{line: 2885, col: 12, offset: 91174},
 																				run: (*parser).callonDocumentFragment994,
 																				expr: &choiceExpr{
-																					pos: position{line: 2881, col: 13, offset: 91072},
+																					pos: position{line: 2885, col: 13, offset: 91175},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 13, offset: 91072},
+																							pos:        position{line: 2885, col: 13, offset: 91175},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 20, offset: 91079},
+																							pos:        position{line: 2885, col: 20, offset: 91182},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 29, offset: 91088},
+																							pos:        position{line: 2885, col: 29, offset: 91191},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8708,9 +8712,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2891, col: 8, offset: 91248},
+																				pos: position{line: 2895, col: 8, offset: 91351},
 																				expr: &anyMatcher{
-																					line: 2891, col: 9, offset: 91249,
+																					line: 2895, col: 9, offset: 91352,
 																				},
 																			},
 																		},
@@ -8782,10 +8786,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 805, col: 8, offset: 25954},
 																												expr: &actionExpr{
-																													pos: position{line: 2872, col: 10, offset: 90900},
+																													pos: position{line: 2876, col: 10, offset: 91003},
 																													run: (*parser).callonDocumentFragment1019,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2872, col: 10, offset: 90900},
+																														pos:        position{line: 2876, col: 10, offset: 91003},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8794,28 +8798,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2894, col: 8, offset: 91298},
+																												pos: position{line: 2898, col: 8, offset: 91401},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2881, col: 12, offset: 91071},
+																														pos: position{line: 2885, col: 12, offset: 91174},
 																														run: (*parser).callonDocumentFragment1022,
 																														expr: &choiceExpr{
-																															pos: position{line: 2881, col: 13, offset: 91072},
+																															pos: position{line: 2885, col: 13, offset: 91175},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2881, col: 13, offset: 91072},
+																																	pos:        position{line: 2885, col: 13, offset: 91175},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2881, col: 20, offset: 91079},
+																																	pos:        position{line: 2885, col: 20, offset: 91182},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2881, col: 29, offset: 91088},
+																																	pos:        position{line: 2885, col: 29, offset: 91191},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8824,9 +8828,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2891, col: 8, offset: 91248},
+																														pos: position{line: 2895, col: 8, offset: 91351},
 																														expr: &anyMatcher{
-																															line: 2891, col: 9, offset: 91249,
+																															line: 2895, col: 9, offset: 91352,
 																														},
 																													},
 																												},
@@ -8842,9 +8846,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2891, col: 8, offset: 91248},
+																						pos: position{line: 2895, col: 8, offset: 91351},
 																						expr: &anyMatcher{
-																							line: 2891, col: 9, offset: 91249,
+																							line: 2895, col: 9, offset: 91352,
 																						},
 																					},
 																				},
@@ -8860,21 +8864,21 @@ var g = &grammar{
 																					pos: position{line: 810, col: 5, offset: 26100},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2889, col: 11, offset: 91234},
+																							pos: position{line: 2893, col: 11, offset: 91337},
 																							expr: &anyMatcher{
-																								line: 2889, col: 13, offset: 91236,
+																								line: 2893, col: 13, offset: 91339,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 811, col: 5, offset: 26175},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2818, col: 13, offset: 89426},
+																								pos: position{line: 2822, col: 13, offset: 89529},
 																								run: (*parser).callonDocumentFragment1038,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2818, col: 13, offset: 89426},
+																									pos: position{line: 2822, col: 13, offset: 89529},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2818, col: 13, offset: 89426},
+																										pos:        position{line: 2822, col: 13, offset: 89529},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8884,28 +8888,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2894, col: 8, offset: 91298},
+																							pos: position{line: 2898, col: 8, offset: 91401},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2881, col: 12, offset: 91071},
+																									pos: position{line: 2885, col: 12, offset: 91174},
 																									run: (*parser).callonDocumentFragment1042,
 																									expr: &choiceExpr{
-																										pos: position{line: 2881, col: 13, offset: 91072},
+																										pos: position{line: 2885, col: 13, offset: 91175},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 13, offset: 91072},
+																												pos:        position{line: 2885, col: 13, offset: 91175},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 20, offset: 91079},
+																												pos:        position{line: 2885, col: 20, offset: 91182},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 29, offset: 91088},
+																												pos:        position{line: 2885, col: 29, offset: 91191},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8914,9 +8918,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2891, col: 8, offset: 91248},
+																									pos: position{line: 2895, col: 8, offset: 91351},
 																									expr: &anyMatcher{
-																										line: 2891, col: 9, offset: 91249,
+																										line: 2895, col: 9, offset: 91352,
 																									},
 																								},
 																							},
@@ -8981,10 +8985,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 805, col: 8, offset: 25954},
 																								expr: &actionExpr{
-																									pos: position{line: 2872, col: 10, offset: 90900},
+																									pos: position{line: 2876, col: 10, offset: 91003},
 																									run: (*parser).callonDocumentFragment1063,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2872, col: 10, offset: 90900},
+																										pos:        position{line: 2876, col: 10, offset: 91003},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8993,28 +8997,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2894, col: 8, offset: 91298},
+																								pos: position{line: 2898, col: 8, offset: 91401},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2881, col: 12, offset: 91071},
+																										pos: position{line: 2885, col: 12, offset: 91174},
 																										run: (*parser).callonDocumentFragment1066,
 																										expr: &choiceExpr{
-																											pos: position{line: 2881, col: 13, offset: 91072},
+																											pos: position{line: 2885, col: 13, offset: 91175},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2881, col: 13, offset: 91072},
+																													pos:        position{line: 2885, col: 13, offset: 91175},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2881, col: 20, offset: 91079},
+																													pos:        position{line: 2885, col: 20, offset: 91182},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2881, col: 29, offset: 91088},
+																													pos:        position{line: 2885, col: 29, offset: 91191},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -9023,9 +9027,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2891, col: 8, offset: 91248},
+																										pos: position{line: 2895, col: 8, offset: 91351},
 																										expr: &anyMatcher{
-																											line: 2891, col: 9, offset: 91249,
+																											line: 2895, col: 9, offset: 91352,
 																										},
 																									},
 																								},
@@ -9041,9 +9045,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2891, col: 8, offset: 91248},
+																		pos: position{line: 2895, col: 8, offset: 91351},
 																		expr: &anyMatcher{
-																			line: 2891, col: 9, offset: 91249,
+																			line: 2895, col: 9, offset: 91352,
 																		},
 																	},
 																},
@@ -9054,52 +9058,52 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2717, col: 18, offset: 86474},
+											pos: position{line: 2721, col: 18, offset: 86577},
 											run: (*parser).callonDocumentFragment1076,
 											expr: &seqExpr{
-												pos: position{line: 2717, col: 18, offset: 86474},
+												pos: position{line: 2721, col: 18, offset: 86577},
 												exprs: []interface{}{
 													&choiceExpr{
-														pos: position{line: 2718, col: 9, offset: 86484},
+														pos: position{line: 2722, col: 9, offset: 86587},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2718, col: 9, offset: 86484},
+																pos:        position{line: 2722, col: 9, offset: 86587},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2719, col: 11, offset: 86520},
+																pos:        position{line: 2723, col: 11, offset: 86623},
 																val:        "***",
 																ignoreCase: false,
 																want:       "\"***\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2719, col: 19, offset: 86528},
+																pos:        position{line: 2723, col: 19, offset: 86631},
 																val:        "* * *",
 																ignoreCase: false,
 																want:       "\"* * *\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2719, col: 29, offset: 86538},
+																pos:        position{line: 2723, col: 29, offset: 86641},
 																val:        "---",
 																ignoreCase: false,
 																want:       "\"---\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2719, col: 37, offset: 86546},
+																pos:        position{line: 2723, col: 37, offset: 86649},
 																val:        "- - -",
 																ignoreCase: false,
 																want:       "\"- - -\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2719, col: 47, offset: 86556},
+																pos:        position{line: 2723, col: 47, offset: 86659},
 																val:        "___",
 																ignoreCase: false,
 																want:       "\"___\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2719, col: 55, offset: 86564},
+																pos:        position{line: 2723, col: 55, offset: 86667},
 																val:        "_ _ _",
 																ignoreCase: false,
 																want:       "\"_ _ _\"",
@@ -9107,12 +9111,12 @@ var g = &grammar{
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2720, col: 11, offset: 86610},
+														pos: position{line: 2724, col: 11, offset: 86713},
 														expr: &actionExpr{
-															pos: position{line: 2872, col: 10, offset: 90900},
+															pos: position{line: 2876, col: 10, offset: 91003},
 															run: (*parser).callonDocumentFragment1087,
 															expr: &charClassMatcher{
-																pos:        position{line: 2872, col: 10, offset: 90900},
+																pos:        position{line: 2876, col: 10, offset: 91003},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9121,28 +9125,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2894, col: 8, offset: 91298},
+														pos: position{line: 2898, col: 8, offset: 91401},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2881, col: 12, offset: 91071},
+																pos: position{line: 2885, col: 12, offset: 91174},
 																run: (*parser).callonDocumentFragment1090,
 																expr: &choiceExpr{
-																	pos: position{line: 2881, col: 13, offset: 91072},
+																	pos: position{line: 2885, col: 13, offset: 91175},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2881, col: 13, offset: 91072},
+																			pos:        position{line: 2885, col: 13, offset: 91175},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2881, col: 20, offset: 91079},
+																			pos:        position{line: 2885, col: 20, offset: 91182},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2881, col: 29, offset: 91088},
+																			pos:        position{line: 2885, col: 29, offset: 91191},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9151,20 +9155,20 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2891, col: 8, offset: 91248},
+																pos: position{line: 2895, col: 8, offset: 91351},
 																expr: &anyMatcher{
-																	line: 2891, col: 9, offset: 91249,
+																	line: 2895, col: 9, offset: 91352,
 																},
 															},
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2720, col: 22, offset: 86621},
+														pos: position{line: 2724, col: 22, offset: 86724},
 														expr: &actionExpr{
-															pos: position{line: 2872, col: 10, offset: 90900},
+															pos: position{line: 2876, col: 10, offset: 91003},
 															run: (*parser).callonDocumentFragment1098,
 															expr: &charClassMatcher{
-																pos:        position{line: 2872, col: 10, offset: 90900},
+																pos:        position{line: 2876, col: 10, offset: 91003},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9173,28 +9177,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2894, col: 8, offset: 91298},
+														pos: position{line: 2898, col: 8, offset: 91401},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2881, col: 12, offset: 91071},
+																pos: position{line: 2885, col: 12, offset: 91174},
 																run: (*parser).callonDocumentFragment1101,
 																expr: &choiceExpr{
-																	pos: position{line: 2881, col: 13, offset: 91072},
+																	pos: position{line: 2885, col: 13, offset: 91175},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2881, col: 13, offset: 91072},
+																			pos:        position{line: 2885, col: 13, offset: 91175},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2881, col: 20, offset: 91079},
+																			pos:        position{line: 2885, col: 20, offset: 91182},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2881, col: 29, offset: 91088},
+																			pos:        position{line: 2885, col: 29, offset: 91191},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9203,9 +9207,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2891, col: 8, offset: 91248},
+																pos: position{line: 2895, col: 8, offset: 91351},
 																expr: &anyMatcher{
-																	line: 2891, col: 9, offset: 91249,
+																	line: 2895, col: 9, offset: 91352,
 																},
 															},
 														},
@@ -9218,24 +9222,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2608, col: 5, offset: 83410},
+											pos: position{line: 2612, col: 5, offset: 83513},
 											run: (*parser).callonDocumentFragment1109,
 											expr: &seqExpr{
-												pos: position{line: 2608, col: 5, offset: 83410},
+												pos: position{line: 2612, col: 5, offset: 83513},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2614, col: 19, offset: 83567},
+														pos:        position{line: 2618, col: 19, offset: 83670},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2614, col: 26, offset: 83574},
+														pos: position{line: 2618, col: 26, offset: 83677},
 														expr: &actionExpr{
-															pos: position{line: 2872, col: 10, offset: 90900},
+															pos: position{line: 2876, col: 10, offset: 91003},
 															run: (*parser).callonDocumentFragment1113,
 															expr: &charClassMatcher{
-																pos:        position{line: 2872, col: 10, offset: 90900},
+																pos:        position{line: 2876, col: 10, offset: 91003},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9244,28 +9248,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2894, col: 8, offset: 91298},
+														pos: position{line: 2898, col: 8, offset: 91401},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2881, col: 12, offset: 91071},
+																pos: position{line: 2885, col: 12, offset: 91174},
 																run: (*parser).callonDocumentFragment1116,
 																expr: &choiceExpr{
-																	pos: position{line: 2881, col: 13, offset: 91072},
+																	pos: position{line: 2885, col: 13, offset: 91175},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2881, col: 13, offset: 91072},
+																			pos:        position{line: 2885, col: 13, offset: 91175},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2881, col: 20, offset: 91079},
+																			pos:        position{line: 2885, col: 20, offset: 91182},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2881, col: 29, offset: 91088},
+																			pos:        position{line: 2885, col: 29, offset: 91191},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9274,20 +9278,20 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2891, col: 8, offset: 91248},
+																pos: position{line: 2895, col: 8, offset: 91351},
 																expr: &anyMatcher{
-																	line: 2891, col: 9, offset: 91249,
+																	line: 2895, col: 9, offset: 91352,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2609, col: 5, offset: 83434},
+														pos:   position{line: 2613, col: 5, offset: 83537},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2609, col: 11, offset: 83440},
+															pos: position{line: 2613, col: 11, offset: 83543},
 															expr: &choiceExpr{
-																pos: position{line: 2609, col: 12, offset: 83441},
+																pos: position{line: 2613, col: 12, offset: 83544},
 																alternatives: []interface{}{
 																	&actionExpr{
 																		pos: position{line: 676, col: 14, offset: 21496},
@@ -9296,18 +9300,18 @@ var g = &grammar{
 																			pos: position{line: 676, col: 14, offset: 21496},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2889, col: 11, offset: 91234},
+																					pos: position{line: 2893, col: 11, offset: 91337},
 																					expr: &anyMatcher{
-																						line: 2889, col: 13, offset: 91236,
+																						line: 2893, col: 13, offset: 91339,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 676, col: 21, offset: 21503},
 																					expr: &actionExpr{
-																						pos: position{line: 2872, col: 10, offset: 90900},
+																						pos: position{line: 2876, col: 10, offset: 91003},
 																						run: (*parser).callonDocumentFragment1131,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2872, col: 10, offset: 90900},
+																							pos:        position{line: 2876, col: 10, offset: 91003},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9316,28 +9320,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2894, col: 8, offset: 91298},
+																					pos: position{line: 2898, col: 8, offset: 91401},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2881, col: 12, offset: 91071},
+																							pos: position{line: 2885, col: 12, offset: 91174},
 																							run: (*parser).callonDocumentFragment1134,
 																							expr: &choiceExpr{
-																								pos: position{line: 2881, col: 13, offset: 91072},
+																								pos: position{line: 2885, col: 13, offset: 91175},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2881, col: 13, offset: 91072},
+																										pos:        position{line: 2885, col: 13, offset: 91175},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2881, col: 20, offset: 91079},
+																										pos:        position{line: 2885, col: 20, offset: 91182},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2881, col: 29, offset: 91088},
+																										pos:        position{line: 2885, col: 29, offset: 91191},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9346,9 +9350,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2891, col: 8, offset: 91248},
+																							pos: position{line: 2895, col: 8, offset: 91351},
 																							expr: &anyMatcher{
-																								line: 2891, col: 9, offset: 91249,
+																								line: 2895, col: 9, offset: 91352,
 																							},
 																						},
 																					},
@@ -9357,32 +9361,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2621, col: 5, offset: 83686},
+																		pos: position{line: 2625, col: 5, offset: 83789},
 																		run: (*parser).callonDocumentFragment1141,
 																		expr: &seqExpr{
-																			pos: position{line: 2621, col: 5, offset: 83686},
+																			pos: position{line: 2625, col: 5, offset: 83789},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2621, col: 5, offset: 83686},
+																					pos: position{line: 2625, col: 5, offset: 83789},
 																					expr: &choiceExpr{
-																						pos: position{line: 2618, col: 22, offset: 83647},
+																						pos: position{line: 2622, col: 22, offset: 83750},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2614, col: 19, offset: 83567},
+																								pos: position{line: 2618, col: 19, offset: 83670},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2614, col: 19, offset: 83567},
+																										pos:        position{line: 2618, col: 19, offset: 83670},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2614, col: 26, offset: 83574},
+																										pos: position{line: 2618, col: 26, offset: 83677},
 																										expr: &actionExpr{
-																											pos: position{line: 2872, col: 10, offset: 90900},
+																											pos: position{line: 2876, col: 10, offset: 91003},
 																											run: (*parser).callonDocumentFragment1148,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2872, col: 10, offset: 90900},
+																												pos:        position{line: 2876, col: 10, offset: 91003},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9391,28 +9395,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2894, col: 8, offset: 91298},
+																										pos: position{line: 2898, col: 8, offset: 91401},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2881, col: 12, offset: 91071},
+																												pos: position{line: 2885, col: 12, offset: 91174},
 																												run: (*parser).callonDocumentFragment1151,
 																												expr: &choiceExpr{
-																													pos: position{line: 2881, col: 13, offset: 91072},
+																													pos: position{line: 2885, col: 13, offset: 91175},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2881, col: 13, offset: 91072},
+																															pos:        position{line: 2885, col: 13, offset: 91175},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2881, col: 20, offset: 91079},
+																															pos:        position{line: 2885, col: 20, offset: 91182},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2881, col: 29, offset: 91088},
+																															pos:        position{line: 2885, col: 29, offset: 91191},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9421,9 +9425,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2891, col: 8, offset: 91248},
+																												pos: position{line: 2895, col: 8, offset: 91351},
 																												expr: &anyMatcher{
-																													line: 2891, col: 9, offset: 91249,
+																													line: 2895, col: 9, offset: 91352,
 																												},
 																											},
 																										},
@@ -9431,59 +9435,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2891, col: 8, offset: 91248},
+																								pos: position{line: 2895, col: 8, offset: 91351},
 																								expr: &anyMatcher{
-																									line: 2891, col: 9, offset: 91249,
+																									line: 2895, col: 9, offset: 91352,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2622, col: 5, offset: 83709},
+																					pos:   position{line: 2626, col: 5, offset: 83812},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2623, col: 9, offset: 83727},
+																						pos: position{line: 2627, col: 9, offset: 83830},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2623, col: 10, offset: 83728},
+																								pos: position{line: 2627, col: 10, offset: 83831},
 																								run: (*parser).callonDocumentFragment1162,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2623, col: 10, offset: 83728},
+																									pos:   position{line: 2627, col: 10, offset: 83831},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2623, col: 17, offset: 83735},
+																										pos: position{line: 2627, col: 17, offset: 83838},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2631, col: 21, offset: 83931},
+																												pos: position{line: 2635, col: 21, offset: 84034},
 																												run: (*parser).callonDocumentFragment1165,
 																												expr: &seqExpr{
-																													pos: position{line: 2631, col: 21, offset: 83931},
+																													pos: position{line: 2635, col: 21, offset: 84034},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2631, col: 21, offset: 83931},
+																															pos:   position{line: 2635, col: 21, offset: 84034},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2631, col: 27, offset: 83937},
+																																pos: position{line: 2635, col: 27, offset: 84040},
 																																expr: &actionExpr{
-																																	pos: position{line: 2636, col: 5, offset: 84012},
+																																	pos: position{line: 2640, col: 5, offset: 84115},
 																																	run: (*parser).callonDocumentFragment1169,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2636, col: 5, offset: 84012},
+																																		pos: position{line: 2640, col: 5, offset: 84115},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2636, col: 5, offset: 84012},
+																																				pos:        position{line: 2640, col: 5, offset: 84115},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2636, col: 9, offset: 84016},
+																																				pos: position{line: 2640, col: 9, offset: 84119},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2872, col: 10, offset: 90900},
+																																					pos: position{line: 2876, col: 10, offset: 91003},
 																																					run: (*parser).callonDocumentFragment1173,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2872, col: 10, offset: 90900},
+																																						pos:        position{line: 2876, col: 10, offset: 91003},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9492,21 +9496,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2636, col: 16, offset: 84023},
+																																				pos:   position{line: 2640, col: 16, offset: 84126},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2642, col: 5, offset: 84223},
+																																					pos: position{line: 2646, col: 5, offset: 84326},
 																																					run: (*parser).callonDocumentFragment1176,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2642, col: 5, offset: 84223},
+																																						pos:   position{line: 2646, col: 5, offset: 84326},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2642, col: 14, offset: 84232},
+																																							pos: position{line: 2646, col: 14, offset: 84335},
 																																							run: (*parser).callonDocumentFragment1178,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2642, col: 14, offset: 84232},
+																																								pos: position{line: 2646, col: 14, offset: 84335},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2642, col: 14, offset: 84232},
+																																									pos:        position{line: 2646, col: 14, offset: 84335},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9523,28 +9527,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2894, col: 8, offset: 91298},
+																															pos: position{line: 2898, col: 8, offset: 91401},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2881, col: 12, offset: 91071},
+																																	pos: position{line: 2885, col: 12, offset: 91174},
 																																	run: (*parser).callonDocumentFragment1182,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2881, col: 13, offset: 91072},
+																																		pos: position{line: 2885, col: 13, offset: 91175},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2881, col: 13, offset: 91072},
+																																				pos:        position{line: 2885, col: 13, offset: 91175},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2881, col: 20, offset: 91079},
+																																				pos:        position{line: 2885, col: 20, offset: 91182},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2881, col: 29, offset: 91088},
+																																				pos:        position{line: 2885, col: 29, offset: 91191},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9553,9 +9557,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2891, col: 8, offset: 91248},
+																																	pos: position{line: 2895, col: 8, offset: 91351},
 																																	expr: &anyMatcher{
-																																		line: 2891, col: 9, offset: 91249,
+																																		line: 2895, col: 9, offset: 91352,
 																																	},
 																																},
 																															},
@@ -9564,40 +9568,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2648, col: 24, offset: 84368},
+																												pos: position{line: 2652, col: 24, offset: 84471},
 																												run: (*parser).callonDocumentFragment1189,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2648, col: 24, offset: 84368},
+																													pos:   position{line: 2652, col: 24, offset: 84471},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2648, col: 30, offset: 84374},
+																														pos: position{line: 2652, col: 30, offset: 84477},
 																														expr: &actionExpr{
-																															pos: position{line: 2653, col: 5, offset: 84450},
+																															pos: position{line: 2657, col: 5, offset: 84553},
 																															run: (*parser).callonDocumentFragment1192,
 																															expr: &seqExpr{
-																																pos: position{line: 2653, col: 5, offset: 84450},
+																																pos: position{line: 2657, col: 5, offset: 84553},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2653, col: 5, offset: 84450},
+																																		pos: position{line: 2657, col: 5, offset: 84553},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2618, col: 22, offset: 83647},
+																																			pos: position{line: 2622, col: 22, offset: 83750},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2614, col: 19, offset: 83567},
+																																					pos: position{line: 2618, col: 19, offset: 83670},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2614, col: 19, offset: 83567},
+																																							pos:        position{line: 2618, col: 19, offset: 83670},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2614, col: 26, offset: 83574},
+																																							pos: position{line: 2618, col: 26, offset: 83677},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2872, col: 10, offset: 90900},
+																																								pos: position{line: 2876, col: 10, offset: 91003},
 																																								run: (*parser).callonDocumentFragment1199,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2872, col: 10, offset: 90900},
+																																									pos:        position{line: 2876, col: 10, offset: 91003},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9606,28 +9610,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2894, col: 8, offset: 91298},
+																																							pos: position{line: 2898, col: 8, offset: 91401},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2881, col: 12, offset: 91071},
+																																									pos: position{line: 2885, col: 12, offset: 91174},
 																																									run: (*parser).callonDocumentFragment1202,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2881, col: 13, offset: 91072},
+																																										pos: position{line: 2885, col: 13, offset: 91175},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2881, col: 13, offset: 91072},
+																																												pos:        position{line: 2885, col: 13, offset: 91175},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2881, col: 20, offset: 91079},
+																																												pos:        position{line: 2885, col: 20, offset: 91182},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2881, col: 29, offset: 91088},
+																																												pos:        position{line: 2885, col: 29, offset: 91191},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9636,9 +9640,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2891, col: 8, offset: 91248},
+																																									pos: position{line: 2895, col: 8, offset: 91351},
 																																									expr: &anyMatcher{
-																																										line: 2891, col: 9, offset: 91249,
+																																										line: 2895, col: 9, offset: 91352,
 																																									},
 																																								},
 																																							},
@@ -9646,16 +9650,16 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2891, col: 8, offset: 91248},
+																																					pos: position{line: 2895, col: 8, offset: 91351},
 																																					expr: &anyMatcher{
-																																						line: 2891, col: 9, offset: 91249,
+																																						line: 2895, col: 9, offset: 91352,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2654, col: 5, offset: 84473},
+																																		pos: position{line: 2658, col: 5, offset: 84576},
 																																		expr: &actionExpr{
 																																			pos: position{line: 676, col: 14, offset: 21496},
 																																			run: (*parser).callonDocumentFragment1212,
@@ -9663,18 +9667,18 @@ var g = &grammar{
 																																				pos: position{line: 676, col: 14, offset: 21496},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2889, col: 11, offset: 91234},
+																																						pos: position{line: 2893, col: 11, offset: 91337},
 																																						expr: &anyMatcher{
-																																							line: 2889, col: 13, offset: 91236,
+																																							line: 2893, col: 13, offset: 91339,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
 																																						pos: position{line: 676, col: 21, offset: 21503},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2872, col: 10, offset: 90900},
+																																							pos: position{line: 2876, col: 10, offset: 91003},
 																																							run: (*parser).callonDocumentFragment1217,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2872, col: 10, offset: 90900},
+																																								pos:        position{line: 2876, col: 10, offset: 91003},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9683,28 +9687,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2894, col: 8, offset: 91298},
+																																						pos: position{line: 2898, col: 8, offset: 91401},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2881, col: 12, offset: 91071},
+																																								pos: position{line: 2885, col: 12, offset: 91174},
 																																								run: (*parser).callonDocumentFragment1220,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2881, col: 13, offset: 91072},
+																																									pos: position{line: 2885, col: 13, offset: 91175},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2881, col: 13, offset: 91072},
+																																											pos:        position{line: 2885, col: 13, offset: 91175},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2881, col: 20, offset: 91079},
+																																											pos:        position{line: 2885, col: 20, offset: 91182},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2881, col: 29, offset: 91088},
+																																											pos:        position{line: 2885, col: 29, offset: 91191},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9713,9 +9717,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2891, col: 8, offset: 91248},
+																																								pos: position{line: 2895, col: 8, offset: 91351},
 																																								expr: &anyMatcher{
-																																									line: 2891, col: 9, offset: 91249,
+																																									line: 2895, col: 9, offset: 91352,
 																																								},
 																																							},
 																																						},
@@ -9725,17 +9729,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2655, col: 5, offset: 84488},
+																																		pos:   position{line: 2659, col: 5, offset: 84591},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2655, col: 12, offset: 84495},
+																																			pos: position{line: 2659, col: 12, offset: 84598},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2672, col: 20, offset: 84959},
+																																				pos: position{line: 2676, col: 20, offset: 85062},
 																																				run: (*parser).callonDocumentFragment1229,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2672, col: 20, offset: 84959},
+																																					pos: position{line: 2676, col: 20, offset: 85062},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2672, col: 20, offset: 84959},
+																																						pos:        position{line: 2676, col: 20, offset: 85062},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9746,18 +9750,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2655, col: 31, offset: 84514},
+																																		pos:        position{line: 2659, col: 31, offset: 84617},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2655, col: 35, offset: 84518},
+																																		pos: position{line: 2659, col: 35, offset: 84621},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2872, col: 10, offset: 90900},
+																																			pos: position{line: 2876, col: 10, offset: 91003},
 																																			run: (*parser).callonDocumentFragment1234,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2872, col: 10, offset: 90900},
+																																				pos:        position{line: 2876, col: 10, offset: 91003},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9766,27 +9770,27 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2655, col: 42, offset: 84525},
+																																		pos: position{line: 2659, col: 42, offset: 84628},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2881, col: 12, offset: 91071},
+																																			pos: position{line: 2885, col: 12, offset: 91174},
 																																			run: (*parser).callonDocumentFragment1237,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2881, col: 13, offset: 91072},
+																																				pos: position{line: 2885, col: 13, offset: 91175},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2881, col: 13, offset: 91072},
+																																						pos:        position{line: 2885, col: 13, offset: 91175},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2881, col: 20, offset: 91079},
+																																						pos:        position{line: 2885, col: 20, offset: 91182},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2881, col: 29, offset: 91088},
+																																						pos:        position{line: 2885, col: 29, offset: 91191},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9796,37 +9800,37 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2655, col: 51, offset: 84534},
+																																		pos:   position{line: 2659, col: 51, offset: 84637},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2661, col: 5, offset: 84693},
+																																			pos: position{line: 2665, col: 5, offset: 84796},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2662, col: 9, offset: 84703},
+																																				pos: position{line: 2666, col: 9, offset: 84806},
 																																				run: (*parser).callonDocumentFragment1244,
 																																				expr: &seqExpr{
-																																					pos: position{line: 2662, col: 9, offset: 84703},
+																																					pos: position{line: 2666, col: 9, offset: 84806},
 																																					exprs: []interface{}{
 																																						&notExpr{
-																																							pos: position{line: 2662, col: 9, offset: 84703},
+																																							pos: position{line: 2666, col: 9, offset: 84806},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2618, col: 22, offset: 83647},
+																																								pos: position{line: 2622, col: 22, offset: 83750},
 																																								alternatives: []interface{}{
 																																									&seqExpr{
-																																										pos: position{line: 2614, col: 19, offset: 83567},
+																																										pos: position{line: 2618, col: 19, offset: 83670},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2614, col: 19, offset: 83567},
+																																												pos:        position{line: 2618, col: 19, offset: 83670},
 																																												val:        "|===",
 																																												ignoreCase: false,
 																																												want:       "\"|===\"",
 																																											},
 																																											&zeroOrMoreExpr{
-																																												pos: position{line: 2614, col: 26, offset: 83574},
+																																												pos: position{line: 2618, col: 26, offset: 83677},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2872, col: 10, offset: 90900},
+																																													pos: position{line: 2876, col: 10, offset: 91003},
 																																													run: (*parser).callonDocumentFragment1251,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2872, col: 10, offset: 90900},
+																																														pos:        position{line: 2876, col: 10, offset: 91003},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -9835,28 +9839,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2894, col: 8, offset: 91298},
+																																												pos: position{line: 2898, col: 8, offset: 91401},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2881, col: 12, offset: 91071},
+																																														pos: position{line: 2885, col: 12, offset: 91174},
 																																														run: (*parser).callonDocumentFragment1254,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2881, col: 13, offset: 91072},
+																																															pos: position{line: 2885, col: 13, offset: 91175},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2881, col: 13, offset: 91072},
+																																																	pos:        position{line: 2885, col: 13, offset: 91175},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2881, col: 20, offset: 91079},
+																																																	pos:        position{line: 2885, col: 20, offset: 91182},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2881, col: 29, offset: 91088},
+																																																	pos:        position{line: 2885, col: 29, offset: 91191},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -9865,9 +9869,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2891, col: 8, offset: 91248},
+																																														pos: position{line: 2895, col: 8, offset: 91351},
 																																														expr: &anyMatcher{
-																																															line: 2891, col: 9, offset: 91249,
+																																															line: 2895, col: 9, offset: 91352,
 																																														},
 																																													},
 																																												},
@@ -9875,16 +9879,16 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2891, col: 8, offset: 91248},
+																																										pos: position{line: 2895, col: 8, offset: 91351},
 																																										expr: &anyMatcher{
-																																											line: 2891, col: 9, offset: 91249,
+																																											line: 2895, col: 9, offset: 91352,
 																																										},
 																																									},
 																																								},
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2663, col: 9, offset: 84730},
+																																							pos: position{line: 2667, col: 9, offset: 84833},
 																																							expr: &actionExpr{
 																																								pos: position{line: 676, col: 14, offset: 21496},
 																																								run: (*parser).callonDocumentFragment1264,
@@ -9892,18 +9896,18 @@ var g = &grammar{
 																																									pos: position{line: 676, col: 14, offset: 21496},
 																																									exprs: []interface{}{
 																																										&andExpr{
-																																											pos: position{line: 2889, col: 11, offset: 91234},
+																																											pos: position{line: 2893, col: 11, offset: 91337},
 																																											expr: &anyMatcher{
-																																												line: 2889, col: 13, offset: 91236,
+																																												line: 2893, col: 13, offset: 91339,
 																																											},
 																																										},
 																																										&zeroOrMoreExpr{
 																																											pos: position{line: 676, col: 21, offset: 21503},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2872, col: 10, offset: 90900},
+																																												pos: position{line: 2876, col: 10, offset: 91003},
 																																												run: (*parser).callonDocumentFragment1269,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2872, col: 10, offset: 90900},
+																																													pos:        position{line: 2876, col: 10, offset: 91003},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -9912,28 +9916,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2894, col: 8, offset: 91298},
+																																											pos: position{line: 2898, col: 8, offset: 91401},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2881, col: 12, offset: 91071},
+																																													pos: position{line: 2885, col: 12, offset: 91174},
 																																													run: (*parser).callonDocumentFragment1272,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2881, col: 13, offset: 91072},
+																																														pos: position{line: 2885, col: 13, offset: 91175},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2881, col: 13, offset: 91072},
+																																																pos:        position{line: 2885, col: 13, offset: 91175},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2881, col: 20, offset: 91079},
+																																																pos:        position{line: 2885, col: 20, offset: 91182},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2881, col: 29, offset: 91088},
+																																																pos:        position{line: 2885, col: 29, offset: 91191},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -9942,9 +9946,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2891, col: 8, offset: 91248},
+																																													pos: position{line: 2895, col: 8, offset: 91351},
 																																													expr: &anyMatcher{
-																																														line: 2891, col: 9, offset: 91249,
+																																														line: 2895, col: 9, offset: 91352,
 																																													},
 																																												},
 																																											},
@@ -9954,22 +9958,22 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2664, col: 9, offset: 84749},
+																																							pos: position{line: 2668, col: 9, offset: 84852},
 																																							expr: &seqExpr{
-																																								pos: position{line: 2664, col: 11, offset: 84751},
+																																								pos: position{line: 2668, col: 11, offset: 84854},
 																																								exprs: []interface{}{
 																																									&labeledExpr{
-																																										pos:   position{line: 2664, col: 11, offset: 84751},
+																																										pos:   position{line: 2668, col: 11, offset: 84854},
 																																										label: "format",
 																																										expr: &zeroOrOneExpr{
-																																											pos: position{line: 2664, col: 18, offset: 84758},
+																																											pos: position{line: 2668, col: 18, offset: 84861},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2672, col: 20, offset: 84959},
+																																												pos: position{line: 2676, col: 20, offset: 85062},
 																																												run: (*parser).callonDocumentFragment1283,
 																																												expr: &zeroOrMoreExpr{
-																																													pos: position{line: 2672, col: 20, offset: 84959},
+																																													pos: position{line: 2676, col: 20, offset: 85062},
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2672, col: 20, offset: 84959},
+																																														pos:        position{line: 2676, col: 20, offset: 85062},
 																																														val:        "[^ |\\r\\n]",
 																																														chars:      []rune{' ', '|', '\r', '\n'},
 																																														ignoreCase: false,
@@ -9980,7 +9984,7 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2664, col: 37, offset: 84777},
+																																										pos:        position{line: 2668, col: 37, offset: 84880},
 																																										val:        "|",
 																																										ignoreCase: false,
 																																										want:       "\"|\"",
@@ -9989,15 +9993,15 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&labeledExpr{
-																																							pos:   position{line: 2665, col: 9, offset: 84790},
+																																							pos:   position{line: 2669, col: 9, offset: 84893},
 																																							label: "content",
 																																							expr: &actionExpr{
-																																								pos: position{line: 2665, col: 18, offset: 84799},
+																																								pos: position{line: 2669, col: 18, offset: 84902},
 																																								run: (*parser).callonDocumentFragment1288,
 																																								expr: &zeroOrMoreExpr{
-																																									pos: position{line: 2665, col: 18, offset: 84799},
+																																									pos: position{line: 2669, col: 18, offset: 84902},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2665, col: 18, offset: 84799},
+																																										pos:        position{line: 2669, col: 18, offset: 84902},
 																																										val:        "[^|\\r\\n]",
 																																										chars:      []rune{'|', '\r', '\n'},
 																																										ignoreCase: false,
@@ -10007,30 +10011,30 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&zeroOrOneExpr{
-																																							pos: position{line: 2667, col: 12, offset: 84861},
+																																							pos: position{line: 2671, col: 12, offset: 84964},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2894, col: 8, offset: 91298},
+																																								pos: position{line: 2898, col: 8, offset: 91401},
 																																								alternatives: []interface{}{
 																																									&actionExpr{
-																																										pos: position{line: 2881, col: 12, offset: 91071},
+																																										pos: position{line: 2885, col: 12, offset: 91174},
 																																										run: (*parser).callonDocumentFragment1293,
 																																										expr: &choiceExpr{
-																																											pos: position{line: 2881, col: 13, offset: 91072},
+																																											pos: position{line: 2885, col: 13, offset: 91175},
 																																											alternatives: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2881, col: 13, offset: 91072},
+																																													pos:        position{line: 2885, col: 13, offset: 91175},
 																																													val:        "\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2881, col: 20, offset: 91079},
+																																													pos:        position{line: 2885, col: 20, offset: 91182},
 																																													val:        "\r\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2881, col: 29, offset: 91088},
+																																													pos:        position{line: 2885, col: 29, offset: 91191},
 																																													val:        "\r",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\"",
@@ -10039,9 +10043,9 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2891, col: 8, offset: 91248},
+																																										pos: position{line: 2895, col: 8, offset: 91351},
 																																										expr: &anyMatcher{
-																																											line: 2891, col: 9, offset: 91249,
+																																											line: 2895, col: 9, offset: 91352,
 																																										},
 																																									},
 																																								},
@@ -10069,18 +10073,18 @@ var g = &grammar{
 																									pos: position{line: 676, col: 14, offset: 21496},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2889, col: 11, offset: 91234},
+																											pos: position{line: 2893, col: 11, offset: 91337},
 																											expr: &anyMatcher{
-																												line: 2889, col: 13, offset: 91236,
+																												line: 2893, col: 13, offset: 91339,
 																											},
 																										},
 																										&zeroOrMoreExpr{
 																											pos: position{line: 676, col: 21, offset: 21503},
 																											expr: &actionExpr{
-																												pos: position{line: 2872, col: 10, offset: 90900},
+																												pos: position{line: 2876, col: 10, offset: 91003},
 																												run: (*parser).callonDocumentFragment1305,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2872, col: 10, offset: 90900},
+																													pos:        position{line: 2876, col: 10, offset: 91003},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -10089,28 +10093,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2894, col: 8, offset: 91298},
+																											pos: position{line: 2898, col: 8, offset: 91401},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2881, col: 12, offset: 91071},
+																													pos: position{line: 2885, col: 12, offset: 91174},
 																													run: (*parser).callonDocumentFragment1308,
 																													expr: &choiceExpr{
-																														pos: position{line: 2881, col: 13, offset: 91072},
+																														pos: position{line: 2885, col: 13, offset: 91175},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 13, offset: 91072},
+																																pos:        position{line: 2885, col: 13, offset: 91175},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 20, offset: 91079},
+																																pos:        position{line: 2885, col: 20, offset: 91182},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 29, offset: 91088},
+																																pos:        position{line: 2885, col: 29, offset: 91191},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -10119,9 +10123,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2891, col: 8, offset: 91248},
+																													pos: position{line: 2895, col: 8, offset: 91351},
 																													expr: &anyMatcher{
-																														line: 2891, col: 9, offset: 91249,
+																														line: 2895, col: 9, offset: 91352,
 																													},
 																												},
 																											},
@@ -10140,24 +10144,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2618, col: 22, offset: 83647},
+														pos: position{line: 2622, col: 22, offset: 83750},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2614, col: 19, offset: 83567},
+																pos: position{line: 2618, col: 19, offset: 83670},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2614, col: 19, offset: 83567},
+																		pos:        position{line: 2618, col: 19, offset: 83670},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2614, col: 26, offset: 83574},
+																		pos: position{line: 2618, col: 26, offset: 83677},
 																		expr: &actionExpr{
-																			pos: position{line: 2872, col: 10, offset: 90900},
+																			pos: position{line: 2876, col: 10, offset: 91003},
 																			run: (*parser).callonDocumentFragment1319,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2872, col: 10, offset: 90900},
+																				pos:        position{line: 2876, col: 10, offset: 91003},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10166,28 +10170,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2894, col: 8, offset: 91298},
+																		pos: position{line: 2898, col: 8, offset: 91401},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2881, col: 12, offset: 91071},
+																				pos: position{line: 2885, col: 12, offset: 91174},
 																				run: (*parser).callonDocumentFragment1322,
 																				expr: &choiceExpr{
-																					pos: position{line: 2881, col: 13, offset: 91072},
+																					pos: position{line: 2885, col: 13, offset: 91175},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 13, offset: 91072},
+																							pos:        position{line: 2885, col: 13, offset: 91175},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 20, offset: 91079},
+																							pos:        position{line: 2885, col: 20, offset: 91182},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 29, offset: 91088},
+																							pos:        position{line: 2885, col: 29, offset: 91191},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10196,9 +10200,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2891, col: 8, offset: 91248},
+																				pos: position{line: 2895, col: 8, offset: 91351},
 																				expr: &anyMatcher{
-																					line: 2891, col: 9, offset: 91249,
+																					line: 2895, col: 9, offset: 91352,
 																				},
 																			},
 																		},
@@ -10206,9 +10210,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2891, col: 8, offset: 91248},
+																pos: position{line: 2895, col: 8, offset: 91351},
 																expr: &anyMatcher{
-																	line: 2891, col: 9, offset: 91249,
+																	line: 2895, col: 9, offset: 91352,
 																},
 															},
 														},
@@ -10217,36 +10221,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2479, col: 22, offset: 79786},
+											pos: position{line: 2483, col: 22, offset: 79889},
 											run: (*parser).callonDocumentFragment1331,
 											expr: &seqExpr{
-												pos: position{line: 2479, col: 22, offset: 79786},
+												pos: position{line: 2483, col: 22, offset: 79889},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2484, col: 31, offset: 80007},
+														pos:        position{line: 2488, col: 31, offset: 80110},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2484, col: 36, offset: 80012},
+														pos: position{line: 2488, col: 36, offset: 80115},
 														expr: &litMatcher{
-															pos:        position{line: 2484, col: 37, offset: 80013},
+															pos:        position{line: 2488, col: 37, offset: 80116},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2479, col: 49, offset: 79813},
+														pos:   position{line: 2483, col: 49, offset: 79916},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2818, col: 13, offset: 89426},
+															pos: position{line: 2822, col: 13, offset: 89529},
 															run: (*parser).callonDocumentFragment1337,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2818, col: 13, offset: 89426},
+																pos: position{line: 2822, col: 13, offset: 89529},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2818, col: 13, offset: 89426},
+																	pos:        position{line: 2822, col: 13, offset: 89529},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10256,28 +10260,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2894, col: 8, offset: 91298},
+														pos: position{line: 2898, col: 8, offset: 91401},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2881, col: 12, offset: 91071},
+																pos: position{line: 2885, col: 12, offset: 91174},
 																run: (*parser).callonDocumentFragment1341,
 																expr: &choiceExpr{
-																	pos: position{line: 2881, col: 13, offset: 91072},
+																	pos: position{line: 2885, col: 13, offset: 91175},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2881, col: 13, offset: 91072},
+																			pos:        position{line: 2885, col: 13, offset: 91175},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2881, col: 20, offset: 91079},
+																			pos:        position{line: 2885, col: 20, offset: 91182},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2881, col: 29, offset: 91088},
+																			pos:        position{line: 2885, col: 29, offset: 91191},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10286,9 +10290,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2891, col: 8, offset: 91248},
+																pos: position{line: 2895, col: 8, offset: 91351},
 																expr: &anyMatcher{
-																	line: 2891, col: 9, offset: 91249,
+																	line: 2895, col: 9, offset: 91352,
 																},
 															},
 														},
@@ -10297,37 +10301,37 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1221, col: 5, offset: 37830},
+											pos: position{line: 1225, col: 5, offset: 37933},
 											run: (*parser).callonDocumentFragment1348,
 											expr: &seqExpr{
-												pos: position{line: 1221, col: 5, offset: 37830},
+												pos: position{line: 1225, col: 5, offset: 37933},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 1221, col: 5, offset: 37830},
+														pos: position{line: 1225, col: 5, offset: 37933},
 														run: (*parser).callonDocumentFragment1350,
 													},
 													&labeledExpr{
-														pos:   position{line: 1224, col: 5, offset: 37888},
+														pos:   position{line: 1228, col: 5, offset: 37991},
 														label: "frontmatter",
 														expr: &actionExpr{
-															pos: position{line: 1229, col: 20, offset: 37983},
+															pos: position{line: 1233, col: 20, offset: 38086},
 															run: (*parser).callonDocumentFragment1352,
 															expr: &seqExpr{
-																pos: position{line: 1229, col: 20, offset: 37983},
+																pos: position{line: 1233, col: 20, offset: 38086},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1233, col: 30, offset: 38203},
+																		pos:        position{line: 1237, col: 30, offset: 38306},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1233, col: 36, offset: 38209},
+																		pos: position{line: 1237, col: 36, offset: 38312},
 																		expr: &actionExpr{
-																			pos: position{line: 2872, col: 10, offset: 90900},
+																			pos: position{line: 2876, col: 10, offset: 91003},
 																			run: (*parser).callonDocumentFragment1356,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2872, col: 10, offset: 90900},
+																				pos:        position{line: 2876, col: 10, offset: 91003},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10336,28 +10340,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2894, col: 8, offset: 91298},
+																		pos: position{line: 2898, col: 8, offset: 91401},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2881, col: 12, offset: 91071},
+																				pos: position{line: 2885, col: 12, offset: 91174},
 																				run: (*parser).callonDocumentFragment1359,
 																				expr: &choiceExpr{
-																					pos: position{line: 2881, col: 13, offset: 91072},
+																					pos: position{line: 2885, col: 13, offset: 91175},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 13, offset: 91072},
+																							pos:        position{line: 2885, col: 13, offset: 91175},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 20, offset: 91079},
+																							pos:        position{line: 2885, col: 20, offset: 91182},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 29, offset: 91088},
+																							pos:        position{line: 2885, col: 29, offset: 91191},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10366,46 +10370,46 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2891, col: 8, offset: 91248},
+																				pos: position{line: 2895, col: 8, offset: 91351},
 																				expr: &anyMatcher{
-																					line: 2891, col: 9, offset: 91249,
+																					line: 2895, col: 9, offset: 91352,
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1229, col: 45, offset: 38008},
+																		pos:   position{line: 1233, col: 45, offset: 38111},
 																		label: "content",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 1229, col: 53, offset: 38016},
+																			pos: position{line: 1233, col: 53, offset: 38119},
 																			expr: &actionExpr{
-																				pos: position{line: 1235, col: 27, offset: 38247},
+																				pos: position{line: 1239, col: 27, offset: 38350},
 																				run: (*parser).callonDocumentFragment1368,
 																				expr: &zeroOrMoreExpr{
-																					pos: position{line: 1235, col: 27, offset: 38247},
+																					pos: position{line: 1239, col: 27, offset: 38350},
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1235, col: 28, offset: 38248},
+																						pos: position{line: 1239, col: 28, offset: 38351},
 																						expr: &seqExpr{
-																							pos: position{line: 1235, col: 29, offset: 38249},
+																							pos: position{line: 1239, col: 29, offset: 38352},
 																							exprs: []interface{}{
 																								&notExpr{
-																									pos: position{line: 1235, col: 29, offset: 38249},
+																									pos: position{line: 1239, col: 29, offset: 38352},
 																									expr: &seqExpr{
-																										pos: position{line: 1233, col: 30, offset: 38203},
+																										pos: position{line: 1237, col: 30, offset: 38306},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 1233, col: 30, offset: 38203},
+																												pos:        position{line: 1237, col: 30, offset: 38306},
 																												val:        "---",
 																												ignoreCase: false,
 																												want:       "\"---\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 1233, col: 36, offset: 38209},
+																												pos: position{line: 1237, col: 36, offset: 38312},
 																												expr: &actionExpr{
-																													pos: position{line: 2872, col: 10, offset: 90900},
+																													pos: position{line: 2876, col: 10, offset: 91003},
 																													run: (*parser).callonDocumentFragment1376,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2872, col: 10, offset: 90900},
+																														pos:        position{line: 2876, col: 10, offset: 91003},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -10414,28 +10418,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2894, col: 8, offset: 91298},
+																												pos: position{line: 2898, col: 8, offset: 91401},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2881, col: 12, offset: 91071},
+																														pos: position{line: 2885, col: 12, offset: 91174},
 																														run: (*parser).callonDocumentFragment1379,
 																														expr: &choiceExpr{
-																															pos: position{line: 2881, col: 13, offset: 91072},
+																															pos: position{line: 2885, col: 13, offset: 91175},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2881, col: 13, offset: 91072},
+																																	pos:        position{line: 2885, col: 13, offset: 91175},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2881, col: 20, offset: 91079},
+																																	pos:        position{line: 2885, col: 20, offset: 91182},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2881, col: 29, offset: 91088},
+																																	pos:        position{line: 2885, col: 29, offset: 91191},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -10444,9 +10448,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2891, col: 8, offset: 91248},
+																														pos: position{line: 2895, col: 8, offset: 91351},
 																														expr: &anyMatcher{
-																															line: 2891, col: 9, offset: 91249,
+																															line: 2895, col: 9, offset: 91352,
 																														},
 																													},
 																												},
@@ -10455,7 +10459,7 @@ var g = &grammar{
 																									},
 																								},
 																								&anyMatcher{
-																									line: 1235, col: 55, offset: 38275,
+																									line: 1239, col: 55, offset: 38378,
 																								},
 																							},
 																						},
@@ -10465,18 +10469,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1233, col: 30, offset: 38203},
+																		pos:        position{line: 1237, col: 30, offset: 38306},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1233, col: 36, offset: 38209},
+																		pos: position{line: 1237, col: 36, offset: 38312},
 																		expr: &actionExpr{
-																			pos: position{line: 2872, col: 10, offset: 90900},
+																			pos: position{line: 2876, col: 10, offset: 91003},
 																			run: (*parser).callonDocumentFragment1389,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2872, col: 10, offset: 90900},
+																				pos:        position{line: 2876, col: 10, offset: 91003},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10485,28 +10489,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2894, col: 8, offset: 91298},
+																		pos: position{line: 2898, col: 8, offset: 91401},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2881, col: 12, offset: 91071},
+																				pos: position{line: 2885, col: 12, offset: 91174},
 																				run: (*parser).callonDocumentFragment1392,
 																				expr: &choiceExpr{
-																					pos: position{line: 2881, col: 13, offset: 91072},
+																					pos: position{line: 2885, col: 13, offset: 91175},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 13, offset: 91072},
+																							pos:        position{line: 2885, col: 13, offset: 91175},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 20, offset: 91079},
+																							pos:        position{line: 2885, col: 20, offset: 91182},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 29, offset: 91088},
+																							pos:        position{line: 2885, col: 29, offset: 91191},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10515,15 +10519,15 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2891, col: 8, offset: 91248},
+																				pos: position{line: 2895, col: 8, offset: 91351},
 																				expr: &anyMatcher{
-																					line: 2891, col: 9, offset: 91249,
+																					line: 2895, col: 9, offset: 91352,
 																				},
 																			},
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1229, col: 104, offset: 38067},
+																		pos: position{line: 1233, col: 104, offset: 38170},
 																		run: (*parser).callonDocumentFragment1399,
 																	},
 																},
@@ -10574,9 +10578,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2891, col: 8, offset: 91248},
+							pos: position{line: 2895, col: 8, offset: 91351},
 							expr: &anyMatcher{
-								line: 2891, col: 9, offset: 91249,
+								line: 2895, col: 9, offset: 91352,
 							},
 						},
 					},
@@ -10648,12 +10652,12 @@ var g = &grammar{
 										pos: position{line: 304, col: 9, offset: 9170},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2876, col: 11, offset: 90961},
+												pos: position{line: 2880, col: 11, offset: 91064},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2876, col: 11, offset: 90961},
+													pos: position{line: 2880, col: 11, offset: 91064},
 													expr: &charClassMatcher{
-														pos:        position{line: 2876, col: 11, offset: 90961},
+														pos:        position{line: 2880, col: 11, offset: 91064},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10677,10 +10681,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 309, col: 5, offset: 9350},
 							expr: &actionExpr{
-								pos: position{line: 2872, col: 10, offset: 90900},
+								pos: position{line: 2876, col: 10, offset: 91003},
 								run: (*parser).callonAttributeDeclaration21,
 								expr: &charClassMatcher{
-									pos:        position{line: 2872, col: 10, offset: 90900},
+									pos:        position{line: 2876, col: 10, offset: 91003},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -10689,28 +10693,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2894, col: 8, offset: 91298},
+							pos: position{line: 2898, col: 8, offset: 91401},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2881, col: 12, offset: 91071},
+									pos: position{line: 2885, col: 12, offset: 91174},
 									run: (*parser).callonAttributeDeclaration24,
 									expr: &choiceExpr{
-										pos: position{line: 2881, col: 13, offset: 91072},
+										pos: position{line: 2885, col: 13, offset: 91175},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2881, col: 13, offset: 91072},
+												pos:        position{line: 2885, col: 13, offset: 91175},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2881, col: 20, offset: 91079},
+												pos:        position{line: 2885, col: 20, offset: 91182},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2881, col: 29, offset: 91088},
+												pos:        position{line: 2885, col: 29, offset: 91191},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10719,9 +10723,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2891, col: 8, offset: 91248},
+									pos: position{line: 2895, col: 8, offset: 91351},
 									expr: &anyMatcher{
-										line: 2891, col: 9, offset: 91249,
+										line: 2895, col: 9, offset: 91352,
 									},
 								},
 							},
@@ -10767,10 +10771,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 324, col: 14, offset: 9848},
 												expr: &actionExpr{
-													pos: position{line: 2872, col: 10, offset: 90900},
+													pos: position{line: 2876, col: 10, offset: 91003},
 													run: (*parser).callonAttributeDeclarationValue11,
 													expr: &charClassMatcher{
-														pos:        position{line: 2872, col: 10, offset: 90900},
+														pos:        position{line: 2876, col: 10, offset: 91003},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10779,25 +10783,25 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 2881, col: 12, offset: 91071},
+												pos: position{line: 2885, col: 12, offset: 91174},
 												run: (*parser).callonAttributeDeclarationValue13,
 												expr: &choiceExpr{
-													pos: position{line: 2881, col: 13, offset: 91072},
+													pos: position{line: 2885, col: 13, offset: 91175},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2881, col: 13, offset: 91072},
+															pos:        position{line: 2885, col: 13, offset: 91175},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2881, col: 20, offset: 91079},
+															pos:        position{line: 2885, col: 20, offset: 91182},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2881, col: 29, offset: 91088},
+															pos:        position{line: 2885, col: 29, offset: 91191},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10808,10 +10812,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 325, col: 9, offset: 9872},
 												expr: &actionExpr{
-													pos: position{line: 2872, col: 10, offset: 90900},
+													pos: position{line: 2876, col: 10, offset: 91003},
 													run: (*parser).callonAttributeDeclarationValue19,
 													expr: &charClassMatcher{
-														pos:        position{line: 2872, col: 10, offset: 90900},
+														pos:        position{line: 2876, col: 10, offset: 91003},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10881,10 +10885,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 343, col: 13, offset: 10417},
 										expr: &actionExpr{
-											pos: position{line: 2872, col: 10, offset: 90900},
+											pos: position{line: 2876, col: 10, offset: 91003},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2872, col: 10, offset: 90900},
+												pos:        position{line: 2876, col: 10, offset: 91003},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10893,28 +10897,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2894, col: 8, offset: 91298},
+										pos: position{line: 2898, col: 8, offset: 91401},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2881, col: 12, offset: 91071},
+												pos: position{line: 2885, col: 12, offset: 91174},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2881, col: 13, offset: 91072},
+													pos: position{line: 2885, col: 13, offset: 91175},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2881, col: 13, offset: 91072},
+															pos:        position{line: 2885, col: 13, offset: 91175},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2881, col: 20, offset: 91079},
+															pos:        position{line: 2885, col: 20, offset: 91182},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2881, col: 29, offset: 91088},
+															pos:        position{line: 2885, col: 29, offset: 91191},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10923,9 +10927,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2891, col: 8, offset: 91248},
+												pos: position{line: 2895, col: 8, offset: 91351},
 												expr: &anyMatcher{
-													line: 2891, col: 9, offset: 91249,
+													line: 2895, col: 9, offset: 91352,
 												},
 											},
 										},
@@ -10958,23 +10962,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2466, col: 5, offset: 79332},
+										pos: position{line: 2470, col: 5, offset: 79435},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2466, col: 5, offset: 79332},
+											pos: position{line: 2470, col: 5, offset: 79435},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2466, col: 5, offset: 79332},
+													pos: position{line: 2470, col: 5, offset: 79435},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2469, col: 5, offset: 79408},
+													pos:   position{line: 2473, col: 5, offset: 79511},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2470, col: 9, offset: 79426},
+														pos: position{line: 2474, col: 9, offset: 79529},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2470, col: 10, offset: 79427},
+															pos:        position{line: 2474, col: 10, offset: 79530},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -10986,10 +10990,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2872, col: 10, offset: 90900},
+										pos: position{line: 2876, col: 10, offset: 91003},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2872, col: 10, offset: 90900},
+											pos:        position{line: 2876, col: 10, offset: 91003},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -11448,18 +11452,22 @@ var g = &grammar{
 																									ignoreCase: false,
 																									want:       "\"�\"",
 																								},
+																								&andCodeExpr{
+																									pos: position{line: 1198, col: 5, offset: 37089},
+																									run: (*parser).callonBlockAttributes27,
+																								},
 																							},
 																						},
 																					},
 																					&actionExpr{
 																						pos: position{line: 635, col: 5, offset: 20116},
-																						run: (*parser).callonBlockAttributes27,
+																						run: (*parser).callonBlockAttributes28,
 																						expr: &seqExpr{
 																							pos: position{line: 635, col: 5, offset: 20116},
 																							exprs: []interface{}{
 																								&andCodeExpr{
 																									pos: position{line: 635, col: 5, offset: 20116},
-																									run: (*parser).callonBlockAttributes29,
+																									run: (*parser).callonBlockAttributes30,
 																								},
 																								&labeledExpr{
 																									pos:   position{line: 638, col: 5, offset: 20188},
@@ -11469,7 +11477,7 @@ var g = &grammar{
 																										alternatives: []interface{}{
 																											&actionExpr{
 																												pos: position{line: 644, col: 5, offset: 20326},
-																												run: (*parser).callonBlockAttributes32,
+																												run: (*parser).callonBlockAttributes33,
 																												expr: &seqExpr{
 																													pos: position{line: 644, col: 5, offset: 20326},
 																													exprs: []interface{}{
@@ -11484,7 +11492,7 @@ var g = &grammar{
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 317, col: 18, offset: 9667},
-																																run: (*parser).callonBlockAttributes36,
+																																run: (*parser).callonBlockAttributes37,
 																																expr: &seqExpr{
 																																	pos: position{line: 317, col: 18, offset: 9667},
 																																	exprs: []interface{}{
@@ -11522,7 +11530,7 @@ var g = &grammar{
 																											},
 																											&actionExpr{
 																												pos: position{line: 651, col: 5, offset: 20594},
-																												run: (*parser).callonBlockAttributes42,
+																												run: (*parser).callonBlockAttributes43,
 																												expr: &seqExpr{
 																													pos: position{line: 651, col: 5, offset: 20594},
 																													exprs: []interface{}{
@@ -11537,7 +11545,7 @@ var g = &grammar{
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 317, col: 18, offset: 9667},
-																																run: (*parser).callonBlockAttributes46,
+																																run: (*parser).callonBlockAttributes47,
 																																expr: &seqExpr{
 																																	pos: position{line: 317, col: 18, offset: 9667},
 																																	exprs: []interface{}{
@@ -11575,7 +11583,7 @@ var g = &grammar{
 																											},
 																											&actionExpr{
 																												pos: position{line: 657, col: 25, offset: 20798},
-																												run: (*parser).callonBlockAttributes52,
+																												run: (*parser).callonBlockAttributes53,
 																												expr: &seqExpr{
 																													pos: position{line: 657, col: 25, offset: 20798},
 																													exprs: []interface{}{
@@ -11590,7 +11598,7 @@ var g = &grammar{
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 317, col: 18, offset: 9667},
-																																run: (*parser).callonBlockAttributes56,
+																																run: (*parser).callonBlockAttributes57,
 																																expr: &seqExpr{
 																																	pos: position{line: 317, col: 18, offset: 9667},
 																																	exprs: []interface{}{
@@ -11624,7 +11632,7 @@ var g = &grammar{
 																																pos: position{line: 657, col: 62, offset: 20835},
 																																expr: &actionExpr{
 																																	pos: position{line: 665, col: 17, offset: 21130},
-																																	run: (*parser).callonBlockAttributes63,
+																																	run: (*parser).callonBlockAttributes64,
 																																	expr: &seqExpr{
 																																		pos: position{line: 665, col: 17, offset: 21130},
 																																		exprs: []interface{}{
@@ -11642,7 +11650,7 @@ var g = &grammar{
 																																					alternatives: []interface{}{
 																																						&actionExpr{
 																																							pos: position{line: 665, col: 28, offset: 21141},
-																																							run: (*parser).callonBlockAttributes68,
+																																							run: (*parser).callonBlockAttributes69,
 																																							expr: &charClassMatcher{
 																																								pos:        position{line: 665, col: 28, offset: 21141},
 																																								val:        "[A-Za-z]",
@@ -11653,7 +11661,7 @@ var g = &grammar{
 																																						},
 																																						&actionExpr{
 																																							pos: position{line: 667, col: 9, offset: 21195},
-																																							run: (*parser).callonBlockAttributes70,
+																																							run: (*parser).callonBlockAttributes71,
 																																							expr: &oneOrMoreExpr{
 																																								pos: position{line: 667, col: 9, offset: 21195},
 																																								expr: &charClassMatcher{
@@ -11684,7 +11692,7 @@ var g = &grammar{
 																											},
 																											&actionExpr{
 																												pos: position{line: 661, col: 25, offset: 20969},
-																												run: (*parser).callonBlockAttributes74,
+																												run: (*parser).callonBlockAttributes75,
 																												expr: &seqExpr{
 																													pos: position{line: 661, col: 25, offset: 20969},
 																													exprs: []interface{}{
@@ -11699,7 +11707,7 @@ var g = &grammar{
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 317, col: 18, offset: 9667},
-																																run: (*parser).callonBlockAttributes78,
+																																run: (*parser).callonBlockAttributes79,
 																																expr: &seqExpr{
 																																	pos: position{line: 317, col: 18, offset: 9667},
 																																	exprs: []interface{}{
@@ -11733,7 +11741,7 @@ var g = &grammar{
 																																pos: position{line: 661, col: 63, offset: 21007},
 																																expr: &actionExpr{
 																																	pos: position{line: 665, col: 17, offset: 21130},
-																																	run: (*parser).callonBlockAttributes85,
+																																	run: (*parser).callonBlockAttributes86,
 																																	expr: &seqExpr{
 																																		pos: position{line: 665, col: 17, offset: 21130},
 																																		exprs: []interface{}{
@@ -11751,7 +11759,7 @@ var g = &grammar{
 																																					alternatives: []interface{}{
 																																						&actionExpr{
 																																							pos: position{line: 665, col: 28, offset: 21141},
-																																							run: (*parser).callonBlockAttributes90,
+																																							run: (*parser).callonBlockAttributes91,
 																																							expr: &charClassMatcher{
 																																								pos:        position{line: 665, col: 28, offset: 21141},
 																																								val:        "[A-Za-z]",
@@ -11762,7 +11770,7 @@ var g = &grammar{
 																																						},
 																																						&actionExpr{
 																																							pos: position{line: 667, col: 9, offset: 21195},
-																																							run: (*parser).callonBlockAttributes92,
+																																							run: (*parser).callonBlockAttributes93,
 																																							expr: &oneOrMoreExpr{
 																																								pos: position{line: 667, col: 9, offset: 21195},
 																																								expr: &charClassMatcher{
@@ -11799,7 +11807,7 @@ var g = &grammar{
 																					},
 																					&actionExpr{
 																						pos: position{line: 411, col: 16, offset: 12624},
-																						run: (*parser).callonBlockAttributes96,
+																						run: (*parser).callonBlockAttributes97,
 																						expr: &litMatcher{
 																							pos:        position{line: 411, col: 16, offset: 12624},
 																							val:        "{",
@@ -11826,10 +11834,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 371, col: 35, offset: 11426},
 												expr: &actionExpr{
-													pos: position{line: 2872, col: 10, offset: 90900},
-													run: (*parser).callonBlockAttributes100,
+													pos: position{line: 2876, col: 10, offset: 91003},
+													run: (*parser).callonBlockAttributes101,
 													expr: &charClassMatcher{
-														pos:        position{line: 2872, col: 10, offset: 90900},
+														pos:        position{line: 2876, col: 10, offset: 91003},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11838,28 +11846,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2894, col: 8, offset: 91298},
+												pos: position{line: 2898, col: 8, offset: 91401},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2881, col: 12, offset: 91071},
-														run: (*parser).callonBlockAttributes103,
+														pos: position{line: 2885, col: 12, offset: 91174},
+														run: (*parser).callonBlockAttributes104,
 														expr: &choiceExpr{
-															pos: position{line: 2881, col: 13, offset: 91072},
+															pos: position{line: 2885, col: 13, offset: 91175},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2881, col: 13, offset: 91072},
+																	pos:        position{line: 2885, col: 13, offset: 91175},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2881, col: 20, offset: 91079},
+																	pos:        position{line: 2885, col: 20, offset: 91182},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2881, col: 29, offset: 91088},
+																	pos:        position{line: 2885, col: 29, offset: 91191},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11868,9 +11876,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2891, col: 8, offset: 91248},
+														pos: position{line: 2895, col: 8, offset: 91351},
 														expr: &anyMatcher{
-															line: 2891, col: 9, offset: 91249,
+															line: 2895, col: 9, offset: 91352,
 														},
 													},
 												},
@@ -11879,23 +11887,23 @@ var g = &grammar{
 												pos: position{line: 371, col: 46, offset: 11437},
 												expr: &actionExpr{
 													pos: position{line: 676, col: 14, offset: 21496},
-													run: (*parser).callonBlockAttributes111,
+													run: (*parser).callonBlockAttributes112,
 													expr: &seqExpr{
 														pos: position{line: 676, col: 14, offset: 21496},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2889, col: 11, offset: 91234},
+																pos: position{line: 2893, col: 11, offset: 91337},
 																expr: &anyMatcher{
-																	line: 2889, col: 13, offset: 91236,
+																	line: 2893, col: 13, offset: 91339,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 676, col: 21, offset: 21503},
 																expr: &actionExpr{
-																	pos: position{line: 2872, col: 10, offset: 90900},
-																	run: (*parser).callonBlockAttributes116,
+																	pos: position{line: 2876, col: 10, offset: 91003},
+																	run: (*parser).callonBlockAttributes117,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2872, col: 10, offset: 90900},
+																		pos:        position{line: 2876, col: 10, offset: 91003},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -11904,28 +11912,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2894, col: 8, offset: 91298},
+																pos: position{line: 2898, col: 8, offset: 91401},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2881, col: 12, offset: 91071},
-																		run: (*parser).callonBlockAttributes119,
+																		pos: position{line: 2885, col: 12, offset: 91174},
+																		run: (*parser).callonBlockAttributes120,
 																		expr: &choiceExpr{
-																			pos: position{line: 2881, col: 13, offset: 91072},
+																			pos: position{line: 2885, col: 13, offset: 91175},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2881, col: 13, offset: 91072},
+																					pos:        position{line: 2885, col: 13, offset: 91175},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2881, col: 20, offset: 91079},
+																					pos:        position{line: 2885, col: 20, offset: 91182},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2881, col: 29, offset: 91088},
+																					pos:        position{line: 2885, col: 29, offset: 91191},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -11934,9 +11942,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2891, col: 8, offset: 91248},
+																		pos: position{line: 2895, col: 8, offset: 91351},
 																		expr: &anyMatcher{
-																			line: 2891, col: 9, offset: 91249,
+																			line: 2895, col: 9, offset: 91352,
 																		},
 																	},
 																},
@@ -11950,7 +11958,7 @@ var g = &grammar{
 								},
 								&actionExpr{
 									pos: position{line: 375, col: 12, offset: 11558},
-									run: (*parser).callonBlockAttributes126,
+									run: (*parser).callonBlockAttributes127,
 									expr: &seqExpr{
 										pos: position{line: 375, col: 12, offset: 11558},
 										exprs: []interface{}{
@@ -11959,7 +11967,7 @@ var g = &grammar{
 												label: "title",
 												expr: &actionExpr{
 													pos: position{line: 422, col: 19, offset: 12929},
-													run: (*parser).callonBlockAttributes129,
+													run: (*parser).callonBlockAttributes130,
 													expr: &seqExpr{
 														pos: position{line: 422, col: 19, offset: 12929},
 														exprs: []interface{}{
@@ -11988,12 +11996,12 @@ var g = &grammar{
 																		pos: position{line: 425, col: 9, offset: 13070},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2766, col: 14, offset: 88048},
-																				run: (*parser).callonBlockAttributes137,
+																				pos: position{line: 2770, col: 14, offset: 88151},
+																				run: (*parser).callonBlockAttributes138,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2766, col: 14, offset: 88048},
+																					pos: position{line: 2770, col: 14, offset: 88151},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2766, col: 14, offset: 88048},
+																						pos:        position{line: 2770, col: 14, offset: 88151},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -12002,10 +12010,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2872, col: 10, offset: 90900},
-																				run: (*parser).callonBlockAttributes140,
+																				pos: position{line: 2876, col: 10, offset: 91003},
+																				run: (*parser).callonBlockAttributes141,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2872, col: 10, offset: 90900},
+																					pos:        position{line: 2876, col: 10, offset: 91003},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -12013,27 +12021,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2789, col: 5, offset: 88554},
-																				run: (*parser).callonBlockAttributes142,
+																				pos: position{line: 2793, col: 5, offset: 88657},
+																				run: (*parser).callonBlockAttributes143,
 																				expr: &choiceExpr{
-																					pos: position{line: 2790, col: 9, offset: 88564},
+																					pos: position{line: 2794, col: 9, offset: 88667},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2790, col: 10, offset: 88565},
+																							pos:        position{line: 2794, col: 10, offset: 88668},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2792, col: 13, offset: 88662},
+																							pos: position{line: 2796, col: 13, offset: 88765},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2792, col: 13, offset: 88662},
-																									run: (*parser).callonBlockAttributes146,
+																									pos: position{line: 2796, col: 13, offset: 88765},
+																									run: (*parser).callonBlockAttributes147,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2795, col: 13, offset: 88762},
+																									pos:        position{line: 2799, col: 13, offset: 88865},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -12041,20 +12049,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2795, col: 19, offset: 88768},
+																							pos:        position{line: 2799, col: 19, offset: 88871},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2798, col: 13, offset: 88806},
+																							pos: position{line: 2802, col: 13, offset: 88909},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2798, col: 13, offset: 88806},
-																									run: (*parser).callonBlockAttributes150,
+																									pos: position{line: 2802, col: 13, offset: 88909},
+																									run: (*parser).callonBlockAttributes151,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2801, col: 14, offset: 88899},
+																									pos:        position{line: 2805, col: 14, offset: 89002},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -12063,18 +12071,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2803, col: 12, offset: 88943},
+																							pos: position{line: 2807, col: 12, offset: 89046},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2803, col: 12, offset: 88943},
+																									pos:        position{line: 2807, col: 12, offset: 89046},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2803, col: 16, offset: 88947},
+																									pos: position{line: 2807, col: 16, offset: 89050},
 																									expr: &litMatcher{
-																										pos:        position{line: 2803, col: 17, offset: 88948},
+																										pos:        position{line: 2807, col: 17, offset: 89051},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12087,7 +12095,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 644, col: 5, offset: 20326},
-																				run: (*parser).callonBlockAttributes156,
+																				run: (*parser).callonBlockAttributes157,
 																				expr: &seqExpr{
 																					pos: position{line: 644, col: 5, offset: 20326},
 																					exprs: []interface{}{
@@ -12102,7 +12110,7 @@ var g = &grammar{
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 317, col: 18, offset: 9667},
-																								run: (*parser).callonBlockAttributes160,
+																								run: (*parser).callonBlockAttributes161,
 																								expr: &seqExpr{
 																									pos: position{line: 317, col: 18, offset: 9667},
 																									exprs: []interface{}{
@@ -12140,7 +12148,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 651, col: 5, offset: 20594},
-																				run: (*parser).callonBlockAttributes166,
+																				run: (*parser).callonBlockAttributes167,
 																				expr: &seqExpr{
 																					pos: position{line: 651, col: 5, offset: 20594},
 																					exprs: []interface{}{
@@ -12155,7 +12163,7 @@ var g = &grammar{
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 317, col: 18, offset: 9667},
-																								run: (*parser).callonBlockAttributes170,
+																								run: (*parser).callonBlockAttributes171,
 																								expr: &seqExpr{
 																									pos: position{line: 317, col: 18, offset: 9667},
 																									exprs: []interface{}{
@@ -12192,10 +12200,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2811, col: 12, offset: 89208},
-																				run: (*parser).callonBlockAttributes176,
+																				pos: position{line: 2815, col: 12, offset: 89311},
+																				run: (*parser).callonBlockAttributes177,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2811, col: 12, offset: 89208},
+																					pos:        position{line: 2815, col: 12, offset: 89311},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12213,10 +12221,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 375, col: 35, offset: 11581},
 												expr: &actionExpr{
-													pos: position{line: 2872, col: 10, offset: 90900},
-													run: (*parser).callonBlockAttributes179,
+													pos: position{line: 2876, col: 10, offset: 91003},
+													run: (*parser).callonBlockAttributes180,
 													expr: &charClassMatcher{
-														pos:        position{line: 2872, col: 10, offset: 90900},
+														pos:        position{line: 2876, col: 10, offset: 91003},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12225,28 +12233,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2894, col: 8, offset: 91298},
+												pos: position{line: 2898, col: 8, offset: 91401},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2881, col: 12, offset: 91071},
-														run: (*parser).callonBlockAttributes182,
+														pos: position{line: 2885, col: 12, offset: 91174},
+														run: (*parser).callonBlockAttributes183,
 														expr: &choiceExpr{
-															pos: position{line: 2881, col: 13, offset: 91072},
+															pos: position{line: 2885, col: 13, offset: 91175},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2881, col: 13, offset: 91072},
+																	pos:        position{line: 2885, col: 13, offset: 91175},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2881, col: 20, offset: 91079},
+																	pos:        position{line: 2885, col: 20, offset: 91182},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2881, col: 29, offset: 91088},
+																	pos:        position{line: 2885, col: 29, offset: 91191},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12255,9 +12263,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2891, col: 8, offset: 91248},
+														pos: position{line: 2895, col: 8, offset: 91351},
 														expr: &anyMatcher{
-															line: 2891, col: 9, offset: 91249,
+															line: 2895, col: 9, offset: 91352,
 														},
 													},
 												},
@@ -12266,23 +12274,23 @@ var g = &grammar{
 												pos: position{line: 375, col: 46, offset: 11592},
 												expr: &actionExpr{
 													pos: position{line: 676, col: 14, offset: 21496},
-													run: (*parser).callonBlockAttributes190,
+													run: (*parser).callonBlockAttributes191,
 													expr: &seqExpr{
 														pos: position{line: 676, col: 14, offset: 21496},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2889, col: 11, offset: 91234},
+																pos: position{line: 2893, col: 11, offset: 91337},
 																expr: &anyMatcher{
-																	line: 2889, col: 13, offset: 91236,
+																	line: 2893, col: 13, offset: 91339,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 676, col: 21, offset: 21503},
 																expr: &actionExpr{
-																	pos: position{line: 2872, col: 10, offset: 90900},
-																	run: (*parser).callonBlockAttributes195,
+																	pos: position{line: 2876, col: 10, offset: 91003},
+																	run: (*parser).callonBlockAttributes196,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2872, col: 10, offset: 90900},
+																		pos:        position{line: 2876, col: 10, offset: 91003},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12291,28 +12299,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2894, col: 8, offset: 91298},
+																pos: position{line: 2898, col: 8, offset: 91401},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2881, col: 12, offset: 91071},
-																		run: (*parser).callonBlockAttributes198,
+																		pos: position{line: 2885, col: 12, offset: 91174},
+																		run: (*parser).callonBlockAttributes199,
 																		expr: &choiceExpr{
-																			pos: position{line: 2881, col: 13, offset: 91072},
+																			pos: position{line: 2885, col: 13, offset: 91175},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2881, col: 13, offset: 91072},
+																					pos:        position{line: 2885, col: 13, offset: 91175},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2881, col: 20, offset: 91079},
+																					pos:        position{line: 2885, col: 20, offset: 91182},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2881, col: 29, offset: 91088},
+																					pos:        position{line: 2885, col: 29, offset: 91191},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12321,9 +12329,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2891, col: 8, offset: 91248},
+																		pos: position{line: 2895, col: 8, offset: 91351},
 																		expr: &anyMatcher{
-																			line: 2891, col: 9, offset: 91249,
+																			line: 2895, col: 9, offset: 91352,
 																		},
 																	},
 																},
@@ -12337,7 +12345,7 @@ var g = &grammar{
 								},
 								&actionExpr{
 									pos: position{line: 379, col: 12, offset: 11682},
-									run: (*parser).callonBlockAttributes205,
+									run: (*parser).callonBlockAttributes206,
 									expr: &seqExpr{
 										pos: position{line: 379, col: 12, offset: 11682},
 										exprs: []interface{}{
@@ -12345,10 +12353,10 @@ var g = &grammar{
 												pos:   position{line: 379, col: 12, offset: 11682},
 												label: "start",
 												expr: &actionExpr{
-													pos: position{line: 2897, col: 16, offset: 91422},
-													run: (*parser).callonBlockAttributes208,
+													pos: position{line: 2901, col: 16, offset: 91525},
+													run: (*parser).callonBlockAttributes209,
 													expr: &litMatcher{
-														pos:        position{line: 2897, col: 16, offset: 91422},
+														pos:        position{line: 2901, col: 16, offset: 91525},
 														val:        "",
 														ignoreCase: false,
 														want:       "\"\"",
@@ -12366,10 +12374,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 379, col: 64, offset: 11734},
 												expr: &actionExpr{
-													pos: position{line: 2872, col: 10, offset: 90900},
-													run: (*parser).callonBlockAttributes213,
+													pos: position{line: 2876, col: 10, offset: 91003},
+													run: (*parser).callonBlockAttributes214,
 													expr: &charClassMatcher{
-														pos:        position{line: 2872, col: 10, offset: 90900},
+														pos:        position{line: 2876, col: 10, offset: 91003},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12381,10 +12389,10 @@ var g = &grammar{
 												pos:   position{line: 379, col: 71, offset: 11741},
 												label: "end",
 												expr: &actionExpr{
-													pos: position{line: 2897, col: 16, offset: 91422},
-													run: (*parser).callonBlockAttributes216,
+													pos: position{line: 2901, col: 16, offset: 91525},
+													run: (*parser).callonBlockAttributes217,
 													expr: &litMatcher{
-														pos:        position{line: 2897, col: 16, offset: 91422},
+														pos:        position{line: 2901, col: 16, offset: 91525},
 														val:        "",
 														ignoreCase: false,
 														want:       "\"\"",
@@ -12393,31 +12401,31 @@ var g = &grammar{
 											},
 											&andCodeExpr{
 												pos: position{line: 379, col: 89, offset: 11759},
-												run: (*parser).callonBlockAttributes218,
+												run: (*parser).callonBlockAttributes219,
 											},
 											&choiceExpr{
-												pos: position{line: 2894, col: 8, offset: 91298},
+												pos: position{line: 2898, col: 8, offset: 91401},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2881, col: 12, offset: 91071},
-														run: (*parser).callonBlockAttributes220,
+														pos: position{line: 2885, col: 12, offset: 91174},
+														run: (*parser).callonBlockAttributes221,
 														expr: &choiceExpr{
-															pos: position{line: 2881, col: 13, offset: 91072},
+															pos: position{line: 2885, col: 13, offset: 91175},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2881, col: 13, offset: 91072},
+																	pos:        position{line: 2885, col: 13, offset: 91175},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2881, col: 20, offset: 91079},
+																	pos:        position{line: 2885, col: 20, offset: 91182},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2881, col: 29, offset: 91088},
+																	pos:        position{line: 2885, col: 29, offset: 91191},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12426,9 +12434,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2891, col: 8, offset: 91248},
+														pos: position{line: 2895, col: 8, offset: 91351},
 														expr: &anyMatcher{
-															line: 2891, col: 9, offset: 91249,
+															line: 2895, col: 9, offset: 91352,
 														},
 													},
 												},
@@ -12437,23 +12445,23 @@ var g = &grammar{
 												pos: position{line: 379, col: 123, offset: 11793},
 												expr: &actionExpr{
 													pos: position{line: 676, col: 14, offset: 21496},
-													run: (*parser).callonBlockAttributes228,
+													run: (*parser).callonBlockAttributes229,
 													expr: &seqExpr{
 														pos: position{line: 676, col: 14, offset: 21496},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2889, col: 11, offset: 91234},
+																pos: position{line: 2893, col: 11, offset: 91337},
 																expr: &anyMatcher{
-																	line: 2889, col: 13, offset: 91236,
+																	line: 2893, col: 13, offset: 91339,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 676, col: 21, offset: 21503},
 																expr: &actionExpr{
-																	pos: position{line: 2872, col: 10, offset: 90900},
-																	run: (*parser).callonBlockAttributes233,
+																	pos: position{line: 2876, col: 10, offset: 91003},
+																	run: (*parser).callonBlockAttributes234,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2872, col: 10, offset: 90900},
+																		pos:        position{line: 2876, col: 10, offset: 91003},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12462,28 +12470,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2894, col: 8, offset: 91298},
+																pos: position{line: 2898, col: 8, offset: 91401},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2881, col: 12, offset: 91071},
-																		run: (*parser).callonBlockAttributes236,
+																		pos: position{line: 2885, col: 12, offset: 91174},
+																		run: (*parser).callonBlockAttributes237,
 																		expr: &choiceExpr{
-																			pos: position{line: 2881, col: 13, offset: 91072},
+																			pos: position{line: 2885, col: 13, offset: 91175},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2881, col: 13, offset: 91072},
+																					pos:        position{line: 2885, col: 13, offset: 91175},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2881, col: 20, offset: 91079},
+																					pos:        position{line: 2885, col: 20, offset: 91182},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2881, col: 29, offset: 91088},
+																					pos:        position{line: 2885, col: 29, offset: 91191},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12492,9 +12500,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2891, col: 8, offset: 91248},
+																		pos: position{line: 2895, col: 8, offset: 91351},
 																		expr: &anyMatcher{
-																			line: 2891, col: 9, offset: 91249,
+																			line: 2895, col: 9, offset: 91352,
 																		},
 																	},
 																},
@@ -12742,10 +12750,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 465, col: 13, offset: 14538},
 										expr: &actionExpr{
-											pos: position{line: 2872, col: 10, offset: 90900},
+											pos: position{line: 2876, col: 10, offset: 91003},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2872, col: 10, offset: 90900},
+												pos:        position{line: 2876, col: 10, offset: 91003},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13277,10 +13285,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 517, col: 9, offset: 16120},
 													expr: &actionExpr{
-														pos: position{line: 2872, col: 10, offset: 90900},
+														pos: position{line: 2876, col: 10, offset: 91003},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2872, col: 10, offset: 90900},
+															pos:        position{line: 2876, col: 10, offset: 91003},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13341,10 +13349,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 523, col: 34, offset: 16263},
 														expr: &actionExpr{
-															pos: position{line: 2872, col: 10, offset: 90900},
+															pos: position{line: 2876, col: 10, offset: 91003},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2872, col: 10, offset: 90900},
+																pos:        position{line: 2876, col: 10, offset: 91003},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13384,10 +13392,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 528, col: 13, offset: 16427},
 												expr: &actionExpr{
-													pos: position{line: 2872, col: 10, offset: 90900},
+													pos: position{line: 2876, col: 10, offset: 91003},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2872, col: 10, offset: 90900},
+														pos:        position{line: 2876, col: 10, offset: 91003},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13410,10 +13418,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 528, col: 26, offset: 16440},
 																expr: &actionExpr{
-																	pos: position{line: 2872, col: 10, offset: 90900},
+																	pos: position{line: 2876, col: 10, offset: 91003},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2872, col: 10, offset: 90900},
+																		pos:        position{line: 2876, col: 10, offset: 91003},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13468,10 +13476,10 @@ var g = &grammar{
 										&notExpr{
 											pos: position{line: 548, col: 22, offset: 17087},
 											expr: &actionExpr{
-												pos: position{line: 2872, col: 10, offset: 90900},
+												pos: position{line: 2876, col: 10, offset: 91003},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2872, col: 10, offset: 90900},
+													pos:        position{line: 2876, col: 10, offset: 91003},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13502,10 +13510,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 541, col: 9, offset: 16832},
 							expr: &actionExpr{
-								pos: position{line: 2872, col: 10, offset: 90900},
+								pos: position{line: 2876, col: 10, offset: 91003},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2872, col: 10, offset: 90900},
+									pos:        position{line: 2876, col: 10, offset: 91003},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13535,10 +13543,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 542, col: 33, offset: 16872},
 										expr: &actionExpr{
-											pos: position{line: 2872, col: 10, offset: 90900},
+											pos: position{line: 2876, col: 10, offset: 91003},
 											run: (*parser).callonNamedAttribute21,
 											expr: &charClassMatcher{
-												pos:        position{line: 2872, col: 10, offset: 90900},
+												pos:        position{line: 2876, col: 10, offset: 91003},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13593,10 +13601,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 558, col: 9, offset: 17304},
 											expr: &actionExpr{
-												pos: position{line: 2872, col: 10, offset: 90900},
+												pos: position{line: 2876, col: 10, offset: 91003},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2872, col: 10, offset: 90900},
+													pos:        position{line: 2876, col: 10, offset: 91003},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13675,12 +13683,12 @@ var g = &grammar{
 							pos: position{line: 571, col: 9, offset: 17621},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2766, col: 14, offset: 88048},
+									pos: position{line: 2770, col: 14, offset: 88151},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2766, col: 14, offset: 88048},
+										pos: position{line: 2770, col: 14, offset: 88151},
 										expr: &charClassMatcher{
-											pos:        position{line: 2766, col: 14, offset: 88048},
+											pos:        position{line: 2770, col: 14, offset: 88151},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -13689,10 +13697,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2872, col: 10, offset: 90900},
+									pos: position{line: 2876, col: 10, offset: 91003},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2872, col: 10, offset: 90900},
+										pos:        position{line: 2876, col: 10, offset: 91003},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14149,10 +14157,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 591, col: 14, offset: 18361},
 											expr: &actionExpr{
-												pos: position{line: 2872, col: 10, offset: 90900},
+												pos: position{line: 2876, col: 10, offset: 91003},
 												run: (*parser).callonDoubleQuotedAttributeValue13,
 												expr: &charClassMatcher{
-													pos:        position{line: 2872, col: 10, offset: 90900},
+													pos:        position{line: 2876, col: 10, offset: 91003},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14189,12 +14197,12 @@ var g = &grammar{
 							pos: position{line: 597, col: 9, offset: 18472},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2766, col: 14, offset: 88048},
+									pos: position{line: 2770, col: 14, offset: 88151},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2766, col: 14, offset: 88048},
+										pos: position{line: 2770, col: 14, offset: 88151},
 										expr: &charClassMatcher{
-											pos:        position{line: 2766, col: 14, offset: 88048},
+											pos:        position{line: 2770, col: 14, offset: 88151},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14203,10 +14211,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2872, col: 10, offset: 90900},
+									pos: position{line: 2876, col: 10, offset: 91003},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2872, col: 10, offset: 90900},
+										pos:        position{line: 2876, col: 10, offset: 91003},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14633,10 +14641,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 618, col: 5, offset: 19328},
 							expr: &actionExpr{
-								pos: position{line: 2872, col: 10, offset: 90900},
+								pos: position{line: 2876, col: 10, offset: 91003},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2872, col: 10, offset: 90900},
+									pos:        position{line: 2876, col: 10, offset: 91003},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -15026,10 +15034,10 @@ var g = &grammar{
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2872, col: 10, offset: 90900},
+											pos: position{line: 2876, col: 10, offset: 91003},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2872, col: 10, offset: 90900},
+												pos:        position{line: 2876, col: 10, offset: 91003},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -15080,12 +15088,12 @@ var g = &grammar{
 									pos:   position{line: 685, col: 32, offset: 21856},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2857, col: 7, offset: 90552},
+										pos: position{line: 2861, col: 7, offset: 90655},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2857, col: 7, offset: 90552},
+											pos: position{line: 2861, col: 7, offset: 90655},
 											expr: &charClassMatcher{
-												pos:        position{line: 2857, col: 7, offset: 90552},
+												pos:        position{line: 2861, col: 7, offset: 90655},
 												val:        "[^[]<>,\\r\\n]",
 												chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 												ignoreCase: false,
@@ -15097,10 +15105,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 685, col: 40, offset: 21864},
 									expr: &actionExpr{
-										pos: position{line: 2872, col: 10, offset: 90900},
+										pos: position{line: 2876, col: 10, offset: 91003},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2872, col: 10, offset: 90900},
+											pos:        position{line: 2876, col: 10, offset: 91003},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15117,10 +15125,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 685, col: 51, offset: 21875},
 									expr: &actionExpr{
-										pos: position{line: 2872, col: 10, offset: 90900},
+										pos: position{line: 2876, col: 10, offset: 91003},
 										run: (*parser).callonCrossReference14,
 										expr: &charClassMatcher{
-											pos:        position{line: 2872, col: 10, offset: 90900},
+											pos:        position{line: 2876, col: 10, offset: 91003},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15295,12 +15303,12 @@ var g = &grammar{
 									pos:   position{line: 687, col: 14, offset: 21988},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2857, col: 7, offset: 90552},
+										pos: position{line: 2861, col: 7, offset: 90655},
 										run: (*parser).callonCrossReference49,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2857, col: 7, offset: 90552},
+											pos: position{line: 2861, col: 7, offset: 90655},
 											expr: &charClassMatcher{
-												pos:        position{line: 2857, col: 7, offset: 90552},
+												pos:        position{line: 2861, col: 7, offset: 90655},
 												val:        "[^[]<>,\\r\\n]",
 												chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 												ignoreCase: false,
@@ -15344,41 +15352,41 @@ var g = &grammar{
 							pos:   position{line: 691, col: 35, offset: 22101},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2826, col: 17, offset: 89563},
+								pos: position{line: 2830, col: 17, offset: 89666},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2826, col: 17, offset: 89563},
+									pos:   position{line: 2830, col: 17, offset: 89666},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2843, col: 5, offset: 90017},
+										pos: position{line: 2847, col: 5, offset: 90120},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2843, col: 5, offset: 90017},
+											pos:   position{line: 2847, col: 5, offset: 90120},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2843, col: 14, offset: 90026},
+												pos: position{line: 2847, col: 14, offset: 90129},
 												expr: &choiceExpr{
-													pos: position{line: 2844, col: 9, offset: 90036},
+													pos: position{line: 2848, col: 9, offset: 90139},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2844, col: 9, offset: 90036},
+															pos: position{line: 2848, col: 9, offset: 90139},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2844, col: 9, offset: 90036},
+																pos: position{line: 2848, col: 9, offset: 90139},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2844, col: 9, offset: 90036},
+																		pos: position{line: 2848, col: 9, offset: 90139},
 																		expr: &litMatcher{
-																			pos:        position{line: 2844, col: 10, offset: 90037},
+																			pos:        position{line: 2848, col: 10, offset: 90140},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2845, col: 9, offset: 90065},
+																		pos: position{line: 2849, col: 9, offset: 90168},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2845, col: 10, offset: 90066},
+																			pos:        position{line: 2849, col: 10, offset: 90169},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -15389,27 +15397,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2848, col: 11, offset: 90278},
+															pos: position{line: 2852, col: 11, offset: 90381},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2848, col: 11, offset: 90278},
+																	pos:        position{line: 2852, col: 11, offset: 90381},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2848, col: 19, offset: 90286},
+																	pos: position{line: 2852, col: 19, offset: 90389},
 																	expr: &seqExpr{
-																		pos: position{line: 2848, col: 21, offset: 90288},
+																		pos: position{line: 2852, col: 21, offset: 90391},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2848, col: 21, offset: 90288},
+																				pos: position{line: 2852, col: 21, offset: 90391},
 																				expr: &actionExpr{
-																					pos: position{line: 2872, col: 10, offset: 90900},
+																					pos: position{line: 2876, col: 10, offset: 91003},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2872, col: 10, offset: 90900},
+																						pos:        position{line: 2876, col: 10, offset: 91003},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -15418,11 +15426,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2848, col: 28, offset: 90295},
+																				pos: position{line: 2852, col: 28, offset: 90398},
 																				expr: &notExpr{
-																					pos: position{line: 2891, col: 8, offset: 91248},
+																					pos: position{line: 2895, col: 8, offset: 91351},
 																					expr: &anyMatcher{
-																						line: 2891, col: 9, offset: 91249,
+																						line: 2895, col: 9, offset: 91352,
 																					},
 																				},
 																			},
@@ -15813,14 +15821,18 @@ var g = &grammar{
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
+																	&andCodeExpr{
+																		pos: position{line: 1198, col: 5, offset: 37089},
+																		run: (*parser).callonExternalCrossReference104,
+																	},
 																},
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2851, col: 11, offset: 90415},
-															run: (*parser).callonExternalCrossReference104,
+															pos: position{line: 2855, col: 11, offset: 90518},
+															run: (*parser).callonExternalCrossReference105,
 															expr: &litMatcher{
-																pos:        position{line: 2851, col: 11, offset: 90415},
+																pos:        position{line: 2855, col: 11, offset: 90518},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -15865,12 +15877,12 @@ var g = &grammar{
 							pos:   position{line: 988, col: 11, offset: 30818},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2822, col: 14, offset: 89493},
+								pos: position{line: 2826, col: 14, offset: 89596},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2822, col: 14, offset: 89493},
+									pos: position{line: 2826, col: 14, offset: 89596},
 									expr: &charClassMatcher{
-										pos:        position{line: 2822, col: 14, offset: 89493},
+										pos:        position{line: 2826, col: 14, offset: 89596},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -15880,28 +15892,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2894, col: 8, offset: 91298},
+							pos: position{line: 2898, col: 8, offset: 91401},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2881, col: 12, offset: 91071},
+									pos: position{line: 2885, col: 12, offset: 91174},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2881, col: 13, offset: 91072},
+										pos: position{line: 2885, col: 13, offset: 91175},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2881, col: 13, offset: 91072},
+												pos:        position{line: 2885, col: 13, offset: 91175},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2881, col: 20, offset: 91079},
+												pos:        position{line: 2885, col: 20, offset: 91182},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2881, col: 29, offset: 91088},
+												pos:        position{line: 2885, col: 29, offset: 91191},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -15910,9 +15922,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2891, col: 8, offset: 91248},
+									pos: position{line: 2895, col: 8, offset: 91351},
 									expr: &anyMatcher{
-										line: 2891, col: 9, offset: 91249,
+										line: 2895, col: 9, offset: 91352,
 									},
 								},
 							},
@@ -15940,36 +15952,36 @@ var g = &grammar{
 								pos: position{line: 1103, col: 6, offset: 33820},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2479, col: 22, offset: 79786},
+										pos: position{line: 2483, col: 22, offset: 79889},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2479, col: 22, offset: 79786},
+											pos: position{line: 2483, col: 22, offset: 79889},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2484, col: 31, offset: 80007},
+													pos:        position{line: 2488, col: 31, offset: 80110},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2484, col: 36, offset: 80012},
+													pos: position{line: 2488, col: 36, offset: 80115},
 													expr: &litMatcher{
-														pos:        position{line: 2484, col: 37, offset: 80013},
+														pos:        position{line: 2488, col: 37, offset: 80116},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2479, col: 49, offset: 79813},
+													pos:   position{line: 2483, col: 49, offset: 79916},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2818, col: 13, offset: 89426},
+														pos: position{line: 2822, col: 13, offset: 89529},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2818, col: 13, offset: 89426},
+															pos: position{line: 2822, col: 13, offset: 89529},
 															expr: &charClassMatcher{
-																pos:        position{line: 2818, col: 13, offset: 89426},
+																pos:        position{line: 2822, col: 13, offset: 89529},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -15979,28 +15991,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2894, col: 8, offset: 91298},
+													pos: position{line: 2898, col: 8, offset: 91401},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2881, col: 12, offset: 91071},
+															pos: position{line: 2885, col: 12, offset: 91174},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2881, col: 13, offset: 91072},
+																pos: position{line: 2885, col: 13, offset: 91175},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2881, col: 13, offset: 91072},
+																		pos:        position{line: 2885, col: 13, offset: 91175},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2881, col: 20, offset: 91079},
+																		pos:        position{line: 2885, col: 20, offset: 91182},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2881, col: 29, offset: 91088},
+																		pos:        position{line: 2885, col: 29, offset: 91191},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16009,9 +16021,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2891, col: 8, offset: 91248},
+															pos: position{line: 2895, col: 8, offset: 91351},
 															expr: &anyMatcher{
-																line: 2891, col: 9, offset: 91249,
+																line: 2895, col: 9, offset: 91352,
 															},
 														},
 													},
@@ -16062,10 +16074,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 741, col: 8, offset: 23693},
 																expr: &actionExpr{
-																	pos: position{line: 2872, col: 10, offset: 90900},
+																	pos: position{line: 2876, col: 10, offset: 91003},
 																	run: (*parser).callonDocumentHeader34,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2872, col: 10, offset: 90900},
+																		pos:        position{line: 2876, col: 10, offset: 91003},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16074,28 +16086,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2894, col: 8, offset: 91298},
+																pos: position{line: 2898, col: 8, offset: 91401},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2881, col: 12, offset: 91071},
+																		pos: position{line: 2885, col: 12, offset: 91174},
 																		run: (*parser).callonDocumentHeader37,
 																		expr: &choiceExpr{
-																			pos: position{line: 2881, col: 13, offset: 91072},
+																			pos: position{line: 2885, col: 13, offset: 91175},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2881, col: 13, offset: 91072},
+																					pos:        position{line: 2885, col: 13, offset: 91175},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2881, col: 20, offset: 91079},
+																					pos:        position{line: 2885, col: 20, offset: 91182},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2881, col: 29, offset: 91088},
+																					pos:        position{line: 2885, col: 29, offset: 91191},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -16104,9 +16116,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2891, col: 8, offset: 91248},
+																		pos: position{line: 2895, col: 8, offset: 91351},
 																		expr: &anyMatcher{
-																			line: 2891, col: 9, offset: 91249,
+																			line: 2895, col: 9, offset: 91352,
 																		},
 																	},
 																},
@@ -16167,10 +16179,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 741, col: 8, offset: 23693},
 																								expr: &actionExpr{
-																									pos: position{line: 2872, col: 10, offset: 90900},
+																									pos: position{line: 2876, col: 10, offset: 91003},
 																									run: (*parser).callonDocumentHeader59,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2872, col: 10, offset: 90900},
+																										pos:        position{line: 2876, col: 10, offset: 91003},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -16179,28 +16191,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2894, col: 8, offset: 91298},
+																								pos: position{line: 2898, col: 8, offset: 91401},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2881, col: 12, offset: 91071},
+																										pos: position{line: 2885, col: 12, offset: 91174},
 																										run: (*parser).callonDocumentHeader62,
 																										expr: &choiceExpr{
-																											pos: position{line: 2881, col: 13, offset: 91072},
+																											pos: position{line: 2885, col: 13, offset: 91175},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2881, col: 13, offset: 91072},
+																													pos:        position{line: 2885, col: 13, offset: 91175},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2881, col: 20, offset: 91079},
+																													pos:        position{line: 2885, col: 20, offset: 91182},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2881, col: 29, offset: 91088},
+																													pos:        position{line: 2885, col: 29, offset: 91191},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -16209,9 +16221,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2891, col: 8, offset: 91248},
+																										pos: position{line: 2895, col: 8, offset: 91351},
 																										expr: &anyMatcher{
-																											line: 2891, col: 9, offset: 91249,
+																											line: 2895, col: 9, offset: 91352,
 																										},
 																									},
 																								},
@@ -16220,9 +16232,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2891, col: 8, offset: 91248},
+																					pos: position{line: 2895, col: 8, offset: 91351},
 																					expr: &anyMatcher{
-																						line: 2891, col: 9, offset: 91249,
+																						line: 2895, col: 9, offset: 91352,
 																					},
 																				},
 																			},
@@ -16238,21 +16250,21 @@ var g = &grammar{
 																				pos: position{line: 810, col: 5, offset: 26100},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2889, col: 11, offset: 91234},
+																						pos: position{line: 2893, col: 11, offset: 91337},
 																						expr: &anyMatcher{
-																							line: 2889, col: 13, offset: 91236,
+																							line: 2893, col: 13, offset: 91339,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 811, col: 5, offset: 26175},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2818, col: 13, offset: 89426},
+																							pos: position{line: 2822, col: 13, offset: 89529},
 																							run: (*parser).callonDocumentHeader77,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2818, col: 13, offset: 89426},
+																								pos: position{line: 2822, col: 13, offset: 89529},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2818, col: 13, offset: 89426},
+																									pos:        position{line: 2822, col: 13, offset: 89529},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16262,28 +16274,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2894, col: 8, offset: 91298},
+																						pos: position{line: 2898, col: 8, offset: 91401},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2881, col: 12, offset: 91071},
+																								pos: position{line: 2885, col: 12, offset: 91174},
 																								run: (*parser).callonDocumentHeader81,
 																								expr: &choiceExpr{
-																									pos: position{line: 2881, col: 13, offset: 91072},
+																									pos: position{line: 2885, col: 13, offset: 91175},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 13, offset: 91072},
+																											pos:        position{line: 2885, col: 13, offset: 91175},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 20, offset: 91079},
+																											pos:        position{line: 2885, col: 20, offset: 91182},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 29, offset: 91088},
+																											pos:        position{line: 2885, col: 29, offset: 91191},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16292,9 +16304,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2891, col: 8, offset: 91248},
+																								pos: position{line: 2895, col: 8, offset: 91351},
 																								expr: &anyMatcher{
-																									line: 2891, col: 9, offset: 91249,
+																									line: 2895, col: 9, offset: 91352,
 																								},
 																							},
 																						},
@@ -16350,10 +16362,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 741, col: 8, offset: 23693},
 																			expr: &actionExpr{
-																				pos: position{line: 2872, col: 10, offset: 90900},
+																				pos: position{line: 2876, col: 10, offset: 91003},
 																				run: (*parser).callonDocumentHeader99,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2872, col: 10, offset: 90900},
+																					pos:        position{line: 2876, col: 10, offset: 91003},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -16362,28 +16374,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2894, col: 8, offset: 91298},
+																			pos: position{line: 2898, col: 8, offset: 91401},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2881, col: 12, offset: 91071},
+																					pos: position{line: 2885, col: 12, offset: 91174},
 																					run: (*parser).callonDocumentHeader102,
 																					expr: &choiceExpr{
-																						pos: position{line: 2881, col: 13, offset: 91072},
+																						pos: position{line: 2885, col: 13, offset: 91175},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2881, col: 13, offset: 91072},
+																								pos:        position{line: 2885, col: 13, offset: 91175},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2881, col: 20, offset: 91079},
+																								pos:        position{line: 2885, col: 20, offset: 91182},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2881, col: 29, offset: 91088},
+																								pos:        position{line: 2885, col: 29, offset: 91191},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -16392,9 +16404,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2891, col: 8, offset: 91248},
+																					pos: position{line: 2895, col: 8, offset: 91351},
 																					expr: &anyMatcher{
-																						line: 2891, col: 9, offset: 91249,
+																						line: 2895, col: 9, offset: 91352,
 																					},
 																				},
 																			},
@@ -16403,9 +16415,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2891, col: 8, offset: 91248},
+																pos: position{line: 2895, col: 8, offset: 91351},
 																expr: &anyMatcher{
-																	line: 2891, col: 9, offset: 91249,
+																	line: 2895, col: 9, offset: 91352,
 																},
 															},
 														},
@@ -16431,36 +16443,36 @@ var g = &grammar{
 								pos: position{line: 1105, col: 6, offset: 33943},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2479, col: 22, offset: 79786},
+										pos: position{line: 2483, col: 22, offset: 79889},
 										run: (*parser).callonDocumentHeader115,
 										expr: &seqExpr{
-											pos: position{line: 2479, col: 22, offset: 79786},
+											pos: position{line: 2483, col: 22, offset: 79889},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2484, col: 31, offset: 80007},
+													pos:        position{line: 2488, col: 31, offset: 80110},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2484, col: 36, offset: 80012},
+													pos: position{line: 2488, col: 36, offset: 80115},
 													expr: &litMatcher{
-														pos:        position{line: 2484, col: 37, offset: 80013},
+														pos:        position{line: 2488, col: 37, offset: 80116},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2479, col: 49, offset: 79813},
+													pos:   position{line: 2483, col: 49, offset: 79916},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2818, col: 13, offset: 89426},
+														pos: position{line: 2822, col: 13, offset: 89529},
 														run: (*parser).callonDocumentHeader121,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2818, col: 13, offset: 89426},
+															pos: position{line: 2822, col: 13, offset: 89529},
 															expr: &charClassMatcher{
-																pos:        position{line: 2818, col: 13, offset: 89426},
+																pos:        position{line: 2822, col: 13, offset: 89529},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16470,28 +16482,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2894, col: 8, offset: 91298},
+													pos: position{line: 2898, col: 8, offset: 91401},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2881, col: 12, offset: 91071},
+															pos: position{line: 2885, col: 12, offset: 91174},
 															run: (*parser).callonDocumentHeader125,
 															expr: &choiceExpr{
-																pos: position{line: 2881, col: 13, offset: 91072},
+																pos: position{line: 2885, col: 13, offset: 91175},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2881, col: 13, offset: 91072},
+																		pos:        position{line: 2885, col: 13, offset: 91175},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2881, col: 20, offset: 91079},
+																		pos:        position{line: 2885, col: 20, offset: 91182},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2881, col: 29, offset: 91088},
+																		pos:        position{line: 2885, col: 29, offset: 91191},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16500,9 +16512,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2891, col: 8, offset: 91248},
+															pos: position{line: 2895, col: 8, offset: 91351},
 															expr: &anyMatcher{
-																line: 2891, col: 9, offset: 91249,
+																line: 2895, col: 9, offset: 91352,
 															},
 														},
 													},
@@ -16553,10 +16565,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 741, col: 8, offset: 23693},
 																expr: &actionExpr{
-																	pos: position{line: 2872, col: 10, offset: 90900},
+																	pos: position{line: 2876, col: 10, offset: 91003},
 																	run: (*parser).callonDocumentHeader143,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2872, col: 10, offset: 90900},
+																		pos:        position{line: 2876, col: 10, offset: 91003},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16565,28 +16577,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2894, col: 8, offset: 91298},
+																pos: position{line: 2898, col: 8, offset: 91401},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2881, col: 12, offset: 91071},
+																		pos: position{line: 2885, col: 12, offset: 91174},
 																		run: (*parser).callonDocumentHeader146,
 																		expr: &choiceExpr{
-																			pos: position{line: 2881, col: 13, offset: 91072},
+																			pos: position{line: 2885, col: 13, offset: 91175},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2881, col: 13, offset: 91072},
+																					pos:        position{line: 2885, col: 13, offset: 91175},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2881, col: 20, offset: 91079},
+																					pos:        position{line: 2885, col: 20, offset: 91182},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2881, col: 29, offset: 91088},
+																					pos:        position{line: 2885, col: 29, offset: 91191},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -16595,9 +16607,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2891, col: 8, offset: 91248},
+																		pos: position{line: 2895, col: 8, offset: 91351},
 																		expr: &anyMatcher{
-																			line: 2891, col: 9, offset: 91249,
+																			line: 2895, col: 9, offset: 91352,
 																		},
 																	},
 																},
@@ -16658,10 +16670,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 741, col: 8, offset: 23693},
 																								expr: &actionExpr{
-																									pos: position{line: 2872, col: 10, offset: 90900},
+																									pos: position{line: 2876, col: 10, offset: 91003},
 																									run: (*parser).callonDocumentHeader168,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2872, col: 10, offset: 90900},
+																										pos:        position{line: 2876, col: 10, offset: 91003},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -16670,28 +16682,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2894, col: 8, offset: 91298},
+																								pos: position{line: 2898, col: 8, offset: 91401},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2881, col: 12, offset: 91071},
+																										pos: position{line: 2885, col: 12, offset: 91174},
 																										run: (*parser).callonDocumentHeader171,
 																										expr: &choiceExpr{
-																											pos: position{line: 2881, col: 13, offset: 91072},
+																											pos: position{line: 2885, col: 13, offset: 91175},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2881, col: 13, offset: 91072},
+																													pos:        position{line: 2885, col: 13, offset: 91175},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2881, col: 20, offset: 91079},
+																													pos:        position{line: 2885, col: 20, offset: 91182},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2881, col: 29, offset: 91088},
+																													pos:        position{line: 2885, col: 29, offset: 91191},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -16700,9 +16712,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2891, col: 8, offset: 91248},
+																										pos: position{line: 2895, col: 8, offset: 91351},
 																										expr: &anyMatcher{
-																											line: 2891, col: 9, offset: 91249,
+																											line: 2895, col: 9, offset: 91352,
 																										},
 																									},
 																								},
@@ -16711,9 +16723,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2891, col: 8, offset: 91248},
+																					pos: position{line: 2895, col: 8, offset: 91351},
 																					expr: &anyMatcher{
-																						line: 2891, col: 9, offset: 91249,
+																						line: 2895, col: 9, offset: 91352,
 																					},
 																				},
 																			},
@@ -16729,21 +16741,21 @@ var g = &grammar{
 																				pos: position{line: 810, col: 5, offset: 26100},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2889, col: 11, offset: 91234},
+																						pos: position{line: 2893, col: 11, offset: 91337},
 																						expr: &anyMatcher{
-																							line: 2889, col: 13, offset: 91236,
+																							line: 2893, col: 13, offset: 91339,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 811, col: 5, offset: 26175},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2818, col: 13, offset: 89426},
+																							pos: position{line: 2822, col: 13, offset: 89529},
 																							run: (*parser).callonDocumentHeader186,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2818, col: 13, offset: 89426},
+																								pos: position{line: 2822, col: 13, offset: 89529},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2818, col: 13, offset: 89426},
+																									pos:        position{line: 2822, col: 13, offset: 89529},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16753,28 +16765,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2894, col: 8, offset: 91298},
+																						pos: position{line: 2898, col: 8, offset: 91401},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2881, col: 12, offset: 91071},
+																								pos: position{line: 2885, col: 12, offset: 91174},
 																								run: (*parser).callonDocumentHeader190,
 																								expr: &choiceExpr{
-																									pos: position{line: 2881, col: 13, offset: 91072},
+																									pos: position{line: 2885, col: 13, offset: 91175},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 13, offset: 91072},
+																											pos:        position{line: 2885, col: 13, offset: 91175},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 20, offset: 91079},
+																											pos:        position{line: 2885, col: 20, offset: 91182},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 29, offset: 91088},
+																											pos:        position{line: 2885, col: 29, offset: 91191},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16783,9 +16795,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2891, col: 8, offset: 91248},
+																								pos: position{line: 2895, col: 8, offset: 91351},
 																								expr: &anyMatcher{
-																									line: 2891, col: 9, offset: 91249,
+																									line: 2895, col: 9, offset: 91352,
 																								},
 																							},
 																						},
@@ -16841,10 +16853,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 741, col: 8, offset: 23693},
 																			expr: &actionExpr{
-																				pos: position{line: 2872, col: 10, offset: 90900},
+																				pos: position{line: 2876, col: 10, offset: 91003},
 																				run: (*parser).callonDocumentHeader208,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2872, col: 10, offset: 90900},
+																					pos:        position{line: 2876, col: 10, offset: 91003},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -16853,28 +16865,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2894, col: 8, offset: 91298},
+																			pos: position{line: 2898, col: 8, offset: 91401},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2881, col: 12, offset: 91071},
+																					pos: position{line: 2885, col: 12, offset: 91174},
 																					run: (*parser).callonDocumentHeader211,
 																					expr: &choiceExpr{
-																						pos: position{line: 2881, col: 13, offset: 91072},
+																						pos: position{line: 2885, col: 13, offset: 91175},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2881, col: 13, offset: 91072},
+																								pos:        position{line: 2885, col: 13, offset: 91175},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2881, col: 20, offset: 91079},
+																								pos:        position{line: 2885, col: 20, offset: 91182},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2881, col: 29, offset: 91088},
+																								pos:        position{line: 2885, col: 29, offset: 91191},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -16883,9 +16895,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2891, col: 8, offset: 91248},
+																					pos: position{line: 2895, col: 8, offset: 91351},
 																					expr: &anyMatcher{
-																						line: 2891, col: 9, offset: 91249,
+																						line: 2895, col: 9, offset: 91352,
 																					},
 																				},
 																			},
@@ -16894,9 +16906,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2891, col: 8, offset: 91248},
+																pos: position{line: 2895, col: 8, offset: 91351},
 																expr: &anyMatcher{
-																	line: 2891, col: 9, offset: 91249,
+																	line: 2895, col: 9, offset: 91352,
 																},
 															},
 														},
@@ -16940,10 +16952,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1124, col: 20, offset: 34698},
 																expr: &actionExpr{
-																	pos: position{line: 2872, col: 10, offset: 90900},
+																	pos: position{line: 2876, col: 10, offset: 91003},
 																	run: (*parser).callonDocumentHeader230,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2872, col: 10, offset: 90900},
+																		pos:        position{line: 2876, col: 10, offset: 91003},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16994,10 +17006,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1143, col: 5, offset: 35303},
 																										expr: &actionExpr{
-																											pos: position{line: 2872, col: 10, offset: 90900},
+																											pos: position{line: 2876, col: 10, offset: 91003},
 																											run: (*parser).callonDocumentHeader245,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2872, col: 10, offset: 90900},
+																												pos:        position{line: 2876, col: 10, offset: 91003},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17029,10 +17041,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1147, col: 5, offset: 35402},
 																										expr: &actionExpr{
-																											pos: position{line: 2872, col: 10, offset: 90900},
+																											pos: position{line: 2876, col: 10, offset: 91003},
 																											run: (*parser).callonDocumentHeader253,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2872, col: 10, offset: 90900},
+																												pos:        position{line: 2876, col: 10, offset: 91003},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17064,10 +17076,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1151, col: 5, offset: 35499},
 																										expr: &actionExpr{
-																											pos: position{line: 2872, col: 10, offset: 90900},
+																											pos: position{line: 2876, col: 10, offset: 91003},
 																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2872, col: 10, offset: 90900},
+																												pos:        position{line: 2876, col: 10, offset: 91003},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17092,9 +17104,9 @@ var g = &grammar{
 																								pos: position{line: 1157, col: 5, offset: 35621},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2889, col: 11, offset: 91234},
+																										pos: position{line: 2893, col: 11, offset: 91337},
 																										expr: &anyMatcher{
-																											line: 2889, col: 13, offset: 91236,
+																											line: 2893, col: 13, offset: 91339,
 																										},
 																									},
 																									&litMatcher{
@@ -17135,10 +17147,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1129, col: 69, offset: 34891},
 																					expr: &actionExpr{
-																						pos: position{line: 2872, col: 10, offset: 90900},
+																						pos: position{line: 2876, col: 10, offset: 91003},
 																						run: (*parser).callonDocumentHeader276,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2872, col: 10, offset: 90900},
+																							pos:        position{line: 2876, col: 10, offset: 91003},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17158,10 +17170,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1129, col: 81, offset: 34903},
 																					expr: &actionExpr{
-																						pos: position{line: 2872, col: 10, offset: 90900},
+																						pos: position{line: 2876, col: 10, offset: 91003},
 																						run: (*parser).callonDocumentHeader281,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2872, col: 10, offset: 90900},
+																							pos:        position{line: 2876, col: 10, offset: 91003},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17179,28 +17191,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2894, col: 8, offset: 91298},
+																pos: position{line: 2898, col: 8, offset: 91401},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2881, col: 12, offset: 91071},
+																		pos: position{line: 2885, col: 12, offset: 91174},
 																		run: (*parser).callonDocumentHeader285,
 																		expr: &choiceExpr{
-																			pos: position{line: 2881, col: 13, offset: 91072},
+																			pos: position{line: 2885, col: 13, offset: 91175},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2881, col: 13, offset: 91072},
+																					pos:        position{line: 2885, col: 13, offset: 91175},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2881, col: 20, offset: 91079},
+																					pos:        position{line: 2885, col: 20, offset: 91182},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2881, col: 29, offset: 91088},
+																					pos:        position{line: 2885, col: 29, offset: 91191},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17209,9 +17221,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2891, col: 8, offset: 91248},
+																		pos: position{line: 2895, col: 8, offset: 91351},
 																		expr: &anyMatcher{
-																			line: 2891, col: 9, offset: 91249,
+																			line: 2895, col: 9, offset: 91352,
 																		},
 																	},
 																},
@@ -17226,36 +17238,36 @@ var g = &grammar{
 													pos: position{line: 1119, col: 6, offset: 34473},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2479, col: 22, offset: 79786},
+															pos: position{line: 2483, col: 22, offset: 79889},
 															run: (*parser).callonDocumentHeader294,
 															expr: &seqExpr{
-																pos: position{line: 2479, col: 22, offset: 79786},
+																pos: position{line: 2483, col: 22, offset: 79889},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2484, col: 31, offset: 80007},
+																		pos:        position{line: 2488, col: 31, offset: 80110},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2484, col: 36, offset: 80012},
+																		pos: position{line: 2488, col: 36, offset: 80115},
 																		expr: &litMatcher{
-																			pos:        position{line: 2484, col: 37, offset: 80013},
+																			pos:        position{line: 2488, col: 37, offset: 80116},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2479, col: 49, offset: 79813},
+																		pos:   position{line: 2483, col: 49, offset: 79916},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2818, col: 13, offset: 89426},
+																			pos: position{line: 2822, col: 13, offset: 89529},
 																			run: (*parser).callonDocumentHeader300,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2818, col: 13, offset: 89426},
+																				pos: position{line: 2822, col: 13, offset: 89529},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2818, col: 13, offset: 89426},
+																					pos:        position{line: 2822, col: 13, offset: 89529},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -17265,28 +17277,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2894, col: 8, offset: 91298},
+																		pos: position{line: 2898, col: 8, offset: 91401},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2881, col: 12, offset: 91071},
+																				pos: position{line: 2885, col: 12, offset: 91174},
 																				run: (*parser).callonDocumentHeader304,
 																				expr: &choiceExpr{
-																					pos: position{line: 2881, col: 13, offset: 91072},
+																					pos: position{line: 2885, col: 13, offset: 91175},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 13, offset: 91072},
+																							pos:        position{line: 2885, col: 13, offset: 91175},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 20, offset: 91079},
+																							pos:        position{line: 2885, col: 20, offset: 91182},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 29, offset: 91088},
+																							pos:        position{line: 2885, col: 29, offset: 91191},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -17295,9 +17307,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2891, col: 8, offset: 91248},
+																				pos: position{line: 2895, col: 8, offset: 91351},
 																				expr: &anyMatcher{
-																					line: 2891, col: 9, offset: 91249,
+																					line: 2895, col: 9, offset: 91352,
 																				},
 																			},
 																		},
@@ -17348,10 +17360,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 741, col: 8, offset: 23693},
 																					expr: &actionExpr{
-																						pos: position{line: 2872, col: 10, offset: 90900},
+																						pos: position{line: 2876, col: 10, offset: 91003},
 																						run: (*parser).callonDocumentHeader322,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2872, col: 10, offset: 90900},
+																							pos:        position{line: 2876, col: 10, offset: 91003},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17360,28 +17372,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2894, col: 8, offset: 91298},
+																					pos: position{line: 2898, col: 8, offset: 91401},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2881, col: 12, offset: 91071},
+																							pos: position{line: 2885, col: 12, offset: 91174},
 																							run: (*parser).callonDocumentHeader325,
 																							expr: &choiceExpr{
-																								pos: position{line: 2881, col: 13, offset: 91072},
+																								pos: position{line: 2885, col: 13, offset: 91175},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2881, col: 13, offset: 91072},
+																										pos:        position{line: 2885, col: 13, offset: 91175},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2881, col: 20, offset: 91079},
+																										pos:        position{line: 2885, col: 20, offset: 91182},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2881, col: 29, offset: 91088},
+																										pos:        position{line: 2885, col: 29, offset: 91191},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -17390,9 +17402,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2891, col: 8, offset: 91248},
+																							pos: position{line: 2895, col: 8, offset: 91351},
 																							expr: &anyMatcher{
-																								line: 2891, col: 9, offset: 91249,
+																								line: 2895, col: 9, offset: 91352,
 																							},
 																						},
 																					},
@@ -17453,10 +17465,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 741, col: 8, offset: 23693},
 																													expr: &actionExpr{
-																														pos: position{line: 2872, col: 10, offset: 90900},
+																														pos: position{line: 2876, col: 10, offset: 91003},
 																														run: (*parser).callonDocumentHeader347,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2872, col: 10, offset: 90900},
+																															pos:        position{line: 2876, col: 10, offset: 91003},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -17465,28 +17477,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2894, col: 8, offset: 91298},
+																													pos: position{line: 2898, col: 8, offset: 91401},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2881, col: 12, offset: 91071},
+																															pos: position{line: 2885, col: 12, offset: 91174},
 																															run: (*parser).callonDocumentHeader350,
 																															expr: &choiceExpr{
-																																pos: position{line: 2881, col: 13, offset: 91072},
+																																pos: position{line: 2885, col: 13, offset: 91175},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2881, col: 13, offset: 91072},
+																																		pos:        position{line: 2885, col: 13, offset: 91175},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2881, col: 20, offset: 91079},
+																																		pos:        position{line: 2885, col: 20, offset: 91182},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2881, col: 29, offset: 91088},
+																																		pos:        position{line: 2885, col: 29, offset: 91191},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -17495,9 +17507,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2891, col: 8, offset: 91248},
+																															pos: position{line: 2895, col: 8, offset: 91351},
 																															expr: &anyMatcher{
-																																line: 2891, col: 9, offset: 91249,
+																																line: 2895, col: 9, offset: 91352,
 																															},
 																														},
 																													},
@@ -17506,9 +17518,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2891, col: 8, offset: 91248},
+																										pos: position{line: 2895, col: 8, offset: 91351},
 																										expr: &anyMatcher{
-																											line: 2891, col: 9, offset: 91249,
+																											line: 2895, col: 9, offset: 91352,
 																										},
 																									},
 																								},
@@ -17524,21 +17536,21 @@ var g = &grammar{
 																									pos: position{line: 810, col: 5, offset: 26100},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2889, col: 11, offset: 91234},
+																											pos: position{line: 2893, col: 11, offset: 91337},
 																											expr: &anyMatcher{
-																												line: 2889, col: 13, offset: 91236,
+																												line: 2893, col: 13, offset: 91339,
 																											},
 																										},
 																										&labeledExpr{
 																											pos:   position{line: 811, col: 5, offset: 26175},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2818, col: 13, offset: 89426},
+																												pos: position{line: 2822, col: 13, offset: 89529},
 																												run: (*parser).callonDocumentHeader365,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2818, col: 13, offset: 89426},
+																													pos: position{line: 2822, col: 13, offset: 89529},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2818, col: 13, offset: 89426},
+																														pos:        position{line: 2822, col: 13, offset: 89529},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -17548,28 +17560,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2894, col: 8, offset: 91298},
+																											pos: position{line: 2898, col: 8, offset: 91401},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2881, col: 12, offset: 91071},
+																													pos: position{line: 2885, col: 12, offset: 91174},
 																													run: (*parser).callonDocumentHeader369,
 																													expr: &choiceExpr{
-																														pos: position{line: 2881, col: 13, offset: 91072},
+																														pos: position{line: 2885, col: 13, offset: 91175},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 13, offset: 91072},
+																																pos:        position{line: 2885, col: 13, offset: 91175},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 20, offset: 91079},
+																																pos:        position{line: 2885, col: 20, offset: 91182},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 29, offset: 91088},
+																																pos:        position{line: 2885, col: 29, offset: 91191},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17578,9 +17590,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2891, col: 8, offset: 91248},
+																													pos: position{line: 2895, col: 8, offset: 91351},
 																													expr: &anyMatcher{
-																														line: 2891, col: 9, offset: 91249,
+																														line: 2895, col: 9, offset: 91352,
 																													},
 																												},
 																											},
@@ -17636,10 +17648,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 741, col: 8, offset: 23693},
 																								expr: &actionExpr{
-																									pos: position{line: 2872, col: 10, offset: 90900},
+																									pos: position{line: 2876, col: 10, offset: 91003},
 																									run: (*parser).callonDocumentHeader387,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2872, col: 10, offset: 90900},
+																										pos:        position{line: 2876, col: 10, offset: 91003},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -17648,28 +17660,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2894, col: 8, offset: 91298},
+																								pos: position{line: 2898, col: 8, offset: 91401},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2881, col: 12, offset: 91071},
+																										pos: position{line: 2885, col: 12, offset: 91174},
 																										run: (*parser).callonDocumentHeader390,
 																										expr: &choiceExpr{
-																											pos: position{line: 2881, col: 13, offset: 91072},
+																											pos: position{line: 2885, col: 13, offset: 91175},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2881, col: 13, offset: 91072},
+																													pos:        position{line: 2885, col: 13, offset: 91175},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2881, col: 20, offset: 91079},
+																													pos:        position{line: 2885, col: 20, offset: 91182},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2881, col: 29, offset: 91088},
+																													pos:        position{line: 2885, col: 29, offset: 91191},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -17678,9 +17690,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2891, col: 8, offset: 91248},
+																										pos: position{line: 2895, col: 8, offset: 91351},
 																										expr: &anyMatcher{
-																											line: 2891, col: 9, offset: 91249,
+																											line: 2895, col: 9, offset: 91352,
 																										},
 																									},
 																								},
@@ -17689,9 +17701,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2891, col: 8, offset: 91248},
+																					pos: position{line: 2895, col: 8, offset: 91351},
 																					expr: &anyMatcher{
-																						line: 2891, col: 9, offset: 91249,
+																						line: 2895, col: 9, offset: 91352,
 																					},
 																				},
 																			},
@@ -17717,10 +17729,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1168, col: 21, offset: 35899},
 																	expr: &actionExpr{
-																		pos: position{line: 2872, col: 10, offset: 90900},
+																		pos: position{line: 2876, col: 10, offset: 91003},
 																		run: (*parser).callonDocumentHeader404,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2872, col: 10, offset: 90900},
+																			pos:        position{line: 2876, col: 10, offset: 91003},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -17822,10 +17834,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 1180, col: 28, offset: 36530},
 																													expr: &actionExpr{
-																														pos: position{line: 2872, col: 10, offset: 90900},
+																														pos: position{line: 2876, col: 10, offset: 91003},
 																														run: (*parser).callonDocumentHeader428,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2872, col: 10, offset: 90900},
+																															pos:        position{line: 2876, col: 10, offset: 91003},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -17972,28 +17984,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2894, col: 8, offset: 91298},
+																	pos: position{line: 2898, col: 8, offset: 91401},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2881, col: 12, offset: 91071},
+																			pos: position{line: 2885, col: 12, offset: 91174},
 																			run: (*parser).callonDocumentHeader460,
 																			expr: &choiceExpr{
-																				pos: position{line: 2881, col: 13, offset: 91072},
+																				pos: position{line: 2885, col: 13, offset: 91175},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 13, offset: 91072},
+																						pos:        position{line: 2885, col: 13, offset: 91175},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 20, offset: 91079},
+																						pos:        position{line: 2885, col: 20, offset: 91182},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 29, offset: 91088},
+																						pos:        position{line: 2885, col: 29, offset: 91191},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18002,9 +18014,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2891, col: 8, offset: 91248},
+																			pos: position{line: 2895, col: 8, offset: 91351},
 																			expr: &anyMatcher{
-																				line: 2891, col: 9, offset: 91249,
+																				line: 2895, col: 9, offset: 91352,
 																			},
 																		},
 																	},
@@ -18084,10 +18096,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 359, col: 49, offset: 10879},
 														expr: &actionExpr{
-															pos: position{line: 2872, col: 10, offset: 90900},
+															pos: position{line: 2876, col: 10, offset: 91003},
 															run: (*parser).callonDocumentHeader482,
 															expr: &charClassMatcher{
-																pos:        position{line: 2872, col: 10, offset: 90900},
+																pos:        position{line: 2876, col: 10, offset: 91003},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18096,28 +18108,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2894, col: 8, offset: 91298},
+														pos: position{line: 2898, col: 8, offset: 91401},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2881, col: 12, offset: 91071},
+																pos: position{line: 2885, col: 12, offset: 91174},
 																run: (*parser).callonDocumentHeader485,
 																expr: &choiceExpr{
-																	pos: position{line: 2881, col: 13, offset: 91072},
+																	pos: position{line: 2885, col: 13, offset: 91175},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2881, col: 13, offset: 91072},
+																			pos:        position{line: 2885, col: 13, offset: 91175},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2881, col: 20, offset: 91079},
+																			pos:        position{line: 2885, col: 20, offset: 91182},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2881, col: 29, offset: 91088},
+																			pos:        position{line: 2885, col: 29, offset: 91191},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18126,9 +18138,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2891, col: 8, offset: 91248},
+																pos: position{line: 2895, col: 8, offset: 91351},
 																expr: &anyMatcher{
-																	line: 2891, col: 9, offset: 91249,
+																	line: 2895, col: 9, offset: 91352,
 																},
 															},
 														},
@@ -18189,10 +18201,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 361, col: 39, offset: 11000},
 														expr: &actionExpr{
-															pos: position{line: 2872, col: 10, offset: 90900},
+															pos: position{line: 2876, col: 10, offset: 91003},
 															run: (*parser).callonDocumentHeader503,
 															expr: &charClassMatcher{
-																pos:        position{line: 2872, col: 10, offset: 90900},
+																pos:        position{line: 2876, col: 10, offset: 91003},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18201,28 +18213,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2894, col: 8, offset: 91298},
+														pos: position{line: 2898, col: 8, offset: 91401},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2881, col: 12, offset: 91071},
+																pos: position{line: 2885, col: 12, offset: 91174},
 																run: (*parser).callonDocumentHeader506,
 																expr: &choiceExpr{
-																	pos: position{line: 2881, col: 13, offset: 91072},
+																	pos: position{line: 2885, col: 13, offset: 91175},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2881, col: 13, offset: 91072},
+																			pos:        position{line: 2885, col: 13, offset: 91175},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2881, col: 20, offset: 91079},
+																			pos:        position{line: 2885, col: 20, offset: 91182},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2881, col: 29, offset: 91088},
+																			pos:        position{line: 2885, col: 29, offset: 91191},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18231,9 +18243,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2891, col: 8, offset: 91248},
+																pos: position{line: 2895, col: 8, offset: 91351},
 																expr: &anyMatcher{
-																	line: 2891, col: 9, offset: 91249,
+																	line: 2895, col: 9, offset: 91352,
 																},
 															},
 														},
@@ -18242,36 +18254,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2479, col: 22, offset: 79786},
+											pos: position{line: 2483, col: 22, offset: 79889},
 											run: (*parser).callonDocumentHeader513,
 											expr: &seqExpr{
-												pos: position{line: 2479, col: 22, offset: 79786},
+												pos: position{line: 2483, col: 22, offset: 79889},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2484, col: 31, offset: 80007},
+														pos:        position{line: 2488, col: 31, offset: 80110},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2484, col: 36, offset: 80012},
+														pos: position{line: 2488, col: 36, offset: 80115},
 														expr: &litMatcher{
-															pos:        position{line: 2484, col: 37, offset: 80013},
+															pos:        position{line: 2488, col: 37, offset: 80116},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2479, col: 49, offset: 79813},
+														pos:   position{line: 2483, col: 49, offset: 79916},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2818, col: 13, offset: 89426},
+															pos: position{line: 2822, col: 13, offset: 89529},
 															run: (*parser).callonDocumentHeader519,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2818, col: 13, offset: 89426},
+																pos: position{line: 2822, col: 13, offset: 89529},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2818, col: 13, offset: 89426},
+																	pos:        position{line: 2822, col: 13, offset: 89529},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -18281,28 +18293,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2894, col: 8, offset: 91298},
+														pos: position{line: 2898, col: 8, offset: 91401},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2881, col: 12, offset: 91071},
+																pos: position{line: 2885, col: 12, offset: 91174},
 																run: (*parser).callonDocumentHeader523,
 																expr: &choiceExpr{
-																	pos: position{line: 2881, col: 13, offset: 91072},
+																	pos: position{line: 2885, col: 13, offset: 91175},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2881, col: 13, offset: 91072},
+																			pos:        position{line: 2885, col: 13, offset: 91175},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2881, col: 20, offset: 91079},
+																			pos:        position{line: 2885, col: 20, offset: 91182},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2881, col: 29, offset: 91088},
+																			pos:        position{line: 2885, col: 29, offset: 91191},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18311,9 +18323,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2891, col: 8, offset: 91248},
+																pos: position{line: 2895, col: 8, offset: 91351},
 																expr: &anyMatcher{
-																	line: 2891, col: 9, offset: 91249,
+																	line: 2895, col: 9, offset: 91352,
 																},
 															},
 														},
@@ -18364,10 +18376,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 741, col: 8, offset: 23693},
 																	expr: &actionExpr{
-																		pos: position{line: 2872, col: 10, offset: 90900},
+																		pos: position{line: 2876, col: 10, offset: 91003},
 																		run: (*parser).callonDocumentHeader541,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2872, col: 10, offset: 90900},
+																			pos:        position{line: 2876, col: 10, offset: 91003},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18376,28 +18388,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2894, col: 8, offset: 91298},
+																	pos: position{line: 2898, col: 8, offset: 91401},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2881, col: 12, offset: 91071},
+																			pos: position{line: 2885, col: 12, offset: 91174},
 																			run: (*parser).callonDocumentHeader544,
 																			expr: &choiceExpr{
-																				pos: position{line: 2881, col: 13, offset: 91072},
+																				pos: position{line: 2885, col: 13, offset: 91175},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 13, offset: 91072},
+																						pos:        position{line: 2885, col: 13, offset: 91175},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 20, offset: 91079},
+																						pos:        position{line: 2885, col: 20, offset: 91182},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 29, offset: 91088},
+																						pos:        position{line: 2885, col: 29, offset: 91191},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18406,9 +18418,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2891, col: 8, offset: 91248},
+																			pos: position{line: 2895, col: 8, offset: 91351},
 																			expr: &anyMatcher{
-																				line: 2891, col: 9, offset: 91249,
+																				line: 2895, col: 9, offset: 91352,
 																			},
 																		},
 																	},
@@ -18469,10 +18481,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 741, col: 8, offset: 23693},
 																									expr: &actionExpr{
-																										pos: position{line: 2872, col: 10, offset: 90900},
+																										pos: position{line: 2876, col: 10, offset: 91003},
 																										run: (*parser).callonDocumentHeader566,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2872, col: 10, offset: 90900},
+																											pos:        position{line: 2876, col: 10, offset: 91003},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -18481,28 +18493,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2894, col: 8, offset: 91298},
+																									pos: position{line: 2898, col: 8, offset: 91401},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2881, col: 12, offset: 91071},
+																											pos: position{line: 2885, col: 12, offset: 91174},
 																											run: (*parser).callonDocumentHeader569,
 																											expr: &choiceExpr{
-																												pos: position{line: 2881, col: 13, offset: 91072},
+																												pos: position{line: 2885, col: 13, offset: 91175},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2881, col: 13, offset: 91072},
+																														pos:        position{line: 2885, col: 13, offset: 91175},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2881, col: 20, offset: 91079},
+																														pos:        position{line: 2885, col: 20, offset: 91182},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2881, col: 29, offset: 91088},
+																														pos:        position{line: 2885, col: 29, offset: 91191},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -18511,9 +18523,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2891, col: 8, offset: 91248},
+																											pos: position{line: 2895, col: 8, offset: 91351},
 																											expr: &anyMatcher{
-																												line: 2891, col: 9, offset: 91249,
+																												line: 2895, col: 9, offset: 91352,
 																											},
 																										},
 																									},
@@ -18522,9 +18534,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2891, col: 8, offset: 91248},
+																						pos: position{line: 2895, col: 8, offset: 91351},
 																						expr: &anyMatcher{
-																							line: 2891, col: 9, offset: 91249,
+																							line: 2895, col: 9, offset: 91352,
 																						},
 																					},
 																				},
@@ -18540,21 +18552,21 @@ var g = &grammar{
 																					pos: position{line: 810, col: 5, offset: 26100},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2889, col: 11, offset: 91234},
+																							pos: position{line: 2893, col: 11, offset: 91337},
 																							expr: &anyMatcher{
-																								line: 2889, col: 13, offset: 91236,
+																								line: 2893, col: 13, offset: 91339,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 811, col: 5, offset: 26175},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2818, col: 13, offset: 89426},
+																								pos: position{line: 2822, col: 13, offset: 89529},
 																								run: (*parser).callonDocumentHeader584,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2818, col: 13, offset: 89426},
+																									pos: position{line: 2822, col: 13, offset: 89529},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2818, col: 13, offset: 89426},
+																										pos:        position{line: 2822, col: 13, offset: 89529},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -18564,28 +18576,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2894, col: 8, offset: 91298},
+																							pos: position{line: 2898, col: 8, offset: 91401},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2881, col: 12, offset: 91071},
+																									pos: position{line: 2885, col: 12, offset: 91174},
 																									run: (*parser).callonDocumentHeader588,
 																									expr: &choiceExpr{
-																										pos: position{line: 2881, col: 13, offset: 91072},
+																										pos: position{line: 2885, col: 13, offset: 91175},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 13, offset: 91072},
+																												pos:        position{line: 2885, col: 13, offset: 91175},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 20, offset: 91079},
+																												pos:        position{line: 2885, col: 20, offset: 91182},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 29, offset: 91088},
+																												pos:        position{line: 2885, col: 29, offset: 91191},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -18594,9 +18606,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2891, col: 8, offset: 91248},
+																									pos: position{line: 2895, col: 8, offset: 91351},
 																									expr: &anyMatcher{
-																										line: 2891, col: 9, offset: 91249,
+																										line: 2895, col: 9, offset: 91352,
 																									},
 																								},
 																							},
@@ -18652,10 +18664,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 741, col: 8, offset: 23693},
 																				expr: &actionExpr{
-																					pos: position{line: 2872, col: 10, offset: 90900},
+																					pos: position{line: 2876, col: 10, offset: 91003},
 																					run: (*parser).callonDocumentHeader606,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2872, col: 10, offset: 90900},
+																						pos:        position{line: 2876, col: 10, offset: 91003},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -18664,28 +18676,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2894, col: 8, offset: 91298},
+																				pos: position{line: 2898, col: 8, offset: 91401},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2881, col: 12, offset: 91071},
+																						pos: position{line: 2885, col: 12, offset: 91174},
 																						run: (*parser).callonDocumentHeader609,
 																						expr: &choiceExpr{
-																							pos: position{line: 2881, col: 13, offset: 91072},
+																							pos: position{line: 2885, col: 13, offset: 91175},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2881, col: 13, offset: 91072},
+																									pos:        position{line: 2885, col: 13, offset: 91175},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2881, col: 20, offset: 91079},
+																									pos:        position{line: 2885, col: 20, offset: 91182},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2881, col: 29, offset: 91088},
+																									pos:        position{line: 2885, col: 29, offset: 91191},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -18694,9 +18706,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2891, col: 8, offset: 91248},
+																						pos: position{line: 2895, col: 8, offset: 91351},
 																						expr: &anyMatcher{
-																							line: 2891, col: 9, offset: 91249,
+																							line: 2895, col: 9, offset: 91352,
 																						},
 																					},
 																				},
@@ -18705,9 +18717,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2891, col: 8, offset: 91248},
+																	pos: position{line: 2895, col: 8, offset: 91351},
 																	expr: &anyMatcher{
-																		line: 2891, col: 9, offset: 91249,
+																		line: 2895, col: 9, offset: 91352,
 																	},
 																},
 															},
@@ -18740,12 +18752,12 @@ var g = &grammar{
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2876, col: 11, offset: 90961},
+							pos: position{line: 2880, col: 11, offset: 91064},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2876, col: 11, offset: 90961},
+								pos: position{line: 2880, col: 11, offset: 91064},
 								expr: &charClassMatcher{
-									pos:        position{line: 2876, col: 11, offset: 90961},
+									pos:        position{line: 2880, col: 11, offset: 91064},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18762,28 +18774,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2894, col: 8, offset: 91298},
+							pos: position{line: 2898, col: 8, offset: 91401},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2881, col: 12, offset: 91071},
+									pos: position{line: 2885, col: 12, offset: 91174},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2881, col: 13, offset: 91072},
+										pos: position{line: 2885, col: 13, offset: 91175},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2881, col: 13, offset: 91072},
+												pos:        position{line: 2885, col: 13, offset: 91175},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2881, col: 20, offset: 91079},
+												pos:        position{line: 2885, col: 20, offset: 91182},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2881, col: 29, offset: 91088},
+												pos:        position{line: 2885, col: 29, offset: 91191},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -18792,9 +18804,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2891, col: 8, offset: 91248},
+									pos: position{line: 2895, col: 8, offset: 91351},
 									expr: &anyMatcher{
-										line: 2891, col: 9, offset: 91249,
+										line: 2895, col: 9, offset: 91352,
 									},
 								},
 							},
@@ -18833,10 +18845,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1143, col: 5, offset: 35303},
 							expr: &actionExpr{
-								pos: position{line: 2872, col: 10, offset: 90900},
+								pos: position{line: 2876, col: 10, offset: 91003},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2872, col: 10, offset: 90900},
+									pos:        position{line: 2876, col: 10, offset: 91003},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18868,10 +18880,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1147, col: 5, offset: 35402},
 							expr: &actionExpr{
-								pos: position{line: 2872, col: 10, offset: 90900},
+								pos: position{line: 2876, col: 10, offset: 91003},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2872, col: 10, offset: 90900},
+									pos:        position{line: 2876, col: 10, offset: 91003},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18903,10 +18915,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1151, col: 5, offset: 35499},
 							expr: &actionExpr{
-								pos: position{line: 2872, col: 10, offset: 90900},
+								pos: position{line: 2876, col: 10, offset: 91003},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2872, col: 10, offset: 90900},
+									pos:        position{line: 2876, col: 10, offset: 91003},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18920,28 +18932,28 @@ var g = &grammar{
 		},
 		{
 			name: "InlineButton",
-			pos:  position{line: 1264, col: 1, offset: 39228},
+			pos:  position{line: 1268, col: 1, offset: 39331},
 			expr: &actionExpr{
-				pos: position{line: 1265, col: 5, offset: 39249},
+				pos: position{line: 1269, col: 5, offset: 39352},
 				run: (*parser).callonInlineButton1,
 				expr: &seqExpr{
-					pos: position{line: 1265, col: 5, offset: 39249},
+					pos: position{line: 1269, col: 5, offset: 39352},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1265, col: 5, offset: 39249},
+							pos: position{line: 1269, col: 5, offset: 39352},
 							run: (*parser).callonInlineButton3,
 						},
 						&litMatcher{
-							pos:        position{line: 1268, col: 5, offset: 39308},
+							pos:        position{line: 1272, col: 5, offset: 39411},
 							val:        "btn:",
 							ignoreCase: false,
 							want:       "\"btn:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1268, col: 12, offset: 39315},
+							pos:   position{line: 1272, col: 12, offset: 39418},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1268, col: 24, offset: 39327},
+								pos:  position{line: 1272, col: 24, offset: 39430},
 								name: "InlineAttributes",
 							},
 						},
@@ -18951,33 +18963,33 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMenu",
-			pos:  position{line: 1275, col: 1, offset: 39615},
+			pos:  position{line: 1279, col: 1, offset: 39718},
 			expr: &actionExpr{
-				pos: position{line: 1276, col: 5, offset: 39634},
+				pos: position{line: 1280, col: 5, offset: 39737},
 				run: (*parser).callonInlineMenu1,
 				expr: &seqExpr{
-					pos: position{line: 1276, col: 5, offset: 39634},
+					pos: position{line: 1280, col: 5, offset: 39737},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1276, col: 5, offset: 39634},
+							pos: position{line: 1280, col: 5, offset: 39737},
 							run: (*parser).callonInlineMenu3,
 						},
 						&litMatcher{
-							pos:        position{line: 1279, col: 5, offset: 39693},
+							pos:        position{line: 1283, col: 5, offset: 39796},
 							val:        "menu:",
 							ignoreCase: false,
 							want:       "\"menu:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1279, col: 13, offset: 39701},
+							pos:   position{line: 1283, col: 13, offset: 39804},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2857, col: 7, offset: 90552},
+								pos: position{line: 2861, col: 7, offset: 90655},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2857, col: 7, offset: 90552},
+									pos: position{line: 2861, col: 7, offset: 90655},
 									expr: &charClassMatcher{
-										pos:        position{line: 2857, col: 7, offset: 90552},
+										pos:        position{line: 2861, col: 7, offset: 90655},
 										val:        "[^[]<>,\\r\\n]",
 										chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 										ignoreCase: false,
@@ -18987,10 +18999,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1279, col: 21, offset: 39709},
+							pos:   position{line: 1283, col: 21, offset: 39812},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1279, col: 33, offset: 39721},
+								pos:  position{line: 1283, col: 33, offset: 39824},
 								name: "InlineAttributes",
 							},
 						},
@@ -19000,29 +19012,29 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTerm",
-			pos:  position{line: 1286, col: 1, offset: 40020},
+			pos:  position{line: 1290, col: 1, offset: 40123},
 			expr: &actionExpr{
-				pos: position{line: 1286, col: 14, offset: 40033},
+				pos: position{line: 1290, col: 14, offset: 40136},
 				run: (*parser).callonIndexTerm1,
 				expr: &seqExpr{
-					pos: position{line: 1286, col: 14, offset: 40033},
+					pos: position{line: 1290, col: 14, offset: 40136},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1286, col: 14, offset: 40033},
+							pos:        position{line: 1290, col: 14, offset: 40136},
 							val:        "((",
 							ignoreCase: false,
 							want:       "\"((\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1286, col: 19, offset: 40038},
+							pos:   position{line: 1290, col: 19, offset: 40141},
 							label: "term",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1286, col: 25, offset: 40044},
+								pos:  position{line: 1290, col: 25, offset: 40147},
 								name: "IndexTermContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1286, col: 43, offset: 40062},
+							pos:        position{line: 1290, col: 43, offset: 40165},
 							val:        "))",
 							ignoreCase: false,
 							want:       "\"))\"",
@@ -19033,25 +19045,25 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTermContent",
-			pos:  position{line: 1290, col: 1, offset: 40131},
+			pos:  position{line: 1294, col: 1, offset: 40234},
 			expr: &actionExpr{
-				pos: position{line: 1290, col: 21, offset: 40151},
+				pos: position{line: 1294, col: 21, offset: 40254},
 				run: (*parser).callonIndexTermContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 1290, col: 21, offset: 40151},
+					pos:   position{line: 1294, col: 21, offset: 40254},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 1290, col: 30, offset: 40160},
+						pos: position{line: 1294, col: 30, offset: 40263},
 						expr: &choiceExpr{
-							pos: position{line: 1290, col: 31, offset: 40161},
+							pos: position{line: 1294, col: 31, offset: 40264},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2766, col: 14, offset: 88048},
+									pos: position{line: 2770, col: 14, offset: 88151},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2766, col: 14, offset: 88048},
+										pos: position{line: 2770, col: 14, offset: 88151},
 										expr: &charClassMatcher{
-											pos:        position{line: 2766, col: 14, offset: 88048},
+											pos:        position{line: 2770, col: 14, offset: 88151},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -19060,14 +19072,14 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 1290, col: 43, offset: 40173},
+									pos:  position{line: 1294, col: 43, offset: 40276},
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2872, col: 10, offset: 90900},
+									pos: position{line: 2876, col: 10, offset: 91003},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2872, col: 10, offset: 90900},
+										pos:        position{line: 2876, col: 10, offset: 91003},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -19075,23 +19087,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2466, col: 5, offset: 79332},
+									pos: position{line: 2470, col: 5, offset: 79435},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2466, col: 5, offset: 79332},
+										pos: position{line: 2470, col: 5, offset: 79435},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2466, col: 5, offset: 79332},
+												pos: position{line: 2470, col: 5, offset: 79435},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2469, col: 5, offset: 79408},
+												pos:   position{line: 2473, col: 5, offset: 79511},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2470, col: 9, offset: 79426},
+													pos: position{line: 2474, col: 9, offset: 79529},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2470, col: 10, offset: 79427},
+														pos:        position{line: 2474, col: 10, offset: 79530},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -19138,26 +19150,30 @@ var g = &grammar{
 												ignoreCase: false,
 												want:       "\"�\"",
 											},
+											&andCodeExpr{
+												pos: position{line: 1198, col: 5, offset: 37089},
+												run: (*parser).callonIndexTermContent25,
+											},
 										},
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1290, col: 104, offset: 40234},
-									run: (*parser).callonIndexTermContent25,
+									pos: position{line: 1294, col: 104, offset: 40337},
+									run: (*parser).callonIndexTermContent26,
 									expr: &seqExpr{
-										pos: position{line: 1290, col: 105, offset: 40235},
+										pos: position{line: 1294, col: 105, offset: 40338},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1290, col: 105, offset: 40235},
+												pos: position{line: 1294, col: 105, offset: 40338},
 												expr: &litMatcher{
-													pos:        position{line: 1290, col: 106, offset: 40236},
+													pos:        position{line: 1294, col: 106, offset: 40339},
 													val:        "))",
 													ignoreCase: false,
 													want:       "\"))\"",
 												},
 											},
 											&anyMatcher{
-												line: 1290, col: 111, offset: 40241,
+												line: 1294, col: 111, offset: 40344,
 											},
 										},
 									},
@@ -19170,21 +19186,21 @@ var g = &grammar{
 		},
 		{
 			name: "ImageBlock",
-			pos:  position{line: 1310, col: 1, offset: 40950},
+			pos:  position{line: 1314, col: 1, offset: 41053},
 			expr: &actionExpr{
-				pos: position{line: 1311, col: 5, offset: 40969},
+				pos: position{line: 1315, col: 5, offset: 41072},
 				run: (*parser).callonImageBlock1,
 				expr: &seqExpr{
-					pos: position{line: 1311, col: 5, offset: 40969},
+					pos: position{line: 1315, col: 5, offset: 41072},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1311, col: 5, offset: 40969},
+							pos:   position{line: 1315, col: 5, offset: 41072},
 							label: "start",
 							expr: &actionExpr{
-								pos: position{line: 2897, col: 16, offset: 91422},
+								pos: position{line: 2901, col: 16, offset: 91525},
 								run: (*parser).callonImageBlock4,
 								expr: &litMatcher{
-									pos:        position{line: 2897, col: 16, offset: 91422},
+									pos:        position{line: 2901, col: 16, offset: 91525},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -19192,57 +19208,57 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1311, col: 25, offset: 40989},
+							pos:        position{line: 1315, col: 25, offset: 41092},
 							val:        "image::",
 							ignoreCase: false,
 							want:       "\"image::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1311, col: 35, offset: 40999},
+							pos:   position{line: 1315, col: 35, offset: 41102},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2830, col: 13, offset: 89659},
+								pos: position{line: 2834, col: 13, offset: 89762},
 								run: (*parser).callonImageBlock8,
 								expr: &seqExpr{
-									pos: position{line: 2830, col: 13, offset: 89659},
+									pos: position{line: 2834, col: 13, offset: 89762},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2830, col: 13, offset: 89659},
+											pos:   position{line: 2834, col: 13, offset: 89762},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2830, col: 20, offset: 89666},
+												pos: position{line: 2834, col: 20, offset: 89769},
 												expr: &actionExpr{
-													pos: position{line: 2838, col: 11, offset: 89905},
+													pos: position{line: 2842, col: 11, offset: 90008},
 													run: (*parser).callonImageBlock12,
 													expr: &choiceExpr{
-														pos: position{line: 2838, col: 12, offset: 89906},
+														pos: position{line: 2842, col: 12, offset: 90009},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2838, col: 12, offset: 89906},
+																pos:        position{line: 2842, col: 12, offset: 90009},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2838, col: 24, offset: 89918},
+																pos:        position{line: 2842, col: 24, offset: 90021},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2838, col: 37, offset: 89931},
+																pos:        position{line: 2842, col: 37, offset: 90034},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2838, col: 48, offset: 89942},
+																pos:        position{line: 2842, col: 48, offset: 90045},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2838, col: 59, offset: 89953},
+																pos:        position{line: 2842, col: 59, offset: 90056},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19253,38 +19269,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2830, col: 30, offset: 89676},
+											pos:   position{line: 2834, col: 30, offset: 89779},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2843, col: 5, offset: 90017},
+												pos: position{line: 2847, col: 5, offset: 90120},
 												run: (*parser).callonImageBlock20,
 												expr: &labeledExpr{
-													pos:   position{line: 2843, col: 5, offset: 90017},
+													pos:   position{line: 2847, col: 5, offset: 90120},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2843, col: 14, offset: 90026},
+														pos: position{line: 2847, col: 14, offset: 90129},
 														expr: &choiceExpr{
-															pos: position{line: 2844, col: 9, offset: 90036},
+															pos: position{line: 2848, col: 9, offset: 90139},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2844, col: 9, offset: 90036},
+																	pos: position{line: 2848, col: 9, offset: 90139},
 																	run: (*parser).callonImageBlock24,
 																	expr: &seqExpr{
-																		pos: position{line: 2844, col: 9, offset: 90036},
+																		pos: position{line: 2848, col: 9, offset: 90139},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2844, col: 9, offset: 90036},
+																				pos: position{line: 2848, col: 9, offset: 90139},
 																				expr: &litMatcher{
-																					pos:        position{line: 2844, col: 10, offset: 90037},
+																					pos:        position{line: 2848, col: 10, offset: 90140},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2845, col: 9, offset: 90065},
+																				pos: position{line: 2849, col: 9, offset: 90168},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2845, col: 10, offset: 90066},
+																					pos:        position{line: 2849, col: 10, offset: 90169},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19295,27 +19311,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2848, col: 11, offset: 90278},
+																	pos: position{line: 2852, col: 11, offset: 90381},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2848, col: 11, offset: 90278},
+																			pos:        position{line: 2852, col: 11, offset: 90381},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2848, col: 19, offset: 90286},
+																			pos: position{line: 2852, col: 19, offset: 90389},
 																			expr: &seqExpr{
-																				pos: position{line: 2848, col: 21, offset: 90288},
+																				pos: position{line: 2852, col: 21, offset: 90391},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2848, col: 21, offset: 90288},
+																						pos: position{line: 2852, col: 21, offset: 90391},
 																						expr: &actionExpr{
-																							pos: position{line: 2872, col: 10, offset: 90900},
+																							pos: position{line: 2876, col: 10, offset: 91003},
 																							run: (*parser).callonImageBlock35,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2872, col: 10, offset: 90900},
+																								pos:        position{line: 2876, col: 10, offset: 91003},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19324,11 +19340,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2848, col: 28, offset: 90295},
+																						pos: position{line: 2852, col: 28, offset: 90398},
 																						expr: &notExpr{
-																							pos: position{line: 2891, col: 8, offset: 91248},
+																							pos: position{line: 2895, col: 8, offset: 91351},
 																							expr: &anyMatcher{
-																								line: 2891, col: 9, offset: 91249,
+																								line: 2895, col: 9, offset: 91352,
 																							},
 																						},
 																					},
@@ -19719,14 +19735,18 @@ var g = &grammar{
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
+																			&andCodeExpr{
+																				pos: position{line: 1198, col: 5, offset: 37089},
+																				run: (*parser).callonImageBlock117,
+																			},
 																		},
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2851, col: 11, offset: 90415},
-																	run: (*parser).callonImageBlock117,
+																	pos: position{line: 2855, col: 11, offset: 90518},
+																	run: (*parser).callonImageBlock118,
 																	expr: &litMatcher{
-																		pos:        position{line: 2851, col: 11, offset: 90415},
+																		pos:        position{line: 2855, col: 11, offset: 90518},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -19743,20 +19763,20 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1311, col: 51, offset: 41015},
+							pos:   position{line: 1315, col: 51, offset: 41118},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1311, col: 63, offset: 41027},
+								pos:  position{line: 1315, col: 63, offset: 41130},
 								name: "InlineAttributes",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1311, col: 81, offset: 41045},
+							pos: position{line: 1315, col: 81, offset: 41148},
 							expr: &actionExpr{
-								pos: position{line: 2872, col: 10, offset: 90900},
-								run: (*parser).callonImageBlock122,
+								pos: position{line: 2876, col: 10, offset: 91003},
+								run: (*parser).callonImageBlock123,
 								expr: &charClassMatcher{
-									pos:        position{line: 2872, col: 10, offset: 90900},
+									pos:        position{line: 2876, col: 10, offset: 91003},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19765,13 +19785,13 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1311, col: 88, offset: 41052},
+							pos:   position{line: 1315, col: 88, offset: 41155},
 							label: "end",
 							expr: &actionExpr{
-								pos: position{line: 2897, col: 16, offset: 91422},
-								run: (*parser).callonImageBlock125,
+								pos: position{line: 2901, col: 16, offset: 91525},
+								run: (*parser).callonImageBlock126,
 								expr: &litMatcher{
-									pos:        position{line: 2897, col: 16, offset: 91422},
+									pos:        position{line: 2901, col: 16, offset: 91525},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -19779,32 +19799,32 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1311, col: 106, offset: 41070},
-							run: (*parser).callonImageBlock127,
+							pos: position{line: 1315, col: 106, offset: 41173},
+							run: (*parser).callonImageBlock128,
 						},
 						&choiceExpr{
-							pos: position{line: 2894, col: 8, offset: 91298},
+							pos: position{line: 2898, col: 8, offset: 91401},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2881, col: 12, offset: 91071},
-									run: (*parser).callonImageBlock129,
+									pos: position{line: 2885, col: 12, offset: 91174},
+									run: (*parser).callonImageBlock130,
 									expr: &choiceExpr{
-										pos: position{line: 2881, col: 13, offset: 91072},
+										pos: position{line: 2885, col: 13, offset: 91175},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2881, col: 13, offset: 91072},
+												pos:        position{line: 2885, col: 13, offset: 91175},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2881, col: 20, offset: 91079},
+												pos:        position{line: 2885, col: 20, offset: 91182},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2881, col: 29, offset: 91088},
+												pos:        position{line: 2885, col: 29, offset: 91191},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19813,9 +19833,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2891, col: 8, offset: 91248},
+									pos: position{line: 2895, col: 8, offset: 91351},
 									expr: &anyMatcher{
-										line: 2891, col: 9, offset: 91249,
+										line: 2895, col: 9, offset: 91352,
 									},
 								},
 							},
@@ -19826,74 +19846,74 @@ var g = &grammar{
 		},
 		{
 			name: "InlineImage",
-			pos:  position{line: 1316, col: 1, offset: 41310},
+			pos:  position{line: 1320, col: 1, offset: 41413},
 			expr: &actionExpr{
-				pos: position{line: 1316, col: 16, offset: 41325},
+				pos: position{line: 1320, col: 16, offset: 41428},
 				run: (*parser).callonInlineImage1,
 				expr: &seqExpr{
-					pos: position{line: 1316, col: 16, offset: 41325},
+					pos: position{line: 1320, col: 16, offset: 41428},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1316, col: 16, offset: 41325},
+							pos:        position{line: 1320, col: 16, offset: 41428},
 							val:        "image:",
 							ignoreCase: false,
 							want:       "\"image:\"",
 						},
 						&notExpr{
-							pos: position{line: 1316, col: 25, offset: 41334},
+							pos: position{line: 1320, col: 25, offset: 41437},
 							expr: &litMatcher{
-								pos:        position{line: 1316, col: 26, offset: 41335},
+								pos:        position{line: 1320, col: 26, offset: 41438},
 								val:        ":",
 								ignoreCase: false,
 								want:       "\":\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1316, col: 30, offset: 41339},
+							pos:   position{line: 1320, col: 30, offset: 41442},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2830, col: 13, offset: 89659},
+								pos: position{line: 2834, col: 13, offset: 89762},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2830, col: 13, offset: 89659},
+									pos: position{line: 2834, col: 13, offset: 89762},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2830, col: 13, offset: 89659},
+											pos:   position{line: 2834, col: 13, offset: 89762},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2830, col: 20, offset: 89666},
+												pos: position{line: 2834, col: 20, offset: 89769},
 												expr: &actionExpr{
-													pos: position{line: 2838, col: 11, offset: 89905},
+													pos: position{line: 2842, col: 11, offset: 90008},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2838, col: 12, offset: 89906},
+														pos: position{line: 2842, col: 12, offset: 90009},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2838, col: 12, offset: 89906},
+																pos:        position{line: 2842, col: 12, offset: 90009},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2838, col: 24, offset: 89918},
+																pos:        position{line: 2842, col: 24, offset: 90021},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2838, col: 37, offset: 89931},
+																pos:        position{line: 2842, col: 37, offset: 90034},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2838, col: 48, offset: 89942},
+																pos:        position{line: 2842, col: 48, offset: 90045},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2838, col: 59, offset: 89953},
+																pos:        position{line: 2842, col: 59, offset: 90056},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19904,38 +19924,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2830, col: 30, offset: 89676},
+											pos:   position{line: 2834, col: 30, offset: 89779},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2843, col: 5, offset: 90017},
+												pos: position{line: 2847, col: 5, offset: 90120},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2843, col: 5, offset: 90017},
+													pos:   position{line: 2847, col: 5, offset: 90120},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2843, col: 14, offset: 90026},
+														pos: position{line: 2847, col: 14, offset: 90129},
 														expr: &choiceExpr{
-															pos: position{line: 2844, col: 9, offset: 90036},
+															pos: position{line: 2848, col: 9, offset: 90139},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2844, col: 9, offset: 90036},
+																	pos: position{line: 2848, col: 9, offset: 90139},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2844, col: 9, offset: 90036},
+																		pos: position{line: 2848, col: 9, offset: 90139},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2844, col: 9, offset: 90036},
+																				pos: position{line: 2848, col: 9, offset: 90139},
 																				expr: &litMatcher{
-																					pos:        position{line: 2844, col: 10, offset: 90037},
+																					pos:        position{line: 2848, col: 10, offset: 90140},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2845, col: 9, offset: 90065},
+																				pos: position{line: 2849, col: 9, offset: 90168},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2845, col: 10, offset: 90066},
+																					pos:        position{line: 2849, col: 10, offset: 90169},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19946,27 +19966,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2848, col: 11, offset: 90278},
+																	pos: position{line: 2852, col: 11, offset: 90381},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2848, col: 11, offset: 90278},
+																			pos:        position{line: 2852, col: 11, offset: 90381},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2848, col: 19, offset: 90286},
+																			pos: position{line: 2852, col: 19, offset: 90389},
 																			expr: &seqExpr{
-																				pos: position{line: 2848, col: 21, offset: 90288},
+																				pos: position{line: 2852, col: 21, offset: 90391},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2848, col: 21, offset: 90288},
+																						pos: position{line: 2852, col: 21, offset: 90391},
 																						expr: &actionExpr{
-																							pos: position{line: 2872, col: 10, offset: 90900},
+																							pos: position{line: 2876, col: 10, offset: 91003},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2872, col: 10, offset: 90900},
+																								pos:        position{line: 2876, col: 10, offset: 91003},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19975,11 +19995,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2848, col: 28, offset: 90295},
+																						pos: position{line: 2852, col: 28, offset: 90398},
 																						expr: &notExpr{
-																							pos: position{line: 2891, col: 8, offset: 91248},
+																							pos: position{line: 2895, col: 8, offset: 91351},
 																							expr: &anyMatcher{
-																								line: 2891, col: 9, offset: 91249,
+																								line: 2895, col: 9, offset: 91352,
 																							},
 																						},
 																					},
@@ -20370,14 +20390,18 @@ var g = &grammar{
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
+																			&andCodeExpr{
+																				pos: position{line: 1198, col: 5, offset: 37089},
+																				run: (*parser).callonInlineImage116,
+																			},
 																		},
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2851, col: 11, offset: 90415},
-																	run: (*parser).callonInlineImage116,
+																	pos: position{line: 2855, col: 11, offset: 90518},
+																	run: (*parser).callonInlineImage117,
 																	expr: &litMatcher{
-																		pos:        position{line: 2851, col: 11, offset: 90415},
+																		pos:        position{line: 2855, col: 11, offset: 90518},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20394,10 +20418,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1316, col: 46, offset: 41355},
+							pos:   position{line: 1320, col: 46, offset: 41458},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1316, col: 58, offset: 41367},
+								pos:  position{line: 1320, col: 58, offset: 41470},
 								name: "InlineAttributes",
 							},
 						},
@@ -20407,29 +20431,29 @@ var g = &grammar{
 		},
 		{
 			name: "InlineIcon",
-			pos:  position{line: 1323, col: 1, offset: 41763},
+			pos:  position{line: 1327, col: 1, offset: 41866},
 			expr: &actionExpr{
-				pos: position{line: 1323, col: 15, offset: 41777},
+				pos: position{line: 1327, col: 15, offset: 41880},
 				run: (*parser).callonInlineIcon1,
 				expr: &seqExpr{
-					pos: position{line: 1323, col: 15, offset: 41777},
+					pos: position{line: 1327, col: 15, offset: 41880},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1323, col: 15, offset: 41777},
+							pos:        position{line: 1327, col: 15, offset: 41880},
 							val:        "icon:",
 							ignoreCase: false,
 							want:       "\"icon:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1323, col: 23, offset: 41785},
+							pos:   position{line: 1327, col: 23, offset: 41888},
 							label: "icon",
 							expr: &actionExpr{
-								pos: position{line: 1323, col: 29, offset: 41791},
+								pos: position{line: 1327, col: 29, offset: 41894},
 								run: (*parser).callonInlineIcon5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1323, col: 29, offset: 41791},
+									pos: position{line: 1327, col: 29, offset: 41894},
 									expr: &charClassMatcher{
-										pos:        position{line: 1323, col: 29, offset: 41791},
+										pos:        position{line: 1327, col: 29, offset: 41894},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20440,10 +20464,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1323, col: 73, offset: 41835},
+							pos:   position{line: 1327, col: 73, offset: 41938},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1323, col: 85, offset: 41847},
+								pos:  position{line: 1327, col: 85, offset: 41950},
 								name: "InlineAttributes",
 							},
 						},
@@ -20453,31 +20477,31 @@ var g = &grammar{
 		},
 		{
 			name: "InlineFootnote",
-			pos:  position{line: 1330, col: 1, offset: 42213},
+			pos:  position{line: 1334, col: 1, offset: 42316},
 			expr: &actionExpr{
-				pos: position{line: 1330, col: 19, offset: 42231},
+				pos: position{line: 1334, col: 19, offset: 42334},
 				run: (*parser).callonInlineFootnote1,
 				expr: &seqExpr{
-					pos: position{line: 1330, col: 19, offset: 42231},
+					pos: position{line: 1334, col: 19, offset: 42334},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1330, col: 19, offset: 42231},
+							pos:        position{line: 1334, col: 19, offset: 42334},
 							val:        "footnote:",
 							ignoreCase: false,
 							want:       "\"footnote:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1330, col: 31, offset: 42243},
+							pos:   position{line: 1334, col: 31, offset: 42346},
 							label: "ref",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1330, col: 35, offset: 42247},
+								pos: position{line: 1334, col: 35, offset: 42350},
 								expr: &actionExpr{
-									pos: position{line: 1334, col: 16, offset: 42407},
+									pos: position{line: 1338, col: 16, offset: 42510},
 									run: (*parser).callonInlineFootnote6,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1334, col: 16, offset: 42407},
+										pos: position{line: 1338, col: 16, offset: 42510},
 										expr: &charClassMatcher{
-											pos:        position{line: 1334, col: 16, offset: 42407},
+											pos:        position{line: 1338, col: 16, offset: 42510},
 											val:        "[_-\\pL\\pN]",
 											chars:      []rune{'_', '-'},
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20489,21 +20513,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1330, col: 50, offset: 42262},
+							pos:        position{line: 1334, col: 50, offset: 42365},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1330, col: 54, offset: 42266},
+							pos:   position{line: 1334, col: 54, offset: 42369},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1330, col: 64, offset: 42276},
+								pos:  position{line: 1334, col: 64, offset: 42379},
 								name: "FootnoteElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1330, col: 82, offset: 42294},
+							pos:        position{line: 1334, col: 82, offset: 42397},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -20514,17 +20538,17 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElements",
-			pos:  position{line: 1336, col: 1, offset: 42451},
+			pos:  position{line: 1340, col: 1, offset: 42554},
 			expr: &actionExpr{
-				pos: position{line: 1336, col: 21, offset: 42471},
+				pos: position{line: 1340, col: 21, offset: 42574},
 				run: (*parser).callonFootnoteElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1336, col: 21, offset: 42471},
+					pos:   position{line: 1340, col: 21, offset: 42574},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1336, col: 30, offset: 42480},
+						pos: position{line: 1340, col: 30, offset: 42583},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1336, col: 31, offset: 42481},
+							pos:  position{line: 1340, col: 31, offset: 42584},
 							name: "FootnoteElement",
 						},
 					},
@@ -20533,44 +20557,44 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElement",
-			pos:  position{line: 1340, col: 1, offset: 42573},
+			pos:  position{line: 1344, col: 1, offset: 42676},
 			expr: &actionExpr{
-				pos: position{line: 1341, col: 5, offset: 42597},
+				pos: position{line: 1345, col: 5, offset: 42700},
 				run: (*parser).callonFootnoteElement1,
 				expr: &seqExpr{
-					pos: position{line: 1341, col: 5, offset: 42597},
+					pos: position{line: 1345, col: 5, offset: 42700},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1341, col: 5, offset: 42597},
+							pos: position{line: 1345, col: 5, offset: 42700},
 							expr: &litMatcher{
-								pos:        position{line: 1341, col: 6, offset: 42598},
+								pos:        position{line: 1345, col: 6, offset: 42701},
 								val:        "]",
 								ignoreCase: false,
 								want:       "\"]\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1342, col: 5, offset: 42607},
+							pos:   position{line: 1346, col: 5, offset: 42710},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1343, col: 9, offset: 42625},
+								pos: position{line: 1347, col: 9, offset: 42728},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2771, col: 5, offset: 88121},
+										pos: position{line: 2775, col: 5, offset: 88224},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2771, col: 5, offset: 88121},
+											pos: position{line: 2775, col: 5, offset: 88224},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2771, col: 5, offset: 88121},
+													pos:   position{line: 2775, col: 5, offset: 88224},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2771, col: 11, offset: 88127},
+														pos: position{line: 2775, col: 11, offset: 88230},
 														run: (*parser).callonFootnoteElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2771, col: 11, offset: 88127},
+															pos: position{line: 2775, col: 11, offset: 88230},
 															expr: &charClassMatcher{
-																pos:        position{line: 2771, col: 11, offset: 88127},
+																pos:        position{line: 2775, col: 11, offset: 88230},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -20580,44 +20604,44 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2774, col: 5, offset: 88185},
+													pos: position{line: 2778, col: 5, offset: 88288},
 													expr: &seqExpr{
-														pos: position{line: 2775, col: 9, offset: 88196},
+														pos: position{line: 2779, col: 9, offset: 88299},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2775, col: 9, offset: 88196},
+																pos:        position{line: 2779, col: 9, offset: 88299},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2776, col: 9, offset: 88245},
+																pos: position{line: 2780, col: 9, offset: 88348},
 																run: (*parser).callonFootnoteElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2780, col: 5, offset: 88325},
+													pos: position{line: 2784, col: 5, offset: 88428},
 													expr: &seqExpr{
-														pos: position{line: 2781, col: 9, offset: 88336},
+														pos: position{line: 2785, col: 9, offset: 88439},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2781, col: 9, offset: 88336},
+																pos: position{line: 2785, col: 9, offset: 88439},
 																expr: &seqExpr{
-																	pos: position{line: 2781, col: 10, offset: 88337},
+																	pos: position{line: 2785, col: 10, offset: 88440},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2781, col: 10, offset: 88337},
+																			pos:        position{line: 2785, col: 10, offset: 88440},
 																			val:        "[._%+-]",
 																			chars:      []rune{'.', '_', '%', '+', '-'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2781, col: 18, offset: 88345},
+																			pos: position{line: 2785, col: 18, offset: 88448},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2781, col: 18, offset: 88345},
+																				pos:        position{line: 2785, col: 18, offset: 88448},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -20628,13 +20652,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2781, col: 30, offset: 88357},
+																pos:        position{line: 2785, col: 30, offset: 88460},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2781, col: 34, offset: 88361},
+																pos:        position{line: 2785, col: 34, offset: 88464},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -20647,12 +20671,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2876, col: 11, offset: 90961},
+										pos: position{line: 2880, col: 11, offset: 91064},
 										run: (*parser).callonFootnoteElement26,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2876, col: 11, offset: 90961},
+											pos: position{line: 2880, col: 11, offset: 91064},
 											expr: &charClassMatcher{
-												pos:        position{line: 2876, col: 11, offset: 90961},
+												pos:        position{line: 2880, col: 11, offset: 91064},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -20661,25 +20685,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2497, col: 5, offset: 80503},
+										pos: position{line: 2501, col: 5, offset: 80606},
 										run: (*parser).callonFootnoteElement29,
 										expr: &seqExpr{
-											pos: position{line: 2497, col: 5, offset: 80503},
+											pos: position{line: 2501, col: 5, offset: 80606},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2497, col: 5, offset: 80503},
+													pos: position{line: 2501, col: 5, offset: 80606},
 													run: (*parser).callonFootnoteElement31,
 												},
 												&litMatcher{
-													pos:        position{line: 2500, col: 5, offset: 80574},
+													pos:        position{line: 2504, col: 5, offset: 80677},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2500, col: 10, offset: 80579},
+													pos: position{line: 2504, col: 10, offset: 80682},
 													expr: &charClassMatcher{
-														pos:        position{line: 2500, col: 11, offset: 80580},
+														pos:        position{line: 2504, col: 11, offset: 80683},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -20690,29 +20714,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2506, col: 5, offset: 80772},
+										pos: position{line: 2510, col: 5, offset: 80875},
 										run: (*parser).callonFootnoteElement35,
 										expr: &seqExpr{
-											pos: position{line: 2506, col: 5, offset: 80772},
+											pos: position{line: 2510, col: 5, offset: 80875},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2506, col: 5, offset: 80772},
+													pos: position{line: 2510, col: 5, offset: 80875},
 													run: (*parser).callonFootnoteElement37,
 												},
 												&andCodeExpr{
-													pos: position{line: 2509, col: 5, offset: 80843},
+													pos: position{line: 2513, col: 5, offset: 80946},
 													run: (*parser).callonFootnoteElement38,
 												},
 												&litMatcher{
-													pos:        position{line: 2513, col: 5, offset: 80968},
+													pos:        position{line: 2517, col: 5, offset: 81071},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2513, col: 9, offset: 80972},
+													pos: position{line: 2517, col: 9, offset: 81075},
 													expr: &charClassMatcher{
-														pos:        position{line: 2513, col: 10, offset: 80973},
+														pos:        position{line: 2517, col: 10, offset: 81076},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -20723,35 +20747,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1346, col: 11, offset: 42692},
+										pos:  position{line: 1350, col: 11, offset: 42795},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1347, col: 11, offset: 42708},
+										pos:  position{line: 1351, col: 11, offset: 42811},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2789, col: 5, offset: 88554},
+										pos: position{line: 2793, col: 5, offset: 88657},
 										run: (*parser).callonFootnoteElement44,
 										expr: &choiceExpr{
-											pos: position{line: 2790, col: 9, offset: 88564},
+											pos: position{line: 2794, col: 9, offset: 88667},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2790, col: 10, offset: 88565},
+													pos:        position{line: 2794, col: 10, offset: 88668},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2792, col: 13, offset: 88662},
+													pos: position{line: 2796, col: 13, offset: 88765},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2792, col: 13, offset: 88662},
+															pos: position{line: 2796, col: 13, offset: 88765},
 															run: (*parser).callonFootnoteElement48,
 														},
 														&litMatcher{
-															pos:        position{line: 2795, col: 13, offset: 88762},
+															pos:        position{line: 2799, col: 13, offset: 88865},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -20759,20 +20783,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2795, col: 19, offset: 88768},
+													pos:        position{line: 2799, col: 19, offset: 88871},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2798, col: 13, offset: 88806},
+													pos: position{line: 2802, col: 13, offset: 88909},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2798, col: 13, offset: 88806},
+															pos: position{line: 2802, col: 13, offset: 88909},
 															run: (*parser).callonFootnoteElement52,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2801, col: 14, offset: 88899},
+															pos:        position{line: 2805, col: 14, offset: 89002},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -20781,18 +20805,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2803, col: 12, offset: 88943},
+													pos: position{line: 2807, col: 12, offset: 89046},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2803, col: 12, offset: 88943},
+															pos:        position{line: 2807, col: 12, offset: 89046},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2803, col: 16, offset: 88947},
+															pos: position{line: 2807, col: 16, offset: 89050},
 															expr: &litMatcher{
-																pos:        position{line: 2803, col: 17, offset: 88948},
+																pos:        position{line: 2807, col: 17, offset: 89051},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -20804,36 +20828,36 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1349, col: 11, offset: 42781},
+										pos:  position{line: 1353, col: 11, offset: 42884},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 1205, col: 5, offset: 37430},
+										pos: position{line: 1209, col: 5, offset: 37533},
 										run: (*parser).callonFootnoteElement59,
 										expr: &seqExpr{
-											pos: position{line: 1205, col: 5, offset: 37430},
+											pos: position{line: 1209, col: 5, offset: 37533},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 1205, col: 5, offset: 37430},
+													pos: position{line: 1209, col: 5, offset: 37533},
 													run: (*parser).callonFootnoteElement61,
 												},
 												&litMatcher{
-													pos:        position{line: 1208, col: 5, offset: 37506},
+													pos:        position{line: 1212, col: 5, offset: 37609},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&andCodeExpr{
-													pos: position{line: 1209, col: 5, offset: 37514},
+													pos: position{line: 1213, col: 5, offset: 37617},
 													run: (*parser).callonFootnoteElement63,
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1213, col: 5, offset: 37601},
+													pos: position{line: 1217, col: 5, offset: 37704},
 													expr: &actionExpr{
-														pos: position{line: 2872, col: 10, offset: 90900},
+														pos: position{line: 2876, col: 10, offset: 91003},
 														run: (*parser).callonFootnoteElement65,
 														expr: &charClassMatcher{
-															pos:        position{line: 2872, col: 10, offset: 90900},
+															pos:        position{line: 2876, col: 10, offset: 91003},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -20842,30 +20866,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 1213, col: 12, offset: 37608},
+													pos: position{line: 1217, col: 12, offset: 37711},
 													expr: &choiceExpr{
-														pos: position{line: 2894, col: 8, offset: 91298},
+														pos: position{line: 2898, col: 8, offset: 91401},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2881, col: 12, offset: 91071},
+																pos: position{line: 2885, col: 12, offset: 91174},
 																run: (*parser).callonFootnoteElement69,
 																expr: &choiceExpr{
-																	pos: position{line: 2881, col: 13, offset: 91072},
+																	pos: position{line: 2885, col: 13, offset: 91175},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2881, col: 13, offset: 91072},
+																			pos:        position{line: 2885, col: 13, offset: 91175},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2881, col: 20, offset: 91079},
+																			pos:        position{line: 2885, col: 20, offset: 91182},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2881, col: 29, offset: 91088},
+																			pos:        position{line: 2885, col: 29, offset: 91191},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -20874,9 +20898,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2891, col: 8, offset: 91248},
+																pos: position{line: 2895, col: 8, offset: 91351},
 																expr: &anyMatcher{
-																	line: 2891, col: 9, offset: 91249,
+																	line: 2895, col: 9, offset: 91352,
 																},
 															},
 														},
@@ -21232,23 +21256,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2466, col: 5, offset: 79332},
+										pos: position{line: 2470, col: 5, offset: 79435},
 										run: (*parser).callonFootnoteElement145,
 										expr: &seqExpr{
-											pos: position{line: 2466, col: 5, offset: 79332},
+											pos: position{line: 2470, col: 5, offset: 79435},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2466, col: 5, offset: 79332},
+													pos: position{line: 2470, col: 5, offset: 79435},
 													run: (*parser).callonFootnoteElement147,
 												},
 												&labeledExpr{
-													pos:   position{line: 2469, col: 5, offset: 79408},
+													pos:   position{line: 2473, col: 5, offset: 79511},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2470, col: 9, offset: 79426},
+														pos: position{line: 2474, col: 9, offset: 79529},
 														run: (*parser).callonFootnoteElement149,
 														expr: &charClassMatcher{
-															pos:        position{line: 2470, col: 10, offset: 79427},
+															pos:        position{line: 2474, col: 10, offset: 79530},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -21260,25 +21284,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2881, col: 12, offset: 91071},
+										pos: position{line: 2885, col: 12, offset: 91174},
 										run: (*parser).callonFootnoteElement151,
 										expr: &choiceExpr{
-											pos: position{line: 2881, col: 13, offset: 91072},
+											pos: position{line: 2885, col: 13, offset: 91175},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2881, col: 13, offset: 91072},
+													pos:        position{line: 2885, col: 13, offset: 91175},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2881, col: 20, offset: 91079},
+													pos:        position{line: 2885, col: 20, offset: 91182},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2881, col: 29, offset: 91088},
+													pos:        position{line: 2885, col: 29, offset: 91191},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -21287,10 +21311,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2811, col: 12, offset: 89208},
+										pos: position{line: 2815, col: 12, offset: 89311},
 										run: (*parser).callonFootnoteElement156,
 										expr: &charClassMatcher{
-											pos:        position{line: 2811, col: 12, offset: 89208},
+											pos:        position{line: 2815, col: 12, offset: 89311},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -21306,32 +21330,32 @@ var g = &grammar{
 		},
 		{
 			name: "PassthroughMacro",
-			pos:  position{line: 1388, col: 1, offset: 44626},
+			pos:  position{line: 1392, col: 1, offset: 44729},
 			expr: &choiceExpr{
-				pos: position{line: 1388, col: 21, offset: 44646},
+				pos: position{line: 1392, col: 21, offset: 44749},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1388, col: 21, offset: 44646},
+						pos: position{line: 1392, col: 21, offset: 44749},
 						run: (*parser).callonPassthroughMacro2,
 						expr: &seqExpr{
-							pos: position{line: 1388, col: 21, offset: 44646},
+							pos: position{line: 1392, col: 21, offset: 44749},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1388, col: 21, offset: 44646},
+									pos:        position{line: 1392, col: 21, offset: 44749},
 									val:        "pass:[",
 									ignoreCase: false,
 									want:       "\"pass:[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1388, col: 30, offset: 44655},
+									pos:   position{line: 1392, col: 30, offset: 44758},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1388, col: 38, offset: 44663},
+										pos: position{line: 1392, col: 38, offset: 44766},
 										expr: &actionExpr{
-											pos: position{line: 1404, col: 30, offset: 45253},
+											pos: position{line: 1408, col: 30, offset: 45356},
 											run: (*parser).callonPassthroughMacro7,
 											expr: &charClassMatcher{
-												pos:        position{line: 1404, col: 30, offset: 45253},
+												pos:        position{line: 1408, col: 30, offset: 45356},
 												val:        "[^]]",
 												chars:      []rune{']'},
 												ignoreCase: false,
@@ -21341,7 +21365,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1388, col: 67, offset: 44692},
+									pos:        position{line: 1392, col: 67, offset: 44795},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -21350,34 +21374,34 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1390, col: 9, offset: 44796},
+						pos: position{line: 1394, col: 9, offset: 44899},
 						run: (*parser).callonPassthroughMacro10,
 						expr: &seqExpr{
-							pos: position{line: 1390, col: 9, offset: 44796},
+							pos: position{line: 1394, col: 9, offset: 44899},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 1394, col: 33, offset: 45002},
+									pos: position{line: 1398, col: 33, offset: 45105},
 									run: (*parser).callonPassthroughMacro12,
 									expr: &litMatcher{
-										pos:        position{line: 1394, col: 33, offset: 45002},
+										pos:        position{line: 1398, col: 33, offset: 45105},
 										val:        "pass:q[",
 										ignoreCase: false,
 										want:       "\"pass:q[\"",
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1390, col: 38, offset: 44825},
+									pos:   position{line: 1394, col: 38, offset: 44928},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1390, col: 46, offset: 44833},
+										pos: position{line: 1394, col: 46, offset: 44936},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1390, col: 47, offset: 44834},
+											pos:  position{line: 1394, col: 47, offset: 44937},
 											name: "PassthroughMacroQuotesElement",
 										},
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1390, col: 79, offset: 44866},
+									pos:        position{line: 1394, col: 79, offset: 44969},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -21390,25 +21414,25 @@ var g = &grammar{
 		},
 		{
 			name: "PassthroughMacroQuotesElement",
-			pos:  position{line: 1399, col: 1, offset: 45073},
+			pos:  position{line: 1403, col: 1, offset: 45176},
 			expr: &actionExpr{
-				pos: position{line: 1399, col: 34, offset: 45106},
+				pos: position{line: 1403, col: 34, offset: 45209},
 				run: (*parser).callonPassthroughMacroQuotesElement1,
 				expr: &labeledExpr{
-					pos:   position{line: 1399, col: 34, offset: 45106},
+					pos:   position{line: 1403, col: 34, offset: 45209},
 					label: "element",
 					expr: &choiceExpr{
-						pos: position{line: 1399, col: 43, offset: 45115},
+						pos: position{line: 1403, col: 43, offset: 45218},
 						alternatives: []interface{}{
 							&ruleRefExpr{
-								pos:  position{line: 1399, col: 43, offset: 45115},
+								pos:  position{line: 1403, col: 43, offset: 45218},
 								name: "QuotedText",
 							},
 							&actionExpr{
-								pos: position{line: 1404, col: 30, offset: 45253},
+								pos: position{line: 1408, col: 30, offset: 45356},
 								run: (*parser).callonPassthroughMacroQuotesElement5,
 								expr: &charClassMatcher{
-									pos:        position{line: 1404, col: 30, offset: 45253},
+									pos:        position{line: 1408, col: 30, offset: 45356},
 									val:        "[^]]",
 									chars:      []rune{']'},
 									ignoreCase: false,
@@ -21422,75 +21446,75 @@ var g = &grammar{
 		},
 		{
 			name: "Link",
-			pos:  position{line: 1411, col: 1, offset: 45509},
+			pos:  position{line: 1415, col: 1, offset: 45612},
 			expr: &choiceExpr{
-				pos: position{line: 1411, col: 9, offset: 45517},
+				pos: position{line: 1415, col: 9, offset: 45620},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1414, col: 5, offset: 45586},
+						pos: position{line: 1418, col: 5, offset: 45689},
 						run: (*parser).callonLink2,
 						expr: &seqExpr{
-							pos: position{line: 1414, col: 5, offset: 45586},
+							pos: position{line: 1418, col: 5, offset: 45689},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1414, col: 5, offset: 45586},
+									pos:        position{line: 1418, col: 5, offset: 45689},
 									val:        "<",
 									ignoreCase: false,
 									want:       "\"<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1415, col: 5, offset: 45595},
+									pos:   position{line: 1419, col: 5, offset: 45698},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2834, col: 23, offset: 89786},
+										pos: position{line: 2838, col: 23, offset: 89889},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2834, col: 23, offset: 89786},
+											pos: position{line: 2838, col: 23, offset: 89889},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2834, col: 23, offset: 89786},
+													pos: position{line: 2838, col: 23, offset: 89889},
 													expr: &litMatcher{
-														pos:        position{line: 2834, col: 24, offset: 89787},
+														pos:        position{line: 2838, col: 24, offset: 89890},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2834, col: 28, offset: 89791},
+													pos:   position{line: 2838, col: 28, offset: 89894},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2838, col: 11, offset: 89905},
+														pos: position{line: 2842, col: 11, offset: 90008},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2838, col: 12, offset: 89906},
+															pos: position{line: 2842, col: 12, offset: 90009},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2838, col: 12, offset: 89906},
+																	pos:        position{line: 2842, col: 12, offset: 90009},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2838, col: 24, offset: 89918},
+																	pos:        position{line: 2842, col: 24, offset: 90021},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2838, col: 37, offset: 89931},
+																	pos:        position{line: 2842, col: 37, offset: 90034},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2838, col: 48, offset: 89942},
+																	pos:        position{line: 2842, col: 48, offset: 90045},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2838, col: 59, offset: 89953},
+																	pos:        position{line: 2842, col: 59, offset: 90056},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -21500,38 +21524,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2834, col: 44, offset: 89807},
+													pos:   position{line: 2838, col: 44, offset: 89910},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2843, col: 5, offset: 90017},
+														pos: position{line: 2847, col: 5, offset: 90120},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2843, col: 5, offset: 90017},
+															pos:   position{line: 2847, col: 5, offset: 90120},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2843, col: 14, offset: 90026},
+																pos: position{line: 2847, col: 14, offset: 90129},
 																expr: &choiceExpr{
-																	pos: position{line: 2844, col: 9, offset: 90036},
+																	pos: position{line: 2848, col: 9, offset: 90139},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2844, col: 9, offset: 90036},
+																			pos: position{line: 2848, col: 9, offset: 90139},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2844, col: 9, offset: 90036},
+																				pos: position{line: 2848, col: 9, offset: 90139},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2844, col: 9, offset: 90036},
+																						pos: position{line: 2848, col: 9, offset: 90139},
 																						expr: &litMatcher{
-																							pos:        position{line: 2844, col: 10, offset: 90037},
+																							pos:        position{line: 2848, col: 10, offset: 90140},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2845, col: 9, offset: 90065},
+																						pos: position{line: 2849, col: 9, offset: 90168},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2845, col: 10, offset: 90066},
+																							pos:        position{line: 2849, col: 10, offset: 90169},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -21542,27 +21566,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2848, col: 11, offset: 90278},
+																			pos: position{line: 2852, col: 11, offset: 90381},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2848, col: 11, offset: 90278},
+																					pos:        position{line: 2852, col: 11, offset: 90381},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2848, col: 19, offset: 90286},
+																					pos: position{line: 2852, col: 19, offset: 90389},
 																					expr: &seqExpr{
-																						pos: position{line: 2848, col: 21, offset: 90288},
+																						pos: position{line: 2852, col: 21, offset: 90391},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2848, col: 21, offset: 90288},
+																								pos: position{line: 2852, col: 21, offset: 90391},
 																								expr: &actionExpr{
-																									pos: position{line: 2872, col: 10, offset: 90900},
+																									pos: position{line: 2876, col: 10, offset: 91003},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2872, col: 10, offset: 90900},
+																										pos:        position{line: 2876, col: 10, offset: 91003},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -21571,11 +21595,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2848, col: 28, offset: 90295},
+																								pos: position{line: 2852, col: 28, offset: 90398},
 																								expr: &notExpr{
-																									pos: position{line: 2891, col: 8, offset: 91248},
+																									pos: position{line: 2895, col: 8, offset: 91351},
 																									expr: &anyMatcher{
-																										line: 2891, col: 9, offset: 91249,
+																										line: 2895, col: 9, offset: 91352,
 																									},
 																								},
 																							},
@@ -21966,14 +21990,18 @@ var g = &grammar{
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
+																					&andCodeExpr{
+																						pos: position{line: 1198, col: 5, offset: 37089},
+																						run: (*parser).callonLink116,
+																					},
 																				},
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2851, col: 11, offset: 90415},
-																			run: (*parser).callonLink116,
+																			pos: position{line: 2855, col: 11, offset: 90518},
+																			run: (*parser).callonLink117,
 																			expr: &litMatcher{
-																				pos:        position{line: 2851, col: 11, offset: 90415},
+																				pos:        position{line: 2855, col: 11, offset: 90518},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -21990,7 +22018,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1420, col: 5, offset: 45814},
+									pos:        position{line: 1424, col: 5, offset: 45917},
 									val:        ">",
 									ignoreCase: false,
 									want:       "\">\"",
@@ -21999,38 +22027,38 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1411, col: 19, offset: 45527},
+						pos:  position{line: 1415, col: 19, offset: 45630},
 						name: "RelativeLink",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1411, col: 34, offset: 45542},
+						pos:  position{line: 1415, col: 34, offset: 45645},
 						name: "ExternalLink",
 					},
 					&actionExpr{
-						pos: position{line: 1449, col: 17, offset: 46807},
-						run: (*parser).callonLink121,
+						pos: position{line: 1453, col: 17, offset: 46910},
+						run: (*parser).callonLink122,
 						expr: &seqExpr{
-							pos: position{line: 1449, col: 17, offset: 46807},
+							pos: position{line: 1453, col: 17, offset: 46910},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1449, col: 17, offset: 46807},
+									pos:   position{line: 1453, col: 17, offset: 46910},
 									label: "local",
 									expr: &actionExpr{
-										pos: position{line: 1454, col: 5, offset: 46972},
-										run: (*parser).callonLink124,
+										pos: position{line: 1458, col: 5, offset: 47075},
+										run: (*parser).callonLink125,
 										expr: &seqExpr{
-											pos: position{line: 1454, col: 5, offset: 46972},
+											pos: position{line: 1458, col: 5, offset: 47075},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1454, col: 5, offset: 46972},
+													pos:   position{line: 1458, col: 5, offset: 47075},
 													label: "local",
 													expr: &actionExpr{
-														pos: position{line: 1454, col: 12, offset: 46979},
-														run: (*parser).callonLink127,
+														pos: position{line: 1458, col: 12, offset: 47082},
+														run: (*parser).callonLink128,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1454, col: 12, offset: 46979},
+															pos: position{line: 1458, col: 12, offset: 47082},
 															expr: &charClassMatcher{
-																pos:        position{line: 1454, col: 12, offset: 46979},
+																pos:        position{line: 1458, col: 12, offset: 47082},
 																val:        "[!#$%&\\*=?^_`{|}~.+-/\\pL\\pN]",
 																chars:      []rune{'!', '#', '$', '%', '&', '\'', '*', '=', '?', '^', '_', '`', '{', '|', '}', '~', '.'},
 																ranges:     []rune{'+', '/'},
@@ -22042,32 +22070,32 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1457, col: 5, offset: 47063},
-													run: (*parser).callonLink130,
+													pos: position{line: 1461, col: 5, offset: 47166},
+													run: (*parser).callonLink131,
 												},
 											},
 										},
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1449, col: 43, offset: 46833},
+									pos:        position{line: 1453, col: 43, offset: 46936},
 									val:        "@",
 									ignoreCase: false,
 									want:       "\"@\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1449, col: 47, offset: 46837},
+									pos:   position{line: 1453, col: 47, offset: 46940},
 									label: "domain",
 									expr: &actionExpr{
-										pos: position{line: 1467, col: 23, offset: 47414},
-										run: (*parser).callonLink133,
+										pos: position{line: 1471, col: 23, offset: 47517},
+										run: (*parser).callonLink134,
 										expr: &seqExpr{
-											pos: position{line: 1467, col: 23, offset: 47414},
+											pos: position{line: 1471, col: 23, offset: 47517},
 											exprs: []interface{}{
 												&oneOrMoreExpr{
-													pos: position{line: 1471, col: 28, offset: 47540},
+													pos: position{line: 1475, col: 28, offset: 47643},
 													expr: &charClassMatcher{
-														pos:        position{line: 1471, col: 28, offset: 47540},
+														pos:        position{line: 1475, col: 28, offset: 47643},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -22075,20 +22103,20 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1471, col: 38, offset: 47550},
+													pos: position{line: 1475, col: 38, offset: 47653},
 													expr: &seqExpr{
-														pos: position{line: 1471, col: 39, offset: 47551},
+														pos: position{line: 1475, col: 39, offset: 47654},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 1471, col: 39, offset: 47551},
+																pos:        position{line: 1475, col: 39, offset: 47654},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 															&oneOrMoreExpr{
-																pos: position{line: 1471, col: 43, offset: 47555},
+																pos: position{line: 1475, col: 43, offset: 47658},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1471, col: 43, offset: 47555},
+																	pos:        position{line: 1475, col: 43, offset: 47658},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -22099,20 +22127,20 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1467, col: 47, offset: 47438},
+													pos: position{line: 1471, col: 47, offset: 47541},
 													expr: &seqExpr{
-														pos: position{line: 1467, col: 48, offset: 47439},
+														pos: position{line: 1471, col: 48, offset: 47542},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 1467, col: 48, offset: 47439},
+																pos:        position{line: 1471, col: 48, offset: 47542},
 																val:        ".",
 																ignoreCase: false,
 																want:       "\".\"",
 															},
 															&oneOrMoreExpr{
-																pos: position{line: 1471, col: 28, offset: 47540},
+																pos: position{line: 1475, col: 28, offset: 47643},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1471, col: 28, offset: 47540},
+																	pos:        position{line: 1475, col: 28, offset: 47643},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -22120,20 +22148,20 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 1471, col: 38, offset: 47550},
+																pos: position{line: 1475, col: 38, offset: 47653},
 																expr: &seqExpr{
-																	pos: position{line: 1471, col: 39, offset: 47551},
+																	pos: position{line: 1475, col: 39, offset: 47654},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 1471, col: 39, offset: 47551},
+																			pos:        position{line: 1475, col: 39, offset: 47654},
 																			val:        "-",
 																			ignoreCase: false,
 																			want:       "\"-\"",
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 1471, col: 43, offset: 47555},
+																			pos: position{line: 1475, col: 43, offset: 47658},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1471, col: 43, offset: 47555},
+																				pos:        position{line: 1475, col: 43, offset: 47658},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -22158,68 +22186,68 @@ var g = &grammar{
 		},
 		{
 			name: "RelativeLink",
-			pos:  position{line: 1426, col: 1, offset: 45962},
+			pos:  position{line: 1430, col: 1, offset: 46065},
 			expr: &choiceExpr{
-				pos: position{line: 1428, col: 5, offset: 45998},
+				pos: position{line: 1432, col: 5, offset: 46101},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1428, col: 5, offset: 45998},
+						pos: position{line: 1432, col: 5, offset: 46101},
 						run: (*parser).callonRelativeLink2,
 						expr: &seqExpr{
-							pos: position{line: 1428, col: 5, offset: 45998},
+							pos: position{line: 1432, col: 5, offset: 46101},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1428, col: 5, offset: 45998},
+									pos:        position{line: 1432, col: 5, offset: 46101},
 									val:        "\\link:",
 									ignoreCase: false,
 									want:       "\"\\\\link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1428, col: 17, offset: 46010},
+									pos:   position{line: 1432, col: 17, offset: 46113},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2830, col: 13, offset: 89659},
+										pos: position{line: 2834, col: 13, offset: 89762},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2830, col: 13, offset: 89659},
+											pos: position{line: 2834, col: 13, offset: 89762},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2830, col: 13, offset: 89659},
+													pos:   position{line: 2834, col: 13, offset: 89762},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2830, col: 20, offset: 89666},
+														pos: position{line: 2834, col: 20, offset: 89769},
 														expr: &actionExpr{
-															pos: position{line: 2838, col: 11, offset: 89905},
+															pos: position{line: 2842, col: 11, offset: 90008},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2838, col: 12, offset: 89906},
+																pos: position{line: 2842, col: 12, offset: 90009},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2838, col: 12, offset: 89906},
+																		pos:        position{line: 2842, col: 12, offset: 90009},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2838, col: 24, offset: 89918},
+																		pos:        position{line: 2842, col: 24, offset: 90021},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2838, col: 37, offset: 89931},
+																		pos:        position{line: 2842, col: 37, offset: 90034},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2838, col: 48, offset: 89942},
+																		pos:        position{line: 2842, col: 48, offset: 90045},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2838, col: 59, offset: 89953},
+																		pos:        position{line: 2842, col: 59, offset: 90056},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22230,38 +22258,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2830, col: 30, offset: 89676},
+													pos:   position{line: 2834, col: 30, offset: 89779},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2843, col: 5, offset: 90017},
+														pos: position{line: 2847, col: 5, offset: 90120},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2843, col: 5, offset: 90017},
+															pos:   position{line: 2847, col: 5, offset: 90120},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2843, col: 14, offset: 90026},
+																pos: position{line: 2847, col: 14, offset: 90129},
 																expr: &choiceExpr{
-																	pos: position{line: 2844, col: 9, offset: 90036},
+																	pos: position{line: 2848, col: 9, offset: 90139},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2844, col: 9, offset: 90036},
+																			pos: position{line: 2848, col: 9, offset: 90139},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2844, col: 9, offset: 90036},
+																				pos: position{line: 2848, col: 9, offset: 90139},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2844, col: 9, offset: 90036},
+																						pos: position{line: 2848, col: 9, offset: 90139},
 																						expr: &litMatcher{
-																							pos:        position{line: 2844, col: 10, offset: 90037},
+																							pos:        position{line: 2848, col: 10, offset: 90140},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2845, col: 9, offset: 90065},
+																						pos: position{line: 2849, col: 9, offset: 90168},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2845, col: 10, offset: 90066},
+																							pos:        position{line: 2849, col: 10, offset: 90169},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22272,27 +22300,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2848, col: 11, offset: 90278},
+																			pos: position{line: 2852, col: 11, offset: 90381},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2848, col: 11, offset: 90278},
+																					pos:        position{line: 2852, col: 11, offset: 90381},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2848, col: 19, offset: 90286},
+																					pos: position{line: 2852, col: 19, offset: 90389},
 																					expr: &seqExpr{
-																						pos: position{line: 2848, col: 21, offset: 90288},
+																						pos: position{line: 2852, col: 21, offset: 90391},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2848, col: 21, offset: 90288},
+																								pos: position{line: 2852, col: 21, offset: 90391},
 																								expr: &actionExpr{
-																									pos: position{line: 2872, col: 10, offset: 90900},
+																									pos: position{line: 2876, col: 10, offset: 91003},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2872, col: 10, offset: 90900},
+																										pos:        position{line: 2876, col: 10, offset: 91003},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22301,11 +22329,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2848, col: 28, offset: 90295},
+																								pos: position{line: 2852, col: 28, offset: 90398},
 																								expr: &notExpr{
-																									pos: position{line: 2891, col: 8, offset: 91248},
+																									pos: position{line: 2895, col: 8, offset: 91351},
 																									expr: &anyMatcher{
-																										line: 2891, col: 9, offset: 91249,
+																										line: 2895, col: 9, offset: 91352,
 																									},
 																								},
 																							},
@@ -22696,14 +22724,18 @@ var g = &grammar{
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
+																					&andCodeExpr{
+																						pos: position{line: 1198, col: 5, offset: 37089},
+																						run: (*parser).callonRelativeLink115,
+																					},
 																				},
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2851, col: 11, offset: 90415},
-																			run: (*parser).callonRelativeLink115,
+																			pos: position{line: 2855, col: 11, offset: 90518},
+																			run: (*parser).callonRelativeLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2851, col: 11, offset: 90415},
+																				pos:        position{line: 2855, col: 11, offset: 90518},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22720,10 +22752,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1428, col: 32, offset: 46025},
+									pos:   position{line: 1432, col: 32, offset: 46128},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1428, col: 44, offset: 46037},
+										pos:  position{line: 1432, col: 44, offset: 46140},
 										name: "InlineAttributes",
 									},
 								},
@@ -22731,63 +22763,63 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1433, col: 5, offset: 46169},
-						run: (*parser).callonRelativeLink119,
+						pos: position{line: 1437, col: 5, offset: 46272},
+						run: (*parser).callonRelativeLink120,
 						expr: &seqExpr{
-							pos: position{line: 1433, col: 5, offset: 46169},
+							pos: position{line: 1437, col: 5, offset: 46272},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1433, col: 5, offset: 46169},
+									pos:        position{line: 1437, col: 5, offset: 46272},
 									val:        "link:",
 									ignoreCase: false,
 									want:       "\"link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1433, col: 13, offset: 46177},
+									pos:   position{line: 1437, col: 13, offset: 46280},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2830, col: 13, offset: 89659},
-										run: (*parser).callonRelativeLink123,
+										pos: position{line: 2834, col: 13, offset: 89762},
+										run: (*parser).callonRelativeLink124,
 										expr: &seqExpr{
-											pos: position{line: 2830, col: 13, offset: 89659},
+											pos: position{line: 2834, col: 13, offset: 89762},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2830, col: 13, offset: 89659},
+													pos:   position{line: 2834, col: 13, offset: 89762},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2830, col: 20, offset: 89666},
+														pos: position{line: 2834, col: 20, offset: 89769},
 														expr: &actionExpr{
-															pos: position{line: 2838, col: 11, offset: 89905},
-															run: (*parser).callonRelativeLink127,
+															pos: position{line: 2842, col: 11, offset: 90008},
+															run: (*parser).callonRelativeLink128,
 															expr: &choiceExpr{
-																pos: position{line: 2838, col: 12, offset: 89906},
+																pos: position{line: 2842, col: 12, offset: 90009},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2838, col: 12, offset: 89906},
+																		pos:        position{line: 2842, col: 12, offset: 90009},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2838, col: 24, offset: 89918},
+																		pos:        position{line: 2842, col: 24, offset: 90021},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2838, col: 37, offset: 89931},
+																		pos:        position{line: 2842, col: 37, offset: 90034},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2838, col: 48, offset: 89942},
+																		pos:        position{line: 2842, col: 48, offset: 90045},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2838, col: 59, offset: 89953},
+																		pos:        position{line: 2842, col: 59, offset: 90056},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22798,38 +22830,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2830, col: 30, offset: 89676},
+													pos:   position{line: 2834, col: 30, offset: 89779},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2843, col: 5, offset: 90017},
-														run: (*parser).callonRelativeLink135,
+														pos: position{line: 2847, col: 5, offset: 90120},
+														run: (*parser).callonRelativeLink136,
 														expr: &labeledExpr{
-															pos:   position{line: 2843, col: 5, offset: 90017},
+															pos:   position{line: 2847, col: 5, offset: 90120},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2843, col: 14, offset: 90026},
+																pos: position{line: 2847, col: 14, offset: 90129},
 																expr: &choiceExpr{
-																	pos: position{line: 2844, col: 9, offset: 90036},
+																	pos: position{line: 2848, col: 9, offset: 90139},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2844, col: 9, offset: 90036},
-																			run: (*parser).callonRelativeLink139,
+																			pos: position{line: 2848, col: 9, offset: 90139},
+																			run: (*parser).callonRelativeLink140,
 																			expr: &seqExpr{
-																				pos: position{line: 2844, col: 9, offset: 90036},
+																				pos: position{line: 2848, col: 9, offset: 90139},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2844, col: 9, offset: 90036},
+																						pos: position{line: 2848, col: 9, offset: 90139},
 																						expr: &litMatcher{
-																							pos:        position{line: 2844, col: 10, offset: 90037},
+																							pos:        position{line: 2848, col: 10, offset: 90140},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2845, col: 9, offset: 90065},
+																						pos: position{line: 2849, col: 9, offset: 90168},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2845, col: 10, offset: 90066},
+																							pos:        position{line: 2849, col: 10, offset: 90169},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22840,27 +22872,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2848, col: 11, offset: 90278},
+																			pos: position{line: 2852, col: 11, offset: 90381},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2848, col: 11, offset: 90278},
+																					pos:        position{line: 2852, col: 11, offset: 90381},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2848, col: 19, offset: 90286},
+																					pos: position{line: 2852, col: 19, offset: 90389},
 																					expr: &seqExpr{
-																						pos: position{line: 2848, col: 21, offset: 90288},
+																						pos: position{line: 2852, col: 21, offset: 90391},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2848, col: 21, offset: 90288},
+																								pos: position{line: 2852, col: 21, offset: 90391},
 																								expr: &actionExpr{
-																									pos: position{line: 2872, col: 10, offset: 90900},
-																									run: (*parser).callonRelativeLink150,
+																									pos: position{line: 2876, col: 10, offset: 91003},
+																									run: (*parser).callonRelativeLink151,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2872, col: 10, offset: 90900},
+																										pos:        position{line: 2876, col: 10, offset: 91003},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22869,11 +22901,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2848, col: 28, offset: 90295},
+																								pos: position{line: 2852, col: 28, offset: 90398},
 																								expr: &notExpr{
-																									pos: position{line: 2891, col: 8, offset: 91248},
+																									pos: position{line: 2895, col: 8, offset: 91351},
 																									expr: &anyMatcher{
-																										line: 2891, col: 9, offset: 91249,
+																										line: 2895, col: 9, offset: 91352,
 																									},
 																								},
 																							},
@@ -22884,13 +22916,13 @@ var g = &grammar{
 																		},
 																		&actionExpr{
 																			pos: position{line: 635, col: 5, offset: 20116},
-																			run: (*parser).callonRelativeLink155,
+																			run: (*parser).callonRelativeLink156,
 																			expr: &seqExpr{
 																				pos: position{line: 635, col: 5, offset: 20116},
 																				exprs: []interface{}{
 																					&andCodeExpr{
 																						pos: position{line: 635, col: 5, offset: 20116},
-																						run: (*parser).callonRelativeLink157,
+																						run: (*parser).callonRelativeLink158,
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 638, col: 5, offset: 20188},
@@ -22900,7 +22932,7 @@ var g = &grammar{
 																							alternatives: []interface{}{
 																								&actionExpr{
 																									pos: position{line: 644, col: 5, offset: 20326},
-																									run: (*parser).callonRelativeLink160,
+																									run: (*parser).callonRelativeLink161,
 																									expr: &seqExpr{
 																										pos: position{line: 644, col: 5, offset: 20326},
 																										exprs: []interface{}{
@@ -22915,7 +22947,7 @@ var g = &grammar{
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 317, col: 18, offset: 9667},
-																													run: (*parser).callonRelativeLink164,
+																													run: (*parser).callonRelativeLink165,
 																													expr: &seqExpr{
 																														pos: position{line: 317, col: 18, offset: 9667},
 																														exprs: []interface{}{
@@ -22953,7 +22985,7 @@ var g = &grammar{
 																								},
 																								&actionExpr{
 																									pos: position{line: 651, col: 5, offset: 20594},
-																									run: (*parser).callonRelativeLink170,
+																									run: (*parser).callonRelativeLink171,
 																									expr: &seqExpr{
 																										pos: position{line: 651, col: 5, offset: 20594},
 																										exprs: []interface{}{
@@ -22968,7 +23000,7 @@ var g = &grammar{
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 317, col: 18, offset: 9667},
-																													run: (*parser).callonRelativeLink174,
+																													run: (*parser).callonRelativeLink175,
 																													expr: &seqExpr{
 																														pos: position{line: 317, col: 18, offset: 9667},
 																														exprs: []interface{}{
@@ -23006,7 +23038,7 @@ var g = &grammar{
 																								},
 																								&actionExpr{
 																									pos: position{line: 657, col: 25, offset: 20798},
-																									run: (*parser).callonRelativeLink180,
+																									run: (*parser).callonRelativeLink181,
 																									expr: &seqExpr{
 																										pos: position{line: 657, col: 25, offset: 20798},
 																										exprs: []interface{}{
@@ -23021,7 +23053,7 @@ var g = &grammar{
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 317, col: 18, offset: 9667},
-																													run: (*parser).callonRelativeLink184,
+																													run: (*parser).callonRelativeLink185,
 																													expr: &seqExpr{
 																														pos: position{line: 317, col: 18, offset: 9667},
 																														exprs: []interface{}{
@@ -23055,7 +23087,7 @@ var g = &grammar{
 																													pos: position{line: 657, col: 62, offset: 20835},
 																													expr: &actionExpr{
 																														pos: position{line: 665, col: 17, offset: 21130},
-																														run: (*parser).callonRelativeLink191,
+																														run: (*parser).callonRelativeLink192,
 																														expr: &seqExpr{
 																															pos: position{line: 665, col: 17, offset: 21130},
 																															exprs: []interface{}{
@@ -23073,7 +23105,7 @@ var g = &grammar{
 																																		alternatives: []interface{}{
 																																			&actionExpr{
 																																				pos: position{line: 665, col: 28, offset: 21141},
-																																				run: (*parser).callonRelativeLink196,
+																																				run: (*parser).callonRelativeLink197,
 																																				expr: &charClassMatcher{
 																																					pos:        position{line: 665, col: 28, offset: 21141},
 																																					val:        "[A-Za-z]",
@@ -23084,7 +23116,7 @@ var g = &grammar{
 																																			},
 																																			&actionExpr{
 																																				pos: position{line: 667, col: 9, offset: 21195},
-																																				run: (*parser).callonRelativeLink198,
+																																				run: (*parser).callonRelativeLink199,
 																																				expr: &oneOrMoreExpr{
 																																					pos: position{line: 667, col: 9, offset: 21195},
 																																					expr: &charClassMatcher{
@@ -23115,7 +23147,7 @@ var g = &grammar{
 																								},
 																								&actionExpr{
 																									pos: position{line: 661, col: 25, offset: 20969},
-																									run: (*parser).callonRelativeLink202,
+																									run: (*parser).callonRelativeLink203,
 																									expr: &seqExpr{
 																										pos: position{line: 661, col: 25, offset: 20969},
 																										exprs: []interface{}{
@@ -23130,7 +23162,7 @@ var g = &grammar{
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 317, col: 18, offset: 9667},
-																													run: (*parser).callonRelativeLink206,
+																													run: (*parser).callonRelativeLink207,
 																													expr: &seqExpr{
 																														pos: position{line: 317, col: 18, offset: 9667},
 																														exprs: []interface{}{
@@ -23164,7 +23196,7 @@ var g = &grammar{
 																													pos: position{line: 661, col: 63, offset: 21007},
 																													expr: &actionExpr{
 																														pos: position{line: 665, col: 17, offset: 21130},
-																														run: (*parser).callonRelativeLink213,
+																														run: (*parser).callonRelativeLink214,
 																														expr: &seqExpr{
 																															pos: position{line: 665, col: 17, offset: 21130},
 																															exprs: []interface{}{
@@ -23182,7 +23214,7 @@ var g = &grammar{
 																																		alternatives: []interface{}{
 																																			&actionExpr{
 																																				pos: position{line: 665, col: 28, offset: 21141},
-																																				run: (*parser).callonRelativeLink218,
+																																				run: (*parser).callonRelativeLink219,
 																																				expr: &charClassMatcher{
 																																					pos:        position{line: 665, col: 28, offset: 21141},
 																																					val:        "[A-Za-z]",
@@ -23193,7 +23225,7 @@ var g = &grammar{
 																																			},
 																																			&actionExpr{
 																																				pos: position{line: 667, col: 9, offset: 21195},
-																																				run: (*parser).callonRelativeLink220,
+																																				run: (*parser).callonRelativeLink221,
 																																				expr: &oneOrMoreExpr{
 																																					pos: position{line: 667, col: 9, offset: 21195},
 																																					expr: &charClassMatcher{
@@ -23230,7 +23262,7 @@ var g = &grammar{
 																		},
 																		&actionExpr{
 																			pos: position{line: 1197, col: 23, offset: 36984},
-																			run: (*parser).callonRelativeLink224,
+																			run: (*parser).callonRelativeLink225,
 																			expr: &seqExpr{
 																				pos: position{line: 1197, col: 23, offset: 36984},
 																				exprs: []interface{}{
@@ -23245,7 +23277,7 @@ var g = &grammar{
 																						label: "ref",
 																						expr: &actionExpr{
 																							pos: position{line: 1197, col: 56, offset: 37017},
-																							run: (*parser).callonRelativeLink228,
+																							run: (*parser).callonRelativeLink229,
 																							expr: &oneOrMoreExpr{
 																								pos: position{line: 1197, col: 56, offset: 37017},
 																								expr: &charClassMatcher{
@@ -23264,14 +23296,18 @@ var g = &grammar{
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
+																					&andCodeExpr{
+																						pos: position{line: 1198, col: 5, offset: 37089},
+																						run: (*parser).callonRelativeLink233,
+																					},
 																				},
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2851, col: 11, offset: 90415},
-																			run: (*parser).callonRelativeLink232,
+																			pos: position{line: 2855, col: 11, offset: 90518},
+																			run: (*parser).callonRelativeLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2851, col: 11, offset: 90415},
+																				pos:        position{line: 2855, col: 11, offset: 90518},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23288,10 +23324,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1433, col: 28, offset: 46192},
+									pos:   position{line: 1437, col: 28, offset: 46295},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1433, col: 40, offset: 46204},
+										pos:  position{line: 1437, col: 40, offset: 46307},
 										name: "InlineAttributes",
 									},
 								},
@@ -23303,75 +23339,75 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalLink",
-			pos:  position{line: 1437, col: 1, offset: 46320},
+			pos:  position{line: 1441, col: 1, offset: 46423},
 			expr: &choiceExpr{
-				pos: position{line: 1440, col: 5, offset: 46482},
+				pos: position{line: 1444, col: 5, offset: 46585},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1440, col: 5, offset: 46482},
+						pos: position{line: 1444, col: 5, offset: 46585},
 						run: (*parser).callonExternalLink2,
 						expr: &seqExpr{
-							pos: position{line: 1440, col: 5, offset: 46482},
+							pos: position{line: 1444, col: 5, offset: 46585},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1440, col: 5, offset: 46482},
+									pos:        position{line: 1444, col: 5, offset: 46585},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1440, col: 9, offset: 46486},
+									pos:   position{line: 1444, col: 9, offset: 46589},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2834, col: 23, offset: 89786},
+										pos: position{line: 2838, col: 23, offset: 89889},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2834, col: 23, offset: 89786},
+											pos: position{line: 2838, col: 23, offset: 89889},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2834, col: 23, offset: 89786},
+													pos: position{line: 2838, col: 23, offset: 89889},
 													expr: &litMatcher{
-														pos:        position{line: 2834, col: 24, offset: 89787},
+														pos:        position{line: 2838, col: 24, offset: 89890},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2834, col: 28, offset: 89791},
+													pos:   position{line: 2838, col: 28, offset: 89894},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2838, col: 11, offset: 89905},
+														pos: position{line: 2842, col: 11, offset: 90008},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2838, col: 12, offset: 89906},
+															pos: position{line: 2842, col: 12, offset: 90009},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2838, col: 12, offset: 89906},
+																	pos:        position{line: 2842, col: 12, offset: 90009},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2838, col: 24, offset: 89918},
+																	pos:        position{line: 2842, col: 24, offset: 90021},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2838, col: 37, offset: 89931},
+																	pos:        position{line: 2842, col: 37, offset: 90034},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2838, col: 48, offset: 89942},
+																	pos:        position{line: 2842, col: 48, offset: 90045},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2838, col: 59, offset: 89953},
+																	pos:        position{line: 2842, col: 59, offset: 90056},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23381,38 +23417,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2834, col: 44, offset: 89807},
+													pos:   position{line: 2838, col: 44, offset: 89910},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2843, col: 5, offset: 90017},
+														pos: position{line: 2847, col: 5, offset: 90120},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2843, col: 5, offset: 90017},
+															pos:   position{line: 2847, col: 5, offset: 90120},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2843, col: 14, offset: 90026},
+																pos: position{line: 2847, col: 14, offset: 90129},
 																expr: &choiceExpr{
-																	pos: position{line: 2844, col: 9, offset: 90036},
+																	pos: position{line: 2848, col: 9, offset: 90139},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2844, col: 9, offset: 90036},
+																			pos: position{line: 2848, col: 9, offset: 90139},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2844, col: 9, offset: 90036},
+																				pos: position{line: 2848, col: 9, offset: 90139},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2844, col: 9, offset: 90036},
+																						pos: position{line: 2848, col: 9, offset: 90139},
 																						expr: &litMatcher{
-																							pos:        position{line: 2844, col: 10, offset: 90037},
+																							pos:        position{line: 2848, col: 10, offset: 90140},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2845, col: 9, offset: 90065},
+																						pos: position{line: 2849, col: 9, offset: 90168},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2845, col: 10, offset: 90066},
+																							pos:        position{line: 2849, col: 10, offset: 90169},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23423,27 +23459,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2848, col: 11, offset: 90278},
+																			pos: position{line: 2852, col: 11, offset: 90381},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2848, col: 11, offset: 90278},
+																					pos:        position{line: 2852, col: 11, offset: 90381},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2848, col: 19, offset: 90286},
+																					pos: position{line: 2852, col: 19, offset: 90389},
 																					expr: &seqExpr{
-																						pos: position{line: 2848, col: 21, offset: 90288},
+																						pos: position{line: 2852, col: 21, offset: 90391},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2848, col: 21, offset: 90288},
+																								pos: position{line: 2852, col: 21, offset: 90391},
 																								expr: &actionExpr{
-																									pos: position{line: 2872, col: 10, offset: 90900},
+																									pos: position{line: 2876, col: 10, offset: 91003},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2872, col: 10, offset: 90900},
+																										pos:        position{line: 2876, col: 10, offset: 91003},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23452,11 +23488,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2848, col: 28, offset: 90295},
+																								pos: position{line: 2852, col: 28, offset: 90398},
 																								expr: &notExpr{
-																									pos: position{line: 2891, col: 8, offset: 91248},
+																									pos: position{line: 2895, col: 8, offset: 91351},
 																									expr: &anyMatcher{
-																										line: 2891, col: 9, offset: 91249,
+																										line: 2895, col: 9, offset: 91352,
 																									},
 																								},
 																							},
@@ -23847,14 +23883,18 @@ var g = &grammar{
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
+																					&andCodeExpr{
+																						pos: position{line: 1198, col: 5, offset: 37089},
+																						run: (*parser).callonExternalLink116,
+																					},
 																				},
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2851, col: 11, offset: 90415},
-																			run: (*parser).callonExternalLink116,
+																			pos: position{line: 2855, col: 11, offset: 90518},
+																			run: (*parser).callonExternalLink117,
 																			expr: &litMatcher{
-																				pos:        position{line: 2851, col: 11, offset: 90415},
+																				pos:        position{line: 2855, col: 11, offset: 90518},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23871,12 +23911,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1440, col: 34, offset: 46511},
+									pos:   position{line: 1444, col: 34, offset: 46614},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1440, col: 45, offset: 46522},
+										pos: position{line: 1444, col: 45, offset: 46625},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1440, col: 46, offset: 46523},
+											pos:  position{line: 1444, col: 46, offset: 46626},
 											name: "InlineAttributes",
 										},
 									},
@@ -23885,64 +23925,64 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1445, col: 5, offset: 46656},
-						run: (*parser).callonExternalLink121,
+						pos: position{line: 1449, col: 5, offset: 46759},
+						run: (*parser).callonExternalLink122,
 						expr: &seqExpr{
-							pos: position{line: 1445, col: 5, offset: 46656},
+							pos: position{line: 1449, col: 5, offset: 46759},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1445, col: 5, offset: 46656},
+									pos:   position{line: 1449, col: 5, offset: 46759},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2834, col: 23, offset: 89786},
-										run: (*parser).callonExternalLink124,
+										pos: position{line: 2838, col: 23, offset: 89889},
+										run: (*parser).callonExternalLink125,
 										expr: &seqExpr{
-											pos: position{line: 2834, col: 23, offset: 89786},
+											pos: position{line: 2838, col: 23, offset: 89889},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2834, col: 23, offset: 89786},
+													pos: position{line: 2838, col: 23, offset: 89889},
 													expr: &litMatcher{
-														pos:        position{line: 2834, col: 24, offset: 89787},
+														pos:        position{line: 2838, col: 24, offset: 89890},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2834, col: 28, offset: 89791},
+													pos:   position{line: 2838, col: 28, offset: 89894},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2838, col: 11, offset: 89905},
-														run: (*parser).callonExternalLink129,
+														pos: position{line: 2842, col: 11, offset: 90008},
+														run: (*parser).callonExternalLink130,
 														expr: &choiceExpr{
-															pos: position{line: 2838, col: 12, offset: 89906},
+															pos: position{line: 2842, col: 12, offset: 90009},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2838, col: 12, offset: 89906},
+																	pos:        position{line: 2842, col: 12, offset: 90009},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2838, col: 24, offset: 89918},
+																	pos:        position{line: 2842, col: 24, offset: 90021},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2838, col: 37, offset: 89931},
+																	pos:        position{line: 2842, col: 37, offset: 90034},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2838, col: 48, offset: 89942},
+																	pos:        position{line: 2842, col: 48, offset: 90045},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2838, col: 59, offset: 89953},
+																	pos:        position{line: 2842, col: 59, offset: 90056},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23952,38 +23992,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2834, col: 44, offset: 89807},
+													pos:   position{line: 2838, col: 44, offset: 89910},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2843, col: 5, offset: 90017},
-														run: (*parser).callonExternalLink137,
+														pos: position{line: 2847, col: 5, offset: 90120},
+														run: (*parser).callonExternalLink138,
 														expr: &labeledExpr{
-															pos:   position{line: 2843, col: 5, offset: 90017},
+															pos:   position{line: 2847, col: 5, offset: 90120},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2843, col: 14, offset: 90026},
+																pos: position{line: 2847, col: 14, offset: 90129},
 																expr: &choiceExpr{
-																	pos: position{line: 2844, col: 9, offset: 90036},
+																	pos: position{line: 2848, col: 9, offset: 90139},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2844, col: 9, offset: 90036},
-																			run: (*parser).callonExternalLink141,
+																			pos: position{line: 2848, col: 9, offset: 90139},
+																			run: (*parser).callonExternalLink142,
 																			expr: &seqExpr{
-																				pos: position{line: 2844, col: 9, offset: 90036},
+																				pos: position{line: 2848, col: 9, offset: 90139},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2844, col: 9, offset: 90036},
+																						pos: position{line: 2848, col: 9, offset: 90139},
 																						expr: &litMatcher{
-																							pos:        position{line: 2844, col: 10, offset: 90037},
+																							pos:        position{line: 2848, col: 10, offset: 90140},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2845, col: 9, offset: 90065},
+																						pos: position{line: 2849, col: 9, offset: 90168},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2845, col: 10, offset: 90066},
+																							pos:        position{line: 2849, col: 10, offset: 90169},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23994,27 +24034,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2848, col: 11, offset: 90278},
+																			pos: position{line: 2852, col: 11, offset: 90381},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2848, col: 11, offset: 90278},
+																					pos:        position{line: 2852, col: 11, offset: 90381},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2848, col: 19, offset: 90286},
+																					pos: position{line: 2852, col: 19, offset: 90389},
 																					expr: &seqExpr{
-																						pos: position{line: 2848, col: 21, offset: 90288},
+																						pos: position{line: 2852, col: 21, offset: 90391},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2848, col: 21, offset: 90288},
+																								pos: position{line: 2852, col: 21, offset: 90391},
 																								expr: &actionExpr{
-																									pos: position{line: 2872, col: 10, offset: 90900},
-																									run: (*parser).callonExternalLink152,
+																									pos: position{line: 2876, col: 10, offset: 91003},
+																									run: (*parser).callonExternalLink153,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2872, col: 10, offset: 90900},
+																										pos:        position{line: 2876, col: 10, offset: 91003},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24023,11 +24063,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2848, col: 28, offset: 90295},
+																								pos: position{line: 2852, col: 28, offset: 90398},
 																								expr: &notExpr{
-																									pos: position{line: 2891, col: 8, offset: 91248},
+																									pos: position{line: 2895, col: 8, offset: 91351},
 																									expr: &anyMatcher{
-																										line: 2891, col: 9, offset: 91249,
+																										line: 2895, col: 9, offset: 91352,
 																									},
 																								},
 																							},
@@ -24038,13 +24078,13 @@ var g = &grammar{
 																		},
 																		&actionExpr{
 																			pos: position{line: 635, col: 5, offset: 20116},
-																			run: (*parser).callonExternalLink157,
+																			run: (*parser).callonExternalLink158,
 																			expr: &seqExpr{
 																				pos: position{line: 635, col: 5, offset: 20116},
 																				exprs: []interface{}{
 																					&andCodeExpr{
 																						pos: position{line: 635, col: 5, offset: 20116},
-																						run: (*parser).callonExternalLink159,
+																						run: (*parser).callonExternalLink160,
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 638, col: 5, offset: 20188},
@@ -24054,7 +24094,7 @@ var g = &grammar{
 																							alternatives: []interface{}{
 																								&actionExpr{
 																									pos: position{line: 644, col: 5, offset: 20326},
-																									run: (*parser).callonExternalLink162,
+																									run: (*parser).callonExternalLink163,
 																									expr: &seqExpr{
 																										pos: position{line: 644, col: 5, offset: 20326},
 																										exprs: []interface{}{
@@ -24069,7 +24109,7 @@ var g = &grammar{
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 317, col: 18, offset: 9667},
-																													run: (*parser).callonExternalLink166,
+																													run: (*parser).callonExternalLink167,
 																													expr: &seqExpr{
 																														pos: position{line: 317, col: 18, offset: 9667},
 																														exprs: []interface{}{
@@ -24107,7 +24147,7 @@ var g = &grammar{
 																								},
 																								&actionExpr{
 																									pos: position{line: 651, col: 5, offset: 20594},
-																									run: (*parser).callonExternalLink172,
+																									run: (*parser).callonExternalLink173,
 																									expr: &seqExpr{
 																										pos: position{line: 651, col: 5, offset: 20594},
 																										exprs: []interface{}{
@@ -24122,7 +24162,7 @@ var g = &grammar{
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 317, col: 18, offset: 9667},
-																													run: (*parser).callonExternalLink176,
+																													run: (*parser).callonExternalLink177,
 																													expr: &seqExpr{
 																														pos: position{line: 317, col: 18, offset: 9667},
 																														exprs: []interface{}{
@@ -24160,7 +24200,7 @@ var g = &grammar{
 																								},
 																								&actionExpr{
 																									pos: position{line: 657, col: 25, offset: 20798},
-																									run: (*parser).callonExternalLink182,
+																									run: (*parser).callonExternalLink183,
 																									expr: &seqExpr{
 																										pos: position{line: 657, col: 25, offset: 20798},
 																										exprs: []interface{}{
@@ -24175,7 +24215,7 @@ var g = &grammar{
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 317, col: 18, offset: 9667},
-																													run: (*parser).callonExternalLink186,
+																													run: (*parser).callonExternalLink187,
 																													expr: &seqExpr{
 																														pos: position{line: 317, col: 18, offset: 9667},
 																														exprs: []interface{}{
@@ -24209,7 +24249,7 @@ var g = &grammar{
 																													pos: position{line: 657, col: 62, offset: 20835},
 																													expr: &actionExpr{
 																														pos: position{line: 665, col: 17, offset: 21130},
-																														run: (*parser).callonExternalLink193,
+																														run: (*parser).callonExternalLink194,
 																														expr: &seqExpr{
 																															pos: position{line: 665, col: 17, offset: 21130},
 																															exprs: []interface{}{
@@ -24227,7 +24267,7 @@ var g = &grammar{
 																																		alternatives: []interface{}{
 																																			&actionExpr{
 																																				pos: position{line: 665, col: 28, offset: 21141},
-																																				run: (*parser).callonExternalLink198,
+																																				run: (*parser).callonExternalLink199,
 																																				expr: &charClassMatcher{
 																																					pos:        position{line: 665, col: 28, offset: 21141},
 																																					val:        "[A-Za-z]",
@@ -24238,7 +24278,7 @@ var g = &grammar{
 																																			},
 																																			&actionExpr{
 																																				pos: position{line: 667, col: 9, offset: 21195},
-																																				run: (*parser).callonExternalLink200,
+																																				run: (*parser).callonExternalLink201,
 																																				expr: &oneOrMoreExpr{
 																																					pos: position{line: 667, col: 9, offset: 21195},
 																																					expr: &charClassMatcher{
@@ -24269,7 +24309,7 @@ var g = &grammar{
 																								},
 																								&actionExpr{
 																									pos: position{line: 661, col: 25, offset: 20969},
-																									run: (*parser).callonExternalLink204,
+																									run: (*parser).callonExternalLink205,
 																									expr: &seqExpr{
 																										pos: position{line: 661, col: 25, offset: 20969},
 																										exprs: []interface{}{
@@ -24284,7 +24324,7 @@ var g = &grammar{
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 317, col: 18, offset: 9667},
-																													run: (*parser).callonExternalLink208,
+																													run: (*parser).callonExternalLink209,
 																													expr: &seqExpr{
 																														pos: position{line: 317, col: 18, offset: 9667},
 																														exprs: []interface{}{
@@ -24318,7 +24358,7 @@ var g = &grammar{
 																													pos: position{line: 661, col: 63, offset: 21007},
 																													expr: &actionExpr{
 																														pos: position{line: 665, col: 17, offset: 21130},
-																														run: (*parser).callonExternalLink215,
+																														run: (*parser).callonExternalLink216,
 																														expr: &seqExpr{
 																															pos: position{line: 665, col: 17, offset: 21130},
 																															exprs: []interface{}{
@@ -24336,7 +24376,7 @@ var g = &grammar{
 																																		alternatives: []interface{}{
 																																			&actionExpr{
 																																				pos: position{line: 665, col: 28, offset: 21141},
-																																				run: (*parser).callonExternalLink220,
+																																				run: (*parser).callonExternalLink221,
 																																				expr: &charClassMatcher{
 																																					pos:        position{line: 665, col: 28, offset: 21141},
 																																					val:        "[A-Za-z]",
@@ -24347,7 +24387,7 @@ var g = &grammar{
 																																			},
 																																			&actionExpr{
 																																				pos: position{line: 667, col: 9, offset: 21195},
-																																				run: (*parser).callonExternalLink222,
+																																				run: (*parser).callonExternalLink223,
 																																				expr: &oneOrMoreExpr{
 																																					pos: position{line: 667, col: 9, offset: 21195},
 																																					expr: &charClassMatcher{
@@ -24384,7 +24424,7 @@ var g = &grammar{
 																		},
 																		&actionExpr{
 																			pos: position{line: 1197, col: 23, offset: 36984},
-																			run: (*parser).callonExternalLink226,
+																			run: (*parser).callonExternalLink227,
 																			expr: &seqExpr{
 																				pos: position{line: 1197, col: 23, offset: 36984},
 																				exprs: []interface{}{
@@ -24399,7 +24439,7 @@ var g = &grammar{
 																						label: "ref",
 																						expr: &actionExpr{
 																							pos: position{line: 1197, col: 56, offset: 37017},
-																							run: (*parser).callonExternalLink230,
+																							run: (*parser).callonExternalLink231,
 																							expr: &oneOrMoreExpr{
 																								pos: position{line: 1197, col: 56, offset: 37017},
 																								expr: &charClassMatcher{
@@ -24418,14 +24458,18 @@ var g = &grammar{
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
+																					&andCodeExpr{
+																						pos: position{line: 1198, col: 5, offset: 37089},
+																						run: (*parser).callonExternalLink235,
+																					},
 																				},
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2851, col: 11, offset: 90415},
-																			run: (*parser).callonExternalLink234,
+																			pos: position{line: 2855, col: 11, offset: 90518},
+																			run: (*parser).callonExternalLink236,
 																			expr: &litMatcher{
-																				pos:        position{line: 2851, col: 11, offset: 90415},
+																				pos:        position{line: 2855, col: 11, offset: 90518},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24442,12 +24486,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1445, col: 30, offset: 46681},
+									pos:   position{line: 1449, col: 30, offset: 46784},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1445, col: 41, offset: 46692},
+										pos: position{line: 1449, col: 41, offset: 46795},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1445, col: 42, offset: 46693},
+											pos:  position{line: 1449, col: 42, offset: 46796},
 											name: "InlineAttributes",
 										},
 									},
@@ -24460,41 +24504,41 @@ var g = &grammar{
 		},
 		{
 			name: "ListElements",
-			pos:  position{line: 1476, col: 1, offset: 47823},
+			pos:  position{line: 1480, col: 1, offset: 47926},
 			expr: &actionExpr{
-				pos: position{line: 1477, col: 5, offset: 47844},
+				pos: position{line: 1481, col: 5, offset: 47947},
 				run: (*parser).callonListElements1,
 				expr: &seqExpr{
-					pos: position{line: 1477, col: 5, offset: 47844},
+					pos: position{line: 1481, col: 5, offset: 47947},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1477, col: 5, offset: 47844},
+							pos:   position{line: 1481, col: 5, offset: 47947},
 							label: "firstElement",
 							expr: &choiceExpr{
-								pos: position{line: 1483, col: 5, offset: 48046},
+								pos: position{line: 1487, col: 5, offset: 48149},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1576, col: 5, offset: 50980},
+										pos: position{line: 1580, col: 5, offset: 51083},
 										run: (*parser).callonListElements5,
 										expr: &seqExpr{
-											pos: position{line: 1576, col: 5, offset: 50980},
+											pos: position{line: 1580, col: 5, offset: 51083},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1576, col: 5, offset: 50980},
+													pos:   position{line: 1580, col: 5, offset: 51083},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1583, col: 5, offset: 51188},
+														pos: position{line: 1587, col: 5, offset: 51291},
 														run: (*parser).callonListElements8,
 														expr: &seqExpr{
-															pos: position{line: 1583, col: 5, offset: 51188},
+															pos: position{line: 1587, col: 5, offset: 51291},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1583, col: 5, offset: 51188},
+																	pos: position{line: 1587, col: 5, offset: 51291},
 																	expr: &actionExpr{
-																		pos: position{line: 2872, col: 10, offset: 90900},
+																		pos: position{line: 2876, col: 10, offset: 91003},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2872, col: 10, offset: 90900},
+																			pos:        position{line: 2876, col: 10, offset: 91003},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24503,27 +24547,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1583, col: 12, offset: 51195},
+																	pos:   position{line: 1587, col: 12, offset: 51298},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1585, col: 9, offset: 51258},
+																		pos: position{line: 1589, col: 9, offset: 51361},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1585, col: 9, offset: 51258},
+																				pos: position{line: 1589, col: 9, offset: 51361},
 																				run: (*parser).callonListElements15,
 																				expr: &seqExpr{
-																					pos: position{line: 1585, col: 9, offset: 51258},
+																					pos: position{line: 1589, col: 9, offset: 51361},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1585, col: 9, offset: 51258},
+																							pos:   position{line: 1589, col: 9, offset: 51361},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1585, col: 16, offset: 51265},
+																								pos: position{line: 1589, col: 16, offset: 51368},
 																								run: (*parser).callonListElements18,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1585, col: 16, offset: 51265},
+																									pos: position{line: 1589, col: 16, offset: 51368},
 																									expr: &litMatcher{
-																										pos:        position{line: 1585, col: 17, offset: 51266},
+																										pos:        position{line: 1589, col: 17, offset: 51369},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -24532,22 +24576,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1589, col: 9, offset: 51366},
+																							pos: position{line: 1593, col: 9, offset: 51469},
 																							run: (*parser).callonListElements21,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1608, col: 11, offset: 52083},
+																				pos: position{line: 1612, col: 11, offset: 52186},
 																				run: (*parser).callonListElements22,
 																				expr: &seqExpr{
-																					pos: position{line: 1608, col: 11, offset: 52083},
+																					pos: position{line: 1612, col: 11, offset: 52186},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1608, col: 11, offset: 52083},
+																							pos: position{line: 1612, col: 11, offset: 52186},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1608, col: 12, offset: 52084},
+																								pos:        position{line: 1612, col: 12, offset: 52187},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -24555,7 +24599,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1608, col: 20, offset: 52092},
+																							pos:        position{line: 1612, col: 20, offset: 52195},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24564,20 +24608,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1610, col: 13, offset: 52209},
+																				pos: position{line: 1614, col: 13, offset: 52312},
 																				run: (*parser).callonListElements27,
 																				expr: &seqExpr{
-																					pos: position{line: 1610, col: 13, offset: 52209},
+																					pos: position{line: 1614, col: 13, offset: 52312},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1610, col: 14, offset: 52210},
+																							pos:        position{line: 1614, col: 14, offset: 52313},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1610, col: 21, offset: 52217},
+																							pos:        position{line: 1614, col: 21, offset: 52320},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24586,20 +24630,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1612, col: 13, offset: 52337},
+																				pos: position{line: 1616, col: 13, offset: 52440},
 																				run: (*parser).callonListElements31,
 																				expr: &seqExpr{
-																					pos: position{line: 1612, col: 13, offset: 52337},
+																					pos: position{line: 1616, col: 13, offset: 52440},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1612, col: 14, offset: 52338},
+																							pos:        position{line: 1616, col: 14, offset: 52441},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1612, col: 21, offset: 52345},
+																							pos:        position{line: 1616, col: 21, offset: 52448},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24608,15 +24652,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1614, col: 13, offset: 52465},
+																				pos: position{line: 1618, col: 13, offset: 52568},
 																				run: (*parser).callonListElements35,
 																				expr: &seqExpr{
-																					pos: position{line: 1614, col: 13, offset: 52465},
+																					pos: position{line: 1618, col: 13, offset: 52568},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1614, col: 13, offset: 52465},
+																							pos: position{line: 1618, col: 13, offset: 52568},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1614, col: 14, offset: 52466},
+																								pos:        position{line: 1618, col: 14, offset: 52569},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -24624,7 +24668,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1614, col: 26, offset: 52478},
+																							pos:        position{line: 1618, col: 26, offset: 52581},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -24633,15 +24677,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1616, col: 13, offset: 52598},
+																				pos: position{line: 1620, col: 13, offset: 52701},
 																				run: (*parser).callonListElements40,
 																				expr: &seqExpr{
-																					pos: position{line: 1616, col: 13, offset: 52598},
+																					pos: position{line: 1620, col: 13, offset: 52701},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1616, col: 13, offset: 52598},
+																							pos: position{line: 1620, col: 13, offset: 52701},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1616, col: 14, offset: 52599},
+																								pos:        position{line: 1620, col: 14, offset: 52702},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -24649,7 +24693,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1616, col: 26, offset: 52611},
+																							pos:        position{line: 1620, col: 26, offset: 52714},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -24661,12 +24705,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2876, col: 11, offset: 90961},
+																	pos: position{line: 2880, col: 11, offset: 91064},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2876, col: 11, offset: 90961},
+																		pos: position{line: 2880, col: 11, offset: 91064},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 11, offset: 90961},
+																			pos:        position{line: 2880, col: 11, offset: 91064},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24679,26 +24723,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1577, col: 5, offset: 51019},
+													pos:   position{line: 1581, col: 5, offset: 51122},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1524, col: 5, offset: 49486},
+														pos: position{line: 1528, col: 5, offset: 49589},
 														run: (*parser).callonListElements49,
 														expr: &seqExpr{
-															pos: position{line: 1524, col: 5, offset: 49486},
+															pos: position{line: 1528, col: 5, offset: 49589},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1524, col: 5, offset: 49486},
+																	pos:   position{line: 1528, col: 5, offset: 49589},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1524, col: 14, offset: 49495},
+																		pos: position{line: 1528, col: 14, offset: 49598},
 																		expr: &actionExpr{
-																			pos: position{line: 1524, col: 15, offset: 49496},
+																			pos: position{line: 1528, col: 15, offset: 49599},
 																			run: (*parser).callonListElements53,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1524, col: 15, offset: 49496},
+																				pos: position{line: 1528, col: 15, offset: 49599},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1524, col: 15, offset: 49496},
+																					pos:        position{line: 1528, col: 15, offset: 49599},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -24709,28 +24753,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2894, col: 8, offset: 91298},
+																	pos: position{line: 2898, col: 8, offset: 91401},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2881, col: 12, offset: 91071},
+																			pos: position{line: 2885, col: 12, offset: 91174},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2881, col: 13, offset: 91072},
+																				pos: position{line: 2885, col: 13, offset: 91175},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 13, offset: 91072},
+																						pos:        position{line: 2885, col: 13, offset: 91175},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 20, offset: 91079},
+																						pos:        position{line: 2885, col: 20, offset: 91182},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 29, offset: 91088},
+																						pos:        position{line: 2885, col: 29, offset: 91191},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -24739,9 +24783,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2891, col: 8, offset: 91248},
+																			pos: position{line: 2895, col: 8, offset: 91351},
 																			expr: &anyMatcher{
-																				line: 2891, col: 9, offset: 91249,
+																				line: 2895, col: 9, offset: 91352,
 																			},
 																		},
 																	},
@@ -24754,27 +24798,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1626, col: 5, offset: 52877},
+										pos: position{line: 1630, col: 5, offset: 52980},
 										run: (*parser).callonListElements64,
 										expr: &seqExpr{
-											pos: position{line: 1626, col: 5, offset: 52877},
+											pos: position{line: 1630, col: 5, offset: 52980},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1626, col: 5, offset: 52877},
+													pos:   position{line: 1630, col: 5, offset: 52980},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1633, col: 5, offset: 53150},
+														pos: position{line: 1637, col: 5, offset: 53253},
 														run: (*parser).callonListElements67,
 														expr: &seqExpr{
-															pos: position{line: 1633, col: 5, offset: 53150},
+															pos: position{line: 1637, col: 5, offset: 53253},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1633, col: 5, offset: 53150},
+																	pos: position{line: 1637, col: 5, offset: 53253},
 																	expr: &actionExpr{
-																		pos: position{line: 2872, col: 10, offset: 90900},
+																		pos: position{line: 2876, col: 10, offset: 91003},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2872, col: 10, offset: 90900},
+																			pos:        position{line: 2876, col: 10, offset: 91003},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24783,24 +24827,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1634, col: 5, offset: 53162},
+																	pos:   position{line: 1638, col: 5, offset: 53265},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1635, col: 9, offset: 53178},
+																		pos: position{line: 1639, col: 9, offset: 53281},
 																		run: (*parser).callonListElements73,
 																		expr: &choiceExpr{
-																			pos: position{line: 1635, col: 10, offset: 53179},
+																			pos: position{line: 1639, col: 10, offset: 53282},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1635, col: 11, offset: 53180},
+																					pos:        position{line: 1639, col: 11, offset: 53283},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1635, col: 18, offset: 53187},
+																					pos: position{line: 1639, col: 18, offset: 53290},
 																					expr: &litMatcher{
-																						pos:        position{line: 1635, col: 19, offset: 53188},
+																						pos:        position{line: 1639, col: 19, offset: 53291},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -24811,16 +24855,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1638, col: 7, offset: 53278},
+																	pos: position{line: 1642, col: 7, offset: 53381},
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2876, col: 11, offset: 90961},
+																	pos: position{line: 2880, col: 11, offset: 91064},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2876, col: 11, offset: 90961},
+																		pos: position{line: 2880, col: 11, offset: 91064},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 11, offset: 90961},
+																			pos:        position{line: 2880, col: 11, offset: 91064},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24833,56 +24877,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1627, col: 5, offset: 52918},
+													pos:   position{line: 1631, col: 5, offset: 53021},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1627, col: 16, offset: 52929},
+														pos: position{line: 1631, col: 16, offset: 53032},
 														expr: &actionExpr{
-															pos: position{line: 1648, col: 5, offset: 53543},
+															pos: position{line: 1652, col: 5, offset: 53646},
 															run: (*parser).callonListElements84,
 															expr: &seqExpr{
-																pos: position{line: 1648, col: 5, offset: 53543},
+																pos: position{line: 1652, col: 5, offset: 53646},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1648, col: 5, offset: 53543},
+																		pos: position{line: 1652, col: 5, offset: 53646},
 																		expr: &litMatcher{
-																			pos:        position{line: 1648, col: 6, offset: 53544},
+																			pos:        position{line: 1652, col: 6, offset: 53647},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1648, col: 10, offset: 53548},
+																		pos:   position{line: 1652, col: 10, offset: 53651},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1649, col: 7, offset: 53562},
+																			pos: position{line: 1653, col: 7, offset: 53665},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1649, col: 7, offset: 53562},
+																					pos: position{line: 1653, col: 7, offset: 53665},
 																					run: (*parser).callonListElements90,
 																					expr: &litMatcher{
-																						pos:        position{line: 1649, col: 7, offset: 53562},
+																						pos:        position{line: 1653, col: 7, offset: 53665},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1650, col: 7, offset: 53607},
+																					pos: position{line: 1654, col: 7, offset: 53710},
 																					run: (*parser).callonListElements92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1650, col: 7, offset: 53607},
+																						pos:        position{line: 1654, col: 7, offset: 53710},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1651, col: 7, offset: 53650},
+																					pos: position{line: 1655, col: 7, offset: 53753},
 																					run: (*parser).callonListElements94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1651, col: 7, offset: 53650},
+																						pos:        position{line: 1655, col: 7, offset: 53753},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -24892,12 +24936,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2876, col: 11, offset: 90961},
+																		pos: position{line: 2880, col: 11, offset: 91064},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2876, col: 11, offset: 90961},
+																			pos: position{line: 2880, col: 11, offset: 91064},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 11, offset: 90961},
+																				pos:        position{line: 2880, col: 11, offset: 91064},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -24911,26 +24955,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1628, col: 5, offset: 52968},
+													pos:   position{line: 1632, col: 5, offset: 53071},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1524, col: 5, offset: 49486},
+														pos: position{line: 1528, col: 5, offset: 49589},
 														run: (*parser).callonListElements100,
 														expr: &seqExpr{
-															pos: position{line: 1524, col: 5, offset: 49486},
+															pos: position{line: 1528, col: 5, offset: 49589},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1524, col: 5, offset: 49486},
+																	pos:   position{line: 1528, col: 5, offset: 49589},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1524, col: 14, offset: 49495},
+																		pos: position{line: 1528, col: 14, offset: 49598},
 																		expr: &actionExpr{
-																			pos: position{line: 1524, col: 15, offset: 49496},
+																			pos: position{line: 1528, col: 15, offset: 49599},
 																			run: (*parser).callonListElements104,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1524, col: 15, offset: 49496},
+																				pos: position{line: 1528, col: 15, offset: 49599},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1524, col: 15, offset: 49496},
+																					pos:        position{line: 1528, col: 15, offset: 49599},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -24941,28 +24985,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2894, col: 8, offset: 91298},
+																	pos: position{line: 2898, col: 8, offset: 91401},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2881, col: 12, offset: 91071},
+																			pos: position{line: 2885, col: 12, offset: 91174},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2881, col: 13, offset: 91072},
+																				pos: position{line: 2885, col: 13, offset: 91175},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 13, offset: 91072},
+																						pos:        position{line: 2885, col: 13, offset: 91175},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 20, offset: 91079},
+																						pos:        position{line: 2885, col: 20, offset: 91182},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 29, offset: 91088},
+																						pos:        position{line: 2885, col: 29, offset: 91191},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -24971,9 +25015,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2891, col: 8, offset: 91248},
+																			pos: position{line: 2895, col: 8, offset: 91351},
 																			expr: &anyMatcher{
-																				line: 2891, col: 9, offset: 91249,
+																				line: 2895, col: 9, offset: 91352,
 																			},
 																		},
 																	},
@@ -24986,36 +25030,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1717, col: 5, offset: 55522},
+										pos: position{line: 1721, col: 5, offset: 55625},
 										run: (*parser).callonListElements115,
 										expr: &seqExpr{
-											pos: position{line: 1717, col: 5, offset: 55522},
+											pos: position{line: 1721, col: 5, offset: 55625},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1717, col: 5, offset: 55522},
+													pos:   position{line: 1721, col: 5, offset: 55625},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1723, col: 5, offset: 55719},
+														pos: position{line: 1727, col: 5, offset: 55822},
 														run: (*parser).callonListElements118,
 														expr: &seqExpr{
-															pos: position{line: 1723, col: 5, offset: 55719},
+															pos: position{line: 1727, col: 5, offset: 55822},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1723, col: 5, offset: 55719},
+																	pos:        position{line: 1727, col: 5, offset: 55822},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1723, col: 9, offset: 55723},
+																	pos:   position{line: 1727, col: 9, offset: 55826},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1723, col: 14, offset: 55728},
+																		pos: position{line: 1727, col: 14, offset: 55831},
 																		run: (*parser).callonListElements122,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1723, col: 14, offset: 55728},
+																			pos: position{line: 1727, col: 14, offset: 55831},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1723, col: 14, offset: 55728},
+																				pos:        position{line: 1727, col: 14, offset: 55831},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -25025,18 +25069,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1723, col: 62, offset: 55776},
+																	pos:        position{line: 1727, col: 62, offset: 55879},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2876, col: 11, offset: 90961},
+																	pos: position{line: 2880, col: 11, offset: 91064},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2876, col: 11, offset: 90961},
+																		pos: position{line: 2880, col: 11, offset: 91064},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 11, offset: 90961},
+																			pos:        position{line: 2880, col: 11, offset: 91064},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25049,26 +25093,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1718, col: 5, offset: 55558},
+													pos:   position{line: 1722, col: 5, offset: 55661},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1524, col: 5, offset: 49486},
+														pos: position{line: 1528, col: 5, offset: 49589},
 														run: (*parser).callonListElements130,
 														expr: &seqExpr{
-															pos: position{line: 1524, col: 5, offset: 49486},
+															pos: position{line: 1528, col: 5, offset: 49589},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1524, col: 5, offset: 49486},
+																	pos:   position{line: 1528, col: 5, offset: 49589},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1524, col: 14, offset: 49495},
+																		pos: position{line: 1528, col: 14, offset: 49598},
 																		expr: &actionExpr{
-																			pos: position{line: 1524, col: 15, offset: 49496},
+																			pos: position{line: 1528, col: 15, offset: 49599},
 																			run: (*parser).callonListElements134,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1524, col: 15, offset: 49496},
+																				pos: position{line: 1528, col: 15, offset: 49599},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1524, col: 15, offset: 49496},
+																					pos:        position{line: 1528, col: 15, offset: 49599},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25079,28 +25123,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2894, col: 8, offset: 91298},
+																	pos: position{line: 2898, col: 8, offset: 91401},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2881, col: 12, offset: 91071},
+																			pos: position{line: 2885, col: 12, offset: 91174},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2881, col: 13, offset: 91072},
+																				pos: position{line: 2885, col: 13, offset: 91175},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 13, offset: 91072},
+																						pos:        position{line: 2885, col: 13, offset: 91175},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 20, offset: 91079},
+																						pos:        position{line: 2885, col: 20, offset: 91182},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 29, offset: 91088},
+																						pos:        position{line: 2885, col: 29, offset: 91191},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25109,9 +25153,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2891, col: 8, offset: 91248},
+																			pos: position{line: 2895, col: 8, offset: 91351},
 																			expr: &anyMatcher{
-																				line: 2891, col: 9, offset: 91249,
+																				line: 2895, col: 9, offset: 91352,
 																			},
 																		},
 																	},
@@ -25124,35 +25168,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1660, col: 5, offset: 53843},
+										pos: position{line: 1664, col: 5, offset: 53946},
 										run: (*parser).callonListElements145,
 										expr: &seqExpr{
-											pos: position{line: 1660, col: 5, offset: 53843},
+											pos: position{line: 1664, col: 5, offset: 53946},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1660, col: 5, offset: 53843},
+													pos:   position{line: 1664, col: 5, offset: 53946},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1668, col: 5, offset: 54169},
+														pos: position{line: 1672, col: 5, offset: 54272},
 														run: (*parser).callonListElements148,
 														expr: &seqExpr{
-															pos: position{line: 1668, col: 5, offset: 54169},
+															pos: position{line: 1672, col: 5, offset: 54272},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1668, col: 5, offset: 54169},
+																	pos: position{line: 1672, col: 5, offset: 54272},
 																	expr: &seqExpr{
-																		pos: position{line: 2484, col: 31, offset: 80007},
+																		pos: position{line: 2488, col: 31, offset: 80110},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2484, col: 31, offset: 80007},
+																				pos:        position{line: 2488, col: 31, offset: 80110},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2484, col: 36, offset: 80012},
+																				pos: position{line: 2488, col: 36, offset: 80115},
 																				expr: &litMatcher{
-																					pos:        position{line: 2484, col: 37, offset: 80013},
+																					pos:        position{line: 2488, col: 37, offset: 80116},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
@@ -25162,28 +25206,28 @@ var g = &grammar{
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 1669, col: 5, offset: 54201},
+																	pos: position{line: 1673, col: 5, offset: 54304},
 																	expr: &seqExpr{
-																		pos: position{line: 1669, col: 6, offset: 54202},
+																		pos: position{line: 1673, col: 6, offset: 54305},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1669, col: 6, offset: 54202},
+																				pos: position{line: 1673, col: 6, offset: 54305},
 																				expr: &actionExpr{
-																					pos: position{line: 1674, col: 5, offset: 54352},
+																					pos: position{line: 1678, col: 5, offset: 54455},
 																					run: (*parser).callonListElements158,
 																					expr: &seqExpr{
-																						pos: position{line: 1674, col: 5, offset: 54352},
+																						pos: position{line: 1678, col: 5, offset: 54455},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1674, col: 5, offset: 54352},
+																								pos:   position{line: 1678, col: 5, offset: 54455},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1674, col: 16, offset: 54363},
+																									pos: position{line: 1678, col: 16, offset: 54466},
 																									run: (*parser).callonListElements161,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1674, col: 16, offset: 54363},
+																										pos: position{line: 1678, col: 16, offset: 54466},
 																										expr: &litMatcher{
-																											pos:        position{line: 1674, col: 17, offset: 54364},
+																											pos:        position{line: 1678, col: 17, offset: 54467},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -25192,7 +25236,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1677, col: 5, offset: 54421},
+																								pos: position{line: 1681, col: 5, offset: 54524},
 																								run: (*parser).callonListElements164,
 																							},
 																						},
@@ -25200,30 +25244,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1669, col: 35, offset: 54231},
+																				pos: position{line: 1673, col: 35, offset: 54334},
 																				expr: &choiceExpr{
-																					pos: position{line: 2894, col: 8, offset: 91298},
+																					pos: position{line: 2898, col: 8, offset: 91401},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2881, col: 12, offset: 91071},
+																							pos: position{line: 2885, col: 12, offset: 91174},
 																							run: (*parser).callonListElements167,
 																							expr: &choiceExpr{
-																								pos: position{line: 2881, col: 13, offset: 91072},
+																								pos: position{line: 2885, col: 13, offset: 91175},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2881, col: 13, offset: 91072},
+																										pos:        position{line: 2885, col: 13, offset: 91175},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2881, col: 20, offset: 91079},
+																										pos:        position{line: 2885, col: 20, offset: 91182},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2881, col: 29, offset: 91088},
+																										pos:        position{line: 2885, col: 29, offset: 91191},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -25232,16 +25276,16 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2891, col: 8, offset: 91248},
+																							pos: position{line: 2895, col: 8, offset: 91351},
 																							expr: &anyMatcher{
-																								line: 2891, col: 9, offset: 91249,
+																								line: 2895, col: 9, offset: 91352,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1669, col: 40, offset: 54236,
+																				line: 1673, col: 40, offset: 54339,
 																			},
 																		},
 																	},
@@ -25251,24 +25295,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1661, col: 5, offset: 53878},
+													pos:   position{line: 1665, col: 5, offset: 53981},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1674, col: 5, offset: 54352},
+														pos: position{line: 1678, col: 5, offset: 54455},
 														run: (*parser).callonListElements176,
 														expr: &seqExpr{
-															pos: position{line: 1674, col: 5, offset: 54352},
+															pos: position{line: 1678, col: 5, offset: 54455},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1674, col: 5, offset: 54352},
+																	pos:   position{line: 1678, col: 5, offset: 54455},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1674, col: 16, offset: 54363},
+																		pos: position{line: 1678, col: 16, offset: 54466},
 																		run: (*parser).callonListElements179,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1674, col: 16, offset: 54363},
+																			pos: position{line: 1678, col: 16, offset: 54466},
 																			expr: &litMatcher{
-																				pos:        position{line: 1674, col: 17, offset: 54364},
+																				pos:        position{line: 1678, col: 17, offset: 54467},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -25277,7 +25321,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1677, col: 5, offset: 54421},
+																	pos: position{line: 1681, col: 5, offset: 54524},
 																	run: (*parser).callonListElements182,
 																},
 															},
@@ -25285,24 +25329,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1662, col: 5, offset: 53923},
+													pos:   position{line: 1666, col: 5, offset: 54026},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1685, col: 5, offset: 54670},
+														pos: position{line: 1689, col: 5, offset: 54773},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1687, col: 9, offset: 54736},
+																pos: position{line: 1691, col: 9, offset: 54839},
 																run: (*parser).callonListElements185,
 																expr: &seqExpr{
-																	pos: position{line: 1687, col: 9, offset: 54736},
+																	pos: position{line: 1691, col: 9, offset: 54839},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1687, col: 9, offset: 54736},
+																			pos: position{line: 1691, col: 9, offset: 54839},
 																			expr: &actionExpr{
-																				pos: position{line: 2872, col: 10, offset: 90900},
+																				pos: position{line: 2876, col: 10, offset: 91003},
 																				run: (*parser).callonListElements188,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2872, col: 10, offset: 90900},
+																					pos:        position{line: 2876, col: 10, offset: 91003},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25311,28 +25355,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2894, col: 8, offset: 91298},
+																			pos: position{line: 2898, col: 8, offset: 91401},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2881, col: 12, offset: 91071},
+																					pos: position{line: 2885, col: 12, offset: 91174},
 																					run: (*parser).callonListElements191,
 																					expr: &choiceExpr{
-																						pos: position{line: 2881, col: 13, offset: 91072},
+																						pos: position{line: 2885, col: 13, offset: 91175},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2881, col: 13, offset: 91072},
+																								pos:        position{line: 2885, col: 13, offset: 91175},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2881, col: 20, offset: 91079},
+																								pos:        position{line: 2885, col: 20, offset: 91182},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2881, col: 29, offset: 91088},
+																								pos:        position{line: 2885, col: 29, offset: 91191},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25341,15 +25385,15 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2891, col: 8, offset: 91248},
+																					pos: position{line: 2895, col: 8, offset: 91351},
 																					expr: &anyMatcher{
-																						line: 2891, col: 9, offset: 91249,
+																						line: 2895, col: 9, offset: 91352,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1688, col: 9, offset: 54755},
+																			pos: position{line: 1692, col: 9, offset: 54858},
 																			expr: &actionExpr{
 																				pos: position{line: 676, col: 14, offset: 21496},
 																				run: (*parser).callonListElements199,
@@ -25357,18 +25401,18 @@ var g = &grammar{
 																					pos: position{line: 676, col: 14, offset: 21496},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2889, col: 11, offset: 91234},
+																							pos: position{line: 2893, col: 11, offset: 91337},
 																							expr: &anyMatcher{
-																								line: 2889, col: 13, offset: 91236,
+																								line: 2893, col: 13, offset: 91339,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 676, col: 21, offset: 21503},
 																							expr: &actionExpr{
-																								pos: position{line: 2872, col: 10, offset: 90900},
+																								pos: position{line: 2876, col: 10, offset: 91003},
 																								run: (*parser).callonListElements204,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2872, col: 10, offset: 90900},
+																									pos:        position{line: 2876, col: 10, offset: 91003},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25377,28 +25421,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2894, col: 8, offset: 91298},
+																							pos: position{line: 2898, col: 8, offset: 91401},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2881, col: 12, offset: 91071},
+																									pos: position{line: 2885, col: 12, offset: 91174},
 																									run: (*parser).callonListElements207,
 																									expr: &choiceExpr{
-																										pos: position{line: 2881, col: 13, offset: 91072},
+																										pos: position{line: 2885, col: 13, offset: 91175},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 13, offset: 91072},
+																												pos:        position{line: 2885, col: 13, offset: 91175},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 20, offset: 91079},
+																												pos:        position{line: 2885, col: 20, offset: 91182},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 29, offset: 91088},
+																												pos:        position{line: 2885, col: 29, offset: 91191},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25407,9 +25451,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2891, col: 8, offset: 91248},
+																									pos: position{line: 2895, col: 8, offset: 91351},
 																									expr: &anyMatcher{
-																										line: 2891, col: 9, offset: 91249,
+																										line: 2895, col: 9, offset: 91352,
 																									},
 																								},
 																							},
@@ -25422,18 +25466,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1694, col: 9, offset: 54884},
+																pos: position{line: 1698, col: 9, offset: 54987},
 																run: (*parser).callonListElements214,
 																expr: &seqExpr{
-																	pos: position{line: 1694, col: 9, offset: 54884},
+																	pos: position{line: 1698, col: 9, offset: 54987},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2876, col: 11, offset: 90961},
+																			pos: position{line: 2880, col: 11, offset: 91064},
 																			run: (*parser).callonListElements216,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2876, col: 11, offset: 90961},
+																				pos: position{line: 2880, col: 11, offset: 91064},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 11, offset: 90961},
+																					pos:        position{line: 2880, col: 11, offset: 91064},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25442,15 +25486,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1695, col: 9, offset: 54957},
+																			pos:   position{line: 1699, col: 9, offset: 55060},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1695, col: 18, offset: 54966},
+																				pos: position{line: 1699, col: 18, offset: 55069},
 																				run: (*parser).callonListElements220,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1695, col: 18, offset: 54966},
+																					pos: position{line: 1699, col: 18, offset: 55069},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1695, col: 18, offset: 54966},
+																						pos:        position{line: 1699, col: 18, offset: 55069},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -25460,28 +25504,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2894, col: 8, offset: 91298},
+																			pos: position{line: 2898, col: 8, offset: 91401},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2881, col: 12, offset: 91071},
+																					pos: position{line: 2885, col: 12, offset: 91174},
 																					run: (*parser).callonListElements224,
 																					expr: &choiceExpr{
-																						pos: position{line: 2881, col: 13, offset: 91072},
+																						pos: position{line: 2885, col: 13, offset: 91175},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2881, col: 13, offset: 91072},
+																								pos:        position{line: 2885, col: 13, offset: 91175},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2881, col: 20, offset: 91079},
+																								pos:        position{line: 2885, col: 20, offset: 91182},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2881, col: 29, offset: 91088},
+																								pos:        position{line: 2885, col: 29, offset: 91191},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25490,9 +25534,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2891, col: 8, offset: 91248},
+																					pos: position{line: 2895, col: 8, offset: 91351},
 																					expr: &anyMatcher{
-																						line: 2891, col: 9, offset: 91249,
+																						line: 2895, col: 9, offset: 91352,
 																					},
 																				},
 																			},
@@ -25510,10 +25554,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1478, col: 5, offset: 47875},
+							pos:   position{line: 1482, col: 5, offset: 47978},
 							label: "extraElements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1478, col: 20, offset: 47890},
+								pos:  position{line: 1482, col: 20, offset: 47993},
 								name: "ExtraListElements",
 							},
 						},
@@ -25523,17 +25567,17 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElements",
-			pos:  position{line: 1488, col: 1, offset: 48145},
+			pos:  position{line: 1492, col: 1, offset: 48248},
 			expr: &actionExpr{
-				pos: position{line: 1488, col: 22, offset: 48166},
+				pos: position{line: 1492, col: 22, offset: 48269},
 				run: (*parser).callonExtraListElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1488, col: 22, offset: 48166},
+					pos:   position{line: 1492, col: 22, offset: 48269},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1488, col: 31, offset: 48175},
+						pos: position{line: 1492, col: 31, offset: 48278},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1488, col: 32, offset: 48176},
+							pos:  position{line: 1492, col: 32, offset: 48279},
 							name: "ExtraListElement",
 						},
 					},
@@ -25542,33 +25586,33 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElement",
-			pos:  position{line: 1492, col: 1, offset: 48256},
+			pos:  position{line: 1496, col: 1, offset: 48359},
 			expr: &actionExpr{
-				pos: position{line: 1493, col: 5, offset: 48395},
+				pos: position{line: 1497, col: 5, offset: 48498},
 				run: (*parser).callonExtraListElement1,
 				expr: &seqExpr{
-					pos: position{line: 1493, col: 5, offset: 48395},
+					pos: position{line: 1497, col: 5, offset: 48498},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2889, col: 11, offset: 91234},
+							pos: position{line: 2893, col: 11, offset: 91337},
 							expr: &anyMatcher{
-								line: 2889, col: 13, offset: 91236,
+								line: 2893, col: 13, offset: 91339,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1494, col: 5, offset: 48407},
+							pos:   position{line: 1498, col: 5, offset: 48510},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1495, col: 9, offset: 48425},
+								pos: position{line: 1499, col: 9, offset: 48528},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1495, col: 13, offset: 48429},
+										pos: position{line: 1499, col: 13, offset: 48532},
 										run: (*parser).callonExtraListElement7,
 										expr: &seqExpr{
-											pos: position{line: 1495, col: 13, offset: 48429},
+											pos: position{line: 1499, col: 13, offset: 48532},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 1495, col: 13, offset: 48429},
+													pos: position{line: 1499, col: 13, offset: 48532},
 													expr: &actionExpr{
 														pos: position{line: 676, col: 14, offset: 21496},
 														run: (*parser).callonExtraListElement10,
@@ -25576,18 +25620,18 @@ var g = &grammar{
 															pos: position{line: 676, col: 14, offset: 21496},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2889, col: 11, offset: 91234},
+																	pos: position{line: 2893, col: 11, offset: 91337},
 																	expr: &anyMatcher{
-																		line: 2889, col: 13, offset: 91236,
+																		line: 2893, col: 13, offset: 91339,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 676, col: 21, offset: 21503},
 																	expr: &actionExpr{
-																		pos: position{line: 2872, col: 10, offset: 90900},
+																		pos: position{line: 2876, col: 10, offset: 91003},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2872, col: 10, offset: 90900},
+																			pos:        position{line: 2876, col: 10, offset: 91003},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25596,28 +25640,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2894, col: 8, offset: 91298},
+																	pos: position{line: 2898, col: 8, offset: 91401},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2881, col: 12, offset: 91071},
+																			pos: position{line: 2885, col: 12, offset: 91174},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2881, col: 13, offset: 91072},
+																				pos: position{line: 2885, col: 13, offset: 91175},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 13, offset: 91072},
+																						pos:        position{line: 2885, col: 13, offset: 91175},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 20, offset: 91079},
+																						pos:        position{line: 2885, col: 20, offset: 91182},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 29, offset: 91088},
+																						pos:        position{line: 2885, col: 29, offset: 91191},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25626,9 +25670,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2891, col: 8, offset: 91248},
+																			pos: position{line: 2895, col: 8, offset: 91351},
 																			expr: &anyMatcher{
-																				line: 2891, col: 9, offset: 91249,
+																				line: 2895, col: 9, offset: 91352,
 																			},
 																		},
 																	},
@@ -25638,33 +25682,33 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1496, col: 13, offset: 48453},
+													pos:   position{line: 1500, col: 13, offset: 48556},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1496, col: 22, offset: 48462},
+														pos: position{line: 1500, col: 22, offset: 48565},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1576, col: 5, offset: 50980},
+																pos: position{line: 1580, col: 5, offset: 51083},
 																run: (*parser).callonExtraListElement27,
 																expr: &seqExpr{
-																	pos: position{line: 1576, col: 5, offset: 50980},
+																	pos: position{line: 1580, col: 5, offset: 51083},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1576, col: 5, offset: 50980},
+																			pos:   position{line: 1580, col: 5, offset: 51083},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1583, col: 5, offset: 51188},
+																				pos: position{line: 1587, col: 5, offset: 51291},
 																				run: (*parser).callonExtraListElement30,
 																				expr: &seqExpr{
-																					pos: position{line: 1583, col: 5, offset: 51188},
+																					pos: position{line: 1587, col: 5, offset: 51291},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1583, col: 5, offset: 51188},
+																							pos: position{line: 1587, col: 5, offset: 51291},
 																							expr: &actionExpr{
-																								pos: position{line: 2872, col: 10, offset: 90900},
+																								pos: position{line: 2876, col: 10, offset: 91003},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2872, col: 10, offset: 90900},
+																									pos:        position{line: 2876, col: 10, offset: 91003},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25673,27 +25717,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1583, col: 12, offset: 51195},
+																							pos:   position{line: 1587, col: 12, offset: 51298},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1585, col: 9, offset: 51258},
+																								pos: position{line: 1589, col: 9, offset: 51361},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1585, col: 9, offset: 51258},
+																										pos: position{line: 1589, col: 9, offset: 51361},
 																										run: (*parser).callonExtraListElement37,
 																										expr: &seqExpr{
-																											pos: position{line: 1585, col: 9, offset: 51258},
+																											pos: position{line: 1589, col: 9, offset: 51361},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1585, col: 9, offset: 51258},
+																													pos:   position{line: 1589, col: 9, offset: 51361},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1585, col: 16, offset: 51265},
+																														pos: position{line: 1589, col: 16, offset: 51368},
 																														run: (*parser).callonExtraListElement40,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1585, col: 16, offset: 51265},
+																															pos: position{line: 1589, col: 16, offset: 51368},
 																															expr: &litMatcher{
-																																pos:        position{line: 1585, col: 17, offset: 51266},
+																																pos:        position{line: 1589, col: 17, offset: 51369},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -25702,22 +25746,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1589, col: 9, offset: 51366},
+																													pos: position{line: 1593, col: 9, offset: 51469},
 																													run: (*parser).callonExtraListElement43,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1608, col: 11, offset: 52083},
+																										pos: position{line: 1612, col: 11, offset: 52186},
 																										run: (*parser).callonExtraListElement44,
 																										expr: &seqExpr{
-																											pos: position{line: 1608, col: 11, offset: 52083},
+																											pos: position{line: 1612, col: 11, offset: 52186},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1608, col: 11, offset: 52083},
+																													pos: position{line: 1612, col: 11, offset: 52186},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1608, col: 12, offset: 52084},
+																														pos:        position{line: 1612, col: 12, offset: 52187},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -25725,7 +25769,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1608, col: 20, offset: 52092},
+																													pos:        position{line: 1612, col: 20, offset: 52195},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -25734,20 +25778,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1610, col: 13, offset: 52209},
+																										pos: position{line: 1614, col: 13, offset: 52312},
 																										run: (*parser).callonExtraListElement49,
 																										expr: &seqExpr{
-																											pos: position{line: 1610, col: 13, offset: 52209},
+																											pos: position{line: 1614, col: 13, offset: 52312},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1610, col: 14, offset: 52210},
+																													pos:        position{line: 1614, col: 14, offset: 52313},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1610, col: 21, offset: 52217},
+																													pos:        position{line: 1614, col: 21, offset: 52320},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -25756,20 +25800,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1612, col: 13, offset: 52337},
+																										pos: position{line: 1616, col: 13, offset: 52440},
 																										run: (*parser).callonExtraListElement53,
 																										expr: &seqExpr{
-																											pos: position{line: 1612, col: 13, offset: 52337},
+																											pos: position{line: 1616, col: 13, offset: 52440},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1612, col: 14, offset: 52338},
+																													pos:        position{line: 1616, col: 14, offset: 52441},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1612, col: 21, offset: 52345},
+																													pos:        position{line: 1616, col: 21, offset: 52448},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -25778,15 +25822,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1614, col: 13, offset: 52465},
+																										pos: position{line: 1618, col: 13, offset: 52568},
 																										run: (*parser).callonExtraListElement57,
 																										expr: &seqExpr{
-																											pos: position{line: 1614, col: 13, offset: 52465},
+																											pos: position{line: 1618, col: 13, offset: 52568},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1614, col: 13, offset: 52465},
+																													pos: position{line: 1618, col: 13, offset: 52568},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1614, col: 14, offset: 52466},
+																														pos:        position{line: 1618, col: 14, offset: 52569},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -25794,7 +25838,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1614, col: 26, offset: 52478},
+																													pos:        position{line: 1618, col: 26, offset: 52581},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -25803,15 +25847,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1616, col: 13, offset: 52598},
+																										pos: position{line: 1620, col: 13, offset: 52701},
 																										run: (*parser).callonExtraListElement62,
 																										expr: &seqExpr{
-																											pos: position{line: 1616, col: 13, offset: 52598},
+																											pos: position{line: 1620, col: 13, offset: 52701},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1616, col: 13, offset: 52598},
+																													pos: position{line: 1620, col: 13, offset: 52701},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1616, col: 14, offset: 52599},
+																														pos:        position{line: 1620, col: 14, offset: 52702},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -25819,7 +25863,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1616, col: 26, offset: 52611},
+																													pos:        position{line: 1620, col: 26, offset: 52714},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -25831,12 +25875,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2876, col: 11, offset: 90961},
+																							pos: position{line: 2880, col: 11, offset: 91064},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2876, col: 11, offset: 90961},
+																								pos: position{line: 2880, col: 11, offset: 91064},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 11, offset: 90961},
+																									pos:        position{line: 2880, col: 11, offset: 91064},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25849,26 +25893,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1577, col: 5, offset: 51019},
+																			pos:   position{line: 1581, col: 5, offset: 51122},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1524, col: 5, offset: 49486},
+																				pos: position{line: 1528, col: 5, offset: 49589},
 																				run: (*parser).callonExtraListElement71,
 																				expr: &seqExpr{
-																					pos: position{line: 1524, col: 5, offset: 49486},
+																					pos: position{line: 1528, col: 5, offset: 49589},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1524, col: 5, offset: 49486},
+																							pos:   position{line: 1528, col: 5, offset: 49589},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1524, col: 14, offset: 49495},
+																								pos: position{line: 1528, col: 14, offset: 49598},
 																								expr: &actionExpr{
-																									pos: position{line: 1524, col: 15, offset: 49496},
+																									pos: position{line: 1528, col: 15, offset: 49599},
 																									run: (*parser).callonExtraListElement75,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1524, col: 15, offset: 49496},
+																										pos: position{line: 1528, col: 15, offset: 49599},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1524, col: 15, offset: 49496},
+																											pos:        position{line: 1528, col: 15, offset: 49599},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -25879,28 +25923,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2894, col: 8, offset: 91298},
+																							pos: position{line: 2898, col: 8, offset: 91401},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2881, col: 12, offset: 91071},
+																									pos: position{line: 2885, col: 12, offset: 91174},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2881, col: 13, offset: 91072},
+																										pos: position{line: 2885, col: 13, offset: 91175},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 13, offset: 91072},
+																												pos:        position{line: 2885, col: 13, offset: 91175},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 20, offset: 91079},
+																												pos:        position{line: 2885, col: 20, offset: 91182},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 29, offset: 91088},
+																												pos:        position{line: 2885, col: 29, offset: 91191},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25909,9 +25953,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2891, col: 8, offset: 91248},
+																									pos: position{line: 2895, col: 8, offset: 91351},
 																									expr: &anyMatcher{
-																										line: 2891, col: 9, offset: 91249,
+																										line: 2895, col: 9, offset: 91352,
 																									},
 																								},
 																							},
@@ -25924,27 +25968,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1626, col: 5, offset: 52877},
+																pos: position{line: 1630, col: 5, offset: 52980},
 																run: (*parser).callonExtraListElement86,
 																expr: &seqExpr{
-																	pos: position{line: 1626, col: 5, offset: 52877},
+																	pos: position{line: 1630, col: 5, offset: 52980},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1626, col: 5, offset: 52877},
+																			pos:   position{line: 1630, col: 5, offset: 52980},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1633, col: 5, offset: 53150},
+																				pos: position{line: 1637, col: 5, offset: 53253},
 																				run: (*parser).callonExtraListElement89,
 																				expr: &seqExpr{
-																					pos: position{line: 1633, col: 5, offset: 53150},
+																					pos: position{line: 1637, col: 5, offset: 53253},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1633, col: 5, offset: 53150},
+																							pos: position{line: 1637, col: 5, offset: 53253},
 																							expr: &actionExpr{
-																								pos: position{line: 2872, col: 10, offset: 90900},
+																								pos: position{line: 2876, col: 10, offset: 91003},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2872, col: 10, offset: 90900},
+																									pos:        position{line: 2876, col: 10, offset: 91003},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25953,24 +25997,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1634, col: 5, offset: 53162},
+																							pos:   position{line: 1638, col: 5, offset: 53265},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1635, col: 9, offset: 53178},
+																								pos: position{line: 1639, col: 9, offset: 53281},
 																								run: (*parser).callonExtraListElement95,
 																								expr: &choiceExpr{
-																									pos: position{line: 1635, col: 10, offset: 53179},
+																									pos: position{line: 1639, col: 10, offset: 53282},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1635, col: 11, offset: 53180},
+																											pos:        position{line: 1639, col: 11, offset: 53283},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1635, col: 18, offset: 53187},
+																											pos: position{line: 1639, col: 18, offset: 53290},
 																											expr: &litMatcher{
-																												pos:        position{line: 1635, col: 19, offset: 53188},
+																												pos:        position{line: 1639, col: 19, offset: 53291},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -25981,16 +26025,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1638, col: 7, offset: 53278},
+																							pos: position{line: 1642, col: 7, offset: 53381},
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2876, col: 11, offset: 90961},
+																							pos: position{line: 2880, col: 11, offset: 91064},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2876, col: 11, offset: 90961},
+																								pos: position{line: 2880, col: 11, offset: 91064},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 11, offset: 90961},
+																									pos:        position{line: 2880, col: 11, offset: 91064},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26003,56 +26047,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1627, col: 5, offset: 52918},
+																			pos:   position{line: 1631, col: 5, offset: 53021},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1627, col: 16, offset: 52929},
+																				pos: position{line: 1631, col: 16, offset: 53032},
 																				expr: &actionExpr{
-																					pos: position{line: 1648, col: 5, offset: 53543},
+																					pos: position{line: 1652, col: 5, offset: 53646},
 																					run: (*parser).callonExtraListElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 1648, col: 5, offset: 53543},
+																						pos: position{line: 1652, col: 5, offset: 53646},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1648, col: 5, offset: 53543},
+																								pos: position{line: 1652, col: 5, offset: 53646},
 																								expr: &litMatcher{
-																									pos:        position{line: 1648, col: 6, offset: 53544},
+																									pos:        position{line: 1652, col: 6, offset: 53647},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1648, col: 10, offset: 53548},
+																								pos:   position{line: 1652, col: 10, offset: 53651},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1649, col: 7, offset: 53562},
+																									pos: position{line: 1653, col: 7, offset: 53665},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1649, col: 7, offset: 53562},
+																											pos: position{line: 1653, col: 7, offset: 53665},
 																											run: (*parser).callonExtraListElement112,
 																											expr: &litMatcher{
-																												pos:        position{line: 1649, col: 7, offset: 53562},
+																												pos:        position{line: 1653, col: 7, offset: 53665},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1650, col: 7, offset: 53607},
+																											pos: position{line: 1654, col: 7, offset: 53710},
 																											run: (*parser).callonExtraListElement114,
 																											expr: &litMatcher{
-																												pos:        position{line: 1650, col: 7, offset: 53607},
+																												pos:        position{line: 1654, col: 7, offset: 53710},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1651, col: 7, offset: 53650},
+																											pos: position{line: 1655, col: 7, offset: 53753},
 																											run: (*parser).callonExtraListElement116,
 																											expr: &litMatcher{
-																												pos:        position{line: 1651, col: 7, offset: 53650},
+																												pos:        position{line: 1655, col: 7, offset: 53753},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -26062,12 +26106,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2876, col: 11, offset: 90961},
+																								pos: position{line: 2880, col: 11, offset: 91064},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2876, col: 11, offset: 90961},
+																									pos: position{line: 2880, col: 11, offset: 91064},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 11, offset: 90961},
+																										pos:        position{line: 2880, col: 11, offset: 91064},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -26081,26 +26125,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1628, col: 5, offset: 52968},
+																			pos:   position{line: 1632, col: 5, offset: 53071},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1524, col: 5, offset: 49486},
+																				pos: position{line: 1528, col: 5, offset: 49589},
 																				run: (*parser).callonExtraListElement122,
 																				expr: &seqExpr{
-																					pos: position{line: 1524, col: 5, offset: 49486},
+																					pos: position{line: 1528, col: 5, offset: 49589},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1524, col: 5, offset: 49486},
+																							pos:   position{line: 1528, col: 5, offset: 49589},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1524, col: 14, offset: 49495},
+																								pos: position{line: 1528, col: 14, offset: 49598},
 																								expr: &actionExpr{
-																									pos: position{line: 1524, col: 15, offset: 49496},
+																									pos: position{line: 1528, col: 15, offset: 49599},
 																									run: (*parser).callonExtraListElement126,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1524, col: 15, offset: 49496},
+																										pos: position{line: 1528, col: 15, offset: 49599},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1524, col: 15, offset: 49496},
+																											pos:        position{line: 1528, col: 15, offset: 49599},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26111,28 +26155,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2894, col: 8, offset: 91298},
+																							pos: position{line: 2898, col: 8, offset: 91401},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2881, col: 12, offset: 91071},
+																									pos: position{line: 2885, col: 12, offset: 91174},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2881, col: 13, offset: 91072},
+																										pos: position{line: 2885, col: 13, offset: 91175},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 13, offset: 91072},
+																												pos:        position{line: 2885, col: 13, offset: 91175},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 20, offset: 91079},
+																												pos:        position{line: 2885, col: 20, offset: 91182},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 29, offset: 91088},
+																												pos:        position{line: 2885, col: 29, offset: 91191},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26141,9 +26185,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2891, col: 8, offset: 91248},
+																									pos: position{line: 2895, col: 8, offset: 91351},
 																									expr: &anyMatcher{
-																										line: 2891, col: 9, offset: 91249,
+																										line: 2895, col: 9, offset: 91352,
 																									},
 																								},
 																							},
@@ -26156,36 +26200,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1717, col: 5, offset: 55522},
+																pos: position{line: 1721, col: 5, offset: 55625},
 																run: (*parser).callonExtraListElement137,
 																expr: &seqExpr{
-																	pos: position{line: 1717, col: 5, offset: 55522},
+																	pos: position{line: 1721, col: 5, offset: 55625},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1717, col: 5, offset: 55522},
+																			pos:   position{line: 1721, col: 5, offset: 55625},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1723, col: 5, offset: 55719},
+																				pos: position{line: 1727, col: 5, offset: 55822},
 																				run: (*parser).callonExtraListElement140,
 																				expr: &seqExpr{
-																					pos: position{line: 1723, col: 5, offset: 55719},
+																					pos: position{line: 1727, col: 5, offset: 55822},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1723, col: 5, offset: 55719},
+																							pos:        position{line: 1727, col: 5, offset: 55822},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1723, col: 9, offset: 55723},
+																							pos:   position{line: 1727, col: 9, offset: 55826},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1723, col: 14, offset: 55728},
+																								pos: position{line: 1727, col: 14, offset: 55831},
 																								run: (*parser).callonExtraListElement144,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1723, col: 14, offset: 55728},
+																									pos: position{line: 1727, col: 14, offset: 55831},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1723, col: 14, offset: 55728},
+																										pos:        position{line: 1727, col: 14, offset: 55831},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -26195,18 +26239,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1723, col: 62, offset: 55776},
+																							pos:        position{line: 1727, col: 62, offset: 55879},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2876, col: 11, offset: 90961},
+																							pos: position{line: 2880, col: 11, offset: 91064},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2876, col: 11, offset: 90961},
+																								pos: position{line: 2880, col: 11, offset: 91064},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 11, offset: 90961},
+																									pos:        position{line: 2880, col: 11, offset: 91064},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26219,26 +26263,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1718, col: 5, offset: 55558},
+																			pos:   position{line: 1722, col: 5, offset: 55661},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1524, col: 5, offset: 49486},
+																				pos: position{line: 1528, col: 5, offset: 49589},
 																				run: (*parser).callonExtraListElement152,
 																				expr: &seqExpr{
-																					pos: position{line: 1524, col: 5, offset: 49486},
+																					pos: position{line: 1528, col: 5, offset: 49589},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1524, col: 5, offset: 49486},
+																							pos:   position{line: 1528, col: 5, offset: 49589},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1524, col: 14, offset: 49495},
+																								pos: position{line: 1528, col: 14, offset: 49598},
 																								expr: &actionExpr{
-																									pos: position{line: 1524, col: 15, offset: 49496},
+																									pos: position{line: 1528, col: 15, offset: 49599},
 																									run: (*parser).callonExtraListElement156,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1524, col: 15, offset: 49496},
+																										pos: position{line: 1528, col: 15, offset: 49599},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1524, col: 15, offset: 49496},
+																											pos:        position{line: 1528, col: 15, offset: 49599},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26249,28 +26293,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2894, col: 8, offset: 91298},
+																							pos: position{line: 2898, col: 8, offset: 91401},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2881, col: 12, offset: 91071},
+																									pos: position{line: 2885, col: 12, offset: 91174},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2881, col: 13, offset: 91072},
+																										pos: position{line: 2885, col: 13, offset: 91175},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 13, offset: 91072},
+																												pos:        position{line: 2885, col: 13, offset: 91175},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 20, offset: 91079},
+																												pos:        position{line: 2885, col: 20, offset: 91182},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 29, offset: 91088},
+																												pos:        position{line: 2885, col: 29, offset: 91191},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26279,9 +26323,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2891, col: 8, offset: 91248},
+																									pos: position{line: 2895, col: 8, offset: 91351},
 																									expr: &anyMatcher{
-																										line: 2891, col: 9, offset: 91249,
+																										line: 2895, col: 9, offset: 91352,
 																									},
 																								},
 																							},
@@ -26294,35 +26338,35 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1660, col: 5, offset: 53843},
+																pos: position{line: 1664, col: 5, offset: 53946},
 																run: (*parser).callonExtraListElement167,
 																expr: &seqExpr{
-																	pos: position{line: 1660, col: 5, offset: 53843},
+																	pos: position{line: 1664, col: 5, offset: 53946},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1660, col: 5, offset: 53843},
+																			pos:   position{line: 1664, col: 5, offset: 53946},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1668, col: 5, offset: 54169},
+																				pos: position{line: 1672, col: 5, offset: 54272},
 																				run: (*parser).callonExtraListElement170,
 																				expr: &seqExpr{
-																					pos: position{line: 1668, col: 5, offset: 54169},
+																					pos: position{line: 1672, col: 5, offset: 54272},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1668, col: 5, offset: 54169},
+																							pos: position{line: 1672, col: 5, offset: 54272},
 																							expr: &seqExpr{
-																								pos: position{line: 2484, col: 31, offset: 80007},
+																								pos: position{line: 2488, col: 31, offset: 80110},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2484, col: 31, offset: 80007},
+																										pos:        position{line: 2488, col: 31, offset: 80110},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2484, col: 36, offset: 80012},
+																										pos: position{line: 2488, col: 36, offset: 80115},
 																										expr: &litMatcher{
-																											pos:        position{line: 2484, col: 37, offset: 80013},
+																											pos:        position{line: 2488, col: 37, offset: 80116},
 																											val:        "//",
 																											ignoreCase: false,
 																											want:       "\"//\"",
@@ -26332,28 +26376,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1669, col: 5, offset: 54201},
+																							pos: position{line: 1673, col: 5, offset: 54304},
 																							expr: &seqExpr{
-																								pos: position{line: 1669, col: 6, offset: 54202},
+																								pos: position{line: 1673, col: 6, offset: 54305},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1669, col: 6, offset: 54202},
+																										pos: position{line: 1673, col: 6, offset: 54305},
 																										expr: &actionExpr{
-																											pos: position{line: 1674, col: 5, offset: 54352},
+																											pos: position{line: 1678, col: 5, offset: 54455},
 																											run: (*parser).callonExtraListElement180,
 																											expr: &seqExpr{
-																												pos: position{line: 1674, col: 5, offset: 54352},
+																												pos: position{line: 1678, col: 5, offset: 54455},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1674, col: 5, offset: 54352},
+																														pos:   position{line: 1678, col: 5, offset: 54455},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1674, col: 16, offset: 54363},
+																															pos: position{line: 1678, col: 16, offset: 54466},
 																															run: (*parser).callonExtraListElement183,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1674, col: 16, offset: 54363},
+																																pos: position{line: 1678, col: 16, offset: 54466},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1674, col: 17, offset: 54364},
+																																	pos:        position{line: 1678, col: 17, offset: 54467},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -26362,7 +26406,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1677, col: 5, offset: 54421},
+																														pos: position{line: 1681, col: 5, offset: 54524},
 																														run: (*parser).callonExtraListElement186,
 																													},
 																												},
@@ -26370,30 +26414,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1669, col: 35, offset: 54231},
+																										pos: position{line: 1673, col: 35, offset: 54334},
 																										expr: &choiceExpr{
-																											pos: position{line: 2894, col: 8, offset: 91298},
+																											pos: position{line: 2898, col: 8, offset: 91401},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2881, col: 12, offset: 91071},
+																													pos: position{line: 2885, col: 12, offset: 91174},
 																													run: (*parser).callonExtraListElement189,
 																													expr: &choiceExpr{
-																														pos: position{line: 2881, col: 13, offset: 91072},
+																														pos: position{line: 2885, col: 13, offset: 91175},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 13, offset: 91072},
+																																pos:        position{line: 2885, col: 13, offset: 91175},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 20, offset: 91079},
+																																pos:        position{line: 2885, col: 20, offset: 91182},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 29, offset: 91088},
+																																pos:        position{line: 2885, col: 29, offset: 91191},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -26402,16 +26446,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2891, col: 8, offset: 91248},
+																													pos: position{line: 2895, col: 8, offset: 91351},
 																													expr: &anyMatcher{
-																														line: 2891, col: 9, offset: 91249,
+																														line: 2895, col: 9, offset: 91352,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1669, col: 40, offset: 54236,
+																										line: 1673, col: 40, offset: 54339,
 																									},
 																								},
 																							},
@@ -26421,24 +26465,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1661, col: 5, offset: 53878},
+																			pos:   position{line: 1665, col: 5, offset: 53981},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1674, col: 5, offset: 54352},
+																				pos: position{line: 1678, col: 5, offset: 54455},
 																				run: (*parser).callonExtraListElement198,
 																				expr: &seqExpr{
-																					pos: position{line: 1674, col: 5, offset: 54352},
+																					pos: position{line: 1678, col: 5, offset: 54455},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1674, col: 5, offset: 54352},
+																							pos:   position{line: 1678, col: 5, offset: 54455},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1674, col: 16, offset: 54363},
+																								pos: position{line: 1678, col: 16, offset: 54466},
 																								run: (*parser).callonExtraListElement201,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1674, col: 16, offset: 54363},
+																									pos: position{line: 1678, col: 16, offset: 54466},
 																									expr: &litMatcher{
-																										pos:        position{line: 1674, col: 17, offset: 54364},
+																										pos:        position{line: 1678, col: 17, offset: 54467},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -26447,7 +26491,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1677, col: 5, offset: 54421},
+																							pos: position{line: 1681, col: 5, offset: 54524},
 																							run: (*parser).callonExtraListElement204,
 																						},
 																					},
@@ -26455,24 +26499,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1662, col: 5, offset: 53923},
+																			pos:   position{line: 1666, col: 5, offset: 54026},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1685, col: 5, offset: 54670},
+																				pos: position{line: 1689, col: 5, offset: 54773},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1687, col: 9, offset: 54736},
+																						pos: position{line: 1691, col: 9, offset: 54839},
 																						run: (*parser).callonExtraListElement207,
 																						expr: &seqExpr{
-																							pos: position{line: 1687, col: 9, offset: 54736},
+																							pos: position{line: 1691, col: 9, offset: 54839},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1687, col: 9, offset: 54736},
+																									pos: position{line: 1691, col: 9, offset: 54839},
 																									expr: &actionExpr{
-																										pos: position{line: 2872, col: 10, offset: 90900},
+																										pos: position{line: 2876, col: 10, offset: 91003},
 																										run: (*parser).callonExtraListElement210,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2872, col: 10, offset: 90900},
+																											pos:        position{line: 2876, col: 10, offset: 91003},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26481,28 +26525,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2894, col: 8, offset: 91298},
+																									pos: position{line: 2898, col: 8, offset: 91401},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2881, col: 12, offset: 91071},
+																											pos: position{line: 2885, col: 12, offset: 91174},
 																											run: (*parser).callonExtraListElement213,
 																											expr: &choiceExpr{
-																												pos: position{line: 2881, col: 13, offset: 91072},
+																												pos: position{line: 2885, col: 13, offset: 91175},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2881, col: 13, offset: 91072},
+																														pos:        position{line: 2885, col: 13, offset: 91175},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2881, col: 20, offset: 91079},
+																														pos:        position{line: 2885, col: 20, offset: 91182},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2881, col: 29, offset: 91088},
+																														pos:        position{line: 2885, col: 29, offset: 91191},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26511,15 +26555,15 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2891, col: 8, offset: 91248},
+																											pos: position{line: 2895, col: 8, offset: 91351},
 																											expr: &anyMatcher{
-																												line: 2891, col: 9, offset: 91249,
+																												line: 2895, col: 9, offset: 91352,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1688, col: 9, offset: 54755},
+																									pos: position{line: 1692, col: 9, offset: 54858},
 																									expr: &actionExpr{
 																										pos: position{line: 676, col: 14, offset: 21496},
 																										run: (*parser).callonExtraListElement221,
@@ -26527,18 +26571,18 @@ var g = &grammar{
 																											pos: position{line: 676, col: 14, offset: 21496},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2889, col: 11, offset: 91234},
+																													pos: position{line: 2893, col: 11, offset: 91337},
 																													expr: &anyMatcher{
-																														line: 2889, col: 13, offset: 91236,
+																														line: 2893, col: 13, offset: 91339,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 676, col: 21, offset: 21503},
 																													expr: &actionExpr{
-																														pos: position{line: 2872, col: 10, offset: 90900},
+																														pos: position{line: 2876, col: 10, offset: 91003},
 																														run: (*parser).callonExtraListElement226,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2872, col: 10, offset: 90900},
+																															pos:        position{line: 2876, col: 10, offset: 91003},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -26547,28 +26591,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2894, col: 8, offset: 91298},
+																													pos: position{line: 2898, col: 8, offset: 91401},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2881, col: 12, offset: 91071},
+																															pos: position{line: 2885, col: 12, offset: 91174},
 																															run: (*parser).callonExtraListElement229,
 																															expr: &choiceExpr{
-																																pos: position{line: 2881, col: 13, offset: 91072},
+																																pos: position{line: 2885, col: 13, offset: 91175},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2881, col: 13, offset: 91072},
+																																		pos:        position{line: 2885, col: 13, offset: 91175},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2881, col: 20, offset: 91079},
+																																		pos:        position{line: 2885, col: 20, offset: 91182},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2881, col: 29, offset: 91088},
+																																		pos:        position{line: 2885, col: 29, offset: 91191},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -26577,9 +26621,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2891, col: 8, offset: 91248},
+																															pos: position{line: 2895, col: 8, offset: 91351},
 																															expr: &anyMatcher{
-																																line: 2891, col: 9, offset: 91249,
+																																line: 2895, col: 9, offset: 91352,
 																															},
 																														},
 																													},
@@ -26592,18 +26636,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1694, col: 9, offset: 54884},
+																						pos: position{line: 1698, col: 9, offset: 54987},
 																						run: (*parser).callonExtraListElement236,
 																						expr: &seqExpr{
-																							pos: position{line: 1694, col: 9, offset: 54884},
+																							pos: position{line: 1698, col: 9, offset: 54987},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2876, col: 11, offset: 90961},
+																									pos: position{line: 2880, col: 11, offset: 91064},
 																									run: (*parser).callonExtraListElement238,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2876, col: 11, offset: 90961},
+																										pos: position{line: 2880, col: 11, offset: 91064},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2876, col: 11, offset: 90961},
+																											pos:        position{line: 2880, col: 11, offset: 91064},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26612,15 +26656,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1695, col: 9, offset: 54957},
+																									pos:   position{line: 1699, col: 9, offset: 55060},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1695, col: 18, offset: 54966},
+																										pos: position{line: 1699, col: 18, offset: 55069},
 																										run: (*parser).callonExtraListElement242,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1695, col: 18, offset: 54966},
+																											pos: position{line: 1699, col: 18, offset: 55069},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1695, col: 18, offset: 54966},
+																												pos:        position{line: 1699, col: 18, offset: 55069},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -26630,28 +26674,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2894, col: 8, offset: 91298},
+																									pos: position{line: 2898, col: 8, offset: 91401},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2881, col: 12, offset: 91071},
+																											pos: position{line: 2885, col: 12, offset: 91174},
 																											run: (*parser).callonExtraListElement246,
 																											expr: &choiceExpr{
-																												pos: position{line: 2881, col: 13, offset: 91072},
+																												pos: position{line: 2885, col: 13, offset: 91175},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2881, col: 13, offset: 91072},
+																														pos:        position{line: 2885, col: 13, offset: 91175},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2881, col: 20, offset: 91079},
+																														pos:        position{line: 2885, col: 20, offset: 91182},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2881, col: 29, offset: 91088},
+																														pos:        position{line: 2885, col: 29, offset: 91191},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26660,9 +26704,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2891, col: 8, offset: 91248},
+																											pos: position{line: 2895, col: 8, offset: 91351},
 																											expr: &anyMatcher{
-																												line: 2891, col: 9, offset: 91249,
+																												line: 2895, col: 9, offset: 91352,
 																											},
 																										},
 																									},
@@ -26683,50 +26727,50 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1499, col: 13, offset: 48613},
+										pos: position{line: 1503, col: 13, offset: 48716},
 										run: (*parser).callonExtraListElement253,
 										expr: &seqExpr{
-											pos: position{line: 1499, col: 13, offset: 48613},
+											pos: position{line: 1503, col: 13, offset: 48716},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1499, col: 13, offset: 48613},
+													pos:   position{line: 1503, col: 13, offset: 48716},
 													label: "attributes",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1499, col: 24, offset: 48624},
+														pos: position{line: 1503, col: 24, offset: 48727},
 														expr: &ruleRefExpr{
-															pos:  position{line: 1499, col: 25, offset: 48625},
+															pos:  position{line: 1503, col: 25, offset: 48728},
 															name: "BlockAttributes",
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1500, col: 13, offset: 48656},
+													pos:   position{line: 1504, col: 13, offset: 48759},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1500, col: 22, offset: 48665},
+														pos: position{line: 1504, col: 22, offset: 48768},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1576, col: 5, offset: 50980},
+																pos: position{line: 1580, col: 5, offset: 51083},
 																run: (*parser).callonExtraListElement260,
 																expr: &seqExpr{
-																	pos: position{line: 1576, col: 5, offset: 50980},
+																	pos: position{line: 1580, col: 5, offset: 51083},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1576, col: 5, offset: 50980},
+																			pos:   position{line: 1580, col: 5, offset: 51083},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1583, col: 5, offset: 51188},
+																				pos: position{line: 1587, col: 5, offset: 51291},
 																				run: (*parser).callonExtraListElement263,
 																				expr: &seqExpr{
-																					pos: position{line: 1583, col: 5, offset: 51188},
+																					pos: position{line: 1587, col: 5, offset: 51291},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1583, col: 5, offset: 51188},
+																							pos: position{line: 1587, col: 5, offset: 51291},
 																							expr: &actionExpr{
-																								pos: position{line: 2872, col: 10, offset: 90900},
+																								pos: position{line: 2876, col: 10, offset: 91003},
 																								run: (*parser).callonExtraListElement266,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2872, col: 10, offset: 90900},
+																									pos:        position{line: 2876, col: 10, offset: 91003},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26735,27 +26779,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1583, col: 12, offset: 51195},
+																							pos:   position{line: 1587, col: 12, offset: 51298},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1585, col: 9, offset: 51258},
+																								pos: position{line: 1589, col: 9, offset: 51361},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1585, col: 9, offset: 51258},
+																										pos: position{line: 1589, col: 9, offset: 51361},
 																										run: (*parser).callonExtraListElement270,
 																										expr: &seqExpr{
-																											pos: position{line: 1585, col: 9, offset: 51258},
+																											pos: position{line: 1589, col: 9, offset: 51361},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1585, col: 9, offset: 51258},
+																													pos:   position{line: 1589, col: 9, offset: 51361},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1585, col: 16, offset: 51265},
+																														pos: position{line: 1589, col: 16, offset: 51368},
 																														run: (*parser).callonExtraListElement273,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1585, col: 16, offset: 51265},
+																															pos: position{line: 1589, col: 16, offset: 51368},
 																															expr: &litMatcher{
-																																pos:        position{line: 1585, col: 17, offset: 51266},
+																																pos:        position{line: 1589, col: 17, offset: 51369},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -26764,22 +26808,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1589, col: 9, offset: 51366},
+																													pos: position{line: 1593, col: 9, offset: 51469},
 																													run: (*parser).callonExtraListElement276,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1608, col: 11, offset: 52083},
+																										pos: position{line: 1612, col: 11, offset: 52186},
 																										run: (*parser).callonExtraListElement277,
 																										expr: &seqExpr{
-																											pos: position{line: 1608, col: 11, offset: 52083},
+																											pos: position{line: 1612, col: 11, offset: 52186},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1608, col: 11, offset: 52083},
+																													pos: position{line: 1612, col: 11, offset: 52186},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1608, col: 12, offset: 52084},
+																														pos:        position{line: 1612, col: 12, offset: 52187},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -26787,7 +26831,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1608, col: 20, offset: 52092},
+																													pos:        position{line: 1612, col: 20, offset: 52195},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26796,20 +26840,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1610, col: 13, offset: 52209},
+																										pos: position{line: 1614, col: 13, offset: 52312},
 																										run: (*parser).callonExtraListElement282,
 																										expr: &seqExpr{
-																											pos: position{line: 1610, col: 13, offset: 52209},
+																											pos: position{line: 1614, col: 13, offset: 52312},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1610, col: 14, offset: 52210},
+																													pos:        position{line: 1614, col: 14, offset: 52313},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1610, col: 21, offset: 52217},
+																													pos:        position{line: 1614, col: 21, offset: 52320},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26818,20 +26862,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1612, col: 13, offset: 52337},
+																										pos: position{line: 1616, col: 13, offset: 52440},
 																										run: (*parser).callonExtraListElement286,
 																										expr: &seqExpr{
-																											pos: position{line: 1612, col: 13, offset: 52337},
+																											pos: position{line: 1616, col: 13, offset: 52440},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1612, col: 14, offset: 52338},
+																													pos:        position{line: 1616, col: 14, offset: 52441},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1612, col: 21, offset: 52345},
+																													pos:        position{line: 1616, col: 21, offset: 52448},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26840,15 +26884,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1614, col: 13, offset: 52465},
+																										pos: position{line: 1618, col: 13, offset: 52568},
 																										run: (*parser).callonExtraListElement290,
 																										expr: &seqExpr{
-																											pos: position{line: 1614, col: 13, offset: 52465},
+																											pos: position{line: 1618, col: 13, offset: 52568},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1614, col: 13, offset: 52465},
+																													pos: position{line: 1618, col: 13, offset: 52568},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1614, col: 14, offset: 52466},
+																														pos:        position{line: 1618, col: 14, offset: 52569},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -26856,7 +26900,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1614, col: 26, offset: 52478},
+																													pos:        position{line: 1618, col: 26, offset: 52581},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26865,15 +26909,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1616, col: 13, offset: 52598},
+																										pos: position{line: 1620, col: 13, offset: 52701},
 																										run: (*parser).callonExtraListElement295,
 																										expr: &seqExpr{
-																											pos: position{line: 1616, col: 13, offset: 52598},
+																											pos: position{line: 1620, col: 13, offset: 52701},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1616, col: 13, offset: 52598},
+																													pos: position{line: 1620, col: 13, offset: 52701},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1616, col: 14, offset: 52599},
+																														pos:        position{line: 1620, col: 14, offset: 52702},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -26881,7 +26925,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1616, col: 26, offset: 52611},
+																													pos:        position{line: 1620, col: 26, offset: 52714},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26893,12 +26937,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2876, col: 11, offset: 90961},
+																							pos: position{line: 2880, col: 11, offset: 91064},
 																							run: (*parser).callonExtraListElement300,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2876, col: 11, offset: 90961},
+																								pos: position{line: 2880, col: 11, offset: 91064},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 11, offset: 90961},
+																									pos:        position{line: 2880, col: 11, offset: 91064},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26911,26 +26955,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1577, col: 5, offset: 51019},
+																			pos:   position{line: 1581, col: 5, offset: 51122},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1524, col: 5, offset: 49486},
+																				pos: position{line: 1528, col: 5, offset: 49589},
 																				run: (*parser).callonExtraListElement304,
 																				expr: &seqExpr{
-																					pos: position{line: 1524, col: 5, offset: 49486},
+																					pos: position{line: 1528, col: 5, offset: 49589},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1524, col: 5, offset: 49486},
+																							pos:   position{line: 1528, col: 5, offset: 49589},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1524, col: 14, offset: 49495},
+																								pos: position{line: 1528, col: 14, offset: 49598},
 																								expr: &actionExpr{
-																									pos: position{line: 1524, col: 15, offset: 49496},
+																									pos: position{line: 1528, col: 15, offset: 49599},
 																									run: (*parser).callonExtraListElement308,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1524, col: 15, offset: 49496},
+																										pos: position{line: 1528, col: 15, offset: 49599},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1524, col: 15, offset: 49496},
+																											pos:        position{line: 1528, col: 15, offset: 49599},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26941,28 +26985,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2894, col: 8, offset: 91298},
+																							pos: position{line: 2898, col: 8, offset: 91401},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2881, col: 12, offset: 91071},
+																									pos: position{line: 2885, col: 12, offset: 91174},
 																									run: (*parser).callonExtraListElement312,
 																									expr: &choiceExpr{
-																										pos: position{line: 2881, col: 13, offset: 91072},
+																										pos: position{line: 2885, col: 13, offset: 91175},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 13, offset: 91072},
+																												pos:        position{line: 2885, col: 13, offset: 91175},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 20, offset: 91079},
+																												pos:        position{line: 2885, col: 20, offset: 91182},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 29, offset: 91088},
+																												pos:        position{line: 2885, col: 29, offset: 91191},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26971,9 +27015,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2891, col: 8, offset: 91248},
+																									pos: position{line: 2895, col: 8, offset: 91351},
 																									expr: &anyMatcher{
-																										line: 2891, col: 9, offset: 91249,
+																										line: 2895, col: 9, offset: 91352,
 																									},
 																								},
 																							},
@@ -26986,27 +27030,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1626, col: 5, offset: 52877},
+																pos: position{line: 1630, col: 5, offset: 52980},
 																run: (*parser).callonExtraListElement319,
 																expr: &seqExpr{
-																	pos: position{line: 1626, col: 5, offset: 52877},
+																	pos: position{line: 1630, col: 5, offset: 52980},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1626, col: 5, offset: 52877},
+																			pos:   position{line: 1630, col: 5, offset: 52980},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1633, col: 5, offset: 53150},
+																				pos: position{line: 1637, col: 5, offset: 53253},
 																				run: (*parser).callonExtraListElement322,
 																				expr: &seqExpr{
-																					pos: position{line: 1633, col: 5, offset: 53150},
+																					pos: position{line: 1637, col: 5, offset: 53253},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1633, col: 5, offset: 53150},
+																							pos: position{line: 1637, col: 5, offset: 53253},
 																							expr: &actionExpr{
-																								pos: position{line: 2872, col: 10, offset: 90900},
+																								pos: position{line: 2876, col: 10, offset: 91003},
 																								run: (*parser).callonExtraListElement325,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2872, col: 10, offset: 90900},
+																									pos:        position{line: 2876, col: 10, offset: 91003},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27015,24 +27059,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1634, col: 5, offset: 53162},
+																							pos:   position{line: 1638, col: 5, offset: 53265},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1635, col: 9, offset: 53178},
+																								pos: position{line: 1639, col: 9, offset: 53281},
 																								run: (*parser).callonExtraListElement328,
 																								expr: &choiceExpr{
-																									pos: position{line: 1635, col: 10, offset: 53179},
+																									pos: position{line: 1639, col: 10, offset: 53282},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1635, col: 11, offset: 53180},
+																											pos:        position{line: 1639, col: 11, offset: 53283},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1635, col: 18, offset: 53187},
+																											pos: position{line: 1639, col: 18, offset: 53290},
 																											expr: &litMatcher{
-																												pos:        position{line: 1635, col: 19, offset: 53188},
+																												pos:        position{line: 1639, col: 19, offset: 53291},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -27043,16 +27087,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1638, col: 7, offset: 53278},
+																							pos: position{line: 1642, col: 7, offset: 53381},
 																							run: (*parser).callonExtraListElement333,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2876, col: 11, offset: 90961},
+																							pos: position{line: 2880, col: 11, offset: 91064},
 																							run: (*parser).callonExtraListElement334,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2876, col: 11, offset: 90961},
+																								pos: position{line: 2880, col: 11, offset: 91064},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 11, offset: 90961},
+																									pos:        position{line: 2880, col: 11, offset: 91064},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27065,56 +27109,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1627, col: 5, offset: 52918},
+																			pos:   position{line: 1631, col: 5, offset: 53021},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1627, col: 16, offset: 52929},
+																				pos: position{line: 1631, col: 16, offset: 53032},
 																				expr: &actionExpr{
-																					pos: position{line: 1648, col: 5, offset: 53543},
+																					pos: position{line: 1652, col: 5, offset: 53646},
 																					run: (*parser).callonExtraListElement339,
 																					expr: &seqExpr{
-																						pos: position{line: 1648, col: 5, offset: 53543},
+																						pos: position{line: 1652, col: 5, offset: 53646},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1648, col: 5, offset: 53543},
+																								pos: position{line: 1652, col: 5, offset: 53646},
 																								expr: &litMatcher{
-																									pos:        position{line: 1648, col: 6, offset: 53544},
+																									pos:        position{line: 1652, col: 6, offset: 53647},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1648, col: 10, offset: 53548},
+																								pos:   position{line: 1652, col: 10, offset: 53651},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1649, col: 7, offset: 53562},
+																									pos: position{line: 1653, col: 7, offset: 53665},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1649, col: 7, offset: 53562},
+																											pos: position{line: 1653, col: 7, offset: 53665},
 																											run: (*parser).callonExtraListElement345,
 																											expr: &litMatcher{
-																												pos:        position{line: 1649, col: 7, offset: 53562},
+																												pos:        position{line: 1653, col: 7, offset: 53665},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1650, col: 7, offset: 53607},
+																											pos: position{line: 1654, col: 7, offset: 53710},
 																											run: (*parser).callonExtraListElement347,
 																											expr: &litMatcher{
-																												pos:        position{line: 1650, col: 7, offset: 53607},
+																												pos:        position{line: 1654, col: 7, offset: 53710},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1651, col: 7, offset: 53650},
+																											pos: position{line: 1655, col: 7, offset: 53753},
 																											run: (*parser).callonExtraListElement349,
 																											expr: &litMatcher{
-																												pos:        position{line: 1651, col: 7, offset: 53650},
+																												pos:        position{line: 1655, col: 7, offset: 53753},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -27124,12 +27168,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2876, col: 11, offset: 90961},
+																								pos: position{line: 2880, col: 11, offset: 91064},
 																								run: (*parser).callonExtraListElement351,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2876, col: 11, offset: 90961},
+																									pos: position{line: 2880, col: 11, offset: 91064},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 11, offset: 90961},
+																										pos:        position{line: 2880, col: 11, offset: 91064},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27143,26 +27187,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1628, col: 5, offset: 52968},
+																			pos:   position{line: 1632, col: 5, offset: 53071},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1524, col: 5, offset: 49486},
+																				pos: position{line: 1528, col: 5, offset: 49589},
 																				run: (*parser).callonExtraListElement355,
 																				expr: &seqExpr{
-																					pos: position{line: 1524, col: 5, offset: 49486},
+																					pos: position{line: 1528, col: 5, offset: 49589},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1524, col: 5, offset: 49486},
+																							pos:   position{line: 1528, col: 5, offset: 49589},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1524, col: 14, offset: 49495},
+																								pos: position{line: 1528, col: 14, offset: 49598},
 																								expr: &actionExpr{
-																									pos: position{line: 1524, col: 15, offset: 49496},
+																									pos: position{line: 1528, col: 15, offset: 49599},
 																									run: (*parser).callonExtraListElement359,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1524, col: 15, offset: 49496},
+																										pos: position{line: 1528, col: 15, offset: 49599},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1524, col: 15, offset: 49496},
+																											pos:        position{line: 1528, col: 15, offset: 49599},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27173,28 +27217,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2894, col: 8, offset: 91298},
+																							pos: position{line: 2898, col: 8, offset: 91401},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2881, col: 12, offset: 91071},
+																									pos: position{line: 2885, col: 12, offset: 91174},
 																									run: (*parser).callonExtraListElement363,
 																									expr: &choiceExpr{
-																										pos: position{line: 2881, col: 13, offset: 91072},
+																										pos: position{line: 2885, col: 13, offset: 91175},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 13, offset: 91072},
+																												pos:        position{line: 2885, col: 13, offset: 91175},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 20, offset: 91079},
+																												pos:        position{line: 2885, col: 20, offset: 91182},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 29, offset: 91088},
+																												pos:        position{line: 2885, col: 29, offset: 91191},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27203,9 +27247,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2891, col: 8, offset: 91248},
+																									pos: position{line: 2895, col: 8, offset: 91351},
 																									expr: &anyMatcher{
-																										line: 2891, col: 9, offset: 91249,
+																										line: 2895, col: 9, offset: 91352,
 																									},
 																								},
 																							},
@@ -27218,36 +27262,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1717, col: 5, offset: 55522},
+																pos: position{line: 1721, col: 5, offset: 55625},
 																run: (*parser).callonExtraListElement370,
 																expr: &seqExpr{
-																	pos: position{line: 1717, col: 5, offset: 55522},
+																	pos: position{line: 1721, col: 5, offset: 55625},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1717, col: 5, offset: 55522},
+																			pos:   position{line: 1721, col: 5, offset: 55625},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1723, col: 5, offset: 55719},
+																				pos: position{line: 1727, col: 5, offset: 55822},
 																				run: (*parser).callonExtraListElement373,
 																				expr: &seqExpr{
-																					pos: position{line: 1723, col: 5, offset: 55719},
+																					pos: position{line: 1727, col: 5, offset: 55822},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1723, col: 5, offset: 55719},
+																							pos:        position{line: 1727, col: 5, offset: 55822},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1723, col: 9, offset: 55723},
+																							pos:   position{line: 1727, col: 9, offset: 55826},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1723, col: 14, offset: 55728},
+																								pos: position{line: 1727, col: 14, offset: 55831},
 																								run: (*parser).callonExtraListElement377,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1723, col: 14, offset: 55728},
+																									pos: position{line: 1727, col: 14, offset: 55831},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1723, col: 14, offset: 55728},
+																										pos:        position{line: 1727, col: 14, offset: 55831},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -27257,18 +27301,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1723, col: 62, offset: 55776},
+																							pos:        position{line: 1727, col: 62, offset: 55879},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2876, col: 11, offset: 90961},
+																							pos: position{line: 2880, col: 11, offset: 91064},
 																							run: (*parser).callonExtraListElement381,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2876, col: 11, offset: 90961},
+																								pos: position{line: 2880, col: 11, offset: 91064},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 11, offset: 90961},
+																									pos:        position{line: 2880, col: 11, offset: 91064},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27281,26 +27325,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1718, col: 5, offset: 55558},
+																			pos:   position{line: 1722, col: 5, offset: 55661},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1524, col: 5, offset: 49486},
+																				pos: position{line: 1528, col: 5, offset: 49589},
 																				run: (*parser).callonExtraListElement385,
 																				expr: &seqExpr{
-																					pos: position{line: 1524, col: 5, offset: 49486},
+																					pos: position{line: 1528, col: 5, offset: 49589},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1524, col: 5, offset: 49486},
+																							pos:   position{line: 1528, col: 5, offset: 49589},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1524, col: 14, offset: 49495},
+																								pos: position{line: 1528, col: 14, offset: 49598},
 																								expr: &actionExpr{
-																									pos: position{line: 1524, col: 15, offset: 49496},
+																									pos: position{line: 1528, col: 15, offset: 49599},
 																									run: (*parser).callonExtraListElement389,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1524, col: 15, offset: 49496},
+																										pos: position{line: 1528, col: 15, offset: 49599},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1524, col: 15, offset: 49496},
+																											pos:        position{line: 1528, col: 15, offset: 49599},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27311,28 +27355,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2894, col: 8, offset: 91298},
+																							pos: position{line: 2898, col: 8, offset: 91401},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2881, col: 12, offset: 91071},
+																									pos: position{line: 2885, col: 12, offset: 91174},
 																									run: (*parser).callonExtraListElement393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2881, col: 13, offset: 91072},
+																										pos: position{line: 2885, col: 13, offset: 91175},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 13, offset: 91072},
+																												pos:        position{line: 2885, col: 13, offset: 91175},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 20, offset: 91079},
+																												pos:        position{line: 2885, col: 20, offset: 91182},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 29, offset: 91088},
+																												pos:        position{line: 2885, col: 29, offset: 91191},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27341,9 +27385,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2891, col: 8, offset: 91248},
+																									pos: position{line: 2895, col: 8, offset: 91351},
 																									expr: &anyMatcher{
-																										line: 2891, col: 9, offset: 91249,
+																										line: 2895, col: 9, offset: 91352,
 																									},
 																								},
 																							},
@@ -27356,35 +27400,35 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1660, col: 5, offset: 53843},
+																pos: position{line: 1664, col: 5, offset: 53946},
 																run: (*parser).callonExtraListElement400,
 																expr: &seqExpr{
-																	pos: position{line: 1660, col: 5, offset: 53843},
+																	pos: position{line: 1664, col: 5, offset: 53946},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1660, col: 5, offset: 53843},
+																			pos:   position{line: 1664, col: 5, offset: 53946},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1668, col: 5, offset: 54169},
+																				pos: position{line: 1672, col: 5, offset: 54272},
 																				run: (*parser).callonExtraListElement403,
 																				expr: &seqExpr{
-																					pos: position{line: 1668, col: 5, offset: 54169},
+																					pos: position{line: 1672, col: 5, offset: 54272},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1668, col: 5, offset: 54169},
+																							pos: position{line: 1672, col: 5, offset: 54272},
 																							expr: &seqExpr{
-																								pos: position{line: 2484, col: 31, offset: 80007},
+																								pos: position{line: 2488, col: 31, offset: 80110},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2484, col: 31, offset: 80007},
+																										pos:        position{line: 2488, col: 31, offset: 80110},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2484, col: 36, offset: 80012},
+																										pos: position{line: 2488, col: 36, offset: 80115},
 																										expr: &litMatcher{
-																											pos:        position{line: 2484, col: 37, offset: 80013},
+																											pos:        position{line: 2488, col: 37, offset: 80116},
 																											val:        "//",
 																											ignoreCase: false,
 																											want:       "\"//\"",
@@ -27394,28 +27438,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1669, col: 5, offset: 54201},
+																							pos: position{line: 1673, col: 5, offset: 54304},
 																							expr: &seqExpr{
-																								pos: position{line: 1669, col: 6, offset: 54202},
+																								pos: position{line: 1673, col: 6, offset: 54305},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1669, col: 6, offset: 54202},
+																										pos: position{line: 1673, col: 6, offset: 54305},
 																										expr: &actionExpr{
-																											pos: position{line: 1674, col: 5, offset: 54352},
+																											pos: position{line: 1678, col: 5, offset: 54455},
 																											run: (*parser).callonExtraListElement413,
 																											expr: &seqExpr{
-																												pos: position{line: 1674, col: 5, offset: 54352},
+																												pos: position{line: 1678, col: 5, offset: 54455},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1674, col: 5, offset: 54352},
+																														pos:   position{line: 1678, col: 5, offset: 54455},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1674, col: 16, offset: 54363},
+																															pos: position{line: 1678, col: 16, offset: 54466},
 																															run: (*parser).callonExtraListElement416,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1674, col: 16, offset: 54363},
+																																pos: position{line: 1678, col: 16, offset: 54466},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1674, col: 17, offset: 54364},
+																																	pos:        position{line: 1678, col: 17, offset: 54467},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -27424,7 +27468,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1677, col: 5, offset: 54421},
+																														pos: position{line: 1681, col: 5, offset: 54524},
 																														run: (*parser).callonExtraListElement419,
 																													},
 																												},
@@ -27432,30 +27476,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1669, col: 35, offset: 54231},
+																										pos: position{line: 1673, col: 35, offset: 54334},
 																										expr: &choiceExpr{
-																											pos: position{line: 2894, col: 8, offset: 91298},
+																											pos: position{line: 2898, col: 8, offset: 91401},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2881, col: 12, offset: 91071},
+																													pos: position{line: 2885, col: 12, offset: 91174},
 																													run: (*parser).callonExtraListElement422,
 																													expr: &choiceExpr{
-																														pos: position{line: 2881, col: 13, offset: 91072},
+																														pos: position{line: 2885, col: 13, offset: 91175},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 13, offset: 91072},
+																																pos:        position{line: 2885, col: 13, offset: 91175},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 20, offset: 91079},
+																																pos:        position{line: 2885, col: 20, offset: 91182},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 29, offset: 91088},
+																																pos:        position{line: 2885, col: 29, offset: 91191},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -27464,16 +27508,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2891, col: 8, offset: 91248},
+																													pos: position{line: 2895, col: 8, offset: 91351},
 																													expr: &anyMatcher{
-																														line: 2891, col: 9, offset: 91249,
+																														line: 2895, col: 9, offset: 91352,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1669, col: 40, offset: 54236,
+																										line: 1673, col: 40, offset: 54339,
 																									},
 																								},
 																							},
@@ -27483,24 +27527,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1661, col: 5, offset: 53878},
+																			pos:   position{line: 1665, col: 5, offset: 53981},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1674, col: 5, offset: 54352},
+																				pos: position{line: 1678, col: 5, offset: 54455},
 																				run: (*parser).callonExtraListElement431,
 																				expr: &seqExpr{
-																					pos: position{line: 1674, col: 5, offset: 54352},
+																					pos: position{line: 1678, col: 5, offset: 54455},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1674, col: 5, offset: 54352},
+																							pos:   position{line: 1678, col: 5, offset: 54455},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1674, col: 16, offset: 54363},
+																								pos: position{line: 1678, col: 16, offset: 54466},
 																								run: (*parser).callonExtraListElement434,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1674, col: 16, offset: 54363},
+																									pos: position{line: 1678, col: 16, offset: 54466},
 																									expr: &litMatcher{
-																										pos:        position{line: 1674, col: 17, offset: 54364},
+																										pos:        position{line: 1678, col: 17, offset: 54467},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -27509,7 +27553,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1677, col: 5, offset: 54421},
+																							pos: position{line: 1681, col: 5, offset: 54524},
 																							run: (*parser).callonExtraListElement437,
 																						},
 																					},
@@ -27517,24 +27561,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1662, col: 5, offset: 53923},
+																			pos:   position{line: 1666, col: 5, offset: 54026},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1685, col: 5, offset: 54670},
+																				pos: position{line: 1689, col: 5, offset: 54773},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1687, col: 9, offset: 54736},
+																						pos: position{line: 1691, col: 9, offset: 54839},
 																						run: (*parser).callonExtraListElement440,
 																						expr: &seqExpr{
-																							pos: position{line: 1687, col: 9, offset: 54736},
+																							pos: position{line: 1691, col: 9, offset: 54839},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1687, col: 9, offset: 54736},
+																									pos: position{line: 1691, col: 9, offset: 54839},
 																									expr: &actionExpr{
-																										pos: position{line: 2872, col: 10, offset: 90900},
+																										pos: position{line: 2876, col: 10, offset: 91003},
 																										run: (*parser).callonExtraListElement443,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2872, col: 10, offset: 90900},
+																											pos:        position{line: 2876, col: 10, offset: 91003},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27543,28 +27587,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2894, col: 8, offset: 91298},
+																									pos: position{line: 2898, col: 8, offset: 91401},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2881, col: 12, offset: 91071},
+																											pos: position{line: 2885, col: 12, offset: 91174},
 																											run: (*parser).callonExtraListElement446,
 																											expr: &choiceExpr{
-																												pos: position{line: 2881, col: 13, offset: 91072},
+																												pos: position{line: 2885, col: 13, offset: 91175},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2881, col: 13, offset: 91072},
+																														pos:        position{line: 2885, col: 13, offset: 91175},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2881, col: 20, offset: 91079},
+																														pos:        position{line: 2885, col: 20, offset: 91182},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2881, col: 29, offset: 91088},
+																														pos:        position{line: 2885, col: 29, offset: 91191},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27573,15 +27617,15 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2891, col: 8, offset: 91248},
+																											pos: position{line: 2895, col: 8, offset: 91351},
 																											expr: &anyMatcher{
-																												line: 2891, col: 9, offset: 91249,
+																												line: 2895, col: 9, offset: 91352,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1688, col: 9, offset: 54755},
+																									pos: position{line: 1692, col: 9, offset: 54858},
 																									expr: &actionExpr{
 																										pos: position{line: 676, col: 14, offset: 21496},
 																										run: (*parser).callonExtraListElement454,
@@ -27589,18 +27633,18 @@ var g = &grammar{
 																											pos: position{line: 676, col: 14, offset: 21496},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2889, col: 11, offset: 91234},
+																													pos: position{line: 2893, col: 11, offset: 91337},
 																													expr: &anyMatcher{
-																														line: 2889, col: 13, offset: 91236,
+																														line: 2893, col: 13, offset: 91339,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 676, col: 21, offset: 21503},
 																													expr: &actionExpr{
-																														pos: position{line: 2872, col: 10, offset: 90900},
+																														pos: position{line: 2876, col: 10, offset: 91003},
 																														run: (*parser).callonExtraListElement459,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2872, col: 10, offset: 90900},
+																															pos:        position{line: 2876, col: 10, offset: 91003},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27609,28 +27653,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2894, col: 8, offset: 91298},
+																													pos: position{line: 2898, col: 8, offset: 91401},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2881, col: 12, offset: 91071},
+																															pos: position{line: 2885, col: 12, offset: 91174},
 																															run: (*parser).callonExtraListElement462,
 																															expr: &choiceExpr{
-																																pos: position{line: 2881, col: 13, offset: 91072},
+																																pos: position{line: 2885, col: 13, offset: 91175},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2881, col: 13, offset: 91072},
+																																		pos:        position{line: 2885, col: 13, offset: 91175},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2881, col: 20, offset: 91079},
+																																		pos:        position{line: 2885, col: 20, offset: 91182},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2881, col: 29, offset: 91088},
+																																		pos:        position{line: 2885, col: 29, offset: 91191},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -27639,9 +27683,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2891, col: 8, offset: 91248},
+																															pos: position{line: 2895, col: 8, offset: 91351},
 																															expr: &anyMatcher{
-																																line: 2891, col: 9, offset: 91249,
+																																line: 2895, col: 9, offset: 91352,
 																															},
 																														},
 																													},
@@ -27654,18 +27698,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1694, col: 9, offset: 54884},
+																						pos: position{line: 1698, col: 9, offset: 54987},
 																						run: (*parser).callonExtraListElement469,
 																						expr: &seqExpr{
-																							pos: position{line: 1694, col: 9, offset: 54884},
+																							pos: position{line: 1698, col: 9, offset: 54987},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2876, col: 11, offset: 90961},
+																									pos: position{line: 2880, col: 11, offset: 91064},
 																									run: (*parser).callonExtraListElement471,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2876, col: 11, offset: 90961},
+																										pos: position{line: 2880, col: 11, offset: 91064},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2876, col: 11, offset: 90961},
+																											pos:        position{line: 2880, col: 11, offset: 91064},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27674,15 +27718,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1695, col: 9, offset: 54957},
+																									pos:   position{line: 1699, col: 9, offset: 55060},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1695, col: 18, offset: 54966},
+																										pos: position{line: 1699, col: 18, offset: 55069},
 																										run: (*parser).callonExtraListElement475,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1695, col: 18, offset: 54966},
+																											pos: position{line: 1699, col: 18, offset: 55069},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1695, col: 18, offset: 54966},
+																												pos:        position{line: 1699, col: 18, offset: 55069},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -27692,28 +27736,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2894, col: 8, offset: 91298},
+																									pos: position{line: 2898, col: 8, offset: 91401},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2881, col: 12, offset: 91071},
+																											pos: position{line: 2885, col: 12, offset: 91174},
 																											run: (*parser).callonExtraListElement479,
 																											expr: &choiceExpr{
-																												pos: position{line: 2881, col: 13, offset: 91072},
+																												pos: position{line: 2885, col: 13, offset: 91175},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2881, col: 13, offset: 91072},
+																														pos:        position{line: 2885, col: 13, offset: 91175},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2881, col: 20, offset: 91079},
+																														pos:        position{line: 2885, col: 20, offset: 91182},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2881, col: 29, offset: 91088},
+																														pos:        position{line: 2885, col: 29, offset: 91191},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27722,9 +27766,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2891, col: 8, offset: 91248},
+																											pos: position{line: 2895, col: 8, offset: 91351},
 																											expr: &anyMatcher{
-																												line: 2891, col: 9, offset: 91249,
+																												line: 2895, col: 9, offset: 91352,
 																											},
 																										},
 																									},
@@ -27745,40 +27789,40 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1503, col: 11, offset: 48850},
+										pos:  position{line: 1507, col: 11, offset: 48953},
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2479, col: 22, offset: 79786},
+										pos: position{line: 2483, col: 22, offset: 79889},
 										run: (*parser).callonExtraListElement487,
 										expr: &seqExpr{
-											pos: position{line: 2479, col: 22, offset: 79786},
+											pos: position{line: 2483, col: 22, offset: 79889},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2484, col: 31, offset: 80007},
+													pos:        position{line: 2488, col: 31, offset: 80110},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2484, col: 36, offset: 80012},
+													pos: position{line: 2488, col: 36, offset: 80115},
 													expr: &litMatcher{
-														pos:        position{line: 2484, col: 37, offset: 80013},
+														pos:        position{line: 2488, col: 37, offset: 80116},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2479, col: 49, offset: 79813},
+													pos:   position{line: 2483, col: 49, offset: 79916},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2818, col: 13, offset: 89426},
+														pos: position{line: 2822, col: 13, offset: 89529},
 														run: (*parser).callonExtraListElement493,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2818, col: 13, offset: 89426},
+															pos: position{line: 2822, col: 13, offset: 89529},
 															expr: &charClassMatcher{
-																pos:        position{line: 2818, col: 13, offset: 89426},
+																pos:        position{line: 2822, col: 13, offset: 89529},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -27788,28 +27832,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2894, col: 8, offset: 91298},
+													pos: position{line: 2898, col: 8, offset: 91401},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2881, col: 12, offset: 91071},
+															pos: position{line: 2885, col: 12, offset: 91174},
 															run: (*parser).callonExtraListElement497,
 															expr: &choiceExpr{
-																pos: position{line: 2881, col: 13, offset: 91072},
+																pos: position{line: 2885, col: 13, offset: 91175},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2881, col: 13, offset: 91072},
+																		pos:        position{line: 2885, col: 13, offset: 91175},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2881, col: 20, offset: 91079},
+																		pos:        position{line: 2885, col: 20, offset: 91182},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2881, col: 29, offset: 91088},
+																		pos:        position{line: 2885, col: 29, offset: 91191},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -27818,9 +27862,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2891, col: 8, offset: 91248},
+															pos: position{line: 2895, col: 8, offset: 91351},
 															expr: &anyMatcher{
-																line: 2891, col: 9, offset: 91249,
+																line: 2895, col: 9, offset: 91352,
 															},
 														},
 													},
@@ -27829,13 +27873,13 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1511, col: 5, offset: 49128},
+										pos: position{line: 1515, col: 5, offset: 49231},
 										run: (*parser).callonExtraListElement504,
 										expr: &seqExpr{
-											pos: position{line: 1511, col: 5, offset: 49128},
+											pos: position{line: 1515, col: 5, offset: 49231},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 1511, col: 5, offset: 49128},
+													pos: position{line: 1515, col: 5, offset: 49231},
 													expr: &actionExpr{
 														pos: position{line: 676, col: 14, offset: 21496},
 														run: (*parser).callonExtraListElement507,
@@ -27843,18 +27887,18 @@ var g = &grammar{
 															pos: position{line: 676, col: 14, offset: 21496},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2889, col: 11, offset: 91234},
+																	pos: position{line: 2893, col: 11, offset: 91337},
 																	expr: &anyMatcher{
-																		line: 2889, col: 13, offset: 91236,
+																		line: 2893, col: 13, offset: 91339,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 676, col: 21, offset: 21503},
 																	expr: &actionExpr{
-																		pos: position{line: 2872, col: 10, offset: 90900},
+																		pos: position{line: 2876, col: 10, offset: 91003},
 																		run: (*parser).callonExtraListElement512,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2872, col: 10, offset: 90900},
+																			pos:        position{line: 2876, col: 10, offset: 91003},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27863,28 +27907,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2894, col: 8, offset: 91298},
+																	pos: position{line: 2898, col: 8, offset: 91401},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2881, col: 12, offset: 91071},
+																			pos: position{line: 2885, col: 12, offset: 91174},
 																			run: (*parser).callonExtraListElement515,
 																			expr: &choiceExpr{
-																				pos: position{line: 2881, col: 13, offset: 91072},
+																				pos: position{line: 2885, col: 13, offset: 91175},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 13, offset: 91072},
+																						pos:        position{line: 2885, col: 13, offset: 91175},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 20, offset: 91079},
+																						pos:        position{line: 2885, col: 20, offset: 91182},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 29, offset: 91088},
+																						pos:        position{line: 2885, col: 29, offset: 91191},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -27893,9 +27937,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2891, col: 8, offset: 91248},
+																			pos: position{line: 2895, col: 8, offset: 91351},
 																			expr: &anyMatcher{
-																				line: 2891, col: 9, offset: 91249,
+																				line: 2895, col: 9, offset: 91352,
 																			},
 																		},
 																	},
@@ -27905,23 +27949,23 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1512, col: 5, offset: 49143},
+													pos: position{line: 1516, col: 5, offset: 49246},
 													expr: &seqExpr{
-														pos: position{line: 1542, col: 27, offset: 49969},
+														pos: position{line: 1546, col: 27, offset: 50072},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 1542, col: 27, offset: 49969},
+																pos:        position{line: 1546, col: 27, offset: 50072},
 																val:        "+",
 																ignoreCase: false,
 																want:       "\"+\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 1542, col: 31, offset: 49973},
+																pos: position{line: 1546, col: 31, offset: 50076},
 																expr: &actionExpr{
-																	pos: position{line: 2872, col: 10, offset: 90900},
+																	pos: position{line: 2876, col: 10, offset: 91003},
 																	run: (*parser).callonExtraListElement526,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2872, col: 10, offset: 90900},
+																		pos:        position{line: 2876, col: 10, offset: 91003},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -27930,25 +27974,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2881, col: 12, offset: 91071},
+																pos: position{line: 2885, col: 12, offset: 91174},
 																run: (*parser).callonExtraListElement528,
 																expr: &choiceExpr{
-																	pos: position{line: 2881, col: 13, offset: 91072},
+																	pos: position{line: 2885, col: 13, offset: 91175},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2881, col: 13, offset: 91072},
+																			pos:        position{line: 2885, col: 13, offset: 91175},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2881, col: 20, offset: 91079},
+																			pos:        position{line: 2885, col: 20, offset: 91182},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2881, col: 29, offset: 91088},
+																			pos:        position{line: 2885, col: 29, offset: 91191},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -27960,20 +28004,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1513, col: 5, offset: 49171},
+													pos: position{line: 1517, col: 5, offset: 49274},
 													expr: &actionExpr{
-														pos: position{line: 1583, col: 5, offset: 51188},
+														pos: position{line: 1587, col: 5, offset: 51291},
 														run: (*parser).callonExtraListElement534,
 														expr: &seqExpr{
-															pos: position{line: 1583, col: 5, offset: 51188},
+															pos: position{line: 1587, col: 5, offset: 51291},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1583, col: 5, offset: 51188},
+																	pos: position{line: 1587, col: 5, offset: 51291},
 																	expr: &actionExpr{
-																		pos: position{line: 2872, col: 10, offset: 90900},
+																		pos: position{line: 2876, col: 10, offset: 91003},
 																		run: (*parser).callonExtraListElement537,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2872, col: 10, offset: 90900},
+																			pos:        position{line: 2876, col: 10, offset: 91003},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27982,27 +28026,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1583, col: 12, offset: 51195},
+																	pos:   position{line: 1587, col: 12, offset: 51298},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1585, col: 9, offset: 51258},
+																		pos: position{line: 1589, col: 9, offset: 51361},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1585, col: 9, offset: 51258},
+																				pos: position{line: 1589, col: 9, offset: 51361},
 																				run: (*parser).callonExtraListElement541,
 																				expr: &seqExpr{
-																					pos: position{line: 1585, col: 9, offset: 51258},
+																					pos: position{line: 1589, col: 9, offset: 51361},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1585, col: 9, offset: 51258},
+																							pos:   position{line: 1589, col: 9, offset: 51361},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1585, col: 16, offset: 51265},
+																								pos: position{line: 1589, col: 16, offset: 51368},
 																								run: (*parser).callonExtraListElement544,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1585, col: 16, offset: 51265},
+																									pos: position{line: 1589, col: 16, offset: 51368},
 																									expr: &litMatcher{
-																										pos:        position{line: 1585, col: 17, offset: 51266},
+																										pos:        position{line: 1589, col: 17, offset: 51369},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -28011,22 +28055,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1589, col: 9, offset: 51366},
+																							pos: position{line: 1593, col: 9, offset: 51469},
 																							run: (*parser).callonExtraListElement547,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1608, col: 11, offset: 52083},
+																				pos: position{line: 1612, col: 11, offset: 52186},
 																				run: (*parser).callonExtraListElement548,
 																				expr: &seqExpr{
-																					pos: position{line: 1608, col: 11, offset: 52083},
+																					pos: position{line: 1612, col: 11, offset: 52186},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1608, col: 11, offset: 52083},
+																							pos: position{line: 1612, col: 11, offset: 52186},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1608, col: 12, offset: 52084},
+																								pos:        position{line: 1612, col: 12, offset: 52187},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -28034,7 +28078,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1608, col: 20, offset: 52092},
+																							pos:        position{line: 1612, col: 20, offset: 52195},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28043,20 +28087,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1610, col: 13, offset: 52209},
+																				pos: position{line: 1614, col: 13, offset: 52312},
 																				run: (*parser).callonExtraListElement553,
 																				expr: &seqExpr{
-																					pos: position{line: 1610, col: 13, offset: 52209},
+																					pos: position{line: 1614, col: 13, offset: 52312},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1610, col: 14, offset: 52210},
+																							pos:        position{line: 1614, col: 14, offset: 52313},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1610, col: 21, offset: 52217},
+																							pos:        position{line: 1614, col: 21, offset: 52320},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28065,20 +28109,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1612, col: 13, offset: 52337},
+																				pos: position{line: 1616, col: 13, offset: 52440},
 																				run: (*parser).callonExtraListElement557,
 																				expr: &seqExpr{
-																					pos: position{line: 1612, col: 13, offset: 52337},
+																					pos: position{line: 1616, col: 13, offset: 52440},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1612, col: 14, offset: 52338},
+																							pos:        position{line: 1616, col: 14, offset: 52441},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1612, col: 21, offset: 52345},
+																							pos:        position{line: 1616, col: 21, offset: 52448},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28087,15 +28131,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1614, col: 13, offset: 52465},
+																				pos: position{line: 1618, col: 13, offset: 52568},
 																				run: (*parser).callonExtraListElement561,
 																				expr: &seqExpr{
-																					pos: position{line: 1614, col: 13, offset: 52465},
+																					pos: position{line: 1618, col: 13, offset: 52568},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1614, col: 13, offset: 52465},
+																							pos: position{line: 1618, col: 13, offset: 52568},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1614, col: 14, offset: 52466},
+																								pos:        position{line: 1618, col: 14, offset: 52569},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -28103,7 +28147,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1614, col: 26, offset: 52478},
+																							pos:        position{line: 1618, col: 26, offset: 52581},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -28112,15 +28156,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1616, col: 13, offset: 52598},
+																				pos: position{line: 1620, col: 13, offset: 52701},
 																				run: (*parser).callonExtraListElement566,
 																				expr: &seqExpr{
-																					pos: position{line: 1616, col: 13, offset: 52598},
+																					pos: position{line: 1620, col: 13, offset: 52701},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1616, col: 13, offset: 52598},
+																							pos: position{line: 1620, col: 13, offset: 52701},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1616, col: 14, offset: 52599},
+																								pos:        position{line: 1620, col: 14, offset: 52702},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -28128,7 +28172,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1616, col: 26, offset: 52611},
+																							pos:        position{line: 1620, col: 26, offset: 52714},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -28140,12 +28184,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2876, col: 11, offset: 90961},
+																	pos: position{line: 2880, col: 11, offset: 91064},
 																	run: (*parser).callonExtraListElement571,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2876, col: 11, offset: 90961},
+																		pos: position{line: 2880, col: 11, offset: 91064},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 11, offset: 90961},
+																			pos:        position{line: 2880, col: 11, offset: 91064},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28158,20 +28202,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1514, col: 5, offset: 49201},
+													pos: position{line: 1518, col: 5, offset: 49304},
 													expr: &actionExpr{
-														pos: position{line: 1633, col: 5, offset: 53150},
+														pos: position{line: 1637, col: 5, offset: 53253},
 														run: (*parser).callonExtraListElement575,
 														expr: &seqExpr{
-															pos: position{line: 1633, col: 5, offset: 53150},
+															pos: position{line: 1637, col: 5, offset: 53253},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1633, col: 5, offset: 53150},
+																	pos: position{line: 1637, col: 5, offset: 53253},
 																	expr: &actionExpr{
-																		pos: position{line: 2872, col: 10, offset: 90900},
+																		pos: position{line: 2876, col: 10, offset: 91003},
 																		run: (*parser).callonExtraListElement578,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2872, col: 10, offset: 90900},
+																			pos:        position{line: 2876, col: 10, offset: 91003},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28180,24 +28224,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1634, col: 5, offset: 53162},
+																	pos:   position{line: 1638, col: 5, offset: 53265},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1635, col: 9, offset: 53178},
+																		pos: position{line: 1639, col: 9, offset: 53281},
 																		run: (*parser).callonExtraListElement581,
 																		expr: &choiceExpr{
-																			pos: position{line: 1635, col: 10, offset: 53179},
+																			pos: position{line: 1639, col: 10, offset: 53282},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1635, col: 11, offset: 53180},
+																					pos:        position{line: 1639, col: 11, offset: 53283},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1635, col: 18, offset: 53187},
+																					pos: position{line: 1639, col: 18, offset: 53290},
 																					expr: &litMatcher{
-																						pos:        position{line: 1635, col: 19, offset: 53188},
+																						pos:        position{line: 1639, col: 19, offset: 53291},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -28208,16 +28252,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1638, col: 7, offset: 53278},
+																	pos: position{line: 1642, col: 7, offset: 53381},
 																	run: (*parser).callonExtraListElement586,
 																},
 																&actionExpr{
-																	pos: position{line: 2876, col: 11, offset: 90961},
+																	pos: position{line: 2880, col: 11, offset: 91064},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2876, col: 11, offset: 90961},
+																		pos: position{line: 2880, col: 11, offset: 91064},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 11, offset: 90961},
+																			pos:        position{line: 2880, col: 11, offset: 91064},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28230,29 +28274,29 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1515, col: 5, offset: 49233},
+													pos: position{line: 1519, col: 5, offset: 49336},
 													expr: &actionExpr{
-														pos: position{line: 1723, col: 5, offset: 55719},
+														pos: position{line: 1727, col: 5, offset: 55822},
 														run: (*parser).callonExtraListElement591,
 														expr: &seqExpr{
-															pos: position{line: 1723, col: 5, offset: 55719},
+															pos: position{line: 1727, col: 5, offset: 55822},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1723, col: 5, offset: 55719},
+																	pos:        position{line: 1727, col: 5, offset: 55822},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1723, col: 9, offset: 55723},
+																	pos:   position{line: 1727, col: 9, offset: 55826},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1723, col: 14, offset: 55728},
+																		pos: position{line: 1727, col: 14, offset: 55831},
 																		run: (*parser).callonExtraListElement595,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1723, col: 14, offset: 55728},
+																			pos: position{line: 1727, col: 14, offset: 55831},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1723, col: 14, offset: 55728},
+																				pos:        position{line: 1727, col: 14, offset: 55831},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -28262,18 +28306,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1723, col: 62, offset: 55776},
+																	pos:        position{line: 1727, col: 62, offset: 55879},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2876, col: 11, offset: 90961},
+																	pos: position{line: 2880, col: 11, offset: 91064},
 																	run: (*parser).callonExtraListElement599,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2876, col: 11, offset: 90961},
+																		pos: position{line: 2880, col: 11, offset: 91064},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 11, offset: 90961},
+																			pos:        position{line: 2880, col: 11, offset: 91064},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28286,31 +28330,31 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1516, col: 5, offset: 49263},
+													pos: position{line: 1520, col: 5, offset: 49366},
 													expr: &seqExpr{
-														pos: position{line: 1516, col: 7, offset: 49265},
+														pos: position{line: 1520, col: 7, offset: 49368},
 														exprs: []interface{}{
 															&actionExpr{
-																pos: position{line: 1668, col: 5, offset: 54169},
+																pos: position{line: 1672, col: 5, offset: 54272},
 																run: (*parser).callonExtraListElement604,
 																expr: &seqExpr{
-																	pos: position{line: 1668, col: 5, offset: 54169},
+																	pos: position{line: 1672, col: 5, offset: 54272},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1668, col: 5, offset: 54169},
+																			pos: position{line: 1672, col: 5, offset: 54272},
 																			expr: &seqExpr{
-																				pos: position{line: 2484, col: 31, offset: 80007},
+																				pos: position{line: 2488, col: 31, offset: 80110},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2484, col: 31, offset: 80007},
+																						pos:        position{line: 2488, col: 31, offset: 80110},
 																						val:        "//",
 																						ignoreCase: false,
 																						want:       "\"//\"",
 																					},
 																					&notExpr{
-																						pos: position{line: 2484, col: 36, offset: 80012},
+																						pos: position{line: 2488, col: 36, offset: 80115},
 																						expr: &litMatcher{
-																							pos:        position{line: 2484, col: 37, offset: 80013},
+																							pos:        position{line: 2488, col: 37, offset: 80116},
 																							val:        "//",
 																							ignoreCase: false,
 																							want:       "\"//\"",
@@ -28320,28 +28364,28 @@ var g = &grammar{
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 1669, col: 5, offset: 54201},
+																			pos: position{line: 1673, col: 5, offset: 54304},
 																			expr: &seqExpr{
-																				pos: position{line: 1669, col: 6, offset: 54202},
+																				pos: position{line: 1673, col: 6, offset: 54305},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1669, col: 6, offset: 54202},
+																						pos: position{line: 1673, col: 6, offset: 54305},
 																						expr: &actionExpr{
-																							pos: position{line: 1674, col: 5, offset: 54352},
+																							pos: position{line: 1678, col: 5, offset: 54455},
 																							run: (*parser).callonExtraListElement614,
 																							expr: &seqExpr{
-																								pos: position{line: 1674, col: 5, offset: 54352},
+																								pos: position{line: 1678, col: 5, offset: 54455},
 																								exprs: []interface{}{
 																									&labeledExpr{
-																										pos:   position{line: 1674, col: 5, offset: 54352},
+																										pos:   position{line: 1678, col: 5, offset: 54455},
 																										label: "separator",
 																										expr: &actionExpr{
-																											pos: position{line: 1674, col: 16, offset: 54363},
+																											pos: position{line: 1678, col: 16, offset: 54466},
 																											run: (*parser).callonExtraListElement617,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1674, col: 16, offset: 54363},
+																												pos: position{line: 1678, col: 16, offset: 54466},
 																												expr: &litMatcher{
-																													pos:        position{line: 1674, col: 17, offset: 54364},
+																													pos:        position{line: 1678, col: 17, offset: 54467},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
@@ -28350,7 +28394,7 @@ var g = &grammar{
 																										},
 																									},
 																									&andCodeExpr{
-																										pos: position{line: 1677, col: 5, offset: 54421},
+																										pos: position{line: 1681, col: 5, offset: 54524},
 																										run: (*parser).callonExtraListElement620,
 																									},
 																								},
@@ -28358,30 +28402,30 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1669, col: 35, offset: 54231},
+																						pos: position{line: 1673, col: 35, offset: 54334},
 																						expr: &choiceExpr{
-																							pos: position{line: 2894, col: 8, offset: 91298},
+																							pos: position{line: 2898, col: 8, offset: 91401},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2881, col: 12, offset: 91071},
+																									pos: position{line: 2885, col: 12, offset: 91174},
 																									run: (*parser).callonExtraListElement623,
 																									expr: &choiceExpr{
-																										pos: position{line: 2881, col: 13, offset: 91072},
+																										pos: position{line: 2885, col: 13, offset: 91175},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 13, offset: 91072},
+																												pos:        position{line: 2885, col: 13, offset: 91175},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 20, offset: 91079},
+																												pos:        position{line: 2885, col: 20, offset: 91182},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 29, offset: 91088},
+																												pos:        position{line: 2885, col: 29, offset: 91191},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28390,16 +28434,16 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2891, col: 8, offset: 91248},
+																									pos: position{line: 2895, col: 8, offset: 91351},
 																									expr: &anyMatcher{
-																										line: 2891, col: 9, offset: 91249,
+																										line: 2895, col: 9, offset: 91352,
 																									},
 																								},
 																							},
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1669, col: 40, offset: 54236,
+																						line: 1673, col: 40, offset: 54339,
 																					},
 																				},
 																			},
@@ -28408,21 +28452,21 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1674, col: 5, offset: 54352},
+																pos: position{line: 1678, col: 5, offset: 54455},
 																run: (*parser).callonExtraListElement631,
 																expr: &seqExpr{
-																	pos: position{line: 1674, col: 5, offset: 54352},
+																	pos: position{line: 1678, col: 5, offset: 54455},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1674, col: 5, offset: 54352},
+																			pos:   position{line: 1678, col: 5, offset: 54455},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1674, col: 16, offset: 54363},
+																				pos: position{line: 1678, col: 16, offset: 54466},
 																				run: (*parser).callonExtraListElement634,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1674, col: 16, offset: 54363},
+																					pos: position{line: 1678, col: 16, offset: 54466},
 																					expr: &litMatcher{
-																						pos:        position{line: 1674, col: 17, offset: 54364},
+																						pos:        position{line: 1678, col: 17, offset: 54467},
 																						val:        ":",
 																						ignoreCase: false,
 																						want:       "\":\"",
@@ -28431,7 +28475,7 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1677, col: 5, offset: 54421},
+																			pos: position{line: 1681, col: 5, offset: 54524},
 																			run: (*parser).callonExtraListElement637,
 																		},
 																	},
@@ -28441,7 +28485,7 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1517, col: 5, offset: 49321},
+													pos: position{line: 1521, col: 5, offset: 49424},
 													expr: &actionExpr{
 														pos: position{line: 723, col: 5, offset: 23049},
 														run: (*parser).callonExtraListElement639,
@@ -28451,7 +28495,7 @@ var g = &grammar{
 																&notExpr{
 																	pos: position{line: 723, col: 5, offset: 23049},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2762, col: 13, offset: 87974},
+																		pos:        position{line: 2766, col: 13, offset: 88077},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -28501,10 +28545,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 741, col: 8, offset: 23693},
 																							expr: &actionExpr{
-																								pos: position{line: 2872, col: 10, offset: 90900},
+																								pos: position{line: 2876, col: 10, offset: 91003},
 																								run: (*parser).callonExtraListElement654,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2872, col: 10, offset: 90900},
+																									pos:        position{line: 2876, col: 10, offset: 91003},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28513,28 +28557,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2894, col: 8, offset: 91298},
+																							pos: position{line: 2898, col: 8, offset: 91401},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2881, col: 12, offset: 91071},
+																									pos: position{line: 2885, col: 12, offset: 91174},
 																									run: (*parser).callonExtraListElement657,
 																									expr: &choiceExpr{
-																										pos: position{line: 2881, col: 13, offset: 91072},
+																										pos: position{line: 2885, col: 13, offset: 91175},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 13, offset: 91072},
+																												pos:        position{line: 2885, col: 13, offset: 91175},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 20, offset: 91079},
+																												pos:        position{line: 2885, col: 20, offset: 91182},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 29, offset: 91088},
+																												pos:        position{line: 2885, col: 29, offset: 91191},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28543,9 +28587,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2891, col: 8, offset: 91248},
+																									pos: position{line: 2895, col: 8, offset: 91351},
 																									expr: &anyMatcher{
-																										line: 2891, col: 9, offset: 91249,
+																										line: 2895, col: 9, offset: 91352,
 																									},
 																								},
 																							},
@@ -28590,10 +28634,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 748, col: 8, offset: 23941},
 																							expr: &actionExpr{
-																								pos: position{line: 2872, col: 10, offset: 90900},
+																								pos: position{line: 2876, col: 10, offset: 91003},
 																								run: (*parser).callonExtraListElement673,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2872, col: 10, offset: 90900},
+																									pos:        position{line: 2876, col: 10, offset: 91003},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28602,28 +28646,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2894, col: 8, offset: 91298},
+																							pos: position{line: 2898, col: 8, offset: 91401},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2881, col: 12, offset: 91071},
+																									pos: position{line: 2885, col: 12, offset: 91174},
 																									run: (*parser).callonExtraListElement676,
 																									expr: &choiceExpr{
-																										pos: position{line: 2881, col: 13, offset: 91072},
+																										pos: position{line: 2885, col: 13, offset: 91175},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 13, offset: 91072},
+																												pos:        position{line: 2885, col: 13, offset: 91175},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 20, offset: 91079},
+																												pos:        position{line: 2885, col: 20, offset: 91182},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 29, offset: 91088},
+																												pos:        position{line: 2885, col: 29, offset: 91191},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28632,9 +28676,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2891, col: 8, offset: 91248},
+																									pos: position{line: 2895, col: 8, offset: 91351},
 																									expr: &anyMatcher{
-																										line: 2891, col: 9, offset: 91249,
+																										line: 2895, col: 9, offset: 91352,
 																									},
 																								},
 																							},
@@ -28675,10 +28719,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 759, col: 52, offset: 24353},
 																							expr: &actionExpr{
-																								pos: position{line: 2872, col: 10, offset: 90900},
+																								pos: position{line: 2876, col: 10, offset: 91003},
 																								run: (*parser).callonExtraListElement691,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2872, col: 10, offset: 90900},
+																									pos:        position{line: 2876, col: 10, offset: 91003},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28687,28 +28731,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2894, col: 8, offset: 91298},
+																							pos: position{line: 2898, col: 8, offset: 91401},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2881, col: 12, offset: 91071},
+																									pos: position{line: 2885, col: 12, offset: 91174},
 																									run: (*parser).callonExtraListElement694,
 																									expr: &choiceExpr{
-																										pos: position{line: 2881, col: 13, offset: 91072},
+																										pos: position{line: 2885, col: 13, offset: 91175},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 13, offset: 91072},
+																												pos:        position{line: 2885, col: 13, offset: 91175},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 20, offset: 91079},
+																												pos:        position{line: 2885, col: 20, offset: 91182},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 29, offset: 91088},
+																												pos:        position{line: 2885, col: 29, offset: 91191},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28717,9 +28761,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2891, col: 8, offset: 91248},
+																									pos: position{line: 2895, col: 8, offset: 91351},
 																									expr: &anyMatcher{
-																										line: 2891, col: 9, offset: 91249,
+																										line: 2895, col: 9, offset: 91352,
 																									},
 																								},
 																							},
@@ -28764,10 +28808,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 755, col: 8, offset: 24187},
 																							expr: &actionExpr{
-																								pos: position{line: 2872, col: 10, offset: 90900},
+																								pos: position{line: 2876, col: 10, offset: 91003},
 																								run: (*parser).callonExtraListElement710,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2872, col: 10, offset: 90900},
+																									pos:        position{line: 2876, col: 10, offset: 91003},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28776,28 +28820,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2894, col: 8, offset: 91298},
+																							pos: position{line: 2898, col: 8, offset: 91401},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2881, col: 12, offset: 91071},
+																									pos: position{line: 2885, col: 12, offset: 91174},
 																									run: (*parser).callonExtraListElement713,
 																									expr: &choiceExpr{
-																										pos: position{line: 2881, col: 13, offset: 91072},
+																										pos: position{line: 2885, col: 13, offset: 91175},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 13, offset: 91072},
+																												pos:        position{line: 2885, col: 13, offset: 91175},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 20, offset: 91079},
+																												pos:        position{line: 2885, col: 20, offset: 91182},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 29, offset: 91088},
+																												pos:        position{line: 2885, col: 29, offset: 91191},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28806,9 +28850,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2891, col: 8, offset: 91248},
+																									pos: position{line: 2895, col: 8, offset: 91351},
 																									expr: &anyMatcher{
-																										line: 2891, col: 9, offset: 91249,
+																										line: 2895, col: 9, offset: 91352,
 																									},
 																								},
 																							},
@@ -28853,10 +28897,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 770, col: 8, offset: 24730},
 																							expr: &actionExpr{
-																								pos: position{line: 2872, col: 10, offset: 90900},
+																								pos: position{line: 2876, col: 10, offset: 91003},
 																								run: (*parser).callonExtraListElement729,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2872, col: 10, offset: 90900},
+																									pos:        position{line: 2876, col: 10, offset: 91003},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28865,28 +28909,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2894, col: 8, offset: 91298},
+																							pos: position{line: 2898, col: 8, offset: 91401},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2881, col: 12, offset: 91071},
+																									pos: position{line: 2885, col: 12, offset: 91174},
 																									run: (*parser).callonExtraListElement732,
 																									expr: &choiceExpr{
-																										pos: position{line: 2881, col: 13, offset: 91072},
+																										pos: position{line: 2885, col: 13, offset: 91175},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 13, offset: 91072},
+																												pos:        position{line: 2885, col: 13, offset: 91175},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 20, offset: 91079},
+																												pos:        position{line: 2885, col: 20, offset: 91182},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 29, offset: 91088},
+																												pos:        position{line: 2885, col: 29, offset: 91191},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28895,9 +28939,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2891, col: 8, offset: 91248},
+																									pos: position{line: 2895, col: 8, offset: 91351},
 																									expr: &anyMatcher{
-																										line: 2891, col: 9, offset: 91249,
+																										line: 2895, col: 9, offset: 91352,
 																									},
 																								},
 																							},
@@ -28942,10 +28986,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 784, col: 8, offset: 25206},
 																							expr: &actionExpr{
-																								pos: position{line: 2872, col: 10, offset: 90900},
+																								pos: position{line: 2876, col: 10, offset: 91003},
 																								run: (*parser).callonExtraListElement748,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2872, col: 10, offset: 90900},
+																									pos:        position{line: 2876, col: 10, offset: 91003},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28954,28 +28998,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2894, col: 8, offset: 91298},
+																							pos: position{line: 2898, col: 8, offset: 91401},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2881, col: 12, offset: 91071},
+																									pos: position{line: 2885, col: 12, offset: 91174},
 																									run: (*parser).callonExtraListElement751,
 																									expr: &choiceExpr{
-																										pos: position{line: 2881, col: 13, offset: 91072},
+																										pos: position{line: 2885, col: 13, offset: 91175},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 13, offset: 91072},
+																												pos:        position{line: 2885, col: 13, offset: 91175},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 20, offset: 91079},
+																												pos:        position{line: 2885, col: 20, offset: 91182},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 29, offset: 91088},
+																												pos:        position{line: 2885, col: 29, offset: 91191},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28984,9 +29028,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2891, col: 8, offset: 91248},
+																									pos: position{line: 2895, col: 8, offset: 91351},
 																									expr: &anyMatcher{
-																										line: 2891, col: 9, offset: 91249,
+																										line: 2895, col: 9, offset: 91352,
 																									},
 																								},
 																							},
@@ -29031,10 +29075,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 791, col: 8, offset: 25458},
 																							expr: &actionExpr{
-																								pos: position{line: 2872, col: 10, offset: 90900},
+																								pos: position{line: 2876, col: 10, offset: 91003},
 																								run: (*parser).callonExtraListElement767,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2872, col: 10, offset: 90900},
+																									pos:        position{line: 2876, col: 10, offset: 91003},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29043,28 +29087,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2894, col: 8, offset: 91298},
+																							pos: position{line: 2898, col: 8, offset: 91401},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2881, col: 12, offset: 91071},
+																									pos: position{line: 2885, col: 12, offset: 91174},
 																									run: (*parser).callonExtraListElement770,
 																									expr: &choiceExpr{
-																										pos: position{line: 2881, col: 13, offset: 91072},
+																										pos: position{line: 2885, col: 13, offset: 91175},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 13, offset: 91072},
+																												pos:        position{line: 2885, col: 13, offset: 91175},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 20, offset: 91079},
+																												pos:        position{line: 2885, col: 20, offset: 91182},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 29, offset: 91088},
+																												pos:        position{line: 2885, col: 29, offset: 91191},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29073,9 +29117,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2891, col: 8, offset: 91248},
+																									pos: position{line: 2895, col: 8, offset: 91351},
 																									expr: &anyMatcher{
-																										line: 2891, col: 9, offset: 91249,
+																										line: 2895, col: 9, offset: 91352,
 																									},
 																								},
 																							},
@@ -29120,10 +29164,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 798, col: 8, offset: 25708},
 																							expr: &actionExpr{
-																								pos: position{line: 2872, col: 10, offset: 90900},
+																								pos: position{line: 2876, col: 10, offset: 91003},
 																								run: (*parser).callonExtraListElement786,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2872, col: 10, offset: 90900},
+																									pos:        position{line: 2876, col: 10, offset: 91003},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29132,28 +29176,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2894, col: 8, offset: 91298},
+																							pos: position{line: 2898, col: 8, offset: 91401},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2881, col: 12, offset: 91071},
+																									pos: position{line: 2885, col: 12, offset: 91174},
 																									run: (*parser).callonExtraListElement789,
 																									expr: &choiceExpr{
-																										pos: position{line: 2881, col: 13, offset: 91072},
+																										pos: position{line: 2885, col: 13, offset: 91175},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 13, offset: 91072},
+																												pos:        position{line: 2885, col: 13, offset: 91175},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 20, offset: 91079},
+																												pos:        position{line: 2885, col: 20, offset: 91182},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 29, offset: 91088},
+																												pos:        position{line: 2885, col: 29, offset: 91191},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29162,9 +29206,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2891, col: 8, offset: 91248},
+																									pos: position{line: 2895, col: 8, offset: 91351},
 																									expr: &anyMatcher{
-																										line: 2891, col: 9, offset: 91249,
+																										line: 2895, col: 9, offset: 91352,
 																									},
 																								},
 																							},
@@ -29209,10 +29253,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 805, col: 8, offset: 25954},
 																							expr: &actionExpr{
-																								pos: position{line: 2872, col: 10, offset: 90900},
+																								pos: position{line: 2876, col: 10, offset: 91003},
 																								run: (*parser).callonExtraListElement805,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2872, col: 10, offset: 90900},
+																									pos:        position{line: 2876, col: 10, offset: 91003},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29221,28 +29265,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2894, col: 8, offset: 91298},
+																							pos: position{line: 2898, col: 8, offset: 91401},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2881, col: 12, offset: 91071},
+																									pos: position{line: 2885, col: 12, offset: 91174},
 																									run: (*parser).callonExtraListElement808,
 																									expr: &choiceExpr{
-																										pos: position{line: 2881, col: 13, offset: 91072},
+																										pos: position{line: 2885, col: 13, offset: 91175},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 13, offset: 91072},
+																												pos:        position{line: 2885, col: 13, offset: 91175},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 20, offset: 91079},
+																												pos:        position{line: 2885, col: 20, offset: 91182},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 29, offset: 91088},
+																												pos:        position{line: 2885, col: 29, offset: 91191},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29251,9 +29295,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2891, col: 8, offset: 91248},
+																									pos: position{line: 2895, col: 8, offset: 91351},
 																									expr: &anyMatcher{
-																										line: 2891, col: 9, offset: 91249,
+																										line: 2895, col: 9, offset: 91352,
 																									},
 																								},
 																							},
@@ -29269,15 +29313,15 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1518, col: 5, offset: 49341},
+													pos:   position{line: 1522, col: 5, offset: 49444},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2822, col: 14, offset: 89493},
+														pos: position{line: 2826, col: 14, offset: 89596},
 														run: (*parser).callonExtraListElement816,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2822, col: 14, offset: 89493},
+															pos: position{line: 2826, col: 14, offset: 89596},
 															expr: &charClassMatcher{
-																pos:        position{line: 2822, col: 14, offset: 89493},
+																pos:        position{line: 2826, col: 14, offset: 89596},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -29287,28 +29331,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2894, col: 8, offset: 91298},
+													pos: position{line: 2898, col: 8, offset: 91401},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2881, col: 12, offset: 91071},
+															pos: position{line: 2885, col: 12, offset: 91174},
 															run: (*parser).callonExtraListElement820,
 															expr: &choiceExpr{
-																pos: position{line: 2881, col: 13, offset: 91072},
+																pos: position{line: 2885, col: 13, offset: 91175},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2881, col: 13, offset: 91072},
+																		pos:        position{line: 2885, col: 13, offset: 91175},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2881, col: 20, offset: 91079},
+																		pos:        position{line: 2885, col: 20, offset: 91182},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2881, col: 29, offset: 91088},
+																		pos:        position{line: 2885, col: 29, offset: 91191},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -29317,9 +29361,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2891, col: 8, offset: 91248},
+															pos: position{line: 2895, col: 8, offset: 91351},
 															expr: &anyMatcher{
-																line: 2891, col: 9, offset: 91249,
+																line: 2895, col: 9, offset: 91352,
 															},
 														},
 													},
@@ -29336,28 +29380,28 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuation",
-			pos:  position{line: 1534, col: 1, offset: 49732},
+			pos:  position{line: 1538, col: 1, offset: 49835},
 			expr: &actionExpr{
-				pos: position{line: 1535, col: 5, offset: 49757},
+				pos: position{line: 1539, col: 5, offset: 49860},
 				run: (*parser).callonListContinuation1,
 				expr: &seqExpr{
-					pos: position{line: 1535, col: 5, offset: 49757},
+					pos: position{line: 1539, col: 5, offset: 49860},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1535, col: 5, offset: 49757},
+							pos:   position{line: 1539, col: 5, offset: 49860},
 							label: "offset",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1535, col: 12, offset: 49764},
+								pos: position{line: 1539, col: 12, offset: 49867},
 								expr: &seqExpr{
-									pos: position{line: 1535, col: 13, offset: 49765},
+									pos: position{line: 1539, col: 13, offset: 49868},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 1535, col: 13, offset: 49765},
+											pos: position{line: 1539, col: 13, offset: 49868},
 											expr: &actionExpr{
-												pos: position{line: 2872, col: 10, offset: 90900},
+												pos: position{line: 2876, col: 10, offset: 91003},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2872, col: 10, offset: 90900},
+													pos:        position{line: 2876, col: 10, offset: 91003},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -29366,25 +29410,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2881, col: 12, offset: 91071},
+											pos: position{line: 2885, col: 12, offset: 91174},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2881, col: 13, offset: 91072},
+												pos: position{line: 2885, col: 13, offset: 91175},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2881, col: 13, offset: 91072},
+														pos:        position{line: 2885, col: 13, offset: 91175},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2881, col: 20, offset: 91079},
+														pos:        position{line: 2885, col: 20, offset: 91182},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2881, col: 29, offset: 91088},
+														pos:        position{line: 2885, col: 29, offset: 91191},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -29397,18 +29441,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1542, col: 27, offset: 49969},
+							pos:        position{line: 1546, col: 27, offset: 50072},
 							val:        "+",
 							ignoreCase: false,
 							want:       "\"+\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1542, col: 31, offset: 49973},
+							pos: position{line: 1546, col: 31, offset: 50076},
 							expr: &actionExpr{
-								pos: position{line: 2872, col: 10, offset: 90900},
+								pos: position{line: 2876, col: 10, offset: 91003},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2872, col: 10, offset: 90900},
+									pos:        position{line: 2876, col: 10, offset: 91003},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -29417,25 +29461,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2881, col: 12, offset: 91071},
+							pos: position{line: 2885, col: 12, offset: 91174},
 							run: (*parser).callonListContinuation18,
 							expr: &choiceExpr{
-								pos: position{line: 2881, col: 13, offset: 91072},
+								pos: position{line: 2885, col: 13, offset: 91175},
 								alternatives: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2881, col: 13, offset: 91072},
+										pos:        position{line: 2885, col: 13, offset: 91175},
 										val:        "\n",
 										ignoreCase: false,
 										want:       "\"\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2881, col: 20, offset: 91079},
+										pos:        position{line: 2885, col: 20, offset: 91182},
 										val:        "\r\n",
 										ignoreCase: false,
 										want:       "\"\\r\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2881, col: 29, offset: 91088},
+										pos:        position{line: 2885, col: 29, offset: 91191},
 										val:        "\r",
 										ignoreCase: false,
 										want:       "\"\\r\"",
@@ -29444,12 +29488,12 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1537, col: 5, offset: 49814},
+							pos:   position{line: 1541, col: 5, offset: 49917},
 							label: "element",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1537, col: 13, offset: 49822},
+								pos: position{line: 1541, col: 13, offset: 49925},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1537, col: 13, offset: 49822},
+									pos:  position{line: 1541, col: 13, offset: 49925},
 									name: "ListContinuationElement",
 								},
 							},
@@ -29460,46 +29504,46 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuationElement",
-			pos:  position{line: 1544, col: 1, offset: 49989},
+			pos:  position{line: 1548, col: 1, offset: 50092},
 			expr: &actionExpr{
-				pos: position{line: 1545, col: 5, offset: 50060},
+				pos: position{line: 1549, col: 5, offset: 50163},
 				run: (*parser).callonListContinuationElement1,
 				expr: &seqExpr{
-					pos: position{line: 1545, col: 5, offset: 50060},
+					pos: position{line: 1549, col: 5, offset: 50163},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2889, col: 11, offset: 91234},
+							pos: position{line: 2893, col: 11, offset: 91337},
 							expr: &anyMatcher{
-								line: 2889, col: 13, offset: 91236,
+								line: 2893, col: 13, offset: 91339,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1546, col: 5, offset: 50088},
+							pos: position{line: 1550, col: 5, offset: 50191},
 							expr: &choiceExpr{
-								pos: position{line: 1483, col: 5, offset: 48046},
+								pos: position{line: 1487, col: 5, offset: 48149},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1576, col: 5, offset: 50980},
+										pos: position{line: 1580, col: 5, offset: 51083},
 										run: (*parser).callonListContinuationElement7,
 										expr: &seqExpr{
-											pos: position{line: 1576, col: 5, offset: 50980},
+											pos: position{line: 1580, col: 5, offset: 51083},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1576, col: 5, offset: 50980},
+													pos:   position{line: 1580, col: 5, offset: 51083},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1583, col: 5, offset: 51188},
+														pos: position{line: 1587, col: 5, offset: 51291},
 														run: (*parser).callonListContinuationElement10,
 														expr: &seqExpr{
-															pos: position{line: 1583, col: 5, offset: 51188},
+															pos: position{line: 1587, col: 5, offset: 51291},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1583, col: 5, offset: 51188},
+																	pos: position{line: 1587, col: 5, offset: 51291},
 																	expr: &actionExpr{
-																		pos: position{line: 2872, col: 10, offset: 90900},
+																		pos: position{line: 2876, col: 10, offset: 91003},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2872, col: 10, offset: 90900},
+																			pos:        position{line: 2876, col: 10, offset: 91003},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29508,27 +29552,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1583, col: 12, offset: 51195},
+																	pos:   position{line: 1587, col: 12, offset: 51298},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1585, col: 9, offset: 51258},
+																		pos: position{line: 1589, col: 9, offset: 51361},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1585, col: 9, offset: 51258},
+																				pos: position{line: 1589, col: 9, offset: 51361},
 																				run: (*parser).callonListContinuationElement17,
 																				expr: &seqExpr{
-																					pos: position{line: 1585, col: 9, offset: 51258},
+																					pos: position{line: 1589, col: 9, offset: 51361},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1585, col: 9, offset: 51258},
+																							pos:   position{line: 1589, col: 9, offset: 51361},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1585, col: 16, offset: 51265},
+																								pos: position{line: 1589, col: 16, offset: 51368},
 																								run: (*parser).callonListContinuationElement20,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1585, col: 16, offset: 51265},
+																									pos: position{line: 1589, col: 16, offset: 51368},
 																									expr: &litMatcher{
-																										pos:        position{line: 1585, col: 17, offset: 51266},
+																										pos:        position{line: 1589, col: 17, offset: 51369},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -29537,22 +29581,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1589, col: 9, offset: 51366},
+																							pos: position{line: 1593, col: 9, offset: 51469},
 																							run: (*parser).callonListContinuationElement23,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1608, col: 11, offset: 52083},
+																				pos: position{line: 1612, col: 11, offset: 52186},
 																				run: (*parser).callonListContinuationElement24,
 																				expr: &seqExpr{
-																					pos: position{line: 1608, col: 11, offset: 52083},
+																					pos: position{line: 1612, col: 11, offset: 52186},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1608, col: 11, offset: 52083},
+																							pos: position{line: 1612, col: 11, offset: 52186},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1608, col: 12, offset: 52084},
+																								pos:        position{line: 1612, col: 12, offset: 52187},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -29560,7 +29604,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1608, col: 20, offset: 52092},
+																							pos:        position{line: 1612, col: 20, offset: 52195},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29569,20 +29613,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1610, col: 13, offset: 52209},
+																				pos: position{line: 1614, col: 13, offset: 52312},
 																				run: (*parser).callonListContinuationElement29,
 																				expr: &seqExpr{
-																					pos: position{line: 1610, col: 13, offset: 52209},
+																					pos: position{line: 1614, col: 13, offset: 52312},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1610, col: 14, offset: 52210},
+																							pos:        position{line: 1614, col: 14, offset: 52313},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1610, col: 21, offset: 52217},
+																							pos:        position{line: 1614, col: 21, offset: 52320},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29591,20 +29635,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1612, col: 13, offset: 52337},
+																				pos: position{line: 1616, col: 13, offset: 52440},
 																				run: (*parser).callonListContinuationElement33,
 																				expr: &seqExpr{
-																					pos: position{line: 1612, col: 13, offset: 52337},
+																					pos: position{line: 1616, col: 13, offset: 52440},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1612, col: 14, offset: 52338},
+																							pos:        position{line: 1616, col: 14, offset: 52441},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1612, col: 21, offset: 52345},
+																							pos:        position{line: 1616, col: 21, offset: 52448},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29613,15 +29657,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1614, col: 13, offset: 52465},
+																				pos: position{line: 1618, col: 13, offset: 52568},
 																				run: (*parser).callonListContinuationElement37,
 																				expr: &seqExpr{
-																					pos: position{line: 1614, col: 13, offset: 52465},
+																					pos: position{line: 1618, col: 13, offset: 52568},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1614, col: 13, offset: 52465},
+																							pos: position{line: 1618, col: 13, offset: 52568},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1614, col: 14, offset: 52466},
+																								pos:        position{line: 1618, col: 14, offset: 52569},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -29629,7 +29673,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1614, col: 26, offset: 52478},
+																							pos:        position{line: 1618, col: 26, offset: 52581},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -29638,15 +29682,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1616, col: 13, offset: 52598},
+																				pos: position{line: 1620, col: 13, offset: 52701},
 																				run: (*parser).callonListContinuationElement42,
 																				expr: &seqExpr{
-																					pos: position{line: 1616, col: 13, offset: 52598},
+																					pos: position{line: 1620, col: 13, offset: 52701},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1616, col: 13, offset: 52598},
+																							pos: position{line: 1620, col: 13, offset: 52701},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1616, col: 14, offset: 52599},
+																								pos:        position{line: 1620, col: 14, offset: 52702},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -29654,7 +29698,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1616, col: 26, offset: 52611},
+																							pos:        position{line: 1620, col: 26, offset: 52714},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -29666,12 +29710,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2876, col: 11, offset: 90961},
+																	pos: position{line: 2880, col: 11, offset: 91064},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2876, col: 11, offset: 90961},
+																		pos: position{line: 2880, col: 11, offset: 91064},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 11, offset: 90961},
+																			pos:        position{line: 2880, col: 11, offset: 91064},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29684,26 +29728,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1577, col: 5, offset: 51019},
+													pos:   position{line: 1581, col: 5, offset: 51122},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1524, col: 5, offset: 49486},
+														pos: position{line: 1528, col: 5, offset: 49589},
 														run: (*parser).callonListContinuationElement51,
 														expr: &seqExpr{
-															pos: position{line: 1524, col: 5, offset: 49486},
+															pos: position{line: 1528, col: 5, offset: 49589},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1524, col: 5, offset: 49486},
+																	pos:   position{line: 1528, col: 5, offset: 49589},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1524, col: 14, offset: 49495},
+																		pos: position{line: 1528, col: 14, offset: 49598},
 																		expr: &actionExpr{
-																			pos: position{line: 1524, col: 15, offset: 49496},
+																			pos: position{line: 1528, col: 15, offset: 49599},
 																			run: (*parser).callonListContinuationElement55,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1524, col: 15, offset: 49496},
+																				pos: position{line: 1528, col: 15, offset: 49599},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1524, col: 15, offset: 49496},
+																					pos:        position{line: 1528, col: 15, offset: 49599},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -29714,28 +29758,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2894, col: 8, offset: 91298},
+																	pos: position{line: 2898, col: 8, offset: 91401},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2881, col: 12, offset: 91071},
+																			pos: position{line: 2885, col: 12, offset: 91174},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2881, col: 13, offset: 91072},
+																				pos: position{line: 2885, col: 13, offset: 91175},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 13, offset: 91072},
+																						pos:        position{line: 2885, col: 13, offset: 91175},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 20, offset: 91079},
+																						pos:        position{line: 2885, col: 20, offset: 91182},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 29, offset: 91088},
+																						pos:        position{line: 2885, col: 29, offset: 91191},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29744,9 +29788,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2891, col: 8, offset: 91248},
+																			pos: position{line: 2895, col: 8, offset: 91351},
 																			expr: &anyMatcher{
-																				line: 2891, col: 9, offset: 91249,
+																				line: 2895, col: 9, offset: 91352,
 																			},
 																		},
 																	},
@@ -29759,27 +29803,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1626, col: 5, offset: 52877},
+										pos: position{line: 1630, col: 5, offset: 52980},
 										run: (*parser).callonListContinuationElement66,
 										expr: &seqExpr{
-											pos: position{line: 1626, col: 5, offset: 52877},
+											pos: position{line: 1630, col: 5, offset: 52980},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1626, col: 5, offset: 52877},
+													pos:   position{line: 1630, col: 5, offset: 52980},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1633, col: 5, offset: 53150},
+														pos: position{line: 1637, col: 5, offset: 53253},
 														run: (*parser).callonListContinuationElement69,
 														expr: &seqExpr{
-															pos: position{line: 1633, col: 5, offset: 53150},
+															pos: position{line: 1637, col: 5, offset: 53253},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1633, col: 5, offset: 53150},
+																	pos: position{line: 1637, col: 5, offset: 53253},
 																	expr: &actionExpr{
-																		pos: position{line: 2872, col: 10, offset: 90900},
+																		pos: position{line: 2876, col: 10, offset: 91003},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2872, col: 10, offset: 90900},
+																			pos:        position{line: 2876, col: 10, offset: 91003},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29788,24 +29832,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1634, col: 5, offset: 53162},
+																	pos:   position{line: 1638, col: 5, offset: 53265},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1635, col: 9, offset: 53178},
+																		pos: position{line: 1639, col: 9, offset: 53281},
 																		run: (*parser).callonListContinuationElement75,
 																		expr: &choiceExpr{
-																			pos: position{line: 1635, col: 10, offset: 53179},
+																			pos: position{line: 1639, col: 10, offset: 53282},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1635, col: 11, offset: 53180},
+																					pos:        position{line: 1639, col: 11, offset: 53283},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1635, col: 18, offset: 53187},
+																					pos: position{line: 1639, col: 18, offset: 53290},
 																					expr: &litMatcher{
-																						pos:        position{line: 1635, col: 19, offset: 53188},
+																						pos:        position{line: 1639, col: 19, offset: 53291},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -29816,16 +29860,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1638, col: 7, offset: 53278},
+																	pos: position{line: 1642, col: 7, offset: 53381},
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2876, col: 11, offset: 90961},
+																	pos: position{line: 2880, col: 11, offset: 91064},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2876, col: 11, offset: 90961},
+																		pos: position{line: 2880, col: 11, offset: 91064},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 11, offset: 90961},
+																			pos:        position{line: 2880, col: 11, offset: 91064},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29838,56 +29882,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1627, col: 5, offset: 52918},
+													pos:   position{line: 1631, col: 5, offset: 53021},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1627, col: 16, offset: 52929},
+														pos: position{line: 1631, col: 16, offset: 53032},
 														expr: &actionExpr{
-															pos: position{line: 1648, col: 5, offset: 53543},
+															pos: position{line: 1652, col: 5, offset: 53646},
 															run: (*parser).callonListContinuationElement86,
 															expr: &seqExpr{
-																pos: position{line: 1648, col: 5, offset: 53543},
+																pos: position{line: 1652, col: 5, offset: 53646},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1648, col: 5, offset: 53543},
+																		pos: position{line: 1652, col: 5, offset: 53646},
 																		expr: &litMatcher{
-																			pos:        position{line: 1648, col: 6, offset: 53544},
+																			pos:        position{line: 1652, col: 6, offset: 53647},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1648, col: 10, offset: 53548},
+																		pos:   position{line: 1652, col: 10, offset: 53651},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1649, col: 7, offset: 53562},
+																			pos: position{line: 1653, col: 7, offset: 53665},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1649, col: 7, offset: 53562},
+																					pos: position{line: 1653, col: 7, offset: 53665},
 																					run: (*parser).callonListContinuationElement92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1649, col: 7, offset: 53562},
+																						pos:        position{line: 1653, col: 7, offset: 53665},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1650, col: 7, offset: 53607},
+																					pos: position{line: 1654, col: 7, offset: 53710},
 																					run: (*parser).callonListContinuationElement94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1650, col: 7, offset: 53607},
+																						pos:        position{line: 1654, col: 7, offset: 53710},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1651, col: 7, offset: 53650},
+																					pos: position{line: 1655, col: 7, offset: 53753},
 																					run: (*parser).callonListContinuationElement96,
 																					expr: &litMatcher{
-																						pos:        position{line: 1651, col: 7, offset: 53650},
+																						pos:        position{line: 1655, col: 7, offset: 53753},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -29897,12 +29941,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2876, col: 11, offset: 90961},
+																		pos: position{line: 2880, col: 11, offset: 91064},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2876, col: 11, offset: 90961},
+																			pos: position{line: 2880, col: 11, offset: 91064},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 11, offset: 90961},
+																				pos:        position{line: 2880, col: 11, offset: 91064},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -29916,26 +29960,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1628, col: 5, offset: 52968},
+													pos:   position{line: 1632, col: 5, offset: 53071},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1524, col: 5, offset: 49486},
+														pos: position{line: 1528, col: 5, offset: 49589},
 														run: (*parser).callonListContinuationElement102,
 														expr: &seqExpr{
-															pos: position{line: 1524, col: 5, offset: 49486},
+															pos: position{line: 1528, col: 5, offset: 49589},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1524, col: 5, offset: 49486},
+																	pos:   position{line: 1528, col: 5, offset: 49589},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1524, col: 14, offset: 49495},
+																		pos: position{line: 1528, col: 14, offset: 49598},
 																		expr: &actionExpr{
-																			pos: position{line: 1524, col: 15, offset: 49496},
+																			pos: position{line: 1528, col: 15, offset: 49599},
 																			run: (*parser).callonListContinuationElement106,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1524, col: 15, offset: 49496},
+																				pos: position{line: 1528, col: 15, offset: 49599},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1524, col: 15, offset: 49496},
+																					pos:        position{line: 1528, col: 15, offset: 49599},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -29946,28 +29990,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2894, col: 8, offset: 91298},
+																	pos: position{line: 2898, col: 8, offset: 91401},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2881, col: 12, offset: 91071},
+																			pos: position{line: 2885, col: 12, offset: 91174},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2881, col: 13, offset: 91072},
+																				pos: position{line: 2885, col: 13, offset: 91175},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 13, offset: 91072},
+																						pos:        position{line: 2885, col: 13, offset: 91175},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 20, offset: 91079},
+																						pos:        position{line: 2885, col: 20, offset: 91182},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 29, offset: 91088},
+																						pos:        position{line: 2885, col: 29, offset: 91191},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29976,9 +30020,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2891, col: 8, offset: 91248},
+																			pos: position{line: 2895, col: 8, offset: 91351},
 																			expr: &anyMatcher{
-																				line: 2891, col: 9, offset: 91249,
+																				line: 2895, col: 9, offset: 91352,
 																			},
 																		},
 																	},
@@ -29991,36 +30035,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1717, col: 5, offset: 55522},
+										pos: position{line: 1721, col: 5, offset: 55625},
 										run: (*parser).callonListContinuationElement117,
 										expr: &seqExpr{
-											pos: position{line: 1717, col: 5, offset: 55522},
+											pos: position{line: 1721, col: 5, offset: 55625},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1717, col: 5, offset: 55522},
+													pos:   position{line: 1721, col: 5, offset: 55625},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1723, col: 5, offset: 55719},
+														pos: position{line: 1727, col: 5, offset: 55822},
 														run: (*parser).callonListContinuationElement120,
 														expr: &seqExpr{
-															pos: position{line: 1723, col: 5, offset: 55719},
+															pos: position{line: 1727, col: 5, offset: 55822},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1723, col: 5, offset: 55719},
+																	pos:        position{line: 1727, col: 5, offset: 55822},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1723, col: 9, offset: 55723},
+																	pos:   position{line: 1727, col: 9, offset: 55826},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1723, col: 14, offset: 55728},
+																		pos: position{line: 1727, col: 14, offset: 55831},
 																		run: (*parser).callonListContinuationElement124,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1723, col: 14, offset: 55728},
+																			pos: position{line: 1727, col: 14, offset: 55831},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1723, col: 14, offset: 55728},
+																				pos:        position{line: 1727, col: 14, offset: 55831},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -30030,18 +30074,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1723, col: 62, offset: 55776},
+																	pos:        position{line: 1727, col: 62, offset: 55879},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2876, col: 11, offset: 90961},
+																	pos: position{line: 2880, col: 11, offset: 91064},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2876, col: 11, offset: 90961},
+																		pos: position{line: 2880, col: 11, offset: 91064},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 11, offset: 90961},
+																			pos:        position{line: 2880, col: 11, offset: 91064},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30054,26 +30098,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1718, col: 5, offset: 55558},
+													pos:   position{line: 1722, col: 5, offset: 55661},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1524, col: 5, offset: 49486},
+														pos: position{line: 1528, col: 5, offset: 49589},
 														run: (*parser).callonListContinuationElement132,
 														expr: &seqExpr{
-															pos: position{line: 1524, col: 5, offset: 49486},
+															pos: position{line: 1528, col: 5, offset: 49589},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1524, col: 5, offset: 49486},
+																	pos:   position{line: 1528, col: 5, offset: 49589},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1524, col: 14, offset: 49495},
+																		pos: position{line: 1528, col: 14, offset: 49598},
 																		expr: &actionExpr{
-																			pos: position{line: 1524, col: 15, offset: 49496},
+																			pos: position{line: 1528, col: 15, offset: 49599},
 																			run: (*parser).callonListContinuationElement136,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1524, col: 15, offset: 49496},
+																				pos: position{line: 1528, col: 15, offset: 49599},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1524, col: 15, offset: 49496},
+																					pos:        position{line: 1528, col: 15, offset: 49599},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30084,28 +30128,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2894, col: 8, offset: 91298},
+																	pos: position{line: 2898, col: 8, offset: 91401},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2881, col: 12, offset: 91071},
+																			pos: position{line: 2885, col: 12, offset: 91174},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2881, col: 13, offset: 91072},
+																				pos: position{line: 2885, col: 13, offset: 91175},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 13, offset: 91072},
+																						pos:        position{line: 2885, col: 13, offset: 91175},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 20, offset: 91079},
+																						pos:        position{line: 2885, col: 20, offset: 91182},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 29, offset: 91088},
+																						pos:        position{line: 2885, col: 29, offset: 91191},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30114,9 +30158,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2891, col: 8, offset: 91248},
+																			pos: position{line: 2895, col: 8, offset: 91351},
 																			expr: &anyMatcher{
-																				line: 2891, col: 9, offset: 91249,
+																				line: 2895, col: 9, offset: 91352,
 																			},
 																		},
 																	},
@@ -30129,35 +30173,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1660, col: 5, offset: 53843},
+										pos: position{line: 1664, col: 5, offset: 53946},
 										run: (*parser).callonListContinuationElement147,
 										expr: &seqExpr{
-											pos: position{line: 1660, col: 5, offset: 53843},
+											pos: position{line: 1664, col: 5, offset: 53946},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1660, col: 5, offset: 53843},
+													pos:   position{line: 1664, col: 5, offset: 53946},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1668, col: 5, offset: 54169},
+														pos: position{line: 1672, col: 5, offset: 54272},
 														run: (*parser).callonListContinuationElement150,
 														expr: &seqExpr{
-															pos: position{line: 1668, col: 5, offset: 54169},
+															pos: position{line: 1672, col: 5, offset: 54272},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1668, col: 5, offset: 54169},
+																	pos: position{line: 1672, col: 5, offset: 54272},
 																	expr: &seqExpr{
-																		pos: position{line: 2484, col: 31, offset: 80007},
+																		pos: position{line: 2488, col: 31, offset: 80110},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2484, col: 31, offset: 80007},
+																				pos:        position{line: 2488, col: 31, offset: 80110},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2484, col: 36, offset: 80012},
+																				pos: position{line: 2488, col: 36, offset: 80115},
 																				expr: &litMatcher{
-																					pos:        position{line: 2484, col: 37, offset: 80013},
+																					pos:        position{line: 2488, col: 37, offset: 80116},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
@@ -30167,28 +30211,28 @@ var g = &grammar{
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 1669, col: 5, offset: 54201},
+																	pos: position{line: 1673, col: 5, offset: 54304},
 																	expr: &seqExpr{
-																		pos: position{line: 1669, col: 6, offset: 54202},
+																		pos: position{line: 1673, col: 6, offset: 54305},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1669, col: 6, offset: 54202},
+																				pos: position{line: 1673, col: 6, offset: 54305},
 																				expr: &actionExpr{
-																					pos: position{line: 1674, col: 5, offset: 54352},
+																					pos: position{line: 1678, col: 5, offset: 54455},
 																					run: (*parser).callonListContinuationElement160,
 																					expr: &seqExpr{
-																						pos: position{line: 1674, col: 5, offset: 54352},
+																						pos: position{line: 1678, col: 5, offset: 54455},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1674, col: 5, offset: 54352},
+																								pos:   position{line: 1678, col: 5, offset: 54455},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1674, col: 16, offset: 54363},
+																									pos: position{line: 1678, col: 16, offset: 54466},
 																									run: (*parser).callonListContinuationElement163,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1674, col: 16, offset: 54363},
+																										pos: position{line: 1678, col: 16, offset: 54466},
 																										expr: &litMatcher{
-																											pos:        position{line: 1674, col: 17, offset: 54364},
+																											pos:        position{line: 1678, col: 17, offset: 54467},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -30197,7 +30241,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1677, col: 5, offset: 54421},
+																								pos: position{line: 1681, col: 5, offset: 54524},
 																								run: (*parser).callonListContinuationElement166,
 																							},
 																						},
@@ -30205,30 +30249,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1669, col: 35, offset: 54231},
+																				pos: position{line: 1673, col: 35, offset: 54334},
 																				expr: &choiceExpr{
-																					pos: position{line: 2894, col: 8, offset: 91298},
+																					pos: position{line: 2898, col: 8, offset: 91401},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2881, col: 12, offset: 91071},
+																							pos: position{line: 2885, col: 12, offset: 91174},
 																							run: (*parser).callonListContinuationElement169,
 																							expr: &choiceExpr{
-																								pos: position{line: 2881, col: 13, offset: 91072},
+																								pos: position{line: 2885, col: 13, offset: 91175},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2881, col: 13, offset: 91072},
+																										pos:        position{line: 2885, col: 13, offset: 91175},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2881, col: 20, offset: 91079},
+																										pos:        position{line: 2885, col: 20, offset: 91182},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2881, col: 29, offset: 91088},
+																										pos:        position{line: 2885, col: 29, offset: 91191},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -30237,16 +30281,16 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2891, col: 8, offset: 91248},
+																							pos: position{line: 2895, col: 8, offset: 91351},
 																							expr: &anyMatcher{
-																								line: 2891, col: 9, offset: 91249,
+																								line: 2895, col: 9, offset: 91352,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1669, col: 40, offset: 54236,
+																				line: 1673, col: 40, offset: 54339,
 																			},
 																		},
 																	},
@@ -30256,24 +30300,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1661, col: 5, offset: 53878},
+													pos:   position{line: 1665, col: 5, offset: 53981},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1674, col: 5, offset: 54352},
+														pos: position{line: 1678, col: 5, offset: 54455},
 														run: (*parser).callonListContinuationElement178,
 														expr: &seqExpr{
-															pos: position{line: 1674, col: 5, offset: 54352},
+															pos: position{line: 1678, col: 5, offset: 54455},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1674, col: 5, offset: 54352},
+																	pos:   position{line: 1678, col: 5, offset: 54455},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1674, col: 16, offset: 54363},
+																		pos: position{line: 1678, col: 16, offset: 54466},
 																		run: (*parser).callonListContinuationElement181,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1674, col: 16, offset: 54363},
+																			pos: position{line: 1678, col: 16, offset: 54466},
 																			expr: &litMatcher{
-																				pos:        position{line: 1674, col: 17, offset: 54364},
+																				pos:        position{line: 1678, col: 17, offset: 54467},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -30282,7 +30326,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1677, col: 5, offset: 54421},
+																	pos: position{line: 1681, col: 5, offset: 54524},
 																	run: (*parser).callonListContinuationElement184,
 																},
 															},
@@ -30290,24 +30334,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1662, col: 5, offset: 53923},
+													pos:   position{line: 1666, col: 5, offset: 54026},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1685, col: 5, offset: 54670},
+														pos: position{line: 1689, col: 5, offset: 54773},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1687, col: 9, offset: 54736},
+																pos: position{line: 1691, col: 9, offset: 54839},
 																run: (*parser).callonListContinuationElement187,
 																expr: &seqExpr{
-																	pos: position{line: 1687, col: 9, offset: 54736},
+																	pos: position{line: 1691, col: 9, offset: 54839},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1687, col: 9, offset: 54736},
+																			pos: position{line: 1691, col: 9, offset: 54839},
 																			expr: &actionExpr{
-																				pos: position{line: 2872, col: 10, offset: 90900},
+																				pos: position{line: 2876, col: 10, offset: 91003},
 																				run: (*parser).callonListContinuationElement190,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2872, col: 10, offset: 90900},
+																					pos:        position{line: 2876, col: 10, offset: 91003},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30316,28 +30360,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2894, col: 8, offset: 91298},
+																			pos: position{line: 2898, col: 8, offset: 91401},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2881, col: 12, offset: 91071},
+																					pos: position{line: 2885, col: 12, offset: 91174},
 																					run: (*parser).callonListContinuationElement193,
 																					expr: &choiceExpr{
-																						pos: position{line: 2881, col: 13, offset: 91072},
+																						pos: position{line: 2885, col: 13, offset: 91175},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2881, col: 13, offset: 91072},
+																								pos:        position{line: 2885, col: 13, offset: 91175},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2881, col: 20, offset: 91079},
+																								pos:        position{line: 2885, col: 20, offset: 91182},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2881, col: 29, offset: 91088},
+																								pos:        position{line: 2885, col: 29, offset: 91191},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30346,15 +30390,15 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2891, col: 8, offset: 91248},
+																					pos: position{line: 2895, col: 8, offset: 91351},
 																					expr: &anyMatcher{
-																						line: 2891, col: 9, offset: 91249,
+																						line: 2895, col: 9, offset: 91352,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1688, col: 9, offset: 54755},
+																			pos: position{line: 1692, col: 9, offset: 54858},
 																			expr: &actionExpr{
 																				pos: position{line: 676, col: 14, offset: 21496},
 																				run: (*parser).callonListContinuationElement201,
@@ -30362,18 +30406,18 @@ var g = &grammar{
 																					pos: position{line: 676, col: 14, offset: 21496},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2889, col: 11, offset: 91234},
+																							pos: position{line: 2893, col: 11, offset: 91337},
 																							expr: &anyMatcher{
-																								line: 2889, col: 13, offset: 91236,
+																								line: 2893, col: 13, offset: 91339,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 676, col: 21, offset: 21503},
 																							expr: &actionExpr{
-																								pos: position{line: 2872, col: 10, offset: 90900},
+																								pos: position{line: 2876, col: 10, offset: 91003},
 																								run: (*parser).callonListContinuationElement206,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2872, col: 10, offset: 90900},
+																									pos:        position{line: 2876, col: 10, offset: 91003},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30382,28 +30426,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2894, col: 8, offset: 91298},
+																							pos: position{line: 2898, col: 8, offset: 91401},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2881, col: 12, offset: 91071},
+																									pos: position{line: 2885, col: 12, offset: 91174},
 																									run: (*parser).callonListContinuationElement209,
 																									expr: &choiceExpr{
-																										pos: position{line: 2881, col: 13, offset: 91072},
+																										pos: position{line: 2885, col: 13, offset: 91175},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 13, offset: 91072},
+																												pos:        position{line: 2885, col: 13, offset: 91175},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 20, offset: 91079},
+																												pos:        position{line: 2885, col: 20, offset: 91182},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 29, offset: 91088},
+																												pos:        position{line: 2885, col: 29, offset: 91191},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30412,9 +30456,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2891, col: 8, offset: 91248},
+																									pos: position{line: 2895, col: 8, offset: 91351},
 																									expr: &anyMatcher{
-																										line: 2891, col: 9, offset: 91249,
+																										line: 2895, col: 9, offset: 91352,
 																									},
 																								},
 																							},
@@ -30427,18 +30471,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1694, col: 9, offset: 54884},
+																pos: position{line: 1698, col: 9, offset: 54987},
 																run: (*parser).callonListContinuationElement216,
 																expr: &seqExpr{
-																	pos: position{line: 1694, col: 9, offset: 54884},
+																	pos: position{line: 1698, col: 9, offset: 54987},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2876, col: 11, offset: 90961},
+																			pos: position{line: 2880, col: 11, offset: 91064},
 																			run: (*parser).callonListContinuationElement218,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2876, col: 11, offset: 90961},
+																				pos: position{line: 2880, col: 11, offset: 91064},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 11, offset: 90961},
+																					pos:        position{line: 2880, col: 11, offset: 91064},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30447,15 +30491,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1695, col: 9, offset: 54957},
+																			pos:   position{line: 1699, col: 9, offset: 55060},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1695, col: 18, offset: 54966},
+																				pos: position{line: 1699, col: 18, offset: 55069},
 																				run: (*parser).callonListContinuationElement222,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1695, col: 18, offset: 54966},
+																					pos: position{line: 1699, col: 18, offset: 55069},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1695, col: 18, offset: 54966},
+																						pos:        position{line: 1699, col: 18, offset: 55069},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -30465,28 +30509,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2894, col: 8, offset: 91298},
+																			pos: position{line: 2898, col: 8, offset: 91401},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2881, col: 12, offset: 91071},
+																					pos: position{line: 2885, col: 12, offset: 91174},
 																					run: (*parser).callonListContinuationElement226,
 																					expr: &choiceExpr{
-																						pos: position{line: 2881, col: 13, offset: 91072},
+																						pos: position{line: 2885, col: 13, offset: 91175},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2881, col: 13, offset: 91072},
+																								pos:        position{line: 2885, col: 13, offset: 91175},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2881, col: 20, offset: 91079},
+																								pos:        position{line: 2885, col: 20, offset: 91182},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2881, col: 29, offset: 91088},
+																								pos:        position{line: 2885, col: 29, offset: 91191},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30495,9 +30539,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2891, col: 8, offset: 91248},
+																					pos: position{line: 2895, col: 8, offset: 91351},
 																					expr: &anyMatcher{
-																						line: 2891, col: 9, offset: 91249,
+																						line: 2895, col: 9, offset: 91352,
 																					},
 																				},
 																			},
@@ -30515,21 +30559,21 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1547, col: 5, offset: 50105},
+							pos:   position{line: 1551, col: 5, offset: 50208},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1547, col: 16, offset: 50116},
+								pos: position{line: 1551, col: 16, offset: 50219},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1547, col: 17, offset: 50117},
+									pos:  position{line: 1551, col: 17, offset: 50220},
 									name: "BlockAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1548, col: 5, offset: 50139},
+							pos:   position{line: 1552, col: 5, offset: 50242},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1549, col: 9, offset: 50157},
+								pos: position{line: 1553, col: 9, offset: 50260},
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 676, col: 14, offset: 21496},
@@ -30538,18 +30582,18 @@ var g = &grammar{
 											pos: position{line: 676, col: 14, offset: 21496},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2889, col: 11, offset: 91234},
+													pos: position{line: 2893, col: 11, offset: 91337},
 													expr: &anyMatcher{
-														line: 2889, col: 13, offset: 91236,
+														line: 2893, col: 13, offset: 91339,
 													},
 												},
 												&zeroOrMoreExpr{
 													pos: position{line: 676, col: 21, offset: 21503},
 													expr: &actionExpr{
-														pos: position{line: 2872, col: 10, offset: 90900},
+														pos: position{line: 2876, col: 10, offset: 91003},
 														run: (*parser).callonListContinuationElement243,
 														expr: &charClassMatcher{
-															pos:        position{line: 2872, col: 10, offset: 90900},
+															pos:        position{line: 2876, col: 10, offset: 91003},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30558,28 +30602,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2894, col: 8, offset: 91298},
+													pos: position{line: 2898, col: 8, offset: 91401},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2881, col: 12, offset: 91071},
+															pos: position{line: 2885, col: 12, offset: 91174},
 															run: (*parser).callonListContinuationElement246,
 															expr: &choiceExpr{
-																pos: position{line: 2881, col: 13, offset: 91072},
+																pos: position{line: 2885, col: 13, offset: 91175},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2881, col: 13, offset: 91072},
+																		pos:        position{line: 2885, col: 13, offset: 91175},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2881, col: 20, offset: 91079},
+																		pos:        position{line: 2885, col: 20, offset: 91182},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2881, col: 29, offset: 91088},
+																		pos:        position{line: 2885, col: 29, offset: 91191},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30588,9 +30632,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2891, col: 8, offset: 91248},
+															pos: position{line: 2895, col: 8, offset: 91351},
 															expr: &anyMatcher{
-																line: 2891, col: 9, offset: 91249,
+																line: 2895, col: 9, offset: 91352,
 															},
 														},
 													},
@@ -30599,7 +30643,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1550, col: 11, offset: 50177},
+										pos:  position{line: 1554, col: 11, offset: 50280},
 										name: "AttributeDeclaration",
 									},
 									&actionExpr{
@@ -30655,10 +30699,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 359, col: 49, offset: 10879},
 													expr: &actionExpr{
-														pos: position{line: 2872, col: 10, offset: 90900},
+														pos: position{line: 2876, col: 10, offset: 91003},
 														run: (*parser).callonListContinuationElement265,
 														expr: &charClassMatcher{
-															pos:        position{line: 2872, col: 10, offset: 90900},
+															pos:        position{line: 2876, col: 10, offset: 91003},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30667,28 +30711,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2894, col: 8, offset: 91298},
+													pos: position{line: 2898, col: 8, offset: 91401},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2881, col: 12, offset: 91071},
+															pos: position{line: 2885, col: 12, offset: 91174},
 															run: (*parser).callonListContinuationElement268,
 															expr: &choiceExpr{
-																pos: position{line: 2881, col: 13, offset: 91072},
+																pos: position{line: 2885, col: 13, offset: 91175},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2881, col: 13, offset: 91072},
+																		pos:        position{line: 2885, col: 13, offset: 91175},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2881, col: 20, offset: 91079},
+																		pos:        position{line: 2885, col: 20, offset: 91182},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2881, col: 29, offset: 91088},
+																		pos:        position{line: 2885, col: 29, offset: 91191},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30697,9 +30741,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2891, col: 8, offset: 91248},
+															pos: position{line: 2895, col: 8, offset: 91351},
 															expr: &anyMatcher{
-																line: 2891, col: 9, offset: 91249,
+																line: 2895, col: 9, offset: 91352,
 															},
 														},
 													},
@@ -30760,10 +30804,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 361, col: 39, offset: 11000},
 													expr: &actionExpr{
-														pos: position{line: 2872, col: 10, offset: 90900},
+														pos: position{line: 2876, col: 10, offset: 91003},
 														run: (*parser).callonListContinuationElement286,
 														expr: &charClassMatcher{
-															pos:        position{line: 2872, col: 10, offset: 90900},
+															pos:        position{line: 2876, col: 10, offset: 91003},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30772,28 +30816,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2894, col: 8, offset: 91298},
+													pos: position{line: 2898, col: 8, offset: 91401},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2881, col: 12, offset: 91071},
+															pos: position{line: 2885, col: 12, offset: 91174},
 															run: (*parser).callonListContinuationElement289,
 															expr: &choiceExpr{
-																pos: position{line: 2881, col: 13, offset: 91072},
+																pos: position{line: 2885, col: 13, offset: 91175},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2881, col: 13, offset: 91072},
+																		pos:        position{line: 2885, col: 13, offset: 91175},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2881, col: 20, offset: 91079},
+																		pos:        position{line: 2885, col: 20, offset: 91182},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2881, col: 29, offset: 91088},
+																		pos:        position{line: 2885, col: 29, offset: 91191},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30802,9 +30846,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2891, col: 8, offset: 91248},
+															pos: position{line: 2895, col: 8, offset: 91351},
 															expr: &anyMatcher{
-																line: 2891, col: 9, offset: 91249,
+																line: 2895, col: 9, offset: 91352,
 															},
 														},
 													},
@@ -30855,10 +30899,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 741, col: 8, offset: 23693},
 																expr: &actionExpr{
-																	pos: position{line: 2872, col: 10, offset: 90900},
+																	pos: position{line: 2876, col: 10, offset: 91003},
 																	run: (*parser).callonListContinuationElement307,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2872, col: 10, offset: 90900},
+																		pos:        position{line: 2876, col: 10, offset: 91003},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -30867,28 +30911,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2894, col: 8, offset: 91298},
+																pos: position{line: 2898, col: 8, offset: 91401},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2881, col: 12, offset: 91071},
+																		pos: position{line: 2885, col: 12, offset: 91174},
 																		run: (*parser).callonListContinuationElement310,
 																		expr: &choiceExpr{
-																			pos: position{line: 2881, col: 13, offset: 91072},
+																			pos: position{line: 2885, col: 13, offset: 91175},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2881, col: 13, offset: 91072},
+																					pos:        position{line: 2885, col: 13, offset: 91175},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2881, col: 20, offset: 91079},
+																					pos:        position{line: 2885, col: 20, offset: 91182},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2881, col: 29, offset: 91088},
+																					pos:        position{line: 2885, col: 29, offset: 91191},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -30897,9 +30941,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2891, col: 8, offset: 91248},
+																		pos: position{line: 2895, col: 8, offset: 91351},
 																		expr: &anyMatcher{
-																			line: 2891, col: 9, offset: 91249,
+																			line: 2895, col: 9, offset: 91352,
 																		},
 																	},
 																},
@@ -30960,10 +31004,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 741, col: 8, offset: 23693},
 																								expr: &actionExpr{
-																									pos: position{line: 2872, col: 10, offset: 90900},
+																									pos: position{line: 2876, col: 10, offset: 91003},
 																									run: (*parser).callonListContinuationElement332,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2872, col: 10, offset: 90900},
+																										pos:        position{line: 2876, col: 10, offset: 91003},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -30972,28 +31016,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2894, col: 8, offset: 91298},
+																								pos: position{line: 2898, col: 8, offset: 91401},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2881, col: 12, offset: 91071},
+																										pos: position{line: 2885, col: 12, offset: 91174},
 																										run: (*parser).callonListContinuationElement335,
 																										expr: &choiceExpr{
-																											pos: position{line: 2881, col: 13, offset: 91072},
+																											pos: position{line: 2885, col: 13, offset: 91175},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2881, col: 13, offset: 91072},
+																													pos:        position{line: 2885, col: 13, offset: 91175},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2881, col: 20, offset: 91079},
+																													pos:        position{line: 2885, col: 20, offset: 91182},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2881, col: 29, offset: 91088},
+																													pos:        position{line: 2885, col: 29, offset: 91191},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -31002,9 +31046,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2891, col: 8, offset: 91248},
+																										pos: position{line: 2895, col: 8, offset: 91351},
 																										expr: &anyMatcher{
-																											line: 2891, col: 9, offset: 91249,
+																											line: 2895, col: 9, offset: 91352,
 																										},
 																									},
 																								},
@@ -31013,9 +31057,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2891, col: 8, offset: 91248},
+																					pos: position{line: 2895, col: 8, offset: 91351},
 																					expr: &anyMatcher{
-																						line: 2891, col: 9, offset: 91249,
+																						line: 2895, col: 9, offset: 91352,
 																					},
 																				},
 																			},
@@ -31031,21 +31075,21 @@ var g = &grammar{
 																				pos: position{line: 810, col: 5, offset: 26100},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2889, col: 11, offset: 91234},
+																						pos: position{line: 2893, col: 11, offset: 91337},
 																						expr: &anyMatcher{
-																							line: 2889, col: 13, offset: 91236,
+																							line: 2893, col: 13, offset: 91339,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 811, col: 5, offset: 26175},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2818, col: 13, offset: 89426},
+																							pos: position{line: 2822, col: 13, offset: 89529},
 																							run: (*parser).callonListContinuationElement350,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2818, col: 13, offset: 89426},
+																								pos: position{line: 2822, col: 13, offset: 89529},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2818, col: 13, offset: 89426},
+																									pos:        position{line: 2822, col: 13, offset: 89529},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31055,28 +31099,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2894, col: 8, offset: 91298},
+																						pos: position{line: 2898, col: 8, offset: 91401},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2881, col: 12, offset: 91071},
+																								pos: position{line: 2885, col: 12, offset: 91174},
 																								run: (*parser).callonListContinuationElement354,
 																								expr: &choiceExpr{
-																									pos: position{line: 2881, col: 13, offset: 91072},
+																									pos: position{line: 2885, col: 13, offset: 91175},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 13, offset: 91072},
+																											pos:        position{line: 2885, col: 13, offset: 91175},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 20, offset: 91079},
+																											pos:        position{line: 2885, col: 20, offset: 91182},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 29, offset: 91088},
+																											pos:        position{line: 2885, col: 29, offset: 91191},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31085,9 +31129,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2891, col: 8, offset: 91248},
+																								pos: position{line: 2895, col: 8, offset: 91351},
 																								expr: &anyMatcher{
-																									line: 2891, col: 9, offset: 91249,
+																									line: 2895, col: 9, offset: 91352,
 																								},
 																							},
 																						},
@@ -31143,10 +31187,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 741, col: 8, offset: 23693},
 																			expr: &actionExpr{
-																				pos: position{line: 2872, col: 10, offset: 90900},
+																				pos: position{line: 2876, col: 10, offset: 91003},
 																				run: (*parser).callonListContinuationElement372,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2872, col: 10, offset: 90900},
+																					pos:        position{line: 2876, col: 10, offset: 91003},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -31155,28 +31199,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2894, col: 8, offset: 91298},
+																			pos: position{line: 2898, col: 8, offset: 91401},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2881, col: 12, offset: 91071},
+																					pos: position{line: 2885, col: 12, offset: 91174},
 																					run: (*parser).callonListContinuationElement375,
 																					expr: &choiceExpr{
-																						pos: position{line: 2881, col: 13, offset: 91072},
+																						pos: position{line: 2885, col: 13, offset: 91175},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2881, col: 13, offset: 91072},
+																								pos:        position{line: 2885, col: 13, offset: 91175},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2881, col: 20, offset: 91079},
+																								pos:        position{line: 2885, col: 20, offset: 91182},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2881, col: 29, offset: 91088},
+																								pos:        position{line: 2885, col: 29, offset: 91191},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31185,9 +31229,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2891, col: 8, offset: 91248},
+																					pos: position{line: 2895, col: 8, offset: 91351},
 																					expr: &anyMatcher{
-																						line: 2891, col: 9, offset: 91249,
+																						line: 2895, col: 9, offset: 91352,
 																					},
 																				},
 																			},
@@ -31196,9 +31240,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2891, col: 8, offset: 91248},
+																pos: position{line: 2895, col: 8, offset: 91351},
 																expr: &anyMatcher{
-																	line: 2891, col: 9, offset: 91249,
+																	line: 2895, col: 9, offset: 91352,
 																},
 															},
 														},
@@ -31253,10 +31297,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 748, col: 8, offset: 23941},
 																	expr: &actionExpr{
-																		pos: position{line: 2872, col: 10, offset: 90900},
+																		pos: position{line: 2876, col: 10, offset: 91003},
 																		run: (*parser).callonListContinuationElement396,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2872, col: 10, offset: 90900},
+																			pos:        position{line: 2876, col: 10, offset: 91003},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31265,28 +31309,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2894, col: 8, offset: 91298},
+																	pos: position{line: 2898, col: 8, offset: 91401},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2881, col: 12, offset: 91071},
+																			pos: position{line: 2885, col: 12, offset: 91174},
 																			run: (*parser).callonListContinuationElement399,
 																			expr: &choiceExpr{
-																				pos: position{line: 2881, col: 13, offset: 91072},
+																				pos: position{line: 2885, col: 13, offset: 91175},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 13, offset: 91072},
+																						pos:        position{line: 2885, col: 13, offset: 91175},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 20, offset: 91079},
+																						pos:        position{line: 2885, col: 20, offset: 91182},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 29, offset: 91088},
+																						pos:        position{line: 2885, col: 29, offset: 91191},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31295,9 +31339,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2891, col: 8, offset: 91248},
+																			pos: position{line: 2895, col: 8, offset: 91351},
 																			expr: &anyMatcher{
-																				line: 2891, col: 9, offset: 91249,
+																				line: 2895, col: 9, offset: 91352,
 																			},
 																		},
 																	},
@@ -31369,10 +31413,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 748, col: 8, offset: 23941},
 																											expr: &actionExpr{
-																												pos: position{line: 2872, col: 10, offset: 90900},
+																												pos: position{line: 2876, col: 10, offset: 91003},
 																												run: (*parser).callonListContinuationElement424,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2872, col: 10, offset: 90900},
+																													pos:        position{line: 2876, col: 10, offset: 91003},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31381,28 +31425,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2894, col: 8, offset: 91298},
+																											pos: position{line: 2898, col: 8, offset: 91401},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2881, col: 12, offset: 91071},
+																													pos: position{line: 2885, col: 12, offset: 91174},
 																													run: (*parser).callonListContinuationElement427,
 																													expr: &choiceExpr{
-																														pos: position{line: 2881, col: 13, offset: 91072},
+																														pos: position{line: 2885, col: 13, offset: 91175},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 13, offset: 91072},
+																																pos:        position{line: 2885, col: 13, offset: 91175},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 20, offset: 91079},
+																																pos:        position{line: 2885, col: 20, offset: 91182},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 29, offset: 91088},
+																																pos:        position{line: 2885, col: 29, offset: 91191},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31411,9 +31455,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2891, col: 8, offset: 91248},
+																													pos: position{line: 2895, col: 8, offset: 91351},
 																													expr: &anyMatcher{
-																														line: 2891, col: 9, offset: 91249,
+																														line: 2895, col: 9, offset: 91352,
 																													},
 																												},
 																											},
@@ -31429,9 +31473,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2891, col: 8, offset: 91248},
+																					pos: position{line: 2895, col: 8, offset: 91351},
 																					expr: &anyMatcher{
-																						line: 2891, col: 9, offset: 91249,
+																						line: 2895, col: 9, offset: 91352,
 																					},
 																				},
 																			},
@@ -31447,21 +31491,21 @@ var g = &grammar{
 																				pos: position{line: 810, col: 5, offset: 26100},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2889, col: 11, offset: 91234},
+																						pos: position{line: 2893, col: 11, offset: 91337},
 																						expr: &anyMatcher{
-																							line: 2889, col: 13, offset: 91236,
+																							line: 2893, col: 13, offset: 91339,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 811, col: 5, offset: 26175},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2818, col: 13, offset: 89426},
+																							pos: position{line: 2822, col: 13, offset: 89529},
 																							run: (*parser).callonListContinuationElement443,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2818, col: 13, offset: 89426},
+																								pos: position{line: 2822, col: 13, offset: 89529},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2818, col: 13, offset: 89426},
+																									pos:        position{line: 2822, col: 13, offset: 89529},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31471,28 +31515,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2894, col: 8, offset: 91298},
+																						pos: position{line: 2898, col: 8, offset: 91401},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2881, col: 12, offset: 91071},
+																								pos: position{line: 2885, col: 12, offset: 91174},
 																								run: (*parser).callonListContinuationElement447,
 																								expr: &choiceExpr{
-																									pos: position{line: 2881, col: 13, offset: 91072},
+																									pos: position{line: 2885, col: 13, offset: 91175},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 13, offset: 91072},
+																											pos:        position{line: 2885, col: 13, offset: 91175},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 20, offset: 91079},
+																											pos:        position{line: 2885, col: 20, offset: 91182},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 29, offset: 91088},
+																											pos:        position{line: 2885, col: 29, offset: 91191},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31501,9 +31545,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2891, col: 8, offset: 91248},
+																								pos: position{line: 2895, col: 8, offset: 91351},
 																								expr: &anyMatcher{
-																									line: 2891, col: 9, offset: 91249,
+																									line: 2895, col: 9, offset: 91352,
 																								},
 																							},
 																						},
@@ -31568,10 +31612,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 748, col: 8, offset: 23941},
 																							expr: &actionExpr{
-																								pos: position{line: 2872, col: 10, offset: 90900},
+																								pos: position{line: 2876, col: 10, offset: 91003},
 																								run: (*parser).callonListContinuationElement468,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2872, col: 10, offset: 90900},
+																									pos:        position{line: 2876, col: 10, offset: 91003},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -31580,28 +31624,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2894, col: 8, offset: 91298},
+																							pos: position{line: 2898, col: 8, offset: 91401},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2881, col: 12, offset: 91071},
+																									pos: position{line: 2885, col: 12, offset: 91174},
 																									run: (*parser).callonListContinuationElement471,
 																									expr: &choiceExpr{
-																										pos: position{line: 2881, col: 13, offset: 91072},
+																										pos: position{line: 2885, col: 13, offset: 91175},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 13, offset: 91072},
+																												pos:        position{line: 2885, col: 13, offset: 91175},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 20, offset: 91079},
+																												pos:        position{line: 2885, col: 20, offset: 91182},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 29, offset: 91088},
+																												pos:        position{line: 2885, col: 29, offset: 91191},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -31610,9 +31654,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2891, col: 8, offset: 91248},
+																									pos: position{line: 2895, col: 8, offset: 91351},
 																									expr: &anyMatcher{
-																										line: 2891, col: 9, offset: 91249,
+																										line: 2895, col: 9, offset: 91352,
 																									},
 																								},
 																							},
@@ -31628,9 +31672,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2891, col: 8, offset: 91248},
+																	pos: position{line: 2895, col: 8, offset: 91351},
 																	expr: &anyMatcher{
-																		line: 2891, col: 9, offset: 91249,
+																		line: 2895, col: 9, offset: 91352,
 																	},
 																},
 															},
@@ -31682,10 +31726,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 759, col: 52, offset: 24353},
 																	expr: &actionExpr{
-																		pos: position{line: 2872, col: 10, offset: 90900},
+																		pos: position{line: 2876, col: 10, offset: 91003},
 																		run: (*parser).callonListContinuationElement492,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2872, col: 10, offset: 90900},
+																			pos:        position{line: 2876, col: 10, offset: 91003},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31694,28 +31738,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2894, col: 8, offset: 91298},
+																	pos: position{line: 2898, col: 8, offset: 91401},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2881, col: 12, offset: 91071},
+																			pos: position{line: 2885, col: 12, offset: 91174},
 																			run: (*parser).callonListContinuationElement495,
 																			expr: &choiceExpr{
-																				pos: position{line: 2881, col: 13, offset: 91072},
+																				pos: position{line: 2885, col: 13, offset: 91175},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 13, offset: 91072},
+																						pos:        position{line: 2885, col: 13, offset: 91175},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 20, offset: 91079},
+																						pos:        position{line: 2885, col: 20, offset: 91182},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 29, offset: 91088},
+																						pos:        position{line: 2885, col: 29, offset: 91191},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31724,9 +31768,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2891, col: 8, offset: 91248},
+																			pos: position{line: 2895, col: 8, offset: 91351},
 																			expr: &anyMatcher{
-																				line: 2891, col: 9, offset: 91249,
+																				line: 2895, col: 9, offset: 91352,
 																			},
 																		},
 																	},
@@ -31760,10 +31804,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 962, col: 40, offset: 30161},
 																					expr: &actionExpr{
-																						pos: position{line: 2872, col: 10, offset: 90900},
+																						pos: position{line: 2876, col: 10, offset: 91003},
 																						run: (*parser).callonListContinuationElement510,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2872, col: 10, offset: 90900},
+																							pos:        position{line: 2876, col: 10, offset: 91003},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -31772,28 +31816,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2894, col: 8, offset: 91298},
+																					pos: position{line: 2898, col: 8, offset: 91401},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2881, col: 12, offset: 91071},
+																							pos: position{line: 2885, col: 12, offset: 91174},
 																							run: (*parser).callonListContinuationElement513,
 																							expr: &choiceExpr{
-																								pos: position{line: 2881, col: 13, offset: 91072},
+																								pos: position{line: 2885, col: 13, offset: 91175},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2881, col: 13, offset: 91072},
+																										pos:        position{line: 2885, col: 13, offset: 91175},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2881, col: 20, offset: 91079},
+																										pos:        position{line: 2885, col: 20, offset: 91182},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2881, col: 29, offset: 91088},
+																										pos:        position{line: 2885, col: 29, offset: 91191},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -31802,9 +31846,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2891, col: 8, offset: 91248},
+																							pos: position{line: 2895, col: 8, offset: 91351},
 																							expr: &anyMatcher{
-																								line: 2891, col: 9, offset: 91249,
+																								line: 2895, col: 9, offset: 91352,
 																							},
 																						},
 																					},
@@ -31822,21 +31866,21 @@ var g = &grammar{
 																				pos: position{line: 810, col: 5, offset: 26100},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2889, col: 11, offset: 91234},
+																						pos: position{line: 2893, col: 11, offset: 91337},
 																						expr: &anyMatcher{
-																							line: 2889, col: 13, offset: 91236,
+																							line: 2893, col: 13, offset: 91339,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 811, col: 5, offset: 26175},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2818, col: 13, offset: 89426},
+																							pos: position{line: 2822, col: 13, offset: 89529},
 																							run: (*parser).callonListContinuationElement526,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2818, col: 13, offset: 89426},
+																								pos: position{line: 2822, col: 13, offset: 89529},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2818, col: 13, offset: 89426},
+																									pos:        position{line: 2822, col: 13, offset: 89529},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31846,28 +31890,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2894, col: 8, offset: 91298},
+																						pos: position{line: 2898, col: 8, offset: 91401},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2881, col: 12, offset: 91071},
+																								pos: position{line: 2885, col: 12, offset: 91174},
 																								run: (*parser).callonListContinuationElement530,
 																								expr: &choiceExpr{
-																									pos: position{line: 2881, col: 13, offset: 91072},
+																									pos: position{line: 2885, col: 13, offset: 91175},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 13, offset: 91072},
+																											pos:        position{line: 2885, col: 13, offset: 91175},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 20, offset: 91079},
+																											pos:        position{line: 2885, col: 20, offset: 91182},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 29, offset: 91088},
+																											pos:        position{line: 2885, col: 29, offset: 91191},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31876,9 +31920,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2891, col: 8, offset: 91248},
+																								pos: position{line: 2895, col: 8, offset: 91351},
 																								expr: &anyMatcher{
-																									line: 2891, col: 9, offset: 91249,
+																									line: 2895, col: 9, offset: 91352,
 																								},
 																							},
 																						},
@@ -31906,10 +31950,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 962, col: 40, offset: 30161},
 																expr: &actionExpr{
-																	pos: position{line: 2872, col: 10, offset: 90900},
+																	pos: position{line: 2876, col: 10, offset: 91003},
 																	run: (*parser).callonListContinuationElement541,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2872, col: 10, offset: 90900},
+																		pos:        position{line: 2876, col: 10, offset: 91003},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -31918,28 +31962,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2894, col: 8, offset: 91298},
+																pos: position{line: 2898, col: 8, offset: 91401},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2881, col: 12, offset: 91071},
+																		pos: position{line: 2885, col: 12, offset: 91174},
 																		run: (*parser).callonListContinuationElement544,
 																		expr: &choiceExpr{
-																			pos: position{line: 2881, col: 13, offset: 91072},
+																			pos: position{line: 2885, col: 13, offset: 91175},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2881, col: 13, offset: 91072},
+																					pos:        position{line: 2885, col: 13, offset: 91175},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2881, col: 20, offset: 91079},
+																					pos:        position{line: 2885, col: 20, offset: 91182},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2881, col: 29, offset: 91088},
+																					pos:        position{line: 2885, col: 29, offset: 91191},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -31948,9 +31992,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2891, col: 8, offset: 91248},
+																		pos: position{line: 2895, col: 8, offset: 91351},
 																		expr: &anyMatcher{
-																			line: 2891, col: 9, offset: 91249,
+																			line: 2895, col: 9, offset: 91352,
 																		},
 																	},
 																},
@@ -32007,10 +32051,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 755, col: 8, offset: 24187},
 																	expr: &actionExpr{
-																		pos: position{line: 2872, col: 10, offset: 90900},
+																		pos: position{line: 2876, col: 10, offset: 91003},
 																		run: (*parser).callonListContinuationElement563,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2872, col: 10, offset: 90900},
+																			pos:        position{line: 2876, col: 10, offset: 91003},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32019,28 +32063,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2894, col: 8, offset: 91298},
+																	pos: position{line: 2898, col: 8, offset: 91401},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2881, col: 12, offset: 91071},
+																			pos: position{line: 2885, col: 12, offset: 91174},
 																			run: (*parser).callonListContinuationElement566,
 																			expr: &choiceExpr{
-																				pos: position{line: 2881, col: 13, offset: 91072},
+																				pos: position{line: 2885, col: 13, offset: 91175},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 13, offset: 91072},
+																						pos:        position{line: 2885, col: 13, offset: 91175},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 20, offset: 91079},
+																						pos:        position{line: 2885, col: 20, offset: 91182},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 29, offset: 91088},
+																						pos:        position{line: 2885, col: 29, offset: 91191},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32049,9 +32093,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2891, col: 8, offset: 91248},
+																			pos: position{line: 2895, col: 8, offset: 91351},
 																			expr: &anyMatcher{
-																				line: 2891, col: 9, offset: 91249,
+																				line: 2895, col: 9, offset: 91352,
 																			},
 																		},
 																	},
@@ -32123,10 +32167,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 755, col: 8, offset: 24187},
 																											expr: &actionExpr{
-																												pos: position{line: 2872, col: 10, offset: 90900},
+																												pos: position{line: 2876, col: 10, offset: 91003},
 																												run: (*parser).callonListContinuationElement591,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2872, col: 10, offset: 90900},
+																													pos:        position{line: 2876, col: 10, offset: 91003},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32135,28 +32179,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2894, col: 8, offset: 91298},
+																											pos: position{line: 2898, col: 8, offset: 91401},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2881, col: 12, offset: 91071},
+																													pos: position{line: 2885, col: 12, offset: 91174},
 																													run: (*parser).callonListContinuationElement594,
 																													expr: &choiceExpr{
-																														pos: position{line: 2881, col: 13, offset: 91072},
+																														pos: position{line: 2885, col: 13, offset: 91175},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 13, offset: 91072},
+																																pos:        position{line: 2885, col: 13, offset: 91175},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 20, offset: 91079},
+																																pos:        position{line: 2885, col: 20, offset: 91182},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 29, offset: 91088},
+																																pos:        position{line: 2885, col: 29, offset: 91191},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32165,9 +32209,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2891, col: 8, offset: 91248},
+																													pos: position{line: 2895, col: 8, offset: 91351},
 																													expr: &anyMatcher{
-																														line: 2891, col: 9, offset: 91249,
+																														line: 2895, col: 9, offset: 91352,
 																													},
 																												},
 																											},
@@ -32183,9 +32227,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2891, col: 8, offset: 91248},
+																					pos: position{line: 2895, col: 8, offset: 91351},
 																					expr: &anyMatcher{
-																						line: 2891, col: 9, offset: 91249,
+																						line: 2895, col: 9, offset: 91352,
 																					},
 																				},
 																			},
@@ -32201,21 +32245,21 @@ var g = &grammar{
 																				pos: position{line: 810, col: 5, offset: 26100},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2889, col: 11, offset: 91234},
+																						pos: position{line: 2893, col: 11, offset: 91337},
 																						expr: &anyMatcher{
-																							line: 2889, col: 13, offset: 91236,
+																							line: 2893, col: 13, offset: 91339,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 811, col: 5, offset: 26175},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2818, col: 13, offset: 89426},
+																							pos: position{line: 2822, col: 13, offset: 89529},
 																							run: (*parser).callonListContinuationElement610,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2818, col: 13, offset: 89426},
+																								pos: position{line: 2822, col: 13, offset: 89529},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2818, col: 13, offset: 89426},
+																									pos:        position{line: 2822, col: 13, offset: 89529},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32225,28 +32269,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2894, col: 8, offset: 91298},
+																						pos: position{line: 2898, col: 8, offset: 91401},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2881, col: 12, offset: 91071},
+																								pos: position{line: 2885, col: 12, offset: 91174},
 																								run: (*parser).callonListContinuationElement614,
 																								expr: &choiceExpr{
-																									pos: position{line: 2881, col: 13, offset: 91072},
+																									pos: position{line: 2885, col: 13, offset: 91175},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 13, offset: 91072},
+																											pos:        position{line: 2885, col: 13, offset: 91175},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 20, offset: 91079},
+																											pos:        position{line: 2885, col: 20, offset: 91182},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 29, offset: 91088},
+																											pos:        position{line: 2885, col: 29, offset: 91191},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32255,9 +32299,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2891, col: 8, offset: 91248},
+																								pos: position{line: 2895, col: 8, offset: 91351},
 																								expr: &anyMatcher{
-																									line: 2891, col: 9, offset: 91249,
+																									line: 2895, col: 9, offset: 91352,
 																								},
 																							},
 																						},
@@ -32322,10 +32366,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 755, col: 8, offset: 24187},
 																							expr: &actionExpr{
-																								pos: position{line: 2872, col: 10, offset: 90900},
+																								pos: position{line: 2876, col: 10, offset: 91003},
 																								run: (*parser).callonListContinuationElement635,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2872, col: 10, offset: 90900},
+																									pos:        position{line: 2876, col: 10, offset: 91003},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32334,28 +32378,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2894, col: 8, offset: 91298},
+																							pos: position{line: 2898, col: 8, offset: 91401},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2881, col: 12, offset: 91071},
+																									pos: position{line: 2885, col: 12, offset: 91174},
 																									run: (*parser).callonListContinuationElement638,
 																									expr: &choiceExpr{
-																										pos: position{line: 2881, col: 13, offset: 91072},
+																										pos: position{line: 2885, col: 13, offset: 91175},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 13, offset: 91072},
+																												pos:        position{line: 2885, col: 13, offset: 91175},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 20, offset: 91079},
+																												pos:        position{line: 2885, col: 20, offset: 91182},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 29, offset: 91088},
+																												pos:        position{line: 2885, col: 29, offset: 91191},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32364,9 +32408,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2891, col: 8, offset: 91248},
+																									pos: position{line: 2895, col: 8, offset: 91351},
 																									expr: &anyMatcher{
-																										line: 2891, col: 9, offset: 91249,
+																										line: 2895, col: 9, offset: 91352,
 																									},
 																								},
 																							},
@@ -32382,9 +32426,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2891, col: 8, offset: 91248},
+																	pos: position{line: 2895, col: 8, offset: 91351},
 																	expr: &anyMatcher{
-																		line: 2891, col: 9, offset: 91249,
+																		line: 2895, col: 9, offset: 91352,
 																	},
 																},
 															},
@@ -32440,10 +32484,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 770, col: 8, offset: 24730},
 																	expr: &actionExpr{
-																		pos: position{line: 2872, col: 10, offset: 90900},
+																		pos: position{line: 2876, col: 10, offset: 91003},
 																		run: (*parser).callonListContinuationElement660,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2872, col: 10, offset: 90900},
+																			pos:        position{line: 2876, col: 10, offset: 91003},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32452,28 +32496,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2894, col: 8, offset: 91298},
+																	pos: position{line: 2898, col: 8, offset: 91401},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2881, col: 12, offset: 91071},
+																			pos: position{line: 2885, col: 12, offset: 91174},
 																			run: (*parser).callonListContinuationElement663,
 																			expr: &choiceExpr{
-																				pos: position{line: 2881, col: 13, offset: 91072},
+																				pos: position{line: 2885, col: 13, offset: 91175},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 13, offset: 91072},
+																						pos:        position{line: 2885, col: 13, offset: 91175},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 20, offset: 91079},
+																						pos:        position{line: 2885, col: 20, offset: 91182},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 29, offset: 91088},
+																						pos:        position{line: 2885, col: 29, offset: 91191},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32482,9 +32526,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2891, col: 8, offset: 91248},
+																			pos: position{line: 2895, col: 8, offset: 91351},
 																			expr: &anyMatcher{
-																				line: 2891, col: 9, offset: 91249,
+																				line: 2895, col: 9, offset: 91352,
 																			},
 																		},
 																	},
@@ -32556,10 +32600,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 770, col: 8, offset: 24730},
 																											expr: &actionExpr{
-																												pos: position{line: 2872, col: 10, offset: 90900},
+																												pos: position{line: 2876, col: 10, offset: 91003},
 																												run: (*parser).callonListContinuationElement688,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2872, col: 10, offset: 90900},
+																													pos:        position{line: 2876, col: 10, offset: 91003},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32568,28 +32612,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2894, col: 8, offset: 91298},
+																											pos: position{line: 2898, col: 8, offset: 91401},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2881, col: 12, offset: 91071},
+																													pos: position{line: 2885, col: 12, offset: 91174},
 																													run: (*parser).callonListContinuationElement691,
 																													expr: &choiceExpr{
-																														pos: position{line: 2881, col: 13, offset: 91072},
+																														pos: position{line: 2885, col: 13, offset: 91175},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 13, offset: 91072},
+																																pos:        position{line: 2885, col: 13, offset: 91175},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 20, offset: 91079},
+																																pos:        position{line: 2885, col: 20, offset: 91182},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 29, offset: 91088},
+																																pos:        position{line: 2885, col: 29, offset: 91191},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32598,9 +32642,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2891, col: 8, offset: 91248},
+																													pos: position{line: 2895, col: 8, offset: 91351},
 																													expr: &anyMatcher{
-																														line: 2891, col: 9, offset: 91249,
+																														line: 2895, col: 9, offset: 91352,
 																													},
 																												},
 																											},
@@ -32616,9 +32660,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2891, col: 8, offset: 91248},
+																					pos: position{line: 2895, col: 8, offset: 91351},
 																					expr: &anyMatcher{
-																						line: 2891, col: 9, offset: 91249,
+																						line: 2895, col: 9, offset: 91352,
 																					},
 																				},
 																			},
@@ -32634,21 +32678,21 @@ var g = &grammar{
 																				pos: position{line: 810, col: 5, offset: 26100},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2889, col: 11, offset: 91234},
+																						pos: position{line: 2893, col: 11, offset: 91337},
 																						expr: &anyMatcher{
-																							line: 2889, col: 13, offset: 91236,
+																							line: 2893, col: 13, offset: 91339,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 811, col: 5, offset: 26175},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2818, col: 13, offset: 89426},
+																							pos: position{line: 2822, col: 13, offset: 89529},
 																							run: (*parser).callonListContinuationElement707,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2818, col: 13, offset: 89426},
+																								pos: position{line: 2822, col: 13, offset: 89529},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2818, col: 13, offset: 89426},
+																									pos:        position{line: 2822, col: 13, offset: 89529},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32658,28 +32702,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2894, col: 8, offset: 91298},
+																						pos: position{line: 2898, col: 8, offset: 91401},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2881, col: 12, offset: 91071},
+																								pos: position{line: 2885, col: 12, offset: 91174},
 																								run: (*parser).callonListContinuationElement711,
 																								expr: &choiceExpr{
-																									pos: position{line: 2881, col: 13, offset: 91072},
+																									pos: position{line: 2885, col: 13, offset: 91175},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 13, offset: 91072},
+																											pos:        position{line: 2885, col: 13, offset: 91175},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 20, offset: 91079},
+																											pos:        position{line: 2885, col: 20, offset: 91182},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 29, offset: 91088},
+																											pos:        position{line: 2885, col: 29, offset: 91191},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32688,9 +32732,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2891, col: 8, offset: 91248},
+																								pos: position{line: 2895, col: 8, offset: 91351},
 																								expr: &anyMatcher{
-																									line: 2891, col: 9, offset: 91249,
+																									line: 2895, col: 9, offset: 91352,
 																								},
 																							},
 																						},
@@ -32755,10 +32799,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 770, col: 8, offset: 24730},
 																							expr: &actionExpr{
-																								pos: position{line: 2872, col: 10, offset: 90900},
+																								pos: position{line: 2876, col: 10, offset: 91003},
 																								run: (*parser).callonListContinuationElement732,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2872, col: 10, offset: 90900},
+																									pos:        position{line: 2876, col: 10, offset: 91003},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32767,28 +32811,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2894, col: 8, offset: 91298},
+																							pos: position{line: 2898, col: 8, offset: 91401},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2881, col: 12, offset: 91071},
+																									pos: position{line: 2885, col: 12, offset: 91174},
 																									run: (*parser).callonListContinuationElement735,
 																									expr: &choiceExpr{
-																										pos: position{line: 2881, col: 13, offset: 91072},
+																										pos: position{line: 2885, col: 13, offset: 91175},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 13, offset: 91072},
+																												pos:        position{line: 2885, col: 13, offset: 91175},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 20, offset: 91079},
+																												pos:        position{line: 2885, col: 20, offset: 91182},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 29, offset: 91088},
+																												pos:        position{line: 2885, col: 29, offset: 91191},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32797,9 +32841,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2891, col: 8, offset: 91248},
+																									pos: position{line: 2895, col: 8, offset: 91351},
 																									expr: &anyMatcher{
-																										line: 2891, col: 9, offset: 91249,
+																										line: 2895, col: 9, offset: 91352,
 																									},
 																								},
 																							},
@@ -32815,9 +32859,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2891, col: 8, offset: 91248},
+																	pos: position{line: 2895, col: 8, offset: 91351},
 																	expr: &anyMatcher{
-																		line: 2891, col: 9, offset: 91249,
+																		line: 2895, col: 9, offset: 91352,
 																	},
 																},
 															},
@@ -32873,10 +32917,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 784, col: 8, offset: 25206},
 																	expr: &actionExpr{
-																		pos: position{line: 2872, col: 10, offset: 90900},
+																		pos: position{line: 2876, col: 10, offset: 91003},
 																		run: (*parser).callonListContinuationElement757,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2872, col: 10, offset: 90900},
+																			pos:        position{line: 2876, col: 10, offset: 91003},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32885,28 +32929,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2894, col: 8, offset: 91298},
+																	pos: position{line: 2898, col: 8, offset: 91401},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2881, col: 12, offset: 91071},
+																			pos: position{line: 2885, col: 12, offset: 91174},
 																			run: (*parser).callonListContinuationElement760,
 																			expr: &choiceExpr{
-																				pos: position{line: 2881, col: 13, offset: 91072},
+																				pos: position{line: 2885, col: 13, offset: 91175},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 13, offset: 91072},
+																						pos:        position{line: 2885, col: 13, offset: 91175},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 20, offset: 91079},
+																						pos:        position{line: 2885, col: 20, offset: 91182},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 29, offset: 91088},
+																						pos:        position{line: 2885, col: 29, offset: 91191},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32915,9 +32959,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2891, col: 8, offset: 91248},
+																			pos: position{line: 2895, col: 8, offset: 91351},
 																			expr: &anyMatcher{
-																				line: 2891, col: 9, offset: 91249,
+																				line: 2895, col: 9, offset: 91352,
 																			},
 																		},
 																	},
@@ -32989,10 +33033,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 784, col: 8, offset: 25206},
 																											expr: &actionExpr{
-																												pos: position{line: 2872, col: 10, offset: 90900},
+																												pos: position{line: 2876, col: 10, offset: 91003},
 																												run: (*parser).callonListContinuationElement785,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2872, col: 10, offset: 90900},
+																													pos:        position{line: 2876, col: 10, offset: 91003},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33001,28 +33045,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2894, col: 8, offset: 91298},
+																											pos: position{line: 2898, col: 8, offset: 91401},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2881, col: 12, offset: 91071},
+																													pos: position{line: 2885, col: 12, offset: 91174},
 																													run: (*parser).callonListContinuationElement788,
 																													expr: &choiceExpr{
-																														pos: position{line: 2881, col: 13, offset: 91072},
+																														pos: position{line: 2885, col: 13, offset: 91175},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 13, offset: 91072},
+																																pos:        position{line: 2885, col: 13, offset: 91175},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 20, offset: 91079},
+																																pos:        position{line: 2885, col: 20, offset: 91182},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 29, offset: 91088},
+																																pos:        position{line: 2885, col: 29, offset: 91191},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33031,9 +33075,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2891, col: 8, offset: 91248},
+																													pos: position{line: 2895, col: 8, offset: 91351},
 																													expr: &anyMatcher{
-																														line: 2891, col: 9, offset: 91249,
+																														line: 2895, col: 9, offset: 91352,
 																													},
 																												},
 																											},
@@ -33049,9 +33093,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2891, col: 8, offset: 91248},
+																					pos: position{line: 2895, col: 8, offset: 91351},
 																					expr: &anyMatcher{
-																						line: 2891, col: 9, offset: 91249,
+																						line: 2895, col: 9, offset: 91352,
 																					},
 																				},
 																			},
@@ -33067,21 +33111,21 @@ var g = &grammar{
 																				pos: position{line: 810, col: 5, offset: 26100},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2889, col: 11, offset: 91234},
+																						pos: position{line: 2893, col: 11, offset: 91337},
 																						expr: &anyMatcher{
-																							line: 2889, col: 13, offset: 91236,
+																							line: 2893, col: 13, offset: 91339,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 811, col: 5, offset: 26175},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2818, col: 13, offset: 89426},
+																							pos: position{line: 2822, col: 13, offset: 89529},
 																							run: (*parser).callonListContinuationElement804,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2818, col: 13, offset: 89426},
+																								pos: position{line: 2822, col: 13, offset: 89529},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2818, col: 13, offset: 89426},
+																									pos:        position{line: 2822, col: 13, offset: 89529},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33091,28 +33135,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2894, col: 8, offset: 91298},
+																						pos: position{line: 2898, col: 8, offset: 91401},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2881, col: 12, offset: 91071},
+																								pos: position{line: 2885, col: 12, offset: 91174},
 																								run: (*parser).callonListContinuationElement808,
 																								expr: &choiceExpr{
-																									pos: position{line: 2881, col: 13, offset: 91072},
+																									pos: position{line: 2885, col: 13, offset: 91175},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 13, offset: 91072},
+																											pos:        position{line: 2885, col: 13, offset: 91175},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 20, offset: 91079},
+																											pos:        position{line: 2885, col: 20, offset: 91182},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 29, offset: 91088},
+																											pos:        position{line: 2885, col: 29, offset: 91191},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33121,9 +33165,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2891, col: 8, offset: 91248},
+																								pos: position{line: 2895, col: 8, offset: 91351},
 																								expr: &anyMatcher{
-																									line: 2891, col: 9, offset: 91249,
+																									line: 2895, col: 9, offset: 91352,
 																								},
 																							},
 																						},
@@ -33188,10 +33232,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 784, col: 8, offset: 25206},
 																							expr: &actionExpr{
-																								pos: position{line: 2872, col: 10, offset: 90900},
+																								pos: position{line: 2876, col: 10, offset: 91003},
 																								run: (*parser).callonListContinuationElement829,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2872, col: 10, offset: 90900},
+																									pos:        position{line: 2876, col: 10, offset: 91003},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33200,28 +33244,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2894, col: 8, offset: 91298},
+																							pos: position{line: 2898, col: 8, offset: 91401},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2881, col: 12, offset: 91071},
+																									pos: position{line: 2885, col: 12, offset: 91174},
 																									run: (*parser).callonListContinuationElement832,
 																									expr: &choiceExpr{
-																										pos: position{line: 2881, col: 13, offset: 91072},
+																										pos: position{line: 2885, col: 13, offset: 91175},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 13, offset: 91072},
+																												pos:        position{line: 2885, col: 13, offset: 91175},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 20, offset: 91079},
+																												pos:        position{line: 2885, col: 20, offset: 91182},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 29, offset: 91088},
+																												pos:        position{line: 2885, col: 29, offset: 91191},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33230,9 +33274,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2891, col: 8, offset: 91248},
+																									pos: position{line: 2895, col: 8, offset: 91351},
 																									expr: &anyMatcher{
-																										line: 2891, col: 9, offset: 91249,
+																										line: 2895, col: 9, offset: 91352,
 																									},
 																								},
 																							},
@@ -33248,9 +33292,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2891, col: 8, offset: 91248},
+																	pos: position{line: 2895, col: 8, offset: 91351},
 																	expr: &anyMatcher{
-																		line: 2891, col: 9, offset: 91249,
+																		line: 2895, col: 9, offset: 91352,
 																	},
 																},
 															},
@@ -33284,18 +33328,18 @@ var g = &grammar{
 																			pos: position{line: 676, col: 14, offset: 21496},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2889, col: 11, offset: 91234},
+																					pos: position{line: 2893, col: 11, offset: 91337},
 																					expr: &anyMatcher{
-																						line: 2889, col: 13, offset: 91236,
+																						line: 2893, col: 13, offset: 91339,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 676, col: 21, offset: 21503},
 																					expr: &actionExpr{
-																						pos: position{line: 2872, col: 10, offset: 90900},
+																						pos: position{line: 2876, col: 10, offset: 91003},
 																						run: (*parser).callonListContinuationElement853,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2872, col: 10, offset: 90900},
+																							pos:        position{line: 2876, col: 10, offset: 91003},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -33304,28 +33348,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2894, col: 8, offset: 91298},
+																					pos: position{line: 2898, col: 8, offset: 91401},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2881, col: 12, offset: 91071},
+																							pos: position{line: 2885, col: 12, offset: 91174},
 																							run: (*parser).callonListContinuationElement856,
 																							expr: &choiceExpr{
-																								pos: position{line: 2881, col: 13, offset: 91072},
+																								pos: position{line: 2885, col: 13, offset: 91175},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2881, col: 13, offset: 91072},
+																										pos:        position{line: 2885, col: 13, offset: 91175},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2881, col: 20, offset: 91079},
+																										pos:        position{line: 2885, col: 20, offset: 91182},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2881, col: 29, offset: 91088},
+																										pos:        position{line: 2885, col: 29, offset: 91191},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -33334,9 +33378,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2891, col: 8, offset: 91248},
+																							pos: position{line: 2895, col: 8, offset: 91351},
 																							expr: &anyMatcher{
-																								line: 2891, col: 9, offset: 91249,
+																								line: 2895, col: 9, offset: 91352,
 																							},
 																						},
 																					},
@@ -33355,12 +33399,12 @@ var g = &grammar{
 																	pos:   position{line: 983, col: 5, offset: 30696},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2822, col: 14, offset: 89493},
+																		pos: position{line: 2826, col: 14, offset: 89596},
 																		run: (*parser).callonListContinuationElement865,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2822, col: 14, offset: 89493},
+																			pos: position{line: 2826, col: 14, offset: 89596},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2822, col: 14, offset: 89493},
+																				pos:        position{line: 2826, col: 14, offset: 89596},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -33370,28 +33414,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2894, col: 8, offset: 91298},
+																	pos: position{line: 2898, col: 8, offset: 91401},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2881, col: 12, offset: 91071},
+																			pos: position{line: 2885, col: 12, offset: 91174},
 																			run: (*parser).callonListContinuationElement869,
 																			expr: &choiceExpr{
-																				pos: position{line: 2881, col: 13, offset: 91072},
+																				pos: position{line: 2885, col: 13, offset: 91175},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 13, offset: 91072},
+																						pos:        position{line: 2885, col: 13, offset: 91175},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 20, offset: 91079},
+																						pos:        position{line: 2885, col: 20, offset: 91182},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 29, offset: 91088},
+																						pos:        position{line: 2885, col: 29, offset: 91191},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33400,9 +33444,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2891, col: 8, offset: 91248},
+																			pos: position{line: 2895, col: 8, offset: 91351},
 																			expr: &anyMatcher{
-																				line: 2891, col: 9, offset: 91249,
+																				line: 2895, col: 9, offset: 91352,
 																			},
 																		},
 																	},
@@ -33434,18 +33478,18 @@ var g = &grammar{
 																						pos: position{line: 676, col: 14, offset: 21496},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2889, col: 11, offset: 91234},
+																								pos: position{line: 2893, col: 11, offset: 91337},
 																								expr: &anyMatcher{
-																									line: 2889, col: 13, offset: 91236,
+																									line: 2893, col: 13, offset: 91339,
 																								},
 																							},
 																							&zeroOrMoreExpr{
 																								pos: position{line: 676, col: 21, offset: 21503},
 																								expr: &actionExpr{
-																									pos: position{line: 2872, col: 10, offset: 90900},
+																									pos: position{line: 2876, col: 10, offset: 91003},
 																									run: (*parser).callonListContinuationElement887,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2872, col: 10, offset: 90900},
+																										pos:        position{line: 2876, col: 10, offset: 91003},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33454,28 +33498,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2894, col: 8, offset: 91298},
+																								pos: position{line: 2898, col: 8, offset: 91401},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2881, col: 12, offset: 91071},
+																										pos: position{line: 2885, col: 12, offset: 91174},
 																										run: (*parser).callonListContinuationElement890,
 																										expr: &choiceExpr{
-																											pos: position{line: 2881, col: 13, offset: 91072},
+																											pos: position{line: 2885, col: 13, offset: 91175},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2881, col: 13, offset: 91072},
+																													pos:        position{line: 2885, col: 13, offset: 91175},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2881, col: 20, offset: 91079},
+																													pos:        position{line: 2885, col: 20, offset: 91182},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2881, col: 29, offset: 91088},
+																													pos:        position{line: 2885, col: 29, offset: 91191},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33484,9 +33528,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2891, col: 8, offset: 91248},
+																										pos: position{line: 2895, col: 8, offset: 91351},
 																										expr: &anyMatcher{
-																											line: 2891, col: 9, offset: 91249,
+																											line: 2895, col: 9, offset: 91352,
 																										},
 																									},
 																								},
@@ -33505,12 +33549,12 @@ var g = &grammar{
 																				pos:   position{line: 983, col: 5, offset: 30696},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2822, col: 14, offset: 89493},
+																					pos: position{line: 2826, col: 14, offset: 89596},
 																					run: (*parser).callonListContinuationElement899,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2822, col: 14, offset: 89493},
+																						pos: position{line: 2826, col: 14, offset: 89596},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2822, col: 14, offset: 89493},
+																							pos:        position{line: 2826, col: 14, offset: 89596},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33520,28 +33564,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2894, col: 8, offset: 91298},
+																				pos: position{line: 2898, col: 8, offset: 91401},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2881, col: 12, offset: 91071},
+																						pos: position{line: 2885, col: 12, offset: 91174},
 																						run: (*parser).callonListContinuationElement903,
 																						expr: &choiceExpr{
-																							pos: position{line: 2881, col: 13, offset: 91072},
+																							pos: position{line: 2885, col: 13, offset: 91175},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2881, col: 13, offset: 91072},
+																									pos:        position{line: 2885, col: 13, offset: 91175},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2881, col: 20, offset: 91079},
+																									pos:        position{line: 2885, col: 20, offset: 91182},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2881, col: 29, offset: 91088},
+																									pos:        position{line: 2885, col: 29, offset: 91191},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33550,9 +33594,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2891, col: 8, offset: 91248},
+																						pos: position{line: 2895, col: 8, offset: 91351},
 																						expr: &anyMatcher{
-																							line: 2891, col: 9, offset: 91249,
+																							line: 2895, col: 9, offset: 91352,
 																						},
 																					},
 																				},
@@ -33561,21 +33605,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1791, col: 5, offset: 57974},
+																	pos: position{line: 1795, col: 5, offset: 58077},
 																	run: (*parser).callonListContinuationElement910,
 																	expr: &seqExpr{
-																		pos: position{line: 1791, col: 5, offset: 57974},
+																		pos: position{line: 1795, col: 5, offset: 58077},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1791, col: 5, offset: 57974},
+																				pos:   position{line: 1795, col: 5, offset: 58077},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2822, col: 14, offset: 89493},
+																					pos: position{line: 2826, col: 14, offset: 89596},
 																					run: (*parser).callonListContinuationElement913,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2822, col: 14, offset: 89493},
+																						pos: position{line: 2826, col: 14, offset: 89596},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2822, col: 14, offset: 89493},
+																							pos:        position{line: 2826, col: 14, offset: 89596},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33585,32 +33629,32 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1792, col: 5, offset: 57998},
+																				pos: position{line: 1796, col: 5, offset: 58101},
 																				run: (*parser).callonListContinuationElement916,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2894, col: 8, offset: 91298},
+																				pos: position{line: 2898, col: 8, offset: 91401},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2881, col: 12, offset: 91071},
+																						pos: position{line: 2885, col: 12, offset: 91174},
 																						run: (*parser).callonListContinuationElement918,
 																						expr: &choiceExpr{
-																							pos: position{line: 2881, col: 13, offset: 91072},
+																							pos: position{line: 2885, col: 13, offset: 91175},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2881, col: 13, offset: 91072},
+																									pos:        position{line: 2885, col: 13, offset: 91175},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2881, col: 20, offset: 91079},
+																									pos:        position{line: 2885, col: 20, offset: 91182},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2881, col: 29, offset: 91088},
+																									pos:        position{line: 2885, col: 29, offset: 91191},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33619,9 +33663,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2891, col: 8, offset: 91248},
+																						pos: position{line: 2895, col: 8, offset: 91351},
 																						expr: &anyMatcher{
-																							line: 2891, col: 9, offset: 91249,
+																							line: 2895, col: 9, offset: 91352,
 																						},
 																					},
 																				},
@@ -33668,10 +33712,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 777, col: 8, offset: 24961},
 																	expr: &actionExpr{
-																		pos: position{line: 2872, col: 10, offset: 90900},
+																		pos: position{line: 2876, col: 10, offset: 91003},
 																		run: (*parser).callonListContinuationElement934,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2872, col: 10, offset: 90900},
+																			pos:        position{line: 2876, col: 10, offset: 91003},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33680,28 +33724,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2894, col: 8, offset: 91298},
+																	pos: position{line: 2898, col: 8, offset: 91401},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2881, col: 12, offset: 91071},
+																			pos: position{line: 2885, col: 12, offset: 91174},
 																			run: (*parser).callonListContinuationElement937,
 																			expr: &choiceExpr{
-																				pos: position{line: 2881, col: 13, offset: 91072},
+																				pos: position{line: 2885, col: 13, offset: 91175},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 13, offset: 91072},
+																						pos:        position{line: 2885, col: 13, offset: 91175},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 20, offset: 91079},
+																						pos:        position{line: 2885, col: 20, offset: 91182},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 29, offset: 91088},
+																						pos:        position{line: 2885, col: 29, offset: 91191},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33710,9 +33754,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2891, col: 8, offset: 91248},
+																			pos: position{line: 2895, col: 8, offset: 91351},
 																			expr: &anyMatcher{
-																				line: 2891, col: 9, offset: 91249,
+																				line: 2895, col: 9, offset: 91352,
 																			},
 																		},
 																	},
@@ -33760,10 +33804,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 777, col: 8, offset: 24961},
 																								expr: &actionExpr{
-																									pos: position{line: 2872, col: 10, offset: 90900},
+																									pos: position{line: 2876, col: 10, offset: 91003},
 																									run: (*parser).callonListContinuationElement956,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2872, col: 10, offset: 90900},
+																										pos:        position{line: 2876, col: 10, offset: 91003},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33772,28 +33816,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2894, col: 8, offset: 91298},
+																								pos: position{line: 2898, col: 8, offset: 91401},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2881, col: 12, offset: 91071},
+																										pos: position{line: 2885, col: 12, offset: 91174},
 																										run: (*parser).callonListContinuationElement959,
 																										expr: &choiceExpr{
-																											pos: position{line: 2881, col: 13, offset: 91072},
+																											pos: position{line: 2885, col: 13, offset: 91175},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2881, col: 13, offset: 91072},
+																													pos:        position{line: 2885, col: 13, offset: 91175},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2881, col: 20, offset: 91079},
+																													pos:        position{line: 2885, col: 20, offset: 91182},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2881, col: 29, offset: 91088},
+																													pos:        position{line: 2885, col: 29, offset: 91191},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33802,9 +33846,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2891, col: 8, offset: 91248},
+																										pos: position{line: 2895, col: 8, offset: 91351},
 																										expr: &anyMatcher{
-																											line: 2891, col: 9, offset: 91249,
+																											line: 2895, col: 9, offset: 91352,
 																										},
 																									},
 																								},
@@ -33813,9 +33857,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2891, col: 8, offset: 91248},
+																					pos: position{line: 2895, col: 8, offset: 91351},
 																					expr: &anyMatcher{
-																						line: 2891, col: 9, offset: 91249,
+																						line: 2895, col: 9, offset: 91352,
 																					},
 																				},
 																			},
@@ -33831,21 +33875,21 @@ var g = &grammar{
 																				pos: position{line: 810, col: 5, offset: 26100},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2889, col: 11, offset: 91234},
+																						pos: position{line: 2893, col: 11, offset: 91337},
 																						expr: &anyMatcher{
-																							line: 2889, col: 13, offset: 91236,
+																							line: 2893, col: 13, offset: 91339,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 811, col: 5, offset: 26175},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2818, col: 13, offset: 89426},
+																							pos: position{line: 2822, col: 13, offset: 89529},
 																							run: (*parser).callonListContinuationElement974,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2818, col: 13, offset: 89426},
+																								pos: position{line: 2822, col: 13, offset: 89529},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2818, col: 13, offset: 89426},
+																									pos:        position{line: 2822, col: 13, offset: 89529},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33855,28 +33899,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2894, col: 8, offset: 91298},
+																						pos: position{line: 2898, col: 8, offset: 91401},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2881, col: 12, offset: 91071},
+																								pos: position{line: 2885, col: 12, offset: 91174},
 																								run: (*parser).callonListContinuationElement978,
 																								expr: &choiceExpr{
-																									pos: position{line: 2881, col: 13, offset: 91072},
+																									pos: position{line: 2885, col: 13, offset: 91175},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 13, offset: 91072},
+																											pos:        position{line: 2885, col: 13, offset: 91175},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 20, offset: 91079},
+																											pos:        position{line: 2885, col: 20, offset: 91182},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 29, offset: 91088},
+																											pos:        position{line: 2885, col: 29, offset: 91191},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33885,9 +33929,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2891, col: 8, offset: 91248},
+																								pos: position{line: 2895, col: 8, offset: 91351},
 																								expr: &anyMatcher{
-																									line: 2891, col: 9, offset: 91249,
+																									line: 2895, col: 9, offset: 91352,
 																								},
 																							},
 																						},
@@ -33932,10 +33976,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 777, col: 8, offset: 24961},
 																				expr: &actionExpr{
-																					pos: position{line: 2872, col: 10, offset: 90900},
+																					pos: position{line: 2876, col: 10, offset: 91003},
 																					run: (*parser).callonListContinuationElement994,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2872, col: 10, offset: 90900},
+																						pos:        position{line: 2876, col: 10, offset: 91003},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -33944,28 +33988,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2894, col: 8, offset: 91298},
+																				pos: position{line: 2898, col: 8, offset: 91401},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2881, col: 12, offset: 91071},
+																						pos: position{line: 2885, col: 12, offset: 91174},
 																						run: (*parser).callonListContinuationElement997,
 																						expr: &choiceExpr{
-																							pos: position{line: 2881, col: 13, offset: 91072},
+																							pos: position{line: 2885, col: 13, offset: 91175},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2881, col: 13, offset: 91072},
+																									pos:        position{line: 2885, col: 13, offset: 91175},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2881, col: 20, offset: 91079},
+																									pos:        position{line: 2885, col: 20, offset: 91182},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2881, col: 29, offset: 91088},
+																									pos:        position{line: 2885, col: 29, offset: 91191},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33974,9 +34018,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2891, col: 8, offset: 91248},
+																						pos: position{line: 2895, col: 8, offset: 91351},
 																						expr: &anyMatcher{
-																							line: 2891, col: 9, offset: 91249,
+																							line: 2895, col: 9, offset: 91352,
 																						},
 																					},
 																				},
@@ -33985,9 +34029,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2891, col: 8, offset: 91248},
+																	pos: position{line: 2895, col: 8, offset: 91351},
 																	expr: &anyMatcher{
-																		line: 2891, col: 9, offset: 91249,
+																		line: 2895, col: 9, offset: 91352,
 																	},
 																},
 															},
@@ -34043,10 +34087,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 791, col: 8, offset: 25458},
 																	expr: &actionExpr{
-																		pos: position{line: 2872, col: 10, offset: 90900},
+																		pos: position{line: 2876, col: 10, offset: 91003},
 																		run: (*parser).callonListContinuationElement1018,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2872, col: 10, offset: 90900},
+																			pos:        position{line: 2876, col: 10, offset: 91003},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34055,28 +34099,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2894, col: 8, offset: 91298},
+																	pos: position{line: 2898, col: 8, offset: 91401},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2881, col: 12, offset: 91071},
+																			pos: position{line: 2885, col: 12, offset: 91174},
 																			run: (*parser).callonListContinuationElement1021,
 																			expr: &choiceExpr{
-																				pos: position{line: 2881, col: 13, offset: 91072},
+																				pos: position{line: 2885, col: 13, offset: 91175},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 13, offset: 91072},
+																						pos:        position{line: 2885, col: 13, offset: 91175},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 20, offset: 91079},
+																						pos:        position{line: 2885, col: 20, offset: 91182},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 29, offset: 91088},
+																						pos:        position{line: 2885, col: 29, offset: 91191},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34085,9 +34129,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2891, col: 8, offset: 91248},
+																			pos: position{line: 2895, col: 8, offset: 91351},
 																			expr: &anyMatcher{
-																				line: 2891, col: 9, offset: 91249,
+																				line: 2895, col: 9, offset: 91352,
 																			},
 																		},
 																	},
@@ -34159,10 +34203,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 791, col: 8, offset: 25458},
 																											expr: &actionExpr{
-																												pos: position{line: 2872, col: 10, offset: 90900},
+																												pos: position{line: 2876, col: 10, offset: 91003},
 																												run: (*parser).callonListContinuationElement1046,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2872, col: 10, offset: 90900},
+																													pos:        position{line: 2876, col: 10, offset: 91003},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34171,28 +34215,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2894, col: 8, offset: 91298},
+																											pos: position{line: 2898, col: 8, offset: 91401},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2881, col: 12, offset: 91071},
+																													pos: position{line: 2885, col: 12, offset: 91174},
 																													run: (*parser).callonListContinuationElement1049,
 																													expr: &choiceExpr{
-																														pos: position{line: 2881, col: 13, offset: 91072},
+																														pos: position{line: 2885, col: 13, offset: 91175},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 13, offset: 91072},
+																																pos:        position{line: 2885, col: 13, offset: 91175},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 20, offset: 91079},
+																																pos:        position{line: 2885, col: 20, offset: 91182},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 29, offset: 91088},
+																																pos:        position{line: 2885, col: 29, offset: 91191},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34201,9 +34245,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2891, col: 8, offset: 91248},
+																													pos: position{line: 2895, col: 8, offset: 91351},
 																													expr: &anyMatcher{
-																														line: 2891, col: 9, offset: 91249,
+																														line: 2895, col: 9, offset: 91352,
 																													},
 																												},
 																											},
@@ -34219,9 +34263,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2891, col: 8, offset: 91248},
+																					pos: position{line: 2895, col: 8, offset: 91351},
 																					expr: &anyMatcher{
-																						line: 2891, col: 9, offset: 91249,
+																						line: 2895, col: 9, offset: 91352,
 																					},
 																				},
 																			},
@@ -34237,21 +34281,21 @@ var g = &grammar{
 																				pos: position{line: 810, col: 5, offset: 26100},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2889, col: 11, offset: 91234},
+																						pos: position{line: 2893, col: 11, offset: 91337},
 																						expr: &anyMatcher{
-																							line: 2889, col: 13, offset: 91236,
+																							line: 2893, col: 13, offset: 91339,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 811, col: 5, offset: 26175},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2818, col: 13, offset: 89426},
+																							pos: position{line: 2822, col: 13, offset: 89529},
 																							run: (*parser).callonListContinuationElement1065,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2818, col: 13, offset: 89426},
+																								pos: position{line: 2822, col: 13, offset: 89529},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2818, col: 13, offset: 89426},
+																									pos:        position{line: 2822, col: 13, offset: 89529},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34261,28 +34305,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2894, col: 8, offset: 91298},
+																						pos: position{line: 2898, col: 8, offset: 91401},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2881, col: 12, offset: 91071},
+																								pos: position{line: 2885, col: 12, offset: 91174},
 																								run: (*parser).callonListContinuationElement1069,
 																								expr: &choiceExpr{
-																									pos: position{line: 2881, col: 13, offset: 91072},
+																									pos: position{line: 2885, col: 13, offset: 91175},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 13, offset: 91072},
+																											pos:        position{line: 2885, col: 13, offset: 91175},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 20, offset: 91079},
+																											pos:        position{line: 2885, col: 20, offset: 91182},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 29, offset: 91088},
+																											pos:        position{line: 2885, col: 29, offset: 91191},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34291,9 +34335,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2891, col: 8, offset: 91248},
+																								pos: position{line: 2895, col: 8, offset: 91351},
 																								expr: &anyMatcher{
-																									line: 2891, col: 9, offset: 91249,
+																									line: 2895, col: 9, offset: 91352,
 																								},
 																							},
 																						},
@@ -34358,10 +34402,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 791, col: 8, offset: 25458},
 																							expr: &actionExpr{
-																								pos: position{line: 2872, col: 10, offset: 90900},
+																								pos: position{line: 2876, col: 10, offset: 91003},
 																								run: (*parser).callonListContinuationElement1090,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2872, col: 10, offset: 90900},
+																									pos:        position{line: 2876, col: 10, offset: 91003},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34370,28 +34414,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2894, col: 8, offset: 91298},
+																							pos: position{line: 2898, col: 8, offset: 91401},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2881, col: 12, offset: 91071},
+																									pos: position{line: 2885, col: 12, offset: 91174},
 																									run: (*parser).callonListContinuationElement1093,
 																									expr: &choiceExpr{
-																										pos: position{line: 2881, col: 13, offset: 91072},
+																										pos: position{line: 2885, col: 13, offset: 91175},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 13, offset: 91072},
+																												pos:        position{line: 2885, col: 13, offset: 91175},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 20, offset: 91079},
+																												pos:        position{line: 2885, col: 20, offset: 91182},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 29, offset: 91088},
+																												pos:        position{line: 2885, col: 29, offset: 91191},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34400,9 +34444,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2891, col: 8, offset: 91248},
+																									pos: position{line: 2895, col: 8, offset: 91351},
 																									expr: &anyMatcher{
-																										line: 2891, col: 9, offset: 91249,
+																										line: 2895, col: 9, offset: 91352,
 																									},
 																								},
 																							},
@@ -34418,9 +34462,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2891, col: 8, offset: 91248},
+																	pos: position{line: 2895, col: 8, offset: 91351},
 																	expr: &anyMatcher{
-																		line: 2891, col: 9, offset: 91249,
+																		line: 2895, col: 9, offset: 91352,
 																	},
 																},
 															},
@@ -34476,10 +34520,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 798, col: 8, offset: 25708},
 																	expr: &actionExpr{
-																		pos: position{line: 2872, col: 10, offset: 90900},
+																		pos: position{line: 2876, col: 10, offset: 91003},
 																		run: (*parser).callonListContinuationElement1115,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2872, col: 10, offset: 90900},
+																			pos:        position{line: 2876, col: 10, offset: 91003},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34488,28 +34532,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2894, col: 8, offset: 91298},
+																	pos: position{line: 2898, col: 8, offset: 91401},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2881, col: 12, offset: 91071},
+																			pos: position{line: 2885, col: 12, offset: 91174},
 																			run: (*parser).callonListContinuationElement1118,
 																			expr: &choiceExpr{
-																				pos: position{line: 2881, col: 13, offset: 91072},
+																				pos: position{line: 2885, col: 13, offset: 91175},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 13, offset: 91072},
+																						pos:        position{line: 2885, col: 13, offset: 91175},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 20, offset: 91079},
+																						pos:        position{line: 2885, col: 20, offset: 91182},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 29, offset: 91088},
+																						pos:        position{line: 2885, col: 29, offset: 91191},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34518,9 +34562,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2891, col: 8, offset: 91248},
+																			pos: position{line: 2895, col: 8, offset: 91351},
 																			expr: &anyMatcher{
-																				line: 2891, col: 9, offset: 91249,
+																				line: 2895, col: 9, offset: 91352,
 																			},
 																		},
 																	},
@@ -34592,10 +34636,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 798, col: 8, offset: 25708},
 																											expr: &actionExpr{
-																												pos: position{line: 2872, col: 10, offset: 90900},
+																												pos: position{line: 2876, col: 10, offset: 91003},
 																												run: (*parser).callonListContinuationElement1143,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2872, col: 10, offset: 90900},
+																													pos:        position{line: 2876, col: 10, offset: 91003},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34604,28 +34648,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2894, col: 8, offset: 91298},
+																											pos: position{line: 2898, col: 8, offset: 91401},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2881, col: 12, offset: 91071},
+																													pos: position{line: 2885, col: 12, offset: 91174},
 																													run: (*parser).callonListContinuationElement1146,
 																													expr: &choiceExpr{
-																														pos: position{line: 2881, col: 13, offset: 91072},
+																														pos: position{line: 2885, col: 13, offset: 91175},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 13, offset: 91072},
+																																pos:        position{line: 2885, col: 13, offset: 91175},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 20, offset: 91079},
+																																pos:        position{line: 2885, col: 20, offset: 91182},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 29, offset: 91088},
+																																pos:        position{line: 2885, col: 29, offset: 91191},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34634,9 +34678,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2891, col: 8, offset: 91248},
+																													pos: position{line: 2895, col: 8, offset: 91351},
 																													expr: &anyMatcher{
-																														line: 2891, col: 9, offset: 91249,
+																														line: 2895, col: 9, offset: 91352,
 																													},
 																												},
 																											},
@@ -34652,9 +34696,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2891, col: 8, offset: 91248},
+																					pos: position{line: 2895, col: 8, offset: 91351},
 																					expr: &anyMatcher{
-																						line: 2891, col: 9, offset: 91249,
+																						line: 2895, col: 9, offset: 91352,
 																					},
 																				},
 																			},
@@ -34670,21 +34714,21 @@ var g = &grammar{
 																				pos: position{line: 810, col: 5, offset: 26100},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2889, col: 11, offset: 91234},
+																						pos: position{line: 2893, col: 11, offset: 91337},
 																						expr: &anyMatcher{
-																							line: 2889, col: 13, offset: 91236,
+																							line: 2893, col: 13, offset: 91339,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 811, col: 5, offset: 26175},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2818, col: 13, offset: 89426},
+																							pos: position{line: 2822, col: 13, offset: 89529},
 																							run: (*parser).callonListContinuationElement1162,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2818, col: 13, offset: 89426},
+																								pos: position{line: 2822, col: 13, offset: 89529},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2818, col: 13, offset: 89426},
+																									pos:        position{line: 2822, col: 13, offset: 89529},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34694,28 +34738,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2894, col: 8, offset: 91298},
+																						pos: position{line: 2898, col: 8, offset: 91401},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2881, col: 12, offset: 91071},
+																								pos: position{line: 2885, col: 12, offset: 91174},
 																								run: (*parser).callonListContinuationElement1166,
 																								expr: &choiceExpr{
-																									pos: position{line: 2881, col: 13, offset: 91072},
+																									pos: position{line: 2885, col: 13, offset: 91175},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 13, offset: 91072},
+																											pos:        position{line: 2885, col: 13, offset: 91175},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 20, offset: 91079},
+																											pos:        position{line: 2885, col: 20, offset: 91182},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 29, offset: 91088},
+																											pos:        position{line: 2885, col: 29, offset: 91191},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34724,9 +34768,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2891, col: 8, offset: 91248},
+																								pos: position{line: 2895, col: 8, offset: 91351},
 																								expr: &anyMatcher{
-																									line: 2891, col: 9, offset: 91249,
+																									line: 2895, col: 9, offset: 91352,
 																								},
 																							},
 																						},
@@ -34791,10 +34835,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 798, col: 8, offset: 25708},
 																							expr: &actionExpr{
-																								pos: position{line: 2872, col: 10, offset: 90900},
+																								pos: position{line: 2876, col: 10, offset: 91003},
 																								run: (*parser).callonListContinuationElement1187,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2872, col: 10, offset: 90900},
+																									pos:        position{line: 2876, col: 10, offset: 91003},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34803,28 +34847,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2894, col: 8, offset: 91298},
+																							pos: position{line: 2898, col: 8, offset: 91401},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2881, col: 12, offset: 91071},
+																									pos: position{line: 2885, col: 12, offset: 91174},
 																									run: (*parser).callonListContinuationElement1190,
 																									expr: &choiceExpr{
-																										pos: position{line: 2881, col: 13, offset: 91072},
+																										pos: position{line: 2885, col: 13, offset: 91175},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 13, offset: 91072},
+																												pos:        position{line: 2885, col: 13, offset: 91175},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 20, offset: 91079},
+																												pos:        position{line: 2885, col: 20, offset: 91182},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 29, offset: 91088},
+																												pos:        position{line: 2885, col: 29, offset: 91191},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34833,9 +34877,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2891, col: 8, offset: 91248},
+																									pos: position{line: 2895, col: 8, offset: 91351},
 																									expr: &anyMatcher{
-																										line: 2891, col: 9, offset: 91249,
+																										line: 2895, col: 9, offset: 91352,
 																									},
 																								},
 																							},
@@ -34851,9 +34895,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2891, col: 8, offset: 91248},
+																	pos: position{line: 2895, col: 8, offset: 91351},
 																	expr: &anyMatcher{
-																		line: 2891, col: 9, offset: 91249,
+																		line: 2895, col: 9, offset: 91352,
 																	},
 																},
 															},
@@ -34909,10 +34953,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 805, col: 8, offset: 25954},
 																	expr: &actionExpr{
-																		pos: position{line: 2872, col: 10, offset: 90900},
+																		pos: position{line: 2876, col: 10, offset: 91003},
 																		run: (*parser).callonListContinuationElement1212,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2872, col: 10, offset: 90900},
+																			pos:        position{line: 2876, col: 10, offset: 91003},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34921,28 +34965,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2894, col: 8, offset: 91298},
+																	pos: position{line: 2898, col: 8, offset: 91401},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2881, col: 12, offset: 91071},
+																			pos: position{line: 2885, col: 12, offset: 91174},
 																			run: (*parser).callonListContinuationElement1215,
 																			expr: &choiceExpr{
-																				pos: position{line: 2881, col: 13, offset: 91072},
+																				pos: position{line: 2885, col: 13, offset: 91175},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 13, offset: 91072},
+																						pos:        position{line: 2885, col: 13, offset: 91175},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 20, offset: 91079},
+																						pos:        position{line: 2885, col: 20, offset: 91182},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 29, offset: 91088},
+																						pos:        position{line: 2885, col: 29, offset: 91191},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34951,9 +34995,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2891, col: 8, offset: 91248},
+																			pos: position{line: 2895, col: 8, offset: 91351},
 																			expr: &anyMatcher{
-																				line: 2891, col: 9, offset: 91249,
+																				line: 2895, col: 9, offset: 91352,
 																			},
 																		},
 																	},
@@ -35025,10 +35069,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 805, col: 8, offset: 25954},
 																											expr: &actionExpr{
-																												pos: position{line: 2872, col: 10, offset: 90900},
+																												pos: position{line: 2876, col: 10, offset: 91003},
 																												run: (*parser).callonListContinuationElement1240,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2872, col: 10, offset: 90900},
+																													pos:        position{line: 2876, col: 10, offset: 91003},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35037,28 +35081,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2894, col: 8, offset: 91298},
+																											pos: position{line: 2898, col: 8, offset: 91401},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2881, col: 12, offset: 91071},
+																													pos: position{line: 2885, col: 12, offset: 91174},
 																													run: (*parser).callonListContinuationElement1243,
 																													expr: &choiceExpr{
-																														pos: position{line: 2881, col: 13, offset: 91072},
+																														pos: position{line: 2885, col: 13, offset: 91175},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 13, offset: 91072},
+																																pos:        position{line: 2885, col: 13, offset: 91175},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 20, offset: 91079},
+																																pos:        position{line: 2885, col: 20, offset: 91182},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 29, offset: 91088},
+																																pos:        position{line: 2885, col: 29, offset: 91191},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35067,9 +35111,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2891, col: 8, offset: 91248},
+																													pos: position{line: 2895, col: 8, offset: 91351},
 																													expr: &anyMatcher{
-																														line: 2891, col: 9, offset: 91249,
+																														line: 2895, col: 9, offset: 91352,
 																													},
 																												},
 																											},
@@ -35085,9 +35129,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2891, col: 8, offset: 91248},
+																					pos: position{line: 2895, col: 8, offset: 91351},
 																					expr: &anyMatcher{
-																						line: 2891, col: 9, offset: 91249,
+																						line: 2895, col: 9, offset: 91352,
 																					},
 																				},
 																			},
@@ -35103,21 +35147,21 @@ var g = &grammar{
 																				pos: position{line: 810, col: 5, offset: 26100},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2889, col: 11, offset: 91234},
+																						pos: position{line: 2893, col: 11, offset: 91337},
 																						expr: &anyMatcher{
-																							line: 2889, col: 13, offset: 91236,
+																							line: 2893, col: 13, offset: 91339,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 811, col: 5, offset: 26175},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2818, col: 13, offset: 89426},
+																							pos: position{line: 2822, col: 13, offset: 89529},
 																							run: (*parser).callonListContinuationElement1259,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2818, col: 13, offset: 89426},
+																								pos: position{line: 2822, col: 13, offset: 89529},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2818, col: 13, offset: 89426},
+																									pos:        position{line: 2822, col: 13, offset: 89529},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35127,28 +35171,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2894, col: 8, offset: 91298},
+																						pos: position{line: 2898, col: 8, offset: 91401},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2881, col: 12, offset: 91071},
+																								pos: position{line: 2885, col: 12, offset: 91174},
 																								run: (*parser).callonListContinuationElement1263,
 																								expr: &choiceExpr{
-																									pos: position{line: 2881, col: 13, offset: 91072},
+																									pos: position{line: 2885, col: 13, offset: 91175},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 13, offset: 91072},
+																											pos:        position{line: 2885, col: 13, offset: 91175},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 20, offset: 91079},
+																											pos:        position{line: 2885, col: 20, offset: 91182},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 29, offset: 91088},
+																											pos:        position{line: 2885, col: 29, offset: 91191},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35157,9 +35201,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2891, col: 8, offset: 91248},
+																								pos: position{line: 2895, col: 8, offset: 91351},
 																								expr: &anyMatcher{
-																									line: 2891, col: 9, offset: 91249,
+																									line: 2895, col: 9, offset: 91352,
 																								},
 																							},
 																						},
@@ -35224,10 +35268,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 805, col: 8, offset: 25954},
 																							expr: &actionExpr{
-																								pos: position{line: 2872, col: 10, offset: 90900},
+																								pos: position{line: 2876, col: 10, offset: 91003},
 																								run: (*parser).callonListContinuationElement1284,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2872, col: 10, offset: 90900},
+																									pos:        position{line: 2876, col: 10, offset: 91003},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35236,28 +35280,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2894, col: 8, offset: 91298},
+																							pos: position{line: 2898, col: 8, offset: 91401},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2881, col: 12, offset: 91071},
+																									pos: position{line: 2885, col: 12, offset: 91174},
 																									run: (*parser).callonListContinuationElement1287,
 																									expr: &choiceExpr{
-																										pos: position{line: 2881, col: 13, offset: 91072},
+																										pos: position{line: 2885, col: 13, offset: 91175},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 13, offset: 91072},
+																												pos:        position{line: 2885, col: 13, offset: 91175},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 20, offset: 91079},
+																												pos:        position{line: 2885, col: 20, offset: 91182},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2881, col: 29, offset: 91088},
+																												pos:        position{line: 2885, col: 29, offset: 91191},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35266,9 +35310,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2891, col: 8, offset: 91248},
+																									pos: position{line: 2895, col: 8, offset: 91351},
 																									expr: &anyMatcher{
-																										line: 2891, col: 9, offset: 91249,
+																										line: 2895, col: 9, offset: 91352,
 																									},
 																								},
 																							},
@@ -35284,9 +35328,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2891, col: 8, offset: 91248},
+																	pos: position{line: 2895, col: 8, offset: 91351},
 																	expr: &anyMatcher{
-																		line: 2891, col: 9, offset: 91249,
+																		line: 2895, col: 9, offset: 91352,
 																	},
 																},
 															},
@@ -35297,52 +35341,52 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2717, col: 18, offset: 86474},
+										pos: position{line: 2721, col: 18, offset: 86577},
 										run: (*parser).callonListContinuationElement1297,
 										expr: &seqExpr{
-											pos: position{line: 2717, col: 18, offset: 86474},
+											pos: position{line: 2721, col: 18, offset: 86577},
 											exprs: []interface{}{
 												&choiceExpr{
-													pos: position{line: 2718, col: 9, offset: 86484},
+													pos: position{line: 2722, col: 9, offset: 86587},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2718, col: 9, offset: 86484},
+															pos:        position{line: 2722, col: 9, offset: 86587},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2719, col: 11, offset: 86520},
+															pos:        position{line: 2723, col: 11, offset: 86623},
 															val:        "***",
 															ignoreCase: false,
 															want:       "\"***\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2719, col: 19, offset: 86528},
+															pos:        position{line: 2723, col: 19, offset: 86631},
 															val:        "* * *",
 															ignoreCase: false,
 															want:       "\"* * *\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2719, col: 29, offset: 86538},
+															pos:        position{line: 2723, col: 29, offset: 86641},
 															val:        "---",
 															ignoreCase: false,
 															want:       "\"---\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2719, col: 37, offset: 86546},
+															pos:        position{line: 2723, col: 37, offset: 86649},
 															val:        "- - -",
 															ignoreCase: false,
 															want:       "\"- - -\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2719, col: 47, offset: 86556},
+															pos:        position{line: 2723, col: 47, offset: 86659},
 															val:        "___",
 															ignoreCase: false,
 															want:       "\"___\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2719, col: 55, offset: 86564},
+															pos:        position{line: 2723, col: 55, offset: 86667},
 															val:        "_ _ _",
 															ignoreCase: false,
 															want:       "\"_ _ _\"",
@@ -35350,12 +35394,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2720, col: 11, offset: 86610},
+													pos: position{line: 2724, col: 11, offset: 86713},
 													expr: &actionExpr{
-														pos: position{line: 2872, col: 10, offset: 90900},
+														pos: position{line: 2876, col: 10, offset: 91003},
 														run: (*parser).callonListContinuationElement1308,
 														expr: &charClassMatcher{
-															pos:        position{line: 2872, col: 10, offset: 90900},
+															pos:        position{line: 2876, col: 10, offset: 91003},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35364,28 +35408,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2894, col: 8, offset: 91298},
+													pos: position{line: 2898, col: 8, offset: 91401},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2881, col: 12, offset: 91071},
+															pos: position{line: 2885, col: 12, offset: 91174},
 															run: (*parser).callonListContinuationElement1311,
 															expr: &choiceExpr{
-																pos: position{line: 2881, col: 13, offset: 91072},
+																pos: position{line: 2885, col: 13, offset: 91175},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2881, col: 13, offset: 91072},
+																		pos:        position{line: 2885, col: 13, offset: 91175},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2881, col: 20, offset: 91079},
+																		pos:        position{line: 2885, col: 20, offset: 91182},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2881, col: 29, offset: 91088},
+																		pos:        position{line: 2885, col: 29, offset: 91191},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35394,20 +35438,20 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2891, col: 8, offset: 91248},
+															pos: position{line: 2895, col: 8, offset: 91351},
 															expr: &anyMatcher{
-																line: 2891, col: 9, offset: 91249,
+																line: 2895, col: 9, offset: 91352,
 															},
 														},
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2720, col: 22, offset: 86621},
+													pos: position{line: 2724, col: 22, offset: 86724},
 													expr: &actionExpr{
-														pos: position{line: 2872, col: 10, offset: 90900},
+														pos: position{line: 2876, col: 10, offset: 91003},
 														run: (*parser).callonListContinuationElement1319,
 														expr: &charClassMatcher{
-															pos:        position{line: 2872, col: 10, offset: 90900},
+															pos:        position{line: 2876, col: 10, offset: 91003},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35416,28 +35460,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2894, col: 8, offset: 91298},
+													pos: position{line: 2898, col: 8, offset: 91401},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2881, col: 12, offset: 91071},
+															pos: position{line: 2885, col: 12, offset: 91174},
 															run: (*parser).callonListContinuationElement1322,
 															expr: &choiceExpr{
-																pos: position{line: 2881, col: 13, offset: 91072},
+																pos: position{line: 2885, col: 13, offset: 91175},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2881, col: 13, offset: 91072},
+																		pos:        position{line: 2885, col: 13, offset: 91175},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2881, col: 20, offset: 91079},
+																		pos:        position{line: 2885, col: 20, offset: 91182},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2881, col: 29, offset: 91088},
+																		pos:        position{line: 2885, col: 29, offset: 91191},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35446,9 +35490,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2891, col: 8, offset: 91248},
+															pos: position{line: 2895, col: 8, offset: 91351},
 															expr: &anyMatcher{
-																line: 2891, col: 9, offset: 91249,
+																line: 2895, col: 9, offset: 91352,
 															},
 														},
 													},
@@ -35457,28 +35501,28 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1554, col: 11, offset: 50319},
+										pos:  position{line: 1558, col: 11, offset: 50422},
 										name: "ImageBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2608, col: 5, offset: 83410},
+										pos: position{line: 2612, col: 5, offset: 83513},
 										run: (*parser).callonListContinuationElement1330,
 										expr: &seqExpr{
-											pos: position{line: 2608, col: 5, offset: 83410},
+											pos: position{line: 2612, col: 5, offset: 83513},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2614, col: 19, offset: 83567},
+													pos:        position{line: 2618, col: 19, offset: 83670},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2614, col: 26, offset: 83574},
+													pos: position{line: 2618, col: 26, offset: 83677},
 													expr: &actionExpr{
-														pos: position{line: 2872, col: 10, offset: 90900},
+														pos: position{line: 2876, col: 10, offset: 91003},
 														run: (*parser).callonListContinuationElement1334,
 														expr: &charClassMatcher{
-															pos:        position{line: 2872, col: 10, offset: 90900},
+															pos:        position{line: 2876, col: 10, offset: 91003},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35487,28 +35531,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2894, col: 8, offset: 91298},
+													pos: position{line: 2898, col: 8, offset: 91401},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2881, col: 12, offset: 91071},
+															pos: position{line: 2885, col: 12, offset: 91174},
 															run: (*parser).callonListContinuationElement1337,
 															expr: &choiceExpr{
-																pos: position{line: 2881, col: 13, offset: 91072},
+																pos: position{line: 2885, col: 13, offset: 91175},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2881, col: 13, offset: 91072},
+																		pos:        position{line: 2885, col: 13, offset: 91175},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2881, col: 20, offset: 91079},
+																		pos:        position{line: 2885, col: 20, offset: 91182},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2881, col: 29, offset: 91088},
+																		pos:        position{line: 2885, col: 29, offset: 91191},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35517,20 +35561,20 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2891, col: 8, offset: 91248},
+															pos: position{line: 2895, col: 8, offset: 91351},
 															expr: &anyMatcher{
-																line: 2891, col: 9, offset: 91249,
+																line: 2895, col: 9, offset: 91352,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2609, col: 5, offset: 83434},
+													pos:   position{line: 2613, col: 5, offset: 83537},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2609, col: 11, offset: 83440},
+														pos: position{line: 2613, col: 11, offset: 83543},
 														expr: &choiceExpr{
-															pos: position{line: 2609, col: 12, offset: 83441},
+															pos: position{line: 2613, col: 12, offset: 83544},
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 676, col: 14, offset: 21496},
@@ -35539,18 +35583,18 @@ var g = &grammar{
 																		pos: position{line: 676, col: 14, offset: 21496},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2889, col: 11, offset: 91234},
+																				pos: position{line: 2893, col: 11, offset: 91337},
 																				expr: &anyMatcher{
-																					line: 2889, col: 13, offset: 91236,
+																					line: 2893, col: 13, offset: 91339,
 																				},
 																			},
 																			&zeroOrMoreExpr{
 																				pos: position{line: 676, col: 21, offset: 21503},
 																				expr: &actionExpr{
-																					pos: position{line: 2872, col: 10, offset: 90900},
+																					pos: position{line: 2876, col: 10, offset: 91003},
 																					run: (*parser).callonListContinuationElement1352,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2872, col: 10, offset: 90900},
+																						pos:        position{line: 2876, col: 10, offset: 91003},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -35559,28 +35603,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2894, col: 8, offset: 91298},
+																				pos: position{line: 2898, col: 8, offset: 91401},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2881, col: 12, offset: 91071},
+																						pos: position{line: 2885, col: 12, offset: 91174},
 																						run: (*parser).callonListContinuationElement1355,
 																						expr: &choiceExpr{
-																							pos: position{line: 2881, col: 13, offset: 91072},
+																							pos: position{line: 2885, col: 13, offset: 91175},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2881, col: 13, offset: 91072},
+																									pos:        position{line: 2885, col: 13, offset: 91175},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2881, col: 20, offset: 91079},
+																									pos:        position{line: 2885, col: 20, offset: 91182},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2881, col: 29, offset: 91088},
+																									pos:        position{line: 2885, col: 29, offset: 91191},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35589,9 +35633,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2891, col: 8, offset: 91248},
+																						pos: position{line: 2895, col: 8, offset: 91351},
 																						expr: &anyMatcher{
-																							line: 2891, col: 9, offset: 91249,
+																							line: 2895, col: 9, offset: 91352,
 																						},
 																					},
 																				},
@@ -35600,32 +35644,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2621, col: 5, offset: 83686},
+																	pos: position{line: 2625, col: 5, offset: 83789},
 																	run: (*parser).callonListContinuationElement1362,
 																	expr: &seqExpr{
-																		pos: position{line: 2621, col: 5, offset: 83686},
+																		pos: position{line: 2625, col: 5, offset: 83789},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2621, col: 5, offset: 83686},
+																				pos: position{line: 2625, col: 5, offset: 83789},
 																				expr: &choiceExpr{
-																					pos: position{line: 2618, col: 22, offset: 83647},
+																					pos: position{line: 2622, col: 22, offset: 83750},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2614, col: 19, offset: 83567},
+																							pos: position{line: 2618, col: 19, offset: 83670},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2614, col: 19, offset: 83567},
+																									pos:        position{line: 2618, col: 19, offset: 83670},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2614, col: 26, offset: 83574},
+																									pos: position{line: 2618, col: 26, offset: 83677},
 																									expr: &actionExpr{
-																										pos: position{line: 2872, col: 10, offset: 90900},
+																										pos: position{line: 2876, col: 10, offset: 91003},
 																										run: (*parser).callonListContinuationElement1369,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2872, col: 10, offset: 90900},
+																											pos:        position{line: 2876, col: 10, offset: 91003},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -35634,28 +35678,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2894, col: 8, offset: 91298},
+																									pos: position{line: 2898, col: 8, offset: 91401},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2881, col: 12, offset: 91071},
+																											pos: position{line: 2885, col: 12, offset: 91174},
 																											run: (*parser).callonListContinuationElement1372,
 																											expr: &choiceExpr{
-																												pos: position{line: 2881, col: 13, offset: 91072},
+																												pos: position{line: 2885, col: 13, offset: 91175},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2881, col: 13, offset: 91072},
+																														pos:        position{line: 2885, col: 13, offset: 91175},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2881, col: 20, offset: 91079},
+																														pos:        position{line: 2885, col: 20, offset: 91182},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2881, col: 29, offset: 91088},
+																														pos:        position{line: 2885, col: 29, offset: 91191},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -35664,9 +35708,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2891, col: 8, offset: 91248},
+																											pos: position{line: 2895, col: 8, offset: 91351},
 																											expr: &anyMatcher{
-																												line: 2891, col: 9, offset: 91249,
+																												line: 2895, col: 9, offset: 91352,
 																											},
 																										},
 																									},
@@ -35674,59 +35718,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2891, col: 8, offset: 91248},
+																							pos: position{line: 2895, col: 8, offset: 91351},
 																							expr: &anyMatcher{
-																								line: 2891, col: 9, offset: 91249,
+																								line: 2895, col: 9, offset: 91352,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2622, col: 5, offset: 83709},
+																				pos:   position{line: 2626, col: 5, offset: 83812},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2623, col: 9, offset: 83727},
+																					pos: position{line: 2627, col: 9, offset: 83830},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2623, col: 10, offset: 83728},
+																							pos: position{line: 2627, col: 10, offset: 83831},
 																							run: (*parser).callonListContinuationElement1383,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2623, col: 10, offset: 83728},
+																								pos:   position{line: 2627, col: 10, offset: 83831},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2623, col: 17, offset: 83735},
+																									pos: position{line: 2627, col: 17, offset: 83838},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2631, col: 21, offset: 83931},
+																											pos: position{line: 2635, col: 21, offset: 84034},
 																											run: (*parser).callonListContinuationElement1386,
 																											expr: &seqExpr{
-																												pos: position{line: 2631, col: 21, offset: 83931},
+																												pos: position{line: 2635, col: 21, offset: 84034},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2631, col: 21, offset: 83931},
+																														pos:   position{line: 2635, col: 21, offset: 84034},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2631, col: 27, offset: 83937},
+																															pos: position{line: 2635, col: 27, offset: 84040},
 																															expr: &actionExpr{
-																																pos: position{line: 2636, col: 5, offset: 84012},
+																																pos: position{line: 2640, col: 5, offset: 84115},
 																																run: (*parser).callonListContinuationElement1390,
 																																expr: &seqExpr{
-																																	pos: position{line: 2636, col: 5, offset: 84012},
+																																	pos: position{line: 2640, col: 5, offset: 84115},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2636, col: 5, offset: 84012},
+																																			pos:        position{line: 2640, col: 5, offset: 84115},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2636, col: 9, offset: 84016},
+																																			pos: position{line: 2640, col: 9, offset: 84119},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2872, col: 10, offset: 90900},
+																																				pos: position{line: 2876, col: 10, offset: 91003},
 																																				run: (*parser).callonListContinuationElement1394,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2872, col: 10, offset: 90900},
+																																					pos:        position{line: 2876, col: 10, offset: 91003},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -35735,21 +35779,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2636, col: 16, offset: 84023},
+																																			pos:   position{line: 2640, col: 16, offset: 84126},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2642, col: 5, offset: 84223},
+																																				pos: position{line: 2646, col: 5, offset: 84326},
 																																				run: (*parser).callonListContinuationElement1397,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2642, col: 5, offset: 84223},
+																																					pos:   position{line: 2646, col: 5, offset: 84326},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2642, col: 14, offset: 84232},
+																																						pos: position{line: 2646, col: 14, offset: 84335},
 																																						run: (*parser).callonListContinuationElement1399,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2642, col: 14, offset: 84232},
+																																							pos: position{line: 2646, col: 14, offset: 84335},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2642, col: 14, offset: 84232},
+																																								pos:        position{line: 2646, col: 14, offset: 84335},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -35766,28 +35810,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2894, col: 8, offset: 91298},
+																														pos: position{line: 2898, col: 8, offset: 91401},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2881, col: 12, offset: 91071},
+																																pos: position{line: 2885, col: 12, offset: 91174},
 																																run: (*parser).callonListContinuationElement1403,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2881, col: 13, offset: 91072},
+																																	pos: position{line: 2885, col: 13, offset: 91175},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2881, col: 13, offset: 91072},
+																																			pos:        position{line: 2885, col: 13, offset: 91175},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2881, col: 20, offset: 91079},
+																																			pos:        position{line: 2885, col: 20, offset: 91182},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2881, col: 29, offset: 91088},
+																																			pos:        position{line: 2885, col: 29, offset: 91191},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -35796,9 +35840,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2891, col: 8, offset: 91248},
+																																pos: position{line: 2895, col: 8, offset: 91351},
 																																expr: &anyMatcher{
-																																	line: 2891, col: 9, offset: 91249,
+																																	line: 2895, col: 9, offset: 91352,
 																																},
 																															},
 																														},
@@ -35807,40 +35851,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2648, col: 24, offset: 84368},
+																											pos: position{line: 2652, col: 24, offset: 84471},
 																											run: (*parser).callonListContinuationElement1410,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2648, col: 24, offset: 84368},
+																												pos:   position{line: 2652, col: 24, offset: 84471},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2648, col: 30, offset: 84374},
+																													pos: position{line: 2652, col: 30, offset: 84477},
 																													expr: &actionExpr{
-																														pos: position{line: 2653, col: 5, offset: 84450},
+																														pos: position{line: 2657, col: 5, offset: 84553},
 																														run: (*parser).callonListContinuationElement1413,
 																														expr: &seqExpr{
-																															pos: position{line: 2653, col: 5, offset: 84450},
+																															pos: position{line: 2657, col: 5, offset: 84553},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2653, col: 5, offset: 84450},
+																																	pos: position{line: 2657, col: 5, offset: 84553},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2618, col: 22, offset: 83647},
+																																		pos: position{line: 2622, col: 22, offset: 83750},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2614, col: 19, offset: 83567},
+																																				pos: position{line: 2618, col: 19, offset: 83670},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2614, col: 19, offset: 83567},
+																																						pos:        position{line: 2618, col: 19, offset: 83670},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2614, col: 26, offset: 83574},
+																																						pos: position{line: 2618, col: 26, offset: 83677},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2872, col: 10, offset: 90900},
+																																							pos: position{line: 2876, col: 10, offset: 91003},
 																																							run: (*parser).callonListContinuationElement1420,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2872, col: 10, offset: 90900},
+																																								pos:        position{line: 2876, col: 10, offset: 91003},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -35849,28 +35893,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2894, col: 8, offset: 91298},
+																																						pos: position{line: 2898, col: 8, offset: 91401},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2881, col: 12, offset: 91071},
+																																								pos: position{line: 2885, col: 12, offset: 91174},
 																																								run: (*parser).callonListContinuationElement1423,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2881, col: 13, offset: 91072},
+																																									pos: position{line: 2885, col: 13, offset: 91175},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2881, col: 13, offset: 91072},
+																																											pos:        position{line: 2885, col: 13, offset: 91175},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2881, col: 20, offset: 91079},
+																																											pos:        position{line: 2885, col: 20, offset: 91182},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2881, col: 29, offset: 91088},
+																																											pos:        position{line: 2885, col: 29, offset: 91191},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -35879,9 +35923,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2891, col: 8, offset: 91248},
+																																								pos: position{line: 2895, col: 8, offset: 91351},
 																																								expr: &anyMatcher{
-																																									line: 2891, col: 9, offset: 91249,
+																																									line: 2895, col: 9, offset: 91352,
 																																								},
 																																							},
 																																						},
@@ -35889,16 +35933,16 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2891, col: 8, offset: 91248},
+																																				pos: position{line: 2895, col: 8, offset: 91351},
 																																				expr: &anyMatcher{
-																																					line: 2891, col: 9, offset: 91249,
+																																					line: 2895, col: 9, offset: 91352,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2654, col: 5, offset: 84473},
+																																	pos: position{line: 2658, col: 5, offset: 84576},
 																																	expr: &actionExpr{
 																																		pos: position{line: 676, col: 14, offset: 21496},
 																																		run: (*parser).callonListContinuationElement1433,
@@ -35906,18 +35950,18 @@ var g = &grammar{
 																																			pos: position{line: 676, col: 14, offset: 21496},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2889, col: 11, offset: 91234},
+																																					pos: position{line: 2893, col: 11, offset: 91337},
 																																					expr: &anyMatcher{
-																																						line: 2889, col: 13, offset: 91236,
+																																						line: 2893, col: 13, offset: 91339,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
 																																					pos: position{line: 676, col: 21, offset: 21503},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2872, col: 10, offset: 90900},
+																																						pos: position{line: 2876, col: 10, offset: 91003},
 																																						run: (*parser).callonListContinuationElement1438,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2872, col: 10, offset: 90900},
+																																							pos:        position{line: 2876, col: 10, offset: 91003},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -35926,28 +35970,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2894, col: 8, offset: 91298},
+																																					pos: position{line: 2898, col: 8, offset: 91401},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2881, col: 12, offset: 91071},
+																																							pos: position{line: 2885, col: 12, offset: 91174},
 																																							run: (*parser).callonListContinuationElement1441,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2881, col: 13, offset: 91072},
+																																								pos: position{line: 2885, col: 13, offset: 91175},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2881, col: 13, offset: 91072},
+																																										pos:        position{line: 2885, col: 13, offset: 91175},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2881, col: 20, offset: 91079},
+																																										pos:        position{line: 2885, col: 20, offset: 91182},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2881, col: 29, offset: 91088},
+																																										pos:        position{line: 2885, col: 29, offset: 91191},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -35956,9 +36000,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2891, col: 8, offset: 91248},
+																																							pos: position{line: 2895, col: 8, offset: 91351},
 																																							expr: &anyMatcher{
-																																								line: 2891, col: 9, offset: 91249,
+																																								line: 2895, col: 9, offset: 91352,
 																																							},
 																																						},
 																																					},
@@ -35968,17 +36012,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2655, col: 5, offset: 84488},
+																																	pos:   position{line: 2659, col: 5, offset: 84591},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2655, col: 12, offset: 84495},
+																																		pos: position{line: 2659, col: 12, offset: 84598},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2672, col: 20, offset: 84959},
+																																			pos: position{line: 2676, col: 20, offset: 85062},
 																																			run: (*parser).callonListContinuationElement1450,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2672, col: 20, offset: 84959},
+																																				pos: position{line: 2676, col: 20, offset: 85062},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2672, col: 20, offset: 84959},
+																																					pos:        position{line: 2676, col: 20, offset: 85062},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -35989,18 +36033,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2655, col: 31, offset: 84514},
+																																	pos:        position{line: 2659, col: 31, offset: 84617},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2655, col: 35, offset: 84518},
+																																	pos: position{line: 2659, col: 35, offset: 84621},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2872, col: 10, offset: 90900},
+																																		pos: position{line: 2876, col: 10, offset: 91003},
 																																		run: (*parser).callonListContinuationElement1455,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2872, col: 10, offset: 90900},
+																																			pos:        position{line: 2876, col: 10, offset: 91003},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -36009,27 +36053,27 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2655, col: 42, offset: 84525},
+																																	pos: position{line: 2659, col: 42, offset: 84628},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2881, col: 12, offset: 91071},
+																																		pos: position{line: 2885, col: 12, offset: 91174},
 																																		run: (*parser).callonListContinuationElement1458,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2881, col: 13, offset: 91072},
+																																			pos: position{line: 2885, col: 13, offset: 91175},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2881, col: 13, offset: 91072},
+																																					pos:        position{line: 2885, col: 13, offset: 91175},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2881, col: 20, offset: 91079},
+																																					pos:        position{line: 2885, col: 20, offset: 91182},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2881, col: 29, offset: 91088},
+																																					pos:        position{line: 2885, col: 29, offset: 91191},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -36039,37 +36083,37 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2655, col: 51, offset: 84534},
+																																	pos:   position{line: 2659, col: 51, offset: 84637},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2661, col: 5, offset: 84693},
+																																		pos: position{line: 2665, col: 5, offset: 84796},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2662, col: 9, offset: 84703},
+																																			pos: position{line: 2666, col: 9, offset: 84806},
 																																			run: (*parser).callonListContinuationElement1465,
 																																			expr: &seqExpr{
-																																				pos: position{line: 2662, col: 9, offset: 84703},
+																																				pos: position{line: 2666, col: 9, offset: 84806},
 																																				exprs: []interface{}{
 																																					&notExpr{
-																																						pos: position{line: 2662, col: 9, offset: 84703},
+																																						pos: position{line: 2666, col: 9, offset: 84806},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2618, col: 22, offset: 83647},
+																																							pos: position{line: 2622, col: 22, offset: 83750},
 																																							alternatives: []interface{}{
 																																								&seqExpr{
-																																									pos: position{line: 2614, col: 19, offset: 83567},
+																																									pos: position{line: 2618, col: 19, offset: 83670},
 																																									exprs: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2614, col: 19, offset: 83567},
+																																											pos:        position{line: 2618, col: 19, offset: 83670},
 																																											val:        "|===",
 																																											ignoreCase: false,
 																																											want:       "\"|===\"",
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 2614, col: 26, offset: 83574},
+																																											pos: position{line: 2618, col: 26, offset: 83677},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2872, col: 10, offset: 90900},
+																																												pos: position{line: 2876, col: 10, offset: 91003},
 																																												run: (*parser).callonListContinuationElement1472,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2872, col: 10, offset: 90900},
+																																													pos:        position{line: 2876, col: 10, offset: 91003},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -36078,28 +36122,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2894, col: 8, offset: 91298},
+																																											pos: position{line: 2898, col: 8, offset: 91401},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2881, col: 12, offset: 91071},
+																																													pos: position{line: 2885, col: 12, offset: 91174},
 																																													run: (*parser).callonListContinuationElement1475,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2881, col: 13, offset: 91072},
+																																														pos: position{line: 2885, col: 13, offset: 91175},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2881, col: 13, offset: 91072},
+																																																pos:        position{line: 2885, col: 13, offset: 91175},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2881, col: 20, offset: 91079},
+																																																pos:        position{line: 2885, col: 20, offset: 91182},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2881, col: 29, offset: 91088},
+																																																pos:        position{line: 2885, col: 29, offset: 91191},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -36108,9 +36152,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2891, col: 8, offset: 91248},
+																																													pos: position{line: 2895, col: 8, offset: 91351},
 																																													expr: &anyMatcher{
-																																														line: 2891, col: 9, offset: 91249,
+																																														line: 2895, col: 9, offset: 91352,
 																																													},
 																																												},
 																																											},
@@ -36118,16 +36162,16 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2891, col: 8, offset: 91248},
+																																									pos: position{line: 2895, col: 8, offset: 91351},
 																																									expr: &anyMatcher{
-																																										line: 2891, col: 9, offset: 91249,
+																																										line: 2895, col: 9, offset: 91352,
 																																									},
 																																								},
 																																							},
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2663, col: 9, offset: 84730},
+																																						pos: position{line: 2667, col: 9, offset: 84833},
 																																						expr: &actionExpr{
 																																							pos: position{line: 676, col: 14, offset: 21496},
 																																							run: (*parser).callonListContinuationElement1485,
@@ -36135,18 +36179,18 @@ var g = &grammar{
 																																								pos: position{line: 676, col: 14, offset: 21496},
 																																								exprs: []interface{}{
 																																									&andExpr{
-																																										pos: position{line: 2889, col: 11, offset: 91234},
+																																										pos: position{line: 2893, col: 11, offset: 91337},
 																																										expr: &anyMatcher{
-																																											line: 2889, col: 13, offset: 91236,
+																																											line: 2893, col: 13, offset: 91339,
 																																										},
 																																									},
 																																									&zeroOrMoreExpr{
 																																										pos: position{line: 676, col: 21, offset: 21503},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2872, col: 10, offset: 90900},
+																																											pos: position{line: 2876, col: 10, offset: 91003},
 																																											run: (*parser).callonListContinuationElement1490,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2872, col: 10, offset: 90900},
+																																												pos:        position{line: 2876, col: 10, offset: 91003},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -36155,28 +36199,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2894, col: 8, offset: 91298},
+																																										pos: position{line: 2898, col: 8, offset: 91401},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2881, col: 12, offset: 91071},
+																																												pos: position{line: 2885, col: 12, offset: 91174},
 																																												run: (*parser).callonListContinuationElement1493,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2881, col: 13, offset: 91072},
+																																													pos: position{line: 2885, col: 13, offset: 91175},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2881, col: 13, offset: 91072},
+																																															pos:        position{line: 2885, col: 13, offset: 91175},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2881, col: 20, offset: 91079},
+																																															pos:        position{line: 2885, col: 20, offset: 91182},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2881, col: 29, offset: 91088},
+																																															pos:        position{line: 2885, col: 29, offset: 91191},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -36185,9 +36229,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2891, col: 8, offset: 91248},
+																																												pos: position{line: 2895, col: 8, offset: 91351},
 																																												expr: &anyMatcher{
-																																													line: 2891, col: 9, offset: 91249,
+																																													line: 2895, col: 9, offset: 91352,
 																																												},
 																																											},
 																																										},
@@ -36197,22 +36241,22 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2664, col: 9, offset: 84749},
+																																						pos: position{line: 2668, col: 9, offset: 84852},
 																																						expr: &seqExpr{
-																																							pos: position{line: 2664, col: 11, offset: 84751},
+																																							pos: position{line: 2668, col: 11, offset: 84854},
 																																							exprs: []interface{}{
 																																								&labeledExpr{
-																																									pos:   position{line: 2664, col: 11, offset: 84751},
+																																									pos:   position{line: 2668, col: 11, offset: 84854},
 																																									label: "format",
 																																									expr: &zeroOrOneExpr{
-																																										pos: position{line: 2664, col: 18, offset: 84758},
+																																										pos: position{line: 2668, col: 18, offset: 84861},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2672, col: 20, offset: 84959},
+																																											pos: position{line: 2676, col: 20, offset: 85062},
 																																											run: (*parser).callonListContinuationElement1504,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2672, col: 20, offset: 84959},
+																																												pos: position{line: 2676, col: 20, offset: 85062},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2672, col: 20, offset: 84959},
+																																													pos:        position{line: 2676, col: 20, offset: 85062},
 																																													val:        "[^ |\\r\\n]",
 																																													chars:      []rune{' ', '|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -36223,7 +36267,7 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&litMatcher{
-																																									pos:        position{line: 2664, col: 37, offset: 84777},
+																																									pos:        position{line: 2668, col: 37, offset: 84880},
 																																									val:        "|",
 																																									ignoreCase: false,
 																																									want:       "\"|\"",
@@ -36232,15 +36276,15 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2665, col: 9, offset: 84790},
+																																						pos:   position{line: 2669, col: 9, offset: 84893},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2665, col: 18, offset: 84799},
+																																							pos: position{line: 2669, col: 18, offset: 84902},
 																																							run: (*parser).callonListContinuationElement1509,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2665, col: 18, offset: 84799},
+																																								pos: position{line: 2669, col: 18, offset: 84902},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2665, col: 18, offset: 84799},
+																																									pos:        position{line: 2669, col: 18, offset: 84902},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -36250,30 +36294,30 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&zeroOrOneExpr{
-																																						pos: position{line: 2667, col: 12, offset: 84861},
+																																						pos: position{line: 2671, col: 12, offset: 84964},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2894, col: 8, offset: 91298},
+																																							pos: position{line: 2898, col: 8, offset: 91401},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2881, col: 12, offset: 91071},
+																																									pos: position{line: 2885, col: 12, offset: 91174},
 																																									run: (*parser).callonListContinuationElement1514,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2881, col: 13, offset: 91072},
+																																										pos: position{line: 2885, col: 13, offset: 91175},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2881, col: 13, offset: 91072},
+																																												pos:        position{line: 2885, col: 13, offset: 91175},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2881, col: 20, offset: 91079},
+																																												pos:        position{line: 2885, col: 20, offset: 91182},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2881, col: 29, offset: 91088},
+																																												pos:        position{line: 2885, col: 29, offset: 91191},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -36282,9 +36326,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2891, col: 8, offset: 91248},
+																																									pos: position{line: 2895, col: 8, offset: 91351},
 																																									expr: &anyMatcher{
-																																										line: 2891, col: 9, offset: 91249,
+																																										line: 2895, col: 9, offset: 91352,
 																																									},
 																																								},
 																																							},
@@ -36312,18 +36356,18 @@ var g = &grammar{
 																								pos: position{line: 676, col: 14, offset: 21496},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2889, col: 11, offset: 91234},
+																										pos: position{line: 2893, col: 11, offset: 91337},
 																										expr: &anyMatcher{
-																											line: 2889, col: 13, offset: 91236,
+																											line: 2893, col: 13, offset: 91339,
 																										},
 																									},
 																									&zeroOrMoreExpr{
 																										pos: position{line: 676, col: 21, offset: 21503},
 																										expr: &actionExpr{
-																											pos: position{line: 2872, col: 10, offset: 90900},
+																											pos: position{line: 2876, col: 10, offset: 91003},
 																											run: (*parser).callonListContinuationElement1526,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2872, col: 10, offset: 90900},
+																												pos:        position{line: 2876, col: 10, offset: 91003},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -36332,28 +36376,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2894, col: 8, offset: 91298},
+																										pos: position{line: 2898, col: 8, offset: 91401},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2881, col: 12, offset: 91071},
+																												pos: position{line: 2885, col: 12, offset: 91174},
 																												run: (*parser).callonListContinuationElement1529,
 																												expr: &choiceExpr{
-																													pos: position{line: 2881, col: 13, offset: 91072},
+																													pos: position{line: 2885, col: 13, offset: 91175},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2881, col: 13, offset: 91072},
+																															pos:        position{line: 2885, col: 13, offset: 91175},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2881, col: 20, offset: 91079},
+																															pos:        position{line: 2885, col: 20, offset: 91182},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2881, col: 29, offset: 91088},
+																															pos:        position{line: 2885, col: 29, offset: 91191},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -36362,9 +36406,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2891, col: 8, offset: 91248},
+																												pos: position{line: 2895, col: 8, offset: 91351},
 																												expr: &anyMatcher{
-																													line: 2891, col: 9, offset: 91249,
+																													line: 2895, col: 9, offset: 91352,
 																												},
 																											},
 																										},
@@ -36383,24 +36427,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2618, col: 22, offset: 83647},
+													pos: position{line: 2622, col: 22, offset: 83750},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2614, col: 19, offset: 83567},
+															pos: position{line: 2618, col: 19, offset: 83670},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2614, col: 19, offset: 83567},
+																	pos:        position{line: 2618, col: 19, offset: 83670},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2614, col: 26, offset: 83574},
+																	pos: position{line: 2618, col: 26, offset: 83677},
 																	expr: &actionExpr{
-																		pos: position{line: 2872, col: 10, offset: 90900},
+																		pos: position{line: 2876, col: 10, offset: 91003},
 																		run: (*parser).callonListContinuationElement1540,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2872, col: 10, offset: 90900},
+																			pos:        position{line: 2876, col: 10, offset: 91003},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -36409,28 +36453,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2894, col: 8, offset: 91298},
+																	pos: position{line: 2898, col: 8, offset: 91401},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2881, col: 12, offset: 91071},
+																			pos: position{line: 2885, col: 12, offset: 91174},
 																			run: (*parser).callonListContinuationElement1543,
 																			expr: &choiceExpr{
-																				pos: position{line: 2881, col: 13, offset: 91072},
+																				pos: position{line: 2885, col: 13, offset: 91175},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 13, offset: 91072},
+																						pos:        position{line: 2885, col: 13, offset: 91175},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 20, offset: 91079},
+																						pos:        position{line: 2885, col: 20, offset: 91182},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 29, offset: 91088},
+																						pos:        position{line: 2885, col: 29, offset: 91191},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36439,9 +36483,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2891, col: 8, offset: 91248},
+																			pos: position{line: 2895, col: 8, offset: 91351},
 																			expr: &anyMatcher{
-																				line: 2891, col: 9, offset: 91249,
+																				line: 2895, col: 9, offset: 91352,
 																			},
 																		},
 																	},
@@ -36449,9 +36493,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2891, col: 8, offset: 91248},
+															pos: position{line: 2895, col: 8, offset: 91351},
 															expr: &anyMatcher{
-																line: 2891, col: 9, offset: 91249,
+																line: 2895, col: 9, offset: 91352,
 															},
 														},
 													},
@@ -36460,36 +36504,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2479, col: 22, offset: 79786},
+										pos: position{line: 2483, col: 22, offset: 79889},
 										run: (*parser).callonListContinuationElement1552,
 										expr: &seqExpr{
-											pos: position{line: 2479, col: 22, offset: 79786},
+											pos: position{line: 2483, col: 22, offset: 79889},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2484, col: 31, offset: 80007},
+													pos:        position{line: 2488, col: 31, offset: 80110},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2484, col: 36, offset: 80012},
+													pos: position{line: 2488, col: 36, offset: 80115},
 													expr: &litMatcher{
-														pos:        position{line: 2484, col: 37, offset: 80013},
+														pos:        position{line: 2488, col: 37, offset: 80116},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2479, col: 49, offset: 79813},
+													pos:   position{line: 2483, col: 49, offset: 79916},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2818, col: 13, offset: 89426},
+														pos: position{line: 2822, col: 13, offset: 89529},
 														run: (*parser).callonListContinuationElement1558,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2818, col: 13, offset: 89426},
+															pos: position{line: 2822, col: 13, offset: 89529},
 															expr: &charClassMatcher{
-																pos:        position{line: 2818, col: 13, offset: 89426},
+																pos:        position{line: 2822, col: 13, offset: 89529},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -36499,28 +36543,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2894, col: 8, offset: 91298},
+													pos: position{line: 2898, col: 8, offset: 91401},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2881, col: 12, offset: 91071},
+															pos: position{line: 2885, col: 12, offset: 91174},
 															run: (*parser).callonListContinuationElement1562,
 															expr: &choiceExpr{
-																pos: position{line: 2881, col: 13, offset: 91072},
+																pos: position{line: 2885, col: 13, offset: 91175},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2881, col: 13, offset: 91072},
+																		pos:        position{line: 2885, col: 13, offset: 91175},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2881, col: 20, offset: 91079},
+																		pos:        position{line: 2885, col: 20, offset: 91182},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2881, col: 29, offset: 91088},
+																		pos:        position{line: 2885, col: 29, offset: 91191},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36529,9 +36573,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2891, col: 8, offset: 91248},
+															pos: position{line: 2895, col: 8, offset: 91351},
 															expr: &anyMatcher{
-																line: 2891, col: 9, offset: 91249,
+																line: 2895, col: 9, offset: 91352,
 															},
 														},
 													},
@@ -36540,94 +36584,94 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1567, col: 5, offset: 50749},
+										pos: position{line: 1571, col: 5, offset: 50852},
 										run: (*parser).callonListContinuationElement1569,
 										expr: &seqExpr{
-											pos: position{line: 1567, col: 5, offset: 50749},
+											pos: position{line: 1571, col: 5, offset: 50852},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1567, col: 5, offset: 50749},
+													pos:   position{line: 1571, col: 5, offset: 50852},
 													label: "style",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1567, col: 11, offset: 50755},
+														pos: position{line: 1571, col: 11, offset: 50858},
 														expr: &actionExpr{
-															pos: position{line: 1732, col: 5, offset: 56104},
+															pos: position{line: 1736, col: 5, offset: 56207},
 															run: (*parser).callonListContinuationElement1573,
 															expr: &seqExpr{
-																pos: position{line: 1732, col: 5, offset: 56104},
+																pos: position{line: 1736, col: 5, offset: 56207},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1732, col: 5, offset: 56104},
+																		pos: position{line: 1736, col: 5, offset: 56207},
 																		run: (*parser).callonListContinuationElement1575,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1735, col: 5, offset: 56167},
+																		pos:   position{line: 1739, col: 5, offset: 56270},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1735, col: 12, offset: 56174},
+																			pos: position{line: 1739, col: 12, offset: 56277},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1735, col: 12, offset: 56174},
+																					pos: position{line: 1739, col: 12, offset: 56277},
 																					run: (*parser).callonListContinuationElement1578,
 																					expr: &litMatcher{
-																						pos:        position{line: 1735, col: 12, offset: 56174},
+																						pos:        position{line: 1739, col: 12, offset: 56277},
 																						val:        "TIP: ",
 																						ignoreCase: false,
 																						want:       "\"TIP: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1737, col: 13, offset: 56230},
+																					pos: position{line: 1741, col: 13, offset: 56333},
 																					run: (*parser).callonListContinuationElement1580,
 																					expr: &litMatcher{
-																						pos:        position{line: 1737, col: 13, offset: 56230},
+																						pos:        position{line: 1741, col: 13, offset: 56333},
 																						val:        "NOTE: ",
 																						ignoreCase: false,
 																						want:       "\"NOTE: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1739, col: 13, offset: 56288},
+																					pos: position{line: 1743, col: 13, offset: 56391},
 																					run: (*parser).callonListContinuationElement1582,
 																					expr: &litMatcher{
-																						pos:        position{line: 1739, col: 13, offset: 56288},
+																						pos:        position{line: 1743, col: 13, offset: 56391},
 																						val:        "IMPORTANT: ",
 																						ignoreCase: false,
 																						want:       "\"IMPORTANT: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1741, col: 13, offset: 56356},
+																					pos: position{line: 1745, col: 13, offset: 56459},
 																					run: (*parser).callonListContinuationElement1584,
 																					expr: &litMatcher{
-																						pos:        position{line: 1741, col: 13, offset: 56356},
+																						pos:        position{line: 1745, col: 13, offset: 56459},
 																						val:        "WARNING: ",
 																						ignoreCase: false,
 																						want:       "\"WARNING: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1743, col: 13, offset: 56420},
+																					pos: position{line: 1747, col: 13, offset: 56523},
 																					run: (*parser).callonListContinuationElement1586,
 																					expr: &litMatcher{
-																						pos:        position{line: 1743, col: 13, offset: 56420},
+																						pos:        position{line: 1747, col: 13, offset: 56523},
 																						val:        "CAUTION: ",
 																						ignoreCase: false,
 																						want:       "\"CAUTION: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1745, col: 13, offset: 56484},
+																					pos: position{line: 1749, col: 13, offset: 56587},
 																					run: (*parser).callonListContinuationElement1588,
 																					expr: &andExpr{
-																						pos: position{line: 1745, col: 13, offset: 56484},
+																						pos: position{line: 1749, col: 13, offset: 56587},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 11, offset: 90961},
+																							pos: position{line: 2880, col: 11, offset: 91064},
 																							run: (*parser).callonListContinuationElement1590,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2876, col: 11, offset: 90961},
+																								pos: position{line: 2880, col: 11, offset: 91064},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 11, offset: 90961},
+																									pos:        position{line: 2880, col: 11, offset: 91064},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36641,17 +36685,17 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1747, col: 12, offset: 56554},
+																		pos: position{line: 1751, col: 12, offset: 56657},
 																		expr: &seqExpr{
-																			pos: position{line: 1747, col: 14, offset: 56556},
+																			pos: position{line: 1751, col: 14, offset: 56659},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1747, col: 14, offset: 56556},
+																					pos: position{line: 1751, col: 14, offset: 56659},
 																					expr: &actionExpr{
-																						pos: position{line: 2872, col: 10, offset: 90900},
+																						pos: position{line: 2876, col: 10, offset: 91003},
 																						run: (*parser).callonListContinuationElement1596,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2872, col: 10, offset: 90900},
+																							pos:        position{line: 2876, col: 10, offset: 91003},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36660,28 +36704,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2894, col: 8, offset: 91298},
+																					pos: position{line: 2898, col: 8, offset: 91401},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2881, col: 12, offset: 91071},
+																							pos: position{line: 2885, col: 12, offset: 91174},
 																							run: (*parser).callonListContinuationElement1599,
 																							expr: &choiceExpr{
-																								pos: position{line: 2881, col: 13, offset: 91072},
+																								pos: position{line: 2885, col: 13, offset: 91175},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2881, col: 13, offset: 91072},
+																										pos:        position{line: 2885, col: 13, offset: 91175},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2881, col: 20, offset: 91079},
+																										pos:        position{line: 2885, col: 20, offset: 91182},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2881, col: 29, offset: 91088},
+																										pos:        position{line: 2885, col: 29, offset: 91191},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -36690,9 +36734,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2891, col: 8, offset: 91248},
+																							pos: position{line: 2895, col: 8, offset: 91351},
 																							expr: &anyMatcher{
-																								line: 2891, col: 9, offset: 91249,
+																								line: 2895, col: 9, offset: 91352,
 																							},
 																						},
 																					},
@@ -36706,16 +36750,16 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1568, col: 5, offset: 50778},
+													pos:   position{line: 1572, col: 5, offset: 50881},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1511, col: 5, offset: 49128},
+														pos: position{line: 1515, col: 5, offset: 49231},
 														run: (*parser).callonListContinuationElement1607,
 														expr: &seqExpr{
-															pos: position{line: 1511, col: 5, offset: 49128},
+															pos: position{line: 1515, col: 5, offset: 49231},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1511, col: 5, offset: 49128},
+																	pos: position{line: 1515, col: 5, offset: 49231},
 																	expr: &actionExpr{
 																		pos: position{line: 676, col: 14, offset: 21496},
 																		run: (*parser).callonListContinuationElement1610,
@@ -36723,18 +36767,18 @@ var g = &grammar{
 																			pos: position{line: 676, col: 14, offset: 21496},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2889, col: 11, offset: 91234},
+																					pos: position{line: 2893, col: 11, offset: 91337},
 																					expr: &anyMatcher{
-																						line: 2889, col: 13, offset: 91236,
+																						line: 2893, col: 13, offset: 91339,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 676, col: 21, offset: 21503},
 																					expr: &actionExpr{
-																						pos: position{line: 2872, col: 10, offset: 90900},
+																						pos: position{line: 2876, col: 10, offset: 91003},
 																						run: (*parser).callonListContinuationElement1615,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2872, col: 10, offset: 90900},
+																							pos:        position{line: 2876, col: 10, offset: 91003},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36743,28 +36787,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2894, col: 8, offset: 91298},
+																					pos: position{line: 2898, col: 8, offset: 91401},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2881, col: 12, offset: 91071},
+																							pos: position{line: 2885, col: 12, offset: 91174},
 																							run: (*parser).callonListContinuationElement1618,
 																							expr: &choiceExpr{
-																								pos: position{line: 2881, col: 13, offset: 91072},
+																								pos: position{line: 2885, col: 13, offset: 91175},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2881, col: 13, offset: 91072},
+																										pos:        position{line: 2885, col: 13, offset: 91175},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2881, col: 20, offset: 91079},
+																										pos:        position{line: 2885, col: 20, offset: 91182},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2881, col: 29, offset: 91088},
+																										pos:        position{line: 2885, col: 29, offset: 91191},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -36773,9 +36817,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2891, col: 8, offset: 91248},
+																							pos: position{line: 2895, col: 8, offset: 91351},
 																							expr: &anyMatcher{
-																								line: 2891, col: 9, offset: 91249,
+																								line: 2895, col: 9, offset: 91352,
 																							},
 																						},
 																					},
@@ -36785,23 +36829,23 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1512, col: 5, offset: 49143},
+																	pos: position{line: 1516, col: 5, offset: 49246},
 																	expr: &seqExpr{
-																		pos: position{line: 1542, col: 27, offset: 49969},
+																		pos: position{line: 1546, col: 27, offset: 50072},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1542, col: 27, offset: 49969},
+																				pos:        position{line: 1546, col: 27, offset: 50072},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 1542, col: 31, offset: 49973},
+																				pos: position{line: 1546, col: 31, offset: 50076},
 																				expr: &actionExpr{
-																					pos: position{line: 2872, col: 10, offset: 90900},
+																					pos: position{line: 2876, col: 10, offset: 91003},
 																					run: (*parser).callonListContinuationElement1629,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2872, col: 10, offset: 90900},
+																						pos:        position{line: 2876, col: 10, offset: 91003},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -36810,25 +36854,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2881, col: 12, offset: 91071},
+																				pos: position{line: 2885, col: 12, offset: 91174},
 																				run: (*parser).callonListContinuationElement1631,
 																				expr: &choiceExpr{
-																					pos: position{line: 2881, col: 13, offset: 91072},
+																					pos: position{line: 2885, col: 13, offset: 91175},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 13, offset: 91072},
+																							pos:        position{line: 2885, col: 13, offset: 91175},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 20, offset: 91079},
+																							pos:        position{line: 2885, col: 20, offset: 91182},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 29, offset: 91088},
+																							pos:        position{line: 2885, col: 29, offset: 91191},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -36840,20 +36884,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1513, col: 5, offset: 49171},
+																	pos: position{line: 1517, col: 5, offset: 49274},
 																	expr: &actionExpr{
-																		pos: position{line: 1583, col: 5, offset: 51188},
+																		pos: position{line: 1587, col: 5, offset: 51291},
 																		run: (*parser).callonListContinuationElement1637,
 																		expr: &seqExpr{
-																			pos: position{line: 1583, col: 5, offset: 51188},
+																			pos: position{line: 1587, col: 5, offset: 51291},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1583, col: 5, offset: 51188},
+																					pos: position{line: 1587, col: 5, offset: 51291},
 																					expr: &actionExpr{
-																						pos: position{line: 2872, col: 10, offset: 90900},
+																						pos: position{line: 2876, col: 10, offset: 91003},
 																						run: (*parser).callonListContinuationElement1640,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2872, col: 10, offset: 90900},
+																							pos:        position{line: 2876, col: 10, offset: 91003},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36862,27 +36906,27 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1583, col: 12, offset: 51195},
+																					pos:   position{line: 1587, col: 12, offset: 51298},
 																					label: "prefix",
 																					expr: &choiceExpr{
-																						pos: position{line: 1585, col: 9, offset: 51258},
+																						pos: position{line: 1589, col: 9, offset: 51361},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 1585, col: 9, offset: 51258},
+																								pos: position{line: 1589, col: 9, offset: 51361},
 																								run: (*parser).callonListContinuationElement1644,
 																								expr: &seqExpr{
-																									pos: position{line: 1585, col: 9, offset: 51258},
+																									pos: position{line: 1589, col: 9, offset: 51361},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 1585, col: 9, offset: 51258},
+																											pos:   position{line: 1589, col: 9, offset: 51361},
 																											label: "depth",
 																											expr: &actionExpr{
-																												pos: position{line: 1585, col: 16, offset: 51265},
+																												pos: position{line: 1589, col: 16, offset: 51368},
 																												run: (*parser).callonListContinuationElement1647,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1585, col: 16, offset: 51265},
+																													pos: position{line: 1589, col: 16, offset: 51368},
 																													expr: &litMatcher{
-																														pos:        position{line: 1585, col: 17, offset: 51266},
+																														pos:        position{line: 1589, col: 17, offset: 51369},
 																														val:        ".",
 																														ignoreCase: false,
 																														want:       "\".\"",
@@ -36891,22 +36935,22 @@ var g = &grammar{
 																											},
 																										},
 																										&andCodeExpr{
-																											pos: position{line: 1589, col: 9, offset: 51366},
+																											pos: position{line: 1593, col: 9, offset: 51469},
 																											run: (*parser).callonListContinuationElement1650,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1608, col: 11, offset: 52083},
+																								pos: position{line: 1612, col: 11, offset: 52186},
 																								run: (*parser).callonListContinuationElement1651,
 																								expr: &seqExpr{
-																									pos: position{line: 1608, col: 11, offset: 52083},
+																									pos: position{line: 1612, col: 11, offset: 52186},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1608, col: 11, offset: 52083},
+																											pos: position{line: 1612, col: 11, offset: 52186},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1608, col: 12, offset: 52084},
+																												pos:        position{line: 1612, col: 12, offset: 52187},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -36914,7 +36958,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1608, col: 20, offset: 52092},
+																											pos:        position{line: 1612, col: 20, offset: 52195},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -36923,20 +36967,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1610, col: 13, offset: 52209},
+																								pos: position{line: 1614, col: 13, offset: 52312},
 																								run: (*parser).callonListContinuationElement1656,
 																								expr: &seqExpr{
-																									pos: position{line: 1610, col: 13, offset: 52209},
+																									pos: position{line: 1614, col: 13, offset: 52312},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1610, col: 14, offset: 52210},
+																											pos:        position{line: 1614, col: 14, offset: 52313},
 																											val:        "[a-z]",
 																											ranges:     []rune{'a', 'z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1610, col: 21, offset: 52217},
+																											pos:        position{line: 1614, col: 21, offset: 52320},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -36945,20 +36989,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1612, col: 13, offset: 52337},
+																								pos: position{line: 1616, col: 13, offset: 52440},
 																								run: (*parser).callonListContinuationElement1660,
 																								expr: &seqExpr{
-																									pos: position{line: 1612, col: 13, offset: 52337},
+																									pos: position{line: 1616, col: 13, offset: 52440},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1612, col: 14, offset: 52338},
+																											pos:        position{line: 1616, col: 14, offset: 52441},
 																											val:        "[A-Z]",
 																											ranges:     []rune{'A', 'Z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1612, col: 21, offset: 52345},
+																											pos:        position{line: 1616, col: 21, offset: 52448},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -36967,15 +37011,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1614, col: 13, offset: 52465},
+																								pos: position{line: 1618, col: 13, offset: 52568},
 																								run: (*parser).callonListContinuationElement1664,
 																								expr: &seqExpr{
-																									pos: position{line: 1614, col: 13, offset: 52465},
+																									pos: position{line: 1618, col: 13, offset: 52568},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1614, col: 13, offset: 52465},
+																											pos: position{line: 1618, col: 13, offset: 52568},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1614, col: 14, offset: 52466},
+																												pos:        position{line: 1618, col: 14, offset: 52569},
 																												val:        "[ivxdlcm]",
 																												chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																												ignoreCase: false,
@@ -36983,7 +37027,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1614, col: 26, offset: 52478},
+																											pos:        position{line: 1618, col: 26, offset: 52581},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -36992,15 +37036,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1616, col: 13, offset: 52598},
+																								pos: position{line: 1620, col: 13, offset: 52701},
 																								run: (*parser).callonListContinuationElement1669,
 																								expr: &seqExpr{
-																									pos: position{line: 1616, col: 13, offset: 52598},
+																									pos: position{line: 1620, col: 13, offset: 52701},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1616, col: 13, offset: 52598},
+																											pos: position{line: 1620, col: 13, offset: 52701},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1616, col: 14, offset: 52599},
+																												pos:        position{line: 1620, col: 14, offset: 52702},
 																												val:        "[IVXDLCM]",
 																												chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																												ignoreCase: false,
@@ -37008,7 +37052,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1616, col: 26, offset: 52611},
+																											pos:        position{line: 1620, col: 26, offset: 52714},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -37020,12 +37064,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2876, col: 11, offset: 90961},
+																					pos: position{line: 2880, col: 11, offset: 91064},
 																					run: (*parser).callonListContinuationElement1674,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2876, col: 11, offset: 90961},
+																						pos: position{line: 2880, col: 11, offset: 91064},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2876, col: 11, offset: 90961},
+																							pos:        position{line: 2880, col: 11, offset: 91064},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37038,20 +37082,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1514, col: 5, offset: 49201},
+																	pos: position{line: 1518, col: 5, offset: 49304},
 																	expr: &actionExpr{
-																		pos: position{line: 1633, col: 5, offset: 53150},
+																		pos: position{line: 1637, col: 5, offset: 53253},
 																		run: (*parser).callonListContinuationElement1678,
 																		expr: &seqExpr{
-																			pos: position{line: 1633, col: 5, offset: 53150},
+																			pos: position{line: 1637, col: 5, offset: 53253},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1633, col: 5, offset: 53150},
+																					pos: position{line: 1637, col: 5, offset: 53253},
 																					expr: &actionExpr{
-																						pos: position{line: 2872, col: 10, offset: 90900},
+																						pos: position{line: 2876, col: 10, offset: 91003},
 																						run: (*parser).callonListContinuationElement1681,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2872, col: 10, offset: 90900},
+																							pos:        position{line: 2876, col: 10, offset: 91003},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37060,24 +37104,24 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1634, col: 5, offset: 53162},
+																					pos:   position{line: 1638, col: 5, offset: 53265},
 																					label: "style",
 																					expr: &actionExpr{
-																						pos: position{line: 1635, col: 9, offset: 53178},
+																						pos: position{line: 1639, col: 9, offset: 53281},
 																						run: (*parser).callonListContinuationElement1684,
 																						expr: &choiceExpr{
-																							pos: position{line: 1635, col: 10, offset: 53179},
+																							pos: position{line: 1639, col: 10, offset: 53282},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1635, col: 11, offset: 53180},
+																									pos:        position{line: 1639, col: 11, offset: 53283},
 																									val:        "-",
 																									ignoreCase: false,
 																									want:       "\"-\"",
 																								},
 																								&oneOrMoreExpr{
-																									pos: position{line: 1635, col: 18, offset: 53187},
+																									pos: position{line: 1639, col: 18, offset: 53290},
 																									expr: &litMatcher{
-																										pos:        position{line: 1635, col: 19, offset: 53188},
+																										pos:        position{line: 1639, col: 19, offset: 53291},
 																										val:        "*",
 																										ignoreCase: false,
 																										want:       "\"*\"",
@@ -37088,16 +37132,16 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1638, col: 7, offset: 53278},
+																					pos: position{line: 1642, col: 7, offset: 53381},
 																					run: (*parser).callonListContinuationElement1689,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2876, col: 11, offset: 90961},
+																					pos: position{line: 2880, col: 11, offset: 91064},
 																					run: (*parser).callonListContinuationElement1690,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2876, col: 11, offset: 90961},
+																						pos: position{line: 2880, col: 11, offset: 91064},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2876, col: 11, offset: 90961},
+																							pos:        position{line: 2880, col: 11, offset: 91064},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37110,29 +37154,29 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1515, col: 5, offset: 49233},
+																	pos: position{line: 1519, col: 5, offset: 49336},
 																	expr: &actionExpr{
-																		pos: position{line: 1723, col: 5, offset: 55719},
+																		pos: position{line: 1727, col: 5, offset: 55822},
 																		run: (*parser).callonListContinuationElement1694,
 																		expr: &seqExpr{
-																			pos: position{line: 1723, col: 5, offset: 55719},
+																			pos: position{line: 1727, col: 5, offset: 55822},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1723, col: 5, offset: 55719},
+																					pos:        position{line: 1727, col: 5, offset: 55822},
 																					val:        "<",
 																					ignoreCase: false,
 																					want:       "\"<\"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1723, col: 9, offset: 55723},
+																					pos:   position{line: 1727, col: 9, offset: 55826},
 																					label: "ref",
 																					expr: &actionExpr{
-																						pos: position{line: 1723, col: 14, offset: 55728},
+																						pos: position{line: 1727, col: 14, offset: 55831},
 																						run: (*parser).callonListContinuationElement1698,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 1723, col: 14, offset: 55728},
+																							pos: position{line: 1727, col: 14, offset: 55831},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1723, col: 14, offset: 55728},
+																								pos:        position{line: 1727, col: 14, offset: 55831},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -37142,18 +37186,18 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 1723, col: 62, offset: 55776},
+																					pos:        position{line: 1727, col: 62, offset: 55879},
 																					val:        ">",
 																					ignoreCase: false,
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2876, col: 11, offset: 90961},
+																					pos: position{line: 2880, col: 11, offset: 91064},
 																					run: (*parser).callonListContinuationElement1702,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2876, col: 11, offset: 90961},
+																						pos: position{line: 2880, col: 11, offset: 91064},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2876, col: 11, offset: 90961},
+																							pos:        position{line: 2880, col: 11, offset: 91064},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37166,31 +37210,31 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1516, col: 5, offset: 49263},
+																	pos: position{line: 1520, col: 5, offset: 49366},
 																	expr: &seqExpr{
-																		pos: position{line: 1516, col: 7, offset: 49265},
+																		pos: position{line: 1520, col: 7, offset: 49368},
 																		exprs: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1668, col: 5, offset: 54169},
+																				pos: position{line: 1672, col: 5, offset: 54272},
 																				run: (*parser).callonListContinuationElement1707,
 																				expr: &seqExpr{
-																					pos: position{line: 1668, col: 5, offset: 54169},
+																					pos: position{line: 1672, col: 5, offset: 54272},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1668, col: 5, offset: 54169},
+																							pos: position{line: 1672, col: 5, offset: 54272},
 																							expr: &seqExpr{
-																								pos: position{line: 2484, col: 31, offset: 80007},
+																								pos: position{line: 2488, col: 31, offset: 80110},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2484, col: 31, offset: 80007},
+																										pos:        position{line: 2488, col: 31, offset: 80110},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2484, col: 36, offset: 80012},
+																										pos: position{line: 2488, col: 36, offset: 80115},
 																										expr: &litMatcher{
-																											pos:        position{line: 2484, col: 37, offset: 80013},
+																											pos:        position{line: 2488, col: 37, offset: 80116},
 																											val:        "//",
 																											ignoreCase: false,
 																											want:       "\"//\"",
@@ -37200,28 +37244,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1669, col: 5, offset: 54201},
+																							pos: position{line: 1673, col: 5, offset: 54304},
 																							expr: &seqExpr{
-																								pos: position{line: 1669, col: 6, offset: 54202},
+																								pos: position{line: 1673, col: 6, offset: 54305},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1669, col: 6, offset: 54202},
+																										pos: position{line: 1673, col: 6, offset: 54305},
 																										expr: &actionExpr{
-																											pos: position{line: 1674, col: 5, offset: 54352},
+																											pos: position{line: 1678, col: 5, offset: 54455},
 																											run: (*parser).callonListContinuationElement1717,
 																											expr: &seqExpr{
-																												pos: position{line: 1674, col: 5, offset: 54352},
+																												pos: position{line: 1678, col: 5, offset: 54455},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1674, col: 5, offset: 54352},
+																														pos:   position{line: 1678, col: 5, offset: 54455},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1674, col: 16, offset: 54363},
+																															pos: position{line: 1678, col: 16, offset: 54466},
 																															run: (*parser).callonListContinuationElement1720,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1674, col: 16, offset: 54363},
+																																pos: position{line: 1678, col: 16, offset: 54466},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1674, col: 17, offset: 54364},
+																																	pos:        position{line: 1678, col: 17, offset: 54467},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -37230,7 +37274,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1677, col: 5, offset: 54421},
+																														pos: position{line: 1681, col: 5, offset: 54524},
 																														run: (*parser).callonListContinuationElement1723,
 																													},
 																												},
@@ -37238,30 +37282,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1669, col: 35, offset: 54231},
+																										pos: position{line: 1673, col: 35, offset: 54334},
 																										expr: &choiceExpr{
-																											pos: position{line: 2894, col: 8, offset: 91298},
+																											pos: position{line: 2898, col: 8, offset: 91401},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2881, col: 12, offset: 91071},
+																													pos: position{line: 2885, col: 12, offset: 91174},
 																													run: (*parser).callonListContinuationElement1726,
 																													expr: &choiceExpr{
-																														pos: position{line: 2881, col: 13, offset: 91072},
+																														pos: position{line: 2885, col: 13, offset: 91175},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 13, offset: 91072},
+																																pos:        position{line: 2885, col: 13, offset: 91175},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 20, offset: 91079},
+																																pos:        position{line: 2885, col: 20, offset: 91182},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 29, offset: 91088},
+																																pos:        position{line: 2885, col: 29, offset: 91191},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37270,16 +37314,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2891, col: 8, offset: 91248},
+																													pos: position{line: 2895, col: 8, offset: 91351},
 																													expr: &anyMatcher{
-																														line: 2891, col: 9, offset: 91249,
+																														line: 2895, col: 9, offset: 91352,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1669, col: 40, offset: 54236,
+																										line: 1673, col: 40, offset: 54339,
 																									},
 																								},
 																							},
@@ -37288,21 +37332,21 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1674, col: 5, offset: 54352},
+																				pos: position{line: 1678, col: 5, offset: 54455},
 																				run: (*parser).callonListContinuationElement1734,
 																				expr: &seqExpr{
-																					pos: position{line: 1674, col: 5, offset: 54352},
+																					pos: position{line: 1678, col: 5, offset: 54455},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1674, col: 5, offset: 54352},
+																							pos:   position{line: 1678, col: 5, offset: 54455},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1674, col: 16, offset: 54363},
+																								pos: position{line: 1678, col: 16, offset: 54466},
 																								run: (*parser).callonListContinuationElement1737,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1674, col: 16, offset: 54363},
+																									pos: position{line: 1678, col: 16, offset: 54466},
 																									expr: &litMatcher{
-																										pos:        position{line: 1674, col: 17, offset: 54364},
+																										pos:        position{line: 1678, col: 17, offset: 54467},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -37311,7 +37355,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1677, col: 5, offset: 54421},
+																							pos: position{line: 1681, col: 5, offset: 54524},
 																							run: (*parser).callonListContinuationElement1740,
 																						},
 																					},
@@ -37321,7 +37365,7 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1517, col: 5, offset: 49321},
+																	pos: position{line: 1521, col: 5, offset: 49424},
 																	expr: &actionExpr{
 																		pos: position{line: 723, col: 5, offset: 23049},
 																		run: (*parser).callonListContinuationElement1742,
@@ -37331,7 +37375,7 @@ var g = &grammar{
 																				&notExpr{
 																					pos: position{line: 723, col: 5, offset: 23049},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2762, col: 13, offset: 87974},
+																						pos:        position{line: 2766, col: 13, offset: 88077},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -37381,10 +37425,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 741, col: 8, offset: 23693},
 																											expr: &actionExpr{
-																												pos: position{line: 2872, col: 10, offset: 90900},
+																												pos: position{line: 2876, col: 10, offset: 91003},
 																												run: (*parser).callonListContinuationElement1757,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2872, col: 10, offset: 90900},
+																													pos:        position{line: 2876, col: 10, offset: 91003},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37393,28 +37437,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2894, col: 8, offset: 91298},
+																											pos: position{line: 2898, col: 8, offset: 91401},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2881, col: 12, offset: 91071},
+																													pos: position{line: 2885, col: 12, offset: 91174},
 																													run: (*parser).callonListContinuationElement1760,
 																													expr: &choiceExpr{
-																														pos: position{line: 2881, col: 13, offset: 91072},
+																														pos: position{line: 2885, col: 13, offset: 91175},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 13, offset: 91072},
+																																pos:        position{line: 2885, col: 13, offset: 91175},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 20, offset: 91079},
+																																pos:        position{line: 2885, col: 20, offset: 91182},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 29, offset: 91088},
+																																pos:        position{line: 2885, col: 29, offset: 91191},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37423,9 +37467,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2891, col: 8, offset: 91248},
+																													pos: position{line: 2895, col: 8, offset: 91351},
 																													expr: &anyMatcher{
-																														line: 2891, col: 9, offset: 91249,
+																														line: 2895, col: 9, offset: 91352,
 																													},
 																												},
 																											},
@@ -37470,10 +37514,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 748, col: 8, offset: 23941},
 																											expr: &actionExpr{
-																												pos: position{line: 2872, col: 10, offset: 90900},
+																												pos: position{line: 2876, col: 10, offset: 91003},
 																												run: (*parser).callonListContinuationElement1776,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2872, col: 10, offset: 90900},
+																													pos:        position{line: 2876, col: 10, offset: 91003},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37482,28 +37526,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2894, col: 8, offset: 91298},
+																											pos: position{line: 2898, col: 8, offset: 91401},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2881, col: 12, offset: 91071},
+																													pos: position{line: 2885, col: 12, offset: 91174},
 																													run: (*parser).callonListContinuationElement1779,
 																													expr: &choiceExpr{
-																														pos: position{line: 2881, col: 13, offset: 91072},
+																														pos: position{line: 2885, col: 13, offset: 91175},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 13, offset: 91072},
+																																pos:        position{line: 2885, col: 13, offset: 91175},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 20, offset: 91079},
+																																pos:        position{line: 2885, col: 20, offset: 91182},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 29, offset: 91088},
+																																pos:        position{line: 2885, col: 29, offset: 91191},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37512,9 +37556,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2891, col: 8, offset: 91248},
+																													pos: position{line: 2895, col: 8, offset: 91351},
 																													expr: &anyMatcher{
-																														line: 2891, col: 9, offset: 91249,
+																														line: 2895, col: 9, offset: 91352,
 																													},
 																												},
 																											},
@@ -37555,10 +37599,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 759, col: 52, offset: 24353},
 																											expr: &actionExpr{
-																												pos: position{line: 2872, col: 10, offset: 90900},
+																												pos: position{line: 2876, col: 10, offset: 91003},
 																												run: (*parser).callonListContinuationElement1794,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2872, col: 10, offset: 90900},
+																													pos:        position{line: 2876, col: 10, offset: 91003},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37567,28 +37611,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2894, col: 8, offset: 91298},
+																											pos: position{line: 2898, col: 8, offset: 91401},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2881, col: 12, offset: 91071},
+																													pos: position{line: 2885, col: 12, offset: 91174},
 																													run: (*parser).callonListContinuationElement1797,
 																													expr: &choiceExpr{
-																														pos: position{line: 2881, col: 13, offset: 91072},
+																														pos: position{line: 2885, col: 13, offset: 91175},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 13, offset: 91072},
+																																pos:        position{line: 2885, col: 13, offset: 91175},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 20, offset: 91079},
+																																pos:        position{line: 2885, col: 20, offset: 91182},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 29, offset: 91088},
+																																pos:        position{line: 2885, col: 29, offset: 91191},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37597,9 +37641,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2891, col: 8, offset: 91248},
+																													pos: position{line: 2895, col: 8, offset: 91351},
 																													expr: &anyMatcher{
-																														line: 2891, col: 9, offset: 91249,
+																														line: 2895, col: 9, offset: 91352,
 																													},
 																												},
 																											},
@@ -37644,10 +37688,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 755, col: 8, offset: 24187},
 																											expr: &actionExpr{
-																												pos: position{line: 2872, col: 10, offset: 90900},
+																												pos: position{line: 2876, col: 10, offset: 91003},
 																												run: (*parser).callonListContinuationElement1813,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2872, col: 10, offset: 90900},
+																													pos:        position{line: 2876, col: 10, offset: 91003},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37656,28 +37700,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2894, col: 8, offset: 91298},
+																											pos: position{line: 2898, col: 8, offset: 91401},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2881, col: 12, offset: 91071},
+																													pos: position{line: 2885, col: 12, offset: 91174},
 																													run: (*parser).callonListContinuationElement1816,
 																													expr: &choiceExpr{
-																														pos: position{line: 2881, col: 13, offset: 91072},
+																														pos: position{line: 2885, col: 13, offset: 91175},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 13, offset: 91072},
+																																pos:        position{line: 2885, col: 13, offset: 91175},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 20, offset: 91079},
+																																pos:        position{line: 2885, col: 20, offset: 91182},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 29, offset: 91088},
+																																pos:        position{line: 2885, col: 29, offset: 91191},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37686,9 +37730,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2891, col: 8, offset: 91248},
+																													pos: position{line: 2895, col: 8, offset: 91351},
 																													expr: &anyMatcher{
-																														line: 2891, col: 9, offset: 91249,
+																														line: 2895, col: 9, offset: 91352,
 																													},
 																												},
 																											},
@@ -37733,10 +37777,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 770, col: 8, offset: 24730},
 																											expr: &actionExpr{
-																												pos: position{line: 2872, col: 10, offset: 90900},
+																												pos: position{line: 2876, col: 10, offset: 91003},
 																												run: (*parser).callonListContinuationElement1832,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2872, col: 10, offset: 90900},
+																													pos:        position{line: 2876, col: 10, offset: 91003},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37745,28 +37789,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2894, col: 8, offset: 91298},
+																											pos: position{line: 2898, col: 8, offset: 91401},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2881, col: 12, offset: 91071},
+																													pos: position{line: 2885, col: 12, offset: 91174},
 																													run: (*parser).callonListContinuationElement1835,
 																													expr: &choiceExpr{
-																														pos: position{line: 2881, col: 13, offset: 91072},
+																														pos: position{line: 2885, col: 13, offset: 91175},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 13, offset: 91072},
+																																pos:        position{line: 2885, col: 13, offset: 91175},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 20, offset: 91079},
+																																pos:        position{line: 2885, col: 20, offset: 91182},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 29, offset: 91088},
+																																pos:        position{line: 2885, col: 29, offset: 91191},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37775,9 +37819,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2891, col: 8, offset: 91248},
+																													pos: position{line: 2895, col: 8, offset: 91351},
 																													expr: &anyMatcher{
-																														line: 2891, col: 9, offset: 91249,
+																														line: 2895, col: 9, offset: 91352,
 																													},
 																												},
 																											},
@@ -37822,10 +37866,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 784, col: 8, offset: 25206},
 																											expr: &actionExpr{
-																												pos: position{line: 2872, col: 10, offset: 90900},
+																												pos: position{line: 2876, col: 10, offset: 91003},
 																												run: (*parser).callonListContinuationElement1851,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2872, col: 10, offset: 90900},
+																													pos:        position{line: 2876, col: 10, offset: 91003},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37834,28 +37878,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2894, col: 8, offset: 91298},
+																											pos: position{line: 2898, col: 8, offset: 91401},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2881, col: 12, offset: 91071},
+																													pos: position{line: 2885, col: 12, offset: 91174},
 																													run: (*parser).callonListContinuationElement1854,
 																													expr: &choiceExpr{
-																														pos: position{line: 2881, col: 13, offset: 91072},
+																														pos: position{line: 2885, col: 13, offset: 91175},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 13, offset: 91072},
+																																pos:        position{line: 2885, col: 13, offset: 91175},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 20, offset: 91079},
+																																pos:        position{line: 2885, col: 20, offset: 91182},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 29, offset: 91088},
+																																pos:        position{line: 2885, col: 29, offset: 91191},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37864,9 +37908,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2891, col: 8, offset: 91248},
+																													pos: position{line: 2895, col: 8, offset: 91351},
 																													expr: &anyMatcher{
-																														line: 2891, col: 9, offset: 91249,
+																														line: 2895, col: 9, offset: 91352,
 																													},
 																												},
 																											},
@@ -37911,10 +37955,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 791, col: 8, offset: 25458},
 																											expr: &actionExpr{
-																												pos: position{line: 2872, col: 10, offset: 90900},
+																												pos: position{line: 2876, col: 10, offset: 91003},
 																												run: (*parser).callonListContinuationElement1870,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2872, col: 10, offset: 90900},
+																													pos:        position{line: 2876, col: 10, offset: 91003},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37923,28 +37967,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2894, col: 8, offset: 91298},
+																											pos: position{line: 2898, col: 8, offset: 91401},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2881, col: 12, offset: 91071},
+																													pos: position{line: 2885, col: 12, offset: 91174},
 																													run: (*parser).callonListContinuationElement1873,
 																													expr: &choiceExpr{
-																														pos: position{line: 2881, col: 13, offset: 91072},
+																														pos: position{line: 2885, col: 13, offset: 91175},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 13, offset: 91072},
+																																pos:        position{line: 2885, col: 13, offset: 91175},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 20, offset: 91079},
+																																pos:        position{line: 2885, col: 20, offset: 91182},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 29, offset: 91088},
+																																pos:        position{line: 2885, col: 29, offset: 91191},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37953,9 +37997,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2891, col: 8, offset: 91248},
+																													pos: position{line: 2895, col: 8, offset: 91351},
 																													expr: &anyMatcher{
-																														line: 2891, col: 9, offset: 91249,
+																														line: 2895, col: 9, offset: 91352,
 																													},
 																												},
 																											},
@@ -38000,10 +38044,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 798, col: 8, offset: 25708},
 																											expr: &actionExpr{
-																												pos: position{line: 2872, col: 10, offset: 90900},
+																												pos: position{line: 2876, col: 10, offset: 91003},
 																												run: (*parser).callonListContinuationElement1889,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2872, col: 10, offset: 90900},
+																													pos:        position{line: 2876, col: 10, offset: 91003},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38012,28 +38056,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2894, col: 8, offset: 91298},
+																											pos: position{line: 2898, col: 8, offset: 91401},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2881, col: 12, offset: 91071},
+																													pos: position{line: 2885, col: 12, offset: 91174},
 																													run: (*parser).callonListContinuationElement1892,
 																													expr: &choiceExpr{
-																														pos: position{line: 2881, col: 13, offset: 91072},
+																														pos: position{line: 2885, col: 13, offset: 91175},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 13, offset: 91072},
+																																pos:        position{line: 2885, col: 13, offset: 91175},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 20, offset: 91079},
+																																pos:        position{line: 2885, col: 20, offset: 91182},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 29, offset: 91088},
+																																pos:        position{line: 2885, col: 29, offset: 91191},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38042,9 +38086,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2891, col: 8, offset: 91248},
+																													pos: position{line: 2895, col: 8, offset: 91351},
 																													expr: &anyMatcher{
-																														line: 2891, col: 9, offset: 91249,
+																														line: 2895, col: 9, offset: 91352,
 																													},
 																												},
 																											},
@@ -38089,10 +38133,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 805, col: 8, offset: 25954},
 																											expr: &actionExpr{
-																												pos: position{line: 2872, col: 10, offset: 90900},
+																												pos: position{line: 2876, col: 10, offset: 91003},
 																												run: (*parser).callonListContinuationElement1908,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2872, col: 10, offset: 90900},
+																													pos:        position{line: 2876, col: 10, offset: 91003},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38101,28 +38145,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2894, col: 8, offset: 91298},
+																											pos: position{line: 2898, col: 8, offset: 91401},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2881, col: 12, offset: 91071},
+																													pos: position{line: 2885, col: 12, offset: 91174},
 																													run: (*parser).callonListContinuationElement1911,
 																													expr: &choiceExpr{
-																														pos: position{line: 2881, col: 13, offset: 91072},
+																														pos: position{line: 2885, col: 13, offset: 91175},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 13, offset: 91072},
+																																pos:        position{line: 2885, col: 13, offset: 91175},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 20, offset: 91079},
+																																pos:        position{line: 2885, col: 20, offset: 91182},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2881, col: 29, offset: 91088},
+																																pos:        position{line: 2885, col: 29, offset: 91191},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38131,9 +38175,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2891, col: 8, offset: 91248},
+																													pos: position{line: 2895, col: 8, offset: 91351},
 																													expr: &anyMatcher{
-																														line: 2891, col: 9, offset: 91249,
+																														line: 2895, col: 9, offset: 91352,
 																													},
 																												},
 																											},
@@ -38149,15 +38193,15 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1518, col: 5, offset: 49341},
+																	pos:   position{line: 1522, col: 5, offset: 49444},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2822, col: 14, offset: 89493},
+																		pos: position{line: 2826, col: 14, offset: 89596},
 																		run: (*parser).callonListContinuationElement1919,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2822, col: 14, offset: 89493},
+																			pos: position{line: 2826, col: 14, offset: 89596},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2822, col: 14, offset: 89493},
+																				pos:        position{line: 2826, col: 14, offset: 89596},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -38167,28 +38211,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2894, col: 8, offset: 91298},
+																	pos: position{line: 2898, col: 8, offset: 91401},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2881, col: 12, offset: 91071},
+																			pos: position{line: 2885, col: 12, offset: 91174},
 																			run: (*parser).callonListContinuationElement1923,
 																			expr: &choiceExpr{
-																				pos: position{line: 2881, col: 13, offset: 91072},
+																				pos: position{line: 2885, col: 13, offset: 91175},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 13, offset: 91072},
+																						pos:        position{line: 2885, col: 13, offset: 91175},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 20, offset: 91079},
+																						pos:        position{line: 2885, col: 20, offset: 91182},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 29, offset: 91088},
+																						pos:        position{line: 2885, col: 29, offset: 91191},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -38197,9 +38241,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2891, col: 8, offset: 91248},
+																			pos: position{line: 2895, col: 8, offset: 91351},
 																			expr: &anyMatcher{
-																				line: 2891, col: 9, offset: 91249,
+																				line: 2895, col: 9, offset: 91352,
 																			},
 																		},
 																	},
@@ -38220,33 +38264,33 @@ var g = &grammar{
 		},
 		{
 			name: "Callout",
-			pos:  position{line: 1707, col: 1, offset: 55213},
+			pos:  position{line: 1711, col: 1, offset: 55316},
 			expr: &actionExpr{
-				pos: position{line: 1709, col: 5, offset: 55291},
+				pos: position{line: 1713, col: 5, offset: 55394},
 				run: (*parser).callonCallout1,
 				expr: &seqExpr{
-					pos: position{line: 1709, col: 5, offset: 55291},
+					pos: position{line: 1713, col: 5, offset: 55394},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1709, col: 5, offset: 55291},
+							pos: position{line: 1713, col: 5, offset: 55394},
 							run: (*parser).callonCallout3,
 						},
 						&litMatcher{
-							pos:        position{line: 1712, col: 5, offset: 55358},
+							pos:        position{line: 1716, col: 5, offset: 55461},
 							val:        "<",
 							ignoreCase: false,
 							want:       "\"<\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1712, col: 9, offset: 55362},
+							pos:   position{line: 1716, col: 9, offset: 55465},
 							label: "ref",
 							expr: &actionExpr{
-								pos: position{line: 1712, col: 14, offset: 55367},
+								pos: position{line: 1716, col: 14, offset: 55470},
 								run: (*parser).callonCallout6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1712, col: 14, offset: 55367},
+									pos: position{line: 1716, col: 14, offset: 55470},
 									expr: &charClassMatcher{
-										pos:        position{line: 1712, col: 14, offset: 55367},
+										pos:        position{line: 1716, col: 14, offset: 55470},
 										val:        "[0-9]",
 										ranges:     []rune{'0', '9'},
 										ignoreCase: false,
@@ -38256,18 +38300,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1712, col: 62, offset: 55415},
+							pos:        position{line: 1716, col: 62, offset: 55518},
 							val:        ">",
 							ignoreCase: false,
 							want:       "\">\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1712, col: 66, offset: 55419},
+							pos: position{line: 1716, col: 66, offset: 55522},
 							expr: &actionExpr{
-								pos: position{line: 2872, col: 10, offset: 90900},
+								pos: position{line: 2876, col: 10, offset: 91003},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2872, col: 10, offset: 90900},
+									pos:        position{line: 2876, col: 10, offset: 91003},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -38276,30 +38320,30 @@ var g = &grammar{
 							},
 						},
 						&andExpr{
-							pos: position{line: 1712, col: 73, offset: 55426},
+							pos: position{line: 1716, col: 73, offset: 55529},
 							expr: &choiceExpr{
-								pos: position{line: 1712, col: 75, offset: 55428},
+								pos: position{line: 1716, col: 75, offset: 55531},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2881, col: 12, offset: 91071},
+										pos: position{line: 2885, col: 12, offset: 91174},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2881, col: 13, offset: 91072},
+											pos: position{line: 2885, col: 13, offset: 91175},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2881, col: 13, offset: 91072},
+													pos:        position{line: 2885, col: 13, offset: 91175},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2881, col: 20, offset: 91079},
+													pos:        position{line: 2885, col: 20, offset: 91182},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2881, col: 29, offset: 91088},
+													pos:        position{line: 2885, col: 29, offset: 91191},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -38308,13 +38352,13 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2891, col: 8, offset: 91248},
+										pos: position{line: 2895, col: 8, offset: 91351},
 										expr: &anyMatcher{
-											line: 2891, col: 9, offset: 91249,
+											line: 2895, col: 9, offset: 91352,
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1712, col: 81, offset: 55434},
+										pos:  position{line: 1716, col: 81, offset: 55537},
 										name: "Callout",
 									},
 								},
@@ -38326,44 +38370,44 @@ var g = &grammar{
 		},
 		{
 			name: "ShortcutParagraph",
-			pos:  position{line: 1751, col: 1, offset: 56611},
+			pos:  position{line: 1755, col: 1, offset: 56714},
 			expr: &actionExpr{
-				pos: position{line: 1753, col: 5, offset: 56685},
+				pos: position{line: 1757, col: 5, offset: 56788},
 				run: (*parser).callonShortcutParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1753, col: 5, offset: 56685},
+					pos: position{line: 1757, col: 5, offset: 56788},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 1753, col: 5, offset: 56685},
+							pos: position{line: 1757, col: 5, offset: 56788},
 							expr: &seqExpr{
-								pos: position{line: 1753, col: 7, offset: 56687},
+								pos: position{line: 1757, col: 7, offset: 56790},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2762, col: 13, offset: 87974},
+										pos:        position{line: 2766, col: 13, offset: 88077},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
 										inverted:   false,
 									},
 									&notExpr{
-										pos: position{line: 1753, col: 16, offset: 56696},
+										pos: position{line: 1757, col: 16, offset: 56799},
 										expr: &seqExpr{
-											pos: position{line: 1753, col: 18, offset: 56698},
+											pos: position{line: 1757, col: 18, offset: 56801},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 1753, col: 19, offset: 56699},
+													pos:        position{line: 1757, col: 19, offset: 56802},
 													val:        "[.)]",
 													chars:      []rune{'.', ')'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2876, col: 11, offset: 90961},
+													pos: position{line: 2880, col: 11, offset: 91064},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2876, col: 11, offset: 90961},
+														pos: position{line: 2880, col: 11, offset: 91064},
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 11, offset: 90961},
+															pos:        position{line: 2880, col: 11, offset: 91064},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -38378,88 +38422,88 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1754, col: 5, offset: 56839},
+							pos:   position{line: 1758, col: 5, offset: 56942},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1754, col: 11, offset: 56845},
+								pos: position{line: 1758, col: 11, offset: 56948},
 								expr: &actionExpr{
-									pos: position{line: 1732, col: 5, offset: 56104},
+									pos: position{line: 1736, col: 5, offset: 56207},
 									run: (*parser).callonShortcutParagraph14,
 									expr: &seqExpr{
-										pos: position{line: 1732, col: 5, offset: 56104},
+										pos: position{line: 1736, col: 5, offset: 56207},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1732, col: 5, offset: 56104},
+												pos: position{line: 1736, col: 5, offset: 56207},
 												run: (*parser).callonShortcutParagraph16,
 											},
 											&labeledExpr{
-												pos:   position{line: 1735, col: 5, offset: 56167},
+												pos:   position{line: 1739, col: 5, offset: 56270},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1735, col: 12, offset: 56174},
+													pos: position{line: 1739, col: 12, offset: 56277},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1735, col: 12, offset: 56174},
+															pos: position{line: 1739, col: 12, offset: 56277},
 															run: (*parser).callonShortcutParagraph19,
 															expr: &litMatcher{
-																pos:        position{line: 1735, col: 12, offset: 56174},
+																pos:        position{line: 1739, col: 12, offset: 56277},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1737, col: 13, offset: 56230},
+															pos: position{line: 1741, col: 13, offset: 56333},
 															run: (*parser).callonShortcutParagraph21,
 															expr: &litMatcher{
-																pos:        position{line: 1737, col: 13, offset: 56230},
+																pos:        position{line: 1741, col: 13, offset: 56333},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1739, col: 13, offset: 56288},
+															pos: position{line: 1743, col: 13, offset: 56391},
 															run: (*parser).callonShortcutParagraph23,
 															expr: &litMatcher{
-																pos:        position{line: 1739, col: 13, offset: 56288},
+																pos:        position{line: 1743, col: 13, offset: 56391},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1741, col: 13, offset: 56356},
+															pos: position{line: 1745, col: 13, offset: 56459},
 															run: (*parser).callonShortcutParagraph25,
 															expr: &litMatcher{
-																pos:        position{line: 1741, col: 13, offset: 56356},
+																pos:        position{line: 1745, col: 13, offset: 56459},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1743, col: 13, offset: 56420},
+															pos: position{line: 1747, col: 13, offset: 56523},
 															run: (*parser).callonShortcutParagraph27,
 															expr: &litMatcher{
-																pos:        position{line: 1743, col: 13, offset: 56420},
+																pos:        position{line: 1747, col: 13, offset: 56523},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1745, col: 13, offset: 56484},
+															pos: position{line: 1749, col: 13, offset: 56587},
 															run: (*parser).callonShortcutParagraph29,
 															expr: &andExpr{
-																pos: position{line: 1745, col: 13, offset: 56484},
+																pos: position{line: 1749, col: 13, offset: 56587},
 																expr: &actionExpr{
-																	pos: position{line: 2876, col: 11, offset: 90961},
+																	pos: position{line: 2880, col: 11, offset: 91064},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2876, col: 11, offset: 90961},
+																		pos: position{line: 2880, col: 11, offset: 91064},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 11, offset: 90961},
+																			pos:        position{line: 2880, col: 11, offset: 91064},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -38473,17 +38517,17 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1747, col: 12, offset: 56554},
+												pos: position{line: 1751, col: 12, offset: 56657},
 												expr: &seqExpr{
-													pos: position{line: 1747, col: 14, offset: 56556},
+													pos: position{line: 1751, col: 14, offset: 56659},
 													exprs: []interface{}{
 														&zeroOrMoreExpr{
-															pos: position{line: 1747, col: 14, offset: 56556},
+															pos: position{line: 1751, col: 14, offset: 56659},
 															expr: &actionExpr{
-																pos: position{line: 2872, col: 10, offset: 90900},
+																pos: position{line: 2876, col: 10, offset: 91003},
 																run: (*parser).callonShortcutParagraph37,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2872, col: 10, offset: 90900},
+																	pos:        position{line: 2876, col: 10, offset: 91003},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -38492,28 +38536,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2894, col: 8, offset: 91298},
+															pos: position{line: 2898, col: 8, offset: 91401},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2881, col: 12, offset: 91071},
+																	pos: position{line: 2885, col: 12, offset: 91174},
 																	run: (*parser).callonShortcutParagraph40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2881, col: 13, offset: 91072},
+																		pos: position{line: 2885, col: 13, offset: 91175},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2881, col: 13, offset: 91072},
+																				pos:        position{line: 2885, col: 13, offset: 91175},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2881, col: 20, offset: 91079},
+																				pos:        position{line: 2885, col: 20, offset: 91182},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2881, col: 29, offset: 91088},
+																				pos:        position{line: 2885, col: 29, offset: 91191},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -38522,9 +38566,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2891, col: 8, offset: 91248},
+																	pos: position{line: 2895, col: 8, offset: 91351},
 																	expr: &anyMatcher{
-																		line: 2891, col: 9, offset: 91249,
+																		line: 2895, col: 9, offset: 91352,
 																	},
 																},
 															},
@@ -38538,24 +38582,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1755, col: 5, offset: 56867},
+							pos:   position{line: 1759, col: 5, offset: 56970},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1791, col: 5, offset: 57974},
+								pos: position{line: 1795, col: 5, offset: 58077},
 								run: (*parser).callonShortcutParagraph48,
 								expr: &seqExpr{
-									pos: position{line: 1791, col: 5, offset: 57974},
+									pos: position{line: 1795, col: 5, offset: 58077},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1791, col: 5, offset: 57974},
+											pos:   position{line: 1795, col: 5, offset: 58077},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2822, col: 14, offset: 89493},
+												pos: position{line: 2826, col: 14, offset: 89596},
 												run: (*parser).callonShortcutParagraph51,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2822, col: 14, offset: 89493},
+													pos: position{line: 2826, col: 14, offset: 89596},
 													expr: &charClassMatcher{
-														pos:        position{line: 2822, col: 14, offset: 89493},
+														pos:        position{line: 2826, col: 14, offset: 89596},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -38565,32 +38609,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1792, col: 5, offset: 57998},
+											pos: position{line: 1796, col: 5, offset: 58101},
 											run: (*parser).callonShortcutParagraph54,
 										},
 										&choiceExpr{
-											pos: position{line: 2894, col: 8, offset: 91298},
+											pos: position{line: 2898, col: 8, offset: 91401},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2881, col: 12, offset: 91071},
+													pos: position{line: 2885, col: 12, offset: 91174},
 													run: (*parser).callonShortcutParagraph56,
 													expr: &choiceExpr{
-														pos: position{line: 2881, col: 13, offset: 91072},
+														pos: position{line: 2885, col: 13, offset: 91175},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2881, col: 13, offset: 91072},
+																pos:        position{line: 2885, col: 13, offset: 91175},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2881, col: 20, offset: 91079},
+																pos:        position{line: 2885, col: 20, offset: 91182},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2881, col: 29, offset: 91088},
+																pos:        position{line: 2885, col: 29, offset: 91191},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -38599,9 +38643,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2891, col: 8, offset: 91248},
+													pos: position{line: 2895, col: 8, offset: 91351},
 													expr: &anyMatcher{
-														line: 2891, col: 9, offset: 91249,
+														line: 2895, col: 9, offset: 91352,
 													},
 												},
 											},
@@ -38611,28 +38655,28 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1756, col: 5, offset: 56901},
+							pos: position{line: 1760, col: 5, offset: 57004},
 							run: (*parser).callonShortcutParagraph63,
 						},
 						&labeledExpr{
-							pos:   position{line: 1763, col: 5, offset: 57231},
+							pos:   position{line: 1767, col: 5, offset: 57334},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1763, col: 16, offset: 57242},
+								pos: position{line: 1767, col: 16, offset: 57345},
 								expr: &actionExpr{
-									pos: position{line: 1764, col: 9, offset: 57252},
+									pos: position{line: 1768, col: 9, offset: 57355},
 									run: (*parser).callonShortcutParagraph66,
 									expr: &seqExpr{
-										pos: position{line: 1764, col: 9, offset: 57252},
+										pos: position{line: 1768, col: 9, offset: 57355},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2889, col: 11, offset: 91234},
+												pos: position{line: 2893, col: 11, offset: 91337},
 												expr: &anyMatcher{
-													line: 2889, col: 13, offset: 91236,
+													line: 2893, col: 13, offset: 91339,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1765, col: 9, offset: 57268},
+												pos: position{line: 1769, col: 9, offset: 57371},
 												expr: &actionExpr{
 													pos: position{line: 676, col: 14, offset: 21496},
 													run: (*parser).callonShortcutParagraph71,
@@ -38640,18 +38684,18 @@ var g = &grammar{
 														pos: position{line: 676, col: 14, offset: 21496},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2889, col: 11, offset: 91234},
+																pos: position{line: 2893, col: 11, offset: 91337},
 																expr: &anyMatcher{
-																	line: 2889, col: 13, offset: 91236,
+																	line: 2893, col: 13, offset: 91339,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 676, col: 21, offset: 21503},
 																expr: &actionExpr{
-																	pos: position{line: 2872, col: 10, offset: 90900},
+																	pos: position{line: 2876, col: 10, offset: 91003},
 																	run: (*parser).callonShortcutParagraph76,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2872, col: 10, offset: 90900},
+																		pos:        position{line: 2876, col: 10, offset: 91003},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -38660,28 +38704,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2894, col: 8, offset: 91298},
+																pos: position{line: 2898, col: 8, offset: 91401},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2881, col: 12, offset: 91071},
+																		pos: position{line: 2885, col: 12, offset: 91174},
 																		run: (*parser).callonShortcutParagraph79,
 																		expr: &choiceExpr{
-																			pos: position{line: 2881, col: 13, offset: 91072},
+																			pos: position{line: 2885, col: 13, offset: 91175},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2881, col: 13, offset: 91072},
+																					pos:        position{line: 2885, col: 13, offset: 91175},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2881, col: 20, offset: 91079},
+																					pos:        position{line: 2885, col: 20, offset: 91182},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2881, col: 29, offset: 91088},
+																					pos:        position{line: 2885, col: 29, offset: 91191},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -38690,9 +38734,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2891, col: 8, offset: 91248},
+																		pos: position{line: 2895, col: 8, offset: 91351},
 																		expr: &anyMatcher{
-																			line: 2891, col: 9, offset: 91249,
+																			line: 2895, col: 9, offset: 91352,
 																		},
 																	},
 																},
@@ -38702,14 +38746,14 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1766, col: 9, offset: 57287},
+												pos: position{line: 1770, col: 9, offset: 57390},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1766, col: 10, offset: 57288},
+													pos:  position{line: 1770, col: 10, offset: 57391},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1767, col: 9, offset: 57312},
+												pos: position{line: 1771, col: 9, offset: 57415},
 												expr: &actionExpr{
 													pos: position{line: 723, col: 5, offset: 23049},
 													run: (*parser).callonShortcutParagraph89,
@@ -38719,7 +38763,7 @@ var g = &grammar{
 															&notExpr{
 																pos: position{line: 723, col: 5, offset: 23049},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2762, col: 13, offset: 87974},
+																	pos:        position{line: 2766, col: 13, offset: 88077},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -38769,10 +38813,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 741, col: 8, offset: 23693},
 																						expr: &actionExpr{
-																							pos: position{line: 2872, col: 10, offset: 90900},
+																							pos: position{line: 2876, col: 10, offset: 91003},
 																							run: (*parser).callonShortcutParagraph104,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2872, col: 10, offset: 90900},
+																								pos:        position{line: 2876, col: 10, offset: 91003},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38781,28 +38825,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2894, col: 8, offset: 91298},
+																						pos: position{line: 2898, col: 8, offset: 91401},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2881, col: 12, offset: 91071},
+																								pos: position{line: 2885, col: 12, offset: 91174},
 																								run: (*parser).callonShortcutParagraph107,
 																								expr: &choiceExpr{
-																									pos: position{line: 2881, col: 13, offset: 91072},
+																									pos: position{line: 2885, col: 13, offset: 91175},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 13, offset: 91072},
+																											pos:        position{line: 2885, col: 13, offset: 91175},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 20, offset: 91079},
+																											pos:        position{line: 2885, col: 20, offset: 91182},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 29, offset: 91088},
+																											pos:        position{line: 2885, col: 29, offset: 91191},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38811,9 +38855,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2891, col: 8, offset: 91248},
+																								pos: position{line: 2895, col: 8, offset: 91351},
 																								expr: &anyMatcher{
-																									line: 2891, col: 9, offset: 91249,
+																									line: 2895, col: 9, offset: 91352,
 																								},
 																							},
 																						},
@@ -38858,10 +38902,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 748, col: 8, offset: 23941},
 																						expr: &actionExpr{
-																							pos: position{line: 2872, col: 10, offset: 90900},
+																							pos: position{line: 2876, col: 10, offset: 91003},
 																							run: (*parser).callonShortcutParagraph123,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2872, col: 10, offset: 90900},
+																								pos:        position{line: 2876, col: 10, offset: 91003},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38870,28 +38914,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2894, col: 8, offset: 91298},
+																						pos: position{line: 2898, col: 8, offset: 91401},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2881, col: 12, offset: 91071},
+																								pos: position{line: 2885, col: 12, offset: 91174},
 																								run: (*parser).callonShortcutParagraph126,
 																								expr: &choiceExpr{
-																									pos: position{line: 2881, col: 13, offset: 91072},
+																									pos: position{line: 2885, col: 13, offset: 91175},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 13, offset: 91072},
+																											pos:        position{line: 2885, col: 13, offset: 91175},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 20, offset: 91079},
+																											pos:        position{line: 2885, col: 20, offset: 91182},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 29, offset: 91088},
+																											pos:        position{line: 2885, col: 29, offset: 91191},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38900,9 +38944,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2891, col: 8, offset: 91248},
+																								pos: position{line: 2895, col: 8, offset: 91351},
 																								expr: &anyMatcher{
-																									line: 2891, col: 9, offset: 91249,
+																									line: 2895, col: 9, offset: 91352,
 																								},
 																							},
 																						},
@@ -38943,10 +38987,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 759, col: 52, offset: 24353},
 																						expr: &actionExpr{
-																							pos: position{line: 2872, col: 10, offset: 90900},
+																							pos: position{line: 2876, col: 10, offset: 91003},
 																							run: (*parser).callonShortcutParagraph141,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2872, col: 10, offset: 90900},
+																								pos:        position{line: 2876, col: 10, offset: 91003},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38955,28 +38999,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2894, col: 8, offset: 91298},
+																						pos: position{line: 2898, col: 8, offset: 91401},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2881, col: 12, offset: 91071},
+																								pos: position{line: 2885, col: 12, offset: 91174},
 																								run: (*parser).callonShortcutParagraph144,
 																								expr: &choiceExpr{
-																									pos: position{line: 2881, col: 13, offset: 91072},
+																									pos: position{line: 2885, col: 13, offset: 91175},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 13, offset: 91072},
+																											pos:        position{line: 2885, col: 13, offset: 91175},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 20, offset: 91079},
+																											pos:        position{line: 2885, col: 20, offset: 91182},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 29, offset: 91088},
+																											pos:        position{line: 2885, col: 29, offset: 91191},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38985,9 +39029,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2891, col: 8, offset: 91248},
+																								pos: position{line: 2895, col: 8, offset: 91351},
 																								expr: &anyMatcher{
-																									line: 2891, col: 9, offset: 91249,
+																									line: 2895, col: 9, offset: 91352,
 																								},
 																							},
 																						},
@@ -39032,10 +39076,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 755, col: 8, offset: 24187},
 																						expr: &actionExpr{
-																							pos: position{line: 2872, col: 10, offset: 90900},
+																							pos: position{line: 2876, col: 10, offset: 91003},
 																							run: (*parser).callonShortcutParagraph160,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2872, col: 10, offset: 90900},
+																								pos:        position{line: 2876, col: 10, offset: 91003},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39044,28 +39088,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2894, col: 8, offset: 91298},
+																						pos: position{line: 2898, col: 8, offset: 91401},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2881, col: 12, offset: 91071},
+																								pos: position{line: 2885, col: 12, offset: 91174},
 																								run: (*parser).callonShortcutParagraph163,
 																								expr: &choiceExpr{
-																									pos: position{line: 2881, col: 13, offset: 91072},
+																									pos: position{line: 2885, col: 13, offset: 91175},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 13, offset: 91072},
+																											pos:        position{line: 2885, col: 13, offset: 91175},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 20, offset: 91079},
+																											pos:        position{line: 2885, col: 20, offset: 91182},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 29, offset: 91088},
+																											pos:        position{line: 2885, col: 29, offset: 91191},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39074,9 +39118,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2891, col: 8, offset: 91248},
+																								pos: position{line: 2895, col: 8, offset: 91351},
 																								expr: &anyMatcher{
-																									line: 2891, col: 9, offset: 91249,
+																									line: 2895, col: 9, offset: 91352,
 																								},
 																							},
 																						},
@@ -39121,10 +39165,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 770, col: 8, offset: 24730},
 																						expr: &actionExpr{
-																							pos: position{line: 2872, col: 10, offset: 90900},
+																							pos: position{line: 2876, col: 10, offset: 91003},
 																							run: (*parser).callonShortcutParagraph179,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2872, col: 10, offset: 90900},
+																								pos:        position{line: 2876, col: 10, offset: 91003},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39133,28 +39177,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2894, col: 8, offset: 91298},
+																						pos: position{line: 2898, col: 8, offset: 91401},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2881, col: 12, offset: 91071},
+																								pos: position{line: 2885, col: 12, offset: 91174},
 																								run: (*parser).callonShortcutParagraph182,
 																								expr: &choiceExpr{
-																									pos: position{line: 2881, col: 13, offset: 91072},
+																									pos: position{line: 2885, col: 13, offset: 91175},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 13, offset: 91072},
+																											pos:        position{line: 2885, col: 13, offset: 91175},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 20, offset: 91079},
+																											pos:        position{line: 2885, col: 20, offset: 91182},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 29, offset: 91088},
+																											pos:        position{line: 2885, col: 29, offset: 91191},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39163,9 +39207,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2891, col: 8, offset: 91248},
+																								pos: position{line: 2895, col: 8, offset: 91351},
 																								expr: &anyMatcher{
-																									line: 2891, col: 9, offset: 91249,
+																									line: 2895, col: 9, offset: 91352,
 																								},
 																							},
 																						},
@@ -39210,10 +39254,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 784, col: 8, offset: 25206},
 																						expr: &actionExpr{
-																							pos: position{line: 2872, col: 10, offset: 90900},
+																							pos: position{line: 2876, col: 10, offset: 91003},
 																							run: (*parser).callonShortcutParagraph198,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2872, col: 10, offset: 90900},
+																								pos:        position{line: 2876, col: 10, offset: 91003},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39222,28 +39266,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2894, col: 8, offset: 91298},
+																						pos: position{line: 2898, col: 8, offset: 91401},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2881, col: 12, offset: 91071},
+																								pos: position{line: 2885, col: 12, offset: 91174},
 																								run: (*parser).callonShortcutParagraph201,
 																								expr: &choiceExpr{
-																									pos: position{line: 2881, col: 13, offset: 91072},
+																									pos: position{line: 2885, col: 13, offset: 91175},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 13, offset: 91072},
+																											pos:        position{line: 2885, col: 13, offset: 91175},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 20, offset: 91079},
+																											pos:        position{line: 2885, col: 20, offset: 91182},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 29, offset: 91088},
+																											pos:        position{line: 2885, col: 29, offset: 91191},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39252,9 +39296,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2891, col: 8, offset: 91248},
+																								pos: position{line: 2895, col: 8, offset: 91351},
 																								expr: &anyMatcher{
-																									line: 2891, col: 9, offset: 91249,
+																									line: 2895, col: 9, offset: 91352,
 																								},
 																							},
 																						},
@@ -39299,10 +39343,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 791, col: 8, offset: 25458},
 																						expr: &actionExpr{
-																							pos: position{line: 2872, col: 10, offset: 90900},
+																							pos: position{line: 2876, col: 10, offset: 91003},
 																							run: (*parser).callonShortcutParagraph217,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2872, col: 10, offset: 90900},
+																								pos:        position{line: 2876, col: 10, offset: 91003},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39311,28 +39355,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2894, col: 8, offset: 91298},
+																						pos: position{line: 2898, col: 8, offset: 91401},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2881, col: 12, offset: 91071},
+																								pos: position{line: 2885, col: 12, offset: 91174},
 																								run: (*parser).callonShortcutParagraph220,
 																								expr: &choiceExpr{
-																									pos: position{line: 2881, col: 13, offset: 91072},
+																									pos: position{line: 2885, col: 13, offset: 91175},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 13, offset: 91072},
+																											pos:        position{line: 2885, col: 13, offset: 91175},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 20, offset: 91079},
+																											pos:        position{line: 2885, col: 20, offset: 91182},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 29, offset: 91088},
+																											pos:        position{line: 2885, col: 29, offset: 91191},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39341,9 +39385,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2891, col: 8, offset: 91248},
+																								pos: position{line: 2895, col: 8, offset: 91351},
 																								expr: &anyMatcher{
-																									line: 2891, col: 9, offset: 91249,
+																									line: 2895, col: 9, offset: 91352,
 																								},
 																							},
 																						},
@@ -39388,10 +39432,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 798, col: 8, offset: 25708},
 																						expr: &actionExpr{
-																							pos: position{line: 2872, col: 10, offset: 90900},
+																							pos: position{line: 2876, col: 10, offset: 91003},
 																							run: (*parser).callonShortcutParagraph236,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2872, col: 10, offset: 90900},
+																								pos:        position{line: 2876, col: 10, offset: 91003},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39400,28 +39444,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2894, col: 8, offset: 91298},
+																						pos: position{line: 2898, col: 8, offset: 91401},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2881, col: 12, offset: 91071},
+																								pos: position{line: 2885, col: 12, offset: 91174},
 																								run: (*parser).callonShortcutParagraph239,
 																								expr: &choiceExpr{
-																									pos: position{line: 2881, col: 13, offset: 91072},
+																									pos: position{line: 2885, col: 13, offset: 91175},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 13, offset: 91072},
+																											pos:        position{line: 2885, col: 13, offset: 91175},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 20, offset: 91079},
+																											pos:        position{line: 2885, col: 20, offset: 91182},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 29, offset: 91088},
+																											pos:        position{line: 2885, col: 29, offset: 91191},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39430,9 +39474,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2891, col: 8, offset: 91248},
+																								pos: position{line: 2895, col: 8, offset: 91351},
 																								expr: &anyMatcher{
-																									line: 2891, col: 9, offset: 91249,
+																									line: 2895, col: 9, offset: 91352,
 																								},
 																							},
 																						},
@@ -39477,10 +39521,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 805, col: 8, offset: 25954},
 																						expr: &actionExpr{
-																							pos: position{line: 2872, col: 10, offset: 90900},
+																							pos: position{line: 2876, col: 10, offset: 91003},
 																							run: (*parser).callonShortcutParagraph255,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2872, col: 10, offset: 90900},
+																								pos:        position{line: 2876, col: 10, offset: 91003},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39489,28 +39533,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2894, col: 8, offset: 91298},
+																						pos: position{line: 2898, col: 8, offset: 91401},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2881, col: 12, offset: 91071},
+																								pos: position{line: 2885, col: 12, offset: 91174},
 																								run: (*parser).callonShortcutParagraph258,
 																								expr: &choiceExpr{
-																									pos: position{line: 2881, col: 13, offset: 91072},
+																									pos: position{line: 2885, col: 13, offset: 91175},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 13, offset: 91072},
+																											pos:        position{line: 2885, col: 13, offset: 91175},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 20, offset: 91079},
+																											pos:        position{line: 2885, col: 20, offset: 91182},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2881, col: 29, offset: 91088},
+																											pos:        position{line: 2885, col: 29, offset: 91191},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39519,9 +39563,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2891, col: 8, offset: 91248},
+																								pos: position{line: 2895, col: 8, offset: 91351},
 																								expr: &anyMatcher{
-																									line: 2891, col: 9, offset: 91249,
+																									line: 2895, col: 9, offset: 91352,
 																								},
 																							},
 																						},
@@ -39537,23 +39581,23 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1768, col: 9, offset: 57336},
+												pos: position{line: 1772, col: 9, offset: 57439},
 												expr: &seqExpr{
-													pos: position{line: 1542, col: 27, offset: 49969},
+													pos: position{line: 1546, col: 27, offset: 50072},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 1542, col: 27, offset: 49969},
+															pos:        position{line: 1546, col: 27, offset: 50072},
 															val:        "+",
 															ignoreCase: false,
 															want:       "\"+\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 1542, col: 31, offset: 49973},
+															pos: position{line: 1546, col: 31, offset: 50076},
 															expr: &actionExpr{
-																pos: position{line: 2872, col: 10, offset: 90900},
+																pos: position{line: 2876, col: 10, offset: 91003},
 																run: (*parser).callonShortcutParagraph269,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2872, col: 10, offset: 90900},
+																	pos:        position{line: 2876, col: 10, offset: 91003},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -39562,25 +39606,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2881, col: 12, offset: 91071},
+															pos: position{line: 2885, col: 12, offset: 91174},
 															run: (*parser).callonShortcutParagraph271,
 															expr: &choiceExpr{
-																pos: position{line: 2881, col: 13, offset: 91072},
+																pos: position{line: 2885, col: 13, offset: 91175},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2881, col: 13, offset: 91072},
+																		pos:        position{line: 2885, col: 13, offset: 91175},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2881, col: 20, offset: 91079},
+																		pos:        position{line: 2885, col: 20, offset: 91182},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2881, col: 29, offset: 91088},
+																		pos:        position{line: 2885, col: 29, offset: 91191},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -39592,42 +39636,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1769, col: 9, offset: 57368},
+												pos:   position{line: 1773, col: 9, offset: 57471},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1769, col: 15, offset: 57374},
+													pos: position{line: 1773, col: 15, offset: 57477},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2479, col: 22, offset: 79786},
+															pos: position{line: 2483, col: 22, offset: 79889},
 															run: (*parser).callonShortcutParagraph278,
 															expr: &seqExpr{
-																pos: position{line: 2479, col: 22, offset: 79786},
+																pos: position{line: 2483, col: 22, offset: 79889},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2484, col: 31, offset: 80007},
+																		pos:        position{line: 2488, col: 31, offset: 80110},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2484, col: 36, offset: 80012},
+																		pos: position{line: 2488, col: 36, offset: 80115},
 																		expr: &litMatcher{
-																			pos:        position{line: 2484, col: 37, offset: 80013},
+																			pos:        position{line: 2488, col: 37, offset: 80116},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2479, col: 49, offset: 79813},
+																		pos:   position{line: 2483, col: 49, offset: 79916},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2818, col: 13, offset: 89426},
+																			pos: position{line: 2822, col: 13, offset: 89529},
 																			run: (*parser).callonShortcutParagraph284,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2818, col: 13, offset: 89426},
+																				pos: position{line: 2822, col: 13, offset: 89529},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2818, col: 13, offset: 89426},
+																					pos:        position{line: 2822, col: 13, offset: 89529},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39637,28 +39681,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2894, col: 8, offset: 91298},
+																		pos: position{line: 2898, col: 8, offset: 91401},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2881, col: 12, offset: 91071},
+																				pos: position{line: 2885, col: 12, offset: 91174},
 																				run: (*parser).callonShortcutParagraph288,
 																				expr: &choiceExpr{
-																					pos: position{line: 2881, col: 13, offset: 91072},
+																					pos: position{line: 2885, col: 13, offset: 91175},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 13, offset: 91072},
+																							pos:        position{line: 2885, col: 13, offset: 91175},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 20, offset: 91079},
+																							pos:        position{line: 2885, col: 20, offset: 91182},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 29, offset: 91088},
+																							pos:        position{line: 2885, col: 29, offset: 91191},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39667,9 +39711,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2891, col: 8, offset: 91248},
+																				pos: position{line: 2895, col: 8, offset: 91351},
 																				expr: &anyMatcher{
-																					line: 2891, col: 9, offset: 91249,
+																					line: 2895, col: 9, offset: 91352,
 																				},
 																			},
 																		},
@@ -39678,21 +39722,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1791, col: 5, offset: 57974},
+															pos: position{line: 1795, col: 5, offset: 58077},
 															run: (*parser).callonShortcutParagraph295,
 															expr: &seqExpr{
-																pos: position{line: 1791, col: 5, offset: 57974},
+																pos: position{line: 1795, col: 5, offset: 58077},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1791, col: 5, offset: 57974},
+																		pos:   position{line: 1795, col: 5, offset: 58077},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2822, col: 14, offset: 89493},
+																			pos: position{line: 2826, col: 14, offset: 89596},
 																			run: (*parser).callonShortcutParagraph298,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2822, col: 14, offset: 89493},
+																				pos: position{line: 2826, col: 14, offset: 89596},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2822, col: 14, offset: 89493},
+																					pos:        position{line: 2826, col: 14, offset: 89596},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39702,32 +39746,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1792, col: 5, offset: 57998},
+																		pos: position{line: 1796, col: 5, offset: 58101},
 																		run: (*parser).callonShortcutParagraph301,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2894, col: 8, offset: 91298},
+																		pos: position{line: 2898, col: 8, offset: 91401},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2881, col: 12, offset: 91071},
+																				pos: position{line: 2885, col: 12, offset: 91174},
 																				run: (*parser).callonShortcutParagraph303,
 																				expr: &choiceExpr{
-																					pos: position{line: 2881, col: 13, offset: 91072},
+																					pos: position{line: 2885, col: 13, offset: 91175},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 13, offset: 91072},
+																							pos:        position{line: 2885, col: 13, offset: 91175},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 20, offset: 91079},
+																							pos:        position{line: 2885, col: 20, offset: 91182},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 29, offset: 91088},
+																							pos:        position{line: 2885, col: 29, offset: 91191},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39736,9 +39780,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2891, col: 8, offset: 91248},
+																				pos: position{line: 2895, col: 8, offset: 91351},
 																				expr: &anyMatcher{
-																					line: 2891, col: 9, offset: 91249,
+																					line: 2895, col: 9, offset: 91352,
 																				},
 																			},
 																		},
@@ -39760,96 +39804,96 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraph",
-			pos:  position{line: 1776, col: 1, offset: 57578},
+			pos:  position{line: 1780, col: 1, offset: 57681},
 			expr: &actionExpr{
-				pos: position{line: 1777, col: 5, offset: 57596},
+				pos: position{line: 1781, col: 5, offset: 57699},
 				run: (*parser).callonParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1777, col: 5, offset: 57596},
+					pos: position{line: 1781, col: 5, offset: 57699},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1777, col: 5, offset: 57596},
+							pos:   position{line: 1781, col: 5, offset: 57699},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1777, col: 11, offset: 57602},
+								pos: position{line: 1781, col: 11, offset: 57705},
 								expr: &actionExpr{
-									pos: position{line: 1732, col: 5, offset: 56104},
+									pos: position{line: 1736, col: 5, offset: 56207},
 									run: (*parser).callonParagraph5,
 									expr: &seqExpr{
-										pos: position{line: 1732, col: 5, offset: 56104},
+										pos: position{line: 1736, col: 5, offset: 56207},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1732, col: 5, offset: 56104},
+												pos: position{line: 1736, col: 5, offset: 56207},
 												run: (*parser).callonParagraph7,
 											},
 											&labeledExpr{
-												pos:   position{line: 1735, col: 5, offset: 56167},
+												pos:   position{line: 1739, col: 5, offset: 56270},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1735, col: 12, offset: 56174},
+													pos: position{line: 1739, col: 12, offset: 56277},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1735, col: 12, offset: 56174},
+															pos: position{line: 1739, col: 12, offset: 56277},
 															run: (*parser).callonParagraph10,
 															expr: &litMatcher{
-																pos:        position{line: 1735, col: 12, offset: 56174},
+																pos:        position{line: 1739, col: 12, offset: 56277},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1737, col: 13, offset: 56230},
+															pos: position{line: 1741, col: 13, offset: 56333},
 															run: (*parser).callonParagraph12,
 															expr: &litMatcher{
-																pos:        position{line: 1737, col: 13, offset: 56230},
+																pos:        position{line: 1741, col: 13, offset: 56333},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1739, col: 13, offset: 56288},
+															pos: position{line: 1743, col: 13, offset: 56391},
 															run: (*parser).callonParagraph14,
 															expr: &litMatcher{
-																pos:        position{line: 1739, col: 13, offset: 56288},
+																pos:        position{line: 1743, col: 13, offset: 56391},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1741, col: 13, offset: 56356},
+															pos: position{line: 1745, col: 13, offset: 56459},
 															run: (*parser).callonParagraph16,
 															expr: &litMatcher{
-																pos:        position{line: 1741, col: 13, offset: 56356},
+																pos:        position{line: 1745, col: 13, offset: 56459},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1743, col: 13, offset: 56420},
+															pos: position{line: 1747, col: 13, offset: 56523},
 															run: (*parser).callonParagraph18,
 															expr: &litMatcher{
-																pos:        position{line: 1743, col: 13, offset: 56420},
+																pos:        position{line: 1747, col: 13, offset: 56523},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1745, col: 13, offset: 56484},
+															pos: position{line: 1749, col: 13, offset: 56587},
 															run: (*parser).callonParagraph20,
 															expr: &andExpr{
-																pos: position{line: 1745, col: 13, offset: 56484},
+																pos: position{line: 1749, col: 13, offset: 56587},
 																expr: &actionExpr{
-																	pos: position{line: 2876, col: 11, offset: 90961},
+																	pos: position{line: 2880, col: 11, offset: 91064},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2876, col: 11, offset: 90961},
+																		pos: position{line: 2880, col: 11, offset: 91064},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 11, offset: 90961},
+																			pos:        position{line: 2880, col: 11, offset: 91064},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -39863,17 +39907,17 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1747, col: 12, offset: 56554},
+												pos: position{line: 1751, col: 12, offset: 56657},
 												expr: &seqExpr{
-													pos: position{line: 1747, col: 14, offset: 56556},
+													pos: position{line: 1751, col: 14, offset: 56659},
 													exprs: []interface{}{
 														&zeroOrMoreExpr{
-															pos: position{line: 1747, col: 14, offset: 56556},
+															pos: position{line: 1751, col: 14, offset: 56659},
 															expr: &actionExpr{
-																pos: position{line: 2872, col: 10, offset: 90900},
+																pos: position{line: 2876, col: 10, offset: 91003},
 																run: (*parser).callonParagraph28,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2872, col: 10, offset: 90900},
+																	pos:        position{line: 2876, col: 10, offset: 91003},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -39882,28 +39926,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2894, col: 8, offset: 91298},
+															pos: position{line: 2898, col: 8, offset: 91401},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2881, col: 12, offset: 91071},
+																	pos: position{line: 2885, col: 12, offset: 91174},
 																	run: (*parser).callonParagraph31,
 																	expr: &choiceExpr{
-																		pos: position{line: 2881, col: 13, offset: 91072},
+																		pos: position{line: 2885, col: 13, offset: 91175},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2881, col: 13, offset: 91072},
+																				pos:        position{line: 2885, col: 13, offset: 91175},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2881, col: 20, offset: 91079},
+																				pos:        position{line: 2885, col: 20, offset: 91182},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2881, col: 29, offset: 91088},
+																				pos:        position{line: 2885, col: 29, offset: 91191},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -39912,9 +39956,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2891, col: 8, offset: 91248},
+																	pos: position{line: 2895, col: 8, offset: 91351},
 																	expr: &anyMatcher{
-																		line: 2891, col: 9, offset: 91249,
+																		line: 2895, col: 9, offset: 91352,
 																	},
 																},
 															},
@@ -39928,24 +39972,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1778, col: 5, offset: 57625},
+							pos:   position{line: 1782, col: 5, offset: 57728},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1791, col: 5, offset: 57974},
+								pos: position{line: 1795, col: 5, offset: 58077},
 								run: (*parser).callonParagraph39,
 								expr: &seqExpr{
-									pos: position{line: 1791, col: 5, offset: 57974},
+									pos: position{line: 1795, col: 5, offset: 58077},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1791, col: 5, offset: 57974},
+											pos:   position{line: 1795, col: 5, offset: 58077},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2822, col: 14, offset: 89493},
+												pos: position{line: 2826, col: 14, offset: 89596},
 												run: (*parser).callonParagraph42,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2822, col: 14, offset: 89493},
+													pos: position{line: 2826, col: 14, offset: 89596},
 													expr: &charClassMatcher{
-														pos:        position{line: 2822, col: 14, offset: 89493},
+														pos:        position{line: 2826, col: 14, offset: 89596},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -39955,32 +39999,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1792, col: 5, offset: 57998},
+											pos: position{line: 1796, col: 5, offset: 58101},
 											run: (*parser).callonParagraph45,
 										},
 										&choiceExpr{
-											pos: position{line: 2894, col: 8, offset: 91298},
+											pos: position{line: 2898, col: 8, offset: 91401},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2881, col: 12, offset: 91071},
+													pos: position{line: 2885, col: 12, offset: 91174},
 													run: (*parser).callonParagraph47,
 													expr: &choiceExpr{
-														pos: position{line: 2881, col: 13, offset: 91072},
+														pos: position{line: 2885, col: 13, offset: 91175},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2881, col: 13, offset: 91072},
+																pos:        position{line: 2885, col: 13, offset: 91175},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2881, col: 20, offset: 91079},
+																pos:        position{line: 2885, col: 20, offset: 91182},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2881, col: 29, offset: 91088},
+																pos:        position{line: 2885, col: 29, offset: 91191},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -39989,9 +40033,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2891, col: 8, offset: 91248},
+													pos: position{line: 2895, col: 8, offset: 91351},
 													expr: &anyMatcher{
-														line: 2891, col: 9, offset: 91249,
+														line: 2895, col: 9, offset: 91352,
 													},
 												},
 											},
@@ -40001,24 +40045,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1779, col: 5, offset: 57659},
+							pos:   position{line: 1783, col: 5, offset: 57762},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1779, col: 16, offset: 57670},
+								pos: position{line: 1783, col: 16, offset: 57773},
 								expr: &actionExpr{
-									pos: position{line: 1780, col: 9, offset: 57680},
+									pos: position{line: 1784, col: 9, offset: 57783},
 									run: (*parser).callonParagraph56,
 									expr: &seqExpr{
-										pos: position{line: 1780, col: 9, offset: 57680},
+										pos: position{line: 1784, col: 9, offset: 57783},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2889, col: 11, offset: 91234},
+												pos: position{line: 2893, col: 11, offset: 91337},
 												expr: &anyMatcher{
-													line: 2889, col: 13, offset: 91236,
+													line: 2893, col: 13, offset: 91339,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1781, col: 9, offset: 57695},
+												pos: position{line: 1785, col: 9, offset: 57798},
 												expr: &actionExpr{
 													pos: position{line: 676, col: 14, offset: 21496},
 													run: (*parser).callonParagraph61,
@@ -40026,18 +40070,18 @@ var g = &grammar{
 														pos: position{line: 676, col: 14, offset: 21496},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2889, col: 11, offset: 91234},
+																pos: position{line: 2893, col: 11, offset: 91337},
 																expr: &anyMatcher{
-																	line: 2889, col: 13, offset: 91236,
+																	line: 2893, col: 13, offset: 91339,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 676, col: 21, offset: 21503},
 																expr: &actionExpr{
-																	pos: position{line: 2872, col: 10, offset: 90900},
+																	pos: position{line: 2876, col: 10, offset: 91003},
 																	run: (*parser).callonParagraph66,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2872, col: 10, offset: 90900},
+																		pos:        position{line: 2876, col: 10, offset: 91003},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -40046,28 +40090,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2894, col: 8, offset: 91298},
+																pos: position{line: 2898, col: 8, offset: 91401},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2881, col: 12, offset: 91071},
+																		pos: position{line: 2885, col: 12, offset: 91174},
 																		run: (*parser).callonParagraph69,
 																		expr: &choiceExpr{
-																			pos: position{line: 2881, col: 13, offset: 91072},
+																			pos: position{line: 2885, col: 13, offset: 91175},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2881, col: 13, offset: 91072},
+																					pos:        position{line: 2885, col: 13, offset: 91175},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2881, col: 20, offset: 91079},
+																					pos:        position{line: 2885, col: 20, offset: 91182},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2881, col: 29, offset: 91088},
+																					pos:        position{line: 2885, col: 29, offset: 91191},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -40076,9 +40120,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2891, col: 8, offset: 91248},
+																		pos: position{line: 2895, col: 8, offset: 91351},
 																		expr: &anyMatcher{
-																			line: 2891, col: 9, offset: 91249,
+																			line: 2895, col: 9, offset: 91352,
 																		},
 																	},
 																},
@@ -40088,49 +40132,49 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1782, col: 9, offset: 57714},
+												pos: position{line: 1786, col: 9, offset: 57817},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1782, col: 10, offset: 57715},
+													pos:  position{line: 1786, col: 10, offset: 57818},
 													name: "BlockAttributes",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1783, col: 9, offset: 57739},
+												pos:   position{line: 1787, col: 9, offset: 57842},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1783, col: 15, offset: 57745},
+													pos: position{line: 1787, col: 15, offset: 57848},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2479, col: 22, offset: 79786},
+															pos: position{line: 2483, col: 22, offset: 79889},
 															run: (*parser).callonParagraph80,
 															expr: &seqExpr{
-																pos: position{line: 2479, col: 22, offset: 79786},
+																pos: position{line: 2483, col: 22, offset: 79889},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2484, col: 31, offset: 80007},
+																		pos:        position{line: 2488, col: 31, offset: 80110},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2484, col: 36, offset: 80012},
+																		pos: position{line: 2488, col: 36, offset: 80115},
 																		expr: &litMatcher{
-																			pos:        position{line: 2484, col: 37, offset: 80013},
+																			pos:        position{line: 2488, col: 37, offset: 80116},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2479, col: 49, offset: 79813},
+																		pos:   position{line: 2483, col: 49, offset: 79916},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2818, col: 13, offset: 89426},
+																			pos: position{line: 2822, col: 13, offset: 89529},
 																			run: (*parser).callonParagraph86,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2818, col: 13, offset: 89426},
+																				pos: position{line: 2822, col: 13, offset: 89529},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2818, col: 13, offset: 89426},
+																					pos:        position{line: 2822, col: 13, offset: 89529},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40140,28 +40184,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2894, col: 8, offset: 91298},
+																		pos: position{line: 2898, col: 8, offset: 91401},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2881, col: 12, offset: 91071},
+																				pos: position{line: 2885, col: 12, offset: 91174},
 																				run: (*parser).callonParagraph90,
 																				expr: &choiceExpr{
-																					pos: position{line: 2881, col: 13, offset: 91072},
+																					pos: position{line: 2885, col: 13, offset: 91175},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 13, offset: 91072},
+																							pos:        position{line: 2885, col: 13, offset: 91175},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 20, offset: 91079},
+																							pos:        position{line: 2885, col: 20, offset: 91182},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 29, offset: 91088},
+																							pos:        position{line: 2885, col: 29, offset: 91191},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40170,9 +40214,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2891, col: 8, offset: 91248},
+																				pos: position{line: 2895, col: 8, offset: 91351},
 																				expr: &anyMatcher{
-																					line: 2891, col: 9, offset: 91249,
+																					line: 2895, col: 9, offset: 91352,
 																				},
 																			},
 																		},
@@ -40181,21 +40225,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1791, col: 5, offset: 57974},
+															pos: position{line: 1795, col: 5, offset: 58077},
 															run: (*parser).callonParagraph97,
 															expr: &seqExpr{
-																pos: position{line: 1791, col: 5, offset: 57974},
+																pos: position{line: 1795, col: 5, offset: 58077},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1791, col: 5, offset: 57974},
+																		pos:   position{line: 1795, col: 5, offset: 58077},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2822, col: 14, offset: 89493},
+																			pos: position{line: 2826, col: 14, offset: 89596},
 																			run: (*parser).callonParagraph100,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2822, col: 14, offset: 89493},
+																				pos: position{line: 2826, col: 14, offset: 89596},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2822, col: 14, offset: 89493},
+																					pos:        position{line: 2826, col: 14, offset: 89596},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40205,32 +40249,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1792, col: 5, offset: 57998},
+																		pos: position{line: 1796, col: 5, offset: 58101},
 																		run: (*parser).callonParagraph103,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2894, col: 8, offset: 91298},
+																		pos: position{line: 2898, col: 8, offset: 91401},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2881, col: 12, offset: 91071},
+																				pos: position{line: 2885, col: 12, offset: 91174},
 																				run: (*parser).callonParagraph105,
 																				expr: &choiceExpr{
-																					pos: position{line: 2881, col: 13, offset: 91072},
+																					pos: position{line: 2885, col: 13, offset: 91175},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 13, offset: 91072},
+																							pos:        position{line: 2885, col: 13, offset: 91175},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 20, offset: 91079},
+																							pos:        position{line: 2885, col: 20, offset: 91182},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 29, offset: 91088},
+																							pos:        position{line: 2885, col: 29, offset: 91191},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40239,9 +40283,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2891, col: 8, offset: 91248},
+																				pos: position{line: 2895, col: 8, offset: 91351},
 																				expr: &anyMatcher{
-																					line: 2891, col: 9, offset: 91249,
+																					line: 2895, col: 9, offset: 91352,
 																				},
 																			},
 																		},
@@ -40263,16 +40307,16 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedText",
-			pos:  position{line: 1802, col: 1, offset: 58480},
+			pos:  position{line: 1806, col: 1, offset: 58583},
 			expr: &choiceExpr{
-				pos: position{line: 1802, col: 15, offset: 58494},
+				pos: position{line: 1806, col: 15, offset: 58597},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1802, col: 15, offset: 58494},
+						pos:  position{line: 1806, col: 15, offset: 58597},
 						name: "EscapedQuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1802, col: 35, offset: 58514},
+						pos:  position{line: 1806, col: 35, offset: 58617},
 						name: "UnescapedQuotedText",
 					},
 				},
@@ -40280,65 +40324,65 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedQuotedText",
-			pos:  position{line: 1804, col: 1, offset: 58535},
+			pos:  position{line: 1808, col: 1, offset: 58638},
 			expr: &actionExpr{
-				pos: position{line: 1805, col: 5, offset: 58560},
+				pos: position{line: 1809, col: 5, offset: 58663},
 				run: (*parser).callonEscapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1805, col: 5, offset: 58560},
+					pos: position{line: 1809, col: 5, offset: 58663},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1805, col: 5, offset: 58560},
+							pos:   position{line: 1809, col: 5, offset: 58663},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1805, col: 16, offset: 58571},
+								pos: position{line: 1809, col: 16, offset: 58674},
 								expr: &actionExpr{
-									pos: position{line: 1805, col: 17, offset: 58572},
+									pos: position{line: 1809, col: 17, offset: 58675},
 									run: (*parser).callonEscapedQuotedText5,
 									expr: &ruleRefExpr{
-										pos:  position{line: 1805, col: 17, offset: 58572},
+										pos:  position{line: 1809, col: 17, offset: 58675},
 										name: "LongHandAttributes",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 1808, col: 5, offset: 58640},
+							pos: position{line: 1812, col: 5, offset: 58743},
 							expr: &litMatcher{
-								pos:        position{line: 1808, col: 7, offset: 58642},
+								pos:        position{line: 1812, col: 7, offset: 58745},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1809, col: 5, offset: 58651},
+							pos:   position{line: 1813, col: 5, offset: 58754},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1810, col: 9, offset: 58669},
+								pos: position{line: 1814, col: 9, offset: 58772},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1810, col: 9, offset: 58669},
+										pos:  position{line: 1814, col: 9, offset: 58772},
 										name: "EscapedBoldText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1811, col: 11, offset: 58696},
+										pos:  position{line: 1815, col: 11, offset: 58799},
 										name: "EscapedItalicText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1812, col: 11, offset: 58724},
+										pos:  position{line: 1816, col: 11, offset: 58827},
 										name: "EscapedMonospaceText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1813, col: 11, offset: 58755},
+										pos:  position{line: 1817, col: 11, offset: 58858},
 										name: "EscapedMarkedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1814, col: 11, offset: 58783},
+										pos:  position{line: 1818, col: 11, offset: 58886},
 										name: "EscapedSubscriptText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1815, col: 11, offset: 58814},
+										pos:  position{line: 1819, col: 11, offset: 58917},
 										name: "EscapedSuperscriptText",
 									},
 								},
@@ -40350,36 +40394,36 @@ var g = &grammar{
 		},
 		{
 			name: "UnescapedQuotedText",
-			pos:  position{line: 1820, col: 1, offset: 58934},
+			pos:  position{line: 1824, col: 1, offset: 59037},
 			expr: &actionExpr{
-				pos: position{line: 1821, col: 5, offset: 58976},
+				pos: position{line: 1825, col: 5, offset: 59079},
 				run: (*parser).callonUnescapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1821, col: 5, offset: 58976},
+					pos: position{line: 1825, col: 5, offset: 59079},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1821, col: 5, offset: 58976},
+							pos:   position{line: 1825, col: 5, offset: 59079},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1821, col: 16, offset: 58987},
+								pos: position{line: 1825, col: 16, offset: 59090},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1821, col: 17, offset: 58988},
+									pos:  position{line: 1825, col: 17, offset: 59091},
 									name: "LongHandAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1822, col: 5, offset: 59013},
+							pos:   position{line: 1826, col: 5, offset: 59116},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1822, col: 14, offset: 59022},
+								pos: position{line: 1826, col: 14, offset: 59125},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1822, col: 14, offset: 59022},
+										pos:  position{line: 1826, col: 14, offset: 59125},
 										name: "SingleQuotedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1822, col: 33, offset: 59041},
+										pos:  position{line: 1826, col: 33, offset: 59144},
 										name: "DoubleQuotedText",
 									},
 								},
@@ -40391,32 +40435,32 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedText",
-			pos:  position{line: 1830, col: 1, offset: 59272},
+			pos:  position{line: 1834, col: 1, offset: 59375},
 			expr: &choiceExpr{
-				pos: position{line: 1831, col: 5, offset: 59297},
+				pos: position{line: 1835, col: 5, offset: 59400},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1831, col: 5, offset: 59297},
+						pos:  position{line: 1835, col: 5, offset: 59400},
 						name: "SingleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1832, col: 7, offset: 59324},
+						pos:  position{line: 1836, col: 7, offset: 59427},
 						name: "SingleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1833, col: 7, offset: 59352},
+						pos:  position{line: 1837, col: 7, offset: 59455},
 						name: "SingleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1834, col: 7, offset: 59384},
+						pos:  position{line: 1838, col: 7, offset: 59487},
 						name: "SingleQuoteMarkedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1835, col: 7, offset: 59412},
+						pos:  position{line: 1839, col: 7, offset: 59515},
 						name: "SubscriptText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1836, col: 7, offset: 59433},
+						pos:  position{line: 1840, col: 7, offset: 59536},
 						name: "SuperscriptText",
 					},
 				},
@@ -40424,24 +40468,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedText",
-			pos:  position{line: 1838, col: 1, offset: 59451},
+			pos:  position{line: 1842, col: 1, offset: 59554},
 			expr: &choiceExpr{
-				pos: position{line: 1839, col: 5, offset: 59476},
+				pos: position{line: 1843, col: 5, offset: 59579},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1839, col: 5, offset: 59476},
+						pos:  position{line: 1843, col: 5, offset: 59579},
 						name: "DoubleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1840, col: 7, offset: 59502},
+						pos:  position{line: 1844, col: 7, offset: 59605},
 						name: "DoubleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1841, col: 7, offset: 59530},
+						pos:  position{line: 1845, col: 7, offset: 59633},
 						name: "DoubleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1842, col: 7, offset: 59561},
+						pos:  position{line: 1846, col: 7, offset: 59664},
 						name: "DoubleQuoteMarkedText",
 					},
 				},
@@ -40449,26 +40493,26 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedTextElement",
-			pos:  position{line: 1856, col: 1, offset: 59915},
+			pos:  position{line: 1860, col: 1, offset: 60018},
 			expr: &choiceExpr{
-				pos: position{line: 1857, col: 5, offset: 59941},
+				pos: position{line: 1861, col: 5, offset: 60044},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2771, col: 5, offset: 88121},
+						pos: position{line: 2775, col: 5, offset: 88224},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2771, col: 5, offset: 88121},
+							pos: position{line: 2775, col: 5, offset: 88224},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2771, col: 5, offset: 88121},
+									pos:   position{line: 2775, col: 5, offset: 88224},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2771, col: 11, offset: 88127},
+										pos: position{line: 2775, col: 11, offset: 88230},
 										run: (*parser).callonQuotedTextElement5,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2771, col: 11, offset: 88127},
+											pos: position{line: 2775, col: 11, offset: 88230},
 											expr: &charClassMatcher{
-												pos:        position{line: 2771, col: 11, offset: 88127},
+												pos:        position{line: 2775, col: 11, offset: 88230},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40478,44 +40522,44 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2774, col: 5, offset: 88185},
+									pos: position{line: 2778, col: 5, offset: 88288},
 									expr: &seqExpr{
-										pos: position{line: 2775, col: 9, offset: 88196},
+										pos: position{line: 2779, col: 9, offset: 88299},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2775, col: 9, offset: 88196},
+												pos:        position{line: 2779, col: 9, offset: 88299},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2776, col: 9, offset: 88245},
+												pos: position{line: 2780, col: 9, offset: 88348},
 												run: (*parser).callonQuotedTextElement11,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2780, col: 5, offset: 88325},
+									pos: position{line: 2784, col: 5, offset: 88428},
 									expr: &seqExpr{
-										pos: position{line: 2781, col: 9, offset: 88336},
+										pos: position{line: 2785, col: 9, offset: 88439},
 										exprs: []interface{}{
 											&zeroOrMoreExpr{
-												pos: position{line: 2781, col: 9, offset: 88336},
+												pos: position{line: 2785, col: 9, offset: 88439},
 												expr: &seqExpr{
-													pos: position{line: 2781, col: 10, offset: 88337},
+													pos: position{line: 2785, col: 10, offset: 88440},
 													exprs: []interface{}{
 														&charClassMatcher{
-															pos:        position{line: 2781, col: 10, offset: 88337},
+															pos:        position{line: 2785, col: 10, offset: 88440},
 															val:        "[._%+-]",
 															chars:      []rune{'.', '_', '%', '+', '-'},
 															ignoreCase: false,
 															inverted:   false,
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2781, col: 18, offset: 88345},
+															pos: position{line: 2785, col: 18, offset: 88448},
 															expr: &charClassMatcher{
-																pos:        position{line: 2781, col: 18, offset: 88345},
+																pos:        position{line: 2785, col: 18, offset: 88448},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -40526,13 +40570,13 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 2781, col: 30, offset: 88357},
+												pos:        position{line: 2785, col: 30, offset: 88460},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2781, col: 34, offset: 88361},
+												pos:        position{line: 2785, col: 34, offset: 88464},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40545,12 +40589,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2876, col: 11, offset: 90961},
+						pos: position{line: 2880, col: 11, offset: 91064},
 						run: (*parser).callonQuotedTextElement21,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2876, col: 11, offset: 90961},
+							pos: position{line: 2880, col: 11, offset: 91064},
 							expr: &charClassMatcher{
-								pos:        position{line: 2876, col: 11, offset: 90961},
+								pos:        position{line: 2880, col: 11, offset: 91064},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -40559,29 +40603,29 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1859, col: 7, offset: 60004},
+						pos:  position{line: 1863, col: 7, offset: 60107},
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2497, col: 5, offset: 80503},
+						pos: position{line: 2501, col: 5, offset: 80606},
 						run: (*parser).callonQuotedTextElement25,
 						expr: &seqExpr{
-							pos: position{line: 2497, col: 5, offset: 80503},
+							pos: position{line: 2501, col: 5, offset: 80606},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2497, col: 5, offset: 80503},
+									pos: position{line: 2501, col: 5, offset: 80606},
 									run: (*parser).callonQuotedTextElement27,
 								},
 								&litMatcher{
-									pos:        position{line: 2500, col: 5, offset: 80574},
+									pos:        position{line: 2504, col: 5, offset: 80677},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2500, col: 10, offset: 80579},
+									pos: position{line: 2504, col: 10, offset: 80682},
 									expr: &charClassMatcher{
-										pos:        position{line: 2500, col: 11, offset: 80580},
+										pos:        position{line: 2504, col: 11, offset: 80683},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -40592,29 +40636,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2506, col: 5, offset: 80772},
+						pos: position{line: 2510, col: 5, offset: 80875},
 						run: (*parser).callonQuotedTextElement31,
 						expr: &seqExpr{
-							pos: position{line: 2506, col: 5, offset: 80772},
+							pos: position{line: 2510, col: 5, offset: 80875},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2506, col: 5, offset: 80772},
+									pos: position{line: 2510, col: 5, offset: 80875},
 									run: (*parser).callonQuotedTextElement33,
 								},
 								&andCodeExpr{
-									pos: position{line: 2509, col: 5, offset: 80843},
+									pos: position{line: 2513, col: 5, offset: 80946},
 									run: (*parser).callonQuotedTextElement34,
 								},
 								&litMatcher{
-									pos:        position{line: 2513, col: 5, offset: 80968},
+									pos:        position{line: 2517, col: 5, offset: 81071},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2513, col: 9, offset: 80972},
+									pos: position{line: 2517, col: 9, offset: 81075},
 									expr: &charClassMatcher{
-										pos:        position{line: 2513, col: 10, offset: 80973},
+										pos:        position{line: 2517, col: 10, offset: 81076},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -40625,27 +40669,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2789, col: 5, offset: 88554},
+						pos: position{line: 2793, col: 5, offset: 88657},
 						run: (*parser).callonQuotedTextElement38,
 						expr: &choiceExpr{
-							pos: position{line: 2790, col: 9, offset: 88564},
+							pos: position{line: 2794, col: 9, offset: 88667},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2790, col: 10, offset: 88565},
+									pos:        position{line: 2794, col: 10, offset: 88668},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2792, col: 13, offset: 88662},
+									pos: position{line: 2796, col: 13, offset: 88765},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2792, col: 13, offset: 88662},
+											pos: position{line: 2796, col: 13, offset: 88765},
 											run: (*parser).callonQuotedTextElement42,
 										},
 										&litMatcher{
-											pos:        position{line: 2795, col: 13, offset: 88762},
+											pos:        position{line: 2799, col: 13, offset: 88865},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -40653,20 +40697,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2795, col: 19, offset: 88768},
+									pos:        position{line: 2799, col: 19, offset: 88871},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2798, col: 13, offset: 88806},
+									pos: position{line: 2802, col: 13, offset: 88909},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2798, col: 13, offset: 88806},
+											pos: position{line: 2802, col: 13, offset: 88909},
 											run: (*parser).callonQuotedTextElement46,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2801, col: 14, offset: 88899},
+											pos:        position{line: 2805, col: 14, offset: 89002},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -40675,18 +40719,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2803, col: 12, offset: 88943},
+									pos: position{line: 2807, col: 12, offset: 89046},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2803, col: 12, offset: 88943},
+											pos:        position{line: 2807, col: 12, offset: 89046},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2803, col: 16, offset: 88947},
+											pos: position{line: 2807, col: 16, offset: 89050},
 											expr: &litMatcher{
-												pos:        position{line: 2803, col: 17, offset: 88948},
+												pos:        position{line: 2807, col: 17, offset: 89051},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -41044,31 +41088,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2885, col: 18, offset: 91171},
+						pos: position{line: 2889, col: 18, offset: 91274},
 						run: (*parser).callonQuotedTextElement121,
 						expr: &seqExpr{
-							pos: position{line: 2885, col: 18, offset: 91171},
+							pos: position{line: 2889, col: 18, offset: 91274},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2881, col: 12, offset: 91071},
+									pos: position{line: 2885, col: 12, offset: 91174},
 									run: (*parser).callonQuotedTextElement123,
 									expr: &choiceExpr{
-										pos: position{line: 2881, col: 13, offset: 91072},
+										pos: position{line: 2885, col: 13, offset: 91175},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2881, col: 13, offset: 91072},
+												pos:        position{line: 2885, col: 13, offset: 91175},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2881, col: 20, offset: 91079},
+												pos:        position{line: 2885, col: 20, offset: 91182},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2881, col: 29, offset: 91088},
+												pos:        position{line: 2885, col: 29, offset: 91191},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -41077,27 +41121,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2885, col: 26, offset: 91179},
+									pos: position{line: 2889, col: 26, offset: 91282},
 									expr: &actionExpr{
-										pos: position{line: 2881, col: 12, offset: 91071},
+										pos: position{line: 2885, col: 12, offset: 91174},
 										run: (*parser).callonQuotedTextElement129,
 										expr: &choiceExpr{
-											pos: position{line: 2881, col: 13, offset: 91072},
+											pos: position{line: 2885, col: 13, offset: 91175},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2881, col: 13, offset: 91072},
+													pos:        position{line: 2885, col: 13, offset: 91175},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2881, col: 20, offset: 91079},
+													pos:        position{line: 2885, col: 20, offset: 91182},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2881, col: 29, offset: 91088},
+													pos:        position{line: 2885, col: 29, offset: 91191},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -41110,31 +41154,31 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1864, col: 7, offset: 60171},
+						pos:  position{line: 1868, col: 7, offset: 60274},
 						name: "QuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1865, col: 7, offset: 60218},
+						pos:  position{line: 1869, col: 7, offset: 60321},
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2466, col: 5, offset: 79332},
+						pos: position{line: 2470, col: 5, offset: 79435},
 						run: (*parser).callonQuotedTextElement136,
 						expr: &seqExpr{
-							pos: position{line: 2466, col: 5, offset: 79332},
+							pos: position{line: 2470, col: 5, offset: 79435},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2466, col: 5, offset: 79332},
+									pos: position{line: 2470, col: 5, offset: 79435},
 									run: (*parser).callonQuotedTextElement138,
 								},
 								&labeledExpr{
-									pos:   position{line: 2469, col: 5, offset: 79408},
+									pos:   position{line: 2473, col: 5, offset: 79511},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2470, col: 9, offset: 79426},
+										pos: position{line: 2474, col: 9, offset: 79529},
 										run: (*parser).callonQuotedTextElement140,
 										expr: &charClassMatcher{
-											pos:        position{line: 2470, col: 10, offset: 79427},
+											pos:        position{line: 2474, col: 10, offset: 79530},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -41181,14 +41225,18 @@ var g = &grammar{
 									ignoreCase: false,
 									want:       "\"�\"",
 								},
+								&andCodeExpr{
+									pos: position{line: 1198, col: 5, offset: 37089},
+									run: (*parser).callonQuotedTextElement150,
+								},
 							},
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2811, col: 12, offset: 89208},
-						run: (*parser).callonQuotedTextElement150,
+						pos: position{line: 2815, col: 12, offset: 89311},
+						run: (*parser).callonQuotedTextElement151,
 						expr: &charClassMatcher{
-							pos:        position{line: 2811, col: 12, offset: 89208},
+							pos:        position{line: 2815, col: 12, offset: 89311},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -41200,29 +41248,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldText",
-			pos:  position{line: 1883, col: 1, offset: 60688},
+			pos:  position{line: 1887, col: 1, offset: 60791},
 			expr: &actionExpr{
-				pos: position{line: 1884, col: 5, offset: 60716},
+				pos: position{line: 1888, col: 5, offset: 60819},
 				run: (*parser).callonDoubleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1884, col: 5, offset: 60716},
+					pos: position{line: 1888, col: 5, offset: 60819},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1879, col: 38, offset: 60641},
+							pos:        position{line: 1883, col: 38, offset: 60744},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1885, col: 5, offset: 60755},
+							pos:   position{line: 1889, col: 5, offset: 60858},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1885, col: 15, offset: 60765},
+								pos:  position{line: 1889, col: 15, offset: 60868},
 								name: "DoubleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1881, col: 36, offset: 60682},
+							pos:        position{line: 1885, col: 36, offset: 60785},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
@@ -41233,44 +41281,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElements",
-			pos:  position{line: 1890, col: 1, offset: 60925},
+			pos:  position{line: 1894, col: 1, offset: 61028},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1890, col: 32, offset: 60956},
+				pos: position{line: 1894, col: 32, offset: 61059},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1890, col: 32, offset: 60956},
+					pos:  position{line: 1894, col: 32, offset: 61059},
 					name: "DoubleQuoteBoldTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteBoldTextElement",
-			pos:  position{line: 1892, col: 1, offset: 60987},
+			pos:  position{line: 1896, col: 1, offset: 61090},
 			expr: &actionExpr{
-				pos: position{line: 1893, col: 5, offset: 61022},
+				pos: position{line: 1897, col: 5, offset: 61125},
 				run: (*parser).callonDoubleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1893, col: 5, offset: 61022},
+					pos: position{line: 1897, col: 5, offset: 61125},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2889, col: 11, offset: 91234},
+							pos: position{line: 2893, col: 11, offset: 91337},
 							expr: &anyMatcher{
-								line: 2889, col: 13, offset: 91236,
+								line: 2893, col: 13, offset: 91339,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1894, col: 5, offset: 61033},
+							pos: position{line: 1898, col: 5, offset: 61136},
 							expr: &litMatcher{
-								pos:        position{line: 1881, col: 36, offset: 60682},
+								pos:        position{line: 1885, col: 36, offset: 60785},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1895, col: 5, offset: 61070},
+							pos:   position{line: 1899, col: 5, offset: 61173},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1895, col: 14, offset: 61079},
+								pos:  position{line: 1899, col: 14, offset: 61182},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41280,29 +41328,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldText",
-			pos:  position{line: 1920, col: 1, offset: 61759},
+			pos:  position{line: 1924, col: 1, offset: 61862},
 			expr: &actionExpr{
-				pos: position{line: 1921, col: 5, offset: 61787},
+				pos: position{line: 1925, col: 5, offset: 61890},
 				run: (*parser).callonSingleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1921, col: 5, offset: 61787},
+					pos: position{line: 1925, col: 5, offset: 61890},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1904, col: 5, offset: 61313},
+							pos:        position{line: 1908, col: 5, offset: 61416},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1905, col: 5, offset: 61322},
+							pos: position{line: 1909, col: 5, offset: 61425},
 							run: (*parser).callonSingleQuoteBoldText4,
 						},
 						&andExpr{
-							pos: position{line: 1909, col: 5, offset: 61440},
+							pos: position{line: 1913, col: 5, offset: 61543},
 							expr: &notExpr{
-								pos: position{line: 1909, col: 7, offset: 61442},
+								pos: position{line: 1913, col: 7, offset: 61545},
 								expr: &litMatcher{
-									pos:        position{line: 1909, col: 8, offset: 61443},
+									pos:        position{line: 1913, col: 8, offset: 61546},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41310,38 +41358,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1922, col: 5, offset: 61825},
+							pos:   position{line: 1926, col: 5, offset: 61928},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1922, col: 15, offset: 61835},
+								pos:  position{line: 1926, col: 15, offset: 61938},
 								name: "SingleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1912, col: 5, offset: 61563},
+							pos:        position{line: 1916, col: 5, offset: 61666},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&notExpr{
-							pos: position{line: 1913, col: 5, offset: 61572},
+							pos: position{line: 1917, col: 5, offset: 61675},
 							expr: &litMatcher{
-								pos:        position{line: 1913, col: 6, offset: 61573},
+								pos:        position{line: 1917, col: 6, offset: 61676},
 								val:        "*",
 								ignoreCase: false,
 								want:       "\"*\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1914, col: 5, offset: 61636},
+							pos: position{line: 1918, col: 5, offset: 61739},
 							run: (*parser).callonSingleQuoteBoldText13,
 						},
 						&andExpr{
-							pos: position{line: 1918, col: 5, offset: 61745},
+							pos: position{line: 1922, col: 5, offset: 61848},
 							expr: &notExpr{
-								pos: position{line: 1918, col: 7, offset: 61747},
+								pos: position{line: 1922, col: 7, offset: 61850},
 								expr: &charClassMatcher{
-									pos:        position{line: 2762, col: 13, offset: 87974},
+									pos:        position{line: 2766, col: 13, offset: 88077},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -41355,20 +41403,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElements",
-			pos:  position{line: 1927, col: 1, offset: 61995},
+			pos:  position{line: 1931, col: 1, offset: 62098},
 			expr: &actionExpr{
-				pos: position{line: 1928, col: 5, offset: 62032},
+				pos: position{line: 1932, col: 5, offset: 62135},
 				run: (*parser).callonSingleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1928, col: 5, offset: 62032},
+					pos: position{line: 1932, col: 5, offset: 62135},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1928, col: 5, offset: 62032},
+							pos: position{line: 1932, col: 5, offset: 62135},
 							expr: &actionExpr{
-								pos: position{line: 2872, col: 10, offset: 90900},
+								pos: position{line: 2876, col: 10, offset: 91003},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2872, col: 10, offset: 90900},
+									pos:        position{line: 2876, col: 10, offset: 91003},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41377,18 +41425,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1929, col: 5, offset: 62071},
+							pos:   position{line: 1933, col: 5, offset: 62174},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1929, col: 14, offset: 62080},
+								pos: position{line: 1933, col: 14, offset: 62183},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1929, col: 15, offset: 62081},
+									pos:  position{line: 1933, col: 15, offset: 62184},
 									name: "SingleQuoteBoldTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1930, col: 5, offset: 62115},
+							pos: position{line: 1934, col: 5, offset: 62218},
 							run: (*parser).callonSingleQuoteBoldTextElements9,
 						},
 					},
@@ -41397,49 +41445,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElement",
-			pos:  position{line: 1936, col: 1, offset: 62256},
+			pos:  position{line: 1940, col: 1, offset: 62359},
 			expr: &actionExpr{
-				pos: position{line: 1937, col: 5, offset: 62291},
+				pos: position{line: 1941, col: 5, offset: 62394},
 				run: (*parser).callonSingleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1937, col: 5, offset: 62291},
+					pos: position{line: 1941, col: 5, offset: 62394},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2889, col: 11, offset: 91234},
+							pos: position{line: 2893, col: 11, offset: 91337},
 							expr: &anyMatcher{
-								line: 2889, col: 13, offset: 91236,
+								line: 2893, col: 13, offset: 91339,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1938, col: 5, offset: 62319},
+							pos: position{line: 1942, col: 5, offset: 62422},
 							expr: &seqExpr{
-								pos: position{line: 1912, col: 5, offset: 61563},
+								pos: position{line: 1916, col: 5, offset: 61666},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1912, col: 5, offset: 61563},
+										pos:        position{line: 1916, col: 5, offset: 61666},
 										val:        "*",
 										ignoreCase: false,
 										want:       "\"*\"",
 									},
 									&notExpr{
-										pos: position{line: 1913, col: 5, offset: 61572},
+										pos: position{line: 1917, col: 5, offset: 61675},
 										expr: &litMatcher{
-											pos:        position{line: 1913, col: 6, offset: 61573},
+											pos:        position{line: 1917, col: 6, offset: 61676},
 											val:        "*",
 											ignoreCase: false,
 											want:       "\"*\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1914, col: 5, offset: 61636},
+										pos: position{line: 1918, col: 5, offset: 61739},
 										run: (*parser).callonSingleQuoteBoldTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 1918, col: 5, offset: 61745},
+										pos: position{line: 1922, col: 5, offset: 61848},
 										expr: &notExpr{
-											pos: position{line: 1918, col: 7, offset: 61747},
+											pos: position{line: 1922, col: 7, offset: 61850},
 											expr: &charClassMatcher{
-												pos:        position{line: 2762, col: 13, offset: 87974},
+												pos:        position{line: 2766, col: 13, offset: 88077},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41451,10 +41499,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1939, col: 5, offset: 62356},
+							pos:   position{line: 1943, col: 5, offset: 62459},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1939, col: 14, offset: 62365},
+								pos:  position{line: 1943, col: 14, offset: 62468},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41464,35 +41512,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedBoldText",
-			pos:  position{line: 1944, col: 1, offset: 62453},
+			pos:  position{line: 1948, col: 1, offset: 62556},
 			expr: &choiceExpr{
-				pos: position{line: 1946, col: 5, offset: 62514},
+				pos: position{line: 1950, col: 5, offset: 62617},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1946, col: 5, offset: 62514},
+						pos: position{line: 1950, col: 5, offset: 62617},
 						run: (*parser).callonEscapedBoldText2,
 						expr: &seqExpr{
-							pos: position{line: 1946, col: 5, offset: 62514},
+							pos: position{line: 1950, col: 5, offset: 62617},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1946, col: 5, offset: 62514},
+									pos:   position{line: 1950, col: 5, offset: 62617},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1852, col: 25, offset: 59861},
+										pos: position{line: 1856, col: 25, offset: 59964},
 										run: (*parser).callonEscapedBoldText5,
 										expr: &seqExpr{
-											pos: position{line: 1852, col: 25, offset: 59861},
+											pos: position{line: 1856, col: 25, offset: 59964},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1852, col: 25, offset: 59861},
+													pos:        position{line: 1856, col: 25, offset: 59964},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1852, col: 30, offset: 59866},
+													pos: position{line: 1856, col: 30, offset: 59969},
 													expr: &litMatcher{
-														pos:        position{line: 1852, col: 30, offset: 59866},
+														pos:        position{line: 1856, col: 30, offset: 59969},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -41503,21 +41551,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1946, col: 40, offset: 62549},
+									pos:        position{line: 1950, col: 40, offset: 62652},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1946, col: 45, offset: 62554},
+									pos:   position{line: 1950, col: 45, offset: 62657},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1946, col: 55, offset: 62564},
+										pos:  position{line: 1950, col: 55, offset: 62667},
 										name: "DoubleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1946, col: 84, offset: 62593},
+									pos:        position{line: 1950, col: 84, offset: 62696},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
@@ -41526,21 +41574,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1950, col: 7, offset: 62757},
+						pos: position{line: 1954, col: 7, offset: 62860},
 						run: (*parser).callonEscapedBoldText14,
 						expr: &seqExpr{
-							pos: position{line: 1950, col: 7, offset: 62757},
+							pos: position{line: 1954, col: 7, offset: 62860},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1950, col: 7, offset: 62757},
+									pos:   position{line: 1954, col: 7, offset: 62860},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1848, col: 25, offset: 59788},
+										pos: position{line: 1852, col: 25, offset: 59891},
 										run: (*parser).callonEscapedBoldText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1848, col: 25, offset: 59788},
+											pos: position{line: 1852, col: 25, offset: 59891},
 											expr: &litMatcher{
-												pos:        position{line: 1848, col: 25, offset: 59788},
+												pos:        position{line: 1852, col: 25, offset: 59891},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41549,21 +41597,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1950, col: 42, offset: 62792},
+									pos:        position{line: 1954, col: 42, offset: 62895},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1950, col: 47, offset: 62797},
+									pos:   position{line: 1954, col: 47, offset: 62900},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1950, col: 57, offset: 62807},
+										pos:  position{line: 1954, col: 57, offset: 62910},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1950, col: 86, offset: 62836},
+									pos:        position{line: 1954, col: 86, offset: 62939},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41572,21 +41620,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1955, col: 7, offset: 63038},
+						pos: position{line: 1959, col: 7, offset: 63141},
 						run: (*parser).callonEscapedBoldText24,
 						expr: &seqExpr{
-							pos: position{line: 1955, col: 7, offset: 63038},
+							pos: position{line: 1959, col: 7, offset: 63141},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1955, col: 7, offset: 63038},
+									pos:   position{line: 1959, col: 7, offset: 63141},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1848, col: 25, offset: 59788},
+										pos: position{line: 1852, col: 25, offset: 59891},
 										run: (*parser).callonEscapedBoldText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1848, col: 25, offset: 59788},
+											pos: position{line: 1852, col: 25, offset: 59891},
 											expr: &litMatcher{
-												pos:        position{line: 1848, col: 25, offset: 59788},
+												pos:        position{line: 1852, col: 25, offset: 59891},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41595,21 +41643,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1955, col: 42, offset: 63073},
+									pos:        position{line: 1959, col: 42, offset: 63176},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1955, col: 46, offset: 63077},
+									pos:   position{line: 1959, col: 46, offset: 63180},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1955, col: 56, offset: 63087},
+										pos:  position{line: 1959, col: 56, offset: 63190},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1955, col: 85, offset: 63116},
+									pos:        position{line: 1959, col: 85, offset: 63219},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41622,29 +41670,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicText",
-			pos:  position{line: 1972, col: 1, offset: 63596},
+			pos:  position{line: 1976, col: 1, offset: 63699},
 			expr: &actionExpr{
-				pos: position{line: 1973, col: 5, offset: 63626},
+				pos: position{line: 1977, col: 5, offset: 63729},
 				run: (*parser).callonDoubleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 1973, col: 5, offset: 63626},
+					pos: position{line: 1977, col: 5, offset: 63729},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1968, col: 40, offset: 63547},
+							pos:        position{line: 1972, col: 40, offset: 63650},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1974, col: 5, offset: 63667},
+							pos:   position{line: 1978, col: 5, offset: 63770},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1974, col: 15, offset: 63677},
+								pos:  position{line: 1978, col: 15, offset: 63780},
 								name: "DoubleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1970, col: 38, offset: 63590},
+							pos:        position{line: 1974, col: 38, offset: 63693},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
@@ -41655,44 +41703,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElements",
-			pos:  position{line: 1979, col: 1, offset: 63842},
+			pos:  position{line: 1983, col: 1, offset: 63945},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1979, col: 34, offset: 63875},
+				pos: position{line: 1983, col: 34, offset: 63978},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1979, col: 34, offset: 63875},
+					pos:  position{line: 1983, col: 34, offset: 63978},
 					name: "DoubleQuoteItalicTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteItalicTextElement",
-			pos:  position{line: 1981, col: 1, offset: 63907},
+			pos:  position{line: 1985, col: 1, offset: 64010},
 			expr: &actionExpr{
-				pos: position{line: 1982, col: 5, offset: 63944},
+				pos: position{line: 1986, col: 5, offset: 64047},
 				run: (*parser).callonDoubleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1982, col: 5, offset: 63944},
+					pos: position{line: 1986, col: 5, offset: 64047},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2889, col: 11, offset: 91234},
+							pos: position{line: 2893, col: 11, offset: 91337},
 							expr: &anyMatcher{
-								line: 2889, col: 13, offset: 91236,
+								line: 2893, col: 13, offset: 91339,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1983, col: 5, offset: 63955},
+							pos: position{line: 1987, col: 5, offset: 64058},
 							expr: &litMatcher{
-								pos:        position{line: 1970, col: 38, offset: 63590},
+								pos:        position{line: 1974, col: 38, offset: 63693},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1984, col: 5, offset: 63994},
+							pos:   position{line: 1988, col: 5, offset: 64097},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1984, col: 14, offset: 64003},
+								pos:  position{line: 1988, col: 14, offset: 64106},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41702,29 +41750,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicText",
-			pos:  position{line: 2010, col: 1, offset: 64687},
+			pos:  position{line: 2014, col: 1, offset: 64790},
 			expr: &actionExpr{
-				pos: position{line: 2011, col: 5, offset: 64717},
+				pos: position{line: 2015, col: 5, offset: 64820},
 				run: (*parser).callonSingleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2011, col: 5, offset: 64717},
+					pos: position{line: 2015, col: 5, offset: 64820},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1993, col: 5, offset: 64245},
+							pos:        position{line: 1997, col: 5, offset: 64348},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1994, col: 5, offset: 64254},
+							pos: position{line: 1998, col: 5, offset: 64357},
 							run: (*parser).callonSingleQuoteItalicText4,
 						},
 						&andExpr{
-							pos: position{line: 1998, col: 5, offset: 64374},
+							pos: position{line: 2002, col: 5, offset: 64477},
 							expr: &notExpr{
-								pos: position{line: 1998, col: 7, offset: 64376},
+								pos: position{line: 2002, col: 7, offset: 64479},
 								expr: &litMatcher{
-									pos:        position{line: 1998, col: 8, offset: 64377},
+									pos:        position{line: 2002, col: 8, offset: 64480},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -41732,38 +41780,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2012, col: 5, offset: 64757},
+							pos:   position{line: 2016, col: 5, offset: 64860},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2012, col: 15, offset: 64767},
+								pos:  position{line: 2016, col: 15, offset: 64870},
 								name: "SingleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2002, col: 5, offset: 64487},
+							pos:        position{line: 2006, col: 5, offset: 64590},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&notExpr{
-							pos: position{line: 2003, col: 5, offset: 64496},
+							pos: position{line: 2007, col: 5, offset: 64599},
 							expr: &litMatcher{
-								pos:        position{line: 2003, col: 6, offset: 64497},
+								pos:        position{line: 2007, col: 6, offset: 64600},
 								val:        "_",
 								ignoreCase: false,
 								want:       "\"_\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2004, col: 5, offset: 64562},
+							pos: position{line: 2008, col: 5, offset: 64665},
 							run: (*parser).callonSingleQuoteItalicText13,
 						},
 						&andExpr{
-							pos: position{line: 2008, col: 5, offset: 64673},
+							pos: position{line: 2012, col: 5, offset: 64776},
 							expr: &notExpr{
-								pos: position{line: 2008, col: 7, offset: 64675},
+								pos: position{line: 2012, col: 7, offset: 64778},
 								expr: &charClassMatcher{
-									pos:        position{line: 2762, col: 13, offset: 87974},
+									pos:        position{line: 2766, col: 13, offset: 88077},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -41777,20 +41825,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElements",
-			pos:  position{line: 2017, col: 1, offset: 64934},
+			pos:  position{line: 2021, col: 1, offset: 65037},
 			expr: &actionExpr{
-				pos: position{line: 2018, col: 5, offset: 64972},
+				pos: position{line: 2022, col: 5, offset: 65075},
 				run: (*parser).callonSingleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2018, col: 5, offset: 64972},
+					pos: position{line: 2022, col: 5, offset: 65075},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2018, col: 5, offset: 64972},
+							pos: position{line: 2022, col: 5, offset: 65075},
 							expr: &actionExpr{
-								pos: position{line: 2872, col: 10, offset: 90900},
+								pos: position{line: 2876, col: 10, offset: 91003},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2872, col: 10, offset: 90900},
+									pos:        position{line: 2876, col: 10, offset: 91003},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41799,18 +41847,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2019, col: 5, offset: 65011},
+							pos:   position{line: 2023, col: 5, offset: 65114},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2019, col: 14, offset: 65020},
+								pos: position{line: 2023, col: 14, offset: 65123},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2019, col: 15, offset: 65021},
+									pos:  position{line: 2023, col: 15, offset: 65124},
 									name: "SingleQuoteItalicTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2020, col: 5, offset: 65056},
+							pos: position{line: 2024, col: 5, offset: 65159},
 							run: (*parser).callonSingleQuoteItalicTextElements9,
 						},
 					},
@@ -41819,49 +41867,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElement",
-			pos:  position{line: 2026, col: 1, offset: 65197},
+			pos:  position{line: 2030, col: 1, offset: 65300},
 			expr: &actionExpr{
-				pos: position{line: 2027, col: 5, offset: 65234},
+				pos: position{line: 2031, col: 5, offset: 65337},
 				run: (*parser).callonSingleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2027, col: 5, offset: 65234},
+					pos: position{line: 2031, col: 5, offset: 65337},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2889, col: 11, offset: 91234},
+							pos: position{line: 2893, col: 11, offset: 91337},
 							expr: &anyMatcher{
-								line: 2889, col: 13, offset: 91236,
+								line: 2893, col: 13, offset: 91339,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2028, col: 5, offset: 65245},
+							pos: position{line: 2032, col: 5, offset: 65348},
 							expr: &seqExpr{
-								pos: position{line: 2002, col: 5, offset: 64487},
+								pos: position{line: 2006, col: 5, offset: 64590},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2002, col: 5, offset: 64487},
+										pos:        position{line: 2006, col: 5, offset: 64590},
 										val:        "_",
 										ignoreCase: false,
 										want:       "\"_\"",
 									},
 									&notExpr{
-										pos: position{line: 2003, col: 5, offset: 64496},
+										pos: position{line: 2007, col: 5, offset: 64599},
 										expr: &litMatcher{
-											pos:        position{line: 2003, col: 6, offset: 64497},
+											pos:        position{line: 2007, col: 6, offset: 64600},
 											val:        "_",
 											ignoreCase: false,
 											want:       "\"_\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2004, col: 5, offset: 64562},
+										pos: position{line: 2008, col: 5, offset: 64665},
 										run: (*parser).callonSingleQuoteItalicTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2008, col: 5, offset: 64673},
+										pos: position{line: 2012, col: 5, offset: 64776},
 										expr: &notExpr{
-											pos: position{line: 2008, col: 7, offset: 64675},
+											pos: position{line: 2012, col: 7, offset: 64778},
 											expr: &charClassMatcher{
-												pos:        position{line: 2762, col: 13, offset: 87974},
+												pos:        position{line: 2766, col: 13, offset: 88077},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41873,10 +41921,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2029, col: 5, offset: 65284},
+							pos:   position{line: 2033, col: 5, offset: 65387},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2029, col: 14, offset: 65293},
+								pos:  position{line: 2033, col: 14, offset: 65396},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41886,35 +41934,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedItalicText",
-			pos:  position{line: 2034, col: 1, offset: 65381},
+			pos:  position{line: 2038, col: 1, offset: 65484},
 			expr: &choiceExpr{
-				pos: position{line: 2036, col: 5, offset: 65446},
+				pos: position{line: 2040, col: 5, offset: 65549},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2036, col: 5, offset: 65446},
+						pos: position{line: 2040, col: 5, offset: 65549},
 						run: (*parser).callonEscapedItalicText2,
 						expr: &seqExpr{
-							pos: position{line: 2036, col: 5, offset: 65446},
+							pos: position{line: 2040, col: 5, offset: 65549},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2036, col: 5, offset: 65446},
+									pos:   position{line: 2040, col: 5, offset: 65549},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1852, col: 25, offset: 59861},
+										pos: position{line: 1856, col: 25, offset: 59964},
 										run: (*parser).callonEscapedItalicText5,
 										expr: &seqExpr{
-											pos: position{line: 1852, col: 25, offset: 59861},
+											pos: position{line: 1856, col: 25, offset: 59964},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1852, col: 25, offset: 59861},
+													pos:        position{line: 1856, col: 25, offset: 59964},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1852, col: 30, offset: 59866},
+													pos: position{line: 1856, col: 30, offset: 59969},
 													expr: &litMatcher{
-														pos:        position{line: 1852, col: 30, offset: 59866},
+														pos:        position{line: 1856, col: 30, offset: 59969},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -41925,21 +41973,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2036, col: 40, offset: 65481},
+									pos:        position{line: 2040, col: 40, offset: 65584},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2036, col: 45, offset: 65486},
+									pos:   position{line: 2040, col: 45, offset: 65589},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2036, col: 55, offset: 65496},
+										pos:  position{line: 2040, col: 55, offset: 65599},
 										name: "DoubleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2036, col: 86, offset: 65527},
+									pos:        position{line: 2040, col: 86, offset: 65630},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
@@ -41948,21 +41996,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2040, col: 7, offset: 65692},
+						pos: position{line: 2044, col: 7, offset: 65795},
 						run: (*parser).callonEscapedItalicText14,
 						expr: &seqExpr{
-							pos: position{line: 2040, col: 7, offset: 65692},
+							pos: position{line: 2044, col: 7, offset: 65795},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2040, col: 7, offset: 65692},
+									pos:   position{line: 2044, col: 7, offset: 65795},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1848, col: 25, offset: 59788},
+										pos: position{line: 1852, col: 25, offset: 59891},
 										run: (*parser).callonEscapedItalicText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1848, col: 25, offset: 59788},
+											pos: position{line: 1852, col: 25, offset: 59891},
 											expr: &litMatcher{
-												pos:        position{line: 1848, col: 25, offset: 59788},
+												pos:        position{line: 1852, col: 25, offset: 59891},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41971,21 +42019,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2040, col: 42, offset: 65727},
+									pos:        position{line: 2044, col: 42, offset: 65830},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2040, col: 47, offset: 65732},
+									pos:   position{line: 2044, col: 47, offset: 65835},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2040, col: 57, offset: 65742},
+										pos:  position{line: 2044, col: 57, offset: 65845},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2040, col: 88, offset: 65773},
+									pos:        position{line: 2044, col: 88, offset: 65876},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -41994,21 +42042,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2045, col: 7, offset: 66014},
+						pos: position{line: 2049, col: 7, offset: 66117},
 						run: (*parser).callonEscapedItalicText24,
 						expr: &seqExpr{
-							pos: position{line: 2045, col: 7, offset: 66014},
+							pos: position{line: 2049, col: 7, offset: 66117},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2045, col: 7, offset: 66014},
+									pos:   position{line: 2049, col: 7, offset: 66117},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1848, col: 25, offset: 59788},
+										pos: position{line: 1852, col: 25, offset: 59891},
 										run: (*parser).callonEscapedItalicText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1848, col: 25, offset: 59788},
+											pos: position{line: 1852, col: 25, offset: 59891},
 											expr: &litMatcher{
-												pos:        position{line: 1848, col: 25, offset: 59788},
+												pos:        position{line: 1852, col: 25, offset: 59891},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42017,21 +42065,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2045, col: 42, offset: 66049},
+									pos:        position{line: 2049, col: 42, offset: 66152},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2045, col: 46, offset: 66053},
+									pos:   position{line: 2049, col: 46, offset: 66156},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2045, col: 56, offset: 66063},
+										pos:  position{line: 2049, col: 56, offset: 66166},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2045, col: 87, offset: 66094},
+									pos:        position{line: 2049, col: 87, offset: 66197},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -42044,29 +42092,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceText",
-			pos:  position{line: 2062, col: 1, offset: 66658},
+			pos:  position{line: 2066, col: 1, offset: 66761},
 			expr: &actionExpr{
-				pos: position{line: 2063, col: 5, offset: 66691},
+				pos: position{line: 2067, col: 5, offset: 66794},
 				run: (*parser).callonDoubleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2063, col: 5, offset: 66691},
+					pos: position{line: 2067, col: 5, offset: 66794},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2058, col: 43, offset: 66606},
+							pos:        position{line: 2062, col: 43, offset: 66709},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2064, col: 5, offset: 66735},
+							pos:   position{line: 2068, col: 5, offset: 66838},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2064, col: 15, offset: 66745},
+								pos:  position{line: 2068, col: 15, offset: 66848},
 								name: "DoubleQuoteMonospaceTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2060, col: 41, offset: 66652},
+							pos:        position{line: 2064, col: 41, offset: 66755},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
@@ -42077,44 +42125,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElements",
-			pos:  position{line: 2069, col: 1, offset: 66920},
+			pos:  position{line: 2073, col: 1, offset: 67023},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 2069, col: 37, offset: 66956},
+				pos: position{line: 2073, col: 37, offset: 67059},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2069, col: 37, offset: 66956},
+					pos:  position{line: 2073, col: 37, offset: 67059},
 					name: "DoubleQuoteMonospaceTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElement",
-			pos:  position{line: 2071, col: 1, offset: 67023},
+			pos:  position{line: 2075, col: 1, offset: 67126},
 			expr: &actionExpr{
-				pos: position{line: 2072, col: 5, offset: 67063},
+				pos: position{line: 2076, col: 5, offset: 67166},
 				run: (*parser).callonDoubleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2072, col: 5, offset: 67063},
+					pos: position{line: 2076, col: 5, offset: 67166},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2889, col: 11, offset: 91234},
+							pos: position{line: 2893, col: 11, offset: 91337},
 							expr: &anyMatcher{
-								line: 2889, col: 13, offset: 91236,
+								line: 2893, col: 13, offset: 91339,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2073, col: 5, offset: 67074},
+							pos: position{line: 2077, col: 5, offset: 67177},
 							expr: &litMatcher{
-								pos:        position{line: 2060, col: 41, offset: 66652},
+								pos:        position{line: 2064, col: 41, offset: 66755},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2074, col: 5, offset: 67116},
+							pos:   position{line: 2078, col: 5, offset: 67219},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2074, col: 14, offset: 67125},
+								pos:  position{line: 2078, col: 14, offset: 67228},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42124,33 +42172,33 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextEndDelimiter",
-			pos:  position{line: 2092, col: 1, offset: 67667},
+			pos:  position{line: 2096, col: 1, offset: 67770},
 			expr: &seqExpr{
-				pos: position{line: 2093, col: 5, offset: 67712},
+				pos: position{line: 2097, col: 5, offset: 67815},
 				exprs: []interface{}{
 					&notExpr{
-						pos: position{line: 2093, col: 5, offset: 67712},
+						pos: position{line: 2097, col: 5, offset: 67815},
 						expr: &ruleRefExpr{
-							pos:  position{line: 2093, col: 6, offset: 67713},
+							pos:  position{line: 2097, col: 6, offset: 67816},
 							name: "QuotationMark",
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 2094, col: 5, offset: 67732},
+						pos:        position{line: 2098, col: 5, offset: 67835},
 						val:        "`",
 						ignoreCase: false,
 						want:       "\"`\"",
 					},
 					&andCodeExpr{
-						pos: position{line: 2095, col: 5, offset: 67740},
+						pos: position{line: 2099, col: 5, offset: 67843},
 						run: (*parser).callonSingleQuoteMonospaceTextEndDelimiter5,
 					},
 					&andExpr{
-						pos: position{line: 2099, col: 5, offset: 67854},
+						pos: position{line: 2103, col: 5, offset: 67957},
 						expr: &notExpr{
-							pos: position{line: 2099, col: 7, offset: 67856},
+							pos: position{line: 2103, col: 7, offset: 67959},
 							expr: &charClassMatcher{
-								pos:        position{line: 2762, col: 13, offset: 87974},
+								pos:        position{line: 2766, col: 13, offset: 88077},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -42163,29 +42211,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceText",
-			pos:  position{line: 2102, col: 1, offset: 67873},
+			pos:  position{line: 2106, col: 1, offset: 67976},
 			expr: &actionExpr{
-				pos: position{line: 2103, col: 5, offset: 67906},
+				pos: position{line: 2107, col: 5, offset: 68009},
 				run: (*parser).callonSingleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2103, col: 5, offset: 67906},
+					pos: position{line: 2107, col: 5, offset: 68009},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2085, col: 5, offset: 67469},
+							pos:        position{line: 2089, col: 5, offset: 67572},
 							val:        "`",
 							ignoreCase: false,
 							want:       "\"`\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2086, col: 5, offset: 67478},
+							pos: position{line: 2090, col: 5, offset: 67581},
 							run: (*parser).callonSingleQuoteMonospaceText4,
 						},
 						&andExpr{
-							pos: position{line: 2090, col: 5, offset: 67601},
+							pos: position{line: 2094, col: 5, offset: 67704},
 							expr: &notExpr{
-								pos: position{line: 2090, col: 7, offset: 67603},
+								pos: position{line: 2094, col: 7, offset: 67706},
 								expr: &litMatcher{
-									pos:        position{line: 2090, col: 8, offset: 67604},
+									pos:        position{line: 2094, col: 8, offset: 67707},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42193,15 +42241,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2104, col: 5, offset: 67950},
+							pos:   position{line: 2108, col: 5, offset: 68053},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2104, col: 15, offset: 67960},
+								pos:  position{line: 2108, col: 15, offset: 68063},
 								name: "SingleQuoteMonospaceTextElements",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 2105, col: 5, offset: 67999},
+							pos:  position{line: 2109, col: 5, offset: 68102},
 							name: "SingleQuoteMonospaceTextEndDelimiter",
 						},
 					},
@@ -42210,20 +42258,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElements",
-			pos:  position{line: 2109, col: 1, offset: 68136},
+			pos:  position{line: 2113, col: 1, offset: 68239},
 			expr: &actionExpr{
-				pos: position{line: 2110, col: 5, offset: 68177},
+				pos: position{line: 2114, col: 5, offset: 68280},
 				run: (*parser).callonSingleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2110, col: 5, offset: 68177},
+					pos: position{line: 2114, col: 5, offset: 68280},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2110, col: 5, offset: 68177},
+							pos: position{line: 2114, col: 5, offset: 68280},
 							expr: &actionExpr{
-								pos: position{line: 2872, col: 10, offset: 90900},
+								pos: position{line: 2876, col: 10, offset: 91003},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2872, col: 10, offset: 90900},
+									pos:        position{line: 2876, col: 10, offset: 91003},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42232,18 +42280,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2111, col: 5, offset: 68216},
+							pos:   position{line: 2115, col: 5, offset: 68319},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2111, col: 14, offset: 68225},
+								pos: position{line: 2115, col: 14, offset: 68328},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2111, col: 15, offset: 68226},
+									pos:  position{line: 2115, col: 15, offset: 68329},
 									name: "SingleQuoteMonospaceTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2112, col: 5, offset: 68264},
+							pos: position{line: 2116, col: 5, offset: 68367},
 							run: (*parser).callonSingleQuoteMonospaceTextElements9,
 						},
 					},
@@ -42252,31 +42300,31 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElement",
-			pos:  position{line: 2118, col: 1, offset: 68405},
+			pos:  position{line: 2122, col: 1, offset: 68508},
 			expr: &actionExpr{
-				pos: position{line: 2119, col: 5, offset: 68445},
+				pos: position{line: 2123, col: 5, offset: 68548},
 				run: (*parser).callonSingleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2119, col: 5, offset: 68445},
+					pos: position{line: 2123, col: 5, offset: 68548},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2889, col: 11, offset: 91234},
+							pos: position{line: 2893, col: 11, offset: 91337},
 							expr: &anyMatcher{
-								line: 2889, col: 13, offset: 91236,
+								line: 2893, col: 13, offset: 91339,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2120, col: 5, offset: 68456},
+							pos: position{line: 2124, col: 5, offset: 68559},
 							expr: &ruleRefExpr{
-								pos:  position{line: 2120, col: 6, offset: 68457},
+								pos:  position{line: 2124, col: 6, offset: 68560},
 								name: "SingleQuoteMonospaceTextEndDelimiter",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2121, col: 5, offset: 68498},
+							pos:   position{line: 2125, col: 5, offset: 68601},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2121, col: 14, offset: 68507},
+								pos:  position{line: 2125, col: 14, offset: 68610},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42286,35 +42334,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMonospaceText",
-			pos:  position{line: 2126, col: 1, offset: 68595},
+			pos:  position{line: 2130, col: 1, offset: 68698},
 			expr: &choiceExpr{
-				pos: position{line: 2128, col: 5, offset: 68666},
+				pos: position{line: 2132, col: 5, offset: 68769},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2128, col: 5, offset: 68666},
+						pos: position{line: 2132, col: 5, offset: 68769},
 						run: (*parser).callonEscapedMonospaceText2,
 						expr: &seqExpr{
-							pos: position{line: 2128, col: 5, offset: 68666},
+							pos: position{line: 2132, col: 5, offset: 68769},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2128, col: 5, offset: 68666},
+									pos:   position{line: 2132, col: 5, offset: 68769},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1852, col: 25, offset: 59861},
+										pos: position{line: 1856, col: 25, offset: 59964},
 										run: (*parser).callonEscapedMonospaceText5,
 										expr: &seqExpr{
-											pos: position{line: 1852, col: 25, offset: 59861},
+											pos: position{line: 1856, col: 25, offset: 59964},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1852, col: 25, offset: 59861},
+													pos:        position{line: 1856, col: 25, offset: 59964},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1852, col: 30, offset: 59866},
+													pos: position{line: 1856, col: 30, offset: 59969},
 													expr: &litMatcher{
-														pos:        position{line: 1852, col: 30, offset: 59866},
+														pos:        position{line: 1856, col: 30, offset: 59969},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42325,21 +42373,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2128, col: 40, offset: 68701},
+									pos:        position{line: 2132, col: 40, offset: 68804},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2128, col: 45, offset: 68706},
+									pos:   position{line: 2132, col: 45, offset: 68809},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2128, col: 55, offset: 68716},
+										pos:  position{line: 2132, col: 55, offset: 68819},
 										name: "DoubleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2128, col: 89, offset: 68750},
+									pos:        position{line: 2132, col: 89, offset: 68853},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
@@ -42348,21 +42396,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2132, col: 7, offset: 68919},
+						pos: position{line: 2136, col: 7, offset: 69022},
 						run: (*parser).callonEscapedMonospaceText14,
 						expr: &seqExpr{
-							pos: position{line: 2132, col: 7, offset: 68919},
+							pos: position{line: 2136, col: 7, offset: 69022},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2132, col: 7, offset: 68919},
+									pos:   position{line: 2136, col: 7, offset: 69022},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1848, col: 25, offset: 59788},
+										pos: position{line: 1852, col: 25, offset: 59891},
 										run: (*parser).callonEscapedMonospaceText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1848, col: 25, offset: 59788},
+											pos: position{line: 1852, col: 25, offset: 59891},
 											expr: &litMatcher{
-												pos:        position{line: 1848, col: 25, offset: 59788},
+												pos:        position{line: 1852, col: 25, offset: 59891},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42371,21 +42419,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2132, col: 42, offset: 68954},
+									pos:        position{line: 2136, col: 42, offset: 69057},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2132, col: 47, offset: 68959},
+									pos:   position{line: 2136, col: 47, offset: 69062},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2132, col: 57, offset: 68969},
+										pos:  position{line: 2136, col: 57, offset: 69072},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2132, col: 91, offset: 69003},
+									pos:        position{line: 2136, col: 91, offset: 69106},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42394,21 +42442,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2137, col: 7, offset: 69209},
+						pos: position{line: 2141, col: 7, offset: 69312},
 						run: (*parser).callonEscapedMonospaceText24,
 						expr: &seqExpr{
-							pos: position{line: 2137, col: 7, offset: 69209},
+							pos: position{line: 2141, col: 7, offset: 69312},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2137, col: 7, offset: 69209},
+									pos:   position{line: 2141, col: 7, offset: 69312},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1848, col: 25, offset: 59788},
+										pos: position{line: 1852, col: 25, offset: 59891},
 										run: (*parser).callonEscapedMonospaceText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1848, col: 25, offset: 59788},
+											pos: position{line: 1852, col: 25, offset: 59891},
 											expr: &litMatcher{
-												pos:        position{line: 1848, col: 25, offset: 59788},
+												pos:        position{line: 1852, col: 25, offset: 59891},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42417,21 +42465,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2137, col: 42, offset: 69244},
+									pos:        position{line: 2141, col: 42, offset: 69347},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2137, col: 46, offset: 69248},
+									pos:   position{line: 2141, col: 46, offset: 69351},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2137, col: 56, offset: 69258},
+										pos:  position{line: 2141, col: 56, offset: 69361},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2137, col: 90, offset: 69292},
+									pos:        position{line: 2141, col: 90, offset: 69395},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42444,29 +42492,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedText",
-			pos:  position{line: 2154, col: 1, offset: 69777},
+			pos:  position{line: 2158, col: 1, offset: 69880},
 			expr: &actionExpr{
-				pos: position{line: 2155, col: 5, offset: 69807},
+				pos: position{line: 2159, col: 5, offset: 69910},
 				run: (*parser).callonDoubleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2155, col: 5, offset: 69807},
+					pos: position{line: 2159, col: 5, offset: 69910},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2150, col: 40, offset: 69728},
+							pos:        position{line: 2154, col: 40, offset: 69831},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2156, col: 5, offset: 69848},
+							pos:   position{line: 2160, col: 5, offset: 69951},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2156, col: 15, offset: 69858},
+								pos:  position{line: 2160, col: 15, offset: 69961},
 								name: "DoubleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2152, col: 38, offset: 69771},
+							pos:        position{line: 2156, col: 38, offset: 69874},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
@@ -42477,44 +42525,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElements",
-			pos:  position{line: 2161, col: 1, offset: 70024},
+			pos:  position{line: 2165, col: 1, offset: 70127},
 			expr: &zeroOrMoreExpr{
-				pos: position{line: 2161, col: 34, offset: 70057},
+				pos: position{line: 2165, col: 34, offset: 70160},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2161, col: 34, offset: 70057},
+					pos:  position{line: 2165, col: 34, offset: 70160},
 					name: "DoubleQuoteMarkedTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMarkedTextElement",
-			pos:  position{line: 2163, col: 1, offset: 70088},
+			pos:  position{line: 2167, col: 1, offset: 70191},
 			expr: &actionExpr{
-				pos: position{line: 2164, col: 5, offset: 70157},
+				pos: position{line: 2168, col: 5, offset: 70260},
 				run: (*parser).callonDoubleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2164, col: 5, offset: 70157},
+					pos: position{line: 2168, col: 5, offset: 70260},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2889, col: 11, offset: 91234},
+							pos: position{line: 2893, col: 11, offset: 91337},
 							expr: &anyMatcher{
-								line: 2889, col: 13, offset: 91236,
+								line: 2893, col: 13, offset: 91339,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2165, col: 5, offset: 70168},
+							pos: position{line: 2169, col: 5, offset: 70271},
 							expr: &litMatcher{
-								pos:        position{line: 2152, col: 38, offset: 69771},
+								pos:        position{line: 2156, col: 38, offset: 69874},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2166, col: 5, offset: 70207},
+							pos:   position{line: 2170, col: 5, offset: 70310},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2166, col: 14, offset: 70216},
+								pos:  position{line: 2170, col: 14, offset: 70319},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42524,29 +42572,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedText",
-			pos:  position{line: 2191, col: 1, offset: 70898},
+			pos:  position{line: 2195, col: 1, offset: 71001},
 			expr: &actionExpr{
-				pos: position{line: 2192, col: 5, offset: 70928},
+				pos: position{line: 2196, col: 5, offset: 71031},
 				run: (*parser).callonSingleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2192, col: 5, offset: 70928},
+					pos: position{line: 2196, col: 5, offset: 71031},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2175, col: 5, offset: 70464},
+							pos:        position{line: 2179, col: 5, offset: 70567},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2176, col: 5, offset: 70473},
+							pos: position{line: 2180, col: 5, offset: 70576},
 							run: (*parser).callonSingleQuoteMarkedText4,
 						},
 						&andExpr{
-							pos: position{line: 2180, col: 5, offset: 70593},
+							pos: position{line: 2184, col: 5, offset: 70696},
 							expr: &notExpr{
-								pos: position{line: 2180, col: 7, offset: 70595},
+								pos: position{line: 2184, col: 7, offset: 70698},
 								expr: &litMatcher{
-									pos:        position{line: 2180, col: 8, offset: 70596},
+									pos:        position{line: 2184, col: 8, offset: 70699},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -42554,38 +42602,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2193, col: 5, offset: 70968},
+							pos:   position{line: 2197, col: 5, offset: 71071},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2193, col: 15, offset: 70978},
+								pos:  position{line: 2197, col: 15, offset: 71081},
 								name: "SingleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2183, col: 5, offset: 70701},
+							pos:        position{line: 2187, col: 5, offset: 70804},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&notExpr{
-							pos: position{line: 2184, col: 5, offset: 70709},
+							pos: position{line: 2188, col: 5, offset: 70812},
 							expr: &litMatcher{
-								pos:        position{line: 2184, col: 6, offset: 70710},
+								pos:        position{line: 2188, col: 6, offset: 70813},
 								val:        "#",
 								ignoreCase: false,
 								want:       "\"#\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2185, col: 5, offset: 70773},
+							pos: position{line: 2189, col: 5, offset: 70876},
 							run: (*parser).callonSingleQuoteMarkedText13,
 						},
 						&andExpr{
-							pos: position{line: 2189, col: 5, offset: 70884},
+							pos: position{line: 2193, col: 5, offset: 70987},
 							expr: &notExpr{
-								pos: position{line: 2189, col: 7, offset: 70886},
+								pos: position{line: 2193, col: 7, offset: 70989},
 								expr: &charClassMatcher{
-									pos:        position{line: 2762, col: 13, offset: 87974},
+									pos:        position{line: 2766, col: 13, offset: 88077},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -42599,20 +42647,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElements",
-			pos:  position{line: 2198, col: 1, offset: 71145},
+			pos:  position{line: 2202, col: 1, offset: 71248},
 			expr: &actionExpr{
-				pos: position{line: 2199, col: 5, offset: 71183},
+				pos: position{line: 2203, col: 5, offset: 71286},
 				run: (*parser).callonSingleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2199, col: 5, offset: 71183},
+					pos: position{line: 2203, col: 5, offset: 71286},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2199, col: 5, offset: 71183},
+							pos: position{line: 2203, col: 5, offset: 71286},
 							expr: &actionExpr{
-								pos: position{line: 2872, col: 10, offset: 90900},
+								pos: position{line: 2876, col: 10, offset: 91003},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2872, col: 10, offset: 90900},
+									pos:        position{line: 2876, col: 10, offset: 91003},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42621,18 +42669,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2200, col: 5, offset: 71222},
+							pos:   position{line: 2204, col: 5, offset: 71325},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2200, col: 14, offset: 71231},
+								pos: position{line: 2204, col: 14, offset: 71334},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2200, col: 15, offset: 71232},
+									pos:  position{line: 2204, col: 15, offset: 71335},
 									name: "SingleQuoteMarkedTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2201, col: 5, offset: 71268},
+							pos: position{line: 2205, col: 5, offset: 71371},
 							run: (*parser).callonSingleQuoteMarkedTextElements9,
 						},
 					},
@@ -42641,49 +42689,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElement",
-			pos:  position{line: 2207, col: 1, offset: 71409},
+			pos:  position{line: 2211, col: 1, offset: 71512},
 			expr: &actionExpr{
-				pos: position{line: 2208, col: 5, offset: 71446},
+				pos: position{line: 2212, col: 5, offset: 71549},
 				run: (*parser).callonSingleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2208, col: 5, offset: 71446},
+					pos: position{line: 2212, col: 5, offset: 71549},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2889, col: 11, offset: 91234},
+							pos: position{line: 2893, col: 11, offset: 91337},
 							expr: &anyMatcher{
-								line: 2889, col: 13, offset: 91236,
+								line: 2893, col: 13, offset: 91339,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2209, col: 5, offset: 71457},
+							pos: position{line: 2213, col: 5, offset: 71560},
 							expr: &seqExpr{
-								pos: position{line: 2183, col: 5, offset: 70701},
+								pos: position{line: 2187, col: 5, offset: 70804},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2183, col: 5, offset: 70701},
+										pos:        position{line: 2187, col: 5, offset: 70804},
 										val:        "#",
 										ignoreCase: false,
 										want:       "\"#\"",
 									},
 									&notExpr{
-										pos: position{line: 2184, col: 5, offset: 70709},
+										pos: position{line: 2188, col: 5, offset: 70812},
 										expr: &litMatcher{
-											pos:        position{line: 2184, col: 6, offset: 70710},
+											pos:        position{line: 2188, col: 6, offset: 70813},
 											val:        "#",
 											ignoreCase: false,
 											want:       "\"#\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2185, col: 5, offset: 70773},
+										pos: position{line: 2189, col: 5, offset: 70876},
 										run: (*parser).callonSingleQuoteMarkedTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2189, col: 5, offset: 70884},
+										pos: position{line: 2193, col: 5, offset: 70987},
 										expr: &notExpr{
-											pos: position{line: 2189, col: 7, offset: 70886},
+											pos: position{line: 2193, col: 7, offset: 70989},
 											expr: &charClassMatcher{
-												pos:        position{line: 2762, col: 13, offset: 87974},
+												pos:        position{line: 2766, col: 13, offset: 88077},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42695,10 +42743,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2210, col: 5, offset: 71496},
+							pos:   position{line: 2214, col: 5, offset: 71599},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2210, col: 14, offset: 71505},
+								pos:  position{line: 2214, col: 14, offset: 71608},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42708,35 +42756,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMarkedText",
-			pos:  position{line: 2215, col: 1, offset: 71593},
+			pos:  position{line: 2219, col: 1, offset: 71696},
 			expr: &choiceExpr{
-				pos: position{line: 2217, col: 5, offset: 71657},
+				pos: position{line: 2221, col: 5, offset: 71760},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2217, col: 5, offset: 71657},
+						pos: position{line: 2221, col: 5, offset: 71760},
 						run: (*parser).callonEscapedMarkedText2,
 						expr: &seqExpr{
-							pos: position{line: 2217, col: 5, offset: 71657},
+							pos: position{line: 2221, col: 5, offset: 71760},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2217, col: 5, offset: 71657},
+									pos:   position{line: 2221, col: 5, offset: 71760},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1852, col: 25, offset: 59861},
+										pos: position{line: 1856, col: 25, offset: 59964},
 										run: (*parser).callonEscapedMarkedText5,
 										expr: &seqExpr{
-											pos: position{line: 1852, col: 25, offset: 59861},
+											pos: position{line: 1856, col: 25, offset: 59964},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1852, col: 25, offset: 59861},
+													pos:        position{line: 1856, col: 25, offset: 59964},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1852, col: 30, offset: 59866},
+													pos: position{line: 1856, col: 30, offset: 59969},
 													expr: &litMatcher{
-														pos:        position{line: 1852, col: 30, offset: 59866},
+														pos:        position{line: 1856, col: 30, offset: 59969},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42747,21 +42795,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2217, col: 40, offset: 71692},
+									pos:        position{line: 2221, col: 40, offset: 71795},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2217, col: 45, offset: 71697},
+									pos:   position{line: 2221, col: 45, offset: 71800},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2217, col: 55, offset: 71707},
+										pos:  position{line: 2221, col: 55, offset: 71810},
 										name: "DoubleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2217, col: 86, offset: 71738},
+									pos:        position{line: 2221, col: 86, offset: 71841},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
@@ -42770,21 +42818,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2221, col: 7, offset: 71903},
+						pos: position{line: 2225, col: 7, offset: 72006},
 						run: (*parser).callonEscapedMarkedText14,
 						expr: &seqExpr{
-							pos: position{line: 2221, col: 7, offset: 71903},
+							pos: position{line: 2225, col: 7, offset: 72006},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2221, col: 7, offset: 71903},
+									pos:   position{line: 2225, col: 7, offset: 72006},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1848, col: 25, offset: 59788},
+										pos: position{line: 1852, col: 25, offset: 59891},
 										run: (*parser).callonEscapedMarkedText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1848, col: 25, offset: 59788},
+											pos: position{line: 1852, col: 25, offset: 59891},
 											expr: &litMatcher{
-												pos:        position{line: 1848, col: 25, offset: 59788},
+												pos:        position{line: 1852, col: 25, offset: 59891},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42793,21 +42841,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2221, col: 42, offset: 71938},
+									pos:        position{line: 2225, col: 42, offset: 72041},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2221, col: 47, offset: 71943},
+									pos:   position{line: 2225, col: 47, offset: 72046},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2221, col: 57, offset: 71953},
+										pos:  position{line: 2225, col: 57, offset: 72056},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2221, col: 88, offset: 71984},
+									pos:        position{line: 2225, col: 88, offset: 72087},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -42816,21 +42864,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2226, col: 7, offset: 72187},
+						pos: position{line: 2230, col: 7, offset: 72290},
 						run: (*parser).callonEscapedMarkedText24,
 						expr: &seqExpr{
-							pos: position{line: 2226, col: 7, offset: 72187},
+							pos: position{line: 2230, col: 7, offset: 72290},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2226, col: 7, offset: 72187},
+									pos:   position{line: 2230, col: 7, offset: 72290},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1848, col: 25, offset: 59788},
+										pos: position{line: 1852, col: 25, offset: 59891},
 										run: (*parser).callonEscapedMarkedText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1848, col: 25, offset: 59788},
+											pos: position{line: 1852, col: 25, offset: 59891},
 											expr: &litMatcher{
-												pos:        position{line: 1848, col: 25, offset: 59788},
+												pos:        position{line: 1852, col: 25, offset: 59891},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42839,21 +42887,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2226, col: 42, offset: 72222},
+									pos:        position{line: 2230, col: 42, offset: 72325},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2226, col: 46, offset: 72226},
+									pos:   position{line: 2230, col: 46, offset: 72329},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2226, col: 56, offset: 72236},
+										pos:  position{line: 2230, col: 56, offset: 72339},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2226, col: 87, offset: 72267},
+									pos:        position{line: 2230, col: 87, offset: 72370},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -42866,29 +42914,29 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptText",
-			pos:  position{line: 2233, col: 1, offset: 72534},
+			pos:  position{line: 2237, col: 1, offset: 72637},
 			expr: &actionExpr{
-				pos: position{line: 2234, col: 5, offset: 72556},
+				pos: position{line: 2238, col: 5, offset: 72659},
 				run: (*parser).callonSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2234, col: 5, offset: 72556},
+					pos: position{line: 2238, col: 5, offset: 72659},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2240, col: 27, offset: 72771},
+							pos:        position{line: 2244, col: 27, offset: 72874},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2235, col: 5, offset: 72583},
+							pos:   position{line: 2239, col: 5, offset: 72686},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2235, col: 14, offset: 72592},
+								pos:  position{line: 2239, col: 14, offset: 72695},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2240, col: 27, offset: 72771},
+							pos:        position{line: 2244, col: 27, offset: 72874},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -42899,43 +42947,43 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptTextElement",
-			pos:  position{line: 2242, col: 1, offset: 72776},
+			pos:  position{line: 2246, col: 1, offset: 72879},
 			expr: &choiceExpr{
-				pos: position{line: 2242, col: 25, offset: 72800},
+				pos: position{line: 2246, col: 25, offset: 72903},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2242, col: 25, offset: 72800},
+						pos:  position{line: 2246, col: 25, offset: 72903},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2244, col: 21, offset: 72852},
+						pos: position{line: 2248, col: 21, offset: 72955},
 						run: (*parser).callonSubscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2244, col: 21, offset: 72852},
+							pos:   position{line: 2248, col: 21, offset: 72955},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2244, col: 30, offset: 72861},
+								pos: position{line: 2248, col: 30, offset: 72964},
 								expr: &choiceExpr{
-									pos: position{line: 2244, col: 31, offset: 72862},
+									pos: position{line: 2248, col: 31, offset: 72965},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2466, col: 5, offset: 79332},
+											pos: position{line: 2470, col: 5, offset: 79435},
 											run: (*parser).callonSubscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2466, col: 5, offset: 79332},
+												pos: position{line: 2470, col: 5, offset: 79435},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2466, col: 5, offset: 79332},
+														pos: position{line: 2470, col: 5, offset: 79435},
 														run: (*parser).callonSubscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2469, col: 5, offset: 79408},
+														pos:   position{line: 2473, col: 5, offset: 79511},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2470, col: 9, offset: 79426},
+															pos: position{line: 2474, col: 9, offset: 79529},
 															run: (*parser).callonSubscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2470, col: 10, offset: 79427},
+																pos:        position{line: 2474, col: 10, offset: 79530},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -42947,7 +42995,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2244, col: 50, offset: 72881},
+											pos:        position{line: 2248, col: 50, offset: 72984},
 											val:        "[^\\r\\n ~]",
 											chars:      []rune{'\r', '\n', ' ', '~'},
 											ignoreCase: false,
@@ -42963,23 +43011,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2248, col: 1, offset: 72931},
+			pos:  position{line: 2252, col: 1, offset: 73034},
 			expr: &actionExpr{
-				pos: position{line: 2250, col: 5, offset: 72998},
+				pos: position{line: 2254, col: 5, offset: 73101},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2250, col: 5, offset: 72998},
+					pos: position{line: 2254, col: 5, offset: 73101},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2250, col: 5, offset: 72998},
+							pos:   position{line: 2254, col: 5, offset: 73101},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1848, col: 25, offset: 59788},
+								pos: position{line: 1852, col: 25, offset: 59891},
 								run: (*parser).callonEscapedSubscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1848, col: 25, offset: 59788},
+									pos: position{line: 1852, col: 25, offset: 59891},
 									expr: &litMatcher{
-										pos:        position{line: 1848, col: 25, offset: 59788},
+										pos:        position{line: 1852, col: 25, offset: 59891},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -42988,21 +43036,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2240, col: 27, offset: 72771},
+							pos:        position{line: 2244, col: 27, offset: 72874},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2252, col: 5, offset: 73066},
+							pos:   position{line: 2256, col: 5, offset: 73169},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2252, col: 14, offset: 73075},
+								pos:  position{line: 2256, col: 14, offset: 73178},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2240, col: 27, offset: 72771},
+							pos:        position{line: 2244, col: 27, offset: 72874},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -43013,29 +43061,29 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2260, col: 1, offset: 73338},
+			pos:  position{line: 2264, col: 1, offset: 73441},
 			expr: &actionExpr{
-				pos: position{line: 2261, col: 5, offset: 73362},
+				pos: position{line: 2265, col: 5, offset: 73465},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2261, col: 5, offset: 73362},
+					pos: position{line: 2265, col: 5, offset: 73465},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2267, col: 29, offset: 73589},
+							pos:        position{line: 2271, col: 29, offset: 73692},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2262, col: 5, offset: 73392},
+							pos:   position{line: 2266, col: 5, offset: 73495},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2262, col: 14, offset: 73401},
+								pos:  position{line: 2266, col: 14, offset: 73504},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2267, col: 29, offset: 73589},
+							pos:        position{line: 2271, col: 29, offset: 73692},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -43046,43 +43094,43 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2269, col: 1, offset: 73594},
+			pos:  position{line: 2273, col: 1, offset: 73697},
 			expr: &choiceExpr{
-				pos: position{line: 2269, col: 27, offset: 73620},
+				pos: position{line: 2273, col: 27, offset: 73723},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2269, col: 27, offset: 73620},
+						pos:  position{line: 2273, col: 27, offset: 73723},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2271, col: 23, offset: 73676},
+						pos: position{line: 2275, col: 23, offset: 73779},
 						run: (*parser).callonSuperscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2271, col: 23, offset: 73676},
+							pos:   position{line: 2275, col: 23, offset: 73779},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2271, col: 32, offset: 73685},
+								pos: position{line: 2275, col: 32, offset: 73788},
 								expr: &choiceExpr{
-									pos: position{line: 2271, col: 33, offset: 73686},
+									pos: position{line: 2275, col: 33, offset: 73789},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2466, col: 5, offset: 79332},
+											pos: position{line: 2470, col: 5, offset: 79435},
 											run: (*parser).callonSuperscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2466, col: 5, offset: 79332},
+												pos: position{line: 2470, col: 5, offset: 79435},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2466, col: 5, offset: 79332},
+														pos: position{line: 2470, col: 5, offset: 79435},
 														run: (*parser).callonSuperscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2469, col: 5, offset: 79408},
+														pos:   position{line: 2473, col: 5, offset: 79511},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2470, col: 9, offset: 79426},
+															pos: position{line: 2474, col: 9, offset: 79529},
 															run: (*parser).callonSuperscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2470, col: 10, offset: 79427},
+																pos:        position{line: 2474, col: 10, offset: 79530},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -43094,7 +43142,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2271, col: 52, offset: 73705},
+											pos:        position{line: 2275, col: 52, offset: 73808},
 											val:        "[^\\r\\n ^]",
 											chars:      []rune{'\r', '\n', ' ', '^'},
 											ignoreCase: false,
@@ -43110,23 +43158,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2275, col: 1, offset: 73755},
+			pos:  position{line: 2279, col: 1, offset: 73858},
 			expr: &actionExpr{
-				pos: position{line: 2277, col: 5, offset: 73827},
+				pos: position{line: 2281, col: 5, offset: 73930},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2277, col: 5, offset: 73827},
+					pos: position{line: 2281, col: 5, offset: 73930},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2277, col: 5, offset: 73827},
+							pos:   position{line: 2281, col: 5, offset: 73930},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1848, col: 25, offset: 59788},
+								pos: position{line: 1852, col: 25, offset: 59891},
 								run: (*parser).callonEscapedSuperscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1848, col: 25, offset: 59788},
+									pos: position{line: 1852, col: 25, offset: 59891},
 									expr: &litMatcher{
-										pos:        position{line: 1848, col: 25, offset: 59788},
+										pos:        position{line: 1852, col: 25, offset: 59891},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -43135,21 +43183,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2267, col: 29, offset: 73589},
+							pos:        position{line: 2271, col: 29, offset: 73692},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2279, col: 5, offset: 73897},
+							pos:   position{line: 2283, col: 5, offset: 74000},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2279, col: 14, offset: 73906},
+								pos:  position{line: 2283, col: 14, offset: 74009},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2267, col: 29, offset: 73589},
+							pos:        position{line: 2271, col: 29, offset: 73692},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -43160,27 +43208,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2288, col: 1, offset: 74375},
+			pos:  position{line: 2292, col: 1, offset: 74478},
 			expr: &actionExpr{
-				pos: position{line: 2289, col: 5, offset: 74391},
+				pos: position{line: 2293, col: 5, offset: 74494},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2289, col: 5, offset: 74391},
+					pos: position{line: 2293, col: 5, offset: 74494},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2289, col: 5, offset: 74391},
+							pos: position{line: 2293, col: 5, offset: 74494},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2292, col: 5, offset: 74454},
+							pos:   position{line: 2296, col: 5, offset: 74557},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2292, col: 12, offset: 74461},
+								pos: position{line: 2296, col: 12, offset: 74564},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2292, col: 12, offset: 74461},
+									pos: position{line: 2296, col: 12, offset: 74564},
 									expr: &litMatcher{
-										pos:        position{line: 2292, col: 13, offset: 74462},
+										pos:        position{line: 2296, col: 13, offset: 74565},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -43189,16 +43237,16 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2296, col: 5, offset: 74570},
+							pos: position{line: 2300, col: 5, offset: 74673},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2876, col: 11, offset: 90961},
+							pos: position{line: 2880, col: 11, offset: 91064},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2876, col: 11, offset: 90961},
+								pos: position{line: 2880, col: 11, offset: 91064},
 								expr: &charClassMatcher{
-									pos:        position{line: 2876, col: 11, offset: 90961},
+									pos:        position{line: 2880, col: 11, offset: 91064},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43207,36 +43255,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2300, col: 12, offset: 74729},
+							pos:   position{line: 2304, col: 12, offset: 74832},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2300, col: 19, offset: 74736},
+								pos:  position{line: 2304, col: 19, offset: 74839},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2894, col: 8, offset: 91298},
+							pos: position{line: 2898, col: 8, offset: 91401},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2881, col: 12, offset: 91071},
+									pos: position{line: 2885, col: 12, offset: 91174},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2881, col: 13, offset: 91072},
+										pos: position{line: 2885, col: 13, offset: 91175},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2881, col: 13, offset: 91072},
+												pos:        position{line: 2885, col: 13, offset: 91175},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2881, col: 20, offset: 91079},
+												pos:        position{line: 2885, col: 20, offset: 91182},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2881, col: 29, offset: 91088},
+												pos:        position{line: 2885, col: 29, offset: 91191},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -43245,9 +43293,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2891, col: 8, offset: 91248},
+									pos: position{line: 2895, col: 8, offset: 91351},
 									expr: &anyMatcher{
-										line: 2891, col: 9, offset: 91249,
+										line: 2895, col: 9, offset: 91352,
 									},
 								},
 							},
@@ -43258,24 +43306,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2304, col: 1, offset: 74832},
+			pos:  position{line: 2308, col: 1, offset: 74935},
 			expr: &actionExpr{
-				pos: position{line: 2305, col: 5, offset: 74853},
+				pos: position{line: 2309, col: 5, offset: 74956},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2305, col: 5, offset: 74853},
+					pos: position{line: 2309, col: 5, offset: 74956},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2305, col: 5, offset: 74853},
+							pos: position{line: 2309, col: 5, offset: 74956},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2310, col: 5, offset: 74968},
+							pos:   position{line: 2314, col: 5, offset: 75071},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2310, col: 14, offset: 74977},
+								pos: position{line: 2314, col: 14, offset: 75080},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2310, col: 15, offset: 74978},
+									pos:  position{line: 2314, col: 15, offset: 75081},
 									name: "SectionTitleElement",
 								},
 							},
@@ -43286,38 +43334,38 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2314, col: 1, offset: 75059},
+			pos:  position{line: 2318, col: 1, offset: 75162},
 			expr: &actionExpr{
-				pos: position{line: 2315, col: 5, offset: 75086},
+				pos: position{line: 2319, col: 5, offset: 75189},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2315, col: 5, offset: 75086},
+					pos: position{line: 2319, col: 5, offset: 75189},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2315, col: 5, offset: 75086},
+							pos: position{line: 2319, col: 5, offset: 75189},
 							expr: &choiceExpr{
-								pos: position{line: 2894, col: 8, offset: 91298},
+								pos: position{line: 2898, col: 8, offset: 91401},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2881, col: 12, offset: 91071},
+										pos: position{line: 2885, col: 12, offset: 91174},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2881, col: 13, offset: 91072},
+											pos: position{line: 2885, col: 13, offset: 91175},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2881, col: 13, offset: 91072},
+													pos:        position{line: 2885, col: 13, offset: 91175},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2881, col: 20, offset: 91079},
+													pos:        position{line: 2885, col: 20, offset: 91182},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2881, col: 29, offset: 91088},
+													pos:        position{line: 2885, col: 29, offset: 91191},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -43326,29 +43374,29 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2891, col: 8, offset: 91248},
+										pos: position{line: 2895, col: 8, offset: 91351},
 										expr: &anyMatcher{
-											line: 2891, col: 9, offset: 91249,
+											line: 2895, col: 9, offset: 91352,
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2316, col: 5, offset: 75095},
+							pos:   position{line: 2320, col: 5, offset: 75198},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2316, col: 14, offset: 75104},
+								pos: position{line: 2320, col: 14, offset: 75207},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2316, col: 14, offset: 75104},
+										pos:  position{line: 2320, col: 14, offset: 75207},
 										name: "SectionTitleLineElement",
 									},
 									&actionExpr{
-										pos: position{line: 2811, col: 12, offset: 89208},
+										pos: position{line: 2815, col: 12, offset: 89311},
 										run: (*parser).callonSectionTitleElement15,
 										expr: &charClassMatcher{
-											pos:        position{line: 2811, col: 12, offset: 89208},
+											pos:        position{line: 2815, col: 12, offset: 89311},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -43364,21 +43412,21 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleLineElement",
-			pos:  position{line: 2321, col: 1, offset: 75208},
+			pos:  position{line: 2325, col: 1, offset: 75311},
 			expr: &actionExpr{
-				pos: position{line: 2322, col: 5, offset: 75239},
+				pos: position{line: 2326, col: 5, offset: 75342},
 				run: (*parser).callonSectionTitleLineElement1,
 				expr: &seqExpr{
-					pos: position{line: 2322, col: 5, offset: 75239},
+					pos: position{line: 2326, col: 5, offset: 75342},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2322, col: 5, offset: 75239},
+							pos:   position{line: 2326, col: 5, offset: 75342},
 							label: "start",
 							expr: &actionExpr{
-								pos: position{line: 2897, col: 16, offset: 91422},
+								pos: position{line: 2901, col: 16, offset: 91525},
 								run: (*parser).callonSectionTitleLineElement4,
 								expr: &litMatcher{
-									pos:        position{line: 2897, col: 16, offset: 91422},
+									pos:        position{line: 2901, col: 16, offset: 91525},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -43386,27 +43434,27 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2323, col: 5, offset: 75263},
+							pos:   position{line: 2327, col: 5, offset: 75366},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2324, col: 9, offset: 75281},
+								pos: position{line: 2328, col: 9, offset: 75384},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2771, col: 5, offset: 88121},
+										pos: position{line: 2775, col: 5, offset: 88224},
 										run: (*parser).callonSectionTitleLineElement8,
 										expr: &seqExpr{
-											pos: position{line: 2771, col: 5, offset: 88121},
+											pos: position{line: 2775, col: 5, offset: 88224},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2771, col: 5, offset: 88121},
+													pos:   position{line: 2775, col: 5, offset: 88224},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2771, col: 11, offset: 88127},
+														pos: position{line: 2775, col: 11, offset: 88230},
 														run: (*parser).callonSectionTitleLineElement11,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2771, col: 11, offset: 88127},
+															pos: position{line: 2775, col: 11, offset: 88230},
 															expr: &charClassMatcher{
-																pos:        position{line: 2771, col: 11, offset: 88127},
+																pos:        position{line: 2775, col: 11, offset: 88230},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -43416,44 +43464,44 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2774, col: 5, offset: 88185},
+													pos: position{line: 2778, col: 5, offset: 88288},
 													expr: &seqExpr{
-														pos: position{line: 2775, col: 9, offset: 88196},
+														pos: position{line: 2779, col: 9, offset: 88299},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2775, col: 9, offset: 88196},
+																pos:        position{line: 2779, col: 9, offset: 88299},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2776, col: 9, offset: 88245},
+																pos: position{line: 2780, col: 9, offset: 88348},
 																run: (*parser).callonSectionTitleLineElement17,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2780, col: 5, offset: 88325},
+													pos: position{line: 2784, col: 5, offset: 88428},
 													expr: &seqExpr{
-														pos: position{line: 2781, col: 9, offset: 88336},
+														pos: position{line: 2785, col: 9, offset: 88439},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2781, col: 9, offset: 88336},
+																pos: position{line: 2785, col: 9, offset: 88439},
 																expr: &seqExpr{
-																	pos: position{line: 2781, col: 10, offset: 88337},
+																	pos: position{line: 2785, col: 10, offset: 88440},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2781, col: 10, offset: 88337},
+																			pos:        position{line: 2785, col: 10, offset: 88440},
 																			val:        "[._%+-]",
 																			chars:      []rune{'.', '_', '%', '+', '-'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2781, col: 18, offset: 88345},
+																			pos: position{line: 2785, col: 18, offset: 88448},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2781, col: 18, offset: 88345},
+																				pos:        position{line: 2785, col: 18, offset: 88448},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -43464,13 +43512,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2781, col: 30, offset: 88357},
+																pos:        position{line: 2785, col: 30, offset: 88460},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2781, col: 34, offset: 88361},
+																pos:        position{line: 2785, col: 34, offset: 88464},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -43483,12 +43531,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2876, col: 11, offset: 90961},
+										pos: position{line: 2880, col: 11, offset: 91064},
 										run: (*parser).callonSectionTitleLineElement27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2876, col: 11, offset: 90961},
+											pos: position{line: 2880, col: 11, offset: 91064},
 											expr: &charClassMatcher{
-												pos:        position{line: 2876, col: 11, offset: 90961},
+												pos:        position{line: 2880, col: 11, offset: 91064},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -43497,25 +43545,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2497, col: 5, offset: 80503},
+										pos: position{line: 2501, col: 5, offset: 80606},
 										run: (*parser).callonSectionTitleLineElement30,
 										expr: &seqExpr{
-											pos: position{line: 2497, col: 5, offset: 80503},
+											pos: position{line: 2501, col: 5, offset: 80606},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2497, col: 5, offset: 80503},
+													pos: position{line: 2501, col: 5, offset: 80606},
 													run: (*parser).callonSectionTitleLineElement32,
 												},
 												&litMatcher{
-													pos:        position{line: 2500, col: 5, offset: 80574},
+													pos:        position{line: 2504, col: 5, offset: 80677},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2500, col: 10, offset: 80579},
+													pos: position{line: 2504, col: 10, offset: 80682},
 													expr: &charClassMatcher{
-														pos:        position{line: 2500, col: 11, offset: 80580},
+														pos:        position{line: 2504, col: 11, offset: 80683},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -43526,29 +43574,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2506, col: 5, offset: 80772},
+										pos: position{line: 2510, col: 5, offset: 80875},
 										run: (*parser).callonSectionTitleLineElement36,
 										expr: &seqExpr{
-											pos: position{line: 2506, col: 5, offset: 80772},
+											pos: position{line: 2510, col: 5, offset: 80875},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2506, col: 5, offset: 80772},
+													pos: position{line: 2510, col: 5, offset: 80875},
 													run: (*parser).callonSectionTitleLineElement38,
 												},
 												&andCodeExpr{
-													pos: position{line: 2509, col: 5, offset: 80843},
+													pos: position{line: 2513, col: 5, offset: 80946},
 													run: (*parser).callonSectionTitleLineElement39,
 												},
 												&litMatcher{
-													pos:        position{line: 2513, col: 5, offset: 80968},
+													pos:        position{line: 2517, col: 5, offset: 81071},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2513, col: 9, offset: 80972},
+													pos: position{line: 2517, col: 9, offset: 81075},
 													expr: &charClassMatcher{
-														pos:        position{line: 2513, col: 10, offset: 80973},
+														pos:        position{line: 2517, col: 10, offset: 81076},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -43559,31 +43607,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2327, col: 11, offset: 75346},
+										pos:  position{line: 2331, col: 11, offset: 75449},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2789, col: 5, offset: 88554},
+										pos: position{line: 2793, col: 5, offset: 88657},
 										run: (*parser).callonSectionTitleLineElement44,
 										expr: &choiceExpr{
-											pos: position{line: 2790, col: 9, offset: 88564},
+											pos: position{line: 2794, col: 9, offset: 88667},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2790, col: 10, offset: 88565},
+													pos:        position{line: 2794, col: 10, offset: 88668},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2792, col: 13, offset: 88662},
+													pos: position{line: 2796, col: 13, offset: 88765},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2792, col: 13, offset: 88662},
+															pos: position{line: 2796, col: 13, offset: 88765},
 															run: (*parser).callonSectionTitleLineElement48,
 														},
 														&litMatcher{
-															pos:        position{line: 2795, col: 13, offset: 88762},
+															pos:        position{line: 2799, col: 13, offset: 88865},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -43591,20 +43639,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2795, col: 19, offset: 88768},
+													pos:        position{line: 2799, col: 19, offset: 88871},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2798, col: 13, offset: 88806},
+													pos: position{line: 2802, col: 13, offset: 88909},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2798, col: 13, offset: 88806},
+															pos: position{line: 2802, col: 13, offset: 88909},
 															run: (*parser).callonSectionTitleLineElement52,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2801, col: 14, offset: 88899},
+															pos:        position{line: 2805, col: 14, offset: 89002},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -43613,18 +43661,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2803, col: 12, offset: 88943},
+													pos: position{line: 2807, col: 12, offset: 89046},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2803, col: 12, offset: 88943},
+															pos:        position{line: 2807, col: 12, offset: 89046},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2803, col: 16, offset: 88947},
+															pos: position{line: 2807, col: 16, offset: 89050},
 															expr: &litMatcher{
-																pos:        position{line: 2803, col: 17, offset: 88948},
+																pos:        position{line: 2807, col: 17, offset: 89051},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -43636,35 +43684,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2329, col: 11, offset: 75419},
+										pos:  position{line: 2333, col: 11, offset: 75522},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2330, col: 11, offset: 75435},
+										pos:  position{line: 2334, col: 11, offset: 75538},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2331, col: 11, offset: 75463},
+										pos:  position{line: 2335, col: 11, offset: 75566},
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2466, col: 5, offset: 79332},
+										pos: position{line: 2470, col: 5, offset: 79435},
 										run: (*parser).callonSectionTitleLineElement61,
 										expr: &seqExpr{
-											pos: position{line: 2466, col: 5, offset: 79332},
+											pos: position{line: 2470, col: 5, offset: 79435},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2466, col: 5, offset: 79332},
+													pos: position{line: 2470, col: 5, offset: 79435},
 													run: (*parser).callonSectionTitleLineElement63,
 												},
 												&labeledExpr{
-													pos:   position{line: 2469, col: 5, offset: 79408},
+													pos:   position{line: 2473, col: 5, offset: 79511},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2470, col: 9, offset: 79426},
+														pos: position{line: 2474, col: 9, offset: 79529},
 														run: (*parser).callonSectionTitleLineElement65,
 														expr: &charClassMatcher{
-															pos:        position{line: 2470, col: 10, offset: 79427},
+															pos:        position{line: 2474, col: 10, offset: 79530},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -43676,7 +43724,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2333, col: 11, offset: 75548},
+										pos:  position{line: 2337, col: 11, offset: 75651},
 										name: "InlineIcon",
 									},
 									&actionExpr{
@@ -44061,25 +44109,29 @@ var g = &grammar{
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
+												&andCodeExpr{
+													pos: position{line: 1198, col: 5, offset: 37089},
+													run: (*parser).callonSectionTitleLineElement145,
+												},
 											},
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2349, col: 5, offset: 76042},
-										run: (*parser).callonSectionTitleLineElement145,
+										pos: position{line: 2353, col: 5, offset: 76145},
+										run: (*parser).callonSectionTitleLineElement146,
 										expr: &seqExpr{
-											pos: position{line: 2349, col: 5, offset: 76042},
+											pos: position{line: 2353, col: 5, offset: 76145},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2349, col: 5, offset: 76042},
-													run: (*parser).callonSectionTitleLineElement147,
+													pos: position{line: 2353, col: 5, offset: 76145},
+													run: (*parser).callonSectionTitleLineElement148,
 												},
 												&labeledExpr{
-													pos:   position{line: 2352, col: 5, offset: 76097},
+													pos:   position{line: 2356, col: 5, offset: 76200},
 													label: "id",
 													expr: &actionExpr{
 														pos: position{line: 403, col: 5, offset: 12344},
-														run: (*parser).callonSectionTitleLineElement149,
+														run: (*parser).callonSectionTitleLineElement150,
 														expr: &seqExpr{
 															pos: position{line: 403, col: 5, offset: 12344},
 															exprs: []interface{}{
@@ -44094,7 +44146,7 @@ var g = &grammar{
 																	label: "id",
 																	expr: &actionExpr{
 																		pos: position{line: 405, col: 9, offset: 12367},
-																		run: (*parser).callonSectionTitleLineElement153,
+																		run: (*parser).callonSectionTitleLineElement154,
 																		expr: &labeledExpr{
 																			pos:   position{line: 405, col: 9, offset: 12367},
 																			label: "elements",
@@ -44105,7 +44157,7 @@ var g = &grammar{
 																					alternatives: []interface{}{
 																						&actionExpr{
 																							pos: position{line: 406, col: 14, offset: 12391},
-																							run: (*parser).callonSectionTitleLineElement157,
+																							run: (*parser).callonSectionTitleLineElement158,
 																							expr: &oneOrMoreExpr{
 																								pos: position{line: 406, col: 14, offset: 12391},
 																								expr: &charClassMatcher{
@@ -44119,7 +44171,7 @@ var g = &grammar{
 																						},
 																						&actionExpr{
 																							pos: position{line: 1197, col: 23, offset: 36984},
-																							run: (*parser).callonSectionTitleLineElement160,
+																							run: (*parser).callonSectionTitleLineElement161,
 																							expr: &seqExpr{
 																								pos: position{line: 1197, col: 23, offset: 36984},
 																								exprs: []interface{}{
@@ -44134,7 +44186,7 @@ var g = &grammar{
 																										label: "ref",
 																										expr: &actionExpr{
 																											pos: position{line: 1197, col: 56, offset: 37017},
-																											run: (*parser).callonSectionTitleLineElement164,
+																											run: (*parser).callonSectionTitleLineElement165,
 																											expr: &oneOrMoreExpr{
 																												pos: position{line: 1197, col: 56, offset: 37017},
 																												expr: &charClassMatcher{
@@ -44153,18 +44205,22 @@ var g = &grammar{
 																										ignoreCase: false,
 																										want:       "\"�\"",
 																									},
+																									&andCodeExpr{
+																										pos: position{line: 1198, col: 5, offset: 37089},
+																										run: (*parser).callonSectionTitleLineElement169,
+																									},
 																								},
 																							},
 																						},
 																						&actionExpr{
 																							pos: position{line: 635, col: 5, offset: 20116},
-																							run: (*parser).callonSectionTitleLineElement168,
+																							run: (*parser).callonSectionTitleLineElement170,
 																							expr: &seqExpr{
 																								pos: position{line: 635, col: 5, offset: 20116},
 																								exprs: []interface{}{
 																									&andCodeExpr{
 																										pos: position{line: 635, col: 5, offset: 20116},
-																										run: (*parser).callonSectionTitleLineElement170,
+																										run: (*parser).callonSectionTitleLineElement172,
 																									},
 																									&labeledExpr{
 																										pos:   position{line: 638, col: 5, offset: 20188},
@@ -44174,7 +44230,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 644, col: 5, offset: 20326},
-																													run: (*parser).callonSectionTitleLineElement173,
+																													run: (*parser).callonSectionTitleLineElement175,
 																													expr: &seqExpr{
 																														pos: position{line: 644, col: 5, offset: 20326},
 																														exprs: []interface{}{
@@ -44189,7 +44245,7 @@ var g = &grammar{
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 317, col: 18, offset: 9667},
-																																	run: (*parser).callonSectionTitleLineElement177,
+																																	run: (*parser).callonSectionTitleLineElement179,
 																																	expr: &seqExpr{
 																																		pos: position{line: 317, col: 18, offset: 9667},
 																																		exprs: []interface{}{
@@ -44227,7 +44283,7 @@ var g = &grammar{
 																												},
 																												&actionExpr{
 																													pos: position{line: 651, col: 5, offset: 20594},
-																													run: (*parser).callonSectionTitleLineElement183,
+																													run: (*parser).callonSectionTitleLineElement185,
 																													expr: &seqExpr{
 																														pos: position{line: 651, col: 5, offset: 20594},
 																														exprs: []interface{}{
@@ -44242,7 +44298,7 @@ var g = &grammar{
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 317, col: 18, offset: 9667},
-																																	run: (*parser).callonSectionTitleLineElement187,
+																																	run: (*parser).callonSectionTitleLineElement189,
 																																	expr: &seqExpr{
 																																		pos: position{line: 317, col: 18, offset: 9667},
 																																		exprs: []interface{}{
@@ -44280,7 +44336,7 @@ var g = &grammar{
 																												},
 																												&actionExpr{
 																													pos: position{line: 657, col: 25, offset: 20798},
-																													run: (*parser).callonSectionTitleLineElement193,
+																													run: (*parser).callonSectionTitleLineElement195,
 																													expr: &seqExpr{
 																														pos: position{line: 657, col: 25, offset: 20798},
 																														exprs: []interface{}{
@@ -44295,7 +44351,7 @@ var g = &grammar{
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 317, col: 18, offset: 9667},
-																																	run: (*parser).callonSectionTitleLineElement197,
+																																	run: (*parser).callonSectionTitleLineElement199,
 																																	expr: &seqExpr{
 																																		pos: position{line: 317, col: 18, offset: 9667},
 																																		exprs: []interface{}{
@@ -44329,7 +44385,7 @@ var g = &grammar{
 																																	pos: position{line: 657, col: 62, offset: 20835},
 																																	expr: &actionExpr{
 																																		pos: position{line: 665, col: 17, offset: 21130},
-																																		run: (*parser).callonSectionTitleLineElement204,
+																																		run: (*parser).callonSectionTitleLineElement206,
 																																		expr: &seqExpr{
 																																			pos: position{line: 665, col: 17, offset: 21130},
 																																			exprs: []interface{}{
@@ -44347,7 +44403,7 @@ var g = &grammar{
 																																						alternatives: []interface{}{
 																																							&actionExpr{
 																																								pos: position{line: 665, col: 28, offset: 21141},
-																																								run: (*parser).callonSectionTitleLineElement209,
+																																								run: (*parser).callonSectionTitleLineElement211,
 																																								expr: &charClassMatcher{
 																																									pos:        position{line: 665, col: 28, offset: 21141},
 																																									val:        "[A-Za-z]",
@@ -44358,7 +44414,7 @@ var g = &grammar{
 																																							},
 																																							&actionExpr{
 																																								pos: position{line: 667, col: 9, offset: 21195},
-																																								run: (*parser).callonSectionTitleLineElement211,
+																																								run: (*parser).callonSectionTitleLineElement213,
 																																								expr: &oneOrMoreExpr{
 																																									pos: position{line: 667, col: 9, offset: 21195},
 																																									expr: &charClassMatcher{
@@ -44389,7 +44445,7 @@ var g = &grammar{
 																												},
 																												&actionExpr{
 																													pos: position{line: 661, col: 25, offset: 20969},
-																													run: (*parser).callonSectionTitleLineElement215,
+																													run: (*parser).callonSectionTitleLineElement217,
 																													expr: &seqExpr{
 																														pos: position{line: 661, col: 25, offset: 20969},
 																														exprs: []interface{}{
@@ -44404,7 +44460,7 @@ var g = &grammar{
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 317, col: 18, offset: 9667},
-																																	run: (*parser).callonSectionTitleLineElement219,
+																																	run: (*parser).callonSectionTitleLineElement221,
 																																	expr: &seqExpr{
 																																		pos: position{line: 317, col: 18, offset: 9667},
 																																		exprs: []interface{}{
@@ -44438,7 +44494,7 @@ var g = &grammar{
 																																	pos: position{line: 661, col: 63, offset: 21007},
 																																	expr: &actionExpr{
 																																		pos: position{line: 665, col: 17, offset: 21130},
-																																		run: (*parser).callonSectionTitleLineElement226,
+																																		run: (*parser).callonSectionTitleLineElement228,
 																																		expr: &seqExpr{
 																																			pos: position{line: 665, col: 17, offset: 21130},
 																																			exprs: []interface{}{
@@ -44456,7 +44512,7 @@ var g = &grammar{
 																																						alternatives: []interface{}{
 																																							&actionExpr{
 																																								pos: position{line: 665, col: 28, offset: 21141},
-																																								run: (*parser).callonSectionTitleLineElement231,
+																																								run: (*parser).callonSectionTitleLineElement233,
 																																								expr: &charClassMatcher{
 																																									pos:        position{line: 665, col: 28, offset: 21141},
 																																									val:        "[A-Za-z]",
@@ -44467,7 +44523,7 @@ var g = &grammar{
 																																							},
 																																							&actionExpr{
 																																								pos: position{line: 667, col: 9, offset: 21195},
-																																								run: (*parser).callonSectionTitleLineElement233,
+																																								run: (*parser).callonSectionTitleLineElement235,
 																																								expr: &oneOrMoreExpr{
 																																									pos: position{line: 667, col: 9, offset: 21195},
 																																									expr: &charClassMatcher{
@@ -44504,7 +44560,7 @@ var g = &grammar{
 																						},
 																						&actionExpr{
 																							pos: position{line: 411, col: 16, offset: 12624},
-																							run: (*parser).callonSectionTitleLineElement237,
+																							run: (*parser).callonSectionTitleLineElement239,
 																							expr: &litMatcher{
 																								pos:        position{line: 411, col: 16, offset: 12624},
 																								val:        "{",
@@ -44529,12 +44585,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2352, col: 26, offset: 76118},
+													pos: position{line: 2356, col: 26, offset: 76221},
 													expr: &actionExpr{
-														pos: position{line: 2872, col: 10, offset: 90900},
-														run: (*parser).callonSectionTitleLineElement241,
+														pos: position{line: 2876, col: 10, offset: 91003},
+														run: (*parser).callonSectionTitleLineElement243,
 														expr: &charClassMatcher{
-															pos:        position{line: 2872, col: 10, offset: 90900},
+															pos:        position{line: 2876, col: 10, offset: 91003},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -44543,30 +44599,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 2352, col: 33, offset: 76125},
+													pos: position{line: 2356, col: 33, offset: 76228},
 													expr: &choiceExpr{
-														pos: position{line: 2894, col: 8, offset: 91298},
+														pos: position{line: 2898, col: 8, offset: 91401},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2881, col: 12, offset: 91071},
-																run: (*parser).callonSectionTitleLineElement245,
+																pos: position{line: 2885, col: 12, offset: 91174},
+																run: (*parser).callonSectionTitleLineElement247,
 																expr: &choiceExpr{
-																	pos: position{line: 2881, col: 13, offset: 91072},
+																	pos: position{line: 2885, col: 13, offset: 91175},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2881, col: 13, offset: 91072},
+																			pos:        position{line: 2885, col: 13, offset: 91175},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2881, col: 20, offset: 91079},
+																			pos:        position{line: 2885, col: 20, offset: 91182},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2881, col: 29, offset: 91088},
+																			pos:        position{line: 2885, col: 29, offset: 91191},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -44575,9 +44631,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2891, col: 8, offset: 91248},
+																pos: position{line: 2895, col: 8, offset: 91351},
 																expr: &anyMatcher{
-																	line: 2891, col: 9, offset: 91249,
+																	line: 2895, col: 9, offset: 91352,
 																},
 															},
 														},
@@ -44587,27 +44643,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1252, col: 5, offset: 38744},
-										run: (*parser).callonSectionTitleLineElement252,
+										pos: position{line: 1256, col: 5, offset: 38847},
+										run: (*parser).callonSectionTitleLineElement254,
 										expr: &seqExpr{
-											pos: position{line: 1252, col: 5, offset: 38744},
+											pos: position{line: 1256, col: 5, offset: 38847},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1252, col: 5, offset: 38744},
+													pos:        position{line: 1256, col: 5, offset: 38847},
 													val:        "\\[[",
 													ignoreCase: false,
 													want:       "\"\\\\[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1252, col: 14, offset: 38753},
+													pos:   position{line: 1256, col: 14, offset: 38856},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2857, col: 7, offset: 90552},
-														run: (*parser).callonSectionTitleLineElement256,
+														pos: position{line: 2861, col: 7, offset: 90655},
+														run: (*parser).callonSectionTitleLineElement258,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2857, col: 7, offset: 90552},
+															pos: position{line: 2861, col: 7, offset: 90655},
 															expr: &charClassMatcher{
-																pos:        position{line: 2857, col: 7, offset: 90552},
+																pos:        position{line: 2861, col: 7, offset: 90655},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -44617,7 +44673,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1252, col: 22, offset: 38761},
+													pos:        position{line: 1256, col: 22, offset: 38864},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -44626,27 +44682,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1257, col: 5, offset: 38880},
-										run: (*parser).callonSectionTitleLineElement260,
+										pos: position{line: 1261, col: 5, offset: 38983},
+										run: (*parser).callonSectionTitleLineElement262,
 										expr: &seqExpr{
-											pos: position{line: 1257, col: 5, offset: 38880},
+											pos: position{line: 1261, col: 5, offset: 38983},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1257, col: 5, offset: 38880},
+													pos:        position{line: 1261, col: 5, offset: 38983},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1257, col: 10, offset: 38885},
+													pos:   position{line: 1261, col: 10, offset: 38988},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2857, col: 7, offset: 90552},
-														run: (*parser).callonSectionTitleLineElement264,
+														pos: position{line: 2861, col: 7, offset: 90655},
+														run: (*parser).callonSectionTitleLineElement266,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2857, col: 7, offset: 90552},
+															pos: position{line: 2861, col: 7, offset: 90655},
 															expr: &charClassMatcher{
-																pos:        position{line: 2857, col: 7, offset: 90552},
+																pos:        position{line: 2861, col: 7, offset: 90655},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -44656,7 +44712,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1257, col: 18, offset: 38893},
+													pos:        position{line: 1261, col: 18, offset: 38996},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -44665,20 +44721,20 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2338, col: 11, offset: 75802},
+										pos:  position{line: 2342, col: 11, offset: 75905},
 										name: "InlineFootnote",
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2339, col: 5, offset: 75822},
+							pos:   position{line: 2343, col: 5, offset: 75925},
 							label: "end",
 							expr: &actionExpr{
-								pos: position{line: 2897, col: 16, offset: 91422},
-								run: (*parser).callonSectionTitleLineElement270,
+								pos: position{line: 2901, col: 16, offset: 91525},
+								run: (*parser).callonSectionTitleLineElement272,
 								expr: &litMatcher{
-									pos:        position{line: 2897, col: 16, offset: 91422},
+									pos:        position{line: 2901, col: 16, offset: 91525},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -44686,8 +44742,8 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2340, col: 5, offset: 75844},
-							run: (*parser).callonSectionTitleLineElement272,
+							pos: position{line: 2344, col: 5, offset: 75947},
+							run: (*parser).callonSectionTitleLineElement274,
 						},
 					},
 				},
@@ -44695,52 +44751,52 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2362, col: 1, offset: 76387},
+			pos:  position{line: 2366, col: 1, offset: 76490},
 			expr: &actionExpr{
-				pos: position{line: 2363, col: 5, offset: 76474},
+				pos: position{line: 2367, col: 5, offset: 76577},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2363, col: 5, offset: 76474},
+					pos: position{line: 2367, col: 5, offset: 76577},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2363, col: 5, offset: 76474},
+							pos:   position{line: 2367, col: 5, offset: 76577},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2363, col: 14, offset: 76483},
+								pos: position{line: 2367, col: 14, offset: 76586},
 								expr: &actionExpr{
-									pos: position{line: 2365, col: 9, offset: 76509},
+									pos: position{line: 2369, col: 9, offset: 76612},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2365, col: 9, offset: 76509},
+										pos: position{line: 2369, col: 9, offset: 76612},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2889, col: 11, offset: 91234},
+												pos: position{line: 2893, col: 11, offset: 91337},
 												expr: &anyMatcher{
-													line: 2889, col: 13, offset: 91236,
+													line: 2893, col: 13, offset: 91339,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2366, col: 9, offset: 76524},
+												pos:   position{line: 2370, col: 9, offset: 76627},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2367, col: 13, offset: 76546},
+													pos: position{line: 2371, col: 13, offset: 76649},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2771, col: 5, offset: 88121},
+															pos: position{line: 2775, col: 5, offset: 88224},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2771, col: 5, offset: 88121},
+																pos: position{line: 2775, col: 5, offset: 88224},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 2771, col: 5, offset: 88121},
+																		pos:   position{line: 2775, col: 5, offset: 88224},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2771, col: 11, offset: 88127},
+																			pos: position{line: 2775, col: 11, offset: 88230},
 																			run: (*parser).callonNormalGroup14,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2771, col: 11, offset: 88127},
+																				pos: position{line: 2775, col: 11, offset: 88230},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2771, col: 11, offset: 88127},
+																					pos:        position{line: 2775, col: 11, offset: 88230},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -44750,44 +44806,44 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2774, col: 5, offset: 88185},
+																		pos: position{line: 2778, col: 5, offset: 88288},
 																		expr: &seqExpr{
-																			pos: position{line: 2775, col: 9, offset: 88196},
+																			pos: position{line: 2779, col: 9, offset: 88299},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2775, col: 9, offset: 88196},
+																					pos:        position{line: 2779, col: 9, offset: 88299},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2776, col: 9, offset: 88245},
+																					pos: position{line: 2780, col: 9, offset: 88348},
 																					run: (*parser).callonNormalGroup20,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2780, col: 5, offset: 88325},
+																		pos: position{line: 2784, col: 5, offset: 88428},
 																		expr: &seqExpr{
-																			pos: position{line: 2781, col: 9, offset: 88336},
+																			pos: position{line: 2785, col: 9, offset: 88439},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 2781, col: 9, offset: 88336},
+																					pos: position{line: 2785, col: 9, offset: 88439},
 																					expr: &seqExpr{
-																						pos: position{line: 2781, col: 10, offset: 88337},
+																						pos: position{line: 2785, col: 10, offset: 88440},
 																						exprs: []interface{}{
 																							&charClassMatcher{
-																								pos:        position{line: 2781, col: 10, offset: 88337},
+																								pos:        position{line: 2785, col: 10, offset: 88440},
 																								val:        "[._%+-]",
 																								chars:      []rune{'.', '_', '%', '+', '-'},
 																								ignoreCase: false,
 																								inverted:   false,
 																							},
 																							&oneOrMoreExpr{
-																								pos: position{line: 2781, col: 18, offset: 88345},
+																								pos: position{line: 2785, col: 18, offset: 88448},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2781, col: 18, offset: 88345},
+																									pos:        position{line: 2785, col: 18, offset: 88448},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -44798,13 +44854,13 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2781, col: 30, offset: 88357},
+																					pos:        position{line: 2785, col: 30, offset: 88460},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2781, col: 34, offset: 88361},
+																					pos:        position{line: 2785, col: 34, offset: 88464},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -44817,12 +44873,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2876, col: 11, offset: 90961},
+															pos: position{line: 2880, col: 11, offset: 91064},
 															run: (*parser).callonNormalGroup30,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2876, col: 11, offset: 90961},
+																pos: position{line: 2880, col: 11, offset: 91064},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2876, col: 11, offset: 90961},
+																	pos:        position{line: 2880, col: 11, offset: 91064},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -44831,29 +44887,29 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2369, col: 15, offset: 76592},
+															pos:  position{line: 2373, col: 15, offset: 76695},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2497, col: 5, offset: 80503},
+															pos: position{line: 2501, col: 5, offset: 80606},
 															run: (*parser).callonNormalGroup34,
 															expr: &seqExpr{
-																pos: position{line: 2497, col: 5, offset: 80503},
+																pos: position{line: 2501, col: 5, offset: 80606},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2497, col: 5, offset: 80503},
+																		pos: position{line: 2501, col: 5, offset: 80606},
 																		run: (*parser).callonNormalGroup36,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2500, col: 5, offset: 80574},
+																		pos:        position{line: 2504, col: 5, offset: 80677},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2500, col: 10, offset: 80579},
+																		pos: position{line: 2504, col: 10, offset: 80682},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2500, col: 11, offset: 80580},
+																			pos:        position{line: 2504, col: 11, offset: 80683},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -44864,29 +44920,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2506, col: 5, offset: 80772},
+															pos: position{line: 2510, col: 5, offset: 80875},
 															run: (*parser).callonNormalGroup40,
 															expr: &seqExpr{
-																pos: position{line: 2506, col: 5, offset: 80772},
+																pos: position{line: 2510, col: 5, offset: 80875},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2506, col: 5, offset: 80772},
+																		pos: position{line: 2510, col: 5, offset: 80875},
 																		run: (*parser).callonNormalGroup42,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2509, col: 5, offset: 80843},
+																		pos: position{line: 2513, col: 5, offset: 80946},
 																		run: (*parser).callonNormalGroup43,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2513, col: 5, offset: 80968},
+																		pos:        position{line: 2517, col: 5, offset: 81071},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2513, col: 9, offset: 80972},
+																		pos: position{line: 2517, col: 9, offset: 81075},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2513, col: 10, offset: 80973},
+																			pos:        position{line: 2517, col: 10, offset: 81076},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -44897,27 +44953,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2789, col: 5, offset: 88554},
+															pos: position{line: 2793, col: 5, offset: 88657},
 															run: (*parser).callonNormalGroup47,
 															expr: &choiceExpr{
-																pos: position{line: 2790, col: 9, offset: 88564},
+																pos: position{line: 2794, col: 9, offset: 88667},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2790, col: 10, offset: 88565},
+																		pos:        position{line: 2794, col: 10, offset: 88668},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2792, col: 13, offset: 88662},
+																		pos: position{line: 2796, col: 13, offset: 88765},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2792, col: 13, offset: 88662},
+																				pos: position{line: 2796, col: 13, offset: 88765},
 																				run: (*parser).callonNormalGroup51,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2795, col: 13, offset: 88762},
+																				pos:        position{line: 2799, col: 13, offset: 88865},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -44925,20 +44981,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2795, col: 19, offset: 88768},
+																		pos:        position{line: 2799, col: 19, offset: 88871},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2798, col: 13, offset: 88806},
+																		pos: position{line: 2802, col: 13, offset: 88909},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2798, col: 13, offset: 88806},
+																				pos: position{line: 2802, col: 13, offset: 88909},
 																				run: (*parser).callonNormalGroup55,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2801, col: 14, offset: 88899},
+																				pos:        position{line: 2805, col: 14, offset: 89002},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -44947,18 +45003,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2803, col: 12, offset: 88943},
+																		pos: position{line: 2807, col: 12, offset: 89046},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2803, col: 12, offset: 88943},
+																				pos:        position{line: 2807, col: 12, offset: 89046},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2803, col: 16, offset: 88947},
+																				pos: position{line: 2807, col: 16, offset: 89050},
 																				expr: &litMatcher{
-																					pos:        position{line: 2803, col: 17, offset: 88948},
+																					pos:        position{line: 2807, col: 17, offset: 89051},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -44970,25 +45026,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2881, col: 12, offset: 91071},
+															pos: position{line: 2885, col: 12, offset: 91174},
 															run: (*parser).callonNormalGroup61,
 															expr: &choiceExpr{
-																pos: position{line: 2881, col: 13, offset: 91072},
+																pos: position{line: 2885, col: 13, offset: 91175},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2881, col: 13, offset: 91072},
+																		pos:        position{line: 2885, col: 13, offset: 91175},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2881, col: 20, offset: 91079},
+																		pos:        position{line: 2885, col: 20, offset: 91182},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2881, col: 29, offset: 91088},
+																		pos:        position{line: 2885, col: 29, offset: 91191},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -45343,35 +45399,35 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2374, col: 15, offset: 76759},
+															pos:  position{line: 2378, col: 15, offset: 76862},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2375, col: 15, offset: 76779},
+															pos:  position{line: 2379, col: 15, offset: 76882},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2376, col: 15, offset: 76868},
+															pos:  position{line: 2380, col: 15, offset: 76971},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2466, col: 5, offset: 79332},
+															pos: position{line: 2470, col: 5, offset: 79435},
 															run: (*parser).callonNormalGroup138,
 															expr: &seqExpr{
-																pos: position{line: 2466, col: 5, offset: 79332},
+																pos: position{line: 2470, col: 5, offset: 79435},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2466, col: 5, offset: 79332},
+																		pos: position{line: 2470, col: 5, offset: 79435},
 																		run: (*parser).callonNormalGroup140,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2469, col: 5, offset: 79408},
+																		pos:   position{line: 2473, col: 5, offset: 79511},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2470, col: 9, offset: 79426},
+																			pos: position{line: 2474, col: 9, offset: 79529},
 																			run: (*parser).callonNormalGroup142,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2470, col: 10, offset: 79427},
+																				pos:        position{line: 2474, col: 10, offset: 79530},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -45383,32 +45439,32 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1205, col: 5, offset: 37430},
+															pos: position{line: 1209, col: 5, offset: 37533},
 															run: (*parser).callonNormalGroup144,
 															expr: &seqExpr{
-																pos: position{line: 1205, col: 5, offset: 37430},
+																pos: position{line: 1209, col: 5, offset: 37533},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1205, col: 5, offset: 37430},
+																		pos: position{line: 1209, col: 5, offset: 37533},
 																		run: (*parser).callonNormalGroup146,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1208, col: 5, offset: 37506},
+																		pos:        position{line: 1212, col: 5, offset: 37609},
 																		val:        "+",
 																		ignoreCase: false,
 																		want:       "\"+\"",
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1209, col: 5, offset: 37514},
+																		pos: position{line: 1213, col: 5, offset: 37617},
 																		run: (*parser).callonNormalGroup148,
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1213, col: 5, offset: 37601},
+																		pos: position{line: 1217, col: 5, offset: 37704},
 																		expr: &actionExpr{
-																			pos: position{line: 2872, col: 10, offset: 90900},
+																			pos: position{line: 2876, col: 10, offset: 91003},
 																			run: (*parser).callonNormalGroup150,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2872, col: 10, offset: 90900},
+																				pos:        position{line: 2876, col: 10, offset: 91003},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45417,30 +45473,30 @@ var g = &grammar{
 																		},
 																	},
 																	&andExpr{
-																		pos: position{line: 1213, col: 12, offset: 37608},
+																		pos: position{line: 1217, col: 12, offset: 37711},
 																		expr: &choiceExpr{
-																			pos: position{line: 2894, col: 8, offset: 91298},
+																			pos: position{line: 2898, col: 8, offset: 91401},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2881, col: 12, offset: 91071},
+																					pos: position{line: 2885, col: 12, offset: 91174},
 																					run: (*parser).callonNormalGroup154,
 																					expr: &choiceExpr{
-																						pos: position{line: 2881, col: 13, offset: 91072},
+																						pos: position{line: 2885, col: 13, offset: 91175},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2881, col: 13, offset: 91072},
+																								pos:        position{line: 2885, col: 13, offset: 91175},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2881, col: 20, offset: 91079},
+																								pos:        position{line: 2885, col: 20, offset: 91182},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2881, col: 29, offset: 91088},
+																								pos:        position{line: 2885, col: 29, offset: 91191},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -45449,9 +45505,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2891, col: 8, offset: 91248},
+																					pos: position{line: 2895, col: 8, offset: 91351},
 																					expr: &anyMatcher{
-																						line: 2891, col: 9, offset: 91249,
+																						line: 2895, col: 9, offset: 91352,
 																					},
 																				},
 																			},
@@ -45461,7 +45517,7 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2379, col: 15, offset: 77050},
+															pos:  position{line: 2383, col: 15, offset: 77153},
 															name: "InlinePassthrough",
 														},
 														&actionExpr{
@@ -45500,14 +45556,18 @@ var g = &grammar{
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
+																	&andCodeExpr{
+																		pos: position{line: 1198, col: 5, offset: 37089},
+																		run: (*parser).callonNormalGroup170,
+																	},
 																},
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2811, col: 12, offset: 89208},
-															run: (*parser).callonNormalGroup170,
+															pos: position{line: 2815, col: 12, offset: 89311},
+															run: (*parser).callonNormalGroup171,
 															expr: &charClassMatcher{
-																pos:        position{line: 2811, col: 12, offset: 89208},
+																pos:        position{line: 2815, col: 12, offset: 89311},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -45523,9 +45583,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2891, col: 8, offset: 91248},
+							pos: position{line: 2895, col: 8, offset: 91351},
 							expr: &anyMatcher{
-								line: 2891, col: 9, offset: 91249,
+								line: 2895, col: 9, offset: 91352,
 							},
 						},
 					},
@@ -45534,28 +45594,28 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2390, col: 1, offset: 77488},
+			pos:  position{line: 2394, col: 1, offset: 77591},
 			expr: &actionExpr{
-				pos: position{line: 2391, col: 5, offset: 77521},
+				pos: position{line: 2395, col: 5, offset: 77624},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2391, col: 5, offset: 77521},
+					pos: position{line: 2395, col: 5, offset: 77624},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2391, col: 5, offset: 77521},
+							pos:   position{line: 2395, col: 5, offset: 77624},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2391, col: 14, offset: 77530},
+								pos: position{line: 2395, col: 14, offset: 77633},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2391, col: 15, offset: 77531},
+									pos:  position{line: 2395, col: 15, offset: 77634},
 									name: "AttributeStructuredValueElement",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2891, col: 8, offset: 91248},
+							pos: position{line: 2895, col: 8, offset: 91351},
 							expr: &anyMatcher{
-								line: 2891, col: 9, offset: 91249,
+								line: 2895, col: 9, offset: 91352,
 							},
 						},
 					},
@@ -45564,41 +45624,41 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2395, col: 1, offset: 77628},
+			pos:  position{line: 2399, col: 1, offset: 77731},
 			expr: &actionExpr{
-				pos: position{line: 2396, col: 5, offset: 77668},
+				pos: position{line: 2400, col: 5, offset: 77771},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2396, col: 5, offset: 77668},
+					pos: position{line: 2400, col: 5, offset: 77771},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2889, col: 11, offset: 91234},
+							pos: position{line: 2893, col: 11, offset: 91337},
 							expr: &anyMatcher{
-								line: 2889, col: 13, offset: 91236,
+								line: 2893, col: 13, offset: 91339,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2397, col: 5, offset: 77679},
+							pos:   position{line: 2401, col: 5, offset: 77782},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2398, col: 9, offset: 77697},
+								pos: position{line: 2402, col: 9, offset: 77800},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2771, col: 5, offset: 88121},
+										pos: position{line: 2775, col: 5, offset: 88224},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2771, col: 5, offset: 88121},
+											pos: position{line: 2775, col: 5, offset: 88224},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2771, col: 5, offset: 88121},
+													pos:   position{line: 2775, col: 5, offset: 88224},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2771, col: 11, offset: 88127},
+														pos: position{line: 2775, col: 11, offset: 88230},
 														run: (*parser).callonAttributeStructuredValueElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2771, col: 11, offset: 88127},
+															pos: position{line: 2775, col: 11, offset: 88230},
 															expr: &charClassMatcher{
-																pos:        position{line: 2771, col: 11, offset: 88127},
+																pos:        position{line: 2775, col: 11, offset: 88230},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45608,44 +45668,44 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2774, col: 5, offset: 88185},
+													pos: position{line: 2778, col: 5, offset: 88288},
 													expr: &seqExpr{
-														pos: position{line: 2775, col: 9, offset: 88196},
+														pos: position{line: 2779, col: 9, offset: 88299},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2775, col: 9, offset: 88196},
+																pos:        position{line: 2779, col: 9, offset: 88299},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2776, col: 9, offset: 88245},
+																pos: position{line: 2780, col: 9, offset: 88348},
 																run: (*parser).callonAttributeStructuredValueElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2780, col: 5, offset: 88325},
+													pos: position{line: 2784, col: 5, offset: 88428},
 													expr: &seqExpr{
-														pos: position{line: 2781, col: 9, offset: 88336},
+														pos: position{line: 2785, col: 9, offset: 88439},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2781, col: 9, offset: 88336},
+																pos: position{line: 2785, col: 9, offset: 88439},
 																expr: &seqExpr{
-																	pos: position{line: 2781, col: 10, offset: 88337},
+																	pos: position{line: 2785, col: 10, offset: 88440},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2781, col: 10, offset: 88337},
+																			pos:        position{line: 2785, col: 10, offset: 88440},
 																			val:        "[._%+-]",
 																			chars:      []rune{'.', '_', '%', '+', '-'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2781, col: 18, offset: 88345},
+																			pos: position{line: 2785, col: 18, offset: 88448},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2781, col: 18, offset: 88345},
+																				pos:        position{line: 2785, col: 18, offset: 88448},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -45656,13 +45716,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2781, col: 30, offset: 88357},
+																pos:        position{line: 2785, col: 30, offset: 88460},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2781, col: 34, offset: 88361},
+																pos:        position{line: 2785, col: 34, offset: 88464},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45675,10 +45735,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2872, col: 10, offset: 90900},
+										pos: position{line: 2876, col: 10, offset: 91003},
 										run: (*parser).callonAttributeStructuredValueElement26,
 										expr: &charClassMatcher{
-											pos:        position{line: 2872, col: 10, offset: 90900},
+											pos:        position{line: 2876, col: 10, offset: 91003},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -45686,31 +45746,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2400, col: 11, offset: 77735},
+										pos:  position{line: 2404, col: 11, offset: 77838},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2789, col: 5, offset: 88554},
+										pos: position{line: 2793, col: 5, offset: 88657},
 										run: (*parser).callonAttributeStructuredValueElement29,
 										expr: &choiceExpr{
-											pos: position{line: 2790, col: 9, offset: 88564},
+											pos: position{line: 2794, col: 9, offset: 88667},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2790, col: 10, offset: 88565},
+													pos:        position{line: 2794, col: 10, offset: 88668},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2792, col: 13, offset: 88662},
+													pos: position{line: 2796, col: 13, offset: 88765},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2792, col: 13, offset: 88662},
+															pos: position{line: 2796, col: 13, offset: 88765},
 															run: (*parser).callonAttributeStructuredValueElement33,
 														},
 														&litMatcher{
-															pos:        position{line: 2795, col: 13, offset: 88762},
+															pos:        position{line: 2799, col: 13, offset: 88865},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -45718,20 +45778,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2795, col: 19, offset: 88768},
+													pos:        position{line: 2799, col: 19, offset: 88871},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2798, col: 13, offset: 88806},
+													pos: position{line: 2802, col: 13, offset: 88909},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2798, col: 13, offset: 88806},
+															pos: position{line: 2802, col: 13, offset: 88909},
 															run: (*parser).callonAttributeStructuredValueElement37,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2801, col: 14, offset: 88899},
+															pos:        position{line: 2805, col: 14, offset: 89002},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -45740,18 +45800,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2803, col: 12, offset: 88943},
+													pos: position{line: 2807, col: 12, offset: 89046},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2803, col: 12, offset: 88943},
+															pos:        position{line: 2807, col: 12, offset: 89046},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2803, col: 16, offset: 88947},
+															pos: position{line: 2807, col: 16, offset: 89050},
 															expr: &litMatcher{
-																pos:        position{line: 2803, col: 17, offset: 88948},
+																pos:        position{line: 2807, col: 17, offset: 89051},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -45763,31 +45823,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2402, col: 11, offset: 77808},
+										pos:  position{line: 2406, col: 11, offset: 77911},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2403, col: 11, offset: 77824},
+										pos:  position{line: 2407, col: 11, offset: 77927},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2466, col: 5, offset: 79332},
+										pos: position{line: 2470, col: 5, offset: 79435},
 										run: (*parser).callonAttributeStructuredValueElement45,
 										expr: &seqExpr{
-											pos: position{line: 2466, col: 5, offset: 79332},
+											pos: position{line: 2470, col: 5, offset: 79435},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2466, col: 5, offset: 79332},
+													pos: position{line: 2470, col: 5, offset: 79435},
 													run: (*parser).callonAttributeStructuredValueElement47,
 												},
 												&labeledExpr{
-													pos:   position{line: 2469, col: 5, offset: 79408},
+													pos:   position{line: 2473, col: 5, offset: 79511},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2470, col: 9, offset: 79426},
+														pos: position{line: 2474, col: 9, offset: 79529},
 														run: (*parser).callonAttributeStructuredValueElement49,
 														expr: &charClassMatcher{
-															pos:        position{line: 2470, col: 10, offset: 79427},
+															pos:        position{line: 2474, col: 10, offset: 79530},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -45834,29 +45894,33 @@ var g = &grammar{
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
+												&andCodeExpr{
+													pos: position{line: 1198, col: 5, offset: 37089},
+													run: (*parser).callonAttributeStructuredValueElement59,
+												},
 											},
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2881, col: 12, offset: 91071},
-										run: (*parser).callonAttributeStructuredValueElement59,
+										pos: position{line: 2885, col: 12, offset: 91174},
+										run: (*parser).callonAttributeStructuredValueElement60,
 										expr: &choiceExpr{
-											pos: position{line: 2881, col: 13, offset: 91072},
+											pos: position{line: 2885, col: 13, offset: 91175},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2881, col: 13, offset: 91072},
+													pos:        position{line: 2885, col: 13, offset: 91175},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2881, col: 20, offset: 91079},
+													pos:        position{line: 2885, col: 20, offset: 91182},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2881, col: 29, offset: 91088},
+													pos:        position{line: 2885, col: 29, offset: 91191},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -45865,10 +45929,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2811, col: 12, offset: 89208},
-										run: (*parser).callonAttributeStructuredValueElement64,
+										pos: position{line: 2815, col: 12, offset: 89311},
+										run: (*parser).callonAttributeStructuredValueElement65,
 										expr: &charClassMatcher{
-											pos:        position{line: 2811, col: 12, offset: 89208},
+											pos:        position{line: 2815, col: 12, offset: 89311},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -45884,73 +45948,73 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2414, col: 1, offset: 78094},
+			pos:  position{line: 2418, col: 1, offset: 78197},
 			expr: &actionExpr{
-				pos: position{line: 2416, col: 5, offset: 78176},
+				pos: position{line: 2420, col: 5, offset: 78279},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2416, col: 5, offset: 78176},
+					pos: position{line: 2420, col: 5, offset: 78279},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2416, col: 5, offset: 78176},
+							pos: position{line: 2420, col: 5, offset: 78279},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2419, col: 5, offset: 78241},
+							pos:   position{line: 2423, col: 5, offset: 78344},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2420, col: 9, offset: 78259},
+								pos: position{line: 2424, col: 9, offset: 78362},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2420, col: 9, offset: 78259},
+										pos:  position{line: 2424, col: 9, offset: 78362},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2421, col: 11, offset: 78280},
+										pos:  position{line: 2425, col: 11, offset: 78383},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2422, col: 11, offset: 78303},
+										pos:  position{line: 2426, col: 11, offset: 78406},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2423, col: 11, offset: 78319},
+										pos:  position{line: 2427, col: 11, offset: 78422},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2424, col: 11, offset: 78348},
+										pos:  position{line: 2428, col: 11, offset: 78451},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2425, col: 11, offset: 78374},
+										pos:  position{line: 2429, col: 11, offset: 78477},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2426, col: 11, offset: 78400},
+										pos:  position{line: 2430, col: 11, offset: 78503},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
-										pos: position{line: 1252, col: 5, offset: 38744},
+										pos: position{line: 1256, col: 5, offset: 38847},
 										run: (*parser).callonInlineMacro13,
 										expr: &seqExpr{
-											pos: position{line: 1252, col: 5, offset: 38744},
+											pos: position{line: 1256, col: 5, offset: 38847},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1252, col: 5, offset: 38744},
+													pos:        position{line: 1256, col: 5, offset: 38847},
 													val:        "\\[[",
 													ignoreCase: false,
 													want:       "\"\\\\[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1252, col: 14, offset: 38753},
+													pos:   position{line: 1256, col: 14, offset: 38856},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2857, col: 7, offset: 90552},
+														pos: position{line: 2861, col: 7, offset: 90655},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2857, col: 7, offset: 90552},
+															pos: position{line: 2861, col: 7, offset: 90655},
 															expr: &charClassMatcher{
-																pos:        position{line: 2857, col: 7, offset: 90552},
+																pos:        position{line: 2861, col: 7, offset: 90655},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -45960,7 +46024,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1252, col: 22, offset: 38761},
+													pos:        position{line: 1256, col: 22, offset: 38864},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -45969,27 +46033,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1257, col: 5, offset: 38880},
+										pos: position{line: 1261, col: 5, offset: 38983},
 										run: (*parser).callonInlineMacro21,
 										expr: &seqExpr{
-											pos: position{line: 1257, col: 5, offset: 38880},
+											pos: position{line: 1261, col: 5, offset: 38983},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1257, col: 5, offset: 38880},
+													pos:        position{line: 1261, col: 5, offset: 38983},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1257, col: 10, offset: 38885},
+													pos:   position{line: 1261, col: 10, offset: 38988},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2857, col: 7, offset: 90552},
+														pos: position{line: 2861, col: 7, offset: 90655},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2857, col: 7, offset: 90552},
+															pos: position{line: 2861, col: 7, offset: 90655},
 															expr: &charClassMatcher{
-																pos:        position{line: 2857, col: 7, offset: 90552},
+																pos:        position{line: 2861, col: 7, offset: 90655},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -45999,7 +46063,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1257, col: 18, offset: 38893},
+													pos:        position{line: 1261, col: 18, offset: 38996},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -46008,40 +46072,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1296, col: 23, offset: 40369},
+										pos: position{line: 1300, col: 23, offset: 40472},
 										run: (*parser).callonInlineMacro29,
 										expr: &seqExpr{
-											pos: position{line: 1296, col: 23, offset: 40369},
+											pos: position{line: 1300, col: 23, offset: 40472},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1296, col: 23, offset: 40369},
+													pos:        position{line: 1300, col: 23, offset: 40472},
 													val:        "(((",
 													ignoreCase: false,
 													want:       "\"(((\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1296, col: 29, offset: 40375},
+													pos:   position{line: 1300, col: 29, offset: 40478},
 													label: "term1",
 													expr: &actionExpr{
-														pos: position{line: 1303, col: 30, offset: 40706},
+														pos: position{line: 1307, col: 30, offset: 40809},
 														run: (*parser).callonInlineMacro33,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1303, col: 30, offset: 40706},
+															pos: position{line: 1307, col: 30, offset: 40809},
 															expr: &choiceExpr{
-																pos: position{line: 1303, col: 31, offset: 40707},
+																pos: position{line: 1307, col: 31, offset: 40810},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2762, col: 13, offset: 87974},
+																		pos:        position{line: 2766, col: 13, offset: 88077},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2872, col: 10, offset: 90900},
+																		pos: position{line: 2876, col: 10, offset: 91003},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2872, col: 10, offset: 90900},
+																			pos:        position{line: 2876, col: 10, offset: 91003},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -46054,23 +46118,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1297, col: 5, offset: 40414},
+													pos:   position{line: 1301, col: 5, offset: 40517},
 													label: "term2",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1297, col: 11, offset: 40420},
+														pos: position{line: 1301, col: 11, offset: 40523},
 														expr: &actionExpr{
-															pos: position{line: 1297, col: 12, offset: 40421},
+															pos: position{line: 1301, col: 12, offset: 40524},
 															run: (*parser).callonInlineMacro41,
 															expr: &seqExpr{
-																pos: position{line: 1297, col: 12, offset: 40421},
+																pos: position{line: 1301, col: 12, offset: 40524},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1297, col: 12, offset: 40421},
+																		pos: position{line: 1301, col: 12, offset: 40524},
 																		expr: &actionExpr{
-																			pos: position{line: 2872, col: 10, offset: 90900},
+																			pos: position{line: 2876, col: 10, offset: 91003},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2872, col: 10, offset: 90900},
+																				pos:        position{line: 2876, col: 10, offset: 91003},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46079,18 +46143,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1297, col: 19, offset: 40428},
+																		pos:        position{line: 1301, col: 19, offset: 40531},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1297, col: 23, offset: 40432},
+																		pos: position{line: 1301, col: 23, offset: 40535},
 																		expr: &actionExpr{
-																			pos: position{line: 2872, col: 10, offset: 90900},
+																			pos: position{line: 2876, col: 10, offset: 91003},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2872, col: 10, offset: 90900},
+																				pos:        position{line: 2876, col: 10, offset: 91003},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46099,28 +46163,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1297, col: 30, offset: 40439},
+																		pos:   position{line: 1301, col: 30, offset: 40542},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1303, col: 30, offset: 40706},
+																			pos: position{line: 1307, col: 30, offset: 40809},
 																			run: (*parser).callonInlineMacro51,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1303, col: 30, offset: 40706},
+																				pos: position{line: 1307, col: 30, offset: 40809},
 																				expr: &choiceExpr{
-																					pos: position{line: 1303, col: 31, offset: 40707},
+																					pos: position{line: 1307, col: 31, offset: 40810},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2762, col: 13, offset: 87974},
+																							pos:        position{line: 2766, col: 13, offset: 88077},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2872, col: 10, offset: 90900},
+																							pos: position{line: 2876, col: 10, offset: 91003},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2872, col: 10, offset: 90900},
+																								pos:        position{line: 2876, col: 10, offset: 91003},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -46138,23 +46202,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1298, col: 5, offset: 40506},
+													pos:   position{line: 1302, col: 5, offset: 40609},
 													label: "term3",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1298, col: 11, offset: 40512},
+														pos: position{line: 1302, col: 11, offset: 40615},
 														expr: &actionExpr{
-															pos: position{line: 1298, col: 12, offset: 40513},
+															pos: position{line: 1302, col: 12, offset: 40616},
 															run: (*parser).callonInlineMacro59,
 															expr: &seqExpr{
-																pos: position{line: 1298, col: 12, offset: 40513},
+																pos: position{line: 1302, col: 12, offset: 40616},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1298, col: 12, offset: 40513},
+																		pos: position{line: 1302, col: 12, offset: 40616},
 																		expr: &actionExpr{
-																			pos: position{line: 2872, col: 10, offset: 90900},
+																			pos: position{line: 2876, col: 10, offset: 91003},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2872, col: 10, offset: 90900},
+																				pos:        position{line: 2876, col: 10, offset: 91003},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46163,18 +46227,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1298, col: 19, offset: 40520},
+																		pos:        position{line: 1302, col: 19, offset: 40623},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1298, col: 23, offset: 40524},
+																		pos: position{line: 1302, col: 23, offset: 40627},
 																		expr: &actionExpr{
-																			pos: position{line: 2872, col: 10, offset: 90900},
+																			pos: position{line: 2876, col: 10, offset: 91003},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2872, col: 10, offset: 90900},
+																				pos:        position{line: 2876, col: 10, offset: 91003},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46183,28 +46247,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1298, col: 30, offset: 40531},
+																		pos:   position{line: 1302, col: 30, offset: 40634},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1303, col: 30, offset: 40706},
+																			pos: position{line: 1307, col: 30, offset: 40809},
 																			run: (*parser).callonInlineMacro69,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1303, col: 30, offset: 40706},
+																				pos: position{line: 1307, col: 30, offset: 40809},
 																				expr: &choiceExpr{
-																					pos: position{line: 1303, col: 31, offset: 40707},
+																					pos: position{line: 1307, col: 31, offset: 40810},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2762, col: 13, offset: 87974},
+																							pos:        position{line: 2766, col: 13, offset: 88077},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2872, col: 10, offset: 90900},
+																							pos: position{line: 2876, col: 10, offset: 91003},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2872, col: 10, offset: 90900},
+																								pos:        position{line: 2876, col: 10, offset: 91003},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -46222,7 +46286,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1299, col: 5, offset: 40598},
+													pos:        position{line: 1303, col: 5, offset: 40701},
 													val:        ")))",
 													ignoreCase: false,
 													want:       "\")))\"",
@@ -46231,15 +46295,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2429, col: 11, offset: 78479},
+										pos:  position{line: 2433, col: 11, offset: 78582},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2430, col: 11, offset: 78499},
+										pos:  position{line: 2434, col: 11, offset: 78602},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2431, col: 11, offset: 78522},
+										pos:  position{line: 2435, col: 11, offset: 78625},
 										name: "InlineMenu",
 									},
 								},
@@ -46251,80 +46315,80 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2435, col: 1, offset: 78579},
+			pos:  position{line: 2439, col: 1, offset: 78682},
 			expr: &actionExpr{
-				pos: position{line: 2437, col: 5, offset: 78667},
+				pos: position{line: 2441, col: 5, offset: 78770},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2437, col: 5, offset: 78667},
+					pos: position{line: 2441, col: 5, offset: 78770},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2437, col: 5, offset: 78667},
+							pos: position{line: 2441, col: 5, offset: 78770},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2440, col: 5, offset: 78744},
+							pos:   position{line: 2444, col: 5, offset: 78847},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2441, col: 9, offset: 78762},
+								pos: position{line: 2445, col: 9, offset: 78865},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1378, col: 26, offset: 44044},
+										pos: position{line: 1382, col: 26, offset: 44147},
 										run: (*parser).callonInlinePassthrough6,
 										expr: &seqExpr{
-											pos: position{line: 1378, col: 26, offset: 44044},
+											pos: position{line: 1382, col: 26, offset: 44147},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1376, col: 32, offset: 44012},
+													pos:        position{line: 1380, col: 32, offset: 44115},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1378, col: 54, offset: 44072},
+													pos:   position{line: 1382, col: 54, offset: 44175},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1382, col: 33, offset: 44285},
+														pos: position{line: 1386, col: 33, offset: 44388},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1382, col: 34, offset: 44286},
+																pos: position{line: 1386, col: 34, offset: 44389},
 																run: (*parser).callonInlinePassthrough11,
 																expr: &zeroOrMoreExpr{
-																	pos: position{line: 1382, col: 34, offset: 44286},
+																	pos: position{line: 1386, col: 34, offset: 44389},
 																	expr: &seqExpr{
-																		pos: position{line: 1382, col: 35, offset: 44287},
+																		pos: position{line: 1386, col: 35, offset: 44390},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1382, col: 35, offset: 44287},
+																				pos: position{line: 1386, col: 35, offset: 44390},
 																				expr: &litMatcher{
-																					pos:        position{line: 1376, col: 32, offset: 44012},
+																					pos:        position{line: 1380, col: 32, offset: 44115},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1382, col: 64, offset: 44316,
+																				line: 1386, col: 64, offset: 44419,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1384, col: 11, offset: 44489},
+																pos: position{line: 1388, col: 11, offset: 44592},
 																run: (*parser).callonInlinePassthrough17,
 																expr: &zeroOrOneExpr{
-																	pos: position{line: 1384, col: 11, offset: 44489},
+																	pos: position{line: 1388, col: 11, offset: 44592},
 																	expr: &seqExpr{
-																		pos: position{line: 1384, col: 12, offset: 44490},
+																		pos: position{line: 1388, col: 12, offset: 44593},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1384, col: 12, offset: 44490},
+																				pos: position{line: 1388, col: 12, offset: 44593},
 																				expr: &actionExpr{
-																					pos: position{line: 2872, col: 10, offset: 90900},
+																					pos: position{line: 2876, col: 10, offset: 91003},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2872, col: 10, offset: 90900},
+																						pos:        position{line: 2876, col: 10, offset: 91003},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -46333,27 +46397,27 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1384, col: 19, offset: 44497},
+																				pos: position{line: 1388, col: 19, offset: 44600},
 																				expr: &actionExpr{
-																					pos: position{line: 2881, col: 12, offset: 91071},
+																					pos: position{line: 2885, col: 12, offset: 91174},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2881, col: 13, offset: 91072},
+																						pos: position{line: 2885, col: 13, offset: 91175},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2881, col: 13, offset: 91072},
+																								pos:        position{line: 2885, col: 13, offset: 91175},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2881, col: 20, offset: 91079},
+																								pos:        position{line: 2885, col: 20, offset: 91182},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2881, col: 29, offset: 91088},
+																								pos:        position{line: 2885, col: 29, offset: 91191},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -46363,16 +46427,16 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1384, col: 28, offset: 44506},
+																				pos: position{line: 1388, col: 28, offset: 44609},
 																				expr: &litMatcher{
-																					pos:        position{line: 1376, col: 32, offset: 44012},
+																					pos:        position{line: 1380, col: 32, offset: 44115},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1384, col: 57, offset: 44535,
+																				line: 1388, col: 57, offset: 44638,
 																			},
 																		},
 																	},
@@ -46382,15 +46446,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1376, col: 32, offset: 44012},
+													pos:        position{line: 1380, col: 32, offset: 44115},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&notExpr{
-													pos: position{line: 1378, col: 121, offset: 44139},
+													pos: position{line: 1382, col: 121, offset: 44242},
 													expr: &charClassMatcher{
-														pos:        position{line: 2762, col: 13, offset: 87974},
+														pos:        position{line: 2766, col: 13, offset: 88077},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -46401,45 +46465,45 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1366, col: 26, offset: 43327},
+										pos: position{line: 1370, col: 26, offset: 43430},
 										run: (*parser).callonInlinePassthrough35,
 										expr: &seqExpr{
-											pos: position{line: 1366, col: 26, offset: 43327},
+											pos: position{line: 1370, col: 26, offset: 43430},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1364, col: 32, offset: 43297},
+													pos:        position{line: 1368, col: 32, offset: 43400},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1366, col: 54, offset: 43355},
+													pos:   position{line: 1370, col: 54, offset: 43458},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1370, col: 33, offset: 43568},
+														pos: position{line: 1374, col: 33, offset: 43671},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1370, col: 34, offset: 43569},
+																pos: position{line: 1374, col: 34, offset: 43672},
 																run: (*parser).callonInlinePassthrough40,
 																expr: &seqExpr{
-																	pos: position{line: 1370, col: 34, offset: 43569},
+																	pos: position{line: 1374, col: 34, offset: 43672},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1370, col: 35, offset: 43570},
+																			pos: position{line: 1374, col: 35, offset: 43673},
 																			expr: &litMatcher{
-																				pos:        position{line: 1364, col: 32, offset: 43297},
+																				pos:        position{line: 1368, col: 32, offset: 43400},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1370, col: 64, offset: 43599},
+																			pos: position{line: 1374, col: 64, offset: 43702},
 																			expr: &actionExpr{
-																				pos: position{line: 2872, col: 10, offset: 90900},
+																				pos: position{line: 2876, col: 10, offset: 91003},
 																				run: (*parser).callonInlinePassthrough45,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2872, col: 10, offset: 90900},
+																					pos:        position{line: 2876, col: 10, offset: 91003},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -46448,27 +46512,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1370, col: 71, offset: 43606},
+																			pos: position{line: 1374, col: 71, offset: 43709},
 																			expr: &actionExpr{
-																				pos: position{line: 2881, col: 12, offset: 91071},
+																				pos: position{line: 2885, col: 12, offset: 91174},
 																				run: (*parser).callonInlinePassthrough48,
 																				expr: &choiceExpr{
-																					pos: position{line: 2881, col: 13, offset: 91072},
+																					pos: position{line: 2885, col: 13, offset: 91175},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 13, offset: 91072},
+																							pos:        position{line: 2885, col: 13, offset: 91175},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 20, offset: 91079},
+																							pos:        position{line: 2885, col: 20, offset: 91182},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 29, offset: 91088},
+																							pos:        position{line: 2885, col: 29, offset: 91191},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -46478,25 +46542,25 @@ var g = &grammar{
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1370, col: 80, offset: 43615,
+																			line: 1374, col: 80, offset: 43718,
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1370, col: 83, offset: 43618},
+																			pos: position{line: 1374, col: 83, offset: 43721},
 																			expr: &seqExpr{
-																				pos: position{line: 1370, col: 84, offset: 43619},
+																				pos: position{line: 1374, col: 84, offset: 43722},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1370, col: 84, offset: 43619},
+																						pos: position{line: 1374, col: 84, offset: 43722},
 																						expr: &seqExpr{
-																							pos: position{line: 1370, col: 86, offset: 43621},
+																							pos: position{line: 1374, col: 86, offset: 43724},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2876, col: 11, offset: 90961},
+																									pos: position{line: 2880, col: 11, offset: 91064},
 																									run: (*parser).callonInlinePassthrough58,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2876, col: 11, offset: 90961},
+																										pos: position{line: 2880, col: 11, offset: 91064},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2876, col: 11, offset: 90961},
+																											pos:        position{line: 2880, col: 11, offset: 91064},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -46505,7 +46569,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1364, col: 32, offset: 43297},
+																									pos:        position{line: 1368, col: 32, offset: 43400},
 																									val:        "+",
 																									ignoreCase: false,
 																									want:       "\"+\"",
@@ -46514,36 +46578,36 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1370, col: 122, offset: 43657},
+																						pos: position{line: 1374, col: 122, offset: 43760},
 																						expr: &litMatcher{
-																							pos:        position{line: 1364, col: 32, offset: 43297},
+																							pos:        position{line: 1368, col: 32, offset: 43400},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1370, col: 151, offset: 43686},
+																						pos: position{line: 1374, col: 151, offset: 43789},
 																						expr: &actionExpr{
-																							pos: position{line: 2881, col: 12, offset: 91071},
+																							pos: position{line: 2885, col: 12, offset: 91174},
 																							run: (*parser).callonInlinePassthrough65,
 																							expr: &choiceExpr{
-																								pos: position{line: 2881, col: 13, offset: 91072},
+																								pos: position{line: 2885, col: 13, offset: 91175},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2881, col: 13, offset: 91072},
+																										pos:        position{line: 2885, col: 13, offset: 91175},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2881, col: 20, offset: 91079},
+																										pos:        position{line: 2885, col: 20, offset: 91182},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2881, col: 29, offset: 91088},
+																										pos:        position{line: 2885, col: 29, offset: 91191},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -46553,7 +46617,7 @@ var g = &grammar{
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1370, col: 160, offset: 43695,
+																						line: 1374, col: 160, offset: 43798,
 																					},
 																				},
 																			},
@@ -46562,18 +46626,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1372, col: 11, offset: 43845},
+																pos: position{line: 1376, col: 11, offset: 43948},
 																run: (*parser).callonInlinePassthrough71,
 																expr: &seqExpr{
-																	pos: position{line: 1372, col: 12, offset: 43846},
+																	pos: position{line: 1376, col: 12, offset: 43949},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1372, col: 12, offset: 43846},
+																			pos: position{line: 1376, col: 12, offset: 43949},
 																			expr: &actionExpr{
-																				pos: position{line: 2872, col: 10, offset: 90900},
+																				pos: position{line: 2876, col: 10, offset: 91003},
 																				run: (*parser).callonInlinePassthrough74,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2872, col: 10, offset: 90900},
+																					pos:        position{line: 2876, col: 10, offset: 91003},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -46582,27 +46646,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1372, col: 19, offset: 43853},
+																			pos: position{line: 1376, col: 19, offset: 43956},
 																			expr: &actionExpr{
-																				pos: position{line: 2881, col: 12, offset: 91071},
+																				pos: position{line: 2885, col: 12, offset: 91174},
 																				run: (*parser).callonInlinePassthrough77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2881, col: 13, offset: 91072},
+																					pos: position{line: 2885, col: 13, offset: 91175},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 13, offset: 91072},
+																							pos:        position{line: 2885, col: 13, offset: 91175},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 20, offset: 91079},
+																							pos:        position{line: 2885, col: 20, offset: 91182},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2881, col: 29, offset: 91088},
+																							pos:        position{line: 2885, col: 29, offset: 91191},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -46612,16 +46676,16 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1372, col: 28, offset: 43862},
+																			pos: position{line: 1376, col: 28, offset: 43965},
 																			expr: &litMatcher{
-																				pos:        position{line: 1364, col: 32, offset: 43297},
+																				pos:        position{line: 1368, col: 32, offset: 43400},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1372, col: 57, offset: 43891,
+																			line: 1376, col: 57, offset: 43994,
 																		},
 																	},
 																},
@@ -46630,15 +46694,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1364, col: 32, offset: 43297},
+													pos:        position{line: 1368, col: 32, offset: 43400},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&notExpr{
-													pos: position{line: 1366, col: 121, offset: 43422},
+													pos: position{line: 1370, col: 121, offset: 43525},
 													expr: &charClassMatcher{
-														pos:        position{line: 2762, col: 13, offset: 87974},
+														pos:        position{line: 2766, col: 13, offset: 88077},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -46649,7 +46713,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2441, col: 57, offset: 78810},
+										pos:  position{line: 2445, col: 57, offset: 78913},
 										name: "PassthroughMacro",
 									},
 								},
@@ -46661,16 +46725,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2446, col: 1, offset: 78870},
+			pos:  position{line: 2450, col: 1, offset: 78973},
 			expr: &seqExpr{
-				pos: position{line: 2448, col: 5, offset: 78946},
+				pos: position{line: 2452, col: 5, offset: 79049},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2448, col: 5, offset: 78946},
+						pos: position{line: 2452, col: 5, offset: 79049},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2451, col: 5, offset: 79011},
+						pos:  position{line: 2455, col: 5, offset: 79114},
 						name: "QuotedText",
 					},
 				},
@@ -46678,22 +46742,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2453, col: 1, offset: 79024},
+			pos:  position{line: 2457, col: 1, offset: 79127},
 			expr: &actionExpr{
-				pos: position{line: 2455, col: 5, offset: 79106},
+				pos: position{line: 2459, col: 5, offset: 79209},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2455, col: 5, offset: 79106},
+					pos: position{line: 2459, col: 5, offset: 79209},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2455, col: 5, offset: 79106},
+							pos: position{line: 2459, col: 5, offset: 79209},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2458, col: 5, offset: 79177},
+							pos:   position{line: 2462, col: 5, offset: 79280},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2459, col: 9, offset: 79195},
+								pos:  position{line: 2463, col: 9, offset: 79298},
 								name: "Symbol",
 							},
 						},
@@ -46703,93 +46767,93 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2517, col: 1, offset: 81025},
+			pos:  position{line: 2521, col: 1, offset: 81128},
 			expr: &choiceExpr{
-				pos: position{line: 2519, col: 5, offset: 81055},
+				pos: position{line: 2523, col: 5, offset: 81158},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2519, col: 5, offset: 81055},
+						pos: position{line: 2523, col: 5, offset: 81158},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2519, col: 5, offset: 81055},
+							pos: position{line: 2523, col: 5, offset: 81158},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2519, col: 5, offset: 81055},
+									pos:        position{line: 2523, col: 5, offset: 81158},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2519, col: 10, offset: 81060},
+									pos: position{line: 2523, col: 10, offset: 81163},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2519, col: 10, offset: 81060},
+											pos:  position{line: 2523, col: 10, offset: 81163},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2548, col: 14, offset: 82194},
+											pos: position{line: 2552, col: 14, offset: 82297},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2548, col: 14, offset: 82194},
+												pos:        position{line: 2552, col: 14, offset: 82297},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2552, col: 14, offset: 82260},
+											pos: position{line: 2556, col: 14, offset: 82363},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2552, col: 14, offset: 82260},
+												pos:        position{line: 2556, col: 14, offset: 82363},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2556, col: 15, offset: 82329},
+											pos: position{line: 2560, col: 15, offset: 82432},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2556, col: 15, offset: 82329},
+												pos:        position{line: 2560, col: 15, offset: 82432},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2560, col: 13, offset: 82394},
+											pos: position{line: 2564, col: 13, offset: 82497},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2560, col: 13, offset: 82394},
+												pos:        position{line: 2564, col: 13, offset: 82497},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2567, col: 5, offset: 82532},
+											pos: position{line: 2571, col: 5, offset: 82635},
 											run: (*parser).callonSymbol15,
 											expr: &seqExpr{
-												pos: position{line: 2567, col: 5, offset: 82532},
+												pos: position{line: 2571, col: 5, offset: 82635},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2567, col: 5, offset: 82532},
+														pos:        position{line: 2571, col: 5, offset: 82635},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2568, col: 5, offset: 82542},
+														pos: position{line: 2572, col: 5, offset: 82645},
 														run: (*parser).callonSymbol18,
 													},
 													&choiceExpr{
-														pos: position{line: 2572, col: 6, offset: 82629},
+														pos: position{line: 2576, col: 6, offset: 82732},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2872, col: 10, offset: 90900},
+																pos: position{line: 2876, col: 10, offset: 91003},
 																run: (*parser).callonSymbol20,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2872, col: 10, offset: 90900},
+																	pos:        position{line: 2876, col: 10, offset: 91003},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -46797,30 +46861,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2572, col: 14, offset: 82637},
+																pos: position{line: 2576, col: 14, offset: 82740},
 																expr: &choiceExpr{
-																	pos: position{line: 2894, col: 8, offset: 91298},
+																	pos: position{line: 2898, col: 8, offset: 91401},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2881, col: 12, offset: 91071},
+																			pos: position{line: 2885, col: 12, offset: 91174},
 																			run: (*parser).callonSymbol24,
 																			expr: &choiceExpr{
-																				pos: position{line: 2881, col: 13, offset: 91072},
+																				pos: position{line: 2885, col: 13, offset: 91175},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 13, offset: 91072},
+																						pos:        position{line: 2885, col: 13, offset: 91175},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 20, offset: 91079},
+																						pos:        position{line: 2885, col: 20, offset: 91182},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2881, col: 29, offset: 91088},
+																						pos:        position{line: 2885, col: 29, offset: 91191},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -46829,9 +46893,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2891, col: 8, offset: 91248},
+																			pos: position{line: 2895, col: 8, offset: 91351},
 																			expr: &anyMatcher{
-																				line: 2891, col: 9, offset: 91249,
+																				line: 2895, col: 9, offset: 91352,
 																			},
 																		},
 																	},
@@ -46843,53 +46907,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2577, col: 5, offset: 82757},
+											pos: position{line: 2581, col: 5, offset: 82860},
 											run: (*parser).callonSymbol31,
 											expr: &seqExpr{
-												pos: position{line: 2577, col: 5, offset: 82757},
+												pos: position{line: 2581, col: 5, offset: 82860},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2577, col: 5, offset: 82757},
+														pos:        position{line: 2581, col: 5, offset: 82860},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2578, col: 5, offset: 82767},
+														pos: position{line: 2582, col: 5, offset: 82870},
 														run: (*parser).callonSymbol34,
 													},
 													&andExpr{
-														pos: position{line: 2582, col: 5, offset: 82856},
+														pos: position{line: 2586, col: 5, offset: 82959},
 														expr: &choiceExpr{
-															pos: position{line: 2582, col: 7, offset: 82858},
+															pos: position{line: 2586, col: 7, offset: 82961},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2762, col: 13, offset: 87974},
+																	pos:        position{line: 2766, col: 13, offset: 88077},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2881, col: 12, offset: 91071},
+																	pos: position{line: 2885, col: 12, offset: 91174},
 																	run: (*parser).callonSymbol38,
 																	expr: &choiceExpr{
-																		pos: position{line: 2881, col: 13, offset: 91072},
+																		pos: position{line: 2885, col: 13, offset: 91175},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2881, col: 13, offset: 91072},
+																				pos:        position{line: 2885, col: 13, offset: 91175},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2881, col: 20, offset: 91079},
+																				pos:        position{line: 2885, col: 20, offset: 91182},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2881, col: 29, offset: 91088},
+																				pos:        position{line: 2885, col: 29, offset: 91191},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -46898,9 +46962,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2891, col: 8, offset: 91248},
+																	pos: position{line: 2895, col: 8, offset: 91351},
 																	expr: &anyMatcher{
-																		line: 2891, col: 9, offset: 91249,
+																		line: 2895, col: 9, offset: 91352,
 																	},
 																},
 															},
@@ -46915,63 +46979,63 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2522, col: 7, offset: 81224},
+						pos: position{line: 2526, col: 7, offset: 81327},
 						run: (*parser).callonSymbol45,
 						expr: &seqExpr{
-							pos: position{line: 2522, col: 7, offset: 81224},
+							pos: position{line: 2526, col: 7, offset: 81327},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2522, col: 7, offset: 81224},
+									pos:        position{line: 2526, col: 7, offset: 81327},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2522, col: 11, offset: 81228},
+									pos:   position{line: 2526, col: 11, offset: 81331},
 									label: "elements",
 									expr: &choiceExpr{
-										pos: position{line: 2522, col: 21, offset: 81238},
+										pos: position{line: 2526, col: 21, offset: 81341},
 										alternatives: []interface{}{
 											&seqExpr{
-												pos: position{line: 2522, col: 21, offset: 81238},
+												pos: position{line: 2526, col: 21, offset: 81341},
 												exprs: []interface{}{
 													&charClassMatcher{
-														pos:        position{line: 2522, col: 21, offset: 81238},
+														pos:        position{line: 2526, col: 21, offset: 81341},
 														val:        "[-=]",
 														chars:      []rune{'-', '='},
 														ignoreCase: false,
 														inverted:   false,
 													},
 													&andExpr{
-														pos: position{line: 2522, col: 26, offset: 81243},
+														pos: position{line: 2526, col: 26, offset: 81346},
 														expr: &litMatcher{
-															pos:        position{line: 2522, col: 27, offset: 81244},
+															pos:        position{line: 2526, col: 27, offset: 81347},
 															val:        ">",
 															ignoreCase: false,
 															want:       "\">\"",
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2522, col: 32, offset: 81249},
+														pos: position{line: 2526, col: 32, offset: 81352},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2466, col: 5, offset: 79332},
+																pos: position{line: 2470, col: 5, offset: 79435},
 																run: (*parser).callonSymbol55,
 																expr: &seqExpr{
-																	pos: position{line: 2466, col: 5, offset: 79332},
+																	pos: position{line: 2470, col: 5, offset: 79435},
 																	exprs: []interface{}{
 																		&andCodeExpr{
-																			pos: position{line: 2466, col: 5, offset: 79332},
+																			pos: position{line: 2470, col: 5, offset: 79435},
 																			run: (*parser).callonSymbol57,
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 2469, col: 5, offset: 79408},
+																			pos:   position{line: 2473, col: 5, offset: 79511},
 																			label: "element",
 																			expr: &actionExpr{
-																				pos: position{line: 2470, col: 9, offset: 79426},
+																				pos: position{line: 2474, col: 9, offset: 79529},
 																				run: (*parser).callonSymbol59,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2470, col: 10, offset: 79427},
+																					pos:        position{line: 2474, col: 10, offset: 79530},
 																					val:        "[<>&]",
 																					chars:      []rune{'<', '>', '&'},
 																					ignoreCase: false,
@@ -46983,28 +47047,28 @@ var g = &grammar{
 																},
 															},
 															&anyMatcher{
-																line: 2522, col: 51, offset: 81268,
+																line: 2526, col: 51, offset: 81371,
 															},
 														},
 													},
 												},
 											},
 											&seqExpr{
-												pos: position{line: 2522, col: 56, offset: 81273},
+												pos: position{line: 2526, col: 56, offset: 81376},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2522, col: 56, offset: 81273},
+														pos: position{line: 2526, col: 56, offset: 81376},
 														expr: &choiceExpr{
-															pos: position{line: 2522, col: 58, offset: 81275},
+															pos: position{line: 2526, col: 58, offset: 81378},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2522, col: 58, offset: 81275},
+																	pos:        position{line: 2526, col: 58, offset: 81378},
 																	val:        "<-",
 																	ignoreCase: false,
 																	want:       "\"<-\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2522, col: 65, offset: 81282},
+																	pos:        position{line: 2526, col: 65, offset: 81385},
 																	val:        "<=",
 																	ignoreCase: false,
 																	want:       "\"<=\"",
@@ -47013,26 +47077,26 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2522, col: 72, offset: 81289},
+														pos: position{line: 2526, col: 72, offset: 81392},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2466, col: 5, offset: 79332},
+																pos: position{line: 2470, col: 5, offset: 79435},
 																run: (*parser).callonSymbol68,
 																expr: &seqExpr{
-																	pos: position{line: 2466, col: 5, offset: 79332},
+																	pos: position{line: 2470, col: 5, offset: 79435},
 																	exprs: []interface{}{
 																		&andCodeExpr{
-																			pos: position{line: 2466, col: 5, offset: 79332},
+																			pos: position{line: 2470, col: 5, offset: 79435},
 																			run: (*parser).callonSymbol70,
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 2469, col: 5, offset: 79408},
+																			pos:   position{line: 2473, col: 5, offset: 79511},
 																			label: "element",
 																			expr: &actionExpr{
-																				pos: position{line: 2470, col: 9, offset: 79426},
+																				pos: position{line: 2474, col: 9, offset: 79529},
 																				run: (*parser).callonSymbol72,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2470, col: 10, offset: 79427},
+																					pos:        position{line: 2474, col: 10, offset: 79530},
 																					val:        "[<>&]",
 																					chars:      []rune{'<', '>', '&'},
 																					ignoreCase: false,
@@ -47044,12 +47108,12 @@ var g = &grammar{
 																},
 															},
 															&anyMatcher{
-																line: 2522, col: 91, offset: 81308,
+																line: 2526, col: 91, offset: 81411,
 															},
 														},
 													},
 													&anyMatcher{
-														line: 2522, col: 94, offset: 81311,
+														line: 2526, col: 94, offset: 81414,
 													},
 												},
 											},
@@ -47060,73 +47124,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2523, col: 7, offset: 81345},
+						pos:  position{line: 2527, col: 7, offset: 81448},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2548, col: 14, offset: 82194},
+						pos: position{line: 2552, col: 14, offset: 82297},
 						run: (*parser).callonSymbol77,
 						expr: &litMatcher{
-							pos:        position{line: 2548, col: 14, offset: 82194},
+							pos:        position{line: 2552, col: 14, offset: 82297},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2552, col: 14, offset: 82260},
+						pos: position{line: 2556, col: 14, offset: 82363},
 						run: (*parser).callonSymbol79,
 						expr: &litMatcher{
-							pos:        position{line: 2552, col: 14, offset: 82260},
+							pos:        position{line: 2556, col: 14, offset: 82363},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2556, col: 15, offset: 82329},
+						pos: position{line: 2560, col: 15, offset: 82432},
 						run: (*parser).callonSymbol81,
 						expr: &litMatcher{
-							pos:        position{line: 2556, col: 15, offset: 82329},
+							pos:        position{line: 2560, col: 15, offset: 82432},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2560, col: 13, offset: 82394},
+						pos: position{line: 2564, col: 13, offset: 82497},
 						run: (*parser).callonSymbol83,
 						expr: &litMatcher{
-							pos:        position{line: 2560, col: 13, offset: 82394},
+							pos:        position{line: 2564, col: 13, offset: 82497},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2567, col: 5, offset: 82532},
+						pos: position{line: 2571, col: 5, offset: 82635},
 						run: (*parser).callonSymbol85,
 						expr: &seqExpr{
-							pos: position{line: 2567, col: 5, offset: 82532},
+							pos: position{line: 2571, col: 5, offset: 82635},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2567, col: 5, offset: 82532},
+									pos:        position{line: 2571, col: 5, offset: 82635},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2568, col: 5, offset: 82542},
+									pos: position{line: 2572, col: 5, offset: 82645},
 									run: (*parser).callonSymbol88,
 								},
 								&choiceExpr{
-									pos: position{line: 2572, col: 6, offset: 82629},
+									pos: position{line: 2576, col: 6, offset: 82732},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2872, col: 10, offset: 90900},
+											pos: position{line: 2876, col: 10, offset: 91003},
 											run: (*parser).callonSymbol90,
 											expr: &charClassMatcher{
-												pos:        position{line: 2872, col: 10, offset: 90900},
+												pos:        position{line: 2876, col: 10, offset: 91003},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -47134,30 +47198,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2572, col: 14, offset: 82637},
+											pos: position{line: 2576, col: 14, offset: 82740},
 											expr: &choiceExpr{
-												pos: position{line: 2894, col: 8, offset: 91298},
+												pos: position{line: 2898, col: 8, offset: 91401},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2881, col: 12, offset: 91071},
+														pos: position{line: 2885, col: 12, offset: 91174},
 														run: (*parser).callonSymbol94,
 														expr: &choiceExpr{
-															pos: position{line: 2881, col: 13, offset: 91072},
+															pos: position{line: 2885, col: 13, offset: 91175},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2881, col: 13, offset: 91072},
+																	pos:        position{line: 2885, col: 13, offset: 91175},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2881, col: 20, offset: 91079},
+																	pos:        position{line: 2885, col: 20, offset: 91182},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2881, col: 29, offset: 91088},
+																	pos:        position{line: 2885, col: 29, offset: 91191},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -47166,9 +47230,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2891, col: 8, offset: 91248},
+														pos: position{line: 2895, col: 8, offset: 91351},
 														expr: &anyMatcher{
-															line: 2891, col: 9, offset: 91249,
+															line: 2895, col: 9, offset: 91352,
 														},
 													},
 												},
@@ -47180,53 +47244,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2577, col: 5, offset: 82757},
+						pos: position{line: 2581, col: 5, offset: 82860},
 						run: (*parser).callonSymbol101,
 						expr: &seqExpr{
-							pos: position{line: 2577, col: 5, offset: 82757},
+							pos: position{line: 2581, col: 5, offset: 82860},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2577, col: 5, offset: 82757},
+									pos:        position{line: 2581, col: 5, offset: 82860},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2578, col: 5, offset: 82767},
+									pos: position{line: 2582, col: 5, offset: 82870},
 									run: (*parser).callonSymbol104,
 								},
 								&andExpr{
-									pos: position{line: 2582, col: 5, offset: 82856},
+									pos: position{line: 2586, col: 5, offset: 82959},
 									expr: &choiceExpr{
-										pos: position{line: 2582, col: 7, offset: 82858},
+										pos: position{line: 2586, col: 7, offset: 82961},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2762, col: 13, offset: 87974},
+												pos:        position{line: 2766, col: 13, offset: 88077},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2881, col: 12, offset: 91071},
+												pos: position{line: 2885, col: 12, offset: 91174},
 												run: (*parser).callonSymbol108,
 												expr: &choiceExpr{
-													pos: position{line: 2881, col: 13, offset: 91072},
+													pos: position{line: 2885, col: 13, offset: 91175},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2881, col: 13, offset: 91072},
+															pos:        position{line: 2885, col: 13, offset: 91175},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2881, col: 20, offset: 91079},
+															pos:        position{line: 2885, col: 20, offset: 91182},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2881, col: 29, offset: 91088},
+															pos:        position{line: 2885, col: 29, offset: 91191},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -47235,9 +47299,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2891, col: 8, offset: 91248},
+												pos: position{line: 2895, col: 8, offset: 91351},
 												expr: &anyMatcher{
-													line: 2891, col: 9, offset: 91249,
+													line: 2895, col: 9, offset: 91352,
 												},
 											},
 										},
@@ -47247,40 +47311,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2588, col: 21, offset: 82946},
+						pos: position{line: 2592, col: 21, offset: 83049},
 						run: (*parser).callonSymbol115,
 						expr: &litMatcher{
-							pos:        position{line: 2588, col: 21, offset: 82946},
+							pos:        position{line: 2592, col: 21, offset: 83049},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2592, col: 20, offset: 83016},
+						pos: position{line: 2596, col: 20, offset: 83119},
 						run: (*parser).callonSymbol117,
 						expr: &litMatcher{
-							pos:        position{line: 2592, col: 20, offset: 83016},
+							pos:        position{line: 2596, col: 20, offset: 83119},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2596, col: 21, offset: 83087},
+						pos: position{line: 2600, col: 21, offset: 83190},
 						run: (*parser).callonSymbol119,
 						expr: &litMatcher{
-							pos:        position{line: 2596, col: 21, offset: 83087},
+							pos:        position{line: 2600, col: 21, offset: 83190},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2600, col: 20, offset: 83157},
+						pos: position{line: 2604, col: 20, offset: 83260},
 						run: (*parser).callonSymbol121,
 						expr: &litMatcher{
-							pos:        position{line: 2600, col: 20, offset: 83157},
+							pos:        position{line: 2604, col: 20, offset: 83260},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -47291,43 +47355,43 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2534, col: 1, offset: 81535},
+			pos:  position{line: 2538, col: 1, offset: 81638},
 			expr: &choiceExpr{
-				pos: position{line: 2535, col: 5, offset: 81557},
+				pos: position{line: 2539, col: 5, offset: 81660},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2535, col: 5, offset: 81557},
+						pos: position{line: 2539, col: 5, offset: 81660},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2535, col: 5, offset: 81557},
+							pos: position{line: 2539, col: 5, offset: 81660},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2535, col: 5, offset: 81557},
+									pos:        position{line: 2539, col: 5, offset: 81660},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2535, col: 11, offset: 81563},
+									pos: position{line: 2539, col: 11, offset: 81666},
 									expr: &seqExpr{
-										pos: position{line: 2085, col: 5, offset: 67469},
+										pos: position{line: 2089, col: 5, offset: 67572},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2085, col: 5, offset: 67469},
+												pos:        position{line: 2089, col: 5, offset: 67572},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2086, col: 5, offset: 67478},
+												pos: position{line: 2090, col: 5, offset: 67581},
 												run: (*parser).callonQuotationMark8,
 											},
 											&andExpr{
-												pos: position{line: 2090, col: 5, offset: 67601},
+												pos: position{line: 2094, col: 5, offset: 67704},
 												expr: &notExpr{
-													pos: position{line: 2090, col: 7, offset: 67603},
+													pos: position{line: 2094, col: 7, offset: 67706},
 													expr: &litMatcher{
-														pos:        position{line: 2090, col: 8, offset: 67604},
+														pos:        position{line: 2094, col: 8, offset: 67707},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -47341,21 +47405,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2538, col: 7, offset: 81716},
+						pos: position{line: 2542, col: 7, offset: 81819},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2538, col: 7, offset: 81716},
+							pos: position{line: 2542, col: 7, offset: 81819},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2538, col: 7, offset: 81716},
+									pos:        position{line: 2542, col: 7, offset: 81819},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2538, col: 13, offset: 81722},
+									pos: position{line: 2542, col: 13, offset: 81825},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2538, col: 14, offset: 81723},
+										pos:  position{line: 2542, col: 14, offset: 81826},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -47363,38 +47427,38 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2541, col: 7, offset: 81873},
+						pos: position{line: 2545, col: 7, offset: 81976},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2541, col: 7, offset: 81873},
+							pos: position{line: 2545, col: 7, offset: 81976},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2541, col: 7, offset: 81873},
+									pos:        position{line: 2545, col: 7, offset: 81976},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2541, col: 12, offset: 81878},
+									pos: position{line: 2545, col: 12, offset: 81981},
 									expr: &seqExpr{
-										pos: position{line: 2085, col: 5, offset: 67469},
+										pos: position{line: 2089, col: 5, offset: 67572},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2085, col: 5, offset: 67469},
+												pos:        position{line: 2089, col: 5, offset: 67572},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2086, col: 5, offset: 67478},
+												pos: position{line: 2090, col: 5, offset: 67581},
 												run: (*parser).callonQuotationMark23,
 											},
 											&andExpr{
-												pos: position{line: 2090, col: 5, offset: 67601},
+												pos: position{line: 2094, col: 5, offset: 67704},
 												expr: &notExpr{
-													pos: position{line: 2090, col: 7, offset: 67603},
+													pos: position{line: 2094, col: 7, offset: 67706},
 													expr: &litMatcher{
-														pos:        position{line: 2090, col: 8, offset: 67604},
+														pos:        position{line: 2094, col: 8, offset: 67707},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -47408,21 +47472,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2544, col: 7, offset: 82031},
+						pos: position{line: 2548, col: 7, offset: 82134},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2544, col: 7, offset: 82031},
+							pos: position{line: 2548, col: 7, offset: 82134},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2544, col: 7, offset: 82031},
+									pos:        position{line: 2548, col: 7, offset: 82134},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2544, col: 12, offset: 82036},
+									pos: position{line: 2548, col: 12, offset: 82139},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2544, col: 13, offset: 82037},
+										pos:  position{line: 2548, col: 13, offset: 82140},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -47434,63 +47498,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2677, col: 1, offset: 85059},
+			pos:  position{line: 2681, col: 1, offset: 85162},
 			expr: &actionExpr{
-				pos: position{line: 2677, col: 26, offset: 85084},
+				pos: position{line: 2681, col: 26, offset: 85187},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2677, col: 26, offset: 85084},
+					pos: position{line: 2681, col: 26, offset: 85187},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2677, col: 26, offset: 85084},
+							pos:   position{line: 2681, col: 26, offset: 85187},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2677, col: 31, offset: 85089},
+								pos: position{line: 2681, col: 31, offset: 85192},
 								expr: &actionExpr{
-									pos: position{line: 2682, col: 5, offset: 85152},
+									pos: position{line: 2686, col: 5, offset: 85255},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2682, col: 5, offset: 85152},
+										pos: position{line: 2686, col: 5, offset: 85255},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2889, col: 11, offset: 91234},
+												pos: position{line: 2893, col: 11, offset: 91337},
 												expr: &anyMatcher{
-													line: 2889, col: 13, offset: 91236,
+													line: 2893, col: 13, offset: 91339,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2685, col: 5, offset: 85278},
+												pos:   position{line: 2689, col: 5, offset: 85381},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2685, col: 16, offset: 85289},
+													pos: position{line: 2689, col: 16, offset: 85392},
 													expr: &actionExpr{
-														pos: position{line: 2685, col: 17, offset: 85290},
+														pos: position{line: 2689, col: 17, offset: 85393},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2685, col: 17, offset: 85290},
+															pos: position{line: 2689, col: 17, offset: 85393},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2685, col: 17, offset: 85290},
+																	pos:   position{line: 2689, col: 17, offset: 85393},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2864, col: 12, offset: 90727},
+																		pos: position{line: 2868, col: 12, offset: 90830},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2864, col: 13, offset: 90728},
+																			pos: position{line: 2868, col: 13, offset: 90831},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2864, col: 13, offset: 90728},
+																					pos: position{line: 2868, col: 13, offset: 90831},
 																					expr: &litMatcher{
-																						pos:        position{line: 2864, col: 13, offset: 90728},
+																						pos:        position{line: 2868, col: 13, offset: 90831},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2864, col: 18, offset: 90733},
+																					pos: position{line: 2868, col: 18, offset: 90836},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2864, col: 18, offset: 90733},
+																						pos:        position{line: 2868, col: 18, offset: 90836},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -47502,7 +47566,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2685, col: 27, offset: 85300},
+																	pos:        position{line: 2689, col: 27, offset: 85403},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -47513,38 +47577,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2686, col: 5, offset: 85328},
+												pos:   position{line: 2690, col: 5, offset: 85431},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2686, col: 12, offset: 85335},
+													pos: position{line: 2690, col: 12, offset: 85438},
 													expr: &choiceExpr{
-														pos: position{line: 2687, col: 9, offset: 85345},
+														pos: position{line: 2691, col: 9, offset: 85448},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2687, col: 9, offset: 85345},
+																pos: position{line: 2691, col: 9, offset: 85448},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2687, col: 9, offset: 85345},
+																	pos:        position{line: 2691, col: 9, offset: 85448},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2688, col: 11, offset: 85392},
+																pos: position{line: 2692, col: 11, offset: 85495},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2688, col: 11, offset: 85392},
+																	pos:        position{line: 2692, col: 11, offset: 85495},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2689, col: 11, offset: 85440},
+																pos: position{line: 2693, col: 11, offset: 85543},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2689, col: 11, offset: 85440},
+																	pos:        position{line: 2693, col: 11, offset: 85543},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -47555,38 +47619,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2691, col: 5, offset: 85490},
+												pos:   position{line: 2695, col: 5, offset: 85593},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2691, col: 12, offset: 85497},
+													pos: position{line: 2695, col: 12, offset: 85600},
 													expr: &choiceExpr{
-														pos: position{line: 2692, col: 9, offset: 85507},
+														pos: position{line: 2696, col: 9, offset: 85610},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2692, col: 9, offset: 85507},
+																pos: position{line: 2696, col: 9, offset: 85610},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2692, col: 9, offset: 85507},
+																	pos:        position{line: 2696, col: 9, offset: 85610},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2693, col: 11, offset: 85554},
+																pos: position{line: 2697, col: 11, offset: 85657},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2693, col: 11, offset: 85554},
+																	pos:        position{line: 2697, col: 11, offset: 85657},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2694, col: 11, offset: 85604},
+																pos: position{line: 2698, col: 11, offset: 85707},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2694, col: 11, offset: 85604},
+																	pos:        position{line: 2698, col: 11, offset: 85707},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -47597,32 +47661,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2696, col: 5, offset: 85655},
+												pos:   position{line: 2700, col: 5, offset: 85758},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2696, col: 12, offset: 85662},
+													pos: position{line: 2700, col: 12, offset: 85765},
 													expr: &choiceExpr{
-														pos: position{line: 2696, col: 13, offset: 85663},
+														pos: position{line: 2700, col: 13, offset: 85766},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2864, col: 12, offset: 90727},
+																pos: position{line: 2868, col: 12, offset: 90830},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2864, col: 13, offset: 90728},
+																	pos: position{line: 2868, col: 13, offset: 90831},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2864, col: 13, offset: 90728},
+																			pos: position{line: 2868, col: 13, offset: 90831},
 																			expr: &litMatcher{
-																				pos:        position{line: 2864, col: 13, offset: 90728},
+																				pos:        position{line: 2868, col: 13, offset: 90831},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2864, col: 18, offset: 90733},
+																			pos: position{line: 2868, col: 18, offset: 90836},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2864, col: 18, offset: 90733},
+																				pos:        position{line: 2868, col: 18, offset: 90836},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -47633,10 +47697,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2696, col: 24, offset: 85674},
+																pos: position{line: 2700, col: 24, offset: 85777},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2696, col: 24, offset: 85674},
+																	pos:        position{line: 2700, col: 24, offset: 85777},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -47647,15 +47711,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2697, col: 5, offset: 85716},
+												pos:   position{line: 2701, col: 5, offset: 85819},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2697, col: 11, offset: 85722},
+													pos: position{line: 2701, col: 11, offset: 85825},
 													expr: &actionExpr{
-														pos: position{line: 2697, col: 12, offset: 85723},
+														pos: position{line: 2701, col: 12, offset: 85826},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2697, col: 12, offset: 85723},
+															pos:        position{line: 2701, col: 12, offset: 85826},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -47665,12 +47729,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2699, col: 5, offset: 85853},
+												pos:   position{line: 2703, col: 5, offset: 85956},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2699, col: 11, offset: 85859},
+													pos: position{line: 2703, col: 11, offset: 85962},
 													expr: &litMatcher{
-														pos:        position{line: 2699, col: 12, offset: 85860},
+														pos:        position{line: 2703, col: 12, offset: 85963},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -47678,7 +47742,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2700, col: 5, offset: 85870},
+												pos: position{line: 2704, col: 5, offset: 85973},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -47687,9 +47751,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2891, col: 8, offset: 91248},
+							pos: position{line: 2895, col: 8, offset: 91351},
 							expr: &anyMatcher{
-								line: 2891, col: 9, offset: 91249,
+								line: 2895, col: 9, offset: 91352,
 							},
 						},
 					},
@@ -47698,23 +47762,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2727, col: 1, offset: 86874},
+			pos:  position{line: 2731, col: 1, offset: 86977},
 			expr: &actionExpr{
-				pos: position{line: 2728, col: 5, offset: 86897},
+				pos: position{line: 2732, col: 5, offset: 87000},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2728, col: 5, offset: 86897},
+					pos: position{line: 2732, col: 5, offset: 87000},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2728, col: 5, offset: 86897},
+							pos:   position{line: 2732, col: 5, offset: 87000},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2751, col: 18, offset: 87638},
+								pos: position{line: 2755, col: 18, offset: 87741},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2751, col: 19, offset: 87639},
+									pos: position{line: 2755, col: 19, offset: 87742},
 									expr: &charClassMatcher{
-										pos:        position{line: 2751, col: 19, offset: 87639},
+										pos:        position{line: 2755, col: 19, offset: 87742},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47725,25 +47789,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2729, col: 5, offset: 86923},
+							pos: position{line: 2733, col: 5, offset: 87026},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2733, col: 5, offset: 87051},
+							pos:        position{line: 2737, col: 5, offset: 87154},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2734, col: 5, offset: 87061},
+							pos:   position{line: 2738, col: 5, offset: 87164},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2755, col: 19, offset: 87714},
+								pos: position{line: 2759, col: 19, offset: 87817},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2755, col: 19, offset: 87714},
+									pos: position{line: 2759, col: 19, offset: 87817},
 									expr: &charClassMatcher{
-										pos:        position{line: 2755, col: 19, offset: 87714},
+										pos:        position{line: 2759, col: 19, offset: 87817},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -47753,36 +47817,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2735, col: 5, offset: 87089},
+							pos:   position{line: 2739, col: 5, offset: 87192},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2735, col: 17, offset: 87101},
+								pos:  position{line: 2739, col: 17, offset: 87204},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2894, col: 8, offset: 91298},
+							pos: position{line: 2898, col: 8, offset: 91401},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2881, col: 12, offset: 91071},
+									pos: position{line: 2885, col: 12, offset: 91174},
 									run: (*parser).callonUserMacroBlock16,
 									expr: &choiceExpr{
-										pos: position{line: 2881, col: 13, offset: 91072},
+										pos: position{line: 2885, col: 13, offset: 91175},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2881, col: 13, offset: 91072},
+												pos:        position{line: 2885, col: 13, offset: 91175},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2881, col: 20, offset: 91079},
+												pos:        position{line: 2885, col: 20, offset: 91182},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2881, col: 29, offset: 91088},
+												pos:        position{line: 2885, col: 29, offset: 91191},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -47791,9 +47855,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2891, col: 8, offset: 91248},
+									pos: position{line: 2895, col: 8, offset: 91351},
 									expr: &anyMatcher{
-										line: 2891, col: 9, offset: 91249,
+										line: 2895, col: 9, offset: 91352,
 									},
 								},
 							},
@@ -47804,23 +47868,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2739, col: 1, offset: 87249},
+			pos:  position{line: 2743, col: 1, offset: 87352},
 			expr: &actionExpr{
-				pos: position{line: 2740, col: 5, offset: 87273},
+				pos: position{line: 2744, col: 5, offset: 87376},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2740, col: 5, offset: 87273},
+					pos: position{line: 2744, col: 5, offset: 87376},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2740, col: 5, offset: 87273},
+							pos:   position{line: 2744, col: 5, offset: 87376},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2751, col: 18, offset: 87638},
+								pos: position{line: 2755, col: 18, offset: 87741},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2751, col: 19, offset: 87639},
+									pos: position{line: 2755, col: 19, offset: 87742},
 									expr: &charClassMatcher{
-										pos:        position{line: 2751, col: 19, offset: 87639},
+										pos:        position{line: 2755, col: 19, offset: 87742},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47831,25 +47895,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2741, col: 5, offset: 87299},
+							pos: position{line: 2745, col: 5, offset: 87402},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2745, col: 5, offset: 87427},
+							pos:        position{line: 2749, col: 5, offset: 87530},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2746, col: 5, offset: 87436},
+							pos:   position{line: 2750, col: 5, offset: 87539},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2755, col: 19, offset: 87714},
+								pos: position{line: 2759, col: 19, offset: 87817},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2755, col: 19, offset: 87714},
+									pos: position{line: 2759, col: 19, offset: 87817},
 									expr: &charClassMatcher{
-										pos:        position{line: 2755, col: 19, offset: 87714},
+										pos:        position{line: 2759, col: 19, offset: 87817},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -47859,10 +47923,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2747, col: 5, offset: 87464},
+							pos:   position{line: 2751, col: 5, offset: 87567},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2747, col: 17, offset: 87476},
+								pos:  position{line: 2751, col: 17, offset: 87579},
 								name: "InlineAttributes",
 							},
 						},
@@ -47872,43 +47936,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2826, col: 1, offset: 89547},
+			pos:  position{line: 2830, col: 1, offset: 89650},
 			expr: &actionExpr{
-				pos: position{line: 2826, col: 17, offset: 89563},
+				pos: position{line: 2830, col: 17, offset: 89666},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2826, col: 17, offset: 89563},
+					pos:   position{line: 2830, col: 17, offset: 89666},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2843, col: 5, offset: 90017},
+						pos: position{line: 2847, col: 5, offset: 90120},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2843, col: 5, offset: 90017},
+							pos:   position{line: 2847, col: 5, offset: 90120},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2843, col: 14, offset: 90026},
+								pos: position{line: 2847, col: 14, offset: 90129},
 								expr: &choiceExpr{
-									pos: position{line: 2844, col: 9, offset: 90036},
+									pos: position{line: 2848, col: 9, offset: 90139},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2844, col: 9, offset: 90036},
+											pos: position{line: 2848, col: 9, offset: 90139},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2844, col: 9, offset: 90036},
+												pos: position{line: 2848, col: 9, offset: 90139},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2844, col: 9, offset: 90036},
+														pos: position{line: 2848, col: 9, offset: 90139},
 														expr: &litMatcher{
-															pos:        position{line: 2844, col: 10, offset: 90037},
+															pos:        position{line: 2848, col: 10, offset: 90140},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2845, col: 9, offset: 90065},
+														pos: position{line: 2849, col: 9, offset: 90168},
 														expr: &charClassMatcher{
-															pos:        position{line: 2845, col: 10, offset: 90066},
+															pos:        position{line: 2849, col: 10, offset: 90169},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -47919,27 +47983,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2848, col: 11, offset: 90278},
+											pos: position{line: 2852, col: 11, offset: 90381},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2848, col: 11, offset: 90278},
+													pos:        position{line: 2852, col: 11, offset: 90381},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2848, col: 19, offset: 90286},
+													pos: position{line: 2852, col: 19, offset: 90389},
 													expr: &seqExpr{
-														pos: position{line: 2848, col: 21, offset: 90288},
+														pos: position{line: 2852, col: 21, offset: 90391},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2848, col: 21, offset: 90288},
+																pos: position{line: 2852, col: 21, offset: 90391},
 																expr: &actionExpr{
-																	pos: position{line: 2872, col: 10, offset: 90900},
+																	pos: position{line: 2876, col: 10, offset: 91003},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2872, col: 10, offset: 90900},
+																		pos:        position{line: 2876, col: 10, offset: 91003},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -47948,11 +48012,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2848, col: 28, offset: 90295},
+																pos: position{line: 2852, col: 28, offset: 90398},
 																expr: &notExpr{
-																	pos: position{line: 2891, col: 8, offset: 91248},
+																	pos: position{line: 2895, col: 8, offset: 91351},
 																	expr: &anyMatcher{
-																		line: 2891, col: 9, offset: 91249,
+																		line: 2895, col: 9, offset: 91352,
 																	},
 																},
 															},
@@ -48343,14 +48407,18 @@ var g = &grammar{
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
+													&andCodeExpr{
+														pos: position{line: 1198, col: 5, offset: 37089},
+														run: (*parser).callonFileLocation100,
+													},
 												},
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2851, col: 11, offset: 90415},
-											run: (*parser).callonFileLocation100,
+											pos: position{line: 2855, col: 11, offset: 90518},
+											run: (*parser).callonFileLocation101,
 											expr: &litMatcher{
-												pos:        position{line: 2851, col: 11, offset: 90415},
+												pos:        position{line: 2855, col: 11, offset: 90518},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -49958,6 +50026,17 @@ func (p *parser) callonFileInclusion103() (interface{}, error) {
 	return p.cur.onFileInclusion103()
 }
 
+func (c *current) onFileInclusion107(ref interface{}) (bool, error) {
+	return c.isPlaceHolder(ref.(string)) // otherwise, it's just the same characters
+
+}
+
+func (p *parser) callonFileInclusion107() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onFileInclusion107(stack["ref"])
+}
+
 func (c *current) onFileInclusion99(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
@@ -49968,15 +50047,15 @@ func (p *parser) callonFileInclusion99() (interface{}, error) {
 	return p.cur.onFileInclusion99(stack["ref"])
 }
 
-func (c *current) onFileInclusion107() (interface{}, error) {
+func (c *current) onFileInclusion108() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFileInclusion107() (interface{}, error) {
+func (p *parser) callonFileInclusion108() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFileInclusion107()
+	return p.cur.onFileInclusion108()
 }
 
 func (c *current) onFileInclusion10(elements interface{}) (interface{}, error) {
@@ -50013,27 +50092,27 @@ func (p *parser) callonFileInclusion4() (interface{}, error) {
 	return p.cur.onFileInclusion4(stack["path"], stack["attributes"])
 }
 
-func (c *current) onFileInclusion112() (interface{}, error) {
+func (c *current) onFileInclusion113() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFileInclusion112() (interface{}, error) {
+func (p *parser) callonFileInclusion113() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFileInclusion112()
+	return p.cur.onFileInclusion113()
 }
 
-func (c *current) onFileInclusion115() (interface{}, error) {
+func (c *current) onFileInclusion116() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonFileInclusion115() (interface{}, error) {
+func (p *parser) callonFileInclusion116() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFileInclusion115()
+	return p.cur.onFileInclusion116()
 }
 
 func (c *current) onFileInclusion1(incl interface{}) (interface{}, error) {
@@ -54246,6 +54325,17 @@ func (p *parser) callonBlockAttributes23() (interface{}, error) {
 	return p.cur.onBlockAttributes23()
 }
 
+func (c *current) onBlockAttributes27(ref interface{}) (bool, error) {
+	return c.isPlaceHolder(ref.(string)) // otherwise, it's just the same characters
+
+}
+
+func (p *parser) callonBlockAttributes27() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onBlockAttributes27(stack["ref"])
+}
+
 func (c *current) onBlockAttributes19(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
@@ -54256,29 +54346,29 @@ func (p *parser) callonBlockAttributes19() (interface{}, error) {
 	return p.cur.onBlockAttributes19(stack["ref"])
 }
 
-func (c *current) onBlockAttributes29() (bool, error) {
+func (c *current) onBlockAttributes30() (bool, error) {
 	return c.isSubstitutionEnabled(AttributeRefs), nil
 
 }
 
-func (p *parser) callonBlockAttributes29() (bool, error) {
+func (p *parser) callonBlockAttributes30() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes29()
+	return p.cur.onBlockAttributes30()
 }
 
-func (c *current) onBlockAttributes36() (interface{}, error) {
+func (c *current) onBlockAttributes37() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes36() (interface{}, error) {
+func (p *parser) callonBlockAttributes37() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes36()
+	return p.cur.onBlockAttributes37()
 }
 
-func (c *current) onBlockAttributes32(name interface{}) (interface{}, error) {
+func (c *current) onBlockAttributes33(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -54286,166 +54376,166 @@ func (c *current) onBlockAttributes32(name interface{}) (interface{}, error) {
 
 }
 
-func (p *parser) callonBlockAttributes32() (interface{}, error) {
+func (p *parser) callonBlockAttributes33() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes32(stack["name"])
+	return p.cur.onBlockAttributes33(stack["name"])
 }
 
-func (c *current) onBlockAttributes46() (interface{}, error) {
+func (c *current) onBlockAttributes47() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes46() (interface{}, error) {
+func (p *parser) callonBlockAttributes47() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes46()
+	return p.cur.onBlockAttributes47()
 }
 
-func (c *current) onBlockAttributes42(name interface{}) (interface{}, error) {
+func (c *current) onBlockAttributes43(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonBlockAttributes42() (interface{}, error) {
+func (p *parser) callonBlockAttributes43() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes42(stack["name"])
+	return p.cur.onBlockAttributes43(stack["name"])
 }
 
-func (c *current) onBlockAttributes56() (interface{}, error) {
+func (c *current) onBlockAttributes57() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes56() (interface{}, error) {
+func (p *parser) callonBlockAttributes57() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes56()
+	return p.cur.onBlockAttributes57()
 }
 
-func (c *current) onBlockAttributes68() (interface{}, error) {
+func (c *current) onBlockAttributes69() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes68() (interface{}, error) {
+func (p *parser) callonBlockAttributes69() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes68()
+	return p.cur.onBlockAttributes69()
 }
 
-func (c *current) onBlockAttributes70() (interface{}, error) {
+func (c *current) onBlockAttributes71() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonBlockAttributes70() (interface{}, error) {
+func (p *parser) callonBlockAttributes71() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes70()
+	return p.cur.onBlockAttributes71()
 }
 
-func (c *current) onBlockAttributes63(start interface{}) (interface{}, error) {
+func (c *current) onBlockAttributes64(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonBlockAttributes63() (interface{}, error) {
+func (p *parser) callonBlockAttributes64() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes63(stack["start"])
+	return p.cur.onBlockAttributes64(stack["start"])
 }
 
-func (c *current) onBlockAttributes52(name, start interface{}) (interface{}, error) {
+func (c *current) onBlockAttributes53(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
 }
 
-func (p *parser) callonBlockAttributes52() (interface{}, error) {
+func (p *parser) callonBlockAttributes53() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes52(stack["name"], stack["start"])
+	return p.cur.onBlockAttributes53(stack["name"], stack["start"])
 }
 
-func (c *current) onBlockAttributes78() (interface{}, error) {
+func (c *current) onBlockAttributes79() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes78() (interface{}, error) {
+func (p *parser) callonBlockAttributes79() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes78()
+	return p.cur.onBlockAttributes79()
 }
 
-func (c *current) onBlockAttributes90() (interface{}, error) {
+func (c *current) onBlockAttributes91() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes90() (interface{}, error) {
+func (p *parser) callonBlockAttributes91() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes90()
+	return p.cur.onBlockAttributes91()
 }
 
-func (c *current) onBlockAttributes92() (interface{}, error) {
+func (c *current) onBlockAttributes93() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonBlockAttributes92() (interface{}, error) {
+func (p *parser) callonBlockAttributes93() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes92()
+	return p.cur.onBlockAttributes93()
 }
 
-func (c *current) onBlockAttributes85(start interface{}) (interface{}, error) {
+func (c *current) onBlockAttributes86(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonBlockAttributes85() (interface{}, error) {
+func (p *parser) callonBlockAttributes86() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes85(stack["start"])
+	return p.cur.onBlockAttributes86(stack["start"])
 }
 
-func (c *current) onBlockAttributes74(name, start interface{}) (interface{}, error) {
+func (c *current) onBlockAttributes75(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
 }
 
-func (p *parser) callonBlockAttributes74() (interface{}, error) {
+func (p *parser) callonBlockAttributes75() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes74(stack["name"], stack["start"])
+	return p.cur.onBlockAttributes75(stack["name"], stack["start"])
 }
 
-func (c *current) onBlockAttributes27(element interface{}) (interface{}, error) {
+func (c *current) onBlockAttributes28(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonBlockAttributes27() (interface{}, error) {
+func (p *parser) callonBlockAttributes28() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes27(stack["element"])
+	return p.cur.onBlockAttributes28(stack["element"])
 }
 
-func (c *current) onBlockAttributes96() (interface{}, error) {
+func (c *current) onBlockAttributes97() (interface{}, error) {
 
 	return types.NewStringElement(string(c.text))
 
 }
 
-func (p *parser) callonBlockAttributes96() (interface{}, error) {
+func (p *parser) callonBlockAttributes97() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes96()
+	return p.cur.onBlockAttributes97()
 }
 
 func (c *current) onBlockAttributes12(elements interface{}) (interface{}, error) {
@@ -54470,61 +54560,61 @@ func (p *parser) callonBlockAttributes8() (interface{}, error) {
 	return p.cur.onBlockAttributes8(stack["id"])
 }
 
-func (c *current) onBlockAttributes100() (interface{}, error) {
+func (c *current) onBlockAttributes101() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes100() (interface{}, error) {
+func (p *parser) callonBlockAttributes101() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes100()
+	return p.cur.onBlockAttributes101()
 }
 
-func (c *current) onBlockAttributes103() (interface{}, error) {
+func (c *current) onBlockAttributes104() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonBlockAttributes103() (interface{}, error) {
+func (p *parser) callonBlockAttributes104() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes103()
+	return p.cur.onBlockAttributes104()
 }
 
-func (c *current) onBlockAttributes116() (interface{}, error) {
+func (c *current) onBlockAttributes117() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes116() (interface{}, error) {
+func (p *parser) callonBlockAttributes117() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes116()
+	return p.cur.onBlockAttributes117()
 }
 
-func (c *current) onBlockAttributes119() (interface{}, error) {
+func (c *current) onBlockAttributes120() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonBlockAttributes119() (interface{}, error) {
+func (p *parser) callonBlockAttributes120() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes119()
+	return p.cur.onBlockAttributes120()
 }
 
-func (c *current) onBlockAttributes111() (interface{}, error) {
+func (c *current) onBlockAttributes112() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonBlockAttributes111() (interface{}, error) {
+func (p *parser) callonBlockAttributes112() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes111()
+	return p.cur.onBlockAttributes112()
 }
 
 func (c *current) onBlockAttributes5(anchor interface{}) (interface{}, error) {
@@ -54538,78 +54628,78 @@ func (p *parser) callonBlockAttributes5() (interface{}, error) {
 	return p.cur.onBlockAttributes5(stack["anchor"])
 }
 
-func (c *current) onBlockAttributes137() (interface{}, error) {
+func (c *current) onBlockAttributes138() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes137() (interface{}, error) {
+func (p *parser) callonBlockAttributes138() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes137()
+	return p.cur.onBlockAttributes138()
 }
 
-func (c *current) onBlockAttributes140() (interface{}, error) {
+func (c *current) onBlockAttributes141() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes140() (interface{}, error) {
+func (p *parser) callonBlockAttributes141() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes140()
+	return p.cur.onBlockAttributes141()
 }
 
-func (c *current) onBlockAttributes146() (bool, error) {
+func (c *current) onBlockAttributes147() (bool, error) {
 
 	return c.allSubstitutionsDisabled(Macros, Quotes), nil
 
 }
 
-func (p *parser) callonBlockAttributes146() (bool, error) {
+func (p *parser) callonBlockAttributes147() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes146()
+	return p.cur.onBlockAttributes147()
 }
 
-func (c *current) onBlockAttributes150() (bool, error) {
+func (c *current) onBlockAttributes151() (bool, error) {
 
 	return c.isSubstitutionDisabled(Quotes), nil
 
 }
 
-func (p *parser) callonBlockAttributes150() (bool, error) {
+func (p *parser) callonBlockAttributes151() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes150()
+	return p.cur.onBlockAttributes151()
 }
 
-func (c *current) onBlockAttributes142() (interface{}, error) {
+func (c *current) onBlockAttributes143() (interface{}, error) {
 
 	log.Debugf("new punctuation: '%v'", string(c.text))
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes142() (interface{}, error) {
+func (p *parser) callonBlockAttributes143() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes142()
+	return p.cur.onBlockAttributes143()
 }
 
-func (c *current) onBlockAttributes160() (interface{}, error) {
+func (c *current) onBlockAttributes161() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes160() (interface{}, error) {
+func (p *parser) callonBlockAttributes161() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes160()
+	return p.cur.onBlockAttributes161()
 }
 
-func (c *current) onBlockAttributes156(name interface{}) (interface{}, error) {
+func (c *current) onBlockAttributes157(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -54617,36 +54707,36 @@ func (c *current) onBlockAttributes156(name interface{}) (interface{}, error) {
 
 }
 
-func (p *parser) callonBlockAttributes156() (interface{}, error) {
+func (p *parser) callonBlockAttributes157() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes156(stack["name"])
+	return p.cur.onBlockAttributes157(stack["name"])
 }
 
-func (c *current) onBlockAttributes170() (interface{}, error) {
+func (c *current) onBlockAttributes171() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes170() (interface{}, error) {
+func (p *parser) callonBlockAttributes171() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes170()
+	return p.cur.onBlockAttributes171()
 }
 
-func (c *current) onBlockAttributes166(name interface{}) (interface{}, error) {
+func (c *current) onBlockAttributes167(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonBlockAttributes166() (interface{}, error) {
+func (p *parser) callonBlockAttributes167() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes166(stack["name"])
+	return p.cur.onBlockAttributes167(stack["name"])
 }
 
-func (c *current) onBlockAttributes176() (interface{}, error) {
+func (c *current) onBlockAttributes177() (interface{}, error) {
 
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("matching anychar '%s' at position %v", string(c.text), c.pos.String())
@@ -54655,189 +54745,189 @@ func (c *current) onBlockAttributes176() (interface{}, error) {
 
 }
 
-func (p *parser) callonBlockAttributes176() (interface{}, error) {
+func (p *parser) callonBlockAttributes177() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes176()
+	return p.cur.onBlockAttributes177()
 }
 
-func (c *current) onBlockAttributes129(elements interface{}) (interface{}, error) {
+func (c *current) onBlockAttributes130(elements interface{}) (interface{}, error) {
 	return types.NewTitleAttribute(types.Reduce(elements, strings.TrimSpace))
 
 }
 
-func (p *parser) callonBlockAttributes129() (interface{}, error) {
+func (p *parser) callonBlockAttributes130() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes129(stack["elements"])
+	return p.cur.onBlockAttributes130(stack["elements"])
 }
 
-func (c *current) onBlockAttributes179() (interface{}, error) {
+func (c *current) onBlockAttributes180() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes179() (interface{}, error) {
+func (p *parser) callonBlockAttributes180() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes179()
+	return p.cur.onBlockAttributes180()
 }
 
-func (c *current) onBlockAttributes182() (interface{}, error) {
+func (c *current) onBlockAttributes183() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonBlockAttributes182() (interface{}, error) {
+func (p *parser) callonBlockAttributes183() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes182()
+	return p.cur.onBlockAttributes183()
 }
 
-func (c *current) onBlockAttributes195() (interface{}, error) {
+func (c *current) onBlockAttributes196() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes195() (interface{}, error) {
+func (p *parser) callonBlockAttributes196() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes195()
+	return p.cur.onBlockAttributes196()
 }
 
-func (c *current) onBlockAttributes198() (interface{}, error) {
+func (c *current) onBlockAttributes199() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonBlockAttributes198() (interface{}, error) {
+func (p *parser) callonBlockAttributes199() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes198()
+	return p.cur.onBlockAttributes199()
 }
 
-func (c *current) onBlockAttributes190() (interface{}, error) {
+func (c *current) onBlockAttributes191() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonBlockAttributes190() (interface{}, error) {
+func (p *parser) callonBlockAttributes191() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes190()
+	return p.cur.onBlockAttributes191()
 }
 
-func (c *current) onBlockAttributes126(title interface{}) (interface{}, error) {
+func (c *current) onBlockAttributes127(title interface{}) (interface{}, error) {
 	return title, nil
 
 }
 
-func (p *parser) callonBlockAttributes126() (interface{}, error) {
+func (p *parser) callonBlockAttributes127() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes126(stack["title"])
+	return p.cur.onBlockAttributes127(stack["title"])
 }
 
-func (c *current) onBlockAttributes208() (interface{}, error) {
+func (c *current) onBlockAttributes209() (interface{}, error) {
 	return c.currentLine(), nil
 
 }
 
-func (p *parser) callonBlockAttributes208() (interface{}, error) {
+func (p *parser) callonBlockAttributes209() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes208()
+	return p.cur.onBlockAttributes209()
 }
 
-func (c *current) onBlockAttributes213() (interface{}, error) {
+func (c *current) onBlockAttributes214() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes213() (interface{}, error) {
+func (p *parser) callonBlockAttributes214() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes213()
+	return p.cur.onBlockAttributes214()
 }
 
-func (c *current) onBlockAttributes216() (interface{}, error) {
+func (c *current) onBlockAttributes217() (interface{}, error) {
 	return c.currentLine(), nil
 
 }
 
-func (p *parser) callonBlockAttributes216() (interface{}, error) {
+func (p *parser) callonBlockAttributes217() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes216()
+	return p.cur.onBlockAttributes217()
 }
 
-func (c *current) onBlockAttributes218(start, attributes, end interface{}) (bool, error) {
+func (c *current) onBlockAttributes219(start, attributes, end interface{}) (bool, error) {
 	return start == end, nil
 }
 
-func (p *parser) callonBlockAttributes218() (bool, error) {
+func (p *parser) callonBlockAttributes219() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes218(stack["start"], stack["attributes"], stack["end"])
+	return p.cur.onBlockAttributes219(stack["start"], stack["attributes"], stack["end"])
 }
 
-func (c *current) onBlockAttributes220() (interface{}, error) {
+func (c *current) onBlockAttributes221() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonBlockAttributes220() (interface{}, error) {
+func (p *parser) callonBlockAttributes221() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes220()
+	return p.cur.onBlockAttributes221()
 }
 
-func (c *current) onBlockAttributes233() (interface{}, error) {
+func (c *current) onBlockAttributes234() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes233() (interface{}, error) {
+func (p *parser) callonBlockAttributes234() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes233()
+	return p.cur.onBlockAttributes234()
 }
 
-func (c *current) onBlockAttributes236() (interface{}, error) {
+func (c *current) onBlockAttributes237() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonBlockAttributes236() (interface{}, error) {
+func (p *parser) callonBlockAttributes237() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes236()
+	return p.cur.onBlockAttributes237()
 }
 
-func (c *current) onBlockAttributes228() (interface{}, error) {
+func (c *current) onBlockAttributes229() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonBlockAttributes228() (interface{}, error) {
+func (p *parser) callonBlockAttributes229() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes228()
+	return p.cur.onBlockAttributes229()
 }
 
-func (c *current) onBlockAttributes205(start, attributes, end interface{}) (interface{}, error) {
+func (c *current) onBlockAttributes206(start, attributes, end interface{}) (interface{}, error) {
 	return attributes, nil
 
 }
 
-func (p *parser) callonBlockAttributes205() (interface{}, error) {
+func (p *parser) callonBlockAttributes206() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes205(stack["start"], stack["attributes"], stack["end"])
+	return p.cur.onBlockAttributes206(stack["start"], stack["attributes"], stack["end"])
 }
 
 func (c *current) onBlockAttributes1(attributes interface{}) (interface{}, error) {
@@ -56486,6 +56576,17 @@ func (p *parser) callonExternalCrossReference100() (interface{}, error) {
 	return p.cur.onExternalCrossReference100()
 }
 
+func (c *current) onExternalCrossReference104(ref interface{}) (bool, error) {
+	return c.isPlaceHolder(ref.(string)) // otherwise, it's just the same characters
+
+}
+
+func (p *parser) callonExternalCrossReference104() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onExternalCrossReference104(stack["ref"])
+}
+
 func (c *current) onExternalCrossReference96(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
@@ -56496,15 +56597,15 @@ func (p *parser) callonExternalCrossReference96() (interface{}, error) {
 	return p.cur.onExternalCrossReference96(stack["ref"])
 }
 
-func (c *current) onExternalCrossReference104() (interface{}, error) {
+func (c *current) onExternalCrossReference105() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExternalCrossReference104() (interface{}, error) {
+func (p *parser) callonExternalCrossReference105() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalCrossReference104()
+	return p.cur.onExternalCrossReference105()
 }
 
 func (c *current) onExternalCrossReference7(elements interface{}) (interface{}, error) {
@@ -58187,6 +58288,17 @@ func (p *parser) callonIndexTermContent21() (interface{}, error) {
 	return p.cur.onIndexTermContent21()
 }
 
+func (c *current) onIndexTermContent25(ref interface{}) (bool, error) {
+	return c.isPlaceHolder(ref.(string)) // otherwise, it's just the same characters
+
+}
+
+func (p *parser) callonIndexTermContent25() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onIndexTermContent25(stack["ref"])
+}
+
 func (c *current) onIndexTermContent17(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
@@ -58197,14 +58309,14 @@ func (p *parser) callonIndexTermContent17() (interface{}, error) {
 	return p.cur.onIndexTermContent17(stack["ref"])
 }
 
-func (c *current) onIndexTermContent25() (interface{}, error) {
+func (c *current) onIndexTermContent26() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonIndexTermContent25() (interface{}, error) {
+func (p *parser) callonIndexTermContent26() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onIndexTermContent25()
+	return p.cur.onIndexTermContent26()
 }
 
 func (c *current) onIndexTermContent1(elements interface{}) (interface{}, error) {
@@ -58452,6 +58564,17 @@ func (p *parser) callonImageBlock113() (interface{}, error) {
 	return p.cur.onImageBlock113()
 }
 
+func (c *current) onImageBlock117(ref interface{}) (bool, error) {
+	return c.isPlaceHolder(ref.(string)) // otherwise, it's just the same characters
+
+}
+
+func (p *parser) callonImageBlock117() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onImageBlock117(stack["ref"])
+}
+
 func (c *current) onImageBlock109(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
@@ -58462,15 +58585,15 @@ func (p *parser) callonImageBlock109() (interface{}, error) {
 	return p.cur.onImageBlock109(stack["ref"])
 }
 
-func (c *current) onImageBlock117() (interface{}, error) {
+func (c *current) onImageBlock118() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonImageBlock117() (interface{}, error) {
+func (p *parser) callonImageBlock118() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onImageBlock117()
+	return p.cur.onImageBlock118()
 }
 
 func (c *current) onImageBlock20(elements interface{}) (interface{}, error) {
@@ -58495,48 +58618,48 @@ func (p *parser) callonImageBlock8() (interface{}, error) {
 	return p.cur.onImageBlock8(stack["scheme"], stack["path"])
 }
 
-func (c *current) onImageBlock122() (interface{}, error) {
+func (c *current) onImageBlock123() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonImageBlock122() (interface{}, error) {
+func (p *parser) callonImageBlock123() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onImageBlock122()
+	return p.cur.onImageBlock123()
 }
 
-func (c *current) onImageBlock125() (interface{}, error) {
+func (c *current) onImageBlock126() (interface{}, error) {
 	return c.currentLine(), nil
 
 }
 
-func (p *parser) callonImageBlock125() (interface{}, error) {
+func (p *parser) callonImageBlock126() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onImageBlock125()
+	return p.cur.onImageBlock126()
 }
 
-func (c *current) onImageBlock127(start, path, attributes, end interface{}) (bool, error) {
+func (c *current) onImageBlock128(start, path, attributes, end interface{}) (bool, error) {
 	return start == end, nil
 }
 
-func (p *parser) callonImageBlock127() (bool, error) {
+func (p *parser) callonImageBlock128() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onImageBlock127(stack["start"], stack["path"], stack["attributes"], stack["end"])
+	return p.cur.onImageBlock128(stack["start"], stack["path"], stack["attributes"], stack["end"])
 }
 
-func (c *current) onImageBlock129() (interface{}, error) {
+func (c *current) onImageBlock130() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonImageBlock129() (interface{}, error) {
+func (p *parser) callonImageBlock130() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onImageBlock129()
+	return p.cur.onImageBlock130()
 }
 
 func (c *current) onImageBlock1(start, path, attributes, end interface{}) (interface{}, error) {
@@ -58775,6 +58898,17 @@ func (p *parser) callonInlineImage112() (interface{}, error) {
 	return p.cur.onInlineImage112()
 }
 
+func (c *current) onInlineImage116(ref interface{}) (bool, error) {
+	return c.isPlaceHolder(ref.(string)) // otherwise, it's just the same characters
+
+}
+
+func (p *parser) callonInlineImage116() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onInlineImage116(stack["ref"])
+}
+
 func (c *current) onInlineImage108(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
@@ -58785,15 +58919,15 @@ func (p *parser) callonInlineImage108() (interface{}, error) {
 	return p.cur.onInlineImage108(stack["ref"])
 }
 
-func (c *current) onInlineImage116() (interface{}, error) {
+func (c *current) onInlineImage117() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonInlineImage116() (interface{}, error) {
+func (p *parser) callonInlineImage117() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onInlineImage116()
+	return p.cur.onInlineImage117()
 }
 
 func (c *current) onInlineImage19(elements interface{}) (interface{}, error) {
@@ -59625,6 +59759,17 @@ func (p *parser) callonLink112() (interface{}, error) {
 	return p.cur.onLink112()
 }
 
+func (c *current) onLink116(ref interface{}) (bool, error) {
+	return c.isPlaceHolder(ref.(string)) // otherwise, it's just the same characters
+
+}
+
+func (p *parser) callonLink116() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onLink116(stack["ref"])
+}
+
 func (c *current) onLink108(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
@@ -59635,15 +59780,15 @@ func (p *parser) callonLink108() (interface{}, error) {
 	return p.cur.onLink108(stack["ref"])
 }
 
-func (c *current) onLink116() (interface{}, error) {
+func (c *current) onLink117() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonLink116() (interface{}, error) {
+func (p *parser) callonLink117() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onLink116()
+	return p.cur.onLink117()
 }
 
 func (c *current) onLink19(elements interface{}) (interface{}, error) {
@@ -59680,19 +59825,19 @@ func (p *parser) callonLink2() (interface{}, error) {
 	return p.cur.onLink2(stack["url"])
 }
 
-func (c *current) onLink127() (interface{}, error) {
+func (c *current) onLink128() (interface{}, error) {
 	// `'
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonLink127() (interface{}, error) {
+func (p *parser) callonLink128() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onLink127()
+	return p.cur.onLink128()
 }
 
-func (c *current) onLink130(local interface{}) (bool, error) {
+func (c *current) onLink131(local interface{}) (bool, error) {
 	// must not start or end with `.` nor contain `..`
 	return !strings.HasPrefix(local.(string), ".") &&
 		!strings.HasSuffix(local.(string), ".") &&
@@ -59700,42 +59845,42 @@ func (c *current) onLink130(local interface{}) (bool, error) {
 
 }
 
-func (p *parser) callonLink130() (bool, error) {
+func (p *parser) callonLink131() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onLink130(stack["local"])
+	return p.cur.onLink131(stack["local"])
 }
 
-func (c *current) onLink124(local interface{}) (interface{}, error) {
+func (c *current) onLink125(local interface{}) (interface{}, error) {
 	return local, nil
 
 }
 
-func (p *parser) callonLink124() (interface{}, error) {
+func (p *parser) callonLink125() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onLink124(stack["local"])
+	return p.cur.onLink125(stack["local"])
 }
 
-func (c *current) onLink133() (interface{}, error) {
+func (c *current) onLink134() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonLink133() (interface{}, error) {
+func (p *parser) callonLink134() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onLink133()
+	return p.cur.onLink134()
 }
 
-func (c *current) onLink121(local, domain interface{}) (interface{}, error) {
+func (c *current) onLink122(local, domain interface{}) (interface{}, error) {
 	return types.NewEmailAddressLink(local.(string) + "@" + domain.(string))
 }
 
-func (p *parser) callonLink121() (interface{}, error) {
+func (p *parser) callonLink122() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onLink121(stack["local"], stack["domain"])
+	return p.cur.onLink122(stack["local"], stack["domain"])
 }
 
 func (c *current) onRelativeLink10() (interface{}, error) {
@@ -59962,6 +60107,17 @@ func (p *parser) callonRelativeLink111() (interface{}, error) {
 	return p.cur.onRelativeLink111()
 }
 
+func (c *current) onRelativeLink115(ref interface{}) (bool, error) {
+	return c.isPlaceHolder(ref.(string)) // otherwise, it's just the same characters
+
+}
+
+func (p *parser) callonRelativeLink115() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onRelativeLink115(stack["ref"])
+}
+
 func (c *current) onRelativeLink107(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
@@ -59972,15 +60128,15 @@ func (p *parser) callonRelativeLink107() (interface{}, error) {
 	return p.cur.onRelativeLink107(stack["ref"])
 }
 
-func (c *current) onRelativeLink115() (interface{}, error) {
+func (c *current) onRelativeLink116() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonRelativeLink115() (interface{}, error) {
+func (p *parser) callonRelativeLink116() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink115()
+	return p.cur.onRelativeLink116()
 }
 
 func (c *current) onRelativeLink18(elements interface{}) (interface{}, error) {
@@ -60016,63 +60172,63 @@ func (p *parser) callonRelativeLink2() (interface{}, error) {
 	return p.cur.onRelativeLink2(stack["url"], stack["attributes"])
 }
 
-func (c *current) onRelativeLink127() (interface{}, error) {
+func (c *current) onRelativeLink128() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonRelativeLink127() (interface{}, error) {
+func (p *parser) callonRelativeLink128() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink127()
+	return p.cur.onRelativeLink128()
 }
 
-func (c *current) onRelativeLink139() (interface{}, error) {
+func (c *current) onRelativeLink140() (interface{}, error) {
 	// excluding EOL, space, "{", "[", "]". Also, punctuation chars and `<` and `>` special chars are treated separately below
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonRelativeLink139() (interface{}, error) {
+func (p *parser) callonRelativeLink140() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink139()
+	return p.cur.onRelativeLink140()
 }
 
-func (c *current) onRelativeLink150() (interface{}, error) {
+func (c *current) onRelativeLink151() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonRelativeLink150() (interface{}, error) {
+func (p *parser) callonRelativeLink151() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink150()
+	return p.cur.onRelativeLink151()
 }
 
-func (c *current) onRelativeLink157() (bool, error) {
+func (c *current) onRelativeLink158() (bool, error) {
 	return c.isSubstitutionEnabled(AttributeRefs), nil
 
 }
 
-func (p *parser) callonRelativeLink157() (bool, error) {
+func (p *parser) callonRelativeLink158() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink157()
+	return p.cur.onRelativeLink158()
 }
 
-func (c *current) onRelativeLink164() (interface{}, error) {
+func (c *current) onRelativeLink165() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonRelativeLink164() (interface{}, error) {
+func (p *parser) callonRelativeLink165() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink164()
+	return p.cur.onRelativeLink165()
 }
 
-func (c *current) onRelativeLink160(name interface{}) (interface{}, error) {
+func (c *current) onRelativeLink161(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -60080,218 +60236,229 @@ func (c *current) onRelativeLink160(name interface{}) (interface{}, error) {
 
 }
 
-func (p *parser) callonRelativeLink160() (interface{}, error) {
+func (p *parser) callonRelativeLink161() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink160(stack["name"])
+	return p.cur.onRelativeLink161(stack["name"])
 }
 
-func (c *current) onRelativeLink174() (interface{}, error) {
+func (c *current) onRelativeLink175() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonRelativeLink174() (interface{}, error) {
+func (p *parser) callonRelativeLink175() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink174()
+	return p.cur.onRelativeLink175()
 }
 
-func (c *current) onRelativeLink170(name interface{}) (interface{}, error) {
+func (c *current) onRelativeLink171(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonRelativeLink170() (interface{}, error) {
+func (p *parser) callonRelativeLink171() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink170(stack["name"])
+	return p.cur.onRelativeLink171(stack["name"])
 }
 
-func (c *current) onRelativeLink184() (interface{}, error) {
+func (c *current) onRelativeLink185() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonRelativeLink184() (interface{}, error) {
+func (p *parser) callonRelativeLink185() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink184()
+	return p.cur.onRelativeLink185()
 }
 
-func (c *current) onRelativeLink196() (interface{}, error) {
+func (c *current) onRelativeLink197() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonRelativeLink196() (interface{}, error) {
+func (p *parser) callonRelativeLink197() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink196()
+	return p.cur.onRelativeLink197()
 }
 
-func (c *current) onRelativeLink198() (interface{}, error) {
+func (c *current) onRelativeLink199() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonRelativeLink198() (interface{}, error) {
+func (p *parser) callonRelativeLink199() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink198()
+	return p.cur.onRelativeLink199()
 }
 
-func (c *current) onRelativeLink191(start interface{}) (interface{}, error) {
+func (c *current) onRelativeLink192(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonRelativeLink191() (interface{}, error) {
+func (p *parser) callonRelativeLink192() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink191(stack["start"])
+	return p.cur.onRelativeLink192(stack["start"])
 }
 
-func (c *current) onRelativeLink180(name, start interface{}) (interface{}, error) {
+func (c *current) onRelativeLink181(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
 }
 
-func (p *parser) callonRelativeLink180() (interface{}, error) {
+func (p *parser) callonRelativeLink181() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink180(stack["name"], stack["start"])
+	return p.cur.onRelativeLink181(stack["name"], stack["start"])
 }
 
-func (c *current) onRelativeLink206() (interface{}, error) {
+func (c *current) onRelativeLink207() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonRelativeLink206() (interface{}, error) {
+func (p *parser) callonRelativeLink207() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink206()
+	return p.cur.onRelativeLink207()
 }
 
-func (c *current) onRelativeLink218() (interface{}, error) {
+func (c *current) onRelativeLink219() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonRelativeLink218() (interface{}, error) {
+func (p *parser) callonRelativeLink219() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink218()
+	return p.cur.onRelativeLink219()
 }
 
-func (c *current) onRelativeLink220() (interface{}, error) {
+func (c *current) onRelativeLink221() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonRelativeLink220() (interface{}, error) {
+func (p *parser) callonRelativeLink221() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink220()
+	return p.cur.onRelativeLink221()
 }
 
-func (c *current) onRelativeLink213(start interface{}) (interface{}, error) {
+func (c *current) onRelativeLink214(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonRelativeLink213() (interface{}, error) {
+func (p *parser) callonRelativeLink214() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink213(stack["start"])
+	return p.cur.onRelativeLink214(stack["start"])
 }
 
-func (c *current) onRelativeLink202(name, start interface{}) (interface{}, error) {
+func (c *current) onRelativeLink203(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
 }
 
-func (p *parser) callonRelativeLink202() (interface{}, error) {
+func (p *parser) callonRelativeLink203() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink202(stack["name"], stack["start"])
+	return p.cur.onRelativeLink203(stack["name"], stack["start"])
 }
 
-func (c *current) onRelativeLink155(element interface{}) (interface{}, error) {
+func (c *current) onRelativeLink156(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonRelativeLink155() (interface{}, error) {
+func (p *parser) callonRelativeLink156() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink155(stack["element"])
+	return p.cur.onRelativeLink156(stack["element"])
 }
 
-func (c *current) onRelativeLink228() (interface{}, error) {
+func (c *current) onRelativeLink229() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonRelativeLink228() (interface{}, error) {
+func (p *parser) callonRelativeLink229() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink228()
+	return p.cur.onRelativeLink229()
 }
 
-func (c *current) onRelativeLink224(ref interface{}) (interface{}, error) {
+func (c *current) onRelativeLink233(ref interface{}) (bool, error) {
+	return c.isPlaceHolder(ref.(string)) // otherwise, it's just the same characters
+
+}
+
+func (p *parser) callonRelativeLink233() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onRelativeLink233(stack["ref"])
+}
+
+func (c *current) onRelativeLink225(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
 
-func (p *parser) callonRelativeLink224() (interface{}, error) {
+func (p *parser) callonRelativeLink225() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink224(stack["ref"])
+	return p.cur.onRelativeLink225(stack["ref"])
 }
 
-func (c *current) onRelativeLink232() (interface{}, error) {
+func (c *current) onRelativeLink234() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonRelativeLink232() (interface{}, error) {
+func (p *parser) callonRelativeLink234() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink232()
+	return p.cur.onRelativeLink234()
 }
 
-func (c *current) onRelativeLink135(elements interface{}) (interface{}, error) {
+func (c *current) onRelativeLink136(elements interface{}) (interface{}, error) {
 	return types.NewInlineElements(elements.([]interface{}))
 
 }
 
-func (p *parser) callonRelativeLink135() (interface{}, error) {
+func (p *parser) callonRelativeLink136() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink135(stack["elements"])
+	return p.cur.onRelativeLink136(stack["elements"])
 }
 
-func (c *current) onRelativeLink123(scheme, path interface{}) (interface{}, error) {
+func (c *current) onRelativeLink124(scheme, path interface{}) (interface{}, error) {
 	return types.NewLocation(scheme, path.([]interface{}))
 
 }
 
-func (p *parser) callonRelativeLink123() (interface{}, error) {
+func (p *parser) callonRelativeLink124() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink123(stack["scheme"], stack["path"])
+	return p.cur.onRelativeLink124(stack["scheme"], stack["path"])
 }
 
-func (c *current) onRelativeLink119(url, attributes interface{}) (interface{}, error) {
+func (c *current) onRelativeLink120(url, attributes interface{}) (interface{}, error) {
 	return types.NewInlineLink(url.(*types.Location), attributes.(types.Attributes))
 
 }
 
-func (p *parser) callonRelativeLink119() (interface{}, error) {
+func (p *parser) callonRelativeLink120() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onRelativeLink119(stack["url"], stack["attributes"])
+	return p.cur.onRelativeLink120(stack["url"], stack["attributes"])
 }
 
 func (c *current) onExternalLink11() (interface{}, error) {
@@ -60518,6 +60685,17 @@ func (p *parser) callonExternalLink112() (interface{}, error) {
 	return p.cur.onExternalLink112()
 }
 
+func (c *current) onExternalLink116(ref interface{}) (bool, error) {
+	return c.isPlaceHolder(ref.(string)) // otherwise, it's just the same characters
+
+}
+
+func (p *parser) callonExternalLink116() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onExternalLink116(stack["ref"])
+}
+
 func (c *current) onExternalLink108(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
@@ -60528,15 +60706,15 @@ func (p *parser) callonExternalLink108() (interface{}, error) {
 	return p.cur.onExternalLink108(stack["ref"])
 }
 
-func (c *current) onExternalLink116() (interface{}, error) {
+func (c *current) onExternalLink117() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExternalLink116() (interface{}, error) {
+func (p *parser) callonExternalLink117() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink116()
+	return p.cur.onExternalLink117()
 }
 
 func (c *current) onExternalLink19(elements interface{}) (interface{}, error) {
@@ -60572,63 +60750,63 @@ func (p *parser) callonExternalLink2() (interface{}, error) {
 	return p.cur.onExternalLink2(stack["url"], stack["attributes"])
 }
 
-func (c *current) onExternalLink129() (interface{}, error) {
+func (c *current) onExternalLink130() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonExternalLink129() (interface{}, error) {
+func (p *parser) callonExternalLink130() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink129()
+	return p.cur.onExternalLink130()
 }
 
-func (c *current) onExternalLink141() (interface{}, error) {
+func (c *current) onExternalLink142() (interface{}, error) {
 	// excluding EOL, space, "{", "[", "]". Also, punctuation chars and `<` and `>` special chars are treated separately below
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExternalLink141() (interface{}, error) {
+func (p *parser) callonExternalLink142() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink141()
+	return p.cur.onExternalLink142()
 }
 
-func (c *current) onExternalLink152() (interface{}, error) {
+func (c *current) onExternalLink153() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExternalLink152() (interface{}, error) {
+func (p *parser) callonExternalLink153() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink152()
+	return p.cur.onExternalLink153()
 }
 
-func (c *current) onExternalLink159() (bool, error) {
+func (c *current) onExternalLink160() (bool, error) {
 	return c.isSubstitutionEnabled(AttributeRefs), nil
 
 }
 
-func (p *parser) callonExternalLink159() (bool, error) {
+func (p *parser) callonExternalLink160() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink159()
+	return p.cur.onExternalLink160()
 }
 
-func (c *current) onExternalLink166() (interface{}, error) {
+func (c *current) onExternalLink167() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExternalLink166() (interface{}, error) {
+func (p *parser) callonExternalLink167() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink166()
+	return p.cur.onExternalLink167()
 }
 
-func (c *current) onExternalLink162(name interface{}) (interface{}, error) {
+func (c *current) onExternalLink163(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -60636,218 +60814,229 @@ func (c *current) onExternalLink162(name interface{}) (interface{}, error) {
 
 }
 
-func (p *parser) callonExternalLink162() (interface{}, error) {
+func (p *parser) callonExternalLink163() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink162(stack["name"])
+	return p.cur.onExternalLink163(stack["name"])
 }
 
-func (c *current) onExternalLink176() (interface{}, error) {
+func (c *current) onExternalLink177() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExternalLink176() (interface{}, error) {
+func (p *parser) callonExternalLink177() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink176()
+	return p.cur.onExternalLink177()
 }
 
-func (c *current) onExternalLink172(name interface{}) (interface{}, error) {
+func (c *current) onExternalLink173(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonExternalLink172() (interface{}, error) {
+func (p *parser) callonExternalLink173() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink172(stack["name"])
+	return p.cur.onExternalLink173(stack["name"])
 }
 
-func (c *current) onExternalLink186() (interface{}, error) {
+func (c *current) onExternalLink187() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExternalLink186() (interface{}, error) {
+func (p *parser) callonExternalLink187() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink186()
+	return p.cur.onExternalLink187()
 }
 
-func (c *current) onExternalLink198() (interface{}, error) {
+func (c *current) onExternalLink199() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExternalLink198() (interface{}, error) {
+func (p *parser) callonExternalLink199() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink198()
+	return p.cur.onExternalLink199()
 }
 
-func (c *current) onExternalLink200() (interface{}, error) {
+func (c *current) onExternalLink201() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonExternalLink200() (interface{}, error) {
+func (p *parser) callonExternalLink201() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink200()
+	return p.cur.onExternalLink201()
 }
 
-func (c *current) onExternalLink193(start interface{}) (interface{}, error) {
+func (c *current) onExternalLink194(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonExternalLink193() (interface{}, error) {
+func (p *parser) callonExternalLink194() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink193(stack["start"])
+	return p.cur.onExternalLink194(stack["start"])
 }
 
-func (c *current) onExternalLink182(name, start interface{}) (interface{}, error) {
+func (c *current) onExternalLink183(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
 }
 
-func (p *parser) callonExternalLink182() (interface{}, error) {
+func (p *parser) callonExternalLink183() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink182(stack["name"], stack["start"])
+	return p.cur.onExternalLink183(stack["name"], stack["start"])
 }
 
-func (c *current) onExternalLink208() (interface{}, error) {
+func (c *current) onExternalLink209() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExternalLink208() (interface{}, error) {
+func (p *parser) callonExternalLink209() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink208()
+	return p.cur.onExternalLink209()
 }
 
-func (c *current) onExternalLink220() (interface{}, error) {
+func (c *current) onExternalLink221() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExternalLink220() (interface{}, error) {
+func (p *parser) callonExternalLink221() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink220()
+	return p.cur.onExternalLink221()
 }
 
-func (c *current) onExternalLink222() (interface{}, error) {
+func (c *current) onExternalLink223() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonExternalLink222() (interface{}, error) {
+func (p *parser) callonExternalLink223() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink222()
+	return p.cur.onExternalLink223()
 }
 
-func (c *current) onExternalLink215(start interface{}) (interface{}, error) {
+func (c *current) onExternalLink216(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonExternalLink215() (interface{}, error) {
+func (p *parser) callonExternalLink216() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink215(stack["start"])
+	return p.cur.onExternalLink216(stack["start"])
 }
 
-func (c *current) onExternalLink204(name, start interface{}) (interface{}, error) {
+func (c *current) onExternalLink205(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
 }
 
-func (p *parser) callonExternalLink204() (interface{}, error) {
+func (p *parser) callonExternalLink205() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink204(stack["name"], stack["start"])
+	return p.cur.onExternalLink205(stack["name"], stack["start"])
 }
 
-func (c *current) onExternalLink157(element interface{}) (interface{}, error) {
+func (c *current) onExternalLink158(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonExternalLink157() (interface{}, error) {
+func (p *parser) callonExternalLink158() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink157(stack["element"])
+	return p.cur.onExternalLink158(stack["element"])
 }
 
-func (c *current) onExternalLink230() (interface{}, error) {
+func (c *current) onExternalLink231() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonExternalLink230() (interface{}, error) {
+func (p *parser) callonExternalLink231() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink230()
+	return p.cur.onExternalLink231()
+}
+
+func (c *current) onExternalLink235(ref interface{}) (bool, error) {
+	return c.isPlaceHolder(ref.(string)) // otherwise, it's just the same characters
+
 }
 
-func (c *current) onExternalLink226(ref interface{}) (interface{}, error) {
+func (p *parser) callonExternalLink235() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onExternalLink235(stack["ref"])
+}
+
+func (c *current) onExternalLink227(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
 
-func (p *parser) callonExternalLink226() (interface{}, error) {
+func (p *parser) callonExternalLink227() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink226(stack["ref"])
+	return p.cur.onExternalLink227(stack["ref"])
 }
 
-func (c *current) onExternalLink234() (interface{}, error) {
+func (c *current) onExternalLink236() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExternalLink234() (interface{}, error) {
+func (p *parser) callonExternalLink236() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink234()
+	return p.cur.onExternalLink236()
 }
 
-func (c *current) onExternalLink137(elements interface{}) (interface{}, error) {
+func (c *current) onExternalLink138(elements interface{}) (interface{}, error) {
 	return types.NewInlineElements(elements.([]interface{}))
 
 }
 
-func (p *parser) callonExternalLink137() (interface{}, error) {
+func (p *parser) callonExternalLink138() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink137(stack["elements"])
+	return p.cur.onExternalLink138(stack["elements"])
 }
 
-func (c *current) onExternalLink124(scheme, path interface{}) (interface{}, error) {
+func (c *current) onExternalLink125(scheme, path interface{}) (interface{}, error) {
 	return types.NewLocation(scheme, path.([]interface{}))
 
 }
 
-func (p *parser) callonExternalLink124() (interface{}, error) {
+func (p *parser) callonExternalLink125() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink124(stack["scheme"], stack["path"])
+	return p.cur.onExternalLink125(stack["scheme"], stack["path"])
 }
 
-func (c *current) onExternalLink121(url, attributes interface{}) (interface{}, error) {
+func (c *current) onExternalLink122(url, attributes interface{}) (interface{}, error) {
 	return types.NewInlineLink(url.(*types.Location), attributes)
 
 }
 
-func (p *parser) callonExternalLink121() (interface{}, error) {
+func (p *parser) callonExternalLink122() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExternalLink121(stack["url"], stack["attributes"])
+	return p.cur.onExternalLink122(stack["url"], stack["attributes"])
 }
 
 func (c *current) onListElements11() (interface{}, error) {
@@ -70024,6 +70213,17 @@ func (p *parser) callonQuotedTextElement146() (interface{}, error) {
 	return p.cur.onQuotedTextElement146()
 }
 
+func (c *current) onQuotedTextElement150(ref interface{}) (bool, error) {
+	return c.isPlaceHolder(ref.(string)) // otherwise, it's just the same characters
+
+}
+
+func (p *parser) callonQuotedTextElement150() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onQuotedTextElement150(stack["ref"])
+}
+
 func (c *current) onQuotedTextElement142(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
@@ -70034,7 +70234,7 @@ func (p *parser) callonQuotedTextElement142() (interface{}, error) {
 	return p.cur.onQuotedTextElement142(stack["ref"])
 }
 
-func (c *current) onQuotedTextElement150() (interface{}, error) {
+func (c *current) onQuotedTextElement151() (interface{}, error) {
 
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("matching anychar '%s' at position %v", string(c.text), c.pos.String())
@@ -70043,10 +70243,10 @@ func (c *current) onQuotedTextElement150() (interface{}, error) {
 
 }
 
-func (p *parser) callonQuotedTextElement150() (interface{}, error) {
+func (p *parser) callonQuotedTextElement151() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement150()
+	return p.cur.onQuotedTextElement151()
 }
 
 func (c *current) onDoubleQuoteBoldText1(elements interface{}) (interface{}, error) {
@@ -71446,6 +71646,17 @@ func (p *parser) callonSectionTitleLineElement141() (interface{}, error) {
 	return p.cur.onSectionTitleLineElement141()
 }
 
+func (c *current) onSectionTitleLineElement145(ref interface{}) (bool, error) {
+	return c.isPlaceHolder(ref.(string)) // otherwise, it's just the same characters
+
+}
+
+func (p *parser) callonSectionTitleLineElement145() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSectionTitleLineElement145(stack["ref"])
+}
+
 func (c *current) onSectionTitleLineElement137(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
@@ -71456,72 +71667,83 @@ func (p *parser) callonSectionTitleLineElement137() (interface{}, error) {
 	return p.cur.onSectionTitleLineElement137(stack["ref"])
 }
 
-func (c *current) onSectionTitleLineElement147() (bool, error) {
+func (c *current) onSectionTitleLineElement148() (bool, error) {
 	return c.isPrecededBySpace(), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement147() (bool, error) {
+func (p *parser) callonSectionTitleLineElement148() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement147()
+	return p.cur.onSectionTitleLineElement148()
 }
 
-func (c *current) onSectionTitleLineElement157() (interface{}, error) {
+func (c *current) onSectionTitleLineElement158() (interface{}, error) {
 	// spaces, commas and dots are allowed in this syntax
 	return types.NewStringElement(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleLineElement157() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement158() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement157()
+	return p.cur.onSectionTitleLineElement158()
 }
 
-func (c *current) onSectionTitleLineElement164() (interface{}, error) {
+func (c *current) onSectionTitleLineElement165() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonSectionTitleLineElement164() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement165() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement164()
+	return p.cur.onSectionTitleLineElement165()
+}
+
+func (c *current) onSectionTitleLineElement169(ref interface{}) (bool, error) {
+	return c.isPlaceHolder(ref.(string)) // otherwise, it's just the same characters
+
 }
 
-func (c *current) onSectionTitleLineElement160(ref interface{}) (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement169() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSectionTitleLineElement169(stack["ref"])
+}
+
+func (c *current) onSectionTitleLineElement161(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
 
-func (p *parser) callonSectionTitleLineElement160() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement161() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement160(stack["ref"])
+	return p.cur.onSectionTitleLineElement161(stack["ref"])
 }
 
-func (c *current) onSectionTitleLineElement170() (bool, error) {
+func (c *current) onSectionTitleLineElement172() (bool, error) {
 	return c.isSubstitutionEnabled(AttributeRefs), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement170() (bool, error) {
+func (p *parser) callonSectionTitleLineElement172() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement170()
+	return p.cur.onSectionTitleLineElement172()
 }
 
-func (c *current) onSectionTitleLineElement177() (interface{}, error) {
+func (c *current) onSectionTitleLineElement179() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement177() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement179() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement177()
+	return p.cur.onSectionTitleLineElement179()
 }
 
-func (c *current) onSectionTitleLineElement173(name interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement175(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -71529,292 +71751,292 @@ func (c *current) onSectionTitleLineElement173(name interface{}) (interface{}, e
 
 }
 
-func (p *parser) callonSectionTitleLineElement173() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement175() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement173(stack["name"])
+	return p.cur.onSectionTitleLineElement175(stack["name"])
 }
 
-func (c *current) onSectionTitleLineElement187() (interface{}, error) {
+func (c *current) onSectionTitleLineElement189() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement187() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement189() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement187()
+	return p.cur.onSectionTitleLineElement189()
 }
 
-func (c *current) onSectionTitleLineElement183(name interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement185(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleLineElement183() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement185() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement183(stack["name"])
+	return p.cur.onSectionTitleLineElement185(stack["name"])
 }
 
-func (c *current) onSectionTitleLineElement197() (interface{}, error) {
+func (c *current) onSectionTitleLineElement199() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement197() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement199() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement197()
+	return p.cur.onSectionTitleLineElement199()
 }
 
-func (c *current) onSectionTitleLineElement209() (interface{}, error) {
+func (c *current) onSectionTitleLineElement211() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement209() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement211() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement209()
+	return p.cur.onSectionTitleLineElement211()
 }
 
-func (c *current) onSectionTitleLineElement211() (interface{}, error) {
+func (c *current) onSectionTitleLineElement213() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleLineElement211() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement213() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement211()
+	return p.cur.onSectionTitleLineElement213()
 }
 
-func (c *current) onSectionTitleLineElement204(start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement206(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement204() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement206() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement204(stack["start"])
+	return p.cur.onSectionTitleLineElement206(stack["start"])
 }
 
-func (c *current) onSectionTitleLineElement193(name, start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement195(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
 }
 
-func (p *parser) callonSectionTitleLineElement193() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement195() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement193(stack["name"], stack["start"])
+	return p.cur.onSectionTitleLineElement195(stack["name"], stack["start"])
 }
 
-func (c *current) onSectionTitleLineElement219() (interface{}, error) {
+func (c *current) onSectionTitleLineElement221() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement219() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement221() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement219()
+	return p.cur.onSectionTitleLineElement221()
 }
 
-func (c *current) onSectionTitleLineElement231() (interface{}, error) {
+func (c *current) onSectionTitleLineElement233() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement231() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement233() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement231()
+	return p.cur.onSectionTitleLineElement233()
 }
 
-func (c *current) onSectionTitleLineElement233() (interface{}, error) {
+func (c *current) onSectionTitleLineElement235() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleLineElement233() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement235() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement233()
+	return p.cur.onSectionTitleLineElement235()
 }
 
-func (c *current) onSectionTitleLineElement226(start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement228(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement226() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement228() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement226(stack["start"])
+	return p.cur.onSectionTitleLineElement228(stack["start"])
 }
 
-func (c *current) onSectionTitleLineElement215(name, start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement217(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
 }
 
-func (p *parser) callonSectionTitleLineElement215() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement217() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement215(stack["name"], stack["start"])
+	return p.cur.onSectionTitleLineElement217(stack["name"], stack["start"])
 }
 
-func (c *current) onSectionTitleLineElement168(element interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement170(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement168() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement170() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement168(stack["element"])
+	return p.cur.onSectionTitleLineElement170(stack["element"])
 }
 
-func (c *current) onSectionTitleLineElement237() (interface{}, error) {
+func (c *current) onSectionTitleLineElement239() (interface{}, error) {
 
 	return types.NewStringElement(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleLineElement237() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement239() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement237()
+	return p.cur.onSectionTitleLineElement239()
 }
 
-func (c *current) onSectionTitleLineElement153(elements interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement154(elements interface{}) (interface{}, error) {
 	return types.Reduce(elements, strings.TrimSpace), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement153() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement154() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement153(stack["elements"])
+	return p.cur.onSectionTitleLineElement154(stack["elements"])
 }
 
-func (c *current) onSectionTitleLineElement149(id interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement150(id interface{}) (interface{}, error) {
 	return types.NewIDAttribute(id)
 
 }
 
-func (p *parser) callonSectionTitleLineElement149() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement150() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement149(stack["id"])
+	return p.cur.onSectionTitleLineElement150(stack["id"])
 }
 
-func (c *current) onSectionTitleLineElement241() (interface{}, error) {
+func (c *current) onSectionTitleLineElement243() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement241() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement243() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement241()
+	return p.cur.onSectionTitleLineElement243()
 }
 
-func (c *current) onSectionTitleLineElement245() (interface{}, error) {
+func (c *current) onSectionTitleLineElement247() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonSectionTitleLineElement245() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement247() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement245()
+	return p.cur.onSectionTitleLineElement247()
 }
 
-func (c *current) onSectionTitleLineElement145(id interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement146(id interface{}) (interface{}, error) {
 
 	return id, nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement145() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement146() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement145(stack["id"])
+	return p.cur.onSectionTitleLineElement146(stack["id"])
 }
 
-func (c *current) onSectionTitleLineElement256() (interface{}, error) {
+func (c *current) onSectionTitleLineElement258() (interface{}, error) {
 	// previously:(Alphas / (!Newline !Space !"[" !"]" !"<<" !">>" !","  .))+
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement256() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement258() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement256()
+	return p.cur.onSectionTitleLineElement258()
 }
 
-func (c *current) onSectionTitleLineElement252(id interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement254(id interface{}) (interface{}, error) {
 	return types.NewStringElement(strings.TrimPrefix(string(c.text), `\`))
 
 }
 
-func (p *parser) callonSectionTitleLineElement252() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement254() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement252(stack["id"])
+	return p.cur.onSectionTitleLineElement254(stack["id"])
 }
 
-func (c *current) onSectionTitleLineElement264() (interface{}, error) {
+func (c *current) onSectionTitleLineElement266() (interface{}, error) {
 	// previously:(Alphas / (!Newline !Space !"[" !"]" !"<<" !">>" !","  .))+
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement264() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement266() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement264()
+	return p.cur.onSectionTitleLineElement266()
 }
 
-func (c *current) onSectionTitleLineElement260(id interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement262(id interface{}) (interface{}, error) {
 	// no EOL here since there can be multiple InlineElementID on the same line
 	return types.NewInlineAnchor(id.(string))
 
 }
 
-func (p *parser) callonSectionTitleLineElement260() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement262() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement260(stack["id"])
+	return p.cur.onSectionTitleLineElement262(stack["id"])
 }
 
-func (c *current) onSectionTitleLineElement270() (interface{}, error) {
+func (c *current) onSectionTitleLineElement272() (interface{}, error) {
 	return c.currentLine(), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement270() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement272() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement270()
+	return p.cur.onSectionTitleLineElement272()
 }
 
-func (c *current) onSectionTitleLineElement272(start, element, end interface{}) (bool, error) {
+func (c *current) onSectionTitleLineElement274(start, element, end interface{}) (bool, error) {
 	return start == end, nil // titles are on a single line
 
 }
 
-func (p *parser) callonSectionTitleLineElement272() (bool, error) {
+func (p *parser) callonSectionTitleLineElement274() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement272(stack["start"], stack["element"], stack["end"])
+	return p.cur.onSectionTitleLineElement274(stack["start"], stack["element"], stack["end"])
 }
 
 func (c *current) onSectionTitleLineElement1(start, element, end interface{}) (interface{}, error) {
@@ -72261,6 +72483,17 @@ func (p *parser) callonNormalGroup166() (interface{}, error) {
 	return p.cur.onNormalGroup166()
 }
 
+func (c *current) onNormalGroup170(ref interface{}) (bool, error) {
+	return c.isPlaceHolder(ref.(string)) // otherwise, it's just the same characters
+
+}
+
+func (p *parser) callonNormalGroup170() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onNormalGroup170(stack["ref"])
+}
+
 func (c *current) onNormalGroup162(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
@@ -72271,7 +72504,7 @@ func (p *parser) callonNormalGroup162() (interface{}, error) {
 	return p.cur.onNormalGroup162(stack["ref"])
 }
 
-func (c *current) onNormalGroup170() (interface{}, error) {
+func (c *current) onNormalGroup171() (interface{}, error) {
 
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("matching anychar '%s' at position %v", string(c.text), c.pos.String())
@@ -72280,10 +72513,10 @@ func (c *current) onNormalGroup170() (interface{}, error) {
 
 }
 
-func (p *parser) callonNormalGroup170() (interface{}, error) {
+func (p *parser) callonNormalGroup171() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup170()
+	return p.cur.onNormalGroup171()
 }
 
 func (c *current) onNormalGroup5(element interface{}) (interface{}, error) {
@@ -72447,6 +72680,17 @@ func (p *parser) callonAttributeStructuredValueElement55() (interface{}, error)
 	return p.cur.onAttributeStructuredValueElement55()
 }
 
+func (c *current) onAttributeStructuredValueElement59(ref interface{}) (bool, error) {
+	return c.isPlaceHolder(ref.(string)) // otherwise, it's just the same characters
+
+}
+
+func (p *parser) callonAttributeStructuredValueElement59() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onAttributeStructuredValueElement59(stack["ref"])
+}
+
 func (c *current) onAttributeStructuredValueElement51(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
@@ -72457,18 +72701,18 @@ func (p *parser) callonAttributeStructuredValueElement51() (interface{}, error)
 	return p.cur.onAttributeStructuredValueElement51(stack["ref"])
 }
 
-func (c *current) onAttributeStructuredValueElement59() (interface{}, error) {
+func (c *current) onAttributeStructuredValueElement60() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonAttributeStructuredValueElement59() (interface{}, error) {
+func (p *parser) callonAttributeStructuredValueElement60() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement59()
+	return p.cur.onAttributeStructuredValueElement60()
 }
 
-func (c *current) onAttributeStructuredValueElement64() (interface{}, error) {
+func (c *current) onAttributeStructuredValueElement65() (interface{}, error) {
 
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("matching anychar '%s' at position %v", string(c.text), c.pos.String())
@@ -72477,10 +72721,10 @@ func (c *current) onAttributeStructuredValueElement64() (interface{}, error) {
 
 }
 
-func (p *parser) callonAttributeStructuredValueElement64() (interface{}, error) {
+func (p *parser) callonAttributeStructuredValueElement65() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement64()
+	return p.cur.onAttributeStructuredValueElement65()
 }
 
 func (c *current) onAttributeStructuredValueElement1(element interface{}) (interface{}, error) {
@@ -73844,6 +74088,17 @@ func (p *parser) callonFileLocation96() (interface{}, error) {
 	return p.cur.onFileLocation96()
 }
 
+func (c *current) onFileLocation100(ref interface{}) (bool, error) {
+	return c.isPlaceHolder(ref.(string)) // otherwise, it's just the same characters
+
+}
+
+func (p *parser) callonFileLocation100() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onFileLocation100(stack["ref"])
+}
+
 func (c *current) onFileLocation92(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
@@ -73854,15 +74109,15 @@ func (p *parser) callonFileLocation92() (interface{}, error) {
 	return p.cur.onFileLocation92(stack["ref"])
 }
 
-func (c *current) onFileLocation100() (interface{}, error) {
+func (c *current) onFileLocation101() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFileLocation100() (interface{}, error) {
+func (p *parser) callonFileLocation101() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFileLocation100()
+	return p.cur.onFileLocation101()
 }
 
 func (c *current) onFileLocation3(elements interface{}) (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 469e79c..8522467 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -1194,7 +1194,11 @@ DocumentRevisionRemark <- [^\r\r\n]+ {
 // -------------------------------------------------------------------------------------
 ElementPlaceHolderDelimiter <- "\uFFFD"
 
-ElementPlaceHolder <- ElementPlaceHolderDelimiter ref:([0-9]+ { return string(c.text), nil }) ElementPlaceHolderDelimiter {
+ElementPlaceHolder <- ElementPlaceHolderDelimiter ref:([0-9]+ { return string(c.text), nil }) ElementPlaceHolderDelimiter 
+    &{
+        return c.isPlaceHolder(ref.(string)) // otherwise, it's just the same characters
+    }
+{
     return types.NewElementPlaceHolder(ref.(string))
 }
 
-- 
2.43.0


From 3bcd656169f1ee465f1ae6f14072f80f25877c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:00 +0000
Subject: [PATCH 103/143] fix: conversion failed on references to attributes
 within quoted texts of 'pass:q[]'

---
 ...document_processing_apply_substitutions.go | 49 +++++++++++++++++++
 pkg/types/types.go                            | 10 ++++
 2 files changed, 59 insertions(+)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 6c76e53..462ec0d 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -521,6 +521,8 @@ func replaceAttributeRefsInElementsAndReparse(ctx *ParseContext, elements []inte
 				}
 				e.Label = l
 			}
+		case *types.InlinePassthrough:
+			keepAttributeRefs(e.Elements)
 		case types.WithElements: // if `subs=macros,attributes`, then replace within inline macros
 			// in attributes
 			if err := replaceAttributeRefsInAttributeValues(ctx, e.GetAttributes()); err != nil {
@@ -561,6 +563,53 @@ func replaceAttributeRefsInElementsAndReparse(ctx *ParseContext, elements []inte
 	return elements, nil
 }
 
+// keepAttributeRefs makes text of the references to attributes in the quoted texts of a passthrough
+// (eg: `pass:q[*{name}*]`), since there is no such substitution there
+func keepAttributeRefs(elements []interface{}) {
+	for i, e := range elements {
+		switch e := e.(type) {
+		case *types.AttributeReference:
+			elements[i] = &types.StringElement{
+				Content: e.RawText(),
+			}
+		case *types.CounterSubstitution:
+			elements[i] = &types.StringElement{
+				Content: e.RawText(),
+			}
+		case *types.Footnote:
+			keepAttributeRefs(e.Elements)
+		case types.WithElements:
+			keepAttributeRefsInAttributes(e.GetAttributes())
+			keepAttributeRefs(e.GetElements())
+		case types.WithLocation:
+			keepAttributeRefsInAttributes(e.GetAttributes())
+			if e.GetLocation() != nil {
+				if p, ok := e.GetLocation().Path.([]interface{}); ok {
+					keepAttributeRefs(p)
+					e.GetLocation().Path = types.Reduce(p)
+				}
+			}
+		}
+	}
+}
+
+func keepAttributeRefsInAttributes(attrs types.Attributes) {
+	for k, v := range attrs {
+		switch v := v.(type) {
+		case []interface{}:
+			keepAttributeRefs(v)
+			attrs[k] = types.Reduce(v)
+		case types.Roles:
+			for i, r := range v {
+				if r, ok := r.([]interface{}); ok {
+					keepAttributeRefs(r)
+					v[i] = types.Reduce(r)
+				}
+			}
+		}
+	}
+}
+
 func replaceAttributeRefsInElements(ctx *ParseContext, elements []interface{}) ([]interface{}, error) {
 	for i, e := range elements {
 		switch e := e.(type) {
diff --git a/pkg/types/types.go b/pkg/types/types.go
index 89313c1..dfeeee9 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -724,6 +724,11 @@ func NewAttributeReference(name, rawText string) (interface{}, error) {
 		nil
 }
 
+// RawText returns the raw text of this reference as it was in the source
+func (a *AttributeReference) RawText() string {
+	return a.rawText
+}
+
 // PredefinedAttribute a special kind of attribute substitution, which
 // uses a predefined attribute
 type PredefinedAttribute AttributeReference
@@ -750,6 +755,11 @@ func NewCounterSubstitution(name string, hidden bool, val interface{}, rawText s
 	}, nil
 }
 
+// RawText returns the raw text of this counter as it was in the source
+func (c *CounterSubstitution) RawText() string {
+	return c.rawText
+}
+
 // ------------------------------------------
 // Preamble
 // ------------------------------------------
-- 
2.43.0


From b2243ec50bad3349bd0b51ac628af23f5b1ae411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:14 +0000
Subject: [PATCH 104/143] fix: conversion failed on highlighted sources with
 quoted texts or links

---
 pkg/renderer/sgml/delimited_block_source.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pkg/renderer/sgml/delimited_block_source.go b/pkg/renderer/sgml/delimited_block_source.go
index 75150fa..12f6105 100644
--- a/pkg/renderer/sgml/delimited_block_source.go
+++ b/pkg/renderer/sgml/delimited_block_source.go
@@ -75,7 +75,7 @@ func (r *sgmlRenderer) renderSourceBlockElements(ctx *context, b *types.Delimite
 	language := b.Attributes.GetAsStringWithDefault(types.AttrLanguage, "")
 
 	// render without syntax highlight
-	if language == "" || (highlighter != "chroma" && highlighter != "pygments") {
+	if language == "" || (highlighter != "chroma" && highlighter != "pygments") || !isHighlightable(b.Elements) {
 		log.Debug("rendering souce block without syntax highlighting")
 		content, err := r.renderElements(ctx, b.Elements)
 		return content, highlighter, language, err
@@ -146,6 +146,18 @@ func (r *sgmlRenderer) renderSourceBlockElements(ctx *context, b *types.Delimite
 	return result.String(), highlighter, language, nil
 }
 
+// isHighlightable checks that there are no other elements (eg: quoted texts or links) within the text of the source
+func isHighlightable(elements []interface{}) bool {
+	for _, e := range elements {
+		switch e.(type) {
+		case *types.StringElement, *types.SpecialCharacter, *types.Callout:
+		default:
+			return false
+		}
+	}
+	return true
+}
+
 func (r *sgmlRenderer) renderSourceLine(_ *context, line interface{}) (string, []*types.Callout, error) {
 	elements, ok := line.([]interface{})
 	if !ok {
-- 
2.43.0


From 2518d8501174c7176003a440d4223f5b0f5de749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:44 +0000
Subject: [PATCH 105/143] fix: an extra blank line was rendered after comments
 in highlighted sources

---
 pkg/renderer/sgml/delimited_block_source.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pkg/renderer/sgml/delimited_block_source.go b/pkg/renderer/sgml/delimited_block_source.go
index 12f6105..596ff50 100644
--- a/pkg/renderer/sgml/delimited_block_source.go
+++ b/pkg/renderer/sgml/delimited_block_source.go
@@ -123,6 +123,9 @@ func (r *sgmlRenderer) renderSourceBlockElements(ctx *context, b *types.Delimite
 		if err != nil {
 			return "", "", "", err
 		}
+		if len(callouts) == 0 {
+			iterator = withoutTrailingNewline(iterator)
+		}
 		if err = html.New(options...).Format(highlightedLineBuf, style, iterator); err != nil {
 			return "", "", "", err
 		}
@@ -146,6 +149,19 @@ func (r *sgmlRenderer) renderSourceBlockElements(ctx *context, b *types.Delimite
 	return result.String(), highlighter, language, nil
 }
 
+// withoutTrailingNewline removes the newline that some lexers append to the line (eg: after a comment in Go)
+func withoutTrailingNewline(iterator chroma.Iterator) chroma.Iterator {
+	tokens := iterator.Tokens()
+	for len(tokens) > 0 {
+		last := &tokens[len(tokens)-1]
+		if last.Value = strings.TrimRight(last.Value, "\n"); last.Value != "" {
+			break
+		}
+		tokens = tokens[:len(tokens)-1]
+	}
+	return chroma.Literator(tokens...)
+}
+
 // isHighlightable checks that there are no other elements (eg: quoted texts or links) within the text of the source
 func isHighlightable(elements []interface{}) bool {
 	for _, e := range elements {
-- 
2.43.0


From f4467fb28b000addcbd52e05d1421be560df88b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:59 +0000
Subject: [PATCH 106/143] fix: conversion failed on footnotes, references to
 attributes and comments within index terms, and on references in quoted texts
 of titles

---
 ...document_processing_apply_substitutions.go | 18 +++++++++
 pkg/renderer/sgml/render_plain_text.go        | 39 +++++++++++++++++++
 pkg/types/types.go                            |  4 ++
 3 files changed, 61 insertions(+)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 462ec0d..79855d4 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -513,6 +513,12 @@ func replaceAttributeRefsInElementsAndReparse(ctx *ParseContext, elements []inte
 				return nil, err
 			}
 			e.Elements = elmts
+		case *types.IndexTerm:
+			term, err := replaceAttributeRefsInElementsAndReparse(ctx, e.Term, subs, opts...)
+			if err != nil {
+				return nil, err
+			}
+			e.Term = term
 		case *types.InternalCrossReference:
 			if label, ok := e.Label.([]interface{}); ok {
 				l, err := replaceAttributeRefsInSlicedValue(ctx, label)
@@ -908,6 +914,18 @@ func (p *placeholders) restore(elements []interface{}) ([]interface{}, error) {
 		switch e := e.(type) {
 		case *types.ElementPlaceHolder:
 			elements[i] = p.elements[e.Ref]
+		case *types.Footnote:
+			elmts, err := p.restore(e.Elements)
+			if err != nil {
+				return nil, err
+			}
+			e.Elements = elmts
+		case *types.IndexTerm:
+			elmts, err := p.restore(e.Term)
+			if err != nil {
+				return nil, err
+			}
+			e.Term = elmts
 		case types.WithElements:
 			elmts, err := p.restore(e.GetElements())
 			if err != nil {
diff --git a/pkg/renderer/sgml/render_plain_text.go b/pkg/renderer/sgml/render_plain_text.go
index 2256bd6..f23277d 100644
--- a/pkg/renderer/sgml/render_plain_text.go
+++ b/pkg/renderer/sgml/render_plain_text.go
@@ -79,6 +79,22 @@ func (r *plaintextRenderer) render(element interface{}) (string, error) {
 		return predefinedAttribute(e.Name), nil
 	case *types.InlinePassthrough:
 		return r.renderInlinePassthrough(e)
+	case *types.InternalCrossReference:
+		return r.renderInternalCrossReference(e)
+	case *types.ExternalCrossReference:
+		return r.renderExternalCrossReference(e)
+	case *types.InlineButton:
+		return r.escape(e.Attributes.GetAsStringWithDefault(types.AttrButtonLabel, "")), nil
+	case *types.InlineMenu:
+		return r.escape(strings.Join(e.Path, " > ")), nil
+	case *types.IndexTerm:
+		return r.renderInlineElements(e.Term)
+	case *types.ConcealedIndexTerm:
+		return "", nil
+	case *types.LineBreak:
+		return " ", nil
+	case *types.UserMacro:
+		return r.escape(e.RawText), nil
 	default:
 		return "", errors.Errorf("unable to render plain string for element of type '%T'", e)
 	}
@@ -138,3 +154,26 @@ func (r *plaintextRenderer) renderFootnoteReference(note *types.FootnoteReferenc
 	}
 	return "[" + r.escape(note.Ref) + "]"
 }
+
+func (r *plaintextRenderer) renderInternalCrossReference(xref *types.InternalCrossReference) (string, error) {
+	switch label := xref.Label.(type) {
+	case []interface{}:
+		return r.render(label)
+	case string:
+		return r.escape(label), nil
+	default:
+		id, _ := xref.ID.(string)
+		return "[" + r.escape(id) + "]", nil
+	}
+}
+
+func (r *plaintextRenderer) renderExternalCrossReference(xref *types.ExternalCrossReference) (string, error) {
+	switch label := xref.Attributes[types.AttrXRefLabel].(type) {
+	case []interface{}:
+		return r.render(label)
+	case string:
+		return r.escape(label), nil
+	default:
+		return r.escape(defaultXrefLabel(xref)), nil
+	}
+}
diff --git a/pkg/types/types.go b/pkg/types/types.go
index dfeeee9..515b14d 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -2218,6 +2218,10 @@ func substituteFootnotes(elements []interface{}, notes *Footnotes) {
 			substituteFootnotes([]interface{}{e.Element}, notes)
 		case *DocumentHeader:
 			substituteFootnotes(e.Title, notes)
+		case *IndexTerm:
+			substituteFootnotes(e.Term, notes)
+		case *InlinePassthrough:
+			substituteFootnotes(e.Elements, notes)
 		case WithFootnotes:
 			e.SubstituteFootnotes(notes)
 		case WithElements:
-- 
2.43.0


From 24547c3b4416e87ff62156c9eeae8b1f68d0c147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:29 +0000
Subject: [PATCH 107/143] fix: cross references to an element within its own
 title crashed the process

---
 pkg/renderer/sgml/context.go         | 2 ++
 pkg/renderer/sgml/cross_reference.go | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/renderer/sgml/context.go b/pkg/renderer/sgml/context.go
index c086759..460cb7e 100644
--- a/pkg/renderer/sgml/context.go
+++ b/pkg/renderer/sgml/context.go
@@ -19,6 +19,7 @@ type context struct {
 	sectionIDs           map[string]string // by lower case ID, since this is how they are rendered
 	hasHeader            bool
 	sectionNumbering     types.SectionNumbers
+	labels               map[string]struct{} // IDs of the elements whose title is being rendered as the label of a cross reference
 }
 
 // newContext returns a new rendering context for the given document.
@@ -31,6 +32,7 @@ func newContext(doc *types.Document, config *configuration.Configuration) *conte
 		elementReferences: doc.ElementReferences,
 		sectionIDs:        make(map[string]string),
 		hasHeader:         header != nil,
+		labels:            make(map[string]struct{}),
 	}
 	ctx.addSectionIDs(doc.Elements)
 	// TODO: add other attributes from https://docs.asciidoctor.org/asciidoc/latest/attributes/document-attributes-ref/#builtin-attributes-i18n
diff --git a/pkg/renderer/sgml/cross_reference.go b/pkg/renderer/sgml/cross_reference.go
index 66195b1..f9e363b 100644
--- a/pkg/renderer/sgml/cross_reference.go
+++ b/pkg/renderer/sgml/cross_reference.go
@@ -23,7 +23,9 @@ func (r *sgmlRenderer) renderInternalCrossReference(ctx *context, xref *types.In
 	href, target, found := ctx.resolveReference(xrefID)
 	if xrefLabel, ok := xref.Label.(string); ok {
 		label = escapeString(xrefLabel)
-	} else if found {
+	} else if _, within := ctx.labels[href]; found && !within { // a title may have a cross reference to itself
+		ctx.labels[href] = struct{}{}
+		defer delete(ctx.labels, href)
 		switch t := target.(type) {
 		case string:
 			label = escapeString(t)
-- 
2.43.0


From bd68e5ad6f5eb246f58e0942d63d22fb31fef2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:45 +0000
Subject: [PATCH 108/143] fix: comments within footnotes, links and index terms
 on many lines were rendered as placeholders, or made the conversion fail

---
 ...document_processing_apply_substitutions.go | 32 +++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 79855d4..68fe30a 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -737,6 +737,10 @@ func parseWithSubstitutions(content interface{}, subs *substitutions, opts ...Op
 	if err != nil {
 		return nil, err
 	}
+	if elmts, ok := content.([]interface{}); ok && placeholders.hasCommentsWithin(elements) {
+		// ignore the comments which are within an inline element on many lines (eg: a footnote)
+		return parseWithSubstitutions(withoutComments(elmts), subs, opts...)
+	}
 	elements, err = placeholders.restore(elements)
 	if err != nil {
 		return nil, err
@@ -908,6 +912,34 @@ func (p *placeholders) add(element interface{}) *types.ElementPlaceHolder {
 
 }
 
+// hasCommentsWithin checks if there are comments which are not at the top level of the given elements
+func (p *placeholders) hasCommentsWithin(elements []interface{}) bool {
+	comments := 0
+	for _, e := range p.elements {
+		if _, ok := e.(*types.SinglelineComment); ok {
+			comments++
+		}
+	}
+	for _, e := range elements {
+		if e, ok := e.(*types.ElementPlaceHolder); ok {
+			if _, ok := p.elements[e.Ref].(*types.SinglelineComment); ok {
+				comments--
+			}
+		}
+	}
+	return comments > 0
+}
+
+func withoutComments(elements []interface{}) []interface{} {
+	result := make([]interface{}, 0, len(elements))
+	for _, e := range elements {
+		if _, ok := e.(*types.SinglelineComment); !ok {
+			result = append(result, e)
+		}
+	}
+	return result
+}
+
 // replace the placeholders with their original element in the given elements
 func (p *placeholders) restore(elements []interface{}) ([]interface{}, error) {
 	for i, e := range elements {
-- 
2.43.0


From 2624d88466232b214f5aa47cdf74da007b3f0bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:22 +0000
Subject: [PATCH 109/143] fix: conversion failed on lists in AsciiDoc cells of
 tables

---
 .../document_processing_arrange_lists.go      | 34 ++++++++++++++++++-
 .../document_processing_refine_fragments.go   |  5 +++
 2 files changed, 38 insertions(+), 1 deletion(-)

diff --git a/pkg/parser/document_processing_arrange_lists.go b/pkg/parser/document_processing_arrange_lists.go
index 25f3e00..2325026 100644
--- a/pkg/parser/document_processing_arrange_lists.go
+++ b/pkg/parser/document_processing_arrange_lists.go
@@ -58,6 +58,11 @@ func arrangeListElements(elements []interface{}) ([]interface{}, error) {
 				return nil, err
 			}
 			result = append(result, e)
+		case *types.Table:
+			if err := arrangeListElementsInTable(e); err != nil {
+				return nil, err
+			}
+			result = append(result, e)
 		case *types.ListElements:
 			log.Debug("arranging list elements in ListElements")
 			l, err := doArrangeListElements(e.Elements)
@@ -75,6 +80,28 @@ func arrangeListElements(elements []interface{}) ([]interface{}, error) {
 	return result, nil
 }
 
+// arranges the lists in the cells of the given table
+func arrangeListElementsInTable(t *types.Table) error {
+	var cells []*types.TableCell
+	if t.Header != nil {
+		cells = append(cells, t.Header.Cells...)
+	}
+	for _, r := range t.Rows {
+		cells = append(cells, r.Cells...)
+	}
+	if t.Footer != nil {
+		cells = append(cells, t.Footer.Cells...)
+	}
+	for _, c := range cells {
+		elements, err := arrangeListElements(c.Elements)
+		if err != nil {
+			return err
+		}
+		c.Elements = elements
+	}
+	return nil
+}
+
 func doArrangeListElements(elements []interface{}) (interface{}, error) {
 	lists := newListStack() // so we can support delimited blocks in list elements, etc.
 
@@ -85,11 +112,16 @@ content:
 		// }
 		// also, arrange the lists in the delimited blocks attached to the list elements
 		if e, ok := element.(*types.ListContinuation); ok {
-			if b, ok := e.Element.(*types.DelimitedBlock); ok {
+			switch b := e.Element.(type) {
+			case *types.DelimitedBlock:
 				var err error
 				if b.Elements, err = arrangeListElements(b.Elements); err != nil {
 					return nil, err
 				}
+			case *types.Table:
+				if err := arrangeListElementsInTable(b); err != nil {
+					return nil, err
+				}
 			}
 		}
 		// lookup the parent block which can add the given element
diff --git a/pkg/parser/document_processing_refine_fragments.go b/pkg/parser/document_processing_refine_fragments.go
index 7079a64..55a1e36 100644
--- a/pkg/parser/document_processing_refine_fragments.go
+++ b/pkg/parser/document_processing_refine_fragments.go
@@ -110,6 +110,11 @@ func reparseTableCell(ctx *ParseContext, c *types.TableCell) error {
 			return err
 		}
 		c.Elements = elements
+		for _, e := range c.Elements {
+			if err := refineElement(ctx, e); err != nil {
+				return err
+			}
+		}
 	default:
 		// wrap in a paragraph
 		c.Elements = []interface{}{
-- 
2.43.0


From 3cd4d1094f7ccb8b5b87b02ca84be077b3ede490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:50 +0000
Subject: [PATCH 110/143] fix: titles, styles and other attributes of
 paragraphs in AsciiDoc cells of tables were ignored

---
 pkg/renderer/sgml/table.go | 84 +++++++++++++++++++-------------------
 1 file changed, 43 insertions(+), 41 deletions(-)

diff --git a/pkg/renderer/sgml/table.go b/pkg/renderer/sgml/table.go
index 8094fb6..5df06aa 100644
--- a/pkg/renderer/sgml/table.go
+++ b/pkg/renderer/sgml/table.go
@@ -281,46 +281,48 @@ func (r *sgmlRenderer) renderTableCell(ctx *context, cell *types.TableCell, col
 }
 
 func (r *sgmlRenderer) renderTableCellBlock(ctx *context, element interface{}) (string, error) {
-	switch e := element.(type) {
-	case *types.Paragraph:
-		log.Debug("rendering paragraph within table cell")
-		content, err := r.renderElements(ctx, e.Elements)
-		if err != nil {
-			return "", errors.Wrap(err, "unable to render table cell paragraph content")
-		}
-		title, err := r.renderElementTitle(ctx, e.Attributes)
-		if err != nil {
-			return "", errors.Wrap(err, "unable to render table cell paragraph content")
-		}
-		result, err := r.execute(r.embeddedParagraph, struct {
-			Context    *context
-			ID         string // TODO: not used in template?
-			Title      string // TODO: not used in template?
-			CheckStyle string
-			Class      string
-			Content    string
-		}{
-			Context:    ctx,
-			ID:         r.renderElementID(e.Attributes),
-			Title:      title,
-			Class:      "tableblock",
-			CheckStyle: r.renderCheckStyle(e.Attributes[types.AttrCheckStyle]),
-			Content:    string(content),
-		})
-		if err != nil {
-			return "", errors.Wrap(err, "unable to render table cell paragraph content")
-		}
-		return strings.TrimSuffix(result, "\n"), nil
-	default:
-		// Note: Asciidoctor wraps the `<div class=imageblock>` elements within a `<div class="content">`, which we also do here for the sake of compatibility
-		renderedElement, err := r.renderElement(ctx, e)
-		if err != nil {
-			return "", errors.Wrap(err, "unable to render table cell")
-		}
-		return r.execute(r.tableCellBlock, struct {
-			Content string
-		}{
-			Content: renderedElement,
-		})
+	if p, ok := element.(*types.Paragraph); ok && len(p.Attributes) == 0 {
+		return r.renderTableCellParagraph(ctx, p)
+	}
+	// Note: Asciidoctor wraps the `<div class=imageblock>` elements within a `<div class="content">`, which we also do here for the sake of compatibility
+	renderedElement, err := r.renderElement(ctx, element)
+	if err != nil {
+		return "", errors.Wrap(err, "unable to render table cell")
+	}
+	return r.execute(r.tableCellBlock, struct {
+		Content string
+	}{
+		Content: renderedElement,
+	})
+}
+
+func (r *sgmlRenderer) renderTableCellParagraph(ctx *context, e *types.Paragraph) (string, error) {
+	log.Debug("rendering paragraph within table cell")
+	content, err := r.renderElements(ctx, e.Elements)
+	if err != nil {
+		return "", errors.Wrap(err, "unable to render table cell paragraph content")
+	}
+	title, err := r.renderElementTitle(ctx, e.Attributes)
+	if err != nil {
+		return "", errors.Wrap(err, "unable to render table cell paragraph content")
+	}
+	result, err := r.execute(r.embeddedParagraph, struct {
+		Context    *context
+		ID         string // TODO: not used in template?
+		Title      string // TODO: not used in template?
+		CheckStyle string
+		Class      string
+		Content    string
+	}{
+		Context:    ctx,
+		ID:         r.renderElementID(e.Attributes),
+		Title:      title,
+		Class:      "tableblock",
+		CheckStyle: r.renderCheckStyle(e.Attributes[types.AttrCheckStyle]),
+		Content:    string(content),
+	})
+	if err != nil {
+		return "", errors.Wrap(err, "unable to render table cell paragraph content")
 	}
+	return strings.TrimSuffix(result, "\n"), nil
 }
-- 
2.43.0


From cec271f134d5a17252c7d0271ea3d90ee549b695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:57 +0000
Subject: [PATCH 111/143] fix: conversion failed when a block with a title had
 the same id as a section of the table of contents

---
 pkg/renderer/sgml/table_of_contents.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/renderer/sgml/table_of_contents.go b/pkg/renderer/sgml/table_of_contents.go
index c5d31e9..f311747 100644
--- a/pkg/renderer/sgml/table_of_contents.go
+++ b/pkg/renderer/sgml/table_of_contents.go
@@ -50,6 +50,8 @@ func (r *sgmlRenderer) prerenderTableOfContentsEntry(ctx *context, entry *types.
 		return nil
 	}
 	switch s := s.(type) {
+	case string: // title of another element with the same ID
+		entry.Title = escapeString(s)
 	case []interface{}:
 		title, err := r.renderElements(ctx, s)
 		if err != nil {
-- 
2.43.0


From 9e0710053e872188510ed61dc29b074c1760c82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:03 +0000
Subject: [PATCH 112/143] fix: conversion failed on lists in cells of the
 header of a table

---
 .../document_processing_refine_fragments.go   | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/pkg/parser/document_processing_refine_fragments.go b/pkg/parser/document_processing_refine_fragments.go
index 55a1e36..47783f3 100644
--- a/pkg/parser/document_processing_refine_fragments.go
+++ b/pkg/parser/document_processing_refine_fragments.go
@@ -76,9 +76,7 @@ func refineElement(ctx *ParseContext, element interface{}) error {
 func reparseTable(ctx *ParseContext, t *types.Table) error {
 	if t.Header != nil {
 		for _, c := range t.Header.Cells {
-			if err := reparseTableCell(ctx, c); err != nil {
-				return err
-			}
+			wrapTableCell(c) // whatever the format of the cell
 		}
 	}
 	if t.Rows != nil {
@@ -116,17 +114,20 @@ func reparseTableCell(ctx *ParseContext, c *types.TableCell) error {
 			}
 		}
 	default:
-		// wrap in a paragraph
-		c.Elements = []interface{}{
-			&types.Paragraph{
-				Elements: c.Elements,
-			},
-		}
+		wrapTableCell(c)
 	}
-
 	return nil
 }
 
+// wrapTableCell wraps the content of the cell in a paragraph
+func wrapTableCell(c *types.TableCell) {
+	c.Elements = []interface{}{
+		&types.Paragraph{
+			Elements: c.Elements,
+		},
+	}
+}
+
 func reparseDelimitedBlock(ctx *ParseContext, b *types.DelimitedBlock) error {
 	switch b.Kind {
 	case types.Example, types.Quote, types.Sidebar, types.Open:
-- 
2.43.0


From e3de6fddde3ca00e250f76ac153b58686acd4614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:47 +0000
Subject: [PATCH 113/143] fix: conversion failed when the title of the document
 ended with an anchor

---
 pkg/types/types.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index 515b14d..57a2c79 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -324,7 +324,7 @@ type DocumentHeader struct {
 func NewDocumentHeader(title []interface{}, ar interface{}, extraAttrs []interface{}) (*DocumentHeader, error) {
 	header := &DocumentHeader{}
 	elements := make([]interface{}, 0, 2+len(extraAttrs)) // estimated max capacity
-	header.Title = TrimTrailingSpaces(title)
+	header.SetTitle(title)
 	if ar, ok := ar.(*DocumentAuthorsAndRevision); ok {
 		if len(ar.Authors) > 0 {
 			// header.Authors = info.Authors
@@ -416,7 +416,16 @@ func (h *DocumentHeader) GetTitle() []interface{} {
 }
 
 func (h *DocumentHeader) SetTitle(title []interface{}) {
-	h.Title = title
+	// inline ID attribute found at the end is *moved* at the attributes level of the header
+	if len(title) > 0 {
+		if id, ok := title[len(title)-1].(*Attribute); ok {
+			h.AddAttributes(Attributes{
+				AttrID: stringify(id.Value),
+			})
+			title = title[:len(title)-1]
+		}
+	}
+	h.Title = TrimTrailingSpaces(title)
 }
 
 var _ WithElements = &DocumentHeader{}
-- 
2.43.0


From 5482d2b73c0871a0093f634cd820086b95e84654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:39 +0000
Subject: [PATCH 114/143] fix: highlighted sources had other characters than
 the source where a lexer changes them

---
 pkg/renderer/sgml/delimited_block_source.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pkg/renderer/sgml/delimited_block_source.go b/pkg/renderer/sgml/delimited_block_source.go
index 596ff50..c6947a6 100644
--- a/pkg/renderer/sgml/delimited_block_source.go
+++ b/pkg/renderer/sgml/delimited_block_source.go
@@ -123,10 +123,14 @@ func (r *sgmlRenderer) renderSourceBlockElements(ctx *context, b *types.Delimite
 		if err != nil {
 			return "", "", "", err
 		}
+		tokens := iterator.Tokens()
 		if len(callouts) == 0 {
-			iterator = withoutTrailingNewline(iterator)
+			tokens = withoutTrailingNewline(tokens)
 		}
-		if err = html.New(options...).Format(highlightedLineBuf, style, iterator); err != nil {
+		if strings.TrimRight(chroma.Stringify(tokens...), "\n") != renderedLine { // some lexers change the code (eg: after `%` in Ruby)
+			tokens = []chroma.Token{{Type: chroma.Text, Value: renderedLine}}
+		}
+		if err = html.New(options...).Format(highlightedLineBuf, style, chroma.Literator(tokens...)); err != nil {
 			return "", "", "", err
 		}
 		result.WriteString(highlightedLineBuf.String())
@@ -150,8 +154,7 @@ func (r *sgmlRenderer) renderSourceBlockElements(ctx *context, b *types.Delimite
 }
 
 // withoutTrailingNewline removes the newline that some lexers append to the line (eg: after a comment in Go)
-func withoutTrailingNewline(iterator chroma.Iterator) chroma.Iterator {
-	tokens := iterator.Tokens()
+func withoutTrailingNewline(tokens []chroma.Token) []chroma.Token {
 	for len(tokens) > 0 {
 		last := &tokens[len(tokens)-1]
 		if last.Value = strings.TrimRight(last.Value, "\n"); last.Value != "" {
@@ -159,7 +162,7 @@ func withoutTrailingNewline(iterator chroma.Iterator) chroma.Iterator {
 		}
 		tokens = tokens[:len(tokens)-1]
 	}
-	return chroma.Literator(tokens...)
+	return tokens
 }
 
 // isHighlightable checks that there are no other elements (eg: quoted texts or links) within the text of the source
-- 
2.43.0


From eab4ae22df99e98499d6e827a467ddbceefc7d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:15 +0000
Subject: [PATCH 115/143] fix: the initial value of hidden counters was ignored

---
 pkg/parser/parser.go  | 17060 ++++++++++++++++++++--------------------
 pkg/parser/parser.peg |     2 +-
 2 files changed, 8531 insertions(+), 8531 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 241838a..6601604 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 359, col: 49, offset: 10879},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 91003},
+														pos: position{line: 2876, col: 10, offset: 91005},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 91003},
+															pos:        position{line: 2876, col: 10, offset: 91005},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2898, col: 8, offset: 91401},
+													pos: position{line: 2898, col: 8, offset: 91403},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91174},
+															pos: position{line: 2885, col: 12, offset: 91176},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2885, col: 13, offset: 91175},
+																pos: position{line: 2885, col: 13, offset: 91177},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 13, offset: 91175},
+																		pos:        position{line: 2885, col: 13, offset: 91177},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 20, offset: 91182},
+																		pos:        position{line: 2885, col: 20, offset: 91184},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 29, offset: 91191},
+																		pos:        position{line: 2885, col: 29, offset: 91193},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2895, col: 8, offset: 91351},
+															pos: position{line: 2895, col: 8, offset: 91353},
 															expr: &anyMatcher{
-																line: 2895, col: 9, offset: 91352,
+																line: 2895, col: 9, offset: 91354,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 361, col: 39, offset: 11000},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 91003},
+														pos: position{line: 2876, col: 10, offset: 91005},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 91003},
+															pos:        position{line: 2876, col: 10, offset: 91005},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2898, col: 8, offset: 91401},
+													pos: position{line: 2898, col: 8, offset: 91403},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91174},
+															pos: position{line: 2885, col: 12, offset: 91176},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2885, col: 13, offset: 91175},
+																pos: position{line: 2885, col: 13, offset: 91177},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 13, offset: 91175},
+																		pos:        position{line: 2885, col: 13, offset: 91177},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 20, offset: 91182},
+																		pos:        position{line: 2885, col: 20, offset: 91184},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 29, offset: 91191},
+																		pos:        position{line: 2885, col: 29, offset: 91193},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2895, col: 8, offset: 91351},
+															pos: position{line: 2895, col: 8, offset: 91353},
 															expr: &anyMatcher{
-																line: 2895, col: 9, offset: 91352,
+																line: 2895, col: 9, offset: 91354,
 															},
 														},
 													},
@@ -321,10 +321,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 78, col: 41, offset: 2149},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 91003},
+																							pos: position{line: 2876, col: 10, offset: 91005},
 																							run: (*parser).callonDocumentRawLine66,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 91003},
+																								pos:        position{line: 2876, col: 10, offset: 91005},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -333,9 +333,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91351},
+																						pos: position{line: 2895, col: 8, offset: 91353},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91352,
+																							line: 2895, col: 9, offset: 91354,
 																						},
 																					},
 																				},
@@ -363,10 +363,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 91003},
+														pos: position{line: 2876, col: 10, offset: 91005},
 														run: (*parser).callonDocumentRawLine73,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 91003},
+															pos:        position{line: 2876, col: 10, offset: 91005},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -375,9 +375,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2895, col: 8, offset: 91351},
+													pos: position{line: 2895, col: 8, offset: 91353},
 													expr: &anyMatcher{
-														line: 2895, col: 9, offset: 91352,
+														line: 2895, col: 9, offset: 91354,
 													},
 												},
 											},
@@ -446,10 +446,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 78, col: 41, offset: 2149},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 91003},
+																							pos: position{line: 2876, col: 10, offset: 91005},
 																							run: (*parser).callonDocumentRawLine94,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 91003},
+																								pos:        position{line: 2876, col: 10, offset: 91005},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -458,9 +458,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91351},
+																						pos: position{line: 2895, col: 8, offset: 91353},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91352,
+																							line: 2895, col: 9, offset: 91354,
 																						},
 																					},
 																				},
@@ -488,10 +488,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 91003},
+														pos: position{line: 2876, col: 10, offset: 91005},
 														run: (*parser).callonDocumentRawLine101,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 91003},
+															pos:        position{line: 2876, col: 10, offset: 91005},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -500,9 +500,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2895, col: 8, offset: 91351},
+													pos: position{line: 2895, col: 8, offset: 91353},
 													expr: &anyMatcher{
-														line: 2895, col: 9, offset: 91352,
+														line: 2895, col: 9, offset: 91354,
 													},
 												},
 											},
@@ -972,24 +972,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2872, col: 10, offset: 90906},
+																pos: position{line: 2872, col: 10, offset: 90908},
 																run: (*parser).callonDocumentRawLine197,
 																expr: &seqExpr{
-																	pos: position{line: 2872, col: 11, offset: 90907},
+																	pos: position{line: 2872, col: 11, offset: 90909},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2872, col: 11, offset: 90907},
+																			pos: position{line: 2872, col: 11, offset: 90909},
 																			expr: &litMatcher{
-																				pos:        position{line: 2872, col: 11, offset: 90907},
+																				pos:        position{line: 2872, col: 11, offset: 90909},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2872, col: 16, offset: 90912},
+																			pos: position{line: 2872, col: 16, offset: 90914},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2872, col: 16, offset: 90912},
+																				pos:        position{line: 2872, col: 16, offset: 90914},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -997,15 +997,15 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2872, col: 23, offset: 90919},
+																			pos:        position{line: 2872, col: 23, offset: 90921},
 																			val:        ".",
 																			ignoreCase: false,
 																			want:       "\".\"",
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2872, col: 27, offset: 90923},
+																			pos: position{line: 2872, col: 27, offset: 90925},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2872, col: 27, offset: 90923},
+																				pos:        position{line: 2872, col: 27, offset: 90925},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1016,24 +1016,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2868, col: 12, offset: 90830},
+																pos: position{line: 2868, col: 12, offset: 90832},
 																run: (*parser).callonDocumentRawLine206,
 																expr: &seqExpr{
-																	pos: position{line: 2868, col: 13, offset: 90831},
+																	pos: position{line: 2868, col: 13, offset: 90833},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2868, col: 13, offset: 90831},
+																			pos: position{line: 2868, col: 13, offset: 90833},
 																			expr: &litMatcher{
-																				pos:        position{line: 2868, col: 13, offset: 90831},
+																				pos:        position{line: 2868, col: 13, offset: 90833},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2868, col: 18, offset: 90836},
+																			pos: position{line: 2868, col: 18, offset: 90838},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2868, col: 18, offset: 90836},
+																				pos:        position{line: 2868, col: 18, offset: 90838},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1049,10 +1049,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2280},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 91003},
+														pos: position{line: 2876, col: 10, offset: 91005},
 														run: (*parser).callonDocumentRawLine213,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 91003},
+															pos:        position{line: 2876, col: 10, offset: 91005},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1132,10 +1132,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2326},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 91003},
+														pos: position{line: 2876, col: 10, offset: 91005},
 														run: (*parser).callonDocumentRawLine230,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 91003},
+															pos:        position{line: 2876, col: 10, offset: 91005},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1595,24 +1595,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2872, col: 10, offset: 90906},
+																pos: position{line: 2872, col: 10, offset: 90908},
 																run: (*parser).callonDocumentRawLine321,
 																expr: &seqExpr{
-																	pos: position{line: 2872, col: 11, offset: 90907},
+																	pos: position{line: 2872, col: 11, offset: 90909},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2872, col: 11, offset: 90907},
+																			pos: position{line: 2872, col: 11, offset: 90909},
 																			expr: &litMatcher{
-																				pos:        position{line: 2872, col: 11, offset: 90907},
+																				pos:        position{line: 2872, col: 11, offset: 90909},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2872, col: 16, offset: 90912},
+																			pos: position{line: 2872, col: 16, offset: 90914},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2872, col: 16, offset: 90912},
+																				pos:        position{line: 2872, col: 16, offset: 90914},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1620,15 +1620,15 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2872, col: 23, offset: 90919},
+																			pos:        position{line: 2872, col: 23, offset: 90921},
 																			val:        ".",
 																			ignoreCase: false,
 																			want:       "\".\"",
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2872, col: 27, offset: 90923},
+																			pos: position{line: 2872, col: 27, offset: 90925},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2872, col: 27, offset: 90923},
+																				pos:        position{line: 2872, col: 27, offset: 90925},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1639,24 +1639,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2868, col: 12, offset: 90830},
+																pos: position{line: 2868, col: 12, offset: 90832},
 																run: (*parser).callonDocumentRawLine330,
 																expr: &seqExpr{
-																	pos: position{line: 2868, col: 13, offset: 90831},
+																	pos: position{line: 2868, col: 13, offset: 90833},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2868, col: 13, offset: 90831},
+																			pos: position{line: 2868, col: 13, offset: 90833},
 																			expr: &litMatcher{
-																				pos:        position{line: 2868, col: 13, offset: 90831},
+																				pos:        position{line: 2868, col: 13, offset: 90833},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2868, col: 18, offset: 90836},
+																			pos: position{line: 2868, col: 18, offset: 90838},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2868, col: 18, offset: 90836},
+																				pos:        position{line: 2868, col: 18, offset: 90838},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1678,10 +1678,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2378},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 91003},
+														pos: position{line: 2876, col: 10, offset: 91005},
 														run: (*parser).callonDocumentRawLine338,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 91003},
+															pos:        position{line: 2876, col: 10, offset: 91005},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1690,9 +1690,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2895, col: 8, offset: 91351},
+													pos: position{line: 2895, col: 8, offset: 91353},
 													expr: &anyMatcher{
-														line: 2895, col: 9, offset: 91352,
+														line: 2895, col: 9, offset: 91354,
 													},
 												},
 											},
@@ -1764,10 +1764,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 78, col: 41, offset: 2149},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 91003},
+																							pos: position{line: 2876, col: 10, offset: 91005},
 																							run: (*parser).callonDocumentRawLine360,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 91003},
+																								pos:        position{line: 2876, col: 10, offset: 91005},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -1776,9 +1776,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91351},
+																						pos: position{line: 2895, col: 8, offset: 91353},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91352,
+																							line: 2895, col: 9, offset: 91354,
 																						},
 																					},
 																				},
@@ -1806,10 +1806,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3474},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 91003},
+														pos: position{line: 2876, col: 10, offset: 91005},
 														run: (*parser).callonDocumentRawLine367,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 91003},
+															pos:        position{line: 2876, col: 10, offset: 91005},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1818,24 +1818,24 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2895, col: 8, offset: 91351},
+													pos: position{line: 2895, col: 8, offset: 91353},
 													expr: &anyMatcher{
-														line: 2895, col: 9, offset: 91352,
+														line: 2895, col: 9, offset: 91354,
 													},
 												},
 											},
 										},
 									},
 									&actionExpr{
-										pos: position{line: 723, col: 5, offset: 23049},
+										pos: position{line: 723, col: 5, offset: 23051},
 										run: (*parser).callonDocumentRawLine371,
 										expr: &seqExpr{
-											pos: position{line: 723, col: 5, offset: 23049},
+											pos: position{line: 723, col: 5, offset: 23051},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 723, col: 5, offset: 23049},
+													pos: position{line: 723, col: 5, offset: 23051},
 													expr: &charClassMatcher{
-														pos:        position{line: 2766, col: 13, offset: 88077},
+														pos:        position{line: 2766, col: 13, offset: 88079},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1843,36 +1843,36 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 724, col: 5, offset: 23079},
+													pos:   position{line: 724, col: 5, offset: 23081},
 													label: "delimiter",
 													expr: &choiceExpr{
-														pos: position{line: 725, col: 9, offset: 23099},
+														pos: position{line: 725, col: 9, offset: 23101},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 739, col: 5, offset: 23591},
+																pos: position{line: 739, col: 5, offset: 23593},
 																run: (*parser).callonDocumentRawLine377,
 																expr: &seqExpr{
-																	pos: position{line: 739, col: 5, offset: 23591},
+																	pos: position{line: 739, col: 5, offset: 23593},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 739, col: 5, offset: 23591},
+																			pos:   position{line: 739, col: 5, offset: 23593},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 739, col: 16, offset: 23602},
+																				pos: position{line: 739, col: 16, offset: 23604},
 																				run: (*parser).callonDocumentRawLine380,
 																				expr: &seqExpr{
-																					pos: position{line: 739, col: 16, offset: 23602},
+																					pos: position{line: 739, col: 16, offset: 23604},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 739, col: 16, offset: 23602},
+																							pos:        position{line: 739, col: 16, offset: 23604},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 739, col: 23, offset: 23609},
+																							pos: position{line: 739, col: 23, offset: 23611},
 																							expr: &litMatcher{
-																								pos:        position{line: 739, col: 23, offset: 23609},
+																								pos:        position{line: 739, col: 23, offset: 23611},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -1883,12 +1883,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 741, col: 8, offset: 23693},
+																			pos: position{line: 741, col: 8, offset: 23695},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 91003},
+																				pos: position{line: 2876, col: 10, offset: 91005},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 91003},
+																					pos:        position{line: 2876, col: 10, offset: 91005},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1897,28 +1897,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91401},
+																			pos: position{line: 2898, col: 8, offset: 91403},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91174},
+																					pos: position{line: 2885, col: 12, offset: 91176},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91175},
+																						pos: position{line: 2885, col: 13, offset: 91177},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91175},
+																								pos:        position{line: 2885, col: 13, offset: 91177},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91182},
+																								pos:        position{line: 2885, col: 20, offset: 91184},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91191},
+																								pos:        position{line: 2885, col: 29, offset: 91193},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1927,9 +1927,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91351},
+																					pos: position{line: 2895, col: 8, offset: 91353},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91352,
+																						line: 2895, col: 9, offset: 91354,
 																					},
 																				},
 																			},
@@ -1938,30 +1938,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 746, col: 5, offset: 23839},
+																pos: position{line: 746, col: 5, offset: 23841},
 																run: (*parser).callonDocumentRawLine396,
 																expr: &seqExpr{
-																	pos: position{line: 746, col: 5, offset: 23839},
+																	pos: position{line: 746, col: 5, offset: 23841},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 746, col: 5, offset: 23839},
+																			pos:   position{line: 746, col: 5, offset: 23841},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 746, col: 16, offset: 23850},
+																				pos: position{line: 746, col: 16, offset: 23852},
 																				run: (*parser).callonDocumentRawLine399,
 																				expr: &seqExpr{
-																					pos: position{line: 746, col: 16, offset: 23850},
+																					pos: position{line: 746, col: 16, offset: 23852},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 746, col: 16, offset: 23850},
+																							pos:        position{line: 746, col: 16, offset: 23852},
 																							val:        "====",
 																							ignoreCase: false,
 																							want:       "\"====\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 746, col: 23, offset: 23857},
+																							pos: position{line: 746, col: 23, offset: 23859},
 																							expr: &litMatcher{
-																								pos:        position{line: 746, col: 23, offset: 23857},
+																								pos:        position{line: 746, col: 23, offset: 23859},
 																								val:        "=",
 																								ignoreCase: false,
 																								want:       "\"=\"",
@@ -1972,12 +1972,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 748, col: 8, offset: 23941},
+																			pos: position{line: 748, col: 8, offset: 23943},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 91003},
+																				pos: position{line: 2876, col: 10, offset: 91005},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 91003},
+																					pos:        position{line: 2876, col: 10, offset: 91005},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1986,28 +1986,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91401},
+																			pos: position{line: 2898, col: 8, offset: 91403},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91174},
+																					pos: position{line: 2885, col: 12, offset: 91176},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91175},
+																						pos: position{line: 2885, col: 13, offset: 91177},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91175},
+																								pos:        position{line: 2885, col: 13, offset: 91177},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91182},
+																								pos:        position{line: 2885, col: 20, offset: 91184},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91191},
+																								pos:        position{line: 2885, col: 29, offset: 91193},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2016,9 +2016,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91351},
+																					pos: position{line: 2895, col: 8, offset: 91353},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91352,
+																						line: 2895, col: 9, offset: 91354,
 																					},
 																				},
 																			},
@@ -2027,27 +2027,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 759, col: 26, offset: 24327},
+																pos: position{line: 759, col: 26, offset: 24329},
 																run: (*parser).callonDocumentRawLine415,
 																expr: &seqExpr{
-																	pos: position{line: 759, col: 26, offset: 24327},
+																	pos: position{line: 759, col: 26, offset: 24329},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 759, col: 26, offset: 24327},
+																			pos:        position{line: 759, col: 26, offset: 24329},
 																			val:        "```",
 																			ignoreCase: false,
 																			want:       "\"```\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 759, col: 32, offset: 24333},
+																			pos:   position{line: 759, col: 32, offset: 24335},
 																			label: "language",
 																			expr: &actionExpr{
-																				pos: position{line: 763, col: 13, offset: 24463},
+																				pos: position{line: 763, col: 13, offset: 24465},
 																				run: (*parser).callonDocumentRawLine419,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 763, col: 14, offset: 24464},
+																					pos: position{line: 763, col: 14, offset: 24466},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 763, col: 14, offset: 24464},
+																						pos:        position{line: 763, col: 14, offset: 24466},
 																						val:        "[^\\r\\n`\\t ]",
 																						chars:      []rune{'\r', '\n', '`', '\t', ' '},
 																						ignoreCase: false,
@@ -2057,12 +2057,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 759, col: 52, offset: 24353},
+																			pos: position{line: 759, col: 52, offset: 24355},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 91003},
+																				pos: position{line: 2876, col: 10, offset: 91005},
 																				run: (*parser).callonDocumentRawLine423,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 91003},
+																					pos:        position{line: 2876, col: 10, offset: 91005},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2071,28 +2071,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91401},
+																			pos: position{line: 2898, col: 8, offset: 91403},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91174},
+																					pos: position{line: 2885, col: 12, offset: 91176},
 																					run: (*parser).callonDocumentRawLine426,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91175},
+																						pos: position{line: 2885, col: 13, offset: 91177},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91175},
+																								pos:        position{line: 2885, col: 13, offset: 91177},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91182},
+																								pos:        position{line: 2885, col: 20, offset: 91184},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91191},
+																								pos:        position{line: 2885, col: 29, offset: 91193},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2101,9 +2101,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91351},
+																					pos: position{line: 2895, col: 8, offset: 91353},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91352,
+																						line: 2895, col: 9, offset: 91354,
 																					},
 																				},
 																			},
@@ -2112,30 +2112,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 753, col: 5, offset: 24086},
+																pos: position{line: 753, col: 5, offset: 24088},
 																run: (*parser).callonDocumentRawLine433,
 																expr: &seqExpr{
-																	pos: position{line: 753, col: 5, offset: 24086},
+																	pos: position{line: 753, col: 5, offset: 24088},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 753, col: 5, offset: 24086},
+																			pos:   position{line: 753, col: 5, offset: 24088},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 753, col: 16, offset: 24097},
+																				pos: position{line: 753, col: 16, offset: 24099},
 																				run: (*parser).callonDocumentRawLine436,
 																				expr: &seqExpr{
-																					pos: position{line: 753, col: 16, offset: 24097},
+																					pos: position{line: 753, col: 16, offset: 24099},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 753, col: 16, offset: 24097},
+																							pos:        position{line: 753, col: 16, offset: 24099},
 																							val:        "```",
 																							ignoreCase: false,
 																							want:       "\"```\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 753, col: 22, offset: 24103},
+																							pos: position{line: 753, col: 22, offset: 24105},
 																							expr: &litMatcher{
-																								pos:        position{line: 753, col: 22, offset: 24103},
+																								pos:        position{line: 753, col: 22, offset: 24105},
 																								val:        "`",
 																								ignoreCase: false,
 																								want:       "\"`\"",
@@ -2146,12 +2146,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 755, col: 8, offset: 24187},
+																			pos: position{line: 755, col: 8, offset: 24189},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 91003},
+																				pos: position{line: 2876, col: 10, offset: 91005},
 																				run: (*parser).callonDocumentRawLine442,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 91003},
+																					pos:        position{line: 2876, col: 10, offset: 91005},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2160,28 +2160,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91401},
+																			pos: position{line: 2898, col: 8, offset: 91403},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91174},
+																					pos: position{line: 2885, col: 12, offset: 91176},
 																					run: (*parser).callonDocumentRawLine445,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91175},
+																						pos: position{line: 2885, col: 13, offset: 91177},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91175},
+																								pos:        position{line: 2885, col: 13, offset: 91177},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91182},
+																								pos:        position{line: 2885, col: 20, offset: 91184},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91191},
+																								pos:        position{line: 2885, col: 29, offset: 91193},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2190,9 +2190,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91351},
+																					pos: position{line: 2895, col: 8, offset: 91353},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91352,
+																						line: 2895, col: 9, offset: 91354,
 																					},
 																				},
 																			},
@@ -2201,30 +2201,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 768, col: 5, offset: 24628},
+																pos: position{line: 768, col: 5, offset: 24630},
 																run: (*parser).callonDocumentRawLine452,
 																expr: &seqExpr{
-																	pos: position{line: 768, col: 5, offset: 24628},
+																	pos: position{line: 768, col: 5, offset: 24630},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 768, col: 5, offset: 24628},
+																			pos:   position{line: 768, col: 5, offset: 24630},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 768, col: 16, offset: 24639},
+																				pos: position{line: 768, col: 16, offset: 24641},
 																				run: (*parser).callonDocumentRawLine455,
 																				expr: &seqExpr{
-																					pos: position{line: 768, col: 16, offset: 24639},
+																					pos: position{line: 768, col: 16, offset: 24641},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 768, col: 16, offset: 24639},
+																							pos:        position{line: 768, col: 16, offset: 24641},
 																							val:        "----",
 																							ignoreCase: false,
 																							want:       "\"----\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 768, col: 23, offset: 24646},
+																							pos: position{line: 768, col: 23, offset: 24648},
 																							expr: &litMatcher{
-																								pos:        position{line: 768, col: 23, offset: 24646},
+																								pos:        position{line: 768, col: 23, offset: 24648},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
@@ -2235,12 +2235,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 770, col: 8, offset: 24730},
+																			pos: position{line: 770, col: 8, offset: 24732},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 91003},
+																				pos: position{line: 2876, col: 10, offset: 91005},
 																				run: (*parser).callonDocumentRawLine461,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 91003},
+																					pos:        position{line: 2876, col: 10, offset: 91005},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2249,28 +2249,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91401},
+																			pos: position{line: 2898, col: 8, offset: 91403},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91174},
+																					pos: position{line: 2885, col: 12, offset: 91176},
 																					run: (*parser).callonDocumentRawLine464,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91175},
+																						pos: position{line: 2885, col: 13, offset: 91177},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91175},
+																								pos:        position{line: 2885, col: 13, offset: 91177},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91182},
+																								pos:        position{line: 2885, col: 20, offset: 91184},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91191},
+																								pos:        position{line: 2885, col: 29, offset: 91193},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2279,9 +2279,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91351},
+																					pos: position{line: 2895, col: 8, offset: 91353},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91352,
+																						line: 2895, col: 9, offset: 91354,
 																					},
 																				},
 																			},
@@ -2290,30 +2290,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 782, col: 5, offset: 25104},
+																pos: position{line: 782, col: 5, offset: 25106},
 																run: (*parser).callonDocumentRawLine471,
 																expr: &seqExpr{
-																	pos: position{line: 782, col: 5, offset: 25104},
+																	pos: position{line: 782, col: 5, offset: 25106},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 782, col: 5, offset: 25104},
+																			pos:   position{line: 782, col: 5, offset: 25106},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 782, col: 16, offset: 25115},
+																				pos: position{line: 782, col: 16, offset: 25117},
 																				run: (*parser).callonDocumentRawLine474,
 																				expr: &seqExpr{
-																					pos: position{line: 782, col: 16, offset: 25115},
+																					pos: position{line: 782, col: 16, offset: 25117},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 782, col: 16, offset: 25115},
+																							pos:        position{line: 782, col: 16, offset: 25117},
 																							val:        "....",
 																							ignoreCase: false,
 																							want:       "\"....\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 782, col: 23, offset: 25122},
+																							pos: position{line: 782, col: 23, offset: 25124},
 																							expr: &litMatcher{
-																								pos:        position{line: 782, col: 23, offset: 25122},
+																								pos:        position{line: 782, col: 23, offset: 25124},
 																								val:        ".",
 																								ignoreCase: false,
 																								want:       "\".\"",
@@ -2324,12 +2324,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 784, col: 8, offset: 25206},
+																			pos: position{line: 784, col: 8, offset: 25208},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 91003},
+																				pos: position{line: 2876, col: 10, offset: 91005},
 																				run: (*parser).callonDocumentRawLine480,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 91003},
+																					pos:        position{line: 2876, col: 10, offset: 91005},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2338,28 +2338,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91401},
+																			pos: position{line: 2898, col: 8, offset: 91403},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91174},
+																					pos: position{line: 2885, col: 12, offset: 91176},
 																					run: (*parser).callonDocumentRawLine483,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91175},
+																						pos: position{line: 2885, col: 13, offset: 91177},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91175},
+																								pos:        position{line: 2885, col: 13, offset: 91177},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91182},
+																								pos:        position{line: 2885, col: 20, offset: 91184},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91191},
+																								pos:        position{line: 2885, col: 29, offset: 91193},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2368,9 +2368,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91351},
+																					pos: position{line: 2895, col: 8, offset: 91353},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91352,
+																						line: 2895, col: 9, offset: 91354,
 																					},
 																				},
 																			},
@@ -2379,30 +2379,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 789, col: 5, offset: 25356},
+																pos: position{line: 789, col: 5, offset: 25358},
 																run: (*parser).callonDocumentRawLine490,
 																expr: &seqExpr{
-																	pos: position{line: 789, col: 5, offset: 25356},
+																	pos: position{line: 789, col: 5, offset: 25358},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 789, col: 5, offset: 25356},
+																			pos:   position{line: 789, col: 5, offset: 25358},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 789, col: 16, offset: 25367},
+																				pos: position{line: 789, col: 16, offset: 25369},
 																				run: (*parser).callonDocumentRawLine493,
 																				expr: &seqExpr{
-																					pos: position{line: 789, col: 16, offset: 25367},
+																					pos: position{line: 789, col: 16, offset: 25369},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 789, col: 16, offset: 25367},
+																							pos:        position{line: 789, col: 16, offset: 25369},
 																							val:        "++++",
 																							ignoreCase: false,
 																							want:       "\"++++\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 789, col: 23, offset: 25374},
+																							pos: position{line: 789, col: 23, offset: 25376},
 																							expr: &litMatcher{
-																								pos:        position{line: 789, col: 23, offset: 25374},
+																								pos:        position{line: 789, col: 23, offset: 25376},
 																								val:        "+",
 																								ignoreCase: false,
 																								want:       "\"+\"",
@@ -2413,12 +2413,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 791, col: 8, offset: 25458},
+																			pos: position{line: 791, col: 8, offset: 25460},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 91003},
+																				pos: position{line: 2876, col: 10, offset: 91005},
 																				run: (*parser).callonDocumentRawLine499,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 91003},
+																					pos:        position{line: 2876, col: 10, offset: 91005},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2427,28 +2427,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91401},
+																			pos: position{line: 2898, col: 8, offset: 91403},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91174},
+																					pos: position{line: 2885, col: 12, offset: 91176},
 																					run: (*parser).callonDocumentRawLine502,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91175},
+																						pos: position{line: 2885, col: 13, offset: 91177},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91175},
+																								pos:        position{line: 2885, col: 13, offset: 91177},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91182},
+																								pos:        position{line: 2885, col: 20, offset: 91184},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91191},
+																								pos:        position{line: 2885, col: 29, offset: 91193},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2457,9 +2457,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91351},
+																					pos: position{line: 2895, col: 8, offset: 91353},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91352,
+																						line: 2895, col: 9, offset: 91354,
 																					},
 																				},
 																			},
@@ -2468,30 +2468,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 796, col: 5, offset: 25606},
+																pos: position{line: 796, col: 5, offset: 25608},
 																run: (*parser).callonDocumentRawLine509,
 																expr: &seqExpr{
-																	pos: position{line: 796, col: 5, offset: 25606},
+																	pos: position{line: 796, col: 5, offset: 25608},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 796, col: 5, offset: 25606},
+																			pos:   position{line: 796, col: 5, offset: 25608},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 796, col: 16, offset: 25617},
+																				pos: position{line: 796, col: 16, offset: 25619},
 																				run: (*parser).callonDocumentRawLine512,
 																				expr: &seqExpr{
-																					pos: position{line: 796, col: 16, offset: 25617},
+																					pos: position{line: 796, col: 16, offset: 25619},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 796, col: 16, offset: 25617},
+																							pos:        position{line: 796, col: 16, offset: 25619},
 																							val:        "____",
 																							ignoreCase: false,
 																							want:       "\"____\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 796, col: 23, offset: 25624},
+																							pos: position{line: 796, col: 23, offset: 25626},
 																							expr: &litMatcher{
-																								pos:        position{line: 796, col: 23, offset: 25624},
+																								pos:        position{line: 796, col: 23, offset: 25626},
 																								val:        "_",
 																								ignoreCase: false,
 																								want:       "\"_\"",
@@ -2502,12 +2502,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 798, col: 8, offset: 25708},
+																			pos: position{line: 798, col: 8, offset: 25710},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 91003},
+																				pos: position{line: 2876, col: 10, offset: 91005},
 																				run: (*parser).callonDocumentRawLine518,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 91003},
+																					pos:        position{line: 2876, col: 10, offset: 91005},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2516,28 +2516,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91401},
+																			pos: position{line: 2898, col: 8, offset: 91403},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91174},
+																					pos: position{line: 2885, col: 12, offset: 91176},
 																					run: (*parser).callonDocumentRawLine521,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91175},
+																						pos: position{line: 2885, col: 13, offset: 91177},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91175},
+																								pos:        position{line: 2885, col: 13, offset: 91177},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91182},
+																								pos:        position{line: 2885, col: 20, offset: 91184},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91191},
+																								pos:        position{line: 2885, col: 29, offset: 91193},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2546,9 +2546,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91351},
+																					pos: position{line: 2895, col: 8, offset: 91353},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91352,
+																						line: 2895, col: 9, offset: 91354,
 																					},
 																				},
 																			},
@@ -2557,30 +2557,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 803, col: 5, offset: 25852},
+																pos: position{line: 803, col: 5, offset: 25854},
 																run: (*parser).callonDocumentRawLine528,
 																expr: &seqExpr{
-																	pos: position{line: 803, col: 5, offset: 25852},
+																	pos: position{line: 803, col: 5, offset: 25854},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 803, col: 5, offset: 25852},
+																			pos:   position{line: 803, col: 5, offset: 25854},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 803, col: 16, offset: 25863},
+																				pos: position{line: 803, col: 16, offset: 25865},
 																				run: (*parser).callonDocumentRawLine531,
 																				expr: &seqExpr{
-																					pos: position{line: 803, col: 16, offset: 25863},
+																					pos: position{line: 803, col: 16, offset: 25865},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 803, col: 16, offset: 25863},
+																							pos:        position{line: 803, col: 16, offset: 25865},
 																							val:        "****",
 																							ignoreCase: false,
 																							want:       "\"****\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 803, col: 23, offset: 25870},
+																							pos: position{line: 803, col: 23, offset: 25872},
 																							expr: &litMatcher{
-																								pos:        position{line: 803, col: 23, offset: 25870},
+																								pos:        position{line: 803, col: 23, offset: 25872},
 																								val:        "*",
 																								ignoreCase: false,
 																								want:       "\"*\"",
@@ -2591,12 +2591,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 805, col: 8, offset: 25954},
+																			pos: position{line: 805, col: 8, offset: 25956},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 91003},
+																				pos: position{line: 2876, col: 10, offset: 91005},
 																				run: (*parser).callonDocumentRawLine537,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 91003},
+																					pos:        position{line: 2876, col: 10, offset: 91005},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2605,28 +2605,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91401},
+																			pos: position{line: 2898, col: 8, offset: 91403},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91174},
+																					pos: position{line: 2885, col: 12, offset: 91176},
 																					run: (*parser).callonDocumentRawLine540,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91175},
+																						pos: position{line: 2885, col: 13, offset: 91177},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91175},
+																								pos:        position{line: 2885, col: 13, offset: 91177},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91182},
+																								pos:        position{line: 2885, col: 20, offset: 91184},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91191},
+																								pos:        position{line: 2885, col: 29, offset: 91193},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2635,9 +2635,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91351},
+																					pos: position{line: 2895, col: 8, offset: 91353},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91352,
+																						line: 2895, col: 9, offset: 91354,
 																					},
 																				},
 																			},
@@ -2687,12 +2687,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine555,
 												},
 												&actionExpr{
-													pos: position{line: 2880, col: 11, offset: 91064},
+													pos: position{line: 2880, col: 11, offset: 91066},
 													run: (*parser).callonDocumentRawLine556,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2880, col: 11, offset: 91064},
+														pos: position{line: 2880, col: 11, offset: 91066},
 														expr: &charClassMatcher{
-															pos:        position{line: 2880, col: 11, offset: 91064},
+															pos:        position{line: 2880, col: 11, offset: 91066},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2701,12 +2701,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2826, col: 14, offset: 89596},
+													pos: position{line: 2826, col: 14, offset: 89598},
 													run: (*parser).callonDocumentRawLine559,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2826, col: 14, offset: 89596},
+														pos: position{line: 2826, col: 14, offset: 89598},
 														expr: &charClassMatcher{
-															pos:        position{line: 2826, col: 14, offset: 89596},
+															pos:        position{line: 2826, col: 14, offset: 89598},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2715,9 +2715,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2895, col: 8, offset: 91351},
+													pos: position{line: 2895, col: 8, offset: 91353},
 													expr: &anyMatcher{
-														line: 2895, col: 9, offset: 91352,
+														line: 2895, col: 9, offset: 91354,
 													},
 												},
 											},
@@ -2727,9 +2727,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2895, col: 8, offset: 91351},
+							pos: position{line: 2895, col: 8, offset: 91353},
 							expr: &anyMatcher{
-								line: 2895, col: 9, offset: 91352,
+								line: 2895, col: 9, offset: 91354,
 							},
 						},
 					},
@@ -2764,41 +2764,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2830, col: 17, offset: 89666},
+												pos: position{line: 2830, col: 17, offset: 89668},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2830, col: 17, offset: 89666},
+													pos:   position{line: 2830, col: 17, offset: 89668},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2847, col: 5, offset: 90120},
+														pos: position{line: 2847, col: 5, offset: 90122},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2847, col: 5, offset: 90120},
+															pos:   position{line: 2847, col: 5, offset: 90122},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2847, col: 14, offset: 90129},
+																pos: position{line: 2847, col: 14, offset: 90131},
 																expr: &choiceExpr{
-																	pos: position{line: 2848, col: 9, offset: 90139},
+																	pos: position{line: 2848, col: 9, offset: 90141},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2848, col: 9, offset: 90139},
+																			pos: position{line: 2848, col: 9, offset: 90141},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2848, col: 9, offset: 90139},
+																				pos: position{line: 2848, col: 9, offset: 90141},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2848, col: 9, offset: 90139},
+																						pos: position{line: 2848, col: 9, offset: 90141},
 																						expr: &litMatcher{
-																							pos:        position{line: 2848, col: 10, offset: 90140},
+																							pos:        position{line: 2848, col: 10, offset: 90142},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2849, col: 9, offset: 90168},
+																						pos: position{line: 2849, col: 9, offset: 90170},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2849, col: 10, offset: 90169},
+																							pos:        position{line: 2849, col: 10, offset: 90171},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2809,27 +2809,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2852, col: 11, offset: 90381},
+																			pos: position{line: 2852, col: 11, offset: 90383},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2852, col: 11, offset: 90381},
+																					pos:        position{line: 2852, col: 11, offset: 90383},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2852, col: 19, offset: 90389},
+																					pos: position{line: 2852, col: 19, offset: 90391},
 																					expr: &seqExpr{
-																						pos: position{line: 2852, col: 21, offset: 90391},
+																						pos: position{line: 2852, col: 21, offset: 90393},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2852, col: 21, offset: 90391},
+																								pos: position{line: 2852, col: 21, offset: 90393},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 91003},
+																									pos: position{line: 2876, col: 10, offset: 91005},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 91003},
+																										pos:        position{line: 2876, col: 10, offset: 91005},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2838,11 +2838,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2852, col: 28, offset: 90398},
+																								pos: position{line: 2852, col: 28, offset: 90400},
 																								expr: &notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91351},
+																									pos: position{line: 2895, col: 8, offset: 91353},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91352,
+																										line: 2895, col: 9, offset: 91354,
 																									},
 																								},
 																							},
@@ -3023,28 +3023,28 @@ var g = &grammar{
 																												expr: &zeroOrOneExpr{
 																													pos: position{line: 657, col: 62, offset: 20835},
 																													expr: &actionExpr{
-																														pos: position{line: 665, col: 17, offset: 21130},
+																														pos: position{line: 665, col: 17, offset: 21132},
 																														run: (*parser).callonFileInclusion66,
 																														expr: &seqExpr{
-																															pos: position{line: 665, col: 17, offset: 21130},
+																															pos: position{line: 665, col: 17, offset: 21132},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 665, col: 17, offset: 21130},
+																																	pos:        position{line: 665, col: 17, offset: 21132},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 665, col: 21, offset: 21134},
+																																	pos:   position{line: 665, col: 21, offset: 21136},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 665, col: 28, offset: 21141},
+																																		pos: position{line: 665, col: 28, offset: 21143},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 665, col: 28, offset: 21141},
+																																				pos: position{line: 665, col: 28, offset: 21143},
 																																				run: (*parser).callonFileInclusion71,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 665, col: 28, offset: 21141},
+																																					pos:        position{line: 665, col: 28, offset: 21143},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -3052,12 +3052,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 667, col: 9, offset: 21195},
+																																				pos: position{line: 667, col: 9, offset: 21197},
 																																				run: (*parser).callonFileInclusion73,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 667, col: 9, offset: 21195},
+																																					pos: position{line: 667, col: 9, offset: 21197},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 667, col: 9, offset: 21195},
+																																						pos:        position{line: 667, col: 9, offset: 21197},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -3132,28 +3132,28 @@ var g = &grammar{
 																												expr: &zeroOrOneExpr{
 																													pos: position{line: 661, col: 63, offset: 21007},
 																													expr: &actionExpr{
-																														pos: position{line: 665, col: 17, offset: 21130},
+																														pos: position{line: 665, col: 17, offset: 21132},
 																														run: (*parser).callonFileInclusion88,
 																														expr: &seqExpr{
-																															pos: position{line: 665, col: 17, offset: 21130},
+																															pos: position{line: 665, col: 17, offset: 21132},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 665, col: 17, offset: 21130},
+																																	pos:        position{line: 665, col: 17, offset: 21132},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 665, col: 21, offset: 21134},
+																																	pos:   position{line: 665, col: 21, offset: 21136},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 665, col: 28, offset: 21141},
+																																		pos: position{line: 665, col: 28, offset: 21143},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 665, col: 28, offset: 21141},
+																																				pos: position{line: 665, col: 28, offset: 21143},
 																																				run: (*parser).callonFileInclusion93,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 665, col: 28, offset: 21141},
+																																					pos:        position{line: 665, col: 28, offset: 21143},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -3161,12 +3161,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 667, col: 9, offset: 21195},
+																																				pos: position{line: 667, col: 9, offset: 21197},
 																																				run: (*parser).callonFileInclusion95,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 667, col: 9, offset: 21195},
+																																					pos: position{line: 667, col: 9, offset: 21197},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 667, col: 9, offset: 21195},
+																																						pos:        position{line: 667, col: 9, offset: 21197},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -3198,27 +3198,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1197, col: 23, offset: 36984},
+																			pos: position{line: 1197, col: 23, offset: 36986},
 																			run: (*parser).callonFileInclusion99,
 																			expr: &seqExpr{
-																				pos: position{line: 1197, col: 23, offset: 36984},
+																				pos: position{line: 1197, col: 23, offset: 36986},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1195, col: 32, offset: 36952},
+																						pos:        position{line: 1195, col: 32, offset: 36954},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1197, col: 51, offset: 37012},
+																						pos:   position{line: 1197, col: 51, offset: 37014},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1197, col: 56, offset: 37017},
+																							pos: position{line: 1197, col: 56, offset: 37019},
 																							run: (*parser).callonFileInclusion103,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1197, col: 56, offset: 37017},
+																								pos: position{line: 1197, col: 56, offset: 37019},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1197, col: 56, offset: 37017},
+																									pos:        position{line: 1197, col: 56, offset: 37019},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -3228,23 +3228,23 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1195, col: 32, offset: 36952},
+																						pos:        position{line: 1195, col: 32, offset: 36954},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1198, col: 5, offset: 37089},
+																						pos: position{line: 1198, col: 5, offset: 37091},
 																						run: (*parser).callonFileInclusion107,
 																					},
 																				},
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2855, col: 11, offset: 90518},
+																			pos: position{line: 2855, col: 11, offset: 90520},
 																			run: (*parser).callonFileInclusion108,
 																			expr: &litMatcher{
-																				pos:        position{line: 2855, col: 11, offset: 90518},
+																				pos:        position{line: 2855, col: 11, offset: 90520},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3273,10 +3273,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 10, offset: 91003},
+								pos: position{line: 2876, col: 10, offset: 91005},
 								run: (*parser).callonFileInclusion113,
 								expr: &charClassMatcher{
-									pos:        position{line: 2876, col: 10, offset: 91003},
+									pos:        position{line: 2876, col: 10, offset: 91005},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3285,28 +3285,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2898, col: 8, offset: 91401},
+							pos: position{line: 2898, col: 8, offset: 91403},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2885, col: 12, offset: 91174},
+									pos: position{line: 2885, col: 12, offset: 91176},
 									run: (*parser).callonFileInclusion116,
 									expr: &choiceExpr{
-										pos: position{line: 2885, col: 13, offset: 91175},
+										pos: position{line: 2885, col: 13, offset: 91177},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2885, col: 13, offset: 91175},
+												pos:        position{line: 2885, col: 13, offset: 91177},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 20, offset: 91182},
+												pos:        position{line: 2885, col: 20, offset: 91184},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 29, offset: 91191},
+												pos:        position{line: 2885, col: 29, offset: 91193},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3315,9 +3315,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2895, col: 8, offset: 91351},
+									pos: position{line: 2895, col: 8, offset: 91353},
 									expr: &anyMatcher{
-										line: 2895, col: 9, offset: 91352,
+										line: 2895, col: 9, offset: 91354,
 									},
 								},
 							},
@@ -3363,24 +3363,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2868, col: 12, offset: 90830},
+																				pos: position{line: 2868, col: 12, offset: 90832},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2868, col: 13, offset: 90831},
+																					pos: position{line: 2868, col: 13, offset: 90833},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2868, col: 13, offset: 90831},
+																							pos: position{line: 2868, col: 13, offset: 90833},
 																							expr: &litMatcher{
-																								pos:        position{line: 2868, col: 13, offset: 90831},
+																								pos:        position{line: 2868, col: 13, offset: 90833},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2868, col: 18, offset: 90836},
+																							pos: position{line: 2868, col: 18, offset: 90838},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2868, col: 18, offset: 90836},
+																								pos:        position{line: 2868, col: 18, offset: 90838},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3401,24 +3401,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2868, col: 12, offset: 90830},
+																				pos: position{line: 2868, col: 12, offset: 90832},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2868, col: 13, offset: 90831},
+																					pos: position{line: 2868, col: 13, offset: 90833},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2868, col: 13, offset: 90831},
+																							pos: position{line: 2868, col: 13, offset: 90833},
 																							expr: &litMatcher{
-																								pos:        position{line: 2868, col: 13, offset: 90831},
+																								pos:        position{line: 2868, col: 13, offset: 90833},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2868, col: 18, offset: 90836},
+																							pos: position{line: 2868, col: 18, offset: 90838},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2868, col: 18, offset: 90836},
+																								pos:        position{line: 2868, col: 18, offset: 90838},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3439,24 +3439,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2868, col: 12, offset: 90830},
+																		pos: position{line: 2868, col: 12, offset: 90832},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2868, col: 13, offset: 90831},
+																			pos: position{line: 2868, col: 13, offset: 90833},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2868, col: 13, offset: 90831},
+																					pos: position{line: 2868, col: 13, offset: 90833},
 																					expr: &litMatcher{
-																						pos:        position{line: 2868, col: 13, offset: 90831},
+																						pos:        position{line: 2868, col: 13, offset: 90833},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2868, col: 18, offset: 90836},
+																					pos: position{line: 2868, col: 18, offset: 90838},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2868, col: 18, offset: 90836},
+																						pos:        position{line: 2868, col: 18, offset: 90838},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3505,24 +3505,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2868, col: 12, offset: 90830},
+																									pos: position{line: 2868, col: 12, offset: 90832},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2868, col: 13, offset: 90831},
+																										pos: position{line: 2868, col: 13, offset: 90833},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2868, col: 13, offset: 90831},
+																												pos: position{line: 2868, col: 13, offset: 90833},
 																												expr: &litMatcher{
-																													pos:        position{line: 2868, col: 13, offset: 90831},
+																													pos:        position{line: 2868, col: 13, offset: 90833},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2868, col: 18, offset: 90836},
+																												pos: position{line: 2868, col: 18, offset: 90838},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2868, col: 18, offset: 90836},
+																													pos:        position{line: 2868, col: 18, offset: 90838},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3543,24 +3543,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2868, col: 12, offset: 90830},
+																									pos: position{line: 2868, col: 12, offset: 90832},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2868, col: 13, offset: 90831},
+																										pos: position{line: 2868, col: 13, offset: 90833},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2868, col: 13, offset: 90831},
+																												pos: position{line: 2868, col: 13, offset: 90833},
 																												expr: &litMatcher{
-																													pos:        position{line: 2868, col: 13, offset: 90831},
+																													pos:        position{line: 2868, col: 13, offset: 90833},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2868, col: 18, offset: 90836},
+																												pos: position{line: 2868, col: 18, offset: 90838},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2868, col: 18, offset: 90836},
+																													pos:        position{line: 2868, col: 18, offset: 90838},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3581,24 +3581,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 12, offset: 90830},
+																							pos: position{line: 2868, col: 12, offset: 90832},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2868, col: 13, offset: 90831},
+																								pos: position{line: 2868, col: 13, offset: 90833},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2868, col: 13, offset: 90831},
+																										pos: position{line: 2868, col: 13, offset: 90833},
 																										expr: &litMatcher{
-																											pos:        position{line: 2868, col: 13, offset: 90831},
+																											pos:        position{line: 2868, col: 13, offset: 90833},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2868, col: 18, offset: 90836},
+																										pos: position{line: 2868, col: 18, offset: 90838},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2868, col: 18, offset: 90836},
+																											pos:        position{line: 2868, col: 18, offset: 90838},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3631,24 +3631,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2868, col: 12, offset: 90830},
+														pos: position{line: 2868, col: 12, offset: 90832},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2868, col: 13, offset: 90831},
+															pos: position{line: 2868, col: 13, offset: 90833},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2868, col: 13, offset: 90831},
+																	pos: position{line: 2868, col: 13, offset: 90833},
 																	expr: &litMatcher{
-																		pos:        position{line: 2868, col: 13, offset: 90831},
+																		pos:        position{line: 2868, col: 13, offset: 90833},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2868, col: 18, offset: 90836},
+																	pos: position{line: 2868, col: 18, offset: 90838},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2868, col: 18, offset: 90836},
+																		pos:        position{line: 2868, col: 18, offset: 90838},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3669,24 +3669,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2868, col: 12, offset: 90830},
+														pos: position{line: 2868, col: 12, offset: 90832},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2868, col: 13, offset: 90831},
+															pos: position{line: 2868, col: 13, offset: 90833},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2868, col: 13, offset: 90831},
+																	pos: position{line: 2868, col: 13, offset: 90833},
 																	expr: &litMatcher{
-																		pos:        position{line: 2868, col: 13, offset: 90831},
+																		pos:        position{line: 2868, col: 13, offset: 90833},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2868, col: 18, offset: 90836},
+																	pos: position{line: 2868, col: 18, offset: 90838},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2868, col: 18, offset: 90836},
+																		pos:        position{line: 2868, col: 18, offset: 90838},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3707,24 +3707,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2868, col: 12, offset: 90830},
+												pos: position{line: 2868, col: 12, offset: 90832},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2868, col: 13, offset: 90831},
+													pos: position{line: 2868, col: 13, offset: 90833},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2868, col: 13, offset: 90831},
+															pos: position{line: 2868, col: 13, offset: 90833},
 															expr: &litMatcher{
-																pos:        position{line: 2868, col: 13, offset: 90831},
+																pos:        position{line: 2868, col: 13, offset: 90833},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2868, col: 18, offset: 90836},
+															pos: position{line: 2868, col: 18, offset: 90838},
 															expr: &charClassMatcher{
-																pos:        position{line: 2868, col: 18, offset: 90836},
+																pos:        position{line: 2868, col: 18, offset: 90838},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3740,9 +3740,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2895, col: 8, offset: 91351},
+							pos: position{line: 2895, col: 8, offset: 91353},
 							expr: &anyMatcher{
-								line: 2895, col: 9, offset: 91352,
+								line: 2895, col: 9, offset: 91354,
 							},
 						},
 					},
@@ -4067,9 +4067,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2895, col: 8, offset: 91351},
+							pos: position{line: 2895, col: 8, offset: 91353},
 							expr: &anyMatcher{
-								line: 2895, col: 9, offset: 91352,
+								line: 2895, col: 9, offset: 91354,
 							},
 						},
 					},
@@ -4193,28 +4193,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2898, col: 8, offset: 91401},
+							pos: position{line: 2898, col: 8, offset: 91403},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2885, col: 12, offset: 91174},
+									pos: position{line: 2885, col: 12, offset: 91176},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2885, col: 13, offset: 91175},
+										pos: position{line: 2885, col: 13, offset: 91177},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2885, col: 13, offset: 91175},
+												pos:        position{line: 2885, col: 13, offset: 91177},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 20, offset: 91182},
+												pos:        position{line: 2885, col: 20, offset: 91184},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 29, offset: 91191},
+												pos:        position{line: 2885, col: 29, offset: 91193},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4223,9 +4223,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2895, col: 8, offset: 91351},
+									pos: position{line: 2895, col: 8, offset: 91353},
 									expr: &anyMatcher{
-										line: 2895, col: 9, offset: 91352,
+										line: 2895, col: 9, offset: 91354,
 									},
 								},
 							},
@@ -4244,9 +4244,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2893, col: 11, offset: 91337},
+							pos: position{line: 2893, col: 11, offset: 91339},
 							expr: &anyMatcher{
-								line: 2893, col: 13, offset: 91339,
+								line: 2893, col: 13, offset: 91341,
 							},
 						},
 						&labeledExpr{
@@ -4341,10 +4341,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 359, col: 49, offset: 10879},
 														expr: &actionExpr{
-															pos: position{line: 2876, col: 10, offset: 91003},
+															pos: position{line: 2876, col: 10, offset: 91005},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2876, col: 10, offset: 91003},
+																pos:        position{line: 2876, col: 10, offset: 91005},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4353,28 +4353,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2898, col: 8, offset: 91401},
+														pos: position{line: 2898, col: 8, offset: 91403},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2885, col: 12, offset: 91174},
+																pos: position{line: 2885, col: 12, offset: 91176},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2885, col: 13, offset: 91175},
+																	pos: position{line: 2885, col: 13, offset: 91177},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 13, offset: 91175},
+																			pos:        position{line: 2885, col: 13, offset: 91177},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 20, offset: 91182},
+																			pos:        position{line: 2885, col: 20, offset: 91184},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 29, offset: 91191},
+																			pos:        position{line: 2885, col: 29, offset: 91193},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4383,9 +4383,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91351},
+																pos: position{line: 2895, col: 8, offset: 91353},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91352,
+																	line: 2895, col: 9, offset: 91354,
 																},
 															},
 														},
@@ -4446,10 +4446,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 361, col: 39, offset: 11000},
 														expr: &actionExpr{
-															pos: position{line: 2876, col: 10, offset: 91003},
+															pos: position{line: 2876, col: 10, offset: 91005},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2876, col: 10, offset: 91003},
+																pos:        position{line: 2876, col: 10, offset: 91005},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4458,28 +4458,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2898, col: 8, offset: 91401},
+														pos: position{line: 2898, col: 8, offset: 91403},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2885, col: 12, offset: 91174},
+																pos: position{line: 2885, col: 12, offset: 91176},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2885, col: 13, offset: 91175},
+																	pos: position{line: 2885, col: 13, offset: 91177},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 13, offset: 91175},
+																			pos:        position{line: 2885, col: 13, offset: 91177},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 20, offset: 91182},
+																			pos:        position{line: 2885, col: 20, offset: 91184},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 29, offset: 91191},
+																			pos:        position{line: 2885, col: 29, offset: 91193},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4488,9 +4488,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91351},
+																pos: position{line: 2895, col: 8, offset: 91353},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91352,
+																	line: 2895, col: 9, offset: 91354,
 																},
 															},
 														},
@@ -4499,24 +4499,24 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 676, col: 14, offset: 21496},
+											pos: position{line: 676, col: 14, offset: 21498},
 											run: (*parser).callonDocumentFragment58,
 											expr: &seqExpr{
-												pos: position{line: 676, col: 14, offset: 21496},
+												pos: position{line: 676, col: 14, offset: 21498},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2893, col: 11, offset: 91337},
+														pos: position{line: 2893, col: 11, offset: 91339},
 														expr: &anyMatcher{
-															line: 2893, col: 13, offset: 91339,
+															line: 2893, col: 13, offset: 91341,
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 676, col: 21, offset: 21503},
+														pos: position{line: 676, col: 21, offset: 21505},
 														expr: &actionExpr{
-															pos: position{line: 2876, col: 10, offset: 91003},
+															pos: position{line: 2876, col: 10, offset: 91005},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2876, col: 10, offset: 91003},
+																pos:        position{line: 2876, col: 10, offset: 91005},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4525,28 +4525,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2898, col: 8, offset: 91401},
+														pos: position{line: 2898, col: 8, offset: 91403},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2885, col: 12, offset: 91174},
+																pos: position{line: 2885, col: 12, offset: 91176},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2885, col: 13, offset: 91175},
+																	pos: position{line: 2885, col: 13, offset: 91177},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 13, offset: 91175},
+																			pos:        position{line: 2885, col: 13, offset: 91177},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 20, offset: 91182},
+																			pos:        position{line: 2885, col: 20, offset: 91184},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 29, offset: 91191},
+																			pos:        position{line: 2885, col: 29, offset: 91193},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4555,9 +4555,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91351},
+																pos: position{line: 2895, col: 8, offset: 91353},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91352,
+																	line: 2895, col: 9, offset: 91354,
 																},
 															},
 														},
@@ -4574,36 +4574,36 @@ var g = &grammar{
 											name: "Section",
 										},
 										&actionExpr{
-											pos: position{line: 819, col: 5, offset: 26336},
+											pos: position{line: 819, col: 5, offset: 26338},
 											run: (*parser).callonDocumentFragment75,
 											expr: &seqExpr{
-												pos: position{line: 819, col: 5, offset: 26336},
+												pos: position{line: 819, col: 5, offset: 26338},
 												exprs: []interface{}{
 													&actionExpr{
-														pos: position{line: 739, col: 5, offset: 23591},
+														pos: position{line: 739, col: 5, offset: 23593},
 														run: (*parser).callonDocumentFragment77,
 														expr: &seqExpr{
-															pos: position{line: 739, col: 5, offset: 23591},
+															pos: position{line: 739, col: 5, offset: 23593},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 739, col: 5, offset: 23591},
+																	pos:   position{line: 739, col: 5, offset: 23593},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 739, col: 16, offset: 23602},
+																		pos: position{line: 739, col: 16, offset: 23604},
 																		run: (*parser).callonDocumentFragment80,
 																		expr: &seqExpr{
-																			pos: position{line: 739, col: 16, offset: 23602},
+																			pos: position{line: 739, col: 16, offset: 23604},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 739, col: 16, offset: 23602},
+																					pos:        position{line: 739, col: 16, offset: 23604},
 																					val:        "////",
 																					ignoreCase: false,
 																					want:       "\"////\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 739, col: 23, offset: 23609},
+																					pos: position{line: 739, col: 23, offset: 23611},
 																					expr: &litMatcher{
-																						pos:        position{line: 739, col: 23, offset: 23609},
+																						pos:        position{line: 739, col: 23, offset: 23611},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
@@ -4614,12 +4614,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 741, col: 8, offset: 23693},
+																	pos: position{line: 741, col: 8, offset: 23695},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 91003},
+																		pos: position{line: 2876, col: 10, offset: 91005},
 																		run: (*parser).callonDocumentFragment86,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 91003},
+																			pos:        position{line: 2876, col: 10, offset: 91005},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -4628,28 +4628,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91401},
+																	pos: position{line: 2898, col: 8, offset: 91403},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91174},
+																			pos: position{line: 2885, col: 12, offset: 91176},
 																			run: (*parser).callonDocumentFragment89,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91175},
+																				pos: position{line: 2885, col: 13, offset: 91177},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91175},
+																						pos:        position{line: 2885, col: 13, offset: 91177},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91182},
+																						pos:        position{line: 2885, col: 20, offset: 91184},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91191},
+																						pos:        position{line: 2885, col: 29, offset: 91193},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -4658,9 +4658,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91351},
+																			pos: position{line: 2895, col: 8, offset: 91353},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91352,
+																				line: 2895, col: 9, offset: 91354,
 																			},
 																		},
 																	},
@@ -4669,46 +4669,46 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 820, col: 5, offset: 26367},
+														pos:   position{line: 820, col: 5, offset: 26369},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 830, col: 5, offset: 26653},
+															pos: position{line: 830, col: 5, offset: 26655},
 															expr: &actionExpr{
-																pos: position{line: 830, col: 6, offset: 26654},
+																pos: position{line: 830, col: 6, offset: 26656},
 																run: (*parser).callonDocumentFragment98,
 																expr: &seqExpr{
-																	pos: position{line: 830, col: 6, offset: 26654},
+																	pos: position{line: 830, col: 6, offset: 26656},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 830, col: 6, offset: 26654},
+																			pos: position{line: 830, col: 6, offset: 26656},
 																			expr: &choiceExpr{
-																				pos: position{line: 827, col: 29, offset: 26596},
+																				pos: position{line: 827, col: 29, offset: 26598},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 739, col: 5, offset: 23591},
+																						pos: position{line: 739, col: 5, offset: 23593},
 																						run: (*parser).callonDocumentFragment102,
 																						expr: &seqExpr{
-																							pos: position{line: 739, col: 5, offset: 23591},
+																							pos: position{line: 739, col: 5, offset: 23593},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 739, col: 5, offset: 23591},
+																									pos:   position{line: 739, col: 5, offset: 23593},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 739, col: 16, offset: 23602},
+																										pos: position{line: 739, col: 16, offset: 23604},
 																										run: (*parser).callonDocumentFragment105,
 																										expr: &seqExpr{
-																											pos: position{line: 739, col: 16, offset: 23602},
+																											pos: position{line: 739, col: 16, offset: 23604},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 739, col: 16, offset: 23602},
+																													pos:        position{line: 739, col: 16, offset: 23604},
 																													val:        "////",
 																													ignoreCase: false,
 																													want:       "\"////\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 739, col: 23, offset: 23609},
+																													pos: position{line: 739, col: 23, offset: 23611},
 																													expr: &litMatcher{
-																														pos:        position{line: 739, col: 23, offset: 23609},
+																														pos:        position{line: 739, col: 23, offset: 23611},
 																														val:        "/",
 																														ignoreCase: false,
 																														want:       "\"/\"",
@@ -4719,12 +4719,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 741, col: 8, offset: 23693},
+																									pos: position{line: 741, col: 8, offset: 23695},
 																									expr: &actionExpr{
-																										pos: position{line: 2876, col: 10, offset: 91003},
+																										pos: position{line: 2876, col: 10, offset: 91005},
 																										run: (*parser).callonDocumentFragment111,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2876, col: 10, offset: 91003},
+																											pos:        position{line: 2876, col: 10, offset: 91005},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -4733,28 +4733,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2898, col: 8, offset: 91401},
+																									pos: position{line: 2898, col: 8, offset: 91403},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2885, col: 12, offset: 91174},
+																											pos: position{line: 2885, col: 12, offset: 91176},
 																											run: (*parser).callonDocumentFragment114,
 																											expr: &choiceExpr{
-																												pos: position{line: 2885, col: 13, offset: 91175},
+																												pos: position{line: 2885, col: 13, offset: 91177},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 13, offset: 91175},
+																														pos:        position{line: 2885, col: 13, offset: 91177},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 20, offset: 91182},
+																														pos:        position{line: 2885, col: 20, offset: 91184},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 29, offset: 91191},
+																														pos:        position{line: 2885, col: 29, offset: 91193},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -4763,9 +4763,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2895, col: 8, offset: 91351},
+																											pos: position{line: 2895, col: 8, offset: 91353},
 																											expr: &anyMatcher{
-																												line: 2895, col: 9, offset: 91352,
+																												line: 2895, col: 9, offset: 91354,
 																											},
 																										},
 																									},
@@ -4774,39 +4774,39 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91351},
+																						pos: position{line: 2895, col: 8, offset: 91353},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91352,
+																							line: 2895, col: 9, offset: 91354,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 831, col: 5, offset: 26684},
+																			pos:   position{line: 831, col: 5, offset: 26686},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 810, col: 5, offset: 26100},
+																				pos: position{line: 810, col: 5, offset: 26102},
 																				run: (*parser).callonDocumentFragment124,
 																				expr: &seqExpr{
-																					pos: position{line: 810, col: 5, offset: 26100},
+																					pos: position{line: 810, col: 5, offset: 26102},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2893, col: 11, offset: 91337},
+																							pos: position{line: 2893, col: 11, offset: 91339},
 																							expr: &anyMatcher{
-																								line: 2893, col: 13, offset: 91339,
+																								line: 2893, col: 13, offset: 91341,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 811, col: 5, offset: 26175},
+																							pos:   position{line: 811, col: 5, offset: 26177},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2822, col: 13, offset: 89529},
+																								pos: position{line: 2822, col: 13, offset: 89531},
 																								run: (*parser).callonDocumentFragment129,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2822, col: 13, offset: 89529},
+																									pos: position{line: 2822, col: 13, offset: 89531},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2822, col: 13, offset: 89529},
+																										pos:        position{line: 2822, col: 13, offset: 89531},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4816,28 +4816,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91401},
+																							pos: position{line: 2898, col: 8, offset: 91403},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91174},
+																									pos: position{line: 2885, col: 12, offset: 91176},
 																									run: (*parser).callonDocumentFragment133,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91175},
+																										pos: position{line: 2885, col: 13, offset: 91177},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91175},
+																												pos:        position{line: 2885, col: 13, offset: 91177},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91182},
+																												pos:        position{line: 2885, col: 20, offset: 91184},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91191},
+																												pos:        position{line: 2885, col: 29, offset: 91193},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4846,9 +4846,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91351},
+																									pos: position{line: 2895, col: 8, offset: 91353},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91352,
+																										line: 2895, col: 9, offset: 91354,
 																									},
 																								},
 																							},
@@ -4863,35 +4863,35 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 821, col: 5, offset: 26401},
+														pos: position{line: 821, col: 5, offset: 26403},
 														expr: &choiceExpr{
-															pos: position{line: 827, col: 29, offset: 26596},
+															pos: position{line: 827, col: 29, offset: 26598},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 739, col: 5, offset: 23591},
+																	pos: position{line: 739, col: 5, offset: 23593},
 																	run: (*parser).callonDocumentFragment142,
 																	expr: &seqExpr{
-																		pos: position{line: 739, col: 5, offset: 23591},
+																		pos: position{line: 739, col: 5, offset: 23593},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 739, col: 5, offset: 23591},
+																				pos:   position{line: 739, col: 5, offset: 23593},
 																				label: "delimiter",
 																				expr: &actionExpr{
-																					pos: position{line: 739, col: 16, offset: 23602},
+																					pos: position{line: 739, col: 16, offset: 23604},
 																					run: (*parser).callonDocumentFragment145,
 																					expr: &seqExpr{
-																						pos: position{line: 739, col: 16, offset: 23602},
+																						pos: position{line: 739, col: 16, offset: 23604},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 739, col: 16, offset: 23602},
+																								pos:        position{line: 739, col: 16, offset: 23604},
 																								val:        "////",
 																								ignoreCase: false,
 																								want:       "\"////\"",
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 739, col: 23, offset: 23609},
+																								pos: position{line: 739, col: 23, offset: 23611},
 																								expr: &litMatcher{
-																									pos:        position{line: 739, col: 23, offset: 23609},
+																									pos:        position{line: 739, col: 23, offset: 23611},
 																									val:        "/",
 																									ignoreCase: false,
 																									want:       "\"/\"",
@@ -4902,12 +4902,12 @@ var g = &grammar{
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 741, col: 8, offset: 23693},
+																				pos: position{line: 741, col: 8, offset: 23695},
 																				expr: &actionExpr{
-																					pos: position{line: 2876, col: 10, offset: 91003},
+																					pos: position{line: 2876, col: 10, offset: 91005},
 																					run: (*parser).callonDocumentFragment151,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2876, col: 10, offset: 91003},
+																						pos:        position{line: 2876, col: 10, offset: 91005},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -4916,28 +4916,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2898, col: 8, offset: 91401},
+																				pos: position{line: 2898, col: 8, offset: 91403},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2885, col: 12, offset: 91174},
+																						pos: position{line: 2885, col: 12, offset: 91176},
 																						run: (*parser).callonDocumentFragment154,
 																						expr: &choiceExpr{
-																							pos: position{line: 2885, col: 13, offset: 91175},
+																							pos: position{line: 2885, col: 13, offset: 91177},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 13, offset: 91175},
+																									pos:        position{line: 2885, col: 13, offset: 91177},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 20, offset: 91182},
+																									pos:        position{line: 2885, col: 20, offset: 91184},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 29, offset: 91191},
+																									pos:        position{line: 2885, col: 29, offset: 91193},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -4946,9 +4946,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91351},
+																						pos: position{line: 2895, col: 8, offset: 91353},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91352,
+																							line: 2895, col: 9, offset: 91354,
 																						},
 																					},
 																				},
@@ -4957,9 +4957,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2895, col: 8, offset: 91351},
+																	pos: position{line: 2895, col: 8, offset: 91353},
 																	expr: &anyMatcher{
-																		line: 2895, col: 9, offset: 91352,
+																		line: 2895, col: 9, offset: 91354,
 																	},
 																},
 															},
@@ -4969,39 +4969,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 839, col: 5, offset: 26837},
+											pos: position{line: 839, col: 5, offset: 26839},
 											run: (*parser).callonDocumentFragment163,
 											expr: &seqExpr{
-												pos: position{line: 839, col: 5, offset: 26837},
+												pos: position{line: 839, col: 5, offset: 26839},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 839, col: 5, offset: 26837},
+														pos:   position{line: 839, col: 5, offset: 26839},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 746, col: 5, offset: 23839},
+															pos: position{line: 746, col: 5, offset: 23841},
 															run: (*parser).callonDocumentFragment166,
 															expr: &seqExpr{
-																pos: position{line: 746, col: 5, offset: 23839},
+																pos: position{line: 746, col: 5, offset: 23841},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 746, col: 5, offset: 23839},
+																		pos:   position{line: 746, col: 5, offset: 23841},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 746, col: 16, offset: 23850},
+																			pos: position{line: 746, col: 16, offset: 23852},
 																			run: (*parser).callonDocumentFragment169,
 																			expr: &seqExpr{
-																				pos: position{line: 746, col: 16, offset: 23850},
+																				pos: position{line: 746, col: 16, offset: 23852},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 746, col: 16, offset: 23850},
+																						pos:        position{line: 746, col: 16, offset: 23852},
 																						val:        "====",
 																						ignoreCase: false,
 																						want:       "\"====\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 746, col: 23, offset: 23857},
+																						pos: position{line: 746, col: 23, offset: 23859},
 																						expr: &litMatcher{
-																							pos:        position{line: 746, col: 23, offset: 23857},
+																							pos:        position{line: 746, col: 23, offset: 23859},
 																							val:        "=",
 																							ignoreCase: false,
 																							want:       "\"=\"",
@@ -5012,12 +5012,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 748, col: 8, offset: 23941},
+																		pos: position{line: 748, col: 8, offset: 23943},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 91003},
+																			pos: position{line: 2876, col: 10, offset: 91005},
 																			run: (*parser).callonDocumentFragment175,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 91003},
+																				pos:        position{line: 2876, col: 10, offset: 91005},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5026,28 +5026,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91401},
+																		pos: position{line: 2898, col: 8, offset: 91403},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91174},
+																				pos: position{line: 2885, col: 12, offset: 91176},
 																				run: (*parser).callonDocumentFragment178,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91175},
+																					pos: position{line: 2885, col: 13, offset: 91177},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91175},
+																							pos:        position{line: 2885, col: 13, offset: 91177},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91182},
+																							pos:        position{line: 2885, col: 20, offset: 91184},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91191},
+																							pos:        position{line: 2885, col: 29, offset: 91193},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5056,9 +5056,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91351},
+																				pos: position{line: 2895, col: 8, offset: 91353},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91352,
+																					line: 2895, col: 9, offset: 91354,
 																				},
 																			},
 																		},
@@ -5068,56 +5068,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 840, col: 5, offset: 26876},
+														pos: position{line: 840, col: 5, offset: 26878},
 														run: (*parser).callonDocumentFragment185,
 													},
 													&labeledExpr{
-														pos:   position{line: 843, col: 5, offset: 26968},
+														pos:   position{line: 843, col: 5, offset: 26970},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 858, col: 4, offset: 27365},
+															pos: position{line: 858, col: 4, offset: 27367},
 															expr: &actionExpr{
-																pos: position{line: 858, col: 5, offset: 27366},
+																pos: position{line: 858, col: 5, offset: 27368},
 																run: (*parser).callonDocumentFragment188,
 																expr: &seqExpr{
-																	pos: position{line: 858, col: 5, offset: 27366},
+																	pos: position{line: 858, col: 5, offset: 27368},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 858, col: 5, offset: 27366},
+																			pos: position{line: 858, col: 5, offset: 27368},
 																			expr: &choiceExpr{
-																				pos: position{line: 851, col: 5, offset: 27208},
+																				pos: position{line: 851, col: 5, offset: 27210},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 851, col: 5, offset: 27208},
+																						pos: position{line: 851, col: 5, offset: 27210},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 851, col: 5, offset: 27208},
+																								pos:   position{line: 851, col: 5, offset: 27210},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 746, col: 5, offset: 23839},
+																									pos: position{line: 746, col: 5, offset: 23841},
 																									run: (*parser).callonDocumentFragment194,
 																									expr: &seqExpr{
-																										pos: position{line: 746, col: 5, offset: 23839},
+																										pos: position{line: 746, col: 5, offset: 23841},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 746, col: 5, offset: 23839},
+																												pos:   position{line: 746, col: 5, offset: 23841},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 746, col: 16, offset: 23850},
+																													pos: position{line: 746, col: 16, offset: 23852},
 																													run: (*parser).callonDocumentFragment197,
 																													expr: &seqExpr{
-																														pos: position{line: 746, col: 16, offset: 23850},
+																														pos: position{line: 746, col: 16, offset: 23852},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 746, col: 16, offset: 23850},
+																																pos:        position{line: 746, col: 16, offset: 23852},
 																																val:        "====",
 																																ignoreCase: false,
 																																want:       "\"====\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 746, col: 23, offset: 23857},
+																																pos: position{line: 746, col: 23, offset: 23859},
 																																expr: &litMatcher{
-																																	pos:        position{line: 746, col: 23, offset: 23857},
+																																	pos:        position{line: 746, col: 23, offset: 23859},
 																																	val:        "=",
 																																	ignoreCase: false,
 																																	want:       "\"=\"",
@@ -5128,12 +5128,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 748, col: 8, offset: 23941},
+																												pos: position{line: 748, col: 8, offset: 23943},
 																												expr: &actionExpr{
-																													pos: position{line: 2876, col: 10, offset: 91003},
+																													pos: position{line: 2876, col: 10, offset: 91005},
 																													run: (*parser).callonDocumentFragment203,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2876, col: 10, offset: 91003},
+																														pos:        position{line: 2876, col: 10, offset: 91005},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5142,28 +5142,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2898, col: 8, offset: 91401},
+																												pos: position{line: 2898, col: 8, offset: 91403},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2885, col: 12, offset: 91174},
+																														pos: position{line: 2885, col: 12, offset: 91176},
 																														run: (*parser).callonDocumentFragment206,
 																														expr: &choiceExpr{
-																															pos: position{line: 2885, col: 13, offset: 91175},
+																															pos: position{line: 2885, col: 13, offset: 91177},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 13, offset: 91175},
+																																	pos:        position{line: 2885, col: 13, offset: 91177},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 20, offset: 91182},
+																																	pos:        position{line: 2885, col: 20, offset: 91184},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 29, offset: 91191},
+																																	pos:        position{line: 2885, col: 29, offset: 91193},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5172,9 +5172,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2895, col: 8, offset: 91351},
+																														pos: position{line: 2895, col: 8, offset: 91353},
 																														expr: &anyMatcher{
-																															line: 2895, col: 9, offset: 91352,
+																															line: 2895, col: 9, offset: 91354,
 																														},
 																													},
 																												},
@@ -5184,45 +5184,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 852, col: 5, offset: 27239},
+																								pos: position{line: 852, col: 5, offset: 27241},
 																								run: (*parser).callonDocumentFragment213,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91351},
+																						pos: position{line: 2895, col: 8, offset: 91353},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91352,
+																							line: 2895, col: 9, offset: 91354,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 859, col: 5, offset: 27396},
+																			pos:   position{line: 859, col: 5, offset: 27398},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 810, col: 5, offset: 26100},
+																				pos: position{line: 810, col: 5, offset: 26102},
 																				run: (*parser).callonDocumentFragment217,
 																				expr: &seqExpr{
-																					pos: position{line: 810, col: 5, offset: 26100},
+																					pos: position{line: 810, col: 5, offset: 26102},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2893, col: 11, offset: 91337},
+																							pos: position{line: 2893, col: 11, offset: 91339},
 																							expr: &anyMatcher{
-																								line: 2893, col: 13, offset: 91339,
+																								line: 2893, col: 13, offset: 91341,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 811, col: 5, offset: 26175},
+																							pos:   position{line: 811, col: 5, offset: 26177},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2822, col: 13, offset: 89529},
+																								pos: position{line: 2822, col: 13, offset: 89531},
 																								run: (*parser).callonDocumentFragment222,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2822, col: 13, offset: 89529},
+																									pos: position{line: 2822, col: 13, offset: 89531},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2822, col: 13, offset: 89529},
+																										pos:        position{line: 2822, col: 13, offset: 89531},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5232,28 +5232,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91401},
+																							pos: position{line: 2898, col: 8, offset: 91403},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91174},
+																									pos: position{line: 2885, col: 12, offset: 91176},
 																									run: (*parser).callonDocumentFragment226,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91175},
+																										pos: position{line: 2885, col: 13, offset: 91177},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91175},
+																												pos:        position{line: 2885, col: 13, offset: 91177},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91182},
+																												pos:        position{line: 2885, col: 20, offset: 91184},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91191},
+																												pos:        position{line: 2885, col: 29, offset: 91193},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5262,9 +5262,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91351},
+																									pos: position{line: 2895, col: 8, offset: 91353},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91352,
+																										line: 2895, col: 9, offset: 91354,
 																									},
 																								},
 																							},
@@ -5279,44 +5279,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 844, col: 5, offset: 27002},
+														pos:   position{line: 844, col: 5, offset: 27004},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 844, col: 9, offset: 27006},
+															pos: position{line: 844, col: 9, offset: 27008},
 															expr: &choiceExpr{
-																pos: position{line: 851, col: 5, offset: 27208},
+																pos: position{line: 851, col: 5, offset: 27210},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 851, col: 5, offset: 27208},
+																		pos: position{line: 851, col: 5, offset: 27210},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 851, col: 5, offset: 27208},
+																				pos:   position{line: 851, col: 5, offset: 27210},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 746, col: 5, offset: 23839},
+																					pos: position{line: 746, col: 5, offset: 23841},
 																					run: (*parser).callonDocumentFragment238,
 																					expr: &seqExpr{
-																						pos: position{line: 746, col: 5, offset: 23839},
+																						pos: position{line: 746, col: 5, offset: 23841},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 746, col: 5, offset: 23839},
+																								pos:   position{line: 746, col: 5, offset: 23841},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 746, col: 16, offset: 23850},
+																									pos: position{line: 746, col: 16, offset: 23852},
 																									run: (*parser).callonDocumentFragment241,
 																									expr: &seqExpr{
-																										pos: position{line: 746, col: 16, offset: 23850},
+																										pos: position{line: 746, col: 16, offset: 23852},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 746, col: 16, offset: 23850},
+																												pos:        position{line: 746, col: 16, offset: 23852},
 																												val:        "====",
 																												ignoreCase: false,
 																												want:       "\"====\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 746, col: 23, offset: 23857},
+																												pos: position{line: 746, col: 23, offset: 23859},
 																												expr: &litMatcher{
-																													pos:        position{line: 746, col: 23, offset: 23857},
+																													pos:        position{line: 746, col: 23, offset: 23859},
 																													val:        "=",
 																													ignoreCase: false,
 																													want:       "\"=\"",
@@ -5327,12 +5327,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 748, col: 8, offset: 23941},
+																								pos: position{line: 748, col: 8, offset: 23943},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 91003},
+																									pos: position{line: 2876, col: 10, offset: 91005},
 																									run: (*parser).callonDocumentFragment247,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 91003},
+																										pos:        position{line: 2876, col: 10, offset: 91005},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5341,28 +5341,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2898, col: 8, offset: 91401},
+																								pos: position{line: 2898, col: 8, offset: 91403},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2885, col: 12, offset: 91174},
+																										pos: position{line: 2885, col: 12, offset: 91176},
 																										run: (*parser).callonDocumentFragment250,
 																										expr: &choiceExpr{
-																											pos: position{line: 2885, col: 13, offset: 91175},
+																											pos: position{line: 2885, col: 13, offset: 91177},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 13, offset: 91175},
+																													pos:        position{line: 2885, col: 13, offset: 91177},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 20, offset: 91182},
+																													pos:        position{line: 2885, col: 20, offset: 91184},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 29, offset: 91191},
+																													pos:        position{line: 2885, col: 29, offset: 91193},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5371,9 +5371,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2895, col: 8, offset: 91351},
+																										pos: position{line: 2895, col: 8, offset: 91353},
 																										expr: &anyMatcher{
-																											line: 2895, col: 9, offset: 91352,
+																											line: 2895, col: 9, offset: 91354,
 																										},
 																									},
 																								},
@@ -5383,15 +5383,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 852, col: 5, offset: 27239},
+																				pos: position{line: 852, col: 5, offset: 27241},
 																				run: (*parser).callonDocumentFragment257,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91351},
+																		pos: position{line: 2895, col: 8, offset: 91353},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91352,
+																			line: 2895, col: 9, offset: 91354,
 																		},
 																	},
 																},
@@ -5402,36 +5402,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 951, col: 5, offset: 29688},
+											pos: position{line: 951, col: 5, offset: 29690},
 											run: (*parser).callonDocumentFragment260,
 											expr: &seqExpr{
-												pos: position{line: 951, col: 5, offset: 29688},
+												pos: position{line: 951, col: 5, offset: 29690},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 951, col: 5, offset: 29688},
+														pos:   position{line: 951, col: 5, offset: 29690},
 														label: "delimiter",
 														expr: &actionExpr{
-															pos: position{line: 759, col: 26, offset: 24327},
+															pos: position{line: 759, col: 26, offset: 24329},
 															run: (*parser).callonDocumentFragment263,
 															expr: &seqExpr{
-																pos: position{line: 759, col: 26, offset: 24327},
+																pos: position{line: 759, col: 26, offset: 24329},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 759, col: 26, offset: 24327},
+																		pos:        position{line: 759, col: 26, offset: 24329},
 																		val:        "```",
 																		ignoreCase: false,
 																		want:       "\"```\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 759, col: 32, offset: 24333},
+																		pos:   position{line: 759, col: 32, offset: 24335},
 																		label: "language",
 																		expr: &actionExpr{
-																			pos: position{line: 763, col: 13, offset: 24463},
+																			pos: position{line: 763, col: 13, offset: 24465},
 																			run: (*parser).callonDocumentFragment267,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 763, col: 14, offset: 24464},
+																				pos: position{line: 763, col: 14, offset: 24466},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 763, col: 14, offset: 24464},
+																					pos:        position{line: 763, col: 14, offset: 24466},
 																					val:        "[^\\r\\n`\\t ]",
 																					chars:      []rune{'\r', '\n', '`', '\t', ' '},
 																					ignoreCase: false,
@@ -5441,12 +5441,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 759, col: 52, offset: 24353},
+																		pos: position{line: 759, col: 52, offset: 24355},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 91003},
+																			pos: position{line: 2876, col: 10, offset: 91005},
 																			run: (*parser).callonDocumentFragment271,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 91003},
+																				pos:        position{line: 2876, col: 10, offset: 91005},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5455,28 +5455,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91401},
+																		pos: position{line: 2898, col: 8, offset: 91403},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91174},
+																				pos: position{line: 2885, col: 12, offset: 91176},
 																				run: (*parser).callonDocumentFragment274,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91175},
+																					pos: position{line: 2885, col: 13, offset: 91177},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91175},
+																							pos:        position{line: 2885, col: 13, offset: 91177},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91182},
+																							pos:        position{line: 2885, col: 20, offset: 91184},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91191},
+																							pos:        position{line: 2885, col: 29, offset: 91193},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5485,9 +5485,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91351},
+																				pos: position{line: 2895, col: 8, offset: 91353},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91352,
+																					line: 2895, col: 9, offset: 91354,
 																				},
 																			},
 																		},
@@ -5497,34 +5497,34 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 952, col: 5, offset: 29734},
+														pos:   position{line: 952, col: 5, offset: 29736},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 965, col: 5, offset: 30207},
+															pos: position{line: 965, col: 5, offset: 30209},
 															expr: &actionExpr{
-																pos: position{line: 965, col: 6, offset: 30208},
+																pos: position{line: 965, col: 6, offset: 30210},
 																run: (*parser).callonDocumentFragment283,
 																expr: &seqExpr{
-																	pos: position{line: 965, col: 6, offset: 30208},
+																	pos: position{line: 965, col: 6, offset: 30210},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 965, col: 6, offset: 30208},
+																			pos: position{line: 965, col: 6, offset: 30210},
 																			expr: &seqExpr{
-																				pos: position{line: 962, col: 34, offset: 30155},
+																				pos: position{line: 962, col: 34, offset: 30157},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 962, col: 34, offset: 30155},
+																						pos:        position{line: 962, col: 34, offset: 30157},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 962, col: 40, offset: 30161},
+																						pos: position{line: 962, col: 40, offset: 30163},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 91003},
+																							pos: position{line: 2876, col: 10, offset: 91005},
 																							run: (*parser).callonDocumentFragment289,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 91003},
+																								pos:        position{line: 2876, col: 10, offset: 91005},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5533,28 +5533,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91401},
+																						pos: position{line: 2898, col: 8, offset: 91403},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91174},
+																								pos: position{line: 2885, col: 12, offset: 91176},
 																								run: (*parser).callonDocumentFragment292,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91175},
+																									pos: position{line: 2885, col: 13, offset: 91177},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91175},
+																											pos:        position{line: 2885, col: 13, offset: 91177},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91182},
+																											pos:        position{line: 2885, col: 20, offset: 91184},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91191},
+																											pos:        position{line: 2885, col: 29, offset: 91193},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5563,9 +5563,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91351},
+																								pos: position{line: 2895, col: 8, offset: 91353},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91352,
+																									line: 2895, col: 9, offset: 91354,
 																								},
 																							},
 																						},
@@ -5574,30 +5574,30 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 966, col: 5, offset: 30243},
+																			pos:   position{line: 966, col: 5, offset: 30245},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 810, col: 5, offset: 26100},
+																				pos: position{line: 810, col: 5, offset: 26102},
 																				run: (*parser).callonDocumentFragment300,
 																				expr: &seqExpr{
-																					pos: position{line: 810, col: 5, offset: 26100},
+																					pos: position{line: 810, col: 5, offset: 26102},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2893, col: 11, offset: 91337},
+																							pos: position{line: 2893, col: 11, offset: 91339},
 																							expr: &anyMatcher{
-																								line: 2893, col: 13, offset: 91339,
+																								line: 2893, col: 13, offset: 91341,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 811, col: 5, offset: 26175},
+																							pos:   position{line: 811, col: 5, offset: 26177},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2822, col: 13, offset: 89529},
+																								pos: position{line: 2822, col: 13, offset: 89531},
 																								run: (*parser).callonDocumentFragment305,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2822, col: 13, offset: 89529},
+																									pos: position{line: 2822, col: 13, offset: 89531},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2822, col: 13, offset: 89529},
+																										pos:        position{line: 2822, col: 13, offset: 89531},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5607,28 +5607,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91401},
+																							pos: position{line: 2898, col: 8, offset: 91403},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91174},
+																									pos: position{line: 2885, col: 12, offset: 91176},
 																									run: (*parser).callonDocumentFragment309,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91175},
+																										pos: position{line: 2885, col: 13, offset: 91177},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91175},
+																												pos:        position{line: 2885, col: 13, offset: 91177},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91182},
+																												pos:        position{line: 2885, col: 20, offset: 91184},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91191},
+																												pos:        position{line: 2885, col: 29, offset: 91193},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5637,9 +5637,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91351},
+																									pos: position{line: 2895, col: 8, offset: 91353},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91352,
+																										line: 2895, col: 9, offset: 91354,
 																									},
 																								},
 																							},
@@ -5654,23 +5654,23 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 953, col: 5, offset: 29773},
+														pos: position{line: 953, col: 5, offset: 29775},
 														expr: &seqExpr{
-															pos: position{line: 962, col: 34, offset: 30155},
+															pos: position{line: 962, col: 34, offset: 30157},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 962, col: 34, offset: 30155},
+																	pos:        position{line: 962, col: 34, offset: 30157},
 																	val:        "```",
 																	ignoreCase: false,
 																	want:       "\"```\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 962, col: 40, offset: 30161},
+																	pos: position{line: 962, col: 40, offset: 30163},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 91003},
+																		pos: position{line: 2876, col: 10, offset: 91005},
 																		run: (*parser).callonDocumentFragment320,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 91003},
+																			pos:        position{line: 2876, col: 10, offset: 91005},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5679,28 +5679,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91401},
+																	pos: position{line: 2898, col: 8, offset: 91403},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91174},
+																			pos: position{line: 2885, col: 12, offset: 91176},
 																			run: (*parser).callonDocumentFragment323,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91175},
+																				pos: position{line: 2885, col: 13, offset: 91177},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91175},
+																						pos:        position{line: 2885, col: 13, offset: 91177},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91182},
+																						pos:        position{line: 2885, col: 20, offset: 91184},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91191},
+																						pos:        position{line: 2885, col: 29, offset: 91193},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5709,9 +5709,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91351},
+																			pos: position{line: 2895, col: 8, offset: 91353},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91352,
+																				line: 2895, col: 9, offset: 91354,
 																			},
 																		},
 																	},
@@ -5723,39 +5723,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 867, col: 5, offset: 27549},
+											pos: position{line: 867, col: 5, offset: 27551},
 											run: (*parser).callonDocumentFragment330,
 											expr: &seqExpr{
-												pos: position{line: 867, col: 5, offset: 27549},
+												pos: position{line: 867, col: 5, offset: 27551},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 867, col: 5, offset: 27549},
+														pos:   position{line: 867, col: 5, offset: 27551},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 753, col: 5, offset: 24086},
+															pos: position{line: 753, col: 5, offset: 24088},
 															run: (*parser).callonDocumentFragment333,
 															expr: &seqExpr{
-																pos: position{line: 753, col: 5, offset: 24086},
+																pos: position{line: 753, col: 5, offset: 24088},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 753, col: 5, offset: 24086},
+																		pos:   position{line: 753, col: 5, offset: 24088},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 753, col: 16, offset: 24097},
+																			pos: position{line: 753, col: 16, offset: 24099},
 																			run: (*parser).callonDocumentFragment336,
 																			expr: &seqExpr{
-																				pos: position{line: 753, col: 16, offset: 24097},
+																				pos: position{line: 753, col: 16, offset: 24099},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 753, col: 16, offset: 24097},
+																						pos:        position{line: 753, col: 16, offset: 24099},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 753, col: 22, offset: 24103},
+																						pos: position{line: 753, col: 22, offset: 24105},
 																						expr: &litMatcher{
-																							pos:        position{line: 753, col: 22, offset: 24103},
+																							pos:        position{line: 753, col: 22, offset: 24105},
 																							val:        "`",
 																							ignoreCase: false,
 																							want:       "\"`\"",
@@ -5766,12 +5766,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 755, col: 8, offset: 24187},
+																		pos: position{line: 755, col: 8, offset: 24189},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 91003},
+																			pos: position{line: 2876, col: 10, offset: 91005},
 																			run: (*parser).callonDocumentFragment342,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 91003},
+																				pos:        position{line: 2876, col: 10, offset: 91005},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5780,28 +5780,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91401},
+																		pos: position{line: 2898, col: 8, offset: 91403},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91174},
+																				pos: position{line: 2885, col: 12, offset: 91176},
 																				run: (*parser).callonDocumentFragment345,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91175},
+																					pos: position{line: 2885, col: 13, offset: 91177},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91175},
+																							pos:        position{line: 2885, col: 13, offset: 91177},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91182},
+																							pos:        position{line: 2885, col: 20, offset: 91184},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91191},
+																							pos:        position{line: 2885, col: 29, offset: 91193},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5810,9 +5810,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91351},
+																				pos: position{line: 2895, col: 8, offset: 91353},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91352,
+																					line: 2895, col: 9, offset: 91354,
 																				},
 																			},
 																		},
@@ -5822,56 +5822,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 868, col: 5, offset: 27587},
+														pos: position{line: 868, col: 5, offset: 27589},
 														run: (*parser).callonDocumentFragment352,
 													},
 													&labeledExpr{
-														pos:   position{line: 871, col: 5, offset: 27679},
+														pos:   position{line: 871, col: 5, offset: 27681},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 886, col: 5, offset: 28069},
+															pos: position{line: 886, col: 5, offset: 28071},
 															expr: &actionExpr{
-																pos: position{line: 886, col: 6, offset: 28070},
+																pos: position{line: 886, col: 6, offset: 28072},
 																run: (*parser).callonDocumentFragment355,
 																expr: &seqExpr{
-																	pos: position{line: 886, col: 6, offset: 28070},
+																	pos: position{line: 886, col: 6, offset: 28072},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 886, col: 6, offset: 28070},
+																			pos: position{line: 886, col: 6, offset: 28072},
 																			expr: &choiceExpr{
-																				pos: position{line: 879, col: 5, offset: 27913},
+																				pos: position{line: 879, col: 5, offset: 27915},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 879, col: 5, offset: 27913},
+																						pos: position{line: 879, col: 5, offset: 27915},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 879, col: 5, offset: 27913},
+																								pos:   position{line: 879, col: 5, offset: 27915},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 753, col: 5, offset: 24086},
+																									pos: position{line: 753, col: 5, offset: 24088},
 																									run: (*parser).callonDocumentFragment361,
 																									expr: &seqExpr{
-																										pos: position{line: 753, col: 5, offset: 24086},
+																										pos: position{line: 753, col: 5, offset: 24088},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 753, col: 5, offset: 24086},
+																												pos:   position{line: 753, col: 5, offset: 24088},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 753, col: 16, offset: 24097},
+																													pos: position{line: 753, col: 16, offset: 24099},
 																													run: (*parser).callonDocumentFragment364,
 																													expr: &seqExpr{
-																														pos: position{line: 753, col: 16, offset: 24097},
+																														pos: position{line: 753, col: 16, offset: 24099},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 753, col: 16, offset: 24097},
+																																pos:        position{line: 753, col: 16, offset: 24099},
 																																val:        "```",
 																																ignoreCase: false,
 																																want:       "\"```\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 753, col: 22, offset: 24103},
+																																pos: position{line: 753, col: 22, offset: 24105},
 																																expr: &litMatcher{
-																																	pos:        position{line: 753, col: 22, offset: 24103},
+																																	pos:        position{line: 753, col: 22, offset: 24105},
 																																	val:        "`",
 																																	ignoreCase: false,
 																																	want:       "\"`\"",
@@ -5882,12 +5882,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 755, col: 8, offset: 24187},
+																												pos: position{line: 755, col: 8, offset: 24189},
 																												expr: &actionExpr{
-																													pos: position{line: 2876, col: 10, offset: 91003},
+																													pos: position{line: 2876, col: 10, offset: 91005},
 																													run: (*parser).callonDocumentFragment370,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2876, col: 10, offset: 91003},
+																														pos:        position{line: 2876, col: 10, offset: 91005},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5896,28 +5896,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2898, col: 8, offset: 91401},
+																												pos: position{line: 2898, col: 8, offset: 91403},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2885, col: 12, offset: 91174},
+																														pos: position{line: 2885, col: 12, offset: 91176},
 																														run: (*parser).callonDocumentFragment373,
 																														expr: &choiceExpr{
-																															pos: position{line: 2885, col: 13, offset: 91175},
+																															pos: position{line: 2885, col: 13, offset: 91177},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 13, offset: 91175},
+																																	pos:        position{line: 2885, col: 13, offset: 91177},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 20, offset: 91182},
+																																	pos:        position{line: 2885, col: 20, offset: 91184},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 29, offset: 91191},
+																																	pos:        position{line: 2885, col: 29, offset: 91193},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5926,9 +5926,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2895, col: 8, offset: 91351},
+																														pos: position{line: 2895, col: 8, offset: 91353},
 																														expr: &anyMatcher{
-																															line: 2895, col: 9, offset: 91352,
+																															line: 2895, col: 9, offset: 91354,
 																														},
 																													},
 																												},
@@ -5938,45 +5938,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 880, col: 5, offset: 27943},
+																								pos: position{line: 880, col: 5, offset: 27945},
 																								run: (*parser).callonDocumentFragment380,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91351},
+																						pos: position{line: 2895, col: 8, offset: 91353},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91352,
+																							line: 2895, col: 9, offset: 91354,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 887, col: 5, offset: 28099},
+																			pos:   position{line: 887, col: 5, offset: 28101},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 810, col: 5, offset: 26100},
+																				pos: position{line: 810, col: 5, offset: 26102},
 																				run: (*parser).callonDocumentFragment384,
 																				expr: &seqExpr{
-																					pos: position{line: 810, col: 5, offset: 26100},
+																					pos: position{line: 810, col: 5, offset: 26102},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2893, col: 11, offset: 91337},
+																							pos: position{line: 2893, col: 11, offset: 91339},
 																							expr: &anyMatcher{
-																								line: 2893, col: 13, offset: 91339,
+																								line: 2893, col: 13, offset: 91341,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 811, col: 5, offset: 26175},
+																							pos:   position{line: 811, col: 5, offset: 26177},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2822, col: 13, offset: 89529},
+																								pos: position{line: 2822, col: 13, offset: 89531},
 																								run: (*parser).callonDocumentFragment389,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2822, col: 13, offset: 89529},
+																									pos: position{line: 2822, col: 13, offset: 89531},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2822, col: 13, offset: 89529},
+																										pos:        position{line: 2822, col: 13, offset: 89531},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5986,28 +5986,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91401},
+																							pos: position{line: 2898, col: 8, offset: 91403},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91174},
+																									pos: position{line: 2885, col: 12, offset: 91176},
 																									run: (*parser).callonDocumentFragment393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91175},
+																										pos: position{line: 2885, col: 13, offset: 91177},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91175},
+																												pos:        position{line: 2885, col: 13, offset: 91177},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91182},
+																												pos:        position{line: 2885, col: 20, offset: 91184},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91191},
+																												pos:        position{line: 2885, col: 29, offset: 91193},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6016,9 +6016,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91351},
+																									pos: position{line: 2895, col: 8, offset: 91353},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91352,
+																										line: 2895, col: 9, offset: 91354,
 																									},
 																								},
 																							},
@@ -6033,44 +6033,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 872, col: 5, offset: 27712},
+														pos:   position{line: 872, col: 5, offset: 27714},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 872, col: 9, offset: 27716},
+															pos: position{line: 872, col: 9, offset: 27718},
 															expr: &choiceExpr{
-																pos: position{line: 879, col: 5, offset: 27913},
+																pos: position{line: 879, col: 5, offset: 27915},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 879, col: 5, offset: 27913},
+																		pos: position{line: 879, col: 5, offset: 27915},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 879, col: 5, offset: 27913},
+																				pos:   position{line: 879, col: 5, offset: 27915},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 753, col: 5, offset: 24086},
+																					pos: position{line: 753, col: 5, offset: 24088},
 																					run: (*parser).callonDocumentFragment405,
 																					expr: &seqExpr{
-																						pos: position{line: 753, col: 5, offset: 24086},
+																						pos: position{line: 753, col: 5, offset: 24088},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 753, col: 5, offset: 24086},
+																								pos:   position{line: 753, col: 5, offset: 24088},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 753, col: 16, offset: 24097},
+																									pos: position{line: 753, col: 16, offset: 24099},
 																									run: (*parser).callonDocumentFragment408,
 																									expr: &seqExpr{
-																										pos: position{line: 753, col: 16, offset: 24097},
+																										pos: position{line: 753, col: 16, offset: 24099},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 753, col: 16, offset: 24097},
+																												pos:        position{line: 753, col: 16, offset: 24099},
 																												val:        "```",
 																												ignoreCase: false,
 																												want:       "\"```\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 753, col: 22, offset: 24103},
+																												pos: position{line: 753, col: 22, offset: 24105},
 																												expr: &litMatcher{
-																													pos:        position{line: 753, col: 22, offset: 24103},
+																													pos:        position{line: 753, col: 22, offset: 24105},
 																													val:        "`",
 																													ignoreCase: false,
 																													want:       "\"`\"",
@@ -6081,12 +6081,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 755, col: 8, offset: 24187},
+																								pos: position{line: 755, col: 8, offset: 24189},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 91003},
+																									pos: position{line: 2876, col: 10, offset: 91005},
 																									run: (*parser).callonDocumentFragment414,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 91003},
+																										pos:        position{line: 2876, col: 10, offset: 91005},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6095,28 +6095,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2898, col: 8, offset: 91401},
+																								pos: position{line: 2898, col: 8, offset: 91403},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2885, col: 12, offset: 91174},
+																										pos: position{line: 2885, col: 12, offset: 91176},
 																										run: (*parser).callonDocumentFragment417,
 																										expr: &choiceExpr{
-																											pos: position{line: 2885, col: 13, offset: 91175},
+																											pos: position{line: 2885, col: 13, offset: 91177},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 13, offset: 91175},
+																													pos:        position{line: 2885, col: 13, offset: 91177},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 20, offset: 91182},
+																													pos:        position{line: 2885, col: 20, offset: 91184},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 29, offset: 91191},
+																													pos:        position{line: 2885, col: 29, offset: 91193},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6125,9 +6125,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2895, col: 8, offset: 91351},
+																										pos: position{line: 2895, col: 8, offset: 91353},
 																										expr: &anyMatcher{
-																											line: 2895, col: 9, offset: 91352,
+																											line: 2895, col: 9, offset: 91354,
 																										},
 																									},
 																								},
@@ -6137,15 +6137,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 880, col: 5, offset: 27943},
+																				pos: position{line: 880, col: 5, offset: 27945},
 																				run: (*parser).callonDocumentFragment424,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91351},
+																		pos: position{line: 2895, col: 8, offset: 91353},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91352,
+																			line: 2895, col: 9, offset: 91354,
 																		},
 																	},
 																},
@@ -6156,39 +6156,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 895, col: 5, offset: 28254},
+											pos: position{line: 895, col: 5, offset: 28256},
 											run: (*parser).callonDocumentFragment427,
 											expr: &seqExpr{
-												pos: position{line: 895, col: 5, offset: 28254},
+												pos: position{line: 895, col: 5, offset: 28256},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 895, col: 5, offset: 28254},
+														pos:   position{line: 895, col: 5, offset: 28256},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 768, col: 5, offset: 24628},
+															pos: position{line: 768, col: 5, offset: 24630},
 															run: (*parser).callonDocumentFragment430,
 															expr: &seqExpr{
-																pos: position{line: 768, col: 5, offset: 24628},
+																pos: position{line: 768, col: 5, offset: 24630},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 768, col: 5, offset: 24628},
+																		pos:   position{line: 768, col: 5, offset: 24630},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 768, col: 16, offset: 24639},
+																			pos: position{line: 768, col: 16, offset: 24641},
 																			run: (*parser).callonDocumentFragment433,
 																			expr: &seqExpr{
-																				pos: position{line: 768, col: 16, offset: 24639},
+																				pos: position{line: 768, col: 16, offset: 24641},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 768, col: 16, offset: 24639},
+																						pos:        position{line: 768, col: 16, offset: 24641},
 																						val:        "----",
 																						ignoreCase: false,
 																						want:       "\"----\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 768, col: 23, offset: 24646},
+																						pos: position{line: 768, col: 23, offset: 24648},
 																						expr: &litMatcher{
-																							pos:        position{line: 768, col: 23, offset: 24646},
+																							pos:        position{line: 768, col: 23, offset: 24648},
 																							val:        "-",
 																							ignoreCase: false,
 																							want:       "\"-\"",
@@ -6199,12 +6199,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 770, col: 8, offset: 24730},
+																		pos: position{line: 770, col: 8, offset: 24732},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 91003},
+																			pos: position{line: 2876, col: 10, offset: 91005},
 																			run: (*parser).callonDocumentFragment439,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 91003},
+																				pos:        position{line: 2876, col: 10, offset: 91005},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6213,28 +6213,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91401},
+																		pos: position{line: 2898, col: 8, offset: 91403},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91174},
+																				pos: position{line: 2885, col: 12, offset: 91176},
 																				run: (*parser).callonDocumentFragment442,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91175},
+																					pos: position{line: 2885, col: 13, offset: 91177},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91175},
+																							pos:        position{line: 2885, col: 13, offset: 91177},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91182},
+																							pos:        position{line: 2885, col: 20, offset: 91184},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91191},
+																							pos:        position{line: 2885, col: 29, offset: 91193},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6243,9 +6243,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91351},
+																				pos: position{line: 2895, col: 8, offset: 91353},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91352,
+																					line: 2895, col: 9, offset: 91354,
 																				},
 																			},
 																		},
@@ -6255,56 +6255,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 896, col: 5, offset: 28293},
+														pos: position{line: 896, col: 5, offset: 28295},
 														run: (*parser).callonDocumentFragment449,
 													},
 													&labeledExpr{
-														pos:   position{line: 899, col: 5, offset: 28385},
+														pos:   position{line: 899, col: 5, offset: 28387},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 914, col: 5, offset: 28783},
+															pos: position{line: 914, col: 5, offset: 28785},
 															expr: &actionExpr{
-																pos: position{line: 914, col: 6, offset: 28784},
+																pos: position{line: 914, col: 6, offset: 28786},
 																run: (*parser).callonDocumentFragment452,
 																expr: &seqExpr{
-																	pos: position{line: 914, col: 6, offset: 28784},
+																	pos: position{line: 914, col: 6, offset: 28786},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 914, col: 6, offset: 28784},
+																			pos: position{line: 914, col: 6, offset: 28786},
 																			expr: &choiceExpr{
-																				pos: position{line: 907, col: 5, offset: 28625},
+																				pos: position{line: 907, col: 5, offset: 28627},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 907, col: 5, offset: 28625},
+																						pos: position{line: 907, col: 5, offset: 28627},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 907, col: 5, offset: 28625},
+																								pos:   position{line: 907, col: 5, offset: 28627},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 768, col: 5, offset: 24628},
+																									pos: position{line: 768, col: 5, offset: 24630},
 																									run: (*parser).callonDocumentFragment458,
 																									expr: &seqExpr{
-																										pos: position{line: 768, col: 5, offset: 24628},
+																										pos: position{line: 768, col: 5, offset: 24630},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 768, col: 5, offset: 24628},
+																												pos:   position{line: 768, col: 5, offset: 24630},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 768, col: 16, offset: 24639},
+																													pos: position{line: 768, col: 16, offset: 24641},
 																													run: (*parser).callonDocumentFragment461,
 																													expr: &seqExpr{
-																														pos: position{line: 768, col: 16, offset: 24639},
+																														pos: position{line: 768, col: 16, offset: 24641},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 768, col: 16, offset: 24639},
+																																pos:        position{line: 768, col: 16, offset: 24641},
 																																val:        "----",
 																																ignoreCase: false,
 																																want:       "\"----\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 768, col: 23, offset: 24646},
+																																pos: position{line: 768, col: 23, offset: 24648},
 																																expr: &litMatcher{
-																																	pos:        position{line: 768, col: 23, offset: 24646},
+																																	pos:        position{line: 768, col: 23, offset: 24648},
 																																	val:        "-",
 																																	ignoreCase: false,
 																																	want:       "\"-\"",
@@ -6315,12 +6315,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 770, col: 8, offset: 24730},
+																												pos: position{line: 770, col: 8, offset: 24732},
 																												expr: &actionExpr{
-																													pos: position{line: 2876, col: 10, offset: 91003},
+																													pos: position{line: 2876, col: 10, offset: 91005},
 																													run: (*parser).callonDocumentFragment467,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2876, col: 10, offset: 91003},
+																														pos:        position{line: 2876, col: 10, offset: 91005},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6329,28 +6329,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2898, col: 8, offset: 91401},
+																												pos: position{line: 2898, col: 8, offset: 91403},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2885, col: 12, offset: 91174},
+																														pos: position{line: 2885, col: 12, offset: 91176},
 																														run: (*parser).callonDocumentFragment470,
 																														expr: &choiceExpr{
-																															pos: position{line: 2885, col: 13, offset: 91175},
+																															pos: position{line: 2885, col: 13, offset: 91177},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 13, offset: 91175},
+																																	pos:        position{line: 2885, col: 13, offset: 91177},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 20, offset: 91182},
+																																	pos:        position{line: 2885, col: 20, offset: 91184},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 29, offset: 91191},
+																																	pos:        position{line: 2885, col: 29, offset: 91193},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6359,9 +6359,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2895, col: 8, offset: 91351},
+																														pos: position{line: 2895, col: 8, offset: 91353},
 																														expr: &anyMatcher{
-																															line: 2895, col: 9, offset: 91352,
+																															line: 2895, col: 9, offset: 91354,
 																														},
 																													},
 																												},
@@ -6371,45 +6371,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 908, col: 5, offset: 28656},
+																								pos: position{line: 908, col: 5, offset: 28658},
 																								run: (*parser).callonDocumentFragment477,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91351},
+																						pos: position{line: 2895, col: 8, offset: 91353},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91352,
+																							line: 2895, col: 9, offset: 91354,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 915, col: 5, offset: 28814},
+																			pos:   position{line: 915, col: 5, offset: 28816},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 810, col: 5, offset: 26100},
+																				pos: position{line: 810, col: 5, offset: 26102},
 																				run: (*parser).callonDocumentFragment481,
 																				expr: &seqExpr{
-																					pos: position{line: 810, col: 5, offset: 26100},
+																					pos: position{line: 810, col: 5, offset: 26102},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2893, col: 11, offset: 91337},
+																							pos: position{line: 2893, col: 11, offset: 91339},
 																							expr: &anyMatcher{
-																								line: 2893, col: 13, offset: 91339,
+																								line: 2893, col: 13, offset: 91341,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 811, col: 5, offset: 26175},
+																							pos:   position{line: 811, col: 5, offset: 26177},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2822, col: 13, offset: 89529},
+																								pos: position{line: 2822, col: 13, offset: 89531},
 																								run: (*parser).callonDocumentFragment486,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2822, col: 13, offset: 89529},
+																									pos: position{line: 2822, col: 13, offset: 89531},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2822, col: 13, offset: 89529},
+																										pos:        position{line: 2822, col: 13, offset: 89531},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6419,28 +6419,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91401},
+																							pos: position{line: 2898, col: 8, offset: 91403},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91174},
+																									pos: position{line: 2885, col: 12, offset: 91176},
 																									run: (*parser).callonDocumentFragment490,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91175},
+																										pos: position{line: 2885, col: 13, offset: 91177},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91175},
+																												pos:        position{line: 2885, col: 13, offset: 91177},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91182},
+																												pos:        position{line: 2885, col: 20, offset: 91184},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91191},
+																												pos:        position{line: 2885, col: 29, offset: 91193},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6449,9 +6449,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91351},
+																									pos: position{line: 2895, col: 8, offset: 91353},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91352,
+																										line: 2895, col: 9, offset: 91354,
 																									},
 																								},
 																							},
@@ -6466,44 +6466,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 900, col: 5, offset: 28419},
+														pos:   position{line: 900, col: 5, offset: 28421},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 900, col: 9, offset: 28423},
+															pos: position{line: 900, col: 9, offset: 28425},
 															expr: &choiceExpr{
-																pos: position{line: 907, col: 5, offset: 28625},
+																pos: position{line: 907, col: 5, offset: 28627},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 907, col: 5, offset: 28625},
+																		pos: position{line: 907, col: 5, offset: 28627},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 907, col: 5, offset: 28625},
+																				pos:   position{line: 907, col: 5, offset: 28627},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 768, col: 5, offset: 24628},
+																					pos: position{line: 768, col: 5, offset: 24630},
 																					run: (*parser).callonDocumentFragment502,
 																					expr: &seqExpr{
-																						pos: position{line: 768, col: 5, offset: 24628},
+																						pos: position{line: 768, col: 5, offset: 24630},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 768, col: 5, offset: 24628},
+																								pos:   position{line: 768, col: 5, offset: 24630},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 768, col: 16, offset: 24639},
+																									pos: position{line: 768, col: 16, offset: 24641},
 																									run: (*parser).callonDocumentFragment505,
 																									expr: &seqExpr{
-																										pos: position{line: 768, col: 16, offset: 24639},
+																										pos: position{line: 768, col: 16, offset: 24641},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 768, col: 16, offset: 24639},
+																												pos:        position{line: 768, col: 16, offset: 24641},
 																												val:        "----",
 																												ignoreCase: false,
 																												want:       "\"----\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 768, col: 23, offset: 24646},
+																												pos: position{line: 768, col: 23, offset: 24648},
 																												expr: &litMatcher{
-																													pos:        position{line: 768, col: 23, offset: 24646},
+																													pos:        position{line: 768, col: 23, offset: 24648},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
@@ -6514,12 +6514,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 770, col: 8, offset: 24730},
+																								pos: position{line: 770, col: 8, offset: 24732},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 91003},
+																									pos: position{line: 2876, col: 10, offset: 91005},
 																									run: (*parser).callonDocumentFragment511,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 91003},
+																										pos:        position{line: 2876, col: 10, offset: 91005},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6528,28 +6528,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2898, col: 8, offset: 91401},
+																								pos: position{line: 2898, col: 8, offset: 91403},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2885, col: 12, offset: 91174},
+																										pos: position{line: 2885, col: 12, offset: 91176},
 																										run: (*parser).callonDocumentFragment514,
 																										expr: &choiceExpr{
-																											pos: position{line: 2885, col: 13, offset: 91175},
+																											pos: position{line: 2885, col: 13, offset: 91177},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 13, offset: 91175},
+																													pos:        position{line: 2885, col: 13, offset: 91177},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 20, offset: 91182},
+																													pos:        position{line: 2885, col: 20, offset: 91184},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 29, offset: 91191},
+																													pos:        position{line: 2885, col: 29, offset: 91193},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6558,9 +6558,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2895, col: 8, offset: 91351},
+																										pos: position{line: 2895, col: 8, offset: 91353},
 																										expr: &anyMatcher{
-																											line: 2895, col: 9, offset: 91352,
+																											line: 2895, col: 9, offset: 91354,
 																										},
 																									},
 																								},
@@ -6570,15 +6570,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 908, col: 5, offset: 28656},
+																				pos: position{line: 908, col: 5, offset: 28658},
 																				run: (*parser).callonDocumentFragment521,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91351},
+																		pos: position{line: 2895, col: 8, offset: 91353},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91352,
+																			line: 2895, col: 9, offset: 91354,
 																		},
 																	},
 																},
@@ -6589,39 +6589,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 923, col: 5, offset: 28969},
+											pos: position{line: 923, col: 5, offset: 28971},
 											run: (*parser).callonDocumentFragment524,
 											expr: &seqExpr{
-												pos: position{line: 923, col: 5, offset: 28969},
+												pos: position{line: 923, col: 5, offset: 28971},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 923, col: 5, offset: 28969},
+														pos:   position{line: 923, col: 5, offset: 28971},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 782, col: 5, offset: 25104},
+															pos: position{line: 782, col: 5, offset: 25106},
 															run: (*parser).callonDocumentFragment527,
 															expr: &seqExpr{
-																pos: position{line: 782, col: 5, offset: 25104},
+																pos: position{line: 782, col: 5, offset: 25106},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 782, col: 5, offset: 25104},
+																		pos:   position{line: 782, col: 5, offset: 25106},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 782, col: 16, offset: 25115},
+																			pos: position{line: 782, col: 16, offset: 25117},
 																			run: (*parser).callonDocumentFragment530,
 																			expr: &seqExpr{
-																				pos: position{line: 782, col: 16, offset: 25115},
+																				pos: position{line: 782, col: 16, offset: 25117},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 782, col: 16, offset: 25115},
+																						pos:        position{line: 782, col: 16, offset: 25117},
 																						val:        "....",
 																						ignoreCase: false,
 																						want:       "\"....\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 782, col: 23, offset: 25122},
+																						pos: position{line: 782, col: 23, offset: 25124},
 																						expr: &litMatcher{
-																							pos:        position{line: 782, col: 23, offset: 25122},
+																							pos:        position{line: 782, col: 23, offset: 25124},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -6632,12 +6632,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 784, col: 8, offset: 25206},
+																		pos: position{line: 784, col: 8, offset: 25208},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 91003},
+																			pos: position{line: 2876, col: 10, offset: 91005},
 																			run: (*parser).callonDocumentFragment536,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 91003},
+																				pos:        position{line: 2876, col: 10, offset: 91005},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6646,28 +6646,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91401},
+																		pos: position{line: 2898, col: 8, offset: 91403},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91174},
+																				pos: position{line: 2885, col: 12, offset: 91176},
 																				run: (*parser).callonDocumentFragment539,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91175},
+																					pos: position{line: 2885, col: 13, offset: 91177},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91175},
+																							pos:        position{line: 2885, col: 13, offset: 91177},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91182},
+																							pos:        position{line: 2885, col: 20, offset: 91184},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91191},
+																							pos:        position{line: 2885, col: 29, offset: 91193},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6676,9 +6676,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91351},
+																				pos: position{line: 2895, col: 8, offset: 91353},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91352,
+																					line: 2895, col: 9, offset: 91354,
 																				},
 																			},
 																		},
@@ -6688,56 +6688,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 924, col: 5, offset: 29008},
+														pos: position{line: 924, col: 5, offset: 29010},
 														run: (*parser).callonDocumentFragment546,
 													},
 													&labeledExpr{
-														pos:   position{line: 927, col: 5, offset: 29100},
+														pos:   position{line: 927, col: 5, offset: 29102},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 942, col: 5, offset: 29498},
+															pos: position{line: 942, col: 5, offset: 29500},
 															expr: &actionExpr{
-																pos: position{line: 942, col: 6, offset: 29499},
+																pos: position{line: 942, col: 6, offset: 29501},
 																run: (*parser).callonDocumentFragment549,
 																expr: &seqExpr{
-																	pos: position{line: 942, col: 6, offset: 29499},
+																	pos: position{line: 942, col: 6, offset: 29501},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 942, col: 6, offset: 29499},
+																			pos: position{line: 942, col: 6, offset: 29501},
 																			expr: &choiceExpr{
-																				pos: position{line: 935, col: 5, offset: 29340},
+																				pos: position{line: 935, col: 5, offset: 29342},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 935, col: 5, offset: 29340},
+																						pos: position{line: 935, col: 5, offset: 29342},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 935, col: 5, offset: 29340},
+																								pos:   position{line: 935, col: 5, offset: 29342},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 782, col: 5, offset: 25104},
+																									pos: position{line: 782, col: 5, offset: 25106},
 																									run: (*parser).callonDocumentFragment555,
 																									expr: &seqExpr{
-																										pos: position{line: 782, col: 5, offset: 25104},
+																										pos: position{line: 782, col: 5, offset: 25106},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 782, col: 5, offset: 25104},
+																												pos:   position{line: 782, col: 5, offset: 25106},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 782, col: 16, offset: 25115},
+																													pos: position{line: 782, col: 16, offset: 25117},
 																													run: (*parser).callonDocumentFragment558,
 																													expr: &seqExpr{
-																														pos: position{line: 782, col: 16, offset: 25115},
+																														pos: position{line: 782, col: 16, offset: 25117},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 782, col: 16, offset: 25115},
+																																pos:        position{line: 782, col: 16, offset: 25117},
 																																val:        "....",
 																																ignoreCase: false,
 																																want:       "\"....\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 782, col: 23, offset: 25122},
+																																pos: position{line: 782, col: 23, offset: 25124},
 																																expr: &litMatcher{
-																																	pos:        position{line: 782, col: 23, offset: 25122},
+																																	pos:        position{line: 782, col: 23, offset: 25124},
 																																	val:        ".",
 																																	ignoreCase: false,
 																																	want:       "\".\"",
@@ -6748,12 +6748,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 784, col: 8, offset: 25206},
+																												pos: position{line: 784, col: 8, offset: 25208},
 																												expr: &actionExpr{
-																													pos: position{line: 2876, col: 10, offset: 91003},
+																													pos: position{line: 2876, col: 10, offset: 91005},
 																													run: (*parser).callonDocumentFragment564,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2876, col: 10, offset: 91003},
+																														pos:        position{line: 2876, col: 10, offset: 91005},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6762,28 +6762,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2898, col: 8, offset: 91401},
+																												pos: position{line: 2898, col: 8, offset: 91403},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2885, col: 12, offset: 91174},
+																														pos: position{line: 2885, col: 12, offset: 91176},
 																														run: (*parser).callonDocumentFragment567,
 																														expr: &choiceExpr{
-																															pos: position{line: 2885, col: 13, offset: 91175},
+																															pos: position{line: 2885, col: 13, offset: 91177},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 13, offset: 91175},
+																																	pos:        position{line: 2885, col: 13, offset: 91177},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 20, offset: 91182},
+																																	pos:        position{line: 2885, col: 20, offset: 91184},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 29, offset: 91191},
+																																	pos:        position{line: 2885, col: 29, offset: 91193},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6792,9 +6792,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2895, col: 8, offset: 91351},
+																														pos: position{line: 2895, col: 8, offset: 91353},
 																														expr: &anyMatcher{
-																															line: 2895, col: 9, offset: 91352,
+																															line: 2895, col: 9, offset: 91354,
 																														},
 																													},
 																												},
@@ -6804,45 +6804,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 936, col: 5, offset: 29371},
+																								pos: position{line: 936, col: 5, offset: 29373},
 																								run: (*parser).callonDocumentFragment574,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91351},
+																						pos: position{line: 2895, col: 8, offset: 91353},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91352,
+																							line: 2895, col: 9, offset: 91354,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 943, col: 5, offset: 29529},
+																			pos:   position{line: 943, col: 5, offset: 29531},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 810, col: 5, offset: 26100},
+																				pos: position{line: 810, col: 5, offset: 26102},
 																				run: (*parser).callonDocumentFragment578,
 																				expr: &seqExpr{
-																					pos: position{line: 810, col: 5, offset: 26100},
+																					pos: position{line: 810, col: 5, offset: 26102},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2893, col: 11, offset: 91337},
+																							pos: position{line: 2893, col: 11, offset: 91339},
 																							expr: &anyMatcher{
-																								line: 2893, col: 13, offset: 91339,
+																								line: 2893, col: 13, offset: 91341,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 811, col: 5, offset: 26175},
+																							pos:   position{line: 811, col: 5, offset: 26177},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2822, col: 13, offset: 89529},
+																								pos: position{line: 2822, col: 13, offset: 89531},
 																								run: (*parser).callonDocumentFragment583,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2822, col: 13, offset: 89529},
+																									pos: position{line: 2822, col: 13, offset: 89531},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2822, col: 13, offset: 89529},
+																										pos:        position{line: 2822, col: 13, offset: 89531},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6852,28 +6852,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91401},
+																							pos: position{line: 2898, col: 8, offset: 91403},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91174},
+																									pos: position{line: 2885, col: 12, offset: 91176},
 																									run: (*parser).callonDocumentFragment587,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91175},
+																										pos: position{line: 2885, col: 13, offset: 91177},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91175},
+																												pos:        position{line: 2885, col: 13, offset: 91177},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91182},
+																												pos:        position{line: 2885, col: 20, offset: 91184},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91191},
+																												pos:        position{line: 2885, col: 29, offset: 91193},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6882,9 +6882,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91351},
+																									pos: position{line: 2895, col: 8, offset: 91353},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91352,
+																										line: 2895, col: 9, offset: 91354,
 																									},
 																								},
 																							},
@@ -6899,44 +6899,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 928, col: 5, offset: 29134},
+														pos:   position{line: 928, col: 5, offset: 29136},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 928, col: 9, offset: 29138},
+															pos: position{line: 928, col: 9, offset: 29140},
 															expr: &choiceExpr{
-																pos: position{line: 935, col: 5, offset: 29340},
+																pos: position{line: 935, col: 5, offset: 29342},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 935, col: 5, offset: 29340},
+																		pos: position{line: 935, col: 5, offset: 29342},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 935, col: 5, offset: 29340},
+																				pos:   position{line: 935, col: 5, offset: 29342},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 782, col: 5, offset: 25104},
+																					pos: position{line: 782, col: 5, offset: 25106},
 																					run: (*parser).callonDocumentFragment599,
 																					expr: &seqExpr{
-																						pos: position{line: 782, col: 5, offset: 25104},
+																						pos: position{line: 782, col: 5, offset: 25106},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 782, col: 5, offset: 25104},
+																								pos:   position{line: 782, col: 5, offset: 25106},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 782, col: 16, offset: 25115},
+																									pos: position{line: 782, col: 16, offset: 25117},
 																									run: (*parser).callonDocumentFragment602,
 																									expr: &seqExpr{
-																										pos: position{line: 782, col: 16, offset: 25115},
+																										pos: position{line: 782, col: 16, offset: 25117},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 782, col: 16, offset: 25115},
+																												pos:        position{line: 782, col: 16, offset: 25117},
 																												val:        "....",
 																												ignoreCase: false,
 																												want:       "\"....\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 782, col: 23, offset: 25122},
+																												pos: position{line: 782, col: 23, offset: 25124},
 																												expr: &litMatcher{
-																													pos:        position{line: 782, col: 23, offset: 25122},
+																													pos:        position{line: 782, col: 23, offset: 25124},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -6947,12 +6947,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 784, col: 8, offset: 25206},
+																								pos: position{line: 784, col: 8, offset: 25208},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 91003},
+																									pos: position{line: 2876, col: 10, offset: 91005},
 																									run: (*parser).callonDocumentFragment608,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 91003},
+																										pos:        position{line: 2876, col: 10, offset: 91005},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6961,28 +6961,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2898, col: 8, offset: 91401},
+																								pos: position{line: 2898, col: 8, offset: 91403},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2885, col: 12, offset: 91174},
+																										pos: position{line: 2885, col: 12, offset: 91176},
 																										run: (*parser).callonDocumentFragment611,
 																										expr: &choiceExpr{
-																											pos: position{line: 2885, col: 13, offset: 91175},
+																											pos: position{line: 2885, col: 13, offset: 91177},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 13, offset: 91175},
+																													pos:        position{line: 2885, col: 13, offset: 91177},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 20, offset: 91182},
+																													pos:        position{line: 2885, col: 20, offset: 91184},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 29, offset: 91191},
+																													pos:        position{line: 2885, col: 29, offset: 91193},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6991,9 +6991,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2895, col: 8, offset: 91351},
+																										pos: position{line: 2895, col: 8, offset: 91353},
 																										expr: &anyMatcher{
-																											line: 2895, col: 9, offset: 91352,
+																											line: 2895, col: 9, offset: 91354,
 																										},
 																									},
 																								},
@@ -7003,15 +7003,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 936, col: 5, offset: 29371},
+																				pos: position{line: 936, col: 5, offset: 29373},
 																				run: (*parser).callonDocumentFragment618,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91351},
+																		pos: position{line: 2895, col: 8, offset: 91353},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91352,
+																			line: 2895, col: 9, offset: 91354,
 																		},
 																	},
 																},
@@ -7022,41 +7022,41 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 974, col: 5, offset: 30412},
+											pos: position{line: 974, col: 5, offset: 30414},
 											run: (*parser).callonDocumentFragment621,
 											expr: &seqExpr{
-												pos: position{line: 974, col: 5, offset: 30412},
+												pos: position{line: 974, col: 5, offset: 30414},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 974, col: 5, offset: 30412},
+														pos:   position{line: 974, col: 5, offset: 30414},
 														label: "firstLine",
 														expr: &actionExpr{
-															pos: position{line: 981, col: 5, offset: 30671},
+															pos: position{line: 981, col: 5, offset: 30673},
 															run: (*parser).callonDocumentFragment624,
 															expr: &seqExpr{
-																pos: position{line: 981, col: 5, offset: 30671},
+																pos: position{line: 981, col: 5, offset: 30673},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 981, col: 5, offset: 30671},
+																		pos: position{line: 981, col: 5, offset: 30673},
 																		expr: &actionExpr{
-																			pos: position{line: 676, col: 14, offset: 21496},
+																			pos: position{line: 676, col: 14, offset: 21498},
 																			run: (*parser).callonDocumentFragment627,
 																			expr: &seqExpr{
-																				pos: position{line: 676, col: 14, offset: 21496},
+																				pos: position{line: 676, col: 14, offset: 21498},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2893, col: 11, offset: 91337},
+																						pos: position{line: 2893, col: 11, offset: 91339},
 																						expr: &anyMatcher{
-																							line: 2893, col: 13, offset: 91339,
+																							line: 2893, col: 13, offset: 91341,
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 676, col: 21, offset: 21503},
+																						pos: position{line: 676, col: 21, offset: 21505},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 91003},
+																							pos: position{line: 2876, col: 10, offset: 91005},
 																							run: (*parser).callonDocumentFragment632,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 91003},
+																								pos:        position{line: 2876, col: 10, offset: 91005},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -7065,28 +7065,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91401},
+																						pos: position{line: 2898, col: 8, offset: 91403},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91174},
+																								pos: position{line: 2885, col: 12, offset: 91176},
 																								run: (*parser).callonDocumentFragment635,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91175},
+																									pos: position{line: 2885, col: 13, offset: 91177},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91175},
+																											pos:        position{line: 2885, col: 13, offset: 91177},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91182},
+																											pos:        position{line: 2885, col: 20, offset: 91184},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91191},
+																											pos:        position{line: 2885, col: 29, offset: 91193},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -7095,9 +7095,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91351},
+																								pos: position{line: 2895, col: 8, offset: 91353},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91352,
+																									line: 2895, col: 9, offset: 91354,
 																								},
 																							},
 																						},
@@ -7107,21 +7107,21 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 982, col: 5, offset: 30686},
+																		pos:        position{line: 982, col: 5, offset: 30688},
 																		val:        "> ",
 																		ignoreCase: false,
 																		want:       "\"> \"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 983, col: 5, offset: 30696},
+																		pos:   position{line: 983, col: 5, offset: 30698},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2826, col: 14, offset: 89596},
+																			pos: position{line: 2826, col: 14, offset: 89598},
 																			run: (*parser).callonDocumentFragment644,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2826, col: 14, offset: 89596},
+																				pos: position{line: 2826, col: 14, offset: 89598},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2826, col: 14, offset: 89596},
+																					pos:        position{line: 2826, col: 14, offset: 89598},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -7131,28 +7131,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91401},
+																		pos: position{line: 2898, col: 8, offset: 91403},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91174},
+																				pos: position{line: 2885, col: 12, offset: 91176},
 																				run: (*parser).callonDocumentFragment648,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91175},
+																					pos: position{line: 2885, col: 13, offset: 91177},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91175},
+																							pos:        position{line: 2885, col: 13, offset: 91177},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91182},
+																							pos:        position{line: 2885, col: 20, offset: 91184},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91191},
+																							pos:        position{line: 2885, col: 29, offset: 91193},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7161,9 +7161,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91351},
+																				pos: position{line: 2895, col: 8, offset: 91353},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91352,
+																					line: 2895, col: 9, offset: 91354,
 																				},
 																			},
 																		},
@@ -7173,40 +7173,40 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 975, col: 5, offset: 30449},
+														pos:   position{line: 975, col: 5, offset: 30451},
 														label: "otherLines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 975, col: 16, offset: 30460},
+															pos: position{line: 975, col: 16, offset: 30462},
 															expr: &choiceExpr{
-																pos: position{line: 975, col: 17, offset: 30461},
+																pos: position{line: 975, col: 17, offset: 30463},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 981, col: 5, offset: 30671},
+																		pos: position{line: 981, col: 5, offset: 30673},
 																		run: (*parser).callonDocumentFragment658,
 																		expr: &seqExpr{
-																			pos: position{line: 981, col: 5, offset: 30671},
+																			pos: position{line: 981, col: 5, offset: 30673},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 981, col: 5, offset: 30671},
+																					pos: position{line: 981, col: 5, offset: 30673},
 																					expr: &actionExpr{
-																						pos: position{line: 676, col: 14, offset: 21496},
+																						pos: position{line: 676, col: 14, offset: 21498},
 																						run: (*parser).callonDocumentFragment661,
 																						expr: &seqExpr{
-																							pos: position{line: 676, col: 14, offset: 21496},
+																							pos: position{line: 676, col: 14, offset: 21498},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2893, col: 11, offset: 91337},
+																									pos: position{line: 2893, col: 11, offset: 91339},
 																									expr: &anyMatcher{
-																										line: 2893, col: 13, offset: 91339,
+																										line: 2893, col: 13, offset: 91341,
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 676, col: 21, offset: 21503},
+																									pos: position{line: 676, col: 21, offset: 21505},
 																									expr: &actionExpr{
-																										pos: position{line: 2876, col: 10, offset: 91003},
+																										pos: position{line: 2876, col: 10, offset: 91005},
 																										run: (*parser).callonDocumentFragment666,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2876, col: 10, offset: 91003},
+																											pos:        position{line: 2876, col: 10, offset: 91005},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7215,28 +7215,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2898, col: 8, offset: 91401},
+																									pos: position{line: 2898, col: 8, offset: 91403},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2885, col: 12, offset: 91174},
+																											pos: position{line: 2885, col: 12, offset: 91176},
 																											run: (*parser).callonDocumentFragment669,
 																											expr: &choiceExpr{
-																												pos: position{line: 2885, col: 13, offset: 91175},
+																												pos: position{line: 2885, col: 13, offset: 91177},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 13, offset: 91175},
+																														pos:        position{line: 2885, col: 13, offset: 91177},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 20, offset: 91182},
+																														pos:        position{line: 2885, col: 20, offset: 91184},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 29, offset: 91191},
+																														pos:        position{line: 2885, col: 29, offset: 91193},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7245,9 +7245,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2895, col: 8, offset: 91351},
+																											pos: position{line: 2895, col: 8, offset: 91353},
 																											expr: &anyMatcher{
-																												line: 2895, col: 9, offset: 91352,
+																												line: 2895, col: 9, offset: 91354,
 																											},
 																										},
 																									},
@@ -7257,21 +7257,21 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 982, col: 5, offset: 30686},
+																					pos:        position{line: 982, col: 5, offset: 30688},
 																					val:        "> ",
 																					ignoreCase: false,
 																					want:       "\"> \"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 983, col: 5, offset: 30696},
+																					pos:   position{line: 983, col: 5, offset: 30698},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2826, col: 14, offset: 89596},
+																						pos: position{line: 2826, col: 14, offset: 89598},
 																						run: (*parser).callonDocumentFragment678,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2826, col: 14, offset: 89596},
+																							pos: position{line: 2826, col: 14, offset: 89598},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2826, col: 14, offset: 89596},
+																								pos:        position{line: 2826, col: 14, offset: 89598},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7281,28 +7281,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2898, col: 8, offset: 91401},
+																					pos: position{line: 2898, col: 8, offset: 91403},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2885, col: 12, offset: 91174},
+																							pos: position{line: 2885, col: 12, offset: 91176},
 																							run: (*parser).callonDocumentFragment682,
 																							expr: &choiceExpr{
-																								pos: position{line: 2885, col: 13, offset: 91175},
+																								pos: position{line: 2885, col: 13, offset: 91177},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 13, offset: 91175},
+																										pos:        position{line: 2885, col: 13, offset: 91177},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 20, offset: 91182},
+																										pos:        position{line: 2885, col: 20, offset: 91184},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 29, offset: 91191},
+																										pos:        position{line: 2885, col: 29, offset: 91193},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7311,9 +7311,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2895, col: 8, offset: 91351},
+																							pos: position{line: 2895, col: 8, offset: 91353},
 																							expr: &anyMatcher{
-																								line: 2895, col: 9, offset: 91352,
+																								line: 2895, col: 9, offset: 91354,
 																							},
 																						},
 																					},
@@ -7322,21 +7322,21 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 1795, col: 5, offset: 58077},
+																		pos: position{line: 1795, col: 5, offset: 58079},
 																		run: (*parser).callonDocumentFragment689,
 																		expr: &seqExpr{
-																			pos: position{line: 1795, col: 5, offset: 58077},
+																			pos: position{line: 1795, col: 5, offset: 58079},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1795, col: 5, offset: 58077},
+																					pos:   position{line: 1795, col: 5, offset: 58079},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2826, col: 14, offset: 89596},
+																						pos: position{line: 2826, col: 14, offset: 89598},
 																						run: (*parser).callonDocumentFragment692,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2826, col: 14, offset: 89596},
+																							pos: position{line: 2826, col: 14, offset: 89598},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2826, col: 14, offset: 89596},
+																								pos:        position{line: 2826, col: 14, offset: 89598},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7346,32 +7346,32 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1796, col: 5, offset: 58101},
+																					pos: position{line: 1796, col: 5, offset: 58103},
 																					run: (*parser).callonDocumentFragment695,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2898, col: 8, offset: 91401},
+																					pos: position{line: 2898, col: 8, offset: 91403},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2885, col: 12, offset: 91174},
+																							pos: position{line: 2885, col: 12, offset: 91176},
 																							run: (*parser).callonDocumentFragment697,
 																							expr: &choiceExpr{
-																								pos: position{line: 2885, col: 13, offset: 91175},
+																								pos: position{line: 2885, col: 13, offset: 91177},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 13, offset: 91175},
+																										pos:        position{line: 2885, col: 13, offset: 91177},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 20, offset: 91182},
+																										pos:        position{line: 2885, col: 20, offset: 91184},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 29, offset: 91191},
+																										pos:        position{line: 2885, col: 29, offset: 91193},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7380,9 +7380,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2895, col: 8, offset: 91351},
+																							pos: position{line: 2895, col: 8, offset: 91353},
 																							expr: &anyMatcher{
-																								line: 2895, col: 9, offset: 91352,
+																								line: 2895, col: 9, offset: 91354,
 																							},
 																						},
 																					},
@@ -7398,28 +7398,28 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 996, col: 5, offset: 30961},
+											pos: position{line: 996, col: 5, offset: 30963},
 											run: (*parser).callonDocumentFragment704,
 											expr: &seqExpr{
-												pos: position{line: 996, col: 5, offset: 30961},
+												pos: position{line: 996, col: 5, offset: 30963},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 996, col: 5, offset: 30961},
+														pos:   position{line: 996, col: 5, offset: 30963},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 775, col: 5, offset: 24873},
+															pos: position{line: 775, col: 5, offset: 24875},
 															run: (*parser).callonDocumentFragment707,
 															expr: &seqExpr{
-																pos: position{line: 775, col: 5, offset: 24873},
+																pos: position{line: 775, col: 5, offset: 24875},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 775, col: 5, offset: 24873},
+																		pos:   position{line: 775, col: 5, offset: 24875},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 775, col: 16, offset: 24884},
+																			pos: position{line: 775, col: 16, offset: 24886},
 																			run: (*parser).callonDocumentFragment710,
 																			expr: &litMatcher{
-																				pos:        position{line: 775, col: 16, offset: 24884},
+																				pos:        position{line: 775, col: 16, offset: 24886},
 																				val:        "--",
 																				ignoreCase: false,
 																				want:       "\"--\"",
@@ -7427,12 +7427,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 777, col: 8, offset: 24961},
+																		pos: position{line: 777, col: 8, offset: 24963},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 91003},
+																			pos: position{line: 2876, col: 10, offset: 91005},
 																			run: (*parser).callonDocumentFragment713,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 91003},
+																				pos:        position{line: 2876, col: 10, offset: 91005},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7441,28 +7441,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91401},
+																		pos: position{line: 2898, col: 8, offset: 91403},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91174},
+																				pos: position{line: 2885, col: 12, offset: 91176},
 																				run: (*parser).callonDocumentFragment716,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91175},
+																					pos: position{line: 2885, col: 13, offset: 91177},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91175},
+																							pos:        position{line: 2885, col: 13, offset: 91177},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91182},
+																							pos:        position{line: 2885, col: 20, offset: 91184},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91191},
+																							pos:        position{line: 2885, col: 29, offset: 91193},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7471,9 +7471,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91351},
+																				pos: position{line: 2895, col: 8, offset: 91353},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91352,
+																					line: 2895, col: 9, offset: 91354,
 																				},
 																			},
 																		},
@@ -7483,35 +7483,35 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 997, col: 5, offset: 30997},
+														pos:   position{line: 997, col: 5, offset: 30999},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1007, col: 5, offset: 31265},
+															pos: position{line: 1007, col: 5, offset: 31267},
 															expr: &actionExpr{
-																pos: position{line: 1007, col: 6, offset: 31266},
+																pos: position{line: 1007, col: 6, offset: 31268},
 																run: (*parser).callonDocumentFragment725,
 																expr: &seqExpr{
-																	pos: position{line: 1007, col: 6, offset: 31266},
+																	pos: position{line: 1007, col: 6, offset: 31268},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1007, col: 6, offset: 31266},
+																			pos: position{line: 1007, col: 6, offset: 31268},
 																			expr: &choiceExpr{
-																				pos: position{line: 1004, col: 26, offset: 31214},
+																				pos: position{line: 1004, col: 26, offset: 31216},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 775, col: 5, offset: 24873},
+																						pos: position{line: 775, col: 5, offset: 24875},
 																						run: (*parser).callonDocumentFragment729,
 																						expr: &seqExpr{
-																							pos: position{line: 775, col: 5, offset: 24873},
+																							pos: position{line: 775, col: 5, offset: 24875},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 775, col: 5, offset: 24873},
+																									pos:   position{line: 775, col: 5, offset: 24875},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 775, col: 16, offset: 24884},
+																										pos: position{line: 775, col: 16, offset: 24886},
 																										run: (*parser).callonDocumentFragment732,
 																										expr: &litMatcher{
-																											pos:        position{line: 775, col: 16, offset: 24884},
+																											pos:        position{line: 775, col: 16, offset: 24886},
 																											val:        "--",
 																											ignoreCase: false,
 																											want:       "\"--\"",
@@ -7519,12 +7519,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 777, col: 8, offset: 24961},
+																									pos: position{line: 777, col: 8, offset: 24963},
 																									expr: &actionExpr{
-																										pos: position{line: 2876, col: 10, offset: 91003},
+																										pos: position{line: 2876, col: 10, offset: 91005},
 																										run: (*parser).callonDocumentFragment735,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2876, col: 10, offset: 91003},
+																											pos:        position{line: 2876, col: 10, offset: 91005},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7533,28 +7533,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2898, col: 8, offset: 91401},
+																									pos: position{line: 2898, col: 8, offset: 91403},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2885, col: 12, offset: 91174},
+																											pos: position{line: 2885, col: 12, offset: 91176},
 																											run: (*parser).callonDocumentFragment738,
 																											expr: &choiceExpr{
-																												pos: position{line: 2885, col: 13, offset: 91175},
+																												pos: position{line: 2885, col: 13, offset: 91177},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 13, offset: 91175},
+																														pos:        position{line: 2885, col: 13, offset: 91177},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 20, offset: 91182},
+																														pos:        position{line: 2885, col: 20, offset: 91184},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 29, offset: 91191},
+																														pos:        position{line: 2885, col: 29, offset: 91193},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7563,9 +7563,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2895, col: 8, offset: 91351},
+																											pos: position{line: 2895, col: 8, offset: 91353},
 																											expr: &anyMatcher{
-																												line: 2895, col: 9, offset: 91352,
+																												line: 2895, col: 9, offset: 91354,
 																											},
 																										},
 																									},
@@ -7574,39 +7574,39 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91351},
+																						pos: position{line: 2895, col: 8, offset: 91353},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91352,
+																							line: 2895, col: 9, offset: 91354,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1008, col: 5, offset: 31293},
+																			pos:   position{line: 1008, col: 5, offset: 31295},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 810, col: 5, offset: 26100},
+																				pos: position{line: 810, col: 5, offset: 26102},
 																				run: (*parser).callonDocumentFragment748,
 																				expr: &seqExpr{
-																					pos: position{line: 810, col: 5, offset: 26100},
+																					pos: position{line: 810, col: 5, offset: 26102},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2893, col: 11, offset: 91337},
+																							pos: position{line: 2893, col: 11, offset: 91339},
 																							expr: &anyMatcher{
-																								line: 2893, col: 13, offset: 91339,
+																								line: 2893, col: 13, offset: 91341,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 811, col: 5, offset: 26175},
+																							pos:   position{line: 811, col: 5, offset: 26177},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2822, col: 13, offset: 89529},
+																								pos: position{line: 2822, col: 13, offset: 89531},
 																								run: (*parser).callonDocumentFragment753,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2822, col: 13, offset: 89529},
+																									pos: position{line: 2822, col: 13, offset: 89531},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2822, col: 13, offset: 89529},
+																										pos:        position{line: 2822, col: 13, offset: 89531},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7616,28 +7616,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91401},
+																							pos: position{line: 2898, col: 8, offset: 91403},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91174},
+																									pos: position{line: 2885, col: 12, offset: 91176},
 																									run: (*parser).callonDocumentFragment757,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91175},
+																										pos: position{line: 2885, col: 13, offset: 91177},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91175},
+																												pos:        position{line: 2885, col: 13, offset: 91177},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91182},
+																												pos:        position{line: 2885, col: 20, offset: 91184},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91191},
+																												pos:        position{line: 2885, col: 29, offset: 91193},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7646,9 +7646,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91351},
+																									pos: position{line: 2895, col: 8, offset: 91353},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91352,
+																										line: 2895, col: 9, offset: 91354,
 																									},
 																								},
 																							},
@@ -7663,27 +7663,27 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 998, col: 5, offset: 31028},
+														pos:   position{line: 998, col: 5, offset: 31030},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 998, col: 9, offset: 31032},
+															pos: position{line: 998, col: 9, offset: 31034},
 															expr: &choiceExpr{
-																pos: position{line: 1004, col: 26, offset: 31214},
+																pos: position{line: 1004, col: 26, offset: 31216},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 775, col: 5, offset: 24873},
+																		pos: position{line: 775, col: 5, offset: 24875},
 																		run: (*parser).callonDocumentFragment767,
 																		expr: &seqExpr{
-																			pos: position{line: 775, col: 5, offset: 24873},
+																			pos: position{line: 775, col: 5, offset: 24875},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 775, col: 5, offset: 24873},
+																					pos:   position{line: 775, col: 5, offset: 24875},
 																					label: "delimiter",
 																					expr: &actionExpr{
-																						pos: position{line: 775, col: 16, offset: 24884},
+																						pos: position{line: 775, col: 16, offset: 24886},
 																						run: (*parser).callonDocumentFragment770,
 																						expr: &litMatcher{
-																							pos:        position{line: 775, col: 16, offset: 24884},
+																							pos:        position{line: 775, col: 16, offset: 24886},
 																							val:        "--",
 																							ignoreCase: false,
 																							want:       "\"--\"",
@@ -7691,12 +7691,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 777, col: 8, offset: 24961},
+																					pos: position{line: 777, col: 8, offset: 24963},
 																					expr: &actionExpr{
-																						pos: position{line: 2876, col: 10, offset: 91003},
+																						pos: position{line: 2876, col: 10, offset: 91005},
 																						run: (*parser).callonDocumentFragment773,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2876, col: 10, offset: 91003},
+																							pos:        position{line: 2876, col: 10, offset: 91005},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7705,28 +7705,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2898, col: 8, offset: 91401},
+																					pos: position{line: 2898, col: 8, offset: 91403},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2885, col: 12, offset: 91174},
+																							pos: position{line: 2885, col: 12, offset: 91176},
 																							run: (*parser).callonDocumentFragment776,
 																							expr: &choiceExpr{
-																								pos: position{line: 2885, col: 13, offset: 91175},
+																								pos: position{line: 2885, col: 13, offset: 91177},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 13, offset: 91175},
+																										pos:        position{line: 2885, col: 13, offset: 91177},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 20, offset: 91182},
+																										pos:        position{line: 2885, col: 20, offset: 91184},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 29, offset: 91191},
+																										pos:        position{line: 2885, col: 29, offset: 91193},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7735,9 +7735,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2895, col: 8, offset: 91351},
+																							pos: position{line: 2895, col: 8, offset: 91353},
 																							expr: &anyMatcher{
-																								line: 2895, col: 9, offset: 91352,
+																								line: 2895, col: 9, offset: 91354,
 																							},
 																						},
 																					},
@@ -7746,9 +7746,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91351},
+																		pos: position{line: 2895, col: 8, offset: 91353},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91352,
+																			line: 2895, col: 9, offset: 91354,
 																		},
 																	},
 																},
@@ -7759,39 +7759,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1016, col: 5, offset: 31456},
+											pos: position{line: 1016, col: 5, offset: 31458},
 											run: (*parser).callonDocumentFragment785,
 											expr: &seqExpr{
-												pos: position{line: 1016, col: 5, offset: 31456},
+												pos: position{line: 1016, col: 5, offset: 31458},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1016, col: 5, offset: 31456},
+														pos:   position{line: 1016, col: 5, offset: 31458},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 789, col: 5, offset: 25356},
+															pos: position{line: 789, col: 5, offset: 25358},
 															run: (*parser).callonDocumentFragment788,
 															expr: &seqExpr{
-																pos: position{line: 789, col: 5, offset: 25356},
+																pos: position{line: 789, col: 5, offset: 25358},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 789, col: 5, offset: 25356},
+																		pos:   position{line: 789, col: 5, offset: 25358},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 789, col: 16, offset: 25367},
+																			pos: position{line: 789, col: 16, offset: 25369},
 																			run: (*parser).callonDocumentFragment791,
 																			expr: &seqExpr{
-																				pos: position{line: 789, col: 16, offset: 25367},
+																				pos: position{line: 789, col: 16, offset: 25369},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 789, col: 16, offset: 25367},
+																						pos:        position{line: 789, col: 16, offset: 25369},
 																						val:        "++++",
 																						ignoreCase: false,
 																						want:       "\"++++\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 789, col: 23, offset: 25374},
+																						pos: position{line: 789, col: 23, offset: 25376},
 																						expr: &litMatcher{
-																							pos:        position{line: 789, col: 23, offset: 25374},
+																							pos:        position{line: 789, col: 23, offset: 25376},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
@@ -7802,12 +7802,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 791, col: 8, offset: 25458},
+																		pos: position{line: 791, col: 8, offset: 25460},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 91003},
+																			pos: position{line: 2876, col: 10, offset: 91005},
 																			run: (*parser).callonDocumentFragment797,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 91003},
+																				pos:        position{line: 2876, col: 10, offset: 91005},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7816,28 +7816,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91401},
+																		pos: position{line: 2898, col: 8, offset: 91403},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91174},
+																				pos: position{line: 2885, col: 12, offset: 91176},
 																				run: (*parser).callonDocumentFragment800,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91175},
+																					pos: position{line: 2885, col: 13, offset: 91177},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91175},
+																							pos:        position{line: 2885, col: 13, offset: 91177},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91182},
+																							pos:        position{line: 2885, col: 20, offset: 91184},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91191},
+																							pos:        position{line: 2885, col: 29, offset: 91193},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7846,9 +7846,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91351},
+																				pos: position{line: 2895, col: 8, offset: 91353},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91352,
+																					line: 2895, col: 9, offset: 91354,
 																				},
 																			},
 																		},
@@ -7858,56 +7858,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1017, col: 5, offset: 31499},
+														pos: position{line: 1017, col: 5, offset: 31501},
 														run: (*parser).callonDocumentFragment807,
 													},
 													&labeledExpr{
-														pos:   position{line: 1020, col: 5, offset: 31591},
+														pos:   position{line: 1020, col: 5, offset: 31593},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1035, col: 5, offset: 32021},
+															pos: position{line: 1035, col: 5, offset: 32023},
 															expr: &actionExpr{
-																pos: position{line: 1035, col: 6, offset: 32022},
+																pos: position{line: 1035, col: 6, offset: 32024},
 																run: (*parser).callonDocumentFragment810,
 																expr: &seqExpr{
-																	pos: position{line: 1035, col: 6, offset: 32022},
+																	pos: position{line: 1035, col: 6, offset: 32024},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1035, col: 6, offset: 32022},
+																			pos: position{line: 1035, col: 6, offset: 32024},
 																			expr: &choiceExpr{
-																				pos: position{line: 1028, col: 5, offset: 31855},
+																				pos: position{line: 1028, col: 5, offset: 31857},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1028, col: 5, offset: 31855},
+																						pos: position{line: 1028, col: 5, offset: 31857},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1028, col: 5, offset: 31855},
+																								pos:   position{line: 1028, col: 5, offset: 31857},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 789, col: 5, offset: 25356},
+																									pos: position{line: 789, col: 5, offset: 25358},
 																									run: (*parser).callonDocumentFragment816,
 																									expr: &seqExpr{
-																										pos: position{line: 789, col: 5, offset: 25356},
+																										pos: position{line: 789, col: 5, offset: 25358},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 789, col: 5, offset: 25356},
+																												pos:   position{line: 789, col: 5, offset: 25358},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 789, col: 16, offset: 25367},
+																													pos: position{line: 789, col: 16, offset: 25369},
 																													run: (*parser).callonDocumentFragment819,
 																													expr: &seqExpr{
-																														pos: position{line: 789, col: 16, offset: 25367},
+																														pos: position{line: 789, col: 16, offset: 25369},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 789, col: 16, offset: 25367},
+																																pos:        position{line: 789, col: 16, offset: 25369},
 																																val:        "++++",
 																																ignoreCase: false,
 																																want:       "\"++++\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 789, col: 23, offset: 25374},
+																																pos: position{line: 789, col: 23, offset: 25376},
 																																expr: &litMatcher{
-																																	pos:        position{line: 789, col: 23, offset: 25374},
+																																	pos:        position{line: 789, col: 23, offset: 25376},
 																																	val:        "+",
 																																	ignoreCase: false,
 																																	want:       "\"+\"",
@@ -7918,12 +7918,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 791, col: 8, offset: 25458},
+																												pos: position{line: 791, col: 8, offset: 25460},
 																												expr: &actionExpr{
-																													pos: position{line: 2876, col: 10, offset: 91003},
+																													pos: position{line: 2876, col: 10, offset: 91005},
 																													run: (*parser).callonDocumentFragment825,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2876, col: 10, offset: 91003},
+																														pos:        position{line: 2876, col: 10, offset: 91005},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7932,28 +7932,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2898, col: 8, offset: 91401},
+																												pos: position{line: 2898, col: 8, offset: 91403},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2885, col: 12, offset: 91174},
+																														pos: position{line: 2885, col: 12, offset: 91176},
 																														run: (*parser).callonDocumentFragment828,
 																														expr: &choiceExpr{
-																															pos: position{line: 2885, col: 13, offset: 91175},
+																															pos: position{line: 2885, col: 13, offset: 91177},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 13, offset: 91175},
+																																	pos:        position{line: 2885, col: 13, offset: 91177},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 20, offset: 91182},
+																																	pos:        position{line: 2885, col: 20, offset: 91184},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 29, offset: 91191},
+																																	pos:        position{line: 2885, col: 29, offset: 91193},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7962,9 +7962,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2895, col: 8, offset: 91351},
+																														pos: position{line: 2895, col: 8, offset: 91353},
 																														expr: &anyMatcher{
-																															line: 2895, col: 9, offset: 91352,
+																															line: 2895, col: 9, offset: 91354,
 																														},
 																													},
 																												},
@@ -7974,45 +7974,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1029, col: 5, offset: 31890},
+																								pos: position{line: 1029, col: 5, offset: 31892},
 																								run: (*parser).callonDocumentFragment835,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91351},
+																						pos: position{line: 2895, col: 8, offset: 91353},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91352,
+																							line: 2895, col: 9, offset: 91354,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1036, col: 5, offset: 32056},
+																			pos:   position{line: 1036, col: 5, offset: 32058},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 810, col: 5, offset: 26100},
+																				pos: position{line: 810, col: 5, offset: 26102},
 																				run: (*parser).callonDocumentFragment839,
 																				expr: &seqExpr{
-																					pos: position{line: 810, col: 5, offset: 26100},
+																					pos: position{line: 810, col: 5, offset: 26102},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2893, col: 11, offset: 91337},
+																							pos: position{line: 2893, col: 11, offset: 91339},
 																							expr: &anyMatcher{
-																								line: 2893, col: 13, offset: 91339,
+																								line: 2893, col: 13, offset: 91341,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 811, col: 5, offset: 26175},
+																							pos:   position{line: 811, col: 5, offset: 26177},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2822, col: 13, offset: 89529},
+																								pos: position{line: 2822, col: 13, offset: 89531},
 																								run: (*parser).callonDocumentFragment844,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2822, col: 13, offset: 89529},
+																									pos: position{line: 2822, col: 13, offset: 89531},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2822, col: 13, offset: 89529},
+																										pos:        position{line: 2822, col: 13, offset: 89531},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8022,28 +8022,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91401},
+																							pos: position{line: 2898, col: 8, offset: 91403},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91174},
+																									pos: position{line: 2885, col: 12, offset: 91176},
 																									run: (*parser).callonDocumentFragment848,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91175},
+																										pos: position{line: 2885, col: 13, offset: 91177},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91175},
+																												pos:        position{line: 2885, col: 13, offset: 91177},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91182},
+																												pos:        position{line: 2885, col: 20, offset: 91184},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91191},
+																												pos:        position{line: 2885, col: 29, offset: 91193},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8052,9 +8052,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91351},
+																									pos: position{line: 2895, col: 8, offset: 91353},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91352,
+																										line: 2895, col: 9, offset: 91354,
 																									},
 																								},
 																							},
@@ -8069,44 +8069,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1021, col: 5, offset: 31629},
+														pos:   position{line: 1021, col: 5, offset: 31631},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1021, col: 9, offset: 31633},
+															pos: position{line: 1021, col: 9, offset: 31635},
 															expr: &choiceExpr{
-																pos: position{line: 1028, col: 5, offset: 31855},
+																pos: position{line: 1028, col: 5, offset: 31857},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1028, col: 5, offset: 31855},
+																		pos: position{line: 1028, col: 5, offset: 31857},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1028, col: 5, offset: 31855},
+																				pos:   position{line: 1028, col: 5, offset: 31857},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 789, col: 5, offset: 25356},
+																					pos: position{line: 789, col: 5, offset: 25358},
 																					run: (*parser).callonDocumentFragment860,
 																					expr: &seqExpr{
-																						pos: position{line: 789, col: 5, offset: 25356},
+																						pos: position{line: 789, col: 5, offset: 25358},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 789, col: 5, offset: 25356},
+																								pos:   position{line: 789, col: 5, offset: 25358},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 789, col: 16, offset: 25367},
+																									pos: position{line: 789, col: 16, offset: 25369},
 																									run: (*parser).callonDocumentFragment863,
 																									expr: &seqExpr{
-																										pos: position{line: 789, col: 16, offset: 25367},
+																										pos: position{line: 789, col: 16, offset: 25369},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 789, col: 16, offset: 25367},
+																												pos:        position{line: 789, col: 16, offset: 25369},
 																												val:        "++++",
 																												ignoreCase: false,
 																												want:       "\"++++\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 789, col: 23, offset: 25374},
+																												pos: position{line: 789, col: 23, offset: 25376},
 																												expr: &litMatcher{
-																													pos:        position{line: 789, col: 23, offset: 25374},
+																													pos:        position{line: 789, col: 23, offset: 25376},
 																													val:        "+",
 																													ignoreCase: false,
 																													want:       "\"+\"",
@@ -8117,12 +8117,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 791, col: 8, offset: 25458},
+																								pos: position{line: 791, col: 8, offset: 25460},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 91003},
+																									pos: position{line: 2876, col: 10, offset: 91005},
 																									run: (*parser).callonDocumentFragment869,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 91003},
+																										pos:        position{line: 2876, col: 10, offset: 91005},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8131,28 +8131,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2898, col: 8, offset: 91401},
+																								pos: position{line: 2898, col: 8, offset: 91403},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2885, col: 12, offset: 91174},
+																										pos: position{line: 2885, col: 12, offset: 91176},
 																										run: (*parser).callonDocumentFragment872,
 																										expr: &choiceExpr{
-																											pos: position{line: 2885, col: 13, offset: 91175},
+																											pos: position{line: 2885, col: 13, offset: 91177},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 13, offset: 91175},
+																													pos:        position{line: 2885, col: 13, offset: 91177},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 20, offset: 91182},
+																													pos:        position{line: 2885, col: 20, offset: 91184},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 29, offset: 91191},
+																													pos:        position{line: 2885, col: 29, offset: 91193},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8161,9 +8161,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2895, col: 8, offset: 91351},
+																										pos: position{line: 2895, col: 8, offset: 91353},
 																										expr: &anyMatcher{
-																											line: 2895, col: 9, offset: 91352,
+																											line: 2895, col: 9, offset: 91354,
 																										},
 																									},
 																								},
@@ -8173,15 +8173,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1029, col: 5, offset: 31890},
+																				pos: position{line: 1029, col: 5, offset: 31892},
 																				run: (*parser).callonDocumentFragment879,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91351},
+																		pos: position{line: 2895, col: 8, offset: 91353},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91352,
+																			line: 2895, col: 9, offset: 91354,
 																		},
 																	},
 																},
@@ -8192,39 +8192,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1044, col: 5, offset: 32207},
+											pos: position{line: 1044, col: 5, offset: 32209},
 											run: (*parser).callonDocumentFragment882,
 											expr: &seqExpr{
-												pos: position{line: 1044, col: 5, offset: 32207},
+												pos: position{line: 1044, col: 5, offset: 32209},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1044, col: 5, offset: 32207},
+														pos:   position{line: 1044, col: 5, offset: 32209},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 796, col: 5, offset: 25606},
+															pos: position{line: 796, col: 5, offset: 25608},
 															run: (*parser).callonDocumentFragment885,
 															expr: &seqExpr{
-																pos: position{line: 796, col: 5, offset: 25606},
+																pos: position{line: 796, col: 5, offset: 25608},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 796, col: 5, offset: 25606},
+																		pos:   position{line: 796, col: 5, offset: 25608},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 796, col: 16, offset: 25617},
+																			pos: position{line: 796, col: 16, offset: 25619},
 																			run: (*parser).callonDocumentFragment888,
 																			expr: &seqExpr{
-																				pos: position{line: 796, col: 16, offset: 25617},
+																				pos: position{line: 796, col: 16, offset: 25619},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 796, col: 16, offset: 25617},
+																						pos:        position{line: 796, col: 16, offset: 25619},
 																						val:        "____",
 																						ignoreCase: false,
 																						want:       "\"____\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 796, col: 23, offset: 25624},
+																						pos: position{line: 796, col: 23, offset: 25626},
 																						expr: &litMatcher{
-																							pos:        position{line: 796, col: 23, offset: 25624},
+																							pos:        position{line: 796, col: 23, offset: 25626},
 																							val:        "_",
 																							ignoreCase: false,
 																							want:       "\"_\"",
@@ -8235,12 +8235,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 798, col: 8, offset: 25708},
+																		pos: position{line: 798, col: 8, offset: 25710},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 91003},
+																			pos: position{line: 2876, col: 10, offset: 91005},
 																			run: (*parser).callonDocumentFragment894,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 91003},
+																				pos:        position{line: 2876, col: 10, offset: 91005},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8249,28 +8249,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91401},
+																		pos: position{line: 2898, col: 8, offset: 91403},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91174},
+																				pos: position{line: 2885, col: 12, offset: 91176},
 																				run: (*parser).callonDocumentFragment897,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91175},
+																					pos: position{line: 2885, col: 13, offset: 91177},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91175},
+																							pos:        position{line: 2885, col: 13, offset: 91177},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91182},
+																							pos:        position{line: 2885, col: 20, offset: 91184},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91191},
+																							pos:        position{line: 2885, col: 29, offset: 91193},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8279,9 +8279,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91351},
+																				pos: position{line: 2895, col: 8, offset: 91353},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91352,
+																					line: 2895, col: 9, offset: 91354,
 																				},
 																			},
 																		},
@@ -8291,56 +8291,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1045, col: 5, offset: 32244},
+														pos: position{line: 1045, col: 5, offset: 32246},
 														run: (*parser).callonDocumentFragment904,
 													},
 													&labeledExpr{
-														pos:   position{line: 1048, col: 5, offset: 32336},
+														pos:   position{line: 1048, col: 5, offset: 32338},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1063, col: 4, offset: 32717},
+															pos: position{line: 1063, col: 4, offset: 32719},
 															expr: &actionExpr{
-																pos: position{line: 1063, col: 5, offset: 32718},
+																pos: position{line: 1063, col: 5, offset: 32720},
 																run: (*parser).callonDocumentFragment907,
 																expr: &seqExpr{
-																	pos: position{line: 1063, col: 5, offset: 32718},
+																	pos: position{line: 1063, col: 5, offset: 32720},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1063, col: 5, offset: 32718},
+																			pos: position{line: 1063, col: 5, offset: 32720},
 																			expr: &choiceExpr{
-																				pos: position{line: 1056, col: 5, offset: 32564},
+																				pos: position{line: 1056, col: 5, offset: 32566},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1056, col: 5, offset: 32564},
+																						pos: position{line: 1056, col: 5, offset: 32566},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1056, col: 5, offset: 32564},
+																								pos:   position{line: 1056, col: 5, offset: 32566},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 796, col: 5, offset: 25606},
+																									pos: position{line: 796, col: 5, offset: 25608},
 																									run: (*parser).callonDocumentFragment913,
 																									expr: &seqExpr{
-																										pos: position{line: 796, col: 5, offset: 25606},
+																										pos: position{line: 796, col: 5, offset: 25608},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 796, col: 5, offset: 25606},
+																												pos:   position{line: 796, col: 5, offset: 25608},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 796, col: 16, offset: 25617},
+																													pos: position{line: 796, col: 16, offset: 25619},
 																													run: (*parser).callonDocumentFragment916,
 																													expr: &seqExpr{
-																														pos: position{line: 796, col: 16, offset: 25617},
+																														pos: position{line: 796, col: 16, offset: 25619},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 796, col: 16, offset: 25617},
+																																pos:        position{line: 796, col: 16, offset: 25619},
 																																val:        "____",
 																																ignoreCase: false,
 																																want:       "\"____\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 796, col: 23, offset: 25624},
+																																pos: position{line: 796, col: 23, offset: 25626},
 																																expr: &litMatcher{
-																																	pos:        position{line: 796, col: 23, offset: 25624},
+																																	pos:        position{line: 796, col: 23, offset: 25626},
 																																	val:        "_",
 																																	ignoreCase: false,
 																																	want:       "\"_\"",
@@ -8351,12 +8351,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 798, col: 8, offset: 25708},
+																												pos: position{line: 798, col: 8, offset: 25710},
 																												expr: &actionExpr{
-																													pos: position{line: 2876, col: 10, offset: 91003},
+																													pos: position{line: 2876, col: 10, offset: 91005},
 																													run: (*parser).callonDocumentFragment922,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2876, col: 10, offset: 91003},
+																														pos:        position{line: 2876, col: 10, offset: 91005},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8365,28 +8365,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2898, col: 8, offset: 91401},
+																												pos: position{line: 2898, col: 8, offset: 91403},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2885, col: 12, offset: 91174},
+																														pos: position{line: 2885, col: 12, offset: 91176},
 																														run: (*parser).callonDocumentFragment925,
 																														expr: &choiceExpr{
-																															pos: position{line: 2885, col: 13, offset: 91175},
+																															pos: position{line: 2885, col: 13, offset: 91177},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 13, offset: 91175},
+																																	pos:        position{line: 2885, col: 13, offset: 91177},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 20, offset: 91182},
+																																	pos:        position{line: 2885, col: 20, offset: 91184},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 29, offset: 91191},
+																																	pos:        position{line: 2885, col: 29, offset: 91193},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8395,9 +8395,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2895, col: 8, offset: 91351},
+																														pos: position{line: 2895, col: 8, offset: 91353},
 																														expr: &anyMatcher{
-																															line: 2895, col: 9, offset: 91352,
+																															line: 2895, col: 9, offset: 91354,
 																														},
 																													},
 																												},
@@ -8407,45 +8407,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1057, col: 5, offset: 32593},
+																								pos: position{line: 1057, col: 5, offset: 32595},
 																								run: (*parser).callonDocumentFragment932,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91351},
+																						pos: position{line: 2895, col: 8, offset: 91353},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91352,
+																							line: 2895, col: 9, offset: 91354,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1064, col: 5, offset: 32746},
+																			pos:   position{line: 1064, col: 5, offset: 32748},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 810, col: 5, offset: 26100},
+																				pos: position{line: 810, col: 5, offset: 26102},
 																				run: (*parser).callonDocumentFragment936,
 																				expr: &seqExpr{
-																					pos: position{line: 810, col: 5, offset: 26100},
+																					pos: position{line: 810, col: 5, offset: 26102},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2893, col: 11, offset: 91337},
+																							pos: position{line: 2893, col: 11, offset: 91339},
 																							expr: &anyMatcher{
-																								line: 2893, col: 13, offset: 91339,
+																								line: 2893, col: 13, offset: 91341,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 811, col: 5, offset: 26175},
+																							pos:   position{line: 811, col: 5, offset: 26177},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2822, col: 13, offset: 89529},
+																								pos: position{line: 2822, col: 13, offset: 89531},
 																								run: (*parser).callonDocumentFragment941,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2822, col: 13, offset: 89529},
+																									pos: position{line: 2822, col: 13, offset: 89531},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2822, col: 13, offset: 89529},
+																										pos:        position{line: 2822, col: 13, offset: 89531},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8455,28 +8455,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91401},
+																							pos: position{line: 2898, col: 8, offset: 91403},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91174},
+																									pos: position{line: 2885, col: 12, offset: 91176},
 																									run: (*parser).callonDocumentFragment945,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91175},
+																										pos: position{line: 2885, col: 13, offset: 91177},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91175},
+																												pos:        position{line: 2885, col: 13, offset: 91177},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91182},
+																												pos:        position{line: 2885, col: 20, offset: 91184},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91191},
+																												pos:        position{line: 2885, col: 29, offset: 91193},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8485,9 +8485,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91351},
+																									pos: position{line: 2895, col: 8, offset: 91353},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91352,
+																										line: 2895, col: 9, offset: 91354,
 																									},
 																								},
 																							},
@@ -8502,44 +8502,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1049, col: 5, offset: 32368},
+														pos:   position{line: 1049, col: 5, offset: 32370},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1049, col: 9, offset: 32372},
+															pos: position{line: 1049, col: 9, offset: 32374},
 															expr: &choiceExpr{
-																pos: position{line: 1056, col: 5, offset: 32564},
+																pos: position{line: 1056, col: 5, offset: 32566},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1056, col: 5, offset: 32564},
+																		pos: position{line: 1056, col: 5, offset: 32566},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1056, col: 5, offset: 32564},
+																				pos:   position{line: 1056, col: 5, offset: 32566},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 796, col: 5, offset: 25606},
+																					pos: position{line: 796, col: 5, offset: 25608},
 																					run: (*parser).callonDocumentFragment957,
 																					expr: &seqExpr{
-																						pos: position{line: 796, col: 5, offset: 25606},
+																						pos: position{line: 796, col: 5, offset: 25608},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 796, col: 5, offset: 25606},
+																								pos:   position{line: 796, col: 5, offset: 25608},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 796, col: 16, offset: 25617},
+																									pos: position{line: 796, col: 16, offset: 25619},
 																									run: (*parser).callonDocumentFragment960,
 																									expr: &seqExpr{
-																										pos: position{line: 796, col: 16, offset: 25617},
+																										pos: position{line: 796, col: 16, offset: 25619},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 796, col: 16, offset: 25617},
+																												pos:        position{line: 796, col: 16, offset: 25619},
 																												val:        "____",
 																												ignoreCase: false,
 																												want:       "\"____\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 796, col: 23, offset: 25624},
+																												pos: position{line: 796, col: 23, offset: 25626},
 																												expr: &litMatcher{
-																													pos:        position{line: 796, col: 23, offset: 25624},
+																													pos:        position{line: 796, col: 23, offset: 25626},
 																													val:        "_",
 																													ignoreCase: false,
 																													want:       "\"_\"",
@@ -8550,12 +8550,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 798, col: 8, offset: 25708},
+																								pos: position{line: 798, col: 8, offset: 25710},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 91003},
+																									pos: position{line: 2876, col: 10, offset: 91005},
 																									run: (*parser).callonDocumentFragment966,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 91003},
+																										pos:        position{line: 2876, col: 10, offset: 91005},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8564,28 +8564,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2898, col: 8, offset: 91401},
+																								pos: position{line: 2898, col: 8, offset: 91403},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2885, col: 12, offset: 91174},
+																										pos: position{line: 2885, col: 12, offset: 91176},
 																										run: (*parser).callonDocumentFragment969,
 																										expr: &choiceExpr{
-																											pos: position{line: 2885, col: 13, offset: 91175},
+																											pos: position{line: 2885, col: 13, offset: 91177},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 13, offset: 91175},
+																													pos:        position{line: 2885, col: 13, offset: 91177},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 20, offset: 91182},
+																													pos:        position{line: 2885, col: 20, offset: 91184},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 29, offset: 91191},
+																													pos:        position{line: 2885, col: 29, offset: 91193},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8594,9 +8594,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2895, col: 8, offset: 91351},
+																										pos: position{line: 2895, col: 8, offset: 91353},
 																										expr: &anyMatcher{
-																											line: 2895, col: 9, offset: 91352,
+																											line: 2895, col: 9, offset: 91354,
 																										},
 																									},
 																								},
@@ -8606,15 +8606,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1057, col: 5, offset: 32593},
+																				pos: position{line: 1057, col: 5, offset: 32595},
 																				run: (*parser).callonDocumentFragment976,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91351},
+																		pos: position{line: 2895, col: 8, offset: 91353},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91352,
+																			line: 2895, col: 9, offset: 91354,
 																		},
 																	},
 																},
@@ -8625,39 +8625,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1072, col: 5, offset: 32901},
+											pos: position{line: 1072, col: 5, offset: 32903},
 											run: (*parser).callonDocumentFragment979,
 											expr: &seqExpr{
-												pos: position{line: 1072, col: 5, offset: 32901},
+												pos: position{line: 1072, col: 5, offset: 32903},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1072, col: 5, offset: 32901},
+														pos:   position{line: 1072, col: 5, offset: 32903},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 803, col: 5, offset: 25852},
+															pos: position{line: 803, col: 5, offset: 25854},
 															run: (*parser).callonDocumentFragment982,
 															expr: &seqExpr{
-																pos: position{line: 803, col: 5, offset: 25852},
+																pos: position{line: 803, col: 5, offset: 25854},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 803, col: 5, offset: 25852},
+																		pos:   position{line: 803, col: 5, offset: 25854},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 803, col: 16, offset: 25863},
+																			pos: position{line: 803, col: 16, offset: 25865},
 																			run: (*parser).callonDocumentFragment985,
 																			expr: &seqExpr{
-																				pos: position{line: 803, col: 16, offset: 25863},
+																				pos: position{line: 803, col: 16, offset: 25865},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 803, col: 16, offset: 25863},
+																						pos:        position{line: 803, col: 16, offset: 25865},
 																						val:        "****",
 																						ignoreCase: false,
 																						want:       "\"****\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 803, col: 23, offset: 25870},
+																						pos: position{line: 803, col: 23, offset: 25872},
 																						expr: &litMatcher{
-																							pos:        position{line: 803, col: 23, offset: 25870},
+																							pos:        position{line: 803, col: 23, offset: 25872},
 																							val:        "*",
 																							ignoreCase: false,
 																							want:       "\"*\"",
@@ -8668,12 +8668,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 805, col: 8, offset: 25954},
+																		pos: position{line: 805, col: 8, offset: 25956},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 91003},
+																			pos: position{line: 2876, col: 10, offset: 91005},
 																			run: (*parser).callonDocumentFragment991,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 91003},
+																				pos:        position{line: 2876, col: 10, offset: 91005},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8682,28 +8682,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91401},
+																		pos: position{line: 2898, col: 8, offset: 91403},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91174},
+																				pos: position{line: 2885, col: 12, offset: 91176},
 																				run: (*parser).callonDocumentFragment994,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91175},
+																					pos: position{line: 2885, col: 13, offset: 91177},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91175},
+																							pos:        position{line: 2885, col: 13, offset: 91177},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91182},
+																							pos:        position{line: 2885, col: 20, offset: 91184},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91191},
+																							pos:        position{line: 2885, col: 29, offset: 91193},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8712,9 +8712,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91351},
+																				pos: position{line: 2895, col: 8, offset: 91353},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91352,
+																					line: 2895, col: 9, offset: 91354,
 																				},
 																			},
 																		},
@@ -8724,56 +8724,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1073, col: 5, offset: 32940},
+														pos: position{line: 1073, col: 5, offset: 32942},
 														run: (*parser).callonDocumentFragment1001,
 													},
 													&labeledExpr{
-														pos:   position{line: 1076, col: 5, offset: 33032},
+														pos:   position{line: 1076, col: 5, offset: 33034},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1091, col: 4, offset: 33429},
+															pos: position{line: 1091, col: 4, offset: 33431},
 															expr: &actionExpr{
-																pos: position{line: 1091, col: 5, offset: 33430},
+																pos: position{line: 1091, col: 5, offset: 33432},
 																run: (*parser).callonDocumentFragment1004,
 																expr: &seqExpr{
-																	pos: position{line: 1091, col: 5, offset: 33430},
+																	pos: position{line: 1091, col: 5, offset: 33432},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1091, col: 5, offset: 33430},
+																			pos: position{line: 1091, col: 5, offset: 33432},
 																			expr: &choiceExpr{
-																				pos: position{line: 1084, col: 5, offset: 33272},
+																				pos: position{line: 1084, col: 5, offset: 33274},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1084, col: 5, offset: 33272},
+																						pos: position{line: 1084, col: 5, offset: 33274},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1084, col: 5, offset: 33272},
+																								pos:   position{line: 1084, col: 5, offset: 33274},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 803, col: 5, offset: 25852},
+																									pos: position{line: 803, col: 5, offset: 25854},
 																									run: (*parser).callonDocumentFragment1010,
 																									expr: &seqExpr{
-																										pos: position{line: 803, col: 5, offset: 25852},
+																										pos: position{line: 803, col: 5, offset: 25854},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 803, col: 5, offset: 25852},
+																												pos:   position{line: 803, col: 5, offset: 25854},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 803, col: 16, offset: 25863},
+																													pos: position{line: 803, col: 16, offset: 25865},
 																													run: (*parser).callonDocumentFragment1013,
 																													expr: &seqExpr{
-																														pos: position{line: 803, col: 16, offset: 25863},
+																														pos: position{line: 803, col: 16, offset: 25865},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 803, col: 16, offset: 25863},
+																																pos:        position{line: 803, col: 16, offset: 25865},
 																																val:        "****",
 																																ignoreCase: false,
 																																want:       "\"****\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 803, col: 23, offset: 25870},
+																																pos: position{line: 803, col: 23, offset: 25872},
 																																expr: &litMatcher{
-																																	pos:        position{line: 803, col: 23, offset: 25870},
+																																	pos:        position{line: 803, col: 23, offset: 25872},
 																																	val:        "*",
 																																	ignoreCase: false,
 																																	want:       "\"*\"",
@@ -8784,12 +8784,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 805, col: 8, offset: 25954},
+																												pos: position{line: 805, col: 8, offset: 25956},
 																												expr: &actionExpr{
-																													pos: position{line: 2876, col: 10, offset: 91003},
+																													pos: position{line: 2876, col: 10, offset: 91005},
 																													run: (*parser).callonDocumentFragment1019,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2876, col: 10, offset: 91003},
+																														pos:        position{line: 2876, col: 10, offset: 91005},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8798,28 +8798,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2898, col: 8, offset: 91401},
+																												pos: position{line: 2898, col: 8, offset: 91403},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2885, col: 12, offset: 91174},
+																														pos: position{line: 2885, col: 12, offset: 91176},
 																														run: (*parser).callonDocumentFragment1022,
 																														expr: &choiceExpr{
-																															pos: position{line: 2885, col: 13, offset: 91175},
+																															pos: position{line: 2885, col: 13, offset: 91177},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 13, offset: 91175},
+																																	pos:        position{line: 2885, col: 13, offset: 91177},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 20, offset: 91182},
+																																	pos:        position{line: 2885, col: 20, offset: 91184},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 29, offset: 91191},
+																																	pos:        position{line: 2885, col: 29, offset: 91193},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8828,9 +8828,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2895, col: 8, offset: 91351},
+																														pos: position{line: 2895, col: 8, offset: 91353},
 																														expr: &anyMatcher{
-																															line: 2895, col: 9, offset: 91352,
+																															line: 2895, col: 9, offset: 91354,
 																														},
 																													},
 																												},
@@ -8840,45 +8840,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1085, col: 5, offset: 33303},
+																								pos: position{line: 1085, col: 5, offset: 33305},
 																								run: (*parser).callonDocumentFragment1029,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91351},
+																						pos: position{line: 2895, col: 8, offset: 91353},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91352,
+																							line: 2895, col: 9, offset: 91354,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1092, col: 5, offset: 33460},
+																			pos:   position{line: 1092, col: 5, offset: 33462},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 810, col: 5, offset: 26100},
+																				pos: position{line: 810, col: 5, offset: 26102},
 																				run: (*parser).callonDocumentFragment1033,
 																				expr: &seqExpr{
-																					pos: position{line: 810, col: 5, offset: 26100},
+																					pos: position{line: 810, col: 5, offset: 26102},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2893, col: 11, offset: 91337},
+																							pos: position{line: 2893, col: 11, offset: 91339},
 																							expr: &anyMatcher{
-																								line: 2893, col: 13, offset: 91339,
+																								line: 2893, col: 13, offset: 91341,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 811, col: 5, offset: 26175},
+																							pos:   position{line: 811, col: 5, offset: 26177},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2822, col: 13, offset: 89529},
+																								pos: position{line: 2822, col: 13, offset: 89531},
 																								run: (*parser).callonDocumentFragment1038,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2822, col: 13, offset: 89529},
+																									pos: position{line: 2822, col: 13, offset: 89531},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2822, col: 13, offset: 89529},
+																										pos:        position{line: 2822, col: 13, offset: 89531},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8888,28 +8888,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91401},
+																							pos: position{line: 2898, col: 8, offset: 91403},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91174},
+																									pos: position{line: 2885, col: 12, offset: 91176},
 																									run: (*parser).callonDocumentFragment1042,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91175},
+																										pos: position{line: 2885, col: 13, offset: 91177},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91175},
+																												pos:        position{line: 2885, col: 13, offset: 91177},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91182},
+																												pos:        position{line: 2885, col: 20, offset: 91184},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91191},
+																												pos:        position{line: 2885, col: 29, offset: 91193},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8918,9 +8918,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91351},
+																									pos: position{line: 2895, col: 8, offset: 91353},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91352,
+																										line: 2895, col: 9, offset: 91354,
 																									},
 																								},
 																							},
@@ -8935,44 +8935,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1077, col: 5, offset: 33066},
+														pos:   position{line: 1077, col: 5, offset: 33068},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1077, col: 9, offset: 33070},
+															pos: position{line: 1077, col: 9, offset: 33072},
 															expr: &choiceExpr{
-																pos: position{line: 1084, col: 5, offset: 33272},
+																pos: position{line: 1084, col: 5, offset: 33274},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1084, col: 5, offset: 33272},
+																		pos: position{line: 1084, col: 5, offset: 33274},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1084, col: 5, offset: 33272},
+																				pos:   position{line: 1084, col: 5, offset: 33274},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 803, col: 5, offset: 25852},
+																					pos: position{line: 803, col: 5, offset: 25854},
 																					run: (*parser).callonDocumentFragment1054,
 																					expr: &seqExpr{
-																						pos: position{line: 803, col: 5, offset: 25852},
+																						pos: position{line: 803, col: 5, offset: 25854},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 803, col: 5, offset: 25852},
+																								pos:   position{line: 803, col: 5, offset: 25854},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 803, col: 16, offset: 25863},
+																									pos: position{line: 803, col: 16, offset: 25865},
 																									run: (*parser).callonDocumentFragment1057,
 																									expr: &seqExpr{
-																										pos: position{line: 803, col: 16, offset: 25863},
+																										pos: position{line: 803, col: 16, offset: 25865},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 803, col: 16, offset: 25863},
+																												pos:        position{line: 803, col: 16, offset: 25865},
 																												val:        "****",
 																												ignoreCase: false,
 																												want:       "\"****\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 803, col: 23, offset: 25870},
+																												pos: position{line: 803, col: 23, offset: 25872},
 																												expr: &litMatcher{
-																													pos:        position{line: 803, col: 23, offset: 25870},
+																													pos:        position{line: 803, col: 23, offset: 25872},
 																													val:        "*",
 																													ignoreCase: false,
 																													want:       "\"*\"",
@@ -8983,12 +8983,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 805, col: 8, offset: 25954},
+																								pos: position{line: 805, col: 8, offset: 25956},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 91003},
+																									pos: position{line: 2876, col: 10, offset: 91005},
 																									run: (*parser).callonDocumentFragment1063,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 91003},
+																										pos:        position{line: 2876, col: 10, offset: 91005},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8997,28 +8997,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2898, col: 8, offset: 91401},
+																								pos: position{line: 2898, col: 8, offset: 91403},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2885, col: 12, offset: 91174},
+																										pos: position{line: 2885, col: 12, offset: 91176},
 																										run: (*parser).callonDocumentFragment1066,
 																										expr: &choiceExpr{
-																											pos: position{line: 2885, col: 13, offset: 91175},
+																											pos: position{line: 2885, col: 13, offset: 91177},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 13, offset: 91175},
+																													pos:        position{line: 2885, col: 13, offset: 91177},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 20, offset: 91182},
+																													pos:        position{line: 2885, col: 20, offset: 91184},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 29, offset: 91191},
+																													pos:        position{line: 2885, col: 29, offset: 91193},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -9027,9 +9027,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2895, col: 8, offset: 91351},
+																										pos: position{line: 2895, col: 8, offset: 91353},
 																										expr: &anyMatcher{
-																											line: 2895, col: 9, offset: 91352,
+																											line: 2895, col: 9, offset: 91354,
 																										},
 																									},
 																								},
@@ -9039,15 +9039,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1085, col: 5, offset: 33303},
+																				pos: position{line: 1085, col: 5, offset: 33305},
 																				run: (*parser).callonDocumentFragment1073,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91351},
+																		pos: position{line: 2895, col: 8, offset: 91353},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91352,
+																			line: 2895, col: 9, offset: 91354,
 																		},
 																	},
 																},
@@ -9058,52 +9058,52 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2721, col: 18, offset: 86577},
+											pos: position{line: 2721, col: 18, offset: 86579},
 											run: (*parser).callonDocumentFragment1076,
 											expr: &seqExpr{
-												pos: position{line: 2721, col: 18, offset: 86577},
+												pos: position{line: 2721, col: 18, offset: 86579},
 												exprs: []interface{}{
 													&choiceExpr{
-														pos: position{line: 2722, col: 9, offset: 86587},
+														pos: position{line: 2722, col: 9, offset: 86589},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2722, col: 9, offset: 86587},
+																pos:        position{line: 2722, col: 9, offset: 86589},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2723, col: 11, offset: 86623},
+																pos:        position{line: 2723, col: 11, offset: 86625},
 																val:        "***",
 																ignoreCase: false,
 																want:       "\"***\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2723, col: 19, offset: 86631},
+																pos:        position{line: 2723, col: 19, offset: 86633},
 																val:        "* * *",
 																ignoreCase: false,
 																want:       "\"* * *\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2723, col: 29, offset: 86641},
+																pos:        position{line: 2723, col: 29, offset: 86643},
 																val:        "---",
 																ignoreCase: false,
 																want:       "\"---\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2723, col: 37, offset: 86649},
+																pos:        position{line: 2723, col: 37, offset: 86651},
 																val:        "- - -",
 																ignoreCase: false,
 																want:       "\"- - -\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2723, col: 47, offset: 86659},
+																pos:        position{line: 2723, col: 47, offset: 86661},
 																val:        "___",
 																ignoreCase: false,
 																want:       "\"___\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2723, col: 55, offset: 86667},
+																pos:        position{line: 2723, col: 55, offset: 86669},
 																val:        "_ _ _",
 																ignoreCase: false,
 																want:       "\"_ _ _\"",
@@ -9111,12 +9111,12 @@ var g = &grammar{
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2724, col: 11, offset: 86713},
+														pos: position{line: 2724, col: 11, offset: 86715},
 														expr: &actionExpr{
-															pos: position{line: 2876, col: 10, offset: 91003},
+															pos: position{line: 2876, col: 10, offset: 91005},
 															run: (*parser).callonDocumentFragment1087,
 															expr: &charClassMatcher{
-																pos:        position{line: 2876, col: 10, offset: 91003},
+																pos:        position{line: 2876, col: 10, offset: 91005},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9125,28 +9125,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2898, col: 8, offset: 91401},
+														pos: position{line: 2898, col: 8, offset: 91403},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2885, col: 12, offset: 91174},
+																pos: position{line: 2885, col: 12, offset: 91176},
 																run: (*parser).callonDocumentFragment1090,
 																expr: &choiceExpr{
-																	pos: position{line: 2885, col: 13, offset: 91175},
+																	pos: position{line: 2885, col: 13, offset: 91177},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 13, offset: 91175},
+																			pos:        position{line: 2885, col: 13, offset: 91177},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 20, offset: 91182},
+																			pos:        position{line: 2885, col: 20, offset: 91184},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 29, offset: 91191},
+																			pos:        position{line: 2885, col: 29, offset: 91193},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9155,20 +9155,20 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91351},
+																pos: position{line: 2895, col: 8, offset: 91353},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91352,
+																	line: 2895, col: 9, offset: 91354,
 																},
 															},
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2724, col: 22, offset: 86724},
+														pos: position{line: 2724, col: 22, offset: 86726},
 														expr: &actionExpr{
-															pos: position{line: 2876, col: 10, offset: 91003},
+															pos: position{line: 2876, col: 10, offset: 91005},
 															run: (*parser).callonDocumentFragment1098,
 															expr: &charClassMatcher{
-																pos:        position{line: 2876, col: 10, offset: 91003},
+																pos:        position{line: 2876, col: 10, offset: 91005},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9177,28 +9177,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2898, col: 8, offset: 91401},
+														pos: position{line: 2898, col: 8, offset: 91403},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2885, col: 12, offset: 91174},
+																pos: position{line: 2885, col: 12, offset: 91176},
 																run: (*parser).callonDocumentFragment1101,
 																expr: &choiceExpr{
-																	pos: position{line: 2885, col: 13, offset: 91175},
+																	pos: position{line: 2885, col: 13, offset: 91177},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 13, offset: 91175},
+																			pos:        position{line: 2885, col: 13, offset: 91177},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 20, offset: 91182},
+																			pos:        position{line: 2885, col: 20, offset: 91184},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 29, offset: 91191},
+																			pos:        position{line: 2885, col: 29, offset: 91193},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9207,9 +9207,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91351},
+																pos: position{line: 2895, col: 8, offset: 91353},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91352,
+																	line: 2895, col: 9, offset: 91354,
 																},
 															},
 														},
@@ -9222,24 +9222,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2612, col: 5, offset: 83513},
+											pos: position{line: 2612, col: 5, offset: 83515},
 											run: (*parser).callonDocumentFragment1109,
 											expr: &seqExpr{
-												pos: position{line: 2612, col: 5, offset: 83513},
+												pos: position{line: 2612, col: 5, offset: 83515},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2618, col: 19, offset: 83670},
+														pos:        position{line: 2618, col: 19, offset: 83672},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2618, col: 26, offset: 83677},
+														pos: position{line: 2618, col: 26, offset: 83679},
 														expr: &actionExpr{
-															pos: position{line: 2876, col: 10, offset: 91003},
+															pos: position{line: 2876, col: 10, offset: 91005},
 															run: (*parser).callonDocumentFragment1113,
 															expr: &charClassMatcher{
-																pos:        position{line: 2876, col: 10, offset: 91003},
+																pos:        position{line: 2876, col: 10, offset: 91005},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9248,28 +9248,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2898, col: 8, offset: 91401},
+														pos: position{line: 2898, col: 8, offset: 91403},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2885, col: 12, offset: 91174},
+																pos: position{line: 2885, col: 12, offset: 91176},
 																run: (*parser).callonDocumentFragment1116,
 																expr: &choiceExpr{
-																	pos: position{line: 2885, col: 13, offset: 91175},
+																	pos: position{line: 2885, col: 13, offset: 91177},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 13, offset: 91175},
+																			pos:        position{line: 2885, col: 13, offset: 91177},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 20, offset: 91182},
+																			pos:        position{line: 2885, col: 20, offset: 91184},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 29, offset: 91191},
+																			pos:        position{line: 2885, col: 29, offset: 91193},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9278,40 +9278,40 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91351},
+																pos: position{line: 2895, col: 8, offset: 91353},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91352,
+																	line: 2895, col: 9, offset: 91354,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2613, col: 5, offset: 83537},
+														pos:   position{line: 2613, col: 5, offset: 83539},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2613, col: 11, offset: 83543},
+															pos: position{line: 2613, col: 11, offset: 83545},
 															expr: &choiceExpr{
-																pos: position{line: 2613, col: 12, offset: 83544},
+																pos: position{line: 2613, col: 12, offset: 83546},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 676, col: 14, offset: 21496},
+																		pos: position{line: 676, col: 14, offset: 21498},
 																		run: (*parser).callonDocumentFragment1126,
 																		expr: &seqExpr{
-																			pos: position{line: 676, col: 14, offset: 21496},
+																			pos: position{line: 676, col: 14, offset: 21498},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2893, col: 11, offset: 91337},
+																					pos: position{line: 2893, col: 11, offset: 91339},
 																					expr: &anyMatcher{
-																						line: 2893, col: 13, offset: 91339,
+																						line: 2893, col: 13, offset: 91341,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 676, col: 21, offset: 21503},
+																					pos: position{line: 676, col: 21, offset: 21505},
 																					expr: &actionExpr{
-																						pos: position{line: 2876, col: 10, offset: 91003},
+																						pos: position{line: 2876, col: 10, offset: 91005},
 																						run: (*parser).callonDocumentFragment1131,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2876, col: 10, offset: 91003},
+																							pos:        position{line: 2876, col: 10, offset: 91005},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9320,28 +9320,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2898, col: 8, offset: 91401},
+																					pos: position{line: 2898, col: 8, offset: 91403},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2885, col: 12, offset: 91174},
+																							pos: position{line: 2885, col: 12, offset: 91176},
 																							run: (*parser).callonDocumentFragment1134,
 																							expr: &choiceExpr{
-																								pos: position{line: 2885, col: 13, offset: 91175},
+																								pos: position{line: 2885, col: 13, offset: 91177},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 13, offset: 91175},
+																										pos:        position{line: 2885, col: 13, offset: 91177},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 20, offset: 91182},
+																										pos:        position{line: 2885, col: 20, offset: 91184},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 29, offset: 91191},
+																										pos:        position{line: 2885, col: 29, offset: 91193},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9350,9 +9350,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2895, col: 8, offset: 91351},
+																							pos: position{line: 2895, col: 8, offset: 91353},
 																							expr: &anyMatcher{
-																								line: 2895, col: 9, offset: 91352,
+																								line: 2895, col: 9, offset: 91354,
 																							},
 																						},
 																					},
@@ -9361,32 +9361,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2625, col: 5, offset: 83789},
+																		pos: position{line: 2625, col: 5, offset: 83791},
 																		run: (*parser).callonDocumentFragment1141,
 																		expr: &seqExpr{
-																			pos: position{line: 2625, col: 5, offset: 83789},
+																			pos: position{line: 2625, col: 5, offset: 83791},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2625, col: 5, offset: 83789},
+																					pos: position{line: 2625, col: 5, offset: 83791},
 																					expr: &choiceExpr{
-																						pos: position{line: 2622, col: 22, offset: 83750},
+																						pos: position{line: 2622, col: 22, offset: 83752},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2618, col: 19, offset: 83670},
+																								pos: position{line: 2618, col: 19, offset: 83672},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2618, col: 19, offset: 83670},
+																										pos:        position{line: 2618, col: 19, offset: 83672},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2618, col: 26, offset: 83677},
+																										pos: position{line: 2618, col: 26, offset: 83679},
 																										expr: &actionExpr{
-																											pos: position{line: 2876, col: 10, offset: 91003},
+																											pos: position{line: 2876, col: 10, offset: 91005},
 																											run: (*parser).callonDocumentFragment1148,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2876, col: 10, offset: 91003},
+																												pos:        position{line: 2876, col: 10, offset: 91005},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9395,28 +9395,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2898, col: 8, offset: 91401},
+																										pos: position{line: 2898, col: 8, offset: 91403},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2885, col: 12, offset: 91174},
+																												pos: position{line: 2885, col: 12, offset: 91176},
 																												run: (*parser).callonDocumentFragment1151,
 																												expr: &choiceExpr{
-																													pos: position{line: 2885, col: 13, offset: 91175},
+																													pos: position{line: 2885, col: 13, offset: 91177},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2885, col: 13, offset: 91175},
+																															pos:        position{line: 2885, col: 13, offset: 91177},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2885, col: 20, offset: 91182},
+																															pos:        position{line: 2885, col: 20, offset: 91184},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2885, col: 29, offset: 91191},
+																															pos:        position{line: 2885, col: 29, offset: 91193},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9425,9 +9425,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2895, col: 8, offset: 91351},
+																												pos: position{line: 2895, col: 8, offset: 91353},
 																												expr: &anyMatcher{
-																													line: 2895, col: 9, offset: 91352,
+																													line: 2895, col: 9, offset: 91354,
 																												},
 																											},
 																										},
@@ -9435,59 +9435,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91351},
+																								pos: position{line: 2895, col: 8, offset: 91353},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91352,
+																									line: 2895, col: 9, offset: 91354,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2626, col: 5, offset: 83812},
+																					pos:   position{line: 2626, col: 5, offset: 83814},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2627, col: 9, offset: 83830},
+																						pos: position{line: 2627, col: 9, offset: 83832},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2627, col: 10, offset: 83831},
+																								pos: position{line: 2627, col: 10, offset: 83833},
 																								run: (*parser).callonDocumentFragment1162,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2627, col: 10, offset: 83831},
+																									pos:   position{line: 2627, col: 10, offset: 83833},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2627, col: 17, offset: 83838},
+																										pos: position{line: 2627, col: 17, offset: 83840},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2635, col: 21, offset: 84034},
+																												pos: position{line: 2635, col: 21, offset: 84036},
 																												run: (*parser).callonDocumentFragment1165,
 																												expr: &seqExpr{
-																													pos: position{line: 2635, col: 21, offset: 84034},
+																													pos: position{line: 2635, col: 21, offset: 84036},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2635, col: 21, offset: 84034},
+																															pos:   position{line: 2635, col: 21, offset: 84036},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2635, col: 27, offset: 84040},
+																																pos: position{line: 2635, col: 27, offset: 84042},
 																																expr: &actionExpr{
-																																	pos: position{line: 2640, col: 5, offset: 84115},
+																																	pos: position{line: 2640, col: 5, offset: 84117},
 																																	run: (*parser).callonDocumentFragment1169,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2640, col: 5, offset: 84115},
+																																		pos: position{line: 2640, col: 5, offset: 84117},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2640, col: 5, offset: 84115},
+																																				pos:        position{line: 2640, col: 5, offset: 84117},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2640, col: 9, offset: 84119},
+																																				pos: position{line: 2640, col: 9, offset: 84121},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2876, col: 10, offset: 91003},
+																																					pos: position{line: 2876, col: 10, offset: 91005},
 																																					run: (*parser).callonDocumentFragment1173,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2876, col: 10, offset: 91003},
+																																						pos:        position{line: 2876, col: 10, offset: 91005},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9496,21 +9496,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2640, col: 16, offset: 84126},
+																																				pos:   position{line: 2640, col: 16, offset: 84128},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2646, col: 5, offset: 84326},
+																																					pos: position{line: 2646, col: 5, offset: 84328},
 																																					run: (*parser).callonDocumentFragment1176,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2646, col: 5, offset: 84326},
+																																						pos:   position{line: 2646, col: 5, offset: 84328},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2646, col: 14, offset: 84335},
+																																							pos: position{line: 2646, col: 14, offset: 84337},
 																																							run: (*parser).callonDocumentFragment1178,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2646, col: 14, offset: 84335},
+																																								pos: position{line: 2646, col: 14, offset: 84337},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2646, col: 14, offset: 84335},
+																																									pos:        position{line: 2646, col: 14, offset: 84337},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9527,28 +9527,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2898, col: 8, offset: 91401},
+																															pos: position{line: 2898, col: 8, offset: 91403},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2885, col: 12, offset: 91174},
+																																	pos: position{line: 2885, col: 12, offset: 91176},
 																																	run: (*parser).callonDocumentFragment1182,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2885, col: 13, offset: 91175},
+																																		pos: position{line: 2885, col: 13, offset: 91177},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2885, col: 13, offset: 91175},
+																																				pos:        position{line: 2885, col: 13, offset: 91177},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2885, col: 20, offset: 91182},
+																																				pos:        position{line: 2885, col: 20, offset: 91184},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2885, col: 29, offset: 91191},
+																																				pos:        position{line: 2885, col: 29, offset: 91193},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9557,9 +9557,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2895, col: 8, offset: 91351},
+																																	pos: position{line: 2895, col: 8, offset: 91353},
 																																	expr: &anyMatcher{
-																																		line: 2895, col: 9, offset: 91352,
+																																		line: 2895, col: 9, offset: 91354,
 																																	},
 																																},
 																															},
@@ -9568,40 +9568,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2652, col: 24, offset: 84471},
+																												pos: position{line: 2652, col: 24, offset: 84473},
 																												run: (*parser).callonDocumentFragment1189,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2652, col: 24, offset: 84471},
+																													pos:   position{line: 2652, col: 24, offset: 84473},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2652, col: 30, offset: 84477},
+																														pos: position{line: 2652, col: 30, offset: 84479},
 																														expr: &actionExpr{
-																															pos: position{line: 2657, col: 5, offset: 84553},
+																															pos: position{line: 2657, col: 5, offset: 84555},
 																															run: (*parser).callonDocumentFragment1192,
 																															expr: &seqExpr{
-																																pos: position{line: 2657, col: 5, offset: 84553},
+																																pos: position{line: 2657, col: 5, offset: 84555},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2657, col: 5, offset: 84553},
+																																		pos: position{line: 2657, col: 5, offset: 84555},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2622, col: 22, offset: 83750},
+																																			pos: position{line: 2622, col: 22, offset: 83752},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2618, col: 19, offset: 83670},
+																																					pos: position{line: 2618, col: 19, offset: 83672},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2618, col: 19, offset: 83670},
+																																							pos:        position{line: 2618, col: 19, offset: 83672},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2618, col: 26, offset: 83677},
+																																							pos: position{line: 2618, col: 26, offset: 83679},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2876, col: 10, offset: 91003},
+																																								pos: position{line: 2876, col: 10, offset: 91005},
 																																								run: (*parser).callonDocumentFragment1199,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2876, col: 10, offset: 91003},
+																																									pos:        position{line: 2876, col: 10, offset: 91005},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9610,28 +9610,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2898, col: 8, offset: 91401},
+																																							pos: position{line: 2898, col: 8, offset: 91403},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2885, col: 12, offset: 91174},
+																																									pos: position{line: 2885, col: 12, offset: 91176},
 																																									run: (*parser).callonDocumentFragment1202,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2885, col: 13, offset: 91175},
+																																										pos: position{line: 2885, col: 13, offset: 91177},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2885, col: 13, offset: 91175},
+																																												pos:        position{line: 2885, col: 13, offset: 91177},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2885, col: 20, offset: 91182},
+																																												pos:        position{line: 2885, col: 20, offset: 91184},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2885, col: 29, offset: 91191},
+																																												pos:        position{line: 2885, col: 29, offset: 91193},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9640,9 +9640,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2895, col: 8, offset: 91351},
+																																									pos: position{line: 2895, col: 8, offset: 91353},
 																																									expr: &anyMatcher{
-																																										line: 2895, col: 9, offset: 91352,
+																																										line: 2895, col: 9, offset: 91354,
 																																									},
 																																								},
 																																							},
@@ -9650,35 +9650,35 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2895, col: 8, offset: 91351},
+																																					pos: position{line: 2895, col: 8, offset: 91353},
 																																					expr: &anyMatcher{
-																																						line: 2895, col: 9, offset: 91352,
+																																						line: 2895, col: 9, offset: 91354,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2658, col: 5, offset: 84576},
+																																		pos: position{line: 2658, col: 5, offset: 84578},
 																																		expr: &actionExpr{
-																																			pos: position{line: 676, col: 14, offset: 21496},
+																																			pos: position{line: 676, col: 14, offset: 21498},
 																																			run: (*parser).callonDocumentFragment1212,
 																																			expr: &seqExpr{
-																																				pos: position{line: 676, col: 14, offset: 21496},
+																																				pos: position{line: 676, col: 14, offset: 21498},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2893, col: 11, offset: 91337},
+																																						pos: position{line: 2893, col: 11, offset: 91339},
 																																						expr: &anyMatcher{
-																																							line: 2893, col: 13, offset: 91339,
+																																							line: 2893, col: 13, offset: 91341,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 676, col: 21, offset: 21503},
+																																						pos: position{line: 676, col: 21, offset: 21505},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2876, col: 10, offset: 91003},
+																																							pos: position{line: 2876, col: 10, offset: 91005},
 																																							run: (*parser).callonDocumentFragment1217,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2876, col: 10, offset: 91003},
+																																								pos:        position{line: 2876, col: 10, offset: 91005},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9687,28 +9687,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2898, col: 8, offset: 91401},
+																																						pos: position{line: 2898, col: 8, offset: 91403},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2885, col: 12, offset: 91174},
+																																								pos: position{line: 2885, col: 12, offset: 91176},
 																																								run: (*parser).callonDocumentFragment1220,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2885, col: 13, offset: 91175},
+																																									pos: position{line: 2885, col: 13, offset: 91177},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2885, col: 13, offset: 91175},
+																																											pos:        position{line: 2885, col: 13, offset: 91177},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2885, col: 20, offset: 91182},
+																																											pos:        position{line: 2885, col: 20, offset: 91184},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2885, col: 29, offset: 91191},
+																																											pos:        position{line: 2885, col: 29, offset: 91193},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9717,9 +9717,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2895, col: 8, offset: 91351},
+																																								pos: position{line: 2895, col: 8, offset: 91353},
 																																								expr: &anyMatcher{
-																																									line: 2895, col: 9, offset: 91352,
+																																									line: 2895, col: 9, offset: 91354,
 																																								},
 																																							},
 																																						},
@@ -9729,17 +9729,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2659, col: 5, offset: 84591},
+																																		pos:   position{line: 2659, col: 5, offset: 84593},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2659, col: 12, offset: 84598},
+																																			pos: position{line: 2659, col: 12, offset: 84600},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2676, col: 20, offset: 85062},
+																																				pos: position{line: 2676, col: 20, offset: 85064},
 																																				run: (*parser).callonDocumentFragment1229,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2676, col: 20, offset: 85062},
+																																					pos: position{line: 2676, col: 20, offset: 85064},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2676, col: 20, offset: 85062},
+																																						pos:        position{line: 2676, col: 20, offset: 85064},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9750,18 +9750,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2659, col: 31, offset: 84617},
+																																		pos:        position{line: 2659, col: 31, offset: 84619},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2659, col: 35, offset: 84621},
+																																		pos: position{line: 2659, col: 35, offset: 84623},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2876, col: 10, offset: 91003},
+																																			pos: position{line: 2876, col: 10, offset: 91005},
 																																			run: (*parser).callonDocumentFragment1234,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2876, col: 10, offset: 91003},
+																																				pos:        position{line: 2876, col: 10, offset: 91005},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9770,27 +9770,27 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2659, col: 42, offset: 84628},
+																																		pos: position{line: 2659, col: 42, offset: 84630},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2885, col: 12, offset: 91174},
+																																			pos: position{line: 2885, col: 12, offset: 91176},
 																																			run: (*parser).callonDocumentFragment1237,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2885, col: 13, offset: 91175},
+																																				pos: position{line: 2885, col: 13, offset: 91177},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2885, col: 13, offset: 91175},
+																																						pos:        position{line: 2885, col: 13, offset: 91177},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2885, col: 20, offset: 91182},
+																																						pos:        position{line: 2885, col: 20, offset: 91184},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2885, col: 29, offset: 91191},
+																																						pos:        position{line: 2885, col: 29, offset: 91193},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9800,37 +9800,37 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2659, col: 51, offset: 84637},
+																																		pos:   position{line: 2659, col: 51, offset: 84639},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2665, col: 5, offset: 84796},
+																																			pos: position{line: 2665, col: 5, offset: 84798},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2666, col: 9, offset: 84806},
+																																				pos: position{line: 2666, col: 9, offset: 84808},
 																																				run: (*parser).callonDocumentFragment1244,
 																																				expr: &seqExpr{
-																																					pos: position{line: 2666, col: 9, offset: 84806},
+																																					pos: position{line: 2666, col: 9, offset: 84808},
 																																					exprs: []interface{}{
 																																						&notExpr{
-																																							pos: position{line: 2666, col: 9, offset: 84806},
+																																							pos: position{line: 2666, col: 9, offset: 84808},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2622, col: 22, offset: 83750},
+																																								pos: position{line: 2622, col: 22, offset: 83752},
 																																								alternatives: []interface{}{
 																																									&seqExpr{
-																																										pos: position{line: 2618, col: 19, offset: 83670},
+																																										pos: position{line: 2618, col: 19, offset: 83672},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2618, col: 19, offset: 83670},
+																																												pos:        position{line: 2618, col: 19, offset: 83672},
 																																												val:        "|===",
 																																												ignoreCase: false,
 																																												want:       "\"|===\"",
 																																											},
 																																											&zeroOrMoreExpr{
-																																												pos: position{line: 2618, col: 26, offset: 83677},
+																																												pos: position{line: 2618, col: 26, offset: 83679},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2876, col: 10, offset: 91003},
+																																													pos: position{line: 2876, col: 10, offset: 91005},
 																																													run: (*parser).callonDocumentFragment1251,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2876, col: 10, offset: 91003},
+																																														pos:        position{line: 2876, col: 10, offset: 91005},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -9839,28 +9839,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2898, col: 8, offset: 91401},
+																																												pos: position{line: 2898, col: 8, offset: 91403},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2885, col: 12, offset: 91174},
+																																														pos: position{line: 2885, col: 12, offset: 91176},
 																																														run: (*parser).callonDocumentFragment1254,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2885, col: 13, offset: 91175},
+																																															pos: position{line: 2885, col: 13, offset: 91177},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2885, col: 13, offset: 91175},
+																																																	pos:        position{line: 2885, col: 13, offset: 91177},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2885, col: 20, offset: 91182},
+																																																	pos:        position{line: 2885, col: 20, offset: 91184},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2885, col: 29, offset: 91191},
+																																																	pos:        position{line: 2885, col: 29, offset: 91193},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -9869,9 +9869,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2895, col: 8, offset: 91351},
+																																														pos: position{line: 2895, col: 8, offset: 91353},
 																																														expr: &anyMatcher{
-																																															line: 2895, col: 9, offset: 91352,
+																																															line: 2895, col: 9, offset: 91354,
 																																														},
 																																													},
 																																												},
@@ -9879,35 +9879,35 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2895, col: 8, offset: 91351},
+																																										pos: position{line: 2895, col: 8, offset: 91353},
 																																										expr: &anyMatcher{
-																																											line: 2895, col: 9, offset: 91352,
+																																											line: 2895, col: 9, offset: 91354,
 																																										},
 																																									},
 																																								},
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2667, col: 9, offset: 84833},
+																																							pos: position{line: 2667, col: 9, offset: 84835},
 																																							expr: &actionExpr{
-																																								pos: position{line: 676, col: 14, offset: 21496},
+																																								pos: position{line: 676, col: 14, offset: 21498},
 																																								run: (*parser).callonDocumentFragment1264,
 																																								expr: &seqExpr{
-																																									pos: position{line: 676, col: 14, offset: 21496},
+																																									pos: position{line: 676, col: 14, offset: 21498},
 																																									exprs: []interface{}{
 																																										&andExpr{
-																																											pos: position{line: 2893, col: 11, offset: 91337},
+																																											pos: position{line: 2893, col: 11, offset: 91339},
 																																											expr: &anyMatcher{
-																																												line: 2893, col: 13, offset: 91339,
+																																												line: 2893, col: 13, offset: 91341,
 																																											},
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 676, col: 21, offset: 21503},
+																																											pos: position{line: 676, col: 21, offset: 21505},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2876, col: 10, offset: 91003},
+																																												pos: position{line: 2876, col: 10, offset: 91005},
 																																												run: (*parser).callonDocumentFragment1269,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2876, col: 10, offset: 91003},
+																																													pos:        position{line: 2876, col: 10, offset: 91005},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -9916,28 +9916,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2898, col: 8, offset: 91401},
+																																											pos: position{line: 2898, col: 8, offset: 91403},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2885, col: 12, offset: 91174},
+																																													pos: position{line: 2885, col: 12, offset: 91176},
 																																													run: (*parser).callonDocumentFragment1272,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2885, col: 13, offset: 91175},
+																																														pos: position{line: 2885, col: 13, offset: 91177},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2885, col: 13, offset: 91175},
+																																																pos:        position{line: 2885, col: 13, offset: 91177},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2885, col: 20, offset: 91182},
+																																																pos:        position{line: 2885, col: 20, offset: 91184},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2885, col: 29, offset: 91191},
+																																																pos:        position{line: 2885, col: 29, offset: 91193},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -9946,9 +9946,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2895, col: 8, offset: 91351},
+																																													pos: position{line: 2895, col: 8, offset: 91353},
 																																													expr: &anyMatcher{
-																																														line: 2895, col: 9, offset: 91352,
+																																														line: 2895, col: 9, offset: 91354,
 																																													},
 																																												},
 																																											},
@@ -9958,22 +9958,22 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2668, col: 9, offset: 84852},
+																																							pos: position{line: 2668, col: 9, offset: 84854},
 																																							expr: &seqExpr{
-																																								pos: position{line: 2668, col: 11, offset: 84854},
+																																								pos: position{line: 2668, col: 11, offset: 84856},
 																																								exprs: []interface{}{
 																																									&labeledExpr{
-																																										pos:   position{line: 2668, col: 11, offset: 84854},
+																																										pos:   position{line: 2668, col: 11, offset: 84856},
 																																										label: "format",
 																																										expr: &zeroOrOneExpr{
-																																											pos: position{line: 2668, col: 18, offset: 84861},
+																																											pos: position{line: 2668, col: 18, offset: 84863},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2676, col: 20, offset: 85062},
+																																												pos: position{line: 2676, col: 20, offset: 85064},
 																																												run: (*parser).callonDocumentFragment1283,
 																																												expr: &zeroOrMoreExpr{
-																																													pos: position{line: 2676, col: 20, offset: 85062},
+																																													pos: position{line: 2676, col: 20, offset: 85064},
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2676, col: 20, offset: 85062},
+																																														pos:        position{line: 2676, col: 20, offset: 85064},
 																																														val:        "[^ |\\r\\n]",
 																																														chars:      []rune{' ', '|', '\r', '\n'},
 																																														ignoreCase: false,
@@ -9984,7 +9984,7 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2668, col: 37, offset: 84880},
+																																										pos:        position{line: 2668, col: 37, offset: 84882},
 																																										val:        "|",
 																																										ignoreCase: false,
 																																										want:       "\"|\"",
@@ -9993,15 +9993,15 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&labeledExpr{
-																																							pos:   position{line: 2669, col: 9, offset: 84893},
+																																							pos:   position{line: 2669, col: 9, offset: 84895},
 																																							label: "content",
 																																							expr: &actionExpr{
-																																								pos: position{line: 2669, col: 18, offset: 84902},
+																																								pos: position{line: 2669, col: 18, offset: 84904},
 																																								run: (*parser).callonDocumentFragment1288,
 																																								expr: &zeroOrMoreExpr{
-																																									pos: position{line: 2669, col: 18, offset: 84902},
+																																									pos: position{line: 2669, col: 18, offset: 84904},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2669, col: 18, offset: 84902},
+																																										pos:        position{line: 2669, col: 18, offset: 84904},
 																																										val:        "[^|\\r\\n]",
 																																										chars:      []rune{'|', '\r', '\n'},
 																																										ignoreCase: false,
@@ -10011,30 +10011,30 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&zeroOrOneExpr{
-																																							pos: position{line: 2671, col: 12, offset: 84964},
+																																							pos: position{line: 2671, col: 12, offset: 84966},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2898, col: 8, offset: 91401},
+																																								pos: position{line: 2898, col: 8, offset: 91403},
 																																								alternatives: []interface{}{
 																																									&actionExpr{
-																																										pos: position{line: 2885, col: 12, offset: 91174},
+																																										pos: position{line: 2885, col: 12, offset: 91176},
 																																										run: (*parser).callonDocumentFragment1293,
 																																										expr: &choiceExpr{
-																																											pos: position{line: 2885, col: 13, offset: 91175},
+																																											pos: position{line: 2885, col: 13, offset: 91177},
 																																											alternatives: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2885, col: 13, offset: 91175},
+																																													pos:        position{line: 2885, col: 13, offset: 91177},
 																																													val:        "\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2885, col: 20, offset: 91182},
+																																													pos:        position{line: 2885, col: 20, offset: 91184},
 																																													val:        "\r\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2885, col: 29, offset: 91191},
+																																													pos:        position{line: 2885, col: 29, offset: 91193},
 																																													val:        "\r",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\"",
@@ -10043,9 +10043,9 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2895, col: 8, offset: 91351},
+																																										pos: position{line: 2895, col: 8, offset: 91353},
 																																										expr: &anyMatcher{
-																																											line: 2895, col: 9, offset: 91352,
+																																											line: 2895, col: 9, offset: 91354,
 																																										},
 																																									},
 																																								},
@@ -10067,24 +10067,24 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 676, col: 14, offset: 21496},
+																								pos: position{line: 676, col: 14, offset: 21498},
 																								run: (*parser).callonDocumentFragment1300,
 																								expr: &seqExpr{
-																									pos: position{line: 676, col: 14, offset: 21496},
+																									pos: position{line: 676, col: 14, offset: 21498},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2893, col: 11, offset: 91337},
+																											pos: position{line: 2893, col: 11, offset: 91339},
 																											expr: &anyMatcher{
-																												line: 2893, col: 13, offset: 91339,
+																												line: 2893, col: 13, offset: 91341,
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 676, col: 21, offset: 21503},
+																											pos: position{line: 676, col: 21, offset: 21505},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 91003},
+																												pos: position{line: 2876, col: 10, offset: 91005},
 																												run: (*parser).callonDocumentFragment1305,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 91003},
+																													pos:        position{line: 2876, col: 10, offset: 91005},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -10093,28 +10093,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91401},
+																											pos: position{line: 2898, col: 8, offset: 91403},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91174},
+																													pos: position{line: 2885, col: 12, offset: 91176},
 																													run: (*parser).callonDocumentFragment1308,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91175},
+																														pos: position{line: 2885, col: 13, offset: 91177},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91175},
+																																pos:        position{line: 2885, col: 13, offset: 91177},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91182},
+																																pos:        position{line: 2885, col: 20, offset: 91184},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91191},
+																																pos:        position{line: 2885, col: 29, offset: 91193},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -10123,9 +10123,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91351},
+																													pos: position{line: 2895, col: 8, offset: 91353},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91352,
+																														line: 2895, col: 9, offset: 91354,
 																													},
 																												},
 																											},
@@ -10144,24 +10144,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2622, col: 22, offset: 83750},
+														pos: position{line: 2622, col: 22, offset: 83752},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2618, col: 19, offset: 83670},
+																pos: position{line: 2618, col: 19, offset: 83672},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2618, col: 19, offset: 83670},
+																		pos:        position{line: 2618, col: 19, offset: 83672},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2618, col: 26, offset: 83677},
+																		pos: position{line: 2618, col: 26, offset: 83679},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 91003},
+																			pos: position{line: 2876, col: 10, offset: 91005},
 																			run: (*parser).callonDocumentFragment1319,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 91003},
+																				pos:        position{line: 2876, col: 10, offset: 91005},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10170,28 +10170,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91401},
+																		pos: position{line: 2898, col: 8, offset: 91403},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91174},
+																				pos: position{line: 2885, col: 12, offset: 91176},
 																				run: (*parser).callonDocumentFragment1322,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91175},
+																					pos: position{line: 2885, col: 13, offset: 91177},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91175},
+																							pos:        position{line: 2885, col: 13, offset: 91177},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91182},
+																							pos:        position{line: 2885, col: 20, offset: 91184},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91191},
+																							pos:        position{line: 2885, col: 29, offset: 91193},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10200,9 +10200,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91351},
+																				pos: position{line: 2895, col: 8, offset: 91353},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91352,
+																					line: 2895, col: 9, offset: 91354,
 																				},
 																			},
 																		},
@@ -10210,9 +10210,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91351},
+																pos: position{line: 2895, col: 8, offset: 91353},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91352,
+																	line: 2895, col: 9, offset: 91354,
 																},
 															},
 														},
@@ -10221,36 +10221,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2483, col: 22, offset: 79889},
+											pos: position{line: 2483, col: 22, offset: 79891},
 											run: (*parser).callonDocumentFragment1331,
 											expr: &seqExpr{
-												pos: position{line: 2483, col: 22, offset: 79889},
+												pos: position{line: 2483, col: 22, offset: 79891},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2488, col: 31, offset: 80110},
+														pos:        position{line: 2488, col: 31, offset: 80112},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2488, col: 36, offset: 80115},
+														pos: position{line: 2488, col: 36, offset: 80117},
 														expr: &litMatcher{
-															pos:        position{line: 2488, col: 37, offset: 80116},
+															pos:        position{line: 2488, col: 37, offset: 80118},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2483, col: 49, offset: 79916},
+														pos:   position{line: 2483, col: 49, offset: 79918},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2822, col: 13, offset: 89529},
+															pos: position{line: 2822, col: 13, offset: 89531},
 															run: (*parser).callonDocumentFragment1337,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2822, col: 13, offset: 89529},
+																pos: position{line: 2822, col: 13, offset: 89531},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2822, col: 13, offset: 89529},
+																	pos:        position{line: 2822, col: 13, offset: 89531},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10260,28 +10260,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2898, col: 8, offset: 91401},
+														pos: position{line: 2898, col: 8, offset: 91403},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2885, col: 12, offset: 91174},
+																pos: position{line: 2885, col: 12, offset: 91176},
 																run: (*parser).callonDocumentFragment1341,
 																expr: &choiceExpr{
-																	pos: position{line: 2885, col: 13, offset: 91175},
+																	pos: position{line: 2885, col: 13, offset: 91177},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 13, offset: 91175},
+																			pos:        position{line: 2885, col: 13, offset: 91177},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 20, offset: 91182},
+																			pos:        position{line: 2885, col: 20, offset: 91184},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 29, offset: 91191},
+																			pos:        position{line: 2885, col: 29, offset: 91193},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10290,9 +10290,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91351},
+																pos: position{line: 2895, col: 8, offset: 91353},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91352,
+																	line: 2895, col: 9, offset: 91354,
 																},
 															},
 														},
@@ -10301,37 +10301,37 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1225, col: 5, offset: 37933},
+											pos: position{line: 1225, col: 5, offset: 37935},
 											run: (*parser).callonDocumentFragment1348,
 											expr: &seqExpr{
-												pos: position{line: 1225, col: 5, offset: 37933},
+												pos: position{line: 1225, col: 5, offset: 37935},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 1225, col: 5, offset: 37933},
+														pos: position{line: 1225, col: 5, offset: 37935},
 														run: (*parser).callonDocumentFragment1350,
 													},
 													&labeledExpr{
-														pos:   position{line: 1228, col: 5, offset: 37991},
+														pos:   position{line: 1228, col: 5, offset: 37993},
 														label: "frontmatter",
 														expr: &actionExpr{
-															pos: position{line: 1233, col: 20, offset: 38086},
+															pos: position{line: 1233, col: 20, offset: 38088},
 															run: (*parser).callonDocumentFragment1352,
 															expr: &seqExpr{
-																pos: position{line: 1233, col: 20, offset: 38086},
+																pos: position{line: 1233, col: 20, offset: 38088},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1237, col: 30, offset: 38306},
+																		pos:        position{line: 1237, col: 30, offset: 38308},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1237, col: 36, offset: 38312},
+																		pos: position{line: 1237, col: 36, offset: 38314},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 91003},
+																			pos: position{line: 2876, col: 10, offset: 91005},
 																			run: (*parser).callonDocumentFragment1356,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 91003},
+																				pos:        position{line: 2876, col: 10, offset: 91005},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10340,28 +10340,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91401},
+																		pos: position{line: 2898, col: 8, offset: 91403},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91174},
+																				pos: position{line: 2885, col: 12, offset: 91176},
 																				run: (*parser).callonDocumentFragment1359,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91175},
+																					pos: position{line: 2885, col: 13, offset: 91177},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91175},
+																							pos:        position{line: 2885, col: 13, offset: 91177},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91182},
+																							pos:        position{line: 2885, col: 20, offset: 91184},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91191},
+																							pos:        position{line: 2885, col: 29, offset: 91193},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10370,46 +10370,46 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91351},
+																				pos: position{line: 2895, col: 8, offset: 91353},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91352,
+																					line: 2895, col: 9, offset: 91354,
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1233, col: 45, offset: 38111},
+																		pos:   position{line: 1233, col: 45, offset: 38113},
 																		label: "content",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 1233, col: 53, offset: 38119},
+																			pos: position{line: 1233, col: 53, offset: 38121},
 																			expr: &actionExpr{
-																				pos: position{line: 1239, col: 27, offset: 38350},
+																				pos: position{line: 1239, col: 27, offset: 38352},
 																				run: (*parser).callonDocumentFragment1368,
 																				expr: &zeroOrMoreExpr{
-																					pos: position{line: 1239, col: 27, offset: 38350},
+																					pos: position{line: 1239, col: 27, offset: 38352},
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1239, col: 28, offset: 38351},
+																						pos: position{line: 1239, col: 28, offset: 38353},
 																						expr: &seqExpr{
-																							pos: position{line: 1239, col: 29, offset: 38352},
+																							pos: position{line: 1239, col: 29, offset: 38354},
 																							exprs: []interface{}{
 																								&notExpr{
-																									pos: position{line: 1239, col: 29, offset: 38352},
+																									pos: position{line: 1239, col: 29, offset: 38354},
 																									expr: &seqExpr{
-																										pos: position{line: 1237, col: 30, offset: 38306},
+																										pos: position{line: 1237, col: 30, offset: 38308},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 1237, col: 30, offset: 38306},
+																												pos:        position{line: 1237, col: 30, offset: 38308},
 																												val:        "---",
 																												ignoreCase: false,
 																												want:       "\"---\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 1237, col: 36, offset: 38312},
+																												pos: position{line: 1237, col: 36, offset: 38314},
 																												expr: &actionExpr{
-																													pos: position{line: 2876, col: 10, offset: 91003},
+																													pos: position{line: 2876, col: 10, offset: 91005},
 																													run: (*parser).callonDocumentFragment1376,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2876, col: 10, offset: 91003},
+																														pos:        position{line: 2876, col: 10, offset: 91005},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -10418,28 +10418,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2898, col: 8, offset: 91401},
+																												pos: position{line: 2898, col: 8, offset: 91403},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2885, col: 12, offset: 91174},
+																														pos: position{line: 2885, col: 12, offset: 91176},
 																														run: (*parser).callonDocumentFragment1379,
 																														expr: &choiceExpr{
-																															pos: position{line: 2885, col: 13, offset: 91175},
+																															pos: position{line: 2885, col: 13, offset: 91177},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 13, offset: 91175},
+																																	pos:        position{line: 2885, col: 13, offset: 91177},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 20, offset: 91182},
+																																	pos:        position{line: 2885, col: 20, offset: 91184},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 29, offset: 91191},
+																																	pos:        position{line: 2885, col: 29, offset: 91193},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -10448,9 +10448,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2895, col: 8, offset: 91351},
+																														pos: position{line: 2895, col: 8, offset: 91353},
 																														expr: &anyMatcher{
-																															line: 2895, col: 9, offset: 91352,
+																															line: 2895, col: 9, offset: 91354,
 																														},
 																													},
 																												},
@@ -10459,7 +10459,7 @@ var g = &grammar{
 																									},
 																								},
 																								&anyMatcher{
-																									line: 1239, col: 55, offset: 38378,
+																									line: 1239, col: 55, offset: 38380,
 																								},
 																							},
 																						},
@@ -10469,18 +10469,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1237, col: 30, offset: 38306},
+																		pos:        position{line: 1237, col: 30, offset: 38308},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1237, col: 36, offset: 38312},
+																		pos: position{line: 1237, col: 36, offset: 38314},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 91003},
+																			pos: position{line: 2876, col: 10, offset: 91005},
 																			run: (*parser).callonDocumentFragment1389,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 91003},
+																				pos:        position{line: 2876, col: 10, offset: 91005},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10489,28 +10489,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91401},
+																		pos: position{line: 2898, col: 8, offset: 91403},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91174},
+																				pos: position{line: 2885, col: 12, offset: 91176},
 																				run: (*parser).callonDocumentFragment1392,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91175},
+																					pos: position{line: 2885, col: 13, offset: 91177},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91175},
+																							pos:        position{line: 2885, col: 13, offset: 91177},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91182},
+																							pos:        position{line: 2885, col: 20, offset: 91184},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91191},
+																							pos:        position{line: 2885, col: 29, offset: 91193},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10519,15 +10519,15 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91351},
+																				pos: position{line: 2895, col: 8, offset: 91353},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91352,
+																					line: 2895, col: 9, offset: 91354,
 																				},
 																			},
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1233, col: 104, offset: 38170},
+																		pos: position{line: 1233, col: 104, offset: 38172},
 																		run: (*parser).callonDocumentFragment1399,
 																	},
 																},
@@ -10578,9 +10578,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2895, col: 8, offset: 91351},
+							pos: position{line: 2895, col: 8, offset: 91353},
 							expr: &anyMatcher{
-								line: 2895, col: 9, offset: 91352,
+								line: 2895, col: 9, offset: 91354,
 							},
 						},
 					},
@@ -10652,12 +10652,12 @@ var g = &grammar{
 										pos: position{line: 304, col: 9, offset: 9170},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2880, col: 11, offset: 91064},
+												pos: position{line: 2880, col: 11, offset: 91066},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2880, col: 11, offset: 91064},
+													pos: position{line: 2880, col: 11, offset: 91066},
 													expr: &charClassMatcher{
-														pos:        position{line: 2880, col: 11, offset: 91064},
+														pos:        position{line: 2880, col: 11, offset: 91066},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10681,10 +10681,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 309, col: 5, offset: 9350},
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 10, offset: 91003},
+								pos: position{line: 2876, col: 10, offset: 91005},
 								run: (*parser).callonAttributeDeclaration21,
 								expr: &charClassMatcher{
-									pos:        position{line: 2876, col: 10, offset: 91003},
+									pos:        position{line: 2876, col: 10, offset: 91005},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -10693,28 +10693,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2898, col: 8, offset: 91401},
+							pos: position{line: 2898, col: 8, offset: 91403},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2885, col: 12, offset: 91174},
+									pos: position{line: 2885, col: 12, offset: 91176},
 									run: (*parser).callonAttributeDeclaration24,
 									expr: &choiceExpr{
-										pos: position{line: 2885, col: 13, offset: 91175},
+										pos: position{line: 2885, col: 13, offset: 91177},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2885, col: 13, offset: 91175},
+												pos:        position{line: 2885, col: 13, offset: 91177},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 20, offset: 91182},
+												pos:        position{line: 2885, col: 20, offset: 91184},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 29, offset: 91191},
+												pos:        position{line: 2885, col: 29, offset: 91193},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10723,9 +10723,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2895, col: 8, offset: 91351},
+									pos: position{line: 2895, col: 8, offset: 91353},
 									expr: &anyMatcher{
-										line: 2895, col: 9, offset: 91352,
+										line: 2895, col: 9, offset: 91354,
 									},
 								},
 							},
@@ -10771,10 +10771,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 324, col: 14, offset: 9848},
 												expr: &actionExpr{
-													pos: position{line: 2876, col: 10, offset: 91003},
+													pos: position{line: 2876, col: 10, offset: 91005},
 													run: (*parser).callonAttributeDeclarationValue11,
 													expr: &charClassMatcher{
-														pos:        position{line: 2876, col: 10, offset: 91003},
+														pos:        position{line: 2876, col: 10, offset: 91005},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10783,25 +10783,25 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 2885, col: 12, offset: 91174},
+												pos: position{line: 2885, col: 12, offset: 91176},
 												run: (*parser).callonAttributeDeclarationValue13,
 												expr: &choiceExpr{
-													pos: position{line: 2885, col: 13, offset: 91175},
+													pos: position{line: 2885, col: 13, offset: 91177},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2885, col: 13, offset: 91175},
+															pos:        position{line: 2885, col: 13, offset: 91177},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2885, col: 20, offset: 91182},
+															pos:        position{line: 2885, col: 20, offset: 91184},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2885, col: 29, offset: 91191},
+															pos:        position{line: 2885, col: 29, offset: 91193},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10812,10 +10812,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 325, col: 9, offset: 9872},
 												expr: &actionExpr{
-													pos: position{line: 2876, col: 10, offset: 91003},
+													pos: position{line: 2876, col: 10, offset: 91005},
 													run: (*parser).callonAttributeDeclarationValue19,
 													expr: &charClassMatcher{
-														pos:        position{line: 2876, col: 10, offset: 91003},
+														pos:        position{line: 2876, col: 10, offset: 91005},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10885,10 +10885,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 343, col: 13, offset: 10417},
 										expr: &actionExpr{
-											pos: position{line: 2876, col: 10, offset: 91003},
+											pos: position{line: 2876, col: 10, offset: 91005},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2876, col: 10, offset: 91003},
+												pos:        position{line: 2876, col: 10, offset: 91005},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10897,28 +10897,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2898, col: 8, offset: 91401},
+										pos: position{line: 2898, col: 8, offset: 91403},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2885, col: 12, offset: 91174},
+												pos: position{line: 2885, col: 12, offset: 91176},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2885, col: 13, offset: 91175},
+													pos: position{line: 2885, col: 13, offset: 91177},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2885, col: 13, offset: 91175},
+															pos:        position{line: 2885, col: 13, offset: 91177},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2885, col: 20, offset: 91182},
+															pos:        position{line: 2885, col: 20, offset: 91184},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2885, col: 29, offset: 91191},
+															pos:        position{line: 2885, col: 29, offset: 91193},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10927,9 +10927,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2895, col: 8, offset: 91351},
+												pos: position{line: 2895, col: 8, offset: 91353},
 												expr: &anyMatcher{
-													line: 2895, col: 9, offset: 91352,
+													line: 2895, col: 9, offset: 91354,
 												},
 											},
 										},
@@ -10962,23 +10962,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2470, col: 5, offset: 79435},
+										pos: position{line: 2470, col: 5, offset: 79437},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2470, col: 5, offset: 79435},
+											pos: position{line: 2470, col: 5, offset: 79437},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2470, col: 5, offset: 79435},
+													pos: position{line: 2470, col: 5, offset: 79437},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2473, col: 5, offset: 79511},
+													pos:   position{line: 2473, col: 5, offset: 79513},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2474, col: 9, offset: 79529},
+														pos: position{line: 2474, col: 9, offset: 79531},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2474, col: 10, offset: 79530},
+															pos:        position{line: 2474, col: 10, offset: 79532},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -10990,10 +10990,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2876, col: 10, offset: 91003},
+										pos: position{line: 2876, col: 10, offset: 91005},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2876, col: 10, offset: 91003},
+											pos:        position{line: 2876, col: 10, offset: 91005},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -11172,28 +11172,28 @@ var g = &grammar{
 																			expr: &zeroOrOneExpr{
 																				pos: position{line: 657, col: 62, offset: 20835},
 																				expr: &actionExpr{
-																					pos: position{line: 665, col: 17, offset: 21130},
+																					pos: position{line: 665, col: 17, offset: 21132},
 																					run: (*parser).callonAttributeDeclarationValueElement68,
 																					expr: &seqExpr{
-																						pos: position{line: 665, col: 17, offset: 21130},
+																						pos: position{line: 665, col: 17, offset: 21132},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 665, col: 17, offset: 21130},
+																								pos:        position{line: 665, col: 17, offset: 21132},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 665, col: 21, offset: 21134},
+																								pos:   position{line: 665, col: 21, offset: 21136},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 665, col: 28, offset: 21141},
+																									pos: position{line: 665, col: 28, offset: 21143},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 665, col: 28, offset: 21141},
+																											pos: position{line: 665, col: 28, offset: 21143},
 																											run: (*parser).callonAttributeDeclarationValueElement73,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 665, col: 28, offset: 21141},
+																												pos:        position{line: 665, col: 28, offset: 21143},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -11201,12 +11201,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 667, col: 9, offset: 21195},
+																											pos: position{line: 667, col: 9, offset: 21197},
 																											run: (*parser).callonAttributeDeclarationValueElement75,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 667, col: 9, offset: 21195},
+																												pos: position{line: 667, col: 9, offset: 21197},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 667, col: 9, offset: 21195},
+																													pos:        position{line: 667, col: 9, offset: 21197},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -11281,28 +11281,28 @@ var g = &grammar{
 																			expr: &zeroOrOneExpr{
 																				pos: position{line: 661, col: 63, offset: 21007},
 																				expr: &actionExpr{
-																					pos: position{line: 665, col: 17, offset: 21130},
+																					pos: position{line: 665, col: 17, offset: 21132},
 																					run: (*parser).callonAttributeDeclarationValueElement90,
 																					expr: &seqExpr{
-																						pos: position{line: 665, col: 17, offset: 21130},
+																						pos: position{line: 665, col: 17, offset: 21132},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 665, col: 17, offset: 21130},
+																								pos:        position{line: 665, col: 17, offset: 21132},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 665, col: 21, offset: 21134},
+																								pos:   position{line: 665, col: 21, offset: 21136},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 665, col: 28, offset: 21141},
+																									pos: position{line: 665, col: 28, offset: 21143},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 665, col: 28, offset: 21141},
+																											pos: position{line: 665, col: 28, offset: 21143},
 																											run: (*parser).callonAttributeDeclarationValueElement95,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 665, col: 28, offset: 21141},
+																												pos:        position{line: 665, col: 28, offset: 21143},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -11310,12 +11310,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 667, col: 9, offset: 21195},
+																											pos: position{line: 667, col: 9, offset: 21197},
 																											run: (*parser).callonAttributeDeclarationValueElement97,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 667, col: 9, offset: 21195},
+																												pos: position{line: 667, col: 9, offset: 21197},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 667, col: 9, offset: 21195},
+																													pos:        position{line: 667, col: 9, offset: 21197},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -11417,27 +11417,27 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1197, col: 23, offset: 36984},
+																						pos: position{line: 1197, col: 23, offset: 36986},
 																						run: (*parser).callonBlockAttributes19,
 																						expr: &seqExpr{
-																							pos: position{line: 1197, col: 23, offset: 36984},
+																							pos: position{line: 1197, col: 23, offset: 36986},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1195, col: 32, offset: 36952},
+																									pos:        position{line: 1195, col: 32, offset: 36954},
 																									val:        "�",
 																									ignoreCase: false,
 																									want:       "\"�\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1197, col: 51, offset: 37012},
+																									pos:   position{line: 1197, col: 51, offset: 37014},
 																									label: "ref",
 																									expr: &actionExpr{
-																										pos: position{line: 1197, col: 56, offset: 37017},
+																										pos: position{line: 1197, col: 56, offset: 37019},
 																										run: (*parser).callonBlockAttributes23,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1197, col: 56, offset: 37017},
+																											pos: position{line: 1197, col: 56, offset: 37019},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1197, col: 56, offset: 37017},
+																												pos:        position{line: 1197, col: 56, offset: 37019},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -11447,13 +11447,13 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1195, col: 32, offset: 36952},
+																									pos:        position{line: 1195, col: 32, offset: 36954},
 																									val:        "�",
 																									ignoreCase: false,
 																									want:       "\"�\"",
 																								},
 																								&andCodeExpr{
-																									pos: position{line: 1198, col: 5, offset: 37089},
+																									pos: position{line: 1198, col: 5, offset: 37091},
 																									run: (*parser).callonBlockAttributes27,
 																								},
 																							},
@@ -11631,28 +11631,28 @@ var g = &grammar{
 																															expr: &zeroOrOneExpr{
 																																pos: position{line: 657, col: 62, offset: 20835},
 																																expr: &actionExpr{
-																																	pos: position{line: 665, col: 17, offset: 21130},
+																																	pos: position{line: 665, col: 17, offset: 21132},
 																																	run: (*parser).callonBlockAttributes64,
 																																	expr: &seqExpr{
-																																		pos: position{line: 665, col: 17, offset: 21130},
+																																		pos: position{line: 665, col: 17, offset: 21132},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 665, col: 17, offset: 21130},
+																																				pos:        position{line: 665, col: 17, offset: 21132},
 																																				val:        ":",
 																																				ignoreCase: false,
 																																				want:       "\":\"",
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 665, col: 21, offset: 21134},
+																																				pos:   position{line: 665, col: 21, offset: 21136},
 																																				label: "start",
 																																				expr: &choiceExpr{
-																																					pos: position{line: 665, col: 28, offset: 21141},
+																																					pos: position{line: 665, col: 28, offset: 21143},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 665, col: 28, offset: 21141},
+																																							pos: position{line: 665, col: 28, offset: 21143},
 																																							run: (*parser).callonBlockAttributes69,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 665, col: 28, offset: 21141},
+																																								pos:        position{line: 665, col: 28, offset: 21143},
 																																								val:        "[A-Za-z]",
 																																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																								ignoreCase: false,
@@ -11660,12 +11660,12 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&actionExpr{
-																																							pos: position{line: 667, col: 9, offset: 21195},
+																																							pos: position{line: 667, col: 9, offset: 21197},
 																																							run: (*parser).callonBlockAttributes71,
 																																							expr: &oneOrMoreExpr{
-																																								pos: position{line: 667, col: 9, offset: 21195},
+																																								pos: position{line: 667, col: 9, offset: 21197},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 667, col: 9, offset: 21195},
+																																									pos:        position{line: 667, col: 9, offset: 21197},
 																																									val:        "[0-9]",
 																																									ranges:     []rune{'0', '9'},
 																																									ignoreCase: false,
@@ -11740,28 +11740,28 @@ var g = &grammar{
 																															expr: &zeroOrOneExpr{
 																																pos: position{line: 661, col: 63, offset: 21007},
 																																expr: &actionExpr{
-																																	pos: position{line: 665, col: 17, offset: 21130},
+																																	pos: position{line: 665, col: 17, offset: 21132},
 																																	run: (*parser).callonBlockAttributes86,
 																																	expr: &seqExpr{
-																																		pos: position{line: 665, col: 17, offset: 21130},
+																																		pos: position{line: 665, col: 17, offset: 21132},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 665, col: 17, offset: 21130},
+																																				pos:        position{line: 665, col: 17, offset: 21132},
 																																				val:        ":",
 																																				ignoreCase: false,
 																																				want:       "\":\"",
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 665, col: 21, offset: 21134},
+																																				pos:   position{line: 665, col: 21, offset: 21136},
 																																				label: "start",
 																																				expr: &choiceExpr{
-																																					pos: position{line: 665, col: 28, offset: 21141},
+																																					pos: position{line: 665, col: 28, offset: 21143},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 665, col: 28, offset: 21141},
+																																							pos: position{line: 665, col: 28, offset: 21143},
 																																							run: (*parser).callonBlockAttributes91,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 665, col: 28, offset: 21141},
+																																								pos:        position{line: 665, col: 28, offset: 21143},
 																																								val:        "[A-Za-z]",
 																																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																								ignoreCase: false,
@@ -11769,12 +11769,12 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&actionExpr{
-																																							pos: position{line: 667, col: 9, offset: 21195},
+																																							pos: position{line: 667, col: 9, offset: 21197},
 																																							run: (*parser).callonBlockAttributes93,
 																																							expr: &oneOrMoreExpr{
-																																								pos: position{line: 667, col: 9, offset: 21195},
+																																								pos: position{line: 667, col: 9, offset: 21197},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 667, col: 9, offset: 21195},
+																																									pos:        position{line: 667, col: 9, offset: 21197},
 																																									val:        "[0-9]",
 																																									ranges:     []rune{'0', '9'},
 																																									ignoreCase: false,
@@ -11834,10 +11834,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 371, col: 35, offset: 11426},
 												expr: &actionExpr{
-													pos: position{line: 2876, col: 10, offset: 91003},
+													pos: position{line: 2876, col: 10, offset: 91005},
 													run: (*parser).callonBlockAttributes101,
 													expr: &charClassMatcher{
-														pos:        position{line: 2876, col: 10, offset: 91003},
+														pos:        position{line: 2876, col: 10, offset: 91005},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11846,28 +11846,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2898, col: 8, offset: 91401},
+												pos: position{line: 2898, col: 8, offset: 91403},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2885, col: 12, offset: 91174},
+														pos: position{line: 2885, col: 12, offset: 91176},
 														run: (*parser).callonBlockAttributes104,
 														expr: &choiceExpr{
-															pos: position{line: 2885, col: 13, offset: 91175},
+															pos: position{line: 2885, col: 13, offset: 91177},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2885, col: 13, offset: 91175},
+																	pos:        position{line: 2885, col: 13, offset: 91177},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2885, col: 20, offset: 91182},
+																	pos:        position{line: 2885, col: 20, offset: 91184},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2885, col: 29, offset: 91191},
+																	pos:        position{line: 2885, col: 29, offset: 91193},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11876,9 +11876,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2895, col: 8, offset: 91351},
+														pos: position{line: 2895, col: 8, offset: 91353},
 														expr: &anyMatcher{
-															line: 2895, col: 9, offset: 91352,
+															line: 2895, col: 9, offset: 91354,
 														},
 													},
 												},
@@ -11886,24 +11886,24 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 371, col: 46, offset: 11437},
 												expr: &actionExpr{
-													pos: position{line: 676, col: 14, offset: 21496},
+													pos: position{line: 676, col: 14, offset: 21498},
 													run: (*parser).callonBlockAttributes112,
 													expr: &seqExpr{
-														pos: position{line: 676, col: 14, offset: 21496},
+														pos: position{line: 676, col: 14, offset: 21498},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2893, col: 11, offset: 91337},
+																pos: position{line: 2893, col: 11, offset: 91339},
 																expr: &anyMatcher{
-																	line: 2893, col: 13, offset: 91339,
+																	line: 2893, col: 13, offset: 91341,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 676, col: 21, offset: 21503},
+																pos: position{line: 676, col: 21, offset: 21505},
 																expr: &actionExpr{
-																	pos: position{line: 2876, col: 10, offset: 91003},
+																	pos: position{line: 2876, col: 10, offset: 91005},
 																	run: (*parser).callonBlockAttributes117,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2876, col: 10, offset: 91003},
+																		pos:        position{line: 2876, col: 10, offset: 91005},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -11912,28 +11912,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2898, col: 8, offset: 91401},
+																pos: position{line: 2898, col: 8, offset: 91403},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2885, col: 12, offset: 91174},
+																		pos: position{line: 2885, col: 12, offset: 91176},
 																		run: (*parser).callonBlockAttributes120,
 																		expr: &choiceExpr{
-																			pos: position{line: 2885, col: 13, offset: 91175},
+																			pos: position{line: 2885, col: 13, offset: 91177},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 13, offset: 91175},
+																					pos:        position{line: 2885, col: 13, offset: 91177},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 20, offset: 91182},
+																					pos:        position{line: 2885, col: 20, offset: 91184},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 29, offset: 91191},
+																					pos:        position{line: 2885, col: 29, offset: 91193},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -11942,9 +11942,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91351},
+																		pos: position{line: 2895, col: 8, offset: 91353},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91352,
+																			line: 2895, col: 9, offset: 91354,
 																		},
 																	},
 																},
@@ -11996,12 +11996,12 @@ var g = &grammar{
 																		pos: position{line: 425, col: 9, offset: 13070},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2770, col: 14, offset: 88151},
+																				pos: position{line: 2770, col: 14, offset: 88153},
 																				run: (*parser).callonBlockAttributes138,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2770, col: 14, offset: 88151},
+																					pos: position{line: 2770, col: 14, offset: 88153},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2770, col: 14, offset: 88151},
+																						pos:        position{line: 2770, col: 14, offset: 88153},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -12010,10 +12010,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 91003},
+																				pos: position{line: 2876, col: 10, offset: 91005},
 																				run: (*parser).callonBlockAttributes141,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 91003},
+																					pos:        position{line: 2876, col: 10, offset: 91005},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -12021,27 +12021,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2793, col: 5, offset: 88657},
+																				pos: position{line: 2793, col: 5, offset: 88659},
 																				run: (*parser).callonBlockAttributes143,
 																				expr: &choiceExpr{
-																					pos: position{line: 2794, col: 9, offset: 88667},
+																					pos: position{line: 2794, col: 9, offset: 88669},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2794, col: 10, offset: 88668},
+																							pos:        position{line: 2794, col: 10, offset: 88670},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2796, col: 13, offset: 88765},
+																							pos: position{line: 2796, col: 13, offset: 88767},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2796, col: 13, offset: 88765},
+																									pos: position{line: 2796, col: 13, offset: 88767},
 																									run: (*parser).callonBlockAttributes147,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2799, col: 13, offset: 88865},
+																									pos:        position{line: 2799, col: 13, offset: 88867},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -12049,20 +12049,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2799, col: 19, offset: 88871},
+																							pos:        position{line: 2799, col: 19, offset: 88873},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2802, col: 13, offset: 88909},
+																							pos: position{line: 2802, col: 13, offset: 88911},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2802, col: 13, offset: 88909},
+																									pos: position{line: 2802, col: 13, offset: 88911},
 																									run: (*parser).callonBlockAttributes151,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2805, col: 14, offset: 89002},
+																									pos:        position{line: 2805, col: 14, offset: 89004},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -12071,18 +12071,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2807, col: 12, offset: 89046},
+																							pos: position{line: 2807, col: 12, offset: 89048},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2807, col: 12, offset: 89046},
+																									pos:        position{line: 2807, col: 12, offset: 89048},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2807, col: 16, offset: 89050},
+																									pos: position{line: 2807, col: 16, offset: 89052},
 																									expr: &litMatcher{
-																										pos:        position{line: 2807, col: 17, offset: 89051},
+																										pos:        position{line: 2807, col: 17, offset: 89053},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12200,10 +12200,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2815, col: 12, offset: 89311},
+																				pos: position{line: 2815, col: 12, offset: 89313},
 																				run: (*parser).callonBlockAttributes177,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2815, col: 12, offset: 89311},
+																					pos:        position{line: 2815, col: 12, offset: 89313},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12221,10 +12221,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 375, col: 35, offset: 11581},
 												expr: &actionExpr{
-													pos: position{line: 2876, col: 10, offset: 91003},
+													pos: position{line: 2876, col: 10, offset: 91005},
 													run: (*parser).callonBlockAttributes180,
 													expr: &charClassMatcher{
-														pos:        position{line: 2876, col: 10, offset: 91003},
+														pos:        position{line: 2876, col: 10, offset: 91005},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12233,28 +12233,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2898, col: 8, offset: 91401},
+												pos: position{line: 2898, col: 8, offset: 91403},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2885, col: 12, offset: 91174},
+														pos: position{line: 2885, col: 12, offset: 91176},
 														run: (*parser).callonBlockAttributes183,
 														expr: &choiceExpr{
-															pos: position{line: 2885, col: 13, offset: 91175},
+															pos: position{line: 2885, col: 13, offset: 91177},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2885, col: 13, offset: 91175},
+																	pos:        position{line: 2885, col: 13, offset: 91177},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2885, col: 20, offset: 91182},
+																	pos:        position{line: 2885, col: 20, offset: 91184},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2885, col: 29, offset: 91191},
+																	pos:        position{line: 2885, col: 29, offset: 91193},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12263,9 +12263,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2895, col: 8, offset: 91351},
+														pos: position{line: 2895, col: 8, offset: 91353},
 														expr: &anyMatcher{
-															line: 2895, col: 9, offset: 91352,
+															line: 2895, col: 9, offset: 91354,
 														},
 													},
 												},
@@ -12273,24 +12273,24 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 375, col: 46, offset: 11592},
 												expr: &actionExpr{
-													pos: position{line: 676, col: 14, offset: 21496},
+													pos: position{line: 676, col: 14, offset: 21498},
 													run: (*parser).callonBlockAttributes191,
 													expr: &seqExpr{
-														pos: position{line: 676, col: 14, offset: 21496},
+														pos: position{line: 676, col: 14, offset: 21498},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2893, col: 11, offset: 91337},
+																pos: position{line: 2893, col: 11, offset: 91339},
 																expr: &anyMatcher{
-																	line: 2893, col: 13, offset: 91339,
+																	line: 2893, col: 13, offset: 91341,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 676, col: 21, offset: 21503},
+																pos: position{line: 676, col: 21, offset: 21505},
 																expr: &actionExpr{
-																	pos: position{line: 2876, col: 10, offset: 91003},
+																	pos: position{line: 2876, col: 10, offset: 91005},
 																	run: (*parser).callonBlockAttributes196,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2876, col: 10, offset: 91003},
+																		pos:        position{line: 2876, col: 10, offset: 91005},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12299,28 +12299,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2898, col: 8, offset: 91401},
+																pos: position{line: 2898, col: 8, offset: 91403},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2885, col: 12, offset: 91174},
+																		pos: position{line: 2885, col: 12, offset: 91176},
 																		run: (*parser).callonBlockAttributes199,
 																		expr: &choiceExpr{
-																			pos: position{line: 2885, col: 13, offset: 91175},
+																			pos: position{line: 2885, col: 13, offset: 91177},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 13, offset: 91175},
+																					pos:        position{line: 2885, col: 13, offset: 91177},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 20, offset: 91182},
+																					pos:        position{line: 2885, col: 20, offset: 91184},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 29, offset: 91191},
+																					pos:        position{line: 2885, col: 29, offset: 91193},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12329,9 +12329,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91351},
+																		pos: position{line: 2895, col: 8, offset: 91353},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91352,
+																			line: 2895, col: 9, offset: 91354,
 																		},
 																	},
 																},
@@ -12353,10 +12353,10 @@ var g = &grammar{
 												pos:   position{line: 379, col: 12, offset: 11682},
 												label: "start",
 												expr: &actionExpr{
-													pos: position{line: 2901, col: 16, offset: 91525},
+													pos: position{line: 2901, col: 16, offset: 91527},
 													run: (*parser).callonBlockAttributes209,
 													expr: &litMatcher{
-														pos:        position{line: 2901, col: 16, offset: 91525},
+														pos:        position{line: 2901, col: 16, offset: 91527},
 														val:        "",
 														ignoreCase: false,
 														want:       "\"\"",
@@ -12374,10 +12374,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 379, col: 64, offset: 11734},
 												expr: &actionExpr{
-													pos: position{line: 2876, col: 10, offset: 91003},
+													pos: position{line: 2876, col: 10, offset: 91005},
 													run: (*parser).callonBlockAttributes214,
 													expr: &charClassMatcher{
-														pos:        position{line: 2876, col: 10, offset: 91003},
+														pos:        position{line: 2876, col: 10, offset: 91005},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12389,10 +12389,10 @@ var g = &grammar{
 												pos:   position{line: 379, col: 71, offset: 11741},
 												label: "end",
 												expr: &actionExpr{
-													pos: position{line: 2901, col: 16, offset: 91525},
+													pos: position{line: 2901, col: 16, offset: 91527},
 													run: (*parser).callonBlockAttributes217,
 													expr: &litMatcher{
-														pos:        position{line: 2901, col: 16, offset: 91525},
+														pos:        position{line: 2901, col: 16, offset: 91527},
 														val:        "",
 														ignoreCase: false,
 														want:       "\"\"",
@@ -12404,28 +12404,28 @@ var g = &grammar{
 												run: (*parser).callonBlockAttributes219,
 											},
 											&choiceExpr{
-												pos: position{line: 2898, col: 8, offset: 91401},
+												pos: position{line: 2898, col: 8, offset: 91403},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2885, col: 12, offset: 91174},
+														pos: position{line: 2885, col: 12, offset: 91176},
 														run: (*parser).callonBlockAttributes221,
 														expr: &choiceExpr{
-															pos: position{line: 2885, col: 13, offset: 91175},
+															pos: position{line: 2885, col: 13, offset: 91177},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2885, col: 13, offset: 91175},
+																	pos:        position{line: 2885, col: 13, offset: 91177},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2885, col: 20, offset: 91182},
+																	pos:        position{line: 2885, col: 20, offset: 91184},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2885, col: 29, offset: 91191},
+																	pos:        position{line: 2885, col: 29, offset: 91193},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12434,9 +12434,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2895, col: 8, offset: 91351},
+														pos: position{line: 2895, col: 8, offset: 91353},
 														expr: &anyMatcher{
-															line: 2895, col: 9, offset: 91352,
+															line: 2895, col: 9, offset: 91354,
 														},
 													},
 												},
@@ -12444,24 +12444,24 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 379, col: 123, offset: 11793},
 												expr: &actionExpr{
-													pos: position{line: 676, col: 14, offset: 21496},
+													pos: position{line: 676, col: 14, offset: 21498},
 													run: (*parser).callonBlockAttributes229,
 													expr: &seqExpr{
-														pos: position{line: 676, col: 14, offset: 21496},
+														pos: position{line: 676, col: 14, offset: 21498},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2893, col: 11, offset: 91337},
+																pos: position{line: 2893, col: 11, offset: 91339},
 																expr: &anyMatcher{
-																	line: 2893, col: 13, offset: 91339,
+																	line: 2893, col: 13, offset: 91341,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 676, col: 21, offset: 21503},
+																pos: position{line: 676, col: 21, offset: 21505},
 																expr: &actionExpr{
-																	pos: position{line: 2876, col: 10, offset: 91003},
+																	pos: position{line: 2876, col: 10, offset: 91005},
 																	run: (*parser).callonBlockAttributes234,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2876, col: 10, offset: 91003},
+																		pos:        position{line: 2876, col: 10, offset: 91005},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12470,28 +12470,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2898, col: 8, offset: 91401},
+																pos: position{line: 2898, col: 8, offset: 91403},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2885, col: 12, offset: 91174},
+																		pos: position{line: 2885, col: 12, offset: 91176},
 																		run: (*parser).callonBlockAttributes237,
 																		expr: &choiceExpr{
-																			pos: position{line: 2885, col: 13, offset: 91175},
+																			pos: position{line: 2885, col: 13, offset: 91177},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 13, offset: 91175},
+																					pos:        position{line: 2885, col: 13, offset: 91177},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 20, offset: 91182},
+																					pos:        position{line: 2885, col: 20, offset: 91184},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 29, offset: 91191},
+																					pos:        position{line: 2885, col: 29, offset: 91193},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12500,9 +12500,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91351},
+																		pos: position{line: 2895, col: 8, offset: 91353},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91352,
+																			line: 2895, col: 9, offset: 91354,
 																		},
 																	},
 																},
@@ -12750,10 +12750,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 465, col: 13, offset: 14538},
 										expr: &actionExpr{
-											pos: position{line: 2876, col: 10, offset: 91003},
+											pos: position{line: 2876, col: 10, offset: 91005},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2876, col: 10, offset: 91003},
+												pos:        position{line: 2876, col: 10, offset: 91005},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13087,28 +13087,28 @@ var g = &grammar{
 																						expr: &zeroOrOneExpr{
 																							pos: position{line: 657, col: 62, offset: 20835},
 																							expr: &actionExpr{
-																								pos: position{line: 665, col: 17, offset: 21130},
+																								pos: position{line: 665, col: 17, offset: 21132},
 																								run: (*parser).callonShortHandAttributeValue49,
 																								expr: &seqExpr{
-																									pos: position{line: 665, col: 17, offset: 21130},
+																									pos: position{line: 665, col: 17, offset: 21132},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 665, col: 17, offset: 21130},
+																											pos:        position{line: 665, col: 17, offset: 21132},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 665, col: 21, offset: 21134},
+																											pos:   position{line: 665, col: 21, offset: 21136},
 																											label: "start",
 																											expr: &choiceExpr{
-																												pos: position{line: 665, col: 28, offset: 21141},
+																												pos: position{line: 665, col: 28, offset: 21143},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 665, col: 28, offset: 21141},
+																														pos: position{line: 665, col: 28, offset: 21143},
 																														run: (*parser).callonShortHandAttributeValue54,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 665, col: 28, offset: 21141},
+																															pos:        position{line: 665, col: 28, offset: 21143},
 																															val:        "[A-Za-z]",
 																															ranges:     []rune{'A', 'Z', 'a', 'z'},
 																															ignoreCase: false,
@@ -13116,12 +13116,12 @@ var g = &grammar{
 																														},
 																													},
 																													&actionExpr{
-																														pos: position{line: 667, col: 9, offset: 21195},
+																														pos: position{line: 667, col: 9, offset: 21197},
 																														run: (*parser).callonShortHandAttributeValue56,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 667, col: 9, offset: 21195},
+																															pos: position{line: 667, col: 9, offset: 21197},
 																															expr: &charClassMatcher{
-																																pos:        position{line: 667, col: 9, offset: 21195},
+																																pos:        position{line: 667, col: 9, offset: 21197},
 																																val:        "[0-9]",
 																																ranges:     []rune{'0', '9'},
 																																ignoreCase: false,
@@ -13196,28 +13196,28 @@ var g = &grammar{
 																						expr: &zeroOrOneExpr{
 																							pos: position{line: 661, col: 63, offset: 21007},
 																							expr: &actionExpr{
-																								pos: position{line: 665, col: 17, offset: 21130},
+																								pos: position{line: 665, col: 17, offset: 21132},
 																								run: (*parser).callonShortHandAttributeValue71,
 																								expr: &seqExpr{
-																									pos: position{line: 665, col: 17, offset: 21130},
+																									pos: position{line: 665, col: 17, offset: 21132},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 665, col: 17, offset: 21130},
+																											pos:        position{line: 665, col: 17, offset: 21132},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 665, col: 21, offset: 21134},
+																											pos:   position{line: 665, col: 21, offset: 21136},
 																											label: "start",
 																											expr: &choiceExpr{
-																												pos: position{line: 665, col: 28, offset: 21141},
+																												pos: position{line: 665, col: 28, offset: 21143},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 665, col: 28, offset: 21141},
+																														pos: position{line: 665, col: 28, offset: 21143},
 																														run: (*parser).callonShortHandAttributeValue76,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 665, col: 28, offset: 21141},
+																															pos:        position{line: 665, col: 28, offset: 21143},
 																															val:        "[A-Za-z]",
 																															ranges:     []rune{'A', 'Z', 'a', 'z'},
 																															ignoreCase: false,
@@ -13225,12 +13225,12 @@ var g = &grammar{
 																														},
 																													},
 																													&actionExpr{
-																														pos: position{line: 667, col: 9, offset: 21195},
+																														pos: position{line: 667, col: 9, offset: 21197},
 																														run: (*parser).callonShortHandAttributeValue78,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 667, col: 9, offset: 21195},
+																															pos: position{line: 667, col: 9, offset: 21197},
 																															expr: &charClassMatcher{
-																																pos:        position{line: 667, col: 9, offset: 21195},
+																																pos:        position{line: 667, col: 9, offset: 21197},
 																																val:        "[0-9]",
 																																ranges:     []rune{'0', '9'},
 																																ignoreCase: false,
@@ -13285,10 +13285,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 517, col: 9, offset: 16120},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 91003},
+														pos: position{line: 2876, col: 10, offset: 91005},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 91003},
+															pos:        position{line: 2876, col: 10, offset: 91005},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13349,10 +13349,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 523, col: 34, offset: 16263},
 														expr: &actionExpr{
-															pos: position{line: 2876, col: 10, offset: 91003},
+															pos: position{line: 2876, col: 10, offset: 91005},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2876, col: 10, offset: 91003},
+																pos:        position{line: 2876, col: 10, offset: 91005},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13392,10 +13392,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 528, col: 13, offset: 16427},
 												expr: &actionExpr{
-													pos: position{line: 2876, col: 10, offset: 91003},
+													pos: position{line: 2876, col: 10, offset: 91005},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2876, col: 10, offset: 91003},
+														pos:        position{line: 2876, col: 10, offset: 91005},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13418,10 +13418,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 528, col: 26, offset: 16440},
 																expr: &actionExpr{
-																	pos: position{line: 2876, col: 10, offset: 91003},
+																	pos: position{line: 2876, col: 10, offset: 91005},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2876, col: 10, offset: 91003},
+																		pos:        position{line: 2876, col: 10, offset: 91005},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13476,10 +13476,10 @@ var g = &grammar{
 										&notExpr{
 											pos: position{line: 548, col: 22, offset: 17087},
 											expr: &actionExpr{
-												pos: position{line: 2876, col: 10, offset: 91003},
+												pos: position{line: 2876, col: 10, offset: 91005},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2876, col: 10, offset: 91003},
+													pos:        position{line: 2876, col: 10, offset: 91005},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13510,10 +13510,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 541, col: 9, offset: 16832},
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 10, offset: 91003},
+								pos: position{line: 2876, col: 10, offset: 91005},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2876, col: 10, offset: 91003},
+									pos:        position{line: 2876, col: 10, offset: 91005},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13543,10 +13543,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 542, col: 33, offset: 16872},
 										expr: &actionExpr{
-											pos: position{line: 2876, col: 10, offset: 91003},
+											pos: position{line: 2876, col: 10, offset: 91005},
 											run: (*parser).callonNamedAttribute21,
 											expr: &charClassMatcher{
-												pos:        position{line: 2876, col: 10, offset: 91003},
+												pos:        position{line: 2876, col: 10, offset: 91005},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13601,10 +13601,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 558, col: 9, offset: 17304},
 											expr: &actionExpr{
-												pos: position{line: 2876, col: 10, offset: 91003},
+												pos: position{line: 2876, col: 10, offset: 91005},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2876, col: 10, offset: 91003},
+													pos:        position{line: 2876, col: 10, offset: 91005},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13683,12 +13683,12 @@ var g = &grammar{
 							pos: position{line: 571, col: 9, offset: 17621},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2770, col: 14, offset: 88151},
+									pos: position{line: 2770, col: 14, offset: 88153},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2770, col: 14, offset: 88151},
+										pos: position{line: 2770, col: 14, offset: 88153},
 										expr: &charClassMatcher{
-											pos:        position{line: 2770, col: 14, offset: 88151},
+											pos:        position{line: 2770, col: 14, offset: 88153},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -13697,10 +13697,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2876, col: 10, offset: 91003},
+									pos: position{line: 2876, col: 10, offset: 91005},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2876, col: 10, offset: 91003},
+										pos:        position{line: 2876, col: 10, offset: 91005},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -13883,28 +13883,28 @@ var g = &grammar{
 																		expr: &zeroOrOneExpr{
 																			pos: position{line: 657, col: 62, offset: 20835},
 																			expr: &actionExpr{
-																				pos: position{line: 665, col: 17, offset: 21130},
+																				pos: position{line: 665, col: 17, offset: 21132},
 																				run: (*parser).callonSingleQuotedAttributeValueContent47,
 																				expr: &seqExpr{
-																					pos: position{line: 665, col: 17, offset: 21130},
+																					pos: position{line: 665, col: 17, offset: 21132},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 665, col: 17, offset: 21130},
+																							pos:        position{line: 665, col: 17, offset: 21132},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 665, col: 21, offset: 21134},
+																							pos:   position{line: 665, col: 21, offset: 21136},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 665, col: 28, offset: 21141},
+																								pos: position{line: 665, col: 28, offset: 21143},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 665, col: 28, offset: 21141},
+																										pos: position{line: 665, col: 28, offset: 21143},
 																										run: (*parser).callonSingleQuotedAttributeValueContent52,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 665, col: 28, offset: 21141},
+																											pos:        position{line: 665, col: 28, offset: 21143},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -13912,12 +13912,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 667, col: 9, offset: 21195},
+																										pos: position{line: 667, col: 9, offset: 21197},
 																										run: (*parser).callonSingleQuotedAttributeValueContent54,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 667, col: 9, offset: 21195},
+																											pos: position{line: 667, col: 9, offset: 21197},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 667, col: 9, offset: 21195},
+																												pos:        position{line: 667, col: 9, offset: 21197},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -13992,28 +13992,28 @@ var g = &grammar{
 																		expr: &zeroOrOneExpr{
 																			pos: position{line: 661, col: 63, offset: 21007},
 																			expr: &actionExpr{
-																				pos: position{line: 665, col: 17, offset: 21130},
+																				pos: position{line: 665, col: 17, offset: 21132},
 																				run: (*parser).callonSingleQuotedAttributeValueContent69,
 																				expr: &seqExpr{
-																					pos: position{line: 665, col: 17, offset: 21130},
+																					pos: position{line: 665, col: 17, offset: 21132},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 665, col: 17, offset: 21130},
+																							pos:        position{line: 665, col: 17, offset: 21132},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 665, col: 21, offset: 21134},
+																							pos:   position{line: 665, col: 21, offset: 21136},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 665, col: 28, offset: 21141},
+																								pos: position{line: 665, col: 28, offset: 21143},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 665, col: 28, offset: 21141},
+																										pos: position{line: 665, col: 28, offset: 21143},
 																										run: (*parser).callonSingleQuotedAttributeValueContent74,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 665, col: 28, offset: 21141},
+																											pos:        position{line: 665, col: 28, offset: 21143},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14021,12 +14021,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 667, col: 9, offset: 21195},
+																										pos: position{line: 667, col: 9, offset: 21197},
 																										run: (*parser).callonSingleQuotedAttributeValueContent76,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 667, col: 9, offset: 21195},
+																											pos: position{line: 667, col: 9, offset: 21197},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 667, col: 9, offset: 21195},
+																												pos:        position{line: 667, col: 9, offset: 21197},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14157,10 +14157,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 591, col: 14, offset: 18361},
 											expr: &actionExpr{
-												pos: position{line: 2876, col: 10, offset: 91003},
+												pos: position{line: 2876, col: 10, offset: 91005},
 												run: (*parser).callonDoubleQuotedAttributeValue13,
 												expr: &charClassMatcher{
-													pos:        position{line: 2876, col: 10, offset: 91003},
+													pos:        position{line: 2876, col: 10, offset: 91005},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14197,12 +14197,12 @@ var g = &grammar{
 							pos: position{line: 597, col: 9, offset: 18472},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2770, col: 14, offset: 88151},
+									pos: position{line: 2770, col: 14, offset: 88153},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2770, col: 14, offset: 88151},
+										pos: position{line: 2770, col: 14, offset: 88153},
 										expr: &charClassMatcher{
-											pos:        position{line: 2770, col: 14, offset: 88151},
+											pos:        position{line: 2770, col: 14, offset: 88153},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14211,10 +14211,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2876, col: 10, offset: 91003},
+									pos: position{line: 2876, col: 10, offset: 91005},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2876, col: 10, offset: 91003},
+										pos:        position{line: 2876, col: 10, offset: 91005},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14397,28 +14397,28 @@ var g = &grammar{
 																		expr: &zeroOrOneExpr{
 																			pos: position{line: 657, col: 62, offset: 20835},
 																			expr: &actionExpr{
-																				pos: position{line: 665, col: 17, offset: 21130},
+																				pos: position{line: 665, col: 17, offset: 21132},
 																				run: (*parser).callonDoubleQuotedAttributeValueContent47,
 																				expr: &seqExpr{
-																					pos: position{line: 665, col: 17, offset: 21130},
+																					pos: position{line: 665, col: 17, offset: 21132},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 665, col: 17, offset: 21130},
+																							pos:        position{line: 665, col: 17, offset: 21132},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 665, col: 21, offset: 21134},
+																							pos:   position{line: 665, col: 21, offset: 21136},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 665, col: 28, offset: 21141},
+																								pos: position{line: 665, col: 28, offset: 21143},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 665, col: 28, offset: 21141},
+																										pos: position{line: 665, col: 28, offset: 21143},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent52,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 665, col: 28, offset: 21141},
+																											pos:        position{line: 665, col: 28, offset: 21143},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14426,12 +14426,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 667, col: 9, offset: 21195},
+																										pos: position{line: 667, col: 9, offset: 21197},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent54,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 667, col: 9, offset: 21195},
+																											pos: position{line: 667, col: 9, offset: 21197},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 667, col: 9, offset: 21195},
+																												pos:        position{line: 667, col: 9, offset: 21197},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14506,28 +14506,28 @@ var g = &grammar{
 																		expr: &zeroOrOneExpr{
 																			pos: position{line: 661, col: 63, offset: 21007},
 																			expr: &actionExpr{
-																				pos: position{line: 665, col: 17, offset: 21130},
+																				pos: position{line: 665, col: 17, offset: 21132},
 																				run: (*parser).callonDoubleQuotedAttributeValueContent69,
 																				expr: &seqExpr{
-																					pos: position{line: 665, col: 17, offset: 21130},
+																					pos: position{line: 665, col: 17, offset: 21132},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 665, col: 17, offset: 21130},
+																							pos:        position{line: 665, col: 17, offset: 21132},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 665, col: 21, offset: 21134},
+																							pos:   position{line: 665, col: 21, offset: 21136},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 665, col: 28, offset: 21141},
+																								pos: position{line: 665, col: 28, offset: 21143},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 665, col: 28, offset: 21141},
+																										pos: position{line: 665, col: 28, offset: 21143},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent74,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 665, col: 28, offset: 21141},
+																											pos:        position{line: 665, col: 28, offset: 21143},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14535,12 +14535,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 667, col: 9, offset: 21195},
+																										pos: position{line: 667, col: 9, offset: 21197},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent76,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 667, col: 9, offset: 21195},
+																											pos: position{line: 667, col: 9, offset: 21197},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 667, col: 9, offset: 21195},
+																												pos:        position{line: 667, col: 9, offset: 21197},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14641,10 +14641,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 618, col: 5, offset: 19328},
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 10, offset: 91003},
+								pos: position{line: 2876, col: 10, offset: 91005},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2876, col: 10, offset: 91003},
+									pos:        position{line: 2876, col: 10, offset: 91005},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -14853,28 +14853,28 @@ var g = &grammar{
 																				expr: &zeroOrOneExpr{
 																					pos: position{line: 657, col: 62, offset: 20835},
 																					expr: &actionExpr{
-																						pos: position{line: 665, col: 17, offset: 21130},
+																						pos: position{line: 665, col: 17, offset: 21132},
 																						run: (*parser).callonUnquotedAttributeValue49,
 																						expr: &seqExpr{
-																							pos: position{line: 665, col: 17, offset: 21130},
+																							pos: position{line: 665, col: 17, offset: 21132},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 665, col: 17, offset: 21130},
+																									pos:        position{line: 665, col: 17, offset: 21132},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 665, col: 21, offset: 21134},
+																									pos:   position{line: 665, col: 21, offset: 21136},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 665, col: 28, offset: 21141},
+																										pos: position{line: 665, col: 28, offset: 21143},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 665, col: 28, offset: 21141},
+																												pos: position{line: 665, col: 28, offset: 21143},
 																												run: (*parser).callonUnquotedAttributeValue54,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 665, col: 28, offset: 21141},
+																													pos:        position{line: 665, col: 28, offset: 21143},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -14882,12 +14882,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 667, col: 9, offset: 21195},
+																												pos: position{line: 667, col: 9, offset: 21197},
 																												run: (*parser).callonUnquotedAttributeValue56,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 667, col: 9, offset: 21195},
+																													pos: position{line: 667, col: 9, offset: 21197},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 667, col: 9, offset: 21195},
+																														pos:        position{line: 667, col: 9, offset: 21197},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -14962,28 +14962,28 @@ var g = &grammar{
 																				expr: &zeroOrOneExpr{
 																					pos: position{line: 661, col: 63, offset: 21007},
 																					expr: &actionExpr{
-																						pos: position{line: 665, col: 17, offset: 21130},
+																						pos: position{line: 665, col: 17, offset: 21132},
 																						run: (*parser).callonUnquotedAttributeValue71,
 																						expr: &seqExpr{
-																							pos: position{line: 665, col: 17, offset: 21130},
+																							pos: position{line: 665, col: 17, offset: 21132},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 665, col: 17, offset: 21130},
+																									pos:        position{line: 665, col: 17, offset: 21132},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 665, col: 21, offset: 21134},
+																									pos:   position{line: 665, col: 21, offset: 21136},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 665, col: 28, offset: 21141},
+																										pos: position{line: 665, col: 28, offset: 21143},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 665, col: 28, offset: 21141},
+																												pos: position{line: 665, col: 28, offset: 21143},
 																												run: (*parser).callonUnquotedAttributeValue76,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 665, col: 28, offset: 21141},
+																													pos:        position{line: 665, col: 28, offset: 21143},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -14991,12 +14991,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 667, col: 9, offset: 21195},
+																												pos: position{line: 667, col: 9, offset: 21197},
 																												run: (*parser).callonUnquotedAttributeValue78,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 667, col: 9, offset: 21195},
+																													pos: position{line: 667, col: 9, offset: 21197},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 667, col: 9, offset: 21195},
+																														pos:        position{line: 667, col: 9, offset: 21197},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -15034,10 +15034,10 @@ var g = &grammar{
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2876, col: 10, offset: 91003},
+											pos: position{line: 2876, col: 10, offset: 91005},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2876, col: 10, offset: 91003},
+												pos:        position{line: 2876, col: 10, offset: 91005},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -15068,32 +15068,32 @@ var g = &grammar{
 		},
 		{
 			name: "CrossReference",
-			pos:  position{line: 683, col: 1, offset: 21757},
+			pos:  position{line: 683, col: 1, offset: 21759},
 			expr: &choiceExpr{
-				pos: position{line: 683, col: 19, offset: 21775},
+				pos: position{line: 683, col: 19, offset: 21777},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 685, col: 27, offset: 21851},
+						pos: position{line: 685, col: 27, offset: 21853},
 						run: (*parser).callonCrossReference2,
 						expr: &seqExpr{
-							pos: position{line: 685, col: 27, offset: 21851},
+							pos: position{line: 685, col: 27, offset: 21853},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 685, col: 27, offset: 21851},
+									pos:        position{line: 685, col: 27, offset: 21853},
 									val:        "<<",
 									ignoreCase: false,
 									want:       "\"<<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 685, col: 32, offset: 21856},
+									pos:   position{line: 685, col: 32, offset: 21858},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2861, col: 7, offset: 90655},
+										pos: position{line: 2861, col: 7, offset: 90657},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2861, col: 7, offset: 90655},
+											pos: position{line: 2861, col: 7, offset: 90657},
 											expr: &charClassMatcher{
-												pos:        position{line: 2861, col: 7, offset: 90655},
+												pos:        position{line: 2861, col: 7, offset: 90657},
 												val:        "[^[]<>,\\r\\n]",
 												chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 												ignoreCase: false,
@@ -15103,12 +15103,12 @@ var g = &grammar{
 									},
 								},
 								&zeroOrMoreExpr{
-									pos: position{line: 685, col: 40, offset: 21864},
+									pos: position{line: 685, col: 40, offset: 21866},
 									expr: &actionExpr{
-										pos: position{line: 2876, col: 10, offset: 91003},
+										pos: position{line: 2876, col: 10, offset: 91005},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2876, col: 10, offset: 91003},
+											pos:        position{line: 2876, col: 10, offset: 91005},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15117,18 +15117,18 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 685, col: 47, offset: 21871},
+									pos:        position{line: 685, col: 47, offset: 21873},
 									val:        ",",
 									ignoreCase: false,
 									want:       "\",\"",
 								},
 								&zeroOrMoreExpr{
-									pos: position{line: 685, col: 51, offset: 21875},
+									pos: position{line: 685, col: 51, offset: 21877},
 									expr: &actionExpr{
-										pos: position{line: 2876, col: 10, offset: 91003},
+										pos: position{line: 2876, col: 10, offset: 91005},
 										run: (*parser).callonCrossReference14,
 										expr: &charClassMatcher{
-											pos:        position{line: 2876, col: 10, offset: 91003},
+											pos:        position{line: 2876, col: 10, offset: 91005},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15137,20 +15137,20 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 685, col: 58, offset: 21882},
+									pos:   position{line: 685, col: 58, offset: 21884},
 									label: "label",
 									expr: &oneOrMoreExpr{
-										pos: position{line: 695, col: 24, offset: 22283},
+										pos: position{line: 695, col: 24, offset: 22285},
 										expr: &choiceExpr{
-											pos: position{line: 696, col: 5, offset: 22289},
+											pos: position{line: 696, col: 5, offset: 22291},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 696, col: 6, offset: 22290},
+													pos: position{line: 696, col: 6, offset: 22292},
 													run: (*parser).callonCrossReference19,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 696, col: 6, offset: 22290},
+														pos: position{line: 696, col: 6, offset: 22292},
 														expr: &charClassMatcher{
-															pos:        position{line: 696, col: 6, offset: 22290},
+															pos:        position{line: 696, col: 6, offset: 22292},
 															val:        "[^\\r\\n{<>]",
 															chars:      []rune{'\r', '\n', '{', '<', '>'},
 															ignoreCase: false,
@@ -15265,10 +15265,10 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 700, col: 8, offset: 22517},
+													pos: position{line: 700, col: 8, offset: 22519},
 													run: (*parser).callonCrossReference42,
 													expr: &litMatcher{
-														pos:        position{line: 700, col: 8, offset: 22517},
+														pos:        position{line: 700, col: 8, offset: 22519},
 														val:        "{",
 														ignoreCase: false,
 														want:       "\"{\"",
@@ -15279,7 +15279,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 685, col: 86, offset: 21910},
+									pos:        position{line: 685, col: 86, offset: 21912},
 									val:        ">>",
 									ignoreCase: false,
 									want:       "\">>\"",
@@ -15288,27 +15288,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 687, col: 9, offset: 21983},
+						pos: position{line: 687, col: 9, offset: 21985},
 						run: (*parser).callonCrossReference45,
 						expr: &seqExpr{
-							pos: position{line: 687, col: 9, offset: 21983},
+							pos: position{line: 687, col: 9, offset: 21985},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 687, col: 9, offset: 21983},
+									pos:        position{line: 687, col: 9, offset: 21985},
 									val:        "<<",
 									ignoreCase: false,
 									want:       "\"<<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 687, col: 14, offset: 21988},
+									pos:   position{line: 687, col: 14, offset: 21990},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2861, col: 7, offset: 90655},
+										pos: position{line: 2861, col: 7, offset: 90657},
 										run: (*parser).callonCrossReference49,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2861, col: 7, offset: 90655},
+											pos: position{line: 2861, col: 7, offset: 90657},
 											expr: &charClassMatcher{
-												pos:        position{line: 2861, col: 7, offset: 90655},
+												pos:        position{line: 2861, col: 7, offset: 90657},
 												val:        "[^[]<>,\\r\\n]",
 												chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 												ignoreCase: false,
@@ -15318,7 +15318,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 687, col: 22, offset: 21996},
+									pos:        position{line: 687, col: 22, offset: 21998},
 									val:        ">>",
 									ignoreCase: false,
 									want:       "\">>\"",
@@ -15327,7 +15327,7 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 683, col: 44, offset: 21800},
+						pos:  position{line: 683, col: 44, offset: 21802},
 						name: "ExternalCrossReference",
 					},
 				},
@@ -15335,58 +15335,58 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalCrossReference",
-			pos:  position{line: 691, col: 1, offset: 22067},
+			pos:  position{line: 691, col: 1, offset: 22069},
 			expr: &actionExpr{
-				pos: position{line: 691, col: 27, offset: 22093},
+				pos: position{line: 691, col: 27, offset: 22095},
 				run: (*parser).callonExternalCrossReference1,
 				expr: &seqExpr{
-					pos: position{line: 691, col: 27, offset: 22093},
+					pos: position{line: 691, col: 27, offset: 22095},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 691, col: 27, offset: 22093},
+							pos:        position{line: 691, col: 27, offset: 22095},
 							val:        "xref:",
 							ignoreCase: false,
 							want:       "\"xref:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 691, col: 35, offset: 22101},
+							pos:   position{line: 691, col: 35, offset: 22103},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2830, col: 17, offset: 89666},
+								pos: position{line: 2830, col: 17, offset: 89668},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2830, col: 17, offset: 89666},
+									pos:   position{line: 2830, col: 17, offset: 89668},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2847, col: 5, offset: 90120},
+										pos: position{line: 2847, col: 5, offset: 90122},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2847, col: 5, offset: 90120},
+											pos:   position{line: 2847, col: 5, offset: 90122},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2847, col: 14, offset: 90129},
+												pos: position{line: 2847, col: 14, offset: 90131},
 												expr: &choiceExpr{
-													pos: position{line: 2848, col: 9, offset: 90139},
+													pos: position{line: 2848, col: 9, offset: 90141},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2848, col: 9, offset: 90139},
+															pos: position{line: 2848, col: 9, offset: 90141},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2848, col: 9, offset: 90139},
+																pos: position{line: 2848, col: 9, offset: 90141},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2848, col: 9, offset: 90139},
+																		pos: position{line: 2848, col: 9, offset: 90141},
 																		expr: &litMatcher{
-																			pos:        position{line: 2848, col: 10, offset: 90140},
+																			pos:        position{line: 2848, col: 10, offset: 90142},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2849, col: 9, offset: 90168},
+																		pos: position{line: 2849, col: 9, offset: 90170},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2849, col: 10, offset: 90169},
+																			pos:        position{line: 2849, col: 10, offset: 90171},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -15397,27 +15397,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2852, col: 11, offset: 90381},
+															pos: position{line: 2852, col: 11, offset: 90383},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2852, col: 11, offset: 90381},
+																	pos:        position{line: 2852, col: 11, offset: 90383},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2852, col: 19, offset: 90389},
+																	pos: position{line: 2852, col: 19, offset: 90391},
 																	expr: &seqExpr{
-																		pos: position{line: 2852, col: 21, offset: 90391},
+																		pos: position{line: 2852, col: 21, offset: 90393},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2852, col: 21, offset: 90391},
+																				pos: position{line: 2852, col: 21, offset: 90393},
 																				expr: &actionExpr{
-																					pos: position{line: 2876, col: 10, offset: 91003},
+																					pos: position{line: 2876, col: 10, offset: 91005},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2876, col: 10, offset: 91003},
+																						pos:        position{line: 2876, col: 10, offset: 91005},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -15426,11 +15426,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2852, col: 28, offset: 90398},
+																				pos: position{line: 2852, col: 28, offset: 90400},
 																				expr: &notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91351},
+																					pos: position{line: 2895, col: 8, offset: 91353},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91352,
+																						line: 2895, col: 9, offset: 91354,
 																					},
 																				},
 																			},
@@ -15611,28 +15611,28 @@ var g = &grammar{
 																								expr: &zeroOrOneExpr{
 																									pos: position{line: 657, col: 62, offset: 20835},
 																									expr: &actionExpr{
-																										pos: position{line: 665, col: 17, offset: 21130},
+																										pos: position{line: 665, col: 17, offset: 21132},
 																										run: (*parser).callonExternalCrossReference63,
 																										expr: &seqExpr{
-																											pos: position{line: 665, col: 17, offset: 21130},
+																											pos: position{line: 665, col: 17, offset: 21132},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 665, col: 17, offset: 21130},
+																													pos:        position{line: 665, col: 17, offset: 21132},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 665, col: 21, offset: 21134},
+																													pos:   position{line: 665, col: 21, offset: 21136},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 665, col: 28, offset: 21141},
+																														pos: position{line: 665, col: 28, offset: 21143},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 665, col: 28, offset: 21141},
+																																pos: position{line: 665, col: 28, offset: 21143},
 																																run: (*parser).callonExternalCrossReference68,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 665, col: 28, offset: 21141},
+																																	pos:        position{line: 665, col: 28, offset: 21143},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -15640,12 +15640,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 667, col: 9, offset: 21195},
+																																pos: position{line: 667, col: 9, offset: 21197},
 																																run: (*parser).callonExternalCrossReference70,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 667, col: 9, offset: 21195},
+																																	pos: position{line: 667, col: 9, offset: 21197},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 667, col: 9, offset: 21195},
+																																		pos:        position{line: 667, col: 9, offset: 21197},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -15720,28 +15720,28 @@ var g = &grammar{
 																								expr: &zeroOrOneExpr{
 																									pos: position{line: 661, col: 63, offset: 21007},
 																									expr: &actionExpr{
-																										pos: position{line: 665, col: 17, offset: 21130},
+																										pos: position{line: 665, col: 17, offset: 21132},
 																										run: (*parser).callonExternalCrossReference85,
 																										expr: &seqExpr{
-																											pos: position{line: 665, col: 17, offset: 21130},
+																											pos: position{line: 665, col: 17, offset: 21132},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 665, col: 17, offset: 21130},
+																													pos:        position{line: 665, col: 17, offset: 21132},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 665, col: 21, offset: 21134},
+																													pos:   position{line: 665, col: 21, offset: 21136},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 665, col: 28, offset: 21141},
+																														pos: position{line: 665, col: 28, offset: 21143},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 665, col: 28, offset: 21141},
+																																pos: position{line: 665, col: 28, offset: 21143},
 																																run: (*parser).callonExternalCrossReference90,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 665, col: 28, offset: 21141},
+																																	pos:        position{line: 665, col: 28, offset: 21143},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -15749,12 +15749,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 667, col: 9, offset: 21195},
+																																pos: position{line: 667, col: 9, offset: 21197},
 																																run: (*parser).callonExternalCrossReference92,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 667, col: 9, offset: 21195},
+																																	pos: position{line: 667, col: 9, offset: 21197},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 667, col: 9, offset: 21195},
+																																		pos:        position{line: 667, col: 9, offset: 21197},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -15786,27 +15786,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1197, col: 23, offset: 36984},
+															pos: position{line: 1197, col: 23, offset: 36986},
 															run: (*parser).callonExternalCrossReference96,
 															expr: &seqExpr{
-																pos: position{line: 1197, col: 23, offset: 36984},
+																pos: position{line: 1197, col: 23, offset: 36986},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1195, col: 32, offset: 36952},
+																		pos:        position{line: 1195, col: 32, offset: 36954},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1197, col: 51, offset: 37012},
+																		pos:   position{line: 1197, col: 51, offset: 37014},
 																		label: "ref",
 																		expr: &actionExpr{
-																			pos: position{line: 1197, col: 56, offset: 37017},
+																			pos: position{line: 1197, col: 56, offset: 37019},
 																			run: (*parser).callonExternalCrossReference100,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1197, col: 56, offset: 37017},
+																				pos: position{line: 1197, col: 56, offset: 37019},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1197, col: 56, offset: 37017},
+																					pos:        position{line: 1197, col: 56, offset: 37019},
 																					val:        "[0-9]",
 																					ranges:     []rune{'0', '9'},
 																					ignoreCase: false,
@@ -15816,23 +15816,23 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1195, col: 32, offset: 36952},
+																		pos:        position{line: 1195, col: 32, offset: 36954},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1198, col: 5, offset: 37089},
+																		pos: position{line: 1198, col: 5, offset: 37091},
 																		run: (*parser).callonExternalCrossReference104,
 																	},
 																},
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2855, col: 11, offset: 90518},
+															pos: position{line: 2855, col: 11, offset: 90520},
 															run: (*parser).callonExternalCrossReference105,
 															expr: &litMatcher{
-																pos:        position{line: 2855, col: 11, offset: 90518},
+																pos:        position{line: 2855, col: 11, offset: 90520},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -15847,10 +15847,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 691, col: 54, offset: 22120},
+							pos:   position{line: 691, col: 54, offset: 22122},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 691, col: 66, offset: 22132},
+								pos:  position{line: 691, col: 66, offset: 22134},
 								name: "InlineAttributes",
 							},
 						},
@@ -15860,29 +15860,29 @@ var g = &grammar{
 		},
 		{
 			name: "MarkdownQuoteAttribution",
-			pos:  position{line: 987, col: 1, offset: 30779},
+			pos:  position{line: 987, col: 1, offset: 30781},
 			expr: &actionExpr{
-				pos: position{line: 988, col: 5, offset: 30812},
+				pos: position{line: 988, col: 5, offset: 30814},
 				run: (*parser).callonMarkdownQuoteAttribution1,
 				expr: &seqExpr{
-					pos: position{line: 988, col: 5, offset: 30812},
+					pos: position{line: 988, col: 5, offset: 30814},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 988, col: 5, offset: 30812},
+							pos:        position{line: 988, col: 5, offset: 30814},
 							val:        "-- ",
 							ignoreCase: false,
 							want:       "\"-- \"",
 						},
 						&labeledExpr{
-							pos:   position{line: 988, col: 11, offset: 30818},
+							pos:   position{line: 988, col: 11, offset: 30820},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2826, col: 14, offset: 89596},
+								pos: position{line: 2826, col: 14, offset: 89598},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2826, col: 14, offset: 89596},
+									pos: position{line: 2826, col: 14, offset: 89598},
 									expr: &charClassMatcher{
-										pos:        position{line: 2826, col: 14, offset: 89596},
+										pos:        position{line: 2826, col: 14, offset: 89598},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -15892,28 +15892,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2898, col: 8, offset: 91401},
+							pos: position{line: 2898, col: 8, offset: 91403},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2885, col: 12, offset: 91174},
+									pos: position{line: 2885, col: 12, offset: 91176},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2885, col: 13, offset: 91175},
+										pos: position{line: 2885, col: 13, offset: 91177},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2885, col: 13, offset: 91175},
+												pos:        position{line: 2885, col: 13, offset: 91177},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 20, offset: 91182},
+												pos:        position{line: 2885, col: 20, offset: 91184},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 29, offset: 91191},
+												pos:        position{line: 2885, col: 29, offset: 91193},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -15922,9 +15922,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2895, col: 8, offset: 91351},
+									pos: position{line: 2895, col: 8, offset: 91353},
 									expr: &anyMatcher{
-										line: 2895, col: 9, offset: 91352,
+										line: 2895, col: 9, offset: 91354,
 									},
 								},
 							},
@@ -15935,53 +15935,53 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentHeader",
-			pos:  position{line: 1099, col: 1, offset: 33735},
+			pos:  position{line: 1099, col: 1, offset: 33737},
 			expr: &actionExpr{
-				pos: position{line: 1100, col: 5, offset: 33758},
+				pos: position{line: 1100, col: 5, offset: 33760},
 				run: (*parser).callonDocumentHeader1,
 				expr: &seqExpr{
-					pos: position{line: 1100, col: 5, offset: 33758},
+					pos: position{line: 1100, col: 5, offset: 33760},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1100, col: 5, offset: 33758},
+							pos: position{line: 1100, col: 5, offset: 33760},
 							run: (*parser).callonDocumentHeader3,
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1103, col: 5, offset: 33819},
+							pos: position{line: 1103, col: 5, offset: 33821},
 							expr: &choiceExpr{
-								pos: position{line: 1103, col: 6, offset: 33820},
+								pos: position{line: 1103, col: 6, offset: 33822},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2483, col: 22, offset: 79889},
+										pos: position{line: 2483, col: 22, offset: 79891},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2483, col: 22, offset: 79889},
+											pos: position{line: 2483, col: 22, offset: 79891},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2488, col: 31, offset: 80110},
+													pos:        position{line: 2488, col: 31, offset: 80112},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2488, col: 36, offset: 80115},
+													pos: position{line: 2488, col: 36, offset: 80117},
 													expr: &litMatcher{
-														pos:        position{line: 2488, col: 37, offset: 80116},
+														pos:        position{line: 2488, col: 37, offset: 80118},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2483, col: 49, offset: 79916},
+													pos:   position{line: 2483, col: 49, offset: 79918},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2822, col: 13, offset: 89529},
+														pos: position{line: 2822, col: 13, offset: 89531},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2822, col: 13, offset: 89529},
+															pos: position{line: 2822, col: 13, offset: 89531},
 															expr: &charClassMatcher{
-																pos:        position{line: 2822, col: 13, offset: 89529},
+																pos:        position{line: 2822, col: 13, offset: 89531},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -15991,28 +15991,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2898, col: 8, offset: 91401},
+													pos: position{line: 2898, col: 8, offset: 91403},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91174},
+															pos: position{line: 2885, col: 12, offset: 91176},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2885, col: 13, offset: 91175},
+																pos: position{line: 2885, col: 13, offset: 91177},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 13, offset: 91175},
+																		pos:        position{line: 2885, col: 13, offset: 91177},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 20, offset: 91182},
+																		pos:        position{line: 2885, col: 20, offset: 91184},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 29, offset: 91191},
+																		pos:        position{line: 2885, col: 29, offset: 91193},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16021,9 +16021,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2895, col: 8, offset: 91351},
+															pos: position{line: 2895, col: 8, offset: 91353},
 															expr: &anyMatcher{
-																line: 2895, col: 9, offset: 91352,
+																line: 2895, col: 9, offset: 91354,
 															},
 														},
 													},
@@ -16032,36 +16032,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 819, col: 5, offset: 26336},
+										pos: position{line: 819, col: 5, offset: 26338},
 										run: (*parser).callonDocumentHeader23,
 										expr: &seqExpr{
-											pos: position{line: 819, col: 5, offset: 26336},
+											pos: position{line: 819, col: 5, offset: 26338},
 											exprs: []interface{}{
 												&actionExpr{
-													pos: position{line: 739, col: 5, offset: 23591},
+													pos: position{line: 739, col: 5, offset: 23593},
 													run: (*parser).callonDocumentHeader25,
 													expr: &seqExpr{
-														pos: position{line: 739, col: 5, offset: 23591},
+														pos: position{line: 739, col: 5, offset: 23593},
 														exprs: []interface{}{
 															&labeledExpr{
-																pos:   position{line: 739, col: 5, offset: 23591},
+																pos:   position{line: 739, col: 5, offset: 23593},
 																label: "delimiter",
 																expr: &actionExpr{
-																	pos: position{line: 739, col: 16, offset: 23602},
+																	pos: position{line: 739, col: 16, offset: 23604},
 																	run: (*parser).callonDocumentHeader28,
 																	expr: &seqExpr{
-																		pos: position{line: 739, col: 16, offset: 23602},
+																		pos: position{line: 739, col: 16, offset: 23604},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 739, col: 16, offset: 23602},
+																				pos:        position{line: 739, col: 16, offset: 23604},
 																				val:        "////",
 																				ignoreCase: false,
 																				want:       "\"////\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 739, col: 23, offset: 23609},
+																				pos: position{line: 739, col: 23, offset: 23611},
 																				expr: &litMatcher{
-																					pos:        position{line: 739, col: 23, offset: 23609},
+																					pos:        position{line: 739, col: 23, offset: 23611},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -16072,12 +16072,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 741, col: 8, offset: 23693},
+																pos: position{line: 741, col: 8, offset: 23695},
 																expr: &actionExpr{
-																	pos: position{line: 2876, col: 10, offset: 91003},
+																	pos: position{line: 2876, col: 10, offset: 91005},
 																	run: (*parser).callonDocumentHeader34,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2876, col: 10, offset: 91003},
+																		pos:        position{line: 2876, col: 10, offset: 91005},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16086,28 +16086,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2898, col: 8, offset: 91401},
+																pos: position{line: 2898, col: 8, offset: 91403},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2885, col: 12, offset: 91174},
+																		pos: position{line: 2885, col: 12, offset: 91176},
 																		run: (*parser).callonDocumentHeader37,
 																		expr: &choiceExpr{
-																			pos: position{line: 2885, col: 13, offset: 91175},
+																			pos: position{line: 2885, col: 13, offset: 91177},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 13, offset: 91175},
+																					pos:        position{line: 2885, col: 13, offset: 91177},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 20, offset: 91182},
+																					pos:        position{line: 2885, col: 20, offset: 91184},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 29, offset: 91191},
+																					pos:        position{line: 2885, col: 29, offset: 91193},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -16116,9 +16116,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91351},
+																		pos: position{line: 2895, col: 8, offset: 91353},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91352,
+																			line: 2895, col: 9, offset: 91354,
 																		},
 																	},
 																},
@@ -16127,46 +16127,46 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 820, col: 5, offset: 26367},
+													pos:   position{line: 820, col: 5, offset: 26369},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 830, col: 5, offset: 26653},
+														pos: position{line: 830, col: 5, offset: 26655},
 														expr: &actionExpr{
-															pos: position{line: 830, col: 6, offset: 26654},
+															pos: position{line: 830, col: 6, offset: 26656},
 															run: (*parser).callonDocumentHeader46,
 															expr: &seqExpr{
-																pos: position{line: 830, col: 6, offset: 26654},
+																pos: position{line: 830, col: 6, offset: 26656},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 830, col: 6, offset: 26654},
+																		pos: position{line: 830, col: 6, offset: 26656},
 																		expr: &choiceExpr{
-																			pos: position{line: 827, col: 29, offset: 26596},
+																			pos: position{line: 827, col: 29, offset: 26598},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 739, col: 5, offset: 23591},
+																					pos: position{line: 739, col: 5, offset: 23593},
 																					run: (*parser).callonDocumentHeader50,
 																					expr: &seqExpr{
-																						pos: position{line: 739, col: 5, offset: 23591},
+																						pos: position{line: 739, col: 5, offset: 23593},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 739, col: 5, offset: 23591},
+																								pos:   position{line: 739, col: 5, offset: 23593},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 739, col: 16, offset: 23602},
+																									pos: position{line: 739, col: 16, offset: 23604},
 																									run: (*parser).callonDocumentHeader53,
 																									expr: &seqExpr{
-																										pos: position{line: 739, col: 16, offset: 23602},
+																										pos: position{line: 739, col: 16, offset: 23604},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 739, col: 16, offset: 23602},
+																												pos:        position{line: 739, col: 16, offset: 23604},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 739, col: 23, offset: 23609},
+																												pos: position{line: 739, col: 23, offset: 23611},
 																												expr: &litMatcher{
-																													pos:        position{line: 739, col: 23, offset: 23609},
+																													pos:        position{line: 739, col: 23, offset: 23611},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -16177,12 +16177,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 741, col: 8, offset: 23693},
+																								pos: position{line: 741, col: 8, offset: 23695},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 91003},
+																									pos: position{line: 2876, col: 10, offset: 91005},
 																									run: (*parser).callonDocumentHeader59,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 91003},
+																										pos:        position{line: 2876, col: 10, offset: 91005},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -16191,28 +16191,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2898, col: 8, offset: 91401},
+																								pos: position{line: 2898, col: 8, offset: 91403},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2885, col: 12, offset: 91174},
+																										pos: position{line: 2885, col: 12, offset: 91176},
 																										run: (*parser).callonDocumentHeader62,
 																										expr: &choiceExpr{
-																											pos: position{line: 2885, col: 13, offset: 91175},
+																											pos: position{line: 2885, col: 13, offset: 91177},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 13, offset: 91175},
+																													pos:        position{line: 2885, col: 13, offset: 91177},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 20, offset: 91182},
+																													pos:        position{line: 2885, col: 20, offset: 91184},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 29, offset: 91191},
+																													pos:        position{line: 2885, col: 29, offset: 91193},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -16221,9 +16221,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2895, col: 8, offset: 91351},
+																										pos: position{line: 2895, col: 8, offset: 91353},
 																										expr: &anyMatcher{
-																											line: 2895, col: 9, offset: 91352,
+																											line: 2895, col: 9, offset: 91354,
 																										},
 																									},
 																								},
@@ -16232,39 +16232,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91351},
+																					pos: position{line: 2895, col: 8, offset: 91353},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91352,
+																						line: 2895, col: 9, offset: 91354,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 831, col: 5, offset: 26684},
+																		pos:   position{line: 831, col: 5, offset: 26686},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 810, col: 5, offset: 26100},
+																			pos: position{line: 810, col: 5, offset: 26102},
 																			run: (*parser).callonDocumentHeader72,
 																			expr: &seqExpr{
-																				pos: position{line: 810, col: 5, offset: 26100},
+																				pos: position{line: 810, col: 5, offset: 26102},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2893, col: 11, offset: 91337},
+																						pos: position{line: 2893, col: 11, offset: 91339},
 																						expr: &anyMatcher{
-																							line: 2893, col: 13, offset: 91339,
+																							line: 2893, col: 13, offset: 91341,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 811, col: 5, offset: 26175},
+																						pos:   position{line: 811, col: 5, offset: 26177},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2822, col: 13, offset: 89529},
+																							pos: position{line: 2822, col: 13, offset: 89531},
 																							run: (*parser).callonDocumentHeader77,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2822, col: 13, offset: 89529},
+																								pos: position{line: 2822, col: 13, offset: 89531},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2822, col: 13, offset: 89529},
+																									pos:        position{line: 2822, col: 13, offset: 89531},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16274,28 +16274,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91401},
+																						pos: position{line: 2898, col: 8, offset: 91403},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91174},
+																								pos: position{line: 2885, col: 12, offset: 91176},
 																								run: (*parser).callonDocumentHeader81,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91175},
+																									pos: position{line: 2885, col: 13, offset: 91177},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91175},
+																											pos:        position{line: 2885, col: 13, offset: 91177},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91182},
+																											pos:        position{line: 2885, col: 20, offset: 91184},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91191},
+																											pos:        position{line: 2885, col: 29, offset: 91193},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16304,9 +16304,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91351},
+																								pos: position{line: 2895, col: 8, offset: 91353},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91352,
+																									line: 2895, col: 9, offset: 91354,
 																								},
 																							},
 																						},
@@ -16321,35 +16321,35 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 821, col: 5, offset: 26401},
+													pos: position{line: 821, col: 5, offset: 26403},
 													expr: &choiceExpr{
-														pos: position{line: 827, col: 29, offset: 26596},
+														pos: position{line: 827, col: 29, offset: 26598},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 739, col: 5, offset: 23591},
+																pos: position{line: 739, col: 5, offset: 23593},
 																run: (*parser).callonDocumentHeader90,
 																expr: &seqExpr{
-																	pos: position{line: 739, col: 5, offset: 23591},
+																	pos: position{line: 739, col: 5, offset: 23593},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 739, col: 5, offset: 23591},
+																			pos:   position{line: 739, col: 5, offset: 23593},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 739, col: 16, offset: 23602},
+																				pos: position{line: 739, col: 16, offset: 23604},
 																				run: (*parser).callonDocumentHeader93,
 																				expr: &seqExpr{
-																					pos: position{line: 739, col: 16, offset: 23602},
+																					pos: position{line: 739, col: 16, offset: 23604},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 739, col: 16, offset: 23602},
+																							pos:        position{line: 739, col: 16, offset: 23604},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 739, col: 23, offset: 23609},
+																							pos: position{line: 739, col: 23, offset: 23611},
 																							expr: &litMatcher{
-																								pos:        position{line: 739, col: 23, offset: 23609},
+																								pos:        position{line: 739, col: 23, offset: 23611},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -16360,12 +16360,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 741, col: 8, offset: 23693},
+																			pos: position{line: 741, col: 8, offset: 23695},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 91003},
+																				pos: position{line: 2876, col: 10, offset: 91005},
 																				run: (*parser).callonDocumentHeader99,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 91003},
+																					pos:        position{line: 2876, col: 10, offset: 91005},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -16374,28 +16374,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91401},
+																			pos: position{line: 2898, col: 8, offset: 91403},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91174},
+																					pos: position{line: 2885, col: 12, offset: 91176},
 																					run: (*parser).callonDocumentHeader102,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91175},
+																						pos: position{line: 2885, col: 13, offset: 91177},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91175},
+																								pos:        position{line: 2885, col: 13, offset: 91177},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91182},
+																								pos:        position{line: 2885, col: 20, offset: 91184},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91191},
+																								pos:        position{line: 2885, col: 29, offset: 91193},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -16404,9 +16404,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91351},
+																					pos: position{line: 2895, col: 8, offset: 91353},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91352,
+																						line: 2895, col: 9, offset: 91354,
 																					},
 																				},
 																			},
@@ -16415,9 +16415,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91351},
+																pos: position{line: 2895, col: 8, offset: 91353},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91352,
+																	line: 2895, col: 9, offset: 91354,
 																},
 															},
 														},
@@ -16430,49 +16430,49 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1104, col: 5, offset: 33916},
+							pos:   position{line: 1104, col: 5, offset: 33918},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1104, col: 12, offset: 33923},
+								pos:  position{line: 1104, col: 12, offset: 33925},
 								name: "DocumentTitle",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1105, col: 5, offset: 33942},
+							pos: position{line: 1105, col: 5, offset: 33944},
 							expr: &choiceExpr{
-								pos: position{line: 1105, col: 6, offset: 33943},
+								pos: position{line: 1105, col: 6, offset: 33945},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2483, col: 22, offset: 79889},
+										pos: position{line: 2483, col: 22, offset: 79891},
 										run: (*parser).callonDocumentHeader115,
 										expr: &seqExpr{
-											pos: position{line: 2483, col: 22, offset: 79889},
+											pos: position{line: 2483, col: 22, offset: 79891},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2488, col: 31, offset: 80110},
+													pos:        position{line: 2488, col: 31, offset: 80112},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2488, col: 36, offset: 80115},
+													pos: position{line: 2488, col: 36, offset: 80117},
 													expr: &litMatcher{
-														pos:        position{line: 2488, col: 37, offset: 80116},
+														pos:        position{line: 2488, col: 37, offset: 80118},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2483, col: 49, offset: 79916},
+													pos:   position{line: 2483, col: 49, offset: 79918},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2822, col: 13, offset: 89529},
+														pos: position{line: 2822, col: 13, offset: 89531},
 														run: (*parser).callonDocumentHeader121,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2822, col: 13, offset: 89529},
+															pos: position{line: 2822, col: 13, offset: 89531},
 															expr: &charClassMatcher{
-																pos:        position{line: 2822, col: 13, offset: 89529},
+																pos:        position{line: 2822, col: 13, offset: 89531},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16482,28 +16482,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2898, col: 8, offset: 91401},
+													pos: position{line: 2898, col: 8, offset: 91403},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91174},
+															pos: position{line: 2885, col: 12, offset: 91176},
 															run: (*parser).callonDocumentHeader125,
 															expr: &choiceExpr{
-																pos: position{line: 2885, col: 13, offset: 91175},
+																pos: position{line: 2885, col: 13, offset: 91177},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 13, offset: 91175},
+																		pos:        position{line: 2885, col: 13, offset: 91177},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 20, offset: 91182},
+																		pos:        position{line: 2885, col: 20, offset: 91184},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 29, offset: 91191},
+																		pos:        position{line: 2885, col: 29, offset: 91193},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16512,9 +16512,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2895, col: 8, offset: 91351},
+															pos: position{line: 2895, col: 8, offset: 91353},
 															expr: &anyMatcher{
-																line: 2895, col: 9, offset: 91352,
+																line: 2895, col: 9, offset: 91354,
 															},
 														},
 													},
@@ -16523,36 +16523,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 819, col: 5, offset: 26336},
+										pos: position{line: 819, col: 5, offset: 26338},
 										run: (*parser).callonDocumentHeader132,
 										expr: &seqExpr{
-											pos: position{line: 819, col: 5, offset: 26336},
+											pos: position{line: 819, col: 5, offset: 26338},
 											exprs: []interface{}{
 												&actionExpr{
-													pos: position{line: 739, col: 5, offset: 23591},
+													pos: position{line: 739, col: 5, offset: 23593},
 													run: (*parser).callonDocumentHeader134,
 													expr: &seqExpr{
-														pos: position{line: 739, col: 5, offset: 23591},
+														pos: position{line: 739, col: 5, offset: 23593},
 														exprs: []interface{}{
 															&labeledExpr{
-																pos:   position{line: 739, col: 5, offset: 23591},
+																pos:   position{line: 739, col: 5, offset: 23593},
 																label: "delimiter",
 																expr: &actionExpr{
-																	pos: position{line: 739, col: 16, offset: 23602},
+																	pos: position{line: 739, col: 16, offset: 23604},
 																	run: (*parser).callonDocumentHeader137,
 																	expr: &seqExpr{
-																		pos: position{line: 739, col: 16, offset: 23602},
+																		pos: position{line: 739, col: 16, offset: 23604},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 739, col: 16, offset: 23602},
+																				pos:        position{line: 739, col: 16, offset: 23604},
 																				val:        "////",
 																				ignoreCase: false,
 																				want:       "\"////\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 739, col: 23, offset: 23609},
+																				pos: position{line: 739, col: 23, offset: 23611},
 																				expr: &litMatcher{
-																					pos:        position{line: 739, col: 23, offset: 23609},
+																					pos:        position{line: 739, col: 23, offset: 23611},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -16563,12 +16563,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 741, col: 8, offset: 23693},
+																pos: position{line: 741, col: 8, offset: 23695},
 																expr: &actionExpr{
-																	pos: position{line: 2876, col: 10, offset: 91003},
+																	pos: position{line: 2876, col: 10, offset: 91005},
 																	run: (*parser).callonDocumentHeader143,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2876, col: 10, offset: 91003},
+																		pos:        position{line: 2876, col: 10, offset: 91005},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16577,28 +16577,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2898, col: 8, offset: 91401},
+																pos: position{line: 2898, col: 8, offset: 91403},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2885, col: 12, offset: 91174},
+																		pos: position{line: 2885, col: 12, offset: 91176},
 																		run: (*parser).callonDocumentHeader146,
 																		expr: &choiceExpr{
-																			pos: position{line: 2885, col: 13, offset: 91175},
+																			pos: position{line: 2885, col: 13, offset: 91177},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 13, offset: 91175},
+																					pos:        position{line: 2885, col: 13, offset: 91177},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 20, offset: 91182},
+																					pos:        position{line: 2885, col: 20, offset: 91184},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 29, offset: 91191},
+																					pos:        position{line: 2885, col: 29, offset: 91193},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -16607,9 +16607,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91351},
+																		pos: position{line: 2895, col: 8, offset: 91353},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91352,
+																			line: 2895, col: 9, offset: 91354,
 																		},
 																	},
 																},
@@ -16618,46 +16618,46 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 820, col: 5, offset: 26367},
+													pos:   position{line: 820, col: 5, offset: 26369},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 830, col: 5, offset: 26653},
+														pos: position{line: 830, col: 5, offset: 26655},
 														expr: &actionExpr{
-															pos: position{line: 830, col: 6, offset: 26654},
+															pos: position{line: 830, col: 6, offset: 26656},
 															run: (*parser).callonDocumentHeader155,
 															expr: &seqExpr{
-																pos: position{line: 830, col: 6, offset: 26654},
+																pos: position{line: 830, col: 6, offset: 26656},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 830, col: 6, offset: 26654},
+																		pos: position{line: 830, col: 6, offset: 26656},
 																		expr: &choiceExpr{
-																			pos: position{line: 827, col: 29, offset: 26596},
+																			pos: position{line: 827, col: 29, offset: 26598},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 739, col: 5, offset: 23591},
+																					pos: position{line: 739, col: 5, offset: 23593},
 																					run: (*parser).callonDocumentHeader159,
 																					expr: &seqExpr{
-																						pos: position{line: 739, col: 5, offset: 23591},
+																						pos: position{line: 739, col: 5, offset: 23593},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 739, col: 5, offset: 23591},
+																								pos:   position{line: 739, col: 5, offset: 23593},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 739, col: 16, offset: 23602},
+																									pos: position{line: 739, col: 16, offset: 23604},
 																									run: (*parser).callonDocumentHeader162,
 																									expr: &seqExpr{
-																										pos: position{line: 739, col: 16, offset: 23602},
+																										pos: position{line: 739, col: 16, offset: 23604},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 739, col: 16, offset: 23602},
+																												pos:        position{line: 739, col: 16, offset: 23604},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 739, col: 23, offset: 23609},
+																												pos: position{line: 739, col: 23, offset: 23611},
 																												expr: &litMatcher{
-																													pos:        position{line: 739, col: 23, offset: 23609},
+																													pos:        position{line: 739, col: 23, offset: 23611},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -16668,12 +16668,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 741, col: 8, offset: 23693},
+																								pos: position{line: 741, col: 8, offset: 23695},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 91003},
+																									pos: position{line: 2876, col: 10, offset: 91005},
 																									run: (*parser).callonDocumentHeader168,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 91003},
+																										pos:        position{line: 2876, col: 10, offset: 91005},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -16682,28 +16682,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2898, col: 8, offset: 91401},
+																								pos: position{line: 2898, col: 8, offset: 91403},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2885, col: 12, offset: 91174},
+																										pos: position{line: 2885, col: 12, offset: 91176},
 																										run: (*parser).callonDocumentHeader171,
 																										expr: &choiceExpr{
-																											pos: position{line: 2885, col: 13, offset: 91175},
+																											pos: position{line: 2885, col: 13, offset: 91177},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 13, offset: 91175},
+																													pos:        position{line: 2885, col: 13, offset: 91177},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 20, offset: 91182},
+																													pos:        position{line: 2885, col: 20, offset: 91184},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 29, offset: 91191},
+																													pos:        position{line: 2885, col: 29, offset: 91193},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -16712,9 +16712,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2895, col: 8, offset: 91351},
+																										pos: position{line: 2895, col: 8, offset: 91353},
 																										expr: &anyMatcher{
-																											line: 2895, col: 9, offset: 91352,
+																											line: 2895, col: 9, offset: 91354,
 																										},
 																									},
 																								},
@@ -16723,39 +16723,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91351},
+																					pos: position{line: 2895, col: 8, offset: 91353},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91352,
+																						line: 2895, col: 9, offset: 91354,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 831, col: 5, offset: 26684},
+																		pos:   position{line: 831, col: 5, offset: 26686},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 810, col: 5, offset: 26100},
+																			pos: position{line: 810, col: 5, offset: 26102},
 																			run: (*parser).callonDocumentHeader181,
 																			expr: &seqExpr{
-																				pos: position{line: 810, col: 5, offset: 26100},
+																				pos: position{line: 810, col: 5, offset: 26102},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2893, col: 11, offset: 91337},
+																						pos: position{line: 2893, col: 11, offset: 91339},
 																						expr: &anyMatcher{
-																							line: 2893, col: 13, offset: 91339,
+																							line: 2893, col: 13, offset: 91341,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 811, col: 5, offset: 26175},
+																						pos:   position{line: 811, col: 5, offset: 26177},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2822, col: 13, offset: 89529},
+																							pos: position{line: 2822, col: 13, offset: 89531},
 																							run: (*parser).callonDocumentHeader186,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2822, col: 13, offset: 89529},
+																								pos: position{line: 2822, col: 13, offset: 89531},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2822, col: 13, offset: 89529},
+																									pos:        position{line: 2822, col: 13, offset: 89531},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16765,28 +16765,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91401},
+																						pos: position{line: 2898, col: 8, offset: 91403},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91174},
+																								pos: position{line: 2885, col: 12, offset: 91176},
 																								run: (*parser).callonDocumentHeader190,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91175},
+																									pos: position{line: 2885, col: 13, offset: 91177},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91175},
+																											pos:        position{line: 2885, col: 13, offset: 91177},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91182},
+																											pos:        position{line: 2885, col: 20, offset: 91184},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91191},
+																											pos:        position{line: 2885, col: 29, offset: 91193},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16795,9 +16795,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91351},
+																								pos: position{line: 2895, col: 8, offset: 91353},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91352,
+																									line: 2895, col: 9, offset: 91354,
 																								},
 																							},
 																						},
@@ -16812,35 +16812,35 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 821, col: 5, offset: 26401},
+													pos: position{line: 821, col: 5, offset: 26403},
 													expr: &choiceExpr{
-														pos: position{line: 827, col: 29, offset: 26596},
+														pos: position{line: 827, col: 29, offset: 26598},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 739, col: 5, offset: 23591},
+																pos: position{line: 739, col: 5, offset: 23593},
 																run: (*parser).callonDocumentHeader199,
 																expr: &seqExpr{
-																	pos: position{line: 739, col: 5, offset: 23591},
+																	pos: position{line: 739, col: 5, offset: 23593},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 739, col: 5, offset: 23591},
+																			pos:   position{line: 739, col: 5, offset: 23593},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 739, col: 16, offset: 23602},
+																				pos: position{line: 739, col: 16, offset: 23604},
 																				run: (*parser).callonDocumentHeader202,
 																				expr: &seqExpr{
-																					pos: position{line: 739, col: 16, offset: 23602},
+																					pos: position{line: 739, col: 16, offset: 23604},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 739, col: 16, offset: 23602},
+																							pos:        position{line: 739, col: 16, offset: 23604},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 739, col: 23, offset: 23609},
+																							pos: position{line: 739, col: 23, offset: 23611},
 																							expr: &litMatcher{
-																								pos:        position{line: 739, col: 23, offset: 23609},
+																								pos:        position{line: 739, col: 23, offset: 23611},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -16851,12 +16851,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 741, col: 8, offset: 23693},
+																			pos: position{line: 741, col: 8, offset: 23695},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 91003},
+																				pos: position{line: 2876, col: 10, offset: 91005},
 																				run: (*parser).callonDocumentHeader208,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 91003},
+																					pos:        position{line: 2876, col: 10, offset: 91005},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -16865,28 +16865,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91401},
+																			pos: position{line: 2898, col: 8, offset: 91403},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91174},
+																					pos: position{line: 2885, col: 12, offset: 91176},
 																					run: (*parser).callonDocumentHeader211,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91175},
+																						pos: position{line: 2885, col: 13, offset: 91177},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91175},
+																								pos:        position{line: 2885, col: 13, offset: 91177},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91182},
+																								pos:        position{line: 2885, col: 20, offset: 91184},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91191},
+																								pos:        position{line: 2885, col: 29, offset: 91193},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -16895,9 +16895,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91351},
+																					pos: position{line: 2895, col: 8, offset: 91353},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91352,
+																						line: 2895, col: 9, offset: 91354,
 																					},
 																				},
 																			},
@@ -16906,9 +16906,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91351},
+																pos: position{line: 2895, col: 8, offset: 91353},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91352,
+																	line: 2895, col: 9, offset: 91354,
 																},
 															},
 														},
@@ -16921,41 +16921,41 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1106, col: 5, offset: 34039},
+							pos:   position{line: 1106, col: 5, offset: 34041},
 							label: "authorsAndRevision",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1106, col: 24, offset: 34058},
+								pos: position{line: 1106, col: 24, offset: 34060},
 								expr: &actionExpr{
-									pos: position{line: 1117, col: 5, offset: 34433},
+									pos: position{line: 1117, col: 5, offset: 34435},
 									run: (*parser).callonDocumentHeader222,
 									expr: &seqExpr{
-										pos: position{line: 1117, col: 5, offset: 34433},
+										pos: position{line: 1117, col: 5, offset: 34435},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1117, col: 5, offset: 34433},
+												pos: position{line: 1117, col: 5, offset: 34435},
 												expr: &litMatcher{
-													pos:        position{line: 1117, col: 6, offset: 34434},
+													pos:        position{line: 1117, col: 6, offset: 34436},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1118, col: 5, offset: 34442},
+												pos:   position{line: 1118, col: 5, offset: 34444},
 												label: "authors",
 												expr: &actionExpr{
-													pos: position{line: 1124, col: 20, offset: 34698},
+													pos: position{line: 1124, col: 20, offset: 34700},
 													run: (*parser).callonDocumentHeader227,
 													expr: &seqExpr{
-														pos: position{line: 1124, col: 20, offset: 34698},
+														pos: position{line: 1124, col: 20, offset: 34700},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 1124, col: 20, offset: 34698},
+																pos: position{line: 1124, col: 20, offset: 34700},
 																expr: &actionExpr{
-																	pos: position{line: 2876, col: 10, offset: 91003},
+																	pos: position{line: 2876, col: 10, offset: 91005},
 																	run: (*parser).callonDocumentHeader230,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2876, col: 10, offset: 91003},
+																		pos:        position{line: 2876, col: 10, offset: 91005},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16964,37 +16964,37 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 1124, col: 27, offset: 34705},
+																pos:   position{line: 1124, col: 27, offset: 34707},
 																label: "authors",
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 1124, col: 36, offset: 34714},
+																	pos: position{line: 1124, col: 36, offset: 34716},
 																	expr: &actionExpr{
-																		pos: position{line: 1129, col: 5, offset: 34827},
+																		pos: position{line: 1129, col: 5, offset: 34829},
 																		run: (*parser).callonDocumentHeader234,
 																		expr: &seqExpr{
-																			pos: position{line: 1129, col: 5, offset: 34827},
+																			pos: position{line: 1129, col: 5, offset: 34829},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1129, col: 5, offset: 34827},
+																					pos:   position{line: 1129, col: 5, offset: 34829},
 																					label: "fullName",
 																					expr: &zeroOrOneExpr{
-																						pos: position{line: 1129, col: 14, offset: 34836},
+																						pos: position{line: 1129, col: 14, offset: 34838},
 																						expr: &actionExpr{
-																							pos: position{line: 1140, col: 5, offset: 35216},
+																							pos: position{line: 1140, col: 5, offset: 35218},
 																							run: (*parser).callonDocumentHeader238,
 																							expr: &seqExpr{
-																								pos: position{line: 1140, col: 5, offset: 35216},
+																								pos: position{line: 1140, col: 5, offset: 35218},
 																								exprs: []interface{}{
 																									&labeledExpr{
-																										pos:   position{line: 1140, col: 5, offset: 35216},
+																										pos:   position{line: 1140, col: 5, offset: 35218},
 																										label: "part1",
 																										expr: &actionExpr{
-																											pos: position{line: 1140, col: 12, offset: 35223},
+																											pos: position{line: 1140, col: 12, offset: 35225},
 																											run: (*parser).callonDocumentHeader241,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1140, col: 12, offset: 35223},
+																												pos: position{line: 1140, col: 12, offset: 35225},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1140, col: 12, offset: 35223},
+																													pos:        position{line: 1140, col: 12, offset: 35225},
 																													val:        "[^<;\\r\\n ]",
 																													chars:      []rune{'<', ';', '\r', '\n', ' '},
 																													ignoreCase: false,
@@ -17004,12 +17004,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1143, col: 5, offset: 35303},
+																										pos: position{line: 1143, col: 5, offset: 35305},
 																										expr: &actionExpr{
-																											pos: position{line: 2876, col: 10, offset: 91003},
+																											pos: position{line: 2876, col: 10, offset: 91005},
 																											run: (*parser).callonDocumentHeader245,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2876, col: 10, offset: 91003},
+																												pos:        position{line: 2876, col: 10, offset: 91005},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17018,17 +17018,17 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1144, col: 5, offset: 35314},
+																										pos:   position{line: 1144, col: 5, offset: 35316},
 																										label: "part2",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 1144, col: 11, offset: 35320},
+																											pos: position{line: 1144, col: 11, offset: 35322},
 																											expr: &actionExpr{
-																												pos: position{line: 1144, col: 12, offset: 35321},
+																												pos: position{line: 1144, col: 12, offset: 35323},
 																												run: (*parser).callonDocumentHeader249,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1144, col: 12, offset: 35321},
+																													pos: position{line: 1144, col: 12, offset: 35323},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1144, col: 12, offset: 35321},
+																														pos:        position{line: 1144, col: 12, offset: 35323},
 																														val:        "[^<;\\r\\n ]",
 																														chars:      []rune{'<', ';', '\r', '\n', ' '},
 																														ignoreCase: false,
@@ -17039,12 +17039,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1147, col: 5, offset: 35402},
+																										pos: position{line: 1147, col: 5, offset: 35404},
 																										expr: &actionExpr{
-																											pos: position{line: 2876, col: 10, offset: 91003},
+																											pos: position{line: 2876, col: 10, offset: 91005},
 																											run: (*parser).callonDocumentHeader253,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2876, col: 10, offset: 91003},
+																												pos:        position{line: 2876, col: 10, offset: 91005},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17053,17 +17053,17 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1148, col: 5, offset: 35413},
+																										pos:   position{line: 1148, col: 5, offset: 35415},
 																										label: "part3",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 1148, col: 11, offset: 35419},
+																											pos: position{line: 1148, col: 11, offset: 35421},
 																											expr: &actionExpr{
-																												pos: position{line: 1148, col: 12, offset: 35420},
+																												pos: position{line: 1148, col: 12, offset: 35422},
 																												run: (*parser).callonDocumentHeader257,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1148, col: 12, offset: 35420},
+																													pos: position{line: 1148, col: 12, offset: 35422},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1148, col: 12, offset: 35420},
+																														pos:        position{line: 1148, col: 12, offset: 35422},
 																														val:        "[^<;\\r\\n]",
 																														chars:      []rune{'<', ';', '\r', '\n'},
 																														ignoreCase: false,
@@ -17074,12 +17074,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1151, col: 5, offset: 35499},
+																										pos: position{line: 1151, col: 5, offset: 35501},
 																										expr: &actionExpr{
-																											pos: position{line: 2876, col: 10, offset: 91003},
+																											pos: position{line: 2876, col: 10, offset: 91005},
 																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2876, col: 10, offset: 91003},
+																												pos:        position{line: 2876, col: 10, offset: 91005},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17093,38 +17093,38 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1129, col: 40, offset: 34862},
+																					pos:   position{line: 1129, col: 40, offset: 34864},
 																					label: "email",
 																					expr: &zeroOrOneExpr{
-																						pos: position{line: 1129, col: 46, offset: 34868},
+																						pos: position{line: 1129, col: 46, offset: 34870},
 																						expr: &actionExpr{
-																							pos: position{line: 1157, col: 5, offset: 35621},
+																							pos: position{line: 1157, col: 5, offset: 35623},
 																							run: (*parser).callonDocumentHeader265,
 																							expr: &seqExpr{
-																								pos: position{line: 1157, col: 5, offset: 35621},
+																								pos: position{line: 1157, col: 5, offset: 35623},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2893, col: 11, offset: 91337},
+																										pos: position{line: 2893, col: 11, offset: 91339},
 																										expr: &anyMatcher{
-																											line: 2893, col: 13, offset: 91339,
+																											line: 2893, col: 13, offset: 91341,
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1158, col: 5, offset: 35633},
+																										pos:        position{line: 1158, col: 5, offset: 35635},
 																										val:        "<",
 																										ignoreCase: false,
 																										want:       "\"<\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1159, col: 5, offset: 35642},
+																										pos:   position{line: 1159, col: 5, offset: 35644},
 																										label: "email",
 																										expr: &actionExpr{
-																											pos: position{line: 1159, col: 12, offset: 35649},
+																											pos: position{line: 1159, col: 12, offset: 35651},
 																											run: (*parser).callonDocumentHeader271,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1159, col: 13, offset: 35650},
+																												pos: position{line: 1159, col: 13, offset: 35652},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1159, col: 13, offset: 35650},
+																													pos:        position{line: 1159, col: 13, offset: 35652},
 																													val:        "[^>\\r\\n]",
 																													chars:      []rune{'>', '\r', '\n'},
 																													ignoreCase: false,
@@ -17134,7 +17134,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1162, col: 5, offset: 35710},
+																										pos:        position{line: 1162, col: 5, offset: 35712},
 																										val:        ">",
 																										ignoreCase: false,
 																										want:       "\">\"",
@@ -17145,12 +17145,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1129, col: 69, offset: 34891},
+																					pos: position{line: 1129, col: 69, offset: 34893},
 																					expr: &actionExpr{
-																						pos: position{line: 2876, col: 10, offset: 91003},
+																						pos: position{line: 2876, col: 10, offset: 91005},
 																						run: (*parser).callonDocumentHeader276,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2876, col: 10, offset: 91003},
+																							pos:        position{line: 2876, col: 10, offset: 91005},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17159,21 +17159,21 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrOneExpr{
-																					pos: position{line: 1129, col: 76, offset: 34898},
+																					pos: position{line: 1129, col: 76, offset: 34900},
 																					expr: &litMatcher{
-																						pos:        position{line: 1129, col: 76, offset: 34898},
+																						pos:        position{line: 1129, col: 76, offset: 34900},
 																						val:        ";",
 																						ignoreCase: false,
 																						want:       "\";\"",
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1129, col: 81, offset: 34903},
+																					pos: position{line: 1129, col: 81, offset: 34905},
 																					expr: &actionExpr{
-																						pos: position{line: 2876, col: 10, offset: 91003},
+																						pos: position{line: 2876, col: 10, offset: 91005},
 																						run: (*parser).callonDocumentHeader281,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2876, col: 10, offset: 91003},
+																							pos:        position{line: 2876, col: 10, offset: 91005},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17182,7 +17182,7 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1130, col: 5, offset: 34915},
+																					pos: position{line: 1130, col: 5, offset: 34917},
 																					run: (*parser).callonDocumentHeader283,
 																				},
 																			},
@@ -17191,28 +17191,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2898, col: 8, offset: 91401},
+																pos: position{line: 2898, col: 8, offset: 91403},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2885, col: 12, offset: 91174},
+																		pos: position{line: 2885, col: 12, offset: 91176},
 																		run: (*parser).callonDocumentHeader285,
 																		expr: &choiceExpr{
-																			pos: position{line: 2885, col: 13, offset: 91175},
+																			pos: position{line: 2885, col: 13, offset: 91177},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 13, offset: 91175},
+																					pos:        position{line: 2885, col: 13, offset: 91177},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 20, offset: 91182},
+																					pos:        position{line: 2885, col: 20, offset: 91184},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 29, offset: 91191},
+																					pos:        position{line: 2885, col: 29, offset: 91193},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17221,9 +17221,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91351},
+																		pos: position{line: 2895, col: 8, offset: 91353},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91352,
+																			line: 2895, col: 9, offset: 91354,
 																		},
 																	},
 																},
@@ -17233,41 +17233,41 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 1119, col: 5, offset: 34472},
+												pos: position{line: 1119, col: 5, offset: 34474},
 												expr: &choiceExpr{
-													pos: position{line: 1119, col: 6, offset: 34473},
+													pos: position{line: 1119, col: 6, offset: 34475},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2483, col: 22, offset: 79889},
+															pos: position{line: 2483, col: 22, offset: 79891},
 															run: (*parser).callonDocumentHeader294,
 															expr: &seqExpr{
-																pos: position{line: 2483, col: 22, offset: 79889},
+																pos: position{line: 2483, col: 22, offset: 79891},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2488, col: 31, offset: 80110},
+																		pos:        position{line: 2488, col: 31, offset: 80112},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2488, col: 36, offset: 80115},
+																		pos: position{line: 2488, col: 36, offset: 80117},
 																		expr: &litMatcher{
-																			pos:        position{line: 2488, col: 37, offset: 80116},
+																			pos:        position{line: 2488, col: 37, offset: 80118},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2483, col: 49, offset: 79916},
+																		pos:   position{line: 2483, col: 49, offset: 79918},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2822, col: 13, offset: 89529},
+																			pos: position{line: 2822, col: 13, offset: 89531},
 																			run: (*parser).callonDocumentHeader300,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2822, col: 13, offset: 89529},
+																				pos: position{line: 2822, col: 13, offset: 89531},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2822, col: 13, offset: 89529},
+																					pos:        position{line: 2822, col: 13, offset: 89531},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -17277,28 +17277,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91401},
+																		pos: position{line: 2898, col: 8, offset: 91403},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91174},
+																				pos: position{line: 2885, col: 12, offset: 91176},
 																				run: (*parser).callonDocumentHeader304,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91175},
+																					pos: position{line: 2885, col: 13, offset: 91177},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91175},
+																							pos:        position{line: 2885, col: 13, offset: 91177},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91182},
+																							pos:        position{line: 2885, col: 20, offset: 91184},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91191},
+																							pos:        position{line: 2885, col: 29, offset: 91193},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -17307,9 +17307,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91351},
+																				pos: position{line: 2895, col: 8, offset: 91353},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91352,
+																					line: 2895, col: 9, offset: 91354,
 																				},
 																			},
 																		},
@@ -17318,36 +17318,36 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 819, col: 5, offset: 26336},
+															pos: position{line: 819, col: 5, offset: 26338},
 															run: (*parser).callonDocumentHeader311,
 															expr: &seqExpr{
-																pos: position{line: 819, col: 5, offset: 26336},
+																pos: position{line: 819, col: 5, offset: 26338},
 																exprs: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 739, col: 5, offset: 23591},
+																		pos: position{line: 739, col: 5, offset: 23593},
 																		run: (*parser).callonDocumentHeader313,
 																		expr: &seqExpr{
-																			pos: position{line: 739, col: 5, offset: 23591},
+																			pos: position{line: 739, col: 5, offset: 23593},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 739, col: 5, offset: 23591},
+																					pos:   position{line: 739, col: 5, offset: 23593},
 																					label: "delimiter",
 																					expr: &actionExpr{
-																						pos: position{line: 739, col: 16, offset: 23602},
+																						pos: position{line: 739, col: 16, offset: 23604},
 																						run: (*parser).callonDocumentHeader316,
 																						expr: &seqExpr{
-																							pos: position{line: 739, col: 16, offset: 23602},
+																							pos: position{line: 739, col: 16, offset: 23604},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 739, col: 16, offset: 23602},
+																									pos:        position{line: 739, col: 16, offset: 23604},
 																									val:        "////",
 																									ignoreCase: false,
 																									want:       "\"////\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 739, col: 23, offset: 23609},
+																									pos: position{line: 739, col: 23, offset: 23611},
 																									expr: &litMatcher{
-																										pos:        position{line: 739, col: 23, offset: 23609},
+																										pos:        position{line: 739, col: 23, offset: 23611},
 																										val:        "/",
 																										ignoreCase: false,
 																										want:       "\"/\"",
@@ -17358,12 +17358,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 741, col: 8, offset: 23693},
+																					pos: position{line: 741, col: 8, offset: 23695},
 																					expr: &actionExpr{
-																						pos: position{line: 2876, col: 10, offset: 91003},
+																						pos: position{line: 2876, col: 10, offset: 91005},
 																						run: (*parser).callonDocumentHeader322,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2876, col: 10, offset: 91003},
+																							pos:        position{line: 2876, col: 10, offset: 91005},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17372,28 +17372,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2898, col: 8, offset: 91401},
+																					pos: position{line: 2898, col: 8, offset: 91403},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2885, col: 12, offset: 91174},
+																							pos: position{line: 2885, col: 12, offset: 91176},
 																							run: (*parser).callonDocumentHeader325,
 																							expr: &choiceExpr{
-																								pos: position{line: 2885, col: 13, offset: 91175},
+																								pos: position{line: 2885, col: 13, offset: 91177},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 13, offset: 91175},
+																										pos:        position{line: 2885, col: 13, offset: 91177},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 20, offset: 91182},
+																										pos:        position{line: 2885, col: 20, offset: 91184},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 29, offset: 91191},
+																										pos:        position{line: 2885, col: 29, offset: 91193},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -17402,9 +17402,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2895, col: 8, offset: 91351},
+																							pos: position{line: 2895, col: 8, offset: 91353},
 																							expr: &anyMatcher{
-																								line: 2895, col: 9, offset: 91352,
+																								line: 2895, col: 9, offset: 91354,
 																							},
 																						},
 																					},
@@ -17413,46 +17413,46 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 820, col: 5, offset: 26367},
+																		pos:   position{line: 820, col: 5, offset: 26369},
 																		label: "content",
 																		expr: &zeroOrMoreExpr{
-																			pos: position{line: 830, col: 5, offset: 26653},
+																			pos: position{line: 830, col: 5, offset: 26655},
 																			expr: &actionExpr{
-																				pos: position{line: 830, col: 6, offset: 26654},
+																				pos: position{line: 830, col: 6, offset: 26656},
 																				run: (*parser).callonDocumentHeader334,
 																				expr: &seqExpr{
-																					pos: position{line: 830, col: 6, offset: 26654},
+																					pos: position{line: 830, col: 6, offset: 26656},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 830, col: 6, offset: 26654},
+																							pos: position{line: 830, col: 6, offset: 26656},
 																							expr: &choiceExpr{
-																								pos: position{line: 827, col: 29, offset: 26596},
+																								pos: position{line: 827, col: 29, offset: 26598},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 739, col: 5, offset: 23591},
+																										pos: position{line: 739, col: 5, offset: 23593},
 																										run: (*parser).callonDocumentHeader338,
 																										expr: &seqExpr{
-																											pos: position{line: 739, col: 5, offset: 23591},
+																											pos: position{line: 739, col: 5, offset: 23593},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 739, col: 5, offset: 23591},
+																													pos:   position{line: 739, col: 5, offset: 23593},
 																													label: "delimiter",
 																													expr: &actionExpr{
-																														pos: position{line: 739, col: 16, offset: 23602},
+																														pos: position{line: 739, col: 16, offset: 23604},
 																														run: (*parser).callonDocumentHeader341,
 																														expr: &seqExpr{
-																															pos: position{line: 739, col: 16, offset: 23602},
+																															pos: position{line: 739, col: 16, offset: 23604},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 739, col: 16, offset: 23602},
+																																	pos:        position{line: 739, col: 16, offset: 23604},
 																																	val:        "////",
 																																	ignoreCase: false,
 																																	want:       "\"////\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 739, col: 23, offset: 23609},
+																																	pos: position{line: 739, col: 23, offset: 23611},
 																																	expr: &litMatcher{
-																																		pos:        position{line: 739, col: 23, offset: 23609},
+																																		pos:        position{line: 739, col: 23, offset: 23611},
 																																		val:        "/",
 																																		ignoreCase: false,
 																																		want:       "\"/\"",
@@ -17463,12 +17463,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 741, col: 8, offset: 23693},
+																													pos: position{line: 741, col: 8, offset: 23695},
 																													expr: &actionExpr{
-																														pos: position{line: 2876, col: 10, offset: 91003},
+																														pos: position{line: 2876, col: 10, offset: 91005},
 																														run: (*parser).callonDocumentHeader347,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2876, col: 10, offset: 91003},
+																															pos:        position{line: 2876, col: 10, offset: 91005},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -17477,28 +17477,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2898, col: 8, offset: 91401},
+																													pos: position{line: 2898, col: 8, offset: 91403},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2885, col: 12, offset: 91174},
+																															pos: position{line: 2885, col: 12, offset: 91176},
 																															run: (*parser).callonDocumentHeader350,
 																															expr: &choiceExpr{
-																																pos: position{line: 2885, col: 13, offset: 91175},
+																																pos: position{line: 2885, col: 13, offset: 91177},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2885, col: 13, offset: 91175},
+																																		pos:        position{line: 2885, col: 13, offset: 91177},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2885, col: 20, offset: 91182},
+																																		pos:        position{line: 2885, col: 20, offset: 91184},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2885, col: 29, offset: 91191},
+																																		pos:        position{line: 2885, col: 29, offset: 91193},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -17507,9 +17507,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2895, col: 8, offset: 91351},
+																															pos: position{line: 2895, col: 8, offset: 91353},
 																															expr: &anyMatcher{
-																																line: 2895, col: 9, offset: 91352,
+																																line: 2895, col: 9, offset: 91354,
 																															},
 																														},
 																													},
@@ -17518,39 +17518,39 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2895, col: 8, offset: 91351},
+																										pos: position{line: 2895, col: 8, offset: 91353},
 																										expr: &anyMatcher{
-																											line: 2895, col: 9, offset: 91352,
+																											line: 2895, col: 9, offset: 91354,
 																										},
 																									},
 																								},
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 831, col: 5, offset: 26684},
+																							pos:   position{line: 831, col: 5, offset: 26686},
 																							label: "line",
 																							expr: &actionExpr{
-																								pos: position{line: 810, col: 5, offset: 26100},
+																								pos: position{line: 810, col: 5, offset: 26102},
 																								run: (*parser).callonDocumentHeader360,
 																								expr: &seqExpr{
-																									pos: position{line: 810, col: 5, offset: 26100},
+																									pos: position{line: 810, col: 5, offset: 26102},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2893, col: 11, offset: 91337},
+																											pos: position{line: 2893, col: 11, offset: 91339},
 																											expr: &anyMatcher{
-																												line: 2893, col: 13, offset: 91339,
+																												line: 2893, col: 13, offset: 91341,
 																											},
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 811, col: 5, offset: 26175},
+																											pos:   position{line: 811, col: 5, offset: 26177},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2822, col: 13, offset: 89529},
+																												pos: position{line: 2822, col: 13, offset: 89531},
 																												run: (*parser).callonDocumentHeader365,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2822, col: 13, offset: 89529},
+																													pos: position{line: 2822, col: 13, offset: 89531},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2822, col: 13, offset: 89529},
+																														pos:        position{line: 2822, col: 13, offset: 89531},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -17560,28 +17560,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91401},
+																											pos: position{line: 2898, col: 8, offset: 91403},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91174},
+																													pos: position{line: 2885, col: 12, offset: 91176},
 																													run: (*parser).callonDocumentHeader369,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91175},
+																														pos: position{line: 2885, col: 13, offset: 91177},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91175},
+																																pos:        position{line: 2885, col: 13, offset: 91177},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91182},
+																																pos:        position{line: 2885, col: 20, offset: 91184},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91191},
+																																pos:        position{line: 2885, col: 29, offset: 91193},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17590,9 +17590,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91351},
+																													pos: position{line: 2895, col: 8, offset: 91353},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91352,
+																														line: 2895, col: 9, offset: 91354,
 																													},
 																												},
 																											},
@@ -17607,35 +17607,35 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrOneExpr{
-																		pos: position{line: 821, col: 5, offset: 26401},
+																		pos: position{line: 821, col: 5, offset: 26403},
 																		expr: &choiceExpr{
-																			pos: position{line: 827, col: 29, offset: 26596},
+																			pos: position{line: 827, col: 29, offset: 26598},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 739, col: 5, offset: 23591},
+																					pos: position{line: 739, col: 5, offset: 23593},
 																					run: (*parser).callonDocumentHeader378,
 																					expr: &seqExpr{
-																						pos: position{line: 739, col: 5, offset: 23591},
+																						pos: position{line: 739, col: 5, offset: 23593},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 739, col: 5, offset: 23591},
+																								pos:   position{line: 739, col: 5, offset: 23593},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 739, col: 16, offset: 23602},
+																									pos: position{line: 739, col: 16, offset: 23604},
 																									run: (*parser).callonDocumentHeader381,
 																									expr: &seqExpr{
-																										pos: position{line: 739, col: 16, offset: 23602},
+																										pos: position{line: 739, col: 16, offset: 23604},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 739, col: 16, offset: 23602},
+																												pos:        position{line: 739, col: 16, offset: 23604},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 739, col: 23, offset: 23609},
+																												pos: position{line: 739, col: 23, offset: 23611},
 																												expr: &litMatcher{
-																													pos:        position{line: 739, col: 23, offset: 23609},
+																													pos:        position{line: 739, col: 23, offset: 23611},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -17646,12 +17646,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 741, col: 8, offset: 23693},
+																								pos: position{line: 741, col: 8, offset: 23695},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 91003},
+																									pos: position{line: 2876, col: 10, offset: 91005},
 																									run: (*parser).callonDocumentHeader387,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 91003},
+																										pos:        position{line: 2876, col: 10, offset: 91005},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -17660,28 +17660,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2898, col: 8, offset: 91401},
+																								pos: position{line: 2898, col: 8, offset: 91403},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2885, col: 12, offset: 91174},
+																										pos: position{line: 2885, col: 12, offset: 91176},
 																										run: (*parser).callonDocumentHeader390,
 																										expr: &choiceExpr{
-																											pos: position{line: 2885, col: 13, offset: 91175},
+																											pos: position{line: 2885, col: 13, offset: 91177},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 13, offset: 91175},
+																													pos:        position{line: 2885, col: 13, offset: 91177},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 20, offset: 91182},
+																													pos:        position{line: 2885, col: 20, offset: 91184},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 29, offset: 91191},
+																													pos:        position{line: 2885, col: 29, offset: 91193},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -17690,9 +17690,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2895, col: 8, offset: 91351},
+																										pos: position{line: 2895, col: 8, offset: 91353},
 																										expr: &anyMatcher{
-																											line: 2895, col: 9, offset: 91352,
+																											line: 2895, col: 9, offset: 91354,
 																										},
 																									},
 																								},
@@ -17701,9 +17701,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91351},
+																					pos: position{line: 2895, col: 8, offset: 91353},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91352,
+																						line: 2895, col: 9, offset: 91354,
 																					},
 																				},
 																			},
@@ -17716,23 +17716,23 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1120, col: 5, offset: 34547},
+												pos:   position{line: 1120, col: 5, offset: 34549},
 												label: "revision",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 1120, col: 14, offset: 34556},
+													pos: position{line: 1120, col: 14, offset: 34558},
 													expr: &actionExpr{
-														pos: position{line: 1168, col: 21, offset: 35899},
+														pos: position{line: 1168, col: 21, offset: 35901},
 														run: (*parser).callonDocumentHeader401,
 														expr: &seqExpr{
-															pos: position{line: 1168, col: 21, offset: 35899},
+															pos: position{line: 1168, col: 21, offset: 35901},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1168, col: 21, offset: 35899},
+																	pos: position{line: 1168, col: 21, offset: 35901},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 91003},
+																		pos: position{line: 2876, col: 10, offset: 91005},
 																		run: (*parser).callonDocumentHeader404,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 91003},
+																			pos:        position{line: 2876, col: 10, offset: 91005},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -17741,55 +17741,55 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1168, col: 28, offset: 35906},
+																	pos: position{line: 1168, col: 28, offset: 35908},
 																	expr: &litMatcher{
-																		pos:        position{line: 1168, col: 29, offset: 35907},
+																		pos:        position{line: 1168, col: 29, offset: 35909},
 																		val:        ":",
 																		ignoreCase: false,
 																		want:       "\":\"",
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1168, col: 33, offset: 35911},
+																	pos:   position{line: 1168, col: 33, offset: 35913},
 																	label: "revision",
 																	expr: &choiceExpr{
-																		pos: position{line: 1169, col: 9, offset: 35930},
+																		pos: position{line: 1169, col: 9, offset: 35932},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1169, col: 10, offset: 35931},
+																				pos: position{line: 1169, col: 10, offset: 35933},
 																				run: (*parser).callonDocumentHeader410,
 																				expr: &seqExpr{
-																					pos: position{line: 1169, col: 10, offset: 35931},
+																					pos: position{line: 1169, col: 10, offset: 35933},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1169, col: 10, offset: 35931},
+																							pos:   position{line: 1169, col: 10, offset: 35933},
 																							label: "revnumber",
 																							expr: &choiceExpr{
-																								pos: position{line: 1178, col: 27, offset: 36448},
+																								pos: position{line: 1178, col: 27, offset: 36450},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1178, col: 27, offset: 36448},
+																										pos: position{line: 1178, col: 27, offset: 36450},
 																										run: (*parser).callonDocumentHeader414,
 																										expr: &seqExpr{
-																											pos: position{line: 1178, col: 27, offset: 36448},
+																											pos: position{line: 1178, col: 27, offset: 36450},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 1178, col: 27, offset: 36448},
+																													pos:        position{line: 1178, col: 27, offset: 36450},
 																													val:        "v",
 																													ignoreCase: true,
 																													want:       "\"v\"i",
 																												},
 																												&charClassMatcher{
-																													pos:        position{line: 1178, col: 32, offset: 36453},
+																													pos:        position{line: 1178, col: 32, offset: 36455},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 1178, col: 38, offset: 36459},
+																													pos: position{line: 1178, col: 38, offset: 36461},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1178, col: 38, offset: 36459},
+																														pos:        position{line: 1178, col: 38, offset: 36461},
 																														val:        "[^:,\\r\\n]",
 																														chars:      []rune{':', ',', '\r', '\n'},
 																														ignoreCase: false,
@@ -17800,31 +17800,31 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1180, col: 5, offset: 36507},
+																										pos: position{line: 1180, col: 5, offset: 36509},
 																										run: (*parser).callonDocumentHeader420,
 																										expr: &seqExpr{
-																											pos: position{line: 1180, col: 5, offset: 36507},
+																											pos: position{line: 1180, col: 5, offset: 36509},
 																											exprs: []interface{}{
 																												&zeroOrOneExpr{
-																													pos: position{line: 1180, col: 5, offset: 36507},
+																													pos: position{line: 1180, col: 5, offset: 36509},
 																													expr: &litMatcher{
-																														pos:        position{line: 1180, col: 5, offset: 36507},
+																														pos:        position{line: 1180, col: 5, offset: 36509},
 																														val:        "v",
 																														ignoreCase: true,
 																														want:       "\"v\"i",
 																													},
 																												},
 																												&charClassMatcher{
-																													pos:        position{line: 1180, col: 11, offset: 36513},
+																													pos:        position{line: 1180, col: 11, offset: 36515},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 1180, col: 17, offset: 36519},
+																													pos: position{line: 1180, col: 17, offset: 36521},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1180, col: 17, offset: 36519},
+																														pos:        position{line: 1180, col: 17, offset: 36521},
 																														val:        "[^:,\\r\\n]",
 																														chars:      []rune{':', ',', '\r', '\n'},
 																														ignoreCase: false,
@@ -17832,12 +17832,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 1180, col: 28, offset: 36530},
+																													pos: position{line: 1180, col: 28, offset: 36532},
 																													expr: &actionExpr{
-																														pos: position{line: 2876, col: 10, offset: 91003},
+																														pos: position{line: 2876, col: 10, offset: 91005},
 																														run: (*parser).callonDocumentHeader428,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2876, col: 10, offset: 91003},
+																															pos:        position{line: 2876, col: 10, offset: 91005},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -17846,9 +17846,9 @@ var g = &grammar{
 																													},
 																												},
 																												&andExpr{
-																													pos: position{line: 1180, col: 35, offset: 36537},
+																													pos: position{line: 1180, col: 35, offset: 36539},
 																													expr: &litMatcher{
-																														pos:        position{line: 1180, col: 36, offset: 36538},
+																														pos:        position{line: 1180, col: 36, offset: 36540},
 																														val:        ",",
 																														ignoreCase: false,
 																														want:       "\",\"",
@@ -17861,26 +17861,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1169, col: 45, offset: 35966},
+																							pos: position{line: 1169, col: 45, offset: 35968},
 																							expr: &litMatcher{
-																								pos:        position{line: 1169, col: 45, offset: 35966},
+																								pos:        position{line: 1169, col: 45, offset: 35968},
 																								val:        ",",
 																								ignoreCase: false,
 																								want:       "\",\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1169, col: 50, offset: 35971},
+																							pos:   position{line: 1169, col: 50, offset: 35973},
 																							label: "revdate",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1169, col: 58, offset: 35979},
+																								pos: position{line: 1169, col: 58, offset: 35981},
 																								expr: &actionExpr{
-																									pos: position{line: 1184, col: 25, offset: 36602},
+																									pos: position{line: 1184, col: 25, offset: 36604},
 																									run: (*parser).callonDocumentHeader436,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1184, col: 25, offset: 36602},
+																										pos: position{line: 1184, col: 25, offset: 36604},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1184, col: 25, offset: 36602},
+																											pos:        position{line: 1184, col: 25, offset: 36604},
 																											val:        "[^:\\r\\n]",
 																											chars:      []rune{':', '\r', '\n'},
 																											ignoreCase: false,
@@ -17891,26 +17891,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1169, col: 82, offset: 36003},
+																							pos: position{line: 1169, col: 82, offset: 36005},
 																							expr: &litMatcher{
-																								pos:        position{line: 1169, col: 82, offset: 36003},
+																								pos:        position{line: 1169, col: 82, offset: 36005},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1169, col: 87, offset: 36008},
+																							pos:   position{line: 1169, col: 87, offset: 36010},
 																							label: "revremark",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1169, col: 97, offset: 36018},
+																								pos: position{line: 1169, col: 97, offset: 36020},
 																								expr: &actionExpr{
-																									pos: position{line: 1188, col: 27, offset: 36674},
+																									pos: position{line: 1188, col: 27, offset: 36676},
 																									run: (*parser).callonDocumentHeader443,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1188, col: 27, offset: 36674},
+																										pos: position{line: 1188, col: 27, offset: 36676},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1188, col: 27, offset: 36674},
+																											pos:        position{line: 1188, col: 27, offset: 36676},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -17924,21 +17924,21 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1171, col: 15, offset: 36136},
+																				pos: position{line: 1171, col: 15, offset: 36138},
 																				run: (*parser).callonDocumentHeader446,
 																				expr: &seqExpr{
-																					pos: position{line: 1171, col: 15, offset: 36136},
+																					pos: position{line: 1171, col: 15, offset: 36138},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1171, col: 15, offset: 36136},
+																							pos:   position{line: 1171, col: 15, offset: 36138},
 																							label: "revdate",
 																							expr: &actionExpr{
-																								pos: position{line: 1184, col: 25, offset: 36602},
+																								pos: position{line: 1184, col: 25, offset: 36604},
 																								run: (*parser).callonDocumentHeader449,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1184, col: 25, offset: 36602},
+																									pos: position{line: 1184, col: 25, offset: 36604},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1184, col: 25, offset: 36602},
+																										pos:        position{line: 1184, col: 25, offset: 36604},
 																										val:        "[^:\\r\\n]",
 																										chars:      []rune{':', '\r', '\n'},
 																										ignoreCase: false,
@@ -17948,26 +17948,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1171, col: 46, offset: 36167},
+																							pos: position{line: 1171, col: 46, offset: 36169},
 																							expr: &litMatcher{
-																								pos:        position{line: 1171, col: 46, offset: 36167},
+																								pos:        position{line: 1171, col: 46, offset: 36169},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1171, col: 51, offset: 36172},
+																							pos:   position{line: 1171, col: 51, offset: 36174},
 																							label: "revremark",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1171, col: 61, offset: 36182},
+																								pos: position{line: 1171, col: 61, offset: 36184},
 																								expr: &actionExpr{
-																									pos: position{line: 1188, col: 27, offset: 36674},
+																									pos: position{line: 1188, col: 27, offset: 36676},
 																									run: (*parser).callonDocumentHeader456,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1188, col: 27, offset: 36674},
+																										pos: position{line: 1188, col: 27, offset: 36676},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1188, col: 27, offset: 36674},
+																											pos:        position{line: 1188, col: 27, offset: 36676},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -17984,28 +17984,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91401},
+																	pos: position{line: 2898, col: 8, offset: 91403},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91174},
+																			pos: position{line: 2885, col: 12, offset: 91176},
 																			run: (*parser).callonDocumentHeader460,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91175},
+																				pos: position{line: 2885, col: 13, offset: 91177},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91175},
+																						pos:        position{line: 2885, col: 13, offset: 91177},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91182},
+																						pos:        position{line: 2885, col: 20, offset: 91184},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91191},
+																						pos:        position{line: 2885, col: 29, offset: 91193},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18014,9 +18014,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91351},
+																			pos: position{line: 2895, col: 8, offset: 91353},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91352,
+																				line: 2895, col: 9, offset: 91354,
 																			},
 																		},
 																	},
@@ -18032,15 +18032,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1107, col: 5, offset: 34093},
+							pos:   position{line: 1107, col: 5, offset: 34095},
 							label: "extraElements",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1107, col: 19, offset: 34107},
+								pos: position{line: 1107, col: 19, offset: 34109},
 								expr: &choiceExpr{
-									pos: position{line: 1107, col: 20, offset: 34108},
+									pos: position{line: 1107, col: 20, offset: 34110},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 1107, col: 20, offset: 34108},
+											pos:  position{line: 1107, col: 20, offset: 34110},
 											name: "AttributeDeclaration",
 										},
 										&actionExpr{
@@ -18096,10 +18096,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 359, col: 49, offset: 10879},
 														expr: &actionExpr{
-															pos: position{line: 2876, col: 10, offset: 91003},
+															pos: position{line: 2876, col: 10, offset: 91005},
 															run: (*parser).callonDocumentHeader482,
 															expr: &charClassMatcher{
-																pos:        position{line: 2876, col: 10, offset: 91003},
+																pos:        position{line: 2876, col: 10, offset: 91005},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18108,28 +18108,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2898, col: 8, offset: 91401},
+														pos: position{line: 2898, col: 8, offset: 91403},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2885, col: 12, offset: 91174},
+																pos: position{line: 2885, col: 12, offset: 91176},
 																run: (*parser).callonDocumentHeader485,
 																expr: &choiceExpr{
-																	pos: position{line: 2885, col: 13, offset: 91175},
+																	pos: position{line: 2885, col: 13, offset: 91177},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 13, offset: 91175},
+																			pos:        position{line: 2885, col: 13, offset: 91177},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 20, offset: 91182},
+																			pos:        position{line: 2885, col: 20, offset: 91184},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 29, offset: 91191},
+																			pos:        position{line: 2885, col: 29, offset: 91193},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18138,9 +18138,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91351},
+																pos: position{line: 2895, col: 8, offset: 91353},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91352,
+																	line: 2895, col: 9, offset: 91354,
 																},
 															},
 														},
@@ -18201,10 +18201,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 361, col: 39, offset: 11000},
 														expr: &actionExpr{
-															pos: position{line: 2876, col: 10, offset: 91003},
+															pos: position{line: 2876, col: 10, offset: 91005},
 															run: (*parser).callonDocumentHeader503,
 															expr: &charClassMatcher{
-																pos:        position{line: 2876, col: 10, offset: 91003},
+																pos:        position{line: 2876, col: 10, offset: 91005},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18213,28 +18213,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2898, col: 8, offset: 91401},
+														pos: position{line: 2898, col: 8, offset: 91403},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2885, col: 12, offset: 91174},
+																pos: position{line: 2885, col: 12, offset: 91176},
 																run: (*parser).callonDocumentHeader506,
 																expr: &choiceExpr{
-																	pos: position{line: 2885, col: 13, offset: 91175},
+																	pos: position{line: 2885, col: 13, offset: 91177},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 13, offset: 91175},
+																			pos:        position{line: 2885, col: 13, offset: 91177},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 20, offset: 91182},
+																			pos:        position{line: 2885, col: 20, offset: 91184},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 29, offset: 91191},
+																			pos:        position{line: 2885, col: 29, offset: 91193},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18243,9 +18243,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91351},
+																pos: position{line: 2895, col: 8, offset: 91353},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91352,
+																	line: 2895, col: 9, offset: 91354,
 																},
 															},
 														},
@@ -18254,36 +18254,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2483, col: 22, offset: 79889},
+											pos: position{line: 2483, col: 22, offset: 79891},
 											run: (*parser).callonDocumentHeader513,
 											expr: &seqExpr{
-												pos: position{line: 2483, col: 22, offset: 79889},
+												pos: position{line: 2483, col: 22, offset: 79891},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2488, col: 31, offset: 80110},
+														pos:        position{line: 2488, col: 31, offset: 80112},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2488, col: 36, offset: 80115},
+														pos: position{line: 2488, col: 36, offset: 80117},
 														expr: &litMatcher{
-															pos:        position{line: 2488, col: 37, offset: 80116},
+															pos:        position{line: 2488, col: 37, offset: 80118},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2483, col: 49, offset: 79916},
+														pos:   position{line: 2483, col: 49, offset: 79918},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2822, col: 13, offset: 89529},
+															pos: position{line: 2822, col: 13, offset: 89531},
 															run: (*parser).callonDocumentHeader519,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2822, col: 13, offset: 89529},
+																pos: position{line: 2822, col: 13, offset: 89531},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2822, col: 13, offset: 89529},
+																	pos:        position{line: 2822, col: 13, offset: 89531},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -18293,28 +18293,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2898, col: 8, offset: 91401},
+														pos: position{line: 2898, col: 8, offset: 91403},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2885, col: 12, offset: 91174},
+																pos: position{line: 2885, col: 12, offset: 91176},
 																run: (*parser).callonDocumentHeader523,
 																expr: &choiceExpr{
-																	pos: position{line: 2885, col: 13, offset: 91175},
+																	pos: position{line: 2885, col: 13, offset: 91177},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 13, offset: 91175},
+																			pos:        position{line: 2885, col: 13, offset: 91177},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 20, offset: 91182},
+																			pos:        position{line: 2885, col: 20, offset: 91184},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 29, offset: 91191},
+																			pos:        position{line: 2885, col: 29, offset: 91193},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18323,9 +18323,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91351},
+																pos: position{line: 2895, col: 8, offset: 91353},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91352,
+																	line: 2895, col: 9, offset: 91354,
 																},
 															},
 														},
@@ -18334,36 +18334,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 819, col: 5, offset: 26336},
+											pos: position{line: 819, col: 5, offset: 26338},
 											run: (*parser).callonDocumentHeader530,
 											expr: &seqExpr{
-												pos: position{line: 819, col: 5, offset: 26336},
+												pos: position{line: 819, col: 5, offset: 26338},
 												exprs: []interface{}{
 													&actionExpr{
-														pos: position{line: 739, col: 5, offset: 23591},
+														pos: position{line: 739, col: 5, offset: 23593},
 														run: (*parser).callonDocumentHeader532,
 														expr: &seqExpr{
-															pos: position{line: 739, col: 5, offset: 23591},
+															pos: position{line: 739, col: 5, offset: 23593},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 739, col: 5, offset: 23591},
+																	pos:   position{line: 739, col: 5, offset: 23593},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 739, col: 16, offset: 23602},
+																		pos: position{line: 739, col: 16, offset: 23604},
 																		run: (*parser).callonDocumentHeader535,
 																		expr: &seqExpr{
-																			pos: position{line: 739, col: 16, offset: 23602},
+																			pos: position{line: 739, col: 16, offset: 23604},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 739, col: 16, offset: 23602},
+																					pos:        position{line: 739, col: 16, offset: 23604},
 																					val:        "////",
 																					ignoreCase: false,
 																					want:       "\"////\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 739, col: 23, offset: 23609},
+																					pos: position{line: 739, col: 23, offset: 23611},
 																					expr: &litMatcher{
-																						pos:        position{line: 739, col: 23, offset: 23609},
+																						pos:        position{line: 739, col: 23, offset: 23611},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
@@ -18374,12 +18374,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 741, col: 8, offset: 23693},
+																	pos: position{line: 741, col: 8, offset: 23695},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 91003},
+																		pos: position{line: 2876, col: 10, offset: 91005},
 																		run: (*parser).callonDocumentHeader541,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 91003},
+																			pos:        position{line: 2876, col: 10, offset: 91005},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18388,28 +18388,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91401},
+																	pos: position{line: 2898, col: 8, offset: 91403},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91174},
+																			pos: position{line: 2885, col: 12, offset: 91176},
 																			run: (*parser).callonDocumentHeader544,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91175},
+																				pos: position{line: 2885, col: 13, offset: 91177},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91175},
+																						pos:        position{line: 2885, col: 13, offset: 91177},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91182},
+																						pos:        position{line: 2885, col: 20, offset: 91184},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91191},
+																						pos:        position{line: 2885, col: 29, offset: 91193},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18418,9 +18418,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91351},
+																			pos: position{line: 2895, col: 8, offset: 91353},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91352,
+																				line: 2895, col: 9, offset: 91354,
 																			},
 																		},
 																	},
@@ -18429,46 +18429,46 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 820, col: 5, offset: 26367},
+														pos:   position{line: 820, col: 5, offset: 26369},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 830, col: 5, offset: 26653},
+															pos: position{line: 830, col: 5, offset: 26655},
 															expr: &actionExpr{
-																pos: position{line: 830, col: 6, offset: 26654},
+																pos: position{line: 830, col: 6, offset: 26656},
 																run: (*parser).callonDocumentHeader553,
 																expr: &seqExpr{
-																	pos: position{line: 830, col: 6, offset: 26654},
+																	pos: position{line: 830, col: 6, offset: 26656},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 830, col: 6, offset: 26654},
+																			pos: position{line: 830, col: 6, offset: 26656},
 																			expr: &choiceExpr{
-																				pos: position{line: 827, col: 29, offset: 26596},
+																				pos: position{line: 827, col: 29, offset: 26598},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 739, col: 5, offset: 23591},
+																						pos: position{line: 739, col: 5, offset: 23593},
 																						run: (*parser).callonDocumentHeader557,
 																						expr: &seqExpr{
-																							pos: position{line: 739, col: 5, offset: 23591},
+																							pos: position{line: 739, col: 5, offset: 23593},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 739, col: 5, offset: 23591},
+																									pos:   position{line: 739, col: 5, offset: 23593},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 739, col: 16, offset: 23602},
+																										pos: position{line: 739, col: 16, offset: 23604},
 																										run: (*parser).callonDocumentHeader560,
 																										expr: &seqExpr{
-																											pos: position{line: 739, col: 16, offset: 23602},
+																											pos: position{line: 739, col: 16, offset: 23604},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 739, col: 16, offset: 23602},
+																													pos:        position{line: 739, col: 16, offset: 23604},
 																													val:        "////",
 																													ignoreCase: false,
 																													want:       "\"////\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 739, col: 23, offset: 23609},
+																													pos: position{line: 739, col: 23, offset: 23611},
 																													expr: &litMatcher{
-																														pos:        position{line: 739, col: 23, offset: 23609},
+																														pos:        position{line: 739, col: 23, offset: 23611},
 																														val:        "/",
 																														ignoreCase: false,
 																														want:       "\"/\"",
@@ -18479,12 +18479,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 741, col: 8, offset: 23693},
+																									pos: position{line: 741, col: 8, offset: 23695},
 																									expr: &actionExpr{
-																										pos: position{line: 2876, col: 10, offset: 91003},
+																										pos: position{line: 2876, col: 10, offset: 91005},
 																										run: (*parser).callonDocumentHeader566,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2876, col: 10, offset: 91003},
+																											pos:        position{line: 2876, col: 10, offset: 91005},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -18493,28 +18493,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2898, col: 8, offset: 91401},
+																									pos: position{line: 2898, col: 8, offset: 91403},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2885, col: 12, offset: 91174},
+																											pos: position{line: 2885, col: 12, offset: 91176},
 																											run: (*parser).callonDocumentHeader569,
 																											expr: &choiceExpr{
-																												pos: position{line: 2885, col: 13, offset: 91175},
+																												pos: position{line: 2885, col: 13, offset: 91177},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 13, offset: 91175},
+																														pos:        position{line: 2885, col: 13, offset: 91177},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 20, offset: 91182},
+																														pos:        position{line: 2885, col: 20, offset: 91184},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 29, offset: 91191},
+																														pos:        position{line: 2885, col: 29, offset: 91193},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -18523,9 +18523,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2895, col: 8, offset: 91351},
+																											pos: position{line: 2895, col: 8, offset: 91353},
 																											expr: &anyMatcher{
-																												line: 2895, col: 9, offset: 91352,
+																												line: 2895, col: 9, offset: 91354,
 																											},
 																										},
 																									},
@@ -18534,39 +18534,39 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91351},
+																						pos: position{line: 2895, col: 8, offset: 91353},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91352,
+																							line: 2895, col: 9, offset: 91354,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 831, col: 5, offset: 26684},
+																			pos:   position{line: 831, col: 5, offset: 26686},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 810, col: 5, offset: 26100},
+																				pos: position{line: 810, col: 5, offset: 26102},
 																				run: (*parser).callonDocumentHeader579,
 																				expr: &seqExpr{
-																					pos: position{line: 810, col: 5, offset: 26100},
+																					pos: position{line: 810, col: 5, offset: 26102},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2893, col: 11, offset: 91337},
+																							pos: position{line: 2893, col: 11, offset: 91339},
 																							expr: &anyMatcher{
-																								line: 2893, col: 13, offset: 91339,
+																								line: 2893, col: 13, offset: 91341,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 811, col: 5, offset: 26175},
+																							pos:   position{line: 811, col: 5, offset: 26177},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2822, col: 13, offset: 89529},
+																								pos: position{line: 2822, col: 13, offset: 89531},
 																								run: (*parser).callonDocumentHeader584,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2822, col: 13, offset: 89529},
+																									pos: position{line: 2822, col: 13, offset: 89531},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2822, col: 13, offset: 89529},
+																										pos:        position{line: 2822, col: 13, offset: 89531},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -18576,28 +18576,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91401},
+																							pos: position{line: 2898, col: 8, offset: 91403},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91174},
+																									pos: position{line: 2885, col: 12, offset: 91176},
 																									run: (*parser).callonDocumentHeader588,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91175},
+																										pos: position{line: 2885, col: 13, offset: 91177},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91175},
+																												pos:        position{line: 2885, col: 13, offset: 91177},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91182},
+																												pos:        position{line: 2885, col: 20, offset: 91184},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91191},
+																												pos:        position{line: 2885, col: 29, offset: 91193},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -18606,9 +18606,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91351},
+																									pos: position{line: 2895, col: 8, offset: 91353},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91352,
+																										line: 2895, col: 9, offset: 91354,
 																									},
 																								},
 																							},
@@ -18623,35 +18623,35 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 821, col: 5, offset: 26401},
+														pos: position{line: 821, col: 5, offset: 26403},
 														expr: &choiceExpr{
-															pos: position{line: 827, col: 29, offset: 26596},
+															pos: position{line: 827, col: 29, offset: 26598},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 739, col: 5, offset: 23591},
+																	pos: position{line: 739, col: 5, offset: 23593},
 																	run: (*parser).callonDocumentHeader597,
 																	expr: &seqExpr{
-																		pos: position{line: 739, col: 5, offset: 23591},
+																		pos: position{line: 739, col: 5, offset: 23593},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 739, col: 5, offset: 23591},
+																				pos:   position{line: 739, col: 5, offset: 23593},
 																				label: "delimiter",
 																				expr: &actionExpr{
-																					pos: position{line: 739, col: 16, offset: 23602},
+																					pos: position{line: 739, col: 16, offset: 23604},
 																					run: (*parser).callonDocumentHeader600,
 																					expr: &seqExpr{
-																						pos: position{line: 739, col: 16, offset: 23602},
+																						pos: position{line: 739, col: 16, offset: 23604},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 739, col: 16, offset: 23602},
+																								pos:        position{line: 739, col: 16, offset: 23604},
 																								val:        "////",
 																								ignoreCase: false,
 																								want:       "\"////\"",
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 739, col: 23, offset: 23609},
+																								pos: position{line: 739, col: 23, offset: 23611},
 																								expr: &litMatcher{
-																									pos:        position{line: 739, col: 23, offset: 23609},
+																									pos:        position{line: 739, col: 23, offset: 23611},
 																									val:        "/",
 																									ignoreCase: false,
 																									want:       "\"/\"",
@@ -18662,12 +18662,12 @@ var g = &grammar{
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 741, col: 8, offset: 23693},
+																				pos: position{line: 741, col: 8, offset: 23695},
 																				expr: &actionExpr{
-																					pos: position{line: 2876, col: 10, offset: 91003},
+																					pos: position{line: 2876, col: 10, offset: 91005},
 																					run: (*parser).callonDocumentHeader606,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2876, col: 10, offset: 91003},
+																						pos:        position{line: 2876, col: 10, offset: 91005},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -18676,28 +18676,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2898, col: 8, offset: 91401},
+																				pos: position{line: 2898, col: 8, offset: 91403},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2885, col: 12, offset: 91174},
+																						pos: position{line: 2885, col: 12, offset: 91176},
 																						run: (*parser).callonDocumentHeader609,
 																						expr: &choiceExpr{
-																							pos: position{line: 2885, col: 13, offset: 91175},
+																							pos: position{line: 2885, col: 13, offset: 91177},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 13, offset: 91175},
+																									pos:        position{line: 2885, col: 13, offset: 91177},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 20, offset: 91182},
+																									pos:        position{line: 2885, col: 20, offset: 91184},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 29, offset: 91191},
+																									pos:        position{line: 2885, col: 29, offset: 91193},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -18706,9 +18706,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91351},
+																						pos: position{line: 2895, col: 8, offset: 91353},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91352,
+																							line: 2895, col: 9, offset: 91354,
 																						},
 																					},
 																				},
@@ -18717,9 +18717,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2895, col: 8, offset: 91351},
+																	pos: position{line: 2895, col: 8, offset: 91353},
 																	expr: &anyMatcher{
-																		line: 2895, col: 9, offset: 91352,
+																		line: 2895, col: 9, offset: 91354,
 																	},
 																},
 															},
@@ -18738,26 +18738,26 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentTitle",
-			pos:  position{line: 1111, col: 1, offset: 34305},
+			pos:  position{line: 1111, col: 1, offset: 34307},
 			expr: &actionExpr{
-				pos: position{line: 1112, col: 5, offset: 34327},
+				pos: position{line: 1112, col: 5, offset: 34329},
 				run: (*parser).callonDocumentTitle1,
 				expr: &seqExpr{
-					pos: position{line: 1112, col: 5, offset: 34327},
+					pos: position{line: 1112, col: 5, offset: 34329},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1112, col: 5, offset: 34327},
+							pos:        position{line: 1112, col: 5, offset: 34329},
 							val:        "=",
 							ignoreCase: false,
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2880, col: 11, offset: 91064},
+							pos: position{line: 2880, col: 11, offset: 91066},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2880, col: 11, offset: 91064},
+								pos: position{line: 2880, col: 11, offset: 91066},
 								expr: &charClassMatcher{
-									pos:        position{line: 2880, col: 11, offset: 91064},
+									pos:        position{line: 2880, col: 11, offset: 91066},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18766,36 +18766,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1112, col: 16, offset: 34338},
+							pos:   position{line: 1112, col: 16, offset: 34340},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1112, col: 23, offset: 34345},
+								pos:  position{line: 1112, col: 23, offset: 34347},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2898, col: 8, offset: 91401},
+							pos: position{line: 2898, col: 8, offset: 91403},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2885, col: 12, offset: 91174},
+									pos: position{line: 2885, col: 12, offset: 91176},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2885, col: 13, offset: 91175},
+										pos: position{line: 2885, col: 13, offset: 91177},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2885, col: 13, offset: 91175},
+												pos:        position{line: 2885, col: 13, offset: 91177},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 20, offset: 91182},
+												pos:        position{line: 2885, col: 20, offset: 91184},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 29, offset: 91191},
+												pos:        position{line: 2885, col: 29, offset: 91193},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -18804,9 +18804,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2895, col: 8, offset: 91351},
+									pos: position{line: 2895, col: 8, offset: 91353},
 									expr: &anyMatcher{
-										line: 2895, col: 9, offset: 91352,
+										line: 2895, col: 9, offset: 91354,
 									},
 								},
 							},
@@ -18817,23 +18817,23 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentAuthorFullName",
-			pos:  position{line: 1139, col: 1, offset: 35185},
+			pos:  position{line: 1139, col: 1, offset: 35187},
 			expr: &actionExpr{
-				pos: position{line: 1140, col: 5, offset: 35216},
+				pos: position{line: 1140, col: 5, offset: 35218},
 				run: (*parser).callonDocumentAuthorFullName1,
 				expr: &seqExpr{
-					pos: position{line: 1140, col: 5, offset: 35216},
+					pos: position{line: 1140, col: 5, offset: 35218},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1140, col: 5, offset: 35216},
+							pos:   position{line: 1140, col: 5, offset: 35218},
 							label: "part1",
 							expr: &actionExpr{
-								pos: position{line: 1140, col: 12, offset: 35223},
+								pos: position{line: 1140, col: 12, offset: 35225},
 								run: (*parser).callonDocumentAuthorFullName4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1140, col: 12, offset: 35223},
+									pos: position{line: 1140, col: 12, offset: 35225},
 									expr: &charClassMatcher{
-										pos:        position{line: 1140, col: 12, offset: 35223},
+										pos:        position{line: 1140, col: 12, offset: 35225},
 										val:        "[^<;\\r\\n ]",
 										chars:      []rune{'<', ';', '\r', '\n', ' '},
 										ignoreCase: false,
@@ -18843,12 +18843,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1143, col: 5, offset: 35303},
+							pos: position{line: 1143, col: 5, offset: 35305},
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 10, offset: 91003},
+								pos: position{line: 2876, col: 10, offset: 91005},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2876, col: 10, offset: 91003},
+									pos:        position{line: 2876, col: 10, offset: 91005},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18857,17 +18857,17 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1144, col: 5, offset: 35314},
+							pos:   position{line: 1144, col: 5, offset: 35316},
 							label: "part2",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1144, col: 11, offset: 35320},
+								pos: position{line: 1144, col: 11, offset: 35322},
 								expr: &actionExpr{
-									pos: position{line: 1144, col: 12, offset: 35321},
+									pos: position{line: 1144, col: 12, offset: 35323},
 									run: (*parser).callonDocumentAuthorFullName12,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1144, col: 12, offset: 35321},
+										pos: position{line: 1144, col: 12, offset: 35323},
 										expr: &charClassMatcher{
-											pos:        position{line: 1144, col: 12, offset: 35321},
+											pos:        position{line: 1144, col: 12, offset: 35323},
 											val:        "[^<;\\r\\n ]",
 											chars:      []rune{'<', ';', '\r', '\n', ' '},
 											ignoreCase: false,
@@ -18878,12 +18878,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1147, col: 5, offset: 35402},
+							pos: position{line: 1147, col: 5, offset: 35404},
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 10, offset: 91003},
+								pos: position{line: 2876, col: 10, offset: 91005},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2876, col: 10, offset: 91003},
+									pos:        position{line: 2876, col: 10, offset: 91005},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18892,17 +18892,17 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1148, col: 5, offset: 35413},
+							pos:   position{line: 1148, col: 5, offset: 35415},
 							label: "part3",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1148, col: 11, offset: 35419},
+								pos: position{line: 1148, col: 11, offset: 35421},
 								expr: &actionExpr{
-									pos: position{line: 1148, col: 12, offset: 35420},
+									pos: position{line: 1148, col: 12, offset: 35422},
 									run: (*parser).callonDocumentAuthorFullName20,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1148, col: 12, offset: 35420},
+										pos: position{line: 1148, col: 12, offset: 35422},
 										expr: &charClassMatcher{
-											pos:        position{line: 1148, col: 12, offset: 35420},
+											pos:        position{line: 1148, col: 12, offset: 35422},
 											val:        "[^<;\\r\\n]",
 											chars:      []rune{'<', ';', '\r', '\n'},
 											ignoreCase: false,
@@ -18913,12 +18913,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1151, col: 5, offset: 35499},
+							pos: position{line: 1151, col: 5, offset: 35501},
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 10, offset: 91003},
+								pos: position{line: 2876, col: 10, offset: 91005},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2876, col: 10, offset: 91003},
+									pos:        position{line: 2876, col: 10, offset: 91005},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18932,28 +18932,28 @@ var g = &grammar{
 		},
 		{
 			name: "InlineButton",
-			pos:  position{line: 1268, col: 1, offset: 39331},
+			pos:  position{line: 1268, col: 1, offset: 39333},
 			expr: &actionExpr{
-				pos: position{line: 1269, col: 5, offset: 39352},
+				pos: position{line: 1269, col: 5, offset: 39354},
 				run: (*parser).callonInlineButton1,
 				expr: &seqExpr{
-					pos: position{line: 1269, col: 5, offset: 39352},
+					pos: position{line: 1269, col: 5, offset: 39354},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1269, col: 5, offset: 39352},
+							pos: position{line: 1269, col: 5, offset: 39354},
 							run: (*parser).callonInlineButton3,
 						},
 						&litMatcher{
-							pos:        position{line: 1272, col: 5, offset: 39411},
+							pos:        position{line: 1272, col: 5, offset: 39413},
 							val:        "btn:",
 							ignoreCase: false,
 							want:       "\"btn:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1272, col: 12, offset: 39418},
+							pos:   position{line: 1272, col: 12, offset: 39420},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1272, col: 24, offset: 39430},
+								pos:  position{line: 1272, col: 24, offset: 39432},
 								name: "InlineAttributes",
 							},
 						},
@@ -18963,33 +18963,33 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMenu",
-			pos:  position{line: 1279, col: 1, offset: 39718},
+			pos:  position{line: 1279, col: 1, offset: 39720},
 			expr: &actionExpr{
-				pos: position{line: 1280, col: 5, offset: 39737},
+				pos: position{line: 1280, col: 5, offset: 39739},
 				run: (*parser).callonInlineMenu1,
 				expr: &seqExpr{
-					pos: position{line: 1280, col: 5, offset: 39737},
+					pos: position{line: 1280, col: 5, offset: 39739},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1280, col: 5, offset: 39737},
+							pos: position{line: 1280, col: 5, offset: 39739},
 							run: (*parser).callonInlineMenu3,
 						},
 						&litMatcher{
-							pos:        position{line: 1283, col: 5, offset: 39796},
+							pos:        position{line: 1283, col: 5, offset: 39798},
 							val:        "menu:",
 							ignoreCase: false,
 							want:       "\"menu:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1283, col: 13, offset: 39804},
+							pos:   position{line: 1283, col: 13, offset: 39806},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2861, col: 7, offset: 90655},
+								pos: position{line: 2861, col: 7, offset: 90657},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2861, col: 7, offset: 90655},
+									pos: position{line: 2861, col: 7, offset: 90657},
 									expr: &charClassMatcher{
-										pos:        position{line: 2861, col: 7, offset: 90655},
+										pos:        position{line: 2861, col: 7, offset: 90657},
 										val:        "[^[]<>,\\r\\n]",
 										chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 										ignoreCase: false,
@@ -18999,10 +18999,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1283, col: 21, offset: 39812},
+							pos:   position{line: 1283, col: 21, offset: 39814},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1283, col: 33, offset: 39824},
+								pos:  position{line: 1283, col: 33, offset: 39826},
 								name: "InlineAttributes",
 							},
 						},
@@ -19012,29 +19012,29 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTerm",
-			pos:  position{line: 1290, col: 1, offset: 40123},
+			pos:  position{line: 1290, col: 1, offset: 40125},
 			expr: &actionExpr{
-				pos: position{line: 1290, col: 14, offset: 40136},
+				pos: position{line: 1290, col: 14, offset: 40138},
 				run: (*parser).callonIndexTerm1,
 				expr: &seqExpr{
-					pos: position{line: 1290, col: 14, offset: 40136},
+					pos: position{line: 1290, col: 14, offset: 40138},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1290, col: 14, offset: 40136},
+							pos:        position{line: 1290, col: 14, offset: 40138},
 							val:        "((",
 							ignoreCase: false,
 							want:       "\"((\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1290, col: 19, offset: 40141},
+							pos:   position{line: 1290, col: 19, offset: 40143},
 							label: "term",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1290, col: 25, offset: 40147},
+								pos:  position{line: 1290, col: 25, offset: 40149},
 								name: "IndexTermContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1290, col: 43, offset: 40165},
+							pos:        position{line: 1290, col: 43, offset: 40167},
 							val:        "))",
 							ignoreCase: false,
 							want:       "\"))\"",
@@ -19045,25 +19045,25 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTermContent",
-			pos:  position{line: 1294, col: 1, offset: 40234},
+			pos:  position{line: 1294, col: 1, offset: 40236},
 			expr: &actionExpr{
-				pos: position{line: 1294, col: 21, offset: 40254},
+				pos: position{line: 1294, col: 21, offset: 40256},
 				run: (*parser).callonIndexTermContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 1294, col: 21, offset: 40254},
+					pos:   position{line: 1294, col: 21, offset: 40256},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 1294, col: 30, offset: 40263},
+						pos: position{line: 1294, col: 30, offset: 40265},
 						expr: &choiceExpr{
-							pos: position{line: 1294, col: 31, offset: 40264},
+							pos: position{line: 1294, col: 31, offset: 40266},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2770, col: 14, offset: 88151},
+									pos: position{line: 2770, col: 14, offset: 88153},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2770, col: 14, offset: 88151},
+										pos: position{line: 2770, col: 14, offset: 88153},
 										expr: &charClassMatcher{
-											pos:        position{line: 2770, col: 14, offset: 88151},
+											pos:        position{line: 2770, col: 14, offset: 88153},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -19072,14 +19072,14 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 1294, col: 43, offset: 40276},
+									pos:  position{line: 1294, col: 43, offset: 40278},
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2876, col: 10, offset: 91003},
+									pos: position{line: 2876, col: 10, offset: 91005},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2876, col: 10, offset: 91003},
+										pos:        position{line: 2876, col: 10, offset: 91005},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -19087,23 +19087,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2470, col: 5, offset: 79435},
+									pos: position{line: 2470, col: 5, offset: 79437},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2470, col: 5, offset: 79435},
+										pos: position{line: 2470, col: 5, offset: 79437},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2470, col: 5, offset: 79435},
+												pos: position{line: 2470, col: 5, offset: 79437},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2473, col: 5, offset: 79511},
+												pos:   position{line: 2473, col: 5, offset: 79513},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2474, col: 9, offset: 79529},
+													pos: position{line: 2474, col: 9, offset: 79531},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2474, col: 10, offset: 79530},
+														pos:        position{line: 2474, col: 10, offset: 79532},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -19115,27 +19115,27 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1197, col: 23, offset: 36984},
+									pos: position{line: 1197, col: 23, offset: 36986},
 									run: (*parser).callonIndexTermContent17,
 									expr: &seqExpr{
-										pos: position{line: 1197, col: 23, offset: 36984},
+										pos: position{line: 1197, col: 23, offset: 36986},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 1195, col: 32, offset: 36952},
+												pos:        position{line: 1195, col: 32, offset: 36954},
 												val:        "�",
 												ignoreCase: false,
 												want:       "\"�\"",
 											},
 											&labeledExpr{
-												pos:   position{line: 1197, col: 51, offset: 37012},
+												pos:   position{line: 1197, col: 51, offset: 37014},
 												label: "ref",
 												expr: &actionExpr{
-													pos: position{line: 1197, col: 56, offset: 37017},
+													pos: position{line: 1197, col: 56, offset: 37019},
 													run: (*parser).callonIndexTermContent21,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1197, col: 56, offset: 37017},
+														pos: position{line: 1197, col: 56, offset: 37019},
 														expr: &charClassMatcher{
-															pos:        position{line: 1197, col: 56, offset: 37017},
+															pos:        position{line: 1197, col: 56, offset: 37019},
 															val:        "[0-9]",
 															ranges:     []rune{'0', '9'},
 															ignoreCase: false,
@@ -19145,35 +19145,35 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 1195, col: 32, offset: 36952},
+												pos:        position{line: 1195, col: 32, offset: 36954},
 												val:        "�",
 												ignoreCase: false,
 												want:       "\"�\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 1198, col: 5, offset: 37089},
+												pos: position{line: 1198, col: 5, offset: 37091},
 												run: (*parser).callonIndexTermContent25,
 											},
 										},
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1294, col: 104, offset: 40337},
+									pos: position{line: 1294, col: 104, offset: 40339},
 									run: (*parser).callonIndexTermContent26,
 									expr: &seqExpr{
-										pos: position{line: 1294, col: 105, offset: 40338},
+										pos: position{line: 1294, col: 105, offset: 40340},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1294, col: 105, offset: 40338},
+												pos: position{line: 1294, col: 105, offset: 40340},
 												expr: &litMatcher{
-													pos:        position{line: 1294, col: 106, offset: 40339},
+													pos:        position{line: 1294, col: 106, offset: 40341},
 													val:        "))",
 													ignoreCase: false,
 													want:       "\"))\"",
 												},
 											},
 											&anyMatcher{
-												line: 1294, col: 111, offset: 40344,
+												line: 1294, col: 111, offset: 40346,
 											},
 										},
 									},
@@ -19186,21 +19186,21 @@ var g = &grammar{
 		},
 		{
 			name: "ImageBlock",
-			pos:  position{line: 1314, col: 1, offset: 41053},
+			pos:  position{line: 1314, col: 1, offset: 41055},
 			expr: &actionExpr{
-				pos: position{line: 1315, col: 5, offset: 41072},
+				pos: position{line: 1315, col: 5, offset: 41074},
 				run: (*parser).callonImageBlock1,
 				expr: &seqExpr{
-					pos: position{line: 1315, col: 5, offset: 41072},
+					pos: position{line: 1315, col: 5, offset: 41074},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1315, col: 5, offset: 41072},
+							pos:   position{line: 1315, col: 5, offset: 41074},
 							label: "start",
 							expr: &actionExpr{
-								pos: position{line: 2901, col: 16, offset: 91525},
+								pos: position{line: 2901, col: 16, offset: 91527},
 								run: (*parser).callonImageBlock4,
 								expr: &litMatcher{
-									pos:        position{line: 2901, col: 16, offset: 91525},
+									pos:        position{line: 2901, col: 16, offset: 91527},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -19208,57 +19208,57 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1315, col: 25, offset: 41092},
+							pos:        position{line: 1315, col: 25, offset: 41094},
 							val:        "image::",
 							ignoreCase: false,
 							want:       "\"image::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1315, col: 35, offset: 41102},
+							pos:   position{line: 1315, col: 35, offset: 41104},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2834, col: 13, offset: 89762},
+								pos: position{line: 2834, col: 13, offset: 89764},
 								run: (*parser).callonImageBlock8,
 								expr: &seqExpr{
-									pos: position{line: 2834, col: 13, offset: 89762},
+									pos: position{line: 2834, col: 13, offset: 89764},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2834, col: 13, offset: 89762},
+											pos:   position{line: 2834, col: 13, offset: 89764},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2834, col: 20, offset: 89769},
+												pos: position{line: 2834, col: 20, offset: 89771},
 												expr: &actionExpr{
-													pos: position{line: 2842, col: 11, offset: 90008},
+													pos: position{line: 2842, col: 11, offset: 90010},
 													run: (*parser).callonImageBlock12,
 													expr: &choiceExpr{
-														pos: position{line: 2842, col: 12, offset: 90009},
+														pos: position{line: 2842, col: 12, offset: 90011},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2842, col: 12, offset: 90009},
+																pos:        position{line: 2842, col: 12, offset: 90011},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2842, col: 24, offset: 90021},
+																pos:        position{line: 2842, col: 24, offset: 90023},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2842, col: 37, offset: 90034},
+																pos:        position{line: 2842, col: 37, offset: 90036},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2842, col: 48, offset: 90045},
+																pos:        position{line: 2842, col: 48, offset: 90047},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2842, col: 59, offset: 90056},
+																pos:        position{line: 2842, col: 59, offset: 90058},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19269,38 +19269,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2834, col: 30, offset: 89779},
+											pos:   position{line: 2834, col: 30, offset: 89781},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2847, col: 5, offset: 90120},
+												pos: position{line: 2847, col: 5, offset: 90122},
 												run: (*parser).callonImageBlock20,
 												expr: &labeledExpr{
-													pos:   position{line: 2847, col: 5, offset: 90120},
+													pos:   position{line: 2847, col: 5, offset: 90122},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2847, col: 14, offset: 90129},
+														pos: position{line: 2847, col: 14, offset: 90131},
 														expr: &choiceExpr{
-															pos: position{line: 2848, col: 9, offset: 90139},
+															pos: position{line: 2848, col: 9, offset: 90141},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2848, col: 9, offset: 90139},
+																	pos: position{line: 2848, col: 9, offset: 90141},
 																	run: (*parser).callonImageBlock24,
 																	expr: &seqExpr{
-																		pos: position{line: 2848, col: 9, offset: 90139},
+																		pos: position{line: 2848, col: 9, offset: 90141},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2848, col: 9, offset: 90139},
+																				pos: position{line: 2848, col: 9, offset: 90141},
 																				expr: &litMatcher{
-																					pos:        position{line: 2848, col: 10, offset: 90140},
+																					pos:        position{line: 2848, col: 10, offset: 90142},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2849, col: 9, offset: 90168},
+																				pos: position{line: 2849, col: 9, offset: 90170},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2849, col: 10, offset: 90169},
+																					pos:        position{line: 2849, col: 10, offset: 90171},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19311,27 +19311,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2852, col: 11, offset: 90381},
+																	pos: position{line: 2852, col: 11, offset: 90383},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2852, col: 11, offset: 90381},
+																			pos:        position{line: 2852, col: 11, offset: 90383},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2852, col: 19, offset: 90389},
+																			pos: position{line: 2852, col: 19, offset: 90391},
 																			expr: &seqExpr{
-																				pos: position{line: 2852, col: 21, offset: 90391},
+																				pos: position{line: 2852, col: 21, offset: 90393},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2852, col: 21, offset: 90391},
+																						pos: position{line: 2852, col: 21, offset: 90393},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 91003},
+																							pos: position{line: 2876, col: 10, offset: 91005},
 																							run: (*parser).callonImageBlock35,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 91003},
+																								pos:        position{line: 2876, col: 10, offset: 91005},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19340,11 +19340,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2852, col: 28, offset: 90398},
+																						pos: position{line: 2852, col: 28, offset: 90400},
 																						expr: &notExpr{
-																							pos: position{line: 2895, col: 8, offset: 91351},
+																							pos: position{line: 2895, col: 8, offset: 91353},
 																							expr: &anyMatcher{
-																								line: 2895, col: 9, offset: 91352,
+																								line: 2895, col: 9, offset: 91354,
 																							},
 																						},
 																					},
@@ -19525,28 +19525,28 @@ var g = &grammar{
 																										expr: &zeroOrOneExpr{
 																											pos: position{line: 657, col: 62, offset: 20835},
 																											expr: &actionExpr{
-																												pos: position{line: 665, col: 17, offset: 21130},
+																												pos: position{line: 665, col: 17, offset: 21132},
 																												run: (*parser).callonImageBlock76,
 																												expr: &seqExpr{
-																													pos: position{line: 665, col: 17, offset: 21130},
+																													pos: position{line: 665, col: 17, offset: 21132},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 665, col: 17, offset: 21130},
+																															pos:        position{line: 665, col: 17, offset: 21132},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 665, col: 21, offset: 21134},
+																															pos:   position{line: 665, col: 21, offset: 21136},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 665, col: 28, offset: 21141},
+																																pos: position{line: 665, col: 28, offset: 21143},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 665, col: 28, offset: 21141},
+																																		pos: position{line: 665, col: 28, offset: 21143},
 																																		run: (*parser).callonImageBlock81,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 665, col: 28, offset: 21141},
+																																			pos:        position{line: 665, col: 28, offset: 21143},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -19554,12 +19554,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 667, col: 9, offset: 21195},
+																																		pos: position{line: 667, col: 9, offset: 21197},
 																																		run: (*parser).callonImageBlock83,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 667, col: 9, offset: 21195},
+																																			pos: position{line: 667, col: 9, offset: 21197},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 667, col: 9, offset: 21195},
+																																				pos:        position{line: 667, col: 9, offset: 21197},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -19634,28 +19634,28 @@ var g = &grammar{
 																										expr: &zeroOrOneExpr{
 																											pos: position{line: 661, col: 63, offset: 21007},
 																											expr: &actionExpr{
-																												pos: position{line: 665, col: 17, offset: 21130},
+																												pos: position{line: 665, col: 17, offset: 21132},
 																												run: (*parser).callonImageBlock98,
 																												expr: &seqExpr{
-																													pos: position{line: 665, col: 17, offset: 21130},
+																													pos: position{line: 665, col: 17, offset: 21132},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 665, col: 17, offset: 21130},
+																															pos:        position{line: 665, col: 17, offset: 21132},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 665, col: 21, offset: 21134},
+																															pos:   position{line: 665, col: 21, offset: 21136},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 665, col: 28, offset: 21141},
+																																pos: position{line: 665, col: 28, offset: 21143},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 665, col: 28, offset: 21141},
+																																		pos: position{line: 665, col: 28, offset: 21143},
 																																		run: (*parser).callonImageBlock103,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 665, col: 28, offset: 21141},
+																																			pos:        position{line: 665, col: 28, offset: 21143},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -19663,12 +19663,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 667, col: 9, offset: 21195},
+																																		pos: position{line: 667, col: 9, offset: 21197},
 																																		run: (*parser).callonImageBlock105,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 667, col: 9, offset: 21195},
+																																			pos: position{line: 667, col: 9, offset: 21197},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 667, col: 9, offset: 21195},
+																																				pos:        position{line: 667, col: 9, offset: 21197},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -19700,27 +19700,27 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1197, col: 23, offset: 36984},
+																	pos: position{line: 1197, col: 23, offset: 36986},
 																	run: (*parser).callonImageBlock109,
 																	expr: &seqExpr{
-																		pos: position{line: 1197, col: 23, offset: 36984},
+																		pos: position{line: 1197, col: 23, offset: 36986},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1195, col: 32, offset: 36952},
+																				pos:        position{line: 1195, col: 32, offset: 36954},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1197, col: 51, offset: 37012},
+																				pos:   position{line: 1197, col: 51, offset: 37014},
 																				label: "ref",
 																				expr: &actionExpr{
-																					pos: position{line: 1197, col: 56, offset: 37017},
+																					pos: position{line: 1197, col: 56, offset: 37019},
 																					run: (*parser).callonImageBlock113,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1197, col: 56, offset: 37017},
+																						pos: position{line: 1197, col: 56, offset: 37019},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 1197, col: 56, offset: 37017},
+																							pos:        position{line: 1197, col: 56, offset: 37019},
 																							val:        "[0-9]",
 																							ranges:     []rune{'0', '9'},
 																							ignoreCase: false,
@@ -19730,23 +19730,23 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1195, col: 32, offset: 36952},
+																				pos:        position{line: 1195, col: 32, offset: 36954},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1198, col: 5, offset: 37089},
+																				pos: position{line: 1198, col: 5, offset: 37091},
 																				run: (*parser).callonImageBlock117,
 																			},
 																		},
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2855, col: 11, offset: 90518},
+																	pos: position{line: 2855, col: 11, offset: 90520},
 																	run: (*parser).callonImageBlock118,
 																	expr: &litMatcher{
-																		pos:        position{line: 2855, col: 11, offset: 90518},
+																		pos:        position{line: 2855, col: 11, offset: 90520},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -19763,20 +19763,20 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1315, col: 51, offset: 41118},
+							pos:   position{line: 1315, col: 51, offset: 41120},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1315, col: 63, offset: 41130},
+								pos:  position{line: 1315, col: 63, offset: 41132},
 								name: "InlineAttributes",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1315, col: 81, offset: 41148},
+							pos: position{line: 1315, col: 81, offset: 41150},
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 10, offset: 91003},
+								pos: position{line: 2876, col: 10, offset: 91005},
 								run: (*parser).callonImageBlock123,
 								expr: &charClassMatcher{
-									pos:        position{line: 2876, col: 10, offset: 91003},
+									pos:        position{line: 2876, col: 10, offset: 91005},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19785,13 +19785,13 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1315, col: 88, offset: 41155},
+							pos:   position{line: 1315, col: 88, offset: 41157},
 							label: "end",
 							expr: &actionExpr{
-								pos: position{line: 2901, col: 16, offset: 91525},
+								pos: position{line: 2901, col: 16, offset: 91527},
 								run: (*parser).callonImageBlock126,
 								expr: &litMatcher{
-									pos:        position{line: 2901, col: 16, offset: 91525},
+									pos:        position{line: 2901, col: 16, offset: 91527},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -19799,32 +19799,32 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1315, col: 106, offset: 41173},
+							pos: position{line: 1315, col: 106, offset: 41175},
 							run: (*parser).callonImageBlock128,
 						},
 						&choiceExpr{
-							pos: position{line: 2898, col: 8, offset: 91401},
+							pos: position{line: 2898, col: 8, offset: 91403},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2885, col: 12, offset: 91174},
+									pos: position{line: 2885, col: 12, offset: 91176},
 									run: (*parser).callonImageBlock130,
 									expr: &choiceExpr{
-										pos: position{line: 2885, col: 13, offset: 91175},
+										pos: position{line: 2885, col: 13, offset: 91177},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2885, col: 13, offset: 91175},
+												pos:        position{line: 2885, col: 13, offset: 91177},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 20, offset: 91182},
+												pos:        position{line: 2885, col: 20, offset: 91184},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 29, offset: 91191},
+												pos:        position{line: 2885, col: 29, offset: 91193},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19833,9 +19833,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2895, col: 8, offset: 91351},
+									pos: position{line: 2895, col: 8, offset: 91353},
 									expr: &anyMatcher{
-										line: 2895, col: 9, offset: 91352,
+										line: 2895, col: 9, offset: 91354,
 									},
 								},
 							},
@@ -19846,74 +19846,74 @@ var g = &grammar{
 		},
 		{
 			name: "InlineImage",
-			pos:  position{line: 1320, col: 1, offset: 41413},
+			pos:  position{line: 1320, col: 1, offset: 41415},
 			expr: &actionExpr{
-				pos: position{line: 1320, col: 16, offset: 41428},
+				pos: position{line: 1320, col: 16, offset: 41430},
 				run: (*parser).callonInlineImage1,
 				expr: &seqExpr{
-					pos: position{line: 1320, col: 16, offset: 41428},
+					pos: position{line: 1320, col: 16, offset: 41430},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1320, col: 16, offset: 41428},
+							pos:        position{line: 1320, col: 16, offset: 41430},
 							val:        "image:",
 							ignoreCase: false,
 							want:       "\"image:\"",
 						},
 						&notExpr{
-							pos: position{line: 1320, col: 25, offset: 41437},
+							pos: position{line: 1320, col: 25, offset: 41439},
 							expr: &litMatcher{
-								pos:        position{line: 1320, col: 26, offset: 41438},
+								pos:        position{line: 1320, col: 26, offset: 41440},
 								val:        ":",
 								ignoreCase: false,
 								want:       "\":\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1320, col: 30, offset: 41442},
+							pos:   position{line: 1320, col: 30, offset: 41444},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2834, col: 13, offset: 89762},
+								pos: position{line: 2834, col: 13, offset: 89764},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2834, col: 13, offset: 89762},
+									pos: position{line: 2834, col: 13, offset: 89764},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2834, col: 13, offset: 89762},
+											pos:   position{line: 2834, col: 13, offset: 89764},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2834, col: 20, offset: 89769},
+												pos: position{line: 2834, col: 20, offset: 89771},
 												expr: &actionExpr{
-													pos: position{line: 2842, col: 11, offset: 90008},
+													pos: position{line: 2842, col: 11, offset: 90010},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2842, col: 12, offset: 90009},
+														pos: position{line: 2842, col: 12, offset: 90011},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2842, col: 12, offset: 90009},
+																pos:        position{line: 2842, col: 12, offset: 90011},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2842, col: 24, offset: 90021},
+																pos:        position{line: 2842, col: 24, offset: 90023},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2842, col: 37, offset: 90034},
+																pos:        position{line: 2842, col: 37, offset: 90036},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2842, col: 48, offset: 90045},
+																pos:        position{line: 2842, col: 48, offset: 90047},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2842, col: 59, offset: 90056},
+																pos:        position{line: 2842, col: 59, offset: 90058},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19924,38 +19924,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2834, col: 30, offset: 89779},
+											pos:   position{line: 2834, col: 30, offset: 89781},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2847, col: 5, offset: 90120},
+												pos: position{line: 2847, col: 5, offset: 90122},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2847, col: 5, offset: 90120},
+													pos:   position{line: 2847, col: 5, offset: 90122},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2847, col: 14, offset: 90129},
+														pos: position{line: 2847, col: 14, offset: 90131},
 														expr: &choiceExpr{
-															pos: position{line: 2848, col: 9, offset: 90139},
+															pos: position{line: 2848, col: 9, offset: 90141},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2848, col: 9, offset: 90139},
+																	pos: position{line: 2848, col: 9, offset: 90141},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2848, col: 9, offset: 90139},
+																		pos: position{line: 2848, col: 9, offset: 90141},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2848, col: 9, offset: 90139},
+																				pos: position{line: 2848, col: 9, offset: 90141},
 																				expr: &litMatcher{
-																					pos:        position{line: 2848, col: 10, offset: 90140},
+																					pos:        position{line: 2848, col: 10, offset: 90142},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2849, col: 9, offset: 90168},
+																				pos: position{line: 2849, col: 9, offset: 90170},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2849, col: 10, offset: 90169},
+																					pos:        position{line: 2849, col: 10, offset: 90171},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19966,27 +19966,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2852, col: 11, offset: 90381},
+																	pos: position{line: 2852, col: 11, offset: 90383},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2852, col: 11, offset: 90381},
+																			pos:        position{line: 2852, col: 11, offset: 90383},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2852, col: 19, offset: 90389},
+																			pos: position{line: 2852, col: 19, offset: 90391},
 																			expr: &seqExpr{
-																				pos: position{line: 2852, col: 21, offset: 90391},
+																				pos: position{line: 2852, col: 21, offset: 90393},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2852, col: 21, offset: 90391},
+																						pos: position{line: 2852, col: 21, offset: 90393},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 91003},
+																							pos: position{line: 2876, col: 10, offset: 91005},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 91003},
+																								pos:        position{line: 2876, col: 10, offset: 91005},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19995,11 +19995,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2852, col: 28, offset: 90398},
+																						pos: position{line: 2852, col: 28, offset: 90400},
 																						expr: &notExpr{
-																							pos: position{line: 2895, col: 8, offset: 91351},
+																							pos: position{line: 2895, col: 8, offset: 91353},
 																							expr: &anyMatcher{
-																								line: 2895, col: 9, offset: 91352,
+																								line: 2895, col: 9, offset: 91354,
 																							},
 																						},
 																					},
@@ -20180,28 +20180,28 @@ var g = &grammar{
 																										expr: &zeroOrOneExpr{
 																											pos: position{line: 657, col: 62, offset: 20835},
 																											expr: &actionExpr{
-																												pos: position{line: 665, col: 17, offset: 21130},
+																												pos: position{line: 665, col: 17, offset: 21132},
 																												run: (*parser).callonInlineImage75,
 																												expr: &seqExpr{
-																													pos: position{line: 665, col: 17, offset: 21130},
+																													pos: position{line: 665, col: 17, offset: 21132},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 665, col: 17, offset: 21130},
+																															pos:        position{line: 665, col: 17, offset: 21132},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 665, col: 21, offset: 21134},
+																															pos:   position{line: 665, col: 21, offset: 21136},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 665, col: 28, offset: 21141},
+																																pos: position{line: 665, col: 28, offset: 21143},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 665, col: 28, offset: 21141},
+																																		pos: position{line: 665, col: 28, offset: 21143},
 																																		run: (*parser).callonInlineImage80,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 665, col: 28, offset: 21141},
+																																			pos:        position{line: 665, col: 28, offset: 21143},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -20209,12 +20209,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 667, col: 9, offset: 21195},
+																																		pos: position{line: 667, col: 9, offset: 21197},
 																																		run: (*parser).callonInlineImage82,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 667, col: 9, offset: 21195},
+																																			pos: position{line: 667, col: 9, offset: 21197},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 667, col: 9, offset: 21195},
+																																				pos:        position{line: 667, col: 9, offset: 21197},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20289,28 +20289,28 @@ var g = &grammar{
 																										expr: &zeroOrOneExpr{
 																											pos: position{line: 661, col: 63, offset: 21007},
 																											expr: &actionExpr{
-																												pos: position{line: 665, col: 17, offset: 21130},
+																												pos: position{line: 665, col: 17, offset: 21132},
 																												run: (*parser).callonInlineImage97,
 																												expr: &seqExpr{
-																													pos: position{line: 665, col: 17, offset: 21130},
+																													pos: position{line: 665, col: 17, offset: 21132},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 665, col: 17, offset: 21130},
+																															pos:        position{line: 665, col: 17, offset: 21132},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 665, col: 21, offset: 21134},
+																															pos:   position{line: 665, col: 21, offset: 21136},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 665, col: 28, offset: 21141},
+																																pos: position{line: 665, col: 28, offset: 21143},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 665, col: 28, offset: 21141},
+																																		pos: position{line: 665, col: 28, offset: 21143},
 																																		run: (*parser).callonInlineImage102,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 665, col: 28, offset: 21141},
+																																			pos:        position{line: 665, col: 28, offset: 21143},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -20318,12 +20318,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 667, col: 9, offset: 21195},
+																																		pos: position{line: 667, col: 9, offset: 21197},
 																																		run: (*parser).callonInlineImage104,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 667, col: 9, offset: 21195},
+																																			pos: position{line: 667, col: 9, offset: 21197},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 667, col: 9, offset: 21195},
+																																				pos:        position{line: 667, col: 9, offset: 21197},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20355,27 +20355,27 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1197, col: 23, offset: 36984},
+																	pos: position{line: 1197, col: 23, offset: 36986},
 																	run: (*parser).callonInlineImage108,
 																	expr: &seqExpr{
-																		pos: position{line: 1197, col: 23, offset: 36984},
+																		pos: position{line: 1197, col: 23, offset: 36986},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1195, col: 32, offset: 36952},
+																				pos:        position{line: 1195, col: 32, offset: 36954},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1197, col: 51, offset: 37012},
+																				pos:   position{line: 1197, col: 51, offset: 37014},
 																				label: "ref",
 																				expr: &actionExpr{
-																					pos: position{line: 1197, col: 56, offset: 37017},
+																					pos: position{line: 1197, col: 56, offset: 37019},
 																					run: (*parser).callonInlineImage112,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1197, col: 56, offset: 37017},
+																						pos: position{line: 1197, col: 56, offset: 37019},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 1197, col: 56, offset: 37017},
+																							pos:        position{line: 1197, col: 56, offset: 37019},
 																							val:        "[0-9]",
 																							ranges:     []rune{'0', '9'},
 																							ignoreCase: false,
@@ -20385,23 +20385,23 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1195, col: 32, offset: 36952},
+																				pos:        position{line: 1195, col: 32, offset: 36954},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1198, col: 5, offset: 37089},
+																				pos: position{line: 1198, col: 5, offset: 37091},
 																				run: (*parser).callonInlineImage116,
 																			},
 																		},
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2855, col: 11, offset: 90518},
+																	pos: position{line: 2855, col: 11, offset: 90520},
 																	run: (*parser).callonInlineImage117,
 																	expr: &litMatcher{
-																		pos:        position{line: 2855, col: 11, offset: 90518},
+																		pos:        position{line: 2855, col: 11, offset: 90520},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20418,10 +20418,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1320, col: 46, offset: 41458},
+							pos:   position{line: 1320, col: 46, offset: 41460},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1320, col: 58, offset: 41470},
+								pos:  position{line: 1320, col: 58, offset: 41472},
 								name: "InlineAttributes",
 							},
 						},
@@ -20431,29 +20431,29 @@ var g = &grammar{
 		},
 		{
 			name: "InlineIcon",
-			pos:  position{line: 1327, col: 1, offset: 41866},
+			pos:  position{line: 1327, col: 1, offset: 41868},
 			expr: &actionExpr{
-				pos: position{line: 1327, col: 15, offset: 41880},
+				pos: position{line: 1327, col: 15, offset: 41882},
 				run: (*parser).callonInlineIcon1,
 				expr: &seqExpr{
-					pos: position{line: 1327, col: 15, offset: 41880},
+					pos: position{line: 1327, col: 15, offset: 41882},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1327, col: 15, offset: 41880},
+							pos:        position{line: 1327, col: 15, offset: 41882},
 							val:        "icon:",
 							ignoreCase: false,
 							want:       "\"icon:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1327, col: 23, offset: 41888},
+							pos:   position{line: 1327, col: 23, offset: 41890},
 							label: "icon",
 							expr: &actionExpr{
-								pos: position{line: 1327, col: 29, offset: 41894},
+								pos: position{line: 1327, col: 29, offset: 41896},
 								run: (*parser).callonInlineIcon5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1327, col: 29, offset: 41894},
+									pos: position{line: 1327, col: 29, offset: 41896},
 									expr: &charClassMatcher{
-										pos:        position{line: 1327, col: 29, offset: 41894},
+										pos:        position{line: 1327, col: 29, offset: 41896},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20464,10 +20464,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1327, col: 73, offset: 41938},
+							pos:   position{line: 1327, col: 73, offset: 41940},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1327, col: 85, offset: 41950},
+								pos:  position{line: 1327, col: 85, offset: 41952},
 								name: "InlineAttributes",
 							},
 						},
@@ -20477,31 +20477,31 @@ var g = &grammar{
 		},
 		{
 			name: "InlineFootnote",
-			pos:  position{line: 1334, col: 1, offset: 42316},
+			pos:  position{line: 1334, col: 1, offset: 42318},
 			expr: &actionExpr{
-				pos: position{line: 1334, col: 19, offset: 42334},
+				pos: position{line: 1334, col: 19, offset: 42336},
 				run: (*parser).callonInlineFootnote1,
 				expr: &seqExpr{
-					pos: position{line: 1334, col: 19, offset: 42334},
+					pos: position{line: 1334, col: 19, offset: 42336},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1334, col: 19, offset: 42334},
+							pos:        position{line: 1334, col: 19, offset: 42336},
 							val:        "footnote:",
 							ignoreCase: false,
 							want:       "\"footnote:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1334, col: 31, offset: 42346},
+							pos:   position{line: 1334, col: 31, offset: 42348},
 							label: "ref",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1334, col: 35, offset: 42350},
+								pos: position{line: 1334, col: 35, offset: 42352},
 								expr: &actionExpr{
-									pos: position{line: 1338, col: 16, offset: 42510},
+									pos: position{line: 1338, col: 16, offset: 42512},
 									run: (*parser).callonInlineFootnote6,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1338, col: 16, offset: 42510},
+										pos: position{line: 1338, col: 16, offset: 42512},
 										expr: &charClassMatcher{
-											pos:        position{line: 1338, col: 16, offset: 42510},
+											pos:        position{line: 1338, col: 16, offset: 42512},
 											val:        "[_-\\pL\\pN]",
 											chars:      []rune{'_', '-'},
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20513,21 +20513,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1334, col: 50, offset: 42365},
+							pos:        position{line: 1334, col: 50, offset: 42367},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1334, col: 54, offset: 42369},
+							pos:   position{line: 1334, col: 54, offset: 42371},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1334, col: 64, offset: 42379},
+								pos:  position{line: 1334, col: 64, offset: 42381},
 								name: "FootnoteElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1334, col: 82, offset: 42397},
+							pos:        position{line: 1334, col: 82, offset: 42399},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -20538,17 +20538,17 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElements",
-			pos:  position{line: 1340, col: 1, offset: 42554},
+			pos:  position{line: 1340, col: 1, offset: 42556},
 			expr: &actionExpr{
-				pos: position{line: 1340, col: 21, offset: 42574},
+				pos: position{line: 1340, col: 21, offset: 42576},
 				run: (*parser).callonFootnoteElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1340, col: 21, offset: 42574},
+					pos:   position{line: 1340, col: 21, offset: 42576},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1340, col: 30, offset: 42583},
+						pos: position{line: 1340, col: 30, offset: 42585},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1340, col: 31, offset: 42584},
+							pos:  position{line: 1340, col: 31, offset: 42586},
 							name: "FootnoteElement",
 						},
 					},
@@ -20557,44 +20557,44 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElement",
-			pos:  position{line: 1344, col: 1, offset: 42676},
+			pos:  position{line: 1344, col: 1, offset: 42678},
 			expr: &actionExpr{
-				pos: position{line: 1345, col: 5, offset: 42700},
+				pos: position{line: 1345, col: 5, offset: 42702},
 				run: (*parser).callonFootnoteElement1,
 				expr: &seqExpr{
-					pos: position{line: 1345, col: 5, offset: 42700},
+					pos: position{line: 1345, col: 5, offset: 42702},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1345, col: 5, offset: 42700},
+							pos: position{line: 1345, col: 5, offset: 42702},
 							expr: &litMatcher{
-								pos:        position{line: 1345, col: 6, offset: 42701},
+								pos:        position{line: 1345, col: 6, offset: 42703},
 								val:        "]",
 								ignoreCase: false,
 								want:       "\"]\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1346, col: 5, offset: 42710},
+							pos:   position{line: 1346, col: 5, offset: 42712},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1347, col: 9, offset: 42728},
+								pos: position{line: 1347, col: 9, offset: 42730},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2775, col: 5, offset: 88224},
+										pos: position{line: 2775, col: 5, offset: 88226},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2775, col: 5, offset: 88224},
+											pos: position{line: 2775, col: 5, offset: 88226},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2775, col: 5, offset: 88224},
+													pos:   position{line: 2775, col: 5, offset: 88226},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2775, col: 11, offset: 88230},
+														pos: position{line: 2775, col: 11, offset: 88232},
 														run: (*parser).callonFootnoteElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2775, col: 11, offset: 88230},
+															pos: position{line: 2775, col: 11, offset: 88232},
 															expr: &charClassMatcher{
-																pos:        position{line: 2775, col: 11, offset: 88230},
+																pos:        position{line: 2775, col: 11, offset: 88232},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -20604,44 +20604,44 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2778, col: 5, offset: 88288},
+													pos: position{line: 2778, col: 5, offset: 88290},
 													expr: &seqExpr{
-														pos: position{line: 2779, col: 9, offset: 88299},
+														pos: position{line: 2779, col: 9, offset: 88301},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2779, col: 9, offset: 88299},
+																pos:        position{line: 2779, col: 9, offset: 88301},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2780, col: 9, offset: 88348},
+																pos: position{line: 2780, col: 9, offset: 88350},
 																run: (*parser).callonFootnoteElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2784, col: 5, offset: 88428},
+													pos: position{line: 2784, col: 5, offset: 88430},
 													expr: &seqExpr{
-														pos: position{line: 2785, col: 9, offset: 88439},
+														pos: position{line: 2785, col: 9, offset: 88441},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2785, col: 9, offset: 88439},
+																pos: position{line: 2785, col: 9, offset: 88441},
 																expr: &seqExpr{
-																	pos: position{line: 2785, col: 10, offset: 88440},
+																	pos: position{line: 2785, col: 10, offset: 88442},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2785, col: 10, offset: 88440},
+																			pos:        position{line: 2785, col: 10, offset: 88442},
 																			val:        "[._%+-]",
 																			chars:      []rune{'.', '_', '%', '+', '-'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2785, col: 18, offset: 88448},
+																			pos: position{line: 2785, col: 18, offset: 88450},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2785, col: 18, offset: 88448},
+																				pos:        position{line: 2785, col: 18, offset: 88450},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -20652,13 +20652,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2785, col: 30, offset: 88460},
+																pos:        position{line: 2785, col: 30, offset: 88462},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2785, col: 34, offset: 88464},
+																pos:        position{line: 2785, col: 34, offset: 88466},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -20671,12 +20671,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2880, col: 11, offset: 91064},
+										pos: position{line: 2880, col: 11, offset: 91066},
 										run: (*parser).callonFootnoteElement26,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2880, col: 11, offset: 91064},
+											pos: position{line: 2880, col: 11, offset: 91066},
 											expr: &charClassMatcher{
-												pos:        position{line: 2880, col: 11, offset: 91064},
+												pos:        position{line: 2880, col: 11, offset: 91066},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -20685,25 +20685,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2501, col: 5, offset: 80606},
+										pos: position{line: 2501, col: 5, offset: 80608},
 										run: (*parser).callonFootnoteElement29,
 										expr: &seqExpr{
-											pos: position{line: 2501, col: 5, offset: 80606},
+											pos: position{line: 2501, col: 5, offset: 80608},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2501, col: 5, offset: 80606},
+													pos: position{line: 2501, col: 5, offset: 80608},
 													run: (*parser).callonFootnoteElement31,
 												},
 												&litMatcher{
-													pos:        position{line: 2504, col: 5, offset: 80677},
+													pos:        position{line: 2504, col: 5, offset: 80679},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2504, col: 10, offset: 80682},
+													pos: position{line: 2504, col: 10, offset: 80684},
 													expr: &charClassMatcher{
-														pos:        position{line: 2504, col: 11, offset: 80683},
+														pos:        position{line: 2504, col: 11, offset: 80685},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -20714,29 +20714,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2510, col: 5, offset: 80875},
+										pos: position{line: 2510, col: 5, offset: 80877},
 										run: (*parser).callonFootnoteElement35,
 										expr: &seqExpr{
-											pos: position{line: 2510, col: 5, offset: 80875},
+											pos: position{line: 2510, col: 5, offset: 80877},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2510, col: 5, offset: 80875},
+													pos: position{line: 2510, col: 5, offset: 80877},
 													run: (*parser).callonFootnoteElement37,
 												},
 												&andCodeExpr{
-													pos: position{line: 2513, col: 5, offset: 80946},
+													pos: position{line: 2513, col: 5, offset: 80948},
 													run: (*parser).callonFootnoteElement38,
 												},
 												&litMatcher{
-													pos:        position{line: 2517, col: 5, offset: 81071},
+													pos:        position{line: 2517, col: 5, offset: 81073},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2517, col: 9, offset: 81075},
+													pos: position{line: 2517, col: 9, offset: 81077},
 													expr: &charClassMatcher{
-														pos:        position{line: 2517, col: 10, offset: 81076},
+														pos:        position{line: 2517, col: 10, offset: 81078},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -20747,35 +20747,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1350, col: 11, offset: 42795},
+										pos:  position{line: 1350, col: 11, offset: 42797},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1351, col: 11, offset: 42811},
+										pos:  position{line: 1351, col: 11, offset: 42813},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2793, col: 5, offset: 88657},
+										pos: position{line: 2793, col: 5, offset: 88659},
 										run: (*parser).callonFootnoteElement44,
 										expr: &choiceExpr{
-											pos: position{line: 2794, col: 9, offset: 88667},
+											pos: position{line: 2794, col: 9, offset: 88669},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2794, col: 10, offset: 88668},
+													pos:        position{line: 2794, col: 10, offset: 88670},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2796, col: 13, offset: 88765},
+													pos: position{line: 2796, col: 13, offset: 88767},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2796, col: 13, offset: 88765},
+															pos: position{line: 2796, col: 13, offset: 88767},
 															run: (*parser).callonFootnoteElement48,
 														},
 														&litMatcher{
-															pos:        position{line: 2799, col: 13, offset: 88865},
+															pos:        position{line: 2799, col: 13, offset: 88867},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -20783,20 +20783,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2799, col: 19, offset: 88871},
+													pos:        position{line: 2799, col: 19, offset: 88873},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2802, col: 13, offset: 88909},
+													pos: position{line: 2802, col: 13, offset: 88911},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2802, col: 13, offset: 88909},
+															pos: position{line: 2802, col: 13, offset: 88911},
 															run: (*parser).callonFootnoteElement52,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2805, col: 14, offset: 89002},
+															pos:        position{line: 2805, col: 14, offset: 89004},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -20805,18 +20805,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2807, col: 12, offset: 89046},
+													pos: position{line: 2807, col: 12, offset: 89048},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2807, col: 12, offset: 89046},
+															pos:        position{line: 2807, col: 12, offset: 89048},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2807, col: 16, offset: 89050},
+															pos: position{line: 2807, col: 16, offset: 89052},
 															expr: &litMatcher{
-																pos:        position{line: 2807, col: 17, offset: 89051},
+																pos:        position{line: 2807, col: 17, offset: 89053},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -20828,36 +20828,36 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1353, col: 11, offset: 42884},
+										pos:  position{line: 1353, col: 11, offset: 42886},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 1209, col: 5, offset: 37533},
+										pos: position{line: 1209, col: 5, offset: 37535},
 										run: (*parser).callonFootnoteElement59,
 										expr: &seqExpr{
-											pos: position{line: 1209, col: 5, offset: 37533},
+											pos: position{line: 1209, col: 5, offset: 37535},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 1209, col: 5, offset: 37533},
+													pos: position{line: 1209, col: 5, offset: 37535},
 													run: (*parser).callonFootnoteElement61,
 												},
 												&litMatcher{
-													pos:        position{line: 1212, col: 5, offset: 37609},
+													pos:        position{line: 1212, col: 5, offset: 37611},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&andCodeExpr{
-													pos: position{line: 1213, col: 5, offset: 37617},
+													pos: position{line: 1213, col: 5, offset: 37619},
 													run: (*parser).callonFootnoteElement63,
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1217, col: 5, offset: 37704},
+													pos: position{line: 1217, col: 5, offset: 37706},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 91003},
+														pos: position{line: 2876, col: 10, offset: 91005},
 														run: (*parser).callonFootnoteElement65,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 91003},
+															pos:        position{line: 2876, col: 10, offset: 91005},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -20866,30 +20866,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 1217, col: 12, offset: 37711},
+													pos: position{line: 1217, col: 12, offset: 37713},
 													expr: &choiceExpr{
-														pos: position{line: 2898, col: 8, offset: 91401},
+														pos: position{line: 2898, col: 8, offset: 91403},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2885, col: 12, offset: 91174},
+																pos: position{line: 2885, col: 12, offset: 91176},
 																run: (*parser).callonFootnoteElement69,
 																expr: &choiceExpr{
-																	pos: position{line: 2885, col: 13, offset: 91175},
+																	pos: position{line: 2885, col: 13, offset: 91177},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 13, offset: 91175},
+																			pos:        position{line: 2885, col: 13, offset: 91177},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 20, offset: 91182},
+																			pos:        position{line: 2885, col: 20, offset: 91184},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 29, offset: 91191},
+																			pos:        position{line: 2885, col: 29, offset: 91193},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -20898,9 +20898,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91351},
+																pos: position{line: 2895, col: 8, offset: 91353},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91352,
+																	line: 2895, col: 9, offset: 91354,
 																},
 															},
 														},
@@ -21081,28 +21081,28 @@ var g = &grammar{
 																			expr: &zeroOrOneExpr{
 																				pos: position{line: 657, col: 62, offset: 20835},
 																				expr: &actionExpr{
-																					pos: position{line: 665, col: 17, offset: 21130},
+																					pos: position{line: 665, col: 17, offset: 21132},
 																					run: (*parser).callonFootnoteElement112,
 																					expr: &seqExpr{
-																						pos: position{line: 665, col: 17, offset: 21130},
+																						pos: position{line: 665, col: 17, offset: 21132},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 665, col: 17, offset: 21130},
+																								pos:        position{line: 665, col: 17, offset: 21132},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 665, col: 21, offset: 21134},
+																								pos:   position{line: 665, col: 21, offset: 21136},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 665, col: 28, offset: 21141},
+																									pos: position{line: 665, col: 28, offset: 21143},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 665, col: 28, offset: 21141},
+																											pos: position{line: 665, col: 28, offset: 21143},
 																											run: (*parser).callonFootnoteElement117,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 665, col: 28, offset: 21141},
+																												pos:        position{line: 665, col: 28, offset: 21143},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -21110,12 +21110,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 667, col: 9, offset: 21195},
+																											pos: position{line: 667, col: 9, offset: 21197},
 																											run: (*parser).callonFootnoteElement119,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 667, col: 9, offset: 21195},
+																												pos: position{line: 667, col: 9, offset: 21197},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 667, col: 9, offset: 21195},
+																													pos:        position{line: 667, col: 9, offset: 21197},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -21190,28 +21190,28 @@ var g = &grammar{
 																			expr: &zeroOrOneExpr{
 																				pos: position{line: 661, col: 63, offset: 21007},
 																				expr: &actionExpr{
-																					pos: position{line: 665, col: 17, offset: 21130},
+																					pos: position{line: 665, col: 17, offset: 21132},
 																					run: (*parser).callonFootnoteElement134,
 																					expr: &seqExpr{
-																						pos: position{line: 665, col: 17, offset: 21130},
+																						pos: position{line: 665, col: 17, offset: 21132},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 665, col: 17, offset: 21130},
+																								pos:        position{line: 665, col: 17, offset: 21132},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 665, col: 21, offset: 21134},
+																								pos:   position{line: 665, col: 21, offset: 21136},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 665, col: 28, offset: 21141},
+																									pos: position{line: 665, col: 28, offset: 21143},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 665, col: 28, offset: 21141},
+																											pos: position{line: 665, col: 28, offset: 21143},
 																											run: (*parser).callonFootnoteElement139,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 665, col: 28, offset: 21141},
+																												pos:        position{line: 665, col: 28, offset: 21143},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -21219,12 +21219,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 667, col: 9, offset: 21195},
+																											pos: position{line: 667, col: 9, offset: 21197},
 																											run: (*parser).callonFootnoteElement141,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 667, col: 9, offset: 21195},
+																												pos: position{line: 667, col: 9, offset: 21197},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 667, col: 9, offset: 21195},
+																													pos:        position{line: 667, col: 9, offset: 21197},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -21256,23 +21256,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2470, col: 5, offset: 79435},
+										pos: position{line: 2470, col: 5, offset: 79437},
 										run: (*parser).callonFootnoteElement145,
 										expr: &seqExpr{
-											pos: position{line: 2470, col: 5, offset: 79435},
+											pos: position{line: 2470, col: 5, offset: 79437},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2470, col: 5, offset: 79435},
+													pos: position{line: 2470, col: 5, offset: 79437},
 													run: (*parser).callonFootnoteElement147,
 												},
 												&labeledExpr{
-													pos:   position{line: 2473, col: 5, offset: 79511},
+													pos:   position{line: 2473, col: 5, offset: 79513},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2474, col: 9, offset: 79529},
+														pos: position{line: 2474, col: 9, offset: 79531},
 														run: (*parser).callonFootnoteElement149,
 														expr: &charClassMatcher{
-															pos:        position{line: 2474, col: 10, offset: 79530},
+															pos:        position{line: 2474, col: 10, offset: 79532},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -21284,25 +21284,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2885, col: 12, offset: 91174},
+										pos: position{line: 2885, col: 12, offset: 91176},
 										run: (*parser).callonFootnoteElement151,
 										expr: &choiceExpr{
-											pos: position{line: 2885, col: 13, offset: 91175},
+											pos: position{line: 2885, col: 13, offset: 91177},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2885, col: 13, offset: 91175},
+													pos:        position{line: 2885, col: 13, offset: 91177},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2885, col: 20, offset: 91182},
+													pos:        position{line: 2885, col: 20, offset: 91184},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2885, col: 29, offset: 91191},
+													pos:        position{line: 2885, col: 29, offset: 91193},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -21311,10 +21311,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2815, col: 12, offset: 89311},
+										pos: position{line: 2815, col: 12, offset: 89313},
 										run: (*parser).callonFootnoteElement156,
 										expr: &charClassMatcher{
-											pos:        position{line: 2815, col: 12, offset: 89311},
+											pos:        position{line: 2815, col: 12, offset: 89313},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -21330,32 +21330,32 @@ var g = &grammar{
 		},
 		{
 			name: "PassthroughMacro",
-			pos:  position{line: 1392, col: 1, offset: 44729},
+			pos:  position{line: 1392, col: 1, offset: 44731},
 			expr: &choiceExpr{
-				pos: position{line: 1392, col: 21, offset: 44749},
+				pos: position{line: 1392, col: 21, offset: 44751},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1392, col: 21, offset: 44749},
+						pos: position{line: 1392, col: 21, offset: 44751},
 						run: (*parser).callonPassthroughMacro2,
 						expr: &seqExpr{
-							pos: position{line: 1392, col: 21, offset: 44749},
+							pos: position{line: 1392, col: 21, offset: 44751},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1392, col: 21, offset: 44749},
+									pos:        position{line: 1392, col: 21, offset: 44751},
 									val:        "pass:[",
 									ignoreCase: false,
 									want:       "\"pass:[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1392, col: 30, offset: 44758},
+									pos:   position{line: 1392, col: 30, offset: 44760},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1392, col: 38, offset: 44766},
+										pos: position{line: 1392, col: 38, offset: 44768},
 										expr: &actionExpr{
-											pos: position{line: 1408, col: 30, offset: 45356},
+											pos: position{line: 1408, col: 30, offset: 45358},
 											run: (*parser).callonPassthroughMacro7,
 											expr: &charClassMatcher{
-												pos:        position{line: 1408, col: 30, offset: 45356},
+												pos:        position{line: 1408, col: 30, offset: 45358},
 												val:        "[^]]",
 												chars:      []rune{']'},
 												ignoreCase: false,
@@ -21365,7 +21365,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1392, col: 67, offset: 44795},
+									pos:        position{line: 1392, col: 67, offset: 44797},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -21374,34 +21374,34 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1394, col: 9, offset: 44899},
+						pos: position{line: 1394, col: 9, offset: 44901},
 						run: (*parser).callonPassthroughMacro10,
 						expr: &seqExpr{
-							pos: position{line: 1394, col: 9, offset: 44899},
+							pos: position{line: 1394, col: 9, offset: 44901},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 1398, col: 33, offset: 45105},
+									pos: position{line: 1398, col: 33, offset: 45107},
 									run: (*parser).callonPassthroughMacro12,
 									expr: &litMatcher{
-										pos:        position{line: 1398, col: 33, offset: 45105},
+										pos:        position{line: 1398, col: 33, offset: 45107},
 										val:        "pass:q[",
 										ignoreCase: false,
 										want:       "\"pass:q[\"",
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1394, col: 38, offset: 44928},
+									pos:   position{line: 1394, col: 38, offset: 44930},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1394, col: 46, offset: 44936},
+										pos: position{line: 1394, col: 46, offset: 44938},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1394, col: 47, offset: 44937},
+											pos:  position{line: 1394, col: 47, offset: 44939},
 											name: "PassthroughMacroQuotesElement",
 										},
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1394, col: 79, offset: 44969},
+									pos:        position{line: 1394, col: 79, offset: 44971},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -21414,25 +21414,25 @@ var g = &grammar{
 		},
 		{
 			name: "PassthroughMacroQuotesElement",
-			pos:  position{line: 1403, col: 1, offset: 45176},
+			pos:  position{line: 1403, col: 1, offset: 45178},
 			expr: &actionExpr{
-				pos: position{line: 1403, col: 34, offset: 45209},
+				pos: position{line: 1403, col: 34, offset: 45211},
 				run: (*parser).callonPassthroughMacroQuotesElement1,
 				expr: &labeledExpr{
-					pos:   position{line: 1403, col: 34, offset: 45209},
+					pos:   position{line: 1403, col: 34, offset: 45211},
 					label: "element",
 					expr: &choiceExpr{
-						pos: position{line: 1403, col: 43, offset: 45218},
+						pos: position{line: 1403, col: 43, offset: 45220},
 						alternatives: []interface{}{
 							&ruleRefExpr{
-								pos:  position{line: 1403, col: 43, offset: 45218},
+								pos:  position{line: 1403, col: 43, offset: 45220},
 								name: "QuotedText",
 							},
 							&actionExpr{
-								pos: position{line: 1408, col: 30, offset: 45356},
+								pos: position{line: 1408, col: 30, offset: 45358},
 								run: (*parser).callonPassthroughMacroQuotesElement5,
 								expr: &charClassMatcher{
-									pos:        position{line: 1408, col: 30, offset: 45356},
+									pos:        position{line: 1408, col: 30, offset: 45358},
 									val:        "[^]]",
 									chars:      []rune{']'},
 									ignoreCase: false,
@@ -21446,75 +21446,75 @@ var g = &grammar{
 		},
 		{
 			name: "Link",
-			pos:  position{line: 1415, col: 1, offset: 45612},
+			pos:  position{line: 1415, col: 1, offset: 45614},
 			expr: &choiceExpr{
-				pos: position{line: 1415, col: 9, offset: 45620},
+				pos: position{line: 1415, col: 9, offset: 45622},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1418, col: 5, offset: 45689},
+						pos: position{line: 1418, col: 5, offset: 45691},
 						run: (*parser).callonLink2,
 						expr: &seqExpr{
-							pos: position{line: 1418, col: 5, offset: 45689},
+							pos: position{line: 1418, col: 5, offset: 45691},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1418, col: 5, offset: 45689},
+									pos:        position{line: 1418, col: 5, offset: 45691},
 									val:        "<",
 									ignoreCase: false,
 									want:       "\"<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1419, col: 5, offset: 45698},
+									pos:   position{line: 1419, col: 5, offset: 45700},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2838, col: 23, offset: 89889},
+										pos: position{line: 2838, col: 23, offset: 89891},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2838, col: 23, offset: 89889},
+											pos: position{line: 2838, col: 23, offset: 89891},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2838, col: 23, offset: 89889},
+													pos: position{line: 2838, col: 23, offset: 89891},
 													expr: &litMatcher{
-														pos:        position{line: 2838, col: 24, offset: 89890},
+														pos:        position{line: 2838, col: 24, offset: 89892},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2838, col: 28, offset: 89894},
+													pos:   position{line: 2838, col: 28, offset: 89896},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2842, col: 11, offset: 90008},
+														pos: position{line: 2842, col: 11, offset: 90010},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2842, col: 12, offset: 90009},
+															pos: position{line: 2842, col: 12, offset: 90011},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2842, col: 12, offset: 90009},
+																	pos:        position{line: 2842, col: 12, offset: 90011},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2842, col: 24, offset: 90021},
+																	pos:        position{line: 2842, col: 24, offset: 90023},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2842, col: 37, offset: 90034},
+																	pos:        position{line: 2842, col: 37, offset: 90036},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2842, col: 48, offset: 90045},
+																	pos:        position{line: 2842, col: 48, offset: 90047},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2842, col: 59, offset: 90056},
+																	pos:        position{line: 2842, col: 59, offset: 90058},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -21524,38 +21524,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2838, col: 44, offset: 89910},
+													pos:   position{line: 2838, col: 44, offset: 89912},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2847, col: 5, offset: 90120},
+														pos: position{line: 2847, col: 5, offset: 90122},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2847, col: 5, offset: 90120},
+															pos:   position{line: 2847, col: 5, offset: 90122},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2847, col: 14, offset: 90129},
+																pos: position{line: 2847, col: 14, offset: 90131},
 																expr: &choiceExpr{
-																	pos: position{line: 2848, col: 9, offset: 90139},
+																	pos: position{line: 2848, col: 9, offset: 90141},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2848, col: 9, offset: 90139},
+																			pos: position{line: 2848, col: 9, offset: 90141},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2848, col: 9, offset: 90139},
+																				pos: position{line: 2848, col: 9, offset: 90141},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2848, col: 9, offset: 90139},
+																						pos: position{line: 2848, col: 9, offset: 90141},
 																						expr: &litMatcher{
-																							pos:        position{line: 2848, col: 10, offset: 90140},
+																							pos:        position{line: 2848, col: 10, offset: 90142},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2849, col: 9, offset: 90168},
+																						pos: position{line: 2849, col: 9, offset: 90170},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2849, col: 10, offset: 90169},
+																							pos:        position{line: 2849, col: 10, offset: 90171},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -21566,27 +21566,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2852, col: 11, offset: 90381},
+																			pos: position{line: 2852, col: 11, offset: 90383},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2852, col: 11, offset: 90381},
+																					pos:        position{line: 2852, col: 11, offset: 90383},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2852, col: 19, offset: 90389},
+																					pos: position{line: 2852, col: 19, offset: 90391},
 																					expr: &seqExpr{
-																						pos: position{line: 2852, col: 21, offset: 90391},
+																						pos: position{line: 2852, col: 21, offset: 90393},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2852, col: 21, offset: 90391},
+																								pos: position{line: 2852, col: 21, offset: 90393},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 91003},
+																									pos: position{line: 2876, col: 10, offset: 91005},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 91003},
+																										pos:        position{line: 2876, col: 10, offset: 91005},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -21595,11 +21595,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2852, col: 28, offset: 90398},
+																								pos: position{line: 2852, col: 28, offset: 90400},
 																								expr: &notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91351},
+																									pos: position{line: 2895, col: 8, offset: 91353},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91352,
+																										line: 2895, col: 9, offset: 91354,
 																									},
 																								},
 																							},
@@ -21780,28 +21780,28 @@ var g = &grammar{
 																												expr: &zeroOrOneExpr{
 																													pos: position{line: 657, col: 62, offset: 20835},
 																													expr: &actionExpr{
-																														pos: position{line: 665, col: 17, offset: 21130},
+																														pos: position{line: 665, col: 17, offset: 21132},
 																														run: (*parser).callonLink75,
 																														expr: &seqExpr{
-																															pos: position{line: 665, col: 17, offset: 21130},
+																															pos: position{line: 665, col: 17, offset: 21132},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 665, col: 17, offset: 21130},
+																																	pos:        position{line: 665, col: 17, offset: 21132},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 665, col: 21, offset: 21134},
+																																	pos:   position{line: 665, col: 21, offset: 21136},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 665, col: 28, offset: 21141},
+																																		pos: position{line: 665, col: 28, offset: 21143},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 665, col: 28, offset: 21141},
+																																				pos: position{line: 665, col: 28, offset: 21143},
 																																				run: (*parser).callonLink80,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 665, col: 28, offset: 21141},
+																																					pos:        position{line: 665, col: 28, offset: 21143},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -21809,12 +21809,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 667, col: 9, offset: 21195},
+																																				pos: position{line: 667, col: 9, offset: 21197},
 																																				run: (*parser).callonLink82,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 667, col: 9, offset: 21195},
+																																					pos: position{line: 667, col: 9, offset: 21197},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 667, col: 9, offset: 21195},
+																																						pos:        position{line: 667, col: 9, offset: 21197},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -21889,28 +21889,28 @@ var g = &grammar{
 																												expr: &zeroOrOneExpr{
 																													pos: position{line: 661, col: 63, offset: 21007},
 																													expr: &actionExpr{
-																														pos: position{line: 665, col: 17, offset: 21130},
+																														pos: position{line: 665, col: 17, offset: 21132},
 																														run: (*parser).callonLink97,
 																														expr: &seqExpr{
-																															pos: position{line: 665, col: 17, offset: 21130},
+																															pos: position{line: 665, col: 17, offset: 21132},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 665, col: 17, offset: 21130},
+																																	pos:        position{line: 665, col: 17, offset: 21132},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 665, col: 21, offset: 21134},
+																																	pos:   position{line: 665, col: 21, offset: 21136},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 665, col: 28, offset: 21141},
+																																		pos: position{line: 665, col: 28, offset: 21143},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 665, col: 28, offset: 21141},
+																																				pos: position{line: 665, col: 28, offset: 21143},
 																																				run: (*parser).callonLink102,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 665, col: 28, offset: 21141},
+																																					pos:        position{line: 665, col: 28, offset: 21143},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -21918,12 +21918,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 667, col: 9, offset: 21195},
+																																				pos: position{line: 667, col: 9, offset: 21197},
 																																				run: (*parser).callonLink104,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 667, col: 9, offset: 21195},
+																																					pos: position{line: 667, col: 9, offset: 21197},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 667, col: 9, offset: 21195},
+																																						pos:        position{line: 667, col: 9, offset: 21197},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -21955,27 +21955,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1197, col: 23, offset: 36984},
+																			pos: position{line: 1197, col: 23, offset: 36986},
 																			run: (*parser).callonLink108,
 																			expr: &seqExpr{
-																				pos: position{line: 1197, col: 23, offset: 36984},
+																				pos: position{line: 1197, col: 23, offset: 36986},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1195, col: 32, offset: 36952},
+																						pos:        position{line: 1195, col: 32, offset: 36954},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1197, col: 51, offset: 37012},
+																						pos:   position{line: 1197, col: 51, offset: 37014},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1197, col: 56, offset: 37017},
+																							pos: position{line: 1197, col: 56, offset: 37019},
 																							run: (*parser).callonLink112,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1197, col: 56, offset: 37017},
+																								pos: position{line: 1197, col: 56, offset: 37019},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1197, col: 56, offset: 37017},
+																									pos:        position{line: 1197, col: 56, offset: 37019},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -21985,23 +21985,23 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1195, col: 32, offset: 36952},
+																						pos:        position{line: 1195, col: 32, offset: 36954},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1198, col: 5, offset: 37089},
+																						pos: position{line: 1198, col: 5, offset: 37091},
 																						run: (*parser).callonLink116,
 																					},
 																				},
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2855, col: 11, offset: 90518},
+																			pos: position{line: 2855, col: 11, offset: 90520},
 																			run: (*parser).callonLink117,
 																			expr: &litMatcher{
-																				pos:        position{line: 2855, col: 11, offset: 90518},
+																				pos:        position{line: 2855, col: 11, offset: 90520},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22018,7 +22018,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1424, col: 5, offset: 45917},
+									pos:        position{line: 1424, col: 5, offset: 45919},
 									val:        ">",
 									ignoreCase: false,
 									want:       "\">\"",
@@ -22027,38 +22027,38 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1415, col: 19, offset: 45630},
+						pos:  position{line: 1415, col: 19, offset: 45632},
 						name: "RelativeLink",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1415, col: 34, offset: 45645},
+						pos:  position{line: 1415, col: 34, offset: 45647},
 						name: "ExternalLink",
 					},
 					&actionExpr{
-						pos: position{line: 1453, col: 17, offset: 46910},
+						pos: position{line: 1453, col: 17, offset: 46912},
 						run: (*parser).callonLink122,
 						expr: &seqExpr{
-							pos: position{line: 1453, col: 17, offset: 46910},
+							pos: position{line: 1453, col: 17, offset: 46912},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1453, col: 17, offset: 46910},
+									pos:   position{line: 1453, col: 17, offset: 46912},
 									label: "local",
 									expr: &actionExpr{
-										pos: position{line: 1458, col: 5, offset: 47075},
+										pos: position{line: 1458, col: 5, offset: 47077},
 										run: (*parser).callonLink125,
 										expr: &seqExpr{
-											pos: position{line: 1458, col: 5, offset: 47075},
+											pos: position{line: 1458, col: 5, offset: 47077},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1458, col: 5, offset: 47075},
+													pos:   position{line: 1458, col: 5, offset: 47077},
 													label: "local",
 													expr: &actionExpr{
-														pos: position{line: 1458, col: 12, offset: 47082},
+														pos: position{line: 1458, col: 12, offset: 47084},
 														run: (*parser).callonLink128,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1458, col: 12, offset: 47082},
+															pos: position{line: 1458, col: 12, offset: 47084},
 															expr: &charClassMatcher{
-																pos:        position{line: 1458, col: 12, offset: 47082},
+																pos:        position{line: 1458, col: 12, offset: 47084},
 																val:        "[!#$%&\\*=?^_`{|}~.+-/\\pL\\pN]",
 																chars:      []rune{'!', '#', '$', '%', '&', '\'', '*', '=', '?', '^', '_', '`', '{', '|', '}', '~', '.'},
 																ranges:     []rune{'+', '/'},
@@ -22070,7 +22070,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1461, col: 5, offset: 47166},
+													pos: position{line: 1461, col: 5, offset: 47168},
 													run: (*parser).callonLink131,
 												},
 											},
@@ -22078,24 +22078,24 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1453, col: 43, offset: 46936},
+									pos:        position{line: 1453, col: 43, offset: 46938},
 									val:        "@",
 									ignoreCase: false,
 									want:       "\"@\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1453, col: 47, offset: 46940},
+									pos:   position{line: 1453, col: 47, offset: 46942},
 									label: "domain",
 									expr: &actionExpr{
-										pos: position{line: 1471, col: 23, offset: 47517},
+										pos: position{line: 1471, col: 23, offset: 47519},
 										run: (*parser).callonLink134,
 										expr: &seqExpr{
-											pos: position{line: 1471, col: 23, offset: 47517},
+											pos: position{line: 1471, col: 23, offset: 47519},
 											exprs: []interface{}{
 												&oneOrMoreExpr{
-													pos: position{line: 1475, col: 28, offset: 47643},
+													pos: position{line: 1475, col: 28, offset: 47645},
 													expr: &charClassMatcher{
-														pos:        position{line: 1475, col: 28, offset: 47643},
+														pos:        position{line: 1475, col: 28, offset: 47645},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -22103,20 +22103,20 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1475, col: 38, offset: 47653},
+													pos: position{line: 1475, col: 38, offset: 47655},
 													expr: &seqExpr{
-														pos: position{line: 1475, col: 39, offset: 47654},
+														pos: position{line: 1475, col: 39, offset: 47656},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 1475, col: 39, offset: 47654},
+																pos:        position{line: 1475, col: 39, offset: 47656},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 															&oneOrMoreExpr{
-																pos: position{line: 1475, col: 43, offset: 47658},
+																pos: position{line: 1475, col: 43, offset: 47660},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1475, col: 43, offset: 47658},
+																	pos:        position{line: 1475, col: 43, offset: 47660},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -22127,20 +22127,20 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1471, col: 47, offset: 47541},
+													pos: position{line: 1471, col: 47, offset: 47543},
 													expr: &seqExpr{
-														pos: position{line: 1471, col: 48, offset: 47542},
+														pos: position{line: 1471, col: 48, offset: 47544},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 1471, col: 48, offset: 47542},
+																pos:        position{line: 1471, col: 48, offset: 47544},
 																val:        ".",
 																ignoreCase: false,
 																want:       "\".\"",
 															},
 															&oneOrMoreExpr{
-																pos: position{line: 1475, col: 28, offset: 47643},
+																pos: position{line: 1475, col: 28, offset: 47645},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1475, col: 28, offset: 47643},
+																	pos:        position{line: 1475, col: 28, offset: 47645},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -22148,20 +22148,20 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 1475, col: 38, offset: 47653},
+																pos: position{line: 1475, col: 38, offset: 47655},
 																expr: &seqExpr{
-																	pos: position{line: 1475, col: 39, offset: 47654},
+																	pos: position{line: 1475, col: 39, offset: 47656},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 1475, col: 39, offset: 47654},
+																			pos:        position{line: 1475, col: 39, offset: 47656},
 																			val:        "-",
 																			ignoreCase: false,
 																			want:       "\"-\"",
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 1475, col: 43, offset: 47658},
+																			pos: position{line: 1475, col: 43, offset: 47660},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1475, col: 43, offset: 47658},
+																				pos:        position{line: 1475, col: 43, offset: 47660},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -22186,68 +22186,68 @@ var g = &grammar{
 		},
 		{
 			name: "RelativeLink",
-			pos:  position{line: 1430, col: 1, offset: 46065},
+			pos:  position{line: 1430, col: 1, offset: 46067},
 			expr: &choiceExpr{
-				pos: position{line: 1432, col: 5, offset: 46101},
+				pos: position{line: 1432, col: 5, offset: 46103},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1432, col: 5, offset: 46101},
+						pos: position{line: 1432, col: 5, offset: 46103},
 						run: (*parser).callonRelativeLink2,
 						expr: &seqExpr{
-							pos: position{line: 1432, col: 5, offset: 46101},
+							pos: position{line: 1432, col: 5, offset: 46103},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1432, col: 5, offset: 46101},
+									pos:        position{line: 1432, col: 5, offset: 46103},
 									val:        "\\link:",
 									ignoreCase: false,
 									want:       "\"\\\\link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1432, col: 17, offset: 46113},
+									pos:   position{line: 1432, col: 17, offset: 46115},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2834, col: 13, offset: 89762},
+										pos: position{line: 2834, col: 13, offset: 89764},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2834, col: 13, offset: 89762},
+											pos: position{line: 2834, col: 13, offset: 89764},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2834, col: 13, offset: 89762},
+													pos:   position{line: 2834, col: 13, offset: 89764},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2834, col: 20, offset: 89769},
+														pos: position{line: 2834, col: 20, offset: 89771},
 														expr: &actionExpr{
-															pos: position{line: 2842, col: 11, offset: 90008},
+															pos: position{line: 2842, col: 11, offset: 90010},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2842, col: 12, offset: 90009},
+																pos: position{line: 2842, col: 12, offset: 90011},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2842, col: 12, offset: 90009},
+																		pos:        position{line: 2842, col: 12, offset: 90011},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2842, col: 24, offset: 90021},
+																		pos:        position{line: 2842, col: 24, offset: 90023},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2842, col: 37, offset: 90034},
+																		pos:        position{line: 2842, col: 37, offset: 90036},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2842, col: 48, offset: 90045},
+																		pos:        position{line: 2842, col: 48, offset: 90047},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2842, col: 59, offset: 90056},
+																		pos:        position{line: 2842, col: 59, offset: 90058},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22258,38 +22258,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2834, col: 30, offset: 89779},
+													pos:   position{line: 2834, col: 30, offset: 89781},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2847, col: 5, offset: 90120},
+														pos: position{line: 2847, col: 5, offset: 90122},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2847, col: 5, offset: 90120},
+															pos:   position{line: 2847, col: 5, offset: 90122},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2847, col: 14, offset: 90129},
+																pos: position{line: 2847, col: 14, offset: 90131},
 																expr: &choiceExpr{
-																	pos: position{line: 2848, col: 9, offset: 90139},
+																	pos: position{line: 2848, col: 9, offset: 90141},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2848, col: 9, offset: 90139},
+																			pos: position{line: 2848, col: 9, offset: 90141},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2848, col: 9, offset: 90139},
+																				pos: position{line: 2848, col: 9, offset: 90141},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2848, col: 9, offset: 90139},
+																						pos: position{line: 2848, col: 9, offset: 90141},
 																						expr: &litMatcher{
-																							pos:        position{line: 2848, col: 10, offset: 90140},
+																							pos:        position{line: 2848, col: 10, offset: 90142},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2849, col: 9, offset: 90168},
+																						pos: position{line: 2849, col: 9, offset: 90170},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2849, col: 10, offset: 90169},
+																							pos:        position{line: 2849, col: 10, offset: 90171},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22300,27 +22300,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2852, col: 11, offset: 90381},
+																			pos: position{line: 2852, col: 11, offset: 90383},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2852, col: 11, offset: 90381},
+																					pos:        position{line: 2852, col: 11, offset: 90383},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2852, col: 19, offset: 90389},
+																					pos: position{line: 2852, col: 19, offset: 90391},
 																					expr: &seqExpr{
-																						pos: position{line: 2852, col: 21, offset: 90391},
+																						pos: position{line: 2852, col: 21, offset: 90393},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2852, col: 21, offset: 90391},
+																								pos: position{line: 2852, col: 21, offset: 90393},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 91003},
+																									pos: position{line: 2876, col: 10, offset: 91005},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 91003},
+																										pos:        position{line: 2876, col: 10, offset: 91005},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22329,11 +22329,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2852, col: 28, offset: 90398},
+																								pos: position{line: 2852, col: 28, offset: 90400},
 																								expr: &notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91351},
+																									pos: position{line: 2895, col: 8, offset: 91353},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91352,
+																										line: 2895, col: 9, offset: 91354,
 																									},
 																								},
 																							},
@@ -22514,28 +22514,28 @@ var g = &grammar{
 																												expr: &zeroOrOneExpr{
 																													pos: position{line: 657, col: 62, offset: 20835},
 																													expr: &actionExpr{
-																														pos: position{line: 665, col: 17, offset: 21130},
+																														pos: position{line: 665, col: 17, offset: 21132},
 																														run: (*parser).callonRelativeLink74,
 																														expr: &seqExpr{
-																															pos: position{line: 665, col: 17, offset: 21130},
+																															pos: position{line: 665, col: 17, offset: 21132},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 665, col: 17, offset: 21130},
+																																	pos:        position{line: 665, col: 17, offset: 21132},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 665, col: 21, offset: 21134},
+																																	pos:   position{line: 665, col: 21, offset: 21136},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 665, col: 28, offset: 21141},
+																																		pos: position{line: 665, col: 28, offset: 21143},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 665, col: 28, offset: 21141},
+																																				pos: position{line: 665, col: 28, offset: 21143},
 																																				run: (*parser).callonRelativeLink79,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 665, col: 28, offset: 21141},
+																																					pos:        position{line: 665, col: 28, offset: 21143},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22543,12 +22543,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 667, col: 9, offset: 21195},
+																																				pos: position{line: 667, col: 9, offset: 21197},
 																																				run: (*parser).callonRelativeLink81,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 667, col: 9, offset: 21195},
+																																					pos: position{line: 667, col: 9, offset: 21197},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 667, col: 9, offset: 21195},
+																																						pos:        position{line: 667, col: 9, offset: 21197},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -22623,28 +22623,28 @@ var g = &grammar{
 																												expr: &zeroOrOneExpr{
 																													pos: position{line: 661, col: 63, offset: 21007},
 																													expr: &actionExpr{
-																														pos: position{line: 665, col: 17, offset: 21130},
+																														pos: position{line: 665, col: 17, offset: 21132},
 																														run: (*parser).callonRelativeLink96,
 																														expr: &seqExpr{
-																															pos: position{line: 665, col: 17, offset: 21130},
+																															pos: position{line: 665, col: 17, offset: 21132},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 665, col: 17, offset: 21130},
+																																	pos:        position{line: 665, col: 17, offset: 21132},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 665, col: 21, offset: 21134},
+																																	pos:   position{line: 665, col: 21, offset: 21136},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 665, col: 28, offset: 21141},
+																																		pos: position{line: 665, col: 28, offset: 21143},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 665, col: 28, offset: 21141},
+																																				pos: position{line: 665, col: 28, offset: 21143},
 																																				run: (*parser).callonRelativeLink101,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 665, col: 28, offset: 21141},
+																																					pos:        position{line: 665, col: 28, offset: 21143},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22652,12 +22652,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 667, col: 9, offset: 21195},
+																																				pos: position{line: 667, col: 9, offset: 21197},
 																																				run: (*parser).callonRelativeLink103,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 667, col: 9, offset: 21195},
+																																					pos: position{line: 667, col: 9, offset: 21197},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 667, col: 9, offset: 21195},
+																																						pos:        position{line: 667, col: 9, offset: 21197},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -22689,27 +22689,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1197, col: 23, offset: 36984},
+																			pos: position{line: 1197, col: 23, offset: 36986},
 																			run: (*parser).callonRelativeLink107,
 																			expr: &seqExpr{
-																				pos: position{line: 1197, col: 23, offset: 36984},
+																				pos: position{line: 1197, col: 23, offset: 36986},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1195, col: 32, offset: 36952},
+																						pos:        position{line: 1195, col: 32, offset: 36954},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1197, col: 51, offset: 37012},
+																						pos:   position{line: 1197, col: 51, offset: 37014},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1197, col: 56, offset: 37017},
+																							pos: position{line: 1197, col: 56, offset: 37019},
 																							run: (*parser).callonRelativeLink111,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1197, col: 56, offset: 37017},
+																								pos: position{line: 1197, col: 56, offset: 37019},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1197, col: 56, offset: 37017},
+																									pos:        position{line: 1197, col: 56, offset: 37019},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -22719,23 +22719,23 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1195, col: 32, offset: 36952},
+																						pos:        position{line: 1195, col: 32, offset: 36954},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1198, col: 5, offset: 37089},
+																						pos: position{line: 1198, col: 5, offset: 37091},
 																						run: (*parser).callonRelativeLink115,
 																					},
 																				},
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2855, col: 11, offset: 90518},
+																			pos: position{line: 2855, col: 11, offset: 90520},
 																			run: (*parser).callonRelativeLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2855, col: 11, offset: 90518},
+																				pos:        position{line: 2855, col: 11, offset: 90520},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22752,10 +22752,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1432, col: 32, offset: 46128},
+									pos:   position{line: 1432, col: 32, offset: 46130},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1432, col: 44, offset: 46140},
+										pos:  position{line: 1432, col: 44, offset: 46142},
 										name: "InlineAttributes",
 									},
 								},
@@ -22763,63 +22763,63 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1437, col: 5, offset: 46272},
+						pos: position{line: 1437, col: 5, offset: 46274},
 						run: (*parser).callonRelativeLink120,
 						expr: &seqExpr{
-							pos: position{line: 1437, col: 5, offset: 46272},
+							pos: position{line: 1437, col: 5, offset: 46274},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1437, col: 5, offset: 46272},
+									pos:        position{line: 1437, col: 5, offset: 46274},
 									val:        "link:",
 									ignoreCase: false,
 									want:       "\"link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1437, col: 13, offset: 46280},
+									pos:   position{line: 1437, col: 13, offset: 46282},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2834, col: 13, offset: 89762},
+										pos: position{line: 2834, col: 13, offset: 89764},
 										run: (*parser).callonRelativeLink124,
 										expr: &seqExpr{
-											pos: position{line: 2834, col: 13, offset: 89762},
+											pos: position{line: 2834, col: 13, offset: 89764},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2834, col: 13, offset: 89762},
+													pos:   position{line: 2834, col: 13, offset: 89764},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2834, col: 20, offset: 89769},
+														pos: position{line: 2834, col: 20, offset: 89771},
 														expr: &actionExpr{
-															pos: position{line: 2842, col: 11, offset: 90008},
+															pos: position{line: 2842, col: 11, offset: 90010},
 															run: (*parser).callonRelativeLink128,
 															expr: &choiceExpr{
-																pos: position{line: 2842, col: 12, offset: 90009},
+																pos: position{line: 2842, col: 12, offset: 90011},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2842, col: 12, offset: 90009},
+																		pos:        position{line: 2842, col: 12, offset: 90011},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2842, col: 24, offset: 90021},
+																		pos:        position{line: 2842, col: 24, offset: 90023},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2842, col: 37, offset: 90034},
+																		pos:        position{line: 2842, col: 37, offset: 90036},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2842, col: 48, offset: 90045},
+																		pos:        position{line: 2842, col: 48, offset: 90047},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2842, col: 59, offset: 90056},
+																		pos:        position{line: 2842, col: 59, offset: 90058},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22830,38 +22830,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2834, col: 30, offset: 89779},
+													pos:   position{line: 2834, col: 30, offset: 89781},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2847, col: 5, offset: 90120},
+														pos: position{line: 2847, col: 5, offset: 90122},
 														run: (*parser).callonRelativeLink136,
 														expr: &labeledExpr{
-															pos:   position{line: 2847, col: 5, offset: 90120},
+															pos:   position{line: 2847, col: 5, offset: 90122},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2847, col: 14, offset: 90129},
+																pos: position{line: 2847, col: 14, offset: 90131},
 																expr: &choiceExpr{
-																	pos: position{line: 2848, col: 9, offset: 90139},
+																	pos: position{line: 2848, col: 9, offset: 90141},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2848, col: 9, offset: 90139},
+																			pos: position{line: 2848, col: 9, offset: 90141},
 																			run: (*parser).callonRelativeLink140,
 																			expr: &seqExpr{
-																				pos: position{line: 2848, col: 9, offset: 90139},
+																				pos: position{line: 2848, col: 9, offset: 90141},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2848, col: 9, offset: 90139},
+																						pos: position{line: 2848, col: 9, offset: 90141},
 																						expr: &litMatcher{
-																							pos:        position{line: 2848, col: 10, offset: 90140},
+																							pos:        position{line: 2848, col: 10, offset: 90142},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2849, col: 9, offset: 90168},
+																						pos: position{line: 2849, col: 9, offset: 90170},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2849, col: 10, offset: 90169},
+																							pos:        position{line: 2849, col: 10, offset: 90171},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22872,27 +22872,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2852, col: 11, offset: 90381},
+																			pos: position{line: 2852, col: 11, offset: 90383},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2852, col: 11, offset: 90381},
+																					pos:        position{line: 2852, col: 11, offset: 90383},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2852, col: 19, offset: 90389},
+																					pos: position{line: 2852, col: 19, offset: 90391},
 																					expr: &seqExpr{
-																						pos: position{line: 2852, col: 21, offset: 90391},
+																						pos: position{line: 2852, col: 21, offset: 90393},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2852, col: 21, offset: 90391},
+																								pos: position{line: 2852, col: 21, offset: 90393},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 91003},
+																									pos: position{line: 2876, col: 10, offset: 91005},
 																									run: (*parser).callonRelativeLink151,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 91003},
+																										pos:        position{line: 2876, col: 10, offset: 91005},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22901,11 +22901,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2852, col: 28, offset: 90398},
+																								pos: position{line: 2852, col: 28, offset: 90400},
 																								expr: &notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91351},
+																									pos: position{line: 2895, col: 8, offset: 91353},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91352,
+																										line: 2895, col: 9, offset: 91354,
 																									},
 																								},
 																							},
@@ -23086,28 +23086,28 @@ var g = &grammar{
 																												expr: &zeroOrOneExpr{
 																													pos: position{line: 657, col: 62, offset: 20835},
 																													expr: &actionExpr{
-																														pos: position{line: 665, col: 17, offset: 21130},
+																														pos: position{line: 665, col: 17, offset: 21132},
 																														run: (*parser).callonRelativeLink192,
 																														expr: &seqExpr{
-																															pos: position{line: 665, col: 17, offset: 21130},
+																															pos: position{line: 665, col: 17, offset: 21132},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 665, col: 17, offset: 21130},
+																																	pos:        position{line: 665, col: 17, offset: 21132},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 665, col: 21, offset: 21134},
+																																	pos:   position{line: 665, col: 21, offset: 21136},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 665, col: 28, offset: 21141},
+																																		pos: position{line: 665, col: 28, offset: 21143},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 665, col: 28, offset: 21141},
+																																				pos: position{line: 665, col: 28, offset: 21143},
 																																				run: (*parser).callonRelativeLink197,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 665, col: 28, offset: 21141},
+																																					pos:        position{line: 665, col: 28, offset: 21143},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23115,12 +23115,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 667, col: 9, offset: 21195},
+																																				pos: position{line: 667, col: 9, offset: 21197},
 																																				run: (*parser).callonRelativeLink199,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 667, col: 9, offset: 21195},
+																																					pos: position{line: 667, col: 9, offset: 21197},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 667, col: 9, offset: 21195},
+																																						pos:        position{line: 667, col: 9, offset: 21197},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23195,28 +23195,28 @@ var g = &grammar{
 																												expr: &zeroOrOneExpr{
 																													pos: position{line: 661, col: 63, offset: 21007},
 																													expr: &actionExpr{
-																														pos: position{line: 665, col: 17, offset: 21130},
+																														pos: position{line: 665, col: 17, offset: 21132},
 																														run: (*parser).callonRelativeLink214,
 																														expr: &seqExpr{
-																															pos: position{line: 665, col: 17, offset: 21130},
+																															pos: position{line: 665, col: 17, offset: 21132},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 665, col: 17, offset: 21130},
+																																	pos:        position{line: 665, col: 17, offset: 21132},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 665, col: 21, offset: 21134},
+																																	pos:   position{line: 665, col: 21, offset: 21136},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 665, col: 28, offset: 21141},
+																																		pos: position{line: 665, col: 28, offset: 21143},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 665, col: 28, offset: 21141},
+																																				pos: position{line: 665, col: 28, offset: 21143},
 																																				run: (*parser).callonRelativeLink219,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 665, col: 28, offset: 21141},
+																																					pos:        position{line: 665, col: 28, offset: 21143},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23224,12 +23224,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 667, col: 9, offset: 21195},
+																																				pos: position{line: 667, col: 9, offset: 21197},
 																																				run: (*parser).callonRelativeLink221,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 667, col: 9, offset: 21195},
+																																					pos: position{line: 667, col: 9, offset: 21197},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 667, col: 9, offset: 21195},
+																																						pos:        position{line: 667, col: 9, offset: 21197},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23261,27 +23261,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1197, col: 23, offset: 36984},
+																			pos: position{line: 1197, col: 23, offset: 36986},
 																			run: (*parser).callonRelativeLink225,
 																			expr: &seqExpr{
-																				pos: position{line: 1197, col: 23, offset: 36984},
+																				pos: position{line: 1197, col: 23, offset: 36986},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1195, col: 32, offset: 36952},
+																						pos:        position{line: 1195, col: 32, offset: 36954},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1197, col: 51, offset: 37012},
+																						pos:   position{line: 1197, col: 51, offset: 37014},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1197, col: 56, offset: 37017},
+																							pos: position{line: 1197, col: 56, offset: 37019},
 																							run: (*parser).callonRelativeLink229,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1197, col: 56, offset: 37017},
+																								pos: position{line: 1197, col: 56, offset: 37019},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1197, col: 56, offset: 37017},
+																									pos:        position{line: 1197, col: 56, offset: 37019},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -23291,23 +23291,23 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1195, col: 32, offset: 36952},
+																						pos:        position{line: 1195, col: 32, offset: 36954},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1198, col: 5, offset: 37089},
+																						pos: position{line: 1198, col: 5, offset: 37091},
 																						run: (*parser).callonRelativeLink233,
 																					},
 																				},
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2855, col: 11, offset: 90518},
+																			pos: position{line: 2855, col: 11, offset: 90520},
 																			run: (*parser).callonRelativeLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2855, col: 11, offset: 90518},
+																				pos:        position{line: 2855, col: 11, offset: 90520},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23324,10 +23324,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1437, col: 28, offset: 46295},
+									pos:   position{line: 1437, col: 28, offset: 46297},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1437, col: 40, offset: 46307},
+										pos:  position{line: 1437, col: 40, offset: 46309},
 										name: "InlineAttributes",
 									},
 								},
@@ -23339,75 +23339,75 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalLink",
-			pos:  position{line: 1441, col: 1, offset: 46423},
+			pos:  position{line: 1441, col: 1, offset: 46425},
 			expr: &choiceExpr{
-				pos: position{line: 1444, col: 5, offset: 46585},
+				pos: position{line: 1444, col: 5, offset: 46587},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1444, col: 5, offset: 46585},
+						pos: position{line: 1444, col: 5, offset: 46587},
 						run: (*parser).callonExternalLink2,
 						expr: &seqExpr{
-							pos: position{line: 1444, col: 5, offset: 46585},
+							pos: position{line: 1444, col: 5, offset: 46587},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1444, col: 5, offset: 46585},
+									pos:        position{line: 1444, col: 5, offset: 46587},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1444, col: 9, offset: 46589},
+									pos:   position{line: 1444, col: 9, offset: 46591},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2838, col: 23, offset: 89889},
+										pos: position{line: 2838, col: 23, offset: 89891},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2838, col: 23, offset: 89889},
+											pos: position{line: 2838, col: 23, offset: 89891},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2838, col: 23, offset: 89889},
+													pos: position{line: 2838, col: 23, offset: 89891},
 													expr: &litMatcher{
-														pos:        position{line: 2838, col: 24, offset: 89890},
+														pos:        position{line: 2838, col: 24, offset: 89892},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2838, col: 28, offset: 89894},
+													pos:   position{line: 2838, col: 28, offset: 89896},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2842, col: 11, offset: 90008},
+														pos: position{line: 2842, col: 11, offset: 90010},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2842, col: 12, offset: 90009},
+															pos: position{line: 2842, col: 12, offset: 90011},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2842, col: 12, offset: 90009},
+																	pos:        position{line: 2842, col: 12, offset: 90011},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2842, col: 24, offset: 90021},
+																	pos:        position{line: 2842, col: 24, offset: 90023},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2842, col: 37, offset: 90034},
+																	pos:        position{line: 2842, col: 37, offset: 90036},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2842, col: 48, offset: 90045},
+																	pos:        position{line: 2842, col: 48, offset: 90047},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2842, col: 59, offset: 90056},
+																	pos:        position{line: 2842, col: 59, offset: 90058},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23417,38 +23417,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2838, col: 44, offset: 89910},
+													pos:   position{line: 2838, col: 44, offset: 89912},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2847, col: 5, offset: 90120},
+														pos: position{line: 2847, col: 5, offset: 90122},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2847, col: 5, offset: 90120},
+															pos:   position{line: 2847, col: 5, offset: 90122},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2847, col: 14, offset: 90129},
+																pos: position{line: 2847, col: 14, offset: 90131},
 																expr: &choiceExpr{
-																	pos: position{line: 2848, col: 9, offset: 90139},
+																	pos: position{line: 2848, col: 9, offset: 90141},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2848, col: 9, offset: 90139},
+																			pos: position{line: 2848, col: 9, offset: 90141},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2848, col: 9, offset: 90139},
+																				pos: position{line: 2848, col: 9, offset: 90141},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2848, col: 9, offset: 90139},
+																						pos: position{line: 2848, col: 9, offset: 90141},
 																						expr: &litMatcher{
-																							pos:        position{line: 2848, col: 10, offset: 90140},
+																							pos:        position{line: 2848, col: 10, offset: 90142},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2849, col: 9, offset: 90168},
+																						pos: position{line: 2849, col: 9, offset: 90170},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2849, col: 10, offset: 90169},
+																							pos:        position{line: 2849, col: 10, offset: 90171},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23459,27 +23459,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2852, col: 11, offset: 90381},
+																			pos: position{line: 2852, col: 11, offset: 90383},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2852, col: 11, offset: 90381},
+																					pos:        position{line: 2852, col: 11, offset: 90383},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2852, col: 19, offset: 90389},
+																					pos: position{line: 2852, col: 19, offset: 90391},
 																					expr: &seqExpr{
-																						pos: position{line: 2852, col: 21, offset: 90391},
+																						pos: position{line: 2852, col: 21, offset: 90393},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2852, col: 21, offset: 90391},
+																								pos: position{line: 2852, col: 21, offset: 90393},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 91003},
+																									pos: position{line: 2876, col: 10, offset: 91005},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 91003},
+																										pos:        position{line: 2876, col: 10, offset: 91005},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23488,11 +23488,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2852, col: 28, offset: 90398},
+																								pos: position{line: 2852, col: 28, offset: 90400},
 																								expr: &notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91351},
+																									pos: position{line: 2895, col: 8, offset: 91353},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91352,
+																										line: 2895, col: 9, offset: 91354,
 																									},
 																								},
 																							},
@@ -23673,28 +23673,28 @@ var g = &grammar{
 																												expr: &zeroOrOneExpr{
 																													pos: position{line: 657, col: 62, offset: 20835},
 																													expr: &actionExpr{
-																														pos: position{line: 665, col: 17, offset: 21130},
+																														pos: position{line: 665, col: 17, offset: 21132},
 																														run: (*parser).callonExternalLink75,
 																														expr: &seqExpr{
-																															pos: position{line: 665, col: 17, offset: 21130},
+																															pos: position{line: 665, col: 17, offset: 21132},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 665, col: 17, offset: 21130},
+																																	pos:        position{line: 665, col: 17, offset: 21132},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 665, col: 21, offset: 21134},
+																																	pos:   position{line: 665, col: 21, offset: 21136},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 665, col: 28, offset: 21141},
+																																		pos: position{line: 665, col: 28, offset: 21143},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 665, col: 28, offset: 21141},
+																																				pos: position{line: 665, col: 28, offset: 21143},
 																																				run: (*parser).callonExternalLink80,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 665, col: 28, offset: 21141},
+																																					pos:        position{line: 665, col: 28, offset: 21143},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23702,12 +23702,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 667, col: 9, offset: 21195},
+																																				pos: position{line: 667, col: 9, offset: 21197},
 																																				run: (*parser).callonExternalLink82,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 667, col: 9, offset: 21195},
+																																					pos: position{line: 667, col: 9, offset: 21197},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 667, col: 9, offset: 21195},
+																																						pos:        position{line: 667, col: 9, offset: 21197},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23782,28 +23782,28 @@ var g = &grammar{
 																												expr: &zeroOrOneExpr{
 																													pos: position{line: 661, col: 63, offset: 21007},
 																													expr: &actionExpr{
-																														pos: position{line: 665, col: 17, offset: 21130},
+																														pos: position{line: 665, col: 17, offset: 21132},
 																														run: (*parser).callonExternalLink97,
 																														expr: &seqExpr{
-																															pos: position{line: 665, col: 17, offset: 21130},
+																															pos: position{line: 665, col: 17, offset: 21132},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 665, col: 17, offset: 21130},
+																																	pos:        position{line: 665, col: 17, offset: 21132},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 665, col: 21, offset: 21134},
+																																	pos:   position{line: 665, col: 21, offset: 21136},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 665, col: 28, offset: 21141},
+																																		pos: position{line: 665, col: 28, offset: 21143},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 665, col: 28, offset: 21141},
+																																				pos: position{line: 665, col: 28, offset: 21143},
 																																				run: (*parser).callonExternalLink102,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 665, col: 28, offset: 21141},
+																																					pos:        position{line: 665, col: 28, offset: 21143},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23811,12 +23811,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 667, col: 9, offset: 21195},
+																																				pos: position{line: 667, col: 9, offset: 21197},
 																																				run: (*parser).callonExternalLink104,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 667, col: 9, offset: 21195},
+																																					pos: position{line: 667, col: 9, offset: 21197},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 667, col: 9, offset: 21195},
+																																						pos:        position{line: 667, col: 9, offset: 21197},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23848,27 +23848,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1197, col: 23, offset: 36984},
+																			pos: position{line: 1197, col: 23, offset: 36986},
 																			run: (*parser).callonExternalLink108,
 																			expr: &seqExpr{
-																				pos: position{line: 1197, col: 23, offset: 36984},
+																				pos: position{line: 1197, col: 23, offset: 36986},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1195, col: 32, offset: 36952},
+																						pos:        position{line: 1195, col: 32, offset: 36954},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1197, col: 51, offset: 37012},
+																						pos:   position{line: 1197, col: 51, offset: 37014},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1197, col: 56, offset: 37017},
+																							pos: position{line: 1197, col: 56, offset: 37019},
 																							run: (*parser).callonExternalLink112,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1197, col: 56, offset: 37017},
+																								pos: position{line: 1197, col: 56, offset: 37019},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1197, col: 56, offset: 37017},
+																									pos:        position{line: 1197, col: 56, offset: 37019},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -23878,23 +23878,23 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1195, col: 32, offset: 36952},
+																						pos:        position{line: 1195, col: 32, offset: 36954},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1198, col: 5, offset: 37089},
+																						pos: position{line: 1198, col: 5, offset: 37091},
 																						run: (*parser).callonExternalLink116,
 																					},
 																				},
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2855, col: 11, offset: 90518},
+																			pos: position{line: 2855, col: 11, offset: 90520},
 																			run: (*parser).callonExternalLink117,
 																			expr: &litMatcher{
-																				pos:        position{line: 2855, col: 11, offset: 90518},
+																				pos:        position{line: 2855, col: 11, offset: 90520},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23911,12 +23911,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1444, col: 34, offset: 46614},
+									pos:   position{line: 1444, col: 34, offset: 46616},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1444, col: 45, offset: 46625},
+										pos: position{line: 1444, col: 45, offset: 46627},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1444, col: 46, offset: 46626},
+											pos:  position{line: 1444, col: 46, offset: 46628},
 											name: "InlineAttributes",
 										},
 									},
@@ -23925,64 +23925,64 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1449, col: 5, offset: 46759},
+						pos: position{line: 1449, col: 5, offset: 46761},
 						run: (*parser).callonExternalLink122,
 						expr: &seqExpr{
-							pos: position{line: 1449, col: 5, offset: 46759},
+							pos: position{line: 1449, col: 5, offset: 46761},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1449, col: 5, offset: 46759},
+									pos:   position{line: 1449, col: 5, offset: 46761},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2838, col: 23, offset: 89889},
+										pos: position{line: 2838, col: 23, offset: 89891},
 										run: (*parser).callonExternalLink125,
 										expr: &seqExpr{
-											pos: position{line: 2838, col: 23, offset: 89889},
+											pos: position{line: 2838, col: 23, offset: 89891},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2838, col: 23, offset: 89889},
+													pos: position{line: 2838, col: 23, offset: 89891},
 													expr: &litMatcher{
-														pos:        position{line: 2838, col: 24, offset: 89890},
+														pos:        position{line: 2838, col: 24, offset: 89892},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2838, col: 28, offset: 89894},
+													pos:   position{line: 2838, col: 28, offset: 89896},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2842, col: 11, offset: 90008},
+														pos: position{line: 2842, col: 11, offset: 90010},
 														run: (*parser).callonExternalLink130,
 														expr: &choiceExpr{
-															pos: position{line: 2842, col: 12, offset: 90009},
+															pos: position{line: 2842, col: 12, offset: 90011},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2842, col: 12, offset: 90009},
+																	pos:        position{line: 2842, col: 12, offset: 90011},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2842, col: 24, offset: 90021},
+																	pos:        position{line: 2842, col: 24, offset: 90023},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2842, col: 37, offset: 90034},
+																	pos:        position{line: 2842, col: 37, offset: 90036},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2842, col: 48, offset: 90045},
+																	pos:        position{line: 2842, col: 48, offset: 90047},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2842, col: 59, offset: 90056},
+																	pos:        position{line: 2842, col: 59, offset: 90058},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23992,38 +23992,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2838, col: 44, offset: 89910},
+													pos:   position{line: 2838, col: 44, offset: 89912},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2847, col: 5, offset: 90120},
+														pos: position{line: 2847, col: 5, offset: 90122},
 														run: (*parser).callonExternalLink138,
 														expr: &labeledExpr{
-															pos:   position{line: 2847, col: 5, offset: 90120},
+															pos:   position{line: 2847, col: 5, offset: 90122},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2847, col: 14, offset: 90129},
+																pos: position{line: 2847, col: 14, offset: 90131},
 																expr: &choiceExpr{
-																	pos: position{line: 2848, col: 9, offset: 90139},
+																	pos: position{line: 2848, col: 9, offset: 90141},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2848, col: 9, offset: 90139},
+																			pos: position{line: 2848, col: 9, offset: 90141},
 																			run: (*parser).callonExternalLink142,
 																			expr: &seqExpr{
-																				pos: position{line: 2848, col: 9, offset: 90139},
+																				pos: position{line: 2848, col: 9, offset: 90141},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2848, col: 9, offset: 90139},
+																						pos: position{line: 2848, col: 9, offset: 90141},
 																						expr: &litMatcher{
-																							pos:        position{line: 2848, col: 10, offset: 90140},
+																							pos:        position{line: 2848, col: 10, offset: 90142},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2849, col: 9, offset: 90168},
+																						pos: position{line: 2849, col: 9, offset: 90170},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2849, col: 10, offset: 90169},
+																							pos:        position{line: 2849, col: 10, offset: 90171},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24034,27 +24034,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2852, col: 11, offset: 90381},
+																			pos: position{line: 2852, col: 11, offset: 90383},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2852, col: 11, offset: 90381},
+																					pos:        position{line: 2852, col: 11, offset: 90383},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2852, col: 19, offset: 90389},
+																					pos: position{line: 2852, col: 19, offset: 90391},
 																					expr: &seqExpr{
-																						pos: position{line: 2852, col: 21, offset: 90391},
+																						pos: position{line: 2852, col: 21, offset: 90393},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2852, col: 21, offset: 90391},
+																								pos: position{line: 2852, col: 21, offset: 90393},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 91003},
+																									pos: position{line: 2876, col: 10, offset: 91005},
 																									run: (*parser).callonExternalLink153,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 91003},
+																										pos:        position{line: 2876, col: 10, offset: 91005},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24063,11 +24063,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2852, col: 28, offset: 90398},
+																								pos: position{line: 2852, col: 28, offset: 90400},
 																								expr: &notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91351},
+																									pos: position{line: 2895, col: 8, offset: 91353},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91352,
+																										line: 2895, col: 9, offset: 91354,
 																									},
 																								},
 																							},
@@ -24248,28 +24248,28 @@ var g = &grammar{
 																												expr: &zeroOrOneExpr{
 																													pos: position{line: 657, col: 62, offset: 20835},
 																													expr: &actionExpr{
-																														pos: position{line: 665, col: 17, offset: 21130},
+																														pos: position{line: 665, col: 17, offset: 21132},
 																														run: (*parser).callonExternalLink194,
 																														expr: &seqExpr{
-																															pos: position{line: 665, col: 17, offset: 21130},
+																															pos: position{line: 665, col: 17, offset: 21132},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 665, col: 17, offset: 21130},
+																																	pos:        position{line: 665, col: 17, offset: 21132},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 665, col: 21, offset: 21134},
+																																	pos:   position{line: 665, col: 21, offset: 21136},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 665, col: 28, offset: 21141},
+																																		pos: position{line: 665, col: 28, offset: 21143},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 665, col: 28, offset: 21141},
+																																				pos: position{line: 665, col: 28, offset: 21143},
 																																				run: (*parser).callonExternalLink199,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 665, col: 28, offset: 21141},
+																																					pos:        position{line: 665, col: 28, offset: 21143},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24277,12 +24277,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 667, col: 9, offset: 21195},
+																																				pos: position{line: 667, col: 9, offset: 21197},
 																																				run: (*parser).callonExternalLink201,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 667, col: 9, offset: 21195},
+																																					pos: position{line: 667, col: 9, offset: 21197},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 667, col: 9, offset: 21195},
+																																						pos:        position{line: 667, col: 9, offset: 21197},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24357,28 +24357,28 @@ var g = &grammar{
 																												expr: &zeroOrOneExpr{
 																													pos: position{line: 661, col: 63, offset: 21007},
 																													expr: &actionExpr{
-																														pos: position{line: 665, col: 17, offset: 21130},
+																														pos: position{line: 665, col: 17, offset: 21132},
 																														run: (*parser).callonExternalLink216,
 																														expr: &seqExpr{
-																															pos: position{line: 665, col: 17, offset: 21130},
+																															pos: position{line: 665, col: 17, offset: 21132},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 665, col: 17, offset: 21130},
+																																	pos:        position{line: 665, col: 17, offset: 21132},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 665, col: 21, offset: 21134},
+																																	pos:   position{line: 665, col: 21, offset: 21136},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 665, col: 28, offset: 21141},
+																																		pos: position{line: 665, col: 28, offset: 21143},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 665, col: 28, offset: 21141},
+																																				pos: position{line: 665, col: 28, offset: 21143},
 																																				run: (*parser).callonExternalLink221,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 665, col: 28, offset: 21141},
+																																					pos:        position{line: 665, col: 28, offset: 21143},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24386,12 +24386,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 667, col: 9, offset: 21195},
+																																				pos: position{line: 667, col: 9, offset: 21197},
 																																				run: (*parser).callonExternalLink223,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 667, col: 9, offset: 21195},
+																																					pos: position{line: 667, col: 9, offset: 21197},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 667, col: 9, offset: 21195},
+																																						pos:        position{line: 667, col: 9, offset: 21197},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24423,27 +24423,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1197, col: 23, offset: 36984},
+																			pos: position{line: 1197, col: 23, offset: 36986},
 																			run: (*parser).callonExternalLink227,
 																			expr: &seqExpr{
-																				pos: position{line: 1197, col: 23, offset: 36984},
+																				pos: position{line: 1197, col: 23, offset: 36986},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1195, col: 32, offset: 36952},
+																						pos:        position{line: 1195, col: 32, offset: 36954},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1197, col: 51, offset: 37012},
+																						pos:   position{line: 1197, col: 51, offset: 37014},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1197, col: 56, offset: 37017},
+																							pos: position{line: 1197, col: 56, offset: 37019},
 																							run: (*parser).callonExternalLink231,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1197, col: 56, offset: 37017},
+																								pos: position{line: 1197, col: 56, offset: 37019},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1197, col: 56, offset: 37017},
+																									pos:        position{line: 1197, col: 56, offset: 37019},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -24453,23 +24453,23 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1195, col: 32, offset: 36952},
+																						pos:        position{line: 1195, col: 32, offset: 36954},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1198, col: 5, offset: 37089},
+																						pos: position{line: 1198, col: 5, offset: 37091},
 																						run: (*parser).callonExternalLink235,
 																					},
 																				},
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2855, col: 11, offset: 90518},
+																			pos: position{line: 2855, col: 11, offset: 90520},
 																			run: (*parser).callonExternalLink236,
 																			expr: &litMatcher{
-																				pos:        position{line: 2855, col: 11, offset: 90518},
+																				pos:        position{line: 2855, col: 11, offset: 90520},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24486,12 +24486,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1449, col: 30, offset: 46784},
+									pos:   position{line: 1449, col: 30, offset: 46786},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1449, col: 41, offset: 46795},
+										pos: position{line: 1449, col: 41, offset: 46797},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1449, col: 42, offset: 46796},
+											pos:  position{line: 1449, col: 42, offset: 46798},
 											name: "InlineAttributes",
 										},
 									},
@@ -24504,41 +24504,41 @@ var g = &grammar{
 		},
 		{
 			name: "ListElements",
-			pos:  position{line: 1480, col: 1, offset: 47926},
+			pos:  position{line: 1480, col: 1, offset: 47928},
 			expr: &actionExpr{
-				pos: position{line: 1481, col: 5, offset: 47947},
+				pos: position{line: 1481, col: 5, offset: 47949},
 				run: (*parser).callonListElements1,
 				expr: &seqExpr{
-					pos: position{line: 1481, col: 5, offset: 47947},
+					pos: position{line: 1481, col: 5, offset: 47949},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1481, col: 5, offset: 47947},
+							pos:   position{line: 1481, col: 5, offset: 47949},
 							label: "firstElement",
 							expr: &choiceExpr{
-								pos: position{line: 1487, col: 5, offset: 48149},
+								pos: position{line: 1487, col: 5, offset: 48151},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1580, col: 5, offset: 51083},
+										pos: position{line: 1580, col: 5, offset: 51085},
 										run: (*parser).callonListElements5,
 										expr: &seqExpr{
-											pos: position{line: 1580, col: 5, offset: 51083},
+											pos: position{line: 1580, col: 5, offset: 51085},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1580, col: 5, offset: 51083},
+													pos:   position{line: 1580, col: 5, offset: 51085},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1587, col: 5, offset: 51291},
+														pos: position{line: 1587, col: 5, offset: 51293},
 														run: (*parser).callonListElements8,
 														expr: &seqExpr{
-															pos: position{line: 1587, col: 5, offset: 51291},
+															pos: position{line: 1587, col: 5, offset: 51293},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1587, col: 5, offset: 51291},
+																	pos: position{line: 1587, col: 5, offset: 51293},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 91003},
+																		pos: position{line: 2876, col: 10, offset: 91005},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 91003},
+																			pos:        position{line: 2876, col: 10, offset: 91005},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24547,27 +24547,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1587, col: 12, offset: 51298},
+																	pos:   position{line: 1587, col: 12, offset: 51300},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1589, col: 9, offset: 51361},
+																		pos: position{line: 1589, col: 9, offset: 51363},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1589, col: 9, offset: 51361},
+																				pos: position{line: 1589, col: 9, offset: 51363},
 																				run: (*parser).callonListElements15,
 																				expr: &seqExpr{
-																					pos: position{line: 1589, col: 9, offset: 51361},
+																					pos: position{line: 1589, col: 9, offset: 51363},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1589, col: 9, offset: 51361},
+																							pos:   position{line: 1589, col: 9, offset: 51363},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1589, col: 16, offset: 51368},
+																								pos: position{line: 1589, col: 16, offset: 51370},
 																								run: (*parser).callonListElements18,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1589, col: 16, offset: 51368},
+																									pos: position{line: 1589, col: 16, offset: 51370},
 																									expr: &litMatcher{
-																										pos:        position{line: 1589, col: 17, offset: 51369},
+																										pos:        position{line: 1589, col: 17, offset: 51371},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -24576,22 +24576,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1593, col: 9, offset: 51469},
+																							pos: position{line: 1593, col: 9, offset: 51471},
 																							run: (*parser).callonListElements21,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1612, col: 11, offset: 52186},
+																				pos: position{line: 1612, col: 11, offset: 52188},
 																				run: (*parser).callonListElements22,
 																				expr: &seqExpr{
-																					pos: position{line: 1612, col: 11, offset: 52186},
+																					pos: position{line: 1612, col: 11, offset: 52188},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1612, col: 11, offset: 52186},
+																							pos: position{line: 1612, col: 11, offset: 52188},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1612, col: 12, offset: 52187},
+																								pos:        position{line: 1612, col: 12, offset: 52189},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -24599,7 +24599,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1612, col: 20, offset: 52195},
+																							pos:        position{line: 1612, col: 20, offset: 52197},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24608,20 +24608,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1614, col: 13, offset: 52312},
+																				pos: position{line: 1614, col: 13, offset: 52314},
 																				run: (*parser).callonListElements27,
 																				expr: &seqExpr{
-																					pos: position{line: 1614, col: 13, offset: 52312},
+																					pos: position{line: 1614, col: 13, offset: 52314},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1614, col: 14, offset: 52313},
+																							pos:        position{line: 1614, col: 14, offset: 52315},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1614, col: 21, offset: 52320},
+																							pos:        position{line: 1614, col: 21, offset: 52322},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24630,20 +24630,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1616, col: 13, offset: 52440},
+																				pos: position{line: 1616, col: 13, offset: 52442},
 																				run: (*parser).callonListElements31,
 																				expr: &seqExpr{
-																					pos: position{line: 1616, col: 13, offset: 52440},
+																					pos: position{line: 1616, col: 13, offset: 52442},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1616, col: 14, offset: 52441},
+																							pos:        position{line: 1616, col: 14, offset: 52443},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1616, col: 21, offset: 52448},
+																							pos:        position{line: 1616, col: 21, offset: 52450},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24652,15 +24652,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1618, col: 13, offset: 52568},
+																				pos: position{line: 1618, col: 13, offset: 52570},
 																				run: (*parser).callonListElements35,
 																				expr: &seqExpr{
-																					pos: position{line: 1618, col: 13, offset: 52568},
+																					pos: position{line: 1618, col: 13, offset: 52570},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1618, col: 13, offset: 52568},
+																							pos: position{line: 1618, col: 13, offset: 52570},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1618, col: 14, offset: 52569},
+																								pos:        position{line: 1618, col: 14, offset: 52571},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -24668,7 +24668,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1618, col: 26, offset: 52581},
+																							pos:        position{line: 1618, col: 26, offset: 52583},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -24677,15 +24677,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1620, col: 13, offset: 52701},
+																				pos: position{line: 1620, col: 13, offset: 52703},
 																				run: (*parser).callonListElements40,
 																				expr: &seqExpr{
-																					pos: position{line: 1620, col: 13, offset: 52701},
+																					pos: position{line: 1620, col: 13, offset: 52703},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1620, col: 13, offset: 52701},
+																							pos: position{line: 1620, col: 13, offset: 52703},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1620, col: 14, offset: 52702},
+																								pos:        position{line: 1620, col: 14, offset: 52704},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -24693,7 +24693,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1620, col: 26, offset: 52714},
+																							pos:        position{line: 1620, col: 26, offset: 52716},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -24705,12 +24705,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2880, col: 11, offset: 91064},
+																	pos: position{line: 2880, col: 11, offset: 91066},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2880, col: 11, offset: 91064},
+																		pos: position{line: 2880, col: 11, offset: 91066},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 11, offset: 91064},
+																			pos:        position{line: 2880, col: 11, offset: 91066},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24723,26 +24723,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1581, col: 5, offset: 51122},
+													pos:   position{line: 1581, col: 5, offset: 51124},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1528, col: 5, offset: 49589},
+														pos: position{line: 1528, col: 5, offset: 49591},
 														run: (*parser).callonListElements49,
 														expr: &seqExpr{
-															pos: position{line: 1528, col: 5, offset: 49589},
+															pos: position{line: 1528, col: 5, offset: 49591},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1528, col: 5, offset: 49589},
+																	pos:   position{line: 1528, col: 5, offset: 49591},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1528, col: 14, offset: 49598},
+																		pos: position{line: 1528, col: 14, offset: 49600},
 																		expr: &actionExpr{
-																			pos: position{line: 1528, col: 15, offset: 49599},
+																			pos: position{line: 1528, col: 15, offset: 49601},
 																			run: (*parser).callonListElements53,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1528, col: 15, offset: 49599},
+																				pos: position{line: 1528, col: 15, offset: 49601},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1528, col: 15, offset: 49599},
+																					pos:        position{line: 1528, col: 15, offset: 49601},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -24753,28 +24753,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91401},
+																	pos: position{line: 2898, col: 8, offset: 91403},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91174},
+																			pos: position{line: 2885, col: 12, offset: 91176},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91175},
+																				pos: position{line: 2885, col: 13, offset: 91177},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91175},
+																						pos:        position{line: 2885, col: 13, offset: 91177},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91182},
+																						pos:        position{line: 2885, col: 20, offset: 91184},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91191},
+																						pos:        position{line: 2885, col: 29, offset: 91193},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -24783,9 +24783,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91351},
+																			pos: position{line: 2895, col: 8, offset: 91353},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91352,
+																				line: 2895, col: 9, offset: 91354,
 																			},
 																		},
 																	},
@@ -24798,27 +24798,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1630, col: 5, offset: 52980},
+										pos: position{line: 1630, col: 5, offset: 52982},
 										run: (*parser).callonListElements64,
 										expr: &seqExpr{
-											pos: position{line: 1630, col: 5, offset: 52980},
+											pos: position{line: 1630, col: 5, offset: 52982},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1630, col: 5, offset: 52980},
+													pos:   position{line: 1630, col: 5, offset: 52982},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1637, col: 5, offset: 53253},
+														pos: position{line: 1637, col: 5, offset: 53255},
 														run: (*parser).callonListElements67,
 														expr: &seqExpr{
-															pos: position{line: 1637, col: 5, offset: 53253},
+															pos: position{line: 1637, col: 5, offset: 53255},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1637, col: 5, offset: 53253},
+																	pos: position{line: 1637, col: 5, offset: 53255},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 91003},
+																		pos: position{line: 2876, col: 10, offset: 91005},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 91003},
+																			pos:        position{line: 2876, col: 10, offset: 91005},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24827,24 +24827,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1638, col: 5, offset: 53265},
+																	pos:   position{line: 1638, col: 5, offset: 53267},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1639, col: 9, offset: 53281},
+																		pos: position{line: 1639, col: 9, offset: 53283},
 																		run: (*parser).callonListElements73,
 																		expr: &choiceExpr{
-																			pos: position{line: 1639, col: 10, offset: 53282},
+																			pos: position{line: 1639, col: 10, offset: 53284},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1639, col: 11, offset: 53283},
+																					pos:        position{line: 1639, col: 11, offset: 53285},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1639, col: 18, offset: 53290},
+																					pos: position{line: 1639, col: 18, offset: 53292},
 																					expr: &litMatcher{
-																						pos:        position{line: 1639, col: 19, offset: 53291},
+																						pos:        position{line: 1639, col: 19, offset: 53293},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -24855,16 +24855,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1642, col: 7, offset: 53381},
+																	pos: position{line: 1642, col: 7, offset: 53383},
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2880, col: 11, offset: 91064},
+																	pos: position{line: 2880, col: 11, offset: 91066},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2880, col: 11, offset: 91064},
+																		pos: position{line: 2880, col: 11, offset: 91066},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 11, offset: 91064},
+																			pos:        position{line: 2880, col: 11, offset: 91066},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24877,56 +24877,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1631, col: 5, offset: 53021},
+													pos:   position{line: 1631, col: 5, offset: 53023},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1631, col: 16, offset: 53032},
+														pos: position{line: 1631, col: 16, offset: 53034},
 														expr: &actionExpr{
-															pos: position{line: 1652, col: 5, offset: 53646},
+															pos: position{line: 1652, col: 5, offset: 53648},
 															run: (*parser).callonListElements84,
 															expr: &seqExpr{
-																pos: position{line: 1652, col: 5, offset: 53646},
+																pos: position{line: 1652, col: 5, offset: 53648},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1652, col: 5, offset: 53646},
+																		pos: position{line: 1652, col: 5, offset: 53648},
 																		expr: &litMatcher{
-																			pos:        position{line: 1652, col: 6, offset: 53647},
+																			pos:        position{line: 1652, col: 6, offset: 53649},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1652, col: 10, offset: 53651},
+																		pos:   position{line: 1652, col: 10, offset: 53653},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1653, col: 7, offset: 53665},
+																			pos: position{line: 1653, col: 7, offset: 53667},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1653, col: 7, offset: 53665},
+																					pos: position{line: 1653, col: 7, offset: 53667},
 																					run: (*parser).callonListElements90,
 																					expr: &litMatcher{
-																						pos:        position{line: 1653, col: 7, offset: 53665},
+																						pos:        position{line: 1653, col: 7, offset: 53667},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1654, col: 7, offset: 53710},
+																					pos: position{line: 1654, col: 7, offset: 53712},
 																					run: (*parser).callonListElements92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1654, col: 7, offset: 53710},
+																						pos:        position{line: 1654, col: 7, offset: 53712},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1655, col: 7, offset: 53753},
+																					pos: position{line: 1655, col: 7, offset: 53755},
 																					run: (*parser).callonListElements94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1655, col: 7, offset: 53753},
+																						pos:        position{line: 1655, col: 7, offset: 53755},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -24936,12 +24936,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2880, col: 11, offset: 91064},
+																		pos: position{line: 2880, col: 11, offset: 91066},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2880, col: 11, offset: 91064},
+																			pos: position{line: 2880, col: 11, offset: 91066},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2880, col: 11, offset: 91064},
+																				pos:        position{line: 2880, col: 11, offset: 91066},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -24955,26 +24955,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1632, col: 5, offset: 53071},
+													pos:   position{line: 1632, col: 5, offset: 53073},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1528, col: 5, offset: 49589},
+														pos: position{line: 1528, col: 5, offset: 49591},
 														run: (*parser).callonListElements100,
 														expr: &seqExpr{
-															pos: position{line: 1528, col: 5, offset: 49589},
+															pos: position{line: 1528, col: 5, offset: 49591},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1528, col: 5, offset: 49589},
+																	pos:   position{line: 1528, col: 5, offset: 49591},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1528, col: 14, offset: 49598},
+																		pos: position{line: 1528, col: 14, offset: 49600},
 																		expr: &actionExpr{
-																			pos: position{line: 1528, col: 15, offset: 49599},
+																			pos: position{line: 1528, col: 15, offset: 49601},
 																			run: (*parser).callonListElements104,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1528, col: 15, offset: 49599},
+																				pos: position{line: 1528, col: 15, offset: 49601},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1528, col: 15, offset: 49599},
+																					pos:        position{line: 1528, col: 15, offset: 49601},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -24985,28 +24985,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91401},
+																	pos: position{line: 2898, col: 8, offset: 91403},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91174},
+																			pos: position{line: 2885, col: 12, offset: 91176},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91175},
+																				pos: position{line: 2885, col: 13, offset: 91177},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91175},
+																						pos:        position{line: 2885, col: 13, offset: 91177},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91182},
+																						pos:        position{line: 2885, col: 20, offset: 91184},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91191},
+																						pos:        position{line: 2885, col: 29, offset: 91193},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25015,9 +25015,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91351},
+																			pos: position{line: 2895, col: 8, offset: 91353},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91352,
+																				line: 2895, col: 9, offset: 91354,
 																			},
 																		},
 																	},
@@ -25030,36 +25030,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1721, col: 5, offset: 55625},
+										pos: position{line: 1721, col: 5, offset: 55627},
 										run: (*parser).callonListElements115,
 										expr: &seqExpr{
-											pos: position{line: 1721, col: 5, offset: 55625},
+											pos: position{line: 1721, col: 5, offset: 55627},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1721, col: 5, offset: 55625},
+													pos:   position{line: 1721, col: 5, offset: 55627},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1727, col: 5, offset: 55822},
+														pos: position{line: 1727, col: 5, offset: 55824},
 														run: (*parser).callonListElements118,
 														expr: &seqExpr{
-															pos: position{line: 1727, col: 5, offset: 55822},
+															pos: position{line: 1727, col: 5, offset: 55824},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1727, col: 5, offset: 55822},
+																	pos:        position{line: 1727, col: 5, offset: 55824},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1727, col: 9, offset: 55826},
+																	pos:   position{line: 1727, col: 9, offset: 55828},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1727, col: 14, offset: 55831},
+																		pos: position{line: 1727, col: 14, offset: 55833},
 																		run: (*parser).callonListElements122,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1727, col: 14, offset: 55831},
+																			pos: position{line: 1727, col: 14, offset: 55833},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1727, col: 14, offset: 55831},
+																				pos:        position{line: 1727, col: 14, offset: 55833},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -25069,18 +25069,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1727, col: 62, offset: 55879},
+																	pos:        position{line: 1727, col: 62, offset: 55881},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2880, col: 11, offset: 91064},
+																	pos: position{line: 2880, col: 11, offset: 91066},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2880, col: 11, offset: 91064},
+																		pos: position{line: 2880, col: 11, offset: 91066},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 11, offset: 91064},
+																			pos:        position{line: 2880, col: 11, offset: 91066},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25093,26 +25093,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1722, col: 5, offset: 55661},
+													pos:   position{line: 1722, col: 5, offset: 55663},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1528, col: 5, offset: 49589},
+														pos: position{line: 1528, col: 5, offset: 49591},
 														run: (*parser).callonListElements130,
 														expr: &seqExpr{
-															pos: position{line: 1528, col: 5, offset: 49589},
+															pos: position{line: 1528, col: 5, offset: 49591},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1528, col: 5, offset: 49589},
+																	pos:   position{line: 1528, col: 5, offset: 49591},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1528, col: 14, offset: 49598},
+																		pos: position{line: 1528, col: 14, offset: 49600},
 																		expr: &actionExpr{
-																			pos: position{line: 1528, col: 15, offset: 49599},
+																			pos: position{line: 1528, col: 15, offset: 49601},
 																			run: (*parser).callonListElements134,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1528, col: 15, offset: 49599},
+																				pos: position{line: 1528, col: 15, offset: 49601},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1528, col: 15, offset: 49599},
+																					pos:        position{line: 1528, col: 15, offset: 49601},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25123,28 +25123,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91401},
+																	pos: position{line: 2898, col: 8, offset: 91403},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91174},
+																			pos: position{line: 2885, col: 12, offset: 91176},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91175},
+																				pos: position{line: 2885, col: 13, offset: 91177},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91175},
+																						pos:        position{line: 2885, col: 13, offset: 91177},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91182},
+																						pos:        position{line: 2885, col: 20, offset: 91184},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91191},
+																						pos:        position{line: 2885, col: 29, offset: 91193},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25153,9 +25153,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91351},
+																			pos: position{line: 2895, col: 8, offset: 91353},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91352,
+																				line: 2895, col: 9, offset: 91354,
 																			},
 																		},
 																	},
@@ -25168,35 +25168,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1664, col: 5, offset: 53946},
+										pos: position{line: 1664, col: 5, offset: 53948},
 										run: (*parser).callonListElements145,
 										expr: &seqExpr{
-											pos: position{line: 1664, col: 5, offset: 53946},
+											pos: position{line: 1664, col: 5, offset: 53948},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1664, col: 5, offset: 53946},
+													pos:   position{line: 1664, col: 5, offset: 53948},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1672, col: 5, offset: 54272},
+														pos: position{line: 1672, col: 5, offset: 54274},
 														run: (*parser).callonListElements148,
 														expr: &seqExpr{
-															pos: position{line: 1672, col: 5, offset: 54272},
+															pos: position{line: 1672, col: 5, offset: 54274},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1672, col: 5, offset: 54272},
+																	pos: position{line: 1672, col: 5, offset: 54274},
 																	expr: &seqExpr{
-																		pos: position{line: 2488, col: 31, offset: 80110},
+																		pos: position{line: 2488, col: 31, offset: 80112},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2488, col: 31, offset: 80110},
+																				pos:        position{line: 2488, col: 31, offset: 80112},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2488, col: 36, offset: 80115},
+																				pos: position{line: 2488, col: 36, offset: 80117},
 																				expr: &litMatcher{
-																					pos:        position{line: 2488, col: 37, offset: 80116},
+																					pos:        position{line: 2488, col: 37, offset: 80118},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
@@ -25206,28 +25206,28 @@ var g = &grammar{
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 1673, col: 5, offset: 54304},
+																	pos: position{line: 1673, col: 5, offset: 54306},
 																	expr: &seqExpr{
-																		pos: position{line: 1673, col: 6, offset: 54305},
+																		pos: position{line: 1673, col: 6, offset: 54307},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1673, col: 6, offset: 54305},
+																				pos: position{line: 1673, col: 6, offset: 54307},
 																				expr: &actionExpr{
-																					pos: position{line: 1678, col: 5, offset: 54455},
+																					pos: position{line: 1678, col: 5, offset: 54457},
 																					run: (*parser).callonListElements158,
 																					expr: &seqExpr{
-																						pos: position{line: 1678, col: 5, offset: 54455},
+																						pos: position{line: 1678, col: 5, offset: 54457},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1678, col: 5, offset: 54455},
+																								pos:   position{line: 1678, col: 5, offset: 54457},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1678, col: 16, offset: 54466},
+																									pos: position{line: 1678, col: 16, offset: 54468},
 																									run: (*parser).callonListElements161,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1678, col: 16, offset: 54466},
+																										pos: position{line: 1678, col: 16, offset: 54468},
 																										expr: &litMatcher{
-																											pos:        position{line: 1678, col: 17, offset: 54467},
+																											pos:        position{line: 1678, col: 17, offset: 54469},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -25236,7 +25236,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1681, col: 5, offset: 54524},
+																								pos: position{line: 1681, col: 5, offset: 54526},
 																								run: (*parser).callonListElements164,
 																							},
 																						},
@@ -25244,30 +25244,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1673, col: 35, offset: 54334},
+																				pos: position{line: 1673, col: 35, offset: 54336},
 																				expr: &choiceExpr{
-																					pos: position{line: 2898, col: 8, offset: 91401},
+																					pos: position{line: 2898, col: 8, offset: 91403},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2885, col: 12, offset: 91174},
+																							pos: position{line: 2885, col: 12, offset: 91176},
 																							run: (*parser).callonListElements167,
 																							expr: &choiceExpr{
-																								pos: position{line: 2885, col: 13, offset: 91175},
+																								pos: position{line: 2885, col: 13, offset: 91177},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 13, offset: 91175},
+																										pos:        position{line: 2885, col: 13, offset: 91177},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 20, offset: 91182},
+																										pos:        position{line: 2885, col: 20, offset: 91184},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 29, offset: 91191},
+																										pos:        position{line: 2885, col: 29, offset: 91193},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -25276,16 +25276,16 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2895, col: 8, offset: 91351},
+																							pos: position{line: 2895, col: 8, offset: 91353},
 																							expr: &anyMatcher{
-																								line: 2895, col: 9, offset: 91352,
+																								line: 2895, col: 9, offset: 91354,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1673, col: 40, offset: 54339,
+																				line: 1673, col: 40, offset: 54341,
 																			},
 																		},
 																	},
@@ -25295,24 +25295,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1665, col: 5, offset: 53981},
+													pos:   position{line: 1665, col: 5, offset: 53983},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1678, col: 5, offset: 54455},
+														pos: position{line: 1678, col: 5, offset: 54457},
 														run: (*parser).callonListElements176,
 														expr: &seqExpr{
-															pos: position{line: 1678, col: 5, offset: 54455},
+															pos: position{line: 1678, col: 5, offset: 54457},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1678, col: 5, offset: 54455},
+																	pos:   position{line: 1678, col: 5, offset: 54457},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1678, col: 16, offset: 54466},
+																		pos: position{line: 1678, col: 16, offset: 54468},
 																		run: (*parser).callonListElements179,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1678, col: 16, offset: 54466},
+																			pos: position{line: 1678, col: 16, offset: 54468},
 																			expr: &litMatcher{
-																				pos:        position{line: 1678, col: 17, offset: 54467},
+																				pos:        position{line: 1678, col: 17, offset: 54469},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -25321,7 +25321,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1681, col: 5, offset: 54524},
+																	pos: position{line: 1681, col: 5, offset: 54526},
 																	run: (*parser).callonListElements182,
 																},
 															},
@@ -25329,24 +25329,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1666, col: 5, offset: 54026},
+													pos:   position{line: 1666, col: 5, offset: 54028},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1689, col: 5, offset: 54773},
+														pos: position{line: 1689, col: 5, offset: 54775},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1691, col: 9, offset: 54839},
+																pos: position{line: 1691, col: 9, offset: 54841},
 																run: (*parser).callonListElements185,
 																expr: &seqExpr{
-																	pos: position{line: 1691, col: 9, offset: 54839},
+																	pos: position{line: 1691, col: 9, offset: 54841},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1691, col: 9, offset: 54839},
+																			pos: position{line: 1691, col: 9, offset: 54841},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 91003},
+																				pos: position{line: 2876, col: 10, offset: 91005},
 																				run: (*parser).callonListElements188,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 91003},
+																					pos:        position{line: 2876, col: 10, offset: 91005},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25355,28 +25355,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91401},
+																			pos: position{line: 2898, col: 8, offset: 91403},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91174},
+																					pos: position{line: 2885, col: 12, offset: 91176},
 																					run: (*parser).callonListElements191,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91175},
+																						pos: position{line: 2885, col: 13, offset: 91177},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91175},
+																								pos:        position{line: 2885, col: 13, offset: 91177},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91182},
+																								pos:        position{line: 2885, col: 20, offset: 91184},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91191},
+																								pos:        position{line: 2885, col: 29, offset: 91193},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25385,34 +25385,34 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91351},
+																					pos: position{line: 2895, col: 8, offset: 91353},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91352,
+																						line: 2895, col: 9, offset: 91354,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1692, col: 9, offset: 54858},
+																			pos: position{line: 1692, col: 9, offset: 54860},
 																			expr: &actionExpr{
-																				pos: position{line: 676, col: 14, offset: 21496},
+																				pos: position{line: 676, col: 14, offset: 21498},
 																				run: (*parser).callonListElements199,
 																				expr: &seqExpr{
-																					pos: position{line: 676, col: 14, offset: 21496},
+																					pos: position{line: 676, col: 14, offset: 21498},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2893, col: 11, offset: 91337},
+																							pos: position{line: 2893, col: 11, offset: 91339},
 																							expr: &anyMatcher{
-																								line: 2893, col: 13, offset: 91339,
+																								line: 2893, col: 13, offset: 91341,
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 676, col: 21, offset: 21503},
+																							pos: position{line: 676, col: 21, offset: 21505},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 91003},
+																								pos: position{line: 2876, col: 10, offset: 91005},
 																								run: (*parser).callonListElements204,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 91003},
+																									pos:        position{line: 2876, col: 10, offset: 91005},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25421,28 +25421,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91401},
+																							pos: position{line: 2898, col: 8, offset: 91403},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91174},
+																									pos: position{line: 2885, col: 12, offset: 91176},
 																									run: (*parser).callonListElements207,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91175},
+																										pos: position{line: 2885, col: 13, offset: 91177},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91175},
+																												pos:        position{line: 2885, col: 13, offset: 91177},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91182},
+																												pos:        position{line: 2885, col: 20, offset: 91184},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91191},
+																												pos:        position{line: 2885, col: 29, offset: 91193},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25451,9 +25451,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91351},
+																									pos: position{line: 2895, col: 8, offset: 91353},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91352,
+																										line: 2895, col: 9, offset: 91354,
 																									},
 																								},
 																							},
@@ -25466,18 +25466,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1698, col: 9, offset: 54987},
+																pos: position{line: 1698, col: 9, offset: 54989},
 																run: (*parser).callonListElements214,
 																expr: &seqExpr{
-																	pos: position{line: 1698, col: 9, offset: 54987},
+																	pos: position{line: 1698, col: 9, offset: 54989},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2880, col: 11, offset: 91064},
+																			pos: position{line: 2880, col: 11, offset: 91066},
 																			run: (*parser).callonListElements216,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2880, col: 11, offset: 91064},
+																				pos: position{line: 2880, col: 11, offset: 91066},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2880, col: 11, offset: 91064},
+																					pos:        position{line: 2880, col: 11, offset: 91066},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25486,15 +25486,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1699, col: 9, offset: 55060},
+																			pos:   position{line: 1699, col: 9, offset: 55062},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1699, col: 18, offset: 55069},
+																				pos: position{line: 1699, col: 18, offset: 55071},
 																				run: (*parser).callonListElements220,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1699, col: 18, offset: 55069},
+																					pos: position{line: 1699, col: 18, offset: 55071},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1699, col: 18, offset: 55069},
+																						pos:        position{line: 1699, col: 18, offset: 55071},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -25504,28 +25504,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91401},
+																			pos: position{line: 2898, col: 8, offset: 91403},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91174},
+																					pos: position{line: 2885, col: 12, offset: 91176},
 																					run: (*parser).callonListElements224,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91175},
+																						pos: position{line: 2885, col: 13, offset: 91177},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91175},
+																								pos:        position{line: 2885, col: 13, offset: 91177},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91182},
+																								pos:        position{line: 2885, col: 20, offset: 91184},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91191},
+																								pos:        position{line: 2885, col: 29, offset: 91193},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25534,9 +25534,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91351},
+																					pos: position{line: 2895, col: 8, offset: 91353},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91352,
+																						line: 2895, col: 9, offset: 91354,
 																					},
 																				},
 																			},
@@ -25554,10 +25554,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1482, col: 5, offset: 47978},
+							pos:   position{line: 1482, col: 5, offset: 47980},
 							label: "extraElements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1482, col: 20, offset: 47993},
+								pos:  position{line: 1482, col: 20, offset: 47995},
 								name: "ExtraListElements",
 							},
 						},
@@ -25567,17 +25567,17 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElements",
-			pos:  position{line: 1492, col: 1, offset: 48248},
+			pos:  position{line: 1492, col: 1, offset: 48250},
 			expr: &actionExpr{
-				pos: position{line: 1492, col: 22, offset: 48269},
+				pos: position{line: 1492, col: 22, offset: 48271},
 				run: (*parser).callonExtraListElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1492, col: 22, offset: 48269},
+					pos:   position{line: 1492, col: 22, offset: 48271},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1492, col: 31, offset: 48278},
+						pos: position{line: 1492, col: 31, offset: 48280},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1492, col: 32, offset: 48279},
+							pos:  position{line: 1492, col: 32, offset: 48281},
 							name: "ExtraListElement",
 						},
 					},
@@ -25586,52 +25586,52 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElement",
-			pos:  position{line: 1496, col: 1, offset: 48359},
+			pos:  position{line: 1496, col: 1, offset: 48361},
 			expr: &actionExpr{
-				pos: position{line: 1497, col: 5, offset: 48498},
+				pos: position{line: 1497, col: 5, offset: 48500},
 				run: (*parser).callonExtraListElement1,
 				expr: &seqExpr{
-					pos: position{line: 1497, col: 5, offset: 48498},
+					pos: position{line: 1497, col: 5, offset: 48500},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2893, col: 11, offset: 91337},
+							pos: position{line: 2893, col: 11, offset: 91339},
 							expr: &anyMatcher{
-								line: 2893, col: 13, offset: 91339,
+								line: 2893, col: 13, offset: 91341,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1498, col: 5, offset: 48510},
+							pos:   position{line: 1498, col: 5, offset: 48512},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1499, col: 9, offset: 48528},
+								pos: position{line: 1499, col: 9, offset: 48530},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1499, col: 13, offset: 48532},
+										pos: position{line: 1499, col: 13, offset: 48534},
 										run: (*parser).callonExtraListElement7,
 										expr: &seqExpr{
-											pos: position{line: 1499, col: 13, offset: 48532},
+											pos: position{line: 1499, col: 13, offset: 48534},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 1499, col: 13, offset: 48532},
+													pos: position{line: 1499, col: 13, offset: 48534},
 													expr: &actionExpr{
-														pos: position{line: 676, col: 14, offset: 21496},
+														pos: position{line: 676, col: 14, offset: 21498},
 														run: (*parser).callonExtraListElement10,
 														expr: &seqExpr{
-															pos: position{line: 676, col: 14, offset: 21496},
+															pos: position{line: 676, col: 14, offset: 21498},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2893, col: 11, offset: 91337},
+																	pos: position{line: 2893, col: 11, offset: 91339},
 																	expr: &anyMatcher{
-																		line: 2893, col: 13, offset: 91339,
+																		line: 2893, col: 13, offset: 91341,
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 676, col: 21, offset: 21503},
+																	pos: position{line: 676, col: 21, offset: 21505},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 91003},
+																		pos: position{line: 2876, col: 10, offset: 91005},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 91003},
+																			pos:        position{line: 2876, col: 10, offset: 91005},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25640,28 +25640,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91401},
+																	pos: position{line: 2898, col: 8, offset: 91403},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91174},
+																			pos: position{line: 2885, col: 12, offset: 91176},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91175},
+																				pos: position{line: 2885, col: 13, offset: 91177},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91175},
+																						pos:        position{line: 2885, col: 13, offset: 91177},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91182},
+																						pos:        position{line: 2885, col: 20, offset: 91184},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91191},
+																						pos:        position{line: 2885, col: 29, offset: 91193},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25670,9 +25670,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91351},
+																			pos: position{line: 2895, col: 8, offset: 91353},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91352,
+																				line: 2895, col: 9, offset: 91354,
 																			},
 																		},
 																	},
@@ -25682,33 +25682,33 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1500, col: 13, offset: 48556},
+													pos:   position{line: 1500, col: 13, offset: 48558},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1500, col: 22, offset: 48565},
+														pos: position{line: 1500, col: 22, offset: 48567},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1580, col: 5, offset: 51083},
+																pos: position{line: 1580, col: 5, offset: 51085},
 																run: (*parser).callonExtraListElement27,
 																expr: &seqExpr{
-																	pos: position{line: 1580, col: 5, offset: 51083},
+																	pos: position{line: 1580, col: 5, offset: 51085},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1580, col: 5, offset: 51083},
+																			pos:   position{line: 1580, col: 5, offset: 51085},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1587, col: 5, offset: 51291},
+																				pos: position{line: 1587, col: 5, offset: 51293},
 																				run: (*parser).callonExtraListElement30,
 																				expr: &seqExpr{
-																					pos: position{line: 1587, col: 5, offset: 51291},
+																					pos: position{line: 1587, col: 5, offset: 51293},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1587, col: 5, offset: 51291},
+																							pos: position{line: 1587, col: 5, offset: 51293},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 91003},
+																								pos: position{line: 2876, col: 10, offset: 91005},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 91003},
+																									pos:        position{line: 2876, col: 10, offset: 91005},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25717,27 +25717,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1587, col: 12, offset: 51298},
+																							pos:   position{line: 1587, col: 12, offset: 51300},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1589, col: 9, offset: 51361},
+																								pos: position{line: 1589, col: 9, offset: 51363},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1589, col: 9, offset: 51361},
+																										pos: position{line: 1589, col: 9, offset: 51363},
 																										run: (*parser).callonExtraListElement37,
 																										expr: &seqExpr{
-																											pos: position{line: 1589, col: 9, offset: 51361},
+																											pos: position{line: 1589, col: 9, offset: 51363},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1589, col: 9, offset: 51361},
+																													pos:   position{line: 1589, col: 9, offset: 51363},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1589, col: 16, offset: 51368},
+																														pos: position{line: 1589, col: 16, offset: 51370},
 																														run: (*parser).callonExtraListElement40,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1589, col: 16, offset: 51368},
+																															pos: position{line: 1589, col: 16, offset: 51370},
 																															expr: &litMatcher{
-																																pos:        position{line: 1589, col: 17, offset: 51369},
+																																pos:        position{line: 1589, col: 17, offset: 51371},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -25746,22 +25746,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1593, col: 9, offset: 51469},
+																													pos: position{line: 1593, col: 9, offset: 51471},
 																													run: (*parser).callonExtraListElement43,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1612, col: 11, offset: 52186},
+																										pos: position{line: 1612, col: 11, offset: 52188},
 																										run: (*parser).callonExtraListElement44,
 																										expr: &seqExpr{
-																											pos: position{line: 1612, col: 11, offset: 52186},
+																											pos: position{line: 1612, col: 11, offset: 52188},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1612, col: 11, offset: 52186},
+																													pos: position{line: 1612, col: 11, offset: 52188},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1612, col: 12, offset: 52187},
+																														pos:        position{line: 1612, col: 12, offset: 52189},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -25769,7 +25769,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1612, col: 20, offset: 52195},
+																													pos:        position{line: 1612, col: 20, offset: 52197},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -25778,20 +25778,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1614, col: 13, offset: 52312},
+																										pos: position{line: 1614, col: 13, offset: 52314},
 																										run: (*parser).callonExtraListElement49,
 																										expr: &seqExpr{
-																											pos: position{line: 1614, col: 13, offset: 52312},
+																											pos: position{line: 1614, col: 13, offset: 52314},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1614, col: 14, offset: 52313},
+																													pos:        position{line: 1614, col: 14, offset: 52315},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1614, col: 21, offset: 52320},
+																													pos:        position{line: 1614, col: 21, offset: 52322},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -25800,20 +25800,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1616, col: 13, offset: 52440},
+																										pos: position{line: 1616, col: 13, offset: 52442},
 																										run: (*parser).callonExtraListElement53,
 																										expr: &seqExpr{
-																											pos: position{line: 1616, col: 13, offset: 52440},
+																											pos: position{line: 1616, col: 13, offset: 52442},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1616, col: 14, offset: 52441},
+																													pos:        position{line: 1616, col: 14, offset: 52443},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1616, col: 21, offset: 52448},
+																													pos:        position{line: 1616, col: 21, offset: 52450},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -25822,15 +25822,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1618, col: 13, offset: 52568},
+																										pos: position{line: 1618, col: 13, offset: 52570},
 																										run: (*parser).callonExtraListElement57,
 																										expr: &seqExpr{
-																											pos: position{line: 1618, col: 13, offset: 52568},
+																											pos: position{line: 1618, col: 13, offset: 52570},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1618, col: 13, offset: 52568},
+																													pos: position{line: 1618, col: 13, offset: 52570},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1618, col: 14, offset: 52569},
+																														pos:        position{line: 1618, col: 14, offset: 52571},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -25838,7 +25838,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1618, col: 26, offset: 52581},
+																													pos:        position{line: 1618, col: 26, offset: 52583},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -25847,15 +25847,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1620, col: 13, offset: 52701},
+																										pos: position{line: 1620, col: 13, offset: 52703},
 																										run: (*parser).callonExtraListElement62,
 																										expr: &seqExpr{
-																											pos: position{line: 1620, col: 13, offset: 52701},
+																											pos: position{line: 1620, col: 13, offset: 52703},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1620, col: 13, offset: 52701},
+																													pos: position{line: 1620, col: 13, offset: 52703},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1620, col: 14, offset: 52702},
+																														pos:        position{line: 1620, col: 14, offset: 52704},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -25863,7 +25863,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1620, col: 26, offset: 52714},
+																													pos:        position{line: 1620, col: 26, offset: 52716},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -25875,12 +25875,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2880, col: 11, offset: 91064},
+																							pos: position{line: 2880, col: 11, offset: 91066},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2880, col: 11, offset: 91064},
+																								pos: position{line: 2880, col: 11, offset: 91066},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 11, offset: 91064},
+																									pos:        position{line: 2880, col: 11, offset: 91066},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25893,26 +25893,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1581, col: 5, offset: 51122},
+																			pos:   position{line: 1581, col: 5, offset: 51124},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1528, col: 5, offset: 49589},
+																				pos: position{line: 1528, col: 5, offset: 49591},
 																				run: (*parser).callonExtraListElement71,
 																				expr: &seqExpr{
-																					pos: position{line: 1528, col: 5, offset: 49589},
+																					pos: position{line: 1528, col: 5, offset: 49591},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1528, col: 5, offset: 49589},
+																							pos:   position{line: 1528, col: 5, offset: 49591},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1528, col: 14, offset: 49598},
+																								pos: position{line: 1528, col: 14, offset: 49600},
 																								expr: &actionExpr{
-																									pos: position{line: 1528, col: 15, offset: 49599},
+																									pos: position{line: 1528, col: 15, offset: 49601},
 																									run: (*parser).callonExtraListElement75,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1528, col: 15, offset: 49599},
+																										pos: position{line: 1528, col: 15, offset: 49601},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1528, col: 15, offset: 49599},
+																											pos:        position{line: 1528, col: 15, offset: 49601},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -25923,28 +25923,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91401},
+																							pos: position{line: 2898, col: 8, offset: 91403},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91174},
+																									pos: position{line: 2885, col: 12, offset: 91176},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91175},
+																										pos: position{line: 2885, col: 13, offset: 91177},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91175},
+																												pos:        position{line: 2885, col: 13, offset: 91177},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91182},
+																												pos:        position{line: 2885, col: 20, offset: 91184},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91191},
+																												pos:        position{line: 2885, col: 29, offset: 91193},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25953,9 +25953,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91351},
+																									pos: position{line: 2895, col: 8, offset: 91353},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91352,
+																										line: 2895, col: 9, offset: 91354,
 																									},
 																								},
 																							},
@@ -25968,27 +25968,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1630, col: 5, offset: 52980},
+																pos: position{line: 1630, col: 5, offset: 52982},
 																run: (*parser).callonExtraListElement86,
 																expr: &seqExpr{
-																	pos: position{line: 1630, col: 5, offset: 52980},
+																	pos: position{line: 1630, col: 5, offset: 52982},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1630, col: 5, offset: 52980},
+																			pos:   position{line: 1630, col: 5, offset: 52982},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1637, col: 5, offset: 53253},
+																				pos: position{line: 1637, col: 5, offset: 53255},
 																				run: (*parser).callonExtraListElement89,
 																				expr: &seqExpr{
-																					pos: position{line: 1637, col: 5, offset: 53253},
+																					pos: position{line: 1637, col: 5, offset: 53255},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1637, col: 5, offset: 53253},
+																							pos: position{line: 1637, col: 5, offset: 53255},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 91003},
+																								pos: position{line: 2876, col: 10, offset: 91005},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 91003},
+																									pos:        position{line: 2876, col: 10, offset: 91005},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25997,24 +25997,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1638, col: 5, offset: 53265},
+																							pos:   position{line: 1638, col: 5, offset: 53267},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1639, col: 9, offset: 53281},
+																								pos: position{line: 1639, col: 9, offset: 53283},
 																								run: (*parser).callonExtraListElement95,
 																								expr: &choiceExpr{
-																									pos: position{line: 1639, col: 10, offset: 53282},
+																									pos: position{line: 1639, col: 10, offset: 53284},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1639, col: 11, offset: 53283},
+																											pos:        position{line: 1639, col: 11, offset: 53285},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1639, col: 18, offset: 53290},
+																											pos: position{line: 1639, col: 18, offset: 53292},
 																											expr: &litMatcher{
-																												pos:        position{line: 1639, col: 19, offset: 53291},
+																												pos:        position{line: 1639, col: 19, offset: 53293},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -26025,16 +26025,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1642, col: 7, offset: 53381},
+																							pos: position{line: 1642, col: 7, offset: 53383},
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2880, col: 11, offset: 91064},
+																							pos: position{line: 2880, col: 11, offset: 91066},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2880, col: 11, offset: 91064},
+																								pos: position{line: 2880, col: 11, offset: 91066},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 11, offset: 91064},
+																									pos:        position{line: 2880, col: 11, offset: 91066},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26047,56 +26047,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1631, col: 5, offset: 53021},
+																			pos:   position{line: 1631, col: 5, offset: 53023},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1631, col: 16, offset: 53032},
+																				pos: position{line: 1631, col: 16, offset: 53034},
 																				expr: &actionExpr{
-																					pos: position{line: 1652, col: 5, offset: 53646},
+																					pos: position{line: 1652, col: 5, offset: 53648},
 																					run: (*parser).callonExtraListElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 1652, col: 5, offset: 53646},
+																						pos: position{line: 1652, col: 5, offset: 53648},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1652, col: 5, offset: 53646},
+																								pos: position{line: 1652, col: 5, offset: 53648},
 																								expr: &litMatcher{
-																									pos:        position{line: 1652, col: 6, offset: 53647},
+																									pos:        position{line: 1652, col: 6, offset: 53649},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1652, col: 10, offset: 53651},
+																								pos:   position{line: 1652, col: 10, offset: 53653},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1653, col: 7, offset: 53665},
+																									pos: position{line: 1653, col: 7, offset: 53667},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1653, col: 7, offset: 53665},
+																											pos: position{line: 1653, col: 7, offset: 53667},
 																											run: (*parser).callonExtraListElement112,
 																											expr: &litMatcher{
-																												pos:        position{line: 1653, col: 7, offset: 53665},
+																												pos:        position{line: 1653, col: 7, offset: 53667},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1654, col: 7, offset: 53710},
+																											pos: position{line: 1654, col: 7, offset: 53712},
 																											run: (*parser).callonExtraListElement114,
 																											expr: &litMatcher{
-																												pos:        position{line: 1654, col: 7, offset: 53710},
+																												pos:        position{line: 1654, col: 7, offset: 53712},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1655, col: 7, offset: 53753},
+																											pos: position{line: 1655, col: 7, offset: 53755},
 																											run: (*parser).callonExtraListElement116,
 																											expr: &litMatcher{
-																												pos:        position{line: 1655, col: 7, offset: 53753},
+																												pos:        position{line: 1655, col: 7, offset: 53755},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -26106,12 +26106,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2880, col: 11, offset: 91064},
+																								pos: position{line: 2880, col: 11, offset: 91066},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2880, col: 11, offset: 91064},
+																									pos: position{line: 2880, col: 11, offset: 91066},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2880, col: 11, offset: 91064},
+																										pos:        position{line: 2880, col: 11, offset: 91066},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -26125,26 +26125,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1632, col: 5, offset: 53071},
+																			pos:   position{line: 1632, col: 5, offset: 53073},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1528, col: 5, offset: 49589},
+																				pos: position{line: 1528, col: 5, offset: 49591},
 																				run: (*parser).callonExtraListElement122,
 																				expr: &seqExpr{
-																					pos: position{line: 1528, col: 5, offset: 49589},
+																					pos: position{line: 1528, col: 5, offset: 49591},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1528, col: 5, offset: 49589},
+																							pos:   position{line: 1528, col: 5, offset: 49591},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1528, col: 14, offset: 49598},
+																								pos: position{line: 1528, col: 14, offset: 49600},
 																								expr: &actionExpr{
-																									pos: position{line: 1528, col: 15, offset: 49599},
+																									pos: position{line: 1528, col: 15, offset: 49601},
 																									run: (*parser).callonExtraListElement126,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1528, col: 15, offset: 49599},
+																										pos: position{line: 1528, col: 15, offset: 49601},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1528, col: 15, offset: 49599},
+																											pos:        position{line: 1528, col: 15, offset: 49601},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26155,28 +26155,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91401},
+																							pos: position{line: 2898, col: 8, offset: 91403},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91174},
+																									pos: position{line: 2885, col: 12, offset: 91176},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91175},
+																										pos: position{line: 2885, col: 13, offset: 91177},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91175},
+																												pos:        position{line: 2885, col: 13, offset: 91177},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91182},
+																												pos:        position{line: 2885, col: 20, offset: 91184},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91191},
+																												pos:        position{line: 2885, col: 29, offset: 91193},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26185,9 +26185,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91351},
+																									pos: position{line: 2895, col: 8, offset: 91353},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91352,
+																										line: 2895, col: 9, offset: 91354,
 																									},
 																								},
 																							},
@@ -26200,36 +26200,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1721, col: 5, offset: 55625},
+																pos: position{line: 1721, col: 5, offset: 55627},
 																run: (*parser).callonExtraListElement137,
 																expr: &seqExpr{
-																	pos: position{line: 1721, col: 5, offset: 55625},
+																	pos: position{line: 1721, col: 5, offset: 55627},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1721, col: 5, offset: 55625},
+																			pos:   position{line: 1721, col: 5, offset: 55627},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1727, col: 5, offset: 55822},
+																				pos: position{line: 1727, col: 5, offset: 55824},
 																				run: (*parser).callonExtraListElement140,
 																				expr: &seqExpr{
-																					pos: position{line: 1727, col: 5, offset: 55822},
+																					pos: position{line: 1727, col: 5, offset: 55824},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1727, col: 5, offset: 55822},
+																							pos:        position{line: 1727, col: 5, offset: 55824},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1727, col: 9, offset: 55826},
+																							pos:   position{line: 1727, col: 9, offset: 55828},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1727, col: 14, offset: 55831},
+																								pos: position{line: 1727, col: 14, offset: 55833},
 																								run: (*parser).callonExtraListElement144,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1727, col: 14, offset: 55831},
+																									pos: position{line: 1727, col: 14, offset: 55833},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1727, col: 14, offset: 55831},
+																										pos:        position{line: 1727, col: 14, offset: 55833},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -26239,18 +26239,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1727, col: 62, offset: 55879},
+																							pos:        position{line: 1727, col: 62, offset: 55881},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2880, col: 11, offset: 91064},
+																							pos: position{line: 2880, col: 11, offset: 91066},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2880, col: 11, offset: 91064},
+																								pos: position{line: 2880, col: 11, offset: 91066},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 11, offset: 91064},
+																									pos:        position{line: 2880, col: 11, offset: 91066},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26263,26 +26263,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1722, col: 5, offset: 55661},
+																			pos:   position{line: 1722, col: 5, offset: 55663},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1528, col: 5, offset: 49589},
+																				pos: position{line: 1528, col: 5, offset: 49591},
 																				run: (*parser).callonExtraListElement152,
 																				expr: &seqExpr{
-																					pos: position{line: 1528, col: 5, offset: 49589},
+																					pos: position{line: 1528, col: 5, offset: 49591},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1528, col: 5, offset: 49589},
+																							pos:   position{line: 1528, col: 5, offset: 49591},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1528, col: 14, offset: 49598},
+																								pos: position{line: 1528, col: 14, offset: 49600},
 																								expr: &actionExpr{
-																									pos: position{line: 1528, col: 15, offset: 49599},
+																									pos: position{line: 1528, col: 15, offset: 49601},
 																									run: (*parser).callonExtraListElement156,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1528, col: 15, offset: 49599},
+																										pos: position{line: 1528, col: 15, offset: 49601},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1528, col: 15, offset: 49599},
+																											pos:        position{line: 1528, col: 15, offset: 49601},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26293,28 +26293,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91401},
+																							pos: position{line: 2898, col: 8, offset: 91403},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91174},
+																									pos: position{line: 2885, col: 12, offset: 91176},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91175},
+																										pos: position{line: 2885, col: 13, offset: 91177},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91175},
+																												pos:        position{line: 2885, col: 13, offset: 91177},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91182},
+																												pos:        position{line: 2885, col: 20, offset: 91184},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91191},
+																												pos:        position{line: 2885, col: 29, offset: 91193},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26323,9 +26323,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91351},
+																									pos: position{line: 2895, col: 8, offset: 91353},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91352,
+																										line: 2895, col: 9, offset: 91354,
 																									},
 																								},
 																							},
@@ -26338,35 +26338,35 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1664, col: 5, offset: 53946},
+																pos: position{line: 1664, col: 5, offset: 53948},
 																run: (*parser).callonExtraListElement167,
 																expr: &seqExpr{
-																	pos: position{line: 1664, col: 5, offset: 53946},
+																	pos: position{line: 1664, col: 5, offset: 53948},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1664, col: 5, offset: 53946},
+																			pos:   position{line: 1664, col: 5, offset: 53948},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1672, col: 5, offset: 54272},
+																				pos: position{line: 1672, col: 5, offset: 54274},
 																				run: (*parser).callonExtraListElement170,
 																				expr: &seqExpr{
-																					pos: position{line: 1672, col: 5, offset: 54272},
+																					pos: position{line: 1672, col: 5, offset: 54274},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1672, col: 5, offset: 54272},
+																							pos: position{line: 1672, col: 5, offset: 54274},
 																							expr: &seqExpr{
-																								pos: position{line: 2488, col: 31, offset: 80110},
+																								pos: position{line: 2488, col: 31, offset: 80112},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2488, col: 31, offset: 80110},
+																										pos:        position{line: 2488, col: 31, offset: 80112},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2488, col: 36, offset: 80115},
+																										pos: position{line: 2488, col: 36, offset: 80117},
 																										expr: &litMatcher{
-																											pos:        position{line: 2488, col: 37, offset: 80116},
+																											pos:        position{line: 2488, col: 37, offset: 80118},
 																											val:        "//",
 																											ignoreCase: false,
 																											want:       "\"//\"",
@@ -26376,28 +26376,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1673, col: 5, offset: 54304},
+																							pos: position{line: 1673, col: 5, offset: 54306},
 																							expr: &seqExpr{
-																								pos: position{line: 1673, col: 6, offset: 54305},
+																								pos: position{line: 1673, col: 6, offset: 54307},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1673, col: 6, offset: 54305},
+																										pos: position{line: 1673, col: 6, offset: 54307},
 																										expr: &actionExpr{
-																											pos: position{line: 1678, col: 5, offset: 54455},
+																											pos: position{line: 1678, col: 5, offset: 54457},
 																											run: (*parser).callonExtraListElement180,
 																											expr: &seqExpr{
-																												pos: position{line: 1678, col: 5, offset: 54455},
+																												pos: position{line: 1678, col: 5, offset: 54457},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1678, col: 5, offset: 54455},
+																														pos:   position{line: 1678, col: 5, offset: 54457},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1678, col: 16, offset: 54466},
+																															pos: position{line: 1678, col: 16, offset: 54468},
 																															run: (*parser).callonExtraListElement183,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1678, col: 16, offset: 54466},
+																																pos: position{line: 1678, col: 16, offset: 54468},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1678, col: 17, offset: 54467},
+																																	pos:        position{line: 1678, col: 17, offset: 54469},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -26406,7 +26406,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1681, col: 5, offset: 54524},
+																														pos: position{line: 1681, col: 5, offset: 54526},
 																														run: (*parser).callonExtraListElement186,
 																													},
 																												},
@@ -26414,30 +26414,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1673, col: 35, offset: 54334},
+																										pos: position{line: 1673, col: 35, offset: 54336},
 																										expr: &choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91401},
+																											pos: position{line: 2898, col: 8, offset: 91403},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91174},
+																													pos: position{line: 2885, col: 12, offset: 91176},
 																													run: (*parser).callonExtraListElement189,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91175},
+																														pos: position{line: 2885, col: 13, offset: 91177},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91175},
+																																pos:        position{line: 2885, col: 13, offset: 91177},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91182},
+																																pos:        position{line: 2885, col: 20, offset: 91184},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91191},
+																																pos:        position{line: 2885, col: 29, offset: 91193},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -26446,16 +26446,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91351},
+																													pos: position{line: 2895, col: 8, offset: 91353},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91352,
+																														line: 2895, col: 9, offset: 91354,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1673, col: 40, offset: 54339,
+																										line: 1673, col: 40, offset: 54341,
 																									},
 																								},
 																							},
@@ -26465,24 +26465,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1665, col: 5, offset: 53981},
+																			pos:   position{line: 1665, col: 5, offset: 53983},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1678, col: 5, offset: 54455},
+																				pos: position{line: 1678, col: 5, offset: 54457},
 																				run: (*parser).callonExtraListElement198,
 																				expr: &seqExpr{
-																					pos: position{line: 1678, col: 5, offset: 54455},
+																					pos: position{line: 1678, col: 5, offset: 54457},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1678, col: 5, offset: 54455},
+																							pos:   position{line: 1678, col: 5, offset: 54457},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1678, col: 16, offset: 54466},
+																								pos: position{line: 1678, col: 16, offset: 54468},
 																								run: (*parser).callonExtraListElement201,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1678, col: 16, offset: 54466},
+																									pos: position{line: 1678, col: 16, offset: 54468},
 																									expr: &litMatcher{
-																										pos:        position{line: 1678, col: 17, offset: 54467},
+																										pos:        position{line: 1678, col: 17, offset: 54469},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -26491,7 +26491,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1681, col: 5, offset: 54524},
+																							pos: position{line: 1681, col: 5, offset: 54526},
 																							run: (*parser).callonExtraListElement204,
 																						},
 																					},
@@ -26499,24 +26499,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1666, col: 5, offset: 54026},
+																			pos:   position{line: 1666, col: 5, offset: 54028},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1689, col: 5, offset: 54773},
+																				pos: position{line: 1689, col: 5, offset: 54775},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1691, col: 9, offset: 54839},
+																						pos: position{line: 1691, col: 9, offset: 54841},
 																						run: (*parser).callonExtraListElement207,
 																						expr: &seqExpr{
-																							pos: position{line: 1691, col: 9, offset: 54839},
+																							pos: position{line: 1691, col: 9, offset: 54841},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1691, col: 9, offset: 54839},
+																									pos: position{line: 1691, col: 9, offset: 54841},
 																									expr: &actionExpr{
-																										pos: position{line: 2876, col: 10, offset: 91003},
+																										pos: position{line: 2876, col: 10, offset: 91005},
 																										run: (*parser).callonExtraListElement210,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2876, col: 10, offset: 91003},
+																											pos:        position{line: 2876, col: 10, offset: 91005},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26525,28 +26525,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2898, col: 8, offset: 91401},
+																									pos: position{line: 2898, col: 8, offset: 91403},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2885, col: 12, offset: 91174},
+																											pos: position{line: 2885, col: 12, offset: 91176},
 																											run: (*parser).callonExtraListElement213,
 																											expr: &choiceExpr{
-																												pos: position{line: 2885, col: 13, offset: 91175},
+																												pos: position{line: 2885, col: 13, offset: 91177},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 13, offset: 91175},
+																														pos:        position{line: 2885, col: 13, offset: 91177},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 20, offset: 91182},
+																														pos:        position{line: 2885, col: 20, offset: 91184},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 29, offset: 91191},
+																														pos:        position{line: 2885, col: 29, offset: 91193},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26555,34 +26555,34 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2895, col: 8, offset: 91351},
+																											pos: position{line: 2895, col: 8, offset: 91353},
 																											expr: &anyMatcher{
-																												line: 2895, col: 9, offset: 91352,
+																												line: 2895, col: 9, offset: 91354,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1692, col: 9, offset: 54858},
+																									pos: position{line: 1692, col: 9, offset: 54860},
 																									expr: &actionExpr{
-																										pos: position{line: 676, col: 14, offset: 21496},
+																										pos: position{line: 676, col: 14, offset: 21498},
 																										run: (*parser).callonExtraListElement221,
 																										expr: &seqExpr{
-																											pos: position{line: 676, col: 14, offset: 21496},
+																											pos: position{line: 676, col: 14, offset: 21498},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2893, col: 11, offset: 91337},
+																													pos: position{line: 2893, col: 11, offset: 91339},
 																													expr: &anyMatcher{
-																														line: 2893, col: 13, offset: 91339,
+																														line: 2893, col: 13, offset: 91341,
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 676, col: 21, offset: 21503},
+																													pos: position{line: 676, col: 21, offset: 21505},
 																													expr: &actionExpr{
-																														pos: position{line: 2876, col: 10, offset: 91003},
+																														pos: position{line: 2876, col: 10, offset: 91005},
 																														run: (*parser).callonExtraListElement226,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2876, col: 10, offset: 91003},
+																															pos:        position{line: 2876, col: 10, offset: 91005},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -26591,28 +26591,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2898, col: 8, offset: 91401},
+																													pos: position{line: 2898, col: 8, offset: 91403},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2885, col: 12, offset: 91174},
+																															pos: position{line: 2885, col: 12, offset: 91176},
 																															run: (*parser).callonExtraListElement229,
 																															expr: &choiceExpr{
-																																pos: position{line: 2885, col: 13, offset: 91175},
+																																pos: position{line: 2885, col: 13, offset: 91177},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2885, col: 13, offset: 91175},
+																																		pos:        position{line: 2885, col: 13, offset: 91177},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2885, col: 20, offset: 91182},
+																																		pos:        position{line: 2885, col: 20, offset: 91184},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2885, col: 29, offset: 91191},
+																																		pos:        position{line: 2885, col: 29, offset: 91193},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -26621,9 +26621,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2895, col: 8, offset: 91351},
+																															pos: position{line: 2895, col: 8, offset: 91353},
 																															expr: &anyMatcher{
-																																line: 2895, col: 9, offset: 91352,
+																																line: 2895, col: 9, offset: 91354,
 																															},
 																														},
 																													},
@@ -26636,18 +26636,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1698, col: 9, offset: 54987},
+																						pos: position{line: 1698, col: 9, offset: 54989},
 																						run: (*parser).callonExtraListElement236,
 																						expr: &seqExpr{
-																							pos: position{line: 1698, col: 9, offset: 54987},
+																							pos: position{line: 1698, col: 9, offset: 54989},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2880, col: 11, offset: 91064},
+																									pos: position{line: 2880, col: 11, offset: 91066},
 																									run: (*parser).callonExtraListElement238,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2880, col: 11, offset: 91064},
+																										pos: position{line: 2880, col: 11, offset: 91066},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2880, col: 11, offset: 91064},
+																											pos:        position{line: 2880, col: 11, offset: 91066},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26656,15 +26656,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1699, col: 9, offset: 55060},
+																									pos:   position{line: 1699, col: 9, offset: 55062},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1699, col: 18, offset: 55069},
+																										pos: position{line: 1699, col: 18, offset: 55071},
 																										run: (*parser).callonExtraListElement242,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1699, col: 18, offset: 55069},
+																											pos: position{line: 1699, col: 18, offset: 55071},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1699, col: 18, offset: 55069},
+																												pos:        position{line: 1699, col: 18, offset: 55071},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -26674,28 +26674,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2898, col: 8, offset: 91401},
+																									pos: position{line: 2898, col: 8, offset: 91403},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2885, col: 12, offset: 91174},
+																											pos: position{line: 2885, col: 12, offset: 91176},
 																											run: (*parser).callonExtraListElement246,
 																											expr: &choiceExpr{
-																												pos: position{line: 2885, col: 13, offset: 91175},
+																												pos: position{line: 2885, col: 13, offset: 91177},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 13, offset: 91175},
+																														pos:        position{line: 2885, col: 13, offset: 91177},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 20, offset: 91182},
+																														pos:        position{line: 2885, col: 20, offset: 91184},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 29, offset: 91191},
+																														pos:        position{line: 2885, col: 29, offset: 91193},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26704,9 +26704,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2895, col: 8, offset: 91351},
+																											pos: position{line: 2895, col: 8, offset: 91353},
 																											expr: &anyMatcher{
-																												line: 2895, col: 9, offset: 91352,
+																												line: 2895, col: 9, offset: 91354,
 																											},
 																										},
 																									},
@@ -26727,50 +26727,50 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1503, col: 13, offset: 48716},
+										pos: position{line: 1503, col: 13, offset: 48718},
 										run: (*parser).callonExtraListElement253,
 										expr: &seqExpr{
-											pos: position{line: 1503, col: 13, offset: 48716},
+											pos: position{line: 1503, col: 13, offset: 48718},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1503, col: 13, offset: 48716},
+													pos:   position{line: 1503, col: 13, offset: 48718},
 													label: "attributes",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1503, col: 24, offset: 48727},
+														pos: position{line: 1503, col: 24, offset: 48729},
 														expr: &ruleRefExpr{
-															pos:  position{line: 1503, col: 25, offset: 48728},
+															pos:  position{line: 1503, col: 25, offset: 48730},
 															name: "BlockAttributes",
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1504, col: 13, offset: 48759},
+													pos:   position{line: 1504, col: 13, offset: 48761},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1504, col: 22, offset: 48768},
+														pos: position{line: 1504, col: 22, offset: 48770},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1580, col: 5, offset: 51083},
+																pos: position{line: 1580, col: 5, offset: 51085},
 																run: (*parser).callonExtraListElement260,
 																expr: &seqExpr{
-																	pos: position{line: 1580, col: 5, offset: 51083},
+																	pos: position{line: 1580, col: 5, offset: 51085},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1580, col: 5, offset: 51083},
+																			pos:   position{line: 1580, col: 5, offset: 51085},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1587, col: 5, offset: 51291},
+																				pos: position{line: 1587, col: 5, offset: 51293},
 																				run: (*parser).callonExtraListElement263,
 																				expr: &seqExpr{
-																					pos: position{line: 1587, col: 5, offset: 51291},
+																					pos: position{line: 1587, col: 5, offset: 51293},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1587, col: 5, offset: 51291},
+																							pos: position{line: 1587, col: 5, offset: 51293},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 91003},
+																								pos: position{line: 2876, col: 10, offset: 91005},
 																								run: (*parser).callonExtraListElement266,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 91003},
+																									pos:        position{line: 2876, col: 10, offset: 91005},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26779,27 +26779,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1587, col: 12, offset: 51298},
+																							pos:   position{line: 1587, col: 12, offset: 51300},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1589, col: 9, offset: 51361},
+																								pos: position{line: 1589, col: 9, offset: 51363},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1589, col: 9, offset: 51361},
+																										pos: position{line: 1589, col: 9, offset: 51363},
 																										run: (*parser).callonExtraListElement270,
 																										expr: &seqExpr{
-																											pos: position{line: 1589, col: 9, offset: 51361},
+																											pos: position{line: 1589, col: 9, offset: 51363},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1589, col: 9, offset: 51361},
+																													pos:   position{line: 1589, col: 9, offset: 51363},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1589, col: 16, offset: 51368},
+																														pos: position{line: 1589, col: 16, offset: 51370},
 																														run: (*parser).callonExtraListElement273,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1589, col: 16, offset: 51368},
+																															pos: position{line: 1589, col: 16, offset: 51370},
 																															expr: &litMatcher{
-																																pos:        position{line: 1589, col: 17, offset: 51369},
+																																pos:        position{line: 1589, col: 17, offset: 51371},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -26808,22 +26808,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1593, col: 9, offset: 51469},
+																													pos: position{line: 1593, col: 9, offset: 51471},
 																													run: (*parser).callonExtraListElement276,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1612, col: 11, offset: 52186},
+																										pos: position{line: 1612, col: 11, offset: 52188},
 																										run: (*parser).callonExtraListElement277,
 																										expr: &seqExpr{
-																											pos: position{line: 1612, col: 11, offset: 52186},
+																											pos: position{line: 1612, col: 11, offset: 52188},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1612, col: 11, offset: 52186},
+																													pos: position{line: 1612, col: 11, offset: 52188},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1612, col: 12, offset: 52187},
+																														pos:        position{line: 1612, col: 12, offset: 52189},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -26831,7 +26831,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1612, col: 20, offset: 52195},
+																													pos:        position{line: 1612, col: 20, offset: 52197},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26840,20 +26840,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1614, col: 13, offset: 52312},
+																										pos: position{line: 1614, col: 13, offset: 52314},
 																										run: (*parser).callonExtraListElement282,
 																										expr: &seqExpr{
-																											pos: position{line: 1614, col: 13, offset: 52312},
+																											pos: position{line: 1614, col: 13, offset: 52314},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1614, col: 14, offset: 52313},
+																													pos:        position{line: 1614, col: 14, offset: 52315},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1614, col: 21, offset: 52320},
+																													pos:        position{line: 1614, col: 21, offset: 52322},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26862,20 +26862,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1616, col: 13, offset: 52440},
+																										pos: position{line: 1616, col: 13, offset: 52442},
 																										run: (*parser).callonExtraListElement286,
 																										expr: &seqExpr{
-																											pos: position{line: 1616, col: 13, offset: 52440},
+																											pos: position{line: 1616, col: 13, offset: 52442},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1616, col: 14, offset: 52441},
+																													pos:        position{line: 1616, col: 14, offset: 52443},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1616, col: 21, offset: 52448},
+																													pos:        position{line: 1616, col: 21, offset: 52450},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26884,15 +26884,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1618, col: 13, offset: 52568},
+																										pos: position{line: 1618, col: 13, offset: 52570},
 																										run: (*parser).callonExtraListElement290,
 																										expr: &seqExpr{
-																											pos: position{line: 1618, col: 13, offset: 52568},
+																											pos: position{line: 1618, col: 13, offset: 52570},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1618, col: 13, offset: 52568},
+																													pos: position{line: 1618, col: 13, offset: 52570},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1618, col: 14, offset: 52569},
+																														pos:        position{line: 1618, col: 14, offset: 52571},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -26900,7 +26900,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1618, col: 26, offset: 52581},
+																													pos:        position{line: 1618, col: 26, offset: 52583},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26909,15 +26909,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1620, col: 13, offset: 52701},
+																										pos: position{line: 1620, col: 13, offset: 52703},
 																										run: (*parser).callonExtraListElement295,
 																										expr: &seqExpr{
-																											pos: position{line: 1620, col: 13, offset: 52701},
+																											pos: position{line: 1620, col: 13, offset: 52703},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1620, col: 13, offset: 52701},
+																													pos: position{line: 1620, col: 13, offset: 52703},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1620, col: 14, offset: 52702},
+																														pos:        position{line: 1620, col: 14, offset: 52704},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -26925,7 +26925,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1620, col: 26, offset: 52714},
+																													pos:        position{line: 1620, col: 26, offset: 52716},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26937,12 +26937,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2880, col: 11, offset: 91064},
+																							pos: position{line: 2880, col: 11, offset: 91066},
 																							run: (*parser).callonExtraListElement300,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2880, col: 11, offset: 91064},
+																								pos: position{line: 2880, col: 11, offset: 91066},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 11, offset: 91064},
+																									pos:        position{line: 2880, col: 11, offset: 91066},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26955,26 +26955,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1581, col: 5, offset: 51122},
+																			pos:   position{line: 1581, col: 5, offset: 51124},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1528, col: 5, offset: 49589},
+																				pos: position{line: 1528, col: 5, offset: 49591},
 																				run: (*parser).callonExtraListElement304,
 																				expr: &seqExpr{
-																					pos: position{line: 1528, col: 5, offset: 49589},
+																					pos: position{line: 1528, col: 5, offset: 49591},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1528, col: 5, offset: 49589},
+																							pos:   position{line: 1528, col: 5, offset: 49591},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1528, col: 14, offset: 49598},
+																								pos: position{line: 1528, col: 14, offset: 49600},
 																								expr: &actionExpr{
-																									pos: position{line: 1528, col: 15, offset: 49599},
+																									pos: position{line: 1528, col: 15, offset: 49601},
 																									run: (*parser).callonExtraListElement308,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1528, col: 15, offset: 49599},
+																										pos: position{line: 1528, col: 15, offset: 49601},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1528, col: 15, offset: 49599},
+																											pos:        position{line: 1528, col: 15, offset: 49601},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26985,28 +26985,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91401},
+																							pos: position{line: 2898, col: 8, offset: 91403},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91174},
+																									pos: position{line: 2885, col: 12, offset: 91176},
 																									run: (*parser).callonExtraListElement312,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91175},
+																										pos: position{line: 2885, col: 13, offset: 91177},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91175},
+																												pos:        position{line: 2885, col: 13, offset: 91177},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91182},
+																												pos:        position{line: 2885, col: 20, offset: 91184},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91191},
+																												pos:        position{line: 2885, col: 29, offset: 91193},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27015,9 +27015,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91351},
+																									pos: position{line: 2895, col: 8, offset: 91353},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91352,
+																										line: 2895, col: 9, offset: 91354,
 																									},
 																								},
 																							},
@@ -27030,27 +27030,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1630, col: 5, offset: 52980},
+																pos: position{line: 1630, col: 5, offset: 52982},
 																run: (*parser).callonExtraListElement319,
 																expr: &seqExpr{
-																	pos: position{line: 1630, col: 5, offset: 52980},
+																	pos: position{line: 1630, col: 5, offset: 52982},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1630, col: 5, offset: 52980},
+																			pos:   position{line: 1630, col: 5, offset: 52982},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1637, col: 5, offset: 53253},
+																				pos: position{line: 1637, col: 5, offset: 53255},
 																				run: (*parser).callonExtraListElement322,
 																				expr: &seqExpr{
-																					pos: position{line: 1637, col: 5, offset: 53253},
+																					pos: position{line: 1637, col: 5, offset: 53255},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1637, col: 5, offset: 53253},
+																							pos: position{line: 1637, col: 5, offset: 53255},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 91003},
+																								pos: position{line: 2876, col: 10, offset: 91005},
 																								run: (*parser).callonExtraListElement325,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 91003},
+																									pos:        position{line: 2876, col: 10, offset: 91005},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27059,24 +27059,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1638, col: 5, offset: 53265},
+																							pos:   position{line: 1638, col: 5, offset: 53267},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1639, col: 9, offset: 53281},
+																								pos: position{line: 1639, col: 9, offset: 53283},
 																								run: (*parser).callonExtraListElement328,
 																								expr: &choiceExpr{
-																									pos: position{line: 1639, col: 10, offset: 53282},
+																									pos: position{line: 1639, col: 10, offset: 53284},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1639, col: 11, offset: 53283},
+																											pos:        position{line: 1639, col: 11, offset: 53285},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1639, col: 18, offset: 53290},
+																											pos: position{line: 1639, col: 18, offset: 53292},
 																											expr: &litMatcher{
-																												pos:        position{line: 1639, col: 19, offset: 53291},
+																												pos:        position{line: 1639, col: 19, offset: 53293},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -27087,16 +27087,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1642, col: 7, offset: 53381},
+																							pos: position{line: 1642, col: 7, offset: 53383},
 																							run: (*parser).callonExtraListElement333,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2880, col: 11, offset: 91064},
+																							pos: position{line: 2880, col: 11, offset: 91066},
 																							run: (*parser).callonExtraListElement334,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2880, col: 11, offset: 91064},
+																								pos: position{line: 2880, col: 11, offset: 91066},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 11, offset: 91064},
+																									pos:        position{line: 2880, col: 11, offset: 91066},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27109,56 +27109,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1631, col: 5, offset: 53021},
+																			pos:   position{line: 1631, col: 5, offset: 53023},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1631, col: 16, offset: 53032},
+																				pos: position{line: 1631, col: 16, offset: 53034},
 																				expr: &actionExpr{
-																					pos: position{line: 1652, col: 5, offset: 53646},
+																					pos: position{line: 1652, col: 5, offset: 53648},
 																					run: (*parser).callonExtraListElement339,
 																					expr: &seqExpr{
-																						pos: position{line: 1652, col: 5, offset: 53646},
+																						pos: position{line: 1652, col: 5, offset: 53648},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1652, col: 5, offset: 53646},
+																								pos: position{line: 1652, col: 5, offset: 53648},
 																								expr: &litMatcher{
-																									pos:        position{line: 1652, col: 6, offset: 53647},
+																									pos:        position{line: 1652, col: 6, offset: 53649},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1652, col: 10, offset: 53651},
+																								pos:   position{line: 1652, col: 10, offset: 53653},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1653, col: 7, offset: 53665},
+																									pos: position{line: 1653, col: 7, offset: 53667},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1653, col: 7, offset: 53665},
+																											pos: position{line: 1653, col: 7, offset: 53667},
 																											run: (*parser).callonExtraListElement345,
 																											expr: &litMatcher{
-																												pos:        position{line: 1653, col: 7, offset: 53665},
+																												pos:        position{line: 1653, col: 7, offset: 53667},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1654, col: 7, offset: 53710},
+																											pos: position{line: 1654, col: 7, offset: 53712},
 																											run: (*parser).callonExtraListElement347,
 																											expr: &litMatcher{
-																												pos:        position{line: 1654, col: 7, offset: 53710},
+																												pos:        position{line: 1654, col: 7, offset: 53712},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1655, col: 7, offset: 53753},
+																											pos: position{line: 1655, col: 7, offset: 53755},
 																											run: (*parser).callonExtraListElement349,
 																											expr: &litMatcher{
-																												pos:        position{line: 1655, col: 7, offset: 53753},
+																												pos:        position{line: 1655, col: 7, offset: 53755},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -27168,12 +27168,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2880, col: 11, offset: 91064},
+																								pos: position{line: 2880, col: 11, offset: 91066},
 																								run: (*parser).callonExtraListElement351,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2880, col: 11, offset: 91064},
+																									pos: position{line: 2880, col: 11, offset: 91066},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2880, col: 11, offset: 91064},
+																										pos:        position{line: 2880, col: 11, offset: 91066},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27187,26 +27187,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1632, col: 5, offset: 53071},
+																			pos:   position{line: 1632, col: 5, offset: 53073},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1528, col: 5, offset: 49589},
+																				pos: position{line: 1528, col: 5, offset: 49591},
 																				run: (*parser).callonExtraListElement355,
 																				expr: &seqExpr{
-																					pos: position{line: 1528, col: 5, offset: 49589},
+																					pos: position{line: 1528, col: 5, offset: 49591},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1528, col: 5, offset: 49589},
+																							pos:   position{line: 1528, col: 5, offset: 49591},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1528, col: 14, offset: 49598},
+																								pos: position{line: 1528, col: 14, offset: 49600},
 																								expr: &actionExpr{
-																									pos: position{line: 1528, col: 15, offset: 49599},
+																									pos: position{line: 1528, col: 15, offset: 49601},
 																									run: (*parser).callonExtraListElement359,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1528, col: 15, offset: 49599},
+																										pos: position{line: 1528, col: 15, offset: 49601},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1528, col: 15, offset: 49599},
+																											pos:        position{line: 1528, col: 15, offset: 49601},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27217,28 +27217,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91401},
+																							pos: position{line: 2898, col: 8, offset: 91403},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91174},
+																									pos: position{line: 2885, col: 12, offset: 91176},
 																									run: (*parser).callonExtraListElement363,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91175},
+																										pos: position{line: 2885, col: 13, offset: 91177},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91175},
+																												pos:        position{line: 2885, col: 13, offset: 91177},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91182},
+																												pos:        position{line: 2885, col: 20, offset: 91184},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91191},
+																												pos:        position{line: 2885, col: 29, offset: 91193},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27247,9 +27247,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91351},
+																									pos: position{line: 2895, col: 8, offset: 91353},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91352,
+																										line: 2895, col: 9, offset: 91354,
 																									},
 																								},
 																							},
@@ -27262,36 +27262,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1721, col: 5, offset: 55625},
+																pos: position{line: 1721, col: 5, offset: 55627},
 																run: (*parser).callonExtraListElement370,
 																expr: &seqExpr{
-																	pos: position{line: 1721, col: 5, offset: 55625},
+																	pos: position{line: 1721, col: 5, offset: 55627},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1721, col: 5, offset: 55625},
+																			pos:   position{line: 1721, col: 5, offset: 55627},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1727, col: 5, offset: 55822},
+																				pos: position{line: 1727, col: 5, offset: 55824},
 																				run: (*parser).callonExtraListElement373,
 																				expr: &seqExpr{
-																					pos: position{line: 1727, col: 5, offset: 55822},
+																					pos: position{line: 1727, col: 5, offset: 55824},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1727, col: 5, offset: 55822},
+																							pos:        position{line: 1727, col: 5, offset: 55824},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1727, col: 9, offset: 55826},
+																							pos:   position{line: 1727, col: 9, offset: 55828},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1727, col: 14, offset: 55831},
+																								pos: position{line: 1727, col: 14, offset: 55833},
 																								run: (*parser).callonExtraListElement377,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1727, col: 14, offset: 55831},
+																									pos: position{line: 1727, col: 14, offset: 55833},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1727, col: 14, offset: 55831},
+																										pos:        position{line: 1727, col: 14, offset: 55833},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -27301,18 +27301,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1727, col: 62, offset: 55879},
+																							pos:        position{line: 1727, col: 62, offset: 55881},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2880, col: 11, offset: 91064},
+																							pos: position{line: 2880, col: 11, offset: 91066},
 																							run: (*parser).callonExtraListElement381,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2880, col: 11, offset: 91064},
+																								pos: position{line: 2880, col: 11, offset: 91066},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 11, offset: 91064},
+																									pos:        position{line: 2880, col: 11, offset: 91066},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27325,26 +27325,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1722, col: 5, offset: 55661},
+																			pos:   position{line: 1722, col: 5, offset: 55663},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1528, col: 5, offset: 49589},
+																				pos: position{line: 1528, col: 5, offset: 49591},
 																				run: (*parser).callonExtraListElement385,
 																				expr: &seqExpr{
-																					pos: position{line: 1528, col: 5, offset: 49589},
+																					pos: position{line: 1528, col: 5, offset: 49591},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1528, col: 5, offset: 49589},
+																							pos:   position{line: 1528, col: 5, offset: 49591},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1528, col: 14, offset: 49598},
+																								pos: position{line: 1528, col: 14, offset: 49600},
 																								expr: &actionExpr{
-																									pos: position{line: 1528, col: 15, offset: 49599},
+																									pos: position{line: 1528, col: 15, offset: 49601},
 																									run: (*parser).callonExtraListElement389,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1528, col: 15, offset: 49599},
+																										pos: position{line: 1528, col: 15, offset: 49601},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1528, col: 15, offset: 49599},
+																											pos:        position{line: 1528, col: 15, offset: 49601},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27355,28 +27355,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91401},
+																							pos: position{line: 2898, col: 8, offset: 91403},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91174},
+																									pos: position{line: 2885, col: 12, offset: 91176},
 																									run: (*parser).callonExtraListElement393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91175},
+																										pos: position{line: 2885, col: 13, offset: 91177},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91175},
+																												pos:        position{line: 2885, col: 13, offset: 91177},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91182},
+																												pos:        position{line: 2885, col: 20, offset: 91184},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91191},
+																												pos:        position{line: 2885, col: 29, offset: 91193},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27385,9 +27385,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91351},
+																									pos: position{line: 2895, col: 8, offset: 91353},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91352,
+																										line: 2895, col: 9, offset: 91354,
 																									},
 																								},
 																							},
@@ -27400,35 +27400,35 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1664, col: 5, offset: 53946},
+																pos: position{line: 1664, col: 5, offset: 53948},
 																run: (*parser).callonExtraListElement400,
 																expr: &seqExpr{
-																	pos: position{line: 1664, col: 5, offset: 53946},
+																	pos: position{line: 1664, col: 5, offset: 53948},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1664, col: 5, offset: 53946},
+																			pos:   position{line: 1664, col: 5, offset: 53948},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1672, col: 5, offset: 54272},
+																				pos: position{line: 1672, col: 5, offset: 54274},
 																				run: (*parser).callonExtraListElement403,
 																				expr: &seqExpr{
-																					pos: position{line: 1672, col: 5, offset: 54272},
+																					pos: position{line: 1672, col: 5, offset: 54274},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1672, col: 5, offset: 54272},
+																							pos: position{line: 1672, col: 5, offset: 54274},
 																							expr: &seqExpr{
-																								pos: position{line: 2488, col: 31, offset: 80110},
+																								pos: position{line: 2488, col: 31, offset: 80112},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2488, col: 31, offset: 80110},
+																										pos:        position{line: 2488, col: 31, offset: 80112},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2488, col: 36, offset: 80115},
+																										pos: position{line: 2488, col: 36, offset: 80117},
 																										expr: &litMatcher{
-																											pos:        position{line: 2488, col: 37, offset: 80116},
+																											pos:        position{line: 2488, col: 37, offset: 80118},
 																											val:        "//",
 																											ignoreCase: false,
 																											want:       "\"//\"",
@@ -27438,28 +27438,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1673, col: 5, offset: 54304},
+																							pos: position{line: 1673, col: 5, offset: 54306},
 																							expr: &seqExpr{
-																								pos: position{line: 1673, col: 6, offset: 54305},
+																								pos: position{line: 1673, col: 6, offset: 54307},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1673, col: 6, offset: 54305},
+																										pos: position{line: 1673, col: 6, offset: 54307},
 																										expr: &actionExpr{
-																											pos: position{line: 1678, col: 5, offset: 54455},
+																											pos: position{line: 1678, col: 5, offset: 54457},
 																											run: (*parser).callonExtraListElement413,
 																											expr: &seqExpr{
-																												pos: position{line: 1678, col: 5, offset: 54455},
+																												pos: position{line: 1678, col: 5, offset: 54457},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1678, col: 5, offset: 54455},
+																														pos:   position{line: 1678, col: 5, offset: 54457},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1678, col: 16, offset: 54466},
+																															pos: position{line: 1678, col: 16, offset: 54468},
 																															run: (*parser).callonExtraListElement416,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1678, col: 16, offset: 54466},
+																																pos: position{line: 1678, col: 16, offset: 54468},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1678, col: 17, offset: 54467},
+																																	pos:        position{line: 1678, col: 17, offset: 54469},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -27468,7 +27468,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1681, col: 5, offset: 54524},
+																														pos: position{line: 1681, col: 5, offset: 54526},
 																														run: (*parser).callonExtraListElement419,
 																													},
 																												},
@@ -27476,30 +27476,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1673, col: 35, offset: 54334},
+																										pos: position{line: 1673, col: 35, offset: 54336},
 																										expr: &choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91401},
+																											pos: position{line: 2898, col: 8, offset: 91403},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91174},
+																													pos: position{line: 2885, col: 12, offset: 91176},
 																													run: (*parser).callonExtraListElement422,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91175},
+																														pos: position{line: 2885, col: 13, offset: 91177},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91175},
+																																pos:        position{line: 2885, col: 13, offset: 91177},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91182},
+																																pos:        position{line: 2885, col: 20, offset: 91184},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91191},
+																																pos:        position{line: 2885, col: 29, offset: 91193},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -27508,16 +27508,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91351},
+																													pos: position{line: 2895, col: 8, offset: 91353},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91352,
+																														line: 2895, col: 9, offset: 91354,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1673, col: 40, offset: 54339,
+																										line: 1673, col: 40, offset: 54341,
 																									},
 																								},
 																							},
@@ -27527,24 +27527,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1665, col: 5, offset: 53981},
+																			pos:   position{line: 1665, col: 5, offset: 53983},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1678, col: 5, offset: 54455},
+																				pos: position{line: 1678, col: 5, offset: 54457},
 																				run: (*parser).callonExtraListElement431,
 																				expr: &seqExpr{
-																					pos: position{line: 1678, col: 5, offset: 54455},
+																					pos: position{line: 1678, col: 5, offset: 54457},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1678, col: 5, offset: 54455},
+																							pos:   position{line: 1678, col: 5, offset: 54457},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1678, col: 16, offset: 54466},
+																								pos: position{line: 1678, col: 16, offset: 54468},
 																								run: (*parser).callonExtraListElement434,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1678, col: 16, offset: 54466},
+																									pos: position{line: 1678, col: 16, offset: 54468},
 																									expr: &litMatcher{
-																										pos:        position{line: 1678, col: 17, offset: 54467},
+																										pos:        position{line: 1678, col: 17, offset: 54469},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -27553,7 +27553,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1681, col: 5, offset: 54524},
+																							pos: position{line: 1681, col: 5, offset: 54526},
 																							run: (*parser).callonExtraListElement437,
 																						},
 																					},
@@ -27561,24 +27561,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1666, col: 5, offset: 54026},
+																			pos:   position{line: 1666, col: 5, offset: 54028},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1689, col: 5, offset: 54773},
+																				pos: position{line: 1689, col: 5, offset: 54775},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1691, col: 9, offset: 54839},
+																						pos: position{line: 1691, col: 9, offset: 54841},
 																						run: (*parser).callonExtraListElement440,
 																						expr: &seqExpr{
-																							pos: position{line: 1691, col: 9, offset: 54839},
+																							pos: position{line: 1691, col: 9, offset: 54841},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1691, col: 9, offset: 54839},
+																									pos: position{line: 1691, col: 9, offset: 54841},
 																									expr: &actionExpr{
-																										pos: position{line: 2876, col: 10, offset: 91003},
+																										pos: position{line: 2876, col: 10, offset: 91005},
 																										run: (*parser).callonExtraListElement443,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2876, col: 10, offset: 91003},
+																											pos:        position{line: 2876, col: 10, offset: 91005},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27587,28 +27587,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2898, col: 8, offset: 91401},
+																									pos: position{line: 2898, col: 8, offset: 91403},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2885, col: 12, offset: 91174},
+																											pos: position{line: 2885, col: 12, offset: 91176},
 																											run: (*parser).callonExtraListElement446,
 																											expr: &choiceExpr{
-																												pos: position{line: 2885, col: 13, offset: 91175},
+																												pos: position{line: 2885, col: 13, offset: 91177},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 13, offset: 91175},
+																														pos:        position{line: 2885, col: 13, offset: 91177},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 20, offset: 91182},
+																														pos:        position{line: 2885, col: 20, offset: 91184},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 29, offset: 91191},
+																														pos:        position{line: 2885, col: 29, offset: 91193},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27617,34 +27617,34 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2895, col: 8, offset: 91351},
+																											pos: position{line: 2895, col: 8, offset: 91353},
 																											expr: &anyMatcher{
-																												line: 2895, col: 9, offset: 91352,
+																												line: 2895, col: 9, offset: 91354,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1692, col: 9, offset: 54858},
+																									pos: position{line: 1692, col: 9, offset: 54860},
 																									expr: &actionExpr{
-																										pos: position{line: 676, col: 14, offset: 21496},
+																										pos: position{line: 676, col: 14, offset: 21498},
 																										run: (*parser).callonExtraListElement454,
 																										expr: &seqExpr{
-																											pos: position{line: 676, col: 14, offset: 21496},
+																											pos: position{line: 676, col: 14, offset: 21498},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2893, col: 11, offset: 91337},
+																													pos: position{line: 2893, col: 11, offset: 91339},
 																													expr: &anyMatcher{
-																														line: 2893, col: 13, offset: 91339,
+																														line: 2893, col: 13, offset: 91341,
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 676, col: 21, offset: 21503},
+																													pos: position{line: 676, col: 21, offset: 21505},
 																													expr: &actionExpr{
-																														pos: position{line: 2876, col: 10, offset: 91003},
+																														pos: position{line: 2876, col: 10, offset: 91005},
 																														run: (*parser).callonExtraListElement459,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2876, col: 10, offset: 91003},
+																															pos:        position{line: 2876, col: 10, offset: 91005},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27653,28 +27653,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2898, col: 8, offset: 91401},
+																													pos: position{line: 2898, col: 8, offset: 91403},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2885, col: 12, offset: 91174},
+																															pos: position{line: 2885, col: 12, offset: 91176},
 																															run: (*parser).callonExtraListElement462,
 																															expr: &choiceExpr{
-																																pos: position{line: 2885, col: 13, offset: 91175},
+																																pos: position{line: 2885, col: 13, offset: 91177},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2885, col: 13, offset: 91175},
+																																		pos:        position{line: 2885, col: 13, offset: 91177},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2885, col: 20, offset: 91182},
+																																		pos:        position{line: 2885, col: 20, offset: 91184},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2885, col: 29, offset: 91191},
+																																		pos:        position{line: 2885, col: 29, offset: 91193},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -27683,9 +27683,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2895, col: 8, offset: 91351},
+																															pos: position{line: 2895, col: 8, offset: 91353},
 																															expr: &anyMatcher{
-																																line: 2895, col: 9, offset: 91352,
+																																line: 2895, col: 9, offset: 91354,
 																															},
 																														},
 																													},
@@ -27698,18 +27698,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1698, col: 9, offset: 54987},
+																						pos: position{line: 1698, col: 9, offset: 54989},
 																						run: (*parser).callonExtraListElement469,
 																						expr: &seqExpr{
-																							pos: position{line: 1698, col: 9, offset: 54987},
+																							pos: position{line: 1698, col: 9, offset: 54989},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2880, col: 11, offset: 91064},
+																									pos: position{line: 2880, col: 11, offset: 91066},
 																									run: (*parser).callonExtraListElement471,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2880, col: 11, offset: 91064},
+																										pos: position{line: 2880, col: 11, offset: 91066},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2880, col: 11, offset: 91064},
+																											pos:        position{line: 2880, col: 11, offset: 91066},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27718,15 +27718,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1699, col: 9, offset: 55060},
+																									pos:   position{line: 1699, col: 9, offset: 55062},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1699, col: 18, offset: 55069},
+																										pos: position{line: 1699, col: 18, offset: 55071},
 																										run: (*parser).callonExtraListElement475,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1699, col: 18, offset: 55069},
+																											pos: position{line: 1699, col: 18, offset: 55071},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1699, col: 18, offset: 55069},
+																												pos:        position{line: 1699, col: 18, offset: 55071},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -27736,28 +27736,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2898, col: 8, offset: 91401},
+																									pos: position{line: 2898, col: 8, offset: 91403},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2885, col: 12, offset: 91174},
+																											pos: position{line: 2885, col: 12, offset: 91176},
 																											run: (*parser).callonExtraListElement479,
 																											expr: &choiceExpr{
-																												pos: position{line: 2885, col: 13, offset: 91175},
+																												pos: position{line: 2885, col: 13, offset: 91177},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 13, offset: 91175},
+																														pos:        position{line: 2885, col: 13, offset: 91177},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 20, offset: 91182},
+																														pos:        position{line: 2885, col: 20, offset: 91184},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 29, offset: 91191},
+																														pos:        position{line: 2885, col: 29, offset: 91193},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27766,9 +27766,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2895, col: 8, offset: 91351},
+																											pos: position{line: 2895, col: 8, offset: 91353},
 																											expr: &anyMatcher{
-																												line: 2895, col: 9, offset: 91352,
+																												line: 2895, col: 9, offset: 91354,
 																											},
 																										},
 																									},
@@ -27789,40 +27789,40 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1507, col: 11, offset: 48953},
+										pos:  position{line: 1507, col: 11, offset: 48955},
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2483, col: 22, offset: 79889},
+										pos: position{line: 2483, col: 22, offset: 79891},
 										run: (*parser).callonExtraListElement487,
 										expr: &seqExpr{
-											pos: position{line: 2483, col: 22, offset: 79889},
+											pos: position{line: 2483, col: 22, offset: 79891},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2488, col: 31, offset: 80110},
+													pos:        position{line: 2488, col: 31, offset: 80112},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2488, col: 36, offset: 80115},
+													pos: position{line: 2488, col: 36, offset: 80117},
 													expr: &litMatcher{
-														pos:        position{line: 2488, col: 37, offset: 80116},
+														pos:        position{line: 2488, col: 37, offset: 80118},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2483, col: 49, offset: 79916},
+													pos:   position{line: 2483, col: 49, offset: 79918},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2822, col: 13, offset: 89529},
+														pos: position{line: 2822, col: 13, offset: 89531},
 														run: (*parser).callonExtraListElement493,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2822, col: 13, offset: 89529},
+															pos: position{line: 2822, col: 13, offset: 89531},
 															expr: &charClassMatcher{
-																pos:        position{line: 2822, col: 13, offset: 89529},
+																pos:        position{line: 2822, col: 13, offset: 89531},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -27832,28 +27832,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2898, col: 8, offset: 91401},
+													pos: position{line: 2898, col: 8, offset: 91403},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91174},
+															pos: position{line: 2885, col: 12, offset: 91176},
 															run: (*parser).callonExtraListElement497,
 															expr: &choiceExpr{
-																pos: position{line: 2885, col: 13, offset: 91175},
+																pos: position{line: 2885, col: 13, offset: 91177},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 13, offset: 91175},
+																		pos:        position{line: 2885, col: 13, offset: 91177},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 20, offset: 91182},
+																		pos:        position{line: 2885, col: 20, offset: 91184},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 29, offset: 91191},
+																		pos:        position{line: 2885, col: 29, offset: 91193},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -27862,9 +27862,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2895, col: 8, offset: 91351},
+															pos: position{line: 2895, col: 8, offset: 91353},
 															expr: &anyMatcher{
-																line: 2895, col: 9, offset: 91352,
+																line: 2895, col: 9, offset: 91354,
 															},
 														},
 													},
@@ -27873,32 +27873,32 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1515, col: 5, offset: 49231},
+										pos: position{line: 1515, col: 5, offset: 49233},
 										run: (*parser).callonExtraListElement504,
 										expr: &seqExpr{
-											pos: position{line: 1515, col: 5, offset: 49231},
+											pos: position{line: 1515, col: 5, offset: 49233},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 1515, col: 5, offset: 49231},
+													pos: position{line: 1515, col: 5, offset: 49233},
 													expr: &actionExpr{
-														pos: position{line: 676, col: 14, offset: 21496},
+														pos: position{line: 676, col: 14, offset: 21498},
 														run: (*parser).callonExtraListElement507,
 														expr: &seqExpr{
-															pos: position{line: 676, col: 14, offset: 21496},
+															pos: position{line: 676, col: 14, offset: 21498},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2893, col: 11, offset: 91337},
+																	pos: position{line: 2893, col: 11, offset: 91339},
 																	expr: &anyMatcher{
-																		line: 2893, col: 13, offset: 91339,
+																		line: 2893, col: 13, offset: 91341,
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 676, col: 21, offset: 21503},
+																	pos: position{line: 676, col: 21, offset: 21505},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 91003},
+																		pos: position{line: 2876, col: 10, offset: 91005},
 																		run: (*parser).callonExtraListElement512,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 91003},
+																			pos:        position{line: 2876, col: 10, offset: 91005},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27907,28 +27907,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91401},
+																	pos: position{line: 2898, col: 8, offset: 91403},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91174},
+																			pos: position{line: 2885, col: 12, offset: 91176},
 																			run: (*parser).callonExtraListElement515,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91175},
+																				pos: position{line: 2885, col: 13, offset: 91177},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91175},
+																						pos:        position{line: 2885, col: 13, offset: 91177},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91182},
+																						pos:        position{line: 2885, col: 20, offset: 91184},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91191},
+																						pos:        position{line: 2885, col: 29, offset: 91193},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -27937,9 +27937,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91351},
+																			pos: position{line: 2895, col: 8, offset: 91353},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91352,
+																				line: 2895, col: 9, offset: 91354,
 																			},
 																		},
 																	},
@@ -27949,23 +27949,23 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1516, col: 5, offset: 49246},
+													pos: position{line: 1516, col: 5, offset: 49248},
 													expr: &seqExpr{
-														pos: position{line: 1546, col: 27, offset: 50072},
+														pos: position{line: 1546, col: 27, offset: 50074},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 1546, col: 27, offset: 50072},
+																pos:        position{line: 1546, col: 27, offset: 50074},
 																val:        "+",
 																ignoreCase: false,
 																want:       "\"+\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 1546, col: 31, offset: 50076},
+																pos: position{line: 1546, col: 31, offset: 50078},
 																expr: &actionExpr{
-																	pos: position{line: 2876, col: 10, offset: 91003},
+																	pos: position{line: 2876, col: 10, offset: 91005},
 																	run: (*parser).callonExtraListElement526,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2876, col: 10, offset: 91003},
+																		pos:        position{line: 2876, col: 10, offset: 91005},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -27974,25 +27974,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2885, col: 12, offset: 91174},
+																pos: position{line: 2885, col: 12, offset: 91176},
 																run: (*parser).callonExtraListElement528,
 																expr: &choiceExpr{
-																	pos: position{line: 2885, col: 13, offset: 91175},
+																	pos: position{line: 2885, col: 13, offset: 91177},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 13, offset: 91175},
+																			pos:        position{line: 2885, col: 13, offset: 91177},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 20, offset: 91182},
+																			pos:        position{line: 2885, col: 20, offset: 91184},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 29, offset: 91191},
+																			pos:        position{line: 2885, col: 29, offset: 91193},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -28004,20 +28004,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1517, col: 5, offset: 49274},
+													pos: position{line: 1517, col: 5, offset: 49276},
 													expr: &actionExpr{
-														pos: position{line: 1587, col: 5, offset: 51291},
+														pos: position{line: 1587, col: 5, offset: 51293},
 														run: (*parser).callonExtraListElement534,
 														expr: &seqExpr{
-															pos: position{line: 1587, col: 5, offset: 51291},
+															pos: position{line: 1587, col: 5, offset: 51293},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1587, col: 5, offset: 51291},
+																	pos: position{line: 1587, col: 5, offset: 51293},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 91003},
+																		pos: position{line: 2876, col: 10, offset: 91005},
 																		run: (*parser).callonExtraListElement537,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 91003},
+																			pos:        position{line: 2876, col: 10, offset: 91005},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28026,27 +28026,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1587, col: 12, offset: 51298},
+																	pos:   position{line: 1587, col: 12, offset: 51300},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1589, col: 9, offset: 51361},
+																		pos: position{line: 1589, col: 9, offset: 51363},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1589, col: 9, offset: 51361},
+																				pos: position{line: 1589, col: 9, offset: 51363},
 																				run: (*parser).callonExtraListElement541,
 																				expr: &seqExpr{
-																					pos: position{line: 1589, col: 9, offset: 51361},
+																					pos: position{line: 1589, col: 9, offset: 51363},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1589, col: 9, offset: 51361},
+																							pos:   position{line: 1589, col: 9, offset: 51363},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1589, col: 16, offset: 51368},
+																								pos: position{line: 1589, col: 16, offset: 51370},
 																								run: (*parser).callonExtraListElement544,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1589, col: 16, offset: 51368},
+																									pos: position{line: 1589, col: 16, offset: 51370},
 																									expr: &litMatcher{
-																										pos:        position{line: 1589, col: 17, offset: 51369},
+																										pos:        position{line: 1589, col: 17, offset: 51371},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -28055,22 +28055,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1593, col: 9, offset: 51469},
+																							pos: position{line: 1593, col: 9, offset: 51471},
 																							run: (*parser).callonExtraListElement547,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1612, col: 11, offset: 52186},
+																				pos: position{line: 1612, col: 11, offset: 52188},
 																				run: (*parser).callonExtraListElement548,
 																				expr: &seqExpr{
-																					pos: position{line: 1612, col: 11, offset: 52186},
+																					pos: position{line: 1612, col: 11, offset: 52188},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1612, col: 11, offset: 52186},
+																							pos: position{line: 1612, col: 11, offset: 52188},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1612, col: 12, offset: 52187},
+																								pos:        position{line: 1612, col: 12, offset: 52189},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -28078,7 +28078,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1612, col: 20, offset: 52195},
+																							pos:        position{line: 1612, col: 20, offset: 52197},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28087,20 +28087,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1614, col: 13, offset: 52312},
+																				pos: position{line: 1614, col: 13, offset: 52314},
 																				run: (*parser).callonExtraListElement553,
 																				expr: &seqExpr{
-																					pos: position{line: 1614, col: 13, offset: 52312},
+																					pos: position{line: 1614, col: 13, offset: 52314},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1614, col: 14, offset: 52313},
+																							pos:        position{line: 1614, col: 14, offset: 52315},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1614, col: 21, offset: 52320},
+																							pos:        position{line: 1614, col: 21, offset: 52322},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28109,20 +28109,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1616, col: 13, offset: 52440},
+																				pos: position{line: 1616, col: 13, offset: 52442},
 																				run: (*parser).callonExtraListElement557,
 																				expr: &seqExpr{
-																					pos: position{line: 1616, col: 13, offset: 52440},
+																					pos: position{line: 1616, col: 13, offset: 52442},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1616, col: 14, offset: 52441},
+																							pos:        position{line: 1616, col: 14, offset: 52443},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1616, col: 21, offset: 52448},
+																							pos:        position{line: 1616, col: 21, offset: 52450},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28131,15 +28131,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1618, col: 13, offset: 52568},
+																				pos: position{line: 1618, col: 13, offset: 52570},
 																				run: (*parser).callonExtraListElement561,
 																				expr: &seqExpr{
-																					pos: position{line: 1618, col: 13, offset: 52568},
+																					pos: position{line: 1618, col: 13, offset: 52570},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1618, col: 13, offset: 52568},
+																							pos: position{line: 1618, col: 13, offset: 52570},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1618, col: 14, offset: 52569},
+																								pos:        position{line: 1618, col: 14, offset: 52571},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -28147,7 +28147,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1618, col: 26, offset: 52581},
+																							pos:        position{line: 1618, col: 26, offset: 52583},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -28156,15 +28156,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1620, col: 13, offset: 52701},
+																				pos: position{line: 1620, col: 13, offset: 52703},
 																				run: (*parser).callonExtraListElement566,
 																				expr: &seqExpr{
-																					pos: position{line: 1620, col: 13, offset: 52701},
+																					pos: position{line: 1620, col: 13, offset: 52703},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1620, col: 13, offset: 52701},
+																							pos: position{line: 1620, col: 13, offset: 52703},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1620, col: 14, offset: 52702},
+																								pos:        position{line: 1620, col: 14, offset: 52704},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -28172,7 +28172,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1620, col: 26, offset: 52714},
+																							pos:        position{line: 1620, col: 26, offset: 52716},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -28184,12 +28184,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2880, col: 11, offset: 91064},
+																	pos: position{line: 2880, col: 11, offset: 91066},
 																	run: (*parser).callonExtraListElement571,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2880, col: 11, offset: 91064},
+																		pos: position{line: 2880, col: 11, offset: 91066},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 11, offset: 91064},
+																			pos:        position{line: 2880, col: 11, offset: 91066},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28202,20 +28202,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1518, col: 5, offset: 49304},
+													pos: position{line: 1518, col: 5, offset: 49306},
 													expr: &actionExpr{
-														pos: position{line: 1637, col: 5, offset: 53253},
+														pos: position{line: 1637, col: 5, offset: 53255},
 														run: (*parser).callonExtraListElement575,
 														expr: &seqExpr{
-															pos: position{line: 1637, col: 5, offset: 53253},
+															pos: position{line: 1637, col: 5, offset: 53255},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1637, col: 5, offset: 53253},
+																	pos: position{line: 1637, col: 5, offset: 53255},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 91003},
+																		pos: position{line: 2876, col: 10, offset: 91005},
 																		run: (*parser).callonExtraListElement578,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 91003},
+																			pos:        position{line: 2876, col: 10, offset: 91005},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28224,24 +28224,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1638, col: 5, offset: 53265},
+																	pos:   position{line: 1638, col: 5, offset: 53267},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1639, col: 9, offset: 53281},
+																		pos: position{line: 1639, col: 9, offset: 53283},
 																		run: (*parser).callonExtraListElement581,
 																		expr: &choiceExpr{
-																			pos: position{line: 1639, col: 10, offset: 53282},
+																			pos: position{line: 1639, col: 10, offset: 53284},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1639, col: 11, offset: 53283},
+																					pos:        position{line: 1639, col: 11, offset: 53285},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1639, col: 18, offset: 53290},
+																					pos: position{line: 1639, col: 18, offset: 53292},
 																					expr: &litMatcher{
-																						pos:        position{line: 1639, col: 19, offset: 53291},
+																						pos:        position{line: 1639, col: 19, offset: 53293},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -28252,16 +28252,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1642, col: 7, offset: 53381},
+																	pos: position{line: 1642, col: 7, offset: 53383},
 																	run: (*parser).callonExtraListElement586,
 																},
 																&actionExpr{
-																	pos: position{line: 2880, col: 11, offset: 91064},
+																	pos: position{line: 2880, col: 11, offset: 91066},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2880, col: 11, offset: 91064},
+																		pos: position{line: 2880, col: 11, offset: 91066},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 11, offset: 91064},
+																			pos:        position{line: 2880, col: 11, offset: 91066},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28274,29 +28274,29 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1519, col: 5, offset: 49336},
+													pos: position{line: 1519, col: 5, offset: 49338},
 													expr: &actionExpr{
-														pos: position{line: 1727, col: 5, offset: 55822},
+														pos: position{line: 1727, col: 5, offset: 55824},
 														run: (*parser).callonExtraListElement591,
 														expr: &seqExpr{
-															pos: position{line: 1727, col: 5, offset: 55822},
+															pos: position{line: 1727, col: 5, offset: 55824},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1727, col: 5, offset: 55822},
+																	pos:        position{line: 1727, col: 5, offset: 55824},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1727, col: 9, offset: 55826},
+																	pos:   position{line: 1727, col: 9, offset: 55828},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1727, col: 14, offset: 55831},
+																		pos: position{line: 1727, col: 14, offset: 55833},
 																		run: (*parser).callonExtraListElement595,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1727, col: 14, offset: 55831},
+																			pos: position{line: 1727, col: 14, offset: 55833},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1727, col: 14, offset: 55831},
+																				pos:        position{line: 1727, col: 14, offset: 55833},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -28306,18 +28306,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1727, col: 62, offset: 55879},
+																	pos:        position{line: 1727, col: 62, offset: 55881},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2880, col: 11, offset: 91064},
+																	pos: position{line: 2880, col: 11, offset: 91066},
 																	run: (*parser).callonExtraListElement599,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2880, col: 11, offset: 91064},
+																		pos: position{line: 2880, col: 11, offset: 91066},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 11, offset: 91064},
+																			pos:        position{line: 2880, col: 11, offset: 91066},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28330,31 +28330,31 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1520, col: 5, offset: 49366},
+													pos: position{line: 1520, col: 5, offset: 49368},
 													expr: &seqExpr{
-														pos: position{line: 1520, col: 7, offset: 49368},
+														pos: position{line: 1520, col: 7, offset: 49370},
 														exprs: []interface{}{
 															&actionExpr{
-																pos: position{line: 1672, col: 5, offset: 54272},
+																pos: position{line: 1672, col: 5, offset: 54274},
 																run: (*parser).callonExtraListElement604,
 																expr: &seqExpr{
-																	pos: position{line: 1672, col: 5, offset: 54272},
+																	pos: position{line: 1672, col: 5, offset: 54274},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1672, col: 5, offset: 54272},
+																			pos: position{line: 1672, col: 5, offset: 54274},
 																			expr: &seqExpr{
-																				pos: position{line: 2488, col: 31, offset: 80110},
+																				pos: position{line: 2488, col: 31, offset: 80112},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2488, col: 31, offset: 80110},
+																						pos:        position{line: 2488, col: 31, offset: 80112},
 																						val:        "//",
 																						ignoreCase: false,
 																						want:       "\"//\"",
 																					},
 																					&notExpr{
-																						pos: position{line: 2488, col: 36, offset: 80115},
+																						pos: position{line: 2488, col: 36, offset: 80117},
 																						expr: &litMatcher{
-																							pos:        position{line: 2488, col: 37, offset: 80116},
+																							pos:        position{line: 2488, col: 37, offset: 80118},
 																							val:        "//",
 																							ignoreCase: false,
 																							want:       "\"//\"",
@@ -28364,28 +28364,28 @@ var g = &grammar{
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 1673, col: 5, offset: 54304},
+																			pos: position{line: 1673, col: 5, offset: 54306},
 																			expr: &seqExpr{
-																				pos: position{line: 1673, col: 6, offset: 54305},
+																				pos: position{line: 1673, col: 6, offset: 54307},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1673, col: 6, offset: 54305},
+																						pos: position{line: 1673, col: 6, offset: 54307},
 																						expr: &actionExpr{
-																							pos: position{line: 1678, col: 5, offset: 54455},
+																							pos: position{line: 1678, col: 5, offset: 54457},
 																							run: (*parser).callonExtraListElement614,
 																							expr: &seqExpr{
-																								pos: position{line: 1678, col: 5, offset: 54455},
+																								pos: position{line: 1678, col: 5, offset: 54457},
 																								exprs: []interface{}{
 																									&labeledExpr{
-																										pos:   position{line: 1678, col: 5, offset: 54455},
+																										pos:   position{line: 1678, col: 5, offset: 54457},
 																										label: "separator",
 																										expr: &actionExpr{
-																											pos: position{line: 1678, col: 16, offset: 54466},
+																											pos: position{line: 1678, col: 16, offset: 54468},
 																											run: (*parser).callonExtraListElement617,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1678, col: 16, offset: 54466},
+																												pos: position{line: 1678, col: 16, offset: 54468},
 																												expr: &litMatcher{
-																													pos:        position{line: 1678, col: 17, offset: 54467},
+																													pos:        position{line: 1678, col: 17, offset: 54469},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
@@ -28394,7 +28394,7 @@ var g = &grammar{
 																										},
 																									},
 																									&andCodeExpr{
-																										pos: position{line: 1681, col: 5, offset: 54524},
+																										pos: position{line: 1681, col: 5, offset: 54526},
 																										run: (*parser).callonExtraListElement620,
 																									},
 																								},
@@ -28402,30 +28402,30 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1673, col: 35, offset: 54334},
+																						pos: position{line: 1673, col: 35, offset: 54336},
 																						expr: &choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91401},
+																							pos: position{line: 2898, col: 8, offset: 91403},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91174},
+																									pos: position{line: 2885, col: 12, offset: 91176},
 																									run: (*parser).callonExtraListElement623,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91175},
+																										pos: position{line: 2885, col: 13, offset: 91177},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91175},
+																												pos:        position{line: 2885, col: 13, offset: 91177},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91182},
+																												pos:        position{line: 2885, col: 20, offset: 91184},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91191},
+																												pos:        position{line: 2885, col: 29, offset: 91193},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28434,16 +28434,16 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91351},
+																									pos: position{line: 2895, col: 8, offset: 91353},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91352,
+																										line: 2895, col: 9, offset: 91354,
 																									},
 																								},
 																							},
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1673, col: 40, offset: 54339,
+																						line: 1673, col: 40, offset: 54341,
 																					},
 																				},
 																			},
@@ -28452,21 +28452,21 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1678, col: 5, offset: 54455},
+																pos: position{line: 1678, col: 5, offset: 54457},
 																run: (*parser).callonExtraListElement631,
 																expr: &seqExpr{
-																	pos: position{line: 1678, col: 5, offset: 54455},
+																	pos: position{line: 1678, col: 5, offset: 54457},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1678, col: 5, offset: 54455},
+																			pos:   position{line: 1678, col: 5, offset: 54457},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1678, col: 16, offset: 54466},
+																				pos: position{line: 1678, col: 16, offset: 54468},
 																				run: (*parser).callonExtraListElement634,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1678, col: 16, offset: 54466},
+																					pos: position{line: 1678, col: 16, offset: 54468},
 																					expr: &litMatcher{
-																						pos:        position{line: 1678, col: 17, offset: 54467},
+																						pos:        position{line: 1678, col: 17, offset: 54469},
 																						val:        ":",
 																						ignoreCase: false,
 																						want:       "\":\"",
@@ -28475,7 +28475,7 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1681, col: 5, offset: 54524},
+																			pos: position{line: 1681, col: 5, offset: 54526},
 																			run: (*parser).callonExtraListElement637,
 																		},
 																	},
@@ -28485,17 +28485,17 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1521, col: 5, offset: 49424},
+													pos: position{line: 1521, col: 5, offset: 49426},
 													expr: &actionExpr{
-														pos: position{line: 723, col: 5, offset: 23049},
+														pos: position{line: 723, col: 5, offset: 23051},
 														run: (*parser).callonExtraListElement639,
 														expr: &seqExpr{
-															pos: position{line: 723, col: 5, offset: 23049},
+															pos: position{line: 723, col: 5, offset: 23051},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 723, col: 5, offset: 23049},
+																	pos: position{line: 723, col: 5, offset: 23051},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2766, col: 13, offset: 88077},
+																		pos:        position{line: 2766, col: 13, offset: 88079},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -28503,36 +28503,36 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 724, col: 5, offset: 23079},
+																	pos:   position{line: 724, col: 5, offset: 23081},
 																	label: "delimiter",
 																	expr: &choiceExpr{
-																		pos: position{line: 725, col: 9, offset: 23099},
+																		pos: position{line: 725, col: 9, offset: 23101},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 739, col: 5, offset: 23591},
+																				pos: position{line: 739, col: 5, offset: 23593},
 																				run: (*parser).callonExtraListElement645,
 																				expr: &seqExpr{
-																					pos: position{line: 739, col: 5, offset: 23591},
+																					pos: position{line: 739, col: 5, offset: 23593},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 739, col: 5, offset: 23591},
+																							pos:   position{line: 739, col: 5, offset: 23593},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 739, col: 16, offset: 23602},
+																								pos: position{line: 739, col: 16, offset: 23604},
 																								run: (*parser).callonExtraListElement648,
 																								expr: &seqExpr{
-																									pos: position{line: 739, col: 16, offset: 23602},
+																									pos: position{line: 739, col: 16, offset: 23604},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 739, col: 16, offset: 23602},
+																											pos:        position{line: 739, col: 16, offset: 23604},
 																											val:        "////",
 																											ignoreCase: false,
 																											want:       "\"////\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 739, col: 23, offset: 23609},
+																											pos: position{line: 739, col: 23, offset: 23611},
 																											expr: &litMatcher{
-																												pos:        position{line: 739, col: 23, offset: 23609},
+																												pos:        position{line: 739, col: 23, offset: 23611},
 																												val:        "/",
 																												ignoreCase: false,
 																												want:       "\"/\"",
@@ -28543,12 +28543,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 741, col: 8, offset: 23693},
+																							pos: position{line: 741, col: 8, offset: 23695},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 91003},
+																								pos: position{line: 2876, col: 10, offset: 91005},
 																								run: (*parser).callonExtraListElement654,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 91003},
+																									pos:        position{line: 2876, col: 10, offset: 91005},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28557,28 +28557,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91401},
+																							pos: position{line: 2898, col: 8, offset: 91403},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91174},
+																									pos: position{line: 2885, col: 12, offset: 91176},
 																									run: (*parser).callonExtraListElement657,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91175},
+																										pos: position{line: 2885, col: 13, offset: 91177},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91175},
+																												pos:        position{line: 2885, col: 13, offset: 91177},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91182},
+																												pos:        position{line: 2885, col: 20, offset: 91184},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91191},
+																												pos:        position{line: 2885, col: 29, offset: 91193},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28587,9 +28587,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91351},
+																									pos: position{line: 2895, col: 8, offset: 91353},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91352,
+																										line: 2895, col: 9, offset: 91354,
 																									},
 																								},
 																							},
@@ -28598,30 +28598,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 746, col: 5, offset: 23839},
+																				pos: position{line: 746, col: 5, offset: 23841},
 																				run: (*parser).callonExtraListElement664,
 																				expr: &seqExpr{
-																					pos: position{line: 746, col: 5, offset: 23839},
+																					pos: position{line: 746, col: 5, offset: 23841},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 746, col: 5, offset: 23839},
+																							pos:   position{line: 746, col: 5, offset: 23841},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 746, col: 16, offset: 23850},
+																								pos: position{line: 746, col: 16, offset: 23852},
 																								run: (*parser).callonExtraListElement667,
 																								expr: &seqExpr{
-																									pos: position{line: 746, col: 16, offset: 23850},
+																									pos: position{line: 746, col: 16, offset: 23852},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 746, col: 16, offset: 23850},
+																											pos:        position{line: 746, col: 16, offset: 23852},
 																											val:        "====",
 																											ignoreCase: false,
 																											want:       "\"====\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 746, col: 23, offset: 23857},
+																											pos: position{line: 746, col: 23, offset: 23859},
 																											expr: &litMatcher{
-																												pos:        position{line: 746, col: 23, offset: 23857},
+																												pos:        position{line: 746, col: 23, offset: 23859},
 																												val:        "=",
 																												ignoreCase: false,
 																												want:       "\"=\"",
@@ -28632,12 +28632,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 748, col: 8, offset: 23941},
+																							pos: position{line: 748, col: 8, offset: 23943},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 91003},
+																								pos: position{line: 2876, col: 10, offset: 91005},
 																								run: (*parser).callonExtraListElement673,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 91003},
+																									pos:        position{line: 2876, col: 10, offset: 91005},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28646,28 +28646,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91401},
+																							pos: position{line: 2898, col: 8, offset: 91403},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91174},
+																									pos: position{line: 2885, col: 12, offset: 91176},
 																									run: (*parser).callonExtraListElement676,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91175},
+																										pos: position{line: 2885, col: 13, offset: 91177},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91175},
+																												pos:        position{line: 2885, col: 13, offset: 91177},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91182},
+																												pos:        position{line: 2885, col: 20, offset: 91184},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91191},
+																												pos:        position{line: 2885, col: 29, offset: 91193},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28676,9 +28676,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91351},
+																									pos: position{line: 2895, col: 8, offset: 91353},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91352,
+																										line: 2895, col: 9, offset: 91354,
 																									},
 																								},
 																							},
@@ -28687,27 +28687,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 759, col: 26, offset: 24327},
+																				pos: position{line: 759, col: 26, offset: 24329},
 																				run: (*parser).callonExtraListElement683,
 																				expr: &seqExpr{
-																					pos: position{line: 759, col: 26, offset: 24327},
+																					pos: position{line: 759, col: 26, offset: 24329},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 759, col: 26, offset: 24327},
+																							pos:        position{line: 759, col: 26, offset: 24329},
 																							val:        "```",
 																							ignoreCase: false,
 																							want:       "\"```\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 759, col: 32, offset: 24333},
+																							pos:   position{line: 759, col: 32, offset: 24335},
 																							label: "language",
 																							expr: &actionExpr{
-																								pos: position{line: 763, col: 13, offset: 24463},
+																								pos: position{line: 763, col: 13, offset: 24465},
 																								run: (*parser).callonExtraListElement687,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 763, col: 14, offset: 24464},
+																									pos: position{line: 763, col: 14, offset: 24466},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 763, col: 14, offset: 24464},
+																										pos:        position{line: 763, col: 14, offset: 24466},
 																										val:        "[^\\r\\n`\\t ]",
 																										chars:      []rune{'\r', '\n', '`', '\t', ' '},
 																										ignoreCase: false,
@@ -28717,12 +28717,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 759, col: 52, offset: 24353},
+																							pos: position{line: 759, col: 52, offset: 24355},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 91003},
+																								pos: position{line: 2876, col: 10, offset: 91005},
 																								run: (*parser).callonExtraListElement691,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 91003},
+																									pos:        position{line: 2876, col: 10, offset: 91005},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28731,28 +28731,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91401},
+																							pos: position{line: 2898, col: 8, offset: 91403},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91174},
+																									pos: position{line: 2885, col: 12, offset: 91176},
 																									run: (*parser).callonExtraListElement694,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91175},
+																										pos: position{line: 2885, col: 13, offset: 91177},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91175},
+																												pos:        position{line: 2885, col: 13, offset: 91177},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91182},
+																												pos:        position{line: 2885, col: 20, offset: 91184},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91191},
+																												pos:        position{line: 2885, col: 29, offset: 91193},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28761,9 +28761,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91351},
+																									pos: position{line: 2895, col: 8, offset: 91353},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91352,
+																										line: 2895, col: 9, offset: 91354,
 																									},
 																								},
 																							},
@@ -28772,30 +28772,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 753, col: 5, offset: 24086},
+																				pos: position{line: 753, col: 5, offset: 24088},
 																				run: (*parser).callonExtraListElement701,
 																				expr: &seqExpr{
-																					pos: position{line: 753, col: 5, offset: 24086},
+																					pos: position{line: 753, col: 5, offset: 24088},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 753, col: 5, offset: 24086},
+																							pos:   position{line: 753, col: 5, offset: 24088},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 753, col: 16, offset: 24097},
+																								pos: position{line: 753, col: 16, offset: 24099},
 																								run: (*parser).callonExtraListElement704,
 																								expr: &seqExpr{
-																									pos: position{line: 753, col: 16, offset: 24097},
+																									pos: position{line: 753, col: 16, offset: 24099},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 753, col: 16, offset: 24097},
+																											pos:        position{line: 753, col: 16, offset: 24099},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 753, col: 22, offset: 24103},
+																											pos: position{line: 753, col: 22, offset: 24105},
 																											expr: &litMatcher{
-																												pos:        position{line: 753, col: 22, offset: 24103},
+																												pos:        position{line: 753, col: 22, offset: 24105},
 																												val:        "`",
 																												ignoreCase: false,
 																												want:       "\"`\"",
@@ -28806,12 +28806,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 755, col: 8, offset: 24187},
+																							pos: position{line: 755, col: 8, offset: 24189},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 91003},
+																								pos: position{line: 2876, col: 10, offset: 91005},
 																								run: (*parser).callonExtraListElement710,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 91003},
+																									pos:        position{line: 2876, col: 10, offset: 91005},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28820,28 +28820,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91401},
+																							pos: position{line: 2898, col: 8, offset: 91403},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91174},
+																									pos: position{line: 2885, col: 12, offset: 91176},
 																									run: (*parser).callonExtraListElement713,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91175},
+																										pos: position{line: 2885, col: 13, offset: 91177},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91175},
+																												pos:        position{line: 2885, col: 13, offset: 91177},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91182},
+																												pos:        position{line: 2885, col: 20, offset: 91184},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91191},
+																												pos:        position{line: 2885, col: 29, offset: 91193},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28850,9 +28850,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91351},
+																									pos: position{line: 2895, col: 8, offset: 91353},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91352,
+																										line: 2895, col: 9, offset: 91354,
 																									},
 																								},
 																							},
@@ -28861,30 +28861,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 768, col: 5, offset: 24628},
+																				pos: position{line: 768, col: 5, offset: 24630},
 																				run: (*parser).callonExtraListElement720,
 																				expr: &seqExpr{
-																					pos: position{line: 768, col: 5, offset: 24628},
+																					pos: position{line: 768, col: 5, offset: 24630},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 768, col: 5, offset: 24628},
+																							pos:   position{line: 768, col: 5, offset: 24630},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 768, col: 16, offset: 24639},
+																								pos: position{line: 768, col: 16, offset: 24641},
 																								run: (*parser).callonExtraListElement723,
 																								expr: &seqExpr{
-																									pos: position{line: 768, col: 16, offset: 24639},
+																									pos: position{line: 768, col: 16, offset: 24641},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 768, col: 16, offset: 24639},
+																											pos:        position{line: 768, col: 16, offset: 24641},
 																											val:        "----",
 																											ignoreCase: false,
 																											want:       "\"----\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 768, col: 23, offset: 24646},
+																											pos: position{line: 768, col: 23, offset: 24648},
 																											expr: &litMatcher{
-																												pos:        position{line: 768, col: 23, offset: 24646},
+																												pos:        position{line: 768, col: 23, offset: 24648},
 																												val:        "-",
 																												ignoreCase: false,
 																												want:       "\"-\"",
@@ -28895,12 +28895,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 770, col: 8, offset: 24730},
+																							pos: position{line: 770, col: 8, offset: 24732},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 91003},
+																								pos: position{line: 2876, col: 10, offset: 91005},
 																								run: (*parser).callonExtraListElement729,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 91003},
+																									pos:        position{line: 2876, col: 10, offset: 91005},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28909,28 +28909,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91401},
+																							pos: position{line: 2898, col: 8, offset: 91403},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91174},
+																									pos: position{line: 2885, col: 12, offset: 91176},
 																									run: (*parser).callonExtraListElement732,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91175},
+																										pos: position{line: 2885, col: 13, offset: 91177},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91175},
+																												pos:        position{line: 2885, col: 13, offset: 91177},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91182},
+																												pos:        position{line: 2885, col: 20, offset: 91184},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91191},
+																												pos:        position{line: 2885, col: 29, offset: 91193},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28939,9 +28939,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91351},
+																									pos: position{line: 2895, col: 8, offset: 91353},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91352,
+																										line: 2895, col: 9, offset: 91354,
 																									},
 																								},
 																							},
@@ -28950,30 +28950,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 782, col: 5, offset: 25104},
+																				pos: position{line: 782, col: 5, offset: 25106},
 																				run: (*parser).callonExtraListElement739,
 																				expr: &seqExpr{
-																					pos: position{line: 782, col: 5, offset: 25104},
+																					pos: position{line: 782, col: 5, offset: 25106},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 782, col: 5, offset: 25104},
+																							pos:   position{line: 782, col: 5, offset: 25106},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 782, col: 16, offset: 25115},
+																								pos: position{line: 782, col: 16, offset: 25117},
 																								run: (*parser).callonExtraListElement742,
 																								expr: &seqExpr{
-																									pos: position{line: 782, col: 16, offset: 25115},
+																									pos: position{line: 782, col: 16, offset: 25117},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 782, col: 16, offset: 25115},
+																											pos:        position{line: 782, col: 16, offset: 25117},
 																											val:        "....",
 																											ignoreCase: false,
 																											want:       "\"....\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 782, col: 23, offset: 25122},
+																											pos: position{line: 782, col: 23, offset: 25124},
 																											expr: &litMatcher{
-																												pos:        position{line: 782, col: 23, offset: 25122},
+																												pos:        position{line: 782, col: 23, offset: 25124},
 																												val:        ".",
 																												ignoreCase: false,
 																												want:       "\".\"",
@@ -28984,12 +28984,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 784, col: 8, offset: 25206},
+																							pos: position{line: 784, col: 8, offset: 25208},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 91003},
+																								pos: position{line: 2876, col: 10, offset: 91005},
 																								run: (*parser).callonExtraListElement748,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 91003},
+																									pos:        position{line: 2876, col: 10, offset: 91005},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28998,28 +28998,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91401},
+																							pos: position{line: 2898, col: 8, offset: 91403},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91174},
+																									pos: position{line: 2885, col: 12, offset: 91176},
 																									run: (*parser).callonExtraListElement751,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91175},
+																										pos: position{line: 2885, col: 13, offset: 91177},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91175},
+																												pos:        position{line: 2885, col: 13, offset: 91177},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91182},
+																												pos:        position{line: 2885, col: 20, offset: 91184},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91191},
+																												pos:        position{line: 2885, col: 29, offset: 91193},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29028,9 +29028,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91351},
+																									pos: position{line: 2895, col: 8, offset: 91353},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91352,
+																										line: 2895, col: 9, offset: 91354,
 																									},
 																								},
 																							},
@@ -29039,30 +29039,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 789, col: 5, offset: 25356},
+																				pos: position{line: 789, col: 5, offset: 25358},
 																				run: (*parser).callonExtraListElement758,
 																				expr: &seqExpr{
-																					pos: position{line: 789, col: 5, offset: 25356},
+																					pos: position{line: 789, col: 5, offset: 25358},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 789, col: 5, offset: 25356},
+																							pos:   position{line: 789, col: 5, offset: 25358},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 789, col: 16, offset: 25367},
+																								pos: position{line: 789, col: 16, offset: 25369},
 																								run: (*parser).callonExtraListElement761,
 																								expr: &seqExpr{
-																									pos: position{line: 789, col: 16, offset: 25367},
+																									pos: position{line: 789, col: 16, offset: 25369},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 789, col: 16, offset: 25367},
+																											pos:        position{line: 789, col: 16, offset: 25369},
 																											val:        "++++",
 																											ignoreCase: false,
 																											want:       "\"++++\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 789, col: 23, offset: 25374},
+																											pos: position{line: 789, col: 23, offset: 25376},
 																											expr: &litMatcher{
-																												pos:        position{line: 789, col: 23, offset: 25374},
+																												pos:        position{line: 789, col: 23, offset: 25376},
 																												val:        "+",
 																												ignoreCase: false,
 																												want:       "\"+\"",
@@ -29073,12 +29073,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 791, col: 8, offset: 25458},
+																							pos: position{line: 791, col: 8, offset: 25460},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 91003},
+																								pos: position{line: 2876, col: 10, offset: 91005},
 																								run: (*parser).callonExtraListElement767,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 91003},
+																									pos:        position{line: 2876, col: 10, offset: 91005},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29087,28 +29087,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91401},
+																							pos: position{line: 2898, col: 8, offset: 91403},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91174},
+																									pos: position{line: 2885, col: 12, offset: 91176},
 																									run: (*parser).callonExtraListElement770,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91175},
+																										pos: position{line: 2885, col: 13, offset: 91177},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91175},
+																												pos:        position{line: 2885, col: 13, offset: 91177},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91182},
+																												pos:        position{line: 2885, col: 20, offset: 91184},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91191},
+																												pos:        position{line: 2885, col: 29, offset: 91193},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29117,9 +29117,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91351},
+																									pos: position{line: 2895, col: 8, offset: 91353},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91352,
+																										line: 2895, col: 9, offset: 91354,
 																									},
 																								},
 																							},
@@ -29128,30 +29128,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 796, col: 5, offset: 25606},
+																				pos: position{line: 796, col: 5, offset: 25608},
 																				run: (*parser).callonExtraListElement777,
 																				expr: &seqExpr{
-																					pos: position{line: 796, col: 5, offset: 25606},
+																					pos: position{line: 796, col: 5, offset: 25608},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 796, col: 5, offset: 25606},
+																							pos:   position{line: 796, col: 5, offset: 25608},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 796, col: 16, offset: 25617},
+																								pos: position{line: 796, col: 16, offset: 25619},
 																								run: (*parser).callonExtraListElement780,
 																								expr: &seqExpr{
-																									pos: position{line: 796, col: 16, offset: 25617},
+																									pos: position{line: 796, col: 16, offset: 25619},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 796, col: 16, offset: 25617},
+																											pos:        position{line: 796, col: 16, offset: 25619},
 																											val:        "____",
 																											ignoreCase: false,
 																											want:       "\"____\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 796, col: 23, offset: 25624},
+																											pos: position{line: 796, col: 23, offset: 25626},
 																											expr: &litMatcher{
-																												pos:        position{line: 796, col: 23, offset: 25624},
+																												pos:        position{line: 796, col: 23, offset: 25626},
 																												val:        "_",
 																												ignoreCase: false,
 																												want:       "\"_\"",
@@ -29162,12 +29162,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 798, col: 8, offset: 25708},
+																							pos: position{line: 798, col: 8, offset: 25710},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 91003},
+																								pos: position{line: 2876, col: 10, offset: 91005},
 																								run: (*parser).callonExtraListElement786,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 91003},
+																									pos:        position{line: 2876, col: 10, offset: 91005},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29176,28 +29176,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91401},
+																							pos: position{line: 2898, col: 8, offset: 91403},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91174},
+																									pos: position{line: 2885, col: 12, offset: 91176},
 																									run: (*parser).callonExtraListElement789,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91175},
+																										pos: position{line: 2885, col: 13, offset: 91177},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91175},
+																												pos:        position{line: 2885, col: 13, offset: 91177},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91182},
+																												pos:        position{line: 2885, col: 20, offset: 91184},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91191},
+																												pos:        position{line: 2885, col: 29, offset: 91193},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29206,9 +29206,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91351},
+																									pos: position{line: 2895, col: 8, offset: 91353},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91352,
+																										line: 2895, col: 9, offset: 91354,
 																									},
 																								},
 																							},
@@ -29217,30 +29217,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 803, col: 5, offset: 25852},
+																				pos: position{line: 803, col: 5, offset: 25854},
 																				run: (*parser).callonExtraListElement796,
 																				expr: &seqExpr{
-																					pos: position{line: 803, col: 5, offset: 25852},
+																					pos: position{line: 803, col: 5, offset: 25854},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 803, col: 5, offset: 25852},
+																							pos:   position{line: 803, col: 5, offset: 25854},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 803, col: 16, offset: 25863},
+																								pos: position{line: 803, col: 16, offset: 25865},
 																								run: (*parser).callonExtraListElement799,
 																								expr: &seqExpr{
-																									pos: position{line: 803, col: 16, offset: 25863},
+																									pos: position{line: 803, col: 16, offset: 25865},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 803, col: 16, offset: 25863},
+																											pos:        position{line: 803, col: 16, offset: 25865},
 																											val:        "****",
 																											ignoreCase: false,
 																											want:       "\"****\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 803, col: 23, offset: 25870},
+																											pos: position{line: 803, col: 23, offset: 25872},
 																											expr: &litMatcher{
-																												pos:        position{line: 803, col: 23, offset: 25870},
+																												pos:        position{line: 803, col: 23, offset: 25872},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -29251,12 +29251,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 805, col: 8, offset: 25954},
+																							pos: position{line: 805, col: 8, offset: 25956},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 91003},
+																								pos: position{line: 2876, col: 10, offset: 91005},
 																								run: (*parser).callonExtraListElement805,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 91003},
+																									pos:        position{line: 2876, col: 10, offset: 91005},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29265,28 +29265,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91401},
+																							pos: position{line: 2898, col: 8, offset: 91403},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91174},
+																									pos: position{line: 2885, col: 12, offset: 91176},
 																									run: (*parser).callonExtraListElement808,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91175},
+																										pos: position{line: 2885, col: 13, offset: 91177},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91175},
+																												pos:        position{line: 2885, col: 13, offset: 91177},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91182},
+																												pos:        position{line: 2885, col: 20, offset: 91184},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91191},
+																												pos:        position{line: 2885, col: 29, offset: 91193},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29295,9 +29295,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91351},
+																									pos: position{line: 2895, col: 8, offset: 91353},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91352,
+																										line: 2895, col: 9, offset: 91354,
 																									},
 																								},
 																							},
@@ -29313,15 +29313,15 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1522, col: 5, offset: 49444},
+													pos:   position{line: 1522, col: 5, offset: 49446},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2826, col: 14, offset: 89596},
+														pos: position{line: 2826, col: 14, offset: 89598},
 														run: (*parser).callonExtraListElement816,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2826, col: 14, offset: 89596},
+															pos: position{line: 2826, col: 14, offset: 89598},
 															expr: &charClassMatcher{
-																pos:        position{line: 2826, col: 14, offset: 89596},
+																pos:        position{line: 2826, col: 14, offset: 89598},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -29331,28 +29331,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2898, col: 8, offset: 91401},
+													pos: position{line: 2898, col: 8, offset: 91403},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91174},
+															pos: position{line: 2885, col: 12, offset: 91176},
 															run: (*parser).callonExtraListElement820,
 															expr: &choiceExpr{
-																pos: position{line: 2885, col: 13, offset: 91175},
+																pos: position{line: 2885, col: 13, offset: 91177},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 13, offset: 91175},
+																		pos:        position{line: 2885, col: 13, offset: 91177},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 20, offset: 91182},
+																		pos:        position{line: 2885, col: 20, offset: 91184},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 29, offset: 91191},
+																		pos:        position{line: 2885, col: 29, offset: 91193},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -29361,9 +29361,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2895, col: 8, offset: 91351},
+															pos: position{line: 2895, col: 8, offset: 91353},
 															expr: &anyMatcher{
-																line: 2895, col: 9, offset: 91352,
+																line: 2895, col: 9, offset: 91354,
 															},
 														},
 													},
@@ -29380,28 +29380,28 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuation",
-			pos:  position{line: 1538, col: 1, offset: 49835},
+			pos:  position{line: 1538, col: 1, offset: 49837},
 			expr: &actionExpr{
-				pos: position{line: 1539, col: 5, offset: 49860},
+				pos: position{line: 1539, col: 5, offset: 49862},
 				run: (*parser).callonListContinuation1,
 				expr: &seqExpr{
-					pos: position{line: 1539, col: 5, offset: 49860},
+					pos: position{line: 1539, col: 5, offset: 49862},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1539, col: 5, offset: 49860},
+							pos:   position{line: 1539, col: 5, offset: 49862},
 							label: "offset",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1539, col: 12, offset: 49867},
+								pos: position{line: 1539, col: 12, offset: 49869},
 								expr: &seqExpr{
-									pos: position{line: 1539, col: 13, offset: 49868},
+									pos: position{line: 1539, col: 13, offset: 49870},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 1539, col: 13, offset: 49868},
+											pos: position{line: 1539, col: 13, offset: 49870},
 											expr: &actionExpr{
-												pos: position{line: 2876, col: 10, offset: 91003},
+												pos: position{line: 2876, col: 10, offset: 91005},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2876, col: 10, offset: 91003},
+													pos:        position{line: 2876, col: 10, offset: 91005},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -29410,25 +29410,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2885, col: 12, offset: 91174},
+											pos: position{line: 2885, col: 12, offset: 91176},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2885, col: 13, offset: 91175},
+												pos: position{line: 2885, col: 13, offset: 91177},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2885, col: 13, offset: 91175},
+														pos:        position{line: 2885, col: 13, offset: 91177},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2885, col: 20, offset: 91182},
+														pos:        position{line: 2885, col: 20, offset: 91184},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2885, col: 29, offset: 91191},
+														pos:        position{line: 2885, col: 29, offset: 91193},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -29441,18 +29441,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1546, col: 27, offset: 50072},
+							pos:        position{line: 1546, col: 27, offset: 50074},
 							val:        "+",
 							ignoreCase: false,
 							want:       "\"+\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1546, col: 31, offset: 50076},
+							pos: position{line: 1546, col: 31, offset: 50078},
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 10, offset: 91003},
+								pos: position{line: 2876, col: 10, offset: 91005},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2876, col: 10, offset: 91003},
+									pos:        position{line: 2876, col: 10, offset: 91005},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -29461,25 +29461,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2885, col: 12, offset: 91174},
+							pos: position{line: 2885, col: 12, offset: 91176},
 							run: (*parser).callonListContinuation18,
 							expr: &choiceExpr{
-								pos: position{line: 2885, col: 13, offset: 91175},
+								pos: position{line: 2885, col: 13, offset: 91177},
 								alternatives: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2885, col: 13, offset: 91175},
+										pos:        position{line: 2885, col: 13, offset: 91177},
 										val:        "\n",
 										ignoreCase: false,
 										want:       "\"\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2885, col: 20, offset: 91182},
+										pos:        position{line: 2885, col: 20, offset: 91184},
 										val:        "\r\n",
 										ignoreCase: false,
 										want:       "\"\\r\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2885, col: 29, offset: 91191},
+										pos:        position{line: 2885, col: 29, offset: 91193},
 										val:        "\r",
 										ignoreCase: false,
 										want:       "\"\\r\"",
@@ -29488,12 +29488,12 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1541, col: 5, offset: 49917},
+							pos:   position{line: 1541, col: 5, offset: 49919},
 							label: "element",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1541, col: 13, offset: 49925},
+								pos: position{line: 1541, col: 13, offset: 49927},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1541, col: 13, offset: 49925},
+									pos:  position{line: 1541, col: 13, offset: 49927},
 									name: "ListContinuationElement",
 								},
 							},
@@ -29504,46 +29504,46 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuationElement",
-			pos:  position{line: 1548, col: 1, offset: 50092},
+			pos:  position{line: 1548, col: 1, offset: 50094},
 			expr: &actionExpr{
-				pos: position{line: 1549, col: 5, offset: 50163},
+				pos: position{line: 1549, col: 5, offset: 50165},
 				run: (*parser).callonListContinuationElement1,
 				expr: &seqExpr{
-					pos: position{line: 1549, col: 5, offset: 50163},
+					pos: position{line: 1549, col: 5, offset: 50165},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2893, col: 11, offset: 91337},
+							pos: position{line: 2893, col: 11, offset: 91339},
 							expr: &anyMatcher{
-								line: 2893, col: 13, offset: 91339,
+								line: 2893, col: 13, offset: 91341,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1550, col: 5, offset: 50191},
+							pos: position{line: 1550, col: 5, offset: 50193},
 							expr: &choiceExpr{
-								pos: position{line: 1487, col: 5, offset: 48149},
+								pos: position{line: 1487, col: 5, offset: 48151},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1580, col: 5, offset: 51083},
+										pos: position{line: 1580, col: 5, offset: 51085},
 										run: (*parser).callonListContinuationElement7,
 										expr: &seqExpr{
-											pos: position{line: 1580, col: 5, offset: 51083},
+											pos: position{line: 1580, col: 5, offset: 51085},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1580, col: 5, offset: 51083},
+													pos:   position{line: 1580, col: 5, offset: 51085},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1587, col: 5, offset: 51291},
+														pos: position{line: 1587, col: 5, offset: 51293},
 														run: (*parser).callonListContinuationElement10,
 														expr: &seqExpr{
-															pos: position{line: 1587, col: 5, offset: 51291},
+															pos: position{line: 1587, col: 5, offset: 51293},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1587, col: 5, offset: 51291},
+																	pos: position{line: 1587, col: 5, offset: 51293},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 91003},
+																		pos: position{line: 2876, col: 10, offset: 91005},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 91003},
+																			pos:        position{line: 2876, col: 10, offset: 91005},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29552,27 +29552,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1587, col: 12, offset: 51298},
+																	pos:   position{line: 1587, col: 12, offset: 51300},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1589, col: 9, offset: 51361},
+																		pos: position{line: 1589, col: 9, offset: 51363},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1589, col: 9, offset: 51361},
+																				pos: position{line: 1589, col: 9, offset: 51363},
 																				run: (*parser).callonListContinuationElement17,
 																				expr: &seqExpr{
-																					pos: position{line: 1589, col: 9, offset: 51361},
+																					pos: position{line: 1589, col: 9, offset: 51363},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1589, col: 9, offset: 51361},
+																							pos:   position{line: 1589, col: 9, offset: 51363},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1589, col: 16, offset: 51368},
+																								pos: position{line: 1589, col: 16, offset: 51370},
 																								run: (*parser).callonListContinuationElement20,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1589, col: 16, offset: 51368},
+																									pos: position{line: 1589, col: 16, offset: 51370},
 																									expr: &litMatcher{
-																										pos:        position{line: 1589, col: 17, offset: 51369},
+																										pos:        position{line: 1589, col: 17, offset: 51371},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -29581,22 +29581,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1593, col: 9, offset: 51469},
+																							pos: position{line: 1593, col: 9, offset: 51471},
 																							run: (*parser).callonListContinuationElement23,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1612, col: 11, offset: 52186},
+																				pos: position{line: 1612, col: 11, offset: 52188},
 																				run: (*parser).callonListContinuationElement24,
 																				expr: &seqExpr{
-																					pos: position{line: 1612, col: 11, offset: 52186},
+																					pos: position{line: 1612, col: 11, offset: 52188},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1612, col: 11, offset: 52186},
+																							pos: position{line: 1612, col: 11, offset: 52188},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1612, col: 12, offset: 52187},
+																								pos:        position{line: 1612, col: 12, offset: 52189},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -29604,7 +29604,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1612, col: 20, offset: 52195},
+																							pos:        position{line: 1612, col: 20, offset: 52197},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29613,20 +29613,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1614, col: 13, offset: 52312},
+																				pos: position{line: 1614, col: 13, offset: 52314},
 																				run: (*parser).callonListContinuationElement29,
 																				expr: &seqExpr{
-																					pos: position{line: 1614, col: 13, offset: 52312},
+																					pos: position{line: 1614, col: 13, offset: 52314},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1614, col: 14, offset: 52313},
+																							pos:        position{line: 1614, col: 14, offset: 52315},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1614, col: 21, offset: 52320},
+																							pos:        position{line: 1614, col: 21, offset: 52322},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29635,20 +29635,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1616, col: 13, offset: 52440},
+																				pos: position{line: 1616, col: 13, offset: 52442},
 																				run: (*parser).callonListContinuationElement33,
 																				expr: &seqExpr{
-																					pos: position{line: 1616, col: 13, offset: 52440},
+																					pos: position{line: 1616, col: 13, offset: 52442},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1616, col: 14, offset: 52441},
+																							pos:        position{line: 1616, col: 14, offset: 52443},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1616, col: 21, offset: 52448},
+																							pos:        position{line: 1616, col: 21, offset: 52450},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29657,15 +29657,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1618, col: 13, offset: 52568},
+																				pos: position{line: 1618, col: 13, offset: 52570},
 																				run: (*parser).callonListContinuationElement37,
 																				expr: &seqExpr{
-																					pos: position{line: 1618, col: 13, offset: 52568},
+																					pos: position{line: 1618, col: 13, offset: 52570},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1618, col: 13, offset: 52568},
+																							pos: position{line: 1618, col: 13, offset: 52570},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1618, col: 14, offset: 52569},
+																								pos:        position{line: 1618, col: 14, offset: 52571},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -29673,7 +29673,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1618, col: 26, offset: 52581},
+																							pos:        position{line: 1618, col: 26, offset: 52583},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -29682,15 +29682,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1620, col: 13, offset: 52701},
+																				pos: position{line: 1620, col: 13, offset: 52703},
 																				run: (*parser).callonListContinuationElement42,
 																				expr: &seqExpr{
-																					pos: position{line: 1620, col: 13, offset: 52701},
+																					pos: position{line: 1620, col: 13, offset: 52703},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1620, col: 13, offset: 52701},
+																							pos: position{line: 1620, col: 13, offset: 52703},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1620, col: 14, offset: 52702},
+																								pos:        position{line: 1620, col: 14, offset: 52704},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -29698,7 +29698,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1620, col: 26, offset: 52714},
+																							pos:        position{line: 1620, col: 26, offset: 52716},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -29710,12 +29710,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2880, col: 11, offset: 91064},
+																	pos: position{line: 2880, col: 11, offset: 91066},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2880, col: 11, offset: 91064},
+																		pos: position{line: 2880, col: 11, offset: 91066},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 11, offset: 91064},
+																			pos:        position{line: 2880, col: 11, offset: 91066},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29728,26 +29728,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1581, col: 5, offset: 51122},
+													pos:   position{line: 1581, col: 5, offset: 51124},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1528, col: 5, offset: 49589},
+														pos: position{line: 1528, col: 5, offset: 49591},
 														run: (*parser).callonListContinuationElement51,
 														expr: &seqExpr{
-															pos: position{line: 1528, col: 5, offset: 49589},
+															pos: position{line: 1528, col: 5, offset: 49591},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1528, col: 5, offset: 49589},
+																	pos:   position{line: 1528, col: 5, offset: 49591},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1528, col: 14, offset: 49598},
+																		pos: position{line: 1528, col: 14, offset: 49600},
 																		expr: &actionExpr{
-																			pos: position{line: 1528, col: 15, offset: 49599},
+																			pos: position{line: 1528, col: 15, offset: 49601},
 																			run: (*parser).callonListContinuationElement55,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1528, col: 15, offset: 49599},
+																				pos: position{line: 1528, col: 15, offset: 49601},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1528, col: 15, offset: 49599},
+																					pos:        position{line: 1528, col: 15, offset: 49601},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -29758,28 +29758,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91401},
+																	pos: position{line: 2898, col: 8, offset: 91403},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91174},
+																			pos: position{line: 2885, col: 12, offset: 91176},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91175},
+																				pos: position{line: 2885, col: 13, offset: 91177},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91175},
+																						pos:        position{line: 2885, col: 13, offset: 91177},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91182},
+																						pos:        position{line: 2885, col: 20, offset: 91184},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91191},
+																						pos:        position{line: 2885, col: 29, offset: 91193},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29788,9 +29788,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91351},
+																			pos: position{line: 2895, col: 8, offset: 91353},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91352,
+																				line: 2895, col: 9, offset: 91354,
 																			},
 																		},
 																	},
@@ -29803,27 +29803,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1630, col: 5, offset: 52980},
+										pos: position{line: 1630, col: 5, offset: 52982},
 										run: (*parser).callonListContinuationElement66,
 										expr: &seqExpr{
-											pos: position{line: 1630, col: 5, offset: 52980},
+											pos: position{line: 1630, col: 5, offset: 52982},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1630, col: 5, offset: 52980},
+													pos:   position{line: 1630, col: 5, offset: 52982},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1637, col: 5, offset: 53253},
+														pos: position{line: 1637, col: 5, offset: 53255},
 														run: (*parser).callonListContinuationElement69,
 														expr: &seqExpr{
-															pos: position{line: 1637, col: 5, offset: 53253},
+															pos: position{line: 1637, col: 5, offset: 53255},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1637, col: 5, offset: 53253},
+																	pos: position{line: 1637, col: 5, offset: 53255},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 91003},
+																		pos: position{line: 2876, col: 10, offset: 91005},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 91003},
+																			pos:        position{line: 2876, col: 10, offset: 91005},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29832,24 +29832,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1638, col: 5, offset: 53265},
+																	pos:   position{line: 1638, col: 5, offset: 53267},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1639, col: 9, offset: 53281},
+																		pos: position{line: 1639, col: 9, offset: 53283},
 																		run: (*parser).callonListContinuationElement75,
 																		expr: &choiceExpr{
-																			pos: position{line: 1639, col: 10, offset: 53282},
+																			pos: position{line: 1639, col: 10, offset: 53284},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1639, col: 11, offset: 53283},
+																					pos:        position{line: 1639, col: 11, offset: 53285},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1639, col: 18, offset: 53290},
+																					pos: position{line: 1639, col: 18, offset: 53292},
 																					expr: &litMatcher{
-																						pos:        position{line: 1639, col: 19, offset: 53291},
+																						pos:        position{line: 1639, col: 19, offset: 53293},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -29860,16 +29860,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1642, col: 7, offset: 53381},
+																	pos: position{line: 1642, col: 7, offset: 53383},
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2880, col: 11, offset: 91064},
+																	pos: position{line: 2880, col: 11, offset: 91066},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2880, col: 11, offset: 91064},
+																		pos: position{line: 2880, col: 11, offset: 91066},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 11, offset: 91064},
+																			pos:        position{line: 2880, col: 11, offset: 91066},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29882,56 +29882,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1631, col: 5, offset: 53021},
+													pos:   position{line: 1631, col: 5, offset: 53023},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1631, col: 16, offset: 53032},
+														pos: position{line: 1631, col: 16, offset: 53034},
 														expr: &actionExpr{
-															pos: position{line: 1652, col: 5, offset: 53646},
+															pos: position{line: 1652, col: 5, offset: 53648},
 															run: (*parser).callonListContinuationElement86,
 															expr: &seqExpr{
-																pos: position{line: 1652, col: 5, offset: 53646},
+																pos: position{line: 1652, col: 5, offset: 53648},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1652, col: 5, offset: 53646},
+																		pos: position{line: 1652, col: 5, offset: 53648},
 																		expr: &litMatcher{
-																			pos:        position{line: 1652, col: 6, offset: 53647},
+																			pos:        position{line: 1652, col: 6, offset: 53649},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1652, col: 10, offset: 53651},
+																		pos:   position{line: 1652, col: 10, offset: 53653},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1653, col: 7, offset: 53665},
+																			pos: position{line: 1653, col: 7, offset: 53667},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1653, col: 7, offset: 53665},
+																					pos: position{line: 1653, col: 7, offset: 53667},
 																					run: (*parser).callonListContinuationElement92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1653, col: 7, offset: 53665},
+																						pos:        position{line: 1653, col: 7, offset: 53667},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1654, col: 7, offset: 53710},
+																					pos: position{line: 1654, col: 7, offset: 53712},
 																					run: (*parser).callonListContinuationElement94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1654, col: 7, offset: 53710},
+																						pos:        position{line: 1654, col: 7, offset: 53712},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1655, col: 7, offset: 53753},
+																					pos: position{line: 1655, col: 7, offset: 53755},
 																					run: (*parser).callonListContinuationElement96,
 																					expr: &litMatcher{
-																						pos:        position{line: 1655, col: 7, offset: 53753},
+																						pos:        position{line: 1655, col: 7, offset: 53755},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -29941,12 +29941,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2880, col: 11, offset: 91064},
+																		pos: position{line: 2880, col: 11, offset: 91066},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2880, col: 11, offset: 91064},
+																			pos: position{line: 2880, col: 11, offset: 91066},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2880, col: 11, offset: 91064},
+																				pos:        position{line: 2880, col: 11, offset: 91066},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -29960,26 +29960,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1632, col: 5, offset: 53071},
+													pos:   position{line: 1632, col: 5, offset: 53073},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1528, col: 5, offset: 49589},
+														pos: position{line: 1528, col: 5, offset: 49591},
 														run: (*parser).callonListContinuationElement102,
 														expr: &seqExpr{
-															pos: position{line: 1528, col: 5, offset: 49589},
+															pos: position{line: 1528, col: 5, offset: 49591},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1528, col: 5, offset: 49589},
+																	pos:   position{line: 1528, col: 5, offset: 49591},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1528, col: 14, offset: 49598},
+																		pos: position{line: 1528, col: 14, offset: 49600},
 																		expr: &actionExpr{
-																			pos: position{line: 1528, col: 15, offset: 49599},
+																			pos: position{line: 1528, col: 15, offset: 49601},
 																			run: (*parser).callonListContinuationElement106,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1528, col: 15, offset: 49599},
+																				pos: position{line: 1528, col: 15, offset: 49601},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1528, col: 15, offset: 49599},
+																					pos:        position{line: 1528, col: 15, offset: 49601},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -29990,28 +29990,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91401},
+																	pos: position{line: 2898, col: 8, offset: 91403},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91174},
+																			pos: position{line: 2885, col: 12, offset: 91176},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91175},
+																				pos: position{line: 2885, col: 13, offset: 91177},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91175},
+																						pos:        position{line: 2885, col: 13, offset: 91177},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91182},
+																						pos:        position{line: 2885, col: 20, offset: 91184},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91191},
+																						pos:        position{line: 2885, col: 29, offset: 91193},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30020,9 +30020,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91351},
+																			pos: position{line: 2895, col: 8, offset: 91353},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91352,
+																				line: 2895, col: 9, offset: 91354,
 																			},
 																		},
 																	},
@@ -30035,36 +30035,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1721, col: 5, offset: 55625},
+										pos: position{line: 1721, col: 5, offset: 55627},
 										run: (*parser).callonListContinuationElement117,
 										expr: &seqExpr{
-											pos: position{line: 1721, col: 5, offset: 55625},
+											pos: position{line: 1721, col: 5, offset: 55627},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1721, col: 5, offset: 55625},
+													pos:   position{line: 1721, col: 5, offset: 55627},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1727, col: 5, offset: 55822},
+														pos: position{line: 1727, col: 5, offset: 55824},
 														run: (*parser).callonListContinuationElement120,
 														expr: &seqExpr{
-															pos: position{line: 1727, col: 5, offset: 55822},
+															pos: position{line: 1727, col: 5, offset: 55824},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1727, col: 5, offset: 55822},
+																	pos:        position{line: 1727, col: 5, offset: 55824},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1727, col: 9, offset: 55826},
+																	pos:   position{line: 1727, col: 9, offset: 55828},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1727, col: 14, offset: 55831},
+																		pos: position{line: 1727, col: 14, offset: 55833},
 																		run: (*parser).callonListContinuationElement124,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1727, col: 14, offset: 55831},
+																			pos: position{line: 1727, col: 14, offset: 55833},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1727, col: 14, offset: 55831},
+																				pos:        position{line: 1727, col: 14, offset: 55833},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -30074,18 +30074,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1727, col: 62, offset: 55879},
+																	pos:        position{line: 1727, col: 62, offset: 55881},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2880, col: 11, offset: 91064},
+																	pos: position{line: 2880, col: 11, offset: 91066},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2880, col: 11, offset: 91064},
+																		pos: position{line: 2880, col: 11, offset: 91066},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 11, offset: 91064},
+																			pos:        position{line: 2880, col: 11, offset: 91066},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30098,26 +30098,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1722, col: 5, offset: 55661},
+													pos:   position{line: 1722, col: 5, offset: 55663},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1528, col: 5, offset: 49589},
+														pos: position{line: 1528, col: 5, offset: 49591},
 														run: (*parser).callonListContinuationElement132,
 														expr: &seqExpr{
-															pos: position{line: 1528, col: 5, offset: 49589},
+															pos: position{line: 1528, col: 5, offset: 49591},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1528, col: 5, offset: 49589},
+																	pos:   position{line: 1528, col: 5, offset: 49591},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1528, col: 14, offset: 49598},
+																		pos: position{line: 1528, col: 14, offset: 49600},
 																		expr: &actionExpr{
-																			pos: position{line: 1528, col: 15, offset: 49599},
+																			pos: position{line: 1528, col: 15, offset: 49601},
 																			run: (*parser).callonListContinuationElement136,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1528, col: 15, offset: 49599},
+																				pos: position{line: 1528, col: 15, offset: 49601},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1528, col: 15, offset: 49599},
+																					pos:        position{line: 1528, col: 15, offset: 49601},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30128,28 +30128,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91401},
+																	pos: position{line: 2898, col: 8, offset: 91403},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91174},
+																			pos: position{line: 2885, col: 12, offset: 91176},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91175},
+																				pos: position{line: 2885, col: 13, offset: 91177},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91175},
+																						pos:        position{line: 2885, col: 13, offset: 91177},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91182},
+																						pos:        position{line: 2885, col: 20, offset: 91184},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91191},
+																						pos:        position{line: 2885, col: 29, offset: 91193},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30158,9 +30158,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91351},
+																			pos: position{line: 2895, col: 8, offset: 91353},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91352,
+																				line: 2895, col: 9, offset: 91354,
 																			},
 																		},
 																	},
@@ -30173,35 +30173,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1664, col: 5, offset: 53946},
+										pos: position{line: 1664, col: 5, offset: 53948},
 										run: (*parser).callonListContinuationElement147,
 										expr: &seqExpr{
-											pos: position{line: 1664, col: 5, offset: 53946},
+											pos: position{line: 1664, col: 5, offset: 53948},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1664, col: 5, offset: 53946},
+													pos:   position{line: 1664, col: 5, offset: 53948},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1672, col: 5, offset: 54272},
+														pos: position{line: 1672, col: 5, offset: 54274},
 														run: (*parser).callonListContinuationElement150,
 														expr: &seqExpr{
-															pos: position{line: 1672, col: 5, offset: 54272},
+															pos: position{line: 1672, col: 5, offset: 54274},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1672, col: 5, offset: 54272},
+																	pos: position{line: 1672, col: 5, offset: 54274},
 																	expr: &seqExpr{
-																		pos: position{line: 2488, col: 31, offset: 80110},
+																		pos: position{line: 2488, col: 31, offset: 80112},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2488, col: 31, offset: 80110},
+																				pos:        position{line: 2488, col: 31, offset: 80112},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2488, col: 36, offset: 80115},
+																				pos: position{line: 2488, col: 36, offset: 80117},
 																				expr: &litMatcher{
-																					pos:        position{line: 2488, col: 37, offset: 80116},
+																					pos:        position{line: 2488, col: 37, offset: 80118},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
@@ -30211,28 +30211,28 @@ var g = &grammar{
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 1673, col: 5, offset: 54304},
+																	pos: position{line: 1673, col: 5, offset: 54306},
 																	expr: &seqExpr{
-																		pos: position{line: 1673, col: 6, offset: 54305},
+																		pos: position{line: 1673, col: 6, offset: 54307},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1673, col: 6, offset: 54305},
+																				pos: position{line: 1673, col: 6, offset: 54307},
 																				expr: &actionExpr{
-																					pos: position{line: 1678, col: 5, offset: 54455},
+																					pos: position{line: 1678, col: 5, offset: 54457},
 																					run: (*parser).callonListContinuationElement160,
 																					expr: &seqExpr{
-																						pos: position{line: 1678, col: 5, offset: 54455},
+																						pos: position{line: 1678, col: 5, offset: 54457},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1678, col: 5, offset: 54455},
+																								pos:   position{line: 1678, col: 5, offset: 54457},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1678, col: 16, offset: 54466},
+																									pos: position{line: 1678, col: 16, offset: 54468},
 																									run: (*parser).callonListContinuationElement163,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1678, col: 16, offset: 54466},
+																										pos: position{line: 1678, col: 16, offset: 54468},
 																										expr: &litMatcher{
-																											pos:        position{line: 1678, col: 17, offset: 54467},
+																											pos:        position{line: 1678, col: 17, offset: 54469},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -30241,7 +30241,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1681, col: 5, offset: 54524},
+																								pos: position{line: 1681, col: 5, offset: 54526},
 																								run: (*parser).callonListContinuationElement166,
 																							},
 																						},
@@ -30249,30 +30249,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1673, col: 35, offset: 54334},
+																				pos: position{line: 1673, col: 35, offset: 54336},
 																				expr: &choiceExpr{
-																					pos: position{line: 2898, col: 8, offset: 91401},
+																					pos: position{line: 2898, col: 8, offset: 91403},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2885, col: 12, offset: 91174},
+																							pos: position{line: 2885, col: 12, offset: 91176},
 																							run: (*parser).callonListContinuationElement169,
 																							expr: &choiceExpr{
-																								pos: position{line: 2885, col: 13, offset: 91175},
+																								pos: position{line: 2885, col: 13, offset: 91177},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 13, offset: 91175},
+																										pos:        position{line: 2885, col: 13, offset: 91177},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 20, offset: 91182},
+																										pos:        position{line: 2885, col: 20, offset: 91184},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 29, offset: 91191},
+																										pos:        position{line: 2885, col: 29, offset: 91193},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -30281,16 +30281,16 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2895, col: 8, offset: 91351},
+																							pos: position{line: 2895, col: 8, offset: 91353},
 																							expr: &anyMatcher{
-																								line: 2895, col: 9, offset: 91352,
+																								line: 2895, col: 9, offset: 91354,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1673, col: 40, offset: 54339,
+																				line: 1673, col: 40, offset: 54341,
 																			},
 																		},
 																	},
@@ -30300,24 +30300,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1665, col: 5, offset: 53981},
+													pos:   position{line: 1665, col: 5, offset: 53983},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1678, col: 5, offset: 54455},
+														pos: position{line: 1678, col: 5, offset: 54457},
 														run: (*parser).callonListContinuationElement178,
 														expr: &seqExpr{
-															pos: position{line: 1678, col: 5, offset: 54455},
+															pos: position{line: 1678, col: 5, offset: 54457},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1678, col: 5, offset: 54455},
+																	pos:   position{line: 1678, col: 5, offset: 54457},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1678, col: 16, offset: 54466},
+																		pos: position{line: 1678, col: 16, offset: 54468},
 																		run: (*parser).callonListContinuationElement181,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1678, col: 16, offset: 54466},
+																			pos: position{line: 1678, col: 16, offset: 54468},
 																			expr: &litMatcher{
-																				pos:        position{line: 1678, col: 17, offset: 54467},
+																				pos:        position{line: 1678, col: 17, offset: 54469},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -30326,7 +30326,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1681, col: 5, offset: 54524},
+																	pos: position{line: 1681, col: 5, offset: 54526},
 																	run: (*parser).callonListContinuationElement184,
 																},
 															},
@@ -30334,24 +30334,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1666, col: 5, offset: 54026},
+													pos:   position{line: 1666, col: 5, offset: 54028},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1689, col: 5, offset: 54773},
+														pos: position{line: 1689, col: 5, offset: 54775},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1691, col: 9, offset: 54839},
+																pos: position{line: 1691, col: 9, offset: 54841},
 																run: (*parser).callonListContinuationElement187,
 																expr: &seqExpr{
-																	pos: position{line: 1691, col: 9, offset: 54839},
+																	pos: position{line: 1691, col: 9, offset: 54841},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1691, col: 9, offset: 54839},
+																			pos: position{line: 1691, col: 9, offset: 54841},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 91003},
+																				pos: position{line: 2876, col: 10, offset: 91005},
 																				run: (*parser).callonListContinuationElement190,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 91003},
+																					pos:        position{line: 2876, col: 10, offset: 91005},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30360,28 +30360,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91401},
+																			pos: position{line: 2898, col: 8, offset: 91403},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91174},
+																					pos: position{line: 2885, col: 12, offset: 91176},
 																					run: (*parser).callonListContinuationElement193,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91175},
+																						pos: position{line: 2885, col: 13, offset: 91177},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91175},
+																								pos:        position{line: 2885, col: 13, offset: 91177},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91182},
+																								pos:        position{line: 2885, col: 20, offset: 91184},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91191},
+																								pos:        position{line: 2885, col: 29, offset: 91193},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30390,34 +30390,34 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91351},
+																					pos: position{line: 2895, col: 8, offset: 91353},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91352,
+																						line: 2895, col: 9, offset: 91354,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1692, col: 9, offset: 54858},
+																			pos: position{line: 1692, col: 9, offset: 54860},
 																			expr: &actionExpr{
-																				pos: position{line: 676, col: 14, offset: 21496},
+																				pos: position{line: 676, col: 14, offset: 21498},
 																				run: (*parser).callonListContinuationElement201,
 																				expr: &seqExpr{
-																					pos: position{line: 676, col: 14, offset: 21496},
+																					pos: position{line: 676, col: 14, offset: 21498},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2893, col: 11, offset: 91337},
+																							pos: position{line: 2893, col: 11, offset: 91339},
 																							expr: &anyMatcher{
-																								line: 2893, col: 13, offset: 91339,
+																								line: 2893, col: 13, offset: 91341,
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 676, col: 21, offset: 21503},
+																							pos: position{line: 676, col: 21, offset: 21505},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 91003},
+																								pos: position{line: 2876, col: 10, offset: 91005},
 																								run: (*parser).callonListContinuationElement206,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 91003},
+																									pos:        position{line: 2876, col: 10, offset: 91005},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30426,28 +30426,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91401},
+																							pos: position{line: 2898, col: 8, offset: 91403},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91174},
+																									pos: position{line: 2885, col: 12, offset: 91176},
 																									run: (*parser).callonListContinuationElement209,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91175},
+																										pos: position{line: 2885, col: 13, offset: 91177},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91175},
+																												pos:        position{line: 2885, col: 13, offset: 91177},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91182},
+																												pos:        position{line: 2885, col: 20, offset: 91184},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91191},
+																												pos:        position{line: 2885, col: 29, offset: 91193},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30456,9 +30456,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91351},
+																									pos: position{line: 2895, col: 8, offset: 91353},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91352,
+																										line: 2895, col: 9, offset: 91354,
 																									},
 																								},
 																							},
@@ -30471,18 +30471,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1698, col: 9, offset: 54987},
+																pos: position{line: 1698, col: 9, offset: 54989},
 																run: (*parser).callonListContinuationElement216,
 																expr: &seqExpr{
-																	pos: position{line: 1698, col: 9, offset: 54987},
+																	pos: position{line: 1698, col: 9, offset: 54989},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2880, col: 11, offset: 91064},
+																			pos: position{line: 2880, col: 11, offset: 91066},
 																			run: (*parser).callonListContinuationElement218,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2880, col: 11, offset: 91064},
+																				pos: position{line: 2880, col: 11, offset: 91066},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2880, col: 11, offset: 91064},
+																					pos:        position{line: 2880, col: 11, offset: 91066},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30491,15 +30491,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1699, col: 9, offset: 55060},
+																			pos:   position{line: 1699, col: 9, offset: 55062},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1699, col: 18, offset: 55069},
+																				pos: position{line: 1699, col: 18, offset: 55071},
 																				run: (*parser).callonListContinuationElement222,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1699, col: 18, offset: 55069},
+																					pos: position{line: 1699, col: 18, offset: 55071},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1699, col: 18, offset: 55069},
+																						pos:        position{line: 1699, col: 18, offset: 55071},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -30509,28 +30509,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91401},
+																			pos: position{line: 2898, col: 8, offset: 91403},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91174},
+																					pos: position{line: 2885, col: 12, offset: 91176},
 																					run: (*parser).callonListContinuationElement226,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91175},
+																						pos: position{line: 2885, col: 13, offset: 91177},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91175},
+																								pos:        position{line: 2885, col: 13, offset: 91177},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91182},
+																								pos:        position{line: 2885, col: 20, offset: 91184},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91191},
+																								pos:        position{line: 2885, col: 29, offset: 91193},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30539,9 +30539,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91351},
+																					pos: position{line: 2895, col: 8, offset: 91353},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91352,
+																						line: 2895, col: 9, offset: 91354,
 																					},
 																				},
 																			},
@@ -30559,41 +30559,41 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1551, col: 5, offset: 50208},
+							pos:   position{line: 1551, col: 5, offset: 50210},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1551, col: 16, offset: 50219},
+								pos: position{line: 1551, col: 16, offset: 50221},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1551, col: 17, offset: 50220},
+									pos:  position{line: 1551, col: 17, offset: 50222},
 									name: "BlockAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1552, col: 5, offset: 50242},
+							pos:   position{line: 1552, col: 5, offset: 50244},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1553, col: 9, offset: 50260},
+								pos: position{line: 1553, col: 9, offset: 50262},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 676, col: 14, offset: 21496},
+										pos: position{line: 676, col: 14, offset: 21498},
 										run: (*parser).callonListContinuationElement238,
 										expr: &seqExpr{
-											pos: position{line: 676, col: 14, offset: 21496},
+											pos: position{line: 676, col: 14, offset: 21498},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2893, col: 11, offset: 91337},
+													pos: position{line: 2893, col: 11, offset: 91339},
 													expr: &anyMatcher{
-														line: 2893, col: 13, offset: 91339,
+														line: 2893, col: 13, offset: 91341,
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 676, col: 21, offset: 21503},
+													pos: position{line: 676, col: 21, offset: 21505},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 91003},
+														pos: position{line: 2876, col: 10, offset: 91005},
 														run: (*parser).callonListContinuationElement243,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 91003},
+															pos:        position{line: 2876, col: 10, offset: 91005},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30602,28 +30602,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2898, col: 8, offset: 91401},
+													pos: position{line: 2898, col: 8, offset: 91403},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91174},
+															pos: position{line: 2885, col: 12, offset: 91176},
 															run: (*parser).callonListContinuationElement246,
 															expr: &choiceExpr{
-																pos: position{line: 2885, col: 13, offset: 91175},
+																pos: position{line: 2885, col: 13, offset: 91177},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 13, offset: 91175},
+																		pos:        position{line: 2885, col: 13, offset: 91177},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 20, offset: 91182},
+																		pos:        position{line: 2885, col: 20, offset: 91184},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 29, offset: 91191},
+																		pos:        position{line: 2885, col: 29, offset: 91193},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30632,9 +30632,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2895, col: 8, offset: 91351},
+															pos: position{line: 2895, col: 8, offset: 91353},
 															expr: &anyMatcher{
-																line: 2895, col: 9, offset: 91352,
+																line: 2895, col: 9, offset: 91354,
 															},
 														},
 													},
@@ -30643,7 +30643,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1554, col: 11, offset: 50280},
+										pos:  position{line: 1554, col: 11, offset: 50282},
 										name: "AttributeDeclaration",
 									},
 									&actionExpr{
@@ -30699,10 +30699,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 359, col: 49, offset: 10879},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 91003},
+														pos: position{line: 2876, col: 10, offset: 91005},
 														run: (*parser).callonListContinuationElement265,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 91003},
+															pos:        position{line: 2876, col: 10, offset: 91005},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30711,28 +30711,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2898, col: 8, offset: 91401},
+													pos: position{line: 2898, col: 8, offset: 91403},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91174},
+															pos: position{line: 2885, col: 12, offset: 91176},
 															run: (*parser).callonListContinuationElement268,
 															expr: &choiceExpr{
-																pos: position{line: 2885, col: 13, offset: 91175},
+																pos: position{line: 2885, col: 13, offset: 91177},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 13, offset: 91175},
+																		pos:        position{line: 2885, col: 13, offset: 91177},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 20, offset: 91182},
+																		pos:        position{line: 2885, col: 20, offset: 91184},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 29, offset: 91191},
+																		pos:        position{line: 2885, col: 29, offset: 91193},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30741,9 +30741,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2895, col: 8, offset: 91351},
+															pos: position{line: 2895, col: 8, offset: 91353},
 															expr: &anyMatcher{
-																line: 2895, col: 9, offset: 91352,
+																line: 2895, col: 9, offset: 91354,
 															},
 														},
 													},
@@ -30804,10 +30804,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 361, col: 39, offset: 11000},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 91003},
+														pos: position{line: 2876, col: 10, offset: 91005},
 														run: (*parser).callonListContinuationElement286,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 91003},
+															pos:        position{line: 2876, col: 10, offset: 91005},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30816,28 +30816,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2898, col: 8, offset: 91401},
+													pos: position{line: 2898, col: 8, offset: 91403},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91174},
+															pos: position{line: 2885, col: 12, offset: 91176},
 															run: (*parser).callonListContinuationElement289,
 															expr: &choiceExpr{
-																pos: position{line: 2885, col: 13, offset: 91175},
+																pos: position{line: 2885, col: 13, offset: 91177},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 13, offset: 91175},
+																		pos:        position{line: 2885, col: 13, offset: 91177},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 20, offset: 91182},
+																		pos:        position{line: 2885, col: 20, offset: 91184},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 29, offset: 91191},
+																		pos:        position{line: 2885, col: 29, offset: 91193},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30846,9 +30846,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2895, col: 8, offset: 91351},
+															pos: position{line: 2895, col: 8, offset: 91353},
 															expr: &anyMatcher{
-																line: 2895, col: 9, offset: 91352,
+																line: 2895, col: 9, offset: 91354,
 															},
 														},
 													},
@@ -30857,36 +30857,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 819, col: 5, offset: 26336},
+										pos: position{line: 819, col: 5, offset: 26338},
 										run: (*parser).callonListContinuationElement296,
 										expr: &seqExpr{
-											pos: position{line: 819, col: 5, offset: 26336},
+											pos: position{line: 819, col: 5, offset: 26338},
 											exprs: []interface{}{
 												&actionExpr{
-													pos: position{line: 739, col: 5, offset: 23591},
+													pos: position{line: 739, col: 5, offset: 23593},
 													run: (*parser).callonListContinuationElement298,
 													expr: &seqExpr{
-														pos: position{line: 739, col: 5, offset: 23591},
+														pos: position{line: 739, col: 5, offset: 23593},
 														exprs: []interface{}{
 															&labeledExpr{
-																pos:   position{line: 739, col: 5, offset: 23591},
+																pos:   position{line: 739, col: 5, offset: 23593},
 																label: "delimiter",
 																expr: &actionExpr{
-																	pos: position{line: 739, col: 16, offset: 23602},
+																	pos: position{line: 739, col: 16, offset: 23604},
 																	run: (*parser).callonListContinuationElement301,
 																	expr: &seqExpr{
-																		pos: position{line: 739, col: 16, offset: 23602},
+																		pos: position{line: 739, col: 16, offset: 23604},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 739, col: 16, offset: 23602},
+																				pos:        position{line: 739, col: 16, offset: 23604},
 																				val:        "////",
 																				ignoreCase: false,
 																				want:       "\"////\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 739, col: 23, offset: 23609},
+																				pos: position{line: 739, col: 23, offset: 23611},
 																				expr: &litMatcher{
-																					pos:        position{line: 739, col: 23, offset: 23609},
+																					pos:        position{line: 739, col: 23, offset: 23611},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -30897,12 +30897,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 741, col: 8, offset: 23693},
+																pos: position{line: 741, col: 8, offset: 23695},
 																expr: &actionExpr{
-																	pos: position{line: 2876, col: 10, offset: 91003},
+																	pos: position{line: 2876, col: 10, offset: 91005},
 																	run: (*parser).callonListContinuationElement307,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2876, col: 10, offset: 91003},
+																		pos:        position{line: 2876, col: 10, offset: 91005},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -30911,28 +30911,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2898, col: 8, offset: 91401},
+																pos: position{line: 2898, col: 8, offset: 91403},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2885, col: 12, offset: 91174},
+																		pos: position{line: 2885, col: 12, offset: 91176},
 																		run: (*parser).callonListContinuationElement310,
 																		expr: &choiceExpr{
-																			pos: position{line: 2885, col: 13, offset: 91175},
+																			pos: position{line: 2885, col: 13, offset: 91177},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 13, offset: 91175},
+																					pos:        position{line: 2885, col: 13, offset: 91177},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 20, offset: 91182},
+																					pos:        position{line: 2885, col: 20, offset: 91184},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 29, offset: 91191},
+																					pos:        position{line: 2885, col: 29, offset: 91193},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -30941,9 +30941,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91351},
+																		pos: position{line: 2895, col: 8, offset: 91353},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91352,
+																			line: 2895, col: 9, offset: 91354,
 																		},
 																	},
 																},
@@ -30952,46 +30952,46 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 820, col: 5, offset: 26367},
+													pos:   position{line: 820, col: 5, offset: 26369},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 830, col: 5, offset: 26653},
+														pos: position{line: 830, col: 5, offset: 26655},
 														expr: &actionExpr{
-															pos: position{line: 830, col: 6, offset: 26654},
+															pos: position{line: 830, col: 6, offset: 26656},
 															run: (*parser).callonListContinuationElement319,
 															expr: &seqExpr{
-																pos: position{line: 830, col: 6, offset: 26654},
+																pos: position{line: 830, col: 6, offset: 26656},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 830, col: 6, offset: 26654},
+																		pos: position{line: 830, col: 6, offset: 26656},
 																		expr: &choiceExpr{
-																			pos: position{line: 827, col: 29, offset: 26596},
+																			pos: position{line: 827, col: 29, offset: 26598},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 739, col: 5, offset: 23591},
+																					pos: position{line: 739, col: 5, offset: 23593},
 																					run: (*parser).callonListContinuationElement323,
 																					expr: &seqExpr{
-																						pos: position{line: 739, col: 5, offset: 23591},
+																						pos: position{line: 739, col: 5, offset: 23593},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 739, col: 5, offset: 23591},
+																								pos:   position{line: 739, col: 5, offset: 23593},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 739, col: 16, offset: 23602},
+																									pos: position{line: 739, col: 16, offset: 23604},
 																									run: (*parser).callonListContinuationElement326,
 																									expr: &seqExpr{
-																										pos: position{line: 739, col: 16, offset: 23602},
+																										pos: position{line: 739, col: 16, offset: 23604},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 739, col: 16, offset: 23602},
+																												pos:        position{line: 739, col: 16, offset: 23604},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 739, col: 23, offset: 23609},
+																												pos: position{line: 739, col: 23, offset: 23611},
 																												expr: &litMatcher{
-																													pos:        position{line: 739, col: 23, offset: 23609},
+																													pos:        position{line: 739, col: 23, offset: 23611},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -31002,12 +31002,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 741, col: 8, offset: 23693},
+																								pos: position{line: 741, col: 8, offset: 23695},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 91003},
+																									pos: position{line: 2876, col: 10, offset: 91005},
 																									run: (*parser).callonListContinuationElement332,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 91003},
+																										pos:        position{line: 2876, col: 10, offset: 91005},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -31016,28 +31016,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2898, col: 8, offset: 91401},
+																								pos: position{line: 2898, col: 8, offset: 91403},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2885, col: 12, offset: 91174},
+																										pos: position{line: 2885, col: 12, offset: 91176},
 																										run: (*parser).callonListContinuationElement335,
 																										expr: &choiceExpr{
-																											pos: position{line: 2885, col: 13, offset: 91175},
+																											pos: position{line: 2885, col: 13, offset: 91177},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 13, offset: 91175},
+																													pos:        position{line: 2885, col: 13, offset: 91177},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 20, offset: 91182},
+																													pos:        position{line: 2885, col: 20, offset: 91184},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 29, offset: 91191},
+																													pos:        position{line: 2885, col: 29, offset: 91193},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -31046,9 +31046,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2895, col: 8, offset: 91351},
+																										pos: position{line: 2895, col: 8, offset: 91353},
 																										expr: &anyMatcher{
-																											line: 2895, col: 9, offset: 91352,
+																											line: 2895, col: 9, offset: 91354,
 																										},
 																									},
 																								},
@@ -31057,39 +31057,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91351},
+																					pos: position{line: 2895, col: 8, offset: 91353},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91352,
+																						line: 2895, col: 9, offset: 91354,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 831, col: 5, offset: 26684},
+																		pos:   position{line: 831, col: 5, offset: 26686},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 810, col: 5, offset: 26100},
+																			pos: position{line: 810, col: 5, offset: 26102},
 																			run: (*parser).callonListContinuationElement345,
 																			expr: &seqExpr{
-																				pos: position{line: 810, col: 5, offset: 26100},
+																				pos: position{line: 810, col: 5, offset: 26102},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2893, col: 11, offset: 91337},
+																						pos: position{line: 2893, col: 11, offset: 91339},
 																						expr: &anyMatcher{
-																							line: 2893, col: 13, offset: 91339,
+																							line: 2893, col: 13, offset: 91341,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 811, col: 5, offset: 26175},
+																						pos:   position{line: 811, col: 5, offset: 26177},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2822, col: 13, offset: 89529},
+																							pos: position{line: 2822, col: 13, offset: 89531},
 																							run: (*parser).callonListContinuationElement350,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2822, col: 13, offset: 89529},
+																								pos: position{line: 2822, col: 13, offset: 89531},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2822, col: 13, offset: 89529},
+																									pos:        position{line: 2822, col: 13, offset: 89531},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31099,28 +31099,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91401},
+																						pos: position{line: 2898, col: 8, offset: 91403},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91174},
+																								pos: position{line: 2885, col: 12, offset: 91176},
 																								run: (*parser).callonListContinuationElement354,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91175},
+																									pos: position{line: 2885, col: 13, offset: 91177},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91175},
+																											pos:        position{line: 2885, col: 13, offset: 91177},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91182},
+																											pos:        position{line: 2885, col: 20, offset: 91184},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91191},
+																											pos:        position{line: 2885, col: 29, offset: 91193},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31129,9 +31129,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91351},
+																								pos: position{line: 2895, col: 8, offset: 91353},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91352,
+																									line: 2895, col: 9, offset: 91354,
 																								},
 																							},
 																						},
@@ -31146,35 +31146,35 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 821, col: 5, offset: 26401},
+													pos: position{line: 821, col: 5, offset: 26403},
 													expr: &choiceExpr{
-														pos: position{line: 827, col: 29, offset: 26596},
+														pos: position{line: 827, col: 29, offset: 26598},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 739, col: 5, offset: 23591},
+																pos: position{line: 739, col: 5, offset: 23593},
 																run: (*parser).callonListContinuationElement363,
 																expr: &seqExpr{
-																	pos: position{line: 739, col: 5, offset: 23591},
+																	pos: position{line: 739, col: 5, offset: 23593},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 739, col: 5, offset: 23591},
+																			pos:   position{line: 739, col: 5, offset: 23593},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 739, col: 16, offset: 23602},
+																				pos: position{line: 739, col: 16, offset: 23604},
 																				run: (*parser).callonListContinuationElement366,
 																				expr: &seqExpr{
-																					pos: position{line: 739, col: 16, offset: 23602},
+																					pos: position{line: 739, col: 16, offset: 23604},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 739, col: 16, offset: 23602},
+																							pos:        position{line: 739, col: 16, offset: 23604},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 739, col: 23, offset: 23609},
+																							pos: position{line: 739, col: 23, offset: 23611},
 																							expr: &litMatcher{
-																								pos:        position{line: 739, col: 23, offset: 23609},
+																								pos:        position{line: 739, col: 23, offset: 23611},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -31185,12 +31185,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 741, col: 8, offset: 23693},
+																			pos: position{line: 741, col: 8, offset: 23695},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 91003},
+																				pos: position{line: 2876, col: 10, offset: 91005},
 																				run: (*parser).callonListContinuationElement372,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 91003},
+																					pos:        position{line: 2876, col: 10, offset: 91005},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -31199,28 +31199,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91401},
+																			pos: position{line: 2898, col: 8, offset: 91403},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91174},
+																					pos: position{line: 2885, col: 12, offset: 91176},
 																					run: (*parser).callonListContinuationElement375,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91175},
+																						pos: position{line: 2885, col: 13, offset: 91177},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91175},
+																								pos:        position{line: 2885, col: 13, offset: 91177},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91182},
+																								pos:        position{line: 2885, col: 20, offset: 91184},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91191},
+																								pos:        position{line: 2885, col: 29, offset: 91193},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31229,9 +31229,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91351},
+																					pos: position{line: 2895, col: 8, offset: 91353},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91352,
+																						line: 2895, col: 9, offset: 91354,
 																					},
 																				},
 																			},
@@ -31240,9 +31240,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91351},
+																pos: position{line: 2895, col: 8, offset: 91353},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91352,
+																	line: 2895, col: 9, offset: 91354,
 																},
 															},
 														},
@@ -31252,39 +31252,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 839, col: 5, offset: 26837},
+										pos: position{line: 839, col: 5, offset: 26839},
 										run: (*parser).callonListContinuationElement384,
 										expr: &seqExpr{
-											pos: position{line: 839, col: 5, offset: 26837},
+											pos: position{line: 839, col: 5, offset: 26839},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 839, col: 5, offset: 26837},
+													pos:   position{line: 839, col: 5, offset: 26839},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 746, col: 5, offset: 23839},
+														pos: position{line: 746, col: 5, offset: 23841},
 														run: (*parser).callonListContinuationElement387,
 														expr: &seqExpr{
-															pos: position{line: 746, col: 5, offset: 23839},
+															pos: position{line: 746, col: 5, offset: 23841},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 746, col: 5, offset: 23839},
+																	pos:   position{line: 746, col: 5, offset: 23841},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 746, col: 16, offset: 23850},
+																		pos: position{line: 746, col: 16, offset: 23852},
 																		run: (*parser).callonListContinuationElement390,
 																		expr: &seqExpr{
-																			pos: position{line: 746, col: 16, offset: 23850},
+																			pos: position{line: 746, col: 16, offset: 23852},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 746, col: 16, offset: 23850},
+																					pos:        position{line: 746, col: 16, offset: 23852},
 																					val:        "====",
 																					ignoreCase: false,
 																					want:       "\"====\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 746, col: 23, offset: 23857},
+																					pos: position{line: 746, col: 23, offset: 23859},
 																					expr: &litMatcher{
-																						pos:        position{line: 746, col: 23, offset: 23857},
+																						pos:        position{line: 746, col: 23, offset: 23859},
 																						val:        "=",
 																						ignoreCase: false,
 																						want:       "\"=\"",
@@ -31295,12 +31295,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 748, col: 8, offset: 23941},
+																	pos: position{line: 748, col: 8, offset: 23943},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 91003},
+																		pos: position{line: 2876, col: 10, offset: 91005},
 																		run: (*parser).callonListContinuationElement396,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 91003},
+																			pos:        position{line: 2876, col: 10, offset: 91005},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31309,28 +31309,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91401},
+																	pos: position{line: 2898, col: 8, offset: 91403},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91174},
+																			pos: position{line: 2885, col: 12, offset: 91176},
 																			run: (*parser).callonListContinuationElement399,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91175},
+																				pos: position{line: 2885, col: 13, offset: 91177},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91175},
+																						pos:        position{line: 2885, col: 13, offset: 91177},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91182},
+																						pos:        position{line: 2885, col: 20, offset: 91184},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91191},
+																						pos:        position{line: 2885, col: 29, offset: 91193},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31339,9 +31339,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91351},
+																			pos: position{line: 2895, col: 8, offset: 91353},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91352,
+																				line: 2895, col: 9, offset: 91354,
 																			},
 																		},
 																	},
@@ -31351,56 +31351,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 840, col: 5, offset: 26876},
+													pos: position{line: 840, col: 5, offset: 26878},
 													run: (*parser).callonListContinuationElement406,
 												},
 												&labeledExpr{
-													pos:   position{line: 843, col: 5, offset: 26968},
+													pos:   position{line: 843, col: 5, offset: 26970},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 858, col: 4, offset: 27365},
+														pos: position{line: 858, col: 4, offset: 27367},
 														expr: &actionExpr{
-															pos: position{line: 858, col: 5, offset: 27366},
+															pos: position{line: 858, col: 5, offset: 27368},
 															run: (*parser).callonListContinuationElement409,
 															expr: &seqExpr{
-																pos: position{line: 858, col: 5, offset: 27366},
+																pos: position{line: 858, col: 5, offset: 27368},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 858, col: 5, offset: 27366},
+																		pos: position{line: 858, col: 5, offset: 27368},
 																		expr: &choiceExpr{
-																			pos: position{line: 851, col: 5, offset: 27208},
+																			pos: position{line: 851, col: 5, offset: 27210},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 851, col: 5, offset: 27208},
+																					pos: position{line: 851, col: 5, offset: 27210},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 851, col: 5, offset: 27208},
+																							pos:   position{line: 851, col: 5, offset: 27210},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 746, col: 5, offset: 23839},
+																								pos: position{line: 746, col: 5, offset: 23841},
 																								run: (*parser).callonListContinuationElement415,
 																								expr: &seqExpr{
-																									pos: position{line: 746, col: 5, offset: 23839},
+																									pos: position{line: 746, col: 5, offset: 23841},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 746, col: 5, offset: 23839},
+																											pos:   position{line: 746, col: 5, offset: 23841},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 746, col: 16, offset: 23850},
+																												pos: position{line: 746, col: 16, offset: 23852},
 																												run: (*parser).callonListContinuationElement418,
 																												expr: &seqExpr{
-																													pos: position{line: 746, col: 16, offset: 23850},
+																													pos: position{line: 746, col: 16, offset: 23852},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 746, col: 16, offset: 23850},
+																															pos:        position{line: 746, col: 16, offset: 23852},
 																															val:        "====",
 																															ignoreCase: false,
 																															want:       "\"====\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 746, col: 23, offset: 23857},
+																															pos: position{line: 746, col: 23, offset: 23859},
 																															expr: &litMatcher{
-																																pos:        position{line: 746, col: 23, offset: 23857},
+																																pos:        position{line: 746, col: 23, offset: 23859},
 																																val:        "=",
 																																ignoreCase: false,
 																																want:       "\"=\"",
@@ -31411,12 +31411,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 748, col: 8, offset: 23941},
+																											pos: position{line: 748, col: 8, offset: 23943},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 91003},
+																												pos: position{line: 2876, col: 10, offset: 91005},
 																												run: (*parser).callonListContinuationElement424,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 91003},
+																													pos:        position{line: 2876, col: 10, offset: 91005},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31425,28 +31425,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91401},
+																											pos: position{line: 2898, col: 8, offset: 91403},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91174},
+																													pos: position{line: 2885, col: 12, offset: 91176},
 																													run: (*parser).callonListContinuationElement427,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91175},
+																														pos: position{line: 2885, col: 13, offset: 91177},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91175},
+																																pos:        position{line: 2885, col: 13, offset: 91177},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91182},
+																																pos:        position{line: 2885, col: 20, offset: 91184},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91191},
+																																pos:        position{line: 2885, col: 29, offset: 91193},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31455,9 +31455,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91351},
+																													pos: position{line: 2895, col: 8, offset: 91353},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91352,
+																														line: 2895, col: 9, offset: 91354,
 																													},
 																												},
 																											},
@@ -31467,45 +31467,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 852, col: 5, offset: 27239},
+																							pos: position{line: 852, col: 5, offset: 27241},
 																							run: (*parser).callonListContinuationElement434,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91351},
+																					pos: position{line: 2895, col: 8, offset: 91353},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91352,
+																						line: 2895, col: 9, offset: 91354,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 859, col: 5, offset: 27396},
+																		pos:   position{line: 859, col: 5, offset: 27398},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 810, col: 5, offset: 26100},
+																			pos: position{line: 810, col: 5, offset: 26102},
 																			run: (*parser).callonListContinuationElement438,
 																			expr: &seqExpr{
-																				pos: position{line: 810, col: 5, offset: 26100},
+																				pos: position{line: 810, col: 5, offset: 26102},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2893, col: 11, offset: 91337},
+																						pos: position{line: 2893, col: 11, offset: 91339},
 																						expr: &anyMatcher{
-																							line: 2893, col: 13, offset: 91339,
+																							line: 2893, col: 13, offset: 91341,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 811, col: 5, offset: 26175},
+																						pos:   position{line: 811, col: 5, offset: 26177},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2822, col: 13, offset: 89529},
+																							pos: position{line: 2822, col: 13, offset: 89531},
 																							run: (*parser).callonListContinuationElement443,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2822, col: 13, offset: 89529},
+																								pos: position{line: 2822, col: 13, offset: 89531},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2822, col: 13, offset: 89529},
+																									pos:        position{line: 2822, col: 13, offset: 89531},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31515,28 +31515,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91401},
+																						pos: position{line: 2898, col: 8, offset: 91403},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91174},
+																								pos: position{line: 2885, col: 12, offset: 91176},
 																								run: (*parser).callonListContinuationElement447,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91175},
+																									pos: position{line: 2885, col: 13, offset: 91177},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91175},
+																											pos:        position{line: 2885, col: 13, offset: 91177},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91182},
+																											pos:        position{line: 2885, col: 20, offset: 91184},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91191},
+																											pos:        position{line: 2885, col: 29, offset: 91193},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31545,9 +31545,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91351},
+																								pos: position{line: 2895, col: 8, offset: 91353},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91352,
+																									line: 2895, col: 9, offset: 91354,
 																								},
 																							},
 																						},
@@ -31562,44 +31562,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 844, col: 5, offset: 27002},
+													pos:   position{line: 844, col: 5, offset: 27004},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 844, col: 9, offset: 27006},
+														pos: position{line: 844, col: 9, offset: 27008},
 														expr: &choiceExpr{
-															pos: position{line: 851, col: 5, offset: 27208},
+															pos: position{line: 851, col: 5, offset: 27210},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 851, col: 5, offset: 27208},
+																	pos: position{line: 851, col: 5, offset: 27210},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 851, col: 5, offset: 27208},
+																			pos:   position{line: 851, col: 5, offset: 27210},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 746, col: 5, offset: 23839},
+																				pos: position{line: 746, col: 5, offset: 23841},
 																				run: (*parser).callonListContinuationElement459,
 																				expr: &seqExpr{
-																					pos: position{line: 746, col: 5, offset: 23839},
+																					pos: position{line: 746, col: 5, offset: 23841},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 746, col: 5, offset: 23839},
+																							pos:   position{line: 746, col: 5, offset: 23841},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 746, col: 16, offset: 23850},
+																								pos: position{line: 746, col: 16, offset: 23852},
 																								run: (*parser).callonListContinuationElement462,
 																								expr: &seqExpr{
-																									pos: position{line: 746, col: 16, offset: 23850},
+																									pos: position{line: 746, col: 16, offset: 23852},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 746, col: 16, offset: 23850},
+																											pos:        position{line: 746, col: 16, offset: 23852},
 																											val:        "====",
 																											ignoreCase: false,
 																											want:       "\"====\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 746, col: 23, offset: 23857},
+																											pos: position{line: 746, col: 23, offset: 23859},
 																											expr: &litMatcher{
-																												pos:        position{line: 746, col: 23, offset: 23857},
+																												pos:        position{line: 746, col: 23, offset: 23859},
 																												val:        "=",
 																												ignoreCase: false,
 																												want:       "\"=\"",
@@ -31610,12 +31610,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 748, col: 8, offset: 23941},
+																							pos: position{line: 748, col: 8, offset: 23943},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 91003},
+																								pos: position{line: 2876, col: 10, offset: 91005},
 																								run: (*parser).callonListContinuationElement468,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 91003},
+																									pos:        position{line: 2876, col: 10, offset: 91005},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -31624,28 +31624,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91401},
+																							pos: position{line: 2898, col: 8, offset: 91403},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91174},
+																									pos: position{line: 2885, col: 12, offset: 91176},
 																									run: (*parser).callonListContinuationElement471,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91175},
+																										pos: position{line: 2885, col: 13, offset: 91177},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91175},
+																												pos:        position{line: 2885, col: 13, offset: 91177},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91182},
+																												pos:        position{line: 2885, col: 20, offset: 91184},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91191},
+																												pos:        position{line: 2885, col: 29, offset: 91193},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -31654,9 +31654,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91351},
+																									pos: position{line: 2895, col: 8, offset: 91353},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91352,
+																										line: 2895, col: 9, offset: 91354,
 																									},
 																								},
 																							},
@@ -31666,15 +31666,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 852, col: 5, offset: 27239},
+																			pos: position{line: 852, col: 5, offset: 27241},
 																			run: (*parser).callonListContinuationElement478,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2895, col: 8, offset: 91351},
+																	pos: position{line: 2895, col: 8, offset: 91353},
 																	expr: &anyMatcher{
-																		line: 2895, col: 9, offset: 91352,
+																		line: 2895, col: 9, offset: 91354,
 																	},
 																},
 															},
@@ -31685,36 +31685,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 951, col: 5, offset: 29688},
+										pos: position{line: 951, col: 5, offset: 29690},
 										run: (*parser).callonListContinuationElement481,
 										expr: &seqExpr{
-											pos: position{line: 951, col: 5, offset: 29688},
+											pos: position{line: 951, col: 5, offset: 29690},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 951, col: 5, offset: 29688},
+													pos:   position{line: 951, col: 5, offset: 29690},
 													label: "delimiter",
 													expr: &actionExpr{
-														pos: position{line: 759, col: 26, offset: 24327},
+														pos: position{line: 759, col: 26, offset: 24329},
 														run: (*parser).callonListContinuationElement484,
 														expr: &seqExpr{
-															pos: position{line: 759, col: 26, offset: 24327},
+															pos: position{line: 759, col: 26, offset: 24329},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 759, col: 26, offset: 24327},
+																	pos:        position{line: 759, col: 26, offset: 24329},
 																	val:        "```",
 																	ignoreCase: false,
 																	want:       "\"```\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 759, col: 32, offset: 24333},
+																	pos:   position{line: 759, col: 32, offset: 24335},
 																	label: "language",
 																	expr: &actionExpr{
-																		pos: position{line: 763, col: 13, offset: 24463},
+																		pos: position{line: 763, col: 13, offset: 24465},
 																		run: (*parser).callonListContinuationElement488,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 763, col: 14, offset: 24464},
+																			pos: position{line: 763, col: 14, offset: 24466},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 763, col: 14, offset: 24464},
+																				pos:        position{line: 763, col: 14, offset: 24466},
 																				val:        "[^\\r\\n`\\t ]",
 																				chars:      []rune{'\r', '\n', '`', '\t', ' '},
 																				ignoreCase: false,
@@ -31724,12 +31724,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 759, col: 52, offset: 24353},
+																	pos: position{line: 759, col: 52, offset: 24355},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 91003},
+																		pos: position{line: 2876, col: 10, offset: 91005},
 																		run: (*parser).callonListContinuationElement492,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 91003},
+																			pos:        position{line: 2876, col: 10, offset: 91005},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31738,28 +31738,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91401},
+																	pos: position{line: 2898, col: 8, offset: 91403},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91174},
+																			pos: position{line: 2885, col: 12, offset: 91176},
 																			run: (*parser).callonListContinuationElement495,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91175},
+																				pos: position{line: 2885, col: 13, offset: 91177},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91175},
+																						pos:        position{line: 2885, col: 13, offset: 91177},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91182},
+																						pos:        position{line: 2885, col: 20, offset: 91184},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91191},
+																						pos:        position{line: 2885, col: 29, offset: 91193},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31768,9 +31768,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91351},
+																			pos: position{line: 2895, col: 8, offset: 91353},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91352,
+																				line: 2895, col: 9, offset: 91354,
 																			},
 																		},
 																	},
@@ -31780,34 +31780,34 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 952, col: 5, offset: 29734},
+													pos:   position{line: 952, col: 5, offset: 29736},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 965, col: 5, offset: 30207},
+														pos: position{line: 965, col: 5, offset: 30209},
 														expr: &actionExpr{
-															pos: position{line: 965, col: 6, offset: 30208},
+															pos: position{line: 965, col: 6, offset: 30210},
 															run: (*parser).callonListContinuationElement504,
 															expr: &seqExpr{
-																pos: position{line: 965, col: 6, offset: 30208},
+																pos: position{line: 965, col: 6, offset: 30210},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 965, col: 6, offset: 30208},
+																		pos: position{line: 965, col: 6, offset: 30210},
 																		expr: &seqExpr{
-																			pos: position{line: 962, col: 34, offset: 30155},
+																			pos: position{line: 962, col: 34, offset: 30157},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 962, col: 34, offset: 30155},
+																					pos:        position{line: 962, col: 34, offset: 30157},
 																					val:        "```",
 																					ignoreCase: false,
 																					want:       "\"```\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 962, col: 40, offset: 30161},
+																					pos: position{line: 962, col: 40, offset: 30163},
 																					expr: &actionExpr{
-																						pos: position{line: 2876, col: 10, offset: 91003},
+																						pos: position{line: 2876, col: 10, offset: 91005},
 																						run: (*parser).callonListContinuationElement510,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2876, col: 10, offset: 91003},
+																							pos:        position{line: 2876, col: 10, offset: 91005},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -31816,28 +31816,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2898, col: 8, offset: 91401},
+																					pos: position{line: 2898, col: 8, offset: 91403},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2885, col: 12, offset: 91174},
+																							pos: position{line: 2885, col: 12, offset: 91176},
 																							run: (*parser).callonListContinuationElement513,
 																							expr: &choiceExpr{
-																								pos: position{line: 2885, col: 13, offset: 91175},
+																								pos: position{line: 2885, col: 13, offset: 91177},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 13, offset: 91175},
+																										pos:        position{line: 2885, col: 13, offset: 91177},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 20, offset: 91182},
+																										pos:        position{line: 2885, col: 20, offset: 91184},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 29, offset: 91191},
+																										pos:        position{line: 2885, col: 29, offset: 91193},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -31846,9 +31846,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2895, col: 8, offset: 91351},
+																							pos: position{line: 2895, col: 8, offset: 91353},
 																							expr: &anyMatcher{
-																								line: 2895, col: 9, offset: 91352,
+																								line: 2895, col: 9, offset: 91354,
 																							},
 																						},
 																					},
@@ -31857,30 +31857,30 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 966, col: 5, offset: 30243},
+																		pos:   position{line: 966, col: 5, offset: 30245},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 810, col: 5, offset: 26100},
+																			pos: position{line: 810, col: 5, offset: 26102},
 																			run: (*parser).callonListContinuationElement521,
 																			expr: &seqExpr{
-																				pos: position{line: 810, col: 5, offset: 26100},
+																				pos: position{line: 810, col: 5, offset: 26102},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2893, col: 11, offset: 91337},
+																						pos: position{line: 2893, col: 11, offset: 91339},
 																						expr: &anyMatcher{
-																							line: 2893, col: 13, offset: 91339,
+																							line: 2893, col: 13, offset: 91341,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 811, col: 5, offset: 26175},
+																						pos:   position{line: 811, col: 5, offset: 26177},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2822, col: 13, offset: 89529},
+																							pos: position{line: 2822, col: 13, offset: 89531},
 																							run: (*parser).callonListContinuationElement526,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2822, col: 13, offset: 89529},
+																								pos: position{line: 2822, col: 13, offset: 89531},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2822, col: 13, offset: 89529},
+																									pos:        position{line: 2822, col: 13, offset: 89531},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31890,28 +31890,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91401},
+																						pos: position{line: 2898, col: 8, offset: 91403},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91174},
+																								pos: position{line: 2885, col: 12, offset: 91176},
 																								run: (*parser).callonListContinuationElement530,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91175},
+																									pos: position{line: 2885, col: 13, offset: 91177},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91175},
+																											pos:        position{line: 2885, col: 13, offset: 91177},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91182},
+																											pos:        position{line: 2885, col: 20, offset: 91184},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91191},
+																											pos:        position{line: 2885, col: 29, offset: 91193},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31920,9 +31920,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91351},
+																								pos: position{line: 2895, col: 8, offset: 91353},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91352,
+																									line: 2895, col: 9, offset: 91354,
 																								},
 																							},
 																						},
@@ -31937,23 +31937,23 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 953, col: 5, offset: 29773},
+													pos: position{line: 953, col: 5, offset: 29775},
 													expr: &seqExpr{
-														pos: position{line: 962, col: 34, offset: 30155},
+														pos: position{line: 962, col: 34, offset: 30157},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 962, col: 34, offset: 30155},
+																pos:        position{line: 962, col: 34, offset: 30157},
 																val:        "```",
 																ignoreCase: false,
 																want:       "\"```\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 962, col: 40, offset: 30161},
+																pos: position{line: 962, col: 40, offset: 30163},
 																expr: &actionExpr{
-																	pos: position{line: 2876, col: 10, offset: 91003},
+																	pos: position{line: 2876, col: 10, offset: 91005},
 																	run: (*parser).callonListContinuationElement541,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2876, col: 10, offset: 91003},
+																		pos:        position{line: 2876, col: 10, offset: 91005},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -31962,28 +31962,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2898, col: 8, offset: 91401},
+																pos: position{line: 2898, col: 8, offset: 91403},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2885, col: 12, offset: 91174},
+																		pos: position{line: 2885, col: 12, offset: 91176},
 																		run: (*parser).callonListContinuationElement544,
 																		expr: &choiceExpr{
-																			pos: position{line: 2885, col: 13, offset: 91175},
+																			pos: position{line: 2885, col: 13, offset: 91177},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 13, offset: 91175},
+																					pos:        position{line: 2885, col: 13, offset: 91177},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 20, offset: 91182},
+																					pos:        position{line: 2885, col: 20, offset: 91184},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 29, offset: 91191},
+																					pos:        position{line: 2885, col: 29, offset: 91193},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -31992,9 +31992,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91351},
+																		pos: position{line: 2895, col: 8, offset: 91353},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91352,
+																			line: 2895, col: 9, offset: 91354,
 																		},
 																	},
 																},
@@ -32006,39 +32006,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 867, col: 5, offset: 27549},
+										pos: position{line: 867, col: 5, offset: 27551},
 										run: (*parser).callonListContinuationElement551,
 										expr: &seqExpr{
-											pos: position{line: 867, col: 5, offset: 27549},
+											pos: position{line: 867, col: 5, offset: 27551},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 867, col: 5, offset: 27549},
+													pos:   position{line: 867, col: 5, offset: 27551},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 753, col: 5, offset: 24086},
+														pos: position{line: 753, col: 5, offset: 24088},
 														run: (*parser).callonListContinuationElement554,
 														expr: &seqExpr{
-															pos: position{line: 753, col: 5, offset: 24086},
+															pos: position{line: 753, col: 5, offset: 24088},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 753, col: 5, offset: 24086},
+																	pos:   position{line: 753, col: 5, offset: 24088},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 753, col: 16, offset: 24097},
+																		pos: position{line: 753, col: 16, offset: 24099},
 																		run: (*parser).callonListContinuationElement557,
 																		expr: &seqExpr{
-																			pos: position{line: 753, col: 16, offset: 24097},
+																			pos: position{line: 753, col: 16, offset: 24099},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 753, col: 16, offset: 24097},
+																					pos:        position{line: 753, col: 16, offset: 24099},
 																					val:        "```",
 																					ignoreCase: false,
 																					want:       "\"```\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 753, col: 22, offset: 24103},
+																					pos: position{line: 753, col: 22, offset: 24105},
 																					expr: &litMatcher{
-																						pos:        position{line: 753, col: 22, offset: 24103},
+																						pos:        position{line: 753, col: 22, offset: 24105},
 																						val:        "`",
 																						ignoreCase: false,
 																						want:       "\"`\"",
@@ -32049,12 +32049,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 755, col: 8, offset: 24187},
+																	pos: position{line: 755, col: 8, offset: 24189},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 91003},
+																		pos: position{line: 2876, col: 10, offset: 91005},
 																		run: (*parser).callonListContinuationElement563,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 91003},
+																			pos:        position{line: 2876, col: 10, offset: 91005},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32063,28 +32063,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91401},
+																	pos: position{line: 2898, col: 8, offset: 91403},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91174},
+																			pos: position{line: 2885, col: 12, offset: 91176},
 																			run: (*parser).callonListContinuationElement566,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91175},
+																				pos: position{line: 2885, col: 13, offset: 91177},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91175},
+																						pos:        position{line: 2885, col: 13, offset: 91177},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91182},
+																						pos:        position{line: 2885, col: 20, offset: 91184},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91191},
+																						pos:        position{line: 2885, col: 29, offset: 91193},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32093,9 +32093,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91351},
+																			pos: position{line: 2895, col: 8, offset: 91353},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91352,
+																				line: 2895, col: 9, offset: 91354,
 																			},
 																		},
 																	},
@@ -32105,56 +32105,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 868, col: 5, offset: 27587},
+													pos: position{line: 868, col: 5, offset: 27589},
 													run: (*parser).callonListContinuationElement573,
 												},
 												&labeledExpr{
-													pos:   position{line: 871, col: 5, offset: 27679},
+													pos:   position{line: 871, col: 5, offset: 27681},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 886, col: 5, offset: 28069},
+														pos: position{line: 886, col: 5, offset: 28071},
 														expr: &actionExpr{
-															pos: position{line: 886, col: 6, offset: 28070},
+															pos: position{line: 886, col: 6, offset: 28072},
 															run: (*parser).callonListContinuationElement576,
 															expr: &seqExpr{
-																pos: position{line: 886, col: 6, offset: 28070},
+																pos: position{line: 886, col: 6, offset: 28072},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 886, col: 6, offset: 28070},
+																		pos: position{line: 886, col: 6, offset: 28072},
 																		expr: &choiceExpr{
-																			pos: position{line: 879, col: 5, offset: 27913},
+																			pos: position{line: 879, col: 5, offset: 27915},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 879, col: 5, offset: 27913},
+																					pos: position{line: 879, col: 5, offset: 27915},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 879, col: 5, offset: 27913},
+																							pos:   position{line: 879, col: 5, offset: 27915},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 753, col: 5, offset: 24086},
+																								pos: position{line: 753, col: 5, offset: 24088},
 																								run: (*parser).callonListContinuationElement582,
 																								expr: &seqExpr{
-																									pos: position{line: 753, col: 5, offset: 24086},
+																									pos: position{line: 753, col: 5, offset: 24088},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 753, col: 5, offset: 24086},
+																											pos:   position{line: 753, col: 5, offset: 24088},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 753, col: 16, offset: 24097},
+																												pos: position{line: 753, col: 16, offset: 24099},
 																												run: (*parser).callonListContinuationElement585,
 																												expr: &seqExpr{
-																													pos: position{line: 753, col: 16, offset: 24097},
+																													pos: position{line: 753, col: 16, offset: 24099},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 753, col: 16, offset: 24097},
+																															pos:        position{line: 753, col: 16, offset: 24099},
 																															val:        "```",
 																															ignoreCase: false,
 																															want:       "\"```\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 753, col: 22, offset: 24103},
+																															pos: position{line: 753, col: 22, offset: 24105},
 																															expr: &litMatcher{
-																																pos:        position{line: 753, col: 22, offset: 24103},
+																																pos:        position{line: 753, col: 22, offset: 24105},
 																																val:        "`",
 																																ignoreCase: false,
 																																want:       "\"`\"",
@@ -32165,12 +32165,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 755, col: 8, offset: 24187},
+																											pos: position{line: 755, col: 8, offset: 24189},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 91003},
+																												pos: position{line: 2876, col: 10, offset: 91005},
 																												run: (*parser).callonListContinuationElement591,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 91003},
+																													pos:        position{line: 2876, col: 10, offset: 91005},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32179,28 +32179,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91401},
+																											pos: position{line: 2898, col: 8, offset: 91403},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91174},
+																													pos: position{line: 2885, col: 12, offset: 91176},
 																													run: (*parser).callonListContinuationElement594,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91175},
+																														pos: position{line: 2885, col: 13, offset: 91177},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91175},
+																																pos:        position{line: 2885, col: 13, offset: 91177},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91182},
+																																pos:        position{line: 2885, col: 20, offset: 91184},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91191},
+																																pos:        position{line: 2885, col: 29, offset: 91193},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32209,9 +32209,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91351},
+																													pos: position{line: 2895, col: 8, offset: 91353},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91352,
+																														line: 2895, col: 9, offset: 91354,
 																													},
 																												},
 																											},
@@ -32221,45 +32221,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 880, col: 5, offset: 27943},
+																							pos: position{line: 880, col: 5, offset: 27945},
 																							run: (*parser).callonListContinuationElement601,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91351},
+																					pos: position{line: 2895, col: 8, offset: 91353},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91352,
+																						line: 2895, col: 9, offset: 91354,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 887, col: 5, offset: 28099},
+																		pos:   position{line: 887, col: 5, offset: 28101},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 810, col: 5, offset: 26100},
+																			pos: position{line: 810, col: 5, offset: 26102},
 																			run: (*parser).callonListContinuationElement605,
 																			expr: &seqExpr{
-																				pos: position{line: 810, col: 5, offset: 26100},
+																				pos: position{line: 810, col: 5, offset: 26102},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2893, col: 11, offset: 91337},
+																						pos: position{line: 2893, col: 11, offset: 91339},
 																						expr: &anyMatcher{
-																							line: 2893, col: 13, offset: 91339,
+																							line: 2893, col: 13, offset: 91341,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 811, col: 5, offset: 26175},
+																						pos:   position{line: 811, col: 5, offset: 26177},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2822, col: 13, offset: 89529},
+																							pos: position{line: 2822, col: 13, offset: 89531},
 																							run: (*parser).callonListContinuationElement610,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2822, col: 13, offset: 89529},
+																								pos: position{line: 2822, col: 13, offset: 89531},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2822, col: 13, offset: 89529},
+																									pos:        position{line: 2822, col: 13, offset: 89531},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32269,28 +32269,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91401},
+																						pos: position{line: 2898, col: 8, offset: 91403},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91174},
+																								pos: position{line: 2885, col: 12, offset: 91176},
 																								run: (*parser).callonListContinuationElement614,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91175},
+																									pos: position{line: 2885, col: 13, offset: 91177},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91175},
+																											pos:        position{line: 2885, col: 13, offset: 91177},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91182},
+																											pos:        position{line: 2885, col: 20, offset: 91184},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91191},
+																											pos:        position{line: 2885, col: 29, offset: 91193},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32299,9 +32299,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91351},
+																								pos: position{line: 2895, col: 8, offset: 91353},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91352,
+																									line: 2895, col: 9, offset: 91354,
 																								},
 																							},
 																						},
@@ -32316,44 +32316,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 872, col: 5, offset: 27712},
+													pos:   position{line: 872, col: 5, offset: 27714},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 872, col: 9, offset: 27716},
+														pos: position{line: 872, col: 9, offset: 27718},
 														expr: &choiceExpr{
-															pos: position{line: 879, col: 5, offset: 27913},
+															pos: position{line: 879, col: 5, offset: 27915},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 879, col: 5, offset: 27913},
+																	pos: position{line: 879, col: 5, offset: 27915},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 879, col: 5, offset: 27913},
+																			pos:   position{line: 879, col: 5, offset: 27915},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 753, col: 5, offset: 24086},
+																				pos: position{line: 753, col: 5, offset: 24088},
 																				run: (*parser).callonListContinuationElement626,
 																				expr: &seqExpr{
-																					pos: position{line: 753, col: 5, offset: 24086},
+																					pos: position{line: 753, col: 5, offset: 24088},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 753, col: 5, offset: 24086},
+																							pos:   position{line: 753, col: 5, offset: 24088},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 753, col: 16, offset: 24097},
+																								pos: position{line: 753, col: 16, offset: 24099},
 																								run: (*parser).callonListContinuationElement629,
 																								expr: &seqExpr{
-																									pos: position{line: 753, col: 16, offset: 24097},
+																									pos: position{line: 753, col: 16, offset: 24099},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 753, col: 16, offset: 24097},
+																											pos:        position{line: 753, col: 16, offset: 24099},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 753, col: 22, offset: 24103},
+																											pos: position{line: 753, col: 22, offset: 24105},
 																											expr: &litMatcher{
-																												pos:        position{line: 753, col: 22, offset: 24103},
+																												pos:        position{line: 753, col: 22, offset: 24105},
 																												val:        "`",
 																												ignoreCase: false,
 																												want:       "\"`\"",
@@ -32364,12 +32364,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 755, col: 8, offset: 24187},
+																							pos: position{line: 755, col: 8, offset: 24189},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 91003},
+																								pos: position{line: 2876, col: 10, offset: 91005},
 																								run: (*parser).callonListContinuationElement635,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 91003},
+																									pos:        position{line: 2876, col: 10, offset: 91005},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32378,28 +32378,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91401},
+																							pos: position{line: 2898, col: 8, offset: 91403},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91174},
+																									pos: position{line: 2885, col: 12, offset: 91176},
 																									run: (*parser).callonListContinuationElement638,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91175},
+																										pos: position{line: 2885, col: 13, offset: 91177},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91175},
+																												pos:        position{line: 2885, col: 13, offset: 91177},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91182},
+																												pos:        position{line: 2885, col: 20, offset: 91184},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91191},
+																												pos:        position{line: 2885, col: 29, offset: 91193},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32408,9 +32408,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91351},
+																									pos: position{line: 2895, col: 8, offset: 91353},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91352,
+																										line: 2895, col: 9, offset: 91354,
 																									},
 																								},
 																							},
@@ -32420,15 +32420,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 880, col: 5, offset: 27943},
+																			pos: position{line: 880, col: 5, offset: 27945},
 																			run: (*parser).callonListContinuationElement645,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2895, col: 8, offset: 91351},
+																	pos: position{line: 2895, col: 8, offset: 91353},
 																	expr: &anyMatcher{
-																		line: 2895, col: 9, offset: 91352,
+																		line: 2895, col: 9, offset: 91354,
 																	},
 																},
 															},
@@ -32439,39 +32439,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 895, col: 5, offset: 28254},
+										pos: position{line: 895, col: 5, offset: 28256},
 										run: (*parser).callonListContinuationElement648,
 										expr: &seqExpr{
-											pos: position{line: 895, col: 5, offset: 28254},
+											pos: position{line: 895, col: 5, offset: 28256},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 895, col: 5, offset: 28254},
+													pos:   position{line: 895, col: 5, offset: 28256},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 768, col: 5, offset: 24628},
+														pos: position{line: 768, col: 5, offset: 24630},
 														run: (*parser).callonListContinuationElement651,
 														expr: &seqExpr{
-															pos: position{line: 768, col: 5, offset: 24628},
+															pos: position{line: 768, col: 5, offset: 24630},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 768, col: 5, offset: 24628},
+																	pos:   position{line: 768, col: 5, offset: 24630},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 768, col: 16, offset: 24639},
+																		pos: position{line: 768, col: 16, offset: 24641},
 																		run: (*parser).callonListContinuationElement654,
 																		expr: &seqExpr{
-																			pos: position{line: 768, col: 16, offset: 24639},
+																			pos: position{line: 768, col: 16, offset: 24641},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 768, col: 16, offset: 24639},
+																					pos:        position{line: 768, col: 16, offset: 24641},
 																					val:        "----",
 																					ignoreCase: false,
 																					want:       "\"----\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 768, col: 23, offset: 24646},
+																					pos: position{line: 768, col: 23, offset: 24648},
 																					expr: &litMatcher{
-																						pos:        position{line: 768, col: 23, offset: 24646},
+																						pos:        position{line: 768, col: 23, offset: 24648},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
@@ -32482,12 +32482,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 770, col: 8, offset: 24730},
+																	pos: position{line: 770, col: 8, offset: 24732},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 91003},
+																		pos: position{line: 2876, col: 10, offset: 91005},
 																		run: (*parser).callonListContinuationElement660,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 91003},
+																			pos:        position{line: 2876, col: 10, offset: 91005},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32496,28 +32496,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91401},
+																	pos: position{line: 2898, col: 8, offset: 91403},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91174},
+																			pos: position{line: 2885, col: 12, offset: 91176},
 																			run: (*parser).callonListContinuationElement663,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91175},
+																				pos: position{line: 2885, col: 13, offset: 91177},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91175},
+																						pos:        position{line: 2885, col: 13, offset: 91177},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91182},
+																						pos:        position{line: 2885, col: 20, offset: 91184},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91191},
+																						pos:        position{line: 2885, col: 29, offset: 91193},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32526,9 +32526,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91351},
+																			pos: position{line: 2895, col: 8, offset: 91353},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91352,
+																				line: 2895, col: 9, offset: 91354,
 																			},
 																		},
 																	},
@@ -32538,56 +32538,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 896, col: 5, offset: 28293},
+													pos: position{line: 896, col: 5, offset: 28295},
 													run: (*parser).callonListContinuationElement670,
 												},
 												&labeledExpr{
-													pos:   position{line: 899, col: 5, offset: 28385},
+													pos:   position{line: 899, col: 5, offset: 28387},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 914, col: 5, offset: 28783},
+														pos: position{line: 914, col: 5, offset: 28785},
 														expr: &actionExpr{
-															pos: position{line: 914, col: 6, offset: 28784},
+															pos: position{line: 914, col: 6, offset: 28786},
 															run: (*parser).callonListContinuationElement673,
 															expr: &seqExpr{
-																pos: position{line: 914, col: 6, offset: 28784},
+																pos: position{line: 914, col: 6, offset: 28786},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 914, col: 6, offset: 28784},
+																		pos: position{line: 914, col: 6, offset: 28786},
 																		expr: &choiceExpr{
-																			pos: position{line: 907, col: 5, offset: 28625},
+																			pos: position{line: 907, col: 5, offset: 28627},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 907, col: 5, offset: 28625},
+																					pos: position{line: 907, col: 5, offset: 28627},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 907, col: 5, offset: 28625},
+																							pos:   position{line: 907, col: 5, offset: 28627},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 768, col: 5, offset: 24628},
+																								pos: position{line: 768, col: 5, offset: 24630},
 																								run: (*parser).callonListContinuationElement679,
 																								expr: &seqExpr{
-																									pos: position{line: 768, col: 5, offset: 24628},
+																									pos: position{line: 768, col: 5, offset: 24630},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 768, col: 5, offset: 24628},
+																											pos:   position{line: 768, col: 5, offset: 24630},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 768, col: 16, offset: 24639},
+																												pos: position{line: 768, col: 16, offset: 24641},
 																												run: (*parser).callonListContinuationElement682,
 																												expr: &seqExpr{
-																													pos: position{line: 768, col: 16, offset: 24639},
+																													pos: position{line: 768, col: 16, offset: 24641},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 768, col: 16, offset: 24639},
+																															pos:        position{line: 768, col: 16, offset: 24641},
 																															val:        "----",
 																															ignoreCase: false,
 																															want:       "\"----\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 768, col: 23, offset: 24646},
+																															pos: position{line: 768, col: 23, offset: 24648},
 																															expr: &litMatcher{
-																																pos:        position{line: 768, col: 23, offset: 24646},
+																																pos:        position{line: 768, col: 23, offset: 24648},
 																																val:        "-",
 																																ignoreCase: false,
 																																want:       "\"-\"",
@@ -32598,12 +32598,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 770, col: 8, offset: 24730},
+																											pos: position{line: 770, col: 8, offset: 24732},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 91003},
+																												pos: position{line: 2876, col: 10, offset: 91005},
 																												run: (*parser).callonListContinuationElement688,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 91003},
+																													pos:        position{line: 2876, col: 10, offset: 91005},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32612,28 +32612,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91401},
+																											pos: position{line: 2898, col: 8, offset: 91403},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91174},
+																													pos: position{line: 2885, col: 12, offset: 91176},
 																													run: (*parser).callonListContinuationElement691,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91175},
+																														pos: position{line: 2885, col: 13, offset: 91177},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91175},
+																																pos:        position{line: 2885, col: 13, offset: 91177},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91182},
+																																pos:        position{line: 2885, col: 20, offset: 91184},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91191},
+																																pos:        position{line: 2885, col: 29, offset: 91193},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32642,9 +32642,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91351},
+																													pos: position{line: 2895, col: 8, offset: 91353},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91352,
+																														line: 2895, col: 9, offset: 91354,
 																													},
 																												},
 																											},
@@ -32654,45 +32654,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 908, col: 5, offset: 28656},
+																							pos: position{line: 908, col: 5, offset: 28658},
 																							run: (*parser).callonListContinuationElement698,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91351},
+																					pos: position{line: 2895, col: 8, offset: 91353},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91352,
+																						line: 2895, col: 9, offset: 91354,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 915, col: 5, offset: 28814},
+																		pos:   position{line: 915, col: 5, offset: 28816},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 810, col: 5, offset: 26100},
+																			pos: position{line: 810, col: 5, offset: 26102},
 																			run: (*parser).callonListContinuationElement702,
 																			expr: &seqExpr{
-																				pos: position{line: 810, col: 5, offset: 26100},
+																				pos: position{line: 810, col: 5, offset: 26102},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2893, col: 11, offset: 91337},
+																						pos: position{line: 2893, col: 11, offset: 91339},
 																						expr: &anyMatcher{
-																							line: 2893, col: 13, offset: 91339,
+																							line: 2893, col: 13, offset: 91341,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 811, col: 5, offset: 26175},
+																						pos:   position{line: 811, col: 5, offset: 26177},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2822, col: 13, offset: 89529},
+																							pos: position{line: 2822, col: 13, offset: 89531},
 																							run: (*parser).callonListContinuationElement707,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2822, col: 13, offset: 89529},
+																								pos: position{line: 2822, col: 13, offset: 89531},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2822, col: 13, offset: 89529},
+																									pos:        position{line: 2822, col: 13, offset: 89531},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32702,28 +32702,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91401},
+																						pos: position{line: 2898, col: 8, offset: 91403},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91174},
+																								pos: position{line: 2885, col: 12, offset: 91176},
 																								run: (*parser).callonListContinuationElement711,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91175},
+																									pos: position{line: 2885, col: 13, offset: 91177},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91175},
+																											pos:        position{line: 2885, col: 13, offset: 91177},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91182},
+																											pos:        position{line: 2885, col: 20, offset: 91184},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91191},
+																											pos:        position{line: 2885, col: 29, offset: 91193},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32732,9 +32732,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91351},
+																								pos: position{line: 2895, col: 8, offset: 91353},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91352,
+																									line: 2895, col: 9, offset: 91354,
 																								},
 																							},
 																						},
@@ -32749,44 +32749,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 900, col: 5, offset: 28419},
+													pos:   position{line: 900, col: 5, offset: 28421},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 900, col: 9, offset: 28423},
+														pos: position{line: 900, col: 9, offset: 28425},
 														expr: &choiceExpr{
-															pos: position{line: 907, col: 5, offset: 28625},
+															pos: position{line: 907, col: 5, offset: 28627},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 907, col: 5, offset: 28625},
+																	pos: position{line: 907, col: 5, offset: 28627},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 907, col: 5, offset: 28625},
+																			pos:   position{line: 907, col: 5, offset: 28627},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 768, col: 5, offset: 24628},
+																				pos: position{line: 768, col: 5, offset: 24630},
 																				run: (*parser).callonListContinuationElement723,
 																				expr: &seqExpr{
-																					pos: position{line: 768, col: 5, offset: 24628},
+																					pos: position{line: 768, col: 5, offset: 24630},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 768, col: 5, offset: 24628},
+																							pos:   position{line: 768, col: 5, offset: 24630},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 768, col: 16, offset: 24639},
+																								pos: position{line: 768, col: 16, offset: 24641},
 																								run: (*parser).callonListContinuationElement726,
 																								expr: &seqExpr{
-																									pos: position{line: 768, col: 16, offset: 24639},
+																									pos: position{line: 768, col: 16, offset: 24641},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 768, col: 16, offset: 24639},
+																											pos:        position{line: 768, col: 16, offset: 24641},
 																											val:        "----",
 																											ignoreCase: false,
 																											want:       "\"----\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 768, col: 23, offset: 24646},
+																											pos: position{line: 768, col: 23, offset: 24648},
 																											expr: &litMatcher{
-																												pos:        position{line: 768, col: 23, offset: 24646},
+																												pos:        position{line: 768, col: 23, offset: 24648},
 																												val:        "-",
 																												ignoreCase: false,
 																												want:       "\"-\"",
@@ -32797,12 +32797,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 770, col: 8, offset: 24730},
+																							pos: position{line: 770, col: 8, offset: 24732},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 91003},
+																								pos: position{line: 2876, col: 10, offset: 91005},
 																								run: (*parser).callonListContinuationElement732,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 91003},
+																									pos:        position{line: 2876, col: 10, offset: 91005},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32811,28 +32811,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91401},
+																							pos: position{line: 2898, col: 8, offset: 91403},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91174},
+																									pos: position{line: 2885, col: 12, offset: 91176},
 																									run: (*parser).callonListContinuationElement735,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91175},
+																										pos: position{line: 2885, col: 13, offset: 91177},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91175},
+																												pos:        position{line: 2885, col: 13, offset: 91177},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91182},
+																												pos:        position{line: 2885, col: 20, offset: 91184},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91191},
+																												pos:        position{line: 2885, col: 29, offset: 91193},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32841,9 +32841,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91351},
+																									pos: position{line: 2895, col: 8, offset: 91353},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91352,
+																										line: 2895, col: 9, offset: 91354,
 																									},
 																								},
 																							},
@@ -32853,15 +32853,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 908, col: 5, offset: 28656},
+																			pos: position{line: 908, col: 5, offset: 28658},
 																			run: (*parser).callonListContinuationElement742,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2895, col: 8, offset: 91351},
+																	pos: position{line: 2895, col: 8, offset: 91353},
 																	expr: &anyMatcher{
-																		line: 2895, col: 9, offset: 91352,
+																		line: 2895, col: 9, offset: 91354,
 																	},
 																},
 															},
@@ -32872,39 +32872,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 923, col: 5, offset: 28969},
+										pos: position{line: 923, col: 5, offset: 28971},
 										run: (*parser).callonListContinuationElement745,
 										expr: &seqExpr{
-											pos: position{line: 923, col: 5, offset: 28969},
+											pos: position{line: 923, col: 5, offset: 28971},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 923, col: 5, offset: 28969},
+													pos:   position{line: 923, col: 5, offset: 28971},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 782, col: 5, offset: 25104},
+														pos: position{line: 782, col: 5, offset: 25106},
 														run: (*parser).callonListContinuationElement748,
 														expr: &seqExpr{
-															pos: position{line: 782, col: 5, offset: 25104},
+															pos: position{line: 782, col: 5, offset: 25106},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 782, col: 5, offset: 25104},
+																	pos:   position{line: 782, col: 5, offset: 25106},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 782, col: 16, offset: 25115},
+																		pos: position{line: 782, col: 16, offset: 25117},
 																		run: (*parser).callonListContinuationElement751,
 																		expr: &seqExpr{
-																			pos: position{line: 782, col: 16, offset: 25115},
+																			pos: position{line: 782, col: 16, offset: 25117},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 782, col: 16, offset: 25115},
+																					pos:        position{line: 782, col: 16, offset: 25117},
 																					val:        "....",
 																					ignoreCase: false,
 																					want:       "\"....\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 782, col: 23, offset: 25122},
+																					pos: position{line: 782, col: 23, offset: 25124},
 																					expr: &litMatcher{
-																						pos:        position{line: 782, col: 23, offset: 25122},
+																						pos:        position{line: 782, col: 23, offset: 25124},
 																						val:        ".",
 																						ignoreCase: false,
 																						want:       "\".\"",
@@ -32915,12 +32915,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 784, col: 8, offset: 25206},
+																	pos: position{line: 784, col: 8, offset: 25208},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 91003},
+																		pos: position{line: 2876, col: 10, offset: 91005},
 																		run: (*parser).callonListContinuationElement757,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 91003},
+																			pos:        position{line: 2876, col: 10, offset: 91005},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32929,28 +32929,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91401},
+																	pos: position{line: 2898, col: 8, offset: 91403},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91174},
+																			pos: position{line: 2885, col: 12, offset: 91176},
 																			run: (*parser).callonListContinuationElement760,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91175},
+																				pos: position{line: 2885, col: 13, offset: 91177},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91175},
+																						pos:        position{line: 2885, col: 13, offset: 91177},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91182},
+																						pos:        position{line: 2885, col: 20, offset: 91184},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91191},
+																						pos:        position{line: 2885, col: 29, offset: 91193},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32959,9 +32959,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91351},
+																			pos: position{line: 2895, col: 8, offset: 91353},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91352,
+																				line: 2895, col: 9, offset: 91354,
 																			},
 																		},
 																	},
@@ -32971,56 +32971,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 924, col: 5, offset: 29008},
+													pos: position{line: 924, col: 5, offset: 29010},
 													run: (*parser).callonListContinuationElement767,
 												},
 												&labeledExpr{
-													pos:   position{line: 927, col: 5, offset: 29100},
+													pos:   position{line: 927, col: 5, offset: 29102},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 942, col: 5, offset: 29498},
+														pos: position{line: 942, col: 5, offset: 29500},
 														expr: &actionExpr{
-															pos: position{line: 942, col: 6, offset: 29499},
+															pos: position{line: 942, col: 6, offset: 29501},
 															run: (*parser).callonListContinuationElement770,
 															expr: &seqExpr{
-																pos: position{line: 942, col: 6, offset: 29499},
+																pos: position{line: 942, col: 6, offset: 29501},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 942, col: 6, offset: 29499},
+																		pos: position{line: 942, col: 6, offset: 29501},
 																		expr: &choiceExpr{
-																			pos: position{line: 935, col: 5, offset: 29340},
+																			pos: position{line: 935, col: 5, offset: 29342},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 935, col: 5, offset: 29340},
+																					pos: position{line: 935, col: 5, offset: 29342},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 935, col: 5, offset: 29340},
+																							pos:   position{line: 935, col: 5, offset: 29342},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 782, col: 5, offset: 25104},
+																								pos: position{line: 782, col: 5, offset: 25106},
 																								run: (*parser).callonListContinuationElement776,
 																								expr: &seqExpr{
-																									pos: position{line: 782, col: 5, offset: 25104},
+																									pos: position{line: 782, col: 5, offset: 25106},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 782, col: 5, offset: 25104},
+																											pos:   position{line: 782, col: 5, offset: 25106},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 782, col: 16, offset: 25115},
+																												pos: position{line: 782, col: 16, offset: 25117},
 																												run: (*parser).callonListContinuationElement779,
 																												expr: &seqExpr{
-																													pos: position{line: 782, col: 16, offset: 25115},
+																													pos: position{line: 782, col: 16, offset: 25117},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 782, col: 16, offset: 25115},
+																															pos:        position{line: 782, col: 16, offset: 25117},
 																															val:        "....",
 																															ignoreCase: false,
 																															want:       "\"....\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 782, col: 23, offset: 25122},
+																															pos: position{line: 782, col: 23, offset: 25124},
 																															expr: &litMatcher{
-																																pos:        position{line: 782, col: 23, offset: 25122},
+																																pos:        position{line: 782, col: 23, offset: 25124},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -33031,12 +33031,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 784, col: 8, offset: 25206},
+																											pos: position{line: 784, col: 8, offset: 25208},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 91003},
+																												pos: position{line: 2876, col: 10, offset: 91005},
 																												run: (*parser).callonListContinuationElement785,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 91003},
+																													pos:        position{line: 2876, col: 10, offset: 91005},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33045,28 +33045,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91401},
+																											pos: position{line: 2898, col: 8, offset: 91403},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91174},
+																													pos: position{line: 2885, col: 12, offset: 91176},
 																													run: (*parser).callonListContinuationElement788,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91175},
+																														pos: position{line: 2885, col: 13, offset: 91177},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91175},
+																																pos:        position{line: 2885, col: 13, offset: 91177},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91182},
+																																pos:        position{line: 2885, col: 20, offset: 91184},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91191},
+																																pos:        position{line: 2885, col: 29, offset: 91193},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33075,9 +33075,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91351},
+																													pos: position{line: 2895, col: 8, offset: 91353},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91352,
+																														line: 2895, col: 9, offset: 91354,
 																													},
 																												},
 																											},
@@ -33087,45 +33087,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 936, col: 5, offset: 29371},
+																							pos: position{line: 936, col: 5, offset: 29373},
 																							run: (*parser).callonListContinuationElement795,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91351},
+																					pos: position{line: 2895, col: 8, offset: 91353},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91352,
+																						line: 2895, col: 9, offset: 91354,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 943, col: 5, offset: 29529},
+																		pos:   position{line: 943, col: 5, offset: 29531},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 810, col: 5, offset: 26100},
+																			pos: position{line: 810, col: 5, offset: 26102},
 																			run: (*parser).callonListContinuationElement799,
 																			expr: &seqExpr{
-																				pos: position{line: 810, col: 5, offset: 26100},
+																				pos: position{line: 810, col: 5, offset: 26102},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2893, col: 11, offset: 91337},
+																						pos: position{line: 2893, col: 11, offset: 91339},
 																						expr: &anyMatcher{
-																							line: 2893, col: 13, offset: 91339,
+																							line: 2893, col: 13, offset: 91341,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 811, col: 5, offset: 26175},
+																						pos:   position{line: 811, col: 5, offset: 26177},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2822, col: 13, offset: 89529},
+																							pos: position{line: 2822, col: 13, offset: 89531},
 																							run: (*parser).callonListContinuationElement804,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2822, col: 13, offset: 89529},
+																								pos: position{line: 2822, col: 13, offset: 89531},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2822, col: 13, offset: 89529},
+																									pos:        position{line: 2822, col: 13, offset: 89531},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33135,28 +33135,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91401},
+																						pos: position{line: 2898, col: 8, offset: 91403},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91174},
+																								pos: position{line: 2885, col: 12, offset: 91176},
 																								run: (*parser).callonListContinuationElement808,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91175},
+																									pos: position{line: 2885, col: 13, offset: 91177},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91175},
+																											pos:        position{line: 2885, col: 13, offset: 91177},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91182},
+																											pos:        position{line: 2885, col: 20, offset: 91184},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91191},
+																											pos:        position{line: 2885, col: 29, offset: 91193},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33165,9 +33165,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91351},
+																								pos: position{line: 2895, col: 8, offset: 91353},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91352,
+																									line: 2895, col: 9, offset: 91354,
 																								},
 																							},
 																						},
@@ -33182,44 +33182,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 928, col: 5, offset: 29134},
+													pos:   position{line: 928, col: 5, offset: 29136},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 928, col: 9, offset: 29138},
+														pos: position{line: 928, col: 9, offset: 29140},
 														expr: &choiceExpr{
-															pos: position{line: 935, col: 5, offset: 29340},
+															pos: position{line: 935, col: 5, offset: 29342},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 935, col: 5, offset: 29340},
+																	pos: position{line: 935, col: 5, offset: 29342},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 935, col: 5, offset: 29340},
+																			pos:   position{line: 935, col: 5, offset: 29342},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 782, col: 5, offset: 25104},
+																				pos: position{line: 782, col: 5, offset: 25106},
 																				run: (*parser).callonListContinuationElement820,
 																				expr: &seqExpr{
-																					pos: position{line: 782, col: 5, offset: 25104},
+																					pos: position{line: 782, col: 5, offset: 25106},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 782, col: 5, offset: 25104},
+																							pos:   position{line: 782, col: 5, offset: 25106},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 782, col: 16, offset: 25115},
+																								pos: position{line: 782, col: 16, offset: 25117},
 																								run: (*parser).callonListContinuationElement823,
 																								expr: &seqExpr{
-																									pos: position{line: 782, col: 16, offset: 25115},
+																									pos: position{line: 782, col: 16, offset: 25117},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 782, col: 16, offset: 25115},
+																											pos:        position{line: 782, col: 16, offset: 25117},
 																											val:        "....",
 																											ignoreCase: false,
 																											want:       "\"....\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 782, col: 23, offset: 25122},
+																											pos: position{line: 782, col: 23, offset: 25124},
 																											expr: &litMatcher{
-																												pos:        position{line: 782, col: 23, offset: 25122},
+																												pos:        position{line: 782, col: 23, offset: 25124},
 																												val:        ".",
 																												ignoreCase: false,
 																												want:       "\".\"",
@@ -33230,12 +33230,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 784, col: 8, offset: 25206},
+																							pos: position{line: 784, col: 8, offset: 25208},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 91003},
+																								pos: position{line: 2876, col: 10, offset: 91005},
 																								run: (*parser).callonListContinuationElement829,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 91003},
+																									pos:        position{line: 2876, col: 10, offset: 91005},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33244,28 +33244,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91401},
+																							pos: position{line: 2898, col: 8, offset: 91403},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91174},
+																									pos: position{line: 2885, col: 12, offset: 91176},
 																									run: (*parser).callonListContinuationElement832,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91175},
+																										pos: position{line: 2885, col: 13, offset: 91177},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91175},
+																												pos:        position{line: 2885, col: 13, offset: 91177},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91182},
+																												pos:        position{line: 2885, col: 20, offset: 91184},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91191},
+																												pos:        position{line: 2885, col: 29, offset: 91193},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33274,9 +33274,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91351},
+																									pos: position{line: 2895, col: 8, offset: 91353},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91352,
+																										line: 2895, col: 9, offset: 91354,
 																									},
 																								},
 																							},
@@ -33286,15 +33286,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 936, col: 5, offset: 29371},
+																			pos: position{line: 936, col: 5, offset: 29373},
 																			run: (*parser).callonListContinuationElement839,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2895, col: 8, offset: 91351},
+																	pos: position{line: 2895, col: 8, offset: 91353},
 																	expr: &anyMatcher{
-																		line: 2895, col: 9, offset: 91352,
+																		line: 2895, col: 9, offset: 91354,
 																	},
 																},
 															},
@@ -33305,41 +33305,41 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 974, col: 5, offset: 30412},
+										pos: position{line: 974, col: 5, offset: 30414},
 										run: (*parser).callonListContinuationElement842,
 										expr: &seqExpr{
-											pos: position{line: 974, col: 5, offset: 30412},
+											pos: position{line: 974, col: 5, offset: 30414},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 974, col: 5, offset: 30412},
+													pos:   position{line: 974, col: 5, offset: 30414},
 													label: "firstLine",
 													expr: &actionExpr{
-														pos: position{line: 981, col: 5, offset: 30671},
+														pos: position{line: 981, col: 5, offset: 30673},
 														run: (*parser).callonListContinuationElement845,
 														expr: &seqExpr{
-															pos: position{line: 981, col: 5, offset: 30671},
+															pos: position{line: 981, col: 5, offset: 30673},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 981, col: 5, offset: 30671},
+																	pos: position{line: 981, col: 5, offset: 30673},
 																	expr: &actionExpr{
-																		pos: position{line: 676, col: 14, offset: 21496},
+																		pos: position{line: 676, col: 14, offset: 21498},
 																		run: (*parser).callonListContinuationElement848,
 																		expr: &seqExpr{
-																			pos: position{line: 676, col: 14, offset: 21496},
+																			pos: position{line: 676, col: 14, offset: 21498},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2893, col: 11, offset: 91337},
+																					pos: position{line: 2893, col: 11, offset: 91339},
 																					expr: &anyMatcher{
-																						line: 2893, col: 13, offset: 91339,
+																						line: 2893, col: 13, offset: 91341,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 676, col: 21, offset: 21503},
+																					pos: position{line: 676, col: 21, offset: 21505},
 																					expr: &actionExpr{
-																						pos: position{line: 2876, col: 10, offset: 91003},
+																						pos: position{line: 2876, col: 10, offset: 91005},
 																						run: (*parser).callonListContinuationElement853,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2876, col: 10, offset: 91003},
+																							pos:        position{line: 2876, col: 10, offset: 91005},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -33348,28 +33348,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2898, col: 8, offset: 91401},
+																					pos: position{line: 2898, col: 8, offset: 91403},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2885, col: 12, offset: 91174},
+																							pos: position{line: 2885, col: 12, offset: 91176},
 																							run: (*parser).callonListContinuationElement856,
 																							expr: &choiceExpr{
-																								pos: position{line: 2885, col: 13, offset: 91175},
+																								pos: position{line: 2885, col: 13, offset: 91177},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 13, offset: 91175},
+																										pos:        position{line: 2885, col: 13, offset: 91177},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 20, offset: 91182},
+																										pos:        position{line: 2885, col: 20, offset: 91184},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 29, offset: 91191},
+																										pos:        position{line: 2885, col: 29, offset: 91193},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -33378,9 +33378,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2895, col: 8, offset: 91351},
+																							pos: position{line: 2895, col: 8, offset: 91353},
 																							expr: &anyMatcher{
-																								line: 2895, col: 9, offset: 91352,
+																								line: 2895, col: 9, offset: 91354,
 																							},
 																						},
 																					},
@@ -33390,21 +33390,21 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 982, col: 5, offset: 30686},
+																	pos:        position{line: 982, col: 5, offset: 30688},
 																	val:        "> ",
 																	ignoreCase: false,
 																	want:       "\"> \"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 983, col: 5, offset: 30696},
+																	pos:   position{line: 983, col: 5, offset: 30698},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2826, col: 14, offset: 89596},
+																		pos: position{line: 2826, col: 14, offset: 89598},
 																		run: (*parser).callonListContinuationElement865,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2826, col: 14, offset: 89596},
+																			pos: position{line: 2826, col: 14, offset: 89598},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2826, col: 14, offset: 89596},
+																				pos:        position{line: 2826, col: 14, offset: 89598},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -33414,28 +33414,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91401},
+																	pos: position{line: 2898, col: 8, offset: 91403},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91174},
+																			pos: position{line: 2885, col: 12, offset: 91176},
 																			run: (*parser).callonListContinuationElement869,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91175},
+																				pos: position{line: 2885, col: 13, offset: 91177},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91175},
+																						pos:        position{line: 2885, col: 13, offset: 91177},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91182},
+																						pos:        position{line: 2885, col: 20, offset: 91184},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91191},
+																						pos:        position{line: 2885, col: 29, offset: 91193},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33444,9 +33444,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91351},
+																			pos: position{line: 2895, col: 8, offset: 91353},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91352,
+																				line: 2895, col: 9, offset: 91354,
 																			},
 																		},
 																	},
@@ -33456,40 +33456,40 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 975, col: 5, offset: 30449},
+													pos:   position{line: 975, col: 5, offset: 30451},
 													label: "otherLines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 975, col: 16, offset: 30460},
+														pos: position{line: 975, col: 16, offset: 30462},
 														expr: &choiceExpr{
-															pos: position{line: 975, col: 17, offset: 30461},
+															pos: position{line: 975, col: 17, offset: 30463},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 981, col: 5, offset: 30671},
+																	pos: position{line: 981, col: 5, offset: 30673},
 																	run: (*parser).callonListContinuationElement879,
 																	expr: &seqExpr{
-																		pos: position{line: 981, col: 5, offset: 30671},
+																		pos: position{line: 981, col: 5, offset: 30673},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 981, col: 5, offset: 30671},
+																				pos: position{line: 981, col: 5, offset: 30673},
 																				expr: &actionExpr{
-																					pos: position{line: 676, col: 14, offset: 21496},
+																					pos: position{line: 676, col: 14, offset: 21498},
 																					run: (*parser).callonListContinuationElement882,
 																					expr: &seqExpr{
-																						pos: position{line: 676, col: 14, offset: 21496},
+																						pos: position{line: 676, col: 14, offset: 21498},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2893, col: 11, offset: 91337},
+																								pos: position{line: 2893, col: 11, offset: 91339},
 																								expr: &anyMatcher{
-																									line: 2893, col: 13, offset: 91339,
+																									line: 2893, col: 13, offset: 91341,
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 676, col: 21, offset: 21503},
+																								pos: position{line: 676, col: 21, offset: 21505},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 91003},
+																									pos: position{line: 2876, col: 10, offset: 91005},
 																									run: (*parser).callonListContinuationElement887,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 91003},
+																										pos:        position{line: 2876, col: 10, offset: 91005},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33498,28 +33498,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2898, col: 8, offset: 91401},
+																								pos: position{line: 2898, col: 8, offset: 91403},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2885, col: 12, offset: 91174},
+																										pos: position{line: 2885, col: 12, offset: 91176},
 																										run: (*parser).callonListContinuationElement890,
 																										expr: &choiceExpr{
-																											pos: position{line: 2885, col: 13, offset: 91175},
+																											pos: position{line: 2885, col: 13, offset: 91177},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 13, offset: 91175},
+																													pos:        position{line: 2885, col: 13, offset: 91177},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 20, offset: 91182},
+																													pos:        position{line: 2885, col: 20, offset: 91184},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 29, offset: 91191},
+																													pos:        position{line: 2885, col: 29, offset: 91193},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33528,9 +33528,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2895, col: 8, offset: 91351},
+																										pos: position{line: 2895, col: 8, offset: 91353},
 																										expr: &anyMatcher{
-																											line: 2895, col: 9, offset: 91352,
+																											line: 2895, col: 9, offset: 91354,
 																										},
 																									},
 																								},
@@ -33540,21 +33540,21 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 982, col: 5, offset: 30686},
+																				pos:        position{line: 982, col: 5, offset: 30688},
 																				val:        "> ",
 																				ignoreCase: false,
 																				want:       "\"> \"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 983, col: 5, offset: 30696},
+																				pos:   position{line: 983, col: 5, offset: 30698},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2826, col: 14, offset: 89596},
+																					pos: position{line: 2826, col: 14, offset: 89598},
 																					run: (*parser).callonListContinuationElement899,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2826, col: 14, offset: 89596},
+																						pos: position{line: 2826, col: 14, offset: 89598},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2826, col: 14, offset: 89596},
+																							pos:        position{line: 2826, col: 14, offset: 89598},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33564,28 +33564,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2898, col: 8, offset: 91401},
+																				pos: position{line: 2898, col: 8, offset: 91403},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2885, col: 12, offset: 91174},
+																						pos: position{line: 2885, col: 12, offset: 91176},
 																						run: (*parser).callonListContinuationElement903,
 																						expr: &choiceExpr{
-																							pos: position{line: 2885, col: 13, offset: 91175},
+																							pos: position{line: 2885, col: 13, offset: 91177},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 13, offset: 91175},
+																									pos:        position{line: 2885, col: 13, offset: 91177},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 20, offset: 91182},
+																									pos:        position{line: 2885, col: 20, offset: 91184},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 29, offset: 91191},
+																									pos:        position{line: 2885, col: 29, offset: 91193},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33594,9 +33594,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91351},
+																						pos: position{line: 2895, col: 8, offset: 91353},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91352,
+																							line: 2895, col: 9, offset: 91354,
 																						},
 																					},
 																				},
@@ -33605,21 +33605,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1795, col: 5, offset: 58077},
+																	pos: position{line: 1795, col: 5, offset: 58079},
 																	run: (*parser).callonListContinuationElement910,
 																	expr: &seqExpr{
-																		pos: position{line: 1795, col: 5, offset: 58077},
+																		pos: position{line: 1795, col: 5, offset: 58079},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1795, col: 5, offset: 58077},
+																				pos:   position{line: 1795, col: 5, offset: 58079},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2826, col: 14, offset: 89596},
+																					pos: position{line: 2826, col: 14, offset: 89598},
 																					run: (*parser).callonListContinuationElement913,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2826, col: 14, offset: 89596},
+																						pos: position{line: 2826, col: 14, offset: 89598},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2826, col: 14, offset: 89596},
+																							pos:        position{line: 2826, col: 14, offset: 89598},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33629,32 +33629,32 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1796, col: 5, offset: 58101},
+																				pos: position{line: 1796, col: 5, offset: 58103},
 																				run: (*parser).callonListContinuationElement916,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2898, col: 8, offset: 91401},
+																				pos: position{line: 2898, col: 8, offset: 91403},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2885, col: 12, offset: 91174},
+																						pos: position{line: 2885, col: 12, offset: 91176},
 																						run: (*parser).callonListContinuationElement918,
 																						expr: &choiceExpr{
-																							pos: position{line: 2885, col: 13, offset: 91175},
+																							pos: position{line: 2885, col: 13, offset: 91177},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 13, offset: 91175},
+																									pos:        position{line: 2885, col: 13, offset: 91177},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 20, offset: 91182},
+																									pos:        position{line: 2885, col: 20, offset: 91184},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 29, offset: 91191},
+																									pos:        position{line: 2885, col: 29, offset: 91193},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33663,9 +33663,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91351},
+																						pos: position{line: 2895, col: 8, offset: 91353},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91352,
+																							line: 2895, col: 9, offset: 91354,
 																						},
 																					},
 																				},
@@ -33681,28 +33681,28 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 996, col: 5, offset: 30961},
+										pos: position{line: 996, col: 5, offset: 30963},
 										run: (*parser).callonListContinuationElement925,
 										expr: &seqExpr{
-											pos: position{line: 996, col: 5, offset: 30961},
+											pos: position{line: 996, col: 5, offset: 30963},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 996, col: 5, offset: 30961},
+													pos:   position{line: 996, col: 5, offset: 30963},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 775, col: 5, offset: 24873},
+														pos: position{line: 775, col: 5, offset: 24875},
 														run: (*parser).callonListContinuationElement928,
 														expr: &seqExpr{
-															pos: position{line: 775, col: 5, offset: 24873},
+															pos: position{line: 775, col: 5, offset: 24875},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 775, col: 5, offset: 24873},
+																	pos:   position{line: 775, col: 5, offset: 24875},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 775, col: 16, offset: 24884},
+																		pos: position{line: 775, col: 16, offset: 24886},
 																		run: (*parser).callonListContinuationElement931,
 																		expr: &litMatcher{
-																			pos:        position{line: 775, col: 16, offset: 24884},
+																			pos:        position{line: 775, col: 16, offset: 24886},
 																			val:        "--",
 																			ignoreCase: false,
 																			want:       "\"--\"",
@@ -33710,12 +33710,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 777, col: 8, offset: 24961},
+																	pos: position{line: 777, col: 8, offset: 24963},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 91003},
+																		pos: position{line: 2876, col: 10, offset: 91005},
 																		run: (*parser).callonListContinuationElement934,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 91003},
+																			pos:        position{line: 2876, col: 10, offset: 91005},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33724,28 +33724,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91401},
+																	pos: position{line: 2898, col: 8, offset: 91403},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91174},
+																			pos: position{line: 2885, col: 12, offset: 91176},
 																			run: (*parser).callonListContinuationElement937,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91175},
+																				pos: position{line: 2885, col: 13, offset: 91177},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91175},
+																						pos:        position{line: 2885, col: 13, offset: 91177},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91182},
+																						pos:        position{line: 2885, col: 20, offset: 91184},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91191},
+																						pos:        position{line: 2885, col: 29, offset: 91193},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33754,9 +33754,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91351},
+																			pos: position{line: 2895, col: 8, offset: 91353},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91352,
+																				line: 2895, col: 9, offset: 91354,
 																			},
 																		},
 																	},
@@ -33766,35 +33766,35 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 997, col: 5, offset: 30997},
+													pos:   position{line: 997, col: 5, offset: 30999},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1007, col: 5, offset: 31265},
+														pos: position{line: 1007, col: 5, offset: 31267},
 														expr: &actionExpr{
-															pos: position{line: 1007, col: 6, offset: 31266},
+															pos: position{line: 1007, col: 6, offset: 31268},
 															run: (*parser).callonListContinuationElement946,
 															expr: &seqExpr{
-																pos: position{line: 1007, col: 6, offset: 31266},
+																pos: position{line: 1007, col: 6, offset: 31268},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1007, col: 6, offset: 31266},
+																		pos: position{line: 1007, col: 6, offset: 31268},
 																		expr: &choiceExpr{
-																			pos: position{line: 1004, col: 26, offset: 31214},
+																			pos: position{line: 1004, col: 26, offset: 31216},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 775, col: 5, offset: 24873},
+																					pos: position{line: 775, col: 5, offset: 24875},
 																					run: (*parser).callonListContinuationElement950,
 																					expr: &seqExpr{
-																						pos: position{line: 775, col: 5, offset: 24873},
+																						pos: position{line: 775, col: 5, offset: 24875},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 775, col: 5, offset: 24873},
+																								pos:   position{line: 775, col: 5, offset: 24875},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 775, col: 16, offset: 24884},
+																									pos: position{line: 775, col: 16, offset: 24886},
 																									run: (*parser).callonListContinuationElement953,
 																									expr: &litMatcher{
-																										pos:        position{line: 775, col: 16, offset: 24884},
+																										pos:        position{line: 775, col: 16, offset: 24886},
 																										val:        "--",
 																										ignoreCase: false,
 																										want:       "\"--\"",
@@ -33802,12 +33802,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 777, col: 8, offset: 24961},
+																								pos: position{line: 777, col: 8, offset: 24963},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 91003},
+																									pos: position{line: 2876, col: 10, offset: 91005},
 																									run: (*parser).callonListContinuationElement956,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 91003},
+																										pos:        position{line: 2876, col: 10, offset: 91005},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33816,28 +33816,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2898, col: 8, offset: 91401},
+																								pos: position{line: 2898, col: 8, offset: 91403},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2885, col: 12, offset: 91174},
+																										pos: position{line: 2885, col: 12, offset: 91176},
 																										run: (*parser).callonListContinuationElement959,
 																										expr: &choiceExpr{
-																											pos: position{line: 2885, col: 13, offset: 91175},
+																											pos: position{line: 2885, col: 13, offset: 91177},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 13, offset: 91175},
+																													pos:        position{line: 2885, col: 13, offset: 91177},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 20, offset: 91182},
+																													pos:        position{line: 2885, col: 20, offset: 91184},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 29, offset: 91191},
+																													pos:        position{line: 2885, col: 29, offset: 91193},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33846,9 +33846,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2895, col: 8, offset: 91351},
+																										pos: position{line: 2895, col: 8, offset: 91353},
 																										expr: &anyMatcher{
-																											line: 2895, col: 9, offset: 91352,
+																											line: 2895, col: 9, offset: 91354,
 																										},
 																									},
 																								},
@@ -33857,39 +33857,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91351},
+																					pos: position{line: 2895, col: 8, offset: 91353},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91352,
+																						line: 2895, col: 9, offset: 91354,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1008, col: 5, offset: 31293},
+																		pos:   position{line: 1008, col: 5, offset: 31295},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 810, col: 5, offset: 26100},
+																			pos: position{line: 810, col: 5, offset: 26102},
 																			run: (*parser).callonListContinuationElement969,
 																			expr: &seqExpr{
-																				pos: position{line: 810, col: 5, offset: 26100},
+																				pos: position{line: 810, col: 5, offset: 26102},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2893, col: 11, offset: 91337},
+																						pos: position{line: 2893, col: 11, offset: 91339},
 																						expr: &anyMatcher{
-																							line: 2893, col: 13, offset: 91339,
+																							line: 2893, col: 13, offset: 91341,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 811, col: 5, offset: 26175},
+																						pos:   position{line: 811, col: 5, offset: 26177},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2822, col: 13, offset: 89529},
+																							pos: position{line: 2822, col: 13, offset: 89531},
 																							run: (*parser).callonListContinuationElement974,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2822, col: 13, offset: 89529},
+																								pos: position{line: 2822, col: 13, offset: 89531},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2822, col: 13, offset: 89529},
+																									pos:        position{line: 2822, col: 13, offset: 89531},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33899,28 +33899,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91401},
+																						pos: position{line: 2898, col: 8, offset: 91403},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91174},
+																								pos: position{line: 2885, col: 12, offset: 91176},
 																								run: (*parser).callonListContinuationElement978,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91175},
+																									pos: position{line: 2885, col: 13, offset: 91177},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91175},
+																											pos:        position{line: 2885, col: 13, offset: 91177},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91182},
+																											pos:        position{line: 2885, col: 20, offset: 91184},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91191},
+																											pos:        position{line: 2885, col: 29, offset: 91193},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33929,9 +33929,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91351},
+																								pos: position{line: 2895, col: 8, offset: 91353},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91352,
+																									line: 2895, col: 9, offset: 91354,
 																								},
 																							},
 																						},
@@ -33946,27 +33946,27 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 998, col: 5, offset: 31028},
+													pos:   position{line: 998, col: 5, offset: 31030},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 998, col: 9, offset: 31032},
+														pos: position{line: 998, col: 9, offset: 31034},
 														expr: &choiceExpr{
-															pos: position{line: 1004, col: 26, offset: 31214},
+															pos: position{line: 1004, col: 26, offset: 31216},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 775, col: 5, offset: 24873},
+																	pos: position{line: 775, col: 5, offset: 24875},
 																	run: (*parser).callonListContinuationElement988,
 																	expr: &seqExpr{
-																		pos: position{line: 775, col: 5, offset: 24873},
+																		pos: position{line: 775, col: 5, offset: 24875},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 775, col: 5, offset: 24873},
+																				pos:   position{line: 775, col: 5, offset: 24875},
 																				label: "delimiter",
 																				expr: &actionExpr{
-																					pos: position{line: 775, col: 16, offset: 24884},
+																					pos: position{line: 775, col: 16, offset: 24886},
 																					run: (*parser).callonListContinuationElement991,
 																					expr: &litMatcher{
-																						pos:        position{line: 775, col: 16, offset: 24884},
+																						pos:        position{line: 775, col: 16, offset: 24886},
 																						val:        "--",
 																						ignoreCase: false,
 																						want:       "\"--\"",
@@ -33974,12 +33974,12 @@ var g = &grammar{
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 777, col: 8, offset: 24961},
+																				pos: position{line: 777, col: 8, offset: 24963},
 																				expr: &actionExpr{
-																					pos: position{line: 2876, col: 10, offset: 91003},
+																					pos: position{line: 2876, col: 10, offset: 91005},
 																					run: (*parser).callonListContinuationElement994,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2876, col: 10, offset: 91003},
+																						pos:        position{line: 2876, col: 10, offset: 91005},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -33988,28 +33988,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2898, col: 8, offset: 91401},
+																				pos: position{line: 2898, col: 8, offset: 91403},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2885, col: 12, offset: 91174},
+																						pos: position{line: 2885, col: 12, offset: 91176},
 																						run: (*parser).callonListContinuationElement997,
 																						expr: &choiceExpr{
-																							pos: position{line: 2885, col: 13, offset: 91175},
+																							pos: position{line: 2885, col: 13, offset: 91177},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 13, offset: 91175},
+																									pos:        position{line: 2885, col: 13, offset: 91177},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 20, offset: 91182},
+																									pos:        position{line: 2885, col: 20, offset: 91184},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 29, offset: 91191},
+																									pos:        position{line: 2885, col: 29, offset: 91193},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34018,9 +34018,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91351},
+																						pos: position{line: 2895, col: 8, offset: 91353},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91352,
+																							line: 2895, col: 9, offset: 91354,
 																						},
 																					},
 																				},
@@ -34029,9 +34029,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2895, col: 8, offset: 91351},
+																	pos: position{line: 2895, col: 8, offset: 91353},
 																	expr: &anyMatcher{
-																		line: 2895, col: 9, offset: 91352,
+																		line: 2895, col: 9, offset: 91354,
 																	},
 																},
 															},
@@ -34042,39 +34042,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1016, col: 5, offset: 31456},
+										pos: position{line: 1016, col: 5, offset: 31458},
 										run: (*parser).callonListContinuationElement1006,
 										expr: &seqExpr{
-											pos: position{line: 1016, col: 5, offset: 31456},
+											pos: position{line: 1016, col: 5, offset: 31458},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1016, col: 5, offset: 31456},
+													pos:   position{line: 1016, col: 5, offset: 31458},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 789, col: 5, offset: 25356},
+														pos: position{line: 789, col: 5, offset: 25358},
 														run: (*parser).callonListContinuationElement1009,
 														expr: &seqExpr{
-															pos: position{line: 789, col: 5, offset: 25356},
+															pos: position{line: 789, col: 5, offset: 25358},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 789, col: 5, offset: 25356},
+																	pos:   position{line: 789, col: 5, offset: 25358},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 789, col: 16, offset: 25367},
+																		pos: position{line: 789, col: 16, offset: 25369},
 																		run: (*parser).callonListContinuationElement1012,
 																		expr: &seqExpr{
-																			pos: position{line: 789, col: 16, offset: 25367},
+																			pos: position{line: 789, col: 16, offset: 25369},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 789, col: 16, offset: 25367},
+																					pos:        position{line: 789, col: 16, offset: 25369},
 																					val:        "++++",
 																					ignoreCase: false,
 																					want:       "\"++++\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 789, col: 23, offset: 25374},
+																					pos: position{line: 789, col: 23, offset: 25376},
 																					expr: &litMatcher{
-																						pos:        position{line: 789, col: 23, offset: 25374},
+																						pos:        position{line: 789, col: 23, offset: 25376},
 																						val:        "+",
 																						ignoreCase: false,
 																						want:       "\"+\"",
@@ -34085,12 +34085,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 791, col: 8, offset: 25458},
+																	pos: position{line: 791, col: 8, offset: 25460},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 91003},
+																		pos: position{line: 2876, col: 10, offset: 91005},
 																		run: (*parser).callonListContinuationElement1018,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 91003},
+																			pos:        position{line: 2876, col: 10, offset: 91005},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34099,28 +34099,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91401},
+																	pos: position{line: 2898, col: 8, offset: 91403},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91174},
+																			pos: position{line: 2885, col: 12, offset: 91176},
 																			run: (*parser).callonListContinuationElement1021,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91175},
+																				pos: position{line: 2885, col: 13, offset: 91177},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91175},
+																						pos:        position{line: 2885, col: 13, offset: 91177},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91182},
+																						pos:        position{line: 2885, col: 20, offset: 91184},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91191},
+																						pos:        position{line: 2885, col: 29, offset: 91193},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34129,9 +34129,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91351},
+																			pos: position{line: 2895, col: 8, offset: 91353},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91352,
+																				line: 2895, col: 9, offset: 91354,
 																			},
 																		},
 																	},
@@ -34141,56 +34141,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1017, col: 5, offset: 31499},
+													pos: position{line: 1017, col: 5, offset: 31501},
 													run: (*parser).callonListContinuationElement1028,
 												},
 												&labeledExpr{
-													pos:   position{line: 1020, col: 5, offset: 31591},
+													pos:   position{line: 1020, col: 5, offset: 31593},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1035, col: 5, offset: 32021},
+														pos: position{line: 1035, col: 5, offset: 32023},
 														expr: &actionExpr{
-															pos: position{line: 1035, col: 6, offset: 32022},
+															pos: position{line: 1035, col: 6, offset: 32024},
 															run: (*parser).callonListContinuationElement1031,
 															expr: &seqExpr{
-																pos: position{line: 1035, col: 6, offset: 32022},
+																pos: position{line: 1035, col: 6, offset: 32024},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1035, col: 6, offset: 32022},
+																		pos: position{line: 1035, col: 6, offset: 32024},
 																		expr: &choiceExpr{
-																			pos: position{line: 1028, col: 5, offset: 31855},
+																			pos: position{line: 1028, col: 5, offset: 31857},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1028, col: 5, offset: 31855},
+																					pos: position{line: 1028, col: 5, offset: 31857},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1028, col: 5, offset: 31855},
+																							pos:   position{line: 1028, col: 5, offset: 31857},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 789, col: 5, offset: 25356},
+																								pos: position{line: 789, col: 5, offset: 25358},
 																								run: (*parser).callonListContinuationElement1037,
 																								expr: &seqExpr{
-																									pos: position{line: 789, col: 5, offset: 25356},
+																									pos: position{line: 789, col: 5, offset: 25358},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 789, col: 5, offset: 25356},
+																											pos:   position{line: 789, col: 5, offset: 25358},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 789, col: 16, offset: 25367},
+																												pos: position{line: 789, col: 16, offset: 25369},
 																												run: (*parser).callonListContinuationElement1040,
 																												expr: &seqExpr{
-																													pos: position{line: 789, col: 16, offset: 25367},
+																													pos: position{line: 789, col: 16, offset: 25369},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 789, col: 16, offset: 25367},
+																															pos:        position{line: 789, col: 16, offset: 25369},
 																															val:        "++++",
 																															ignoreCase: false,
 																															want:       "\"++++\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 789, col: 23, offset: 25374},
+																															pos: position{line: 789, col: 23, offset: 25376},
 																															expr: &litMatcher{
-																																pos:        position{line: 789, col: 23, offset: 25374},
+																																pos:        position{line: 789, col: 23, offset: 25376},
 																																val:        "+",
 																																ignoreCase: false,
 																																want:       "\"+\"",
@@ -34201,12 +34201,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 791, col: 8, offset: 25458},
+																											pos: position{line: 791, col: 8, offset: 25460},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 91003},
+																												pos: position{line: 2876, col: 10, offset: 91005},
 																												run: (*parser).callonListContinuationElement1046,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 91003},
+																													pos:        position{line: 2876, col: 10, offset: 91005},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34215,28 +34215,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91401},
+																											pos: position{line: 2898, col: 8, offset: 91403},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91174},
+																													pos: position{line: 2885, col: 12, offset: 91176},
 																													run: (*parser).callonListContinuationElement1049,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91175},
+																														pos: position{line: 2885, col: 13, offset: 91177},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91175},
+																																pos:        position{line: 2885, col: 13, offset: 91177},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91182},
+																																pos:        position{line: 2885, col: 20, offset: 91184},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91191},
+																																pos:        position{line: 2885, col: 29, offset: 91193},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34245,9 +34245,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91351},
+																													pos: position{line: 2895, col: 8, offset: 91353},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91352,
+																														line: 2895, col: 9, offset: 91354,
 																													},
 																												},
 																											},
@@ -34257,45 +34257,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1029, col: 5, offset: 31890},
+																							pos: position{line: 1029, col: 5, offset: 31892},
 																							run: (*parser).callonListContinuationElement1056,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91351},
+																					pos: position{line: 2895, col: 8, offset: 91353},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91352,
+																						line: 2895, col: 9, offset: 91354,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1036, col: 5, offset: 32056},
+																		pos:   position{line: 1036, col: 5, offset: 32058},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 810, col: 5, offset: 26100},
+																			pos: position{line: 810, col: 5, offset: 26102},
 																			run: (*parser).callonListContinuationElement1060,
 																			expr: &seqExpr{
-																				pos: position{line: 810, col: 5, offset: 26100},
+																				pos: position{line: 810, col: 5, offset: 26102},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2893, col: 11, offset: 91337},
+																						pos: position{line: 2893, col: 11, offset: 91339},
 																						expr: &anyMatcher{
-																							line: 2893, col: 13, offset: 91339,
+																							line: 2893, col: 13, offset: 91341,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 811, col: 5, offset: 26175},
+																						pos:   position{line: 811, col: 5, offset: 26177},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2822, col: 13, offset: 89529},
+																							pos: position{line: 2822, col: 13, offset: 89531},
 																							run: (*parser).callonListContinuationElement1065,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2822, col: 13, offset: 89529},
+																								pos: position{line: 2822, col: 13, offset: 89531},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2822, col: 13, offset: 89529},
+																									pos:        position{line: 2822, col: 13, offset: 89531},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34305,28 +34305,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91401},
+																						pos: position{line: 2898, col: 8, offset: 91403},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91174},
+																								pos: position{line: 2885, col: 12, offset: 91176},
 																								run: (*parser).callonListContinuationElement1069,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91175},
+																									pos: position{line: 2885, col: 13, offset: 91177},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91175},
+																											pos:        position{line: 2885, col: 13, offset: 91177},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91182},
+																											pos:        position{line: 2885, col: 20, offset: 91184},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91191},
+																											pos:        position{line: 2885, col: 29, offset: 91193},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34335,9 +34335,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91351},
+																								pos: position{line: 2895, col: 8, offset: 91353},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91352,
+																									line: 2895, col: 9, offset: 91354,
 																								},
 																							},
 																						},
@@ -34352,44 +34352,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1021, col: 5, offset: 31629},
+													pos:   position{line: 1021, col: 5, offset: 31631},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1021, col: 9, offset: 31633},
+														pos: position{line: 1021, col: 9, offset: 31635},
 														expr: &choiceExpr{
-															pos: position{line: 1028, col: 5, offset: 31855},
+															pos: position{line: 1028, col: 5, offset: 31857},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1028, col: 5, offset: 31855},
+																	pos: position{line: 1028, col: 5, offset: 31857},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1028, col: 5, offset: 31855},
+																			pos:   position{line: 1028, col: 5, offset: 31857},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 789, col: 5, offset: 25356},
+																				pos: position{line: 789, col: 5, offset: 25358},
 																				run: (*parser).callonListContinuationElement1081,
 																				expr: &seqExpr{
-																					pos: position{line: 789, col: 5, offset: 25356},
+																					pos: position{line: 789, col: 5, offset: 25358},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 789, col: 5, offset: 25356},
+																							pos:   position{line: 789, col: 5, offset: 25358},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 789, col: 16, offset: 25367},
+																								pos: position{line: 789, col: 16, offset: 25369},
 																								run: (*parser).callonListContinuationElement1084,
 																								expr: &seqExpr{
-																									pos: position{line: 789, col: 16, offset: 25367},
+																									pos: position{line: 789, col: 16, offset: 25369},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 789, col: 16, offset: 25367},
+																											pos:        position{line: 789, col: 16, offset: 25369},
 																											val:        "++++",
 																											ignoreCase: false,
 																											want:       "\"++++\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 789, col: 23, offset: 25374},
+																											pos: position{line: 789, col: 23, offset: 25376},
 																											expr: &litMatcher{
-																												pos:        position{line: 789, col: 23, offset: 25374},
+																												pos:        position{line: 789, col: 23, offset: 25376},
 																												val:        "+",
 																												ignoreCase: false,
 																												want:       "\"+\"",
@@ -34400,12 +34400,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 791, col: 8, offset: 25458},
+																							pos: position{line: 791, col: 8, offset: 25460},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 91003},
+																								pos: position{line: 2876, col: 10, offset: 91005},
 																								run: (*parser).callonListContinuationElement1090,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 91003},
+																									pos:        position{line: 2876, col: 10, offset: 91005},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34414,28 +34414,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91401},
+																							pos: position{line: 2898, col: 8, offset: 91403},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91174},
+																									pos: position{line: 2885, col: 12, offset: 91176},
 																									run: (*parser).callonListContinuationElement1093,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91175},
+																										pos: position{line: 2885, col: 13, offset: 91177},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91175},
+																												pos:        position{line: 2885, col: 13, offset: 91177},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91182},
+																												pos:        position{line: 2885, col: 20, offset: 91184},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91191},
+																												pos:        position{line: 2885, col: 29, offset: 91193},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34444,9 +34444,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91351},
+																									pos: position{line: 2895, col: 8, offset: 91353},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91352,
+																										line: 2895, col: 9, offset: 91354,
 																									},
 																								},
 																							},
@@ -34456,15 +34456,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1029, col: 5, offset: 31890},
+																			pos: position{line: 1029, col: 5, offset: 31892},
 																			run: (*parser).callonListContinuationElement1100,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2895, col: 8, offset: 91351},
+																	pos: position{line: 2895, col: 8, offset: 91353},
 																	expr: &anyMatcher{
-																		line: 2895, col: 9, offset: 91352,
+																		line: 2895, col: 9, offset: 91354,
 																	},
 																},
 															},
@@ -34475,39 +34475,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1044, col: 5, offset: 32207},
+										pos: position{line: 1044, col: 5, offset: 32209},
 										run: (*parser).callonListContinuationElement1103,
 										expr: &seqExpr{
-											pos: position{line: 1044, col: 5, offset: 32207},
+											pos: position{line: 1044, col: 5, offset: 32209},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1044, col: 5, offset: 32207},
+													pos:   position{line: 1044, col: 5, offset: 32209},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 796, col: 5, offset: 25606},
+														pos: position{line: 796, col: 5, offset: 25608},
 														run: (*parser).callonListContinuationElement1106,
 														expr: &seqExpr{
-															pos: position{line: 796, col: 5, offset: 25606},
+															pos: position{line: 796, col: 5, offset: 25608},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 796, col: 5, offset: 25606},
+																	pos:   position{line: 796, col: 5, offset: 25608},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 796, col: 16, offset: 25617},
+																		pos: position{line: 796, col: 16, offset: 25619},
 																		run: (*parser).callonListContinuationElement1109,
 																		expr: &seqExpr{
-																			pos: position{line: 796, col: 16, offset: 25617},
+																			pos: position{line: 796, col: 16, offset: 25619},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 796, col: 16, offset: 25617},
+																					pos:        position{line: 796, col: 16, offset: 25619},
 																					val:        "____",
 																					ignoreCase: false,
 																					want:       "\"____\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 796, col: 23, offset: 25624},
+																					pos: position{line: 796, col: 23, offset: 25626},
 																					expr: &litMatcher{
-																						pos:        position{line: 796, col: 23, offset: 25624},
+																						pos:        position{line: 796, col: 23, offset: 25626},
 																						val:        "_",
 																						ignoreCase: false,
 																						want:       "\"_\"",
@@ -34518,12 +34518,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 798, col: 8, offset: 25708},
+																	pos: position{line: 798, col: 8, offset: 25710},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 91003},
+																		pos: position{line: 2876, col: 10, offset: 91005},
 																		run: (*parser).callonListContinuationElement1115,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 91003},
+																			pos:        position{line: 2876, col: 10, offset: 91005},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34532,28 +34532,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91401},
+																	pos: position{line: 2898, col: 8, offset: 91403},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91174},
+																			pos: position{line: 2885, col: 12, offset: 91176},
 																			run: (*parser).callonListContinuationElement1118,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91175},
+																				pos: position{line: 2885, col: 13, offset: 91177},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91175},
+																						pos:        position{line: 2885, col: 13, offset: 91177},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91182},
+																						pos:        position{line: 2885, col: 20, offset: 91184},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91191},
+																						pos:        position{line: 2885, col: 29, offset: 91193},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34562,9 +34562,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91351},
+																			pos: position{line: 2895, col: 8, offset: 91353},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91352,
+																				line: 2895, col: 9, offset: 91354,
 																			},
 																		},
 																	},
@@ -34574,56 +34574,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1045, col: 5, offset: 32244},
+													pos: position{line: 1045, col: 5, offset: 32246},
 													run: (*parser).callonListContinuationElement1125,
 												},
 												&labeledExpr{
-													pos:   position{line: 1048, col: 5, offset: 32336},
+													pos:   position{line: 1048, col: 5, offset: 32338},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1063, col: 4, offset: 32717},
+														pos: position{line: 1063, col: 4, offset: 32719},
 														expr: &actionExpr{
-															pos: position{line: 1063, col: 5, offset: 32718},
+															pos: position{line: 1063, col: 5, offset: 32720},
 															run: (*parser).callonListContinuationElement1128,
 															expr: &seqExpr{
-																pos: position{line: 1063, col: 5, offset: 32718},
+																pos: position{line: 1063, col: 5, offset: 32720},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1063, col: 5, offset: 32718},
+																		pos: position{line: 1063, col: 5, offset: 32720},
 																		expr: &choiceExpr{
-																			pos: position{line: 1056, col: 5, offset: 32564},
+																			pos: position{line: 1056, col: 5, offset: 32566},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1056, col: 5, offset: 32564},
+																					pos: position{line: 1056, col: 5, offset: 32566},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1056, col: 5, offset: 32564},
+																							pos:   position{line: 1056, col: 5, offset: 32566},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 796, col: 5, offset: 25606},
+																								pos: position{line: 796, col: 5, offset: 25608},
 																								run: (*parser).callonListContinuationElement1134,
 																								expr: &seqExpr{
-																									pos: position{line: 796, col: 5, offset: 25606},
+																									pos: position{line: 796, col: 5, offset: 25608},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 796, col: 5, offset: 25606},
+																											pos:   position{line: 796, col: 5, offset: 25608},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 796, col: 16, offset: 25617},
+																												pos: position{line: 796, col: 16, offset: 25619},
 																												run: (*parser).callonListContinuationElement1137,
 																												expr: &seqExpr{
-																													pos: position{line: 796, col: 16, offset: 25617},
+																													pos: position{line: 796, col: 16, offset: 25619},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 796, col: 16, offset: 25617},
+																															pos:        position{line: 796, col: 16, offset: 25619},
 																															val:        "____",
 																															ignoreCase: false,
 																															want:       "\"____\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 796, col: 23, offset: 25624},
+																															pos: position{line: 796, col: 23, offset: 25626},
 																															expr: &litMatcher{
-																																pos:        position{line: 796, col: 23, offset: 25624},
+																																pos:        position{line: 796, col: 23, offset: 25626},
 																																val:        "_",
 																																ignoreCase: false,
 																																want:       "\"_\"",
@@ -34634,12 +34634,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 798, col: 8, offset: 25708},
+																											pos: position{line: 798, col: 8, offset: 25710},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 91003},
+																												pos: position{line: 2876, col: 10, offset: 91005},
 																												run: (*parser).callonListContinuationElement1143,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 91003},
+																													pos:        position{line: 2876, col: 10, offset: 91005},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34648,28 +34648,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91401},
+																											pos: position{line: 2898, col: 8, offset: 91403},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91174},
+																													pos: position{line: 2885, col: 12, offset: 91176},
 																													run: (*parser).callonListContinuationElement1146,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91175},
+																														pos: position{line: 2885, col: 13, offset: 91177},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91175},
+																																pos:        position{line: 2885, col: 13, offset: 91177},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91182},
+																																pos:        position{line: 2885, col: 20, offset: 91184},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91191},
+																																pos:        position{line: 2885, col: 29, offset: 91193},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34678,9 +34678,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91351},
+																													pos: position{line: 2895, col: 8, offset: 91353},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91352,
+																														line: 2895, col: 9, offset: 91354,
 																													},
 																												},
 																											},
@@ -34690,45 +34690,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1057, col: 5, offset: 32593},
+																							pos: position{line: 1057, col: 5, offset: 32595},
 																							run: (*parser).callonListContinuationElement1153,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91351},
+																					pos: position{line: 2895, col: 8, offset: 91353},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91352,
+																						line: 2895, col: 9, offset: 91354,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1064, col: 5, offset: 32746},
+																		pos:   position{line: 1064, col: 5, offset: 32748},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 810, col: 5, offset: 26100},
+																			pos: position{line: 810, col: 5, offset: 26102},
 																			run: (*parser).callonListContinuationElement1157,
 																			expr: &seqExpr{
-																				pos: position{line: 810, col: 5, offset: 26100},
+																				pos: position{line: 810, col: 5, offset: 26102},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2893, col: 11, offset: 91337},
+																						pos: position{line: 2893, col: 11, offset: 91339},
 																						expr: &anyMatcher{
-																							line: 2893, col: 13, offset: 91339,
+																							line: 2893, col: 13, offset: 91341,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 811, col: 5, offset: 26175},
+																						pos:   position{line: 811, col: 5, offset: 26177},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2822, col: 13, offset: 89529},
+																							pos: position{line: 2822, col: 13, offset: 89531},
 																							run: (*parser).callonListContinuationElement1162,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2822, col: 13, offset: 89529},
+																								pos: position{line: 2822, col: 13, offset: 89531},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2822, col: 13, offset: 89529},
+																									pos:        position{line: 2822, col: 13, offset: 89531},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34738,28 +34738,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91401},
+																						pos: position{line: 2898, col: 8, offset: 91403},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91174},
+																								pos: position{line: 2885, col: 12, offset: 91176},
 																								run: (*parser).callonListContinuationElement1166,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91175},
+																									pos: position{line: 2885, col: 13, offset: 91177},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91175},
+																											pos:        position{line: 2885, col: 13, offset: 91177},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91182},
+																											pos:        position{line: 2885, col: 20, offset: 91184},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91191},
+																											pos:        position{line: 2885, col: 29, offset: 91193},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34768,9 +34768,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91351},
+																								pos: position{line: 2895, col: 8, offset: 91353},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91352,
+																									line: 2895, col: 9, offset: 91354,
 																								},
 																							},
 																						},
@@ -34785,44 +34785,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1049, col: 5, offset: 32368},
+													pos:   position{line: 1049, col: 5, offset: 32370},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1049, col: 9, offset: 32372},
+														pos: position{line: 1049, col: 9, offset: 32374},
 														expr: &choiceExpr{
-															pos: position{line: 1056, col: 5, offset: 32564},
+															pos: position{line: 1056, col: 5, offset: 32566},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1056, col: 5, offset: 32564},
+																	pos: position{line: 1056, col: 5, offset: 32566},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1056, col: 5, offset: 32564},
+																			pos:   position{line: 1056, col: 5, offset: 32566},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 796, col: 5, offset: 25606},
+																				pos: position{line: 796, col: 5, offset: 25608},
 																				run: (*parser).callonListContinuationElement1178,
 																				expr: &seqExpr{
-																					pos: position{line: 796, col: 5, offset: 25606},
+																					pos: position{line: 796, col: 5, offset: 25608},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 796, col: 5, offset: 25606},
+																							pos:   position{line: 796, col: 5, offset: 25608},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 796, col: 16, offset: 25617},
+																								pos: position{line: 796, col: 16, offset: 25619},
 																								run: (*parser).callonListContinuationElement1181,
 																								expr: &seqExpr{
-																									pos: position{line: 796, col: 16, offset: 25617},
+																									pos: position{line: 796, col: 16, offset: 25619},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 796, col: 16, offset: 25617},
+																											pos:        position{line: 796, col: 16, offset: 25619},
 																											val:        "____",
 																											ignoreCase: false,
 																											want:       "\"____\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 796, col: 23, offset: 25624},
+																											pos: position{line: 796, col: 23, offset: 25626},
 																											expr: &litMatcher{
-																												pos:        position{line: 796, col: 23, offset: 25624},
+																												pos:        position{line: 796, col: 23, offset: 25626},
 																												val:        "_",
 																												ignoreCase: false,
 																												want:       "\"_\"",
@@ -34833,12 +34833,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 798, col: 8, offset: 25708},
+																							pos: position{line: 798, col: 8, offset: 25710},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 91003},
+																								pos: position{line: 2876, col: 10, offset: 91005},
 																								run: (*parser).callonListContinuationElement1187,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 91003},
+																									pos:        position{line: 2876, col: 10, offset: 91005},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34847,28 +34847,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91401},
+																							pos: position{line: 2898, col: 8, offset: 91403},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91174},
+																									pos: position{line: 2885, col: 12, offset: 91176},
 																									run: (*parser).callonListContinuationElement1190,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91175},
+																										pos: position{line: 2885, col: 13, offset: 91177},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91175},
+																												pos:        position{line: 2885, col: 13, offset: 91177},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91182},
+																												pos:        position{line: 2885, col: 20, offset: 91184},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91191},
+																												pos:        position{line: 2885, col: 29, offset: 91193},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34877,9 +34877,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91351},
+																									pos: position{line: 2895, col: 8, offset: 91353},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91352,
+																										line: 2895, col: 9, offset: 91354,
 																									},
 																								},
 																							},
@@ -34889,15 +34889,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1057, col: 5, offset: 32593},
+																			pos: position{line: 1057, col: 5, offset: 32595},
 																			run: (*parser).callonListContinuationElement1197,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2895, col: 8, offset: 91351},
+																	pos: position{line: 2895, col: 8, offset: 91353},
 																	expr: &anyMatcher{
-																		line: 2895, col: 9, offset: 91352,
+																		line: 2895, col: 9, offset: 91354,
 																	},
 																},
 															},
@@ -34908,39 +34908,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1072, col: 5, offset: 32901},
+										pos: position{line: 1072, col: 5, offset: 32903},
 										run: (*parser).callonListContinuationElement1200,
 										expr: &seqExpr{
-											pos: position{line: 1072, col: 5, offset: 32901},
+											pos: position{line: 1072, col: 5, offset: 32903},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1072, col: 5, offset: 32901},
+													pos:   position{line: 1072, col: 5, offset: 32903},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 803, col: 5, offset: 25852},
+														pos: position{line: 803, col: 5, offset: 25854},
 														run: (*parser).callonListContinuationElement1203,
 														expr: &seqExpr{
-															pos: position{line: 803, col: 5, offset: 25852},
+															pos: position{line: 803, col: 5, offset: 25854},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 803, col: 5, offset: 25852},
+																	pos:   position{line: 803, col: 5, offset: 25854},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 803, col: 16, offset: 25863},
+																		pos: position{line: 803, col: 16, offset: 25865},
 																		run: (*parser).callonListContinuationElement1206,
 																		expr: &seqExpr{
-																			pos: position{line: 803, col: 16, offset: 25863},
+																			pos: position{line: 803, col: 16, offset: 25865},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 803, col: 16, offset: 25863},
+																					pos:        position{line: 803, col: 16, offset: 25865},
 																					val:        "****",
 																					ignoreCase: false,
 																					want:       "\"****\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 803, col: 23, offset: 25870},
+																					pos: position{line: 803, col: 23, offset: 25872},
 																					expr: &litMatcher{
-																						pos:        position{line: 803, col: 23, offset: 25870},
+																						pos:        position{line: 803, col: 23, offset: 25872},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -34951,12 +34951,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 805, col: 8, offset: 25954},
+																	pos: position{line: 805, col: 8, offset: 25956},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 91003},
+																		pos: position{line: 2876, col: 10, offset: 91005},
 																		run: (*parser).callonListContinuationElement1212,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 91003},
+																			pos:        position{line: 2876, col: 10, offset: 91005},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34965,28 +34965,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91401},
+																	pos: position{line: 2898, col: 8, offset: 91403},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91174},
+																			pos: position{line: 2885, col: 12, offset: 91176},
 																			run: (*parser).callonListContinuationElement1215,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91175},
+																				pos: position{line: 2885, col: 13, offset: 91177},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91175},
+																						pos:        position{line: 2885, col: 13, offset: 91177},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91182},
+																						pos:        position{line: 2885, col: 20, offset: 91184},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91191},
+																						pos:        position{line: 2885, col: 29, offset: 91193},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34995,9 +34995,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91351},
+																			pos: position{line: 2895, col: 8, offset: 91353},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91352,
+																				line: 2895, col: 9, offset: 91354,
 																			},
 																		},
 																	},
@@ -35007,56 +35007,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1073, col: 5, offset: 32940},
+													pos: position{line: 1073, col: 5, offset: 32942},
 													run: (*parser).callonListContinuationElement1222,
 												},
 												&labeledExpr{
-													pos:   position{line: 1076, col: 5, offset: 33032},
+													pos:   position{line: 1076, col: 5, offset: 33034},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1091, col: 4, offset: 33429},
+														pos: position{line: 1091, col: 4, offset: 33431},
 														expr: &actionExpr{
-															pos: position{line: 1091, col: 5, offset: 33430},
+															pos: position{line: 1091, col: 5, offset: 33432},
 															run: (*parser).callonListContinuationElement1225,
 															expr: &seqExpr{
-																pos: position{line: 1091, col: 5, offset: 33430},
+																pos: position{line: 1091, col: 5, offset: 33432},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1091, col: 5, offset: 33430},
+																		pos: position{line: 1091, col: 5, offset: 33432},
 																		expr: &choiceExpr{
-																			pos: position{line: 1084, col: 5, offset: 33272},
+																			pos: position{line: 1084, col: 5, offset: 33274},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1084, col: 5, offset: 33272},
+																					pos: position{line: 1084, col: 5, offset: 33274},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1084, col: 5, offset: 33272},
+																							pos:   position{line: 1084, col: 5, offset: 33274},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 803, col: 5, offset: 25852},
+																								pos: position{line: 803, col: 5, offset: 25854},
 																								run: (*parser).callonListContinuationElement1231,
 																								expr: &seqExpr{
-																									pos: position{line: 803, col: 5, offset: 25852},
+																									pos: position{line: 803, col: 5, offset: 25854},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 803, col: 5, offset: 25852},
+																											pos:   position{line: 803, col: 5, offset: 25854},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 803, col: 16, offset: 25863},
+																												pos: position{line: 803, col: 16, offset: 25865},
 																												run: (*parser).callonListContinuationElement1234,
 																												expr: &seqExpr{
-																													pos: position{line: 803, col: 16, offset: 25863},
+																													pos: position{line: 803, col: 16, offset: 25865},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 803, col: 16, offset: 25863},
+																															pos:        position{line: 803, col: 16, offset: 25865},
 																															val:        "****",
 																															ignoreCase: false,
 																															want:       "\"****\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 803, col: 23, offset: 25870},
+																															pos: position{line: 803, col: 23, offset: 25872},
 																															expr: &litMatcher{
-																																pos:        position{line: 803, col: 23, offset: 25870},
+																																pos:        position{line: 803, col: 23, offset: 25872},
 																																val:        "*",
 																																ignoreCase: false,
 																																want:       "\"*\"",
@@ -35067,12 +35067,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 805, col: 8, offset: 25954},
+																											pos: position{line: 805, col: 8, offset: 25956},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 91003},
+																												pos: position{line: 2876, col: 10, offset: 91005},
 																												run: (*parser).callonListContinuationElement1240,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 91003},
+																													pos:        position{line: 2876, col: 10, offset: 91005},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35081,28 +35081,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91401},
+																											pos: position{line: 2898, col: 8, offset: 91403},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91174},
+																													pos: position{line: 2885, col: 12, offset: 91176},
 																													run: (*parser).callonListContinuationElement1243,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91175},
+																														pos: position{line: 2885, col: 13, offset: 91177},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91175},
+																																pos:        position{line: 2885, col: 13, offset: 91177},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91182},
+																																pos:        position{line: 2885, col: 20, offset: 91184},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91191},
+																																pos:        position{line: 2885, col: 29, offset: 91193},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35111,9 +35111,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91351},
+																													pos: position{line: 2895, col: 8, offset: 91353},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91352,
+																														line: 2895, col: 9, offset: 91354,
 																													},
 																												},
 																											},
@@ -35123,45 +35123,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1085, col: 5, offset: 33303},
+																							pos: position{line: 1085, col: 5, offset: 33305},
 																							run: (*parser).callonListContinuationElement1250,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91351},
+																					pos: position{line: 2895, col: 8, offset: 91353},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91352,
+																						line: 2895, col: 9, offset: 91354,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1092, col: 5, offset: 33460},
+																		pos:   position{line: 1092, col: 5, offset: 33462},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 810, col: 5, offset: 26100},
+																			pos: position{line: 810, col: 5, offset: 26102},
 																			run: (*parser).callonListContinuationElement1254,
 																			expr: &seqExpr{
-																				pos: position{line: 810, col: 5, offset: 26100},
+																				pos: position{line: 810, col: 5, offset: 26102},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2893, col: 11, offset: 91337},
+																						pos: position{line: 2893, col: 11, offset: 91339},
 																						expr: &anyMatcher{
-																							line: 2893, col: 13, offset: 91339,
+																							line: 2893, col: 13, offset: 91341,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 811, col: 5, offset: 26175},
+																						pos:   position{line: 811, col: 5, offset: 26177},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2822, col: 13, offset: 89529},
+																							pos: position{line: 2822, col: 13, offset: 89531},
 																							run: (*parser).callonListContinuationElement1259,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2822, col: 13, offset: 89529},
+																								pos: position{line: 2822, col: 13, offset: 89531},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2822, col: 13, offset: 89529},
+																									pos:        position{line: 2822, col: 13, offset: 89531},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35171,28 +35171,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91401},
+																						pos: position{line: 2898, col: 8, offset: 91403},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91174},
+																								pos: position{line: 2885, col: 12, offset: 91176},
 																								run: (*parser).callonListContinuationElement1263,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91175},
+																									pos: position{line: 2885, col: 13, offset: 91177},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91175},
+																											pos:        position{line: 2885, col: 13, offset: 91177},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91182},
+																											pos:        position{line: 2885, col: 20, offset: 91184},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91191},
+																											pos:        position{line: 2885, col: 29, offset: 91193},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35201,9 +35201,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91351},
+																								pos: position{line: 2895, col: 8, offset: 91353},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91352,
+																									line: 2895, col: 9, offset: 91354,
 																								},
 																							},
 																						},
@@ -35218,44 +35218,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1077, col: 5, offset: 33066},
+													pos:   position{line: 1077, col: 5, offset: 33068},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1077, col: 9, offset: 33070},
+														pos: position{line: 1077, col: 9, offset: 33072},
 														expr: &choiceExpr{
-															pos: position{line: 1084, col: 5, offset: 33272},
+															pos: position{line: 1084, col: 5, offset: 33274},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1084, col: 5, offset: 33272},
+																	pos: position{line: 1084, col: 5, offset: 33274},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1084, col: 5, offset: 33272},
+																			pos:   position{line: 1084, col: 5, offset: 33274},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 803, col: 5, offset: 25852},
+																				pos: position{line: 803, col: 5, offset: 25854},
 																				run: (*parser).callonListContinuationElement1275,
 																				expr: &seqExpr{
-																					pos: position{line: 803, col: 5, offset: 25852},
+																					pos: position{line: 803, col: 5, offset: 25854},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 803, col: 5, offset: 25852},
+																							pos:   position{line: 803, col: 5, offset: 25854},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 803, col: 16, offset: 25863},
+																								pos: position{line: 803, col: 16, offset: 25865},
 																								run: (*parser).callonListContinuationElement1278,
 																								expr: &seqExpr{
-																									pos: position{line: 803, col: 16, offset: 25863},
+																									pos: position{line: 803, col: 16, offset: 25865},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 803, col: 16, offset: 25863},
+																											pos:        position{line: 803, col: 16, offset: 25865},
 																											val:        "****",
 																											ignoreCase: false,
 																											want:       "\"****\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 803, col: 23, offset: 25870},
+																											pos: position{line: 803, col: 23, offset: 25872},
 																											expr: &litMatcher{
-																												pos:        position{line: 803, col: 23, offset: 25870},
+																												pos:        position{line: 803, col: 23, offset: 25872},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -35266,12 +35266,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 805, col: 8, offset: 25954},
+																							pos: position{line: 805, col: 8, offset: 25956},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 91003},
+																								pos: position{line: 2876, col: 10, offset: 91005},
 																								run: (*parser).callonListContinuationElement1284,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 91003},
+																									pos:        position{line: 2876, col: 10, offset: 91005},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35280,28 +35280,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91401},
+																							pos: position{line: 2898, col: 8, offset: 91403},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91174},
+																									pos: position{line: 2885, col: 12, offset: 91176},
 																									run: (*parser).callonListContinuationElement1287,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91175},
+																										pos: position{line: 2885, col: 13, offset: 91177},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91175},
+																												pos:        position{line: 2885, col: 13, offset: 91177},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91182},
+																												pos:        position{line: 2885, col: 20, offset: 91184},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91191},
+																												pos:        position{line: 2885, col: 29, offset: 91193},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35310,9 +35310,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91351},
+																									pos: position{line: 2895, col: 8, offset: 91353},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91352,
+																										line: 2895, col: 9, offset: 91354,
 																									},
 																								},
 																							},
@@ -35322,15 +35322,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1085, col: 5, offset: 33303},
+																			pos: position{line: 1085, col: 5, offset: 33305},
 																			run: (*parser).callonListContinuationElement1294,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2895, col: 8, offset: 91351},
+																	pos: position{line: 2895, col: 8, offset: 91353},
 																	expr: &anyMatcher{
-																		line: 2895, col: 9, offset: 91352,
+																		line: 2895, col: 9, offset: 91354,
 																	},
 																},
 															},
@@ -35341,52 +35341,52 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2721, col: 18, offset: 86577},
+										pos: position{line: 2721, col: 18, offset: 86579},
 										run: (*parser).callonListContinuationElement1297,
 										expr: &seqExpr{
-											pos: position{line: 2721, col: 18, offset: 86577},
+											pos: position{line: 2721, col: 18, offset: 86579},
 											exprs: []interface{}{
 												&choiceExpr{
-													pos: position{line: 2722, col: 9, offset: 86587},
+													pos: position{line: 2722, col: 9, offset: 86589},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2722, col: 9, offset: 86587},
+															pos:        position{line: 2722, col: 9, offset: 86589},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2723, col: 11, offset: 86623},
+															pos:        position{line: 2723, col: 11, offset: 86625},
 															val:        "***",
 															ignoreCase: false,
 															want:       "\"***\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2723, col: 19, offset: 86631},
+															pos:        position{line: 2723, col: 19, offset: 86633},
 															val:        "* * *",
 															ignoreCase: false,
 															want:       "\"* * *\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2723, col: 29, offset: 86641},
+															pos:        position{line: 2723, col: 29, offset: 86643},
 															val:        "---",
 															ignoreCase: false,
 															want:       "\"---\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2723, col: 37, offset: 86649},
+															pos:        position{line: 2723, col: 37, offset: 86651},
 															val:        "- - -",
 															ignoreCase: false,
 															want:       "\"- - -\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2723, col: 47, offset: 86659},
+															pos:        position{line: 2723, col: 47, offset: 86661},
 															val:        "___",
 															ignoreCase: false,
 															want:       "\"___\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2723, col: 55, offset: 86667},
+															pos:        position{line: 2723, col: 55, offset: 86669},
 															val:        "_ _ _",
 															ignoreCase: false,
 															want:       "\"_ _ _\"",
@@ -35394,12 +35394,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2724, col: 11, offset: 86713},
+													pos: position{line: 2724, col: 11, offset: 86715},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 91003},
+														pos: position{line: 2876, col: 10, offset: 91005},
 														run: (*parser).callonListContinuationElement1308,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 91003},
+															pos:        position{line: 2876, col: 10, offset: 91005},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35408,28 +35408,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2898, col: 8, offset: 91401},
+													pos: position{line: 2898, col: 8, offset: 91403},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91174},
+															pos: position{line: 2885, col: 12, offset: 91176},
 															run: (*parser).callonListContinuationElement1311,
 															expr: &choiceExpr{
-																pos: position{line: 2885, col: 13, offset: 91175},
+																pos: position{line: 2885, col: 13, offset: 91177},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 13, offset: 91175},
+																		pos:        position{line: 2885, col: 13, offset: 91177},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 20, offset: 91182},
+																		pos:        position{line: 2885, col: 20, offset: 91184},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 29, offset: 91191},
+																		pos:        position{line: 2885, col: 29, offset: 91193},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35438,20 +35438,20 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2895, col: 8, offset: 91351},
+															pos: position{line: 2895, col: 8, offset: 91353},
 															expr: &anyMatcher{
-																line: 2895, col: 9, offset: 91352,
+																line: 2895, col: 9, offset: 91354,
 															},
 														},
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2724, col: 22, offset: 86724},
+													pos: position{line: 2724, col: 22, offset: 86726},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 91003},
+														pos: position{line: 2876, col: 10, offset: 91005},
 														run: (*parser).callonListContinuationElement1319,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 91003},
+															pos:        position{line: 2876, col: 10, offset: 91005},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35460,28 +35460,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2898, col: 8, offset: 91401},
+													pos: position{line: 2898, col: 8, offset: 91403},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91174},
+															pos: position{line: 2885, col: 12, offset: 91176},
 															run: (*parser).callonListContinuationElement1322,
 															expr: &choiceExpr{
-																pos: position{line: 2885, col: 13, offset: 91175},
+																pos: position{line: 2885, col: 13, offset: 91177},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 13, offset: 91175},
+																		pos:        position{line: 2885, col: 13, offset: 91177},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 20, offset: 91182},
+																		pos:        position{line: 2885, col: 20, offset: 91184},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 29, offset: 91191},
+																		pos:        position{line: 2885, col: 29, offset: 91193},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35490,9 +35490,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2895, col: 8, offset: 91351},
+															pos: position{line: 2895, col: 8, offset: 91353},
 															expr: &anyMatcher{
-																line: 2895, col: 9, offset: 91352,
+																line: 2895, col: 9, offset: 91354,
 															},
 														},
 													},
@@ -35501,28 +35501,28 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1558, col: 11, offset: 50422},
+										pos:  position{line: 1558, col: 11, offset: 50424},
 										name: "ImageBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2612, col: 5, offset: 83513},
+										pos: position{line: 2612, col: 5, offset: 83515},
 										run: (*parser).callonListContinuationElement1330,
 										expr: &seqExpr{
-											pos: position{line: 2612, col: 5, offset: 83513},
+											pos: position{line: 2612, col: 5, offset: 83515},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2618, col: 19, offset: 83670},
+													pos:        position{line: 2618, col: 19, offset: 83672},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2618, col: 26, offset: 83677},
+													pos: position{line: 2618, col: 26, offset: 83679},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 91003},
+														pos: position{line: 2876, col: 10, offset: 91005},
 														run: (*parser).callonListContinuationElement1334,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 91003},
+															pos:        position{line: 2876, col: 10, offset: 91005},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35531,28 +35531,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2898, col: 8, offset: 91401},
+													pos: position{line: 2898, col: 8, offset: 91403},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91174},
+															pos: position{line: 2885, col: 12, offset: 91176},
 															run: (*parser).callonListContinuationElement1337,
 															expr: &choiceExpr{
-																pos: position{line: 2885, col: 13, offset: 91175},
+																pos: position{line: 2885, col: 13, offset: 91177},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 13, offset: 91175},
+																		pos:        position{line: 2885, col: 13, offset: 91177},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 20, offset: 91182},
+																		pos:        position{line: 2885, col: 20, offset: 91184},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 29, offset: 91191},
+																		pos:        position{line: 2885, col: 29, offset: 91193},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35561,40 +35561,40 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2895, col: 8, offset: 91351},
+															pos: position{line: 2895, col: 8, offset: 91353},
 															expr: &anyMatcher{
-																line: 2895, col: 9, offset: 91352,
+																line: 2895, col: 9, offset: 91354,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2613, col: 5, offset: 83537},
+													pos:   position{line: 2613, col: 5, offset: 83539},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2613, col: 11, offset: 83543},
+														pos: position{line: 2613, col: 11, offset: 83545},
 														expr: &choiceExpr{
-															pos: position{line: 2613, col: 12, offset: 83544},
+															pos: position{line: 2613, col: 12, offset: 83546},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 676, col: 14, offset: 21496},
+																	pos: position{line: 676, col: 14, offset: 21498},
 																	run: (*parser).callonListContinuationElement1347,
 																	expr: &seqExpr{
-																		pos: position{line: 676, col: 14, offset: 21496},
+																		pos: position{line: 676, col: 14, offset: 21498},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2893, col: 11, offset: 91337},
+																				pos: position{line: 2893, col: 11, offset: 91339},
 																				expr: &anyMatcher{
-																					line: 2893, col: 13, offset: 91339,
+																					line: 2893, col: 13, offset: 91341,
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 676, col: 21, offset: 21503},
+																				pos: position{line: 676, col: 21, offset: 21505},
 																				expr: &actionExpr{
-																					pos: position{line: 2876, col: 10, offset: 91003},
+																					pos: position{line: 2876, col: 10, offset: 91005},
 																					run: (*parser).callonListContinuationElement1352,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2876, col: 10, offset: 91003},
+																						pos:        position{line: 2876, col: 10, offset: 91005},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -35603,28 +35603,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2898, col: 8, offset: 91401},
+																				pos: position{line: 2898, col: 8, offset: 91403},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2885, col: 12, offset: 91174},
+																						pos: position{line: 2885, col: 12, offset: 91176},
 																						run: (*parser).callonListContinuationElement1355,
 																						expr: &choiceExpr{
-																							pos: position{line: 2885, col: 13, offset: 91175},
+																							pos: position{line: 2885, col: 13, offset: 91177},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 13, offset: 91175},
+																									pos:        position{line: 2885, col: 13, offset: 91177},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 20, offset: 91182},
+																									pos:        position{line: 2885, col: 20, offset: 91184},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 29, offset: 91191},
+																									pos:        position{line: 2885, col: 29, offset: 91193},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35633,9 +35633,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91351},
+																						pos: position{line: 2895, col: 8, offset: 91353},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91352,
+																							line: 2895, col: 9, offset: 91354,
 																						},
 																					},
 																				},
@@ -35644,32 +35644,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2625, col: 5, offset: 83789},
+																	pos: position{line: 2625, col: 5, offset: 83791},
 																	run: (*parser).callonListContinuationElement1362,
 																	expr: &seqExpr{
-																		pos: position{line: 2625, col: 5, offset: 83789},
+																		pos: position{line: 2625, col: 5, offset: 83791},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2625, col: 5, offset: 83789},
+																				pos: position{line: 2625, col: 5, offset: 83791},
 																				expr: &choiceExpr{
-																					pos: position{line: 2622, col: 22, offset: 83750},
+																					pos: position{line: 2622, col: 22, offset: 83752},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2618, col: 19, offset: 83670},
+																							pos: position{line: 2618, col: 19, offset: 83672},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2618, col: 19, offset: 83670},
+																									pos:        position{line: 2618, col: 19, offset: 83672},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2618, col: 26, offset: 83677},
+																									pos: position{line: 2618, col: 26, offset: 83679},
 																									expr: &actionExpr{
-																										pos: position{line: 2876, col: 10, offset: 91003},
+																										pos: position{line: 2876, col: 10, offset: 91005},
 																										run: (*parser).callonListContinuationElement1369,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2876, col: 10, offset: 91003},
+																											pos:        position{line: 2876, col: 10, offset: 91005},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -35678,28 +35678,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2898, col: 8, offset: 91401},
+																									pos: position{line: 2898, col: 8, offset: 91403},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2885, col: 12, offset: 91174},
+																											pos: position{line: 2885, col: 12, offset: 91176},
 																											run: (*parser).callonListContinuationElement1372,
 																											expr: &choiceExpr{
-																												pos: position{line: 2885, col: 13, offset: 91175},
+																												pos: position{line: 2885, col: 13, offset: 91177},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 13, offset: 91175},
+																														pos:        position{line: 2885, col: 13, offset: 91177},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 20, offset: 91182},
+																														pos:        position{line: 2885, col: 20, offset: 91184},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 29, offset: 91191},
+																														pos:        position{line: 2885, col: 29, offset: 91193},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -35708,9 +35708,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2895, col: 8, offset: 91351},
+																											pos: position{line: 2895, col: 8, offset: 91353},
 																											expr: &anyMatcher{
-																												line: 2895, col: 9, offset: 91352,
+																												line: 2895, col: 9, offset: 91354,
 																											},
 																										},
 																									},
@@ -35718,59 +35718,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2895, col: 8, offset: 91351},
+																							pos: position{line: 2895, col: 8, offset: 91353},
 																							expr: &anyMatcher{
-																								line: 2895, col: 9, offset: 91352,
+																								line: 2895, col: 9, offset: 91354,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2626, col: 5, offset: 83812},
+																				pos:   position{line: 2626, col: 5, offset: 83814},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2627, col: 9, offset: 83830},
+																					pos: position{line: 2627, col: 9, offset: 83832},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2627, col: 10, offset: 83831},
+																							pos: position{line: 2627, col: 10, offset: 83833},
 																							run: (*parser).callonListContinuationElement1383,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2627, col: 10, offset: 83831},
+																								pos:   position{line: 2627, col: 10, offset: 83833},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2627, col: 17, offset: 83838},
+																									pos: position{line: 2627, col: 17, offset: 83840},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2635, col: 21, offset: 84034},
+																											pos: position{line: 2635, col: 21, offset: 84036},
 																											run: (*parser).callonListContinuationElement1386,
 																											expr: &seqExpr{
-																												pos: position{line: 2635, col: 21, offset: 84034},
+																												pos: position{line: 2635, col: 21, offset: 84036},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2635, col: 21, offset: 84034},
+																														pos:   position{line: 2635, col: 21, offset: 84036},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2635, col: 27, offset: 84040},
+																															pos: position{line: 2635, col: 27, offset: 84042},
 																															expr: &actionExpr{
-																																pos: position{line: 2640, col: 5, offset: 84115},
+																																pos: position{line: 2640, col: 5, offset: 84117},
 																																run: (*parser).callonListContinuationElement1390,
 																																expr: &seqExpr{
-																																	pos: position{line: 2640, col: 5, offset: 84115},
+																																	pos: position{line: 2640, col: 5, offset: 84117},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2640, col: 5, offset: 84115},
+																																			pos:        position{line: 2640, col: 5, offset: 84117},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2640, col: 9, offset: 84119},
+																																			pos: position{line: 2640, col: 9, offset: 84121},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2876, col: 10, offset: 91003},
+																																				pos: position{line: 2876, col: 10, offset: 91005},
 																																				run: (*parser).callonListContinuationElement1394,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2876, col: 10, offset: 91003},
+																																					pos:        position{line: 2876, col: 10, offset: 91005},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -35779,21 +35779,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2640, col: 16, offset: 84126},
+																																			pos:   position{line: 2640, col: 16, offset: 84128},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2646, col: 5, offset: 84326},
+																																				pos: position{line: 2646, col: 5, offset: 84328},
 																																				run: (*parser).callonListContinuationElement1397,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2646, col: 5, offset: 84326},
+																																					pos:   position{line: 2646, col: 5, offset: 84328},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2646, col: 14, offset: 84335},
+																																						pos: position{line: 2646, col: 14, offset: 84337},
 																																						run: (*parser).callonListContinuationElement1399,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2646, col: 14, offset: 84335},
+																																							pos: position{line: 2646, col: 14, offset: 84337},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2646, col: 14, offset: 84335},
+																																								pos:        position{line: 2646, col: 14, offset: 84337},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -35810,28 +35810,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2898, col: 8, offset: 91401},
+																														pos: position{line: 2898, col: 8, offset: 91403},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2885, col: 12, offset: 91174},
+																																pos: position{line: 2885, col: 12, offset: 91176},
 																																run: (*parser).callonListContinuationElement1403,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2885, col: 13, offset: 91175},
+																																	pos: position{line: 2885, col: 13, offset: 91177},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2885, col: 13, offset: 91175},
+																																			pos:        position{line: 2885, col: 13, offset: 91177},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2885, col: 20, offset: 91182},
+																																			pos:        position{line: 2885, col: 20, offset: 91184},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2885, col: 29, offset: 91191},
+																																			pos:        position{line: 2885, col: 29, offset: 91193},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -35840,9 +35840,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2895, col: 8, offset: 91351},
+																																pos: position{line: 2895, col: 8, offset: 91353},
 																																expr: &anyMatcher{
-																																	line: 2895, col: 9, offset: 91352,
+																																	line: 2895, col: 9, offset: 91354,
 																																},
 																															},
 																														},
@@ -35851,40 +35851,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2652, col: 24, offset: 84471},
+																											pos: position{line: 2652, col: 24, offset: 84473},
 																											run: (*parser).callonListContinuationElement1410,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2652, col: 24, offset: 84471},
+																												pos:   position{line: 2652, col: 24, offset: 84473},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2652, col: 30, offset: 84477},
+																													pos: position{line: 2652, col: 30, offset: 84479},
 																													expr: &actionExpr{
-																														pos: position{line: 2657, col: 5, offset: 84553},
+																														pos: position{line: 2657, col: 5, offset: 84555},
 																														run: (*parser).callonListContinuationElement1413,
 																														expr: &seqExpr{
-																															pos: position{line: 2657, col: 5, offset: 84553},
+																															pos: position{line: 2657, col: 5, offset: 84555},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2657, col: 5, offset: 84553},
+																																	pos: position{line: 2657, col: 5, offset: 84555},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2622, col: 22, offset: 83750},
+																																		pos: position{line: 2622, col: 22, offset: 83752},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2618, col: 19, offset: 83670},
+																																				pos: position{line: 2618, col: 19, offset: 83672},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2618, col: 19, offset: 83670},
+																																						pos:        position{line: 2618, col: 19, offset: 83672},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2618, col: 26, offset: 83677},
+																																						pos: position{line: 2618, col: 26, offset: 83679},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2876, col: 10, offset: 91003},
+																																							pos: position{line: 2876, col: 10, offset: 91005},
 																																							run: (*parser).callonListContinuationElement1420,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2876, col: 10, offset: 91003},
+																																								pos:        position{line: 2876, col: 10, offset: 91005},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -35893,28 +35893,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2898, col: 8, offset: 91401},
+																																						pos: position{line: 2898, col: 8, offset: 91403},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2885, col: 12, offset: 91174},
+																																								pos: position{line: 2885, col: 12, offset: 91176},
 																																								run: (*parser).callonListContinuationElement1423,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2885, col: 13, offset: 91175},
+																																									pos: position{line: 2885, col: 13, offset: 91177},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2885, col: 13, offset: 91175},
+																																											pos:        position{line: 2885, col: 13, offset: 91177},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2885, col: 20, offset: 91182},
+																																											pos:        position{line: 2885, col: 20, offset: 91184},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2885, col: 29, offset: 91191},
+																																											pos:        position{line: 2885, col: 29, offset: 91193},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -35923,9 +35923,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2895, col: 8, offset: 91351},
+																																								pos: position{line: 2895, col: 8, offset: 91353},
 																																								expr: &anyMatcher{
-																																									line: 2895, col: 9, offset: 91352,
+																																									line: 2895, col: 9, offset: 91354,
 																																								},
 																																							},
 																																						},
@@ -35933,35 +35933,35 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2895, col: 8, offset: 91351},
+																																				pos: position{line: 2895, col: 8, offset: 91353},
 																																				expr: &anyMatcher{
-																																					line: 2895, col: 9, offset: 91352,
+																																					line: 2895, col: 9, offset: 91354,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2658, col: 5, offset: 84576},
+																																	pos: position{line: 2658, col: 5, offset: 84578},
 																																	expr: &actionExpr{
-																																		pos: position{line: 676, col: 14, offset: 21496},
+																																		pos: position{line: 676, col: 14, offset: 21498},
 																																		run: (*parser).callonListContinuationElement1433,
 																																		expr: &seqExpr{
-																																			pos: position{line: 676, col: 14, offset: 21496},
+																																			pos: position{line: 676, col: 14, offset: 21498},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2893, col: 11, offset: 91337},
+																																					pos: position{line: 2893, col: 11, offset: 91339},
 																																					expr: &anyMatcher{
-																																						line: 2893, col: 13, offset: 91339,
+																																						line: 2893, col: 13, offset: 91341,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
-																																					pos: position{line: 676, col: 21, offset: 21503},
+																																					pos: position{line: 676, col: 21, offset: 21505},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2876, col: 10, offset: 91003},
+																																						pos: position{line: 2876, col: 10, offset: 91005},
 																																						run: (*parser).callonListContinuationElement1438,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2876, col: 10, offset: 91003},
+																																							pos:        position{line: 2876, col: 10, offset: 91005},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -35970,28 +35970,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2898, col: 8, offset: 91401},
+																																					pos: position{line: 2898, col: 8, offset: 91403},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2885, col: 12, offset: 91174},
+																																							pos: position{line: 2885, col: 12, offset: 91176},
 																																							run: (*parser).callonListContinuationElement1441,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2885, col: 13, offset: 91175},
+																																								pos: position{line: 2885, col: 13, offset: 91177},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2885, col: 13, offset: 91175},
+																																										pos:        position{line: 2885, col: 13, offset: 91177},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2885, col: 20, offset: 91182},
+																																										pos:        position{line: 2885, col: 20, offset: 91184},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2885, col: 29, offset: 91191},
+																																										pos:        position{line: 2885, col: 29, offset: 91193},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -36000,9 +36000,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2895, col: 8, offset: 91351},
+																																							pos: position{line: 2895, col: 8, offset: 91353},
 																																							expr: &anyMatcher{
-																																								line: 2895, col: 9, offset: 91352,
+																																								line: 2895, col: 9, offset: 91354,
 																																							},
 																																						},
 																																					},
@@ -36012,17 +36012,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2659, col: 5, offset: 84591},
+																																	pos:   position{line: 2659, col: 5, offset: 84593},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2659, col: 12, offset: 84598},
+																																		pos: position{line: 2659, col: 12, offset: 84600},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2676, col: 20, offset: 85062},
+																																			pos: position{line: 2676, col: 20, offset: 85064},
 																																			run: (*parser).callonListContinuationElement1450,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2676, col: 20, offset: 85062},
+																																				pos: position{line: 2676, col: 20, offset: 85064},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2676, col: 20, offset: 85062},
+																																					pos:        position{line: 2676, col: 20, offset: 85064},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -36033,18 +36033,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2659, col: 31, offset: 84617},
+																																	pos:        position{line: 2659, col: 31, offset: 84619},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2659, col: 35, offset: 84621},
+																																	pos: position{line: 2659, col: 35, offset: 84623},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2876, col: 10, offset: 91003},
+																																		pos: position{line: 2876, col: 10, offset: 91005},
 																																		run: (*parser).callonListContinuationElement1455,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2876, col: 10, offset: 91003},
+																																			pos:        position{line: 2876, col: 10, offset: 91005},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -36053,27 +36053,27 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2659, col: 42, offset: 84628},
+																																	pos: position{line: 2659, col: 42, offset: 84630},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2885, col: 12, offset: 91174},
+																																		pos: position{line: 2885, col: 12, offset: 91176},
 																																		run: (*parser).callonListContinuationElement1458,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2885, col: 13, offset: 91175},
+																																			pos: position{line: 2885, col: 13, offset: 91177},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2885, col: 13, offset: 91175},
+																																					pos:        position{line: 2885, col: 13, offset: 91177},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2885, col: 20, offset: 91182},
+																																					pos:        position{line: 2885, col: 20, offset: 91184},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2885, col: 29, offset: 91191},
+																																					pos:        position{line: 2885, col: 29, offset: 91193},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -36083,37 +36083,37 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2659, col: 51, offset: 84637},
+																																	pos:   position{line: 2659, col: 51, offset: 84639},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2665, col: 5, offset: 84796},
+																																		pos: position{line: 2665, col: 5, offset: 84798},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2666, col: 9, offset: 84806},
+																																			pos: position{line: 2666, col: 9, offset: 84808},
 																																			run: (*parser).callonListContinuationElement1465,
 																																			expr: &seqExpr{
-																																				pos: position{line: 2666, col: 9, offset: 84806},
+																																				pos: position{line: 2666, col: 9, offset: 84808},
 																																				exprs: []interface{}{
 																																					&notExpr{
-																																						pos: position{line: 2666, col: 9, offset: 84806},
+																																						pos: position{line: 2666, col: 9, offset: 84808},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2622, col: 22, offset: 83750},
+																																							pos: position{line: 2622, col: 22, offset: 83752},
 																																							alternatives: []interface{}{
 																																								&seqExpr{
-																																									pos: position{line: 2618, col: 19, offset: 83670},
+																																									pos: position{line: 2618, col: 19, offset: 83672},
 																																									exprs: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2618, col: 19, offset: 83670},
+																																											pos:        position{line: 2618, col: 19, offset: 83672},
 																																											val:        "|===",
 																																											ignoreCase: false,
 																																											want:       "\"|===\"",
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 2618, col: 26, offset: 83677},
+																																											pos: position{line: 2618, col: 26, offset: 83679},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2876, col: 10, offset: 91003},
+																																												pos: position{line: 2876, col: 10, offset: 91005},
 																																												run: (*parser).callonListContinuationElement1472,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2876, col: 10, offset: 91003},
+																																													pos:        position{line: 2876, col: 10, offset: 91005},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -36122,28 +36122,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2898, col: 8, offset: 91401},
+																																											pos: position{line: 2898, col: 8, offset: 91403},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2885, col: 12, offset: 91174},
+																																													pos: position{line: 2885, col: 12, offset: 91176},
 																																													run: (*parser).callonListContinuationElement1475,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2885, col: 13, offset: 91175},
+																																														pos: position{line: 2885, col: 13, offset: 91177},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2885, col: 13, offset: 91175},
+																																																pos:        position{line: 2885, col: 13, offset: 91177},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2885, col: 20, offset: 91182},
+																																																pos:        position{line: 2885, col: 20, offset: 91184},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2885, col: 29, offset: 91191},
+																																																pos:        position{line: 2885, col: 29, offset: 91193},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -36152,9 +36152,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2895, col: 8, offset: 91351},
+																																													pos: position{line: 2895, col: 8, offset: 91353},
 																																													expr: &anyMatcher{
-																																														line: 2895, col: 9, offset: 91352,
+																																														line: 2895, col: 9, offset: 91354,
 																																													},
 																																												},
 																																											},
@@ -36162,35 +36162,35 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2895, col: 8, offset: 91351},
+																																									pos: position{line: 2895, col: 8, offset: 91353},
 																																									expr: &anyMatcher{
-																																										line: 2895, col: 9, offset: 91352,
+																																										line: 2895, col: 9, offset: 91354,
 																																									},
 																																								},
 																																							},
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2667, col: 9, offset: 84833},
+																																						pos: position{line: 2667, col: 9, offset: 84835},
 																																						expr: &actionExpr{
-																																							pos: position{line: 676, col: 14, offset: 21496},
+																																							pos: position{line: 676, col: 14, offset: 21498},
 																																							run: (*parser).callonListContinuationElement1485,
 																																							expr: &seqExpr{
-																																								pos: position{line: 676, col: 14, offset: 21496},
+																																								pos: position{line: 676, col: 14, offset: 21498},
 																																								exprs: []interface{}{
 																																									&andExpr{
-																																										pos: position{line: 2893, col: 11, offset: 91337},
+																																										pos: position{line: 2893, col: 11, offset: 91339},
 																																										expr: &anyMatcher{
-																																											line: 2893, col: 13, offset: 91339,
+																																											line: 2893, col: 13, offset: 91341,
 																																										},
 																																									},
 																																									&zeroOrMoreExpr{
-																																										pos: position{line: 676, col: 21, offset: 21503},
+																																										pos: position{line: 676, col: 21, offset: 21505},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2876, col: 10, offset: 91003},
+																																											pos: position{line: 2876, col: 10, offset: 91005},
 																																											run: (*parser).callonListContinuationElement1490,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2876, col: 10, offset: 91003},
+																																												pos:        position{line: 2876, col: 10, offset: 91005},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -36199,28 +36199,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2898, col: 8, offset: 91401},
+																																										pos: position{line: 2898, col: 8, offset: 91403},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2885, col: 12, offset: 91174},
+																																												pos: position{line: 2885, col: 12, offset: 91176},
 																																												run: (*parser).callonListContinuationElement1493,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2885, col: 13, offset: 91175},
+																																													pos: position{line: 2885, col: 13, offset: 91177},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2885, col: 13, offset: 91175},
+																																															pos:        position{line: 2885, col: 13, offset: 91177},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2885, col: 20, offset: 91182},
+																																															pos:        position{line: 2885, col: 20, offset: 91184},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2885, col: 29, offset: 91191},
+																																															pos:        position{line: 2885, col: 29, offset: 91193},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -36229,9 +36229,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2895, col: 8, offset: 91351},
+																																												pos: position{line: 2895, col: 8, offset: 91353},
 																																												expr: &anyMatcher{
-																																													line: 2895, col: 9, offset: 91352,
+																																													line: 2895, col: 9, offset: 91354,
 																																												},
 																																											},
 																																										},
@@ -36241,22 +36241,22 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2668, col: 9, offset: 84852},
+																																						pos: position{line: 2668, col: 9, offset: 84854},
 																																						expr: &seqExpr{
-																																							pos: position{line: 2668, col: 11, offset: 84854},
+																																							pos: position{line: 2668, col: 11, offset: 84856},
 																																							exprs: []interface{}{
 																																								&labeledExpr{
-																																									pos:   position{line: 2668, col: 11, offset: 84854},
+																																									pos:   position{line: 2668, col: 11, offset: 84856},
 																																									label: "format",
 																																									expr: &zeroOrOneExpr{
-																																										pos: position{line: 2668, col: 18, offset: 84861},
+																																										pos: position{line: 2668, col: 18, offset: 84863},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2676, col: 20, offset: 85062},
+																																											pos: position{line: 2676, col: 20, offset: 85064},
 																																											run: (*parser).callonListContinuationElement1504,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2676, col: 20, offset: 85062},
+																																												pos: position{line: 2676, col: 20, offset: 85064},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2676, col: 20, offset: 85062},
+																																													pos:        position{line: 2676, col: 20, offset: 85064},
 																																													val:        "[^ |\\r\\n]",
 																																													chars:      []rune{' ', '|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -36267,7 +36267,7 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&litMatcher{
-																																									pos:        position{line: 2668, col: 37, offset: 84880},
+																																									pos:        position{line: 2668, col: 37, offset: 84882},
 																																									val:        "|",
 																																									ignoreCase: false,
 																																									want:       "\"|\"",
@@ -36276,15 +36276,15 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2669, col: 9, offset: 84893},
+																																						pos:   position{line: 2669, col: 9, offset: 84895},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2669, col: 18, offset: 84902},
+																																							pos: position{line: 2669, col: 18, offset: 84904},
 																																							run: (*parser).callonListContinuationElement1509,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2669, col: 18, offset: 84902},
+																																								pos: position{line: 2669, col: 18, offset: 84904},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2669, col: 18, offset: 84902},
+																																									pos:        position{line: 2669, col: 18, offset: 84904},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -36294,30 +36294,30 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&zeroOrOneExpr{
-																																						pos: position{line: 2671, col: 12, offset: 84964},
+																																						pos: position{line: 2671, col: 12, offset: 84966},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2898, col: 8, offset: 91401},
+																																							pos: position{line: 2898, col: 8, offset: 91403},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2885, col: 12, offset: 91174},
+																																									pos: position{line: 2885, col: 12, offset: 91176},
 																																									run: (*parser).callonListContinuationElement1514,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2885, col: 13, offset: 91175},
+																																										pos: position{line: 2885, col: 13, offset: 91177},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2885, col: 13, offset: 91175},
+																																												pos:        position{line: 2885, col: 13, offset: 91177},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2885, col: 20, offset: 91182},
+																																												pos:        position{line: 2885, col: 20, offset: 91184},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2885, col: 29, offset: 91191},
+																																												pos:        position{line: 2885, col: 29, offset: 91193},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -36326,9 +36326,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2895, col: 8, offset: 91351},
+																																									pos: position{line: 2895, col: 8, offset: 91353},
 																																									expr: &anyMatcher{
-																																										line: 2895, col: 9, offset: 91352,
+																																										line: 2895, col: 9, offset: 91354,
 																																									},
 																																								},
 																																							},
@@ -36350,24 +36350,24 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 676, col: 14, offset: 21496},
+																							pos: position{line: 676, col: 14, offset: 21498},
 																							run: (*parser).callonListContinuationElement1521,
 																							expr: &seqExpr{
-																								pos: position{line: 676, col: 14, offset: 21496},
+																								pos: position{line: 676, col: 14, offset: 21498},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2893, col: 11, offset: 91337},
+																										pos: position{line: 2893, col: 11, offset: 91339},
 																										expr: &anyMatcher{
-																											line: 2893, col: 13, offset: 91339,
+																											line: 2893, col: 13, offset: 91341,
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 676, col: 21, offset: 21503},
+																										pos: position{line: 676, col: 21, offset: 21505},
 																										expr: &actionExpr{
-																											pos: position{line: 2876, col: 10, offset: 91003},
+																											pos: position{line: 2876, col: 10, offset: 91005},
 																											run: (*parser).callonListContinuationElement1526,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2876, col: 10, offset: 91003},
+																												pos:        position{line: 2876, col: 10, offset: 91005},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -36376,28 +36376,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2898, col: 8, offset: 91401},
+																										pos: position{line: 2898, col: 8, offset: 91403},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2885, col: 12, offset: 91174},
+																												pos: position{line: 2885, col: 12, offset: 91176},
 																												run: (*parser).callonListContinuationElement1529,
 																												expr: &choiceExpr{
-																													pos: position{line: 2885, col: 13, offset: 91175},
+																													pos: position{line: 2885, col: 13, offset: 91177},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2885, col: 13, offset: 91175},
+																															pos:        position{line: 2885, col: 13, offset: 91177},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2885, col: 20, offset: 91182},
+																															pos:        position{line: 2885, col: 20, offset: 91184},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2885, col: 29, offset: 91191},
+																															pos:        position{line: 2885, col: 29, offset: 91193},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -36406,9 +36406,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2895, col: 8, offset: 91351},
+																												pos: position{line: 2895, col: 8, offset: 91353},
 																												expr: &anyMatcher{
-																													line: 2895, col: 9, offset: 91352,
+																													line: 2895, col: 9, offset: 91354,
 																												},
 																											},
 																										},
@@ -36427,24 +36427,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2622, col: 22, offset: 83750},
+													pos: position{line: 2622, col: 22, offset: 83752},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2618, col: 19, offset: 83670},
+															pos: position{line: 2618, col: 19, offset: 83672},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2618, col: 19, offset: 83670},
+																	pos:        position{line: 2618, col: 19, offset: 83672},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2618, col: 26, offset: 83677},
+																	pos: position{line: 2618, col: 26, offset: 83679},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 91003},
+																		pos: position{line: 2876, col: 10, offset: 91005},
 																		run: (*parser).callonListContinuationElement1540,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 91003},
+																			pos:        position{line: 2876, col: 10, offset: 91005},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -36453,28 +36453,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91401},
+																	pos: position{line: 2898, col: 8, offset: 91403},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91174},
+																			pos: position{line: 2885, col: 12, offset: 91176},
 																			run: (*parser).callonListContinuationElement1543,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91175},
+																				pos: position{line: 2885, col: 13, offset: 91177},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91175},
+																						pos:        position{line: 2885, col: 13, offset: 91177},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91182},
+																						pos:        position{line: 2885, col: 20, offset: 91184},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91191},
+																						pos:        position{line: 2885, col: 29, offset: 91193},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36483,9 +36483,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91351},
+																			pos: position{line: 2895, col: 8, offset: 91353},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91352,
+																				line: 2895, col: 9, offset: 91354,
 																			},
 																		},
 																	},
@@ -36493,9 +36493,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2895, col: 8, offset: 91351},
+															pos: position{line: 2895, col: 8, offset: 91353},
 															expr: &anyMatcher{
-																line: 2895, col: 9, offset: 91352,
+																line: 2895, col: 9, offset: 91354,
 															},
 														},
 													},
@@ -36504,36 +36504,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2483, col: 22, offset: 79889},
+										pos: position{line: 2483, col: 22, offset: 79891},
 										run: (*parser).callonListContinuationElement1552,
 										expr: &seqExpr{
-											pos: position{line: 2483, col: 22, offset: 79889},
+											pos: position{line: 2483, col: 22, offset: 79891},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2488, col: 31, offset: 80110},
+													pos:        position{line: 2488, col: 31, offset: 80112},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2488, col: 36, offset: 80115},
+													pos: position{line: 2488, col: 36, offset: 80117},
 													expr: &litMatcher{
-														pos:        position{line: 2488, col: 37, offset: 80116},
+														pos:        position{line: 2488, col: 37, offset: 80118},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2483, col: 49, offset: 79916},
+													pos:   position{line: 2483, col: 49, offset: 79918},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2822, col: 13, offset: 89529},
+														pos: position{line: 2822, col: 13, offset: 89531},
 														run: (*parser).callonListContinuationElement1558,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2822, col: 13, offset: 89529},
+															pos: position{line: 2822, col: 13, offset: 89531},
 															expr: &charClassMatcher{
-																pos:        position{line: 2822, col: 13, offset: 89529},
+																pos:        position{line: 2822, col: 13, offset: 89531},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -36543,28 +36543,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2898, col: 8, offset: 91401},
+													pos: position{line: 2898, col: 8, offset: 91403},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91174},
+															pos: position{line: 2885, col: 12, offset: 91176},
 															run: (*parser).callonListContinuationElement1562,
 															expr: &choiceExpr{
-																pos: position{line: 2885, col: 13, offset: 91175},
+																pos: position{line: 2885, col: 13, offset: 91177},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 13, offset: 91175},
+																		pos:        position{line: 2885, col: 13, offset: 91177},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 20, offset: 91182},
+																		pos:        position{line: 2885, col: 20, offset: 91184},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 29, offset: 91191},
+																		pos:        position{line: 2885, col: 29, offset: 91193},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36573,9 +36573,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2895, col: 8, offset: 91351},
+															pos: position{line: 2895, col: 8, offset: 91353},
 															expr: &anyMatcher{
-																line: 2895, col: 9, offset: 91352,
+																line: 2895, col: 9, offset: 91354,
 															},
 														},
 													},
@@ -36584,94 +36584,94 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1571, col: 5, offset: 50852},
+										pos: position{line: 1571, col: 5, offset: 50854},
 										run: (*parser).callonListContinuationElement1569,
 										expr: &seqExpr{
-											pos: position{line: 1571, col: 5, offset: 50852},
+											pos: position{line: 1571, col: 5, offset: 50854},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1571, col: 5, offset: 50852},
+													pos:   position{line: 1571, col: 5, offset: 50854},
 													label: "style",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1571, col: 11, offset: 50858},
+														pos: position{line: 1571, col: 11, offset: 50860},
 														expr: &actionExpr{
-															pos: position{line: 1736, col: 5, offset: 56207},
+															pos: position{line: 1736, col: 5, offset: 56209},
 															run: (*parser).callonListContinuationElement1573,
 															expr: &seqExpr{
-																pos: position{line: 1736, col: 5, offset: 56207},
+																pos: position{line: 1736, col: 5, offset: 56209},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1736, col: 5, offset: 56207},
+																		pos: position{line: 1736, col: 5, offset: 56209},
 																		run: (*parser).callonListContinuationElement1575,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1739, col: 5, offset: 56270},
+																		pos:   position{line: 1739, col: 5, offset: 56272},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1739, col: 12, offset: 56277},
+																			pos: position{line: 1739, col: 12, offset: 56279},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1739, col: 12, offset: 56277},
+																					pos: position{line: 1739, col: 12, offset: 56279},
 																					run: (*parser).callonListContinuationElement1578,
 																					expr: &litMatcher{
-																						pos:        position{line: 1739, col: 12, offset: 56277},
+																						pos:        position{line: 1739, col: 12, offset: 56279},
 																						val:        "TIP: ",
 																						ignoreCase: false,
 																						want:       "\"TIP: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1741, col: 13, offset: 56333},
+																					pos: position{line: 1741, col: 13, offset: 56335},
 																					run: (*parser).callonListContinuationElement1580,
 																					expr: &litMatcher{
-																						pos:        position{line: 1741, col: 13, offset: 56333},
+																						pos:        position{line: 1741, col: 13, offset: 56335},
 																						val:        "NOTE: ",
 																						ignoreCase: false,
 																						want:       "\"NOTE: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1743, col: 13, offset: 56391},
+																					pos: position{line: 1743, col: 13, offset: 56393},
 																					run: (*parser).callonListContinuationElement1582,
 																					expr: &litMatcher{
-																						pos:        position{line: 1743, col: 13, offset: 56391},
+																						pos:        position{line: 1743, col: 13, offset: 56393},
 																						val:        "IMPORTANT: ",
 																						ignoreCase: false,
 																						want:       "\"IMPORTANT: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1745, col: 13, offset: 56459},
+																					pos: position{line: 1745, col: 13, offset: 56461},
 																					run: (*parser).callonListContinuationElement1584,
 																					expr: &litMatcher{
-																						pos:        position{line: 1745, col: 13, offset: 56459},
+																						pos:        position{line: 1745, col: 13, offset: 56461},
 																						val:        "WARNING: ",
 																						ignoreCase: false,
 																						want:       "\"WARNING: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1747, col: 13, offset: 56523},
+																					pos: position{line: 1747, col: 13, offset: 56525},
 																					run: (*parser).callonListContinuationElement1586,
 																					expr: &litMatcher{
-																						pos:        position{line: 1747, col: 13, offset: 56523},
+																						pos:        position{line: 1747, col: 13, offset: 56525},
 																						val:        "CAUTION: ",
 																						ignoreCase: false,
 																						want:       "\"CAUTION: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1749, col: 13, offset: 56587},
+																					pos: position{line: 1749, col: 13, offset: 56589},
 																					run: (*parser).callonListContinuationElement1588,
 																					expr: &andExpr{
-																						pos: position{line: 1749, col: 13, offset: 56587},
+																						pos: position{line: 1749, col: 13, offset: 56589},
 																						expr: &actionExpr{
-																							pos: position{line: 2880, col: 11, offset: 91064},
+																							pos: position{line: 2880, col: 11, offset: 91066},
 																							run: (*parser).callonListContinuationElement1590,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2880, col: 11, offset: 91064},
+																								pos: position{line: 2880, col: 11, offset: 91066},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 11, offset: 91064},
+																									pos:        position{line: 2880, col: 11, offset: 91066},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36685,17 +36685,17 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1751, col: 12, offset: 56657},
+																		pos: position{line: 1751, col: 12, offset: 56659},
 																		expr: &seqExpr{
-																			pos: position{line: 1751, col: 14, offset: 56659},
+																			pos: position{line: 1751, col: 14, offset: 56661},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1751, col: 14, offset: 56659},
+																					pos: position{line: 1751, col: 14, offset: 56661},
 																					expr: &actionExpr{
-																						pos: position{line: 2876, col: 10, offset: 91003},
+																						pos: position{line: 2876, col: 10, offset: 91005},
 																						run: (*parser).callonListContinuationElement1596,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2876, col: 10, offset: 91003},
+																							pos:        position{line: 2876, col: 10, offset: 91005},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36704,28 +36704,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2898, col: 8, offset: 91401},
+																					pos: position{line: 2898, col: 8, offset: 91403},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2885, col: 12, offset: 91174},
+																							pos: position{line: 2885, col: 12, offset: 91176},
 																							run: (*parser).callonListContinuationElement1599,
 																							expr: &choiceExpr{
-																								pos: position{line: 2885, col: 13, offset: 91175},
+																								pos: position{line: 2885, col: 13, offset: 91177},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 13, offset: 91175},
+																										pos:        position{line: 2885, col: 13, offset: 91177},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 20, offset: 91182},
+																										pos:        position{line: 2885, col: 20, offset: 91184},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 29, offset: 91191},
+																										pos:        position{line: 2885, col: 29, offset: 91193},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -36734,9 +36734,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2895, col: 8, offset: 91351},
+																							pos: position{line: 2895, col: 8, offset: 91353},
 																							expr: &anyMatcher{
-																								line: 2895, col: 9, offset: 91352,
+																								line: 2895, col: 9, offset: 91354,
 																							},
 																						},
 																					},
@@ -36750,35 +36750,35 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1572, col: 5, offset: 50881},
+													pos:   position{line: 1572, col: 5, offset: 50883},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1515, col: 5, offset: 49231},
+														pos: position{line: 1515, col: 5, offset: 49233},
 														run: (*parser).callonListContinuationElement1607,
 														expr: &seqExpr{
-															pos: position{line: 1515, col: 5, offset: 49231},
+															pos: position{line: 1515, col: 5, offset: 49233},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1515, col: 5, offset: 49231},
+																	pos: position{line: 1515, col: 5, offset: 49233},
 																	expr: &actionExpr{
-																		pos: position{line: 676, col: 14, offset: 21496},
+																		pos: position{line: 676, col: 14, offset: 21498},
 																		run: (*parser).callonListContinuationElement1610,
 																		expr: &seqExpr{
-																			pos: position{line: 676, col: 14, offset: 21496},
+																			pos: position{line: 676, col: 14, offset: 21498},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2893, col: 11, offset: 91337},
+																					pos: position{line: 2893, col: 11, offset: 91339},
 																					expr: &anyMatcher{
-																						line: 2893, col: 13, offset: 91339,
+																						line: 2893, col: 13, offset: 91341,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 676, col: 21, offset: 21503},
+																					pos: position{line: 676, col: 21, offset: 21505},
 																					expr: &actionExpr{
-																						pos: position{line: 2876, col: 10, offset: 91003},
+																						pos: position{line: 2876, col: 10, offset: 91005},
 																						run: (*parser).callonListContinuationElement1615,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2876, col: 10, offset: 91003},
+																							pos:        position{line: 2876, col: 10, offset: 91005},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36787,28 +36787,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2898, col: 8, offset: 91401},
+																					pos: position{line: 2898, col: 8, offset: 91403},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2885, col: 12, offset: 91174},
+																							pos: position{line: 2885, col: 12, offset: 91176},
 																							run: (*parser).callonListContinuationElement1618,
 																							expr: &choiceExpr{
-																								pos: position{line: 2885, col: 13, offset: 91175},
+																								pos: position{line: 2885, col: 13, offset: 91177},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 13, offset: 91175},
+																										pos:        position{line: 2885, col: 13, offset: 91177},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 20, offset: 91182},
+																										pos:        position{line: 2885, col: 20, offset: 91184},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 29, offset: 91191},
+																										pos:        position{line: 2885, col: 29, offset: 91193},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -36817,9 +36817,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2895, col: 8, offset: 91351},
+																							pos: position{line: 2895, col: 8, offset: 91353},
 																							expr: &anyMatcher{
-																								line: 2895, col: 9, offset: 91352,
+																								line: 2895, col: 9, offset: 91354,
 																							},
 																						},
 																					},
@@ -36829,23 +36829,23 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1516, col: 5, offset: 49246},
+																	pos: position{line: 1516, col: 5, offset: 49248},
 																	expr: &seqExpr{
-																		pos: position{line: 1546, col: 27, offset: 50072},
+																		pos: position{line: 1546, col: 27, offset: 50074},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1546, col: 27, offset: 50072},
+																				pos:        position{line: 1546, col: 27, offset: 50074},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 1546, col: 31, offset: 50076},
+																				pos: position{line: 1546, col: 31, offset: 50078},
 																				expr: &actionExpr{
-																					pos: position{line: 2876, col: 10, offset: 91003},
+																					pos: position{line: 2876, col: 10, offset: 91005},
 																					run: (*parser).callonListContinuationElement1629,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2876, col: 10, offset: 91003},
+																						pos:        position{line: 2876, col: 10, offset: 91005},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -36854,25 +36854,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91174},
+																				pos: position{line: 2885, col: 12, offset: 91176},
 																				run: (*parser).callonListContinuationElement1631,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91175},
+																					pos: position{line: 2885, col: 13, offset: 91177},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91175},
+																							pos:        position{line: 2885, col: 13, offset: 91177},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91182},
+																							pos:        position{line: 2885, col: 20, offset: 91184},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91191},
+																							pos:        position{line: 2885, col: 29, offset: 91193},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -36884,20 +36884,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1517, col: 5, offset: 49274},
+																	pos: position{line: 1517, col: 5, offset: 49276},
 																	expr: &actionExpr{
-																		pos: position{line: 1587, col: 5, offset: 51291},
+																		pos: position{line: 1587, col: 5, offset: 51293},
 																		run: (*parser).callonListContinuationElement1637,
 																		expr: &seqExpr{
-																			pos: position{line: 1587, col: 5, offset: 51291},
+																			pos: position{line: 1587, col: 5, offset: 51293},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1587, col: 5, offset: 51291},
+																					pos: position{line: 1587, col: 5, offset: 51293},
 																					expr: &actionExpr{
-																						pos: position{line: 2876, col: 10, offset: 91003},
+																						pos: position{line: 2876, col: 10, offset: 91005},
 																						run: (*parser).callonListContinuationElement1640,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2876, col: 10, offset: 91003},
+																							pos:        position{line: 2876, col: 10, offset: 91005},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36906,27 +36906,27 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1587, col: 12, offset: 51298},
+																					pos:   position{line: 1587, col: 12, offset: 51300},
 																					label: "prefix",
 																					expr: &choiceExpr{
-																						pos: position{line: 1589, col: 9, offset: 51361},
+																						pos: position{line: 1589, col: 9, offset: 51363},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 1589, col: 9, offset: 51361},
+																								pos: position{line: 1589, col: 9, offset: 51363},
 																								run: (*parser).callonListContinuationElement1644,
 																								expr: &seqExpr{
-																									pos: position{line: 1589, col: 9, offset: 51361},
+																									pos: position{line: 1589, col: 9, offset: 51363},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 1589, col: 9, offset: 51361},
+																											pos:   position{line: 1589, col: 9, offset: 51363},
 																											label: "depth",
 																											expr: &actionExpr{
-																												pos: position{line: 1589, col: 16, offset: 51368},
+																												pos: position{line: 1589, col: 16, offset: 51370},
 																												run: (*parser).callonListContinuationElement1647,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1589, col: 16, offset: 51368},
+																													pos: position{line: 1589, col: 16, offset: 51370},
 																													expr: &litMatcher{
-																														pos:        position{line: 1589, col: 17, offset: 51369},
+																														pos:        position{line: 1589, col: 17, offset: 51371},
 																														val:        ".",
 																														ignoreCase: false,
 																														want:       "\".\"",
@@ -36935,22 +36935,22 @@ var g = &grammar{
 																											},
 																										},
 																										&andCodeExpr{
-																											pos: position{line: 1593, col: 9, offset: 51469},
+																											pos: position{line: 1593, col: 9, offset: 51471},
 																											run: (*parser).callonListContinuationElement1650,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1612, col: 11, offset: 52186},
+																								pos: position{line: 1612, col: 11, offset: 52188},
 																								run: (*parser).callonListContinuationElement1651,
 																								expr: &seqExpr{
-																									pos: position{line: 1612, col: 11, offset: 52186},
+																									pos: position{line: 1612, col: 11, offset: 52188},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1612, col: 11, offset: 52186},
+																											pos: position{line: 1612, col: 11, offset: 52188},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1612, col: 12, offset: 52187},
+																												pos:        position{line: 1612, col: 12, offset: 52189},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -36958,7 +36958,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1612, col: 20, offset: 52195},
+																											pos:        position{line: 1612, col: 20, offset: 52197},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -36967,20 +36967,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1614, col: 13, offset: 52312},
+																								pos: position{line: 1614, col: 13, offset: 52314},
 																								run: (*parser).callonListContinuationElement1656,
 																								expr: &seqExpr{
-																									pos: position{line: 1614, col: 13, offset: 52312},
+																									pos: position{line: 1614, col: 13, offset: 52314},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1614, col: 14, offset: 52313},
+																											pos:        position{line: 1614, col: 14, offset: 52315},
 																											val:        "[a-z]",
 																											ranges:     []rune{'a', 'z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1614, col: 21, offset: 52320},
+																											pos:        position{line: 1614, col: 21, offset: 52322},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -36989,20 +36989,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1616, col: 13, offset: 52440},
+																								pos: position{line: 1616, col: 13, offset: 52442},
 																								run: (*parser).callonListContinuationElement1660,
 																								expr: &seqExpr{
-																									pos: position{line: 1616, col: 13, offset: 52440},
+																									pos: position{line: 1616, col: 13, offset: 52442},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1616, col: 14, offset: 52441},
+																											pos:        position{line: 1616, col: 14, offset: 52443},
 																											val:        "[A-Z]",
 																											ranges:     []rune{'A', 'Z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1616, col: 21, offset: 52448},
+																											pos:        position{line: 1616, col: 21, offset: 52450},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -37011,15 +37011,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1618, col: 13, offset: 52568},
+																								pos: position{line: 1618, col: 13, offset: 52570},
 																								run: (*parser).callonListContinuationElement1664,
 																								expr: &seqExpr{
-																									pos: position{line: 1618, col: 13, offset: 52568},
+																									pos: position{line: 1618, col: 13, offset: 52570},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1618, col: 13, offset: 52568},
+																											pos: position{line: 1618, col: 13, offset: 52570},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1618, col: 14, offset: 52569},
+																												pos:        position{line: 1618, col: 14, offset: 52571},
 																												val:        "[ivxdlcm]",
 																												chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																												ignoreCase: false,
@@ -37027,7 +37027,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1618, col: 26, offset: 52581},
+																											pos:        position{line: 1618, col: 26, offset: 52583},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -37036,15 +37036,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1620, col: 13, offset: 52701},
+																								pos: position{line: 1620, col: 13, offset: 52703},
 																								run: (*parser).callonListContinuationElement1669,
 																								expr: &seqExpr{
-																									pos: position{line: 1620, col: 13, offset: 52701},
+																									pos: position{line: 1620, col: 13, offset: 52703},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1620, col: 13, offset: 52701},
+																											pos: position{line: 1620, col: 13, offset: 52703},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1620, col: 14, offset: 52702},
+																												pos:        position{line: 1620, col: 14, offset: 52704},
 																												val:        "[IVXDLCM]",
 																												chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																												ignoreCase: false,
@@ -37052,7 +37052,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1620, col: 26, offset: 52714},
+																											pos:        position{line: 1620, col: 26, offset: 52716},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -37064,12 +37064,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2880, col: 11, offset: 91064},
+																					pos: position{line: 2880, col: 11, offset: 91066},
 																					run: (*parser).callonListContinuationElement1674,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2880, col: 11, offset: 91064},
+																						pos: position{line: 2880, col: 11, offset: 91066},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2880, col: 11, offset: 91064},
+																							pos:        position{line: 2880, col: 11, offset: 91066},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37082,20 +37082,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1518, col: 5, offset: 49304},
+																	pos: position{line: 1518, col: 5, offset: 49306},
 																	expr: &actionExpr{
-																		pos: position{line: 1637, col: 5, offset: 53253},
+																		pos: position{line: 1637, col: 5, offset: 53255},
 																		run: (*parser).callonListContinuationElement1678,
 																		expr: &seqExpr{
-																			pos: position{line: 1637, col: 5, offset: 53253},
+																			pos: position{line: 1637, col: 5, offset: 53255},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1637, col: 5, offset: 53253},
+																					pos: position{line: 1637, col: 5, offset: 53255},
 																					expr: &actionExpr{
-																						pos: position{line: 2876, col: 10, offset: 91003},
+																						pos: position{line: 2876, col: 10, offset: 91005},
 																						run: (*parser).callonListContinuationElement1681,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2876, col: 10, offset: 91003},
+																							pos:        position{line: 2876, col: 10, offset: 91005},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37104,24 +37104,24 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1638, col: 5, offset: 53265},
+																					pos:   position{line: 1638, col: 5, offset: 53267},
 																					label: "style",
 																					expr: &actionExpr{
-																						pos: position{line: 1639, col: 9, offset: 53281},
+																						pos: position{line: 1639, col: 9, offset: 53283},
 																						run: (*parser).callonListContinuationElement1684,
 																						expr: &choiceExpr{
-																							pos: position{line: 1639, col: 10, offset: 53282},
+																							pos: position{line: 1639, col: 10, offset: 53284},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1639, col: 11, offset: 53283},
+																									pos:        position{line: 1639, col: 11, offset: 53285},
 																									val:        "-",
 																									ignoreCase: false,
 																									want:       "\"-\"",
 																								},
 																								&oneOrMoreExpr{
-																									pos: position{line: 1639, col: 18, offset: 53290},
+																									pos: position{line: 1639, col: 18, offset: 53292},
 																									expr: &litMatcher{
-																										pos:        position{line: 1639, col: 19, offset: 53291},
+																										pos:        position{line: 1639, col: 19, offset: 53293},
 																										val:        "*",
 																										ignoreCase: false,
 																										want:       "\"*\"",
@@ -37132,16 +37132,16 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1642, col: 7, offset: 53381},
+																					pos: position{line: 1642, col: 7, offset: 53383},
 																					run: (*parser).callonListContinuationElement1689,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2880, col: 11, offset: 91064},
+																					pos: position{line: 2880, col: 11, offset: 91066},
 																					run: (*parser).callonListContinuationElement1690,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2880, col: 11, offset: 91064},
+																						pos: position{line: 2880, col: 11, offset: 91066},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2880, col: 11, offset: 91064},
+																							pos:        position{line: 2880, col: 11, offset: 91066},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37154,29 +37154,29 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1519, col: 5, offset: 49336},
+																	pos: position{line: 1519, col: 5, offset: 49338},
 																	expr: &actionExpr{
-																		pos: position{line: 1727, col: 5, offset: 55822},
+																		pos: position{line: 1727, col: 5, offset: 55824},
 																		run: (*parser).callonListContinuationElement1694,
 																		expr: &seqExpr{
-																			pos: position{line: 1727, col: 5, offset: 55822},
+																			pos: position{line: 1727, col: 5, offset: 55824},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1727, col: 5, offset: 55822},
+																					pos:        position{line: 1727, col: 5, offset: 55824},
 																					val:        "<",
 																					ignoreCase: false,
 																					want:       "\"<\"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1727, col: 9, offset: 55826},
+																					pos:   position{line: 1727, col: 9, offset: 55828},
 																					label: "ref",
 																					expr: &actionExpr{
-																						pos: position{line: 1727, col: 14, offset: 55831},
+																						pos: position{line: 1727, col: 14, offset: 55833},
 																						run: (*parser).callonListContinuationElement1698,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 1727, col: 14, offset: 55831},
+																							pos: position{line: 1727, col: 14, offset: 55833},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1727, col: 14, offset: 55831},
+																								pos:        position{line: 1727, col: 14, offset: 55833},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -37186,18 +37186,18 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 1727, col: 62, offset: 55879},
+																					pos:        position{line: 1727, col: 62, offset: 55881},
 																					val:        ">",
 																					ignoreCase: false,
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2880, col: 11, offset: 91064},
+																					pos: position{line: 2880, col: 11, offset: 91066},
 																					run: (*parser).callonListContinuationElement1702,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2880, col: 11, offset: 91064},
+																						pos: position{line: 2880, col: 11, offset: 91066},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2880, col: 11, offset: 91064},
+																							pos:        position{line: 2880, col: 11, offset: 91066},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37210,31 +37210,31 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1520, col: 5, offset: 49366},
+																	pos: position{line: 1520, col: 5, offset: 49368},
 																	expr: &seqExpr{
-																		pos: position{line: 1520, col: 7, offset: 49368},
+																		pos: position{line: 1520, col: 7, offset: 49370},
 																		exprs: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1672, col: 5, offset: 54272},
+																				pos: position{line: 1672, col: 5, offset: 54274},
 																				run: (*parser).callonListContinuationElement1707,
 																				expr: &seqExpr{
-																					pos: position{line: 1672, col: 5, offset: 54272},
+																					pos: position{line: 1672, col: 5, offset: 54274},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1672, col: 5, offset: 54272},
+																							pos: position{line: 1672, col: 5, offset: 54274},
 																							expr: &seqExpr{
-																								pos: position{line: 2488, col: 31, offset: 80110},
+																								pos: position{line: 2488, col: 31, offset: 80112},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2488, col: 31, offset: 80110},
+																										pos:        position{line: 2488, col: 31, offset: 80112},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2488, col: 36, offset: 80115},
+																										pos: position{line: 2488, col: 36, offset: 80117},
 																										expr: &litMatcher{
-																											pos:        position{line: 2488, col: 37, offset: 80116},
+																											pos:        position{line: 2488, col: 37, offset: 80118},
 																											val:        "//",
 																											ignoreCase: false,
 																											want:       "\"//\"",
@@ -37244,28 +37244,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1673, col: 5, offset: 54304},
+																							pos: position{line: 1673, col: 5, offset: 54306},
 																							expr: &seqExpr{
-																								pos: position{line: 1673, col: 6, offset: 54305},
+																								pos: position{line: 1673, col: 6, offset: 54307},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1673, col: 6, offset: 54305},
+																										pos: position{line: 1673, col: 6, offset: 54307},
 																										expr: &actionExpr{
-																											pos: position{line: 1678, col: 5, offset: 54455},
+																											pos: position{line: 1678, col: 5, offset: 54457},
 																											run: (*parser).callonListContinuationElement1717,
 																											expr: &seqExpr{
-																												pos: position{line: 1678, col: 5, offset: 54455},
+																												pos: position{line: 1678, col: 5, offset: 54457},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1678, col: 5, offset: 54455},
+																														pos:   position{line: 1678, col: 5, offset: 54457},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1678, col: 16, offset: 54466},
+																															pos: position{line: 1678, col: 16, offset: 54468},
 																															run: (*parser).callonListContinuationElement1720,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1678, col: 16, offset: 54466},
+																																pos: position{line: 1678, col: 16, offset: 54468},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1678, col: 17, offset: 54467},
+																																	pos:        position{line: 1678, col: 17, offset: 54469},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -37274,7 +37274,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1681, col: 5, offset: 54524},
+																														pos: position{line: 1681, col: 5, offset: 54526},
 																														run: (*parser).callonListContinuationElement1723,
 																													},
 																												},
@@ -37282,30 +37282,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1673, col: 35, offset: 54334},
+																										pos: position{line: 1673, col: 35, offset: 54336},
 																										expr: &choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91401},
+																											pos: position{line: 2898, col: 8, offset: 91403},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91174},
+																													pos: position{line: 2885, col: 12, offset: 91176},
 																													run: (*parser).callonListContinuationElement1726,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91175},
+																														pos: position{line: 2885, col: 13, offset: 91177},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91175},
+																																pos:        position{line: 2885, col: 13, offset: 91177},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91182},
+																																pos:        position{line: 2885, col: 20, offset: 91184},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91191},
+																																pos:        position{line: 2885, col: 29, offset: 91193},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37314,16 +37314,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91351},
+																													pos: position{line: 2895, col: 8, offset: 91353},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91352,
+																														line: 2895, col: 9, offset: 91354,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1673, col: 40, offset: 54339,
+																										line: 1673, col: 40, offset: 54341,
 																									},
 																								},
 																							},
@@ -37332,21 +37332,21 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1678, col: 5, offset: 54455},
+																				pos: position{line: 1678, col: 5, offset: 54457},
 																				run: (*parser).callonListContinuationElement1734,
 																				expr: &seqExpr{
-																					pos: position{line: 1678, col: 5, offset: 54455},
+																					pos: position{line: 1678, col: 5, offset: 54457},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1678, col: 5, offset: 54455},
+																							pos:   position{line: 1678, col: 5, offset: 54457},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1678, col: 16, offset: 54466},
+																								pos: position{line: 1678, col: 16, offset: 54468},
 																								run: (*parser).callonListContinuationElement1737,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1678, col: 16, offset: 54466},
+																									pos: position{line: 1678, col: 16, offset: 54468},
 																									expr: &litMatcher{
-																										pos:        position{line: 1678, col: 17, offset: 54467},
+																										pos:        position{line: 1678, col: 17, offset: 54469},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -37355,7 +37355,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1681, col: 5, offset: 54524},
+																							pos: position{line: 1681, col: 5, offset: 54526},
 																							run: (*parser).callonListContinuationElement1740,
 																						},
 																					},
@@ -37365,17 +37365,17 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1521, col: 5, offset: 49424},
+																	pos: position{line: 1521, col: 5, offset: 49426},
 																	expr: &actionExpr{
-																		pos: position{line: 723, col: 5, offset: 23049},
+																		pos: position{line: 723, col: 5, offset: 23051},
 																		run: (*parser).callonListContinuationElement1742,
 																		expr: &seqExpr{
-																			pos: position{line: 723, col: 5, offset: 23049},
+																			pos: position{line: 723, col: 5, offset: 23051},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 723, col: 5, offset: 23049},
+																					pos: position{line: 723, col: 5, offset: 23051},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2766, col: 13, offset: 88077},
+																						pos:        position{line: 2766, col: 13, offset: 88079},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -37383,36 +37383,36 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 724, col: 5, offset: 23079},
+																					pos:   position{line: 724, col: 5, offset: 23081},
 																					label: "delimiter",
 																					expr: &choiceExpr{
-																						pos: position{line: 725, col: 9, offset: 23099},
+																						pos: position{line: 725, col: 9, offset: 23101},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 739, col: 5, offset: 23591},
+																								pos: position{line: 739, col: 5, offset: 23593},
 																								run: (*parser).callonListContinuationElement1748,
 																								expr: &seqExpr{
-																									pos: position{line: 739, col: 5, offset: 23591},
+																									pos: position{line: 739, col: 5, offset: 23593},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 739, col: 5, offset: 23591},
+																											pos:   position{line: 739, col: 5, offset: 23593},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 739, col: 16, offset: 23602},
+																												pos: position{line: 739, col: 16, offset: 23604},
 																												run: (*parser).callonListContinuationElement1751,
 																												expr: &seqExpr{
-																													pos: position{line: 739, col: 16, offset: 23602},
+																													pos: position{line: 739, col: 16, offset: 23604},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 739, col: 16, offset: 23602},
+																															pos:        position{line: 739, col: 16, offset: 23604},
 																															val:        "////",
 																															ignoreCase: false,
 																															want:       "\"////\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 739, col: 23, offset: 23609},
+																															pos: position{line: 739, col: 23, offset: 23611},
 																															expr: &litMatcher{
-																																pos:        position{line: 739, col: 23, offset: 23609},
+																																pos:        position{line: 739, col: 23, offset: 23611},
 																																val:        "/",
 																																ignoreCase: false,
 																																want:       "\"/\"",
@@ -37423,12 +37423,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 741, col: 8, offset: 23693},
+																											pos: position{line: 741, col: 8, offset: 23695},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 91003},
+																												pos: position{line: 2876, col: 10, offset: 91005},
 																												run: (*parser).callonListContinuationElement1757,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 91003},
+																													pos:        position{line: 2876, col: 10, offset: 91005},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37437,28 +37437,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91401},
+																											pos: position{line: 2898, col: 8, offset: 91403},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91174},
+																													pos: position{line: 2885, col: 12, offset: 91176},
 																													run: (*parser).callonListContinuationElement1760,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91175},
+																														pos: position{line: 2885, col: 13, offset: 91177},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91175},
+																																pos:        position{line: 2885, col: 13, offset: 91177},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91182},
+																																pos:        position{line: 2885, col: 20, offset: 91184},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91191},
+																																pos:        position{line: 2885, col: 29, offset: 91193},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37467,9 +37467,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91351},
+																													pos: position{line: 2895, col: 8, offset: 91353},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91352,
+																														line: 2895, col: 9, offset: 91354,
 																													},
 																												},
 																											},
@@ -37478,30 +37478,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 746, col: 5, offset: 23839},
+																								pos: position{line: 746, col: 5, offset: 23841},
 																								run: (*parser).callonListContinuationElement1767,
 																								expr: &seqExpr{
-																									pos: position{line: 746, col: 5, offset: 23839},
+																									pos: position{line: 746, col: 5, offset: 23841},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 746, col: 5, offset: 23839},
+																											pos:   position{line: 746, col: 5, offset: 23841},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 746, col: 16, offset: 23850},
+																												pos: position{line: 746, col: 16, offset: 23852},
 																												run: (*parser).callonListContinuationElement1770,
 																												expr: &seqExpr{
-																													pos: position{line: 746, col: 16, offset: 23850},
+																													pos: position{line: 746, col: 16, offset: 23852},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 746, col: 16, offset: 23850},
+																															pos:        position{line: 746, col: 16, offset: 23852},
 																															val:        "====",
 																															ignoreCase: false,
 																															want:       "\"====\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 746, col: 23, offset: 23857},
+																															pos: position{line: 746, col: 23, offset: 23859},
 																															expr: &litMatcher{
-																																pos:        position{line: 746, col: 23, offset: 23857},
+																																pos:        position{line: 746, col: 23, offset: 23859},
 																																val:        "=",
 																																ignoreCase: false,
 																																want:       "\"=\"",
@@ -37512,12 +37512,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 748, col: 8, offset: 23941},
+																											pos: position{line: 748, col: 8, offset: 23943},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 91003},
+																												pos: position{line: 2876, col: 10, offset: 91005},
 																												run: (*parser).callonListContinuationElement1776,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 91003},
+																													pos:        position{line: 2876, col: 10, offset: 91005},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37526,28 +37526,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91401},
+																											pos: position{line: 2898, col: 8, offset: 91403},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91174},
+																													pos: position{line: 2885, col: 12, offset: 91176},
 																													run: (*parser).callonListContinuationElement1779,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91175},
+																														pos: position{line: 2885, col: 13, offset: 91177},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91175},
+																																pos:        position{line: 2885, col: 13, offset: 91177},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91182},
+																																pos:        position{line: 2885, col: 20, offset: 91184},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91191},
+																																pos:        position{line: 2885, col: 29, offset: 91193},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37556,9 +37556,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91351},
+																													pos: position{line: 2895, col: 8, offset: 91353},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91352,
+																														line: 2895, col: 9, offset: 91354,
 																													},
 																												},
 																											},
@@ -37567,27 +37567,27 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 759, col: 26, offset: 24327},
+																								pos: position{line: 759, col: 26, offset: 24329},
 																								run: (*parser).callonListContinuationElement1786,
 																								expr: &seqExpr{
-																									pos: position{line: 759, col: 26, offset: 24327},
+																									pos: position{line: 759, col: 26, offset: 24329},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 759, col: 26, offset: 24327},
+																											pos:        position{line: 759, col: 26, offset: 24329},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 759, col: 32, offset: 24333},
+																											pos:   position{line: 759, col: 32, offset: 24335},
 																											label: "language",
 																											expr: &actionExpr{
-																												pos: position{line: 763, col: 13, offset: 24463},
+																												pos: position{line: 763, col: 13, offset: 24465},
 																												run: (*parser).callonListContinuationElement1790,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 763, col: 14, offset: 24464},
+																													pos: position{line: 763, col: 14, offset: 24466},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 763, col: 14, offset: 24464},
+																														pos:        position{line: 763, col: 14, offset: 24466},
 																														val:        "[^\\r\\n`\\t ]",
 																														chars:      []rune{'\r', '\n', '`', '\t', ' '},
 																														ignoreCase: false,
@@ -37597,12 +37597,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 759, col: 52, offset: 24353},
+																											pos: position{line: 759, col: 52, offset: 24355},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 91003},
+																												pos: position{line: 2876, col: 10, offset: 91005},
 																												run: (*parser).callonListContinuationElement1794,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 91003},
+																													pos:        position{line: 2876, col: 10, offset: 91005},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37611,28 +37611,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91401},
+																											pos: position{line: 2898, col: 8, offset: 91403},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91174},
+																													pos: position{line: 2885, col: 12, offset: 91176},
 																													run: (*parser).callonListContinuationElement1797,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91175},
+																														pos: position{line: 2885, col: 13, offset: 91177},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91175},
+																																pos:        position{line: 2885, col: 13, offset: 91177},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91182},
+																																pos:        position{line: 2885, col: 20, offset: 91184},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91191},
+																																pos:        position{line: 2885, col: 29, offset: 91193},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37641,9 +37641,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91351},
+																													pos: position{line: 2895, col: 8, offset: 91353},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91352,
+																														line: 2895, col: 9, offset: 91354,
 																													},
 																												},
 																											},
@@ -37652,30 +37652,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 753, col: 5, offset: 24086},
+																								pos: position{line: 753, col: 5, offset: 24088},
 																								run: (*parser).callonListContinuationElement1804,
 																								expr: &seqExpr{
-																									pos: position{line: 753, col: 5, offset: 24086},
+																									pos: position{line: 753, col: 5, offset: 24088},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 753, col: 5, offset: 24086},
+																											pos:   position{line: 753, col: 5, offset: 24088},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 753, col: 16, offset: 24097},
+																												pos: position{line: 753, col: 16, offset: 24099},
 																												run: (*parser).callonListContinuationElement1807,
 																												expr: &seqExpr{
-																													pos: position{line: 753, col: 16, offset: 24097},
+																													pos: position{line: 753, col: 16, offset: 24099},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 753, col: 16, offset: 24097},
+																															pos:        position{line: 753, col: 16, offset: 24099},
 																															val:        "```",
 																															ignoreCase: false,
 																															want:       "\"```\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 753, col: 22, offset: 24103},
+																															pos: position{line: 753, col: 22, offset: 24105},
 																															expr: &litMatcher{
-																																pos:        position{line: 753, col: 22, offset: 24103},
+																																pos:        position{line: 753, col: 22, offset: 24105},
 																																val:        "`",
 																																ignoreCase: false,
 																																want:       "\"`\"",
@@ -37686,12 +37686,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 755, col: 8, offset: 24187},
+																											pos: position{line: 755, col: 8, offset: 24189},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 91003},
+																												pos: position{line: 2876, col: 10, offset: 91005},
 																												run: (*parser).callonListContinuationElement1813,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 91003},
+																													pos:        position{line: 2876, col: 10, offset: 91005},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37700,28 +37700,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91401},
+																											pos: position{line: 2898, col: 8, offset: 91403},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91174},
+																													pos: position{line: 2885, col: 12, offset: 91176},
 																													run: (*parser).callonListContinuationElement1816,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91175},
+																														pos: position{line: 2885, col: 13, offset: 91177},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91175},
+																																pos:        position{line: 2885, col: 13, offset: 91177},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91182},
+																																pos:        position{line: 2885, col: 20, offset: 91184},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91191},
+																																pos:        position{line: 2885, col: 29, offset: 91193},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37730,9 +37730,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91351},
+																													pos: position{line: 2895, col: 8, offset: 91353},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91352,
+																														line: 2895, col: 9, offset: 91354,
 																													},
 																												},
 																											},
@@ -37741,30 +37741,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 768, col: 5, offset: 24628},
+																								pos: position{line: 768, col: 5, offset: 24630},
 																								run: (*parser).callonListContinuationElement1823,
 																								expr: &seqExpr{
-																									pos: position{line: 768, col: 5, offset: 24628},
+																									pos: position{line: 768, col: 5, offset: 24630},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 768, col: 5, offset: 24628},
+																											pos:   position{line: 768, col: 5, offset: 24630},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 768, col: 16, offset: 24639},
+																												pos: position{line: 768, col: 16, offset: 24641},
 																												run: (*parser).callonListContinuationElement1826,
 																												expr: &seqExpr{
-																													pos: position{line: 768, col: 16, offset: 24639},
+																													pos: position{line: 768, col: 16, offset: 24641},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 768, col: 16, offset: 24639},
+																															pos:        position{line: 768, col: 16, offset: 24641},
 																															val:        "----",
 																															ignoreCase: false,
 																															want:       "\"----\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 768, col: 23, offset: 24646},
+																															pos: position{line: 768, col: 23, offset: 24648},
 																															expr: &litMatcher{
-																																pos:        position{line: 768, col: 23, offset: 24646},
+																																pos:        position{line: 768, col: 23, offset: 24648},
 																																val:        "-",
 																																ignoreCase: false,
 																																want:       "\"-\"",
@@ -37775,12 +37775,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 770, col: 8, offset: 24730},
+																											pos: position{line: 770, col: 8, offset: 24732},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 91003},
+																												pos: position{line: 2876, col: 10, offset: 91005},
 																												run: (*parser).callonListContinuationElement1832,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 91003},
+																													pos:        position{line: 2876, col: 10, offset: 91005},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37789,28 +37789,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91401},
+																											pos: position{line: 2898, col: 8, offset: 91403},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91174},
+																													pos: position{line: 2885, col: 12, offset: 91176},
 																													run: (*parser).callonListContinuationElement1835,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91175},
+																														pos: position{line: 2885, col: 13, offset: 91177},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91175},
+																																pos:        position{line: 2885, col: 13, offset: 91177},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91182},
+																																pos:        position{line: 2885, col: 20, offset: 91184},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91191},
+																																pos:        position{line: 2885, col: 29, offset: 91193},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37819,9 +37819,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91351},
+																													pos: position{line: 2895, col: 8, offset: 91353},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91352,
+																														line: 2895, col: 9, offset: 91354,
 																													},
 																												},
 																											},
@@ -37830,30 +37830,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 782, col: 5, offset: 25104},
+																								pos: position{line: 782, col: 5, offset: 25106},
 																								run: (*parser).callonListContinuationElement1842,
 																								expr: &seqExpr{
-																									pos: position{line: 782, col: 5, offset: 25104},
+																									pos: position{line: 782, col: 5, offset: 25106},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 782, col: 5, offset: 25104},
+																											pos:   position{line: 782, col: 5, offset: 25106},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 782, col: 16, offset: 25115},
+																												pos: position{line: 782, col: 16, offset: 25117},
 																												run: (*parser).callonListContinuationElement1845,
 																												expr: &seqExpr{
-																													pos: position{line: 782, col: 16, offset: 25115},
+																													pos: position{line: 782, col: 16, offset: 25117},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 782, col: 16, offset: 25115},
+																															pos:        position{line: 782, col: 16, offset: 25117},
 																															val:        "....",
 																															ignoreCase: false,
 																															want:       "\"....\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 782, col: 23, offset: 25122},
+																															pos: position{line: 782, col: 23, offset: 25124},
 																															expr: &litMatcher{
-																																pos:        position{line: 782, col: 23, offset: 25122},
+																																pos:        position{line: 782, col: 23, offset: 25124},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -37864,12 +37864,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 784, col: 8, offset: 25206},
+																											pos: position{line: 784, col: 8, offset: 25208},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 91003},
+																												pos: position{line: 2876, col: 10, offset: 91005},
 																												run: (*parser).callonListContinuationElement1851,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 91003},
+																													pos:        position{line: 2876, col: 10, offset: 91005},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37878,28 +37878,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91401},
+																											pos: position{line: 2898, col: 8, offset: 91403},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91174},
+																													pos: position{line: 2885, col: 12, offset: 91176},
 																													run: (*parser).callonListContinuationElement1854,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91175},
+																														pos: position{line: 2885, col: 13, offset: 91177},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91175},
+																																pos:        position{line: 2885, col: 13, offset: 91177},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91182},
+																																pos:        position{line: 2885, col: 20, offset: 91184},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91191},
+																																pos:        position{line: 2885, col: 29, offset: 91193},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37908,9 +37908,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91351},
+																													pos: position{line: 2895, col: 8, offset: 91353},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91352,
+																														line: 2895, col: 9, offset: 91354,
 																													},
 																												},
 																											},
@@ -37919,30 +37919,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 789, col: 5, offset: 25356},
+																								pos: position{line: 789, col: 5, offset: 25358},
 																								run: (*parser).callonListContinuationElement1861,
 																								expr: &seqExpr{
-																									pos: position{line: 789, col: 5, offset: 25356},
+																									pos: position{line: 789, col: 5, offset: 25358},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 789, col: 5, offset: 25356},
+																											pos:   position{line: 789, col: 5, offset: 25358},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 789, col: 16, offset: 25367},
+																												pos: position{line: 789, col: 16, offset: 25369},
 																												run: (*parser).callonListContinuationElement1864,
 																												expr: &seqExpr{
-																													pos: position{line: 789, col: 16, offset: 25367},
+																													pos: position{line: 789, col: 16, offset: 25369},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 789, col: 16, offset: 25367},
+																															pos:        position{line: 789, col: 16, offset: 25369},
 																															val:        "++++",
 																															ignoreCase: false,
 																															want:       "\"++++\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 789, col: 23, offset: 25374},
+																															pos: position{line: 789, col: 23, offset: 25376},
 																															expr: &litMatcher{
-																																pos:        position{line: 789, col: 23, offset: 25374},
+																																pos:        position{line: 789, col: 23, offset: 25376},
 																																val:        "+",
 																																ignoreCase: false,
 																																want:       "\"+\"",
@@ -37953,12 +37953,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 791, col: 8, offset: 25458},
+																											pos: position{line: 791, col: 8, offset: 25460},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 91003},
+																												pos: position{line: 2876, col: 10, offset: 91005},
 																												run: (*parser).callonListContinuationElement1870,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 91003},
+																													pos:        position{line: 2876, col: 10, offset: 91005},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37967,28 +37967,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91401},
+																											pos: position{line: 2898, col: 8, offset: 91403},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91174},
+																													pos: position{line: 2885, col: 12, offset: 91176},
 																													run: (*parser).callonListContinuationElement1873,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91175},
+																														pos: position{line: 2885, col: 13, offset: 91177},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91175},
+																																pos:        position{line: 2885, col: 13, offset: 91177},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91182},
+																																pos:        position{line: 2885, col: 20, offset: 91184},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91191},
+																																pos:        position{line: 2885, col: 29, offset: 91193},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37997,9 +37997,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91351},
+																													pos: position{line: 2895, col: 8, offset: 91353},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91352,
+																														line: 2895, col: 9, offset: 91354,
 																													},
 																												},
 																											},
@@ -38008,30 +38008,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 796, col: 5, offset: 25606},
+																								pos: position{line: 796, col: 5, offset: 25608},
 																								run: (*parser).callonListContinuationElement1880,
 																								expr: &seqExpr{
-																									pos: position{line: 796, col: 5, offset: 25606},
+																									pos: position{line: 796, col: 5, offset: 25608},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 796, col: 5, offset: 25606},
+																											pos:   position{line: 796, col: 5, offset: 25608},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 796, col: 16, offset: 25617},
+																												pos: position{line: 796, col: 16, offset: 25619},
 																												run: (*parser).callonListContinuationElement1883,
 																												expr: &seqExpr{
-																													pos: position{line: 796, col: 16, offset: 25617},
+																													pos: position{line: 796, col: 16, offset: 25619},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 796, col: 16, offset: 25617},
+																															pos:        position{line: 796, col: 16, offset: 25619},
 																															val:        "____",
 																															ignoreCase: false,
 																															want:       "\"____\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 796, col: 23, offset: 25624},
+																															pos: position{line: 796, col: 23, offset: 25626},
 																															expr: &litMatcher{
-																																pos:        position{line: 796, col: 23, offset: 25624},
+																																pos:        position{line: 796, col: 23, offset: 25626},
 																																val:        "_",
 																																ignoreCase: false,
 																																want:       "\"_\"",
@@ -38042,12 +38042,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 798, col: 8, offset: 25708},
+																											pos: position{line: 798, col: 8, offset: 25710},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 91003},
+																												pos: position{line: 2876, col: 10, offset: 91005},
 																												run: (*parser).callonListContinuationElement1889,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 91003},
+																													pos:        position{line: 2876, col: 10, offset: 91005},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38056,28 +38056,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91401},
+																											pos: position{line: 2898, col: 8, offset: 91403},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91174},
+																													pos: position{line: 2885, col: 12, offset: 91176},
 																													run: (*parser).callonListContinuationElement1892,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91175},
+																														pos: position{line: 2885, col: 13, offset: 91177},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91175},
+																																pos:        position{line: 2885, col: 13, offset: 91177},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91182},
+																																pos:        position{line: 2885, col: 20, offset: 91184},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91191},
+																																pos:        position{line: 2885, col: 29, offset: 91193},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38086,9 +38086,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91351},
+																													pos: position{line: 2895, col: 8, offset: 91353},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91352,
+																														line: 2895, col: 9, offset: 91354,
 																													},
 																												},
 																											},
@@ -38097,30 +38097,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 803, col: 5, offset: 25852},
+																								pos: position{line: 803, col: 5, offset: 25854},
 																								run: (*parser).callonListContinuationElement1899,
 																								expr: &seqExpr{
-																									pos: position{line: 803, col: 5, offset: 25852},
+																									pos: position{line: 803, col: 5, offset: 25854},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 803, col: 5, offset: 25852},
+																											pos:   position{line: 803, col: 5, offset: 25854},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 803, col: 16, offset: 25863},
+																												pos: position{line: 803, col: 16, offset: 25865},
 																												run: (*parser).callonListContinuationElement1902,
 																												expr: &seqExpr{
-																													pos: position{line: 803, col: 16, offset: 25863},
+																													pos: position{line: 803, col: 16, offset: 25865},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 803, col: 16, offset: 25863},
+																															pos:        position{line: 803, col: 16, offset: 25865},
 																															val:        "****",
 																															ignoreCase: false,
 																															want:       "\"****\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 803, col: 23, offset: 25870},
+																															pos: position{line: 803, col: 23, offset: 25872},
 																															expr: &litMatcher{
-																																pos:        position{line: 803, col: 23, offset: 25870},
+																																pos:        position{line: 803, col: 23, offset: 25872},
 																																val:        "*",
 																																ignoreCase: false,
 																																want:       "\"*\"",
@@ -38131,12 +38131,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 805, col: 8, offset: 25954},
+																											pos: position{line: 805, col: 8, offset: 25956},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 91003},
+																												pos: position{line: 2876, col: 10, offset: 91005},
 																												run: (*parser).callonListContinuationElement1908,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 91003},
+																													pos:        position{line: 2876, col: 10, offset: 91005},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38145,28 +38145,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91401},
+																											pos: position{line: 2898, col: 8, offset: 91403},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91174},
+																													pos: position{line: 2885, col: 12, offset: 91176},
 																													run: (*parser).callonListContinuationElement1911,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91175},
+																														pos: position{line: 2885, col: 13, offset: 91177},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91175},
+																																pos:        position{line: 2885, col: 13, offset: 91177},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91182},
+																																pos:        position{line: 2885, col: 20, offset: 91184},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91191},
+																																pos:        position{line: 2885, col: 29, offset: 91193},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38175,9 +38175,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91351},
+																													pos: position{line: 2895, col: 8, offset: 91353},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91352,
+																														line: 2895, col: 9, offset: 91354,
 																													},
 																												},
 																											},
@@ -38193,15 +38193,15 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1522, col: 5, offset: 49444},
+																	pos:   position{line: 1522, col: 5, offset: 49446},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2826, col: 14, offset: 89596},
+																		pos: position{line: 2826, col: 14, offset: 89598},
 																		run: (*parser).callonListContinuationElement1919,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2826, col: 14, offset: 89596},
+																			pos: position{line: 2826, col: 14, offset: 89598},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2826, col: 14, offset: 89596},
+																				pos:        position{line: 2826, col: 14, offset: 89598},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -38211,28 +38211,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91401},
+																	pos: position{line: 2898, col: 8, offset: 91403},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91174},
+																			pos: position{line: 2885, col: 12, offset: 91176},
 																			run: (*parser).callonListContinuationElement1923,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91175},
+																				pos: position{line: 2885, col: 13, offset: 91177},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91175},
+																						pos:        position{line: 2885, col: 13, offset: 91177},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91182},
+																						pos:        position{line: 2885, col: 20, offset: 91184},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91191},
+																						pos:        position{line: 2885, col: 29, offset: 91193},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -38241,9 +38241,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91351},
+																			pos: position{line: 2895, col: 8, offset: 91353},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91352,
+																				line: 2895, col: 9, offset: 91354,
 																			},
 																		},
 																	},
@@ -38264,33 +38264,33 @@ var g = &grammar{
 		},
 		{
 			name: "Callout",
-			pos:  position{line: 1711, col: 1, offset: 55316},
+			pos:  position{line: 1711, col: 1, offset: 55318},
 			expr: &actionExpr{
-				pos: position{line: 1713, col: 5, offset: 55394},
+				pos: position{line: 1713, col: 5, offset: 55396},
 				run: (*parser).callonCallout1,
 				expr: &seqExpr{
-					pos: position{line: 1713, col: 5, offset: 55394},
+					pos: position{line: 1713, col: 5, offset: 55396},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1713, col: 5, offset: 55394},
+							pos: position{line: 1713, col: 5, offset: 55396},
 							run: (*parser).callonCallout3,
 						},
 						&litMatcher{
-							pos:        position{line: 1716, col: 5, offset: 55461},
+							pos:        position{line: 1716, col: 5, offset: 55463},
 							val:        "<",
 							ignoreCase: false,
 							want:       "\"<\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1716, col: 9, offset: 55465},
+							pos:   position{line: 1716, col: 9, offset: 55467},
 							label: "ref",
 							expr: &actionExpr{
-								pos: position{line: 1716, col: 14, offset: 55470},
+								pos: position{line: 1716, col: 14, offset: 55472},
 								run: (*parser).callonCallout6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1716, col: 14, offset: 55470},
+									pos: position{line: 1716, col: 14, offset: 55472},
 									expr: &charClassMatcher{
-										pos:        position{line: 1716, col: 14, offset: 55470},
+										pos:        position{line: 1716, col: 14, offset: 55472},
 										val:        "[0-9]",
 										ranges:     []rune{'0', '9'},
 										ignoreCase: false,
@@ -38300,18 +38300,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1716, col: 62, offset: 55518},
+							pos:        position{line: 1716, col: 62, offset: 55520},
 							val:        ">",
 							ignoreCase: false,
 							want:       "\">\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1716, col: 66, offset: 55522},
+							pos: position{line: 1716, col: 66, offset: 55524},
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 10, offset: 91003},
+								pos: position{line: 2876, col: 10, offset: 91005},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2876, col: 10, offset: 91003},
+									pos:        position{line: 2876, col: 10, offset: 91005},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -38320,30 +38320,30 @@ var g = &grammar{
 							},
 						},
 						&andExpr{
-							pos: position{line: 1716, col: 73, offset: 55529},
+							pos: position{line: 1716, col: 73, offset: 55531},
 							expr: &choiceExpr{
-								pos: position{line: 1716, col: 75, offset: 55531},
+								pos: position{line: 1716, col: 75, offset: 55533},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2885, col: 12, offset: 91174},
+										pos: position{line: 2885, col: 12, offset: 91176},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2885, col: 13, offset: 91175},
+											pos: position{line: 2885, col: 13, offset: 91177},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2885, col: 13, offset: 91175},
+													pos:        position{line: 2885, col: 13, offset: 91177},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2885, col: 20, offset: 91182},
+													pos:        position{line: 2885, col: 20, offset: 91184},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2885, col: 29, offset: 91191},
+													pos:        position{line: 2885, col: 29, offset: 91193},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -38352,13 +38352,13 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2895, col: 8, offset: 91351},
+										pos: position{line: 2895, col: 8, offset: 91353},
 										expr: &anyMatcher{
-											line: 2895, col: 9, offset: 91352,
+											line: 2895, col: 9, offset: 91354,
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1716, col: 81, offset: 55537},
+										pos:  position{line: 1716, col: 81, offset: 55539},
 										name: "Callout",
 									},
 								},
@@ -38370,44 +38370,44 @@ var g = &grammar{
 		},
 		{
 			name: "ShortcutParagraph",
-			pos:  position{line: 1755, col: 1, offset: 56714},
+			pos:  position{line: 1755, col: 1, offset: 56716},
 			expr: &actionExpr{
-				pos: position{line: 1757, col: 5, offset: 56788},
+				pos: position{line: 1757, col: 5, offset: 56790},
 				run: (*parser).callonShortcutParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1757, col: 5, offset: 56788},
+					pos: position{line: 1757, col: 5, offset: 56790},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 1757, col: 5, offset: 56788},
+							pos: position{line: 1757, col: 5, offset: 56790},
 							expr: &seqExpr{
-								pos: position{line: 1757, col: 7, offset: 56790},
+								pos: position{line: 1757, col: 7, offset: 56792},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2766, col: 13, offset: 88077},
+										pos:        position{line: 2766, col: 13, offset: 88079},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
 										inverted:   false,
 									},
 									&notExpr{
-										pos: position{line: 1757, col: 16, offset: 56799},
+										pos: position{line: 1757, col: 16, offset: 56801},
 										expr: &seqExpr{
-											pos: position{line: 1757, col: 18, offset: 56801},
+											pos: position{line: 1757, col: 18, offset: 56803},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 1757, col: 19, offset: 56802},
+													pos:        position{line: 1757, col: 19, offset: 56804},
 													val:        "[.)]",
 													chars:      []rune{'.', ')'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2880, col: 11, offset: 91064},
+													pos: position{line: 2880, col: 11, offset: 91066},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2880, col: 11, offset: 91064},
+														pos: position{line: 2880, col: 11, offset: 91066},
 														expr: &charClassMatcher{
-															pos:        position{line: 2880, col: 11, offset: 91064},
+															pos:        position{line: 2880, col: 11, offset: 91066},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -38422,88 +38422,88 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1758, col: 5, offset: 56942},
+							pos:   position{line: 1758, col: 5, offset: 56944},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1758, col: 11, offset: 56948},
+								pos: position{line: 1758, col: 11, offset: 56950},
 								expr: &actionExpr{
-									pos: position{line: 1736, col: 5, offset: 56207},
+									pos: position{line: 1736, col: 5, offset: 56209},
 									run: (*parser).callonShortcutParagraph14,
 									expr: &seqExpr{
-										pos: position{line: 1736, col: 5, offset: 56207},
+										pos: position{line: 1736, col: 5, offset: 56209},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1736, col: 5, offset: 56207},
+												pos: position{line: 1736, col: 5, offset: 56209},
 												run: (*parser).callonShortcutParagraph16,
 											},
 											&labeledExpr{
-												pos:   position{line: 1739, col: 5, offset: 56270},
+												pos:   position{line: 1739, col: 5, offset: 56272},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1739, col: 12, offset: 56277},
+													pos: position{line: 1739, col: 12, offset: 56279},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1739, col: 12, offset: 56277},
+															pos: position{line: 1739, col: 12, offset: 56279},
 															run: (*parser).callonShortcutParagraph19,
 															expr: &litMatcher{
-																pos:        position{line: 1739, col: 12, offset: 56277},
+																pos:        position{line: 1739, col: 12, offset: 56279},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1741, col: 13, offset: 56333},
+															pos: position{line: 1741, col: 13, offset: 56335},
 															run: (*parser).callonShortcutParagraph21,
 															expr: &litMatcher{
-																pos:        position{line: 1741, col: 13, offset: 56333},
+																pos:        position{line: 1741, col: 13, offset: 56335},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1743, col: 13, offset: 56391},
+															pos: position{line: 1743, col: 13, offset: 56393},
 															run: (*parser).callonShortcutParagraph23,
 															expr: &litMatcher{
-																pos:        position{line: 1743, col: 13, offset: 56391},
+																pos:        position{line: 1743, col: 13, offset: 56393},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1745, col: 13, offset: 56459},
+															pos: position{line: 1745, col: 13, offset: 56461},
 															run: (*parser).callonShortcutParagraph25,
 															expr: &litMatcher{
-																pos:        position{line: 1745, col: 13, offset: 56459},
+																pos:        position{line: 1745, col: 13, offset: 56461},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1747, col: 13, offset: 56523},
+															pos: position{line: 1747, col: 13, offset: 56525},
 															run: (*parser).callonShortcutParagraph27,
 															expr: &litMatcher{
-																pos:        position{line: 1747, col: 13, offset: 56523},
+																pos:        position{line: 1747, col: 13, offset: 56525},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1749, col: 13, offset: 56587},
+															pos: position{line: 1749, col: 13, offset: 56589},
 															run: (*parser).callonShortcutParagraph29,
 															expr: &andExpr{
-																pos: position{line: 1749, col: 13, offset: 56587},
+																pos: position{line: 1749, col: 13, offset: 56589},
 																expr: &actionExpr{
-																	pos: position{line: 2880, col: 11, offset: 91064},
+																	pos: position{line: 2880, col: 11, offset: 91066},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2880, col: 11, offset: 91064},
+																		pos: position{line: 2880, col: 11, offset: 91066},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 11, offset: 91064},
+																			pos:        position{line: 2880, col: 11, offset: 91066},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -38517,17 +38517,17 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1751, col: 12, offset: 56657},
+												pos: position{line: 1751, col: 12, offset: 56659},
 												expr: &seqExpr{
-													pos: position{line: 1751, col: 14, offset: 56659},
+													pos: position{line: 1751, col: 14, offset: 56661},
 													exprs: []interface{}{
 														&zeroOrMoreExpr{
-															pos: position{line: 1751, col: 14, offset: 56659},
+															pos: position{line: 1751, col: 14, offset: 56661},
 															expr: &actionExpr{
-																pos: position{line: 2876, col: 10, offset: 91003},
+																pos: position{line: 2876, col: 10, offset: 91005},
 																run: (*parser).callonShortcutParagraph37,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2876, col: 10, offset: 91003},
+																	pos:        position{line: 2876, col: 10, offset: 91005},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -38536,28 +38536,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2898, col: 8, offset: 91401},
+															pos: position{line: 2898, col: 8, offset: 91403},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2885, col: 12, offset: 91174},
+																	pos: position{line: 2885, col: 12, offset: 91176},
 																	run: (*parser).callonShortcutParagraph40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2885, col: 13, offset: 91175},
+																		pos: position{line: 2885, col: 13, offset: 91177},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2885, col: 13, offset: 91175},
+																				pos:        position{line: 2885, col: 13, offset: 91177},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2885, col: 20, offset: 91182},
+																				pos:        position{line: 2885, col: 20, offset: 91184},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2885, col: 29, offset: 91191},
+																				pos:        position{line: 2885, col: 29, offset: 91193},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -38566,9 +38566,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2895, col: 8, offset: 91351},
+																	pos: position{line: 2895, col: 8, offset: 91353},
 																	expr: &anyMatcher{
-																		line: 2895, col: 9, offset: 91352,
+																		line: 2895, col: 9, offset: 91354,
 																	},
 																},
 															},
@@ -38582,24 +38582,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1759, col: 5, offset: 56970},
+							pos:   position{line: 1759, col: 5, offset: 56972},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1795, col: 5, offset: 58077},
+								pos: position{line: 1795, col: 5, offset: 58079},
 								run: (*parser).callonShortcutParagraph48,
 								expr: &seqExpr{
-									pos: position{line: 1795, col: 5, offset: 58077},
+									pos: position{line: 1795, col: 5, offset: 58079},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1795, col: 5, offset: 58077},
+											pos:   position{line: 1795, col: 5, offset: 58079},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2826, col: 14, offset: 89596},
+												pos: position{line: 2826, col: 14, offset: 89598},
 												run: (*parser).callonShortcutParagraph51,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2826, col: 14, offset: 89596},
+													pos: position{line: 2826, col: 14, offset: 89598},
 													expr: &charClassMatcher{
-														pos:        position{line: 2826, col: 14, offset: 89596},
+														pos:        position{line: 2826, col: 14, offset: 89598},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -38609,32 +38609,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1796, col: 5, offset: 58101},
+											pos: position{line: 1796, col: 5, offset: 58103},
 											run: (*parser).callonShortcutParagraph54,
 										},
 										&choiceExpr{
-											pos: position{line: 2898, col: 8, offset: 91401},
+											pos: position{line: 2898, col: 8, offset: 91403},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2885, col: 12, offset: 91174},
+													pos: position{line: 2885, col: 12, offset: 91176},
 													run: (*parser).callonShortcutParagraph56,
 													expr: &choiceExpr{
-														pos: position{line: 2885, col: 13, offset: 91175},
+														pos: position{line: 2885, col: 13, offset: 91177},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2885, col: 13, offset: 91175},
+																pos:        position{line: 2885, col: 13, offset: 91177},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2885, col: 20, offset: 91182},
+																pos:        position{line: 2885, col: 20, offset: 91184},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2885, col: 29, offset: 91191},
+																pos:        position{line: 2885, col: 29, offset: 91193},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -38643,9 +38643,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2895, col: 8, offset: 91351},
+													pos: position{line: 2895, col: 8, offset: 91353},
 													expr: &anyMatcher{
-														line: 2895, col: 9, offset: 91352,
+														line: 2895, col: 9, offset: 91354,
 													},
 												},
 											},
@@ -38655,47 +38655,47 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1760, col: 5, offset: 57004},
+							pos: position{line: 1760, col: 5, offset: 57006},
 							run: (*parser).callonShortcutParagraph63,
 						},
 						&labeledExpr{
-							pos:   position{line: 1767, col: 5, offset: 57334},
+							pos:   position{line: 1767, col: 5, offset: 57336},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1767, col: 16, offset: 57345},
+								pos: position{line: 1767, col: 16, offset: 57347},
 								expr: &actionExpr{
-									pos: position{line: 1768, col: 9, offset: 57355},
+									pos: position{line: 1768, col: 9, offset: 57357},
 									run: (*parser).callonShortcutParagraph66,
 									expr: &seqExpr{
-										pos: position{line: 1768, col: 9, offset: 57355},
+										pos: position{line: 1768, col: 9, offset: 57357},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2893, col: 11, offset: 91337},
+												pos: position{line: 2893, col: 11, offset: 91339},
 												expr: &anyMatcher{
-													line: 2893, col: 13, offset: 91339,
+													line: 2893, col: 13, offset: 91341,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1769, col: 9, offset: 57371},
+												pos: position{line: 1769, col: 9, offset: 57373},
 												expr: &actionExpr{
-													pos: position{line: 676, col: 14, offset: 21496},
+													pos: position{line: 676, col: 14, offset: 21498},
 													run: (*parser).callonShortcutParagraph71,
 													expr: &seqExpr{
-														pos: position{line: 676, col: 14, offset: 21496},
+														pos: position{line: 676, col: 14, offset: 21498},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2893, col: 11, offset: 91337},
+																pos: position{line: 2893, col: 11, offset: 91339},
 																expr: &anyMatcher{
-																	line: 2893, col: 13, offset: 91339,
+																	line: 2893, col: 13, offset: 91341,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 676, col: 21, offset: 21503},
+																pos: position{line: 676, col: 21, offset: 21505},
 																expr: &actionExpr{
-																	pos: position{line: 2876, col: 10, offset: 91003},
+																	pos: position{line: 2876, col: 10, offset: 91005},
 																	run: (*parser).callonShortcutParagraph76,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2876, col: 10, offset: 91003},
+																		pos:        position{line: 2876, col: 10, offset: 91005},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -38704,28 +38704,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2898, col: 8, offset: 91401},
+																pos: position{line: 2898, col: 8, offset: 91403},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2885, col: 12, offset: 91174},
+																		pos: position{line: 2885, col: 12, offset: 91176},
 																		run: (*parser).callonShortcutParagraph79,
 																		expr: &choiceExpr{
-																			pos: position{line: 2885, col: 13, offset: 91175},
+																			pos: position{line: 2885, col: 13, offset: 91177},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 13, offset: 91175},
+																					pos:        position{line: 2885, col: 13, offset: 91177},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 20, offset: 91182},
+																					pos:        position{line: 2885, col: 20, offset: 91184},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 29, offset: 91191},
+																					pos:        position{line: 2885, col: 29, offset: 91193},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -38734,9 +38734,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91351},
+																		pos: position{line: 2895, col: 8, offset: 91353},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91352,
+																			line: 2895, col: 9, offset: 91354,
 																		},
 																	},
 																},
@@ -38746,24 +38746,24 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1770, col: 9, offset: 57390},
+												pos: position{line: 1770, col: 9, offset: 57392},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1770, col: 10, offset: 57391},
+													pos:  position{line: 1770, col: 10, offset: 57393},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1771, col: 9, offset: 57415},
+												pos: position{line: 1771, col: 9, offset: 57417},
 												expr: &actionExpr{
-													pos: position{line: 723, col: 5, offset: 23049},
+													pos: position{line: 723, col: 5, offset: 23051},
 													run: (*parser).callonShortcutParagraph89,
 													expr: &seqExpr{
-														pos: position{line: 723, col: 5, offset: 23049},
+														pos: position{line: 723, col: 5, offset: 23051},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 723, col: 5, offset: 23049},
+																pos: position{line: 723, col: 5, offset: 23051},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2766, col: 13, offset: 88077},
+																	pos:        position{line: 2766, col: 13, offset: 88079},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -38771,36 +38771,36 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 724, col: 5, offset: 23079},
+																pos:   position{line: 724, col: 5, offset: 23081},
 																label: "delimiter",
 																expr: &choiceExpr{
-																	pos: position{line: 725, col: 9, offset: 23099},
+																	pos: position{line: 725, col: 9, offset: 23101},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 739, col: 5, offset: 23591},
+																			pos: position{line: 739, col: 5, offset: 23593},
 																			run: (*parser).callonShortcutParagraph95,
 																			expr: &seqExpr{
-																				pos: position{line: 739, col: 5, offset: 23591},
+																				pos: position{line: 739, col: 5, offset: 23593},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 739, col: 5, offset: 23591},
+																						pos:   position{line: 739, col: 5, offset: 23593},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 739, col: 16, offset: 23602},
+																							pos: position{line: 739, col: 16, offset: 23604},
 																							run: (*parser).callonShortcutParagraph98,
 																							expr: &seqExpr{
-																								pos: position{line: 739, col: 16, offset: 23602},
+																								pos: position{line: 739, col: 16, offset: 23604},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 739, col: 16, offset: 23602},
+																										pos:        position{line: 739, col: 16, offset: 23604},
 																										val:        "////",
 																										ignoreCase: false,
 																										want:       "\"////\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 739, col: 23, offset: 23609},
+																										pos: position{line: 739, col: 23, offset: 23611},
 																										expr: &litMatcher{
-																											pos:        position{line: 739, col: 23, offset: 23609},
+																											pos:        position{line: 739, col: 23, offset: 23611},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -38811,12 +38811,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 741, col: 8, offset: 23693},
+																						pos: position{line: 741, col: 8, offset: 23695},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 91003},
+																							pos: position{line: 2876, col: 10, offset: 91005},
 																							run: (*parser).callonShortcutParagraph104,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 91003},
+																								pos:        position{line: 2876, col: 10, offset: 91005},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38825,28 +38825,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91401},
+																						pos: position{line: 2898, col: 8, offset: 91403},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91174},
+																								pos: position{line: 2885, col: 12, offset: 91176},
 																								run: (*parser).callonShortcutParagraph107,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91175},
+																									pos: position{line: 2885, col: 13, offset: 91177},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91175},
+																											pos:        position{line: 2885, col: 13, offset: 91177},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91182},
+																											pos:        position{line: 2885, col: 20, offset: 91184},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91191},
+																											pos:        position{line: 2885, col: 29, offset: 91193},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38855,9 +38855,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91351},
+																								pos: position{line: 2895, col: 8, offset: 91353},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91352,
+																									line: 2895, col: 9, offset: 91354,
 																								},
 																							},
 																						},
@@ -38866,30 +38866,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 746, col: 5, offset: 23839},
+																			pos: position{line: 746, col: 5, offset: 23841},
 																			run: (*parser).callonShortcutParagraph114,
 																			expr: &seqExpr{
-																				pos: position{line: 746, col: 5, offset: 23839},
+																				pos: position{line: 746, col: 5, offset: 23841},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 746, col: 5, offset: 23839},
+																						pos:   position{line: 746, col: 5, offset: 23841},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 746, col: 16, offset: 23850},
+																							pos: position{line: 746, col: 16, offset: 23852},
 																							run: (*parser).callonShortcutParagraph117,
 																							expr: &seqExpr{
-																								pos: position{line: 746, col: 16, offset: 23850},
+																								pos: position{line: 746, col: 16, offset: 23852},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 746, col: 16, offset: 23850},
+																										pos:        position{line: 746, col: 16, offset: 23852},
 																										val:        "====",
 																										ignoreCase: false,
 																										want:       "\"====\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 746, col: 23, offset: 23857},
+																										pos: position{line: 746, col: 23, offset: 23859},
 																										expr: &litMatcher{
-																											pos:        position{line: 746, col: 23, offset: 23857},
+																											pos:        position{line: 746, col: 23, offset: 23859},
 																											val:        "=",
 																											ignoreCase: false,
 																											want:       "\"=\"",
@@ -38900,12 +38900,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 748, col: 8, offset: 23941},
+																						pos: position{line: 748, col: 8, offset: 23943},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 91003},
+																							pos: position{line: 2876, col: 10, offset: 91005},
 																							run: (*parser).callonShortcutParagraph123,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 91003},
+																								pos:        position{line: 2876, col: 10, offset: 91005},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38914,28 +38914,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91401},
+																						pos: position{line: 2898, col: 8, offset: 91403},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91174},
+																								pos: position{line: 2885, col: 12, offset: 91176},
 																								run: (*parser).callonShortcutParagraph126,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91175},
+																									pos: position{line: 2885, col: 13, offset: 91177},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91175},
+																											pos:        position{line: 2885, col: 13, offset: 91177},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91182},
+																											pos:        position{line: 2885, col: 20, offset: 91184},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91191},
+																											pos:        position{line: 2885, col: 29, offset: 91193},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38944,9 +38944,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91351},
+																								pos: position{line: 2895, col: 8, offset: 91353},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91352,
+																									line: 2895, col: 9, offset: 91354,
 																								},
 																							},
 																						},
@@ -38955,27 +38955,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 759, col: 26, offset: 24327},
+																			pos: position{line: 759, col: 26, offset: 24329},
 																			run: (*parser).callonShortcutParagraph133,
 																			expr: &seqExpr{
-																				pos: position{line: 759, col: 26, offset: 24327},
+																				pos: position{line: 759, col: 26, offset: 24329},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 759, col: 26, offset: 24327},
+																						pos:        position{line: 759, col: 26, offset: 24329},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 759, col: 32, offset: 24333},
+																						pos:   position{line: 759, col: 32, offset: 24335},
 																						label: "language",
 																						expr: &actionExpr{
-																							pos: position{line: 763, col: 13, offset: 24463},
+																							pos: position{line: 763, col: 13, offset: 24465},
 																							run: (*parser).callonShortcutParagraph137,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 763, col: 14, offset: 24464},
+																								pos: position{line: 763, col: 14, offset: 24466},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 763, col: 14, offset: 24464},
+																									pos:        position{line: 763, col: 14, offset: 24466},
 																									val:        "[^\\r\\n`\\t ]",
 																									chars:      []rune{'\r', '\n', '`', '\t', ' '},
 																									ignoreCase: false,
@@ -38985,12 +38985,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 759, col: 52, offset: 24353},
+																						pos: position{line: 759, col: 52, offset: 24355},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 91003},
+																							pos: position{line: 2876, col: 10, offset: 91005},
 																							run: (*parser).callonShortcutParagraph141,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 91003},
+																								pos:        position{line: 2876, col: 10, offset: 91005},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38999,28 +38999,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91401},
+																						pos: position{line: 2898, col: 8, offset: 91403},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91174},
+																								pos: position{line: 2885, col: 12, offset: 91176},
 																								run: (*parser).callonShortcutParagraph144,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91175},
+																									pos: position{line: 2885, col: 13, offset: 91177},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91175},
+																											pos:        position{line: 2885, col: 13, offset: 91177},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91182},
+																											pos:        position{line: 2885, col: 20, offset: 91184},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91191},
+																											pos:        position{line: 2885, col: 29, offset: 91193},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39029,9 +39029,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91351},
+																								pos: position{line: 2895, col: 8, offset: 91353},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91352,
+																									line: 2895, col: 9, offset: 91354,
 																								},
 																							},
 																						},
@@ -39040,30 +39040,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 753, col: 5, offset: 24086},
+																			pos: position{line: 753, col: 5, offset: 24088},
 																			run: (*parser).callonShortcutParagraph151,
 																			expr: &seqExpr{
-																				pos: position{line: 753, col: 5, offset: 24086},
+																				pos: position{line: 753, col: 5, offset: 24088},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 753, col: 5, offset: 24086},
+																						pos:   position{line: 753, col: 5, offset: 24088},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 753, col: 16, offset: 24097},
+																							pos: position{line: 753, col: 16, offset: 24099},
 																							run: (*parser).callonShortcutParagraph154,
 																							expr: &seqExpr{
-																								pos: position{line: 753, col: 16, offset: 24097},
+																								pos: position{line: 753, col: 16, offset: 24099},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 753, col: 16, offset: 24097},
+																										pos:        position{line: 753, col: 16, offset: 24099},
 																										val:        "```",
 																										ignoreCase: false,
 																										want:       "\"```\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 753, col: 22, offset: 24103},
+																										pos: position{line: 753, col: 22, offset: 24105},
 																										expr: &litMatcher{
-																											pos:        position{line: 753, col: 22, offset: 24103},
+																											pos:        position{line: 753, col: 22, offset: 24105},
 																											val:        "`",
 																											ignoreCase: false,
 																											want:       "\"`\"",
@@ -39074,12 +39074,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 755, col: 8, offset: 24187},
+																						pos: position{line: 755, col: 8, offset: 24189},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 91003},
+																							pos: position{line: 2876, col: 10, offset: 91005},
 																							run: (*parser).callonShortcutParagraph160,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 91003},
+																								pos:        position{line: 2876, col: 10, offset: 91005},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39088,28 +39088,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91401},
+																						pos: position{line: 2898, col: 8, offset: 91403},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91174},
+																								pos: position{line: 2885, col: 12, offset: 91176},
 																								run: (*parser).callonShortcutParagraph163,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91175},
+																									pos: position{line: 2885, col: 13, offset: 91177},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91175},
+																											pos:        position{line: 2885, col: 13, offset: 91177},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91182},
+																											pos:        position{line: 2885, col: 20, offset: 91184},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91191},
+																											pos:        position{line: 2885, col: 29, offset: 91193},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39118,9 +39118,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91351},
+																								pos: position{line: 2895, col: 8, offset: 91353},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91352,
+																									line: 2895, col: 9, offset: 91354,
 																								},
 																							},
 																						},
@@ -39129,30 +39129,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 768, col: 5, offset: 24628},
+																			pos: position{line: 768, col: 5, offset: 24630},
 																			run: (*parser).callonShortcutParagraph170,
 																			expr: &seqExpr{
-																				pos: position{line: 768, col: 5, offset: 24628},
+																				pos: position{line: 768, col: 5, offset: 24630},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 768, col: 5, offset: 24628},
+																						pos:   position{line: 768, col: 5, offset: 24630},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 768, col: 16, offset: 24639},
+																							pos: position{line: 768, col: 16, offset: 24641},
 																							run: (*parser).callonShortcutParagraph173,
 																							expr: &seqExpr{
-																								pos: position{line: 768, col: 16, offset: 24639},
+																								pos: position{line: 768, col: 16, offset: 24641},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 768, col: 16, offset: 24639},
+																										pos:        position{line: 768, col: 16, offset: 24641},
 																										val:        "----",
 																										ignoreCase: false,
 																										want:       "\"----\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 768, col: 23, offset: 24646},
+																										pos: position{line: 768, col: 23, offset: 24648},
 																										expr: &litMatcher{
-																											pos:        position{line: 768, col: 23, offset: 24646},
+																											pos:        position{line: 768, col: 23, offset: 24648},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
@@ -39163,12 +39163,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 770, col: 8, offset: 24730},
+																						pos: position{line: 770, col: 8, offset: 24732},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 91003},
+																							pos: position{line: 2876, col: 10, offset: 91005},
 																							run: (*parser).callonShortcutParagraph179,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 91003},
+																								pos:        position{line: 2876, col: 10, offset: 91005},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39177,28 +39177,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91401},
+																						pos: position{line: 2898, col: 8, offset: 91403},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91174},
+																								pos: position{line: 2885, col: 12, offset: 91176},
 																								run: (*parser).callonShortcutParagraph182,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91175},
+																									pos: position{line: 2885, col: 13, offset: 91177},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91175},
+																											pos:        position{line: 2885, col: 13, offset: 91177},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91182},
+																											pos:        position{line: 2885, col: 20, offset: 91184},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91191},
+																											pos:        position{line: 2885, col: 29, offset: 91193},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39207,9 +39207,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91351},
+																								pos: position{line: 2895, col: 8, offset: 91353},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91352,
+																									line: 2895, col: 9, offset: 91354,
 																								},
 																							},
 																						},
@@ -39218,30 +39218,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 782, col: 5, offset: 25104},
+																			pos: position{line: 782, col: 5, offset: 25106},
 																			run: (*parser).callonShortcutParagraph189,
 																			expr: &seqExpr{
-																				pos: position{line: 782, col: 5, offset: 25104},
+																				pos: position{line: 782, col: 5, offset: 25106},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 782, col: 5, offset: 25104},
+																						pos:   position{line: 782, col: 5, offset: 25106},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 782, col: 16, offset: 25115},
+																							pos: position{line: 782, col: 16, offset: 25117},
 																							run: (*parser).callonShortcutParagraph192,
 																							expr: &seqExpr{
-																								pos: position{line: 782, col: 16, offset: 25115},
+																								pos: position{line: 782, col: 16, offset: 25117},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 782, col: 16, offset: 25115},
+																										pos:        position{line: 782, col: 16, offset: 25117},
 																										val:        "....",
 																										ignoreCase: false,
 																										want:       "\"....\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 782, col: 23, offset: 25122},
+																										pos: position{line: 782, col: 23, offset: 25124},
 																										expr: &litMatcher{
-																											pos:        position{line: 782, col: 23, offset: 25122},
+																											pos:        position{line: 782, col: 23, offset: 25124},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -39252,12 +39252,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 784, col: 8, offset: 25206},
+																						pos: position{line: 784, col: 8, offset: 25208},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 91003},
+																							pos: position{line: 2876, col: 10, offset: 91005},
 																							run: (*parser).callonShortcutParagraph198,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 91003},
+																								pos:        position{line: 2876, col: 10, offset: 91005},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39266,28 +39266,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91401},
+																						pos: position{line: 2898, col: 8, offset: 91403},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91174},
+																								pos: position{line: 2885, col: 12, offset: 91176},
 																								run: (*parser).callonShortcutParagraph201,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91175},
+																									pos: position{line: 2885, col: 13, offset: 91177},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91175},
+																											pos:        position{line: 2885, col: 13, offset: 91177},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91182},
+																											pos:        position{line: 2885, col: 20, offset: 91184},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91191},
+																											pos:        position{line: 2885, col: 29, offset: 91193},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39296,9 +39296,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91351},
+																								pos: position{line: 2895, col: 8, offset: 91353},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91352,
+																									line: 2895, col: 9, offset: 91354,
 																								},
 																							},
 																						},
@@ -39307,30 +39307,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 789, col: 5, offset: 25356},
+																			pos: position{line: 789, col: 5, offset: 25358},
 																			run: (*parser).callonShortcutParagraph208,
 																			expr: &seqExpr{
-																				pos: position{line: 789, col: 5, offset: 25356},
+																				pos: position{line: 789, col: 5, offset: 25358},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 789, col: 5, offset: 25356},
+																						pos:   position{line: 789, col: 5, offset: 25358},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 789, col: 16, offset: 25367},
+																							pos: position{line: 789, col: 16, offset: 25369},
 																							run: (*parser).callonShortcutParagraph211,
 																							expr: &seqExpr{
-																								pos: position{line: 789, col: 16, offset: 25367},
+																								pos: position{line: 789, col: 16, offset: 25369},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 789, col: 16, offset: 25367},
+																										pos:        position{line: 789, col: 16, offset: 25369},
 																										val:        "++++",
 																										ignoreCase: false,
 																										want:       "\"++++\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 789, col: 23, offset: 25374},
+																										pos: position{line: 789, col: 23, offset: 25376},
 																										expr: &litMatcher{
-																											pos:        position{line: 789, col: 23, offset: 25374},
+																											pos:        position{line: 789, col: 23, offset: 25376},
 																											val:        "+",
 																											ignoreCase: false,
 																											want:       "\"+\"",
@@ -39341,12 +39341,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 791, col: 8, offset: 25458},
+																						pos: position{line: 791, col: 8, offset: 25460},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 91003},
+																							pos: position{line: 2876, col: 10, offset: 91005},
 																							run: (*parser).callonShortcutParagraph217,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 91003},
+																								pos:        position{line: 2876, col: 10, offset: 91005},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39355,28 +39355,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91401},
+																						pos: position{line: 2898, col: 8, offset: 91403},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91174},
+																								pos: position{line: 2885, col: 12, offset: 91176},
 																								run: (*parser).callonShortcutParagraph220,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91175},
+																									pos: position{line: 2885, col: 13, offset: 91177},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91175},
+																											pos:        position{line: 2885, col: 13, offset: 91177},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91182},
+																											pos:        position{line: 2885, col: 20, offset: 91184},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91191},
+																											pos:        position{line: 2885, col: 29, offset: 91193},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39385,9 +39385,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91351},
+																								pos: position{line: 2895, col: 8, offset: 91353},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91352,
+																									line: 2895, col: 9, offset: 91354,
 																								},
 																							},
 																						},
@@ -39396,30 +39396,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 796, col: 5, offset: 25606},
+																			pos: position{line: 796, col: 5, offset: 25608},
 																			run: (*parser).callonShortcutParagraph227,
 																			expr: &seqExpr{
-																				pos: position{line: 796, col: 5, offset: 25606},
+																				pos: position{line: 796, col: 5, offset: 25608},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 796, col: 5, offset: 25606},
+																						pos:   position{line: 796, col: 5, offset: 25608},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 796, col: 16, offset: 25617},
+																							pos: position{line: 796, col: 16, offset: 25619},
 																							run: (*parser).callonShortcutParagraph230,
 																							expr: &seqExpr{
-																								pos: position{line: 796, col: 16, offset: 25617},
+																								pos: position{line: 796, col: 16, offset: 25619},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 796, col: 16, offset: 25617},
+																										pos:        position{line: 796, col: 16, offset: 25619},
 																										val:        "____",
 																										ignoreCase: false,
 																										want:       "\"____\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 796, col: 23, offset: 25624},
+																										pos: position{line: 796, col: 23, offset: 25626},
 																										expr: &litMatcher{
-																											pos:        position{line: 796, col: 23, offset: 25624},
+																											pos:        position{line: 796, col: 23, offset: 25626},
 																											val:        "_",
 																											ignoreCase: false,
 																											want:       "\"_\"",
@@ -39430,12 +39430,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 798, col: 8, offset: 25708},
+																						pos: position{line: 798, col: 8, offset: 25710},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 91003},
+																							pos: position{line: 2876, col: 10, offset: 91005},
 																							run: (*parser).callonShortcutParagraph236,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 91003},
+																								pos:        position{line: 2876, col: 10, offset: 91005},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39444,28 +39444,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91401},
+																						pos: position{line: 2898, col: 8, offset: 91403},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91174},
+																								pos: position{line: 2885, col: 12, offset: 91176},
 																								run: (*parser).callonShortcutParagraph239,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91175},
+																									pos: position{line: 2885, col: 13, offset: 91177},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91175},
+																											pos:        position{line: 2885, col: 13, offset: 91177},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91182},
+																											pos:        position{line: 2885, col: 20, offset: 91184},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91191},
+																											pos:        position{line: 2885, col: 29, offset: 91193},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39474,9 +39474,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91351},
+																								pos: position{line: 2895, col: 8, offset: 91353},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91352,
+																									line: 2895, col: 9, offset: 91354,
 																								},
 																							},
 																						},
@@ -39485,30 +39485,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 803, col: 5, offset: 25852},
+																			pos: position{line: 803, col: 5, offset: 25854},
 																			run: (*parser).callonShortcutParagraph246,
 																			expr: &seqExpr{
-																				pos: position{line: 803, col: 5, offset: 25852},
+																				pos: position{line: 803, col: 5, offset: 25854},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 803, col: 5, offset: 25852},
+																						pos:   position{line: 803, col: 5, offset: 25854},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 803, col: 16, offset: 25863},
+																							pos: position{line: 803, col: 16, offset: 25865},
 																							run: (*parser).callonShortcutParagraph249,
 																							expr: &seqExpr{
-																								pos: position{line: 803, col: 16, offset: 25863},
+																								pos: position{line: 803, col: 16, offset: 25865},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 803, col: 16, offset: 25863},
+																										pos:        position{line: 803, col: 16, offset: 25865},
 																										val:        "****",
 																										ignoreCase: false,
 																										want:       "\"****\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 803, col: 23, offset: 25870},
+																										pos: position{line: 803, col: 23, offset: 25872},
 																										expr: &litMatcher{
-																											pos:        position{line: 803, col: 23, offset: 25870},
+																											pos:        position{line: 803, col: 23, offset: 25872},
 																											val:        "*",
 																											ignoreCase: false,
 																											want:       "\"*\"",
@@ -39519,12 +39519,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 805, col: 8, offset: 25954},
+																						pos: position{line: 805, col: 8, offset: 25956},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 91003},
+																							pos: position{line: 2876, col: 10, offset: 91005},
 																							run: (*parser).callonShortcutParagraph255,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 91003},
+																								pos:        position{line: 2876, col: 10, offset: 91005},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39533,28 +39533,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91401},
+																						pos: position{line: 2898, col: 8, offset: 91403},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91174},
+																								pos: position{line: 2885, col: 12, offset: 91176},
 																								run: (*parser).callonShortcutParagraph258,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91175},
+																									pos: position{line: 2885, col: 13, offset: 91177},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91175},
+																											pos:        position{line: 2885, col: 13, offset: 91177},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91182},
+																											pos:        position{line: 2885, col: 20, offset: 91184},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91191},
+																											pos:        position{line: 2885, col: 29, offset: 91193},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39563,9 +39563,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91351},
+																								pos: position{line: 2895, col: 8, offset: 91353},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91352,
+																									line: 2895, col: 9, offset: 91354,
 																								},
 																							},
 																						},
@@ -39581,23 +39581,23 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1772, col: 9, offset: 57439},
+												pos: position{line: 1772, col: 9, offset: 57441},
 												expr: &seqExpr{
-													pos: position{line: 1546, col: 27, offset: 50072},
+													pos: position{line: 1546, col: 27, offset: 50074},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 1546, col: 27, offset: 50072},
+															pos:        position{line: 1546, col: 27, offset: 50074},
 															val:        "+",
 															ignoreCase: false,
 															want:       "\"+\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 1546, col: 31, offset: 50076},
+															pos: position{line: 1546, col: 31, offset: 50078},
 															expr: &actionExpr{
-																pos: position{line: 2876, col: 10, offset: 91003},
+																pos: position{line: 2876, col: 10, offset: 91005},
 																run: (*parser).callonShortcutParagraph269,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2876, col: 10, offset: 91003},
+																	pos:        position{line: 2876, col: 10, offset: 91005},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -39606,25 +39606,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91174},
+															pos: position{line: 2885, col: 12, offset: 91176},
 															run: (*parser).callonShortcutParagraph271,
 															expr: &choiceExpr{
-																pos: position{line: 2885, col: 13, offset: 91175},
+																pos: position{line: 2885, col: 13, offset: 91177},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 13, offset: 91175},
+																		pos:        position{line: 2885, col: 13, offset: 91177},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 20, offset: 91182},
+																		pos:        position{line: 2885, col: 20, offset: 91184},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 29, offset: 91191},
+																		pos:        position{line: 2885, col: 29, offset: 91193},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -39636,42 +39636,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1773, col: 9, offset: 57471},
+												pos:   position{line: 1773, col: 9, offset: 57473},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1773, col: 15, offset: 57477},
+													pos: position{line: 1773, col: 15, offset: 57479},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2483, col: 22, offset: 79889},
+															pos: position{line: 2483, col: 22, offset: 79891},
 															run: (*parser).callonShortcutParagraph278,
 															expr: &seqExpr{
-																pos: position{line: 2483, col: 22, offset: 79889},
+																pos: position{line: 2483, col: 22, offset: 79891},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2488, col: 31, offset: 80110},
+																		pos:        position{line: 2488, col: 31, offset: 80112},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2488, col: 36, offset: 80115},
+																		pos: position{line: 2488, col: 36, offset: 80117},
 																		expr: &litMatcher{
-																			pos:        position{line: 2488, col: 37, offset: 80116},
+																			pos:        position{line: 2488, col: 37, offset: 80118},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2483, col: 49, offset: 79916},
+																		pos:   position{line: 2483, col: 49, offset: 79918},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2822, col: 13, offset: 89529},
+																			pos: position{line: 2822, col: 13, offset: 89531},
 																			run: (*parser).callonShortcutParagraph284,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2822, col: 13, offset: 89529},
+																				pos: position{line: 2822, col: 13, offset: 89531},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2822, col: 13, offset: 89529},
+																					pos:        position{line: 2822, col: 13, offset: 89531},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39681,28 +39681,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91401},
+																		pos: position{line: 2898, col: 8, offset: 91403},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91174},
+																				pos: position{line: 2885, col: 12, offset: 91176},
 																				run: (*parser).callonShortcutParagraph288,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91175},
+																					pos: position{line: 2885, col: 13, offset: 91177},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91175},
+																							pos:        position{line: 2885, col: 13, offset: 91177},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91182},
+																							pos:        position{line: 2885, col: 20, offset: 91184},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91191},
+																							pos:        position{line: 2885, col: 29, offset: 91193},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39711,9 +39711,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91351},
+																				pos: position{line: 2895, col: 8, offset: 91353},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91352,
+																					line: 2895, col: 9, offset: 91354,
 																				},
 																			},
 																		},
@@ -39722,21 +39722,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1795, col: 5, offset: 58077},
+															pos: position{line: 1795, col: 5, offset: 58079},
 															run: (*parser).callonShortcutParagraph295,
 															expr: &seqExpr{
-																pos: position{line: 1795, col: 5, offset: 58077},
+																pos: position{line: 1795, col: 5, offset: 58079},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1795, col: 5, offset: 58077},
+																		pos:   position{line: 1795, col: 5, offset: 58079},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2826, col: 14, offset: 89596},
+																			pos: position{line: 2826, col: 14, offset: 89598},
 																			run: (*parser).callonShortcutParagraph298,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2826, col: 14, offset: 89596},
+																				pos: position{line: 2826, col: 14, offset: 89598},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2826, col: 14, offset: 89596},
+																					pos:        position{line: 2826, col: 14, offset: 89598},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39746,32 +39746,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1796, col: 5, offset: 58101},
+																		pos: position{line: 1796, col: 5, offset: 58103},
 																		run: (*parser).callonShortcutParagraph301,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91401},
+																		pos: position{line: 2898, col: 8, offset: 91403},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91174},
+																				pos: position{line: 2885, col: 12, offset: 91176},
 																				run: (*parser).callonShortcutParagraph303,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91175},
+																					pos: position{line: 2885, col: 13, offset: 91177},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91175},
+																							pos:        position{line: 2885, col: 13, offset: 91177},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91182},
+																							pos:        position{line: 2885, col: 20, offset: 91184},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91191},
+																							pos:        position{line: 2885, col: 29, offset: 91193},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39780,9 +39780,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91351},
+																				pos: position{line: 2895, col: 8, offset: 91353},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91352,
+																					line: 2895, col: 9, offset: 91354,
 																				},
 																			},
 																		},
@@ -39804,96 +39804,96 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraph",
-			pos:  position{line: 1780, col: 1, offset: 57681},
+			pos:  position{line: 1780, col: 1, offset: 57683},
 			expr: &actionExpr{
-				pos: position{line: 1781, col: 5, offset: 57699},
+				pos: position{line: 1781, col: 5, offset: 57701},
 				run: (*parser).callonParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1781, col: 5, offset: 57699},
+					pos: position{line: 1781, col: 5, offset: 57701},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1781, col: 5, offset: 57699},
+							pos:   position{line: 1781, col: 5, offset: 57701},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1781, col: 11, offset: 57705},
+								pos: position{line: 1781, col: 11, offset: 57707},
 								expr: &actionExpr{
-									pos: position{line: 1736, col: 5, offset: 56207},
+									pos: position{line: 1736, col: 5, offset: 56209},
 									run: (*parser).callonParagraph5,
 									expr: &seqExpr{
-										pos: position{line: 1736, col: 5, offset: 56207},
+										pos: position{line: 1736, col: 5, offset: 56209},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1736, col: 5, offset: 56207},
+												pos: position{line: 1736, col: 5, offset: 56209},
 												run: (*parser).callonParagraph7,
 											},
 											&labeledExpr{
-												pos:   position{line: 1739, col: 5, offset: 56270},
+												pos:   position{line: 1739, col: 5, offset: 56272},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1739, col: 12, offset: 56277},
+													pos: position{line: 1739, col: 12, offset: 56279},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1739, col: 12, offset: 56277},
+															pos: position{line: 1739, col: 12, offset: 56279},
 															run: (*parser).callonParagraph10,
 															expr: &litMatcher{
-																pos:        position{line: 1739, col: 12, offset: 56277},
+																pos:        position{line: 1739, col: 12, offset: 56279},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1741, col: 13, offset: 56333},
+															pos: position{line: 1741, col: 13, offset: 56335},
 															run: (*parser).callonParagraph12,
 															expr: &litMatcher{
-																pos:        position{line: 1741, col: 13, offset: 56333},
+																pos:        position{line: 1741, col: 13, offset: 56335},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1743, col: 13, offset: 56391},
+															pos: position{line: 1743, col: 13, offset: 56393},
 															run: (*parser).callonParagraph14,
 															expr: &litMatcher{
-																pos:        position{line: 1743, col: 13, offset: 56391},
+																pos:        position{line: 1743, col: 13, offset: 56393},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1745, col: 13, offset: 56459},
+															pos: position{line: 1745, col: 13, offset: 56461},
 															run: (*parser).callonParagraph16,
 															expr: &litMatcher{
-																pos:        position{line: 1745, col: 13, offset: 56459},
+																pos:        position{line: 1745, col: 13, offset: 56461},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1747, col: 13, offset: 56523},
+															pos: position{line: 1747, col: 13, offset: 56525},
 															run: (*parser).callonParagraph18,
 															expr: &litMatcher{
-																pos:        position{line: 1747, col: 13, offset: 56523},
+																pos:        position{line: 1747, col: 13, offset: 56525},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1749, col: 13, offset: 56587},
+															pos: position{line: 1749, col: 13, offset: 56589},
 															run: (*parser).callonParagraph20,
 															expr: &andExpr{
-																pos: position{line: 1749, col: 13, offset: 56587},
+																pos: position{line: 1749, col: 13, offset: 56589},
 																expr: &actionExpr{
-																	pos: position{line: 2880, col: 11, offset: 91064},
+																	pos: position{line: 2880, col: 11, offset: 91066},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2880, col: 11, offset: 91064},
+																		pos: position{line: 2880, col: 11, offset: 91066},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 11, offset: 91064},
+																			pos:        position{line: 2880, col: 11, offset: 91066},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -39907,17 +39907,17 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1751, col: 12, offset: 56657},
+												pos: position{line: 1751, col: 12, offset: 56659},
 												expr: &seqExpr{
-													pos: position{line: 1751, col: 14, offset: 56659},
+													pos: position{line: 1751, col: 14, offset: 56661},
 													exprs: []interface{}{
 														&zeroOrMoreExpr{
-															pos: position{line: 1751, col: 14, offset: 56659},
+															pos: position{line: 1751, col: 14, offset: 56661},
 															expr: &actionExpr{
-																pos: position{line: 2876, col: 10, offset: 91003},
+																pos: position{line: 2876, col: 10, offset: 91005},
 																run: (*parser).callonParagraph28,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2876, col: 10, offset: 91003},
+																	pos:        position{line: 2876, col: 10, offset: 91005},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -39926,28 +39926,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2898, col: 8, offset: 91401},
+															pos: position{line: 2898, col: 8, offset: 91403},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2885, col: 12, offset: 91174},
+																	pos: position{line: 2885, col: 12, offset: 91176},
 																	run: (*parser).callonParagraph31,
 																	expr: &choiceExpr{
-																		pos: position{line: 2885, col: 13, offset: 91175},
+																		pos: position{line: 2885, col: 13, offset: 91177},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2885, col: 13, offset: 91175},
+																				pos:        position{line: 2885, col: 13, offset: 91177},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2885, col: 20, offset: 91182},
+																				pos:        position{line: 2885, col: 20, offset: 91184},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2885, col: 29, offset: 91191},
+																				pos:        position{line: 2885, col: 29, offset: 91193},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -39956,9 +39956,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2895, col: 8, offset: 91351},
+																	pos: position{line: 2895, col: 8, offset: 91353},
 																	expr: &anyMatcher{
-																		line: 2895, col: 9, offset: 91352,
+																		line: 2895, col: 9, offset: 91354,
 																	},
 																},
 															},
@@ -39972,24 +39972,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1782, col: 5, offset: 57728},
+							pos:   position{line: 1782, col: 5, offset: 57730},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1795, col: 5, offset: 58077},
+								pos: position{line: 1795, col: 5, offset: 58079},
 								run: (*parser).callonParagraph39,
 								expr: &seqExpr{
-									pos: position{line: 1795, col: 5, offset: 58077},
+									pos: position{line: 1795, col: 5, offset: 58079},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1795, col: 5, offset: 58077},
+											pos:   position{line: 1795, col: 5, offset: 58079},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2826, col: 14, offset: 89596},
+												pos: position{line: 2826, col: 14, offset: 89598},
 												run: (*parser).callonParagraph42,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2826, col: 14, offset: 89596},
+													pos: position{line: 2826, col: 14, offset: 89598},
 													expr: &charClassMatcher{
-														pos:        position{line: 2826, col: 14, offset: 89596},
+														pos:        position{line: 2826, col: 14, offset: 89598},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -39999,32 +39999,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1796, col: 5, offset: 58101},
+											pos: position{line: 1796, col: 5, offset: 58103},
 											run: (*parser).callonParagraph45,
 										},
 										&choiceExpr{
-											pos: position{line: 2898, col: 8, offset: 91401},
+											pos: position{line: 2898, col: 8, offset: 91403},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2885, col: 12, offset: 91174},
+													pos: position{line: 2885, col: 12, offset: 91176},
 													run: (*parser).callonParagraph47,
 													expr: &choiceExpr{
-														pos: position{line: 2885, col: 13, offset: 91175},
+														pos: position{line: 2885, col: 13, offset: 91177},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2885, col: 13, offset: 91175},
+																pos:        position{line: 2885, col: 13, offset: 91177},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2885, col: 20, offset: 91182},
+																pos:        position{line: 2885, col: 20, offset: 91184},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2885, col: 29, offset: 91191},
+																pos:        position{line: 2885, col: 29, offset: 91193},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -40033,9 +40033,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2895, col: 8, offset: 91351},
+													pos: position{line: 2895, col: 8, offset: 91353},
 													expr: &anyMatcher{
-														line: 2895, col: 9, offset: 91352,
+														line: 2895, col: 9, offset: 91354,
 													},
 												},
 											},
@@ -40045,43 +40045,43 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1783, col: 5, offset: 57762},
+							pos:   position{line: 1783, col: 5, offset: 57764},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1783, col: 16, offset: 57773},
+								pos: position{line: 1783, col: 16, offset: 57775},
 								expr: &actionExpr{
-									pos: position{line: 1784, col: 9, offset: 57783},
+									pos: position{line: 1784, col: 9, offset: 57785},
 									run: (*parser).callonParagraph56,
 									expr: &seqExpr{
-										pos: position{line: 1784, col: 9, offset: 57783},
+										pos: position{line: 1784, col: 9, offset: 57785},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2893, col: 11, offset: 91337},
+												pos: position{line: 2893, col: 11, offset: 91339},
 												expr: &anyMatcher{
-													line: 2893, col: 13, offset: 91339,
+													line: 2893, col: 13, offset: 91341,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1785, col: 9, offset: 57798},
+												pos: position{line: 1785, col: 9, offset: 57800},
 												expr: &actionExpr{
-													pos: position{line: 676, col: 14, offset: 21496},
+													pos: position{line: 676, col: 14, offset: 21498},
 													run: (*parser).callonParagraph61,
 													expr: &seqExpr{
-														pos: position{line: 676, col: 14, offset: 21496},
+														pos: position{line: 676, col: 14, offset: 21498},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2893, col: 11, offset: 91337},
+																pos: position{line: 2893, col: 11, offset: 91339},
 																expr: &anyMatcher{
-																	line: 2893, col: 13, offset: 91339,
+																	line: 2893, col: 13, offset: 91341,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 676, col: 21, offset: 21503},
+																pos: position{line: 676, col: 21, offset: 21505},
 																expr: &actionExpr{
-																	pos: position{line: 2876, col: 10, offset: 91003},
+																	pos: position{line: 2876, col: 10, offset: 91005},
 																	run: (*parser).callonParagraph66,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2876, col: 10, offset: 91003},
+																		pos:        position{line: 2876, col: 10, offset: 91005},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -40090,28 +40090,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2898, col: 8, offset: 91401},
+																pos: position{line: 2898, col: 8, offset: 91403},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2885, col: 12, offset: 91174},
+																		pos: position{line: 2885, col: 12, offset: 91176},
 																		run: (*parser).callonParagraph69,
 																		expr: &choiceExpr{
-																			pos: position{line: 2885, col: 13, offset: 91175},
+																			pos: position{line: 2885, col: 13, offset: 91177},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 13, offset: 91175},
+																					pos:        position{line: 2885, col: 13, offset: 91177},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 20, offset: 91182},
+																					pos:        position{line: 2885, col: 20, offset: 91184},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 29, offset: 91191},
+																					pos:        position{line: 2885, col: 29, offset: 91193},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -40120,9 +40120,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91351},
+																		pos: position{line: 2895, col: 8, offset: 91353},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91352,
+																			line: 2895, col: 9, offset: 91354,
 																		},
 																	},
 																},
@@ -40132,49 +40132,49 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1786, col: 9, offset: 57817},
+												pos: position{line: 1786, col: 9, offset: 57819},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1786, col: 10, offset: 57818},
+													pos:  position{line: 1786, col: 10, offset: 57820},
 													name: "BlockAttributes",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1787, col: 9, offset: 57842},
+												pos:   position{line: 1787, col: 9, offset: 57844},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1787, col: 15, offset: 57848},
+													pos: position{line: 1787, col: 15, offset: 57850},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2483, col: 22, offset: 79889},
+															pos: position{line: 2483, col: 22, offset: 79891},
 															run: (*parser).callonParagraph80,
 															expr: &seqExpr{
-																pos: position{line: 2483, col: 22, offset: 79889},
+																pos: position{line: 2483, col: 22, offset: 79891},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2488, col: 31, offset: 80110},
+																		pos:        position{line: 2488, col: 31, offset: 80112},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2488, col: 36, offset: 80115},
+																		pos: position{line: 2488, col: 36, offset: 80117},
 																		expr: &litMatcher{
-																			pos:        position{line: 2488, col: 37, offset: 80116},
+																			pos:        position{line: 2488, col: 37, offset: 80118},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2483, col: 49, offset: 79916},
+																		pos:   position{line: 2483, col: 49, offset: 79918},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2822, col: 13, offset: 89529},
+																			pos: position{line: 2822, col: 13, offset: 89531},
 																			run: (*parser).callonParagraph86,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2822, col: 13, offset: 89529},
+																				pos: position{line: 2822, col: 13, offset: 89531},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2822, col: 13, offset: 89529},
+																					pos:        position{line: 2822, col: 13, offset: 89531},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40184,28 +40184,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91401},
+																		pos: position{line: 2898, col: 8, offset: 91403},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91174},
+																				pos: position{line: 2885, col: 12, offset: 91176},
 																				run: (*parser).callonParagraph90,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91175},
+																					pos: position{line: 2885, col: 13, offset: 91177},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91175},
+																							pos:        position{line: 2885, col: 13, offset: 91177},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91182},
+																							pos:        position{line: 2885, col: 20, offset: 91184},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91191},
+																							pos:        position{line: 2885, col: 29, offset: 91193},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40214,9 +40214,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91351},
+																				pos: position{line: 2895, col: 8, offset: 91353},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91352,
+																					line: 2895, col: 9, offset: 91354,
 																				},
 																			},
 																		},
@@ -40225,21 +40225,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1795, col: 5, offset: 58077},
+															pos: position{line: 1795, col: 5, offset: 58079},
 															run: (*parser).callonParagraph97,
 															expr: &seqExpr{
-																pos: position{line: 1795, col: 5, offset: 58077},
+																pos: position{line: 1795, col: 5, offset: 58079},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1795, col: 5, offset: 58077},
+																		pos:   position{line: 1795, col: 5, offset: 58079},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2826, col: 14, offset: 89596},
+																			pos: position{line: 2826, col: 14, offset: 89598},
 																			run: (*parser).callonParagraph100,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2826, col: 14, offset: 89596},
+																				pos: position{line: 2826, col: 14, offset: 89598},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2826, col: 14, offset: 89596},
+																					pos:        position{line: 2826, col: 14, offset: 89598},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40249,32 +40249,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1796, col: 5, offset: 58101},
+																		pos: position{line: 1796, col: 5, offset: 58103},
 																		run: (*parser).callonParagraph103,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91401},
+																		pos: position{line: 2898, col: 8, offset: 91403},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91174},
+																				pos: position{line: 2885, col: 12, offset: 91176},
 																				run: (*parser).callonParagraph105,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91175},
+																					pos: position{line: 2885, col: 13, offset: 91177},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91175},
+																							pos:        position{line: 2885, col: 13, offset: 91177},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91182},
+																							pos:        position{line: 2885, col: 20, offset: 91184},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91191},
+																							pos:        position{line: 2885, col: 29, offset: 91193},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40283,9 +40283,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91351},
+																				pos: position{line: 2895, col: 8, offset: 91353},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91352,
+																					line: 2895, col: 9, offset: 91354,
 																				},
 																			},
 																		},
@@ -40307,16 +40307,16 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedText",
-			pos:  position{line: 1806, col: 1, offset: 58583},
+			pos:  position{line: 1806, col: 1, offset: 58585},
 			expr: &choiceExpr{
-				pos: position{line: 1806, col: 15, offset: 58597},
+				pos: position{line: 1806, col: 15, offset: 58599},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1806, col: 15, offset: 58597},
+						pos:  position{line: 1806, col: 15, offset: 58599},
 						name: "EscapedQuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1806, col: 35, offset: 58617},
+						pos:  position{line: 1806, col: 35, offset: 58619},
 						name: "UnescapedQuotedText",
 					},
 				},
@@ -40324,65 +40324,65 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedQuotedText",
-			pos:  position{line: 1808, col: 1, offset: 58638},
+			pos:  position{line: 1808, col: 1, offset: 58640},
 			expr: &actionExpr{
-				pos: position{line: 1809, col: 5, offset: 58663},
+				pos: position{line: 1809, col: 5, offset: 58665},
 				run: (*parser).callonEscapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1809, col: 5, offset: 58663},
+					pos: position{line: 1809, col: 5, offset: 58665},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1809, col: 5, offset: 58663},
+							pos:   position{line: 1809, col: 5, offset: 58665},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1809, col: 16, offset: 58674},
+								pos: position{line: 1809, col: 16, offset: 58676},
 								expr: &actionExpr{
-									pos: position{line: 1809, col: 17, offset: 58675},
+									pos: position{line: 1809, col: 17, offset: 58677},
 									run: (*parser).callonEscapedQuotedText5,
 									expr: &ruleRefExpr{
-										pos:  position{line: 1809, col: 17, offset: 58675},
+										pos:  position{line: 1809, col: 17, offset: 58677},
 										name: "LongHandAttributes",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 1812, col: 5, offset: 58743},
+							pos: position{line: 1812, col: 5, offset: 58745},
 							expr: &litMatcher{
-								pos:        position{line: 1812, col: 7, offset: 58745},
+								pos:        position{line: 1812, col: 7, offset: 58747},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1813, col: 5, offset: 58754},
+							pos:   position{line: 1813, col: 5, offset: 58756},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1814, col: 9, offset: 58772},
+								pos: position{line: 1814, col: 9, offset: 58774},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1814, col: 9, offset: 58772},
+										pos:  position{line: 1814, col: 9, offset: 58774},
 										name: "EscapedBoldText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1815, col: 11, offset: 58799},
+										pos:  position{line: 1815, col: 11, offset: 58801},
 										name: "EscapedItalicText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1816, col: 11, offset: 58827},
+										pos:  position{line: 1816, col: 11, offset: 58829},
 										name: "EscapedMonospaceText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1817, col: 11, offset: 58858},
+										pos:  position{line: 1817, col: 11, offset: 58860},
 										name: "EscapedMarkedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1818, col: 11, offset: 58886},
+										pos:  position{line: 1818, col: 11, offset: 58888},
 										name: "EscapedSubscriptText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1819, col: 11, offset: 58917},
+										pos:  position{line: 1819, col: 11, offset: 58919},
 										name: "EscapedSuperscriptText",
 									},
 								},
@@ -40394,36 +40394,36 @@ var g = &grammar{
 		},
 		{
 			name: "UnescapedQuotedText",
-			pos:  position{line: 1824, col: 1, offset: 59037},
+			pos:  position{line: 1824, col: 1, offset: 59039},
 			expr: &actionExpr{
-				pos: position{line: 1825, col: 5, offset: 59079},
+				pos: position{line: 1825, col: 5, offset: 59081},
 				run: (*parser).callonUnescapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1825, col: 5, offset: 59079},
+					pos: position{line: 1825, col: 5, offset: 59081},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1825, col: 5, offset: 59079},
+							pos:   position{line: 1825, col: 5, offset: 59081},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1825, col: 16, offset: 59090},
+								pos: position{line: 1825, col: 16, offset: 59092},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1825, col: 17, offset: 59091},
+									pos:  position{line: 1825, col: 17, offset: 59093},
 									name: "LongHandAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1826, col: 5, offset: 59116},
+							pos:   position{line: 1826, col: 5, offset: 59118},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1826, col: 14, offset: 59125},
+								pos: position{line: 1826, col: 14, offset: 59127},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1826, col: 14, offset: 59125},
+										pos:  position{line: 1826, col: 14, offset: 59127},
 										name: "SingleQuotedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1826, col: 33, offset: 59144},
+										pos:  position{line: 1826, col: 33, offset: 59146},
 										name: "DoubleQuotedText",
 									},
 								},
@@ -40435,32 +40435,32 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedText",
-			pos:  position{line: 1834, col: 1, offset: 59375},
+			pos:  position{line: 1834, col: 1, offset: 59377},
 			expr: &choiceExpr{
-				pos: position{line: 1835, col: 5, offset: 59400},
+				pos: position{line: 1835, col: 5, offset: 59402},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1835, col: 5, offset: 59400},
+						pos:  position{line: 1835, col: 5, offset: 59402},
 						name: "SingleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1836, col: 7, offset: 59427},
+						pos:  position{line: 1836, col: 7, offset: 59429},
 						name: "SingleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1837, col: 7, offset: 59455},
+						pos:  position{line: 1837, col: 7, offset: 59457},
 						name: "SingleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1838, col: 7, offset: 59487},
+						pos:  position{line: 1838, col: 7, offset: 59489},
 						name: "SingleQuoteMarkedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1839, col: 7, offset: 59515},
+						pos:  position{line: 1839, col: 7, offset: 59517},
 						name: "SubscriptText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1840, col: 7, offset: 59536},
+						pos:  position{line: 1840, col: 7, offset: 59538},
 						name: "SuperscriptText",
 					},
 				},
@@ -40468,24 +40468,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedText",
-			pos:  position{line: 1842, col: 1, offset: 59554},
+			pos:  position{line: 1842, col: 1, offset: 59556},
 			expr: &choiceExpr{
-				pos: position{line: 1843, col: 5, offset: 59579},
+				pos: position{line: 1843, col: 5, offset: 59581},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1843, col: 5, offset: 59579},
+						pos:  position{line: 1843, col: 5, offset: 59581},
 						name: "DoubleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1844, col: 7, offset: 59605},
+						pos:  position{line: 1844, col: 7, offset: 59607},
 						name: "DoubleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1845, col: 7, offset: 59633},
+						pos:  position{line: 1845, col: 7, offset: 59635},
 						name: "DoubleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1846, col: 7, offset: 59664},
+						pos:  position{line: 1846, col: 7, offset: 59666},
 						name: "DoubleQuoteMarkedText",
 					},
 				},
@@ -40493,26 +40493,26 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedTextElement",
-			pos:  position{line: 1860, col: 1, offset: 60018},
+			pos:  position{line: 1860, col: 1, offset: 60020},
 			expr: &choiceExpr{
-				pos: position{line: 1861, col: 5, offset: 60044},
+				pos: position{line: 1861, col: 5, offset: 60046},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2775, col: 5, offset: 88224},
+						pos: position{line: 2775, col: 5, offset: 88226},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2775, col: 5, offset: 88224},
+							pos: position{line: 2775, col: 5, offset: 88226},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2775, col: 5, offset: 88224},
+									pos:   position{line: 2775, col: 5, offset: 88226},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2775, col: 11, offset: 88230},
+										pos: position{line: 2775, col: 11, offset: 88232},
 										run: (*parser).callonQuotedTextElement5,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2775, col: 11, offset: 88230},
+											pos: position{line: 2775, col: 11, offset: 88232},
 											expr: &charClassMatcher{
-												pos:        position{line: 2775, col: 11, offset: 88230},
+												pos:        position{line: 2775, col: 11, offset: 88232},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40522,44 +40522,44 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2778, col: 5, offset: 88288},
+									pos: position{line: 2778, col: 5, offset: 88290},
 									expr: &seqExpr{
-										pos: position{line: 2779, col: 9, offset: 88299},
+										pos: position{line: 2779, col: 9, offset: 88301},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2779, col: 9, offset: 88299},
+												pos:        position{line: 2779, col: 9, offset: 88301},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2780, col: 9, offset: 88348},
+												pos: position{line: 2780, col: 9, offset: 88350},
 												run: (*parser).callonQuotedTextElement11,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2784, col: 5, offset: 88428},
+									pos: position{line: 2784, col: 5, offset: 88430},
 									expr: &seqExpr{
-										pos: position{line: 2785, col: 9, offset: 88439},
+										pos: position{line: 2785, col: 9, offset: 88441},
 										exprs: []interface{}{
 											&zeroOrMoreExpr{
-												pos: position{line: 2785, col: 9, offset: 88439},
+												pos: position{line: 2785, col: 9, offset: 88441},
 												expr: &seqExpr{
-													pos: position{line: 2785, col: 10, offset: 88440},
+													pos: position{line: 2785, col: 10, offset: 88442},
 													exprs: []interface{}{
 														&charClassMatcher{
-															pos:        position{line: 2785, col: 10, offset: 88440},
+															pos:        position{line: 2785, col: 10, offset: 88442},
 															val:        "[._%+-]",
 															chars:      []rune{'.', '_', '%', '+', '-'},
 															ignoreCase: false,
 															inverted:   false,
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2785, col: 18, offset: 88448},
+															pos: position{line: 2785, col: 18, offset: 88450},
 															expr: &charClassMatcher{
-																pos:        position{line: 2785, col: 18, offset: 88448},
+																pos:        position{line: 2785, col: 18, offset: 88450},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -40570,13 +40570,13 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 2785, col: 30, offset: 88460},
+												pos:        position{line: 2785, col: 30, offset: 88462},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2785, col: 34, offset: 88464},
+												pos:        position{line: 2785, col: 34, offset: 88466},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40589,12 +40589,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2880, col: 11, offset: 91064},
+						pos: position{line: 2880, col: 11, offset: 91066},
 						run: (*parser).callonQuotedTextElement21,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2880, col: 11, offset: 91064},
+							pos: position{line: 2880, col: 11, offset: 91066},
 							expr: &charClassMatcher{
-								pos:        position{line: 2880, col: 11, offset: 91064},
+								pos:        position{line: 2880, col: 11, offset: 91066},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -40603,29 +40603,29 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1863, col: 7, offset: 60107},
+						pos:  position{line: 1863, col: 7, offset: 60109},
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2501, col: 5, offset: 80606},
+						pos: position{line: 2501, col: 5, offset: 80608},
 						run: (*parser).callonQuotedTextElement25,
 						expr: &seqExpr{
-							pos: position{line: 2501, col: 5, offset: 80606},
+							pos: position{line: 2501, col: 5, offset: 80608},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2501, col: 5, offset: 80606},
+									pos: position{line: 2501, col: 5, offset: 80608},
 									run: (*parser).callonQuotedTextElement27,
 								},
 								&litMatcher{
-									pos:        position{line: 2504, col: 5, offset: 80677},
+									pos:        position{line: 2504, col: 5, offset: 80679},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2504, col: 10, offset: 80682},
+									pos: position{line: 2504, col: 10, offset: 80684},
 									expr: &charClassMatcher{
-										pos:        position{line: 2504, col: 11, offset: 80683},
+										pos:        position{line: 2504, col: 11, offset: 80685},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -40636,29 +40636,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2510, col: 5, offset: 80875},
+						pos: position{line: 2510, col: 5, offset: 80877},
 						run: (*parser).callonQuotedTextElement31,
 						expr: &seqExpr{
-							pos: position{line: 2510, col: 5, offset: 80875},
+							pos: position{line: 2510, col: 5, offset: 80877},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2510, col: 5, offset: 80875},
+									pos: position{line: 2510, col: 5, offset: 80877},
 									run: (*parser).callonQuotedTextElement33,
 								},
 								&andCodeExpr{
-									pos: position{line: 2513, col: 5, offset: 80946},
+									pos: position{line: 2513, col: 5, offset: 80948},
 									run: (*parser).callonQuotedTextElement34,
 								},
 								&litMatcher{
-									pos:        position{line: 2517, col: 5, offset: 81071},
+									pos:        position{line: 2517, col: 5, offset: 81073},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2517, col: 9, offset: 81075},
+									pos: position{line: 2517, col: 9, offset: 81077},
 									expr: &charClassMatcher{
-										pos:        position{line: 2517, col: 10, offset: 81076},
+										pos:        position{line: 2517, col: 10, offset: 81078},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -40669,27 +40669,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2793, col: 5, offset: 88657},
+						pos: position{line: 2793, col: 5, offset: 88659},
 						run: (*parser).callonQuotedTextElement38,
 						expr: &choiceExpr{
-							pos: position{line: 2794, col: 9, offset: 88667},
+							pos: position{line: 2794, col: 9, offset: 88669},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2794, col: 10, offset: 88668},
+									pos:        position{line: 2794, col: 10, offset: 88670},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2796, col: 13, offset: 88765},
+									pos: position{line: 2796, col: 13, offset: 88767},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2796, col: 13, offset: 88765},
+											pos: position{line: 2796, col: 13, offset: 88767},
 											run: (*parser).callonQuotedTextElement42,
 										},
 										&litMatcher{
-											pos:        position{line: 2799, col: 13, offset: 88865},
+											pos:        position{line: 2799, col: 13, offset: 88867},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -40697,20 +40697,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2799, col: 19, offset: 88871},
+									pos:        position{line: 2799, col: 19, offset: 88873},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2802, col: 13, offset: 88909},
+									pos: position{line: 2802, col: 13, offset: 88911},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2802, col: 13, offset: 88909},
+											pos: position{line: 2802, col: 13, offset: 88911},
 											run: (*parser).callonQuotedTextElement46,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2805, col: 14, offset: 89002},
+											pos:        position{line: 2805, col: 14, offset: 89004},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -40719,18 +40719,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2807, col: 12, offset: 89046},
+									pos: position{line: 2807, col: 12, offset: 89048},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2807, col: 12, offset: 89046},
+											pos:        position{line: 2807, col: 12, offset: 89048},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2807, col: 16, offset: 89050},
+											pos: position{line: 2807, col: 16, offset: 89052},
 											expr: &litMatcher{
-												pos:        position{line: 2807, col: 17, offset: 89051},
+												pos:        position{line: 2807, col: 17, offset: 89053},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -40913,28 +40913,28 @@ var g = &grammar{
 															expr: &zeroOrOneExpr{
 																pos: position{line: 657, col: 62, offset: 20835},
 																expr: &actionExpr{
-																	pos: position{line: 665, col: 17, offset: 21130},
+																	pos: position{line: 665, col: 17, offset: 21132},
 																	run: (*parser).callonQuotedTextElement88,
 																	expr: &seqExpr{
-																		pos: position{line: 665, col: 17, offset: 21130},
+																		pos: position{line: 665, col: 17, offset: 21132},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 665, col: 17, offset: 21130},
+																				pos:        position{line: 665, col: 17, offset: 21132},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 665, col: 21, offset: 21134},
+																				pos:   position{line: 665, col: 21, offset: 21136},
 																				label: "start",
 																				expr: &choiceExpr{
-																					pos: position{line: 665, col: 28, offset: 21141},
+																					pos: position{line: 665, col: 28, offset: 21143},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 665, col: 28, offset: 21141},
+																							pos: position{line: 665, col: 28, offset: 21143},
 																							run: (*parser).callonQuotedTextElement93,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 665, col: 28, offset: 21141},
+																								pos:        position{line: 665, col: 28, offset: 21143},
 																								val:        "[A-Za-z]",
 																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																								ignoreCase: false,
@@ -40942,12 +40942,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 667, col: 9, offset: 21195},
+																							pos: position{line: 667, col: 9, offset: 21197},
 																							run: (*parser).callonQuotedTextElement95,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 667, col: 9, offset: 21195},
+																								pos: position{line: 667, col: 9, offset: 21197},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 667, col: 9, offset: 21195},
+																									pos:        position{line: 667, col: 9, offset: 21197},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -41022,28 +41022,28 @@ var g = &grammar{
 															expr: &zeroOrOneExpr{
 																pos: position{line: 661, col: 63, offset: 21007},
 																expr: &actionExpr{
-																	pos: position{line: 665, col: 17, offset: 21130},
+																	pos: position{line: 665, col: 17, offset: 21132},
 																	run: (*parser).callonQuotedTextElement110,
 																	expr: &seqExpr{
-																		pos: position{line: 665, col: 17, offset: 21130},
+																		pos: position{line: 665, col: 17, offset: 21132},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 665, col: 17, offset: 21130},
+																				pos:        position{line: 665, col: 17, offset: 21132},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 665, col: 21, offset: 21134},
+																				pos:   position{line: 665, col: 21, offset: 21136},
 																				label: "start",
 																				expr: &choiceExpr{
-																					pos: position{line: 665, col: 28, offset: 21141},
+																					pos: position{line: 665, col: 28, offset: 21143},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 665, col: 28, offset: 21141},
+																							pos: position{line: 665, col: 28, offset: 21143},
 																							run: (*parser).callonQuotedTextElement115,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 665, col: 28, offset: 21141},
+																								pos:        position{line: 665, col: 28, offset: 21143},
 																								val:        "[A-Za-z]",
 																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																								ignoreCase: false,
@@ -41051,12 +41051,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 667, col: 9, offset: 21195},
+																							pos: position{line: 667, col: 9, offset: 21197},
 																							run: (*parser).callonQuotedTextElement117,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 667, col: 9, offset: 21195},
+																								pos: position{line: 667, col: 9, offset: 21197},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 667, col: 9, offset: 21195},
+																									pos:        position{line: 667, col: 9, offset: 21197},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -41088,31 +41088,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2889, col: 18, offset: 91274},
+						pos: position{line: 2889, col: 18, offset: 91276},
 						run: (*parser).callonQuotedTextElement121,
 						expr: &seqExpr{
-							pos: position{line: 2889, col: 18, offset: 91274},
+							pos: position{line: 2889, col: 18, offset: 91276},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2885, col: 12, offset: 91174},
+									pos: position{line: 2885, col: 12, offset: 91176},
 									run: (*parser).callonQuotedTextElement123,
 									expr: &choiceExpr{
-										pos: position{line: 2885, col: 13, offset: 91175},
+										pos: position{line: 2885, col: 13, offset: 91177},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2885, col: 13, offset: 91175},
+												pos:        position{line: 2885, col: 13, offset: 91177},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 20, offset: 91182},
+												pos:        position{line: 2885, col: 20, offset: 91184},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 29, offset: 91191},
+												pos:        position{line: 2885, col: 29, offset: 91193},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -41121,27 +41121,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2889, col: 26, offset: 91282},
+									pos: position{line: 2889, col: 26, offset: 91284},
 									expr: &actionExpr{
-										pos: position{line: 2885, col: 12, offset: 91174},
+										pos: position{line: 2885, col: 12, offset: 91176},
 										run: (*parser).callonQuotedTextElement129,
 										expr: &choiceExpr{
-											pos: position{line: 2885, col: 13, offset: 91175},
+											pos: position{line: 2885, col: 13, offset: 91177},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2885, col: 13, offset: 91175},
+													pos:        position{line: 2885, col: 13, offset: 91177},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2885, col: 20, offset: 91182},
+													pos:        position{line: 2885, col: 20, offset: 91184},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2885, col: 29, offset: 91191},
+													pos:        position{line: 2885, col: 29, offset: 91193},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -41154,31 +41154,31 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1868, col: 7, offset: 60274},
+						pos:  position{line: 1868, col: 7, offset: 60276},
 						name: "QuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1869, col: 7, offset: 60321},
+						pos:  position{line: 1869, col: 7, offset: 60323},
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2470, col: 5, offset: 79435},
+						pos: position{line: 2470, col: 5, offset: 79437},
 						run: (*parser).callonQuotedTextElement136,
 						expr: &seqExpr{
-							pos: position{line: 2470, col: 5, offset: 79435},
+							pos: position{line: 2470, col: 5, offset: 79437},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2470, col: 5, offset: 79435},
+									pos: position{line: 2470, col: 5, offset: 79437},
 									run: (*parser).callonQuotedTextElement138,
 								},
 								&labeledExpr{
-									pos:   position{line: 2473, col: 5, offset: 79511},
+									pos:   position{line: 2473, col: 5, offset: 79513},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2474, col: 9, offset: 79529},
+										pos: position{line: 2474, col: 9, offset: 79531},
 										run: (*parser).callonQuotedTextElement140,
 										expr: &charClassMatcher{
-											pos:        position{line: 2474, col: 10, offset: 79530},
+											pos:        position{line: 2474, col: 10, offset: 79532},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -41190,27 +41190,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1197, col: 23, offset: 36984},
+						pos: position{line: 1197, col: 23, offset: 36986},
 						run: (*parser).callonQuotedTextElement142,
 						expr: &seqExpr{
-							pos: position{line: 1197, col: 23, offset: 36984},
+							pos: position{line: 1197, col: 23, offset: 36986},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1195, col: 32, offset: 36952},
+									pos:        position{line: 1195, col: 32, offset: 36954},
 									val:        "�",
 									ignoreCase: false,
 									want:       "\"�\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1197, col: 51, offset: 37012},
+									pos:   position{line: 1197, col: 51, offset: 37014},
 									label: "ref",
 									expr: &actionExpr{
-										pos: position{line: 1197, col: 56, offset: 37017},
+										pos: position{line: 1197, col: 56, offset: 37019},
 										run: (*parser).callonQuotedTextElement146,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1197, col: 56, offset: 37017},
+											pos: position{line: 1197, col: 56, offset: 37019},
 											expr: &charClassMatcher{
-												pos:        position{line: 1197, col: 56, offset: 37017},
+												pos:        position{line: 1197, col: 56, offset: 37019},
 												val:        "[0-9]",
 												ranges:     []rune{'0', '9'},
 												ignoreCase: false,
@@ -41220,23 +41220,23 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1195, col: 32, offset: 36952},
+									pos:        position{line: 1195, col: 32, offset: 36954},
 									val:        "�",
 									ignoreCase: false,
 									want:       "\"�\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 1198, col: 5, offset: 37089},
+									pos: position{line: 1198, col: 5, offset: 37091},
 									run: (*parser).callonQuotedTextElement150,
 								},
 							},
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2815, col: 12, offset: 89311},
+						pos: position{line: 2815, col: 12, offset: 89313},
 						run: (*parser).callonQuotedTextElement151,
 						expr: &charClassMatcher{
-							pos:        position{line: 2815, col: 12, offset: 89311},
+							pos:        position{line: 2815, col: 12, offset: 89313},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -41248,29 +41248,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldText",
-			pos:  position{line: 1887, col: 1, offset: 60791},
+			pos:  position{line: 1887, col: 1, offset: 60793},
 			expr: &actionExpr{
-				pos: position{line: 1888, col: 5, offset: 60819},
+				pos: position{line: 1888, col: 5, offset: 60821},
 				run: (*parser).callonDoubleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1888, col: 5, offset: 60819},
+					pos: position{line: 1888, col: 5, offset: 60821},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1883, col: 38, offset: 60744},
+							pos:        position{line: 1883, col: 38, offset: 60746},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1889, col: 5, offset: 60858},
+							pos:   position{line: 1889, col: 5, offset: 60860},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1889, col: 15, offset: 60868},
+								pos:  position{line: 1889, col: 15, offset: 60870},
 								name: "DoubleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1885, col: 36, offset: 60785},
+							pos:        position{line: 1885, col: 36, offset: 60787},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
@@ -41281,44 +41281,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElements",
-			pos:  position{line: 1894, col: 1, offset: 61028},
+			pos:  position{line: 1894, col: 1, offset: 61030},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1894, col: 32, offset: 61059},
+				pos: position{line: 1894, col: 32, offset: 61061},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1894, col: 32, offset: 61059},
+					pos:  position{line: 1894, col: 32, offset: 61061},
 					name: "DoubleQuoteBoldTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteBoldTextElement",
-			pos:  position{line: 1896, col: 1, offset: 61090},
+			pos:  position{line: 1896, col: 1, offset: 61092},
 			expr: &actionExpr{
-				pos: position{line: 1897, col: 5, offset: 61125},
+				pos: position{line: 1897, col: 5, offset: 61127},
 				run: (*parser).callonDoubleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1897, col: 5, offset: 61125},
+					pos: position{line: 1897, col: 5, offset: 61127},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2893, col: 11, offset: 91337},
+							pos: position{line: 2893, col: 11, offset: 91339},
 							expr: &anyMatcher{
-								line: 2893, col: 13, offset: 91339,
+								line: 2893, col: 13, offset: 91341,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1898, col: 5, offset: 61136},
+							pos: position{line: 1898, col: 5, offset: 61138},
 							expr: &litMatcher{
-								pos:        position{line: 1885, col: 36, offset: 60785},
+								pos:        position{line: 1885, col: 36, offset: 60787},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1899, col: 5, offset: 61173},
+							pos:   position{line: 1899, col: 5, offset: 61175},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1899, col: 14, offset: 61182},
+								pos:  position{line: 1899, col: 14, offset: 61184},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41328,29 +41328,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldText",
-			pos:  position{line: 1924, col: 1, offset: 61862},
+			pos:  position{line: 1924, col: 1, offset: 61864},
 			expr: &actionExpr{
-				pos: position{line: 1925, col: 5, offset: 61890},
+				pos: position{line: 1925, col: 5, offset: 61892},
 				run: (*parser).callonSingleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1925, col: 5, offset: 61890},
+					pos: position{line: 1925, col: 5, offset: 61892},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1908, col: 5, offset: 61416},
+							pos:        position{line: 1908, col: 5, offset: 61418},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1909, col: 5, offset: 61425},
+							pos: position{line: 1909, col: 5, offset: 61427},
 							run: (*parser).callonSingleQuoteBoldText4,
 						},
 						&andExpr{
-							pos: position{line: 1913, col: 5, offset: 61543},
+							pos: position{line: 1913, col: 5, offset: 61545},
 							expr: &notExpr{
-								pos: position{line: 1913, col: 7, offset: 61545},
+								pos: position{line: 1913, col: 7, offset: 61547},
 								expr: &litMatcher{
-									pos:        position{line: 1913, col: 8, offset: 61546},
+									pos:        position{line: 1913, col: 8, offset: 61548},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41358,38 +41358,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1926, col: 5, offset: 61928},
+							pos:   position{line: 1926, col: 5, offset: 61930},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1926, col: 15, offset: 61938},
+								pos:  position{line: 1926, col: 15, offset: 61940},
 								name: "SingleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1916, col: 5, offset: 61666},
+							pos:        position{line: 1916, col: 5, offset: 61668},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&notExpr{
-							pos: position{line: 1917, col: 5, offset: 61675},
+							pos: position{line: 1917, col: 5, offset: 61677},
 							expr: &litMatcher{
-								pos:        position{line: 1917, col: 6, offset: 61676},
+								pos:        position{line: 1917, col: 6, offset: 61678},
 								val:        "*",
 								ignoreCase: false,
 								want:       "\"*\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1918, col: 5, offset: 61739},
+							pos: position{line: 1918, col: 5, offset: 61741},
 							run: (*parser).callonSingleQuoteBoldText13,
 						},
 						&andExpr{
-							pos: position{line: 1922, col: 5, offset: 61848},
+							pos: position{line: 1922, col: 5, offset: 61850},
 							expr: &notExpr{
-								pos: position{line: 1922, col: 7, offset: 61850},
+								pos: position{line: 1922, col: 7, offset: 61852},
 								expr: &charClassMatcher{
-									pos:        position{line: 2766, col: 13, offset: 88077},
+									pos:        position{line: 2766, col: 13, offset: 88079},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -41403,20 +41403,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElements",
-			pos:  position{line: 1931, col: 1, offset: 62098},
+			pos:  position{line: 1931, col: 1, offset: 62100},
 			expr: &actionExpr{
-				pos: position{line: 1932, col: 5, offset: 62135},
+				pos: position{line: 1932, col: 5, offset: 62137},
 				run: (*parser).callonSingleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1932, col: 5, offset: 62135},
+					pos: position{line: 1932, col: 5, offset: 62137},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1932, col: 5, offset: 62135},
+							pos: position{line: 1932, col: 5, offset: 62137},
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 10, offset: 91003},
+								pos: position{line: 2876, col: 10, offset: 91005},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2876, col: 10, offset: 91003},
+									pos:        position{line: 2876, col: 10, offset: 91005},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41425,18 +41425,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1933, col: 5, offset: 62174},
+							pos:   position{line: 1933, col: 5, offset: 62176},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1933, col: 14, offset: 62183},
+								pos: position{line: 1933, col: 14, offset: 62185},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1933, col: 15, offset: 62184},
+									pos:  position{line: 1933, col: 15, offset: 62186},
 									name: "SingleQuoteBoldTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1934, col: 5, offset: 62218},
+							pos: position{line: 1934, col: 5, offset: 62220},
 							run: (*parser).callonSingleQuoteBoldTextElements9,
 						},
 					},
@@ -41445,49 +41445,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElement",
-			pos:  position{line: 1940, col: 1, offset: 62359},
+			pos:  position{line: 1940, col: 1, offset: 62361},
 			expr: &actionExpr{
-				pos: position{line: 1941, col: 5, offset: 62394},
+				pos: position{line: 1941, col: 5, offset: 62396},
 				run: (*parser).callonSingleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1941, col: 5, offset: 62394},
+					pos: position{line: 1941, col: 5, offset: 62396},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2893, col: 11, offset: 91337},
+							pos: position{line: 2893, col: 11, offset: 91339},
 							expr: &anyMatcher{
-								line: 2893, col: 13, offset: 91339,
+								line: 2893, col: 13, offset: 91341,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1942, col: 5, offset: 62422},
+							pos: position{line: 1942, col: 5, offset: 62424},
 							expr: &seqExpr{
-								pos: position{line: 1916, col: 5, offset: 61666},
+								pos: position{line: 1916, col: 5, offset: 61668},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1916, col: 5, offset: 61666},
+										pos:        position{line: 1916, col: 5, offset: 61668},
 										val:        "*",
 										ignoreCase: false,
 										want:       "\"*\"",
 									},
 									&notExpr{
-										pos: position{line: 1917, col: 5, offset: 61675},
+										pos: position{line: 1917, col: 5, offset: 61677},
 										expr: &litMatcher{
-											pos:        position{line: 1917, col: 6, offset: 61676},
+											pos:        position{line: 1917, col: 6, offset: 61678},
 											val:        "*",
 											ignoreCase: false,
 											want:       "\"*\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1918, col: 5, offset: 61739},
+										pos: position{line: 1918, col: 5, offset: 61741},
 										run: (*parser).callonSingleQuoteBoldTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 1922, col: 5, offset: 61848},
+										pos: position{line: 1922, col: 5, offset: 61850},
 										expr: &notExpr{
-											pos: position{line: 1922, col: 7, offset: 61850},
+											pos: position{line: 1922, col: 7, offset: 61852},
 											expr: &charClassMatcher{
-												pos:        position{line: 2766, col: 13, offset: 88077},
+												pos:        position{line: 2766, col: 13, offset: 88079},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41499,10 +41499,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1943, col: 5, offset: 62459},
+							pos:   position{line: 1943, col: 5, offset: 62461},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1943, col: 14, offset: 62468},
+								pos:  position{line: 1943, col: 14, offset: 62470},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41512,35 +41512,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedBoldText",
-			pos:  position{line: 1948, col: 1, offset: 62556},
+			pos:  position{line: 1948, col: 1, offset: 62558},
 			expr: &choiceExpr{
-				pos: position{line: 1950, col: 5, offset: 62617},
+				pos: position{line: 1950, col: 5, offset: 62619},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1950, col: 5, offset: 62617},
+						pos: position{line: 1950, col: 5, offset: 62619},
 						run: (*parser).callonEscapedBoldText2,
 						expr: &seqExpr{
-							pos: position{line: 1950, col: 5, offset: 62617},
+							pos: position{line: 1950, col: 5, offset: 62619},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1950, col: 5, offset: 62617},
+									pos:   position{line: 1950, col: 5, offset: 62619},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1856, col: 25, offset: 59964},
+										pos: position{line: 1856, col: 25, offset: 59966},
 										run: (*parser).callonEscapedBoldText5,
 										expr: &seqExpr{
-											pos: position{line: 1856, col: 25, offset: 59964},
+											pos: position{line: 1856, col: 25, offset: 59966},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1856, col: 25, offset: 59964},
+													pos:        position{line: 1856, col: 25, offset: 59966},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1856, col: 30, offset: 59969},
+													pos: position{line: 1856, col: 30, offset: 59971},
 													expr: &litMatcher{
-														pos:        position{line: 1856, col: 30, offset: 59969},
+														pos:        position{line: 1856, col: 30, offset: 59971},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -41551,21 +41551,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1950, col: 40, offset: 62652},
+									pos:        position{line: 1950, col: 40, offset: 62654},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1950, col: 45, offset: 62657},
+									pos:   position{line: 1950, col: 45, offset: 62659},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1950, col: 55, offset: 62667},
+										pos:  position{line: 1950, col: 55, offset: 62669},
 										name: "DoubleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1950, col: 84, offset: 62696},
+									pos:        position{line: 1950, col: 84, offset: 62698},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
@@ -41574,21 +41574,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1954, col: 7, offset: 62860},
+						pos: position{line: 1954, col: 7, offset: 62862},
 						run: (*parser).callonEscapedBoldText14,
 						expr: &seqExpr{
-							pos: position{line: 1954, col: 7, offset: 62860},
+							pos: position{line: 1954, col: 7, offset: 62862},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1954, col: 7, offset: 62860},
+									pos:   position{line: 1954, col: 7, offset: 62862},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1852, col: 25, offset: 59891},
+										pos: position{line: 1852, col: 25, offset: 59893},
 										run: (*parser).callonEscapedBoldText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1852, col: 25, offset: 59891},
+											pos: position{line: 1852, col: 25, offset: 59893},
 											expr: &litMatcher{
-												pos:        position{line: 1852, col: 25, offset: 59891},
+												pos:        position{line: 1852, col: 25, offset: 59893},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41597,21 +41597,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1954, col: 42, offset: 62895},
+									pos:        position{line: 1954, col: 42, offset: 62897},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1954, col: 47, offset: 62900},
+									pos:   position{line: 1954, col: 47, offset: 62902},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1954, col: 57, offset: 62910},
+										pos:  position{line: 1954, col: 57, offset: 62912},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1954, col: 86, offset: 62939},
+									pos:        position{line: 1954, col: 86, offset: 62941},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41620,21 +41620,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1959, col: 7, offset: 63141},
+						pos: position{line: 1959, col: 7, offset: 63143},
 						run: (*parser).callonEscapedBoldText24,
 						expr: &seqExpr{
-							pos: position{line: 1959, col: 7, offset: 63141},
+							pos: position{line: 1959, col: 7, offset: 63143},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1959, col: 7, offset: 63141},
+									pos:   position{line: 1959, col: 7, offset: 63143},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1852, col: 25, offset: 59891},
+										pos: position{line: 1852, col: 25, offset: 59893},
 										run: (*parser).callonEscapedBoldText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1852, col: 25, offset: 59891},
+											pos: position{line: 1852, col: 25, offset: 59893},
 											expr: &litMatcher{
-												pos:        position{line: 1852, col: 25, offset: 59891},
+												pos:        position{line: 1852, col: 25, offset: 59893},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41643,21 +41643,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1959, col: 42, offset: 63176},
+									pos:        position{line: 1959, col: 42, offset: 63178},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1959, col: 46, offset: 63180},
+									pos:   position{line: 1959, col: 46, offset: 63182},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1959, col: 56, offset: 63190},
+										pos:  position{line: 1959, col: 56, offset: 63192},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1959, col: 85, offset: 63219},
+									pos:        position{line: 1959, col: 85, offset: 63221},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41670,29 +41670,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicText",
-			pos:  position{line: 1976, col: 1, offset: 63699},
+			pos:  position{line: 1976, col: 1, offset: 63701},
 			expr: &actionExpr{
-				pos: position{line: 1977, col: 5, offset: 63729},
+				pos: position{line: 1977, col: 5, offset: 63731},
 				run: (*parser).callonDoubleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 1977, col: 5, offset: 63729},
+					pos: position{line: 1977, col: 5, offset: 63731},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1972, col: 40, offset: 63650},
+							pos:        position{line: 1972, col: 40, offset: 63652},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1978, col: 5, offset: 63770},
+							pos:   position{line: 1978, col: 5, offset: 63772},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1978, col: 15, offset: 63780},
+								pos:  position{line: 1978, col: 15, offset: 63782},
 								name: "DoubleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1974, col: 38, offset: 63693},
+							pos:        position{line: 1974, col: 38, offset: 63695},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
@@ -41703,44 +41703,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElements",
-			pos:  position{line: 1983, col: 1, offset: 63945},
+			pos:  position{line: 1983, col: 1, offset: 63947},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1983, col: 34, offset: 63978},
+				pos: position{line: 1983, col: 34, offset: 63980},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1983, col: 34, offset: 63978},
+					pos:  position{line: 1983, col: 34, offset: 63980},
 					name: "DoubleQuoteItalicTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteItalicTextElement",
-			pos:  position{line: 1985, col: 1, offset: 64010},
+			pos:  position{line: 1985, col: 1, offset: 64012},
 			expr: &actionExpr{
-				pos: position{line: 1986, col: 5, offset: 64047},
+				pos: position{line: 1986, col: 5, offset: 64049},
 				run: (*parser).callonDoubleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1986, col: 5, offset: 64047},
+					pos: position{line: 1986, col: 5, offset: 64049},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2893, col: 11, offset: 91337},
+							pos: position{line: 2893, col: 11, offset: 91339},
 							expr: &anyMatcher{
-								line: 2893, col: 13, offset: 91339,
+								line: 2893, col: 13, offset: 91341,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1987, col: 5, offset: 64058},
+							pos: position{line: 1987, col: 5, offset: 64060},
 							expr: &litMatcher{
-								pos:        position{line: 1974, col: 38, offset: 63693},
+								pos:        position{line: 1974, col: 38, offset: 63695},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1988, col: 5, offset: 64097},
+							pos:   position{line: 1988, col: 5, offset: 64099},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1988, col: 14, offset: 64106},
+								pos:  position{line: 1988, col: 14, offset: 64108},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41750,29 +41750,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicText",
-			pos:  position{line: 2014, col: 1, offset: 64790},
+			pos:  position{line: 2014, col: 1, offset: 64792},
 			expr: &actionExpr{
-				pos: position{line: 2015, col: 5, offset: 64820},
+				pos: position{line: 2015, col: 5, offset: 64822},
 				run: (*parser).callonSingleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2015, col: 5, offset: 64820},
+					pos: position{line: 2015, col: 5, offset: 64822},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1997, col: 5, offset: 64348},
+							pos:        position{line: 1997, col: 5, offset: 64350},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1998, col: 5, offset: 64357},
+							pos: position{line: 1998, col: 5, offset: 64359},
 							run: (*parser).callonSingleQuoteItalicText4,
 						},
 						&andExpr{
-							pos: position{line: 2002, col: 5, offset: 64477},
+							pos: position{line: 2002, col: 5, offset: 64479},
 							expr: &notExpr{
-								pos: position{line: 2002, col: 7, offset: 64479},
+								pos: position{line: 2002, col: 7, offset: 64481},
 								expr: &litMatcher{
-									pos:        position{line: 2002, col: 8, offset: 64480},
+									pos:        position{line: 2002, col: 8, offset: 64482},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -41780,38 +41780,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2016, col: 5, offset: 64860},
+							pos:   position{line: 2016, col: 5, offset: 64862},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2016, col: 15, offset: 64870},
+								pos:  position{line: 2016, col: 15, offset: 64872},
 								name: "SingleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2006, col: 5, offset: 64590},
+							pos:        position{line: 2006, col: 5, offset: 64592},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&notExpr{
-							pos: position{line: 2007, col: 5, offset: 64599},
+							pos: position{line: 2007, col: 5, offset: 64601},
 							expr: &litMatcher{
-								pos:        position{line: 2007, col: 6, offset: 64600},
+								pos:        position{line: 2007, col: 6, offset: 64602},
 								val:        "_",
 								ignoreCase: false,
 								want:       "\"_\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2008, col: 5, offset: 64665},
+							pos: position{line: 2008, col: 5, offset: 64667},
 							run: (*parser).callonSingleQuoteItalicText13,
 						},
 						&andExpr{
-							pos: position{line: 2012, col: 5, offset: 64776},
+							pos: position{line: 2012, col: 5, offset: 64778},
 							expr: &notExpr{
-								pos: position{line: 2012, col: 7, offset: 64778},
+								pos: position{line: 2012, col: 7, offset: 64780},
 								expr: &charClassMatcher{
-									pos:        position{line: 2766, col: 13, offset: 88077},
+									pos:        position{line: 2766, col: 13, offset: 88079},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -41825,20 +41825,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElements",
-			pos:  position{line: 2021, col: 1, offset: 65037},
+			pos:  position{line: 2021, col: 1, offset: 65039},
 			expr: &actionExpr{
-				pos: position{line: 2022, col: 5, offset: 65075},
+				pos: position{line: 2022, col: 5, offset: 65077},
 				run: (*parser).callonSingleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2022, col: 5, offset: 65075},
+					pos: position{line: 2022, col: 5, offset: 65077},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2022, col: 5, offset: 65075},
+							pos: position{line: 2022, col: 5, offset: 65077},
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 10, offset: 91003},
+								pos: position{line: 2876, col: 10, offset: 91005},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2876, col: 10, offset: 91003},
+									pos:        position{line: 2876, col: 10, offset: 91005},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41847,18 +41847,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2023, col: 5, offset: 65114},
+							pos:   position{line: 2023, col: 5, offset: 65116},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2023, col: 14, offset: 65123},
+								pos: position{line: 2023, col: 14, offset: 65125},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2023, col: 15, offset: 65124},
+									pos:  position{line: 2023, col: 15, offset: 65126},
 									name: "SingleQuoteItalicTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2024, col: 5, offset: 65159},
+							pos: position{line: 2024, col: 5, offset: 65161},
 							run: (*parser).callonSingleQuoteItalicTextElements9,
 						},
 					},
@@ -41867,49 +41867,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElement",
-			pos:  position{line: 2030, col: 1, offset: 65300},
+			pos:  position{line: 2030, col: 1, offset: 65302},
 			expr: &actionExpr{
-				pos: position{line: 2031, col: 5, offset: 65337},
+				pos: position{line: 2031, col: 5, offset: 65339},
 				run: (*parser).callonSingleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2031, col: 5, offset: 65337},
+					pos: position{line: 2031, col: 5, offset: 65339},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2893, col: 11, offset: 91337},
+							pos: position{line: 2893, col: 11, offset: 91339},
 							expr: &anyMatcher{
-								line: 2893, col: 13, offset: 91339,
+								line: 2893, col: 13, offset: 91341,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2032, col: 5, offset: 65348},
+							pos: position{line: 2032, col: 5, offset: 65350},
 							expr: &seqExpr{
-								pos: position{line: 2006, col: 5, offset: 64590},
+								pos: position{line: 2006, col: 5, offset: 64592},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2006, col: 5, offset: 64590},
+										pos:        position{line: 2006, col: 5, offset: 64592},
 										val:        "_",
 										ignoreCase: false,
 										want:       "\"_\"",
 									},
 									&notExpr{
-										pos: position{line: 2007, col: 5, offset: 64599},
+										pos: position{line: 2007, col: 5, offset: 64601},
 										expr: &litMatcher{
-											pos:        position{line: 2007, col: 6, offset: 64600},
+											pos:        position{line: 2007, col: 6, offset: 64602},
 											val:        "_",
 											ignoreCase: false,
 											want:       "\"_\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2008, col: 5, offset: 64665},
+										pos: position{line: 2008, col: 5, offset: 64667},
 										run: (*parser).callonSingleQuoteItalicTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2012, col: 5, offset: 64776},
+										pos: position{line: 2012, col: 5, offset: 64778},
 										expr: &notExpr{
-											pos: position{line: 2012, col: 7, offset: 64778},
+											pos: position{line: 2012, col: 7, offset: 64780},
 											expr: &charClassMatcher{
-												pos:        position{line: 2766, col: 13, offset: 88077},
+												pos:        position{line: 2766, col: 13, offset: 88079},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41921,10 +41921,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2033, col: 5, offset: 65387},
+							pos:   position{line: 2033, col: 5, offset: 65389},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2033, col: 14, offset: 65396},
+								pos:  position{line: 2033, col: 14, offset: 65398},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41934,35 +41934,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedItalicText",
-			pos:  position{line: 2038, col: 1, offset: 65484},
+			pos:  position{line: 2038, col: 1, offset: 65486},
 			expr: &choiceExpr{
-				pos: position{line: 2040, col: 5, offset: 65549},
+				pos: position{line: 2040, col: 5, offset: 65551},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2040, col: 5, offset: 65549},
+						pos: position{line: 2040, col: 5, offset: 65551},
 						run: (*parser).callonEscapedItalicText2,
 						expr: &seqExpr{
-							pos: position{line: 2040, col: 5, offset: 65549},
+							pos: position{line: 2040, col: 5, offset: 65551},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2040, col: 5, offset: 65549},
+									pos:   position{line: 2040, col: 5, offset: 65551},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1856, col: 25, offset: 59964},
+										pos: position{line: 1856, col: 25, offset: 59966},
 										run: (*parser).callonEscapedItalicText5,
 										expr: &seqExpr{
-											pos: position{line: 1856, col: 25, offset: 59964},
+											pos: position{line: 1856, col: 25, offset: 59966},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1856, col: 25, offset: 59964},
+													pos:        position{line: 1856, col: 25, offset: 59966},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1856, col: 30, offset: 59969},
+													pos: position{line: 1856, col: 30, offset: 59971},
 													expr: &litMatcher{
-														pos:        position{line: 1856, col: 30, offset: 59969},
+														pos:        position{line: 1856, col: 30, offset: 59971},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -41973,21 +41973,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2040, col: 40, offset: 65584},
+									pos:        position{line: 2040, col: 40, offset: 65586},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2040, col: 45, offset: 65589},
+									pos:   position{line: 2040, col: 45, offset: 65591},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2040, col: 55, offset: 65599},
+										pos:  position{line: 2040, col: 55, offset: 65601},
 										name: "DoubleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2040, col: 86, offset: 65630},
+									pos:        position{line: 2040, col: 86, offset: 65632},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
@@ -41996,21 +41996,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2044, col: 7, offset: 65795},
+						pos: position{line: 2044, col: 7, offset: 65797},
 						run: (*parser).callonEscapedItalicText14,
 						expr: &seqExpr{
-							pos: position{line: 2044, col: 7, offset: 65795},
+							pos: position{line: 2044, col: 7, offset: 65797},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2044, col: 7, offset: 65795},
+									pos:   position{line: 2044, col: 7, offset: 65797},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1852, col: 25, offset: 59891},
+										pos: position{line: 1852, col: 25, offset: 59893},
 										run: (*parser).callonEscapedItalicText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1852, col: 25, offset: 59891},
+											pos: position{line: 1852, col: 25, offset: 59893},
 											expr: &litMatcher{
-												pos:        position{line: 1852, col: 25, offset: 59891},
+												pos:        position{line: 1852, col: 25, offset: 59893},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42019,21 +42019,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2044, col: 42, offset: 65830},
+									pos:        position{line: 2044, col: 42, offset: 65832},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2044, col: 47, offset: 65835},
+									pos:   position{line: 2044, col: 47, offset: 65837},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2044, col: 57, offset: 65845},
+										pos:  position{line: 2044, col: 57, offset: 65847},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2044, col: 88, offset: 65876},
+									pos:        position{line: 2044, col: 88, offset: 65878},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -42042,21 +42042,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2049, col: 7, offset: 66117},
+						pos: position{line: 2049, col: 7, offset: 66119},
 						run: (*parser).callonEscapedItalicText24,
 						expr: &seqExpr{
-							pos: position{line: 2049, col: 7, offset: 66117},
+							pos: position{line: 2049, col: 7, offset: 66119},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2049, col: 7, offset: 66117},
+									pos:   position{line: 2049, col: 7, offset: 66119},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1852, col: 25, offset: 59891},
+										pos: position{line: 1852, col: 25, offset: 59893},
 										run: (*parser).callonEscapedItalicText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1852, col: 25, offset: 59891},
+											pos: position{line: 1852, col: 25, offset: 59893},
 											expr: &litMatcher{
-												pos:        position{line: 1852, col: 25, offset: 59891},
+												pos:        position{line: 1852, col: 25, offset: 59893},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42065,21 +42065,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2049, col: 42, offset: 66152},
+									pos:        position{line: 2049, col: 42, offset: 66154},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2049, col: 46, offset: 66156},
+									pos:   position{line: 2049, col: 46, offset: 66158},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2049, col: 56, offset: 66166},
+										pos:  position{line: 2049, col: 56, offset: 66168},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2049, col: 87, offset: 66197},
+									pos:        position{line: 2049, col: 87, offset: 66199},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -42092,29 +42092,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceText",
-			pos:  position{line: 2066, col: 1, offset: 66761},
+			pos:  position{line: 2066, col: 1, offset: 66763},
 			expr: &actionExpr{
-				pos: position{line: 2067, col: 5, offset: 66794},
+				pos: position{line: 2067, col: 5, offset: 66796},
 				run: (*parser).callonDoubleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2067, col: 5, offset: 66794},
+					pos: position{line: 2067, col: 5, offset: 66796},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2062, col: 43, offset: 66709},
+							pos:        position{line: 2062, col: 43, offset: 66711},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2068, col: 5, offset: 66838},
+							pos:   position{line: 2068, col: 5, offset: 66840},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2068, col: 15, offset: 66848},
+								pos:  position{line: 2068, col: 15, offset: 66850},
 								name: "DoubleQuoteMonospaceTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2064, col: 41, offset: 66755},
+							pos:        position{line: 2064, col: 41, offset: 66757},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
@@ -42125,44 +42125,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElements",
-			pos:  position{line: 2073, col: 1, offset: 67023},
+			pos:  position{line: 2073, col: 1, offset: 67025},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 2073, col: 37, offset: 67059},
+				pos: position{line: 2073, col: 37, offset: 67061},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2073, col: 37, offset: 67059},
+					pos:  position{line: 2073, col: 37, offset: 67061},
 					name: "DoubleQuoteMonospaceTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElement",
-			pos:  position{line: 2075, col: 1, offset: 67126},
+			pos:  position{line: 2075, col: 1, offset: 67128},
 			expr: &actionExpr{
-				pos: position{line: 2076, col: 5, offset: 67166},
+				pos: position{line: 2076, col: 5, offset: 67168},
 				run: (*parser).callonDoubleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2076, col: 5, offset: 67166},
+					pos: position{line: 2076, col: 5, offset: 67168},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2893, col: 11, offset: 91337},
+							pos: position{line: 2893, col: 11, offset: 91339},
 							expr: &anyMatcher{
-								line: 2893, col: 13, offset: 91339,
+								line: 2893, col: 13, offset: 91341,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2077, col: 5, offset: 67177},
+							pos: position{line: 2077, col: 5, offset: 67179},
 							expr: &litMatcher{
-								pos:        position{line: 2064, col: 41, offset: 66755},
+								pos:        position{line: 2064, col: 41, offset: 66757},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2078, col: 5, offset: 67219},
+							pos:   position{line: 2078, col: 5, offset: 67221},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2078, col: 14, offset: 67228},
+								pos:  position{line: 2078, col: 14, offset: 67230},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42172,33 +42172,33 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextEndDelimiter",
-			pos:  position{line: 2096, col: 1, offset: 67770},
+			pos:  position{line: 2096, col: 1, offset: 67772},
 			expr: &seqExpr{
-				pos: position{line: 2097, col: 5, offset: 67815},
+				pos: position{line: 2097, col: 5, offset: 67817},
 				exprs: []interface{}{
 					&notExpr{
-						pos: position{line: 2097, col: 5, offset: 67815},
+						pos: position{line: 2097, col: 5, offset: 67817},
 						expr: &ruleRefExpr{
-							pos:  position{line: 2097, col: 6, offset: 67816},
+							pos:  position{line: 2097, col: 6, offset: 67818},
 							name: "QuotationMark",
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 2098, col: 5, offset: 67835},
+						pos:        position{line: 2098, col: 5, offset: 67837},
 						val:        "`",
 						ignoreCase: false,
 						want:       "\"`\"",
 					},
 					&andCodeExpr{
-						pos: position{line: 2099, col: 5, offset: 67843},
+						pos: position{line: 2099, col: 5, offset: 67845},
 						run: (*parser).callonSingleQuoteMonospaceTextEndDelimiter5,
 					},
 					&andExpr{
-						pos: position{line: 2103, col: 5, offset: 67957},
+						pos: position{line: 2103, col: 5, offset: 67959},
 						expr: &notExpr{
-							pos: position{line: 2103, col: 7, offset: 67959},
+							pos: position{line: 2103, col: 7, offset: 67961},
 							expr: &charClassMatcher{
-								pos:        position{line: 2766, col: 13, offset: 88077},
+								pos:        position{line: 2766, col: 13, offset: 88079},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -42211,29 +42211,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceText",
-			pos:  position{line: 2106, col: 1, offset: 67976},
+			pos:  position{line: 2106, col: 1, offset: 67978},
 			expr: &actionExpr{
-				pos: position{line: 2107, col: 5, offset: 68009},
+				pos: position{line: 2107, col: 5, offset: 68011},
 				run: (*parser).callonSingleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2107, col: 5, offset: 68009},
+					pos: position{line: 2107, col: 5, offset: 68011},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2089, col: 5, offset: 67572},
+							pos:        position{line: 2089, col: 5, offset: 67574},
 							val:        "`",
 							ignoreCase: false,
 							want:       "\"`\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2090, col: 5, offset: 67581},
+							pos: position{line: 2090, col: 5, offset: 67583},
 							run: (*parser).callonSingleQuoteMonospaceText4,
 						},
 						&andExpr{
-							pos: position{line: 2094, col: 5, offset: 67704},
+							pos: position{line: 2094, col: 5, offset: 67706},
 							expr: &notExpr{
-								pos: position{line: 2094, col: 7, offset: 67706},
+								pos: position{line: 2094, col: 7, offset: 67708},
 								expr: &litMatcher{
-									pos:        position{line: 2094, col: 8, offset: 67707},
+									pos:        position{line: 2094, col: 8, offset: 67709},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42241,15 +42241,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2108, col: 5, offset: 68053},
+							pos:   position{line: 2108, col: 5, offset: 68055},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2108, col: 15, offset: 68063},
+								pos:  position{line: 2108, col: 15, offset: 68065},
 								name: "SingleQuoteMonospaceTextElements",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 2109, col: 5, offset: 68102},
+							pos:  position{line: 2109, col: 5, offset: 68104},
 							name: "SingleQuoteMonospaceTextEndDelimiter",
 						},
 					},
@@ -42258,20 +42258,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElements",
-			pos:  position{line: 2113, col: 1, offset: 68239},
+			pos:  position{line: 2113, col: 1, offset: 68241},
 			expr: &actionExpr{
-				pos: position{line: 2114, col: 5, offset: 68280},
+				pos: position{line: 2114, col: 5, offset: 68282},
 				run: (*parser).callonSingleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2114, col: 5, offset: 68280},
+					pos: position{line: 2114, col: 5, offset: 68282},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2114, col: 5, offset: 68280},
+							pos: position{line: 2114, col: 5, offset: 68282},
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 10, offset: 91003},
+								pos: position{line: 2876, col: 10, offset: 91005},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2876, col: 10, offset: 91003},
+									pos:        position{line: 2876, col: 10, offset: 91005},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42280,18 +42280,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2115, col: 5, offset: 68319},
+							pos:   position{line: 2115, col: 5, offset: 68321},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2115, col: 14, offset: 68328},
+								pos: position{line: 2115, col: 14, offset: 68330},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2115, col: 15, offset: 68329},
+									pos:  position{line: 2115, col: 15, offset: 68331},
 									name: "SingleQuoteMonospaceTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2116, col: 5, offset: 68367},
+							pos: position{line: 2116, col: 5, offset: 68369},
 							run: (*parser).callonSingleQuoteMonospaceTextElements9,
 						},
 					},
@@ -42300,31 +42300,31 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElement",
-			pos:  position{line: 2122, col: 1, offset: 68508},
+			pos:  position{line: 2122, col: 1, offset: 68510},
 			expr: &actionExpr{
-				pos: position{line: 2123, col: 5, offset: 68548},
+				pos: position{line: 2123, col: 5, offset: 68550},
 				run: (*parser).callonSingleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2123, col: 5, offset: 68548},
+					pos: position{line: 2123, col: 5, offset: 68550},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2893, col: 11, offset: 91337},
+							pos: position{line: 2893, col: 11, offset: 91339},
 							expr: &anyMatcher{
-								line: 2893, col: 13, offset: 91339,
+								line: 2893, col: 13, offset: 91341,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2124, col: 5, offset: 68559},
+							pos: position{line: 2124, col: 5, offset: 68561},
 							expr: &ruleRefExpr{
-								pos:  position{line: 2124, col: 6, offset: 68560},
+								pos:  position{line: 2124, col: 6, offset: 68562},
 								name: "SingleQuoteMonospaceTextEndDelimiter",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2125, col: 5, offset: 68601},
+							pos:   position{line: 2125, col: 5, offset: 68603},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2125, col: 14, offset: 68610},
+								pos:  position{line: 2125, col: 14, offset: 68612},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42334,35 +42334,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMonospaceText",
-			pos:  position{line: 2130, col: 1, offset: 68698},
+			pos:  position{line: 2130, col: 1, offset: 68700},
 			expr: &choiceExpr{
-				pos: position{line: 2132, col: 5, offset: 68769},
+				pos: position{line: 2132, col: 5, offset: 68771},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2132, col: 5, offset: 68769},
+						pos: position{line: 2132, col: 5, offset: 68771},
 						run: (*parser).callonEscapedMonospaceText2,
 						expr: &seqExpr{
-							pos: position{line: 2132, col: 5, offset: 68769},
+							pos: position{line: 2132, col: 5, offset: 68771},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2132, col: 5, offset: 68769},
+									pos:   position{line: 2132, col: 5, offset: 68771},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1856, col: 25, offset: 59964},
+										pos: position{line: 1856, col: 25, offset: 59966},
 										run: (*parser).callonEscapedMonospaceText5,
 										expr: &seqExpr{
-											pos: position{line: 1856, col: 25, offset: 59964},
+											pos: position{line: 1856, col: 25, offset: 59966},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1856, col: 25, offset: 59964},
+													pos:        position{line: 1856, col: 25, offset: 59966},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1856, col: 30, offset: 59969},
+													pos: position{line: 1856, col: 30, offset: 59971},
 													expr: &litMatcher{
-														pos:        position{line: 1856, col: 30, offset: 59969},
+														pos:        position{line: 1856, col: 30, offset: 59971},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42373,21 +42373,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2132, col: 40, offset: 68804},
+									pos:        position{line: 2132, col: 40, offset: 68806},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2132, col: 45, offset: 68809},
+									pos:   position{line: 2132, col: 45, offset: 68811},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2132, col: 55, offset: 68819},
+										pos:  position{line: 2132, col: 55, offset: 68821},
 										name: "DoubleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2132, col: 89, offset: 68853},
+									pos:        position{line: 2132, col: 89, offset: 68855},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
@@ -42396,21 +42396,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2136, col: 7, offset: 69022},
+						pos: position{line: 2136, col: 7, offset: 69024},
 						run: (*parser).callonEscapedMonospaceText14,
 						expr: &seqExpr{
-							pos: position{line: 2136, col: 7, offset: 69022},
+							pos: position{line: 2136, col: 7, offset: 69024},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2136, col: 7, offset: 69022},
+									pos:   position{line: 2136, col: 7, offset: 69024},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1852, col: 25, offset: 59891},
+										pos: position{line: 1852, col: 25, offset: 59893},
 										run: (*parser).callonEscapedMonospaceText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1852, col: 25, offset: 59891},
+											pos: position{line: 1852, col: 25, offset: 59893},
 											expr: &litMatcher{
-												pos:        position{line: 1852, col: 25, offset: 59891},
+												pos:        position{line: 1852, col: 25, offset: 59893},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42419,21 +42419,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2136, col: 42, offset: 69057},
+									pos:        position{line: 2136, col: 42, offset: 69059},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2136, col: 47, offset: 69062},
+									pos:   position{line: 2136, col: 47, offset: 69064},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2136, col: 57, offset: 69072},
+										pos:  position{line: 2136, col: 57, offset: 69074},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2136, col: 91, offset: 69106},
+									pos:        position{line: 2136, col: 91, offset: 69108},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42442,21 +42442,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2141, col: 7, offset: 69312},
+						pos: position{line: 2141, col: 7, offset: 69314},
 						run: (*parser).callonEscapedMonospaceText24,
 						expr: &seqExpr{
-							pos: position{line: 2141, col: 7, offset: 69312},
+							pos: position{line: 2141, col: 7, offset: 69314},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2141, col: 7, offset: 69312},
+									pos:   position{line: 2141, col: 7, offset: 69314},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1852, col: 25, offset: 59891},
+										pos: position{line: 1852, col: 25, offset: 59893},
 										run: (*parser).callonEscapedMonospaceText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1852, col: 25, offset: 59891},
+											pos: position{line: 1852, col: 25, offset: 59893},
 											expr: &litMatcher{
-												pos:        position{line: 1852, col: 25, offset: 59891},
+												pos:        position{line: 1852, col: 25, offset: 59893},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42465,21 +42465,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2141, col: 42, offset: 69347},
+									pos:        position{line: 2141, col: 42, offset: 69349},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2141, col: 46, offset: 69351},
+									pos:   position{line: 2141, col: 46, offset: 69353},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2141, col: 56, offset: 69361},
+										pos:  position{line: 2141, col: 56, offset: 69363},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2141, col: 90, offset: 69395},
+									pos:        position{line: 2141, col: 90, offset: 69397},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42492,29 +42492,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedText",
-			pos:  position{line: 2158, col: 1, offset: 69880},
+			pos:  position{line: 2158, col: 1, offset: 69882},
 			expr: &actionExpr{
-				pos: position{line: 2159, col: 5, offset: 69910},
+				pos: position{line: 2159, col: 5, offset: 69912},
 				run: (*parser).callonDoubleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2159, col: 5, offset: 69910},
+					pos: position{line: 2159, col: 5, offset: 69912},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2154, col: 40, offset: 69831},
+							pos:        position{line: 2154, col: 40, offset: 69833},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2160, col: 5, offset: 69951},
+							pos:   position{line: 2160, col: 5, offset: 69953},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2160, col: 15, offset: 69961},
+								pos:  position{line: 2160, col: 15, offset: 69963},
 								name: "DoubleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2156, col: 38, offset: 69874},
+							pos:        position{line: 2156, col: 38, offset: 69876},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
@@ -42525,44 +42525,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElements",
-			pos:  position{line: 2165, col: 1, offset: 70127},
+			pos:  position{line: 2165, col: 1, offset: 70129},
 			expr: &zeroOrMoreExpr{
-				pos: position{line: 2165, col: 34, offset: 70160},
+				pos: position{line: 2165, col: 34, offset: 70162},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2165, col: 34, offset: 70160},
+					pos:  position{line: 2165, col: 34, offset: 70162},
 					name: "DoubleQuoteMarkedTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMarkedTextElement",
-			pos:  position{line: 2167, col: 1, offset: 70191},
+			pos:  position{line: 2167, col: 1, offset: 70193},
 			expr: &actionExpr{
-				pos: position{line: 2168, col: 5, offset: 70260},
+				pos: position{line: 2168, col: 5, offset: 70262},
 				run: (*parser).callonDoubleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2168, col: 5, offset: 70260},
+					pos: position{line: 2168, col: 5, offset: 70262},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2893, col: 11, offset: 91337},
+							pos: position{line: 2893, col: 11, offset: 91339},
 							expr: &anyMatcher{
-								line: 2893, col: 13, offset: 91339,
+								line: 2893, col: 13, offset: 91341,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2169, col: 5, offset: 70271},
+							pos: position{line: 2169, col: 5, offset: 70273},
 							expr: &litMatcher{
-								pos:        position{line: 2156, col: 38, offset: 69874},
+								pos:        position{line: 2156, col: 38, offset: 69876},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2170, col: 5, offset: 70310},
+							pos:   position{line: 2170, col: 5, offset: 70312},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2170, col: 14, offset: 70319},
+								pos:  position{line: 2170, col: 14, offset: 70321},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42572,29 +42572,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedText",
-			pos:  position{line: 2195, col: 1, offset: 71001},
+			pos:  position{line: 2195, col: 1, offset: 71003},
 			expr: &actionExpr{
-				pos: position{line: 2196, col: 5, offset: 71031},
+				pos: position{line: 2196, col: 5, offset: 71033},
 				run: (*parser).callonSingleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2196, col: 5, offset: 71031},
+					pos: position{line: 2196, col: 5, offset: 71033},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2179, col: 5, offset: 70567},
+							pos:        position{line: 2179, col: 5, offset: 70569},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2180, col: 5, offset: 70576},
+							pos: position{line: 2180, col: 5, offset: 70578},
 							run: (*parser).callonSingleQuoteMarkedText4,
 						},
 						&andExpr{
-							pos: position{line: 2184, col: 5, offset: 70696},
+							pos: position{line: 2184, col: 5, offset: 70698},
 							expr: &notExpr{
-								pos: position{line: 2184, col: 7, offset: 70698},
+								pos: position{line: 2184, col: 7, offset: 70700},
 								expr: &litMatcher{
-									pos:        position{line: 2184, col: 8, offset: 70699},
+									pos:        position{line: 2184, col: 8, offset: 70701},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -42602,38 +42602,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2197, col: 5, offset: 71071},
+							pos:   position{line: 2197, col: 5, offset: 71073},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2197, col: 15, offset: 71081},
+								pos:  position{line: 2197, col: 15, offset: 71083},
 								name: "SingleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2187, col: 5, offset: 70804},
+							pos:        position{line: 2187, col: 5, offset: 70806},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&notExpr{
-							pos: position{line: 2188, col: 5, offset: 70812},
+							pos: position{line: 2188, col: 5, offset: 70814},
 							expr: &litMatcher{
-								pos:        position{line: 2188, col: 6, offset: 70813},
+								pos:        position{line: 2188, col: 6, offset: 70815},
 								val:        "#",
 								ignoreCase: false,
 								want:       "\"#\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2189, col: 5, offset: 70876},
+							pos: position{line: 2189, col: 5, offset: 70878},
 							run: (*parser).callonSingleQuoteMarkedText13,
 						},
 						&andExpr{
-							pos: position{line: 2193, col: 5, offset: 70987},
+							pos: position{line: 2193, col: 5, offset: 70989},
 							expr: &notExpr{
-								pos: position{line: 2193, col: 7, offset: 70989},
+								pos: position{line: 2193, col: 7, offset: 70991},
 								expr: &charClassMatcher{
-									pos:        position{line: 2766, col: 13, offset: 88077},
+									pos:        position{line: 2766, col: 13, offset: 88079},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -42647,20 +42647,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElements",
-			pos:  position{line: 2202, col: 1, offset: 71248},
+			pos:  position{line: 2202, col: 1, offset: 71250},
 			expr: &actionExpr{
-				pos: position{line: 2203, col: 5, offset: 71286},
+				pos: position{line: 2203, col: 5, offset: 71288},
 				run: (*parser).callonSingleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2203, col: 5, offset: 71286},
+					pos: position{line: 2203, col: 5, offset: 71288},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2203, col: 5, offset: 71286},
+							pos: position{line: 2203, col: 5, offset: 71288},
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 10, offset: 91003},
+								pos: position{line: 2876, col: 10, offset: 91005},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2876, col: 10, offset: 91003},
+									pos:        position{line: 2876, col: 10, offset: 91005},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42669,18 +42669,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2204, col: 5, offset: 71325},
+							pos:   position{line: 2204, col: 5, offset: 71327},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2204, col: 14, offset: 71334},
+								pos: position{line: 2204, col: 14, offset: 71336},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2204, col: 15, offset: 71335},
+									pos:  position{line: 2204, col: 15, offset: 71337},
 									name: "SingleQuoteMarkedTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2205, col: 5, offset: 71371},
+							pos: position{line: 2205, col: 5, offset: 71373},
 							run: (*parser).callonSingleQuoteMarkedTextElements9,
 						},
 					},
@@ -42689,49 +42689,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElement",
-			pos:  position{line: 2211, col: 1, offset: 71512},
+			pos:  position{line: 2211, col: 1, offset: 71514},
 			expr: &actionExpr{
-				pos: position{line: 2212, col: 5, offset: 71549},
+				pos: position{line: 2212, col: 5, offset: 71551},
 				run: (*parser).callonSingleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2212, col: 5, offset: 71549},
+					pos: position{line: 2212, col: 5, offset: 71551},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2893, col: 11, offset: 91337},
+							pos: position{line: 2893, col: 11, offset: 91339},
 							expr: &anyMatcher{
-								line: 2893, col: 13, offset: 91339,
+								line: 2893, col: 13, offset: 91341,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2213, col: 5, offset: 71560},
+							pos: position{line: 2213, col: 5, offset: 71562},
 							expr: &seqExpr{
-								pos: position{line: 2187, col: 5, offset: 70804},
+								pos: position{line: 2187, col: 5, offset: 70806},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2187, col: 5, offset: 70804},
+										pos:        position{line: 2187, col: 5, offset: 70806},
 										val:        "#",
 										ignoreCase: false,
 										want:       "\"#\"",
 									},
 									&notExpr{
-										pos: position{line: 2188, col: 5, offset: 70812},
+										pos: position{line: 2188, col: 5, offset: 70814},
 										expr: &litMatcher{
-											pos:        position{line: 2188, col: 6, offset: 70813},
+											pos:        position{line: 2188, col: 6, offset: 70815},
 											val:        "#",
 											ignoreCase: false,
 											want:       "\"#\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2189, col: 5, offset: 70876},
+										pos: position{line: 2189, col: 5, offset: 70878},
 										run: (*parser).callonSingleQuoteMarkedTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2193, col: 5, offset: 70987},
+										pos: position{line: 2193, col: 5, offset: 70989},
 										expr: &notExpr{
-											pos: position{line: 2193, col: 7, offset: 70989},
+											pos: position{line: 2193, col: 7, offset: 70991},
 											expr: &charClassMatcher{
-												pos:        position{line: 2766, col: 13, offset: 88077},
+												pos:        position{line: 2766, col: 13, offset: 88079},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42743,10 +42743,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2214, col: 5, offset: 71599},
+							pos:   position{line: 2214, col: 5, offset: 71601},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2214, col: 14, offset: 71608},
+								pos:  position{line: 2214, col: 14, offset: 71610},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42756,35 +42756,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMarkedText",
-			pos:  position{line: 2219, col: 1, offset: 71696},
+			pos:  position{line: 2219, col: 1, offset: 71698},
 			expr: &choiceExpr{
-				pos: position{line: 2221, col: 5, offset: 71760},
+				pos: position{line: 2221, col: 5, offset: 71762},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2221, col: 5, offset: 71760},
+						pos: position{line: 2221, col: 5, offset: 71762},
 						run: (*parser).callonEscapedMarkedText2,
 						expr: &seqExpr{
-							pos: position{line: 2221, col: 5, offset: 71760},
+							pos: position{line: 2221, col: 5, offset: 71762},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2221, col: 5, offset: 71760},
+									pos:   position{line: 2221, col: 5, offset: 71762},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1856, col: 25, offset: 59964},
+										pos: position{line: 1856, col: 25, offset: 59966},
 										run: (*parser).callonEscapedMarkedText5,
 										expr: &seqExpr{
-											pos: position{line: 1856, col: 25, offset: 59964},
+											pos: position{line: 1856, col: 25, offset: 59966},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1856, col: 25, offset: 59964},
+													pos:        position{line: 1856, col: 25, offset: 59966},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1856, col: 30, offset: 59969},
+													pos: position{line: 1856, col: 30, offset: 59971},
 													expr: &litMatcher{
-														pos:        position{line: 1856, col: 30, offset: 59969},
+														pos:        position{line: 1856, col: 30, offset: 59971},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42795,21 +42795,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2221, col: 40, offset: 71795},
+									pos:        position{line: 2221, col: 40, offset: 71797},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2221, col: 45, offset: 71800},
+									pos:   position{line: 2221, col: 45, offset: 71802},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2221, col: 55, offset: 71810},
+										pos:  position{line: 2221, col: 55, offset: 71812},
 										name: "DoubleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2221, col: 86, offset: 71841},
+									pos:        position{line: 2221, col: 86, offset: 71843},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
@@ -42818,21 +42818,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2225, col: 7, offset: 72006},
+						pos: position{line: 2225, col: 7, offset: 72008},
 						run: (*parser).callonEscapedMarkedText14,
 						expr: &seqExpr{
-							pos: position{line: 2225, col: 7, offset: 72006},
+							pos: position{line: 2225, col: 7, offset: 72008},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2225, col: 7, offset: 72006},
+									pos:   position{line: 2225, col: 7, offset: 72008},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1852, col: 25, offset: 59891},
+										pos: position{line: 1852, col: 25, offset: 59893},
 										run: (*parser).callonEscapedMarkedText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1852, col: 25, offset: 59891},
+											pos: position{line: 1852, col: 25, offset: 59893},
 											expr: &litMatcher{
-												pos:        position{line: 1852, col: 25, offset: 59891},
+												pos:        position{line: 1852, col: 25, offset: 59893},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42841,21 +42841,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2225, col: 42, offset: 72041},
+									pos:        position{line: 2225, col: 42, offset: 72043},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2225, col: 47, offset: 72046},
+									pos:   position{line: 2225, col: 47, offset: 72048},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2225, col: 57, offset: 72056},
+										pos:  position{line: 2225, col: 57, offset: 72058},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2225, col: 88, offset: 72087},
+									pos:        position{line: 2225, col: 88, offset: 72089},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -42864,21 +42864,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2230, col: 7, offset: 72290},
+						pos: position{line: 2230, col: 7, offset: 72292},
 						run: (*parser).callonEscapedMarkedText24,
 						expr: &seqExpr{
-							pos: position{line: 2230, col: 7, offset: 72290},
+							pos: position{line: 2230, col: 7, offset: 72292},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2230, col: 7, offset: 72290},
+									pos:   position{line: 2230, col: 7, offset: 72292},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1852, col: 25, offset: 59891},
+										pos: position{line: 1852, col: 25, offset: 59893},
 										run: (*parser).callonEscapedMarkedText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1852, col: 25, offset: 59891},
+											pos: position{line: 1852, col: 25, offset: 59893},
 											expr: &litMatcher{
-												pos:        position{line: 1852, col: 25, offset: 59891},
+												pos:        position{line: 1852, col: 25, offset: 59893},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42887,21 +42887,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2230, col: 42, offset: 72325},
+									pos:        position{line: 2230, col: 42, offset: 72327},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2230, col: 46, offset: 72329},
+									pos:   position{line: 2230, col: 46, offset: 72331},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2230, col: 56, offset: 72339},
+										pos:  position{line: 2230, col: 56, offset: 72341},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2230, col: 87, offset: 72370},
+									pos:        position{line: 2230, col: 87, offset: 72372},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -42914,29 +42914,29 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptText",
-			pos:  position{line: 2237, col: 1, offset: 72637},
+			pos:  position{line: 2237, col: 1, offset: 72639},
 			expr: &actionExpr{
-				pos: position{line: 2238, col: 5, offset: 72659},
+				pos: position{line: 2238, col: 5, offset: 72661},
 				run: (*parser).callonSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2238, col: 5, offset: 72659},
+					pos: position{line: 2238, col: 5, offset: 72661},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2244, col: 27, offset: 72874},
+							pos:        position{line: 2244, col: 27, offset: 72876},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2239, col: 5, offset: 72686},
+							pos:   position{line: 2239, col: 5, offset: 72688},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2239, col: 14, offset: 72695},
+								pos:  position{line: 2239, col: 14, offset: 72697},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2244, col: 27, offset: 72874},
+							pos:        position{line: 2244, col: 27, offset: 72876},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -42947,43 +42947,43 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptTextElement",
-			pos:  position{line: 2246, col: 1, offset: 72879},
+			pos:  position{line: 2246, col: 1, offset: 72881},
 			expr: &choiceExpr{
-				pos: position{line: 2246, col: 25, offset: 72903},
+				pos: position{line: 2246, col: 25, offset: 72905},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2246, col: 25, offset: 72903},
+						pos:  position{line: 2246, col: 25, offset: 72905},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2248, col: 21, offset: 72955},
+						pos: position{line: 2248, col: 21, offset: 72957},
 						run: (*parser).callonSubscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2248, col: 21, offset: 72955},
+							pos:   position{line: 2248, col: 21, offset: 72957},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2248, col: 30, offset: 72964},
+								pos: position{line: 2248, col: 30, offset: 72966},
 								expr: &choiceExpr{
-									pos: position{line: 2248, col: 31, offset: 72965},
+									pos: position{line: 2248, col: 31, offset: 72967},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2470, col: 5, offset: 79435},
+											pos: position{line: 2470, col: 5, offset: 79437},
 											run: (*parser).callonSubscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2470, col: 5, offset: 79435},
+												pos: position{line: 2470, col: 5, offset: 79437},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2470, col: 5, offset: 79435},
+														pos: position{line: 2470, col: 5, offset: 79437},
 														run: (*parser).callonSubscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2473, col: 5, offset: 79511},
+														pos:   position{line: 2473, col: 5, offset: 79513},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2474, col: 9, offset: 79529},
+															pos: position{line: 2474, col: 9, offset: 79531},
 															run: (*parser).callonSubscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2474, col: 10, offset: 79530},
+																pos:        position{line: 2474, col: 10, offset: 79532},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -42995,7 +42995,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2248, col: 50, offset: 72984},
+											pos:        position{line: 2248, col: 50, offset: 72986},
 											val:        "[^\\r\\n ~]",
 											chars:      []rune{'\r', '\n', ' ', '~'},
 											ignoreCase: false,
@@ -43011,23 +43011,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2252, col: 1, offset: 73034},
+			pos:  position{line: 2252, col: 1, offset: 73036},
 			expr: &actionExpr{
-				pos: position{line: 2254, col: 5, offset: 73101},
+				pos: position{line: 2254, col: 5, offset: 73103},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2254, col: 5, offset: 73101},
+					pos: position{line: 2254, col: 5, offset: 73103},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2254, col: 5, offset: 73101},
+							pos:   position{line: 2254, col: 5, offset: 73103},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1852, col: 25, offset: 59891},
+								pos: position{line: 1852, col: 25, offset: 59893},
 								run: (*parser).callonEscapedSubscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1852, col: 25, offset: 59891},
+									pos: position{line: 1852, col: 25, offset: 59893},
 									expr: &litMatcher{
-										pos:        position{line: 1852, col: 25, offset: 59891},
+										pos:        position{line: 1852, col: 25, offset: 59893},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -43036,21 +43036,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2244, col: 27, offset: 72874},
+							pos:        position{line: 2244, col: 27, offset: 72876},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2256, col: 5, offset: 73169},
+							pos:   position{line: 2256, col: 5, offset: 73171},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2256, col: 14, offset: 73178},
+								pos:  position{line: 2256, col: 14, offset: 73180},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2244, col: 27, offset: 72874},
+							pos:        position{line: 2244, col: 27, offset: 72876},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -43061,29 +43061,29 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2264, col: 1, offset: 73441},
+			pos:  position{line: 2264, col: 1, offset: 73443},
 			expr: &actionExpr{
-				pos: position{line: 2265, col: 5, offset: 73465},
+				pos: position{line: 2265, col: 5, offset: 73467},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2265, col: 5, offset: 73465},
+					pos: position{line: 2265, col: 5, offset: 73467},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2271, col: 29, offset: 73692},
+							pos:        position{line: 2271, col: 29, offset: 73694},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2266, col: 5, offset: 73495},
+							pos:   position{line: 2266, col: 5, offset: 73497},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2266, col: 14, offset: 73504},
+								pos:  position{line: 2266, col: 14, offset: 73506},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2271, col: 29, offset: 73692},
+							pos:        position{line: 2271, col: 29, offset: 73694},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -43094,43 +43094,43 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2273, col: 1, offset: 73697},
+			pos:  position{line: 2273, col: 1, offset: 73699},
 			expr: &choiceExpr{
-				pos: position{line: 2273, col: 27, offset: 73723},
+				pos: position{line: 2273, col: 27, offset: 73725},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2273, col: 27, offset: 73723},
+						pos:  position{line: 2273, col: 27, offset: 73725},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2275, col: 23, offset: 73779},
+						pos: position{line: 2275, col: 23, offset: 73781},
 						run: (*parser).callonSuperscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2275, col: 23, offset: 73779},
+							pos:   position{line: 2275, col: 23, offset: 73781},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2275, col: 32, offset: 73788},
+								pos: position{line: 2275, col: 32, offset: 73790},
 								expr: &choiceExpr{
-									pos: position{line: 2275, col: 33, offset: 73789},
+									pos: position{line: 2275, col: 33, offset: 73791},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2470, col: 5, offset: 79435},
+											pos: position{line: 2470, col: 5, offset: 79437},
 											run: (*parser).callonSuperscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2470, col: 5, offset: 79435},
+												pos: position{line: 2470, col: 5, offset: 79437},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2470, col: 5, offset: 79435},
+														pos: position{line: 2470, col: 5, offset: 79437},
 														run: (*parser).callonSuperscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2473, col: 5, offset: 79511},
+														pos:   position{line: 2473, col: 5, offset: 79513},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2474, col: 9, offset: 79529},
+															pos: position{line: 2474, col: 9, offset: 79531},
 															run: (*parser).callonSuperscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2474, col: 10, offset: 79530},
+																pos:        position{line: 2474, col: 10, offset: 79532},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -43142,7 +43142,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2275, col: 52, offset: 73808},
+											pos:        position{line: 2275, col: 52, offset: 73810},
 											val:        "[^\\r\\n ^]",
 											chars:      []rune{'\r', '\n', ' ', '^'},
 											ignoreCase: false,
@@ -43158,23 +43158,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2279, col: 1, offset: 73858},
+			pos:  position{line: 2279, col: 1, offset: 73860},
 			expr: &actionExpr{
-				pos: position{line: 2281, col: 5, offset: 73930},
+				pos: position{line: 2281, col: 5, offset: 73932},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2281, col: 5, offset: 73930},
+					pos: position{line: 2281, col: 5, offset: 73932},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2281, col: 5, offset: 73930},
+							pos:   position{line: 2281, col: 5, offset: 73932},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1852, col: 25, offset: 59891},
+								pos: position{line: 1852, col: 25, offset: 59893},
 								run: (*parser).callonEscapedSuperscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1852, col: 25, offset: 59891},
+									pos: position{line: 1852, col: 25, offset: 59893},
 									expr: &litMatcher{
-										pos:        position{line: 1852, col: 25, offset: 59891},
+										pos:        position{line: 1852, col: 25, offset: 59893},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -43183,21 +43183,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2271, col: 29, offset: 73692},
+							pos:        position{line: 2271, col: 29, offset: 73694},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2283, col: 5, offset: 74000},
+							pos:   position{line: 2283, col: 5, offset: 74002},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2283, col: 14, offset: 74009},
+								pos:  position{line: 2283, col: 14, offset: 74011},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2271, col: 29, offset: 73692},
+							pos:        position{line: 2271, col: 29, offset: 73694},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -43208,27 +43208,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2292, col: 1, offset: 74478},
+			pos:  position{line: 2292, col: 1, offset: 74480},
 			expr: &actionExpr{
-				pos: position{line: 2293, col: 5, offset: 74494},
+				pos: position{line: 2293, col: 5, offset: 74496},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2293, col: 5, offset: 74494},
+					pos: position{line: 2293, col: 5, offset: 74496},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2293, col: 5, offset: 74494},
+							pos: position{line: 2293, col: 5, offset: 74496},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2296, col: 5, offset: 74557},
+							pos:   position{line: 2296, col: 5, offset: 74559},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2296, col: 12, offset: 74564},
+								pos: position{line: 2296, col: 12, offset: 74566},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2296, col: 12, offset: 74564},
+									pos: position{line: 2296, col: 12, offset: 74566},
 									expr: &litMatcher{
-										pos:        position{line: 2296, col: 13, offset: 74565},
+										pos:        position{line: 2296, col: 13, offset: 74567},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -43237,16 +43237,16 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2300, col: 5, offset: 74673},
+							pos: position{line: 2300, col: 5, offset: 74675},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2880, col: 11, offset: 91064},
+							pos: position{line: 2880, col: 11, offset: 91066},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2880, col: 11, offset: 91064},
+								pos: position{line: 2880, col: 11, offset: 91066},
 								expr: &charClassMatcher{
-									pos:        position{line: 2880, col: 11, offset: 91064},
+									pos:        position{line: 2880, col: 11, offset: 91066},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43255,36 +43255,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2304, col: 12, offset: 74832},
+							pos:   position{line: 2304, col: 12, offset: 74834},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2304, col: 19, offset: 74839},
+								pos:  position{line: 2304, col: 19, offset: 74841},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2898, col: 8, offset: 91401},
+							pos: position{line: 2898, col: 8, offset: 91403},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2885, col: 12, offset: 91174},
+									pos: position{line: 2885, col: 12, offset: 91176},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2885, col: 13, offset: 91175},
+										pos: position{line: 2885, col: 13, offset: 91177},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2885, col: 13, offset: 91175},
+												pos:        position{line: 2885, col: 13, offset: 91177},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 20, offset: 91182},
+												pos:        position{line: 2885, col: 20, offset: 91184},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 29, offset: 91191},
+												pos:        position{line: 2885, col: 29, offset: 91193},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -43293,9 +43293,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2895, col: 8, offset: 91351},
+									pos: position{line: 2895, col: 8, offset: 91353},
 									expr: &anyMatcher{
-										line: 2895, col: 9, offset: 91352,
+										line: 2895, col: 9, offset: 91354,
 									},
 								},
 							},
@@ -43306,24 +43306,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2308, col: 1, offset: 74935},
+			pos:  position{line: 2308, col: 1, offset: 74937},
 			expr: &actionExpr{
-				pos: position{line: 2309, col: 5, offset: 74956},
+				pos: position{line: 2309, col: 5, offset: 74958},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2309, col: 5, offset: 74956},
+					pos: position{line: 2309, col: 5, offset: 74958},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2309, col: 5, offset: 74956},
+							pos: position{line: 2309, col: 5, offset: 74958},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2314, col: 5, offset: 75071},
+							pos:   position{line: 2314, col: 5, offset: 75073},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2314, col: 14, offset: 75080},
+								pos: position{line: 2314, col: 14, offset: 75082},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2314, col: 15, offset: 75081},
+									pos:  position{line: 2314, col: 15, offset: 75083},
 									name: "SectionTitleElement",
 								},
 							},
@@ -43334,38 +43334,38 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2318, col: 1, offset: 75162},
+			pos:  position{line: 2318, col: 1, offset: 75164},
 			expr: &actionExpr{
-				pos: position{line: 2319, col: 5, offset: 75189},
+				pos: position{line: 2319, col: 5, offset: 75191},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2319, col: 5, offset: 75189},
+					pos: position{line: 2319, col: 5, offset: 75191},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2319, col: 5, offset: 75189},
+							pos: position{line: 2319, col: 5, offset: 75191},
 							expr: &choiceExpr{
-								pos: position{line: 2898, col: 8, offset: 91401},
+								pos: position{line: 2898, col: 8, offset: 91403},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2885, col: 12, offset: 91174},
+										pos: position{line: 2885, col: 12, offset: 91176},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2885, col: 13, offset: 91175},
+											pos: position{line: 2885, col: 13, offset: 91177},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2885, col: 13, offset: 91175},
+													pos:        position{line: 2885, col: 13, offset: 91177},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2885, col: 20, offset: 91182},
+													pos:        position{line: 2885, col: 20, offset: 91184},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2885, col: 29, offset: 91191},
+													pos:        position{line: 2885, col: 29, offset: 91193},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -43374,29 +43374,29 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2895, col: 8, offset: 91351},
+										pos: position{line: 2895, col: 8, offset: 91353},
 										expr: &anyMatcher{
-											line: 2895, col: 9, offset: 91352,
+											line: 2895, col: 9, offset: 91354,
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2320, col: 5, offset: 75198},
+							pos:   position{line: 2320, col: 5, offset: 75200},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2320, col: 14, offset: 75207},
+								pos: position{line: 2320, col: 14, offset: 75209},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2320, col: 14, offset: 75207},
+										pos:  position{line: 2320, col: 14, offset: 75209},
 										name: "SectionTitleLineElement",
 									},
 									&actionExpr{
-										pos: position{line: 2815, col: 12, offset: 89311},
+										pos: position{line: 2815, col: 12, offset: 89313},
 										run: (*parser).callonSectionTitleElement15,
 										expr: &charClassMatcher{
-											pos:        position{line: 2815, col: 12, offset: 89311},
+											pos:        position{line: 2815, col: 12, offset: 89313},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -43412,21 +43412,21 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleLineElement",
-			pos:  position{line: 2325, col: 1, offset: 75311},
+			pos:  position{line: 2325, col: 1, offset: 75313},
 			expr: &actionExpr{
-				pos: position{line: 2326, col: 5, offset: 75342},
+				pos: position{line: 2326, col: 5, offset: 75344},
 				run: (*parser).callonSectionTitleLineElement1,
 				expr: &seqExpr{
-					pos: position{line: 2326, col: 5, offset: 75342},
+					pos: position{line: 2326, col: 5, offset: 75344},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2326, col: 5, offset: 75342},
+							pos:   position{line: 2326, col: 5, offset: 75344},
 							label: "start",
 							expr: &actionExpr{
-								pos: position{line: 2901, col: 16, offset: 91525},
+								pos: position{line: 2901, col: 16, offset: 91527},
 								run: (*parser).callonSectionTitleLineElement4,
 								expr: &litMatcher{
-									pos:        position{line: 2901, col: 16, offset: 91525},
+									pos:        position{line: 2901, col: 16, offset: 91527},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -43434,27 +43434,27 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2327, col: 5, offset: 75366},
+							pos:   position{line: 2327, col: 5, offset: 75368},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2328, col: 9, offset: 75384},
+								pos: position{line: 2328, col: 9, offset: 75386},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2775, col: 5, offset: 88224},
+										pos: position{line: 2775, col: 5, offset: 88226},
 										run: (*parser).callonSectionTitleLineElement8,
 										expr: &seqExpr{
-											pos: position{line: 2775, col: 5, offset: 88224},
+											pos: position{line: 2775, col: 5, offset: 88226},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2775, col: 5, offset: 88224},
+													pos:   position{line: 2775, col: 5, offset: 88226},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2775, col: 11, offset: 88230},
+														pos: position{line: 2775, col: 11, offset: 88232},
 														run: (*parser).callonSectionTitleLineElement11,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2775, col: 11, offset: 88230},
+															pos: position{line: 2775, col: 11, offset: 88232},
 															expr: &charClassMatcher{
-																pos:        position{line: 2775, col: 11, offset: 88230},
+																pos:        position{line: 2775, col: 11, offset: 88232},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -43464,44 +43464,44 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2778, col: 5, offset: 88288},
+													pos: position{line: 2778, col: 5, offset: 88290},
 													expr: &seqExpr{
-														pos: position{line: 2779, col: 9, offset: 88299},
+														pos: position{line: 2779, col: 9, offset: 88301},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2779, col: 9, offset: 88299},
+																pos:        position{line: 2779, col: 9, offset: 88301},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2780, col: 9, offset: 88348},
+																pos: position{line: 2780, col: 9, offset: 88350},
 																run: (*parser).callonSectionTitleLineElement17,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2784, col: 5, offset: 88428},
+													pos: position{line: 2784, col: 5, offset: 88430},
 													expr: &seqExpr{
-														pos: position{line: 2785, col: 9, offset: 88439},
+														pos: position{line: 2785, col: 9, offset: 88441},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2785, col: 9, offset: 88439},
+																pos: position{line: 2785, col: 9, offset: 88441},
 																expr: &seqExpr{
-																	pos: position{line: 2785, col: 10, offset: 88440},
+																	pos: position{line: 2785, col: 10, offset: 88442},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2785, col: 10, offset: 88440},
+																			pos:        position{line: 2785, col: 10, offset: 88442},
 																			val:        "[._%+-]",
 																			chars:      []rune{'.', '_', '%', '+', '-'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2785, col: 18, offset: 88448},
+																			pos: position{line: 2785, col: 18, offset: 88450},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2785, col: 18, offset: 88448},
+																				pos:        position{line: 2785, col: 18, offset: 88450},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -43512,13 +43512,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2785, col: 30, offset: 88460},
+																pos:        position{line: 2785, col: 30, offset: 88462},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2785, col: 34, offset: 88464},
+																pos:        position{line: 2785, col: 34, offset: 88466},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -43531,12 +43531,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2880, col: 11, offset: 91064},
+										pos: position{line: 2880, col: 11, offset: 91066},
 										run: (*parser).callonSectionTitleLineElement27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2880, col: 11, offset: 91064},
+											pos: position{line: 2880, col: 11, offset: 91066},
 											expr: &charClassMatcher{
-												pos:        position{line: 2880, col: 11, offset: 91064},
+												pos:        position{line: 2880, col: 11, offset: 91066},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -43545,25 +43545,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2501, col: 5, offset: 80606},
+										pos: position{line: 2501, col: 5, offset: 80608},
 										run: (*parser).callonSectionTitleLineElement30,
 										expr: &seqExpr{
-											pos: position{line: 2501, col: 5, offset: 80606},
+											pos: position{line: 2501, col: 5, offset: 80608},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2501, col: 5, offset: 80606},
+													pos: position{line: 2501, col: 5, offset: 80608},
 													run: (*parser).callonSectionTitleLineElement32,
 												},
 												&litMatcher{
-													pos:        position{line: 2504, col: 5, offset: 80677},
+													pos:        position{line: 2504, col: 5, offset: 80679},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2504, col: 10, offset: 80682},
+													pos: position{line: 2504, col: 10, offset: 80684},
 													expr: &charClassMatcher{
-														pos:        position{line: 2504, col: 11, offset: 80683},
+														pos:        position{line: 2504, col: 11, offset: 80685},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -43574,29 +43574,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2510, col: 5, offset: 80875},
+										pos: position{line: 2510, col: 5, offset: 80877},
 										run: (*parser).callonSectionTitleLineElement36,
 										expr: &seqExpr{
-											pos: position{line: 2510, col: 5, offset: 80875},
+											pos: position{line: 2510, col: 5, offset: 80877},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2510, col: 5, offset: 80875},
+													pos: position{line: 2510, col: 5, offset: 80877},
 													run: (*parser).callonSectionTitleLineElement38,
 												},
 												&andCodeExpr{
-													pos: position{line: 2513, col: 5, offset: 80946},
+													pos: position{line: 2513, col: 5, offset: 80948},
 													run: (*parser).callonSectionTitleLineElement39,
 												},
 												&litMatcher{
-													pos:        position{line: 2517, col: 5, offset: 81071},
+													pos:        position{line: 2517, col: 5, offset: 81073},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2517, col: 9, offset: 81075},
+													pos: position{line: 2517, col: 9, offset: 81077},
 													expr: &charClassMatcher{
-														pos:        position{line: 2517, col: 10, offset: 81076},
+														pos:        position{line: 2517, col: 10, offset: 81078},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -43607,31 +43607,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2331, col: 11, offset: 75449},
+										pos:  position{line: 2331, col: 11, offset: 75451},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2793, col: 5, offset: 88657},
+										pos: position{line: 2793, col: 5, offset: 88659},
 										run: (*parser).callonSectionTitleLineElement44,
 										expr: &choiceExpr{
-											pos: position{line: 2794, col: 9, offset: 88667},
+											pos: position{line: 2794, col: 9, offset: 88669},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2794, col: 10, offset: 88668},
+													pos:        position{line: 2794, col: 10, offset: 88670},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2796, col: 13, offset: 88765},
+													pos: position{line: 2796, col: 13, offset: 88767},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2796, col: 13, offset: 88765},
+															pos: position{line: 2796, col: 13, offset: 88767},
 															run: (*parser).callonSectionTitleLineElement48,
 														},
 														&litMatcher{
-															pos:        position{line: 2799, col: 13, offset: 88865},
+															pos:        position{line: 2799, col: 13, offset: 88867},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -43639,20 +43639,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2799, col: 19, offset: 88871},
+													pos:        position{line: 2799, col: 19, offset: 88873},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2802, col: 13, offset: 88909},
+													pos: position{line: 2802, col: 13, offset: 88911},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2802, col: 13, offset: 88909},
+															pos: position{line: 2802, col: 13, offset: 88911},
 															run: (*parser).callonSectionTitleLineElement52,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2805, col: 14, offset: 89002},
+															pos:        position{line: 2805, col: 14, offset: 89004},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -43661,18 +43661,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2807, col: 12, offset: 89046},
+													pos: position{line: 2807, col: 12, offset: 89048},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2807, col: 12, offset: 89046},
+															pos:        position{line: 2807, col: 12, offset: 89048},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2807, col: 16, offset: 89050},
+															pos: position{line: 2807, col: 16, offset: 89052},
 															expr: &litMatcher{
-																pos:        position{line: 2807, col: 17, offset: 89051},
+																pos:        position{line: 2807, col: 17, offset: 89053},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -43684,35 +43684,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2333, col: 11, offset: 75522},
+										pos:  position{line: 2333, col: 11, offset: 75524},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2334, col: 11, offset: 75538},
+										pos:  position{line: 2334, col: 11, offset: 75540},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2335, col: 11, offset: 75566},
+										pos:  position{line: 2335, col: 11, offset: 75568},
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2470, col: 5, offset: 79435},
+										pos: position{line: 2470, col: 5, offset: 79437},
 										run: (*parser).callonSectionTitleLineElement61,
 										expr: &seqExpr{
-											pos: position{line: 2470, col: 5, offset: 79435},
+											pos: position{line: 2470, col: 5, offset: 79437},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2470, col: 5, offset: 79435},
+													pos: position{line: 2470, col: 5, offset: 79437},
 													run: (*parser).callonSectionTitleLineElement63,
 												},
 												&labeledExpr{
-													pos:   position{line: 2473, col: 5, offset: 79511},
+													pos:   position{line: 2473, col: 5, offset: 79513},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2474, col: 9, offset: 79529},
+														pos: position{line: 2474, col: 9, offset: 79531},
 														run: (*parser).callonSectionTitleLineElement65,
 														expr: &charClassMatcher{
-															pos:        position{line: 2474, col: 10, offset: 79530},
+															pos:        position{line: 2474, col: 10, offset: 79532},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -43724,7 +43724,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2337, col: 11, offset: 75651},
+										pos:  position{line: 2337, col: 11, offset: 75653},
 										name: "InlineIcon",
 									},
 									&actionExpr{
@@ -43899,28 +43899,28 @@ var g = &grammar{
 																			expr: &zeroOrOneExpr{
 																				pos: position{line: 657, col: 62, offset: 20835},
 																				expr: &actionExpr{
-																					pos: position{line: 665, col: 17, offset: 21130},
+																					pos: position{line: 665, col: 17, offset: 21132},
 																					run: (*parser).callonSectionTitleLineElement104,
 																					expr: &seqExpr{
-																						pos: position{line: 665, col: 17, offset: 21130},
+																						pos: position{line: 665, col: 17, offset: 21132},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 665, col: 17, offset: 21130},
+																								pos:        position{line: 665, col: 17, offset: 21132},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 665, col: 21, offset: 21134},
+																								pos:   position{line: 665, col: 21, offset: 21136},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 665, col: 28, offset: 21141},
+																									pos: position{line: 665, col: 28, offset: 21143},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 665, col: 28, offset: 21141},
+																											pos: position{line: 665, col: 28, offset: 21143},
 																											run: (*parser).callonSectionTitleLineElement109,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 665, col: 28, offset: 21141},
+																												pos:        position{line: 665, col: 28, offset: 21143},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -43928,12 +43928,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 667, col: 9, offset: 21195},
+																											pos: position{line: 667, col: 9, offset: 21197},
 																											run: (*parser).callonSectionTitleLineElement111,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 667, col: 9, offset: 21195},
+																												pos: position{line: 667, col: 9, offset: 21197},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 667, col: 9, offset: 21195},
+																													pos:        position{line: 667, col: 9, offset: 21197},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -44008,28 +44008,28 @@ var g = &grammar{
 																			expr: &zeroOrOneExpr{
 																				pos: position{line: 661, col: 63, offset: 21007},
 																				expr: &actionExpr{
-																					pos: position{line: 665, col: 17, offset: 21130},
+																					pos: position{line: 665, col: 17, offset: 21132},
 																					run: (*parser).callonSectionTitleLineElement126,
 																					expr: &seqExpr{
-																						pos: position{line: 665, col: 17, offset: 21130},
+																						pos: position{line: 665, col: 17, offset: 21132},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 665, col: 17, offset: 21130},
+																								pos:        position{line: 665, col: 17, offset: 21132},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 665, col: 21, offset: 21134},
+																								pos:   position{line: 665, col: 21, offset: 21136},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 665, col: 28, offset: 21141},
+																									pos: position{line: 665, col: 28, offset: 21143},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 665, col: 28, offset: 21141},
+																											pos: position{line: 665, col: 28, offset: 21143},
 																											run: (*parser).callonSectionTitleLineElement131,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 665, col: 28, offset: 21141},
+																												pos:        position{line: 665, col: 28, offset: 21143},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -44037,12 +44037,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 667, col: 9, offset: 21195},
+																											pos: position{line: 667, col: 9, offset: 21197},
 																											run: (*parser).callonSectionTitleLineElement133,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 667, col: 9, offset: 21195},
+																												pos: position{line: 667, col: 9, offset: 21197},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 667, col: 9, offset: 21195},
+																													pos:        position{line: 667, col: 9, offset: 21197},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -44074,27 +44074,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1197, col: 23, offset: 36984},
+										pos: position{line: 1197, col: 23, offset: 36986},
 										run: (*parser).callonSectionTitleLineElement137,
 										expr: &seqExpr{
-											pos: position{line: 1197, col: 23, offset: 36984},
+											pos: position{line: 1197, col: 23, offset: 36986},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1195, col: 32, offset: 36952},
+													pos:        position{line: 1195, col: 32, offset: 36954},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1197, col: 51, offset: 37012},
+													pos:   position{line: 1197, col: 51, offset: 37014},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1197, col: 56, offset: 37017},
+														pos: position{line: 1197, col: 56, offset: 37019},
 														run: (*parser).callonSectionTitleLineElement141,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1197, col: 56, offset: 37017},
+															pos: position{line: 1197, col: 56, offset: 37019},
 															expr: &charClassMatcher{
-																pos:        position{line: 1197, col: 56, offset: 37017},
+																pos:        position{line: 1197, col: 56, offset: 37019},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -44104,30 +44104,30 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1195, col: 32, offset: 36952},
+													pos:        position{line: 1195, col: 32, offset: 36954},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&andCodeExpr{
-													pos: position{line: 1198, col: 5, offset: 37089},
+													pos: position{line: 1198, col: 5, offset: 37091},
 													run: (*parser).callonSectionTitleLineElement145,
 												},
 											},
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2353, col: 5, offset: 76145},
+										pos: position{line: 2353, col: 5, offset: 76147},
 										run: (*parser).callonSectionTitleLineElement146,
 										expr: &seqExpr{
-											pos: position{line: 2353, col: 5, offset: 76145},
+											pos: position{line: 2353, col: 5, offset: 76147},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2353, col: 5, offset: 76145},
+													pos: position{line: 2353, col: 5, offset: 76147},
 													run: (*parser).callonSectionTitleLineElement148,
 												},
 												&labeledExpr{
-													pos:   position{line: 2356, col: 5, offset: 76200},
+													pos:   position{line: 2356, col: 5, offset: 76202},
 													label: "id",
 													expr: &actionExpr{
 														pos: position{line: 403, col: 5, offset: 12344},
@@ -44170,27 +44170,27 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 1197, col: 23, offset: 36984},
+																							pos: position{line: 1197, col: 23, offset: 36986},
 																							run: (*parser).callonSectionTitleLineElement161,
 																							expr: &seqExpr{
-																								pos: position{line: 1197, col: 23, offset: 36984},
+																								pos: position{line: 1197, col: 23, offset: 36986},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 1195, col: 32, offset: 36952},
+																										pos:        position{line: 1195, col: 32, offset: 36954},
 																										val:        "�",
 																										ignoreCase: false,
 																										want:       "\"�\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1197, col: 51, offset: 37012},
+																										pos:   position{line: 1197, col: 51, offset: 37014},
 																										label: "ref",
 																										expr: &actionExpr{
-																											pos: position{line: 1197, col: 56, offset: 37017},
+																											pos: position{line: 1197, col: 56, offset: 37019},
 																											run: (*parser).callonSectionTitleLineElement165,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1197, col: 56, offset: 37017},
+																												pos: position{line: 1197, col: 56, offset: 37019},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1197, col: 56, offset: 37017},
+																													pos:        position{line: 1197, col: 56, offset: 37019},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -44200,13 +44200,13 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1195, col: 32, offset: 36952},
+																										pos:        position{line: 1195, col: 32, offset: 36954},
 																										val:        "�",
 																										ignoreCase: false,
 																										want:       "\"�\"",
 																									},
 																									&andCodeExpr{
-																										pos: position{line: 1198, col: 5, offset: 37089},
+																										pos: position{line: 1198, col: 5, offset: 37091},
 																										run: (*parser).callonSectionTitleLineElement169,
 																									},
 																								},
@@ -44384,28 +44384,28 @@ var g = &grammar{
 																																expr: &zeroOrOneExpr{
 																																	pos: position{line: 657, col: 62, offset: 20835},
 																																	expr: &actionExpr{
-																																		pos: position{line: 665, col: 17, offset: 21130},
+																																		pos: position{line: 665, col: 17, offset: 21132},
 																																		run: (*parser).callonSectionTitleLineElement206,
 																																		expr: &seqExpr{
-																																			pos: position{line: 665, col: 17, offset: 21130},
+																																			pos: position{line: 665, col: 17, offset: 21132},
 																																			exprs: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 665, col: 17, offset: 21130},
+																																					pos:        position{line: 665, col: 17, offset: 21132},
 																																					val:        ":",
 																																					ignoreCase: false,
 																																					want:       "\":\"",
 																																				},
 																																				&labeledExpr{
-																																					pos:   position{line: 665, col: 21, offset: 21134},
+																																					pos:   position{line: 665, col: 21, offset: 21136},
 																																					label: "start",
 																																					expr: &choiceExpr{
-																																						pos: position{line: 665, col: 28, offset: 21141},
+																																						pos: position{line: 665, col: 28, offset: 21143},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 665, col: 28, offset: 21141},
+																																								pos: position{line: 665, col: 28, offset: 21143},
 																																								run: (*parser).callonSectionTitleLineElement211,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 665, col: 28, offset: 21141},
+																																									pos:        position{line: 665, col: 28, offset: 21143},
 																																									val:        "[A-Za-z]",
 																																									ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																									ignoreCase: false,
@@ -44413,12 +44413,12 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&actionExpr{
-																																								pos: position{line: 667, col: 9, offset: 21195},
+																																								pos: position{line: 667, col: 9, offset: 21197},
 																																								run: (*parser).callonSectionTitleLineElement213,
 																																								expr: &oneOrMoreExpr{
-																																									pos: position{line: 667, col: 9, offset: 21195},
+																																									pos: position{line: 667, col: 9, offset: 21197},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 667, col: 9, offset: 21195},
+																																										pos:        position{line: 667, col: 9, offset: 21197},
 																																										val:        "[0-9]",
 																																										ranges:     []rune{'0', '9'},
 																																										ignoreCase: false,
@@ -44493,28 +44493,28 @@ var g = &grammar{
 																																expr: &zeroOrOneExpr{
 																																	pos: position{line: 661, col: 63, offset: 21007},
 																																	expr: &actionExpr{
-																																		pos: position{line: 665, col: 17, offset: 21130},
+																																		pos: position{line: 665, col: 17, offset: 21132},
 																																		run: (*parser).callonSectionTitleLineElement228,
 																																		expr: &seqExpr{
-																																			pos: position{line: 665, col: 17, offset: 21130},
+																																			pos: position{line: 665, col: 17, offset: 21132},
 																																			exprs: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 665, col: 17, offset: 21130},
+																																					pos:        position{line: 665, col: 17, offset: 21132},
 																																					val:        ":",
 																																					ignoreCase: false,
 																																					want:       "\":\"",
 																																				},
 																																				&labeledExpr{
-																																					pos:   position{line: 665, col: 21, offset: 21134},
+																																					pos:   position{line: 665, col: 21, offset: 21136},
 																																					label: "start",
 																																					expr: &choiceExpr{
-																																						pos: position{line: 665, col: 28, offset: 21141},
+																																						pos: position{line: 665, col: 28, offset: 21143},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 665, col: 28, offset: 21141},
+																																								pos: position{line: 665, col: 28, offset: 21143},
 																																								run: (*parser).callonSectionTitleLineElement233,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 665, col: 28, offset: 21141},
+																																									pos:        position{line: 665, col: 28, offset: 21143},
 																																									val:        "[A-Za-z]",
 																																									ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																									ignoreCase: false,
@@ -44522,12 +44522,12 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&actionExpr{
-																																								pos: position{line: 667, col: 9, offset: 21195},
+																																								pos: position{line: 667, col: 9, offset: 21197},
 																																								run: (*parser).callonSectionTitleLineElement235,
 																																								expr: &oneOrMoreExpr{
-																																									pos: position{line: 667, col: 9, offset: 21195},
+																																									pos: position{line: 667, col: 9, offset: 21197},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 667, col: 9, offset: 21195},
+																																										pos:        position{line: 667, col: 9, offset: 21197},
 																																										val:        "[0-9]",
 																																										ranges:     []rune{'0', '9'},
 																																										ignoreCase: false,
@@ -44585,12 +44585,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2356, col: 26, offset: 76221},
+													pos: position{line: 2356, col: 26, offset: 76223},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 91003},
+														pos: position{line: 2876, col: 10, offset: 91005},
 														run: (*parser).callonSectionTitleLineElement243,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 91003},
+															pos:        position{line: 2876, col: 10, offset: 91005},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -44599,30 +44599,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 2356, col: 33, offset: 76228},
+													pos: position{line: 2356, col: 33, offset: 76230},
 													expr: &choiceExpr{
-														pos: position{line: 2898, col: 8, offset: 91401},
+														pos: position{line: 2898, col: 8, offset: 91403},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2885, col: 12, offset: 91174},
+																pos: position{line: 2885, col: 12, offset: 91176},
 																run: (*parser).callonSectionTitleLineElement247,
 																expr: &choiceExpr{
-																	pos: position{line: 2885, col: 13, offset: 91175},
+																	pos: position{line: 2885, col: 13, offset: 91177},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 13, offset: 91175},
+																			pos:        position{line: 2885, col: 13, offset: 91177},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 20, offset: 91182},
+																			pos:        position{line: 2885, col: 20, offset: 91184},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 29, offset: 91191},
+																			pos:        position{line: 2885, col: 29, offset: 91193},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -44631,9 +44631,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91351},
+																pos: position{line: 2895, col: 8, offset: 91353},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91352,
+																	line: 2895, col: 9, offset: 91354,
 																},
 															},
 														},
@@ -44643,27 +44643,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1256, col: 5, offset: 38847},
+										pos: position{line: 1256, col: 5, offset: 38849},
 										run: (*parser).callonSectionTitleLineElement254,
 										expr: &seqExpr{
-											pos: position{line: 1256, col: 5, offset: 38847},
+											pos: position{line: 1256, col: 5, offset: 38849},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1256, col: 5, offset: 38847},
+													pos:        position{line: 1256, col: 5, offset: 38849},
 													val:        "\\[[",
 													ignoreCase: false,
 													want:       "\"\\\\[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1256, col: 14, offset: 38856},
+													pos:   position{line: 1256, col: 14, offset: 38858},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2861, col: 7, offset: 90655},
+														pos: position{line: 2861, col: 7, offset: 90657},
 														run: (*parser).callonSectionTitleLineElement258,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2861, col: 7, offset: 90655},
+															pos: position{line: 2861, col: 7, offset: 90657},
 															expr: &charClassMatcher{
-																pos:        position{line: 2861, col: 7, offset: 90655},
+																pos:        position{line: 2861, col: 7, offset: 90657},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -44673,7 +44673,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1256, col: 22, offset: 38864},
+													pos:        position{line: 1256, col: 22, offset: 38866},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -44682,27 +44682,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1261, col: 5, offset: 38983},
+										pos: position{line: 1261, col: 5, offset: 38985},
 										run: (*parser).callonSectionTitleLineElement262,
 										expr: &seqExpr{
-											pos: position{line: 1261, col: 5, offset: 38983},
+											pos: position{line: 1261, col: 5, offset: 38985},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1261, col: 5, offset: 38983},
+													pos:        position{line: 1261, col: 5, offset: 38985},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1261, col: 10, offset: 38988},
+													pos:   position{line: 1261, col: 10, offset: 38990},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2861, col: 7, offset: 90655},
+														pos: position{line: 2861, col: 7, offset: 90657},
 														run: (*parser).callonSectionTitleLineElement266,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2861, col: 7, offset: 90655},
+															pos: position{line: 2861, col: 7, offset: 90657},
 															expr: &charClassMatcher{
-																pos:        position{line: 2861, col: 7, offset: 90655},
+																pos:        position{line: 2861, col: 7, offset: 90657},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -44712,7 +44712,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1261, col: 18, offset: 38996},
+													pos:        position{line: 1261, col: 18, offset: 38998},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -44721,20 +44721,20 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2342, col: 11, offset: 75905},
+										pos:  position{line: 2342, col: 11, offset: 75907},
 										name: "InlineFootnote",
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2343, col: 5, offset: 75925},
+							pos:   position{line: 2343, col: 5, offset: 75927},
 							label: "end",
 							expr: &actionExpr{
-								pos: position{line: 2901, col: 16, offset: 91525},
+								pos: position{line: 2901, col: 16, offset: 91527},
 								run: (*parser).callonSectionTitleLineElement272,
 								expr: &litMatcher{
-									pos:        position{line: 2901, col: 16, offset: 91525},
+									pos:        position{line: 2901, col: 16, offset: 91527},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -44742,7 +44742,7 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2344, col: 5, offset: 75947},
+							pos: position{line: 2344, col: 5, offset: 75949},
 							run: (*parser).callonSectionTitleLineElement274,
 						},
 					},
@@ -44751,52 +44751,52 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2366, col: 1, offset: 76490},
+			pos:  position{line: 2366, col: 1, offset: 76492},
 			expr: &actionExpr{
-				pos: position{line: 2367, col: 5, offset: 76577},
+				pos: position{line: 2367, col: 5, offset: 76579},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2367, col: 5, offset: 76577},
+					pos: position{line: 2367, col: 5, offset: 76579},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2367, col: 5, offset: 76577},
+							pos:   position{line: 2367, col: 5, offset: 76579},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2367, col: 14, offset: 76586},
+								pos: position{line: 2367, col: 14, offset: 76588},
 								expr: &actionExpr{
-									pos: position{line: 2369, col: 9, offset: 76612},
+									pos: position{line: 2369, col: 9, offset: 76614},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2369, col: 9, offset: 76612},
+										pos: position{line: 2369, col: 9, offset: 76614},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2893, col: 11, offset: 91337},
+												pos: position{line: 2893, col: 11, offset: 91339},
 												expr: &anyMatcher{
-													line: 2893, col: 13, offset: 91339,
+													line: 2893, col: 13, offset: 91341,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2370, col: 9, offset: 76627},
+												pos:   position{line: 2370, col: 9, offset: 76629},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2371, col: 13, offset: 76649},
+													pos: position{line: 2371, col: 13, offset: 76651},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2775, col: 5, offset: 88224},
+															pos: position{line: 2775, col: 5, offset: 88226},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2775, col: 5, offset: 88224},
+																pos: position{line: 2775, col: 5, offset: 88226},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 2775, col: 5, offset: 88224},
+																		pos:   position{line: 2775, col: 5, offset: 88226},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2775, col: 11, offset: 88230},
+																			pos: position{line: 2775, col: 11, offset: 88232},
 																			run: (*parser).callonNormalGroup14,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2775, col: 11, offset: 88230},
+																				pos: position{line: 2775, col: 11, offset: 88232},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2775, col: 11, offset: 88230},
+																					pos:        position{line: 2775, col: 11, offset: 88232},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -44806,44 +44806,44 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2778, col: 5, offset: 88288},
+																		pos: position{line: 2778, col: 5, offset: 88290},
 																		expr: &seqExpr{
-																			pos: position{line: 2779, col: 9, offset: 88299},
+																			pos: position{line: 2779, col: 9, offset: 88301},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2779, col: 9, offset: 88299},
+																					pos:        position{line: 2779, col: 9, offset: 88301},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2780, col: 9, offset: 88348},
+																					pos: position{line: 2780, col: 9, offset: 88350},
 																					run: (*parser).callonNormalGroup20,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2784, col: 5, offset: 88428},
+																		pos: position{line: 2784, col: 5, offset: 88430},
 																		expr: &seqExpr{
-																			pos: position{line: 2785, col: 9, offset: 88439},
+																			pos: position{line: 2785, col: 9, offset: 88441},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 2785, col: 9, offset: 88439},
+																					pos: position{line: 2785, col: 9, offset: 88441},
 																					expr: &seqExpr{
-																						pos: position{line: 2785, col: 10, offset: 88440},
+																						pos: position{line: 2785, col: 10, offset: 88442},
 																						exprs: []interface{}{
 																							&charClassMatcher{
-																								pos:        position{line: 2785, col: 10, offset: 88440},
+																								pos:        position{line: 2785, col: 10, offset: 88442},
 																								val:        "[._%+-]",
 																								chars:      []rune{'.', '_', '%', '+', '-'},
 																								ignoreCase: false,
 																								inverted:   false,
 																							},
 																							&oneOrMoreExpr{
-																								pos: position{line: 2785, col: 18, offset: 88448},
+																								pos: position{line: 2785, col: 18, offset: 88450},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2785, col: 18, offset: 88448},
+																									pos:        position{line: 2785, col: 18, offset: 88450},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -44854,13 +44854,13 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2785, col: 30, offset: 88460},
+																					pos:        position{line: 2785, col: 30, offset: 88462},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2785, col: 34, offset: 88464},
+																					pos:        position{line: 2785, col: 34, offset: 88466},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -44873,12 +44873,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2880, col: 11, offset: 91064},
+															pos: position{line: 2880, col: 11, offset: 91066},
 															run: (*parser).callonNormalGroup30,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2880, col: 11, offset: 91064},
+																pos: position{line: 2880, col: 11, offset: 91066},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2880, col: 11, offset: 91064},
+																	pos:        position{line: 2880, col: 11, offset: 91066},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -44887,29 +44887,29 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2373, col: 15, offset: 76695},
+															pos:  position{line: 2373, col: 15, offset: 76697},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2501, col: 5, offset: 80606},
+															pos: position{line: 2501, col: 5, offset: 80608},
 															run: (*parser).callonNormalGroup34,
 															expr: &seqExpr{
-																pos: position{line: 2501, col: 5, offset: 80606},
+																pos: position{line: 2501, col: 5, offset: 80608},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2501, col: 5, offset: 80606},
+																		pos: position{line: 2501, col: 5, offset: 80608},
 																		run: (*parser).callonNormalGroup36,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2504, col: 5, offset: 80677},
+																		pos:        position{line: 2504, col: 5, offset: 80679},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2504, col: 10, offset: 80682},
+																		pos: position{line: 2504, col: 10, offset: 80684},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2504, col: 11, offset: 80683},
+																			pos:        position{line: 2504, col: 11, offset: 80685},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -44920,29 +44920,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2510, col: 5, offset: 80875},
+															pos: position{line: 2510, col: 5, offset: 80877},
 															run: (*parser).callonNormalGroup40,
 															expr: &seqExpr{
-																pos: position{line: 2510, col: 5, offset: 80875},
+																pos: position{line: 2510, col: 5, offset: 80877},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2510, col: 5, offset: 80875},
+																		pos: position{line: 2510, col: 5, offset: 80877},
 																		run: (*parser).callonNormalGroup42,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2513, col: 5, offset: 80946},
+																		pos: position{line: 2513, col: 5, offset: 80948},
 																		run: (*parser).callonNormalGroup43,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2517, col: 5, offset: 81071},
+																		pos:        position{line: 2517, col: 5, offset: 81073},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2517, col: 9, offset: 81075},
+																		pos: position{line: 2517, col: 9, offset: 81077},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2517, col: 10, offset: 81076},
+																			pos:        position{line: 2517, col: 10, offset: 81078},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -44953,27 +44953,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2793, col: 5, offset: 88657},
+															pos: position{line: 2793, col: 5, offset: 88659},
 															run: (*parser).callonNormalGroup47,
 															expr: &choiceExpr{
-																pos: position{line: 2794, col: 9, offset: 88667},
+																pos: position{line: 2794, col: 9, offset: 88669},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2794, col: 10, offset: 88668},
+																		pos:        position{line: 2794, col: 10, offset: 88670},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2796, col: 13, offset: 88765},
+																		pos: position{line: 2796, col: 13, offset: 88767},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2796, col: 13, offset: 88765},
+																				pos: position{line: 2796, col: 13, offset: 88767},
 																				run: (*parser).callonNormalGroup51,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2799, col: 13, offset: 88865},
+																				pos:        position{line: 2799, col: 13, offset: 88867},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -44981,20 +44981,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2799, col: 19, offset: 88871},
+																		pos:        position{line: 2799, col: 19, offset: 88873},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2802, col: 13, offset: 88909},
+																		pos: position{line: 2802, col: 13, offset: 88911},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2802, col: 13, offset: 88909},
+																				pos: position{line: 2802, col: 13, offset: 88911},
 																				run: (*parser).callonNormalGroup55,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2805, col: 14, offset: 89002},
+																				pos:        position{line: 2805, col: 14, offset: 89004},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -45003,18 +45003,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2807, col: 12, offset: 89046},
+																		pos: position{line: 2807, col: 12, offset: 89048},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2807, col: 12, offset: 89046},
+																				pos:        position{line: 2807, col: 12, offset: 89048},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2807, col: 16, offset: 89050},
+																				pos: position{line: 2807, col: 16, offset: 89052},
 																				expr: &litMatcher{
-																					pos:        position{line: 2807, col: 17, offset: 89051},
+																					pos:        position{line: 2807, col: 17, offset: 89053},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -45026,25 +45026,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91174},
+															pos: position{line: 2885, col: 12, offset: 91176},
 															run: (*parser).callonNormalGroup61,
 															expr: &choiceExpr{
-																pos: position{line: 2885, col: 13, offset: 91175},
+																pos: position{line: 2885, col: 13, offset: 91177},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 13, offset: 91175},
+																		pos:        position{line: 2885, col: 13, offset: 91177},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 20, offset: 91182},
+																		pos:        position{line: 2885, col: 20, offset: 91184},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 29, offset: 91191},
+																		pos:        position{line: 2885, col: 29, offset: 91193},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -45224,28 +45224,28 @@ var g = &grammar{
 																								expr: &zeroOrOneExpr{
 																									pos: position{line: 657, col: 62, offset: 20835},
 																									expr: &actionExpr{
-																										pos: position{line: 665, col: 17, offset: 21130},
+																										pos: position{line: 665, col: 17, offset: 21132},
 																										run: (*parser).callonNormalGroup102,
 																										expr: &seqExpr{
-																											pos: position{line: 665, col: 17, offset: 21130},
+																											pos: position{line: 665, col: 17, offset: 21132},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 665, col: 17, offset: 21130},
+																													pos:        position{line: 665, col: 17, offset: 21132},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 665, col: 21, offset: 21134},
+																													pos:   position{line: 665, col: 21, offset: 21136},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 665, col: 28, offset: 21141},
+																														pos: position{line: 665, col: 28, offset: 21143},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 665, col: 28, offset: 21141},
+																																pos: position{line: 665, col: 28, offset: 21143},
 																																run: (*parser).callonNormalGroup107,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 665, col: 28, offset: 21141},
+																																	pos:        position{line: 665, col: 28, offset: 21143},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -45253,12 +45253,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 667, col: 9, offset: 21195},
+																																pos: position{line: 667, col: 9, offset: 21197},
 																																run: (*parser).callonNormalGroup109,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 667, col: 9, offset: 21195},
+																																	pos: position{line: 667, col: 9, offset: 21197},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 667, col: 9, offset: 21195},
+																																		pos:        position{line: 667, col: 9, offset: 21197},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -45333,28 +45333,28 @@ var g = &grammar{
 																								expr: &zeroOrOneExpr{
 																									pos: position{line: 661, col: 63, offset: 21007},
 																									expr: &actionExpr{
-																										pos: position{line: 665, col: 17, offset: 21130},
+																										pos: position{line: 665, col: 17, offset: 21132},
 																										run: (*parser).callonNormalGroup124,
 																										expr: &seqExpr{
-																											pos: position{line: 665, col: 17, offset: 21130},
+																											pos: position{line: 665, col: 17, offset: 21132},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 665, col: 17, offset: 21130},
+																													pos:        position{line: 665, col: 17, offset: 21132},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 665, col: 21, offset: 21134},
+																													pos:   position{line: 665, col: 21, offset: 21136},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 665, col: 28, offset: 21141},
+																														pos: position{line: 665, col: 28, offset: 21143},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 665, col: 28, offset: 21141},
+																																pos: position{line: 665, col: 28, offset: 21143},
 																																run: (*parser).callonNormalGroup129,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 665, col: 28, offset: 21141},
+																																	pos:        position{line: 665, col: 28, offset: 21143},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -45362,12 +45362,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 667, col: 9, offset: 21195},
+																																pos: position{line: 667, col: 9, offset: 21197},
 																																run: (*parser).callonNormalGroup131,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 667, col: 9, offset: 21195},
+																																	pos: position{line: 667, col: 9, offset: 21197},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 667, col: 9, offset: 21195},
+																																		pos:        position{line: 667, col: 9, offset: 21197},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -45399,35 +45399,35 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2378, col: 15, offset: 76862},
+															pos:  position{line: 2378, col: 15, offset: 76864},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2379, col: 15, offset: 76882},
+															pos:  position{line: 2379, col: 15, offset: 76884},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2380, col: 15, offset: 76971},
+															pos:  position{line: 2380, col: 15, offset: 76973},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2470, col: 5, offset: 79435},
+															pos: position{line: 2470, col: 5, offset: 79437},
 															run: (*parser).callonNormalGroup138,
 															expr: &seqExpr{
-																pos: position{line: 2470, col: 5, offset: 79435},
+																pos: position{line: 2470, col: 5, offset: 79437},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2470, col: 5, offset: 79435},
+																		pos: position{line: 2470, col: 5, offset: 79437},
 																		run: (*parser).callonNormalGroup140,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2473, col: 5, offset: 79511},
+																		pos:   position{line: 2473, col: 5, offset: 79513},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2474, col: 9, offset: 79529},
+																			pos: position{line: 2474, col: 9, offset: 79531},
 																			run: (*parser).callonNormalGroup142,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2474, col: 10, offset: 79530},
+																				pos:        position{line: 2474, col: 10, offset: 79532},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -45439,32 +45439,32 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1209, col: 5, offset: 37533},
+															pos: position{line: 1209, col: 5, offset: 37535},
 															run: (*parser).callonNormalGroup144,
 															expr: &seqExpr{
-																pos: position{line: 1209, col: 5, offset: 37533},
+																pos: position{line: 1209, col: 5, offset: 37535},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1209, col: 5, offset: 37533},
+																		pos: position{line: 1209, col: 5, offset: 37535},
 																		run: (*parser).callonNormalGroup146,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1212, col: 5, offset: 37609},
+																		pos:        position{line: 1212, col: 5, offset: 37611},
 																		val:        "+",
 																		ignoreCase: false,
 																		want:       "\"+\"",
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1213, col: 5, offset: 37617},
+																		pos: position{line: 1213, col: 5, offset: 37619},
 																		run: (*parser).callonNormalGroup148,
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1217, col: 5, offset: 37704},
+																		pos: position{line: 1217, col: 5, offset: 37706},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 91003},
+																			pos: position{line: 2876, col: 10, offset: 91005},
 																			run: (*parser).callonNormalGroup150,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 91003},
+																				pos:        position{line: 2876, col: 10, offset: 91005},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45473,30 +45473,30 @@ var g = &grammar{
 																		},
 																	},
 																	&andExpr{
-																		pos: position{line: 1217, col: 12, offset: 37711},
+																		pos: position{line: 1217, col: 12, offset: 37713},
 																		expr: &choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91401},
+																			pos: position{line: 2898, col: 8, offset: 91403},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91174},
+																					pos: position{line: 2885, col: 12, offset: 91176},
 																					run: (*parser).callonNormalGroup154,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91175},
+																						pos: position{line: 2885, col: 13, offset: 91177},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91175},
+																								pos:        position{line: 2885, col: 13, offset: 91177},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91182},
+																								pos:        position{line: 2885, col: 20, offset: 91184},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91191},
+																								pos:        position{line: 2885, col: 29, offset: 91193},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -45505,9 +45505,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91351},
+																					pos: position{line: 2895, col: 8, offset: 91353},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91352,
+																						line: 2895, col: 9, offset: 91354,
 																					},
 																				},
 																			},
@@ -45517,31 +45517,31 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2383, col: 15, offset: 77153},
+															pos:  position{line: 2383, col: 15, offset: 77155},
 															name: "InlinePassthrough",
 														},
 														&actionExpr{
-															pos: position{line: 1197, col: 23, offset: 36984},
+															pos: position{line: 1197, col: 23, offset: 36986},
 															run: (*parser).callonNormalGroup162,
 															expr: &seqExpr{
-																pos: position{line: 1197, col: 23, offset: 36984},
+																pos: position{line: 1197, col: 23, offset: 36986},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1195, col: 32, offset: 36952},
+																		pos:        position{line: 1195, col: 32, offset: 36954},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1197, col: 51, offset: 37012},
+																		pos:   position{line: 1197, col: 51, offset: 37014},
 																		label: "ref",
 																		expr: &actionExpr{
-																			pos: position{line: 1197, col: 56, offset: 37017},
+																			pos: position{line: 1197, col: 56, offset: 37019},
 																			run: (*parser).callonNormalGroup166,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1197, col: 56, offset: 37017},
+																				pos: position{line: 1197, col: 56, offset: 37019},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1197, col: 56, offset: 37017},
+																					pos:        position{line: 1197, col: 56, offset: 37019},
 																					val:        "[0-9]",
 																					ranges:     []rune{'0', '9'},
 																					ignoreCase: false,
@@ -45551,23 +45551,23 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1195, col: 32, offset: 36952},
+																		pos:        position{line: 1195, col: 32, offset: 36954},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1198, col: 5, offset: 37089},
+																		pos: position{line: 1198, col: 5, offset: 37091},
 																		run: (*parser).callonNormalGroup170,
 																	},
 																},
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2815, col: 12, offset: 89311},
+															pos: position{line: 2815, col: 12, offset: 89313},
 															run: (*parser).callonNormalGroup171,
 															expr: &charClassMatcher{
-																pos:        position{line: 2815, col: 12, offset: 89311},
+																pos:        position{line: 2815, col: 12, offset: 89313},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -45583,9 +45583,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2895, col: 8, offset: 91351},
+							pos: position{line: 2895, col: 8, offset: 91353},
 							expr: &anyMatcher{
-								line: 2895, col: 9, offset: 91352,
+								line: 2895, col: 9, offset: 91354,
 							},
 						},
 					},
@@ -45594,28 +45594,28 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2394, col: 1, offset: 77591},
+			pos:  position{line: 2394, col: 1, offset: 77593},
 			expr: &actionExpr{
-				pos: position{line: 2395, col: 5, offset: 77624},
+				pos: position{line: 2395, col: 5, offset: 77626},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2395, col: 5, offset: 77624},
+					pos: position{line: 2395, col: 5, offset: 77626},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2395, col: 5, offset: 77624},
+							pos:   position{line: 2395, col: 5, offset: 77626},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2395, col: 14, offset: 77633},
+								pos: position{line: 2395, col: 14, offset: 77635},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2395, col: 15, offset: 77634},
+									pos:  position{line: 2395, col: 15, offset: 77636},
 									name: "AttributeStructuredValueElement",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2895, col: 8, offset: 91351},
+							pos: position{line: 2895, col: 8, offset: 91353},
 							expr: &anyMatcher{
-								line: 2895, col: 9, offset: 91352,
+								line: 2895, col: 9, offset: 91354,
 							},
 						},
 					},
@@ -45624,41 +45624,41 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2399, col: 1, offset: 77731},
+			pos:  position{line: 2399, col: 1, offset: 77733},
 			expr: &actionExpr{
-				pos: position{line: 2400, col: 5, offset: 77771},
+				pos: position{line: 2400, col: 5, offset: 77773},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2400, col: 5, offset: 77771},
+					pos: position{line: 2400, col: 5, offset: 77773},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2893, col: 11, offset: 91337},
+							pos: position{line: 2893, col: 11, offset: 91339},
 							expr: &anyMatcher{
-								line: 2893, col: 13, offset: 91339,
+								line: 2893, col: 13, offset: 91341,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2401, col: 5, offset: 77782},
+							pos:   position{line: 2401, col: 5, offset: 77784},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2402, col: 9, offset: 77800},
+								pos: position{line: 2402, col: 9, offset: 77802},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2775, col: 5, offset: 88224},
+										pos: position{line: 2775, col: 5, offset: 88226},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2775, col: 5, offset: 88224},
+											pos: position{line: 2775, col: 5, offset: 88226},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2775, col: 5, offset: 88224},
+													pos:   position{line: 2775, col: 5, offset: 88226},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2775, col: 11, offset: 88230},
+														pos: position{line: 2775, col: 11, offset: 88232},
 														run: (*parser).callonAttributeStructuredValueElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2775, col: 11, offset: 88230},
+															pos: position{line: 2775, col: 11, offset: 88232},
 															expr: &charClassMatcher{
-																pos:        position{line: 2775, col: 11, offset: 88230},
+																pos:        position{line: 2775, col: 11, offset: 88232},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45668,44 +45668,44 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2778, col: 5, offset: 88288},
+													pos: position{line: 2778, col: 5, offset: 88290},
 													expr: &seqExpr{
-														pos: position{line: 2779, col: 9, offset: 88299},
+														pos: position{line: 2779, col: 9, offset: 88301},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2779, col: 9, offset: 88299},
+																pos:        position{line: 2779, col: 9, offset: 88301},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2780, col: 9, offset: 88348},
+																pos: position{line: 2780, col: 9, offset: 88350},
 																run: (*parser).callonAttributeStructuredValueElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2784, col: 5, offset: 88428},
+													pos: position{line: 2784, col: 5, offset: 88430},
 													expr: &seqExpr{
-														pos: position{line: 2785, col: 9, offset: 88439},
+														pos: position{line: 2785, col: 9, offset: 88441},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2785, col: 9, offset: 88439},
+																pos: position{line: 2785, col: 9, offset: 88441},
 																expr: &seqExpr{
-																	pos: position{line: 2785, col: 10, offset: 88440},
+																	pos: position{line: 2785, col: 10, offset: 88442},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2785, col: 10, offset: 88440},
+																			pos:        position{line: 2785, col: 10, offset: 88442},
 																			val:        "[._%+-]",
 																			chars:      []rune{'.', '_', '%', '+', '-'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2785, col: 18, offset: 88448},
+																			pos: position{line: 2785, col: 18, offset: 88450},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2785, col: 18, offset: 88448},
+																				pos:        position{line: 2785, col: 18, offset: 88450},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -45716,13 +45716,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2785, col: 30, offset: 88460},
+																pos:        position{line: 2785, col: 30, offset: 88462},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2785, col: 34, offset: 88464},
+																pos:        position{line: 2785, col: 34, offset: 88466},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45735,10 +45735,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2876, col: 10, offset: 91003},
+										pos: position{line: 2876, col: 10, offset: 91005},
 										run: (*parser).callonAttributeStructuredValueElement26,
 										expr: &charClassMatcher{
-											pos:        position{line: 2876, col: 10, offset: 91003},
+											pos:        position{line: 2876, col: 10, offset: 91005},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -45746,31 +45746,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2404, col: 11, offset: 77838},
+										pos:  position{line: 2404, col: 11, offset: 77840},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2793, col: 5, offset: 88657},
+										pos: position{line: 2793, col: 5, offset: 88659},
 										run: (*parser).callonAttributeStructuredValueElement29,
 										expr: &choiceExpr{
-											pos: position{line: 2794, col: 9, offset: 88667},
+											pos: position{line: 2794, col: 9, offset: 88669},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2794, col: 10, offset: 88668},
+													pos:        position{line: 2794, col: 10, offset: 88670},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2796, col: 13, offset: 88765},
+													pos: position{line: 2796, col: 13, offset: 88767},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2796, col: 13, offset: 88765},
+															pos: position{line: 2796, col: 13, offset: 88767},
 															run: (*parser).callonAttributeStructuredValueElement33,
 														},
 														&litMatcher{
-															pos:        position{line: 2799, col: 13, offset: 88865},
+															pos:        position{line: 2799, col: 13, offset: 88867},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -45778,20 +45778,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2799, col: 19, offset: 88871},
+													pos:        position{line: 2799, col: 19, offset: 88873},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2802, col: 13, offset: 88909},
+													pos: position{line: 2802, col: 13, offset: 88911},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2802, col: 13, offset: 88909},
+															pos: position{line: 2802, col: 13, offset: 88911},
 															run: (*parser).callonAttributeStructuredValueElement37,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2805, col: 14, offset: 89002},
+															pos:        position{line: 2805, col: 14, offset: 89004},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -45800,18 +45800,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2807, col: 12, offset: 89046},
+													pos: position{line: 2807, col: 12, offset: 89048},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2807, col: 12, offset: 89046},
+															pos:        position{line: 2807, col: 12, offset: 89048},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2807, col: 16, offset: 89050},
+															pos: position{line: 2807, col: 16, offset: 89052},
 															expr: &litMatcher{
-																pos:        position{line: 2807, col: 17, offset: 89051},
+																pos:        position{line: 2807, col: 17, offset: 89053},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -45823,31 +45823,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2406, col: 11, offset: 77911},
+										pos:  position{line: 2406, col: 11, offset: 77913},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2407, col: 11, offset: 77927},
+										pos:  position{line: 2407, col: 11, offset: 77929},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2470, col: 5, offset: 79435},
+										pos: position{line: 2470, col: 5, offset: 79437},
 										run: (*parser).callonAttributeStructuredValueElement45,
 										expr: &seqExpr{
-											pos: position{line: 2470, col: 5, offset: 79435},
+											pos: position{line: 2470, col: 5, offset: 79437},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2470, col: 5, offset: 79435},
+													pos: position{line: 2470, col: 5, offset: 79437},
 													run: (*parser).callonAttributeStructuredValueElement47,
 												},
 												&labeledExpr{
-													pos:   position{line: 2473, col: 5, offset: 79511},
+													pos:   position{line: 2473, col: 5, offset: 79513},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2474, col: 9, offset: 79529},
+														pos: position{line: 2474, col: 9, offset: 79531},
 														run: (*parser).callonAttributeStructuredValueElement49,
 														expr: &charClassMatcher{
-															pos:        position{line: 2474, col: 10, offset: 79530},
+															pos:        position{line: 2474, col: 10, offset: 79532},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -45859,27 +45859,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1197, col: 23, offset: 36984},
+										pos: position{line: 1197, col: 23, offset: 36986},
 										run: (*parser).callonAttributeStructuredValueElement51,
 										expr: &seqExpr{
-											pos: position{line: 1197, col: 23, offset: 36984},
+											pos: position{line: 1197, col: 23, offset: 36986},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1195, col: 32, offset: 36952},
+													pos:        position{line: 1195, col: 32, offset: 36954},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1197, col: 51, offset: 37012},
+													pos:   position{line: 1197, col: 51, offset: 37014},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1197, col: 56, offset: 37017},
+														pos: position{line: 1197, col: 56, offset: 37019},
 														run: (*parser).callonAttributeStructuredValueElement55,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1197, col: 56, offset: 37017},
+															pos: position{line: 1197, col: 56, offset: 37019},
 															expr: &charClassMatcher{
-																pos:        position{line: 1197, col: 56, offset: 37017},
+																pos:        position{line: 1197, col: 56, offset: 37019},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -45889,38 +45889,38 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1195, col: 32, offset: 36952},
+													pos:        position{line: 1195, col: 32, offset: 36954},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&andCodeExpr{
-													pos: position{line: 1198, col: 5, offset: 37089},
+													pos: position{line: 1198, col: 5, offset: 37091},
 													run: (*parser).callonAttributeStructuredValueElement59,
 												},
 											},
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2885, col: 12, offset: 91174},
+										pos: position{line: 2885, col: 12, offset: 91176},
 										run: (*parser).callonAttributeStructuredValueElement60,
 										expr: &choiceExpr{
-											pos: position{line: 2885, col: 13, offset: 91175},
+											pos: position{line: 2885, col: 13, offset: 91177},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2885, col: 13, offset: 91175},
+													pos:        position{line: 2885, col: 13, offset: 91177},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2885, col: 20, offset: 91182},
+													pos:        position{line: 2885, col: 20, offset: 91184},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2885, col: 29, offset: 91191},
+													pos:        position{line: 2885, col: 29, offset: 91193},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -45929,10 +45929,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2815, col: 12, offset: 89311},
+										pos: position{line: 2815, col: 12, offset: 89313},
 										run: (*parser).callonAttributeStructuredValueElement65,
 										expr: &charClassMatcher{
-											pos:        position{line: 2815, col: 12, offset: 89311},
+											pos:        position{line: 2815, col: 12, offset: 89313},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -45948,73 +45948,73 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2418, col: 1, offset: 78197},
+			pos:  position{line: 2418, col: 1, offset: 78199},
 			expr: &actionExpr{
-				pos: position{line: 2420, col: 5, offset: 78279},
+				pos: position{line: 2420, col: 5, offset: 78281},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2420, col: 5, offset: 78279},
+					pos: position{line: 2420, col: 5, offset: 78281},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2420, col: 5, offset: 78279},
+							pos: position{line: 2420, col: 5, offset: 78281},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2423, col: 5, offset: 78344},
+							pos:   position{line: 2423, col: 5, offset: 78346},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2424, col: 9, offset: 78362},
+								pos: position{line: 2424, col: 9, offset: 78364},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2424, col: 9, offset: 78362},
+										pos:  position{line: 2424, col: 9, offset: 78364},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2425, col: 11, offset: 78383},
+										pos:  position{line: 2425, col: 11, offset: 78385},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2426, col: 11, offset: 78406},
+										pos:  position{line: 2426, col: 11, offset: 78408},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2427, col: 11, offset: 78422},
+										pos:  position{line: 2427, col: 11, offset: 78424},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2428, col: 11, offset: 78451},
+										pos:  position{line: 2428, col: 11, offset: 78453},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2429, col: 11, offset: 78477},
+										pos:  position{line: 2429, col: 11, offset: 78479},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2430, col: 11, offset: 78503},
+										pos:  position{line: 2430, col: 11, offset: 78505},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
-										pos: position{line: 1256, col: 5, offset: 38847},
+										pos: position{line: 1256, col: 5, offset: 38849},
 										run: (*parser).callonInlineMacro13,
 										expr: &seqExpr{
-											pos: position{line: 1256, col: 5, offset: 38847},
+											pos: position{line: 1256, col: 5, offset: 38849},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1256, col: 5, offset: 38847},
+													pos:        position{line: 1256, col: 5, offset: 38849},
 													val:        "\\[[",
 													ignoreCase: false,
 													want:       "\"\\\\[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1256, col: 14, offset: 38856},
+													pos:   position{line: 1256, col: 14, offset: 38858},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2861, col: 7, offset: 90655},
+														pos: position{line: 2861, col: 7, offset: 90657},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2861, col: 7, offset: 90655},
+															pos: position{line: 2861, col: 7, offset: 90657},
 															expr: &charClassMatcher{
-																pos:        position{line: 2861, col: 7, offset: 90655},
+																pos:        position{line: 2861, col: 7, offset: 90657},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -46024,7 +46024,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1256, col: 22, offset: 38864},
+													pos:        position{line: 1256, col: 22, offset: 38866},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -46033,27 +46033,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1261, col: 5, offset: 38983},
+										pos: position{line: 1261, col: 5, offset: 38985},
 										run: (*parser).callonInlineMacro21,
 										expr: &seqExpr{
-											pos: position{line: 1261, col: 5, offset: 38983},
+											pos: position{line: 1261, col: 5, offset: 38985},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1261, col: 5, offset: 38983},
+													pos:        position{line: 1261, col: 5, offset: 38985},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1261, col: 10, offset: 38988},
+													pos:   position{line: 1261, col: 10, offset: 38990},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2861, col: 7, offset: 90655},
+														pos: position{line: 2861, col: 7, offset: 90657},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2861, col: 7, offset: 90655},
+															pos: position{line: 2861, col: 7, offset: 90657},
 															expr: &charClassMatcher{
-																pos:        position{line: 2861, col: 7, offset: 90655},
+																pos:        position{line: 2861, col: 7, offset: 90657},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -46063,7 +46063,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1261, col: 18, offset: 38996},
+													pos:        position{line: 1261, col: 18, offset: 38998},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -46072,40 +46072,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1300, col: 23, offset: 40472},
+										pos: position{line: 1300, col: 23, offset: 40474},
 										run: (*parser).callonInlineMacro29,
 										expr: &seqExpr{
-											pos: position{line: 1300, col: 23, offset: 40472},
+											pos: position{line: 1300, col: 23, offset: 40474},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1300, col: 23, offset: 40472},
+													pos:        position{line: 1300, col: 23, offset: 40474},
 													val:        "(((",
 													ignoreCase: false,
 													want:       "\"(((\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1300, col: 29, offset: 40478},
+													pos:   position{line: 1300, col: 29, offset: 40480},
 													label: "term1",
 													expr: &actionExpr{
-														pos: position{line: 1307, col: 30, offset: 40809},
+														pos: position{line: 1307, col: 30, offset: 40811},
 														run: (*parser).callonInlineMacro33,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1307, col: 30, offset: 40809},
+															pos: position{line: 1307, col: 30, offset: 40811},
 															expr: &choiceExpr{
-																pos: position{line: 1307, col: 31, offset: 40810},
+																pos: position{line: 1307, col: 31, offset: 40812},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2766, col: 13, offset: 88077},
+																		pos:        position{line: 2766, col: 13, offset: 88079},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 91003},
+																		pos: position{line: 2876, col: 10, offset: 91005},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 91003},
+																			pos:        position{line: 2876, col: 10, offset: 91005},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -46118,23 +46118,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1301, col: 5, offset: 40517},
+													pos:   position{line: 1301, col: 5, offset: 40519},
 													label: "term2",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1301, col: 11, offset: 40523},
+														pos: position{line: 1301, col: 11, offset: 40525},
 														expr: &actionExpr{
-															pos: position{line: 1301, col: 12, offset: 40524},
+															pos: position{line: 1301, col: 12, offset: 40526},
 															run: (*parser).callonInlineMacro41,
 															expr: &seqExpr{
-																pos: position{line: 1301, col: 12, offset: 40524},
+																pos: position{line: 1301, col: 12, offset: 40526},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1301, col: 12, offset: 40524},
+																		pos: position{line: 1301, col: 12, offset: 40526},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 91003},
+																			pos: position{line: 2876, col: 10, offset: 91005},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 91003},
+																				pos:        position{line: 2876, col: 10, offset: 91005},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46143,18 +46143,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1301, col: 19, offset: 40531},
+																		pos:        position{line: 1301, col: 19, offset: 40533},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1301, col: 23, offset: 40535},
+																		pos: position{line: 1301, col: 23, offset: 40537},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 91003},
+																			pos: position{line: 2876, col: 10, offset: 91005},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 91003},
+																				pos:        position{line: 2876, col: 10, offset: 91005},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46163,28 +46163,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1301, col: 30, offset: 40542},
+																		pos:   position{line: 1301, col: 30, offset: 40544},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1307, col: 30, offset: 40809},
+																			pos: position{line: 1307, col: 30, offset: 40811},
 																			run: (*parser).callonInlineMacro51,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1307, col: 30, offset: 40809},
+																				pos: position{line: 1307, col: 30, offset: 40811},
 																				expr: &choiceExpr{
-																					pos: position{line: 1307, col: 31, offset: 40810},
+																					pos: position{line: 1307, col: 31, offset: 40812},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2766, col: 13, offset: 88077},
+																							pos:        position{line: 2766, col: 13, offset: 88079},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 91003},
+																							pos: position{line: 2876, col: 10, offset: 91005},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 91003},
+																								pos:        position{line: 2876, col: 10, offset: 91005},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -46202,23 +46202,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1302, col: 5, offset: 40609},
+													pos:   position{line: 1302, col: 5, offset: 40611},
 													label: "term3",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1302, col: 11, offset: 40615},
+														pos: position{line: 1302, col: 11, offset: 40617},
 														expr: &actionExpr{
-															pos: position{line: 1302, col: 12, offset: 40616},
+															pos: position{line: 1302, col: 12, offset: 40618},
 															run: (*parser).callonInlineMacro59,
 															expr: &seqExpr{
-																pos: position{line: 1302, col: 12, offset: 40616},
+																pos: position{line: 1302, col: 12, offset: 40618},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1302, col: 12, offset: 40616},
+																		pos: position{line: 1302, col: 12, offset: 40618},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 91003},
+																			pos: position{line: 2876, col: 10, offset: 91005},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 91003},
+																				pos:        position{line: 2876, col: 10, offset: 91005},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46227,18 +46227,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1302, col: 19, offset: 40623},
+																		pos:        position{line: 1302, col: 19, offset: 40625},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1302, col: 23, offset: 40627},
+																		pos: position{line: 1302, col: 23, offset: 40629},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 91003},
+																			pos: position{line: 2876, col: 10, offset: 91005},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 91003},
+																				pos:        position{line: 2876, col: 10, offset: 91005},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46247,28 +46247,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1302, col: 30, offset: 40634},
+																		pos:   position{line: 1302, col: 30, offset: 40636},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1307, col: 30, offset: 40809},
+																			pos: position{line: 1307, col: 30, offset: 40811},
 																			run: (*parser).callonInlineMacro69,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1307, col: 30, offset: 40809},
+																				pos: position{line: 1307, col: 30, offset: 40811},
 																				expr: &choiceExpr{
-																					pos: position{line: 1307, col: 31, offset: 40810},
+																					pos: position{line: 1307, col: 31, offset: 40812},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2766, col: 13, offset: 88077},
+																							pos:        position{line: 2766, col: 13, offset: 88079},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 91003},
+																							pos: position{line: 2876, col: 10, offset: 91005},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 91003},
+																								pos:        position{line: 2876, col: 10, offset: 91005},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -46286,7 +46286,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1303, col: 5, offset: 40701},
+													pos:        position{line: 1303, col: 5, offset: 40703},
 													val:        ")))",
 													ignoreCase: false,
 													want:       "\")))\"",
@@ -46295,15 +46295,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2433, col: 11, offset: 78582},
+										pos:  position{line: 2433, col: 11, offset: 78584},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2434, col: 11, offset: 78602},
+										pos:  position{line: 2434, col: 11, offset: 78604},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2435, col: 11, offset: 78625},
+										pos:  position{line: 2435, col: 11, offset: 78627},
 										name: "InlineMenu",
 									},
 								},
@@ -46315,80 +46315,80 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2439, col: 1, offset: 78682},
+			pos:  position{line: 2439, col: 1, offset: 78684},
 			expr: &actionExpr{
-				pos: position{line: 2441, col: 5, offset: 78770},
+				pos: position{line: 2441, col: 5, offset: 78772},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2441, col: 5, offset: 78770},
+					pos: position{line: 2441, col: 5, offset: 78772},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2441, col: 5, offset: 78770},
+							pos: position{line: 2441, col: 5, offset: 78772},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2444, col: 5, offset: 78847},
+							pos:   position{line: 2444, col: 5, offset: 78849},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2445, col: 9, offset: 78865},
+								pos: position{line: 2445, col: 9, offset: 78867},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1382, col: 26, offset: 44147},
+										pos: position{line: 1382, col: 26, offset: 44149},
 										run: (*parser).callonInlinePassthrough6,
 										expr: &seqExpr{
-											pos: position{line: 1382, col: 26, offset: 44147},
+											pos: position{line: 1382, col: 26, offset: 44149},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1380, col: 32, offset: 44115},
+													pos:        position{line: 1380, col: 32, offset: 44117},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1382, col: 54, offset: 44175},
+													pos:   position{line: 1382, col: 54, offset: 44177},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1386, col: 33, offset: 44388},
+														pos: position{line: 1386, col: 33, offset: 44390},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1386, col: 34, offset: 44389},
+																pos: position{line: 1386, col: 34, offset: 44391},
 																run: (*parser).callonInlinePassthrough11,
 																expr: &zeroOrMoreExpr{
-																	pos: position{line: 1386, col: 34, offset: 44389},
+																	pos: position{line: 1386, col: 34, offset: 44391},
 																	expr: &seqExpr{
-																		pos: position{line: 1386, col: 35, offset: 44390},
+																		pos: position{line: 1386, col: 35, offset: 44392},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1386, col: 35, offset: 44390},
+																				pos: position{line: 1386, col: 35, offset: 44392},
 																				expr: &litMatcher{
-																					pos:        position{line: 1380, col: 32, offset: 44115},
+																					pos:        position{line: 1380, col: 32, offset: 44117},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1386, col: 64, offset: 44419,
+																				line: 1386, col: 64, offset: 44421,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1388, col: 11, offset: 44592},
+																pos: position{line: 1388, col: 11, offset: 44594},
 																run: (*parser).callonInlinePassthrough17,
 																expr: &zeroOrOneExpr{
-																	pos: position{line: 1388, col: 11, offset: 44592},
+																	pos: position{line: 1388, col: 11, offset: 44594},
 																	expr: &seqExpr{
-																		pos: position{line: 1388, col: 12, offset: 44593},
+																		pos: position{line: 1388, col: 12, offset: 44595},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1388, col: 12, offset: 44593},
+																				pos: position{line: 1388, col: 12, offset: 44595},
 																				expr: &actionExpr{
-																					pos: position{line: 2876, col: 10, offset: 91003},
+																					pos: position{line: 2876, col: 10, offset: 91005},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2876, col: 10, offset: 91003},
+																						pos:        position{line: 2876, col: 10, offset: 91005},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -46397,27 +46397,27 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1388, col: 19, offset: 44600},
+																				pos: position{line: 1388, col: 19, offset: 44602},
 																				expr: &actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91174},
+																					pos: position{line: 2885, col: 12, offset: 91176},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91175},
+																						pos: position{line: 2885, col: 13, offset: 91177},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91175},
+																								pos:        position{line: 2885, col: 13, offset: 91177},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91182},
+																								pos:        position{line: 2885, col: 20, offset: 91184},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91191},
+																								pos:        position{line: 2885, col: 29, offset: 91193},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -46427,16 +46427,16 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1388, col: 28, offset: 44609},
+																				pos: position{line: 1388, col: 28, offset: 44611},
 																				expr: &litMatcher{
-																					pos:        position{line: 1380, col: 32, offset: 44115},
+																					pos:        position{line: 1380, col: 32, offset: 44117},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1388, col: 57, offset: 44638,
+																				line: 1388, col: 57, offset: 44640,
 																			},
 																		},
 																	},
@@ -46446,15 +46446,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1380, col: 32, offset: 44115},
+													pos:        position{line: 1380, col: 32, offset: 44117},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&notExpr{
-													pos: position{line: 1382, col: 121, offset: 44242},
+													pos: position{line: 1382, col: 121, offset: 44244},
 													expr: &charClassMatcher{
-														pos:        position{line: 2766, col: 13, offset: 88077},
+														pos:        position{line: 2766, col: 13, offset: 88079},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -46465,45 +46465,45 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1370, col: 26, offset: 43430},
+										pos: position{line: 1370, col: 26, offset: 43432},
 										run: (*parser).callonInlinePassthrough35,
 										expr: &seqExpr{
-											pos: position{line: 1370, col: 26, offset: 43430},
+											pos: position{line: 1370, col: 26, offset: 43432},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1368, col: 32, offset: 43400},
+													pos:        position{line: 1368, col: 32, offset: 43402},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1370, col: 54, offset: 43458},
+													pos:   position{line: 1370, col: 54, offset: 43460},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1374, col: 33, offset: 43671},
+														pos: position{line: 1374, col: 33, offset: 43673},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1374, col: 34, offset: 43672},
+																pos: position{line: 1374, col: 34, offset: 43674},
 																run: (*parser).callonInlinePassthrough40,
 																expr: &seqExpr{
-																	pos: position{line: 1374, col: 34, offset: 43672},
+																	pos: position{line: 1374, col: 34, offset: 43674},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1374, col: 35, offset: 43673},
+																			pos: position{line: 1374, col: 35, offset: 43675},
 																			expr: &litMatcher{
-																				pos:        position{line: 1368, col: 32, offset: 43400},
+																				pos:        position{line: 1368, col: 32, offset: 43402},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1374, col: 64, offset: 43702},
+																			pos: position{line: 1374, col: 64, offset: 43704},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 91003},
+																				pos: position{line: 2876, col: 10, offset: 91005},
 																				run: (*parser).callonInlinePassthrough45,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 91003},
+																					pos:        position{line: 2876, col: 10, offset: 91005},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -46512,27 +46512,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1374, col: 71, offset: 43709},
+																			pos: position{line: 1374, col: 71, offset: 43711},
 																			expr: &actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91174},
+																				pos: position{line: 2885, col: 12, offset: 91176},
 																				run: (*parser).callonInlinePassthrough48,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91175},
+																					pos: position{line: 2885, col: 13, offset: 91177},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91175},
+																							pos:        position{line: 2885, col: 13, offset: 91177},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91182},
+																							pos:        position{line: 2885, col: 20, offset: 91184},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91191},
+																							pos:        position{line: 2885, col: 29, offset: 91193},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -46542,25 +46542,25 @@ var g = &grammar{
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1374, col: 80, offset: 43718,
+																			line: 1374, col: 80, offset: 43720,
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1374, col: 83, offset: 43721},
+																			pos: position{line: 1374, col: 83, offset: 43723},
 																			expr: &seqExpr{
-																				pos: position{line: 1374, col: 84, offset: 43722},
+																				pos: position{line: 1374, col: 84, offset: 43724},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1374, col: 84, offset: 43722},
+																						pos: position{line: 1374, col: 84, offset: 43724},
 																						expr: &seqExpr{
-																							pos: position{line: 1374, col: 86, offset: 43724},
+																							pos: position{line: 1374, col: 86, offset: 43726},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2880, col: 11, offset: 91064},
+																									pos: position{line: 2880, col: 11, offset: 91066},
 																									run: (*parser).callonInlinePassthrough58,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2880, col: 11, offset: 91064},
+																										pos: position{line: 2880, col: 11, offset: 91066},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2880, col: 11, offset: 91064},
+																											pos:        position{line: 2880, col: 11, offset: 91066},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -46569,7 +46569,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1368, col: 32, offset: 43400},
+																									pos:        position{line: 1368, col: 32, offset: 43402},
 																									val:        "+",
 																									ignoreCase: false,
 																									want:       "\"+\"",
@@ -46578,36 +46578,36 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1374, col: 122, offset: 43760},
+																						pos: position{line: 1374, col: 122, offset: 43762},
 																						expr: &litMatcher{
-																							pos:        position{line: 1368, col: 32, offset: 43400},
+																							pos:        position{line: 1368, col: 32, offset: 43402},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1374, col: 151, offset: 43789},
+																						pos: position{line: 1374, col: 151, offset: 43791},
 																						expr: &actionExpr{
-																							pos: position{line: 2885, col: 12, offset: 91174},
+																							pos: position{line: 2885, col: 12, offset: 91176},
 																							run: (*parser).callonInlinePassthrough65,
 																							expr: &choiceExpr{
-																								pos: position{line: 2885, col: 13, offset: 91175},
+																								pos: position{line: 2885, col: 13, offset: 91177},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 13, offset: 91175},
+																										pos:        position{line: 2885, col: 13, offset: 91177},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 20, offset: 91182},
+																										pos:        position{line: 2885, col: 20, offset: 91184},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 29, offset: 91191},
+																										pos:        position{line: 2885, col: 29, offset: 91193},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -46617,7 +46617,7 @@ var g = &grammar{
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1374, col: 160, offset: 43798,
+																						line: 1374, col: 160, offset: 43800,
 																					},
 																				},
 																			},
@@ -46626,18 +46626,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1376, col: 11, offset: 43948},
+																pos: position{line: 1376, col: 11, offset: 43950},
 																run: (*parser).callonInlinePassthrough71,
 																expr: &seqExpr{
-																	pos: position{line: 1376, col: 12, offset: 43949},
+																	pos: position{line: 1376, col: 12, offset: 43951},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1376, col: 12, offset: 43949},
+																			pos: position{line: 1376, col: 12, offset: 43951},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 91003},
+																				pos: position{line: 2876, col: 10, offset: 91005},
 																				run: (*parser).callonInlinePassthrough74,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 91003},
+																					pos:        position{line: 2876, col: 10, offset: 91005},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -46646,27 +46646,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1376, col: 19, offset: 43956},
+																			pos: position{line: 1376, col: 19, offset: 43958},
 																			expr: &actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91174},
+																				pos: position{line: 2885, col: 12, offset: 91176},
 																				run: (*parser).callonInlinePassthrough77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91175},
+																					pos: position{line: 2885, col: 13, offset: 91177},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91175},
+																							pos:        position{line: 2885, col: 13, offset: 91177},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91182},
+																							pos:        position{line: 2885, col: 20, offset: 91184},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91191},
+																							pos:        position{line: 2885, col: 29, offset: 91193},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -46676,16 +46676,16 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1376, col: 28, offset: 43965},
+																			pos: position{line: 1376, col: 28, offset: 43967},
 																			expr: &litMatcher{
-																				pos:        position{line: 1368, col: 32, offset: 43400},
+																				pos:        position{line: 1368, col: 32, offset: 43402},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1376, col: 57, offset: 43994,
+																			line: 1376, col: 57, offset: 43996,
 																		},
 																	},
 																},
@@ -46694,15 +46694,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1368, col: 32, offset: 43400},
+													pos:        position{line: 1368, col: 32, offset: 43402},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&notExpr{
-													pos: position{line: 1370, col: 121, offset: 43525},
+													pos: position{line: 1370, col: 121, offset: 43527},
 													expr: &charClassMatcher{
-														pos:        position{line: 2766, col: 13, offset: 88077},
+														pos:        position{line: 2766, col: 13, offset: 88079},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -46713,7 +46713,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2445, col: 57, offset: 78913},
+										pos:  position{line: 2445, col: 57, offset: 78915},
 										name: "PassthroughMacro",
 									},
 								},
@@ -46725,16 +46725,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2450, col: 1, offset: 78973},
+			pos:  position{line: 2450, col: 1, offset: 78975},
 			expr: &seqExpr{
-				pos: position{line: 2452, col: 5, offset: 79049},
+				pos: position{line: 2452, col: 5, offset: 79051},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2452, col: 5, offset: 79049},
+						pos: position{line: 2452, col: 5, offset: 79051},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2455, col: 5, offset: 79114},
+						pos:  position{line: 2455, col: 5, offset: 79116},
 						name: "QuotedText",
 					},
 				},
@@ -46742,22 +46742,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2457, col: 1, offset: 79127},
+			pos:  position{line: 2457, col: 1, offset: 79129},
 			expr: &actionExpr{
-				pos: position{line: 2459, col: 5, offset: 79209},
+				pos: position{line: 2459, col: 5, offset: 79211},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2459, col: 5, offset: 79209},
+					pos: position{line: 2459, col: 5, offset: 79211},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2459, col: 5, offset: 79209},
+							pos: position{line: 2459, col: 5, offset: 79211},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2462, col: 5, offset: 79280},
+							pos:   position{line: 2462, col: 5, offset: 79282},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2463, col: 9, offset: 79298},
+								pos:  position{line: 2463, col: 9, offset: 79300},
 								name: "Symbol",
 							},
 						},
@@ -46767,93 +46767,93 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2521, col: 1, offset: 81128},
+			pos:  position{line: 2521, col: 1, offset: 81130},
 			expr: &choiceExpr{
-				pos: position{line: 2523, col: 5, offset: 81158},
+				pos: position{line: 2523, col: 5, offset: 81160},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2523, col: 5, offset: 81158},
+						pos: position{line: 2523, col: 5, offset: 81160},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2523, col: 5, offset: 81158},
+							pos: position{line: 2523, col: 5, offset: 81160},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2523, col: 5, offset: 81158},
+									pos:        position{line: 2523, col: 5, offset: 81160},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2523, col: 10, offset: 81163},
+									pos: position{line: 2523, col: 10, offset: 81165},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2523, col: 10, offset: 81163},
+											pos:  position{line: 2523, col: 10, offset: 81165},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2552, col: 14, offset: 82297},
+											pos: position{line: 2552, col: 14, offset: 82299},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2552, col: 14, offset: 82297},
+												pos:        position{line: 2552, col: 14, offset: 82299},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2556, col: 14, offset: 82363},
+											pos: position{line: 2556, col: 14, offset: 82365},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2556, col: 14, offset: 82363},
+												pos:        position{line: 2556, col: 14, offset: 82365},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2560, col: 15, offset: 82432},
+											pos: position{line: 2560, col: 15, offset: 82434},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2560, col: 15, offset: 82432},
+												pos:        position{line: 2560, col: 15, offset: 82434},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2564, col: 13, offset: 82497},
+											pos: position{line: 2564, col: 13, offset: 82499},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2564, col: 13, offset: 82497},
+												pos:        position{line: 2564, col: 13, offset: 82499},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2571, col: 5, offset: 82635},
+											pos: position{line: 2571, col: 5, offset: 82637},
 											run: (*parser).callonSymbol15,
 											expr: &seqExpr{
-												pos: position{line: 2571, col: 5, offset: 82635},
+												pos: position{line: 2571, col: 5, offset: 82637},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2571, col: 5, offset: 82635},
+														pos:        position{line: 2571, col: 5, offset: 82637},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2572, col: 5, offset: 82645},
+														pos: position{line: 2572, col: 5, offset: 82647},
 														run: (*parser).callonSymbol18,
 													},
 													&choiceExpr{
-														pos: position{line: 2576, col: 6, offset: 82732},
+														pos: position{line: 2576, col: 6, offset: 82734},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2876, col: 10, offset: 91003},
+																pos: position{line: 2876, col: 10, offset: 91005},
 																run: (*parser).callonSymbol20,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2876, col: 10, offset: 91003},
+																	pos:        position{line: 2876, col: 10, offset: 91005},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -46861,30 +46861,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2576, col: 14, offset: 82740},
+																pos: position{line: 2576, col: 14, offset: 82742},
 																expr: &choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91401},
+																	pos: position{line: 2898, col: 8, offset: 91403},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91174},
+																			pos: position{line: 2885, col: 12, offset: 91176},
 																			run: (*parser).callonSymbol24,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91175},
+																				pos: position{line: 2885, col: 13, offset: 91177},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91175},
+																						pos:        position{line: 2885, col: 13, offset: 91177},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91182},
+																						pos:        position{line: 2885, col: 20, offset: 91184},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91191},
+																						pos:        position{line: 2885, col: 29, offset: 91193},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -46893,9 +46893,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91351},
+																			pos: position{line: 2895, col: 8, offset: 91353},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91352,
+																				line: 2895, col: 9, offset: 91354,
 																			},
 																		},
 																	},
@@ -46907,53 +46907,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2581, col: 5, offset: 82860},
+											pos: position{line: 2581, col: 5, offset: 82862},
 											run: (*parser).callonSymbol31,
 											expr: &seqExpr{
-												pos: position{line: 2581, col: 5, offset: 82860},
+												pos: position{line: 2581, col: 5, offset: 82862},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2581, col: 5, offset: 82860},
+														pos:        position{line: 2581, col: 5, offset: 82862},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2582, col: 5, offset: 82870},
+														pos: position{line: 2582, col: 5, offset: 82872},
 														run: (*parser).callonSymbol34,
 													},
 													&andExpr{
-														pos: position{line: 2586, col: 5, offset: 82959},
+														pos: position{line: 2586, col: 5, offset: 82961},
 														expr: &choiceExpr{
-															pos: position{line: 2586, col: 7, offset: 82961},
+															pos: position{line: 2586, col: 7, offset: 82963},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2766, col: 13, offset: 88077},
+																	pos:        position{line: 2766, col: 13, offset: 88079},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2885, col: 12, offset: 91174},
+																	pos: position{line: 2885, col: 12, offset: 91176},
 																	run: (*parser).callonSymbol38,
 																	expr: &choiceExpr{
-																		pos: position{line: 2885, col: 13, offset: 91175},
+																		pos: position{line: 2885, col: 13, offset: 91177},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2885, col: 13, offset: 91175},
+																				pos:        position{line: 2885, col: 13, offset: 91177},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2885, col: 20, offset: 91182},
+																				pos:        position{line: 2885, col: 20, offset: 91184},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2885, col: 29, offset: 91191},
+																				pos:        position{line: 2885, col: 29, offset: 91193},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -46962,9 +46962,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2895, col: 8, offset: 91351},
+																	pos: position{line: 2895, col: 8, offset: 91353},
 																	expr: &anyMatcher{
-																		line: 2895, col: 9, offset: 91352,
+																		line: 2895, col: 9, offset: 91354,
 																	},
 																},
 															},
@@ -46979,63 +46979,63 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2526, col: 7, offset: 81327},
+						pos: position{line: 2526, col: 7, offset: 81329},
 						run: (*parser).callonSymbol45,
 						expr: &seqExpr{
-							pos: position{line: 2526, col: 7, offset: 81327},
+							pos: position{line: 2526, col: 7, offset: 81329},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2526, col: 7, offset: 81327},
+									pos:        position{line: 2526, col: 7, offset: 81329},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2526, col: 11, offset: 81331},
+									pos:   position{line: 2526, col: 11, offset: 81333},
 									label: "elements",
 									expr: &choiceExpr{
-										pos: position{line: 2526, col: 21, offset: 81341},
+										pos: position{line: 2526, col: 21, offset: 81343},
 										alternatives: []interface{}{
 											&seqExpr{
-												pos: position{line: 2526, col: 21, offset: 81341},
+												pos: position{line: 2526, col: 21, offset: 81343},
 												exprs: []interface{}{
 													&charClassMatcher{
-														pos:        position{line: 2526, col: 21, offset: 81341},
+														pos:        position{line: 2526, col: 21, offset: 81343},
 														val:        "[-=]",
 														chars:      []rune{'-', '='},
 														ignoreCase: false,
 														inverted:   false,
 													},
 													&andExpr{
-														pos: position{line: 2526, col: 26, offset: 81346},
+														pos: position{line: 2526, col: 26, offset: 81348},
 														expr: &litMatcher{
-															pos:        position{line: 2526, col: 27, offset: 81347},
+															pos:        position{line: 2526, col: 27, offset: 81349},
 															val:        ">",
 															ignoreCase: false,
 															want:       "\">\"",
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2526, col: 32, offset: 81352},
+														pos: position{line: 2526, col: 32, offset: 81354},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2470, col: 5, offset: 79435},
+																pos: position{line: 2470, col: 5, offset: 79437},
 																run: (*parser).callonSymbol55,
 																expr: &seqExpr{
-																	pos: position{line: 2470, col: 5, offset: 79435},
+																	pos: position{line: 2470, col: 5, offset: 79437},
 																	exprs: []interface{}{
 																		&andCodeExpr{
-																			pos: position{line: 2470, col: 5, offset: 79435},
+																			pos: position{line: 2470, col: 5, offset: 79437},
 																			run: (*parser).callonSymbol57,
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 2473, col: 5, offset: 79511},
+																			pos:   position{line: 2473, col: 5, offset: 79513},
 																			label: "element",
 																			expr: &actionExpr{
-																				pos: position{line: 2474, col: 9, offset: 79529},
+																				pos: position{line: 2474, col: 9, offset: 79531},
 																				run: (*parser).callonSymbol59,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2474, col: 10, offset: 79530},
+																					pos:        position{line: 2474, col: 10, offset: 79532},
 																					val:        "[<>&]",
 																					chars:      []rune{'<', '>', '&'},
 																					ignoreCase: false,
@@ -47047,28 +47047,28 @@ var g = &grammar{
 																},
 															},
 															&anyMatcher{
-																line: 2526, col: 51, offset: 81371,
+																line: 2526, col: 51, offset: 81373,
 															},
 														},
 													},
 												},
 											},
 											&seqExpr{
-												pos: position{line: 2526, col: 56, offset: 81376},
+												pos: position{line: 2526, col: 56, offset: 81378},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2526, col: 56, offset: 81376},
+														pos: position{line: 2526, col: 56, offset: 81378},
 														expr: &choiceExpr{
-															pos: position{line: 2526, col: 58, offset: 81378},
+															pos: position{line: 2526, col: 58, offset: 81380},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2526, col: 58, offset: 81378},
+																	pos:        position{line: 2526, col: 58, offset: 81380},
 																	val:        "<-",
 																	ignoreCase: false,
 																	want:       "\"<-\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2526, col: 65, offset: 81385},
+																	pos:        position{line: 2526, col: 65, offset: 81387},
 																	val:        "<=",
 																	ignoreCase: false,
 																	want:       "\"<=\"",
@@ -47077,26 +47077,26 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2526, col: 72, offset: 81392},
+														pos: position{line: 2526, col: 72, offset: 81394},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2470, col: 5, offset: 79435},
+																pos: position{line: 2470, col: 5, offset: 79437},
 																run: (*parser).callonSymbol68,
 																expr: &seqExpr{
-																	pos: position{line: 2470, col: 5, offset: 79435},
+																	pos: position{line: 2470, col: 5, offset: 79437},
 																	exprs: []interface{}{
 																		&andCodeExpr{
-																			pos: position{line: 2470, col: 5, offset: 79435},
+																			pos: position{line: 2470, col: 5, offset: 79437},
 																			run: (*parser).callonSymbol70,
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 2473, col: 5, offset: 79511},
+																			pos:   position{line: 2473, col: 5, offset: 79513},
 																			label: "element",
 																			expr: &actionExpr{
-																				pos: position{line: 2474, col: 9, offset: 79529},
+																				pos: position{line: 2474, col: 9, offset: 79531},
 																				run: (*parser).callonSymbol72,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2474, col: 10, offset: 79530},
+																					pos:        position{line: 2474, col: 10, offset: 79532},
 																					val:        "[<>&]",
 																					chars:      []rune{'<', '>', '&'},
 																					ignoreCase: false,
@@ -47108,12 +47108,12 @@ var g = &grammar{
 																},
 															},
 															&anyMatcher{
-																line: 2526, col: 91, offset: 81411,
+																line: 2526, col: 91, offset: 81413,
 															},
 														},
 													},
 													&anyMatcher{
-														line: 2526, col: 94, offset: 81414,
+														line: 2526, col: 94, offset: 81416,
 													},
 												},
 											},
@@ -47124,73 +47124,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2527, col: 7, offset: 81448},
+						pos:  position{line: 2527, col: 7, offset: 81450},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2552, col: 14, offset: 82297},
+						pos: position{line: 2552, col: 14, offset: 82299},
 						run: (*parser).callonSymbol77,
 						expr: &litMatcher{
-							pos:        position{line: 2552, col: 14, offset: 82297},
+							pos:        position{line: 2552, col: 14, offset: 82299},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2556, col: 14, offset: 82363},
+						pos: position{line: 2556, col: 14, offset: 82365},
 						run: (*parser).callonSymbol79,
 						expr: &litMatcher{
-							pos:        position{line: 2556, col: 14, offset: 82363},
+							pos:        position{line: 2556, col: 14, offset: 82365},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2560, col: 15, offset: 82432},
+						pos: position{line: 2560, col: 15, offset: 82434},
 						run: (*parser).callonSymbol81,
 						expr: &litMatcher{
-							pos:        position{line: 2560, col: 15, offset: 82432},
+							pos:        position{line: 2560, col: 15, offset: 82434},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2564, col: 13, offset: 82497},
+						pos: position{line: 2564, col: 13, offset: 82499},
 						run: (*parser).callonSymbol83,
 						expr: &litMatcher{
-							pos:        position{line: 2564, col: 13, offset: 82497},
+							pos:        position{line: 2564, col: 13, offset: 82499},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2571, col: 5, offset: 82635},
+						pos: position{line: 2571, col: 5, offset: 82637},
 						run: (*parser).callonSymbol85,
 						expr: &seqExpr{
-							pos: position{line: 2571, col: 5, offset: 82635},
+							pos: position{line: 2571, col: 5, offset: 82637},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2571, col: 5, offset: 82635},
+									pos:        position{line: 2571, col: 5, offset: 82637},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2572, col: 5, offset: 82645},
+									pos: position{line: 2572, col: 5, offset: 82647},
 									run: (*parser).callonSymbol88,
 								},
 								&choiceExpr{
-									pos: position{line: 2576, col: 6, offset: 82732},
+									pos: position{line: 2576, col: 6, offset: 82734},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2876, col: 10, offset: 91003},
+											pos: position{line: 2876, col: 10, offset: 91005},
 											run: (*parser).callonSymbol90,
 											expr: &charClassMatcher{
-												pos:        position{line: 2876, col: 10, offset: 91003},
+												pos:        position{line: 2876, col: 10, offset: 91005},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -47198,30 +47198,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2576, col: 14, offset: 82740},
+											pos: position{line: 2576, col: 14, offset: 82742},
 											expr: &choiceExpr{
-												pos: position{line: 2898, col: 8, offset: 91401},
+												pos: position{line: 2898, col: 8, offset: 91403},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2885, col: 12, offset: 91174},
+														pos: position{line: 2885, col: 12, offset: 91176},
 														run: (*parser).callonSymbol94,
 														expr: &choiceExpr{
-															pos: position{line: 2885, col: 13, offset: 91175},
+															pos: position{line: 2885, col: 13, offset: 91177},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2885, col: 13, offset: 91175},
+																	pos:        position{line: 2885, col: 13, offset: 91177},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2885, col: 20, offset: 91182},
+																	pos:        position{line: 2885, col: 20, offset: 91184},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2885, col: 29, offset: 91191},
+																	pos:        position{line: 2885, col: 29, offset: 91193},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -47230,9 +47230,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2895, col: 8, offset: 91351},
+														pos: position{line: 2895, col: 8, offset: 91353},
 														expr: &anyMatcher{
-															line: 2895, col: 9, offset: 91352,
+															line: 2895, col: 9, offset: 91354,
 														},
 													},
 												},
@@ -47244,53 +47244,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2581, col: 5, offset: 82860},
+						pos: position{line: 2581, col: 5, offset: 82862},
 						run: (*parser).callonSymbol101,
 						expr: &seqExpr{
-							pos: position{line: 2581, col: 5, offset: 82860},
+							pos: position{line: 2581, col: 5, offset: 82862},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2581, col: 5, offset: 82860},
+									pos:        position{line: 2581, col: 5, offset: 82862},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2582, col: 5, offset: 82870},
+									pos: position{line: 2582, col: 5, offset: 82872},
 									run: (*parser).callonSymbol104,
 								},
 								&andExpr{
-									pos: position{line: 2586, col: 5, offset: 82959},
+									pos: position{line: 2586, col: 5, offset: 82961},
 									expr: &choiceExpr{
-										pos: position{line: 2586, col: 7, offset: 82961},
+										pos: position{line: 2586, col: 7, offset: 82963},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2766, col: 13, offset: 88077},
+												pos:        position{line: 2766, col: 13, offset: 88079},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2885, col: 12, offset: 91174},
+												pos: position{line: 2885, col: 12, offset: 91176},
 												run: (*parser).callonSymbol108,
 												expr: &choiceExpr{
-													pos: position{line: 2885, col: 13, offset: 91175},
+													pos: position{line: 2885, col: 13, offset: 91177},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2885, col: 13, offset: 91175},
+															pos:        position{line: 2885, col: 13, offset: 91177},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2885, col: 20, offset: 91182},
+															pos:        position{line: 2885, col: 20, offset: 91184},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2885, col: 29, offset: 91191},
+															pos:        position{line: 2885, col: 29, offset: 91193},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -47299,9 +47299,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2895, col: 8, offset: 91351},
+												pos: position{line: 2895, col: 8, offset: 91353},
 												expr: &anyMatcher{
-													line: 2895, col: 9, offset: 91352,
+													line: 2895, col: 9, offset: 91354,
 												},
 											},
 										},
@@ -47311,40 +47311,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2592, col: 21, offset: 83049},
+						pos: position{line: 2592, col: 21, offset: 83051},
 						run: (*parser).callonSymbol115,
 						expr: &litMatcher{
-							pos:        position{line: 2592, col: 21, offset: 83049},
+							pos:        position{line: 2592, col: 21, offset: 83051},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2596, col: 20, offset: 83119},
+						pos: position{line: 2596, col: 20, offset: 83121},
 						run: (*parser).callonSymbol117,
 						expr: &litMatcher{
-							pos:        position{line: 2596, col: 20, offset: 83119},
+							pos:        position{line: 2596, col: 20, offset: 83121},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2600, col: 21, offset: 83190},
+						pos: position{line: 2600, col: 21, offset: 83192},
 						run: (*parser).callonSymbol119,
 						expr: &litMatcher{
-							pos:        position{line: 2600, col: 21, offset: 83190},
+							pos:        position{line: 2600, col: 21, offset: 83192},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2604, col: 20, offset: 83260},
+						pos: position{line: 2604, col: 20, offset: 83262},
 						run: (*parser).callonSymbol121,
 						expr: &litMatcher{
-							pos:        position{line: 2604, col: 20, offset: 83260},
+							pos:        position{line: 2604, col: 20, offset: 83262},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -47355,43 +47355,43 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2538, col: 1, offset: 81638},
+			pos:  position{line: 2538, col: 1, offset: 81640},
 			expr: &choiceExpr{
-				pos: position{line: 2539, col: 5, offset: 81660},
+				pos: position{line: 2539, col: 5, offset: 81662},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2539, col: 5, offset: 81660},
+						pos: position{line: 2539, col: 5, offset: 81662},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2539, col: 5, offset: 81660},
+							pos: position{line: 2539, col: 5, offset: 81662},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2539, col: 5, offset: 81660},
+									pos:        position{line: 2539, col: 5, offset: 81662},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2539, col: 11, offset: 81666},
+									pos: position{line: 2539, col: 11, offset: 81668},
 									expr: &seqExpr{
-										pos: position{line: 2089, col: 5, offset: 67572},
+										pos: position{line: 2089, col: 5, offset: 67574},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2089, col: 5, offset: 67572},
+												pos:        position{line: 2089, col: 5, offset: 67574},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2090, col: 5, offset: 67581},
+												pos: position{line: 2090, col: 5, offset: 67583},
 												run: (*parser).callonQuotationMark8,
 											},
 											&andExpr{
-												pos: position{line: 2094, col: 5, offset: 67704},
+												pos: position{line: 2094, col: 5, offset: 67706},
 												expr: &notExpr{
-													pos: position{line: 2094, col: 7, offset: 67706},
+													pos: position{line: 2094, col: 7, offset: 67708},
 													expr: &litMatcher{
-														pos:        position{line: 2094, col: 8, offset: 67707},
+														pos:        position{line: 2094, col: 8, offset: 67709},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -47405,21 +47405,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2542, col: 7, offset: 81819},
+						pos: position{line: 2542, col: 7, offset: 81821},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2542, col: 7, offset: 81819},
+							pos: position{line: 2542, col: 7, offset: 81821},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2542, col: 7, offset: 81819},
+									pos:        position{line: 2542, col: 7, offset: 81821},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2542, col: 13, offset: 81825},
+									pos: position{line: 2542, col: 13, offset: 81827},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2542, col: 14, offset: 81826},
+										pos:  position{line: 2542, col: 14, offset: 81828},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -47427,38 +47427,38 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2545, col: 7, offset: 81976},
+						pos: position{line: 2545, col: 7, offset: 81978},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2545, col: 7, offset: 81976},
+							pos: position{line: 2545, col: 7, offset: 81978},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2545, col: 7, offset: 81976},
+									pos:        position{line: 2545, col: 7, offset: 81978},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2545, col: 12, offset: 81981},
+									pos: position{line: 2545, col: 12, offset: 81983},
 									expr: &seqExpr{
-										pos: position{line: 2089, col: 5, offset: 67572},
+										pos: position{line: 2089, col: 5, offset: 67574},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2089, col: 5, offset: 67572},
+												pos:        position{line: 2089, col: 5, offset: 67574},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2090, col: 5, offset: 67581},
+												pos: position{line: 2090, col: 5, offset: 67583},
 												run: (*parser).callonQuotationMark23,
 											},
 											&andExpr{
-												pos: position{line: 2094, col: 5, offset: 67704},
+												pos: position{line: 2094, col: 5, offset: 67706},
 												expr: &notExpr{
-													pos: position{line: 2094, col: 7, offset: 67706},
+													pos: position{line: 2094, col: 7, offset: 67708},
 													expr: &litMatcher{
-														pos:        position{line: 2094, col: 8, offset: 67707},
+														pos:        position{line: 2094, col: 8, offset: 67709},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -47472,21 +47472,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2548, col: 7, offset: 82134},
+						pos: position{line: 2548, col: 7, offset: 82136},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2548, col: 7, offset: 82134},
+							pos: position{line: 2548, col: 7, offset: 82136},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2548, col: 7, offset: 82134},
+									pos:        position{line: 2548, col: 7, offset: 82136},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2548, col: 12, offset: 82139},
+									pos: position{line: 2548, col: 12, offset: 82141},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2548, col: 13, offset: 82140},
+										pos:  position{line: 2548, col: 13, offset: 82142},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -47498,63 +47498,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2681, col: 1, offset: 85162},
+			pos:  position{line: 2681, col: 1, offset: 85164},
 			expr: &actionExpr{
-				pos: position{line: 2681, col: 26, offset: 85187},
+				pos: position{line: 2681, col: 26, offset: 85189},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2681, col: 26, offset: 85187},
+					pos: position{line: 2681, col: 26, offset: 85189},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2681, col: 26, offset: 85187},
+							pos:   position{line: 2681, col: 26, offset: 85189},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2681, col: 31, offset: 85192},
+								pos: position{line: 2681, col: 31, offset: 85194},
 								expr: &actionExpr{
-									pos: position{line: 2686, col: 5, offset: 85255},
+									pos: position{line: 2686, col: 5, offset: 85257},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2686, col: 5, offset: 85255},
+										pos: position{line: 2686, col: 5, offset: 85257},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2893, col: 11, offset: 91337},
+												pos: position{line: 2893, col: 11, offset: 91339},
 												expr: &anyMatcher{
-													line: 2893, col: 13, offset: 91339,
+													line: 2893, col: 13, offset: 91341,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2689, col: 5, offset: 85381},
+												pos:   position{line: 2689, col: 5, offset: 85383},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2689, col: 16, offset: 85392},
+													pos: position{line: 2689, col: 16, offset: 85394},
 													expr: &actionExpr{
-														pos: position{line: 2689, col: 17, offset: 85393},
+														pos: position{line: 2689, col: 17, offset: 85395},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2689, col: 17, offset: 85393},
+															pos: position{line: 2689, col: 17, offset: 85395},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2689, col: 17, offset: 85393},
+																	pos:   position{line: 2689, col: 17, offset: 85395},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2868, col: 12, offset: 90830},
+																		pos: position{line: 2868, col: 12, offset: 90832},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2868, col: 13, offset: 90831},
+																			pos: position{line: 2868, col: 13, offset: 90833},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2868, col: 13, offset: 90831},
+																					pos: position{line: 2868, col: 13, offset: 90833},
 																					expr: &litMatcher{
-																						pos:        position{line: 2868, col: 13, offset: 90831},
+																						pos:        position{line: 2868, col: 13, offset: 90833},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2868, col: 18, offset: 90836},
+																					pos: position{line: 2868, col: 18, offset: 90838},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2868, col: 18, offset: 90836},
+																						pos:        position{line: 2868, col: 18, offset: 90838},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -47566,7 +47566,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2689, col: 27, offset: 85403},
+																	pos:        position{line: 2689, col: 27, offset: 85405},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -47577,38 +47577,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2690, col: 5, offset: 85431},
+												pos:   position{line: 2690, col: 5, offset: 85433},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2690, col: 12, offset: 85438},
+													pos: position{line: 2690, col: 12, offset: 85440},
 													expr: &choiceExpr{
-														pos: position{line: 2691, col: 9, offset: 85448},
+														pos: position{line: 2691, col: 9, offset: 85450},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2691, col: 9, offset: 85448},
+																pos: position{line: 2691, col: 9, offset: 85450},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2691, col: 9, offset: 85448},
+																	pos:        position{line: 2691, col: 9, offset: 85450},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2692, col: 11, offset: 85495},
+																pos: position{line: 2692, col: 11, offset: 85497},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2692, col: 11, offset: 85495},
+																	pos:        position{line: 2692, col: 11, offset: 85497},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2693, col: 11, offset: 85543},
+																pos: position{line: 2693, col: 11, offset: 85545},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2693, col: 11, offset: 85543},
+																	pos:        position{line: 2693, col: 11, offset: 85545},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -47619,38 +47619,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2695, col: 5, offset: 85593},
+												pos:   position{line: 2695, col: 5, offset: 85595},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2695, col: 12, offset: 85600},
+													pos: position{line: 2695, col: 12, offset: 85602},
 													expr: &choiceExpr{
-														pos: position{line: 2696, col: 9, offset: 85610},
+														pos: position{line: 2696, col: 9, offset: 85612},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2696, col: 9, offset: 85610},
+																pos: position{line: 2696, col: 9, offset: 85612},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2696, col: 9, offset: 85610},
+																	pos:        position{line: 2696, col: 9, offset: 85612},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2697, col: 11, offset: 85657},
+																pos: position{line: 2697, col: 11, offset: 85659},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2697, col: 11, offset: 85657},
+																	pos:        position{line: 2697, col: 11, offset: 85659},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2698, col: 11, offset: 85707},
+																pos: position{line: 2698, col: 11, offset: 85709},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2698, col: 11, offset: 85707},
+																	pos:        position{line: 2698, col: 11, offset: 85709},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -47661,32 +47661,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2700, col: 5, offset: 85758},
+												pos:   position{line: 2700, col: 5, offset: 85760},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2700, col: 12, offset: 85765},
+													pos: position{line: 2700, col: 12, offset: 85767},
 													expr: &choiceExpr{
-														pos: position{line: 2700, col: 13, offset: 85766},
+														pos: position{line: 2700, col: 13, offset: 85768},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2868, col: 12, offset: 90830},
+																pos: position{line: 2868, col: 12, offset: 90832},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2868, col: 13, offset: 90831},
+																	pos: position{line: 2868, col: 13, offset: 90833},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2868, col: 13, offset: 90831},
+																			pos: position{line: 2868, col: 13, offset: 90833},
 																			expr: &litMatcher{
-																				pos:        position{line: 2868, col: 13, offset: 90831},
+																				pos:        position{line: 2868, col: 13, offset: 90833},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2868, col: 18, offset: 90836},
+																			pos: position{line: 2868, col: 18, offset: 90838},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2868, col: 18, offset: 90836},
+																				pos:        position{line: 2868, col: 18, offset: 90838},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -47697,10 +47697,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2700, col: 24, offset: 85777},
+																pos: position{line: 2700, col: 24, offset: 85779},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2700, col: 24, offset: 85777},
+																	pos:        position{line: 2700, col: 24, offset: 85779},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -47711,15 +47711,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2701, col: 5, offset: 85819},
+												pos:   position{line: 2701, col: 5, offset: 85821},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2701, col: 11, offset: 85825},
+													pos: position{line: 2701, col: 11, offset: 85827},
 													expr: &actionExpr{
-														pos: position{line: 2701, col: 12, offset: 85826},
+														pos: position{line: 2701, col: 12, offset: 85828},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2701, col: 12, offset: 85826},
+															pos:        position{line: 2701, col: 12, offset: 85828},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -47729,12 +47729,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2703, col: 5, offset: 85956},
+												pos:   position{line: 2703, col: 5, offset: 85958},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2703, col: 11, offset: 85962},
+													pos: position{line: 2703, col: 11, offset: 85964},
 													expr: &litMatcher{
-														pos:        position{line: 2703, col: 12, offset: 85963},
+														pos:        position{line: 2703, col: 12, offset: 85965},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -47742,7 +47742,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2704, col: 5, offset: 85973},
+												pos: position{line: 2704, col: 5, offset: 85975},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -47751,9 +47751,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2895, col: 8, offset: 91351},
+							pos: position{line: 2895, col: 8, offset: 91353},
 							expr: &anyMatcher{
-								line: 2895, col: 9, offset: 91352,
+								line: 2895, col: 9, offset: 91354,
 							},
 						},
 					},
@@ -47762,23 +47762,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2731, col: 1, offset: 86977},
+			pos:  position{line: 2731, col: 1, offset: 86979},
 			expr: &actionExpr{
-				pos: position{line: 2732, col: 5, offset: 87000},
+				pos: position{line: 2732, col: 5, offset: 87002},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2732, col: 5, offset: 87000},
+					pos: position{line: 2732, col: 5, offset: 87002},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2732, col: 5, offset: 87000},
+							pos:   position{line: 2732, col: 5, offset: 87002},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2755, col: 18, offset: 87741},
+								pos: position{line: 2755, col: 18, offset: 87743},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2755, col: 19, offset: 87742},
+									pos: position{line: 2755, col: 19, offset: 87744},
 									expr: &charClassMatcher{
-										pos:        position{line: 2755, col: 19, offset: 87742},
+										pos:        position{line: 2755, col: 19, offset: 87744},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47789,25 +47789,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2733, col: 5, offset: 87026},
+							pos: position{line: 2733, col: 5, offset: 87028},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2737, col: 5, offset: 87154},
+							pos:        position{line: 2737, col: 5, offset: 87156},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2738, col: 5, offset: 87164},
+							pos:   position{line: 2738, col: 5, offset: 87166},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2759, col: 19, offset: 87817},
+								pos: position{line: 2759, col: 19, offset: 87819},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2759, col: 19, offset: 87817},
+									pos: position{line: 2759, col: 19, offset: 87819},
 									expr: &charClassMatcher{
-										pos:        position{line: 2759, col: 19, offset: 87817},
+										pos:        position{line: 2759, col: 19, offset: 87819},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -47817,36 +47817,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2739, col: 5, offset: 87192},
+							pos:   position{line: 2739, col: 5, offset: 87194},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2739, col: 17, offset: 87204},
+								pos:  position{line: 2739, col: 17, offset: 87206},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2898, col: 8, offset: 91401},
+							pos: position{line: 2898, col: 8, offset: 91403},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2885, col: 12, offset: 91174},
+									pos: position{line: 2885, col: 12, offset: 91176},
 									run: (*parser).callonUserMacroBlock16,
 									expr: &choiceExpr{
-										pos: position{line: 2885, col: 13, offset: 91175},
+										pos: position{line: 2885, col: 13, offset: 91177},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2885, col: 13, offset: 91175},
+												pos:        position{line: 2885, col: 13, offset: 91177},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 20, offset: 91182},
+												pos:        position{line: 2885, col: 20, offset: 91184},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 29, offset: 91191},
+												pos:        position{line: 2885, col: 29, offset: 91193},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -47855,9 +47855,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2895, col: 8, offset: 91351},
+									pos: position{line: 2895, col: 8, offset: 91353},
 									expr: &anyMatcher{
-										line: 2895, col: 9, offset: 91352,
+										line: 2895, col: 9, offset: 91354,
 									},
 								},
 							},
@@ -47868,23 +47868,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2743, col: 1, offset: 87352},
+			pos:  position{line: 2743, col: 1, offset: 87354},
 			expr: &actionExpr{
-				pos: position{line: 2744, col: 5, offset: 87376},
+				pos: position{line: 2744, col: 5, offset: 87378},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2744, col: 5, offset: 87376},
+					pos: position{line: 2744, col: 5, offset: 87378},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2744, col: 5, offset: 87376},
+							pos:   position{line: 2744, col: 5, offset: 87378},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2755, col: 18, offset: 87741},
+								pos: position{line: 2755, col: 18, offset: 87743},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2755, col: 19, offset: 87742},
+									pos: position{line: 2755, col: 19, offset: 87744},
 									expr: &charClassMatcher{
-										pos:        position{line: 2755, col: 19, offset: 87742},
+										pos:        position{line: 2755, col: 19, offset: 87744},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47895,25 +47895,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2745, col: 5, offset: 87402},
+							pos: position{line: 2745, col: 5, offset: 87404},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2749, col: 5, offset: 87530},
+							pos:        position{line: 2749, col: 5, offset: 87532},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2750, col: 5, offset: 87539},
+							pos:   position{line: 2750, col: 5, offset: 87541},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2759, col: 19, offset: 87817},
+								pos: position{line: 2759, col: 19, offset: 87819},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2759, col: 19, offset: 87817},
+									pos: position{line: 2759, col: 19, offset: 87819},
 									expr: &charClassMatcher{
-										pos:        position{line: 2759, col: 19, offset: 87817},
+										pos:        position{line: 2759, col: 19, offset: 87819},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -47923,10 +47923,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2751, col: 5, offset: 87567},
+							pos:   position{line: 2751, col: 5, offset: 87569},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2751, col: 17, offset: 87579},
+								pos:  position{line: 2751, col: 17, offset: 87581},
 								name: "InlineAttributes",
 							},
 						},
@@ -47936,43 +47936,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2830, col: 1, offset: 89650},
+			pos:  position{line: 2830, col: 1, offset: 89652},
 			expr: &actionExpr{
-				pos: position{line: 2830, col: 17, offset: 89666},
+				pos: position{line: 2830, col: 17, offset: 89668},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2830, col: 17, offset: 89666},
+					pos:   position{line: 2830, col: 17, offset: 89668},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2847, col: 5, offset: 90120},
+						pos: position{line: 2847, col: 5, offset: 90122},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2847, col: 5, offset: 90120},
+							pos:   position{line: 2847, col: 5, offset: 90122},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2847, col: 14, offset: 90129},
+								pos: position{line: 2847, col: 14, offset: 90131},
 								expr: &choiceExpr{
-									pos: position{line: 2848, col: 9, offset: 90139},
+									pos: position{line: 2848, col: 9, offset: 90141},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2848, col: 9, offset: 90139},
+											pos: position{line: 2848, col: 9, offset: 90141},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2848, col: 9, offset: 90139},
+												pos: position{line: 2848, col: 9, offset: 90141},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2848, col: 9, offset: 90139},
+														pos: position{line: 2848, col: 9, offset: 90141},
 														expr: &litMatcher{
-															pos:        position{line: 2848, col: 10, offset: 90140},
+															pos:        position{line: 2848, col: 10, offset: 90142},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2849, col: 9, offset: 90168},
+														pos: position{line: 2849, col: 9, offset: 90170},
 														expr: &charClassMatcher{
-															pos:        position{line: 2849, col: 10, offset: 90169},
+															pos:        position{line: 2849, col: 10, offset: 90171},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -47983,27 +47983,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2852, col: 11, offset: 90381},
+											pos: position{line: 2852, col: 11, offset: 90383},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2852, col: 11, offset: 90381},
+													pos:        position{line: 2852, col: 11, offset: 90383},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2852, col: 19, offset: 90389},
+													pos: position{line: 2852, col: 19, offset: 90391},
 													expr: &seqExpr{
-														pos: position{line: 2852, col: 21, offset: 90391},
+														pos: position{line: 2852, col: 21, offset: 90393},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2852, col: 21, offset: 90391},
+																pos: position{line: 2852, col: 21, offset: 90393},
 																expr: &actionExpr{
-																	pos: position{line: 2876, col: 10, offset: 91003},
+																	pos: position{line: 2876, col: 10, offset: 91005},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2876, col: 10, offset: 91003},
+																		pos:        position{line: 2876, col: 10, offset: 91005},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -48012,11 +48012,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2852, col: 28, offset: 90398},
+																pos: position{line: 2852, col: 28, offset: 90400},
 																expr: &notExpr{
-																	pos: position{line: 2895, col: 8, offset: 91351},
+																	pos: position{line: 2895, col: 8, offset: 91353},
 																	expr: &anyMatcher{
-																		line: 2895, col: 9, offset: 91352,
+																		line: 2895, col: 9, offset: 91354,
 																	},
 																},
 															},
@@ -48197,28 +48197,28 @@ var g = &grammar{
 																				expr: &zeroOrOneExpr{
 																					pos: position{line: 657, col: 62, offset: 20835},
 																					expr: &actionExpr{
-																						pos: position{line: 665, col: 17, offset: 21130},
+																						pos: position{line: 665, col: 17, offset: 21132},
 																						run: (*parser).callonFileLocation59,
 																						expr: &seqExpr{
-																							pos: position{line: 665, col: 17, offset: 21130},
+																							pos: position{line: 665, col: 17, offset: 21132},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 665, col: 17, offset: 21130},
+																									pos:        position{line: 665, col: 17, offset: 21132},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 665, col: 21, offset: 21134},
+																									pos:   position{line: 665, col: 21, offset: 21136},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 665, col: 28, offset: 21141},
+																										pos: position{line: 665, col: 28, offset: 21143},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 665, col: 28, offset: 21141},
+																												pos: position{line: 665, col: 28, offset: 21143},
 																												run: (*parser).callonFileLocation64,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 665, col: 28, offset: 21141},
+																													pos:        position{line: 665, col: 28, offset: 21143},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -48226,12 +48226,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 667, col: 9, offset: 21195},
+																												pos: position{line: 667, col: 9, offset: 21197},
 																												run: (*parser).callonFileLocation66,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 667, col: 9, offset: 21195},
+																													pos: position{line: 667, col: 9, offset: 21197},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 667, col: 9, offset: 21195},
+																														pos:        position{line: 667, col: 9, offset: 21197},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -48306,28 +48306,28 @@ var g = &grammar{
 																				expr: &zeroOrOneExpr{
 																					pos: position{line: 661, col: 63, offset: 21007},
 																					expr: &actionExpr{
-																						pos: position{line: 665, col: 17, offset: 21130},
+																						pos: position{line: 665, col: 17, offset: 21132},
 																						run: (*parser).callonFileLocation81,
 																						expr: &seqExpr{
-																							pos: position{line: 665, col: 17, offset: 21130},
+																							pos: position{line: 665, col: 17, offset: 21132},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 665, col: 17, offset: 21130},
+																									pos:        position{line: 665, col: 17, offset: 21132},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 665, col: 21, offset: 21134},
+																									pos:   position{line: 665, col: 21, offset: 21136},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 665, col: 28, offset: 21141},
+																										pos: position{line: 665, col: 28, offset: 21143},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 665, col: 28, offset: 21141},
+																												pos: position{line: 665, col: 28, offset: 21143},
 																												run: (*parser).callonFileLocation86,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 665, col: 28, offset: 21141},
+																													pos:        position{line: 665, col: 28, offset: 21143},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -48335,12 +48335,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 667, col: 9, offset: 21195},
+																												pos: position{line: 667, col: 9, offset: 21197},
 																												run: (*parser).callonFileLocation88,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 667, col: 9, offset: 21195},
+																													pos: position{line: 667, col: 9, offset: 21197},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 667, col: 9, offset: 21195},
+																														pos:        position{line: 667, col: 9, offset: 21197},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -48372,27 +48372,27 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1197, col: 23, offset: 36984},
+											pos: position{line: 1197, col: 23, offset: 36986},
 											run: (*parser).callonFileLocation92,
 											expr: &seqExpr{
-												pos: position{line: 1197, col: 23, offset: 36984},
+												pos: position{line: 1197, col: 23, offset: 36986},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 1195, col: 32, offset: 36952},
+														pos:        position{line: 1195, col: 32, offset: 36954},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 1197, col: 51, offset: 37012},
+														pos:   position{line: 1197, col: 51, offset: 37014},
 														label: "ref",
 														expr: &actionExpr{
-															pos: position{line: 1197, col: 56, offset: 37017},
+															pos: position{line: 1197, col: 56, offset: 37019},
 															run: (*parser).callonFileLocation96,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 1197, col: 56, offset: 37017},
+																pos: position{line: 1197, col: 56, offset: 37019},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1197, col: 56, offset: 37017},
+																	pos:        position{line: 1197, col: 56, offset: 37019},
 																	val:        "[0-9]",
 																	ranges:     []rune{'0', '9'},
 																	ignoreCase: false,
@@ -48402,23 +48402,23 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 1195, col: 32, offset: 36952},
+														pos:        position{line: 1195, col: 32, offset: 36954},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 1198, col: 5, offset: 37089},
+														pos: position{line: 1198, col: 5, offset: 37091},
 														run: (*parser).callonFileLocation100,
 													},
 												},
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2855, col: 11, offset: 90518},
+											pos: position{line: 2855, col: 11, offset: 90520},
 											run: (*parser).callonFileLocation101,
 											expr: &litMatcher{
-												pos:        position{line: 2855, col: 11, offset: 90518},
+												pos:        position{line: 2855, col: 11, offset: 90520},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -49996,7 +49996,7 @@ func (p *parser) callonFileInclusion88() (interface{}, error) {
 }
 
 func (c *current) onFileInclusion77(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonFileInclusion77() (interface{}, error) {
@@ -54268,7 +54268,7 @@ func (p *parser) callonAttributeDeclarationValueElement90() (interface{}, error)
 }
 
 func (c *current) onAttributeDeclarationValueElement79(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonAttributeDeclarationValueElement79() (interface{}, error) {
@@ -54506,7 +54506,7 @@ func (p *parser) callonBlockAttributes86() (interface{}, error) {
 }
 
 func (c *current) onBlockAttributes75(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonBlockAttributes75() (interface{}, error) {
@@ -55250,7 +55250,7 @@ func (p *parser) callonShortHandAttributeValue71() (interface{}, error) {
 }
 
 func (c *current) onShortHandAttributeValue60(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonShortHandAttributeValue60() (interface{}, error) {
@@ -55653,7 +55653,7 @@ func (p *parser) callonSingleQuotedAttributeValueContent69() (interface{}, error
 }
 
 func (c *current) onSingleQuotedAttributeValueContent58(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonSingleQuotedAttributeValueContent58() (interface{}, error) {
@@ -55926,7 +55926,7 @@ func (p *parser) callonDoubleQuotedAttributeValueContent69() (interface{}, error
 }
 
 func (c *current) onDoubleQuotedAttributeValueContent58(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonDoubleQuotedAttributeValueContent58() (interface{}, error) {
@@ -56165,7 +56165,7 @@ func (p *parser) callonUnquotedAttributeValue71() (interface{}, error) {
 }
 
 func (c *current) onUnquotedAttributeValue60(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonUnquotedAttributeValue60() (interface{}, error) {
@@ -56546,7 +56546,7 @@ func (p *parser) callonExternalCrossReference85() (interface{}, error) {
 }
 
 func (c *current) onExternalCrossReference74(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonExternalCrossReference74() (interface{}, error) {
@@ -58534,7 +58534,7 @@ func (p *parser) callonImageBlock98() (interface{}, error) {
 }
 
 func (c *current) onImageBlock87(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonImageBlock87() (interface{}, error) {
@@ -58868,7 +58868,7 @@ func (p *parser) callonInlineImage97() (interface{}, error) {
 }
 
 func (c *current) onInlineImage86(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonInlineImage86() (interface{}, error) {
@@ -59376,7 +59376,7 @@ func (p *parser) callonFootnoteElement134() (interface{}, error) {
 }
 
 func (c *current) onFootnoteElement123(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonFootnoteElement123() (interface{}, error) {
@@ -59729,7 +59729,7 @@ func (p *parser) callonLink97() (interface{}, error) {
 }
 
 func (c *current) onLink86(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonLink86() (interface{}, error) {
@@ -60077,7 +60077,7 @@ func (p *parser) callonRelativeLink96() (interface{}, error) {
 }
 
 func (c *current) onRelativeLink85(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonRelativeLink85() (interface{}, error) {
@@ -60366,7 +60366,7 @@ func (p *parser) callonRelativeLink214() (interface{}, error) {
 }
 
 func (c *current) onRelativeLink203(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonRelativeLink203() (interface{}, error) {
@@ -60655,7 +60655,7 @@ func (p *parser) callonExternalLink97() (interface{}, error) {
 }
 
 func (c *current) onExternalLink86(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonExternalLink86() (interface{}, error) {
@@ -60944,7 +60944,7 @@ func (p *parser) callonExternalLink216() (interface{}, error) {
 }
 
 func (c *current) onExternalLink205(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonExternalLink205() (interface{}, error) {
@@ -70118,7 +70118,7 @@ func (p *parser) callonQuotedTextElement110() (interface{}, error) {
 }
 
 func (c *current) onQuotedTextElement99(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonQuotedTextElement99() (interface{}, error) {
@@ -71616,7 +71616,7 @@ func (p *parser) callonSectionTitleLineElement126() (interface{}, error) {
 }
 
 func (c *current) onSectionTitleLineElement115(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonSectionTitleLineElement115() (interface{}, error) {
@@ -71881,7 +71881,7 @@ func (p *parser) callonSectionTitleLineElement228() (interface{}, error) {
 }
 
 func (c *current) onSectionTitleLineElement217(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonSectionTitleLineElement217() (interface{}, error) {
@@ -72361,7 +72361,7 @@ func (p *parser) callonNormalGroup124() (interface{}, error) {
 }
 
 func (c *current) onNormalGroup113(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonNormalGroup113() (interface{}, error) {
@@ -74058,7 +74058,7 @@ func (p *parser) callonFileLocation81() (interface{}, error) {
 }
 
 func (c *current) onFileLocation70(name, start interface{}) (interface{}, error) {
-	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 func (p *parser) callonFileLocation70() (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 8522467..2709a58 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -659,7 +659,7 @@ CounterSubstitution1 <- "{counter:" name:AttributeName start:(CounterStart)? "}"
 }
 
 CounterSubstitution2 <- "{counter2:" name:AttributeName start:(CounterStart)? "}" {
-    return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
+    return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
 CounterStart <- ":" start:([A-Za-z] {
-- 
2.43.0


From 566517a2167a8abe4a8a50df701ea5bb652b9bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:18 +0000
Subject: [PATCH 116/143] fix: counters in the titles of blocks were not
 replaced

---
 pkg/parser/parser.go  | 19260 ++++++++++++++++++++--------------------
 pkg/parser/parser.peg |     1 +
 2 files changed, 9795 insertions(+), 9466 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 6601604..3e38862 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 359, col: 49, offset: 10879},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 91005},
+														pos: position{line: 2877, col: 10, offset: 91032},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 91005},
+															pos:        position{line: 2877, col: 10, offset: 91032},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2898, col: 8, offset: 91403},
+													pos: position{line: 2899, col: 8, offset: 91430},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91176},
+															pos: position{line: 2886, col: 12, offset: 91203},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2885, col: 13, offset: 91177},
+																pos: position{line: 2886, col: 13, offset: 91204},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 13, offset: 91177},
+																		pos:        position{line: 2886, col: 13, offset: 91204},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 20, offset: 91184},
+																		pos:        position{line: 2886, col: 20, offset: 91211},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 29, offset: 91193},
+																		pos:        position{line: 2886, col: 29, offset: 91220},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2895, col: 8, offset: 91353},
+															pos: position{line: 2896, col: 8, offset: 91380},
 															expr: &anyMatcher{
-																line: 2895, col: 9, offset: 91354,
+																line: 2896, col: 9, offset: 91381,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 361, col: 39, offset: 11000},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 91005},
+														pos: position{line: 2877, col: 10, offset: 91032},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 91005},
+															pos:        position{line: 2877, col: 10, offset: 91032},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2898, col: 8, offset: 91403},
+													pos: position{line: 2899, col: 8, offset: 91430},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91176},
+															pos: position{line: 2886, col: 12, offset: 91203},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2885, col: 13, offset: 91177},
+																pos: position{line: 2886, col: 13, offset: 91204},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 13, offset: 91177},
+																		pos:        position{line: 2886, col: 13, offset: 91204},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 20, offset: 91184},
+																		pos:        position{line: 2886, col: 20, offset: 91211},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 29, offset: 91193},
+																		pos:        position{line: 2886, col: 29, offset: 91220},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2895, col: 8, offset: 91353},
+															pos: position{line: 2896, col: 8, offset: 91380},
 															expr: &anyMatcher{
-																line: 2895, col: 9, offset: 91354,
+																line: 2896, col: 9, offset: 91381,
 															},
 														},
 													},
@@ -321,10 +321,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 78, col: 41, offset: 2149},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 91005},
+																							pos: position{line: 2877, col: 10, offset: 91032},
 																							run: (*parser).callonDocumentRawLine66,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 91005},
+																								pos:        position{line: 2877, col: 10, offset: 91032},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -333,9 +333,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91353},
+																						pos: position{line: 2896, col: 8, offset: 91380},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91354,
+																							line: 2896, col: 9, offset: 91381,
 																						},
 																					},
 																				},
@@ -363,10 +363,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 91005},
+														pos: position{line: 2877, col: 10, offset: 91032},
 														run: (*parser).callonDocumentRawLine73,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 91005},
+															pos:        position{line: 2877, col: 10, offset: 91032},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -375,9 +375,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2895, col: 8, offset: 91353},
+													pos: position{line: 2896, col: 8, offset: 91380},
 													expr: &anyMatcher{
-														line: 2895, col: 9, offset: 91354,
+														line: 2896, col: 9, offset: 91381,
 													},
 												},
 											},
@@ -446,10 +446,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 78, col: 41, offset: 2149},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 91005},
+																							pos: position{line: 2877, col: 10, offset: 91032},
 																							run: (*parser).callonDocumentRawLine94,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 91005},
+																								pos:        position{line: 2877, col: 10, offset: 91032},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -458,9 +458,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91353},
+																						pos: position{line: 2896, col: 8, offset: 91380},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91354,
+																							line: 2896, col: 9, offset: 91381,
 																						},
 																					},
 																				},
@@ -488,10 +488,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 91005},
+														pos: position{line: 2877, col: 10, offset: 91032},
 														run: (*parser).callonDocumentRawLine101,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 91005},
+															pos:        position{line: 2877, col: 10, offset: 91032},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -500,9 +500,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2895, col: 8, offset: 91353},
+													pos: position{line: 2896, col: 8, offset: 91380},
 													expr: &anyMatcher{
-														line: 2895, col: 9, offset: 91354,
+														line: 2896, col: 9, offset: 91381,
 													},
 												},
 											},
@@ -547,19 +547,19 @@ var g = &grammar{
 																					pos: position{line: 92, col: 14, offset: 2522},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 644, col: 5, offset: 20326},
+																							pos: position{line: 645, col: 5, offset: 20353},
 																							run: (*parser).callonDocumentRawLine116,
 																							expr: &seqExpr{
-																								pos: position{line: 644, col: 5, offset: 20326},
+																								pos: position{line: 645, col: 5, offset: 20353},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 644, col: 5, offset: 20326},
+																										pos:        position{line: 645, col: 5, offset: 20353},
 																										val:        "\\{",
 																										ignoreCase: false,
 																										want:       "\"\\\\{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 644, col: 13, offset: 20334},
+																										pos:   position{line: 645, col: 13, offset: 20361},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 317, col: 18, offset: 9667},
@@ -591,7 +591,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 644, col: 32, offset: 20353},
+																										pos:        position{line: 645, col: 32, offset: 20380},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -600,19 +600,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 651, col: 5, offset: 20594},
+																							pos: position{line: 652, col: 5, offset: 20621},
 																							run: (*parser).callonDocumentRawLine126,
 																							expr: &seqExpr{
-																								pos: position{line: 651, col: 5, offset: 20594},
+																								pos: position{line: 652, col: 5, offset: 20621},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 651, col: 5, offset: 20594},
+																										pos:        position{line: 652, col: 5, offset: 20621},
 																										val:        "{",
 																										ignoreCase: false,
 																										want:       "\"{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 651, col: 9, offset: 20598},
+																										pos:   position{line: 652, col: 9, offset: 20625},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 317, col: 18, offset: 9667},
@@ -644,7 +644,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 651, col: 28, offset: 20617},
+																										pos:        position{line: 652, col: 28, offset: 20644},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -710,19 +710,19 @@ var g = &grammar{
 																					pos: position{line: 93, col: 15, offset: 2687},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 644, col: 5, offset: 20326},
+																							pos: position{line: 645, col: 5, offset: 20353},
 																							run: (*parser).callonDocumentRawLine148,
 																							expr: &seqExpr{
-																								pos: position{line: 644, col: 5, offset: 20326},
+																								pos: position{line: 645, col: 5, offset: 20353},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 644, col: 5, offset: 20326},
+																										pos:        position{line: 645, col: 5, offset: 20353},
 																										val:        "\\{",
 																										ignoreCase: false,
 																										want:       "\"\\\\{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 644, col: 13, offset: 20334},
+																										pos:   position{line: 645, col: 13, offset: 20361},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 317, col: 18, offset: 9667},
@@ -754,7 +754,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 644, col: 32, offset: 20353},
+																										pos:        position{line: 645, col: 32, offset: 20380},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -763,19 +763,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 651, col: 5, offset: 20594},
+																							pos: position{line: 652, col: 5, offset: 20621},
 																							run: (*parser).callonDocumentRawLine158,
 																							expr: &seqExpr{
-																								pos: position{line: 651, col: 5, offset: 20594},
+																								pos: position{line: 652, col: 5, offset: 20621},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 651, col: 5, offset: 20594},
+																										pos:        position{line: 652, col: 5, offset: 20621},
 																										val:        "{",
 																										ignoreCase: false,
 																										want:       "\"{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 651, col: 9, offset: 20598},
+																										pos:   position{line: 652, col: 9, offset: 20625},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 317, col: 18, offset: 9667},
@@ -807,7 +807,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 651, col: 28, offset: 20617},
+																										pos:        position{line: 652, col: 28, offset: 20644},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -859,22 +859,22 @@ var g = &grammar{
 																	pos:   position{line: 94, col: 8, offset: 2844},
 																	label: "s",
 																	expr: &choiceExpr{
-																		pos: position{line: 644, col: 5, offset: 20326},
+																		pos: position{line: 645, col: 5, offset: 20353},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 644, col: 5, offset: 20326},
+																				pos: position{line: 645, col: 5, offset: 20353},
 																				run: (*parser).callonDocumentRawLine177,
 																				expr: &seqExpr{
-																					pos: position{line: 644, col: 5, offset: 20326},
+																					pos: position{line: 645, col: 5, offset: 20353},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 644, col: 5, offset: 20326},
+																							pos:        position{line: 645, col: 5, offset: 20353},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 644, col: 13, offset: 20334},
+																							pos:   position{line: 645, col: 13, offset: 20361},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 317, col: 18, offset: 9667},
@@ -906,7 +906,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 644, col: 32, offset: 20353},
+																							pos:        position{line: 645, col: 32, offset: 20380},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -915,19 +915,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 651, col: 5, offset: 20594},
+																				pos: position{line: 652, col: 5, offset: 20621},
 																				run: (*parser).callonDocumentRawLine187,
 																				expr: &seqExpr{
-																					pos: position{line: 651, col: 5, offset: 20594},
+																					pos: position{line: 652, col: 5, offset: 20621},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 651, col: 5, offset: 20594},
+																							pos:        position{line: 652, col: 5, offset: 20621},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 651, col: 9, offset: 20598},
+																							pos:   position{line: 652, col: 9, offset: 20625},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 317, col: 18, offset: 9667},
@@ -959,7 +959,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 651, col: 28, offset: 20617},
+																							pos:        position{line: 652, col: 28, offset: 20644},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -972,24 +972,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2872, col: 10, offset: 90908},
+																pos: position{line: 2873, col: 10, offset: 90935},
 																run: (*parser).callonDocumentRawLine197,
 																expr: &seqExpr{
-																	pos: position{line: 2872, col: 11, offset: 90909},
+																	pos: position{line: 2873, col: 11, offset: 90936},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2872, col: 11, offset: 90909},
+																			pos: position{line: 2873, col: 11, offset: 90936},
 																			expr: &litMatcher{
-																				pos:        position{line: 2872, col: 11, offset: 90909},
+																				pos:        position{line: 2873, col: 11, offset: 90936},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2872, col: 16, offset: 90914},
+																			pos: position{line: 2873, col: 16, offset: 90941},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2872, col: 16, offset: 90914},
+																				pos:        position{line: 2873, col: 16, offset: 90941},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -997,15 +997,15 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2872, col: 23, offset: 90921},
+																			pos:        position{line: 2873, col: 23, offset: 90948},
 																			val:        ".",
 																			ignoreCase: false,
 																			want:       "\".\"",
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2872, col: 27, offset: 90925},
+																			pos: position{line: 2873, col: 27, offset: 90952},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2872, col: 27, offset: 90925},
+																				pos:        position{line: 2873, col: 27, offset: 90952},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1016,24 +1016,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2868, col: 12, offset: 90832},
+																pos: position{line: 2869, col: 12, offset: 90859},
 																run: (*parser).callonDocumentRawLine206,
 																expr: &seqExpr{
-																	pos: position{line: 2868, col: 13, offset: 90833},
+																	pos: position{line: 2869, col: 13, offset: 90860},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2868, col: 13, offset: 90833},
+																			pos: position{line: 2869, col: 13, offset: 90860},
 																			expr: &litMatcher{
-																				pos:        position{line: 2868, col: 13, offset: 90833},
+																				pos:        position{line: 2869, col: 13, offset: 90860},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2868, col: 18, offset: 90838},
+																			pos: position{line: 2869, col: 18, offset: 90865},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2868, col: 18, offset: 90838},
+																				pos:        position{line: 2869, col: 18, offset: 90865},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1049,10 +1049,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2280},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 91005},
+														pos: position{line: 2877, col: 10, offset: 91032},
 														run: (*parser).callonDocumentRawLine213,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 91005},
+															pos:        position{line: 2877, col: 10, offset: 91032},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1132,10 +1132,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2326},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 91005},
+														pos: position{line: 2877, col: 10, offset: 91032},
 														run: (*parser).callonDocumentRawLine230,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 91005},
+															pos:        position{line: 2877, col: 10, offset: 91032},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1170,19 +1170,19 @@ var g = &grammar{
 																					pos: position{line: 92, col: 14, offset: 2522},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 644, col: 5, offset: 20326},
+																							pos: position{line: 645, col: 5, offset: 20353},
 																							run: (*parser).callonDocumentRawLine240,
 																							expr: &seqExpr{
-																								pos: position{line: 644, col: 5, offset: 20326},
+																								pos: position{line: 645, col: 5, offset: 20353},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 644, col: 5, offset: 20326},
+																										pos:        position{line: 645, col: 5, offset: 20353},
 																										val:        "\\{",
 																										ignoreCase: false,
 																										want:       "\"\\\\{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 644, col: 13, offset: 20334},
+																										pos:   position{line: 645, col: 13, offset: 20361},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 317, col: 18, offset: 9667},
@@ -1214,7 +1214,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 644, col: 32, offset: 20353},
+																										pos:        position{line: 645, col: 32, offset: 20380},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -1223,19 +1223,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 651, col: 5, offset: 20594},
+																							pos: position{line: 652, col: 5, offset: 20621},
 																							run: (*parser).callonDocumentRawLine250,
 																							expr: &seqExpr{
-																								pos: position{line: 651, col: 5, offset: 20594},
+																								pos: position{line: 652, col: 5, offset: 20621},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 651, col: 5, offset: 20594},
+																										pos:        position{line: 652, col: 5, offset: 20621},
 																										val:        "{",
 																										ignoreCase: false,
 																										want:       "\"{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 651, col: 9, offset: 20598},
+																										pos:   position{line: 652, col: 9, offset: 20625},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 317, col: 18, offset: 9667},
@@ -1267,7 +1267,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 651, col: 28, offset: 20617},
+																										pos:        position{line: 652, col: 28, offset: 20644},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -1333,19 +1333,19 @@ var g = &grammar{
 																					pos: position{line: 93, col: 15, offset: 2687},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 644, col: 5, offset: 20326},
+																							pos: position{line: 645, col: 5, offset: 20353},
 																							run: (*parser).callonDocumentRawLine272,
 																							expr: &seqExpr{
-																								pos: position{line: 644, col: 5, offset: 20326},
+																								pos: position{line: 645, col: 5, offset: 20353},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 644, col: 5, offset: 20326},
+																										pos:        position{line: 645, col: 5, offset: 20353},
 																										val:        "\\{",
 																										ignoreCase: false,
 																										want:       "\"\\\\{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 644, col: 13, offset: 20334},
+																										pos:   position{line: 645, col: 13, offset: 20361},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 317, col: 18, offset: 9667},
@@ -1377,7 +1377,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 644, col: 32, offset: 20353},
+																										pos:        position{line: 645, col: 32, offset: 20380},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -1386,19 +1386,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 651, col: 5, offset: 20594},
+																							pos: position{line: 652, col: 5, offset: 20621},
 																							run: (*parser).callonDocumentRawLine282,
 																							expr: &seqExpr{
-																								pos: position{line: 651, col: 5, offset: 20594},
+																								pos: position{line: 652, col: 5, offset: 20621},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 651, col: 5, offset: 20594},
+																										pos:        position{line: 652, col: 5, offset: 20621},
 																										val:        "{",
 																										ignoreCase: false,
 																										want:       "\"{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 651, col: 9, offset: 20598},
+																										pos:   position{line: 652, col: 9, offset: 20625},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 317, col: 18, offset: 9667},
@@ -1430,7 +1430,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 651, col: 28, offset: 20617},
+																										pos:        position{line: 652, col: 28, offset: 20644},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -1482,22 +1482,22 @@ var g = &grammar{
 																	pos:   position{line: 94, col: 8, offset: 2844},
 																	label: "s",
 																	expr: &choiceExpr{
-																		pos: position{line: 644, col: 5, offset: 20326},
+																		pos: position{line: 645, col: 5, offset: 20353},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 644, col: 5, offset: 20326},
+																				pos: position{line: 645, col: 5, offset: 20353},
 																				run: (*parser).callonDocumentRawLine301,
 																				expr: &seqExpr{
-																					pos: position{line: 644, col: 5, offset: 20326},
+																					pos: position{line: 645, col: 5, offset: 20353},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 644, col: 5, offset: 20326},
+																							pos:        position{line: 645, col: 5, offset: 20353},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 644, col: 13, offset: 20334},
+																							pos:   position{line: 645, col: 13, offset: 20361},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 317, col: 18, offset: 9667},
@@ -1529,7 +1529,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 644, col: 32, offset: 20353},
+																							pos:        position{line: 645, col: 32, offset: 20380},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -1538,19 +1538,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 651, col: 5, offset: 20594},
+																				pos: position{line: 652, col: 5, offset: 20621},
 																				run: (*parser).callonDocumentRawLine311,
 																				expr: &seqExpr{
-																					pos: position{line: 651, col: 5, offset: 20594},
+																					pos: position{line: 652, col: 5, offset: 20621},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 651, col: 5, offset: 20594},
+																							pos:        position{line: 652, col: 5, offset: 20621},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 651, col: 9, offset: 20598},
+																							pos:   position{line: 652, col: 9, offset: 20625},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 317, col: 18, offset: 9667},
@@ -1582,7 +1582,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 651, col: 28, offset: 20617},
+																							pos:        position{line: 652, col: 28, offset: 20644},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -1595,24 +1595,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2872, col: 10, offset: 90908},
+																pos: position{line: 2873, col: 10, offset: 90935},
 																run: (*parser).callonDocumentRawLine321,
 																expr: &seqExpr{
-																	pos: position{line: 2872, col: 11, offset: 90909},
+																	pos: position{line: 2873, col: 11, offset: 90936},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2872, col: 11, offset: 90909},
+																			pos: position{line: 2873, col: 11, offset: 90936},
 																			expr: &litMatcher{
-																				pos:        position{line: 2872, col: 11, offset: 90909},
+																				pos:        position{line: 2873, col: 11, offset: 90936},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2872, col: 16, offset: 90914},
+																			pos: position{line: 2873, col: 16, offset: 90941},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2872, col: 16, offset: 90914},
+																				pos:        position{line: 2873, col: 16, offset: 90941},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1620,15 +1620,15 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2872, col: 23, offset: 90921},
+																			pos:        position{line: 2873, col: 23, offset: 90948},
 																			val:        ".",
 																			ignoreCase: false,
 																			want:       "\".\"",
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2872, col: 27, offset: 90925},
+																			pos: position{line: 2873, col: 27, offset: 90952},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2872, col: 27, offset: 90925},
+																				pos:        position{line: 2873, col: 27, offset: 90952},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1639,24 +1639,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2868, col: 12, offset: 90832},
+																pos: position{line: 2869, col: 12, offset: 90859},
 																run: (*parser).callonDocumentRawLine330,
 																expr: &seqExpr{
-																	pos: position{line: 2868, col: 13, offset: 90833},
+																	pos: position{line: 2869, col: 13, offset: 90860},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2868, col: 13, offset: 90833},
+																			pos: position{line: 2869, col: 13, offset: 90860},
 																			expr: &litMatcher{
-																				pos:        position{line: 2868, col: 13, offset: 90833},
+																				pos:        position{line: 2869, col: 13, offset: 90860},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2868, col: 18, offset: 90838},
+																			pos: position{line: 2869, col: 18, offset: 90865},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2868, col: 18, offset: 90838},
+																				pos:        position{line: 2869, col: 18, offset: 90865},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1678,10 +1678,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2378},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 91005},
+														pos: position{line: 2877, col: 10, offset: 91032},
 														run: (*parser).callonDocumentRawLine338,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 91005},
+															pos:        position{line: 2877, col: 10, offset: 91032},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1690,9 +1690,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2895, col: 8, offset: 91353},
+													pos: position{line: 2896, col: 8, offset: 91380},
 													expr: &anyMatcher{
-														line: 2895, col: 9, offset: 91354,
+														line: 2896, col: 9, offset: 91381,
 													},
 												},
 											},
@@ -1764,10 +1764,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 78, col: 41, offset: 2149},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 91005},
+																							pos: position{line: 2877, col: 10, offset: 91032},
 																							run: (*parser).callonDocumentRawLine360,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 91005},
+																								pos:        position{line: 2877, col: 10, offset: 91032},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -1776,9 +1776,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91353},
+																						pos: position{line: 2896, col: 8, offset: 91380},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91354,
+																							line: 2896, col: 9, offset: 91381,
 																						},
 																					},
 																				},
@@ -1806,10 +1806,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3474},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 91005},
+														pos: position{line: 2877, col: 10, offset: 91032},
 														run: (*parser).callonDocumentRawLine367,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 91005},
+															pos:        position{line: 2877, col: 10, offset: 91032},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1818,24 +1818,24 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2895, col: 8, offset: 91353},
+													pos: position{line: 2896, col: 8, offset: 91380},
 													expr: &anyMatcher{
-														line: 2895, col: 9, offset: 91354,
+														line: 2896, col: 9, offset: 91381,
 													},
 												},
 											},
 										},
 									},
 									&actionExpr{
-										pos: position{line: 723, col: 5, offset: 23051},
+										pos: position{line: 724, col: 5, offset: 23078},
 										run: (*parser).callonDocumentRawLine371,
 										expr: &seqExpr{
-											pos: position{line: 723, col: 5, offset: 23051},
+											pos: position{line: 724, col: 5, offset: 23078},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 723, col: 5, offset: 23051},
+													pos: position{line: 724, col: 5, offset: 23078},
 													expr: &charClassMatcher{
-														pos:        position{line: 2766, col: 13, offset: 88079},
+														pos:        position{line: 2767, col: 13, offset: 88106},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1843,36 +1843,36 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 724, col: 5, offset: 23081},
+													pos:   position{line: 725, col: 5, offset: 23108},
 													label: "delimiter",
 													expr: &choiceExpr{
-														pos: position{line: 725, col: 9, offset: 23101},
+														pos: position{line: 726, col: 9, offset: 23128},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 739, col: 5, offset: 23593},
+																pos: position{line: 740, col: 5, offset: 23620},
 																run: (*parser).callonDocumentRawLine377,
 																expr: &seqExpr{
-																	pos: position{line: 739, col: 5, offset: 23593},
+																	pos: position{line: 740, col: 5, offset: 23620},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 739, col: 5, offset: 23593},
+																			pos:   position{line: 740, col: 5, offset: 23620},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 739, col: 16, offset: 23604},
+																				pos: position{line: 740, col: 16, offset: 23631},
 																				run: (*parser).callonDocumentRawLine380,
 																				expr: &seqExpr{
-																					pos: position{line: 739, col: 16, offset: 23604},
+																					pos: position{line: 740, col: 16, offset: 23631},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 739, col: 16, offset: 23604},
+																							pos:        position{line: 740, col: 16, offset: 23631},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 739, col: 23, offset: 23611},
+																							pos: position{line: 740, col: 23, offset: 23638},
 																							expr: &litMatcher{
-																								pos:        position{line: 739, col: 23, offset: 23611},
+																								pos:        position{line: 740, col: 23, offset: 23638},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -1883,12 +1883,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 741, col: 8, offset: 23695},
+																			pos: position{line: 742, col: 8, offset: 23722},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 91005},
+																				pos: position{line: 2877, col: 10, offset: 91032},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 91005},
+																					pos:        position{line: 2877, col: 10, offset: 91032},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1897,28 +1897,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91403},
+																			pos: position{line: 2899, col: 8, offset: 91430},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91176},
+																					pos: position{line: 2886, col: 12, offset: 91203},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91177},
+																						pos: position{line: 2886, col: 13, offset: 91204},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91177},
+																								pos:        position{line: 2886, col: 13, offset: 91204},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91184},
+																								pos:        position{line: 2886, col: 20, offset: 91211},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91193},
+																								pos:        position{line: 2886, col: 29, offset: 91220},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1927,9 +1927,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91353},
+																					pos: position{line: 2896, col: 8, offset: 91380},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91354,
+																						line: 2896, col: 9, offset: 91381,
 																					},
 																				},
 																			},
@@ -1938,30 +1938,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 746, col: 5, offset: 23841},
+																pos: position{line: 747, col: 5, offset: 23868},
 																run: (*parser).callonDocumentRawLine396,
 																expr: &seqExpr{
-																	pos: position{line: 746, col: 5, offset: 23841},
+																	pos: position{line: 747, col: 5, offset: 23868},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 746, col: 5, offset: 23841},
+																			pos:   position{line: 747, col: 5, offset: 23868},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 746, col: 16, offset: 23852},
+																				pos: position{line: 747, col: 16, offset: 23879},
 																				run: (*parser).callonDocumentRawLine399,
 																				expr: &seqExpr{
-																					pos: position{line: 746, col: 16, offset: 23852},
+																					pos: position{line: 747, col: 16, offset: 23879},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 746, col: 16, offset: 23852},
+																							pos:        position{line: 747, col: 16, offset: 23879},
 																							val:        "====",
 																							ignoreCase: false,
 																							want:       "\"====\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 746, col: 23, offset: 23859},
+																							pos: position{line: 747, col: 23, offset: 23886},
 																							expr: &litMatcher{
-																								pos:        position{line: 746, col: 23, offset: 23859},
+																								pos:        position{line: 747, col: 23, offset: 23886},
 																								val:        "=",
 																								ignoreCase: false,
 																								want:       "\"=\"",
@@ -1972,12 +1972,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 748, col: 8, offset: 23943},
+																			pos: position{line: 749, col: 8, offset: 23970},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 91005},
+																				pos: position{line: 2877, col: 10, offset: 91032},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 91005},
+																					pos:        position{line: 2877, col: 10, offset: 91032},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1986,28 +1986,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91403},
+																			pos: position{line: 2899, col: 8, offset: 91430},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91176},
+																					pos: position{line: 2886, col: 12, offset: 91203},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91177},
+																						pos: position{line: 2886, col: 13, offset: 91204},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91177},
+																								pos:        position{line: 2886, col: 13, offset: 91204},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91184},
+																								pos:        position{line: 2886, col: 20, offset: 91211},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91193},
+																								pos:        position{line: 2886, col: 29, offset: 91220},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2016,9 +2016,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91353},
+																					pos: position{line: 2896, col: 8, offset: 91380},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91354,
+																						line: 2896, col: 9, offset: 91381,
 																					},
 																				},
 																			},
@@ -2027,27 +2027,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 759, col: 26, offset: 24329},
+																pos: position{line: 760, col: 26, offset: 24356},
 																run: (*parser).callonDocumentRawLine415,
 																expr: &seqExpr{
-																	pos: position{line: 759, col: 26, offset: 24329},
+																	pos: position{line: 760, col: 26, offset: 24356},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 759, col: 26, offset: 24329},
+																			pos:        position{line: 760, col: 26, offset: 24356},
 																			val:        "```",
 																			ignoreCase: false,
 																			want:       "\"```\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 759, col: 32, offset: 24335},
+																			pos:   position{line: 760, col: 32, offset: 24362},
 																			label: "language",
 																			expr: &actionExpr{
-																				pos: position{line: 763, col: 13, offset: 24465},
+																				pos: position{line: 764, col: 13, offset: 24492},
 																				run: (*parser).callonDocumentRawLine419,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 763, col: 14, offset: 24466},
+																					pos: position{line: 764, col: 14, offset: 24493},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 763, col: 14, offset: 24466},
+																						pos:        position{line: 764, col: 14, offset: 24493},
 																						val:        "[^\\r\\n`\\t ]",
 																						chars:      []rune{'\r', '\n', '`', '\t', ' '},
 																						ignoreCase: false,
@@ -2057,12 +2057,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 759, col: 52, offset: 24355},
+																			pos: position{line: 760, col: 52, offset: 24382},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 91005},
+																				pos: position{line: 2877, col: 10, offset: 91032},
 																				run: (*parser).callonDocumentRawLine423,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 91005},
+																					pos:        position{line: 2877, col: 10, offset: 91032},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2071,28 +2071,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91403},
+																			pos: position{line: 2899, col: 8, offset: 91430},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91176},
+																					pos: position{line: 2886, col: 12, offset: 91203},
 																					run: (*parser).callonDocumentRawLine426,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91177},
+																						pos: position{line: 2886, col: 13, offset: 91204},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91177},
+																								pos:        position{line: 2886, col: 13, offset: 91204},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91184},
+																								pos:        position{line: 2886, col: 20, offset: 91211},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91193},
+																								pos:        position{line: 2886, col: 29, offset: 91220},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2101,9 +2101,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91353},
+																					pos: position{line: 2896, col: 8, offset: 91380},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91354,
+																						line: 2896, col: 9, offset: 91381,
 																					},
 																				},
 																			},
@@ -2112,30 +2112,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 753, col: 5, offset: 24088},
+																pos: position{line: 754, col: 5, offset: 24115},
 																run: (*parser).callonDocumentRawLine433,
 																expr: &seqExpr{
-																	pos: position{line: 753, col: 5, offset: 24088},
+																	pos: position{line: 754, col: 5, offset: 24115},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 753, col: 5, offset: 24088},
+																			pos:   position{line: 754, col: 5, offset: 24115},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 753, col: 16, offset: 24099},
+																				pos: position{line: 754, col: 16, offset: 24126},
 																				run: (*parser).callonDocumentRawLine436,
 																				expr: &seqExpr{
-																					pos: position{line: 753, col: 16, offset: 24099},
+																					pos: position{line: 754, col: 16, offset: 24126},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 753, col: 16, offset: 24099},
+																							pos:        position{line: 754, col: 16, offset: 24126},
 																							val:        "```",
 																							ignoreCase: false,
 																							want:       "\"```\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 753, col: 22, offset: 24105},
+																							pos: position{line: 754, col: 22, offset: 24132},
 																							expr: &litMatcher{
-																								pos:        position{line: 753, col: 22, offset: 24105},
+																								pos:        position{line: 754, col: 22, offset: 24132},
 																								val:        "`",
 																								ignoreCase: false,
 																								want:       "\"`\"",
@@ -2146,12 +2146,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 755, col: 8, offset: 24189},
+																			pos: position{line: 756, col: 8, offset: 24216},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 91005},
+																				pos: position{line: 2877, col: 10, offset: 91032},
 																				run: (*parser).callonDocumentRawLine442,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 91005},
+																					pos:        position{line: 2877, col: 10, offset: 91032},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2160,28 +2160,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91403},
+																			pos: position{line: 2899, col: 8, offset: 91430},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91176},
+																					pos: position{line: 2886, col: 12, offset: 91203},
 																					run: (*parser).callonDocumentRawLine445,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91177},
+																						pos: position{line: 2886, col: 13, offset: 91204},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91177},
+																								pos:        position{line: 2886, col: 13, offset: 91204},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91184},
+																								pos:        position{line: 2886, col: 20, offset: 91211},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91193},
+																								pos:        position{line: 2886, col: 29, offset: 91220},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2190,9 +2190,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91353},
+																					pos: position{line: 2896, col: 8, offset: 91380},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91354,
+																						line: 2896, col: 9, offset: 91381,
 																					},
 																				},
 																			},
@@ -2201,30 +2201,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 768, col: 5, offset: 24630},
+																pos: position{line: 769, col: 5, offset: 24657},
 																run: (*parser).callonDocumentRawLine452,
 																expr: &seqExpr{
-																	pos: position{line: 768, col: 5, offset: 24630},
+																	pos: position{line: 769, col: 5, offset: 24657},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 768, col: 5, offset: 24630},
+																			pos:   position{line: 769, col: 5, offset: 24657},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 768, col: 16, offset: 24641},
+																				pos: position{line: 769, col: 16, offset: 24668},
 																				run: (*parser).callonDocumentRawLine455,
 																				expr: &seqExpr{
-																					pos: position{line: 768, col: 16, offset: 24641},
+																					pos: position{line: 769, col: 16, offset: 24668},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 768, col: 16, offset: 24641},
+																							pos:        position{line: 769, col: 16, offset: 24668},
 																							val:        "----",
 																							ignoreCase: false,
 																							want:       "\"----\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 768, col: 23, offset: 24648},
+																							pos: position{line: 769, col: 23, offset: 24675},
 																							expr: &litMatcher{
-																								pos:        position{line: 768, col: 23, offset: 24648},
+																								pos:        position{line: 769, col: 23, offset: 24675},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
@@ -2235,12 +2235,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 770, col: 8, offset: 24732},
+																			pos: position{line: 771, col: 8, offset: 24759},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 91005},
+																				pos: position{line: 2877, col: 10, offset: 91032},
 																				run: (*parser).callonDocumentRawLine461,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 91005},
+																					pos:        position{line: 2877, col: 10, offset: 91032},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2249,28 +2249,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91403},
+																			pos: position{line: 2899, col: 8, offset: 91430},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91176},
+																					pos: position{line: 2886, col: 12, offset: 91203},
 																					run: (*parser).callonDocumentRawLine464,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91177},
+																						pos: position{line: 2886, col: 13, offset: 91204},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91177},
+																								pos:        position{line: 2886, col: 13, offset: 91204},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91184},
+																								pos:        position{line: 2886, col: 20, offset: 91211},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91193},
+																								pos:        position{line: 2886, col: 29, offset: 91220},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2279,9 +2279,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91353},
+																					pos: position{line: 2896, col: 8, offset: 91380},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91354,
+																						line: 2896, col: 9, offset: 91381,
 																					},
 																				},
 																			},
@@ -2290,30 +2290,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 782, col: 5, offset: 25106},
+																pos: position{line: 783, col: 5, offset: 25133},
 																run: (*parser).callonDocumentRawLine471,
 																expr: &seqExpr{
-																	pos: position{line: 782, col: 5, offset: 25106},
+																	pos: position{line: 783, col: 5, offset: 25133},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 782, col: 5, offset: 25106},
+																			pos:   position{line: 783, col: 5, offset: 25133},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 782, col: 16, offset: 25117},
+																				pos: position{line: 783, col: 16, offset: 25144},
 																				run: (*parser).callonDocumentRawLine474,
 																				expr: &seqExpr{
-																					pos: position{line: 782, col: 16, offset: 25117},
+																					pos: position{line: 783, col: 16, offset: 25144},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 782, col: 16, offset: 25117},
+																							pos:        position{line: 783, col: 16, offset: 25144},
 																							val:        "....",
 																							ignoreCase: false,
 																							want:       "\"....\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 782, col: 23, offset: 25124},
+																							pos: position{line: 783, col: 23, offset: 25151},
 																							expr: &litMatcher{
-																								pos:        position{line: 782, col: 23, offset: 25124},
+																								pos:        position{line: 783, col: 23, offset: 25151},
 																								val:        ".",
 																								ignoreCase: false,
 																								want:       "\".\"",
@@ -2324,12 +2324,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 784, col: 8, offset: 25208},
+																			pos: position{line: 785, col: 8, offset: 25235},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 91005},
+																				pos: position{line: 2877, col: 10, offset: 91032},
 																				run: (*parser).callonDocumentRawLine480,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 91005},
+																					pos:        position{line: 2877, col: 10, offset: 91032},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2338,28 +2338,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91403},
+																			pos: position{line: 2899, col: 8, offset: 91430},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91176},
+																					pos: position{line: 2886, col: 12, offset: 91203},
 																					run: (*parser).callonDocumentRawLine483,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91177},
+																						pos: position{line: 2886, col: 13, offset: 91204},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91177},
+																								pos:        position{line: 2886, col: 13, offset: 91204},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91184},
+																								pos:        position{line: 2886, col: 20, offset: 91211},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91193},
+																								pos:        position{line: 2886, col: 29, offset: 91220},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2368,9 +2368,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91353},
+																					pos: position{line: 2896, col: 8, offset: 91380},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91354,
+																						line: 2896, col: 9, offset: 91381,
 																					},
 																				},
 																			},
@@ -2379,30 +2379,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 789, col: 5, offset: 25358},
+																pos: position{line: 790, col: 5, offset: 25385},
 																run: (*parser).callonDocumentRawLine490,
 																expr: &seqExpr{
-																	pos: position{line: 789, col: 5, offset: 25358},
+																	pos: position{line: 790, col: 5, offset: 25385},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 789, col: 5, offset: 25358},
+																			pos:   position{line: 790, col: 5, offset: 25385},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 789, col: 16, offset: 25369},
+																				pos: position{line: 790, col: 16, offset: 25396},
 																				run: (*parser).callonDocumentRawLine493,
 																				expr: &seqExpr{
-																					pos: position{line: 789, col: 16, offset: 25369},
+																					pos: position{line: 790, col: 16, offset: 25396},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 789, col: 16, offset: 25369},
+																							pos:        position{line: 790, col: 16, offset: 25396},
 																							val:        "++++",
 																							ignoreCase: false,
 																							want:       "\"++++\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 789, col: 23, offset: 25376},
+																							pos: position{line: 790, col: 23, offset: 25403},
 																							expr: &litMatcher{
-																								pos:        position{line: 789, col: 23, offset: 25376},
+																								pos:        position{line: 790, col: 23, offset: 25403},
 																								val:        "+",
 																								ignoreCase: false,
 																								want:       "\"+\"",
@@ -2413,12 +2413,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 791, col: 8, offset: 25460},
+																			pos: position{line: 792, col: 8, offset: 25487},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 91005},
+																				pos: position{line: 2877, col: 10, offset: 91032},
 																				run: (*parser).callonDocumentRawLine499,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 91005},
+																					pos:        position{line: 2877, col: 10, offset: 91032},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2427,28 +2427,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91403},
+																			pos: position{line: 2899, col: 8, offset: 91430},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91176},
+																					pos: position{line: 2886, col: 12, offset: 91203},
 																					run: (*parser).callonDocumentRawLine502,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91177},
+																						pos: position{line: 2886, col: 13, offset: 91204},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91177},
+																								pos:        position{line: 2886, col: 13, offset: 91204},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91184},
+																								pos:        position{line: 2886, col: 20, offset: 91211},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91193},
+																								pos:        position{line: 2886, col: 29, offset: 91220},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2457,9 +2457,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91353},
+																					pos: position{line: 2896, col: 8, offset: 91380},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91354,
+																						line: 2896, col: 9, offset: 91381,
 																					},
 																				},
 																			},
@@ -2468,30 +2468,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 796, col: 5, offset: 25608},
+																pos: position{line: 797, col: 5, offset: 25635},
 																run: (*parser).callonDocumentRawLine509,
 																expr: &seqExpr{
-																	pos: position{line: 796, col: 5, offset: 25608},
+																	pos: position{line: 797, col: 5, offset: 25635},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 796, col: 5, offset: 25608},
+																			pos:   position{line: 797, col: 5, offset: 25635},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 796, col: 16, offset: 25619},
+																				pos: position{line: 797, col: 16, offset: 25646},
 																				run: (*parser).callonDocumentRawLine512,
 																				expr: &seqExpr{
-																					pos: position{line: 796, col: 16, offset: 25619},
+																					pos: position{line: 797, col: 16, offset: 25646},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 796, col: 16, offset: 25619},
+																							pos:        position{line: 797, col: 16, offset: 25646},
 																							val:        "____",
 																							ignoreCase: false,
 																							want:       "\"____\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 796, col: 23, offset: 25626},
+																							pos: position{line: 797, col: 23, offset: 25653},
 																							expr: &litMatcher{
-																								pos:        position{line: 796, col: 23, offset: 25626},
+																								pos:        position{line: 797, col: 23, offset: 25653},
 																								val:        "_",
 																								ignoreCase: false,
 																								want:       "\"_\"",
@@ -2502,12 +2502,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 798, col: 8, offset: 25710},
+																			pos: position{line: 799, col: 8, offset: 25737},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 91005},
+																				pos: position{line: 2877, col: 10, offset: 91032},
 																				run: (*parser).callonDocumentRawLine518,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 91005},
+																					pos:        position{line: 2877, col: 10, offset: 91032},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2516,28 +2516,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91403},
+																			pos: position{line: 2899, col: 8, offset: 91430},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91176},
+																					pos: position{line: 2886, col: 12, offset: 91203},
 																					run: (*parser).callonDocumentRawLine521,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91177},
+																						pos: position{line: 2886, col: 13, offset: 91204},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91177},
+																								pos:        position{line: 2886, col: 13, offset: 91204},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91184},
+																								pos:        position{line: 2886, col: 20, offset: 91211},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91193},
+																								pos:        position{line: 2886, col: 29, offset: 91220},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2546,9 +2546,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91353},
+																					pos: position{line: 2896, col: 8, offset: 91380},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91354,
+																						line: 2896, col: 9, offset: 91381,
 																					},
 																				},
 																			},
@@ -2557,30 +2557,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 803, col: 5, offset: 25854},
+																pos: position{line: 804, col: 5, offset: 25881},
 																run: (*parser).callonDocumentRawLine528,
 																expr: &seqExpr{
-																	pos: position{line: 803, col: 5, offset: 25854},
+																	pos: position{line: 804, col: 5, offset: 25881},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 803, col: 5, offset: 25854},
+																			pos:   position{line: 804, col: 5, offset: 25881},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 803, col: 16, offset: 25865},
+																				pos: position{line: 804, col: 16, offset: 25892},
 																				run: (*parser).callonDocumentRawLine531,
 																				expr: &seqExpr{
-																					pos: position{line: 803, col: 16, offset: 25865},
+																					pos: position{line: 804, col: 16, offset: 25892},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 803, col: 16, offset: 25865},
+																							pos:        position{line: 804, col: 16, offset: 25892},
 																							val:        "****",
 																							ignoreCase: false,
 																							want:       "\"****\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 803, col: 23, offset: 25872},
+																							pos: position{line: 804, col: 23, offset: 25899},
 																							expr: &litMatcher{
-																								pos:        position{line: 803, col: 23, offset: 25872},
+																								pos:        position{line: 804, col: 23, offset: 25899},
 																								val:        "*",
 																								ignoreCase: false,
 																								want:       "\"*\"",
@@ -2591,12 +2591,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 805, col: 8, offset: 25956},
+																			pos: position{line: 806, col: 8, offset: 25983},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 91005},
+																				pos: position{line: 2877, col: 10, offset: 91032},
 																				run: (*parser).callonDocumentRawLine537,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 91005},
+																					pos:        position{line: 2877, col: 10, offset: 91032},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2605,28 +2605,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91403},
+																			pos: position{line: 2899, col: 8, offset: 91430},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91176},
+																					pos: position{line: 2886, col: 12, offset: 91203},
 																					run: (*parser).callonDocumentRawLine540,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91177},
+																						pos: position{line: 2886, col: 13, offset: 91204},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91177},
+																								pos:        position{line: 2886, col: 13, offset: 91204},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91184},
+																								pos:        position{line: 2886, col: 20, offset: 91211},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91193},
+																								pos:        position{line: 2886, col: 29, offset: 91220},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2635,9 +2635,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91353},
+																					pos: position{line: 2896, col: 8, offset: 91380},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91354,
+																						line: 2896, col: 9, offset: 91381,
 																					},
 																				},
 																			},
@@ -2687,12 +2687,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine555,
 												},
 												&actionExpr{
-													pos: position{line: 2880, col: 11, offset: 91066},
+													pos: position{line: 2881, col: 11, offset: 91093},
 													run: (*parser).callonDocumentRawLine556,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2880, col: 11, offset: 91066},
+														pos: position{line: 2881, col: 11, offset: 91093},
 														expr: &charClassMatcher{
-															pos:        position{line: 2880, col: 11, offset: 91066},
+															pos:        position{line: 2881, col: 11, offset: 91093},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2701,12 +2701,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2826, col: 14, offset: 89598},
+													pos: position{line: 2827, col: 14, offset: 89625},
 													run: (*parser).callonDocumentRawLine559,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2826, col: 14, offset: 89598},
+														pos: position{line: 2827, col: 14, offset: 89625},
 														expr: &charClassMatcher{
-															pos:        position{line: 2826, col: 14, offset: 89598},
+															pos:        position{line: 2827, col: 14, offset: 89625},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2715,9 +2715,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2895, col: 8, offset: 91353},
+													pos: position{line: 2896, col: 8, offset: 91380},
 													expr: &anyMatcher{
-														line: 2895, col: 9, offset: 91354,
+														line: 2896, col: 9, offset: 91381,
 													},
 												},
 											},
@@ -2727,9 +2727,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2895, col: 8, offset: 91353},
+							pos: position{line: 2896, col: 8, offset: 91380},
 							expr: &anyMatcher{
-								line: 2895, col: 9, offset: 91354,
+								line: 2896, col: 9, offset: 91381,
 							},
 						},
 					},
@@ -2764,41 +2764,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2830, col: 17, offset: 89668},
+												pos: position{line: 2831, col: 17, offset: 89695},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2830, col: 17, offset: 89668},
+													pos:   position{line: 2831, col: 17, offset: 89695},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2847, col: 5, offset: 90122},
+														pos: position{line: 2848, col: 5, offset: 90149},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2847, col: 5, offset: 90122},
+															pos:   position{line: 2848, col: 5, offset: 90149},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2847, col: 14, offset: 90131},
+																pos: position{line: 2848, col: 14, offset: 90158},
 																expr: &choiceExpr{
-																	pos: position{line: 2848, col: 9, offset: 90141},
+																	pos: position{line: 2849, col: 9, offset: 90168},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2848, col: 9, offset: 90141},
+																			pos: position{line: 2849, col: 9, offset: 90168},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2848, col: 9, offset: 90141},
+																				pos: position{line: 2849, col: 9, offset: 90168},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2848, col: 9, offset: 90141},
+																						pos: position{line: 2849, col: 9, offset: 90168},
 																						expr: &litMatcher{
-																							pos:        position{line: 2848, col: 10, offset: 90142},
+																							pos:        position{line: 2849, col: 10, offset: 90169},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2849, col: 9, offset: 90170},
+																						pos: position{line: 2850, col: 9, offset: 90197},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2849, col: 10, offset: 90171},
+																							pos:        position{line: 2850, col: 10, offset: 90198},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2809,27 +2809,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2852, col: 11, offset: 90383},
+																			pos: position{line: 2853, col: 11, offset: 90410},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2852, col: 11, offset: 90383},
+																					pos:        position{line: 2853, col: 11, offset: 90410},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2852, col: 19, offset: 90391},
+																					pos: position{line: 2853, col: 19, offset: 90418},
 																					expr: &seqExpr{
-																						pos: position{line: 2852, col: 21, offset: 90393},
+																						pos: position{line: 2853, col: 21, offset: 90420},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2852, col: 21, offset: 90393},
+																								pos: position{line: 2853, col: 21, offset: 90420},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 91005},
+																									pos: position{line: 2877, col: 10, offset: 91032},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 91005},
+																										pos:        position{line: 2877, col: 10, offset: 91032},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2838,11 +2838,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2852, col: 28, offset: 90400},
+																								pos: position{line: 2853, col: 28, offset: 90427},
 																								expr: &notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91353},
+																									pos: position{line: 2896, col: 8, offset: 91380},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91354,
+																										line: 2896, col: 9, offset: 91381,
 																									},
 																								},
 																							},
@@ -2852,35 +2852,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 635, col: 5, offset: 20116},
+																			pos: position{line: 636, col: 5, offset: 20143},
 																			run: (*parser).callonFileInclusion30,
 																			expr: &seqExpr{
-																				pos: position{line: 635, col: 5, offset: 20116},
+																				pos: position{line: 636, col: 5, offset: 20143},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 635, col: 5, offset: 20116},
+																						pos: position{line: 636, col: 5, offset: 20143},
 																						run: (*parser).callonFileInclusion32,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 638, col: 5, offset: 20188},
+																						pos:   position{line: 639, col: 5, offset: 20215},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 638, col: 14, offset: 20197},
+																							pos: position{line: 639, col: 14, offset: 20224},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 644, col: 5, offset: 20326},
+																									pos: position{line: 645, col: 5, offset: 20353},
 																									run: (*parser).callonFileInclusion35,
 																									expr: &seqExpr{
-																										pos: position{line: 644, col: 5, offset: 20326},
+																										pos: position{line: 645, col: 5, offset: 20353},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 644, col: 5, offset: 20326},
+																												pos:        position{line: 645, col: 5, offset: 20353},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 644, col: 13, offset: 20334},
+																												pos:   position{line: 645, col: 13, offset: 20361},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 317, col: 18, offset: 9667},
@@ -2912,7 +2912,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 644, col: 32, offset: 20353},
+																												pos:        position{line: 645, col: 32, offset: 20380},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -2921,19 +2921,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 651, col: 5, offset: 20594},
+																									pos: position{line: 652, col: 5, offset: 20621},
 																									run: (*parser).callonFileInclusion45,
 																									expr: &seqExpr{
-																										pos: position{line: 651, col: 5, offset: 20594},
+																										pos: position{line: 652, col: 5, offset: 20621},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 651, col: 5, offset: 20594},
+																												pos:        position{line: 652, col: 5, offset: 20621},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 651, col: 9, offset: 20598},
+																												pos:   position{line: 652, col: 9, offset: 20625},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 317, col: 18, offset: 9667},
@@ -2965,7 +2965,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 651, col: 28, offset: 20617},
+																												pos:        position{line: 652, col: 28, offset: 20644},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -2974,19 +2974,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 657, col: 25, offset: 20798},
+																									pos: position{line: 658, col: 25, offset: 20825},
 																									run: (*parser).callonFileInclusion55,
 																									expr: &seqExpr{
-																										pos: position{line: 657, col: 25, offset: 20798},
+																										pos: position{line: 658, col: 25, offset: 20825},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 657, col: 25, offset: 20798},
+																												pos:        position{line: 658, col: 25, offset: 20825},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 657, col: 37, offset: 20810},
+																												pos:   position{line: 658, col: 37, offset: 20837},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 317, col: 18, offset: 9667},
@@ -3018,33 +3018,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 657, col: 56, offset: 20829},
+																												pos:   position{line: 658, col: 56, offset: 20856},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 657, col: 62, offset: 20835},
+																													pos: position{line: 658, col: 62, offset: 20862},
 																													expr: &actionExpr{
-																														pos: position{line: 665, col: 17, offset: 21132},
+																														pos: position{line: 666, col: 17, offset: 21159},
 																														run: (*parser).callonFileInclusion66,
 																														expr: &seqExpr{
-																															pos: position{line: 665, col: 17, offset: 21132},
+																															pos: position{line: 666, col: 17, offset: 21159},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 665, col: 17, offset: 21132},
+																																	pos:        position{line: 666, col: 17, offset: 21159},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 665, col: 21, offset: 21136},
+																																	pos:   position{line: 666, col: 21, offset: 21163},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 665, col: 28, offset: 21143},
+																																		pos: position{line: 666, col: 28, offset: 21170},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 665, col: 28, offset: 21143},
+																																				pos: position{line: 666, col: 28, offset: 21170},
 																																				run: (*parser).callonFileInclusion71,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 665, col: 28, offset: 21143},
+																																					pos:        position{line: 666, col: 28, offset: 21170},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -3052,12 +3052,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 667, col: 9, offset: 21197},
+																																				pos: position{line: 668, col: 9, offset: 21224},
 																																				run: (*parser).callonFileInclusion73,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 667, col: 9, offset: 21197},
+																																					pos: position{line: 668, col: 9, offset: 21224},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 667, col: 9, offset: 21197},
+																																						pos:        position{line: 668, col: 9, offset: 21224},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -3074,7 +3074,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 657, col: 78, offset: 20851},
+																												pos:        position{line: 658, col: 78, offset: 20878},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -3083,19 +3083,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 661, col: 25, offset: 20969},
+																									pos: position{line: 662, col: 25, offset: 20996},
 																									run: (*parser).callonFileInclusion77,
 																									expr: &seqExpr{
-																										pos: position{line: 661, col: 25, offset: 20969},
+																										pos: position{line: 662, col: 25, offset: 20996},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 661, col: 25, offset: 20969},
+																												pos:        position{line: 662, col: 25, offset: 20996},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 661, col: 38, offset: 20982},
+																												pos:   position{line: 662, col: 38, offset: 21009},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 317, col: 18, offset: 9667},
@@ -3127,33 +3127,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 661, col: 57, offset: 21001},
+																												pos:   position{line: 662, col: 57, offset: 21028},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 661, col: 63, offset: 21007},
+																													pos: position{line: 662, col: 63, offset: 21034},
 																													expr: &actionExpr{
-																														pos: position{line: 665, col: 17, offset: 21132},
+																														pos: position{line: 666, col: 17, offset: 21159},
 																														run: (*parser).callonFileInclusion88,
 																														expr: &seqExpr{
-																															pos: position{line: 665, col: 17, offset: 21132},
+																															pos: position{line: 666, col: 17, offset: 21159},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 665, col: 17, offset: 21132},
+																																	pos:        position{line: 666, col: 17, offset: 21159},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 665, col: 21, offset: 21136},
+																																	pos:   position{line: 666, col: 21, offset: 21163},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 665, col: 28, offset: 21143},
+																																		pos: position{line: 666, col: 28, offset: 21170},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 665, col: 28, offset: 21143},
+																																				pos: position{line: 666, col: 28, offset: 21170},
 																																				run: (*parser).callonFileInclusion93,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 665, col: 28, offset: 21143},
+																																					pos:        position{line: 666, col: 28, offset: 21170},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -3161,12 +3161,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 667, col: 9, offset: 21197},
+																																				pos: position{line: 668, col: 9, offset: 21224},
 																																				run: (*parser).callonFileInclusion95,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 667, col: 9, offset: 21197},
+																																					pos: position{line: 668, col: 9, offset: 21224},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 667, col: 9, offset: 21197},
+																																						pos:        position{line: 668, col: 9, offset: 21224},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -3183,7 +3183,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 661, col: 79, offset: 21023},
+																												pos:        position{line: 662, col: 79, offset: 21050},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -3198,27 +3198,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1197, col: 23, offset: 36986},
+																			pos: position{line: 1198, col: 23, offset: 37013},
 																			run: (*parser).callonFileInclusion99,
 																			expr: &seqExpr{
-																				pos: position{line: 1197, col: 23, offset: 36986},
+																				pos: position{line: 1198, col: 23, offset: 37013},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1195, col: 32, offset: 36954},
+																						pos:        position{line: 1196, col: 32, offset: 36981},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1197, col: 51, offset: 37014},
+																						pos:   position{line: 1198, col: 51, offset: 37041},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1197, col: 56, offset: 37019},
+																							pos: position{line: 1198, col: 56, offset: 37046},
 																							run: (*parser).callonFileInclusion103,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1197, col: 56, offset: 37019},
+																								pos: position{line: 1198, col: 56, offset: 37046},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1197, col: 56, offset: 37019},
+																									pos:        position{line: 1198, col: 56, offset: 37046},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -3228,23 +3228,23 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1195, col: 32, offset: 36954},
+																						pos:        position{line: 1196, col: 32, offset: 36981},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1198, col: 5, offset: 37091},
+																						pos: position{line: 1199, col: 5, offset: 37118},
 																						run: (*parser).callonFileInclusion107,
 																					},
 																				},
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2855, col: 11, offset: 90520},
+																			pos: position{line: 2856, col: 11, offset: 90547},
 																			run: (*parser).callonFileInclusion108,
 																			expr: &litMatcher{
-																				pos:        position{line: 2855, col: 11, offset: 90520},
+																				pos:        position{line: 2856, col: 11, offset: 90547},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3273,10 +3273,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 10, offset: 91005},
+								pos: position{line: 2877, col: 10, offset: 91032},
 								run: (*parser).callonFileInclusion113,
 								expr: &charClassMatcher{
-									pos:        position{line: 2876, col: 10, offset: 91005},
+									pos:        position{line: 2877, col: 10, offset: 91032},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3285,28 +3285,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2898, col: 8, offset: 91403},
+							pos: position{line: 2899, col: 8, offset: 91430},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2885, col: 12, offset: 91176},
+									pos: position{line: 2886, col: 12, offset: 91203},
 									run: (*parser).callonFileInclusion116,
 									expr: &choiceExpr{
-										pos: position{line: 2885, col: 13, offset: 91177},
+										pos: position{line: 2886, col: 13, offset: 91204},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2885, col: 13, offset: 91177},
+												pos:        position{line: 2886, col: 13, offset: 91204},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 20, offset: 91184},
+												pos:        position{line: 2886, col: 20, offset: 91211},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 29, offset: 91193},
+												pos:        position{line: 2886, col: 29, offset: 91220},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3315,9 +3315,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2895, col: 8, offset: 91353},
+									pos: position{line: 2896, col: 8, offset: 91380},
 									expr: &anyMatcher{
-										line: 2895, col: 9, offset: 91354,
+										line: 2896, col: 9, offset: 91381,
 									},
 								},
 							},
@@ -3363,24 +3363,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2868, col: 12, offset: 90832},
+																				pos: position{line: 2869, col: 12, offset: 90859},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2868, col: 13, offset: 90833},
+																					pos: position{line: 2869, col: 13, offset: 90860},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2868, col: 13, offset: 90833},
+																							pos: position{line: 2869, col: 13, offset: 90860},
 																							expr: &litMatcher{
-																								pos:        position{line: 2868, col: 13, offset: 90833},
+																								pos:        position{line: 2869, col: 13, offset: 90860},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2868, col: 18, offset: 90838},
+																							pos: position{line: 2869, col: 18, offset: 90865},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2868, col: 18, offset: 90838},
+																								pos:        position{line: 2869, col: 18, offset: 90865},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3401,24 +3401,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2868, col: 12, offset: 90832},
+																				pos: position{line: 2869, col: 12, offset: 90859},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2868, col: 13, offset: 90833},
+																					pos: position{line: 2869, col: 13, offset: 90860},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2868, col: 13, offset: 90833},
+																							pos: position{line: 2869, col: 13, offset: 90860},
 																							expr: &litMatcher{
-																								pos:        position{line: 2868, col: 13, offset: 90833},
+																								pos:        position{line: 2869, col: 13, offset: 90860},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2868, col: 18, offset: 90838},
+																							pos: position{line: 2869, col: 18, offset: 90865},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2868, col: 18, offset: 90838},
+																								pos:        position{line: 2869, col: 18, offset: 90865},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3439,24 +3439,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2868, col: 12, offset: 90832},
+																		pos: position{line: 2869, col: 12, offset: 90859},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2868, col: 13, offset: 90833},
+																			pos: position{line: 2869, col: 13, offset: 90860},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2868, col: 13, offset: 90833},
+																					pos: position{line: 2869, col: 13, offset: 90860},
 																					expr: &litMatcher{
-																						pos:        position{line: 2868, col: 13, offset: 90833},
+																						pos:        position{line: 2869, col: 13, offset: 90860},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2868, col: 18, offset: 90838},
+																					pos: position{line: 2869, col: 18, offset: 90865},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2868, col: 18, offset: 90838},
+																						pos:        position{line: 2869, col: 18, offset: 90865},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3505,24 +3505,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2868, col: 12, offset: 90832},
+																									pos: position{line: 2869, col: 12, offset: 90859},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2868, col: 13, offset: 90833},
+																										pos: position{line: 2869, col: 13, offset: 90860},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2868, col: 13, offset: 90833},
+																												pos: position{line: 2869, col: 13, offset: 90860},
 																												expr: &litMatcher{
-																													pos:        position{line: 2868, col: 13, offset: 90833},
+																													pos:        position{line: 2869, col: 13, offset: 90860},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2868, col: 18, offset: 90838},
+																												pos: position{line: 2869, col: 18, offset: 90865},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2868, col: 18, offset: 90838},
+																													pos:        position{line: 2869, col: 18, offset: 90865},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3543,24 +3543,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2868, col: 12, offset: 90832},
+																									pos: position{line: 2869, col: 12, offset: 90859},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2868, col: 13, offset: 90833},
+																										pos: position{line: 2869, col: 13, offset: 90860},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2868, col: 13, offset: 90833},
+																												pos: position{line: 2869, col: 13, offset: 90860},
 																												expr: &litMatcher{
-																													pos:        position{line: 2868, col: 13, offset: 90833},
+																													pos:        position{line: 2869, col: 13, offset: 90860},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2868, col: 18, offset: 90838},
+																												pos: position{line: 2869, col: 18, offset: 90865},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2868, col: 18, offset: 90838},
+																													pos:        position{line: 2869, col: 18, offset: 90865},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3581,24 +3581,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 12, offset: 90832},
+																							pos: position{line: 2869, col: 12, offset: 90859},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2868, col: 13, offset: 90833},
+																								pos: position{line: 2869, col: 13, offset: 90860},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2868, col: 13, offset: 90833},
+																										pos: position{line: 2869, col: 13, offset: 90860},
 																										expr: &litMatcher{
-																											pos:        position{line: 2868, col: 13, offset: 90833},
+																											pos:        position{line: 2869, col: 13, offset: 90860},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2868, col: 18, offset: 90838},
+																										pos: position{line: 2869, col: 18, offset: 90865},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2868, col: 18, offset: 90838},
+																											pos:        position{line: 2869, col: 18, offset: 90865},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3631,24 +3631,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2868, col: 12, offset: 90832},
+														pos: position{line: 2869, col: 12, offset: 90859},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2868, col: 13, offset: 90833},
+															pos: position{line: 2869, col: 13, offset: 90860},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2868, col: 13, offset: 90833},
+																	pos: position{line: 2869, col: 13, offset: 90860},
 																	expr: &litMatcher{
-																		pos:        position{line: 2868, col: 13, offset: 90833},
+																		pos:        position{line: 2869, col: 13, offset: 90860},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2868, col: 18, offset: 90838},
+																	pos: position{line: 2869, col: 18, offset: 90865},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2868, col: 18, offset: 90838},
+																		pos:        position{line: 2869, col: 18, offset: 90865},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3669,24 +3669,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2868, col: 12, offset: 90832},
+														pos: position{line: 2869, col: 12, offset: 90859},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2868, col: 13, offset: 90833},
+															pos: position{line: 2869, col: 13, offset: 90860},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2868, col: 13, offset: 90833},
+																	pos: position{line: 2869, col: 13, offset: 90860},
 																	expr: &litMatcher{
-																		pos:        position{line: 2868, col: 13, offset: 90833},
+																		pos:        position{line: 2869, col: 13, offset: 90860},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2868, col: 18, offset: 90838},
+																	pos: position{line: 2869, col: 18, offset: 90865},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2868, col: 18, offset: 90838},
+																		pos:        position{line: 2869, col: 18, offset: 90865},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3707,24 +3707,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2868, col: 12, offset: 90832},
+												pos: position{line: 2869, col: 12, offset: 90859},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2868, col: 13, offset: 90833},
+													pos: position{line: 2869, col: 13, offset: 90860},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2868, col: 13, offset: 90833},
+															pos: position{line: 2869, col: 13, offset: 90860},
 															expr: &litMatcher{
-																pos:        position{line: 2868, col: 13, offset: 90833},
+																pos:        position{line: 2869, col: 13, offset: 90860},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2868, col: 18, offset: 90838},
+															pos: position{line: 2869, col: 18, offset: 90865},
 															expr: &charClassMatcher{
-																pos:        position{line: 2868, col: 18, offset: 90838},
+																pos:        position{line: 2869, col: 18, offset: 90865},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3740,9 +3740,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2895, col: 8, offset: 91353},
+							pos: position{line: 2896, col: 8, offset: 91380},
 							expr: &anyMatcher{
-								line: 2895, col: 9, offset: 91354,
+								line: 2896, col: 9, offset: 91381,
 							},
 						},
 					},
@@ -4067,9 +4067,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2895, col: 8, offset: 91353},
+							pos: position{line: 2896, col: 8, offset: 91380},
 							expr: &anyMatcher{
-								line: 2895, col: 9, offset: 91354,
+								line: 2896, col: 9, offset: 91381,
 							},
 						},
 					},
@@ -4193,28 +4193,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2898, col: 8, offset: 91403},
+							pos: position{line: 2899, col: 8, offset: 91430},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2885, col: 12, offset: 91176},
+									pos: position{line: 2886, col: 12, offset: 91203},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2885, col: 13, offset: 91177},
+										pos: position{line: 2886, col: 13, offset: 91204},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2885, col: 13, offset: 91177},
+												pos:        position{line: 2886, col: 13, offset: 91204},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 20, offset: 91184},
+												pos:        position{line: 2886, col: 20, offset: 91211},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 29, offset: 91193},
+												pos:        position{line: 2886, col: 29, offset: 91220},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4223,9 +4223,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2895, col: 8, offset: 91353},
+									pos: position{line: 2896, col: 8, offset: 91380},
 									expr: &anyMatcher{
-										line: 2895, col: 9, offset: 91354,
+										line: 2896, col: 9, offset: 91381,
 									},
 								},
 							},
@@ -4244,9 +4244,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2893, col: 11, offset: 91339},
+							pos: position{line: 2894, col: 11, offset: 91366},
 							expr: &anyMatcher{
-								line: 2893, col: 13, offset: 91341,
+								line: 2894, col: 13, offset: 91368,
 							},
 						},
 						&labeledExpr{
@@ -4341,10 +4341,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 359, col: 49, offset: 10879},
 														expr: &actionExpr{
-															pos: position{line: 2876, col: 10, offset: 91005},
+															pos: position{line: 2877, col: 10, offset: 91032},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2876, col: 10, offset: 91005},
+																pos:        position{line: 2877, col: 10, offset: 91032},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4353,28 +4353,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2898, col: 8, offset: 91403},
+														pos: position{line: 2899, col: 8, offset: 91430},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2885, col: 12, offset: 91176},
+																pos: position{line: 2886, col: 12, offset: 91203},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2885, col: 13, offset: 91177},
+																	pos: position{line: 2886, col: 13, offset: 91204},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 13, offset: 91177},
+																			pos:        position{line: 2886, col: 13, offset: 91204},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 20, offset: 91184},
+																			pos:        position{line: 2886, col: 20, offset: 91211},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 29, offset: 91193},
+																			pos:        position{line: 2886, col: 29, offset: 91220},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4383,9 +4383,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91353},
+																pos: position{line: 2896, col: 8, offset: 91380},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91354,
+																	line: 2896, col: 9, offset: 91381,
 																},
 															},
 														},
@@ -4446,10 +4446,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 361, col: 39, offset: 11000},
 														expr: &actionExpr{
-															pos: position{line: 2876, col: 10, offset: 91005},
+															pos: position{line: 2877, col: 10, offset: 91032},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2876, col: 10, offset: 91005},
+																pos:        position{line: 2877, col: 10, offset: 91032},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4458,28 +4458,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2898, col: 8, offset: 91403},
+														pos: position{line: 2899, col: 8, offset: 91430},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2885, col: 12, offset: 91176},
+																pos: position{line: 2886, col: 12, offset: 91203},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2885, col: 13, offset: 91177},
+																	pos: position{line: 2886, col: 13, offset: 91204},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 13, offset: 91177},
+																			pos:        position{line: 2886, col: 13, offset: 91204},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 20, offset: 91184},
+																			pos:        position{line: 2886, col: 20, offset: 91211},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 29, offset: 91193},
+																			pos:        position{line: 2886, col: 29, offset: 91220},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4488,9 +4488,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91353},
+																pos: position{line: 2896, col: 8, offset: 91380},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91354,
+																	line: 2896, col: 9, offset: 91381,
 																},
 															},
 														},
@@ -4499,24 +4499,24 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 676, col: 14, offset: 21498},
+											pos: position{line: 677, col: 14, offset: 21525},
 											run: (*parser).callonDocumentFragment58,
 											expr: &seqExpr{
-												pos: position{line: 676, col: 14, offset: 21498},
+												pos: position{line: 677, col: 14, offset: 21525},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2893, col: 11, offset: 91339},
+														pos: position{line: 2894, col: 11, offset: 91366},
 														expr: &anyMatcher{
-															line: 2893, col: 13, offset: 91341,
+															line: 2894, col: 13, offset: 91368,
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 676, col: 21, offset: 21505},
+														pos: position{line: 677, col: 21, offset: 21532},
 														expr: &actionExpr{
-															pos: position{line: 2876, col: 10, offset: 91005},
+															pos: position{line: 2877, col: 10, offset: 91032},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2876, col: 10, offset: 91005},
+																pos:        position{line: 2877, col: 10, offset: 91032},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4525,28 +4525,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2898, col: 8, offset: 91403},
+														pos: position{line: 2899, col: 8, offset: 91430},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2885, col: 12, offset: 91176},
+																pos: position{line: 2886, col: 12, offset: 91203},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2885, col: 13, offset: 91177},
+																	pos: position{line: 2886, col: 13, offset: 91204},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 13, offset: 91177},
+																			pos:        position{line: 2886, col: 13, offset: 91204},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 20, offset: 91184},
+																			pos:        position{line: 2886, col: 20, offset: 91211},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 29, offset: 91193},
+																			pos:        position{line: 2886, col: 29, offset: 91220},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4555,9 +4555,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91353},
+																pos: position{line: 2896, col: 8, offset: 91380},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91354,
+																	line: 2896, col: 9, offset: 91381,
 																},
 															},
 														},
@@ -4574,36 +4574,36 @@ var g = &grammar{
 											name: "Section",
 										},
 										&actionExpr{
-											pos: position{line: 819, col: 5, offset: 26338},
+											pos: position{line: 820, col: 5, offset: 26365},
 											run: (*parser).callonDocumentFragment75,
 											expr: &seqExpr{
-												pos: position{line: 819, col: 5, offset: 26338},
+												pos: position{line: 820, col: 5, offset: 26365},
 												exprs: []interface{}{
 													&actionExpr{
-														pos: position{line: 739, col: 5, offset: 23593},
+														pos: position{line: 740, col: 5, offset: 23620},
 														run: (*parser).callonDocumentFragment77,
 														expr: &seqExpr{
-															pos: position{line: 739, col: 5, offset: 23593},
+															pos: position{line: 740, col: 5, offset: 23620},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 739, col: 5, offset: 23593},
+																	pos:   position{line: 740, col: 5, offset: 23620},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 739, col: 16, offset: 23604},
+																		pos: position{line: 740, col: 16, offset: 23631},
 																		run: (*parser).callonDocumentFragment80,
 																		expr: &seqExpr{
-																			pos: position{line: 739, col: 16, offset: 23604},
+																			pos: position{line: 740, col: 16, offset: 23631},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 739, col: 16, offset: 23604},
+																					pos:        position{line: 740, col: 16, offset: 23631},
 																					val:        "////",
 																					ignoreCase: false,
 																					want:       "\"////\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 739, col: 23, offset: 23611},
+																					pos: position{line: 740, col: 23, offset: 23638},
 																					expr: &litMatcher{
-																						pos:        position{line: 739, col: 23, offset: 23611},
+																						pos:        position{line: 740, col: 23, offset: 23638},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
@@ -4614,12 +4614,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 741, col: 8, offset: 23695},
+																	pos: position{line: 742, col: 8, offset: 23722},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 91005},
+																		pos: position{line: 2877, col: 10, offset: 91032},
 																		run: (*parser).callonDocumentFragment86,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 91005},
+																			pos:        position{line: 2877, col: 10, offset: 91032},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -4628,28 +4628,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91403},
+																	pos: position{line: 2899, col: 8, offset: 91430},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91176},
+																			pos: position{line: 2886, col: 12, offset: 91203},
 																			run: (*parser).callonDocumentFragment89,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91177},
+																				pos: position{line: 2886, col: 13, offset: 91204},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91177},
+																						pos:        position{line: 2886, col: 13, offset: 91204},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91184},
+																						pos:        position{line: 2886, col: 20, offset: 91211},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91193},
+																						pos:        position{line: 2886, col: 29, offset: 91220},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -4658,9 +4658,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91353},
+																			pos: position{line: 2896, col: 8, offset: 91380},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91354,
+																				line: 2896, col: 9, offset: 91381,
 																			},
 																		},
 																	},
@@ -4669,46 +4669,46 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 820, col: 5, offset: 26369},
+														pos:   position{line: 821, col: 5, offset: 26396},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 830, col: 5, offset: 26655},
+															pos: position{line: 831, col: 5, offset: 26682},
 															expr: &actionExpr{
-																pos: position{line: 830, col: 6, offset: 26656},
+																pos: position{line: 831, col: 6, offset: 26683},
 																run: (*parser).callonDocumentFragment98,
 																expr: &seqExpr{
-																	pos: position{line: 830, col: 6, offset: 26656},
+																	pos: position{line: 831, col: 6, offset: 26683},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 830, col: 6, offset: 26656},
+																			pos: position{line: 831, col: 6, offset: 26683},
 																			expr: &choiceExpr{
-																				pos: position{line: 827, col: 29, offset: 26598},
+																				pos: position{line: 828, col: 29, offset: 26625},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 739, col: 5, offset: 23593},
+																						pos: position{line: 740, col: 5, offset: 23620},
 																						run: (*parser).callonDocumentFragment102,
 																						expr: &seqExpr{
-																							pos: position{line: 739, col: 5, offset: 23593},
+																							pos: position{line: 740, col: 5, offset: 23620},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 739, col: 5, offset: 23593},
+																									pos:   position{line: 740, col: 5, offset: 23620},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 739, col: 16, offset: 23604},
+																										pos: position{line: 740, col: 16, offset: 23631},
 																										run: (*parser).callonDocumentFragment105,
 																										expr: &seqExpr{
-																											pos: position{line: 739, col: 16, offset: 23604},
+																											pos: position{line: 740, col: 16, offset: 23631},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 739, col: 16, offset: 23604},
+																													pos:        position{line: 740, col: 16, offset: 23631},
 																													val:        "////",
 																													ignoreCase: false,
 																													want:       "\"////\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 739, col: 23, offset: 23611},
+																													pos: position{line: 740, col: 23, offset: 23638},
 																													expr: &litMatcher{
-																														pos:        position{line: 739, col: 23, offset: 23611},
+																														pos:        position{line: 740, col: 23, offset: 23638},
 																														val:        "/",
 																														ignoreCase: false,
 																														want:       "\"/\"",
@@ -4719,12 +4719,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 741, col: 8, offset: 23695},
+																									pos: position{line: 742, col: 8, offset: 23722},
 																									expr: &actionExpr{
-																										pos: position{line: 2876, col: 10, offset: 91005},
+																										pos: position{line: 2877, col: 10, offset: 91032},
 																										run: (*parser).callonDocumentFragment111,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2876, col: 10, offset: 91005},
+																											pos:        position{line: 2877, col: 10, offset: 91032},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -4733,28 +4733,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2898, col: 8, offset: 91403},
+																									pos: position{line: 2899, col: 8, offset: 91430},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2885, col: 12, offset: 91176},
+																											pos: position{line: 2886, col: 12, offset: 91203},
 																											run: (*parser).callonDocumentFragment114,
 																											expr: &choiceExpr{
-																												pos: position{line: 2885, col: 13, offset: 91177},
+																												pos: position{line: 2886, col: 13, offset: 91204},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 13, offset: 91177},
+																														pos:        position{line: 2886, col: 13, offset: 91204},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 20, offset: 91184},
+																														pos:        position{line: 2886, col: 20, offset: 91211},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 29, offset: 91193},
+																														pos:        position{line: 2886, col: 29, offset: 91220},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -4763,9 +4763,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2895, col: 8, offset: 91353},
+																											pos: position{line: 2896, col: 8, offset: 91380},
 																											expr: &anyMatcher{
-																												line: 2895, col: 9, offset: 91354,
+																												line: 2896, col: 9, offset: 91381,
 																											},
 																										},
 																									},
@@ -4774,39 +4774,39 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91353},
+																						pos: position{line: 2896, col: 8, offset: 91380},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91354,
+																							line: 2896, col: 9, offset: 91381,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 831, col: 5, offset: 26686},
+																			pos:   position{line: 832, col: 5, offset: 26713},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 810, col: 5, offset: 26102},
+																				pos: position{line: 811, col: 5, offset: 26129},
 																				run: (*parser).callonDocumentFragment124,
 																				expr: &seqExpr{
-																					pos: position{line: 810, col: 5, offset: 26102},
+																					pos: position{line: 811, col: 5, offset: 26129},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2893, col: 11, offset: 91339},
+																							pos: position{line: 2894, col: 11, offset: 91366},
 																							expr: &anyMatcher{
-																								line: 2893, col: 13, offset: 91341,
+																								line: 2894, col: 13, offset: 91368,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 811, col: 5, offset: 26177},
+																							pos:   position{line: 812, col: 5, offset: 26204},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2822, col: 13, offset: 89531},
+																								pos: position{line: 2823, col: 13, offset: 89558},
 																								run: (*parser).callonDocumentFragment129,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2822, col: 13, offset: 89531},
+																									pos: position{line: 2823, col: 13, offset: 89558},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2822, col: 13, offset: 89531},
+																										pos:        position{line: 2823, col: 13, offset: 89558},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4816,28 +4816,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91403},
+																							pos: position{line: 2899, col: 8, offset: 91430},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91176},
+																									pos: position{line: 2886, col: 12, offset: 91203},
 																									run: (*parser).callonDocumentFragment133,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91177},
+																										pos: position{line: 2886, col: 13, offset: 91204},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91177},
+																												pos:        position{line: 2886, col: 13, offset: 91204},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91184},
+																												pos:        position{line: 2886, col: 20, offset: 91211},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91193},
+																												pos:        position{line: 2886, col: 29, offset: 91220},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4846,9 +4846,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91353},
+																									pos: position{line: 2896, col: 8, offset: 91380},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91354,
+																										line: 2896, col: 9, offset: 91381,
 																									},
 																								},
 																							},
@@ -4863,35 +4863,35 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 821, col: 5, offset: 26403},
+														pos: position{line: 822, col: 5, offset: 26430},
 														expr: &choiceExpr{
-															pos: position{line: 827, col: 29, offset: 26598},
+															pos: position{line: 828, col: 29, offset: 26625},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 739, col: 5, offset: 23593},
+																	pos: position{line: 740, col: 5, offset: 23620},
 																	run: (*parser).callonDocumentFragment142,
 																	expr: &seqExpr{
-																		pos: position{line: 739, col: 5, offset: 23593},
+																		pos: position{line: 740, col: 5, offset: 23620},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 739, col: 5, offset: 23593},
+																				pos:   position{line: 740, col: 5, offset: 23620},
 																				label: "delimiter",
 																				expr: &actionExpr{
-																					pos: position{line: 739, col: 16, offset: 23604},
+																					pos: position{line: 740, col: 16, offset: 23631},
 																					run: (*parser).callonDocumentFragment145,
 																					expr: &seqExpr{
-																						pos: position{line: 739, col: 16, offset: 23604},
+																						pos: position{line: 740, col: 16, offset: 23631},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 739, col: 16, offset: 23604},
+																								pos:        position{line: 740, col: 16, offset: 23631},
 																								val:        "////",
 																								ignoreCase: false,
 																								want:       "\"////\"",
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 739, col: 23, offset: 23611},
+																								pos: position{line: 740, col: 23, offset: 23638},
 																								expr: &litMatcher{
-																									pos:        position{line: 739, col: 23, offset: 23611},
+																									pos:        position{line: 740, col: 23, offset: 23638},
 																									val:        "/",
 																									ignoreCase: false,
 																									want:       "\"/\"",
@@ -4902,12 +4902,12 @@ var g = &grammar{
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 741, col: 8, offset: 23695},
+																				pos: position{line: 742, col: 8, offset: 23722},
 																				expr: &actionExpr{
-																					pos: position{line: 2876, col: 10, offset: 91005},
+																					pos: position{line: 2877, col: 10, offset: 91032},
 																					run: (*parser).callonDocumentFragment151,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2876, col: 10, offset: 91005},
+																						pos:        position{line: 2877, col: 10, offset: 91032},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -4916,28 +4916,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2898, col: 8, offset: 91403},
+																				pos: position{line: 2899, col: 8, offset: 91430},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2885, col: 12, offset: 91176},
+																						pos: position{line: 2886, col: 12, offset: 91203},
 																						run: (*parser).callonDocumentFragment154,
 																						expr: &choiceExpr{
-																							pos: position{line: 2885, col: 13, offset: 91177},
+																							pos: position{line: 2886, col: 13, offset: 91204},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 13, offset: 91177},
+																									pos:        position{line: 2886, col: 13, offset: 91204},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 20, offset: 91184},
+																									pos:        position{line: 2886, col: 20, offset: 91211},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 29, offset: 91193},
+																									pos:        position{line: 2886, col: 29, offset: 91220},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -4946,9 +4946,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91353},
+																						pos: position{line: 2896, col: 8, offset: 91380},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91354,
+																							line: 2896, col: 9, offset: 91381,
 																						},
 																					},
 																				},
@@ -4957,9 +4957,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2895, col: 8, offset: 91353},
+																	pos: position{line: 2896, col: 8, offset: 91380},
 																	expr: &anyMatcher{
-																		line: 2895, col: 9, offset: 91354,
+																		line: 2896, col: 9, offset: 91381,
 																	},
 																},
 															},
@@ -4969,39 +4969,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 839, col: 5, offset: 26839},
+											pos: position{line: 840, col: 5, offset: 26866},
 											run: (*parser).callonDocumentFragment163,
 											expr: &seqExpr{
-												pos: position{line: 839, col: 5, offset: 26839},
+												pos: position{line: 840, col: 5, offset: 26866},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 839, col: 5, offset: 26839},
+														pos:   position{line: 840, col: 5, offset: 26866},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 746, col: 5, offset: 23841},
+															pos: position{line: 747, col: 5, offset: 23868},
 															run: (*parser).callonDocumentFragment166,
 															expr: &seqExpr{
-																pos: position{line: 746, col: 5, offset: 23841},
+																pos: position{line: 747, col: 5, offset: 23868},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 746, col: 5, offset: 23841},
+																		pos:   position{line: 747, col: 5, offset: 23868},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 746, col: 16, offset: 23852},
+																			pos: position{line: 747, col: 16, offset: 23879},
 																			run: (*parser).callonDocumentFragment169,
 																			expr: &seqExpr{
-																				pos: position{line: 746, col: 16, offset: 23852},
+																				pos: position{line: 747, col: 16, offset: 23879},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 746, col: 16, offset: 23852},
+																						pos:        position{line: 747, col: 16, offset: 23879},
 																						val:        "====",
 																						ignoreCase: false,
 																						want:       "\"====\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 746, col: 23, offset: 23859},
+																						pos: position{line: 747, col: 23, offset: 23886},
 																						expr: &litMatcher{
-																							pos:        position{line: 746, col: 23, offset: 23859},
+																							pos:        position{line: 747, col: 23, offset: 23886},
 																							val:        "=",
 																							ignoreCase: false,
 																							want:       "\"=\"",
@@ -5012,12 +5012,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 748, col: 8, offset: 23943},
+																		pos: position{line: 749, col: 8, offset: 23970},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 91005},
+																			pos: position{line: 2877, col: 10, offset: 91032},
 																			run: (*parser).callonDocumentFragment175,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 91005},
+																				pos:        position{line: 2877, col: 10, offset: 91032},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5026,28 +5026,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91403},
+																		pos: position{line: 2899, col: 8, offset: 91430},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91176},
+																				pos: position{line: 2886, col: 12, offset: 91203},
 																				run: (*parser).callonDocumentFragment178,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91177},
+																					pos: position{line: 2886, col: 13, offset: 91204},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91177},
+																							pos:        position{line: 2886, col: 13, offset: 91204},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91184},
+																							pos:        position{line: 2886, col: 20, offset: 91211},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91193},
+																							pos:        position{line: 2886, col: 29, offset: 91220},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5056,9 +5056,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91353},
+																				pos: position{line: 2896, col: 8, offset: 91380},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91354,
+																					line: 2896, col: 9, offset: 91381,
 																				},
 																			},
 																		},
@@ -5068,56 +5068,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 840, col: 5, offset: 26878},
+														pos: position{line: 841, col: 5, offset: 26905},
 														run: (*parser).callonDocumentFragment185,
 													},
 													&labeledExpr{
-														pos:   position{line: 843, col: 5, offset: 26970},
+														pos:   position{line: 844, col: 5, offset: 26997},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 858, col: 4, offset: 27367},
+															pos: position{line: 859, col: 4, offset: 27394},
 															expr: &actionExpr{
-																pos: position{line: 858, col: 5, offset: 27368},
+																pos: position{line: 859, col: 5, offset: 27395},
 																run: (*parser).callonDocumentFragment188,
 																expr: &seqExpr{
-																	pos: position{line: 858, col: 5, offset: 27368},
+																	pos: position{line: 859, col: 5, offset: 27395},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 858, col: 5, offset: 27368},
+																			pos: position{line: 859, col: 5, offset: 27395},
 																			expr: &choiceExpr{
-																				pos: position{line: 851, col: 5, offset: 27210},
+																				pos: position{line: 852, col: 5, offset: 27237},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 851, col: 5, offset: 27210},
+																						pos: position{line: 852, col: 5, offset: 27237},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 851, col: 5, offset: 27210},
+																								pos:   position{line: 852, col: 5, offset: 27237},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 746, col: 5, offset: 23841},
+																									pos: position{line: 747, col: 5, offset: 23868},
 																									run: (*parser).callonDocumentFragment194,
 																									expr: &seqExpr{
-																										pos: position{line: 746, col: 5, offset: 23841},
+																										pos: position{line: 747, col: 5, offset: 23868},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 746, col: 5, offset: 23841},
+																												pos:   position{line: 747, col: 5, offset: 23868},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 746, col: 16, offset: 23852},
+																													pos: position{line: 747, col: 16, offset: 23879},
 																													run: (*parser).callonDocumentFragment197,
 																													expr: &seqExpr{
-																														pos: position{line: 746, col: 16, offset: 23852},
+																														pos: position{line: 747, col: 16, offset: 23879},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 746, col: 16, offset: 23852},
+																																pos:        position{line: 747, col: 16, offset: 23879},
 																																val:        "====",
 																																ignoreCase: false,
 																																want:       "\"====\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 746, col: 23, offset: 23859},
+																																pos: position{line: 747, col: 23, offset: 23886},
 																																expr: &litMatcher{
-																																	pos:        position{line: 746, col: 23, offset: 23859},
+																																	pos:        position{line: 747, col: 23, offset: 23886},
 																																	val:        "=",
 																																	ignoreCase: false,
 																																	want:       "\"=\"",
@@ -5128,12 +5128,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 748, col: 8, offset: 23943},
+																												pos: position{line: 749, col: 8, offset: 23970},
 																												expr: &actionExpr{
-																													pos: position{line: 2876, col: 10, offset: 91005},
+																													pos: position{line: 2877, col: 10, offset: 91032},
 																													run: (*parser).callonDocumentFragment203,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2876, col: 10, offset: 91005},
+																														pos:        position{line: 2877, col: 10, offset: 91032},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5142,28 +5142,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2898, col: 8, offset: 91403},
+																												pos: position{line: 2899, col: 8, offset: 91430},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2885, col: 12, offset: 91176},
+																														pos: position{line: 2886, col: 12, offset: 91203},
 																														run: (*parser).callonDocumentFragment206,
 																														expr: &choiceExpr{
-																															pos: position{line: 2885, col: 13, offset: 91177},
+																															pos: position{line: 2886, col: 13, offset: 91204},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 13, offset: 91177},
+																																	pos:        position{line: 2886, col: 13, offset: 91204},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 20, offset: 91184},
+																																	pos:        position{line: 2886, col: 20, offset: 91211},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 29, offset: 91193},
+																																	pos:        position{line: 2886, col: 29, offset: 91220},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5172,9 +5172,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2895, col: 8, offset: 91353},
+																														pos: position{line: 2896, col: 8, offset: 91380},
 																														expr: &anyMatcher{
-																															line: 2895, col: 9, offset: 91354,
+																															line: 2896, col: 9, offset: 91381,
 																														},
 																													},
 																												},
@@ -5184,45 +5184,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 852, col: 5, offset: 27241},
+																								pos: position{line: 853, col: 5, offset: 27268},
 																								run: (*parser).callonDocumentFragment213,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91353},
+																						pos: position{line: 2896, col: 8, offset: 91380},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91354,
+																							line: 2896, col: 9, offset: 91381,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 859, col: 5, offset: 27398},
+																			pos:   position{line: 860, col: 5, offset: 27425},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 810, col: 5, offset: 26102},
+																				pos: position{line: 811, col: 5, offset: 26129},
 																				run: (*parser).callonDocumentFragment217,
 																				expr: &seqExpr{
-																					pos: position{line: 810, col: 5, offset: 26102},
+																					pos: position{line: 811, col: 5, offset: 26129},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2893, col: 11, offset: 91339},
+																							pos: position{line: 2894, col: 11, offset: 91366},
 																							expr: &anyMatcher{
-																								line: 2893, col: 13, offset: 91341,
+																								line: 2894, col: 13, offset: 91368,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 811, col: 5, offset: 26177},
+																							pos:   position{line: 812, col: 5, offset: 26204},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2822, col: 13, offset: 89531},
+																								pos: position{line: 2823, col: 13, offset: 89558},
 																								run: (*parser).callonDocumentFragment222,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2822, col: 13, offset: 89531},
+																									pos: position{line: 2823, col: 13, offset: 89558},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2822, col: 13, offset: 89531},
+																										pos:        position{line: 2823, col: 13, offset: 89558},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5232,28 +5232,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91403},
+																							pos: position{line: 2899, col: 8, offset: 91430},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91176},
+																									pos: position{line: 2886, col: 12, offset: 91203},
 																									run: (*parser).callonDocumentFragment226,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91177},
+																										pos: position{line: 2886, col: 13, offset: 91204},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91177},
+																												pos:        position{line: 2886, col: 13, offset: 91204},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91184},
+																												pos:        position{line: 2886, col: 20, offset: 91211},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91193},
+																												pos:        position{line: 2886, col: 29, offset: 91220},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5262,9 +5262,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91353},
+																									pos: position{line: 2896, col: 8, offset: 91380},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91354,
+																										line: 2896, col: 9, offset: 91381,
 																									},
 																								},
 																							},
@@ -5279,44 +5279,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 844, col: 5, offset: 27004},
+														pos:   position{line: 845, col: 5, offset: 27031},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 844, col: 9, offset: 27008},
+															pos: position{line: 845, col: 9, offset: 27035},
 															expr: &choiceExpr{
-																pos: position{line: 851, col: 5, offset: 27210},
+																pos: position{line: 852, col: 5, offset: 27237},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 851, col: 5, offset: 27210},
+																		pos: position{line: 852, col: 5, offset: 27237},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 851, col: 5, offset: 27210},
+																				pos:   position{line: 852, col: 5, offset: 27237},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 746, col: 5, offset: 23841},
+																					pos: position{line: 747, col: 5, offset: 23868},
 																					run: (*parser).callonDocumentFragment238,
 																					expr: &seqExpr{
-																						pos: position{line: 746, col: 5, offset: 23841},
+																						pos: position{line: 747, col: 5, offset: 23868},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 746, col: 5, offset: 23841},
+																								pos:   position{line: 747, col: 5, offset: 23868},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 746, col: 16, offset: 23852},
+																									pos: position{line: 747, col: 16, offset: 23879},
 																									run: (*parser).callonDocumentFragment241,
 																									expr: &seqExpr{
-																										pos: position{line: 746, col: 16, offset: 23852},
+																										pos: position{line: 747, col: 16, offset: 23879},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 746, col: 16, offset: 23852},
+																												pos:        position{line: 747, col: 16, offset: 23879},
 																												val:        "====",
 																												ignoreCase: false,
 																												want:       "\"====\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 746, col: 23, offset: 23859},
+																												pos: position{line: 747, col: 23, offset: 23886},
 																												expr: &litMatcher{
-																													pos:        position{line: 746, col: 23, offset: 23859},
+																													pos:        position{line: 747, col: 23, offset: 23886},
 																													val:        "=",
 																													ignoreCase: false,
 																													want:       "\"=\"",
@@ -5327,12 +5327,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 748, col: 8, offset: 23943},
+																								pos: position{line: 749, col: 8, offset: 23970},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 91005},
+																									pos: position{line: 2877, col: 10, offset: 91032},
 																									run: (*parser).callonDocumentFragment247,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 91005},
+																										pos:        position{line: 2877, col: 10, offset: 91032},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5341,28 +5341,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2898, col: 8, offset: 91403},
+																								pos: position{line: 2899, col: 8, offset: 91430},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2885, col: 12, offset: 91176},
+																										pos: position{line: 2886, col: 12, offset: 91203},
 																										run: (*parser).callonDocumentFragment250,
 																										expr: &choiceExpr{
-																											pos: position{line: 2885, col: 13, offset: 91177},
+																											pos: position{line: 2886, col: 13, offset: 91204},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 13, offset: 91177},
+																													pos:        position{line: 2886, col: 13, offset: 91204},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 20, offset: 91184},
+																													pos:        position{line: 2886, col: 20, offset: 91211},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 29, offset: 91193},
+																													pos:        position{line: 2886, col: 29, offset: 91220},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5371,9 +5371,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2895, col: 8, offset: 91353},
+																										pos: position{line: 2896, col: 8, offset: 91380},
 																										expr: &anyMatcher{
-																											line: 2895, col: 9, offset: 91354,
+																											line: 2896, col: 9, offset: 91381,
 																										},
 																									},
 																								},
@@ -5383,15 +5383,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 852, col: 5, offset: 27241},
+																				pos: position{line: 853, col: 5, offset: 27268},
 																				run: (*parser).callonDocumentFragment257,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91353},
+																		pos: position{line: 2896, col: 8, offset: 91380},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91354,
+																			line: 2896, col: 9, offset: 91381,
 																		},
 																	},
 																},
@@ -5402,36 +5402,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 951, col: 5, offset: 29690},
+											pos: position{line: 952, col: 5, offset: 29717},
 											run: (*parser).callonDocumentFragment260,
 											expr: &seqExpr{
-												pos: position{line: 951, col: 5, offset: 29690},
+												pos: position{line: 952, col: 5, offset: 29717},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 951, col: 5, offset: 29690},
+														pos:   position{line: 952, col: 5, offset: 29717},
 														label: "delimiter",
 														expr: &actionExpr{
-															pos: position{line: 759, col: 26, offset: 24329},
+															pos: position{line: 760, col: 26, offset: 24356},
 															run: (*parser).callonDocumentFragment263,
 															expr: &seqExpr{
-																pos: position{line: 759, col: 26, offset: 24329},
+																pos: position{line: 760, col: 26, offset: 24356},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 759, col: 26, offset: 24329},
+																		pos:        position{line: 760, col: 26, offset: 24356},
 																		val:        "```",
 																		ignoreCase: false,
 																		want:       "\"```\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 759, col: 32, offset: 24335},
+																		pos:   position{line: 760, col: 32, offset: 24362},
 																		label: "language",
 																		expr: &actionExpr{
-																			pos: position{line: 763, col: 13, offset: 24465},
+																			pos: position{line: 764, col: 13, offset: 24492},
 																			run: (*parser).callonDocumentFragment267,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 763, col: 14, offset: 24466},
+																				pos: position{line: 764, col: 14, offset: 24493},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 763, col: 14, offset: 24466},
+																					pos:        position{line: 764, col: 14, offset: 24493},
 																					val:        "[^\\r\\n`\\t ]",
 																					chars:      []rune{'\r', '\n', '`', '\t', ' '},
 																					ignoreCase: false,
@@ -5441,12 +5441,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 759, col: 52, offset: 24355},
+																		pos: position{line: 760, col: 52, offset: 24382},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 91005},
+																			pos: position{line: 2877, col: 10, offset: 91032},
 																			run: (*parser).callonDocumentFragment271,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 91005},
+																				pos:        position{line: 2877, col: 10, offset: 91032},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5455,28 +5455,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91403},
+																		pos: position{line: 2899, col: 8, offset: 91430},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91176},
+																				pos: position{line: 2886, col: 12, offset: 91203},
 																				run: (*parser).callonDocumentFragment274,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91177},
+																					pos: position{line: 2886, col: 13, offset: 91204},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91177},
+																							pos:        position{line: 2886, col: 13, offset: 91204},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91184},
+																							pos:        position{line: 2886, col: 20, offset: 91211},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91193},
+																							pos:        position{line: 2886, col: 29, offset: 91220},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5485,9 +5485,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91353},
+																				pos: position{line: 2896, col: 8, offset: 91380},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91354,
+																					line: 2896, col: 9, offset: 91381,
 																				},
 																			},
 																		},
@@ -5497,34 +5497,34 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 952, col: 5, offset: 29736},
+														pos:   position{line: 953, col: 5, offset: 29763},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 965, col: 5, offset: 30209},
+															pos: position{line: 966, col: 5, offset: 30236},
 															expr: &actionExpr{
-																pos: position{line: 965, col: 6, offset: 30210},
+																pos: position{line: 966, col: 6, offset: 30237},
 																run: (*parser).callonDocumentFragment283,
 																expr: &seqExpr{
-																	pos: position{line: 965, col: 6, offset: 30210},
+																	pos: position{line: 966, col: 6, offset: 30237},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 965, col: 6, offset: 30210},
+																			pos: position{line: 966, col: 6, offset: 30237},
 																			expr: &seqExpr{
-																				pos: position{line: 962, col: 34, offset: 30157},
+																				pos: position{line: 963, col: 34, offset: 30184},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 962, col: 34, offset: 30157},
+																						pos:        position{line: 963, col: 34, offset: 30184},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 962, col: 40, offset: 30163},
+																						pos: position{line: 963, col: 40, offset: 30190},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 91005},
+																							pos: position{line: 2877, col: 10, offset: 91032},
 																							run: (*parser).callonDocumentFragment289,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 91005},
+																								pos:        position{line: 2877, col: 10, offset: 91032},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5533,28 +5533,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91403},
+																						pos: position{line: 2899, col: 8, offset: 91430},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91176},
+																								pos: position{line: 2886, col: 12, offset: 91203},
 																								run: (*parser).callonDocumentFragment292,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91177},
+																									pos: position{line: 2886, col: 13, offset: 91204},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91177},
+																											pos:        position{line: 2886, col: 13, offset: 91204},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91184},
+																											pos:        position{line: 2886, col: 20, offset: 91211},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91193},
+																											pos:        position{line: 2886, col: 29, offset: 91220},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5563,9 +5563,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91353},
+																								pos: position{line: 2896, col: 8, offset: 91380},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91354,
+																									line: 2896, col: 9, offset: 91381,
 																								},
 																							},
 																						},
@@ -5574,30 +5574,30 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 966, col: 5, offset: 30245},
+																			pos:   position{line: 967, col: 5, offset: 30272},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 810, col: 5, offset: 26102},
+																				pos: position{line: 811, col: 5, offset: 26129},
 																				run: (*parser).callonDocumentFragment300,
 																				expr: &seqExpr{
-																					pos: position{line: 810, col: 5, offset: 26102},
+																					pos: position{line: 811, col: 5, offset: 26129},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2893, col: 11, offset: 91339},
+																							pos: position{line: 2894, col: 11, offset: 91366},
 																							expr: &anyMatcher{
-																								line: 2893, col: 13, offset: 91341,
+																								line: 2894, col: 13, offset: 91368,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 811, col: 5, offset: 26177},
+																							pos:   position{line: 812, col: 5, offset: 26204},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2822, col: 13, offset: 89531},
+																								pos: position{line: 2823, col: 13, offset: 89558},
 																								run: (*parser).callonDocumentFragment305,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2822, col: 13, offset: 89531},
+																									pos: position{line: 2823, col: 13, offset: 89558},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2822, col: 13, offset: 89531},
+																										pos:        position{line: 2823, col: 13, offset: 89558},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5607,28 +5607,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91403},
+																							pos: position{line: 2899, col: 8, offset: 91430},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91176},
+																									pos: position{line: 2886, col: 12, offset: 91203},
 																									run: (*parser).callonDocumentFragment309,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91177},
+																										pos: position{line: 2886, col: 13, offset: 91204},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91177},
+																												pos:        position{line: 2886, col: 13, offset: 91204},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91184},
+																												pos:        position{line: 2886, col: 20, offset: 91211},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91193},
+																												pos:        position{line: 2886, col: 29, offset: 91220},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5637,9 +5637,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91353},
+																									pos: position{line: 2896, col: 8, offset: 91380},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91354,
+																										line: 2896, col: 9, offset: 91381,
 																									},
 																								},
 																							},
@@ -5654,23 +5654,23 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 953, col: 5, offset: 29775},
+														pos: position{line: 954, col: 5, offset: 29802},
 														expr: &seqExpr{
-															pos: position{line: 962, col: 34, offset: 30157},
+															pos: position{line: 963, col: 34, offset: 30184},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 962, col: 34, offset: 30157},
+																	pos:        position{line: 963, col: 34, offset: 30184},
 																	val:        "```",
 																	ignoreCase: false,
 																	want:       "\"```\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 962, col: 40, offset: 30163},
+																	pos: position{line: 963, col: 40, offset: 30190},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 91005},
+																		pos: position{line: 2877, col: 10, offset: 91032},
 																		run: (*parser).callonDocumentFragment320,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 91005},
+																			pos:        position{line: 2877, col: 10, offset: 91032},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5679,28 +5679,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91403},
+																	pos: position{line: 2899, col: 8, offset: 91430},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91176},
+																			pos: position{line: 2886, col: 12, offset: 91203},
 																			run: (*parser).callonDocumentFragment323,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91177},
+																				pos: position{line: 2886, col: 13, offset: 91204},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91177},
+																						pos:        position{line: 2886, col: 13, offset: 91204},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91184},
+																						pos:        position{line: 2886, col: 20, offset: 91211},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91193},
+																						pos:        position{line: 2886, col: 29, offset: 91220},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5709,9 +5709,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91353},
+																			pos: position{line: 2896, col: 8, offset: 91380},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91354,
+																				line: 2896, col: 9, offset: 91381,
 																			},
 																		},
 																	},
@@ -5723,39 +5723,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 867, col: 5, offset: 27551},
+											pos: position{line: 868, col: 5, offset: 27578},
 											run: (*parser).callonDocumentFragment330,
 											expr: &seqExpr{
-												pos: position{line: 867, col: 5, offset: 27551},
+												pos: position{line: 868, col: 5, offset: 27578},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 867, col: 5, offset: 27551},
+														pos:   position{line: 868, col: 5, offset: 27578},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 753, col: 5, offset: 24088},
+															pos: position{line: 754, col: 5, offset: 24115},
 															run: (*parser).callonDocumentFragment333,
 															expr: &seqExpr{
-																pos: position{line: 753, col: 5, offset: 24088},
+																pos: position{line: 754, col: 5, offset: 24115},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 753, col: 5, offset: 24088},
+																		pos:   position{line: 754, col: 5, offset: 24115},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 753, col: 16, offset: 24099},
+																			pos: position{line: 754, col: 16, offset: 24126},
 																			run: (*parser).callonDocumentFragment336,
 																			expr: &seqExpr{
-																				pos: position{line: 753, col: 16, offset: 24099},
+																				pos: position{line: 754, col: 16, offset: 24126},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 753, col: 16, offset: 24099},
+																						pos:        position{line: 754, col: 16, offset: 24126},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 753, col: 22, offset: 24105},
+																						pos: position{line: 754, col: 22, offset: 24132},
 																						expr: &litMatcher{
-																							pos:        position{line: 753, col: 22, offset: 24105},
+																							pos:        position{line: 754, col: 22, offset: 24132},
 																							val:        "`",
 																							ignoreCase: false,
 																							want:       "\"`\"",
@@ -5766,12 +5766,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 755, col: 8, offset: 24189},
+																		pos: position{line: 756, col: 8, offset: 24216},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 91005},
+																			pos: position{line: 2877, col: 10, offset: 91032},
 																			run: (*parser).callonDocumentFragment342,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 91005},
+																				pos:        position{line: 2877, col: 10, offset: 91032},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5780,28 +5780,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91403},
+																		pos: position{line: 2899, col: 8, offset: 91430},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91176},
+																				pos: position{line: 2886, col: 12, offset: 91203},
 																				run: (*parser).callonDocumentFragment345,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91177},
+																					pos: position{line: 2886, col: 13, offset: 91204},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91177},
+																							pos:        position{line: 2886, col: 13, offset: 91204},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91184},
+																							pos:        position{line: 2886, col: 20, offset: 91211},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91193},
+																							pos:        position{line: 2886, col: 29, offset: 91220},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5810,9 +5810,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91353},
+																				pos: position{line: 2896, col: 8, offset: 91380},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91354,
+																					line: 2896, col: 9, offset: 91381,
 																				},
 																			},
 																		},
@@ -5822,56 +5822,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 868, col: 5, offset: 27589},
+														pos: position{line: 869, col: 5, offset: 27616},
 														run: (*parser).callonDocumentFragment352,
 													},
 													&labeledExpr{
-														pos:   position{line: 871, col: 5, offset: 27681},
+														pos:   position{line: 872, col: 5, offset: 27708},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 886, col: 5, offset: 28071},
+															pos: position{line: 887, col: 5, offset: 28098},
 															expr: &actionExpr{
-																pos: position{line: 886, col: 6, offset: 28072},
+																pos: position{line: 887, col: 6, offset: 28099},
 																run: (*parser).callonDocumentFragment355,
 																expr: &seqExpr{
-																	pos: position{line: 886, col: 6, offset: 28072},
+																	pos: position{line: 887, col: 6, offset: 28099},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 886, col: 6, offset: 28072},
+																			pos: position{line: 887, col: 6, offset: 28099},
 																			expr: &choiceExpr{
-																				pos: position{line: 879, col: 5, offset: 27915},
+																				pos: position{line: 880, col: 5, offset: 27942},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 879, col: 5, offset: 27915},
+																						pos: position{line: 880, col: 5, offset: 27942},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 879, col: 5, offset: 27915},
+																								pos:   position{line: 880, col: 5, offset: 27942},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 753, col: 5, offset: 24088},
+																									pos: position{line: 754, col: 5, offset: 24115},
 																									run: (*parser).callonDocumentFragment361,
 																									expr: &seqExpr{
-																										pos: position{line: 753, col: 5, offset: 24088},
+																										pos: position{line: 754, col: 5, offset: 24115},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 753, col: 5, offset: 24088},
+																												pos:   position{line: 754, col: 5, offset: 24115},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 753, col: 16, offset: 24099},
+																													pos: position{line: 754, col: 16, offset: 24126},
 																													run: (*parser).callonDocumentFragment364,
 																													expr: &seqExpr{
-																														pos: position{line: 753, col: 16, offset: 24099},
+																														pos: position{line: 754, col: 16, offset: 24126},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 753, col: 16, offset: 24099},
+																																pos:        position{line: 754, col: 16, offset: 24126},
 																																val:        "```",
 																																ignoreCase: false,
 																																want:       "\"```\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 753, col: 22, offset: 24105},
+																																pos: position{line: 754, col: 22, offset: 24132},
 																																expr: &litMatcher{
-																																	pos:        position{line: 753, col: 22, offset: 24105},
+																																	pos:        position{line: 754, col: 22, offset: 24132},
 																																	val:        "`",
 																																	ignoreCase: false,
 																																	want:       "\"`\"",
@@ -5882,12 +5882,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 755, col: 8, offset: 24189},
+																												pos: position{line: 756, col: 8, offset: 24216},
 																												expr: &actionExpr{
-																													pos: position{line: 2876, col: 10, offset: 91005},
+																													pos: position{line: 2877, col: 10, offset: 91032},
 																													run: (*parser).callonDocumentFragment370,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2876, col: 10, offset: 91005},
+																														pos:        position{line: 2877, col: 10, offset: 91032},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5896,28 +5896,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2898, col: 8, offset: 91403},
+																												pos: position{line: 2899, col: 8, offset: 91430},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2885, col: 12, offset: 91176},
+																														pos: position{line: 2886, col: 12, offset: 91203},
 																														run: (*parser).callonDocumentFragment373,
 																														expr: &choiceExpr{
-																															pos: position{line: 2885, col: 13, offset: 91177},
+																															pos: position{line: 2886, col: 13, offset: 91204},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 13, offset: 91177},
+																																	pos:        position{line: 2886, col: 13, offset: 91204},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 20, offset: 91184},
+																																	pos:        position{line: 2886, col: 20, offset: 91211},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 29, offset: 91193},
+																																	pos:        position{line: 2886, col: 29, offset: 91220},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5926,9 +5926,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2895, col: 8, offset: 91353},
+																														pos: position{line: 2896, col: 8, offset: 91380},
 																														expr: &anyMatcher{
-																															line: 2895, col: 9, offset: 91354,
+																															line: 2896, col: 9, offset: 91381,
 																														},
 																													},
 																												},
@@ -5938,45 +5938,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 880, col: 5, offset: 27945},
+																								pos: position{line: 881, col: 5, offset: 27972},
 																								run: (*parser).callonDocumentFragment380,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91353},
+																						pos: position{line: 2896, col: 8, offset: 91380},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91354,
+																							line: 2896, col: 9, offset: 91381,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 887, col: 5, offset: 28101},
+																			pos:   position{line: 888, col: 5, offset: 28128},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 810, col: 5, offset: 26102},
+																				pos: position{line: 811, col: 5, offset: 26129},
 																				run: (*parser).callonDocumentFragment384,
 																				expr: &seqExpr{
-																					pos: position{line: 810, col: 5, offset: 26102},
+																					pos: position{line: 811, col: 5, offset: 26129},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2893, col: 11, offset: 91339},
+																							pos: position{line: 2894, col: 11, offset: 91366},
 																							expr: &anyMatcher{
-																								line: 2893, col: 13, offset: 91341,
+																								line: 2894, col: 13, offset: 91368,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 811, col: 5, offset: 26177},
+																							pos:   position{line: 812, col: 5, offset: 26204},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2822, col: 13, offset: 89531},
+																								pos: position{line: 2823, col: 13, offset: 89558},
 																								run: (*parser).callonDocumentFragment389,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2822, col: 13, offset: 89531},
+																									pos: position{line: 2823, col: 13, offset: 89558},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2822, col: 13, offset: 89531},
+																										pos:        position{line: 2823, col: 13, offset: 89558},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5986,28 +5986,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91403},
+																							pos: position{line: 2899, col: 8, offset: 91430},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91176},
+																									pos: position{line: 2886, col: 12, offset: 91203},
 																									run: (*parser).callonDocumentFragment393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91177},
+																										pos: position{line: 2886, col: 13, offset: 91204},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91177},
+																												pos:        position{line: 2886, col: 13, offset: 91204},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91184},
+																												pos:        position{line: 2886, col: 20, offset: 91211},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91193},
+																												pos:        position{line: 2886, col: 29, offset: 91220},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6016,9 +6016,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91353},
+																									pos: position{line: 2896, col: 8, offset: 91380},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91354,
+																										line: 2896, col: 9, offset: 91381,
 																									},
 																								},
 																							},
@@ -6033,44 +6033,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 872, col: 5, offset: 27714},
+														pos:   position{line: 873, col: 5, offset: 27741},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 872, col: 9, offset: 27718},
+															pos: position{line: 873, col: 9, offset: 27745},
 															expr: &choiceExpr{
-																pos: position{line: 879, col: 5, offset: 27915},
+																pos: position{line: 880, col: 5, offset: 27942},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 879, col: 5, offset: 27915},
+																		pos: position{line: 880, col: 5, offset: 27942},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 879, col: 5, offset: 27915},
+																				pos:   position{line: 880, col: 5, offset: 27942},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 753, col: 5, offset: 24088},
+																					pos: position{line: 754, col: 5, offset: 24115},
 																					run: (*parser).callonDocumentFragment405,
 																					expr: &seqExpr{
-																						pos: position{line: 753, col: 5, offset: 24088},
+																						pos: position{line: 754, col: 5, offset: 24115},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 753, col: 5, offset: 24088},
+																								pos:   position{line: 754, col: 5, offset: 24115},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 753, col: 16, offset: 24099},
+																									pos: position{line: 754, col: 16, offset: 24126},
 																									run: (*parser).callonDocumentFragment408,
 																									expr: &seqExpr{
-																										pos: position{line: 753, col: 16, offset: 24099},
+																										pos: position{line: 754, col: 16, offset: 24126},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 753, col: 16, offset: 24099},
+																												pos:        position{line: 754, col: 16, offset: 24126},
 																												val:        "```",
 																												ignoreCase: false,
 																												want:       "\"```\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 753, col: 22, offset: 24105},
+																												pos: position{line: 754, col: 22, offset: 24132},
 																												expr: &litMatcher{
-																													pos:        position{line: 753, col: 22, offset: 24105},
+																													pos:        position{line: 754, col: 22, offset: 24132},
 																													val:        "`",
 																													ignoreCase: false,
 																													want:       "\"`\"",
@@ -6081,12 +6081,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 755, col: 8, offset: 24189},
+																								pos: position{line: 756, col: 8, offset: 24216},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 91005},
+																									pos: position{line: 2877, col: 10, offset: 91032},
 																									run: (*parser).callonDocumentFragment414,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 91005},
+																										pos:        position{line: 2877, col: 10, offset: 91032},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6095,28 +6095,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2898, col: 8, offset: 91403},
+																								pos: position{line: 2899, col: 8, offset: 91430},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2885, col: 12, offset: 91176},
+																										pos: position{line: 2886, col: 12, offset: 91203},
 																										run: (*parser).callonDocumentFragment417,
 																										expr: &choiceExpr{
-																											pos: position{line: 2885, col: 13, offset: 91177},
+																											pos: position{line: 2886, col: 13, offset: 91204},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 13, offset: 91177},
+																													pos:        position{line: 2886, col: 13, offset: 91204},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 20, offset: 91184},
+																													pos:        position{line: 2886, col: 20, offset: 91211},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 29, offset: 91193},
+																													pos:        position{line: 2886, col: 29, offset: 91220},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6125,9 +6125,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2895, col: 8, offset: 91353},
+																										pos: position{line: 2896, col: 8, offset: 91380},
 																										expr: &anyMatcher{
-																											line: 2895, col: 9, offset: 91354,
+																											line: 2896, col: 9, offset: 91381,
 																										},
 																									},
 																								},
@@ -6137,15 +6137,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 880, col: 5, offset: 27945},
+																				pos: position{line: 881, col: 5, offset: 27972},
 																				run: (*parser).callonDocumentFragment424,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91353},
+																		pos: position{line: 2896, col: 8, offset: 91380},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91354,
+																			line: 2896, col: 9, offset: 91381,
 																		},
 																	},
 																},
@@ -6156,39 +6156,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 895, col: 5, offset: 28256},
+											pos: position{line: 896, col: 5, offset: 28283},
 											run: (*parser).callonDocumentFragment427,
 											expr: &seqExpr{
-												pos: position{line: 895, col: 5, offset: 28256},
+												pos: position{line: 896, col: 5, offset: 28283},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 895, col: 5, offset: 28256},
+														pos:   position{line: 896, col: 5, offset: 28283},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 768, col: 5, offset: 24630},
+															pos: position{line: 769, col: 5, offset: 24657},
 															run: (*parser).callonDocumentFragment430,
 															expr: &seqExpr{
-																pos: position{line: 768, col: 5, offset: 24630},
+																pos: position{line: 769, col: 5, offset: 24657},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 768, col: 5, offset: 24630},
+																		pos:   position{line: 769, col: 5, offset: 24657},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 768, col: 16, offset: 24641},
+																			pos: position{line: 769, col: 16, offset: 24668},
 																			run: (*parser).callonDocumentFragment433,
 																			expr: &seqExpr{
-																				pos: position{line: 768, col: 16, offset: 24641},
+																				pos: position{line: 769, col: 16, offset: 24668},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 768, col: 16, offset: 24641},
+																						pos:        position{line: 769, col: 16, offset: 24668},
 																						val:        "----",
 																						ignoreCase: false,
 																						want:       "\"----\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 768, col: 23, offset: 24648},
+																						pos: position{line: 769, col: 23, offset: 24675},
 																						expr: &litMatcher{
-																							pos:        position{line: 768, col: 23, offset: 24648},
+																							pos:        position{line: 769, col: 23, offset: 24675},
 																							val:        "-",
 																							ignoreCase: false,
 																							want:       "\"-\"",
@@ -6199,12 +6199,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 770, col: 8, offset: 24732},
+																		pos: position{line: 771, col: 8, offset: 24759},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 91005},
+																			pos: position{line: 2877, col: 10, offset: 91032},
 																			run: (*parser).callonDocumentFragment439,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 91005},
+																				pos:        position{line: 2877, col: 10, offset: 91032},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6213,28 +6213,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91403},
+																		pos: position{line: 2899, col: 8, offset: 91430},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91176},
+																				pos: position{line: 2886, col: 12, offset: 91203},
 																				run: (*parser).callonDocumentFragment442,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91177},
+																					pos: position{line: 2886, col: 13, offset: 91204},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91177},
+																							pos:        position{line: 2886, col: 13, offset: 91204},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91184},
+																							pos:        position{line: 2886, col: 20, offset: 91211},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91193},
+																							pos:        position{line: 2886, col: 29, offset: 91220},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6243,9 +6243,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91353},
+																				pos: position{line: 2896, col: 8, offset: 91380},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91354,
+																					line: 2896, col: 9, offset: 91381,
 																				},
 																			},
 																		},
@@ -6255,56 +6255,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 896, col: 5, offset: 28295},
+														pos: position{line: 897, col: 5, offset: 28322},
 														run: (*parser).callonDocumentFragment449,
 													},
 													&labeledExpr{
-														pos:   position{line: 899, col: 5, offset: 28387},
+														pos:   position{line: 900, col: 5, offset: 28414},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 914, col: 5, offset: 28785},
+															pos: position{line: 915, col: 5, offset: 28812},
 															expr: &actionExpr{
-																pos: position{line: 914, col: 6, offset: 28786},
+																pos: position{line: 915, col: 6, offset: 28813},
 																run: (*parser).callonDocumentFragment452,
 																expr: &seqExpr{
-																	pos: position{line: 914, col: 6, offset: 28786},
+																	pos: position{line: 915, col: 6, offset: 28813},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 914, col: 6, offset: 28786},
+																			pos: position{line: 915, col: 6, offset: 28813},
 																			expr: &choiceExpr{
-																				pos: position{line: 907, col: 5, offset: 28627},
+																				pos: position{line: 908, col: 5, offset: 28654},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 907, col: 5, offset: 28627},
+																						pos: position{line: 908, col: 5, offset: 28654},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 907, col: 5, offset: 28627},
+																								pos:   position{line: 908, col: 5, offset: 28654},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 768, col: 5, offset: 24630},
+																									pos: position{line: 769, col: 5, offset: 24657},
 																									run: (*parser).callonDocumentFragment458,
 																									expr: &seqExpr{
-																										pos: position{line: 768, col: 5, offset: 24630},
+																										pos: position{line: 769, col: 5, offset: 24657},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 768, col: 5, offset: 24630},
+																												pos:   position{line: 769, col: 5, offset: 24657},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 768, col: 16, offset: 24641},
+																													pos: position{line: 769, col: 16, offset: 24668},
 																													run: (*parser).callonDocumentFragment461,
 																													expr: &seqExpr{
-																														pos: position{line: 768, col: 16, offset: 24641},
+																														pos: position{line: 769, col: 16, offset: 24668},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 768, col: 16, offset: 24641},
+																																pos:        position{line: 769, col: 16, offset: 24668},
 																																val:        "----",
 																																ignoreCase: false,
 																																want:       "\"----\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 768, col: 23, offset: 24648},
+																																pos: position{line: 769, col: 23, offset: 24675},
 																																expr: &litMatcher{
-																																	pos:        position{line: 768, col: 23, offset: 24648},
+																																	pos:        position{line: 769, col: 23, offset: 24675},
 																																	val:        "-",
 																																	ignoreCase: false,
 																																	want:       "\"-\"",
@@ -6315,12 +6315,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 770, col: 8, offset: 24732},
+																												pos: position{line: 771, col: 8, offset: 24759},
 																												expr: &actionExpr{
-																													pos: position{line: 2876, col: 10, offset: 91005},
+																													pos: position{line: 2877, col: 10, offset: 91032},
 																													run: (*parser).callonDocumentFragment467,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2876, col: 10, offset: 91005},
+																														pos:        position{line: 2877, col: 10, offset: 91032},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6329,28 +6329,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2898, col: 8, offset: 91403},
+																												pos: position{line: 2899, col: 8, offset: 91430},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2885, col: 12, offset: 91176},
+																														pos: position{line: 2886, col: 12, offset: 91203},
 																														run: (*parser).callonDocumentFragment470,
 																														expr: &choiceExpr{
-																															pos: position{line: 2885, col: 13, offset: 91177},
+																															pos: position{line: 2886, col: 13, offset: 91204},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 13, offset: 91177},
+																																	pos:        position{line: 2886, col: 13, offset: 91204},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 20, offset: 91184},
+																																	pos:        position{line: 2886, col: 20, offset: 91211},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 29, offset: 91193},
+																																	pos:        position{line: 2886, col: 29, offset: 91220},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6359,9 +6359,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2895, col: 8, offset: 91353},
+																														pos: position{line: 2896, col: 8, offset: 91380},
 																														expr: &anyMatcher{
-																															line: 2895, col: 9, offset: 91354,
+																															line: 2896, col: 9, offset: 91381,
 																														},
 																													},
 																												},
@@ -6371,45 +6371,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 908, col: 5, offset: 28658},
+																								pos: position{line: 909, col: 5, offset: 28685},
 																								run: (*parser).callonDocumentFragment477,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91353},
+																						pos: position{line: 2896, col: 8, offset: 91380},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91354,
+																							line: 2896, col: 9, offset: 91381,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 915, col: 5, offset: 28816},
+																			pos:   position{line: 916, col: 5, offset: 28843},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 810, col: 5, offset: 26102},
+																				pos: position{line: 811, col: 5, offset: 26129},
 																				run: (*parser).callonDocumentFragment481,
 																				expr: &seqExpr{
-																					pos: position{line: 810, col: 5, offset: 26102},
+																					pos: position{line: 811, col: 5, offset: 26129},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2893, col: 11, offset: 91339},
+																							pos: position{line: 2894, col: 11, offset: 91366},
 																							expr: &anyMatcher{
-																								line: 2893, col: 13, offset: 91341,
+																								line: 2894, col: 13, offset: 91368,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 811, col: 5, offset: 26177},
+																							pos:   position{line: 812, col: 5, offset: 26204},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2822, col: 13, offset: 89531},
+																								pos: position{line: 2823, col: 13, offset: 89558},
 																								run: (*parser).callonDocumentFragment486,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2822, col: 13, offset: 89531},
+																									pos: position{line: 2823, col: 13, offset: 89558},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2822, col: 13, offset: 89531},
+																										pos:        position{line: 2823, col: 13, offset: 89558},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6419,28 +6419,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91403},
+																							pos: position{line: 2899, col: 8, offset: 91430},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91176},
+																									pos: position{line: 2886, col: 12, offset: 91203},
 																									run: (*parser).callonDocumentFragment490,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91177},
+																										pos: position{line: 2886, col: 13, offset: 91204},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91177},
+																												pos:        position{line: 2886, col: 13, offset: 91204},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91184},
+																												pos:        position{line: 2886, col: 20, offset: 91211},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91193},
+																												pos:        position{line: 2886, col: 29, offset: 91220},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6449,9 +6449,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91353},
+																									pos: position{line: 2896, col: 8, offset: 91380},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91354,
+																										line: 2896, col: 9, offset: 91381,
 																									},
 																								},
 																							},
@@ -6466,44 +6466,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 900, col: 5, offset: 28421},
+														pos:   position{line: 901, col: 5, offset: 28448},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 900, col: 9, offset: 28425},
+															pos: position{line: 901, col: 9, offset: 28452},
 															expr: &choiceExpr{
-																pos: position{line: 907, col: 5, offset: 28627},
+																pos: position{line: 908, col: 5, offset: 28654},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 907, col: 5, offset: 28627},
+																		pos: position{line: 908, col: 5, offset: 28654},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 907, col: 5, offset: 28627},
+																				pos:   position{line: 908, col: 5, offset: 28654},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 768, col: 5, offset: 24630},
+																					pos: position{line: 769, col: 5, offset: 24657},
 																					run: (*parser).callonDocumentFragment502,
 																					expr: &seqExpr{
-																						pos: position{line: 768, col: 5, offset: 24630},
+																						pos: position{line: 769, col: 5, offset: 24657},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 768, col: 5, offset: 24630},
+																								pos:   position{line: 769, col: 5, offset: 24657},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 768, col: 16, offset: 24641},
+																									pos: position{line: 769, col: 16, offset: 24668},
 																									run: (*parser).callonDocumentFragment505,
 																									expr: &seqExpr{
-																										pos: position{line: 768, col: 16, offset: 24641},
+																										pos: position{line: 769, col: 16, offset: 24668},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 768, col: 16, offset: 24641},
+																												pos:        position{line: 769, col: 16, offset: 24668},
 																												val:        "----",
 																												ignoreCase: false,
 																												want:       "\"----\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 768, col: 23, offset: 24648},
+																												pos: position{line: 769, col: 23, offset: 24675},
 																												expr: &litMatcher{
-																													pos:        position{line: 768, col: 23, offset: 24648},
+																													pos:        position{line: 769, col: 23, offset: 24675},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
@@ -6514,12 +6514,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 770, col: 8, offset: 24732},
+																								pos: position{line: 771, col: 8, offset: 24759},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 91005},
+																									pos: position{line: 2877, col: 10, offset: 91032},
 																									run: (*parser).callonDocumentFragment511,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 91005},
+																										pos:        position{line: 2877, col: 10, offset: 91032},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6528,28 +6528,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2898, col: 8, offset: 91403},
+																								pos: position{line: 2899, col: 8, offset: 91430},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2885, col: 12, offset: 91176},
+																										pos: position{line: 2886, col: 12, offset: 91203},
 																										run: (*parser).callonDocumentFragment514,
 																										expr: &choiceExpr{
-																											pos: position{line: 2885, col: 13, offset: 91177},
+																											pos: position{line: 2886, col: 13, offset: 91204},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 13, offset: 91177},
+																													pos:        position{line: 2886, col: 13, offset: 91204},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 20, offset: 91184},
+																													pos:        position{line: 2886, col: 20, offset: 91211},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 29, offset: 91193},
+																													pos:        position{line: 2886, col: 29, offset: 91220},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6558,9 +6558,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2895, col: 8, offset: 91353},
+																										pos: position{line: 2896, col: 8, offset: 91380},
 																										expr: &anyMatcher{
-																											line: 2895, col: 9, offset: 91354,
+																											line: 2896, col: 9, offset: 91381,
 																										},
 																									},
 																								},
@@ -6570,15 +6570,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 908, col: 5, offset: 28658},
+																				pos: position{line: 909, col: 5, offset: 28685},
 																				run: (*parser).callonDocumentFragment521,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91353},
+																		pos: position{line: 2896, col: 8, offset: 91380},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91354,
+																			line: 2896, col: 9, offset: 91381,
 																		},
 																	},
 																},
@@ -6589,39 +6589,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 923, col: 5, offset: 28971},
+											pos: position{line: 924, col: 5, offset: 28998},
 											run: (*parser).callonDocumentFragment524,
 											expr: &seqExpr{
-												pos: position{line: 923, col: 5, offset: 28971},
+												pos: position{line: 924, col: 5, offset: 28998},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 923, col: 5, offset: 28971},
+														pos:   position{line: 924, col: 5, offset: 28998},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 782, col: 5, offset: 25106},
+															pos: position{line: 783, col: 5, offset: 25133},
 															run: (*parser).callonDocumentFragment527,
 															expr: &seqExpr{
-																pos: position{line: 782, col: 5, offset: 25106},
+																pos: position{line: 783, col: 5, offset: 25133},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 782, col: 5, offset: 25106},
+																		pos:   position{line: 783, col: 5, offset: 25133},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 782, col: 16, offset: 25117},
+																			pos: position{line: 783, col: 16, offset: 25144},
 																			run: (*parser).callonDocumentFragment530,
 																			expr: &seqExpr{
-																				pos: position{line: 782, col: 16, offset: 25117},
+																				pos: position{line: 783, col: 16, offset: 25144},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 782, col: 16, offset: 25117},
+																						pos:        position{line: 783, col: 16, offset: 25144},
 																						val:        "....",
 																						ignoreCase: false,
 																						want:       "\"....\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 782, col: 23, offset: 25124},
+																						pos: position{line: 783, col: 23, offset: 25151},
 																						expr: &litMatcher{
-																							pos:        position{line: 782, col: 23, offset: 25124},
+																							pos:        position{line: 783, col: 23, offset: 25151},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -6632,12 +6632,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 784, col: 8, offset: 25208},
+																		pos: position{line: 785, col: 8, offset: 25235},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 91005},
+																			pos: position{line: 2877, col: 10, offset: 91032},
 																			run: (*parser).callonDocumentFragment536,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 91005},
+																				pos:        position{line: 2877, col: 10, offset: 91032},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6646,28 +6646,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91403},
+																		pos: position{line: 2899, col: 8, offset: 91430},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91176},
+																				pos: position{line: 2886, col: 12, offset: 91203},
 																				run: (*parser).callonDocumentFragment539,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91177},
+																					pos: position{line: 2886, col: 13, offset: 91204},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91177},
+																							pos:        position{line: 2886, col: 13, offset: 91204},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91184},
+																							pos:        position{line: 2886, col: 20, offset: 91211},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91193},
+																							pos:        position{line: 2886, col: 29, offset: 91220},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6676,9 +6676,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91353},
+																				pos: position{line: 2896, col: 8, offset: 91380},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91354,
+																					line: 2896, col: 9, offset: 91381,
 																				},
 																			},
 																		},
@@ -6688,56 +6688,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 924, col: 5, offset: 29010},
+														pos: position{line: 925, col: 5, offset: 29037},
 														run: (*parser).callonDocumentFragment546,
 													},
 													&labeledExpr{
-														pos:   position{line: 927, col: 5, offset: 29102},
+														pos:   position{line: 928, col: 5, offset: 29129},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 942, col: 5, offset: 29500},
+															pos: position{line: 943, col: 5, offset: 29527},
 															expr: &actionExpr{
-																pos: position{line: 942, col: 6, offset: 29501},
+																pos: position{line: 943, col: 6, offset: 29528},
 																run: (*parser).callonDocumentFragment549,
 																expr: &seqExpr{
-																	pos: position{line: 942, col: 6, offset: 29501},
+																	pos: position{line: 943, col: 6, offset: 29528},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 942, col: 6, offset: 29501},
+																			pos: position{line: 943, col: 6, offset: 29528},
 																			expr: &choiceExpr{
-																				pos: position{line: 935, col: 5, offset: 29342},
+																				pos: position{line: 936, col: 5, offset: 29369},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 935, col: 5, offset: 29342},
+																						pos: position{line: 936, col: 5, offset: 29369},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 935, col: 5, offset: 29342},
+																								pos:   position{line: 936, col: 5, offset: 29369},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 782, col: 5, offset: 25106},
+																									pos: position{line: 783, col: 5, offset: 25133},
 																									run: (*parser).callonDocumentFragment555,
 																									expr: &seqExpr{
-																										pos: position{line: 782, col: 5, offset: 25106},
+																										pos: position{line: 783, col: 5, offset: 25133},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 782, col: 5, offset: 25106},
+																												pos:   position{line: 783, col: 5, offset: 25133},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 782, col: 16, offset: 25117},
+																													pos: position{line: 783, col: 16, offset: 25144},
 																													run: (*parser).callonDocumentFragment558,
 																													expr: &seqExpr{
-																														pos: position{line: 782, col: 16, offset: 25117},
+																														pos: position{line: 783, col: 16, offset: 25144},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 782, col: 16, offset: 25117},
+																																pos:        position{line: 783, col: 16, offset: 25144},
 																																val:        "....",
 																																ignoreCase: false,
 																																want:       "\"....\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 782, col: 23, offset: 25124},
+																																pos: position{line: 783, col: 23, offset: 25151},
 																																expr: &litMatcher{
-																																	pos:        position{line: 782, col: 23, offset: 25124},
+																																	pos:        position{line: 783, col: 23, offset: 25151},
 																																	val:        ".",
 																																	ignoreCase: false,
 																																	want:       "\".\"",
@@ -6748,12 +6748,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 784, col: 8, offset: 25208},
+																												pos: position{line: 785, col: 8, offset: 25235},
 																												expr: &actionExpr{
-																													pos: position{line: 2876, col: 10, offset: 91005},
+																													pos: position{line: 2877, col: 10, offset: 91032},
 																													run: (*parser).callonDocumentFragment564,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2876, col: 10, offset: 91005},
+																														pos:        position{line: 2877, col: 10, offset: 91032},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6762,28 +6762,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2898, col: 8, offset: 91403},
+																												pos: position{line: 2899, col: 8, offset: 91430},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2885, col: 12, offset: 91176},
+																														pos: position{line: 2886, col: 12, offset: 91203},
 																														run: (*parser).callonDocumentFragment567,
 																														expr: &choiceExpr{
-																															pos: position{line: 2885, col: 13, offset: 91177},
+																															pos: position{line: 2886, col: 13, offset: 91204},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 13, offset: 91177},
+																																	pos:        position{line: 2886, col: 13, offset: 91204},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 20, offset: 91184},
+																																	pos:        position{line: 2886, col: 20, offset: 91211},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 29, offset: 91193},
+																																	pos:        position{line: 2886, col: 29, offset: 91220},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6792,9 +6792,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2895, col: 8, offset: 91353},
+																														pos: position{line: 2896, col: 8, offset: 91380},
 																														expr: &anyMatcher{
-																															line: 2895, col: 9, offset: 91354,
+																															line: 2896, col: 9, offset: 91381,
 																														},
 																													},
 																												},
@@ -6804,45 +6804,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 936, col: 5, offset: 29373},
+																								pos: position{line: 937, col: 5, offset: 29400},
 																								run: (*parser).callonDocumentFragment574,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91353},
+																						pos: position{line: 2896, col: 8, offset: 91380},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91354,
+																							line: 2896, col: 9, offset: 91381,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 943, col: 5, offset: 29531},
+																			pos:   position{line: 944, col: 5, offset: 29558},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 810, col: 5, offset: 26102},
+																				pos: position{line: 811, col: 5, offset: 26129},
 																				run: (*parser).callonDocumentFragment578,
 																				expr: &seqExpr{
-																					pos: position{line: 810, col: 5, offset: 26102},
+																					pos: position{line: 811, col: 5, offset: 26129},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2893, col: 11, offset: 91339},
+																							pos: position{line: 2894, col: 11, offset: 91366},
 																							expr: &anyMatcher{
-																								line: 2893, col: 13, offset: 91341,
+																								line: 2894, col: 13, offset: 91368,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 811, col: 5, offset: 26177},
+																							pos:   position{line: 812, col: 5, offset: 26204},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2822, col: 13, offset: 89531},
+																								pos: position{line: 2823, col: 13, offset: 89558},
 																								run: (*parser).callonDocumentFragment583,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2822, col: 13, offset: 89531},
+																									pos: position{line: 2823, col: 13, offset: 89558},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2822, col: 13, offset: 89531},
+																										pos:        position{line: 2823, col: 13, offset: 89558},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6852,28 +6852,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91403},
+																							pos: position{line: 2899, col: 8, offset: 91430},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91176},
+																									pos: position{line: 2886, col: 12, offset: 91203},
 																									run: (*parser).callonDocumentFragment587,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91177},
+																										pos: position{line: 2886, col: 13, offset: 91204},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91177},
+																												pos:        position{line: 2886, col: 13, offset: 91204},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91184},
+																												pos:        position{line: 2886, col: 20, offset: 91211},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91193},
+																												pos:        position{line: 2886, col: 29, offset: 91220},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6882,9 +6882,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91353},
+																									pos: position{line: 2896, col: 8, offset: 91380},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91354,
+																										line: 2896, col: 9, offset: 91381,
 																									},
 																								},
 																							},
@@ -6899,44 +6899,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 928, col: 5, offset: 29136},
+														pos:   position{line: 929, col: 5, offset: 29163},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 928, col: 9, offset: 29140},
+															pos: position{line: 929, col: 9, offset: 29167},
 															expr: &choiceExpr{
-																pos: position{line: 935, col: 5, offset: 29342},
+																pos: position{line: 936, col: 5, offset: 29369},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 935, col: 5, offset: 29342},
+																		pos: position{line: 936, col: 5, offset: 29369},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 935, col: 5, offset: 29342},
+																				pos:   position{line: 936, col: 5, offset: 29369},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 782, col: 5, offset: 25106},
+																					pos: position{line: 783, col: 5, offset: 25133},
 																					run: (*parser).callonDocumentFragment599,
 																					expr: &seqExpr{
-																						pos: position{line: 782, col: 5, offset: 25106},
+																						pos: position{line: 783, col: 5, offset: 25133},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 782, col: 5, offset: 25106},
+																								pos:   position{line: 783, col: 5, offset: 25133},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 782, col: 16, offset: 25117},
+																									pos: position{line: 783, col: 16, offset: 25144},
 																									run: (*parser).callonDocumentFragment602,
 																									expr: &seqExpr{
-																										pos: position{line: 782, col: 16, offset: 25117},
+																										pos: position{line: 783, col: 16, offset: 25144},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 782, col: 16, offset: 25117},
+																												pos:        position{line: 783, col: 16, offset: 25144},
 																												val:        "....",
 																												ignoreCase: false,
 																												want:       "\"....\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 782, col: 23, offset: 25124},
+																												pos: position{line: 783, col: 23, offset: 25151},
 																												expr: &litMatcher{
-																													pos:        position{line: 782, col: 23, offset: 25124},
+																													pos:        position{line: 783, col: 23, offset: 25151},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -6947,12 +6947,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 784, col: 8, offset: 25208},
+																								pos: position{line: 785, col: 8, offset: 25235},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 91005},
+																									pos: position{line: 2877, col: 10, offset: 91032},
 																									run: (*parser).callonDocumentFragment608,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 91005},
+																										pos:        position{line: 2877, col: 10, offset: 91032},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6961,28 +6961,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2898, col: 8, offset: 91403},
+																								pos: position{line: 2899, col: 8, offset: 91430},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2885, col: 12, offset: 91176},
+																										pos: position{line: 2886, col: 12, offset: 91203},
 																										run: (*parser).callonDocumentFragment611,
 																										expr: &choiceExpr{
-																											pos: position{line: 2885, col: 13, offset: 91177},
+																											pos: position{line: 2886, col: 13, offset: 91204},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 13, offset: 91177},
+																													pos:        position{line: 2886, col: 13, offset: 91204},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 20, offset: 91184},
+																													pos:        position{line: 2886, col: 20, offset: 91211},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 29, offset: 91193},
+																													pos:        position{line: 2886, col: 29, offset: 91220},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6991,9 +6991,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2895, col: 8, offset: 91353},
+																										pos: position{line: 2896, col: 8, offset: 91380},
 																										expr: &anyMatcher{
-																											line: 2895, col: 9, offset: 91354,
+																											line: 2896, col: 9, offset: 91381,
 																										},
 																									},
 																								},
@@ -7003,15 +7003,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 936, col: 5, offset: 29373},
+																				pos: position{line: 937, col: 5, offset: 29400},
 																				run: (*parser).callonDocumentFragment618,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91353},
+																		pos: position{line: 2896, col: 8, offset: 91380},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91354,
+																			line: 2896, col: 9, offset: 91381,
 																		},
 																	},
 																},
@@ -7022,41 +7022,41 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 974, col: 5, offset: 30414},
+											pos: position{line: 975, col: 5, offset: 30441},
 											run: (*parser).callonDocumentFragment621,
 											expr: &seqExpr{
-												pos: position{line: 974, col: 5, offset: 30414},
+												pos: position{line: 975, col: 5, offset: 30441},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 974, col: 5, offset: 30414},
+														pos:   position{line: 975, col: 5, offset: 30441},
 														label: "firstLine",
 														expr: &actionExpr{
-															pos: position{line: 981, col: 5, offset: 30673},
+															pos: position{line: 982, col: 5, offset: 30700},
 															run: (*parser).callonDocumentFragment624,
 															expr: &seqExpr{
-																pos: position{line: 981, col: 5, offset: 30673},
+																pos: position{line: 982, col: 5, offset: 30700},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 981, col: 5, offset: 30673},
+																		pos: position{line: 982, col: 5, offset: 30700},
 																		expr: &actionExpr{
-																			pos: position{line: 676, col: 14, offset: 21498},
+																			pos: position{line: 677, col: 14, offset: 21525},
 																			run: (*parser).callonDocumentFragment627,
 																			expr: &seqExpr{
-																				pos: position{line: 676, col: 14, offset: 21498},
+																				pos: position{line: 677, col: 14, offset: 21525},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2893, col: 11, offset: 91339},
+																						pos: position{line: 2894, col: 11, offset: 91366},
 																						expr: &anyMatcher{
-																							line: 2893, col: 13, offset: 91341,
+																							line: 2894, col: 13, offset: 91368,
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 676, col: 21, offset: 21505},
+																						pos: position{line: 677, col: 21, offset: 21532},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 91005},
+																							pos: position{line: 2877, col: 10, offset: 91032},
 																							run: (*parser).callonDocumentFragment632,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 91005},
+																								pos:        position{line: 2877, col: 10, offset: 91032},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -7065,28 +7065,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91403},
+																						pos: position{line: 2899, col: 8, offset: 91430},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91176},
+																								pos: position{line: 2886, col: 12, offset: 91203},
 																								run: (*parser).callonDocumentFragment635,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91177},
+																									pos: position{line: 2886, col: 13, offset: 91204},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91177},
+																											pos:        position{line: 2886, col: 13, offset: 91204},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91184},
+																											pos:        position{line: 2886, col: 20, offset: 91211},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91193},
+																											pos:        position{line: 2886, col: 29, offset: 91220},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -7095,9 +7095,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91353},
+																								pos: position{line: 2896, col: 8, offset: 91380},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91354,
+																									line: 2896, col: 9, offset: 91381,
 																								},
 																							},
 																						},
@@ -7107,21 +7107,21 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 982, col: 5, offset: 30688},
+																		pos:        position{line: 983, col: 5, offset: 30715},
 																		val:        "> ",
 																		ignoreCase: false,
 																		want:       "\"> \"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 983, col: 5, offset: 30698},
+																		pos:   position{line: 984, col: 5, offset: 30725},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2826, col: 14, offset: 89598},
+																			pos: position{line: 2827, col: 14, offset: 89625},
 																			run: (*parser).callonDocumentFragment644,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2826, col: 14, offset: 89598},
+																				pos: position{line: 2827, col: 14, offset: 89625},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2826, col: 14, offset: 89598},
+																					pos:        position{line: 2827, col: 14, offset: 89625},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -7131,28 +7131,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91403},
+																		pos: position{line: 2899, col: 8, offset: 91430},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91176},
+																				pos: position{line: 2886, col: 12, offset: 91203},
 																				run: (*parser).callonDocumentFragment648,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91177},
+																					pos: position{line: 2886, col: 13, offset: 91204},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91177},
+																							pos:        position{line: 2886, col: 13, offset: 91204},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91184},
+																							pos:        position{line: 2886, col: 20, offset: 91211},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91193},
+																							pos:        position{line: 2886, col: 29, offset: 91220},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7161,9 +7161,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91353},
+																				pos: position{line: 2896, col: 8, offset: 91380},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91354,
+																					line: 2896, col: 9, offset: 91381,
 																				},
 																			},
 																		},
@@ -7173,40 +7173,40 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 975, col: 5, offset: 30451},
+														pos:   position{line: 976, col: 5, offset: 30478},
 														label: "otherLines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 975, col: 16, offset: 30462},
+															pos: position{line: 976, col: 16, offset: 30489},
 															expr: &choiceExpr{
-																pos: position{line: 975, col: 17, offset: 30463},
+																pos: position{line: 976, col: 17, offset: 30490},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 981, col: 5, offset: 30673},
+																		pos: position{line: 982, col: 5, offset: 30700},
 																		run: (*parser).callonDocumentFragment658,
 																		expr: &seqExpr{
-																			pos: position{line: 981, col: 5, offset: 30673},
+																			pos: position{line: 982, col: 5, offset: 30700},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 981, col: 5, offset: 30673},
+																					pos: position{line: 982, col: 5, offset: 30700},
 																					expr: &actionExpr{
-																						pos: position{line: 676, col: 14, offset: 21498},
+																						pos: position{line: 677, col: 14, offset: 21525},
 																						run: (*parser).callonDocumentFragment661,
 																						expr: &seqExpr{
-																							pos: position{line: 676, col: 14, offset: 21498},
+																							pos: position{line: 677, col: 14, offset: 21525},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2893, col: 11, offset: 91339},
+																									pos: position{line: 2894, col: 11, offset: 91366},
 																									expr: &anyMatcher{
-																										line: 2893, col: 13, offset: 91341,
+																										line: 2894, col: 13, offset: 91368,
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 676, col: 21, offset: 21505},
+																									pos: position{line: 677, col: 21, offset: 21532},
 																									expr: &actionExpr{
-																										pos: position{line: 2876, col: 10, offset: 91005},
+																										pos: position{line: 2877, col: 10, offset: 91032},
 																										run: (*parser).callonDocumentFragment666,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2876, col: 10, offset: 91005},
+																											pos:        position{line: 2877, col: 10, offset: 91032},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7215,28 +7215,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2898, col: 8, offset: 91403},
+																									pos: position{line: 2899, col: 8, offset: 91430},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2885, col: 12, offset: 91176},
+																											pos: position{line: 2886, col: 12, offset: 91203},
 																											run: (*parser).callonDocumentFragment669,
 																											expr: &choiceExpr{
-																												pos: position{line: 2885, col: 13, offset: 91177},
+																												pos: position{line: 2886, col: 13, offset: 91204},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 13, offset: 91177},
+																														pos:        position{line: 2886, col: 13, offset: 91204},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 20, offset: 91184},
+																														pos:        position{line: 2886, col: 20, offset: 91211},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 29, offset: 91193},
+																														pos:        position{line: 2886, col: 29, offset: 91220},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7245,9 +7245,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2895, col: 8, offset: 91353},
+																											pos: position{line: 2896, col: 8, offset: 91380},
 																											expr: &anyMatcher{
-																												line: 2895, col: 9, offset: 91354,
+																												line: 2896, col: 9, offset: 91381,
 																											},
 																										},
 																									},
@@ -7257,21 +7257,21 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 982, col: 5, offset: 30688},
+																					pos:        position{line: 983, col: 5, offset: 30715},
 																					val:        "> ",
 																					ignoreCase: false,
 																					want:       "\"> \"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 983, col: 5, offset: 30698},
+																					pos:   position{line: 984, col: 5, offset: 30725},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2826, col: 14, offset: 89598},
+																						pos: position{line: 2827, col: 14, offset: 89625},
 																						run: (*parser).callonDocumentFragment678,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2826, col: 14, offset: 89598},
+																							pos: position{line: 2827, col: 14, offset: 89625},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2826, col: 14, offset: 89598},
+																								pos:        position{line: 2827, col: 14, offset: 89625},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7281,28 +7281,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2898, col: 8, offset: 91403},
+																					pos: position{line: 2899, col: 8, offset: 91430},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2885, col: 12, offset: 91176},
+																							pos: position{line: 2886, col: 12, offset: 91203},
 																							run: (*parser).callonDocumentFragment682,
 																							expr: &choiceExpr{
-																								pos: position{line: 2885, col: 13, offset: 91177},
+																								pos: position{line: 2886, col: 13, offset: 91204},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 13, offset: 91177},
+																										pos:        position{line: 2886, col: 13, offset: 91204},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 20, offset: 91184},
+																										pos:        position{line: 2886, col: 20, offset: 91211},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 29, offset: 91193},
+																										pos:        position{line: 2886, col: 29, offset: 91220},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7311,9 +7311,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2895, col: 8, offset: 91353},
+																							pos: position{line: 2896, col: 8, offset: 91380},
 																							expr: &anyMatcher{
-																								line: 2895, col: 9, offset: 91354,
+																								line: 2896, col: 9, offset: 91381,
 																							},
 																						},
 																					},
@@ -7322,21 +7322,21 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 1795, col: 5, offset: 58079},
+																		pos: position{line: 1796, col: 5, offset: 58106},
 																		run: (*parser).callonDocumentFragment689,
 																		expr: &seqExpr{
-																			pos: position{line: 1795, col: 5, offset: 58079},
+																			pos: position{line: 1796, col: 5, offset: 58106},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1795, col: 5, offset: 58079},
+																					pos:   position{line: 1796, col: 5, offset: 58106},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2826, col: 14, offset: 89598},
+																						pos: position{line: 2827, col: 14, offset: 89625},
 																						run: (*parser).callonDocumentFragment692,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2826, col: 14, offset: 89598},
+																							pos: position{line: 2827, col: 14, offset: 89625},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2826, col: 14, offset: 89598},
+																								pos:        position{line: 2827, col: 14, offset: 89625},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7346,32 +7346,32 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1796, col: 5, offset: 58103},
+																					pos: position{line: 1797, col: 5, offset: 58130},
 																					run: (*parser).callonDocumentFragment695,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2898, col: 8, offset: 91403},
+																					pos: position{line: 2899, col: 8, offset: 91430},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2885, col: 12, offset: 91176},
+																							pos: position{line: 2886, col: 12, offset: 91203},
 																							run: (*parser).callonDocumentFragment697,
 																							expr: &choiceExpr{
-																								pos: position{line: 2885, col: 13, offset: 91177},
+																								pos: position{line: 2886, col: 13, offset: 91204},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 13, offset: 91177},
+																										pos:        position{line: 2886, col: 13, offset: 91204},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 20, offset: 91184},
+																										pos:        position{line: 2886, col: 20, offset: 91211},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 29, offset: 91193},
+																										pos:        position{line: 2886, col: 29, offset: 91220},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7380,9 +7380,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2895, col: 8, offset: 91353},
+																							pos: position{line: 2896, col: 8, offset: 91380},
 																							expr: &anyMatcher{
-																								line: 2895, col: 9, offset: 91354,
+																								line: 2896, col: 9, offset: 91381,
 																							},
 																						},
 																					},
@@ -7398,28 +7398,28 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 996, col: 5, offset: 30963},
+											pos: position{line: 997, col: 5, offset: 30990},
 											run: (*parser).callonDocumentFragment704,
 											expr: &seqExpr{
-												pos: position{line: 996, col: 5, offset: 30963},
+												pos: position{line: 997, col: 5, offset: 30990},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 996, col: 5, offset: 30963},
+														pos:   position{line: 997, col: 5, offset: 30990},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 775, col: 5, offset: 24875},
+															pos: position{line: 776, col: 5, offset: 24902},
 															run: (*parser).callonDocumentFragment707,
 															expr: &seqExpr{
-																pos: position{line: 775, col: 5, offset: 24875},
+																pos: position{line: 776, col: 5, offset: 24902},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 775, col: 5, offset: 24875},
+																		pos:   position{line: 776, col: 5, offset: 24902},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 775, col: 16, offset: 24886},
+																			pos: position{line: 776, col: 16, offset: 24913},
 																			run: (*parser).callonDocumentFragment710,
 																			expr: &litMatcher{
-																				pos:        position{line: 775, col: 16, offset: 24886},
+																				pos:        position{line: 776, col: 16, offset: 24913},
 																				val:        "--",
 																				ignoreCase: false,
 																				want:       "\"--\"",
@@ -7427,12 +7427,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 777, col: 8, offset: 24963},
+																		pos: position{line: 778, col: 8, offset: 24990},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 91005},
+																			pos: position{line: 2877, col: 10, offset: 91032},
 																			run: (*parser).callonDocumentFragment713,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 91005},
+																				pos:        position{line: 2877, col: 10, offset: 91032},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7441,28 +7441,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91403},
+																		pos: position{line: 2899, col: 8, offset: 91430},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91176},
+																				pos: position{line: 2886, col: 12, offset: 91203},
 																				run: (*parser).callonDocumentFragment716,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91177},
+																					pos: position{line: 2886, col: 13, offset: 91204},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91177},
+																							pos:        position{line: 2886, col: 13, offset: 91204},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91184},
+																							pos:        position{line: 2886, col: 20, offset: 91211},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91193},
+																							pos:        position{line: 2886, col: 29, offset: 91220},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7471,9 +7471,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91353},
+																				pos: position{line: 2896, col: 8, offset: 91380},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91354,
+																					line: 2896, col: 9, offset: 91381,
 																				},
 																			},
 																		},
@@ -7483,35 +7483,35 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 997, col: 5, offset: 30999},
+														pos:   position{line: 998, col: 5, offset: 31026},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1007, col: 5, offset: 31267},
+															pos: position{line: 1008, col: 5, offset: 31294},
 															expr: &actionExpr{
-																pos: position{line: 1007, col: 6, offset: 31268},
+																pos: position{line: 1008, col: 6, offset: 31295},
 																run: (*parser).callonDocumentFragment725,
 																expr: &seqExpr{
-																	pos: position{line: 1007, col: 6, offset: 31268},
+																	pos: position{line: 1008, col: 6, offset: 31295},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1007, col: 6, offset: 31268},
+																			pos: position{line: 1008, col: 6, offset: 31295},
 																			expr: &choiceExpr{
-																				pos: position{line: 1004, col: 26, offset: 31216},
+																				pos: position{line: 1005, col: 26, offset: 31243},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 775, col: 5, offset: 24875},
+																						pos: position{line: 776, col: 5, offset: 24902},
 																						run: (*parser).callonDocumentFragment729,
 																						expr: &seqExpr{
-																							pos: position{line: 775, col: 5, offset: 24875},
+																							pos: position{line: 776, col: 5, offset: 24902},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 775, col: 5, offset: 24875},
+																									pos:   position{line: 776, col: 5, offset: 24902},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 775, col: 16, offset: 24886},
+																										pos: position{line: 776, col: 16, offset: 24913},
 																										run: (*parser).callonDocumentFragment732,
 																										expr: &litMatcher{
-																											pos:        position{line: 775, col: 16, offset: 24886},
+																											pos:        position{line: 776, col: 16, offset: 24913},
 																											val:        "--",
 																											ignoreCase: false,
 																											want:       "\"--\"",
@@ -7519,12 +7519,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 777, col: 8, offset: 24963},
+																									pos: position{line: 778, col: 8, offset: 24990},
 																									expr: &actionExpr{
-																										pos: position{line: 2876, col: 10, offset: 91005},
+																										pos: position{line: 2877, col: 10, offset: 91032},
 																										run: (*parser).callonDocumentFragment735,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2876, col: 10, offset: 91005},
+																											pos:        position{line: 2877, col: 10, offset: 91032},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7533,28 +7533,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2898, col: 8, offset: 91403},
+																									pos: position{line: 2899, col: 8, offset: 91430},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2885, col: 12, offset: 91176},
+																											pos: position{line: 2886, col: 12, offset: 91203},
 																											run: (*parser).callonDocumentFragment738,
 																											expr: &choiceExpr{
-																												pos: position{line: 2885, col: 13, offset: 91177},
+																												pos: position{line: 2886, col: 13, offset: 91204},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 13, offset: 91177},
+																														pos:        position{line: 2886, col: 13, offset: 91204},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 20, offset: 91184},
+																														pos:        position{line: 2886, col: 20, offset: 91211},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 29, offset: 91193},
+																														pos:        position{line: 2886, col: 29, offset: 91220},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7563,9 +7563,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2895, col: 8, offset: 91353},
+																											pos: position{line: 2896, col: 8, offset: 91380},
 																											expr: &anyMatcher{
-																												line: 2895, col: 9, offset: 91354,
+																												line: 2896, col: 9, offset: 91381,
 																											},
 																										},
 																									},
@@ -7574,39 +7574,39 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91353},
+																						pos: position{line: 2896, col: 8, offset: 91380},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91354,
+																							line: 2896, col: 9, offset: 91381,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1008, col: 5, offset: 31295},
+																			pos:   position{line: 1009, col: 5, offset: 31322},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 810, col: 5, offset: 26102},
+																				pos: position{line: 811, col: 5, offset: 26129},
 																				run: (*parser).callonDocumentFragment748,
 																				expr: &seqExpr{
-																					pos: position{line: 810, col: 5, offset: 26102},
+																					pos: position{line: 811, col: 5, offset: 26129},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2893, col: 11, offset: 91339},
+																							pos: position{line: 2894, col: 11, offset: 91366},
 																							expr: &anyMatcher{
-																								line: 2893, col: 13, offset: 91341,
+																								line: 2894, col: 13, offset: 91368,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 811, col: 5, offset: 26177},
+																							pos:   position{line: 812, col: 5, offset: 26204},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2822, col: 13, offset: 89531},
+																								pos: position{line: 2823, col: 13, offset: 89558},
 																								run: (*parser).callonDocumentFragment753,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2822, col: 13, offset: 89531},
+																									pos: position{line: 2823, col: 13, offset: 89558},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2822, col: 13, offset: 89531},
+																										pos:        position{line: 2823, col: 13, offset: 89558},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7616,28 +7616,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91403},
+																							pos: position{line: 2899, col: 8, offset: 91430},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91176},
+																									pos: position{line: 2886, col: 12, offset: 91203},
 																									run: (*parser).callonDocumentFragment757,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91177},
+																										pos: position{line: 2886, col: 13, offset: 91204},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91177},
+																												pos:        position{line: 2886, col: 13, offset: 91204},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91184},
+																												pos:        position{line: 2886, col: 20, offset: 91211},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91193},
+																												pos:        position{line: 2886, col: 29, offset: 91220},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7646,9 +7646,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91353},
+																									pos: position{line: 2896, col: 8, offset: 91380},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91354,
+																										line: 2896, col: 9, offset: 91381,
 																									},
 																								},
 																							},
@@ -7663,27 +7663,27 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 998, col: 5, offset: 31030},
+														pos:   position{line: 999, col: 5, offset: 31057},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 998, col: 9, offset: 31034},
+															pos: position{line: 999, col: 9, offset: 31061},
 															expr: &choiceExpr{
-																pos: position{line: 1004, col: 26, offset: 31216},
+																pos: position{line: 1005, col: 26, offset: 31243},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 775, col: 5, offset: 24875},
+																		pos: position{line: 776, col: 5, offset: 24902},
 																		run: (*parser).callonDocumentFragment767,
 																		expr: &seqExpr{
-																			pos: position{line: 775, col: 5, offset: 24875},
+																			pos: position{line: 776, col: 5, offset: 24902},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 775, col: 5, offset: 24875},
+																					pos:   position{line: 776, col: 5, offset: 24902},
 																					label: "delimiter",
 																					expr: &actionExpr{
-																						pos: position{line: 775, col: 16, offset: 24886},
+																						pos: position{line: 776, col: 16, offset: 24913},
 																						run: (*parser).callonDocumentFragment770,
 																						expr: &litMatcher{
-																							pos:        position{line: 775, col: 16, offset: 24886},
+																							pos:        position{line: 776, col: 16, offset: 24913},
 																							val:        "--",
 																							ignoreCase: false,
 																							want:       "\"--\"",
@@ -7691,12 +7691,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 777, col: 8, offset: 24963},
+																					pos: position{line: 778, col: 8, offset: 24990},
 																					expr: &actionExpr{
-																						pos: position{line: 2876, col: 10, offset: 91005},
+																						pos: position{line: 2877, col: 10, offset: 91032},
 																						run: (*parser).callonDocumentFragment773,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2876, col: 10, offset: 91005},
+																							pos:        position{line: 2877, col: 10, offset: 91032},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7705,28 +7705,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2898, col: 8, offset: 91403},
+																					pos: position{line: 2899, col: 8, offset: 91430},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2885, col: 12, offset: 91176},
+																							pos: position{line: 2886, col: 12, offset: 91203},
 																							run: (*parser).callonDocumentFragment776,
 																							expr: &choiceExpr{
-																								pos: position{line: 2885, col: 13, offset: 91177},
+																								pos: position{line: 2886, col: 13, offset: 91204},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 13, offset: 91177},
+																										pos:        position{line: 2886, col: 13, offset: 91204},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 20, offset: 91184},
+																										pos:        position{line: 2886, col: 20, offset: 91211},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 29, offset: 91193},
+																										pos:        position{line: 2886, col: 29, offset: 91220},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7735,9 +7735,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2895, col: 8, offset: 91353},
+																							pos: position{line: 2896, col: 8, offset: 91380},
 																							expr: &anyMatcher{
-																								line: 2895, col: 9, offset: 91354,
+																								line: 2896, col: 9, offset: 91381,
 																							},
 																						},
 																					},
@@ -7746,9 +7746,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91353},
+																		pos: position{line: 2896, col: 8, offset: 91380},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91354,
+																			line: 2896, col: 9, offset: 91381,
 																		},
 																	},
 																},
@@ -7759,39 +7759,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1016, col: 5, offset: 31458},
+											pos: position{line: 1017, col: 5, offset: 31485},
 											run: (*parser).callonDocumentFragment785,
 											expr: &seqExpr{
-												pos: position{line: 1016, col: 5, offset: 31458},
+												pos: position{line: 1017, col: 5, offset: 31485},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1016, col: 5, offset: 31458},
+														pos:   position{line: 1017, col: 5, offset: 31485},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 789, col: 5, offset: 25358},
+															pos: position{line: 790, col: 5, offset: 25385},
 															run: (*parser).callonDocumentFragment788,
 															expr: &seqExpr{
-																pos: position{line: 789, col: 5, offset: 25358},
+																pos: position{line: 790, col: 5, offset: 25385},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 789, col: 5, offset: 25358},
+																		pos:   position{line: 790, col: 5, offset: 25385},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 789, col: 16, offset: 25369},
+																			pos: position{line: 790, col: 16, offset: 25396},
 																			run: (*parser).callonDocumentFragment791,
 																			expr: &seqExpr{
-																				pos: position{line: 789, col: 16, offset: 25369},
+																				pos: position{line: 790, col: 16, offset: 25396},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 789, col: 16, offset: 25369},
+																						pos:        position{line: 790, col: 16, offset: 25396},
 																						val:        "++++",
 																						ignoreCase: false,
 																						want:       "\"++++\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 789, col: 23, offset: 25376},
+																						pos: position{line: 790, col: 23, offset: 25403},
 																						expr: &litMatcher{
-																							pos:        position{line: 789, col: 23, offset: 25376},
+																							pos:        position{line: 790, col: 23, offset: 25403},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
@@ -7802,12 +7802,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 791, col: 8, offset: 25460},
+																		pos: position{line: 792, col: 8, offset: 25487},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 91005},
+																			pos: position{line: 2877, col: 10, offset: 91032},
 																			run: (*parser).callonDocumentFragment797,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 91005},
+																				pos:        position{line: 2877, col: 10, offset: 91032},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7816,28 +7816,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91403},
+																		pos: position{line: 2899, col: 8, offset: 91430},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91176},
+																				pos: position{line: 2886, col: 12, offset: 91203},
 																				run: (*parser).callonDocumentFragment800,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91177},
+																					pos: position{line: 2886, col: 13, offset: 91204},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91177},
+																							pos:        position{line: 2886, col: 13, offset: 91204},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91184},
+																							pos:        position{line: 2886, col: 20, offset: 91211},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91193},
+																							pos:        position{line: 2886, col: 29, offset: 91220},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7846,9 +7846,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91353},
+																				pos: position{line: 2896, col: 8, offset: 91380},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91354,
+																					line: 2896, col: 9, offset: 91381,
 																				},
 																			},
 																		},
@@ -7858,56 +7858,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1017, col: 5, offset: 31501},
+														pos: position{line: 1018, col: 5, offset: 31528},
 														run: (*parser).callonDocumentFragment807,
 													},
 													&labeledExpr{
-														pos:   position{line: 1020, col: 5, offset: 31593},
+														pos:   position{line: 1021, col: 5, offset: 31620},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1035, col: 5, offset: 32023},
+															pos: position{line: 1036, col: 5, offset: 32050},
 															expr: &actionExpr{
-																pos: position{line: 1035, col: 6, offset: 32024},
+																pos: position{line: 1036, col: 6, offset: 32051},
 																run: (*parser).callonDocumentFragment810,
 																expr: &seqExpr{
-																	pos: position{line: 1035, col: 6, offset: 32024},
+																	pos: position{line: 1036, col: 6, offset: 32051},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1035, col: 6, offset: 32024},
+																			pos: position{line: 1036, col: 6, offset: 32051},
 																			expr: &choiceExpr{
-																				pos: position{line: 1028, col: 5, offset: 31857},
+																				pos: position{line: 1029, col: 5, offset: 31884},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1028, col: 5, offset: 31857},
+																						pos: position{line: 1029, col: 5, offset: 31884},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1028, col: 5, offset: 31857},
+																								pos:   position{line: 1029, col: 5, offset: 31884},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 789, col: 5, offset: 25358},
+																									pos: position{line: 790, col: 5, offset: 25385},
 																									run: (*parser).callonDocumentFragment816,
 																									expr: &seqExpr{
-																										pos: position{line: 789, col: 5, offset: 25358},
+																										pos: position{line: 790, col: 5, offset: 25385},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 789, col: 5, offset: 25358},
+																												pos:   position{line: 790, col: 5, offset: 25385},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 789, col: 16, offset: 25369},
+																													pos: position{line: 790, col: 16, offset: 25396},
 																													run: (*parser).callonDocumentFragment819,
 																													expr: &seqExpr{
-																														pos: position{line: 789, col: 16, offset: 25369},
+																														pos: position{line: 790, col: 16, offset: 25396},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 789, col: 16, offset: 25369},
+																																pos:        position{line: 790, col: 16, offset: 25396},
 																																val:        "++++",
 																																ignoreCase: false,
 																																want:       "\"++++\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 789, col: 23, offset: 25376},
+																																pos: position{line: 790, col: 23, offset: 25403},
 																																expr: &litMatcher{
-																																	pos:        position{line: 789, col: 23, offset: 25376},
+																																	pos:        position{line: 790, col: 23, offset: 25403},
 																																	val:        "+",
 																																	ignoreCase: false,
 																																	want:       "\"+\"",
@@ -7918,12 +7918,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 791, col: 8, offset: 25460},
+																												pos: position{line: 792, col: 8, offset: 25487},
 																												expr: &actionExpr{
-																													pos: position{line: 2876, col: 10, offset: 91005},
+																													pos: position{line: 2877, col: 10, offset: 91032},
 																													run: (*parser).callonDocumentFragment825,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2876, col: 10, offset: 91005},
+																														pos:        position{line: 2877, col: 10, offset: 91032},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7932,28 +7932,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2898, col: 8, offset: 91403},
+																												pos: position{line: 2899, col: 8, offset: 91430},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2885, col: 12, offset: 91176},
+																														pos: position{line: 2886, col: 12, offset: 91203},
 																														run: (*parser).callonDocumentFragment828,
 																														expr: &choiceExpr{
-																															pos: position{line: 2885, col: 13, offset: 91177},
+																															pos: position{line: 2886, col: 13, offset: 91204},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 13, offset: 91177},
+																																	pos:        position{line: 2886, col: 13, offset: 91204},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 20, offset: 91184},
+																																	pos:        position{line: 2886, col: 20, offset: 91211},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 29, offset: 91193},
+																																	pos:        position{line: 2886, col: 29, offset: 91220},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7962,9 +7962,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2895, col: 8, offset: 91353},
+																														pos: position{line: 2896, col: 8, offset: 91380},
 																														expr: &anyMatcher{
-																															line: 2895, col: 9, offset: 91354,
+																															line: 2896, col: 9, offset: 91381,
 																														},
 																													},
 																												},
@@ -7974,45 +7974,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1029, col: 5, offset: 31892},
+																								pos: position{line: 1030, col: 5, offset: 31919},
 																								run: (*parser).callonDocumentFragment835,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91353},
+																						pos: position{line: 2896, col: 8, offset: 91380},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91354,
+																							line: 2896, col: 9, offset: 91381,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1036, col: 5, offset: 32058},
+																			pos:   position{line: 1037, col: 5, offset: 32085},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 810, col: 5, offset: 26102},
+																				pos: position{line: 811, col: 5, offset: 26129},
 																				run: (*parser).callonDocumentFragment839,
 																				expr: &seqExpr{
-																					pos: position{line: 810, col: 5, offset: 26102},
+																					pos: position{line: 811, col: 5, offset: 26129},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2893, col: 11, offset: 91339},
+																							pos: position{line: 2894, col: 11, offset: 91366},
 																							expr: &anyMatcher{
-																								line: 2893, col: 13, offset: 91341,
+																								line: 2894, col: 13, offset: 91368,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 811, col: 5, offset: 26177},
+																							pos:   position{line: 812, col: 5, offset: 26204},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2822, col: 13, offset: 89531},
+																								pos: position{line: 2823, col: 13, offset: 89558},
 																								run: (*parser).callonDocumentFragment844,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2822, col: 13, offset: 89531},
+																									pos: position{line: 2823, col: 13, offset: 89558},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2822, col: 13, offset: 89531},
+																										pos:        position{line: 2823, col: 13, offset: 89558},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8022,28 +8022,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91403},
+																							pos: position{line: 2899, col: 8, offset: 91430},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91176},
+																									pos: position{line: 2886, col: 12, offset: 91203},
 																									run: (*parser).callonDocumentFragment848,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91177},
+																										pos: position{line: 2886, col: 13, offset: 91204},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91177},
+																												pos:        position{line: 2886, col: 13, offset: 91204},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91184},
+																												pos:        position{line: 2886, col: 20, offset: 91211},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91193},
+																												pos:        position{line: 2886, col: 29, offset: 91220},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8052,9 +8052,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91353},
+																									pos: position{line: 2896, col: 8, offset: 91380},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91354,
+																										line: 2896, col: 9, offset: 91381,
 																									},
 																								},
 																							},
@@ -8069,44 +8069,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1021, col: 5, offset: 31631},
+														pos:   position{line: 1022, col: 5, offset: 31658},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1021, col: 9, offset: 31635},
+															pos: position{line: 1022, col: 9, offset: 31662},
 															expr: &choiceExpr{
-																pos: position{line: 1028, col: 5, offset: 31857},
+																pos: position{line: 1029, col: 5, offset: 31884},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1028, col: 5, offset: 31857},
+																		pos: position{line: 1029, col: 5, offset: 31884},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1028, col: 5, offset: 31857},
+																				pos:   position{line: 1029, col: 5, offset: 31884},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 789, col: 5, offset: 25358},
+																					pos: position{line: 790, col: 5, offset: 25385},
 																					run: (*parser).callonDocumentFragment860,
 																					expr: &seqExpr{
-																						pos: position{line: 789, col: 5, offset: 25358},
+																						pos: position{line: 790, col: 5, offset: 25385},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 789, col: 5, offset: 25358},
+																								pos:   position{line: 790, col: 5, offset: 25385},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 789, col: 16, offset: 25369},
+																									pos: position{line: 790, col: 16, offset: 25396},
 																									run: (*parser).callonDocumentFragment863,
 																									expr: &seqExpr{
-																										pos: position{line: 789, col: 16, offset: 25369},
+																										pos: position{line: 790, col: 16, offset: 25396},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 789, col: 16, offset: 25369},
+																												pos:        position{line: 790, col: 16, offset: 25396},
 																												val:        "++++",
 																												ignoreCase: false,
 																												want:       "\"++++\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 789, col: 23, offset: 25376},
+																												pos: position{line: 790, col: 23, offset: 25403},
 																												expr: &litMatcher{
-																													pos:        position{line: 789, col: 23, offset: 25376},
+																													pos:        position{line: 790, col: 23, offset: 25403},
 																													val:        "+",
 																													ignoreCase: false,
 																													want:       "\"+\"",
@@ -8117,12 +8117,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 791, col: 8, offset: 25460},
+																								pos: position{line: 792, col: 8, offset: 25487},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 91005},
+																									pos: position{line: 2877, col: 10, offset: 91032},
 																									run: (*parser).callonDocumentFragment869,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 91005},
+																										pos:        position{line: 2877, col: 10, offset: 91032},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8131,28 +8131,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2898, col: 8, offset: 91403},
+																								pos: position{line: 2899, col: 8, offset: 91430},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2885, col: 12, offset: 91176},
+																										pos: position{line: 2886, col: 12, offset: 91203},
 																										run: (*parser).callonDocumentFragment872,
 																										expr: &choiceExpr{
-																											pos: position{line: 2885, col: 13, offset: 91177},
+																											pos: position{line: 2886, col: 13, offset: 91204},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 13, offset: 91177},
+																													pos:        position{line: 2886, col: 13, offset: 91204},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 20, offset: 91184},
+																													pos:        position{line: 2886, col: 20, offset: 91211},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 29, offset: 91193},
+																													pos:        position{line: 2886, col: 29, offset: 91220},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8161,9 +8161,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2895, col: 8, offset: 91353},
+																										pos: position{line: 2896, col: 8, offset: 91380},
 																										expr: &anyMatcher{
-																											line: 2895, col: 9, offset: 91354,
+																											line: 2896, col: 9, offset: 91381,
 																										},
 																									},
 																								},
@@ -8173,15 +8173,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1029, col: 5, offset: 31892},
+																				pos: position{line: 1030, col: 5, offset: 31919},
 																				run: (*parser).callonDocumentFragment879,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91353},
+																		pos: position{line: 2896, col: 8, offset: 91380},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91354,
+																			line: 2896, col: 9, offset: 91381,
 																		},
 																	},
 																},
@@ -8192,39 +8192,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1044, col: 5, offset: 32209},
+											pos: position{line: 1045, col: 5, offset: 32236},
 											run: (*parser).callonDocumentFragment882,
 											expr: &seqExpr{
-												pos: position{line: 1044, col: 5, offset: 32209},
+												pos: position{line: 1045, col: 5, offset: 32236},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1044, col: 5, offset: 32209},
+														pos:   position{line: 1045, col: 5, offset: 32236},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 796, col: 5, offset: 25608},
+															pos: position{line: 797, col: 5, offset: 25635},
 															run: (*parser).callonDocumentFragment885,
 															expr: &seqExpr{
-																pos: position{line: 796, col: 5, offset: 25608},
+																pos: position{line: 797, col: 5, offset: 25635},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 796, col: 5, offset: 25608},
+																		pos:   position{line: 797, col: 5, offset: 25635},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 796, col: 16, offset: 25619},
+																			pos: position{line: 797, col: 16, offset: 25646},
 																			run: (*parser).callonDocumentFragment888,
 																			expr: &seqExpr{
-																				pos: position{line: 796, col: 16, offset: 25619},
+																				pos: position{line: 797, col: 16, offset: 25646},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 796, col: 16, offset: 25619},
+																						pos:        position{line: 797, col: 16, offset: 25646},
 																						val:        "____",
 																						ignoreCase: false,
 																						want:       "\"____\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 796, col: 23, offset: 25626},
+																						pos: position{line: 797, col: 23, offset: 25653},
 																						expr: &litMatcher{
-																							pos:        position{line: 796, col: 23, offset: 25626},
+																							pos:        position{line: 797, col: 23, offset: 25653},
 																							val:        "_",
 																							ignoreCase: false,
 																							want:       "\"_\"",
@@ -8235,12 +8235,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 798, col: 8, offset: 25710},
+																		pos: position{line: 799, col: 8, offset: 25737},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 91005},
+																			pos: position{line: 2877, col: 10, offset: 91032},
 																			run: (*parser).callonDocumentFragment894,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 91005},
+																				pos:        position{line: 2877, col: 10, offset: 91032},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8249,28 +8249,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91403},
+																		pos: position{line: 2899, col: 8, offset: 91430},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91176},
+																				pos: position{line: 2886, col: 12, offset: 91203},
 																				run: (*parser).callonDocumentFragment897,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91177},
+																					pos: position{line: 2886, col: 13, offset: 91204},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91177},
+																							pos:        position{line: 2886, col: 13, offset: 91204},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91184},
+																							pos:        position{line: 2886, col: 20, offset: 91211},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91193},
+																							pos:        position{line: 2886, col: 29, offset: 91220},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8279,9 +8279,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91353},
+																				pos: position{line: 2896, col: 8, offset: 91380},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91354,
+																					line: 2896, col: 9, offset: 91381,
 																				},
 																			},
 																		},
@@ -8291,56 +8291,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1045, col: 5, offset: 32246},
+														pos: position{line: 1046, col: 5, offset: 32273},
 														run: (*parser).callonDocumentFragment904,
 													},
 													&labeledExpr{
-														pos:   position{line: 1048, col: 5, offset: 32338},
+														pos:   position{line: 1049, col: 5, offset: 32365},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1063, col: 4, offset: 32719},
+															pos: position{line: 1064, col: 4, offset: 32746},
 															expr: &actionExpr{
-																pos: position{line: 1063, col: 5, offset: 32720},
+																pos: position{line: 1064, col: 5, offset: 32747},
 																run: (*parser).callonDocumentFragment907,
 																expr: &seqExpr{
-																	pos: position{line: 1063, col: 5, offset: 32720},
+																	pos: position{line: 1064, col: 5, offset: 32747},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1063, col: 5, offset: 32720},
+																			pos: position{line: 1064, col: 5, offset: 32747},
 																			expr: &choiceExpr{
-																				pos: position{line: 1056, col: 5, offset: 32566},
+																				pos: position{line: 1057, col: 5, offset: 32593},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1056, col: 5, offset: 32566},
+																						pos: position{line: 1057, col: 5, offset: 32593},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1056, col: 5, offset: 32566},
+																								pos:   position{line: 1057, col: 5, offset: 32593},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 796, col: 5, offset: 25608},
+																									pos: position{line: 797, col: 5, offset: 25635},
 																									run: (*parser).callonDocumentFragment913,
 																									expr: &seqExpr{
-																										pos: position{line: 796, col: 5, offset: 25608},
+																										pos: position{line: 797, col: 5, offset: 25635},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 796, col: 5, offset: 25608},
+																												pos:   position{line: 797, col: 5, offset: 25635},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 796, col: 16, offset: 25619},
+																													pos: position{line: 797, col: 16, offset: 25646},
 																													run: (*parser).callonDocumentFragment916,
 																													expr: &seqExpr{
-																														pos: position{line: 796, col: 16, offset: 25619},
+																														pos: position{line: 797, col: 16, offset: 25646},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 796, col: 16, offset: 25619},
+																																pos:        position{line: 797, col: 16, offset: 25646},
 																																val:        "____",
 																																ignoreCase: false,
 																																want:       "\"____\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 796, col: 23, offset: 25626},
+																																pos: position{line: 797, col: 23, offset: 25653},
 																																expr: &litMatcher{
-																																	pos:        position{line: 796, col: 23, offset: 25626},
+																																	pos:        position{line: 797, col: 23, offset: 25653},
 																																	val:        "_",
 																																	ignoreCase: false,
 																																	want:       "\"_\"",
@@ -8351,12 +8351,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 798, col: 8, offset: 25710},
+																												pos: position{line: 799, col: 8, offset: 25737},
 																												expr: &actionExpr{
-																													pos: position{line: 2876, col: 10, offset: 91005},
+																													pos: position{line: 2877, col: 10, offset: 91032},
 																													run: (*parser).callonDocumentFragment922,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2876, col: 10, offset: 91005},
+																														pos:        position{line: 2877, col: 10, offset: 91032},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8365,28 +8365,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2898, col: 8, offset: 91403},
+																												pos: position{line: 2899, col: 8, offset: 91430},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2885, col: 12, offset: 91176},
+																														pos: position{line: 2886, col: 12, offset: 91203},
 																														run: (*parser).callonDocumentFragment925,
 																														expr: &choiceExpr{
-																															pos: position{line: 2885, col: 13, offset: 91177},
+																															pos: position{line: 2886, col: 13, offset: 91204},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 13, offset: 91177},
+																																	pos:        position{line: 2886, col: 13, offset: 91204},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 20, offset: 91184},
+																																	pos:        position{line: 2886, col: 20, offset: 91211},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 29, offset: 91193},
+																																	pos:        position{line: 2886, col: 29, offset: 91220},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8395,9 +8395,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2895, col: 8, offset: 91353},
+																														pos: position{line: 2896, col: 8, offset: 91380},
 																														expr: &anyMatcher{
-																															line: 2895, col: 9, offset: 91354,
+																															line: 2896, col: 9, offset: 91381,
 																														},
 																													},
 																												},
@@ -8407,45 +8407,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1057, col: 5, offset: 32595},
+																								pos: position{line: 1058, col: 5, offset: 32622},
 																								run: (*parser).callonDocumentFragment932,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91353},
+																						pos: position{line: 2896, col: 8, offset: 91380},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91354,
+																							line: 2896, col: 9, offset: 91381,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1064, col: 5, offset: 32748},
+																			pos:   position{line: 1065, col: 5, offset: 32775},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 810, col: 5, offset: 26102},
+																				pos: position{line: 811, col: 5, offset: 26129},
 																				run: (*parser).callonDocumentFragment936,
 																				expr: &seqExpr{
-																					pos: position{line: 810, col: 5, offset: 26102},
+																					pos: position{line: 811, col: 5, offset: 26129},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2893, col: 11, offset: 91339},
+																							pos: position{line: 2894, col: 11, offset: 91366},
 																							expr: &anyMatcher{
-																								line: 2893, col: 13, offset: 91341,
+																								line: 2894, col: 13, offset: 91368,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 811, col: 5, offset: 26177},
+																							pos:   position{line: 812, col: 5, offset: 26204},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2822, col: 13, offset: 89531},
+																								pos: position{line: 2823, col: 13, offset: 89558},
 																								run: (*parser).callonDocumentFragment941,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2822, col: 13, offset: 89531},
+																									pos: position{line: 2823, col: 13, offset: 89558},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2822, col: 13, offset: 89531},
+																										pos:        position{line: 2823, col: 13, offset: 89558},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8455,28 +8455,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91403},
+																							pos: position{line: 2899, col: 8, offset: 91430},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91176},
+																									pos: position{line: 2886, col: 12, offset: 91203},
 																									run: (*parser).callonDocumentFragment945,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91177},
+																										pos: position{line: 2886, col: 13, offset: 91204},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91177},
+																												pos:        position{line: 2886, col: 13, offset: 91204},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91184},
+																												pos:        position{line: 2886, col: 20, offset: 91211},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91193},
+																												pos:        position{line: 2886, col: 29, offset: 91220},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8485,9 +8485,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91353},
+																									pos: position{line: 2896, col: 8, offset: 91380},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91354,
+																										line: 2896, col: 9, offset: 91381,
 																									},
 																								},
 																							},
@@ -8502,44 +8502,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1049, col: 5, offset: 32370},
+														pos:   position{line: 1050, col: 5, offset: 32397},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1049, col: 9, offset: 32374},
+															pos: position{line: 1050, col: 9, offset: 32401},
 															expr: &choiceExpr{
-																pos: position{line: 1056, col: 5, offset: 32566},
+																pos: position{line: 1057, col: 5, offset: 32593},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1056, col: 5, offset: 32566},
+																		pos: position{line: 1057, col: 5, offset: 32593},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1056, col: 5, offset: 32566},
+																				pos:   position{line: 1057, col: 5, offset: 32593},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 796, col: 5, offset: 25608},
+																					pos: position{line: 797, col: 5, offset: 25635},
 																					run: (*parser).callonDocumentFragment957,
 																					expr: &seqExpr{
-																						pos: position{line: 796, col: 5, offset: 25608},
+																						pos: position{line: 797, col: 5, offset: 25635},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 796, col: 5, offset: 25608},
+																								pos:   position{line: 797, col: 5, offset: 25635},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 796, col: 16, offset: 25619},
+																									pos: position{line: 797, col: 16, offset: 25646},
 																									run: (*parser).callonDocumentFragment960,
 																									expr: &seqExpr{
-																										pos: position{line: 796, col: 16, offset: 25619},
+																										pos: position{line: 797, col: 16, offset: 25646},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 796, col: 16, offset: 25619},
+																												pos:        position{line: 797, col: 16, offset: 25646},
 																												val:        "____",
 																												ignoreCase: false,
 																												want:       "\"____\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 796, col: 23, offset: 25626},
+																												pos: position{line: 797, col: 23, offset: 25653},
 																												expr: &litMatcher{
-																													pos:        position{line: 796, col: 23, offset: 25626},
+																													pos:        position{line: 797, col: 23, offset: 25653},
 																													val:        "_",
 																													ignoreCase: false,
 																													want:       "\"_\"",
@@ -8550,12 +8550,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 798, col: 8, offset: 25710},
+																								pos: position{line: 799, col: 8, offset: 25737},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 91005},
+																									pos: position{line: 2877, col: 10, offset: 91032},
 																									run: (*parser).callonDocumentFragment966,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 91005},
+																										pos:        position{line: 2877, col: 10, offset: 91032},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8564,28 +8564,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2898, col: 8, offset: 91403},
+																								pos: position{line: 2899, col: 8, offset: 91430},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2885, col: 12, offset: 91176},
+																										pos: position{line: 2886, col: 12, offset: 91203},
 																										run: (*parser).callonDocumentFragment969,
 																										expr: &choiceExpr{
-																											pos: position{line: 2885, col: 13, offset: 91177},
+																											pos: position{line: 2886, col: 13, offset: 91204},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 13, offset: 91177},
+																													pos:        position{line: 2886, col: 13, offset: 91204},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 20, offset: 91184},
+																													pos:        position{line: 2886, col: 20, offset: 91211},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 29, offset: 91193},
+																													pos:        position{line: 2886, col: 29, offset: 91220},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8594,9 +8594,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2895, col: 8, offset: 91353},
+																										pos: position{line: 2896, col: 8, offset: 91380},
 																										expr: &anyMatcher{
-																											line: 2895, col: 9, offset: 91354,
+																											line: 2896, col: 9, offset: 91381,
 																										},
 																									},
 																								},
@@ -8606,15 +8606,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1057, col: 5, offset: 32595},
+																				pos: position{line: 1058, col: 5, offset: 32622},
 																				run: (*parser).callonDocumentFragment976,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91353},
+																		pos: position{line: 2896, col: 8, offset: 91380},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91354,
+																			line: 2896, col: 9, offset: 91381,
 																		},
 																	},
 																},
@@ -8625,39 +8625,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1072, col: 5, offset: 32903},
+											pos: position{line: 1073, col: 5, offset: 32930},
 											run: (*parser).callonDocumentFragment979,
 											expr: &seqExpr{
-												pos: position{line: 1072, col: 5, offset: 32903},
+												pos: position{line: 1073, col: 5, offset: 32930},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1072, col: 5, offset: 32903},
+														pos:   position{line: 1073, col: 5, offset: 32930},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 803, col: 5, offset: 25854},
+															pos: position{line: 804, col: 5, offset: 25881},
 															run: (*parser).callonDocumentFragment982,
 															expr: &seqExpr{
-																pos: position{line: 803, col: 5, offset: 25854},
+																pos: position{line: 804, col: 5, offset: 25881},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 803, col: 5, offset: 25854},
+																		pos:   position{line: 804, col: 5, offset: 25881},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 803, col: 16, offset: 25865},
+																			pos: position{line: 804, col: 16, offset: 25892},
 																			run: (*parser).callonDocumentFragment985,
 																			expr: &seqExpr{
-																				pos: position{line: 803, col: 16, offset: 25865},
+																				pos: position{line: 804, col: 16, offset: 25892},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 803, col: 16, offset: 25865},
+																						pos:        position{line: 804, col: 16, offset: 25892},
 																						val:        "****",
 																						ignoreCase: false,
 																						want:       "\"****\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 803, col: 23, offset: 25872},
+																						pos: position{line: 804, col: 23, offset: 25899},
 																						expr: &litMatcher{
-																							pos:        position{line: 803, col: 23, offset: 25872},
+																							pos:        position{line: 804, col: 23, offset: 25899},
 																							val:        "*",
 																							ignoreCase: false,
 																							want:       "\"*\"",
@@ -8668,12 +8668,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 805, col: 8, offset: 25956},
+																		pos: position{line: 806, col: 8, offset: 25983},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 91005},
+																			pos: position{line: 2877, col: 10, offset: 91032},
 																			run: (*parser).callonDocumentFragment991,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 91005},
+																				pos:        position{line: 2877, col: 10, offset: 91032},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8682,28 +8682,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91403},
+																		pos: position{line: 2899, col: 8, offset: 91430},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91176},
+																				pos: position{line: 2886, col: 12, offset: 91203},
 																				run: (*parser).callonDocumentFragment994,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91177},
+																					pos: position{line: 2886, col: 13, offset: 91204},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91177},
+																							pos:        position{line: 2886, col: 13, offset: 91204},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91184},
+																							pos:        position{line: 2886, col: 20, offset: 91211},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91193},
+																							pos:        position{line: 2886, col: 29, offset: 91220},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8712,9 +8712,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91353},
+																				pos: position{line: 2896, col: 8, offset: 91380},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91354,
+																					line: 2896, col: 9, offset: 91381,
 																				},
 																			},
 																		},
@@ -8724,56 +8724,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1073, col: 5, offset: 32942},
+														pos: position{line: 1074, col: 5, offset: 32969},
 														run: (*parser).callonDocumentFragment1001,
 													},
 													&labeledExpr{
-														pos:   position{line: 1076, col: 5, offset: 33034},
+														pos:   position{line: 1077, col: 5, offset: 33061},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1091, col: 4, offset: 33431},
+															pos: position{line: 1092, col: 4, offset: 33458},
 															expr: &actionExpr{
-																pos: position{line: 1091, col: 5, offset: 33432},
+																pos: position{line: 1092, col: 5, offset: 33459},
 																run: (*parser).callonDocumentFragment1004,
 																expr: &seqExpr{
-																	pos: position{line: 1091, col: 5, offset: 33432},
+																	pos: position{line: 1092, col: 5, offset: 33459},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1091, col: 5, offset: 33432},
+																			pos: position{line: 1092, col: 5, offset: 33459},
 																			expr: &choiceExpr{
-																				pos: position{line: 1084, col: 5, offset: 33274},
+																				pos: position{line: 1085, col: 5, offset: 33301},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1084, col: 5, offset: 33274},
+																						pos: position{line: 1085, col: 5, offset: 33301},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1084, col: 5, offset: 33274},
+																								pos:   position{line: 1085, col: 5, offset: 33301},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 803, col: 5, offset: 25854},
+																									pos: position{line: 804, col: 5, offset: 25881},
 																									run: (*parser).callonDocumentFragment1010,
 																									expr: &seqExpr{
-																										pos: position{line: 803, col: 5, offset: 25854},
+																										pos: position{line: 804, col: 5, offset: 25881},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 803, col: 5, offset: 25854},
+																												pos:   position{line: 804, col: 5, offset: 25881},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 803, col: 16, offset: 25865},
+																													pos: position{line: 804, col: 16, offset: 25892},
 																													run: (*parser).callonDocumentFragment1013,
 																													expr: &seqExpr{
-																														pos: position{line: 803, col: 16, offset: 25865},
+																														pos: position{line: 804, col: 16, offset: 25892},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 803, col: 16, offset: 25865},
+																																pos:        position{line: 804, col: 16, offset: 25892},
 																																val:        "****",
 																																ignoreCase: false,
 																																want:       "\"****\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 803, col: 23, offset: 25872},
+																																pos: position{line: 804, col: 23, offset: 25899},
 																																expr: &litMatcher{
-																																	pos:        position{line: 803, col: 23, offset: 25872},
+																																	pos:        position{line: 804, col: 23, offset: 25899},
 																																	val:        "*",
 																																	ignoreCase: false,
 																																	want:       "\"*\"",
@@ -8784,12 +8784,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 805, col: 8, offset: 25956},
+																												pos: position{line: 806, col: 8, offset: 25983},
 																												expr: &actionExpr{
-																													pos: position{line: 2876, col: 10, offset: 91005},
+																													pos: position{line: 2877, col: 10, offset: 91032},
 																													run: (*parser).callonDocumentFragment1019,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2876, col: 10, offset: 91005},
+																														pos:        position{line: 2877, col: 10, offset: 91032},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8798,28 +8798,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2898, col: 8, offset: 91403},
+																												pos: position{line: 2899, col: 8, offset: 91430},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2885, col: 12, offset: 91176},
+																														pos: position{line: 2886, col: 12, offset: 91203},
 																														run: (*parser).callonDocumentFragment1022,
 																														expr: &choiceExpr{
-																															pos: position{line: 2885, col: 13, offset: 91177},
+																															pos: position{line: 2886, col: 13, offset: 91204},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 13, offset: 91177},
+																																	pos:        position{line: 2886, col: 13, offset: 91204},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 20, offset: 91184},
+																																	pos:        position{line: 2886, col: 20, offset: 91211},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 29, offset: 91193},
+																																	pos:        position{line: 2886, col: 29, offset: 91220},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8828,9 +8828,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2895, col: 8, offset: 91353},
+																														pos: position{line: 2896, col: 8, offset: 91380},
 																														expr: &anyMatcher{
-																															line: 2895, col: 9, offset: 91354,
+																															line: 2896, col: 9, offset: 91381,
 																														},
 																													},
 																												},
@@ -8840,45 +8840,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1085, col: 5, offset: 33305},
+																								pos: position{line: 1086, col: 5, offset: 33332},
 																								run: (*parser).callonDocumentFragment1029,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91353},
+																						pos: position{line: 2896, col: 8, offset: 91380},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91354,
+																							line: 2896, col: 9, offset: 91381,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1092, col: 5, offset: 33462},
+																			pos:   position{line: 1093, col: 5, offset: 33489},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 810, col: 5, offset: 26102},
+																				pos: position{line: 811, col: 5, offset: 26129},
 																				run: (*parser).callonDocumentFragment1033,
 																				expr: &seqExpr{
-																					pos: position{line: 810, col: 5, offset: 26102},
+																					pos: position{line: 811, col: 5, offset: 26129},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2893, col: 11, offset: 91339},
+																							pos: position{line: 2894, col: 11, offset: 91366},
 																							expr: &anyMatcher{
-																								line: 2893, col: 13, offset: 91341,
+																								line: 2894, col: 13, offset: 91368,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 811, col: 5, offset: 26177},
+																							pos:   position{line: 812, col: 5, offset: 26204},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2822, col: 13, offset: 89531},
+																								pos: position{line: 2823, col: 13, offset: 89558},
 																								run: (*parser).callonDocumentFragment1038,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2822, col: 13, offset: 89531},
+																									pos: position{line: 2823, col: 13, offset: 89558},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2822, col: 13, offset: 89531},
+																										pos:        position{line: 2823, col: 13, offset: 89558},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8888,28 +8888,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91403},
+																							pos: position{line: 2899, col: 8, offset: 91430},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91176},
+																									pos: position{line: 2886, col: 12, offset: 91203},
 																									run: (*parser).callonDocumentFragment1042,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91177},
+																										pos: position{line: 2886, col: 13, offset: 91204},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91177},
+																												pos:        position{line: 2886, col: 13, offset: 91204},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91184},
+																												pos:        position{line: 2886, col: 20, offset: 91211},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91193},
+																												pos:        position{line: 2886, col: 29, offset: 91220},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8918,9 +8918,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91353},
+																									pos: position{line: 2896, col: 8, offset: 91380},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91354,
+																										line: 2896, col: 9, offset: 91381,
 																									},
 																								},
 																							},
@@ -8935,44 +8935,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1077, col: 5, offset: 33068},
+														pos:   position{line: 1078, col: 5, offset: 33095},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1077, col: 9, offset: 33072},
+															pos: position{line: 1078, col: 9, offset: 33099},
 															expr: &choiceExpr{
-																pos: position{line: 1084, col: 5, offset: 33274},
+																pos: position{line: 1085, col: 5, offset: 33301},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1084, col: 5, offset: 33274},
+																		pos: position{line: 1085, col: 5, offset: 33301},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1084, col: 5, offset: 33274},
+																				pos:   position{line: 1085, col: 5, offset: 33301},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 803, col: 5, offset: 25854},
+																					pos: position{line: 804, col: 5, offset: 25881},
 																					run: (*parser).callonDocumentFragment1054,
 																					expr: &seqExpr{
-																						pos: position{line: 803, col: 5, offset: 25854},
+																						pos: position{line: 804, col: 5, offset: 25881},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 803, col: 5, offset: 25854},
+																								pos:   position{line: 804, col: 5, offset: 25881},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 803, col: 16, offset: 25865},
+																									pos: position{line: 804, col: 16, offset: 25892},
 																									run: (*parser).callonDocumentFragment1057,
 																									expr: &seqExpr{
-																										pos: position{line: 803, col: 16, offset: 25865},
+																										pos: position{line: 804, col: 16, offset: 25892},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 803, col: 16, offset: 25865},
+																												pos:        position{line: 804, col: 16, offset: 25892},
 																												val:        "****",
 																												ignoreCase: false,
 																												want:       "\"****\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 803, col: 23, offset: 25872},
+																												pos: position{line: 804, col: 23, offset: 25899},
 																												expr: &litMatcher{
-																													pos:        position{line: 803, col: 23, offset: 25872},
+																													pos:        position{line: 804, col: 23, offset: 25899},
 																													val:        "*",
 																													ignoreCase: false,
 																													want:       "\"*\"",
@@ -8983,12 +8983,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 805, col: 8, offset: 25956},
+																								pos: position{line: 806, col: 8, offset: 25983},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 91005},
+																									pos: position{line: 2877, col: 10, offset: 91032},
 																									run: (*parser).callonDocumentFragment1063,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 91005},
+																										pos:        position{line: 2877, col: 10, offset: 91032},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8997,28 +8997,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2898, col: 8, offset: 91403},
+																								pos: position{line: 2899, col: 8, offset: 91430},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2885, col: 12, offset: 91176},
+																										pos: position{line: 2886, col: 12, offset: 91203},
 																										run: (*parser).callonDocumentFragment1066,
 																										expr: &choiceExpr{
-																											pos: position{line: 2885, col: 13, offset: 91177},
+																											pos: position{line: 2886, col: 13, offset: 91204},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 13, offset: 91177},
+																													pos:        position{line: 2886, col: 13, offset: 91204},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 20, offset: 91184},
+																													pos:        position{line: 2886, col: 20, offset: 91211},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 29, offset: 91193},
+																													pos:        position{line: 2886, col: 29, offset: 91220},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -9027,9 +9027,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2895, col: 8, offset: 91353},
+																										pos: position{line: 2896, col: 8, offset: 91380},
 																										expr: &anyMatcher{
-																											line: 2895, col: 9, offset: 91354,
+																											line: 2896, col: 9, offset: 91381,
 																										},
 																									},
 																								},
@@ -9039,15 +9039,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1085, col: 5, offset: 33305},
+																				pos: position{line: 1086, col: 5, offset: 33332},
 																				run: (*parser).callonDocumentFragment1073,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91353},
+																		pos: position{line: 2896, col: 8, offset: 91380},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91354,
+																			line: 2896, col: 9, offset: 91381,
 																		},
 																	},
 																},
@@ -9058,52 +9058,52 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2721, col: 18, offset: 86579},
+											pos: position{line: 2722, col: 18, offset: 86606},
 											run: (*parser).callonDocumentFragment1076,
 											expr: &seqExpr{
-												pos: position{line: 2721, col: 18, offset: 86579},
+												pos: position{line: 2722, col: 18, offset: 86606},
 												exprs: []interface{}{
 													&choiceExpr{
-														pos: position{line: 2722, col: 9, offset: 86589},
+														pos: position{line: 2723, col: 9, offset: 86616},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2722, col: 9, offset: 86589},
+																pos:        position{line: 2723, col: 9, offset: 86616},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2723, col: 11, offset: 86625},
+																pos:        position{line: 2724, col: 11, offset: 86652},
 																val:        "***",
 																ignoreCase: false,
 																want:       "\"***\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2723, col: 19, offset: 86633},
+																pos:        position{line: 2724, col: 19, offset: 86660},
 																val:        "* * *",
 																ignoreCase: false,
 																want:       "\"* * *\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2723, col: 29, offset: 86643},
+																pos:        position{line: 2724, col: 29, offset: 86670},
 																val:        "---",
 																ignoreCase: false,
 																want:       "\"---\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2723, col: 37, offset: 86651},
+																pos:        position{line: 2724, col: 37, offset: 86678},
 																val:        "- - -",
 																ignoreCase: false,
 																want:       "\"- - -\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2723, col: 47, offset: 86661},
+																pos:        position{line: 2724, col: 47, offset: 86688},
 																val:        "___",
 																ignoreCase: false,
 																want:       "\"___\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2723, col: 55, offset: 86669},
+																pos:        position{line: 2724, col: 55, offset: 86696},
 																val:        "_ _ _",
 																ignoreCase: false,
 																want:       "\"_ _ _\"",
@@ -9111,12 +9111,12 @@ var g = &grammar{
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2724, col: 11, offset: 86715},
+														pos: position{line: 2725, col: 11, offset: 86742},
 														expr: &actionExpr{
-															pos: position{line: 2876, col: 10, offset: 91005},
+															pos: position{line: 2877, col: 10, offset: 91032},
 															run: (*parser).callonDocumentFragment1087,
 															expr: &charClassMatcher{
-																pos:        position{line: 2876, col: 10, offset: 91005},
+																pos:        position{line: 2877, col: 10, offset: 91032},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9125,28 +9125,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2898, col: 8, offset: 91403},
+														pos: position{line: 2899, col: 8, offset: 91430},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2885, col: 12, offset: 91176},
+																pos: position{line: 2886, col: 12, offset: 91203},
 																run: (*parser).callonDocumentFragment1090,
 																expr: &choiceExpr{
-																	pos: position{line: 2885, col: 13, offset: 91177},
+																	pos: position{line: 2886, col: 13, offset: 91204},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 13, offset: 91177},
+																			pos:        position{line: 2886, col: 13, offset: 91204},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 20, offset: 91184},
+																			pos:        position{line: 2886, col: 20, offset: 91211},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 29, offset: 91193},
+																			pos:        position{line: 2886, col: 29, offset: 91220},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9155,20 +9155,20 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91353},
+																pos: position{line: 2896, col: 8, offset: 91380},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91354,
+																	line: 2896, col: 9, offset: 91381,
 																},
 															},
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2724, col: 22, offset: 86726},
+														pos: position{line: 2725, col: 22, offset: 86753},
 														expr: &actionExpr{
-															pos: position{line: 2876, col: 10, offset: 91005},
+															pos: position{line: 2877, col: 10, offset: 91032},
 															run: (*parser).callonDocumentFragment1098,
 															expr: &charClassMatcher{
-																pos:        position{line: 2876, col: 10, offset: 91005},
+																pos:        position{line: 2877, col: 10, offset: 91032},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9177,28 +9177,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2898, col: 8, offset: 91403},
+														pos: position{line: 2899, col: 8, offset: 91430},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2885, col: 12, offset: 91176},
+																pos: position{line: 2886, col: 12, offset: 91203},
 																run: (*parser).callonDocumentFragment1101,
 																expr: &choiceExpr{
-																	pos: position{line: 2885, col: 13, offset: 91177},
+																	pos: position{line: 2886, col: 13, offset: 91204},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 13, offset: 91177},
+																			pos:        position{line: 2886, col: 13, offset: 91204},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 20, offset: 91184},
+																			pos:        position{line: 2886, col: 20, offset: 91211},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 29, offset: 91193},
+																			pos:        position{line: 2886, col: 29, offset: 91220},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9207,9 +9207,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91353},
+																pos: position{line: 2896, col: 8, offset: 91380},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91354,
+																	line: 2896, col: 9, offset: 91381,
 																},
 															},
 														},
@@ -9222,24 +9222,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2612, col: 5, offset: 83515},
+											pos: position{line: 2613, col: 5, offset: 83542},
 											run: (*parser).callonDocumentFragment1109,
 											expr: &seqExpr{
-												pos: position{line: 2612, col: 5, offset: 83515},
+												pos: position{line: 2613, col: 5, offset: 83542},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2618, col: 19, offset: 83672},
+														pos:        position{line: 2619, col: 19, offset: 83699},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2618, col: 26, offset: 83679},
+														pos: position{line: 2619, col: 26, offset: 83706},
 														expr: &actionExpr{
-															pos: position{line: 2876, col: 10, offset: 91005},
+															pos: position{line: 2877, col: 10, offset: 91032},
 															run: (*parser).callonDocumentFragment1113,
 															expr: &charClassMatcher{
-																pos:        position{line: 2876, col: 10, offset: 91005},
+																pos:        position{line: 2877, col: 10, offset: 91032},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9248,28 +9248,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2898, col: 8, offset: 91403},
+														pos: position{line: 2899, col: 8, offset: 91430},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2885, col: 12, offset: 91176},
+																pos: position{line: 2886, col: 12, offset: 91203},
 																run: (*parser).callonDocumentFragment1116,
 																expr: &choiceExpr{
-																	pos: position{line: 2885, col: 13, offset: 91177},
+																	pos: position{line: 2886, col: 13, offset: 91204},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 13, offset: 91177},
+																			pos:        position{line: 2886, col: 13, offset: 91204},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 20, offset: 91184},
+																			pos:        position{line: 2886, col: 20, offset: 91211},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 29, offset: 91193},
+																			pos:        position{line: 2886, col: 29, offset: 91220},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9278,40 +9278,40 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91353},
+																pos: position{line: 2896, col: 8, offset: 91380},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91354,
+																	line: 2896, col: 9, offset: 91381,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2613, col: 5, offset: 83539},
+														pos:   position{line: 2614, col: 5, offset: 83566},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2613, col: 11, offset: 83545},
+															pos: position{line: 2614, col: 11, offset: 83572},
 															expr: &choiceExpr{
-																pos: position{line: 2613, col: 12, offset: 83546},
+																pos: position{line: 2614, col: 12, offset: 83573},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 676, col: 14, offset: 21498},
+																		pos: position{line: 677, col: 14, offset: 21525},
 																		run: (*parser).callonDocumentFragment1126,
 																		expr: &seqExpr{
-																			pos: position{line: 676, col: 14, offset: 21498},
+																			pos: position{line: 677, col: 14, offset: 21525},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2893, col: 11, offset: 91339},
+																					pos: position{line: 2894, col: 11, offset: 91366},
 																					expr: &anyMatcher{
-																						line: 2893, col: 13, offset: 91341,
+																						line: 2894, col: 13, offset: 91368,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 676, col: 21, offset: 21505},
+																					pos: position{line: 677, col: 21, offset: 21532},
 																					expr: &actionExpr{
-																						pos: position{line: 2876, col: 10, offset: 91005},
+																						pos: position{line: 2877, col: 10, offset: 91032},
 																						run: (*parser).callonDocumentFragment1131,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2876, col: 10, offset: 91005},
+																							pos:        position{line: 2877, col: 10, offset: 91032},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9320,28 +9320,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2898, col: 8, offset: 91403},
+																					pos: position{line: 2899, col: 8, offset: 91430},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2885, col: 12, offset: 91176},
+																							pos: position{line: 2886, col: 12, offset: 91203},
 																							run: (*parser).callonDocumentFragment1134,
 																							expr: &choiceExpr{
-																								pos: position{line: 2885, col: 13, offset: 91177},
+																								pos: position{line: 2886, col: 13, offset: 91204},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 13, offset: 91177},
+																										pos:        position{line: 2886, col: 13, offset: 91204},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 20, offset: 91184},
+																										pos:        position{line: 2886, col: 20, offset: 91211},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 29, offset: 91193},
+																										pos:        position{line: 2886, col: 29, offset: 91220},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9350,9 +9350,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2895, col: 8, offset: 91353},
+																							pos: position{line: 2896, col: 8, offset: 91380},
 																							expr: &anyMatcher{
-																								line: 2895, col: 9, offset: 91354,
+																								line: 2896, col: 9, offset: 91381,
 																							},
 																						},
 																					},
@@ -9361,32 +9361,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2625, col: 5, offset: 83791},
+																		pos: position{line: 2626, col: 5, offset: 83818},
 																		run: (*parser).callonDocumentFragment1141,
 																		expr: &seqExpr{
-																			pos: position{line: 2625, col: 5, offset: 83791},
+																			pos: position{line: 2626, col: 5, offset: 83818},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2625, col: 5, offset: 83791},
+																					pos: position{line: 2626, col: 5, offset: 83818},
 																					expr: &choiceExpr{
-																						pos: position{line: 2622, col: 22, offset: 83752},
+																						pos: position{line: 2623, col: 22, offset: 83779},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2618, col: 19, offset: 83672},
+																								pos: position{line: 2619, col: 19, offset: 83699},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2618, col: 19, offset: 83672},
+																										pos:        position{line: 2619, col: 19, offset: 83699},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2618, col: 26, offset: 83679},
+																										pos: position{line: 2619, col: 26, offset: 83706},
 																										expr: &actionExpr{
-																											pos: position{line: 2876, col: 10, offset: 91005},
+																											pos: position{line: 2877, col: 10, offset: 91032},
 																											run: (*parser).callonDocumentFragment1148,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2876, col: 10, offset: 91005},
+																												pos:        position{line: 2877, col: 10, offset: 91032},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9395,28 +9395,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2898, col: 8, offset: 91403},
+																										pos: position{line: 2899, col: 8, offset: 91430},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2885, col: 12, offset: 91176},
+																												pos: position{line: 2886, col: 12, offset: 91203},
 																												run: (*parser).callonDocumentFragment1151,
 																												expr: &choiceExpr{
-																													pos: position{line: 2885, col: 13, offset: 91177},
+																													pos: position{line: 2886, col: 13, offset: 91204},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2885, col: 13, offset: 91177},
+																															pos:        position{line: 2886, col: 13, offset: 91204},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2885, col: 20, offset: 91184},
+																															pos:        position{line: 2886, col: 20, offset: 91211},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2885, col: 29, offset: 91193},
+																															pos:        position{line: 2886, col: 29, offset: 91220},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9425,9 +9425,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2895, col: 8, offset: 91353},
+																												pos: position{line: 2896, col: 8, offset: 91380},
 																												expr: &anyMatcher{
-																													line: 2895, col: 9, offset: 91354,
+																													line: 2896, col: 9, offset: 91381,
 																												},
 																											},
 																										},
@@ -9435,59 +9435,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91353},
+																								pos: position{line: 2896, col: 8, offset: 91380},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91354,
+																									line: 2896, col: 9, offset: 91381,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2626, col: 5, offset: 83814},
+																					pos:   position{line: 2627, col: 5, offset: 83841},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2627, col: 9, offset: 83832},
+																						pos: position{line: 2628, col: 9, offset: 83859},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2627, col: 10, offset: 83833},
+																								pos: position{line: 2628, col: 10, offset: 83860},
 																								run: (*parser).callonDocumentFragment1162,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2627, col: 10, offset: 83833},
+																									pos:   position{line: 2628, col: 10, offset: 83860},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2627, col: 17, offset: 83840},
+																										pos: position{line: 2628, col: 17, offset: 83867},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2635, col: 21, offset: 84036},
+																												pos: position{line: 2636, col: 21, offset: 84063},
 																												run: (*parser).callonDocumentFragment1165,
 																												expr: &seqExpr{
-																													pos: position{line: 2635, col: 21, offset: 84036},
+																													pos: position{line: 2636, col: 21, offset: 84063},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2635, col: 21, offset: 84036},
+																															pos:   position{line: 2636, col: 21, offset: 84063},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2635, col: 27, offset: 84042},
+																																pos: position{line: 2636, col: 27, offset: 84069},
 																																expr: &actionExpr{
-																																	pos: position{line: 2640, col: 5, offset: 84117},
+																																	pos: position{line: 2641, col: 5, offset: 84144},
 																																	run: (*parser).callonDocumentFragment1169,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2640, col: 5, offset: 84117},
+																																		pos: position{line: 2641, col: 5, offset: 84144},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2640, col: 5, offset: 84117},
+																																				pos:        position{line: 2641, col: 5, offset: 84144},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2640, col: 9, offset: 84121},
+																																				pos: position{line: 2641, col: 9, offset: 84148},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2876, col: 10, offset: 91005},
+																																					pos: position{line: 2877, col: 10, offset: 91032},
 																																					run: (*parser).callonDocumentFragment1173,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2876, col: 10, offset: 91005},
+																																						pos:        position{line: 2877, col: 10, offset: 91032},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9496,21 +9496,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2640, col: 16, offset: 84128},
+																																				pos:   position{line: 2641, col: 16, offset: 84155},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2646, col: 5, offset: 84328},
+																																					pos: position{line: 2647, col: 5, offset: 84355},
 																																					run: (*parser).callonDocumentFragment1176,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2646, col: 5, offset: 84328},
+																																						pos:   position{line: 2647, col: 5, offset: 84355},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2646, col: 14, offset: 84337},
+																																							pos: position{line: 2647, col: 14, offset: 84364},
 																																							run: (*parser).callonDocumentFragment1178,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2646, col: 14, offset: 84337},
+																																								pos: position{line: 2647, col: 14, offset: 84364},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2646, col: 14, offset: 84337},
+																																									pos:        position{line: 2647, col: 14, offset: 84364},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9527,28 +9527,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2898, col: 8, offset: 91403},
+																															pos: position{line: 2899, col: 8, offset: 91430},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2885, col: 12, offset: 91176},
+																																	pos: position{line: 2886, col: 12, offset: 91203},
 																																	run: (*parser).callonDocumentFragment1182,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2885, col: 13, offset: 91177},
+																																		pos: position{line: 2886, col: 13, offset: 91204},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2885, col: 13, offset: 91177},
+																																				pos:        position{line: 2886, col: 13, offset: 91204},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2885, col: 20, offset: 91184},
+																																				pos:        position{line: 2886, col: 20, offset: 91211},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2885, col: 29, offset: 91193},
+																																				pos:        position{line: 2886, col: 29, offset: 91220},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9557,9 +9557,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2895, col: 8, offset: 91353},
+																																	pos: position{line: 2896, col: 8, offset: 91380},
 																																	expr: &anyMatcher{
-																																		line: 2895, col: 9, offset: 91354,
+																																		line: 2896, col: 9, offset: 91381,
 																																	},
 																																},
 																															},
@@ -9568,40 +9568,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2652, col: 24, offset: 84473},
+																												pos: position{line: 2653, col: 24, offset: 84500},
 																												run: (*parser).callonDocumentFragment1189,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2652, col: 24, offset: 84473},
+																													pos:   position{line: 2653, col: 24, offset: 84500},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2652, col: 30, offset: 84479},
+																														pos: position{line: 2653, col: 30, offset: 84506},
 																														expr: &actionExpr{
-																															pos: position{line: 2657, col: 5, offset: 84555},
+																															pos: position{line: 2658, col: 5, offset: 84582},
 																															run: (*parser).callonDocumentFragment1192,
 																															expr: &seqExpr{
-																																pos: position{line: 2657, col: 5, offset: 84555},
+																																pos: position{line: 2658, col: 5, offset: 84582},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2657, col: 5, offset: 84555},
+																																		pos: position{line: 2658, col: 5, offset: 84582},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2622, col: 22, offset: 83752},
+																																			pos: position{line: 2623, col: 22, offset: 83779},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2618, col: 19, offset: 83672},
+																																					pos: position{line: 2619, col: 19, offset: 83699},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2618, col: 19, offset: 83672},
+																																							pos:        position{line: 2619, col: 19, offset: 83699},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2618, col: 26, offset: 83679},
+																																							pos: position{line: 2619, col: 26, offset: 83706},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2876, col: 10, offset: 91005},
+																																								pos: position{line: 2877, col: 10, offset: 91032},
 																																								run: (*parser).callonDocumentFragment1199,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2876, col: 10, offset: 91005},
+																																									pos:        position{line: 2877, col: 10, offset: 91032},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9610,28 +9610,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2898, col: 8, offset: 91403},
+																																							pos: position{line: 2899, col: 8, offset: 91430},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2885, col: 12, offset: 91176},
+																																									pos: position{line: 2886, col: 12, offset: 91203},
 																																									run: (*parser).callonDocumentFragment1202,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2885, col: 13, offset: 91177},
+																																										pos: position{line: 2886, col: 13, offset: 91204},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2885, col: 13, offset: 91177},
+																																												pos:        position{line: 2886, col: 13, offset: 91204},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2885, col: 20, offset: 91184},
+																																												pos:        position{line: 2886, col: 20, offset: 91211},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2885, col: 29, offset: 91193},
+																																												pos:        position{line: 2886, col: 29, offset: 91220},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9640,9 +9640,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2895, col: 8, offset: 91353},
+																																									pos: position{line: 2896, col: 8, offset: 91380},
 																																									expr: &anyMatcher{
-																																										line: 2895, col: 9, offset: 91354,
+																																										line: 2896, col: 9, offset: 91381,
 																																									},
 																																								},
 																																							},
@@ -9650,35 +9650,35 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2895, col: 8, offset: 91353},
+																																					pos: position{line: 2896, col: 8, offset: 91380},
 																																					expr: &anyMatcher{
-																																						line: 2895, col: 9, offset: 91354,
+																																						line: 2896, col: 9, offset: 91381,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2658, col: 5, offset: 84578},
+																																		pos: position{line: 2659, col: 5, offset: 84605},
 																																		expr: &actionExpr{
-																																			pos: position{line: 676, col: 14, offset: 21498},
+																																			pos: position{line: 677, col: 14, offset: 21525},
 																																			run: (*parser).callonDocumentFragment1212,
 																																			expr: &seqExpr{
-																																				pos: position{line: 676, col: 14, offset: 21498},
+																																				pos: position{line: 677, col: 14, offset: 21525},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2893, col: 11, offset: 91339},
+																																						pos: position{line: 2894, col: 11, offset: 91366},
 																																						expr: &anyMatcher{
-																																							line: 2893, col: 13, offset: 91341,
+																																							line: 2894, col: 13, offset: 91368,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 676, col: 21, offset: 21505},
+																																						pos: position{line: 677, col: 21, offset: 21532},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2876, col: 10, offset: 91005},
+																																							pos: position{line: 2877, col: 10, offset: 91032},
 																																							run: (*parser).callonDocumentFragment1217,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2876, col: 10, offset: 91005},
+																																								pos:        position{line: 2877, col: 10, offset: 91032},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9687,28 +9687,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2898, col: 8, offset: 91403},
+																																						pos: position{line: 2899, col: 8, offset: 91430},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2885, col: 12, offset: 91176},
+																																								pos: position{line: 2886, col: 12, offset: 91203},
 																																								run: (*parser).callonDocumentFragment1220,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2885, col: 13, offset: 91177},
+																																									pos: position{line: 2886, col: 13, offset: 91204},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2885, col: 13, offset: 91177},
+																																											pos:        position{line: 2886, col: 13, offset: 91204},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2885, col: 20, offset: 91184},
+																																											pos:        position{line: 2886, col: 20, offset: 91211},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2885, col: 29, offset: 91193},
+																																											pos:        position{line: 2886, col: 29, offset: 91220},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9717,9 +9717,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2895, col: 8, offset: 91353},
+																																								pos: position{line: 2896, col: 8, offset: 91380},
 																																								expr: &anyMatcher{
-																																									line: 2895, col: 9, offset: 91354,
+																																									line: 2896, col: 9, offset: 91381,
 																																								},
 																																							},
 																																						},
@@ -9729,17 +9729,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2659, col: 5, offset: 84593},
+																																		pos:   position{line: 2660, col: 5, offset: 84620},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2659, col: 12, offset: 84600},
+																																			pos: position{line: 2660, col: 12, offset: 84627},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2676, col: 20, offset: 85064},
+																																				pos: position{line: 2677, col: 20, offset: 85091},
 																																				run: (*parser).callonDocumentFragment1229,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2676, col: 20, offset: 85064},
+																																					pos: position{line: 2677, col: 20, offset: 85091},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2676, col: 20, offset: 85064},
+																																						pos:        position{line: 2677, col: 20, offset: 85091},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9750,18 +9750,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2659, col: 31, offset: 84619},
+																																		pos:        position{line: 2660, col: 31, offset: 84646},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2659, col: 35, offset: 84623},
+																																		pos: position{line: 2660, col: 35, offset: 84650},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2876, col: 10, offset: 91005},
+																																			pos: position{line: 2877, col: 10, offset: 91032},
 																																			run: (*parser).callonDocumentFragment1234,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2876, col: 10, offset: 91005},
+																																				pos:        position{line: 2877, col: 10, offset: 91032},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9770,27 +9770,27 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2659, col: 42, offset: 84630},
+																																		pos: position{line: 2660, col: 42, offset: 84657},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2885, col: 12, offset: 91176},
+																																			pos: position{line: 2886, col: 12, offset: 91203},
 																																			run: (*parser).callonDocumentFragment1237,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2885, col: 13, offset: 91177},
+																																				pos: position{line: 2886, col: 13, offset: 91204},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2885, col: 13, offset: 91177},
+																																						pos:        position{line: 2886, col: 13, offset: 91204},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2885, col: 20, offset: 91184},
+																																						pos:        position{line: 2886, col: 20, offset: 91211},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2885, col: 29, offset: 91193},
+																																						pos:        position{line: 2886, col: 29, offset: 91220},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9800,37 +9800,37 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2659, col: 51, offset: 84639},
+																																		pos:   position{line: 2660, col: 51, offset: 84666},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2665, col: 5, offset: 84798},
+																																			pos: position{line: 2666, col: 5, offset: 84825},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2666, col: 9, offset: 84808},
+																																				pos: position{line: 2667, col: 9, offset: 84835},
 																																				run: (*parser).callonDocumentFragment1244,
 																																				expr: &seqExpr{
-																																					pos: position{line: 2666, col: 9, offset: 84808},
+																																					pos: position{line: 2667, col: 9, offset: 84835},
 																																					exprs: []interface{}{
 																																						&notExpr{
-																																							pos: position{line: 2666, col: 9, offset: 84808},
+																																							pos: position{line: 2667, col: 9, offset: 84835},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2622, col: 22, offset: 83752},
+																																								pos: position{line: 2623, col: 22, offset: 83779},
 																																								alternatives: []interface{}{
 																																									&seqExpr{
-																																										pos: position{line: 2618, col: 19, offset: 83672},
+																																										pos: position{line: 2619, col: 19, offset: 83699},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2618, col: 19, offset: 83672},
+																																												pos:        position{line: 2619, col: 19, offset: 83699},
 																																												val:        "|===",
 																																												ignoreCase: false,
 																																												want:       "\"|===\"",
 																																											},
 																																											&zeroOrMoreExpr{
-																																												pos: position{line: 2618, col: 26, offset: 83679},
+																																												pos: position{line: 2619, col: 26, offset: 83706},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2876, col: 10, offset: 91005},
+																																													pos: position{line: 2877, col: 10, offset: 91032},
 																																													run: (*parser).callonDocumentFragment1251,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2876, col: 10, offset: 91005},
+																																														pos:        position{line: 2877, col: 10, offset: 91032},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -9839,28 +9839,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2898, col: 8, offset: 91403},
+																																												pos: position{line: 2899, col: 8, offset: 91430},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2885, col: 12, offset: 91176},
+																																														pos: position{line: 2886, col: 12, offset: 91203},
 																																														run: (*parser).callonDocumentFragment1254,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2885, col: 13, offset: 91177},
+																																															pos: position{line: 2886, col: 13, offset: 91204},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2885, col: 13, offset: 91177},
+																																																	pos:        position{line: 2886, col: 13, offset: 91204},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2885, col: 20, offset: 91184},
+																																																	pos:        position{line: 2886, col: 20, offset: 91211},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2885, col: 29, offset: 91193},
+																																																	pos:        position{line: 2886, col: 29, offset: 91220},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -9869,9 +9869,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2895, col: 8, offset: 91353},
+																																														pos: position{line: 2896, col: 8, offset: 91380},
 																																														expr: &anyMatcher{
-																																															line: 2895, col: 9, offset: 91354,
+																																															line: 2896, col: 9, offset: 91381,
 																																														},
 																																													},
 																																												},
@@ -9879,35 +9879,35 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2895, col: 8, offset: 91353},
+																																										pos: position{line: 2896, col: 8, offset: 91380},
 																																										expr: &anyMatcher{
-																																											line: 2895, col: 9, offset: 91354,
+																																											line: 2896, col: 9, offset: 91381,
 																																										},
 																																									},
 																																								},
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2667, col: 9, offset: 84835},
+																																							pos: position{line: 2668, col: 9, offset: 84862},
 																																							expr: &actionExpr{
-																																								pos: position{line: 676, col: 14, offset: 21498},
+																																								pos: position{line: 677, col: 14, offset: 21525},
 																																								run: (*parser).callonDocumentFragment1264,
 																																								expr: &seqExpr{
-																																									pos: position{line: 676, col: 14, offset: 21498},
+																																									pos: position{line: 677, col: 14, offset: 21525},
 																																									exprs: []interface{}{
 																																										&andExpr{
-																																											pos: position{line: 2893, col: 11, offset: 91339},
+																																											pos: position{line: 2894, col: 11, offset: 91366},
 																																											expr: &anyMatcher{
-																																												line: 2893, col: 13, offset: 91341,
+																																												line: 2894, col: 13, offset: 91368,
 																																											},
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 676, col: 21, offset: 21505},
+																																											pos: position{line: 677, col: 21, offset: 21532},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2876, col: 10, offset: 91005},
+																																												pos: position{line: 2877, col: 10, offset: 91032},
 																																												run: (*parser).callonDocumentFragment1269,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2876, col: 10, offset: 91005},
+																																													pos:        position{line: 2877, col: 10, offset: 91032},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -9916,28 +9916,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2898, col: 8, offset: 91403},
+																																											pos: position{line: 2899, col: 8, offset: 91430},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2885, col: 12, offset: 91176},
+																																													pos: position{line: 2886, col: 12, offset: 91203},
 																																													run: (*parser).callonDocumentFragment1272,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2885, col: 13, offset: 91177},
+																																														pos: position{line: 2886, col: 13, offset: 91204},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2885, col: 13, offset: 91177},
+																																																pos:        position{line: 2886, col: 13, offset: 91204},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2885, col: 20, offset: 91184},
+																																																pos:        position{line: 2886, col: 20, offset: 91211},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2885, col: 29, offset: 91193},
+																																																pos:        position{line: 2886, col: 29, offset: 91220},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -9946,9 +9946,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2895, col: 8, offset: 91353},
+																																													pos: position{line: 2896, col: 8, offset: 91380},
 																																													expr: &anyMatcher{
-																																														line: 2895, col: 9, offset: 91354,
+																																														line: 2896, col: 9, offset: 91381,
 																																													},
 																																												},
 																																											},
@@ -9958,22 +9958,22 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2668, col: 9, offset: 84854},
+																																							pos: position{line: 2669, col: 9, offset: 84881},
 																																							expr: &seqExpr{
-																																								pos: position{line: 2668, col: 11, offset: 84856},
+																																								pos: position{line: 2669, col: 11, offset: 84883},
 																																								exprs: []interface{}{
 																																									&labeledExpr{
-																																										pos:   position{line: 2668, col: 11, offset: 84856},
+																																										pos:   position{line: 2669, col: 11, offset: 84883},
 																																										label: "format",
 																																										expr: &zeroOrOneExpr{
-																																											pos: position{line: 2668, col: 18, offset: 84863},
+																																											pos: position{line: 2669, col: 18, offset: 84890},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2676, col: 20, offset: 85064},
+																																												pos: position{line: 2677, col: 20, offset: 85091},
 																																												run: (*parser).callonDocumentFragment1283,
 																																												expr: &zeroOrMoreExpr{
-																																													pos: position{line: 2676, col: 20, offset: 85064},
+																																													pos: position{line: 2677, col: 20, offset: 85091},
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2676, col: 20, offset: 85064},
+																																														pos:        position{line: 2677, col: 20, offset: 85091},
 																																														val:        "[^ |\\r\\n]",
 																																														chars:      []rune{' ', '|', '\r', '\n'},
 																																														ignoreCase: false,
@@ -9984,7 +9984,7 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2668, col: 37, offset: 84882},
+																																										pos:        position{line: 2669, col: 37, offset: 84909},
 																																										val:        "|",
 																																										ignoreCase: false,
 																																										want:       "\"|\"",
@@ -9993,15 +9993,15 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&labeledExpr{
-																																							pos:   position{line: 2669, col: 9, offset: 84895},
+																																							pos:   position{line: 2670, col: 9, offset: 84922},
 																																							label: "content",
 																																							expr: &actionExpr{
-																																								pos: position{line: 2669, col: 18, offset: 84904},
+																																								pos: position{line: 2670, col: 18, offset: 84931},
 																																								run: (*parser).callonDocumentFragment1288,
 																																								expr: &zeroOrMoreExpr{
-																																									pos: position{line: 2669, col: 18, offset: 84904},
+																																									pos: position{line: 2670, col: 18, offset: 84931},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2669, col: 18, offset: 84904},
+																																										pos:        position{line: 2670, col: 18, offset: 84931},
 																																										val:        "[^|\\r\\n]",
 																																										chars:      []rune{'|', '\r', '\n'},
 																																										ignoreCase: false,
@@ -10011,30 +10011,30 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&zeroOrOneExpr{
-																																							pos: position{line: 2671, col: 12, offset: 84966},
+																																							pos: position{line: 2672, col: 12, offset: 84993},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2898, col: 8, offset: 91403},
+																																								pos: position{line: 2899, col: 8, offset: 91430},
 																																								alternatives: []interface{}{
 																																									&actionExpr{
-																																										pos: position{line: 2885, col: 12, offset: 91176},
+																																										pos: position{line: 2886, col: 12, offset: 91203},
 																																										run: (*parser).callonDocumentFragment1293,
 																																										expr: &choiceExpr{
-																																											pos: position{line: 2885, col: 13, offset: 91177},
+																																											pos: position{line: 2886, col: 13, offset: 91204},
 																																											alternatives: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2885, col: 13, offset: 91177},
+																																													pos:        position{line: 2886, col: 13, offset: 91204},
 																																													val:        "\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2885, col: 20, offset: 91184},
+																																													pos:        position{line: 2886, col: 20, offset: 91211},
 																																													val:        "\r\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2885, col: 29, offset: 91193},
+																																													pos:        position{line: 2886, col: 29, offset: 91220},
 																																													val:        "\r",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\"",
@@ -10043,9 +10043,9 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2895, col: 8, offset: 91353},
+																																										pos: position{line: 2896, col: 8, offset: 91380},
 																																										expr: &anyMatcher{
-																																											line: 2895, col: 9, offset: 91354,
+																																											line: 2896, col: 9, offset: 91381,
 																																										},
 																																									},
 																																								},
@@ -10067,24 +10067,24 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 676, col: 14, offset: 21498},
+																								pos: position{line: 677, col: 14, offset: 21525},
 																								run: (*parser).callonDocumentFragment1300,
 																								expr: &seqExpr{
-																									pos: position{line: 676, col: 14, offset: 21498},
+																									pos: position{line: 677, col: 14, offset: 21525},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2893, col: 11, offset: 91339},
+																											pos: position{line: 2894, col: 11, offset: 91366},
 																											expr: &anyMatcher{
-																												line: 2893, col: 13, offset: 91341,
+																												line: 2894, col: 13, offset: 91368,
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 676, col: 21, offset: 21505},
+																											pos: position{line: 677, col: 21, offset: 21532},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 91005},
+																												pos: position{line: 2877, col: 10, offset: 91032},
 																												run: (*parser).callonDocumentFragment1305,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 91005},
+																													pos:        position{line: 2877, col: 10, offset: 91032},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -10093,28 +10093,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91403},
+																											pos: position{line: 2899, col: 8, offset: 91430},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91176},
+																													pos: position{line: 2886, col: 12, offset: 91203},
 																													run: (*parser).callonDocumentFragment1308,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91177},
+																														pos: position{line: 2886, col: 13, offset: 91204},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91177},
+																																pos:        position{line: 2886, col: 13, offset: 91204},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91184},
+																																pos:        position{line: 2886, col: 20, offset: 91211},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91193},
+																																pos:        position{line: 2886, col: 29, offset: 91220},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -10123,9 +10123,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91353},
+																													pos: position{line: 2896, col: 8, offset: 91380},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91354,
+																														line: 2896, col: 9, offset: 91381,
 																													},
 																												},
 																											},
@@ -10144,24 +10144,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2622, col: 22, offset: 83752},
+														pos: position{line: 2623, col: 22, offset: 83779},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2618, col: 19, offset: 83672},
+																pos: position{line: 2619, col: 19, offset: 83699},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2618, col: 19, offset: 83672},
+																		pos:        position{line: 2619, col: 19, offset: 83699},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2618, col: 26, offset: 83679},
+																		pos: position{line: 2619, col: 26, offset: 83706},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 91005},
+																			pos: position{line: 2877, col: 10, offset: 91032},
 																			run: (*parser).callonDocumentFragment1319,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 91005},
+																				pos:        position{line: 2877, col: 10, offset: 91032},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10170,28 +10170,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91403},
+																		pos: position{line: 2899, col: 8, offset: 91430},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91176},
+																				pos: position{line: 2886, col: 12, offset: 91203},
 																				run: (*parser).callonDocumentFragment1322,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91177},
+																					pos: position{line: 2886, col: 13, offset: 91204},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91177},
+																							pos:        position{line: 2886, col: 13, offset: 91204},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91184},
+																							pos:        position{line: 2886, col: 20, offset: 91211},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91193},
+																							pos:        position{line: 2886, col: 29, offset: 91220},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10200,9 +10200,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91353},
+																				pos: position{line: 2896, col: 8, offset: 91380},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91354,
+																					line: 2896, col: 9, offset: 91381,
 																				},
 																			},
 																		},
@@ -10210,9 +10210,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91353},
+																pos: position{line: 2896, col: 8, offset: 91380},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91354,
+																	line: 2896, col: 9, offset: 91381,
 																},
 															},
 														},
@@ -10221,36 +10221,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2483, col: 22, offset: 79891},
+											pos: position{line: 2484, col: 22, offset: 79918},
 											run: (*parser).callonDocumentFragment1331,
 											expr: &seqExpr{
-												pos: position{line: 2483, col: 22, offset: 79891},
+												pos: position{line: 2484, col: 22, offset: 79918},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2488, col: 31, offset: 80112},
+														pos:        position{line: 2489, col: 31, offset: 80139},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2488, col: 36, offset: 80117},
+														pos: position{line: 2489, col: 36, offset: 80144},
 														expr: &litMatcher{
-															pos:        position{line: 2488, col: 37, offset: 80118},
+															pos:        position{line: 2489, col: 37, offset: 80145},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2483, col: 49, offset: 79918},
+														pos:   position{line: 2484, col: 49, offset: 79945},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2822, col: 13, offset: 89531},
+															pos: position{line: 2823, col: 13, offset: 89558},
 															run: (*parser).callonDocumentFragment1337,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2822, col: 13, offset: 89531},
+																pos: position{line: 2823, col: 13, offset: 89558},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2822, col: 13, offset: 89531},
+																	pos:        position{line: 2823, col: 13, offset: 89558},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10260,28 +10260,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2898, col: 8, offset: 91403},
+														pos: position{line: 2899, col: 8, offset: 91430},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2885, col: 12, offset: 91176},
+																pos: position{line: 2886, col: 12, offset: 91203},
 																run: (*parser).callonDocumentFragment1341,
 																expr: &choiceExpr{
-																	pos: position{line: 2885, col: 13, offset: 91177},
+																	pos: position{line: 2886, col: 13, offset: 91204},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 13, offset: 91177},
+																			pos:        position{line: 2886, col: 13, offset: 91204},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 20, offset: 91184},
+																			pos:        position{line: 2886, col: 20, offset: 91211},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 29, offset: 91193},
+																			pos:        position{line: 2886, col: 29, offset: 91220},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10290,9 +10290,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91353},
+																pos: position{line: 2896, col: 8, offset: 91380},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91354,
+																	line: 2896, col: 9, offset: 91381,
 																},
 															},
 														},
@@ -10301,37 +10301,37 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1225, col: 5, offset: 37935},
+											pos: position{line: 1226, col: 5, offset: 37962},
 											run: (*parser).callonDocumentFragment1348,
 											expr: &seqExpr{
-												pos: position{line: 1225, col: 5, offset: 37935},
+												pos: position{line: 1226, col: 5, offset: 37962},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 1225, col: 5, offset: 37935},
+														pos: position{line: 1226, col: 5, offset: 37962},
 														run: (*parser).callonDocumentFragment1350,
 													},
 													&labeledExpr{
-														pos:   position{line: 1228, col: 5, offset: 37993},
+														pos:   position{line: 1229, col: 5, offset: 38020},
 														label: "frontmatter",
 														expr: &actionExpr{
-															pos: position{line: 1233, col: 20, offset: 38088},
+															pos: position{line: 1234, col: 20, offset: 38115},
 															run: (*parser).callonDocumentFragment1352,
 															expr: &seqExpr{
-																pos: position{line: 1233, col: 20, offset: 38088},
+																pos: position{line: 1234, col: 20, offset: 38115},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1237, col: 30, offset: 38308},
+																		pos:        position{line: 1238, col: 30, offset: 38335},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1237, col: 36, offset: 38314},
+																		pos: position{line: 1238, col: 36, offset: 38341},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 91005},
+																			pos: position{line: 2877, col: 10, offset: 91032},
 																			run: (*parser).callonDocumentFragment1356,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 91005},
+																				pos:        position{line: 2877, col: 10, offset: 91032},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10340,28 +10340,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91403},
+																		pos: position{line: 2899, col: 8, offset: 91430},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91176},
+																				pos: position{line: 2886, col: 12, offset: 91203},
 																				run: (*parser).callonDocumentFragment1359,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91177},
+																					pos: position{line: 2886, col: 13, offset: 91204},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91177},
+																							pos:        position{line: 2886, col: 13, offset: 91204},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91184},
+																							pos:        position{line: 2886, col: 20, offset: 91211},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91193},
+																							pos:        position{line: 2886, col: 29, offset: 91220},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10370,46 +10370,46 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91353},
+																				pos: position{line: 2896, col: 8, offset: 91380},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91354,
+																					line: 2896, col: 9, offset: 91381,
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1233, col: 45, offset: 38113},
+																		pos:   position{line: 1234, col: 45, offset: 38140},
 																		label: "content",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 1233, col: 53, offset: 38121},
+																			pos: position{line: 1234, col: 53, offset: 38148},
 																			expr: &actionExpr{
-																				pos: position{line: 1239, col: 27, offset: 38352},
+																				pos: position{line: 1240, col: 27, offset: 38379},
 																				run: (*parser).callonDocumentFragment1368,
 																				expr: &zeroOrMoreExpr{
-																					pos: position{line: 1239, col: 27, offset: 38352},
+																					pos: position{line: 1240, col: 27, offset: 38379},
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1239, col: 28, offset: 38353},
+																						pos: position{line: 1240, col: 28, offset: 38380},
 																						expr: &seqExpr{
-																							pos: position{line: 1239, col: 29, offset: 38354},
+																							pos: position{line: 1240, col: 29, offset: 38381},
 																							exprs: []interface{}{
 																								&notExpr{
-																									pos: position{line: 1239, col: 29, offset: 38354},
+																									pos: position{line: 1240, col: 29, offset: 38381},
 																									expr: &seqExpr{
-																										pos: position{line: 1237, col: 30, offset: 38308},
+																										pos: position{line: 1238, col: 30, offset: 38335},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 1237, col: 30, offset: 38308},
+																												pos:        position{line: 1238, col: 30, offset: 38335},
 																												val:        "---",
 																												ignoreCase: false,
 																												want:       "\"---\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 1237, col: 36, offset: 38314},
+																												pos: position{line: 1238, col: 36, offset: 38341},
 																												expr: &actionExpr{
-																													pos: position{line: 2876, col: 10, offset: 91005},
+																													pos: position{line: 2877, col: 10, offset: 91032},
 																													run: (*parser).callonDocumentFragment1376,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2876, col: 10, offset: 91005},
+																														pos:        position{line: 2877, col: 10, offset: 91032},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -10418,28 +10418,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2898, col: 8, offset: 91403},
+																												pos: position{line: 2899, col: 8, offset: 91430},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2885, col: 12, offset: 91176},
+																														pos: position{line: 2886, col: 12, offset: 91203},
 																														run: (*parser).callonDocumentFragment1379,
 																														expr: &choiceExpr{
-																															pos: position{line: 2885, col: 13, offset: 91177},
+																															pos: position{line: 2886, col: 13, offset: 91204},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 13, offset: 91177},
+																																	pos:        position{line: 2886, col: 13, offset: 91204},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 20, offset: 91184},
+																																	pos:        position{line: 2886, col: 20, offset: 91211},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2885, col: 29, offset: 91193},
+																																	pos:        position{line: 2886, col: 29, offset: 91220},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -10448,9 +10448,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2895, col: 8, offset: 91353},
+																														pos: position{line: 2896, col: 8, offset: 91380},
 																														expr: &anyMatcher{
-																															line: 2895, col: 9, offset: 91354,
+																															line: 2896, col: 9, offset: 91381,
 																														},
 																													},
 																												},
@@ -10459,7 +10459,7 @@ var g = &grammar{
 																									},
 																								},
 																								&anyMatcher{
-																									line: 1239, col: 55, offset: 38380,
+																									line: 1240, col: 55, offset: 38407,
 																								},
 																							},
 																						},
@@ -10469,18 +10469,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1237, col: 30, offset: 38308},
+																		pos:        position{line: 1238, col: 30, offset: 38335},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1237, col: 36, offset: 38314},
+																		pos: position{line: 1238, col: 36, offset: 38341},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 91005},
+																			pos: position{line: 2877, col: 10, offset: 91032},
 																			run: (*parser).callonDocumentFragment1389,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 91005},
+																				pos:        position{line: 2877, col: 10, offset: 91032},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10489,28 +10489,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91403},
+																		pos: position{line: 2899, col: 8, offset: 91430},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91176},
+																				pos: position{line: 2886, col: 12, offset: 91203},
 																				run: (*parser).callonDocumentFragment1392,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91177},
+																					pos: position{line: 2886, col: 13, offset: 91204},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91177},
+																							pos:        position{line: 2886, col: 13, offset: 91204},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91184},
+																							pos:        position{line: 2886, col: 20, offset: 91211},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91193},
+																							pos:        position{line: 2886, col: 29, offset: 91220},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10519,15 +10519,15 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91353},
+																				pos: position{line: 2896, col: 8, offset: 91380},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91354,
+																					line: 2896, col: 9, offset: 91381,
 																				},
 																			},
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1233, col: 104, offset: 38172},
+																		pos: position{line: 1234, col: 104, offset: 38199},
 																		run: (*parser).callonDocumentFragment1399,
 																	},
 																},
@@ -10578,9 +10578,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2895, col: 8, offset: 91353},
+							pos: position{line: 2896, col: 8, offset: 91380},
 							expr: &anyMatcher{
-								line: 2895, col: 9, offset: 91354,
+								line: 2896, col: 9, offset: 91381,
 							},
 						},
 					},
@@ -10652,12 +10652,12 @@ var g = &grammar{
 										pos: position{line: 304, col: 9, offset: 9170},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2880, col: 11, offset: 91066},
+												pos: position{line: 2881, col: 11, offset: 91093},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2880, col: 11, offset: 91066},
+													pos: position{line: 2881, col: 11, offset: 91093},
 													expr: &charClassMatcher{
-														pos:        position{line: 2880, col: 11, offset: 91066},
+														pos:        position{line: 2881, col: 11, offset: 91093},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10681,10 +10681,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 309, col: 5, offset: 9350},
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 10, offset: 91005},
+								pos: position{line: 2877, col: 10, offset: 91032},
 								run: (*parser).callonAttributeDeclaration21,
 								expr: &charClassMatcher{
-									pos:        position{line: 2876, col: 10, offset: 91005},
+									pos:        position{line: 2877, col: 10, offset: 91032},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -10693,28 +10693,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2898, col: 8, offset: 91403},
+							pos: position{line: 2899, col: 8, offset: 91430},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2885, col: 12, offset: 91176},
+									pos: position{line: 2886, col: 12, offset: 91203},
 									run: (*parser).callonAttributeDeclaration24,
 									expr: &choiceExpr{
-										pos: position{line: 2885, col: 13, offset: 91177},
+										pos: position{line: 2886, col: 13, offset: 91204},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2885, col: 13, offset: 91177},
+												pos:        position{line: 2886, col: 13, offset: 91204},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 20, offset: 91184},
+												pos:        position{line: 2886, col: 20, offset: 91211},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 29, offset: 91193},
+												pos:        position{line: 2886, col: 29, offset: 91220},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10723,9 +10723,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2895, col: 8, offset: 91353},
+									pos: position{line: 2896, col: 8, offset: 91380},
 									expr: &anyMatcher{
-										line: 2895, col: 9, offset: 91354,
+										line: 2896, col: 9, offset: 91381,
 									},
 								},
 							},
@@ -10771,10 +10771,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 324, col: 14, offset: 9848},
 												expr: &actionExpr{
-													pos: position{line: 2876, col: 10, offset: 91005},
+													pos: position{line: 2877, col: 10, offset: 91032},
 													run: (*parser).callonAttributeDeclarationValue11,
 													expr: &charClassMatcher{
-														pos:        position{line: 2876, col: 10, offset: 91005},
+														pos:        position{line: 2877, col: 10, offset: 91032},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10783,25 +10783,25 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 2885, col: 12, offset: 91176},
+												pos: position{line: 2886, col: 12, offset: 91203},
 												run: (*parser).callonAttributeDeclarationValue13,
 												expr: &choiceExpr{
-													pos: position{line: 2885, col: 13, offset: 91177},
+													pos: position{line: 2886, col: 13, offset: 91204},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2885, col: 13, offset: 91177},
+															pos:        position{line: 2886, col: 13, offset: 91204},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2885, col: 20, offset: 91184},
+															pos:        position{line: 2886, col: 20, offset: 91211},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2885, col: 29, offset: 91193},
+															pos:        position{line: 2886, col: 29, offset: 91220},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10812,10 +10812,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 325, col: 9, offset: 9872},
 												expr: &actionExpr{
-													pos: position{line: 2876, col: 10, offset: 91005},
+													pos: position{line: 2877, col: 10, offset: 91032},
 													run: (*parser).callonAttributeDeclarationValue19,
 													expr: &charClassMatcher{
-														pos:        position{line: 2876, col: 10, offset: 91005},
+														pos:        position{line: 2877, col: 10, offset: 91032},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10885,10 +10885,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 343, col: 13, offset: 10417},
 										expr: &actionExpr{
-											pos: position{line: 2876, col: 10, offset: 91005},
+											pos: position{line: 2877, col: 10, offset: 91032},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2876, col: 10, offset: 91005},
+												pos:        position{line: 2877, col: 10, offset: 91032},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10897,28 +10897,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2898, col: 8, offset: 91403},
+										pos: position{line: 2899, col: 8, offset: 91430},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2885, col: 12, offset: 91176},
+												pos: position{line: 2886, col: 12, offset: 91203},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2885, col: 13, offset: 91177},
+													pos: position{line: 2886, col: 13, offset: 91204},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2885, col: 13, offset: 91177},
+															pos:        position{line: 2886, col: 13, offset: 91204},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2885, col: 20, offset: 91184},
+															pos:        position{line: 2886, col: 20, offset: 91211},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2885, col: 29, offset: 91193},
+															pos:        position{line: 2886, col: 29, offset: 91220},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10927,9 +10927,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2895, col: 8, offset: 91353},
+												pos: position{line: 2896, col: 8, offset: 91380},
 												expr: &anyMatcher{
-													line: 2895, col: 9, offset: 91354,
+													line: 2896, col: 9, offset: 91381,
 												},
 											},
 										},
@@ -10962,23 +10962,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2470, col: 5, offset: 79437},
+										pos: position{line: 2471, col: 5, offset: 79464},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2470, col: 5, offset: 79437},
+											pos: position{line: 2471, col: 5, offset: 79464},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2470, col: 5, offset: 79437},
+													pos: position{line: 2471, col: 5, offset: 79464},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2473, col: 5, offset: 79513},
+													pos:   position{line: 2474, col: 5, offset: 79540},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2474, col: 9, offset: 79531},
+														pos: position{line: 2475, col: 9, offset: 79558},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2474, col: 10, offset: 79532},
+															pos:        position{line: 2475, col: 10, offset: 79559},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -10990,10 +10990,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2876, col: 10, offset: 91005},
+										pos: position{line: 2877, col: 10, offset: 91032},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2876, col: 10, offset: 91005},
+											pos:        position{line: 2877, col: 10, offset: 91032},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -11001,35 +11001,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 635, col: 5, offset: 20116},
+										pos: position{line: 636, col: 5, offset: 20143},
 										run: (*parser).callonAttributeDeclarationValueElement32,
 										expr: &seqExpr{
-											pos: position{line: 635, col: 5, offset: 20116},
+											pos: position{line: 636, col: 5, offset: 20143},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 635, col: 5, offset: 20116},
+													pos: position{line: 636, col: 5, offset: 20143},
 													run: (*parser).callonAttributeDeclarationValueElement34,
 												},
 												&labeledExpr{
-													pos:   position{line: 638, col: 5, offset: 20188},
+													pos:   position{line: 639, col: 5, offset: 20215},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 638, col: 14, offset: 20197},
+														pos: position{line: 639, col: 14, offset: 20224},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 644, col: 5, offset: 20326},
+																pos: position{line: 645, col: 5, offset: 20353},
 																run: (*parser).callonAttributeDeclarationValueElement37,
 																expr: &seqExpr{
-																	pos: position{line: 644, col: 5, offset: 20326},
+																	pos: position{line: 645, col: 5, offset: 20353},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 644, col: 5, offset: 20326},
+																			pos:        position{line: 645, col: 5, offset: 20353},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 644, col: 13, offset: 20334},
+																			pos:   position{line: 645, col: 13, offset: 20361},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 317, col: 18, offset: 9667},
@@ -11061,7 +11061,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 644, col: 32, offset: 20353},
+																			pos:        position{line: 645, col: 32, offset: 20380},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11070,19 +11070,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 651, col: 5, offset: 20594},
+																pos: position{line: 652, col: 5, offset: 20621},
 																run: (*parser).callonAttributeDeclarationValueElement47,
 																expr: &seqExpr{
-																	pos: position{line: 651, col: 5, offset: 20594},
+																	pos: position{line: 652, col: 5, offset: 20621},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 651, col: 5, offset: 20594},
+																			pos:        position{line: 652, col: 5, offset: 20621},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 651, col: 9, offset: 20598},
+																			pos:   position{line: 652, col: 9, offset: 20625},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 317, col: 18, offset: 9667},
@@ -11114,7 +11114,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 651, col: 28, offset: 20617},
+																			pos:        position{line: 652, col: 28, offset: 20644},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11123,19 +11123,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 657, col: 25, offset: 20798},
+																pos: position{line: 658, col: 25, offset: 20825},
 																run: (*parser).callonAttributeDeclarationValueElement57,
 																expr: &seqExpr{
-																	pos: position{line: 657, col: 25, offset: 20798},
+																	pos: position{line: 658, col: 25, offset: 20825},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 657, col: 25, offset: 20798},
+																			pos:        position{line: 658, col: 25, offset: 20825},
 																			val:        "{counter:",
 																			ignoreCase: false,
 																			want:       "\"{counter:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 657, col: 37, offset: 20810},
+																			pos:   position{line: 658, col: 37, offset: 20837},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 317, col: 18, offset: 9667},
@@ -11167,33 +11167,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 657, col: 56, offset: 20829},
+																			pos:   position{line: 658, col: 56, offset: 20856},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 657, col: 62, offset: 20835},
+																				pos: position{line: 658, col: 62, offset: 20862},
 																				expr: &actionExpr{
-																					pos: position{line: 665, col: 17, offset: 21132},
+																					pos: position{line: 666, col: 17, offset: 21159},
 																					run: (*parser).callonAttributeDeclarationValueElement68,
 																					expr: &seqExpr{
-																						pos: position{line: 665, col: 17, offset: 21132},
+																						pos: position{line: 666, col: 17, offset: 21159},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 665, col: 17, offset: 21132},
+																								pos:        position{line: 666, col: 17, offset: 21159},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 665, col: 21, offset: 21136},
+																								pos:   position{line: 666, col: 21, offset: 21163},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 665, col: 28, offset: 21143},
+																									pos: position{line: 666, col: 28, offset: 21170},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 665, col: 28, offset: 21143},
+																											pos: position{line: 666, col: 28, offset: 21170},
 																											run: (*parser).callonAttributeDeclarationValueElement73,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 665, col: 28, offset: 21143},
+																												pos:        position{line: 666, col: 28, offset: 21170},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -11201,12 +11201,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 667, col: 9, offset: 21197},
+																											pos: position{line: 668, col: 9, offset: 21224},
 																											run: (*parser).callonAttributeDeclarationValueElement75,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 667, col: 9, offset: 21197},
+																												pos: position{line: 668, col: 9, offset: 21224},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 667, col: 9, offset: 21197},
+																													pos:        position{line: 668, col: 9, offset: 21224},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -11223,7 +11223,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 657, col: 78, offset: 20851},
+																			pos:        position{line: 658, col: 78, offset: 20878},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11232,19 +11232,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 661, col: 25, offset: 20969},
+																pos: position{line: 662, col: 25, offset: 20996},
 																run: (*parser).callonAttributeDeclarationValueElement79,
 																expr: &seqExpr{
-																	pos: position{line: 661, col: 25, offset: 20969},
+																	pos: position{line: 662, col: 25, offset: 20996},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 661, col: 25, offset: 20969},
+																			pos:        position{line: 662, col: 25, offset: 20996},
 																			val:        "{counter2:",
 																			ignoreCase: false,
 																			want:       "\"{counter2:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 661, col: 38, offset: 20982},
+																			pos:   position{line: 662, col: 38, offset: 21009},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 317, col: 18, offset: 9667},
@@ -11276,33 +11276,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 661, col: 57, offset: 21001},
+																			pos:   position{line: 662, col: 57, offset: 21028},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 661, col: 63, offset: 21007},
+																				pos: position{line: 662, col: 63, offset: 21034},
 																				expr: &actionExpr{
-																					pos: position{line: 665, col: 17, offset: 21132},
+																					pos: position{line: 666, col: 17, offset: 21159},
 																					run: (*parser).callonAttributeDeclarationValueElement90,
 																					expr: &seqExpr{
-																						pos: position{line: 665, col: 17, offset: 21132},
+																						pos: position{line: 666, col: 17, offset: 21159},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 665, col: 17, offset: 21132},
+																								pos:        position{line: 666, col: 17, offset: 21159},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 665, col: 21, offset: 21136},
+																								pos:   position{line: 666, col: 21, offset: 21163},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 665, col: 28, offset: 21143},
+																									pos: position{line: 666, col: 28, offset: 21170},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 665, col: 28, offset: 21143},
+																											pos: position{line: 666, col: 28, offset: 21170},
 																											run: (*parser).callonAttributeDeclarationValueElement95,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 665, col: 28, offset: 21143},
+																												pos:        position{line: 666, col: 28, offset: 21170},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -11310,12 +11310,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 667, col: 9, offset: 21197},
+																											pos: position{line: 668, col: 9, offset: 21224},
 																											run: (*parser).callonAttributeDeclarationValueElement97,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 667, col: 9, offset: 21197},
+																												pos: position{line: 668, col: 9, offset: 21224},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 667, col: 9, offset: 21197},
+																													pos:        position{line: 668, col: 9, offset: 21224},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -11332,7 +11332,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 661, col: 79, offset: 21023},
+																			pos:        position{line: 662, col: 79, offset: 21050},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11417,27 +11417,27 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1197, col: 23, offset: 36986},
+																						pos: position{line: 1198, col: 23, offset: 37013},
 																						run: (*parser).callonBlockAttributes19,
 																						expr: &seqExpr{
-																							pos: position{line: 1197, col: 23, offset: 36986},
+																							pos: position{line: 1198, col: 23, offset: 37013},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1195, col: 32, offset: 36954},
+																									pos:        position{line: 1196, col: 32, offset: 36981},
 																									val:        "�",
 																									ignoreCase: false,
 																									want:       "\"�\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1197, col: 51, offset: 37014},
+																									pos:   position{line: 1198, col: 51, offset: 37041},
 																									label: "ref",
 																									expr: &actionExpr{
-																										pos: position{line: 1197, col: 56, offset: 37019},
+																										pos: position{line: 1198, col: 56, offset: 37046},
 																										run: (*parser).callonBlockAttributes23,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1197, col: 56, offset: 37019},
+																											pos: position{line: 1198, col: 56, offset: 37046},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1197, col: 56, offset: 37019},
+																												pos:        position{line: 1198, col: 56, offset: 37046},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -11447,48 +11447,48 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1195, col: 32, offset: 36954},
+																									pos:        position{line: 1196, col: 32, offset: 36981},
 																									val:        "�",
 																									ignoreCase: false,
 																									want:       "\"�\"",
 																								},
 																								&andCodeExpr{
-																									pos: position{line: 1198, col: 5, offset: 37091},
+																									pos: position{line: 1199, col: 5, offset: 37118},
 																									run: (*parser).callonBlockAttributes27,
 																								},
 																							},
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 635, col: 5, offset: 20116},
+																						pos: position{line: 636, col: 5, offset: 20143},
 																						run: (*parser).callonBlockAttributes28,
 																						expr: &seqExpr{
-																							pos: position{line: 635, col: 5, offset: 20116},
+																							pos: position{line: 636, col: 5, offset: 20143},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 635, col: 5, offset: 20116},
+																									pos: position{line: 636, col: 5, offset: 20143},
 																									run: (*parser).callonBlockAttributes30,
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 638, col: 5, offset: 20188},
+																									pos:   position{line: 639, col: 5, offset: 20215},
 																									label: "element",
 																									expr: &choiceExpr{
-																										pos: position{line: 638, col: 14, offset: 20197},
+																										pos: position{line: 639, col: 14, offset: 20224},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 644, col: 5, offset: 20326},
+																												pos: position{line: 645, col: 5, offset: 20353},
 																												run: (*parser).callonBlockAttributes33,
 																												expr: &seqExpr{
-																													pos: position{line: 644, col: 5, offset: 20326},
+																													pos: position{line: 645, col: 5, offset: 20353},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 644, col: 5, offset: 20326},
+																															pos:        position{line: 645, col: 5, offset: 20353},
 																															val:        "\\{",
 																															ignoreCase: false,
 																															want:       "\"\\\\{\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 644, col: 13, offset: 20334},
+																															pos:   position{line: 645, col: 13, offset: 20361},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 317, col: 18, offset: 9667},
@@ -11520,7 +11520,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 644, col: 32, offset: 20353},
+																															pos:        position{line: 645, col: 32, offset: 20380},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11529,19 +11529,19 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 651, col: 5, offset: 20594},
+																												pos: position{line: 652, col: 5, offset: 20621},
 																												run: (*parser).callonBlockAttributes43,
 																												expr: &seqExpr{
-																													pos: position{line: 651, col: 5, offset: 20594},
+																													pos: position{line: 652, col: 5, offset: 20621},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 651, col: 5, offset: 20594},
+																															pos:        position{line: 652, col: 5, offset: 20621},
 																															val:        "{",
 																															ignoreCase: false,
 																															want:       "\"{\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 651, col: 9, offset: 20598},
+																															pos:   position{line: 652, col: 9, offset: 20625},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 317, col: 18, offset: 9667},
@@ -11573,7 +11573,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 651, col: 28, offset: 20617},
+																															pos:        position{line: 652, col: 28, offset: 20644},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11582,19 +11582,19 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 657, col: 25, offset: 20798},
+																												pos: position{line: 658, col: 25, offset: 20825},
 																												run: (*parser).callonBlockAttributes53,
 																												expr: &seqExpr{
-																													pos: position{line: 657, col: 25, offset: 20798},
+																													pos: position{line: 658, col: 25, offset: 20825},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 657, col: 25, offset: 20798},
+																															pos:        position{line: 658, col: 25, offset: 20825},
 																															val:        "{counter:",
 																															ignoreCase: false,
 																															want:       "\"{counter:\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 657, col: 37, offset: 20810},
+																															pos:   position{line: 658, col: 37, offset: 20837},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 317, col: 18, offset: 9667},
@@ -11626,33 +11626,33 @@ var g = &grammar{
 																															},
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 657, col: 56, offset: 20829},
+																															pos:   position{line: 658, col: 56, offset: 20856},
 																															label: "start",
 																															expr: &zeroOrOneExpr{
-																																pos: position{line: 657, col: 62, offset: 20835},
+																																pos: position{line: 658, col: 62, offset: 20862},
 																																expr: &actionExpr{
-																																	pos: position{line: 665, col: 17, offset: 21132},
+																																	pos: position{line: 666, col: 17, offset: 21159},
 																																	run: (*parser).callonBlockAttributes64,
 																																	expr: &seqExpr{
-																																		pos: position{line: 665, col: 17, offset: 21132},
+																																		pos: position{line: 666, col: 17, offset: 21159},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 665, col: 17, offset: 21132},
+																																				pos:        position{line: 666, col: 17, offset: 21159},
 																																				val:        ":",
 																																				ignoreCase: false,
 																																				want:       "\":\"",
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 665, col: 21, offset: 21136},
+																																				pos:   position{line: 666, col: 21, offset: 21163},
 																																				label: "start",
 																																				expr: &choiceExpr{
-																																					pos: position{line: 665, col: 28, offset: 21143},
+																																					pos: position{line: 666, col: 28, offset: 21170},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 665, col: 28, offset: 21143},
+																																							pos: position{line: 666, col: 28, offset: 21170},
 																																							run: (*parser).callonBlockAttributes69,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 665, col: 28, offset: 21143},
+																																								pos:        position{line: 666, col: 28, offset: 21170},
 																																								val:        "[A-Za-z]",
 																																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																								ignoreCase: false,
@@ -11660,12 +11660,12 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&actionExpr{
-																																							pos: position{line: 667, col: 9, offset: 21197},
+																																							pos: position{line: 668, col: 9, offset: 21224},
 																																							run: (*parser).callonBlockAttributes71,
 																																							expr: &oneOrMoreExpr{
-																																								pos: position{line: 667, col: 9, offset: 21197},
+																																								pos: position{line: 668, col: 9, offset: 21224},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 667, col: 9, offset: 21197},
+																																									pos:        position{line: 668, col: 9, offset: 21224},
 																																									val:        "[0-9]",
 																																									ranges:     []rune{'0', '9'},
 																																									ignoreCase: false,
@@ -11682,7 +11682,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 657, col: 78, offset: 20851},
+																															pos:        position{line: 658, col: 78, offset: 20878},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11691,19 +11691,19 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 661, col: 25, offset: 20969},
+																												pos: position{line: 662, col: 25, offset: 20996},
 																												run: (*parser).callonBlockAttributes75,
 																												expr: &seqExpr{
-																													pos: position{line: 661, col: 25, offset: 20969},
+																													pos: position{line: 662, col: 25, offset: 20996},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 661, col: 25, offset: 20969},
+																															pos:        position{line: 662, col: 25, offset: 20996},
 																															val:        "{counter2:",
 																															ignoreCase: false,
 																															want:       "\"{counter2:\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 661, col: 38, offset: 20982},
+																															pos:   position{line: 662, col: 38, offset: 21009},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 317, col: 18, offset: 9667},
@@ -11735,33 +11735,33 @@ var g = &grammar{
 																															},
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 661, col: 57, offset: 21001},
+																															pos:   position{line: 662, col: 57, offset: 21028},
 																															label: "start",
 																															expr: &zeroOrOneExpr{
-																																pos: position{line: 661, col: 63, offset: 21007},
+																																pos: position{line: 662, col: 63, offset: 21034},
 																																expr: &actionExpr{
-																																	pos: position{line: 665, col: 17, offset: 21132},
+																																	pos: position{line: 666, col: 17, offset: 21159},
 																																	run: (*parser).callonBlockAttributes86,
 																																	expr: &seqExpr{
-																																		pos: position{line: 665, col: 17, offset: 21132},
+																																		pos: position{line: 666, col: 17, offset: 21159},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 665, col: 17, offset: 21132},
+																																				pos:        position{line: 666, col: 17, offset: 21159},
 																																				val:        ":",
 																																				ignoreCase: false,
 																																				want:       "\":\"",
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 665, col: 21, offset: 21136},
+																																				pos:   position{line: 666, col: 21, offset: 21163},
 																																				label: "start",
 																																				expr: &choiceExpr{
-																																					pos: position{line: 665, col: 28, offset: 21143},
+																																					pos: position{line: 666, col: 28, offset: 21170},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 665, col: 28, offset: 21143},
+																																							pos: position{line: 666, col: 28, offset: 21170},
 																																							run: (*parser).callonBlockAttributes91,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 665, col: 28, offset: 21143},
+																																								pos:        position{line: 666, col: 28, offset: 21170},
 																																								val:        "[A-Za-z]",
 																																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																								ignoreCase: false,
@@ -11769,12 +11769,12 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&actionExpr{
-																																							pos: position{line: 667, col: 9, offset: 21197},
+																																							pos: position{line: 668, col: 9, offset: 21224},
 																																							run: (*parser).callonBlockAttributes93,
 																																							expr: &oneOrMoreExpr{
-																																								pos: position{line: 667, col: 9, offset: 21197},
+																																								pos: position{line: 668, col: 9, offset: 21224},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 667, col: 9, offset: 21197},
+																																									pos:        position{line: 668, col: 9, offset: 21224},
 																																									val:        "[0-9]",
 																																									ranges:     []rune{'0', '9'},
 																																									ignoreCase: false,
@@ -11791,7 +11791,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 661, col: 79, offset: 21023},
+																															pos:        position{line: 662, col: 79, offset: 21050},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11834,10 +11834,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 371, col: 35, offset: 11426},
 												expr: &actionExpr{
-													pos: position{line: 2876, col: 10, offset: 91005},
+													pos: position{line: 2877, col: 10, offset: 91032},
 													run: (*parser).callonBlockAttributes101,
 													expr: &charClassMatcher{
-														pos:        position{line: 2876, col: 10, offset: 91005},
+														pos:        position{line: 2877, col: 10, offset: 91032},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11846,28 +11846,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2898, col: 8, offset: 91403},
+												pos: position{line: 2899, col: 8, offset: 91430},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2885, col: 12, offset: 91176},
+														pos: position{line: 2886, col: 12, offset: 91203},
 														run: (*parser).callonBlockAttributes104,
 														expr: &choiceExpr{
-															pos: position{line: 2885, col: 13, offset: 91177},
+															pos: position{line: 2886, col: 13, offset: 91204},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2885, col: 13, offset: 91177},
+																	pos:        position{line: 2886, col: 13, offset: 91204},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2885, col: 20, offset: 91184},
+																	pos:        position{line: 2886, col: 20, offset: 91211},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2885, col: 29, offset: 91193},
+																	pos:        position{line: 2886, col: 29, offset: 91220},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11876,9 +11876,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2895, col: 8, offset: 91353},
+														pos: position{line: 2896, col: 8, offset: 91380},
 														expr: &anyMatcher{
-															line: 2895, col: 9, offset: 91354,
+															line: 2896, col: 9, offset: 91381,
 														},
 													},
 												},
@@ -11886,24 +11886,24 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 371, col: 46, offset: 11437},
 												expr: &actionExpr{
-													pos: position{line: 676, col: 14, offset: 21498},
+													pos: position{line: 677, col: 14, offset: 21525},
 													run: (*parser).callonBlockAttributes112,
 													expr: &seqExpr{
-														pos: position{line: 676, col: 14, offset: 21498},
+														pos: position{line: 677, col: 14, offset: 21525},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2893, col: 11, offset: 91339},
+																pos: position{line: 2894, col: 11, offset: 91366},
 																expr: &anyMatcher{
-																	line: 2893, col: 13, offset: 91341,
+																	line: 2894, col: 13, offset: 91368,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 676, col: 21, offset: 21505},
+																pos: position{line: 677, col: 21, offset: 21532},
 																expr: &actionExpr{
-																	pos: position{line: 2876, col: 10, offset: 91005},
+																	pos: position{line: 2877, col: 10, offset: 91032},
 																	run: (*parser).callonBlockAttributes117,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2876, col: 10, offset: 91005},
+																		pos:        position{line: 2877, col: 10, offset: 91032},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -11912,28 +11912,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2898, col: 8, offset: 91403},
+																pos: position{line: 2899, col: 8, offset: 91430},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2885, col: 12, offset: 91176},
+																		pos: position{line: 2886, col: 12, offset: 91203},
 																		run: (*parser).callonBlockAttributes120,
 																		expr: &choiceExpr{
-																			pos: position{line: 2885, col: 13, offset: 91177},
+																			pos: position{line: 2886, col: 13, offset: 91204},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 13, offset: 91177},
+																					pos:        position{line: 2886, col: 13, offset: 91204},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 20, offset: 91184},
+																					pos:        position{line: 2886, col: 20, offset: 91211},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 29, offset: 91193},
+																					pos:        position{line: 2886, col: 29, offset: 91220},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -11942,9 +11942,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91353},
+																		pos: position{line: 2896, col: 8, offset: 91380},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91354,
+																			line: 2896, col: 9, offset: 91381,
 																		},
 																	},
 																},
@@ -11996,12 +11996,12 @@ var g = &grammar{
 																		pos: position{line: 425, col: 9, offset: 13070},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2770, col: 14, offset: 88153},
+																				pos: position{line: 2771, col: 14, offset: 88180},
 																				run: (*parser).callonBlockAttributes138,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2770, col: 14, offset: 88153},
+																					pos: position{line: 2771, col: 14, offset: 88180},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2770, col: 14, offset: 88153},
+																						pos:        position{line: 2771, col: 14, offset: 88180},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -12010,10 +12010,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 91005},
+																				pos: position{line: 2877, col: 10, offset: 91032},
 																				run: (*parser).callonBlockAttributes141,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 91005},
+																					pos:        position{line: 2877, col: 10, offset: 91032},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -12021,27 +12021,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2793, col: 5, offset: 88659},
+																				pos: position{line: 2794, col: 5, offset: 88686},
 																				run: (*parser).callonBlockAttributes143,
 																				expr: &choiceExpr{
-																					pos: position{line: 2794, col: 9, offset: 88669},
+																					pos: position{line: 2795, col: 9, offset: 88696},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2794, col: 10, offset: 88670},
+																							pos:        position{line: 2795, col: 10, offset: 88697},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2796, col: 13, offset: 88767},
+																							pos: position{line: 2797, col: 13, offset: 88794},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2796, col: 13, offset: 88767},
+																									pos: position{line: 2797, col: 13, offset: 88794},
 																									run: (*parser).callonBlockAttributes147,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2799, col: 13, offset: 88867},
+																									pos:        position{line: 2800, col: 13, offset: 88894},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -12049,20 +12049,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2799, col: 19, offset: 88873},
+																							pos:        position{line: 2800, col: 19, offset: 88900},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2802, col: 13, offset: 88911},
+																							pos: position{line: 2803, col: 13, offset: 88938},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2802, col: 13, offset: 88911},
+																									pos: position{line: 2803, col: 13, offset: 88938},
 																									run: (*parser).callonBlockAttributes151,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2805, col: 14, offset: 89004},
+																									pos:        position{line: 2806, col: 14, offset: 89031},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -12071,18 +12071,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2807, col: 12, offset: 89048},
+																							pos: position{line: 2808, col: 12, offset: 89075},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2807, col: 12, offset: 89048},
+																									pos:        position{line: 2808, col: 12, offset: 89075},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2807, col: 16, offset: 89052},
+																									pos: position{line: 2808, col: 16, offset: 89079},
 																									expr: &litMatcher{
-																										pos:        position{line: 2807, col: 17, offset: 89053},
+																										pos:        position{line: 2808, col: 17, offset: 89080},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12094,19 +12094,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 644, col: 5, offset: 20326},
+																				pos: position{line: 645, col: 5, offset: 20353},
 																				run: (*parser).callonBlockAttributes157,
 																				expr: &seqExpr{
-																					pos: position{line: 644, col: 5, offset: 20326},
+																					pos: position{line: 645, col: 5, offset: 20353},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 644, col: 5, offset: 20326},
+																							pos:        position{line: 645, col: 5, offset: 20353},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 644, col: 13, offset: 20334},
+																							pos:   position{line: 645, col: 13, offset: 20361},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 317, col: 18, offset: 9667},
@@ -12138,7 +12138,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 644, col: 32, offset: 20353},
+																							pos:        position{line: 645, col: 32, offset: 20380},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -12147,19 +12147,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 651, col: 5, offset: 20594},
+																				pos: position{line: 652, col: 5, offset: 20621},
 																				run: (*parser).callonBlockAttributes167,
 																				expr: &seqExpr{
-																					pos: position{line: 651, col: 5, offset: 20594},
+																					pos: position{line: 652, col: 5, offset: 20621},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 651, col: 5, offset: 20594},
+																							pos:        position{line: 652, col: 5, offset: 20621},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 651, col: 9, offset: 20598},
+																							pos:   position{line: 652, col: 9, offset: 20625},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 317, col: 18, offset: 9667},
@@ -12191,7 +12191,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 651, col: 28, offset: 20617},
+																							pos:        position{line: 652, col: 28, offset: 20644},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -12200,10 +12200,228 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2815, col: 12, offset: 89313},
+																				pos: position{line: 658, col: 25, offset: 20825},
 																				run: (*parser).callonBlockAttributes177,
+																				expr: &seqExpr{
+																					pos: position{line: 658, col: 25, offset: 20825},
+																					exprs: []interface{}{
+																						&litMatcher{
+																							pos:        position{line: 658, col: 25, offset: 20825},
+																							val:        "{counter:",
+																							ignoreCase: false,
+																							want:       "\"{counter:\"",
+																						},
+																						&labeledExpr{
+																							pos:   position{line: 658, col: 37, offset: 20837},
+																							label: "name",
+																							expr: &actionExpr{
+																								pos: position{line: 317, col: 18, offset: 9667},
+																								run: (*parser).callonBlockAttributes181,
+																								expr: &seqExpr{
+																									pos: position{line: 317, col: 18, offset: 9667},
+																									exprs: []interface{}{
+																										&charClassMatcher{
+																											pos:        position{line: 317, col: 18, offset: 9667},
+																											val:        "[_\\pL\\pN]",
+																											chars:      []rune{'_'},
+																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																											ignoreCase: false,
+																											inverted:   false,
+																										},
+																										&zeroOrMoreExpr{
+																											pos: position{line: 317, col: 28, offset: 9677},
+																											expr: &charClassMatcher{
+																												pos:        position{line: 317, col: 29, offset: 9678},
+																												val:        "[_-\\pL\\pN]",
+																												chars:      []rune{'_', '-'},
+																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																												ignoreCase: false,
+																												inverted:   false,
+																											},
+																										},
+																									},
+																								},
+																							},
+																						},
+																						&labeledExpr{
+																							pos:   position{line: 658, col: 56, offset: 20856},
+																							label: "start",
+																							expr: &zeroOrOneExpr{
+																								pos: position{line: 658, col: 62, offset: 20862},
+																								expr: &actionExpr{
+																									pos: position{line: 666, col: 17, offset: 21159},
+																									run: (*parser).callonBlockAttributes188,
+																									expr: &seqExpr{
+																										pos: position{line: 666, col: 17, offset: 21159},
+																										exprs: []interface{}{
+																											&litMatcher{
+																												pos:        position{line: 666, col: 17, offset: 21159},
+																												val:        ":",
+																												ignoreCase: false,
+																												want:       "\":\"",
+																											},
+																											&labeledExpr{
+																												pos:   position{line: 666, col: 21, offset: 21163},
+																												label: "start",
+																												expr: &choiceExpr{
+																													pos: position{line: 666, col: 28, offset: 21170},
+																													alternatives: []interface{}{
+																														&actionExpr{
+																															pos: position{line: 666, col: 28, offset: 21170},
+																															run: (*parser).callonBlockAttributes193,
+																															expr: &charClassMatcher{
+																																pos:        position{line: 666, col: 28, offset: 21170},
+																																val:        "[A-Za-z]",
+																																ranges:     []rune{'A', 'Z', 'a', 'z'},
+																																ignoreCase: false,
+																																inverted:   false,
+																															},
+																														},
+																														&actionExpr{
+																															pos: position{line: 668, col: 9, offset: 21224},
+																															run: (*parser).callonBlockAttributes195,
+																															expr: &oneOrMoreExpr{
+																																pos: position{line: 668, col: 9, offset: 21224},
+																																expr: &charClassMatcher{
+																																	pos:        position{line: 668, col: 9, offset: 21224},
+																																	val:        "[0-9]",
+																																	ranges:     []rune{'0', '9'},
+																																	ignoreCase: false,
+																																	inverted:   false,
+																																},
+																															},
+																														},
+																													},
+																												},
+																											},
+																										},
+																									},
+																								},
+																							},
+																						},
+																						&litMatcher{
+																							pos:        position{line: 658, col: 78, offset: 20878},
+																							val:        "}",
+																							ignoreCase: false,
+																							want:       "\"}\"",
+																						},
+																					},
+																				},
+																			},
+																			&actionExpr{
+																				pos: position{line: 662, col: 25, offset: 20996},
+																				run: (*parser).callonBlockAttributes199,
+																				expr: &seqExpr{
+																					pos: position{line: 662, col: 25, offset: 20996},
+																					exprs: []interface{}{
+																						&litMatcher{
+																							pos:        position{line: 662, col: 25, offset: 20996},
+																							val:        "{counter2:",
+																							ignoreCase: false,
+																							want:       "\"{counter2:\"",
+																						},
+																						&labeledExpr{
+																							pos:   position{line: 662, col: 38, offset: 21009},
+																							label: "name",
+																							expr: &actionExpr{
+																								pos: position{line: 317, col: 18, offset: 9667},
+																								run: (*parser).callonBlockAttributes203,
+																								expr: &seqExpr{
+																									pos: position{line: 317, col: 18, offset: 9667},
+																									exprs: []interface{}{
+																										&charClassMatcher{
+																											pos:        position{line: 317, col: 18, offset: 9667},
+																											val:        "[_\\pL\\pN]",
+																											chars:      []rune{'_'},
+																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																											ignoreCase: false,
+																											inverted:   false,
+																										},
+																										&zeroOrMoreExpr{
+																											pos: position{line: 317, col: 28, offset: 9677},
+																											expr: &charClassMatcher{
+																												pos:        position{line: 317, col: 29, offset: 9678},
+																												val:        "[_-\\pL\\pN]",
+																												chars:      []rune{'_', '-'},
+																												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																												ignoreCase: false,
+																												inverted:   false,
+																											},
+																										},
+																									},
+																								},
+																							},
+																						},
+																						&labeledExpr{
+																							pos:   position{line: 662, col: 57, offset: 21028},
+																							label: "start",
+																							expr: &zeroOrOneExpr{
+																								pos: position{line: 662, col: 63, offset: 21034},
+																								expr: &actionExpr{
+																									pos: position{line: 666, col: 17, offset: 21159},
+																									run: (*parser).callonBlockAttributes210,
+																									expr: &seqExpr{
+																										pos: position{line: 666, col: 17, offset: 21159},
+																										exprs: []interface{}{
+																											&litMatcher{
+																												pos:        position{line: 666, col: 17, offset: 21159},
+																												val:        ":",
+																												ignoreCase: false,
+																												want:       "\":\"",
+																											},
+																											&labeledExpr{
+																												pos:   position{line: 666, col: 21, offset: 21163},
+																												label: "start",
+																												expr: &choiceExpr{
+																													pos: position{line: 666, col: 28, offset: 21170},
+																													alternatives: []interface{}{
+																														&actionExpr{
+																															pos: position{line: 666, col: 28, offset: 21170},
+																															run: (*parser).callonBlockAttributes215,
+																															expr: &charClassMatcher{
+																																pos:        position{line: 666, col: 28, offset: 21170},
+																																val:        "[A-Za-z]",
+																																ranges:     []rune{'A', 'Z', 'a', 'z'},
+																																ignoreCase: false,
+																																inverted:   false,
+																															},
+																														},
+																														&actionExpr{
+																															pos: position{line: 668, col: 9, offset: 21224},
+																															run: (*parser).callonBlockAttributes217,
+																															expr: &oneOrMoreExpr{
+																																pos: position{line: 668, col: 9, offset: 21224},
+																																expr: &charClassMatcher{
+																																	pos:        position{line: 668, col: 9, offset: 21224},
+																																	val:        "[0-9]",
+																																	ranges:     []rune{'0', '9'},
+																																	ignoreCase: false,
+																																	inverted:   false,
+																																},
+																															},
+																														},
+																													},
+																												},
+																											},
+																										},
+																									},
+																								},
+																							},
+																						},
+																						&litMatcher{
+																							pos:        position{line: 662, col: 79, offset: 21050},
+																							val:        "}",
+																							ignoreCase: false,
+																							want:       "\"}\"",
+																						},
+																					},
+																				},
+																			},
+																			&actionExpr{
+																				pos: position{line: 2816, col: 12, offset: 89340},
+																				run: (*parser).callonBlockAttributes221,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2815, col: 12, offset: 89313},
+																					pos:        position{line: 2816, col: 12, offset: 89340},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12221,10 +12439,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 375, col: 35, offset: 11581},
 												expr: &actionExpr{
-													pos: position{line: 2876, col: 10, offset: 91005},
-													run: (*parser).callonBlockAttributes180,
+													pos: position{line: 2877, col: 10, offset: 91032},
+													run: (*parser).callonBlockAttributes224,
 													expr: &charClassMatcher{
-														pos:        position{line: 2876, col: 10, offset: 91005},
+														pos:        position{line: 2877, col: 10, offset: 91032},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12233,28 +12451,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2898, col: 8, offset: 91403},
+												pos: position{line: 2899, col: 8, offset: 91430},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2885, col: 12, offset: 91176},
-														run: (*parser).callonBlockAttributes183,
+														pos: position{line: 2886, col: 12, offset: 91203},
+														run: (*parser).callonBlockAttributes227,
 														expr: &choiceExpr{
-															pos: position{line: 2885, col: 13, offset: 91177},
+															pos: position{line: 2886, col: 13, offset: 91204},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2885, col: 13, offset: 91177},
+																	pos:        position{line: 2886, col: 13, offset: 91204},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2885, col: 20, offset: 91184},
+																	pos:        position{line: 2886, col: 20, offset: 91211},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2885, col: 29, offset: 91193},
+																	pos:        position{line: 2886, col: 29, offset: 91220},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12263,9 +12481,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2895, col: 8, offset: 91353},
+														pos: position{line: 2896, col: 8, offset: 91380},
 														expr: &anyMatcher{
-															line: 2895, col: 9, offset: 91354,
+															line: 2896, col: 9, offset: 91381,
 														},
 													},
 												},
@@ -12273,24 +12491,24 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 375, col: 46, offset: 11592},
 												expr: &actionExpr{
-													pos: position{line: 676, col: 14, offset: 21498},
-													run: (*parser).callonBlockAttributes191,
+													pos: position{line: 677, col: 14, offset: 21525},
+													run: (*parser).callonBlockAttributes235,
 													expr: &seqExpr{
-														pos: position{line: 676, col: 14, offset: 21498},
+														pos: position{line: 677, col: 14, offset: 21525},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2893, col: 11, offset: 91339},
+																pos: position{line: 2894, col: 11, offset: 91366},
 																expr: &anyMatcher{
-																	line: 2893, col: 13, offset: 91341,
+																	line: 2894, col: 13, offset: 91368,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 676, col: 21, offset: 21505},
+																pos: position{line: 677, col: 21, offset: 21532},
 																expr: &actionExpr{
-																	pos: position{line: 2876, col: 10, offset: 91005},
-																	run: (*parser).callonBlockAttributes196,
+																	pos: position{line: 2877, col: 10, offset: 91032},
+																	run: (*parser).callonBlockAttributes240,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2876, col: 10, offset: 91005},
+																		pos:        position{line: 2877, col: 10, offset: 91032},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12299,28 +12517,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2898, col: 8, offset: 91403},
+																pos: position{line: 2899, col: 8, offset: 91430},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2885, col: 12, offset: 91176},
-																		run: (*parser).callonBlockAttributes199,
+																		pos: position{line: 2886, col: 12, offset: 91203},
+																		run: (*parser).callonBlockAttributes243,
 																		expr: &choiceExpr{
-																			pos: position{line: 2885, col: 13, offset: 91177},
+																			pos: position{line: 2886, col: 13, offset: 91204},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 13, offset: 91177},
+																					pos:        position{line: 2886, col: 13, offset: 91204},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 20, offset: 91184},
+																					pos:        position{line: 2886, col: 20, offset: 91211},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 29, offset: 91193},
+																					pos:        position{line: 2886, col: 29, offset: 91220},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12329,9 +12547,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91353},
+																		pos: position{line: 2896, col: 8, offset: 91380},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91354,
+																			line: 2896, col: 9, offset: 91381,
 																		},
 																	},
 																},
@@ -12345,7 +12563,7 @@ var g = &grammar{
 								},
 								&actionExpr{
 									pos: position{line: 379, col: 12, offset: 11682},
-									run: (*parser).callonBlockAttributes206,
+									run: (*parser).callonBlockAttributes250,
 									expr: &seqExpr{
 										pos: position{line: 379, col: 12, offset: 11682},
 										exprs: []interface{}{
@@ -12353,10 +12571,10 @@ var g = &grammar{
 												pos:   position{line: 379, col: 12, offset: 11682},
 												label: "start",
 												expr: &actionExpr{
-													pos: position{line: 2901, col: 16, offset: 91527},
-													run: (*parser).callonBlockAttributes209,
+													pos: position{line: 2902, col: 16, offset: 91554},
+													run: (*parser).callonBlockAttributes253,
 													expr: &litMatcher{
-														pos:        position{line: 2901, col: 16, offset: 91527},
+														pos:        position{line: 2902, col: 16, offset: 91554},
 														val:        "",
 														ignoreCase: false,
 														want:       "\"\"",
@@ -12374,10 +12592,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 379, col: 64, offset: 11734},
 												expr: &actionExpr{
-													pos: position{line: 2876, col: 10, offset: 91005},
-													run: (*parser).callonBlockAttributes214,
+													pos: position{line: 2877, col: 10, offset: 91032},
+													run: (*parser).callonBlockAttributes258,
 													expr: &charClassMatcher{
-														pos:        position{line: 2876, col: 10, offset: 91005},
+														pos:        position{line: 2877, col: 10, offset: 91032},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12389,10 +12607,10 @@ var g = &grammar{
 												pos:   position{line: 379, col: 71, offset: 11741},
 												label: "end",
 												expr: &actionExpr{
-													pos: position{line: 2901, col: 16, offset: 91527},
-													run: (*parser).callonBlockAttributes217,
+													pos: position{line: 2902, col: 16, offset: 91554},
+													run: (*parser).callonBlockAttributes261,
 													expr: &litMatcher{
-														pos:        position{line: 2901, col: 16, offset: 91527},
+														pos:        position{line: 2902, col: 16, offset: 91554},
 														val:        "",
 														ignoreCase: false,
 														want:       "\"\"",
@@ -12401,31 +12619,31 @@ var g = &grammar{
 											},
 											&andCodeExpr{
 												pos: position{line: 379, col: 89, offset: 11759},
-												run: (*parser).callonBlockAttributes219,
+												run: (*parser).callonBlockAttributes263,
 											},
 											&choiceExpr{
-												pos: position{line: 2898, col: 8, offset: 91403},
+												pos: position{line: 2899, col: 8, offset: 91430},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2885, col: 12, offset: 91176},
-														run: (*parser).callonBlockAttributes221,
+														pos: position{line: 2886, col: 12, offset: 91203},
+														run: (*parser).callonBlockAttributes265,
 														expr: &choiceExpr{
-															pos: position{line: 2885, col: 13, offset: 91177},
+															pos: position{line: 2886, col: 13, offset: 91204},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2885, col: 13, offset: 91177},
+																	pos:        position{line: 2886, col: 13, offset: 91204},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2885, col: 20, offset: 91184},
+																	pos:        position{line: 2886, col: 20, offset: 91211},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2885, col: 29, offset: 91193},
+																	pos:        position{line: 2886, col: 29, offset: 91220},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12434,9 +12652,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2895, col: 8, offset: 91353},
+														pos: position{line: 2896, col: 8, offset: 91380},
 														expr: &anyMatcher{
-															line: 2895, col: 9, offset: 91354,
+															line: 2896, col: 9, offset: 91381,
 														},
 													},
 												},
@@ -12444,24 +12662,24 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 379, col: 123, offset: 11793},
 												expr: &actionExpr{
-													pos: position{line: 676, col: 14, offset: 21498},
-													run: (*parser).callonBlockAttributes229,
+													pos: position{line: 677, col: 14, offset: 21525},
+													run: (*parser).callonBlockAttributes273,
 													expr: &seqExpr{
-														pos: position{line: 676, col: 14, offset: 21498},
+														pos: position{line: 677, col: 14, offset: 21525},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2893, col: 11, offset: 91339},
+																pos: position{line: 2894, col: 11, offset: 91366},
 																expr: &anyMatcher{
-																	line: 2893, col: 13, offset: 91341,
+																	line: 2894, col: 13, offset: 91368,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 676, col: 21, offset: 21505},
+																pos: position{line: 677, col: 21, offset: 21532},
 																expr: &actionExpr{
-																	pos: position{line: 2876, col: 10, offset: 91005},
-																	run: (*parser).callonBlockAttributes234,
+																	pos: position{line: 2877, col: 10, offset: 91032},
+																	run: (*parser).callonBlockAttributes278,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2876, col: 10, offset: 91005},
+																		pos:        position{line: 2877, col: 10, offset: 91032},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12470,28 +12688,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2898, col: 8, offset: 91403},
+																pos: position{line: 2899, col: 8, offset: 91430},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2885, col: 12, offset: 91176},
-																		run: (*parser).callonBlockAttributes237,
+																		pos: position{line: 2886, col: 12, offset: 91203},
+																		run: (*parser).callonBlockAttributes281,
 																		expr: &choiceExpr{
-																			pos: position{line: 2885, col: 13, offset: 91177},
+																			pos: position{line: 2886, col: 13, offset: 91204},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 13, offset: 91177},
+																					pos:        position{line: 2886, col: 13, offset: 91204},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 20, offset: 91184},
+																					pos:        position{line: 2886, col: 20, offset: 91211},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 29, offset: 91193},
+																					pos:        position{line: 2886, col: 29, offset: 91220},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12500,9 +12718,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91353},
+																		pos: position{line: 2896, col: 8, offset: 91380},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91354,
+																			line: 2896, col: 9, offset: 91381,
 																		},
 																	},
 																},
@@ -12589,62 +12807,62 @@ var g = &grammar{
 		},
 		{
 			name: "LongHandAttributes",
-			pos:  position{line: 436, col: 1, offset: 13451},
+			pos:  position{line: 437, col: 1, offset: 13478},
 			expr: &actionExpr{
-				pos: position{line: 437, col: 5, offset: 13477},
+				pos: position{line: 438, col: 5, offset: 13504},
 				run: (*parser).callonLongHandAttributes1,
 				expr: &seqExpr{
-					pos: position{line: 437, col: 5, offset: 13477},
+					pos: position{line: 438, col: 5, offset: 13504},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 437, col: 5, offset: 13477},
+							pos: position{line: 438, col: 5, offset: 13504},
 							expr: &litMatcher{
-								pos:        position{line: 437, col: 6, offset: 13478},
+								pos:        position{line: 438, col: 6, offset: 13505},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 437, col: 10, offset: 13482},
+							pos:        position{line: 438, col: 10, offset: 13509},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&notExpr{
-							pos: position{line: 437, col: 14, offset: 13486},
+							pos: position{line: 438, col: 14, offset: 13513},
 							expr: &litMatcher{
-								pos:        position{line: 437, col: 15, offset: 13487},
+								pos:        position{line: 438, col: 15, offset: 13514},
 								val:        "[",
 								ignoreCase: false,
 								want:       "\"[\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 438, col: 5, offset: 13600},
+							pos:   position{line: 439, col: 5, offset: 13627},
 							label: "firstPositionalAttributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 438, col: 31, offset: 13626},
+								pos: position{line: 439, col: 31, offset: 13653},
 								expr: &ruleRefExpr{
-									pos:  position{line: 438, col: 32, offset: 13627},
+									pos:  position{line: 439, col: 32, offset: 13654},
 									name: "FirstPositionalAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 439, col: 5, offset: 13659},
+							pos:   position{line: 440, col: 5, offset: 13686},
 							label: "otherAttributes",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 439, col: 21, offset: 13675},
+								pos: position{line: 440, col: 21, offset: 13702},
 								expr: &choiceExpr{
-									pos: position{line: 439, col: 22, offset: 13676},
+									pos: position{line: 440, col: 22, offset: 13703},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 439, col: 22, offset: 13676},
+											pos:  position{line: 440, col: 22, offset: 13703},
 											name: "PositionalAttribute",
 										},
 										&ruleRefExpr{
-											pos:  position{line: 439, col: 44, offset: 13698},
+											pos:  position{line: 440, col: 44, offset: 13725},
 											name: "NamedAttribute",
 										},
 									},
@@ -12652,7 +12870,7 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 440, col: 5, offset: 13719},
+							pos:        position{line: 441, col: 5, offset: 13746},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -12663,69 +12881,69 @@ var g = &grammar{
 		},
 		{
 			name: "FirstPositionalAttributes",
-			pos:  position{line: 453, col: 1, offset: 14247},
+			pos:  position{line: 454, col: 1, offset: 14274},
 			expr: &actionExpr{
-				pos: position{line: 454, col: 5, offset: 14281},
+				pos: position{line: 455, col: 5, offset: 14308},
 				run: (*parser).callonFirstPositionalAttributes1,
 				expr: &seqExpr{
-					pos: position{line: 454, col: 5, offset: 14281},
+					pos: position{line: 455, col: 5, offset: 14308},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 454, col: 5, offset: 14281},
+							pos:   position{line: 455, col: 5, offset: 14308},
 							label: "main",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 454, col: 10, offset: 14286},
+								pos: position{line: 455, col: 10, offset: 14313},
 								expr: &ruleRefExpr{
-									pos:  position{line: 455, col: 9, offset: 14296},
+									pos:  position{line: 456, col: 9, offset: 14323},
 									name: "ShortHandAttribute",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 457, col: 5, offset: 14326},
+							pos:   position{line: 458, col: 5, offset: 14353},
 							label: "extras",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 457, col: 12, offset: 14333},
+								pos: position{line: 458, col: 12, offset: 14360},
 								expr: &actionExpr{
-									pos: position{line: 458, col: 9, offset: 14344},
+									pos: position{line: 459, col: 9, offset: 14371},
 									run: (*parser).callonFirstPositionalAttributes8,
 									expr: &seqExpr{
-										pos: position{line: 458, col: 9, offset: 14344},
+										pos: position{line: 459, col: 9, offset: 14371},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 458, col: 9, offset: 14344},
+												pos: position{line: 459, col: 9, offset: 14371},
 												expr: &litMatcher{
-													pos:        position{line: 458, col: 10, offset: 14345},
+													pos:        position{line: 459, col: 10, offset: 14372},
 													val:        ",",
 													ignoreCase: false,
 													want:       "\",\"",
 												},
 											},
 											&notExpr{
-												pos: position{line: 458, col: 14, offset: 14349},
+												pos: position{line: 459, col: 14, offset: 14376},
 												expr: &litMatcher{
-													pos:        position{line: 458, col: 15, offset: 14350},
+													pos:        position{line: 459, col: 15, offset: 14377},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 459, col: 9, offset: 14362},
+												pos:   position{line: 460, col: 9, offset: 14389},
 												label: "extra",
 												expr: &choiceExpr{
-													pos: position{line: 460, col: 13, offset: 14382},
+													pos: position{line: 461, col: 13, offset: 14409},
 													alternatives: []interface{}{
 														&ruleRefExpr{
-															pos:  position{line: 460, col: 13, offset: 14382},
+															pos:  position{line: 461, col: 13, offset: 14409},
 															name: "ShortHandIDAttribute",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 461, col: 15, offset: 14418},
+															pos:  position{line: 462, col: 15, offset: 14445},
 															name: "ShortHandOptionAttribute",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 462, col: 15, offset: 14457},
+															pos:  position{line: 463, col: 15, offset: 14484},
 															name: "ShortHandDotRoleAttribute",
 														},
 													},
@@ -12737,23 +12955,23 @@ var g = &grammar{
 							},
 						},
 						&zeroOrOneExpr{
-							pos: position{line: 465, col: 8, offset: 14533},
+							pos: position{line: 466, col: 8, offset: 14560},
 							expr: &seqExpr{
-								pos: position{line: 465, col: 9, offset: 14534},
+								pos: position{line: 466, col: 9, offset: 14561},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 465, col: 9, offset: 14534},
+										pos:        position{line: 466, col: 9, offset: 14561},
 										val:        ",",
 										ignoreCase: false,
 										want:       "\",\"",
 									},
 									&zeroOrMoreExpr{
-										pos: position{line: 465, col: 13, offset: 14538},
+										pos: position{line: 466, col: 13, offset: 14565},
 										expr: &actionExpr{
-											pos: position{line: 2876, col: 10, offset: 91005},
+											pos: position{line: 2877, col: 10, offset: 91032},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2876, col: 10, offset: 91005},
+												pos:        position{line: 2877, col: 10, offset: 91032},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -12765,7 +12983,7 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 466, col: 5, offset: 14552},
+							pos: position{line: 467, col: 5, offset: 14579},
 							run: (*parser).callonFirstPositionalAttributes25,
 						},
 					},
@@ -12774,24 +12992,24 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandIDAttribute",
-			pos:  position{line: 482, col: 1, offset: 14968},
+			pos:  position{line: 483, col: 1, offset: 14995},
 			expr: &actionExpr{
-				pos: position{line: 482, col: 25, offset: 14992},
+				pos: position{line: 483, col: 25, offset: 15019},
 				run: (*parser).callonShortHandIDAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 482, col: 25, offset: 14992},
+					pos: position{line: 483, col: 25, offset: 15019},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 482, col: 25, offset: 14992},
+							pos:        position{line: 483, col: 25, offset: 15019},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 482, col: 29, offset: 14996},
+							pos:   position{line: 483, col: 29, offset: 15023},
 							label: "id",
 							expr: &ruleRefExpr{
-								pos:  position{line: 482, col: 33, offset: 15000},
+								pos:  position{line: 483, col: 33, offset: 15027},
 								name: "ShortHandAttributeValue",
 							},
 						},
@@ -12801,15 +13019,15 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandAttribute",
-			pos:  position{line: 486, col: 1, offset: 15074},
+			pos:  position{line: 487, col: 1, offset: 15101},
 			expr: &actionExpr{
-				pos: position{line: 486, col: 23, offset: 15096},
+				pos: position{line: 487, col: 23, offset: 15123},
 				run: (*parser).callonShortHandAttribute1,
 				expr: &labeledExpr{
-					pos:   position{line: 486, col: 23, offset: 15096},
+					pos:   position{line: 487, col: 23, offset: 15123},
 					label: "value",
 					expr: &ruleRefExpr{
-						pos:  position{line: 486, col: 30, offset: 15103},
+						pos:  position{line: 487, col: 30, offset: 15130},
 						name: "ShortHandAttributeValue",
 					},
 				},
@@ -12817,24 +13035,24 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandDotRoleAttribute",
-			pos:  position{line: 491, col: 1, offset: 15229},
+			pos:  position{line: 492, col: 1, offset: 15256},
 			expr: &actionExpr{
-				pos: position{line: 491, col: 30, offset: 15258},
+				pos: position{line: 492, col: 30, offset: 15285},
 				run: (*parser).callonShortHandDotRoleAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 491, col: 30, offset: 15258},
+					pos: position{line: 492, col: 30, offset: 15285},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 491, col: 30, offset: 15258},
+							pos:        position{line: 492, col: 30, offset: 15285},
 							val:        ".",
 							ignoreCase: false,
 							want:       "\".\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 491, col: 34, offset: 15262},
+							pos:   position{line: 492, col: 34, offset: 15289},
 							label: "role",
 							expr: &ruleRefExpr{
-								pos:  position{line: 491, col: 40, offset: 15268},
+								pos:  position{line: 492, col: 40, offset: 15295},
 								name: "ShortHandAttributeValue",
 							},
 						},
@@ -12844,24 +13062,24 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandOptionAttribute",
-			pos:  position{line: 496, col: 1, offset: 15390},
+			pos:  position{line: 497, col: 1, offset: 15417},
 			expr: &actionExpr{
-				pos: position{line: 496, col: 29, offset: 15418},
+				pos: position{line: 497, col: 29, offset: 15445},
 				run: (*parser).callonShortHandOptionAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 496, col: 29, offset: 15418},
+					pos: position{line: 497, col: 29, offset: 15445},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 496, col: 29, offset: 15418},
+							pos:        position{line: 497, col: 29, offset: 15445},
 							val:        "%",
 							ignoreCase: false,
 							want:       "\"%\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 496, col: 33, offset: 15422},
+							pos:   position{line: 497, col: 33, offset: 15449},
 							label: "option",
 							expr: &ruleRefExpr{
-								pos:  position{line: 496, col: 41, offset: 15430},
+								pos:  position{line: 497, col: 41, offset: 15457},
 								name: "ShortHandAttributeValue",
 							},
 						},
@@ -12871,43 +13089,43 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandAttributeValue",
-			pos:  position{line: 501, col: 1, offset: 15543},
+			pos:  position{line: 502, col: 1, offset: 15570},
 			expr: &choiceExpr{
-				pos: position{line: 502, col: 5, offset: 15575},
+				pos: position{line: 503, col: 5, offset: 15602},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 502, col: 5, offset: 15575},
+						pos:  position{line: 503, col: 5, offset: 15602},
 						name: "SingleQuotedAttributeValue",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 503, col: 7, offset: 15609},
+						pos:  position{line: 504, col: 7, offset: 15636},
 						name: "DoubleQuotedAttributeValue",
 					},
 					&actionExpr{
-						pos: position{line: 504, col: 7, offset: 15643},
+						pos: position{line: 505, col: 7, offset: 15670},
 						run: (*parser).callonShortHandAttributeValue4,
 						expr: &seqExpr{
-							pos: position{line: 504, col: 7, offset: 15643},
+							pos: position{line: 505, col: 7, offset: 15670},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 504, col: 7, offset: 15643},
+									pos:   position{line: 505, col: 7, offset: 15670},
 									label: "elements",
 									expr: &oneOrMoreExpr{
-										pos: position{line: 504, col: 16, offset: 15652},
+										pos: position{line: 505, col: 16, offset: 15679},
 										expr: &choiceExpr{
-											pos: position{line: 507, col: 9, offset: 15834},
+											pos: position{line: 508, col: 9, offset: 15861},
 											alternatives: []interface{}{
 												&ruleRefExpr{
-													pos:  position{line: 507, col: 9, offset: 15834},
+													pos:  position{line: 508, col: 9, offset: 15861},
 													name: "QuotationMark",
 												},
 												&actionExpr{
-													pos: position{line: 508, col: 12, offset: 15860},
+													pos: position{line: 509, col: 12, offset: 15887},
 													run: (*parser).callonShortHandAttributeValue10,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 508, col: 12, offset: 15860},
+														pos: position{line: 509, col: 12, offset: 15887},
 														expr: &charClassMatcher{
-															pos:        position{line: 508, col: 12, offset: 15860},
+															pos:        position{line: 509, col: 12, offset: 15887},
 															val:        "[^,=.%# \\r\\n�{]]",
 															chars:      []rune{',', '=', '.', '%', '#', ' ', '\r', '\n', '�', '{', ']'},
 															ignoreCase: false,
@@ -12916,35 +13134,35 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 635, col: 5, offset: 20116},
+													pos: position{line: 636, col: 5, offset: 20143},
 													run: (*parser).callonShortHandAttributeValue13,
 													expr: &seqExpr{
-														pos: position{line: 635, col: 5, offset: 20116},
+														pos: position{line: 636, col: 5, offset: 20143},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 635, col: 5, offset: 20116},
+																pos: position{line: 636, col: 5, offset: 20143},
 																run: (*parser).callonShortHandAttributeValue15,
 															},
 															&labeledExpr{
-																pos:   position{line: 638, col: 5, offset: 20188},
+																pos:   position{line: 639, col: 5, offset: 20215},
 																label: "element",
 																expr: &choiceExpr{
-																	pos: position{line: 638, col: 14, offset: 20197},
+																	pos: position{line: 639, col: 14, offset: 20224},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 644, col: 5, offset: 20326},
+																			pos: position{line: 645, col: 5, offset: 20353},
 																			run: (*parser).callonShortHandAttributeValue18,
 																			expr: &seqExpr{
-																				pos: position{line: 644, col: 5, offset: 20326},
+																				pos: position{line: 645, col: 5, offset: 20353},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 644, col: 5, offset: 20326},
+																						pos:        position{line: 645, col: 5, offset: 20353},
 																						val:        "\\{",
 																						ignoreCase: false,
 																						want:       "\"\\\\{\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 644, col: 13, offset: 20334},
+																						pos:   position{line: 645, col: 13, offset: 20361},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 317, col: 18, offset: 9667},
@@ -12976,7 +13194,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 644, col: 32, offset: 20353},
+																						pos:        position{line: 645, col: 32, offset: 20380},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -12985,19 +13203,19 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 651, col: 5, offset: 20594},
+																			pos: position{line: 652, col: 5, offset: 20621},
 																			run: (*parser).callonShortHandAttributeValue28,
 																			expr: &seqExpr{
-																				pos: position{line: 651, col: 5, offset: 20594},
+																				pos: position{line: 652, col: 5, offset: 20621},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 651, col: 5, offset: 20594},
+																						pos:        position{line: 652, col: 5, offset: 20621},
 																						val:        "{",
 																						ignoreCase: false,
 																						want:       "\"{\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 651, col: 9, offset: 20598},
+																						pos:   position{line: 652, col: 9, offset: 20625},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 317, col: 18, offset: 9667},
@@ -13029,7 +13247,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 651, col: 28, offset: 20617},
+																						pos:        position{line: 652, col: 28, offset: 20644},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13038,19 +13256,19 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 657, col: 25, offset: 20798},
+																			pos: position{line: 658, col: 25, offset: 20825},
 																			run: (*parser).callonShortHandAttributeValue38,
 																			expr: &seqExpr{
-																				pos: position{line: 657, col: 25, offset: 20798},
+																				pos: position{line: 658, col: 25, offset: 20825},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 657, col: 25, offset: 20798},
+																						pos:        position{line: 658, col: 25, offset: 20825},
 																						val:        "{counter:",
 																						ignoreCase: false,
 																						want:       "\"{counter:\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 657, col: 37, offset: 20810},
+																						pos:   position{line: 658, col: 37, offset: 20837},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 317, col: 18, offset: 9667},
@@ -13082,33 +13300,33 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 657, col: 56, offset: 20829},
+																						pos:   position{line: 658, col: 56, offset: 20856},
 																						label: "start",
 																						expr: &zeroOrOneExpr{
-																							pos: position{line: 657, col: 62, offset: 20835},
+																							pos: position{line: 658, col: 62, offset: 20862},
 																							expr: &actionExpr{
-																								pos: position{line: 665, col: 17, offset: 21132},
+																								pos: position{line: 666, col: 17, offset: 21159},
 																								run: (*parser).callonShortHandAttributeValue49,
 																								expr: &seqExpr{
-																									pos: position{line: 665, col: 17, offset: 21132},
+																									pos: position{line: 666, col: 17, offset: 21159},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 665, col: 17, offset: 21132},
+																											pos:        position{line: 666, col: 17, offset: 21159},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 665, col: 21, offset: 21136},
+																											pos:   position{line: 666, col: 21, offset: 21163},
 																											label: "start",
 																											expr: &choiceExpr{
-																												pos: position{line: 665, col: 28, offset: 21143},
+																												pos: position{line: 666, col: 28, offset: 21170},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 665, col: 28, offset: 21143},
+																														pos: position{line: 666, col: 28, offset: 21170},
 																														run: (*parser).callonShortHandAttributeValue54,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 665, col: 28, offset: 21143},
+																															pos:        position{line: 666, col: 28, offset: 21170},
 																															val:        "[A-Za-z]",
 																															ranges:     []rune{'A', 'Z', 'a', 'z'},
 																															ignoreCase: false,
@@ -13116,12 +13334,12 @@ var g = &grammar{
 																														},
 																													},
 																													&actionExpr{
-																														pos: position{line: 667, col: 9, offset: 21197},
+																														pos: position{line: 668, col: 9, offset: 21224},
 																														run: (*parser).callonShortHandAttributeValue56,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 667, col: 9, offset: 21197},
+																															pos: position{line: 668, col: 9, offset: 21224},
 																															expr: &charClassMatcher{
-																																pos:        position{line: 667, col: 9, offset: 21197},
+																																pos:        position{line: 668, col: 9, offset: 21224},
 																																val:        "[0-9]",
 																																ranges:     []rune{'0', '9'},
 																																ignoreCase: false,
@@ -13138,7 +13356,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 657, col: 78, offset: 20851},
+																						pos:        position{line: 658, col: 78, offset: 20878},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13147,19 +13365,19 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 661, col: 25, offset: 20969},
+																			pos: position{line: 662, col: 25, offset: 20996},
 																			run: (*parser).callonShortHandAttributeValue60,
 																			expr: &seqExpr{
-																				pos: position{line: 661, col: 25, offset: 20969},
+																				pos: position{line: 662, col: 25, offset: 20996},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 661, col: 25, offset: 20969},
+																						pos:        position{line: 662, col: 25, offset: 20996},
 																						val:        "{counter2:",
 																						ignoreCase: false,
 																						want:       "\"{counter2:\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 661, col: 38, offset: 20982},
+																						pos:   position{line: 662, col: 38, offset: 21009},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 317, col: 18, offset: 9667},
@@ -13191,33 +13409,33 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 661, col: 57, offset: 21001},
+																						pos:   position{line: 662, col: 57, offset: 21028},
 																						label: "start",
 																						expr: &zeroOrOneExpr{
-																							pos: position{line: 661, col: 63, offset: 21007},
+																							pos: position{line: 662, col: 63, offset: 21034},
 																							expr: &actionExpr{
-																								pos: position{line: 665, col: 17, offset: 21132},
+																								pos: position{line: 666, col: 17, offset: 21159},
 																								run: (*parser).callonShortHandAttributeValue71,
 																								expr: &seqExpr{
-																									pos: position{line: 665, col: 17, offset: 21132},
+																									pos: position{line: 666, col: 17, offset: 21159},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 665, col: 17, offset: 21132},
+																											pos:        position{line: 666, col: 17, offset: 21159},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 665, col: 21, offset: 21136},
+																											pos:   position{line: 666, col: 21, offset: 21163},
 																											label: "start",
 																											expr: &choiceExpr{
-																												pos: position{line: 665, col: 28, offset: 21143},
+																												pos: position{line: 666, col: 28, offset: 21170},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 665, col: 28, offset: 21143},
+																														pos: position{line: 666, col: 28, offset: 21170},
 																														run: (*parser).callonShortHandAttributeValue76,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 665, col: 28, offset: 21143},
+																															pos:        position{line: 666, col: 28, offset: 21170},
 																															val:        "[A-Za-z]",
 																															ranges:     []rune{'A', 'Z', 'a', 'z'},
 																															ignoreCase: false,
@@ -13225,12 +13443,12 @@ var g = &grammar{
 																														},
 																													},
 																													&actionExpr{
-																														pos: position{line: 667, col: 9, offset: 21197},
+																														pos: position{line: 668, col: 9, offset: 21224},
 																														run: (*parser).callonShortHandAttributeValue78,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 667, col: 9, offset: 21197},
+																															pos: position{line: 668, col: 9, offset: 21224},
 																															expr: &charClassMatcher{
-																																pos:        position{line: 667, col: 9, offset: 21197},
+																																pos:        position{line: 668, col: 9, offset: 21224},
 																																val:        "[0-9]",
 																																ranges:     []rune{'0', '9'},
 																																ignoreCase: false,
@@ -13247,7 +13465,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 661, col: 79, offset: 21023},
+																						pos:        position{line: 662, col: 79, offset: 21050},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13262,10 +13480,10 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 513, col: 12, offset: 16028},
+													pos: position{line: 514, col: 12, offset: 16055},
 													run: (*parser).callonShortHandAttributeValue82,
 													expr: &litMatcher{
-														pos:        position{line: 513, col: 12, offset: 16028},
+														pos:        position{line: 514, col: 12, offset: 16055},
 														val:        "{",
 														ignoreCase: false,
 														want:       "\"{\"",
@@ -13276,19 +13494,19 @@ var g = &grammar{
 									},
 								},
 								&andExpr{
-									pos: position{line: 517, col: 5, offset: 16116},
+									pos: position{line: 518, col: 5, offset: 16143},
 									expr: &notExpr{
-										pos: position{line: 517, col: 7, offset: 16118},
+										pos: position{line: 518, col: 7, offset: 16145},
 										expr: &seqExpr{
-											pos: position{line: 517, col: 9, offset: 16120},
+											pos: position{line: 518, col: 9, offset: 16147},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 517, col: 9, offset: 16120},
+													pos: position{line: 518, col: 9, offset: 16147},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 91005},
+														pos: position{line: 2877, col: 10, offset: 91032},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 91005},
+															pos:        position{line: 2877, col: 10, offset: 91032},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13297,7 +13515,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 517, col: 16, offset: 16127},
+													pos:        position{line: 518, col: 16, offset: 16154},
 													val:        "=",
 													ignoreCase: false,
 													want:       "\"=\"",
@@ -13314,45 +13532,45 @@ var g = &grammar{
 		},
 		{
 			name: "PositionalAttribute",
-			pos:  position{line: 522, col: 1, offset: 16205},
+			pos:  position{line: 523, col: 1, offset: 16232},
 			expr: &choiceExpr{
-				pos: position{line: 522, col: 24, offset: 16228},
+				pos: position{line: 523, col: 24, offset: 16255},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 523, col: 5, offset: 16234},
+						pos: position{line: 524, col: 5, offset: 16261},
 						run: (*parser).callonPositionalAttribute2,
 						expr: &seqExpr{
-							pos: position{line: 523, col: 5, offset: 16234},
+							pos: position{line: 524, col: 5, offset: 16261},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 523, col: 5, offset: 16234},
+									pos:   position{line: 524, col: 5, offset: 16261},
 									label: "value",
 									expr: &ruleRefExpr{
-										pos:  position{line: 523, col: 12, offset: 16241},
+										pos:  position{line: 524, col: 12, offset: 16268},
 										name: "AttributeValue",
 									},
 								},
 								&choiceExpr{
-									pos: position{line: 523, col: 29, offset: 16258},
+									pos: position{line: 524, col: 29, offset: 16285},
 									alternatives: []interface{}{
 										&zeroOrOneExpr{
-											pos: position{line: 523, col: 29, offset: 16258},
+											pos: position{line: 524, col: 29, offset: 16285},
 											expr: &seqExpr{
-												pos: position{line: 523, col: 30, offset: 16259},
+												pos: position{line: 524, col: 30, offset: 16286},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 523, col: 30, offset: 16259},
+														pos:        position{line: 524, col: 30, offset: 16286},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 523, col: 34, offset: 16263},
+														pos: position{line: 524, col: 34, offset: 16290},
 														expr: &actionExpr{
-															pos: position{line: 2876, col: 10, offset: 91005},
+															pos: position{line: 2877, col: 10, offset: 91032},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2876, col: 10, offset: 91005},
+																pos:        position{line: 2877, col: 10, offset: 91032},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13364,9 +13582,9 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 523, col: 45, offset: 16274},
+											pos: position{line: 524, col: 45, offset: 16301},
 											expr: &litMatcher{
-												pos:        position{line: 523, col: 46, offset: 16275},
+												pos:        position{line: 524, col: 46, offset: 16302},
 												val:        "]",
 												ignoreCase: false,
 												want:       "\"]\"",
@@ -13378,24 +13596,24 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 528, col: 6, offset: 16420},
+						pos: position{line: 529, col: 6, offset: 16447},
 						run: (*parser).callonPositionalAttribute15,
 						expr: &seqExpr{
-							pos: position{line: 528, col: 6, offset: 16420},
+							pos: position{line: 529, col: 6, offset: 16447},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 528, col: 6, offset: 16420},
+									pos:   position{line: 529, col: 6, offset: 16447},
 									label: "value",
 									expr: &seqExpr{
-										pos: position{line: 528, col: 13, offset: 16427},
+										pos: position{line: 529, col: 13, offset: 16454},
 										exprs: []interface{}{
 											&zeroOrMoreExpr{
-												pos: position{line: 528, col: 13, offset: 16427},
+												pos: position{line: 529, col: 13, offset: 16454},
 												expr: &actionExpr{
-													pos: position{line: 2876, col: 10, offset: 91005},
+													pos: position{line: 2877, col: 10, offset: 91032},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2876, col: 10, offset: 91005},
+														pos:        position{line: 2877, col: 10, offset: 91032},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13404,24 +13622,24 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 528, col: 21, offset: 16435},
+												pos: position{line: 529, col: 21, offset: 16462},
 												alternatives: []interface{}{
 													&seqExpr{
-														pos: position{line: 528, col: 22, offset: 16436},
+														pos: position{line: 529, col: 22, offset: 16463},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 528, col: 22, offset: 16436},
+																pos:        position{line: 529, col: 22, offset: 16463},
 																val:        ",",
 																ignoreCase: false,
 																want:       "\",\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 528, col: 26, offset: 16440},
+																pos: position{line: 529, col: 26, offset: 16467},
 																expr: &actionExpr{
-																	pos: position{line: 2876, col: 10, offset: 91005},
+																	pos: position{line: 2877, col: 10, offset: 91032},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2876, col: 10, offset: 91005},
+																		pos:        position{line: 2877, col: 10, offset: 91032},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13432,9 +13650,9 @@ var g = &grammar{
 														},
 													},
 													&andExpr{
-														pos: position{line: 528, col: 36, offset: 16450},
+														pos: position{line: 529, col: 36, offset: 16477},
 														expr: &litMatcher{
-															pos:        position{line: 528, col: 37, offset: 16451},
+															pos:        position{line: 529, col: 37, offset: 16478},
 															val:        "]",
 															ignoreCase: false,
 															want:       "\"]\"",
@@ -13446,7 +13664,7 @@ var g = &grammar{
 									},
 								},
 								&andCodeExpr{
-									pos: position{line: 529, col: 5, offset: 16461},
+									pos: position{line: 530, col: 5, offset: 16488},
 									run: (*parser).callonPositionalAttribute30,
 								},
 							},
@@ -13457,29 +13675,29 @@ var g = &grammar{
 		},
 		{
 			name: "NamedAttribute",
-			pos:  position{line: 539, col: 1, offset: 16776},
+			pos:  position{line: 540, col: 1, offset: 16803},
 			expr: &actionExpr{
-				pos: position{line: 540, col: 5, offset: 16799},
+				pos: position{line: 541, col: 5, offset: 16826},
 				run: (*parser).callonNamedAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 540, col: 5, offset: 16799},
+					pos: position{line: 541, col: 5, offset: 16826},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 540, col: 5, offset: 16799},
+							pos:   position{line: 541, col: 5, offset: 16826},
 							label: "key",
 							expr: &actionExpr{
-								pos: position{line: 548, col: 22, offset: 17087},
+								pos: position{line: 549, col: 22, offset: 17114},
 								run: (*parser).callonNamedAttribute4,
 								expr: &seqExpr{
-									pos: position{line: 548, col: 22, offset: 17087},
+									pos: position{line: 549, col: 22, offset: 17114},
 									exprs: []interface{}{
 										&notExpr{
-											pos: position{line: 548, col: 22, offset: 17087},
+											pos: position{line: 549, col: 22, offset: 17114},
 											expr: &actionExpr{
-												pos: position{line: 2876, col: 10, offset: 91005},
+												pos: position{line: 2877, col: 10, offset: 91032},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2876, col: 10, offset: 91005},
+													pos:        position{line: 2877, col: 10, offset: 91032},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13488,9 +13706,9 @@ var g = &grammar{
 											},
 										},
 										&oneOrMoreExpr{
-											pos: position{line: 548, col: 29, offset: 17094},
+											pos: position{line: 549, col: 29, offset: 17121},
 											expr: &charClassMatcher{
-												pos:        position{line: 548, col: 29, offset: 17094},
+												pos:        position{line: 549, col: 29, offset: 17121},
 												val:        "[^\\r\\n=,]]",
 												chars:      []rune{'\r', '\n', '=', ',', ']'},
 												ignoreCase: false,
@@ -13502,18 +13720,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 541, col: 5, offset: 16828},
+							pos:        position{line: 542, col: 5, offset: 16855},
 							val:        "=",
 							ignoreCase: false,
 							want:       "\"=\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 541, col: 9, offset: 16832},
+							pos: position{line: 542, col: 9, offset: 16859},
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 10, offset: 91005},
+								pos: position{line: 2877, col: 10, offset: 91032},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2876, col: 10, offset: 91005},
+									pos:        position{line: 2877, col: 10, offset: 91032},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13522,31 +13740,31 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 542, col: 5, offset: 16844},
+							pos:   position{line: 543, col: 5, offset: 16871},
 							label: "value",
 							expr: &ruleRefExpr{
-								pos:  position{line: 542, col: 12, offset: 16851},
+								pos:  position{line: 543, col: 12, offset: 16878},
 								name: "AttributeValue",
 							},
 						},
 						&zeroOrOneExpr{
-							pos: position{line: 542, col: 28, offset: 16867},
+							pos: position{line: 543, col: 28, offset: 16894},
 							expr: &seqExpr{
-								pos: position{line: 542, col: 29, offset: 16868},
+								pos: position{line: 543, col: 29, offset: 16895},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 542, col: 29, offset: 16868},
+										pos:        position{line: 543, col: 29, offset: 16895},
 										val:        ",",
 										ignoreCase: false,
 										want:       "\",\"",
 									},
 									&zeroOrMoreExpr{
-										pos: position{line: 542, col: 33, offset: 16872},
+										pos: position{line: 543, col: 33, offset: 16899},
 										expr: &actionExpr{
-											pos: position{line: 2876, col: 10, offset: 91005},
+											pos: position{line: 2877, col: 10, offset: 91032},
 											run: (*parser).callonNamedAttribute21,
 											expr: &charClassMatcher{
-												pos:        position{line: 2876, col: 10, offset: 91005},
+												pos:        position{line: 2877, col: 10, offset: 91032},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13563,48 +13781,48 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeValue",
-			pos:  position{line: 552, col: 1, offset: 17151},
+			pos:  position{line: 553, col: 1, offset: 17178},
 			expr: &actionExpr{
-				pos: position{line: 553, col: 5, offset: 17174},
+				pos: position{line: 554, col: 5, offset: 17201},
 				run: (*parser).callonAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 553, col: 5, offset: 17174},
+					pos: position{line: 554, col: 5, offset: 17201},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 553, col: 5, offset: 17174},
+							pos:   position{line: 554, col: 5, offset: 17201},
 							label: "value",
 							expr: &choiceExpr{
-								pos: position{line: 554, col: 9, offset: 17190},
+								pos: position{line: 555, col: 9, offset: 17217},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 554, col: 9, offset: 17190},
+										pos:  position{line: 555, col: 9, offset: 17217},
 										name: "SingleQuotedAttributeValue",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 555, col: 11, offset: 17228},
+										pos:  position{line: 556, col: 11, offset: 17255},
 										name: "DoubleQuotedAttributeValue",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 556, col: 11, offset: 17266},
+										pos:  position{line: 557, col: 11, offset: 17293},
 										name: "UnquotedAttributeValue",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 558, col: 5, offset: 17300},
+							pos: position{line: 559, col: 5, offset: 17327},
 							expr: &notExpr{
-								pos: position{line: 558, col: 7, offset: 17302},
+								pos: position{line: 559, col: 7, offset: 17329},
 								expr: &seqExpr{
-									pos: position{line: 558, col: 9, offset: 17304},
+									pos: position{line: 559, col: 9, offset: 17331},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 558, col: 9, offset: 17304},
+											pos: position{line: 559, col: 9, offset: 17331},
 											expr: &actionExpr{
-												pos: position{line: 2876, col: 10, offset: 91005},
+												pos: position{line: 2877, col: 10, offset: 91032},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2876, col: 10, offset: 91005},
+													pos:        position{line: 2877, col: 10, offset: 91032},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13613,7 +13831,7 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 558, col: 16, offset: 17311},
+											pos:        position{line: 559, col: 16, offset: 17338},
 											val:        "=",
 											ignoreCase: false,
 											want:       "\"=\"",
@@ -13628,38 +13846,38 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedAttributeValue",
-			pos:  position{line: 562, col: 1, offset: 17352},
+			pos:  position{line: 563, col: 1, offset: 17379},
 			expr: &actionExpr{
-				pos: position{line: 563, col: 5, offset: 17387},
+				pos: position{line: 564, col: 5, offset: 17414},
 				run: (*parser).callonSingleQuotedAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 563, col: 5, offset: 17387},
+					pos: position{line: 564, col: 5, offset: 17414},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 563, col: 5, offset: 17387},
+							pos:        position{line: 564, col: 5, offset: 17414},
 							val:        "'",
 							ignoreCase: false,
 							want:       "\"'\"",
 						},
 						&notExpr{
-							pos: position{line: 563, col: 9, offset: 17391},
+							pos: position{line: 564, col: 9, offset: 17418},
 							expr: &litMatcher{
-								pos:        position{line: 563, col: 10, offset: 17392},
+								pos:        position{line: 564, col: 10, offset: 17419},
 								val:        "`",
 								ignoreCase: false,
 								want:       "\"`\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 564, col: 5, offset: 17471},
+							pos:   position{line: 565, col: 5, offset: 17498},
 							label: "content",
 							expr: &ruleRefExpr{
-								pos:  position{line: 564, col: 14, offset: 17480},
+								pos:  position{line: 565, col: 14, offset: 17507},
 								name: "SingleQuotedAttributeValueContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 565, col: 5, offset: 17519},
+							pos:        position{line: 566, col: 5, offset: 17546},
 							val:        "'",
 							ignoreCase: false,
 							want:       "\"'\"",
@@ -13670,25 +13888,25 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedAttributeValueContent",
-			pos:  position{line: 569, col: 1, offset: 17560},
+			pos:  position{line: 570, col: 1, offset: 17587},
 			expr: &actionExpr{
-				pos: position{line: 570, col: 5, offset: 17602},
+				pos: position{line: 571, col: 5, offset: 17629},
 				run: (*parser).callonSingleQuotedAttributeValueContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 570, col: 5, offset: 17602},
+					pos:   position{line: 571, col: 5, offset: 17629},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 570, col: 14, offset: 17611},
+						pos: position{line: 571, col: 14, offset: 17638},
 						expr: &choiceExpr{
-							pos: position{line: 571, col: 9, offset: 17621},
+							pos: position{line: 572, col: 9, offset: 17648},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2770, col: 14, offset: 88153},
+									pos: position{line: 2771, col: 14, offset: 88180},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2770, col: 14, offset: 88153},
+										pos: position{line: 2771, col: 14, offset: 88180},
 										expr: &charClassMatcher{
-											pos:        position{line: 2770, col: 14, offset: 88153},
+											pos:        position{line: 2771, col: 14, offset: 88180},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -13697,10 +13915,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2876, col: 10, offset: 91005},
+									pos: position{line: 2877, col: 10, offset: 91032},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2876, col: 10, offset: 91005},
+										pos:        position{line: 2877, col: 10, offset: 91032},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -13708,39 +13926,39 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 573, col: 11, offset: 17657},
+									pos:  position{line: 574, col: 11, offset: 17684},
 									name: "QuotationMark",
 								},
 								&actionExpr{
-									pos: position{line: 635, col: 5, offset: 20116},
+									pos: position{line: 636, col: 5, offset: 20143},
 									run: (*parser).callonSingleQuotedAttributeValueContent11,
 									expr: &seqExpr{
-										pos: position{line: 635, col: 5, offset: 20116},
+										pos: position{line: 636, col: 5, offset: 20143},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 635, col: 5, offset: 20116},
+												pos: position{line: 636, col: 5, offset: 20143},
 												run: (*parser).callonSingleQuotedAttributeValueContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 638, col: 5, offset: 20188},
+												pos:   position{line: 639, col: 5, offset: 20215},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 638, col: 14, offset: 20197},
+													pos: position{line: 639, col: 14, offset: 20224},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 644, col: 5, offset: 20326},
+															pos: position{line: 645, col: 5, offset: 20353},
 															run: (*parser).callonSingleQuotedAttributeValueContent16,
 															expr: &seqExpr{
-																pos: position{line: 644, col: 5, offset: 20326},
+																pos: position{line: 645, col: 5, offset: 20353},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 644, col: 5, offset: 20326},
+																		pos:        position{line: 645, col: 5, offset: 20353},
 																		val:        "\\{",
 																		ignoreCase: false,
 																		want:       "\"\\\\{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 644, col: 13, offset: 20334},
+																		pos:   position{line: 645, col: 13, offset: 20361},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 317, col: 18, offset: 9667},
@@ -13772,7 +13990,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 644, col: 32, offset: 20353},
+																		pos:        position{line: 645, col: 32, offset: 20380},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -13781,19 +13999,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 651, col: 5, offset: 20594},
+															pos: position{line: 652, col: 5, offset: 20621},
 															run: (*parser).callonSingleQuotedAttributeValueContent26,
 															expr: &seqExpr{
-																pos: position{line: 651, col: 5, offset: 20594},
+																pos: position{line: 652, col: 5, offset: 20621},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 651, col: 5, offset: 20594},
+																		pos:        position{line: 652, col: 5, offset: 20621},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 651, col: 9, offset: 20598},
+																		pos:   position{line: 652, col: 9, offset: 20625},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 317, col: 18, offset: 9667},
@@ -13825,7 +14043,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 651, col: 28, offset: 20617},
+																		pos:        position{line: 652, col: 28, offset: 20644},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -13834,19 +14052,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 657, col: 25, offset: 20798},
+															pos: position{line: 658, col: 25, offset: 20825},
 															run: (*parser).callonSingleQuotedAttributeValueContent36,
 															expr: &seqExpr{
-																pos: position{line: 657, col: 25, offset: 20798},
+																pos: position{line: 658, col: 25, offset: 20825},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 657, col: 25, offset: 20798},
+																		pos:        position{line: 658, col: 25, offset: 20825},
 																		val:        "{counter:",
 																		ignoreCase: false,
 																		want:       "\"{counter:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 657, col: 37, offset: 20810},
+																		pos:   position{line: 658, col: 37, offset: 20837},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 317, col: 18, offset: 9667},
@@ -13878,33 +14096,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 657, col: 56, offset: 20829},
+																		pos:   position{line: 658, col: 56, offset: 20856},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 657, col: 62, offset: 20835},
+																			pos: position{line: 658, col: 62, offset: 20862},
 																			expr: &actionExpr{
-																				pos: position{line: 665, col: 17, offset: 21132},
+																				pos: position{line: 666, col: 17, offset: 21159},
 																				run: (*parser).callonSingleQuotedAttributeValueContent47,
 																				expr: &seqExpr{
-																					pos: position{line: 665, col: 17, offset: 21132},
+																					pos: position{line: 666, col: 17, offset: 21159},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 665, col: 17, offset: 21132},
+																							pos:        position{line: 666, col: 17, offset: 21159},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 665, col: 21, offset: 21136},
+																							pos:   position{line: 666, col: 21, offset: 21163},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 665, col: 28, offset: 21143},
+																								pos: position{line: 666, col: 28, offset: 21170},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 665, col: 28, offset: 21143},
+																										pos: position{line: 666, col: 28, offset: 21170},
 																										run: (*parser).callonSingleQuotedAttributeValueContent52,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 665, col: 28, offset: 21143},
+																											pos:        position{line: 666, col: 28, offset: 21170},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -13912,12 +14130,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 667, col: 9, offset: 21197},
+																										pos: position{line: 668, col: 9, offset: 21224},
 																										run: (*parser).callonSingleQuotedAttributeValueContent54,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 667, col: 9, offset: 21197},
+																											pos: position{line: 668, col: 9, offset: 21224},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 667, col: 9, offset: 21197},
+																												pos:        position{line: 668, col: 9, offset: 21224},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -13934,7 +14152,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 657, col: 78, offset: 20851},
+																		pos:        position{line: 658, col: 78, offset: 20878},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -13943,19 +14161,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 661, col: 25, offset: 20969},
+															pos: position{line: 662, col: 25, offset: 20996},
 															run: (*parser).callonSingleQuotedAttributeValueContent58,
 															expr: &seqExpr{
-																pos: position{line: 661, col: 25, offset: 20969},
+																pos: position{line: 662, col: 25, offset: 20996},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 661, col: 25, offset: 20969},
+																		pos:        position{line: 662, col: 25, offset: 20996},
 																		val:        "{counter2:",
 																		ignoreCase: false,
 																		want:       "\"{counter2:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 661, col: 38, offset: 20982},
+																		pos:   position{line: 662, col: 38, offset: 21009},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 317, col: 18, offset: 9667},
@@ -13987,33 +14205,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 661, col: 57, offset: 21001},
+																		pos:   position{line: 662, col: 57, offset: 21028},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 661, col: 63, offset: 21007},
+																			pos: position{line: 662, col: 63, offset: 21034},
 																			expr: &actionExpr{
-																				pos: position{line: 665, col: 17, offset: 21132},
+																				pos: position{line: 666, col: 17, offset: 21159},
 																				run: (*parser).callonSingleQuotedAttributeValueContent69,
 																				expr: &seqExpr{
-																					pos: position{line: 665, col: 17, offset: 21132},
+																					pos: position{line: 666, col: 17, offset: 21159},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 665, col: 17, offset: 21132},
+																							pos:        position{line: 666, col: 17, offset: 21159},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 665, col: 21, offset: 21136},
+																							pos:   position{line: 666, col: 21, offset: 21163},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 665, col: 28, offset: 21143},
+																								pos: position{line: 666, col: 28, offset: 21170},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 665, col: 28, offset: 21143},
+																										pos: position{line: 666, col: 28, offset: 21170},
 																										run: (*parser).callonSingleQuotedAttributeValueContent74,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 665, col: 28, offset: 21143},
+																											pos:        position{line: 666, col: 28, offset: 21170},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14021,12 +14239,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 667, col: 9, offset: 21197},
+																										pos: position{line: 668, col: 9, offset: 21224},
 																										run: (*parser).callonSingleQuotedAttributeValueContent76,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 667, col: 9, offset: 21197},
+																											pos: position{line: 668, col: 9, offset: 21224},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 667, col: 9, offset: 21197},
+																												pos:        position{line: 668, col: 9, offset: 21224},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14043,7 +14261,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 661, col: 79, offset: 21023},
+																		pos:        position{line: 662, col: 79, offset: 21050},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14058,44 +14276,44 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 575, col: 12, offset: 17711},
+									pos: position{line: 576, col: 12, offset: 17738},
 									run: (*parser).callonSingleQuotedAttributeValueContent80,
 									expr: &litMatcher{
-										pos:        position{line: 575, col: 12, offset: 17711},
+										pos:        position{line: 576, col: 12, offset: 17738},
 										val:        "\\'",
 										ignoreCase: false,
 										want:       "\"\\\\'\"",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 578, col: 13, offset: 17813},
+									pos:        position{line: 579, col: 13, offset: 17840},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&litMatcher{
-									pos:        position{line: 578, col: 20, offset: 17820},
+									pos:        position{line: 579, col: 20, offset: 17847},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&actionExpr{
-									pos: position{line: 578, col: 27, offset: 17827},
+									pos: position{line: 579, col: 27, offset: 17854},
 									run: (*parser).callonSingleQuotedAttributeValueContent84,
 									expr: &litMatcher{
-										pos:        position{line: 578, col: 27, offset: 17827},
+										pos:        position{line: 579, col: 27, offset: 17854},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
 									},
 								},
 								&actionExpr{
-									pos: position{line: 581, col: 12, offset: 17987},
+									pos: position{line: 582, col: 12, offset: 18014},
 									run: (*parser).callonSingleQuotedAttributeValueContent86,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 581, col: 12, offset: 17987},
+										pos: position{line: 582, col: 12, offset: 18014},
 										expr: &charClassMatcher{
-											pos:        position{line: 581, col: 12, offset: 17987},
+											pos:        position{line: 582, col: 12, offset: 18014},
 											val:        "[^\\r\\n\\\\\\ ]",
 											chars:      []rune{'\r', '\n', '\\', '\'', ' '},
 											ignoreCase: false,
@@ -14111,56 +14329,56 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedAttributeValue",
-			pos:  position{line: 588, col: 1, offset: 18184},
+			pos:  position{line: 589, col: 1, offset: 18211},
 			expr: &actionExpr{
-				pos: position{line: 589, col: 5, offset: 18219},
+				pos: position{line: 590, col: 5, offset: 18246},
 				run: (*parser).callonDoubleQuotedAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 589, col: 5, offset: 18219},
+					pos: position{line: 590, col: 5, offset: 18246},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 589, col: 5, offset: 18219},
+							pos:        position{line: 590, col: 5, offset: 18246},
 							val:        "\"",
 							ignoreCase: false,
 							want:       "\"\\\"\"",
 						},
 						&notExpr{
-							pos: position{line: 589, col: 10, offset: 18224},
+							pos: position{line: 590, col: 10, offset: 18251},
 							expr: &litMatcher{
-								pos:        position{line: 589, col: 11, offset: 18225},
+								pos:        position{line: 590, col: 11, offset: 18252},
 								val:        "`",
 								ignoreCase: false,
 								want:       "\"`\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 590, col: 5, offset: 18304},
+							pos:   position{line: 591, col: 5, offset: 18331},
 							label: "content",
 							expr: &ruleRefExpr{
-								pos:  position{line: 590, col: 14, offset: 18313},
+								pos:  position{line: 591, col: 14, offset: 18340},
 								name: "DoubleQuotedAttributeValueContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 591, col: 5, offset: 18352},
+							pos:        position{line: 592, col: 5, offset: 18379},
 							val:        "\"",
 							ignoreCase: false,
 							want:       "\"\\\"\"",
 						},
 						&andExpr{
-							pos: position{line: 591, col: 10, offset: 18357},
+							pos: position{line: 592, col: 10, offset: 18384},
 							expr: &notExpr{
-								pos: position{line: 591, col: 12, offset: 18359},
+								pos: position{line: 592, col: 12, offset: 18386},
 								expr: &seqExpr{
-									pos: position{line: 591, col: 14, offset: 18361},
+									pos: position{line: 592, col: 14, offset: 18388},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 591, col: 14, offset: 18361},
+											pos: position{line: 592, col: 14, offset: 18388},
 											expr: &actionExpr{
-												pos: position{line: 2876, col: 10, offset: 91005},
+												pos: position{line: 2877, col: 10, offset: 91032},
 												run: (*parser).callonDoubleQuotedAttributeValue13,
 												expr: &charClassMatcher{
-													pos:        position{line: 2876, col: 10, offset: 91005},
+													pos:        position{line: 2877, col: 10, offset: 91032},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14169,7 +14387,7 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 591, col: 21, offset: 18368},
+											pos:        position{line: 592, col: 21, offset: 18395},
 											val:        "=",
 											ignoreCase: false,
 											want:       "\"=\"",
@@ -14184,25 +14402,25 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedAttributeValueContent",
-			pos:  position{line: 595, col: 1, offset: 18411},
+			pos:  position{line: 596, col: 1, offset: 18438},
 			expr: &actionExpr{
-				pos: position{line: 596, col: 5, offset: 18453},
+				pos: position{line: 597, col: 5, offset: 18480},
 				run: (*parser).callonDoubleQuotedAttributeValueContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 596, col: 5, offset: 18453},
+					pos:   position{line: 597, col: 5, offset: 18480},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 596, col: 14, offset: 18462},
+						pos: position{line: 597, col: 14, offset: 18489},
 						expr: &choiceExpr{
-							pos: position{line: 597, col: 9, offset: 18472},
+							pos: position{line: 598, col: 9, offset: 18499},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2770, col: 14, offset: 88153},
+									pos: position{line: 2771, col: 14, offset: 88180},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2770, col: 14, offset: 88153},
+										pos: position{line: 2771, col: 14, offset: 88180},
 										expr: &charClassMatcher{
-											pos:        position{line: 2770, col: 14, offset: 88153},
+											pos:        position{line: 2771, col: 14, offset: 88180},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14211,10 +14429,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2876, col: 10, offset: 91005},
+									pos: position{line: 2877, col: 10, offset: 91032},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2876, col: 10, offset: 91005},
+										pos:        position{line: 2877, col: 10, offset: 91032},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14222,39 +14440,39 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 599, col: 11, offset: 18508},
+									pos:  position{line: 600, col: 11, offset: 18535},
 									name: "QuotationMark",
 								},
 								&actionExpr{
-									pos: position{line: 635, col: 5, offset: 20116},
+									pos: position{line: 636, col: 5, offset: 20143},
 									run: (*parser).callonDoubleQuotedAttributeValueContent11,
 									expr: &seqExpr{
-										pos: position{line: 635, col: 5, offset: 20116},
+										pos: position{line: 636, col: 5, offset: 20143},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 635, col: 5, offset: 20116},
+												pos: position{line: 636, col: 5, offset: 20143},
 												run: (*parser).callonDoubleQuotedAttributeValueContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 638, col: 5, offset: 20188},
+												pos:   position{line: 639, col: 5, offset: 20215},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 638, col: 14, offset: 20197},
+													pos: position{line: 639, col: 14, offset: 20224},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 644, col: 5, offset: 20326},
+															pos: position{line: 645, col: 5, offset: 20353},
 															run: (*parser).callonDoubleQuotedAttributeValueContent16,
 															expr: &seqExpr{
-																pos: position{line: 644, col: 5, offset: 20326},
+																pos: position{line: 645, col: 5, offset: 20353},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 644, col: 5, offset: 20326},
+																		pos:        position{line: 645, col: 5, offset: 20353},
 																		val:        "\\{",
 																		ignoreCase: false,
 																		want:       "\"\\\\{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 644, col: 13, offset: 20334},
+																		pos:   position{line: 645, col: 13, offset: 20361},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 317, col: 18, offset: 9667},
@@ -14286,7 +14504,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 644, col: 32, offset: 20353},
+																		pos:        position{line: 645, col: 32, offset: 20380},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14295,19 +14513,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 651, col: 5, offset: 20594},
+															pos: position{line: 652, col: 5, offset: 20621},
 															run: (*parser).callonDoubleQuotedAttributeValueContent26,
 															expr: &seqExpr{
-																pos: position{line: 651, col: 5, offset: 20594},
+																pos: position{line: 652, col: 5, offset: 20621},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 651, col: 5, offset: 20594},
+																		pos:        position{line: 652, col: 5, offset: 20621},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 651, col: 9, offset: 20598},
+																		pos:   position{line: 652, col: 9, offset: 20625},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 317, col: 18, offset: 9667},
@@ -14339,7 +14557,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 651, col: 28, offset: 20617},
+																		pos:        position{line: 652, col: 28, offset: 20644},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14348,19 +14566,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 657, col: 25, offset: 20798},
+															pos: position{line: 658, col: 25, offset: 20825},
 															run: (*parser).callonDoubleQuotedAttributeValueContent36,
 															expr: &seqExpr{
-																pos: position{line: 657, col: 25, offset: 20798},
+																pos: position{line: 658, col: 25, offset: 20825},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 657, col: 25, offset: 20798},
+																		pos:        position{line: 658, col: 25, offset: 20825},
 																		val:        "{counter:",
 																		ignoreCase: false,
 																		want:       "\"{counter:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 657, col: 37, offset: 20810},
+																		pos:   position{line: 658, col: 37, offset: 20837},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 317, col: 18, offset: 9667},
@@ -14392,33 +14610,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 657, col: 56, offset: 20829},
+																		pos:   position{line: 658, col: 56, offset: 20856},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 657, col: 62, offset: 20835},
+																			pos: position{line: 658, col: 62, offset: 20862},
 																			expr: &actionExpr{
-																				pos: position{line: 665, col: 17, offset: 21132},
+																				pos: position{line: 666, col: 17, offset: 21159},
 																				run: (*parser).callonDoubleQuotedAttributeValueContent47,
 																				expr: &seqExpr{
-																					pos: position{line: 665, col: 17, offset: 21132},
+																					pos: position{line: 666, col: 17, offset: 21159},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 665, col: 17, offset: 21132},
+																							pos:        position{line: 666, col: 17, offset: 21159},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 665, col: 21, offset: 21136},
+																							pos:   position{line: 666, col: 21, offset: 21163},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 665, col: 28, offset: 21143},
+																								pos: position{line: 666, col: 28, offset: 21170},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 665, col: 28, offset: 21143},
+																										pos: position{line: 666, col: 28, offset: 21170},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent52,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 665, col: 28, offset: 21143},
+																											pos:        position{line: 666, col: 28, offset: 21170},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14426,12 +14644,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 667, col: 9, offset: 21197},
+																										pos: position{line: 668, col: 9, offset: 21224},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent54,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 667, col: 9, offset: 21197},
+																											pos: position{line: 668, col: 9, offset: 21224},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 667, col: 9, offset: 21197},
+																												pos:        position{line: 668, col: 9, offset: 21224},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14448,7 +14666,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 657, col: 78, offset: 20851},
+																		pos:        position{line: 658, col: 78, offset: 20878},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14457,19 +14675,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 661, col: 25, offset: 20969},
+															pos: position{line: 662, col: 25, offset: 20996},
 															run: (*parser).callonDoubleQuotedAttributeValueContent58,
 															expr: &seqExpr{
-																pos: position{line: 661, col: 25, offset: 20969},
+																pos: position{line: 662, col: 25, offset: 20996},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 661, col: 25, offset: 20969},
+																		pos:        position{line: 662, col: 25, offset: 20996},
 																		val:        "{counter2:",
 																		ignoreCase: false,
 																		want:       "\"{counter2:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 661, col: 38, offset: 20982},
+																		pos:   position{line: 662, col: 38, offset: 21009},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 317, col: 18, offset: 9667},
@@ -14501,33 +14719,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 661, col: 57, offset: 21001},
+																		pos:   position{line: 662, col: 57, offset: 21028},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 661, col: 63, offset: 21007},
+																			pos: position{line: 662, col: 63, offset: 21034},
 																			expr: &actionExpr{
-																				pos: position{line: 665, col: 17, offset: 21132},
+																				pos: position{line: 666, col: 17, offset: 21159},
 																				run: (*parser).callonDoubleQuotedAttributeValueContent69,
 																				expr: &seqExpr{
-																					pos: position{line: 665, col: 17, offset: 21132},
+																					pos: position{line: 666, col: 17, offset: 21159},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 665, col: 17, offset: 21132},
+																							pos:        position{line: 666, col: 17, offset: 21159},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 665, col: 21, offset: 21136},
+																							pos:   position{line: 666, col: 21, offset: 21163},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 665, col: 28, offset: 21143},
+																								pos: position{line: 666, col: 28, offset: 21170},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 665, col: 28, offset: 21143},
+																										pos: position{line: 666, col: 28, offset: 21170},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent74,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 665, col: 28, offset: 21143},
+																											pos:        position{line: 666, col: 28, offset: 21170},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14535,12 +14753,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 667, col: 9, offset: 21197},
+																										pos: position{line: 668, col: 9, offset: 21224},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent76,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 667, col: 9, offset: 21197},
+																											pos: position{line: 668, col: 9, offset: 21224},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 667, col: 9, offset: 21197},
+																												pos:        position{line: 668, col: 9, offset: 21224},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14557,7 +14775,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 661, col: 79, offset: 21023},
+																		pos:        position{line: 662, col: 79, offset: 21050},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14572,50 +14790,50 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 601, col: 12, offset: 18563},
+									pos: position{line: 602, col: 12, offset: 18590},
 									run: (*parser).callonDoubleQuotedAttributeValueContent80,
 									expr: &litMatcher{
-										pos:        position{line: 601, col: 12, offset: 18563},
+										pos:        position{line: 602, col: 12, offset: 18590},
 										val:        "\\\"",
 										ignoreCase: false,
 										want:       "\"\\\\\\\"\"",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 604, col: 13, offset: 18665},
+									pos:        position{line: 605, col: 13, offset: 18692},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&litMatcher{
-									pos:        position{line: 604, col: 21, offset: 18673},
+									pos:        position{line: 605, col: 21, offset: 18700},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&litMatcher{
-									pos:        position{line: 604, col: 29, offset: 18681},
+									pos:        position{line: 605, col: 29, offset: 18708},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&actionExpr{
-									pos: position{line: 604, col: 35, offset: 18687},
+									pos: position{line: 605, col: 35, offset: 18714},
 									run: (*parser).callonDoubleQuotedAttributeValueContent85,
 									expr: &litMatcher{
-										pos:        position{line: 604, col: 35, offset: 18687},
+										pos:        position{line: 605, col: 35, offset: 18714},
 										val:        "`",
 										ignoreCase: false,
 										want:       "\"`\"",
 									},
 								},
 								&actionExpr{
-									pos: position{line: 607, col: 12, offset: 18870},
+									pos: position{line: 608, col: 12, offset: 18897},
 									run: (*parser).callonDoubleQuotedAttributeValueContent87,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 607, col: 12, offset: 18870},
+										pos: position{line: 608, col: 12, offset: 18897},
 										expr: &charClassMatcher{
-											pos:        position{line: 607, col: 12, offset: 18870},
+											pos:        position{line: 608, col: 12, offset: 18897},
 											val:        "[^\\r\\n\\\\\"` ]",
 											chars:      []rune{'\r', '\n', '\\', '"', '`', ' '},
 											ignoreCase: false,
@@ -14631,20 +14849,20 @@ var g = &grammar{
 		},
 		{
 			name: "UnquotedAttributeValue",
-			pos:  position{line: 615, col: 1, offset: 19144},
+			pos:  position{line: 616, col: 1, offset: 19171},
 			expr: &actionExpr{
-				pos: position{line: 618, col: 5, offset: 19328},
+				pos: position{line: 619, col: 5, offset: 19355},
 				run: (*parser).callonUnquotedAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 618, col: 5, offset: 19328},
+					pos: position{line: 619, col: 5, offset: 19355},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 618, col: 5, offset: 19328},
+							pos: position{line: 619, col: 5, offset: 19355},
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 10, offset: 91005},
+								pos: position{line: 2877, col: 10, offset: 91032},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2876, col: 10, offset: 91005},
+									pos:        position{line: 2877, col: 10, offset: 91032},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -14653,28 +14871,28 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 619, col: 5, offset: 19397},
+							pos:   position{line: 620, col: 5, offset: 19424},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 619, col: 14, offset: 19406},
+								pos: position{line: 620, col: 14, offset: 19433},
 								expr: &choiceExpr{
-									pos: position{line: 620, col: 9, offset: 19416},
+									pos: position{line: 621, col: 9, offset: 19443},
 									alternatives: []interface{}{
 										&seqExpr{
-											pos: position{line: 620, col: 10, offset: 19417},
+											pos: position{line: 621, col: 10, offset: 19444},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 620, col: 10, offset: 19417},
+													pos:        position{line: 621, col: 10, offset: 19444},
 													val:        "[",
 													ignoreCase: false,
 													want:       "\"[\"",
 												},
 												&ruleRefExpr{
-													pos:  position{line: 620, col: 14, offset: 19421},
+													pos:  position{line: 621, col: 14, offset: 19448},
 													name: "UnquotedAttributeValue",
 												},
 												&litMatcher{
-													pos:        position{line: 620, col: 37, offset: 19444},
+													pos:        position{line: 621, col: 37, offset: 19471},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
@@ -14682,35 +14900,35 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 635, col: 5, offset: 20116},
+											pos: position{line: 636, col: 5, offset: 20143},
 											run: (*parser).callonUnquotedAttributeValue13,
 											expr: &seqExpr{
-												pos: position{line: 635, col: 5, offset: 20116},
+												pos: position{line: 636, col: 5, offset: 20143},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 635, col: 5, offset: 20116},
+														pos: position{line: 636, col: 5, offset: 20143},
 														run: (*parser).callonUnquotedAttributeValue15,
 													},
 													&labeledExpr{
-														pos:   position{line: 638, col: 5, offset: 20188},
+														pos:   position{line: 639, col: 5, offset: 20215},
 														label: "element",
 														expr: &choiceExpr{
-															pos: position{line: 638, col: 14, offset: 20197},
+															pos: position{line: 639, col: 14, offset: 20224},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 644, col: 5, offset: 20326},
+																	pos: position{line: 645, col: 5, offset: 20353},
 																	run: (*parser).callonUnquotedAttributeValue18,
 																	expr: &seqExpr{
-																		pos: position{line: 644, col: 5, offset: 20326},
+																		pos: position{line: 645, col: 5, offset: 20353},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 644, col: 5, offset: 20326},
+																				pos:        position{line: 645, col: 5, offset: 20353},
 																				val:        "\\{",
 																				ignoreCase: false,
 																				want:       "\"\\\\{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 644, col: 13, offset: 20334},
+																				pos:   position{line: 645, col: 13, offset: 20361},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 317, col: 18, offset: 9667},
@@ -14742,7 +14960,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 644, col: 32, offset: 20353},
+																				pos:        position{line: 645, col: 32, offset: 20380},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -14751,19 +14969,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 651, col: 5, offset: 20594},
+																	pos: position{line: 652, col: 5, offset: 20621},
 																	run: (*parser).callonUnquotedAttributeValue28,
 																	expr: &seqExpr{
-																		pos: position{line: 651, col: 5, offset: 20594},
+																		pos: position{line: 652, col: 5, offset: 20621},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 651, col: 5, offset: 20594},
+																				pos:        position{line: 652, col: 5, offset: 20621},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 651, col: 9, offset: 20598},
+																				pos:   position{line: 652, col: 9, offset: 20625},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 317, col: 18, offset: 9667},
@@ -14795,7 +15013,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 651, col: 28, offset: 20617},
+																				pos:        position{line: 652, col: 28, offset: 20644},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -14804,19 +15022,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 657, col: 25, offset: 20798},
+																	pos: position{line: 658, col: 25, offset: 20825},
 																	run: (*parser).callonUnquotedAttributeValue38,
 																	expr: &seqExpr{
-																		pos: position{line: 657, col: 25, offset: 20798},
+																		pos: position{line: 658, col: 25, offset: 20825},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 657, col: 25, offset: 20798},
+																				pos:        position{line: 658, col: 25, offset: 20825},
 																				val:        "{counter:",
 																				ignoreCase: false,
 																				want:       "\"{counter:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 657, col: 37, offset: 20810},
+																				pos:   position{line: 658, col: 37, offset: 20837},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 317, col: 18, offset: 9667},
@@ -14848,33 +15066,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 657, col: 56, offset: 20829},
+																				pos:   position{line: 658, col: 56, offset: 20856},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 657, col: 62, offset: 20835},
+																					pos: position{line: 658, col: 62, offset: 20862},
 																					expr: &actionExpr{
-																						pos: position{line: 665, col: 17, offset: 21132},
+																						pos: position{line: 666, col: 17, offset: 21159},
 																						run: (*parser).callonUnquotedAttributeValue49,
 																						expr: &seqExpr{
-																							pos: position{line: 665, col: 17, offset: 21132},
+																							pos: position{line: 666, col: 17, offset: 21159},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 665, col: 17, offset: 21132},
+																									pos:        position{line: 666, col: 17, offset: 21159},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 665, col: 21, offset: 21136},
+																									pos:   position{line: 666, col: 21, offset: 21163},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 665, col: 28, offset: 21143},
+																										pos: position{line: 666, col: 28, offset: 21170},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 665, col: 28, offset: 21143},
+																												pos: position{line: 666, col: 28, offset: 21170},
 																												run: (*parser).callonUnquotedAttributeValue54,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 665, col: 28, offset: 21143},
+																													pos:        position{line: 666, col: 28, offset: 21170},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -14882,12 +15100,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 667, col: 9, offset: 21197},
+																												pos: position{line: 668, col: 9, offset: 21224},
 																												run: (*parser).callonUnquotedAttributeValue56,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 667, col: 9, offset: 21197},
+																													pos: position{line: 668, col: 9, offset: 21224},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 667, col: 9, offset: 21197},
+																														pos:        position{line: 668, col: 9, offset: 21224},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -14904,7 +15122,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 657, col: 78, offset: 20851},
+																				pos:        position{line: 658, col: 78, offset: 20878},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -14913,19 +15131,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 661, col: 25, offset: 20969},
+																	pos: position{line: 662, col: 25, offset: 20996},
 																	run: (*parser).callonUnquotedAttributeValue60,
 																	expr: &seqExpr{
-																		pos: position{line: 661, col: 25, offset: 20969},
+																		pos: position{line: 662, col: 25, offset: 20996},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 661, col: 25, offset: 20969},
+																				pos:        position{line: 662, col: 25, offset: 20996},
 																				val:        "{counter2:",
 																				ignoreCase: false,
 																				want:       "\"{counter2:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 661, col: 38, offset: 20982},
+																				pos:   position{line: 662, col: 38, offset: 21009},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 317, col: 18, offset: 9667},
@@ -14957,33 +15175,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 661, col: 57, offset: 21001},
+																				pos:   position{line: 662, col: 57, offset: 21028},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 661, col: 63, offset: 21007},
+																					pos: position{line: 662, col: 63, offset: 21034},
 																					expr: &actionExpr{
-																						pos: position{line: 665, col: 17, offset: 21132},
+																						pos: position{line: 666, col: 17, offset: 21159},
 																						run: (*parser).callonUnquotedAttributeValue71,
 																						expr: &seqExpr{
-																							pos: position{line: 665, col: 17, offset: 21132},
+																							pos: position{line: 666, col: 17, offset: 21159},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 665, col: 17, offset: 21132},
+																									pos:        position{line: 666, col: 17, offset: 21159},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 665, col: 21, offset: 21136},
+																									pos:   position{line: 666, col: 21, offset: 21163},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 665, col: 28, offset: 21143},
+																										pos: position{line: 666, col: 28, offset: 21170},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 665, col: 28, offset: 21143},
+																												pos: position{line: 666, col: 28, offset: 21170},
 																												run: (*parser).callonUnquotedAttributeValue76,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 665, col: 28, offset: 21143},
+																													pos:        position{line: 666, col: 28, offset: 21170},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -14991,12 +15209,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 667, col: 9, offset: 21197},
+																												pos: position{line: 668, col: 9, offset: 21224},
 																												run: (*parser).callonUnquotedAttributeValue78,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 667, col: 9, offset: 21197},
+																													pos: position{line: 668, col: 9, offset: 21224},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 667, col: 9, offset: 21197},
+																														pos:        position{line: 668, col: 9, offset: 21224},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -15013,7 +15231,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 661, col: 79, offset: 21023},
+																				pos:        position{line: 662, col: 79, offset: 21050},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -15028,16 +15246,16 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 621, col: 32, offset: 19531},
+											pos:        position{line: 622, col: 32, offset: 19558},
 											val:        "{",
 											ignoreCase: false,
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2876, col: 10, offset: 91005},
+											pos: position{line: 2877, col: 10, offset: 91032},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2876, col: 10, offset: 91005},
+												pos:        position{line: 2877, col: 10, offset: 91032},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -15045,12 +15263,12 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 623, col: 12, offset: 19616},
+											pos: position{line: 624, col: 12, offset: 19643},
 											run: (*parser).callonUnquotedAttributeValue85,
 											expr: &oneOrMoreExpr{
-												pos: position{line: 623, col: 12, offset: 19616},
+												pos: position{line: 624, col: 12, offset: 19643},
 												expr: &charClassMatcher{
-													pos:        position{line: 623, col: 12, offset: 19616},
+													pos:        position{line: 624, col: 12, offset: 19643},
 													val:        "[^=,]{ ]",
 													chars:      []rune{'=', ',', ']', '{', ' '},
 													ignoreCase: false,
@@ -15068,32 +15286,32 @@ var g = &grammar{
 		},
 		{
 			name: "CrossReference",
-			pos:  position{line: 683, col: 1, offset: 21759},
+			pos:  position{line: 684, col: 1, offset: 21786},
 			expr: &choiceExpr{
-				pos: position{line: 683, col: 19, offset: 21777},
+				pos: position{line: 684, col: 19, offset: 21804},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 685, col: 27, offset: 21853},
+						pos: position{line: 686, col: 27, offset: 21880},
 						run: (*parser).callonCrossReference2,
 						expr: &seqExpr{
-							pos: position{line: 685, col: 27, offset: 21853},
+							pos: position{line: 686, col: 27, offset: 21880},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 685, col: 27, offset: 21853},
+									pos:        position{line: 686, col: 27, offset: 21880},
 									val:        "<<",
 									ignoreCase: false,
 									want:       "\"<<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 685, col: 32, offset: 21858},
+									pos:   position{line: 686, col: 32, offset: 21885},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2861, col: 7, offset: 90657},
+										pos: position{line: 2862, col: 7, offset: 90684},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2861, col: 7, offset: 90657},
+											pos: position{line: 2862, col: 7, offset: 90684},
 											expr: &charClassMatcher{
-												pos:        position{line: 2861, col: 7, offset: 90657},
+												pos:        position{line: 2862, col: 7, offset: 90684},
 												val:        "[^[]<>,\\r\\n]",
 												chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 												ignoreCase: false,
@@ -15103,12 +15321,12 @@ var g = &grammar{
 									},
 								},
 								&zeroOrMoreExpr{
-									pos: position{line: 685, col: 40, offset: 21866},
+									pos: position{line: 686, col: 40, offset: 21893},
 									expr: &actionExpr{
-										pos: position{line: 2876, col: 10, offset: 91005},
+										pos: position{line: 2877, col: 10, offset: 91032},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2876, col: 10, offset: 91005},
+											pos:        position{line: 2877, col: 10, offset: 91032},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15117,18 +15335,18 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 685, col: 47, offset: 21873},
+									pos:        position{line: 686, col: 47, offset: 21900},
 									val:        ",",
 									ignoreCase: false,
 									want:       "\",\"",
 								},
 								&zeroOrMoreExpr{
-									pos: position{line: 685, col: 51, offset: 21877},
+									pos: position{line: 686, col: 51, offset: 21904},
 									expr: &actionExpr{
-										pos: position{line: 2876, col: 10, offset: 91005},
+										pos: position{line: 2877, col: 10, offset: 91032},
 										run: (*parser).callonCrossReference14,
 										expr: &charClassMatcher{
-											pos:        position{line: 2876, col: 10, offset: 91005},
+											pos:        position{line: 2877, col: 10, offset: 91032},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15137,20 +15355,20 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 685, col: 58, offset: 21884},
+									pos:   position{line: 686, col: 58, offset: 21911},
 									label: "label",
 									expr: &oneOrMoreExpr{
-										pos: position{line: 695, col: 24, offset: 22285},
+										pos: position{line: 696, col: 24, offset: 22312},
 										expr: &choiceExpr{
-											pos: position{line: 696, col: 5, offset: 22291},
+											pos: position{line: 697, col: 5, offset: 22318},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 696, col: 6, offset: 22292},
+													pos: position{line: 697, col: 6, offset: 22319},
 													run: (*parser).callonCrossReference19,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 696, col: 6, offset: 22292},
+														pos: position{line: 697, col: 6, offset: 22319},
 														expr: &charClassMatcher{
-															pos:        position{line: 696, col: 6, offset: 22292},
+															pos:        position{line: 697, col: 6, offset: 22319},
 															val:        "[^\\r\\n{<>]",
 															chars:      []rune{'\r', '\n', '{', '<', '>'},
 															ignoreCase: false,
@@ -15159,19 +15377,19 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 644, col: 5, offset: 20326},
+													pos: position{line: 645, col: 5, offset: 20353},
 													run: (*parser).callonCrossReference22,
 													expr: &seqExpr{
-														pos: position{line: 644, col: 5, offset: 20326},
+														pos: position{line: 645, col: 5, offset: 20353},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 644, col: 5, offset: 20326},
+																pos:        position{line: 645, col: 5, offset: 20353},
 																val:        "\\{",
 																ignoreCase: false,
 																want:       "\"\\\\{\"",
 															},
 															&labeledExpr{
-																pos:   position{line: 644, col: 13, offset: 20334},
+																pos:   position{line: 645, col: 13, offset: 20361},
 																label: "name",
 																expr: &actionExpr{
 																	pos: position{line: 317, col: 18, offset: 9667},
@@ -15203,7 +15421,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 644, col: 32, offset: 20353},
+																pos:        position{line: 645, col: 32, offset: 20380},
 																val:        "}",
 																ignoreCase: false,
 																want:       "\"}\"",
@@ -15212,19 +15430,19 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 651, col: 5, offset: 20594},
+													pos: position{line: 652, col: 5, offset: 20621},
 													run: (*parser).callonCrossReference32,
 													expr: &seqExpr{
-														pos: position{line: 651, col: 5, offset: 20594},
+														pos: position{line: 652, col: 5, offset: 20621},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 651, col: 5, offset: 20594},
+																pos:        position{line: 652, col: 5, offset: 20621},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
 															},
 															&labeledExpr{
-																pos:   position{line: 651, col: 9, offset: 20598},
+																pos:   position{line: 652, col: 9, offset: 20625},
 																label: "name",
 																expr: &actionExpr{
 																	pos: position{line: 317, col: 18, offset: 9667},
@@ -15256,7 +15474,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 651, col: 28, offset: 20617},
+																pos:        position{line: 652, col: 28, offset: 20644},
 																val:        "}",
 																ignoreCase: false,
 																want:       "\"}\"",
@@ -15265,10 +15483,10 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 700, col: 8, offset: 22519},
+													pos: position{line: 701, col: 8, offset: 22546},
 													run: (*parser).callonCrossReference42,
 													expr: &litMatcher{
-														pos:        position{line: 700, col: 8, offset: 22519},
+														pos:        position{line: 701, col: 8, offset: 22546},
 														val:        "{",
 														ignoreCase: false,
 														want:       "\"{\"",
@@ -15279,7 +15497,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 685, col: 86, offset: 21912},
+									pos:        position{line: 686, col: 86, offset: 21939},
 									val:        ">>",
 									ignoreCase: false,
 									want:       "\">>\"",
@@ -15288,27 +15506,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 687, col: 9, offset: 21985},
+						pos: position{line: 688, col: 9, offset: 22012},
 						run: (*parser).callonCrossReference45,
 						expr: &seqExpr{
-							pos: position{line: 687, col: 9, offset: 21985},
+							pos: position{line: 688, col: 9, offset: 22012},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 687, col: 9, offset: 21985},
+									pos:        position{line: 688, col: 9, offset: 22012},
 									val:        "<<",
 									ignoreCase: false,
 									want:       "\"<<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 687, col: 14, offset: 21990},
+									pos:   position{line: 688, col: 14, offset: 22017},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2861, col: 7, offset: 90657},
+										pos: position{line: 2862, col: 7, offset: 90684},
 										run: (*parser).callonCrossReference49,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2861, col: 7, offset: 90657},
+											pos: position{line: 2862, col: 7, offset: 90684},
 											expr: &charClassMatcher{
-												pos:        position{line: 2861, col: 7, offset: 90657},
+												pos:        position{line: 2862, col: 7, offset: 90684},
 												val:        "[^[]<>,\\r\\n]",
 												chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 												ignoreCase: false,
@@ -15318,7 +15536,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 687, col: 22, offset: 21998},
+									pos:        position{line: 688, col: 22, offset: 22025},
 									val:        ">>",
 									ignoreCase: false,
 									want:       "\">>\"",
@@ -15327,7 +15545,7 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 683, col: 44, offset: 21802},
+						pos:  position{line: 684, col: 44, offset: 21829},
 						name: "ExternalCrossReference",
 					},
 				},
@@ -15335,58 +15553,58 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalCrossReference",
-			pos:  position{line: 691, col: 1, offset: 22069},
+			pos:  position{line: 692, col: 1, offset: 22096},
 			expr: &actionExpr{
-				pos: position{line: 691, col: 27, offset: 22095},
+				pos: position{line: 692, col: 27, offset: 22122},
 				run: (*parser).callonExternalCrossReference1,
 				expr: &seqExpr{
-					pos: position{line: 691, col: 27, offset: 22095},
+					pos: position{line: 692, col: 27, offset: 22122},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 691, col: 27, offset: 22095},
+							pos:        position{line: 692, col: 27, offset: 22122},
 							val:        "xref:",
 							ignoreCase: false,
 							want:       "\"xref:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 691, col: 35, offset: 22103},
+							pos:   position{line: 692, col: 35, offset: 22130},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2830, col: 17, offset: 89668},
+								pos: position{line: 2831, col: 17, offset: 89695},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2830, col: 17, offset: 89668},
+									pos:   position{line: 2831, col: 17, offset: 89695},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2847, col: 5, offset: 90122},
+										pos: position{line: 2848, col: 5, offset: 90149},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2847, col: 5, offset: 90122},
+											pos:   position{line: 2848, col: 5, offset: 90149},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2847, col: 14, offset: 90131},
+												pos: position{line: 2848, col: 14, offset: 90158},
 												expr: &choiceExpr{
-													pos: position{line: 2848, col: 9, offset: 90141},
+													pos: position{line: 2849, col: 9, offset: 90168},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2848, col: 9, offset: 90141},
+															pos: position{line: 2849, col: 9, offset: 90168},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2848, col: 9, offset: 90141},
+																pos: position{line: 2849, col: 9, offset: 90168},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2848, col: 9, offset: 90141},
+																		pos: position{line: 2849, col: 9, offset: 90168},
 																		expr: &litMatcher{
-																			pos:        position{line: 2848, col: 10, offset: 90142},
+																			pos:        position{line: 2849, col: 10, offset: 90169},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2849, col: 9, offset: 90170},
+																		pos: position{line: 2850, col: 9, offset: 90197},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2849, col: 10, offset: 90171},
+																			pos:        position{line: 2850, col: 10, offset: 90198},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -15397,27 +15615,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2852, col: 11, offset: 90383},
+															pos: position{line: 2853, col: 11, offset: 90410},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2852, col: 11, offset: 90383},
+																	pos:        position{line: 2853, col: 11, offset: 90410},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2852, col: 19, offset: 90391},
+																	pos: position{line: 2853, col: 19, offset: 90418},
 																	expr: &seqExpr{
-																		pos: position{line: 2852, col: 21, offset: 90393},
+																		pos: position{line: 2853, col: 21, offset: 90420},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2852, col: 21, offset: 90393},
+																				pos: position{line: 2853, col: 21, offset: 90420},
 																				expr: &actionExpr{
-																					pos: position{line: 2876, col: 10, offset: 91005},
+																					pos: position{line: 2877, col: 10, offset: 91032},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2876, col: 10, offset: 91005},
+																						pos:        position{line: 2877, col: 10, offset: 91032},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -15426,11 +15644,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2852, col: 28, offset: 90400},
+																				pos: position{line: 2853, col: 28, offset: 90427},
 																				expr: &notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91353},
+																					pos: position{line: 2896, col: 8, offset: 91380},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91354,
+																						line: 2896, col: 9, offset: 91381,
 																					},
 																				},
 																			},
@@ -15440,35 +15658,35 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 635, col: 5, offset: 20116},
+															pos: position{line: 636, col: 5, offset: 20143},
 															run: (*parser).callonExternalCrossReference27,
 															expr: &seqExpr{
-																pos: position{line: 635, col: 5, offset: 20116},
+																pos: position{line: 636, col: 5, offset: 20143},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 635, col: 5, offset: 20116},
+																		pos: position{line: 636, col: 5, offset: 20143},
 																		run: (*parser).callonExternalCrossReference29,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 638, col: 5, offset: 20188},
+																		pos:   position{line: 639, col: 5, offset: 20215},
 																		label: "element",
 																		expr: &choiceExpr{
-																			pos: position{line: 638, col: 14, offset: 20197},
+																			pos: position{line: 639, col: 14, offset: 20224},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 644, col: 5, offset: 20326},
+																					pos: position{line: 645, col: 5, offset: 20353},
 																					run: (*parser).callonExternalCrossReference32,
 																					expr: &seqExpr{
-																						pos: position{line: 644, col: 5, offset: 20326},
+																						pos: position{line: 645, col: 5, offset: 20353},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 644, col: 5, offset: 20326},
+																								pos:        position{line: 645, col: 5, offset: 20353},
 																								val:        "\\{",
 																								ignoreCase: false,
 																								want:       "\"\\\\{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 644, col: 13, offset: 20334},
+																								pos:   position{line: 645, col: 13, offset: 20361},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 317, col: 18, offset: 9667},
@@ -15500,7 +15718,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 644, col: 32, offset: 20353},
+																								pos:        position{line: 645, col: 32, offset: 20380},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -15509,19 +15727,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 651, col: 5, offset: 20594},
+																					pos: position{line: 652, col: 5, offset: 20621},
 																					run: (*parser).callonExternalCrossReference42,
 																					expr: &seqExpr{
-																						pos: position{line: 651, col: 5, offset: 20594},
+																						pos: position{line: 652, col: 5, offset: 20621},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 651, col: 5, offset: 20594},
+																								pos:        position{line: 652, col: 5, offset: 20621},
 																								val:        "{",
 																								ignoreCase: false,
 																								want:       "\"{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 651, col: 9, offset: 20598},
+																								pos:   position{line: 652, col: 9, offset: 20625},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 317, col: 18, offset: 9667},
@@ -15553,7 +15771,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 651, col: 28, offset: 20617},
+																								pos:        position{line: 652, col: 28, offset: 20644},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -15562,19 +15780,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 657, col: 25, offset: 20798},
+																					pos: position{line: 658, col: 25, offset: 20825},
 																					run: (*parser).callonExternalCrossReference52,
 																					expr: &seqExpr{
-																						pos: position{line: 657, col: 25, offset: 20798},
+																						pos: position{line: 658, col: 25, offset: 20825},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 657, col: 25, offset: 20798},
+																								pos:        position{line: 658, col: 25, offset: 20825},
 																								val:        "{counter:",
 																								ignoreCase: false,
 																								want:       "\"{counter:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 657, col: 37, offset: 20810},
+																								pos:   position{line: 658, col: 37, offset: 20837},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 317, col: 18, offset: 9667},
@@ -15606,33 +15824,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 657, col: 56, offset: 20829},
+																								pos:   position{line: 658, col: 56, offset: 20856},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 657, col: 62, offset: 20835},
+																									pos: position{line: 658, col: 62, offset: 20862},
 																									expr: &actionExpr{
-																										pos: position{line: 665, col: 17, offset: 21132},
+																										pos: position{line: 666, col: 17, offset: 21159},
 																										run: (*parser).callonExternalCrossReference63,
 																										expr: &seqExpr{
-																											pos: position{line: 665, col: 17, offset: 21132},
+																											pos: position{line: 666, col: 17, offset: 21159},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 665, col: 17, offset: 21132},
+																													pos:        position{line: 666, col: 17, offset: 21159},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 665, col: 21, offset: 21136},
+																													pos:   position{line: 666, col: 21, offset: 21163},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 665, col: 28, offset: 21143},
+																														pos: position{line: 666, col: 28, offset: 21170},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 665, col: 28, offset: 21143},
+																																pos: position{line: 666, col: 28, offset: 21170},
 																																run: (*parser).callonExternalCrossReference68,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 665, col: 28, offset: 21143},
+																																	pos:        position{line: 666, col: 28, offset: 21170},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -15640,12 +15858,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 667, col: 9, offset: 21197},
+																																pos: position{line: 668, col: 9, offset: 21224},
 																																run: (*parser).callonExternalCrossReference70,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 667, col: 9, offset: 21197},
+																																	pos: position{line: 668, col: 9, offset: 21224},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 667, col: 9, offset: 21197},
+																																		pos:        position{line: 668, col: 9, offset: 21224},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -15662,7 +15880,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 657, col: 78, offset: 20851},
+																								pos:        position{line: 658, col: 78, offset: 20878},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -15671,19 +15889,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 661, col: 25, offset: 20969},
+																					pos: position{line: 662, col: 25, offset: 20996},
 																					run: (*parser).callonExternalCrossReference74,
 																					expr: &seqExpr{
-																						pos: position{line: 661, col: 25, offset: 20969},
+																						pos: position{line: 662, col: 25, offset: 20996},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 661, col: 25, offset: 20969},
+																								pos:        position{line: 662, col: 25, offset: 20996},
 																								val:        "{counter2:",
 																								ignoreCase: false,
 																								want:       "\"{counter2:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 661, col: 38, offset: 20982},
+																								pos:   position{line: 662, col: 38, offset: 21009},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 317, col: 18, offset: 9667},
@@ -15715,33 +15933,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 661, col: 57, offset: 21001},
+																								pos:   position{line: 662, col: 57, offset: 21028},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 661, col: 63, offset: 21007},
+																									pos: position{line: 662, col: 63, offset: 21034},
 																									expr: &actionExpr{
-																										pos: position{line: 665, col: 17, offset: 21132},
+																										pos: position{line: 666, col: 17, offset: 21159},
 																										run: (*parser).callonExternalCrossReference85,
 																										expr: &seqExpr{
-																											pos: position{line: 665, col: 17, offset: 21132},
+																											pos: position{line: 666, col: 17, offset: 21159},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 665, col: 17, offset: 21132},
+																													pos:        position{line: 666, col: 17, offset: 21159},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 665, col: 21, offset: 21136},
+																													pos:   position{line: 666, col: 21, offset: 21163},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 665, col: 28, offset: 21143},
+																														pos: position{line: 666, col: 28, offset: 21170},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 665, col: 28, offset: 21143},
+																																pos: position{line: 666, col: 28, offset: 21170},
 																																run: (*parser).callonExternalCrossReference90,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 665, col: 28, offset: 21143},
+																																	pos:        position{line: 666, col: 28, offset: 21170},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -15749,12 +15967,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 667, col: 9, offset: 21197},
+																																pos: position{line: 668, col: 9, offset: 21224},
 																																run: (*parser).callonExternalCrossReference92,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 667, col: 9, offset: 21197},
+																																	pos: position{line: 668, col: 9, offset: 21224},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 667, col: 9, offset: 21197},
+																																		pos:        position{line: 668, col: 9, offset: 21224},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -15771,7 +15989,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 661, col: 79, offset: 21023},
+																								pos:        position{line: 662, col: 79, offset: 21050},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -15786,27 +16004,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1197, col: 23, offset: 36986},
+															pos: position{line: 1198, col: 23, offset: 37013},
 															run: (*parser).callonExternalCrossReference96,
 															expr: &seqExpr{
-																pos: position{line: 1197, col: 23, offset: 36986},
+																pos: position{line: 1198, col: 23, offset: 37013},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1195, col: 32, offset: 36954},
+																		pos:        position{line: 1196, col: 32, offset: 36981},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1197, col: 51, offset: 37014},
+																		pos:   position{line: 1198, col: 51, offset: 37041},
 																		label: "ref",
 																		expr: &actionExpr{
-																			pos: position{line: 1197, col: 56, offset: 37019},
+																			pos: position{line: 1198, col: 56, offset: 37046},
 																			run: (*parser).callonExternalCrossReference100,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1197, col: 56, offset: 37019},
+																				pos: position{line: 1198, col: 56, offset: 37046},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1197, col: 56, offset: 37019},
+																					pos:        position{line: 1198, col: 56, offset: 37046},
 																					val:        "[0-9]",
 																					ranges:     []rune{'0', '9'},
 																					ignoreCase: false,
@@ -15816,23 +16034,23 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1195, col: 32, offset: 36954},
+																		pos:        position{line: 1196, col: 32, offset: 36981},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1198, col: 5, offset: 37091},
+																		pos: position{line: 1199, col: 5, offset: 37118},
 																		run: (*parser).callonExternalCrossReference104,
 																	},
 																},
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2855, col: 11, offset: 90520},
+															pos: position{line: 2856, col: 11, offset: 90547},
 															run: (*parser).callonExternalCrossReference105,
 															expr: &litMatcher{
-																pos:        position{line: 2855, col: 11, offset: 90520},
+																pos:        position{line: 2856, col: 11, offset: 90547},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -15847,10 +16065,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 691, col: 54, offset: 22122},
+							pos:   position{line: 692, col: 54, offset: 22149},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 691, col: 66, offset: 22134},
+								pos:  position{line: 692, col: 66, offset: 22161},
 								name: "InlineAttributes",
 							},
 						},
@@ -15860,29 +16078,29 @@ var g = &grammar{
 		},
 		{
 			name: "MarkdownQuoteAttribution",
-			pos:  position{line: 987, col: 1, offset: 30781},
+			pos:  position{line: 988, col: 1, offset: 30808},
 			expr: &actionExpr{
-				pos: position{line: 988, col: 5, offset: 30814},
+				pos: position{line: 989, col: 5, offset: 30841},
 				run: (*parser).callonMarkdownQuoteAttribution1,
 				expr: &seqExpr{
-					pos: position{line: 988, col: 5, offset: 30814},
+					pos: position{line: 989, col: 5, offset: 30841},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 988, col: 5, offset: 30814},
+							pos:        position{line: 989, col: 5, offset: 30841},
 							val:        "-- ",
 							ignoreCase: false,
 							want:       "\"-- \"",
 						},
 						&labeledExpr{
-							pos:   position{line: 988, col: 11, offset: 30820},
+							pos:   position{line: 989, col: 11, offset: 30847},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2826, col: 14, offset: 89598},
+								pos: position{line: 2827, col: 14, offset: 89625},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2826, col: 14, offset: 89598},
+									pos: position{line: 2827, col: 14, offset: 89625},
 									expr: &charClassMatcher{
-										pos:        position{line: 2826, col: 14, offset: 89598},
+										pos:        position{line: 2827, col: 14, offset: 89625},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -15892,28 +16110,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2898, col: 8, offset: 91403},
+							pos: position{line: 2899, col: 8, offset: 91430},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2885, col: 12, offset: 91176},
+									pos: position{line: 2886, col: 12, offset: 91203},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2885, col: 13, offset: 91177},
+										pos: position{line: 2886, col: 13, offset: 91204},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2885, col: 13, offset: 91177},
+												pos:        position{line: 2886, col: 13, offset: 91204},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 20, offset: 91184},
+												pos:        position{line: 2886, col: 20, offset: 91211},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 29, offset: 91193},
+												pos:        position{line: 2886, col: 29, offset: 91220},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -15922,9 +16140,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2895, col: 8, offset: 91353},
+									pos: position{line: 2896, col: 8, offset: 91380},
 									expr: &anyMatcher{
-										line: 2895, col: 9, offset: 91354,
+										line: 2896, col: 9, offset: 91381,
 									},
 								},
 							},
@@ -15935,53 +16153,53 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentHeader",
-			pos:  position{line: 1099, col: 1, offset: 33737},
+			pos:  position{line: 1100, col: 1, offset: 33764},
 			expr: &actionExpr{
-				pos: position{line: 1100, col: 5, offset: 33760},
+				pos: position{line: 1101, col: 5, offset: 33787},
 				run: (*parser).callonDocumentHeader1,
 				expr: &seqExpr{
-					pos: position{line: 1100, col: 5, offset: 33760},
+					pos: position{line: 1101, col: 5, offset: 33787},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1100, col: 5, offset: 33760},
+							pos: position{line: 1101, col: 5, offset: 33787},
 							run: (*parser).callonDocumentHeader3,
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1103, col: 5, offset: 33821},
+							pos: position{line: 1104, col: 5, offset: 33848},
 							expr: &choiceExpr{
-								pos: position{line: 1103, col: 6, offset: 33822},
+								pos: position{line: 1104, col: 6, offset: 33849},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2483, col: 22, offset: 79891},
+										pos: position{line: 2484, col: 22, offset: 79918},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2483, col: 22, offset: 79891},
+											pos: position{line: 2484, col: 22, offset: 79918},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2488, col: 31, offset: 80112},
+													pos:        position{line: 2489, col: 31, offset: 80139},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2488, col: 36, offset: 80117},
+													pos: position{line: 2489, col: 36, offset: 80144},
 													expr: &litMatcher{
-														pos:        position{line: 2488, col: 37, offset: 80118},
+														pos:        position{line: 2489, col: 37, offset: 80145},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2483, col: 49, offset: 79918},
+													pos:   position{line: 2484, col: 49, offset: 79945},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2822, col: 13, offset: 89531},
+														pos: position{line: 2823, col: 13, offset: 89558},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2822, col: 13, offset: 89531},
+															pos: position{line: 2823, col: 13, offset: 89558},
 															expr: &charClassMatcher{
-																pos:        position{line: 2822, col: 13, offset: 89531},
+																pos:        position{line: 2823, col: 13, offset: 89558},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -15991,28 +16209,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2898, col: 8, offset: 91403},
+													pos: position{line: 2899, col: 8, offset: 91430},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91176},
+															pos: position{line: 2886, col: 12, offset: 91203},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2885, col: 13, offset: 91177},
+																pos: position{line: 2886, col: 13, offset: 91204},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 13, offset: 91177},
+																		pos:        position{line: 2886, col: 13, offset: 91204},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 20, offset: 91184},
+																		pos:        position{line: 2886, col: 20, offset: 91211},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 29, offset: 91193},
+																		pos:        position{line: 2886, col: 29, offset: 91220},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16021,9 +16239,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2895, col: 8, offset: 91353},
+															pos: position{line: 2896, col: 8, offset: 91380},
 															expr: &anyMatcher{
-																line: 2895, col: 9, offset: 91354,
+																line: 2896, col: 9, offset: 91381,
 															},
 														},
 													},
@@ -16032,36 +16250,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 819, col: 5, offset: 26338},
+										pos: position{line: 820, col: 5, offset: 26365},
 										run: (*parser).callonDocumentHeader23,
 										expr: &seqExpr{
-											pos: position{line: 819, col: 5, offset: 26338},
+											pos: position{line: 820, col: 5, offset: 26365},
 											exprs: []interface{}{
 												&actionExpr{
-													pos: position{line: 739, col: 5, offset: 23593},
+													pos: position{line: 740, col: 5, offset: 23620},
 													run: (*parser).callonDocumentHeader25,
 													expr: &seqExpr{
-														pos: position{line: 739, col: 5, offset: 23593},
+														pos: position{line: 740, col: 5, offset: 23620},
 														exprs: []interface{}{
 															&labeledExpr{
-																pos:   position{line: 739, col: 5, offset: 23593},
+																pos:   position{line: 740, col: 5, offset: 23620},
 																label: "delimiter",
 																expr: &actionExpr{
-																	pos: position{line: 739, col: 16, offset: 23604},
+																	pos: position{line: 740, col: 16, offset: 23631},
 																	run: (*parser).callonDocumentHeader28,
 																	expr: &seqExpr{
-																		pos: position{line: 739, col: 16, offset: 23604},
+																		pos: position{line: 740, col: 16, offset: 23631},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 739, col: 16, offset: 23604},
+																				pos:        position{line: 740, col: 16, offset: 23631},
 																				val:        "////",
 																				ignoreCase: false,
 																				want:       "\"////\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 739, col: 23, offset: 23611},
+																				pos: position{line: 740, col: 23, offset: 23638},
 																				expr: &litMatcher{
-																					pos:        position{line: 739, col: 23, offset: 23611},
+																					pos:        position{line: 740, col: 23, offset: 23638},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -16072,12 +16290,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 741, col: 8, offset: 23695},
+																pos: position{line: 742, col: 8, offset: 23722},
 																expr: &actionExpr{
-																	pos: position{line: 2876, col: 10, offset: 91005},
+																	pos: position{line: 2877, col: 10, offset: 91032},
 																	run: (*parser).callonDocumentHeader34,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2876, col: 10, offset: 91005},
+																		pos:        position{line: 2877, col: 10, offset: 91032},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16086,28 +16304,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2898, col: 8, offset: 91403},
+																pos: position{line: 2899, col: 8, offset: 91430},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2885, col: 12, offset: 91176},
+																		pos: position{line: 2886, col: 12, offset: 91203},
 																		run: (*parser).callonDocumentHeader37,
 																		expr: &choiceExpr{
-																			pos: position{line: 2885, col: 13, offset: 91177},
+																			pos: position{line: 2886, col: 13, offset: 91204},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 13, offset: 91177},
+																					pos:        position{line: 2886, col: 13, offset: 91204},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 20, offset: 91184},
+																					pos:        position{line: 2886, col: 20, offset: 91211},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 29, offset: 91193},
+																					pos:        position{line: 2886, col: 29, offset: 91220},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -16116,9 +16334,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91353},
+																		pos: position{line: 2896, col: 8, offset: 91380},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91354,
+																			line: 2896, col: 9, offset: 91381,
 																		},
 																	},
 																},
@@ -16127,46 +16345,46 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 820, col: 5, offset: 26369},
+													pos:   position{line: 821, col: 5, offset: 26396},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 830, col: 5, offset: 26655},
+														pos: position{line: 831, col: 5, offset: 26682},
 														expr: &actionExpr{
-															pos: position{line: 830, col: 6, offset: 26656},
+															pos: position{line: 831, col: 6, offset: 26683},
 															run: (*parser).callonDocumentHeader46,
 															expr: &seqExpr{
-																pos: position{line: 830, col: 6, offset: 26656},
+																pos: position{line: 831, col: 6, offset: 26683},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 830, col: 6, offset: 26656},
+																		pos: position{line: 831, col: 6, offset: 26683},
 																		expr: &choiceExpr{
-																			pos: position{line: 827, col: 29, offset: 26598},
+																			pos: position{line: 828, col: 29, offset: 26625},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 739, col: 5, offset: 23593},
+																					pos: position{line: 740, col: 5, offset: 23620},
 																					run: (*parser).callonDocumentHeader50,
 																					expr: &seqExpr{
-																						pos: position{line: 739, col: 5, offset: 23593},
+																						pos: position{line: 740, col: 5, offset: 23620},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 739, col: 5, offset: 23593},
+																								pos:   position{line: 740, col: 5, offset: 23620},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 739, col: 16, offset: 23604},
+																									pos: position{line: 740, col: 16, offset: 23631},
 																									run: (*parser).callonDocumentHeader53,
 																									expr: &seqExpr{
-																										pos: position{line: 739, col: 16, offset: 23604},
+																										pos: position{line: 740, col: 16, offset: 23631},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 739, col: 16, offset: 23604},
+																												pos:        position{line: 740, col: 16, offset: 23631},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 739, col: 23, offset: 23611},
+																												pos: position{line: 740, col: 23, offset: 23638},
 																												expr: &litMatcher{
-																													pos:        position{line: 739, col: 23, offset: 23611},
+																													pos:        position{line: 740, col: 23, offset: 23638},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -16177,12 +16395,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 741, col: 8, offset: 23695},
+																								pos: position{line: 742, col: 8, offset: 23722},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 91005},
+																									pos: position{line: 2877, col: 10, offset: 91032},
 																									run: (*parser).callonDocumentHeader59,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 91005},
+																										pos:        position{line: 2877, col: 10, offset: 91032},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -16191,28 +16409,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2898, col: 8, offset: 91403},
+																								pos: position{line: 2899, col: 8, offset: 91430},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2885, col: 12, offset: 91176},
+																										pos: position{line: 2886, col: 12, offset: 91203},
 																										run: (*parser).callonDocumentHeader62,
 																										expr: &choiceExpr{
-																											pos: position{line: 2885, col: 13, offset: 91177},
+																											pos: position{line: 2886, col: 13, offset: 91204},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 13, offset: 91177},
+																													pos:        position{line: 2886, col: 13, offset: 91204},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 20, offset: 91184},
+																													pos:        position{line: 2886, col: 20, offset: 91211},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 29, offset: 91193},
+																													pos:        position{line: 2886, col: 29, offset: 91220},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -16221,9 +16439,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2895, col: 8, offset: 91353},
+																										pos: position{line: 2896, col: 8, offset: 91380},
 																										expr: &anyMatcher{
-																											line: 2895, col: 9, offset: 91354,
+																											line: 2896, col: 9, offset: 91381,
 																										},
 																									},
 																								},
@@ -16232,39 +16450,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91353},
+																					pos: position{line: 2896, col: 8, offset: 91380},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91354,
+																						line: 2896, col: 9, offset: 91381,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 831, col: 5, offset: 26686},
+																		pos:   position{line: 832, col: 5, offset: 26713},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 810, col: 5, offset: 26102},
+																			pos: position{line: 811, col: 5, offset: 26129},
 																			run: (*parser).callonDocumentHeader72,
 																			expr: &seqExpr{
-																				pos: position{line: 810, col: 5, offset: 26102},
+																				pos: position{line: 811, col: 5, offset: 26129},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2893, col: 11, offset: 91339},
+																						pos: position{line: 2894, col: 11, offset: 91366},
 																						expr: &anyMatcher{
-																							line: 2893, col: 13, offset: 91341,
+																							line: 2894, col: 13, offset: 91368,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 811, col: 5, offset: 26177},
+																						pos:   position{line: 812, col: 5, offset: 26204},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2822, col: 13, offset: 89531},
+																							pos: position{line: 2823, col: 13, offset: 89558},
 																							run: (*parser).callonDocumentHeader77,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2822, col: 13, offset: 89531},
+																								pos: position{line: 2823, col: 13, offset: 89558},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2822, col: 13, offset: 89531},
+																									pos:        position{line: 2823, col: 13, offset: 89558},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16274,28 +16492,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91403},
+																						pos: position{line: 2899, col: 8, offset: 91430},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91176},
+																								pos: position{line: 2886, col: 12, offset: 91203},
 																								run: (*parser).callonDocumentHeader81,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91177},
+																									pos: position{line: 2886, col: 13, offset: 91204},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91177},
+																											pos:        position{line: 2886, col: 13, offset: 91204},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91184},
+																											pos:        position{line: 2886, col: 20, offset: 91211},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91193},
+																											pos:        position{line: 2886, col: 29, offset: 91220},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16304,9 +16522,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91353},
+																								pos: position{line: 2896, col: 8, offset: 91380},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91354,
+																									line: 2896, col: 9, offset: 91381,
 																								},
 																							},
 																						},
@@ -16321,35 +16539,35 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 821, col: 5, offset: 26403},
+													pos: position{line: 822, col: 5, offset: 26430},
 													expr: &choiceExpr{
-														pos: position{line: 827, col: 29, offset: 26598},
+														pos: position{line: 828, col: 29, offset: 26625},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 739, col: 5, offset: 23593},
+																pos: position{line: 740, col: 5, offset: 23620},
 																run: (*parser).callonDocumentHeader90,
 																expr: &seqExpr{
-																	pos: position{line: 739, col: 5, offset: 23593},
+																	pos: position{line: 740, col: 5, offset: 23620},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 739, col: 5, offset: 23593},
+																			pos:   position{line: 740, col: 5, offset: 23620},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 739, col: 16, offset: 23604},
+																				pos: position{line: 740, col: 16, offset: 23631},
 																				run: (*parser).callonDocumentHeader93,
 																				expr: &seqExpr{
-																					pos: position{line: 739, col: 16, offset: 23604},
+																					pos: position{line: 740, col: 16, offset: 23631},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 739, col: 16, offset: 23604},
+																							pos:        position{line: 740, col: 16, offset: 23631},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 739, col: 23, offset: 23611},
+																							pos: position{line: 740, col: 23, offset: 23638},
 																							expr: &litMatcher{
-																								pos:        position{line: 739, col: 23, offset: 23611},
+																								pos:        position{line: 740, col: 23, offset: 23638},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -16360,12 +16578,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 741, col: 8, offset: 23695},
+																			pos: position{line: 742, col: 8, offset: 23722},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 91005},
+																				pos: position{line: 2877, col: 10, offset: 91032},
 																				run: (*parser).callonDocumentHeader99,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 91005},
+																					pos:        position{line: 2877, col: 10, offset: 91032},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -16374,28 +16592,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91403},
+																			pos: position{line: 2899, col: 8, offset: 91430},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91176},
+																					pos: position{line: 2886, col: 12, offset: 91203},
 																					run: (*parser).callonDocumentHeader102,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91177},
+																						pos: position{line: 2886, col: 13, offset: 91204},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91177},
+																								pos:        position{line: 2886, col: 13, offset: 91204},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91184},
+																								pos:        position{line: 2886, col: 20, offset: 91211},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91193},
+																								pos:        position{line: 2886, col: 29, offset: 91220},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -16404,9 +16622,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91353},
+																					pos: position{line: 2896, col: 8, offset: 91380},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91354,
+																						line: 2896, col: 9, offset: 91381,
 																					},
 																				},
 																			},
@@ -16415,9 +16633,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91353},
+																pos: position{line: 2896, col: 8, offset: 91380},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91354,
+																	line: 2896, col: 9, offset: 91381,
 																},
 															},
 														},
@@ -16430,49 +16648,49 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1104, col: 5, offset: 33918},
+							pos:   position{line: 1105, col: 5, offset: 33945},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1104, col: 12, offset: 33925},
+								pos:  position{line: 1105, col: 12, offset: 33952},
 								name: "DocumentTitle",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1105, col: 5, offset: 33944},
+							pos: position{line: 1106, col: 5, offset: 33971},
 							expr: &choiceExpr{
-								pos: position{line: 1105, col: 6, offset: 33945},
+								pos: position{line: 1106, col: 6, offset: 33972},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2483, col: 22, offset: 79891},
+										pos: position{line: 2484, col: 22, offset: 79918},
 										run: (*parser).callonDocumentHeader115,
 										expr: &seqExpr{
-											pos: position{line: 2483, col: 22, offset: 79891},
+											pos: position{line: 2484, col: 22, offset: 79918},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2488, col: 31, offset: 80112},
+													pos:        position{line: 2489, col: 31, offset: 80139},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2488, col: 36, offset: 80117},
+													pos: position{line: 2489, col: 36, offset: 80144},
 													expr: &litMatcher{
-														pos:        position{line: 2488, col: 37, offset: 80118},
+														pos:        position{line: 2489, col: 37, offset: 80145},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2483, col: 49, offset: 79918},
+													pos:   position{line: 2484, col: 49, offset: 79945},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2822, col: 13, offset: 89531},
+														pos: position{line: 2823, col: 13, offset: 89558},
 														run: (*parser).callonDocumentHeader121,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2822, col: 13, offset: 89531},
+															pos: position{line: 2823, col: 13, offset: 89558},
 															expr: &charClassMatcher{
-																pos:        position{line: 2822, col: 13, offset: 89531},
+																pos:        position{line: 2823, col: 13, offset: 89558},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16482,28 +16700,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2898, col: 8, offset: 91403},
+													pos: position{line: 2899, col: 8, offset: 91430},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91176},
+															pos: position{line: 2886, col: 12, offset: 91203},
 															run: (*parser).callonDocumentHeader125,
 															expr: &choiceExpr{
-																pos: position{line: 2885, col: 13, offset: 91177},
+																pos: position{line: 2886, col: 13, offset: 91204},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 13, offset: 91177},
+																		pos:        position{line: 2886, col: 13, offset: 91204},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 20, offset: 91184},
+																		pos:        position{line: 2886, col: 20, offset: 91211},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 29, offset: 91193},
+																		pos:        position{line: 2886, col: 29, offset: 91220},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16512,9 +16730,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2895, col: 8, offset: 91353},
+															pos: position{line: 2896, col: 8, offset: 91380},
 															expr: &anyMatcher{
-																line: 2895, col: 9, offset: 91354,
+																line: 2896, col: 9, offset: 91381,
 															},
 														},
 													},
@@ -16523,36 +16741,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 819, col: 5, offset: 26338},
+										pos: position{line: 820, col: 5, offset: 26365},
 										run: (*parser).callonDocumentHeader132,
 										expr: &seqExpr{
-											pos: position{line: 819, col: 5, offset: 26338},
+											pos: position{line: 820, col: 5, offset: 26365},
 											exprs: []interface{}{
 												&actionExpr{
-													pos: position{line: 739, col: 5, offset: 23593},
+													pos: position{line: 740, col: 5, offset: 23620},
 													run: (*parser).callonDocumentHeader134,
 													expr: &seqExpr{
-														pos: position{line: 739, col: 5, offset: 23593},
+														pos: position{line: 740, col: 5, offset: 23620},
 														exprs: []interface{}{
 															&labeledExpr{
-																pos:   position{line: 739, col: 5, offset: 23593},
+																pos:   position{line: 740, col: 5, offset: 23620},
 																label: "delimiter",
 																expr: &actionExpr{
-																	pos: position{line: 739, col: 16, offset: 23604},
+																	pos: position{line: 740, col: 16, offset: 23631},
 																	run: (*parser).callonDocumentHeader137,
 																	expr: &seqExpr{
-																		pos: position{line: 739, col: 16, offset: 23604},
+																		pos: position{line: 740, col: 16, offset: 23631},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 739, col: 16, offset: 23604},
+																				pos:        position{line: 740, col: 16, offset: 23631},
 																				val:        "////",
 																				ignoreCase: false,
 																				want:       "\"////\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 739, col: 23, offset: 23611},
+																				pos: position{line: 740, col: 23, offset: 23638},
 																				expr: &litMatcher{
-																					pos:        position{line: 739, col: 23, offset: 23611},
+																					pos:        position{line: 740, col: 23, offset: 23638},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -16563,12 +16781,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 741, col: 8, offset: 23695},
+																pos: position{line: 742, col: 8, offset: 23722},
 																expr: &actionExpr{
-																	pos: position{line: 2876, col: 10, offset: 91005},
+																	pos: position{line: 2877, col: 10, offset: 91032},
 																	run: (*parser).callonDocumentHeader143,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2876, col: 10, offset: 91005},
+																		pos:        position{line: 2877, col: 10, offset: 91032},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16577,28 +16795,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2898, col: 8, offset: 91403},
+																pos: position{line: 2899, col: 8, offset: 91430},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2885, col: 12, offset: 91176},
+																		pos: position{line: 2886, col: 12, offset: 91203},
 																		run: (*parser).callonDocumentHeader146,
 																		expr: &choiceExpr{
-																			pos: position{line: 2885, col: 13, offset: 91177},
+																			pos: position{line: 2886, col: 13, offset: 91204},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 13, offset: 91177},
+																					pos:        position{line: 2886, col: 13, offset: 91204},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 20, offset: 91184},
+																					pos:        position{line: 2886, col: 20, offset: 91211},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 29, offset: 91193},
+																					pos:        position{line: 2886, col: 29, offset: 91220},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -16607,9 +16825,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91353},
+																		pos: position{line: 2896, col: 8, offset: 91380},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91354,
+																			line: 2896, col: 9, offset: 91381,
 																		},
 																	},
 																},
@@ -16618,46 +16836,46 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 820, col: 5, offset: 26369},
+													pos:   position{line: 821, col: 5, offset: 26396},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 830, col: 5, offset: 26655},
+														pos: position{line: 831, col: 5, offset: 26682},
 														expr: &actionExpr{
-															pos: position{line: 830, col: 6, offset: 26656},
+															pos: position{line: 831, col: 6, offset: 26683},
 															run: (*parser).callonDocumentHeader155,
 															expr: &seqExpr{
-																pos: position{line: 830, col: 6, offset: 26656},
+																pos: position{line: 831, col: 6, offset: 26683},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 830, col: 6, offset: 26656},
+																		pos: position{line: 831, col: 6, offset: 26683},
 																		expr: &choiceExpr{
-																			pos: position{line: 827, col: 29, offset: 26598},
+																			pos: position{line: 828, col: 29, offset: 26625},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 739, col: 5, offset: 23593},
+																					pos: position{line: 740, col: 5, offset: 23620},
 																					run: (*parser).callonDocumentHeader159,
 																					expr: &seqExpr{
-																						pos: position{line: 739, col: 5, offset: 23593},
+																						pos: position{line: 740, col: 5, offset: 23620},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 739, col: 5, offset: 23593},
+																								pos:   position{line: 740, col: 5, offset: 23620},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 739, col: 16, offset: 23604},
+																									pos: position{line: 740, col: 16, offset: 23631},
 																									run: (*parser).callonDocumentHeader162,
 																									expr: &seqExpr{
-																										pos: position{line: 739, col: 16, offset: 23604},
+																										pos: position{line: 740, col: 16, offset: 23631},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 739, col: 16, offset: 23604},
+																												pos:        position{line: 740, col: 16, offset: 23631},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 739, col: 23, offset: 23611},
+																												pos: position{line: 740, col: 23, offset: 23638},
 																												expr: &litMatcher{
-																													pos:        position{line: 739, col: 23, offset: 23611},
+																													pos:        position{line: 740, col: 23, offset: 23638},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -16668,12 +16886,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 741, col: 8, offset: 23695},
+																								pos: position{line: 742, col: 8, offset: 23722},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 91005},
+																									pos: position{line: 2877, col: 10, offset: 91032},
 																									run: (*parser).callonDocumentHeader168,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 91005},
+																										pos:        position{line: 2877, col: 10, offset: 91032},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -16682,28 +16900,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2898, col: 8, offset: 91403},
+																								pos: position{line: 2899, col: 8, offset: 91430},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2885, col: 12, offset: 91176},
+																										pos: position{line: 2886, col: 12, offset: 91203},
 																										run: (*parser).callonDocumentHeader171,
 																										expr: &choiceExpr{
-																											pos: position{line: 2885, col: 13, offset: 91177},
+																											pos: position{line: 2886, col: 13, offset: 91204},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 13, offset: 91177},
+																													pos:        position{line: 2886, col: 13, offset: 91204},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 20, offset: 91184},
+																													pos:        position{line: 2886, col: 20, offset: 91211},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 29, offset: 91193},
+																													pos:        position{line: 2886, col: 29, offset: 91220},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -16712,9 +16930,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2895, col: 8, offset: 91353},
+																										pos: position{line: 2896, col: 8, offset: 91380},
 																										expr: &anyMatcher{
-																											line: 2895, col: 9, offset: 91354,
+																											line: 2896, col: 9, offset: 91381,
 																										},
 																									},
 																								},
@@ -16723,39 +16941,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91353},
+																					pos: position{line: 2896, col: 8, offset: 91380},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91354,
+																						line: 2896, col: 9, offset: 91381,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 831, col: 5, offset: 26686},
+																		pos:   position{line: 832, col: 5, offset: 26713},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 810, col: 5, offset: 26102},
+																			pos: position{line: 811, col: 5, offset: 26129},
 																			run: (*parser).callonDocumentHeader181,
 																			expr: &seqExpr{
-																				pos: position{line: 810, col: 5, offset: 26102},
+																				pos: position{line: 811, col: 5, offset: 26129},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2893, col: 11, offset: 91339},
+																						pos: position{line: 2894, col: 11, offset: 91366},
 																						expr: &anyMatcher{
-																							line: 2893, col: 13, offset: 91341,
+																							line: 2894, col: 13, offset: 91368,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 811, col: 5, offset: 26177},
+																						pos:   position{line: 812, col: 5, offset: 26204},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2822, col: 13, offset: 89531},
+																							pos: position{line: 2823, col: 13, offset: 89558},
 																							run: (*parser).callonDocumentHeader186,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2822, col: 13, offset: 89531},
+																								pos: position{line: 2823, col: 13, offset: 89558},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2822, col: 13, offset: 89531},
+																									pos:        position{line: 2823, col: 13, offset: 89558},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16765,28 +16983,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91403},
+																						pos: position{line: 2899, col: 8, offset: 91430},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91176},
+																								pos: position{line: 2886, col: 12, offset: 91203},
 																								run: (*parser).callonDocumentHeader190,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91177},
+																									pos: position{line: 2886, col: 13, offset: 91204},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91177},
+																											pos:        position{line: 2886, col: 13, offset: 91204},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91184},
+																											pos:        position{line: 2886, col: 20, offset: 91211},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91193},
+																											pos:        position{line: 2886, col: 29, offset: 91220},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16795,9 +17013,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91353},
+																								pos: position{line: 2896, col: 8, offset: 91380},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91354,
+																									line: 2896, col: 9, offset: 91381,
 																								},
 																							},
 																						},
@@ -16812,35 +17030,35 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 821, col: 5, offset: 26403},
+													pos: position{line: 822, col: 5, offset: 26430},
 													expr: &choiceExpr{
-														pos: position{line: 827, col: 29, offset: 26598},
+														pos: position{line: 828, col: 29, offset: 26625},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 739, col: 5, offset: 23593},
+																pos: position{line: 740, col: 5, offset: 23620},
 																run: (*parser).callonDocumentHeader199,
 																expr: &seqExpr{
-																	pos: position{line: 739, col: 5, offset: 23593},
+																	pos: position{line: 740, col: 5, offset: 23620},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 739, col: 5, offset: 23593},
+																			pos:   position{line: 740, col: 5, offset: 23620},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 739, col: 16, offset: 23604},
+																				pos: position{line: 740, col: 16, offset: 23631},
 																				run: (*parser).callonDocumentHeader202,
 																				expr: &seqExpr{
-																					pos: position{line: 739, col: 16, offset: 23604},
+																					pos: position{line: 740, col: 16, offset: 23631},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 739, col: 16, offset: 23604},
+																							pos:        position{line: 740, col: 16, offset: 23631},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 739, col: 23, offset: 23611},
+																							pos: position{line: 740, col: 23, offset: 23638},
 																							expr: &litMatcher{
-																								pos:        position{line: 739, col: 23, offset: 23611},
+																								pos:        position{line: 740, col: 23, offset: 23638},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -16851,12 +17069,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 741, col: 8, offset: 23695},
+																			pos: position{line: 742, col: 8, offset: 23722},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 91005},
+																				pos: position{line: 2877, col: 10, offset: 91032},
 																				run: (*parser).callonDocumentHeader208,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 91005},
+																					pos:        position{line: 2877, col: 10, offset: 91032},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -16865,28 +17083,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91403},
+																			pos: position{line: 2899, col: 8, offset: 91430},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91176},
+																					pos: position{line: 2886, col: 12, offset: 91203},
 																					run: (*parser).callonDocumentHeader211,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91177},
+																						pos: position{line: 2886, col: 13, offset: 91204},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91177},
+																								pos:        position{line: 2886, col: 13, offset: 91204},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91184},
+																								pos:        position{line: 2886, col: 20, offset: 91211},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91193},
+																								pos:        position{line: 2886, col: 29, offset: 91220},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -16895,9 +17113,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91353},
+																					pos: position{line: 2896, col: 8, offset: 91380},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91354,
+																						line: 2896, col: 9, offset: 91381,
 																					},
 																				},
 																			},
@@ -16906,9 +17124,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91353},
+																pos: position{line: 2896, col: 8, offset: 91380},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91354,
+																	line: 2896, col: 9, offset: 91381,
 																},
 															},
 														},
@@ -16921,41 +17139,41 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1106, col: 5, offset: 34041},
+							pos:   position{line: 1107, col: 5, offset: 34068},
 							label: "authorsAndRevision",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1106, col: 24, offset: 34060},
+								pos: position{line: 1107, col: 24, offset: 34087},
 								expr: &actionExpr{
-									pos: position{line: 1117, col: 5, offset: 34435},
+									pos: position{line: 1118, col: 5, offset: 34462},
 									run: (*parser).callonDocumentHeader222,
 									expr: &seqExpr{
-										pos: position{line: 1117, col: 5, offset: 34435},
+										pos: position{line: 1118, col: 5, offset: 34462},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1117, col: 5, offset: 34435},
+												pos: position{line: 1118, col: 5, offset: 34462},
 												expr: &litMatcher{
-													pos:        position{line: 1117, col: 6, offset: 34436},
+													pos:        position{line: 1118, col: 6, offset: 34463},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1118, col: 5, offset: 34444},
+												pos:   position{line: 1119, col: 5, offset: 34471},
 												label: "authors",
 												expr: &actionExpr{
-													pos: position{line: 1124, col: 20, offset: 34700},
+													pos: position{line: 1125, col: 20, offset: 34727},
 													run: (*parser).callonDocumentHeader227,
 													expr: &seqExpr{
-														pos: position{line: 1124, col: 20, offset: 34700},
+														pos: position{line: 1125, col: 20, offset: 34727},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 1124, col: 20, offset: 34700},
+																pos: position{line: 1125, col: 20, offset: 34727},
 																expr: &actionExpr{
-																	pos: position{line: 2876, col: 10, offset: 91005},
+																	pos: position{line: 2877, col: 10, offset: 91032},
 																	run: (*parser).callonDocumentHeader230,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2876, col: 10, offset: 91005},
+																		pos:        position{line: 2877, col: 10, offset: 91032},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16964,37 +17182,37 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 1124, col: 27, offset: 34707},
+																pos:   position{line: 1125, col: 27, offset: 34734},
 																label: "authors",
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 1124, col: 36, offset: 34716},
+																	pos: position{line: 1125, col: 36, offset: 34743},
 																	expr: &actionExpr{
-																		pos: position{line: 1129, col: 5, offset: 34829},
+																		pos: position{line: 1130, col: 5, offset: 34856},
 																		run: (*parser).callonDocumentHeader234,
 																		expr: &seqExpr{
-																			pos: position{line: 1129, col: 5, offset: 34829},
+																			pos: position{line: 1130, col: 5, offset: 34856},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1129, col: 5, offset: 34829},
+																					pos:   position{line: 1130, col: 5, offset: 34856},
 																					label: "fullName",
 																					expr: &zeroOrOneExpr{
-																						pos: position{line: 1129, col: 14, offset: 34838},
+																						pos: position{line: 1130, col: 14, offset: 34865},
 																						expr: &actionExpr{
-																							pos: position{line: 1140, col: 5, offset: 35218},
+																							pos: position{line: 1141, col: 5, offset: 35245},
 																							run: (*parser).callonDocumentHeader238,
 																							expr: &seqExpr{
-																								pos: position{line: 1140, col: 5, offset: 35218},
+																								pos: position{line: 1141, col: 5, offset: 35245},
 																								exprs: []interface{}{
 																									&labeledExpr{
-																										pos:   position{line: 1140, col: 5, offset: 35218},
+																										pos:   position{line: 1141, col: 5, offset: 35245},
 																										label: "part1",
 																										expr: &actionExpr{
-																											pos: position{line: 1140, col: 12, offset: 35225},
+																											pos: position{line: 1141, col: 12, offset: 35252},
 																											run: (*parser).callonDocumentHeader241,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1140, col: 12, offset: 35225},
+																												pos: position{line: 1141, col: 12, offset: 35252},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1140, col: 12, offset: 35225},
+																													pos:        position{line: 1141, col: 12, offset: 35252},
 																													val:        "[^<;\\r\\n ]",
 																													chars:      []rune{'<', ';', '\r', '\n', ' '},
 																													ignoreCase: false,
@@ -17004,12 +17222,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1143, col: 5, offset: 35305},
+																										pos: position{line: 1144, col: 5, offset: 35332},
 																										expr: &actionExpr{
-																											pos: position{line: 2876, col: 10, offset: 91005},
+																											pos: position{line: 2877, col: 10, offset: 91032},
 																											run: (*parser).callonDocumentHeader245,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2876, col: 10, offset: 91005},
+																												pos:        position{line: 2877, col: 10, offset: 91032},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17018,17 +17236,17 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1144, col: 5, offset: 35316},
+																										pos:   position{line: 1145, col: 5, offset: 35343},
 																										label: "part2",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 1144, col: 11, offset: 35322},
+																											pos: position{line: 1145, col: 11, offset: 35349},
 																											expr: &actionExpr{
-																												pos: position{line: 1144, col: 12, offset: 35323},
+																												pos: position{line: 1145, col: 12, offset: 35350},
 																												run: (*parser).callonDocumentHeader249,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1144, col: 12, offset: 35323},
+																													pos: position{line: 1145, col: 12, offset: 35350},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1144, col: 12, offset: 35323},
+																														pos:        position{line: 1145, col: 12, offset: 35350},
 																														val:        "[^<;\\r\\n ]",
 																														chars:      []rune{'<', ';', '\r', '\n', ' '},
 																														ignoreCase: false,
@@ -17039,12 +17257,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1147, col: 5, offset: 35404},
+																										pos: position{line: 1148, col: 5, offset: 35431},
 																										expr: &actionExpr{
-																											pos: position{line: 2876, col: 10, offset: 91005},
+																											pos: position{line: 2877, col: 10, offset: 91032},
 																											run: (*parser).callonDocumentHeader253,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2876, col: 10, offset: 91005},
+																												pos:        position{line: 2877, col: 10, offset: 91032},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17053,17 +17271,17 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1148, col: 5, offset: 35415},
+																										pos:   position{line: 1149, col: 5, offset: 35442},
 																										label: "part3",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 1148, col: 11, offset: 35421},
+																											pos: position{line: 1149, col: 11, offset: 35448},
 																											expr: &actionExpr{
-																												pos: position{line: 1148, col: 12, offset: 35422},
+																												pos: position{line: 1149, col: 12, offset: 35449},
 																												run: (*parser).callonDocumentHeader257,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1148, col: 12, offset: 35422},
+																													pos: position{line: 1149, col: 12, offset: 35449},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1148, col: 12, offset: 35422},
+																														pos:        position{line: 1149, col: 12, offset: 35449},
 																														val:        "[^<;\\r\\n]",
 																														chars:      []rune{'<', ';', '\r', '\n'},
 																														ignoreCase: false,
@@ -17074,12 +17292,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1151, col: 5, offset: 35501},
+																										pos: position{line: 1152, col: 5, offset: 35528},
 																										expr: &actionExpr{
-																											pos: position{line: 2876, col: 10, offset: 91005},
+																											pos: position{line: 2877, col: 10, offset: 91032},
 																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2876, col: 10, offset: 91005},
+																												pos:        position{line: 2877, col: 10, offset: 91032},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17093,38 +17311,38 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1129, col: 40, offset: 34864},
+																					pos:   position{line: 1130, col: 40, offset: 34891},
 																					label: "email",
 																					expr: &zeroOrOneExpr{
-																						pos: position{line: 1129, col: 46, offset: 34870},
+																						pos: position{line: 1130, col: 46, offset: 34897},
 																						expr: &actionExpr{
-																							pos: position{line: 1157, col: 5, offset: 35623},
+																							pos: position{line: 1158, col: 5, offset: 35650},
 																							run: (*parser).callonDocumentHeader265,
 																							expr: &seqExpr{
-																								pos: position{line: 1157, col: 5, offset: 35623},
+																								pos: position{line: 1158, col: 5, offset: 35650},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2893, col: 11, offset: 91339},
+																										pos: position{line: 2894, col: 11, offset: 91366},
 																										expr: &anyMatcher{
-																											line: 2893, col: 13, offset: 91341,
+																											line: 2894, col: 13, offset: 91368,
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1158, col: 5, offset: 35635},
+																										pos:        position{line: 1159, col: 5, offset: 35662},
 																										val:        "<",
 																										ignoreCase: false,
 																										want:       "\"<\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1159, col: 5, offset: 35644},
+																										pos:   position{line: 1160, col: 5, offset: 35671},
 																										label: "email",
 																										expr: &actionExpr{
-																											pos: position{line: 1159, col: 12, offset: 35651},
+																											pos: position{line: 1160, col: 12, offset: 35678},
 																											run: (*parser).callonDocumentHeader271,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1159, col: 13, offset: 35652},
+																												pos: position{line: 1160, col: 13, offset: 35679},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1159, col: 13, offset: 35652},
+																													pos:        position{line: 1160, col: 13, offset: 35679},
 																													val:        "[^>\\r\\n]",
 																													chars:      []rune{'>', '\r', '\n'},
 																													ignoreCase: false,
@@ -17134,7 +17352,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1162, col: 5, offset: 35712},
+																										pos:        position{line: 1163, col: 5, offset: 35739},
 																										val:        ">",
 																										ignoreCase: false,
 																										want:       "\">\"",
@@ -17145,12 +17363,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1129, col: 69, offset: 34893},
+																					pos: position{line: 1130, col: 69, offset: 34920},
 																					expr: &actionExpr{
-																						pos: position{line: 2876, col: 10, offset: 91005},
+																						pos: position{line: 2877, col: 10, offset: 91032},
 																						run: (*parser).callonDocumentHeader276,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2876, col: 10, offset: 91005},
+																							pos:        position{line: 2877, col: 10, offset: 91032},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17159,21 +17377,21 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrOneExpr{
-																					pos: position{line: 1129, col: 76, offset: 34900},
+																					pos: position{line: 1130, col: 76, offset: 34927},
 																					expr: &litMatcher{
-																						pos:        position{line: 1129, col: 76, offset: 34900},
+																						pos:        position{line: 1130, col: 76, offset: 34927},
 																						val:        ";",
 																						ignoreCase: false,
 																						want:       "\";\"",
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1129, col: 81, offset: 34905},
+																					pos: position{line: 1130, col: 81, offset: 34932},
 																					expr: &actionExpr{
-																						pos: position{line: 2876, col: 10, offset: 91005},
+																						pos: position{line: 2877, col: 10, offset: 91032},
 																						run: (*parser).callonDocumentHeader281,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2876, col: 10, offset: 91005},
+																							pos:        position{line: 2877, col: 10, offset: 91032},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17182,7 +17400,7 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1130, col: 5, offset: 34917},
+																					pos: position{line: 1131, col: 5, offset: 34944},
 																					run: (*parser).callonDocumentHeader283,
 																				},
 																			},
@@ -17191,28 +17409,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2898, col: 8, offset: 91403},
+																pos: position{line: 2899, col: 8, offset: 91430},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2885, col: 12, offset: 91176},
+																		pos: position{line: 2886, col: 12, offset: 91203},
 																		run: (*parser).callonDocumentHeader285,
 																		expr: &choiceExpr{
-																			pos: position{line: 2885, col: 13, offset: 91177},
+																			pos: position{line: 2886, col: 13, offset: 91204},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 13, offset: 91177},
+																					pos:        position{line: 2886, col: 13, offset: 91204},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 20, offset: 91184},
+																					pos:        position{line: 2886, col: 20, offset: 91211},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 29, offset: 91193},
+																					pos:        position{line: 2886, col: 29, offset: 91220},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17221,9 +17439,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91353},
+																		pos: position{line: 2896, col: 8, offset: 91380},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91354,
+																			line: 2896, col: 9, offset: 91381,
 																		},
 																	},
 																},
@@ -17233,41 +17451,41 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 1119, col: 5, offset: 34474},
+												pos: position{line: 1120, col: 5, offset: 34501},
 												expr: &choiceExpr{
-													pos: position{line: 1119, col: 6, offset: 34475},
+													pos: position{line: 1120, col: 6, offset: 34502},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2483, col: 22, offset: 79891},
+															pos: position{line: 2484, col: 22, offset: 79918},
 															run: (*parser).callonDocumentHeader294,
 															expr: &seqExpr{
-																pos: position{line: 2483, col: 22, offset: 79891},
+																pos: position{line: 2484, col: 22, offset: 79918},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2488, col: 31, offset: 80112},
+																		pos:        position{line: 2489, col: 31, offset: 80139},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2488, col: 36, offset: 80117},
+																		pos: position{line: 2489, col: 36, offset: 80144},
 																		expr: &litMatcher{
-																			pos:        position{line: 2488, col: 37, offset: 80118},
+																			pos:        position{line: 2489, col: 37, offset: 80145},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2483, col: 49, offset: 79918},
+																		pos:   position{line: 2484, col: 49, offset: 79945},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2822, col: 13, offset: 89531},
+																			pos: position{line: 2823, col: 13, offset: 89558},
 																			run: (*parser).callonDocumentHeader300,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2822, col: 13, offset: 89531},
+																				pos: position{line: 2823, col: 13, offset: 89558},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2822, col: 13, offset: 89531},
+																					pos:        position{line: 2823, col: 13, offset: 89558},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -17277,28 +17495,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91403},
+																		pos: position{line: 2899, col: 8, offset: 91430},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91176},
+																				pos: position{line: 2886, col: 12, offset: 91203},
 																				run: (*parser).callonDocumentHeader304,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91177},
+																					pos: position{line: 2886, col: 13, offset: 91204},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91177},
+																							pos:        position{line: 2886, col: 13, offset: 91204},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91184},
+																							pos:        position{line: 2886, col: 20, offset: 91211},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91193},
+																							pos:        position{line: 2886, col: 29, offset: 91220},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -17307,9 +17525,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91353},
+																				pos: position{line: 2896, col: 8, offset: 91380},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91354,
+																					line: 2896, col: 9, offset: 91381,
 																				},
 																			},
 																		},
@@ -17318,36 +17536,36 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 819, col: 5, offset: 26338},
+															pos: position{line: 820, col: 5, offset: 26365},
 															run: (*parser).callonDocumentHeader311,
 															expr: &seqExpr{
-																pos: position{line: 819, col: 5, offset: 26338},
+																pos: position{line: 820, col: 5, offset: 26365},
 																exprs: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 739, col: 5, offset: 23593},
+																		pos: position{line: 740, col: 5, offset: 23620},
 																		run: (*parser).callonDocumentHeader313,
 																		expr: &seqExpr{
-																			pos: position{line: 739, col: 5, offset: 23593},
+																			pos: position{line: 740, col: 5, offset: 23620},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 739, col: 5, offset: 23593},
+																					pos:   position{line: 740, col: 5, offset: 23620},
 																					label: "delimiter",
 																					expr: &actionExpr{
-																						pos: position{line: 739, col: 16, offset: 23604},
+																						pos: position{line: 740, col: 16, offset: 23631},
 																						run: (*parser).callonDocumentHeader316,
 																						expr: &seqExpr{
-																							pos: position{line: 739, col: 16, offset: 23604},
+																							pos: position{line: 740, col: 16, offset: 23631},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 739, col: 16, offset: 23604},
+																									pos:        position{line: 740, col: 16, offset: 23631},
 																									val:        "////",
 																									ignoreCase: false,
 																									want:       "\"////\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 739, col: 23, offset: 23611},
+																									pos: position{line: 740, col: 23, offset: 23638},
 																									expr: &litMatcher{
-																										pos:        position{line: 739, col: 23, offset: 23611},
+																										pos:        position{line: 740, col: 23, offset: 23638},
 																										val:        "/",
 																										ignoreCase: false,
 																										want:       "\"/\"",
@@ -17358,12 +17576,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 741, col: 8, offset: 23695},
+																					pos: position{line: 742, col: 8, offset: 23722},
 																					expr: &actionExpr{
-																						pos: position{line: 2876, col: 10, offset: 91005},
+																						pos: position{line: 2877, col: 10, offset: 91032},
 																						run: (*parser).callonDocumentHeader322,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2876, col: 10, offset: 91005},
+																							pos:        position{line: 2877, col: 10, offset: 91032},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17372,28 +17590,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2898, col: 8, offset: 91403},
+																					pos: position{line: 2899, col: 8, offset: 91430},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2885, col: 12, offset: 91176},
+																							pos: position{line: 2886, col: 12, offset: 91203},
 																							run: (*parser).callonDocumentHeader325,
 																							expr: &choiceExpr{
-																								pos: position{line: 2885, col: 13, offset: 91177},
+																								pos: position{line: 2886, col: 13, offset: 91204},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 13, offset: 91177},
+																										pos:        position{line: 2886, col: 13, offset: 91204},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 20, offset: 91184},
+																										pos:        position{line: 2886, col: 20, offset: 91211},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 29, offset: 91193},
+																										pos:        position{line: 2886, col: 29, offset: 91220},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -17402,9 +17620,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2895, col: 8, offset: 91353},
+																							pos: position{line: 2896, col: 8, offset: 91380},
 																							expr: &anyMatcher{
-																								line: 2895, col: 9, offset: 91354,
+																								line: 2896, col: 9, offset: 91381,
 																							},
 																						},
 																					},
@@ -17413,46 +17631,46 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 820, col: 5, offset: 26369},
+																		pos:   position{line: 821, col: 5, offset: 26396},
 																		label: "content",
 																		expr: &zeroOrMoreExpr{
-																			pos: position{line: 830, col: 5, offset: 26655},
+																			pos: position{line: 831, col: 5, offset: 26682},
 																			expr: &actionExpr{
-																				pos: position{line: 830, col: 6, offset: 26656},
+																				pos: position{line: 831, col: 6, offset: 26683},
 																				run: (*parser).callonDocumentHeader334,
 																				expr: &seqExpr{
-																					pos: position{line: 830, col: 6, offset: 26656},
+																					pos: position{line: 831, col: 6, offset: 26683},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 830, col: 6, offset: 26656},
+																							pos: position{line: 831, col: 6, offset: 26683},
 																							expr: &choiceExpr{
-																								pos: position{line: 827, col: 29, offset: 26598},
+																								pos: position{line: 828, col: 29, offset: 26625},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 739, col: 5, offset: 23593},
+																										pos: position{line: 740, col: 5, offset: 23620},
 																										run: (*parser).callonDocumentHeader338,
 																										expr: &seqExpr{
-																											pos: position{line: 739, col: 5, offset: 23593},
+																											pos: position{line: 740, col: 5, offset: 23620},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 739, col: 5, offset: 23593},
+																													pos:   position{line: 740, col: 5, offset: 23620},
 																													label: "delimiter",
 																													expr: &actionExpr{
-																														pos: position{line: 739, col: 16, offset: 23604},
+																														pos: position{line: 740, col: 16, offset: 23631},
 																														run: (*parser).callonDocumentHeader341,
 																														expr: &seqExpr{
-																															pos: position{line: 739, col: 16, offset: 23604},
+																															pos: position{line: 740, col: 16, offset: 23631},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 739, col: 16, offset: 23604},
+																																	pos:        position{line: 740, col: 16, offset: 23631},
 																																	val:        "////",
 																																	ignoreCase: false,
 																																	want:       "\"////\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 739, col: 23, offset: 23611},
+																																	pos: position{line: 740, col: 23, offset: 23638},
 																																	expr: &litMatcher{
-																																		pos:        position{line: 739, col: 23, offset: 23611},
+																																		pos:        position{line: 740, col: 23, offset: 23638},
 																																		val:        "/",
 																																		ignoreCase: false,
 																																		want:       "\"/\"",
@@ -17463,12 +17681,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 741, col: 8, offset: 23695},
+																													pos: position{line: 742, col: 8, offset: 23722},
 																													expr: &actionExpr{
-																														pos: position{line: 2876, col: 10, offset: 91005},
+																														pos: position{line: 2877, col: 10, offset: 91032},
 																														run: (*parser).callonDocumentHeader347,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2876, col: 10, offset: 91005},
+																															pos:        position{line: 2877, col: 10, offset: 91032},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -17477,28 +17695,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2898, col: 8, offset: 91403},
+																													pos: position{line: 2899, col: 8, offset: 91430},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2885, col: 12, offset: 91176},
+																															pos: position{line: 2886, col: 12, offset: 91203},
 																															run: (*parser).callonDocumentHeader350,
 																															expr: &choiceExpr{
-																																pos: position{line: 2885, col: 13, offset: 91177},
+																																pos: position{line: 2886, col: 13, offset: 91204},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2885, col: 13, offset: 91177},
+																																		pos:        position{line: 2886, col: 13, offset: 91204},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2885, col: 20, offset: 91184},
+																																		pos:        position{line: 2886, col: 20, offset: 91211},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2885, col: 29, offset: 91193},
+																																		pos:        position{line: 2886, col: 29, offset: 91220},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -17507,9 +17725,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2895, col: 8, offset: 91353},
+																															pos: position{line: 2896, col: 8, offset: 91380},
 																															expr: &anyMatcher{
-																																line: 2895, col: 9, offset: 91354,
+																																line: 2896, col: 9, offset: 91381,
 																															},
 																														},
 																													},
@@ -17518,39 +17736,39 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2895, col: 8, offset: 91353},
+																										pos: position{line: 2896, col: 8, offset: 91380},
 																										expr: &anyMatcher{
-																											line: 2895, col: 9, offset: 91354,
+																											line: 2896, col: 9, offset: 91381,
 																										},
 																									},
 																								},
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 831, col: 5, offset: 26686},
+																							pos:   position{line: 832, col: 5, offset: 26713},
 																							label: "line",
 																							expr: &actionExpr{
-																								pos: position{line: 810, col: 5, offset: 26102},
+																								pos: position{line: 811, col: 5, offset: 26129},
 																								run: (*parser).callonDocumentHeader360,
 																								expr: &seqExpr{
-																									pos: position{line: 810, col: 5, offset: 26102},
+																									pos: position{line: 811, col: 5, offset: 26129},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2893, col: 11, offset: 91339},
+																											pos: position{line: 2894, col: 11, offset: 91366},
 																											expr: &anyMatcher{
-																												line: 2893, col: 13, offset: 91341,
+																												line: 2894, col: 13, offset: 91368,
 																											},
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 811, col: 5, offset: 26177},
+																											pos:   position{line: 812, col: 5, offset: 26204},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2822, col: 13, offset: 89531},
+																												pos: position{line: 2823, col: 13, offset: 89558},
 																												run: (*parser).callonDocumentHeader365,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2822, col: 13, offset: 89531},
+																													pos: position{line: 2823, col: 13, offset: 89558},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2822, col: 13, offset: 89531},
+																														pos:        position{line: 2823, col: 13, offset: 89558},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -17560,28 +17778,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91403},
+																											pos: position{line: 2899, col: 8, offset: 91430},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91176},
+																													pos: position{line: 2886, col: 12, offset: 91203},
 																													run: (*parser).callonDocumentHeader369,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91177},
+																														pos: position{line: 2886, col: 13, offset: 91204},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91177},
+																																pos:        position{line: 2886, col: 13, offset: 91204},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91184},
+																																pos:        position{line: 2886, col: 20, offset: 91211},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91193},
+																																pos:        position{line: 2886, col: 29, offset: 91220},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17590,9 +17808,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91353},
+																													pos: position{line: 2896, col: 8, offset: 91380},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91354,
+																														line: 2896, col: 9, offset: 91381,
 																													},
 																												},
 																											},
@@ -17607,35 +17825,35 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrOneExpr{
-																		pos: position{line: 821, col: 5, offset: 26403},
+																		pos: position{line: 822, col: 5, offset: 26430},
 																		expr: &choiceExpr{
-																			pos: position{line: 827, col: 29, offset: 26598},
+																			pos: position{line: 828, col: 29, offset: 26625},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 739, col: 5, offset: 23593},
+																					pos: position{line: 740, col: 5, offset: 23620},
 																					run: (*parser).callonDocumentHeader378,
 																					expr: &seqExpr{
-																						pos: position{line: 739, col: 5, offset: 23593},
+																						pos: position{line: 740, col: 5, offset: 23620},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 739, col: 5, offset: 23593},
+																								pos:   position{line: 740, col: 5, offset: 23620},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 739, col: 16, offset: 23604},
+																									pos: position{line: 740, col: 16, offset: 23631},
 																									run: (*parser).callonDocumentHeader381,
 																									expr: &seqExpr{
-																										pos: position{line: 739, col: 16, offset: 23604},
+																										pos: position{line: 740, col: 16, offset: 23631},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 739, col: 16, offset: 23604},
+																												pos:        position{line: 740, col: 16, offset: 23631},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 739, col: 23, offset: 23611},
+																												pos: position{line: 740, col: 23, offset: 23638},
 																												expr: &litMatcher{
-																													pos:        position{line: 739, col: 23, offset: 23611},
+																													pos:        position{line: 740, col: 23, offset: 23638},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -17646,12 +17864,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 741, col: 8, offset: 23695},
+																								pos: position{line: 742, col: 8, offset: 23722},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 91005},
+																									pos: position{line: 2877, col: 10, offset: 91032},
 																									run: (*parser).callonDocumentHeader387,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 91005},
+																										pos:        position{line: 2877, col: 10, offset: 91032},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -17660,28 +17878,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2898, col: 8, offset: 91403},
+																								pos: position{line: 2899, col: 8, offset: 91430},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2885, col: 12, offset: 91176},
+																										pos: position{line: 2886, col: 12, offset: 91203},
 																										run: (*parser).callonDocumentHeader390,
 																										expr: &choiceExpr{
-																											pos: position{line: 2885, col: 13, offset: 91177},
+																											pos: position{line: 2886, col: 13, offset: 91204},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 13, offset: 91177},
+																													pos:        position{line: 2886, col: 13, offset: 91204},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 20, offset: 91184},
+																													pos:        position{line: 2886, col: 20, offset: 91211},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 29, offset: 91193},
+																													pos:        position{line: 2886, col: 29, offset: 91220},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -17690,9 +17908,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2895, col: 8, offset: 91353},
+																										pos: position{line: 2896, col: 8, offset: 91380},
 																										expr: &anyMatcher{
-																											line: 2895, col: 9, offset: 91354,
+																											line: 2896, col: 9, offset: 91381,
 																										},
 																									},
 																								},
@@ -17701,9 +17919,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91353},
+																					pos: position{line: 2896, col: 8, offset: 91380},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91354,
+																						line: 2896, col: 9, offset: 91381,
 																					},
 																				},
 																			},
@@ -17716,23 +17934,23 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1120, col: 5, offset: 34549},
+												pos:   position{line: 1121, col: 5, offset: 34576},
 												label: "revision",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 1120, col: 14, offset: 34558},
+													pos: position{line: 1121, col: 14, offset: 34585},
 													expr: &actionExpr{
-														pos: position{line: 1168, col: 21, offset: 35901},
+														pos: position{line: 1169, col: 21, offset: 35928},
 														run: (*parser).callonDocumentHeader401,
 														expr: &seqExpr{
-															pos: position{line: 1168, col: 21, offset: 35901},
+															pos: position{line: 1169, col: 21, offset: 35928},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1168, col: 21, offset: 35901},
+																	pos: position{line: 1169, col: 21, offset: 35928},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 91005},
+																		pos: position{line: 2877, col: 10, offset: 91032},
 																		run: (*parser).callonDocumentHeader404,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 91005},
+																			pos:        position{line: 2877, col: 10, offset: 91032},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -17741,55 +17959,55 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1168, col: 28, offset: 35908},
+																	pos: position{line: 1169, col: 28, offset: 35935},
 																	expr: &litMatcher{
-																		pos:        position{line: 1168, col: 29, offset: 35909},
+																		pos:        position{line: 1169, col: 29, offset: 35936},
 																		val:        ":",
 																		ignoreCase: false,
 																		want:       "\":\"",
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1168, col: 33, offset: 35913},
+																	pos:   position{line: 1169, col: 33, offset: 35940},
 																	label: "revision",
 																	expr: &choiceExpr{
-																		pos: position{line: 1169, col: 9, offset: 35932},
+																		pos: position{line: 1170, col: 9, offset: 35959},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1169, col: 10, offset: 35933},
+																				pos: position{line: 1170, col: 10, offset: 35960},
 																				run: (*parser).callonDocumentHeader410,
 																				expr: &seqExpr{
-																					pos: position{line: 1169, col: 10, offset: 35933},
+																					pos: position{line: 1170, col: 10, offset: 35960},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1169, col: 10, offset: 35933},
+																							pos:   position{line: 1170, col: 10, offset: 35960},
 																							label: "revnumber",
 																							expr: &choiceExpr{
-																								pos: position{line: 1178, col: 27, offset: 36450},
+																								pos: position{line: 1179, col: 27, offset: 36477},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1178, col: 27, offset: 36450},
+																										pos: position{line: 1179, col: 27, offset: 36477},
 																										run: (*parser).callonDocumentHeader414,
 																										expr: &seqExpr{
-																											pos: position{line: 1178, col: 27, offset: 36450},
+																											pos: position{line: 1179, col: 27, offset: 36477},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 1178, col: 27, offset: 36450},
+																													pos:        position{line: 1179, col: 27, offset: 36477},
 																													val:        "v",
 																													ignoreCase: true,
 																													want:       "\"v\"i",
 																												},
 																												&charClassMatcher{
-																													pos:        position{line: 1178, col: 32, offset: 36455},
+																													pos:        position{line: 1179, col: 32, offset: 36482},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 1178, col: 38, offset: 36461},
+																													pos: position{line: 1179, col: 38, offset: 36488},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1178, col: 38, offset: 36461},
+																														pos:        position{line: 1179, col: 38, offset: 36488},
 																														val:        "[^:,\\r\\n]",
 																														chars:      []rune{':', ',', '\r', '\n'},
 																														ignoreCase: false,
@@ -17800,31 +18018,31 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1180, col: 5, offset: 36509},
+																										pos: position{line: 1181, col: 5, offset: 36536},
 																										run: (*parser).callonDocumentHeader420,
 																										expr: &seqExpr{
-																											pos: position{line: 1180, col: 5, offset: 36509},
+																											pos: position{line: 1181, col: 5, offset: 36536},
 																											exprs: []interface{}{
 																												&zeroOrOneExpr{
-																													pos: position{line: 1180, col: 5, offset: 36509},
+																													pos: position{line: 1181, col: 5, offset: 36536},
 																													expr: &litMatcher{
-																														pos:        position{line: 1180, col: 5, offset: 36509},
+																														pos:        position{line: 1181, col: 5, offset: 36536},
 																														val:        "v",
 																														ignoreCase: true,
 																														want:       "\"v\"i",
 																													},
 																												},
 																												&charClassMatcher{
-																													pos:        position{line: 1180, col: 11, offset: 36515},
+																													pos:        position{line: 1181, col: 11, offset: 36542},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 1180, col: 17, offset: 36521},
+																													pos: position{line: 1181, col: 17, offset: 36548},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1180, col: 17, offset: 36521},
+																														pos:        position{line: 1181, col: 17, offset: 36548},
 																														val:        "[^:,\\r\\n]",
 																														chars:      []rune{':', ',', '\r', '\n'},
 																														ignoreCase: false,
@@ -17832,12 +18050,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 1180, col: 28, offset: 36532},
+																													pos: position{line: 1181, col: 28, offset: 36559},
 																													expr: &actionExpr{
-																														pos: position{line: 2876, col: 10, offset: 91005},
+																														pos: position{line: 2877, col: 10, offset: 91032},
 																														run: (*parser).callonDocumentHeader428,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2876, col: 10, offset: 91005},
+																															pos:        position{line: 2877, col: 10, offset: 91032},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -17846,9 +18064,9 @@ var g = &grammar{
 																													},
 																												},
 																												&andExpr{
-																													pos: position{line: 1180, col: 35, offset: 36539},
+																													pos: position{line: 1181, col: 35, offset: 36566},
 																													expr: &litMatcher{
-																														pos:        position{line: 1180, col: 36, offset: 36540},
+																														pos:        position{line: 1181, col: 36, offset: 36567},
 																														val:        ",",
 																														ignoreCase: false,
 																														want:       "\",\"",
@@ -17861,26 +18079,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1169, col: 45, offset: 35968},
+																							pos: position{line: 1170, col: 45, offset: 35995},
 																							expr: &litMatcher{
-																								pos:        position{line: 1169, col: 45, offset: 35968},
+																								pos:        position{line: 1170, col: 45, offset: 35995},
 																								val:        ",",
 																								ignoreCase: false,
 																								want:       "\",\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1169, col: 50, offset: 35973},
+																							pos:   position{line: 1170, col: 50, offset: 36000},
 																							label: "revdate",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1169, col: 58, offset: 35981},
+																								pos: position{line: 1170, col: 58, offset: 36008},
 																								expr: &actionExpr{
-																									pos: position{line: 1184, col: 25, offset: 36604},
+																									pos: position{line: 1185, col: 25, offset: 36631},
 																									run: (*parser).callonDocumentHeader436,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1184, col: 25, offset: 36604},
+																										pos: position{line: 1185, col: 25, offset: 36631},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1184, col: 25, offset: 36604},
+																											pos:        position{line: 1185, col: 25, offset: 36631},
 																											val:        "[^:\\r\\n]",
 																											chars:      []rune{':', '\r', '\n'},
 																											ignoreCase: false,
@@ -17891,26 +18109,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1169, col: 82, offset: 36005},
+																							pos: position{line: 1170, col: 82, offset: 36032},
 																							expr: &litMatcher{
-																								pos:        position{line: 1169, col: 82, offset: 36005},
+																								pos:        position{line: 1170, col: 82, offset: 36032},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1169, col: 87, offset: 36010},
+																							pos:   position{line: 1170, col: 87, offset: 36037},
 																							label: "revremark",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1169, col: 97, offset: 36020},
+																								pos: position{line: 1170, col: 97, offset: 36047},
 																								expr: &actionExpr{
-																									pos: position{line: 1188, col: 27, offset: 36676},
+																									pos: position{line: 1189, col: 27, offset: 36703},
 																									run: (*parser).callonDocumentHeader443,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1188, col: 27, offset: 36676},
+																										pos: position{line: 1189, col: 27, offset: 36703},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1188, col: 27, offset: 36676},
+																											pos:        position{line: 1189, col: 27, offset: 36703},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -17924,21 +18142,21 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1171, col: 15, offset: 36138},
+																				pos: position{line: 1172, col: 15, offset: 36165},
 																				run: (*parser).callonDocumentHeader446,
 																				expr: &seqExpr{
-																					pos: position{line: 1171, col: 15, offset: 36138},
+																					pos: position{line: 1172, col: 15, offset: 36165},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1171, col: 15, offset: 36138},
+																							pos:   position{line: 1172, col: 15, offset: 36165},
 																							label: "revdate",
 																							expr: &actionExpr{
-																								pos: position{line: 1184, col: 25, offset: 36604},
+																								pos: position{line: 1185, col: 25, offset: 36631},
 																								run: (*parser).callonDocumentHeader449,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1184, col: 25, offset: 36604},
+																									pos: position{line: 1185, col: 25, offset: 36631},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1184, col: 25, offset: 36604},
+																										pos:        position{line: 1185, col: 25, offset: 36631},
 																										val:        "[^:\\r\\n]",
 																										chars:      []rune{':', '\r', '\n'},
 																										ignoreCase: false,
@@ -17948,26 +18166,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1171, col: 46, offset: 36169},
+																							pos: position{line: 1172, col: 46, offset: 36196},
 																							expr: &litMatcher{
-																								pos:        position{line: 1171, col: 46, offset: 36169},
+																								pos:        position{line: 1172, col: 46, offset: 36196},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1171, col: 51, offset: 36174},
+																							pos:   position{line: 1172, col: 51, offset: 36201},
 																							label: "revremark",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1171, col: 61, offset: 36184},
+																								pos: position{line: 1172, col: 61, offset: 36211},
 																								expr: &actionExpr{
-																									pos: position{line: 1188, col: 27, offset: 36676},
+																									pos: position{line: 1189, col: 27, offset: 36703},
 																									run: (*parser).callonDocumentHeader456,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1188, col: 27, offset: 36676},
+																										pos: position{line: 1189, col: 27, offset: 36703},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1188, col: 27, offset: 36676},
+																											pos:        position{line: 1189, col: 27, offset: 36703},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -17984,28 +18202,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91403},
+																	pos: position{line: 2899, col: 8, offset: 91430},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91176},
+																			pos: position{line: 2886, col: 12, offset: 91203},
 																			run: (*parser).callonDocumentHeader460,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91177},
+																				pos: position{line: 2886, col: 13, offset: 91204},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91177},
+																						pos:        position{line: 2886, col: 13, offset: 91204},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91184},
+																						pos:        position{line: 2886, col: 20, offset: 91211},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91193},
+																						pos:        position{line: 2886, col: 29, offset: 91220},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18014,9 +18232,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91353},
+																			pos: position{line: 2896, col: 8, offset: 91380},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91354,
+																				line: 2896, col: 9, offset: 91381,
 																			},
 																		},
 																	},
@@ -18032,15 +18250,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1107, col: 5, offset: 34095},
+							pos:   position{line: 1108, col: 5, offset: 34122},
 							label: "extraElements",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1107, col: 19, offset: 34109},
+								pos: position{line: 1108, col: 19, offset: 34136},
 								expr: &choiceExpr{
-									pos: position{line: 1107, col: 20, offset: 34110},
+									pos: position{line: 1108, col: 20, offset: 34137},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 1107, col: 20, offset: 34110},
+											pos:  position{line: 1108, col: 20, offset: 34137},
 											name: "AttributeDeclaration",
 										},
 										&actionExpr{
@@ -18096,10 +18314,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 359, col: 49, offset: 10879},
 														expr: &actionExpr{
-															pos: position{line: 2876, col: 10, offset: 91005},
+															pos: position{line: 2877, col: 10, offset: 91032},
 															run: (*parser).callonDocumentHeader482,
 															expr: &charClassMatcher{
-																pos:        position{line: 2876, col: 10, offset: 91005},
+																pos:        position{line: 2877, col: 10, offset: 91032},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18108,28 +18326,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2898, col: 8, offset: 91403},
+														pos: position{line: 2899, col: 8, offset: 91430},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2885, col: 12, offset: 91176},
+																pos: position{line: 2886, col: 12, offset: 91203},
 																run: (*parser).callonDocumentHeader485,
 																expr: &choiceExpr{
-																	pos: position{line: 2885, col: 13, offset: 91177},
+																	pos: position{line: 2886, col: 13, offset: 91204},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 13, offset: 91177},
+																			pos:        position{line: 2886, col: 13, offset: 91204},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 20, offset: 91184},
+																			pos:        position{line: 2886, col: 20, offset: 91211},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 29, offset: 91193},
+																			pos:        position{line: 2886, col: 29, offset: 91220},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18138,9 +18356,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91353},
+																pos: position{line: 2896, col: 8, offset: 91380},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91354,
+																	line: 2896, col: 9, offset: 91381,
 																},
 															},
 														},
@@ -18201,10 +18419,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 361, col: 39, offset: 11000},
 														expr: &actionExpr{
-															pos: position{line: 2876, col: 10, offset: 91005},
+															pos: position{line: 2877, col: 10, offset: 91032},
 															run: (*parser).callonDocumentHeader503,
 															expr: &charClassMatcher{
-																pos:        position{line: 2876, col: 10, offset: 91005},
+																pos:        position{line: 2877, col: 10, offset: 91032},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18213,28 +18431,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2898, col: 8, offset: 91403},
+														pos: position{line: 2899, col: 8, offset: 91430},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2885, col: 12, offset: 91176},
+																pos: position{line: 2886, col: 12, offset: 91203},
 																run: (*parser).callonDocumentHeader506,
 																expr: &choiceExpr{
-																	pos: position{line: 2885, col: 13, offset: 91177},
+																	pos: position{line: 2886, col: 13, offset: 91204},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 13, offset: 91177},
+																			pos:        position{line: 2886, col: 13, offset: 91204},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 20, offset: 91184},
+																			pos:        position{line: 2886, col: 20, offset: 91211},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 29, offset: 91193},
+																			pos:        position{line: 2886, col: 29, offset: 91220},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18243,9 +18461,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91353},
+																pos: position{line: 2896, col: 8, offset: 91380},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91354,
+																	line: 2896, col: 9, offset: 91381,
 																},
 															},
 														},
@@ -18254,36 +18472,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2483, col: 22, offset: 79891},
+											pos: position{line: 2484, col: 22, offset: 79918},
 											run: (*parser).callonDocumentHeader513,
 											expr: &seqExpr{
-												pos: position{line: 2483, col: 22, offset: 79891},
+												pos: position{line: 2484, col: 22, offset: 79918},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2488, col: 31, offset: 80112},
+														pos:        position{line: 2489, col: 31, offset: 80139},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2488, col: 36, offset: 80117},
+														pos: position{line: 2489, col: 36, offset: 80144},
 														expr: &litMatcher{
-															pos:        position{line: 2488, col: 37, offset: 80118},
+															pos:        position{line: 2489, col: 37, offset: 80145},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2483, col: 49, offset: 79918},
+														pos:   position{line: 2484, col: 49, offset: 79945},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2822, col: 13, offset: 89531},
+															pos: position{line: 2823, col: 13, offset: 89558},
 															run: (*parser).callonDocumentHeader519,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2822, col: 13, offset: 89531},
+																pos: position{line: 2823, col: 13, offset: 89558},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2822, col: 13, offset: 89531},
+																	pos:        position{line: 2823, col: 13, offset: 89558},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -18293,28 +18511,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2898, col: 8, offset: 91403},
+														pos: position{line: 2899, col: 8, offset: 91430},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2885, col: 12, offset: 91176},
+																pos: position{line: 2886, col: 12, offset: 91203},
 																run: (*parser).callonDocumentHeader523,
 																expr: &choiceExpr{
-																	pos: position{line: 2885, col: 13, offset: 91177},
+																	pos: position{line: 2886, col: 13, offset: 91204},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 13, offset: 91177},
+																			pos:        position{line: 2886, col: 13, offset: 91204},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 20, offset: 91184},
+																			pos:        position{line: 2886, col: 20, offset: 91211},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 29, offset: 91193},
+																			pos:        position{line: 2886, col: 29, offset: 91220},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18323,9 +18541,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91353},
+																pos: position{line: 2896, col: 8, offset: 91380},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91354,
+																	line: 2896, col: 9, offset: 91381,
 																},
 															},
 														},
@@ -18334,36 +18552,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 819, col: 5, offset: 26338},
+											pos: position{line: 820, col: 5, offset: 26365},
 											run: (*parser).callonDocumentHeader530,
 											expr: &seqExpr{
-												pos: position{line: 819, col: 5, offset: 26338},
+												pos: position{line: 820, col: 5, offset: 26365},
 												exprs: []interface{}{
 													&actionExpr{
-														pos: position{line: 739, col: 5, offset: 23593},
+														pos: position{line: 740, col: 5, offset: 23620},
 														run: (*parser).callonDocumentHeader532,
 														expr: &seqExpr{
-															pos: position{line: 739, col: 5, offset: 23593},
+															pos: position{line: 740, col: 5, offset: 23620},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 739, col: 5, offset: 23593},
+																	pos:   position{line: 740, col: 5, offset: 23620},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 739, col: 16, offset: 23604},
+																		pos: position{line: 740, col: 16, offset: 23631},
 																		run: (*parser).callonDocumentHeader535,
 																		expr: &seqExpr{
-																			pos: position{line: 739, col: 16, offset: 23604},
+																			pos: position{line: 740, col: 16, offset: 23631},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 739, col: 16, offset: 23604},
+																					pos:        position{line: 740, col: 16, offset: 23631},
 																					val:        "////",
 																					ignoreCase: false,
 																					want:       "\"////\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 739, col: 23, offset: 23611},
+																					pos: position{line: 740, col: 23, offset: 23638},
 																					expr: &litMatcher{
-																						pos:        position{line: 739, col: 23, offset: 23611},
+																						pos:        position{line: 740, col: 23, offset: 23638},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
@@ -18374,12 +18592,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 741, col: 8, offset: 23695},
+																	pos: position{line: 742, col: 8, offset: 23722},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 91005},
+																		pos: position{line: 2877, col: 10, offset: 91032},
 																		run: (*parser).callonDocumentHeader541,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 91005},
+																			pos:        position{line: 2877, col: 10, offset: 91032},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18388,28 +18606,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91403},
+																	pos: position{line: 2899, col: 8, offset: 91430},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91176},
+																			pos: position{line: 2886, col: 12, offset: 91203},
 																			run: (*parser).callonDocumentHeader544,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91177},
+																				pos: position{line: 2886, col: 13, offset: 91204},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91177},
+																						pos:        position{line: 2886, col: 13, offset: 91204},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91184},
+																						pos:        position{line: 2886, col: 20, offset: 91211},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91193},
+																						pos:        position{line: 2886, col: 29, offset: 91220},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18418,9 +18636,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91353},
+																			pos: position{line: 2896, col: 8, offset: 91380},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91354,
+																				line: 2896, col: 9, offset: 91381,
 																			},
 																		},
 																	},
@@ -18429,46 +18647,46 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 820, col: 5, offset: 26369},
+														pos:   position{line: 821, col: 5, offset: 26396},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 830, col: 5, offset: 26655},
+															pos: position{line: 831, col: 5, offset: 26682},
 															expr: &actionExpr{
-																pos: position{line: 830, col: 6, offset: 26656},
+																pos: position{line: 831, col: 6, offset: 26683},
 																run: (*parser).callonDocumentHeader553,
 																expr: &seqExpr{
-																	pos: position{line: 830, col: 6, offset: 26656},
+																	pos: position{line: 831, col: 6, offset: 26683},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 830, col: 6, offset: 26656},
+																			pos: position{line: 831, col: 6, offset: 26683},
 																			expr: &choiceExpr{
-																				pos: position{line: 827, col: 29, offset: 26598},
+																				pos: position{line: 828, col: 29, offset: 26625},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 739, col: 5, offset: 23593},
+																						pos: position{line: 740, col: 5, offset: 23620},
 																						run: (*parser).callonDocumentHeader557,
 																						expr: &seqExpr{
-																							pos: position{line: 739, col: 5, offset: 23593},
+																							pos: position{line: 740, col: 5, offset: 23620},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 739, col: 5, offset: 23593},
+																									pos:   position{line: 740, col: 5, offset: 23620},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 739, col: 16, offset: 23604},
+																										pos: position{line: 740, col: 16, offset: 23631},
 																										run: (*parser).callonDocumentHeader560,
 																										expr: &seqExpr{
-																											pos: position{line: 739, col: 16, offset: 23604},
+																											pos: position{line: 740, col: 16, offset: 23631},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 739, col: 16, offset: 23604},
+																													pos:        position{line: 740, col: 16, offset: 23631},
 																													val:        "////",
 																													ignoreCase: false,
 																													want:       "\"////\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 739, col: 23, offset: 23611},
+																													pos: position{line: 740, col: 23, offset: 23638},
 																													expr: &litMatcher{
-																														pos:        position{line: 739, col: 23, offset: 23611},
+																														pos:        position{line: 740, col: 23, offset: 23638},
 																														val:        "/",
 																														ignoreCase: false,
 																														want:       "\"/\"",
@@ -18479,12 +18697,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 741, col: 8, offset: 23695},
+																									pos: position{line: 742, col: 8, offset: 23722},
 																									expr: &actionExpr{
-																										pos: position{line: 2876, col: 10, offset: 91005},
+																										pos: position{line: 2877, col: 10, offset: 91032},
 																										run: (*parser).callonDocumentHeader566,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2876, col: 10, offset: 91005},
+																											pos:        position{line: 2877, col: 10, offset: 91032},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -18493,28 +18711,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2898, col: 8, offset: 91403},
+																									pos: position{line: 2899, col: 8, offset: 91430},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2885, col: 12, offset: 91176},
+																											pos: position{line: 2886, col: 12, offset: 91203},
 																											run: (*parser).callonDocumentHeader569,
 																											expr: &choiceExpr{
-																												pos: position{line: 2885, col: 13, offset: 91177},
+																												pos: position{line: 2886, col: 13, offset: 91204},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 13, offset: 91177},
+																														pos:        position{line: 2886, col: 13, offset: 91204},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 20, offset: 91184},
+																														pos:        position{line: 2886, col: 20, offset: 91211},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 29, offset: 91193},
+																														pos:        position{line: 2886, col: 29, offset: 91220},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -18523,9 +18741,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2895, col: 8, offset: 91353},
+																											pos: position{line: 2896, col: 8, offset: 91380},
 																											expr: &anyMatcher{
-																												line: 2895, col: 9, offset: 91354,
+																												line: 2896, col: 9, offset: 91381,
 																											},
 																										},
 																									},
@@ -18534,39 +18752,39 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91353},
+																						pos: position{line: 2896, col: 8, offset: 91380},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91354,
+																							line: 2896, col: 9, offset: 91381,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 831, col: 5, offset: 26686},
+																			pos:   position{line: 832, col: 5, offset: 26713},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 810, col: 5, offset: 26102},
+																				pos: position{line: 811, col: 5, offset: 26129},
 																				run: (*parser).callonDocumentHeader579,
 																				expr: &seqExpr{
-																					pos: position{line: 810, col: 5, offset: 26102},
+																					pos: position{line: 811, col: 5, offset: 26129},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2893, col: 11, offset: 91339},
+																							pos: position{line: 2894, col: 11, offset: 91366},
 																							expr: &anyMatcher{
-																								line: 2893, col: 13, offset: 91341,
+																								line: 2894, col: 13, offset: 91368,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 811, col: 5, offset: 26177},
+																							pos:   position{line: 812, col: 5, offset: 26204},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2822, col: 13, offset: 89531},
+																								pos: position{line: 2823, col: 13, offset: 89558},
 																								run: (*parser).callonDocumentHeader584,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2822, col: 13, offset: 89531},
+																									pos: position{line: 2823, col: 13, offset: 89558},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2822, col: 13, offset: 89531},
+																										pos:        position{line: 2823, col: 13, offset: 89558},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -18576,28 +18794,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91403},
+																							pos: position{line: 2899, col: 8, offset: 91430},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91176},
+																									pos: position{line: 2886, col: 12, offset: 91203},
 																									run: (*parser).callonDocumentHeader588,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91177},
+																										pos: position{line: 2886, col: 13, offset: 91204},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91177},
+																												pos:        position{line: 2886, col: 13, offset: 91204},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91184},
+																												pos:        position{line: 2886, col: 20, offset: 91211},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91193},
+																												pos:        position{line: 2886, col: 29, offset: 91220},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -18606,9 +18824,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91353},
+																									pos: position{line: 2896, col: 8, offset: 91380},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91354,
+																										line: 2896, col: 9, offset: 91381,
 																									},
 																								},
 																							},
@@ -18623,35 +18841,35 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 821, col: 5, offset: 26403},
+														pos: position{line: 822, col: 5, offset: 26430},
 														expr: &choiceExpr{
-															pos: position{line: 827, col: 29, offset: 26598},
+															pos: position{line: 828, col: 29, offset: 26625},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 739, col: 5, offset: 23593},
+																	pos: position{line: 740, col: 5, offset: 23620},
 																	run: (*parser).callonDocumentHeader597,
 																	expr: &seqExpr{
-																		pos: position{line: 739, col: 5, offset: 23593},
+																		pos: position{line: 740, col: 5, offset: 23620},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 739, col: 5, offset: 23593},
+																				pos:   position{line: 740, col: 5, offset: 23620},
 																				label: "delimiter",
 																				expr: &actionExpr{
-																					pos: position{line: 739, col: 16, offset: 23604},
+																					pos: position{line: 740, col: 16, offset: 23631},
 																					run: (*parser).callonDocumentHeader600,
 																					expr: &seqExpr{
-																						pos: position{line: 739, col: 16, offset: 23604},
+																						pos: position{line: 740, col: 16, offset: 23631},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 739, col: 16, offset: 23604},
+																								pos:        position{line: 740, col: 16, offset: 23631},
 																								val:        "////",
 																								ignoreCase: false,
 																								want:       "\"////\"",
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 739, col: 23, offset: 23611},
+																								pos: position{line: 740, col: 23, offset: 23638},
 																								expr: &litMatcher{
-																									pos:        position{line: 739, col: 23, offset: 23611},
+																									pos:        position{line: 740, col: 23, offset: 23638},
 																									val:        "/",
 																									ignoreCase: false,
 																									want:       "\"/\"",
@@ -18662,12 +18880,12 @@ var g = &grammar{
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 741, col: 8, offset: 23695},
+																				pos: position{line: 742, col: 8, offset: 23722},
 																				expr: &actionExpr{
-																					pos: position{line: 2876, col: 10, offset: 91005},
+																					pos: position{line: 2877, col: 10, offset: 91032},
 																					run: (*parser).callonDocumentHeader606,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2876, col: 10, offset: 91005},
+																						pos:        position{line: 2877, col: 10, offset: 91032},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -18676,28 +18894,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2898, col: 8, offset: 91403},
+																				pos: position{line: 2899, col: 8, offset: 91430},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2885, col: 12, offset: 91176},
+																						pos: position{line: 2886, col: 12, offset: 91203},
 																						run: (*parser).callonDocumentHeader609,
 																						expr: &choiceExpr{
-																							pos: position{line: 2885, col: 13, offset: 91177},
+																							pos: position{line: 2886, col: 13, offset: 91204},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 13, offset: 91177},
+																									pos:        position{line: 2886, col: 13, offset: 91204},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 20, offset: 91184},
+																									pos:        position{line: 2886, col: 20, offset: 91211},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 29, offset: 91193},
+																									pos:        position{line: 2886, col: 29, offset: 91220},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -18706,9 +18924,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91353},
+																						pos: position{line: 2896, col: 8, offset: 91380},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91354,
+																							line: 2896, col: 9, offset: 91381,
 																						},
 																					},
 																				},
@@ -18717,9 +18935,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2895, col: 8, offset: 91353},
+																	pos: position{line: 2896, col: 8, offset: 91380},
 																	expr: &anyMatcher{
-																		line: 2895, col: 9, offset: 91354,
+																		line: 2896, col: 9, offset: 91381,
 																	},
 																},
 															},
@@ -18738,26 +18956,26 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentTitle",
-			pos:  position{line: 1111, col: 1, offset: 34307},
+			pos:  position{line: 1112, col: 1, offset: 34334},
 			expr: &actionExpr{
-				pos: position{line: 1112, col: 5, offset: 34329},
+				pos: position{line: 1113, col: 5, offset: 34356},
 				run: (*parser).callonDocumentTitle1,
 				expr: &seqExpr{
-					pos: position{line: 1112, col: 5, offset: 34329},
+					pos: position{line: 1113, col: 5, offset: 34356},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1112, col: 5, offset: 34329},
+							pos:        position{line: 1113, col: 5, offset: 34356},
 							val:        "=",
 							ignoreCase: false,
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2880, col: 11, offset: 91066},
+							pos: position{line: 2881, col: 11, offset: 91093},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2880, col: 11, offset: 91066},
+								pos: position{line: 2881, col: 11, offset: 91093},
 								expr: &charClassMatcher{
-									pos:        position{line: 2880, col: 11, offset: 91066},
+									pos:        position{line: 2881, col: 11, offset: 91093},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18766,36 +18984,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1112, col: 16, offset: 34340},
+							pos:   position{line: 1113, col: 16, offset: 34367},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1112, col: 23, offset: 34347},
+								pos:  position{line: 1113, col: 23, offset: 34374},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2898, col: 8, offset: 91403},
+							pos: position{line: 2899, col: 8, offset: 91430},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2885, col: 12, offset: 91176},
+									pos: position{line: 2886, col: 12, offset: 91203},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2885, col: 13, offset: 91177},
+										pos: position{line: 2886, col: 13, offset: 91204},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2885, col: 13, offset: 91177},
+												pos:        position{line: 2886, col: 13, offset: 91204},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 20, offset: 91184},
+												pos:        position{line: 2886, col: 20, offset: 91211},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 29, offset: 91193},
+												pos:        position{line: 2886, col: 29, offset: 91220},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -18804,9 +19022,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2895, col: 8, offset: 91353},
+									pos: position{line: 2896, col: 8, offset: 91380},
 									expr: &anyMatcher{
-										line: 2895, col: 9, offset: 91354,
+										line: 2896, col: 9, offset: 91381,
 									},
 								},
 							},
@@ -18817,23 +19035,23 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentAuthorFullName",
-			pos:  position{line: 1139, col: 1, offset: 35187},
+			pos:  position{line: 1140, col: 1, offset: 35214},
 			expr: &actionExpr{
-				pos: position{line: 1140, col: 5, offset: 35218},
+				pos: position{line: 1141, col: 5, offset: 35245},
 				run: (*parser).callonDocumentAuthorFullName1,
 				expr: &seqExpr{
-					pos: position{line: 1140, col: 5, offset: 35218},
+					pos: position{line: 1141, col: 5, offset: 35245},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1140, col: 5, offset: 35218},
+							pos:   position{line: 1141, col: 5, offset: 35245},
 							label: "part1",
 							expr: &actionExpr{
-								pos: position{line: 1140, col: 12, offset: 35225},
+								pos: position{line: 1141, col: 12, offset: 35252},
 								run: (*parser).callonDocumentAuthorFullName4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1140, col: 12, offset: 35225},
+									pos: position{line: 1141, col: 12, offset: 35252},
 									expr: &charClassMatcher{
-										pos:        position{line: 1140, col: 12, offset: 35225},
+										pos:        position{line: 1141, col: 12, offset: 35252},
 										val:        "[^<;\\r\\n ]",
 										chars:      []rune{'<', ';', '\r', '\n', ' '},
 										ignoreCase: false,
@@ -18843,12 +19061,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1143, col: 5, offset: 35305},
+							pos: position{line: 1144, col: 5, offset: 35332},
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 10, offset: 91005},
+								pos: position{line: 2877, col: 10, offset: 91032},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2876, col: 10, offset: 91005},
+									pos:        position{line: 2877, col: 10, offset: 91032},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18857,17 +19075,17 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1144, col: 5, offset: 35316},
+							pos:   position{line: 1145, col: 5, offset: 35343},
 							label: "part2",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1144, col: 11, offset: 35322},
+								pos: position{line: 1145, col: 11, offset: 35349},
 								expr: &actionExpr{
-									pos: position{line: 1144, col: 12, offset: 35323},
+									pos: position{line: 1145, col: 12, offset: 35350},
 									run: (*parser).callonDocumentAuthorFullName12,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1144, col: 12, offset: 35323},
+										pos: position{line: 1145, col: 12, offset: 35350},
 										expr: &charClassMatcher{
-											pos:        position{line: 1144, col: 12, offset: 35323},
+											pos:        position{line: 1145, col: 12, offset: 35350},
 											val:        "[^<;\\r\\n ]",
 											chars:      []rune{'<', ';', '\r', '\n', ' '},
 											ignoreCase: false,
@@ -18878,12 +19096,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1147, col: 5, offset: 35404},
+							pos: position{line: 1148, col: 5, offset: 35431},
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 10, offset: 91005},
+								pos: position{line: 2877, col: 10, offset: 91032},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2876, col: 10, offset: 91005},
+									pos:        position{line: 2877, col: 10, offset: 91032},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18892,17 +19110,17 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1148, col: 5, offset: 35415},
+							pos:   position{line: 1149, col: 5, offset: 35442},
 							label: "part3",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1148, col: 11, offset: 35421},
+								pos: position{line: 1149, col: 11, offset: 35448},
 								expr: &actionExpr{
-									pos: position{line: 1148, col: 12, offset: 35422},
+									pos: position{line: 1149, col: 12, offset: 35449},
 									run: (*parser).callonDocumentAuthorFullName20,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1148, col: 12, offset: 35422},
+										pos: position{line: 1149, col: 12, offset: 35449},
 										expr: &charClassMatcher{
-											pos:        position{line: 1148, col: 12, offset: 35422},
+											pos:        position{line: 1149, col: 12, offset: 35449},
 											val:        "[^<;\\r\\n]",
 											chars:      []rune{'<', ';', '\r', '\n'},
 											ignoreCase: false,
@@ -18913,12 +19131,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1151, col: 5, offset: 35501},
+							pos: position{line: 1152, col: 5, offset: 35528},
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 10, offset: 91005},
+								pos: position{line: 2877, col: 10, offset: 91032},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2876, col: 10, offset: 91005},
+									pos:        position{line: 2877, col: 10, offset: 91032},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18932,28 +19150,28 @@ var g = &grammar{
 		},
 		{
 			name: "InlineButton",
-			pos:  position{line: 1268, col: 1, offset: 39333},
+			pos:  position{line: 1269, col: 1, offset: 39360},
 			expr: &actionExpr{
-				pos: position{line: 1269, col: 5, offset: 39354},
+				pos: position{line: 1270, col: 5, offset: 39381},
 				run: (*parser).callonInlineButton1,
 				expr: &seqExpr{
-					pos: position{line: 1269, col: 5, offset: 39354},
+					pos: position{line: 1270, col: 5, offset: 39381},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1269, col: 5, offset: 39354},
+							pos: position{line: 1270, col: 5, offset: 39381},
 							run: (*parser).callonInlineButton3,
 						},
 						&litMatcher{
-							pos:        position{line: 1272, col: 5, offset: 39413},
+							pos:        position{line: 1273, col: 5, offset: 39440},
 							val:        "btn:",
 							ignoreCase: false,
 							want:       "\"btn:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1272, col: 12, offset: 39420},
+							pos:   position{line: 1273, col: 12, offset: 39447},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1272, col: 24, offset: 39432},
+								pos:  position{line: 1273, col: 24, offset: 39459},
 								name: "InlineAttributes",
 							},
 						},
@@ -18963,33 +19181,33 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMenu",
-			pos:  position{line: 1279, col: 1, offset: 39720},
+			pos:  position{line: 1280, col: 1, offset: 39747},
 			expr: &actionExpr{
-				pos: position{line: 1280, col: 5, offset: 39739},
+				pos: position{line: 1281, col: 5, offset: 39766},
 				run: (*parser).callonInlineMenu1,
 				expr: &seqExpr{
-					pos: position{line: 1280, col: 5, offset: 39739},
+					pos: position{line: 1281, col: 5, offset: 39766},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1280, col: 5, offset: 39739},
+							pos: position{line: 1281, col: 5, offset: 39766},
 							run: (*parser).callonInlineMenu3,
 						},
 						&litMatcher{
-							pos:        position{line: 1283, col: 5, offset: 39798},
+							pos:        position{line: 1284, col: 5, offset: 39825},
 							val:        "menu:",
 							ignoreCase: false,
 							want:       "\"menu:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1283, col: 13, offset: 39806},
+							pos:   position{line: 1284, col: 13, offset: 39833},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2861, col: 7, offset: 90657},
+								pos: position{line: 2862, col: 7, offset: 90684},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2861, col: 7, offset: 90657},
+									pos: position{line: 2862, col: 7, offset: 90684},
 									expr: &charClassMatcher{
-										pos:        position{line: 2861, col: 7, offset: 90657},
+										pos:        position{line: 2862, col: 7, offset: 90684},
 										val:        "[^[]<>,\\r\\n]",
 										chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 										ignoreCase: false,
@@ -18999,10 +19217,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1283, col: 21, offset: 39814},
+							pos:   position{line: 1284, col: 21, offset: 39841},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1283, col: 33, offset: 39826},
+								pos:  position{line: 1284, col: 33, offset: 39853},
 								name: "InlineAttributes",
 							},
 						},
@@ -19012,29 +19230,29 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTerm",
-			pos:  position{line: 1290, col: 1, offset: 40125},
+			pos:  position{line: 1291, col: 1, offset: 40152},
 			expr: &actionExpr{
-				pos: position{line: 1290, col: 14, offset: 40138},
+				pos: position{line: 1291, col: 14, offset: 40165},
 				run: (*parser).callonIndexTerm1,
 				expr: &seqExpr{
-					pos: position{line: 1290, col: 14, offset: 40138},
+					pos: position{line: 1291, col: 14, offset: 40165},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1290, col: 14, offset: 40138},
+							pos:        position{line: 1291, col: 14, offset: 40165},
 							val:        "((",
 							ignoreCase: false,
 							want:       "\"((\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1290, col: 19, offset: 40143},
+							pos:   position{line: 1291, col: 19, offset: 40170},
 							label: "term",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1290, col: 25, offset: 40149},
+								pos:  position{line: 1291, col: 25, offset: 40176},
 								name: "IndexTermContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1290, col: 43, offset: 40167},
+							pos:        position{line: 1291, col: 43, offset: 40194},
 							val:        "))",
 							ignoreCase: false,
 							want:       "\"))\"",
@@ -19045,25 +19263,25 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTermContent",
-			pos:  position{line: 1294, col: 1, offset: 40236},
+			pos:  position{line: 1295, col: 1, offset: 40263},
 			expr: &actionExpr{
-				pos: position{line: 1294, col: 21, offset: 40256},
+				pos: position{line: 1295, col: 21, offset: 40283},
 				run: (*parser).callonIndexTermContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 1294, col: 21, offset: 40256},
+					pos:   position{line: 1295, col: 21, offset: 40283},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 1294, col: 30, offset: 40265},
+						pos: position{line: 1295, col: 30, offset: 40292},
 						expr: &choiceExpr{
-							pos: position{line: 1294, col: 31, offset: 40266},
+							pos: position{line: 1295, col: 31, offset: 40293},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2770, col: 14, offset: 88153},
+									pos: position{line: 2771, col: 14, offset: 88180},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2770, col: 14, offset: 88153},
+										pos: position{line: 2771, col: 14, offset: 88180},
 										expr: &charClassMatcher{
-											pos:        position{line: 2770, col: 14, offset: 88153},
+											pos:        position{line: 2771, col: 14, offset: 88180},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -19072,14 +19290,14 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 1294, col: 43, offset: 40278},
+									pos:  position{line: 1295, col: 43, offset: 40305},
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2876, col: 10, offset: 91005},
+									pos: position{line: 2877, col: 10, offset: 91032},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2876, col: 10, offset: 91005},
+										pos:        position{line: 2877, col: 10, offset: 91032},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -19087,23 +19305,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2470, col: 5, offset: 79437},
+									pos: position{line: 2471, col: 5, offset: 79464},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2470, col: 5, offset: 79437},
+										pos: position{line: 2471, col: 5, offset: 79464},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2470, col: 5, offset: 79437},
+												pos: position{line: 2471, col: 5, offset: 79464},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2473, col: 5, offset: 79513},
+												pos:   position{line: 2474, col: 5, offset: 79540},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2474, col: 9, offset: 79531},
+													pos: position{line: 2475, col: 9, offset: 79558},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2474, col: 10, offset: 79532},
+														pos:        position{line: 2475, col: 10, offset: 79559},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -19115,27 +19333,27 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1197, col: 23, offset: 36986},
+									pos: position{line: 1198, col: 23, offset: 37013},
 									run: (*parser).callonIndexTermContent17,
 									expr: &seqExpr{
-										pos: position{line: 1197, col: 23, offset: 36986},
+										pos: position{line: 1198, col: 23, offset: 37013},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 1195, col: 32, offset: 36954},
+												pos:        position{line: 1196, col: 32, offset: 36981},
 												val:        "�",
 												ignoreCase: false,
 												want:       "\"�\"",
 											},
 											&labeledExpr{
-												pos:   position{line: 1197, col: 51, offset: 37014},
+												pos:   position{line: 1198, col: 51, offset: 37041},
 												label: "ref",
 												expr: &actionExpr{
-													pos: position{line: 1197, col: 56, offset: 37019},
+													pos: position{line: 1198, col: 56, offset: 37046},
 													run: (*parser).callonIndexTermContent21,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1197, col: 56, offset: 37019},
+														pos: position{line: 1198, col: 56, offset: 37046},
 														expr: &charClassMatcher{
-															pos:        position{line: 1197, col: 56, offset: 37019},
+															pos:        position{line: 1198, col: 56, offset: 37046},
 															val:        "[0-9]",
 															ranges:     []rune{'0', '9'},
 															ignoreCase: false,
@@ -19145,35 +19363,35 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 1195, col: 32, offset: 36954},
+												pos:        position{line: 1196, col: 32, offset: 36981},
 												val:        "�",
 												ignoreCase: false,
 												want:       "\"�\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 1198, col: 5, offset: 37091},
+												pos: position{line: 1199, col: 5, offset: 37118},
 												run: (*parser).callonIndexTermContent25,
 											},
 										},
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1294, col: 104, offset: 40339},
+									pos: position{line: 1295, col: 104, offset: 40366},
 									run: (*parser).callonIndexTermContent26,
 									expr: &seqExpr{
-										pos: position{line: 1294, col: 105, offset: 40340},
+										pos: position{line: 1295, col: 105, offset: 40367},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1294, col: 105, offset: 40340},
+												pos: position{line: 1295, col: 105, offset: 40367},
 												expr: &litMatcher{
-													pos:        position{line: 1294, col: 106, offset: 40341},
+													pos:        position{line: 1295, col: 106, offset: 40368},
 													val:        "))",
 													ignoreCase: false,
 													want:       "\"))\"",
 												},
 											},
 											&anyMatcher{
-												line: 1294, col: 111, offset: 40346,
+												line: 1295, col: 111, offset: 40373,
 											},
 										},
 									},
@@ -19186,21 +19404,21 @@ var g = &grammar{
 		},
 		{
 			name: "ImageBlock",
-			pos:  position{line: 1314, col: 1, offset: 41055},
+			pos:  position{line: 1315, col: 1, offset: 41082},
 			expr: &actionExpr{
-				pos: position{line: 1315, col: 5, offset: 41074},
+				pos: position{line: 1316, col: 5, offset: 41101},
 				run: (*parser).callonImageBlock1,
 				expr: &seqExpr{
-					pos: position{line: 1315, col: 5, offset: 41074},
+					pos: position{line: 1316, col: 5, offset: 41101},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1315, col: 5, offset: 41074},
+							pos:   position{line: 1316, col: 5, offset: 41101},
 							label: "start",
 							expr: &actionExpr{
-								pos: position{line: 2901, col: 16, offset: 91527},
+								pos: position{line: 2902, col: 16, offset: 91554},
 								run: (*parser).callonImageBlock4,
 								expr: &litMatcher{
-									pos:        position{line: 2901, col: 16, offset: 91527},
+									pos:        position{line: 2902, col: 16, offset: 91554},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -19208,57 +19426,57 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1315, col: 25, offset: 41094},
+							pos:        position{line: 1316, col: 25, offset: 41121},
 							val:        "image::",
 							ignoreCase: false,
 							want:       "\"image::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1315, col: 35, offset: 41104},
+							pos:   position{line: 1316, col: 35, offset: 41131},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2834, col: 13, offset: 89764},
+								pos: position{line: 2835, col: 13, offset: 89791},
 								run: (*parser).callonImageBlock8,
 								expr: &seqExpr{
-									pos: position{line: 2834, col: 13, offset: 89764},
+									pos: position{line: 2835, col: 13, offset: 89791},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2834, col: 13, offset: 89764},
+											pos:   position{line: 2835, col: 13, offset: 89791},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2834, col: 20, offset: 89771},
+												pos: position{line: 2835, col: 20, offset: 89798},
 												expr: &actionExpr{
-													pos: position{line: 2842, col: 11, offset: 90010},
+													pos: position{line: 2843, col: 11, offset: 90037},
 													run: (*parser).callonImageBlock12,
 													expr: &choiceExpr{
-														pos: position{line: 2842, col: 12, offset: 90011},
+														pos: position{line: 2843, col: 12, offset: 90038},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2842, col: 12, offset: 90011},
+																pos:        position{line: 2843, col: 12, offset: 90038},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2842, col: 24, offset: 90023},
+																pos:        position{line: 2843, col: 24, offset: 90050},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2842, col: 37, offset: 90036},
+																pos:        position{line: 2843, col: 37, offset: 90063},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2842, col: 48, offset: 90047},
+																pos:        position{line: 2843, col: 48, offset: 90074},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2842, col: 59, offset: 90058},
+																pos:        position{line: 2843, col: 59, offset: 90085},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19269,38 +19487,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2834, col: 30, offset: 89781},
+											pos:   position{line: 2835, col: 30, offset: 89808},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2847, col: 5, offset: 90122},
+												pos: position{line: 2848, col: 5, offset: 90149},
 												run: (*parser).callonImageBlock20,
 												expr: &labeledExpr{
-													pos:   position{line: 2847, col: 5, offset: 90122},
+													pos:   position{line: 2848, col: 5, offset: 90149},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2847, col: 14, offset: 90131},
+														pos: position{line: 2848, col: 14, offset: 90158},
 														expr: &choiceExpr{
-															pos: position{line: 2848, col: 9, offset: 90141},
+															pos: position{line: 2849, col: 9, offset: 90168},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2848, col: 9, offset: 90141},
+																	pos: position{line: 2849, col: 9, offset: 90168},
 																	run: (*parser).callonImageBlock24,
 																	expr: &seqExpr{
-																		pos: position{line: 2848, col: 9, offset: 90141},
+																		pos: position{line: 2849, col: 9, offset: 90168},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2848, col: 9, offset: 90141},
+																				pos: position{line: 2849, col: 9, offset: 90168},
 																				expr: &litMatcher{
-																					pos:        position{line: 2848, col: 10, offset: 90142},
+																					pos:        position{line: 2849, col: 10, offset: 90169},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2849, col: 9, offset: 90170},
+																				pos: position{line: 2850, col: 9, offset: 90197},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2849, col: 10, offset: 90171},
+																					pos:        position{line: 2850, col: 10, offset: 90198},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19311,27 +19529,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2852, col: 11, offset: 90383},
+																	pos: position{line: 2853, col: 11, offset: 90410},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2852, col: 11, offset: 90383},
+																			pos:        position{line: 2853, col: 11, offset: 90410},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2852, col: 19, offset: 90391},
+																			pos: position{line: 2853, col: 19, offset: 90418},
 																			expr: &seqExpr{
-																				pos: position{line: 2852, col: 21, offset: 90393},
+																				pos: position{line: 2853, col: 21, offset: 90420},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2852, col: 21, offset: 90393},
+																						pos: position{line: 2853, col: 21, offset: 90420},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 91005},
+																							pos: position{line: 2877, col: 10, offset: 91032},
 																							run: (*parser).callonImageBlock35,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 91005},
+																								pos:        position{line: 2877, col: 10, offset: 91032},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19340,11 +19558,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2852, col: 28, offset: 90400},
+																						pos: position{line: 2853, col: 28, offset: 90427},
 																						expr: &notExpr{
-																							pos: position{line: 2895, col: 8, offset: 91353},
+																							pos: position{line: 2896, col: 8, offset: 91380},
 																							expr: &anyMatcher{
-																								line: 2895, col: 9, offset: 91354,
+																								line: 2896, col: 9, offset: 91381,
 																							},
 																						},
 																					},
@@ -19354,35 +19572,35 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 635, col: 5, offset: 20116},
+																	pos: position{line: 636, col: 5, offset: 20143},
 																	run: (*parser).callonImageBlock40,
 																	expr: &seqExpr{
-																		pos: position{line: 635, col: 5, offset: 20116},
+																		pos: position{line: 636, col: 5, offset: 20143},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 635, col: 5, offset: 20116},
+																				pos: position{line: 636, col: 5, offset: 20143},
 																				run: (*parser).callonImageBlock42,
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 638, col: 5, offset: 20188},
+																				pos:   position{line: 639, col: 5, offset: 20215},
 																				label: "element",
 																				expr: &choiceExpr{
-																					pos: position{line: 638, col: 14, offset: 20197},
+																					pos: position{line: 639, col: 14, offset: 20224},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 644, col: 5, offset: 20326},
+																							pos: position{line: 645, col: 5, offset: 20353},
 																							run: (*parser).callonImageBlock45,
 																							expr: &seqExpr{
-																								pos: position{line: 644, col: 5, offset: 20326},
+																								pos: position{line: 645, col: 5, offset: 20353},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 644, col: 5, offset: 20326},
+																										pos:        position{line: 645, col: 5, offset: 20353},
 																										val:        "\\{",
 																										ignoreCase: false,
 																										want:       "\"\\\\{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 644, col: 13, offset: 20334},
+																										pos:   position{line: 645, col: 13, offset: 20361},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 317, col: 18, offset: 9667},
@@ -19414,7 +19632,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 644, col: 32, offset: 20353},
+																										pos:        position{line: 645, col: 32, offset: 20380},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -19423,19 +19641,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 651, col: 5, offset: 20594},
+																							pos: position{line: 652, col: 5, offset: 20621},
 																							run: (*parser).callonImageBlock55,
 																							expr: &seqExpr{
-																								pos: position{line: 651, col: 5, offset: 20594},
+																								pos: position{line: 652, col: 5, offset: 20621},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 651, col: 5, offset: 20594},
+																										pos:        position{line: 652, col: 5, offset: 20621},
 																										val:        "{",
 																										ignoreCase: false,
 																										want:       "\"{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 651, col: 9, offset: 20598},
+																										pos:   position{line: 652, col: 9, offset: 20625},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 317, col: 18, offset: 9667},
@@ -19467,7 +19685,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 651, col: 28, offset: 20617},
+																										pos:        position{line: 652, col: 28, offset: 20644},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -19476,19 +19694,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 657, col: 25, offset: 20798},
+																							pos: position{line: 658, col: 25, offset: 20825},
 																							run: (*parser).callonImageBlock65,
 																							expr: &seqExpr{
-																								pos: position{line: 657, col: 25, offset: 20798},
+																								pos: position{line: 658, col: 25, offset: 20825},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 657, col: 25, offset: 20798},
+																										pos:        position{line: 658, col: 25, offset: 20825},
 																										val:        "{counter:",
 																										ignoreCase: false,
 																										want:       "\"{counter:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 657, col: 37, offset: 20810},
+																										pos:   position{line: 658, col: 37, offset: 20837},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 317, col: 18, offset: 9667},
@@ -19520,33 +19738,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 657, col: 56, offset: 20829},
+																										pos:   position{line: 658, col: 56, offset: 20856},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 657, col: 62, offset: 20835},
+																											pos: position{line: 658, col: 62, offset: 20862},
 																											expr: &actionExpr{
-																												pos: position{line: 665, col: 17, offset: 21132},
+																												pos: position{line: 666, col: 17, offset: 21159},
 																												run: (*parser).callonImageBlock76,
 																												expr: &seqExpr{
-																													pos: position{line: 665, col: 17, offset: 21132},
+																													pos: position{line: 666, col: 17, offset: 21159},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 665, col: 17, offset: 21132},
+																															pos:        position{line: 666, col: 17, offset: 21159},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 665, col: 21, offset: 21136},
+																															pos:   position{line: 666, col: 21, offset: 21163},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 665, col: 28, offset: 21143},
+																																pos: position{line: 666, col: 28, offset: 21170},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 665, col: 28, offset: 21143},
+																																		pos: position{line: 666, col: 28, offset: 21170},
 																																		run: (*parser).callonImageBlock81,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 665, col: 28, offset: 21143},
+																																			pos:        position{line: 666, col: 28, offset: 21170},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -19554,12 +19772,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 667, col: 9, offset: 21197},
+																																		pos: position{line: 668, col: 9, offset: 21224},
 																																		run: (*parser).callonImageBlock83,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 667, col: 9, offset: 21197},
+																																			pos: position{line: 668, col: 9, offset: 21224},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 667, col: 9, offset: 21197},
+																																				pos:        position{line: 668, col: 9, offset: 21224},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -19576,7 +19794,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 657, col: 78, offset: 20851},
+																										pos:        position{line: 658, col: 78, offset: 20878},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -19585,19 +19803,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 661, col: 25, offset: 20969},
+																							pos: position{line: 662, col: 25, offset: 20996},
 																							run: (*parser).callonImageBlock87,
 																							expr: &seqExpr{
-																								pos: position{line: 661, col: 25, offset: 20969},
+																								pos: position{line: 662, col: 25, offset: 20996},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 661, col: 25, offset: 20969},
+																										pos:        position{line: 662, col: 25, offset: 20996},
 																										val:        "{counter2:",
 																										ignoreCase: false,
 																										want:       "\"{counter2:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 661, col: 38, offset: 20982},
+																										pos:   position{line: 662, col: 38, offset: 21009},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 317, col: 18, offset: 9667},
@@ -19629,33 +19847,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 661, col: 57, offset: 21001},
+																										pos:   position{line: 662, col: 57, offset: 21028},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 661, col: 63, offset: 21007},
+																											pos: position{line: 662, col: 63, offset: 21034},
 																											expr: &actionExpr{
-																												pos: position{line: 665, col: 17, offset: 21132},
+																												pos: position{line: 666, col: 17, offset: 21159},
 																												run: (*parser).callonImageBlock98,
 																												expr: &seqExpr{
-																													pos: position{line: 665, col: 17, offset: 21132},
+																													pos: position{line: 666, col: 17, offset: 21159},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 665, col: 17, offset: 21132},
+																															pos:        position{line: 666, col: 17, offset: 21159},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 665, col: 21, offset: 21136},
+																															pos:   position{line: 666, col: 21, offset: 21163},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 665, col: 28, offset: 21143},
+																																pos: position{line: 666, col: 28, offset: 21170},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 665, col: 28, offset: 21143},
+																																		pos: position{line: 666, col: 28, offset: 21170},
 																																		run: (*parser).callonImageBlock103,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 665, col: 28, offset: 21143},
+																																			pos:        position{line: 666, col: 28, offset: 21170},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -19663,12 +19881,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 667, col: 9, offset: 21197},
+																																		pos: position{line: 668, col: 9, offset: 21224},
 																																		run: (*parser).callonImageBlock105,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 667, col: 9, offset: 21197},
+																																			pos: position{line: 668, col: 9, offset: 21224},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 667, col: 9, offset: 21197},
+																																				pos:        position{line: 668, col: 9, offset: 21224},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -19685,7 +19903,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 661, col: 79, offset: 21023},
+																										pos:        position{line: 662, col: 79, offset: 21050},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -19700,27 +19918,27 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1197, col: 23, offset: 36986},
+																	pos: position{line: 1198, col: 23, offset: 37013},
 																	run: (*parser).callonImageBlock109,
 																	expr: &seqExpr{
-																		pos: position{line: 1197, col: 23, offset: 36986},
+																		pos: position{line: 1198, col: 23, offset: 37013},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1195, col: 32, offset: 36954},
+																				pos:        position{line: 1196, col: 32, offset: 36981},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1197, col: 51, offset: 37014},
+																				pos:   position{line: 1198, col: 51, offset: 37041},
 																				label: "ref",
 																				expr: &actionExpr{
-																					pos: position{line: 1197, col: 56, offset: 37019},
+																					pos: position{line: 1198, col: 56, offset: 37046},
 																					run: (*parser).callonImageBlock113,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1197, col: 56, offset: 37019},
+																						pos: position{line: 1198, col: 56, offset: 37046},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 1197, col: 56, offset: 37019},
+																							pos:        position{line: 1198, col: 56, offset: 37046},
 																							val:        "[0-9]",
 																							ranges:     []rune{'0', '9'},
 																							ignoreCase: false,
@@ -19730,23 +19948,23 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1195, col: 32, offset: 36954},
+																				pos:        position{line: 1196, col: 32, offset: 36981},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1198, col: 5, offset: 37091},
+																				pos: position{line: 1199, col: 5, offset: 37118},
 																				run: (*parser).callonImageBlock117,
 																			},
 																		},
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2855, col: 11, offset: 90520},
+																	pos: position{line: 2856, col: 11, offset: 90547},
 																	run: (*parser).callonImageBlock118,
 																	expr: &litMatcher{
-																		pos:        position{line: 2855, col: 11, offset: 90520},
+																		pos:        position{line: 2856, col: 11, offset: 90547},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -19763,20 +19981,20 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1315, col: 51, offset: 41120},
+							pos:   position{line: 1316, col: 51, offset: 41147},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1315, col: 63, offset: 41132},
+								pos:  position{line: 1316, col: 63, offset: 41159},
 								name: "InlineAttributes",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1315, col: 81, offset: 41150},
+							pos: position{line: 1316, col: 81, offset: 41177},
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 10, offset: 91005},
+								pos: position{line: 2877, col: 10, offset: 91032},
 								run: (*parser).callonImageBlock123,
 								expr: &charClassMatcher{
-									pos:        position{line: 2876, col: 10, offset: 91005},
+									pos:        position{line: 2877, col: 10, offset: 91032},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19785,13 +20003,13 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1315, col: 88, offset: 41157},
+							pos:   position{line: 1316, col: 88, offset: 41184},
 							label: "end",
 							expr: &actionExpr{
-								pos: position{line: 2901, col: 16, offset: 91527},
+								pos: position{line: 2902, col: 16, offset: 91554},
 								run: (*parser).callonImageBlock126,
 								expr: &litMatcher{
-									pos:        position{line: 2901, col: 16, offset: 91527},
+									pos:        position{line: 2902, col: 16, offset: 91554},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -19799,32 +20017,32 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1315, col: 106, offset: 41175},
+							pos: position{line: 1316, col: 106, offset: 41202},
 							run: (*parser).callonImageBlock128,
 						},
 						&choiceExpr{
-							pos: position{line: 2898, col: 8, offset: 91403},
+							pos: position{line: 2899, col: 8, offset: 91430},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2885, col: 12, offset: 91176},
+									pos: position{line: 2886, col: 12, offset: 91203},
 									run: (*parser).callonImageBlock130,
 									expr: &choiceExpr{
-										pos: position{line: 2885, col: 13, offset: 91177},
+										pos: position{line: 2886, col: 13, offset: 91204},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2885, col: 13, offset: 91177},
+												pos:        position{line: 2886, col: 13, offset: 91204},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 20, offset: 91184},
+												pos:        position{line: 2886, col: 20, offset: 91211},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 29, offset: 91193},
+												pos:        position{line: 2886, col: 29, offset: 91220},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19833,9 +20051,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2895, col: 8, offset: 91353},
+									pos: position{line: 2896, col: 8, offset: 91380},
 									expr: &anyMatcher{
-										line: 2895, col: 9, offset: 91354,
+										line: 2896, col: 9, offset: 91381,
 									},
 								},
 							},
@@ -19846,74 +20064,74 @@ var g = &grammar{
 		},
 		{
 			name: "InlineImage",
-			pos:  position{line: 1320, col: 1, offset: 41415},
+			pos:  position{line: 1321, col: 1, offset: 41442},
 			expr: &actionExpr{
-				pos: position{line: 1320, col: 16, offset: 41430},
+				pos: position{line: 1321, col: 16, offset: 41457},
 				run: (*parser).callonInlineImage1,
 				expr: &seqExpr{
-					pos: position{line: 1320, col: 16, offset: 41430},
+					pos: position{line: 1321, col: 16, offset: 41457},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1320, col: 16, offset: 41430},
+							pos:        position{line: 1321, col: 16, offset: 41457},
 							val:        "image:",
 							ignoreCase: false,
 							want:       "\"image:\"",
 						},
 						&notExpr{
-							pos: position{line: 1320, col: 25, offset: 41439},
+							pos: position{line: 1321, col: 25, offset: 41466},
 							expr: &litMatcher{
-								pos:        position{line: 1320, col: 26, offset: 41440},
+								pos:        position{line: 1321, col: 26, offset: 41467},
 								val:        ":",
 								ignoreCase: false,
 								want:       "\":\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1320, col: 30, offset: 41444},
+							pos:   position{line: 1321, col: 30, offset: 41471},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2834, col: 13, offset: 89764},
+								pos: position{line: 2835, col: 13, offset: 89791},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2834, col: 13, offset: 89764},
+									pos: position{line: 2835, col: 13, offset: 89791},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2834, col: 13, offset: 89764},
+											pos:   position{line: 2835, col: 13, offset: 89791},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2834, col: 20, offset: 89771},
+												pos: position{line: 2835, col: 20, offset: 89798},
 												expr: &actionExpr{
-													pos: position{line: 2842, col: 11, offset: 90010},
+													pos: position{line: 2843, col: 11, offset: 90037},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2842, col: 12, offset: 90011},
+														pos: position{line: 2843, col: 12, offset: 90038},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2842, col: 12, offset: 90011},
+																pos:        position{line: 2843, col: 12, offset: 90038},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2842, col: 24, offset: 90023},
+																pos:        position{line: 2843, col: 24, offset: 90050},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2842, col: 37, offset: 90036},
+																pos:        position{line: 2843, col: 37, offset: 90063},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2842, col: 48, offset: 90047},
+																pos:        position{line: 2843, col: 48, offset: 90074},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2842, col: 59, offset: 90058},
+																pos:        position{line: 2843, col: 59, offset: 90085},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19924,38 +20142,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2834, col: 30, offset: 89781},
+											pos:   position{line: 2835, col: 30, offset: 89808},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2847, col: 5, offset: 90122},
+												pos: position{line: 2848, col: 5, offset: 90149},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2847, col: 5, offset: 90122},
+													pos:   position{line: 2848, col: 5, offset: 90149},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2847, col: 14, offset: 90131},
+														pos: position{line: 2848, col: 14, offset: 90158},
 														expr: &choiceExpr{
-															pos: position{line: 2848, col: 9, offset: 90141},
+															pos: position{line: 2849, col: 9, offset: 90168},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2848, col: 9, offset: 90141},
+																	pos: position{line: 2849, col: 9, offset: 90168},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2848, col: 9, offset: 90141},
+																		pos: position{line: 2849, col: 9, offset: 90168},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2848, col: 9, offset: 90141},
+																				pos: position{line: 2849, col: 9, offset: 90168},
 																				expr: &litMatcher{
-																					pos:        position{line: 2848, col: 10, offset: 90142},
+																					pos:        position{line: 2849, col: 10, offset: 90169},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2849, col: 9, offset: 90170},
+																				pos: position{line: 2850, col: 9, offset: 90197},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2849, col: 10, offset: 90171},
+																					pos:        position{line: 2850, col: 10, offset: 90198},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19966,27 +20184,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2852, col: 11, offset: 90383},
+																	pos: position{line: 2853, col: 11, offset: 90410},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2852, col: 11, offset: 90383},
+																			pos:        position{line: 2853, col: 11, offset: 90410},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2852, col: 19, offset: 90391},
+																			pos: position{line: 2853, col: 19, offset: 90418},
 																			expr: &seqExpr{
-																				pos: position{line: 2852, col: 21, offset: 90393},
+																				pos: position{line: 2853, col: 21, offset: 90420},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2852, col: 21, offset: 90393},
+																						pos: position{line: 2853, col: 21, offset: 90420},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 91005},
+																							pos: position{line: 2877, col: 10, offset: 91032},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 91005},
+																								pos:        position{line: 2877, col: 10, offset: 91032},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19995,11 +20213,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2852, col: 28, offset: 90400},
+																						pos: position{line: 2853, col: 28, offset: 90427},
 																						expr: &notExpr{
-																							pos: position{line: 2895, col: 8, offset: 91353},
+																							pos: position{line: 2896, col: 8, offset: 91380},
 																							expr: &anyMatcher{
-																								line: 2895, col: 9, offset: 91354,
+																								line: 2896, col: 9, offset: 91381,
 																							},
 																						},
 																					},
@@ -20009,35 +20227,35 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 635, col: 5, offset: 20116},
+																	pos: position{line: 636, col: 5, offset: 20143},
 																	run: (*parser).callonInlineImage39,
 																	expr: &seqExpr{
-																		pos: position{line: 635, col: 5, offset: 20116},
+																		pos: position{line: 636, col: 5, offset: 20143},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 635, col: 5, offset: 20116},
+																				pos: position{line: 636, col: 5, offset: 20143},
 																				run: (*parser).callonInlineImage41,
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 638, col: 5, offset: 20188},
+																				pos:   position{line: 639, col: 5, offset: 20215},
 																				label: "element",
 																				expr: &choiceExpr{
-																					pos: position{line: 638, col: 14, offset: 20197},
+																					pos: position{line: 639, col: 14, offset: 20224},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 644, col: 5, offset: 20326},
+																							pos: position{line: 645, col: 5, offset: 20353},
 																							run: (*parser).callonInlineImage44,
 																							expr: &seqExpr{
-																								pos: position{line: 644, col: 5, offset: 20326},
+																								pos: position{line: 645, col: 5, offset: 20353},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 644, col: 5, offset: 20326},
+																										pos:        position{line: 645, col: 5, offset: 20353},
 																										val:        "\\{",
 																										ignoreCase: false,
 																										want:       "\"\\\\{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 644, col: 13, offset: 20334},
+																										pos:   position{line: 645, col: 13, offset: 20361},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 317, col: 18, offset: 9667},
@@ -20069,7 +20287,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 644, col: 32, offset: 20353},
+																										pos:        position{line: 645, col: 32, offset: 20380},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20078,19 +20296,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 651, col: 5, offset: 20594},
+																							pos: position{line: 652, col: 5, offset: 20621},
 																							run: (*parser).callonInlineImage54,
 																							expr: &seqExpr{
-																								pos: position{line: 651, col: 5, offset: 20594},
+																								pos: position{line: 652, col: 5, offset: 20621},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 651, col: 5, offset: 20594},
+																										pos:        position{line: 652, col: 5, offset: 20621},
 																										val:        "{",
 																										ignoreCase: false,
 																										want:       "\"{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 651, col: 9, offset: 20598},
+																										pos:   position{line: 652, col: 9, offset: 20625},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 317, col: 18, offset: 9667},
@@ -20122,7 +20340,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 651, col: 28, offset: 20617},
+																										pos:        position{line: 652, col: 28, offset: 20644},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20131,19 +20349,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 657, col: 25, offset: 20798},
+																							pos: position{line: 658, col: 25, offset: 20825},
 																							run: (*parser).callonInlineImage64,
 																							expr: &seqExpr{
-																								pos: position{line: 657, col: 25, offset: 20798},
+																								pos: position{line: 658, col: 25, offset: 20825},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 657, col: 25, offset: 20798},
+																										pos:        position{line: 658, col: 25, offset: 20825},
 																										val:        "{counter:",
 																										ignoreCase: false,
 																										want:       "\"{counter:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 657, col: 37, offset: 20810},
+																										pos:   position{line: 658, col: 37, offset: 20837},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 317, col: 18, offset: 9667},
@@ -20175,33 +20393,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 657, col: 56, offset: 20829},
+																										pos:   position{line: 658, col: 56, offset: 20856},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 657, col: 62, offset: 20835},
+																											pos: position{line: 658, col: 62, offset: 20862},
 																											expr: &actionExpr{
-																												pos: position{line: 665, col: 17, offset: 21132},
+																												pos: position{line: 666, col: 17, offset: 21159},
 																												run: (*parser).callonInlineImage75,
 																												expr: &seqExpr{
-																													pos: position{line: 665, col: 17, offset: 21132},
+																													pos: position{line: 666, col: 17, offset: 21159},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 665, col: 17, offset: 21132},
+																															pos:        position{line: 666, col: 17, offset: 21159},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 665, col: 21, offset: 21136},
+																															pos:   position{line: 666, col: 21, offset: 21163},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 665, col: 28, offset: 21143},
+																																pos: position{line: 666, col: 28, offset: 21170},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 665, col: 28, offset: 21143},
+																																		pos: position{line: 666, col: 28, offset: 21170},
 																																		run: (*parser).callonInlineImage80,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 665, col: 28, offset: 21143},
+																																			pos:        position{line: 666, col: 28, offset: 21170},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -20209,12 +20427,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 667, col: 9, offset: 21197},
+																																		pos: position{line: 668, col: 9, offset: 21224},
 																																		run: (*parser).callonInlineImage82,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 667, col: 9, offset: 21197},
+																																			pos: position{line: 668, col: 9, offset: 21224},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 667, col: 9, offset: 21197},
+																																				pos:        position{line: 668, col: 9, offset: 21224},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20231,7 +20449,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 657, col: 78, offset: 20851},
+																										pos:        position{line: 658, col: 78, offset: 20878},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20240,19 +20458,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 661, col: 25, offset: 20969},
+																							pos: position{line: 662, col: 25, offset: 20996},
 																							run: (*parser).callonInlineImage86,
 																							expr: &seqExpr{
-																								pos: position{line: 661, col: 25, offset: 20969},
+																								pos: position{line: 662, col: 25, offset: 20996},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 661, col: 25, offset: 20969},
+																										pos:        position{line: 662, col: 25, offset: 20996},
 																										val:        "{counter2:",
 																										ignoreCase: false,
 																										want:       "\"{counter2:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 661, col: 38, offset: 20982},
+																										pos:   position{line: 662, col: 38, offset: 21009},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 317, col: 18, offset: 9667},
@@ -20284,33 +20502,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 661, col: 57, offset: 21001},
+																										pos:   position{line: 662, col: 57, offset: 21028},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 661, col: 63, offset: 21007},
+																											pos: position{line: 662, col: 63, offset: 21034},
 																											expr: &actionExpr{
-																												pos: position{line: 665, col: 17, offset: 21132},
+																												pos: position{line: 666, col: 17, offset: 21159},
 																												run: (*parser).callonInlineImage97,
 																												expr: &seqExpr{
-																													pos: position{line: 665, col: 17, offset: 21132},
+																													pos: position{line: 666, col: 17, offset: 21159},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 665, col: 17, offset: 21132},
+																															pos:        position{line: 666, col: 17, offset: 21159},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 665, col: 21, offset: 21136},
+																															pos:   position{line: 666, col: 21, offset: 21163},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 665, col: 28, offset: 21143},
+																																pos: position{line: 666, col: 28, offset: 21170},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 665, col: 28, offset: 21143},
+																																		pos: position{line: 666, col: 28, offset: 21170},
 																																		run: (*parser).callonInlineImage102,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 665, col: 28, offset: 21143},
+																																			pos:        position{line: 666, col: 28, offset: 21170},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -20318,12 +20536,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 667, col: 9, offset: 21197},
+																																		pos: position{line: 668, col: 9, offset: 21224},
 																																		run: (*parser).callonInlineImage104,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 667, col: 9, offset: 21197},
+																																			pos: position{line: 668, col: 9, offset: 21224},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 667, col: 9, offset: 21197},
+																																				pos:        position{line: 668, col: 9, offset: 21224},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20340,7 +20558,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 661, col: 79, offset: 21023},
+																										pos:        position{line: 662, col: 79, offset: 21050},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20355,27 +20573,27 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1197, col: 23, offset: 36986},
+																	pos: position{line: 1198, col: 23, offset: 37013},
 																	run: (*parser).callonInlineImage108,
 																	expr: &seqExpr{
-																		pos: position{line: 1197, col: 23, offset: 36986},
+																		pos: position{line: 1198, col: 23, offset: 37013},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1195, col: 32, offset: 36954},
+																				pos:        position{line: 1196, col: 32, offset: 36981},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1197, col: 51, offset: 37014},
+																				pos:   position{line: 1198, col: 51, offset: 37041},
 																				label: "ref",
 																				expr: &actionExpr{
-																					pos: position{line: 1197, col: 56, offset: 37019},
+																					pos: position{line: 1198, col: 56, offset: 37046},
 																					run: (*parser).callonInlineImage112,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1197, col: 56, offset: 37019},
+																						pos: position{line: 1198, col: 56, offset: 37046},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 1197, col: 56, offset: 37019},
+																							pos:        position{line: 1198, col: 56, offset: 37046},
 																							val:        "[0-9]",
 																							ranges:     []rune{'0', '9'},
 																							ignoreCase: false,
@@ -20385,23 +20603,23 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1195, col: 32, offset: 36954},
+																				pos:        position{line: 1196, col: 32, offset: 36981},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1198, col: 5, offset: 37091},
+																				pos: position{line: 1199, col: 5, offset: 37118},
 																				run: (*parser).callonInlineImage116,
 																			},
 																		},
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2855, col: 11, offset: 90520},
+																	pos: position{line: 2856, col: 11, offset: 90547},
 																	run: (*parser).callonInlineImage117,
 																	expr: &litMatcher{
-																		pos:        position{line: 2855, col: 11, offset: 90520},
+																		pos:        position{line: 2856, col: 11, offset: 90547},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20418,10 +20636,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1320, col: 46, offset: 41460},
+							pos:   position{line: 1321, col: 46, offset: 41487},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1320, col: 58, offset: 41472},
+								pos:  position{line: 1321, col: 58, offset: 41499},
 								name: "InlineAttributes",
 							},
 						},
@@ -20431,29 +20649,29 @@ var g = &grammar{
 		},
 		{
 			name: "InlineIcon",
-			pos:  position{line: 1327, col: 1, offset: 41868},
+			pos:  position{line: 1328, col: 1, offset: 41895},
 			expr: &actionExpr{
-				pos: position{line: 1327, col: 15, offset: 41882},
+				pos: position{line: 1328, col: 15, offset: 41909},
 				run: (*parser).callonInlineIcon1,
 				expr: &seqExpr{
-					pos: position{line: 1327, col: 15, offset: 41882},
+					pos: position{line: 1328, col: 15, offset: 41909},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1327, col: 15, offset: 41882},
+							pos:        position{line: 1328, col: 15, offset: 41909},
 							val:        "icon:",
 							ignoreCase: false,
 							want:       "\"icon:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1327, col: 23, offset: 41890},
+							pos:   position{line: 1328, col: 23, offset: 41917},
 							label: "icon",
 							expr: &actionExpr{
-								pos: position{line: 1327, col: 29, offset: 41896},
+								pos: position{line: 1328, col: 29, offset: 41923},
 								run: (*parser).callonInlineIcon5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1327, col: 29, offset: 41896},
+									pos: position{line: 1328, col: 29, offset: 41923},
 									expr: &charClassMatcher{
-										pos:        position{line: 1327, col: 29, offset: 41896},
+										pos:        position{line: 1328, col: 29, offset: 41923},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20464,10 +20682,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1327, col: 73, offset: 41940},
+							pos:   position{line: 1328, col: 73, offset: 41967},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1327, col: 85, offset: 41952},
+								pos:  position{line: 1328, col: 85, offset: 41979},
 								name: "InlineAttributes",
 							},
 						},
@@ -20477,31 +20695,31 @@ var g = &grammar{
 		},
 		{
 			name: "InlineFootnote",
-			pos:  position{line: 1334, col: 1, offset: 42318},
+			pos:  position{line: 1335, col: 1, offset: 42345},
 			expr: &actionExpr{
-				pos: position{line: 1334, col: 19, offset: 42336},
+				pos: position{line: 1335, col: 19, offset: 42363},
 				run: (*parser).callonInlineFootnote1,
 				expr: &seqExpr{
-					pos: position{line: 1334, col: 19, offset: 42336},
+					pos: position{line: 1335, col: 19, offset: 42363},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1334, col: 19, offset: 42336},
+							pos:        position{line: 1335, col: 19, offset: 42363},
 							val:        "footnote:",
 							ignoreCase: false,
 							want:       "\"footnote:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1334, col: 31, offset: 42348},
+							pos:   position{line: 1335, col: 31, offset: 42375},
 							label: "ref",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1334, col: 35, offset: 42352},
+								pos: position{line: 1335, col: 35, offset: 42379},
 								expr: &actionExpr{
-									pos: position{line: 1338, col: 16, offset: 42512},
+									pos: position{line: 1339, col: 16, offset: 42539},
 									run: (*parser).callonInlineFootnote6,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1338, col: 16, offset: 42512},
+										pos: position{line: 1339, col: 16, offset: 42539},
 										expr: &charClassMatcher{
-											pos:        position{line: 1338, col: 16, offset: 42512},
+											pos:        position{line: 1339, col: 16, offset: 42539},
 											val:        "[_-\\pL\\pN]",
 											chars:      []rune{'_', '-'},
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20513,21 +20731,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1334, col: 50, offset: 42367},
+							pos:        position{line: 1335, col: 50, offset: 42394},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1334, col: 54, offset: 42371},
+							pos:   position{line: 1335, col: 54, offset: 42398},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1334, col: 64, offset: 42381},
+								pos:  position{line: 1335, col: 64, offset: 42408},
 								name: "FootnoteElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1334, col: 82, offset: 42399},
+							pos:        position{line: 1335, col: 82, offset: 42426},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -20538,17 +20756,17 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElements",
-			pos:  position{line: 1340, col: 1, offset: 42556},
+			pos:  position{line: 1341, col: 1, offset: 42583},
 			expr: &actionExpr{
-				pos: position{line: 1340, col: 21, offset: 42576},
+				pos: position{line: 1341, col: 21, offset: 42603},
 				run: (*parser).callonFootnoteElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1340, col: 21, offset: 42576},
+					pos:   position{line: 1341, col: 21, offset: 42603},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1340, col: 30, offset: 42585},
+						pos: position{line: 1341, col: 30, offset: 42612},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1340, col: 31, offset: 42586},
+							pos:  position{line: 1341, col: 31, offset: 42613},
 							name: "FootnoteElement",
 						},
 					},
@@ -20557,44 +20775,44 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElement",
-			pos:  position{line: 1344, col: 1, offset: 42678},
+			pos:  position{line: 1345, col: 1, offset: 42705},
 			expr: &actionExpr{
-				pos: position{line: 1345, col: 5, offset: 42702},
+				pos: position{line: 1346, col: 5, offset: 42729},
 				run: (*parser).callonFootnoteElement1,
 				expr: &seqExpr{
-					pos: position{line: 1345, col: 5, offset: 42702},
+					pos: position{line: 1346, col: 5, offset: 42729},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1345, col: 5, offset: 42702},
+							pos: position{line: 1346, col: 5, offset: 42729},
 							expr: &litMatcher{
-								pos:        position{line: 1345, col: 6, offset: 42703},
+								pos:        position{line: 1346, col: 6, offset: 42730},
 								val:        "]",
 								ignoreCase: false,
 								want:       "\"]\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1346, col: 5, offset: 42712},
+							pos:   position{line: 1347, col: 5, offset: 42739},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1347, col: 9, offset: 42730},
+								pos: position{line: 1348, col: 9, offset: 42757},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2775, col: 5, offset: 88226},
+										pos: position{line: 2776, col: 5, offset: 88253},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2775, col: 5, offset: 88226},
+											pos: position{line: 2776, col: 5, offset: 88253},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2775, col: 5, offset: 88226},
+													pos:   position{line: 2776, col: 5, offset: 88253},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2775, col: 11, offset: 88232},
+														pos: position{line: 2776, col: 11, offset: 88259},
 														run: (*parser).callonFootnoteElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2775, col: 11, offset: 88232},
+															pos: position{line: 2776, col: 11, offset: 88259},
 															expr: &charClassMatcher{
-																pos:        position{line: 2775, col: 11, offset: 88232},
+																pos:        position{line: 2776, col: 11, offset: 88259},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -20604,44 +20822,44 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2778, col: 5, offset: 88290},
+													pos: position{line: 2779, col: 5, offset: 88317},
 													expr: &seqExpr{
-														pos: position{line: 2779, col: 9, offset: 88301},
+														pos: position{line: 2780, col: 9, offset: 88328},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2779, col: 9, offset: 88301},
+																pos:        position{line: 2780, col: 9, offset: 88328},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2780, col: 9, offset: 88350},
+																pos: position{line: 2781, col: 9, offset: 88377},
 																run: (*parser).callonFootnoteElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2784, col: 5, offset: 88430},
+													pos: position{line: 2785, col: 5, offset: 88457},
 													expr: &seqExpr{
-														pos: position{line: 2785, col: 9, offset: 88441},
+														pos: position{line: 2786, col: 9, offset: 88468},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2785, col: 9, offset: 88441},
+																pos: position{line: 2786, col: 9, offset: 88468},
 																expr: &seqExpr{
-																	pos: position{line: 2785, col: 10, offset: 88442},
+																	pos: position{line: 2786, col: 10, offset: 88469},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2785, col: 10, offset: 88442},
+																			pos:        position{line: 2786, col: 10, offset: 88469},
 																			val:        "[._%+-]",
 																			chars:      []rune{'.', '_', '%', '+', '-'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2785, col: 18, offset: 88450},
+																			pos: position{line: 2786, col: 18, offset: 88477},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2785, col: 18, offset: 88450},
+																				pos:        position{line: 2786, col: 18, offset: 88477},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -20652,13 +20870,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2785, col: 30, offset: 88462},
+																pos:        position{line: 2786, col: 30, offset: 88489},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2785, col: 34, offset: 88466},
+																pos:        position{line: 2786, col: 34, offset: 88493},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -20671,12 +20889,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2880, col: 11, offset: 91066},
+										pos: position{line: 2881, col: 11, offset: 91093},
 										run: (*parser).callonFootnoteElement26,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2880, col: 11, offset: 91066},
+											pos: position{line: 2881, col: 11, offset: 91093},
 											expr: &charClassMatcher{
-												pos:        position{line: 2880, col: 11, offset: 91066},
+												pos:        position{line: 2881, col: 11, offset: 91093},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -20685,25 +20903,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2501, col: 5, offset: 80608},
+										pos: position{line: 2502, col: 5, offset: 80635},
 										run: (*parser).callonFootnoteElement29,
 										expr: &seqExpr{
-											pos: position{line: 2501, col: 5, offset: 80608},
+											pos: position{line: 2502, col: 5, offset: 80635},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2501, col: 5, offset: 80608},
+													pos: position{line: 2502, col: 5, offset: 80635},
 													run: (*parser).callonFootnoteElement31,
 												},
 												&litMatcher{
-													pos:        position{line: 2504, col: 5, offset: 80679},
+													pos:        position{line: 2505, col: 5, offset: 80706},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2504, col: 10, offset: 80684},
+													pos: position{line: 2505, col: 10, offset: 80711},
 													expr: &charClassMatcher{
-														pos:        position{line: 2504, col: 11, offset: 80685},
+														pos:        position{line: 2505, col: 11, offset: 80712},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -20714,29 +20932,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2510, col: 5, offset: 80877},
+										pos: position{line: 2511, col: 5, offset: 80904},
 										run: (*parser).callonFootnoteElement35,
 										expr: &seqExpr{
-											pos: position{line: 2510, col: 5, offset: 80877},
+											pos: position{line: 2511, col: 5, offset: 80904},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2510, col: 5, offset: 80877},
+													pos: position{line: 2511, col: 5, offset: 80904},
 													run: (*parser).callonFootnoteElement37,
 												},
 												&andCodeExpr{
-													pos: position{line: 2513, col: 5, offset: 80948},
+													pos: position{line: 2514, col: 5, offset: 80975},
 													run: (*parser).callonFootnoteElement38,
 												},
 												&litMatcher{
-													pos:        position{line: 2517, col: 5, offset: 81073},
+													pos:        position{line: 2518, col: 5, offset: 81100},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2517, col: 9, offset: 81077},
+													pos: position{line: 2518, col: 9, offset: 81104},
 													expr: &charClassMatcher{
-														pos:        position{line: 2517, col: 10, offset: 81078},
+														pos:        position{line: 2518, col: 10, offset: 81105},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -20747,35 +20965,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1350, col: 11, offset: 42797},
+										pos:  position{line: 1351, col: 11, offset: 42824},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1351, col: 11, offset: 42813},
+										pos:  position{line: 1352, col: 11, offset: 42840},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2793, col: 5, offset: 88659},
+										pos: position{line: 2794, col: 5, offset: 88686},
 										run: (*parser).callonFootnoteElement44,
 										expr: &choiceExpr{
-											pos: position{line: 2794, col: 9, offset: 88669},
+											pos: position{line: 2795, col: 9, offset: 88696},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2794, col: 10, offset: 88670},
+													pos:        position{line: 2795, col: 10, offset: 88697},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2796, col: 13, offset: 88767},
+													pos: position{line: 2797, col: 13, offset: 88794},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2796, col: 13, offset: 88767},
+															pos: position{line: 2797, col: 13, offset: 88794},
 															run: (*parser).callonFootnoteElement48,
 														},
 														&litMatcher{
-															pos:        position{line: 2799, col: 13, offset: 88867},
+															pos:        position{line: 2800, col: 13, offset: 88894},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -20783,20 +21001,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2799, col: 19, offset: 88873},
+													pos:        position{line: 2800, col: 19, offset: 88900},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2802, col: 13, offset: 88911},
+													pos: position{line: 2803, col: 13, offset: 88938},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2802, col: 13, offset: 88911},
+															pos: position{line: 2803, col: 13, offset: 88938},
 															run: (*parser).callonFootnoteElement52,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2805, col: 14, offset: 89004},
+															pos:        position{line: 2806, col: 14, offset: 89031},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -20805,18 +21023,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2807, col: 12, offset: 89048},
+													pos: position{line: 2808, col: 12, offset: 89075},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2807, col: 12, offset: 89048},
+															pos:        position{line: 2808, col: 12, offset: 89075},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2807, col: 16, offset: 89052},
+															pos: position{line: 2808, col: 16, offset: 89079},
 															expr: &litMatcher{
-																pos:        position{line: 2807, col: 17, offset: 89053},
+																pos:        position{line: 2808, col: 17, offset: 89080},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -20828,36 +21046,36 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1353, col: 11, offset: 42886},
+										pos:  position{line: 1354, col: 11, offset: 42913},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 1209, col: 5, offset: 37535},
+										pos: position{line: 1210, col: 5, offset: 37562},
 										run: (*parser).callonFootnoteElement59,
 										expr: &seqExpr{
-											pos: position{line: 1209, col: 5, offset: 37535},
+											pos: position{line: 1210, col: 5, offset: 37562},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 1209, col: 5, offset: 37535},
+													pos: position{line: 1210, col: 5, offset: 37562},
 													run: (*parser).callonFootnoteElement61,
 												},
 												&litMatcher{
-													pos:        position{line: 1212, col: 5, offset: 37611},
+													pos:        position{line: 1213, col: 5, offset: 37638},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&andCodeExpr{
-													pos: position{line: 1213, col: 5, offset: 37619},
+													pos: position{line: 1214, col: 5, offset: 37646},
 													run: (*parser).callonFootnoteElement63,
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1217, col: 5, offset: 37706},
+													pos: position{line: 1218, col: 5, offset: 37733},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 91005},
+														pos: position{line: 2877, col: 10, offset: 91032},
 														run: (*parser).callonFootnoteElement65,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 91005},
+															pos:        position{line: 2877, col: 10, offset: 91032},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -20866,30 +21084,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 1217, col: 12, offset: 37713},
+													pos: position{line: 1218, col: 12, offset: 37740},
 													expr: &choiceExpr{
-														pos: position{line: 2898, col: 8, offset: 91403},
+														pos: position{line: 2899, col: 8, offset: 91430},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2885, col: 12, offset: 91176},
+																pos: position{line: 2886, col: 12, offset: 91203},
 																run: (*parser).callonFootnoteElement69,
 																expr: &choiceExpr{
-																	pos: position{line: 2885, col: 13, offset: 91177},
+																	pos: position{line: 2886, col: 13, offset: 91204},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 13, offset: 91177},
+																			pos:        position{line: 2886, col: 13, offset: 91204},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 20, offset: 91184},
+																			pos:        position{line: 2886, col: 20, offset: 91211},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 29, offset: 91193},
+																			pos:        position{line: 2886, col: 29, offset: 91220},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -20898,9 +21116,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91353},
+																pos: position{line: 2896, col: 8, offset: 91380},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91354,
+																	line: 2896, col: 9, offset: 91381,
 																},
 															},
 														},
@@ -20910,35 +21128,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 635, col: 5, offset: 20116},
+										pos: position{line: 636, col: 5, offset: 20143},
 										run: (*parser).callonFootnoteElement76,
 										expr: &seqExpr{
-											pos: position{line: 635, col: 5, offset: 20116},
+											pos: position{line: 636, col: 5, offset: 20143},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 635, col: 5, offset: 20116},
+													pos: position{line: 636, col: 5, offset: 20143},
 													run: (*parser).callonFootnoteElement78,
 												},
 												&labeledExpr{
-													pos:   position{line: 638, col: 5, offset: 20188},
+													pos:   position{line: 639, col: 5, offset: 20215},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 638, col: 14, offset: 20197},
+														pos: position{line: 639, col: 14, offset: 20224},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 644, col: 5, offset: 20326},
+																pos: position{line: 645, col: 5, offset: 20353},
 																run: (*parser).callonFootnoteElement81,
 																expr: &seqExpr{
-																	pos: position{line: 644, col: 5, offset: 20326},
+																	pos: position{line: 645, col: 5, offset: 20353},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 644, col: 5, offset: 20326},
+																			pos:        position{line: 645, col: 5, offset: 20353},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 644, col: 13, offset: 20334},
+																			pos:   position{line: 645, col: 13, offset: 20361},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 317, col: 18, offset: 9667},
@@ -20970,7 +21188,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 644, col: 32, offset: 20353},
+																			pos:        position{line: 645, col: 32, offset: 20380},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -20979,19 +21197,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 651, col: 5, offset: 20594},
+																pos: position{line: 652, col: 5, offset: 20621},
 																run: (*parser).callonFootnoteElement91,
 																expr: &seqExpr{
-																	pos: position{line: 651, col: 5, offset: 20594},
+																	pos: position{line: 652, col: 5, offset: 20621},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 651, col: 5, offset: 20594},
+																			pos:        position{line: 652, col: 5, offset: 20621},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 651, col: 9, offset: 20598},
+																			pos:   position{line: 652, col: 9, offset: 20625},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 317, col: 18, offset: 9667},
@@ -21023,7 +21241,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 651, col: 28, offset: 20617},
+																			pos:        position{line: 652, col: 28, offset: 20644},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21032,19 +21250,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 657, col: 25, offset: 20798},
+																pos: position{line: 658, col: 25, offset: 20825},
 																run: (*parser).callonFootnoteElement101,
 																expr: &seqExpr{
-																	pos: position{line: 657, col: 25, offset: 20798},
+																	pos: position{line: 658, col: 25, offset: 20825},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 657, col: 25, offset: 20798},
+																			pos:        position{line: 658, col: 25, offset: 20825},
 																			val:        "{counter:",
 																			ignoreCase: false,
 																			want:       "\"{counter:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 657, col: 37, offset: 20810},
+																			pos:   position{line: 658, col: 37, offset: 20837},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 317, col: 18, offset: 9667},
@@ -21076,33 +21294,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 657, col: 56, offset: 20829},
+																			pos:   position{line: 658, col: 56, offset: 20856},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 657, col: 62, offset: 20835},
+																				pos: position{line: 658, col: 62, offset: 20862},
 																				expr: &actionExpr{
-																					pos: position{line: 665, col: 17, offset: 21132},
+																					pos: position{line: 666, col: 17, offset: 21159},
 																					run: (*parser).callonFootnoteElement112,
 																					expr: &seqExpr{
-																						pos: position{line: 665, col: 17, offset: 21132},
+																						pos: position{line: 666, col: 17, offset: 21159},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 665, col: 17, offset: 21132},
+																								pos:        position{line: 666, col: 17, offset: 21159},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 665, col: 21, offset: 21136},
+																								pos:   position{line: 666, col: 21, offset: 21163},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 665, col: 28, offset: 21143},
+																									pos: position{line: 666, col: 28, offset: 21170},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 665, col: 28, offset: 21143},
+																											pos: position{line: 666, col: 28, offset: 21170},
 																											run: (*parser).callonFootnoteElement117,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 665, col: 28, offset: 21143},
+																												pos:        position{line: 666, col: 28, offset: 21170},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -21110,12 +21328,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 667, col: 9, offset: 21197},
+																											pos: position{line: 668, col: 9, offset: 21224},
 																											run: (*parser).callonFootnoteElement119,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 667, col: 9, offset: 21197},
+																												pos: position{line: 668, col: 9, offset: 21224},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 667, col: 9, offset: 21197},
+																													pos:        position{line: 668, col: 9, offset: 21224},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -21132,7 +21350,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 657, col: 78, offset: 20851},
+																			pos:        position{line: 658, col: 78, offset: 20878},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21141,19 +21359,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 661, col: 25, offset: 20969},
+																pos: position{line: 662, col: 25, offset: 20996},
 																run: (*parser).callonFootnoteElement123,
 																expr: &seqExpr{
-																	pos: position{line: 661, col: 25, offset: 20969},
+																	pos: position{line: 662, col: 25, offset: 20996},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 661, col: 25, offset: 20969},
+																			pos:        position{line: 662, col: 25, offset: 20996},
 																			val:        "{counter2:",
 																			ignoreCase: false,
 																			want:       "\"{counter2:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 661, col: 38, offset: 20982},
+																			pos:   position{line: 662, col: 38, offset: 21009},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 317, col: 18, offset: 9667},
@@ -21185,33 +21403,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 661, col: 57, offset: 21001},
+																			pos:   position{line: 662, col: 57, offset: 21028},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 661, col: 63, offset: 21007},
+																				pos: position{line: 662, col: 63, offset: 21034},
 																				expr: &actionExpr{
-																					pos: position{line: 665, col: 17, offset: 21132},
+																					pos: position{line: 666, col: 17, offset: 21159},
 																					run: (*parser).callonFootnoteElement134,
 																					expr: &seqExpr{
-																						pos: position{line: 665, col: 17, offset: 21132},
+																						pos: position{line: 666, col: 17, offset: 21159},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 665, col: 17, offset: 21132},
+																								pos:        position{line: 666, col: 17, offset: 21159},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 665, col: 21, offset: 21136},
+																								pos:   position{line: 666, col: 21, offset: 21163},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 665, col: 28, offset: 21143},
+																									pos: position{line: 666, col: 28, offset: 21170},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 665, col: 28, offset: 21143},
+																											pos: position{line: 666, col: 28, offset: 21170},
 																											run: (*parser).callonFootnoteElement139,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 665, col: 28, offset: 21143},
+																												pos:        position{line: 666, col: 28, offset: 21170},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -21219,12 +21437,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 667, col: 9, offset: 21197},
+																											pos: position{line: 668, col: 9, offset: 21224},
 																											run: (*parser).callonFootnoteElement141,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 667, col: 9, offset: 21197},
+																												pos: position{line: 668, col: 9, offset: 21224},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 667, col: 9, offset: 21197},
+																													pos:        position{line: 668, col: 9, offset: 21224},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -21241,7 +21459,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 661, col: 79, offset: 21023},
+																			pos:        position{line: 662, col: 79, offset: 21050},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21256,23 +21474,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2470, col: 5, offset: 79437},
+										pos: position{line: 2471, col: 5, offset: 79464},
 										run: (*parser).callonFootnoteElement145,
 										expr: &seqExpr{
-											pos: position{line: 2470, col: 5, offset: 79437},
+											pos: position{line: 2471, col: 5, offset: 79464},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2470, col: 5, offset: 79437},
+													pos: position{line: 2471, col: 5, offset: 79464},
 													run: (*parser).callonFootnoteElement147,
 												},
 												&labeledExpr{
-													pos:   position{line: 2473, col: 5, offset: 79513},
+													pos:   position{line: 2474, col: 5, offset: 79540},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2474, col: 9, offset: 79531},
+														pos: position{line: 2475, col: 9, offset: 79558},
 														run: (*parser).callonFootnoteElement149,
 														expr: &charClassMatcher{
-															pos:        position{line: 2474, col: 10, offset: 79532},
+															pos:        position{line: 2475, col: 10, offset: 79559},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -21284,25 +21502,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2885, col: 12, offset: 91176},
+										pos: position{line: 2886, col: 12, offset: 91203},
 										run: (*parser).callonFootnoteElement151,
 										expr: &choiceExpr{
-											pos: position{line: 2885, col: 13, offset: 91177},
+											pos: position{line: 2886, col: 13, offset: 91204},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2885, col: 13, offset: 91177},
+													pos:        position{line: 2886, col: 13, offset: 91204},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2885, col: 20, offset: 91184},
+													pos:        position{line: 2886, col: 20, offset: 91211},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2885, col: 29, offset: 91193},
+													pos:        position{line: 2886, col: 29, offset: 91220},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -21311,10 +21529,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2815, col: 12, offset: 89313},
+										pos: position{line: 2816, col: 12, offset: 89340},
 										run: (*parser).callonFootnoteElement156,
 										expr: &charClassMatcher{
-											pos:        position{line: 2815, col: 12, offset: 89313},
+											pos:        position{line: 2816, col: 12, offset: 89340},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -21330,32 +21548,32 @@ var g = &grammar{
 		},
 		{
 			name: "PassthroughMacro",
-			pos:  position{line: 1392, col: 1, offset: 44731},
+			pos:  position{line: 1393, col: 1, offset: 44758},
 			expr: &choiceExpr{
-				pos: position{line: 1392, col: 21, offset: 44751},
+				pos: position{line: 1393, col: 21, offset: 44778},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1392, col: 21, offset: 44751},
+						pos: position{line: 1393, col: 21, offset: 44778},
 						run: (*parser).callonPassthroughMacro2,
 						expr: &seqExpr{
-							pos: position{line: 1392, col: 21, offset: 44751},
+							pos: position{line: 1393, col: 21, offset: 44778},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1392, col: 21, offset: 44751},
+									pos:        position{line: 1393, col: 21, offset: 44778},
 									val:        "pass:[",
 									ignoreCase: false,
 									want:       "\"pass:[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1392, col: 30, offset: 44760},
+									pos:   position{line: 1393, col: 30, offset: 44787},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1392, col: 38, offset: 44768},
+										pos: position{line: 1393, col: 38, offset: 44795},
 										expr: &actionExpr{
-											pos: position{line: 1408, col: 30, offset: 45358},
+											pos: position{line: 1409, col: 30, offset: 45385},
 											run: (*parser).callonPassthroughMacro7,
 											expr: &charClassMatcher{
-												pos:        position{line: 1408, col: 30, offset: 45358},
+												pos:        position{line: 1409, col: 30, offset: 45385},
 												val:        "[^]]",
 												chars:      []rune{']'},
 												ignoreCase: false,
@@ -21365,7 +21583,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1392, col: 67, offset: 44797},
+									pos:        position{line: 1393, col: 67, offset: 44824},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -21374,34 +21592,34 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1394, col: 9, offset: 44901},
+						pos: position{line: 1395, col: 9, offset: 44928},
 						run: (*parser).callonPassthroughMacro10,
 						expr: &seqExpr{
-							pos: position{line: 1394, col: 9, offset: 44901},
+							pos: position{line: 1395, col: 9, offset: 44928},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 1398, col: 33, offset: 45107},
+									pos: position{line: 1399, col: 33, offset: 45134},
 									run: (*parser).callonPassthroughMacro12,
 									expr: &litMatcher{
-										pos:        position{line: 1398, col: 33, offset: 45107},
+										pos:        position{line: 1399, col: 33, offset: 45134},
 										val:        "pass:q[",
 										ignoreCase: false,
 										want:       "\"pass:q[\"",
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1394, col: 38, offset: 44930},
+									pos:   position{line: 1395, col: 38, offset: 44957},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1394, col: 46, offset: 44938},
+										pos: position{line: 1395, col: 46, offset: 44965},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1394, col: 47, offset: 44939},
+											pos:  position{line: 1395, col: 47, offset: 44966},
 											name: "PassthroughMacroQuotesElement",
 										},
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1394, col: 79, offset: 44971},
+									pos:        position{line: 1395, col: 79, offset: 44998},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -21414,25 +21632,25 @@ var g = &grammar{
 		},
 		{
 			name: "PassthroughMacroQuotesElement",
-			pos:  position{line: 1403, col: 1, offset: 45178},
+			pos:  position{line: 1404, col: 1, offset: 45205},
 			expr: &actionExpr{
-				pos: position{line: 1403, col: 34, offset: 45211},
+				pos: position{line: 1404, col: 34, offset: 45238},
 				run: (*parser).callonPassthroughMacroQuotesElement1,
 				expr: &labeledExpr{
-					pos:   position{line: 1403, col: 34, offset: 45211},
+					pos:   position{line: 1404, col: 34, offset: 45238},
 					label: "element",
 					expr: &choiceExpr{
-						pos: position{line: 1403, col: 43, offset: 45220},
+						pos: position{line: 1404, col: 43, offset: 45247},
 						alternatives: []interface{}{
 							&ruleRefExpr{
-								pos:  position{line: 1403, col: 43, offset: 45220},
+								pos:  position{line: 1404, col: 43, offset: 45247},
 								name: "QuotedText",
 							},
 							&actionExpr{
-								pos: position{line: 1408, col: 30, offset: 45358},
+								pos: position{line: 1409, col: 30, offset: 45385},
 								run: (*parser).callonPassthroughMacroQuotesElement5,
 								expr: &charClassMatcher{
-									pos:        position{line: 1408, col: 30, offset: 45358},
+									pos:        position{line: 1409, col: 30, offset: 45385},
 									val:        "[^]]",
 									chars:      []rune{']'},
 									ignoreCase: false,
@@ -21446,75 +21664,75 @@ var g = &grammar{
 		},
 		{
 			name: "Link",
-			pos:  position{line: 1415, col: 1, offset: 45614},
+			pos:  position{line: 1416, col: 1, offset: 45641},
 			expr: &choiceExpr{
-				pos: position{line: 1415, col: 9, offset: 45622},
+				pos: position{line: 1416, col: 9, offset: 45649},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1418, col: 5, offset: 45691},
+						pos: position{line: 1419, col: 5, offset: 45718},
 						run: (*parser).callonLink2,
 						expr: &seqExpr{
-							pos: position{line: 1418, col: 5, offset: 45691},
+							pos: position{line: 1419, col: 5, offset: 45718},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1418, col: 5, offset: 45691},
+									pos:        position{line: 1419, col: 5, offset: 45718},
 									val:        "<",
 									ignoreCase: false,
 									want:       "\"<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1419, col: 5, offset: 45700},
+									pos:   position{line: 1420, col: 5, offset: 45727},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2838, col: 23, offset: 89891},
+										pos: position{line: 2839, col: 23, offset: 89918},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2838, col: 23, offset: 89891},
+											pos: position{line: 2839, col: 23, offset: 89918},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2838, col: 23, offset: 89891},
+													pos: position{line: 2839, col: 23, offset: 89918},
 													expr: &litMatcher{
-														pos:        position{line: 2838, col: 24, offset: 89892},
+														pos:        position{line: 2839, col: 24, offset: 89919},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2838, col: 28, offset: 89896},
+													pos:   position{line: 2839, col: 28, offset: 89923},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2842, col: 11, offset: 90010},
+														pos: position{line: 2843, col: 11, offset: 90037},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2842, col: 12, offset: 90011},
+															pos: position{line: 2843, col: 12, offset: 90038},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2842, col: 12, offset: 90011},
+																	pos:        position{line: 2843, col: 12, offset: 90038},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2842, col: 24, offset: 90023},
+																	pos:        position{line: 2843, col: 24, offset: 90050},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2842, col: 37, offset: 90036},
+																	pos:        position{line: 2843, col: 37, offset: 90063},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2842, col: 48, offset: 90047},
+																	pos:        position{line: 2843, col: 48, offset: 90074},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2842, col: 59, offset: 90058},
+																	pos:        position{line: 2843, col: 59, offset: 90085},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -21524,38 +21742,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2838, col: 44, offset: 89912},
+													pos:   position{line: 2839, col: 44, offset: 89939},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2847, col: 5, offset: 90122},
+														pos: position{line: 2848, col: 5, offset: 90149},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2847, col: 5, offset: 90122},
+															pos:   position{line: 2848, col: 5, offset: 90149},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2847, col: 14, offset: 90131},
+																pos: position{line: 2848, col: 14, offset: 90158},
 																expr: &choiceExpr{
-																	pos: position{line: 2848, col: 9, offset: 90141},
+																	pos: position{line: 2849, col: 9, offset: 90168},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2848, col: 9, offset: 90141},
+																			pos: position{line: 2849, col: 9, offset: 90168},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2848, col: 9, offset: 90141},
+																				pos: position{line: 2849, col: 9, offset: 90168},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2848, col: 9, offset: 90141},
+																						pos: position{line: 2849, col: 9, offset: 90168},
 																						expr: &litMatcher{
-																							pos:        position{line: 2848, col: 10, offset: 90142},
+																							pos:        position{line: 2849, col: 10, offset: 90169},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2849, col: 9, offset: 90170},
+																						pos: position{line: 2850, col: 9, offset: 90197},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2849, col: 10, offset: 90171},
+																							pos:        position{line: 2850, col: 10, offset: 90198},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -21566,27 +21784,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2852, col: 11, offset: 90383},
+																			pos: position{line: 2853, col: 11, offset: 90410},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2852, col: 11, offset: 90383},
+																					pos:        position{line: 2853, col: 11, offset: 90410},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2852, col: 19, offset: 90391},
+																					pos: position{line: 2853, col: 19, offset: 90418},
 																					expr: &seqExpr{
-																						pos: position{line: 2852, col: 21, offset: 90393},
+																						pos: position{line: 2853, col: 21, offset: 90420},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2852, col: 21, offset: 90393},
+																								pos: position{line: 2853, col: 21, offset: 90420},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 91005},
+																									pos: position{line: 2877, col: 10, offset: 91032},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 91005},
+																										pos:        position{line: 2877, col: 10, offset: 91032},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -21595,11 +21813,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2852, col: 28, offset: 90400},
+																								pos: position{line: 2853, col: 28, offset: 90427},
 																								expr: &notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91353},
+																									pos: position{line: 2896, col: 8, offset: 91380},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91354,
+																										line: 2896, col: 9, offset: 91381,
 																									},
 																								},
 																							},
@@ -21609,35 +21827,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 635, col: 5, offset: 20116},
+																			pos: position{line: 636, col: 5, offset: 20143},
 																			run: (*parser).callonLink39,
 																			expr: &seqExpr{
-																				pos: position{line: 635, col: 5, offset: 20116},
+																				pos: position{line: 636, col: 5, offset: 20143},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 635, col: 5, offset: 20116},
+																						pos: position{line: 636, col: 5, offset: 20143},
 																						run: (*parser).callonLink41,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 638, col: 5, offset: 20188},
+																						pos:   position{line: 639, col: 5, offset: 20215},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 638, col: 14, offset: 20197},
+																							pos: position{line: 639, col: 14, offset: 20224},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 644, col: 5, offset: 20326},
+																									pos: position{line: 645, col: 5, offset: 20353},
 																									run: (*parser).callonLink44,
 																									expr: &seqExpr{
-																										pos: position{line: 644, col: 5, offset: 20326},
+																										pos: position{line: 645, col: 5, offset: 20353},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 644, col: 5, offset: 20326},
+																												pos:        position{line: 645, col: 5, offset: 20353},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 644, col: 13, offset: 20334},
+																												pos:   position{line: 645, col: 13, offset: 20361},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 317, col: 18, offset: 9667},
@@ -21669,7 +21887,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 644, col: 32, offset: 20353},
+																												pos:        position{line: 645, col: 32, offset: 20380},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -21678,19 +21896,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 651, col: 5, offset: 20594},
+																									pos: position{line: 652, col: 5, offset: 20621},
 																									run: (*parser).callonLink54,
 																									expr: &seqExpr{
-																										pos: position{line: 651, col: 5, offset: 20594},
+																										pos: position{line: 652, col: 5, offset: 20621},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 651, col: 5, offset: 20594},
+																												pos:        position{line: 652, col: 5, offset: 20621},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 651, col: 9, offset: 20598},
+																												pos:   position{line: 652, col: 9, offset: 20625},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 317, col: 18, offset: 9667},
@@ -21722,7 +21940,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 651, col: 28, offset: 20617},
+																												pos:        position{line: 652, col: 28, offset: 20644},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -21731,19 +21949,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 657, col: 25, offset: 20798},
+																									pos: position{line: 658, col: 25, offset: 20825},
 																									run: (*parser).callonLink64,
 																									expr: &seqExpr{
-																										pos: position{line: 657, col: 25, offset: 20798},
+																										pos: position{line: 658, col: 25, offset: 20825},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 657, col: 25, offset: 20798},
+																												pos:        position{line: 658, col: 25, offset: 20825},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 657, col: 37, offset: 20810},
+																												pos:   position{line: 658, col: 37, offset: 20837},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 317, col: 18, offset: 9667},
@@ -21775,33 +21993,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 657, col: 56, offset: 20829},
+																												pos:   position{line: 658, col: 56, offset: 20856},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 657, col: 62, offset: 20835},
+																													pos: position{line: 658, col: 62, offset: 20862},
 																													expr: &actionExpr{
-																														pos: position{line: 665, col: 17, offset: 21132},
+																														pos: position{line: 666, col: 17, offset: 21159},
 																														run: (*parser).callonLink75,
 																														expr: &seqExpr{
-																															pos: position{line: 665, col: 17, offset: 21132},
+																															pos: position{line: 666, col: 17, offset: 21159},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 665, col: 17, offset: 21132},
+																																	pos:        position{line: 666, col: 17, offset: 21159},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 665, col: 21, offset: 21136},
+																																	pos:   position{line: 666, col: 21, offset: 21163},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 665, col: 28, offset: 21143},
+																																		pos: position{line: 666, col: 28, offset: 21170},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 665, col: 28, offset: 21143},
+																																				pos: position{line: 666, col: 28, offset: 21170},
 																																				run: (*parser).callonLink80,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 665, col: 28, offset: 21143},
+																																					pos:        position{line: 666, col: 28, offset: 21170},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -21809,12 +22027,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 667, col: 9, offset: 21197},
+																																				pos: position{line: 668, col: 9, offset: 21224},
 																																				run: (*parser).callonLink82,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 667, col: 9, offset: 21197},
+																																					pos: position{line: 668, col: 9, offset: 21224},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 667, col: 9, offset: 21197},
+																																						pos:        position{line: 668, col: 9, offset: 21224},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -21831,7 +22049,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 657, col: 78, offset: 20851},
+																												pos:        position{line: 658, col: 78, offset: 20878},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -21840,19 +22058,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 661, col: 25, offset: 20969},
+																									pos: position{line: 662, col: 25, offset: 20996},
 																									run: (*parser).callonLink86,
 																									expr: &seqExpr{
-																										pos: position{line: 661, col: 25, offset: 20969},
+																										pos: position{line: 662, col: 25, offset: 20996},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 661, col: 25, offset: 20969},
+																												pos:        position{line: 662, col: 25, offset: 20996},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 661, col: 38, offset: 20982},
+																												pos:   position{line: 662, col: 38, offset: 21009},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 317, col: 18, offset: 9667},
@@ -21884,33 +22102,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 661, col: 57, offset: 21001},
+																												pos:   position{line: 662, col: 57, offset: 21028},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 661, col: 63, offset: 21007},
+																													pos: position{line: 662, col: 63, offset: 21034},
 																													expr: &actionExpr{
-																														pos: position{line: 665, col: 17, offset: 21132},
+																														pos: position{line: 666, col: 17, offset: 21159},
 																														run: (*parser).callonLink97,
 																														expr: &seqExpr{
-																															pos: position{line: 665, col: 17, offset: 21132},
+																															pos: position{line: 666, col: 17, offset: 21159},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 665, col: 17, offset: 21132},
+																																	pos:        position{line: 666, col: 17, offset: 21159},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 665, col: 21, offset: 21136},
+																																	pos:   position{line: 666, col: 21, offset: 21163},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 665, col: 28, offset: 21143},
+																																		pos: position{line: 666, col: 28, offset: 21170},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 665, col: 28, offset: 21143},
+																																				pos: position{line: 666, col: 28, offset: 21170},
 																																				run: (*parser).callonLink102,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 665, col: 28, offset: 21143},
+																																					pos:        position{line: 666, col: 28, offset: 21170},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -21918,12 +22136,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 667, col: 9, offset: 21197},
+																																				pos: position{line: 668, col: 9, offset: 21224},
 																																				run: (*parser).callonLink104,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 667, col: 9, offset: 21197},
+																																					pos: position{line: 668, col: 9, offset: 21224},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 667, col: 9, offset: 21197},
+																																						pos:        position{line: 668, col: 9, offset: 21224},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -21940,7 +22158,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 661, col: 79, offset: 21023},
+																												pos:        position{line: 662, col: 79, offset: 21050},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -21955,27 +22173,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1197, col: 23, offset: 36986},
+																			pos: position{line: 1198, col: 23, offset: 37013},
 																			run: (*parser).callonLink108,
 																			expr: &seqExpr{
-																				pos: position{line: 1197, col: 23, offset: 36986},
+																				pos: position{line: 1198, col: 23, offset: 37013},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1195, col: 32, offset: 36954},
+																						pos:        position{line: 1196, col: 32, offset: 36981},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1197, col: 51, offset: 37014},
+																						pos:   position{line: 1198, col: 51, offset: 37041},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1197, col: 56, offset: 37019},
+																							pos: position{line: 1198, col: 56, offset: 37046},
 																							run: (*parser).callonLink112,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1197, col: 56, offset: 37019},
+																								pos: position{line: 1198, col: 56, offset: 37046},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1197, col: 56, offset: 37019},
+																									pos:        position{line: 1198, col: 56, offset: 37046},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -21985,23 +22203,23 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1195, col: 32, offset: 36954},
+																						pos:        position{line: 1196, col: 32, offset: 36981},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1198, col: 5, offset: 37091},
+																						pos: position{line: 1199, col: 5, offset: 37118},
 																						run: (*parser).callonLink116,
 																					},
 																				},
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2855, col: 11, offset: 90520},
+																			pos: position{line: 2856, col: 11, offset: 90547},
 																			run: (*parser).callonLink117,
 																			expr: &litMatcher{
-																				pos:        position{line: 2855, col: 11, offset: 90520},
+																				pos:        position{line: 2856, col: 11, offset: 90547},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22018,7 +22236,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1424, col: 5, offset: 45919},
+									pos:        position{line: 1425, col: 5, offset: 45946},
 									val:        ">",
 									ignoreCase: false,
 									want:       "\">\"",
@@ -22027,38 +22245,38 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1415, col: 19, offset: 45632},
+						pos:  position{line: 1416, col: 19, offset: 45659},
 						name: "RelativeLink",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1415, col: 34, offset: 45647},
+						pos:  position{line: 1416, col: 34, offset: 45674},
 						name: "ExternalLink",
 					},
 					&actionExpr{
-						pos: position{line: 1453, col: 17, offset: 46912},
+						pos: position{line: 1454, col: 17, offset: 46939},
 						run: (*parser).callonLink122,
 						expr: &seqExpr{
-							pos: position{line: 1453, col: 17, offset: 46912},
+							pos: position{line: 1454, col: 17, offset: 46939},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1453, col: 17, offset: 46912},
+									pos:   position{line: 1454, col: 17, offset: 46939},
 									label: "local",
 									expr: &actionExpr{
-										pos: position{line: 1458, col: 5, offset: 47077},
+										pos: position{line: 1459, col: 5, offset: 47104},
 										run: (*parser).callonLink125,
 										expr: &seqExpr{
-											pos: position{line: 1458, col: 5, offset: 47077},
+											pos: position{line: 1459, col: 5, offset: 47104},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1458, col: 5, offset: 47077},
+													pos:   position{line: 1459, col: 5, offset: 47104},
 													label: "local",
 													expr: &actionExpr{
-														pos: position{line: 1458, col: 12, offset: 47084},
+														pos: position{line: 1459, col: 12, offset: 47111},
 														run: (*parser).callonLink128,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1458, col: 12, offset: 47084},
+															pos: position{line: 1459, col: 12, offset: 47111},
 															expr: &charClassMatcher{
-																pos:        position{line: 1458, col: 12, offset: 47084},
+																pos:        position{line: 1459, col: 12, offset: 47111},
 																val:        "[!#$%&\\*=?^_`{|}~.+-/\\pL\\pN]",
 																chars:      []rune{'!', '#', '$', '%', '&', '\'', '*', '=', '?', '^', '_', '`', '{', '|', '}', '~', '.'},
 																ranges:     []rune{'+', '/'},
@@ -22070,7 +22288,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1461, col: 5, offset: 47168},
+													pos: position{line: 1462, col: 5, offset: 47195},
 													run: (*parser).callonLink131,
 												},
 											},
@@ -22078,24 +22296,24 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1453, col: 43, offset: 46938},
+									pos:        position{line: 1454, col: 43, offset: 46965},
 									val:        "@",
 									ignoreCase: false,
 									want:       "\"@\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1453, col: 47, offset: 46942},
+									pos:   position{line: 1454, col: 47, offset: 46969},
 									label: "domain",
 									expr: &actionExpr{
-										pos: position{line: 1471, col: 23, offset: 47519},
+										pos: position{line: 1472, col: 23, offset: 47546},
 										run: (*parser).callonLink134,
 										expr: &seqExpr{
-											pos: position{line: 1471, col: 23, offset: 47519},
+											pos: position{line: 1472, col: 23, offset: 47546},
 											exprs: []interface{}{
 												&oneOrMoreExpr{
-													pos: position{line: 1475, col: 28, offset: 47645},
+													pos: position{line: 1476, col: 28, offset: 47672},
 													expr: &charClassMatcher{
-														pos:        position{line: 1475, col: 28, offset: 47645},
+														pos:        position{line: 1476, col: 28, offset: 47672},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -22103,20 +22321,20 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1475, col: 38, offset: 47655},
+													pos: position{line: 1476, col: 38, offset: 47682},
 													expr: &seqExpr{
-														pos: position{line: 1475, col: 39, offset: 47656},
+														pos: position{line: 1476, col: 39, offset: 47683},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 1475, col: 39, offset: 47656},
+																pos:        position{line: 1476, col: 39, offset: 47683},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 															&oneOrMoreExpr{
-																pos: position{line: 1475, col: 43, offset: 47660},
+																pos: position{line: 1476, col: 43, offset: 47687},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1475, col: 43, offset: 47660},
+																	pos:        position{line: 1476, col: 43, offset: 47687},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -22127,20 +22345,20 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1471, col: 47, offset: 47543},
+													pos: position{line: 1472, col: 47, offset: 47570},
 													expr: &seqExpr{
-														pos: position{line: 1471, col: 48, offset: 47544},
+														pos: position{line: 1472, col: 48, offset: 47571},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 1471, col: 48, offset: 47544},
+																pos:        position{line: 1472, col: 48, offset: 47571},
 																val:        ".",
 																ignoreCase: false,
 																want:       "\".\"",
 															},
 															&oneOrMoreExpr{
-																pos: position{line: 1475, col: 28, offset: 47645},
+																pos: position{line: 1476, col: 28, offset: 47672},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1475, col: 28, offset: 47645},
+																	pos:        position{line: 1476, col: 28, offset: 47672},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -22148,20 +22366,20 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 1475, col: 38, offset: 47655},
+																pos: position{line: 1476, col: 38, offset: 47682},
 																expr: &seqExpr{
-																	pos: position{line: 1475, col: 39, offset: 47656},
+																	pos: position{line: 1476, col: 39, offset: 47683},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 1475, col: 39, offset: 47656},
+																			pos:        position{line: 1476, col: 39, offset: 47683},
 																			val:        "-",
 																			ignoreCase: false,
 																			want:       "\"-\"",
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 1475, col: 43, offset: 47660},
+																			pos: position{line: 1476, col: 43, offset: 47687},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1475, col: 43, offset: 47660},
+																				pos:        position{line: 1476, col: 43, offset: 47687},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -22186,68 +22404,68 @@ var g = &grammar{
 		},
 		{
 			name: "RelativeLink",
-			pos:  position{line: 1430, col: 1, offset: 46067},
+			pos:  position{line: 1431, col: 1, offset: 46094},
 			expr: &choiceExpr{
-				pos: position{line: 1432, col: 5, offset: 46103},
+				pos: position{line: 1433, col: 5, offset: 46130},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1432, col: 5, offset: 46103},
+						pos: position{line: 1433, col: 5, offset: 46130},
 						run: (*parser).callonRelativeLink2,
 						expr: &seqExpr{
-							pos: position{line: 1432, col: 5, offset: 46103},
+							pos: position{line: 1433, col: 5, offset: 46130},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1432, col: 5, offset: 46103},
+									pos:        position{line: 1433, col: 5, offset: 46130},
 									val:        "\\link:",
 									ignoreCase: false,
 									want:       "\"\\\\link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1432, col: 17, offset: 46115},
+									pos:   position{line: 1433, col: 17, offset: 46142},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2834, col: 13, offset: 89764},
+										pos: position{line: 2835, col: 13, offset: 89791},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2834, col: 13, offset: 89764},
+											pos: position{line: 2835, col: 13, offset: 89791},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2834, col: 13, offset: 89764},
+													pos:   position{line: 2835, col: 13, offset: 89791},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2834, col: 20, offset: 89771},
+														pos: position{line: 2835, col: 20, offset: 89798},
 														expr: &actionExpr{
-															pos: position{line: 2842, col: 11, offset: 90010},
+															pos: position{line: 2843, col: 11, offset: 90037},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2842, col: 12, offset: 90011},
+																pos: position{line: 2843, col: 12, offset: 90038},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2842, col: 12, offset: 90011},
+																		pos:        position{line: 2843, col: 12, offset: 90038},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2842, col: 24, offset: 90023},
+																		pos:        position{line: 2843, col: 24, offset: 90050},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2842, col: 37, offset: 90036},
+																		pos:        position{line: 2843, col: 37, offset: 90063},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2842, col: 48, offset: 90047},
+																		pos:        position{line: 2843, col: 48, offset: 90074},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2842, col: 59, offset: 90058},
+																		pos:        position{line: 2843, col: 59, offset: 90085},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22258,38 +22476,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2834, col: 30, offset: 89781},
+													pos:   position{line: 2835, col: 30, offset: 89808},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2847, col: 5, offset: 90122},
+														pos: position{line: 2848, col: 5, offset: 90149},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2847, col: 5, offset: 90122},
+															pos:   position{line: 2848, col: 5, offset: 90149},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2847, col: 14, offset: 90131},
+																pos: position{line: 2848, col: 14, offset: 90158},
 																expr: &choiceExpr{
-																	pos: position{line: 2848, col: 9, offset: 90141},
+																	pos: position{line: 2849, col: 9, offset: 90168},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2848, col: 9, offset: 90141},
+																			pos: position{line: 2849, col: 9, offset: 90168},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2848, col: 9, offset: 90141},
+																				pos: position{line: 2849, col: 9, offset: 90168},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2848, col: 9, offset: 90141},
+																						pos: position{line: 2849, col: 9, offset: 90168},
 																						expr: &litMatcher{
-																							pos:        position{line: 2848, col: 10, offset: 90142},
+																							pos:        position{line: 2849, col: 10, offset: 90169},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2849, col: 9, offset: 90170},
+																						pos: position{line: 2850, col: 9, offset: 90197},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2849, col: 10, offset: 90171},
+																							pos:        position{line: 2850, col: 10, offset: 90198},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22300,27 +22518,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2852, col: 11, offset: 90383},
+																			pos: position{line: 2853, col: 11, offset: 90410},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2852, col: 11, offset: 90383},
+																					pos:        position{line: 2853, col: 11, offset: 90410},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2852, col: 19, offset: 90391},
+																					pos: position{line: 2853, col: 19, offset: 90418},
 																					expr: &seqExpr{
-																						pos: position{line: 2852, col: 21, offset: 90393},
+																						pos: position{line: 2853, col: 21, offset: 90420},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2852, col: 21, offset: 90393},
+																								pos: position{line: 2853, col: 21, offset: 90420},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 91005},
+																									pos: position{line: 2877, col: 10, offset: 91032},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 91005},
+																										pos:        position{line: 2877, col: 10, offset: 91032},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22329,11 +22547,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2852, col: 28, offset: 90400},
+																								pos: position{line: 2853, col: 28, offset: 90427},
 																								expr: &notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91353},
+																									pos: position{line: 2896, col: 8, offset: 91380},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91354,
+																										line: 2896, col: 9, offset: 91381,
 																									},
 																								},
 																							},
@@ -22343,35 +22561,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 635, col: 5, offset: 20116},
+																			pos: position{line: 636, col: 5, offset: 20143},
 																			run: (*parser).callonRelativeLink38,
 																			expr: &seqExpr{
-																				pos: position{line: 635, col: 5, offset: 20116},
+																				pos: position{line: 636, col: 5, offset: 20143},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 635, col: 5, offset: 20116},
+																						pos: position{line: 636, col: 5, offset: 20143},
 																						run: (*parser).callonRelativeLink40,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 638, col: 5, offset: 20188},
+																						pos:   position{line: 639, col: 5, offset: 20215},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 638, col: 14, offset: 20197},
+																							pos: position{line: 639, col: 14, offset: 20224},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 644, col: 5, offset: 20326},
+																									pos: position{line: 645, col: 5, offset: 20353},
 																									run: (*parser).callonRelativeLink43,
 																									expr: &seqExpr{
-																										pos: position{line: 644, col: 5, offset: 20326},
+																										pos: position{line: 645, col: 5, offset: 20353},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 644, col: 5, offset: 20326},
+																												pos:        position{line: 645, col: 5, offset: 20353},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 644, col: 13, offset: 20334},
+																												pos:   position{line: 645, col: 13, offset: 20361},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 317, col: 18, offset: 9667},
@@ -22403,7 +22621,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 644, col: 32, offset: 20353},
+																												pos:        position{line: 645, col: 32, offset: 20380},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22412,19 +22630,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 651, col: 5, offset: 20594},
+																									pos: position{line: 652, col: 5, offset: 20621},
 																									run: (*parser).callonRelativeLink53,
 																									expr: &seqExpr{
-																										pos: position{line: 651, col: 5, offset: 20594},
+																										pos: position{line: 652, col: 5, offset: 20621},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 651, col: 5, offset: 20594},
+																												pos:        position{line: 652, col: 5, offset: 20621},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 651, col: 9, offset: 20598},
+																												pos:   position{line: 652, col: 9, offset: 20625},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 317, col: 18, offset: 9667},
@@ -22456,7 +22674,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 651, col: 28, offset: 20617},
+																												pos:        position{line: 652, col: 28, offset: 20644},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22465,19 +22683,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 657, col: 25, offset: 20798},
+																									pos: position{line: 658, col: 25, offset: 20825},
 																									run: (*parser).callonRelativeLink63,
 																									expr: &seqExpr{
-																										pos: position{line: 657, col: 25, offset: 20798},
+																										pos: position{line: 658, col: 25, offset: 20825},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 657, col: 25, offset: 20798},
+																												pos:        position{line: 658, col: 25, offset: 20825},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 657, col: 37, offset: 20810},
+																												pos:   position{line: 658, col: 37, offset: 20837},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 317, col: 18, offset: 9667},
@@ -22509,33 +22727,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 657, col: 56, offset: 20829},
+																												pos:   position{line: 658, col: 56, offset: 20856},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 657, col: 62, offset: 20835},
+																													pos: position{line: 658, col: 62, offset: 20862},
 																													expr: &actionExpr{
-																														pos: position{line: 665, col: 17, offset: 21132},
+																														pos: position{line: 666, col: 17, offset: 21159},
 																														run: (*parser).callonRelativeLink74,
 																														expr: &seqExpr{
-																															pos: position{line: 665, col: 17, offset: 21132},
+																															pos: position{line: 666, col: 17, offset: 21159},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 665, col: 17, offset: 21132},
+																																	pos:        position{line: 666, col: 17, offset: 21159},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 665, col: 21, offset: 21136},
+																																	pos:   position{line: 666, col: 21, offset: 21163},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 665, col: 28, offset: 21143},
+																																		pos: position{line: 666, col: 28, offset: 21170},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 665, col: 28, offset: 21143},
+																																				pos: position{line: 666, col: 28, offset: 21170},
 																																				run: (*parser).callonRelativeLink79,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 665, col: 28, offset: 21143},
+																																					pos:        position{line: 666, col: 28, offset: 21170},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22543,12 +22761,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 667, col: 9, offset: 21197},
+																																				pos: position{line: 668, col: 9, offset: 21224},
 																																				run: (*parser).callonRelativeLink81,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 667, col: 9, offset: 21197},
+																																					pos: position{line: 668, col: 9, offset: 21224},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 667, col: 9, offset: 21197},
+																																						pos:        position{line: 668, col: 9, offset: 21224},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -22565,7 +22783,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 657, col: 78, offset: 20851},
+																												pos:        position{line: 658, col: 78, offset: 20878},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22574,19 +22792,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 661, col: 25, offset: 20969},
+																									pos: position{line: 662, col: 25, offset: 20996},
 																									run: (*parser).callonRelativeLink85,
 																									expr: &seqExpr{
-																										pos: position{line: 661, col: 25, offset: 20969},
+																										pos: position{line: 662, col: 25, offset: 20996},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 661, col: 25, offset: 20969},
+																												pos:        position{line: 662, col: 25, offset: 20996},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 661, col: 38, offset: 20982},
+																												pos:   position{line: 662, col: 38, offset: 21009},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 317, col: 18, offset: 9667},
@@ -22618,33 +22836,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 661, col: 57, offset: 21001},
+																												pos:   position{line: 662, col: 57, offset: 21028},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 661, col: 63, offset: 21007},
+																													pos: position{line: 662, col: 63, offset: 21034},
 																													expr: &actionExpr{
-																														pos: position{line: 665, col: 17, offset: 21132},
+																														pos: position{line: 666, col: 17, offset: 21159},
 																														run: (*parser).callonRelativeLink96,
 																														expr: &seqExpr{
-																															pos: position{line: 665, col: 17, offset: 21132},
+																															pos: position{line: 666, col: 17, offset: 21159},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 665, col: 17, offset: 21132},
+																																	pos:        position{line: 666, col: 17, offset: 21159},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 665, col: 21, offset: 21136},
+																																	pos:   position{line: 666, col: 21, offset: 21163},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 665, col: 28, offset: 21143},
+																																		pos: position{line: 666, col: 28, offset: 21170},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 665, col: 28, offset: 21143},
+																																				pos: position{line: 666, col: 28, offset: 21170},
 																																				run: (*parser).callonRelativeLink101,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 665, col: 28, offset: 21143},
+																																					pos:        position{line: 666, col: 28, offset: 21170},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22652,12 +22870,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 667, col: 9, offset: 21197},
+																																				pos: position{line: 668, col: 9, offset: 21224},
 																																				run: (*parser).callonRelativeLink103,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 667, col: 9, offset: 21197},
+																																					pos: position{line: 668, col: 9, offset: 21224},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 667, col: 9, offset: 21197},
+																																						pos:        position{line: 668, col: 9, offset: 21224},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -22674,7 +22892,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 661, col: 79, offset: 21023},
+																												pos:        position{line: 662, col: 79, offset: 21050},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22689,27 +22907,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1197, col: 23, offset: 36986},
+																			pos: position{line: 1198, col: 23, offset: 37013},
 																			run: (*parser).callonRelativeLink107,
 																			expr: &seqExpr{
-																				pos: position{line: 1197, col: 23, offset: 36986},
+																				pos: position{line: 1198, col: 23, offset: 37013},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1195, col: 32, offset: 36954},
+																						pos:        position{line: 1196, col: 32, offset: 36981},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1197, col: 51, offset: 37014},
+																						pos:   position{line: 1198, col: 51, offset: 37041},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1197, col: 56, offset: 37019},
+																							pos: position{line: 1198, col: 56, offset: 37046},
 																							run: (*parser).callonRelativeLink111,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1197, col: 56, offset: 37019},
+																								pos: position{line: 1198, col: 56, offset: 37046},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1197, col: 56, offset: 37019},
+																									pos:        position{line: 1198, col: 56, offset: 37046},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -22719,23 +22937,23 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1195, col: 32, offset: 36954},
+																						pos:        position{line: 1196, col: 32, offset: 36981},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1198, col: 5, offset: 37091},
+																						pos: position{line: 1199, col: 5, offset: 37118},
 																						run: (*parser).callonRelativeLink115,
 																					},
 																				},
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2855, col: 11, offset: 90520},
+																			pos: position{line: 2856, col: 11, offset: 90547},
 																			run: (*parser).callonRelativeLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2855, col: 11, offset: 90520},
+																				pos:        position{line: 2856, col: 11, offset: 90547},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22752,10 +22970,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1432, col: 32, offset: 46130},
+									pos:   position{line: 1433, col: 32, offset: 46157},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1432, col: 44, offset: 46142},
+										pos:  position{line: 1433, col: 44, offset: 46169},
 										name: "InlineAttributes",
 									},
 								},
@@ -22763,63 +22981,63 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1437, col: 5, offset: 46274},
+						pos: position{line: 1438, col: 5, offset: 46301},
 						run: (*parser).callonRelativeLink120,
 						expr: &seqExpr{
-							pos: position{line: 1437, col: 5, offset: 46274},
+							pos: position{line: 1438, col: 5, offset: 46301},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1437, col: 5, offset: 46274},
+									pos:        position{line: 1438, col: 5, offset: 46301},
 									val:        "link:",
 									ignoreCase: false,
 									want:       "\"link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1437, col: 13, offset: 46282},
+									pos:   position{line: 1438, col: 13, offset: 46309},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2834, col: 13, offset: 89764},
+										pos: position{line: 2835, col: 13, offset: 89791},
 										run: (*parser).callonRelativeLink124,
 										expr: &seqExpr{
-											pos: position{line: 2834, col: 13, offset: 89764},
+											pos: position{line: 2835, col: 13, offset: 89791},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2834, col: 13, offset: 89764},
+													pos:   position{line: 2835, col: 13, offset: 89791},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2834, col: 20, offset: 89771},
+														pos: position{line: 2835, col: 20, offset: 89798},
 														expr: &actionExpr{
-															pos: position{line: 2842, col: 11, offset: 90010},
+															pos: position{line: 2843, col: 11, offset: 90037},
 															run: (*parser).callonRelativeLink128,
 															expr: &choiceExpr{
-																pos: position{line: 2842, col: 12, offset: 90011},
+																pos: position{line: 2843, col: 12, offset: 90038},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2842, col: 12, offset: 90011},
+																		pos:        position{line: 2843, col: 12, offset: 90038},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2842, col: 24, offset: 90023},
+																		pos:        position{line: 2843, col: 24, offset: 90050},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2842, col: 37, offset: 90036},
+																		pos:        position{line: 2843, col: 37, offset: 90063},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2842, col: 48, offset: 90047},
+																		pos:        position{line: 2843, col: 48, offset: 90074},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2842, col: 59, offset: 90058},
+																		pos:        position{line: 2843, col: 59, offset: 90085},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22830,38 +23048,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2834, col: 30, offset: 89781},
+													pos:   position{line: 2835, col: 30, offset: 89808},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2847, col: 5, offset: 90122},
+														pos: position{line: 2848, col: 5, offset: 90149},
 														run: (*parser).callonRelativeLink136,
 														expr: &labeledExpr{
-															pos:   position{line: 2847, col: 5, offset: 90122},
+															pos:   position{line: 2848, col: 5, offset: 90149},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2847, col: 14, offset: 90131},
+																pos: position{line: 2848, col: 14, offset: 90158},
 																expr: &choiceExpr{
-																	pos: position{line: 2848, col: 9, offset: 90141},
+																	pos: position{line: 2849, col: 9, offset: 90168},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2848, col: 9, offset: 90141},
+																			pos: position{line: 2849, col: 9, offset: 90168},
 																			run: (*parser).callonRelativeLink140,
 																			expr: &seqExpr{
-																				pos: position{line: 2848, col: 9, offset: 90141},
+																				pos: position{line: 2849, col: 9, offset: 90168},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2848, col: 9, offset: 90141},
+																						pos: position{line: 2849, col: 9, offset: 90168},
 																						expr: &litMatcher{
-																							pos:        position{line: 2848, col: 10, offset: 90142},
+																							pos:        position{line: 2849, col: 10, offset: 90169},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2849, col: 9, offset: 90170},
+																						pos: position{line: 2850, col: 9, offset: 90197},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2849, col: 10, offset: 90171},
+																							pos:        position{line: 2850, col: 10, offset: 90198},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22872,27 +23090,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2852, col: 11, offset: 90383},
+																			pos: position{line: 2853, col: 11, offset: 90410},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2852, col: 11, offset: 90383},
+																					pos:        position{line: 2853, col: 11, offset: 90410},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2852, col: 19, offset: 90391},
+																					pos: position{line: 2853, col: 19, offset: 90418},
 																					expr: &seqExpr{
-																						pos: position{line: 2852, col: 21, offset: 90393},
+																						pos: position{line: 2853, col: 21, offset: 90420},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2852, col: 21, offset: 90393},
+																								pos: position{line: 2853, col: 21, offset: 90420},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 91005},
+																									pos: position{line: 2877, col: 10, offset: 91032},
 																									run: (*parser).callonRelativeLink151,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 91005},
+																										pos:        position{line: 2877, col: 10, offset: 91032},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22901,11 +23119,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2852, col: 28, offset: 90400},
+																								pos: position{line: 2853, col: 28, offset: 90427},
 																								expr: &notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91353},
+																									pos: position{line: 2896, col: 8, offset: 91380},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91354,
+																										line: 2896, col: 9, offset: 91381,
 																									},
 																								},
 																							},
@@ -22915,35 +23133,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 635, col: 5, offset: 20116},
+																			pos: position{line: 636, col: 5, offset: 20143},
 																			run: (*parser).callonRelativeLink156,
 																			expr: &seqExpr{
-																				pos: position{line: 635, col: 5, offset: 20116},
+																				pos: position{line: 636, col: 5, offset: 20143},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 635, col: 5, offset: 20116},
+																						pos: position{line: 636, col: 5, offset: 20143},
 																						run: (*parser).callonRelativeLink158,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 638, col: 5, offset: 20188},
+																						pos:   position{line: 639, col: 5, offset: 20215},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 638, col: 14, offset: 20197},
+																							pos: position{line: 639, col: 14, offset: 20224},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 644, col: 5, offset: 20326},
+																									pos: position{line: 645, col: 5, offset: 20353},
 																									run: (*parser).callonRelativeLink161,
 																									expr: &seqExpr{
-																										pos: position{line: 644, col: 5, offset: 20326},
+																										pos: position{line: 645, col: 5, offset: 20353},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 644, col: 5, offset: 20326},
+																												pos:        position{line: 645, col: 5, offset: 20353},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 644, col: 13, offset: 20334},
+																												pos:   position{line: 645, col: 13, offset: 20361},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 317, col: 18, offset: 9667},
@@ -22975,7 +23193,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 644, col: 32, offset: 20353},
+																												pos:        position{line: 645, col: 32, offset: 20380},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22984,19 +23202,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 651, col: 5, offset: 20594},
+																									pos: position{line: 652, col: 5, offset: 20621},
 																									run: (*parser).callonRelativeLink171,
 																									expr: &seqExpr{
-																										pos: position{line: 651, col: 5, offset: 20594},
+																										pos: position{line: 652, col: 5, offset: 20621},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 651, col: 5, offset: 20594},
+																												pos:        position{line: 652, col: 5, offset: 20621},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 651, col: 9, offset: 20598},
+																												pos:   position{line: 652, col: 9, offset: 20625},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 317, col: 18, offset: 9667},
@@ -23028,7 +23246,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 651, col: 28, offset: 20617},
+																												pos:        position{line: 652, col: 28, offset: 20644},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23037,19 +23255,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 657, col: 25, offset: 20798},
+																									pos: position{line: 658, col: 25, offset: 20825},
 																									run: (*parser).callonRelativeLink181,
 																									expr: &seqExpr{
-																										pos: position{line: 657, col: 25, offset: 20798},
+																										pos: position{line: 658, col: 25, offset: 20825},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 657, col: 25, offset: 20798},
+																												pos:        position{line: 658, col: 25, offset: 20825},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 657, col: 37, offset: 20810},
+																												pos:   position{line: 658, col: 37, offset: 20837},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 317, col: 18, offset: 9667},
@@ -23081,33 +23299,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 657, col: 56, offset: 20829},
+																												pos:   position{line: 658, col: 56, offset: 20856},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 657, col: 62, offset: 20835},
+																													pos: position{line: 658, col: 62, offset: 20862},
 																													expr: &actionExpr{
-																														pos: position{line: 665, col: 17, offset: 21132},
+																														pos: position{line: 666, col: 17, offset: 21159},
 																														run: (*parser).callonRelativeLink192,
 																														expr: &seqExpr{
-																															pos: position{line: 665, col: 17, offset: 21132},
+																															pos: position{line: 666, col: 17, offset: 21159},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 665, col: 17, offset: 21132},
+																																	pos:        position{line: 666, col: 17, offset: 21159},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 665, col: 21, offset: 21136},
+																																	pos:   position{line: 666, col: 21, offset: 21163},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 665, col: 28, offset: 21143},
+																																		pos: position{line: 666, col: 28, offset: 21170},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 665, col: 28, offset: 21143},
+																																				pos: position{line: 666, col: 28, offset: 21170},
 																																				run: (*parser).callonRelativeLink197,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 665, col: 28, offset: 21143},
+																																					pos:        position{line: 666, col: 28, offset: 21170},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23115,12 +23333,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 667, col: 9, offset: 21197},
+																																				pos: position{line: 668, col: 9, offset: 21224},
 																																				run: (*parser).callonRelativeLink199,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 667, col: 9, offset: 21197},
+																																					pos: position{line: 668, col: 9, offset: 21224},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 667, col: 9, offset: 21197},
+																																						pos:        position{line: 668, col: 9, offset: 21224},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23137,7 +23355,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 657, col: 78, offset: 20851},
+																												pos:        position{line: 658, col: 78, offset: 20878},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23146,19 +23364,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 661, col: 25, offset: 20969},
+																									pos: position{line: 662, col: 25, offset: 20996},
 																									run: (*parser).callonRelativeLink203,
 																									expr: &seqExpr{
-																										pos: position{line: 661, col: 25, offset: 20969},
+																										pos: position{line: 662, col: 25, offset: 20996},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 661, col: 25, offset: 20969},
+																												pos:        position{line: 662, col: 25, offset: 20996},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 661, col: 38, offset: 20982},
+																												pos:   position{line: 662, col: 38, offset: 21009},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 317, col: 18, offset: 9667},
@@ -23190,33 +23408,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 661, col: 57, offset: 21001},
+																												pos:   position{line: 662, col: 57, offset: 21028},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 661, col: 63, offset: 21007},
+																													pos: position{line: 662, col: 63, offset: 21034},
 																													expr: &actionExpr{
-																														pos: position{line: 665, col: 17, offset: 21132},
+																														pos: position{line: 666, col: 17, offset: 21159},
 																														run: (*parser).callonRelativeLink214,
 																														expr: &seqExpr{
-																															pos: position{line: 665, col: 17, offset: 21132},
+																															pos: position{line: 666, col: 17, offset: 21159},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 665, col: 17, offset: 21132},
+																																	pos:        position{line: 666, col: 17, offset: 21159},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 665, col: 21, offset: 21136},
+																																	pos:   position{line: 666, col: 21, offset: 21163},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 665, col: 28, offset: 21143},
+																																		pos: position{line: 666, col: 28, offset: 21170},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 665, col: 28, offset: 21143},
+																																				pos: position{line: 666, col: 28, offset: 21170},
 																																				run: (*parser).callonRelativeLink219,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 665, col: 28, offset: 21143},
+																																					pos:        position{line: 666, col: 28, offset: 21170},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23224,12 +23442,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 667, col: 9, offset: 21197},
+																																				pos: position{line: 668, col: 9, offset: 21224},
 																																				run: (*parser).callonRelativeLink221,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 667, col: 9, offset: 21197},
+																																					pos: position{line: 668, col: 9, offset: 21224},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 667, col: 9, offset: 21197},
+																																						pos:        position{line: 668, col: 9, offset: 21224},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23246,7 +23464,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 661, col: 79, offset: 21023},
+																												pos:        position{line: 662, col: 79, offset: 21050},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23261,27 +23479,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1197, col: 23, offset: 36986},
+																			pos: position{line: 1198, col: 23, offset: 37013},
 																			run: (*parser).callonRelativeLink225,
 																			expr: &seqExpr{
-																				pos: position{line: 1197, col: 23, offset: 36986},
+																				pos: position{line: 1198, col: 23, offset: 37013},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1195, col: 32, offset: 36954},
+																						pos:        position{line: 1196, col: 32, offset: 36981},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1197, col: 51, offset: 37014},
+																						pos:   position{line: 1198, col: 51, offset: 37041},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1197, col: 56, offset: 37019},
+																							pos: position{line: 1198, col: 56, offset: 37046},
 																							run: (*parser).callonRelativeLink229,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1197, col: 56, offset: 37019},
+																								pos: position{line: 1198, col: 56, offset: 37046},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1197, col: 56, offset: 37019},
+																									pos:        position{line: 1198, col: 56, offset: 37046},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -23291,23 +23509,23 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1195, col: 32, offset: 36954},
+																						pos:        position{line: 1196, col: 32, offset: 36981},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1198, col: 5, offset: 37091},
+																						pos: position{line: 1199, col: 5, offset: 37118},
 																						run: (*parser).callonRelativeLink233,
 																					},
 																				},
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2855, col: 11, offset: 90520},
+																			pos: position{line: 2856, col: 11, offset: 90547},
 																			run: (*parser).callonRelativeLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2855, col: 11, offset: 90520},
+																				pos:        position{line: 2856, col: 11, offset: 90547},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23324,10 +23542,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1437, col: 28, offset: 46297},
+									pos:   position{line: 1438, col: 28, offset: 46324},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1437, col: 40, offset: 46309},
+										pos:  position{line: 1438, col: 40, offset: 46336},
 										name: "InlineAttributes",
 									},
 								},
@@ -23339,75 +23557,75 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalLink",
-			pos:  position{line: 1441, col: 1, offset: 46425},
+			pos:  position{line: 1442, col: 1, offset: 46452},
 			expr: &choiceExpr{
-				pos: position{line: 1444, col: 5, offset: 46587},
+				pos: position{line: 1445, col: 5, offset: 46614},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1444, col: 5, offset: 46587},
+						pos: position{line: 1445, col: 5, offset: 46614},
 						run: (*parser).callonExternalLink2,
 						expr: &seqExpr{
-							pos: position{line: 1444, col: 5, offset: 46587},
+							pos: position{line: 1445, col: 5, offset: 46614},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1444, col: 5, offset: 46587},
+									pos:        position{line: 1445, col: 5, offset: 46614},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1444, col: 9, offset: 46591},
+									pos:   position{line: 1445, col: 9, offset: 46618},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2838, col: 23, offset: 89891},
+										pos: position{line: 2839, col: 23, offset: 89918},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2838, col: 23, offset: 89891},
+											pos: position{line: 2839, col: 23, offset: 89918},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2838, col: 23, offset: 89891},
+													pos: position{line: 2839, col: 23, offset: 89918},
 													expr: &litMatcher{
-														pos:        position{line: 2838, col: 24, offset: 89892},
+														pos:        position{line: 2839, col: 24, offset: 89919},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2838, col: 28, offset: 89896},
+													pos:   position{line: 2839, col: 28, offset: 89923},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2842, col: 11, offset: 90010},
+														pos: position{line: 2843, col: 11, offset: 90037},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2842, col: 12, offset: 90011},
+															pos: position{line: 2843, col: 12, offset: 90038},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2842, col: 12, offset: 90011},
+																	pos:        position{line: 2843, col: 12, offset: 90038},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2842, col: 24, offset: 90023},
+																	pos:        position{line: 2843, col: 24, offset: 90050},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2842, col: 37, offset: 90036},
+																	pos:        position{line: 2843, col: 37, offset: 90063},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2842, col: 48, offset: 90047},
+																	pos:        position{line: 2843, col: 48, offset: 90074},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2842, col: 59, offset: 90058},
+																	pos:        position{line: 2843, col: 59, offset: 90085},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23417,38 +23635,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2838, col: 44, offset: 89912},
+													pos:   position{line: 2839, col: 44, offset: 89939},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2847, col: 5, offset: 90122},
+														pos: position{line: 2848, col: 5, offset: 90149},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2847, col: 5, offset: 90122},
+															pos:   position{line: 2848, col: 5, offset: 90149},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2847, col: 14, offset: 90131},
+																pos: position{line: 2848, col: 14, offset: 90158},
 																expr: &choiceExpr{
-																	pos: position{line: 2848, col: 9, offset: 90141},
+																	pos: position{line: 2849, col: 9, offset: 90168},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2848, col: 9, offset: 90141},
+																			pos: position{line: 2849, col: 9, offset: 90168},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2848, col: 9, offset: 90141},
+																				pos: position{line: 2849, col: 9, offset: 90168},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2848, col: 9, offset: 90141},
+																						pos: position{line: 2849, col: 9, offset: 90168},
 																						expr: &litMatcher{
-																							pos:        position{line: 2848, col: 10, offset: 90142},
+																							pos:        position{line: 2849, col: 10, offset: 90169},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2849, col: 9, offset: 90170},
+																						pos: position{line: 2850, col: 9, offset: 90197},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2849, col: 10, offset: 90171},
+																							pos:        position{line: 2850, col: 10, offset: 90198},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23459,27 +23677,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2852, col: 11, offset: 90383},
+																			pos: position{line: 2853, col: 11, offset: 90410},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2852, col: 11, offset: 90383},
+																					pos:        position{line: 2853, col: 11, offset: 90410},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2852, col: 19, offset: 90391},
+																					pos: position{line: 2853, col: 19, offset: 90418},
 																					expr: &seqExpr{
-																						pos: position{line: 2852, col: 21, offset: 90393},
+																						pos: position{line: 2853, col: 21, offset: 90420},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2852, col: 21, offset: 90393},
+																								pos: position{line: 2853, col: 21, offset: 90420},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 91005},
+																									pos: position{line: 2877, col: 10, offset: 91032},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 91005},
+																										pos:        position{line: 2877, col: 10, offset: 91032},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23488,11 +23706,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2852, col: 28, offset: 90400},
+																								pos: position{line: 2853, col: 28, offset: 90427},
 																								expr: &notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91353},
+																									pos: position{line: 2896, col: 8, offset: 91380},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91354,
+																										line: 2896, col: 9, offset: 91381,
 																									},
 																								},
 																							},
@@ -23502,35 +23720,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 635, col: 5, offset: 20116},
+																			pos: position{line: 636, col: 5, offset: 20143},
 																			run: (*parser).callonExternalLink39,
 																			expr: &seqExpr{
-																				pos: position{line: 635, col: 5, offset: 20116},
+																				pos: position{line: 636, col: 5, offset: 20143},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 635, col: 5, offset: 20116},
+																						pos: position{line: 636, col: 5, offset: 20143},
 																						run: (*parser).callonExternalLink41,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 638, col: 5, offset: 20188},
+																						pos:   position{line: 639, col: 5, offset: 20215},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 638, col: 14, offset: 20197},
+																							pos: position{line: 639, col: 14, offset: 20224},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 644, col: 5, offset: 20326},
+																									pos: position{line: 645, col: 5, offset: 20353},
 																									run: (*parser).callonExternalLink44,
 																									expr: &seqExpr{
-																										pos: position{line: 644, col: 5, offset: 20326},
+																										pos: position{line: 645, col: 5, offset: 20353},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 644, col: 5, offset: 20326},
+																												pos:        position{line: 645, col: 5, offset: 20353},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 644, col: 13, offset: 20334},
+																												pos:   position{line: 645, col: 13, offset: 20361},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 317, col: 18, offset: 9667},
@@ -23562,7 +23780,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 644, col: 32, offset: 20353},
+																												pos:        position{line: 645, col: 32, offset: 20380},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23571,19 +23789,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 651, col: 5, offset: 20594},
+																									pos: position{line: 652, col: 5, offset: 20621},
 																									run: (*parser).callonExternalLink54,
 																									expr: &seqExpr{
-																										pos: position{line: 651, col: 5, offset: 20594},
+																										pos: position{line: 652, col: 5, offset: 20621},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 651, col: 5, offset: 20594},
+																												pos:        position{line: 652, col: 5, offset: 20621},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 651, col: 9, offset: 20598},
+																												pos:   position{line: 652, col: 9, offset: 20625},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 317, col: 18, offset: 9667},
@@ -23615,7 +23833,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 651, col: 28, offset: 20617},
+																												pos:        position{line: 652, col: 28, offset: 20644},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23624,19 +23842,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 657, col: 25, offset: 20798},
+																									pos: position{line: 658, col: 25, offset: 20825},
 																									run: (*parser).callonExternalLink64,
 																									expr: &seqExpr{
-																										pos: position{line: 657, col: 25, offset: 20798},
+																										pos: position{line: 658, col: 25, offset: 20825},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 657, col: 25, offset: 20798},
+																												pos:        position{line: 658, col: 25, offset: 20825},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 657, col: 37, offset: 20810},
+																												pos:   position{line: 658, col: 37, offset: 20837},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 317, col: 18, offset: 9667},
@@ -23668,33 +23886,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 657, col: 56, offset: 20829},
+																												pos:   position{line: 658, col: 56, offset: 20856},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 657, col: 62, offset: 20835},
+																													pos: position{line: 658, col: 62, offset: 20862},
 																													expr: &actionExpr{
-																														pos: position{line: 665, col: 17, offset: 21132},
+																														pos: position{line: 666, col: 17, offset: 21159},
 																														run: (*parser).callonExternalLink75,
 																														expr: &seqExpr{
-																															pos: position{line: 665, col: 17, offset: 21132},
+																															pos: position{line: 666, col: 17, offset: 21159},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 665, col: 17, offset: 21132},
+																																	pos:        position{line: 666, col: 17, offset: 21159},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 665, col: 21, offset: 21136},
+																																	pos:   position{line: 666, col: 21, offset: 21163},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 665, col: 28, offset: 21143},
+																																		pos: position{line: 666, col: 28, offset: 21170},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 665, col: 28, offset: 21143},
+																																				pos: position{line: 666, col: 28, offset: 21170},
 																																				run: (*parser).callonExternalLink80,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 665, col: 28, offset: 21143},
+																																					pos:        position{line: 666, col: 28, offset: 21170},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23702,12 +23920,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 667, col: 9, offset: 21197},
+																																				pos: position{line: 668, col: 9, offset: 21224},
 																																				run: (*parser).callonExternalLink82,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 667, col: 9, offset: 21197},
+																																					pos: position{line: 668, col: 9, offset: 21224},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 667, col: 9, offset: 21197},
+																																						pos:        position{line: 668, col: 9, offset: 21224},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23724,7 +23942,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 657, col: 78, offset: 20851},
+																												pos:        position{line: 658, col: 78, offset: 20878},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23733,19 +23951,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 661, col: 25, offset: 20969},
+																									pos: position{line: 662, col: 25, offset: 20996},
 																									run: (*parser).callonExternalLink86,
 																									expr: &seqExpr{
-																										pos: position{line: 661, col: 25, offset: 20969},
+																										pos: position{line: 662, col: 25, offset: 20996},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 661, col: 25, offset: 20969},
+																												pos:        position{line: 662, col: 25, offset: 20996},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 661, col: 38, offset: 20982},
+																												pos:   position{line: 662, col: 38, offset: 21009},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 317, col: 18, offset: 9667},
@@ -23777,33 +23995,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 661, col: 57, offset: 21001},
+																												pos:   position{line: 662, col: 57, offset: 21028},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 661, col: 63, offset: 21007},
+																													pos: position{line: 662, col: 63, offset: 21034},
 																													expr: &actionExpr{
-																														pos: position{line: 665, col: 17, offset: 21132},
+																														pos: position{line: 666, col: 17, offset: 21159},
 																														run: (*parser).callonExternalLink97,
 																														expr: &seqExpr{
-																															pos: position{line: 665, col: 17, offset: 21132},
+																															pos: position{line: 666, col: 17, offset: 21159},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 665, col: 17, offset: 21132},
+																																	pos:        position{line: 666, col: 17, offset: 21159},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 665, col: 21, offset: 21136},
+																																	pos:   position{line: 666, col: 21, offset: 21163},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 665, col: 28, offset: 21143},
+																																		pos: position{line: 666, col: 28, offset: 21170},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 665, col: 28, offset: 21143},
+																																				pos: position{line: 666, col: 28, offset: 21170},
 																																				run: (*parser).callonExternalLink102,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 665, col: 28, offset: 21143},
+																																					pos:        position{line: 666, col: 28, offset: 21170},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23811,12 +24029,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 667, col: 9, offset: 21197},
+																																				pos: position{line: 668, col: 9, offset: 21224},
 																																				run: (*parser).callonExternalLink104,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 667, col: 9, offset: 21197},
+																																					pos: position{line: 668, col: 9, offset: 21224},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 667, col: 9, offset: 21197},
+																																						pos:        position{line: 668, col: 9, offset: 21224},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23833,7 +24051,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 661, col: 79, offset: 21023},
+																												pos:        position{line: 662, col: 79, offset: 21050},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23848,27 +24066,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1197, col: 23, offset: 36986},
+																			pos: position{line: 1198, col: 23, offset: 37013},
 																			run: (*parser).callonExternalLink108,
 																			expr: &seqExpr{
-																				pos: position{line: 1197, col: 23, offset: 36986},
+																				pos: position{line: 1198, col: 23, offset: 37013},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1195, col: 32, offset: 36954},
+																						pos:        position{line: 1196, col: 32, offset: 36981},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1197, col: 51, offset: 37014},
+																						pos:   position{line: 1198, col: 51, offset: 37041},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1197, col: 56, offset: 37019},
+																							pos: position{line: 1198, col: 56, offset: 37046},
 																							run: (*parser).callonExternalLink112,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1197, col: 56, offset: 37019},
+																								pos: position{line: 1198, col: 56, offset: 37046},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1197, col: 56, offset: 37019},
+																									pos:        position{line: 1198, col: 56, offset: 37046},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -23878,23 +24096,23 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1195, col: 32, offset: 36954},
+																						pos:        position{line: 1196, col: 32, offset: 36981},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1198, col: 5, offset: 37091},
+																						pos: position{line: 1199, col: 5, offset: 37118},
 																						run: (*parser).callonExternalLink116,
 																					},
 																				},
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2855, col: 11, offset: 90520},
+																			pos: position{line: 2856, col: 11, offset: 90547},
 																			run: (*parser).callonExternalLink117,
 																			expr: &litMatcher{
-																				pos:        position{line: 2855, col: 11, offset: 90520},
+																				pos:        position{line: 2856, col: 11, offset: 90547},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23911,12 +24129,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1444, col: 34, offset: 46616},
+									pos:   position{line: 1445, col: 34, offset: 46643},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1444, col: 45, offset: 46627},
+										pos: position{line: 1445, col: 45, offset: 46654},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1444, col: 46, offset: 46628},
+											pos:  position{line: 1445, col: 46, offset: 46655},
 											name: "InlineAttributes",
 										},
 									},
@@ -23925,64 +24143,64 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1449, col: 5, offset: 46761},
+						pos: position{line: 1450, col: 5, offset: 46788},
 						run: (*parser).callonExternalLink122,
 						expr: &seqExpr{
-							pos: position{line: 1449, col: 5, offset: 46761},
+							pos: position{line: 1450, col: 5, offset: 46788},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1449, col: 5, offset: 46761},
+									pos:   position{line: 1450, col: 5, offset: 46788},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2838, col: 23, offset: 89891},
+										pos: position{line: 2839, col: 23, offset: 89918},
 										run: (*parser).callonExternalLink125,
 										expr: &seqExpr{
-											pos: position{line: 2838, col: 23, offset: 89891},
+											pos: position{line: 2839, col: 23, offset: 89918},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2838, col: 23, offset: 89891},
+													pos: position{line: 2839, col: 23, offset: 89918},
 													expr: &litMatcher{
-														pos:        position{line: 2838, col: 24, offset: 89892},
+														pos:        position{line: 2839, col: 24, offset: 89919},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2838, col: 28, offset: 89896},
+													pos:   position{line: 2839, col: 28, offset: 89923},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2842, col: 11, offset: 90010},
+														pos: position{line: 2843, col: 11, offset: 90037},
 														run: (*parser).callonExternalLink130,
 														expr: &choiceExpr{
-															pos: position{line: 2842, col: 12, offset: 90011},
+															pos: position{line: 2843, col: 12, offset: 90038},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2842, col: 12, offset: 90011},
+																	pos:        position{line: 2843, col: 12, offset: 90038},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2842, col: 24, offset: 90023},
+																	pos:        position{line: 2843, col: 24, offset: 90050},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2842, col: 37, offset: 90036},
+																	pos:        position{line: 2843, col: 37, offset: 90063},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2842, col: 48, offset: 90047},
+																	pos:        position{line: 2843, col: 48, offset: 90074},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2842, col: 59, offset: 90058},
+																	pos:        position{line: 2843, col: 59, offset: 90085},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23992,38 +24210,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2838, col: 44, offset: 89912},
+													pos:   position{line: 2839, col: 44, offset: 89939},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2847, col: 5, offset: 90122},
+														pos: position{line: 2848, col: 5, offset: 90149},
 														run: (*parser).callonExternalLink138,
 														expr: &labeledExpr{
-															pos:   position{line: 2847, col: 5, offset: 90122},
+															pos:   position{line: 2848, col: 5, offset: 90149},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2847, col: 14, offset: 90131},
+																pos: position{line: 2848, col: 14, offset: 90158},
 																expr: &choiceExpr{
-																	pos: position{line: 2848, col: 9, offset: 90141},
+																	pos: position{line: 2849, col: 9, offset: 90168},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2848, col: 9, offset: 90141},
+																			pos: position{line: 2849, col: 9, offset: 90168},
 																			run: (*parser).callonExternalLink142,
 																			expr: &seqExpr{
-																				pos: position{line: 2848, col: 9, offset: 90141},
+																				pos: position{line: 2849, col: 9, offset: 90168},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2848, col: 9, offset: 90141},
+																						pos: position{line: 2849, col: 9, offset: 90168},
 																						expr: &litMatcher{
-																							pos:        position{line: 2848, col: 10, offset: 90142},
+																							pos:        position{line: 2849, col: 10, offset: 90169},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2849, col: 9, offset: 90170},
+																						pos: position{line: 2850, col: 9, offset: 90197},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2849, col: 10, offset: 90171},
+																							pos:        position{line: 2850, col: 10, offset: 90198},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24034,27 +24252,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2852, col: 11, offset: 90383},
+																			pos: position{line: 2853, col: 11, offset: 90410},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2852, col: 11, offset: 90383},
+																					pos:        position{line: 2853, col: 11, offset: 90410},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2852, col: 19, offset: 90391},
+																					pos: position{line: 2853, col: 19, offset: 90418},
 																					expr: &seqExpr{
-																						pos: position{line: 2852, col: 21, offset: 90393},
+																						pos: position{line: 2853, col: 21, offset: 90420},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2852, col: 21, offset: 90393},
+																								pos: position{line: 2853, col: 21, offset: 90420},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 91005},
+																									pos: position{line: 2877, col: 10, offset: 91032},
 																									run: (*parser).callonExternalLink153,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 91005},
+																										pos:        position{line: 2877, col: 10, offset: 91032},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24063,11 +24281,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2852, col: 28, offset: 90400},
+																								pos: position{line: 2853, col: 28, offset: 90427},
 																								expr: &notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91353},
+																									pos: position{line: 2896, col: 8, offset: 91380},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91354,
+																										line: 2896, col: 9, offset: 91381,
 																									},
 																								},
 																							},
@@ -24077,35 +24295,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 635, col: 5, offset: 20116},
+																			pos: position{line: 636, col: 5, offset: 20143},
 																			run: (*parser).callonExternalLink158,
 																			expr: &seqExpr{
-																				pos: position{line: 635, col: 5, offset: 20116},
+																				pos: position{line: 636, col: 5, offset: 20143},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 635, col: 5, offset: 20116},
+																						pos: position{line: 636, col: 5, offset: 20143},
 																						run: (*parser).callonExternalLink160,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 638, col: 5, offset: 20188},
+																						pos:   position{line: 639, col: 5, offset: 20215},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 638, col: 14, offset: 20197},
+																							pos: position{line: 639, col: 14, offset: 20224},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 644, col: 5, offset: 20326},
+																									pos: position{line: 645, col: 5, offset: 20353},
 																									run: (*parser).callonExternalLink163,
 																									expr: &seqExpr{
-																										pos: position{line: 644, col: 5, offset: 20326},
+																										pos: position{line: 645, col: 5, offset: 20353},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 644, col: 5, offset: 20326},
+																												pos:        position{line: 645, col: 5, offset: 20353},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 644, col: 13, offset: 20334},
+																												pos:   position{line: 645, col: 13, offset: 20361},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 317, col: 18, offset: 9667},
@@ -24137,7 +24355,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 644, col: 32, offset: 20353},
+																												pos:        position{line: 645, col: 32, offset: 20380},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24146,19 +24364,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 651, col: 5, offset: 20594},
+																									pos: position{line: 652, col: 5, offset: 20621},
 																									run: (*parser).callonExternalLink173,
 																									expr: &seqExpr{
-																										pos: position{line: 651, col: 5, offset: 20594},
+																										pos: position{line: 652, col: 5, offset: 20621},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 651, col: 5, offset: 20594},
+																												pos:        position{line: 652, col: 5, offset: 20621},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 651, col: 9, offset: 20598},
+																												pos:   position{line: 652, col: 9, offset: 20625},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 317, col: 18, offset: 9667},
@@ -24190,7 +24408,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 651, col: 28, offset: 20617},
+																												pos:        position{line: 652, col: 28, offset: 20644},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24199,19 +24417,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 657, col: 25, offset: 20798},
+																									pos: position{line: 658, col: 25, offset: 20825},
 																									run: (*parser).callonExternalLink183,
 																									expr: &seqExpr{
-																										pos: position{line: 657, col: 25, offset: 20798},
+																										pos: position{line: 658, col: 25, offset: 20825},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 657, col: 25, offset: 20798},
+																												pos:        position{line: 658, col: 25, offset: 20825},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 657, col: 37, offset: 20810},
+																												pos:   position{line: 658, col: 37, offset: 20837},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 317, col: 18, offset: 9667},
@@ -24243,33 +24461,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 657, col: 56, offset: 20829},
+																												pos:   position{line: 658, col: 56, offset: 20856},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 657, col: 62, offset: 20835},
+																													pos: position{line: 658, col: 62, offset: 20862},
 																													expr: &actionExpr{
-																														pos: position{line: 665, col: 17, offset: 21132},
+																														pos: position{line: 666, col: 17, offset: 21159},
 																														run: (*parser).callonExternalLink194,
 																														expr: &seqExpr{
-																															pos: position{line: 665, col: 17, offset: 21132},
+																															pos: position{line: 666, col: 17, offset: 21159},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 665, col: 17, offset: 21132},
+																																	pos:        position{line: 666, col: 17, offset: 21159},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 665, col: 21, offset: 21136},
+																																	pos:   position{line: 666, col: 21, offset: 21163},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 665, col: 28, offset: 21143},
+																																		pos: position{line: 666, col: 28, offset: 21170},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 665, col: 28, offset: 21143},
+																																				pos: position{line: 666, col: 28, offset: 21170},
 																																				run: (*parser).callonExternalLink199,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 665, col: 28, offset: 21143},
+																																					pos:        position{line: 666, col: 28, offset: 21170},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24277,12 +24495,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 667, col: 9, offset: 21197},
+																																				pos: position{line: 668, col: 9, offset: 21224},
 																																				run: (*parser).callonExternalLink201,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 667, col: 9, offset: 21197},
+																																					pos: position{line: 668, col: 9, offset: 21224},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 667, col: 9, offset: 21197},
+																																						pos:        position{line: 668, col: 9, offset: 21224},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24299,7 +24517,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 657, col: 78, offset: 20851},
+																												pos:        position{line: 658, col: 78, offset: 20878},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24308,19 +24526,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 661, col: 25, offset: 20969},
+																									pos: position{line: 662, col: 25, offset: 20996},
 																									run: (*parser).callonExternalLink205,
 																									expr: &seqExpr{
-																										pos: position{line: 661, col: 25, offset: 20969},
+																										pos: position{line: 662, col: 25, offset: 20996},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 661, col: 25, offset: 20969},
+																												pos:        position{line: 662, col: 25, offset: 20996},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 661, col: 38, offset: 20982},
+																												pos:   position{line: 662, col: 38, offset: 21009},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 317, col: 18, offset: 9667},
@@ -24352,33 +24570,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 661, col: 57, offset: 21001},
+																												pos:   position{line: 662, col: 57, offset: 21028},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 661, col: 63, offset: 21007},
+																													pos: position{line: 662, col: 63, offset: 21034},
 																													expr: &actionExpr{
-																														pos: position{line: 665, col: 17, offset: 21132},
+																														pos: position{line: 666, col: 17, offset: 21159},
 																														run: (*parser).callonExternalLink216,
 																														expr: &seqExpr{
-																															pos: position{line: 665, col: 17, offset: 21132},
+																															pos: position{line: 666, col: 17, offset: 21159},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 665, col: 17, offset: 21132},
+																																	pos:        position{line: 666, col: 17, offset: 21159},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 665, col: 21, offset: 21136},
+																																	pos:   position{line: 666, col: 21, offset: 21163},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 665, col: 28, offset: 21143},
+																																		pos: position{line: 666, col: 28, offset: 21170},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 665, col: 28, offset: 21143},
+																																				pos: position{line: 666, col: 28, offset: 21170},
 																																				run: (*parser).callonExternalLink221,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 665, col: 28, offset: 21143},
+																																					pos:        position{line: 666, col: 28, offset: 21170},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24386,12 +24604,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 667, col: 9, offset: 21197},
+																																				pos: position{line: 668, col: 9, offset: 21224},
 																																				run: (*parser).callonExternalLink223,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 667, col: 9, offset: 21197},
+																																					pos: position{line: 668, col: 9, offset: 21224},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 667, col: 9, offset: 21197},
+																																						pos:        position{line: 668, col: 9, offset: 21224},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24408,7 +24626,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 661, col: 79, offset: 21023},
+																												pos:        position{line: 662, col: 79, offset: 21050},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24423,27 +24641,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1197, col: 23, offset: 36986},
+																			pos: position{line: 1198, col: 23, offset: 37013},
 																			run: (*parser).callonExternalLink227,
 																			expr: &seqExpr{
-																				pos: position{line: 1197, col: 23, offset: 36986},
+																				pos: position{line: 1198, col: 23, offset: 37013},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1195, col: 32, offset: 36954},
+																						pos:        position{line: 1196, col: 32, offset: 36981},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1197, col: 51, offset: 37014},
+																						pos:   position{line: 1198, col: 51, offset: 37041},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1197, col: 56, offset: 37019},
+																							pos: position{line: 1198, col: 56, offset: 37046},
 																							run: (*parser).callonExternalLink231,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1197, col: 56, offset: 37019},
+																								pos: position{line: 1198, col: 56, offset: 37046},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1197, col: 56, offset: 37019},
+																									pos:        position{line: 1198, col: 56, offset: 37046},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -24453,23 +24671,23 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1195, col: 32, offset: 36954},
+																						pos:        position{line: 1196, col: 32, offset: 36981},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1198, col: 5, offset: 37091},
+																						pos: position{line: 1199, col: 5, offset: 37118},
 																						run: (*parser).callonExternalLink235,
 																					},
 																				},
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2855, col: 11, offset: 90520},
+																			pos: position{line: 2856, col: 11, offset: 90547},
 																			run: (*parser).callonExternalLink236,
 																			expr: &litMatcher{
-																				pos:        position{line: 2855, col: 11, offset: 90520},
+																				pos:        position{line: 2856, col: 11, offset: 90547},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24486,12 +24704,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1449, col: 30, offset: 46786},
+									pos:   position{line: 1450, col: 30, offset: 46813},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1449, col: 41, offset: 46797},
+										pos: position{line: 1450, col: 41, offset: 46824},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1449, col: 42, offset: 46798},
+											pos:  position{line: 1450, col: 42, offset: 46825},
 											name: "InlineAttributes",
 										},
 									},
@@ -24504,41 +24722,41 @@ var g = &grammar{
 		},
 		{
 			name: "ListElements",
-			pos:  position{line: 1480, col: 1, offset: 47928},
+			pos:  position{line: 1481, col: 1, offset: 47955},
 			expr: &actionExpr{
-				pos: position{line: 1481, col: 5, offset: 47949},
+				pos: position{line: 1482, col: 5, offset: 47976},
 				run: (*parser).callonListElements1,
 				expr: &seqExpr{
-					pos: position{line: 1481, col: 5, offset: 47949},
+					pos: position{line: 1482, col: 5, offset: 47976},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1481, col: 5, offset: 47949},
+							pos:   position{line: 1482, col: 5, offset: 47976},
 							label: "firstElement",
 							expr: &choiceExpr{
-								pos: position{line: 1487, col: 5, offset: 48151},
+								pos: position{line: 1488, col: 5, offset: 48178},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1580, col: 5, offset: 51085},
+										pos: position{line: 1581, col: 5, offset: 51112},
 										run: (*parser).callonListElements5,
 										expr: &seqExpr{
-											pos: position{line: 1580, col: 5, offset: 51085},
+											pos: position{line: 1581, col: 5, offset: 51112},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1580, col: 5, offset: 51085},
+													pos:   position{line: 1581, col: 5, offset: 51112},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1587, col: 5, offset: 51293},
+														pos: position{line: 1588, col: 5, offset: 51320},
 														run: (*parser).callonListElements8,
 														expr: &seqExpr{
-															pos: position{line: 1587, col: 5, offset: 51293},
+															pos: position{line: 1588, col: 5, offset: 51320},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1587, col: 5, offset: 51293},
+																	pos: position{line: 1588, col: 5, offset: 51320},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 91005},
+																		pos: position{line: 2877, col: 10, offset: 91032},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 91005},
+																			pos:        position{line: 2877, col: 10, offset: 91032},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24547,27 +24765,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1587, col: 12, offset: 51300},
+																	pos:   position{line: 1588, col: 12, offset: 51327},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1589, col: 9, offset: 51363},
+																		pos: position{line: 1590, col: 9, offset: 51390},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1589, col: 9, offset: 51363},
+																				pos: position{line: 1590, col: 9, offset: 51390},
 																				run: (*parser).callonListElements15,
 																				expr: &seqExpr{
-																					pos: position{line: 1589, col: 9, offset: 51363},
+																					pos: position{line: 1590, col: 9, offset: 51390},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1589, col: 9, offset: 51363},
+																							pos:   position{line: 1590, col: 9, offset: 51390},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1589, col: 16, offset: 51370},
+																								pos: position{line: 1590, col: 16, offset: 51397},
 																								run: (*parser).callonListElements18,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1589, col: 16, offset: 51370},
+																									pos: position{line: 1590, col: 16, offset: 51397},
 																									expr: &litMatcher{
-																										pos:        position{line: 1589, col: 17, offset: 51371},
+																										pos:        position{line: 1590, col: 17, offset: 51398},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -24576,22 +24794,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1593, col: 9, offset: 51471},
+																							pos: position{line: 1594, col: 9, offset: 51498},
 																							run: (*parser).callonListElements21,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1612, col: 11, offset: 52188},
+																				pos: position{line: 1613, col: 11, offset: 52215},
 																				run: (*parser).callonListElements22,
 																				expr: &seqExpr{
-																					pos: position{line: 1612, col: 11, offset: 52188},
+																					pos: position{line: 1613, col: 11, offset: 52215},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1612, col: 11, offset: 52188},
+																							pos: position{line: 1613, col: 11, offset: 52215},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1612, col: 12, offset: 52189},
+																								pos:        position{line: 1613, col: 12, offset: 52216},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -24599,7 +24817,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1612, col: 20, offset: 52197},
+																							pos:        position{line: 1613, col: 20, offset: 52224},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24608,20 +24826,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1614, col: 13, offset: 52314},
+																				pos: position{line: 1615, col: 13, offset: 52341},
 																				run: (*parser).callonListElements27,
 																				expr: &seqExpr{
-																					pos: position{line: 1614, col: 13, offset: 52314},
+																					pos: position{line: 1615, col: 13, offset: 52341},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1614, col: 14, offset: 52315},
+																							pos:        position{line: 1615, col: 14, offset: 52342},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1614, col: 21, offset: 52322},
+																							pos:        position{line: 1615, col: 21, offset: 52349},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24630,20 +24848,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1616, col: 13, offset: 52442},
+																				pos: position{line: 1617, col: 13, offset: 52469},
 																				run: (*parser).callonListElements31,
 																				expr: &seqExpr{
-																					pos: position{line: 1616, col: 13, offset: 52442},
+																					pos: position{line: 1617, col: 13, offset: 52469},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1616, col: 14, offset: 52443},
+																							pos:        position{line: 1617, col: 14, offset: 52470},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1616, col: 21, offset: 52450},
+																							pos:        position{line: 1617, col: 21, offset: 52477},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24652,15 +24870,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1618, col: 13, offset: 52570},
+																				pos: position{line: 1619, col: 13, offset: 52597},
 																				run: (*parser).callonListElements35,
 																				expr: &seqExpr{
-																					pos: position{line: 1618, col: 13, offset: 52570},
+																					pos: position{line: 1619, col: 13, offset: 52597},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1618, col: 13, offset: 52570},
+																							pos: position{line: 1619, col: 13, offset: 52597},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1618, col: 14, offset: 52571},
+																								pos:        position{line: 1619, col: 14, offset: 52598},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -24668,7 +24886,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1618, col: 26, offset: 52583},
+																							pos:        position{line: 1619, col: 26, offset: 52610},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -24677,15 +24895,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1620, col: 13, offset: 52703},
+																				pos: position{line: 1621, col: 13, offset: 52730},
 																				run: (*parser).callonListElements40,
 																				expr: &seqExpr{
-																					pos: position{line: 1620, col: 13, offset: 52703},
+																					pos: position{line: 1621, col: 13, offset: 52730},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1620, col: 13, offset: 52703},
+																							pos: position{line: 1621, col: 13, offset: 52730},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1620, col: 14, offset: 52704},
+																								pos:        position{line: 1621, col: 14, offset: 52731},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -24693,7 +24911,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1620, col: 26, offset: 52716},
+																							pos:        position{line: 1621, col: 26, offset: 52743},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -24705,12 +24923,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2880, col: 11, offset: 91066},
+																	pos: position{line: 2881, col: 11, offset: 91093},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2880, col: 11, offset: 91066},
+																		pos: position{line: 2881, col: 11, offset: 91093},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 11, offset: 91066},
+																			pos:        position{line: 2881, col: 11, offset: 91093},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24723,26 +24941,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1581, col: 5, offset: 51124},
+													pos:   position{line: 1582, col: 5, offset: 51151},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1528, col: 5, offset: 49591},
+														pos: position{line: 1529, col: 5, offset: 49618},
 														run: (*parser).callonListElements49,
 														expr: &seqExpr{
-															pos: position{line: 1528, col: 5, offset: 49591},
+															pos: position{line: 1529, col: 5, offset: 49618},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1528, col: 5, offset: 49591},
+																	pos:   position{line: 1529, col: 5, offset: 49618},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1528, col: 14, offset: 49600},
+																		pos: position{line: 1529, col: 14, offset: 49627},
 																		expr: &actionExpr{
-																			pos: position{line: 1528, col: 15, offset: 49601},
+																			pos: position{line: 1529, col: 15, offset: 49628},
 																			run: (*parser).callonListElements53,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1528, col: 15, offset: 49601},
+																				pos: position{line: 1529, col: 15, offset: 49628},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1528, col: 15, offset: 49601},
+																					pos:        position{line: 1529, col: 15, offset: 49628},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -24753,28 +24971,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91403},
+																	pos: position{line: 2899, col: 8, offset: 91430},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91176},
+																			pos: position{line: 2886, col: 12, offset: 91203},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91177},
+																				pos: position{line: 2886, col: 13, offset: 91204},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91177},
+																						pos:        position{line: 2886, col: 13, offset: 91204},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91184},
+																						pos:        position{line: 2886, col: 20, offset: 91211},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91193},
+																						pos:        position{line: 2886, col: 29, offset: 91220},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -24783,9 +25001,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91353},
+																			pos: position{line: 2896, col: 8, offset: 91380},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91354,
+																				line: 2896, col: 9, offset: 91381,
 																			},
 																		},
 																	},
@@ -24798,27 +25016,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1630, col: 5, offset: 52982},
+										pos: position{line: 1631, col: 5, offset: 53009},
 										run: (*parser).callonListElements64,
 										expr: &seqExpr{
-											pos: position{line: 1630, col: 5, offset: 52982},
+											pos: position{line: 1631, col: 5, offset: 53009},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1630, col: 5, offset: 52982},
+													pos:   position{line: 1631, col: 5, offset: 53009},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1637, col: 5, offset: 53255},
+														pos: position{line: 1638, col: 5, offset: 53282},
 														run: (*parser).callonListElements67,
 														expr: &seqExpr{
-															pos: position{line: 1637, col: 5, offset: 53255},
+															pos: position{line: 1638, col: 5, offset: 53282},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1637, col: 5, offset: 53255},
+																	pos: position{line: 1638, col: 5, offset: 53282},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 91005},
+																		pos: position{line: 2877, col: 10, offset: 91032},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 91005},
+																			pos:        position{line: 2877, col: 10, offset: 91032},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24827,24 +25045,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1638, col: 5, offset: 53267},
+																	pos:   position{line: 1639, col: 5, offset: 53294},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1639, col: 9, offset: 53283},
+																		pos: position{line: 1640, col: 9, offset: 53310},
 																		run: (*parser).callonListElements73,
 																		expr: &choiceExpr{
-																			pos: position{line: 1639, col: 10, offset: 53284},
+																			pos: position{line: 1640, col: 10, offset: 53311},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1639, col: 11, offset: 53285},
+																					pos:        position{line: 1640, col: 11, offset: 53312},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1639, col: 18, offset: 53292},
+																					pos: position{line: 1640, col: 18, offset: 53319},
 																					expr: &litMatcher{
-																						pos:        position{line: 1639, col: 19, offset: 53293},
+																						pos:        position{line: 1640, col: 19, offset: 53320},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -24855,16 +25073,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1642, col: 7, offset: 53383},
+																	pos: position{line: 1643, col: 7, offset: 53410},
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2880, col: 11, offset: 91066},
+																	pos: position{line: 2881, col: 11, offset: 91093},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2880, col: 11, offset: 91066},
+																		pos: position{line: 2881, col: 11, offset: 91093},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 11, offset: 91066},
+																			pos:        position{line: 2881, col: 11, offset: 91093},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24877,56 +25095,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1631, col: 5, offset: 53023},
+													pos:   position{line: 1632, col: 5, offset: 53050},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1631, col: 16, offset: 53034},
+														pos: position{line: 1632, col: 16, offset: 53061},
 														expr: &actionExpr{
-															pos: position{line: 1652, col: 5, offset: 53648},
+															pos: position{line: 1653, col: 5, offset: 53675},
 															run: (*parser).callonListElements84,
 															expr: &seqExpr{
-																pos: position{line: 1652, col: 5, offset: 53648},
+																pos: position{line: 1653, col: 5, offset: 53675},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1652, col: 5, offset: 53648},
+																		pos: position{line: 1653, col: 5, offset: 53675},
 																		expr: &litMatcher{
-																			pos:        position{line: 1652, col: 6, offset: 53649},
+																			pos:        position{line: 1653, col: 6, offset: 53676},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1652, col: 10, offset: 53653},
+																		pos:   position{line: 1653, col: 10, offset: 53680},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1653, col: 7, offset: 53667},
+																			pos: position{line: 1654, col: 7, offset: 53694},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1653, col: 7, offset: 53667},
+																					pos: position{line: 1654, col: 7, offset: 53694},
 																					run: (*parser).callonListElements90,
 																					expr: &litMatcher{
-																						pos:        position{line: 1653, col: 7, offset: 53667},
+																						pos:        position{line: 1654, col: 7, offset: 53694},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1654, col: 7, offset: 53712},
+																					pos: position{line: 1655, col: 7, offset: 53739},
 																					run: (*parser).callonListElements92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1654, col: 7, offset: 53712},
+																						pos:        position{line: 1655, col: 7, offset: 53739},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1655, col: 7, offset: 53755},
+																					pos: position{line: 1656, col: 7, offset: 53782},
 																					run: (*parser).callonListElements94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1655, col: 7, offset: 53755},
+																						pos:        position{line: 1656, col: 7, offset: 53782},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -24936,12 +25154,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2880, col: 11, offset: 91066},
+																		pos: position{line: 2881, col: 11, offset: 91093},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2880, col: 11, offset: 91066},
+																			pos: position{line: 2881, col: 11, offset: 91093},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2880, col: 11, offset: 91066},
+																				pos:        position{line: 2881, col: 11, offset: 91093},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -24955,26 +25173,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1632, col: 5, offset: 53073},
+													pos:   position{line: 1633, col: 5, offset: 53100},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1528, col: 5, offset: 49591},
+														pos: position{line: 1529, col: 5, offset: 49618},
 														run: (*parser).callonListElements100,
 														expr: &seqExpr{
-															pos: position{line: 1528, col: 5, offset: 49591},
+															pos: position{line: 1529, col: 5, offset: 49618},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1528, col: 5, offset: 49591},
+																	pos:   position{line: 1529, col: 5, offset: 49618},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1528, col: 14, offset: 49600},
+																		pos: position{line: 1529, col: 14, offset: 49627},
 																		expr: &actionExpr{
-																			pos: position{line: 1528, col: 15, offset: 49601},
+																			pos: position{line: 1529, col: 15, offset: 49628},
 																			run: (*parser).callonListElements104,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1528, col: 15, offset: 49601},
+																				pos: position{line: 1529, col: 15, offset: 49628},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1528, col: 15, offset: 49601},
+																					pos:        position{line: 1529, col: 15, offset: 49628},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -24985,28 +25203,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91403},
+																	pos: position{line: 2899, col: 8, offset: 91430},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91176},
+																			pos: position{line: 2886, col: 12, offset: 91203},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91177},
+																				pos: position{line: 2886, col: 13, offset: 91204},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91177},
+																						pos:        position{line: 2886, col: 13, offset: 91204},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91184},
+																						pos:        position{line: 2886, col: 20, offset: 91211},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91193},
+																						pos:        position{line: 2886, col: 29, offset: 91220},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25015,9 +25233,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91353},
+																			pos: position{line: 2896, col: 8, offset: 91380},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91354,
+																				line: 2896, col: 9, offset: 91381,
 																			},
 																		},
 																	},
@@ -25030,36 +25248,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1721, col: 5, offset: 55627},
+										pos: position{line: 1722, col: 5, offset: 55654},
 										run: (*parser).callonListElements115,
 										expr: &seqExpr{
-											pos: position{line: 1721, col: 5, offset: 55627},
+											pos: position{line: 1722, col: 5, offset: 55654},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1721, col: 5, offset: 55627},
+													pos:   position{line: 1722, col: 5, offset: 55654},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1727, col: 5, offset: 55824},
+														pos: position{line: 1728, col: 5, offset: 55851},
 														run: (*parser).callonListElements118,
 														expr: &seqExpr{
-															pos: position{line: 1727, col: 5, offset: 55824},
+															pos: position{line: 1728, col: 5, offset: 55851},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1727, col: 5, offset: 55824},
+																	pos:        position{line: 1728, col: 5, offset: 55851},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1727, col: 9, offset: 55828},
+																	pos:   position{line: 1728, col: 9, offset: 55855},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1727, col: 14, offset: 55833},
+																		pos: position{line: 1728, col: 14, offset: 55860},
 																		run: (*parser).callonListElements122,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1727, col: 14, offset: 55833},
+																			pos: position{line: 1728, col: 14, offset: 55860},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1727, col: 14, offset: 55833},
+																				pos:        position{line: 1728, col: 14, offset: 55860},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -25069,18 +25287,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1727, col: 62, offset: 55881},
+																	pos:        position{line: 1728, col: 62, offset: 55908},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2880, col: 11, offset: 91066},
+																	pos: position{line: 2881, col: 11, offset: 91093},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2880, col: 11, offset: 91066},
+																		pos: position{line: 2881, col: 11, offset: 91093},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 11, offset: 91066},
+																			pos:        position{line: 2881, col: 11, offset: 91093},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25093,26 +25311,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1722, col: 5, offset: 55663},
+													pos:   position{line: 1723, col: 5, offset: 55690},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1528, col: 5, offset: 49591},
+														pos: position{line: 1529, col: 5, offset: 49618},
 														run: (*parser).callonListElements130,
 														expr: &seqExpr{
-															pos: position{line: 1528, col: 5, offset: 49591},
+															pos: position{line: 1529, col: 5, offset: 49618},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1528, col: 5, offset: 49591},
+																	pos:   position{line: 1529, col: 5, offset: 49618},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1528, col: 14, offset: 49600},
+																		pos: position{line: 1529, col: 14, offset: 49627},
 																		expr: &actionExpr{
-																			pos: position{line: 1528, col: 15, offset: 49601},
+																			pos: position{line: 1529, col: 15, offset: 49628},
 																			run: (*parser).callonListElements134,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1528, col: 15, offset: 49601},
+																				pos: position{line: 1529, col: 15, offset: 49628},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1528, col: 15, offset: 49601},
+																					pos:        position{line: 1529, col: 15, offset: 49628},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25123,28 +25341,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91403},
+																	pos: position{line: 2899, col: 8, offset: 91430},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91176},
+																			pos: position{line: 2886, col: 12, offset: 91203},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91177},
+																				pos: position{line: 2886, col: 13, offset: 91204},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91177},
+																						pos:        position{line: 2886, col: 13, offset: 91204},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91184},
+																						pos:        position{line: 2886, col: 20, offset: 91211},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91193},
+																						pos:        position{line: 2886, col: 29, offset: 91220},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25153,9 +25371,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91353},
+																			pos: position{line: 2896, col: 8, offset: 91380},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91354,
+																				line: 2896, col: 9, offset: 91381,
 																			},
 																		},
 																	},
@@ -25168,35 +25386,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1664, col: 5, offset: 53948},
+										pos: position{line: 1665, col: 5, offset: 53975},
 										run: (*parser).callonListElements145,
 										expr: &seqExpr{
-											pos: position{line: 1664, col: 5, offset: 53948},
+											pos: position{line: 1665, col: 5, offset: 53975},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1664, col: 5, offset: 53948},
+													pos:   position{line: 1665, col: 5, offset: 53975},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1672, col: 5, offset: 54274},
+														pos: position{line: 1673, col: 5, offset: 54301},
 														run: (*parser).callonListElements148,
 														expr: &seqExpr{
-															pos: position{line: 1672, col: 5, offset: 54274},
+															pos: position{line: 1673, col: 5, offset: 54301},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1672, col: 5, offset: 54274},
+																	pos: position{line: 1673, col: 5, offset: 54301},
 																	expr: &seqExpr{
-																		pos: position{line: 2488, col: 31, offset: 80112},
+																		pos: position{line: 2489, col: 31, offset: 80139},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2488, col: 31, offset: 80112},
+																				pos:        position{line: 2489, col: 31, offset: 80139},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2488, col: 36, offset: 80117},
+																				pos: position{line: 2489, col: 36, offset: 80144},
 																				expr: &litMatcher{
-																					pos:        position{line: 2488, col: 37, offset: 80118},
+																					pos:        position{line: 2489, col: 37, offset: 80145},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
@@ -25206,28 +25424,28 @@ var g = &grammar{
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 1673, col: 5, offset: 54306},
+																	pos: position{line: 1674, col: 5, offset: 54333},
 																	expr: &seqExpr{
-																		pos: position{line: 1673, col: 6, offset: 54307},
+																		pos: position{line: 1674, col: 6, offset: 54334},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1673, col: 6, offset: 54307},
+																				pos: position{line: 1674, col: 6, offset: 54334},
 																				expr: &actionExpr{
-																					pos: position{line: 1678, col: 5, offset: 54457},
+																					pos: position{line: 1679, col: 5, offset: 54484},
 																					run: (*parser).callonListElements158,
 																					expr: &seqExpr{
-																						pos: position{line: 1678, col: 5, offset: 54457},
+																						pos: position{line: 1679, col: 5, offset: 54484},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1678, col: 5, offset: 54457},
+																								pos:   position{line: 1679, col: 5, offset: 54484},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1678, col: 16, offset: 54468},
+																									pos: position{line: 1679, col: 16, offset: 54495},
 																									run: (*parser).callonListElements161,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1678, col: 16, offset: 54468},
+																										pos: position{line: 1679, col: 16, offset: 54495},
 																										expr: &litMatcher{
-																											pos:        position{line: 1678, col: 17, offset: 54469},
+																											pos:        position{line: 1679, col: 17, offset: 54496},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -25236,7 +25454,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1681, col: 5, offset: 54526},
+																								pos: position{line: 1682, col: 5, offset: 54553},
 																								run: (*parser).callonListElements164,
 																							},
 																						},
@@ -25244,30 +25462,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1673, col: 35, offset: 54336},
+																				pos: position{line: 1674, col: 35, offset: 54363},
 																				expr: &choiceExpr{
-																					pos: position{line: 2898, col: 8, offset: 91403},
+																					pos: position{line: 2899, col: 8, offset: 91430},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2885, col: 12, offset: 91176},
+																							pos: position{line: 2886, col: 12, offset: 91203},
 																							run: (*parser).callonListElements167,
 																							expr: &choiceExpr{
-																								pos: position{line: 2885, col: 13, offset: 91177},
+																								pos: position{line: 2886, col: 13, offset: 91204},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 13, offset: 91177},
+																										pos:        position{line: 2886, col: 13, offset: 91204},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 20, offset: 91184},
+																										pos:        position{line: 2886, col: 20, offset: 91211},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 29, offset: 91193},
+																										pos:        position{line: 2886, col: 29, offset: 91220},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -25276,16 +25494,16 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2895, col: 8, offset: 91353},
+																							pos: position{line: 2896, col: 8, offset: 91380},
 																							expr: &anyMatcher{
-																								line: 2895, col: 9, offset: 91354,
+																								line: 2896, col: 9, offset: 91381,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1673, col: 40, offset: 54341,
+																				line: 1674, col: 40, offset: 54368,
 																			},
 																		},
 																	},
@@ -25295,24 +25513,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1665, col: 5, offset: 53983},
+													pos:   position{line: 1666, col: 5, offset: 54010},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1678, col: 5, offset: 54457},
+														pos: position{line: 1679, col: 5, offset: 54484},
 														run: (*parser).callonListElements176,
 														expr: &seqExpr{
-															pos: position{line: 1678, col: 5, offset: 54457},
+															pos: position{line: 1679, col: 5, offset: 54484},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1678, col: 5, offset: 54457},
+																	pos:   position{line: 1679, col: 5, offset: 54484},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1678, col: 16, offset: 54468},
+																		pos: position{line: 1679, col: 16, offset: 54495},
 																		run: (*parser).callonListElements179,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1678, col: 16, offset: 54468},
+																			pos: position{line: 1679, col: 16, offset: 54495},
 																			expr: &litMatcher{
-																				pos:        position{line: 1678, col: 17, offset: 54469},
+																				pos:        position{line: 1679, col: 17, offset: 54496},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -25321,7 +25539,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1681, col: 5, offset: 54526},
+																	pos: position{line: 1682, col: 5, offset: 54553},
 																	run: (*parser).callonListElements182,
 																},
 															},
@@ -25329,24 +25547,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1666, col: 5, offset: 54028},
+													pos:   position{line: 1667, col: 5, offset: 54055},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1689, col: 5, offset: 54775},
+														pos: position{line: 1690, col: 5, offset: 54802},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1691, col: 9, offset: 54841},
+																pos: position{line: 1692, col: 9, offset: 54868},
 																run: (*parser).callonListElements185,
 																expr: &seqExpr{
-																	pos: position{line: 1691, col: 9, offset: 54841},
+																	pos: position{line: 1692, col: 9, offset: 54868},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1691, col: 9, offset: 54841},
+																			pos: position{line: 1692, col: 9, offset: 54868},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 91005},
+																				pos: position{line: 2877, col: 10, offset: 91032},
 																				run: (*parser).callonListElements188,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 91005},
+																					pos:        position{line: 2877, col: 10, offset: 91032},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25355,28 +25573,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91403},
+																			pos: position{line: 2899, col: 8, offset: 91430},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91176},
+																					pos: position{line: 2886, col: 12, offset: 91203},
 																					run: (*parser).callonListElements191,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91177},
+																						pos: position{line: 2886, col: 13, offset: 91204},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91177},
+																								pos:        position{line: 2886, col: 13, offset: 91204},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91184},
+																								pos:        position{line: 2886, col: 20, offset: 91211},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91193},
+																								pos:        position{line: 2886, col: 29, offset: 91220},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25385,34 +25603,34 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91353},
+																					pos: position{line: 2896, col: 8, offset: 91380},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91354,
+																						line: 2896, col: 9, offset: 91381,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1692, col: 9, offset: 54860},
+																			pos: position{line: 1693, col: 9, offset: 54887},
 																			expr: &actionExpr{
-																				pos: position{line: 676, col: 14, offset: 21498},
+																				pos: position{line: 677, col: 14, offset: 21525},
 																				run: (*parser).callonListElements199,
 																				expr: &seqExpr{
-																					pos: position{line: 676, col: 14, offset: 21498},
+																					pos: position{line: 677, col: 14, offset: 21525},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2893, col: 11, offset: 91339},
+																							pos: position{line: 2894, col: 11, offset: 91366},
 																							expr: &anyMatcher{
-																								line: 2893, col: 13, offset: 91341,
+																								line: 2894, col: 13, offset: 91368,
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 676, col: 21, offset: 21505},
+																							pos: position{line: 677, col: 21, offset: 21532},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 91005},
+																								pos: position{line: 2877, col: 10, offset: 91032},
 																								run: (*parser).callonListElements204,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 91005},
+																									pos:        position{line: 2877, col: 10, offset: 91032},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25421,28 +25639,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91403},
+																							pos: position{line: 2899, col: 8, offset: 91430},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91176},
+																									pos: position{line: 2886, col: 12, offset: 91203},
 																									run: (*parser).callonListElements207,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91177},
+																										pos: position{line: 2886, col: 13, offset: 91204},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91177},
+																												pos:        position{line: 2886, col: 13, offset: 91204},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91184},
+																												pos:        position{line: 2886, col: 20, offset: 91211},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91193},
+																												pos:        position{line: 2886, col: 29, offset: 91220},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25451,9 +25669,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91353},
+																									pos: position{line: 2896, col: 8, offset: 91380},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91354,
+																										line: 2896, col: 9, offset: 91381,
 																									},
 																								},
 																							},
@@ -25466,18 +25684,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1698, col: 9, offset: 54989},
+																pos: position{line: 1699, col: 9, offset: 55016},
 																run: (*parser).callonListElements214,
 																expr: &seqExpr{
-																	pos: position{line: 1698, col: 9, offset: 54989},
+																	pos: position{line: 1699, col: 9, offset: 55016},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2880, col: 11, offset: 91066},
+																			pos: position{line: 2881, col: 11, offset: 91093},
 																			run: (*parser).callonListElements216,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2880, col: 11, offset: 91066},
+																				pos: position{line: 2881, col: 11, offset: 91093},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2880, col: 11, offset: 91066},
+																					pos:        position{line: 2881, col: 11, offset: 91093},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25486,15 +25704,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1699, col: 9, offset: 55062},
+																			pos:   position{line: 1700, col: 9, offset: 55089},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1699, col: 18, offset: 55071},
+																				pos: position{line: 1700, col: 18, offset: 55098},
 																				run: (*parser).callonListElements220,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1699, col: 18, offset: 55071},
+																					pos: position{line: 1700, col: 18, offset: 55098},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1699, col: 18, offset: 55071},
+																						pos:        position{line: 1700, col: 18, offset: 55098},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -25504,28 +25722,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91403},
+																			pos: position{line: 2899, col: 8, offset: 91430},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91176},
+																					pos: position{line: 2886, col: 12, offset: 91203},
 																					run: (*parser).callonListElements224,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91177},
+																						pos: position{line: 2886, col: 13, offset: 91204},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91177},
+																								pos:        position{line: 2886, col: 13, offset: 91204},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91184},
+																								pos:        position{line: 2886, col: 20, offset: 91211},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91193},
+																								pos:        position{line: 2886, col: 29, offset: 91220},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25534,9 +25752,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91353},
+																					pos: position{line: 2896, col: 8, offset: 91380},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91354,
+																						line: 2896, col: 9, offset: 91381,
 																					},
 																				},
 																			},
@@ -25554,10 +25772,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1482, col: 5, offset: 47980},
+							pos:   position{line: 1483, col: 5, offset: 48007},
 							label: "extraElements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1482, col: 20, offset: 47995},
+								pos:  position{line: 1483, col: 20, offset: 48022},
 								name: "ExtraListElements",
 							},
 						},
@@ -25567,17 +25785,17 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElements",
-			pos:  position{line: 1492, col: 1, offset: 48250},
+			pos:  position{line: 1493, col: 1, offset: 48277},
 			expr: &actionExpr{
-				pos: position{line: 1492, col: 22, offset: 48271},
+				pos: position{line: 1493, col: 22, offset: 48298},
 				run: (*parser).callonExtraListElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1492, col: 22, offset: 48271},
+					pos:   position{line: 1493, col: 22, offset: 48298},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1492, col: 31, offset: 48280},
+						pos: position{line: 1493, col: 31, offset: 48307},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1492, col: 32, offset: 48281},
+							pos:  position{line: 1493, col: 32, offset: 48308},
 							name: "ExtraListElement",
 						},
 					},
@@ -25586,52 +25804,52 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElement",
-			pos:  position{line: 1496, col: 1, offset: 48361},
+			pos:  position{line: 1497, col: 1, offset: 48388},
 			expr: &actionExpr{
-				pos: position{line: 1497, col: 5, offset: 48500},
+				pos: position{line: 1498, col: 5, offset: 48527},
 				run: (*parser).callonExtraListElement1,
 				expr: &seqExpr{
-					pos: position{line: 1497, col: 5, offset: 48500},
+					pos: position{line: 1498, col: 5, offset: 48527},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2893, col: 11, offset: 91339},
+							pos: position{line: 2894, col: 11, offset: 91366},
 							expr: &anyMatcher{
-								line: 2893, col: 13, offset: 91341,
+								line: 2894, col: 13, offset: 91368,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1498, col: 5, offset: 48512},
+							pos:   position{line: 1499, col: 5, offset: 48539},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1499, col: 9, offset: 48530},
+								pos: position{line: 1500, col: 9, offset: 48557},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1499, col: 13, offset: 48534},
+										pos: position{line: 1500, col: 13, offset: 48561},
 										run: (*parser).callonExtraListElement7,
 										expr: &seqExpr{
-											pos: position{line: 1499, col: 13, offset: 48534},
+											pos: position{line: 1500, col: 13, offset: 48561},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 1499, col: 13, offset: 48534},
+													pos: position{line: 1500, col: 13, offset: 48561},
 													expr: &actionExpr{
-														pos: position{line: 676, col: 14, offset: 21498},
+														pos: position{line: 677, col: 14, offset: 21525},
 														run: (*parser).callonExtraListElement10,
 														expr: &seqExpr{
-															pos: position{line: 676, col: 14, offset: 21498},
+															pos: position{line: 677, col: 14, offset: 21525},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2893, col: 11, offset: 91339},
+																	pos: position{line: 2894, col: 11, offset: 91366},
 																	expr: &anyMatcher{
-																		line: 2893, col: 13, offset: 91341,
+																		line: 2894, col: 13, offset: 91368,
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 676, col: 21, offset: 21505},
+																	pos: position{line: 677, col: 21, offset: 21532},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 91005},
+																		pos: position{line: 2877, col: 10, offset: 91032},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 91005},
+																			pos:        position{line: 2877, col: 10, offset: 91032},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25640,28 +25858,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91403},
+																	pos: position{line: 2899, col: 8, offset: 91430},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91176},
+																			pos: position{line: 2886, col: 12, offset: 91203},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91177},
+																				pos: position{line: 2886, col: 13, offset: 91204},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91177},
+																						pos:        position{line: 2886, col: 13, offset: 91204},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91184},
+																						pos:        position{line: 2886, col: 20, offset: 91211},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91193},
+																						pos:        position{line: 2886, col: 29, offset: 91220},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25670,9 +25888,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91353},
+																			pos: position{line: 2896, col: 8, offset: 91380},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91354,
+																				line: 2896, col: 9, offset: 91381,
 																			},
 																		},
 																	},
@@ -25682,33 +25900,33 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1500, col: 13, offset: 48558},
+													pos:   position{line: 1501, col: 13, offset: 48585},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1500, col: 22, offset: 48567},
+														pos: position{line: 1501, col: 22, offset: 48594},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1580, col: 5, offset: 51085},
+																pos: position{line: 1581, col: 5, offset: 51112},
 																run: (*parser).callonExtraListElement27,
 																expr: &seqExpr{
-																	pos: position{line: 1580, col: 5, offset: 51085},
+																	pos: position{line: 1581, col: 5, offset: 51112},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1580, col: 5, offset: 51085},
+																			pos:   position{line: 1581, col: 5, offset: 51112},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1587, col: 5, offset: 51293},
+																				pos: position{line: 1588, col: 5, offset: 51320},
 																				run: (*parser).callonExtraListElement30,
 																				expr: &seqExpr{
-																					pos: position{line: 1587, col: 5, offset: 51293},
+																					pos: position{line: 1588, col: 5, offset: 51320},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1587, col: 5, offset: 51293},
+																							pos: position{line: 1588, col: 5, offset: 51320},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 91005},
+																								pos: position{line: 2877, col: 10, offset: 91032},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 91005},
+																									pos:        position{line: 2877, col: 10, offset: 91032},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25717,27 +25935,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1587, col: 12, offset: 51300},
+																							pos:   position{line: 1588, col: 12, offset: 51327},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1589, col: 9, offset: 51363},
+																								pos: position{line: 1590, col: 9, offset: 51390},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1589, col: 9, offset: 51363},
+																										pos: position{line: 1590, col: 9, offset: 51390},
 																										run: (*parser).callonExtraListElement37,
 																										expr: &seqExpr{
-																											pos: position{line: 1589, col: 9, offset: 51363},
+																											pos: position{line: 1590, col: 9, offset: 51390},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1589, col: 9, offset: 51363},
+																													pos:   position{line: 1590, col: 9, offset: 51390},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1589, col: 16, offset: 51370},
+																														pos: position{line: 1590, col: 16, offset: 51397},
 																														run: (*parser).callonExtraListElement40,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1589, col: 16, offset: 51370},
+																															pos: position{line: 1590, col: 16, offset: 51397},
 																															expr: &litMatcher{
-																																pos:        position{line: 1589, col: 17, offset: 51371},
+																																pos:        position{line: 1590, col: 17, offset: 51398},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -25746,22 +25964,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1593, col: 9, offset: 51471},
+																													pos: position{line: 1594, col: 9, offset: 51498},
 																													run: (*parser).callonExtraListElement43,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1612, col: 11, offset: 52188},
+																										pos: position{line: 1613, col: 11, offset: 52215},
 																										run: (*parser).callonExtraListElement44,
 																										expr: &seqExpr{
-																											pos: position{line: 1612, col: 11, offset: 52188},
+																											pos: position{line: 1613, col: 11, offset: 52215},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1612, col: 11, offset: 52188},
+																													pos: position{line: 1613, col: 11, offset: 52215},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1612, col: 12, offset: 52189},
+																														pos:        position{line: 1613, col: 12, offset: 52216},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -25769,7 +25987,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1612, col: 20, offset: 52197},
+																													pos:        position{line: 1613, col: 20, offset: 52224},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -25778,20 +25996,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1614, col: 13, offset: 52314},
+																										pos: position{line: 1615, col: 13, offset: 52341},
 																										run: (*parser).callonExtraListElement49,
 																										expr: &seqExpr{
-																											pos: position{line: 1614, col: 13, offset: 52314},
+																											pos: position{line: 1615, col: 13, offset: 52341},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1614, col: 14, offset: 52315},
+																													pos:        position{line: 1615, col: 14, offset: 52342},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1614, col: 21, offset: 52322},
+																													pos:        position{line: 1615, col: 21, offset: 52349},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -25800,20 +26018,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1616, col: 13, offset: 52442},
+																										pos: position{line: 1617, col: 13, offset: 52469},
 																										run: (*parser).callonExtraListElement53,
 																										expr: &seqExpr{
-																											pos: position{line: 1616, col: 13, offset: 52442},
+																											pos: position{line: 1617, col: 13, offset: 52469},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1616, col: 14, offset: 52443},
+																													pos:        position{line: 1617, col: 14, offset: 52470},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1616, col: 21, offset: 52450},
+																													pos:        position{line: 1617, col: 21, offset: 52477},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -25822,15 +26040,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1618, col: 13, offset: 52570},
+																										pos: position{line: 1619, col: 13, offset: 52597},
 																										run: (*parser).callonExtraListElement57,
 																										expr: &seqExpr{
-																											pos: position{line: 1618, col: 13, offset: 52570},
+																											pos: position{line: 1619, col: 13, offset: 52597},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1618, col: 13, offset: 52570},
+																													pos: position{line: 1619, col: 13, offset: 52597},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1618, col: 14, offset: 52571},
+																														pos:        position{line: 1619, col: 14, offset: 52598},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -25838,7 +26056,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1618, col: 26, offset: 52583},
+																													pos:        position{line: 1619, col: 26, offset: 52610},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -25847,15 +26065,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1620, col: 13, offset: 52703},
+																										pos: position{line: 1621, col: 13, offset: 52730},
 																										run: (*parser).callonExtraListElement62,
 																										expr: &seqExpr{
-																											pos: position{line: 1620, col: 13, offset: 52703},
+																											pos: position{line: 1621, col: 13, offset: 52730},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1620, col: 13, offset: 52703},
+																													pos: position{line: 1621, col: 13, offset: 52730},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1620, col: 14, offset: 52704},
+																														pos:        position{line: 1621, col: 14, offset: 52731},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -25863,7 +26081,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1620, col: 26, offset: 52716},
+																													pos:        position{line: 1621, col: 26, offset: 52743},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -25875,12 +26093,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2880, col: 11, offset: 91066},
+																							pos: position{line: 2881, col: 11, offset: 91093},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2880, col: 11, offset: 91066},
+																								pos: position{line: 2881, col: 11, offset: 91093},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 11, offset: 91066},
+																									pos:        position{line: 2881, col: 11, offset: 91093},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25893,26 +26111,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1581, col: 5, offset: 51124},
+																			pos:   position{line: 1582, col: 5, offset: 51151},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1528, col: 5, offset: 49591},
+																				pos: position{line: 1529, col: 5, offset: 49618},
 																				run: (*parser).callonExtraListElement71,
 																				expr: &seqExpr{
-																					pos: position{line: 1528, col: 5, offset: 49591},
+																					pos: position{line: 1529, col: 5, offset: 49618},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1528, col: 5, offset: 49591},
+																							pos:   position{line: 1529, col: 5, offset: 49618},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1528, col: 14, offset: 49600},
+																								pos: position{line: 1529, col: 14, offset: 49627},
 																								expr: &actionExpr{
-																									pos: position{line: 1528, col: 15, offset: 49601},
+																									pos: position{line: 1529, col: 15, offset: 49628},
 																									run: (*parser).callonExtraListElement75,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1528, col: 15, offset: 49601},
+																										pos: position{line: 1529, col: 15, offset: 49628},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1528, col: 15, offset: 49601},
+																											pos:        position{line: 1529, col: 15, offset: 49628},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -25923,28 +26141,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91403},
+																							pos: position{line: 2899, col: 8, offset: 91430},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91176},
+																									pos: position{line: 2886, col: 12, offset: 91203},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91177},
+																										pos: position{line: 2886, col: 13, offset: 91204},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91177},
+																												pos:        position{line: 2886, col: 13, offset: 91204},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91184},
+																												pos:        position{line: 2886, col: 20, offset: 91211},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91193},
+																												pos:        position{line: 2886, col: 29, offset: 91220},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25953,9 +26171,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91353},
+																									pos: position{line: 2896, col: 8, offset: 91380},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91354,
+																										line: 2896, col: 9, offset: 91381,
 																									},
 																								},
 																							},
@@ -25968,27 +26186,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1630, col: 5, offset: 52982},
+																pos: position{line: 1631, col: 5, offset: 53009},
 																run: (*parser).callonExtraListElement86,
 																expr: &seqExpr{
-																	pos: position{line: 1630, col: 5, offset: 52982},
+																	pos: position{line: 1631, col: 5, offset: 53009},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1630, col: 5, offset: 52982},
+																			pos:   position{line: 1631, col: 5, offset: 53009},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1637, col: 5, offset: 53255},
+																				pos: position{line: 1638, col: 5, offset: 53282},
 																				run: (*parser).callonExtraListElement89,
 																				expr: &seqExpr{
-																					pos: position{line: 1637, col: 5, offset: 53255},
+																					pos: position{line: 1638, col: 5, offset: 53282},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1637, col: 5, offset: 53255},
+																							pos: position{line: 1638, col: 5, offset: 53282},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 91005},
+																								pos: position{line: 2877, col: 10, offset: 91032},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 91005},
+																									pos:        position{line: 2877, col: 10, offset: 91032},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25997,24 +26215,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1638, col: 5, offset: 53267},
+																							pos:   position{line: 1639, col: 5, offset: 53294},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1639, col: 9, offset: 53283},
+																								pos: position{line: 1640, col: 9, offset: 53310},
 																								run: (*parser).callonExtraListElement95,
 																								expr: &choiceExpr{
-																									pos: position{line: 1639, col: 10, offset: 53284},
+																									pos: position{line: 1640, col: 10, offset: 53311},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1639, col: 11, offset: 53285},
+																											pos:        position{line: 1640, col: 11, offset: 53312},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1639, col: 18, offset: 53292},
+																											pos: position{line: 1640, col: 18, offset: 53319},
 																											expr: &litMatcher{
-																												pos:        position{line: 1639, col: 19, offset: 53293},
+																												pos:        position{line: 1640, col: 19, offset: 53320},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -26025,16 +26243,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1642, col: 7, offset: 53383},
+																							pos: position{line: 1643, col: 7, offset: 53410},
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2880, col: 11, offset: 91066},
+																							pos: position{line: 2881, col: 11, offset: 91093},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2880, col: 11, offset: 91066},
+																								pos: position{line: 2881, col: 11, offset: 91093},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 11, offset: 91066},
+																									pos:        position{line: 2881, col: 11, offset: 91093},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26047,56 +26265,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1631, col: 5, offset: 53023},
+																			pos:   position{line: 1632, col: 5, offset: 53050},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1631, col: 16, offset: 53034},
+																				pos: position{line: 1632, col: 16, offset: 53061},
 																				expr: &actionExpr{
-																					pos: position{line: 1652, col: 5, offset: 53648},
+																					pos: position{line: 1653, col: 5, offset: 53675},
 																					run: (*parser).callonExtraListElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 1652, col: 5, offset: 53648},
+																						pos: position{line: 1653, col: 5, offset: 53675},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1652, col: 5, offset: 53648},
+																								pos: position{line: 1653, col: 5, offset: 53675},
 																								expr: &litMatcher{
-																									pos:        position{line: 1652, col: 6, offset: 53649},
+																									pos:        position{line: 1653, col: 6, offset: 53676},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1652, col: 10, offset: 53653},
+																								pos:   position{line: 1653, col: 10, offset: 53680},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1653, col: 7, offset: 53667},
+																									pos: position{line: 1654, col: 7, offset: 53694},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1653, col: 7, offset: 53667},
+																											pos: position{line: 1654, col: 7, offset: 53694},
 																											run: (*parser).callonExtraListElement112,
 																											expr: &litMatcher{
-																												pos:        position{line: 1653, col: 7, offset: 53667},
+																												pos:        position{line: 1654, col: 7, offset: 53694},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1654, col: 7, offset: 53712},
+																											pos: position{line: 1655, col: 7, offset: 53739},
 																											run: (*parser).callonExtraListElement114,
 																											expr: &litMatcher{
-																												pos:        position{line: 1654, col: 7, offset: 53712},
+																												pos:        position{line: 1655, col: 7, offset: 53739},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1655, col: 7, offset: 53755},
+																											pos: position{line: 1656, col: 7, offset: 53782},
 																											run: (*parser).callonExtraListElement116,
 																											expr: &litMatcher{
-																												pos:        position{line: 1655, col: 7, offset: 53755},
+																												pos:        position{line: 1656, col: 7, offset: 53782},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -26106,12 +26324,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2880, col: 11, offset: 91066},
+																								pos: position{line: 2881, col: 11, offset: 91093},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2880, col: 11, offset: 91066},
+																									pos: position{line: 2881, col: 11, offset: 91093},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2880, col: 11, offset: 91066},
+																										pos:        position{line: 2881, col: 11, offset: 91093},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -26125,26 +26343,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1632, col: 5, offset: 53073},
+																			pos:   position{line: 1633, col: 5, offset: 53100},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1528, col: 5, offset: 49591},
+																				pos: position{line: 1529, col: 5, offset: 49618},
 																				run: (*parser).callonExtraListElement122,
 																				expr: &seqExpr{
-																					pos: position{line: 1528, col: 5, offset: 49591},
+																					pos: position{line: 1529, col: 5, offset: 49618},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1528, col: 5, offset: 49591},
+																							pos:   position{line: 1529, col: 5, offset: 49618},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1528, col: 14, offset: 49600},
+																								pos: position{line: 1529, col: 14, offset: 49627},
 																								expr: &actionExpr{
-																									pos: position{line: 1528, col: 15, offset: 49601},
+																									pos: position{line: 1529, col: 15, offset: 49628},
 																									run: (*parser).callonExtraListElement126,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1528, col: 15, offset: 49601},
+																										pos: position{line: 1529, col: 15, offset: 49628},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1528, col: 15, offset: 49601},
+																											pos:        position{line: 1529, col: 15, offset: 49628},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26155,28 +26373,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91403},
+																							pos: position{line: 2899, col: 8, offset: 91430},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91176},
+																									pos: position{line: 2886, col: 12, offset: 91203},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91177},
+																										pos: position{line: 2886, col: 13, offset: 91204},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91177},
+																												pos:        position{line: 2886, col: 13, offset: 91204},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91184},
+																												pos:        position{line: 2886, col: 20, offset: 91211},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91193},
+																												pos:        position{line: 2886, col: 29, offset: 91220},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26185,9 +26403,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91353},
+																									pos: position{line: 2896, col: 8, offset: 91380},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91354,
+																										line: 2896, col: 9, offset: 91381,
 																									},
 																								},
 																							},
@@ -26200,36 +26418,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1721, col: 5, offset: 55627},
+																pos: position{line: 1722, col: 5, offset: 55654},
 																run: (*parser).callonExtraListElement137,
 																expr: &seqExpr{
-																	pos: position{line: 1721, col: 5, offset: 55627},
+																	pos: position{line: 1722, col: 5, offset: 55654},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1721, col: 5, offset: 55627},
+																			pos:   position{line: 1722, col: 5, offset: 55654},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1727, col: 5, offset: 55824},
+																				pos: position{line: 1728, col: 5, offset: 55851},
 																				run: (*parser).callonExtraListElement140,
 																				expr: &seqExpr{
-																					pos: position{line: 1727, col: 5, offset: 55824},
+																					pos: position{line: 1728, col: 5, offset: 55851},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1727, col: 5, offset: 55824},
+																							pos:        position{line: 1728, col: 5, offset: 55851},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1727, col: 9, offset: 55828},
+																							pos:   position{line: 1728, col: 9, offset: 55855},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1727, col: 14, offset: 55833},
+																								pos: position{line: 1728, col: 14, offset: 55860},
 																								run: (*parser).callonExtraListElement144,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1727, col: 14, offset: 55833},
+																									pos: position{line: 1728, col: 14, offset: 55860},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1727, col: 14, offset: 55833},
+																										pos:        position{line: 1728, col: 14, offset: 55860},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -26239,18 +26457,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1727, col: 62, offset: 55881},
+																							pos:        position{line: 1728, col: 62, offset: 55908},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2880, col: 11, offset: 91066},
+																							pos: position{line: 2881, col: 11, offset: 91093},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2880, col: 11, offset: 91066},
+																								pos: position{line: 2881, col: 11, offset: 91093},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 11, offset: 91066},
+																									pos:        position{line: 2881, col: 11, offset: 91093},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26263,26 +26481,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1722, col: 5, offset: 55663},
+																			pos:   position{line: 1723, col: 5, offset: 55690},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1528, col: 5, offset: 49591},
+																				pos: position{line: 1529, col: 5, offset: 49618},
 																				run: (*parser).callonExtraListElement152,
 																				expr: &seqExpr{
-																					pos: position{line: 1528, col: 5, offset: 49591},
+																					pos: position{line: 1529, col: 5, offset: 49618},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1528, col: 5, offset: 49591},
+																							pos:   position{line: 1529, col: 5, offset: 49618},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1528, col: 14, offset: 49600},
+																								pos: position{line: 1529, col: 14, offset: 49627},
 																								expr: &actionExpr{
-																									pos: position{line: 1528, col: 15, offset: 49601},
+																									pos: position{line: 1529, col: 15, offset: 49628},
 																									run: (*parser).callonExtraListElement156,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1528, col: 15, offset: 49601},
+																										pos: position{line: 1529, col: 15, offset: 49628},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1528, col: 15, offset: 49601},
+																											pos:        position{line: 1529, col: 15, offset: 49628},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26293,28 +26511,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91403},
+																							pos: position{line: 2899, col: 8, offset: 91430},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91176},
+																									pos: position{line: 2886, col: 12, offset: 91203},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91177},
+																										pos: position{line: 2886, col: 13, offset: 91204},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91177},
+																												pos:        position{line: 2886, col: 13, offset: 91204},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91184},
+																												pos:        position{line: 2886, col: 20, offset: 91211},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91193},
+																												pos:        position{line: 2886, col: 29, offset: 91220},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26323,9 +26541,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91353},
+																									pos: position{line: 2896, col: 8, offset: 91380},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91354,
+																										line: 2896, col: 9, offset: 91381,
 																									},
 																								},
 																							},
@@ -26338,35 +26556,35 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1664, col: 5, offset: 53948},
+																pos: position{line: 1665, col: 5, offset: 53975},
 																run: (*parser).callonExtraListElement167,
 																expr: &seqExpr{
-																	pos: position{line: 1664, col: 5, offset: 53948},
+																	pos: position{line: 1665, col: 5, offset: 53975},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1664, col: 5, offset: 53948},
+																			pos:   position{line: 1665, col: 5, offset: 53975},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1672, col: 5, offset: 54274},
+																				pos: position{line: 1673, col: 5, offset: 54301},
 																				run: (*parser).callonExtraListElement170,
 																				expr: &seqExpr{
-																					pos: position{line: 1672, col: 5, offset: 54274},
+																					pos: position{line: 1673, col: 5, offset: 54301},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1672, col: 5, offset: 54274},
+																							pos: position{line: 1673, col: 5, offset: 54301},
 																							expr: &seqExpr{
-																								pos: position{line: 2488, col: 31, offset: 80112},
+																								pos: position{line: 2489, col: 31, offset: 80139},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2488, col: 31, offset: 80112},
+																										pos:        position{line: 2489, col: 31, offset: 80139},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2488, col: 36, offset: 80117},
+																										pos: position{line: 2489, col: 36, offset: 80144},
 																										expr: &litMatcher{
-																											pos:        position{line: 2488, col: 37, offset: 80118},
+																											pos:        position{line: 2489, col: 37, offset: 80145},
 																											val:        "//",
 																											ignoreCase: false,
 																											want:       "\"//\"",
@@ -26376,28 +26594,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1673, col: 5, offset: 54306},
+																							pos: position{line: 1674, col: 5, offset: 54333},
 																							expr: &seqExpr{
-																								pos: position{line: 1673, col: 6, offset: 54307},
+																								pos: position{line: 1674, col: 6, offset: 54334},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1673, col: 6, offset: 54307},
+																										pos: position{line: 1674, col: 6, offset: 54334},
 																										expr: &actionExpr{
-																											pos: position{line: 1678, col: 5, offset: 54457},
+																											pos: position{line: 1679, col: 5, offset: 54484},
 																											run: (*parser).callonExtraListElement180,
 																											expr: &seqExpr{
-																												pos: position{line: 1678, col: 5, offset: 54457},
+																												pos: position{line: 1679, col: 5, offset: 54484},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1678, col: 5, offset: 54457},
+																														pos:   position{line: 1679, col: 5, offset: 54484},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1678, col: 16, offset: 54468},
+																															pos: position{line: 1679, col: 16, offset: 54495},
 																															run: (*parser).callonExtraListElement183,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1678, col: 16, offset: 54468},
+																																pos: position{line: 1679, col: 16, offset: 54495},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1678, col: 17, offset: 54469},
+																																	pos:        position{line: 1679, col: 17, offset: 54496},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -26406,7 +26624,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1681, col: 5, offset: 54526},
+																														pos: position{line: 1682, col: 5, offset: 54553},
 																														run: (*parser).callonExtraListElement186,
 																													},
 																												},
@@ -26414,30 +26632,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1673, col: 35, offset: 54336},
+																										pos: position{line: 1674, col: 35, offset: 54363},
 																										expr: &choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91403},
+																											pos: position{line: 2899, col: 8, offset: 91430},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91176},
+																													pos: position{line: 2886, col: 12, offset: 91203},
 																													run: (*parser).callonExtraListElement189,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91177},
+																														pos: position{line: 2886, col: 13, offset: 91204},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91177},
+																																pos:        position{line: 2886, col: 13, offset: 91204},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91184},
+																																pos:        position{line: 2886, col: 20, offset: 91211},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91193},
+																																pos:        position{line: 2886, col: 29, offset: 91220},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -26446,16 +26664,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91353},
+																													pos: position{line: 2896, col: 8, offset: 91380},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91354,
+																														line: 2896, col: 9, offset: 91381,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1673, col: 40, offset: 54341,
+																										line: 1674, col: 40, offset: 54368,
 																									},
 																								},
 																							},
@@ -26465,24 +26683,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1665, col: 5, offset: 53983},
+																			pos:   position{line: 1666, col: 5, offset: 54010},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1678, col: 5, offset: 54457},
+																				pos: position{line: 1679, col: 5, offset: 54484},
 																				run: (*parser).callonExtraListElement198,
 																				expr: &seqExpr{
-																					pos: position{line: 1678, col: 5, offset: 54457},
+																					pos: position{line: 1679, col: 5, offset: 54484},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1678, col: 5, offset: 54457},
+																							pos:   position{line: 1679, col: 5, offset: 54484},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1678, col: 16, offset: 54468},
+																								pos: position{line: 1679, col: 16, offset: 54495},
 																								run: (*parser).callonExtraListElement201,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1678, col: 16, offset: 54468},
+																									pos: position{line: 1679, col: 16, offset: 54495},
 																									expr: &litMatcher{
-																										pos:        position{line: 1678, col: 17, offset: 54469},
+																										pos:        position{line: 1679, col: 17, offset: 54496},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -26491,7 +26709,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1681, col: 5, offset: 54526},
+																							pos: position{line: 1682, col: 5, offset: 54553},
 																							run: (*parser).callonExtraListElement204,
 																						},
 																					},
@@ -26499,24 +26717,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1666, col: 5, offset: 54028},
+																			pos:   position{line: 1667, col: 5, offset: 54055},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1689, col: 5, offset: 54775},
+																				pos: position{line: 1690, col: 5, offset: 54802},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1691, col: 9, offset: 54841},
+																						pos: position{line: 1692, col: 9, offset: 54868},
 																						run: (*parser).callonExtraListElement207,
 																						expr: &seqExpr{
-																							pos: position{line: 1691, col: 9, offset: 54841},
+																							pos: position{line: 1692, col: 9, offset: 54868},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1691, col: 9, offset: 54841},
+																									pos: position{line: 1692, col: 9, offset: 54868},
 																									expr: &actionExpr{
-																										pos: position{line: 2876, col: 10, offset: 91005},
+																										pos: position{line: 2877, col: 10, offset: 91032},
 																										run: (*parser).callonExtraListElement210,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2876, col: 10, offset: 91005},
+																											pos:        position{line: 2877, col: 10, offset: 91032},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26525,28 +26743,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2898, col: 8, offset: 91403},
+																									pos: position{line: 2899, col: 8, offset: 91430},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2885, col: 12, offset: 91176},
+																											pos: position{line: 2886, col: 12, offset: 91203},
 																											run: (*parser).callonExtraListElement213,
 																											expr: &choiceExpr{
-																												pos: position{line: 2885, col: 13, offset: 91177},
+																												pos: position{line: 2886, col: 13, offset: 91204},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 13, offset: 91177},
+																														pos:        position{line: 2886, col: 13, offset: 91204},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 20, offset: 91184},
+																														pos:        position{line: 2886, col: 20, offset: 91211},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 29, offset: 91193},
+																														pos:        position{line: 2886, col: 29, offset: 91220},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26555,34 +26773,34 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2895, col: 8, offset: 91353},
+																											pos: position{line: 2896, col: 8, offset: 91380},
 																											expr: &anyMatcher{
-																												line: 2895, col: 9, offset: 91354,
+																												line: 2896, col: 9, offset: 91381,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1692, col: 9, offset: 54860},
+																									pos: position{line: 1693, col: 9, offset: 54887},
 																									expr: &actionExpr{
-																										pos: position{line: 676, col: 14, offset: 21498},
+																										pos: position{line: 677, col: 14, offset: 21525},
 																										run: (*parser).callonExtraListElement221,
 																										expr: &seqExpr{
-																											pos: position{line: 676, col: 14, offset: 21498},
+																											pos: position{line: 677, col: 14, offset: 21525},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2893, col: 11, offset: 91339},
+																													pos: position{line: 2894, col: 11, offset: 91366},
 																													expr: &anyMatcher{
-																														line: 2893, col: 13, offset: 91341,
+																														line: 2894, col: 13, offset: 91368,
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 676, col: 21, offset: 21505},
+																													pos: position{line: 677, col: 21, offset: 21532},
 																													expr: &actionExpr{
-																														pos: position{line: 2876, col: 10, offset: 91005},
+																														pos: position{line: 2877, col: 10, offset: 91032},
 																														run: (*parser).callonExtraListElement226,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2876, col: 10, offset: 91005},
+																															pos:        position{line: 2877, col: 10, offset: 91032},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -26591,28 +26809,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2898, col: 8, offset: 91403},
+																													pos: position{line: 2899, col: 8, offset: 91430},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2885, col: 12, offset: 91176},
+																															pos: position{line: 2886, col: 12, offset: 91203},
 																															run: (*parser).callonExtraListElement229,
 																															expr: &choiceExpr{
-																																pos: position{line: 2885, col: 13, offset: 91177},
+																																pos: position{line: 2886, col: 13, offset: 91204},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2885, col: 13, offset: 91177},
+																																		pos:        position{line: 2886, col: 13, offset: 91204},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2885, col: 20, offset: 91184},
+																																		pos:        position{line: 2886, col: 20, offset: 91211},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2885, col: 29, offset: 91193},
+																																		pos:        position{line: 2886, col: 29, offset: 91220},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -26621,9 +26839,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2895, col: 8, offset: 91353},
+																															pos: position{line: 2896, col: 8, offset: 91380},
 																															expr: &anyMatcher{
-																																line: 2895, col: 9, offset: 91354,
+																																line: 2896, col: 9, offset: 91381,
 																															},
 																														},
 																													},
@@ -26636,18 +26854,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1698, col: 9, offset: 54989},
+																						pos: position{line: 1699, col: 9, offset: 55016},
 																						run: (*parser).callonExtraListElement236,
 																						expr: &seqExpr{
-																							pos: position{line: 1698, col: 9, offset: 54989},
+																							pos: position{line: 1699, col: 9, offset: 55016},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2880, col: 11, offset: 91066},
+																									pos: position{line: 2881, col: 11, offset: 91093},
 																									run: (*parser).callonExtraListElement238,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2880, col: 11, offset: 91066},
+																										pos: position{line: 2881, col: 11, offset: 91093},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2880, col: 11, offset: 91066},
+																											pos:        position{line: 2881, col: 11, offset: 91093},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26656,15 +26874,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1699, col: 9, offset: 55062},
+																									pos:   position{line: 1700, col: 9, offset: 55089},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1699, col: 18, offset: 55071},
+																										pos: position{line: 1700, col: 18, offset: 55098},
 																										run: (*parser).callonExtraListElement242,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1699, col: 18, offset: 55071},
+																											pos: position{line: 1700, col: 18, offset: 55098},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1699, col: 18, offset: 55071},
+																												pos:        position{line: 1700, col: 18, offset: 55098},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -26674,28 +26892,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2898, col: 8, offset: 91403},
+																									pos: position{line: 2899, col: 8, offset: 91430},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2885, col: 12, offset: 91176},
+																											pos: position{line: 2886, col: 12, offset: 91203},
 																											run: (*parser).callonExtraListElement246,
 																											expr: &choiceExpr{
-																												pos: position{line: 2885, col: 13, offset: 91177},
+																												pos: position{line: 2886, col: 13, offset: 91204},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 13, offset: 91177},
+																														pos:        position{line: 2886, col: 13, offset: 91204},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 20, offset: 91184},
+																														pos:        position{line: 2886, col: 20, offset: 91211},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 29, offset: 91193},
+																														pos:        position{line: 2886, col: 29, offset: 91220},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26704,9 +26922,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2895, col: 8, offset: 91353},
+																											pos: position{line: 2896, col: 8, offset: 91380},
 																											expr: &anyMatcher{
-																												line: 2895, col: 9, offset: 91354,
+																												line: 2896, col: 9, offset: 91381,
 																											},
 																										},
 																									},
@@ -26727,50 +26945,50 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1503, col: 13, offset: 48718},
+										pos: position{line: 1504, col: 13, offset: 48745},
 										run: (*parser).callonExtraListElement253,
 										expr: &seqExpr{
-											pos: position{line: 1503, col: 13, offset: 48718},
+											pos: position{line: 1504, col: 13, offset: 48745},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1503, col: 13, offset: 48718},
+													pos:   position{line: 1504, col: 13, offset: 48745},
 													label: "attributes",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1503, col: 24, offset: 48729},
+														pos: position{line: 1504, col: 24, offset: 48756},
 														expr: &ruleRefExpr{
-															pos:  position{line: 1503, col: 25, offset: 48730},
+															pos:  position{line: 1504, col: 25, offset: 48757},
 															name: "BlockAttributes",
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1504, col: 13, offset: 48761},
+													pos:   position{line: 1505, col: 13, offset: 48788},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1504, col: 22, offset: 48770},
+														pos: position{line: 1505, col: 22, offset: 48797},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1580, col: 5, offset: 51085},
+																pos: position{line: 1581, col: 5, offset: 51112},
 																run: (*parser).callonExtraListElement260,
 																expr: &seqExpr{
-																	pos: position{line: 1580, col: 5, offset: 51085},
+																	pos: position{line: 1581, col: 5, offset: 51112},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1580, col: 5, offset: 51085},
+																			pos:   position{line: 1581, col: 5, offset: 51112},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1587, col: 5, offset: 51293},
+																				pos: position{line: 1588, col: 5, offset: 51320},
 																				run: (*parser).callonExtraListElement263,
 																				expr: &seqExpr{
-																					pos: position{line: 1587, col: 5, offset: 51293},
+																					pos: position{line: 1588, col: 5, offset: 51320},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1587, col: 5, offset: 51293},
+																							pos: position{line: 1588, col: 5, offset: 51320},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 91005},
+																								pos: position{line: 2877, col: 10, offset: 91032},
 																								run: (*parser).callonExtraListElement266,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 91005},
+																									pos:        position{line: 2877, col: 10, offset: 91032},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26779,27 +26997,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1587, col: 12, offset: 51300},
+																							pos:   position{line: 1588, col: 12, offset: 51327},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1589, col: 9, offset: 51363},
+																								pos: position{line: 1590, col: 9, offset: 51390},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1589, col: 9, offset: 51363},
+																										pos: position{line: 1590, col: 9, offset: 51390},
 																										run: (*parser).callonExtraListElement270,
 																										expr: &seqExpr{
-																											pos: position{line: 1589, col: 9, offset: 51363},
+																											pos: position{line: 1590, col: 9, offset: 51390},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1589, col: 9, offset: 51363},
+																													pos:   position{line: 1590, col: 9, offset: 51390},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1589, col: 16, offset: 51370},
+																														pos: position{line: 1590, col: 16, offset: 51397},
 																														run: (*parser).callonExtraListElement273,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1589, col: 16, offset: 51370},
+																															pos: position{line: 1590, col: 16, offset: 51397},
 																															expr: &litMatcher{
-																																pos:        position{line: 1589, col: 17, offset: 51371},
+																																pos:        position{line: 1590, col: 17, offset: 51398},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -26808,22 +27026,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1593, col: 9, offset: 51471},
+																													pos: position{line: 1594, col: 9, offset: 51498},
 																													run: (*parser).callonExtraListElement276,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1612, col: 11, offset: 52188},
+																										pos: position{line: 1613, col: 11, offset: 52215},
 																										run: (*parser).callonExtraListElement277,
 																										expr: &seqExpr{
-																											pos: position{line: 1612, col: 11, offset: 52188},
+																											pos: position{line: 1613, col: 11, offset: 52215},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1612, col: 11, offset: 52188},
+																													pos: position{line: 1613, col: 11, offset: 52215},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1612, col: 12, offset: 52189},
+																														pos:        position{line: 1613, col: 12, offset: 52216},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -26831,7 +27049,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1612, col: 20, offset: 52197},
+																													pos:        position{line: 1613, col: 20, offset: 52224},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26840,20 +27058,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1614, col: 13, offset: 52314},
+																										pos: position{line: 1615, col: 13, offset: 52341},
 																										run: (*parser).callonExtraListElement282,
 																										expr: &seqExpr{
-																											pos: position{line: 1614, col: 13, offset: 52314},
+																											pos: position{line: 1615, col: 13, offset: 52341},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1614, col: 14, offset: 52315},
+																													pos:        position{line: 1615, col: 14, offset: 52342},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1614, col: 21, offset: 52322},
+																													pos:        position{line: 1615, col: 21, offset: 52349},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26862,20 +27080,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1616, col: 13, offset: 52442},
+																										pos: position{line: 1617, col: 13, offset: 52469},
 																										run: (*parser).callonExtraListElement286,
 																										expr: &seqExpr{
-																											pos: position{line: 1616, col: 13, offset: 52442},
+																											pos: position{line: 1617, col: 13, offset: 52469},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1616, col: 14, offset: 52443},
+																													pos:        position{line: 1617, col: 14, offset: 52470},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1616, col: 21, offset: 52450},
+																													pos:        position{line: 1617, col: 21, offset: 52477},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26884,15 +27102,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1618, col: 13, offset: 52570},
+																										pos: position{line: 1619, col: 13, offset: 52597},
 																										run: (*parser).callonExtraListElement290,
 																										expr: &seqExpr{
-																											pos: position{line: 1618, col: 13, offset: 52570},
+																											pos: position{line: 1619, col: 13, offset: 52597},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1618, col: 13, offset: 52570},
+																													pos: position{line: 1619, col: 13, offset: 52597},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1618, col: 14, offset: 52571},
+																														pos:        position{line: 1619, col: 14, offset: 52598},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -26900,7 +27118,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1618, col: 26, offset: 52583},
+																													pos:        position{line: 1619, col: 26, offset: 52610},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26909,15 +27127,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1620, col: 13, offset: 52703},
+																										pos: position{line: 1621, col: 13, offset: 52730},
 																										run: (*parser).callonExtraListElement295,
 																										expr: &seqExpr{
-																											pos: position{line: 1620, col: 13, offset: 52703},
+																											pos: position{line: 1621, col: 13, offset: 52730},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1620, col: 13, offset: 52703},
+																													pos: position{line: 1621, col: 13, offset: 52730},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1620, col: 14, offset: 52704},
+																														pos:        position{line: 1621, col: 14, offset: 52731},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -26925,7 +27143,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1620, col: 26, offset: 52716},
+																													pos:        position{line: 1621, col: 26, offset: 52743},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26937,12 +27155,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2880, col: 11, offset: 91066},
+																							pos: position{line: 2881, col: 11, offset: 91093},
 																							run: (*parser).callonExtraListElement300,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2880, col: 11, offset: 91066},
+																								pos: position{line: 2881, col: 11, offset: 91093},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 11, offset: 91066},
+																									pos:        position{line: 2881, col: 11, offset: 91093},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26955,26 +27173,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1581, col: 5, offset: 51124},
+																			pos:   position{line: 1582, col: 5, offset: 51151},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1528, col: 5, offset: 49591},
+																				pos: position{line: 1529, col: 5, offset: 49618},
 																				run: (*parser).callonExtraListElement304,
 																				expr: &seqExpr{
-																					pos: position{line: 1528, col: 5, offset: 49591},
+																					pos: position{line: 1529, col: 5, offset: 49618},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1528, col: 5, offset: 49591},
+																							pos:   position{line: 1529, col: 5, offset: 49618},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1528, col: 14, offset: 49600},
+																								pos: position{line: 1529, col: 14, offset: 49627},
 																								expr: &actionExpr{
-																									pos: position{line: 1528, col: 15, offset: 49601},
+																									pos: position{line: 1529, col: 15, offset: 49628},
 																									run: (*parser).callonExtraListElement308,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1528, col: 15, offset: 49601},
+																										pos: position{line: 1529, col: 15, offset: 49628},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1528, col: 15, offset: 49601},
+																											pos:        position{line: 1529, col: 15, offset: 49628},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26985,28 +27203,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91403},
+																							pos: position{line: 2899, col: 8, offset: 91430},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91176},
+																									pos: position{line: 2886, col: 12, offset: 91203},
 																									run: (*parser).callonExtraListElement312,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91177},
+																										pos: position{line: 2886, col: 13, offset: 91204},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91177},
+																												pos:        position{line: 2886, col: 13, offset: 91204},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91184},
+																												pos:        position{line: 2886, col: 20, offset: 91211},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91193},
+																												pos:        position{line: 2886, col: 29, offset: 91220},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27015,9 +27233,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91353},
+																									pos: position{line: 2896, col: 8, offset: 91380},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91354,
+																										line: 2896, col: 9, offset: 91381,
 																									},
 																								},
 																							},
@@ -27030,27 +27248,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1630, col: 5, offset: 52982},
+																pos: position{line: 1631, col: 5, offset: 53009},
 																run: (*parser).callonExtraListElement319,
 																expr: &seqExpr{
-																	pos: position{line: 1630, col: 5, offset: 52982},
+																	pos: position{line: 1631, col: 5, offset: 53009},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1630, col: 5, offset: 52982},
+																			pos:   position{line: 1631, col: 5, offset: 53009},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1637, col: 5, offset: 53255},
+																				pos: position{line: 1638, col: 5, offset: 53282},
 																				run: (*parser).callonExtraListElement322,
 																				expr: &seqExpr{
-																					pos: position{line: 1637, col: 5, offset: 53255},
+																					pos: position{line: 1638, col: 5, offset: 53282},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1637, col: 5, offset: 53255},
+																							pos: position{line: 1638, col: 5, offset: 53282},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 91005},
+																								pos: position{line: 2877, col: 10, offset: 91032},
 																								run: (*parser).callonExtraListElement325,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 91005},
+																									pos:        position{line: 2877, col: 10, offset: 91032},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27059,24 +27277,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1638, col: 5, offset: 53267},
+																							pos:   position{line: 1639, col: 5, offset: 53294},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1639, col: 9, offset: 53283},
+																								pos: position{line: 1640, col: 9, offset: 53310},
 																								run: (*parser).callonExtraListElement328,
 																								expr: &choiceExpr{
-																									pos: position{line: 1639, col: 10, offset: 53284},
+																									pos: position{line: 1640, col: 10, offset: 53311},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1639, col: 11, offset: 53285},
+																											pos:        position{line: 1640, col: 11, offset: 53312},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1639, col: 18, offset: 53292},
+																											pos: position{line: 1640, col: 18, offset: 53319},
 																											expr: &litMatcher{
-																												pos:        position{line: 1639, col: 19, offset: 53293},
+																												pos:        position{line: 1640, col: 19, offset: 53320},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -27087,16 +27305,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1642, col: 7, offset: 53383},
+																							pos: position{line: 1643, col: 7, offset: 53410},
 																							run: (*parser).callonExtraListElement333,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2880, col: 11, offset: 91066},
+																							pos: position{line: 2881, col: 11, offset: 91093},
 																							run: (*parser).callonExtraListElement334,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2880, col: 11, offset: 91066},
+																								pos: position{line: 2881, col: 11, offset: 91093},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 11, offset: 91066},
+																									pos:        position{line: 2881, col: 11, offset: 91093},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27109,56 +27327,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1631, col: 5, offset: 53023},
+																			pos:   position{line: 1632, col: 5, offset: 53050},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1631, col: 16, offset: 53034},
+																				pos: position{line: 1632, col: 16, offset: 53061},
 																				expr: &actionExpr{
-																					pos: position{line: 1652, col: 5, offset: 53648},
+																					pos: position{line: 1653, col: 5, offset: 53675},
 																					run: (*parser).callonExtraListElement339,
 																					expr: &seqExpr{
-																						pos: position{line: 1652, col: 5, offset: 53648},
+																						pos: position{line: 1653, col: 5, offset: 53675},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1652, col: 5, offset: 53648},
+																								pos: position{line: 1653, col: 5, offset: 53675},
 																								expr: &litMatcher{
-																									pos:        position{line: 1652, col: 6, offset: 53649},
+																									pos:        position{line: 1653, col: 6, offset: 53676},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1652, col: 10, offset: 53653},
+																								pos:   position{line: 1653, col: 10, offset: 53680},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1653, col: 7, offset: 53667},
+																									pos: position{line: 1654, col: 7, offset: 53694},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1653, col: 7, offset: 53667},
+																											pos: position{line: 1654, col: 7, offset: 53694},
 																											run: (*parser).callonExtraListElement345,
 																											expr: &litMatcher{
-																												pos:        position{line: 1653, col: 7, offset: 53667},
+																												pos:        position{line: 1654, col: 7, offset: 53694},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1654, col: 7, offset: 53712},
+																											pos: position{line: 1655, col: 7, offset: 53739},
 																											run: (*parser).callonExtraListElement347,
 																											expr: &litMatcher{
-																												pos:        position{line: 1654, col: 7, offset: 53712},
+																												pos:        position{line: 1655, col: 7, offset: 53739},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1655, col: 7, offset: 53755},
+																											pos: position{line: 1656, col: 7, offset: 53782},
 																											run: (*parser).callonExtraListElement349,
 																											expr: &litMatcher{
-																												pos:        position{line: 1655, col: 7, offset: 53755},
+																												pos:        position{line: 1656, col: 7, offset: 53782},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -27168,12 +27386,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2880, col: 11, offset: 91066},
+																								pos: position{line: 2881, col: 11, offset: 91093},
 																								run: (*parser).callonExtraListElement351,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2880, col: 11, offset: 91066},
+																									pos: position{line: 2881, col: 11, offset: 91093},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2880, col: 11, offset: 91066},
+																										pos:        position{line: 2881, col: 11, offset: 91093},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27187,26 +27405,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1632, col: 5, offset: 53073},
+																			pos:   position{line: 1633, col: 5, offset: 53100},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1528, col: 5, offset: 49591},
+																				pos: position{line: 1529, col: 5, offset: 49618},
 																				run: (*parser).callonExtraListElement355,
 																				expr: &seqExpr{
-																					pos: position{line: 1528, col: 5, offset: 49591},
+																					pos: position{line: 1529, col: 5, offset: 49618},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1528, col: 5, offset: 49591},
+																							pos:   position{line: 1529, col: 5, offset: 49618},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1528, col: 14, offset: 49600},
+																								pos: position{line: 1529, col: 14, offset: 49627},
 																								expr: &actionExpr{
-																									pos: position{line: 1528, col: 15, offset: 49601},
+																									pos: position{line: 1529, col: 15, offset: 49628},
 																									run: (*parser).callonExtraListElement359,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1528, col: 15, offset: 49601},
+																										pos: position{line: 1529, col: 15, offset: 49628},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1528, col: 15, offset: 49601},
+																											pos:        position{line: 1529, col: 15, offset: 49628},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27217,28 +27435,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91403},
+																							pos: position{line: 2899, col: 8, offset: 91430},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91176},
+																									pos: position{line: 2886, col: 12, offset: 91203},
 																									run: (*parser).callonExtraListElement363,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91177},
+																										pos: position{line: 2886, col: 13, offset: 91204},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91177},
+																												pos:        position{line: 2886, col: 13, offset: 91204},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91184},
+																												pos:        position{line: 2886, col: 20, offset: 91211},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91193},
+																												pos:        position{line: 2886, col: 29, offset: 91220},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27247,9 +27465,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91353},
+																									pos: position{line: 2896, col: 8, offset: 91380},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91354,
+																										line: 2896, col: 9, offset: 91381,
 																									},
 																								},
 																							},
@@ -27262,36 +27480,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1721, col: 5, offset: 55627},
+																pos: position{line: 1722, col: 5, offset: 55654},
 																run: (*parser).callonExtraListElement370,
 																expr: &seqExpr{
-																	pos: position{line: 1721, col: 5, offset: 55627},
+																	pos: position{line: 1722, col: 5, offset: 55654},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1721, col: 5, offset: 55627},
+																			pos:   position{line: 1722, col: 5, offset: 55654},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1727, col: 5, offset: 55824},
+																				pos: position{line: 1728, col: 5, offset: 55851},
 																				run: (*parser).callonExtraListElement373,
 																				expr: &seqExpr{
-																					pos: position{line: 1727, col: 5, offset: 55824},
+																					pos: position{line: 1728, col: 5, offset: 55851},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1727, col: 5, offset: 55824},
+																							pos:        position{line: 1728, col: 5, offset: 55851},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1727, col: 9, offset: 55828},
+																							pos:   position{line: 1728, col: 9, offset: 55855},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1727, col: 14, offset: 55833},
+																								pos: position{line: 1728, col: 14, offset: 55860},
 																								run: (*parser).callonExtraListElement377,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1727, col: 14, offset: 55833},
+																									pos: position{line: 1728, col: 14, offset: 55860},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1727, col: 14, offset: 55833},
+																										pos:        position{line: 1728, col: 14, offset: 55860},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -27301,18 +27519,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1727, col: 62, offset: 55881},
+																							pos:        position{line: 1728, col: 62, offset: 55908},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2880, col: 11, offset: 91066},
+																							pos: position{line: 2881, col: 11, offset: 91093},
 																							run: (*parser).callonExtraListElement381,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2880, col: 11, offset: 91066},
+																								pos: position{line: 2881, col: 11, offset: 91093},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 11, offset: 91066},
+																									pos:        position{line: 2881, col: 11, offset: 91093},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27325,26 +27543,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1722, col: 5, offset: 55663},
+																			pos:   position{line: 1723, col: 5, offset: 55690},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1528, col: 5, offset: 49591},
+																				pos: position{line: 1529, col: 5, offset: 49618},
 																				run: (*parser).callonExtraListElement385,
 																				expr: &seqExpr{
-																					pos: position{line: 1528, col: 5, offset: 49591},
+																					pos: position{line: 1529, col: 5, offset: 49618},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1528, col: 5, offset: 49591},
+																							pos:   position{line: 1529, col: 5, offset: 49618},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1528, col: 14, offset: 49600},
+																								pos: position{line: 1529, col: 14, offset: 49627},
 																								expr: &actionExpr{
-																									pos: position{line: 1528, col: 15, offset: 49601},
+																									pos: position{line: 1529, col: 15, offset: 49628},
 																									run: (*parser).callonExtraListElement389,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1528, col: 15, offset: 49601},
+																										pos: position{line: 1529, col: 15, offset: 49628},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1528, col: 15, offset: 49601},
+																											pos:        position{line: 1529, col: 15, offset: 49628},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27355,28 +27573,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91403},
+																							pos: position{line: 2899, col: 8, offset: 91430},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91176},
+																									pos: position{line: 2886, col: 12, offset: 91203},
 																									run: (*parser).callonExtraListElement393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91177},
+																										pos: position{line: 2886, col: 13, offset: 91204},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91177},
+																												pos:        position{line: 2886, col: 13, offset: 91204},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91184},
+																												pos:        position{line: 2886, col: 20, offset: 91211},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91193},
+																												pos:        position{line: 2886, col: 29, offset: 91220},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27385,9 +27603,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91353},
+																									pos: position{line: 2896, col: 8, offset: 91380},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91354,
+																										line: 2896, col: 9, offset: 91381,
 																									},
 																								},
 																							},
@@ -27400,35 +27618,35 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1664, col: 5, offset: 53948},
+																pos: position{line: 1665, col: 5, offset: 53975},
 																run: (*parser).callonExtraListElement400,
 																expr: &seqExpr{
-																	pos: position{line: 1664, col: 5, offset: 53948},
+																	pos: position{line: 1665, col: 5, offset: 53975},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1664, col: 5, offset: 53948},
+																			pos:   position{line: 1665, col: 5, offset: 53975},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1672, col: 5, offset: 54274},
+																				pos: position{line: 1673, col: 5, offset: 54301},
 																				run: (*parser).callonExtraListElement403,
 																				expr: &seqExpr{
-																					pos: position{line: 1672, col: 5, offset: 54274},
+																					pos: position{line: 1673, col: 5, offset: 54301},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1672, col: 5, offset: 54274},
+																							pos: position{line: 1673, col: 5, offset: 54301},
 																							expr: &seqExpr{
-																								pos: position{line: 2488, col: 31, offset: 80112},
+																								pos: position{line: 2489, col: 31, offset: 80139},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2488, col: 31, offset: 80112},
+																										pos:        position{line: 2489, col: 31, offset: 80139},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2488, col: 36, offset: 80117},
+																										pos: position{line: 2489, col: 36, offset: 80144},
 																										expr: &litMatcher{
-																											pos:        position{line: 2488, col: 37, offset: 80118},
+																											pos:        position{line: 2489, col: 37, offset: 80145},
 																											val:        "//",
 																											ignoreCase: false,
 																											want:       "\"//\"",
@@ -27438,28 +27656,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1673, col: 5, offset: 54306},
+																							pos: position{line: 1674, col: 5, offset: 54333},
 																							expr: &seqExpr{
-																								pos: position{line: 1673, col: 6, offset: 54307},
+																								pos: position{line: 1674, col: 6, offset: 54334},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1673, col: 6, offset: 54307},
+																										pos: position{line: 1674, col: 6, offset: 54334},
 																										expr: &actionExpr{
-																											pos: position{line: 1678, col: 5, offset: 54457},
+																											pos: position{line: 1679, col: 5, offset: 54484},
 																											run: (*parser).callonExtraListElement413,
 																											expr: &seqExpr{
-																												pos: position{line: 1678, col: 5, offset: 54457},
+																												pos: position{line: 1679, col: 5, offset: 54484},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1678, col: 5, offset: 54457},
+																														pos:   position{line: 1679, col: 5, offset: 54484},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1678, col: 16, offset: 54468},
+																															pos: position{line: 1679, col: 16, offset: 54495},
 																															run: (*parser).callonExtraListElement416,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1678, col: 16, offset: 54468},
+																																pos: position{line: 1679, col: 16, offset: 54495},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1678, col: 17, offset: 54469},
+																																	pos:        position{line: 1679, col: 17, offset: 54496},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -27468,7 +27686,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1681, col: 5, offset: 54526},
+																														pos: position{line: 1682, col: 5, offset: 54553},
 																														run: (*parser).callonExtraListElement419,
 																													},
 																												},
@@ -27476,30 +27694,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1673, col: 35, offset: 54336},
+																										pos: position{line: 1674, col: 35, offset: 54363},
 																										expr: &choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91403},
+																											pos: position{line: 2899, col: 8, offset: 91430},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91176},
+																													pos: position{line: 2886, col: 12, offset: 91203},
 																													run: (*parser).callonExtraListElement422,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91177},
+																														pos: position{line: 2886, col: 13, offset: 91204},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91177},
+																																pos:        position{line: 2886, col: 13, offset: 91204},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91184},
+																																pos:        position{line: 2886, col: 20, offset: 91211},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91193},
+																																pos:        position{line: 2886, col: 29, offset: 91220},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -27508,16 +27726,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91353},
+																													pos: position{line: 2896, col: 8, offset: 91380},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91354,
+																														line: 2896, col: 9, offset: 91381,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1673, col: 40, offset: 54341,
+																										line: 1674, col: 40, offset: 54368,
 																									},
 																								},
 																							},
@@ -27527,24 +27745,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1665, col: 5, offset: 53983},
+																			pos:   position{line: 1666, col: 5, offset: 54010},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1678, col: 5, offset: 54457},
+																				pos: position{line: 1679, col: 5, offset: 54484},
 																				run: (*parser).callonExtraListElement431,
 																				expr: &seqExpr{
-																					pos: position{line: 1678, col: 5, offset: 54457},
+																					pos: position{line: 1679, col: 5, offset: 54484},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1678, col: 5, offset: 54457},
+																							pos:   position{line: 1679, col: 5, offset: 54484},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1678, col: 16, offset: 54468},
+																								pos: position{line: 1679, col: 16, offset: 54495},
 																								run: (*parser).callonExtraListElement434,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1678, col: 16, offset: 54468},
+																									pos: position{line: 1679, col: 16, offset: 54495},
 																									expr: &litMatcher{
-																										pos:        position{line: 1678, col: 17, offset: 54469},
+																										pos:        position{line: 1679, col: 17, offset: 54496},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -27553,7 +27771,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1681, col: 5, offset: 54526},
+																							pos: position{line: 1682, col: 5, offset: 54553},
 																							run: (*parser).callonExtraListElement437,
 																						},
 																					},
@@ -27561,24 +27779,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1666, col: 5, offset: 54028},
+																			pos:   position{line: 1667, col: 5, offset: 54055},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1689, col: 5, offset: 54775},
+																				pos: position{line: 1690, col: 5, offset: 54802},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1691, col: 9, offset: 54841},
+																						pos: position{line: 1692, col: 9, offset: 54868},
 																						run: (*parser).callonExtraListElement440,
 																						expr: &seqExpr{
-																							pos: position{line: 1691, col: 9, offset: 54841},
+																							pos: position{line: 1692, col: 9, offset: 54868},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1691, col: 9, offset: 54841},
+																									pos: position{line: 1692, col: 9, offset: 54868},
 																									expr: &actionExpr{
-																										pos: position{line: 2876, col: 10, offset: 91005},
+																										pos: position{line: 2877, col: 10, offset: 91032},
 																										run: (*parser).callonExtraListElement443,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2876, col: 10, offset: 91005},
+																											pos:        position{line: 2877, col: 10, offset: 91032},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27587,28 +27805,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2898, col: 8, offset: 91403},
+																									pos: position{line: 2899, col: 8, offset: 91430},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2885, col: 12, offset: 91176},
+																											pos: position{line: 2886, col: 12, offset: 91203},
 																											run: (*parser).callonExtraListElement446,
 																											expr: &choiceExpr{
-																												pos: position{line: 2885, col: 13, offset: 91177},
+																												pos: position{line: 2886, col: 13, offset: 91204},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 13, offset: 91177},
+																														pos:        position{line: 2886, col: 13, offset: 91204},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 20, offset: 91184},
+																														pos:        position{line: 2886, col: 20, offset: 91211},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 29, offset: 91193},
+																														pos:        position{line: 2886, col: 29, offset: 91220},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27617,34 +27835,34 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2895, col: 8, offset: 91353},
+																											pos: position{line: 2896, col: 8, offset: 91380},
 																											expr: &anyMatcher{
-																												line: 2895, col: 9, offset: 91354,
+																												line: 2896, col: 9, offset: 91381,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1692, col: 9, offset: 54860},
+																									pos: position{line: 1693, col: 9, offset: 54887},
 																									expr: &actionExpr{
-																										pos: position{line: 676, col: 14, offset: 21498},
+																										pos: position{line: 677, col: 14, offset: 21525},
 																										run: (*parser).callonExtraListElement454,
 																										expr: &seqExpr{
-																											pos: position{line: 676, col: 14, offset: 21498},
+																											pos: position{line: 677, col: 14, offset: 21525},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2893, col: 11, offset: 91339},
+																													pos: position{line: 2894, col: 11, offset: 91366},
 																													expr: &anyMatcher{
-																														line: 2893, col: 13, offset: 91341,
+																														line: 2894, col: 13, offset: 91368,
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 676, col: 21, offset: 21505},
+																													pos: position{line: 677, col: 21, offset: 21532},
 																													expr: &actionExpr{
-																														pos: position{line: 2876, col: 10, offset: 91005},
+																														pos: position{line: 2877, col: 10, offset: 91032},
 																														run: (*parser).callonExtraListElement459,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2876, col: 10, offset: 91005},
+																															pos:        position{line: 2877, col: 10, offset: 91032},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27653,28 +27871,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2898, col: 8, offset: 91403},
+																													pos: position{line: 2899, col: 8, offset: 91430},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2885, col: 12, offset: 91176},
+																															pos: position{line: 2886, col: 12, offset: 91203},
 																															run: (*parser).callonExtraListElement462,
 																															expr: &choiceExpr{
-																																pos: position{line: 2885, col: 13, offset: 91177},
+																																pos: position{line: 2886, col: 13, offset: 91204},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2885, col: 13, offset: 91177},
+																																		pos:        position{line: 2886, col: 13, offset: 91204},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2885, col: 20, offset: 91184},
+																																		pos:        position{line: 2886, col: 20, offset: 91211},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2885, col: 29, offset: 91193},
+																																		pos:        position{line: 2886, col: 29, offset: 91220},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -27683,9 +27901,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2895, col: 8, offset: 91353},
+																															pos: position{line: 2896, col: 8, offset: 91380},
 																															expr: &anyMatcher{
-																																line: 2895, col: 9, offset: 91354,
+																																line: 2896, col: 9, offset: 91381,
 																															},
 																														},
 																													},
@@ -27698,18 +27916,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1698, col: 9, offset: 54989},
+																						pos: position{line: 1699, col: 9, offset: 55016},
 																						run: (*parser).callonExtraListElement469,
 																						expr: &seqExpr{
-																							pos: position{line: 1698, col: 9, offset: 54989},
+																							pos: position{line: 1699, col: 9, offset: 55016},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2880, col: 11, offset: 91066},
+																									pos: position{line: 2881, col: 11, offset: 91093},
 																									run: (*parser).callonExtraListElement471,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2880, col: 11, offset: 91066},
+																										pos: position{line: 2881, col: 11, offset: 91093},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2880, col: 11, offset: 91066},
+																											pos:        position{line: 2881, col: 11, offset: 91093},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27718,15 +27936,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1699, col: 9, offset: 55062},
+																									pos:   position{line: 1700, col: 9, offset: 55089},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1699, col: 18, offset: 55071},
+																										pos: position{line: 1700, col: 18, offset: 55098},
 																										run: (*parser).callonExtraListElement475,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1699, col: 18, offset: 55071},
+																											pos: position{line: 1700, col: 18, offset: 55098},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1699, col: 18, offset: 55071},
+																												pos:        position{line: 1700, col: 18, offset: 55098},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -27736,28 +27954,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2898, col: 8, offset: 91403},
+																									pos: position{line: 2899, col: 8, offset: 91430},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2885, col: 12, offset: 91176},
+																											pos: position{line: 2886, col: 12, offset: 91203},
 																											run: (*parser).callonExtraListElement479,
 																											expr: &choiceExpr{
-																												pos: position{line: 2885, col: 13, offset: 91177},
+																												pos: position{line: 2886, col: 13, offset: 91204},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 13, offset: 91177},
+																														pos:        position{line: 2886, col: 13, offset: 91204},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 20, offset: 91184},
+																														pos:        position{line: 2886, col: 20, offset: 91211},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 29, offset: 91193},
+																														pos:        position{line: 2886, col: 29, offset: 91220},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27766,9 +27984,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2895, col: 8, offset: 91353},
+																											pos: position{line: 2896, col: 8, offset: 91380},
 																											expr: &anyMatcher{
-																												line: 2895, col: 9, offset: 91354,
+																												line: 2896, col: 9, offset: 91381,
 																											},
 																										},
 																									},
@@ -27789,40 +28007,40 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1507, col: 11, offset: 48955},
+										pos:  position{line: 1508, col: 11, offset: 48982},
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2483, col: 22, offset: 79891},
+										pos: position{line: 2484, col: 22, offset: 79918},
 										run: (*parser).callonExtraListElement487,
 										expr: &seqExpr{
-											pos: position{line: 2483, col: 22, offset: 79891},
+											pos: position{line: 2484, col: 22, offset: 79918},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2488, col: 31, offset: 80112},
+													pos:        position{line: 2489, col: 31, offset: 80139},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2488, col: 36, offset: 80117},
+													pos: position{line: 2489, col: 36, offset: 80144},
 													expr: &litMatcher{
-														pos:        position{line: 2488, col: 37, offset: 80118},
+														pos:        position{line: 2489, col: 37, offset: 80145},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2483, col: 49, offset: 79918},
+													pos:   position{line: 2484, col: 49, offset: 79945},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2822, col: 13, offset: 89531},
+														pos: position{line: 2823, col: 13, offset: 89558},
 														run: (*parser).callonExtraListElement493,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2822, col: 13, offset: 89531},
+															pos: position{line: 2823, col: 13, offset: 89558},
 															expr: &charClassMatcher{
-																pos:        position{line: 2822, col: 13, offset: 89531},
+																pos:        position{line: 2823, col: 13, offset: 89558},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -27832,28 +28050,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2898, col: 8, offset: 91403},
+													pos: position{line: 2899, col: 8, offset: 91430},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91176},
+															pos: position{line: 2886, col: 12, offset: 91203},
 															run: (*parser).callonExtraListElement497,
 															expr: &choiceExpr{
-																pos: position{line: 2885, col: 13, offset: 91177},
+																pos: position{line: 2886, col: 13, offset: 91204},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 13, offset: 91177},
+																		pos:        position{line: 2886, col: 13, offset: 91204},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 20, offset: 91184},
+																		pos:        position{line: 2886, col: 20, offset: 91211},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 29, offset: 91193},
+																		pos:        position{line: 2886, col: 29, offset: 91220},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -27862,9 +28080,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2895, col: 8, offset: 91353},
+															pos: position{line: 2896, col: 8, offset: 91380},
 															expr: &anyMatcher{
-																line: 2895, col: 9, offset: 91354,
+																line: 2896, col: 9, offset: 91381,
 															},
 														},
 													},
@@ -27873,32 +28091,32 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1515, col: 5, offset: 49233},
+										pos: position{line: 1516, col: 5, offset: 49260},
 										run: (*parser).callonExtraListElement504,
 										expr: &seqExpr{
-											pos: position{line: 1515, col: 5, offset: 49233},
+											pos: position{line: 1516, col: 5, offset: 49260},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 1515, col: 5, offset: 49233},
+													pos: position{line: 1516, col: 5, offset: 49260},
 													expr: &actionExpr{
-														pos: position{line: 676, col: 14, offset: 21498},
+														pos: position{line: 677, col: 14, offset: 21525},
 														run: (*parser).callonExtraListElement507,
 														expr: &seqExpr{
-															pos: position{line: 676, col: 14, offset: 21498},
+															pos: position{line: 677, col: 14, offset: 21525},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2893, col: 11, offset: 91339},
+																	pos: position{line: 2894, col: 11, offset: 91366},
 																	expr: &anyMatcher{
-																		line: 2893, col: 13, offset: 91341,
+																		line: 2894, col: 13, offset: 91368,
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 676, col: 21, offset: 21505},
+																	pos: position{line: 677, col: 21, offset: 21532},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 91005},
+																		pos: position{line: 2877, col: 10, offset: 91032},
 																		run: (*parser).callonExtraListElement512,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 91005},
+																			pos:        position{line: 2877, col: 10, offset: 91032},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27907,28 +28125,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91403},
+																	pos: position{line: 2899, col: 8, offset: 91430},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91176},
+																			pos: position{line: 2886, col: 12, offset: 91203},
 																			run: (*parser).callonExtraListElement515,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91177},
+																				pos: position{line: 2886, col: 13, offset: 91204},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91177},
+																						pos:        position{line: 2886, col: 13, offset: 91204},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91184},
+																						pos:        position{line: 2886, col: 20, offset: 91211},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91193},
+																						pos:        position{line: 2886, col: 29, offset: 91220},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -27937,9 +28155,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91353},
+																			pos: position{line: 2896, col: 8, offset: 91380},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91354,
+																				line: 2896, col: 9, offset: 91381,
 																			},
 																		},
 																	},
@@ -27949,23 +28167,23 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1516, col: 5, offset: 49248},
+													pos: position{line: 1517, col: 5, offset: 49275},
 													expr: &seqExpr{
-														pos: position{line: 1546, col: 27, offset: 50074},
+														pos: position{line: 1547, col: 27, offset: 50101},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 1546, col: 27, offset: 50074},
+																pos:        position{line: 1547, col: 27, offset: 50101},
 																val:        "+",
 																ignoreCase: false,
 																want:       "\"+\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 1546, col: 31, offset: 50078},
+																pos: position{line: 1547, col: 31, offset: 50105},
 																expr: &actionExpr{
-																	pos: position{line: 2876, col: 10, offset: 91005},
+																	pos: position{line: 2877, col: 10, offset: 91032},
 																	run: (*parser).callonExtraListElement526,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2876, col: 10, offset: 91005},
+																		pos:        position{line: 2877, col: 10, offset: 91032},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -27974,25 +28192,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2885, col: 12, offset: 91176},
+																pos: position{line: 2886, col: 12, offset: 91203},
 																run: (*parser).callonExtraListElement528,
 																expr: &choiceExpr{
-																	pos: position{line: 2885, col: 13, offset: 91177},
+																	pos: position{line: 2886, col: 13, offset: 91204},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 13, offset: 91177},
+																			pos:        position{line: 2886, col: 13, offset: 91204},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 20, offset: 91184},
+																			pos:        position{line: 2886, col: 20, offset: 91211},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 29, offset: 91193},
+																			pos:        position{line: 2886, col: 29, offset: 91220},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -28004,20 +28222,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1517, col: 5, offset: 49276},
+													pos: position{line: 1518, col: 5, offset: 49303},
 													expr: &actionExpr{
-														pos: position{line: 1587, col: 5, offset: 51293},
+														pos: position{line: 1588, col: 5, offset: 51320},
 														run: (*parser).callonExtraListElement534,
 														expr: &seqExpr{
-															pos: position{line: 1587, col: 5, offset: 51293},
+															pos: position{line: 1588, col: 5, offset: 51320},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1587, col: 5, offset: 51293},
+																	pos: position{line: 1588, col: 5, offset: 51320},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 91005},
+																		pos: position{line: 2877, col: 10, offset: 91032},
 																		run: (*parser).callonExtraListElement537,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 91005},
+																			pos:        position{line: 2877, col: 10, offset: 91032},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28026,27 +28244,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1587, col: 12, offset: 51300},
+																	pos:   position{line: 1588, col: 12, offset: 51327},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1589, col: 9, offset: 51363},
+																		pos: position{line: 1590, col: 9, offset: 51390},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1589, col: 9, offset: 51363},
+																				pos: position{line: 1590, col: 9, offset: 51390},
 																				run: (*parser).callonExtraListElement541,
 																				expr: &seqExpr{
-																					pos: position{line: 1589, col: 9, offset: 51363},
+																					pos: position{line: 1590, col: 9, offset: 51390},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1589, col: 9, offset: 51363},
+																							pos:   position{line: 1590, col: 9, offset: 51390},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1589, col: 16, offset: 51370},
+																								pos: position{line: 1590, col: 16, offset: 51397},
 																								run: (*parser).callonExtraListElement544,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1589, col: 16, offset: 51370},
+																									pos: position{line: 1590, col: 16, offset: 51397},
 																									expr: &litMatcher{
-																										pos:        position{line: 1589, col: 17, offset: 51371},
+																										pos:        position{line: 1590, col: 17, offset: 51398},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -28055,22 +28273,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1593, col: 9, offset: 51471},
+																							pos: position{line: 1594, col: 9, offset: 51498},
 																							run: (*parser).callonExtraListElement547,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1612, col: 11, offset: 52188},
+																				pos: position{line: 1613, col: 11, offset: 52215},
 																				run: (*parser).callonExtraListElement548,
 																				expr: &seqExpr{
-																					pos: position{line: 1612, col: 11, offset: 52188},
+																					pos: position{line: 1613, col: 11, offset: 52215},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1612, col: 11, offset: 52188},
+																							pos: position{line: 1613, col: 11, offset: 52215},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1612, col: 12, offset: 52189},
+																								pos:        position{line: 1613, col: 12, offset: 52216},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -28078,7 +28296,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1612, col: 20, offset: 52197},
+																							pos:        position{line: 1613, col: 20, offset: 52224},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28087,20 +28305,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1614, col: 13, offset: 52314},
+																				pos: position{line: 1615, col: 13, offset: 52341},
 																				run: (*parser).callonExtraListElement553,
 																				expr: &seqExpr{
-																					pos: position{line: 1614, col: 13, offset: 52314},
+																					pos: position{line: 1615, col: 13, offset: 52341},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1614, col: 14, offset: 52315},
+																							pos:        position{line: 1615, col: 14, offset: 52342},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1614, col: 21, offset: 52322},
+																							pos:        position{line: 1615, col: 21, offset: 52349},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28109,20 +28327,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1616, col: 13, offset: 52442},
+																				pos: position{line: 1617, col: 13, offset: 52469},
 																				run: (*parser).callonExtraListElement557,
 																				expr: &seqExpr{
-																					pos: position{line: 1616, col: 13, offset: 52442},
+																					pos: position{line: 1617, col: 13, offset: 52469},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1616, col: 14, offset: 52443},
+																							pos:        position{line: 1617, col: 14, offset: 52470},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1616, col: 21, offset: 52450},
+																							pos:        position{line: 1617, col: 21, offset: 52477},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28131,15 +28349,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1618, col: 13, offset: 52570},
+																				pos: position{line: 1619, col: 13, offset: 52597},
 																				run: (*parser).callonExtraListElement561,
 																				expr: &seqExpr{
-																					pos: position{line: 1618, col: 13, offset: 52570},
+																					pos: position{line: 1619, col: 13, offset: 52597},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1618, col: 13, offset: 52570},
+																							pos: position{line: 1619, col: 13, offset: 52597},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1618, col: 14, offset: 52571},
+																								pos:        position{line: 1619, col: 14, offset: 52598},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -28147,7 +28365,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1618, col: 26, offset: 52583},
+																							pos:        position{line: 1619, col: 26, offset: 52610},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -28156,15 +28374,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1620, col: 13, offset: 52703},
+																				pos: position{line: 1621, col: 13, offset: 52730},
 																				run: (*parser).callonExtraListElement566,
 																				expr: &seqExpr{
-																					pos: position{line: 1620, col: 13, offset: 52703},
+																					pos: position{line: 1621, col: 13, offset: 52730},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1620, col: 13, offset: 52703},
+																							pos: position{line: 1621, col: 13, offset: 52730},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1620, col: 14, offset: 52704},
+																								pos:        position{line: 1621, col: 14, offset: 52731},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -28172,7 +28390,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1620, col: 26, offset: 52716},
+																							pos:        position{line: 1621, col: 26, offset: 52743},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -28184,12 +28402,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2880, col: 11, offset: 91066},
+																	pos: position{line: 2881, col: 11, offset: 91093},
 																	run: (*parser).callonExtraListElement571,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2880, col: 11, offset: 91066},
+																		pos: position{line: 2881, col: 11, offset: 91093},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 11, offset: 91066},
+																			pos:        position{line: 2881, col: 11, offset: 91093},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28202,20 +28420,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1518, col: 5, offset: 49306},
+													pos: position{line: 1519, col: 5, offset: 49333},
 													expr: &actionExpr{
-														pos: position{line: 1637, col: 5, offset: 53255},
+														pos: position{line: 1638, col: 5, offset: 53282},
 														run: (*parser).callonExtraListElement575,
 														expr: &seqExpr{
-															pos: position{line: 1637, col: 5, offset: 53255},
+															pos: position{line: 1638, col: 5, offset: 53282},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1637, col: 5, offset: 53255},
+																	pos: position{line: 1638, col: 5, offset: 53282},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 91005},
+																		pos: position{line: 2877, col: 10, offset: 91032},
 																		run: (*parser).callonExtraListElement578,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 91005},
+																			pos:        position{line: 2877, col: 10, offset: 91032},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28224,24 +28442,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1638, col: 5, offset: 53267},
+																	pos:   position{line: 1639, col: 5, offset: 53294},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1639, col: 9, offset: 53283},
+																		pos: position{line: 1640, col: 9, offset: 53310},
 																		run: (*parser).callonExtraListElement581,
 																		expr: &choiceExpr{
-																			pos: position{line: 1639, col: 10, offset: 53284},
+																			pos: position{line: 1640, col: 10, offset: 53311},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1639, col: 11, offset: 53285},
+																					pos:        position{line: 1640, col: 11, offset: 53312},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1639, col: 18, offset: 53292},
+																					pos: position{line: 1640, col: 18, offset: 53319},
 																					expr: &litMatcher{
-																						pos:        position{line: 1639, col: 19, offset: 53293},
+																						pos:        position{line: 1640, col: 19, offset: 53320},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -28252,16 +28470,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1642, col: 7, offset: 53383},
+																	pos: position{line: 1643, col: 7, offset: 53410},
 																	run: (*parser).callonExtraListElement586,
 																},
 																&actionExpr{
-																	pos: position{line: 2880, col: 11, offset: 91066},
+																	pos: position{line: 2881, col: 11, offset: 91093},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2880, col: 11, offset: 91066},
+																		pos: position{line: 2881, col: 11, offset: 91093},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 11, offset: 91066},
+																			pos:        position{line: 2881, col: 11, offset: 91093},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28274,29 +28492,29 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1519, col: 5, offset: 49338},
+													pos: position{line: 1520, col: 5, offset: 49365},
 													expr: &actionExpr{
-														pos: position{line: 1727, col: 5, offset: 55824},
+														pos: position{line: 1728, col: 5, offset: 55851},
 														run: (*parser).callonExtraListElement591,
 														expr: &seqExpr{
-															pos: position{line: 1727, col: 5, offset: 55824},
+															pos: position{line: 1728, col: 5, offset: 55851},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1727, col: 5, offset: 55824},
+																	pos:        position{line: 1728, col: 5, offset: 55851},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1727, col: 9, offset: 55828},
+																	pos:   position{line: 1728, col: 9, offset: 55855},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1727, col: 14, offset: 55833},
+																		pos: position{line: 1728, col: 14, offset: 55860},
 																		run: (*parser).callonExtraListElement595,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1727, col: 14, offset: 55833},
+																			pos: position{line: 1728, col: 14, offset: 55860},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1727, col: 14, offset: 55833},
+																				pos:        position{line: 1728, col: 14, offset: 55860},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -28306,18 +28524,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1727, col: 62, offset: 55881},
+																	pos:        position{line: 1728, col: 62, offset: 55908},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2880, col: 11, offset: 91066},
+																	pos: position{line: 2881, col: 11, offset: 91093},
 																	run: (*parser).callonExtraListElement599,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2880, col: 11, offset: 91066},
+																		pos: position{line: 2881, col: 11, offset: 91093},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 11, offset: 91066},
+																			pos:        position{line: 2881, col: 11, offset: 91093},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28330,31 +28548,31 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1520, col: 5, offset: 49368},
+													pos: position{line: 1521, col: 5, offset: 49395},
 													expr: &seqExpr{
-														pos: position{line: 1520, col: 7, offset: 49370},
+														pos: position{line: 1521, col: 7, offset: 49397},
 														exprs: []interface{}{
 															&actionExpr{
-																pos: position{line: 1672, col: 5, offset: 54274},
+																pos: position{line: 1673, col: 5, offset: 54301},
 																run: (*parser).callonExtraListElement604,
 																expr: &seqExpr{
-																	pos: position{line: 1672, col: 5, offset: 54274},
+																	pos: position{line: 1673, col: 5, offset: 54301},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1672, col: 5, offset: 54274},
+																			pos: position{line: 1673, col: 5, offset: 54301},
 																			expr: &seqExpr{
-																				pos: position{line: 2488, col: 31, offset: 80112},
+																				pos: position{line: 2489, col: 31, offset: 80139},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2488, col: 31, offset: 80112},
+																						pos:        position{line: 2489, col: 31, offset: 80139},
 																						val:        "//",
 																						ignoreCase: false,
 																						want:       "\"//\"",
 																					},
 																					&notExpr{
-																						pos: position{line: 2488, col: 36, offset: 80117},
+																						pos: position{line: 2489, col: 36, offset: 80144},
 																						expr: &litMatcher{
-																							pos:        position{line: 2488, col: 37, offset: 80118},
+																							pos:        position{line: 2489, col: 37, offset: 80145},
 																							val:        "//",
 																							ignoreCase: false,
 																							want:       "\"//\"",
@@ -28364,28 +28582,28 @@ var g = &grammar{
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 1673, col: 5, offset: 54306},
+																			pos: position{line: 1674, col: 5, offset: 54333},
 																			expr: &seqExpr{
-																				pos: position{line: 1673, col: 6, offset: 54307},
+																				pos: position{line: 1674, col: 6, offset: 54334},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1673, col: 6, offset: 54307},
+																						pos: position{line: 1674, col: 6, offset: 54334},
 																						expr: &actionExpr{
-																							pos: position{line: 1678, col: 5, offset: 54457},
+																							pos: position{line: 1679, col: 5, offset: 54484},
 																							run: (*parser).callonExtraListElement614,
 																							expr: &seqExpr{
-																								pos: position{line: 1678, col: 5, offset: 54457},
+																								pos: position{line: 1679, col: 5, offset: 54484},
 																								exprs: []interface{}{
 																									&labeledExpr{
-																										pos:   position{line: 1678, col: 5, offset: 54457},
+																										pos:   position{line: 1679, col: 5, offset: 54484},
 																										label: "separator",
 																										expr: &actionExpr{
-																											pos: position{line: 1678, col: 16, offset: 54468},
+																											pos: position{line: 1679, col: 16, offset: 54495},
 																											run: (*parser).callonExtraListElement617,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1678, col: 16, offset: 54468},
+																												pos: position{line: 1679, col: 16, offset: 54495},
 																												expr: &litMatcher{
-																													pos:        position{line: 1678, col: 17, offset: 54469},
+																													pos:        position{line: 1679, col: 17, offset: 54496},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
@@ -28394,7 +28612,7 @@ var g = &grammar{
 																										},
 																									},
 																									&andCodeExpr{
-																										pos: position{line: 1681, col: 5, offset: 54526},
+																										pos: position{line: 1682, col: 5, offset: 54553},
 																										run: (*parser).callonExtraListElement620,
 																									},
 																								},
@@ -28402,30 +28620,30 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1673, col: 35, offset: 54336},
+																						pos: position{line: 1674, col: 35, offset: 54363},
 																						expr: &choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91403},
+																							pos: position{line: 2899, col: 8, offset: 91430},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91176},
+																									pos: position{line: 2886, col: 12, offset: 91203},
 																									run: (*parser).callonExtraListElement623,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91177},
+																										pos: position{line: 2886, col: 13, offset: 91204},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91177},
+																												pos:        position{line: 2886, col: 13, offset: 91204},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91184},
+																												pos:        position{line: 2886, col: 20, offset: 91211},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91193},
+																												pos:        position{line: 2886, col: 29, offset: 91220},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28434,16 +28652,16 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91353},
+																									pos: position{line: 2896, col: 8, offset: 91380},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91354,
+																										line: 2896, col: 9, offset: 91381,
 																									},
 																								},
 																							},
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1673, col: 40, offset: 54341,
+																						line: 1674, col: 40, offset: 54368,
 																					},
 																				},
 																			},
@@ -28452,21 +28670,21 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1678, col: 5, offset: 54457},
+																pos: position{line: 1679, col: 5, offset: 54484},
 																run: (*parser).callonExtraListElement631,
 																expr: &seqExpr{
-																	pos: position{line: 1678, col: 5, offset: 54457},
+																	pos: position{line: 1679, col: 5, offset: 54484},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1678, col: 5, offset: 54457},
+																			pos:   position{line: 1679, col: 5, offset: 54484},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1678, col: 16, offset: 54468},
+																				pos: position{line: 1679, col: 16, offset: 54495},
 																				run: (*parser).callonExtraListElement634,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1678, col: 16, offset: 54468},
+																					pos: position{line: 1679, col: 16, offset: 54495},
 																					expr: &litMatcher{
-																						pos:        position{line: 1678, col: 17, offset: 54469},
+																						pos:        position{line: 1679, col: 17, offset: 54496},
 																						val:        ":",
 																						ignoreCase: false,
 																						want:       "\":\"",
@@ -28475,7 +28693,7 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1681, col: 5, offset: 54526},
+																			pos: position{line: 1682, col: 5, offset: 54553},
 																			run: (*parser).callonExtraListElement637,
 																		},
 																	},
@@ -28485,17 +28703,17 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1521, col: 5, offset: 49426},
+													pos: position{line: 1522, col: 5, offset: 49453},
 													expr: &actionExpr{
-														pos: position{line: 723, col: 5, offset: 23051},
+														pos: position{line: 724, col: 5, offset: 23078},
 														run: (*parser).callonExtraListElement639,
 														expr: &seqExpr{
-															pos: position{line: 723, col: 5, offset: 23051},
+															pos: position{line: 724, col: 5, offset: 23078},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 723, col: 5, offset: 23051},
+																	pos: position{line: 724, col: 5, offset: 23078},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2766, col: 13, offset: 88079},
+																		pos:        position{line: 2767, col: 13, offset: 88106},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -28503,36 +28721,36 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 724, col: 5, offset: 23081},
+																	pos:   position{line: 725, col: 5, offset: 23108},
 																	label: "delimiter",
 																	expr: &choiceExpr{
-																		pos: position{line: 725, col: 9, offset: 23101},
+																		pos: position{line: 726, col: 9, offset: 23128},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 739, col: 5, offset: 23593},
+																				pos: position{line: 740, col: 5, offset: 23620},
 																				run: (*parser).callonExtraListElement645,
 																				expr: &seqExpr{
-																					pos: position{line: 739, col: 5, offset: 23593},
+																					pos: position{line: 740, col: 5, offset: 23620},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 739, col: 5, offset: 23593},
+																							pos:   position{line: 740, col: 5, offset: 23620},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 739, col: 16, offset: 23604},
+																								pos: position{line: 740, col: 16, offset: 23631},
 																								run: (*parser).callonExtraListElement648,
 																								expr: &seqExpr{
-																									pos: position{line: 739, col: 16, offset: 23604},
+																									pos: position{line: 740, col: 16, offset: 23631},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 739, col: 16, offset: 23604},
+																											pos:        position{line: 740, col: 16, offset: 23631},
 																											val:        "////",
 																											ignoreCase: false,
 																											want:       "\"////\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 739, col: 23, offset: 23611},
+																											pos: position{line: 740, col: 23, offset: 23638},
 																											expr: &litMatcher{
-																												pos:        position{line: 739, col: 23, offset: 23611},
+																												pos:        position{line: 740, col: 23, offset: 23638},
 																												val:        "/",
 																												ignoreCase: false,
 																												want:       "\"/\"",
@@ -28543,12 +28761,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 741, col: 8, offset: 23695},
+																							pos: position{line: 742, col: 8, offset: 23722},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 91005},
+																								pos: position{line: 2877, col: 10, offset: 91032},
 																								run: (*parser).callonExtraListElement654,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 91005},
+																									pos:        position{line: 2877, col: 10, offset: 91032},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28557,28 +28775,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91403},
+																							pos: position{line: 2899, col: 8, offset: 91430},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91176},
+																									pos: position{line: 2886, col: 12, offset: 91203},
 																									run: (*parser).callonExtraListElement657,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91177},
+																										pos: position{line: 2886, col: 13, offset: 91204},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91177},
+																												pos:        position{line: 2886, col: 13, offset: 91204},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91184},
+																												pos:        position{line: 2886, col: 20, offset: 91211},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91193},
+																												pos:        position{line: 2886, col: 29, offset: 91220},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28587,9 +28805,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91353},
+																									pos: position{line: 2896, col: 8, offset: 91380},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91354,
+																										line: 2896, col: 9, offset: 91381,
 																									},
 																								},
 																							},
@@ -28598,30 +28816,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 746, col: 5, offset: 23841},
+																				pos: position{line: 747, col: 5, offset: 23868},
 																				run: (*parser).callonExtraListElement664,
 																				expr: &seqExpr{
-																					pos: position{line: 746, col: 5, offset: 23841},
+																					pos: position{line: 747, col: 5, offset: 23868},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 746, col: 5, offset: 23841},
+																							pos:   position{line: 747, col: 5, offset: 23868},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 746, col: 16, offset: 23852},
+																								pos: position{line: 747, col: 16, offset: 23879},
 																								run: (*parser).callonExtraListElement667,
 																								expr: &seqExpr{
-																									pos: position{line: 746, col: 16, offset: 23852},
+																									pos: position{line: 747, col: 16, offset: 23879},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 746, col: 16, offset: 23852},
+																											pos:        position{line: 747, col: 16, offset: 23879},
 																											val:        "====",
 																											ignoreCase: false,
 																											want:       "\"====\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 746, col: 23, offset: 23859},
+																											pos: position{line: 747, col: 23, offset: 23886},
 																											expr: &litMatcher{
-																												pos:        position{line: 746, col: 23, offset: 23859},
+																												pos:        position{line: 747, col: 23, offset: 23886},
 																												val:        "=",
 																												ignoreCase: false,
 																												want:       "\"=\"",
@@ -28632,12 +28850,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 748, col: 8, offset: 23943},
+																							pos: position{line: 749, col: 8, offset: 23970},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 91005},
+																								pos: position{line: 2877, col: 10, offset: 91032},
 																								run: (*parser).callonExtraListElement673,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 91005},
+																									pos:        position{line: 2877, col: 10, offset: 91032},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28646,28 +28864,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91403},
+																							pos: position{line: 2899, col: 8, offset: 91430},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91176},
+																									pos: position{line: 2886, col: 12, offset: 91203},
 																									run: (*parser).callonExtraListElement676,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91177},
+																										pos: position{line: 2886, col: 13, offset: 91204},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91177},
+																												pos:        position{line: 2886, col: 13, offset: 91204},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91184},
+																												pos:        position{line: 2886, col: 20, offset: 91211},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91193},
+																												pos:        position{line: 2886, col: 29, offset: 91220},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28676,9 +28894,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91353},
+																									pos: position{line: 2896, col: 8, offset: 91380},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91354,
+																										line: 2896, col: 9, offset: 91381,
 																									},
 																								},
 																							},
@@ -28687,27 +28905,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 759, col: 26, offset: 24329},
+																				pos: position{line: 760, col: 26, offset: 24356},
 																				run: (*parser).callonExtraListElement683,
 																				expr: &seqExpr{
-																					pos: position{line: 759, col: 26, offset: 24329},
+																					pos: position{line: 760, col: 26, offset: 24356},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 759, col: 26, offset: 24329},
+																							pos:        position{line: 760, col: 26, offset: 24356},
 																							val:        "```",
 																							ignoreCase: false,
 																							want:       "\"```\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 759, col: 32, offset: 24335},
+																							pos:   position{line: 760, col: 32, offset: 24362},
 																							label: "language",
 																							expr: &actionExpr{
-																								pos: position{line: 763, col: 13, offset: 24465},
+																								pos: position{line: 764, col: 13, offset: 24492},
 																								run: (*parser).callonExtraListElement687,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 763, col: 14, offset: 24466},
+																									pos: position{line: 764, col: 14, offset: 24493},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 763, col: 14, offset: 24466},
+																										pos:        position{line: 764, col: 14, offset: 24493},
 																										val:        "[^\\r\\n`\\t ]",
 																										chars:      []rune{'\r', '\n', '`', '\t', ' '},
 																										ignoreCase: false,
@@ -28717,12 +28935,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 759, col: 52, offset: 24355},
+																							pos: position{line: 760, col: 52, offset: 24382},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 91005},
+																								pos: position{line: 2877, col: 10, offset: 91032},
 																								run: (*parser).callonExtraListElement691,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 91005},
+																									pos:        position{line: 2877, col: 10, offset: 91032},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28731,28 +28949,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91403},
+																							pos: position{line: 2899, col: 8, offset: 91430},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91176},
+																									pos: position{line: 2886, col: 12, offset: 91203},
 																									run: (*parser).callonExtraListElement694,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91177},
+																										pos: position{line: 2886, col: 13, offset: 91204},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91177},
+																												pos:        position{line: 2886, col: 13, offset: 91204},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91184},
+																												pos:        position{line: 2886, col: 20, offset: 91211},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91193},
+																												pos:        position{line: 2886, col: 29, offset: 91220},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28761,9 +28979,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91353},
+																									pos: position{line: 2896, col: 8, offset: 91380},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91354,
+																										line: 2896, col: 9, offset: 91381,
 																									},
 																								},
 																							},
@@ -28772,30 +28990,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 753, col: 5, offset: 24088},
+																				pos: position{line: 754, col: 5, offset: 24115},
 																				run: (*parser).callonExtraListElement701,
 																				expr: &seqExpr{
-																					pos: position{line: 753, col: 5, offset: 24088},
+																					pos: position{line: 754, col: 5, offset: 24115},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 753, col: 5, offset: 24088},
+																							pos:   position{line: 754, col: 5, offset: 24115},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 753, col: 16, offset: 24099},
+																								pos: position{line: 754, col: 16, offset: 24126},
 																								run: (*parser).callonExtraListElement704,
 																								expr: &seqExpr{
-																									pos: position{line: 753, col: 16, offset: 24099},
+																									pos: position{line: 754, col: 16, offset: 24126},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 753, col: 16, offset: 24099},
+																											pos:        position{line: 754, col: 16, offset: 24126},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 753, col: 22, offset: 24105},
+																											pos: position{line: 754, col: 22, offset: 24132},
 																											expr: &litMatcher{
-																												pos:        position{line: 753, col: 22, offset: 24105},
+																												pos:        position{line: 754, col: 22, offset: 24132},
 																												val:        "`",
 																												ignoreCase: false,
 																												want:       "\"`\"",
@@ -28806,12 +29024,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 755, col: 8, offset: 24189},
+																							pos: position{line: 756, col: 8, offset: 24216},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 91005},
+																								pos: position{line: 2877, col: 10, offset: 91032},
 																								run: (*parser).callonExtraListElement710,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 91005},
+																									pos:        position{line: 2877, col: 10, offset: 91032},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28820,28 +29038,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91403},
+																							pos: position{line: 2899, col: 8, offset: 91430},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91176},
+																									pos: position{line: 2886, col: 12, offset: 91203},
 																									run: (*parser).callonExtraListElement713,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91177},
+																										pos: position{line: 2886, col: 13, offset: 91204},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91177},
+																												pos:        position{line: 2886, col: 13, offset: 91204},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91184},
+																												pos:        position{line: 2886, col: 20, offset: 91211},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91193},
+																												pos:        position{line: 2886, col: 29, offset: 91220},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28850,9 +29068,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91353},
+																									pos: position{line: 2896, col: 8, offset: 91380},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91354,
+																										line: 2896, col: 9, offset: 91381,
 																									},
 																								},
 																							},
@@ -28861,30 +29079,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 768, col: 5, offset: 24630},
+																				pos: position{line: 769, col: 5, offset: 24657},
 																				run: (*parser).callonExtraListElement720,
 																				expr: &seqExpr{
-																					pos: position{line: 768, col: 5, offset: 24630},
+																					pos: position{line: 769, col: 5, offset: 24657},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 768, col: 5, offset: 24630},
+																							pos:   position{line: 769, col: 5, offset: 24657},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 768, col: 16, offset: 24641},
+																								pos: position{line: 769, col: 16, offset: 24668},
 																								run: (*parser).callonExtraListElement723,
 																								expr: &seqExpr{
-																									pos: position{line: 768, col: 16, offset: 24641},
+																									pos: position{line: 769, col: 16, offset: 24668},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 768, col: 16, offset: 24641},
+																											pos:        position{line: 769, col: 16, offset: 24668},
 																											val:        "----",
 																											ignoreCase: false,
 																											want:       "\"----\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 768, col: 23, offset: 24648},
+																											pos: position{line: 769, col: 23, offset: 24675},
 																											expr: &litMatcher{
-																												pos:        position{line: 768, col: 23, offset: 24648},
+																												pos:        position{line: 769, col: 23, offset: 24675},
 																												val:        "-",
 																												ignoreCase: false,
 																												want:       "\"-\"",
@@ -28895,12 +29113,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 770, col: 8, offset: 24732},
+																							pos: position{line: 771, col: 8, offset: 24759},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 91005},
+																								pos: position{line: 2877, col: 10, offset: 91032},
 																								run: (*parser).callonExtraListElement729,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 91005},
+																									pos:        position{line: 2877, col: 10, offset: 91032},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28909,28 +29127,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91403},
+																							pos: position{line: 2899, col: 8, offset: 91430},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91176},
+																									pos: position{line: 2886, col: 12, offset: 91203},
 																									run: (*parser).callonExtraListElement732,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91177},
+																										pos: position{line: 2886, col: 13, offset: 91204},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91177},
+																												pos:        position{line: 2886, col: 13, offset: 91204},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91184},
+																												pos:        position{line: 2886, col: 20, offset: 91211},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91193},
+																												pos:        position{line: 2886, col: 29, offset: 91220},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28939,9 +29157,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91353},
+																									pos: position{line: 2896, col: 8, offset: 91380},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91354,
+																										line: 2896, col: 9, offset: 91381,
 																									},
 																								},
 																							},
@@ -28950,30 +29168,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 782, col: 5, offset: 25106},
+																				pos: position{line: 783, col: 5, offset: 25133},
 																				run: (*parser).callonExtraListElement739,
 																				expr: &seqExpr{
-																					pos: position{line: 782, col: 5, offset: 25106},
+																					pos: position{line: 783, col: 5, offset: 25133},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 782, col: 5, offset: 25106},
+																							pos:   position{line: 783, col: 5, offset: 25133},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 782, col: 16, offset: 25117},
+																								pos: position{line: 783, col: 16, offset: 25144},
 																								run: (*parser).callonExtraListElement742,
 																								expr: &seqExpr{
-																									pos: position{line: 782, col: 16, offset: 25117},
+																									pos: position{line: 783, col: 16, offset: 25144},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 782, col: 16, offset: 25117},
+																											pos:        position{line: 783, col: 16, offset: 25144},
 																											val:        "....",
 																											ignoreCase: false,
 																											want:       "\"....\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 782, col: 23, offset: 25124},
+																											pos: position{line: 783, col: 23, offset: 25151},
 																											expr: &litMatcher{
-																												pos:        position{line: 782, col: 23, offset: 25124},
+																												pos:        position{line: 783, col: 23, offset: 25151},
 																												val:        ".",
 																												ignoreCase: false,
 																												want:       "\".\"",
@@ -28984,12 +29202,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 784, col: 8, offset: 25208},
+																							pos: position{line: 785, col: 8, offset: 25235},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 91005},
+																								pos: position{line: 2877, col: 10, offset: 91032},
 																								run: (*parser).callonExtraListElement748,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 91005},
+																									pos:        position{line: 2877, col: 10, offset: 91032},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28998,28 +29216,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91403},
+																							pos: position{line: 2899, col: 8, offset: 91430},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91176},
+																									pos: position{line: 2886, col: 12, offset: 91203},
 																									run: (*parser).callonExtraListElement751,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91177},
+																										pos: position{line: 2886, col: 13, offset: 91204},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91177},
+																												pos:        position{line: 2886, col: 13, offset: 91204},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91184},
+																												pos:        position{line: 2886, col: 20, offset: 91211},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91193},
+																												pos:        position{line: 2886, col: 29, offset: 91220},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29028,9 +29246,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91353},
+																									pos: position{line: 2896, col: 8, offset: 91380},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91354,
+																										line: 2896, col: 9, offset: 91381,
 																									},
 																								},
 																							},
@@ -29039,30 +29257,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 789, col: 5, offset: 25358},
+																				pos: position{line: 790, col: 5, offset: 25385},
 																				run: (*parser).callonExtraListElement758,
 																				expr: &seqExpr{
-																					pos: position{line: 789, col: 5, offset: 25358},
+																					pos: position{line: 790, col: 5, offset: 25385},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 789, col: 5, offset: 25358},
+																							pos:   position{line: 790, col: 5, offset: 25385},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 789, col: 16, offset: 25369},
+																								pos: position{line: 790, col: 16, offset: 25396},
 																								run: (*parser).callonExtraListElement761,
 																								expr: &seqExpr{
-																									pos: position{line: 789, col: 16, offset: 25369},
+																									pos: position{line: 790, col: 16, offset: 25396},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 789, col: 16, offset: 25369},
+																											pos:        position{line: 790, col: 16, offset: 25396},
 																											val:        "++++",
 																											ignoreCase: false,
 																											want:       "\"++++\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 789, col: 23, offset: 25376},
+																											pos: position{line: 790, col: 23, offset: 25403},
 																											expr: &litMatcher{
-																												pos:        position{line: 789, col: 23, offset: 25376},
+																												pos:        position{line: 790, col: 23, offset: 25403},
 																												val:        "+",
 																												ignoreCase: false,
 																												want:       "\"+\"",
@@ -29073,12 +29291,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 791, col: 8, offset: 25460},
+																							pos: position{line: 792, col: 8, offset: 25487},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 91005},
+																								pos: position{line: 2877, col: 10, offset: 91032},
 																								run: (*parser).callonExtraListElement767,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 91005},
+																									pos:        position{line: 2877, col: 10, offset: 91032},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29087,28 +29305,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91403},
+																							pos: position{line: 2899, col: 8, offset: 91430},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91176},
+																									pos: position{line: 2886, col: 12, offset: 91203},
 																									run: (*parser).callonExtraListElement770,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91177},
+																										pos: position{line: 2886, col: 13, offset: 91204},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91177},
+																												pos:        position{line: 2886, col: 13, offset: 91204},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91184},
+																												pos:        position{line: 2886, col: 20, offset: 91211},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91193},
+																												pos:        position{line: 2886, col: 29, offset: 91220},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29117,9 +29335,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91353},
+																									pos: position{line: 2896, col: 8, offset: 91380},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91354,
+																										line: 2896, col: 9, offset: 91381,
 																									},
 																								},
 																							},
@@ -29128,30 +29346,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 796, col: 5, offset: 25608},
+																				pos: position{line: 797, col: 5, offset: 25635},
 																				run: (*parser).callonExtraListElement777,
 																				expr: &seqExpr{
-																					pos: position{line: 796, col: 5, offset: 25608},
+																					pos: position{line: 797, col: 5, offset: 25635},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 796, col: 5, offset: 25608},
+																							pos:   position{line: 797, col: 5, offset: 25635},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 796, col: 16, offset: 25619},
+																								pos: position{line: 797, col: 16, offset: 25646},
 																								run: (*parser).callonExtraListElement780,
 																								expr: &seqExpr{
-																									pos: position{line: 796, col: 16, offset: 25619},
+																									pos: position{line: 797, col: 16, offset: 25646},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 796, col: 16, offset: 25619},
+																											pos:        position{line: 797, col: 16, offset: 25646},
 																											val:        "____",
 																											ignoreCase: false,
 																											want:       "\"____\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 796, col: 23, offset: 25626},
+																											pos: position{line: 797, col: 23, offset: 25653},
 																											expr: &litMatcher{
-																												pos:        position{line: 796, col: 23, offset: 25626},
+																												pos:        position{line: 797, col: 23, offset: 25653},
 																												val:        "_",
 																												ignoreCase: false,
 																												want:       "\"_\"",
@@ -29162,12 +29380,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 798, col: 8, offset: 25710},
+																							pos: position{line: 799, col: 8, offset: 25737},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 91005},
+																								pos: position{line: 2877, col: 10, offset: 91032},
 																								run: (*parser).callonExtraListElement786,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 91005},
+																									pos:        position{line: 2877, col: 10, offset: 91032},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29176,28 +29394,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91403},
+																							pos: position{line: 2899, col: 8, offset: 91430},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91176},
+																									pos: position{line: 2886, col: 12, offset: 91203},
 																									run: (*parser).callonExtraListElement789,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91177},
+																										pos: position{line: 2886, col: 13, offset: 91204},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91177},
+																												pos:        position{line: 2886, col: 13, offset: 91204},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91184},
+																												pos:        position{line: 2886, col: 20, offset: 91211},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91193},
+																												pos:        position{line: 2886, col: 29, offset: 91220},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29206,9 +29424,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91353},
+																									pos: position{line: 2896, col: 8, offset: 91380},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91354,
+																										line: 2896, col: 9, offset: 91381,
 																									},
 																								},
 																							},
@@ -29217,30 +29435,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 803, col: 5, offset: 25854},
+																				pos: position{line: 804, col: 5, offset: 25881},
 																				run: (*parser).callonExtraListElement796,
 																				expr: &seqExpr{
-																					pos: position{line: 803, col: 5, offset: 25854},
+																					pos: position{line: 804, col: 5, offset: 25881},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 803, col: 5, offset: 25854},
+																							pos:   position{line: 804, col: 5, offset: 25881},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 803, col: 16, offset: 25865},
+																								pos: position{line: 804, col: 16, offset: 25892},
 																								run: (*parser).callonExtraListElement799,
 																								expr: &seqExpr{
-																									pos: position{line: 803, col: 16, offset: 25865},
+																									pos: position{line: 804, col: 16, offset: 25892},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 803, col: 16, offset: 25865},
+																											pos:        position{line: 804, col: 16, offset: 25892},
 																											val:        "****",
 																											ignoreCase: false,
 																											want:       "\"****\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 803, col: 23, offset: 25872},
+																											pos: position{line: 804, col: 23, offset: 25899},
 																											expr: &litMatcher{
-																												pos:        position{line: 803, col: 23, offset: 25872},
+																												pos:        position{line: 804, col: 23, offset: 25899},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -29251,12 +29469,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 805, col: 8, offset: 25956},
+																							pos: position{line: 806, col: 8, offset: 25983},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 91005},
+																								pos: position{line: 2877, col: 10, offset: 91032},
 																								run: (*parser).callonExtraListElement805,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 91005},
+																									pos:        position{line: 2877, col: 10, offset: 91032},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29265,28 +29483,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91403},
+																							pos: position{line: 2899, col: 8, offset: 91430},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91176},
+																									pos: position{line: 2886, col: 12, offset: 91203},
 																									run: (*parser).callonExtraListElement808,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91177},
+																										pos: position{line: 2886, col: 13, offset: 91204},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91177},
+																												pos:        position{line: 2886, col: 13, offset: 91204},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91184},
+																												pos:        position{line: 2886, col: 20, offset: 91211},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91193},
+																												pos:        position{line: 2886, col: 29, offset: 91220},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29295,9 +29513,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91353},
+																									pos: position{line: 2896, col: 8, offset: 91380},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91354,
+																										line: 2896, col: 9, offset: 91381,
 																									},
 																								},
 																							},
@@ -29313,15 +29531,15 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1522, col: 5, offset: 49446},
+													pos:   position{line: 1523, col: 5, offset: 49473},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2826, col: 14, offset: 89598},
+														pos: position{line: 2827, col: 14, offset: 89625},
 														run: (*parser).callonExtraListElement816,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2826, col: 14, offset: 89598},
+															pos: position{line: 2827, col: 14, offset: 89625},
 															expr: &charClassMatcher{
-																pos:        position{line: 2826, col: 14, offset: 89598},
+																pos:        position{line: 2827, col: 14, offset: 89625},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -29331,28 +29549,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2898, col: 8, offset: 91403},
+													pos: position{line: 2899, col: 8, offset: 91430},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91176},
+															pos: position{line: 2886, col: 12, offset: 91203},
 															run: (*parser).callonExtraListElement820,
 															expr: &choiceExpr{
-																pos: position{line: 2885, col: 13, offset: 91177},
+																pos: position{line: 2886, col: 13, offset: 91204},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 13, offset: 91177},
+																		pos:        position{line: 2886, col: 13, offset: 91204},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 20, offset: 91184},
+																		pos:        position{line: 2886, col: 20, offset: 91211},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 29, offset: 91193},
+																		pos:        position{line: 2886, col: 29, offset: 91220},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -29361,9 +29579,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2895, col: 8, offset: 91353},
+															pos: position{line: 2896, col: 8, offset: 91380},
 															expr: &anyMatcher{
-																line: 2895, col: 9, offset: 91354,
+																line: 2896, col: 9, offset: 91381,
 															},
 														},
 													},
@@ -29380,28 +29598,28 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuation",
-			pos:  position{line: 1538, col: 1, offset: 49837},
+			pos:  position{line: 1539, col: 1, offset: 49864},
 			expr: &actionExpr{
-				pos: position{line: 1539, col: 5, offset: 49862},
+				pos: position{line: 1540, col: 5, offset: 49889},
 				run: (*parser).callonListContinuation1,
 				expr: &seqExpr{
-					pos: position{line: 1539, col: 5, offset: 49862},
+					pos: position{line: 1540, col: 5, offset: 49889},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1539, col: 5, offset: 49862},
+							pos:   position{line: 1540, col: 5, offset: 49889},
 							label: "offset",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1539, col: 12, offset: 49869},
+								pos: position{line: 1540, col: 12, offset: 49896},
 								expr: &seqExpr{
-									pos: position{line: 1539, col: 13, offset: 49870},
+									pos: position{line: 1540, col: 13, offset: 49897},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 1539, col: 13, offset: 49870},
+											pos: position{line: 1540, col: 13, offset: 49897},
 											expr: &actionExpr{
-												pos: position{line: 2876, col: 10, offset: 91005},
+												pos: position{line: 2877, col: 10, offset: 91032},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2876, col: 10, offset: 91005},
+													pos:        position{line: 2877, col: 10, offset: 91032},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -29410,25 +29628,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2885, col: 12, offset: 91176},
+											pos: position{line: 2886, col: 12, offset: 91203},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2885, col: 13, offset: 91177},
+												pos: position{line: 2886, col: 13, offset: 91204},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2885, col: 13, offset: 91177},
+														pos:        position{line: 2886, col: 13, offset: 91204},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2885, col: 20, offset: 91184},
+														pos:        position{line: 2886, col: 20, offset: 91211},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2885, col: 29, offset: 91193},
+														pos:        position{line: 2886, col: 29, offset: 91220},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -29441,18 +29659,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1546, col: 27, offset: 50074},
+							pos:        position{line: 1547, col: 27, offset: 50101},
 							val:        "+",
 							ignoreCase: false,
 							want:       "\"+\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1546, col: 31, offset: 50078},
+							pos: position{line: 1547, col: 31, offset: 50105},
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 10, offset: 91005},
+								pos: position{line: 2877, col: 10, offset: 91032},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2876, col: 10, offset: 91005},
+									pos:        position{line: 2877, col: 10, offset: 91032},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -29461,25 +29679,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2885, col: 12, offset: 91176},
+							pos: position{line: 2886, col: 12, offset: 91203},
 							run: (*parser).callonListContinuation18,
 							expr: &choiceExpr{
-								pos: position{line: 2885, col: 13, offset: 91177},
+								pos: position{line: 2886, col: 13, offset: 91204},
 								alternatives: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2885, col: 13, offset: 91177},
+										pos:        position{line: 2886, col: 13, offset: 91204},
 										val:        "\n",
 										ignoreCase: false,
 										want:       "\"\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2885, col: 20, offset: 91184},
+										pos:        position{line: 2886, col: 20, offset: 91211},
 										val:        "\r\n",
 										ignoreCase: false,
 										want:       "\"\\r\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2885, col: 29, offset: 91193},
+										pos:        position{line: 2886, col: 29, offset: 91220},
 										val:        "\r",
 										ignoreCase: false,
 										want:       "\"\\r\"",
@@ -29488,12 +29706,12 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1541, col: 5, offset: 49919},
+							pos:   position{line: 1542, col: 5, offset: 49946},
 							label: "element",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1541, col: 13, offset: 49927},
+								pos: position{line: 1542, col: 13, offset: 49954},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1541, col: 13, offset: 49927},
+									pos:  position{line: 1542, col: 13, offset: 49954},
 									name: "ListContinuationElement",
 								},
 							},
@@ -29504,46 +29722,46 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuationElement",
-			pos:  position{line: 1548, col: 1, offset: 50094},
+			pos:  position{line: 1549, col: 1, offset: 50121},
 			expr: &actionExpr{
-				pos: position{line: 1549, col: 5, offset: 50165},
+				pos: position{line: 1550, col: 5, offset: 50192},
 				run: (*parser).callonListContinuationElement1,
 				expr: &seqExpr{
-					pos: position{line: 1549, col: 5, offset: 50165},
+					pos: position{line: 1550, col: 5, offset: 50192},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2893, col: 11, offset: 91339},
+							pos: position{line: 2894, col: 11, offset: 91366},
 							expr: &anyMatcher{
-								line: 2893, col: 13, offset: 91341,
+								line: 2894, col: 13, offset: 91368,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1550, col: 5, offset: 50193},
+							pos: position{line: 1551, col: 5, offset: 50220},
 							expr: &choiceExpr{
-								pos: position{line: 1487, col: 5, offset: 48151},
+								pos: position{line: 1488, col: 5, offset: 48178},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1580, col: 5, offset: 51085},
+										pos: position{line: 1581, col: 5, offset: 51112},
 										run: (*parser).callonListContinuationElement7,
 										expr: &seqExpr{
-											pos: position{line: 1580, col: 5, offset: 51085},
+											pos: position{line: 1581, col: 5, offset: 51112},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1580, col: 5, offset: 51085},
+													pos:   position{line: 1581, col: 5, offset: 51112},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1587, col: 5, offset: 51293},
+														pos: position{line: 1588, col: 5, offset: 51320},
 														run: (*parser).callonListContinuationElement10,
 														expr: &seqExpr{
-															pos: position{line: 1587, col: 5, offset: 51293},
+															pos: position{line: 1588, col: 5, offset: 51320},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1587, col: 5, offset: 51293},
+																	pos: position{line: 1588, col: 5, offset: 51320},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 91005},
+																		pos: position{line: 2877, col: 10, offset: 91032},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 91005},
+																			pos:        position{line: 2877, col: 10, offset: 91032},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29552,27 +29770,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1587, col: 12, offset: 51300},
+																	pos:   position{line: 1588, col: 12, offset: 51327},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1589, col: 9, offset: 51363},
+																		pos: position{line: 1590, col: 9, offset: 51390},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1589, col: 9, offset: 51363},
+																				pos: position{line: 1590, col: 9, offset: 51390},
 																				run: (*parser).callonListContinuationElement17,
 																				expr: &seqExpr{
-																					pos: position{line: 1589, col: 9, offset: 51363},
+																					pos: position{line: 1590, col: 9, offset: 51390},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1589, col: 9, offset: 51363},
+																							pos:   position{line: 1590, col: 9, offset: 51390},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1589, col: 16, offset: 51370},
+																								pos: position{line: 1590, col: 16, offset: 51397},
 																								run: (*parser).callonListContinuationElement20,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1589, col: 16, offset: 51370},
+																									pos: position{line: 1590, col: 16, offset: 51397},
 																									expr: &litMatcher{
-																										pos:        position{line: 1589, col: 17, offset: 51371},
+																										pos:        position{line: 1590, col: 17, offset: 51398},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -29581,22 +29799,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1593, col: 9, offset: 51471},
+																							pos: position{line: 1594, col: 9, offset: 51498},
 																							run: (*parser).callonListContinuationElement23,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1612, col: 11, offset: 52188},
+																				pos: position{line: 1613, col: 11, offset: 52215},
 																				run: (*parser).callonListContinuationElement24,
 																				expr: &seqExpr{
-																					pos: position{line: 1612, col: 11, offset: 52188},
+																					pos: position{line: 1613, col: 11, offset: 52215},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1612, col: 11, offset: 52188},
+																							pos: position{line: 1613, col: 11, offset: 52215},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1612, col: 12, offset: 52189},
+																								pos:        position{line: 1613, col: 12, offset: 52216},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -29604,7 +29822,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1612, col: 20, offset: 52197},
+																							pos:        position{line: 1613, col: 20, offset: 52224},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29613,20 +29831,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1614, col: 13, offset: 52314},
+																				pos: position{line: 1615, col: 13, offset: 52341},
 																				run: (*parser).callonListContinuationElement29,
 																				expr: &seqExpr{
-																					pos: position{line: 1614, col: 13, offset: 52314},
+																					pos: position{line: 1615, col: 13, offset: 52341},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1614, col: 14, offset: 52315},
+																							pos:        position{line: 1615, col: 14, offset: 52342},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1614, col: 21, offset: 52322},
+																							pos:        position{line: 1615, col: 21, offset: 52349},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29635,20 +29853,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1616, col: 13, offset: 52442},
+																				pos: position{line: 1617, col: 13, offset: 52469},
 																				run: (*parser).callonListContinuationElement33,
 																				expr: &seqExpr{
-																					pos: position{line: 1616, col: 13, offset: 52442},
+																					pos: position{line: 1617, col: 13, offset: 52469},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1616, col: 14, offset: 52443},
+																							pos:        position{line: 1617, col: 14, offset: 52470},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1616, col: 21, offset: 52450},
+																							pos:        position{line: 1617, col: 21, offset: 52477},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29657,15 +29875,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1618, col: 13, offset: 52570},
+																				pos: position{line: 1619, col: 13, offset: 52597},
 																				run: (*parser).callonListContinuationElement37,
 																				expr: &seqExpr{
-																					pos: position{line: 1618, col: 13, offset: 52570},
+																					pos: position{line: 1619, col: 13, offset: 52597},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1618, col: 13, offset: 52570},
+																							pos: position{line: 1619, col: 13, offset: 52597},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1618, col: 14, offset: 52571},
+																								pos:        position{line: 1619, col: 14, offset: 52598},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -29673,7 +29891,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1618, col: 26, offset: 52583},
+																							pos:        position{line: 1619, col: 26, offset: 52610},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -29682,15 +29900,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1620, col: 13, offset: 52703},
+																				pos: position{line: 1621, col: 13, offset: 52730},
 																				run: (*parser).callonListContinuationElement42,
 																				expr: &seqExpr{
-																					pos: position{line: 1620, col: 13, offset: 52703},
+																					pos: position{line: 1621, col: 13, offset: 52730},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1620, col: 13, offset: 52703},
+																							pos: position{line: 1621, col: 13, offset: 52730},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1620, col: 14, offset: 52704},
+																								pos:        position{line: 1621, col: 14, offset: 52731},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -29698,7 +29916,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1620, col: 26, offset: 52716},
+																							pos:        position{line: 1621, col: 26, offset: 52743},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -29710,12 +29928,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2880, col: 11, offset: 91066},
+																	pos: position{line: 2881, col: 11, offset: 91093},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2880, col: 11, offset: 91066},
+																		pos: position{line: 2881, col: 11, offset: 91093},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 11, offset: 91066},
+																			pos:        position{line: 2881, col: 11, offset: 91093},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29728,26 +29946,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1581, col: 5, offset: 51124},
+													pos:   position{line: 1582, col: 5, offset: 51151},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1528, col: 5, offset: 49591},
+														pos: position{line: 1529, col: 5, offset: 49618},
 														run: (*parser).callonListContinuationElement51,
 														expr: &seqExpr{
-															pos: position{line: 1528, col: 5, offset: 49591},
+															pos: position{line: 1529, col: 5, offset: 49618},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1528, col: 5, offset: 49591},
+																	pos:   position{line: 1529, col: 5, offset: 49618},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1528, col: 14, offset: 49600},
+																		pos: position{line: 1529, col: 14, offset: 49627},
 																		expr: &actionExpr{
-																			pos: position{line: 1528, col: 15, offset: 49601},
+																			pos: position{line: 1529, col: 15, offset: 49628},
 																			run: (*parser).callonListContinuationElement55,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1528, col: 15, offset: 49601},
+																				pos: position{line: 1529, col: 15, offset: 49628},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1528, col: 15, offset: 49601},
+																					pos:        position{line: 1529, col: 15, offset: 49628},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -29758,28 +29976,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91403},
+																	pos: position{line: 2899, col: 8, offset: 91430},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91176},
+																			pos: position{line: 2886, col: 12, offset: 91203},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91177},
+																				pos: position{line: 2886, col: 13, offset: 91204},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91177},
+																						pos:        position{line: 2886, col: 13, offset: 91204},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91184},
+																						pos:        position{line: 2886, col: 20, offset: 91211},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91193},
+																						pos:        position{line: 2886, col: 29, offset: 91220},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29788,9 +30006,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91353},
+																			pos: position{line: 2896, col: 8, offset: 91380},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91354,
+																				line: 2896, col: 9, offset: 91381,
 																			},
 																		},
 																	},
@@ -29803,27 +30021,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1630, col: 5, offset: 52982},
+										pos: position{line: 1631, col: 5, offset: 53009},
 										run: (*parser).callonListContinuationElement66,
 										expr: &seqExpr{
-											pos: position{line: 1630, col: 5, offset: 52982},
+											pos: position{line: 1631, col: 5, offset: 53009},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1630, col: 5, offset: 52982},
+													pos:   position{line: 1631, col: 5, offset: 53009},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1637, col: 5, offset: 53255},
+														pos: position{line: 1638, col: 5, offset: 53282},
 														run: (*parser).callonListContinuationElement69,
 														expr: &seqExpr{
-															pos: position{line: 1637, col: 5, offset: 53255},
+															pos: position{line: 1638, col: 5, offset: 53282},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1637, col: 5, offset: 53255},
+																	pos: position{line: 1638, col: 5, offset: 53282},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 91005},
+																		pos: position{line: 2877, col: 10, offset: 91032},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 91005},
+																			pos:        position{line: 2877, col: 10, offset: 91032},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29832,24 +30050,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1638, col: 5, offset: 53267},
+																	pos:   position{line: 1639, col: 5, offset: 53294},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1639, col: 9, offset: 53283},
+																		pos: position{line: 1640, col: 9, offset: 53310},
 																		run: (*parser).callonListContinuationElement75,
 																		expr: &choiceExpr{
-																			pos: position{line: 1639, col: 10, offset: 53284},
+																			pos: position{line: 1640, col: 10, offset: 53311},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1639, col: 11, offset: 53285},
+																					pos:        position{line: 1640, col: 11, offset: 53312},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1639, col: 18, offset: 53292},
+																					pos: position{line: 1640, col: 18, offset: 53319},
 																					expr: &litMatcher{
-																						pos:        position{line: 1639, col: 19, offset: 53293},
+																						pos:        position{line: 1640, col: 19, offset: 53320},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -29860,16 +30078,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1642, col: 7, offset: 53383},
+																	pos: position{line: 1643, col: 7, offset: 53410},
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2880, col: 11, offset: 91066},
+																	pos: position{line: 2881, col: 11, offset: 91093},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2880, col: 11, offset: 91066},
+																		pos: position{line: 2881, col: 11, offset: 91093},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 11, offset: 91066},
+																			pos:        position{line: 2881, col: 11, offset: 91093},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29882,56 +30100,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1631, col: 5, offset: 53023},
+													pos:   position{line: 1632, col: 5, offset: 53050},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1631, col: 16, offset: 53034},
+														pos: position{line: 1632, col: 16, offset: 53061},
 														expr: &actionExpr{
-															pos: position{line: 1652, col: 5, offset: 53648},
+															pos: position{line: 1653, col: 5, offset: 53675},
 															run: (*parser).callonListContinuationElement86,
 															expr: &seqExpr{
-																pos: position{line: 1652, col: 5, offset: 53648},
+																pos: position{line: 1653, col: 5, offset: 53675},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1652, col: 5, offset: 53648},
+																		pos: position{line: 1653, col: 5, offset: 53675},
 																		expr: &litMatcher{
-																			pos:        position{line: 1652, col: 6, offset: 53649},
+																			pos:        position{line: 1653, col: 6, offset: 53676},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1652, col: 10, offset: 53653},
+																		pos:   position{line: 1653, col: 10, offset: 53680},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1653, col: 7, offset: 53667},
+																			pos: position{line: 1654, col: 7, offset: 53694},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1653, col: 7, offset: 53667},
+																					pos: position{line: 1654, col: 7, offset: 53694},
 																					run: (*parser).callonListContinuationElement92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1653, col: 7, offset: 53667},
+																						pos:        position{line: 1654, col: 7, offset: 53694},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1654, col: 7, offset: 53712},
+																					pos: position{line: 1655, col: 7, offset: 53739},
 																					run: (*parser).callonListContinuationElement94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1654, col: 7, offset: 53712},
+																						pos:        position{line: 1655, col: 7, offset: 53739},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1655, col: 7, offset: 53755},
+																					pos: position{line: 1656, col: 7, offset: 53782},
 																					run: (*parser).callonListContinuationElement96,
 																					expr: &litMatcher{
-																						pos:        position{line: 1655, col: 7, offset: 53755},
+																						pos:        position{line: 1656, col: 7, offset: 53782},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -29941,12 +30159,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2880, col: 11, offset: 91066},
+																		pos: position{line: 2881, col: 11, offset: 91093},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2880, col: 11, offset: 91066},
+																			pos: position{line: 2881, col: 11, offset: 91093},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2880, col: 11, offset: 91066},
+																				pos:        position{line: 2881, col: 11, offset: 91093},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -29960,26 +30178,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1632, col: 5, offset: 53073},
+													pos:   position{line: 1633, col: 5, offset: 53100},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1528, col: 5, offset: 49591},
+														pos: position{line: 1529, col: 5, offset: 49618},
 														run: (*parser).callonListContinuationElement102,
 														expr: &seqExpr{
-															pos: position{line: 1528, col: 5, offset: 49591},
+															pos: position{line: 1529, col: 5, offset: 49618},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1528, col: 5, offset: 49591},
+																	pos:   position{line: 1529, col: 5, offset: 49618},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1528, col: 14, offset: 49600},
+																		pos: position{line: 1529, col: 14, offset: 49627},
 																		expr: &actionExpr{
-																			pos: position{line: 1528, col: 15, offset: 49601},
+																			pos: position{line: 1529, col: 15, offset: 49628},
 																			run: (*parser).callonListContinuationElement106,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1528, col: 15, offset: 49601},
+																				pos: position{line: 1529, col: 15, offset: 49628},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1528, col: 15, offset: 49601},
+																					pos:        position{line: 1529, col: 15, offset: 49628},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -29990,28 +30208,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91403},
+																	pos: position{line: 2899, col: 8, offset: 91430},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91176},
+																			pos: position{line: 2886, col: 12, offset: 91203},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91177},
+																				pos: position{line: 2886, col: 13, offset: 91204},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91177},
+																						pos:        position{line: 2886, col: 13, offset: 91204},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91184},
+																						pos:        position{line: 2886, col: 20, offset: 91211},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91193},
+																						pos:        position{line: 2886, col: 29, offset: 91220},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30020,9 +30238,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91353},
+																			pos: position{line: 2896, col: 8, offset: 91380},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91354,
+																				line: 2896, col: 9, offset: 91381,
 																			},
 																		},
 																	},
@@ -30035,36 +30253,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1721, col: 5, offset: 55627},
+										pos: position{line: 1722, col: 5, offset: 55654},
 										run: (*parser).callonListContinuationElement117,
 										expr: &seqExpr{
-											pos: position{line: 1721, col: 5, offset: 55627},
+											pos: position{line: 1722, col: 5, offset: 55654},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1721, col: 5, offset: 55627},
+													pos:   position{line: 1722, col: 5, offset: 55654},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1727, col: 5, offset: 55824},
+														pos: position{line: 1728, col: 5, offset: 55851},
 														run: (*parser).callonListContinuationElement120,
 														expr: &seqExpr{
-															pos: position{line: 1727, col: 5, offset: 55824},
+															pos: position{line: 1728, col: 5, offset: 55851},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1727, col: 5, offset: 55824},
+																	pos:        position{line: 1728, col: 5, offset: 55851},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1727, col: 9, offset: 55828},
+																	pos:   position{line: 1728, col: 9, offset: 55855},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1727, col: 14, offset: 55833},
+																		pos: position{line: 1728, col: 14, offset: 55860},
 																		run: (*parser).callonListContinuationElement124,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1727, col: 14, offset: 55833},
+																			pos: position{line: 1728, col: 14, offset: 55860},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1727, col: 14, offset: 55833},
+																				pos:        position{line: 1728, col: 14, offset: 55860},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -30074,18 +30292,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1727, col: 62, offset: 55881},
+																	pos:        position{line: 1728, col: 62, offset: 55908},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2880, col: 11, offset: 91066},
+																	pos: position{line: 2881, col: 11, offset: 91093},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2880, col: 11, offset: 91066},
+																		pos: position{line: 2881, col: 11, offset: 91093},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 11, offset: 91066},
+																			pos:        position{line: 2881, col: 11, offset: 91093},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30098,26 +30316,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1722, col: 5, offset: 55663},
+													pos:   position{line: 1723, col: 5, offset: 55690},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1528, col: 5, offset: 49591},
+														pos: position{line: 1529, col: 5, offset: 49618},
 														run: (*parser).callonListContinuationElement132,
 														expr: &seqExpr{
-															pos: position{line: 1528, col: 5, offset: 49591},
+															pos: position{line: 1529, col: 5, offset: 49618},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1528, col: 5, offset: 49591},
+																	pos:   position{line: 1529, col: 5, offset: 49618},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1528, col: 14, offset: 49600},
+																		pos: position{line: 1529, col: 14, offset: 49627},
 																		expr: &actionExpr{
-																			pos: position{line: 1528, col: 15, offset: 49601},
+																			pos: position{line: 1529, col: 15, offset: 49628},
 																			run: (*parser).callonListContinuationElement136,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1528, col: 15, offset: 49601},
+																				pos: position{line: 1529, col: 15, offset: 49628},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1528, col: 15, offset: 49601},
+																					pos:        position{line: 1529, col: 15, offset: 49628},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30128,28 +30346,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91403},
+																	pos: position{line: 2899, col: 8, offset: 91430},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91176},
+																			pos: position{line: 2886, col: 12, offset: 91203},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91177},
+																				pos: position{line: 2886, col: 13, offset: 91204},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91177},
+																						pos:        position{line: 2886, col: 13, offset: 91204},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91184},
+																						pos:        position{line: 2886, col: 20, offset: 91211},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91193},
+																						pos:        position{line: 2886, col: 29, offset: 91220},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30158,9 +30376,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91353},
+																			pos: position{line: 2896, col: 8, offset: 91380},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91354,
+																				line: 2896, col: 9, offset: 91381,
 																			},
 																		},
 																	},
@@ -30173,35 +30391,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1664, col: 5, offset: 53948},
+										pos: position{line: 1665, col: 5, offset: 53975},
 										run: (*parser).callonListContinuationElement147,
 										expr: &seqExpr{
-											pos: position{line: 1664, col: 5, offset: 53948},
+											pos: position{line: 1665, col: 5, offset: 53975},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1664, col: 5, offset: 53948},
+													pos:   position{line: 1665, col: 5, offset: 53975},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1672, col: 5, offset: 54274},
+														pos: position{line: 1673, col: 5, offset: 54301},
 														run: (*parser).callonListContinuationElement150,
 														expr: &seqExpr{
-															pos: position{line: 1672, col: 5, offset: 54274},
+															pos: position{line: 1673, col: 5, offset: 54301},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1672, col: 5, offset: 54274},
+																	pos: position{line: 1673, col: 5, offset: 54301},
 																	expr: &seqExpr{
-																		pos: position{line: 2488, col: 31, offset: 80112},
+																		pos: position{line: 2489, col: 31, offset: 80139},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2488, col: 31, offset: 80112},
+																				pos:        position{line: 2489, col: 31, offset: 80139},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2488, col: 36, offset: 80117},
+																				pos: position{line: 2489, col: 36, offset: 80144},
 																				expr: &litMatcher{
-																					pos:        position{line: 2488, col: 37, offset: 80118},
+																					pos:        position{line: 2489, col: 37, offset: 80145},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
@@ -30211,28 +30429,28 @@ var g = &grammar{
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 1673, col: 5, offset: 54306},
+																	pos: position{line: 1674, col: 5, offset: 54333},
 																	expr: &seqExpr{
-																		pos: position{line: 1673, col: 6, offset: 54307},
+																		pos: position{line: 1674, col: 6, offset: 54334},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1673, col: 6, offset: 54307},
+																				pos: position{line: 1674, col: 6, offset: 54334},
 																				expr: &actionExpr{
-																					pos: position{line: 1678, col: 5, offset: 54457},
+																					pos: position{line: 1679, col: 5, offset: 54484},
 																					run: (*parser).callonListContinuationElement160,
 																					expr: &seqExpr{
-																						pos: position{line: 1678, col: 5, offset: 54457},
+																						pos: position{line: 1679, col: 5, offset: 54484},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1678, col: 5, offset: 54457},
+																								pos:   position{line: 1679, col: 5, offset: 54484},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1678, col: 16, offset: 54468},
+																									pos: position{line: 1679, col: 16, offset: 54495},
 																									run: (*parser).callonListContinuationElement163,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1678, col: 16, offset: 54468},
+																										pos: position{line: 1679, col: 16, offset: 54495},
 																										expr: &litMatcher{
-																											pos:        position{line: 1678, col: 17, offset: 54469},
+																											pos:        position{line: 1679, col: 17, offset: 54496},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -30241,7 +30459,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1681, col: 5, offset: 54526},
+																								pos: position{line: 1682, col: 5, offset: 54553},
 																								run: (*parser).callonListContinuationElement166,
 																							},
 																						},
@@ -30249,30 +30467,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1673, col: 35, offset: 54336},
+																				pos: position{line: 1674, col: 35, offset: 54363},
 																				expr: &choiceExpr{
-																					pos: position{line: 2898, col: 8, offset: 91403},
+																					pos: position{line: 2899, col: 8, offset: 91430},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2885, col: 12, offset: 91176},
+																							pos: position{line: 2886, col: 12, offset: 91203},
 																							run: (*parser).callonListContinuationElement169,
 																							expr: &choiceExpr{
-																								pos: position{line: 2885, col: 13, offset: 91177},
+																								pos: position{line: 2886, col: 13, offset: 91204},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 13, offset: 91177},
+																										pos:        position{line: 2886, col: 13, offset: 91204},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 20, offset: 91184},
+																										pos:        position{line: 2886, col: 20, offset: 91211},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 29, offset: 91193},
+																										pos:        position{line: 2886, col: 29, offset: 91220},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -30281,16 +30499,16 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2895, col: 8, offset: 91353},
+																							pos: position{line: 2896, col: 8, offset: 91380},
 																							expr: &anyMatcher{
-																								line: 2895, col: 9, offset: 91354,
+																								line: 2896, col: 9, offset: 91381,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1673, col: 40, offset: 54341,
+																				line: 1674, col: 40, offset: 54368,
 																			},
 																		},
 																	},
@@ -30300,24 +30518,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1665, col: 5, offset: 53983},
+													pos:   position{line: 1666, col: 5, offset: 54010},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1678, col: 5, offset: 54457},
+														pos: position{line: 1679, col: 5, offset: 54484},
 														run: (*parser).callonListContinuationElement178,
 														expr: &seqExpr{
-															pos: position{line: 1678, col: 5, offset: 54457},
+															pos: position{line: 1679, col: 5, offset: 54484},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1678, col: 5, offset: 54457},
+																	pos:   position{line: 1679, col: 5, offset: 54484},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1678, col: 16, offset: 54468},
+																		pos: position{line: 1679, col: 16, offset: 54495},
 																		run: (*parser).callonListContinuationElement181,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1678, col: 16, offset: 54468},
+																			pos: position{line: 1679, col: 16, offset: 54495},
 																			expr: &litMatcher{
-																				pos:        position{line: 1678, col: 17, offset: 54469},
+																				pos:        position{line: 1679, col: 17, offset: 54496},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -30326,7 +30544,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1681, col: 5, offset: 54526},
+																	pos: position{line: 1682, col: 5, offset: 54553},
 																	run: (*parser).callonListContinuationElement184,
 																},
 															},
@@ -30334,24 +30552,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1666, col: 5, offset: 54028},
+													pos:   position{line: 1667, col: 5, offset: 54055},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1689, col: 5, offset: 54775},
+														pos: position{line: 1690, col: 5, offset: 54802},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1691, col: 9, offset: 54841},
+																pos: position{line: 1692, col: 9, offset: 54868},
 																run: (*parser).callonListContinuationElement187,
 																expr: &seqExpr{
-																	pos: position{line: 1691, col: 9, offset: 54841},
+																	pos: position{line: 1692, col: 9, offset: 54868},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1691, col: 9, offset: 54841},
+																			pos: position{line: 1692, col: 9, offset: 54868},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 91005},
+																				pos: position{line: 2877, col: 10, offset: 91032},
 																				run: (*parser).callonListContinuationElement190,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 91005},
+																					pos:        position{line: 2877, col: 10, offset: 91032},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30360,28 +30578,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91403},
+																			pos: position{line: 2899, col: 8, offset: 91430},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91176},
+																					pos: position{line: 2886, col: 12, offset: 91203},
 																					run: (*parser).callonListContinuationElement193,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91177},
+																						pos: position{line: 2886, col: 13, offset: 91204},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91177},
+																								pos:        position{line: 2886, col: 13, offset: 91204},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91184},
+																								pos:        position{line: 2886, col: 20, offset: 91211},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91193},
+																								pos:        position{line: 2886, col: 29, offset: 91220},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30390,34 +30608,34 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91353},
+																					pos: position{line: 2896, col: 8, offset: 91380},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91354,
+																						line: 2896, col: 9, offset: 91381,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1692, col: 9, offset: 54860},
+																			pos: position{line: 1693, col: 9, offset: 54887},
 																			expr: &actionExpr{
-																				pos: position{line: 676, col: 14, offset: 21498},
+																				pos: position{line: 677, col: 14, offset: 21525},
 																				run: (*parser).callonListContinuationElement201,
 																				expr: &seqExpr{
-																					pos: position{line: 676, col: 14, offset: 21498},
+																					pos: position{line: 677, col: 14, offset: 21525},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2893, col: 11, offset: 91339},
+																							pos: position{line: 2894, col: 11, offset: 91366},
 																							expr: &anyMatcher{
-																								line: 2893, col: 13, offset: 91341,
+																								line: 2894, col: 13, offset: 91368,
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 676, col: 21, offset: 21505},
+																							pos: position{line: 677, col: 21, offset: 21532},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 91005},
+																								pos: position{line: 2877, col: 10, offset: 91032},
 																								run: (*parser).callonListContinuationElement206,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 91005},
+																									pos:        position{line: 2877, col: 10, offset: 91032},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30426,28 +30644,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91403},
+																							pos: position{line: 2899, col: 8, offset: 91430},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91176},
+																									pos: position{line: 2886, col: 12, offset: 91203},
 																									run: (*parser).callonListContinuationElement209,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91177},
+																										pos: position{line: 2886, col: 13, offset: 91204},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91177},
+																												pos:        position{line: 2886, col: 13, offset: 91204},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91184},
+																												pos:        position{line: 2886, col: 20, offset: 91211},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91193},
+																												pos:        position{line: 2886, col: 29, offset: 91220},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30456,9 +30674,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91353},
+																									pos: position{line: 2896, col: 8, offset: 91380},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91354,
+																										line: 2896, col: 9, offset: 91381,
 																									},
 																								},
 																							},
@@ -30471,18 +30689,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1698, col: 9, offset: 54989},
+																pos: position{line: 1699, col: 9, offset: 55016},
 																run: (*parser).callonListContinuationElement216,
 																expr: &seqExpr{
-																	pos: position{line: 1698, col: 9, offset: 54989},
+																	pos: position{line: 1699, col: 9, offset: 55016},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2880, col: 11, offset: 91066},
+																			pos: position{line: 2881, col: 11, offset: 91093},
 																			run: (*parser).callonListContinuationElement218,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2880, col: 11, offset: 91066},
+																				pos: position{line: 2881, col: 11, offset: 91093},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2880, col: 11, offset: 91066},
+																					pos:        position{line: 2881, col: 11, offset: 91093},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30491,15 +30709,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1699, col: 9, offset: 55062},
+																			pos:   position{line: 1700, col: 9, offset: 55089},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1699, col: 18, offset: 55071},
+																				pos: position{line: 1700, col: 18, offset: 55098},
 																				run: (*parser).callonListContinuationElement222,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1699, col: 18, offset: 55071},
+																					pos: position{line: 1700, col: 18, offset: 55098},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1699, col: 18, offset: 55071},
+																						pos:        position{line: 1700, col: 18, offset: 55098},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -30509,28 +30727,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91403},
+																			pos: position{line: 2899, col: 8, offset: 91430},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91176},
+																					pos: position{line: 2886, col: 12, offset: 91203},
 																					run: (*parser).callonListContinuationElement226,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91177},
+																						pos: position{line: 2886, col: 13, offset: 91204},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91177},
+																								pos:        position{line: 2886, col: 13, offset: 91204},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91184},
+																								pos:        position{line: 2886, col: 20, offset: 91211},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91193},
+																								pos:        position{line: 2886, col: 29, offset: 91220},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30539,9 +30757,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91353},
+																					pos: position{line: 2896, col: 8, offset: 91380},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91354,
+																						line: 2896, col: 9, offset: 91381,
 																					},
 																				},
 																			},
@@ -30559,41 +30777,41 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1551, col: 5, offset: 50210},
+							pos:   position{line: 1552, col: 5, offset: 50237},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1551, col: 16, offset: 50221},
+								pos: position{line: 1552, col: 16, offset: 50248},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1551, col: 17, offset: 50222},
+									pos:  position{line: 1552, col: 17, offset: 50249},
 									name: "BlockAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1552, col: 5, offset: 50244},
+							pos:   position{line: 1553, col: 5, offset: 50271},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1553, col: 9, offset: 50262},
+								pos: position{line: 1554, col: 9, offset: 50289},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 676, col: 14, offset: 21498},
+										pos: position{line: 677, col: 14, offset: 21525},
 										run: (*parser).callonListContinuationElement238,
 										expr: &seqExpr{
-											pos: position{line: 676, col: 14, offset: 21498},
+											pos: position{line: 677, col: 14, offset: 21525},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2893, col: 11, offset: 91339},
+													pos: position{line: 2894, col: 11, offset: 91366},
 													expr: &anyMatcher{
-														line: 2893, col: 13, offset: 91341,
+														line: 2894, col: 13, offset: 91368,
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 676, col: 21, offset: 21505},
+													pos: position{line: 677, col: 21, offset: 21532},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 91005},
+														pos: position{line: 2877, col: 10, offset: 91032},
 														run: (*parser).callonListContinuationElement243,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 91005},
+															pos:        position{line: 2877, col: 10, offset: 91032},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30602,28 +30820,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2898, col: 8, offset: 91403},
+													pos: position{line: 2899, col: 8, offset: 91430},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91176},
+															pos: position{line: 2886, col: 12, offset: 91203},
 															run: (*parser).callonListContinuationElement246,
 															expr: &choiceExpr{
-																pos: position{line: 2885, col: 13, offset: 91177},
+																pos: position{line: 2886, col: 13, offset: 91204},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 13, offset: 91177},
+																		pos:        position{line: 2886, col: 13, offset: 91204},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 20, offset: 91184},
+																		pos:        position{line: 2886, col: 20, offset: 91211},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 29, offset: 91193},
+																		pos:        position{line: 2886, col: 29, offset: 91220},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30632,9 +30850,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2895, col: 8, offset: 91353},
+															pos: position{line: 2896, col: 8, offset: 91380},
 															expr: &anyMatcher{
-																line: 2895, col: 9, offset: 91354,
+																line: 2896, col: 9, offset: 91381,
 															},
 														},
 													},
@@ -30643,7 +30861,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1554, col: 11, offset: 50282},
+										pos:  position{line: 1555, col: 11, offset: 50309},
 										name: "AttributeDeclaration",
 									},
 									&actionExpr{
@@ -30699,10 +30917,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 359, col: 49, offset: 10879},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 91005},
+														pos: position{line: 2877, col: 10, offset: 91032},
 														run: (*parser).callonListContinuationElement265,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 91005},
+															pos:        position{line: 2877, col: 10, offset: 91032},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30711,28 +30929,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2898, col: 8, offset: 91403},
+													pos: position{line: 2899, col: 8, offset: 91430},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91176},
+															pos: position{line: 2886, col: 12, offset: 91203},
 															run: (*parser).callonListContinuationElement268,
 															expr: &choiceExpr{
-																pos: position{line: 2885, col: 13, offset: 91177},
+																pos: position{line: 2886, col: 13, offset: 91204},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 13, offset: 91177},
+																		pos:        position{line: 2886, col: 13, offset: 91204},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 20, offset: 91184},
+																		pos:        position{line: 2886, col: 20, offset: 91211},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 29, offset: 91193},
+																		pos:        position{line: 2886, col: 29, offset: 91220},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30741,9 +30959,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2895, col: 8, offset: 91353},
+															pos: position{line: 2896, col: 8, offset: 91380},
 															expr: &anyMatcher{
-																line: 2895, col: 9, offset: 91354,
+																line: 2896, col: 9, offset: 91381,
 															},
 														},
 													},
@@ -30804,10 +31022,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 361, col: 39, offset: 11000},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 91005},
+														pos: position{line: 2877, col: 10, offset: 91032},
 														run: (*parser).callonListContinuationElement286,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 91005},
+															pos:        position{line: 2877, col: 10, offset: 91032},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30816,28 +31034,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2898, col: 8, offset: 91403},
+													pos: position{line: 2899, col: 8, offset: 91430},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91176},
+															pos: position{line: 2886, col: 12, offset: 91203},
 															run: (*parser).callonListContinuationElement289,
 															expr: &choiceExpr{
-																pos: position{line: 2885, col: 13, offset: 91177},
+																pos: position{line: 2886, col: 13, offset: 91204},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 13, offset: 91177},
+																		pos:        position{line: 2886, col: 13, offset: 91204},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 20, offset: 91184},
+																		pos:        position{line: 2886, col: 20, offset: 91211},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 29, offset: 91193},
+																		pos:        position{line: 2886, col: 29, offset: 91220},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30846,9 +31064,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2895, col: 8, offset: 91353},
+															pos: position{line: 2896, col: 8, offset: 91380},
 															expr: &anyMatcher{
-																line: 2895, col: 9, offset: 91354,
+																line: 2896, col: 9, offset: 91381,
 															},
 														},
 													},
@@ -30857,36 +31075,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 819, col: 5, offset: 26338},
+										pos: position{line: 820, col: 5, offset: 26365},
 										run: (*parser).callonListContinuationElement296,
 										expr: &seqExpr{
-											pos: position{line: 819, col: 5, offset: 26338},
+											pos: position{line: 820, col: 5, offset: 26365},
 											exprs: []interface{}{
 												&actionExpr{
-													pos: position{line: 739, col: 5, offset: 23593},
+													pos: position{line: 740, col: 5, offset: 23620},
 													run: (*parser).callonListContinuationElement298,
 													expr: &seqExpr{
-														pos: position{line: 739, col: 5, offset: 23593},
+														pos: position{line: 740, col: 5, offset: 23620},
 														exprs: []interface{}{
 															&labeledExpr{
-																pos:   position{line: 739, col: 5, offset: 23593},
+																pos:   position{line: 740, col: 5, offset: 23620},
 																label: "delimiter",
 																expr: &actionExpr{
-																	pos: position{line: 739, col: 16, offset: 23604},
+																	pos: position{line: 740, col: 16, offset: 23631},
 																	run: (*parser).callonListContinuationElement301,
 																	expr: &seqExpr{
-																		pos: position{line: 739, col: 16, offset: 23604},
+																		pos: position{line: 740, col: 16, offset: 23631},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 739, col: 16, offset: 23604},
+																				pos:        position{line: 740, col: 16, offset: 23631},
 																				val:        "////",
 																				ignoreCase: false,
 																				want:       "\"////\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 739, col: 23, offset: 23611},
+																				pos: position{line: 740, col: 23, offset: 23638},
 																				expr: &litMatcher{
-																					pos:        position{line: 739, col: 23, offset: 23611},
+																					pos:        position{line: 740, col: 23, offset: 23638},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -30897,12 +31115,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 741, col: 8, offset: 23695},
+																pos: position{line: 742, col: 8, offset: 23722},
 																expr: &actionExpr{
-																	pos: position{line: 2876, col: 10, offset: 91005},
+																	pos: position{line: 2877, col: 10, offset: 91032},
 																	run: (*parser).callonListContinuationElement307,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2876, col: 10, offset: 91005},
+																		pos:        position{line: 2877, col: 10, offset: 91032},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -30911,28 +31129,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2898, col: 8, offset: 91403},
+																pos: position{line: 2899, col: 8, offset: 91430},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2885, col: 12, offset: 91176},
+																		pos: position{line: 2886, col: 12, offset: 91203},
 																		run: (*parser).callonListContinuationElement310,
 																		expr: &choiceExpr{
-																			pos: position{line: 2885, col: 13, offset: 91177},
+																			pos: position{line: 2886, col: 13, offset: 91204},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 13, offset: 91177},
+																					pos:        position{line: 2886, col: 13, offset: 91204},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 20, offset: 91184},
+																					pos:        position{line: 2886, col: 20, offset: 91211},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 29, offset: 91193},
+																					pos:        position{line: 2886, col: 29, offset: 91220},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -30941,9 +31159,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91353},
+																		pos: position{line: 2896, col: 8, offset: 91380},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91354,
+																			line: 2896, col: 9, offset: 91381,
 																		},
 																	},
 																},
@@ -30952,46 +31170,46 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 820, col: 5, offset: 26369},
+													pos:   position{line: 821, col: 5, offset: 26396},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 830, col: 5, offset: 26655},
+														pos: position{line: 831, col: 5, offset: 26682},
 														expr: &actionExpr{
-															pos: position{line: 830, col: 6, offset: 26656},
+															pos: position{line: 831, col: 6, offset: 26683},
 															run: (*parser).callonListContinuationElement319,
 															expr: &seqExpr{
-																pos: position{line: 830, col: 6, offset: 26656},
+																pos: position{line: 831, col: 6, offset: 26683},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 830, col: 6, offset: 26656},
+																		pos: position{line: 831, col: 6, offset: 26683},
 																		expr: &choiceExpr{
-																			pos: position{line: 827, col: 29, offset: 26598},
+																			pos: position{line: 828, col: 29, offset: 26625},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 739, col: 5, offset: 23593},
+																					pos: position{line: 740, col: 5, offset: 23620},
 																					run: (*parser).callonListContinuationElement323,
 																					expr: &seqExpr{
-																						pos: position{line: 739, col: 5, offset: 23593},
+																						pos: position{line: 740, col: 5, offset: 23620},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 739, col: 5, offset: 23593},
+																								pos:   position{line: 740, col: 5, offset: 23620},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 739, col: 16, offset: 23604},
+																									pos: position{line: 740, col: 16, offset: 23631},
 																									run: (*parser).callonListContinuationElement326,
 																									expr: &seqExpr{
-																										pos: position{line: 739, col: 16, offset: 23604},
+																										pos: position{line: 740, col: 16, offset: 23631},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 739, col: 16, offset: 23604},
+																												pos:        position{line: 740, col: 16, offset: 23631},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 739, col: 23, offset: 23611},
+																												pos: position{line: 740, col: 23, offset: 23638},
 																												expr: &litMatcher{
-																													pos:        position{line: 739, col: 23, offset: 23611},
+																													pos:        position{line: 740, col: 23, offset: 23638},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -31002,12 +31220,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 741, col: 8, offset: 23695},
+																								pos: position{line: 742, col: 8, offset: 23722},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 91005},
+																									pos: position{line: 2877, col: 10, offset: 91032},
 																									run: (*parser).callonListContinuationElement332,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 91005},
+																										pos:        position{line: 2877, col: 10, offset: 91032},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -31016,28 +31234,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2898, col: 8, offset: 91403},
+																								pos: position{line: 2899, col: 8, offset: 91430},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2885, col: 12, offset: 91176},
+																										pos: position{line: 2886, col: 12, offset: 91203},
 																										run: (*parser).callonListContinuationElement335,
 																										expr: &choiceExpr{
-																											pos: position{line: 2885, col: 13, offset: 91177},
+																											pos: position{line: 2886, col: 13, offset: 91204},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 13, offset: 91177},
+																													pos:        position{line: 2886, col: 13, offset: 91204},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 20, offset: 91184},
+																													pos:        position{line: 2886, col: 20, offset: 91211},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 29, offset: 91193},
+																													pos:        position{line: 2886, col: 29, offset: 91220},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -31046,9 +31264,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2895, col: 8, offset: 91353},
+																										pos: position{line: 2896, col: 8, offset: 91380},
 																										expr: &anyMatcher{
-																											line: 2895, col: 9, offset: 91354,
+																											line: 2896, col: 9, offset: 91381,
 																										},
 																									},
 																								},
@@ -31057,39 +31275,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91353},
+																					pos: position{line: 2896, col: 8, offset: 91380},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91354,
+																						line: 2896, col: 9, offset: 91381,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 831, col: 5, offset: 26686},
+																		pos:   position{line: 832, col: 5, offset: 26713},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 810, col: 5, offset: 26102},
+																			pos: position{line: 811, col: 5, offset: 26129},
 																			run: (*parser).callonListContinuationElement345,
 																			expr: &seqExpr{
-																				pos: position{line: 810, col: 5, offset: 26102},
+																				pos: position{line: 811, col: 5, offset: 26129},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2893, col: 11, offset: 91339},
+																						pos: position{line: 2894, col: 11, offset: 91366},
 																						expr: &anyMatcher{
-																							line: 2893, col: 13, offset: 91341,
+																							line: 2894, col: 13, offset: 91368,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 811, col: 5, offset: 26177},
+																						pos:   position{line: 812, col: 5, offset: 26204},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2822, col: 13, offset: 89531},
+																							pos: position{line: 2823, col: 13, offset: 89558},
 																							run: (*parser).callonListContinuationElement350,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2822, col: 13, offset: 89531},
+																								pos: position{line: 2823, col: 13, offset: 89558},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2822, col: 13, offset: 89531},
+																									pos:        position{line: 2823, col: 13, offset: 89558},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31099,28 +31317,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91403},
+																						pos: position{line: 2899, col: 8, offset: 91430},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91176},
+																								pos: position{line: 2886, col: 12, offset: 91203},
 																								run: (*parser).callonListContinuationElement354,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91177},
+																									pos: position{line: 2886, col: 13, offset: 91204},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91177},
+																											pos:        position{line: 2886, col: 13, offset: 91204},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91184},
+																											pos:        position{line: 2886, col: 20, offset: 91211},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91193},
+																											pos:        position{line: 2886, col: 29, offset: 91220},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31129,9 +31347,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91353},
+																								pos: position{line: 2896, col: 8, offset: 91380},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91354,
+																									line: 2896, col: 9, offset: 91381,
 																								},
 																							},
 																						},
@@ -31146,35 +31364,35 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 821, col: 5, offset: 26403},
+													pos: position{line: 822, col: 5, offset: 26430},
 													expr: &choiceExpr{
-														pos: position{line: 827, col: 29, offset: 26598},
+														pos: position{line: 828, col: 29, offset: 26625},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 739, col: 5, offset: 23593},
+																pos: position{line: 740, col: 5, offset: 23620},
 																run: (*parser).callonListContinuationElement363,
 																expr: &seqExpr{
-																	pos: position{line: 739, col: 5, offset: 23593},
+																	pos: position{line: 740, col: 5, offset: 23620},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 739, col: 5, offset: 23593},
+																			pos:   position{line: 740, col: 5, offset: 23620},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 739, col: 16, offset: 23604},
+																				pos: position{line: 740, col: 16, offset: 23631},
 																				run: (*parser).callonListContinuationElement366,
 																				expr: &seqExpr{
-																					pos: position{line: 739, col: 16, offset: 23604},
+																					pos: position{line: 740, col: 16, offset: 23631},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 739, col: 16, offset: 23604},
+																							pos:        position{line: 740, col: 16, offset: 23631},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 739, col: 23, offset: 23611},
+																							pos: position{line: 740, col: 23, offset: 23638},
 																							expr: &litMatcher{
-																								pos:        position{line: 739, col: 23, offset: 23611},
+																								pos:        position{line: 740, col: 23, offset: 23638},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -31185,12 +31403,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 741, col: 8, offset: 23695},
+																			pos: position{line: 742, col: 8, offset: 23722},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 91005},
+																				pos: position{line: 2877, col: 10, offset: 91032},
 																				run: (*parser).callonListContinuationElement372,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 91005},
+																					pos:        position{line: 2877, col: 10, offset: 91032},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -31199,28 +31417,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91403},
+																			pos: position{line: 2899, col: 8, offset: 91430},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91176},
+																					pos: position{line: 2886, col: 12, offset: 91203},
 																					run: (*parser).callonListContinuationElement375,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91177},
+																						pos: position{line: 2886, col: 13, offset: 91204},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91177},
+																								pos:        position{line: 2886, col: 13, offset: 91204},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91184},
+																								pos:        position{line: 2886, col: 20, offset: 91211},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91193},
+																								pos:        position{line: 2886, col: 29, offset: 91220},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31229,9 +31447,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91353},
+																					pos: position{line: 2896, col: 8, offset: 91380},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91354,
+																						line: 2896, col: 9, offset: 91381,
 																					},
 																				},
 																			},
@@ -31240,9 +31458,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91353},
+																pos: position{line: 2896, col: 8, offset: 91380},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91354,
+																	line: 2896, col: 9, offset: 91381,
 																},
 															},
 														},
@@ -31252,39 +31470,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 839, col: 5, offset: 26839},
+										pos: position{line: 840, col: 5, offset: 26866},
 										run: (*parser).callonListContinuationElement384,
 										expr: &seqExpr{
-											pos: position{line: 839, col: 5, offset: 26839},
+											pos: position{line: 840, col: 5, offset: 26866},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 839, col: 5, offset: 26839},
+													pos:   position{line: 840, col: 5, offset: 26866},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 746, col: 5, offset: 23841},
+														pos: position{line: 747, col: 5, offset: 23868},
 														run: (*parser).callonListContinuationElement387,
 														expr: &seqExpr{
-															pos: position{line: 746, col: 5, offset: 23841},
+															pos: position{line: 747, col: 5, offset: 23868},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 746, col: 5, offset: 23841},
+																	pos:   position{line: 747, col: 5, offset: 23868},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 746, col: 16, offset: 23852},
+																		pos: position{line: 747, col: 16, offset: 23879},
 																		run: (*parser).callonListContinuationElement390,
 																		expr: &seqExpr{
-																			pos: position{line: 746, col: 16, offset: 23852},
+																			pos: position{line: 747, col: 16, offset: 23879},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 746, col: 16, offset: 23852},
+																					pos:        position{line: 747, col: 16, offset: 23879},
 																					val:        "====",
 																					ignoreCase: false,
 																					want:       "\"====\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 746, col: 23, offset: 23859},
+																					pos: position{line: 747, col: 23, offset: 23886},
 																					expr: &litMatcher{
-																						pos:        position{line: 746, col: 23, offset: 23859},
+																						pos:        position{line: 747, col: 23, offset: 23886},
 																						val:        "=",
 																						ignoreCase: false,
 																						want:       "\"=\"",
@@ -31295,12 +31513,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 748, col: 8, offset: 23943},
+																	pos: position{line: 749, col: 8, offset: 23970},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 91005},
+																		pos: position{line: 2877, col: 10, offset: 91032},
 																		run: (*parser).callonListContinuationElement396,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 91005},
+																			pos:        position{line: 2877, col: 10, offset: 91032},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31309,28 +31527,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91403},
+																	pos: position{line: 2899, col: 8, offset: 91430},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91176},
+																			pos: position{line: 2886, col: 12, offset: 91203},
 																			run: (*parser).callonListContinuationElement399,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91177},
+																				pos: position{line: 2886, col: 13, offset: 91204},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91177},
+																						pos:        position{line: 2886, col: 13, offset: 91204},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91184},
+																						pos:        position{line: 2886, col: 20, offset: 91211},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91193},
+																						pos:        position{line: 2886, col: 29, offset: 91220},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31339,9 +31557,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91353},
+																			pos: position{line: 2896, col: 8, offset: 91380},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91354,
+																				line: 2896, col: 9, offset: 91381,
 																			},
 																		},
 																	},
@@ -31351,56 +31569,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 840, col: 5, offset: 26878},
+													pos: position{line: 841, col: 5, offset: 26905},
 													run: (*parser).callonListContinuationElement406,
 												},
 												&labeledExpr{
-													pos:   position{line: 843, col: 5, offset: 26970},
+													pos:   position{line: 844, col: 5, offset: 26997},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 858, col: 4, offset: 27367},
+														pos: position{line: 859, col: 4, offset: 27394},
 														expr: &actionExpr{
-															pos: position{line: 858, col: 5, offset: 27368},
+															pos: position{line: 859, col: 5, offset: 27395},
 															run: (*parser).callonListContinuationElement409,
 															expr: &seqExpr{
-																pos: position{line: 858, col: 5, offset: 27368},
+																pos: position{line: 859, col: 5, offset: 27395},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 858, col: 5, offset: 27368},
+																		pos: position{line: 859, col: 5, offset: 27395},
 																		expr: &choiceExpr{
-																			pos: position{line: 851, col: 5, offset: 27210},
+																			pos: position{line: 852, col: 5, offset: 27237},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 851, col: 5, offset: 27210},
+																					pos: position{line: 852, col: 5, offset: 27237},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 851, col: 5, offset: 27210},
+																							pos:   position{line: 852, col: 5, offset: 27237},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 746, col: 5, offset: 23841},
+																								pos: position{line: 747, col: 5, offset: 23868},
 																								run: (*parser).callonListContinuationElement415,
 																								expr: &seqExpr{
-																									pos: position{line: 746, col: 5, offset: 23841},
+																									pos: position{line: 747, col: 5, offset: 23868},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 746, col: 5, offset: 23841},
+																											pos:   position{line: 747, col: 5, offset: 23868},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 746, col: 16, offset: 23852},
+																												pos: position{line: 747, col: 16, offset: 23879},
 																												run: (*parser).callonListContinuationElement418,
 																												expr: &seqExpr{
-																													pos: position{line: 746, col: 16, offset: 23852},
+																													pos: position{line: 747, col: 16, offset: 23879},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 746, col: 16, offset: 23852},
+																															pos:        position{line: 747, col: 16, offset: 23879},
 																															val:        "====",
 																															ignoreCase: false,
 																															want:       "\"====\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 746, col: 23, offset: 23859},
+																															pos: position{line: 747, col: 23, offset: 23886},
 																															expr: &litMatcher{
-																																pos:        position{line: 746, col: 23, offset: 23859},
+																																pos:        position{line: 747, col: 23, offset: 23886},
 																																val:        "=",
 																																ignoreCase: false,
 																																want:       "\"=\"",
@@ -31411,12 +31629,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 748, col: 8, offset: 23943},
+																											pos: position{line: 749, col: 8, offset: 23970},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 91005},
+																												pos: position{line: 2877, col: 10, offset: 91032},
 																												run: (*parser).callonListContinuationElement424,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 91005},
+																													pos:        position{line: 2877, col: 10, offset: 91032},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31425,28 +31643,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91403},
+																											pos: position{line: 2899, col: 8, offset: 91430},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91176},
+																													pos: position{line: 2886, col: 12, offset: 91203},
 																													run: (*parser).callonListContinuationElement427,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91177},
+																														pos: position{line: 2886, col: 13, offset: 91204},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91177},
+																																pos:        position{line: 2886, col: 13, offset: 91204},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91184},
+																																pos:        position{line: 2886, col: 20, offset: 91211},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91193},
+																																pos:        position{line: 2886, col: 29, offset: 91220},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31455,9 +31673,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91353},
+																													pos: position{line: 2896, col: 8, offset: 91380},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91354,
+																														line: 2896, col: 9, offset: 91381,
 																													},
 																												},
 																											},
@@ -31467,45 +31685,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 852, col: 5, offset: 27241},
+																							pos: position{line: 853, col: 5, offset: 27268},
 																							run: (*parser).callonListContinuationElement434,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91353},
+																					pos: position{line: 2896, col: 8, offset: 91380},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91354,
+																						line: 2896, col: 9, offset: 91381,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 859, col: 5, offset: 27398},
+																		pos:   position{line: 860, col: 5, offset: 27425},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 810, col: 5, offset: 26102},
+																			pos: position{line: 811, col: 5, offset: 26129},
 																			run: (*parser).callonListContinuationElement438,
 																			expr: &seqExpr{
-																				pos: position{line: 810, col: 5, offset: 26102},
+																				pos: position{line: 811, col: 5, offset: 26129},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2893, col: 11, offset: 91339},
+																						pos: position{line: 2894, col: 11, offset: 91366},
 																						expr: &anyMatcher{
-																							line: 2893, col: 13, offset: 91341,
+																							line: 2894, col: 13, offset: 91368,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 811, col: 5, offset: 26177},
+																						pos:   position{line: 812, col: 5, offset: 26204},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2822, col: 13, offset: 89531},
+																							pos: position{line: 2823, col: 13, offset: 89558},
 																							run: (*parser).callonListContinuationElement443,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2822, col: 13, offset: 89531},
+																								pos: position{line: 2823, col: 13, offset: 89558},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2822, col: 13, offset: 89531},
+																									pos:        position{line: 2823, col: 13, offset: 89558},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31515,28 +31733,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91403},
+																						pos: position{line: 2899, col: 8, offset: 91430},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91176},
+																								pos: position{line: 2886, col: 12, offset: 91203},
 																								run: (*parser).callonListContinuationElement447,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91177},
+																									pos: position{line: 2886, col: 13, offset: 91204},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91177},
+																											pos:        position{line: 2886, col: 13, offset: 91204},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91184},
+																											pos:        position{line: 2886, col: 20, offset: 91211},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91193},
+																											pos:        position{line: 2886, col: 29, offset: 91220},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31545,9 +31763,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91353},
+																								pos: position{line: 2896, col: 8, offset: 91380},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91354,
+																									line: 2896, col: 9, offset: 91381,
 																								},
 																							},
 																						},
@@ -31562,44 +31780,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 844, col: 5, offset: 27004},
+													pos:   position{line: 845, col: 5, offset: 27031},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 844, col: 9, offset: 27008},
+														pos: position{line: 845, col: 9, offset: 27035},
 														expr: &choiceExpr{
-															pos: position{line: 851, col: 5, offset: 27210},
+															pos: position{line: 852, col: 5, offset: 27237},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 851, col: 5, offset: 27210},
+																	pos: position{line: 852, col: 5, offset: 27237},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 851, col: 5, offset: 27210},
+																			pos:   position{line: 852, col: 5, offset: 27237},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 746, col: 5, offset: 23841},
+																				pos: position{line: 747, col: 5, offset: 23868},
 																				run: (*parser).callonListContinuationElement459,
 																				expr: &seqExpr{
-																					pos: position{line: 746, col: 5, offset: 23841},
+																					pos: position{line: 747, col: 5, offset: 23868},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 746, col: 5, offset: 23841},
+																							pos:   position{line: 747, col: 5, offset: 23868},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 746, col: 16, offset: 23852},
+																								pos: position{line: 747, col: 16, offset: 23879},
 																								run: (*parser).callonListContinuationElement462,
 																								expr: &seqExpr{
-																									pos: position{line: 746, col: 16, offset: 23852},
+																									pos: position{line: 747, col: 16, offset: 23879},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 746, col: 16, offset: 23852},
+																											pos:        position{line: 747, col: 16, offset: 23879},
 																											val:        "====",
 																											ignoreCase: false,
 																											want:       "\"====\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 746, col: 23, offset: 23859},
+																											pos: position{line: 747, col: 23, offset: 23886},
 																											expr: &litMatcher{
-																												pos:        position{line: 746, col: 23, offset: 23859},
+																												pos:        position{line: 747, col: 23, offset: 23886},
 																												val:        "=",
 																												ignoreCase: false,
 																												want:       "\"=\"",
@@ -31610,12 +31828,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 748, col: 8, offset: 23943},
+																							pos: position{line: 749, col: 8, offset: 23970},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 91005},
+																								pos: position{line: 2877, col: 10, offset: 91032},
 																								run: (*parser).callonListContinuationElement468,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 91005},
+																									pos:        position{line: 2877, col: 10, offset: 91032},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -31624,28 +31842,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91403},
+																							pos: position{line: 2899, col: 8, offset: 91430},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91176},
+																									pos: position{line: 2886, col: 12, offset: 91203},
 																									run: (*parser).callonListContinuationElement471,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91177},
+																										pos: position{line: 2886, col: 13, offset: 91204},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91177},
+																												pos:        position{line: 2886, col: 13, offset: 91204},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91184},
+																												pos:        position{line: 2886, col: 20, offset: 91211},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91193},
+																												pos:        position{line: 2886, col: 29, offset: 91220},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -31654,9 +31872,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91353},
+																									pos: position{line: 2896, col: 8, offset: 91380},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91354,
+																										line: 2896, col: 9, offset: 91381,
 																									},
 																								},
 																							},
@@ -31666,15 +31884,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 852, col: 5, offset: 27241},
+																			pos: position{line: 853, col: 5, offset: 27268},
 																			run: (*parser).callonListContinuationElement478,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2895, col: 8, offset: 91353},
+																	pos: position{line: 2896, col: 8, offset: 91380},
 																	expr: &anyMatcher{
-																		line: 2895, col: 9, offset: 91354,
+																		line: 2896, col: 9, offset: 91381,
 																	},
 																},
 															},
@@ -31685,36 +31903,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 951, col: 5, offset: 29690},
+										pos: position{line: 952, col: 5, offset: 29717},
 										run: (*parser).callonListContinuationElement481,
 										expr: &seqExpr{
-											pos: position{line: 951, col: 5, offset: 29690},
+											pos: position{line: 952, col: 5, offset: 29717},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 951, col: 5, offset: 29690},
+													pos:   position{line: 952, col: 5, offset: 29717},
 													label: "delimiter",
 													expr: &actionExpr{
-														pos: position{line: 759, col: 26, offset: 24329},
+														pos: position{line: 760, col: 26, offset: 24356},
 														run: (*parser).callonListContinuationElement484,
 														expr: &seqExpr{
-															pos: position{line: 759, col: 26, offset: 24329},
+															pos: position{line: 760, col: 26, offset: 24356},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 759, col: 26, offset: 24329},
+																	pos:        position{line: 760, col: 26, offset: 24356},
 																	val:        "```",
 																	ignoreCase: false,
 																	want:       "\"```\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 759, col: 32, offset: 24335},
+																	pos:   position{line: 760, col: 32, offset: 24362},
 																	label: "language",
 																	expr: &actionExpr{
-																		pos: position{line: 763, col: 13, offset: 24465},
+																		pos: position{line: 764, col: 13, offset: 24492},
 																		run: (*parser).callonListContinuationElement488,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 763, col: 14, offset: 24466},
+																			pos: position{line: 764, col: 14, offset: 24493},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 763, col: 14, offset: 24466},
+																				pos:        position{line: 764, col: 14, offset: 24493},
 																				val:        "[^\\r\\n`\\t ]",
 																				chars:      []rune{'\r', '\n', '`', '\t', ' '},
 																				ignoreCase: false,
@@ -31724,12 +31942,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 759, col: 52, offset: 24355},
+																	pos: position{line: 760, col: 52, offset: 24382},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 91005},
+																		pos: position{line: 2877, col: 10, offset: 91032},
 																		run: (*parser).callonListContinuationElement492,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 91005},
+																			pos:        position{line: 2877, col: 10, offset: 91032},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31738,28 +31956,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91403},
+																	pos: position{line: 2899, col: 8, offset: 91430},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91176},
+																			pos: position{line: 2886, col: 12, offset: 91203},
 																			run: (*parser).callonListContinuationElement495,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91177},
+																				pos: position{line: 2886, col: 13, offset: 91204},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91177},
+																						pos:        position{line: 2886, col: 13, offset: 91204},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91184},
+																						pos:        position{line: 2886, col: 20, offset: 91211},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91193},
+																						pos:        position{line: 2886, col: 29, offset: 91220},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31768,9 +31986,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91353},
+																			pos: position{line: 2896, col: 8, offset: 91380},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91354,
+																				line: 2896, col: 9, offset: 91381,
 																			},
 																		},
 																	},
@@ -31780,34 +31998,34 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 952, col: 5, offset: 29736},
+													pos:   position{line: 953, col: 5, offset: 29763},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 965, col: 5, offset: 30209},
+														pos: position{line: 966, col: 5, offset: 30236},
 														expr: &actionExpr{
-															pos: position{line: 965, col: 6, offset: 30210},
+															pos: position{line: 966, col: 6, offset: 30237},
 															run: (*parser).callonListContinuationElement504,
 															expr: &seqExpr{
-																pos: position{line: 965, col: 6, offset: 30210},
+																pos: position{line: 966, col: 6, offset: 30237},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 965, col: 6, offset: 30210},
+																		pos: position{line: 966, col: 6, offset: 30237},
 																		expr: &seqExpr{
-																			pos: position{line: 962, col: 34, offset: 30157},
+																			pos: position{line: 963, col: 34, offset: 30184},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 962, col: 34, offset: 30157},
+																					pos:        position{line: 963, col: 34, offset: 30184},
 																					val:        "```",
 																					ignoreCase: false,
 																					want:       "\"```\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 962, col: 40, offset: 30163},
+																					pos: position{line: 963, col: 40, offset: 30190},
 																					expr: &actionExpr{
-																						pos: position{line: 2876, col: 10, offset: 91005},
+																						pos: position{line: 2877, col: 10, offset: 91032},
 																						run: (*parser).callonListContinuationElement510,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2876, col: 10, offset: 91005},
+																							pos:        position{line: 2877, col: 10, offset: 91032},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -31816,28 +32034,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2898, col: 8, offset: 91403},
+																					pos: position{line: 2899, col: 8, offset: 91430},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2885, col: 12, offset: 91176},
+																							pos: position{line: 2886, col: 12, offset: 91203},
 																							run: (*parser).callonListContinuationElement513,
 																							expr: &choiceExpr{
-																								pos: position{line: 2885, col: 13, offset: 91177},
+																								pos: position{line: 2886, col: 13, offset: 91204},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 13, offset: 91177},
+																										pos:        position{line: 2886, col: 13, offset: 91204},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 20, offset: 91184},
+																										pos:        position{line: 2886, col: 20, offset: 91211},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 29, offset: 91193},
+																										pos:        position{line: 2886, col: 29, offset: 91220},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -31846,9 +32064,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2895, col: 8, offset: 91353},
+																							pos: position{line: 2896, col: 8, offset: 91380},
 																							expr: &anyMatcher{
-																								line: 2895, col: 9, offset: 91354,
+																								line: 2896, col: 9, offset: 91381,
 																							},
 																						},
 																					},
@@ -31857,30 +32075,30 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 966, col: 5, offset: 30245},
+																		pos:   position{line: 967, col: 5, offset: 30272},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 810, col: 5, offset: 26102},
+																			pos: position{line: 811, col: 5, offset: 26129},
 																			run: (*parser).callonListContinuationElement521,
 																			expr: &seqExpr{
-																				pos: position{line: 810, col: 5, offset: 26102},
+																				pos: position{line: 811, col: 5, offset: 26129},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2893, col: 11, offset: 91339},
+																						pos: position{line: 2894, col: 11, offset: 91366},
 																						expr: &anyMatcher{
-																							line: 2893, col: 13, offset: 91341,
+																							line: 2894, col: 13, offset: 91368,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 811, col: 5, offset: 26177},
+																						pos:   position{line: 812, col: 5, offset: 26204},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2822, col: 13, offset: 89531},
+																							pos: position{line: 2823, col: 13, offset: 89558},
 																							run: (*parser).callonListContinuationElement526,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2822, col: 13, offset: 89531},
+																								pos: position{line: 2823, col: 13, offset: 89558},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2822, col: 13, offset: 89531},
+																									pos:        position{line: 2823, col: 13, offset: 89558},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31890,28 +32108,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91403},
+																						pos: position{line: 2899, col: 8, offset: 91430},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91176},
+																								pos: position{line: 2886, col: 12, offset: 91203},
 																								run: (*parser).callonListContinuationElement530,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91177},
+																									pos: position{line: 2886, col: 13, offset: 91204},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91177},
+																											pos:        position{line: 2886, col: 13, offset: 91204},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91184},
+																											pos:        position{line: 2886, col: 20, offset: 91211},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91193},
+																											pos:        position{line: 2886, col: 29, offset: 91220},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31920,9 +32138,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91353},
+																								pos: position{line: 2896, col: 8, offset: 91380},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91354,
+																									line: 2896, col: 9, offset: 91381,
 																								},
 																							},
 																						},
@@ -31937,23 +32155,23 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 953, col: 5, offset: 29775},
+													pos: position{line: 954, col: 5, offset: 29802},
 													expr: &seqExpr{
-														pos: position{line: 962, col: 34, offset: 30157},
+														pos: position{line: 963, col: 34, offset: 30184},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 962, col: 34, offset: 30157},
+																pos:        position{line: 963, col: 34, offset: 30184},
 																val:        "```",
 																ignoreCase: false,
 																want:       "\"```\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 962, col: 40, offset: 30163},
+																pos: position{line: 963, col: 40, offset: 30190},
 																expr: &actionExpr{
-																	pos: position{line: 2876, col: 10, offset: 91005},
+																	pos: position{line: 2877, col: 10, offset: 91032},
 																	run: (*parser).callonListContinuationElement541,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2876, col: 10, offset: 91005},
+																		pos:        position{line: 2877, col: 10, offset: 91032},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -31962,28 +32180,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2898, col: 8, offset: 91403},
+																pos: position{line: 2899, col: 8, offset: 91430},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2885, col: 12, offset: 91176},
+																		pos: position{line: 2886, col: 12, offset: 91203},
 																		run: (*parser).callonListContinuationElement544,
 																		expr: &choiceExpr{
-																			pos: position{line: 2885, col: 13, offset: 91177},
+																			pos: position{line: 2886, col: 13, offset: 91204},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 13, offset: 91177},
+																					pos:        position{line: 2886, col: 13, offset: 91204},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 20, offset: 91184},
+																					pos:        position{line: 2886, col: 20, offset: 91211},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 29, offset: 91193},
+																					pos:        position{line: 2886, col: 29, offset: 91220},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -31992,9 +32210,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91353},
+																		pos: position{line: 2896, col: 8, offset: 91380},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91354,
+																			line: 2896, col: 9, offset: 91381,
 																		},
 																	},
 																},
@@ -32006,39 +32224,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 867, col: 5, offset: 27551},
+										pos: position{line: 868, col: 5, offset: 27578},
 										run: (*parser).callonListContinuationElement551,
 										expr: &seqExpr{
-											pos: position{line: 867, col: 5, offset: 27551},
+											pos: position{line: 868, col: 5, offset: 27578},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 867, col: 5, offset: 27551},
+													pos:   position{line: 868, col: 5, offset: 27578},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 753, col: 5, offset: 24088},
+														pos: position{line: 754, col: 5, offset: 24115},
 														run: (*parser).callonListContinuationElement554,
 														expr: &seqExpr{
-															pos: position{line: 753, col: 5, offset: 24088},
+															pos: position{line: 754, col: 5, offset: 24115},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 753, col: 5, offset: 24088},
+																	pos:   position{line: 754, col: 5, offset: 24115},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 753, col: 16, offset: 24099},
+																		pos: position{line: 754, col: 16, offset: 24126},
 																		run: (*parser).callonListContinuationElement557,
 																		expr: &seqExpr{
-																			pos: position{line: 753, col: 16, offset: 24099},
+																			pos: position{line: 754, col: 16, offset: 24126},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 753, col: 16, offset: 24099},
+																					pos:        position{line: 754, col: 16, offset: 24126},
 																					val:        "```",
 																					ignoreCase: false,
 																					want:       "\"```\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 753, col: 22, offset: 24105},
+																					pos: position{line: 754, col: 22, offset: 24132},
 																					expr: &litMatcher{
-																						pos:        position{line: 753, col: 22, offset: 24105},
+																						pos:        position{line: 754, col: 22, offset: 24132},
 																						val:        "`",
 																						ignoreCase: false,
 																						want:       "\"`\"",
@@ -32049,12 +32267,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 755, col: 8, offset: 24189},
+																	pos: position{line: 756, col: 8, offset: 24216},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 91005},
+																		pos: position{line: 2877, col: 10, offset: 91032},
 																		run: (*parser).callonListContinuationElement563,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 91005},
+																			pos:        position{line: 2877, col: 10, offset: 91032},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32063,28 +32281,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91403},
+																	pos: position{line: 2899, col: 8, offset: 91430},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91176},
+																			pos: position{line: 2886, col: 12, offset: 91203},
 																			run: (*parser).callonListContinuationElement566,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91177},
+																				pos: position{line: 2886, col: 13, offset: 91204},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91177},
+																						pos:        position{line: 2886, col: 13, offset: 91204},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91184},
+																						pos:        position{line: 2886, col: 20, offset: 91211},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91193},
+																						pos:        position{line: 2886, col: 29, offset: 91220},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32093,9 +32311,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91353},
+																			pos: position{line: 2896, col: 8, offset: 91380},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91354,
+																				line: 2896, col: 9, offset: 91381,
 																			},
 																		},
 																	},
@@ -32105,56 +32323,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 868, col: 5, offset: 27589},
+													pos: position{line: 869, col: 5, offset: 27616},
 													run: (*parser).callonListContinuationElement573,
 												},
 												&labeledExpr{
-													pos:   position{line: 871, col: 5, offset: 27681},
+													pos:   position{line: 872, col: 5, offset: 27708},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 886, col: 5, offset: 28071},
+														pos: position{line: 887, col: 5, offset: 28098},
 														expr: &actionExpr{
-															pos: position{line: 886, col: 6, offset: 28072},
+															pos: position{line: 887, col: 6, offset: 28099},
 															run: (*parser).callonListContinuationElement576,
 															expr: &seqExpr{
-																pos: position{line: 886, col: 6, offset: 28072},
+																pos: position{line: 887, col: 6, offset: 28099},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 886, col: 6, offset: 28072},
+																		pos: position{line: 887, col: 6, offset: 28099},
 																		expr: &choiceExpr{
-																			pos: position{line: 879, col: 5, offset: 27915},
+																			pos: position{line: 880, col: 5, offset: 27942},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 879, col: 5, offset: 27915},
+																					pos: position{line: 880, col: 5, offset: 27942},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 879, col: 5, offset: 27915},
+																							pos:   position{line: 880, col: 5, offset: 27942},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 753, col: 5, offset: 24088},
+																								pos: position{line: 754, col: 5, offset: 24115},
 																								run: (*parser).callonListContinuationElement582,
 																								expr: &seqExpr{
-																									pos: position{line: 753, col: 5, offset: 24088},
+																									pos: position{line: 754, col: 5, offset: 24115},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 753, col: 5, offset: 24088},
+																											pos:   position{line: 754, col: 5, offset: 24115},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 753, col: 16, offset: 24099},
+																												pos: position{line: 754, col: 16, offset: 24126},
 																												run: (*parser).callonListContinuationElement585,
 																												expr: &seqExpr{
-																													pos: position{line: 753, col: 16, offset: 24099},
+																													pos: position{line: 754, col: 16, offset: 24126},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 753, col: 16, offset: 24099},
+																															pos:        position{line: 754, col: 16, offset: 24126},
 																															val:        "```",
 																															ignoreCase: false,
 																															want:       "\"```\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 753, col: 22, offset: 24105},
+																															pos: position{line: 754, col: 22, offset: 24132},
 																															expr: &litMatcher{
-																																pos:        position{line: 753, col: 22, offset: 24105},
+																																pos:        position{line: 754, col: 22, offset: 24132},
 																																val:        "`",
 																																ignoreCase: false,
 																																want:       "\"`\"",
@@ -32165,12 +32383,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 755, col: 8, offset: 24189},
+																											pos: position{line: 756, col: 8, offset: 24216},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 91005},
+																												pos: position{line: 2877, col: 10, offset: 91032},
 																												run: (*parser).callonListContinuationElement591,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 91005},
+																													pos:        position{line: 2877, col: 10, offset: 91032},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32179,28 +32397,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91403},
+																											pos: position{line: 2899, col: 8, offset: 91430},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91176},
+																													pos: position{line: 2886, col: 12, offset: 91203},
 																													run: (*parser).callonListContinuationElement594,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91177},
+																														pos: position{line: 2886, col: 13, offset: 91204},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91177},
+																																pos:        position{line: 2886, col: 13, offset: 91204},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91184},
+																																pos:        position{line: 2886, col: 20, offset: 91211},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91193},
+																																pos:        position{line: 2886, col: 29, offset: 91220},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32209,9 +32427,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91353},
+																													pos: position{line: 2896, col: 8, offset: 91380},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91354,
+																														line: 2896, col: 9, offset: 91381,
 																													},
 																												},
 																											},
@@ -32221,45 +32439,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 880, col: 5, offset: 27945},
+																							pos: position{line: 881, col: 5, offset: 27972},
 																							run: (*parser).callonListContinuationElement601,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91353},
+																					pos: position{line: 2896, col: 8, offset: 91380},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91354,
+																						line: 2896, col: 9, offset: 91381,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 887, col: 5, offset: 28101},
+																		pos:   position{line: 888, col: 5, offset: 28128},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 810, col: 5, offset: 26102},
+																			pos: position{line: 811, col: 5, offset: 26129},
 																			run: (*parser).callonListContinuationElement605,
 																			expr: &seqExpr{
-																				pos: position{line: 810, col: 5, offset: 26102},
+																				pos: position{line: 811, col: 5, offset: 26129},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2893, col: 11, offset: 91339},
+																						pos: position{line: 2894, col: 11, offset: 91366},
 																						expr: &anyMatcher{
-																							line: 2893, col: 13, offset: 91341,
+																							line: 2894, col: 13, offset: 91368,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 811, col: 5, offset: 26177},
+																						pos:   position{line: 812, col: 5, offset: 26204},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2822, col: 13, offset: 89531},
+																							pos: position{line: 2823, col: 13, offset: 89558},
 																							run: (*parser).callonListContinuationElement610,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2822, col: 13, offset: 89531},
+																								pos: position{line: 2823, col: 13, offset: 89558},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2822, col: 13, offset: 89531},
+																									pos:        position{line: 2823, col: 13, offset: 89558},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32269,28 +32487,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91403},
+																						pos: position{line: 2899, col: 8, offset: 91430},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91176},
+																								pos: position{line: 2886, col: 12, offset: 91203},
 																								run: (*parser).callonListContinuationElement614,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91177},
+																									pos: position{line: 2886, col: 13, offset: 91204},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91177},
+																											pos:        position{line: 2886, col: 13, offset: 91204},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91184},
+																											pos:        position{line: 2886, col: 20, offset: 91211},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91193},
+																											pos:        position{line: 2886, col: 29, offset: 91220},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32299,9 +32517,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91353},
+																								pos: position{line: 2896, col: 8, offset: 91380},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91354,
+																									line: 2896, col: 9, offset: 91381,
 																								},
 																							},
 																						},
@@ -32316,44 +32534,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 872, col: 5, offset: 27714},
+													pos:   position{line: 873, col: 5, offset: 27741},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 872, col: 9, offset: 27718},
+														pos: position{line: 873, col: 9, offset: 27745},
 														expr: &choiceExpr{
-															pos: position{line: 879, col: 5, offset: 27915},
+															pos: position{line: 880, col: 5, offset: 27942},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 879, col: 5, offset: 27915},
+																	pos: position{line: 880, col: 5, offset: 27942},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 879, col: 5, offset: 27915},
+																			pos:   position{line: 880, col: 5, offset: 27942},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 753, col: 5, offset: 24088},
+																				pos: position{line: 754, col: 5, offset: 24115},
 																				run: (*parser).callonListContinuationElement626,
 																				expr: &seqExpr{
-																					pos: position{line: 753, col: 5, offset: 24088},
+																					pos: position{line: 754, col: 5, offset: 24115},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 753, col: 5, offset: 24088},
+																							pos:   position{line: 754, col: 5, offset: 24115},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 753, col: 16, offset: 24099},
+																								pos: position{line: 754, col: 16, offset: 24126},
 																								run: (*parser).callonListContinuationElement629,
 																								expr: &seqExpr{
-																									pos: position{line: 753, col: 16, offset: 24099},
+																									pos: position{line: 754, col: 16, offset: 24126},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 753, col: 16, offset: 24099},
+																											pos:        position{line: 754, col: 16, offset: 24126},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 753, col: 22, offset: 24105},
+																											pos: position{line: 754, col: 22, offset: 24132},
 																											expr: &litMatcher{
-																												pos:        position{line: 753, col: 22, offset: 24105},
+																												pos:        position{line: 754, col: 22, offset: 24132},
 																												val:        "`",
 																												ignoreCase: false,
 																												want:       "\"`\"",
@@ -32364,12 +32582,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 755, col: 8, offset: 24189},
+																							pos: position{line: 756, col: 8, offset: 24216},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 91005},
+																								pos: position{line: 2877, col: 10, offset: 91032},
 																								run: (*parser).callonListContinuationElement635,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 91005},
+																									pos:        position{line: 2877, col: 10, offset: 91032},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32378,28 +32596,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91403},
+																							pos: position{line: 2899, col: 8, offset: 91430},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91176},
+																									pos: position{line: 2886, col: 12, offset: 91203},
 																									run: (*parser).callonListContinuationElement638,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91177},
+																										pos: position{line: 2886, col: 13, offset: 91204},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91177},
+																												pos:        position{line: 2886, col: 13, offset: 91204},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91184},
+																												pos:        position{line: 2886, col: 20, offset: 91211},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91193},
+																												pos:        position{line: 2886, col: 29, offset: 91220},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32408,9 +32626,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91353},
+																									pos: position{line: 2896, col: 8, offset: 91380},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91354,
+																										line: 2896, col: 9, offset: 91381,
 																									},
 																								},
 																							},
@@ -32420,15 +32638,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 880, col: 5, offset: 27945},
+																			pos: position{line: 881, col: 5, offset: 27972},
 																			run: (*parser).callonListContinuationElement645,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2895, col: 8, offset: 91353},
+																	pos: position{line: 2896, col: 8, offset: 91380},
 																	expr: &anyMatcher{
-																		line: 2895, col: 9, offset: 91354,
+																		line: 2896, col: 9, offset: 91381,
 																	},
 																},
 															},
@@ -32439,39 +32657,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 895, col: 5, offset: 28256},
+										pos: position{line: 896, col: 5, offset: 28283},
 										run: (*parser).callonListContinuationElement648,
 										expr: &seqExpr{
-											pos: position{line: 895, col: 5, offset: 28256},
+											pos: position{line: 896, col: 5, offset: 28283},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 895, col: 5, offset: 28256},
+													pos:   position{line: 896, col: 5, offset: 28283},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 768, col: 5, offset: 24630},
+														pos: position{line: 769, col: 5, offset: 24657},
 														run: (*parser).callonListContinuationElement651,
 														expr: &seqExpr{
-															pos: position{line: 768, col: 5, offset: 24630},
+															pos: position{line: 769, col: 5, offset: 24657},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 768, col: 5, offset: 24630},
+																	pos:   position{line: 769, col: 5, offset: 24657},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 768, col: 16, offset: 24641},
+																		pos: position{line: 769, col: 16, offset: 24668},
 																		run: (*parser).callonListContinuationElement654,
 																		expr: &seqExpr{
-																			pos: position{line: 768, col: 16, offset: 24641},
+																			pos: position{line: 769, col: 16, offset: 24668},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 768, col: 16, offset: 24641},
+																					pos:        position{line: 769, col: 16, offset: 24668},
 																					val:        "----",
 																					ignoreCase: false,
 																					want:       "\"----\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 768, col: 23, offset: 24648},
+																					pos: position{line: 769, col: 23, offset: 24675},
 																					expr: &litMatcher{
-																						pos:        position{line: 768, col: 23, offset: 24648},
+																						pos:        position{line: 769, col: 23, offset: 24675},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
@@ -32482,12 +32700,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 770, col: 8, offset: 24732},
+																	pos: position{line: 771, col: 8, offset: 24759},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 91005},
+																		pos: position{line: 2877, col: 10, offset: 91032},
 																		run: (*parser).callonListContinuationElement660,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 91005},
+																			pos:        position{line: 2877, col: 10, offset: 91032},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32496,28 +32714,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91403},
+																	pos: position{line: 2899, col: 8, offset: 91430},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91176},
+																			pos: position{line: 2886, col: 12, offset: 91203},
 																			run: (*parser).callonListContinuationElement663,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91177},
+																				pos: position{line: 2886, col: 13, offset: 91204},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91177},
+																						pos:        position{line: 2886, col: 13, offset: 91204},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91184},
+																						pos:        position{line: 2886, col: 20, offset: 91211},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91193},
+																						pos:        position{line: 2886, col: 29, offset: 91220},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32526,9 +32744,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91353},
+																			pos: position{line: 2896, col: 8, offset: 91380},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91354,
+																				line: 2896, col: 9, offset: 91381,
 																			},
 																		},
 																	},
@@ -32538,56 +32756,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 896, col: 5, offset: 28295},
+													pos: position{line: 897, col: 5, offset: 28322},
 													run: (*parser).callonListContinuationElement670,
 												},
 												&labeledExpr{
-													pos:   position{line: 899, col: 5, offset: 28387},
+													pos:   position{line: 900, col: 5, offset: 28414},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 914, col: 5, offset: 28785},
+														pos: position{line: 915, col: 5, offset: 28812},
 														expr: &actionExpr{
-															pos: position{line: 914, col: 6, offset: 28786},
+															pos: position{line: 915, col: 6, offset: 28813},
 															run: (*parser).callonListContinuationElement673,
 															expr: &seqExpr{
-																pos: position{line: 914, col: 6, offset: 28786},
+																pos: position{line: 915, col: 6, offset: 28813},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 914, col: 6, offset: 28786},
+																		pos: position{line: 915, col: 6, offset: 28813},
 																		expr: &choiceExpr{
-																			pos: position{line: 907, col: 5, offset: 28627},
+																			pos: position{line: 908, col: 5, offset: 28654},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 907, col: 5, offset: 28627},
+																					pos: position{line: 908, col: 5, offset: 28654},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 907, col: 5, offset: 28627},
+																							pos:   position{line: 908, col: 5, offset: 28654},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 768, col: 5, offset: 24630},
+																								pos: position{line: 769, col: 5, offset: 24657},
 																								run: (*parser).callonListContinuationElement679,
 																								expr: &seqExpr{
-																									pos: position{line: 768, col: 5, offset: 24630},
+																									pos: position{line: 769, col: 5, offset: 24657},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 768, col: 5, offset: 24630},
+																											pos:   position{line: 769, col: 5, offset: 24657},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 768, col: 16, offset: 24641},
+																												pos: position{line: 769, col: 16, offset: 24668},
 																												run: (*parser).callonListContinuationElement682,
 																												expr: &seqExpr{
-																													pos: position{line: 768, col: 16, offset: 24641},
+																													pos: position{line: 769, col: 16, offset: 24668},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 768, col: 16, offset: 24641},
+																															pos:        position{line: 769, col: 16, offset: 24668},
 																															val:        "----",
 																															ignoreCase: false,
 																															want:       "\"----\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 768, col: 23, offset: 24648},
+																															pos: position{line: 769, col: 23, offset: 24675},
 																															expr: &litMatcher{
-																																pos:        position{line: 768, col: 23, offset: 24648},
+																																pos:        position{line: 769, col: 23, offset: 24675},
 																																val:        "-",
 																																ignoreCase: false,
 																																want:       "\"-\"",
@@ -32598,12 +32816,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 770, col: 8, offset: 24732},
+																											pos: position{line: 771, col: 8, offset: 24759},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 91005},
+																												pos: position{line: 2877, col: 10, offset: 91032},
 																												run: (*parser).callonListContinuationElement688,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 91005},
+																													pos:        position{line: 2877, col: 10, offset: 91032},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32612,28 +32830,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91403},
+																											pos: position{line: 2899, col: 8, offset: 91430},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91176},
+																													pos: position{line: 2886, col: 12, offset: 91203},
 																													run: (*parser).callonListContinuationElement691,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91177},
+																														pos: position{line: 2886, col: 13, offset: 91204},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91177},
+																																pos:        position{line: 2886, col: 13, offset: 91204},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91184},
+																																pos:        position{line: 2886, col: 20, offset: 91211},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91193},
+																																pos:        position{line: 2886, col: 29, offset: 91220},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32642,9 +32860,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91353},
+																													pos: position{line: 2896, col: 8, offset: 91380},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91354,
+																														line: 2896, col: 9, offset: 91381,
 																													},
 																												},
 																											},
@@ -32654,45 +32872,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 908, col: 5, offset: 28658},
+																							pos: position{line: 909, col: 5, offset: 28685},
 																							run: (*parser).callonListContinuationElement698,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91353},
+																					pos: position{line: 2896, col: 8, offset: 91380},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91354,
+																						line: 2896, col: 9, offset: 91381,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 915, col: 5, offset: 28816},
+																		pos:   position{line: 916, col: 5, offset: 28843},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 810, col: 5, offset: 26102},
+																			pos: position{line: 811, col: 5, offset: 26129},
 																			run: (*parser).callonListContinuationElement702,
 																			expr: &seqExpr{
-																				pos: position{line: 810, col: 5, offset: 26102},
+																				pos: position{line: 811, col: 5, offset: 26129},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2893, col: 11, offset: 91339},
+																						pos: position{line: 2894, col: 11, offset: 91366},
 																						expr: &anyMatcher{
-																							line: 2893, col: 13, offset: 91341,
+																							line: 2894, col: 13, offset: 91368,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 811, col: 5, offset: 26177},
+																						pos:   position{line: 812, col: 5, offset: 26204},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2822, col: 13, offset: 89531},
+																							pos: position{line: 2823, col: 13, offset: 89558},
 																							run: (*parser).callonListContinuationElement707,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2822, col: 13, offset: 89531},
+																								pos: position{line: 2823, col: 13, offset: 89558},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2822, col: 13, offset: 89531},
+																									pos:        position{line: 2823, col: 13, offset: 89558},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32702,28 +32920,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91403},
+																						pos: position{line: 2899, col: 8, offset: 91430},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91176},
+																								pos: position{line: 2886, col: 12, offset: 91203},
 																								run: (*parser).callonListContinuationElement711,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91177},
+																									pos: position{line: 2886, col: 13, offset: 91204},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91177},
+																											pos:        position{line: 2886, col: 13, offset: 91204},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91184},
+																											pos:        position{line: 2886, col: 20, offset: 91211},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91193},
+																											pos:        position{line: 2886, col: 29, offset: 91220},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32732,9 +32950,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91353},
+																								pos: position{line: 2896, col: 8, offset: 91380},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91354,
+																									line: 2896, col: 9, offset: 91381,
 																								},
 																							},
 																						},
@@ -32749,44 +32967,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 900, col: 5, offset: 28421},
+													pos:   position{line: 901, col: 5, offset: 28448},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 900, col: 9, offset: 28425},
+														pos: position{line: 901, col: 9, offset: 28452},
 														expr: &choiceExpr{
-															pos: position{line: 907, col: 5, offset: 28627},
+															pos: position{line: 908, col: 5, offset: 28654},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 907, col: 5, offset: 28627},
+																	pos: position{line: 908, col: 5, offset: 28654},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 907, col: 5, offset: 28627},
+																			pos:   position{line: 908, col: 5, offset: 28654},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 768, col: 5, offset: 24630},
+																				pos: position{line: 769, col: 5, offset: 24657},
 																				run: (*parser).callonListContinuationElement723,
 																				expr: &seqExpr{
-																					pos: position{line: 768, col: 5, offset: 24630},
+																					pos: position{line: 769, col: 5, offset: 24657},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 768, col: 5, offset: 24630},
+																							pos:   position{line: 769, col: 5, offset: 24657},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 768, col: 16, offset: 24641},
+																								pos: position{line: 769, col: 16, offset: 24668},
 																								run: (*parser).callonListContinuationElement726,
 																								expr: &seqExpr{
-																									pos: position{line: 768, col: 16, offset: 24641},
+																									pos: position{line: 769, col: 16, offset: 24668},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 768, col: 16, offset: 24641},
+																											pos:        position{line: 769, col: 16, offset: 24668},
 																											val:        "----",
 																											ignoreCase: false,
 																											want:       "\"----\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 768, col: 23, offset: 24648},
+																											pos: position{line: 769, col: 23, offset: 24675},
 																											expr: &litMatcher{
-																												pos:        position{line: 768, col: 23, offset: 24648},
+																												pos:        position{line: 769, col: 23, offset: 24675},
 																												val:        "-",
 																												ignoreCase: false,
 																												want:       "\"-\"",
@@ -32797,12 +33015,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 770, col: 8, offset: 24732},
+																							pos: position{line: 771, col: 8, offset: 24759},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 91005},
+																								pos: position{line: 2877, col: 10, offset: 91032},
 																								run: (*parser).callonListContinuationElement732,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 91005},
+																									pos:        position{line: 2877, col: 10, offset: 91032},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32811,28 +33029,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91403},
+																							pos: position{line: 2899, col: 8, offset: 91430},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91176},
+																									pos: position{line: 2886, col: 12, offset: 91203},
 																									run: (*parser).callonListContinuationElement735,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91177},
+																										pos: position{line: 2886, col: 13, offset: 91204},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91177},
+																												pos:        position{line: 2886, col: 13, offset: 91204},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91184},
+																												pos:        position{line: 2886, col: 20, offset: 91211},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91193},
+																												pos:        position{line: 2886, col: 29, offset: 91220},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32841,9 +33059,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91353},
+																									pos: position{line: 2896, col: 8, offset: 91380},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91354,
+																										line: 2896, col: 9, offset: 91381,
 																									},
 																								},
 																							},
@@ -32853,15 +33071,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 908, col: 5, offset: 28658},
+																			pos: position{line: 909, col: 5, offset: 28685},
 																			run: (*parser).callonListContinuationElement742,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2895, col: 8, offset: 91353},
+																	pos: position{line: 2896, col: 8, offset: 91380},
 																	expr: &anyMatcher{
-																		line: 2895, col: 9, offset: 91354,
+																		line: 2896, col: 9, offset: 91381,
 																	},
 																},
 															},
@@ -32872,39 +33090,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 923, col: 5, offset: 28971},
+										pos: position{line: 924, col: 5, offset: 28998},
 										run: (*parser).callonListContinuationElement745,
 										expr: &seqExpr{
-											pos: position{line: 923, col: 5, offset: 28971},
+											pos: position{line: 924, col: 5, offset: 28998},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 923, col: 5, offset: 28971},
+													pos:   position{line: 924, col: 5, offset: 28998},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 782, col: 5, offset: 25106},
+														pos: position{line: 783, col: 5, offset: 25133},
 														run: (*parser).callonListContinuationElement748,
 														expr: &seqExpr{
-															pos: position{line: 782, col: 5, offset: 25106},
+															pos: position{line: 783, col: 5, offset: 25133},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 782, col: 5, offset: 25106},
+																	pos:   position{line: 783, col: 5, offset: 25133},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 782, col: 16, offset: 25117},
+																		pos: position{line: 783, col: 16, offset: 25144},
 																		run: (*parser).callonListContinuationElement751,
 																		expr: &seqExpr{
-																			pos: position{line: 782, col: 16, offset: 25117},
+																			pos: position{line: 783, col: 16, offset: 25144},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 782, col: 16, offset: 25117},
+																					pos:        position{line: 783, col: 16, offset: 25144},
 																					val:        "....",
 																					ignoreCase: false,
 																					want:       "\"....\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 782, col: 23, offset: 25124},
+																					pos: position{line: 783, col: 23, offset: 25151},
 																					expr: &litMatcher{
-																						pos:        position{line: 782, col: 23, offset: 25124},
+																						pos:        position{line: 783, col: 23, offset: 25151},
 																						val:        ".",
 																						ignoreCase: false,
 																						want:       "\".\"",
@@ -32915,12 +33133,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 784, col: 8, offset: 25208},
+																	pos: position{line: 785, col: 8, offset: 25235},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 91005},
+																		pos: position{line: 2877, col: 10, offset: 91032},
 																		run: (*parser).callonListContinuationElement757,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 91005},
+																			pos:        position{line: 2877, col: 10, offset: 91032},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32929,28 +33147,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91403},
+																	pos: position{line: 2899, col: 8, offset: 91430},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91176},
+																			pos: position{line: 2886, col: 12, offset: 91203},
 																			run: (*parser).callonListContinuationElement760,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91177},
+																				pos: position{line: 2886, col: 13, offset: 91204},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91177},
+																						pos:        position{line: 2886, col: 13, offset: 91204},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91184},
+																						pos:        position{line: 2886, col: 20, offset: 91211},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91193},
+																						pos:        position{line: 2886, col: 29, offset: 91220},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32959,9 +33177,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91353},
+																			pos: position{line: 2896, col: 8, offset: 91380},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91354,
+																				line: 2896, col: 9, offset: 91381,
 																			},
 																		},
 																	},
@@ -32971,56 +33189,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 924, col: 5, offset: 29010},
+													pos: position{line: 925, col: 5, offset: 29037},
 													run: (*parser).callonListContinuationElement767,
 												},
 												&labeledExpr{
-													pos:   position{line: 927, col: 5, offset: 29102},
+													pos:   position{line: 928, col: 5, offset: 29129},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 942, col: 5, offset: 29500},
+														pos: position{line: 943, col: 5, offset: 29527},
 														expr: &actionExpr{
-															pos: position{line: 942, col: 6, offset: 29501},
+															pos: position{line: 943, col: 6, offset: 29528},
 															run: (*parser).callonListContinuationElement770,
 															expr: &seqExpr{
-																pos: position{line: 942, col: 6, offset: 29501},
+																pos: position{line: 943, col: 6, offset: 29528},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 942, col: 6, offset: 29501},
+																		pos: position{line: 943, col: 6, offset: 29528},
 																		expr: &choiceExpr{
-																			pos: position{line: 935, col: 5, offset: 29342},
+																			pos: position{line: 936, col: 5, offset: 29369},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 935, col: 5, offset: 29342},
+																					pos: position{line: 936, col: 5, offset: 29369},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 935, col: 5, offset: 29342},
+																							pos:   position{line: 936, col: 5, offset: 29369},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 782, col: 5, offset: 25106},
+																								pos: position{line: 783, col: 5, offset: 25133},
 																								run: (*parser).callonListContinuationElement776,
 																								expr: &seqExpr{
-																									pos: position{line: 782, col: 5, offset: 25106},
+																									pos: position{line: 783, col: 5, offset: 25133},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 782, col: 5, offset: 25106},
+																											pos:   position{line: 783, col: 5, offset: 25133},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 782, col: 16, offset: 25117},
+																												pos: position{line: 783, col: 16, offset: 25144},
 																												run: (*parser).callonListContinuationElement779,
 																												expr: &seqExpr{
-																													pos: position{line: 782, col: 16, offset: 25117},
+																													pos: position{line: 783, col: 16, offset: 25144},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 782, col: 16, offset: 25117},
+																															pos:        position{line: 783, col: 16, offset: 25144},
 																															val:        "....",
 																															ignoreCase: false,
 																															want:       "\"....\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 782, col: 23, offset: 25124},
+																															pos: position{line: 783, col: 23, offset: 25151},
 																															expr: &litMatcher{
-																																pos:        position{line: 782, col: 23, offset: 25124},
+																																pos:        position{line: 783, col: 23, offset: 25151},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -33031,12 +33249,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 784, col: 8, offset: 25208},
+																											pos: position{line: 785, col: 8, offset: 25235},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 91005},
+																												pos: position{line: 2877, col: 10, offset: 91032},
 																												run: (*parser).callonListContinuationElement785,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 91005},
+																													pos:        position{line: 2877, col: 10, offset: 91032},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33045,28 +33263,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91403},
+																											pos: position{line: 2899, col: 8, offset: 91430},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91176},
+																													pos: position{line: 2886, col: 12, offset: 91203},
 																													run: (*parser).callonListContinuationElement788,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91177},
+																														pos: position{line: 2886, col: 13, offset: 91204},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91177},
+																																pos:        position{line: 2886, col: 13, offset: 91204},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91184},
+																																pos:        position{line: 2886, col: 20, offset: 91211},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91193},
+																																pos:        position{line: 2886, col: 29, offset: 91220},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33075,9 +33293,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91353},
+																													pos: position{line: 2896, col: 8, offset: 91380},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91354,
+																														line: 2896, col: 9, offset: 91381,
 																													},
 																												},
 																											},
@@ -33087,45 +33305,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 936, col: 5, offset: 29373},
+																							pos: position{line: 937, col: 5, offset: 29400},
 																							run: (*parser).callonListContinuationElement795,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91353},
+																					pos: position{line: 2896, col: 8, offset: 91380},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91354,
+																						line: 2896, col: 9, offset: 91381,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 943, col: 5, offset: 29531},
+																		pos:   position{line: 944, col: 5, offset: 29558},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 810, col: 5, offset: 26102},
+																			pos: position{line: 811, col: 5, offset: 26129},
 																			run: (*parser).callonListContinuationElement799,
 																			expr: &seqExpr{
-																				pos: position{line: 810, col: 5, offset: 26102},
+																				pos: position{line: 811, col: 5, offset: 26129},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2893, col: 11, offset: 91339},
+																						pos: position{line: 2894, col: 11, offset: 91366},
 																						expr: &anyMatcher{
-																							line: 2893, col: 13, offset: 91341,
+																							line: 2894, col: 13, offset: 91368,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 811, col: 5, offset: 26177},
+																						pos:   position{line: 812, col: 5, offset: 26204},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2822, col: 13, offset: 89531},
+																							pos: position{line: 2823, col: 13, offset: 89558},
 																							run: (*parser).callonListContinuationElement804,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2822, col: 13, offset: 89531},
+																								pos: position{line: 2823, col: 13, offset: 89558},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2822, col: 13, offset: 89531},
+																									pos:        position{line: 2823, col: 13, offset: 89558},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33135,28 +33353,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91403},
+																						pos: position{line: 2899, col: 8, offset: 91430},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91176},
+																								pos: position{line: 2886, col: 12, offset: 91203},
 																								run: (*parser).callonListContinuationElement808,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91177},
+																									pos: position{line: 2886, col: 13, offset: 91204},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91177},
+																											pos:        position{line: 2886, col: 13, offset: 91204},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91184},
+																											pos:        position{line: 2886, col: 20, offset: 91211},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91193},
+																											pos:        position{line: 2886, col: 29, offset: 91220},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33165,9 +33383,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91353},
+																								pos: position{line: 2896, col: 8, offset: 91380},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91354,
+																									line: 2896, col: 9, offset: 91381,
 																								},
 																							},
 																						},
@@ -33182,44 +33400,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 928, col: 5, offset: 29136},
+													pos:   position{line: 929, col: 5, offset: 29163},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 928, col: 9, offset: 29140},
+														pos: position{line: 929, col: 9, offset: 29167},
 														expr: &choiceExpr{
-															pos: position{line: 935, col: 5, offset: 29342},
+															pos: position{line: 936, col: 5, offset: 29369},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 935, col: 5, offset: 29342},
+																	pos: position{line: 936, col: 5, offset: 29369},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 935, col: 5, offset: 29342},
+																			pos:   position{line: 936, col: 5, offset: 29369},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 782, col: 5, offset: 25106},
+																				pos: position{line: 783, col: 5, offset: 25133},
 																				run: (*parser).callonListContinuationElement820,
 																				expr: &seqExpr{
-																					pos: position{line: 782, col: 5, offset: 25106},
+																					pos: position{line: 783, col: 5, offset: 25133},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 782, col: 5, offset: 25106},
+																							pos:   position{line: 783, col: 5, offset: 25133},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 782, col: 16, offset: 25117},
+																								pos: position{line: 783, col: 16, offset: 25144},
 																								run: (*parser).callonListContinuationElement823,
 																								expr: &seqExpr{
-																									pos: position{line: 782, col: 16, offset: 25117},
+																									pos: position{line: 783, col: 16, offset: 25144},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 782, col: 16, offset: 25117},
+																											pos:        position{line: 783, col: 16, offset: 25144},
 																											val:        "....",
 																											ignoreCase: false,
 																											want:       "\"....\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 782, col: 23, offset: 25124},
+																											pos: position{line: 783, col: 23, offset: 25151},
 																											expr: &litMatcher{
-																												pos:        position{line: 782, col: 23, offset: 25124},
+																												pos:        position{line: 783, col: 23, offset: 25151},
 																												val:        ".",
 																												ignoreCase: false,
 																												want:       "\".\"",
@@ -33230,12 +33448,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 784, col: 8, offset: 25208},
+																							pos: position{line: 785, col: 8, offset: 25235},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 91005},
+																								pos: position{line: 2877, col: 10, offset: 91032},
 																								run: (*parser).callonListContinuationElement829,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 91005},
+																									pos:        position{line: 2877, col: 10, offset: 91032},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33244,28 +33462,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91403},
+																							pos: position{line: 2899, col: 8, offset: 91430},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91176},
+																									pos: position{line: 2886, col: 12, offset: 91203},
 																									run: (*parser).callonListContinuationElement832,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91177},
+																										pos: position{line: 2886, col: 13, offset: 91204},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91177},
+																												pos:        position{line: 2886, col: 13, offset: 91204},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91184},
+																												pos:        position{line: 2886, col: 20, offset: 91211},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91193},
+																												pos:        position{line: 2886, col: 29, offset: 91220},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33274,9 +33492,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91353},
+																									pos: position{line: 2896, col: 8, offset: 91380},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91354,
+																										line: 2896, col: 9, offset: 91381,
 																									},
 																								},
 																							},
@@ -33286,15 +33504,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 936, col: 5, offset: 29373},
+																			pos: position{line: 937, col: 5, offset: 29400},
 																			run: (*parser).callonListContinuationElement839,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2895, col: 8, offset: 91353},
+																	pos: position{line: 2896, col: 8, offset: 91380},
 																	expr: &anyMatcher{
-																		line: 2895, col: 9, offset: 91354,
+																		line: 2896, col: 9, offset: 91381,
 																	},
 																},
 															},
@@ -33305,41 +33523,41 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 974, col: 5, offset: 30414},
+										pos: position{line: 975, col: 5, offset: 30441},
 										run: (*parser).callonListContinuationElement842,
 										expr: &seqExpr{
-											pos: position{line: 974, col: 5, offset: 30414},
+											pos: position{line: 975, col: 5, offset: 30441},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 974, col: 5, offset: 30414},
+													pos:   position{line: 975, col: 5, offset: 30441},
 													label: "firstLine",
 													expr: &actionExpr{
-														pos: position{line: 981, col: 5, offset: 30673},
+														pos: position{line: 982, col: 5, offset: 30700},
 														run: (*parser).callonListContinuationElement845,
 														expr: &seqExpr{
-															pos: position{line: 981, col: 5, offset: 30673},
+															pos: position{line: 982, col: 5, offset: 30700},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 981, col: 5, offset: 30673},
+																	pos: position{line: 982, col: 5, offset: 30700},
 																	expr: &actionExpr{
-																		pos: position{line: 676, col: 14, offset: 21498},
+																		pos: position{line: 677, col: 14, offset: 21525},
 																		run: (*parser).callonListContinuationElement848,
 																		expr: &seqExpr{
-																			pos: position{line: 676, col: 14, offset: 21498},
+																			pos: position{line: 677, col: 14, offset: 21525},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2893, col: 11, offset: 91339},
+																					pos: position{line: 2894, col: 11, offset: 91366},
 																					expr: &anyMatcher{
-																						line: 2893, col: 13, offset: 91341,
+																						line: 2894, col: 13, offset: 91368,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 676, col: 21, offset: 21505},
+																					pos: position{line: 677, col: 21, offset: 21532},
 																					expr: &actionExpr{
-																						pos: position{line: 2876, col: 10, offset: 91005},
+																						pos: position{line: 2877, col: 10, offset: 91032},
 																						run: (*parser).callonListContinuationElement853,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2876, col: 10, offset: 91005},
+																							pos:        position{line: 2877, col: 10, offset: 91032},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -33348,28 +33566,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2898, col: 8, offset: 91403},
+																					pos: position{line: 2899, col: 8, offset: 91430},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2885, col: 12, offset: 91176},
+																							pos: position{line: 2886, col: 12, offset: 91203},
 																							run: (*parser).callonListContinuationElement856,
 																							expr: &choiceExpr{
-																								pos: position{line: 2885, col: 13, offset: 91177},
+																								pos: position{line: 2886, col: 13, offset: 91204},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 13, offset: 91177},
+																										pos:        position{line: 2886, col: 13, offset: 91204},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 20, offset: 91184},
+																										pos:        position{line: 2886, col: 20, offset: 91211},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 29, offset: 91193},
+																										pos:        position{line: 2886, col: 29, offset: 91220},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -33378,9 +33596,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2895, col: 8, offset: 91353},
+																							pos: position{line: 2896, col: 8, offset: 91380},
 																							expr: &anyMatcher{
-																								line: 2895, col: 9, offset: 91354,
+																								line: 2896, col: 9, offset: 91381,
 																							},
 																						},
 																					},
@@ -33390,21 +33608,21 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 982, col: 5, offset: 30688},
+																	pos:        position{line: 983, col: 5, offset: 30715},
 																	val:        "> ",
 																	ignoreCase: false,
 																	want:       "\"> \"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 983, col: 5, offset: 30698},
+																	pos:   position{line: 984, col: 5, offset: 30725},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2826, col: 14, offset: 89598},
+																		pos: position{line: 2827, col: 14, offset: 89625},
 																		run: (*parser).callonListContinuationElement865,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2826, col: 14, offset: 89598},
+																			pos: position{line: 2827, col: 14, offset: 89625},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2826, col: 14, offset: 89598},
+																				pos:        position{line: 2827, col: 14, offset: 89625},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -33414,28 +33632,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91403},
+																	pos: position{line: 2899, col: 8, offset: 91430},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91176},
+																			pos: position{line: 2886, col: 12, offset: 91203},
 																			run: (*parser).callonListContinuationElement869,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91177},
+																				pos: position{line: 2886, col: 13, offset: 91204},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91177},
+																						pos:        position{line: 2886, col: 13, offset: 91204},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91184},
+																						pos:        position{line: 2886, col: 20, offset: 91211},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91193},
+																						pos:        position{line: 2886, col: 29, offset: 91220},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33444,9 +33662,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91353},
+																			pos: position{line: 2896, col: 8, offset: 91380},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91354,
+																				line: 2896, col: 9, offset: 91381,
 																			},
 																		},
 																	},
@@ -33456,40 +33674,40 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 975, col: 5, offset: 30451},
+													pos:   position{line: 976, col: 5, offset: 30478},
 													label: "otherLines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 975, col: 16, offset: 30462},
+														pos: position{line: 976, col: 16, offset: 30489},
 														expr: &choiceExpr{
-															pos: position{line: 975, col: 17, offset: 30463},
+															pos: position{line: 976, col: 17, offset: 30490},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 981, col: 5, offset: 30673},
+																	pos: position{line: 982, col: 5, offset: 30700},
 																	run: (*parser).callonListContinuationElement879,
 																	expr: &seqExpr{
-																		pos: position{line: 981, col: 5, offset: 30673},
+																		pos: position{line: 982, col: 5, offset: 30700},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 981, col: 5, offset: 30673},
+																				pos: position{line: 982, col: 5, offset: 30700},
 																				expr: &actionExpr{
-																					pos: position{line: 676, col: 14, offset: 21498},
+																					pos: position{line: 677, col: 14, offset: 21525},
 																					run: (*parser).callonListContinuationElement882,
 																					expr: &seqExpr{
-																						pos: position{line: 676, col: 14, offset: 21498},
+																						pos: position{line: 677, col: 14, offset: 21525},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2893, col: 11, offset: 91339},
+																								pos: position{line: 2894, col: 11, offset: 91366},
 																								expr: &anyMatcher{
-																									line: 2893, col: 13, offset: 91341,
+																									line: 2894, col: 13, offset: 91368,
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 676, col: 21, offset: 21505},
+																								pos: position{line: 677, col: 21, offset: 21532},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 91005},
+																									pos: position{line: 2877, col: 10, offset: 91032},
 																									run: (*parser).callonListContinuationElement887,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 91005},
+																										pos:        position{line: 2877, col: 10, offset: 91032},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33498,28 +33716,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2898, col: 8, offset: 91403},
+																								pos: position{line: 2899, col: 8, offset: 91430},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2885, col: 12, offset: 91176},
+																										pos: position{line: 2886, col: 12, offset: 91203},
 																										run: (*parser).callonListContinuationElement890,
 																										expr: &choiceExpr{
-																											pos: position{line: 2885, col: 13, offset: 91177},
+																											pos: position{line: 2886, col: 13, offset: 91204},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 13, offset: 91177},
+																													pos:        position{line: 2886, col: 13, offset: 91204},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 20, offset: 91184},
+																													pos:        position{line: 2886, col: 20, offset: 91211},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 29, offset: 91193},
+																													pos:        position{line: 2886, col: 29, offset: 91220},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33528,9 +33746,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2895, col: 8, offset: 91353},
+																										pos: position{line: 2896, col: 8, offset: 91380},
 																										expr: &anyMatcher{
-																											line: 2895, col: 9, offset: 91354,
+																											line: 2896, col: 9, offset: 91381,
 																										},
 																									},
 																								},
@@ -33540,21 +33758,21 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 982, col: 5, offset: 30688},
+																				pos:        position{line: 983, col: 5, offset: 30715},
 																				val:        "> ",
 																				ignoreCase: false,
 																				want:       "\"> \"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 983, col: 5, offset: 30698},
+																				pos:   position{line: 984, col: 5, offset: 30725},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2826, col: 14, offset: 89598},
+																					pos: position{line: 2827, col: 14, offset: 89625},
 																					run: (*parser).callonListContinuationElement899,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2826, col: 14, offset: 89598},
+																						pos: position{line: 2827, col: 14, offset: 89625},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2826, col: 14, offset: 89598},
+																							pos:        position{line: 2827, col: 14, offset: 89625},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33564,28 +33782,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2898, col: 8, offset: 91403},
+																				pos: position{line: 2899, col: 8, offset: 91430},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2885, col: 12, offset: 91176},
+																						pos: position{line: 2886, col: 12, offset: 91203},
 																						run: (*parser).callonListContinuationElement903,
 																						expr: &choiceExpr{
-																							pos: position{line: 2885, col: 13, offset: 91177},
+																							pos: position{line: 2886, col: 13, offset: 91204},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 13, offset: 91177},
+																									pos:        position{line: 2886, col: 13, offset: 91204},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 20, offset: 91184},
+																									pos:        position{line: 2886, col: 20, offset: 91211},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 29, offset: 91193},
+																									pos:        position{line: 2886, col: 29, offset: 91220},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33594,9 +33812,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91353},
+																						pos: position{line: 2896, col: 8, offset: 91380},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91354,
+																							line: 2896, col: 9, offset: 91381,
 																						},
 																					},
 																				},
@@ -33605,21 +33823,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1795, col: 5, offset: 58079},
+																	pos: position{line: 1796, col: 5, offset: 58106},
 																	run: (*parser).callonListContinuationElement910,
 																	expr: &seqExpr{
-																		pos: position{line: 1795, col: 5, offset: 58079},
+																		pos: position{line: 1796, col: 5, offset: 58106},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1795, col: 5, offset: 58079},
+																				pos:   position{line: 1796, col: 5, offset: 58106},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2826, col: 14, offset: 89598},
+																					pos: position{line: 2827, col: 14, offset: 89625},
 																					run: (*parser).callonListContinuationElement913,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2826, col: 14, offset: 89598},
+																						pos: position{line: 2827, col: 14, offset: 89625},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2826, col: 14, offset: 89598},
+																							pos:        position{line: 2827, col: 14, offset: 89625},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33629,32 +33847,32 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1796, col: 5, offset: 58103},
+																				pos: position{line: 1797, col: 5, offset: 58130},
 																				run: (*parser).callonListContinuationElement916,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2898, col: 8, offset: 91403},
+																				pos: position{line: 2899, col: 8, offset: 91430},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2885, col: 12, offset: 91176},
+																						pos: position{line: 2886, col: 12, offset: 91203},
 																						run: (*parser).callonListContinuationElement918,
 																						expr: &choiceExpr{
-																							pos: position{line: 2885, col: 13, offset: 91177},
+																							pos: position{line: 2886, col: 13, offset: 91204},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 13, offset: 91177},
+																									pos:        position{line: 2886, col: 13, offset: 91204},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 20, offset: 91184},
+																									pos:        position{line: 2886, col: 20, offset: 91211},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 29, offset: 91193},
+																									pos:        position{line: 2886, col: 29, offset: 91220},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33663,9 +33881,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91353},
+																						pos: position{line: 2896, col: 8, offset: 91380},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91354,
+																							line: 2896, col: 9, offset: 91381,
 																						},
 																					},
 																				},
@@ -33681,28 +33899,28 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 996, col: 5, offset: 30963},
+										pos: position{line: 997, col: 5, offset: 30990},
 										run: (*parser).callonListContinuationElement925,
 										expr: &seqExpr{
-											pos: position{line: 996, col: 5, offset: 30963},
+											pos: position{line: 997, col: 5, offset: 30990},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 996, col: 5, offset: 30963},
+													pos:   position{line: 997, col: 5, offset: 30990},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 775, col: 5, offset: 24875},
+														pos: position{line: 776, col: 5, offset: 24902},
 														run: (*parser).callonListContinuationElement928,
 														expr: &seqExpr{
-															pos: position{line: 775, col: 5, offset: 24875},
+															pos: position{line: 776, col: 5, offset: 24902},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 775, col: 5, offset: 24875},
+																	pos:   position{line: 776, col: 5, offset: 24902},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 775, col: 16, offset: 24886},
+																		pos: position{line: 776, col: 16, offset: 24913},
 																		run: (*parser).callonListContinuationElement931,
 																		expr: &litMatcher{
-																			pos:        position{line: 775, col: 16, offset: 24886},
+																			pos:        position{line: 776, col: 16, offset: 24913},
 																			val:        "--",
 																			ignoreCase: false,
 																			want:       "\"--\"",
@@ -33710,12 +33928,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 777, col: 8, offset: 24963},
+																	pos: position{line: 778, col: 8, offset: 24990},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 91005},
+																		pos: position{line: 2877, col: 10, offset: 91032},
 																		run: (*parser).callonListContinuationElement934,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 91005},
+																			pos:        position{line: 2877, col: 10, offset: 91032},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33724,28 +33942,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91403},
+																	pos: position{line: 2899, col: 8, offset: 91430},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91176},
+																			pos: position{line: 2886, col: 12, offset: 91203},
 																			run: (*parser).callonListContinuationElement937,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91177},
+																				pos: position{line: 2886, col: 13, offset: 91204},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91177},
+																						pos:        position{line: 2886, col: 13, offset: 91204},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91184},
+																						pos:        position{line: 2886, col: 20, offset: 91211},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91193},
+																						pos:        position{line: 2886, col: 29, offset: 91220},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33754,9 +33972,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91353},
+																			pos: position{line: 2896, col: 8, offset: 91380},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91354,
+																				line: 2896, col: 9, offset: 91381,
 																			},
 																		},
 																	},
@@ -33766,35 +33984,35 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 997, col: 5, offset: 30999},
+													pos:   position{line: 998, col: 5, offset: 31026},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1007, col: 5, offset: 31267},
+														pos: position{line: 1008, col: 5, offset: 31294},
 														expr: &actionExpr{
-															pos: position{line: 1007, col: 6, offset: 31268},
+															pos: position{line: 1008, col: 6, offset: 31295},
 															run: (*parser).callonListContinuationElement946,
 															expr: &seqExpr{
-																pos: position{line: 1007, col: 6, offset: 31268},
+																pos: position{line: 1008, col: 6, offset: 31295},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1007, col: 6, offset: 31268},
+																		pos: position{line: 1008, col: 6, offset: 31295},
 																		expr: &choiceExpr{
-																			pos: position{line: 1004, col: 26, offset: 31216},
+																			pos: position{line: 1005, col: 26, offset: 31243},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 775, col: 5, offset: 24875},
+																					pos: position{line: 776, col: 5, offset: 24902},
 																					run: (*parser).callonListContinuationElement950,
 																					expr: &seqExpr{
-																						pos: position{line: 775, col: 5, offset: 24875},
+																						pos: position{line: 776, col: 5, offset: 24902},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 775, col: 5, offset: 24875},
+																								pos:   position{line: 776, col: 5, offset: 24902},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 775, col: 16, offset: 24886},
+																									pos: position{line: 776, col: 16, offset: 24913},
 																									run: (*parser).callonListContinuationElement953,
 																									expr: &litMatcher{
-																										pos:        position{line: 775, col: 16, offset: 24886},
+																										pos:        position{line: 776, col: 16, offset: 24913},
 																										val:        "--",
 																										ignoreCase: false,
 																										want:       "\"--\"",
@@ -33802,12 +34020,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 777, col: 8, offset: 24963},
+																								pos: position{line: 778, col: 8, offset: 24990},
 																								expr: &actionExpr{
-																									pos: position{line: 2876, col: 10, offset: 91005},
+																									pos: position{line: 2877, col: 10, offset: 91032},
 																									run: (*parser).callonListContinuationElement956,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2876, col: 10, offset: 91005},
+																										pos:        position{line: 2877, col: 10, offset: 91032},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33816,28 +34034,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2898, col: 8, offset: 91403},
+																								pos: position{line: 2899, col: 8, offset: 91430},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2885, col: 12, offset: 91176},
+																										pos: position{line: 2886, col: 12, offset: 91203},
 																										run: (*parser).callonListContinuationElement959,
 																										expr: &choiceExpr{
-																											pos: position{line: 2885, col: 13, offset: 91177},
+																											pos: position{line: 2886, col: 13, offset: 91204},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 13, offset: 91177},
+																													pos:        position{line: 2886, col: 13, offset: 91204},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 20, offset: 91184},
+																													pos:        position{line: 2886, col: 20, offset: 91211},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2885, col: 29, offset: 91193},
+																													pos:        position{line: 2886, col: 29, offset: 91220},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33846,9 +34064,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2895, col: 8, offset: 91353},
+																										pos: position{line: 2896, col: 8, offset: 91380},
 																										expr: &anyMatcher{
-																											line: 2895, col: 9, offset: 91354,
+																											line: 2896, col: 9, offset: 91381,
 																										},
 																									},
 																								},
@@ -33857,39 +34075,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91353},
+																					pos: position{line: 2896, col: 8, offset: 91380},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91354,
+																						line: 2896, col: 9, offset: 91381,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1008, col: 5, offset: 31295},
+																		pos:   position{line: 1009, col: 5, offset: 31322},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 810, col: 5, offset: 26102},
+																			pos: position{line: 811, col: 5, offset: 26129},
 																			run: (*parser).callonListContinuationElement969,
 																			expr: &seqExpr{
-																				pos: position{line: 810, col: 5, offset: 26102},
+																				pos: position{line: 811, col: 5, offset: 26129},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2893, col: 11, offset: 91339},
+																						pos: position{line: 2894, col: 11, offset: 91366},
 																						expr: &anyMatcher{
-																							line: 2893, col: 13, offset: 91341,
+																							line: 2894, col: 13, offset: 91368,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 811, col: 5, offset: 26177},
+																						pos:   position{line: 812, col: 5, offset: 26204},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2822, col: 13, offset: 89531},
+																							pos: position{line: 2823, col: 13, offset: 89558},
 																							run: (*parser).callonListContinuationElement974,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2822, col: 13, offset: 89531},
+																								pos: position{line: 2823, col: 13, offset: 89558},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2822, col: 13, offset: 89531},
+																									pos:        position{line: 2823, col: 13, offset: 89558},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33899,28 +34117,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91403},
+																						pos: position{line: 2899, col: 8, offset: 91430},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91176},
+																								pos: position{line: 2886, col: 12, offset: 91203},
 																								run: (*parser).callonListContinuationElement978,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91177},
+																									pos: position{line: 2886, col: 13, offset: 91204},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91177},
+																											pos:        position{line: 2886, col: 13, offset: 91204},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91184},
+																											pos:        position{line: 2886, col: 20, offset: 91211},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91193},
+																											pos:        position{line: 2886, col: 29, offset: 91220},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33929,9 +34147,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91353},
+																								pos: position{line: 2896, col: 8, offset: 91380},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91354,
+																									line: 2896, col: 9, offset: 91381,
 																								},
 																							},
 																						},
@@ -33946,27 +34164,27 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 998, col: 5, offset: 31030},
+													pos:   position{line: 999, col: 5, offset: 31057},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 998, col: 9, offset: 31034},
+														pos: position{line: 999, col: 9, offset: 31061},
 														expr: &choiceExpr{
-															pos: position{line: 1004, col: 26, offset: 31216},
+															pos: position{line: 1005, col: 26, offset: 31243},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 775, col: 5, offset: 24875},
+																	pos: position{line: 776, col: 5, offset: 24902},
 																	run: (*parser).callonListContinuationElement988,
 																	expr: &seqExpr{
-																		pos: position{line: 775, col: 5, offset: 24875},
+																		pos: position{line: 776, col: 5, offset: 24902},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 775, col: 5, offset: 24875},
+																				pos:   position{line: 776, col: 5, offset: 24902},
 																				label: "delimiter",
 																				expr: &actionExpr{
-																					pos: position{line: 775, col: 16, offset: 24886},
+																					pos: position{line: 776, col: 16, offset: 24913},
 																					run: (*parser).callonListContinuationElement991,
 																					expr: &litMatcher{
-																						pos:        position{line: 775, col: 16, offset: 24886},
+																						pos:        position{line: 776, col: 16, offset: 24913},
 																						val:        "--",
 																						ignoreCase: false,
 																						want:       "\"--\"",
@@ -33974,12 +34192,12 @@ var g = &grammar{
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 777, col: 8, offset: 24963},
+																				pos: position{line: 778, col: 8, offset: 24990},
 																				expr: &actionExpr{
-																					pos: position{line: 2876, col: 10, offset: 91005},
+																					pos: position{line: 2877, col: 10, offset: 91032},
 																					run: (*parser).callonListContinuationElement994,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2876, col: 10, offset: 91005},
+																						pos:        position{line: 2877, col: 10, offset: 91032},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -33988,28 +34206,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2898, col: 8, offset: 91403},
+																				pos: position{line: 2899, col: 8, offset: 91430},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2885, col: 12, offset: 91176},
+																						pos: position{line: 2886, col: 12, offset: 91203},
 																						run: (*parser).callonListContinuationElement997,
 																						expr: &choiceExpr{
-																							pos: position{line: 2885, col: 13, offset: 91177},
+																							pos: position{line: 2886, col: 13, offset: 91204},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 13, offset: 91177},
+																									pos:        position{line: 2886, col: 13, offset: 91204},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 20, offset: 91184},
+																									pos:        position{line: 2886, col: 20, offset: 91211},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 29, offset: 91193},
+																									pos:        position{line: 2886, col: 29, offset: 91220},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34018,9 +34236,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91353},
+																						pos: position{line: 2896, col: 8, offset: 91380},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91354,
+																							line: 2896, col: 9, offset: 91381,
 																						},
 																					},
 																				},
@@ -34029,9 +34247,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2895, col: 8, offset: 91353},
+																	pos: position{line: 2896, col: 8, offset: 91380},
 																	expr: &anyMatcher{
-																		line: 2895, col: 9, offset: 91354,
+																		line: 2896, col: 9, offset: 91381,
 																	},
 																},
 															},
@@ -34042,39 +34260,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1016, col: 5, offset: 31458},
+										pos: position{line: 1017, col: 5, offset: 31485},
 										run: (*parser).callonListContinuationElement1006,
 										expr: &seqExpr{
-											pos: position{line: 1016, col: 5, offset: 31458},
+											pos: position{line: 1017, col: 5, offset: 31485},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1016, col: 5, offset: 31458},
+													pos:   position{line: 1017, col: 5, offset: 31485},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 789, col: 5, offset: 25358},
+														pos: position{line: 790, col: 5, offset: 25385},
 														run: (*parser).callonListContinuationElement1009,
 														expr: &seqExpr{
-															pos: position{line: 789, col: 5, offset: 25358},
+															pos: position{line: 790, col: 5, offset: 25385},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 789, col: 5, offset: 25358},
+																	pos:   position{line: 790, col: 5, offset: 25385},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 789, col: 16, offset: 25369},
+																		pos: position{line: 790, col: 16, offset: 25396},
 																		run: (*parser).callonListContinuationElement1012,
 																		expr: &seqExpr{
-																			pos: position{line: 789, col: 16, offset: 25369},
+																			pos: position{line: 790, col: 16, offset: 25396},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 789, col: 16, offset: 25369},
+																					pos:        position{line: 790, col: 16, offset: 25396},
 																					val:        "++++",
 																					ignoreCase: false,
 																					want:       "\"++++\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 789, col: 23, offset: 25376},
+																					pos: position{line: 790, col: 23, offset: 25403},
 																					expr: &litMatcher{
-																						pos:        position{line: 789, col: 23, offset: 25376},
+																						pos:        position{line: 790, col: 23, offset: 25403},
 																						val:        "+",
 																						ignoreCase: false,
 																						want:       "\"+\"",
@@ -34085,12 +34303,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 791, col: 8, offset: 25460},
+																	pos: position{line: 792, col: 8, offset: 25487},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 91005},
+																		pos: position{line: 2877, col: 10, offset: 91032},
 																		run: (*parser).callonListContinuationElement1018,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 91005},
+																			pos:        position{line: 2877, col: 10, offset: 91032},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34099,28 +34317,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91403},
+																	pos: position{line: 2899, col: 8, offset: 91430},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91176},
+																			pos: position{line: 2886, col: 12, offset: 91203},
 																			run: (*parser).callonListContinuationElement1021,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91177},
+																				pos: position{line: 2886, col: 13, offset: 91204},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91177},
+																						pos:        position{line: 2886, col: 13, offset: 91204},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91184},
+																						pos:        position{line: 2886, col: 20, offset: 91211},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91193},
+																						pos:        position{line: 2886, col: 29, offset: 91220},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34129,9 +34347,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91353},
+																			pos: position{line: 2896, col: 8, offset: 91380},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91354,
+																				line: 2896, col: 9, offset: 91381,
 																			},
 																		},
 																	},
@@ -34141,56 +34359,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1017, col: 5, offset: 31501},
+													pos: position{line: 1018, col: 5, offset: 31528},
 													run: (*parser).callonListContinuationElement1028,
 												},
 												&labeledExpr{
-													pos:   position{line: 1020, col: 5, offset: 31593},
+													pos:   position{line: 1021, col: 5, offset: 31620},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1035, col: 5, offset: 32023},
+														pos: position{line: 1036, col: 5, offset: 32050},
 														expr: &actionExpr{
-															pos: position{line: 1035, col: 6, offset: 32024},
+															pos: position{line: 1036, col: 6, offset: 32051},
 															run: (*parser).callonListContinuationElement1031,
 															expr: &seqExpr{
-																pos: position{line: 1035, col: 6, offset: 32024},
+																pos: position{line: 1036, col: 6, offset: 32051},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1035, col: 6, offset: 32024},
+																		pos: position{line: 1036, col: 6, offset: 32051},
 																		expr: &choiceExpr{
-																			pos: position{line: 1028, col: 5, offset: 31857},
+																			pos: position{line: 1029, col: 5, offset: 31884},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1028, col: 5, offset: 31857},
+																					pos: position{line: 1029, col: 5, offset: 31884},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1028, col: 5, offset: 31857},
+																							pos:   position{line: 1029, col: 5, offset: 31884},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 789, col: 5, offset: 25358},
+																								pos: position{line: 790, col: 5, offset: 25385},
 																								run: (*parser).callonListContinuationElement1037,
 																								expr: &seqExpr{
-																									pos: position{line: 789, col: 5, offset: 25358},
+																									pos: position{line: 790, col: 5, offset: 25385},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 789, col: 5, offset: 25358},
+																											pos:   position{line: 790, col: 5, offset: 25385},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 789, col: 16, offset: 25369},
+																												pos: position{line: 790, col: 16, offset: 25396},
 																												run: (*parser).callonListContinuationElement1040,
 																												expr: &seqExpr{
-																													pos: position{line: 789, col: 16, offset: 25369},
+																													pos: position{line: 790, col: 16, offset: 25396},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 789, col: 16, offset: 25369},
+																															pos:        position{line: 790, col: 16, offset: 25396},
 																															val:        "++++",
 																															ignoreCase: false,
 																															want:       "\"++++\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 789, col: 23, offset: 25376},
+																															pos: position{line: 790, col: 23, offset: 25403},
 																															expr: &litMatcher{
-																																pos:        position{line: 789, col: 23, offset: 25376},
+																																pos:        position{line: 790, col: 23, offset: 25403},
 																																val:        "+",
 																																ignoreCase: false,
 																																want:       "\"+\"",
@@ -34201,12 +34419,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 791, col: 8, offset: 25460},
+																											pos: position{line: 792, col: 8, offset: 25487},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 91005},
+																												pos: position{line: 2877, col: 10, offset: 91032},
 																												run: (*parser).callonListContinuationElement1046,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 91005},
+																													pos:        position{line: 2877, col: 10, offset: 91032},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34215,28 +34433,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91403},
+																											pos: position{line: 2899, col: 8, offset: 91430},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91176},
+																													pos: position{line: 2886, col: 12, offset: 91203},
 																													run: (*parser).callonListContinuationElement1049,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91177},
+																														pos: position{line: 2886, col: 13, offset: 91204},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91177},
+																																pos:        position{line: 2886, col: 13, offset: 91204},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91184},
+																																pos:        position{line: 2886, col: 20, offset: 91211},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91193},
+																																pos:        position{line: 2886, col: 29, offset: 91220},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34245,9 +34463,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91353},
+																													pos: position{line: 2896, col: 8, offset: 91380},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91354,
+																														line: 2896, col: 9, offset: 91381,
 																													},
 																												},
 																											},
@@ -34257,45 +34475,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1029, col: 5, offset: 31892},
+																							pos: position{line: 1030, col: 5, offset: 31919},
 																							run: (*parser).callonListContinuationElement1056,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91353},
+																					pos: position{line: 2896, col: 8, offset: 91380},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91354,
+																						line: 2896, col: 9, offset: 91381,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1036, col: 5, offset: 32058},
+																		pos:   position{line: 1037, col: 5, offset: 32085},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 810, col: 5, offset: 26102},
+																			pos: position{line: 811, col: 5, offset: 26129},
 																			run: (*parser).callonListContinuationElement1060,
 																			expr: &seqExpr{
-																				pos: position{line: 810, col: 5, offset: 26102},
+																				pos: position{line: 811, col: 5, offset: 26129},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2893, col: 11, offset: 91339},
+																						pos: position{line: 2894, col: 11, offset: 91366},
 																						expr: &anyMatcher{
-																							line: 2893, col: 13, offset: 91341,
+																							line: 2894, col: 13, offset: 91368,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 811, col: 5, offset: 26177},
+																						pos:   position{line: 812, col: 5, offset: 26204},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2822, col: 13, offset: 89531},
+																							pos: position{line: 2823, col: 13, offset: 89558},
 																							run: (*parser).callonListContinuationElement1065,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2822, col: 13, offset: 89531},
+																								pos: position{line: 2823, col: 13, offset: 89558},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2822, col: 13, offset: 89531},
+																									pos:        position{line: 2823, col: 13, offset: 89558},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34305,28 +34523,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91403},
+																						pos: position{line: 2899, col: 8, offset: 91430},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91176},
+																								pos: position{line: 2886, col: 12, offset: 91203},
 																								run: (*parser).callonListContinuationElement1069,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91177},
+																									pos: position{line: 2886, col: 13, offset: 91204},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91177},
+																											pos:        position{line: 2886, col: 13, offset: 91204},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91184},
+																											pos:        position{line: 2886, col: 20, offset: 91211},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91193},
+																											pos:        position{line: 2886, col: 29, offset: 91220},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34335,9 +34553,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91353},
+																								pos: position{line: 2896, col: 8, offset: 91380},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91354,
+																									line: 2896, col: 9, offset: 91381,
 																								},
 																							},
 																						},
@@ -34352,44 +34570,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1021, col: 5, offset: 31631},
+													pos:   position{line: 1022, col: 5, offset: 31658},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1021, col: 9, offset: 31635},
+														pos: position{line: 1022, col: 9, offset: 31662},
 														expr: &choiceExpr{
-															pos: position{line: 1028, col: 5, offset: 31857},
+															pos: position{line: 1029, col: 5, offset: 31884},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1028, col: 5, offset: 31857},
+																	pos: position{line: 1029, col: 5, offset: 31884},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1028, col: 5, offset: 31857},
+																			pos:   position{line: 1029, col: 5, offset: 31884},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 789, col: 5, offset: 25358},
+																				pos: position{line: 790, col: 5, offset: 25385},
 																				run: (*parser).callonListContinuationElement1081,
 																				expr: &seqExpr{
-																					pos: position{line: 789, col: 5, offset: 25358},
+																					pos: position{line: 790, col: 5, offset: 25385},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 789, col: 5, offset: 25358},
+																							pos:   position{line: 790, col: 5, offset: 25385},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 789, col: 16, offset: 25369},
+																								pos: position{line: 790, col: 16, offset: 25396},
 																								run: (*parser).callonListContinuationElement1084,
 																								expr: &seqExpr{
-																									pos: position{line: 789, col: 16, offset: 25369},
+																									pos: position{line: 790, col: 16, offset: 25396},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 789, col: 16, offset: 25369},
+																											pos:        position{line: 790, col: 16, offset: 25396},
 																											val:        "++++",
 																											ignoreCase: false,
 																											want:       "\"++++\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 789, col: 23, offset: 25376},
+																											pos: position{line: 790, col: 23, offset: 25403},
 																											expr: &litMatcher{
-																												pos:        position{line: 789, col: 23, offset: 25376},
+																												pos:        position{line: 790, col: 23, offset: 25403},
 																												val:        "+",
 																												ignoreCase: false,
 																												want:       "\"+\"",
@@ -34400,12 +34618,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 791, col: 8, offset: 25460},
+																							pos: position{line: 792, col: 8, offset: 25487},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 91005},
+																								pos: position{line: 2877, col: 10, offset: 91032},
 																								run: (*parser).callonListContinuationElement1090,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 91005},
+																									pos:        position{line: 2877, col: 10, offset: 91032},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34414,28 +34632,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91403},
+																							pos: position{line: 2899, col: 8, offset: 91430},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91176},
+																									pos: position{line: 2886, col: 12, offset: 91203},
 																									run: (*parser).callonListContinuationElement1093,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91177},
+																										pos: position{line: 2886, col: 13, offset: 91204},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91177},
+																												pos:        position{line: 2886, col: 13, offset: 91204},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91184},
+																												pos:        position{line: 2886, col: 20, offset: 91211},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91193},
+																												pos:        position{line: 2886, col: 29, offset: 91220},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34444,9 +34662,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91353},
+																									pos: position{line: 2896, col: 8, offset: 91380},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91354,
+																										line: 2896, col: 9, offset: 91381,
 																									},
 																								},
 																							},
@@ -34456,15 +34674,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1029, col: 5, offset: 31892},
+																			pos: position{line: 1030, col: 5, offset: 31919},
 																			run: (*parser).callonListContinuationElement1100,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2895, col: 8, offset: 91353},
+																	pos: position{line: 2896, col: 8, offset: 91380},
 																	expr: &anyMatcher{
-																		line: 2895, col: 9, offset: 91354,
+																		line: 2896, col: 9, offset: 91381,
 																	},
 																},
 															},
@@ -34475,39 +34693,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1044, col: 5, offset: 32209},
+										pos: position{line: 1045, col: 5, offset: 32236},
 										run: (*parser).callonListContinuationElement1103,
 										expr: &seqExpr{
-											pos: position{line: 1044, col: 5, offset: 32209},
+											pos: position{line: 1045, col: 5, offset: 32236},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1044, col: 5, offset: 32209},
+													pos:   position{line: 1045, col: 5, offset: 32236},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 796, col: 5, offset: 25608},
+														pos: position{line: 797, col: 5, offset: 25635},
 														run: (*parser).callonListContinuationElement1106,
 														expr: &seqExpr{
-															pos: position{line: 796, col: 5, offset: 25608},
+															pos: position{line: 797, col: 5, offset: 25635},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 796, col: 5, offset: 25608},
+																	pos:   position{line: 797, col: 5, offset: 25635},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 796, col: 16, offset: 25619},
+																		pos: position{line: 797, col: 16, offset: 25646},
 																		run: (*parser).callonListContinuationElement1109,
 																		expr: &seqExpr{
-																			pos: position{line: 796, col: 16, offset: 25619},
+																			pos: position{line: 797, col: 16, offset: 25646},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 796, col: 16, offset: 25619},
+																					pos:        position{line: 797, col: 16, offset: 25646},
 																					val:        "____",
 																					ignoreCase: false,
 																					want:       "\"____\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 796, col: 23, offset: 25626},
+																					pos: position{line: 797, col: 23, offset: 25653},
 																					expr: &litMatcher{
-																						pos:        position{line: 796, col: 23, offset: 25626},
+																						pos:        position{line: 797, col: 23, offset: 25653},
 																						val:        "_",
 																						ignoreCase: false,
 																						want:       "\"_\"",
@@ -34518,12 +34736,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 798, col: 8, offset: 25710},
+																	pos: position{line: 799, col: 8, offset: 25737},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 91005},
+																		pos: position{line: 2877, col: 10, offset: 91032},
 																		run: (*parser).callonListContinuationElement1115,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 91005},
+																			pos:        position{line: 2877, col: 10, offset: 91032},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34532,28 +34750,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91403},
+																	pos: position{line: 2899, col: 8, offset: 91430},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91176},
+																			pos: position{line: 2886, col: 12, offset: 91203},
 																			run: (*parser).callonListContinuationElement1118,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91177},
+																				pos: position{line: 2886, col: 13, offset: 91204},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91177},
+																						pos:        position{line: 2886, col: 13, offset: 91204},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91184},
+																						pos:        position{line: 2886, col: 20, offset: 91211},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91193},
+																						pos:        position{line: 2886, col: 29, offset: 91220},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34562,9 +34780,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91353},
+																			pos: position{line: 2896, col: 8, offset: 91380},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91354,
+																				line: 2896, col: 9, offset: 91381,
 																			},
 																		},
 																	},
@@ -34574,56 +34792,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1045, col: 5, offset: 32246},
+													pos: position{line: 1046, col: 5, offset: 32273},
 													run: (*parser).callonListContinuationElement1125,
 												},
 												&labeledExpr{
-													pos:   position{line: 1048, col: 5, offset: 32338},
+													pos:   position{line: 1049, col: 5, offset: 32365},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1063, col: 4, offset: 32719},
+														pos: position{line: 1064, col: 4, offset: 32746},
 														expr: &actionExpr{
-															pos: position{line: 1063, col: 5, offset: 32720},
+															pos: position{line: 1064, col: 5, offset: 32747},
 															run: (*parser).callonListContinuationElement1128,
 															expr: &seqExpr{
-																pos: position{line: 1063, col: 5, offset: 32720},
+																pos: position{line: 1064, col: 5, offset: 32747},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1063, col: 5, offset: 32720},
+																		pos: position{line: 1064, col: 5, offset: 32747},
 																		expr: &choiceExpr{
-																			pos: position{line: 1056, col: 5, offset: 32566},
+																			pos: position{line: 1057, col: 5, offset: 32593},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1056, col: 5, offset: 32566},
+																					pos: position{line: 1057, col: 5, offset: 32593},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1056, col: 5, offset: 32566},
+																							pos:   position{line: 1057, col: 5, offset: 32593},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 796, col: 5, offset: 25608},
+																								pos: position{line: 797, col: 5, offset: 25635},
 																								run: (*parser).callonListContinuationElement1134,
 																								expr: &seqExpr{
-																									pos: position{line: 796, col: 5, offset: 25608},
+																									pos: position{line: 797, col: 5, offset: 25635},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 796, col: 5, offset: 25608},
+																											pos:   position{line: 797, col: 5, offset: 25635},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 796, col: 16, offset: 25619},
+																												pos: position{line: 797, col: 16, offset: 25646},
 																												run: (*parser).callonListContinuationElement1137,
 																												expr: &seqExpr{
-																													pos: position{line: 796, col: 16, offset: 25619},
+																													pos: position{line: 797, col: 16, offset: 25646},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 796, col: 16, offset: 25619},
+																															pos:        position{line: 797, col: 16, offset: 25646},
 																															val:        "____",
 																															ignoreCase: false,
 																															want:       "\"____\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 796, col: 23, offset: 25626},
+																															pos: position{line: 797, col: 23, offset: 25653},
 																															expr: &litMatcher{
-																																pos:        position{line: 796, col: 23, offset: 25626},
+																																pos:        position{line: 797, col: 23, offset: 25653},
 																																val:        "_",
 																																ignoreCase: false,
 																																want:       "\"_\"",
@@ -34634,12 +34852,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 798, col: 8, offset: 25710},
+																											pos: position{line: 799, col: 8, offset: 25737},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 91005},
+																												pos: position{line: 2877, col: 10, offset: 91032},
 																												run: (*parser).callonListContinuationElement1143,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 91005},
+																													pos:        position{line: 2877, col: 10, offset: 91032},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34648,28 +34866,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91403},
+																											pos: position{line: 2899, col: 8, offset: 91430},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91176},
+																													pos: position{line: 2886, col: 12, offset: 91203},
 																													run: (*parser).callonListContinuationElement1146,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91177},
+																														pos: position{line: 2886, col: 13, offset: 91204},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91177},
+																																pos:        position{line: 2886, col: 13, offset: 91204},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91184},
+																																pos:        position{line: 2886, col: 20, offset: 91211},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91193},
+																																pos:        position{line: 2886, col: 29, offset: 91220},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34678,9 +34896,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91353},
+																													pos: position{line: 2896, col: 8, offset: 91380},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91354,
+																														line: 2896, col: 9, offset: 91381,
 																													},
 																												},
 																											},
@@ -34690,45 +34908,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1057, col: 5, offset: 32595},
+																							pos: position{line: 1058, col: 5, offset: 32622},
 																							run: (*parser).callonListContinuationElement1153,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91353},
+																					pos: position{line: 2896, col: 8, offset: 91380},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91354,
+																						line: 2896, col: 9, offset: 91381,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1064, col: 5, offset: 32748},
+																		pos:   position{line: 1065, col: 5, offset: 32775},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 810, col: 5, offset: 26102},
+																			pos: position{line: 811, col: 5, offset: 26129},
 																			run: (*parser).callonListContinuationElement1157,
 																			expr: &seqExpr{
-																				pos: position{line: 810, col: 5, offset: 26102},
+																				pos: position{line: 811, col: 5, offset: 26129},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2893, col: 11, offset: 91339},
+																						pos: position{line: 2894, col: 11, offset: 91366},
 																						expr: &anyMatcher{
-																							line: 2893, col: 13, offset: 91341,
+																							line: 2894, col: 13, offset: 91368,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 811, col: 5, offset: 26177},
+																						pos:   position{line: 812, col: 5, offset: 26204},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2822, col: 13, offset: 89531},
+																							pos: position{line: 2823, col: 13, offset: 89558},
 																							run: (*parser).callonListContinuationElement1162,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2822, col: 13, offset: 89531},
+																								pos: position{line: 2823, col: 13, offset: 89558},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2822, col: 13, offset: 89531},
+																									pos:        position{line: 2823, col: 13, offset: 89558},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34738,28 +34956,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91403},
+																						pos: position{line: 2899, col: 8, offset: 91430},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91176},
+																								pos: position{line: 2886, col: 12, offset: 91203},
 																								run: (*parser).callonListContinuationElement1166,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91177},
+																									pos: position{line: 2886, col: 13, offset: 91204},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91177},
+																											pos:        position{line: 2886, col: 13, offset: 91204},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91184},
+																											pos:        position{line: 2886, col: 20, offset: 91211},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91193},
+																											pos:        position{line: 2886, col: 29, offset: 91220},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34768,9 +34986,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91353},
+																								pos: position{line: 2896, col: 8, offset: 91380},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91354,
+																									line: 2896, col: 9, offset: 91381,
 																								},
 																							},
 																						},
@@ -34785,44 +35003,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1049, col: 5, offset: 32370},
+													pos:   position{line: 1050, col: 5, offset: 32397},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1049, col: 9, offset: 32374},
+														pos: position{line: 1050, col: 9, offset: 32401},
 														expr: &choiceExpr{
-															pos: position{line: 1056, col: 5, offset: 32566},
+															pos: position{line: 1057, col: 5, offset: 32593},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1056, col: 5, offset: 32566},
+																	pos: position{line: 1057, col: 5, offset: 32593},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1056, col: 5, offset: 32566},
+																			pos:   position{line: 1057, col: 5, offset: 32593},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 796, col: 5, offset: 25608},
+																				pos: position{line: 797, col: 5, offset: 25635},
 																				run: (*parser).callonListContinuationElement1178,
 																				expr: &seqExpr{
-																					pos: position{line: 796, col: 5, offset: 25608},
+																					pos: position{line: 797, col: 5, offset: 25635},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 796, col: 5, offset: 25608},
+																							pos:   position{line: 797, col: 5, offset: 25635},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 796, col: 16, offset: 25619},
+																								pos: position{line: 797, col: 16, offset: 25646},
 																								run: (*parser).callonListContinuationElement1181,
 																								expr: &seqExpr{
-																									pos: position{line: 796, col: 16, offset: 25619},
+																									pos: position{line: 797, col: 16, offset: 25646},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 796, col: 16, offset: 25619},
+																											pos:        position{line: 797, col: 16, offset: 25646},
 																											val:        "____",
 																											ignoreCase: false,
 																											want:       "\"____\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 796, col: 23, offset: 25626},
+																											pos: position{line: 797, col: 23, offset: 25653},
 																											expr: &litMatcher{
-																												pos:        position{line: 796, col: 23, offset: 25626},
+																												pos:        position{line: 797, col: 23, offset: 25653},
 																												val:        "_",
 																												ignoreCase: false,
 																												want:       "\"_\"",
@@ -34833,12 +35051,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 798, col: 8, offset: 25710},
+																							pos: position{line: 799, col: 8, offset: 25737},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 91005},
+																								pos: position{line: 2877, col: 10, offset: 91032},
 																								run: (*parser).callonListContinuationElement1187,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 91005},
+																									pos:        position{line: 2877, col: 10, offset: 91032},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34847,28 +35065,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91403},
+																							pos: position{line: 2899, col: 8, offset: 91430},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91176},
+																									pos: position{line: 2886, col: 12, offset: 91203},
 																									run: (*parser).callonListContinuationElement1190,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91177},
+																										pos: position{line: 2886, col: 13, offset: 91204},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91177},
+																												pos:        position{line: 2886, col: 13, offset: 91204},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91184},
+																												pos:        position{line: 2886, col: 20, offset: 91211},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91193},
+																												pos:        position{line: 2886, col: 29, offset: 91220},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34877,9 +35095,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91353},
+																									pos: position{line: 2896, col: 8, offset: 91380},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91354,
+																										line: 2896, col: 9, offset: 91381,
 																									},
 																								},
 																							},
@@ -34889,15 +35107,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1057, col: 5, offset: 32595},
+																			pos: position{line: 1058, col: 5, offset: 32622},
 																			run: (*parser).callonListContinuationElement1197,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2895, col: 8, offset: 91353},
+																	pos: position{line: 2896, col: 8, offset: 91380},
 																	expr: &anyMatcher{
-																		line: 2895, col: 9, offset: 91354,
+																		line: 2896, col: 9, offset: 91381,
 																	},
 																},
 															},
@@ -34908,39 +35126,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1072, col: 5, offset: 32903},
+										pos: position{line: 1073, col: 5, offset: 32930},
 										run: (*parser).callonListContinuationElement1200,
 										expr: &seqExpr{
-											pos: position{line: 1072, col: 5, offset: 32903},
+											pos: position{line: 1073, col: 5, offset: 32930},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1072, col: 5, offset: 32903},
+													pos:   position{line: 1073, col: 5, offset: 32930},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 803, col: 5, offset: 25854},
+														pos: position{line: 804, col: 5, offset: 25881},
 														run: (*parser).callonListContinuationElement1203,
 														expr: &seqExpr{
-															pos: position{line: 803, col: 5, offset: 25854},
+															pos: position{line: 804, col: 5, offset: 25881},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 803, col: 5, offset: 25854},
+																	pos:   position{line: 804, col: 5, offset: 25881},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 803, col: 16, offset: 25865},
+																		pos: position{line: 804, col: 16, offset: 25892},
 																		run: (*parser).callonListContinuationElement1206,
 																		expr: &seqExpr{
-																			pos: position{line: 803, col: 16, offset: 25865},
+																			pos: position{line: 804, col: 16, offset: 25892},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 803, col: 16, offset: 25865},
+																					pos:        position{line: 804, col: 16, offset: 25892},
 																					val:        "****",
 																					ignoreCase: false,
 																					want:       "\"****\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 803, col: 23, offset: 25872},
+																					pos: position{line: 804, col: 23, offset: 25899},
 																					expr: &litMatcher{
-																						pos:        position{line: 803, col: 23, offset: 25872},
+																						pos:        position{line: 804, col: 23, offset: 25899},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -34951,12 +35169,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 805, col: 8, offset: 25956},
+																	pos: position{line: 806, col: 8, offset: 25983},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 91005},
+																		pos: position{line: 2877, col: 10, offset: 91032},
 																		run: (*parser).callonListContinuationElement1212,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 91005},
+																			pos:        position{line: 2877, col: 10, offset: 91032},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34965,28 +35183,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91403},
+																	pos: position{line: 2899, col: 8, offset: 91430},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91176},
+																			pos: position{line: 2886, col: 12, offset: 91203},
 																			run: (*parser).callonListContinuationElement1215,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91177},
+																				pos: position{line: 2886, col: 13, offset: 91204},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91177},
+																						pos:        position{line: 2886, col: 13, offset: 91204},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91184},
+																						pos:        position{line: 2886, col: 20, offset: 91211},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91193},
+																						pos:        position{line: 2886, col: 29, offset: 91220},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34995,9 +35213,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91353},
+																			pos: position{line: 2896, col: 8, offset: 91380},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91354,
+																				line: 2896, col: 9, offset: 91381,
 																			},
 																		},
 																	},
@@ -35007,56 +35225,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1073, col: 5, offset: 32942},
+													pos: position{line: 1074, col: 5, offset: 32969},
 													run: (*parser).callonListContinuationElement1222,
 												},
 												&labeledExpr{
-													pos:   position{line: 1076, col: 5, offset: 33034},
+													pos:   position{line: 1077, col: 5, offset: 33061},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1091, col: 4, offset: 33431},
+														pos: position{line: 1092, col: 4, offset: 33458},
 														expr: &actionExpr{
-															pos: position{line: 1091, col: 5, offset: 33432},
+															pos: position{line: 1092, col: 5, offset: 33459},
 															run: (*parser).callonListContinuationElement1225,
 															expr: &seqExpr{
-																pos: position{line: 1091, col: 5, offset: 33432},
+																pos: position{line: 1092, col: 5, offset: 33459},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1091, col: 5, offset: 33432},
+																		pos: position{line: 1092, col: 5, offset: 33459},
 																		expr: &choiceExpr{
-																			pos: position{line: 1084, col: 5, offset: 33274},
+																			pos: position{line: 1085, col: 5, offset: 33301},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1084, col: 5, offset: 33274},
+																					pos: position{line: 1085, col: 5, offset: 33301},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1084, col: 5, offset: 33274},
+																							pos:   position{line: 1085, col: 5, offset: 33301},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 803, col: 5, offset: 25854},
+																								pos: position{line: 804, col: 5, offset: 25881},
 																								run: (*parser).callonListContinuationElement1231,
 																								expr: &seqExpr{
-																									pos: position{line: 803, col: 5, offset: 25854},
+																									pos: position{line: 804, col: 5, offset: 25881},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 803, col: 5, offset: 25854},
+																											pos:   position{line: 804, col: 5, offset: 25881},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 803, col: 16, offset: 25865},
+																												pos: position{line: 804, col: 16, offset: 25892},
 																												run: (*parser).callonListContinuationElement1234,
 																												expr: &seqExpr{
-																													pos: position{line: 803, col: 16, offset: 25865},
+																													pos: position{line: 804, col: 16, offset: 25892},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 803, col: 16, offset: 25865},
+																															pos:        position{line: 804, col: 16, offset: 25892},
 																															val:        "****",
 																															ignoreCase: false,
 																															want:       "\"****\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 803, col: 23, offset: 25872},
+																															pos: position{line: 804, col: 23, offset: 25899},
 																															expr: &litMatcher{
-																																pos:        position{line: 803, col: 23, offset: 25872},
+																																pos:        position{line: 804, col: 23, offset: 25899},
 																																val:        "*",
 																																ignoreCase: false,
 																																want:       "\"*\"",
@@ -35067,12 +35285,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 805, col: 8, offset: 25956},
+																											pos: position{line: 806, col: 8, offset: 25983},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 91005},
+																												pos: position{line: 2877, col: 10, offset: 91032},
 																												run: (*parser).callonListContinuationElement1240,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 91005},
+																													pos:        position{line: 2877, col: 10, offset: 91032},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35081,28 +35299,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91403},
+																											pos: position{line: 2899, col: 8, offset: 91430},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91176},
+																													pos: position{line: 2886, col: 12, offset: 91203},
 																													run: (*parser).callonListContinuationElement1243,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91177},
+																														pos: position{line: 2886, col: 13, offset: 91204},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91177},
+																																pos:        position{line: 2886, col: 13, offset: 91204},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91184},
+																																pos:        position{line: 2886, col: 20, offset: 91211},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91193},
+																																pos:        position{line: 2886, col: 29, offset: 91220},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35111,9 +35329,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91353},
+																													pos: position{line: 2896, col: 8, offset: 91380},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91354,
+																														line: 2896, col: 9, offset: 91381,
 																													},
 																												},
 																											},
@@ -35123,45 +35341,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1085, col: 5, offset: 33305},
+																							pos: position{line: 1086, col: 5, offset: 33332},
 																							run: (*parser).callonListContinuationElement1250,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91353},
+																					pos: position{line: 2896, col: 8, offset: 91380},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91354,
+																						line: 2896, col: 9, offset: 91381,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1092, col: 5, offset: 33462},
+																		pos:   position{line: 1093, col: 5, offset: 33489},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 810, col: 5, offset: 26102},
+																			pos: position{line: 811, col: 5, offset: 26129},
 																			run: (*parser).callonListContinuationElement1254,
 																			expr: &seqExpr{
-																				pos: position{line: 810, col: 5, offset: 26102},
+																				pos: position{line: 811, col: 5, offset: 26129},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2893, col: 11, offset: 91339},
+																						pos: position{line: 2894, col: 11, offset: 91366},
 																						expr: &anyMatcher{
-																							line: 2893, col: 13, offset: 91341,
+																							line: 2894, col: 13, offset: 91368,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 811, col: 5, offset: 26177},
+																						pos:   position{line: 812, col: 5, offset: 26204},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2822, col: 13, offset: 89531},
+																							pos: position{line: 2823, col: 13, offset: 89558},
 																							run: (*parser).callonListContinuationElement1259,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2822, col: 13, offset: 89531},
+																								pos: position{line: 2823, col: 13, offset: 89558},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2822, col: 13, offset: 89531},
+																									pos:        position{line: 2823, col: 13, offset: 89558},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35171,28 +35389,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91403},
+																						pos: position{line: 2899, col: 8, offset: 91430},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91176},
+																								pos: position{line: 2886, col: 12, offset: 91203},
 																								run: (*parser).callonListContinuationElement1263,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91177},
+																									pos: position{line: 2886, col: 13, offset: 91204},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91177},
+																											pos:        position{line: 2886, col: 13, offset: 91204},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91184},
+																											pos:        position{line: 2886, col: 20, offset: 91211},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91193},
+																											pos:        position{line: 2886, col: 29, offset: 91220},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35201,9 +35419,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91353},
+																								pos: position{line: 2896, col: 8, offset: 91380},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91354,
+																									line: 2896, col: 9, offset: 91381,
 																								},
 																							},
 																						},
@@ -35218,44 +35436,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1077, col: 5, offset: 33068},
+													pos:   position{line: 1078, col: 5, offset: 33095},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1077, col: 9, offset: 33072},
+														pos: position{line: 1078, col: 9, offset: 33099},
 														expr: &choiceExpr{
-															pos: position{line: 1084, col: 5, offset: 33274},
+															pos: position{line: 1085, col: 5, offset: 33301},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1084, col: 5, offset: 33274},
+																	pos: position{line: 1085, col: 5, offset: 33301},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1084, col: 5, offset: 33274},
+																			pos:   position{line: 1085, col: 5, offset: 33301},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 803, col: 5, offset: 25854},
+																				pos: position{line: 804, col: 5, offset: 25881},
 																				run: (*parser).callonListContinuationElement1275,
 																				expr: &seqExpr{
-																					pos: position{line: 803, col: 5, offset: 25854},
+																					pos: position{line: 804, col: 5, offset: 25881},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 803, col: 5, offset: 25854},
+																							pos:   position{line: 804, col: 5, offset: 25881},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 803, col: 16, offset: 25865},
+																								pos: position{line: 804, col: 16, offset: 25892},
 																								run: (*parser).callonListContinuationElement1278,
 																								expr: &seqExpr{
-																									pos: position{line: 803, col: 16, offset: 25865},
+																									pos: position{line: 804, col: 16, offset: 25892},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 803, col: 16, offset: 25865},
+																											pos:        position{line: 804, col: 16, offset: 25892},
 																											val:        "****",
 																											ignoreCase: false,
 																											want:       "\"****\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 803, col: 23, offset: 25872},
+																											pos: position{line: 804, col: 23, offset: 25899},
 																											expr: &litMatcher{
-																												pos:        position{line: 803, col: 23, offset: 25872},
+																												pos:        position{line: 804, col: 23, offset: 25899},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -35266,12 +35484,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 805, col: 8, offset: 25956},
+																							pos: position{line: 806, col: 8, offset: 25983},
 																							expr: &actionExpr{
-																								pos: position{line: 2876, col: 10, offset: 91005},
+																								pos: position{line: 2877, col: 10, offset: 91032},
 																								run: (*parser).callonListContinuationElement1284,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2876, col: 10, offset: 91005},
+																									pos:        position{line: 2877, col: 10, offset: 91032},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35280,28 +35498,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2898, col: 8, offset: 91403},
+																							pos: position{line: 2899, col: 8, offset: 91430},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 12, offset: 91176},
+																									pos: position{line: 2886, col: 12, offset: 91203},
 																									run: (*parser).callonListContinuationElement1287,
 																									expr: &choiceExpr{
-																										pos: position{line: 2885, col: 13, offset: 91177},
+																										pos: position{line: 2886, col: 13, offset: 91204},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 13, offset: 91177},
+																												pos:        position{line: 2886, col: 13, offset: 91204},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 20, offset: 91184},
+																												pos:        position{line: 2886, col: 20, offset: 91211},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2885, col: 29, offset: 91193},
+																												pos:        position{line: 2886, col: 29, offset: 91220},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35310,9 +35528,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2895, col: 8, offset: 91353},
+																									pos: position{line: 2896, col: 8, offset: 91380},
 																									expr: &anyMatcher{
-																										line: 2895, col: 9, offset: 91354,
+																										line: 2896, col: 9, offset: 91381,
 																									},
 																								},
 																							},
@@ -35322,15 +35540,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1085, col: 5, offset: 33305},
+																			pos: position{line: 1086, col: 5, offset: 33332},
 																			run: (*parser).callonListContinuationElement1294,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2895, col: 8, offset: 91353},
+																	pos: position{line: 2896, col: 8, offset: 91380},
 																	expr: &anyMatcher{
-																		line: 2895, col: 9, offset: 91354,
+																		line: 2896, col: 9, offset: 91381,
 																	},
 																},
 															},
@@ -35341,52 +35559,52 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2721, col: 18, offset: 86579},
+										pos: position{line: 2722, col: 18, offset: 86606},
 										run: (*parser).callonListContinuationElement1297,
 										expr: &seqExpr{
-											pos: position{line: 2721, col: 18, offset: 86579},
+											pos: position{line: 2722, col: 18, offset: 86606},
 											exprs: []interface{}{
 												&choiceExpr{
-													pos: position{line: 2722, col: 9, offset: 86589},
+													pos: position{line: 2723, col: 9, offset: 86616},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2722, col: 9, offset: 86589},
+															pos:        position{line: 2723, col: 9, offset: 86616},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2723, col: 11, offset: 86625},
+															pos:        position{line: 2724, col: 11, offset: 86652},
 															val:        "***",
 															ignoreCase: false,
 															want:       "\"***\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2723, col: 19, offset: 86633},
+															pos:        position{line: 2724, col: 19, offset: 86660},
 															val:        "* * *",
 															ignoreCase: false,
 															want:       "\"* * *\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2723, col: 29, offset: 86643},
+															pos:        position{line: 2724, col: 29, offset: 86670},
 															val:        "---",
 															ignoreCase: false,
 															want:       "\"---\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2723, col: 37, offset: 86651},
+															pos:        position{line: 2724, col: 37, offset: 86678},
 															val:        "- - -",
 															ignoreCase: false,
 															want:       "\"- - -\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2723, col: 47, offset: 86661},
+															pos:        position{line: 2724, col: 47, offset: 86688},
 															val:        "___",
 															ignoreCase: false,
 															want:       "\"___\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2723, col: 55, offset: 86669},
+															pos:        position{line: 2724, col: 55, offset: 86696},
 															val:        "_ _ _",
 															ignoreCase: false,
 															want:       "\"_ _ _\"",
@@ -35394,12 +35612,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2724, col: 11, offset: 86715},
+													pos: position{line: 2725, col: 11, offset: 86742},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 91005},
+														pos: position{line: 2877, col: 10, offset: 91032},
 														run: (*parser).callonListContinuationElement1308,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 91005},
+															pos:        position{line: 2877, col: 10, offset: 91032},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35408,28 +35626,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2898, col: 8, offset: 91403},
+													pos: position{line: 2899, col: 8, offset: 91430},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91176},
+															pos: position{line: 2886, col: 12, offset: 91203},
 															run: (*parser).callonListContinuationElement1311,
 															expr: &choiceExpr{
-																pos: position{line: 2885, col: 13, offset: 91177},
+																pos: position{line: 2886, col: 13, offset: 91204},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 13, offset: 91177},
+																		pos:        position{line: 2886, col: 13, offset: 91204},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 20, offset: 91184},
+																		pos:        position{line: 2886, col: 20, offset: 91211},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 29, offset: 91193},
+																		pos:        position{line: 2886, col: 29, offset: 91220},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35438,20 +35656,20 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2895, col: 8, offset: 91353},
+															pos: position{line: 2896, col: 8, offset: 91380},
 															expr: &anyMatcher{
-																line: 2895, col: 9, offset: 91354,
+																line: 2896, col: 9, offset: 91381,
 															},
 														},
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2724, col: 22, offset: 86726},
+													pos: position{line: 2725, col: 22, offset: 86753},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 91005},
+														pos: position{line: 2877, col: 10, offset: 91032},
 														run: (*parser).callonListContinuationElement1319,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 91005},
+															pos:        position{line: 2877, col: 10, offset: 91032},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35460,28 +35678,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2898, col: 8, offset: 91403},
+													pos: position{line: 2899, col: 8, offset: 91430},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91176},
+															pos: position{line: 2886, col: 12, offset: 91203},
 															run: (*parser).callonListContinuationElement1322,
 															expr: &choiceExpr{
-																pos: position{line: 2885, col: 13, offset: 91177},
+																pos: position{line: 2886, col: 13, offset: 91204},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 13, offset: 91177},
+																		pos:        position{line: 2886, col: 13, offset: 91204},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 20, offset: 91184},
+																		pos:        position{line: 2886, col: 20, offset: 91211},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 29, offset: 91193},
+																		pos:        position{line: 2886, col: 29, offset: 91220},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35490,9 +35708,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2895, col: 8, offset: 91353},
+															pos: position{line: 2896, col: 8, offset: 91380},
 															expr: &anyMatcher{
-																line: 2895, col: 9, offset: 91354,
+																line: 2896, col: 9, offset: 91381,
 															},
 														},
 													},
@@ -35501,28 +35719,28 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1558, col: 11, offset: 50424},
+										pos:  position{line: 1559, col: 11, offset: 50451},
 										name: "ImageBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2612, col: 5, offset: 83515},
+										pos: position{line: 2613, col: 5, offset: 83542},
 										run: (*parser).callonListContinuationElement1330,
 										expr: &seqExpr{
-											pos: position{line: 2612, col: 5, offset: 83515},
+											pos: position{line: 2613, col: 5, offset: 83542},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2618, col: 19, offset: 83672},
+													pos:        position{line: 2619, col: 19, offset: 83699},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2618, col: 26, offset: 83679},
+													pos: position{line: 2619, col: 26, offset: 83706},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 91005},
+														pos: position{line: 2877, col: 10, offset: 91032},
 														run: (*parser).callonListContinuationElement1334,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 91005},
+															pos:        position{line: 2877, col: 10, offset: 91032},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35531,28 +35749,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2898, col: 8, offset: 91403},
+													pos: position{line: 2899, col: 8, offset: 91430},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91176},
+															pos: position{line: 2886, col: 12, offset: 91203},
 															run: (*parser).callonListContinuationElement1337,
 															expr: &choiceExpr{
-																pos: position{line: 2885, col: 13, offset: 91177},
+																pos: position{line: 2886, col: 13, offset: 91204},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 13, offset: 91177},
+																		pos:        position{line: 2886, col: 13, offset: 91204},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 20, offset: 91184},
+																		pos:        position{line: 2886, col: 20, offset: 91211},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 29, offset: 91193},
+																		pos:        position{line: 2886, col: 29, offset: 91220},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35561,40 +35779,40 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2895, col: 8, offset: 91353},
+															pos: position{line: 2896, col: 8, offset: 91380},
 															expr: &anyMatcher{
-																line: 2895, col: 9, offset: 91354,
+																line: 2896, col: 9, offset: 91381,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2613, col: 5, offset: 83539},
+													pos:   position{line: 2614, col: 5, offset: 83566},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2613, col: 11, offset: 83545},
+														pos: position{line: 2614, col: 11, offset: 83572},
 														expr: &choiceExpr{
-															pos: position{line: 2613, col: 12, offset: 83546},
+															pos: position{line: 2614, col: 12, offset: 83573},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 676, col: 14, offset: 21498},
+																	pos: position{line: 677, col: 14, offset: 21525},
 																	run: (*parser).callonListContinuationElement1347,
 																	expr: &seqExpr{
-																		pos: position{line: 676, col: 14, offset: 21498},
+																		pos: position{line: 677, col: 14, offset: 21525},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2893, col: 11, offset: 91339},
+																				pos: position{line: 2894, col: 11, offset: 91366},
 																				expr: &anyMatcher{
-																					line: 2893, col: 13, offset: 91341,
+																					line: 2894, col: 13, offset: 91368,
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 676, col: 21, offset: 21505},
+																				pos: position{line: 677, col: 21, offset: 21532},
 																				expr: &actionExpr{
-																					pos: position{line: 2876, col: 10, offset: 91005},
+																					pos: position{line: 2877, col: 10, offset: 91032},
 																					run: (*parser).callonListContinuationElement1352,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2876, col: 10, offset: 91005},
+																						pos:        position{line: 2877, col: 10, offset: 91032},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -35603,28 +35821,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2898, col: 8, offset: 91403},
+																				pos: position{line: 2899, col: 8, offset: 91430},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2885, col: 12, offset: 91176},
+																						pos: position{line: 2886, col: 12, offset: 91203},
 																						run: (*parser).callonListContinuationElement1355,
 																						expr: &choiceExpr{
-																							pos: position{line: 2885, col: 13, offset: 91177},
+																							pos: position{line: 2886, col: 13, offset: 91204},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 13, offset: 91177},
+																									pos:        position{line: 2886, col: 13, offset: 91204},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 20, offset: 91184},
+																									pos:        position{line: 2886, col: 20, offset: 91211},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2885, col: 29, offset: 91193},
+																									pos:        position{line: 2886, col: 29, offset: 91220},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35633,9 +35851,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2895, col: 8, offset: 91353},
+																						pos: position{line: 2896, col: 8, offset: 91380},
 																						expr: &anyMatcher{
-																							line: 2895, col: 9, offset: 91354,
+																							line: 2896, col: 9, offset: 91381,
 																						},
 																					},
 																				},
@@ -35644,32 +35862,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2625, col: 5, offset: 83791},
+																	pos: position{line: 2626, col: 5, offset: 83818},
 																	run: (*parser).callonListContinuationElement1362,
 																	expr: &seqExpr{
-																		pos: position{line: 2625, col: 5, offset: 83791},
+																		pos: position{line: 2626, col: 5, offset: 83818},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2625, col: 5, offset: 83791},
+																				pos: position{line: 2626, col: 5, offset: 83818},
 																				expr: &choiceExpr{
-																					pos: position{line: 2622, col: 22, offset: 83752},
+																					pos: position{line: 2623, col: 22, offset: 83779},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2618, col: 19, offset: 83672},
+																							pos: position{line: 2619, col: 19, offset: 83699},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2618, col: 19, offset: 83672},
+																									pos:        position{line: 2619, col: 19, offset: 83699},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2618, col: 26, offset: 83679},
+																									pos: position{line: 2619, col: 26, offset: 83706},
 																									expr: &actionExpr{
-																										pos: position{line: 2876, col: 10, offset: 91005},
+																										pos: position{line: 2877, col: 10, offset: 91032},
 																										run: (*parser).callonListContinuationElement1369,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2876, col: 10, offset: 91005},
+																											pos:        position{line: 2877, col: 10, offset: 91032},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -35678,28 +35896,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2898, col: 8, offset: 91403},
+																									pos: position{line: 2899, col: 8, offset: 91430},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2885, col: 12, offset: 91176},
+																											pos: position{line: 2886, col: 12, offset: 91203},
 																											run: (*parser).callonListContinuationElement1372,
 																											expr: &choiceExpr{
-																												pos: position{line: 2885, col: 13, offset: 91177},
+																												pos: position{line: 2886, col: 13, offset: 91204},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 13, offset: 91177},
+																														pos:        position{line: 2886, col: 13, offset: 91204},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 20, offset: 91184},
+																														pos:        position{line: 2886, col: 20, offset: 91211},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2885, col: 29, offset: 91193},
+																														pos:        position{line: 2886, col: 29, offset: 91220},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -35708,9 +35926,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2895, col: 8, offset: 91353},
+																											pos: position{line: 2896, col: 8, offset: 91380},
 																											expr: &anyMatcher{
-																												line: 2895, col: 9, offset: 91354,
+																												line: 2896, col: 9, offset: 91381,
 																											},
 																										},
 																									},
@@ -35718,59 +35936,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2895, col: 8, offset: 91353},
+																							pos: position{line: 2896, col: 8, offset: 91380},
 																							expr: &anyMatcher{
-																								line: 2895, col: 9, offset: 91354,
+																								line: 2896, col: 9, offset: 91381,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2626, col: 5, offset: 83814},
+																				pos:   position{line: 2627, col: 5, offset: 83841},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2627, col: 9, offset: 83832},
+																					pos: position{line: 2628, col: 9, offset: 83859},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2627, col: 10, offset: 83833},
+																							pos: position{line: 2628, col: 10, offset: 83860},
 																							run: (*parser).callonListContinuationElement1383,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2627, col: 10, offset: 83833},
+																								pos:   position{line: 2628, col: 10, offset: 83860},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2627, col: 17, offset: 83840},
+																									pos: position{line: 2628, col: 17, offset: 83867},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2635, col: 21, offset: 84036},
+																											pos: position{line: 2636, col: 21, offset: 84063},
 																											run: (*parser).callonListContinuationElement1386,
 																											expr: &seqExpr{
-																												pos: position{line: 2635, col: 21, offset: 84036},
+																												pos: position{line: 2636, col: 21, offset: 84063},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2635, col: 21, offset: 84036},
+																														pos:   position{line: 2636, col: 21, offset: 84063},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2635, col: 27, offset: 84042},
+																															pos: position{line: 2636, col: 27, offset: 84069},
 																															expr: &actionExpr{
-																																pos: position{line: 2640, col: 5, offset: 84117},
+																																pos: position{line: 2641, col: 5, offset: 84144},
 																																run: (*parser).callonListContinuationElement1390,
 																																expr: &seqExpr{
-																																	pos: position{line: 2640, col: 5, offset: 84117},
+																																	pos: position{line: 2641, col: 5, offset: 84144},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2640, col: 5, offset: 84117},
+																																			pos:        position{line: 2641, col: 5, offset: 84144},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2640, col: 9, offset: 84121},
+																																			pos: position{line: 2641, col: 9, offset: 84148},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2876, col: 10, offset: 91005},
+																																				pos: position{line: 2877, col: 10, offset: 91032},
 																																				run: (*parser).callonListContinuationElement1394,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2876, col: 10, offset: 91005},
+																																					pos:        position{line: 2877, col: 10, offset: 91032},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -35779,21 +35997,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2640, col: 16, offset: 84128},
+																																			pos:   position{line: 2641, col: 16, offset: 84155},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2646, col: 5, offset: 84328},
+																																				pos: position{line: 2647, col: 5, offset: 84355},
 																																				run: (*parser).callonListContinuationElement1397,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2646, col: 5, offset: 84328},
+																																					pos:   position{line: 2647, col: 5, offset: 84355},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2646, col: 14, offset: 84337},
+																																						pos: position{line: 2647, col: 14, offset: 84364},
 																																						run: (*parser).callonListContinuationElement1399,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2646, col: 14, offset: 84337},
+																																							pos: position{line: 2647, col: 14, offset: 84364},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2646, col: 14, offset: 84337},
+																																								pos:        position{line: 2647, col: 14, offset: 84364},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -35810,28 +36028,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2898, col: 8, offset: 91403},
+																														pos: position{line: 2899, col: 8, offset: 91430},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2885, col: 12, offset: 91176},
+																																pos: position{line: 2886, col: 12, offset: 91203},
 																																run: (*parser).callonListContinuationElement1403,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2885, col: 13, offset: 91177},
+																																	pos: position{line: 2886, col: 13, offset: 91204},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2885, col: 13, offset: 91177},
+																																			pos:        position{line: 2886, col: 13, offset: 91204},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2885, col: 20, offset: 91184},
+																																			pos:        position{line: 2886, col: 20, offset: 91211},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2885, col: 29, offset: 91193},
+																																			pos:        position{line: 2886, col: 29, offset: 91220},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -35840,9 +36058,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2895, col: 8, offset: 91353},
+																																pos: position{line: 2896, col: 8, offset: 91380},
 																																expr: &anyMatcher{
-																																	line: 2895, col: 9, offset: 91354,
+																																	line: 2896, col: 9, offset: 91381,
 																																},
 																															},
 																														},
@@ -35851,40 +36069,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2652, col: 24, offset: 84473},
+																											pos: position{line: 2653, col: 24, offset: 84500},
 																											run: (*parser).callonListContinuationElement1410,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2652, col: 24, offset: 84473},
+																												pos:   position{line: 2653, col: 24, offset: 84500},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2652, col: 30, offset: 84479},
+																													pos: position{line: 2653, col: 30, offset: 84506},
 																													expr: &actionExpr{
-																														pos: position{line: 2657, col: 5, offset: 84555},
+																														pos: position{line: 2658, col: 5, offset: 84582},
 																														run: (*parser).callonListContinuationElement1413,
 																														expr: &seqExpr{
-																															pos: position{line: 2657, col: 5, offset: 84555},
+																															pos: position{line: 2658, col: 5, offset: 84582},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2657, col: 5, offset: 84555},
+																																	pos: position{line: 2658, col: 5, offset: 84582},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2622, col: 22, offset: 83752},
+																																		pos: position{line: 2623, col: 22, offset: 83779},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2618, col: 19, offset: 83672},
+																																				pos: position{line: 2619, col: 19, offset: 83699},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2618, col: 19, offset: 83672},
+																																						pos:        position{line: 2619, col: 19, offset: 83699},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2618, col: 26, offset: 83679},
+																																						pos: position{line: 2619, col: 26, offset: 83706},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2876, col: 10, offset: 91005},
+																																							pos: position{line: 2877, col: 10, offset: 91032},
 																																							run: (*parser).callonListContinuationElement1420,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2876, col: 10, offset: 91005},
+																																								pos:        position{line: 2877, col: 10, offset: 91032},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -35893,28 +36111,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2898, col: 8, offset: 91403},
+																																						pos: position{line: 2899, col: 8, offset: 91430},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2885, col: 12, offset: 91176},
+																																								pos: position{line: 2886, col: 12, offset: 91203},
 																																								run: (*parser).callonListContinuationElement1423,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2885, col: 13, offset: 91177},
+																																									pos: position{line: 2886, col: 13, offset: 91204},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2885, col: 13, offset: 91177},
+																																											pos:        position{line: 2886, col: 13, offset: 91204},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2885, col: 20, offset: 91184},
+																																											pos:        position{line: 2886, col: 20, offset: 91211},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2885, col: 29, offset: 91193},
+																																											pos:        position{line: 2886, col: 29, offset: 91220},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -35923,9 +36141,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2895, col: 8, offset: 91353},
+																																								pos: position{line: 2896, col: 8, offset: 91380},
 																																								expr: &anyMatcher{
-																																									line: 2895, col: 9, offset: 91354,
+																																									line: 2896, col: 9, offset: 91381,
 																																								},
 																																							},
 																																						},
@@ -35933,35 +36151,35 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2895, col: 8, offset: 91353},
+																																				pos: position{line: 2896, col: 8, offset: 91380},
 																																				expr: &anyMatcher{
-																																					line: 2895, col: 9, offset: 91354,
+																																					line: 2896, col: 9, offset: 91381,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2658, col: 5, offset: 84578},
+																																	pos: position{line: 2659, col: 5, offset: 84605},
 																																	expr: &actionExpr{
-																																		pos: position{line: 676, col: 14, offset: 21498},
+																																		pos: position{line: 677, col: 14, offset: 21525},
 																																		run: (*parser).callonListContinuationElement1433,
 																																		expr: &seqExpr{
-																																			pos: position{line: 676, col: 14, offset: 21498},
+																																			pos: position{line: 677, col: 14, offset: 21525},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2893, col: 11, offset: 91339},
+																																					pos: position{line: 2894, col: 11, offset: 91366},
 																																					expr: &anyMatcher{
-																																						line: 2893, col: 13, offset: 91341,
+																																						line: 2894, col: 13, offset: 91368,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
-																																					pos: position{line: 676, col: 21, offset: 21505},
+																																					pos: position{line: 677, col: 21, offset: 21532},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2876, col: 10, offset: 91005},
+																																						pos: position{line: 2877, col: 10, offset: 91032},
 																																						run: (*parser).callonListContinuationElement1438,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2876, col: 10, offset: 91005},
+																																							pos:        position{line: 2877, col: 10, offset: 91032},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -35970,28 +36188,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2898, col: 8, offset: 91403},
+																																					pos: position{line: 2899, col: 8, offset: 91430},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2885, col: 12, offset: 91176},
+																																							pos: position{line: 2886, col: 12, offset: 91203},
 																																							run: (*parser).callonListContinuationElement1441,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2885, col: 13, offset: 91177},
+																																								pos: position{line: 2886, col: 13, offset: 91204},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2885, col: 13, offset: 91177},
+																																										pos:        position{line: 2886, col: 13, offset: 91204},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2885, col: 20, offset: 91184},
+																																										pos:        position{line: 2886, col: 20, offset: 91211},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2885, col: 29, offset: 91193},
+																																										pos:        position{line: 2886, col: 29, offset: 91220},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -36000,9 +36218,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2895, col: 8, offset: 91353},
+																																							pos: position{line: 2896, col: 8, offset: 91380},
 																																							expr: &anyMatcher{
-																																								line: 2895, col: 9, offset: 91354,
+																																								line: 2896, col: 9, offset: 91381,
 																																							},
 																																						},
 																																					},
@@ -36012,17 +36230,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2659, col: 5, offset: 84593},
+																																	pos:   position{line: 2660, col: 5, offset: 84620},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2659, col: 12, offset: 84600},
+																																		pos: position{line: 2660, col: 12, offset: 84627},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2676, col: 20, offset: 85064},
+																																			pos: position{line: 2677, col: 20, offset: 85091},
 																																			run: (*parser).callonListContinuationElement1450,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2676, col: 20, offset: 85064},
+																																				pos: position{line: 2677, col: 20, offset: 85091},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2676, col: 20, offset: 85064},
+																																					pos:        position{line: 2677, col: 20, offset: 85091},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -36033,18 +36251,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2659, col: 31, offset: 84619},
+																																	pos:        position{line: 2660, col: 31, offset: 84646},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2659, col: 35, offset: 84623},
+																																	pos: position{line: 2660, col: 35, offset: 84650},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2876, col: 10, offset: 91005},
+																																		pos: position{line: 2877, col: 10, offset: 91032},
 																																		run: (*parser).callonListContinuationElement1455,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2876, col: 10, offset: 91005},
+																																			pos:        position{line: 2877, col: 10, offset: 91032},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -36053,27 +36271,27 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2659, col: 42, offset: 84630},
+																																	pos: position{line: 2660, col: 42, offset: 84657},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2885, col: 12, offset: 91176},
+																																		pos: position{line: 2886, col: 12, offset: 91203},
 																																		run: (*parser).callonListContinuationElement1458,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2885, col: 13, offset: 91177},
+																																			pos: position{line: 2886, col: 13, offset: 91204},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2885, col: 13, offset: 91177},
+																																					pos:        position{line: 2886, col: 13, offset: 91204},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2885, col: 20, offset: 91184},
+																																					pos:        position{line: 2886, col: 20, offset: 91211},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2885, col: 29, offset: 91193},
+																																					pos:        position{line: 2886, col: 29, offset: 91220},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -36083,37 +36301,37 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2659, col: 51, offset: 84639},
+																																	pos:   position{line: 2660, col: 51, offset: 84666},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2665, col: 5, offset: 84798},
+																																		pos: position{line: 2666, col: 5, offset: 84825},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2666, col: 9, offset: 84808},
+																																			pos: position{line: 2667, col: 9, offset: 84835},
 																																			run: (*parser).callonListContinuationElement1465,
 																																			expr: &seqExpr{
-																																				pos: position{line: 2666, col: 9, offset: 84808},
+																																				pos: position{line: 2667, col: 9, offset: 84835},
 																																				exprs: []interface{}{
 																																					&notExpr{
-																																						pos: position{line: 2666, col: 9, offset: 84808},
+																																						pos: position{line: 2667, col: 9, offset: 84835},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2622, col: 22, offset: 83752},
+																																							pos: position{line: 2623, col: 22, offset: 83779},
 																																							alternatives: []interface{}{
 																																								&seqExpr{
-																																									pos: position{line: 2618, col: 19, offset: 83672},
+																																									pos: position{line: 2619, col: 19, offset: 83699},
 																																									exprs: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2618, col: 19, offset: 83672},
+																																											pos:        position{line: 2619, col: 19, offset: 83699},
 																																											val:        "|===",
 																																											ignoreCase: false,
 																																											want:       "\"|===\"",
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 2618, col: 26, offset: 83679},
+																																											pos: position{line: 2619, col: 26, offset: 83706},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2876, col: 10, offset: 91005},
+																																												pos: position{line: 2877, col: 10, offset: 91032},
 																																												run: (*parser).callonListContinuationElement1472,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2876, col: 10, offset: 91005},
+																																													pos:        position{line: 2877, col: 10, offset: 91032},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -36122,28 +36340,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2898, col: 8, offset: 91403},
+																																											pos: position{line: 2899, col: 8, offset: 91430},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2885, col: 12, offset: 91176},
+																																													pos: position{line: 2886, col: 12, offset: 91203},
 																																													run: (*parser).callonListContinuationElement1475,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2885, col: 13, offset: 91177},
+																																														pos: position{line: 2886, col: 13, offset: 91204},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2885, col: 13, offset: 91177},
+																																																pos:        position{line: 2886, col: 13, offset: 91204},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2885, col: 20, offset: 91184},
+																																																pos:        position{line: 2886, col: 20, offset: 91211},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2885, col: 29, offset: 91193},
+																																																pos:        position{line: 2886, col: 29, offset: 91220},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -36152,9 +36370,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2895, col: 8, offset: 91353},
+																																													pos: position{line: 2896, col: 8, offset: 91380},
 																																													expr: &anyMatcher{
-																																														line: 2895, col: 9, offset: 91354,
+																																														line: 2896, col: 9, offset: 91381,
 																																													},
 																																												},
 																																											},
@@ -36162,35 +36380,35 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2895, col: 8, offset: 91353},
+																																									pos: position{line: 2896, col: 8, offset: 91380},
 																																									expr: &anyMatcher{
-																																										line: 2895, col: 9, offset: 91354,
+																																										line: 2896, col: 9, offset: 91381,
 																																									},
 																																								},
 																																							},
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2667, col: 9, offset: 84835},
+																																						pos: position{line: 2668, col: 9, offset: 84862},
 																																						expr: &actionExpr{
-																																							pos: position{line: 676, col: 14, offset: 21498},
+																																							pos: position{line: 677, col: 14, offset: 21525},
 																																							run: (*parser).callonListContinuationElement1485,
 																																							expr: &seqExpr{
-																																								pos: position{line: 676, col: 14, offset: 21498},
+																																								pos: position{line: 677, col: 14, offset: 21525},
 																																								exprs: []interface{}{
 																																									&andExpr{
-																																										pos: position{line: 2893, col: 11, offset: 91339},
+																																										pos: position{line: 2894, col: 11, offset: 91366},
 																																										expr: &anyMatcher{
-																																											line: 2893, col: 13, offset: 91341,
+																																											line: 2894, col: 13, offset: 91368,
 																																										},
 																																									},
 																																									&zeroOrMoreExpr{
-																																										pos: position{line: 676, col: 21, offset: 21505},
+																																										pos: position{line: 677, col: 21, offset: 21532},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2876, col: 10, offset: 91005},
+																																											pos: position{line: 2877, col: 10, offset: 91032},
 																																											run: (*parser).callonListContinuationElement1490,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2876, col: 10, offset: 91005},
+																																												pos:        position{line: 2877, col: 10, offset: 91032},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -36199,28 +36417,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2898, col: 8, offset: 91403},
+																																										pos: position{line: 2899, col: 8, offset: 91430},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2885, col: 12, offset: 91176},
+																																												pos: position{line: 2886, col: 12, offset: 91203},
 																																												run: (*parser).callonListContinuationElement1493,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2885, col: 13, offset: 91177},
+																																													pos: position{line: 2886, col: 13, offset: 91204},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2885, col: 13, offset: 91177},
+																																															pos:        position{line: 2886, col: 13, offset: 91204},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2885, col: 20, offset: 91184},
+																																															pos:        position{line: 2886, col: 20, offset: 91211},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2885, col: 29, offset: 91193},
+																																															pos:        position{line: 2886, col: 29, offset: 91220},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -36229,9 +36447,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2895, col: 8, offset: 91353},
+																																												pos: position{line: 2896, col: 8, offset: 91380},
 																																												expr: &anyMatcher{
-																																													line: 2895, col: 9, offset: 91354,
+																																													line: 2896, col: 9, offset: 91381,
 																																												},
 																																											},
 																																										},
@@ -36241,22 +36459,22 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2668, col: 9, offset: 84854},
+																																						pos: position{line: 2669, col: 9, offset: 84881},
 																																						expr: &seqExpr{
-																																							pos: position{line: 2668, col: 11, offset: 84856},
+																																							pos: position{line: 2669, col: 11, offset: 84883},
 																																							exprs: []interface{}{
 																																								&labeledExpr{
-																																									pos:   position{line: 2668, col: 11, offset: 84856},
+																																									pos:   position{line: 2669, col: 11, offset: 84883},
 																																									label: "format",
 																																									expr: &zeroOrOneExpr{
-																																										pos: position{line: 2668, col: 18, offset: 84863},
+																																										pos: position{line: 2669, col: 18, offset: 84890},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2676, col: 20, offset: 85064},
+																																											pos: position{line: 2677, col: 20, offset: 85091},
 																																											run: (*parser).callonListContinuationElement1504,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2676, col: 20, offset: 85064},
+																																												pos: position{line: 2677, col: 20, offset: 85091},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2676, col: 20, offset: 85064},
+																																													pos:        position{line: 2677, col: 20, offset: 85091},
 																																													val:        "[^ |\\r\\n]",
 																																													chars:      []rune{' ', '|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -36267,7 +36485,7 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&litMatcher{
-																																									pos:        position{line: 2668, col: 37, offset: 84882},
+																																									pos:        position{line: 2669, col: 37, offset: 84909},
 																																									val:        "|",
 																																									ignoreCase: false,
 																																									want:       "\"|\"",
@@ -36276,15 +36494,15 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2669, col: 9, offset: 84895},
+																																						pos:   position{line: 2670, col: 9, offset: 84922},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2669, col: 18, offset: 84904},
+																																							pos: position{line: 2670, col: 18, offset: 84931},
 																																							run: (*parser).callonListContinuationElement1509,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2669, col: 18, offset: 84904},
+																																								pos: position{line: 2670, col: 18, offset: 84931},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2669, col: 18, offset: 84904},
+																																									pos:        position{line: 2670, col: 18, offset: 84931},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -36294,30 +36512,30 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&zeroOrOneExpr{
-																																						pos: position{line: 2671, col: 12, offset: 84966},
+																																						pos: position{line: 2672, col: 12, offset: 84993},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2898, col: 8, offset: 91403},
+																																							pos: position{line: 2899, col: 8, offset: 91430},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2885, col: 12, offset: 91176},
+																																									pos: position{line: 2886, col: 12, offset: 91203},
 																																									run: (*parser).callonListContinuationElement1514,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2885, col: 13, offset: 91177},
+																																										pos: position{line: 2886, col: 13, offset: 91204},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2885, col: 13, offset: 91177},
+																																												pos:        position{line: 2886, col: 13, offset: 91204},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2885, col: 20, offset: 91184},
+																																												pos:        position{line: 2886, col: 20, offset: 91211},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2885, col: 29, offset: 91193},
+																																												pos:        position{line: 2886, col: 29, offset: 91220},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -36326,9 +36544,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2895, col: 8, offset: 91353},
+																																									pos: position{line: 2896, col: 8, offset: 91380},
 																																									expr: &anyMatcher{
-																																										line: 2895, col: 9, offset: 91354,
+																																										line: 2896, col: 9, offset: 91381,
 																																									},
 																																								},
 																																							},
@@ -36350,24 +36568,24 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 676, col: 14, offset: 21498},
+																							pos: position{line: 677, col: 14, offset: 21525},
 																							run: (*parser).callonListContinuationElement1521,
 																							expr: &seqExpr{
-																								pos: position{line: 676, col: 14, offset: 21498},
+																								pos: position{line: 677, col: 14, offset: 21525},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2893, col: 11, offset: 91339},
+																										pos: position{line: 2894, col: 11, offset: 91366},
 																										expr: &anyMatcher{
-																											line: 2893, col: 13, offset: 91341,
+																											line: 2894, col: 13, offset: 91368,
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 676, col: 21, offset: 21505},
+																										pos: position{line: 677, col: 21, offset: 21532},
 																										expr: &actionExpr{
-																											pos: position{line: 2876, col: 10, offset: 91005},
+																											pos: position{line: 2877, col: 10, offset: 91032},
 																											run: (*parser).callonListContinuationElement1526,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2876, col: 10, offset: 91005},
+																												pos:        position{line: 2877, col: 10, offset: 91032},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -36376,28 +36594,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2898, col: 8, offset: 91403},
+																										pos: position{line: 2899, col: 8, offset: 91430},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2885, col: 12, offset: 91176},
+																												pos: position{line: 2886, col: 12, offset: 91203},
 																												run: (*parser).callonListContinuationElement1529,
 																												expr: &choiceExpr{
-																													pos: position{line: 2885, col: 13, offset: 91177},
+																													pos: position{line: 2886, col: 13, offset: 91204},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2885, col: 13, offset: 91177},
+																															pos:        position{line: 2886, col: 13, offset: 91204},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2885, col: 20, offset: 91184},
+																															pos:        position{line: 2886, col: 20, offset: 91211},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2885, col: 29, offset: 91193},
+																															pos:        position{line: 2886, col: 29, offset: 91220},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -36406,9 +36624,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2895, col: 8, offset: 91353},
+																												pos: position{line: 2896, col: 8, offset: 91380},
 																												expr: &anyMatcher{
-																													line: 2895, col: 9, offset: 91354,
+																													line: 2896, col: 9, offset: 91381,
 																												},
 																											},
 																										},
@@ -36427,24 +36645,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2622, col: 22, offset: 83752},
+													pos: position{line: 2623, col: 22, offset: 83779},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2618, col: 19, offset: 83672},
+															pos: position{line: 2619, col: 19, offset: 83699},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2618, col: 19, offset: 83672},
+																	pos:        position{line: 2619, col: 19, offset: 83699},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2618, col: 26, offset: 83679},
+																	pos: position{line: 2619, col: 26, offset: 83706},
 																	expr: &actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 91005},
+																		pos: position{line: 2877, col: 10, offset: 91032},
 																		run: (*parser).callonListContinuationElement1540,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 91005},
+																			pos:        position{line: 2877, col: 10, offset: 91032},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -36453,28 +36671,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91403},
+																	pos: position{line: 2899, col: 8, offset: 91430},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91176},
+																			pos: position{line: 2886, col: 12, offset: 91203},
 																			run: (*parser).callonListContinuationElement1543,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91177},
+																				pos: position{line: 2886, col: 13, offset: 91204},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91177},
+																						pos:        position{line: 2886, col: 13, offset: 91204},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91184},
+																						pos:        position{line: 2886, col: 20, offset: 91211},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91193},
+																						pos:        position{line: 2886, col: 29, offset: 91220},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36483,9 +36701,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91353},
+																			pos: position{line: 2896, col: 8, offset: 91380},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91354,
+																				line: 2896, col: 9, offset: 91381,
 																			},
 																		},
 																	},
@@ -36493,9 +36711,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2895, col: 8, offset: 91353},
+															pos: position{line: 2896, col: 8, offset: 91380},
 															expr: &anyMatcher{
-																line: 2895, col: 9, offset: 91354,
+																line: 2896, col: 9, offset: 91381,
 															},
 														},
 													},
@@ -36504,36 +36722,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2483, col: 22, offset: 79891},
+										pos: position{line: 2484, col: 22, offset: 79918},
 										run: (*parser).callonListContinuationElement1552,
 										expr: &seqExpr{
-											pos: position{line: 2483, col: 22, offset: 79891},
+											pos: position{line: 2484, col: 22, offset: 79918},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2488, col: 31, offset: 80112},
+													pos:        position{line: 2489, col: 31, offset: 80139},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2488, col: 36, offset: 80117},
+													pos: position{line: 2489, col: 36, offset: 80144},
 													expr: &litMatcher{
-														pos:        position{line: 2488, col: 37, offset: 80118},
+														pos:        position{line: 2489, col: 37, offset: 80145},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2483, col: 49, offset: 79918},
+													pos:   position{line: 2484, col: 49, offset: 79945},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2822, col: 13, offset: 89531},
+														pos: position{line: 2823, col: 13, offset: 89558},
 														run: (*parser).callonListContinuationElement1558,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2822, col: 13, offset: 89531},
+															pos: position{line: 2823, col: 13, offset: 89558},
 															expr: &charClassMatcher{
-																pos:        position{line: 2822, col: 13, offset: 89531},
+																pos:        position{line: 2823, col: 13, offset: 89558},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -36543,28 +36761,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2898, col: 8, offset: 91403},
+													pos: position{line: 2899, col: 8, offset: 91430},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91176},
+															pos: position{line: 2886, col: 12, offset: 91203},
 															run: (*parser).callonListContinuationElement1562,
 															expr: &choiceExpr{
-																pos: position{line: 2885, col: 13, offset: 91177},
+																pos: position{line: 2886, col: 13, offset: 91204},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 13, offset: 91177},
+																		pos:        position{line: 2886, col: 13, offset: 91204},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 20, offset: 91184},
+																		pos:        position{line: 2886, col: 20, offset: 91211},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 29, offset: 91193},
+																		pos:        position{line: 2886, col: 29, offset: 91220},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36573,9 +36791,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2895, col: 8, offset: 91353},
+															pos: position{line: 2896, col: 8, offset: 91380},
 															expr: &anyMatcher{
-																line: 2895, col: 9, offset: 91354,
+																line: 2896, col: 9, offset: 91381,
 															},
 														},
 													},
@@ -36584,94 +36802,94 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1571, col: 5, offset: 50854},
+										pos: position{line: 1572, col: 5, offset: 50881},
 										run: (*parser).callonListContinuationElement1569,
 										expr: &seqExpr{
-											pos: position{line: 1571, col: 5, offset: 50854},
+											pos: position{line: 1572, col: 5, offset: 50881},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1571, col: 5, offset: 50854},
+													pos:   position{line: 1572, col: 5, offset: 50881},
 													label: "style",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1571, col: 11, offset: 50860},
+														pos: position{line: 1572, col: 11, offset: 50887},
 														expr: &actionExpr{
-															pos: position{line: 1736, col: 5, offset: 56209},
+															pos: position{line: 1737, col: 5, offset: 56236},
 															run: (*parser).callonListContinuationElement1573,
 															expr: &seqExpr{
-																pos: position{line: 1736, col: 5, offset: 56209},
+																pos: position{line: 1737, col: 5, offset: 56236},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1736, col: 5, offset: 56209},
+																		pos: position{line: 1737, col: 5, offset: 56236},
 																		run: (*parser).callonListContinuationElement1575,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1739, col: 5, offset: 56272},
+																		pos:   position{line: 1740, col: 5, offset: 56299},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1739, col: 12, offset: 56279},
+																			pos: position{line: 1740, col: 12, offset: 56306},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1739, col: 12, offset: 56279},
+																					pos: position{line: 1740, col: 12, offset: 56306},
 																					run: (*parser).callonListContinuationElement1578,
 																					expr: &litMatcher{
-																						pos:        position{line: 1739, col: 12, offset: 56279},
+																						pos:        position{line: 1740, col: 12, offset: 56306},
 																						val:        "TIP: ",
 																						ignoreCase: false,
 																						want:       "\"TIP: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1741, col: 13, offset: 56335},
+																					pos: position{line: 1742, col: 13, offset: 56362},
 																					run: (*parser).callonListContinuationElement1580,
 																					expr: &litMatcher{
-																						pos:        position{line: 1741, col: 13, offset: 56335},
+																						pos:        position{line: 1742, col: 13, offset: 56362},
 																						val:        "NOTE: ",
 																						ignoreCase: false,
 																						want:       "\"NOTE: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1743, col: 13, offset: 56393},
+																					pos: position{line: 1744, col: 13, offset: 56420},
 																					run: (*parser).callonListContinuationElement1582,
 																					expr: &litMatcher{
-																						pos:        position{line: 1743, col: 13, offset: 56393},
+																						pos:        position{line: 1744, col: 13, offset: 56420},
 																						val:        "IMPORTANT: ",
 																						ignoreCase: false,
 																						want:       "\"IMPORTANT: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1745, col: 13, offset: 56461},
+																					pos: position{line: 1746, col: 13, offset: 56488},
 																					run: (*parser).callonListContinuationElement1584,
 																					expr: &litMatcher{
-																						pos:        position{line: 1745, col: 13, offset: 56461},
+																						pos:        position{line: 1746, col: 13, offset: 56488},
 																						val:        "WARNING: ",
 																						ignoreCase: false,
 																						want:       "\"WARNING: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1747, col: 13, offset: 56525},
+																					pos: position{line: 1748, col: 13, offset: 56552},
 																					run: (*parser).callonListContinuationElement1586,
 																					expr: &litMatcher{
-																						pos:        position{line: 1747, col: 13, offset: 56525},
+																						pos:        position{line: 1748, col: 13, offset: 56552},
 																						val:        "CAUTION: ",
 																						ignoreCase: false,
 																						want:       "\"CAUTION: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1749, col: 13, offset: 56589},
+																					pos: position{line: 1750, col: 13, offset: 56616},
 																					run: (*parser).callonListContinuationElement1588,
 																					expr: &andExpr{
-																						pos: position{line: 1749, col: 13, offset: 56589},
+																						pos: position{line: 1750, col: 13, offset: 56616},
 																						expr: &actionExpr{
-																							pos: position{line: 2880, col: 11, offset: 91066},
+																							pos: position{line: 2881, col: 11, offset: 91093},
 																							run: (*parser).callonListContinuationElement1590,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2880, col: 11, offset: 91066},
+																								pos: position{line: 2881, col: 11, offset: 91093},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 11, offset: 91066},
+																									pos:        position{line: 2881, col: 11, offset: 91093},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36685,17 +36903,17 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1751, col: 12, offset: 56659},
+																		pos: position{line: 1752, col: 12, offset: 56686},
 																		expr: &seqExpr{
-																			pos: position{line: 1751, col: 14, offset: 56661},
+																			pos: position{line: 1752, col: 14, offset: 56688},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1751, col: 14, offset: 56661},
+																					pos: position{line: 1752, col: 14, offset: 56688},
 																					expr: &actionExpr{
-																						pos: position{line: 2876, col: 10, offset: 91005},
+																						pos: position{line: 2877, col: 10, offset: 91032},
 																						run: (*parser).callonListContinuationElement1596,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2876, col: 10, offset: 91005},
+																							pos:        position{line: 2877, col: 10, offset: 91032},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36704,28 +36922,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2898, col: 8, offset: 91403},
+																					pos: position{line: 2899, col: 8, offset: 91430},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2885, col: 12, offset: 91176},
+																							pos: position{line: 2886, col: 12, offset: 91203},
 																							run: (*parser).callonListContinuationElement1599,
 																							expr: &choiceExpr{
-																								pos: position{line: 2885, col: 13, offset: 91177},
+																								pos: position{line: 2886, col: 13, offset: 91204},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 13, offset: 91177},
+																										pos:        position{line: 2886, col: 13, offset: 91204},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 20, offset: 91184},
+																										pos:        position{line: 2886, col: 20, offset: 91211},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 29, offset: 91193},
+																										pos:        position{line: 2886, col: 29, offset: 91220},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -36734,9 +36952,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2895, col: 8, offset: 91353},
+																							pos: position{line: 2896, col: 8, offset: 91380},
 																							expr: &anyMatcher{
-																								line: 2895, col: 9, offset: 91354,
+																								line: 2896, col: 9, offset: 91381,
 																							},
 																						},
 																					},
@@ -36750,35 +36968,35 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1572, col: 5, offset: 50883},
+													pos:   position{line: 1573, col: 5, offset: 50910},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1515, col: 5, offset: 49233},
+														pos: position{line: 1516, col: 5, offset: 49260},
 														run: (*parser).callonListContinuationElement1607,
 														expr: &seqExpr{
-															pos: position{line: 1515, col: 5, offset: 49233},
+															pos: position{line: 1516, col: 5, offset: 49260},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1515, col: 5, offset: 49233},
+																	pos: position{line: 1516, col: 5, offset: 49260},
 																	expr: &actionExpr{
-																		pos: position{line: 676, col: 14, offset: 21498},
+																		pos: position{line: 677, col: 14, offset: 21525},
 																		run: (*parser).callonListContinuationElement1610,
 																		expr: &seqExpr{
-																			pos: position{line: 676, col: 14, offset: 21498},
+																			pos: position{line: 677, col: 14, offset: 21525},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2893, col: 11, offset: 91339},
+																					pos: position{line: 2894, col: 11, offset: 91366},
 																					expr: &anyMatcher{
-																						line: 2893, col: 13, offset: 91341,
+																						line: 2894, col: 13, offset: 91368,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 676, col: 21, offset: 21505},
+																					pos: position{line: 677, col: 21, offset: 21532},
 																					expr: &actionExpr{
-																						pos: position{line: 2876, col: 10, offset: 91005},
+																						pos: position{line: 2877, col: 10, offset: 91032},
 																						run: (*parser).callonListContinuationElement1615,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2876, col: 10, offset: 91005},
+																							pos:        position{line: 2877, col: 10, offset: 91032},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36787,28 +37005,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2898, col: 8, offset: 91403},
+																					pos: position{line: 2899, col: 8, offset: 91430},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2885, col: 12, offset: 91176},
+																							pos: position{line: 2886, col: 12, offset: 91203},
 																							run: (*parser).callonListContinuationElement1618,
 																							expr: &choiceExpr{
-																								pos: position{line: 2885, col: 13, offset: 91177},
+																								pos: position{line: 2886, col: 13, offset: 91204},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 13, offset: 91177},
+																										pos:        position{line: 2886, col: 13, offset: 91204},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 20, offset: 91184},
+																										pos:        position{line: 2886, col: 20, offset: 91211},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 29, offset: 91193},
+																										pos:        position{line: 2886, col: 29, offset: 91220},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -36817,9 +37035,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2895, col: 8, offset: 91353},
+																							pos: position{line: 2896, col: 8, offset: 91380},
 																							expr: &anyMatcher{
-																								line: 2895, col: 9, offset: 91354,
+																								line: 2896, col: 9, offset: 91381,
 																							},
 																						},
 																					},
@@ -36829,23 +37047,23 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1516, col: 5, offset: 49248},
+																	pos: position{line: 1517, col: 5, offset: 49275},
 																	expr: &seqExpr{
-																		pos: position{line: 1546, col: 27, offset: 50074},
+																		pos: position{line: 1547, col: 27, offset: 50101},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1546, col: 27, offset: 50074},
+																				pos:        position{line: 1547, col: 27, offset: 50101},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 1546, col: 31, offset: 50078},
+																				pos: position{line: 1547, col: 31, offset: 50105},
 																				expr: &actionExpr{
-																					pos: position{line: 2876, col: 10, offset: 91005},
+																					pos: position{line: 2877, col: 10, offset: 91032},
 																					run: (*parser).callonListContinuationElement1629,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2876, col: 10, offset: 91005},
+																						pos:        position{line: 2877, col: 10, offset: 91032},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -36854,25 +37072,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91176},
+																				pos: position{line: 2886, col: 12, offset: 91203},
 																				run: (*parser).callonListContinuationElement1631,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91177},
+																					pos: position{line: 2886, col: 13, offset: 91204},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91177},
+																							pos:        position{line: 2886, col: 13, offset: 91204},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91184},
+																							pos:        position{line: 2886, col: 20, offset: 91211},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91193},
+																							pos:        position{line: 2886, col: 29, offset: 91220},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -36884,20 +37102,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1517, col: 5, offset: 49276},
+																	pos: position{line: 1518, col: 5, offset: 49303},
 																	expr: &actionExpr{
-																		pos: position{line: 1587, col: 5, offset: 51293},
+																		pos: position{line: 1588, col: 5, offset: 51320},
 																		run: (*parser).callonListContinuationElement1637,
 																		expr: &seqExpr{
-																			pos: position{line: 1587, col: 5, offset: 51293},
+																			pos: position{line: 1588, col: 5, offset: 51320},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1587, col: 5, offset: 51293},
+																					pos: position{line: 1588, col: 5, offset: 51320},
 																					expr: &actionExpr{
-																						pos: position{line: 2876, col: 10, offset: 91005},
+																						pos: position{line: 2877, col: 10, offset: 91032},
 																						run: (*parser).callonListContinuationElement1640,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2876, col: 10, offset: 91005},
+																							pos:        position{line: 2877, col: 10, offset: 91032},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36906,27 +37124,27 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1587, col: 12, offset: 51300},
+																					pos:   position{line: 1588, col: 12, offset: 51327},
 																					label: "prefix",
 																					expr: &choiceExpr{
-																						pos: position{line: 1589, col: 9, offset: 51363},
+																						pos: position{line: 1590, col: 9, offset: 51390},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 1589, col: 9, offset: 51363},
+																								pos: position{line: 1590, col: 9, offset: 51390},
 																								run: (*parser).callonListContinuationElement1644,
 																								expr: &seqExpr{
-																									pos: position{line: 1589, col: 9, offset: 51363},
+																									pos: position{line: 1590, col: 9, offset: 51390},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 1589, col: 9, offset: 51363},
+																											pos:   position{line: 1590, col: 9, offset: 51390},
 																											label: "depth",
 																											expr: &actionExpr{
-																												pos: position{line: 1589, col: 16, offset: 51370},
+																												pos: position{line: 1590, col: 16, offset: 51397},
 																												run: (*parser).callonListContinuationElement1647,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1589, col: 16, offset: 51370},
+																													pos: position{line: 1590, col: 16, offset: 51397},
 																													expr: &litMatcher{
-																														pos:        position{line: 1589, col: 17, offset: 51371},
+																														pos:        position{line: 1590, col: 17, offset: 51398},
 																														val:        ".",
 																														ignoreCase: false,
 																														want:       "\".\"",
@@ -36935,22 +37153,22 @@ var g = &grammar{
 																											},
 																										},
 																										&andCodeExpr{
-																											pos: position{line: 1593, col: 9, offset: 51471},
+																											pos: position{line: 1594, col: 9, offset: 51498},
 																											run: (*parser).callonListContinuationElement1650,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1612, col: 11, offset: 52188},
+																								pos: position{line: 1613, col: 11, offset: 52215},
 																								run: (*parser).callonListContinuationElement1651,
 																								expr: &seqExpr{
-																									pos: position{line: 1612, col: 11, offset: 52188},
+																									pos: position{line: 1613, col: 11, offset: 52215},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1612, col: 11, offset: 52188},
+																											pos: position{line: 1613, col: 11, offset: 52215},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1612, col: 12, offset: 52189},
+																												pos:        position{line: 1613, col: 12, offset: 52216},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -36958,7 +37176,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1612, col: 20, offset: 52197},
+																											pos:        position{line: 1613, col: 20, offset: 52224},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -36967,20 +37185,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1614, col: 13, offset: 52314},
+																								pos: position{line: 1615, col: 13, offset: 52341},
 																								run: (*parser).callonListContinuationElement1656,
 																								expr: &seqExpr{
-																									pos: position{line: 1614, col: 13, offset: 52314},
+																									pos: position{line: 1615, col: 13, offset: 52341},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1614, col: 14, offset: 52315},
+																											pos:        position{line: 1615, col: 14, offset: 52342},
 																											val:        "[a-z]",
 																											ranges:     []rune{'a', 'z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1614, col: 21, offset: 52322},
+																											pos:        position{line: 1615, col: 21, offset: 52349},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -36989,20 +37207,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1616, col: 13, offset: 52442},
+																								pos: position{line: 1617, col: 13, offset: 52469},
 																								run: (*parser).callonListContinuationElement1660,
 																								expr: &seqExpr{
-																									pos: position{line: 1616, col: 13, offset: 52442},
+																									pos: position{line: 1617, col: 13, offset: 52469},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1616, col: 14, offset: 52443},
+																											pos:        position{line: 1617, col: 14, offset: 52470},
 																											val:        "[A-Z]",
 																											ranges:     []rune{'A', 'Z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1616, col: 21, offset: 52450},
+																											pos:        position{line: 1617, col: 21, offset: 52477},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -37011,15 +37229,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1618, col: 13, offset: 52570},
+																								pos: position{line: 1619, col: 13, offset: 52597},
 																								run: (*parser).callonListContinuationElement1664,
 																								expr: &seqExpr{
-																									pos: position{line: 1618, col: 13, offset: 52570},
+																									pos: position{line: 1619, col: 13, offset: 52597},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1618, col: 13, offset: 52570},
+																											pos: position{line: 1619, col: 13, offset: 52597},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1618, col: 14, offset: 52571},
+																												pos:        position{line: 1619, col: 14, offset: 52598},
 																												val:        "[ivxdlcm]",
 																												chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																												ignoreCase: false,
@@ -37027,7 +37245,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1618, col: 26, offset: 52583},
+																											pos:        position{line: 1619, col: 26, offset: 52610},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -37036,15 +37254,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1620, col: 13, offset: 52703},
+																								pos: position{line: 1621, col: 13, offset: 52730},
 																								run: (*parser).callonListContinuationElement1669,
 																								expr: &seqExpr{
-																									pos: position{line: 1620, col: 13, offset: 52703},
+																									pos: position{line: 1621, col: 13, offset: 52730},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1620, col: 13, offset: 52703},
+																											pos: position{line: 1621, col: 13, offset: 52730},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1620, col: 14, offset: 52704},
+																												pos:        position{line: 1621, col: 14, offset: 52731},
 																												val:        "[IVXDLCM]",
 																												chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																												ignoreCase: false,
@@ -37052,7 +37270,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1620, col: 26, offset: 52716},
+																											pos:        position{line: 1621, col: 26, offset: 52743},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -37064,12 +37282,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2880, col: 11, offset: 91066},
+																					pos: position{line: 2881, col: 11, offset: 91093},
 																					run: (*parser).callonListContinuationElement1674,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2880, col: 11, offset: 91066},
+																						pos: position{line: 2881, col: 11, offset: 91093},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2880, col: 11, offset: 91066},
+																							pos:        position{line: 2881, col: 11, offset: 91093},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37082,20 +37300,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1518, col: 5, offset: 49306},
+																	pos: position{line: 1519, col: 5, offset: 49333},
 																	expr: &actionExpr{
-																		pos: position{line: 1637, col: 5, offset: 53255},
+																		pos: position{line: 1638, col: 5, offset: 53282},
 																		run: (*parser).callonListContinuationElement1678,
 																		expr: &seqExpr{
-																			pos: position{line: 1637, col: 5, offset: 53255},
+																			pos: position{line: 1638, col: 5, offset: 53282},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1637, col: 5, offset: 53255},
+																					pos: position{line: 1638, col: 5, offset: 53282},
 																					expr: &actionExpr{
-																						pos: position{line: 2876, col: 10, offset: 91005},
+																						pos: position{line: 2877, col: 10, offset: 91032},
 																						run: (*parser).callonListContinuationElement1681,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2876, col: 10, offset: 91005},
+																							pos:        position{line: 2877, col: 10, offset: 91032},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37104,24 +37322,24 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1638, col: 5, offset: 53267},
+																					pos:   position{line: 1639, col: 5, offset: 53294},
 																					label: "style",
 																					expr: &actionExpr{
-																						pos: position{line: 1639, col: 9, offset: 53283},
+																						pos: position{line: 1640, col: 9, offset: 53310},
 																						run: (*parser).callonListContinuationElement1684,
 																						expr: &choiceExpr{
-																							pos: position{line: 1639, col: 10, offset: 53284},
+																							pos: position{line: 1640, col: 10, offset: 53311},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1639, col: 11, offset: 53285},
+																									pos:        position{line: 1640, col: 11, offset: 53312},
 																									val:        "-",
 																									ignoreCase: false,
 																									want:       "\"-\"",
 																								},
 																								&oneOrMoreExpr{
-																									pos: position{line: 1639, col: 18, offset: 53292},
+																									pos: position{line: 1640, col: 18, offset: 53319},
 																									expr: &litMatcher{
-																										pos:        position{line: 1639, col: 19, offset: 53293},
+																										pos:        position{line: 1640, col: 19, offset: 53320},
 																										val:        "*",
 																										ignoreCase: false,
 																										want:       "\"*\"",
@@ -37132,16 +37350,16 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1642, col: 7, offset: 53383},
+																					pos: position{line: 1643, col: 7, offset: 53410},
 																					run: (*parser).callonListContinuationElement1689,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2880, col: 11, offset: 91066},
+																					pos: position{line: 2881, col: 11, offset: 91093},
 																					run: (*parser).callonListContinuationElement1690,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2880, col: 11, offset: 91066},
+																						pos: position{line: 2881, col: 11, offset: 91093},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2880, col: 11, offset: 91066},
+																							pos:        position{line: 2881, col: 11, offset: 91093},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37154,29 +37372,29 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1519, col: 5, offset: 49338},
+																	pos: position{line: 1520, col: 5, offset: 49365},
 																	expr: &actionExpr{
-																		pos: position{line: 1727, col: 5, offset: 55824},
+																		pos: position{line: 1728, col: 5, offset: 55851},
 																		run: (*parser).callonListContinuationElement1694,
 																		expr: &seqExpr{
-																			pos: position{line: 1727, col: 5, offset: 55824},
+																			pos: position{line: 1728, col: 5, offset: 55851},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1727, col: 5, offset: 55824},
+																					pos:        position{line: 1728, col: 5, offset: 55851},
 																					val:        "<",
 																					ignoreCase: false,
 																					want:       "\"<\"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1727, col: 9, offset: 55828},
+																					pos:   position{line: 1728, col: 9, offset: 55855},
 																					label: "ref",
 																					expr: &actionExpr{
-																						pos: position{line: 1727, col: 14, offset: 55833},
+																						pos: position{line: 1728, col: 14, offset: 55860},
 																						run: (*parser).callonListContinuationElement1698,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 1727, col: 14, offset: 55833},
+																							pos: position{line: 1728, col: 14, offset: 55860},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1727, col: 14, offset: 55833},
+																								pos:        position{line: 1728, col: 14, offset: 55860},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -37186,18 +37404,18 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 1727, col: 62, offset: 55881},
+																					pos:        position{line: 1728, col: 62, offset: 55908},
 																					val:        ">",
 																					ignoreCase: false,
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2880, col: 11, offset: 91066},
+																					pos: position{line: 2881, col: 11, offset: 91093},
 																					run: (*parser).callonListContinuationElement1702,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2880, col: 11, offset: 91066},
+																						pos: position{line: 2881, col: 11, offset: 91093},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2880, col: 11, offset: 91066},
+																							pos:        position{line: 2881, col: 11, offset: 91093},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37210,31 +37428,31 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1520, col: 5, offset: 49368},
+																	pos: position{line: 1521, col: 5, offset: 49395},
 																	expr: &seqExpr{
-																		pos: position{line: 1520, col: 7, offset: 49370},
+																		pos: position{line: 1521, col: 7, offset: 49397},
 																		exprs: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1672, col: 5, offset: 54274},
+																				pos: position{line: 1673, col: 5, offset: 54301},
 																				run: (*parser).callonListContinuationElement1707,
 																				expr: &seqExpr{
-																					pos: position{line: 1672, col: 5, offset: 54274},
+																					pos: position{line: 1673, col: 5, offset: 54301},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1672, col: 5, offset: 54274},
+																							pos: position{line: 1673, col: 5, offset: 54301},
 																							expr: &seqExpr{
-																								pos: position{line: 2488, col: 31, offset: 80112},
+																								pos: position{line: 2489, col: 31, offset: 80139},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2488, col: 31, offset: 80112},
+																										pos:        position{line: 2489, col: 31, offset: 80139},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2488, col: 36, offset: 80117},
+																										pos: position{line: 2489, col: 36, offset: 80144},
 																										expr: &litMatcher{
-																											pos:        position{line: 2488, col: 37, offset: 80118},
+																											pos:        position{line: 2489, col: 37, offset: 80145},
 																											val:        "//",
 																											ignoreCase: false,
 																											want:       "\"//\"",
@@ -37244,28 +37462,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1673, col: 5, offset: 54306},
+																							pos: position{line: 1674, col: 5, offset: 54333},
 																							expr: &seqExpr{
-																								pos: position{line: 1673, col: 6, offset: 54307},
+																								pos: position{line: 1674, col: 6, offset: 54334},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1673, col: 6, offset: 54307},
+																										pos: position{line: 1674, col: 6, offset: 54334},
 																										expr: &actionExpr{
-																											pos: position{line: 1678, col: 5, offset: 54457},
+																											pos: position{line: 1679, col: 5, offset: 54484},
 																											run: (*parser).callonListContinuationElement1717,
 																											expr: &seqExpr{
-																												pos: position{line: 1678, col: 5, offset: 54457},
+																												pos: position{line: 1679, col: 5, offset: 54484},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1678, col: 5, offset: 54457},
+																														pos:   position{line: 1679, col: 5, offset: 54484},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1678, col: 16, offset: 54468},
+																															pos: position{line: 1679, col: 16, offset: 54495},
 																															run: (*parser).callonListContinuationElement1720,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1678, col: 16, offset: 54468},
+																																pos: position{line: 1679, col: 16, offset: 54495},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1678, col: 17, offset: 54469},
+																																	pos:        position{line: 1679, col: 17, offset: 54496},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -37274,7 +37492,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1681, col: 5, offset: 54526},
+																														pos: position{line: 1682, col: 5, offset: 54553},
 																														run: (*parser).callonListContinuationElement1723,
 																													},
 																												},
@@ -37282,30 +37500,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1673, col: 35, offset: 54336},
+																										pos: position{line: 1674, col: 35, offset: 54363},
 																										expr: &choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91403},
+																											pos: position{line: 2899, col: 8, offset: 91430},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91176},
+																													pos: position{line: 2886, col: 12, offset: 91203},
 																													run: (*parser).callonListContinuationElement1726,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91177},
+																														pos: position{line: 2886, col: 13, offset: 91204},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91177},
+																																pos:        position{line: 2886, col: 13, offset: 91204},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91184},
+																																pos:        position{line: 2886, col: 20, offset: 91211},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91193},
+																																pos:        position{line: 2886, col: 29, offset: 91220},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37314,16 +37532,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91353},
+																													pos: position{line: 2896, col: 8, offset: 91380},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91354,
+																														line: 2896, col: 9, offset: 91381,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1673, col: 40, offset: 54341,
+																										line: 1674, col: 40, offset: 54368,
 																									},
 																								},
 																							},
@@ -37332,21 +37550,21 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1678, col: 5, offset: 54457},
+																				pos: position{line: 1679, col: 5, offset: 54484},
 																				run: (*parser).callonListContinuationElement1734,
 																				expr: &seqExpr{
-																					pos: position{line: 1678, col: 5, offset: 54457},
+																					pos: position{line: 1679, col: 5, offset: 54484},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1678, col: 5, offset: 54457},
+																							pos:   position{line: 1679, col: 5, offset: 54484},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1678, col: 16, offset: 54468},
+																								pos: position{line: 1679, col: 16, offset: 54495},
 																								run: (*parser).callonListContinuationElement1737,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1678, col: 16, offset: 54468},
+																									pos: position{line: 1679, col: 16, offset: 54495},
 																									expr: &litMatcher{
-																										pos:        position{line: 1678, col: 17, offset: 54469},
+																										pos:        position{line: 1679, col: 17, offset: 54496},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -37355,7 +37573,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1681, col: 5, offset: 54526},
+																							pos: position{line: 1682, col: 5, offset: 54553},
 																							run: (*parser).callonListContinuationElement1740,
 																						},
 																					},
@@ -37365,17 +37583,17 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1521, col: 5, offset: 49426},
+																	pos: position{line: 1522, col: 5, offset: 49453},
 																	expr: &actionExpr{
-																		pos: position{line: 723, col: 5, offset: 23051},
+																		pos: position{line: 724, col: 5, offset: 23078},
 																		run: (*parser).callonListContinuationElement1742,
 																		expr: &seqExpr{
-																			pos: position{line: 723, col: 5, offset: 23051},
+																			pos: position{line: 724, col: 5, offset: 23078},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 723, col: 5, offset: 23051},
+																					pos: position{line: 724, col: 5, offset: 23078},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2766, col: 13, offset: 88079},
+																						pos:        position{line: 2767, col: 13, offset: 88106},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -37383,36 +37601,36 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 724, col: 5, offset: 23081},
+																					pos:   position{line: 725, col: 5, offset: 23108},
 																					label: "delimiter",
 																					expr: &choiceExpr{
-																						pos: position{line: 725, col: 9, offset: 23101},
+																						pos: position{line: 726, col: 9, offset: 23128},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 739, col: 5, offset: 23593},
+																								pos: position{line: 740, col: 5, offset: 23620},
 																								run: (*parser).callonListContinuationElement1748,
 																								expr: &seqExpr{
-																									pos: position{line: 739, col: 5, offset: 23593},
+																									pos: position{line: 740, col: 5, offset: 23620},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 739, col: 5, offset: 23593},
+																											pos:   position{line: 740, col: 5, offset: 23620},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 739, col: 16, offset: 23604},
+																												pos: position{line: 740, col: 16, offset: 23631},
 																												run: (*parser).callonListContinuationElement1751,
 																												expr: &seqExpr{
-																													pos: position{line: 739, col: 16, offset: 23604},
+																													pos: position{line: 740, col: 16, offset: 23631},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 739, col: 16, offset: 23604},
+																															pos:        position{line: 740, col: 16, offset: 23631},
 																															val:        "////",
 																															ignoreCase: false,
 																															want:       "\"////\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 739, col: 23, offset: 23611},
+																															pos: position{line: 740, col: 23, offset: 23638},
 																															expr: &litMatcher{
-																																pos:        position{line: 739, col: 23, offset: 23611},
+																																pos:        position{line: 740, col: 23, offset: 23638},
 																																val:        "/",
 																																ignoreCase: false,
 																																want:       "\"/\"",
@@ -37423,12 +37641,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 741, col: 8, offset: 23695},
+																											pos: position{line: 742, col: 8, offset: 23722},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 91005},
+																												pos: position{line: 2877, col: 10, offset: 91032},
 																												run: (*parser).callonListContinuationElement1757,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 91005},
+																													pos:        position{line: 2877, col: 10, offset: 91032},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37437,28 +37655,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91403},
+																											pos: position{line: 2899, col: 8, offset: 91430},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91176},
+																													pos: position{line: 2886, col: 12, offset: 91203},
 																													run: (*parser).callonListContinuationElement1760,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91177},
+																														pos: position{line: 2886, col: 13, offset: 91204},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91177},
+																																pos:        position{line: 2886, col: 13, offset: 91204},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91184},
+																																pos:        position{line: 2886, col: 20, offset: 91211},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91193},
+																																pos:        position{line: 2886, col: 29, offset: 91220},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37467,9 +37685,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91353},
+																													pos: position{line: 2896, col: 8, offset: 91380},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91354,
+																														line: 2896, col: 9, offset: 91381,
 																													},
 																												},
 																											},
@@ -37478,30 +37696,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 746, col: 5, offset: 23841},
+																								pos: position{line: 747, col: 5, offset: 23868},
 																								run: (*parser).callonListContinuationElement1767,
 																								expr: &seqExpr{
-																									pos: position{line: 746, col: 5, offset: 23841},
+																									pos: position{line: 747, col: 5, offset: 23868},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 746, col: 5, offset: 23841},
+																											pos:   position{line: 747, col: 5, offset: 23868},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 746, col: 16, offset: 23852},
+																												pos: position{line: 747, col: 16, offset: 23879},
 																												run: (*parser).callonListContinuationElement1770,
 																												expr: &seqExpr{
-																													pos: position{line: 746, col: 16, offset: 23852},
+																													pos: position{line: 747, col: 16, offset: 23879},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 746, col: 16, offset: 23852},
+																															pos:        position{line: 747, col: 16, offset: 23879},
 																															val:        "====",
 																															ignoreCase: false,
 																															want:       "\"====\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 746, col: 23, offset: 23859},
+																															pos: position{line: 747, col: 23, offset: 23886},
 																															expr: &litMatcher{
-																																pos:        position{line: 746, col: 23, offset: 23859},
+																																pos:        position{line: 747, col: 23, offset: 23886},
 																																val:        "=",
 																																ignoreCase: false,
 																																want:       "\"=\"",
@@ -37512,12 +37730,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 748, col: 8, offset: 23943},
+																											pos: position{line: 749, col: 8, offset: 23970},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 91005},
+																												pos: position{line: 2877, col: 10, offset: 91032},
 																												run: (*parser).callonListContinuationElement1776,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 91005},
+																													pos:        position{line: 2877, col: 10, offset: 91032},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37526,28 +37744,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91403},
+																											pos: position{line: 2899, col: 8, offset: 91430},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91176},
+																													pos: position{line: 2886, col: 12, offset: 91203},
 																													run: (*parser).callonListContinuationElement1779,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91177},
+																														pos: position{line: 2886, col: 13, offset: 91204},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91177},
+																																pos:        position{line: 2886, col: 13, offset: 91204},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91184},
+																																pos:        position{line: 2886, col: 20, offset: 91211},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91193},
+																																pos:        position{line: 2886, col: 29, offset: 91220},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37556,9 +37774,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91353},
+																													pos: position{line: 2896, col: 8, offset: 91380},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91354,
+																														line: 2896, col: 9, offset: 91381,
 																													},
 																												},
 																											},
@@ -37567,27 +37785,27 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 759, col: 26, offset: 24329},
+																								pos: position{line: 760, col: 26, offset: 24356},
 																								run: (*parser).callonListContinuationElement1786,
 																								expr: &seqExpr{
-																									pos: position{line: 759, col: 26, offset: 24329},
+																									pos: position{line: 760, col: 26, offset: 24356},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 759, col: 26, offset: 24329},
+																											pos:        position{line: 760, col: 26, offset: 24356},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 759, col: 32, offset: 24335},
+																											pos:   position{line: 760, col: 32, offset: 24362},
 																											label: "language",
 																											expr: &actionExpr{
-																												pos: position{line: 763, col: 13, offset: 24465},
+																												pos: position{line: 764, col: 13, offset: 24492},
 																												run: (*parser).callonListContinuationElement1790,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 763, col: 14, offset: 24466},
+																													pos: position{line: 764, col: 14, offset: 24493},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 763, col: 14, offset: 24466},
+																														pos:        position{line: 764, col: 14, offset: 24493},
 																														val:        "[^\\r\\n`\\t ]",
 																														chars:      []rune{'\r', '\n', '`', '\t', ' '},
 																														ignoreCase: false,
@@ -37597,12 +37815,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 759, col: 52, offset: 24355},
+																											pos: position{line: 760, col: 52, offset: 24382},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 91005},
+																												pos: position{line: 2877, col: 10, offset: 91032},
 																												run: (*parser).callonListContinuationElement1794,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 91005},
+																													pos:        position{line: 2877, col: 10, offset: 91032},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37611,28 +37829,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91403},
+																											pos: position{line: 2899, col: 8, offset: 91430},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91176},
+																													pos: position{line: 2886, col: 12, offset: 91203},
 																													run: (*parser).callonListContinuationElement1797,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91177},
+																														pos: position{line: 2886, col: 13, offset: 91204},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91177},
+																																pos:        position{line: 2886, col: 13, offset: 91204},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91184},
+																																pos:        position{line: 2886, col: 20, offset: 91211},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91193},
+																																pos:        position{line: 2886, col: 29, offset: 91220},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37641,9 +37859,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91353},
+																													pos: position{line: 2896, col: 8, offset: 91380},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91354,
+																														line: 2896, col: 9, offset: 91381,
 																													},
 																												},
 																											},
@@ -37652,30 +37870,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 753, col: 5, offset: 24088},
+																								pos: position{line: 754, col: 5, offset: 24115},
 																								run: (*parser).callonListContinuationElement1804,
 																								expr: &seqExpr{
-																									pos: position{line: 753, col: 5, offset: 24088},
+																									pos: position{line: 754, col: 5, offset: 24115},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 753, col: 5, offset: 24088},
+																											pos:   position{line: 754, col: 5, offset: 24115},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 753, col: 16, offset: 24099},
+																												pos: position{line: 754, col: 16, offset: 24126},
 																												run: (*parser).callonListContinuationElement1807,
 																												expr: &seqExpr{
-																													pos: position{line: 753, col: 16, offset: 24099},
+																													pos: position{line: 754, col: 16, offset: 24126},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 753, col: 16, offset: 24099},
+																															pos:        position{line: 754, col: 16, offset: 24126},
 																															val:        "```",
 																															ignoreCase: false,
 																															want:       "\"```\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 753, col: 22, offset: 24105},
+																															pos: position{line: 754, col: 22, offset: 24132},
 																															expr: &litMatcher{
-																																pos:        position{line: 753, col: 22, offset: 24105},
+																																pos:        position{line: 754, col: 22, offset: 24132},
 																																val:        "`",
 																																ignoreCase: false,
 																																want:       "\"`\"",
@@ -37686,12 +37904,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 755, col: 8, offset: 24189},
+																											pos: position{line: 756, col: 8, offset: 24216},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 91005},
+																												pos: position{line: 2877, col: 10, offset: 91032},
 																												run: (*parser).callonListContinuationElement1813,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 91005},
+																													pos:        position{line: 2877, col: 10, offset: 91032},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37700,28 +37918,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91403},
+																											pos: position{line: 2899, col: 8, offset: 91430},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91176},
+																													pos: position{line: 2886, col: 12, offset: 91203},
 																													run: (*parser).callonListContinuationElement1816,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91177},
+																														pos: position{line: 2886, col: 13, offset: 91204},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91177},
+																																pos:        position{line: 2886, col: 13, offset: 91204},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91184},
+																																pos:        position{line: 2886, col: 20, offset: 91211},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91193},
+																																pos:        position{line: 2886, col: 29, offset: 91220},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37730,9 +37948,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91353},
+																													pos: position{line: 2896, col: 8, offset: 91380},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91354,
+																														line: 2896, col: 9, offset: 91381,
 																													},
 																												},
 																											},
@@ -37741,30 +37959,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 768, col: 5, offset: 24630},
+																								pos: position{line: 769, col: 5, offset: 24657},
 																								run: (*parser).callonListContinuationElement1823,
 																								expr: &seqExpr{
-																									pos: position{line: 768, col: 5, offset: 24630},
+																									pos: position{line: 769, col: 5, offset: 24657},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 768, col: 5, offset: 24630},
+																											pos:   position{line: 769, col: 5, offset: 24657},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 768, col: 16, offset: 24641},
+																												pos: position{line: 769, col: 16, offset: 24668},
 																												run: (*parser).callonListContinuationElement1826,
 																												expr: &seqExpr{
-																													pos: position{line: 768, col: 16, offset: 24641},
+																													pos: position{line: 769, col: 16, offset: 24668},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 768, col: 16, offset: 24641},
+																															pos:        position{line: 769, col: 16, offset: 24668},
 																															val:        "----",
 																															ignoreCase: false,
 																															want:       "\"----\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 768, col: 23, offset: 24648},
+																															pos: position{line: 769, col: 23, offset: 24675},
 																															expr: &litMatcher{
-																																pos:        position{line: 768, col: 23, offset: 24648},
+																																pos:        position{line: 769, col: 23, offset: 24675},
 																																val:        "-",
 																																ignoreCase: false,
 																																want:       "\"-\"",
@@ -37775,12 +37993,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 770, col: 8, offset: 24732},
+																											pos: position{line: 771, col: 8, offset: 24759},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 91005},
+																												pos: position{line: 2877, col: 10, offset: 91032},
 																												run: (*parser).callonListContinuationElement1832,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 91005},
+																													pos:        position{line: 2877, col: 10, offset: 91032},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37789,28 +38007,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91403},
+																											pos: position{line: 2899, col: 8, offset: 91430},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91176},
+																													pos: position{line: 2886, col: 12, offset: 91203},
 																													run: (*parser).callonListContinuationElement1835,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91177},
+																														pos: position{line: 2886, col: 13, offset: 91204},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91177},
+																																pos:        position{line: 2886, col: 13, offset: 91204},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91184},
+																																pos:        position{line: 2886, col: 20, offset: 91211},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91193},
+																																pos:        position{line: 2886, col: 29, offset: 91220},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37819,9 +38037,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91353},
+																													pos: position{line: 2896, col: 8, offset: 91380},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91354,
+																														line: 2896, col: 9, offset: 91381,
 																													},
 																												},
 																											},
@@ -37830,30 +38048,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 782, col: 5, offset: 25106},
+																								pos: position{line: 783, col: 5, offset: 25133},
 																								run: (*parser).callonListContinuationElement1842,
 																								expr: &seqExpr{
-																									pos: position{line: 782, col: 5, offset: 25106},
+																									pos: position{line: 783, col: 5, offset: 25133},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 782, col: 5, offset: 25106},
+																											pos:   position{line: 783, col: 5, offset: 25133},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 782, col: 16, offset: 25117},
+																												pos: position{line: 783, col: 16, offset: 25144},
 																												run: (*parser).callonListContinuationElement1845,
 																												expr: &seqExpr{
-																													pos: position{line: 782, col: 16, offset: 25117},
+																													pos: position{line: 783, col: 16, offset: 25144},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 782, col: 16, offset: 25117},
+																															pos:        position{line: 783, col: 16, offset: 25144},
 																															val:        "....",
 																															ignoreCase: false,
 																															want:       "\"....\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 782, col: 23, offset: 25124},
+																															pos: position{line: 783, col: 23, offset: 25151},
 																															expr: &litMatcher{
-																																pos:        position{line: 782, col: 23, offset: 25124},
+																																pos:        position{line: 783, col: 23, offset: 25151},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -37864,12 +38082,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 784, col: 8, offset: 25208},
+																											pos: position{line: 785, col: 8, offset: 25235},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 91005},
+																												pos: position{line: 2877, col: 10, offset: 91032},
 																												run: (*parser).callonListContinuationElement1851,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 91005},
+																													pos:        position{line: 2877, col: 10, offset: 91032},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37878,28 +38096,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91403},
+																											pos: position{line: 2899, col: 8, offset: 91430},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91176},
+																													pos: position{line: 2886, col: 12, offset: 91203},
 																													run: (*parser).callonListContinuationElement1854,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91177},
+																														pos: position{line: 2886, col: 13, offset: 91204},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91177},
+																																pos:        position{line: 2886, col: 13, offset: 91204},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91184},
+																																pos:        position{line: 2886, col: 20, offset: 91211},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91193},
+																																pos:        position{line: 2886, col: 29, offset: 91220},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37908,9 +38126,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91353},
+																													pos: position{line: 2896, col: 8, offset: 91380},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91354,
+																														line: 2896, col: 9, offset: 91381,
 																													},
 																												},
 																											},
@@ -37919,30 +38137,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 789, col: 5, offset: 25358},
+																								pos: position{line: 790, col: 5, offset: 25385},
 																								run: (*parser).callonListContinuationElement1861,
 																								expr: &seqExpr{
-																									pos: position{line: 789, col: 5, offset: 25358},
+																									pos: position{line: 790, col: 5, offset: 25385},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 789, col: 5, offset: 25358},
+																											pos:   position{line: 790, col: 5, offset: 25385},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 789, col: 16, offset: 25369},
+																												pos: position{line: 790, col: 16, offset: 25396},
 																												run: (*parser).callonListContinuationElement1864,
 																												expr: &seqExpr{
-																													pos: position{line: 789, col: 16, offset: 25369},
+																													pos: position{line: 790, col: 16, offset: 25396},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 789, col: 16, offset: 25369},
+																															pos:        position{line: 790, col: 16, offset: 25396},
 																															val:        "++++",
 																															ignoreCase: false,
 																															want:       "\"++++\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 789, col: 23, offset: 25376},
+																															pos: position{line: 790, col: 23, offset: 25403},
 																															expr: &litMatcher{
-																																pos:        position{line: 789, col: 23, offset: 25376},
+																																pos:        position{line: 790, col: 23, offset: 25403},
 																																val:        "+",
 																																ignoreCase: false,
 																																want:       "\"+\"",
@@ -37953,12 +38171,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 791, col: 8, offset: 25460},
+																											pos: position{line: 792, col: 8, offset: 25487},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 91005},
+																												pos: position{line: 2877, col: 10, offset: 91032},
 																												run: (*parser).callonListContinuationElement1870,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 91005},
+																													pos:        position{line: 2877, col: 10, offset: 91032},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37967,28 +38185,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91403},
+																											pos: position{line: 2899, col: 8, offset: 91430},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91176},
+																													pos: position{line: 2886, col: 12, offset: 91203},
 																													run: (*parser).callonListContinuationElement1873,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91177},
+																														pos: position{line: 2886, col: 13, offset: 91204},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91177},
+																																pos:        position{line: 2886, col: 13, offset: 91204},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91184},
+																																pos:        position{line: 2886, col: 20, offset: 91211},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91193},
+																																pos:        position{line: 2886, col: 29, offset: 91220},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37997,9 +38215,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91353},
+																													pos: position{line: 2896, col: 8, offset: 91380},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91354,
+																														line: 2896, col: 9, offset: 91381,
 																													},
 																												},
 																											},
@@ -38008,30 +38226,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 796, col: 5, offset: 25608},
+																								pos: position{line: 797, col: 5, offset: 25635},
 																								run: (*parser).callonListContinuationElement1880,
 																								expr: &seqExpr{
-																									pos: position{line: 796, col: 5, offset: 25608},
+																									pos: position{line: 797, col: 5, offset: 25635},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 796, col: 5, offset: 25608},
+																											pos:   position{line: 797, col: 5, offset: 25635},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 796, col: 16, offset: 25619},
+																												pos: position{line: 797, col: 16, offset: 25646},
 																												run: (*parser).callonListContinuationElement1883,
 																												expr: &seqExpr{
-																													pos: position{line: 796, col: 16, offset: 25619},
+																													pos: position{line: 797, col: 16, offset: 25646},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 796, col: 16, offset: 25619},
+																															pos:        position{line: 797, col: 16, offset: 25646},
 																															val:        "____",
 																															ignoreCase: false,
 																															want:       "\"____\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 796, col: 23, offset: 25626},
+																															pos: position{line: 797, col: 23, offset: 25653},
 																															expr: &litMatcher{
-																																pos:        position{line: 796, col: 23, offset: 25626},
+																																pos:        position{line: 797, col: 23, offset: 25653},
 																																val:        "_",
 																																ignoreCase: false,
 																																want:       "\"_\"",
@@ -38042,12 +38260,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 798, col: 8, offset: 25710},
+																											pos: position{line: 799, col: 8, offset: 25737},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 91005},
+																												pos: position{line: 2877, col: 10, offset: 91032},
 																												run: (*parser).callonListContinuationElement1889,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 91005},
+																													pos:        position{line: 2877, col: 10, offset: 91032},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38056,28 +38274,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91403},
+																											pos: position{line: 2899, col: 8, offset: 91430},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91176},
+																													pos: position{line: 2886, col: 12, offset: 91203},
 																													run: (*parser).callonListContinuationElement1892,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91177},
+																														pos: position{line: 2886, col: 13, offset: 91204},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91177},
+																																pos:        position{line: 2886, col: 13, offset: 91204},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91184},
+																																pos:        position{line: 2886, col: 20, offset: 91211},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91193},
+																																pos:        position{line: 2886, col: 29, offset: 91220},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38086,9 +38304,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91353},
+																													pos: position{line: 2896, col: 8, offset: 91380},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91354,
+																														line: 2896, col: 9, offset: 91381,
 																													},
 																												},
 																											},
@@ -38097,30 +38315,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 803, col: 5, offset: 25854},
+																								pos: position{line: 804, col: 5, offset: 25881},
 																								run: (*parser).callonListContinuationElement1899,
 																								expr: &seqExpr{
-																									pos: position{line: 803, col: 5, offset: 25854},
+																									pos: position{line: 804, col: 5, offset: 25881},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 803, col: 5, offset: 25854},
+																											pos:   position{line: 804, col: 5, offset: 25881},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 803, col: 16, offset: 25865},
+																												pos: position{line: 804, col: 16, offset: 25892},
 																												run: (*parser).callonListContinuationElement1902,
 																												expr: &seqExpr{
-																													pos: position{line: 803, col: 16, offset: 25865},
+																													pos: position{line: 804, col: 16, offset: 25892},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 803, col: 16, offset: 25865},
+																															pos:        position{line: 804, col: 16, offset: 25892},
 																															val:        "****",
 																															ignoreCase: false,
 																															want:       "\"****\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 803, col: 23, offset: 25872},
+																															pos: position{line: 804, col: 23, offset: 25899},
 																															expr: &litMatcher{
-																																pos:        position{line: 803, col: 23, offset: 25872},
+																																pos:        position{line: 804, col: 23, offset: 25899},
 																																val:        "*",
 																																ignoreCase: false,
 																																want:       "\"*\"",
@@ -38131,12 +38349,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 805, col: 8, offset: 25956},
+																											pos: position{line: 806, col: 8, offset: 25983},
 																											expr: &actionExpr{
-																												pos: position{line: 2876, col: 10, offset: 91005},
+																												pos: position{line: 2877, col: 10, offset: 91032},
 																												run: (*parser).callonListContinuationElement1908,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2876, col: 10, offset: 91005},
+																													pos:        position{line: 2877, col: 10, offset: 91032},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38145,28 +38363,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2898, col: 8, offset: 91403},
+																											pos: position{line: 2899, col: 8, offset: 91430},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2885, col: 12, offset: 91176},
+																													pos: position{line: 2886, col: 12, offset: 91203},
 																													run: (*parser).callonListContinuationElement1911,
 																													expr: &choiceExpr{
-																														pos: position{line: 2885, col: 13, offset: 91177},
+																														pos: position{line: 2886, col: 13, offset: 91204},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 13, offset: 91177},
+																																pos:        position{line: 2886, col: 13, offset: 91204},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 20, offset: 91184},
+																																pos:        position{line: 2886, col: 20, offset: 91211},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2885, col: 29, offset: 91193},
+																																pos:        position{line: 2886, col: 29, offset: 91220},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38175,9 +38393,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2895, col: 8, offset: 91353},
+																													pos: position{line: 2896, col: 8, offset: 91380},
 																													expr: &anyMatcher{
-																														line: 2895, col: 9, offset: 91354,
+																														line: 2896, col: 9, offset: 91381,
 																													},
 																												},
 																											},
@@ -38193,15 +38411,15 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1522, col: 5, offset: 49446},
+																	pos:   position{line: 1523, col: 5, offset: 49473},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2826, col: 14, offset: 89598},
+																		pos: position{line: 2827, col: 14, offset: 89625},
 																		run: (*parser).callonListContinuationElement1919,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2826, col: 14, offset: 89598},
+																			pos: position{line: 2827, col: 14, offset: 89625},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2826, col: 14, offset: 89598},
+																				pos:        position{line: 2827, col: 14, offset: 89625},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -38211,28 +38429,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91403},
+																	pos: position{line: 2899, col: 8, offset: 91430},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91176},
+																			pos: position{line: 2886, col: 12, offset: 91203},
 																			run: (*parser).callonListContinuationElement1923,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91177},
+																				pos: position{line: 2886, col: 13, offset: 91204},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91177},
+																						pos:        position{line: 2886, col: 13, offset: 91204},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91184},
+																						pos:        position{line: 2886, col: 20, offset: 91211},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91193},
+																						pos:        position{line: 2886, col: 29, offset: 91220},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -38241,9 +38459,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91353},
+																			pos: position{line: 2896, col: 8, offset: 91380},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91354,
+																				line: 2896, col: 9, offset: 91381,
 																			},
 																		},
 																	},
@@ -38264,33 +38482,33 @@ var g = &grammar{
 		},
 		{
 			name: "Callout",
-			pos:  position{line: 1711, col: 1, offset: 55318},
+			pos:  position{line: 1712, col: 1, offset: 55345},
 			expr: &actionExpr{
-				pos: position{line: 1713, col: 5, offset: 55396},
+				pos: position{line: 1714, col: 5, offset: 55423},
 				run: (*parser).callonCallout1,
 				expr: &seqExpr{
-					pos: position{line: 1713, col: 5, offset: 55396},
+					pos: position{line: 1714, col: 5, offset: 55423},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1713, col: 5, offset: 55396},
+							pos: position{line: 1714, col: 5, offset: 55423},
 							run: (*parser).callonCallout3,
 						},
 						&litMatcher{
-							pos:        position{line: 1716, col: 5, offset: 55463},
+							pos:        position{line: 1717, col: 5, offset: 55490},
 							val:        "<",
 							ignoreCase: false,
 							want:       "\"<\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1716, col: 9, offset: 55467},
+							pos:   position{line: 1717, col: 9, offset: 55494},
 							label: "ref",
 							expr: &actionExpr{
-								pos: position{line: 1716, col: 14, offset: 55472},
+								pos: position{line: 1717, col: 14, offset: 55499},
 								run: (*parser).callonCallout6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1716, col: 14, offset: 55472},
+									pos: position{line: 1717, col: 14, offset: 55499},
 									expr: &charClassMatcher{
-										pos:        position{line: 1716, col: 14, offset: 55472},
+										pos:        position{line: 1717, col: 14, offset: 55499},
 										val:        "[0-9]",
 										ranges:     []rune{'0', '9'},
 										ignoreCase: false,
@@ -38300,18 +38518,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1716, col: 62, offset: 55520},
+							pos:        position{line: 1717, col: 62, offset: 55547},
 							val:        ">",
 							ignoreCase: false,
 							want:       "\">\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1716, col: 66, offset: 55524},
+							pos: position{line: 1717, col: 66, offset: 55551},
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 10, offset: 91005},
+								pos: position{line: 2877, col: 10, offset: 91032},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2876, col: 10, offset: 91005},
+									pos:        position{line: 2877, col: 10, offset: 91032},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -38320,30 +38538,30 @@ var g = &grammar{
 							},
 						},
 						&andExpr{
-							pos: position{line: 1716, col: 73, offset: 55531},
+							pos: position{line: 1717, col: 73, offset: 55558},
 							expr: &choiceExpr{
-								pos: position{line: 1716, col: 75, offset: 55533},
+								pos: position{line: 1717, col: 75, offset: 55560},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2885, col: 12, offset: 91176},
+										pos: position{line: 2886, col: 12, offset: 91203},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2885, col: 13, offset: 91177},
+											pos: position{line: 2886, col: 13, offset: 91204},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2885, col: 13, offset: 91177},
+													pos:        position{line: 2886, col: 13, offset: 91204},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2885, col: 20, offset: 91184},
+													pos:        position{line: 2886, col: 20, offset: 91211},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2885, col: 29, offset: 91193},
+													pos:        position{line: 2886, col: 29, offset: 91220},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -38352,13 +38570,13 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2895, col: 8, offset: 91353},
+										pos: position{line: 2896, col: 8, offset: 91380},
 										expr: &anyMatcher{
-											line: 2895, col: 9, offset: 91354,
+											line: 2896, col: 9, offset: 91381,
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1716, col: 81, offset: 55539},
+										pos:  position{line: 1717, col: 81, offset: 55566},
 										name: "Callout",
 									},
 								},
@@ -38370,44 +38588,44 @@ var g = &grammar{
 		},
 		{
 			name: "ShortcutParagraph",
-			pos:  position{line: 1755, col: 1, offset: 56716},
+			pos:  position{line: 1756, col: 1, offset: 56743},
 			expr: &actionExpr{
-				pos: position{line: 1757, col: 5, offset: 56790},
+				pos: position{line: 1758, col: 5, offset: 56817},
 				run: (*parser).callonShortcutParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1757, col: 5, offset: 56790},
+					pos: position{line: 1758, col: 5, offset: 56817},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 1757, col: 5, offset: 56790},
+							pos: position{line: 1758, col: 5, offset: 56817},
 							expr: &seqExpr{
-								pos: position{line: 1757, col: 7, offset: 56792},
+								pos: position{line: 1758, col: 7, offset: 56819},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2766, col: 13, offset: 88079},
+										pos:        position{line: 2767, col: 13, offset: 88106},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
 										inverted:   false,
 									},
 									&notExpr{
-										pos: position{line: 1757, col: 16, offset: 56801},
+										pos: position{line: 1758, col: 16, offset: 56828},
 										expr: &seqExpr{
-											pos: position{line: 1757, col: 18, offset: 56803},
+											pos: position{line: 1758, col: 18, offset: 56830},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 1757, col: 19, offset: 56804},
+													pos:        position{line: 1758, col: 19, offset: 56831},
 													val:        "[.)]",
 													chars:      []rune{'.', ')'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2880, col: 11, offset: 91066},
+													pos: position{line: 2881, col: 11, offset: 91093},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2880, col: 11, offset: 91066},
+														pos: position{line: 2881, col: 11, offset: 91093},
 														expr: &charClassMatcher{
-															pos:        position{line: 2880, col: 11, offset: 91066},
+															pos:        position{line: 2881, col: 11, offset: 91093},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -38422,88 +38640,88 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1758, col: 5, offset: 56944},
+							pos:   position{line: 1759, col: 5, offset: 56971},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1758, col: 11, offset: 56950},
+								pos: position{line: 1759, col: 11, offset: 56977},
 								expr: &actionExpr{
-									pos: position{line: 1736, col: 5, offset: 56209},
+									pos: position{line: 1737, col: 5, offset: 56236},
 									run: (*parser).callonShortcutParagraph14,
 									expr: &seqExpr{
-										pos: position{line: 1736, col: 5, offset: 56209},
+										pos: position{line: 1737, col: 5, offset: 56236},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1736, col: 5, offset: 56209},
+												pos: position{line: 1737, col: 5, offset: 56236},
 												run: (*parser).callonShortcutParagraph16,
 											},
 											&labeledExpr{
-												pos:   position{line: 1739, col: 5, offset: 56272},
+												pos:   position{line: 1740, col: 5, offset: 56299},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1739, col: 12, offset: 56279},
+													pos: position{line: 1740, col: 12, offset: 56306},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1739, col: 12, offset: 56279},
+															pos: position{line: 1740, col: 12, offset: 56306},
 															run: (*parser).callonShortcutParagraph19,
 															expr: &litMatcher{
-																pos:        position{line: 1739, col: 12, offset: 56279},
+																pos:        position{line: 1740, col: 12, offset: 56306},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1741, col: 13, offset: 56335},
+															pos: position{line: 1742, col: 13, offset: 56362},
 															run: (*parser).callonShortcutParagraph21,
 															expr: &litMatcher{
-																pos:        position{line: 1741, col: 13, offset: 56335},
+																pos:        position{line: 1742, col: 13, offset: 56362},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1743, col: 13, offset: 56393},
+															pos: position{line: 1744, col: 13, offset: 56420},
 															run: (*parser).callonShortcutParagraph23,
 															expr: &litMatcher{
-																pos:        position{line: 1743, col: 13, offset: 56393},
+																pos:        position{line: 1744, col: 13, offset: 56420},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1745, col: 13, offset: 56461},
+															pos: position{line: 1746, col: 13, offset: 56488},
 															run: (*parser).callonShortcutParagraph25,
 															expr: &litMatcher{
-																pos:        position{line: 1745, col: 13, offset: 56461},
+																pos:        position{line: 1746, col: 13, offset: 56488},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1747, col: 13, offset: 56525},
+															pos: position{line: 1748, col: 13, offset: 56552},
 															run: (*parser).callonShortcutParagraph27,
 															expr: &litMatcher{
-																pos:        position{line: 1747, col: 13, offset: 56525},
+																pos:        position{line: 1748, col: 13, offset: 56552},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1749, col: 13, offset: 56589},
+															pos: position{line: 1750, col: 13, offset: 56616},
 															run: (*parser).callonShortcutParagraph29,
 															expr: &andExpr{
-																pos: position{line: 1749, col: 13, offset: 56589},
+																pos: position{line: 1750, col: 13, offset: 56616},
 																expr: &actionExpr{
-																	pos: position{line: 2880, col: 11, offset: 91066},
+																	pos: position{line: 2881, col: 11, offset: 91093},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2880, col: 11, offset: 91066},
+																		pos: position{line: 2881, col: 11, offset: 91093},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 11, offset: 91066},
+																			pos:        position{line: 2881, col: 11, offset: 91093},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -38517,17 +38735,17 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1751, col: 12, offset: 56659},
+												pos: position{line: 1752, col: 12, offset: 56686},
 												expr: &seqExpr{
-													pos: position{line: 1751, col: 14, offset: 56661},
+													pos: position{line: 1752, col: 14, offset: 56688},
 													exprs: []interface{}{
 														&zeroOrMoreExpr{
-															pos: position{line: 1751, col: 14, offset: 56661},
+															pos: position{line: 1752, col: 14, offset: 56688},
 															expr: &actionExpr{
-																pos: position{line: 2876, col: 10, offset: 91005},
+																pos: position{line: 2877, col: 10, offset: 91032},
 																run: (*parser).callonShortcutParagraph37,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2876, col: 10, offset: 91005},
+																	pos:        position{line: 2877, col: 10, offset: 91032},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -38536,28 +38754,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2898, col: 8, offset: 91403},
+															pos: position{line: 2899, col: 8, offset: 91430},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2885, col: 12, offset: 91176},
+																	pos: position{line: 2886, col: 12, offset: 91203},
 																	run: (*parser).callonShortcutParagraph40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2885, col: 13, offset: 91177},
+																		pos: position{line: 2886, col: 13, offset: 91204},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2885, col: 13, offset: 91177},
+																				pos:        position{line: 2886, col: 13, offset: 91204},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2885, col: 20, offset: 91184},
+																				pos:        position{line: 2886, col: 20, offset: 91211},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2885, col: 29, offset: 91193},
+																				pos:        position{line: 2886, col: 29, offset: 91220},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -38566,9 +38784,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2895, col: 8, offset: 91353},
+																	pos: position{line: 2896, col: 8, offset: 91380},
 																	expr: &anyMatcher{
-																		line: 2895, col: 9, offset: 91354,
+																		line: 2896, col: 9, offset: 91381,
 																	},
 																},
 															},
@@ -38582,24 +38800,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1759, col: 5, offset: 56972},
+							pos:   position{line: 1760, col: 5, offset: 56999},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1795, col: 5, offset: 58079},
+								pos: position{line: 1796, col: 5, offset: 58106},
 								run: (*parser).callonShortcutParagraph48,
 								expr: &seqExpr{
-									pos: position{line: 1795, col: 5, offset: 58079},
+									pos: position{line: 1796, col: 5, offset: 58106},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1795, col: 5, offset: 58079},
+											pos:   position{line: 1796, col: 5, offset: 58106},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2826, col: 14, offset: 89598},
+												pos: position{line: 2827, col: 14, offset: 89625},
 												run: (*parser).callonShortcutParagraph51,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2826, col: 14, offset: 89598},
+													pos: position{line: 2827, col: 14, offset: 89625},
 													expr: &charClassMatcher{
-														pos:        position{line: 2826, col: 14, offset: 89598},
+														pos:        position{line: 2827, col: 14, offset: 89625},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -38609,32 +38827,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1796, col: 5, offset: 58103},
+											pos: position{line: 1797, col: 5, offset: 58130},
 											run: (*parser).callonShortcutParagraph54,
 										},
 										&choiceExpr{
-											pos: position{line: 2898, col: 8, offset: 91403},
+											pos: position{line: 2899, col: 8, offset: 91430},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2885, col: 12, offset: 91176},
+													pos: position{line: 2886, col: 12, offset: 91203},
 													run: (*parser).callonShortcutParagraph56,
 													expr: &choiceExpr{
-														pos: position{line: 2885, col: 13, offset: 91177},
+														pos: position{line: 2886, col: 13, offset: 91204},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2885, col: 13, offset: 91177},
+																pos:        position{line: 2886, col: 13, offset: 91204},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2885, col: 20, offset: 91184},
+																pos:        position{line: 2886, col: 20, offset: 91211},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2885, col: 29, offset: 91193},
+																pos:        position{line: 2886, col: 29, offset: 91220},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -38643,9 +38861,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2895, col: 8, offset: 91353},
+													pos: position{line: 2896, col: 8, offset: 91380},
 													expr: &anyMatcher{
-														line: 2895, col: 9, offset: 91354,
+														line: 2896, col: 9, offset: 91381,
 													},
 												},
 											},
@@ -38655,47 +38873,47 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1760, col: 5, offset: 57006},
+							pos: position{line: 1761, col: 5, offset: 57033},
 							run: (*parser).callonShortcutParagraph63,
 						},
 						&labeledExpr{
-							pos:   position{line: 1767, col: 5, offset: 57336},
+							pos:   position{line: 1768, col: 5, offset: 57363},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1767, col: 16, offset: 57347},
+								pos: position{line: 1768, col: 16, offset: 57374},
 								expr: &actionExpr{
-									pos: position{line: 1768, col: 9, offset: 57357},
+									pos: position{line: 1769, col: 9, offset: 57384},
 									run: (*parser).callonShortcutParagraph66,
 									expr: &seqExpr{
-										pos: position{line: 1768, col: 9, offset: 57357},
+										pos: position{line: 1769, col: 9, offset: 57384},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2893, col: 11, offset: 91339},
+												pos: position{line: 2894, col: 11, offset: 91366},
 												expr: &anyMatcher{
-													line: 2893, col: 13, offset: 91341,
+													line: 2894, col: 13, offset: 91368,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1769, col: 9, offset: 57373},
+												pos: position{line: 1770, col: 9, offset: 57400},
 												expr: &actionExpr{
-													pos: position{line: 676, col: 14, offset: 21498},
+													pos: position{line: 677, col: 14, offset: 21525},
 													run: (*parser).callonShortcutParagraph71,
 													expr: &seqExpr{
-														pos: position{line: 676, col: 14, offset: 21498},
+														pos: position{line: 677, col: 14, offset: 21525},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2893, col: 11, offset: 91339},
+																pos: position{line: 2894, col: 11, offset: 91366},
 																expr: &anyMatcher{
-																	line: 2893, col: 13, offset: 91341,
+																	line: 2894, col: 13, offset: 91368,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 676, col: 21, offset: 21505},
+																pos: position{line: 677, col: 21, offset: 21532},
 																expr: &actionExpr{
-																	pos: position{line: 2876, col: 10, offset: 91005},
+																	pos: position{line: 2877, col: 10, offset: 91032},
 																	run: (*parser).callonShortcutParagraph76,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2876, col: 10, offset: 91005},
+																		pos:        position{line: 2877, col: 10, offset: 91032},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -38704,28 +38922,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2898, col: 8, offset: 91403},
+																pos: position{line: 2899, col: 8, offset: 91430},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2885, col: 12, offset: 91176},
+																		pos: position{line: 2886, col: 12, offset: 91203},
 																		run: (*parser).callonShortcutParagraph79,
 																		expr: &choiceExpr{
-																			pos: position{line: 2885, col: 13, offset: 91177},
+																			pos: position{line: 2886, col: 13, offset: 91204},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 13, offset: 91177},
+																					pos:        position{line: 2886, col: 13, offset: 91204},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 20, offset: 91184},
+																					pos:        position{line: 2886, col: 20, offset: 91211},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 29, offset: 91193},
+																					pos:        position{line: 2886, col: 29, offset: 91220},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -38734,9 +38952,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91353},
+																		pos: position{line: 2896, col: 8, offset: 91380},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91354,
+																			line: 2896, col: 9, offset: 91381,
 																		},
 																	},
 																},
@@ -38746,24 +38964,24 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1770, col: 9, offset: 57392},
+												pos: position{line: 1771, col: 9, offset: 57419},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1770, col: 10, offset: 57393},
+													pos:  position{line: 1771, col: 10, offset: 57420},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1771, col: 9, offset: 57417},
+												pos: position{line: 1772, col: 9, offset: 57444},
 												expr: &actionExpr{
-													pos: position{line: 723, col: 5, offset: 23051},
+													pos: position{line: 724, col: 5, offset: 23078},
 													run: (*parser).callonShortcutParagraph89,
 													expr: &seqExpr{
-														pos: position{line: 723, col: 5, offset: 23051},
+														pos: position{line: 724, col: 5, offset: 23078},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 723, col: 5, offset: 23051},
+																pos: position{line: 724, col: 5, offset: 23078},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2766, col: 13, offset: 88079},
+																	pos:        position{line: 2767, col: 13, offset: 88106},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -38771,36 +38989,36 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 724, col: 5, offset: 23081},
+																pos:   position{line: 725, col: 5, offset: 23108},
 																label: "delimiter",
 																expr: &choiceExpr{
-																	pos: position{line: 725, col: 9, offset: 23101},
+																	pos: position{line: 726, col: 9, offset: 23128},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 739, col: 5, offset: 23593},
+																			pos: position{line: 740, col: 5, offset: 23620},
 																			run: (*parser).callonShortcutParagraph95,
 																			expr: &seqExpr{
-																				pos: position{line: 739, col: 5, offset: 23593},
+																				pos: position{line: 740, col: 5, offset: 23620},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 739, col: 5, offset: 23593},
+																						pos:   position{line: 740, col: 5, offset: 23620},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 739, col: 16, offset: 23604},
+																							pos: position{line: 740, col: 16, offset: 23631},
 																							run: (*parser).callonShortcutParagraph98,
 																							expr: &seqExpr{
-																								pos: position{line: 739, col: 16, offset: 23604},
+																								pos: position{line: 740, col: 16, offset: 23631},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 739, col: 16, offset: 23604},
+																										pos:        position{line: 740, col: 16, offset: 23631},
 																										val:        "////",
 																										ignoreCase: false,
 																										want:       "\"////\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 739, col: 23, offset: 23611},
+																										pos: position{line: 740, col: 23, offset: 23638},
 																										expr: &litMatcher{
-																											pos:        position{line: 739, col: 23, offset: 23611},
+																											pos:        position{line: 740, col: 23, offset: 23638},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -38811,12 +39029,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 741, col: 8, offset: 23695},
+																						pos: position{line: 742, col: 8, offset: 23722},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 91005},
+																							pos: position{line: 2877, col: 10, offset: 91032},
 																							run: (*parser).callonShortcutParagraph104,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 91005},
+																								pos:        position{line: 2877, col: 10, offset: 91032},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38825,28 +39043,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91403},
+																						pos: position{line: 2899, col: 8, offset: 91430},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91176},
+																								pos: position{line: 2886, col: 12, offset: 91203},
 																								run: (*parser).callonShortcutParagraph107,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91177},
+																									pos: position{line: 2886, col: 13, offset: 91204},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91177},
+																											pos:        position{line: 2886, col: 13, offset: 91204},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91184},
+																											pos:        position{line: 2886, col: 20, offset: 91211},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91193},
+																											pos:        position{line: 2886, col: 29, offset: 91220},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38855,9 +39073,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91353},
+																								pos: position{line: 2896, col: 8, offset: 91380},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91354,
+																									line: 2896, col: 9, offset: 91381,
 																								},
 																							},
 																						},
@@ -38866,30 +39084,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 746, col: 5, offset: 23841},
+																			pos: position{line: 747, col: 5, offset: 23868},
 																			run: (*parser).callonShortcutParagraph114,
 																			expr: &seqExpr{
-																				pos: position{line: 746, col: 5, offset: 23841},
+																				pos: position{line: 747, col: 5, offset: 23868},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 746, col: 5, offset: 23841},
+																						pos:   position{line: 747, col: 5, offset: 23868},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 746, col: 16, offset: 23852},
+																							pos: position{line: 747, col: 16, offset: 23879},
 																							run: (*parser).callonShortcutParagraph117,
 																							expr: &seqExpr{
-																								pos: position{line: 746, col: 16, offset: 23852},
+																								pos: position{line: 747, col: 16, offset: 23879},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 746, col: 16, offset: 23852},
+																										pos:        position{line: 747, col: 16, offset: 23879},
 																										val:        "====",
 																										ignoreCase: false,
 																										want:       "\"====\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 746, col: 23, offset: 23859},
+																										pos: position{line: 747, col: 23, offset: 23886},
 																										expr: &litMatcher{
-																											pos:        position{line: 746, col: 23, offset: 23859},
+																											pos:        position{line: 747, col: 23, offset: 23886},
 																											val:        "=",
 																											ignoreCase: false,
 																											want:       "\"=\"",
@@ -38900,12 +39118,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 748, col: 8, offset: 23943},
+																						pos: position{line: 749, col: 8, offset: 23970},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 91005},
+																							pos: position{line: 2877, col: 10, offset: 91032},
 																							run: (*parser).callonShortcutParagraph123,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 91005},
+																								pos:        position{line: 2877, col: 10, offset: 91032},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38914,28 +39132,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91403},
+																						pos: position{line: 2899, col: 8, offset: 91430},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91176},
+																								pos: position{line: 2886, col: 12, offset: 91203},
 																								run: (*parser).callonShortcutParagraph126,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91177},
+																									pos: position{line: 2886, col: 13, offset: 91204},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91177},
+																											pos:        position{line: 2886, col: 13, offset: 91204},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91184},
+																											pos:        position{line: 2886, col: 20, offset: 91211},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91193},
+																											pos:        position{line: 2886, col: 29, offset: 91220},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38944,9 +39162,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91353},
+																								pos: position{line: 2896, col: 8, offset: 91380},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91354,
+																									line: 2896, col: 9, offset: 91381,
 																								},
 																							},
 																						},
@@ -38955,27 +39173,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 759, col: 26, offset: 24329},
+																			pos: position{line: 760, col: 26, offset: 24356},
 																			run: (*parser).callonShortcutParagraph133,
 																			expr: &seqExpr{
-																				pos: position{line: 759, col: 26, offset: 24329},
+																				pos: position{line: 760, col: 26, offset: 24356},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 759, col: 26, offset: 24329},
+																						pos:        position{line: 760, col: 26, offset: 24356},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 759, col: 32, offset: 24335},
+																						pos:   position{line: 760, col: 32, offset: 24362},
 																						label: "language",
 																						expr: &actionExpr{
-																							pos: position{line: 763, col: 13, offset: 24465},
+																							pos: position{line: 764, col: 13, offset: 24492},
 																							run: (*parser).callonShortcutParagraph137,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 763, col: 14, offset: 24466},
+																								pos: position{line: 764, col: 14, offset: 24493},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 763, col: 14, offset: 24466},
+																									pos:        position{line: 764, col: 14, offset: 24493},
 																									val:        "[^\\r\\n`\\t ]",
 																									chars:      []rune{'\r', '\n', '`', '\t', ' '},
 																									ignoreCase: false,
@@ -38985,12 +39203,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 759, col: 52, offset: 24355},
+																						pos: position{line: 760, col: 52, offset: 24382},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 91005},
+																							pos: position{line: 2877, col: 10, offset: 91032},
 																							run: (*parser).callonShortcutParagraph141,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 91005},
+																								pos:        position{line: 2877, col: 10, offset: 91032},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38999,28 +39217,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91403},
+																						pos: position{line: 2899, col: 8, offset: 91430},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91176},
+																								pos: position{line: 2886, col: 12, offset: 91203},
 																								run: (*parser).callonShortcutParagraph144,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91177},
+																									pos: position{line: 2886, col: 13, offset: 91204},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91177},
+																											pos:        position{line: 2886, col: 13, offset: 91204},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91184},
+																											pos:        position{line: 2886, col: 20, offset: 91211},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91193},
+																											pos:        position{line: 2886, col: 29, offset: 91220},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39029,9 +39247,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91353},
+																								pos: position{line: 2896, col: 8, offset: 91380},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91354,
+																									line: 2896, col: 9, offset: 91381,
 																								},
 																							},
 																						},
@@ -39040,30 +39258,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 753, col: 5, offset: 24088},
+																			pos: position{line: 754, col: 5, offset: 24115},
 																			run: (*parser).callonShortcutParagraph151,
 																			expr: &seqExpr{
-																				pos: position{line: 753, col: 5, offset: 24088},
+																				pos: position{line: 754, col: 5, offset: 24115},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 753, col: 5, offset: 24088},
+																						pos:   position{line: 754, col: 5, offset: 24115},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 753, col: 16, offset: 24099},
+																							pos: position{line: 754, col: 16, offset: 24126},
 																							run: (*parser).callonShortcutParagraph154,
 																							expr: &seqExpr{
-																								pos: position{line: 753, col: 16, offset: 24099},
+																								pos: position{line: 754, col: 16, offset: 24126},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 753, col: 16, offset: 24099},
+																										pos:        position{line: 754, col: 16, offset: 24126},
 																										val:        "```",
 																										ignoreCase: false,
 																										want:       "\"```\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 753, col: 22, offset: 24105},
+																										pos: position{line: 754, col: 22, offset: 24132},
 																										expr: &litMatcher{
-																											pos:        position{line: 753, col: 22, offset: 24105},
+																											pos:        position{line: 754, col: 22, offset: 24132},
 																											val:        "`",
 																											ignoreCase: false,
 																											want:       "\"`\"",
@@ -39074,12 +39292,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 755, col: 8, offset: 24189},
+																						pos: position{line: 756, col: 8, offset: 24216},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 91005},
+																							pos: position{line: 2877, col: 10, offset: 91032},
 																							run: (*parser).callonShortcutParagraph160,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 91005},
+																								pos:        position{line: 2877, col: 10, offset: 91032},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39088,28 +39306,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91403},
+																						pos: position{line: 2899, col: 8, offset: 91430},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91176},
+																								pos: position{line: 2886, col: 12, offset: 91203},
 																								run: (*parser).callonShortcutParagraph163,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91177},
+																									pos: position{line: 2886, col: 13, offset: 91204},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91177},
+																											pos:        position{line: 2886, col: 13, offset: 91204},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91184},
+																											pos:        position{line: 2886, col: 20, offset: 91211},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91193},
+																											pos:        position{line: 2886, col: 29, offset: 91220},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39118,9 +39336,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91353},
+																								pos: position{line: 2896, col: 8, offset: 91380},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91354,
+																									line: 2896, col: 9, offset: 91381,
 																								},
 																							},
 																						},
@@ -39129,30 +39347,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 768, col: 5, offset: 24630},
+																			pos: position{line: 769, col: 5, offset: 24657},
 																			run: (*parser).callonShortcutParagraph170,
 																			expr: &seqExpr{
-																				pos: position{line: 768, col: 5, offset: 24630},
+																				pos: position{line: 769, col: 5, offset: 24657},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 768, col: 5, offset: 24630},
+																						pos:   position{line: 769, col: 5, offset: 24657},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 768, col: 16, offset: 24641},
+																							pos: position{line: 769, col: 16, offset: 24668},
 																							run: (*parser).callonShortcutParagraph173,
 																							expr: &seqExpr{
-																								pos: position{line: 768, col: 16, offset: 24641},
+																								pos: position{line: 769, col: 16, offset: 24668},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 768, col: 16, offset: 24641},
+																										pos:        position{line: 769, col: 16, offset: 24668},
 																										val:        "----",
 																										ignoreCase: false,
 																										want:       "\"----\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 768, col: 23, offset: 24648},
+																										pos: position{line: 769, col: 23, offset: 24675},
 																										expr: &litMatcher{
-																											pos:        position{line: 768, col: 23, offset: 24648},
+																											pos:        position{line: 769, col: 23, offset: 24675},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
@@ -39163,12 +39381,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 770, col: 8, offset: 24732},
+																						pos: position{line: 771, col: 8, offset: 24759},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 91005},
+																							pos: position{line: 2877, col: 10, offset: 91032},
 																							run: (*parser).callonShortcutParagraph179,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 91005},
+																								pos:        position{line: 2877, col: 10, offset: 91032},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39177,28 +39395,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91403},
+																						pos: position{line: 2899, col: 8, offset: 91430},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91176},
+																								pos: position{line: 2886, col: 12, offset: 91203},
 																								run: (*parser).callonShortcutParagraph182,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91177},
+																									pos: position{line: 2886, col: 13, offset: 91204},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91177},
+																											pos:        position{line: 2886, col: 13, offset: 91204},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91184},
+																											pos:        position{line: 2886, col: 20, offset: 91211},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91193},
+																											pos:        position{line: 2886, col: 29, offset: 91220},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39207,9 +39425,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91353},
+																								pos: position{line: 2896, col: 8, offset: 91380},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91354,
+																									line: 2896, col: 9, offset: 91381,
 																								},
 																							},
 																						},
@@ -39218,30 +39436,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 782, col: 5, offset: 25106},
+																			pos: position{line: 783, col: 5, offset: 25133},
 																			run: (*parser).callonShortcutParagraph189,
 																			expr: &seqExpr{
-																				pos: position{line: 782, col: 5, offset: 25106},
+																				pos: position{line: 783, col: 5, offset: 25133},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 782, col: 5, offset: 25106},
+																						pos:   position{line: 783, col: 5, offset: 25133},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 782, col: 16, offset: 25117},
+																							pos: position{line: 783, col: 16, offset: 25144},
 																							run: (*parser).callonShortcutParagraph192,
 																							expr: &seqExpr{
-																								pos: position{line: 782, col: 16, offset: 25117},
+																								pos: position{line: 783, col: 16, offset: 25144},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 782, col: 16, offset: 25117},
+																										pos:        position{line: 783, col: 16, offset: 25144},
 																										val:        "....",
 																										ignoreCase: false,
 																										want:       "\"....\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 782, col: 23, offset: 25124},
+																										pos: position{line: 783, col: 23, offset: 25151},
 																										expr: &litMatcher{
-																											pos:        position{line: 782, col: 23, offset: 25124},
+																											pos:        position{line: 783, col: 23, offset: 25151},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -39252,12 +39470,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 784, col: 8, offset: 25208},
+																						pos: position{line: 785, col: 8, offset: 25235},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 91005},
+																							pos: position{line: 2877, col: 10, offset: 91032},
 																							run: (*parser).callonShortcutParagraph198,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 91005},
+																								pos:        position{line: 2877, col: 10, offset: 91032},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39266,28 +39484,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91403},
+																						pos: position{line: 2899, col: 8, offset: 91430},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91176},
+																								pos: position{line: 2886, col: 12, offset: 91203},
 																								run: (*parser).callonShortcutParagraph201,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91177},
+																									pos: position{line: 2886, col: 13, offset: 91204},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91177},
+																											pos:        position{line: 2886, col: 13, offset: 91204},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91184},
+																											pos:        position{line: 2886, col: 20, offset: 91211},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91193},
+																											pos:        position{line: 2886, col: 29, offset: 91220},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39296,9 +39514,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91353},
+																								pos: position{line: 2896, col: 8, offset: 91380},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91354,
+																									line: 2896, col: 9, offset: 91381,
 																								},
 																							},
 																						},
@@ -39307,30 +39525,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 789, col: 5, offset: 25358},
+																			pos: position{line: 790, col: 5, offset: 25385},
 																			run: (*parser).callonShortcutParagraph208,
 																			expr: &seqExpr{
-																				pos: position{line: 789, col: 5, offset: 25358},
+																				pos: position{line: 790, col: 5, offset: 25385},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 789, col: 5, offset: 25358},
+																						pos:   position{line: 790, col: 5, offset: 25385},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 789, col: 16, offset: 25369},
+																							pos: position{line: 790, col: 16, offset: 25396},
 																							run: (*parser).callonShortcutParagraph211,
 																							expr: &seqExpr{
-																								pos: position{line: 789, col: 16, offset: 25369},
+																								pos: position{line: 790, col: 16, offset: 25396},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 789, col: 16, offset: 25369},
+																										pos:        position{line: 790, col: 16, offset: 25396},
 																										val:        "++++",
 																										ignoreCase: false,
 																										want:       "\"++++\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 789, col: 23, offset: 25376},
+																										pos: position{line: 790, col: 23, offset: 25403},
 																										expr: &litMatcher{
-																											pos:        position{line: 789, col: 23, offset: 25376},
+																											pos:        position{line: 790, col: 23, offset: 25403},
 																											val:        "+",
 																											ignoreCase: false,
 																											want:       "\"+\"",
@@ -39341,12 +39559,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 791, col: 8, offset: 25460},
+																						pos: position{line: 792, col: 8, offset: 25487},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 91005},
+																							pos: position{line: 2877, col: 10, offset: 91032},
 																							run: (*parser).callonShortcutParagraph217,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 91005},
+																								pos:        position{line: 2877, col: 10, offset: 91032},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39355,28 +39573,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91403},
+																						pos: position{line: 2899, col: 8, offset: 91430},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91176},
+																								pos: position{line: 2886, col: 12, offset: 91203},
 																								run: (*parser).callonShortcutParagraph220,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91177},
+																									pos: position{line: 2886, col: 13, offset: 91204},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91177},
+																											pos:        position{line: 2886, col: 13, offset: 91204},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91184},
+																											pos:        position{line: 2886, col: 20, offset: 91211},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91193},
+																											pos:        position{line: 2886, col: 29, offset: 91220},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39385,9 +39603,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91353},
+																								pos: position{line: 2896, col: 8, offset: 91380},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91354,
+																									line: 2896, col: 9, offset: 91381,
 																								},
 																							},
 																						},
@@ -39396,30 +39614,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 796, col: 5, offset: 25608},
+																			pos: position{line: 797, col: 5, offset: 25635},
 																			run: (*parser).callonShortcutParagraph227,
 																			expr: &seqExpr{
-																				pos: position{line: 796, col: 5, offset: 25608},
+																				pos: position{line: 797, col: 5, offset: 25635},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 796, col: 5, offset: 25608},
+																						pos:   position{line: 797, col: 5, offset: 25635},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 796, col: 16, offset: 25619},
+																							pos: position{line: 797, col: 16, offset: 25646},
 																							run: (*parser).callonShortcutParagraph230,
 																							expr: &seqExpr{
-																								pos: position{line: 796, col: 16, offset: 25619},
+																								pos: position{line: 797, col: 16, offset: 25646},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 796, col: 16, offset: 25619},
+																										pos:        position{line: 797, col: 16, offset: 25646},
 																										val:        "____",
 																										ignoreCase: false,
 																										want:       "\"____\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 796, col: 23, offset: 25626},
+																										pos: position{line: 797, col: 23, offset: 25653},
 																										expr: &litMatcher{
-																											pos:        position{line: 796, col: 23, offset: 25626},
+																											pos:        position{line: 797, col: 23, offset: 25653},
 																											val:        "_",
 																											ignoreCase: false,
 																											want:       "\"_\"",
@@ -39430,12 +39648,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 798, col: 8, offset: 25710},
+																						pos: position{line: 799, col: 8, offset: 25737},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 91005},
+																							pos: position{line: 2877, col: 10, offset: 91032},
 																							run: (*parser).callonShortcutParagraph236,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 91005},
+																								pos:        position{line: 2877, col: 10, offset: 91032},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39444,28 +39662,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91403},
+																						pos: position{line: 2899, col: 8, offset: 91430},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91176},
+																								pos: position{line: 2886, col: 12, offset: 91203},
 																								run: (*parser).callonShortcutParagraph239,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91177},
+																									pos: position{line: 2886, col: 13, offset: 91204},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91177},
+																											pos:        position{line: 2886, col: 13, offset: 91204},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91184},
+																											pos:        position{line: 2886, col: 20, offset: 91211},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91193},
+																											pos:        position{line: 2886, col: 29, offset: 91220},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39474,9 +39692,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91353},
+																								pos: position{line: 2896, col: 8, offset: 91380},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91354,
+																									line: 2896, col: 9, offset: 91381,
 																								},
 																							},
 																						},
@@ -39485,30 +39703,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 803, col: 5, offset: 25854},
+																			pos: position{line: 804, col: 5, offset: 25881},
 																			run: (*parser).callonShortcutParagraph246,
 																			expr: &seqExpr{
-																				pos: position{line: 803, col: 5, offset: 25854},
+																				pos: position{line: 804, col: 5, offset: 25881},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 803, col: 5, offset: 25854},
+																						pos:   position{line: 804, col: 5, offset: 25881},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 803, col: 16, offset: 25865},
+																							pos: position{line: 804, col: 16, offset: 25892},
 																							run: (*parser).callonShortcutParagraph249,
 																							expr: &seqExpr{
-																								pos: position{line: 803, col: 16, offset: 25865},
+																								pos: position{line: 804, col: 16, offset: 25892},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 803, col: 16, offset: 25865},
+																										pos:        position{line: 804, col: 16, offset: 25892},
 																										val:        "****",
 																										ignoreCase: false,
 																										want:       "\"****\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 803, col: 23, offset: 25872},
+																										pos: position{line: 804, col: 23, offset: 25899},
 																										expr: &litMatcher{
-																											pos:        position{line: 803, col: 23, offset: 25872},
+																											pos:        position{line: 804, col: 23, offset: 25899},
 																											val:        "*",
 																											ignoreCase: false,
 																											want:       "\"*\"",
@@ -39519,12 +39737,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 805, col: 8, offset: 25956},
+																						pos: position{line: 806, col: 8, offset: 25983},
 																						expr: &actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 91005},
+																							pos: position{line: 2877, col: 10, offset: 91032},
 																							run: (*parser).callonShortcutParagraph255,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 91005},
+																								pos:        position{line: 2877, col: 10, offset: 91032},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39533,28 +39751,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2898, col: 8, offset: 91403},
+																						pos: position{line: 2899, col: 8, offset: 91430},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2885, col: 12, offset: 91176},
+																								pos: position{line: 2886, col: 12, offset: 91203},
 																								run: (*parser).callonShortcutParagraph258,
 																								expr: &choiceExpr{
-																									pos: position{line: 2885, col: 13, offset: 91177},
+																									pos: position{line: 2886, col: 13, offset: 91204},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 13, offset: 91177},
+																											pos:        position{line: 2886, col: 13, offset: 91204},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 20, offset: 91184},
+																											pos:        position{line: 2886, col: 20, offset: 91211},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2885, col: 29, offset: 91193},
+																											pos:        position{line: 2886, col: 29, offset: 91220},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39563,9 +39781,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2895, col: 8, offset: 91353},
+																								pos: position{line: 2896, col: 8, offset: 91380},
 																								expr: &anyMatcher{
-																									line: 2895, col: 9, offset: 91354,
+																									line: 2896, col: 9, offset: 91381,
 																								},
 																							},
 																						},
@@ -39581,23 +39799,23 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1772, col: 9, offset: 57441},
+												pos: position{line: 1773, col: 9, offset: 57468},
 												expr: &seqExpr{
-													pos: position{line: 1546, col: 27, offset: 50074},
+													pos: position{line: 1547, col: 27, offset: 50101},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 1546, col: 27, offset: 50074},
+															pos:        position{line: 1547, col: 27, offset: 50101},
 															val:        "+",
 															ignoreCase: false,
 															want:       "\"+\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 1546, col: 31, offset: 50078},
+															pos: position{line: 1547, col: 31, offset: 50105},
 															expr: &actionExpr{
-																pos: position{line: 2876, col: 10, offset: 91005},
+																pos: position{line: 2877, col: 10, offset: 91032},
 																run: (*parser).callonShortcutParagraph269,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2876, col: 10, offset: 91005},
+																	pos:        position{line: 2877, col: 10, offset: 91032},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -39606,25 +39824,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91176},
+															pos: position{line: 2886, col: 12, offset: 91203},
 															run: (*parser).callonShortcutParagraph271,
 															expr: &choiceExpr{
-																pos: position{line: 2885, col: 13, offset: 91177},
+																pos: position{line: 2886, col: 13, offset: 91204},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 13, offset: 91177},
+																		pos:        position{line: 2886, col: 13, offset: 91204},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 20, offset: 91184},
+																		pos:        position{line: 2886, col: 20, offset: 91211},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 29, offset: 91193},
+																		pos:        position{line: 2886, col: 29, offset: 91220},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -39636,42 +39854,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1773, col: 9, offset: 57473},
+												pos:   position{line: 1774, col: 9, offset: 57500},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1773, col: 15, offset: 57479},
+													pos: position{line: 1774, col: 15, offset: 57506},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2483, col: 22, offset: 79891},
+															pos: position{line: 2484, col: 22, offset: 79918},
 															run: (*parser).callonShortcutParagraph278,
 															expr: &seqExpr{
-																pos: position{line: 2483, col: 22, offset: 79891},
+																pos: position{line: 2484, col: 22, offset: 79918},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2488, col: 31, offset: 80112},
+																		pos:        position{line: 2489, col: 31, offset: 80139},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2488, col: 36, offset: 80117},
+																		pos: position{line: 2489, col: 36, offset: 80144},
 																		expr: &litMatcher{
-																			pos:        position{line: 2488, col: 37, offset: 80118},
+																			pos:        position{line: 2489, col: 37, offset: 80145},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2483, col: 49, offset: 79918},
+																		pos:   position{line: 2484, col: 49, offset: 79945},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2822, col: 13, offset: 89531},
+																			pos: position{line: 2823, col: 13, offset: 89558},
 																			run: (*parser).callonShortcutParagraph284,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2822, col: 13, offset: 89531},
+																				pos: position{line: 2823, col: 13, offset: 89558},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2822, col: 13, offset: 89531},
+																					pos:        position{line: 2823, col: 13, offset: 89558},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39681,28 +39899,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91403},
+																		pos: position{line: 2899, col: 8, offset: 91430},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91176},
+																				pos: position{line: 2886, col: 12, offset: 91203},
 																				run: (*parser).callonShortcutParagraph288,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91177},
+																					pos: position{line: 2886, col: 13, offset: 91204},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91177},
+																							pos:        position{line: 2886, col: 13, offset: 91204},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91184},
+																							pos:        position{line: 2886, col: 20, offset: 91211},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91193},
+																							pos:        position{line: 2886, col: 29, offset: 91220},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39711,9 +39929,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91353},
+																				pos: position{line: 2896, col: 8, offset: 91380},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91354,
+																					line: 2896, col: 9, offset: 91381,
 																				},
 																			},
 																		},
@@ -39722,21 +39940,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1795, col: 5, offset: 58079},
+															pos: position{line: 1796, col: 5, offset: 58106},
 															run: (*parser).callonShortcutParagraph295,
 															expr: &seqExpr{
-																pos: position{line: 1795, col: 5, offset: 58079},
+																pos: position{line: 1796, col: 5, offset: 58106},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1795, col: 5, offset: 58079},
+																		pos:   position{line: 1796, col: 5, offset: 58106},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2826, col: 14, offset: 89598},
+																			pos: position{line: 2827, col: 14, offset: 89625},
 																			run: (*parser).callonShortcutParagraph298,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2826, col: 14, offset: 89598},
+																				pos: position{line: 2827, col: 14, offset: 89625},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2826, col: 14, offset: 89598},
+																					pos:        position{line: 2827, col: 14, offset: 89625},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39746,32 +39964,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1796, col: 5, offset: 58103},
+																		pos: position{line: 1797, col: 5, offset: 58130},
 																		run: (*parser).callonShortcutParagraph301,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91403},
+																		pos: position{line: 2899, col: 8, offset: 91430},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91176},
+																				pos: position{line: 2886, col: 12, offset: 91203},
 																				run: (*parser).callonShortcutParagraph303,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91177},
+																					pos: position{line: 2886, col: 13, offset: 91204},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91177},
+																							pos:        position{line: 2886, col: 13, offset: 91204},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91184},
+																							pos:        position{line: 2886, col: 20, offset: 91211},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91193},
+																							pos:        position{line: 2886, col: 29, offset: 91220},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39780,9 +39998,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91353},
+																				pos: position{line: 2896, col: 8, offset: 91380},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91354,
+																					line: 2896, col: 9, offset: 91381,
 																				},
 																			},
 																		},
@@ -39804,96 +40022,96 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraph",
-			pos:  position{line: 1780, col: 1, offset: 57683},
+			pos:  position{line: 1781, col: 1, offset: 57710},
 			expr: &actionExpr{
-				pos: position{line: 1781, col: 5, offset: 57701},
+				pos: position{line: 1782, col: 5, offset: 57728},
 				run: (*parser).callonParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1781, col: 5, offset: 57701},
+					pos: position{line: 1782, col: 5, offset: 57728},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1781, col: 5, offset: 57701},
+							pos:   position{line: 1782, col: 5, offset: 57728},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1781, col: 11, offset: 57707},
+								pos: position{line: 1782, col: 11, offset: 57734},
 								expr: &actionExpr{
-									pos: position{line: 1736, col: 5, offset: 56209},
+									pos: position{line: 1737, col: 5, offset: 56236},
 									run: (*parser).callonParagraph5,
 									expr: &seqExpr{
-										pos: position{line: 1736, col: 5, offset: 56209},
+										pos: position{line: 1737, col: 5, offset: 56236},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1736, col: 5, offset: 56209},
+												pos: position{line: 1737, col: 5, offset: 56236},
 												run: (*parser).callonParagraph7,
 											},
 											&labeledExpr{
-												pos:   position{line: 1739, col: 5, offset: 56272},
+												pos:   position{line: 1740, col: 5, offset: 56299},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1739, col: 12, offset: 56279},
+													pos: position{line: 1740, col: 12, offset: 56306},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1739, col: 12, offset: 56279},
+															pos: position{line: 1740, col: 12, offset: 56306},
 															run: (*parser).callonParagraph10,
 															expr: &litMatcher{
-																pos:        position{line: 1739, col: 12, offset: 56279},
+																pos:        position{line: 1740, col: 12, offset: 56306},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1741, col: 13, offset: 56335},
+															pos: position{line: 1742, col: 13, offset: 56362},
 															run: (*parser).callonParagraph12,
 															expr: &litMatcher{
-																pos:        position{line: 1741, col: 13, offset: 56335},
+																pos:        position{line: 1742, col: 13, offset: 56362},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1743, col: 13, offset: 56393},
+															pos: position{line: 1744, col: 13, offset: 56420},
 															run: (*parser).callonParagraph14,
 															expr: &litMatcher{
-																pos:        position{line: 1743, col: 13, offset: 56393},
+																pos:        position{line: 1744, col: 13, offset: 56420},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1745, col: 13, offset: 56461},
+															pos: position{line: 1746, col: 13, offset: 56488},
 															run: (*parser).callonParagraph16,
 															expr: &litMatcher{
-																pos:        position{line: 1745, col: 13, offset: 56461},
+																pos:        position{line: 1746, col: 13, offset: 56488},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1747, col: 13, offset: 56525},
+															pos: position{line: 1748, col: 13, offset: 56552},
 															run: (*parser).callonParagraph18,
 															expr: &litMatcher{
-																pos:        position{line: 1747, col: 13, offset: 56525},
+																pos:        position{line: 1748, col: 13, offset: 56552},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1749, col: 13, offset: 56589},
+															pos: position{line: 1750, col: 13, offset: 56616},
 															run: (*parser).callonParagraph20,
 															expr: &andExpr{
-																pos: position{line: 1749, col: 13, offset: 56589},
+																pos: position{line: 1750, col: 13, offset: 56616},
 																expr: &actionExpr{
-																	pos: position{line: 2880, col: 11, offset: 91066},
+																	pos: position{line: 2881, col: 11, offset: 91093},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2880, col: 11, offset: 91066},
+																		pos: position{line: 2881, col: 11, offset: 91093},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 11, offset: 91066},
+																			pos:        position{line: 2881, col: 11, offset: 91093},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -39907,17 +40125,17 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1751, col: 12, offset: 56659},
+												pos: position{line: 1752, col: 12, offset: 56686},
 												expr: &seqExpr{
-													pos: position{line: 1751, col: 14, offset: 56661},
+													pos: position{line: 1752, col: 14, offset: 56688},
 													exprs: []interface{}{
 														&zeroOrMoreExpr{
-															pos: position{line: 1751, col: 14, offset: 56661},
+															pos: position{line: 1752, col: 14, offset: 56688},
 															expr: &actionExpr{
-																pos: position{line: 2876, col: 10, offset: 91005},
+																pos: position{line: 2877, col: 10, offset: 91032},
 																run: (*parser).callonParagraph28,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2876, col: 10, offset: 91005},
+																	pos:        position{line: 2877, col: 10, offset: 91032},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -39926,28 +40144,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2898, col: 8, offset: 91403},
+															pos: position{line: 2899, col: 8, offset: 91430},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2885, col: 12, offset: 91176},
+																	pos: position{line: 2886, col: 12, offset: 91203},
 																	run: (*parser).callonParagraph31,
 																	expr: &choiceExpr{
-																		pos: position{line: 2885, col: 13, offset: 91177},
+																		pos: position{line: 2886, col: 13, offset: 91204},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2885, col: 13, offset: 91177},
+																				pos:        position{line: 2886, col: 13, offset: 91204},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2885, col: 20, offset: 91184},
+																				pos:        position{line: 2886, col: 20, offset: 91211},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2885, col: 29, offset: 91193},
+																				pos:        position{line: 2886, col: 29, offset: 91220},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -39956,9 +40174,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2895, col: 8, offset: 91353},
+																	pos: position{line: 2896, col: 8, offset: 91380},
 																	expr: &anyMatcher{
-																		line: 2895, col: 9, offset: 91354,
+																		line: 2896, col: 9, offset: 91381,
 																	},
 																},
 															},
@@ -39972,24 +40190,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1782, col: 5, offset: 57730},
+							pos:   position{line: 1783, col: 5, offset: 57757},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1795, col: 5, offset: 58079},
+								pos: position{line: 1796, col: 5, offset: 58106},
 								run: (*parser).callonParagraph39,
 								expr: &seqExpr{
-									pos: position{line: 1795, col: 5, offset: 58079},
+									pos: position{line: 1796, col: 5, offset: 58106},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1795, col: 5, offset: 58079},
+											pos:   position{line: 1796, col: 5, offset: 58106},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2826, col: 14, offset: 89598},
+												pos: position{line: 2827, col: 14, offset: 89625},
 												run: (*parser).callonParagraph42,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2826, col: 14, offset: 89598},
+													pos: position{line: 2827, col: 14, offset: 89625},
 													expr: &charClassMatcher{
-														pos:        position{line: 2826, col: 14, offset: 89598},
+														pos:        position{line: 2827, col: 14, offset: 89625},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -39999,32 +40217,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1796, col: 5, offset: 58103},
+											pos: position{line: 1797, col: 5, offset: 58130},
 											run: (*parser).callonParagraph45,
 										},
 										&choiceExpr{
-											pos: position{line: 2898, col: 8, offset: 91403},
+											pos: position{line: 2899, col: 8, offset: 91430},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2885, col: 12, offset: 91176},
+													pos: position{line: 2886, col: 12, offset: 91203},
 													run: (*parser).callonParagraph47,
 													expr: &choiceExpr{
-														pos: position{line: 2885, col: 13, offset: 91177},
+														pos: position{line: 2886, col: 13, offset: 91204},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2885, col: 13, offset: 91177},
+																pos:        position{line: 2886, col: 13, offset: 91204},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2885, col: 20, offset: 91184},
+																pos:        position{line: 2886, col: 20, offset: 91211},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2885, col: 29, offset: 91193},
+																pos:        position{line: 2886, col: 29, offset: 91220},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -40033,9 +40251,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2895, col: 8, offset: 91353},
+													pos: position{line: 2896, col: 8, offset: 91380},
 													expr: &anyMatcher{
-														line: 2895, col: 9, offset: 91354,
+														line: 2896, col: 9, offset: 91381,
 													},
 												},
 											},
@@ -40045,43 +40263,43 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1783, col: 5, offset: 57764},
+							pos:   position{line: 1784, col: 5, offset: 57791},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1783, col: 16, offset: 57775},
+								pos: position{line: 1784, col: 16, offset: 57802},
 								expr: &actionExpr{
-									pos: position{line: 1784, col: 9, offset: 57785},
+									pos: position{line: 1785, col: 9, offset: 57812},
 									run: (*parser).callonParagraph56,
 									expr: &seqExpr{
-										pos: position{line: 1784, col: 9, offset: 57785},
+										pos: position{line: 1785, col: 9, offset: 57812},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2893, col: 11, offset: 91339},
+												pos: position{line: 2894, col: 11, offset: 91366},
 												expr: &anyMatcher{
-													line: 2893, col: 13, offset: 91341,
+													line: 2894, col: 13, offset: 91368,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1785, col: 9, offset: 57800},
+												pos: position{line: 1786, col: 9, offset: 57827},
 												expr: &actionExpr{
-													pos: position{line: 676, col: 14, offset: 21498},
+													pos: position{line: 677, col: 14, offset: 21525},
 													run: (*parser).callonParagraph61,
 													expr: &seqExpr{
-														pos: position{line: 676, col: 14, offset: 21498},
+														pos: position{line: 677, col: 14, offset: 21525},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2893, col: 11, offset: 91339},
+																pos: position{line: 2894, col: 11, offset: 91366},
 																expr: &anyMatcher{
-																	line: 2893, col: 13, offset: 91341,
+																	line: 2894, col: 13, offset: 91368,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 676, col: 21, offset: 21505},
+																pos: position{line: 677, col: 21, offset: 21532},
 																expr: &actionExpr{
-																	pos: position{line: 2876, col: 10, offset: 91005},
+																	pos: position{line: 2877, col: 10, offset: 91032},
 																	run: (*parser).callonParagraph66,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2876, col: 10, offset: 91005},
+																		pos:        position{line: 2877, col: 10, offset: 91032},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -40090,28 +40308,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2898, col: 8, offset: 91403},
+																pos: position{line: 2899, col: 8, offset: 91430},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2885, col: 12, offset: 91176},
+																		pos: position{line: 2886, col: 12, offset: 91203},
 																		run: (*parser).callonParagraph69,
 																		expr: &choiceExpr{
-																			pos: position{line: 2885, col: 13, offset: 91177},
+																			pos: position{line: 2886, col: 13, offset: 91204},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 13, offset: 91177},
+																					pos:        position{line: 2886, col: 13, offset: 91204},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 20, offset: 91184},
+																					pos:        position{line: 2886, col: 20, offset: 91211},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2885, col: 29, offset: 91193},
+																					pos:        position{line: 2886, col: 29, offset: 91220},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -40120,9 +40338,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2895, col: 8, offset: 91353},
+																		pos: position{line: 2896, col: 8, offset: 91380},
 																		expr: &anyMatcher{
-																			line: 2895, col: 9, offset: 91354,
+																			line: 2896, col: 9, offset: 91381,
 																		},
 																	},
 																},
@@ -40132,49 +40350,49 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1786, col: 9, offset: 57819},
+												pos: position{line: 1787, col: 9, offset: 57846},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1786, col: 10, offset: 57820},
+													pos:  position{line: 1787, col: 10, offset: 57847},
 													name: "BlockAttributes",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1787, col: 9, offset: 57844},
+												pos:   position{line: 1788, col: 9, offset: 57871},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1787, col: 15, offset: 57850},
+													pos: position{line: 1788, col: 15, offset: 57877},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2483, col: 22, offset: 79891},
+															pos: position{line: 2484, col: 22, offset: 79918},
 															run: (*parser).callonParagraph80,
 															expr: &seqExpr{
-																pos: position{line: 2483, col: 22, offset: 79891},
+																pos: position{line: 2484, col: 22, offset: 79918},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2488, col: 31, offset: 80112},
+																		pos:        position{line: 2489, col: 31, offset: 80139},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2488, col: 36, offset: 80117},
+																		pos: position{line: 2489, col: 36, offset: 80144},
 																		expr: &litMatcher{
-																			pos:        position{line: 2488, col: 37, offset: 80118},
+																			pos:        position{line: 2489, col: 37, offset: 80145},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2483, col: 49, offset: 79918},
+																		pos:   position{line: 2484, col: 49, offset: 79945},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2822, col: 13, offset: 89531},
+																			pos: position{line: 2823, col: 13, offset: 89558},
 																			run: (*parser).callonParagraph86,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2822, col: 13, offset: 89531},
+																				pos: position{line: 2823, col: 13, offset: 89558},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2822, col: 13, offset: 89531},
+																					pos:        position{line: 2823, col: 13, offset: 89558},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40184,28 +40402,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91403},
+																		pos: position{line: 2899, col: 8, offset: 91430},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91176},
+																				pos: position{line: 2886, col: 12, offset: 91203},
 																				run: (*parser).callonParagraph90,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91177},
+																					pos: position{line: 2886, col: 13, offset: 91204},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91177},
+																							pos:        position{line: 2886, col: 13, offset: 91204},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91184},
+																							pos:        position{line: 2886, col: 20, offset: 91211},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91193},
+																							pos:        position{line: 2886, col: 29, offset: 91220},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40214,9 +40432,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91353},
+																				pos: position{line: 2896, col: 8, offset: 91380},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91354,
+																					line: 2896, col: 9, offset: 91381,
 																				},
 																			},
 																		},
@@ -40225,21 +40443,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1795, col: 5, offset: 58079},
+															pos: position{line: 1796, col: 5, offset: 58106},
 															run: (*parser).callonParagraph97,
 															expr: &seqExpr{
-																pos: position{line: 1795, col: 5, offset: 58079},
+																pos: position{line: 1796, col: 5, offset: 58106},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1795, col: 5, offset: 58079},
+																		pos:   position{line: 1796, col: 5, offset: 58106},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2826, col: 14, offset: 89598},
+																			pos: position{line: 2827, col: 14, offset: 89625},
 																			run: (*parser).callonParagraph100,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2826, col: 14, offset: 89598},
+																				pos: position{line: 2827, col: 14, offset: 89625},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2826, col: 14, offset: 89598},
+																					pos:        position{line: 2827, col: 14, offset: 89625},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40249,32 +40467,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1796, col: 5, offset: 58103},
+																		pos: position{line: 1797, col: 5, offset: 58130},
 																		run: (*parser).callonParagraph103,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2898, col: 8, offset: 91403},
+																		pos: position{line: 2899, col: 8, offset: 91430},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91176},
+																				pos: position{line: 2886, col: 12, offset: 91203},
 																				run: (*parser).callonParagraph105,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91177},
+																					pos: position{line: 2886, col: 13, offset: 91204},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91177},
+																							pos:        position{line: 2886, col: 13, offset: 91204},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91184},
+																							pos:        position{line: 2886, col: 20, offset: 91211},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91193},
+																							pos:        position{line: 2886, col: 29, offset: 91220},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40283,9 +40501,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2895, col: 8, offset: 91353},
+																				pos: position{line: 2896, col: 8, offset: 91380},
 																				expr: &anyMatcher{
-																					line: 2895, col: 9, offset: 91354,
+																					line: 2896, col: 9, offset: 91381,
 																				},
 																			},
 																		},
@@ -40307,16 +40525,16 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedText",
-			pos:  position{line: 1806, col: 1, offset: 58585},
+			pos:  position{line: 1807, col: 1, offset: 58612},
 			expr: &choiceExpr{
-				pos: position{line: 1806, col: 15, offset: 58599},
+				pos: position{line: 1807, col: 15, offset: 58626},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1806, col: 15, offset: 58599},
+						pos:  position{line: 1807, col: 15, offset: 58626},
 						name: "EscapedQuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1806, col: 35, offset: 58619},
+						pos:  position{line: 1807, col: 35, offset: 58646},
 						name: "UnescapedQuotedText",
 					},
 				},
@@ -40324,65 +40542,65 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedQuotedText",
-			pos:  position{line: 1808, col: 1, offset: 58640},
+			pos:  position{line: 1809, col: 1, offset: 58667},
 			expr: &actionExpr{
-				pos: position{line: 1809, col: 5, offset: 58665},
+				pos: position{line: 1810, col: 5, offset: 58692},
 				run: (*parser).callonEscapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1809, col: 5, offset: 58665},
+					pos: position{line: 1810, col: 5, offset: 58692},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1809, col: 5, offset: 58665},
+							pos:   position{line: 1810, col: 5, offset: 58692},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1809, col: 16, offset: 58676},
+								pos: position{line: 1810, col: 16, offset: 58703},
 								expr: &actionExpr{
-									pos: position{line: 1809, col: 17, offset: 58677},
+									pos: position{line: 1810, col: 17, offset: 58704},
 									run: (*parser).callonEscapedQuotedText5,
 									expr: &ruleRefExpr{
-										pos:  position{line: 1809, col: 17, offset: 58677},
+										pos:  position{line: 1810, col: 17, offset: 58704},
 										name: "LongHandAttributes",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 1812, col: 5, offset: 58745},
+							pos: position{line: 1813, col: 5, offset: 58772},
 							expr: &litMatcher{
-								pos:        position{line: 1812, col: 7, offset: 58747},
+								pos:        position{line: 1813, col: 7, offset: 58774},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1813, col: 5, offset: 58756},
+							pos:   position{line: 1814, col: 5, offset: 58783},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1814, col: 9, offset: 58774},
+								pos: position{line: 1815, col: 9, offset: 58801},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1814, col: 9, offset: 58774},
+										pos:  position{line: 1815, col: 9, offset: 58801},
 										name: "EscapedBoldText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1815, col: 11, offset: 58801},
+										pos:  position{line: 1816, col: 11, offset: 58828},
 										name: "EscapedItalicText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1816, col: 11, offset: 58829},
+										pos:  position{line: 1817, col: 11, offset: 58856},
 										name: "EscapedMonospaceText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1817, col: 11, offset: 58860},
+										pos:  position{line: 1818, col: 11, offset: 58887},
 										name: "EscapedMarkedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1818, col: 11, offset: 58888},
+										pos:  position{line: 1819, col: 11, offset: 58915},
 										name: "EscapedSubscriptText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1819, col: 11, offset: 58919},
+										pos:  position{line: 1820, col: 11, offset: 58946},
 										name: "EscapedSuperscriptText",
 									},
 								},
@@ -40394,36 +40612,36 @@ var g = &grammar{
 		},
 		{
 			name: "UnescapedQuotedText",
-			pos:  position{line: 1824, col: 1, offset: 59039},
+			pos:  position{line: 1825, col: 1, offset: 59066},
 			expr: &actionExpr{
-				pos: position{line: 1825, col: 5, offset: 59081},
+				pos: position{line: 1826, col: 5, offset: 59108},
 				run: (*parser).callonUnescapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1825, col: 5, offset: 59081},
+					pos: position{line: 1826, col: 5, offset: 59108},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1825, col: 5, offset: 59081},
+							pos:   position{line: 1826, col: 5, offset: 59108},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1825, col: 16, offset: 59092},
+								pos: position{line: 1826, col: 16, offset: 59119},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1825, col: 17, offset: 59093},
+									pos:  position{line: 1826, col: 17, offset: 59120},
 									name: "LongHandAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1826, col: 5, offset: 59118},
+							pos:   position{line: 1827, col: 5, offset: 59145},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1826, col: 14, offset: 59127},
+								pos: position{line: 1827, col: 14, offset: 59154},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1826, col: 14, offset: 59127},
+										pos:  position{line: 1827, col: 14, offset: 59154},
 										name: "SingleQuotedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1826, col: 33, offset: 59146},
+										pos:  position{line: 1827, col: 33, offset: 59173},
 										name: "DoubleQuotedText",
 									},
 								},
@@ -40435,32 +40653,32 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedText",
-			pos:  position{line: 1834, col: 1, offset: 59377},
+			pos:  position{line: 1835, col: 1, offset: 59404},
 			expr: &choiceExpr{
-				pos: position{line: 1835, col: 5, offset: 59402},
+				pos: position{line: 1836, col: 5, offset: 59429},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1835, col: 5, offset: 59402},
+						pos:  position{line: 1836, col: 5, offset: 59429},
 						name: "SingleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1836, col: 7, offset: 59429},
+						pos:  position{line: 1837, col: 7, offset: 59456},
 						name: "SingleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1837, col: 7, offset: 59457},
+						pos:  position{line: 1838, col: 7, offset: 59484},
 						name: "SingleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1838, col: 7, offset: 59489},
+						pos:  position{line: 1839, col: 7, offset: 59516},
 						name: "SingleQuoteMarkedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1839, col: 7, offset: 59517},
+						pos:  position{line: 1840, col: 7, offset: 59544},
 						name: "SubscriptText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1840, col: 7, offset: 59538},
+						pos:  position{line: 1841, col: 7, offset: 59565},
 						name: "SuperscriptText",
 					},
 				},
@@ -40468,24 +40686,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedText",
-			pos:  position{line: 1842, col: 1, offset: 59556},
+			pos:  position{line: 1843, col: 1, offset: 59583},
 			expr: &choiceExpr{
-				pos: position{line: 1843, col: 5, offset: 59581},
+				pos: position{line: 1844, col: 5, offset: 59608},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1843, col: 5, offset: 59581},
+						pos:  position{line: 1844, col: 5, offset: 59608},
 						name: "DoubleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1844, col: 7, offset: 59607},
+						pos:  position{line: 1845, col: 7, offset: 59634},
 						name: "DoubleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1845, col: 7, offset: 59635},
+						pos:  position{line: 1846, col: 7, offset: 59662},
 						name: "DoubleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1846, col: 7, offset: 59666},
+						pos:  position{line: 1847, col: 7, offset: 59693},
 						name: "DoubleQuoteMarkedText",
 					},
 				},
@@ -40493,26 +40711,26 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedTextElement",
-			pos:  position{line: 1860, col: 1, offset: 60020},
+			pos:  position{line: 1861, col: 1, offset: 60047},
 			expr: &choiceExpr{
-				pos: position{line: 1861, col: 5, offset: 60046},
+				pos: position{line: 1862, col: 5, offset: 60073},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2775, col: 5, offset: 88226},
+						pos: position{line: 2776, col: 5, offset: 88253},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2775, col: 5, offset: 88226},
+							pos: position{line: 2776, col: 5, offset: 88253},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2775, col: 5, offset: 88226},
+									pos:   position{line: 2776, col: 5, offset: 88253},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2775, col: 11, offset: 88232},
+										pos: position{line: 2776, col: 11, offset: 88259},
 										run: (*parser).callonQuotedTextElement5,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2775, col: 11, offset: 88232},
+											pos: position{line: 2776, col: 11, offset: 88259},
 											expr: &charClassMatcher{
-												pos:        position{line: 2775, col: 11, offset: 88232},
+												pos:        position{line: 2776, col: 11, offset: 88259},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40522,44 +40740,44 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2778, col: 5, offset: 88290},
+									pos: position{line: 2779, col: 5, offset: 88317},
 									expr: &seqExpr{
-										pos: position{line: 2779, col: 9, offset: 88301},
+										pos: position{line: 2780, col: 9, offset: 88328},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2779, col: 9, offset: 88301},
+												pos:        position{line: 2780, col: 9, offset: 88328},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2780, col: 9, offset: 88350},
+												pos: position{line: 2781, col: 9, offset: 88377},
 												run: (*parser).callonQuotedTextElement11,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2784, col: 5, offset: 88430},
+									pos: position{line: 2785, col: 5, offset: 88457},
 									expr: &seqExpr{
-										pos: position{line: 2785, col: 9, offset: 88441},
+										pos: position{line: 2786, col: 9, offset: 88468},
 										exprs: []interface{}{
 											&zeroOrMoreExpr{
-												pos: position{line: 2785, col: 9, offset: 88441},
+												pos: position{line: 2786, col: 9, offset: 88468},
 												expr: &seqExpr{
-													pos: position{line: 2785, col: 10, offset: 88442},
+													pos: position{line: 2786, col: 10, offset: 88469},
 													exprs: []interface{}{
 														&charClassMatcher{
-															pos:        position{line: 2785, col: 10, offset: 88442},
+															pos:        position{line: 2786, col: 10, offset: 88469},
 															val:        "[._%+-]",
 															chars:      []rune{'.', '_', '%', '+', '-'},
 															ignoreCase: false,
 															inverted:   false,
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2785, col: 18, offset: 88450},
+															pos: position{line: 2786, col: 18, offset: 88477},
 															expr: &charClassMatcher{
-																pos:        position{line: 2785, col: 18, offset: 88450},
+																pos:        position{line: 2786, col: 18, offset: 88477},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -40570,13 +40788,13 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 2785, col: 30, offset: 88462},
+												pos:        position{line: 2786, col: 30, offset: 88489},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2785, col: 34, offset: 88466},
+												pos:        position{line: 2786, col: 34, offset: 88493},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40589,12 +40807,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2880, col: 11, offset: 91066},
+						pos: position{line: 2881, col: 11, offset: 91093},
 						run: (*parser).callonQuotedTextElement21,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2880, col: 11, offset: 91066},
+							pos: position{line: 2881, col: 11, offset: 91093},
 							expr: &charClassMatcher{
-								pos:        position{line: 2880, col: 11, offset: 91066},
+								pos:        position{line: 2881, col: 11, offset: 91093},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -40603,29 +40821,29 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1863, col: 7, offset: 60109},
+						pos:  position{line: 1864, col: 7, offset: 60136},
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2501, col: 5, offset: 80608},
+						pos: position{line: 2502, col: 5, offset: 80635},
 						run: (*parser).callonQuotedTextElement25,
 						expr: &seqExpr{
-							pos: position{line: 2501, col: 5, offset: 80608},
+							pos: position{line: 2502, col: 5, offset: 80635},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2501, col: 5, offset: 80608},
+									pos: position{line: 2502, col: 5, offset: 80635},
 									run: (*parser).callonQuotedTextElement27,
 								},
 								&litMatcher{
-									pos:        position{line: 2504, col: 5, offset: 80679},
+									pos:        position{line: 2505, col: 5, offset: 80706},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2504, col: 10, offset: 80684},
+									pos: position{line: 2505, col: 10, offset: 80711},
 									expr: &charClassMatcher{
-										pos:        position{line: 2504, col: 11, offset: 80685},
+										pos:        position{line: 2505, col: 11, offset: 80712},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -40636,29 +40854,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2510, col: 5, offset: 80877},
+						pos: position{line: 2511, col: 5, offset: 80904},
 						run: (*parser).callonQuotedTextElement31,
 						expr: &seqExpr{
-							pos: position{line: 2510, col: 5, offset: 80877},
+							pos: position{line: 2511, col: 5, offset: 80904},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2510, col: 5, offset: 80877},
+									pos: position{line: 2511, col: 5, offset: 80904},
 									run: (*parser).callonQuotedTextElement33,
 								},
 								&andCodeExpr{
-									pos: position{line: 2513, col: 5, offset: 80948},
+									pos: position{line: 2514, col: 5, offset: 80975},
 									run: (*parser).callonQuotedTextElement34,
 								},
 								&litMatcher{
-									pos:        position{line: 2517, col: 5, offset: 81073},
+									pos:        position{line: 2518, col: 5, offset: 81100},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2517, col: 9, offset: 81077},
+									pos: position{line: 2518, col: 9, offset: 81104},
 									expr: &charClassMatcher{
-										pos:        position{line: 2517, col: 10, offset: 81078},
+										pos:        position{line: 2518, col: 10, offset: 81105},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -40669,27 +40887,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2793, col: 5, offset: 88659},
+						pos: position{line: 2794, col: 5, offset: 88686},
 						run: (*parser).callonQuotedTextElement38,
 						expr: &choiceExpr{
-							pos: position{line: 2794, col: 9, offset: 88669},
+							pos: position{line: 2795, col: 9, offset: 88696},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2794, col: 10, offset: 88670},
+									pos:        position{line: 2795, col: 10, offset: 88697},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2796, col: 13, offset: 88767},
+									pos: position{line: 2797, col: 13, offset: 88794},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2796, col: 13, offset: 88767},
+											pos: position{line: 2797, col: 13, offset: 88794},
 											run: (*parser).callonQuotedTextElement42,
 										},
 										&litMatcher{
-											pos:        position{line: 2799, col: 13, offset: 88867},
+											pos:        position{line: 2800, col: 13, offset: 88894},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -40697,20 +40915,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2799, col: 19, offset: 88873},
+									pos:        position{line: 2800, col: 19, offset: 88900},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2802, col: 13, offset: 88911},
+									pos: position{line: 2803, col: 13, offset: 88938},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2802, col: 13, offset: 88911},
+											pos: position{line: 2803, col: 13, offset: 88938},
 											run: (*parser).callonQuotedTextElement46,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2805, col: 14, offset: 89004},
+											pos:        position{line: 2806, col: 14, offset: 89031},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -40719,18 +40937,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2807, col: 12, offset: 89048},
+									pos: position{line: 2808, col: 12, offset: 89075},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2807, col: 12, offset: 89048},
+											pos:        position{line: 2808, col: 12, offset: 89075},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2807, col: 16, offset: 89052},
+											pos: position{line: 2808, col: 16, offset: 89079},
 											expr: &litMatcher{
-												pos:        position{line: 2807, col: 17, offset: 89053},
+												pos:        position{line: 2808, col: 17, offset: 89080},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -40742,35 +40960,35 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 635, col: 5, offset: 20116},
+						pos: position{line: 636, col: 5, offset: 20143},
 						run: (*parser).callonQuotedTextElement52,
 						expr: &seqExpr{
-							pos: position{line: 635, col: 5, offset: 20116},
+							pos: position{line: 636, col: 5, offset: 20143},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 635, col: 5, offset: 20116},
+									pos: position{line: 636, col: 5, offset: 20143},
 									run: (*parser).callonQuotedTextElement54,
 								},
 								&labeledExpr{
-									pos:   position{line: 638, col: 5, offset: 20188},
+									pos:   position{line: 639, col: 5, offset: 20215},
 									label: "element",
 									expr: &choiceExpr{
-										pos: position{line: 638, col: 14, offset: 20197},
+										pos: position{line: 639, col: 14, offset: 20224},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 644, col: 5, offset: 20326},
+												pos: position{line: 645, col: 5, offset: 20353},
 												run: (*parser).callonQuotedTextElement57,
 												expr: &seqExpr{
-													pos: position{line: 644, col: 5, offset: 20326},
+													pos: position{line: 645, col: 5, offset: 20353},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 644, col: 5, offset: 20326},
+															pos:        position{line: 645, col: 5, offset: 20353},
 															val:        "\\{",
 															ignoreCase: false,
 															want:       "\"\\\\{\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 644, col: 13, offset: 20334},
+															pos:   position{line: 645, col: 13, offset: 20361},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 317, col: 18, offset: 9667},
@@ -40802,7 +41020,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 644, col: 32, offset: 20353},
+															pos:        position{line: 645, col: 32, offset: 20380},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -40811,19 +41029,19 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 651, col: 5, offset: 20594},
+												pos: position{line: 652, col: 5, offset: 20621},
 												run: (*parser).callonQuotedTextElement67,
 												expr: &seqExpr{
-													pos: position{line: 651, col: 5, offset: 20594},
+													pos: position{line: 652, col: 5, offset: 20621},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 651, col: 5, offset: 20594},
+															pos:        position{line: 652, col: 5, offset: 20621},
 															val:        "{",
 															ignoreCase: false,
 															want:       "\"{\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 651, col: 9, offset: 20598},
+															pos:   position{line: 652, col: 9, offset: 20625},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 317, col: 18, offset: 9667},
@@ -40855,7 +41073,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 651, col: 28, offset: 20617},
+															pos:        position{line: 652, col: 28, offset: 20644},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -40864,19 +41082,19 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 657, col: 25, offset: 20798},
+												pos: position{line: 658, col: 25, offset: 20825},
 												run: (*parser).callonQuotedTextElement77,
 												expr: &seqExpr{
-													pos: position{line: 657, col: 25, offset: 20798},
+													pos: position{line: 658, col: 25, offset: 20825},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 657, col: 25, offset: 20798},
+															pos:        position{line: 658, col: 25, offset: 20825},
 															val:        "{counter:",
 															ignoreCase: false,
 															want:       "\"{counter:\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 657, col: 37, offset: 20810},
+															pos:   position{line: 658, col: 37, offset: 20837},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 317, col: 18, offset: 9667},
@@ -40908,33 +41126,33 @@ var g = &grammar{
 															},
 														},
 														&labeledExpr{
-															pos:   position{line: 657, col: 56, offset: 20829},
+															pos:   position{line: 658, col: 56, offset: 20856},
 															label: "start",
 															expr: &zeroOrOneExpr{
-																pos: position{line: 657, col: 62, offset: 20835},
+																pos: position{line: 658, col: 62, offset: 20862},
 																expr: &actionExpr{
-																	pos: position{line: 665, col: 17, offset: 21132},
+																	pos: position{line: 666, col: 17, offset: 21159},
 																	run: (*parser).callonQuotedTextElement88,
 																	expr: &seqExpr{
-																		pos: position{line: 665, col: 17, offset: 21132},
+																		pos: position{line: 666, col: 17, offset: 21159},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 665, col: 17, offset: 21132},
+																				pos:        position{line: 666, col: 17, offset: 21159},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 665, col: 21, offset: 21136},
+																				pos:   position{line: 666, col: 21, offset: 21163},
 																				label: "start",
 																				expr: &choiceExpr{
-																					pos: position{line: 665, col: 28, offset: 21143},
+																					pos: position{line: 666, col: 28, offset: 21170},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 665, col: 28, offset: 21143},
+																							pos: position{line: 666, col: 28, offset: 21170},
 																							run: (*parser).callonQuotedTextElement93,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 665, col: 28, offset: 21143},
+																								pos:        position{line: 666, col: 28, offset: 21170},
 																								val:        "[A-Za-z]",
 																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																								ignoreCase: false,
@@ -40942,12 +41160,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 667, col: 9, offset: 21197},
+																							pos: position{line: 668, col: 9, offset: 21224},
 																							run: (*parser).callonQuotedTextElement95,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 667, col: 9, offset: 21197},
+																								pos: position{line: 668, col: 9, offset: 21224},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 667, col: 9, offset: 21197},
+																									pos:        position{line: 668, col: 9, offset: 21224},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -40964,7 +41182,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 657, col: 78, offset: 20851},
+															pos:        position{line: 658, col: 78, offset: 20878},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -40973,19 +41191,19 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 661, col: 25, offset: 20969},
+												pos: position{line: 662, col: 25, offset: 20996},
 												run: (*parser).callonQuotedTextElement99,
 												expr: &seqExpr{
-													pos: position{line: 661, col: 25, offset: 20969},
+													pos: position{line: 662, col: 25, offset: 20996},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 661, col: 25, offset: 20969},
+															pos:        position{line: 662, col: 25, offset: 20996},
 															val:        "{counter2:",
 															ignoreCase: false,
 															want:       "\"{counter2:\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 661, col: 38, offset: 20982},
+															pos:   position{line: 662, col: 38, offset: 21009},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 317, col: 18, offset: 9667},
@@ -41017,33 +41235,33 @@ var g = &grammar{
 															},
 														},
 														&labeledExpr{
-															pos:   position{line: 661, col: 57, offset: 21001},
+															pos:   position{line: 662, col: 57, offset: 21028},
 															label: "start",
 															expr: &zeroOrOneExpr{
-																pos: position{line: 661, col: 63, offset: 21007},
+																pos: position{line: 662, col: 63, offset: 21034},
 																expr: &actionExpr{
-																	pos: position{line: 665, col: 17, offset: 21132},
+																	pos: position{line: 666, col: 17, offset: 21159},
 																	run: (*parser).callonQuotedTextElement110,
 																	expr: &seqExpr{
-																		pos: position{line: 665, col: 17, offset: 21132},
+																		pos: position{line: 666, col: 17, offset: 21159},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 665, col: 17, offset: 21132},
+																				pos:        position{line: 666, col: 17, offset: 21159},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 665, col: 21, offset: 21136},
+																				pos:   position{line: 666, col: 21, offset: 21163},
 																				label: "start",
 																				expr: &choiceExpr{
-																					pos: position{line: 665, col: 28, offset: 21143},
+																					pos: position{line: 666, col: 28, offset: 21170},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 665, col: 28, offset: 21143},
+																							pos: position{line: 666, col: 28, offset: 21170},
 																							run: (*parser).callonQuotedTextElement115,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 665, col: 28, offset: 21143},
+																								pos:        position{line: 666, col: 28, offset: 21170},
 																								val:        "[A-Za-z]",
 																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																								ignoreCase: false,
@@ -41051,12 +41269,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 667, col: 9, offset: 21197},
+																							pos: position{line: 668, col: 9, offset: 21224},
 																							run: (*parser).callonQuotedTextElement117,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 667, col: 9, offset: 21197},
+																								pos: position{line: 668, col: 9, offset: 21224},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 667, col: 9, offset: 21197},
+																									pos:        position{line: 668, col: 9, offset: 21224},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -41073,7 +41291,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 661, col: 79, offset: 21023},
+															pos:        position{line: 662, col: 79, offset: 21050},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -41088,31 +41306,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2889, col: 18, offset: 91276},
+						pos: position{line: 2890, col: 18, offset: 91303},
 						run: (*parser).callonQuotedTextElement121,
 						expr: &seqExpr{
-							pos: position{line: 2889, col: 18, offset: 91276},
+							pos: position{line: 2890, col: 18, offset: 91303},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2885, col: 12, offset: 91176},
+									pos: position{line: 2886, col: 12, offset: 91203},
 									run: (*parser).callonQuotedTextElement123,
 									expr: &choiceExpr{
-										pos: position{line: 2885, col: 13, offset: 91177},
+										pos: position{line: 2886, col: 13, offset: 91204},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2885, col: 13, offset: 91177},
+												pos:        position{line: 2886, col: 13, offset: 91204},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 20, offset: 91184},
+												pos:        position{line: 2886, col: 20, offset: 91211},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 29, offset: 91193},
+												pos:        position{line: 2886, col: 29, offset: 91220},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -41121,27 +41339,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2889, col: 26, offset: 91284},
+									pos: position{line: 2890, col: 26, offset: 91311},
 									expr: &actionExpr{
-										pos: position{line: 2885, col: 12, offset: 91176},
+										pos: position{line: 2886, col: 12, offset: 91203},
 										run: (*parser).callonQuotedTextElement129,
 										expr: &choiceExpr{
-											pos: position{line: 2885, col: 13, offset: 91177},
+											pos: position{line: 2886, col: 13, offset: 91204},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2885, col: 13, offset: 91177},
+													pos:        position{line: 2886, col: 13, offset: 91204},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2885, col: 20, offset: 91184},
+													pos:        position{line: 2886, col: 20, offset: 91211},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2885, col: 29, offset: 91193},
+													pos:        position{line: 2886, col: 29, offset: 91220},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -41154,31 +41372,31 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1868, col: 7, offset: 60276},
+						pos:  position{line: 1869, col: 7, offset: 60303},
 						name: "QuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1869, col: 7, offset: 60323},
+						pos:  position{line: 1870, col: 7, offset: 60350},
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2470, col: 5, offset: 79437},
+						pos: position{line: 2471, col: 5, offset: 79464},
 						run: (*parser).callonQuotedTextElement136,
 						expr: &seqExpr{
-							pos: position{line: 2470, col: 5, offset: 79437},
+							pos: position{line: 2471, col: 5, offset: 79464},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2470, col: 5, offset: 79437},
+									pos: position{line: 2471, col: 5, offset: 79464},
 									run: (*parser).callonQuotedTextElement138,
 								},
 								&labeledExpr{
-									pos:   position{line: 2473, col: 5, offset: 79513},
+									pos:   position{line: 2474, col: 5, offset: 79540},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2474, col: 9, offset: 79531},
+										pos: position{line: 2475, col: 9, offset: 79558},
 										run: (*parser).callonQuotedTextElement140,
 										expr: &charClassMatcher{
-											pos:        position{line: 2474, col: 10, offset: 79532},
+											pos:        position{line: 2475, col: 10, offset: 79559},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -41190,27 +41408,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1197, col: 23, offset: 36986},
+						pos: position{line: 1198, col: 23, offset: 37013},
 						run: (*parser).callonQuotedTextElement142,
 						expr: &seqExpr{
-							pos: position{line: 1197, col: 23, offset: 36986},
+							pos: position{line: 1198, col: 23, offset: 37013},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1195, col: 32, offset: 36954},
+									pos:        position{line: 1196, col: 32, offset: 36981},
 									val:        "�",
 									ignoreCase: false,
 									want:       "\"�\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1197, col: 51, offset: 37014},
+									pos:   position{line: 1198, col: 51, offset: 37041},
 									label: "ref",
 									expr: &actionExpr{
-										pos: position{line: 1197, col: 56, offset: 37019},
+										pos: position{line: 1198, col: 56, offset: 37046},
 										run: (*parser).callonQuotedTextElement146,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1197, col: 56, offset: 37019},
+											pos: position{line: 1198, col: 56, offset: 37046},
 											expr: &charClassMatcher{
-												pos:        position{line: 1197, col: 56, offset: 37019},
+												pos:        position{line: 1198, col: 56, offset: 37046},
 												val:        "[0-9]",
 												ranges:     []rune{'0', '9'},
 												ignoreCase: false,
@@ -41220,23 +41438,23 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1195, col: 32, offset: 36954},
+									pos:        position{line: 1196, col: 32, offset: 36981},
 									val:        "�",
 									ignoreCase: false,
 									want:       "\"�\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 1198, col: 5, offset: 37091},
+									pos: position{line: 1199, col: 5, offset: 37118},
 									run: (*parser).callonQuotedTextElement150,
 								},
 							},
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2815, col: 12, offset: 89313},
+						pos: position{line: 2816, col: 12, offset: 89340},
 						run: (*parser).callonQuotedTextElement151,
 						expr: &charClassMatcher{
-							pos:        position{line: 2815, col: 12, offset: 89313},
+							pos:        position{line: 2816, col: 12, offset: 89340},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -41248,29 +41466,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldText",
-			pos:  position{line: 1887, col: 1, offset: 60793},
+			pos:  position{line: 1888, col: 1, offset: 60820},
 			expr: &actionExpr{
-				pos: position{line: 1888, col: 5, offset: 60821},
+				pos: position{line: 1889, col: 5, offset: 60848},
 				run: (*parser).callonDoubleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1888, col: 5, offset: 60821},
+					pos: position{line: 1889, col: 5, offset: 60848},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1883, col: 38, offset: 60746},
+							pos:        position{line: 1884, col: 38, offset: 60773},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1889, col: 5, offset: 60860},
+							pos:   position{line: 1890, col: 5, offset: 60887},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1889, col: 15, offset: 60870},
+								pos:  position{line: 1890, col: 15, offset: 60897},
 								name: "DoubleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1885, col: 36, offset: 60787},
+							pos:        position{line: 1886, col: 36, offset: 60814},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
@@ -41281,44 +41499,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElements",
-			pos:  position{line: 1894, col: 1, offset: 61030},
+			pos:  position{line: 1895, col: 1, offset: 61057},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1894, col: 32, offset: 61061},
+				pos: position{line: 1895, col: 32, offset: 61088},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1894, col: 32, offset: 61061},
+					pos:  position{line: 1895, col: 32, offset: 61088},
 					name: "DoubleQuoteBoldTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteBoldTextElement",
-			pos:  position{line: 1896, col: 1, offset: 61092},
+			pos:  position{line: 1897, col: 1, offset: 61119},
 			expr: &actionExpr{
-				pos: position{line: 1897, col: 5, offset: 61127},
+				pos: position{line: 1898, col: 5, offset: 61154},
 				run: (*parser).callonDoubleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1897, col: 5, offset: 61127},
+					pos: position{line: 1898, col: 5, offset: 61154},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2893, col: 11, offset: 91339},
+							pos: position{line: 2894, col: 11, offset: 91366},
 							expr: &anyMatcher{
-								line: 2893, col: 13, offset: 91341,
+								line: 2894, col: 13, offset: 91368,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1898, col: 5, offset: 61138},
+							pos: position{line: 1899, col: 5, offset: 61165},
 							expr: &litMatcher{
-								pos:        position{line: 1885, col: 36, offset: 60787},
+								pos:        position{line: 1886, col: 36, offset: 60814},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1899, col: 5, offset: 61175},
+							pos:   position{line: 1900, col: 5, offset: 61202},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1899, col: 14, offset: 61184},
+								pos:  position{line: 1900, col: 14, offset: 61211},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41328,29 +41546,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldText",
-			pos:  position{line: 1924, col: 1, offset: 61864},
+			pos:  position{line: 1925, col: 1, offset: 61891},
 			expr: &actionExpr{
-				pos: position{line: 1925, col: 5, offset: 61892},
+				pos: position{line: 1926, col: 5, offset: 61919},
 				run: (*parser).callonSingleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1925, col: 5, offset: 61892},
+					pos: position{line: 1926, col: 5, offset: 61919},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1908, col: 5, offset: 61418},
+							pos:        position{line: 1909, col: 5, offset: 61445},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1909, col: 5, offset: 61427},
+							pos: position{line: 1910, col: 5, offset: 61454},
 							run: (*parser).callonSingleQuoteBoldText4,
 						},
 						&andExpr{
-							pos: position{line: 1913, col: 5, offset: 61545},
+							pos: position{line: 1914, col: 5, offset: 61572},
 							expr: &notExpr{
-								pos: position{line: 1913, col: 7, offset: 61547},
+								pos: position{line: 1914, col: 7, offset: 61574},
 								expr: &litMatcher{
-									pos:        position{line: 1913, col: 8, offset: 61548},
+									pos:        position{line: 1914, col: 8, offset: 61575},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41358,38 +41576,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1926, col: 5, offset: 61930},
+							pos:   position{line: 1927, col: 5, offset: 61957},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1926, col: 15, offset: 61940},
+								pos:  position{line: 1927, col: 15, offset: 61967},
 								name: "SingleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1916, col: 5, offset: 61668},
+							pos:        position{line: 1917, col: 5, offset: 61695},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&notExpr{
-							pos: position{line: 1917, col: 5, offset: 61677},
+							pos: position{line: 1918, col: 5, offset: 61704},
 							expr: &litMatcher{
-								pos:        position{line: 1917, col: 6, offset: 61678},
+								pos:        position{line: 1918, col: 6, offset: 61705},
 								val:        "*",
 								ignoreCase: false,
 								want:       "\"*\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1918, col: 5, offset: 61741},
+							pos: position{line: 1919, col: 5, offset: 61768},
 							run: (*parser).callonSingleQuoteBoldText13,
 						},
 						&andExpr{
-							pos: position{line: 1922, col: 5, offset: 61850},
+							pos: position{line: 1923, col: 5, offset: 61877},
 							expr: &notExpr{
-								pos: position{line: 1922, col: 7, offset: 61852},
+								pos: position{line: 1923, col: 7, offset: 61879},
 								expr: &charClassMatcher{
-									pos:        position{line: 2766, col: 13, offset: 88079},
+									pos:        position{line: 2767, col: 13, offset: 88106},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -41403,20 +41621,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElements",
-			pos:  position{line: 1931, col: 1, offset: 62100},
+			pos:  position{line: 1932, col: 1, offset: 62127},
 			expr: &actionExpr{
-				pos: position{line: 1932, col: 5, offset: 62137},
+				pos: position{line: 1933, col: 5, offset: 62164},
 				run: (*parser).callonSingleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1932, col: 5, offset: 62137},
+					pos: position{line: 1933, col: 5, offset: 62164},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1932, col: 5, offset: 62137},
+							pos: position{line: 1933, col: 5, offset: 62164},
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 10, offset: 91005},
+								pos: position{line: 2877, col: 10, offset: 91032},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2876, col: 10, offset: 91005},
+									pos:        position{line: 2877, col: 10, offset: 91032},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41425,18 +41643,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1933, col: 5, offset: 62176},
+							pos:   position{line: 1934, col: 5, offset: 62203},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1933, col: 14, offset: 62185},
+								pos: position{line: 1934, col: 14, offset: 62212},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1933, col: 15, offset: 62186},
+									pos:  position{line: 1934, col: 15, offset: 62213},
 									name: "SingleQuoteBoldTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1934, col: 5, offset: 62220},
+							pos: position{line: 1935, col: 5, offset: 62247},
 							run: (*parser).callonSingleQuoteBoldTextElements9,
 						},
 					},
@@ -41445,49 +41663,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElement",
-			pos:  position{line: 1940, col: 1, offset: 62361},
+			pos:  position{line: 1941, col: 1, offset: 62388},
 			expr: &actionExpr{
-				pos: position{line: 1941, col: 5, offset: 62396},
+				pos: position{line: 1942, col: 5, offset: 62423},
 				run: (*parser).callonSingleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1941, col: 5, offset: 62396},
+					pos: position{line: 1942, col: 5, offset: 62423},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2893, col: 11, offset: 91339},
+							pos: position{line: 2894, col: 11, offset: 91366},
 							expr: &anyMatcher{
-								line: 2893, col: 13, offset: 91341,
+								line: 2894, col: 13, offset: 91368,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1942, col: 5, offset: 62424},
+							pos: position{line: 1943, col: 5, offset: 62451},
 							expr: &seqExpr{
-								pos: position{line: 1916, col: 5, offset: 61668},
+								pos: position{line: 1917, col: 5, offset: 61695},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1916, col: 5, offset: 61668},
+										pos:        position{line: 1917, col: 5, offset: 61695},
 										val:        "*",
 										ignoreCase: false,
 										want:       "\"*\"",
 									},
 									&notExpr{
-										pos: position{line: 1917, col: 5, offset: 61677},
+										pos: position{line: 1918, col: 5, offset: 61704},
 										expr: &litMatcher{
-											pos:        position{line: 1917, col: 6, offset: 61678},
+											pos:        position{line: 1918, col: 6, offset: 61705},
 											val:        "*",
 											ignoreCase: false,
 											want:       "\"*\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1918, col: 5, offset: 61741},
+										pos: position{line: 1919, col: 5, offset: 61768},
 										run: (*parser).callonSingleQuoteBoldTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 1922, col: 5, offset: 61850},
+										pos: position{line: 1923, col: 5, offset: 61877},
 										expr: &notExpr{
-											pos: position{line: 1922, col: 7, offset: 61852},
+											pos: position{line: 1923, col: 7, offset: 61879},
 											expr: &charClassMatcher{
-												pos:        position{line: 2766, col: 13, offset: 88079},
+												pos:        position{line: 2767, col: 13, offset: 88106},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41499,10 +41717,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1943, col: 5, offset: 62461},
+							pos:   position{line: 1944, col: 5, offset: 62488},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1943, col: 14, offset: 62470},
+								pos:  position{line: 1944, col: 14, offset: 62497},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41512,35 +41730,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedBoldText",
-			pos:  position{line: 1948, col: 1, offset: 62558},
+			pos:  position{line: 1949, col: 1, offset: 62585},
 			expr: &choiceExpr{
-				pos: position{line: 1950, col: 5, offset: 62619},
+				pos: position{line: 1951, col: 5, offset: 62646},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1950, col: 5, offset: 62619},
+						pos: position{line: 1951, col: 5, offset: 62646},
 						run: (*parser).callonEscapedBoldText2,
 						expr: &seqExpr{
-							pos: position{line: 1950, col: 5, offset: 62619},
+							pos: position{line: 1951, col: 5, offset: 62646},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1950, col: 5, offset: 62619},
+									pos:   position{line: 1951, col: 5, offset: 62646},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1856, col: 25, offset: 59966},
+										pos: position{line: 1857, col: 25, offset: 59993},
 										run: (*parser).callonEscapedBoldText5,
 										expr: &seqExpr{
-											pos: position{line: 1856, col: 25, offset: 59966},
+											pos: position{line: 1857, col: 25, offset: 59993},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1856, col: 25, offset: 59966},
+													pos:        position{line: 1857, col: 25, offset: 59993},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1856, col: 30, offset: 59971},
+													pos: position{line: 1857, col: 30, offset: 59998},
 													expr: &litMatcher{
-														pos:        position{line: 1856, col: 30, offset: 59971},
+														pos:        position{line: 1857, col: 30, offset: 59998},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -41551,21 +41769,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1950, col: 40, offset: 62654},
+									pos:        position{line: 1951, col: 40, offset: 62681},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1950, col: 45, offset: 62659},
+									pos:   position{line: 1951, col: 45, offset: 62686},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1950, col: 55, offset: 62669},
+										pos:  position{line: 1951, col: 55, offset: 62696},
 										name: "DoubleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1950, col: 84, offset: 62698},
+									pos:        position{line: 1951, col: 84, offset: 62725},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
@@ -41574,21 +41792,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1954, col: 7, offset: 62862},
+						pos: position{line: 1955, col: 7, offset: 62889},
 						run: (*parser).callonEscapedBoldText14,
 						expr: &seqExpr{
-							pos: position{line: 1954, col: 7, offset: 62862},
+							pos: position{line: 1955, col: 7, offset: 62889},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1954, col: 7, offset: 62862},
+									pos:   position{line: 1955, col: 7, offset: 62889},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1852, col: 25, offset: 59893},
+										pos: position{line: 1853, col: 25, offset: 59920},
 										run: (*parser).callonEscapedBoldText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1852, col: 25, offset: 59893},
+											pos: position{line: 1853, col: 25, offset: 59920},
 											expr: &litMatcher{
-												pos:        position{line: 1852, col: 25, offset: 59893},
+												pos:        position{line: 1853, col: 25, offset: 59920},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41597,21 +41815,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1954, col: 42, offset: 62897},
+									pos:        position{line: 1955, col: 42, offset: 62924},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1954, col: 47, offset: 62902},
+									pos:   position{line: 1955, col: 47, offset: 62929},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1954, col: 57, offset: 62912},
+										pos:  position{line: 1955, col: 57, offset: 62939},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1954, col: 86, offset: 62941},
+									pos:        position{line: 1955, col: 86, offset: 62968},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41620,21 +41838,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1959, col: 7, offset: 63143},
+						pos: position{line: 1960, col: 7, offset: 63170},
 						run: (*parser).callonEscapedBoldText24,
 						expr: &seqExpr{
-							pos: position{line: 1959, col: 7, offset: 63143},
+							pos: position{line: 1960, col: 7, offset: 63170},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1959, col: 7, offset: 63143},
+									pos:   position{line: 1960, col: 7, offset: 63170},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1852, col: 25, offset: 59893},
+										pos: position{line: 1853, col: 25, offset: 59920},
 										run: (*parser).callonEscapedBoldText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1852, col: 25, offset: 59893},
+											pos: position{line: 1853, col: 25, offset: 59920},
 											expr: &litMatcher{
-												pos:        position{line: 1852, col: 25, offset: 59893},
+												pos:        position{line: 1853, col: 25, offset: 59920},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41643,21 +41861,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1959, col: 42, offset: 63178},
+									pos:        position{line: 1960, col: 42, offset: 63205},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1959, col: 46, offset: 63182},
+									pos:   position{line: 1960, col: 46, offset: 63209},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1959, col: 56, offset: 63192},
+										pos:  position{line: 1960, col: 56, offset: 63219},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1959, col: 85, offset: 63221},
+									pos:        position{line: 1960, col: 85, offset: 63248},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41670,29 +41888,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicText",
-			pos:  position{line: 1976, col: 1, offset: 63701},
+			pos:  position{line: 1977, col: 1, offset: 63728},
 			expr: &actionExpr{
-				pos: position{line: 1977, col: 5, offset: 63731},
+				pos: position{line: 1978, col: 5, offset: 63758},
 				run: (*parser).callonDoubleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 1977, col: 5, offset: 63731},
+					pos: position{line: 1978, col: 5, offset: 63758},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1972, col: 40, offset: 63652},
+							pos:        position{line: 1973, col: 40, offset: 63679},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1978, col: 5, offset: 63772},
+							pos:   position{line: 1979, col: 5, offset: 63799},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1978, col: 15, offset: 63782},
+								pos:  position{line: 1979, col: 15, offset: 63809},
 								name: "DoubleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1974, col: 38, offset: 63695},
+							pos:        position{line: 1975, col: 38, offset: 63722},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
@@ -41703,44 +41921,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElements",
-			pos:  position{line: 1983, col: 1, offset: 63947},
+			pos:  position{line: 1984, col: 1, offset: 63974},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1983, col: 34, offset: 63980},
+				pos: position{line: 1984, col: 34, offset: 64007},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1983, col: 34, offset: 63980},
+					pos:  position{line: 1984, col: 34, offset: 64007},
 					name: "DoubleQuoteItalicTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteItalicTextElement",
-			pos:  position{line: 1985, col: 1, offset: 64012},
+			pos:  position{line: 1986, col: 1, offset: 64039},
 			expr: &actionExpr{
-				pos: position{line: 1986, col: 5, offset: 64049},
+				pos: position{line: 1987, col: 5, offset: 64076},
 				run: (*parser).callonDoubleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1986, col: 5, offset: 64049},
+					pos: position{line: 1987, col: 5, offset: 64076},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2893, col: 11, offset: 91339},
+							pos: position{line: 2894, col: 11, offset: 91366},
 							expr: &anyMatcher{
-								line: 2893, col: 13, offset: 91341,
+								line: 2894, col: 13, offset: 91368,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1987, col: 5, offset: 64060},
+							pos: position{line: 1988, col: 5, offset: 64087},
 							expr: &litMatcher{
-								pos:        position{line: 1974, col: 38, offset: 63695},
+								pos:        position{line: 1975, col: 38, offset: 63722},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1988, col: 5, offset: 64099},
+							pos:   position{line: 1989, col: 5, offset: 64126},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1988, col: 14, offset: 64108},
+								pos:  position{line: 1989, col: 14, offset: 64135},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41750,29 +41968,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicText",
-			pos:  position{line: 2014, col: 1, offset: 64792},
+			pos:  position{line: 2015, col: 1, offset: 64819},
 			expr: &actionExpr{
-				pos: position{line: 2015, col: 5, offset: 64822},
+				pos: position{line: 2016, col: 5, offset: 64849},
 				run: (*parser).callonSingleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2015, col: 5, offset: 64822},
+					pos: position{line: 2016, col: 5, offset: 64849},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1997, col: 5, offset: 64350},
+							pos:        position{line: 1998, col: 5, offset: 64377},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1998, col: 5, offset: 64359},
+							pos: position{line: 1999, col: 5, offset: 64386},
 							run: (*parser).callonSingleQuoteItalicText4,
 						},
 						&andExpr{
-							pos: position{line: 2002, col: 5, offset: 64479},
+							pos: position{line: 2003, col: 5, offset: 64506},
 							expr: &notExpr{
-								pos: position{line: 2002, col: 7, offset: 64481},
+								pos: position{line: 2003, col: 7, offset: 64508},
 								expr: &litMatcher{
-									pos:        position{line: 2002, col: 8, offset: 64482},
+									pos:        position{line: 2003, col: 8, offset: 64509},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -41780,38 +41998,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2016, col: 5, offset: 64862},
+							pos:   position{line: 2017, col: 5, offset: 64889},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2016, col: 15, offset: 64872},
+								pos:  position{line: 2017, col: 15, offset: 64899},
 								name: "SingleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2006, col: 5, offset: 64592},
+							pos:        position{line: 2007, col: 5, offset: 64619},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&notExpr{
-							pos: position{line: 2007, col: 5, offset: 64601},
+							pos: position{line: 2008, col: 5, offset: 64628},
 							expr: &litMatcher{
-								pos:        position{line: 2007, col: 6, offset: 64602},
+								pos:        position{line: 2008, col: 6, offset: 64629},
 								val:        "_",
 								ignoreCase: false,
 								want:       "\"_\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2008, col: 5, offset: 64667},
+							pos: position{line: 2009, col: 5, offset: 64694},
 							run: (*parser).callonSingleQuoteItalicText13,
 						},
 						&andExpr{
-							pos: position{line: 2012, col: 5, offset: 64778},
+							pos: position{line: 2013, col: 5, offset: 64805},
 							expr: &notExpr{
-								pos: position{line: 2012, col: 7, offset: 64780},
+								pos: position{line: 2013, col: 7, offset: 64807},
 								expr: &charClassMatcher{
-									pos:        position{line: 2766, col: 13, offset: 88079},
+									pos:        position{line: 2767, col: 13, offset: 88106},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -41825,20 +42043,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElements",
-			pos:  position{line: 2021, col: 1, offset: 65039},
+			pos:  position{line: 2022, col: 1, offset: 65066},
 			expr: &actionExpr{
-				pos: position{line: 2022, col: 5, offset: 65077},
+				pos: position{line: 2023, col: 5, offset: 65104},
 				run: (*parser).callonSingleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2022, col: 5, offset: 65077},
+					pos: position{line: 2023, col: 5, offset: 65104},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2022, col: 5, offset: 65077},
+							pos: position{line: 2023, col: 5, offset: 65104},
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 10, offset: 91005},
+								pos: position{line: 2877, col: 10, offset: 91032},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2876, col: 10, offset: 91005},
+									pos:        position{line: 2877, col: 10, offset: 91032},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41847,18 +42065,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2023, col: 5, offset: 65116},
+							pos:   position{line: 2024, col: 5, offset: 65143},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2023, col: 14, offset: 65125},
+								pos: position{line: 2024, col: 14, offset: 65152},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2023, col: 15, offset: 65126},
+									pos:  position{line: 2024, col: 15, offset: 65153},
 									name: "SingleQuoteItalicTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2024, col: 5, offset: 65161},
+							pos: position{line: 2025, col: 5, offset: 65188},
 							run: (*parser).callonSingleQuoteItalicTextElements9,
 						},
 					},
@@ -41867,49 +42085,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElement",
-			pos:  position{line: 2030, col: 1, offset: 65302},
+			pos:  position{line: 2031, col: 1, offset: 65329},
 			expr: &actionExpr{
-				pos: position{line: 2031, col: 5, offset: 65339},
+				pos: position{line: 2032, col: 5, offset: 65366},
 				run: (*parser).callonSingleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2031, col: 5, offset: 65339},
+					pos: position{line: 2032, col: 5, offset: 65366},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2893, col: 11, offset: 91339},
+							pos: position{line: 2894, col: 11, offset: 91366},
 							expr: &anyMatcher{
-								line: 2893, col: 13, offset: 91341,
+								line: 2894, col: 13, offset: 91368,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2032, col: 5, offset: 65350},
+							pos: position{line: 2033, col: 5, offset: 65377},
 							expr: &seqExpr{
-								pos: position{line: 2006, col: 5, offset: 64592},
+								pos: position{line: 2007, col: 5, offset: 64619},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2006, col: 5, offset: 64592},
+										pos:        position{line: 2007, col: 5, offset: 64619},
 										val:        "_",
 										ignoreCase: false,
 										want:       "\"_\"",
 									},
 									&notExpr{
-										pos: position{line: 2007, col: 5, offset: 64601},
+										pos: position{line: 2008, col: 5, offset: 64628},
 										expr: &litMatcher{
-											pos:        position{line: 2007, col: 6, offset: 64602},
+											pos:        position{line: 2008, col: 6, offset: 64629},
 											val:        "_",
 											ignoreCase: false,
 											want:       "\"_\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2008, col: 5, offset: 64667},
+										pos: position{line: 2009, col: 5, offset: 64694},
 										run: (*parser).callonSingleQuoteItalicTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2012, col: 5, offset: 64778},
+										pos: position{line: 2013, col: 5, offset: 64805},
 										expr: &notExpr{
-											pos: position{line: 2012, col: 7, offset: 64780},
+											pos: position{line: 2013, col: 7, offset: 64807},
 											expr: &charClassMatcher{
-												pos:        position{line: 2766, col: 13, offset: 88079},
+												pos:        position{line: 2767, col: 13, offset: 88106},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41921,10 +42139,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2033, col: 5, offset: 65389},
+							pos:   position{line: 2034, col: 5, offset: 65416},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2033, col: 14, offset: 65398},
+								pos:  position{line: 2034, col: 14, offset: 65425},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41934,35 +42152,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedItalicText",
-			pos:  position{line: 2038, col: 1, offset: 65486},
+			pos:  position{line: 2039, col: 1, offset: 65513},
 			expr: &choiceExpr{
-				pos: position{line: 2040, col: 5, offset: 65551},
+				pos: position{line: 2041, col: 5, offset: 65578},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2040, col: 5, offset: 65551},
+						pos: position{line: 2041, col: 5, offset: 65578},
 						run: (*parser).callonEscapedItalicText2,
 						expr: &seqExpr{
-							pos: position{line: 2040, col: 5, offset: 65551},
+							pos: position{line: 2041, col: 5, offset: 65578},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2040, col: 5, offset: 65551},
+									pos:   position{line: 2041, col: 5, offset: 65578},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1856, col: 25, offset: 59966},
+										pos: position{line: 1857, col: 25, offset: 59993},
 										run: (*parser).callonEscapedItalicText5,
 										expr: &seqExpr{
-											pos: position{line: 1856, col: 25, offset: 59966},
+											pos: position{line: 1857, col: 25, offset: 59993},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1856, col: 25, offset: 59966},
+													pos:        position{line: 1857, col: 25, offset: 59993},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1856, col: 30, offset: 59971},
+													pos: position{line: 1857, col: 30, offset: 59998},
 													expr: &litMatcher{
-														pos:        position{line: 1856, col: 30, offset: 59971},
+														pos:        position{line: 1857, col: 30, offset: 59998},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -41973,21 +42191,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2040, col: 40, offset: 65586},
+									pos:        position{line: 2041, col: 40, offset: 65613},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2040, col: 45, offset: 65591},
+									pos:   position{line: 2041, col: 45, offset: 65618},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2040, col: 55, offset: 65601},
+										pos:  position{line: 2041, col: 55, offset: 65628},
 										name: "DoubleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2040, col: 86, offset: 65632},
+									pos:        position{line: 2041, col: 86, offset: 65659},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
@@ -41996,21 +42214,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2044, col: 7, offset: 65797},
+						pos: position{line: 2045, col: 7, offset: 65824},
 						run: (*parser).callonEscapedItalicText14,
 						expr: &seqExpr{
-							pos: position{line: 2044, col: 7, offset: 65797},
+							pos: position{line: 2045, col: 7, offset: 65824},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2044, col: 7, offset: 65797},
+									pos:   position{line: 2045, col: 7, offset: 65824},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1852, col: 25, offset: 59893},
+										pos: position{line: 1853, col: 25, offset: 59920},
 										run: (*parser).callonEscapedItalicText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1852, col: 25, offset: 59893},
+											pos: position{line: 1853, col: 25, offset: 59920},
 											expr: &litMatcher{
-												pos:        position{line: 1852, col: 25, offset: 59893},
+												pos:        position{line: 1853, col: 25, offset: 59920},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42019,21 +42237,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2044, col: 42, offset: 65832},
+									pos:        position{line: 2045, col: 42, offset: 65859},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2044, col: 47, offset: 65837},
+									pos:   position{line: 2045, col: 47, offset: 65864},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2044, col: 57, offset: 65847},
+										pos:  position{line: 2045, col: 57, offset: 65874},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2044, col: 88, offset: 65878},
+									pos:        position{line: 2045, col: 88, offset: 65905},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -42042,21 +42260,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2049, col: 7, offset: 66119},
+						pos: position{line: 2050, col: 7, offset: 66146},
 						run: (*parser).callonEscapedItalicText24,
 						expr: &seqExpr{
-							pos: position{line: 2049, col: 7, offset: 66119},
+							pos: position{line: 2050, col: 7, offset: 66146},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2049, col: 7, offset: 66119},
+									pos:   position{line: 2050, col: 7, offset: 66146},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1852, col: 25, offset: 59893},
+										pos: position{line: 1853, col: 25, offset: 59920},
 										run: (*parser).callonEscapedItalicText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1852, col: 25, offset: 59893},
+											pos: position{line: 1853, col: 25, offset: 59920},
 											expr: &litMatcher{
-												pos:        position{line: 1852, col: 25, offset: 59893},
+												pos:        position{line: 1853, col: 25, offset: 59920},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42065,21 +42283,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2049, col: 42, offset: 66154},
+									pos:        position{line: 2050, col: 42, offset: 66181},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2049, col: 46, offset: 66158},
+									pos:   position{line: 2050, col: 46, offset: 66185},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2049, col: 56, offset: 66168},
+										pos:  position{line: 2050, col: 56, offset: 66195},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2049, col: 87, offset: 66199},
+									pos:        position{line: 2050, col: 87, offset: 66226},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -42092,29 +42310,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceText",
-			pos:  position{line: 2066, col: 1, offset: 66763},
+			pos:  position{line: 2067, col: 1, offset: 66790},
 			expr: &actionExpr{
-				pos: position{line: 2067, col: 5, offset: 66796},
+				pos: position{line: 2068, col: 5, offset: 66823},
 				run: (*parser).callonDoubleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2067, col: 5, offset: 66796},
+					pos: position{line: 2068, col: 5, offset: 66823},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2062, col: 43, offset: 66711},
+							pos:        position{line: 2063, col: 43, offset: 66738},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2068, col: 5, offset: 66840},
+							pos:   position{line: 2069, col: 5, offset: 66867},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2068, col: 15, offset: 66850},
+								pos:  position{line: 2069, col: 15, offset: 66877},
 								name: "DoubleQuoteMonospaceTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2064, col: 41, offset: 66757},
+							pos:        position{line: 2065, col: 41, offset: 66784},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
@@ -42125,44 +42343,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElements",
-			pos:  position{line: 2073, col: 1, offset: 67025},
+			pos:  position{line: 2074, col: 1, offset: 67052},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 2073, col: 37, offset: 67061},
+				pos: position{line: 2074, col: 37, offset: 67088},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2073, col: 37, offset: 67061},
+					pos:  position{line: 2074, col: 37, offset: 67088},
 					name: "DoubleQuoteMonospaceTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElement",
-			pos:  position{line: 2075, col: 1, offset: 67128},
+			pos:  position{line: 2076, col: 1, offset: 67155},
 			expr: &actionExpr{
-				pos: position{line: 2076, col: 5, offset: 67168},
+				pos: position{line: 2077, col: 5, offset: 67195},
 				run: (*parser).callonDoubleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2076, col: 5, offset: 67168},
+					pos: position{line: 2077, col: 5, offset: 67195},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2893, col: 11, offset: 91339},
+							pos: position{line: 2894, col: 11, offset: 91366},
 							expr: &anyMatcher{
-								line: 2893, col: 13, offset: 91341,
+								line: 2894, col: 13, offset: 91368,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2077, col: 5, offset: 67179},
+							pos: position{line: 2078, col: 5, offset: 67206},
 							expr: &litMatcher{
-								pos:        position{line: 2064, col: 41, offset: 66757},
+								pos:        position{line: 2065, col: 41, offset: 66784},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2078, col: 5, offset: 67221},
+							pos:   position{line: 2079, col: 5, offset: 67248},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2078, col: 14, offset: 67230},
+								pos:  position{line: 2079, col: 14, offset: 67257},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42172,33 +42390,33 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextEndDelimiter",
-			pos:  position{line: 2096, col: 1, offset: 67772},
+			pos:  position{line: 2097, col: 1, offset: 67799},
 			expr: &seqExpr{
-				pos: position{line: 2097, col: 5, offset: 67817},
+				pos: position{line: 2098, col: 5, offset: 67844},
 				exprs: []interface{}{
 					&notExpr{
-						pos: position{line: 2097, col: 5, offset: 67817},
+						pos: position{line: 2098, col: 5, offset: 67844},
 						expr: &ruleRefExpr{
-							pos:  position{line: 2097, col: 6, offset: 67818},
+							pos:  position{line: 2098, col: 6, offset: 67845},
 							name: "QuotationMark",
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 2098, col: 5, offset: 67837},
+						pos:        position{line: 2099, col: 5, offset: 67864},
 						val:        "`",
 						ignoreCase: false,
 						want:       "\"`\"",
 					},
 					&andCodeExpr{
-						pos: position{line: 2099, col: 5, offset: 67845},
+						pos: position{line: 2100, col: 5, offset: 67872},
 						run: (*parser).callonSingleQuoteMonospaceTextEndDelimiter5,
 					},
 					&andExpr{
-						pos: position{line: 2103, col: 5, offset: 67959},
+						pos: position{line: 2104, col: 5, offset: 67986},
 						expr: &notExpr{
-							pos: position{line: 2103, col: 7, offset: 67961},
+							pos: position{line: 2104, col: 7, offset: 67988},
 							expr: &charClassMatcher{
-								pos:        position{line: 2766, col: 13, offset: 88079},
+								pos:        position{line: 2767, col: 13, offset: 88106},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -42211,29 +42429,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceText",
-			pos:  position{line: 2106, col: 1, offset: 67978},
+			pos:  position{line: 2107, col: 1, offset: 68005},
 			expr: &actionExpr{
-				pos: position{line: 2107, col: 5, offset: 68011},
+				pos: position{line: 2108, col: 5, offset: 68038},
 				run: (*parser).callonSingleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2107, col: 5, offset: 68011},
+					pos: position{line: 2108, col: 5, offset: 68038},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2089, col: 5, offset: 67574},
+							pos:        position{line: 2090, col: 5, offset: 67601},
 							val:        "`",
 							ignoreCase: false,
 							want:       "\"`\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2090, col: 5, offset: 67583},
+							pos: position{line: 2091, col: 5, offset: 67610},
 							run: (*parser).callonSingleQuoteMonospaceText4,
 						},
 						&andExpr{
-							pos: position{line: 2094, col: 5, offset: 67706},
+							pos: position{line: 2095, col: 5, offset: 67733},
 							expr: &notExpr{
-								pos: position{line: 2094, col: 7, offset: 67708},
+								pos: position{line: 2095, col: 7, offset: 67735},
 								expr: &litMatcher{
-									pos:        position{line: 2094, col: 8, offset: 67709},
+									pos:        position{line: 2095, col: 8, offset: 67736},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42241,15 +42459,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2108, col: 5, offset: 68055},
+							pos:   position{line: 2109, col: 5, offset: 68082},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2108, col: 15, offset: 68065},
+								pos:  position{line: 2109, col: 15, offset: 68092},
 								name: "SingleQuoteMonospaceTextElements",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 2109, col: 5, offset: 68104},
+							pos:  position{line: 2110, col: 5, offset: 68131},
 							name: "SingleQuoteMonospaceTextEndDelimiter",
 						},
 					},
@@ -42258,20 +42476,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElements",
-			pos:  position{line: 2113, col: 1, offset: 68241},
+			pos:  position{line: 2114, col: 1, offset: 68268},
 			expr: &actionExpr{
-				pos: position{line: 2114, col: 5, offset: 68282},
+				pos: position{line: 2115, col: 5, offset: 68309},
 				run: (*parser).callonSingleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2114, col: 5, offset: 68282},
+					pos: position{line: 2115, col: 5, offset: 68309},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2114, col: 5, offset: 68282},
+							pos: position{line: 2115, col: 5, offset: 68309},
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 10, offset: 91005},
+								pos: position{line: 2877, col: 10, offset: 91032},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2876, col: 10, offset: 91005},
+									pos:        position{line: 2877, col: 10, offset: 91032},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42280,18 +42498,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2115, col: 5, offset: 68321},
+							pos:   position{line: 2116, col: 5, offset: 68348},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2115, col: 14, offset: 68330},
+								pos: position{line: 2116, col: 14, offset: 68357},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2115, col: 15, offset: 68331},
+									pos:  position{line: 2116, col: 15, offset: 68358},
 									name: "SingleQuoteMonospaceTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2116, col: 5, offset: 68369},
+							pos: position{line: 2117, col: 5, offset: 68396},
 							run: (*parser).callonSingleQuoteMonospaceTextElements9,
 						},
 					},
@@ -42300,31 +42518,31 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElement",
-			pos:  position{line: 2122, col: 1, offset: 68510},
+			pos:  position{line: 2123, col: 1, offset: 68537},
 			expr: &actionExpr{
-				pos: position{line: 2123, col: 5, offset: 68550},
+				pos: position{line: 2124, col: 5, offset: 68577},
 				run: (*parser).callonSingleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2123, col: 5, offset: 68550},
+					pos: position{line: 2124, col: 5, offset: 68577},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2893, col: 11, offset: 91339},
+							pos: position{line: 2894, col: 11, offset: 91366},
 							expr: &anyMatcher{
-								line: 2893, col: 13, offset: 91341,
+								line: 2894, col: 13, offset: 91368,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2124, col: 5, offset: 68561},
+							pos: position{line: 2125, col: 5, offset: 68588},
 							expr: &ruleRefExpr{
-								pos:  position{line: 2124, col: 6, offset: 68562},
+								pos:  position{line: 2125, col: 6, offset: 68589},
 								name: "SingleQuoteMonospaceTextEndDelimiter",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2125, col: 5, offset: 68603},
+							pos:   position{line: 2126, col: 5, offset: 68630},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2125, col: 14, offset: 68612},
+								pos:  position{line: 2126, col: 14, offset: 68639},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42334,35 +42552,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMonospaceText",
-			pos:  position{line: 2130, col: 1, offset: 68700},
+			pos:  position{line: 2131, col: 1, offset: 68727},
 			expr: &choiceExpr{
-				pos: position{line: 2132, col: 5, offset: 68771},
+				pos: position{line: 2133, col: 5, offset: 68798},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2132, col: 5, offset: 68771},
+						pos: position{line: 2133, col: 5, offset: 68798},
 						run: (*parser).callonEscapedMonospaceText2,
 						expr: &seqExpr{
-							pos: position{line: 2132, col: 5, offset: 68771},
+							pos: position{line: 2133, col: 5, offset: 68798},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2132, col: 5, offset: 68771},
+									pos:   position{line: 2133, col: 5, offset: 68798},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1856, col: 25, offset: 59966},
+										pos: position{line: 1857, col: 25, offset: 59993},
 										run: (*parser).callonEscapedMonospaceText5,
 										expr: &seqExpr{
-											pos: position{line: 1856, col: 25, offset: 59966},
+											pos: position{line: 1857, col: 25, offset: 59993},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1856, col: 25, offset: 59966},
+													pos:        position{line: 1857, col: 25, offset: 59993},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1856, col: 30, offset: 59971},
+													pos: position{line: 1857, col: 30, offset: 59998},
 													expr: &litMatcher{
-														pos:        position{line: 1856, col: 30, offset: 59971},
+														pos:        position{line: 1857, col: 30, offset: 59998},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42373,21 +42591,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2132, col: 40, offset: 68806},
+									pos:        position{line: 2133, col: 40, offset: 68833},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2132, col: 45, offset: 68811},
+									pos:   position{line: 2133, col: 45, offset: 68838},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2132, col: 55, offset: 68821},
+										pos:  position{line: 2133, col: 55, offset: 68848},
 										name: "DoubleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2132, col: 89, offset: 68855},
+									pos:        position{line: 2133, col: 89, offset: 68882},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
@@ -42396,21 +42614,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2136, col: 7, offset: 69024},
+						pos: position{line: 2137, col: 7, offset: 69051},
 						run: (*parser).callonEscapedMonospaceText14,
 						expr: &seqExpr{
-							pos: position{line: 2136, col: 7, offset: 69024},
+							pos: position{line: 2137, col: 7, offset: 69051},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2136, col: 7, offset: 69024},
+									pos:   position{line: 2137, col: 7, offset: 69051},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1852, col: 25, offset: 59893},
+										pos: position{line: 1853, col: 25, offset: 59920},
 										run: (*parser).callonEscapedMonospaceText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1852, col: 25, offset: 59893},
+											pos: position{line: 1853, col: 25, offset: 59920},
 											expr: &litMatcher{
-												pos:        position{line: 1852, col: 25, offset: 59893},
+												pos:        position{line: 1853, col: 25, offset: 59920},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42419,21 +42637,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2136, col: 42, offset: 69059},
+									pos:        position{line: 2137, col: 42, offset: 69086},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2136, col: 47, offset: 69064},
+									pos:   position{line: 2137, col: 47, offset: 69091},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2136, col: 57, offset: 69074},
+										pos:  position{line: 2137, col: 57, offset: 69101},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2136, col: 91, offset: 69108},
+									pos:        position{line: 2137, col: 91, offset: 69135},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42442,21 +42660,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2141, col: 7, offset: 69314},
+						pos: position{line: 2142, col: 7, offset: 69341},
 						run: (*parser).callonEscapedMonospaceText24,
 						expr: &seqExpr{
-							pos: position{line: 2141, col: 7, offset: 69314},
+							pos: position{line: 2142, col: 7, offset: 69341},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2141, col: 7, offset: 69314},
+									pos:   position{line: 2142, col: 7, offset: 69341},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1852, col: 25, offset: 59893},
+										pos: position{line: 1853, col: 25, offset: 59920},
 										run: (*parser).callonEscapedMonospaceText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1852, col: 25, offset: 59893},
+											pos: position{line: 1853, col: 25, offset: 59920},
 											expr: &litMatcher{
-												pos:        position{line: 1852, col: 25, offset: 59893},
+												pos:        position{line: 1853, col: 25, offset: 59920},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42465,21 +42683,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2141, col: 42, offset: 69349},
+									pos:        position{line: 2142, col: 42, offset: 69376},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2141, col: 46, offset: 69353},
+									pos:   position{line: 2142, col: 46, offset: 69380},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2141, col: 56, offset: 69363},
+										pos:  position{line: 2142, col: 56, offset: 69390},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2141, col: 90, offset: 69397},
+									pos:        position{line: 2142, col: 90, offset: 69424},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42492,29 +42710,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedText",
-			pos:  position{line: 2158, col: 1, offset: 69882},
+			pos:  position{line: 2159, col: 1, offset: 69909},
 			expr: &actionExpr{
-				pos: position{line: 2159, col: 5, offset: 69912},
+				pos: position{line: 2160, col: 5, offset: 69939},
 				run: (*parser).callonDoubleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2159, col: 5, offset: 69912},
+					pos: position{line: 2160, col: 5, offset: 69939},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2154, col: 40, offset: 69833},
+							pos:        position{line: 2155, col: 40, offset: 69860},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2160, col: 5, offset: 69953},
+							pos:   position{line: 2161, col: 5, offset: 69980},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2160, col: 15, offset: 69963},
+								pos:  position{line: 2161, col: 15, offset: 69990},
 								name: "DoubleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2156, col: 38, offset: 69876},
+							pos:        position{line: 2157, col: 38, offset: 69903},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
@@ -42525,44 +42743,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElements",
-			pos:  position{line: 2165, col: 1, offset: 70129},
+			pos:  position{line: 2166, col: 1, offset: 70156},
 			expr: &zeroOrMoreExpr{
-				pos: position{line: 2165, col: 34, offset: 70162},
+				pos: position{line: 2166, col: 34, offset: 70189},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2165, col: 34, offset: 70162},
+					pos:  position{line: 2166, col: 34, offset: 70189},
 					name: "DoubleQuoteMarkedTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMarkedTextElement",
-			pos:  position{line: 2167, col: 1, offset: 70193},
+			pos:  position{line: 2168, col: 1, offset: 70220},
 			expr: &actionExpr{
-				pos: position{line: 2168, col: 5, offset: 70262},
+				pos: position{line: 2169, col: 5, offset: 70289},
 				run: (*parser).callonDoubleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2168, col: 5, offset: 70262},
+					pos: position{line: 2169, col: 5, offset: 70289},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2893, col: 11, offset: 91339},
+							pos: position{line: 2894, col: 11, offset: 91366},
 							expr: &anyMatcher{
-								line: 2893, col: 13, offset: 91341,
+								line: 2894, col: 13, offset: 91368,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2169, col: 5, offset: 70273},
+							pos: position{line: 2170, col: 5, offset: 70300},
 							expr: &litMatcher{
-								pos:        position{line: 2156, col: 38, offset: 69876},
+								pos:        position{line: 2157, col: 38, offset: 69903},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2170, col: 5, offset: 70312},
+							pos:   position{line: 2171, col: 5, offset: 70339},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2170, col: 14, offset: 70321},
+								pos:  position{line: 2171, col: 14, offset: 70348},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42572,29 +42790,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedText",
-			pos:  position{line: 2195, col: 1, offset: 71003},
+			pos:  position{line: 2196, col: 1, offset: 71030},
 			expr: &actionExpr{
-				pos: position{line: 2196, col: 5, offset: 71033},
+				pos: position{line: 2197, col: 5, offset: 71060},
 				run: (*parser).callonSingleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2196, col: 5, offset: 71033},
+					pos: position{line: 2197, col: 5, offset: 71060},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2179, col: 5, offset: 70569},
+							pos:        position{line: 2180, col: 5, offset: 70596},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2180, col: 5, offset: 70578},
+							pos: position{line: 2181, col: 5, offset: 70605},
 							run: (*parser).callonSingleQuoteMarkedText4,
 						},
 						&andExpr{
-							pos: position{line: 2184, col: 5, offset: 70698},
+							pos: position{line: 2185, col: 5, offset: 70725},
 							expr: &notExpr{
-								pos: position{line: 2184, col: 7, offset: 70700},
+								pos: position{line: 2185, col: 7, offset: 70727},
 								expr: &litMatcher{
-									pos:        position{line: 2184, col: 8, offset: 70701},
+									pos:        position{line: 2185, col: 8, offset: 70728},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -42602,38 +42820,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2197, col: 5, offset: 71073},
+							pos:   position{line: 2198, col: 5, offset: 71100},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2197, col: 15, offset: 71083},
+								pos:  position{line: 2198, col: 15, offset: 71110},
 								name: "SingleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2187, col: 5, offset: 70806},
+							pos:        position{line: 2188, col: 5, offset: 70833},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&notExpr{
-							pos: position{line: 2188, col: 5, offset: 70814},
+							pos: position{line: 2189, col: 5, offset: 70841},
 							expr: &litMatcher{
-								pos:        position{line: 2188, col: 6, offset: 70815},
+								pos:        position{line: 2189, col: 6, offset: 70842},
 								val:        "#",
 								ignoreCase: false,
 								want:       "\"#\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2189, col: 5, offset: 70878},
+							pos: position{line: 2190, col: 5, offset: 70905},
 							run: (*parser).callonSingleQuoteMarkedText13,
 						},
 						&andExpr{
-							pos: position{line: 2193, col: 5, offset: 70989},
+							pos: position{line: 2194, col: 5, offset: 71016},
 							expr: &notExpr{
-								pos: position{line: 2193, col: 7, offset: 70991},
+								pos: position{line: 2194, col: 7, offset: 71018},
 								expr: &charClassMatcher{
-									pos:        position{line: 2766, col: 13, offset: 88079},
+									pos:        position{line: 2767, col: 13, offset: 88106},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -42647,20 +42865,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElements",
-			pos:  position{line: 2202, col: 1, offset: 71250},
+			pos:  position{line: 2203, col: 1, offset: 71277},
 			expr: &actionExpr{
-				pos: position{line: 2203, col: 5, offset: 71288},
+				pos: position{line: 2204, col: 5, offset: 71315},
 				run: (*parser).callonSingleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2203, col: 5, offset: 71288},
+					pos: position{line: 2204, col: 5, offset: 71315},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2203, col: 5, offset: 71288},
+							pos: position{line: 2204, col: 5, offset: 71315},
 							expr: &actionExpr{
-								pos: position{line: 2876, col: 10, offset: 91005},
+								pos: position{line: 2877, col: 10, offset: 91032},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2876, col: 10, offset: 91005},
+									pos:        position{line: 2877, col: 10, offset: 91032},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42669,18 +42887,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2204, col: 5, offset: 71327},
+							pos:   position{line: 2205, col: 5, offset: 71354},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2204, col: 14, offset: 71336},
+								pos: position{line: 2205, col: 14, offset: 71363},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2204, col: 15, offset: 71337},
+									pos:  position{line: 2205, col: 15, offset: 71364},
 									name: "SingleQuoteMarkedTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2205, col: 5, offset: 71373},
+							pos: position{line: 2206, col: 5, offset: 71400},
 							run: (*parser).callonSingleQuoteMarkedTextElements9,
 						},
 					},
@@ -42689,49 +42907,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElement",
-			pos:  position{line: 2211, col: 1, offset: 71514},
+			pos:  position{line: 2212, col: 1, offset: 71541},
 			expr: &actionExpr{
-				pos: position{line: 2212, col: 5, offset: 71551},
+				pos: position{line: 2213, col: 5, offset: 71578},
 				run: (*parser).callonSingleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2212, col: 5, offset: 71551},
+					pos: position{line: 2213, col: 5, offset: 71578},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2893, col: 11, offset: 91339},
+							pos: position{line: 2894, col: 11, offset: 91366},
 							expr: &anyMatcher{
-								line: 2893, col: 13, offset: 91341,
+								line: 2894, col: 13, offset: 91368,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2213, col: 5, offset: 71562},
+							pos: position{line: 2214, col: 5, offset: 71589},
 							expr: &seqExpr{
-								pos: position{line: 2187, col: 5, offset: 70806},
+								pos: position{line: 2188, col: 5, offset: 70833},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2187, col: 5, offset: 70806},
+										pos:        position{line: 2188, col: 5, offset: 70833},
 										val:        "#",
 										ignoreCase: false,
 										want:       "\"#\"",
 									},
 									&notExpr{
-										pos: position{line: 2188, col: 5, offset: 70814},
+										pos: position{line: 2189, col: 5, offset: 70841},
 										expr: &litMatcher{
-											pos:        position{line: 2188, col: 6, offset: 70815},
+											pos:        position{line: 2189, col: 6, offset: 70842},
 											val:        "#",
 											ignoreCase: false,
 											want:       "\"#\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2189, col: 5, offset: 70878},
+										pos: position{line: 2190, col: 5, offset: 70905},
 										run: (*parser).callonSingleQuoteMarkedTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2193, col: 5, offset: 70989},
+										pos: position{line: 2194, col: 5, offset: 71016},
 										expr: &notExpr{
-											pos: position{line: 2193, col: 7, offset: 70991},
+											pos: position{line: 2194, col: 7, offset: 71018},
 											expr: &charClassMatcher{
-												pos:        position{line: 2766, col: 13, offset: 88079},
+												pos:        position{line: 2767, col: 13, offset: 88106},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42743,10 +42961,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2214, col: 5, offset: 71601},
+							pos:   position{line: 2215, col: 5, offset: 71628},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2214, col: 14, offset: 71610},
+								pos:  position{line: 2215, col: 14, offset: 71637},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42756,35 +42974,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMarkedText",
-			pos:  position{line: 2219, col: 1, offset: 71698},
+			pos:  position{line: 2220, col: 1, offset: 71725},
 			expr: &choiceExpr{
-				pos: position{line: 2221, col: 5, offset: 71762},
+				pos: position{line: 2222, col: 5, offset: 71789},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2221, col: 5, offset: 71762},
+						pos: position{line: 2222, col: 5, offset: 71789},
 						run: (*parser).callonEscapedMarkedText2,
 						expr: &seqExpr{
-							pos: position{line: 2221, col: 5, offset: 71762},
+							pos: position{line: 2222, col: 5, offset: 71789},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2221, col: 5, offset: 71762},
+									pos:   position{line: 2222, col: 5, offset: 71789},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1856, col: 25, offset: 59966},
+										pos: position{line: 1857, col: 25, offset: 59993},
 										run: (*parser).callonEscapedMarkedText5,
 										expr: &seqExpr{
-											pos: position{line: 1856, col: 25, offset: 59966},
+											pos: position{line: 1857, col: 25, offset: 59993},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1856, col: 25, offset: 59966},
+													pos:        position{line: 1857, col: 25, offset: 59993},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1856, col: 30, offset: 59971},
+													pos: position{line: 1857, col: 30, offset: 59998},
 													expr: &litMatcher{
-														pos:        position{line: 1856, col: 30, offset: 59971},
+														pos:        position{line: 1857, col: 30, offset: 59998},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42795,21 +43013,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2221, col: 40, offset: 71797},
+									pos:        position{line: 2222, col: 40, offset: 71824},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2221, col: 45, offset: 71802},
+									pos:   position{line: 2222, col: 45, offset: 71829},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2221, col: 55, offset: 71812},
+										pos:  position{line: 2222, col: 55, offset: 71839},
 										name: "DoubleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2221, col: 86, offset: 71843},
+									pos:        position{line: 2222, col: 86, offset: 71870},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
@@ -42818,21 +43036,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2225, col: 7, offset: 72008},
+						pos: position{line: 2226, col: 7, offset: 72035},
 						run: (*parser).callonEscapedMarkedText14,
 						expr: &seqExpr{
-							pos: position{line: 2225, col: 7, offset: 72008},
+							pos: position{line: 2226, col: 7, offset: 72035},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2225, col: 7, offset: 72008},
+									pos:   position{line: 2226, col: 7, offset: 72035},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1852, col: 25, offset: 59893},
+										pos: position{line: 1853, col: 25, offset: 59920},
 										run: (*parser).callonEscapedMarkedText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1852, col: 25, offset: 59893},
+											pos: position{line: 1853, col: 25, offset: 59920},
 											expr: &litMatcher{
-												pos:        position{line: 1852, col: 25, offset: 59893},
+												pos:        position{line: 1853, col: 25, offset: 59920},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42841,21 +43059,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2225, col: 42, offset: 72043},
+									pos:        position{line: 2226, col: 42, offset: 72070},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2225, col: 47, offset: 72048},
+									pos:   position{line: 2226, col: 47, offset: 72075},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2225, col: 57, offset: 72058},
+										pos:  position{line: 2226, col: 57, offset: 72085},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2225, col: 88, offset: 72089},
+									pos:        position{line: 2226, col: 88, offset: 72116},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -42864,21 +43082,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2230, col: 7, offset: 72292},
+						pos: position{line: 2231, col: 7, offset: 72319},
 						run: (*parser).callonEscapedMarkedText24,
 						expr: &seqExpr{
-							pos: position{line: 2230, col: 7, offset: 72292},
+							pos: position{line: 2231, col: 7, offset: 72319},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2230, col: 7, offset: 72292},
+									pos:   position{line: 2231, col: 7, offset: 72319},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1852, col: 25, offset: 59893},
+										pos: position{line: 1853, col: 25, offset: 59920},
 										run: (*parser).callonEscapedMarkedText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1852, col: 25, offset: 59893},
+											pos: position{line: 1853, col: 25, offset: 59920},
 											expr: &litMatcher{
-												pos:        position{line: 1852, col: 25, offset: 59893},
+												pos:        position{line: 1853, col: 25, offset: 59920},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42887,21 +43105,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2230, col: 42, offset: 72327},
+									pos:        position{line: 2231, col: 42, offset: 72354},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2230, col: 46, offset: 72331},
+									pos:   position{line: 2231, col: 46, offset: 72358},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2230, col: 56, offset: 72341},
+										pos:  position{line: 2231, col: 56, offset: 72368},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2230, col: 87, offset: 72372},
+									pos:        position{line: 2231, col: 87, offset: 72399},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -42914,29 +43132,29 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptText",
-			pos:  position{line: 2237, col: 1, offset: 72639},
+			pos:  position{line: 2238, col: 1, offset: 72666},
 			expr: &actionExpr{
-				pos: position{line: 2238, col: 5, offset: 72661},
+				pos: position{line: 2239, col: 5, offset: 72688},
 				run: (*parser).callonSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2238, col: 5, offset: 72661},
+					pos: position{line: 2239, col: 5, offset: 72688},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2244, col: 27, offset: 72876},
+							pos:        position{line: 2245, col: 27, offset: 72903},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2239, col: 5, offset: 72688},
+							pos:   position{line: 2240, col: 5, offset: 72715},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2239, col: 14, offset: 72697},
+								pos:  position{line: 2240, col: 14, offset: 72724},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2244, col: 27, offset: 72876},
+							pos:        position{line: 2245, col: 27, offset: 72903},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -42947,43 +43165,43 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptTextElement",
-			pos:  position{line: 2246, col: 1, offset: 72881},
+			pos:  position{line: 2247, col: 1, offset: 72908},
 			expr: &choiceExpr{
-				pos: position{line: 2246, col: 25, offset: 72905},
+				pos: position{line: 2247, col: 25, offset: 72932},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2246, col: 25, offset: 72905},
+						pos:  position{line: 2247, col: 25, offset: 72932},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2248, col: 21, offset: 72957},
+						pos: position{line: 2249, col: 21, offset: 72984},
 						run: (*parser).callonSubscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2248, col: 21, offset: 72957},
+							pos:   position{line: 2249, col: 21, offset: 72984},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2248, col: 30, offset: 72966},
+								pos: position{line: 2249, col: 30, offset: 72993},
 								expr: &choiceExpr{
-									pos: position{line: 2248, col: 31, offset: 72967},
+									pos: position{line: 2249, col: 31, offset: 72994},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2470, col: 5, offset: 79437},
+											pos: position{line: 2471, col: 5, offset: 79464},
 											run: (*parser).callonSubscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2470, col: 5, offset: 79437},
+												pos: position{line: 2471, col: 5, offset: 79464},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2470, col: 5, offset: 79437},
+														pos: position{line: 2471, col: 5, offset: 79464},
 														run: (*parser).callonSubscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2473, col: 5, offset: 79513},
+														pos:   position{line: 2474, col: 5, offset: 79540},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2474, col: 9, offset: 79531},
+															pos: position{line: 2475, col: 9, offset: 79558},
 															run: (*parser).callonSubscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2474, col: 10, offset: 79532},
+																pos:        position{line: 2475, col: 10, offset: 79559},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -42995,7 +43213,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2248, col: 50, offset: 72986},
+											pos:        position{line: 2249, col: 50, offset: 73013},
 											val:        "[^\\r\\n ~]",
 											chars:      []rune{'\r', '\n', ' ', '~'},
 											ignoreCase: false,
@@ -43011,23 +43229,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2252, col: 1, offset: 73036},
+			pos:  position{line: 2253, col: 1, offset: 73063},
 			expr: &actionExpr{
-				pos: position{line: 2254, col: 5, offset: 73103},
+				pos: position{line: 2255, col: 5, offset: 73130},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2254, col: 5, offset: 73103},
+					pos: position{line: 2255, col: 5, offset: 73130},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2254, col: 5, offset: 73103},
+							pos:   position{line: 2255, col: 5, offset: 73130},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1852, col: 25, offset: 59893},
+								pos: position{line: 1853, col: 25, offset: 59920},
 								run: (*parser).callonEscapedSubscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1852, col: 25, offset: 59893},
+									pos: position{line: 1853, col: 25, offset: 59920},
 									expr: &litMatcher{
-										pos:        position{line: 1852, col: 25, offset: 59893},
+										pos:        position{line: 1853, col: 25, offset: 59920},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -43036,21 +43254,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2244, col: 27, offset: 72876},
+							pos:        position{line: 2245, col: 27, offset: 72903},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2256, col: 5, offset: 73171},
+							pos:   position{line: 2257, col: 5, offset: 73198},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2256, col: 14, offset: 73180},
+								pos:  position{line: 2257, col: 14, offset: 73207},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2244, col: 27, offset: 72876},
+							pos:        position{line: 2245, col: 27, offset: 72903},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -43061,29 +43279,29 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2264, col: 1, offset: 73443},
+			pos:  position{line: 2265, col: 1, offset: 73470},
 			expr: &actionExpr{
-				pos: position{line: 2265, col: 5, offset: 73467},
+				pos: position{line: 2266, col: 5, offset: 73494},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2265, col: 5, offset: 73467},
+					pos: position{line: 2266, col: 5, offset: 73494},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2271, col: 29, offset: 73694},
+							pos:        position{line: 2272, col: 29, offset: 73721},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2266, col: 5, offset: 73497},
+							pos:   position{line: 2267, col: 5, offset: 73524},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2266, col: 14, offset: 73506},
+								pos:  position{line: 2267, col: 14, offset: 73533},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2271, col: 29, offset: 73694},
+							pos:        position{line: 2272, col: 29, offset: 73721},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -43094,43 +43312,43 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2273, col: 1, offset: 73699},
+			pos:  position{line: 2274, col: 1, offset: 73726},
 			expr: &choiceExpr{
-				pos: position{line: 2273, col: 27, offset: 73725},
+				pos: position{line: 2274, col: 27, offset: 73752},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2273, col: 27, offset: 73725},
+						pos:  position{line: 2274, col: 27, offset: 73752},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2275, col: 23, offset: 73781},
+						pos: position{line: 2276, col: 23, offset: 73808},
 						run: (*parser).callonSuperscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2275, col: 23, offset: 73781},
+							pos:   position{line: 2276, col: 23, offset: 73808},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2275, col: 32, offset: 73790},
+								pos: position{line: 2276, col: 32, offset: 73817},
 								expr: &choiceExpr{
-									pos: position{line: 2275, col: 33, offset: 73791},
+									pos: position{line: 2276, col: 33, offset: 73818},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2470, col: 5, offset: 79437},
+											pos: position{line: 2471, col: 5, offset: 79464},
 											run: (*parser).callonSuperscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2470, col: 5, offset: 79437},
+												pos: position{line: 2471, col: 5, offset: 79464},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2470, col: 5, offset: 79437},
+														pos: position{line: 2471, col: 5, offset: 79464},
 														run: (*parser).callonSuperscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2473, col: 5, offset: 79513},
+														pos:   position{line: 2474, col: 5, offset: 79540},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2474, col: 9, offset: 79531},
+															pos: position{line: 2475, col: 9, offset: 79558},
 															run: (*parser).callonSuperscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2474, col: 10, offset: 79532},
+																pos:        position{line: 2475, col: 10, offset: 79559},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -43142,7 +43360,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2275, col: 52, offset: 73810},
+											pos:        position{line: 2276, col: 52, offset: 73837},
 											val:        "[^\\r\\n ^]",
 											chars:      []rune{'\r', '\n', ' ', '^'},
 											ignoreCase: false,
@@ -43158,23 +43376,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2279, col: 1, offset: 73860},
+			pos:  position{line: 2280, col: 1, offset: 73887},
 			expr: &actionExpr{
-				pos: position{line: 2281, col: 5, offset: 73932},
+				pos: position{line: 2282, col: 5, offset: 73959},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2281, col: 5, offset: 73932},
+					pos: position{line: 2282, col: 5, offset: 73959},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2281, col: 5, offset: 73932},
+							pos:   position{line: 2282, col: 5, offset: 73959},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1852, col: 25, offset: 59893},
+								pos: position{line: 1853, col: 25, offset: 59920},
 								run: (*parser).callonEscapedSuperscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1852, col: 25, offset: 59893},
+									pos: position{line: 1853, col: 25, offset: 59920},
 									expr: &litMatcher{
-										pos:        position{line: 1852, col: 25, offset: 59893},
+										pos:        position{line: 1853, col: 25, offset: 59920},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -43183,21 +43401,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2271, col: 29, offset: 73694},
+							pos:        position{line: 2272, col: 29, offset: 73721},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2283, col: 5, offset: 74002},
+							pos:   position{line: 2284, col: 5, offset: 74029},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2283, col: 14, offset: 74011},
+								pos:  position{line: 2284, col: 14, offset: 74038},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2271, col: 29, offset: 73694},
+							pos:        position{line: 2272, col: 29, offset: 73721},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -43208,27 +43426,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2292, col: 1, offset: 74480},
+			pos:  position{line: 2293, col: 1, offset: 74507},
 			expr: &actionExpr{
-				pos: position{line: 2293, col: 5, offset: 74496},
+				pos: position{line: 2294, col: 5, offset: 74523},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2293, col: 5, offset: 74496},
+					pos: position{line: 2294, col: 5, offset: 74523},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2293, col: 5, offset: 74496},
+							pos: position{line: 2294, col: 5, offset: 74523},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2296, col: 5, offset: 74559},
+							pos:   position{line: 2297, col: 5, offset: 74586},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2296, col: 12, offset: 74566},
+								pos: position{line: 2297, col: 12, offset: 74593},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2296, col: 12, offset: 74566},
+									pos: position{line: 2297, col: 12, offset: 74593},
 									expr: &litMatcher{
-										pos:        position{line: 2296, col: 13, offset: 74567},
+										pos:        position{line: 2297, col: 13, offset: 74594},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -43237,16 +43455,16 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2300, col: 5, offset: 74675},
+							pos: position{line: 2301, col: 5, offset: 74702},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2880, col: 11, offset: 91066},
+							pos: position{line: 2881, col: 11, offset: 91093},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2880, col: 11, offset: 91066},
+								pos: position{line: 2881, col: 11, offset: 91093},
 								expr: &charClassMatcher{
-									pos:        position{line: 2880, col: 11, offset: 91066},
+									pos:        position{line: 2881, col: 11, offset: 91093},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43255,36 +43473,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2304, col: 12, offset: 74834},
+							pos:   position{line: 2305, col: 12, offset: 74861},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2304, col: 19, offset: 74841},
+								pos:  position{line: 2305, col: 19, offset: 74868},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2898, col: 8, offset: 91403},
+							pos: position{line: 2899, col: 8, offset: 91430},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2885, col: 12, offset: 91176},
+									pos: position{line: 2886, col: 12, offset: 91203},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2885, col: 13, offset: 91177},
+										pos: position{line: 2886, col: 13, offset: 91204},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2885, col: 13, offset: 91177},
+												pos:        position{line: 2886, col: 13, offset: 91204},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 20, offset: 91184},
+												pos:        position{line: 2886, col: 20, offset: 91211},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 29, offset: 91193},
+												pos:        position{line: 2886, col: 29, offset: 91220},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -43293,9 +43511,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2895, col: 8, offset: 91353},
+									pos: position{line: 2896, col: 8, offset: 91380},
 									expr: &anyMatcher{
-										line: 2895, col: 9, offset: 91354,
+										line: 2896, col: 9, offset: 91381,
 									},
 								},
 							},
@@ -43306,24 +43524,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2308, col: 1, offset: 74937},
+			pos:  position{line: 2309, col: 1, offset: 74964},
 			expr: &actionExpr{
-				pos: position{line: 2309, col: 5, offset: 74958},
+				pos: position{line: 2310, col: 5, offset: 74985},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2309, col: 5, offset: 74958},
+					pos: position{line: 2310, col: 5, offset: 74985},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2309, col: 5, offset: 74958},
+							pos: position{line: 2310, col: 5, offset: 74985},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2314, col: 5, offset: 75073},
+							pos:   position{line: 2315, col: 5, offset: 75100},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2314, col: 14, offset: 75082},
+								pos: position{line: 2315, col: 14, offset: 75109},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2314, col: 15, offset: 75083},
+									pos:  position{line: 2315, col: 15, offset: 75110},
 									name: "SectionTitleElement",
 								},
 							},
@@ -43334,38 +43552,38 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2318, col: 1, offset: 75164},
+			pos:  position{line: 2319, col: 1, offset: 75191},
 			expr: &actionExpr{
-				pos: position{line: 2319, col: 5, offset: 75191},
+				pos: position{line: 2320, col: 5, offset: 75218},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2319, col: 5, offset: 75191},
+					pos: position{line: 2320, col: 5, offset: 75218},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2319, col: 5, offset: 75191},
+							pos: position{line: 2320, col: 5, offset: 75218},
 							expr: &choiceExpr{
-								pos: position{line: 2898, col: 8, offset: 91403},
+								pos: position{line: 2899, col: 8, offset: 91430},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2885, col: 12, offset: 91176},
+										pos: position{line: 2886, col: 12, offset: 91203},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2885, col: 13, offset: 91177},
+											pos: position{line: 2886, col: 13, offset: 91204},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2885, col: 13, offset: 91177},
+													pos:        position{line: 2886, col: 13, offset: 91204},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2885, col: 20, offset: 91184},
+													pos:        position{line: 2886, col: 20, offset: 91211},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2885, col: 29, offset: 91193},
+													pos:        position{line: 2886, col: 29, offset: 91220},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -43374,29 +43592,29 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2895, col: 8, offset: 91353},
+										pos: position{line: 2896, col: 8, offset: 91380},
 										expr: &anyMatcher{
-											line: 2895, col: 9, offset: 91354,
+											line: 2896, col: 9, offset: 91381,
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2320, col: 5, offset: 75200},
+							pos:   position{line: 2321, col: 5, offset: 75227},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2320, col: 14, offset: 75209},
+								pos: position{line: 2321, col: 14, offset: 75236},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2320, col: 14, offset: 75209},
+										pos:  position{line: 2321, col: 14, offset: 75236},
 										name: "SectionTitleLineElement",
 									},
 									&actionExpr{
-										pos: position{line: 2815, col: 12, offset: 89313},
+										pos: position{line: 2816, col: 12, offset: 89340},
 										run: (*parser).callonSectionTitleElement15,
 										expr: &charClassMatcher{
-											pos:        position{line: 2815, col: 12, offset: 89313},
+											pos:        position{line: 2816, col: 12, offset: 89340},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -43412,21 +43630,21 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleLineElement",
-			pos:  position{line: 2325, col: 1, offset: 75313},
+			pos:  position{line: 2326, col: 1, offset: 75340},
 			expr: &actionExpr{
-				pos: position{line: 2326, col: 5, offset: 75344},
+				pos: position{line: 2327, col: 5, offset: 75371},
 				run: (*parser).callonSectionTitleLineElement1,
 				expr: &seqExpr{
-					pos: position{line: 2326, col: 5, offset: 75344},
+					pos: position{line: 2327, col: 5, offset: 75371},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2326, col: 5, offset: 75344},
+							pos:   position{line: 2327, col: 5, offset: 75371},
 							label: "start",
 							expr: &actionExpr{
-								pos: position{line: 2901, col: 16, offset: 91527},
+								pos: position{line: 2902, col: 16, offset: 91554},
 								run: (*parser).callonSectionTitleLineElement4,
 								expr: &litMatcher{
-									pos:        position{line: 2901, col: 16, offset: 91527},
+									pos:        position{line: 2902, col: 16, offset: 91554},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -43434,27 +43652,27 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2327, col: 5, offset: 75368},
+							pos:   position{line: 2328, col: 5, offset: 75395},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2328, col: 9, offset: 75386},
+								pos: position{line: 2329, col: 9, offset: 75413},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2775, col: 5, offset: 88226},
+										pos: position{line: 2776, col: 5, offset: 88253},
 										run: (*parser).callonSectionTitleLineElement8,
 										expr: &seqExpr{
-											pos: position{line: 2775, col: 5, offset: 88226},
+											pos: position{line: 2776, col: 5, offset: 88253},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2775, col: 5, offset: 88226},
+													pos:   position{line: 2776, col: 5, offset: 88253},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2775, col: 11, offset: 88232},
+														pos: position{line: 2776, col: 11, offset: 88259},
 														run: (*parser).callonSectionTitleLineElement11,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2775, col: 11, offset: 88232},
+															pos: position{line: 2776, col: 11, offset: 88259},
 															expr: &charClassMatcher{
-																pos:        position{line: 2775, col: 11, offset: 88232},
+																pos:        position{line: 2776, col: 11, offset: 88259},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -43464,44 +43682,44 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2778, col: 5, offset: 88290},
+													pos: position{line: 2779, col: 5, offset: 88317},
 													expr: &seqExpr{
-														pos: position{line: 2779, col: 9, offset: 88301},
+														pos: position{line: 2780, col: 9, offset: 88328},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2779, col: 9, offset: 88301},
+																pos:        position{line: 2780, col: 9, offset: 88328},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2780, col: 9, offset: 88350},
+																pos: position{line: 2781, col: 9, offset: 88377},
 																run: (*parser).callonSectionTitleLineElement17,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2784, col: 5, offset: 88430},
+													pos: position{line: 2785, col: 5, offset: 88457},
 													expr: &seqExpr{
-														pos: position{line: 2785, col: 9, offset: 88441},
+														pos: position{line: 2786, col: 9, offset: 88468},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2785, col: 9, offset: 88441},
+																pos: position{line: 2786, col: 9, offset: 88468},
 																expr: &seqExpr{
-																	pos: position{line: 2785, col: 10, offset: 88442},
+																	pos: position{line: 2786, col: 10, offset: 88469},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2785, col: 10, offset: 88442},
+																			pos:        position{line: 2786, col: 10, offset: 88469},
 																			val:        "[._%+-]",
 																			chars:      []rune{'.', '_', '%', '+', '-'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2785, col: 18, offset: 88450},
+																			pos: position{line: 2786, col: 18, offset: 88477},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2785, col: 18, offset: 88450},
+																				pos:        position{line: 2786, col: 18, offset: 88477},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -43512,13 +43730,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2785, col: 30, offset: 88462},
+																pos:        position{line: 2786, col: 30, offset: 88489},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2785, col: 34, offset: 88466},
+																pos:        position{line: 2786, col: 34, offset: 88493},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -43531,12 +43749,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2880, col: 11, offset: 91066},
+										pos: position{line: 2881, col: 11, offset: 91093},
 										run: (*parser).callonSectionTitleLineElement27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2880, col: 11, offset: 91066},
+											pos: position{line: 2881, col: 11, offset: 91093},
 											expr: &charClassMatcher{
-												pos:        position{line: 2880, col: 11, offset: 91066},
+												pos:        position{line: 2881, col: 11, offset: 91093},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -43545,25 +43763,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2501, col: 5, offset: 80608},
+										pos: position{line: 2502, col: 5, offset: 80635},
 										run: (*parser).callonSectionTitleLineElement30,
 										expr: &seqExpr{
-											pos: position{line: 2501, col: 5, offset: 80608},
+											pos: position{line: 2502, col: 5, offset: 80635},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2501, col: 5, offset: 80608},
+													pos: position{line: 2502, col: 5, offset: 80635},
 													run: (*parser).callonSectionTitleLineElement32,
 												},
 												&litMatcher{
-													pos:        position{line: 2504, col: 5, offset: 80679},
+													pos:        position{line: 2505, col: 5, offset: 80706},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2504, col: 10, offset: 80684},
+													pos: position{line: 2505, col: 10, offset: 80711},
 													expr: &charClassMatcher{
-														pos:        position{line: 2504, col: 11, offset: 80685},
+														pos:        position{line: 2505, col: 11, offset: 80712},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -43574,29 +43792,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2510, col: 5, offset: 80877},
+										pos: position{line: 2511, col: 5, offset: 80904},
 										run: (*parser).callonSectionTitleLineElement36,
 										expr: &seqExpr{
-											pos: position{line: 2510, col: 5, offset: 80877},
+											pos: position{line: 2511, col: 5, offset: 80904},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2510, col: 5, offset: 80877},
+													pos: position{line: 2511, col: 5, offset: 80904},
 													run: (*parser).callonSectionTitleLineElement38,
 												},
 												&andCodeExpr{
-													pos: position{line: 2513, col: 5, offset: 80948},
+													pos: position{line: 2514, col: 5, offset: 80975},
 													run: (*parser).callonSectionTitleLineElement39,
 												},
 												&litMatcher{
-													pos:        position{line: 2517, col: 5, offset: 81073},
+													pos:        position{line: 2518, col: 5, offset: 81100},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2517, col: 9, offset: 81077},
+													pos: position{line: 2518, col: 9, offset: 81104},
 													expr: &charClassMatcher{
-														pos:        position{line: 2517, col: 10, offset: 81078},
+														pos:        position{line: 2518, col: 10, offset: 81105},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -43607,31 +43825,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2331, col: 11, offset: 75451},
+										pos:  position{line: 2332, col: 11, offset: 75478},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2793, col: 5, offset: 88659},
+										pos: position{line: 2794, col: 5, offset: 88686},
 										run: (*parser).callonSectionTitleLineElement44,
 										expr: &choiceExpr{
-											pos: position{line: 2794, col: 9, offset: 88669},
+											pos: position{line: 2795, col: 9, offset: 88696},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2794, col: 10, offset: 88670},
+													pos:        position{line: 2795, col: 10, offset: 88697},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2796, col: 13, offset: 88767},
+													pos: position{line: 2797, col: 13, offset: 88794},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2796, col: 13, offset: 88767},
+															pos: position{line: 2797, col: 13, offset: 88794},
 															run: (*parser).callonSectionTitleLineElement48,
 														},
 														&litMatcher{
-															pos:        position{line: 2799, col: 13, offset: 88867},
+															pos:        position{line: 2800, col: 13, offset: 88894},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -43639,20 +43857,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2799, col: 19, offset: 88873},
+													pos:        position{line: 2800, col: 19, offset: 88900},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2802, col: 13, offset: 88911},
+													pos: position{line: 2803, col: 13, offset: 88938},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2802, col: 13, offset: 88911},
+															pos: position{line: 2803, col: 13, offset: 88938},
 															run: (*parser).callonSectionTitleLineElement52,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2805, col: 14, offset: 89004},
+															pos:        position{line: 2806, col: 14, offset: 89031},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -43661,18 +43879,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2807, col: 12, offset: 89048},
+													pos: position{line: 2808, col: 12, offset: 89075},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2807, col: 12, offset: 89048},
+															pos:        position{line: 2808, col: 12, offset: 89075},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2807, col: 16, offset: 89052},
+															pos: position{line: 2808, col: 16, offset: 89079},
 															expr: &litMatcher{
-																pos:        position{line: 2807, col: 17, offset: 89053},
+																pos:        position{line: 2808, col: 17, offset: 89080},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -43684,35 +43902,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2333, col: 11, offset: 75524},
+										pos:  position{line: 2334, col: 11, offset: 75551},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2334, col: 11, offset: 75540},
+										pos:  position{line: 2335, col: 11, offset: 75567},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2335, col: 11, offset: 75568},
+										pos:  position{line: 2336, col: 11, offset: 75595},
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2470, col: 5, offset: 79437},
+										pos: position{line: 2471, col: 5, offset: 79464},
 										run: (*parser).callonSectionTitleLineElement61,
 										expr: &seqExpr{
-											pos: position{line: 2470, col: 5, offset: 79437},
+											pos: position{line: 2471, col: 5, offset: 79464},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2470, col: 5, offset: 79437},
+													pos: position{line: 2471, col: 5, offset: 79464},
 													run: (*parser).callonSectionTitleLineElement63,
 												},
 												&labeledExpr{
-													pos:   position{line: 2473, col: 5, offset: 79513},
+													pos:   position{line: 2474, col: 5, offset: 79540},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2474, col: 9, offset: 79531},
+														pos: position{line: 2475, col: 9, offset: 79558},
 														run: (*parser).callonSectionTitleLineElement65,
 														expr: &charClassMatcher{
-															pos:        position{line: 2474, col: 10, offset: 79532},
+															pos:        position{line: 2475, col: 10, offset: 79559},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -43724,39 +43942,39 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2337, col: 11, offset: 75653},
+										pos:  position{line: 2338, col: 11, offset: 75680},
 										name: "InlineIcon",
 									},
 									&actionExpr{
-										pos: position{line: 635, col: 5, offset: 20116},
+										pos: position{line: 636, col: 5, offset: 20143},
 										run: (*parser).callonSectionTitleLineElement68,
 										expr: &seqExpr{
-											pos: position{line: 635, col: 5, offset: 20116},
+											pos: position{line: 636, col: 5, offset: 20143},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 635, col: 5, offset: 20116},
+													pos: position{line: 636, col: 5, offset: 20143},
 													run: (*parser).callonSectionTitleLineElement70,
 												},
 												&labeledExpr{
-													pos:   position{line: 638, col: 5, offset: 20188},
+													pos:   position{line: 639, col: 5, offset: 20215},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 638, col: 14, offset: 20197},
+														pos: position{line: 639, col: 14, offset: 20224},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 644, col: 5, offset: 20326},
+																pos: position{line: 645, col: 5, offset: 20353},
 																run: (*parser).callonSectionTitleLineElement73,
 																expr: &seqExpr{
-																	pos: position{line: 644, col: 5, offset: 20326},
+																	pos: position{line: 645, col: 5, offset: 20353},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 644, col: 5, offset: 20326},
+																			pos:        position{line: 645, col: 5, offset: 20353},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 644, col: 13, offset: 20334},
+																			pos:   position{line: 645, col: 13, offset: 20361},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 317, col: 18, offset: 9667},
@@ -43788,7 +44006,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 644, col: 32, offset: 20353},
+																			pos:        position{line: 645, col: 32, offset: 20380},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -43797,19 +44015,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 651, col: 5, offset: 20594},
+																pos: position{line: 652, col: 5, offset: 20621},
 																run: (*parser).callonSectionTitleLineElement83,
 																expr: &seqExpr{
-																	pos: position{line: 651, col: 5, offset: 20594},
+																	pos: position{line: 652, col: 5, offset: 20621},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 651, col: 5, offset: 20594},
+																			pos:        position{line: 652, col: 5, offset: 20621},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 651, col: 9, offset: 20598},
+																			pos:   position{line: 652, col: 9, offset: 20625},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 317, col: 18, offset: 9667},
@@ -43841,7 +44059,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 651, col: 28, offset: 20617},
+																			pos:        position{line: 652, col: 28, offset: 20644},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -43850,19 +44068,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 657, col: 25, offset: 20798},
+																pos: position{line: 658, col: 25, offset: 20825},
 																run: (*parser).callonSectionTitleLineElement93,
 																expr: &seqExpr{
-																	pos: position{line: 657, col: 25, offset: 20798},
+																	pos: position{line: 658, col: 25, offset: 20825},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 657, col: 25, offset: 20798},
+																			pos:        position{line: 658, col: 25, offset: 20825},
 																			val:        "{counter:",
 																			ignoreCase: false,
 																			want:       "\"{counter:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 657, col: 37, offset: 20810},
+																			pos:   position{line: 658, col: 37, offset: 20837},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 317, col: 18, offset: 9667},
@@ -43894,33 +44112,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 657, col: 56, offset: 20829},
+																			pos:   position{line: 658, col: 56, offset: 20856},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 657, col: 62, offset: 20835},
+																				pos: position{line: 658, col: 62, offset: 20862},
 																				expr: &actionExpr{
-																					pos: position{line: 665, col: 17, offset: 21132},
+																					pos: position{line: 666, col: 17, offset: 21159},
 																					run: (*parser).callonSectionTitleLineElement104,
 																					expr: &seqExpr{
-																						pos: position{line: 665, col: 17, offset: 21132},
+																						pos: position{line: 666, col: 17, offset: 21159},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 665, col: 17, offset: 21132},
+																								pos:        position{line: 666, col: 17, offset: 21159},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 665, col: 21, offset: 21136},
+																								pos:   position{line: 666, col: 21, offset: 21163},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 665, col: 28, offset: 21143},
+																									pos: position{line: 666, col: 28, offset: 21170},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 665, col: 28, offset: 21143},
+																											pos: position{line: 666, col: 28, offset: 21170},
 																											run: (*parser).callonSectionTitleLineElement109,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 665, col: 28, offset: 21143},
+																												pos:        position{line: 666, col: 28, offset: 21170},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -43928,12 +44146,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 667, col: 9, offset: 21197},
+																											pos: position{line: 668, col: 9, offset: 21224},
 																											run: (*parser).callonSectionTitleLineElement111,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 667, col: 9, offset: 21197},
+																												pos: position{line: 668, col: 9, offset: 21224},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 667, col: 9, offset: 21197},
+																													pos:        position{line: 668, col: 9, offset: 21224},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -43950,7 +44168,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 657, col: 78, offset: 20851},
+																			pos:        position{line: 658, col: 78, offset: 20878},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -43959,19 +44177,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 661, col: 25, offset: 20969},
+																pos: position{line: 662, col: 25, offset: 20996},
 																run: (*parser).callonSectionTitleLineElement115,
 																expr: &seqExpr{
-																	pos: position{line: 661, col: 25, offset: 20969},
+																	pos: position{line: 662, col: 25, offset: 20996},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 661, col: 25, offset: 20969},
+																			pos:        position{line: 662, col: 25, offset: 20996},
 																			val:        "{counter2:",
 																			ignoreCase: false,
 																			want:       "\"{counter2:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 661, col: 38, offset: 20982},
+																			pos:   position{line: 662, col: 38, offset: 21009},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 317, col: 18, offset: 9667},
@@ -44003,33 +44221,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 661, col: 57, offset: 21001},
+																			pos:   position{line: 662, col: 57, offset: 21028},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 661, col: 63, offset: 21007},
+																				pos: position{line: 662, col: 63, offset: 21034},
 																				expr: &actionExpr{
-																					pos: position{line: 665, col: 17, offset: 21132},
+																					pos: position{line: 666, col: 17, offset: 21159},
 																					run: (*parser).callonSectionTitleLineElement126,
 																					expr: &seqExpr{
-																						pos: position{line: 665, col: 17, offset: 21132},
+																						pos: position{line: 666, col: 17, offset: 21159},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 665, col: 17, offset: 21132},
+																								pos:        position{line: 666, col: 17, offset: 21159},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 665, col: 21, offset: 21136},
+																								pos:   position{line: 666, col: 21, offset: 21163},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 665, col: 28, offset: 21143},
+																									pos: position{line: 666, col: 28, offset: 21170},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 665, col: 28, offset: 21143},
+																											pos: position{line: 666, col: 28, offset: 21170},
 																											run: (*parser).callonSectionTitleLineElement131,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 665, col: 28, offset: 21143},
+																												pos:        position{line: 666, col: 28, offset: 21170},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -44037,12 +44255,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 667, col: 9, offset: 21197},
+																											pos: position{line: 668, col: 9, offset: 21224},
 																											run: (*parser).callonSectionTitleLineElement133,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 667, col: 9, offset: 21197},
+																												pos: position{line: 668, col: 9, offset: 21224},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 667, col: 9, offset: 21197},
+																													pos:        position{line: 668, col: 9, offset: 21224},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -44059,7 +44277,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 661, col: 79, offset: 21023},
+																			pos:        position{line: 662, col: 79, offset: 21050},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -44074,27 +44292,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1197, col: 23, offset: 36986},
+										pos: position{line: 1198, col: 23, offset: 37013},
 										run: (*parser).callonSectionTitleLineElement137,
 										expr: &seqExpr{
-											pos: position{line: 1197, col: 23, offset: 36986},
+											pos: position{line: 1198, col: 23, offset: 37013},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1195, col: 32, offset: 36954},
+													pos:        position{line: 1196, col: 32, offset: 36981},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1197, col: 51, offset: 37014},
+													pos:   position{line: 1198, col: 51, offset: 37041},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1197, col: 56, offset: 37019},
+														pos: position{line: 1198, col: 56, offset: 37046},
 														run: (*parser).callonSectionTitleLineElement141,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1197, col: 56, offset: 37019},
+															pos: position{line: 1198, col: 56, offset: 37046},
 															expr: &charClassMatcher{
-																pos:        position{line: 1197, col: 56, offset: 37019},
+																pos:        position{line: 1198, col: 56, offset: 37046},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -44104,30 +44322,30 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1195, col: 32, offset: 36954},
+													pos:        position{line: 1196, col: 32, offset: 36981},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&andCodeExpr{
-													pos: position{line: 1198, col: 5, offset: 37091},
+													pos: position{line: 1199, col: 5, offset: 37118},
 													run: (*parser).callonSectionTitleLineElement145,
 												},
 											},
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2353, col: 5, offset: 76147},
+										pos: position{line: 2354, col: 5, offset: 76174},
 										run: (*parser).callonSectionTitleLineElement146,
 										expr: &seqExpr{
-											pos: position{line: 2353, col: 5, offset: 76147},
+											pos: position{line: 2354, col: 5, offset: 76174},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2353, col: 5, offset: 76147},
+													pos: position{line: 2354, col: 5, offset: 76174},
 													run: (*parser).callonSectionTitleLineElement148,
 												},
 												&labeledExpr{
-													pos:   position{line: 2356, col: 5, offset: 76202},
+													pos:   position{line: 2357, col: 5, offset: 76229},
 													label: "id",
 													expr: &actionExpr{
 														pos: position{line: 403, col: 5, offset: 12344},
@@ -44170,27 +44388,27 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 1197, col: 23, offset: 36986},
+																							pos: position{line: 1198, col: 23, offset: 37013},
 																							run: (*parser).callonSectionTitleLineElement161,
 																							expr: &seqExpr{
-																								pos: position{line: 1197, col: 23, offset: 36986},
+																								pos: position{line: 1198, col: 23, offset: 37013},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 1195, col: 32, offset: 36954},
+																										pos:        position{line: 1196, col: 32, offset: 36981},
 																										val:        "�",
 																										ignoreCase: false,
 																										want:       "\"�\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1197, col: 51, offset: 37014},
+																										pos:   position{line: 1198, col: 51, offset: 37041},
 																										label: "ref",
 																										expr: &actionExpr{
-																											pos: position{line: 1197, col: 56, offset: 37019},
+																											pos: position{line: 1198, col: 56, offset: 37046},
 																											run: (*parser).callonSectionTitleLineElement165,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1197, col: 56, offset: 37019},
+																												pos: position{line: 1198, col: 56, offset: 37046},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1197, col: 56, offset: 37019},
+																													pos:        position{line: 1198, col: 56, offset: 37046},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -44200,48 +44418,48 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1195, col: 32, offset: 36954},
+																										pos:        position{line: 1196, col: 32, offset: 36981},
 																										val:        "�",
 																										ignoreCase: false,
 																										want:       "\"�\"",
 																									},
 																									&andCodeExpr{
-																										pos: position{line: 1198, col: 5, offset: 37091},
+																										pos: position{line: 1199, col: 5, offset: 37118},
 																										run: (*parser).callonSectionTitleLineElement169,
 																									},
 																								},
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 635, col: 5, offset: 20116},
+																							pos: position{line: 636, col: 5, offset: 20143},
 																							run: (*parser).callonSectionTitleLineElement170,
 																							expr: &seqExpr{
-																								pos: position{line: 635, col: 5, offset: 20116},
+																								pos: position{line: 636, col: 5, offset: 20143},
 																								exprs: []interface{}{
 																									&andCodeExpr{
-																										pos: position{line: 635, col: 5, offset: 20116},
+																										pos: position{line: 636, col: 5, offset: 20143},
 																										run: (*parser).callonSectionTitleLineElement172,
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 638, col: 5, offset: 20188},
+																										pos:   position{line: 639, col: 5, offset: 20215},
 																										label: "element",
 																										expr: &choiceExpr{
-																											pos: position{line: 638, col: 14, offset: 20197},
+																											pos: position{line: 639, col: 14, offset: 20224},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 644, col: 5, offset: 20326},
+																													pos: position{line: 645, col: 5, offset: 20353},
 																													run: (*parser).callonSectionTitleLineElement175,
 																													expr: &seqExpr{
-																														pos: position{line: 644, col: 5, offset: 20326},
+																														pos: position{line: 645, col: 5, offset: 20353},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 644, col: 5, offset: 20326},
+																																pos:        position{line: 645, col: 5, offset: 20353},
 																																val:        "\\{",
 																																ignoreCase: false,
 																																want:       "\"\\\\{\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 644, col: 13, offset: 20334},
+																																pos:   position{line: 645, col: 13, offset: 20361},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 317, col: 18, offset: 9667},
@@ -44273,7 +44491,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 644, col: 32, offset: 20353},
+																																pos:        position{line: 645, col: 32, offset: 20380},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -44282,19 +44500,19 @@ var g = &grammar{
 																													},
 																												},
 																												&actionExpr{
-																													pos: position{line: 651, col: 5, offset: 20594},
+																													pos: position{line: 652, col: 5, offset: 20621},
 																													run: (*parser).callonSectionTitleLineElement185,
 																													expr: &seqExpr{
-																														pos: position{line: 651, col: 5, offset: 20594},
+																														pos: position{line: 652, col: 5, offset: 20621},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 651, col: 5, offset: 20594},
+																																pos:        position{line: 652, col: 5, offset: 20621},
 																																val:        "{",
 																																ignoreCase: false,
 																																want:       "\"{\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 651, col: 9, offset: 20598},
+																																pos:   position{line: 652, col: 9, offset: 20625},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 317, col: 18, offset: 9667},
@@ -44326,7 +44544,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 651, col: 28, offset: 20617},
+																																pos:        position{line: 652, col: 28, offset: 20644},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -44335,19 +44553,19 @@ var g = &grammar{
 																													},
 																												},
 																												&actionExpr{
-																													pos: position{line: 657, col: 25, offset: 20798},
+																													pos: position{line: 658, col: 25, offset: 20825},
 																													run: (*parser).callonSectionTitleLineElement195,
 																													expr: &seqExpr{
-																														pos: position{line: 657, col: 25, offset: 20798},
+																														pos: position{line: 658, col: 25, offset: 20825},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 657, col: 25, offset: 20798},
+																																pos:        position{line: 658, col: 25, offset: 20825},
 																																val:        "{counter:",
 																																ignoreCase: false,
 																																want:       "\"{counter:\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 657, col: 37, offset: 20810},
+																																pos:   position{line: 658, col: 37, offset: 20837},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 317, col: 18, offset: 9667},
@@ -44379,33 +44597,33 @@ var g = &grammar{
 																																},
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 657, col: 56, offset: 20829},
+																																pos:   position{line: 658, col: 56, offset: 20856},
 																																label: "start",
 																																expr: &zeroOrOneExpr{
-																																	pos: position{line: 657, col: 62, offset: 20835},
+																																	pos: position{line: 658, col: 62, offset: 20862},
 																																	expr: &actionExpr{
-																																		pos: position{line: 665, col: 17, offset: 21132},
+																																		pos: position{line: 666, col: 17, offset: 21159},
 																																		run: (*parser).callonSectionTitleLineElement206,
 																																		expr: &seqExpr{
-																																			pos: position{line: 665, col: 17, offset: 21132},
+																																			pos: position{line: 666, col: 17, offset: 21159},
 																																			exprs: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 665, col: 17, offset: 21132},
+																																					pos:        position{line: 666, col: 17, offset: 21159},
 																																					val:        ":",
 																																					ignoreCase: false,
 																																					want:       "\":\"",
 																																				},
 																																				&labeledExpr{
-																																					pos:   position{line: 665, col: 21, offset: 21136},
+																																					pos:   position{line: 666, col: 21, offset: 21163},
 																																					label: "start",
 																																					expr: &choiceExpr{
-																																						pos: position{line: 665, col: 28, offset: 21143},
+																																						pos: position{line: 666, col: 28, offset: 21170},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 665, col: 28, offset: 21143},
+																																								pos: position{line: 666, col: 28, offset: 21170},
 																																								run: (*parser).callonSectionTitleLineElement211,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 665, col: 28, offset: 21143},
+																																									pos:        position{line: 666, col: 28, offset: 21170},
 																																									val:        "[A-Za-z]",
 																																									ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																									ignoreCase: false,
@@ -44413,12 +44631,12 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&actionExpr{
-																																								pos: position{line: 667, col: 9, offset: 21197},
+																																								pos: position{line: 668, col: 9, offset: 21224},
 																																								run: (*parser).callonSectionTitleLineElement213,
 																																								expr: &oneOrMoreExpr{
-																																									pos: position{line: 667, col: 9, offset: 21197},
+																																									pos: position{line: 668, col: 9, offset: 21224},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 667, col: 9, offset: 21197},
+																																										pos:        position{line: 668, col: 9, offset: 21224},
 																																										val:        "[0-9]",
 																																										ranges:     []rune{'0', '9'},
 																																										ignoreCase: false,
@@ -44435,7 +44653,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 657, col: 78, offset: 20851},
+																																pos:        position{line: 658, col: 78, offset: 20878},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -44444,19 +44662,19 @@ var g = &grammar{
 																													},
 																												},
 																												&actionExpr{
-																													pos: position{line: 661, col: 25, offset: 20969},
+																													pos: position{line: 662, col: 25, offset: 20996},
 																													run: (*parser).callonSectionTitleLineElement217,
 																													expr: &seqExpr{
-																														pos: position{line: 661, col: 25, offset: 20969},
+																														pos: position{line: 662, col: 25, offset: 20996},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 661, col: 25, offset: 20969},
+																																pos:        position{line: 662, col: 25, offset: 20996},
 																																val:        "{counter2:",
 																																ignoreCase: false,
 																																want:       "\"{counter2:\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 661, col: 38, offset: 20982},
+																																pos:   position{line: 662, col: 38, offset: 21009},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 317, col: 18, offset: 9667},
@@ -44488,33 +44706,33 @@ var g = &grammar{
 																																},
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 661, col: 57, offset: 21001},
+																																pos:   position{line: 662, col: 57, offset: 21028},
 																																label: "start",
 																																expr: &zeroOrOneExpr{
-																																	pos: position{line: 661, col: 63, offset: 21007},
+																																	pos: position{line: 662, col: 63, offset: 21034},
 																																	expr: &actionExpr{
-																																		pos: position{line: 665, col: 17, offset: 21132},
+																																		pos: position{line: 666, col: 17, offset: 21159},
 																																		run: (*parser).callonSectionTitleLineElement228,
 																																		expr: &seqExpr{
-																																			pos: position{line: 665, col: 17, offset: 21132},
+																																			pos: position{line: 666, col: 17, offset: 21159},
 																																			exprs: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 665, col: 17, offset: 21132},
+																																					pos:        position{line: 666, col: 17, offset: 21159},
 																																					val:        ":",
 																																					ignoreCase: false,
 																																					want:       "\":\"",
 																																				},
 																																				&labeledExpr{
-																																					pos:   position{line: 665, col: 21, offset: 21136},
+																																					pos:   position{line: 666, col: 21, offset: 21163},
 																																					label: "start",
 																																					expr: &choiceExpr{
-																																						pos: position{line: 665, col: 28, offset: 21143},
+																																						pos: position{line: 666, col: 28, offset: 21170},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 665, col: 28, offset: 21143},
+																																								pos: position{line: 666, col: 28, offset: 21170},
 																																								run: (*parser).callonSectionTitleLineElement233,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 665, col: 28, offset: 21143},
+																																									pos:        position{line: 666, col: 28, offset: 21170},
 																																									val:        "[A-Za-z]",
 																																									ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																									ignoreCase: false,
@@ -44522,12 +44740,12 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&actionExpr{
-																																								pos: position{line: 667, col: 9, offset: 21197},
+																																								pos: position{line: 668, col: 9, offset: 21224},
 																																								run: (*parser).callonSectionTitleLineElement235,
 																																								expr: &oneOrMoreExpr{
-																																									pos: position{line: 667, col: 9, offset: 21197},
+																																									pos: position{line: 668, col: 9, offset: 21224},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 667, col: 9, offset: 21197},
+																																										pos:        position{line: 668, col: 9, offset: 21224},
 																																										val:        "[0-9]",
 																																										ranges:     []rune{'0', '9'},
 																																										ignoreCase: false,
@@ -44544,7 +44762,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 661, col: 79, offset: 21023},
+																																pos:        position{line: 662, col: 79, offset: 21050},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -44585,12 +44803,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2356, col: 26, offset: 76223},
+													pos: position{line: 2357, col: 26, offset: 76250},
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 10, offset: 91005},
+														pos: position{line: 2877, col: 10, offset: 91032},
 														run: (*parser).callonSectionTitleLineElement243,
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 91005},
+															pos:        position{line: 2877, col: 10, offset: 91032},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -44599,30 +44817,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 2356, col: 33, offset: 76230},
+													pos: position{line: 2357, col: 33, offset: 76257},
 													expr: &choiceExpr{
-														pos: position{line: 2898, col: 8, offset: 91403},
+														pos: position{line: 2899, col: 8, offset: 91430},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2885, col: 12, offset: 91176},
+																pos: position{line: 2886, col: 12, offset: 91203},
 																run: (*parser).callonSectionTitleLineElement247,
 																expr: &choiceExpr{
-																	pos: position{line: 2885, col: 13, offset: 91177},
+																	pos: position{line: 2886, col: 13, offset: 91204},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 13, offset: 91177},
+																			pos:        position{line: 2886, col: 13, offset: 91204},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 20, offset: 91184},
+																			pos:        position{line: 2886, col: 20, offset: 91211},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2885, col: 29, offset: 91193},
+																			pos:        position{line: 2886, col: 29, offset: 91220},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -44631,9 +44849,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2895, col: 8, offset: 91353},
+																pos: position{line: 2896, col: 8, offset: 91380},
 																expr: &anyMatcher{
-																	line: 2895, col: 9, offset: 91354,
+																	line: 2896, col: 9, offset: 91381,
 																},
 															},
 														},
@@ -44643,27 +44861,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1256, col: 5, offset: 38849},
+										pos: position{line: 1257, col: 5, offset: 38876},
 										run: (*parser).callonSectionTitleLineElement254,
 										expr: &seqExpr{
-											pos: position{line: 1256, col: 5, offset: 38849},
+											pos: position{line: 1257, col: 5, offset: 38876},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1256, col: 5, offset: 38849},
+													pos:        position{line: 1257, col: 5, offset: 38876},
 													val:        "\\[[",
 													ignoreCase: false,
 													want:       "\"\\\\[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1256, col: 14, offset: 38858},
+													pos:   position{line: 1257, col: 14, offset: 38885},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2861, col: 7, offset: 90657},
+														pos: position{line: 2862, col: 7, offset: 90684},
 														run: (*parser).callonSectionTitleLineElement258,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2861, col: 7, offset: 90657},
+															pos: position{line: 2862, col: 7, offset: 90684},
 															expr: &charClassMatcher{
-																pos:        position{line: 2861, col: 7, offset: 90657},
+																pos:        position{line: 2862, col: 7, offset: 90684},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -44673,7 +44891,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1256, col: 22, offset: 38866},
+													pos:        position{line: 1257, col: 22, offset: 38893},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -44682,27 +44900,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1261, col: 5, offset: 38985},
+										pos: position{line: 1262, col: 5, offset: 39012},
 										run: (*parser).callonSectionTitleLineElement262,
 										expr: &seqExpr{
-											pos: position{line: 1261, col: 5, offset: 38985},
+											pos: position{line: 1262, col: 5, offset: 39012},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1261, col: 5, offset: 38985},
+													pos:        position{line: 1262, col: 5, offset: 39012},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1261, col: 10, offset: 38990},
+													pos:   position{line: 1262, col: 10, offset: 39017},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2861, col: 7, offset: 90657},
+														pos: position{line: 2862, col: 7, offset: 90684},
 														run: (*parser).callonSectionTitleLineElement266,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2861, col: 7, offset: 90657},
+															pos: position{line: 2862, col: 7, offset: 90684},
 															expr: &charClassMatcher{
-																pos:        position{line: 2861, col: 7, offset: 90657},
+																pos:        position{line: 2862, col: 7, offset: 90684},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -44712,7 +44930,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1261, col: 18, offset: 38998},
+													pos:        position{line: 1262, col: 18, offset: 39025},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -44721,20 +44939,20 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2342, col: 11, offset: 75907},
+										pos:  position{line: 2343, col: 11, offset: 75934},
 										name: "InlineFootnote",
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2343, col: 5, offset: 75927},
+							pos:   position{line: 2344, col: 5, offset: 75954},
 							label: "end",
 							expr: &actionExpr{
-								pos: position{line: 2901, col: 16, offset: 91527},
+								pos: position{line: 2902, col: 16, offset: 91554},
 								run: (*parser).callonSectionTitleLineElement272,
 								expr: &litMatcher{
-									pos:        position{line: 2901, col: 16, offset: 91527},
+									pos:        position{line: 2902, col: 16, offset: 91554},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -44742,7 +44960,7 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2344, col: 5, offset: 75949},
+							pos: position{line: 2345, col: 5, offset: 75976},
 							run: (*parser).callonSectionTitleLineElement274,
 						},
 					},
@@ -44751,52 +44969,52 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2366, col: 1, offset: 76492},
+			pos:  position{line: 2367, col: 1, offset: 76519},
 			expr: &actionExpr{
-				pos: position{line: 2367, col: 5, offset: 76579},
+				pos: position{line: 2368, col: 5, offset: 76606},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2367, col: 5, offset: 76579},
+					pos: position{line: 2368, col: 5, offset: 76606},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2367, col: 5, offset: 76579},
+							pos:   position{line: 2368, col: 5, offset: 76606},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2367, col: 14, offset: 76588},
+								pos: position{line: 2368, col: 14, offset: 76615},
 								expr: &actionExpr{
-									pos: position{line: 2369, col: 9, offset: 76614},
+									pos: position{line: 2370, col: 9, offset: 76641},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2369, col: 9, offset: 76614},
+										pos: position{line: 2370, col: 9, offset: 76641},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2893, col: 11, offset: 91339},
+												pos: position{line: 2894, col: 11, offset: 91366},
 												expr: &anyMatcher{
-													line: 2893, col: 13, offset: 91341,
+													line: 2894, col: 13, offset: 91368,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2370, col: 9, offset: 76629},
+												pos:   position{line: 2371, col: 9, offset: 76656},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2371, col: 13, offset: 76651},
+													pos: position{line: 2372, col: 13, offset: 76678},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2775, col: 5, offset: 88226},
+															pos: position{line: 2776, col: 5, offset: 88253},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2775, col: 5, offset: 88226},
+																pos: position{line: 2776, col: 5, offset: 88253},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 2775, col: 5, offset: 88226},
+																		pos:   position{line: 2776, col: 5, offset: 88253},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2775, col: 11, offset: 88232},
+																			pos: position{line: 2776, col: 11, offset: 88259},
 																			run: (*parser).callonNormalGroup14,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2775, col: 11, offset: 88232},
+																				pos: position{line: 2776, col: 11, offset: 88259},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2775, col: 11, offset: 88232},
+																					pos:        position{line: 2776, col: 11, offset: 88259},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -44806,44 +45024,44 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2778, col: 5, offset: 88290},
+																		pos: position{line: 2779, col: 5, offset: 88317},
 																		expr: &seqExpr{
-																			pos: position{line: 2779, col: 9, offset: 88301},
+																			pos: position{line: 2780, col: 9, offset: 88328},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2779, col: 9, offset: 88301},
+																					pos:        position{line: 2780, col: 9, offset: 88328},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2780, col: 9, offset: 88350},
+																					pos: position{line: 2781, col: 9, offset: 88377},
 																					run: (*parser).callonNormalGroup20,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2784, col: 5, offset: 88430},
+																		pos: position{line: 2785, col: 5, offset: 88457},
 																		expr: &seqExpr{
-																			pos: position{line: 2785, col: 9, offset: 88441},
+																			pos: position{line: 2786, col: 9, offset: 88468},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 2785, col: 9, offset: 88441},
+																					pos: position{line: 2786, col: 9, offset: 88468},
 																					expr: &seqExpr{
-																						pos: position{line: 2785, col: 10, offset: 88442},
+																						pos: position{line: 2786, col: 10, offset: 88469},
 																						exprs: []interface{}{
 																							&charClassMatcher{
-																								pos:        position{line: 2785, col: 10, offset: 88442},
+																								pos:        position{line: 2786, col: 10, offset: 88469},
 																								val:        "[._%+-]",
 																								chars:      []rune{'.', '_', '%', '+', '-'},
 																								ignoreCase: false,
 																								inverted:   false,
 																							},
 																							&oneOrMoreExpr{
-																								pos: position{line: 2785, col: 18, offset: 88450},
+																								pos: position{line: 2786, col: 18, offset: 88477},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2785, col: 18, offset: 88450},
+																									pos:        position{line: 2786, col: 18, offset: 88477},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -44854,13 +45072,13 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2785, col: 30, offset: 88462},
+																					pos:        position{line: 2786, col: 30, offset: 88489},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2785, col: 34, offset: 88466},
+																					pos:        position{line: 2786, col: 34, offset: 88493},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -44873,12 +45091,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2880, col: 11, offset: 91066},
+															pos: position{line: 2881, col: 11, offset: 91093},
 															run: (*parser).callonNormalGroup30,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2880, col: 11, offset: 91066},
+																pos: position{line: 2881, col: 11, offset: 91093},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2880, col: 11, offset: 91066},
+																	pos:        position{line: 2881, col: 11, offset: 91093},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -44887,29 +45105,29 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2373, col: 15, offset: 76697},
+															pos:  position{line: 2374, col: 15, offset: 76724},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2501, col: 5, offset: 80608},
+															pos: position{line: 2502, col: 5, offset: 80635},
 															run: (*parser).callonNormalGroup34,
 															expr: &seqExpr{
-																pos: position{line: 2501, col: 5, offset: 80608},
+																pos: position{line: 2502, col: 5, offset: 80635},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2501, col: 5, offset: 80608},
+																		pos: position{line: 2502, col: 5, offset: 80635},
 																		run: (*parser).callonNormalGroup36,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2504, col: 5, offset: 80679},
+																		pos:        position{line: 2505, col: 5, offset: 80706},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2504, col: 10, offset: 80684},
+																		pos: position{line: 2505, col: 10, offset: 80711},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2504, col: 11, offset: 80685},
+																			pos:        position{line: 2505, col: 11, offset: 80712},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -44920,29 +45138,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2510, col: 5, offset: 80877},
+															pos: position{line: 2511, col: 5, offset: 80904},
 															run: (*parser).callonNormalGroup40,
 															expr: &seqExpr{
-																pos: position{line: 2510, col: 5, offset: 80877},
+																pos: position{line: 2511, col: 5, offset: 80904},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2510, col: 5, offset: 80877},
+																		pos: position{line: 2511, col: 5, offset: 80904},
 																		run: (*parser).callonNormalGroup42,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2513, col: 5, offset: 80948},
+																		pos: position{line: 2514, col: 5, offset: 80975},
 																		run: (*parser).callonNormalGroup43,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2517, col: 5, offset: 81073},
+																		pos:        position{line: 2518, col: 5, offset: 81100},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2517, col: 9, offset: 81077},
+																		pos: position{line: 2518, col: 9, offset: 81104},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2517, col: 10, offset: 81078},
+																			pos:        position{line: 2518, col: 10, offset: 81105},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -44953,27 +45171,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2793, col: 5, offset: 88659},
+															pos: position{line: 2794, col: 5, offset: 88686},
 															run: (*parser).callonNormalGroup47,
 															expr: &choiceExpr{
-																pos: position{line: 2794, col: 9, offset: 88669},
+																pos: position{line: 2795, col: 9, offset: 88696},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2794, col: 10, offset: 88670},
+																		pos:        position{line: 2795, col: 10, offset: 88697},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2796, col: 13, offset: 88767},
+																		pos: position{line: 2797, col: 13, offset: 88794},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2796, col: 13, offset: 88767},
+																				pos: position{line: 2797, col: 13, offset: 88794},
 																				run: (*parser).callonNormalGroup51,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2799, col: 13, offset: 88867},
+																				pos:        position{line: 2800, col: 13, offset: 88894},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -44981,20 +45199,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2799, col: 19, offset: 88873},
+																		pos:        position{line: 2800, col: 19, offset: 88900},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2802, col: 13, offset: 88911},
+																		pos: position{line: 2803, col: 13, offset: 88938},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2802, col: 13, offset: 88911},
+																				pos: position{line: 2803, col: 13, offset: 88938},
 																				run: (*parser).callonNormalGroup55,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2805, col: 14, offset: 89004},
+																				pos:        position{line: 2806, col: 14, offset: 89031},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -45003,18 +45221,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2807, col: 12, offset: 89048},
+																		pos: position{line: 2808, col: 12, offset: 89075},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2807, col: 12, offset: 89048},
+																				pos:        position{line: 2808, col: 12, offset: 89075},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2807, col: 16, offset: 89052},
+																				pos: position{line: 2808, col: 16, offset: 89079},
 																				expr: &litMatcher{
-																					pos:        position{line: 2807, col: 17, offset: 89053},
+																					pos:        position{line: 2808, col: 17, offset: 89080},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -45026,25 +45244,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2885, col: 12, offset: 91176},
+															pos: position{line: 2886, col: 12, offset: 91203},
 															run: (*parser).callonNormalGroup61,
 															expr: &choiceExpr{
-																pos: position{line: 2885, col: 13, offset: 91177},
+																pos: position{line: 2886, col: 13, offset: 91204},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 13, offset: 91177},
+																		pos:        position{line: 2886, col: 13, offset: 91204},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 20, offset: 91184},
+																		pos:        position{line: 2886, col: 20, offset: 91211},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2885, col: 29, offset: 91193},
+																		pos:        position{line: 2886, col: 29, offset: 91220},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -45053,35 +45271,35 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 635, col: 5, offset: 20116},
+															pos: position{line: 636, col: 5, offset: 20143},
 															run: (*parser).callonNormalGroup66,
 															expr: &seqExpr{
-																pos: position{line: 635, col: 5, offset: 20116},
+																pos: position{line: 636, col: 5, offset: 20143},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 635, col: 5, offset: 20116},
+																		pos: position{line: 636, col: 5, offset: 20143},
 																		run: (*parser).callonNormalGroup68,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 638, col: 5, offset: 20188},
+																		pos:   position{line: 639, col: 5, offset: 20215},
 																		label: "element",
 																		expr: &choiceExpr{
-																			pos: position{line: 638, col: 14, offset: 20197},
+																			pos: position{line: 639, col: 14, offset: 20224},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 644, col: 5, offset: 20326},
+																					pos: position{line: 645, col: 5, offset: 20353},
 																					run: (*parser).callonNormalGroup71,
 																					expr: &seqExpr{
-																						pos: position{line: 644, col: 5, offset: 20326},
+																						pos: position{line: 645, col: 5, offset: 20353},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 644, col: 5, offset: 20326},
+																								pos:        position{line: 645, col: 5, offset: 20353},
 																								val:        "\\{",
 																								ignoreCase: false,
 																								want:       "\"\\\\{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 644, col: 13, offset: 20334},
+																								pos:   position{line: 645, col: 13, offset: 20361},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 317, col: 18, offset: 9667},
@@ -45113,7 +45331,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 644, col: 32, offset: 20353},
+																								pos:        position{line: 645, col: 32, offset: 20380},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -45122,19 +45340,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 651, col: 5, offset: 20594},
+																					pos: position{line: 652, col: 5, offset: 20621},
 																					run: (*parser).callonNormalGroup81,
 																					expr: &seqExpr{
-																						pos: position{line: 651, col: 5, offset: 20594},
+																						pos: position{line: 652, col: 5, offset: 20621},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 651, col: 5, offset: 20594},
+																								pos:        position{line: 652, col: 5, offset: 20621},
 																								val:        "{",
 																								ignoreCase: false,
 																								want:       "\"{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 651, col: 9, offset: 20598},
+																								pos:   position{line: 652, col: 9, offset: 20625},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 317, col: 18, offset: 9667},
@@ -45166,7 +45384,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 651, col: 28, offset: 20617},
+																								pos:        position{line: 652, col: 28, offset: 20644},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -45175,19 +45393,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 657, col: 25, offset: 20798},
+																					pos: position{line: 658, col: 25, offset: 20825},
 																					run: (*parser).callonNormalGroup91,
 																					expr: &seqExpr{
-																						pos: position{line: 657, col: 25, offset: 20798},
+																						pos: position{line: 658, col: 25, offset: 20825},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 657, col: 25, offset: 20798},
+																								pos:        position{line: 658, col: 25, offset: 20825},
 																								val:        "{counter:",
 																								ignoreCase: false,
 																								want:       "\"{counter:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 657, col: 37, offset: 20810},
+																								pos:   position{line: 658, col: 37, offset: 20837},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 317, col: 18, offset: 9667},
@@ -45219,33 +45437,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 657, col: 56, offset: 20829},
+																								pos:   position{line: 658, col: 56, offset: 20856},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 657, col: 62, offset: 20835},
+																									pos: position{line: 658, col: 62, offset: 20862},
 																									expr: &actionExpr{
-																										pos: position{line: 665, col: 17, offset: 21132},
+																										pos: position{line: 666, col: 17, offset: 21159},
 																										run: (*parser).callonNormalGroup102,
 																										expr: &seqExpr{
-																											pos: position{line: 665, col: 17, offset: 21132},
+																											pos: position{line: 666, col: 17, offset: 21159},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 665, col: 17, offset: 21132},
+																													pos:        position{line: 666, col: 17, offset: 21159},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 665, col: 21, offset: 21136},
+																													pos:   position{line: 666, col: 21, offset: 21163},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 665, col: 28, offset: 21143},
+																														pos: position{line: 666, col: 28, offset: 21170},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 665, col: 28, offset: 21143},
+																																pos: position{line: 666, col: 28, offset: 21170},
 																																run: (*parser).callonNormalGroup107,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 665, col: 28, offset: 21143},
+																																	pos:        position{line: 666, col: 28, offset: 21170},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -45253,12 +45471,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 667, col: 9, offset: 21197},
+																																pos: position{line: 668, col: 9, offset: 21224},
 																																run: (*parser).callonNormalGroup109,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 667, col: 9, offset: 21197},
+																																	pos: position{line: 668, col: 9, offset: 21224},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 667, col: 9, offset: 21197},
+																																		pos:        position{line: 668, col: 9, offset: 21224},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -45275,7 +45493,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 657, col: 78, offset: 20851},
+																								pos:        position{line: 658, col: 78, offset: 20878},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -45284,19 +45502,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 661, col: 25, offset: 20969},
+																					pos: position{line: 662, col: 25, offset: 20996},
 																					run: (*parser).callonNormalGroup113,
 																					expr: &seqExpr{
-																						pos: position{line: 661, col: 25, offset: 20969},
+																						pos: position{line: 662, col: 25, offset: 20996},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 661, col: 25, offset: 20969},
+																								pos:        position{line: 662, col: 25, offset: 20996},
 																								val:        "{counter2:",
 																								ignoreCase: false,
 																								want:       "\"{counter2:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 661, col: 38, offset: 20982},
+																								pos:   position{line: 662, col: 38, offset: 21009},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 317, col: 18, offset: 9667},
@@ -45328,33 +45546,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 661, col: 57, offset: 21001},
+																								pos:   position{line: 662, col: 57, offset: 21028},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 661, col: 63, offset: 21007},
+																									pos: position{line: 662, col: 63, offset: 21034},
 																									expr: &actionExpr{
-																										pos: position{line: 665, col: 17, offset: 21132},
+																										pos: position{line: 666, col: 17, offset: 21159},
 																										run: (*parser).callonNormalGroup124,
 																										expr: &seqExpr{
-																											pos: position{line: 665, col: 17, offset: 21132},
+																											pos: position{line: 666, col: 17, offset: 21159},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 665, col: 17, offset: 21132},
+																													pos:        position{line: 666, col: 17, offset: 21159},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 665, col: 21, offset: 21136},
+																													pos:   position{line: 666, col: 21, offset: 21163},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 665, col: 28, offset: 21143},
+																														pos: position{line: 666, col: 28, offset: 21170},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 665, col: 28, offset: 21143},
+																																pos: position{line: 666, col: 28, offset: 21170},
 																																run: (*parser).callonNormalGroup129,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 665, col: 28, offset: 21143},
+																																	pos:        position{line: 666, col: 28, offset: 21170},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -45362,12 +45580,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 667, col: 9, offset: 21197},
+																																pos: position{line: 668, col: 9, offset: 21224},
 																																run: (*parser).callonNormalGroup131,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 667, col: 9, offset: 21197},
+																																	pos: position{line: 668, col: 9, offset: 21224},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 667, col: 9, offset: 21197},
+																																		pos:        position{line: 668, col: 9, offset: 21224},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -45384,7 +45602,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 661, col: 79, offset: 21023},
+																								pos:        position{line: 662, col: 79, offset: 21050},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -45399,35 +45617,35 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2378, col: 15, offset: 76864},
+															pos:  position{line: 2379, col: 15, offset: 76891},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2379, col: 15, offset: 76884},
+															pos:  position{line: 2380, col: 15, offset: 76911},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2380, col: 15, offset: 76973},
+															pos:  position{line: 2381, col: 15, offset: 77000},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2470, col: 5, offset: 79437},
+															pos: position{line: 2471, col: 5, offset: 79464},
 															run: (*parser).callonNormalGroup138,
 															expr: &seqExpr{
-																pos: position{line: 2470, col: 5, offset: 79437},
+																pos: position{line: 2471, col: 5, offset: 79464},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2470, col: 5, offset: 79437},
+																		pos: position{line: 2471, col: 5, offset: 79464},
 																		run: (*parser).callonNormalGroup140,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2473, col: 5, offset: 79513},
+																		pos:   position{line: 2474, col: 5, offset: 79540},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2474, col: 9, offset: 79531},
+																			pos: position{line: 2475, col: 9, offset: 79558},
 																			run: (*parser).callonNormalGroup142,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2474, col: 10, offset: 79532},
+																				pos:        position{line: 2475, col: 10, offset: 79559},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -45439,32 +45657,32 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1209, col: 5, offset: 37535},
+															pos: position{line: 1210, col: 5, offset: 37562},
 															run: (*parser).callonNormalGroup144,
 															expr: &seqExpr{
-																pos: position{line: 1209, col: 5, offset: 37535},
+																pos: position{line: 1210, col: 5, offset: 37562},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1209, col: 5, offset: 37535},
+																		pos: position{line: 1210, col: 5, offset: 37562},
 																		run: (*parser).callonNormalGroup146,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1212, col: 5, offset: 37611},
+																		pos:        position{line: 1213, col: 5, offset: 37638},
 																		val:        "+",
 																		ignoreCase: false,
 																		want:       "\"+\"",
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1213, col: 5, offset: 37619},
+																		pos: position{line: 1214, col: 5, offset: 37646},
 																		run: (*parser).callonNormalGroup148,
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1217, col: 5, offset: 37706},
+																		pos: position{line: 1218, col: 5, offset: 37733},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 91005},
+																			pos: position{line: 2877, col: 10, offset: 91032},
 																			run: (*parser).callonNormalGroup150,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 91005},
+																				pos:        position{line: 2877, col: 10, offset: 91032},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45473,30 +45691,30 @@ var g = &grammar{
 																		},
 																	},
 																	&andExpr{
-																		pos: position{line: 1217, col: 12, offset: 37713},
+																		pos: position{line: 1218, col: 12, offset: 37740},
 																		expr: &choiceExpr{
-																			pos: position{line: 2898, col: 8, offset: 91403},
+																			pos: position{line: 2899, col: 8, offset: 91430},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91176},
+																					pos: position{line: 2886, col: 12, offset: 91203},
 																					run: (*parser).callonNormalGroup154,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91177},
+																						pos: position{line: 2886, col: 13, offset: 91204},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91177},
+																								pos:        position{line: 2886, col: 13, offset: 91204},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91184},
+																								pos:        position{line: 2886, col: 20, offset: 91211},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91193},
+																								pos:        position{line: 2886, col: 29, offset: 91220},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -45505,9 +45723,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2895, col: 8, offset: 91353},
+																					pos: position{line: 2896, col: 8, offset: 91380},
 																					expr: &anyMatcher{
-																						line: 2895, col: 9, offset: 91354,
+																						line: 2896, col: 9, offset: 91381,
 																					},
 																				},
 																			},
@@ -45517,31 +45735,31 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2383, col: 15, offset: 77155},
+															pos:  position{line: 2384, col: 15, offset: 77182},
 															name: "InlinePassthrough",
 														},
 														&actionExpr{
-															pos: position{line: 1197, col: 23, offset: 36986},
+															pos: position{line: 1198, col: 23, offset: 37013},
 															run: (*parser).callonNormalGroup162,
 															expr: &seqExpr{
-																pos: position{line: 1197, col: 23, offset: 36986},
+																pos: position{line: 1198, col: 23, offset: 37013},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1195, col: 32, offset: 36954},
+																		pos:        position{line: 1196, col: 32, offset: 36981},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1197, col: 51, offset: 37014},
+																		pos:   position{line: 1198, col: 51, offset: 37041},
 																		label: "ref",
 																		expr: &actionExpr{
-																			pos: position{line: 1197, col: 56, offset: 37019},
+																			pos: position{line: 1198, col: 56, offset: 37046},
 																			run: (*parser).callonNormalGroup166,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1197, col: 56, offset: 37019},
+																				pos: position{line: 1198, col: 56, offset: 37046},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1197, col: 56, offset: 37019},
+																					pos:        position{line: 1198, col: 56, offset: 37046},
 																					val:        "[0-9]",
 																					ranges:     []rune{'0', '9'},
 																					ignoreCase: false,
@@ -45551,23 +45769,23 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1195, col: 32, offset: 36954},
+																		pos:        position{line: 1196, col: 32, offset: 36981},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1198, col: 5, offset: 37091},
+																		pos: position{line: 1199, col: 5, offset: 37118},
 																		run: (*parser).callonNormalGroup170,
 																	},
 																},
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2815, col: 12, offset: 89313},
+															pos: position{line: 2816, col: 12, offset: 89340},
 															run: (*parser).callonNormalGroup171,
 															expr: &charClassMatcher{
-																pos:        position{line: 2815, col: 12, offset: 89313},
+																pos:        position{line: 2816, col: 12, offset: 89340},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -45583,9 +45801,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2895, col: 8, offset: 91353},
+							pos: position{line: 2896, col: 8, offset: 91380},
 							expr: &anyMatcher{
-								line: 2895, col: 9, offset: 91354,
+								line: 2896, col: 9, offset: 91381,
 							},
 						},
 					},
@@ -45594,28 +45812,28 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2394, col: 1, offset: 77593},
+			pos:  position{line: 2395, col: 1, offset: 77620},
 			expr: &actionExpr{
-				pos: position{line: 2395, col: 5, offset: 77626},
+				pos: position{line: 2396, col: 5, offset: 77653},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2395, col: 5, offset: 77626},
+					pos: position{line: 2396, col: 5, offset: 77653},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2395, col: 5, offset: 77626},
+							pos:   position{line: 2396, col: 5, offset: 77653},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2395, col: 14, offset: 77635},
+								pos: position{line: 2396, col: 14, offset: 77662},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2395, col: 15, offset: 77636},
+									pos:  position{line: 2396, col: 15, offset: 77663},
 									name: "AttributeStructuredValueElement",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2895, col: 8, offset: 91353},
+							pos: position{line: 2896, col: 8, offset: 91380},
 							expr: &anyMatcher{
-								line: 2895, col: 9, offset: 91354,
+								line: 2896, col: 9, offset: 91381,
 							},
 						},
 					},
@@ -45624,41 +45842,41 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2399, col: 1, offset: 77733},
+			pos:  position{line: 2400, col: 1, offset: 77760},
 			expr: &actionExpr{
-				pos: position{line: 2400, col: 5, offset: 77773},
+				pos: position{line: 2401, col: 5, offset: 77800},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2400, col: 5, offset: 77773},
+					pos: position{line: 2401, col: 5, offset: 77800},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2893, col: 11, offset: 91339},
+							pos: position{line: 2894, col: 11, offset: 91366},
 							expr: &anyMatcher{
-								line: 2893, col: 13, offset: 91341,
+								line: 2894, col: 13, offset: 91368,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2401, col: 5, offset: 77784},
+							pos:   position{line: 2402, col: 5, offset: 77811},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2402, col: 9, offset: 77802},
+								pos: position{line: 2403, col: 9, offset: 77829},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2775, col: 5, offset: 88226},
+										pos: position{line: 2776, col: 5, offset: 88253},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2775, col: 5, offset: 88226},
+											pos: position{line: 2776, col: 5, offset: 88253},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2775, col: 5, offset: 88226},
+													pos:   position{line: 2776, col: 5, offset: 88253},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2775, col: 11, offset: 88232},
+														pos: position{line: 2776, col: 11, offset: 88259},
 														run: (*parser).callonAttributeStructuredValueElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2775, col: 11, offset: 88232},
+															pos: position{line: 2776, col: 11, offset: 88259},
 															expr: &charClassMatcher{
-																pos:        position{line: 2775, col: 11, offset: 88232},
+																pos:        position{line: 2776, col: 11, offset: 88259},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45668,44 +45886,44 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2778, col: 5, offset: 88290},
+													pos: position{line: 2779, col: 5, offset: 88317},
 													expr: &seqExpr{
-														pos: position{line: 2779, col: 9, offset: 88301},
+														pos: position{line: 2780, col: 9, offset: 88328},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2779, col: 9, offset: 88301},
+																pos:        position{line: 2780, col: 9, offset: 88328},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2780, col: 9, offset: 88350},
+																pos: position{line: 2781, col: 9, offset: 88377},
 																run: (*parser).callonAttributeStructuredValueElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2784, col: 5, offset: 88430},
+													pos: position{line: 2785, col: 5, offset: 88457},
 													expr: &seqExpr{
-														pos: position{line: 2785, col: 9, offset: 88441},
+														pos: position{line: 2786, col: 9, offset: 88468},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2785, col: 9, offset: 88441},
+																pos: position{line: 2786, col: 9, offset: 88468},
 																expr: &seqExpr{
-																	pos: position{line: 2785, col: 10, offset: 88442},
+																	pos: position{line: 2786, col: 10, offset: 88469},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2785, col: 10, offset: 88442},
+																			pos:        position{line: 2786, col: 10, offset: 88469},
 																			val:        "[._%+-]",
 																			chars:      []rune{'.', '_', '%', '+', '-'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2785, col: 18, offset: 88450},
+																			pos: position{line: 2786, col: 18, offset: 88477},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2785, col: 18, offset: 88450},
+																				pos:        position{line: 2786, col: 18, offset: 88477},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -45716,13 +45934,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2785, col: 30, offset: 88462},
+																pos:        position{line: 2786, col: 30, offset: 88489},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2785, col: 34, offset: 88466},
+																pos:        position{line: 2786, col: 34, offset: 88493},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45735,10 +45953,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2876, col: 10, offset: 91005},
+										pos: position{line: 2877, col: 10, offset: 91032},
 										run: (*parser).callonAttributeStructuredValueElement26,
 										expr: &charClassMatcher{
-											pos:        position{line: 2876, col: 10, offset: 91005},
+											pos:        position{line: 2877, col: 10, offset: 91032},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -45746,31 +45964,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2404, col: 11, offset: 77840},
+										pos:  position{line: 2405, col: 11, offset: 77867},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2793, col: 5, offset: 88659},
+										pos: position{line: 2794, col: 5, offset: 88686},
 										run: (*parser).callonAttributeStructuredValueElement29,
 										expr: &choiceExpr{
-											pos: position{line: 2794, col: 9, offset: 88669},
+											pos: position{line: 2795, col: 9, offset: 88696},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2794, col: 10, offset: 88670},
+													pos:        position{line: 2795, col: 10, offset: 88697},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2796, col: 13, offset: 88767},
+													pos: position{line: 2797, col: 13, offset: 88794},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2796, col: 13, offset: 88767},
+															pos: position{line: 2797, col: 13, offset: 88794},
 															run: (*parser).callonAttributeStructuredValueElement33,
 														},
 														&litMatcher{
-															pos:        position{line: 2799, col: 13, offset: 88867},
+															pos:        position{line: 2800, col: 13, offset: 88894},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -45778,20 +45996,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2799, col: 19, offset: 88873},
+													pos:        position{line: 2800, col: 19, offset: 88900},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2802, col: 13, offset: 88911},
+													pos: position{line: 2803, col: 13, offset: 88938},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2802, col: 13, offset: 88911},
+															pos: position{line: 2803, col: 13, offset: 88938},
 															run: (*parser).callonAttributeStructuredValueElement37,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2805, col: 14, offset: 89004},
+															pos:        position{line: 2806, col: 14, offset: 89031},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -45800,18 +46018,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2807, col: 12, offset: 89048},
+													pos: position{line: 2808, col: 12, offset: 89075},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2807, col: 12, offset: 89048},
+															pos:        position{line: 2808, col: 12, offset: 89075},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2807, col: 16, offset: 89052},
+															pos: position{line: 2808, col: 16, offset: 89079},
 															expr: &litMatcher{
-																pos:        position{line: 2807, col: 17, offset: 89053},
+																pos:        position{line: 2808, col: 17, offset: 89080},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -45823,31 +46041,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2406, col: 11, offset: 77913},
+										pos:  position{line: 2407, col: 11, offset: 77940},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2407, col: 11, offset: 77929},
+										pos:  position{line: 2408, col: 11, offset: 77956},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2470, col: 5, offset: 79437},
+										pos: position{line: 2471, col: 5, offset: 79464},
 										run: (*parser).callonAttributeStructuredValueElement45,
 										expr: &seqExpr{
-											pos: position{line: 2470, col: 5, offset: 79437},
+											pos: position{line: 2471, col: 5, offset: 79464},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2470, col: 5, offset: 79437},
+													pos: position{line: 2471, col: 5, offset: 79464},
 													run: (*parser).callonAttributeStructuredValueElement47,
 												},
 												&labeledExpr{
-													pos:   position{line: 2473, col: 5, offset: 79513},
+													pos:   position{line: 2474, col: 5, offset: 79540},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2474, col: 9, offset: 79531},
+														pos: position{line: 2475, col: 9, offset: 79558},
 														run: (*parser).callonAttributeStructuredValueElement49,
 														expr: &charClassMatcher{
-															pos:        position{line: 2474, col: 10, offset: 79532},
+															pos:        position{line: 2475, col: 10, offset: 79559},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -45859,27 +46077,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1197, col: 23, offset: 36986},
+										pos: position{line: 1198, col: 23, offset: 37013},
 										run: (*parser).callonAttributeStructuredValueElement51,
 										expr: &seqExpr{
-											pos: position{line: 1197, col: 23, offset: 36986},
+											pos: position{line: 1198, col: 23, offset: 37013},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1195, col: 32, offset: 36954},
+													pos:        position{line: 1196, col: 32, offset: 36981},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1197, col: 51, offset: 37014},
+													pos:   position{line: 1198, col: 51, offset: 37041},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1197, col: 56, offset: 37019},
+														pos: position{line: 1198, col: 56, offset: 37046},
 														run: (*parser).callonAttributeStructuredValueElement55,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1197, col: 56, offset: 37019},
+															pos: position{line: 1198, col: 56, offset: 37046},
 															expr: &charClassMatcher{
-																pos:        position{line: 1197, col: 56, offset: 37019},
+																pos:        position{line: 1198, col: 56, offset: 37046},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -45889,38 +46107,38 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1195, col: 32, offset: 36954},
+													pos:        position{line: 1196, col: 32, offset: 36981},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&andCodeExpr{
-													pos: position{line: 1198, col: 5, offset: 37091},
+													pos: position{line: 1199, col: 5, offset: 37118},
 													run: (*parser).callonAttributeStructuredValueElement59,
 												},
 											},
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2885, col: 12, offset: 91176},
+										pos: position{line: 2886, col: 12, offset: 91203},
 										run: (*parser).callonAttributeStructuredValueElement60,
 										expr: &choiceExpr{
-											pos: position{line: 2885, col: 13, offset: 91177},
+											pos: position{line: 2886, col: 13, offset: 91204},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2885, col: 13, offset: 91177},
+													pos:        position{line: 2886, col: 13, offset: 91204},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2885, col: 20, offset: 91184},
+													pos:        position{line: 2886, col: 20, offset: 91211},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2885, col: 29, offset: 91193},
+													pos:        position{line: 2886, col: 29, offset: 91220},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -45929,10 +46147,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2815, col: 12, offset: 89313},
+										pos: position{line: 2816, col: 12, offset: 89340},
 										run: (*parser).callonAttributeStructuredValueElement65,
 										expr: &charClassMatcher{
-											pos:        position{line: 2815, col: 12, offset: 89313},
+											pos:        position{line: 2816, col: 12, offset: 89340},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -45948,73 +46166,73 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2418, col: 1, offset: 78199},
+			pos:  position{line: 2419, col: 1, offset: 78226},
 			expr: &actionExpr{
-				pos: position{line: 2420, col: 5, offset: 78281},
+				pos: position{line: 2421, col: 5, offset: 78308},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2420, col: 5, offset: 78281},
+					pos: position{line: 2421, col: 5, offset: 78308},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2420, col: 5, offset: 78281},
+							pos: position{line: 2421, col: 5, offset: 78308},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2423, col: 5, offset: 78346},
+							pos:   position{line: 2424, col: 5, offset: 78373},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2424, col: 9, offset: 78364},
+								pos: position{line: 2425, col: 9, offset: 78391},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2424, col: 9, offset: 78364},
+										pos:  position{line: 2425, col: 9, offset: 78391},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2425, col: 11, offset: 78385},
+										pos:  position{line: 2426, col: 11, offset: 78412},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2426, col: 11, offset: 78408},
+										pos:  position{line: 2427, col: 11, offset: 78435},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2427, col: 11, offset: 78424},
+										pos:  position{line: 2428, col: 11, offset: 78451},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2428, col: 11, offset: 78453},
+										pos:  position{line: 2429, col: 11, offset: 78480},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2429, col: 11, offset: 78479},
+										pos:  position{line: 2430, col: 11, offset: 78506},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2430, col: 11, offset: 78505},
+										pos:  position{line: 2431, col: 11, offset: 78532},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
-										pos: position{line: 1256, col: 5, offset: 38849},
+										pos: position{line: 1257, col: 5, offset: 38876},
 										run: (*parser).callonInlineMacro13,
 										expr: &seqExpr{
-											pos: position{line: 1256, col: 5, offset: 38849},
+											pos: position{line: 1257, col: 5, offset: 38876},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1256, col: 5, offset: 38849},
+													pos:        position{line: 1257, col: 5, offset: 38876},
 													val:        "\\[[",
 													ignoreCase: false,
 													want:       "\"\\\\[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1256, col: 14, offset: 38858},
+													pos:   position{line: 1257, col: 14, offset: 38885},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2861, col: 7, offset: 90657},
+														pos: position{line: 2862, col: 7, offset: 90684},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2861, col: 7, offset: 90657},
+															pos: position{line: 2862, col: 7, offset: 90684},
 															expr: &charClassMatcher{
-																pos:        position{line: 2861, col: 7, offset: 90657},
+																pos:        position{line: 2862, col: 7, offset: 90684},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -46024,7 +46242,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1256, col: 22, offset: 38866},
+													pos:        position{line: 1257, col: 22, offset: 38893},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -46033,27 +46251,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1261, col: 5, offset: 38985},
+										pos: position{line: 1262, col: 5, offset: 39012},
 										run: (*parser).callonInlineMacro21,
 										expr: &seqExpr{
-											pos: position{line: 1261, col: 5, offset: 38985},
+											pos: position{line: 1262, col: 5, offset: 39012},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1261, col: 5, offset: 38985},
+													pos:        position{line: 1262, col: 5, offset: 39012},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1261, col: 10, offset: 38990},
+													pos:   position{line: 1262, col: 10, offset: 39017},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2861, col: 7, offset: 90657},
+														pos: position{line: 2862, col: 7, offset: 90684},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2861, col: 7, offset: 90657},
+															pos: position{line: 2862, col: 7, offset: 90684},
 															expr: &charClassMatcher{
-																pos:        position{line: 2861, col: 7, offset: 90657},
+																pos:        position{line: 2862, col: 7, offset: 90684},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -46063,7 +46281,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1261, col: 18, offset: 38998},
+													pos:        position{line: 1262, col: 18, offset: 39025},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -46072,40 +46290,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1300, col: 23, offset: 40474},
+										pos: position{line: 1301, col: 23, offset: 40501},
 										run: (*parser).callonInlineMacro29,
 										expr: &seqExpr{
-											pos: position{line: 1300, col: 23, offset: 40474},
+											pos: position{line: 1301, col: 23, offset: 40501},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1300, col: 23, offset: 40474},
+													pos:        position{line: 1301, col: 23, offset: 40501},
 													val:        "(((",
 													ignoreCase: false,
 													want:       "\"(((\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1300, col: 29, offset: 40480},
+													pos:   position{line: 1301, col: 29, offset: 40507},
 													label: "term1",
 													expr: &actionExpr{
-														pos: position{line: 1307, col: 30, offset: 40811},
+														pos: position{line: 1308, col: 30, offset: 40838},
 														run: (*parser).callonInlineMacro33,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1307, col: 30, offset: 40811},
+															pos: position{line: 1308, col: 30, offset: 40838},
 															expr: &choiceExpr{
-																pos: position{line: 1307, col: 31, offset: 40812},
+																pos: position{line: 1308, col: 31, offset: 40839},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2766, col: 13, offset: 88079},
+																		pos:        position{line: 2767, col: 13, offset: 88106},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2876, col: 10, offset: 91005},
+																		pos: position{line: 2877, col: 10, offset: 91032},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 91005},
+																			pos:        position{line: 2877, col: 10, offset: 91032},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -46118,23 +46336,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1301, col: 5, offset: 40519},
+													pos:   position{line: 1302, col: 5, offset: 40546},
 													label: "term2",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1301, col: 11, offset: 40525},
+														pos: position{line: 1302, col: 11, offset: 40552},
 														expr: &actionExpr{
-															pos: position{line: 1301, col: 12, offset: 40526},
+															pos: position{line: 1302, col: 12, offset: 40553},
 															run: (*parser).callonInlineMacro41,
 															expr: &seqExpr{
-																pos: position{line: 1301, col: 12, offset: 40526},
+																pos: position{line: 1302, col: 12, offset: 40553},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1301, col: 12, offset: 40526},
+																		pos: position{line: 1302, col: 12, offset: 40553},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 91005},
+																			pos: position{line: 2877, col: 10, offset: 91032},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 91005},
+																				pos:        position{line: 2877, col: 10, offset: 91032},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46143,18 +46361,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1301, col: 19, offset: 40533},
+																		pos:        position{line: 1302, col: 19, offset: 40560},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1301, col: 23, offset: 40537},
+																		pos: position{line: 1302, col: 23, offset: 40564},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 91005},
+																			pos: position{line: 2877, col: 10, offset: 91032},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 91005},
+																				pos:        position{line: 2877, col: 10, offset: 91032},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46163,28 +46381,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1301, col: 30, offset: 40544},
+																		pos:   position{line: 1302, col: 30, offset: 40571},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1307, col: 30, offset: 40811},
+																			pos: position{line: 1308, col: 30, offset: 40838},
 																			run: (*parser).callonInlineMacro51,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1307, col: 30, offset: 40811},
+																				pos: position{line: 1308, col: 30, offset: 40838},
 																				expr: &choiceExpr{
-																					pos: position{line: 1307, col: 31, offset: 40812},
+																					pos: position{line: 1308, col: 31, offset: 40839},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2766, col: 13, offset: 88079},
+																							pos:        position{line: 2767, col: 13, offset: 88106},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 91005},
+																							pos: position{line: 2877, col: 10, offset: 91032},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 91005},
+																								pos:        position{line: 2877, col: 10, offset: 91032},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -46202,23 +46420,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1302, col: 5, offset: 40611},
+													pos:   position{line: 1303, col: 5, offset: 40638},
 													label: "term3",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1302, col: 11, offset: 40617},
+														pos: position{line: 1303, col: 11, offset: 40644},
 														expr: &actionExpr{
-															pos: position{line: 1302, col: 12, offset: 40618},
+															pos: position{line: 1303, col: 12, offset: 40645},
 															run: (*parser).callonInlineMacro59,
 															expr: &seqExpr{
-																pos: position{line: 1302, col: 12, offset: 40618},
+																pos: position{line: 1303, col: 12, offset: 40645},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1302, col: 12, offset: 40618},
+																		pos: position{line: 1303, col: 12, offset: 40645},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 91005},
+																			pos: position{line: 2877, col: 10, offset: 91032},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 91005},
+																				pos:        position{line: 2877, col: 10, offset: 91032},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46227,18 +46445,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1302, col: 19, offset: 40625},
+																		pos:        position{line: 1303, col: 19, offset: 40652},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1302, col: 23, offset: 40629},
+																		pos: position{line: 1303, col: 23, offset: 40656},
 																		expr: &actionExpr{
-																			pos: position{line: 2876, col: 10, offset: 91005},
+																			pos: position{line: 2877, col: 10, offset: 91032},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 10, offset: 91005},
+																				pos:        position{line: 2877, col: 10, offset: 91032},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46247,28 +46465,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1302, col: 30, offset: 40636},
+																		pos:   position{line: 1303, col: 30, offset: 40663},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1307, col: 30, offset: 40811},
+																			pos: position{line: 1308, col: 30, offset: 40838},
 																			run: (*parser).callonInlineMacro69,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1307, col: 30, offset: 40811},
+																				pos: position{line: 1308, col: 30, offset: 40838},
 																				expr: &choiceExpr{
-																					pos: position{line: 1307, col: 31, offset: 40812},
+																					pos: position{line: 1308, col: 31, offset: 40839},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2766, col: 13, offset: 88079},
+																							pos:        position{line: 2767, col: 13, offset: 88106},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2876, col: 10, offset: 91005},
+																							pos: position{line: 2877, col: 10, offset: 91032},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2876, col: 10, offset: 91005},
+																								pos:        position{line: 2877, col: 10, offset: 91032},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -46286,7 +46504,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1303, col: 5, offset: 40703},
+													pos:        position{line: 1304, col: 5, offset: 40730},
 													val:        ")))",
 													ignoreCase: false,
 													want:       "\")))\"",
@@ -46295,15 +46513,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2433, col: 11, offset: 78584},
+										pos:  position{line: 2434, col: 11, offset: 78611},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2434, col: 11, offset: 78604},
+										pos:  position{line: 2435, col: 11, offset: 78631},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2435, col: 11, offset: 78627},
+										pos:  position{line: 2436, col: 11, offset: 78654},
 										name: "InlineMenu",
 									},
 								},
@@ -46315,80 +46533,80 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2439, col: 1, offset: 78684},
+			pos:  position{line: 2440, col: 1, offset: 78711},
 			expr: &actionExpr{
-				pos: position{line: 2441, col: 5, offset: 78772},
+				pos: position{line: 2442, col: 5, offset: 78799},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2441, col: 5, offset: 78772},
+					pos: position{line: 2442, col: 5, offset: 78799},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2441, col: 5, offset: 78772},
+							pos: position{line: 2442, col: 5, offset: 78799},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2444, col: 5, offset: 78849},
+							pos:   position{line: 2445, col: 5, offset: 78876},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2445, col: 9, offset: 78867},
+								pos: position{line: 2446, col: 9, offset: 78894},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1382, col: 26, offset: 44149},
+										pos: position{line: 1383, col: 26, offset: 44176},
 										run: (*parser).callonInlinePassthrough6,
 										expr: &seqExpr{
-											pos: position{line: 1382, col: 26, offset: 44149},
+											pos: position{line: 1383, col: 26, offset: 44176},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1380, col: 32, offset: 44117},
+													pos:        position{line: 1381, col: 32, offset: 44144},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1382, col: 54, offset: 44177},
+													pos:   position{line: 1383, col: 54, offset: 44204},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1386, col: 33, offset: 44390},
+														pos: position{line: 1387, col: 33, offset: 44417},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1386, col: 34, offset: 44391},
+																pos: position{line: 1387, col: 34, offset: 44418},
 																run: (*parser).callonInlinePassthrough11,
 																expr: &zeroOrMoreExpr{
-																	pos: position{line: 1386, col: 34, offset: 44391},
+																	pos: position{line: 1387, col: 34, offset: 44418},
 																	expr: &seqExpr{
-																		pos: position{line: 1386, col: 35, offset: 44392},
+																		pos: position{line: 1387, col: 35, offset: 44419},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1386, col: 35, offset: 44392},
+																				pos: position{line: 1387, col: 35, offset: 44419},
 																				expr: &litMatcher{
-																					pos:        position{line: 1380, col: 32, offset: 44117},
+																					pos:        position{line: 1381, col: 32, offset: 44144},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1386, col: 64, offset: 44421,
+																				line: 1387, col: 64, offset: 44448,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1388, col: 11, offset: 44594},
+																pos: position{line: 1389, col: 11, offset: 44621},
 																run: (*parser).callonInlinePassthrough17,
 																expr: &zeroOrOneExpr{
-																	pos: position{line: 1388, col: 11, offset: 44594},
+																	pos: position{line: 1389, col: 11, offset: 44621},
 																	expr: &seqExpr{
-																		pos: position{line: 1388, col: 12, offset: 44595},
+																		pos: position{line: 1389, col: 12, offset: 44622},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1388, col: 12, offset: 44595},
+																				pos: position{line: 1389, col: 12, offset: 44622},
 																				expr: &actionExpr{
-																					pos: position{line: 2876, col: 10, offset: 91005},
+																					pos: position{line: 2877, col: 10, offset: 91032},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2876, col: 10, offset: 91005},
+																						pos:        position{line: 2877, col: 10, offset: 91032},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -46397,27 +46615,27 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1388, col: 19, offset: 44602},
+																				pos: position{line: 1389, col: 19, offset: 44629},
 																				expr: &actionExpr{
-																					pos: position{line: 2885, col: 12, offset: 91176},
+																					pos: position{line: 2886, col: 12, offset: 91203},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2885, col: 13, offset: 91177},
+																						pos: position{line: 2886, col: 13, offset: 91204},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 13, offset: 91177},
+																								pos:        position{line: 2886, col: 13, offset: 91204},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 20, offset: 91184},
+																								pos:        position{line: 2886, col: 20, offset: 91211},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2885, col: 29, offset: 91193},
+																								pos:        position{line: 2886, col: 29, offset: 91220},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -46427,16 +46645,16 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1388, col: 28, offset: 44611},
+																				pos: position{line: 1389, col: 28, offset: 44638},
 																				expr: &litMatcher{
-																					pos:        position{line: 1380, col: 32, offset: 44117},
+																					pos:        position{line: 1381, col: 32, offset: 44144},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1388, col: 57, offset: 44640,
+																				line: 1389, col: 57, offset: 44667,
 																			},
 																		},
 																	},
@@ -46446,15 +46664,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1380, col: 32, offset: 44117},
+													pos:        position{line: 1381, col: 32, offset: 44144},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&notExpr{
-													pos: position{line: 1382, col: 121, offset: 44244},
+													pos: position{line: 1383, col: 121, offset: 44271},
 													expr: &charClassMatcher{
-														pos:        position{line: 2766, col: 13, offset: 88079},
+														pos:        position{line: 2767, col: 13, offset: 88106},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -46465,45 +46683,45 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1370, col: 26, offset: 43432},
+										pos: position{line: 1371, col: 26, offset: 43459},
 										run: (*parser).callonInlinePassthrough35,
 										expr: &seqExpr{
-											pos: position{line: 1370, col: 26, offset: 43432},
+											pos: position{line: 1371, col: 26, offset: 43459},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1368, col: 32, offset: 43402},
+													pos:        position{line: 1369, col: 32, offset: 43429},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1370, col: 54, offset: 43460},
+													pos:   position{line: 1371, col: 54, offset: 43487},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1374, col: 33, offset: 43673},
+														pos: position{line: 1375, col: 33, offset: 43700},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1374, col: 34, offset: 43674},
+																pos: position{line: 1375, col: 34, offset: 43701},
 																run: (*parser).callonInlinePassthrough40,
 																expr: &seqExpr{
-																	pos: position{line: 1374, col: 34, offset: 43674},
+																	pos: position{line: 1375, col: 34, offset: 43701},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1374, col: 35, offset: 43675},
+																			pos: position{line: 1375, col: 35, offset: 43702},
 																			expr: &litMatcher{
-																				pos:        position{line: 1368, col: 32, offset: 43402},
+																				pos:        position{line: 1369, col: 32, offset: 43429},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1374, col: 64, offset: 43704},
+																			pos: position{line: 1375, col: 64, offset: 43731},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 91005},
+																				pos: position{line: 2877, col: 10, offset: 91032},
 																				run: (*parser).callonInlinePassthrough45,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 91005},
+																					pos:        position{line: 2877, col: 10, offset: 91032},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -46512,27 +46730,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1374, col: 71, offset: 43711},
+																			pos: position{line: 1375, col: 71, offset: 43738},
 																			expr: &actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91176},
+																				pos: position{line: 2886, col: 12, offset: 91203},
 																				run: (*parser).callonInlinePassthrough48,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91177},
+																					pos: position{line: 2886, col: 13, offset: 91204},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91177},
+																							pos:        position{line: 2886, col: 13, offset: 91204},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91184},
+																							pos:        position{line: 2886, col: 20, offset: 91211},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91193},
+																							pos:        position{line: 2886, col: 29, offset: 91220},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -46542,25 +46760,25 @@ var g = &grammar{
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1374, col: 80, offset: 43720,
+																			line: 1375, col: 80, offset: 43747,
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1374, col: 83, offset: 43723},
+																			pos: position{line: 1375, col: 83, offset: 43750},
 																			expr: &seqExpr{
-																				pos: position{line: 1374, col: 84, offset: 43724},
+																				pos: position{line: 1375, col: 84, offset: 43751},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1374, col: 84, offset: 43724},
+																						pos: position{line: 1375, col: 84, offset: 43751},
 																						expr: &seqExpr{
-																							pos: position{line: 1374, col: 86, offset: 43726},
+																							pos: position{line: 1375, col: 86, offset: 43753},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2880, col: 11, offset: 91066},
+																									pos: position{line: 2881, col: 11, offset: 91093},
 																									run: (*parser).callonInlinePassthrough58,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2880, col: 11, offset: 91066},
+																										pos: position{line: 2881, col: 11, offset: 91093},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2880, col: 11, offset: 91066},
+																											pos:        position{line: 2881, col: 11, offset: 91093},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -46569,7 +46787,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1368, col: 32, offset: 43402},
+																									pos:        position{line: 1369, col: 32, offset: 43429},
 																									val:        "+",
 																									ignoreCase: false,
 																									want:       "\"+\"",
@@ -46578,36 +46796,36 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1374, col: 122, offset: 43762},
+																						pos: position{line: 1375, col: 122, offset: 43789},
 																						expr: &litMatcher{
-																							pos:        position{line: 1368, col: 32, offset: 43402},
+																							pos:        position{line: 1369, col: 32, offset: 43429},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1374, col: 151, offset: 43791},
+																						pos: position{line: 1375, col: 151, offset: 43818},
 																						expr: &actionExpr{
-																							pos: position{line: 2885, col: 12, offset: 91176},
+																							pos: position{line: 2886, col: 12, offset: 91203},
 																							run: (*parser).callonInlinePassthrough65,
 																							expr: &choiceExpr{
-																								pos: position{line: 2885, col: 13, offset: 91177},
+																								pos: position{line: 2886, col: 13, offset: 91204},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 13, offset: 91177},
+																										pos:        position{line: 2886, col: 13, offset: 91204},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 20, offset: 91184},
+																										pos:        position{line: 2886, col: 20, offset: 91211},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2885, col: 29, offset: 91193},
+																										pos:        position{line: 2886, col: 29, offset: 91220},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -46617,7 +46835,7 @@ var g = &grammar{
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1374, col: 160, offset: 43800,
+																						line: 1375, col: 160, offset: 43827,
 																					},
 																				},
 																			},
@@ -46626,18 +46844,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1376, col: 11, offset: 43950},
+																pos: position{line: 1377, col: 11, offset: 43977},
 																run: (*parser).callonInlinePassthrough71,
 																expr: &seqExpr{
-																	pos: position{line: 1376, col: 12, offset: 43951},
+																	pos: position{line: 1377, col: 12, offset: 43978},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1376, col: 12, offset: 43951},
+																			pos: position{line: 1377, col: 12, offset: 43978},
 																			expr: &actionExpr{
-																				pos: position{line: 2876, col: 10, offset: 91005},
+																				pos: position{line: 2877, col: 10, offset: 91032},
 																				run: (*parser).callonInlinePassthrough74,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 91005},
+																					pos:        position{line: 2877, col: 10, offset: 91032},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -46646,27 +46864,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1376, col: 19, offset: 43958},
+																			pos: position{line: 1377, col: 19, offset: 43985},
 																			expr: &actionExpr{
-																				pos: position{line: 2885, col: 12, offset: 91176},
+																				pos: position{line: 2886, col: 12, offset: 91203},
 																				run: (*parser).callonInlinePassthrough77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2885, col: 13, offset: 91177},
+																					pos: position{line: 2886, col: 13, offset: 91204},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 13, offset: 91177},
+																							pos:        position{line: 2886, col: 13, offset: 91204},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 20, offset: 91184},
+																							pos:        position{line: 2886, col: 20, offset: 91211},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2885, col: 29, offset: 91193},
+																							pos:        position{line: 2886, col: 29, offset: 91220},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -46676,16 +46894,16 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1376, col: 28, offset: 43967},
+																			pos: position{line: 1377, col: 28, offset: 43994},
 																			expr: &litMatcher{
-																				pos:        position{line: 1368, col: 32, offset: 43402},
+																				pos:        position{line: 1369, col: 32, offset: 43429},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1376, col: 57, offset: 43996,
+																			line: 1377, col: 57, offset: 44023,
 																		},
 																	},
 																},
@@ -46694,15 +46912,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1368, col: 32, offset: 43402},
+													pos:        position{line: 1369, col: 32, offset: 43429},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&notExpr{
-													pos: position{line: 1370, col: 121, offset: 43527},
+													pos: position{line: 1371, col: 121, offset: 43554},
 													expr: &charClassMatcher{
-														pos:        position{line: 2766, col: 13, offset: 88079},
+														pos:        position{line: 2767, col: 13, offset: 88106},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -46713,7 +46931,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2445, col: 57, offset: 78915},
+										pos:  position{line: 2446, col: 57, offset: 78942},
 										name: "PassthroughMacro",
 									},
 								},
@@ -46725,16 +46943,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2450, col: 1, offset: 78975},
+			pos:  position{line: 2451, col: 1, offset: 79002},
 			expr: &seqExpr{
-				pos: position{line: 2452, col: 5, offset: 79051},
+				pos: position{line: 2453, col: 5, offset: 79078},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2452, col: 5, offset: 79051},
+						pos: position{line: 2453, col: 5, offset: 79078},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2455, col: 5, offset: 79116},
+						pos:  position{line: 2456, col: 5, offset: 79143},
 						name: "QuotedText",
 					},
 				},
@@ -46742,22 +46960,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2457, col: 1, offset: 79129},
+			pos:  position{line: 2458, col: 1, offset: 79156},
 			expr: &actionExpr{
-				pos: position{line: 2459, col: 5, offset: 79211},
+				pos: position{line: 2460, col: 5, offset: 79238},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2459, col: 5, offset: 79211},
+					pos: position{line: 2460, col: 5, offset: 79238},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2459, col: 5, offset: 79211},
+							pos: position{line: 2460, col: 5, offset: 79238},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2462, col: 5, offset: 79282},
+							pos:   position{line: 2463, col: 5, offset: 79309},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2463, col: 9, offset: 79300},
+								pos:  position{line: 2464, col: 9, offset: 79327},
 								name: "Symbol",
 							},
 						},
@@ -46767,93 +46985,93 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2521, col: 1, offset: 81130},
+			pos:  position{line: 2522, col: 1, offset: 81157},
 			expr: &choiceExpr{
-				pos: position{line: 2523, col: 5, offset: 81160},
+				pos: position{line: 2524, col: 5, offset: 81187},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2523, col: 5, offset: 81160},
+						pos: position{line: 2524, col: 5, offset: 81187},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2523, col: 5, offset: 81160},
+							pos: position{line: 2524, col: 5, offset: 81187},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2523, col: 5, offset: 81160},
+									pos:        position{line: 2524, col: 5, offset: 81187},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2523, col: 10, offset: 81165},
+									pos: position{line: 2524, col: 10, offset: 81192},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2523, col: 10, offset: 81165},
+											pos:  position{line: 2524, col: 10, offset: 81192},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2552, col: 14, offset: 82299},
+											pos: position{line: 2553, col: 14, offset: 82326},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2552, col: 14, offset: 82299},
+												pos:        position{line: 2553, col: 14, offset: 82326},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2556, col: 14, offset: 82365},
+											pos: position{line: 2557, col: 14, offset: 82392},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2556, col: 14, offset: 82365},
+												pos:        position{line: 2557, col: 14, offset: 82392},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2560, col: 15, offset: 82434},
+											pos: position{line: 2561, col: 15, offset: 82461},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2560, col: 15, offset: 82434},
+												pos:        position{line: 2561, col: 15, offset: 82461},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2564, col: 13, offset: 82499},
+											pos: position{line: 2565, col: 13, offset: 82526},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2564, col: 13, offset: 82499},
+												pos:        position{line: 2565, col: 13, offset: 82526},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2571, col: 5, offset: 82637},
+											pos: position{line: 2572, col: 5, offset: 82664},
 											run: (*parser).callonSymbol15,
 											expr: &seqExpr{
-												pos: position{line: 2571, col: 5, offset: 82637},
+												pos: position{line: 2572, col: 5, offset: 82664},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2571, col: 5, offset: 82637},
+														pos:        position{line: 2572, col: 5, offset: 82664},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2572, col: 5, offset: 82647},
+														pos: position{line: 2573, col: 5, offset: 82674},
 														run: (*parser).callonSymbol18,
 													},
 													&choiceExpr{
-														pos: position{line: 2576, col: 6, offset: 82734},
+														pos: position{line: 2577, col: 6, offset: 82761},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2876, col: 10, offset: 91005},
+																pos: position{line: 2877, col: 10, offset: 91032},
 																run: (*parser).callonSymbol20,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2876, col: 10, offset: 91005},
+																	pos:        position{line: 2877, col: 10, offset: 91032},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -46861,30 +47079,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2576, col: 14, offset: 82742},
+																pos: position{line: 2577, col: 14, offset: 82769},
 																expr: &choiceExpr{
-																	pos: position{line: 2898, col: 8, offset: 91403},
+																	pos: position{line: 2899, col: 8, offset: 91430},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 12, offset: 91176},
+																			pos: position{line: 2886, col: 12, offset: 91203},
 																			run: (*parser).callonSymbol24,
 																			expr: &choiceExpr{
-																				pos: position{line: 2885, col: 13, offset: 91177},
+																				pos: position{line: 2886, col: 13, offset: 91204},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 13, offset: 91177},
+																						pos:        position{line: 2886, col: 13, offset: 91204},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 20, offset: 91184},
+																						pos:        position{line: 2886, col: 20, offset: 91211},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2885, col: 29, offset: 91193},
+																						pos:        position{line: 2886, col: 29, offset: 91220},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -46893,9 +47111,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2895, col: 8, offset: 91353},
+																			pos: position{line: 2896, col: 8, offset: 91380},
 																			expr: &anyMatcher{
-																				line: 2895, col: 9, offset: 91354,
+																				line: 2896, col: 9, offset: 91381,
 																			},
 																		},
 																	},
@@ -46907,53 +47125,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2581, col: 5, offset: 82862},
+											pos: position{line: 2582, col: 5, offset: 82889},
 											run: (*parser).callonSymbol31,
 											expr: &seqExpr{
-												pos: position{line: 2581, col: 5, offset: 82862},
+												pos: position{line: 2582, col: 5, offset: 82889},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2581, col: 5, offset: 82862},
+														pos:        position{line: 2582, col: 5, offset: 82889},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2582, col: 5, offset: 82872},
+														pos: position{line: 2583, col: 5, offset: 82899},
 														run: (*parser).callonSymbol34,
 													},
 													&andExpr{
-														pos: position{line: 2586, col: 5, offset: 82961},
+														pos: position{line: 2587, col: 5, offset: 82988},
 														expr: &choiceExpr{
-															pos: position{line: 2586, col: 7, offset: 82963},
+															pos: position{line: 2587, col: 7, offset: 82990},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2766, col: 13, offset: 88079},
+																	pos:        position{line: 2767, col: 13, offset: 88106},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2885, col: 12, offset: 91176},
+																	pos: position{line: 2886, col: 12, offset: 91203},
 																	run: (*parser).callonSymbol38,
 																	expr: &choiceExpr{
-																		pos: position{line: 2885, col: 13, offset: 91177},
+																		pos: position{line: 2886, col: 13, offset: 91204},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2885, col: 13, offset: 91177},
+																				pos:        position{line: 2886, col: 13, offset: 91204},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2885, col: 20, offset: 91184},
+																				pos:        position{line: 2886, col: 20, offset: 91211},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2885, col: 29, offset: 91193},
+																				pos:        position{line: 2886, col: 29, offset: 91220},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -46962,9 +47180,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2895, col: 8, offset: 91353},
+																	pos: position{line: 2896, col: 8, offset: 91380},
 																	expr: &anyMatcher{
-																		line: 2895, col: 9, offset: 91354,
+																		line: 2896, col: 9, offset: 91381,
 																	},
 																},
 															},
@@ -46979,63 +47197,63 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2526, col: 7, offset: 81329},
+						pos: position{line: 2527, col: 7, offset: 81356},
 						run: (*parser).callonSymbol45,
 						expr: &seqExpr{
-							pos: position{line: 2526, col: 7, offset: 81329},
+							pos: position{line: 2527, col: 7, offset: 81356},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2526, col: 7, offset: 81329},
+									pos:        position{line: 2527, col: 7, offset: 81356},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2526, col: 11, offset: 81333},
+									pos:   position{line: 2527, col: 11, offset: 81360},
 									label: "elements",
 									expr: &choiceExpr{
-										pos: position{line: 2526, col: 21, offset: 81343},
+										pos: position{line: 2527, col: 21, offset: 81370},
 										alternatives: []interface{}{
 											&seqExpr{
-												pos: position{line: 2526, col: 21, offset: 81343},
+												pos: position{line: 2527, col: 21, offset: 81370},
 												exprs: []interface{}{
 													&charClassMatcher{
-														pos:        position{line: 2526, col: 21, offset: 81343},
+														pos:        position{line: 2527, col: 21, offset: 81370},
 														val:        "[-=]",
 														chars:      []rune{'-', '='},
 														ignoreCase: false,
 														inverted:   false,
 													},
 													&andExpr{
-														pos: position{line: 2526, col: 26, offset: 81348},
+														pos: position{line: 2527, col: 26, offset: 81375},
 														expr: &litMatcher{
-															pos:        position{line: 2526, col: 27, offset: 81349},
+															pos:        position{line: 2527, col: 27, offset: 81376},
 															val:        ">",
 															ignoreCase: false,
 															want:       "\">\"",
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2526, col: 32, offset: 81354},
+														pos: position{line: 2527, col: 32, offset: 81381},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2470, col: 5, offset: 79437},
+																pos: position{line: 2471, col: 5, offset: 79464},
 																run: (*parser).callonSymbol55,
 																expr: &seqExpr{
-																	pos: position{line: 2470, col: 5, offset: 79437},
+																	pos: position{line: 2471, col: 5, offset: 79464},
 																	exprs: []interface{}{
 																		&andCodeExpr{
-																			pos: position{line: 2470, col: 5, offset: 79437},
+																			pos: position{line: 2471, col: 5, offset: 79464},
 																			run: (*parser).callonSymbol57,
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 2473, col: 5, offset: 79513},
+																			pos:   position{line: 2474, col: 5, offset: 79540},
 																			label: "element",
 																			expr: &actionExpr{
-																				pos: position{line: 2474, col: 9, offset: 79531},
+																				pos: position{line: 2475, col: 9, offset: 79558},
 																				run: (*parser).callonSymbol59,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2474, col: 10, offset: 79532},
+																					pos:        position{line: 2475, col: 10, offset: 79559},
 																					val:        "[<>&]",
 																					chars:      []rune{'<', '>', '&'},
 																					ignoreCase: false,
@@ -47047,28 +47265,28 @@ var g = &grammar{
 																},
 															},
 															&anyMatcher{
-																line: 2526, col: 51, offset: 81373,
+																line: 2527, col: 51, offset: 81400,
 															},
 														},
 													},
 												},
 											},
 											&seqExpr{
-												pos: position{line: 2526, col: 56, offset: 81378},
+												pos: position{line: 2527, col: 56, offset: 81405},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2526, col: 56, offset: 81378},
+														pos: position{line: 2527, col: 56, offset: 81405},
 														expr: &choiceExpr{
-															pos: position{line: 2526, col: 58, offset: 81380},
+															pos: position{line: 2527, col: 58, offset: 81407},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2526, col: 58, offset: 81380},
+																	pos:        position{line: 2527, col: 58, offset: 81407},
 																	val:        "<-",
 																	ignoreCase: false,
 																	want:       "\"<-\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2526, col: 65, offset: 81387},
+																	pos:        position{line: 2527, col: 65, offset: 81414},
 																	val:        "<=",
 																	ignoreCase: false,
 																	want:       "\"<=\"",
@@ -47077,26 +47295,26 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2526, col: 72, offset: 81394},
+														pos: position{line: 2527, col: 72, offset: 81421},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2470, col: 5, offset: 79437},
+																pos: position{line: 2471, col: 5, offset: 79464},
 																run: (*parser).callonSymbol68,
 																expr: &seqExpr{
-																	pos: position{line: 2470, col: 5, offset: 79437},
+																	pos: position{line: 2471, col: 5, offset: 79464},
 																	exprs: []interface{}{
 																		&andCodeExpr{
-																			pos: position{line: 2470, col: 5, offset: 79437},
+																			pos: position{line: 2471, col: 5, offset: 79464},
 																			run: (*parser).callonSymbol70,
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 2473, col: 5, offset: 79513},
+																			pos:   position{line: 2474, col: 5, offset: 79540},
 																			label: "element",
 																			expr: &actionExpr{
-																				pos: position{line: 2474, col: 9, offset: 79531},
+																				pos: position{line: 2475, col: 9, offset: 79558},
 																				run: (*parser).callonSymbol72,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2474, col: 10, offset: 79532},
+																					pos:        position{line: 2475, col: 10, offset: 79559},
 																					val:        "[<>&]",
 																					chars:      []rune{'<', '>', '&'},
 																					ignoreCase: false,
@@ -47108,12 +47326,12 @@ var g = &grammar{
 																},
 															},
 															&anyMatcher{
-																line: 2526, col: 91, offset: 81413,
+																line: 2527, col: 91, offset: 81440,
 															},
 														},
 													},
 													&anyMatcher{
-														line: 2526, col: 94, offset: 81416,
+														line: 2527, col: 94, offset: 81443,
 													},
 												},
 											},
@@ -47124,73 +47342,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2527, col: 7, offset: 81450},
+						pos:  position{line: 2528, col: 7, offset: 81477},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2552, col: 14, offset: 82299},
+						pos: position{line: 2553, col: 14, offset: 82326},
 						run: (*parser).callonSymbol77,
 						expr: &litMatcher{
-							pos:        position{line: 2552, col: 14, offset: 82299},
+							pos:        position{line: 2553, col: 14, offset: 82326},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2556, col: 14, offset: 82365},
+						pos: position{line: 2557, col: 14, offset: 82392},
 						run: (*parser).callonSymbol79,
 						expr: &litMatcher{
-							pos:        position{line: 2556, col: 14, offset: 82365},
+							pos:        position{line: 2557, col: 14, offset: 82392},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2560, col: 15, offset: 82434},
+						pos: position{line: 2561, col: 15, offset: 82461},
 						run: (*parser).callonSymbol81,
 						expr: &litMatcher{
-							pos:        position{line: 2560, col: 15, offset: 82434},
+							pos:        position{line: 2561, col: 15, offset: 82461},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2564, col: 13, offset: 82499},
+						pos: position{line: 2565, col: 13, offset: 82526},
 						run: (*parser).callonSymbol83,
 						expr: &litMatcher{
-							pos:        position{line: 2564, col: 13, offset: 82499},
+							pos:        position{line: 2565, col: 13, offset: 82526},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2571, col: 5, offset: 82637},
+						pos: position{line: 2572, col: 5, offset: 82664},
 						run: (*parser).callonSymbol85,
 						expr: &seqExpr{
-							pos: position{line: 2571, col: 5, offset: 82637},
+							pos: position{line: 2572, col: 5, offset: 82664},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2571, col: 5, offset: 82637},
+									pos:        position{line: 2572, col: 5, offset: 82664},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2572, col: 5, offset: 82647},
+									pos: position{line: 2573, col: 5, offset: 82674},
 									run: (*parser).callonSymbol88,
 								},
 								&choiceExpr{
-									pos: position{line: 2576, col: 6, offset: 82734},
+									pos: position{line: 2577, col: 6, offset: 82761},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2876, col: 10, offset: 91005},
+											pos: position{line: 2877, col: 10, offset: 91032},
 											run: (*parser).callonSymbol90,
 											expr: &charClassMatcher{
-												pos:        position{line: 2876, col: 10, offset: 91005},
+												pos:        position{line: 2877, col: 10, offset: 91032},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -47198,30 +47416,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2576, col: 14, offset: 82742},
+											pos: position{line: 2577, col: 14, offset: 82769},
 											expr: &choiceExpr{
-												pos: position{line: 2898, col: 8, offset: 91403},
+												pos: position{line: 2899, col: 8, offset: 91430},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2885, col: 12, offset: 91176},
+														pos: position{line: 2886, col: 12, offset: 91203},
 														run: (*parser).callonSymbol94,
 														expr: &choiceExpr{
-															pos: position{line: 2885, col: 13, offset: 91177},
+															pos: position{line: 2886, col: 13, offset: 91204},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2885, col: 13, offset: 91177},
+																	pos:        position{line: 2886, col: 13, offset: 91204},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2885, col: 20, offset: 91184},
+																	pos:        position{line: 2886, col: 20, offset: 91211},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2885, col: 29, offset: 91193},
+																	pos:        position{line: 2886, col: 29, offset: 91220},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -47230,9 +47448,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2895, col: 8, offset: 91353},
+														pos: position{line: 2896, col: 8, offset: 91380},
 														expr: &anyMatcher{
-															line: 2895, col: 9, offset: 91354,
+															line: 2896, col: 9, offset: 91381,
 														},
 													},
 												},
@@ -47244,53 +47462,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2581, col: 5, offset: 82862},
+						pos: position{line: 2582, col: 5, offset: 82889},
 						run: (*parser).callonSymbol101,
 						expr: &seqExpr{
-							pos: position{line: 2581, col: 5, offset: 82862},
+							pos: position{line: 2582, col: 5, offset: 82889},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2581, col: 5, offset: 82862},
+									pos:        position{line: 2582, col: 5, offset: 82889},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2582, col: 5, offset: 82872},
+									pos: position{line: 2583, col: 5, offset: 82899},
 									run: (*parser).callonSymbol104,
 								},
 								&andExpr{
-									pos: position{line: 2586, col: 5, offset: 82961},
+									pos: position{line: 2587, col: 5, offset: 82988},
 									expr: &choiceExpr{
-										pos: position{line: 2586, col: 7, offset: 82963},
+										pos: position{line: 2587, col: 7, offset: 82990},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2766, col: 13, offset: 88079},
+												pos:        position{line: 2767, col: 13, offset: 88106},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2885, col: 12, offset: 91176},
+												pos: position{line: 2886, col: 12, offset: 91203},
 												run: (*parser).callonSymbol108,
 												expr: &choiceExpr{
-													pos: position{line: 2885, col: 13, offset: 91177},
+													pos: position{line: 2886, col: 13, offset: 91204},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2885, col: 13, offset: 91177},
+															pos:        position{line: 2886, col: 13, offset: 91204},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2885, col: 20, offset: 91184},
+															pos:        position{line: 2886, col: 20, offset: 91211},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2885, col: 29, offset: 91193},
+															pos:        position{line: 2886, col: 29, offset: 91220},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -47299,9 +47517,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2895, col: 8, offset: 91353},
+												pos: position{line: 2896, col: 8, offset: 91380},
 												expr: &anyMatcher{
-													line: 2895, col: 9, offset: 91354,
+													line: 2896, col: 9, offset: 91381,
 												},
 											},
 										},
@@ -47311,40 +47529,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2592, col: 21, offset: 83051},
+						pos: position{line: 2593, col: 21, offset: 83078},
 						run: (*parser).callonSymbol115,
 						expr: &litMatcher{
-							pos:        position{line: 2592, col: 21, offset: 83051},
+							pos:        position{line: 2593, col: 21, offset: 83078},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2596, col: 20, offset: 83121},
+						pos: position{line: 2597, col: 20, offset: 83148},
 						run: (*parser).callonSymbol117,
 						expr: &litMatcher{
-							pos:        position{line: 2596, col: 20, offset: 83121},
+							pos:        position{line: 2597, col: 20, offset: 83148},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2600, col: 21, offset: 83192},
+						pos: position{line: 2601, col: 21, offset: 83219},
 						run: (*parser).callonSymbol119,
 						expr: &litMatcher{
-							pos:        position{line: 2600, col: 21, offset: 83192},
+							pos:        position{line: 2601, col: 21, offset: 83219},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2604, col: 20, offset: 83262},
+						pos: position{line: 2605, col: 20, offset: 83289},
 						run: (*parser).callonSymbol121,
 						expr: &litMatcher{
-							pos:        position{line: 2604, col: 20, offset: 83262},
+							pos:        position{line: 2605, col: 20, offset: 83289},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -47355,43 +47573,43 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2538, col: 1, offset: 81640},
+			pos:  position{line: 2539, col: 1, offset: 81667},
 			expr: &choiceExpr{
-				pos: position{line: 2539, col: 5, offset: 81662},
+				pos: position{line: 2540, col: 5, offset: 81689},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2539, col: 5, offset: 81662},
+						pos: position{line: 2540, col: 5, offset: 81689},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2539, col: 5, offset: 81662},
+							pos: position{line: 2540, col: 5, offset: 81689},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2539, col: 5, offset: 81662},
+									pos:        position{line: 2540, col: 5, offset: 81689},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2539, col: 11, offset: 81668},
+									pos: position{line: 2540, col: 11, offset: 81695},
 									expr: &seqExpr{
-										pos: position{line: 2089, col: 5, offset: 67574},
+										pos: position{line: 2090, col: 5, offset: 67601},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2089, col: 5, offset: 67574},
+												pos:        position{line: 2090, col: 5, offset: 67601},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2090, col: 5, offset: 67583},
+												pos: position{line: 2091, col: 5, offset: 67610},
 												run: (*parser).callonQuotationMark8,
 											},
 											&andExpr{
-												pos: position{line: 2094, col: 5, offset: 67706},
+												pos: position{line: 2095, col: 5, offset: 67733},
 												expr: &notExpr{
-													pos: position{line: 2094, col: 7, offset: 67708},
+													pos: position{line: 2095, col: 7, offset: 67735},
 													expr: &litMatcher{
-														pos:        position{line: 2094, col: 8, offset: 67709},
+														pos:        position{line: 2095, col: 8, offset: 67736},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -47405,21 +47623,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2542, col: 7, offset: 81821},
+						pos: position{line: 2543, col: 7, offset: 81848},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2542, col: 7, offset: 81821},
+							pos: position{line: 2543, col: 7, offset: 81848},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2542, col: 7, offset: 81821},
+									pos:        position{line: 2543, col: 7, offset: 81848},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2542, col: 13, offset: 81827},
+									pos: position{line: 2543, col: 13, offset: 81854},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2542, col: 14, offset: 81828},
+										pos:  position{line: 2543, col: 14, offset: 81855},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -47427,38 +47645,38 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2545, col: 7, offset: 81978},
+						pos: position{line: 2546, col: 7, offset: 82005},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2545, col: 7, offset: 81978},
+							pos: position{line: 2546, col: 7, offset: 82005},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2545, col: 7, offset: 81978},
+									pos:        position{line: 2546, col: 7, offset: 82005},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2545, col: 12, offset: 81983},
+									pos: position{line: 2546, col: 12, offset: 82010},
 									expr: &seqExpr{
-										pos: position{line: 2089, col: 5, offset: 67574},
+										pos: position{line: 2090, col: 5, offset: 67601},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2089, col: 5, offset: 67574},
+												pos:        position{line: 2090, col: 5, offset: 67601},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2090, col: 5, offset: 67583},
+												pos: position{line: 2091, col: 5, offset: 67610},
 												run: (*parser).callonQuotationMark23,
 											},
 											&andExpr{
-												pos: position{line: 2094, col: 5, offset: 67706},
+												pos: position{line: 2095, col: 5, offset: 67733},
 												expr: &notExpr{
-													pos: position{line: 2094, col: 7, offset: 67708},
+													pos: position{line: 2095, col: 7, offset: 67735},
 													expr: &litMatcher{
-														pos:        position{line: 2094, col: 8, offset: 67709},
+														pos:        position{line: 2095, col: 8, offset: 67736},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -47472,21 +47690,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2548, col: 7, offset: 82136},
+						pos: position{line: 2549, col: 7, offset: 82163},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2548, col: 7, offset: 82136},
+							pos: position{line: 2549, col: 7, offset: 82163},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2548, col: 7, offset: 82136},
+									pos:        position{line: 2549, col: 7, offset: 82163},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2548, col: 12, offset: 82141},
+									pos: position{line: 2549, col: 12, offset: 82168},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2548, col: 13, offset: 82142},
+										pos:  position{line: 2549, col: 13, offset: 82169},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -47498,63 +47716,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2681, col: 1, offset: 85164},
+			pos:  position{line: 2682, col: 1, offset: 85191},
 			expr: &actionExpr{
-				pos: position{line: 2681, col: 26, offset: 85189},
+				pos: position{line: 2682, col: 26, offset: 85216},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2681, col: 26, offset: 85189},
+					pos: position{line: 2682, col: 26, offset: 85216},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2681, col: 26, offset: 85189},
+							pos:   position{line: 2682, col: 26, offset: 85216},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2681, col: 31, offset: 85194},
+								pos: position{line: 2682, col: 31, offset: 85221},
 								expr: &actionExpr{
-									pos: position{line: 2686, col: 5, offset: 85257},
+									pos: position{line: 2687, col: 5, offset: 85284},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2686, col: 5, offset: 85257},
+										pos: position{line: 2687, col: 5, offset: 85284},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2893, col: 11, offset: 91339},
+												pos: position{line: 2894, col: 11, offset: 91366},
 												expr: &anyMatcher{
-													line: 2893, col: 13, offset: 91341,
+													line: 2894, col: 13, offset: 91368,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2689, col: 5, offset: 85383},
+												pos:   position{line: 2690, col: 5, offset: 85410},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2689, col: 16, offset: 85394},
+													pos: position{line: 2690, col: 16, offset: 85421},
 													expr: &actionExpr{
-														pos: position{line: 2689, col: 17, offset: 85395},
+														pos: position{line: 2690, col: 17, offset: 85422},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2689, col: 17, offset: 85395},
+															pos: position{line: 2690, col: 17, offset: 85422},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2689, col: 17, offset: 85395},
+																	pos:   position{line: 2690, col: 17, offset: 85422},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2868, col: 12, offset: 90832},
+																		pos: position{line: 2869, col: 12, offset: 90859},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2868, col: 13, offset: 90833},
+																			pos: position{line: 2869, col: 13, offset: 90860},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2868, col: 13, offset: 90833},
+																					pos: position{line: 2869, col: 13, offset: 90860},
 																					expr: &litMatcher{
-																						pos:        position{line: 2868, col: 13, offset: 90833},
+																						pos:        position{line: 2869, col: 13, offset: 90860},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2868, col: 18, offset: 90838},
+																					pos: position{line: 2869, col: 18, offset: 90865},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2868, col: 18, offset: 90838},
+																						pos:        position{line: 2869, col: 18, offset: 90865},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -47566,7 +47784,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2689, col: 27, offset: 85405},
+																	pos:        position{line: 2690, col: 27, offset: 85432},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -47577,38 +47795,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2690, col: 5, offset: 85433},
+												pos:   position{line: 2691, col: 5, offset: 85460},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2690, col: 12, offset: 85440},
+													pos: position{line: 2691, col: 12, offset: 85467},
 													expr: &choiceExpr{
-														pos: position{line: 2691, col: 9, offset: 85450},
+														pos: position{line: 2692, col: 9, offset: 85477},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2691, col: 9, offset: 85450},
+																pos: position{line: 2692, col: 9, offset: 85477},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2691, col: 9, offset: 85450},
+																	pos:        position{line: 2692, col: 9, offset: 85477},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2692, col: 11, offset: 85497},
+																pos: position{line: 2693, col: 11, offset: 85524},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2692, col: 11, offset: 85497},
+																	pos:        position{line: 2693, col: 11, offset: 85524},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2693, col: 11, offset: 85545},
+																pos: position{line: 2694, col: 11, offset: 85572},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2693, col: 11, offset: 85545},
+																	pos:        position{line: 2694, col: 11, offset: 85572},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -47619,38 +47837,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2695, col: 5, offset: 85595},
+												pos:   position{line: 2696, col: 5, offset: 85622},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2695, col: 12, offset: 85602},
+													pos: position{line: 2696, col: 12, offset: 85629},
 													expr: &choiceExpr{
-														pos: position{line: 2696, col: 9, offset: 85612},
+														pos: position{line: 2697, col: 9, offset: 85639},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2696, col: 9, offset: 85612},
+																pos: position{line: 2697, col: 9, offset: 85639},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2696, col: 9, offset: 85612},
+																	pos:        position{line: 2697, col: 9, offset: 85639},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2697, col: 11, offset: 85659},
+																pos: position{line: 2698, col: 11, offset: 85686},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2697, col: 11, offset: 85659},
+																	pos:        position{line: 2698, col: 11, offset: 85686},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2698, col: 11, offset: 85709},
+																pos: position{line: 2699, col: 11, offset: 85736},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2698, col: 11, offset: 85709},
+																	pos:        position{line: 2699, col: 11, offset: 85736},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -47661,32 +47879,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2700, col: 5, offset: 85760},
+												pos:   position{line: 2701, col: 5, offset: 85787},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2700, col: 12, offset: 85767},
+													pos: position{line: 2701, col: 12, offset: 85794},
 													expr: &choiceExpr{
-														pos: position{line: 2700, col: 13, offset: 85768},
+														pos: position{line: 2701, col: 13, offset: 85795},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2868, col: 12, offset: 90832},
+																pos: position{line: 2869, col: 12, offset: 90859},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2868, col: 13, offset: 90833},
+																	pos: position{line: 2869, col: 13, offset: 90860},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2868, col: 13, offset: 90833},
+																			pos: position{line: 2869, col: 13, offset: 90860},
 																			expr: &litMatcher{
-																				pos:        position{line: 2868, col: 13, offset: 90833},
+																				pos:        position{line: 2869, col: 13, offset: 90860},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2868, col: 18, offset: 90838},
+																			pos: position{line: 2869, col: 18, offset: 90865},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2868, col: 18, offset: 90838},
+																				pos:        position{line: 2869, col: 18, offset: 90865},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -47697,10 +47915,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2700, col: 24, offset: 85779},
+																pos: position{line: 2701, col: 24, offset: 85806},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2700, col: 24, offset: 85779},
+																	pos:        position{line: 2701, col: 24, offset: 85806},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -47711,15 +47929,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2701, col: 5, offset: 85821},
+												pos:   position{line: 2702, col: 5, offset: 85848},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2701, col: 11, offset: 85827},
+													pos: position{line: 2702, col: 11, offset: 85854},
 													expr: &actionExpr{
-														pos: position{line: 2701, col: 12, offset: 85828},
+														pos: position{line: 2702, col: 12, offset: 85855},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2701, col: 12, offset: 85828},
+															pos:        position{line: 2702, col: 12, offset: 85855},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -47729,12 +47947,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2703, col: 5, offset: 85958},
+												pos:   position{line: 2704, col: 5, offset: 85985},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2703, col: 11, offset: 85964},
+													pos: position{line: 2704, col: 11, offset: 85991},
 													expr: &litMatcher{
-														pos:        position{line: 2703, col: 12, offset: 85965},
+														pos:        position{line: 2704, col: 12, offset: 85992},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -47742,7 +47960,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2704, col: 5, offset: 85975},
+												pos: position{line: 2705, col: 5, offset: 86002},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -47751,9 +47969,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2895, col: 8, offset: 91353},
+							pos: position{line: 2896, col: 8, offset: 91380},
 							expr: &anyMatcher{
-								line: 2895, col: 9, offset: 91354,
+								line: 2896, col: 9, offset: 91381,
 							},
 						},
 					},
@@ -47762,23 +47980,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2731, col: 1, offset: 86979},
+			pos:  position{line: 2732, col: 1, offset: 87006},
 			expr: &actionExpr{
-				pos: position{line: 2732, col: 5, offset: 87002},
+				pos: position{line: 2733, col: 5, offset: 87029},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2732, col: 5, offset: 87002},
+					pos: position{line: 2733, col: 5, offset: 87029},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2732, col: 5, offset: 87002},
+							pos:   position{line: 2733, col: 5, offset: 87029},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2755, col: 18, offset: 87743},
+								pos: position{line: 2756, col: 18, offset: 87770},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2755, col: 19, offset: 87744},
+									pos: position{line: 2756, col: 19, offset: 87771},
 									expr: &charClassMatcher{
-										pos:        position{line: 2755, col: 19, offset: 87744},
+										pos:        position{line: 2756, col: 19, offset: 87771},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47789,25 +48007,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2733, col: 5, offset: 87028},
+							pos: position{line: 2734, col: 5, offset: 87055},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2737, col: 5, offset: 87156},
+							pos:        position{line: 2738, col: 5, offset: 87183},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2738, col: 5, offset: 87166},
+							pos:   position{line: 2739, col: 5, offset: 87193},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2759, col: 19, offset: 87819},
+								pos: position{line: 2760, col: 19, offset: 87846},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2759, col: 19, offset: 87819},
+									pos: position{line: 2760, col: 19, offset: 87846},
 									expr: &charClassMatcher{
-										pos:        position{line: 2759, col: 19, offset: 87819},
+										pos:        position{line: 2760, col: 19, offset: 87846},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -47817,36 +48035,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2739, col: 5, offset: 87194},
+							pos:   position{line: 2740, col: 5, offset: 87221},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2739, col: 17, offset: 87206},
+								pos:  position{line: 2740, col: 17, offset: 87233},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2898, col: 8, offset: 91403},
+							pos: position{line: 2899, col: 8, offset: 91430},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2885, col: 12, offset: 91176},
+									pos: position{line: 2886, col: 12, offset: 91203},
 									run: (*parser).callonUserMacroBlock16,
 									expr: &choiceExpr{
-										pos: position{line: 2885, col: 13, offset: 91177},
+										pos: position{line: 2886, col: 13, offset: 91204},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2885, col: 13, offset: 91177},
+												pos:        position{line: 2886, col: 13, offset: 91204},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 20, offset: 91184},
+												pos:        position{line: 2886, col: 20, offset: 91211},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2885, col: 29, offset: 91193},
+												pos:        position{line: 2886, col: 29, offset: 91220},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -47855,9 +48073,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2895, col: 8, offset: 91353},
+									pos: position{line: 2896, col: 8, offset: 91380},
 									expr: &anyMatcher{
-										line: 2895, col: 9, offset: 91354,
+										line: 2896, col: 9, offset: 91381,
 									},
 								},
 							},
@@ -47868,23 +48086,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2743, col: 1, offset: 87354},
+			pos:  position{line: 2744, col: 1, offset: 87381},
 			expr: &actionExpr{
-				pos: position{line: 2744, col: 5, offset: 87378},
+				pos: position{line: 2745, col: 5, offset: 87405},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2744, col: 5, offset: 87378},
+					pos: position{line: 2745, col: 5, offset: 87405},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2744, col: 5, offset: 87378},
+							pos:   position{line: 2745, col: 5, offset: 87405},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2755, col: 18, offset: 87743},
+								pos: position{line: 2756, col: 18, offset: 87770},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2755, col: 19, offset: 87744},
+									pos: position{line: 2756, col: 19, offset: 87771},
 									expr: &charClassMatcher{
-										pos:        position{line: 2755, col: 19, offset: 87744},
+										pos:        position{line: 2756, col: 19, offset: 87771},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47895,25 +48113,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2745, col: 5, offset: 87404},
+							pos: position{line: 2746, col: 5, offset: 87431},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2749, col: 5, offset: 87532},
+							pos:        position{line: 2750, col: 5, offset: 87559},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2750, col: 5, offset: 87541},
+							pos:   position{line: 2751, col: 5, offset: 87568},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2759, col: 19, offset: 87819},
+								pos: position{line: 2760, col: 19, offset: 87846},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2759, col: 19, offset: 87819},
+									pos: position{line: 2760, col: 19, offset: 87846},
 									expr: &charClassMatcher{
-										pos:        position{line: 2759, col: 19, offset: 87819},
+										pos:        position{line: 2760, col: 19, offset: 87846},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -47923,10 +48141,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2751, col: 5, offset: 87569},
+							pos:   position{line: 2752, col: 5, offset: 87596},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2751, col: 17, offset: 87581},
+								pos:  position{line: 2752, col: 17, offset: 87608},
 								name: "InlineAttributes",
 							},
 						},
@@ -47936,43 +48154,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2830, col: 1, offset: 89652},
+			pos:  position{line: 2831, col: 1, offset: 89679},
 			expr: &actionExpr{
-				pos: position{line: 2830, col: 17, offset: 89668},
+				pos: position{line: 2831, col: 17, offset: 89695},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2830, col: 17, offset: 89668},
+					pos:   position{line: 2831, col: 17, offset: 89695},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2847, col: 5, offset: 90122},
+						pos: position{line: 2848, col: 5, offset: 90149},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2847, col: 5, offset: 90122},
+							pos:   position{line: 2848, col: 5, offset: 90149},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2847, col: 14, offset: 90131},
+								pos: position{line: 2848, col: 14, offset: 90158},
 								expr: &choiceExpr{
-									pos: position{line: 2848, col: 9, offset: 90141},
+									pos: position{line: 2849, col: 9, offset: 90168},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2848, col: 9, offset: 90141},
+											pos: position{line: 2849, col: 9, offset: 90168},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2848, col: 9, offset: 90141},
+												pos: position{line: 2849, col: 9, offset: 90168},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2848, col: 9, offset: 90141},
+														pos: position{line: 2849, col: 9, offset: 90168},
 														expr: &litMatcher{
-															pos:        position{line: 2848, col: 10, offset: 90142},
+															pos:        position{line: 2849, col: 10, offset: 90169},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2849, col: 9, offset: 90170},
+														pos: position{line: 2850, col: 9, offset: 90197},
 														expr: &charClassMatcher{
-															pos:        position{line: 2849, col: 10, offset: 90171},
+															pos:        position{line: 2850, col: 10, offset: 90198},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -47983,27 +48201,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2852, col: 11, offset: 90383},
+											pos: position{line: 2853, col: 11, offset: 90410},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2852, col: 11, offset: 90383},
+													pos:        position{line: 2853, col: 11, offset: 90410},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2852, col: 19, offset: 90391},
+													pos: position{line: 2853, col: 19, offset: 90418},
 													expr: &seqExpr{
-														pos: position{line: 2852, col: 21, offset: 90393},
+														pos: position{line: 2853, col: 21, offset: 90420},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2852, col: 21, offset: 90393},
+																pos: position{line: 2853, col: 21, offset: 90420},
 																expr: &actionExpr{
-																	pos: position{line: 2876, col: 10, offset: 91005},
+																	pos: position{line: 2877, col: 10, offset: 91032},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2876, col: 10, offset: 91005},
+																		pos:        position{line: 2877, col: 10, offset: 91032},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -48012,11 +48230,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2852, col: 28, offset: 90400},
+																pos: position{line: 2853, col: 28, offset: 90427},
 																expr: &notExpr{
-																	pos: position{line: 2895, col: 8, offset: 91353},
+																	pos: position{line: 2896, col: 8, offset: 91380},
 																	expr: &anyMatcher{
-																		line: 2895, col: 9, offset: 91354,
+																		line: 2896, col: 9, offset: 91381,
 																	},
 																},
 															},
@@ -48026,35 +48244,35 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 635, col: 5, offset: 20116},
+											pos: position{line: 636, col: 5, offset: 20143},
 											run: (*parser).callonFileLocation23,
 											expr: &seqExpr{
-												pos: position{line: 635, col: 5, offset: 20116},
+												pos: position{line: 636, col: 5, offset: 20143},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 635, col: 5, offset: 20116},
+														pos: position{line: 636, col: 5, offset: 20143},
 														run: (*parser).callonFileLocation25,
 													},
 													&labeledExpr{
-														pos:   position{line: 638, col: 5, offset: 20188},
+														pos:   position{line: 639, col: 5, offset: 20215},
 														label: "element",
 														expr: &choiceExpr{
-															pos: position{line: 638, col: 14, offset: 20197},
+															pos: position{line: 639, col: 14, offset: 20224},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 644, col: 5, offset: 20326},
+																	pos: position{line: 645, col: 5, offset: 20353},
 																	run: (*parser).callonFileLocation28,
 																	expr: &seqExpr{
-																		pos: position{line: 644, col: 5, offset: 20326},
+																		pos: position{line: 645, col: 5, offset: 20353},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 644, col: 5, offset: 20326},
+																				pos:        position{line: 645, col: 5, offset: 20353},
 																				val:        "\\{",
 																				ignoreCase: false,
 																				want:       "\"\\\\{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 644, col: 13, offset: 20334},
+																				pos:   position{line: 645, col: 13, offset: 20361},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 317, col: 18, offset: 9667},
@@ -48086,7 +48304,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 644, col: 32, offset: 20353},
+																				pos:        position{line: 645, col: 32, offset: 20380},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -48095,19 +48313,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 651, col: 5, offset: 20594},
+																	pos: position{line: 652, col: 5, offset: 20621},
 																	run: (*parser).callonFileLocation38,
 																	expr: &seqExpr{
-																		pos: position{line: 651, col: 5, offset: 20594},
+																		pos: position{line: 652, col: 5, offset: 20621},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 651, col: 5, offset: 20594},
+																				pos:        position{line: 652, col: 5, offset: 20621},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 651, col: 9, offset: 20598},
+																				pos:   position{line: 652, col: 9, offset: 20625},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 317, col: 18, offset: 9667},
@@ -48139,7 +48357,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 651, col: 28, offset: 20617},
+																				pos:        position{line: 652, col: 28, offset: 20644},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -48148,19 +48366,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 657, col: 25, offset: 20798},
+																	pos: position{line: 658, col: 25, offset: 20825},
 																	run: (*parser).callonFileLocation48,
 																	expr: &seqExpr{
-																		pos: position{line: 657, col: 25, offset: 20798},
+																		pos: position{line: 658, col: 25, offset: 20825},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 657, col: 25, offset: 20798},
+																				pos:        position{line: 658, col: 25, offset: 20825},
 																				val:        "{counter:",
 																				ignoreCase: false,
 																				want:       "\"{counter:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 657, col: 37, offset: 20810},
+																				pos:   position{line: 658, col: 37, offset: 20837},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 317, col: 18, offset: 9667},
@@ -48192,33 +48410,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 657, col: 56, offset: 20829},
+																				pos:   position{line: 658, col: 56, offset: 20856},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 657, col: 62, offset: 20835},
+																					pos: position{line: 658, col: 62, offset: 20862},
 																					expr: &actionExpr{
-																						pos: position{line: 665, col: 17, offset: 21132},
+																						pos: position{line: 666, col: 17, offset: 21159},
 																						run: (*parser).callonFileLocation59,
 																						expr: &seqExpr{
-																							pos: position{line: 665, col: 17, offset: 21132},
+																							pos: position{line: 666, col: 17, offset: 21159},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 665, col: 17, offset: 21132},
+																									pos:        position{line: 666, col: 17, offset: 21159},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 665, col: 21, offset: 21136},
+																									pos:   position{line: 666, col: 21, offset: 21163},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 665, col: 28, offset: 21143},
+																										pos: position{line: 666, col: 28, offset: 21170},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 665, col: 28, offset: 21143},
+																												pos: position{line: 666, col: 28, offset: 21170},
 																												run: (*parser).callonFileLocation64,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 665, col: 28, offset: 21143},
+																													pos:        position{line: 666, col: 28, offset: 21170},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -48226,12 +48444,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 667, col: 9, offset: 21197},
+																												pos: position{line: 668, col: 9, offset: 21224},
 																												run: (*parser).callonFileLocation66,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 667, col: 9, offset: 21197},
+																													pos: position{line: 668, col: 9, offset: 21224},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 667, col: 9, offset: 21197},
+																														pos:        position{line: 668, col: 9, offset: 21224},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -48248,7 +48466,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 657, col: 78, offset: 20851},
+																				pos:        position{line: 658, col: 78, offset: 20878},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -48257,19 +48475,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 661, col: 25, offset: 20969},
+																	pos: position{line: 662, col: 25, offset: 20996},
 																	run: (*parser).callonFileLocation70,
 																	expr: &seqExpr{
-																		pos: position{line: 661, col: 25, offset: 20969},
+																		pos: position{line: 662, col: 25, offset: 20996},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 661, col: 25, offset: 20969},
+																				pos:        position{line: 662, col: 25, offset: 20996},
 																				val:        "{counter2:",
 																				ignoreCase: false,
 																				want:       "\"{counter2:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 661, col: 38, offset: 20982},
+																				pos:   position{line: 662, col: 38, offset: 21009},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 317, col: 18, offset: 9667},
@@ -48301,33 +48519,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 661, col: 57, offset: 21001},
+																				pos:   position{line: 662, col: 57, offset: 21028},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 661, col: 63, offset: 21007},
+																					pos: position{line: 662, col: 63, offset: 21034},
 																					expr: &actionExpr{
-																						pos: position{line: 665, col: 17, offset: 21132},
+																						pos: position{line: 666, col: 17, offset: 21159},
 																						run: (*parser).callonFileLocation81,
 																						expr: &seqExpr{
-																							pos: position{line: 665, col: 17, offset: 21132},
+																							pos: position{line: 666, col: 17, offset: 21159},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 665, col: 17, offset: 21132},
+																									pos:        position{line: 666, col: 17, offset: 21159},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 665, col: 21, offset: 21136},
+																									pos:   position{line: 666, col: 21, offset: 21163},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 665, col: 28, offset: 21143},
+																										pos: position{line: 666, col: 28, offset: 21170},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 665, col: 28, offset: 21143},
+																												pos: position{line: 666, col: 28, offset: 21170},
 																												run: (*parser).callonFileLocation86,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 665, col: 28, offset: 21143},
+																													pos:        position{line: 666, col: 28, offset: 21170},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -48335,12 +48553,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 667, col: 9, offset: 21197},
+																												pos: position{line: 668, col: 9, offset: 21224},
 																												run: (*parser).callonFileLocation88,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 667, col: 9, offset: 21197},
+																													pos: position{line: 668, col: 9, offset: 21224},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 667, col: 9, offset: 21197},
+																														pos:        position{line: 668, col: 9, offset: 21224},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -48357,7 +48575,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 661, col: 79, offset: 21023},
+																				pos:        position{line: 662, col: 79, offset: 21050},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -48372,27 +48590,27 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1197, col: 23, offset: 36986},
+											pos: position{line: 1198, col: 23, offset: 37013},
 											run: (*parser).callonFileLocation92,
 											expr: &seqExpr{
-												pos: position{line: 1197, col: 23, offset: 36986},
+												pos: position{line: 1198, col: 23, offset: 37013},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 1195, col: 32, offset: 36954},
+														pos:        position{line: 1196, col: 32, offset: 36981},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 1197, col: 51, offset: 37014},
+														pos:   position{line: 1198, col: 51, offset: 37041},
 														label: "ref",
 														expr: &actionExpr{
-															pos: position{line: 1197, col: 56, offset: 37019},
+															pos: position{line: 1198, col: 56, offset: 37046},
 															run: (*parser).callonFileLocation96,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 1197, col: 56, offset: 37019},
+																pos: position{line: 1198, col: 56, offset: 37046},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1197, col: 56, offset: 37019},
+																	pos:        position{line: 1198, col: 56, offset: 37046},
 																	val:        "[0-9]",
 																	ranges:     []rune{'0', '9'},
 																	ignoreCase: false,
@@ -48402,23 +48620,23 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 1195, col: 32, offset: 36954},
+														pos:        position{line: 1196, col: 32, offset: 36981},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 1198, col: 5, offset: 37091},
+														pos: position{line: 1199, col: 5, offset: 37118},
 														run: (*parser).callonFileLocation100,
 													},
 												},
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2855, col: 11, offset: 90520},
+											pos: position{line: 2856, col: 11, offset: 90547},
 											run: (*parser).callonFileLocation101,
 											expr: &litMatcher{
-												pos:        position{line: 2855, col: 11, offset: 90520},
+												pos:        position{line: 2856, col: 11, offset: 90547},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -54736,7 +54954,117 @@ func (p *parser) callonBlockAttributes167() (interface{}, error) {
 	return p.cur.onBlockAttributes167(stack["name"])
 }
 
-func (c *current) onBlockAttributes177() (interface{}, error) {
+func (c *current) onBlockAttributes181() (interface{}, error) {
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonBlockAttributes181() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onBlockAttributes181()
+}
+
+func (c *current) onBlockAttributes193() (interface{}, error) {
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonBlockAttributes193() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onBlockAttributes193()
+}
+
+func (c *current) onBlockAttributes195() (interface{}, error) {
+
+	return strconv.Atoi(string(c.text))
+
+}
+
+func (p *parser) callonBlockAttributes195() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onBlockAttributes195()
+}
+
+func (c *current) onBlockAttributes188(start interface{}) (interface{}, error) {
+	return start, nil
+
+}
+
+func (p *parser) callonBlockAttributes188() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onBlockAttributes188(stack["start"])
+}
+
+func (c *current) onBlockAttributes177(name, start interface{}) (interface{}, error) {
+	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
+}
+
+func (p *parser) callonBlockAttributes177() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onBlockAttributes177(stack["name"], stack["start"])
+}
+
+func (c *current) onBlockAttributes203() (interface{}, error) {
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonBlockAttributes203() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onBlockAttributes203()
+}
+
+func (c *current) onBlockAttributes215() (interface{}, error) {
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonBlockAttributes215() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onBlockAttributes215()
+}
+
+func (c *current) onBlockAttributes217() (interface{}, error) {
+
+	return strconv.Atoi(string(c.text))
+
+}
+
+func (p *parser) callonBlockAttributes217() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onBlockAttributes217()
+}
+
+func (c *current) onBlockAttributes210(start interface{}) (interface{}, error) {
+	return start, nil
+
+}
+
+func (p *parser) callonBlockAttributes210() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onBlockAttributes210(stack["start"])
+}
+
+func (c *current) onBlockAttributes199(name, start interface{}) (interface{}, error) {
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
+}
+
+func (p *parser) callonBlockAttributes199() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onBlockAttributes199(stack["name"], stack["start"])
+}
+
+func (c *current) onBlockAttributes221() (interface{}, error) {
 
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("matching anychar '%s' at position %v", string(c.text), c.pos.String())
@@ -54745,10 +55073,10 @@ func (c *current) onBlockAttributes177() (interface{}, error) {
 
 }
 
-func (p *parser) callonBlockAttributes177() (interface{}, error) {
+func (p *parser) callonBlockAttributes221() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes177()
+	return p.cur.onBlockAttributes221()
 }
 
 func (c *current) onBlockAttributes130(elements interface{}) (interface{}, error) {
@@ -54762,61 +55090,61 @@ func (p *parser) callonBlockAttributes130() (interface{}, error) {
 	return p.cur.onBlockAttributes130(stack["elements"])
 }
 
-func (c *current) onBlockAttributes180() (interface{}, error) {
+func (c *current) onBlockAttributes224() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes180() (interface{}, error) {
+func (p *parser) callonBlockAttributes224() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes180()
+	return p.cur.onBlockAttributes224()
 }
 
-func (c *current) onBlockAttributes183() (interface{}, error) {
+func (c *current) onBlockAttributes227() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonBlockAttributes183() (interface{}, error) {
+func (p *parser) callonBlockAttributes227() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes183()
+	return p.cur.onBlockAttributes227()
 }
 
-func (c *current) onBlockAttributes196() (interface{}, error) {
+func (c *current) onBlockAttributes240() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes196() (interface{}, error) {
+func (p *parser) callonBlockAttributes240() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes196()
+	return p.cur.onBlockAttributes240()
 }
 
-func (c *current) onBlockAttributes199() (interface{}, error) {
+func (c *current) onBlockAttributes243() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonBlockAttributes199() (interface{}, error) {
+func (p *parser) callonBlockAttributes243() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes199()
+	return p.cur.onBlockAttributes243()
 }
 
-func (c *current) onBlockAttributes191() (interface{}, error) {
+func (c *current) onBlockAttributes235() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonBlockAttributes191() (interface{}, error) {
+func (p *parser) callonBlockAttributes235() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes191()
+	return p.cur.onBlockAttributes235()
 }
 
 func (c *current) onBlockAttributes127(title interface{}) (interface{}, error) {
@@ -54830,104 +55158,104 @@ func (p *parser) callonBlockAttributes127() (interface{}, error) {
 	return p.cur.onBlockAttributes127(stack["title"])
 }
 
-func (c *current) onBlockAttributes209() (interface{}, error) {
+func (c *current) onBlockAttributes253() (interface{}, error) {
 	return c.currentLine(), nil
 
 }
 
-func (p *parser) callonBlockAttributes209() (interface{}, error) {
+func (p *parser) callonBlockAttributes253() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes209()
+	return p.cur.onBlockAttributes253()
 }
 
-func (c *current) onBlockAttributes214() (interface{}, error) {
+func (c *current) onBlockAttributes258() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes214() (interface{}, error) {
+func (p *parser) callonBlockAttributes258() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes214()
+	return p.cur.onBlockAttributes258()
 }
 
-func (c *current) onBlockAttributes217() (interface{}, error) {
+func (c *current) onBlockAttributes261() (interface{}, error) {
 	return c.currentLine(), nil
 
 }
 
-func (p *parser) callonBlockAttributes217() (interface{}, error) {
+func (p *parser) callonBlockAttributes261() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes217()
+	return p.cur.onBlockAttributes261()
 }
 
-func (c *current) onBlockAttributes219(start, attributes, end interface{}) (bool, error) {
+func (c *current) onBlockAttributes263(start, attributes, end interface{}) (bool, error) {
 	return start == end, nil
 }
 
-func (p *parser) callonBlockAttributes219() (bool, error) {
+func (p *parser) callonBlockAttributes263() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes219(stack["start"], stack["attributes"], stack["end"])
+	return p.cur.onBlockAttributes263(stack["start"], stack["attributes"], stack["end"])
 }
 
-func (c *current) onBlockAttributes221() (interface{}, error) {
+func (c *current) onBlockAttributes265() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonBlockAttributes221() (interface{}, error) {
+func (p *parser) callonBlockAttributes265() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes221()
+	return p.cur.onBlockAttributes265()
 }
 
-func (c *current) onBlockAttributes234() (interface{}, error) {
+func (c *current) onBlockAttributes278() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonBlockAttributes234() (interface{}, error) {
+func (p *parser) callonBlockAttributes278() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes234()
+	return p.cur.onBlockAttributes278()
 }
 
-func (c *current) onBlockAttributes237() (interface{}, error) {
+func (c *current) onBlockAttributes281() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonBlockAttributes237() (interface{}, error) {
+func (p *parser) callonBlockAttributes281() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes237()
+	return p.cur.onBlockAttributes281()
 }
 
-func (c *current) onBlockAttributes229() (interface{}, error) {
+func (c *current) onBlockAttributes273() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonBlockAttributes229() (interface{}, error) {
+func (p *parser) callonBlockAttributes273() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes229()
+	return p.cur.onBlockAttributes273()
 }
 
-func (c *current) onBlockAttributes206(start, attributes, end interface{}) (interface{}, error) {
+func (c *current) onBlockAttributes250(start, attributes, end interface{}) (interface{}, error) {
 	return attributes, nil
 
 }
 
-func (p *parser) callonBlockAttributes206() (interface{}, error) {
+func (p *parser) callonBlockAttributes250() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onBlockAttributes206(stack["start"], stack["attributes"], stack["end"])
+	return p.cur.onBlockAttributes250(stack["start"], stack["attributes"], stack["end"])
 }
 
 func (c *current) onBlockAttributes1(attributes interface{}) (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 2709a58..55558d6 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -426,6 +426,7 @@ ShortHandTitle <- `.`
         / Space
         / Punctuation
         / AttributeReferenceValue
+        / CounterReference
         / AnyChar
     )+ {
         return types.NewTitleAttribute(types.Reduce(elements, strings.TrimSpace))
-- 
2.43.0


From 99b5bd68be7fca1cc90948dfa5e69b403618d99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:30 +0000
Subject: [PATCH 117/143] fix: sections of files included by another one had a
 wrong level when the offset of the latter leads above the document

---
 pkg/parser/document_preprocessing.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkg/parser/document_preprocessing.go b/pkg/parser/document_preprocessing.go
index 9aae663..78753fd 100644
--- a/pkg/parser/document_preprocessing.go
+++ b/pkg/parser/document_preprocessing.go
@@ -416,9 +416,11 @@ func contentOf(ctx *ParseContext, incl *types.FileInclusion) (string, bool, erro
 type levelOffsets []*levelOffset
 
 func (l levelOffsets) apply(s *types.RawSection) string {
+	total := 0
 	for _, offset := range l {
-		offset.apply(s)
+		total += offset.of(s)
 	}
+	s.OffsetLevel(total)
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("applied offsets to section: level is now %d", s.Level)
 	}
@@ -437,14 +439,15 @@ type levelOffset struct {
 	value    int
 }
 
-func (l *levelOffset) apply(s *types.RawSection) {
+// of returns the offset of the given section
+func (l *levelOffset) of(s *types.RawSection) int {
 	// also, absolute offset becomes relative offset after processing the first section,
 	// so that the hierarchy of subsequent sections of the doc to include is preserved
 	if l.absolute {
 		l.absolute = false
 		l.value = l.value - s.Level
 	}
-	s.OffsetLevel(l.value)
+	return l.value
 }
 
 func relativeOffset(offset int) *levelOffset {
-- 
2.43.0


From 5c6595f7d479dfc46e728cb17bb54dd4eceaebb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:28 +0000
Subject: [PATCH 118/143] fix: special characters of escaped links and anchors
 were not replaced

---
 pkg/parser/parser.go  | 12384 ++++++++++++++++++++--------------------
 pkg/parser/parser.peg |     6 +-
 pkg/types/types.go    |    20 +
 3 files changed, 6215 insertions(+), 6195 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 3e38862..af971f4 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 359, col: 49, offset: 10879},
 													expr: &actionExpr{
-														pos: position{line: 2877, col: 10, offset: 91032},
+														pos: position{line: 2877, col: 10, offset: 91161},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2877, col: 10, offset: 91032},
+															pos:        position{line: 2877, col: 10, offset: 91161},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2899, col: 8, offset: 91430},
+													pos: position{line: 2899, col: 8, offset: 91559},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2886, col: 12, offset: 91203},
+															pos: position{line: 2886, col: 12, offset: 91332},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2886, col: 13, offset: 91204},
+																pos: position{line: 2886, col: 13, offset: 91333},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 13, offset: 91204},
+																		pos:        position{line: 2886, col: 13, offset: 91333},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 20, offset: 91211},
+																		pos:        position{line: 2886, col: 20, offset: 91340},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 29, offset: 91220},
+																		pos:        position{line: 2886, col: 29, offset: 91349},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2896, col: 8, offset: 91380},
+															pos: position{line: 2896, col: 8, offset: 91509},
 															expr: &anyMatcher{
-																line: 2896, col: 9, offset: 91381,
+																line: 2896, col: 9, offset: 91510,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 361, col: 39, offset: 11000},
 													expr: &actionExpr{
-														pos: position{line: 2877, col: 10, offset: 91032},
+														pos: position{line: 2877, col: 10, offset: 91161},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2877, col: 10, offset: 91032},
+															pos:        position{line: 2877, col: 10, offset: 91161},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2899, col: 8, offset: 91430},
+													pos: position{line: 2899, col: 8, offset: 91559},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2886, col: 12, offset: 91203},
+															pos: position{line: 2886, col: 12, offset: 91332},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2886, col: 13, offset: 91204},
+																pos: position{line: 2886, col: 13, offset: 91333},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 13, offset: 91204},
+																		pos:        position{line: 2886, col: 13, offset: 91333},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 20, offset: 91211},
+																		pos:        position{line: 2886, col: 20, offset: 91340},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 29, offset: 91220},
+																		pos:        position{line: 2886, col: 29, offset: 91349},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2896, col: 8, offset: 91380},
+															pos: position{line: 2896, col: 8, offset: 91509},
 															expr: &anyMatcher{
-																line: 2896, col: 9, offset: 91381,
+																line: 2896, col: 9, offset: 91510,
 															},
 														},
 													},
@@ -321,10 +321,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 78, col: 41, offset: 2149},
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 10, offset: 91032},
+																							pos: position{line: 2877, col: 10, offset: 91161},
 																							run: (*parser).callonDocumentRawLine66,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2877, col: 10, offset: 91032},
+																								pos:        position{line: 2877, col: 10, offset: 91161},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -333,9 +333,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2896, col: 8, offset: 91380},
+																						pos: position{line: 2896, col: 8, offset: 91509},
 																						expr: &anyMatcher{
-																							line: 2896, col: 9, offset: 91381,
+																							line: 2896, col: 9, offset: 91510,
 																						},
 																					},
 																				},
@@ -363,10 +363,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2877, col: 10, offset: 91032},
+														pos: position{line: 2877, col: 10, offset: 91161},
 														run: (*parser).callonDocumentRawLine73,
 														expr: &charClassMatcher{
-															pos:        position{line: 2877, col: 10, offset: 91032},
+															pos:        position{line: 2877, col: 10, offset: 91161},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -375,9 +375,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2896, col: 8, offset: 91380},
+													pos: position{line: 2896, col: 8, offset: 91509},
 													expr: &anyMatcher{
-														line: 2896, col: 9, offset: 91381,
+														line: 2896, col: 9, offset: 91510,
 													},
 												},
 											},
@@ -446,10 +446,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 78, col: 41, offset: 2149},
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 10, offset: 91032},
+																							pos: position{line: 2877, col: 10, offset: 91161},
 																							run: (*parser).callonDocumentRawLine94,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2877, col: 10, offset: 91032},
+																								pos:        position{line: 2877, col: 10, offset: 91161},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -458,9 +458,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2896, col: 8, offset: 91380},
+																						pos: position{line: 2896, col: 8, offset: 91509},
 																						expr: &anyMatcher{
-																							line: 2896, col: 9, offset: 91381,
+																							line: 2896, col: 9, offset: 91510,
 																						},
 																					},
 																				},
@@ -488,10 +488,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2877, col: 10, offset: 91032},
+														pos: position{line: 2877, col: 10, offset: 91161},
 														run: (*parser).callonDocumentRawLine101,
 														expr: &charClassMatcher{
-															pos:        position{line: 2877, col: 10, offset: 91032},
+															pos:        position{line: 2877, col: 10, offset: 91161},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -500,9 +500,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2896, col: 8, offset: 91380},
+													pos: position{line: 2896, col: 8, offset: 91509},
 													expr: &anyMatcher{
-														line: 2896, col: 9, offset: 91381,
+														line: 2896, col: 9, offset: 91510,
 													},
 												},
 											},
@@ -972,24 +972,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2873, col: 10, offset: 90935},
+																pos: position{line: 2873, col: 10, offset: 91064},
 																run: (*parser).callonDocumentRawLine197,
 																expr: &seqExpr{
-																	pos: position{line: 2873, col: 11, offset: 90936},
+																	pos: position{line: 2873, col: 11, offset: 91065},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2873, col: 11, offset: 90936},
+																			pos: position{line: 2873, col: 11, offset: 91065},
 																			expr: &litMatcher{
-																				pos:        position{line: 2873, col: 11, offset: 90936},
+																				pos:        position{line: 2873, col: 11, offset: 91065},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2873, col: 16, offset: 90941},
+																			pos: position{line: 2873, col: 16, offset: 91070},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 16, offset: 90941},
+																				pos:        position{line: 2873, col: 16, offset: 91070},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -997,15 +997,15 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 23, offset: 90948},
+																			pos:        position{line: 2873, col: 23, offset: 91077},
 																			val:        ".",
 																			ignoreCase: false,
 																			want:       "\".\"",
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2873, col: 27, offset: 90952},
+																			pos: position{line: 2873, col: 27, offset: 91081},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 27, offset: 90952},
+																				pos:        position{line: 2873, col: 27, offset: 91081},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1016,24 +1016,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2869, col: 12, offset: 90859},
+																pos: position{line: 2869, col: 12, offset: 90988},
 																run: (*parser).callonDocumentRawLine206,
 																expr: &seqExpr{
-																	pos: position{line: 2869, col: 13, offset: 90860},
+																	pos: position{line: 2869, col: 13, offset: 90989},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2869, col: 13, offset: 90860},
+																			pos: position{line: 2869, col: 13, offset: 90989},
 																			expr: &litMatcher{
-																				pos:        position{line: 2869, col: 13, offset: 90860},
+																				pos:        position{line: 2869, col: 13, offset: 90989},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2869, col: 18, offset: 90865},
+																			pos: position{line: 2869, col: 18, offset: 90994},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2869, col: 18, offset: 90865},
+																				pos:        position{line: 2869, col: 18, offset: 90994},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1049,10 +1049,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2280},
 													expr: &actionExpr{
-														pos: position{line: 2877, col: 10, offset: 91032},
+														pos: position{line: 2877, col: 10, offset: 91161},
 														run: (*parser).callonDocumentRawLine213,
 														expr: &charClassMatcher{
-															pos:        position{line: 2877, col: 10, offset: 91032},
+															pos:        position{line: 2877, col: 10, offset: 91161},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1132,10 +1132,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2326},
 													expr: &actionExpr{
-														pos: position{line: 2877, col: 10, offset: 91032},
+														pos: position{line: 2877, col: 10, offset: 91161},
 														run: (*parser).callonDocumentRawLine230,
 														expr: &charClassMatcher{
-															pos:        position{line: 2877, col: 10, offset: 91032},
+															pos:        position{line: 2877, col: 10, offset: 91161},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1595,24 +1595,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2873, col: 10, offset: 90935},
+																pos: position{line: 2873, col: 10, offset: 91064},
 																run: (*parser).callonDocumentRawLine321,
 																expr: &seqExpr{
-																	pos: position{line: 2873, col: 11, offset: 90936},
+																	pos: position{line: 2873, col: 11, offset: 91065},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2873, col: 11, offset: 90936},
+																			pos: position{line: 2873, col: 11, offset: 91065},
 																			expr: &litMatcher{
-																				pos:        position{line: 2873, col: 11, offset: 90936},
+																				pos:        position{line: 2873, col: 11, offset: 91065},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2873, col: 16, offset: 90941},
+																			pos: position{line: 2873, col: 16, offset: 91070},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 16, offset: 90941},
+																				pos:        position{line: 2873, col: 16, offset: 91070},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1620,15 +1620,15 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 23, offset: 90948},
+																			pos:        position{line: 2873, col: 23, offset: 91077},
 																			val:        ".",
 																			ignoreCase: false,
 																			want:       "\".\"",
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2873, col: 27, offset: 90952},
+																			pos: position{line: 2873, col: 27, offset: 91081},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 27, offset: 90952},
+																				pos:        position{line: 2873, col: 27, offset: 91081},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1639,24 +1639,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2869, col: 12, offset: 90859},
+																pos: position{line: 2869, col: 12, offset: 90988},
 																run: (*parser).callonDocumentRawLine330,
 																expr: &seqExpr{
-																	pos: position{line: 2869, col: 13, offset: 90860},
+																	pos: position{line: 2869, col: 13, offset: 90989},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2869, col: 13, offset: 90860},
+																			pos: position{line: 2869, col: 13, offset: 90989},
 																			expr: &litMatcher{
-																				pos:        position{line: 2869, col: 13, offset: 90860},
+																				pos:        position{line: 2869, col: 13, offset: 90989},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2869, col: 18, offset: 90865},
+																			pos: position{line: 2869, col: 18, offset: 90994},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2869, col: 18, offset: 90865},
+																				pos:        position{line: 2869, col: 18, offset: 90994},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1678,10 +1678,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2378},
 													expr: &actionExpr{
-														pos: position{line: 2877, col: 10, offset: 91032},
+														pos: position{line: 2877, col: 10, offset: 91161},
 														run: (*parser).callonDocumentRawLine338,
 														expr: &charClassMatcher{
-															pos:        position{line: 2877, col: 10, offset: 91032},
+															pos:        position{line: 2877, col: 10, offset: 91161},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1690,9 +1690,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2896, col: 8, offset: 91380},
+													pos: position{line: 2896, col: 8, offset: 91509},
 													expr: &anyMatcher{
-														line: 2896, col: 9, offset: 91381,
+														line: 2896, col: 9, offset: 91510,
 													},
 												},
 											},
@@ -1764,10 +1764,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 78, col: 41, offset: 2149},
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 10, offset: 91032},
+																							pos: position{line: 2877, col: 10, offset: 91161},
 																							run: (*parser).callonDocumentRawLine360,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2877, col: 10, offset: 91032},
+																								pos:        position{line: 2877, col: 10, offset: 91161},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -1776,9 +1776,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2896, col: 8, offset: 91380},
+																						pos: position{line: 2896, col: 8, offset: 91509},
 																						expr: &anyMatcher{
-																							line: 2896, col: 9, offset: 91381,
+																							line: 2896, col: 9, offset: 91510,
 																						},
 																					},
 																				},
@@ -1806,10 +1806,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3474},
 													expr: &actionExpr{
-														pos: position{line: 2877, col: 10, offset: 91032},
+														pos: position{line: 2877, col: 10, offset: 91161},
 														run: (*parser).callonDocumentRawLine367,
 														expr: &charClassMatcher{
-															pos:        position{line: 2877, col: 10, offset: 91032},
+															pos:        position{line: 2877, col: 10, offset: 91161},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1818,9 +1818,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2896, col: 8, offset: 91380},
+													pos: position{line: 2896, col: 8, offset: 91509},
 													expr: &anyMatcher{
-														line: 2896, col: 9, offset: 91381,
+														line: 2896, col: 9, offset: 91510,
 													},
 												},
 											},
@@ -1835,7 +1835,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 724, col: 5, offset: 23078},
 													expr: &charClassMatcher{
-														pos:        position{line: 2767, col: 13, offset: 88106},
+														pos:        position{line: 2767, col: 13, offset: 88235},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1885,10 +1885,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 742, col: 8, offset: 23722},
 																			expr: &actionExpr{
-																				pos: position{line: 2877, col: 10, offset: 91032},
+																				pos: position{line: 2877, col: 10, offset: 91161},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 10, offset: 91032},
+																					pos:        position{line: 2877, col: 10, offset: 91161},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1897,28 +1897,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2899, col: 8, offset: 91430},
+																			pos: position{line: 2899, col: 8, offset: 91559},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2886, col: 12, offset: 91203},
+																					pos: position{line: 2886, col: 12, offset: 91332},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2886, col: 13, offset: 91204},
+																						pos: position{line: 2886, col: 13, offset: 91333},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 13, offset: 91204},
+																								pos:        position{line: 2886, col: 13, offset: 91333},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 20, offset: 91211},
+																								pos:        position{line: 2886, col: 20, offset: 91340},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 29, offset: 91220},
+																								pos:        position{line: 2886, col: 29, offset: 91349},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1927,9 +1927,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91380},
+																					pos: position{line: 2896, col: 8, offset: 91509},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91381,
+																						line: 2896, col: 9, offset: 91510,
 																					},
 																				},
 																			},
@@ -1974,10 +1974,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 749, col: 8, offset: 23970},
 																			expr: &actionExpr{
-																				pos: position{line: 2877, col: 10, offset: 91032},
+																				pos: position{line: 2877, col: 10, offset: 91161},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 10, offset: 91032},
+																					pos:        position{line: 2877, col: 10, offset: 91161},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1986,28 +1986,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2899, col: 8, offset: 91430},
+																			pos: position{line: 2899, col: 8, offset: 91559},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2886, col: 12, offset: 91203},
+																					pos: position{line: 2886, col: 12, offset: 91332},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2886, col: 13, offset: 91204},
+																						pos: position{line: 2886, col: 13, offset: 91333},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 13, offset: 91204},
+																								pos:        position{line: 2886, col: 13, offset: 91333},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 20, offset: 91211},
+																								pos:        position{line: 2886, col: 20, offset: 91340},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 29, offset: 91220},
+																								pos:        position{line: 2886, col: 29, offset: 91349},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2016,9 +2016,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91380},
+																					pos: position{line: 2896, col: 8, offset: 91509},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91381,
+																						line: 2896, col: 9, offset: 91510,
 																					},
 																				},
 																			},
@@ -2059,10 +2059,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 760, col: 52, offset: 24382},
 																			expr: &actionExpr{
-																				pos: position{line: 2877, col: 10, offset: 91032},
+																				pos: position{line: 2877, col: 10, offset: 91161},
 																				run: (*parser).callonDocumentRawLine423,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 10, offset: 91032},
+																					pos:        position{line: 2877, col: 10, offset: 91161},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2071,28 +2071,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2899, col: 8, offset: 91430},
+																			pos: position{line: 2899, col: 8, offset: 91559},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2886, col: 12, offset: 91203},
+																					pos: position{line: 2886, col: 12, offset: 91332},
 																					run: (*parser).callonDocumentRawLine426,
 																					expr: &choiceExpr{
-																						pos: position{line: 2886, col: 13, offset: 91204},
+																						pos: position{line: 2886, col: 13, offset: 91333},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 13, offset: 91204},
+																								pos:        position{line: 2886, col: 13, offset: 91333},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 20, offset: 91211},
+																								pos:        position{line: 2886, col: 20, offset: 91340},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 29, offset: 91220},
+																								pos:        position{line: 2886, col: 29, offset: 91349},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2101,9 +2101,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91380},
+																					pos: position{line: 2896, col: 8, offset: 91509},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91381,
+																						line: 2896, col: 9, offset: 91510,
 																					},
 																				},
 																			},
@@ -2148,10 +2148,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 756, col: 8, offset: 24216},
 																			expr: &actionExpr{
-																				pos: position{line: 2877, col: 10, offset: 91032},
+																				pos: position{line: 2877, col: 10, offset: 91161},
 																				run: (*parser).callonDocumentRawLine442,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 10, offset: 91032},
+																					pos:        position{line: 2877, col: 10, offset: 91161},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2160,28 +2160,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2899, col: 8, offset: 91430},
+																			pos: position{line: 2899, col: 8, offset: 91559},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2886, col: 12, offset: 91203},
+																					pos: position{line: 2886, col: 12, offset: 91332},
 																					run: (*parser).callonDocumentRawLine445,
 																					expr: &choiceExpr{
-																						pos: position{line: 2886, col: 13, offset: 91204},
+																						pos: position{line: 2886, col: 13, offset: 91333},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 13, offset: 91204},
+																								pos:        position{line: 2886, col: 13, offset: 91333},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 20, offset: 91211},
+																								pos:        position{line: 2886, col: 20, offset: 91340},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 29, offset: 91220},
+																								pos:        position{line: 2886, col: 29, offset: 91349},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2190,9 +2190,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91380},
+																					pos: position{line: 2896, col: 8, offset: 91509},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91381,
+																						line: 2896, col: 9, offset: 91510,
 																					},
 																				},
 																			},
@@ -2237,10 +2237,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 771, col: 8, offset: 24759},
 																			expr: &actionExpr{
-																				pos: position{line: 2877, col: 10, offset: 91032},
+																				pos: position{line: 2877, col: 10, offset: 91161},
 																				run: (*parser).callonDocumentRawLine461,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 10, offset: 91032},
+																					pos:        position{line: 2877, col: 10, offset: 91161},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2249,28 +2249,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2899, col: 8, offset: 91430},
+																			pos: position{line: 2899, col: 8, offset: 91559},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2886, col: 12, offset: 91203},
+																					pos: position{line: 2886, col: 12, offset: 91332},
 																					run: (*parser).callonDocumentRawLine464,
 																					expr: &choiceExpr{
-																						pos: position{line: 2886, col: 13, offset: 91204},
+																						pos: position{line: 2886, col: 13, offset: 91333},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 13, offset: 91204},
+																								pos:        position{line: 2886, col: 13, offset: 91333},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 20, offset: 91211},
+																								pos:        position{line: 2886, col: 20, offset: 91340},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 29, offset: 91220},
+																								pos:        position{line: 2886, col: 29, offset: 91349},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2279,9 +2279,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91380},
+																					pos: position{line: 2896, col: 8, offset: 91509},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91381,
+																						line: 2896, col: 9, offset: 91510,
 																					},
 																				},
 																			},
@@ -2326,10 +2326,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 785, col: 8, offset: 25235},
 																			expr: &actionExpr{
-																				pos: position{line: 2877, col: 10, offset: 91032},
+																				pos: position{line: 2877, col: 10, offset: 91161},
 																				run: (*parser).callonDocumentRawLine480,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 10, offset: 91032},
+																					pos:        position{line: 2877, col: 10, offset: 91161},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2338,28 +2338,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2899, col: 8, offset: 91430},
+																			pos: position{line: 2899, col: 8, offset: 91559},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2886, col: 12, offset: 91203},
+																					pos: position{line: 2886, col: 12, offset: 91332},
 																					run: (*parser).callonDocumentRawLine483,
 																					expr: &choiceExpr{
-																						pos: position{line: 2886, col: 13, offset: 91204},
+																						pos: position{line: 2886, col: 13, offset: 91333},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 13, offset: 91204},
+																								pos:        position{line: 2886, col: 13, offset: 91333},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 20, offset: 91211},
+																								pos:        position{line: 2886, col: 20, offset: 91340},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 29, offset: 91220},
+																								pos:        position{line: 2886, col: 29, offset: 91349},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2368,9 +2368,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91380},
+																					pos: position{line: 2896, col: 8, offset: 91509},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91381,
+																						line: 2896, col: 9, offset: 91510,
 																					},
 																				},
 																			},
@@ -2415,10 +2415,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 792, col: 8, offset: 25487},
 																			expr: &actionExpr{
-																				pos: position{line: 2877, col: 10, offset: 91032},
+																				pos: position{line: 2877, col: 10, offset: 91161},
 																				run: (*parser).callonDocumentRawLine499,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 10, offset: 91032},
+																					pos:        position{line: 2877, col: 10, offset: 91161},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2427,28 +2427,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2899, col: 8, offset: 91430},
+																			pos: position{line: 2899, col: 8, offset: 91559},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2886, col: 12, offset: 91203},
+																					pos: position{line: 2886, col: 12, offset: 91332},
 																					run: (*parser).callonDocumentRawLine502,
 																					expr: &choiceExpr{
-																						pos: position{line: 2886, col: 13, offset: 91204},
+																						pos: position{line: 2886, col: 13, offset: 91333},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 13, offset: 91204},
+																								pos:        position{line: 2886, col: 13, offset: 91333},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 20, offset: 91211},
+																								pos:        position{line: 2886, col: 20, offset: 91340},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 29, offset: 91220},
+																								pos:        position{line: 2886, col: 29, offset: 91349},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2457,9 +2457,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91380},
+																					pos: position{line: 2896, col: 8, offset: 91509},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91381,
+																						line: 2896, col: 9, offset: 91510,
 																					},
 																				},
 																			},
@@ -2504,10 +2504,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 799, col: 8, offset: 25737},
 																			expr: &actionExpr{
-																				pos: position{line: 2877, col: 10, offset: 91032},
+																				pos: position{line: 2877, col: 10, offset: 91161},
 																				run: (*parser).callonDocumentRawLine518,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 10, offset: 91032},
+																					pos:        position{line: 2877, col: 10, offset: 91161},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2516,28 +2516,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2899, col: 8, offset: 91430},
+																			pos: position{line: 2899, col: 8, offset: 91559},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2886, col: 12, offset: 91203},
+																					pos: position{line: 2886, col: 12, offset: 91332},
 																					run: (*parser).callonDocumentRawLine521,
 																					expr: &choiceExpr{
-																						pos: position{line: 2886, col: 13, offset: 91204},
+																						pos: position{line: 2886, col: 13, offset: 91333},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 13, offset: 91204},
+																								pos:        position{line: 2886, col: 13, offset: 91333},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 20, offset: 91211},
+																								pos:        position{line: 2886, col: 20, offset: 91340},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 29, offset: 91220},
+																								pos:        position{line: 2886, col: 29, offset: 91349},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2546,9 +2546,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91380},
+																					pos: position{line: 2896, col: 8, offset: 91509},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91381,
+																						line: 2896, col: 9, offset: 91510,
 																					},
 																				},
 																			},
@@ -2593,10 +2593,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 806, col: 8, offset: 25983},
 																			expr: &actionExpr{
-																				pos: position{line: 2877, col: 10, offset: 91032},
+																				pos: position{line: 2877, col: 10, offset: 91161},
 																				run: (*parser).callonDocumentRawLine537,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 10, offset: 91032},
+																					pos:        position{line: 2877, col: 10, offset: 91161},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2605,28 +2605,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2899, col: 8, offset: 91430},
+																			pos: position{line: 2899, col: 8, offset: 91559},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2886, col: 12, offset: 91203},
+																					pos: position{line: 2886, col: 12, offset: 91332},
 																					run: (*parser).callonDocumentRawLine540,
 																					expr: &choiceExpr{
-																						pos: position{line: 2886, col: 13, offset: 91204},
+																						pos: position{line: 2886, col: 13, offset: 91333},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 13, offset: 91204},
+																								pos:        position{line: 2886, col: 13, offset: 91333},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 20, offset: 91211},
+																								pos:        position{line: 2886, col: 20, offset: 91340},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 29, offset: 91220},
+																								pos:        position{line: 2886, col: 29, offset: 91349},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2635,9 +2635,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91380},
+																					pos: position{line: 2896, col: 8, offset: 91509},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91381,
+																						line: 2896, col: 9, offset: 91510,
 																					},
 																				},
 																			},
@@ -2687,12 +2687,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine555,
 												},
 												&actionExpr{
-													pos: position{line: 2881, col: 11, offset: 91093},
+													pos: position{line: 2881, col: 11, offset: 91222},
 													run: (*parser).callonDocumentRawLine556,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2881, col: 11, offset: 91093},
+														pos: position{line: 2881, col: 11, offset: 91222},
 														expr: &charClassMatcher{
-															pos:        position{line: 2881, col: 11, offset: 91093},
+															pos:        position{line: 2881, col: 11, offset: 91222},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2701,12 +2701,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2827, col: 14, offset: 89625},
+													pos: position{line: 2827, col: 14, offset: 89754},
 													run: (*parser).callonDocumentRawLine559,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2827, col: 14, offset: 89625},
+														pos: position{line: 2827, col: 14, offset: 89754},
 														expr: &charClassMatcher{
-															pos:        position{line: 2827, col: 14, offset: 89625},
+															pos:        position{line: 2827, col: 14, offset: 89754},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2715,9 +2715,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2896, col: 8, offset: 91380},
+													pos: position{line: 2896, col: 8, offset: 91509},
 													expr: &anyMatcher{
-														line: 2896, col: 9, offset: 91381,
+														line: 2896, col: 9, offset: 91510,
 													},
 												},
 											},
@@ -2727,9 +2727,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2896, col: 8, offset: 91380},
+							pos: position{line: 2896, col: 8, offset: 91509},
 							expr: &anyMatcher{
-								line: 2896, col: 9, offset: 91381,
+								line: 2896, col: 9, offset: 91510,
 							},
 						},
 					},
@@ -2764,41 +2764,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2831, col: 17, offset: 89695},
+												pos: position{line: 2831, col: 17, offset: 89824},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2831, col: 17, offset: 89695},
+													pos:   position{line: 2831, col: 17, offset: 89824},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2848, col: 5, offset: 90149},
+														pos: position{line: 2848, col: 5, offset: 90278},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2848, col: 5, offset: 90149},
+															pos:   position{line: 2848, col: 5, offset: 90278},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2848, col: 14, offset: 90158},
+																pos: position{line: 2848, col: 14, offset: 90287},
 																expr: &choiceExpr{
-																	pos: position{line: 2849, col: 9, offset: 90168},
+																	pos: position{line: 2849, col: 9, offset: 90297},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2849, col: 9, offset: 90168},
+																			pos: position{line: 2849, col: 9, offset: 90297},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2849, col: 9, offset: 90168},
+																				pos: position{line: 2849, col: 9, offset: 90297},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2849, col: 9, offset: 90168},
+																						pos: position{line: 2849, col: 9, offset: 90297},
 																						expr: &litMatcher{
-																							pos:        position{line: 2849, col: 10, offset: 90169},
+																							pos:        position{line: 2849, col: 10, offset: 90298},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2850, col: 9, offset: 90197},
+																						pos: position{line: 2850, col: 9, offset: 90326},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2850, col: 10, offset: 90198},
+																							pos:        position{line: 2850, col: 10, offset: 90327},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2809,27 +2809,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2853, col: 11, offset: 90410},
+																			pos: position{line: 2853, col: 11, offset: 90539},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2853, col: 11, offset: 90410},
+																					pos:        position{line: 2853, col: 11, offset: 90539},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2853, col: 19, offset: 90418},
+																					pos: position{line: 2853, col: 19, offset: 90547},
 																					expr: &seqExpr{
-																						pos: position{line: 2853, col: 21, offset: 90420},
+																						pos: position{line: 2853, col: 21, offset: 90549},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2853, col: 21, offset: 90420},
+																								pos: position{line: 2853, col: 21, offset: 90549},
 																								expr: &actionExpr{
-																									pos: position{line: 2877, col: 10, offset: 91032},
+																									pos: position{line: 2877, col: 10, offset: 91161},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 10, offset: 91032},
+																										pos:        position{line: 2877, col: 10, offset: 91161},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2838,11 +2838,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2853, col: 28, offset: 90427},
+																								pos: position{line: 2853, col: 28, offset: 90556},
 																								expr: &notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91380},
+																									pos: position{line: 2896, col: 8, offset: 91509},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91381,
+																										line: 2896, col: 9, offset: 91510,
 																									},
 																								},
 																							},
@@ -3241,10 +3241,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2856, col: 11, offset: 90547},
+																			pos: position{line: 2856, col: 11, offset: 90676},
 																			run: (*parser).callonFileInclusion108,
 																			expr: &litMatcher{
-																				pos:        position{line: 2856, col: 11, offset: 90547},
+																				pos:        position{line: 2856, col: 11, offset: 90676},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3273,10 +3273,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2877, col: 10, offset: 91032},
+								pos: position{line: 2877, col: 10, offset: 91161},
 								run: (*parser).callonFileInclusion113,
 								expr: &charClassMatcher{
-									pos:        position{line: 2877, col: 10, offset: 91032},
+									pos:        position{line: 2877, col: 10, offset: 91161},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3285,28 +3285,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2899, col: 8, offset: 91430},
+							pos: position{line: 2899, col: 8, offset: 91559},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2886, col: 12, offset: 91203},
+									pos: position{line: 2886, col: 12, offset: 91332},
 									run: (*parser).callonFileInclusion116,
 									expr: &choiceExpr{
-										pos: position{line: 2886, col: 13, offset: 91204},
+										pos: position{line: 2886, col: 13, offset: 91333},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2886, col: 13, offset: 91204},
+												pos:        position{line: 2886, col: 13, offset: 91333},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2886, col: 20, offset: 91211},
+												pos:        position{line: 2886, col: 20, offset: 91340},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2886, col: 29, offset: 91220},
+												pos:        position{line: 2886, col: 29, offset: 91349},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3315,9 +3315,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2896, col: 8, offset: 91380},
+									pos: position{line: 2896, col: 8, offset: 91509},
 									expr: &anyMatcher{
-										line: 2896, col: 9, offset: 91381,
+										line: 2896, col: 9, offset: 91510,
 									},
 								},
 							},
@@ -3363,24 +3363,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2869, col: 12, offset: 90859},
+																				pos: position{line: 2869, col: 12, offset: 90988},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2869, col: 13, offset: 90860},
+																					pos: position{line: 2869, col: 13, offset: 90989},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2869, col: 13, offset: 90860},
+																							pos: position{line: 2869, col: 13, offset: 90989},
 																							expr: &litMatcher{
-																								pos:        position{line: 2869, col: 13, offset: 90860},
+																								pos:        position{line: 2869, col: 13, offset: 90989},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2869, col: 18, offset: 90865},
+																							pos: position{line: 2869, col: 18, offset: 90994},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2869, col: 18, offset: 90865},
+																								pos:        position{line: 2869, col: 18, offset: 90994},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3401,24 +3401,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2869, col: 12, offset: 90859},
+																				pos: position{line: 2869, col: 12, offset: 90988},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2869, col: 13, offset: 90860},
+																					pos: position{line: 2869, col: 13, offset: 90989},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2869, col: 13, offset: 90860},
+																							pos: position{line: 2869, col: 13, offset: 90989},
 																							expr: &litMatcher{
-																								pos:        position{line: 2869, col: 13, offset: 90860},
+																								pos:        position{line: 2869, col: 13, offset: 90989},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2869, col: 18, offset: 90865},
+																							pos: position{line: 2869, col: 18, offset: 90994},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2869, col: 18, offset: 90865},
+																								pos:        position{line: 2869, col: 18, offset: 90994},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3439,24 +3439,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2869, col: 12, offset: 90859},
+																		pos: position{line: 2869, col: 12, offset: 90988},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2869, col: 13, offset: 90860},
+																			pos: position{line: 2869, col: 13, offset: 90989},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2869, col: 13, offset: 90860},
+																					pos: position{line: 2869, col: 13, offset: 90989},
 																					expr: &litMatcher{
-																						pos:        position{line: 2869, col: 13, offset: 90860},
+																						pos:        position{line: 2869, col: 13, offset: 90989},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2869, col: 18, offset: 90865},
+																					pos: position{line: 2869, col: 18, offset: 90994},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2869, col: 18, offset: 90865},
+																						pos:        position{line: 2869, col: 18, offset: 90994},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3505,24 +3505,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2869, col: 12, offset: 90859},
+																									pos: position{line: 2869, col: 12, offset: 90988},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2869, col: 13, offset: 90860},
+																										pos: position{line: 2869, col: 13, offset: 90989},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2869, col: 13, offset: 90860},
+																												pos: position{line: 2869, col: 13, offset: 90989},
 																												expr: &litMatcher{
-																													pos:        position{line: 2869, col: 13, offset: 90860},
+																													pos:        position{line: 2869, col: 13, offset: 90989},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2869, col: 18, offset: 90865},
+																												pos: position{line: 2869, col: 18, offset: 90994},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2869, col: 18, offset: 90865},
+																													pos:        position{line: 2869, col: 18, offset: 90994},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3543,24 +3543,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2869, col: 12, offset: 90859},
+																									pos: position{line: 2869, col: 12, offset: 90988},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2869, col: 13, offset: 90860},
+																										pos: position{line: 2869, col: 13, offset: 90989},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2869, col: 13, offset: 90860},
+																												pos: position{line: 2869, col: 13, offset: 90989},
 																												expr: &litMatcher{
-																													pos:        position{line: 2869, col: 13, offset: 90860},
+																													pos:        position{line: 2869, col: 13, offset: 90989},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2869, col: 18, offset: 90865},
+																												pos: position{line: 2869, col: 18, offset: 90994},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2869, col: 18, offset: 90865},
+																													pos:        position{line: 2869, col: 18, offset: 90994},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3581,24 +3581,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2869, col: 12, offset: 90859},
+																							pos: position{line: 2869, col: 12, offset: 90988},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2869, col: 13, offset: 90860},
+																								pos: position{line: 2869, col: 13, offset: 90989},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2869, col: 13, offset: 90860},
+																										pos: position{line: 2869, col: 13, offset: 90989},
 																										expr: &litMatcher{
-																											pos:        position{line: 2869, col: 13, offset: 90860},
+																											pos:        position{line: 2869, col: 13, offset: 90989},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2869, col: 18, offset: 90865},
+																										pos: position{line: 2869, col: 18, offset: 90994},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2869, col: 18, offset: 90865},
+																											pos:        position{line: 2869, col: 18, offset: 90994},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3631,24 +3631,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2869, col: 12, offset: 90859},
+														pos: position{line: 2869, col: 12, offset: 90988},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2869, col: 13, offset: 90860},
+															pos: position{line: 2869, col: 13, offset: 90989},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2869, col: 13, offset: 90860},
+																	pos: position{line: 2869, col: 13, offset: 90989},
 																	expr: &litMatcher{
-																		pos:        position{line: 2869, col: 13, offset: 90860},
+																		pos:        position{line: 2869, col: 13, offset: 90989},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2869, col: 18, offset: 90865},
+																	pos: position{line: 2869, col: 18, offset: 90994},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2869, col: 18, offset: 90865},
+																		pos:        position{line: 2869, col: 18, offset: 90994},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3669,24 +3669,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2869, col: 12, offset: 90859},
+														pos: position{line: 2869, col: 12, offset: 90988},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2869, col: 13, offset: 90860},
+															pos: position{line: 2869, col: 13, offset: 90989},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2869, col: 13, offset: 90860},
+																	pos: position{line: 2869, col: 13, offset: 90989},
 																	expr: &litMatcher{
-																		pos:        position{line: 2869, col: 13, offset: 90860},
+																		pos:        position{line: 2869, col: 13, offset: 90989},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2869, col: 18, offset: 90865},
+																	pos: position{line: 2869, col: 18, offset: 90994},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2869, col: 18, offset: 90865},
+																		pos:        position{line: 2869, col: 18, offset: 90994},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3707,24 +3707,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2869, col: 12, offset: 90859},
+												pos: position{line: 2869, col: 12, offset: 90988},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2869, col: 13, offset: 90860},
+													pos: position{line: 2869, col: 13, offset: 90989},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2869, col: 13, offset: 90860},
+															pos: position{line: 2869, col: 13, offset: 90989},
 															expr: &litMatcher{
-																pos:        position{line: 2869, col: 13, offset: 90860},
+																pos:        position{line: 2869, col: 13, offset: 90989},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2869, col: 18, offset: 90865},
+															pos: position{line: 2869, col: 18, offset: 90994},
 															expr: &charClassMatcher{
-																pos:        position{line: 2869, col: 18, offset: 90865},
+																pos:        position{line: 2869, col: 18, offset: 90994},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3740,9 +3740,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2896, col: 8, offset: 91380},
+							pos: position{line: 2896, col: 8, offset: 91509},
 							expr: &anyMatcher{
-								line: 2896, col: 9, offset: 91381,
+								line: 2896, col: 9, offset: 91510,
 							},
 						},
 					},
@@ -4067,9 +4067,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2896, col: 8, offset: 91380},
+							pos: position{line: 2896, col: 8, offset: 91509},
 							expr: &anyMatcher{
-								line: 2896, col: 9, offset: 91381,
+								line: 2896, col: 9, offset: 91510,
 							},
 						},
 					},
@@ -4193,28 +4193,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2899, col: 8, offset: 91430},
+							pos: position{line: 2899, col: 8, offset: 91559},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2886, col: 12, offset: 91203},
+									pos: position{line: 2886, col: 12, offset: 91332},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2886, col: 13, offset: 91204},
+										pos: position{line: 2886, col: 13, offset: 91333},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2886, col: 13, offset: 91204},
+												pos:        position{line: 2886, col: 13, offset: 91333},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2886, col: 20, offset: 91211},
+												pos:        position{line: 2886, col: 20, offset: 91340},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2886, col: 29, offset: 91220},
+												pos:        position{line: 2886, col: 29, offset: 91349},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4223,9 +4223,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2896, col: 8, offset: 91380},
+									pos: position{line: 2896, col: 8, offset: 91509},
 									expr: &anyMatcher{
-										line: 2896, col: 9, offset: 91381,
+										line: 2896, col: 9, offset: 91510,
 									},
 								},
 							},
@@ -4244,9 +4244,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2894, col: 11, offset: 91366},
+							pos: position{line: 2894, col: 11, offset: 91495},
 							expr: &anyMatcher{
-								line: 2894, col: 13, offset: 91368,
+								line: 2894, col: 13, offset: 91497,
 							},
 						},
 						&labeledExpr{
@@ -4341,10 +4341,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 359, col: 49, offset: 10879},
 														expr: &actionExpr{
-															pos: position{line: 2877, col: 10, offset: 91032},
+															pos: position{line: 2877, col: 10, offset: 91161},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2877, col: 10, offset: 91032},
+																pos:        position{line: 2877, col: 10, offset: 91161},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4353,28 +4353,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2899, col: 8, offset: 91430},
+														pos: position{line: 2899, col: 8, offset: 91559},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2886, col: 12, offset: 91203},
+																pos: position{line: 2886, col: 12, offset: 91332},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2886, col: 13, offset: 91204},
+																	pos: position{line: 2886, col: 13, offset: 91333},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 13, offset: 91204},
+																			pos:        position{line: 2886, col: 13, offset: 91333},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 20, offset: 91211},
+																			pos:        position{line: 2886, col: 20, offset: 91340},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 29, offset: 91220},
+																			pos:        position{line: 2886, col: 29, offset: 91349},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4383,9 +4383,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2896, col: 8, offset: 91380},
+																pos: position{line: 2896, col: 8, offset: 91509},
 																expr: &anyMatcher{
-																	line: 2896, col: 9, offset: 91381,
+																	line: 2896, col: 9, offset: 91510,
 																},
 															},
 														},
@@ -4446,10 +4446,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 361, col: 39, offset: 11000},
 														expr: &actionExpr{
-															pos: position{line: 2877, col: 10, offset: 91032},
+															pos: position{line: 2877, col: 10, offset: 91161},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2877, col: 10, offset: 91032},
+																pos:        position{line: 2877, col: 10, offset: 91161},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4458,28 +4458,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2899, col: 8, offset: 91430},
+														pos: position{line: 2899, col: 8, offset: 91559},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2886, col: 12, offset: 91203},
+																pos: position{line: 2886, col: 12, offset: 91332},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2886, col: 13, offset: 91204},
+																	pos: position{line: 2886, col: 13, offset: 91333},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 13, offset: 91204},
+																			pos:        position{line: 2886, col: 13, offset: 91333},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 20, offset: 91211},
+																			pos:        position{line: 2886, col: 20, offset: 91340},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 29, offset: 91220},
+																			pos:        position{line: 2886, col: 29, offset: 91349},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4488,9 +4488,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2896, col: 8, offset: 91380},
+																pos: position{line: 2896, col: 8, offset: 91509},
 																expr: &anyMatcher{
-																	line: 2896, col: 9, offset: 91381,
+																	line: 2896, col: 9, offset: 91510,
 																},
 															},
 														},
@@ -4505,18 +4505,18 @@ var g = &grammar{
 												pos: position{line: 677, col: 14, offset: 21525},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2894, col: 11, offset: 91366},
+														pos: position{line: 2894, col: 11, offset: 91495},
 														expr: &anyMatcher{
-															line: 2894, col: 13, offset: 91368,
+															line: 2894, col: 13, offset: 91497,
 														},
 													},
 													&zeroOrMoreExpr{
 														pos: position{line: 677, col: 21, offset: 21532},
 														expr: &actionExpr{
-															pos: position{line: 2877, col: 10, offset: 91032},
+															pos: position{line: 2877, col: 10, offset: 91161},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2877, col: 10, offset: 91032},
+																pos:        position{line: 2877, col: 10, offset: 91161},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4525,28 +4525,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2899, col: 8, offset: 91430},
+														pos: position{line: 2899, col: 8, offset: 91559},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2886, col: 12, offset: 91203},
+																pos: position{line: 2886, col: 12, offset: 91332},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2886, col: 13, offset: 91204},
+																	pos: position{line: 2886, col: 13, offset: 91333},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 13, offset: 91204},
+																			pos:        position{line: 2886, col: 13, offset: 91333},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 20, offset: 91211},
+																			pos:        position{line: 2886, col: 20, offset: 91340},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 29, offset: 91220},
+																			pos:        position{line: 2886, col: 29, offset: 91349},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4555,9 +4555,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2896, col: 8, offset: 91380},
+																pos: position{line: 2896, col: 8, offset: 91509},
 																expr: &anyMatcher{
-																	line: 2896, col: 9, offset: 91381,
+																	line: 2896, col: 9, offset: 91510,
 																},
 															},
 														},
@@ -4616,10 +4616,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 742, col: 8, offset: 23722},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91032},
+																		pos: position{line: 2877, col: 10, offset: 91161},
 																		run: (*parser).callonDocumentFragment86,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91032},
+																			pos:        position{line: 2877, col: 10, offset: 91161},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -4628,28 +4628,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91430},
+																	pos: position{line: 2899, col: 8, offset: 91559},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91203},
+																			pos: position{line: 2886, col: 12, offset: 91332},
 																			run: (*parser).callonDocumentFragment89,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91204},
+																				pos: position{line: 2886, col: 13, offset: 91333},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91204},
+																						pos:        position{line: 2886, col: 13, offset: 91333},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91211},
+																						pos:        position{line: 2886, col: 20, offset: 91340},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91220},
+																						pos:        position{line: 2886, col: 29, offset: 91349},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -4658,9 +4658,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91380},
+																			pos: position{line: 2896, col: 8, offset: 91509},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91381,
+																				line: 2896, col: 9, offset: 91510,
 																			},
 																		},
 																	},
@@ -4721,10 +4721,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 742, col: 8, offset: 23722},
 																									expr: &actionExpr{
-																										pos: position{line: 2877, col: 10, offset: 91032},
+																										pos: position{line: 2877, col: 10, offset: 91161},
 																										run: (*parser).callonDocumentFragment111,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2877, col: 10, offset: 91032},
+																											pos:        position{line: 2877, col: 10, offset: 91161},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -4733,28 +4733,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2899, col: 8, offset: 91430},
+																									pos: position{line: 2899, col: 8, offset: 91559},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2886, col: 12, offset: 91203},
+																											pos: position{line: 2886, col: 12, offset: 91332},
 																											run: (*parser).callonDocumentFragment114,
 																											expr: &choiceExpr{
-																												pos: position{line: 2886, col: 13, offset: 91204},
+																												pos: position{line: 2886, col: 13, offset: 91333},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 13, offset: 91204},
+																														pos:        position{line: 2886, col: 13, offset: 91333},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 20, offset: 91211},
+																														pos:        position{line: 2886, col: 20, offset: 91340},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 29, offset: 91220},
+																														pos:        position{line: 2886, col: 29, offset: 91349},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -4763,9 +4763,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2896, col: 8, offset: 91380},
+																											pos: position{line: 2896, col: 8, offset: 91509},
 																											expr: &anyMatcher{
-																												line: 2896, col: 9, offset: 91381,
+																												line: 2896, col: 9, offset: 91510,
 																											},
 																										},
 																									},
@@ -4774,9 +4774,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2896, col: 8, offset: 91380},
+																						pos: position{line: 2896, col: 8, offset: 91509},
 																						expr: &anyMatcher{
-																							line: 2896, col: 9, offset: 91381,
+																							line: 2896, col: 9, offset: 91510,
 																						},
 																					},
 																				},
@@ -4792,21 +4792,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26129},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2894, col: 11, offset: 91366},
+																							pos: position{line: 2894, col: 11, offset: 91495},
 																							expr: &anyMatcher{
-																								line: 2894, col: 13, offset: 91368,
+																								line: 2894, col: 13, offset: 91497,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26204},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2823, col: 13, offset: 89558},
+																								pos: position{line: 2823, col: 13, offset: 89687},
 																								run: (*parser).callonDocumentFragment129,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2823, col: 13, offset: 89558},
+																									pos: position{line: 2823, col: 13, offset: 89687},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2823, col: 13, offset: 89558},
+																										pos:        position{line: 2823, col: 13, offset: 89687},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4816,28 +4816,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91430},
+																							pos: position{line: 2899, col: 8, offset: 91559},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91203},
+																									pos: position{line: 2886, col: 12, offset: 91332},
 																									run: (*parser).callonDocumentFragment133,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91204},
+																										pos: position{line: 2886, col: 13, offset: 91333},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91204},
+																												pos:        position{line: 2886, col: 13, offset: 91333},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91211},
+																												pos:        position{line: 2886, col: 20, offset: 91340},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91220},
+																												pos:        position{line: 2886, col: 29, offset: 91349},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4846,9 +4846,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91380},
+																									pos: position{line: 2896, col: 8, offset: 91509},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91381,
+																										line: 2896, col: 9, offset: 91510,
 																									},
 																								},
 																							},
@@ -4904,10 +4904,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 742, col: 8, offset: 23722},
 																				expr: &actionExpr{
-																					pos: position{line: 2877, col: 10, offset: 91032},
+																					pos: position{line: 2877, col: 10, offset: 91161},
 																					run: (*parser).callonDocumentFragment151,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2877, col: 10, offset: 91032},
+																						pos:        position{line: 2877, col: 10, offset: 91161},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -4916,28 +4916,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2899, col: 8, offset: 91430},
+																				pos: position{line: 2899, col: 8, offset: 91559},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2886, col: 12, offset: 91203},
+																						pos: position{line: 2886, col: 12, offset: 91332},
 																						run: (*parser).callonDocumentFragment154,
 																						expr: &choiceExpr{
-																							pos: position{line: 2886, col: 13, offset: 91204},
+																							pos: position{line: 2886, col: 13, offset: 91333},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2886, col: 13, offset: 91204},
+																									pos:        position{line: 2886, col: 13, offset: 91333},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2886, col: 20, offset: 91211},
+																									pos:        position{line: 2886, col: 20, offset: 91340},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2886, col: 29, offset: 91220},
+																									pos:        position{line: 2886, col: 29, offset: 91349},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -4946,9 +4946,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2896, col: 8, offset: 91380},
+																						pos: position{line: 2896, col: 8, offset: 91509},
 																						expr: &anyMatcher{
-																							line: 2896, col: 9, offset: 91381,
+																							line: 2896, col: 9, offset: 91510,
 																						},
 																					},
 																				},
@@ -4957,9 +4957,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2896, col: 8, offset: 91380},
+																	pos: position{line: 2896, col: 8, offset: 91509},
 																	expr: &anyMatcher{
-																		line: 2896, col: 9, offset: 91381,
+																		line: 2896, col: 9, offset: 91510,
 																	},
 																},
 															},
@@ -5014,10 +5014,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 749, col: 8, offset: 23970},
 																		expr: &actionExpr{
-																			pos: position{line: 2877, col: 10, offset: 91032},
+																			pos: position{line: 2877, col: 10, offset: 91161},
 																			run: (*parser).callonDocumentFragment175,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 10, offset: 91032},
+																				pos:        position{line: 2877, col: 10, offset: 91161},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5026,28 +5026,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2899, col: 8, offset: 91430},
+																		pos: position{line: 2899, col: 8, offset: 91559},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91203},
+																				pos: position{line: 2886, col: 12, offset: 91332},
 																				run: (*parser).callonDocumentFragment178,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91204},
+																					pos: position{line: 2886, col: 13, offset: 91333},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91204},
+																							pos:        position{line: 2886, col: 13, offset: 91333},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91211},
+																							pos:        position{line: 2886, col: 20, offset: 91340},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91220},
+																							pos:        position{line: 2886, col: 29, offset: 91349},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5056,9 +5056,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2896, col: 8, offset: 91380},
+																				pos: position{line: 2896, col: 8, offset: 91509},
 																				expr: &anyMatcher{
-																					line: 2896, col: 9, offset: 91381,
+																					line: 2896, col: 9, offset: 91510,
 																				},
 																			},
 																		},
@@ -5130,10 +5130,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 749, col: 8, offset: 23970},
 																												expr: &actionExpr{
-																													pos: position{line: 2877, col: 10, offset: 91032},
+																													pos: position{line: 2877, col: 10, offset: 91161},
 																													run: (*parser).callonDocumentFragment203,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2877, col: 10, offset: 91032},
+																														pos:        position{line: 2877, col: 10, offset: 91161},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5142,28 +5142,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2899, col: 8, offset: 91430},
+																												pos: position{line: 2899, col: 8, offset: 91559},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2886, col: 12, offset: 91203},
+																														pos: position{line: 2886, col: 12, offset: 91332},
 																														run: (*parser).callonDocumentFragment206,
 																														expr: &choiceExpr{
-																															pos: position{line: 2886, col: 13, offset: 91204},
+																															pos: position{line: 2886, col: 13, offset: 91333},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 13, offset: 91204},
+																																	pos:        position{line: 2886, col: 13, offset: 91333},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 20, offset: 91211},
+																																	pos:        position{line: 2886, col: 20, offset: 91340},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 29, offset: 91220},
+																																	pos:        position{line: 2886, col: 29, offset: 91349},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5172,9 +5172,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2896, col: 8, offset: 91380},
+																														pos: position{line: 2896, col: 8, offset: 91509},
 																														expr: &anyMatcher{
-																															line: 2896, col: 9, offset: 91381,
+																															line: 2896, col: 9, offset: 91510,
 																														},
 																													},
 																												},
@@ -5190,9 +5190,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2896, col: 8, offset: 91380},
+																						pos: position{line: 2896, col: 8, offset: 91509},
 																						expr: &anyMatcher{
-																							line: 2896, col: 9, offset: 91381,
+																							line: 2896, col: 9, offset: 91510,
 																						},
 																					},
 																				},
@@ -5208,21 +5208,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26129},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2894, col: 11, offset: 91366},
+																							pos: position{line: 2894, col: 11, offset: 91495},
 																							expr: &anyMatcher{
-																								line: 2894, col: 13, offset: 91368,
+																								line: 2894, col: 13, offset: 91497,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26204},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2823, col: 13, offset: 89558},
+																								pos: position{line: 2823, col: 13, offset: 89687},
 																								run: (*parser).callonDocumentFragment222,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2823, col: 13, offset: 89558},
+																									pos: position{line: 2823, col: 13, offset: 89687},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2823, col: 13, offset: 89558},
+																										pos:        position{line: 2823, col: 13, offset: 89687},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5232,28 +5232,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91430},
+																							pos: position{line: 2899, col: 8, offset: 91559},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91203},
+																									pos: position{line: 2886, col: 12, offset: 91332},
 																									run: (*parser).callonDocumentFragment226,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91204},
+																										pos: position{line: 2886, col: 13, offset: 91333},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91204},
+																												pos:        position{line: 2886, col: 13, offset: 91333},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91211},
+																												pos:        position{line: 2886, col: 20, offset: 91340},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91220},
+																												pos:        position{line: 2886, col: 29, offset: 91349},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5262,9 +5262,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91380},
+																									pos: position{line: 2896, col: 8, offset: 91509},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91381,
+																										line: 2896, col: 9, offset: 91510,
 																									},
 																								},
 																							},
@@ -5329,10 +5329,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 749, col: 8, offset: 23970},
 																								expr: &actionExpr{
-																									pos: position{line: 2877, col: 10, offset: 91032},
+																									pos: position{line: 2877, col: 10, offset: 91161},
 																									run: (*parser).callonDocumentFragment247,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 10, offset: 91032},
+																										pos:        position{line: 2877, col: 10, offset: 91161},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5341,28 +5341,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2899, col: 8, offset: 91430},
+																								pos: position{line: 2899, col: 8, offset: 91559},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2886, col: 12, offset: 91203},
+																										pos: position{line: 2886, col: 12, offset: 91332},
 																										run: (*parser).callonDocumentFragment250,
 																										expr: &choiceExpr{
-																											pos: position{line: 2886, col: 13, offset: 91204},
+																											pos: position{line: 2886, col: 13, offset: 91333},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 13, offset: 91204},
+																													pos:        position{line: 2886, col: 13, offset: 91333},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 20, offset: 91211},
+																													pos:        position{line: 2886, col: 20, offset: 91340},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 29, offset: 91220},
+																													pos:        position{line: 2886, col: 29, offset: 91349},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5371,9 +5371,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2896, col: 8, offset: 91380},
+																										pos: position{line: 2896, col: 8, offset: 91509},
 																										expr: &anyMatcher{
-																											line: 2896, col: 9, offset: 91381,
+																											line: 2896, col: 9, offset: 91510,
 																										},
 																									},
 																								},
@@ -5389,9 +5389,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2896, col: 8, offset: 91380},
+																		pos: position{line: 2896, col: 8, offset: 91509},
 																		expr: &anyMatcher{
-																			line: 2896, col: 9, offset: 91381,
+																			line: 2896, col: 9, offset: 91510,
 																		},
 																	},
 																},
@@ -5443,10 +5443,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 760, col: 52, offset: 24382},
 																		expr: &actionExpr{
-																			pos: position{line: 2877, col: 10, offset: 91032},
+																			pos: position{line: 2877, col: 10, offset: 91161},
 																			run: (*parser).callonDocumentFragment271,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 10, offset: 91032},
+																				pos:        position{line: 2877, col: 10, offset: 91161},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5455,28 +5455,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2899, col: 8, offset: 91430},
+																		pos: position{line: 2899, col: 8, offset: 91559},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91203},
+																				pos: position{line: 2886, col: 12, offset: 91332},
 																				run: (*parser).callonDocumentFragment274,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91204},
+																					pos: position{line: 2886, col: 13, offset: 91333},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91204},
+																							pos:        position{line: 2886, col: 13, offset: 91333},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91211},
+																							pos:        position{line: 2886, col: 20, offset: 91340},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91220},
+																							pos:        position{line: 2886, col: 29, offset: 91349},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5485,9 +5485,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2896, col: 8, offset: 91380},
+																				pos: position{line: 2896, col: 8, offset: 91509},
 																				expr: &anyMatcher{
-																					line: 2896, col: 9, offset: 91381,
+																					line: 2896, col: 9, offset: 91510,
 																				},
 																			},
 																		},
@@ -5521,10 +5521,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 963, col: 40, offset: 30190},
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 10, offset: 91032},
+																							pos: position{line: 2877, col: 10, offset: 91161},
 																							run: (*parser).callonDocumentFragment289,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2877, col: 10, offset: 91032},
+																								pos:        position{line: 2877, col: 10, offset: 91161},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5533,28 +5533,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91430},
+																						pos: position{line: 2899, col: 8, offset: 91559},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91203},
+																								pos: position{line: 2886, col: 12, offset: 91332},
 																								run: (*parser).callonDocumentFragment292,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91204},
+																									pos: position{line: 2886, col: 13, offset: 91333},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91204},
+																											pos:        position{line: 2886, col: 13, offset: 91333},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91211},
+																											pos:        position{line: 2886, col: 20, offset: 91340},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91220},
+																											pos:        position{line: 2886, col: 29, offset: 91349},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5563,9 +5563,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91380},
+																								pos: position{line: 2896, col: 8, offset: 91509},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91381,
+																									line: 2896, col: 9, offset: 91510,
 																								},
 																							},
 																						},
@@ -5583,21 +5583,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26129},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2894, col: 11, offset: 91366},
+																							pos: position{line: 2894, col: 11, offset: 91495},
 																							expr: &anyMatcher{
-																								line: 2894, col: 13, offset: 91368,
+																								line: 2894, col: 13, offset: 91497,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26204},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2823, col: 13, offset: 89558},
+																								pos: position{line: 2823, col: 13, offset: 89687},
 																								run: (*parser).callonDocumentFragment305,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2823, col: 13, offset: 89558},
+																									pos: position{line: 2823, col: 13, offset: 89687},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2823, col: 13, offset: 89558},
+																										pos:        position{line: 2823, col: 13, offset: 89687},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5607,28 +5607,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91430},
+																							pos: position{line: 2899, col: 8, offset: 91559},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91203},
+																									pos: position{line: 2886, col: 12, offset: 91332},
 																									run: (*parser).callonDocumentFragment309,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91204},
+																										pos: position{line: 2886, col: 13, offset: 91333},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91204},
+																												pos:        position{line: 2886, col: 13, offset: 91333},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91211},
+																												pos:        position{line: 2886, col: 20, offset: 91340},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91220},
+																												pos:        position{line: 2886, col: 29, offset: 91349},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5637,9 +5637,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91380},
+																									pos: position{line: 2896, col: 8, offset: 91509},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91381,
+																										line: 2896, col: 9, offset: 91510,
 																									},
 																								},
 																							},
@@ -5667,10 +5667,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 963, col: 40, offset: 30190},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91032},
+																		pos: position{line: 2877, col: 10, offset: 91161},
 																		run: (*parser).callonDocumentFragment320,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91032},
+																			pos:        position{line: 2877, col: 10, offset: 91161},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5679,28 +5679,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91430},
+																	pos: position{line: 2899, col: 8, offset: 91559},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91203},
+																			pos: position{line: 2886, col: 12, offset: 91332},
 																			run: (*parser).callonDocumentFragment323,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91204},
+																				pos: position{line: 2886, col: 13, offset: 91333},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91204},
+																						pos:        position{line: 2886, col: 13, offset: 91333},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91211},
+																						pos:        position{line: 2886, col: 20, offset: 91340},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91220},
+																						pos:        position{line: 2886, col: 29, offset: 91349},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5709,9 +5709,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91380},
+																			pos: position{line: 2896, col: 8, offset: 91509},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91381,
+																				line: 2896, col: 9, offset: 91510,
 																			},
 																		},
 																	},
@@ -5768,10 +5768,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 756, col: 8, offset: 24216},
 																		expr: &actionExpr{
-																			pos: position{line: 2877, col: 10, offset: 91032},
+																			pos: position{line: 2877, col: 10, offset: 91161},
 																			run: (*parser).callonDocumentFragment342,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 10, offset: 91032},
+																				pos:        position{line: 2877, col: 10, offset: 91161},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5780,28 +5780,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2899, col: 8, offset: 91430},
+																		pos: position{line: 2899, col: 8, offset: 91559},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91203},
+																				pos: position{line: 2886, col: 12, offset: 91332},
 																				run: (*parser).callonDocumentFragment345,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91204},
+																					pos: position{line: 2886, col: 13, offset: 91333},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91204},
+																							pos:        position{line: 2886, col: 13, offset: 91333},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91211},
+																							pos:        position{line: 2886, col: 20, offset: 91340},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91220},
+																							pos:        position{line: 2886, col: 29, offset: 91349},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5810,9 +5810,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2896, col: 8, offset: 91380},
+																				pos: position{line: 2896, col: 8, offset: 91509},
 																				expr: &anyMatcher{
-																					line: 2896, col: 9, offset: 91381,
+																					line: 2896, col: 9, offset: 91510,
 																				},
 																			},
 																		},
@@ -5884,10 +5884,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 756, col: 8, offset: 24216},
 																												expr: &actionExpr{
-																													pos: position{line: 2877, col: 10, offset: 91032},
+																													pos: position{line: 2877, col: 10, offset: 91161},
 																													run: (*parser).callonDocumentFragment370,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2877, col: 10, offset: 91032},
+																														pos:        position{line: 2877, col: 10, offset: 91161},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5896,28 +5896,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2899, col: 8, offset: 91430},
+																												pos: position{line: 2899, col: 8, offset: 91559},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2886, col: 12, offset: 91203},
+																														pos: position{line: 2886, col: 12, offset: 91332},
 																														run: (*parser).callonDocumentFragment373,
 																														expr: &choiceExpr{
-																															pos: position{line: 2886, col: 13, offset: 91204},
+																															pos: position{line: 2886, col: 13, offset: 91333},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 13, offset: 91204},
+																																	pos:        position{line: 2886, col: 13, offset: 91333},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 20, offset: 91211},
+																																	pos:        position{line: 2886, col: 20, offset: 91340},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 29, offset: 91220},
+																																	pos:        position{line: 2886, col: 29, offset: 91349},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5926,9 +5926,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2896, col: 8, offset: 91380},
+																														pos: position{line: 2896, col: 8, offset: 91509},
 																														expr: &anyMatcher{
-																															line: 2896, col: 9, offset: 91381,
+																															line: 2896, col: 9, offset: 91510,
 																														},
 																													},
 																												},
@@ -5944,9 +5944,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2896, col: 8, offset: 91380},
+																						pos: position{line: 2896, col: 8, offset: 91509},
 																						expr: &anyMatcher{
-																							line: 2896, col: 9, offset: 91381,
+																							line: 2896, col: 9, offset: 91510,
 																						},
 																					},
 																				},
@@ -5962,21 +5962,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26129},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2894, col: 11, offset: 91366},
+																							pos: position{line: 2894, col: 11, offset: 91495},
 																							expr: &anyMatcher{
-																								line: 2894, col: 13, offset: 91368,
+																								line: 2894, col: 13, offset: 91497,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26204},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2823, col: 13, offset: 89558},
+																								pos: position{line: 2823, col: 13, offset: 89687},
 																								run: (*parser).callonDocumentFragment389,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2823, col: 13, offset: 89558},
+																									pos: position{line: 2823, col: 13, offset: 89687},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2823, col: 13, offset: 89558},
+																										pos:        position{line: 2823, col: 13, offset: 89687},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5986,28 +5986,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91430},
+																							pos: position{line: 2899, col: 8, offset: 91559},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91203},
+																									pos: position{line: 2886, col: 12, offset: 91332},
 																									run: (*parser).callonDocumentFragment393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91204},
+																										pos: position{line: 2886, col: 13, offset: 91333},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91204},
+																												pos:        position{line: 2886, col: 13, offset: 91333},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91211},
+																												pos:        position{line: 2886, col: 20, offset: 91340},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91220},
+																												pos:        position{line: 2886, col: 29, offset: 91349},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6016,9 +6016,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91380},
+																									pos: position{line: 2896, col: 8, offset: 91509},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91381,
+																										line: 2896, col: 9, offset: 91510,
 																									},
 																								},
 																							},
@@ -6083,10 +6083,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 756, col: 8, offset: 24216},
 																								expr: &actionExpr{
-																									pos: position{line: 2877, col: 10, offset: 91032},
+																									pos: position{line: 2877, col: 10, offset: 91161},
 																									run: (*parser).callonDocumentFragment414,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 10, offset: 91032},
+																										pos:        position{line: 2877, col: 10, offset: 91161},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6095,28 +6095,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2899, col: 8, offset: 91430},
+																								pos: position{line: 2899, col: 8, offset: 91559},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2886, col: 12, offset: 91203},
+																										pos: position{line: 2886, col: 12, offset: 91332},
 																										run: (*parser).callonDocumentFragment417,
 																										expr: &choiceExpr{
-																											pos: position{line: 2886, col: 13, offset: 91204},
+																											pos: position{line: 2886, col: 13, offset: 91333},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 13, offset: 91204},
+																													pos:        position{line: 2886, col: 13, offset: 91333},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 20, offset: 91211},
+																													pos:        position{line: 2886, col: 20, offset: 91340},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 29, offset: 91220},
+																													pos:        position{line: 2886, col: 29, offset: 91349},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6125,9 +6125,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2896, col: 8, offset: 91380},
+																										pos: position{line: 2896, col: 8, offset: 91509},
 																										expr: &anyMatcher{
-																											line: 2896, col: 9, offset: 91381,
+																											line: 2896, col: 9, offset: 91510,
 																										},
 																									},
 																								},
@@ -6143,9 +6143,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2896, col: 8, offset: 91380},
+																		pos: position{line: 2896, col: 8, offset: 91509},
 																		expr: &anyMatcher{
-																			line: 2896, col: 9, offset: 91381,
+																			line: 2896, col: 9, offset: 91510,
 																		},
 																	},
 																},
@@ -6201,10 +6201,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 771, col: 8, offset: 24759},
 																		expr: &actionExpr{
-																			pos: position{line: 2877, col: 10, offset: 91032},
+																			pos: position{line: 2877, col: 10, offset: 91161},
 																			run: (*parser).callonDocumentFragment439,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 10, offset: 91032},
+																				pos:        position{line: 2877, col: 10, offset: 91161},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6213,28 +6213,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2899, col: 8, offset: 91430},
+																		pos: position{line: 2899, col: 8, offset: 91559},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91203},
+																				pos: position{line: 2886, col: 12, offset: 91332},
 																				run: (*parser).callonDocumentFragment442,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91204},
+																					pos: position{line: 2886, col: 13, offset: 91333},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91204},
+																							pos:        position{line: 2886, col: 13, offset: 91333},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91211},
+																							pos:        position{line: 2886, col: 20, offset: 91340},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91220},
+																							pos:        position{line: 2886, col: 29, offset: 91349},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6243,9 +6243,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2896, col: 8, offset: 91380},
+																				pos: position{line: 2896, col: 8, offset: 91509},
 																				expr: &anyMatcher{
-																					line: 2896, col: 9, offset: 91381,
+																					line: 2896, col: 9, offset: 91510,
 																				},
 																			},
 																		},
@@ -6317,10 +6317,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 771, col: 8, offset: 24759},
 																												expr: &actionExpr{
-																													pos: position{line: 2877, col: 10, offset: 91032},
+																													pos: position{line: 2877, col: 10, offset: 91161},
 																													run: (*parser).callonDocumentFragment467,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2877, col: 10, offset: 91032},
+																														pos:        position{line: 2877, col: 10, offset: 91161},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6329,28 +6329,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2899, col: 8, offset: 91430},
+																												pos: position{line: 2899, col: 8, offset: 91559},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2886, col: 12, offset: 91203},
+																														pos: position{line: 2886, col: 12, offset: 91332},
 																														run: (*parser).callonDocumentFragment470,
 																														expr: &choiceExpr{
-																															pos: position{line: 2886, col: 13, offset: 91204},
+																															pos: position{line: 2886, col: 13, offset: 91333},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 13, offset: 91204},
+																																	pos:        position{line: 2886, col: 13, offset: 91333},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 20, offset: 91211},
+																																	pos:        position{line: 2886, col: 20, offset: 91340},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 29, offset: 91220},
+																																	pos:        position{line: 2886, col: 29, offset: 91349},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6359,9 +6359,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2896, col: 8, offset: 91380},
+																														pos: position{line: 2896, col: 8, offset: 91509},
 																														expr: &anyMatcher{
-																															line: 2896, col: 9, offset: 91381,
+																															line: 2896, col: 9, offset: 91510,
 																														},
 																													},
 																												},
@@ -6377,9 +6377,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2896, col: 8, offset: 91380},
+																						pos: position{line: 2896, col: 8, offset: 91509},
 																						expr: &anyMatcher{
-																							line: 2896, col: 9, offset: 91381,
+																							line: 2896, col: 9, offset: 91510,
 																						},
 																					},
 																				},
@@ -6395,21 +6395,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26129},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2894, col: 11, offset: 91366},
+																							pos: position{line: 2894, col: 11, offset: 91495},
 																							expr: &anyMatcher{
-																								line: 2894, col: 13, offset: 91368,
+																								line: 2894, col: 13, offset: 91497,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26204},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2823, col: 13, offset: 89558},
+																								pos: position{line: 2823, col: 13, offset: 89687},
 																								run: (*parser).callonDocumentFragment486,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2823, col: 13, offset: 89558},
+																									pos: position{line: 2823, col: 13, offset: 89687},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2823, col: 13, offset: 89558},
+																										pos:        position{line: 2823, col: 13, offset: 89687},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6419,28 +6419,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91430},
+																							pos: position{line: 2899, col: 8, offset: 91559},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91203},
+																									pos: position{line: 2886, col: 12, offset: 91332},
 																									run: (*parser).callonDocumentFragment490,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91204},
+																										pos: position{line: 2886, col: 13, offset: 91333},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91204},
+																												pos:        position{line: 2886, col: 13, offset: 91333},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91211},
+																												pos:        position{line: 2886, col: 20, offset: 91340},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91220},
+																												pos:        position{line: 2886, col: 29, offset: 91349},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6449,9 +6449,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91380},
+																									pos: position{line: 2896, col: 8, offset: 91509},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91381,
+																										line: 2896, col: 9, offset: 91510,
 																									},
 																								},
 																							},
@@ -6516,10 +6516,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 771, col: 8, offset: 24759},
 																								expr: &actionExpr{
-																									pos: position{line: 2877, col: 10, offset: 91032},
+																									pos: position{line: 2877, col: 10, offset: 91161},
 																									run: (*parser).callonDocumentFragment511,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 10, offset: 91032},
+																										pos:        position{line: 2877, col: 10, offset: 91161},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6528,28 +6528,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2899, col: 8, offset: 91430},
+																								pos: position{line: 2899, col: 8, offset: 91559},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2886, col: 12, offset: 91203},
+																										pos: position{line: 2886, col: 12, offset: 91332},
 																										run: (*parser).callonDocumentFragment514,
 																										expr: &choiceExpr{
-																											pos: position{line: 2886, col: 13, offset: 91204},
+																											pos: position{line: 2886, col: 13, offset: 91333},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 13, offset: 91204},
+																													pos:        position{line: 2886, col: 13, offset: 91333},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 20, offset: 91211},
+																													pos:        position{line: 2886, col: 20, offset: 91340},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 29, offset: 91220},
+																													pos:        position{line: 2886, col: 29, offset: 91349},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6558,9 +6558,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2896, col: 8, offset: 91380},
+																										pos: position{line: 2896, col: 8, offset: 91509},
 																										expr: &anyMatcher{
-																											line: 2896, col: 9, offset: 91381,
+																											line: 2896, col: 9, offset: 91510,
 																										},
 																									},
 																								},
@@ -6576,9 +6576,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2896, col: 8, offset: 91380},
+																		pos: position{line: 2896, col: 8, offset: 91509},
 																		expr: &anyMatcher{
-																			line: 2896, col: 9, offset: 91381,
+																			line: 2896, col: 9, offset: 91510,
 																		},
 																	},
 																},
@@ -6634,10 +6634,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 785, col: 8, offset: 25235},
 																		expr: &actionExpr{
-																			pos: position{line: 2877, col: 10, offset: 91032},
+																			pos: position{line: 2877, col: 10, offset: 91161},
 																			run: (*parser).callonDocumentFragment536,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 10, offset: 91032},
+																				pos:        position{line: 2877, col: 10, offset: 91161},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6646,28 +6646,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2899, col: 8, offset: 91430},
+																		pos: position{line: 2899, col: 8, offset: 91559},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91203},
+																				pos: position{line: 2886, col: 12, offset: 91332},
 																				run: (*parser).callonDocumentFragment539,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91204},
+																					pos: position{line: 2886, col: 13, offset: 91333},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91204},
+																							pos:        position{line: 2886, col: 13, offset: 91333},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91211},
+																							pos:        position{line: 2886, col: 20, offset: 91340},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91220},
+																							pos:        position{line: 2886, col: 29, offset: 91349},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6676,9 +6676,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2896, col: 8, offset: 91380},
+																				pos: position{line: 2896, col: 8, offset: 91509},
 																				expr: &anyMatcher{
-																					line: 2896, col: 9, offset: 91381,
+																					line: 2896, col: 9, offset: 91510,
 																				},
 																			},
 																		},
@@ -6750,10 +6750,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 785, col: 8, offset: 25235},
 																												expr: &actionExpr{
-																													pos: position{line: 2877, col: 10, offset: 91032},
+																													pos: position{line: 2877, col: 10, offset: 91161},
 																													run: (*parser).callonDocumentFragment564,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2877, col: 10, offset: 91032},
+																														pos:        position{line: 2877, col: 10, offset: 91161},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6762,28 +6762,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2899, col: 8, offset: 91430},
+																												pos: position{line: 2899, col: 8, offset: 91559},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2886, col: 12, offset: 91203},
+																														pos: position{line: 2886, col: 12, offset: 91332},
 																														run: (*parser).callonDocumentFragment567,
 																														expr: &choiceExpr{
-																															pos: position{line: 2886, col: 13, offset: 91204},
+																															pos: position{line: 2886, col: 13, offset: 91333},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 13, offset: 91204},
+																																	pos:        position{line: 2886, col: 13, offset: 91333},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 20, offset: 91211},
+																																	pos:        position{line: 2886, col: 20, offset: 91340},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 29, offset: 91220},
+																																	pos:        position{line: 2886, col: 29, offset: 91349},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6792,9 +6792,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2896, col: 8, offset: 91380},
+																														pos: position{line: 2896, col: 8, offset: 91509},
 																														expr: &anyMatcher{
-																															line: 2896, col: 9, offset: 91381,
+																															line: 2896, col: 9, offset: 91510,
 																														},
 																													},
 																												},
@@ -6810,9 +6810,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2896, col: 8, offset: 91380},
+																						pos: position{line: 2896, col: 8, offset: 91509},
 																						expr: &anyMatcher{
-																							line: 2896, col: 9, offset: 91381,
+																							line: 2896, col: 9, offset: 91510,
 																						},
 																					},
 																				},
@@ -6828,21 +6828,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26129},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2894, col: 11, offset: 91366},
+																							pos: position{line: 2894, col: 11, offset: 91495},
 																							expr: &anyMatcher{
-																								line: 2894, col: 13, offset: 91368,
+																								line: 2894, col: 13, offset: 91497,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26204},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2823, col: 13, offset: 89558},
+																								pos: position{line: 2823, col: 13, offset: 89687},
 																								run: (*parser).callonDocumentFragment583,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2823, col: 13, offset: 89558},
+																									pos: position{line: 2823, col: 13, offset: 89687},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2823, col: 13, offset: 89558},
+																										pos:        position{line: 2823, col: 13, offset: 89687},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6852,28 +6852,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91430},
+																							pos: position{line: 2899, col: 8, offset: 91559},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91203},
+																									pos: position{line: 2886, col: 12, offset: 91332},
 																									run: (*parser).callonDocumentFragment587,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91204},
+																										pos: position{line: 2886, col: 13, offset: 91333},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91204},
+																												pos:        position{line: 2886, col: 13, offset: 91333},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91211},
+																												pos:        position{line: 2886, col: 20, offset: 91340},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91220},
+																												pos:        position{line: 2886, col: 29, offset: 91349},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6882,9 +6882,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91380},
+																									pos: position{line: 2896, col: 8, offset: 91509},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91381,
+																										line: 2896, col: 9, offset: 91510,
 																									},
 																								},
 																							},
@@ -6949,10 +6949,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 785, col: 8, offset: 25235},
 																								expr: &actionExpr{
-																									pos: position{line: 2877, col: 10, offset: 91032},
+																									pos: position{line: 2877, col: 10, offset: 91161},
 																									run: (*parser).callonDocumentFragment608,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 10, offset: 91032},
+																										pos:        position{line: 2877, col: 10, offset: 91161},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6961,28 +6961,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2899, col: 8, offset: 91430},
+																								pos: position{line: 2899, col: 8, offset: 91559},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2886, col: 12, offset: 91203},
+																										pos: position{line: 2886, col: 12, offset: 91332},
 																										run: (*parser).callonDocumentFragment611,
 																										expr: &choiceExpr{
-																											pos: position{line: 2886, col: 13, offset: 91204},
+																											pos: position{line: 2886, col: 13, offset: 91333},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 13, offset: 91204},
+																													pos:        position{line: 2886, col: 13, offset: 91333},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 20, offset: 91211},
+																													pos:        position{line: 2886, col: 20, offset: 91340},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 29, offset: 91220},
+																													pos:        position{line: 2886, col: 29, offset: 91349},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6991,9 +6991,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2896, col: 8, offset: 91380},
+																										pos: position{line: 2896, col: 8, offset: 91509},
 																										expr: &anyMatcher{
-																											line: 2896, col: 9, offset: 91381,
+																											line: 2896, col: 9, offset: 91510,
 																										},
 																									},
 																								},
@@ -7009,9 +7009,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2896, col: 8, offset: 91380},
+																		pos: position{line: 2896, col: 8, offset: 91509},
 																		expr: &anyMatcher{
-																			line: 2896, col: 9, offset: 91381,
+																			line: 2896, col: 9, offset: 91510,
 																		},
 																	},
 																},
@@ -7045,18 +7045,18 @@ var g = &grammar{
 																				pos: position{line: 677, col: 14, offset: 21525},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2894, col: 11, offset: 91366},
+																						pos: position{line: 2894, col: 11, offset: 91495},
 																						expr: &anyMatcher{
-																							line: 2894, col: 13, offset: 91368,
+																							line: 2894, col: 13, offset: 91497,
 																						},
 																					},
 																					&zeroOrMoreExpr{
 																						pos: position{line: 677, col: 21, offset: 21532},
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 10, offset: 91032},
+																							pos: position{line: 2877, col: 10, offset: 91161},
 																							run: (*parser).callonDocumentFragment632,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2877, col: 10, offset: 91032},
+																								pos:        position{line: 2877, col: 10, offset: 91161},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -7065,28 +7065,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91430},
+																						pos: position{line: 2899, col: 8, offset: 91559},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91203},
+																								pos: position{line: 2886, col: 12, offset: 91332},
 																								run: (*parser).callonDocumentFragment635,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91204},
+																									pos: position{line: 2886, col: 13, offset: 91333},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91204},
+																											pos:        position{line: 2886, col: 13, offset: 91333},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91211},
+																											pos:        position{line: 2886, col: 20, offset: 91340},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91220},
+																											pos:        position{line: 2886, col: 29, offset: 91349},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -7095,9 +7095,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91380},
+																								pos: position{line: 2896, col: 8, offset: 91509},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91381,
+																									line: 2896, col: 9, offset: 91510,
 																								},
 																							},
 																						},
@@ -7116,12 +7116,12 @@ var g = &grammar{
 																		pos:   position{line: 984, col: 5, offset: 30725},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2827, col: 14, offset: 89625},
+																			pos: position{line: 2827, col: 14, offset: 89754},
 																			run: (*parser).callonDocumentFragment644,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2827, col: 14, offset: 89625},
+																				pos: position{line: 2827, col: 14, offset: 89754},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2827, col: 14, offset: 89625},
+																					pos:        position{line: 2827, col: 14, offset: 89754},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -7131,28 +7131,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2899, col: 8, offset: 91430},
+																		pos: position{line: 2899, col: 8, offset: 91559},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91203},
+																				pos: position{line: 2886, col: 12, offset: 91332},
 																				run: (*parser).callonDocumentFragment648,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91204},
+																					pos: position{line: 2886, col: 13, offset: 91333},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91204},
+																							pos:        position{line: 2886, col: 13, offset: 91333},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91211},
+																							pos:        position{line: 2886, col: 20, offset: 91340},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91220},
+																							pos:        position{line: 2886, col: 29, offset: 91349},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7161,9 +7161,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2896, col: 8, offset: 91380},
+																				pos: position{line: 2896, col: 8, offset: 91509},
 																				expr: &anyMatcher{
-																					line: 2896, col: 9, offset: 91381,
+																					line: 2896, col: 9, offset: 91510,
 																				},
 																			},
 																		},
@@ -7195,18 +7195,18 @@ var g = &grammar{
 																							pos: position{line: 677, col: 14, offset: 21525},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2894, col: 11, offset: 91366},
+																									pos: position{line: 2894, col: 11, offset: 91495},
 																									expr: &anyMatcher{
-																										line: 2894, col: 13, offset: 91368,
+																										line: 2894, col: 13, offset: 91497,
 																									},
 																								},
 																								&zeroOrMoreExpr{
 																									pos: position{line: 677, col: 21, offset: 21532},
 																									expr: &actionExpr{
-																										pos: position{line: 2877, col: 10, offset: 91032},
+																										pos: position{line: 2877, col: 10, offset: 91161},
 																										run: (*parser).callonDocumentFragment666,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2877, col: 10, offset: 91032},
+																											pos:        position{line: 2877, col: 10, offset: 91161},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7215,28 +7215,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2899, col: 8, offset: 91430},
+																									pos: position{line: 2899, col: 8, offset: 91559},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2886, col: 12, offset: 91203},
+																											pos: position{line: 2886, col: 12, offset: 91332},
 																											run: (*parser).callonDocumentFragment669,
 																											expr: &choiceExpr{
-																												pos: position{line: 2886, col: 13, offset: 91204},
+																												pos: position{line: 2886, col: 13, offset: 91333},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 13, offset: 91204},
+																														pos:        position{line: 2886, col: 13, offset: 91333},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 20, offset: 91211},
+																														pos:        position{line: 2886, col: 20, offset: 91340},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 29, offset: 91220},
+																														pos:        position{line: 2886, col: 29, offset: 91349},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7245,9 +7245,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2896, col: 8, offset: 91380},
+																											pos: position{line: 2896, col: 8, offset: 91509},
 																											expr: &anyMatcher{
-																												line: 2896, col: 9, offset: 91381,
+																												line: 2896, col: 9, offset: 91510,
 																											},
 																										},
 																									},
@@ -7266,12 +7266,12 @@ var g = &grammar{
 																					pos:   position{line: 984, col: 5, offset: 30725},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2827, col: 14, offset: 89625},
+																						pos: position{line: 2827, col: 14, offset: 89754},
 																						run: (*parser).callonDocumentFragment678,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2827, col: 14, offset: 89625},
+																							pos: position{line: 2827, col: 14, offset: 89754},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2827, col: 14, offset: 89625},
+																								pos:        position{line: 2827, col: 14, offset: 89754},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7281,28 +7281,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2899, col: 8, offset: 91430},
+																					pos: position{line: 2899, col: 8, offset: 91559},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2886, col: 12, offset: 91203},
+																							pos: position{line: 2886, col: 12, offset: 91332},
 																							run: (*parser).callonDocumentFragment682,
 																							expr: &choiceExpr{
-																								pos: position{line: 2886, col: 13, offset: 91204},
+																								pos: position{line: 2886, col: 13, offset: 91333},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 13, offset: 91204},
+																										pos:        position{line: 2886, col: 13, offset: 91333},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 20, offset: 91211},
+																										pos:        position{line: 2886, col: 20, offset: 91340},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 29, offset: 91220},
+																										pos:        position{line: 2886, col: 29, offset: 91349},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7311,9 +7311,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2896, col: 8, offset: 91380},
+																							pos: position{line: 2896, col: 8, offset: 91509},
 																							expr: &anyMatcher{
-																								line: 2896, col: 9, offset: 91381,
+																								line: 2896, col: 9, offset: 91510,
 																							},
 																						},
 																					},
@@ -7322,21 +7322,21 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 1796, col: 5, offset: 58106},
+																		pos: position{line: 1796, col: 5, offset: 58235},
 																		run: (*parser).callonDocumentFragment689,
 																		expr: &seqExpr{
-																			pos: position{line: 1796, col: 5, offset: 58106},
+																			pos: position{line: 1796, col: 5, offset: 58235},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1796, col: 5, offset: 58106},
+																					pos:   position{line: 1796, col: 5, offset: 58235},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2827, col: 14, offset: 89625},
+																						pos: position{line: 2827, col: 14, offset: 89754},
 																						run: (*parser).callonDocumentFragment692,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2827, col: 14, offset: 89625},
+																							pos: position{line: 2827, col: 14, offset: 89754},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2827, col: 14, offset: 89625},
+																								pos:        position{line: 2827, col: 14, offset: 89754},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7346,32 +7346,32 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1797, col: 5, offset: 58130},
+																					pos: position{line: 1797, col: 5, offset: 58259},
 																					run: (*parser).callonDocumentFragment695,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2899, col: 8, offset: 91430},
+																					pos: position{line: 2899, col: 8, offset: 91559},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2886, col: 12, offset: 91203},
+																							pos: position{line: 2886, col: 12, offset: 91332},
 																							run: (*parser).callonDocumentFragment697,
 																							expr: &choiceExpr{
-																								pos: position{line: 2886, col: 13, offset: 91204},
+																								pos: position{line: 2886, col: 13, offset: 91333},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 13, offset: 91204},
+																										pos:        position{line: 2886, col: 13, offset: 91333},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 20, offset: 91211},
+																										pos:        position{line: 2886, col: 20, offset: 91340},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 29, offset: 91220},
+																										pos:        position{line: 2886, col: 29, offset: 91349},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7380,9 +7380,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2896, col: 8, offset: 91380},
+																							pos: position{line: 2896, col: 8, offset: 91509},
 																							expr: &anyMatcher{
-																								line: 2896, col: 9, offset: 91381,
+																								line: 2896, col: 9, offset: 91510,
 																							},
 																						},
 																					},
@@ -7429,10 +7429,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 778, col: 8, offset: 24990},
 																		expr: &actionExpr{
-																			pos: position{line: 2877, col: 10, offset: 91032},
+																			pos: position{line: 2877, col: 10, offset: 91161},
 																			run: (*parser).callonDocumentFragment713,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 10, offset: 91032},
+																				pos:        position{line: 2877, col: 10, offset: 91161},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7441,28 +7441,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2899, col: 8, offset: 91430},
+																		pos: position{line: 2899, col: 8, offset: 91559},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91203},
+																				pos: position{line: 2886, col: 12, offset: 91332},
 																				run: (*parser).callonDocumentFragment716,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91204},
+																					pos: position{line: 2886, col: 13, offset: 91333},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91204},
+																							pos:        position{line: 2886, col: 13, offset: 91333},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91211},
+																							pos:        position{line: 2886, col: 20, offset: 91340},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91220},
+																							pos:        position{line: 2886, col: 29, offset: 91349},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7471,9 +7471,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2896, col: 8, offset: 91380},
+																				pos: position{line: 2896, col: 8, offset: 91509},
 																				expr: &anyMatcher{
-																					line: 2896, col: 9, offset: 91381,
+																					line: 2896, col: 9, offset: 91510,
 																				},
 																			},
 																		},
@@ -7521,10 +7521,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 778, col: 8, offset: 24990},
 																									expr: &actionExpr{
-																										pos: position{line: 2877, col: 10, offset: 91032},
+																										pos: position{line: 2877, col: 10, offset: 91161},
 																										run: (*parser).callonDocumentFragment735,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2877, col: 10, offset: 91032},
+																											pos:        position{line: 2877, col: 10, offset: 91161},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7533,28 +7533,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2899, col: 8, offset: 91430},
+																									pos: position{line: 2899, col: 8, offset: 91559},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2886, col: 12, offset: 91203},
+																											pos: position{line: 2886, col: 12, offset: 91332},
 																											run: (*parser).callonDocumentFragment738,
 																											expr: &choiceExpr{
-																												pos: position{line: 2886, col: 13, offset: 91204},
+																												pos: position{line: 2886, col: 13, offset: 91333},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 13, offset: 91204},
+																														pos:        position{line: 2886, col: 13, offset: 91333},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 20, offset: 91211},
+																														pos:        position{line: 2886, col: 20, offset: 91340},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 29, offset: 91220},
+																														pos:        position{line: 2886, col: 29, offset: 91349},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7563,9 +7563,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2896, col: 8, offset: 91380},
+																											pos: position{line: 2896, col: 8, offset: 91509},
 																											expr: &anyMatcher{
-																												line: 2896, col: 9, offset: 91381,
+																												line: 2896, col: 9, offset: 91510,
 																											},
 																										},
 																									},
@@ -7574,9 +7574,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2896, col: 8, offset: 91380},
+																						pos: position{line: 2896, col: 8, offset: 91509},
 																						expr: &anyMatcher{
-																							line: 2896, col: 9, offset: 91381,
+																							line: 2896, col: 9, offset: 91510,
 																						},
 																					},
 																				},
@@ -7592,21 +7592,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26129},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2894, col: 11, offset: 91366},
+																							pos: position{line: 2894, col: 11, offset: 91495},
 																							expr: &anyMatcher{
-																								line: 2894, col: 13, offset: 91368,
+																								line: 2894, col: 13, offset: 91497,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26204},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2823, col: 13, offset: 89558},
+																								pos: position{line: 2823, col: 13, offset: 89687},
 																								run: (*parser).callonDocumentFragment753,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2823, col: 13, offset: 89558},
+																									pos: position{line: 2823, col: 13, offset: 89687},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2823, col: 13, offset: 89558},
+																										pos:        position{line: 2823, col: 13, offset: 89687},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7616,28 +7616,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91430},
+																							pos: position{line: 2899, col: 8, offset: 91559},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91203},
+																									pos: position{line: 2886, col: 12, offset: 91332},
 																									run: (*parser).callonDocumentFragment757,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91204},
+																										pos: position{line: 2886, col: 13, offset: 91333},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91204},
+																												pos:        position{line: 2886, col: 13, offset: 91333},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91211},
+																												pos:        position{line: 2886, col: 20, offset: 91340},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91220},
+																												pos:        position{line: 2886, col: 29, offset: 91349},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7646,9 +7646,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91380},
+																									pos: position{line: 2896, col: 8, offset: 91509},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91381,
+																										line: 2896, col: 9, offset: 91510,
 																									},
 																								},
 																							},
@@ -7693,10 +7693,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 778, col: 8, offset: 24990},
 																					expr: &actionExpr{
-																						pos: position{line: 2877, col: 10, offset: 91032},
+																						pos: position{line: 2877, col: 10, offset: 91161},
 																						run: (*parser).callonDocumentFragment773,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2877, col: 10, offset: 91032},
+																							pos:        position{line: 2877, col: 10, offset: 91161},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7705,28 +7705,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2899, col: 8, offset: 91430},
+																					pos: position{line: 2899, col: 8, offset: 91559},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2886, col: 12, offset: 91203},
+																							pos: position{line: 2886, col: 12, offset: 91332},
 																							run: (*parser).callonDocumentFragment776,
 																							expr: &choiceExpr{
-																								pos: position{line: 2886, col: 13, offset: 91204},
+																								pos: position{line: 2886, col: 13, offset: 91333},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 13, offset: 91204},
+																										pos:        position{line: 2886, col: 13, offset: 91333},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 20, offset: 91211},
+																										pos:        position{line: 2886, col: 20, offset: 91340},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 29, offset: 91220},
+																										pos:        position{line: 2886, col: 29, offset: 91349},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7735,9 +7735,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2896, col: 8, offset: 91380},
+																							pos: position{line: 2896, col: 8, offset: 91509},
 																							expr: &anyMatcher{
-																								line: 2896, col: 9, offset: 91381,
+																								line: 2896, col: 9, offset: 91510,
 																							},
 																						},
 																					},
@@ -7746,9 +7746,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2896, col: 8, offset: 91380},
+																		pos: position{line: 2896, col: 8, offset: 91509},
 																		expr: &anyMatcher{
-																			line: 2896, col: 9, offset: 91381,
+																			line: 2896, col: 9, offset: 91510,
 																		},
 																	},
 																},
@@ -7804,10 +7804,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 792, col: 8, offset: 25487},
 																		expr: &actionExpr{
-																			pos: position{line: 2877, col: 10, offset: 91032},
+																			pos: position{line: 2877, col: 10, offset: 91161},
 																			run: (*parser).callonDocumentFragment797,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 10, offset: 91032},
+																				pos:        position{line: 2877, col: 10, offset: 91161},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7816,28 +7816,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2899, col: 8, offset: 91430},
+																		pos: position{line: 2899, col: 8, offset: 91559},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91203},
+																				pos: position{line: 2886, col: 12, offset: 91332},
 																				run: (*parser).callonDocumentFragment800,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91204},
+																					pos: position{line: 2886, col: 13, offset: 91333},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91204},
+																							pos:        position{line: 2886, col: 13, offset: 91333},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91211},
+																							pos:        position{line: 2886, col: 20, offset: 91340},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91220},
+																							pos:        position{line: 2886, col: 29, offset: 91349},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7846,9 +7846,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2896, col: 8, offset: 91380},
+																				pos: position{line: 2896, col: 8, offset: 91509},
 																				expr: &anyMatcher{
-																					line: 2896, col: 9, offset: 91381,
+																					line: 2896, col: 9, offset: 91510,
 																				},
 																			},
 																		},
@@ -7920,10 +7920,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 792, col: 8, offset: 25487},
 																												expr: &actionExpr{
-																													pos: position{line: 2877, col: 10, offset: 91032},
+																													pos: position{line: 2877, col: 10, offset: 91161},
 																													run: (*parser).callonDocumentFragment825,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2877, col: 10, offset: 91032},
+																														pos:        position{line: 2877, col: 10, offset: 91161},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7932,28 +7932,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2899, col: 8, offset: 91430},
+																												pos: position{line: 2899, col: 8, offset: 91559},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2886, col: 12, offset: 91203},
+																														pos: position{line: 2886, col: 12, offset: 91332},
 																														run: (*parser).callonDocumentFragment828,
 																														expr: &choiceExpr{
-																															pos: position{line: 2886, col: 13, offset: 91204},
+																															pos: position{line: 2886, col: 13, offset: 91333},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 13, offset: 91204},
+																																	pos:        position{line: 2886, col: 13, offset: 91333},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 20, offset: 91211},
+																																	pos:        position{line: 2886, col: 20, offset: 91340},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 29, offset: 91220},
+																																	pos:        position{line: 2886, col: 29, offset: 91349},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7962,9 +7962,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2896, col: 8, offset: 91380},
+																														pos: position{line: 2896, col: 8, offset: 91509},
 																														expr: &anyMatcher{
-																															line: 2896, col: 9, offset: 91381,
+																															line: 2896, col: 9, offset: 91510,
 																														},
 																													},
 																												},
@@ -7980,9 +7980,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2896, col: 8, offset: 91380},
+																						pos: position{line: 2896, col: 8, offset: 91509},
 																						expr: &anyMatcher{
-																							line: 2896, col: 9, offset: 91381,
+																							line: 2896, col: 9, offset: 91510,
 																						},
 																					},
 																				},
@@ -7998,21 +7998,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26129},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2894, col: 11, offset: 91366},
+																							pos: position{line: 2894, col: 11, offset: 91495},
 																							expr: &anyMatcher{
-																								line: 2894, col: 13, offset: 91368,
+																								line: 2894, col: 13, offset: 91497,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26204},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2823, col: 13, offset: 89558},
+																								pos: position{line: 2823, col: 13, offset: 89687},
 																								run: (*parser).callonDocumentFragment844,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2823, col: 13, offset: 89558},
+																									pos: position{line: 2823, col: 13, offset: 89687},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2823, col: 13, offset: 89558},
+																										pos:        position{line: 2823, col: 13, offset: 89687},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8022,28 +8022,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91430},
+																							pos: position{line: 2899, col: 8, offset: 91559},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91203},
+																									pos: position{line: 2886, col: 12, offset: 91332},
 																									run: (*parser).callonDocumentFragment848,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91204},
+																										pos: position{line: 2886, col: 13, offset: 91333},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91204},
+																												pos:        position{line: 2886, col: 13, offset: 91333},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91211},
+																												pos:        position{line: 2886, col: 20, offset: 91340},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91220},
+																												pos:        position{line: 2886, col: 29, offset: 91349},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8052,9 +8052,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91380},
+																									pos: position{line: 2896, col: 8, offset: 91509},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91381,
+																										line: 2896, col: 9, offset: 91510,
 																									},
 																								},
 																							},
@@ -8119,10 +8119,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 792, col: 8, offset: 25487},
 																								expr: &actionExpr{
-																									pos: position{line: 2877, col: 10, offset: 91032},
+																									pos: position{line: 2877, col: 10, offset: 91161},
 																									run: (*parser).callonDocumentFragment869,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 10, offset: 91032},
+																										pos:        position{line: 2877, col: 10, offset: 91161},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8131,28 +8131,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2899, col: 8, offset: 91430},
+																								pos: position{line: 2899, col: 8, offset: 91559},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2886, col: 12, offset: 91203},
+																										pos: position{line: 2886, col: 12, offset: 91332},
 																										run: (*parser).callonDocumentFragment872,
 																										expr: &choiceExpr{
-																											pos: position{line: 2886, col: 13, offset: 91204},
+																											pos: position{line: 2886, col: 13, offset: 91333},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 13, offset: 91204},
+																													pos:        position{line: 2886, col: 13, offset: 91333},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 20, offset: 91211},
+																													pos:        position{line: 2886, col: 20, offset: 91340},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 29, offset: 91220},
+																													pos:        position{line: 2886, col: 29, offset: 91349},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8161,9 +8161,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2896, col: 8, offset: 91380},
+																										pos: position{line: 2896, col: 8, offset: 91509},
 																										expr: &anyMatcher{
-																											line: 2896, col: 9, offset: 91381,
+																											line: 2896, col: 9, offset: 91510,
 																										},
 																									},
 																								},
@@ -8179,9 +8179,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2896, col: 8, offset: 91380},
+																		pos: position{line: 2896, col: 8, offset: 91509},
 																		expr: &anyMatcher{
-																			line: 2896, col: 9, offset: 91381,
+																			line: 2896, col: 9, offset: 91510,
 																		},
 																	},
 																},
@@ -8237,10 +8237,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 799, col: 8, offset: 25737},
 																		expr: &actionExpr{
-																			pos: position{line: 2877, col: 10, offset: 91032},
+																			pos: position{line: 2877, col: 10, offset: 91161},
 																			run: (*parser).callonDocumentFragment894,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 10, offset: 91032},
+																				pos:        position{line: 2877, col: 10, offset: 91161},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8249,28 +8249,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2899, col: 8, offset: 91430},
+																		pos: position{line: 2899, col: 8, offset: 91559},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91203},
+																				pos: position{line: 2886, col: 12, offset: 91332},
 																				run: (*parser).callonDocumentFragment897,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91204},
+																					pos: position{line: 2886, col: 13, offset: 91333},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91204},
+																							pos:        position{line: 2886, col: 13, offset: 91333},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91211},
+																							pos:        position{line: 2886, col: 20, offset: 91340},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91220},
+																							pos:        position{line: 2886, col: 29, offset: 91349},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8279,9 +8279,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2896, col: 8, offset: 91380},
+																				pos: position{line: 2896, col: 8, offset: 91509},
 																				expr: &anyMatcher{
-																					line: 2896, col: 9, offset: 91381,
+																					line: 2896, col: 9, offset: 91510,
 																				},
 																			},
 																		},
@@ -8353,10 +8353,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 799, col: 8, offset: 25737},
 																												expr: &actionExpr{
-																													pos: position{line: 2877, col: 10, offset: 91032},
+																													pos: position{line: 2877, col: 10, offset: 91161},
 																													run: (*parser).callonDocumentFragment922,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2877, col: 10, offset: 91032},
+																														pos:        position{line: 2877, col: 10, offset: 91161},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8365,28 +8365,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2899, col: 8, offset: 91430},
+																												pos: position{line: 2899, col: 8, offset: 91559},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2886, col: 12, offset: 91203},
+																														pos: position{line: 2886, col: 12, offset: 91332},
 																														run: (*parser).callonDocumentFragment925,
 																														expr: &choiceExpr{
-																															pos: position{line: 2886, col: 13, offset: 91204},
+																															pos: position{line: 2886, col: 13, offset: 91333},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 13, offset: 91204},
+																																	pos:        position{line: 2886, col: 13, offset: 91333},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 20, offset: 91211},
+																																	pos:        position{line: 2886, col: 20, offset: 91340},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 29, offset: 91220},
+																																	pos:        position{line: 2886, col: 29, offset: 91349},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8395,9 +8395,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2896, col: 8, offset: 91380},
+																														pos: position{line: 2896, col: 8, offset: 91509},
 																														expr: &anyMatcher{
-																															line: 2896, col: 9, offset: 91381,
+																															line: 2896, col: 9, offset: 91510,
 																														},
 																													},
 																												},
@@ -8413,9 +8413,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2896, col: 8, offset: 91380},
+																						pos: position{line: 2896, col: 8, offset: 91509},
 																						expr: &anyMatcher{
-																							line: 2896, col: 9, offset: 91381,
+																							line: 2896, col: 9, offset: 91510,
 																						},
 																					},
 																				},
@@ -8431,21 +8431,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26129},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2894, col: 11, offset: 91366},
+																							pos: position{line: 2894, col: 11, offset: 91495},
 																							expr: &anyMatcher{
-																								line: 2894, col: 13, offset: 91368,
+																								line: 2894, col: 13, offset: 91497,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26204},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2823, col: 13, offset: 89558},
+																								pos: position{line: 2823, col: 13, offset: 89687},
 																								run: (*parser).callonDocumentFragment941,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2823, col: 13, offset: 89558},
+																									pos: position{line: 2823, col: 13, offset: 89687},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2823, col: 13, offset: 89558},
+																										pos:        position{line: 2823, col: 13, offset: 89687},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8455,28 +8455,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91430},
+																							pos: position{line: 2899, col: 8, offset: 91559},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91203},
+																									pos: position{line: 2886, col: 12, offset: 91332},
 																									run: (*parser).callonDocumentFragment945,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91204},
+																										pos: position{line: 2886, col: 13, offset: 91333},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91204},
+																												pos:        position{line: 2886, col: 13, offset: 91333},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91211},
+																												pos:        position{line: 2886, col: 20, offset: 91340},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91220},
+																												pos:        position{line: 2886, col: 29, offset: 91349},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8485,9 +8485,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91380},
+																									pos: position{line: 2896, col: 8, offset: 91509},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91381,
+																										line: 2896, col: 9, offset: 91510,
 																									},
 																								},
 																							},
@@ -8552,10 +8552,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 799, col: 8, offset: 25737},
 																								expr: &actionExpr{
-																									pos: position{line: 2877, col: 10, offset: 91032},
+																									pos: position{line: 2877, col: 10, offset: 91161},
 																									run: (*parser).callonDocumentFragment966,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 10, offset: 91032},
+																										pos:        position{line: 2877, col: 10, offset: 91161},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8564,28 +8564,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2899, col: 8, offset: 91430},
+																								pos: position{line: 2899, col: 8, offset: 91559},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2886, col: 12, offset: 91203},
+																										pos: position{line: 2886, col: 12, offset: 91332},
 																										run: (*parser).callonDocumentFragment969,
 																										expr: &choiceExpr{
-																											pos: position{line: 2886, col: 13, offset: 91204},
+																											pos: position{line: 2886, col: 13, offset: 91333},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 13, offset: 91204},
+																													pos:        position{line: 2886, col: 13, offset: 91333},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 20, offset: 91211},
+																													pos:        position{line: 2886, col: 20, offset: 91340},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 29, offset: 91220},
+																													pos:        position{line: 2886, col: 29, offset: 91349},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8594,9 +8594,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2896, col: 8, offset: 91380},
+																										pos: position{line: 2896, col: 8, offset: 91509},
 																										expr: &anyMatcher{
-																											line: 2896, col: 9, offset: 91381,
+																											line: 2896, col: 9, offset: 91510,
 																										},
 																									},
 																								},
@@ -8612,9 +8612,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2896, col: 8, offset: 91380},
+																		pos: position{line: 2896, col: 8, offset: 91509},
 																		expr: &anyMatcher{
-																			line: 2896, col: 9, offset: 91381,
+																			line: 2896, col: 9, offset: 91510,
 																		},
 																	},
 																},
@@ -8670,10 +8670,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 806, col: 8, offset: 25983},
 																		expr: &actionExpr{
-																			pos: position{line: 2877, col: 10, offset: 91032},
+																			pos: position{line: 2877, col: 10, offset: 91161},
 																			run: (*parser).callonDocumentFragment991,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 10, offset: 91032},
+																				pos:        position{line: 2877, col: 10, offset: 91161},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8682,28 +8682,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2899, col: 8, offset: 91430},
+																		pos: position{line: 2899, col: 8, offset: 91559},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91203},
+																				pos: position{line: 2886, col: 12, offset: 91332},
 																				run: (*parser).callonDocumentFragment994,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91204},
+																					pos: position{line: 2886, col: 13, offset: 91333},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91204},
+																							pos:        position{line: 2886, col: 13, offset: 91333},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91211},
+																							pos:        position{line: 2886, col: 20, offset: 91340},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91220},
+																							pos:        position{line: 2886, col: 29, offset: 91349},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8712,9 +8712,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2896, col: 8, offset: 91380},
+																				pos: position{line: 2896, col: 8, offset: 91509},
 																				expr: &anyMatcher{
-																					line: 2896, col: 9, offset: 91381,
+																					line: 2896, col: 9, offset: 91510,
 																				},
 																			},
 																		},
@@ -8786,10 +8786,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 806, col: 8, offset: 25983},
 																												expr: &actionExpr{
-																													pos: position{line: 2877, col: 10, offset: 91032},
+																													pos: position{line: 2877, col: 10, offset: 91161},
 																													run: (*parser).callonDocumentFragment1019,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2877, col: 10, offset: 91032},
+																														pos:        position{line: 2877, col: 10, offset: 91161},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8798,28 +8798,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2899, col: 8, offset: 91430},
+																												pos: position{line: 2899, col: 8, offset: 91559},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2886, col: 12, offset: 91203},
+																														pos: position{line: 2886, col: 12, offset: 91332},
 																														run: (*parser).callonDocumentFragment1022,
 																														expr: &choiceExpr{
-																															pos: position{line: 2886, col: 13, offset: 91204},
+																															pos: position{line: 2886, col: 13, offset: 91333},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 13, offset: 91204},
+																																	pos:        position{line: 2886, col: 13, offset: 91333},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 20, offset: 91211},
+																																	pos:        position{line: 2886, col: 20, offset: 91340},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 29, offset: 91220},
+																																	pos:        position{line: 2886, col: 29, offset: 91349},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8828,9 +8828,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2896, col: 8, offset: 91380},
+																														pos: position{line: 2896, col: 8, offset: 91509},
 																														expr: &anyMatcher{
-																															line: 2896, col: 9, offset: 91381,
+																															line: 2896, col: 9, offset: 91510,
 																														},
 																													},
 																												},
@@ -8846,9 +8846,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2896, col: 8, offset: 91380},
+																						pos: position{line: 2896, col: 8, offset: 91509},
 																						expr: &anyMatcher{
-																							line: 2896, col: 9, offset: 91381,
+																							line: 2896, col: 9, offset: 91510,
 																						},
 																					},
 																				},
@@ -8864,21 +8864,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26129},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2894, col: 11, offset: 91366},
+																							pos: position{line: 2894, col: 11, offset: 91495},
 																							expr: &anyMatcher{
-																								line: 2894, col: 13, offset: 91368,
+																								line: 2894, col: 13, offset: 91497,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26204},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2823, col: 13, offset: 89558},
+																								pos: position{line: 2823, col: 13, offset: 89687},
 																								run: (*parser).callonDocumentFragment1038,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2823, col: 13, offset: 89558},
+																									pos: position{line: 2823, col: 13, offset: 89687},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2823, col: 13, offset: 89558},
+																										pos:        position{line: 2823, col: 13, offset: 89687},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8888,28 +8888,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91430},
+																							pos: position{line: 2899, col: 8, offset: 91559},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91203},
+																									pos: position{line: 2886, col: 12, offset: 91332},
 																									run: (*parser).callonDocumentFragment1042,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91204},
+																										pos: position{line: 2886, col: 13, offset: 91333},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91204},
+																												pos:        position{line: 2886, col: 13, offset: 91333},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91211},
+																												pos:        position{line: 2886, col: 20, offset: 91340},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91220},
+																												pos:        position{line: 2886, col: 29, offset: 91349},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8918,9 +8918,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91380},
+																									pos: position{line: 2896, col: 8, offset: 91509},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91381,
+																										line: 2896, col: 9, offset: 91510,
 																									},
 																								},
 																							},
@@ -8985,10 +8985,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 806, col: 8, offset: 25983},
 																								expr: &actionExpr{
-																									pos: position{line: 2877, col: 10, offset: 91032},
+																									pos: position{line: 2877, col: 10, offset: 91161},
 																									run: (*parser).callonDocumentFragment1063,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 10, offset: 91032},
+																										pos:        position{line: 2877, col: 10, offset: 91161},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8997,28 +8997,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2899, col: 8, offset: 91430},
+																								pos: position{line: 2899, col: 8, offset: 91559},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2886, col: 12, offset: 91203},
+																										pos: position{line: 2886, col: 12, offset: 91332},
 																										run: (*parser).callonDocumentFragment1066,
 																										expr: &choiceExpr{
-																											pos: position{line: 2886, col: 13, offset: 91204},
+																											pos: position{line: 2886, col: 13, offset: 91333},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 13, offset: 91204},
+																													pos:        position{line: 2886, col: 13, offset: 91333},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 20, offset: 91211},
+																													pos:        position{line: 2886, col: 20, offset: 91340},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 29, offset: 91220},
+																													pos:        position{line: 2886, col: 29, offset: 91349},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -9027,9 +9027,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2896, col: 8, offset: 91380},
+																										pos: position{line: 2896, col: 8, offset: 91509},
 																										expr: &anyMatcher{
-																											line: 2896, col: 9, offset: 91381,
+																											line: 2896, col: 9, offset: 91510,
 																										},
 																									},
 																								},
@@ -9045,9 +9045,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2896, col: 8, offset: 91380},
+																		pos: position{line: 2896, col: 8, offset: 91509},
 																		expr: &anyMatcher{
-																			line: 2896, col: 9, offset: 91381,
+																			line: 2896, col: 9, offset: 91510,
 																		},
 																	},
 																},
@@ -9058,52 +9058,52 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2722, col: 18, offset: 86606},
+											pos: position{line: 2722, col: 18, offset: 86735},
 											run: (*parser).callonDocumentFragment1076,
 											expr: &seqExpr{
-												pos: position{line: 2722, col: 18, offset: 86606},
+												pos: position{line: 2722, col: 18, offset: 86735},
 												exprs: []interface{}{
 													&choiceExpr{
-														pos: position{line: 2723, col: 9, offset: 86616},
+														pos: position{line: 2723, col: 9, offset: 86745},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2723, col: 9, offset: 86616},
+																pos:        position{line: 2723, col: 9, offset: 86745},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2724, col: 11, offset: 86652},
+																pos:        position{line: 2724, col: 11, offset: 86781},
 																val:        "***",
 																ignoreCase: false,
 																want:       "\"***\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2724, col: 19, offset: 86660},
+																pos:        position{line: 2724, col: 19, offset: 86789},
 																val:        "* * *",
 																ignoreCase: false,
 																want:       "\"* * *\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2724, col: 29, offset: 86670},
+																pos:        position{line: 2724, col: 29, offset: 86799},
 																val:        "---",
 																ignoreCase: false,
 																want:       "\"---\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2724, col: 37, offset: 86678},
+																pos:        position{line: 2724, col: 37, offset: 86807},
 																val:        "- - -",
 																ignoreCase: false,
 																want:       "\"- - -\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2724, col: 47, offset: 86688},
+																pos:        position{line: 2724, col: 47, offset: 86817},
 																val:        "___",
 																ignoreCase: false,
 																want:       "\"___\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2724, col: 55, offset: 86696},
+																pos:        position{line: 2724, col: 55, offset: 86825},
 																val:        "_ _ _",
 																ignoreCase: false,
 																want:       "\"_ _ _\"",
@@ -9111,12 +9111,12 @@ var g = &grammar{
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2725, col: 11, offset: 86742},
+														pos: position{line: 2725, col: 11, offset: 86871},
 														expr: &actionExpr{
-															pos: position{line: 2877, col: 10, offset: 91032},
+															pos: position{line: 2877, col: 10, offset: 91161},
 															run: (*parser).callonDocumentFragment1087,
 															expr: &charClassMatcher{
-																pos:        position{line: 2877, col: 10, offset: 91032},
+																pos:        position{line: 2877, col: 10, offset: 91161},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9125,28 +9125,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2899, col: 8, offset: 91430},
+														pos: position{line: 2899, col: 8, offset: 91559},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2886, col: 12, offset: 91203},
+																pos: position{line: 2886, col: 12, offset: 91332},
 																run: (*parser).callonDocumentFragment1090,
 																expr: &choiceExpr{
-																	pos: position{line: 2886, col: 13, offset: 91204},
+																	pos: position{line: 2886, col: 13, offset: 91333},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 13, offset: 91204},
+																			pos:        position{line: 2886, col: 13, offset: 91333},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 20, offset: 91211},
+																			pos:        position{line: 2886, col: 20, offset: 91340},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 29, offset: 91220},
+																			pos:        position{line: 2886, col: 29, offset: 91349},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9155,20 +9155,20 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2896, col: 8, offset: 91380},
+																pos: position{line: 2896, col: 8, offset: 91509},
 																expr: &anyMatcher{
-																	line: 2896, col: 9, offset: 91381,
+																	line: 2896, col: 9, offset: 91510,
 																},
 															},
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2725, col: 22, offset: 86753},
+														pos: position{line: 2725, col: 22, offset: 86882},
 														expr: &actionExpr{
-															pos: position{line: 2877, col: 10, offset: 91032},
+															pos: position{line: 2877, col: 10, offset: 91161},
 															run: (*parser).callonDocumentFragment1098,
 															expr: &charClassMatcher{
-																pos:        position{line: 2877, col: 10, offset: 91032},
+																pos:        position{line: 2877, col: 10, offset: 91161},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9177,28 +9177,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2899, col: 8, offset: 91430},
+														pos: position{line: 2899, col: 8, offset: 91559},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2886, col: 12, offset: 91203},
+																pos: position{line: 2886, col: 12, offset: 91332},
 																run: (*parser).callonDocumentFragment1101,
 																expr: &choiceExpr{
-																	pos: position{line: 2886, col: 13, offset: 91204},
+																	pos: position{line: 2886, col: 13, offset: 91333},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 13, offset: 91204},
+																			pos:        position{line: 2886, col: 13, offset: 91333},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 20, offset: 91211},
+																			pos:        position{line: 2886, col: 20, offset: 91340},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 29, offset: 91220},
+																			pos:        position{line: 2886, col: 29, offset: 91349},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9207,9 +9207,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2896, col: 8, offset: 91380},
+																pos: position{line: 2896, col: 8, offset: 91509},
 																expr: &anyMatcher{
-																	line: 2896, col: 9, offset: 91381,
+																	line: 2896, col: 9, offset: 91510,
 																},
 															},
 														},
@@ -9222,24 +9222,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2613, col: 5, offset: 83542},
+											pos: position{line: 2613, col: 5, offset: 83671},
 											run: (*parser).callonDocumentFragment1109,
 											expr: &seqExpr{
-												pos: position{line: 2613, col: 5, offset: 83542},
+												pos: position{line: 2613, col: 5, offset: 83671},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2619, col: 19, offset: 83699},
+														pos:        position{line: 2619, col: 19, offset: 83828},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2619, col: 26, offset: 83706},
+														pos: position{line: 2619, col: 26, offset: 83835},
 														expr: &actionExpr{
-															pos: position{line: 2877, col: 10, offset: 91032},
+															pos: position{line: 2877, col: 10, offset: 91161},
 															run: (*parser).callonDocumentFragment1113,
 															expr: &charClassMatcher{
-																pos:        position{line: 2877, col: 10, offset: 91032},
+																pos:        position{line: 2877, col: 10, offset: 91161},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9248,28 +9248,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2899, col: 8, offset: 91430},
+														pos: position{line: 2899, col: 8, offset: 91559},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2886, col: 12, offset: 91203},
+																pos: position{line: 2886, col: 12, offset: 91332},
 																run: (*parser).callonDocumentFragment1116,
 																expr: &choiceExpr{
-																	pos: position{line: 2886, col: 13, offset: 91204},
+																	pos: position{line: 2886, col: 13, offset: 91333},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 13, offset: 91204},
+																			pos:        position{line: 2886, col: 13, offset: 91333},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 20, offset: 91211},
+																			pos:        position{line: 2886, col: 20, offset: 91340},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 29, offset: 91220},
+																			pos:        position{line: 2886, col: 29, offset: 91349},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9278,20 +9278,20 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2896, col: 8, offset: 91380},
+																pos: position{line: 2896, col: 8, offset: 91509},
 																expr: &anyMatcher{
-																	line: 2896, col: 9, offset: 91381,
+																	line: 2896, col: 9, offset: 91510,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2614, col: 5, offset: 83566},
+														pos:   position{line: 2614, col: 5, offset: 83695},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2614, col: 11, offset: 83572},
+															pos: position{line: 2614, col: 11, offset: 83701},
 															expr: &choiceExpr{
-																pos: position{line: 2614, col: 12, offset: 83573},
+																pos: position{line: 2614, col: 12, offset: 83702},
 																alternatives: []interface{}{
 																	&actionExpr{
 																		pos: position{line: 677, col: 14, offset: 21525},
@@ -9300,18 +9300,18 @@ var g = &grammar{
 																			pos: position{line: 677, col: 14, offset: 21525},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2894, col: 11, offset: 91366},
+																					pos: position{line: 2894, col: 11, offset: 91495},
 																					expr: &anyMatcher{
-																						line: 2894, col: 13, offset: 91368,
+																						line: 2894, col: 13, offset: 91497,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21532},
 																					expr: &actionExpr{
-																						pos: position{line: 2877, col: 10, offset: 91032},
+																						pos: position{line: 2877, col: 10, offset: 91161},
 																						run: (*parser).callonDocumentFragment1131,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2877, col: 10, offset: 91032},
+																							pos:        position{line: 2877, col: 10, offset: 91161},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9320,28 +9320,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2899, col: 8, offset: 91430},
+																					pos: position{line: 2899, col: 8, offset: 91559},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2886, col: 12, offset: 91203},
+																							pos: position{line: 2886, col: 12, offset: 91332},
 																							run: (*parser).callonDocumentFragment1134,
 																							expr: &choiceExpr{
-																								pos: position{line: 2886, col: 13, offset: 91204},
+																								pos: position{line: 2886, col: 13, offset: 91333},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 13, offset: 91204},
+																										pos:        position{line: 2886, col: 13, offset: 91333},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 20, offset: 91211},
+																										pos:        position{line: 2886, col: 20, offset: 91340},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 29, offset: 91220},
+																										pos:        position{line: 2886, col: 29, offset: 91349},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9350,9 +9350,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2896, col: 8, offset: 91380},
+																							pos: position{line: 2896, col: 8, offset: 91509},
 																							expr: &anyMatcher{
-																								line: 2896, col: 9, offset: 91381,
+																								line: 2896, col: 9, offset: 91510,
 																							},
 																						},
 																					},
@@ -9361,32 +9361,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2626, col: 5, offset: 83818},
+																		pos: position{line: 2626, col: 5, offset: 83947},
 																		run: (*parser).callonDocumentFragment1141,
 																		expr: &seqExpr{
-																			pos: position{line: 2626, col: 5, offset: 83818},
+																			pos: position{line: 2626, col: 5, offset: 83947},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2626, col: 5, offset: 83818},
+																					pos: position{line: 2626, col: 5, offset: 83947},
 																					expr: &choiceExpr{
-																						pos: position{line: 2623, col: 22, offset: 83779},
+																						pos: position{line: 2623, col: 22, offset: 83908},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2619, col: 19, offset: 83699},
+																								pos: position{line: 2619, col: 19, offset: 83828},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2619, col: 19, offset: 83699},
+																										pos:        position{line: 2619, col: 19, offset: 83828},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2619, col: 26, offset: 83706},
+																										pos: position{line: 2619, col: 26, offset: 83835},
 																										expr: &actionExpr{
-																											pos: position{line: 2877, col: 10, offset: 91032},
+																											pos: position{line: 2877, col: 10, offset: 91161},
 																											run: (*parser).callonDocumentFragment1148,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2877, col: 10, offset: 91032},
+																												pos:        position{line: 2877, col: 10, offset: 91161},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9395,28 +9395,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2899, col: 8, offset: 91430},
+																										pos: position{line: 2899, col: 8, offset: 91559},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2886, col: 12, offset: 91203},
+																												pos: position{line: 2886, col: 12, offset: 91332},
 																												run: (*parser).callonDocumentFragment1151,
 																												expr: &choiceExpr{
-																													pos: position{line: 2886, col: 13, offset: 91204},
+																													pos: position{line: 2886, col: 13, offset: 91333},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2886, col: 13, offset: 91204},
+																															pos:        position{line: 2886, col: 13, offset: 91333},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2886, col: 20, offset: 91211},
+																															pos:        position{line: 2886, col: 20, offset: 91340},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2886, col: 29, offset: 91220},
+																															pos:        position{line: 2886, col: 29, offset: 91349},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9425,9 +9425,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2896, col: 8, offset: 91380},
+																												pos: position{line: 2896, col: 8, offset: 91509},
 																												expr: &anyMatcher{
-																													line: 2896, col: 9, offset: 91381,
+																													line: 2896, col: 9, offset: 91510,
 																												},
 																											},
 																										},
@@ -9435,59 +9435,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91380},
+																								pos: position{line: 2896, col: 8, offset: 91509},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91381,
+																									line: 2896, col: 9, offset: 91510,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2627, col: 5, offset: 83841},
+																					pos:   position{line: 2627, col: 5, offset: 83970},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2628, col: 9, offset: 83859},
+																						pos: position{line: 2628, col: 9, offset: 83988},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2628, col: 10, offset: 83860},
+																								pos: position{line: 2628, col: 10, offset: 83989},
 																								run: (*parser).callonDocumentFragment1162,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2628, col: 10, offset: 83860},
+																									pos:   position{line: 2628, col: 10, offset: 83989},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2628, col: 17, offset: 83867},
+																										pos: position{line: 2628, col: 17, offset: 83996},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2636, col: 21, offset: 84063},
+																												pos: position{line: 2636, col: 21, offset: 84192},
 																												run: (*parser).callonDocumentFragment1165,
 																												expr: &seqExpr{
-																													pos: position{line: 2636, col: 21, offset: 84063},
+																													pos: position{line: 2636, col: 21, offset: 84192},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2636, col: 21, offset: 84063},
+																															pos:   position{line: 2636, col: 21, offset: 84192},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2636, col: 27, offset: 84069},
+																																pos: position{line: 2636, col: 27, offset: 84198},
 																																expr: &actionExpr{
-																																	pos: position{line: 2641, col: 5, offset: 84144},
+																																	pos: position{line: 2641, col: 5, offset: 84273},
 																																	run: (*parser).callonDocumentFragment1169,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2641, col: 5, offset: 84144},
+																																		pos: position{line: 2641, col: 5, offset: 84273},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2641, col: 5, offset: 84144},
+																																				pos:        position{line: 2641, col: 5, offset: 84273},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2641, col: 9, offset: 84148},
+																																				pos: position{line: 2641, col: 9, offset: 84277},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2877, col: 10, offset: 91032},
+																																					pos: position{line: 2877, col: 10, offset: 91161},
 																																					run: (*parser).callonDocumentFragment1173,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2877, col: 10, offset: 91032},
+																																						pos:        position{line: 2877, col: 10, offset: 91161},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9496,21 +9496,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2641, col: 16, offset: 84155},
+																																				pos:   position{line: 2641, col: 16, offset: 84284},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2647, col: 5, offset: 84355},
+																																					pos: position{line: 2647, col: 5, offset: 84484},
 																																					run: (*parser).callonDocumentFragment1176,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2647, col: 5, offset: 84355},
+																																						pos:   position{line: 2647, col: 5, offset: 84484},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2647, col: 14, offset: 84364},
+																																							pos: position{line: 2647, col: 14, offset: 84493},
 																																							run: (*parser).callonDocumentFragment1178,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2647, col: 14, offset: 84364},
+																																								pos: position{line: 2647, col: 14, offset: 84493},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2647, col: 14, offset: 84364},
+																																									pos:        position{line: 2647, col: 14, offset: 84493},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9527,28 +9527,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2899, col: 8, offset: 91430},
+																															pos: position{line: 2899, col: 8, offset: 91559},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2886, col: 12, offset: 91203},
+																																	pos: position{line: 2886, col: 12, offset: 91332},
 																																	run: (*parser).callonDocumentFragment1182,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2886, col: 13, offset: 91204},
+																																		pos: position{line: 2886, col: 13, offset: 91333},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2886, col: 13, offset: 91204},
+																																				pos:        position{line: 2886, col: 13, offset: 91333},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2886, col: 20, offset: 91211},
+																																				pos:        position{line: 2886, col: 20, offset: 91340},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2886, col: 29, offset: 91220},
+																																				pos:        position{line: 2886, col: 29, offset: 91349},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9557,9 +9557,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2896, col: 8, offset: 91380},
+																																	pos: position{line: 2896, col: 8, offset: 91509},
 																																	expr: &anyMatcher{
-																																		line: 2896, col: 9, offset: 91381,
+																																		line: 2896, col: 9, offset: 91510,
 																																	},
 																																},
 																															},
@@ -9568,40 +9568,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2653, col: 24, offset: 84500},
+																												pos: position{line: 2653, col: 24, offset: 84629},
 																												run: (*parser).callonDocumentFragment1189,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2653, col: 24, offset: 84500},
+																													pos:   position{line: 2653, col: 24, offset: 84629},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2653, col: 30, offset: 84506},
+																														pos: position{line: 2653, col: 30, offset: 84635},
 																														expr: &actionExpr{
-																															pos: position{line: 2658, col: 5, offset: 84582},
+																															pos: position{line: 2658, col: 5, offset: 84711},
 																															run: (*parser).callonDocumentFragment1192,
 																															expr: &seqExpr{
-																																pos: position{line: 2658, col: 5, offset: 84582},
+																																pos: position{line: 2658, col: 5, offset: 84711},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2658, col: 5, offset: 84582},
+																																		pos: position{line: 2658, col: 5, offset: 84711},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2623, col: 22, offset: 83779},
+																																			pos: position{line: 2623, col: 22, offset: 83908},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2619, col: 19, offset: 83699},
+																																					pos: position{line: 2619, col: 19, offset: 83828},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2619, col: 19, offset: 83699},
+																																							pos:        position{line: 2619, col: 19, offset: 83828},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2619, col: 26, offset: 83706},
+																																							pos: position{line: 2619, col: 26, offset: 83835},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2877, col: 10, offset: 91032},
+																																								pos: position{line: 2877, col: 10, offset: 91161},
 																																								run: (*parser).callonDocumentFragment1199,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2877, col: 10, offset: 91032},
+																																									pos:        position{line: 2877, col: 10, offset: 91161},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9610,28 +9610,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2899, col: 8, offset: 91430},
+																																							pos: position{line: 2899, col: 8, offset: 91559},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2886, col: 12, offset: 91203},
+																																									pos: position{line: 2886, col: 12, offset: 91332},
 																																									run: (*parser).callonDocumentFragment1202,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2886, col: 13, offset: 91204},
+																																										pos: position{line: 2886, col: 13, offset: 91333},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2886, col: 13, offset: 91204},
+																																												pos:        position{line: 2886, col: 13, offset: 91333},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2886, col: 20, offset: 91211},
+																																												pos:        position{line: 2886, col: 20, offset: 91340},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2886, col: 29, offset: 91220},
+																																												pos:        position{line: 2886, col: 29, offset: 91349},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9640,9 +9640,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2896, col: 8, offset: 91380},
+																																									pos: position{line: 2896, col: 8, offset: 91509},
 																																									expr: &anyMatcher{
-																																										line: 2896, col: 9, offset: 91381,
+																																										line: 2896, col: 9, offset: 91510,
 																																									},
 																																								},
 																																							},
@@ -9650,16 +9650,16 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2896, col: 8, offset: 91380},
+																																					pos: position{line: 2896, col: 8, offset: 91509},
 																																					expr: &anyMatcher{
-																																						line: 2896, col: 9, offset: 91381,
+																																						line: 2896, col: 9, offset: 91510,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2659, col: 5, offset: 84605},
+																																		pos: position{line: 2659, col: 5, offset: 84734},
 																																		expr: &actionExpr{
 																																			pos: position{line: 677, col: 14, offset: 21525},
 																																			run: (*parser).callonDocumentFragment1212,
@@ -9667,18 +9667,18 @@ var g = &grammar{
 																																				pos: position{line: 677, col: 14, offset: 21525},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2894, col: 11, offset: 91366},
+																																						pos: position{line: 2894, col: 11, offset: 91495},
 																																						expr: &anyMatcher{
-																																							line: 2894, col: 13, offset: 91368,
+																																							line: 2894, col: 13, offset: 91497,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
 																																						pos: position{line: 677, col: 21, offset: 21532},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2877, col: 10, offset: 91032},
+																																							pos: position{line: 2877, col: 10, offset: 91161},
 																																							run: (*parser).callonDocumentFragment1217,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2877, col: 10, offset: 91032},
+																																								pos:        position{line: 2877, col: 10, offset: 91161},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9687,28 +9687,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2899, col: 8, offset: 91430},
+																																						pos: position{line: 2899, col: 8, offset: 91559},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2886, col: 12, offset: 91203},
+																																								pos: position{line: 2886, col: 12, offset: 91332},
 																																								run: (*parser).callonDocumentFragment1220,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2886, col: 13, offset: 91204},
+																																									pos: position{line: 2886, col: 13, offset: 91333},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2886, col: 13, offset: 91204},
+																																											pos:        position{line: 2886, col: 13, offset: 91333},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2886, col: 20, offset: 91211},
+																																											pos:        position{line: 2886, col: 20, offset: 91340},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2886, col: 29, offset: 91220},
+																																											pos:        position{line: 2886, col: 29, offset: 91349},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9717,9 +9717,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2896, col: 8, offset: 91380},
+																																								pos: position{line: 2896, col: 8, offset: 91509},
 																																								expr: &anyMatcher{
-																																									line: 2896, col: 9, offset: 91381,
+																																									line: 2896, col: 9, offset: 91510,
 																																								},
 																																							},
 																																						},
@@ -9729,17 +9729,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2660, col: 5, offset: 84620},
+																																		pos:   position{line: 2660, col: 5, offset: 84749},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2660, col: 12, offset: 84627},
+																																			pos: position{line: 2660, col: 12, offset: 84756},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2677, col: 20, offset: 85091},
+																																				pos: position{line: 2677, col: 20, offset: 85220},
 																																				run: (*parser).callonDocumentFragment1229,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2677, col: 20, offset: 85091},
+																																					pos: position{line: 2677, col: 20, offset: 85220},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2677, col: 20, offset: 85091},
+																																						pos:        position{line: 2677, col: 20, offset: 85220},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9750,18 +9750,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2660, col: 31, offset: 84646},
+																																		pos:        position{line: 2660, col: 31, offset: 84775},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2660, col: 35, offset: 84650},
+																																		pos: position{line: 2660, col: 35, offset: 84779},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2877, col: 10, offset: 91032},
+																																			pos: position{line: 2877, col: 10, offset: 91161},
 																																			run: (*parser).callonDocumentFragment1234,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2877, col: 10, offset: 91032},
+																																				pos:        position{line: 2877, col: 10, offset: 91161},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9770,27 +9770,27 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2660, col: 42, offset: 84657},
+																																		pos: position{line: 2660, col: 42, offset: 84786},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2886, col: 12, offset: 91203},
+																																			pos: position{line: 2886, col: 12, offset: 91332},
 																																			run: (*parser).callonDocumentFragment1237,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2886, col: 13, offset: 91204},
+																																				pos: position{line: 2886, col: 13, offset: 91333},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2886, col: 13, offset: 91204},
+																																						pos:        position{line: 2886, col: 13, offset: 91333},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2886, col: 20, offset: 91211},
+																																						pos:        position{line: 2886, col: 20, offset: 91340},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2886, col: 29, offset: 91220},
+																																						pos:        position{line: 2886, col: 29, offset: 91349},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9800,37 +9800,37 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2660, col: 51, offset: 84666},
+																																		pos:   position{line: 2660, col: 51, offset: 84795},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2666, col: 5, offset: 84825},
+																																			pos: position{line: 2666, col: 5, offset: 84954},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2667, col: 9, offset: 84835},
+																																				pos: position{line: 2667, col: 9, offset: 84964},
 																																				run: (*parser).callonDocumentFragment1244,
 																																				expr: &seqExpr{
-																																					pos: position{line: 2667, col: 9, offset: 84835},
+																																					pos: position{line: 2667, col: 9, offset: 84964},
 																																					exprs: []interface{}{
 																																						&notExpr{
-																																							pos: position{line: 2667, col: 9, offset: 84835},
+																																							pos: position{line: 2667, col: 9, offset: 84964},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2623, col: 22, offset: 83779},
+																																								pos: position{line: 2623, col: 22, offset: 83908},
 																																								alternatives: []interface{}{
 																																									&seqExpr{
-																																										pos: position{line: 2619, col: 19, offset: 83699},
+																																										pos: position{line: 2619, col: 19, offset: 83828},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2619, col: 19, offset: 83699},
+																																												pos:        position{line: 2619, col: 19, offset: 83828},
 																																												val:        "|===",
 																																												ignoreCase: false,
 																																												want:       "\"|===\"",
 																																											},
 																																											&zeroOrMoreExpr{
-																																												pos: position{line: 2619, col: 26, offset: 83706},
+																																												pos: position{line: 2619, col: 26, offset: 83835},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2877, col: 10, offset: 91032},
+																																													pos: position{line: 2877, col: 10, offset: 91161},
 																																													run: (*parser).callonDocumentFragment1251,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2877, col: 10, offset: 91032},
+																																														pos:        position{line: 2877, col: 10, offset: 91161},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -9839,28 +9839,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2899, col: 8, offset: 91430},
+																																												pos: position{line: 2899, col: 8, offset: 91559},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2886, col: 12, offset: 91203},
+																																														pos: position{line: 2886, col: 12, offset: 91332},
 																																														run: (*parser).callonDocumentFragment1254,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2886, col: 13, offset: 91204},
+																																															pos: position{line: 2886, col: 13, offset: 91333},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2886, col: 13, offset: 91204},
+																																																	pos:        position{line: 2886, col: 13, offset: 91333},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2886, col: 20, offset: 91211},
+																																																	pos:        position{line: 2886, col: 20, offset: 91340},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2886, col: 29, offset: 91220},
+																																																	pos:        position{line: 2886, col: 29, offset: 91349},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -9869,9 +9869,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2896, col: 8, offset: 91380},
+																																														pos: position{line: 2896, col: 8, offset: 91509},
 																																														expr: &anyMatcher{
-																																															line: 2896, col: 9, offset: 91381,
+																																															line: 2896, col: 9, offset: 91510,
 																																														},
 																																													},
 																																												},
@@ -9879,16 +9879,16 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2896, col: 8, offset: 91380},
+																																										pos: position{line: 2896, col: 8, offset: 91509},
 																																										expr: &anyMatcher{
-																																											line: 2896, col: 9, offset: 91381,
+																																											line: 2896, col: 9, offset: 91510,
 																																										},
 																																									},
 																																								},
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2668, col: 9, offset: 84862},
+																																							pos: position{line: 2668, col: 9, offset: 84991},
 																																							expr: &actionExpr{
 																																								pos: position{line: 677, col: 14, offset: 21525},
 																																								run: (*parser).callonDocumentFragment1264,
@@ -9896,18 +9896,18 @@ var g = &grammar{
 																																									pos: position{line: 677, col: 14, offset: 21525},
 																																									exprs: []interface{}{
 																																										&andExpr{
-																																											pos: position{line: 2894, col: 11, offset: 91366},
+																																											pos: position{line: 2894, col: 11, offset: 91495},
 																																											expr: &anyMatcher{
-																																												line: 2894, col: 13, offset: 91368,
+																																												line: 2894, col: 13, offset: 91497,
 																																											},
 																																										},
 																																										&zeroOrMoreExpr{
 																																											pos: position{line: 677, col: 21, offset: 21532},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2877, col: 10, offset: 91032},
+																																												pos: position{line: 2877, col: 10, offset: 91161},
 																																												run: (*parser).callonDocumentFragment1269,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2877, col: 10, offset: 91032},
+																																													pos:        position{line: 2877, col: 10, offset: 91161},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -9916,28 +9916,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2899, col: 8, offset: 91430},
+																																											pos: position{line: 2899, col: 8, offset: 91559},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2886, col: 12, offset: 91203},
+																																													pos: position{line: 2886, col: 12, offset: 91332},
 																																													run: (*parser).callonDocumentFragment1272,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2886, col: 13, offset: 91204},
+																																														pos: position{line: 2886, col: 13, offset: 91333},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2886, col: 13, offset: 91204},
+																																																pos:        position{line: 2886, col: 13, offset: 91333},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2886, col: 20, offset: 91211},
+																																																pos:        position{line: 2886, col: 20, offset: 91340},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2886, col: 29, offset: 91220},
+																																																pos:        position{line: 2886, col: 29, offset: 91349},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -9946,9 +9946,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2896, col: 8, offset: 91380},
+																																													pos: position{line: 2896, col: 8, offset: 91509},
 																																													expr: &anyMatcher{
-																																														line: 2896, col: 9, offset: 91381,
+																																														line: 2896, col: 9, offset: 91510,
 																																													},
 																																												},
 																																											},
@@ -9958,22 +9958,22 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2669, col: 9, offset: 84881},
+																																							pos: position{line: 2669, col: 9, offset: 85010},
 																																							expr: &seqExpr{
-																																								pos: position{line: 2669, col: 11, offset: 84883},
+																																								pos: position{line: 2669, col: 11, offset: 85012},
 																																								exprs: []interface{}{
 																																									&labeledExpr{
-																																										pos:   position{line: 2669, col: 11, offset: 84883},
+																																										pos:   position{line: 2669, col: 11, offset: 85012},
 																																										label: "format",
 																																										expr: &zeroOrOneExpr{
-																																											pos: position{line: 2669, col: 18, offset: 84890},
+																																											pos: position{line: 2669, col: 18, offset: 85019},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2677, col: 20, offset: 85091},
+																																												pos: position{line: 2677, col: 20, offset: 85220},
 																																												run: (*parser).callonDocumentFragment1283,
 																																												expr: &zeroOrMoreExpr{
-																																													pos: position{line: 2677, col: 20, offset: 85091},
+																																													pos: position{line: 2677, col: 20, offset: 85220},
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2677, col: 20, offset: 85091},
+																																														pos:        position{line: 2677, col: 20, offset: 85220},
 																																														val:        "[^ |\\r\\n]",
 																																														chars:      []rune{' ', '|', '\r', '\n'},
 																																														ignoreCase: false,
@@ -9984,7 +9984,7 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2669, col: 37, offset: 84909},
+																																										pos:        position{line: 2669, col: 37, offset: 85038},
 																																										val:        "|",
 																																										ignoreCase: false,
 																																										want:       "\"|\"",
@@ -9993,15 +9993,15 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&labeledExpr{
-																																							pos:   position{line: 2670, col: 9, offset: 84922},
+																																							pos:   position{line: 2670, col: 9, offset: 85051},
 																																							label: "content",
 																																							expr: &actionExpr{
-																																								pos: position{line: 2670, col: 18, offset: 84931},
+																																								pos: position{line: 2670, col: 18, offset: 85060},
 																																								run: (*parser).callonDocumentFragment1288,
 																																								expr: &zeroOrMoreExpr{
-																																									pos: position{line: 2670, col: 18, offset: 84931},
+																																									pos: position{line: 2670, col: 18, offset: 85060},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2670, col: 18, offset: 84931},
+																																										pos:        position{line: 2670, col: 18, offset: 85060},
 																																										val:        "[^|\\r\\n]",
 																																										chars:      []rune{'|', '\r', '\n'},
 																																										ignoreCase: false,
@@ -10011,30 +10011,30 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&zeroOrOneExpr{
-																																							pos: position{line: 2672, col: 12, offset: 84993},
+																																							pos: position{line: 2672, col: 12, offset: 85122},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2899, col: 8, offset: 91430},
+																																								pos: position{line: 2899, col: 8, offset: 91559},
 																																								alternatives: []interface{}{
 																																									&actionExpr{
-																																										pos: position{line: 2886, col: 12, offset: 91203},
+																																										pos: position{line: 2886, col: 12, offset: 91332},
 																																										run: (*parser).callonDocumentFragment1293,
 																																										expr: &choiceExpr{
-																																											pos: position{line: 2886, col: 13, offset: 91204},
+																																											pos: position{line: 2886, col: 13, offset: 91333},
 																																											alternatives: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2886, col: 13, offset: 91204},
+																																													pos:        position{line: 2886, col: 13, offset: 91333},
 																																													val:        "\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2886, col: 20, offset: 91211},
+																																													pos:        position{line: 2886, col: 20, offset: 91340},
 																																													val:        "\r\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2886, col: 29, offset: 91220},
+																																													pos:        position{line: 2886, col: 29, offset: 91349},
 																																													val:        "\r",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\"",
@@ -10043,9 +10043,9 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2896, col: 8, offset: 91380},
+																																										pos: position{line: 2896, col: 8, offset: 91509},
 																																										expr: &anyMatcher{
-																																											line: 2896, col: 9, offset: 91381,
+																																											line: 2896, col: 9, offset: 91510,
 																																										},
 																																									},
 																																								},
@@ -10073,18 +10073,18 @@ var g = &grammar{
 																									pos: position{line: 677, col: 14, offset: 21525},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2894, col: 11, offset: 91366},
+																											pos: position{line: 2894, col: 11, offset: 91495},
 																											expr: &anyMatcher{
-																												line: 2894, col: 13, offset: 91368,
+																												line: 2894, col: 13, offset: 91497,
 																											},
 																										},
 																										&zeroOrMoreExpr{
 																											pos: position{line: 677, col: 21, offset: 21532},
 																											expr: &actionExpr{
-																												pos: position{line: 2877, col: 10, offset: 91032},
+																												pos: position{line: 2877, col: 10, offset: 91161},
 																												run: (*parser).callonDocumentFragment1305,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2877, col: 10, offset: 91032},
+																													pos:        position{line: 2877, col: 10, offset: 91161},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -10093,28 +10093,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91430},
+																											pos: position{line: 2899, col: 8, offset: 91559},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91203},
+																													pos: position{line: 2886, col: 12, offset: 91332},
 																													run: (*parser).callonDocumentFragment1308,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91204},
+																														pos: position{line: 2886, col: 13, offset: 91333},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91204},
+																																pos:        position{line: 2886, col: 13, offset: 91333},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91211},
+																																pos:        position{line: 2886, col: 20, offset: 91340},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91220},
+																																pos:        position{line: 2886, col: 29, offset: 91349},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -10123,9 +10123,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91380},
+																													pos: position{line: 2896, col: 8, offset: 91509},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91381,
+																														line: 2896, col: 9, offset: 91510,
 																													},
 																												},
 																											},
@@ -10144,24 +10144,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2623, col: 22, offset: 83779},
+														pos: position{line: 2623, col: 22, offset: 83908},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2619, col: 19, offset: 83699},
+																pos: position{line: 2619, col: 19, offset: 83828},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2619, col: 19, offset: 83699},
+																		pos:        position{line: 2619, col: 19, offset: 83828},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2619, col: 26, offset: 83706},
+																		pos: position{line: 2619, col: 26, offset: 83835},
 																		expr: &actionExpr{
-																			pos: position{line: 2877, col: 10, offset: 91032},
+																			pos: position{line: 2877, col: 10, offset: 91161},
 																			run: (*parser).callonDocumentFragment1319,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 10, offset: 91032},
+																				pos:        position{line: 2877, col: 10, offset: 91161},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10170,28 +10170,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2899, col: 8, offset: 91430},
+																		pos: position{line: 2899, col: 8, offset: 91559},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91203},
+																				pos: position{line: 2886, col: 12, offset: 91332},
 																				run: (*parser).callonDocumentFragment1322,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91204},
+																					pos: position{line: 2886, col: 13, offset: 91333},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91204},
+																							pos:        position{line: 2886, col: 13, offset: 91333},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91211},
+																							pos:        position{line: 2886, col: 20, offset: 91340},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91220},
+																							pos:        position{line: 2886, col: 29, offset: 91349},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10200,9 +10200,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2896, col: 8, offset: 91380},
+																				pos: position{line: 2896, col: 8, offset: 91509},
 																				expr: &anyMatcher{
-																					line: 2896, col: 9, offset: 91381,
+																					line: 2896, col: 9, offset: 91510,
 																				},
 																			},
 																		},
@@ -10210,9 +10210,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2896, col: 8, offset: 91380},
+																pos: position{line: 2896, col: 8, offset: 91509},
 																expr: &anyMatcher{
-																	line: 2896, col: 9, offset: 91381,
+																	line: 2896, col: 9, offset: 91510,
 																},
 															},
 														},
@@ -10221,36 +10221,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2484, col: 22, offset: 79918},
+											pos: position{line: 2484, col: 22, offset: 80047},
 											run: (*parser).callonDocumentFragment1331,
 											expr: &seqExpr{
-												pos: position{line: 2484, col: 22, offset: 79918},
+												pos: position{line: 2484, col: 22, offset: 80047},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2489, col: 31, offset: 80139},
+														pos:        position{line: 2489, col: 31, offset: 80268},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2489, col: 36, offset: 80144},
+														pos: position{line: 2489, col: 36, offset: 80273},
 														expr: &litMatcher{
-															pos:        position{line: 2489, col: 37, offset: 80145},
+															pos:        position{line: 2489, col: 37, offset: 80274},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2484, col: 49, offset: 79945},
+														pos:   position{line: 2484, col: 49, offset: 80074},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2823, col: 13, offset: 89558},
+															pos: position{line: 2823, col: 13, offset: 89687},
 															run: (*parser).callonDocumentFragment1337,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2823, col: 13, offset: 89558},
+																pos: position{line: 2823, col: 13, offset: 89687},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2823, col: 13, offset: 89558},
+																	pos:        position{line: 2823, col: 13, offset: 89687},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10260,28 +10260,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2899, col: 8, offset: 91430},
+														pos: position{line: 2899, col: 8, offset: 91559},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2886, col: 12, offset: 91203},
+																pos: position{line: 2886, col: 12, offset: 91332},
 																run: (*parser).callonDocumentFragment1341,
 																expr: &choiceExpr{
-																	pos: position{line: 2886, col: 13, offset: 91204},
+																	pos: position{line: 2886, col: 13, offset: 91333},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 13, offset: 91204},
+																			pos:        position{line: 2886, col: 13, offset: 91333},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 20, offset: 91211},
+																			pos:        position{line: 2886, col: 20, offset: 91340},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 29, offset: 91220},
+																			pos:        position{line: 2886, col: 29, offset: 91349},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10290,9 +10290,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2896, col: 8, offset: 91380},
+																pos: position{line: 2896, col: 8, offset: 91509},
 																expr: &anyMatcher{
-																	line: 2896, col: 9, offset: 91381,
+																	line: 2896, col: 9, offset: 91510,
 																},
 															},
 														},
@@ -10328,10 +10328,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1238, col: 36, offset: 38341},
 																		expr: &actionExpr{
-																			pos: position{line: 2877, col: 10, offset: 91032},
+																			pos: position{line: 2877, col: 10, offset: 91161},
 																			run: (*parser).callonDocumentFragment1356,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 10, offset: 91032},
+																				pos:        position{line: 2877, col: 10, offset: 91161},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10340,28 +10340,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2899, col: 8, offset: 91430},
+																		pos: position{line: 2899, col: 8, offset: 91559},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91203},
+																				pos: position{line: 2886, col: 12, offset: 91332},
 																				run: (*parser).callonDocumentFragment1359,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91204},
+																					pos: position{line: 2886, col: 13, offset: 91333},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91204},
+																							pos:        position{line: 2886, col: 13, offset: 91333},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91211},
+																							pos:        position{line: 2886, col: 20, offset: 91340},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91220},
+																							pos:        position{line: 2886, col: 29, offset: 91349},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10370,9 +10370,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2896, col: 8, offset: 91380},
+																				pos: position{line: 2896, col: 8, offset: 91509},
 																				expr: &anyMatcher{
-																					line: 2896, col: 9, offset: 91381,
+																					line: 2896, col: 9, offset: 91510,
 																				},
 																			},
 																		},
@@ -10406,10 +10406,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 1238, col: 36, offset: 38341},
 																												expr: &actionExpr{
-																													pos: position{line: 2877, col: 10, offset: 91032},
+																													pos: position{line: 2877, col: 10, offset: 91161},
 																													run: (*parser).callonDocumentFragment1376,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2877, col: 10, offset: 91032},
+																														pos:        position{line: 2877, col: 10, offset: 91161},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -10418,28 +10418,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2899, col: 8, offset: 91430},
+																												pos: position{line: 2899, col: 8, offset: 91559},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2886, col: 12, offset: 91203},
+																														pos: position{line: 2886, col: 12, offset: 91332},
 																														run: (*parser).callonDocumentFragment1379,
 																														expr: &choiceExpr{
-																															pos: position{line: 2886, col: 13, offset: 91204},
+																															pos: position{line: 2886, col: 13, offset: 91333},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 13, offset: 91204},
+																																	pos:        position{line: 2886, col: 13, offset: 91333},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 20, offset: 91211},
+																																	pos:        position{line: 2886, col: 20, offset: 91340},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 29, offset: 91220},
+																																	pos:        position{line: 2886, col: 29, offset: 91349},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -10448,9 +10448,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2896, col: 8, offset: 91380},
+																														pos: position{line: 2896, col: 8, offset: 91509},
 																														expr: &anyMatcher{
-																															line: 2896, col: 9, offset: 91381,
+																															line: 2896, col: 9, offset: 91510,
 																														},
 																													},
 																												},
@@ -10477,10 +10477,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1238, col: 36, offset: 38341},
 																		expr: &actionExpr{
-																			pos: position{line: 2877, col: 10, offset: 91032},
+																			pos: position{line: 2877, col: 10, offset: 91161},
 																			run: (*parser).callonDocumentFragment1389,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 10, offset: 91032},
+																				pos:        position{line: 2877, col: 10, offset: 91161},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10489,28 +10489,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2899, col: 8, offset: 91430},
+																		pos: position{line: 2899, col: 8, offset: 91559},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91203},
+																				pos: position{line: 2886, col: 12, offset: 91332},
 																				run: (*parser).callonDocumentFragment1392,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91204},
+																					pos: position{line: 2886, col: 13, offset: 91333},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91204},
+																							pos:        position{line: 2886, col: 13, offset: 91333},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91211},
+																							pos:        position{line: 2886, col: 20, offset: 91340},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91220},
+																							pos:        position{line: 2886, col: 29, offset: 91349},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10519,9 +10519,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2896, col: 8, offset: 91380},
+																				pos: position{line: 2896, col: 8, offset: 91509},
 																				expr: &anyMatcher{
-																					line: 2896, col: 9, offset: 91381,
+																					line: 2896, col: 9, offset: 91510,
 																				},
 																			},
 																		},
@@ -10578,9 +10578,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2896, col: 8, offset: 91380},
+							pos: position{line: 2896, col: 8, offset: 91509},
 							expr: &anyMatcher{
-								line: 2896, col: 9, offset: 91381,
+								line: 2896, col: 9, offset: 91510,
 							},
 						},
 					},
@@ -10652,12 +10652,12 @@ var g = &grammar{
 										pos: position{line: 304, col: 9, offset: 9170},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2881, col: 11, offset: 91093},
+												pos: position{line: 2881, col: 11, offset: 91222},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2881, col: 11, offset: 91093},
+													pos: position{line: 2881, col: 11, offset: 91222},
 													expr: &charClassMatcher{
-														pos:        position{line: 2881, col: 11, offset: 91093},
+														pos:        position{line: 2881, col: 11, offset: 91222},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10681,10 +10681,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 309, col: 5, offset: 9350},
 							expr: &actionExpr{
-								pos: position{line: 2877, col: 10, offset: 91032},
+								pos: position{line: 2877, col: 10, offset: 91161},
 								run: (*parser).callonAttributeDeclaration21,
 								expr: &charClassMatcher{
-									pos:        position{line: 2877, col: 10, offset: 91032},
+									pos:        position{line: 2877, col: 10, offset: 91161},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -10693,28 +10693,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2899, col: 8, offset: 91430},
+							pos: position{line: 2899, col: 8, offset: 91559},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2886, col: 12, offset: 91203},
+									pos: position{line: 2886, col: 12, offset: 91332},
 									run: (*parser).callonAttributeDeclaration24,
 									expr: &choiceExpr{
-										pos: position{line: 2886, col: 13, offset: 91204},
+										pos: position{line: 2886, col: 13, offset: 91333},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2886, col: 13, offset: 91204},
+												pos:        position{line: 2886, col: 13, offset: 91333},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2886, col: 20, offset: 91211},
+												pos:        position{line: 2886, col: 20, offset: 91340},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2886, col: 29, offset: 91220},
+												pos:        position{line: 2886, col: 29, offset: 91349},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10723,9 +10723,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2896, col: 8, offset: 91380},
+									pos: position{line: 2896, col: 8, offset: 91509},
 									expr: &anyMatcher{
-										line: 2896, col: 9, offset: 91381,
+										line: 2896, col: 9, offset: 91510,
 									},
 								},
 							},
@@ -10771,10 +10771,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 324, col: 14, offset: 9848},
 												expr: &actionExpr{
-													pos: position{line: 2877, col: 10, offset: 91032},
+													pos: position{line: 2877, col: 10, offset: 91161},
 													run: (*parser).callonAttributeDeclarationValue11,
 													expr: &charClassMatcher{
-														pos:        position{line: 2877, col: 10, offset: 91032},
+														pos:        position{line: 2877, col: 10, offset: 91161},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10783,25 +10783,25 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 2886, col: 12, offset: 91203},
+												pos: position{line: 2886, col: 12, offset: 91332},
 												run: (*parser).callonAttributeDeclarationValue13,
 												expr: &choiceExpr{
-													pos: position{line: 2886, col: 13, offset: 91204},
+													pos: position{line: 2886, col: 13, offset: 91333},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2886, col: 13, offset: 91204},
+															pos:        position{line: 2886, col: 13, offset: 91333},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2886, col: 20, offset: 91211},
+															pos:        position{line: 2886, col: 20, offset: 91340},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2886, col: 29, offset: 91220},
+															pos:        position{line: 2886, col: 29, offset: 91349},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10812,10 +10812,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 325, col: 9, offset: 9872},
 												expr: &actionExpr{
-													pos: position{line: 2877, col: 10, offset: 91032},
+													pos: position{line: 2877, col: 10, offset: 91161},
 													run: (*parser).callonAttributeDeclarationValue19,
 													expr: &charClassMatcher{
-														pos:        position{line: 2877, col: 10, offset: 91032},
+														pos:        position{line: 2877, col: 10, offset: 91161},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10885,10 +10885,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 343, col: 13, offset: 10417},
 										expr: &actionExpr{
-											pos: position{line: 2877, col: 10, offset: 91032},
+											pos: position{line: 2877, col: 10, offset: 91161},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2877, col: 10, offset: 91032},
+												pos:        position{line: 2877, col: 10, offset: 91161},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10897,28 +10897,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2899, col: 8, offset: 91430},
+										pos: position{line: 2899, col: 8, offset: 91559},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2886, col: 12, offset: 91203},
+												pos: position{line: 2886, col: 12, offset: 91332},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2886, col: 13, offset: 91204},
+													pos: position{line: 2886, col: 13, offset: 91333},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2886, col: 13, offset: 91204},
+															pos:        position{line: 2886, col: 13, offset: 91333},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2886, col: 20, offset: 91211},
+															pos:        position{line: 2886, col: 20, offset: 91340},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2886, col: 29, offset: 91220},
+															pos:        position{line: 2886, col: 29, offset: 91349},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10927,9 +10927,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2896, col: 8, offset: 91380},
+												pos: position{line: 2896, col: 8, offset: 91509},
 												expr: &anyMatcher{
-													line: 2896, col: 9, offset: 91381,
+													line: 2896, col: 9, offset: 91510,
 												},
 											},
 										},
@@ -10962,23 +10962,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2471, col: 5, offset: 79464},
+										pos: position{line: 2471, col: 5, offset: 79593},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2471, col: 5, offset: 79464},
+											pos: position{line: 2471, col: 5, offset: 79593},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2471, col: 5, offset: 79464},
+													pos: position{line: 2471, col: 5, offset: 79593},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2474, col: 5, offset: 79540},
+													pos:   position{line: 2474, col: 5, offset: 79669},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2475, col: 9, offset: 79558},
+														pos: position{line: 2475, col: 9, offset: 79687},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2475, col: 10, offset: 79559},
+															pos:        position{line: 2475, col: 10, offset: 79688},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -10990,10 +10990,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2877, col: 10, offset: 91032},
+										pos: position{line: 2877, col: 10, offset: 91161},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2877, col: 10, offset: 91032},
+											pos:        position{line: 2877, col: 10, offset: 91161},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -11834,10 +11834,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 371, col: 35, offset: 11426},
 												expr: &actionExpr{
-													pos: position{line: 2877, col: 10, offset: 91032},
+													pos: position{line: 2877, col: 10, offset: 91161},
 													run: (*parser).callonBlockAttributes101,
 													expr: &charClassMatcher{
-														pos:        position{line: 2877, col: 10, offset: 91032},
+														pos:        position{line: 2877, col: 10, offset: 91161},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11846,28 +11846,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2899, col: 8, offset: 91430},
+												pos: position{line: 2899, col: 8, offset: 91559},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2886, col: 12, offset: 91203},
+														pos: position{line: 2886, col: 12, offset: 91332},
 														run: (*parser).callonBlockAttributes104,
 														expr: &choiceExpr{
-															pos: position{line: 2886, col: 13, offset: 91204},
+															pos: position{line: 2886, col: 13, offset: 91333},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2886, col: 13, offset: 91204},
+																	pos:        position{line: 2886, col: 13, offset: 91333},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2886, col: 20, offset: 91211},
+																	pos:        position{line: 2886, col: 20, offset: 91340},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2886, col: 29, offset: 91220},
+																	pos:        position{line: 2886, col: 29, offset: 91349},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11876,9 +11876,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2896, col: 8, offset: 91380},
+														pos: position{line: 2896, col: 8, offset: 91509},
 														expr: &anyMatcher{
-															line: 2896, col: 9, offset: 91381,
+															line: 2896, col: 9, offset: 91510,
 														},
 													},
 												},
@@ -11892,18 +11892,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21525},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2894, col: 11, offset: 91366},
+																pos: position{line: 2894, col: 11, offset: 91495},
 																expr: &anyMatcher{
-																	line: 2894, col: 13, offset: 91368,
+																	line: 2894, col: 13, offset: 91497,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21532},
 																expr: &actionExpr{
-																	pos: position{line: 2877, col: 10, offset: 91032},
+																	pos: position{line: 2877, col: 10, offset: 91161},
 																	run: (*parser).callonBlockAttributes117,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2877, col: 10, offset: 91032},
+																		pos:        position{line: 2877, col: 10, offset: 91161},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -11912,28 +11912,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2899, col: 8, offset: 91430},
+																pos: position{line: 2899, col: 8, offset: 91559},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2886, col: 12, offset: 91203},
+																		pos: position{line: 2886, col: 12, offset: 91332},
 																		run: (*parser).callonBlockAttributes120,
 																		expr: &choiceExpr{
-																			pos: position{line: 2886, col: 13, offset: 91204},
+																			pos: position{line: 2886, col: 13, offset: 91333},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 13, offset: 91204},
+																					pos:        position{line: 2886, col: 13, offset: 91333},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 20, offset: 91211},
+																					pos:        position{line: 2886, col: 20, offset: 91340},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 29, offset: 91220},
+																					pos:        position{line: 2886, col: 29, offset: 91349},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -11942,9 +11942,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2896, col: 8, offset: 91380},
+																		pos: position{line: 2896, col: 8, offset: 91509},
 																		expr: &anyMatcher{
-																			line: 2896, col: 9, offset: 91381,
+																			line: 2896, col: 9, offset: 91510,
 																		},
 																	},
 																},
@@ -11996,12 +11996,12 @@ var g = &grammar{
 																		pos: position{line: 425, col: 9, offset: 13070},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2771, col: 14, offset: 88180},
+																				pos: position{line: 2771, col: 14, offset: 88309},
 																				run: (*parser).callonBlockAttributes138,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2771, col: 14, offset: 88180},
+																					pos: position{line: 2771, col: 14, offset: 88309},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2771, col: 14, offset: 88180},
+																						pos:        position{line: 2771, col: 14, offset: 88309},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -12010,10 +12010,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2877, col: 10, offset: 91032},
+																				pos: position{line: 2877, col: 10, offset: 91161},
 																				run: (*parser).callonBlockAttributes141,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 10, offset: 91032},
+																					pos:        position{line: 2877, col: 10, offset: 91161},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -12021,27 +12021,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2794, col: 5, offset: 88686},
+																				pos: position{line: 2794, col: 5, offset: 88815},
 																				run: (*parser).callonBlockAttributes143,
 																				expr: &choiceExpr{
-																					pos: position{line: 2795, col: 9, offset: 88696},
+																					pos: position{line: 2795, col: 9, offset: 88825},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2795, col: 10, offset: 88697},
+																							pos:        position{line: 2795, col: 10, offset: 88826},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2797, col: 13, offset: 88794},
+																							pos: position{line: 2797, col: 13, offset: 88923},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2797, col: 13, offset: 88794},
+																									pos: position{line: 2797, col: 13, offset: 88923},
 																									run: (*parser).callonBlockAttributes147,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2800, col: 13, offset: 88894},
+																									pos:        position{line: 2800, col: 13, offset: 89023},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -12049,20 +12049,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2800, col: 19, offset: 88900},
+																							pos:        position{line: 2800, col: 19, offset: 89029},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2803, col: 13, offset: 88938},
+																							pos: position{line: 2803, col: 13, offset: 89067},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2803, col: 13, offset: 88938},
+																									pos: position{line: 2803, col: 13, offset: 89067},
 																									run: (*parser).callonBlockAttributes151,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2806, col: 14, offset: 89031},
+																									pos:        position{line: 2806, col: 14, offset: 89160},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -12071,18 +12071,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2808, col: 12, offset: 89075},
+																							pos: position{line: 2808, col: 12, offset: 89204},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2808, col: 12, offset: 89075},
+																									pos:        position{line: 2808, col: 12, offset: 89204},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2808, col: 16, offset: 89079},
+																									pos: position{line: 2808, col: 16, offset: 89208},
 																									expr: &litMatcher{
-																										pos:        position{line: 2808, col: 17, offset: 89080},
+																										pos:        position{line: 2808, col: 17, offset: 89209},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12418,10 +12418,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2816, col: 12, offset: 89340},
+																				pos: position{line: 2816, col: 12, offset: 89469},
 																				run: (*parser).callonBlockAttributes221,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2816, col: 12, offset: 89340},
+																					pos:        position{line: 2816, col: 12, offset: 89469},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12439,10 +12439,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 375, col: 35, offset: 11581},
 												expr: &actionExpr{
-													pos: position{line: 2877, col: 10, offset: 91032},
+													pos: position{line: 2877, col: 10, offset: 91161},
 													run: (*parser).callonBlockAttributes224,
 													expr: &charClassMatcher{
-														pos:        position{line: 2877, col: 10, offset: 91032},
+														pos:        position{line: 2877, col: 10, offset: 91161},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12451,28 +12451,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2899, col: 8, offset: 91430},
+												pos: position{line: 2899, col: 8, offset: 91559},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2886, col: 12, offset: 91203},
+														pos: position{line: 2886, col: 12, offset: 91332},
 														run: (*parser).callonBlockAttributes227,
 														expr: &choiceExpr{
-															pos: position{line: 2886, col: 13, offset: 91204},
+															pos: position{line: 2886, col: 13, offset: 91333},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2886, col: 13, offset: 91204},
+																	pos:        position{line: 2886, col: 13, offset: 91333},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2886, col: 20, offset: 91211},
+																	pos:        position{line: 2886, col: 20, offset: 91340},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2886, col: 29, offset: 91220},
+																	pos:        position{line: 2886, col: 29, offset: 91349},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12481,9 +12481,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2896, col: 8, offset: 91380},
+														pos: position{line: 2896, col: 8, offset: 91509},
 														expr: &anyMatcher{
-															line: 2896, col: 9, offset: 91381,
+															line: 2896, col: 9, offset: 91510,
 														},
 													},
 												},
@@ -12497,18 +12497,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21525},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2894, col: 11, offset: 91366},
+																pos: position{line: 2894, col: 11, offset: 91495},
 																expr: &anyMatcher{
-																	line: 2894, col: 13, offset: 91368,
+																	line: 2894, col: 13, offset: 91497,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21532},
 																expr: &actionExpr{
-																	pos: position{line: 2877, col: 10, offset: 91032},
+																	pos: position{line: 2877, col: 10, offset: 91161},
 																	run: (*parser).callonBlockAttributes240,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2877, col: 10, offset: 91032},
+																		pos:        position{line: 2877, col: 10, offset: 91161},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12517,28 +12517,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2899, col: 8, offset: 91430},
+																pos: position{line: 2899, col: 8, offset: 91559},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2886, col: 12, offset: 91203},
+																		pos: position{line: 2886, col: 12, offset: 91332},
 																		run: (*parser).callonBlockAttributes243,
 																		expr: &choiceExpr{
-																			pos: position{line: 2886, col: 13, offset: 91204},
+																			pos: position{line: 2886, col: 13, offset: 91333},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 13, offset: 91204},
+																					pos:        position{line: 2886, col: 13, offset: 91333},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 20, offset: 91211},
+																					pos:        position{line: 2886, col: 20, offset: 91340},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 29, offset: 91220},
+																					pos:        position{line: 2886, col: 29, offset: 91349},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12547,9 +12547,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2896, col: 8, offset: 91380},
+																		pos: position{line: 2896, col: 8, offset: 91509},
 																		expr: &anyMatcher{
-																			line: 2896, col: 9, offset: 91381,
+																			line: 2896, col: 9, offset: 91510,
 																		},
 																	},
 																},
@@ -12571,10 +12571,10 @@ var g = &grammar{
 												pos:   position{line: 379, col: 12, offset: 11682},
 												label: "start",
 												expr: &actionExpr{
-													pos: position{line: 2902, col: 16, offset: 91554},
+													pos: position{line: 2902, col: 16, offset: 91683},
 													run: (*parser).callonBlockAttributes253,
 													expr: &litMatcher{
-														pos:        position{line: 2902, col: 16, offset: 91554},
+														pos:        position{line: 2902, col: 16, offset: 91683},
 														val:        "",
 														ignoreCase: false,
 														want:       "\"\"",
@@ -12592,10 +12592,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 379, col: 64, offset: 11734},
 												expr: &actionExpr{
-													pos: position{line: 2877, col: 10, offset: 91032},
+													pos: position{line: 2877, col: 10, offset: 91161},
 													run: (*parser).callonBlockAttributes258,
 													expr: &charClassMatcher{
-														pos:        position{line: 2877, col: 10, offset: 91032},
+														pos:        position{line: 2877, col: 10, offset: 91161},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12607,10 +12607,10 @@ var g = &grammar{
 												pos:   position{line: 379, col: 71, offset: 11741},
 												label: "end",
 												expr: &actionExpr{
-													pos: position{line: 2902, col: 16, offset: 91554},
+													pos: position{line: 2902, col: 16, offset: 91683},
 													run: (*parser).callonBlockAttributes261,
 													expr: &litMatcher{
-														pos:        position{line: 2902, col: 16, offset: 91554},
+														pos:        position{line: 2902, col: 16, offset: 91683},
 														val:        "",
 														ignoreCase: false,
 														want:       "\"\"",
@@ -12622,28 +12622,28 @@ var g = &grammar{
 												run: (*parser).callonBlockAttributes263,
 											},
 											&choiceExpr{
-												pos: position{line: 2899, col: 8, offset: 91430},
+												pos: position{line: 2899, col: 8, offset: 91559},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2886, col: 12, offset: 91203},
+														pos: position{line: 2886, col: 12, offset: 91332},
 														run: (*parser).callonBlockAttributes265,
 														expr: &choiceExpr{
-															pos: position{line: 2886, col: 13, offset: 91204},
+															pos: position{line: 2886, col: 13, offset: 91333},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2886, col: 13, offset: 91204},
+																	pos:        position{line: 2886, col: 13, offset: 91333},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2886, col: 20, offset: 91211},
+																	pos:        position{line: 2886, col: 20, offset: 91340},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2886, col: 29, offset: 91220},
+																	pos:        position{line: 2886, col: 29, offset: 91349},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12652,9 +12652,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2896, col: 8, offset: 91380},
+														pos: position{line: 2896, col: 8, offset: 91509},
 														expr: &anyMatcher{
-															line: 2896, col: 9, offset: 91381,
+															line: 2896, col: 9, offset: 91510,
 														},
 													},
 												},
@@ -12668,18 +12668,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21525},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2894, col: 11, offset: 91366},
+																pos: position{line: 2894, col: 11, offset: 91495},
 																expr: &anyMatcher{
-																	line: 2894, col: 13, offset: 91368,
+																	line: 2894, col: 13, offset: 91497,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21532},
 																expr: &actionExpr{
-																	pos: position{line: 2877, col: 10, offset: 91032},
+																	pos: position{line: 2877, col: 10, offset: 91161},
 																	run: (*parser).callonBlockAttributes278,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2877, col: 10, offset: 91032},
+																		pos:        position{line: 2877, col: 10, offset: 91161},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12688,28 +12688,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2899, col: 8, offset: 91430},
+																pos: position{line: 2899, col: 8, offset: 91559},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2886, col: 12, offset: 91203},
+																		pos: position{line: 2886, col: 12, offset: 91332},
 																		run: (*parser).callonBlockAttributes281,
 																		expr: &choiceExpr{
-																			pos: position{line: 2886, col: 13, offset: 91204},
+																			pos: position{line: 2886, col: 13, offset: 91333},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 13, offset: 91204},
+																					pos:        position{line: 2886, col: 13, offset: 91333},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 20, offset: 91211},
+																					pos:        position{line: 2886, col: 20, offset: 91340},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 29, offset: 91220},
+																					pos:        position{line: 2886, col: 29, offset: 91349},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12718,9 +12718,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2896, col: 8, offset: 91380},
+																		pos: position{line: 2896, col: 8, offset: 91509},
 																		expr: &anyMatcher{
-																			line: 2896, col: 9, offset: 91381,
+																			line: 2896, col: 9, offset: 91510,
 																		},
 																	},
 																},
@@ -12968,10 +12968,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 466, col: 13, offset: 14565},
 										expr: &actionExpr{
-											pos: position{line: 2877, col: 10, offset: 91032},
+											pos: position{line: 2877, col: 10, offset: 91161},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2877, col: 10, offset: 91032},
+												pos:        position{line: 2877, col: 10, offset: 91161},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13503,10 +13503,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 518, col: 9, offset: 16147},
 													expr: &actionExpr{
-														pos: position{line: 2877, col: 10, offset: 91032},
+														pos: position{line: 2877, col: 10, offset: 91161},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2877, col: 10, offset: 91032},
+															pos:        position{line: 2877, col: 10, offset: 91161},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13567,10 +13567,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 524, col: 34, offset: 16290},
 														expr: &actionExpr{
-															pos: position{line: 2877, col: 10, offset: 91032},
+															pos: position{line: 2877, col: 10, offset: 91161},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2877, col: 10, offset: 91032},
+																pos:        position{line: 2877, col: 10, offset: 91161},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13610,10 +13610,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 529, col: 13, offset: 16454},
 												expr: &actionExpr{
-													pos: position{line: 2877, col: 10, offset: 91032},
+													pos: position{line: 2877, col: 10, offset: 91161},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2877, col: 10, offset: 91032},
+														pos:        position{line: 2877, col: 10, offset: 91161},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13636,10 +13636,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 529, col: 26, offset: 16467},
 																expr: &actionExpr{
-																	pos: position{line: 2877, col: 10, offset: 91032},
+																	pos: position{line: 2877, col: 10, offset: 91161},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2877, col: 10, offset: 91032},
+																		pos:        position{line: 2877, col: 10, offset: 91161},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13694,10 +13694,10 @@ var g = &grammar{
 										&notExpr{
 											pos: position{line: 549, col: 22, offset: 17114},
 											expr: &actionExpr{
-												pos: position{line: 2877, col: 10, offset: 91032},
+												pos: position{line: 2877, col: 10, offset: 91161},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2877, col: 10, offset: 91032},
+													pos:        position{line: 2877, col: 10, offset: 91161},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13728,10 +13728,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 542, col: 9, offset: 16859},
 							expr: &actionExpr{
-								pos: position{line: 2877, col: 10, offset: 91032},
+								pos: position{line: 2877, col: 10, offset: 91161},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2877, col: 10, offset: 91032},
+									pos:        position{line: 2877, col: 10, offset: 91161},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13761,10 +13761,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 543, col: 33, offset: 16899},
 										expr: &actionExpr{
-											pos: position{line: 2877, col: 10, offset: 91032},
+											pos: position{line: 2877, col: 10, offset: 91161},
 											run: (*parser).callonNamedAttribute21,
 											expr: &charClassMatcher{
-												pos:        position{line: 2877, col: 10, offset: 91032},
+												pos:        position{line: 2877, col: 10, offset: 91161},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13819,10 +13819,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 559, col: 9, offset: 17331},
 											expr: &actionExpr{
-												pos: position{line: 2877, col: 10, offset: 91032},
+												pos: position{line: 2877, col: 10, offset: 91161},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2877, col: 10, offset: 91032},
+													pos:        position{line: 2877, col: 10, offset: 91161},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13901,12 +13901,12 @@ var g = &grammar{
 							pos: position{line: 572, col: 9, offset: 17648},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2771, col: 14, offset: 88180},
+									pos: position{line: 2771, col: 14, offset: 88309},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2771, col: 14, offset: 88180},
+										pos: position{line: 2771, col: 14, offset: 88309},
 										expr: &charClassMatcher{
-											pos:        position{line: 2771, col: 14, offset: 88180},
+											pos:        position{line: 2771, col: 14, offset: 88309},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -13915,10 +13915,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2877, col: 10, offset: 91032},
+									pos: position{line: 2877, col: 10, offset: 91161},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2877, col: 10, offset: 91032},
+										pos:        position{line: 2877, col: 10, offset: 91161},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14375,10 +14375,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 592, col: 14, offset: 18388},
 											expr: &actionExpr{
-												pos: position{line: 2877, col: 10, offset: 91032},
+												pos: position{line: 2877, col: 10, offset: 91161},
 												run: (*parser).callonDoubleQuotedAttributeValue13,
 												expr: &charClassMatcher{
-													pos:        position{line: 2877, col: 10, offset: 91032},
+													pos:        position{line: 2877, col: 10, offset: 91161},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14415,12 +14415,12 @@ var g = &grammar{
 							pos: position{line: 598, col: 9, offset: 18499},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2771, col: 14, offset: 88180},
+									pos: position{line: 2771, col: 14, offset: 88309},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2771, col: 14, offset: 88180},
+										pos: position{line: 2771, col: 14, offset: 88309},
 										expr: &charClassMatcher{
-											pos:        position{line: 2771, col: 14, offset: 88180},
+											pos:        position{line: 2771, col: 14, offset: 88309},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14429,10 +14429,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2877, col: 10, offset: 91032},
+									pos: position{line: 2877, col: 10, offset: 91161},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2877, col: 10, offset: 91032},
+										pos:        position{line: 2877, col: 10, offset: 91161},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14859,10 +14859,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 619, col: 5, offset: 19355},
 							expr: &actionExpr{
-								pos: position{line: 2877, col: 10, offset: 91032},
+								pos: position{line: 2877, col: 10, offset: 91161},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2877, col: 10, offset: 91032},
+									pos:        position{line: 2877, col: 10, offset: 91161},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -15252,10 +15252,10 @@ var g = &grammar{
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2877, col: 10, offset: 91032},
+											pos: position{line: 2877, col: 10, offset: 91161},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2877, col: 10, offset: 91032},
+												pos:        position{line: 2877, col: 10, offset: 91161},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -15306,12 +15306,12 @@ var g = &grammar{
 									pos:   position{line: 686, col: 32, offset: 21885},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2862, col: 7, offset: 90684},
+										pos: position{line: 2862, col: 7, offset: 90813},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2862, col: 7, offset: 90684},
+											pos: position{line: 2862, col: 7, offset: 90813},
 											expr: &charClassMatcher{
-												pos:        position{line: 2862, col: 7, offset: 90684},
+												pos:        position{line: 2862, col: 7, offset: 90813},
 												val:        "[^[]<>,\\r\\n]",
 												chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 												ignoreCase: false,
@@ -15323,10 +15323,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 686, col: 40, offset: 21893},
 									expr: &actionExpr{
-										pos: position{line: 2877, col: 10, offset: 91032},
+										pos: position{line: 2877, col: 10, offset: 91161},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2877, col: 10, offset: 91032},
+											pos:        position{line: 2877, col: 10, offset: 91161},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15343,10 +15343,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 686, col: 51, offset: 21904},
 									expr: &actionExpr{
-										pos: position{line: 2877, col: 10, offset: 91032},
+										pos: position{line: 2877, col: 10, offset: 91161},
 										run: (*parser).callonCrossReference14,
 										expr: &charClassMatcher{
-											pos:        position{line: 2877, col: 10, offset: 91032},
+											pos:        position{line: 2877, col: 10, offset: 91161},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15521,12 +15521,12 @@ var g = &grammar{
 									pos:   position{line: 688, col: 14, offset: 22017},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2862, col: 7, offset: 90684},
+										pos: position{line: 2862, col: 7, offset: 90813},
 										run: (*parser).callonCrossReference49,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2862, col: 7, offset: 90684},
+											pos: position{line: 2862, col: 7, offset: 90813},
 											expr: &charClassMatcher{
-												pos:        position{line: 2862, col: 7, offset: 90684},
+												pos:        position{line: 2862, col: 7, offset: 90813},
 												val:        "[^[]<>,\\r\\n]",
 												chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 												ignoreCase: false,
@@ -15570,41 +15570,41 @@ var g = &grammar{
 							pos:   position{line: 692, col: 35, offset: 22130},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2831, col: 17, offset: 89695},
+								pos: position{line: 2831, col: 17, offset: 89824},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2831, col: 17, offset: 89695},
+									pos:   position{line: 2831, col: 17, offset: 89824},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2848, col: 5, offset: 90149},
+										pos: position{line: 2848, col: 5, offset: 90278},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2848, col: 5, offset: 90149},
+											pos:   position{line: 2848, col: 5, offset: 90278},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2848, col: 14, offset: 90158},
+												pos: position{line: 2848, col: 14, offset: 90287},
 												expr: &choiceExpr{
-													pos: position{line: 2849, col: 9, offset: 90168},
+													pos: position{line: 2849, col: 9, offset: 90297},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2849, col: 9, offset: 90168},
+															pos: position{line: 2849, col: 9, offset: 90297},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2849, col: 9, offset: 90168},
+																pos: position{line: 2849, col: 9, offset: 90297},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2849, col: 9, offset: 90168},
+																		pos: position{line: 2849, col: 9, offset: 90297},
 																		expr: &litMatcher{
-																			pos:        position{line: 2849, col: 10, offset: 90169},
+																			pos:        position{line: 2849, col: 10, offset: 90298},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2850, col: 9, offset: 90197},
+																		pos: position{line: 2850, col: 9, offset: 90326},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2850, col: 10, offset: 90198},
+																			pos:        position{line: 2850, col: 10, offset: 90327},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -15615,27 +15615,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2853, col: 11, offset: 90410},
+															pos: position{line: 2853, col: 11, offset: 90539},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2853, col: 11, offset: 90410},
+																	pos:        position{line: 2853, col: 11, offset: 90539},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2853, col: 19, offset: 90418},
+																	pos: position{line: 2853, col: 19, offset: 90547},
 																	expr: &seqExpr{
-																		pos: position{line: 2853, col: 21, offset: 90420},
+																		pos: position{line: 2853, col: 21, offset: 90549},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2853, col: 21, offset: 90420},
+																				pos: position{line: 2853, col: 21, offset: 90549},
 																				expr: &actionExpr{
-																					pos: position{line: 2877, col: 10, offset: 91032},
+																					pos: position{line: 2877, col: 10, offset: 91161},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2877, col: 10, offset: 91032},
+																						pos:        position{line: 2877, col: 10, offset: 91161},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -15644,11 +15644,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2853, col: 28, offset: 90427},
+																				pos: position{line: 2853, col: 28, offset: 90556},
 																				expr: &notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91380},
+																					pos: position{line: 2896, col: 8, offset: 91509},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91381,
+																						line: 2896, col: 9, offset: 91510,
 																					},
 																				},
 																			},
@@ -16047,10 +16047,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2856, col: 11, offset: 90547},
+															pos: position{line: 2856, col: 11, offset: 90676},
 															run: (*parser).callonExternalCrossReference105,
 															expr: &litMatcher{
-																pos:        position{line: 2856, col: 11, offset: 90547},
+																pos:        position{line: 2856, col: 11, offset: 90676},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -16095,12 +16095,12 @@ var g = &grammar{
 							pos:   position{line: 989, col: 11, offset: 30847},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2827, col: 14, offset: 89625},
+								pos: position{line: 2827, col: 14, offset: 89754},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2827, col: 14, offset: 89625},
+									pos: position{line: 2827, col: 14, offset: 89754},
 									expr: &charClassMatcher{
-										pos:        position{line: 2827, col: 14, offset: 89625},
+										pos:        position{line: 2827, col: 14, offset: 89754},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -16110,28 +16110,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2899, col: 8, offset: 91430},
+							pos: position{line: 2899, col: 8, offset: 91559},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2886, col: 12, offset: 91203},
+									pos: position{line: 2886, col: 12, offset: 91332},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2886, col: 13, offset: 91204},
+										pos: position{line: 2886, col: 13, offset: 91333},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2886, col: 13, offset: 91204},
+												pos:        position{line: 2886, col: 13, offset: 91333},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2886, col: 20, offset: 91211},
+												pos:        position{line: 2886, col: 20, offset: 91340},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2886, col: 29, offset: 91220},
+												pos:        position{line: 2886, col: 29, offset: 91349},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -16140,9 +16140,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2896, col: 8, offset: 91380},
+									pos: position{line: 2896, col: 8, offset: 91509},
 									expr: &anyMatcher{
-										line: 2896, col: 9, offset: 91381,
+										line: 2896, col: 9, offset: 91510,
 									},
 								},
 							},
@@ -16170,36 +16170,36 @@ var g = &grammar{
 								pos: position{line: 1104, col: 6, offset: 33849},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2484, col: 22, offset: 79918},
+										pos: position{line: 2484, col: 22, offset: 80047},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2484, col: 22, offset: 79918},
+											pos: position{line: 2484, col: 22, offset: 80047},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2489, col: 31, offset: 80139},
+													pos:        position{line: 2489, col: 31, offset: 80268},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2489, col: 36, offset: 80144},
+													pos: position{line: 2489, col: 36, offset: 80273},
 													expr: &litMatcher{
-														pos:        position{line: 2489, col: 37, offset: 80145},
+														pos:        position{line: 2489, col: 37, offset: 80274},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2484, col: 49, offset: 79945},
+													pos:   position{line: 2484, col: 49, offset: 80074},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2823, col: 13, offset: 89558},
+														pos: position{line: 2823, col: 13, offset: 89687},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2823, col: 13, offset: 89558},
+															pos: position{line: 2823, col: 13, offset: 89687},
 															expr: &charClassMatcher{
-																pos:        position{line: 2823, col: 13, offset: 89558},
+																pos:        position{line: 2823, col: 13, offset: 89687},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16209,28 +16209,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2899, col: 8, offset: 91430},
+													pos: position{line: 2899, col: 8, offset: 91559},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2886, col: 12, offset: 91203},
+															pos: position{line: 2886, col: 12, offset: 91332},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2886, col: 13, offset: 91204},
+																pos: position{line: 2886, col: 13, offset: 91333},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 13, offset: 91204},
+																		pos:        position{line: 2886, col: 13, offset: 91333},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 20, offset: 91211},
+																		pos:        position{line: 2886, col: 20, offset: 91340},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 29, offset: 91220},
+																		pos:        position{line: 2886, col: 29, offset: 91349},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16239,9 +16239,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2896, col: 8, offset: 91380},
+															pos: position{line: 2896, col: 8, offset: 91509},
 															expr: &anyMatcher{
-																line: 2896, col: 9, offset: 91381,
+																line: 2896, col: 9, offset: 91510,
 															},
 														},
 													},
@@ -16292,10 +16292,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 742, col: 8, offset: 23722},
 																expr: &actionExpr{
-																	pos: position{line: 2877, col: 10, offset: 91032},
+																	pos: position{line: 2877, col: 10, offset: 91161},
 																	run: (*parser).callonDocumentHeader34,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2877, col: 10, offset: 91032},
+																		pos:        position{line: 2877, col: 10, offset: 91161},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16304,28 +16304,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2899, col: 8, offset: 91430},
+																pos: position{line: 2899, col: 8, offset: 91559},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2886, col: 12, offset: 91203},
+																		pos: position{line: 2886, col: 12, offset: 91332},
 																		run: (*parser).callonDocumentHeader37,
 																		expr: &choiceExpr{
-																			pos: position{line: 2886, col: 13, offset: 91204},
+																			pos: position{line: 2886, col: 13, offset: 91333},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 13, offset: 91204},
+																					pos:        position{line: 2886, col: 13, offset: 91333},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 20, offset: 91211},
+																					pos:        position{line: 2886, col: 20, offset: 91340},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 29, offset: 91220},
+																					pos:        position{line: 2886, col: 29, offset: 91349},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -16334,9 +16334,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2896, col: 8, offset: 91380},
+																		pos: position{line: 2896, col: 8, offset: 91509},
 																		expr: &anyMatcher{
-																			line: 2896, col: 9, offset: 91381,
+																			line: 2896, col: 9, offset: 91510,
 																		},
 																	},
 																},
@@ -16397,10 +16397,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 742, col: 8, offset: 23722},
 																								expr: &actionExpr{
-																									pos: position{line: 2877, col: 10, offset: 91032},
+																									pos: position{line: 2877, col: 10, offset: 91161},
 																									run: (*parser).callonDocumentHeader59,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 10, offset: 91032},
+																										pos:        position{line: 2877, col: 10, offset: 91161},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -16409,28 +16409,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2899, col: 8, offset: 91430},
+																								pos: position{line: 2899, col: 8, offset: 91559},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2886, col: 12, offset: 91203},
+																										pos: position{line: 2886, col: 12, offset: 91332},
 																										run: (*parser).callonDocumentHeader62,
 																										expr: &choiceExpr{
-																											pos: position{line: 2886, col: 13, offset: 91204},
+																											pos: position{line: 2886, col: 13, offset: 91333},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 13, offset: 91204},
+																													pos:        position{line: 2886, col: 13, offset: 91333},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 20, offset: 91211},
+																													pos:        position{line: 2886, col: 20, offset: 91340},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 29, offset: 91220},
+																													pos:        position{line: 2886, col: 29, offset: 91349},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -16439,9 +16439,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2896, col: 8, offset: 91380},
+																										pos: position{line: 2896, col: 8, offset: 91509},
 																										expr: &anyMatcher{
-																											line: 2896, col: 9, offset: 91381,
+																											line: 2896, col: 9, offset: 91510,
 																										},
 																									},
 																								},
@@ -16450,9 +16450,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91380},
+																					pos: position{line: 2896, col: 8, offset: 91509},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91381,
+																						line: 2896, col: 9, offset: 91510,
 																					},
 																				},
 																			},
@@ -16468,21 +16468,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26129},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2894, col: 11, offset: 91366},
+																						pos: position{line: 2894, col: 11, offset: 91495},
 																						expr: &anyMatcher{
-																							line: 2894, col: 13, offset: 91368,
+																							line: 2894, col: 13, offset: 91497,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26204},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2823, col: 13, offset: 89558},
+																							pos: position{line: 2823, col: 13, offset: 89687},
 																							run: (*parser).callonDocumentHeader77,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2823, col: 13, offset: 89558},
+																								pos: position{line: 2823, col: 13, offset: 89687},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2823, col: 13, offset: 89558},
+																									pos:        position{line: 2823, col: 13, offset: 89687},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16492,28 +16492,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91430},
+																						pos: position{line: 2899, col: 8, offset: 91559},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91203},
+																								pos: position{line: 2886, col: 12, offset: 91332},
 																								run: (*parser).callonDocumentHeader81,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91204},
+																									pos: position{line: 2886, col: 13, offset: 91333},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91204},
+																											pos:        position{line: 2886, col: 13, offset: 91333},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91211},
+																											pos:        position{line: 2886, col: 20, offset: 91340},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91220},
+																											pos:        position{line: 2886, col: 29, offset: 91349},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16522,9 +16522,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91380},
+																								pos: position{line: 2896, col: 8, offset: 91509},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91381,
+																									line: 2896, col: 9, offset: 91510,
 																								},
 																							},
 																						},
@@ -16580,10 +16580,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 742, col: 8, offset: 23722},
 																			expr: &actionExpr{
-																				pos: position{line: 2877, col: 10, offset: 91032},
+																				pos: position{line: 2877, col: 10, offset: 91161},
 																				run: (*parser).callonDocumentHeader99,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 10, offset: 91032},
+																					pos:        position{line: 2877, col: 10, offset: 91161},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -16592,28 +16592,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2899, col: 8, offset: 91430},
+																			pos: position{line: 2899, col: 8, offset: 91559},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2886, col: 12, offset: 91203},
+																					pos: position{line: 2886, col: 12, offset: 91332},
 																					run: (*parser).callonDocumentHeader102,
 																					expr: &choiceExpr{
-																						pos: position{line: 2886, col: 13, offset: 91204},
+																						pos: position{line: 2886, col: 13, offset: 91333},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 13, offset: 91204},
+																								pos:        position{line: 2886, col: 13, offset: 91333},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 20, offset: 91211},
+																								pos:        position{line: 2886, col: 20, offset: 91340},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 29, offset: 91220},
+																								pos:        position{line: 2886, col: 29, offset: 91349},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -16622,9 +16622,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91380},
+																					pos: position{line: 2896, col: 8, offset: 91509},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91381,
+																						line: 2896, col: 9, offset: 91510,
 																					},
 																				},
 																			},
@@ -16633,9 +16633,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2896, col: 8, offset: 91380},
+																pos: position{line: 2896, col: 8, offset: 91509},
 																expr: &anyMatcher{
-																	line: 2896, col: 9, offset: 91381,
+																	line: 2896, col: 9, offset: 91510,
 																},
 															},
 														},
@@ -16661,36 +16661,36 @@ var g = &grammar{
 								pos: position{line: 1106, col: 6, offset: 33972},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2484, col: 22, offset: 79918},
+										pos: position{line: 2484, col: 22, offset: 80047},
 										run: (*parser).callonDocumentHeader115,
 										expr: &seqExpr{
-											pos: position{line: 2484, col: 22, offset: 79918},
+											pos: position{line: 2484, col: 22, offset: 80047},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2489, col: 31, offset: 80139},
+													pos:        position{line: 2489, col: 31, offset: 80268},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2489, col: 36, offset: 80144},
+													pos: position{line: 2489, col: 36, offset: 80273},
 													expr: &litMatcher{
-														pos:        position{line: 2489, col: 37, offset: 80145},
+														pos:        position{line: 2489, col: 37, offset: 80274},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2484, col: 49, offset: 79945},
+													pos:   position{line: 2484, col: 49, offset: 80074},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2823, col: 13, offset: 89558},
+														pos: position{line: 2823, col: 13, offset: 89687},
 														run: (*parser).callonDocumentHeader121,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2823, col: 13, offset: 89558},
+															pos: position{line: 2823, col: 13, offset: 89687},
 															expr: &charClassMatcher{
-																pos:        position{line: 2823, col: 13, offset: 89558},
+																pos:        position{line: 2823, col: 13, offset: 89687},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16700,28 +16700,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2899, col: 8, offset: 91430},
+													pos: position{line: 2899, col: 8, offset: 91559},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2886, col: 12, offset: 91203},
+															pos: position{line: 2886, col: 12, offset: 91332},
 															run: (*parser).callonDocumentHeader125,
 															expr: &choiceExpr{
-																pos: position{line: 2886, col: 13, offset: 91204},
+																pos: position{line: 2886, col: 13, offset: 91333},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 13, offset: 91204},
+																		pos:        position{line: 2886, col: 13, offset: 91333},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 20, offset: 91211},
+																		pos:        position{line: 2886, col: 20, offset: 91340},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 29, offset: 91220},
+																		pos:        position{line: 2886, col: 29, offset: 91349},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16730,9 +16730,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2896, col: 8, offset: 91380},
+															pos: position{line: 2896, col: 8, offset: 91509},
 															expr: &anyMatcher{
-																line: 2896, col: 9, offset: 91381,
+																line: 2896, col: 9, offset: 91510,
 															},
 														},
 													},
@@ -16783,10 +16783,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 742, col: 8, offset: 23722},
 																expr: &actionExpr{
-																	pos: position{line: 2877, col: 10, offset: 91032},
+																	pos: position{line: 2877, col: 10, offset: 91161},
 																	run: (*parser).callonDocumentHeader143,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2877, col: 10, offset: 91032},
+																		pos:        position{line: 2877, col: 10, offset: 91161},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16795,28 +16795,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2899, col: 8, offset: 91430},
+																pos: position{line: 2899, col: 8, offset: 91559},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2886, col: 12, offset: 91203},
+																		pos: position{line: 2886, col: 12, offset: 91332},
 																		run: (*parser).callonDocumentHeader146,
 																		expr: &choiceExpr{
-																			pos: position{line: 2886, col: 13, offset: 91204},
+																			pos: position{line: 2886, col: 13, offset: 91333},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 13, offset: 91204},
+																					pos:        position{line: 2886, col: 13, offset: 91333},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 20, offset: 91211},
+																					pos:        position{line: 2886, col: 20, offset: 91340},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 29, offset: 91220},
+																					pos:        position{line: 2886, col: 29, offset: 91349},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -16825,9 +16825,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2896, col: 8, offset: 91380},
+																		pos: position{line: 2896, col: 8, offset: 91509},
 																		expr: &anyMatcher{
-																			line: 2896, col: 9, offset: 91381,
+																			line: 2896, col: 9, offset: 91510,
 																		},
 																	},
 																},
@@ -16888,10 +16888,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 742, col: 8, offset: 23722},
 																								expr: &actionExpr{
-																									pos: position{line: 2877, col: 10, offset: 91032},
+																									pos: position{line: 2877, col: 10, offset: 91161},
 																									run: (*parser).callonDocumentHeader168,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 10, offset: 91032},
+																										pos:        position{line: 2877, col: 10, offset: 91161},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -16900,28 +16900,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2899, col: 8, offset: 91430},
+																								pos: position{line: 2899, col: 8, offset: 91559},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2886, col: 12, offset: 91203},
+																										pos: position{line: 2886, col: 12, offset: 91332},
 																										run: (*parser).callonDocumentHeader171,
 																										expr: &choiceExpr{
-																											pos: position{line: 2886, col: 13, offset: 91204},
+																											pos: position{line: 2886, col: 13, offset: 91333},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 13, offset: 91204},
+																													pos:        position{line: 2886, col: 13, offset: 91333},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 20, offset: 91211},
+																													pos:        position{line: 2886, col: 20, offset: 91340},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 29, offset: 91220},
+																													pos:        position{line: 2886, col: 29, offset: 91349},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -16930,9 +16930,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2896, col: 8, offset: 91380},
+																										pos: position{line: 2896, col: 8, offset: 91509},
 																										expr: &anyMatcher{
-																											line: 2896, col: 9, offset: 91381,
+																											line: 2896, col: 9, offset: 91510,
 																										},
 																									},
 																								},
@@ -16941,9 +16941,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91380},
+																					pos: position{line: 2896, col: 8, offset: 91509},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91381,
+																						line: 2896, col: 9, offset: 91510,
 																					},
 																				},
 																			},
@@ -16959,21 +16959,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26129},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2894, col: 11, offset: 91366},
+																						pos: position{line: 2894, col: 11, offset: 91495},
 																						expr: &anyMatcher{
-																							line: 2894, col: 13, offset: 91368,
+																							line: 2894, col: 13, offset: 91497,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26204},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2823, col: 13, offset: 89558},
+																							pos: position{line: 2823, col: 13, offset: 89687},
 																							run: (*parser).callonDocumentHeader186,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2823, col: 13, offset: 89558},
+																								pos: position{line: 2823, col: 13, offset: 89687},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2823, col: 13, offset: 89558},
+																									pos:        position{line: 2823, col: 13, offset: 89687},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16983,28 +16983,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91430},
+																						pos: position{line: 2899, col: 8, offset: 91559},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91203},
+																								pos: position{line: 2886, col: 12, offset: 91332},
 																								run: (*parser).callonDocumentHeader190,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91204},
+																									pos: position{line: 2886, col: 13, offset: 91333},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91204},
+																											pos:        position{line: 2886, col: 13, offset: 91333},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91211},
+																											pos:        position{line: 2886, col: 20, offset: 91340},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91220},
+																											pos:        position{line: 2886, col: 29, offset: 91349},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17013,9 +17013,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91380},
+																								pos: position{line: 2896, col: 8, offset: 91509},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91381,
+																									line: 2896, col: 9, offset: 91510,
 																								},
 																							},
 																						},
@@ -17071,10 +17071,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 742, col: 8, offset: 23722},
 																			expr: &actionExpr{
-																				pos: position{line: 2877, col: 10, offset: 91032},
+																				pos: position{line: 2877, col: 10, offset: 91161},
 																				run: (*parser).callonDocumentHeader208,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 10, offset: 91032},
+																					pos:        position{line: 2877, col: 10, offset: 91161},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -17083,28 +17083,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2899, col: 8, offset: 91430},
+																			pos: position{line: 2899, col: 8, offset: 91559},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2886, col: 12, offset: 91203},
+																					pos: position{line: 2886, col: 12, offset: 91332},
 																					run: (*parser).callonDocumentHeader211,
 																					expr: &choiceExpr{
-																						pos: position{line: 2886, col: 13, offset: 91204},
+																						pos: position{line: 2886, col: 13, offset: 91333},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 13, offset: 91204},
+																								pos:        position{line: 2886, col: 13, offset: 91333},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 20, offset: 91211},
+																								pos:        position{line: 2886, col: 20, offset: 91340},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 29, offset: 91220},
+																								pos:        position{line: 2886, col: 29, offset: 91349},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -17113,9 +17113,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91380},
+																					pos: position{line: 2896, col: 8, offset: 91509},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91381,
+																						line: 2896, col: 9, offset: 91510,
 																					},
 																				},
 																			},
@@ -17124,9 +17124,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2896, col: 8, offset: 91380},
+																pos: position{line: 2896, col: 8, offset: 91509},
 																expr: &anyMatcher{
-																	line: 2896, col: 9, offset: 91381,
+																	line: 2896, col: 9, offset: 91510,
 																},
 															},
 														},
@@ -17170,10 +17170,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1125, col: 20, offset: 34727},
 																expr: &actionExpr{
-																	pos: position{line: 2877, col: 10, offset: 91032},
+																	pos: position{line: 2877, col: 10, offset: 91161},
 																	run: (*parser).callonDocumentHeader230,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2877, col: 10, offset: 91032},
+																		pos:        position{line: 2877, col: 10, offset: 91161},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17224,10 +17224,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1144, col: 5, offset: 35332},
 																										expr: &actionExpr{
-																											pos: position{line: 2877, col: 10, offset: 91032},
+																											pos: position{line: 2877, col: 10, offset: 91161},
 																											run: (*parser).callonDocumentHeader245,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2877, col: 10, offset: 91032},
+																												pos:        position{line: 2877, col: 10, offset: 91161},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17259,10 +17259,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1148, col: 5, offset: 35431},
 																										expr: &actionExpr{
-																											pos: position{line: 2877, col: 10, offset: 91032},
+																											pos: position{line: 2877, col: 10, offset: 91161},
 																											run: (*parser).callonDocumentHeader253,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2877, col: 10, offset: 91032},
+																												pos:        position{line: 2877, col: 10, offset: 91161},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17294,10 +17294,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1152, col: 5, offset: 35528},
 																										expr: &actionExpr{
-																											pos: position{line: 2877, col: 10, offset: 91032},
+																											pos: position{line: 2877, col: 10, offset: 91161},
 																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2877, col: 10, offset: 91032},
+																												pos:        position{line: 2877, col: 10, offset: 91161},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17322,9 +17322,9 @@ var g = &grammar{
 																								pos: position{line: 1158, col: 5, offset: 35650},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2894, col: 11, offset: 91366},
+																										pos: position{line: 2894, col: 11, offset: 91495},
 																										expr: &anyMatcher{
-																											line: 2894, col: 13, offset: 91368,
+																											line: 2894, col: 13, offset: 91497,
 																										},
 																									},
 																									&litMatcher{
@@ -17365,10 +17365,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1130, col: 69, offset: 34920},
 																					expr: &actionExpr{
-																						pos: position{line: 2877, col: 10, offset: 91032},
+																						pos: position{line: 2877, col: 10, offset: 91161},
 																						run: (*parser).callonDocumentHeader276,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2877, col: 10, offset: 91032},
+																							pos:        position{line: 2877, col: 10, offset: 91161},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17388,10 +17388,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1130, col: 81, offset: 34932},
 																					expr: &actionExpr{
-																						pos: position{line: 2877, col: 10, offset: 91032},
+																						pos: position{line: 2877, col: 10, offset: 91161},
 																						run: (*parser).callonDocumentHeader281,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2877, col: 10, offset: 91032},
+																							pos:        position{line: 2877, col: 10, offset: 91161},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17409,28 +17409,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2899, col: 8, offset: 91430},
+																pos: position{line: 2899, col: 8, offset: 91559},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2886, col: 12, offset: 91203},
+																		pos: position{line: 2886, col: 12, offset: 91332},
 																		run: (*parser).callonDocumentHeader285,
 																		expr: &choiceExpr{
-																			pos: position{line: 2886, col: 13, offset: 91204},
+																			pos: position{line: 2886, col: 13, offset: 91333},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 13, offset: 91204},
+																					pos:        position{line: 2886, col: 13, offset: 91333},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 20, offset: 91211},
+																					pos:        position{line: 2886, col: 20, offset: 91340},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 29, offset: 91220},
+																					pos:        position{line: 2886, col: 29, offset: 91349},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17439,9 +17439,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2896, col: 8, offset: 91380},
+																		pos: position{line: 2896, col: 8, offset: 91509},
 																		expr: &anyMatcher{
-																			line: 2896, col: 9, offset: 91381,
+																			line: 2896, col: 9, offset: 91510,
 																		},
 																	},
 																},
@@ -17456,36 +17456,36 @@ var g = &grammar{
 													pos: position{line: 1120, col: 6, offset: 34502},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2484, col: 22, offset: 79918},
+															pos: position{line: 2484, col: 22, offset: 80047},
 															run: (*parser).callonDocumentHeader294,
 															expr: &seqExpr{
-																pos: position{line: 2484, col: 22, offset: 79918},
+																pos: position{line: 2484, col: 22, offset: 80047},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2489, col: 31, offset: 80139},
+																		pos:        position{line: 2489, col: 31, offset: 80268},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2489, col: 36, offset: 80144},
+																		pos: position{line: 2489, col: 36, offset: 80273},
 																		expr: &litMatcher{
-																			pos:        position{line: 2489, col: 37, offset: 80145},
+																			pos:        position{line: 2489, col: 37, offset: 80274},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2484, col: 49, offset: 79945},
+																		pos:   position{line: 2484, col: 49, offset: 80074},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2823, col: 13, offset: 89558},
+																			pos: position{line: 2823, col: 13, offset: 89687},
 																			run: (*parser).callonDocumentHeader300,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2823, col: 13, offset: 89558},
+																				pos: position{line: 2823, col: 13, offset: 89687},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2823, col: 13, offset: 89558},
+																					pos:        position{line: 2823, col: 13, offset: 89687},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -17495,28 +17495,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2899, col: 8, offset: 91430},
+																		pos: position{line: 2899, col: 8, offset: 91559},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91203},
+																				pos: position{line: 2886, col: 12, offset: 91332},
 																				run: (*parser).callonDocumentHeader304,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91204},
+																					pos: position{line: 2886, col: 13, offset: 91333},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91204},
+																							pos:        position{line: 2886, col: 13, offset: 91333},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91211},
+																							pos:        position{line: 2886, col: 20, offset: 91340},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91220},
+																							pos:        position{line: 2886, col: 29, offset: 91349},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -17525,9 +17525,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2896, col: 8, offset: 91380},
+																				pos: position{line: 2896, col: 8, offset: 91509},
 																				expr: &anyMatcher{
-																					line: 2896, col: 9, offset: 91381,
+																					line: 2896, col: 9, offset: 91510,
 																				},
 																			},
 																		},
@@ -17578,10 +17578,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 742, col: 8, offset: 23722},
 																					expr: &actionExpr{
-																						pos: position{line: 2877, col: 10, offset: 91032},
+																						pos: position{line: 2877, col: 10, offset: 91161},
 																						run: (*parser).callonDocumentHeader322,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2877, col: 10, offset: 91032},
+																							pos:        position{line: 2877, col: 10, offset: 91161},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17590,28 +17590,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2899, col: 8, offset: 91430},
+																					pos: position{line: 2899, col: 8, offset: 91559},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2886, col: 12, offset: 91203},
+																							pos: position{line: 2886, col: 12, offset: 91332},
 																							run: (*parser).callonDocumentHeader325,
 																							expr: &choiceExpr{
-																								pos: position{line: 2886, col: 13, offset: 91204},
+																								pos: position{line: 2886, col: 13, offset: 91333},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 13, offset: 91204},
+																										pos:        position{line: 2886, col: 13, offset: 91333},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 20, offset: 91211},
+																										pos:        position{line: 2886, col: 20, offset: 91340},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 29, offset: 91220},
+																										pos:        position{line: 2886, col: 29, offset: 91349},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -17620,9 +17620,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2896, col: 8, offset: 91380},
+																							pos: position{line: 2896, col: 8, offset: 91509},
 																							expr: &anyMatcher{
-																								line: 2896, col: 9, offset: 91381,
+																								line: 2896, col: 9, offset: 91510,
 																							},
 																						},
 																					},
@@ -17683,10 +17683,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 742, col: 8, offset: 23722},
 																													expr: &actionExpr{
-																														pos: position{line: 2877, col: 10, offset: 91032},
+																														pos: position{line: 2877, col: 10, offset: 91161},
 																														run: (*parser).callonDocumentHeader347,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2877, col: 10, offset: 91032},
+																															pos:        position{line: 2877, col: 10, offset: 91161},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -17695,28 +17695,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2899, col: 8, offset: 91430},
+																													pos: position{line: 2899, col: 8, offset: 91559},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2886, col: 12, offset: 91203},
+																															pos: position{line: 2886, col: 12, offset: 91332},
 																															run: (*parser).callonDocumentHeader350,
 																															expr: &choiceExpr{
-																																pos: position{line: 2886, col: 13, offset: 91204},
+																																pos: position{line: 2886, col: 13, offset: 91333},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2886, col: 13, offset: 91204},
+																																		pos:        position{line: 2886, col: 13, offset: 91333},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2886, col: 20, offset: 91211},
+																																		pos:        position{line: 2886, col: 20, offset: 91340},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2886, col: 29, offset: 91220},
+																																		pos:        position{line: 2886, col: 29, offset: 91349},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -17725,9 +17725,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2896, col: 8, offset: 91380},
+																															pos: position{line: 2896, col: 8, offset: 91509},
 																															expr: &anyMatcher{
-																																line: 2896, col: 9, offset: 91381,
+																																line: 2896, col: 9, offset: 91510,
 																															},
 																														},
 																													},
@@ -17736,9 +17736,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2896, col: 8, offset: 91380},
+																										pos: position{line: 2896, col: 8, offset: 91509},
 																										expr: &anyMatcher{
-																											line: 2896, col: 9, offset: 91381,
+																											line: 2896, col: 9, offset: 91510,
 																										},
 																									},
 																								},
@@ -17754,21 +17754,21 @@ var g = &grammar{
 																									pos: position{line: 811, col: 5, offset: 26129},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2894, col: 11, offset: 91366},
+																											pos: position{line: 2894, col: 11, offset: 91495},
 																											expr: &anyMatcher{
-																												line: 2894, col: 13, offset: 91368,
+																												line: 2894, col: 13, offset: 91497,
 																											},
 																										},
 																										&labeledExpr{
 																											pos:   position{line: 812, col: 5, offset: 26204},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2823, col: 13, offset: 89558},
+																												pos: position{line: 2823, col: 13, offset: 89687},
 																												run: (*parser).callonDocumentHeader365,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2823, col: 13, offset: 89558},
+																													pos: position{line: 2823, col: 13, offset: 89687},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2823, col: 13, offset: 89558},
+																														pos:        position{line: 2823, col: 13, offset: 89687},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -17778,28 +17778,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91430},
+																											pos: position{line: 2899, col: 8, offset: 91559},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91203},
+																													pos: position{line: 2886, col: 12, offset: 91332},
 																													run: (*parser).callonDocumentHeader369,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91204},
+																														pos: position{line: 2886, col: 13, offset: 91333},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91204},
+																																pos:        position{line: 2886, col: 13, offset: 91333},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91211},
+																																pos:        position{line: 2886, col: 20, offset: 91340},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91220},
+																																pos:        position{line: 2886, col: 29, offset: 91349},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17808,9 +17808,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91380},
+																													pos: position{line: 2896, col: 8, offset: 91509},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91381,
+																														line: 2896, col: 9, offset: 91510,
 																													},
 																												},
 																											},
@@ -17866,10 +17866,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 742, col: 8, offset: 23722},
 																								expr: &actionExpr{
-																									pos: position{line: 2877, col: 10, offset: 91032},
+																									pos: position{line: 2877, col: 10, offset: 91161},
 																									run: (*parser).callonDocumentHeader387,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 10, offset: 91032},
+																										pos:        position{line: 2877, col: 10, offset: 91161},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -17878,28 +17878,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2899, col: 8, offset: 91430},
+																								pos: position{line: 2899, col: 8, offset: 91559},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2886, col: 12, offset: 91203},
+																										pos: position{line: 2886, col: 12, offset: 91332},
 																										run: (*parser).callonDocumentHeader390,
 																										expr: &choiceExpr{
-																											pos: position{line: 2886, col: 13, offset: 91204},
+																											pos: position{line: 2886, col: 13, offset: 91333},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 13, offset: 91204},
+																													pos:        position{line: 2886, col: 13, offset: 91333},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 20, offset: 91211},
+																													pos:        position{line: 2886, col: 20, offset: 91340},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 29, offset: 91220},
+																													pos:        position{line: 2886, col: 29, offset: 91349},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -17908,9 +17908,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2896, col: 8, offset: 91380},
+																										pos: position{line: 2896, col: 8, offset: 91509},
 																										expr: &anyMatcher{
-																											line: 2896, col: 9, offset: 91381,
+																											line: 2896, col: 9, offset: 91510,
 																										},
 																									},
 																								},
@@ -17919,9 +17919,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91380},
+																					pos: position{line: 2896, col: 8, offset: 91509},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91381,
+																						line: 2896, col: 9, offset: 91510,
 																					},
 																				},
 																			},
@@ -17947,10 +17947,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1169, col: 21, offset: 35928},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91032},
+																		pos: position{line: 2877, col: 10, offset: 91161},
 																		run: (*parser).callonDocumentHeader404,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91032},
+																			pos:        position{line: 2877, col: 10, offset: 91161},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18052,10 +18052,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 1181, col: 28, offset: 36559},
 																													expr: &actionExpr{
-																														pos: position{line: 2877, col: 10, offset: 91032},
+																														pos: position{line: 2877, col: 10, offset: 91161},
 																														run: (*parser).callonDocumentHeader428,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2877, col: 10, offset: 91032},
+																															pos:        position{line: 2877, col: 10, offset: 91161},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -18202,28 +18202,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91430},
+																	pos: position{line: 2899, col: 8, offset: 91559},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91203},
+																			pos: position{line: 2886, col: 12, offset: 91332},
 																			run: (*parser).callonDocumentHeader460,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91204},
+																				pos: position{line: 2886, col: 13, offset: 91333},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91204},
+																						pos:        position{line: 2886, col: 13, offset: 91333},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91211},
+																						pos:        position{line: 2886, col: 20, offset: 91340},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91220},
+																						pos:        position{line: 2886, col: 29, offset: 91349},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18232,9 +18232,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91380},
+																			pos: position{line: 2896, col: 8, offset: 91509},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91381,
+																				line: 2896, col: 9, offset: 91510,
 																			},
 																		},
 																	},
@@ -18314,10 +18314,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 359, col: 49, offset: 10879},
 														expr: &actionExpr{
-															pos: position{line: 2877, col: 10, offset: 91032},
+															pos: position{line: 2877, col: 10, offset: 91161},
 															run: (*parser).callonDocumentHeader482,
 															expr: &charClassMatcher{
-																pos:        position{line: 2877, col: 10, offset: 91032},
+																pos:        position{line: 2877, col: 10, offset: 91161},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18326,28 +18326,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2899, col: 8, offset: 91430},
+														pos: position{line: 2899, col: 8, offset: 91559},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2886, col: 12, offset: 91203},
+																pos: position{line: 2886, col: 12, offset: 91332},
 																run: (*parser).callonDocumentHeader485,
 																expr: &choiceExpr{
-																	pos: position{line: 2886, col: 13, offset: 91204},
+																	pos: position{line: 2886, col: 13, offset: 91333},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 13, offset: 91204},
+																			pos:        position{line: 2886, col: 13, offset: 91333},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 20, offset: 91211},
+																			pos:        position{line: 2886, col: 20, offset: 91340},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 29, offset: 91220},
+																			pos:        position{line: 2886, col: 29, offset: 91349},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18356,9 +18356,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2896, col: 8, offset: 91380},
+																pos: position{line: 2896, col: 8, offset: 91509},
 																expr: &anyMatcher{
-																	line: 2896, col: 9, offset: 91381,
+																	line: 2896, col: 9, offset: 91510,
 																},
 															},
 														},
@@ -18419,10 +18419,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 361, col: 39, offset: 11000},
 														expr: &actionExpr{
-															pos: position{line: 2877, col: 10, offset: 91032},
+															pos: position{line: 2877, col: 10, offset: 91161},
 															run: (*parser).callonDocumentHeader503,
 															expr: &charClassMatcher{
-																pos:        position{line: 2877, col: 10, offset: 91032},
+																pos:        position{line: 2877, col: 10, offset: 91161},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18431,28 +18431,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2899, col: 8, offset: 91430},
+														pos: position{line: 2899, col: 8, offset: 91559},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2886, col: 12, offset: 91203},
+																pos: position{line: 2886, col: 12, offset: 91332},
 																run: (*parser).callonDocumentHeader506,
 																expr: &choiceExpr{
-																	pos: position{line: 2886, col: 13, offset: 91204},
+																	pos: position{line: 2886, col: 13, offset: 91333},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 13, offset: 91204},
+																			pos:        position{line: 2886, col: 13, offset: 91333},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 20, offset: 91211},
+																			pos:        position{line: 2886, col: 20, offset: 91340},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 29, offset: 91220},
+																			pos:        position{line: 2886, col: 29, offset: 91349},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18461,9 +18461,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2896, col: 8, offset: 91380},
+																pos: position{line: 2896, col: 8, offset: 91509},
 																expr: &anyMatcher{
-																	line: 2896, col: 9, offset: 91381,
+																	line: 2896, col: 9, offset: 91510,
 																},
 															},
 														},
@@ -18472,36 +18472,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2484, col: 22, offset: 79918},
+											pos: position{line: 2484, col: 22, offset: 80047},
 											run: (*parser).callonDocumentHeader513,
 											expr: &seqExpr{
-												pos: position{line: 2484, col: 22, offset: 79918},
+												pos: position{line: 2484, col: 22, offset: 80047},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2489, col: 31, offset: 80139},
+														pos:        position{line: 2489, col: 31, offset: 80268},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2489, col: 36, offset: 80144},
+														pos: position{line: 2489, col: 36, offset: 80273},
 														expr: &litMatcher{
-															pos:        position{line: 2489, col: 37, offset: 80145},
+															pos:        position{line: 2489, col: 37, offset: 80274},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2484, col: 49, offset: 79945},
+														pos:   position{line: 2484, col: 49, offset: 80074},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2823, col: 13, offset: 89558},
+															pos: position{line: 2823, col: 13, offset: 89687},
 															run: (*parser).callonDocumentHeader519,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2823, col: 13, offset: 89558},
+																pos: position{line: 2823, col: 13, offset: 89687},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2823, col: 13, offset: 89558},
+																	pos:        position{line: 2823, col: 13, offset: 89687},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -18511,28 +18511,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2899, col: 8, offset: 91430},
+														pos: position{line: 2899, col: 8, offset: 91559},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2886, col: 12, offset: 91203},
+																pos: position{line: 2886, col: 12, offset: 91332},
 																run: (*parser).callonDocumentHeader523,
 																expr: &choiceExpr{
-																	pos: position{line: 2886, col: 13, offset: 91204},
+																	pos: position{line: 2886, col: 13, offset: 91333},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 13, offset: 91204},
+																			pos:        position{line: 2886, col: 13, offset: 91333},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 20, offset: 91211},
+																			pos:        position{line: 2886, col: 20, offset: 91340},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 29, offset: 91220},
+																			pos:        position{line: 2886, col: 29, offset: 91349},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18541,9 +18541,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2896, col: 8, offset: 91380},
+																pos: position{line: 2896, col: 8, offset: 91509},
 																expr: &anyMatcher{
-																	line: 2896, col: 9, offset: 91381,
+																	line: 2896, col: 9, offset: 91510,
 																},
 															},
 														},
@@ -18594,10 +18594,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 742, col: 8, offset: 23722},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91032},
+																		pos: position{line: 2877, col: 10, offset: 91161},
 																		run: (*parser).callonDocumentHeader541,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91032},
+																			pos:        position{line: 2877, col: 10, offset: 91161},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18606,28 +18606,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91430},
+																	pos: position{line: 2899, col: 8, offset: 91559},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91203},
+																			pos: position{line: 2886, col: 12, offset: 91332},
 																			run: (*parser).callonDocumentHeader544,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91204},
+																				pos: position{line: 2886, col: 13, offset: 91333},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91204},
+																						pos:        position{line: 2886, col: 13, offset: 91333},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91211},
+																						pos:        position{line: 2886, col: 20, offset: 91340},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91220},
+																						pos:        position{line: 2886, col: 29, offset: 91349},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18636,9 +18636,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91380},
+																			pos: position{line: 2896, col: 8, offset: 91509},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91381,
+																				line: 2896, col: 9, offset: 91510,
 																			},
 																		},
 																	},
@@ -18699,10 +18699,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 742, col: 8, offset: 23722},
 																									expr: &actionExpr{
-																										pos: position{line: 2877, col: 10, offset: 91032},
+																										pos: position{line: 2877, col: 10, offset: 91161},
 																										run: (*parser).callonDocumentHeader566,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2877, col: 10, offset: 91032},
+																											pos:        position{line: 2877, col: 10, offset: 91161},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -18711,28 +18711,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2899, col: 8, offset: 91430},
+																									pos: position{line: 2899, col: 8, offset: 91559},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2886, col: 12, offset: 91203},
+																											pos: position{line: 2886, col: 12, offset: 91332},
 																											run: (*parser).callonDocumentHeader569,
 																											expr: &choiceExpr{
-																												pos: position{line: 2886, col: 13, offset: 91204},
+																												pos: position{line: 2886, col: 13, offset: 91333},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 13, offset: 91204},
+																														pos:        position{line: 2886, col: 13, offset: 91333},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 20, offset: 91211},
+																														pos:        position{line: 2886, col: 20, offset: 91340},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 29, offset: 91220},
+																														pos:        position{line: 2886, col: 29, offset: 91349},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -18741,9 +18741,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2896, col: 8, offset: 91380},
+																											pos: position{line: 2896, col: 8, offset: 91509},
 																											expr: &anyMatcher{
-																												line: 2896, col: 9, offset: 91381,
+																												line: 2896, col: 9, offset: 91510,
 																											},
 																										},
 																									},
@@ -18752,9 +18752,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2896, col: 8, offset: 91380},
+																						pos: position{line: 2896, col: 8, offset: 91509},
 																						expr: &anyMatcher{
-																							line: 2896, col: 9, offset: 91381,
+																							line: 2896, col: 9, offset: 91510,
 																						},
 																					},
 																				},
@@ -18770,21 +18770,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26129},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2894, col: 11, offset: 91366},
+																							pos: position{line: 2894, col: 11, offset: 91495},
 																							expr: &anyMatcher{
-																								line: 2894, col: 13, offset: 91368,
+																								line: 2894, col: 13, offset: 91497,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26204},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2823, col: 13, offset: 89558},
+																								pos: position{line: 2823, col: 13, offset: 89687},
 																								run: (*parser).callonDocumentHeader584,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2823, col: 13, offset: 89558},
+																									pos: position{line: 2823, col: 13, offset: 89687},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2823, col: 13, offset: 89558},
+																										pos:        position{line: 2823, col: 13, offset: 89687},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -18794,28 +18794,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91430},
+																							pos: position{line: 2899, col: 8, offset: 91559},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91203},
+																									pos: position{line: 2886, col: 12, offset: 91332},
 																									run: (*parser).callonDocumentHeader588,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91204},
+																										pos: position{line: 2886, col: 13, offset: 91333},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91204},
+																												pos:        position{line: 2886, col: 13, offset: 91333},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91211},
+																												pos:        position{line: 2886, col: 20, offset: 91340},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91220},
+																												pos:        position{line: 2886, col: 29, offset: 91349},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -18824,9 +18824,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91380},
+																									pos: position{line: 2896, col: 8, offset: 91509},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91381,
+																										line: 2896, col: 9, offset: 91510,
 																									},
 																								},
 																							},
@@ -18882,10 +18882,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 742, col: 8, offset: 23722},
 																				expr: &actionExpr{
-																					pos: position{line: 2877, col: 10, offset: 91032},
+																					pos: position{line: 2877, col: 10, offset: 91161},
 																					run: (*parser).callonDocumentHeader606,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2877, col: 10, offset: 91032},
+																						pos:        position{line: 2877, col: 10, offset: 91161},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -18894,28 +18894,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2899, col: 8, offset: 91430},
+																				pos: position{line: 2899, col: 8, offset: 91559},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2886, col: 12, offset: 91203},
+																						pos: position{line: 2886, col: 12, offset: 91332},
 																						run: (*parser).callonDocumentHeader609,
 																						expr: &choiceExpr{
-																							pos: position{line: 2886, col: 13, offset: 91204},
+																							pos: position{line: 2886, col: 13, offset: 91333},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2886, col: 13, offset: 91204},
+																									pos:        position{line: 2886, col: 13, offset: 91333},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2886, col: 20, offset: 91211},
+																									pos:        position{line: 2886, col: 20, offset: 91340},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2886, col: 29, offset: 91220},
+																									pos:        position{line: 2886, col: 29, offset: 91349},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -18924,9 +18924,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2896, col: 8, offset: 91380},
+																						pos: position{line: 2896, col: 8, offset: 91509},
 																						expr: &anyMatcher{
-																							line: 2896, col: 9, offset: 91381,
+																							line: 2896, col: 9, offset: 91510,
 																						},
 																					},
 																				},
@@ -18935,9 +18935,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2896, col: 8, offset: 91380},
+																	pos: position{line: 2896, col: 8, offset: 91509},
 																	expr: &anyMatcher{
-																		line: 2896, col: 9, offset: 91381,
+																		line: 2896, col: 9, offset: 91510,
 																	},
 																},
 															},
@@ -18970,12 +18970,12 @@ var g = &grammar{
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2881, col: 11, offset: 91093},
+							pos: position{line: 2881, col: 11, offset: 91222},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2881, col: 11, offset: 91093},
+								pos: position{line: 2881, col: 11, offset: 91222},
 								expr: &charClassMatcher{
-									pos:        position{line: 2881, col: 11, offset: 91093},
+									pos:        position{line: 2881, col: 11, offset: 91222},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18992,28 +18992,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2899, col: 8, offset: 91430},
+							pos: position{line: 2899, col: 8, offset: 91559},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2886, col: 12, offset: 91203},
+									pos: position{line: 2886, col: 12, offset: 91332},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2886, col: 13, offset: 91204},
+										pos: position{line: 2886, col: 13, offset: 91333},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2886, col: 13, offset: 91204},
+												pos:        position{line: 2886, col: 13, offset: 91333},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2886, col: 20, offset: 91211},
+												pos:        position{line: 2886, col: 20, offset: 91340},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2886, col: 29, offset: 91220},
+												pos:        position{line: 2886, col: 29, offset: 91349},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19022,9 +19022,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2896, col: 8, offset: 91380},
+									pos: position{line: 2896, col: 8, offset: 91509},
 									expr: &anyMatcher{
-										line: 2896, col: 9, offset: 91381,
+										line: 2896, col: 9, offset: 91510,
 									},
 								},
 							},
@@ -19063,10 +19063,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1144, col: 5, offset: 35332},
 							expr: &actionExpr{
-								pos: position{line: 2877, col: 10, offset: 91032},
+								pos: position{line: 2877, col: 10, offset: 91161},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2877, col: 10, offset: 91032},
+									pos:        position{line: 2877, col: 10, offset: 91161},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19098,10 +19098,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1148, col: 5, offset: 35431},
 							expr: &actionExpr{
-								pos: position{line: 2877, col: 10, offset: 91032},
+								pos: position{line: 2877, col: 10, offset: 91161},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2877, col: 10, offset: 91032},
+									pos:        position{line: 2877, col: 10, offset: 91161},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19133,10 +19133,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1152, col: 5, offset: 35528},
 							expr: &actionExpr{
-								pos: position{line: 2877, col: 10, offset: 91032},
+								pos: position{line: 2877, col: 10, offset: 91161},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2877, col: 10, offset: 91032},
+									pos:        position{line: 2877, col: 10, offset: 91161},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19150,28 +19150,28 @@ var g = &grammar{
 		},
 		{
 			name: "InlineButton",
-			pos:  position{line: 1269, col: 1, offset: 39360},
+			pos:  position{line: 1269, col: 1, offset: 39403},
 			expr: &actionExpr{
-				pos: position{line: 1270, col: 5, offset: 39381},
+				pos: position{line: 1270, col: 5, offset: 39424},
 				run: (*parser).callonInlineButton1,
 				expr: &seqExpr{
-					pos: position{line: 1270, col: 5, offset: 39381},
+					pos: position{line: 1270, col: 5, offset: 39424},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1270, col: 5, offset: 39381},
+							pos: position{line: 1270, col: 5, offset: 39424},
 							run: (*parser).callonInlineButton3,
 						},
 						&litMatcher{
-							pos:        position{line: 1273, col: 5, offset: 39440},
+							pos:        position{line: 1273, col: 5, offset: 39483},
 							val:        "btn:",
 							ignoreCase: false,
 							want:       "\"btn:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1273, col: 12, offset: 39447},
+							pos:   position{line: 1273, col: 12, offset: 39490},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1273, col: 24, offset: 39459},
+								pos:  position{line: 1273, col: 24, offset: 39502},
 								name: "InlineAttributes",
 							},
 						},
@@ -19181,33 +19181,33 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMenu",
-			pos:  position{line: 1280, col: 1, offset: 39747},
+			pos:  position{line: 1280, col: 1, offset: 39790},
 			expr: &actionExpr{
-				pos: position{line: 1281, col: 5, offset: 39766},
+				pos: position{line: 1281, col: 5, offset: 39809},
 				run: (*parser).callonInlineMenu1,
 				expr: &seqExpr{
-					pos: position{line: 1281, col: 5, offset: 39766},
+					pos: position{line: 1281, col: 5, offset: 39809},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1281, col: 5, offset: 39766},
+							pos: position{line: 1281, col: 5, offset: 39809},
 							run: (*parser).callonInlineMenu3,
 						},
 						&litMatcher{
-							pos:        position{line: 1284, col: 5, offset: 39825},
+							pos:        position{line: 1284, col: 5, offset: 39868},
 							val:        "menu:",
 							ignoreCase: false,
 							want:       "\"menu:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1284, col: 13, offset: 39833},
+							pos:   position{line: 1284, col: 13, offset: 39876},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2862, col: 7, offset: 90684},
+								pos: position{line: 2862, col: 7, offset: 90813},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2862, col: 7, offset: 90684},
+									pos: position{line: 2862, col: 7, offset: 90813},
 									expr: &charClassMatcher{
-										pos:        position{line: 2862, col: 7, offset: 90684},
+										pos:        position{line: 2862, col: 7, offset: 90813},
 										val:        "[^[]<>,\\r\\n]",
 										chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 										ignoreCase: false,
@@ -19217,10 +19217,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1284, col: 21, offset: 39841},
+							pos:   position{line: 1284, col: 21, offset: 39884},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1284, col: 33, offset: 39853},
+								pos:  position{line: 1284, col: 33, offset: 39896},
 								name: "InlineAttributes",
 							},
 						},
@@ -19230,29 +19230,29 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTerm",
-			pos:  position{line: 1291, col: 1, offset: 40152},
+			pos:  position{line: 1291, col: 1, offset: 40195},
 			expr: &actionExpr{
-				pos: position{line: 1291, col: 14, offset: 40165},
+				pos: position{line: 1291, col: 14, offset: 40208},
 				run: (*parser).callonIndexTerm1,
 				expr: &seqExpr{
-					pos: position{line: 1291, col: 14, offset: 40165},
+					pos: position{line: 1291, col: 14, offset: 40208},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1291, col: 14, offset: 40165},
+							pos:        position{line: 1291, col: 14, offset: 40208},
 							val:        "((",
 							ignoreCase: false,
 							want:       "\"((\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1291, col: 19, offset: 40170},
+							pos:   position{line: 1291, col: 19, offset: 40213},
 							label: "term",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1291, col: 25, offset: 40176},
+								pos:  position{line: 1291, col: 25, offset: 40219},
 								name: "IndexTermContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1291, col: 43, offset: 40194},
+							pos:        position{line: 1291, col: 43, offset: 40237},
 							val:        "))",
 							ignoreCase: false,
 							want:       "\"))\"",
@@ -19263,25 +19263,25 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTermContent",
-			pos:  position{line: 1295, col: 1, offset: 40263},
+			pos:  position{line: 1295, col: 1, offset: 40306},
 			expr: &actionExpr{
-				pos: position{line: 1295, col: 21, offset: 40283},
+				pos: position{line: 1295, col: 21, offset: 40326},
 				run: (*parser).callonIndexTermContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 1295, col: 21, offset: 40283},
+					pos:   position{line: 1295, col: 21, offset: 40326},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 1295, col: 30, offset: 40292},
+						pos: position{line: 1295, col: 30, offset: 40335},
 						expr: &choiceExpr{
-							pos: position{line: 1295, col: 31, offset: 40293},
+							pos: position{line: 1295, col: 31, offset: 40336},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2771, col: 14, offset: 88180},
+									pos: position{line: 2771, col: 14, offset: 88309},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2771, col: 14, offset: 88180},
+										pos: position{line: 2771, col: 14, offset: 88309},
 										expr: &charClassMatcher{
-											pos:        position{line: 2771, col: 14, offset: 88180},
+											pos:        position{line: 2771, col: 14, offset: 88309},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -19290,14 +19290,14 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 1295, col: 43, offset: 40305},
+									pos:  position{line: 1295, col: 43, offset: 40348},
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2877, col: 10, offset: 91032},
+									pos: position{line: 2877, col: 10, offset: 91161},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2877, col: 10, offset: 91032},
+										pos:        position{line: 2877, col: 10, offset: 91161},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -19305,23 +19305,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2471, col: 5, offset: 79464},
+									pos: position{line: 2471, col: 5, offset: 79593},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2471, col: 5, offset: 79464},
+										pos: position{line: 2471, col: 5, offset: 79593},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2471, col: 5, offset: 79464},
+												pos: position{line: 2471, col: 5, offset: 79593},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2474, col: 5, offset: 79540},
+												pos:   position{line: 2474, col: 5, offset: 79669},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2475, col: 9, offset: 79558},
+													pos: position{line: 2475, col: 9, offset: 79687},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2475, col: 10, offset: 79559},
+														pos:        position{line: 2475, col: 10, offset: 79688},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -19376,22 +19376,22 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1295, col: 104, offset: 40366},
+									pos: position{line: 1295, col: 104, offset: 40409},
 									run: (*parser).callonIndexTermContent26,
 									expr: &seqExpr{
-										pos: position{line: 1295, col: 105, offset: 40367},
+										pos: position{line: 1295, col: 105, offset: 40410},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1295, col: 105, offset: 40367},
+												pos: position{line: 1295, col: 105, offset: 40410},
 												expr: &litMatcher{
-													pos:        position{line: 1295, col: 106, offset: 40368},
+													pos:        position{line: 1295, col: 106, offset: 40411},
 													val:        "))",
 													ignoreCase: false,
 													want:       "\"))\"",
 												},
 											},
 											&anyMatcher{
-												line: 1295, col: 111, offset: 40373,
+												line: 1295, col: 111, offset: 40416,
 											},
 										},
 									},
@@ -19404,21 +19404,21 @@ var g = &grammar{
 		},
 		{
 			name: "ImageBlock",
-			pos:  position{line: 1315, col: 1, offset: 41082},
+			pos:  position{line: 1315, col: 1, offset: 41125},
 			expr: &actionExpr{
-				pos: position{line: 1316, col: 5, offset: 41101},
+				pos: position{line: 1316, col: 5, offset: 41144},
 				run: (*parser).callonImageBlock1,
 				expr: &seqExpr{
-					pos: position{line: 1316, col: 5, offset: 41101},
+					pos: position{line: 1316, col: 5, offset: 41144},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1316, col: 5, offset: 41101},
+							pos:   position{line: 1316, col: 5, offset: 41144},
 							label: "start",
 							expr: &actionExpr{
-								pos: position{line: 2902, col: 16, offset: 91554},
+								pos: position{line: 2902, col: 16, offset: 91683},
 								run: (*parser).callonImageBlock4,
 								expr: &litMatcher{
-									pos:        position{line: 2902, col: 16, offset: 91554},
+									pos:        position{line: 2902, col: 16, offset: 91683},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -19426,57 +19426,57 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1316, col: 25, offset: 41121},
+							pos:        position{line: 1316, col: 25, offset: 41164},
 							val:        "image::",
 							ignoreCase: false,
 							want:       "\"image::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1316, col: 35, offset: 41131},
+							pos:   position{line: 1316, col: 35, offset: 41174},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2835, col: 13, offset: 89791},
+								pos: position{line: 2835, col: 13, offset: 89920},
 								run: (*parser).callonImageBlock8,
 								expr: &seqExpr{
-									pos: position{line: 2835, col: 13, offset: 89791},
+									pos: position{line: 2835, col: 13, offset: 89920},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2835, col: 13, offset: 89791},
+											pos:   position{line: 2835, col: 13, offset: 89920},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2835, col: 20, offset: 89798},
+												pos: position{line: 2835, col: 20, offset: 89927},
 												expr: &actionExpr{
-													pos: position{line: 2843, col: 11, offset: 90037},
+													pos: position{line: 2843, col: 11, offset: 90166},
 													run: (*parser).callonImageBlock12,
 													expr: &choiceExpr{
-														pos: position{line: 2843, col: 12, offset: 90038},
+														pos: position{line: 2843, col: 12, offset: 90167},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2843, col: 12, offset: 90038},
+																pos:        position{line: 2843, col: 12, offset: 90167},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2843, col: 24, offset: 90050},
+																pos:        position{line: 2843, col: 24, offset: 90179},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2843, col: 37, offset: 90063},
+																pos:        position{line: 2843, col: 37, offset: 90192},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2843, col: 48, offset: 90074},
+																pos:        position{line: 2843, col: 48, offset: 90203},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2843, col: 59, offset: 90085},
+																pos:        position{line: 2843, col: 59, offset: 90214},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19487,38 +19487,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2835, col: 30, offset: 89808},
+											pos:   position{line: 2835, col: 30, offset: 89937},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2848, col: 5, offset: 90149},
+												pos: position{line: 2848, col: 5, offset: 90278},
 												run: (*parser).callonImageBlock20,
 												expr: &labeledExpr{
-													pos:   position{line: 2848, col: 5, offset: 90149},
+													pos:   position{line: 2848, col: 5, offset: 90278},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2848, col: 14, offset: 90158},
+														pos: position{line: 2848, col: 14, offset: 90287},
 														expr: &choiceExpr{
-															pos: position{line: 2849, col: 9, offset: 90168},
+															pos: position{line: 2849, col: 9, offset: 90297},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2849, col: 9, offset: 90168},
+																	pos: position{line: 2849, col: 9, offset: 90297},
 																	run: (*parser).callonImageBlock24,
 																	expr: &seqExpr{
-																		pos: position{line: 2849, col: 9, offset: 90168},
+																		pos: position{line: 2849, col: 9, offset: 90297},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2849, col: 9, offset: 90168},
+																				pos: position{line: 2849, col: 9, offset: 90297},
 																				expr: &litMatcher{
-																					pos:        position{line: 2849, col: 10, offset: 90169},
+																					pos:        position{line: 2849, col: 10, offset: 90298},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2850, col: 9, offset: 90197},
+																				pos: position{line: 2850, col: 9, offset: 90326},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2850, col: 10, offset: 90198},
+																					pos:        position{line: 2850, col: 10, offset: 90327},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19529,27 +19529,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2853, col: 11, offset: 90410},
+																	pos: position{line: 2853, col: 11, offset: 90539},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2853, col: 11, offset: 90410},
+																			pos:        position{line: 2853, col: 11, offset: 90539},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2853, col: 19, offset: 90418},
+																			pos: position{line: 2853, col: 19, offset: 90547},
 																			expr: &seqExpr{
-																				pos: position{line: 2853, col: 21, offset: 90420},
+																				pos: position{line: 2853, col: 21, offset: 90549},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2853, col: 21, offset: 90420},
+																						pos: position{line: 2853, col: 21, offset: 90549},
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 10, offset: 91032},
+																							pos: position{line: 2877, col: 10, offset: 91161},
 																							run: (*parser).callonImageBlock35,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2877, col: 10, offset: 91032},
+																								pos:        position{line: 2877, col: 10, offset: 91161},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19558,11 +19558,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2853, col: 28, offset: 90427},
+																						pos: position{line: 2853, col: 28, offset: 90556},
 																						expr: &notExpr{
-																							pos: position{line: 2896, col: 8, offset: 91380},
+																							pos: position{line: 2896, col: 8, offset: 91509},
 																							expr: &anyMatcher{
-																								line: 2896, col: 9, offset: 91381,
+																								line: 2896, col: 9, offset: 91510,
 																							},
 																						},
 																					},
@@ -19961,10 +19961,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2856, col: 11, offset: 90547},
+																	pos: position{line: 2856, col: 11, offset: 90676},
 																	run: (*parser).callonImageBlock118,
 																	expr: &litMatcher{
-																		pos:        position{line: 2856, col: 11, offset: 90547},
+																		pos:        position{line: 2856, col: 11, offset: 90676},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -19981,20 +19981,20 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1316, col: 51, offset: 41147},
+							pos:   position{line: 1316, col: 51, offset: 41190},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1316, col: 63, offset: 41159},
+								pos:  position{line: 1316, col: 63, offset: 41202},
 								name: "InlineAttributes",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1316, col: 81, offset: 41177},
+							pos: position{line: 1316, col: 81, offset: 41220},
 							expr: &actionExpr{
-								pos: position{line: 2877, col: 10, offset: 91032},
+								pos: position{line: 2877, col: 10, offset: 91161},
 								run: (*parser).callonImageBlock123,
 								expr: &charClassMatcher{
-									pos:        position{line: 2877, col: 10, offset: 91032},
+									pos:        position{line: 2877, col: 10, offset: 91161},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -20003,13 +20003,13 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1316, col: 88, offset: 41184},
+							pos:   position{line: 1316, col: 88, offset: 41227},
 							label: "end",
 							expr: &actionExpr{
-								pos: position{line: 2902, col: 16, offset: 91554},
+								pos: position{line: 2902, col: 16, offset: 91683},
 								run: (*parser).callonImageBlock126,
 								expr: &litMatcher{
-									pos:        position{line: 2902, col: 16, offset: 91554},
+									pos:        position{line: 2902, col: 16, offset: 91683},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -20017,32 +20017,32 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1316, col: 106, offset: 41202},
+							pos: position{line: 1316, col: 106, offset: 41245},
 							run: (*parser).callonImageBlock128,
 						},
 						&choiceExpr{
-							pos: position{line: 2899, col: 8, offset: 91430},
+							pos: position{line: 2899, col: 8, offset: 91559},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2886, col: 12, offset: 91203},
+									pos: position{line: 2886, col: 12, offset: 91332},
 									run: (*parser).callonImageBlock130,
 									expr: &choiceExpr{
-										pos: position{line: 2886, col: 13, offset: 91204},
+										pos: position{line: 2886, col: 13, offset: 91333},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2886, col: 13, offset: 91204},
+												pos:        position{line: 2886, col: 13, offset: 91333},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2886, col: 20, offset: 91211},
+												pos:        position{line: 2886, col: 20, offset: 91340},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2886, col: 29, offset: 91220},
+												pos:        position{line: 2886, col: 29, offset: 91349},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -20051,9 +20051,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2896, col: 8, offset: 91380},
+									pos: position{line: 2896, col: 8, offset: 91509},
 									expr: &anyMatcher{
-										line: 2896, col: 9, offset: 91381,
+										line: 2896, col: 9, offset: 91510,
 									},
 								},
 							},
@@ -20064,74 +20064,74 @@ var g = &grammar{
 		},
 		{
 			name: "InlineImage",
-			pos:  position{line: 1321, col: 1, offset: 41442},
+			pos:  position{line: 1321, col: 1, offset: 41485},
 			expr: &actionExpr{
-				pos: position{line: 1321, col: 16, offset: 41457},
+				pos: position{line: 1321, col: 16, offset: 41500},
 				run: (*parser).callonInlineImage1,
 				expr: &seqExpr{
-					pos: position{line: 1321, col: 16, offset: 41457},
+					pos: position{line: 1321, col: 16, offset: 41500},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1321, col: 16, offset: 41457},
+							pos:        position{line: 1321, col: 16, offset: 41500},
 							val:        "image:",
 							ignoreCase: false,
 							want:       "\"image:\"",
 						},
 						&notExpr{
-							pos: position{line: 1321, col: 25, offset: 41466},
+							pos: position{line: 1321, col: 25, offset: 41509},
 							expr: &litMatcher{
-								pos:        position{line: 1321, col: 26, offset: 41467},
+								pos:        position{line: 1321, col: 26, offset: 41510},
 								val:        ":",
 								ignoreCase: false,
 								want:       "\":\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1321, col: 30, offset: 41471},
+							pos:   position{line: 1321, col: 30, offset: 41514},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2835, col: 13, offset: 89791},
+								pos: position{line: 2835, col: 13, offset: 89920},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2835, col: 13, offset: 89791},
+									pos: position{line: 2835, col: 13, offset: 89920},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2835, col: 13, offset: 89791},
+											pos:   position{line: 2835, col: 13, offset: 89920},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2835, col: 20, offset: 89798},
+												pos: position{line: 2835, col: 20, offset: 89927},
 												expr: &actionExpr{
-													pos: position{line: 2843, col: 11, offset: 90037},
+													pos: position{line: 2843, col: 11, offset: 90166},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2843, col: 12, offset: 90038},
+														pos: position{line: 2843, col: 12, offset: 90167},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2843, col: 12, offset: 90038},
+																pos:        position{line: 2843, col: 12, offset: 90167},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2843, col: 24, offset: 90050},
+																pos:        position{line: 2843, col: 24, offset: 90179},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2843, col: 37, offset: 90063},
+																pos:        position{line: 2843, col: 37, offset: 90192},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2843, col: 48, offset: 90074},
+																pos:        position{line: 2843, col: 48, offset: 90203},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2843, col: 59, offset: 90085},
+																pos:        position{line: 2843, col: 59, offset: 90214},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20142,38 +20142,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2835, col: 30, offset: 89808},
+											pos:   position{line: 2835, col: 30, offset: 89937},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2848, col: 5, offset: 90149},
+												pos: position{line: 2848, col: 5, offset: 90278},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2848, col: 5, offset: 90149},
+													pos:   position{line: 2848, col: 5, offset: 90278},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2848, col: 14, offset: 90158},
+														pos: position{line: 2848, col: 14, offset: 90287},
 														expr: &choiceExpr{
-															pos: position{line: 2849, col: 9, offset: 90168},
+															pos: position{line: 2849, col: 9, offset: 90297},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2849, col: 9, offset: 90168},
+																	pos: position{line: 2849, col: 9, offset: 90297},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2849, col: 9, offset: 90168},
+																		pos: position{line: 2849, col: 9, offset: 90297},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2849, col: 9, offset: 90168},
+																				pos: position{line: 2849, col: 9, offset: 90297},
 																				expr: &litMatcher{
-																					pos:        position{line: 2849, col: 10, offset: 90169},
+																					pos:        position{line: 2849, col: 10, offset: 90298},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2850, col: 9, offset: 90197},
+																				pos: position{line: 2850, col: 9, offset: 90326},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2850, col: 10, offset: 90198},
+																					pos:        position{line: 2850, col: 10, offset: 90327},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20184,27 +20184,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2853, col: 11, offset: 90410},
+																	pos: position{line: 2853, col: 11, offset: 90539},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2853, col: 11, offset: 90410},
+																			pos:        position{line: 2853, col: 11, offset: 90539},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2853, col: 19, offset: 90418},
+																			pos: position{line: 2853, col: 19, offset: 90547},
 																			expr: &seqExpr{
-																				pos: position{line: 2853, col: 21, offset: 90420},
+																				pos: position{line: 2853, col: 21, offset: 90549},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2853, col: 21, offset: 90420},
+																						pos: position{line: 2853, col: 21, offset: 90549},
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 10, offset: 91032},
+																							pos: position{line: 2877, col: 10, offset: 91161},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2877, col: 10, offset: 91032},
+																								pos:        position{line: 2877, col: 10, offset: 91161},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20213,11 +20213,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2853, col: 28, offset: 90427},
+																						pos: position{line: 2853, col: 28, offset: 90556},
 																						expr: &notExpr{
-																							pos: position{line: 2896, col: 8, offset: 91380},
+																							pos: position{line: 2896, col: 8, offset: 91509},
 																							expr: &anyMatcher{
-																								line: 2896, col: 9, offset: 91381,
+																								line: 2896, col: 9, offset: 91510,
 																							},
 																						},
 																					},
@@ -20616,10 +20616,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2856, col: 11, offset: 90547},
+																	pos: position{line: 2856, col: 11, offset: 90676},
 																	run: (*parser).callonInlineImage117,
 																	expr: &litMatcher{
-																		pos:        position{line: 2856, col: 11, offset: 90547},
+																		pos:        position{line: 2856, col: 11, offset: 90676},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20636,10 +20636,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1321, col: 46, offset: 41487},
+							pos:   position{line: 1321, col: 46, offset: 41530},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1321, col: 58, offset: 41499},
+								pos:  position{line: 1321, col: 58, offset: 41542},
 								name: "InlineAttributes",
 							},
 						},
@@ -20649,29 +20649,29 @@ var g = &grammar{
 		},
 		{
 			name: "InlineIcon",
-			pos:  position{line: 1328, col: 1, offset: 41895},
+			pos:  position{line: 1328, col: 1, offset: 41938},
 			expr: &actionExpr{
-				pos: position{line: 1328, col: 15, offset: 41909},
+				pos: position{line: 1328, col: 15, offset: 41952},
 				run: (*parser).callonInlineIcon1,
 				expr: &seqExpr{
-					pos: position{line: 1328, col: 15, offset: 41909},
+					pos: position{line: 1328, col: 15, offset: 41952},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1328, col: 15, offset: 41909},
+							pos:        position{line: 1328, col: 15, offset: 41952},
 							val:        "icon:",
 							ignoreCase: false,
 							want:       "\"icon:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1328, col: 23, offset: 41917},
+							pos:   position{line: 1328, col: 23, offset: 41960},
 							label: "icon",
 							expr: &actionExpr{
-								pos: position{line: 1328, col: 29, offset: 41923},
+								pos: position{line: 1328, col: 29, offset: 41966},
 								run: (*parser).callonInlineIcon5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1328, col: 29, offset: 41923},
+									pos: position{line: 1328, col: 29, offset: 41966},
 									expr: &charClassMatcher{
-										pos:        position{line: 1328, col: 29, offset: 41923},
+										pos:        position{line: 1328, col: 29, offset: 41966},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20682,10 +20682,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1328, col: 73, offset: 41967},
+							pos:   position{line: 1328, col: 73, offset: 42010},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1328, col: 85, offset: 41979},
+								pos:  position{line: 1328, col: 85, offset: 42022},
 								name: "InlineAttributes",
 							},
 						},
@@ -20695,31 +20695,31 @@ var g = &grammar{
 		},
 		{
 			name: "InlineFootnote",
-			pos:  position{line: 1335, col: 1, offset: 42345},
+			pos:  position{line: 1335, col: 1, offset: 42388},
 			expr: &actionExpr{
-				pos: position{line: 1335, col: 19, offset: 42363},
+				pos: position{line: 1335, col: 19, offset: 42406},
 				run: (*parser).callonInlineFootnote1,
 				expr: &seqExpr{
-					pos: position{line: 1335, col: 19, offset: 42363},
+					pos: position{line: 1335, col: 19, offset: 42406},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1335, col: 19, offset: 42363},
+							pos:        position{line: 1335, col: 19, offset: 42406},
 							val:        "footnote:",
 							ignoreCase: false,
 							want:       "\"footnote:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1335, col: 31, offset: 42375},
+							pos:   position{line: 1335, col: 31, offset: 42418},
 							label: "ref",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1335, col: 35, offset: 42379},
+								pos: position{line: 1335, col: 35, offset: 42422},
 								expr: &actionExpr{
-									pos: position{line: 1339, col: 16, offset: 42539},
+									pos: position{line: 1339, col: 16, offset: 42582},
 									run: (*parser).callonInlineFootnote6,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1339, col: 16, offset: 42539},
+										pos: position{line: 1339, col: 16, offset: 42582},
 										expr: &charClassMatcher{
-											pos:        position{line: 1339, col: 16, offset: 42539},
+											pos:        position{line: 1339, col: 16, offset: 42582},
 											val:        "[_-\\pL\\pN]",
 											chars:      []rune{'_', '-'},
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20731,21 +20731,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1335, col: 50, offset: 42394},
+							pos:        position{line: 1335, col: 50, offset: 42437},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1335, col: 54, offset: 42398},
+							pos:   position{line: 1335, col: 54, offset: 42441},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1335, col: 64, offset: 42408},
+								pos:  position{line: 1335, col: 64, offset: 42451},
 								name: "FootnoteElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1335, col: 82, offset: 42426},
+							pos:        position{line: 1335, col: 82, offset: 42469},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -20756,17 +20756,17 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElements",
-			pos:  position{line: 1341, col: 1, offset: 42583},
+			pos:  position{line: 1341, col: 1, offset: 42626},
 			expr: &actionExpr{
-				pos: position{line: 1341, col: 21, offset: 42603},
+				pos: position{line: 1341, col: 21, offset: 42646},
 				run: (*parser).callonFootnoteElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1341, col: 21, offset: 42603},
+					pos:   position{line: 1341, col: 21, offset: 42646},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1341, col: 30, offset: 42612},
+						pos: position{line: 1341, col: 30, offset: 42655},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1341, col: 31, offset: 42613},
+							pos:  position{line: 1341, col: 31, offset: 42656},
 							name: "FootnoteElement",
 						},
 					},
@@ -20775,44 +20775,44 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElement",
-			pos:  position{line: 1345, col: 1, offset: 42705},
+			pos:  position{line: 1345, col: 1, offset: 42748},
 			expr: &actionExpr{
-				pos: position{line: 1346, col: 5, offset: 42729},
+				pos: position{line: 1346, col: 5, offset: 42772},
 				run: (*parser).callonFootnoteElement1,
 				expr: &seqExpr{
-					pos: position{line: 1346, col: 5, offset: 42729},
+					pos: position{line: 1346, col: 5, offset: 42772},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1346, col: 5, offset: 42729},
+							pos: position{line: 1346, col: 5, offset: 42772},
 							expr: &litMatcher{
-								pos:        position{line: 1346, col: 6, offset: 42730},
+								pos:        position{line: 1346, col: 6, offset: 42773},
 								val:        "]",
 								ignoreCase: false,
 								want:       "\"]\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1347, col: 5, offset: 42739},
+							pos:   position{line: 1347, col: 5, offset: 42782},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1348, col: 9, offset: 42757},
+								pos: position{line: 1348, col: 9, offset: 42800},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2776, col: 5, offset: 88253},
+										pos: position{line: 2776, col: 5, offset: 88382},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2776, col: 5, offset: 88253},
+											pos: position{line: 2776, col: 5, offset: 88382},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2776, col: 5, offset: 88253},
+													pos:   position{line: 2776, col: 5, offset: 88382},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2776, col: 11, offset: 88259},
+														pos: position{line: 2776, col: 11, offset: 88388},
 														run: (*parser).callonFootnoteElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2776, col: 11, offset: 88259},
+															pos: position{line: 2776, col: 11, offset: 88388},
 															expr: &charClassMatcher{
-																pos:        position{line: 2776, col: 11, offset: 88259},
+																pos:        position{line: 2776, col: 11, offset: 88388},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -20822,44 +20822,44 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2779, col: 5, offset: 88317},
+													pos: position{line: 2779, col: 5, offset: 88446},
 													expr: &seqExpr{
-														pos: position{line: 2780, col: 9, offset: 88328},
+														pos: position{line: 2780, col: 9, offset: 88457},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2780, col: 9, offset: 88328},
+																pos:        position{line: 2780, col: 9, offset: 88457},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2781, col: 9, offset: 88377},
+																pos: position{line: 2781, col: 9, offset: 88506},
 																run: (*parser).callonFootnoteElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2785, col: 5, offset: 88457},
+													pos: position{line: 2785, col: 5, offset: 88586},
 													expr: &seqExpr{
-														pos: position{line: 2786, col: 9, offset: 88468},
+														pos: position{line: 2786, col: 9, offset: 88597},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2786, col: 9, offset: 88468},
+																pos: position{line: 2786, col: 9, offset: 88597},
 																expr: &seqExpr{
-																	pos: position{line: 2786, col: 10, offset: 88469},
+																	pos: position{line: 2786, col: 10, offset: 88598},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2786, col: 10, offset: 88469},
+																			pos:        position{line: 2786, col: 10, offset: 88598},
 																			val:        "[._%+-]",
 																			chars:      []rune{'.', '_', '%', '+', '-'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2786, col: 18, offset: 88477},
+																			pos: position{line: 2786, col: 18, offset: 88606},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2786, col: 18, offset: 88477},
+																				pos:        position{line: 2786, col: 18, offset: 88606},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -20870,13 +20870,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2786, col: 30, offset: 88489},
+																pos:        position{line: 2786, col: 30, offset: 88618},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2786, col: 34, offset: 88493},
+																pos:        position{line: 2786, col: 34, offset: 88622},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -20889,12 +20889,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2881, col: 11, offset: 91093},
+										pos: position{line: 2881, col: 11, offset: 91222},
 										run: (*parser).callonFootnoteElement26,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2881, col: 11, offset: 91093},
+											pos: position{line: 2881, col: 11, offset: 91222},
 											expr: &charClassMatcher{
-												pos:        position{line: 2881, col: 11, offset: 91093},
+												pos:        position{line: 2881, col: 11, offset: 91222},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -20903,25 +20903,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2502, col: 5, offset: 80635},
+										pos: position{line: 2502, col: 5, offset: 80764},
 										run: (*parser).callonFootnoteElement29,
 										expr: &seqExpr{
-											pos: position{line: 2502, col: 5, offset: 80635},
+											pos: position{line: 2502, col: 5, offset: 80764},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2502, col: 5, offset: 80635},
+													pos: position{line: 2502, col: 5, offset: 80764},
 													run: (*parser).callonFootnoteElement31,
 												},
 												&litMatcher{
-													pos:        position{line: 2505, col: 5, offset: 80706},
+													pos:        position{line: 2505, col: 5, offset: 80835},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2505, col: 10, offset: 80711},
+													pos: position{line: 2505, col: 10, offset: 80840},
 													expr: &charClassMatcher{
-														pos:        position{line: 2505, col: 11, offset: 80712},
+														pos:        position{line: 2505, col: 11, offset: 80841},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -20932,29 +20932,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2511, col: 5, offset: 80904},
+										pos: position{line: 2511, col: 5, offset: 81033},
 										run: (*parser).callonFootnoteElement35,
 										expr: &seqExpr{
-											pos: position{line: 2511, col: 5, offset: 80904},
+											pos: position{line: 2511, col: 5, offset: 81033},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2511, col: 5, offset: 80904},
+													pos: position{line: 2511, col: 5, offset: 81033},
 													run: (*parser).callonFootnoteElement37,
 												},
 												&andCodeExpr{
-													pos: position{line: 2514, col: 5, offset: 80975},
+													pos: position{line: 2514, col: 5, offset: 81104},
 													run: (*parser).callonFootnoteElement38,
 												},
 												&litMatcher{
-													pos:        position{line: 2518, col: 5, offset: 81100},
+													pos:        position{line: 2518, col: 5, offset: 81229},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2518, col: 9, offset: 81104},
+													pos: position{line: 2518, col: 9, offset: 81233},
 													expr: &charClassMatcher{
-														pos:        position{line: 2518, col: 10, offset: 81105},
+														pos:        position{line: 2518, col: 10, offset: 81234},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -20965,35 +20965,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1351, col: 11, offset: 42824},
+										pos:  position{line: 1351, col: 11, offset: 42867},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1352, col: 11, offset: 42840},
+										pos:  position{line: 1352, col: 11, offset: 42883},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2794, col: 5, offset: 88686},
+										pos: position{line: 2794, col: 5, offset: 88815},
 										run: (*parser).callonFootnoteElement44,
 										expr: &choiceExpr{
-											pos: position{line: 2795, col: 9, offset: 88696},
+											pos: position{line: 2795, col: 9, offset: 88825},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2795, col: 10, offset: 88697},
+													pos:        position{line: 2795, col: 10, offset: 88826},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2797, col: 13, offset: 88794},
+													pos: position{line: 2797, col: 13, offset: 88923},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2797, col: 13, offset: 88794},
+															pos: position{line: 2797, col: 13, offset: 88923},
 															run: (*parser).callonFootnoteElement48,
 														},
 														&litMatcher{
-															pos:        position{line: 2800, col: 13, offset: 88894},
+															pos:        position{line: 2800, col: 13, offset: 89023},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -21001,20 +21001,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2800, col: 19, offset: 88900},
+													pos:        position{line: 2800, col: 19, offset: 89029},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2803, col: 13, offset: 88938},
+													pos: position{line: 2803, col: 13, offset: 89067},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2803, col: 13, offset: 88938},
+															pos: position{line: 2803, col: 13, offset: 89067},
 															run: (*parser).callonFootnoteElement52,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2806, col: 14, offset: 89031},
+															pos:        position{line: 2806, col: 14, offset: 89160},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -21023,18 +21023,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2808, col: 12, offset: 89075},
+													pos: position{line: 2808, col: 12, offset: 89204},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2808, col: 12, offset: 89075},
+															pos:        position{line: 2808, col: 12, offset: 89204},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2808, col: 16, offset: 89079},
+															pos: position{line: 2808, col: 16, offset: 89208},
 															expr: &litMatcher{
-																pos:        position{line: 2808, col: 17, offset: 89080},
+																pos:        position{line: 2808, col: 17, offset: 89209},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -21046,7 +21046,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1354, col: 11, offset: 42913},
+										pos:  position{line: 1354, col: 11, offset: 42956},
 										name: "InlineMacro",
 									},
 									&actionExpr{
@@ -21072,10 +21072,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 1218, col: 5, offset: 37733},
 													expr: &actionExpr{
-														pos: position{line: 2877, col: 10, offset: 91032},
+														pos: position{line: 2877, col: 10, offset: 91161},
 														run: (*parser).callonFootnoteElement65,
 														expr: &charClassMatcher{
-															pos:        position{line: 2877, col: 10, offset: 91032},
+															pos:        position{line: 2877, col: 10, offset: 91161},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -21086,28 +21086,28 @@ var g = &grammar{
 												&andExpr{
 													pos: position{line: 1218, col: 12, offset: 37740},
 													expr: &choiceExpr{
-														pos: position{line: 2899, col: 8, offset: 91430},
+														pos: position{line: 2899, col: 8, offset: 91559},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2886, col: 12, offset: 91203},
+																pos: position{line: 2886, col: 12, offset: 91332},
 																run: (*parser).callonFootnoteElement69,
 																expr: &choiceExpr{
-																	pos: position{line: 2886, col: 13, offset: 91204},
+																	pos: position{line: 2886, col: 13, offset: 91333},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 13, offset: 91204},
+																			pos:        position{line: 2886, col: 13, offset: 91333},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 20, offset: 91211},
+																			pos:        position{line: 2886, col: 20, offset: 91340},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 29, offset: 91220},
+																			pos:        position{line: 2886, col: 29, offset: 91349},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -21116,9 +21116,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2896, col: 8, offset: 91380},
+																pos: position{line: 2896, col: 8, offset: 91509},
 																expr: &anyMatcher{
-																	line: 2896, col: 9, offset: 91381,
+																	line: 2896, col: 9, offset: 91510,
 																},
 															},
 														},
@@ -21474,23 +21474,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2471, col: 5, offset: 79464},
+										pos: position{line: 2471, col: 5, offset: 79593},
 										run: (*parser).callonFootnoteElement145,
 										expr: &seqExpr{
-											pos: position{line: 2471, col: 5, offset: 79464},
+											pos: position{line: 2471, col: 5, offset: 79593},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2471, col: 5, offset: 79464},
+													pos: position{line: 2471, col: 5, offset: 79593},
 													run: (*parser).callonFootnoteElement147,
 												},
 												&labeledExpr{
-													pos:   position{line: 2474, col: 5, offset: 79540},
+													pos:   position{line: 2474, col: 5, offset: 79669},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2475, col: 9, offset: 79558},
+														pos: position{line: 2475, col: 9, offset: 79687},
 														run: (*parser).callonFootnoteElement149,
 														expr: &charClassMatcher{
-															pos:        position{line: 2475, col: 10, offset: 79559},
+															pos:        position{line: 2475, col: 10, offset: 79688},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -21502,25 +21502,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2886, col: 12, offset: 91203},
+										pos: position{line: 2886, col: 12, offset: 91332},
 										run: (*parser).callonFootnoteElement151,
 										expr: &choiceExpr{
-											pos: position{line: 2886, col: 13, offset: 91204},
+											pos: position{line: 2886, col: 13, offset: 91333},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2886, col: 13, offset: 91204},
+													pos:        position{line: 2886, col: 13, offset: 91333},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2886, col: 20, offset: 91211},
+													pos:        position{line: 2886, col: 20, offset: 91340},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2886, col: 29, offset: 91220},
+													pos:        position{line: 2886, col: 29, offset: 91349},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -21529,10 +21529,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2816, col: 12, offset: 89340},
+										pos: position{line: 2816, col: 12, offset: 89469},
 										run: (*parser).callonFootnoteElement156,
 										expr: &charClassMatcher{
-											pos:        position{line: 2816, col: 12, offset: 89340},
+											pos:        position{line: 2816, col: 12, offset: 89469},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -21548,32 +21548,32 @@ var g = &grammar{
 		},
 		{
 			name: "PassthroughMacro",
-			pos:  position{line: 1393, col: 1, offset: 44758},
+			pos:  position{line: 1393, col: 1, offset: 44801},
 			expr: &choiceExpr{
-				pos: position{line: 1393, col: 21, offset: 44778},
+				pos: position{line: 1393, col: 21, offset: 44821},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1393, col: 21, offset: 44778},
+						pos: position{line: 1393, col: 21, offset: 44821},
 						run: (*parser).callonPassthroughMacro2,
 						expr: &seqExpr{
-							pos: position{line: 1393, col: 21, offset: 44778},
+							pos: position{line: 1393, col: 21, offset: 44821},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1393, col: 21, offset: 44778},
+									pos:        position{line: 1393, col: 21, offset: 44821},
 									val:        "pass:[",
 									ignoreCase: false,
 									want:       "\"pass:[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1393, col: 30, offset: 44787},
+									pos:   position{line: 1393, col: 30, offset: 44830},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1393, col: 38, offset: 44795},
+										pos: position{line: 1393, col: 38, offset: 44838},
 										expr: &actionExpr{
-											pos: position{line: 1409, col: 30, offset: 45385},
+											pos: position{line: 1409, col: 30, offset: 45428},
 											run: (*parser).callonPassthroughMacro7,
 											expr: &charClassMatcher{
-												pos:        position{line: 1409, col: 30, offset: 45385},
+												pos:        position{line: 1409, col: 30, offset: 45428},
 												val:        "[^]]",
 												chars:      []rune{']'},
 												ignoreCase: false,
@@ -21583,7 +21583,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1393, col: 67, offset: 44824},
+									pos:        position{line: 1393, col: 67, offset: 44867},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -21592,34 +21592,34 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1395, col: 9, offset: 44928},
+						pos: position{line: 1395, col: 9, offset: 44971},
 						run: (*parser).callonPassthroughMacro10,
 						expr: &seqExpr{
-							pos: position{line: 1395, col: 9, offset: 44928},
+							pos: position{line: 1395, col: 9, offset: 44971},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 1399, col: 33, offset: 45134},
+									pos: position{line: 1399, col: 33, offset: 45177},
 									run: (*parser).callonPassthroughMacro12,
 									expr: &litMatcher{
-										pos:        position{line: 1399, col: 33, offset: 45134},
+										pos:        position{line: 1399, col: 33, offset: 45177},
 										val:        "pass:q[",
 										ignoreCase: false,
 										want:       "\"pass:q[\"",
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1395, col: 38, offset: 44957},
+									pos:   position{line: 1395, col: 38, offset: 45000},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1395, col: 46, offset: 44965},
+										pos: position{line: 1395, col: 46, offset: 45008},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1395, col: 47, offset: 44966},
+											pos:  position{line: 1395, col: 47, offset: 45009},
 											name: "PassthroughMacroQuotesElement",
 										},
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1395, col: 79, offset: 44998},
+									pos:        position{line: 1395, col: 79, offset: 45041},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -21632,25 +21632,25 @@ var g = &grammar{
 		},
 		{
 			name: "PassthroughMacroQuotesElement",
-			pos:  position{line: 1404, col: 1, offset: 45205},
+			pos:  position{line: 1404, col: 1, offset: 45248},
 			expr: &actionExpr{
-				pos: position{line: 1404, col: 34, offset: 45238},
+				pos: position{line: 1404, col: 34, offset: 45281},
 				run: (*parser).callonPassthroughMacroQuotesElement1,
 				expr: &labeledExpr{
-					pos:   position{line: 1404, col: 34, offset: 45238},
+					pos:   position{line: 1404, col: 34, offset: 45281},
 					label: "element",
 					expr: &choiceExpr{
-						pos: position{line: 1404, col: 43, offset: 45247},
+						pos: position{line: 1404, col: 43, offset: 45290},
 						alternatives: []interface{}{
 							&ruleRefExpr{
-								pos:  position{line: 1404, col: 43, offset: 45247},
+								pos:  position{line: 1404, col: 43, offset: 45290},
 								name: "QuotedText",
 							},
 							&actionExpr{
-								pos: position{line: 1409, col: 30, offset: 45385},
+								pos: position{line: 1409, col: 30, offset: 45428},
 								run: (*parser).callonPassthroughMacroQuotesElement5,
 								expr: &charClassMatcher{
-									pos:        position{line: 1409, col: 30, offset: 45385},
+									pos:        position{line: 1409, col: 30, offset: 45428},
 									val:        "[^]]",
 									chars:      []rune{']'},
 									ignoreCase: false,
@@ -21664,75 +21664,75 @@ var g = &grammar{
 		},
 		{
 			name: "Link",
-			pos:  position{line: 1416, col: 1, offset: 45641},
+			pos:  position{line: 1416, col: 1, offset: 45684},
 			expr: &choiceExpr{
-				pos: position{line: 1416, col: 9, offset: 45649},
+				pos: position{line: 1416, col: 9, offset: 45692},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1419, col: 5, offset: 45718},
+						pos: position{line: 1419, col: 5, offset: 45761},
 						run: (*parser).callonLink2,
 						expr: &seqExpr{
-							pos: position{line: 1419, col: 5, offset: 45718},
+							pos: position{line: 1419, col: 5, offset: 45761},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1419, col: 5, offset: 45718},
+									pos:        position{line: 1419, col: 5, offset: 45761},
 									val:        "<",
 									ignoreCase: false,
 									want:       "\"<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1420, col: 5, offset: 45727},
+									pos:   position{line: 1420, col: 5, offset: 45770},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2839, col: 23, offset: 89918},
+										pos: position{line: 2839, col: 23, offset: 90047},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2839, col: 23, offset: 89918},
+											pos: position{line: 2839, col: 23, offset: 90047},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2839, col: 23, offset: 89918},
+													pos: position{line: 2839, col: 23, offset: 90047},
 													expr: &litMatcher{
-														pos:        position{line: 2839, col: 24, offset: 89919},
+														pos:        position{line: 2839, col: 24, offset: 90048},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2839, col: 28, offset: 89923},
+													pos:   position{line: 2839, col: 28, offset: 90052},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2843, col: 11, offset: 90037},
+														pos: position{line: 2843, col: 11, offset: 90166},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2843, col: 12, offset: 90038},
+															pos: position{line: 2843, col: 12, offset: 90167},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2843, col: 12, offset: 90038},
+																	pos:        position{line: 2843, col: 12, offset: 90167},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2843, col: 24, offset: 90050},
+																	pos:        position{line: 2843, col: 24, offset: 90179},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2843, col: 37, offset: 90063},
+																	pos:        position{line: 2843, col: 37, offset: 90192},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2843, col: 48, offset: 90074},
+																	pos:        position{line: 2843, col: 48, offset: 90203},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2843, col: 59, offset: 90085},
+																	pos:        position{line: 2843, col: 59, offset: 90214},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -21742,38 +21742,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2839, col: 44, offset: 89939},
+													pos:   position{line: 2839, col: 44, offset: 90068},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2848, col: 5, offset: 90149},
+														pos: position{line: 2848, col: 5, offset: 90278},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2848, col: 5, offset: 90149},
+															pos:   position{line: 2848, col: 5, offset: 90278},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2848, col: 14, offset: 90158},
+																pos: position{line: 2848, col: 14, offset: 90287},
 																expr: &choiceExpr{
-																	pos: position{line: 2849, col: 9, offset: 90168},
+																	pos: position{line: 2849, col: 9, offset: 90297},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2849, col: 9, offset: 90168},
+																			pos: position{line: 2849, col: 9, offset: 90297},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2849, col: 9, offset: 90168},
+																				pos: position{line: 2849, col: 9, offset: 90297},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2849, col: 9, offset: 90168},
+																						pos: position{line: 2849, col: 9, offset: 90297},
 																						expr: &litMatcher{
-																							pos:        position{line: 2849, col: 10, offset: 90169},
+																							pos:        position{line: 2849, col: 10, offset: 90298},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2850, col: 9, offset: 90197},
+																						pos: position{line: 2850, col: 9, offset: 90326},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2850, col: 10, offset: 90198},
+																							pos:        position{line: 2850, col: 10, offset: 90327},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -21784,27 +21784,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2853, col: 11, offset: 90410},
+																			pos: position{line: 2853, col: 11, offset: 90539},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2853, col: 11, offset: 90410},
+																					pos:        position{line: 2853, col: 11, offset: 90539},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2853, col: 19, offset: 90418},
+																					pos: position{line: 2853, col: 19, offset: 90547},
 																					expr: &seqExpr{
-																						pos: position{line: 2853, col: 21, offset: 90420},
+																						pos: position{line: 2853, col: 21, offset: 90549},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2853, col: 21, offset: 90420},
+																								pos: position{line: 2853, col: 21, offset: 90549},
 																								expr: &actionExpr{
-																									pos: position{line: 2877, col: 10, offset: 91032},
+																									pos: position{line: 2877, col: 10, offset: 91161},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 10, offset: 91032},
+																										pos:        position{line: 2877, col: 10, offset: 91161},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -21813,11 +21813,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2853, col: 28, offset: 90427},
+																								pos: position{line: 2853, col: 28, offset: 90556},
 																								expr: &notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91380},
+																									pos: position{line: 2896, col: 8, offset: 91509},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91381,
+																										line: 2896, col: 9, offset: 91510,
 																									},
 																								},
 																							},
@@ -22216,10 +22216,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2856, col: 11, offset: 90547},
+																			pos: position{line: 2856, col: 11, offset: 90676},
 																			run: (*parser).callonLink117,
 																			expr: &litMatcher{
-																				pos:        position{line: 2856, col: 11, offset: 90547},
+																				pos:        position{line: 2856, col: 11, offset: 90676},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22236,7 +22236,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1425, col: 5, offset: 45946},
+									pos:        position{line: 1425, col: 5, offset: 45989},
 									val:        ">",
 									ignoreCase: false,
 									want:       "\">\"",
@@ -22245,38 +22245,38 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1416, col: 19, offset: 45659},
+						pos:  position{line: 1416, col: 19, offset: 45702},
 						name: "RelativeLink",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1416, col: 34, offset: 45674},
+						pos:  position{line: 1416, col: 34, offset: 45717},
 						name: "ExternalLink",
 					},
 					&actionExpr{
-						pos: position{line: 1454, col: 17, offset: 46939},
+						pos: position{line: 1454, col: 17, offset: 47068},
 						run: (*parser).callonLink122,
 						expr: &seqExpr{
-							pos: position{line: 1454, col: 17, offset: 46939},
+							pos: position{line: 1454, col: 17, offset: 47068},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1454, col: 17, offset: 46939},
+									pos:   position{line: 1454, col: 17, offset: 47068},
 									label: "local",
 									expr: &actionExpr{
-										pos: position{line: 1459, col: 5, offset: 47104},
+										pos: position{line: 1459, col: 5, offset: 47233},
 										run: (*parser).callonLink125,
 										expr: &seqExpr{
-											pos: position{line: 1459, col: 5, offset: 47104},
+											pos: position{line: 1459, col: 5, offset: 47233},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1459, col: 5, offset: 47104},
+													pos:   position{line: 1459, col: 5, offset: 47233},
 													label: "local",
 													expr: &actionExpr{
-														pos: position{line: 1459, col: 12, offset: 47111},
+														pos: position{line: 1459, col: 12, offset: 47240},
 														run: (*parser).callonLink128,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1459, col: 12, offset: 47111},
+															pos: position{line: 1459, col: 12, offset: 47240},
 															expr: &charClassMatcher{
-																pos:        position{line: 1459, col: 12, offset: 47111},
+																pos:        position{line: 1459, col: 12, offset: 47240},
 																val:        "[!#$%&\\*=?^_`{|}~.+-/\\pL\\pN]",
 																chars:      []rune{'!', '#', '$', '%', '&', '\'', '*', '=', '?', '^', '_', '`', '{', '|', '}', '~', '.'},
 																ranges:     []rune{'+', '/'},
@@ -22288,7 +22288,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1462, col: 5, offset: 47195},
+													pos: position{line: 1462, col: 5, offset: 47324},
 													run: (*parser).callonLink131,
 												},
 											},
@@ -22296,24 +22296,24 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1454, col: 43, offset: 46965},
+									pos:        position{line: 1454, col: 43, offset: 47094},
 									val:        "@",
 									ignoreCase: false,
 									want:       "\"@\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1454, col: 47, offset: 46969},
+									pos:   position{line: 1454, col: 47, offset: 47098},
 									label: "domain",
 									expr: &actionExpr{
-										pos: position{line: 1472, col: 23, offset: 47546},
+										pos: position{line: 1472, col: 23, offset: 47675},
 										run: (*parser).callonLink134,
 										expr: &seqExpr{
-											pos: position{line: 1472, col: 23, offset: 47546},
+											pos: position{line: 1472, col: 23, offset: 47675},
 											exprs: []interface{}{
 												&oneOrMoreExpr{
-													pos: position{line: 1476, col: 28, offset: 47672},
+													pos: position{line: 1476, col: 28, offset: 47801},
 													expr: &charClassMatcher{
-														pos:        position{line: 1476, col: 28, offset: 47672},
+														pos:        position{line: 1476, col: 28, offset: 47801},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -22321,20 +22321,20 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1476, col: 38, offset: 47682},
+													pos: position{line: 1476, col: 38, offset: 47811},
 													expr: &seqExpr{
-														pos: position{line: 1476, col: 39, offset: 47683},
+														pos: position{line: 1476, col: 39, offset: 47812},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 1476, col: 39, offset: 47683},
+																pos:        position{line: 1476, col: 39, offset: 47812},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 															&oneOrMoreExpr{
-																pos: position{line: 1476, col: 43, offset: 47687},
+																pos: position{line: 1476, col: 43, offset: 47816},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1476, col: 43, offset: 47687},
+																	pos:        position{line: 1476, col: 43, offset: 47816},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -22345,20 +22345,20 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1472, col: 47, offset: 47570},
+													pos: position{line: 1472, col: 47, offset: 47699},
 													expr: &seqExpr{
-														pos: position{line: 1472, col: 48, offset: 47571},
+														pos: position{line: 1472, col: 48, offset: 47700},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 1472, col: 48, offset: 47571},
+																pos:        position{line: 1472, col: 48, offset: 47700},
 																val:        ".",
 																ignoreCase: false,
 																want:       "\".\"",
 															},
 															&oneOrMoreExpr{
-																pos: position{line: 1476, col: 28, offset: 47672},
+																pos: position{line: 1476, col: 28, offset: 47801},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1476, col: 28, offset: 47672},
+																	pos:        position{line: 1476, col: 28, offset: 47801},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -22366,20 +22366,20 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 1476, col: 38, offset: 47682},
+																pos: position{line: 1476, col: 38, offset: 47811},
 																expr: &seqExpr{
-																	pos: position{line: 1476, col: 39, offset: 47683},
+																	pos: position{line: 1476, col: 39, offset: 47812},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 1476, col: 39, offset: 47683},
+																			pos:        position{line: 1476, col: 39, offset: 47812},
 																			val:        "-",
 																			ignoreCase: false,
 																			want:       "\"-\"",
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 1476, col: 43, offset: 47687},
+																			pos: position{line: 1476, col: 43, offset: 47816},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1476, col: 43, offset: 47687},
+																				pos:        position{line: 1476, col: 43, offset: 47816},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -22404,68 +22404,68 @@ var g = &grammar{
 		},
 		{
 			name: "RelativeLink",
-			pos:  position{line: 1431, col: 1, offset: 46094},
+			pos:  position{line: 1431, col: 1, offset: 46137},
 			expr: &choiceExpr{
-				pos: position{line: 1433, col: 5, offset: 46130},
+				pos: position{line: 1433, col: 5, offset: 46173},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1433, col: 5, offset: 46130},
+						pos: position{line: 1433, col: 5, offset: 46173},
 						run: (*parser).callonRelativeLink2,
 						expr: &seqExpr{
-							pos: position{line: 1433, col: 5, offset: 46130},
+							pos: position{line: 1433, col: 5, offset: 46173},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1433, col: 5, offset: 46130},
+									pos:        position{line: 1433, col: 5, offset: 46173},
 									val:        "\\link:",
 									ignoreCase: false,
 									want:       "\"\\\\link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1433, col: 17, offset: 46142},
+									pos:   position{line: 1433, col: 17, offset: 46185},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2835, col: 13, offset: 89791},
+										pos: position{line: 2835, col: 13, offset: 89920},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2835, col: 13, offset: 89791},
+											pos: position{line: 2835, col: 13, offset: 89920},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2835, col: 13, offset: 89791},
+													pos:   position{line: 2835, col: 13, offset: 89920},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2835, col: 20, offset: 89798},
+														pos: position{line: 2835, col: 20, offset: 89927},
 														expr: &actionExpr{
-															pos: position{line: 2843, col: 11, offset: 90037},
+															pos: position{line: 2843, col: 11, offset: 90166},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2843, col: 12, offset: 90038},
+																pos: position{line: 2843, col: 12, offset: 90167},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2843, col: 12, offset: 90038},
+																		pos:        position{line: 2843, col: 12, offset: 90167},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2843, col: 24, offset: 90050},
+																		pos:        position{line: 2843, col: 24, offset: 90179},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2843, col: 37, offset: 90063},
+																		pos:        position{line: 2843, col: 37, offset: 90192},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2843, col: 48, offset: 90074},
+																		pos:        position{line: 2843, col: 48, offset: 90203},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2843, col: 59, offset: 90085},
+																		pos:        position{line: 2843, col: 59, offset: 90214},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22476,38 +22476,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2835, col: 30, offset: 89808},
+													pos:   position{line: 2835, col: 30, offset: 89937},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2848, col: 5, offset: 90149},
+														pos: position{line: 2848, col: 5, offset: 90278},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2848, col: 5, offset: 90149},
+															pos:   position{line: 2848, col: 5, offset: 90278},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2848, col: 14, offset: 90158},
+																pos: position{line: 2848, col: 14, offset: 90287},
 																expr: &choiceExpr{
-																	pos: position{line: 2849, col: 9, offset: 90168},
+																	pos: position{line: 2849, col: 9, offset: 90297},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2849, col: 9, offset: 90168},
+																			pos: position{line: 2849, col: 9, offset: 90297},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2849, col: 9, offset: 90168},
+																				pos: position{line: 2849, col: 9, offset: 90297},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2849, col: 9, offset: 90168},
+																						pos: position{line: 2849, col: 9, offset: 90297},
 																						expr: &litMatcher{
-																							pos:        position{line: 2849, col: 10, offset: 90169},
+																							pos:        position{line: 2849, col: 10, offset: 90298},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2850, col: 9, offset: 90197},
+																						pos: position{line: 2850, col: 9, offset: 90326},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2850, col: 10, offset: 90198},
+																							pos:        position{line: 2850, col: 10, offset: 90327},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22518,27 +22518,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2853, col: 11, offset: 90410},
+																			pos: position{line: 2853, col: 11, offset: 90539},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2853, col: 11, offset: 90410},
+																					pos:        position{line: 2853, col: 11, offset: 90539},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2853, col: 19, offset: 90418},
+																					pos: position{line: 2853, col: 19, offset: 90547},
 																					expr: &seqExpr{
-																						pos: position{line: 2853, col: 21, offset: 90420},
+																						pos: position{line: 2853, col: 21, offset: 90549},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2853, col: 21, offset: 90420},
+																								pos: position{line: 2853, col: 21, offset: 90549},
 																								expr: &actionExpr{
-																									pos: position{line: 2877, col: 10, offset: 91032},
+																									pos: position{line: 2877, col: 10, offset: 91161},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 10, offset: 91032},
+																										pos:        position{line: 2877, col: 10, offset: 91161},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22547,11 +22547,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2853, col: 28, offset: 90427},
+																								pos: position{line: 2853, col: 28, offset: 90556},
 																								expr: &notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91380},
+																									pos: position{line: 2896, col: 8, offset: 91509},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91381,
+																										line: 2896, col: 9, offset: 91510,
 																									},
 																								},
 																							},
@@ -22950,10 +22950,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2856, col: 11, offset: 90547},
+																			pos: position{line: 2856, col: 11, offset: 90676},
 																			run: (*parser).callonRelativeLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2856, col: 11, offset: 90547},
+																				pos:        position{line: 2856, col: 11, offset: 90676},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22970,10 +22970,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1433, col: 32, offset: 46157},
+									pos:   position{line: 1433, col: 32, offset: 46200},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1433, col: 44, offset: 46169},
+										pos:  position{line: 1433, col: 44, offset: 46212},
 										name: "InlineAttributes",
 									},
 								},
@@ -22981,63 +22981,63 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1438, col: 5, offset: 46301},
+						pos: position{line: 1438, col: 5, offset: 46387},
 						run: (*parser).callonRelativeLink120,
 						expr: &seqExpr{
-							pos: position{line: 1438, col: 5, offset: 46301},
+							pos: position{line: 1438, col: 5, offset: 46387},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1438, col: 5, offset: 46301},
+									pos:        position{line: 1438, col: 5, offset: 46387},
 									val:        "link:",
 									ignoreCase: false,
 									want:       "\"link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1438, col: 13, offset: 46309},
+									pos:   position{line: 1438, col: 13, offset: 46395},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2835, col: 13, offset: 89791},
+										pos: position{line: 2835, col: 13, offset: 89920},
 										run: (*parser).callonRelativeLink124,
 										expr: &seqExpr{
-											pos: position{line: 2835, col: 13, offset: 89791},
+											pos: position{line: 2835, col: 13, offset: 89920},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2835, col: 13, offset: 89791},
+													pos:   position{line: 2835, col: 13, offset: 89920},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2835, col: 20, offset: 89798},
+														pos: position{line: 2835, col: 20, offset: 89927},
 														expr: &actionExpr{
-															pos: position{line: 2843, col: 11, offset: 90037},
+															pos: position{line: 2843, col: 11, offset: 90166},
 															run: (*parser).callonRelativeLink128,
 															expr: &choiceExpr{
-																pos: position{line: 2843, col: 12, offset: 90038},
+																pos: position{line: 2843, col: 12, offset: 90167},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2843, col: 12, offset: 90038},
+																		pos:        position{line: 2843, col: 12, offset: 90167},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2843, col: 24, offset: 90050},
+																		pos:        position{line: 2843, col: 24, offset: 90179},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2843, col: 37, offset: 90063},
+																		pos:        position{line: 2843, col: 37, offset: 90192},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2843, col: 48, offset: 90074},
+																		pos:        position{line: 2843, col: 48, offset: 90203},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2843, col: 59, offset: 90085},
+																		pos:        position{line: 2843, col: 59, offset: 90214},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23048,38 +23048,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2835, col: 30, offset: 89808},
+													pos:   position{line: 2835, col: 30, offset: 89937},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2848, col: 5, offset: 90149},
+														pos: position{line: 2848, col: 5, offset: 90278},
 														run: (*parser).callonRelativeLink136,
 														expr: &labeledExpr{
-															pos:   position{line: 2848, col: 5, offset: 90149},
+															pos:   position{line: 2848, col: 5, offset: 90278},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2848, col: 14, offset: 90158},
+																pos: position{line: 2848, col: 14, offset: 90287},
 																expr: &choiceExpr{
-																	pos: position{line: 2849, col: 9, offset: 90168},
+																	pos: position{line: 2849, col: 9, offset: 90297},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2849, col: 9, offset: 90168},
+																			pos: position{line: 2849, col: 9, offset: 90297},
 																			run: (*parser).callonRelativeLink140,
 																			expr: &seqExpr{
-																				pos: position{line: 2849, col: 9, offset: 90168},
+																				pos: position{line: 2849, col: 9, offset: 90297},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2849, col: 9, offset: 90168},
+																						pos: position{line: 2849, col: 9, offset: 90297},
 																						expr: &litMatcher{
-																							pos:        position{line: 2849, col: 10, offset: 90169},
+																							pos:        position{line: 2849, col: 10, offset: 90298},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2850, col: 9, offset: 90197},
+																						pos: position{line: 2850, col: 9, offset: 90326},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2850, col: 10, offset: 90198},
+																							pos:        position{line: 2850, col: 10, offset: 90327},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23090,27 +23090,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2853, col: 11, offset: 90410},
+																			pos: position{line: 2853, col: 11, offset: 90539},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2853, col: 11, offset: 90410},
+																					pos:        position{line: 2853, col: 11, offset: 90539},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2853, col: 19, offset: 90418},
+																					pos: position{line: 2853, col: 19, offset: 90547},
 																					expr: &seqExpr{
-																						pos: position{line: 2853, col: 21, offset: 90420},
+																						pos: position{line: 2853, col: 21, offset: 90549},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2853, col: 21, offset: 90420},
+																								pos: position{line: 2853, col: 21, offset: 90549},
 																								expr: &actionExpr{
-																									pos: position{line: 2877, col: 10, offset: 91032},
+																									pos: position{line: 2877, col: 10, offset: 91161},
 																									run: (*parser).callonRelativeLink151,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 10, offset: 91032},
+																										pos:        position{line: 2877, col: 10, offset: 91161},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23119,11 +23119,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2853, col: 28, offset: 90427},
+																								pos: position{line: 2853, col: 28, offset: 90556},
 																								expr: &notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91380},
+																									pos: position{line: 2896, col: 8, offset: 91509},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91381,
+																										line: 2896, col: 9, offset: 91510,
 																									},
 																								},
 																							},
@@ -23522,10 +23522,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2856, col: 11, offset: 90547},
+																			pos: position{line: 2856, col: 11, offset: 90676},
 																			run: (*parser).callonRelativeLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2856, col: 11, offset: 90547},
+																				pos:        position{line: 2856, col: 11, offset: 90676},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23542,10 +23542,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1438, col: 28, offset: 46324},
+									pos:   position{line: 1438, col: 28, offset: 46410},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1438, col: 40, offset: 46336},
+										pos:  position{line: 1438, col: 40, offset: 46422},
 										name: "InlineAttributes",
 									},
 								},
@@ -23557,75 +23557,75 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalLink",
-			pos:  position{line: 1442, col: 1, offset: 46452},
+			pos:  position{line: 1442, col: 1, offset: 46538},
 			expr: &choiceExpr{
-				pos: position{line: 1445, col: 5, offset: 46614},
+				pos: position{line: 1445, col: 5, offset: 46700},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1445, col: 5, offset: 46614},
+						pos: position{line: 1445, col: 5, offset: 46700},
 						run: (*parser).callonExternalLink2,
 						expr: &seqExpr{
-							pos: position{line: 1445, col: 5, offset: 46614},
+							pos: position{line: 1445, col: 5, offset: 46700},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1445, col: 5, offset: 46614},
+									pos:        position{line: 1445, col: 5, offset: 46700},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1445, col: 9, offset: 46618},
+									pos:   position{line: 1445, col: 9, offset: 46704},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2839, col: 23, offset: 89918},
+										pos: position{line: 2839, col: 23, offset: 90047},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2839, col: 23, offset: 89918},
+											pos: position{line: 2839, col: 23, offset: 90047},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2839, col: 23, offset: 89918},
+													pos: position{line: 2839, col: 23, offset: 90047},
 													expr: &litMatcher{
-														pos:        position{line: 2839, col: 24, offset: 89919},
+														pos:        position{line: 2839, col: 24, offset: 90048},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2839, col: 28, offset: 89923},
+													pos:   position{line: 2839, col: 28, offset: 90052},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2843, col: 11, offset: 90037},
+														pos: position{line: 2843, col: 11, offset: 90166},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2843, col: 12, offset: 90038},
+															pos: position{line: 2843, col: 12, offset: 90167},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2843, col: 12, offset: 90038},
+																	pos:        position{line: 2843, col: 12, offset: 90167},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2843, col: 24, offset: 90050},
+																	pos:        position{line: 2843, col: 24, offset: 90179},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2843, col: 37, offset: 90063},
+																	pos:        position{line: 2843, col: 37, offset: 90192},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2843, col: 48, offset: 90074},
+																	pos:        position{line: 2843, col: 48, offset: 90203},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2843, col: 59, offset: 90085},
+																	pos:        position{line: 2843, col: 59, offset: 90214},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23635,38 +23635,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2839, col: 44, offset: 89939},
+													pos:   position{line: 2839, col: 44, offset: 90068},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2848, col: 5, offset: 90149},
+														pos: position{line: 2848, col: 5, offset: 90278},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2848, col: 5, offset: 90149},
+															pos:   position{line: 2848, col: 5, offset: 90278},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2848, col: 14, offset: 90158},
+																pos: position{line: 2848, col: 14, offset: 90287},
 																expr: &choiceExpr{
-																	pos: position{line: 2849, col: 9, offset: 90168},
+																	pos: position{line: 2849, col: 9, offset: 90297},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2849, col: 9, offset: 90168},
+																			pos: position{line: 2849, col: 9, offset: 90297},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2849, col: 9, offset: 90168},
+																				pos: position{line: 2849, col: 9, offset: 90297},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2849, col: 9, offset: 90168},
+																						pos: position{line: 2849, col: 9, offset: 90297},
 																						expr: &litMatcher{
-																							pos:        position{line: 2849, col: 10, offset: 90169},
+																							pos:        position{line: 2849, col: 10, offset: 90298},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2850, col: 9, offset: 90197},
+																						pos: position{line: 2850, col: 9, offset: 90326},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2850, col: 10, offset: 90198},
+																							pos:        position{line: 2850, col: 10, offset: 90327},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23677,27 +23677,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2853, col: 11, offset: 90410},
+																			pos: position{line: 2853, col: 11, offset: 90539},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2853, col: 11, offset: 90410},
+																					pos:        position{line: 2853, col: 11, offset: 90539},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2853, col: 19, offset: 90418},
+																					pos: position{line: 2853, col: 19, offset: 90547},
 																					expr: &seqExpr{
-																						pos: position{line: 2853, col: 21, offset: 90420},
+																						pos: position{line: 2853, col: 21, offset: 90549},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2853, col: 21, offset: 90420},
+																								pos: position{line: 2853, col: 21, offset: 90549},
 																								expr: &actionExpr{
-																									pos: position{line: 2877, col: 10, offset: 91032},
+																									pos: position{line: 2877, col: 10, offset: 91161},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 10, offset: 91032},
+																										pos:        position{line: 2877, col: 10, offset: 91161},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23706,11 +23706,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2853, col: 28, offset: 90427},
+																								pos: position{line: 2853, col: 28, offset: 90556},
 																								expr: &notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91380},
+																									pos: position{line: 2896, col: 8, offset: 91509},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91381,
+																										line: 2896, col: 9, offset: 91510,
 																									},
 																								},
 																							},
@@ -24109,10 +24109,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2856, col: 11, offset: 90547},
+																			pos: position{line: 2856, col: 11, offset: 90676},
 																			run: (*parser).callonExternalLink117,
 																			expr: &litMatcher{
-																				pos:        position{line: 2856, col: 11, offset: 90547},
+																				pos:        position{line: 2856, col: 11, offset: 90676},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24129,12 +24129,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1445, col: 34, offset: 46643},
+									pos:   position{line: 1445, col: 34, offset: 46729},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1445, col: 45, offset: 46654},
+										pos: position{line: 1445, col: 45, offset: 46740},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1445, col: 46, offset: 46655},
+											pos:  position{line: 1445, col: 46, offset: 46741},
 											name: "InlineAttributes",
 										},
 									},
@@ -24143,64 +24143,64 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1450, col: 5, offset: 46788},
+						pos: position{line: 1450, col: 5, offset: 46917},
 						run: (*parser).callonExternalLink122,
 						expr: &seqExpr{
-							pos: position{line: 1450, col: 5, offset: 46788},
+							pos: position{line: 1450, col: 5, offset: 46917},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1450, col: 5, offset: 46788},
+									pos:   position{line: 1450, col: 5, offset: 46917},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2839, col: 23, offset: 89918},
+										pos: position{line: 2839, col: 23, offset: 90047},
 										run: (*parser).callonExternalLink125,
 										expr: &seqExpr{
-											pos: position{line: 2839, col: 23, offset: 89918},
+											pos: position{line: 2839, col: 23, offset: 90047},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2839, col: 23, offset: 89918},
+													pos: position{line: 2839, col: 23, offset: 90047},
 													expr: &litMatcher{
-														pos:        position{line: 2839, col: 24, offset: 89919},
+														pos:        position{line: 2839, col: 24, offset: 90048},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2839, col: 28, offset: 89923},
+													pos:   position{line: 2839, col: 28, offset: 90052},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2843, col: 11, offset: 90037},
+														pos: position{line: 2843, col: 11, offset: 90166},
 														run: (*parser).callonExternalLink130,
 														expr: &choiceExpr{
-															pos: position{line: 2843, col: 12, offset: 90038},
+															pos: position{line: 2843, col: 12, offset: 90167},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2843, col: 12, offset: 90038},
+																	pos:        position{line: 2843, col: 12, offset: 90167},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2843, col: 24, offset: 90050},
+																	pos:        position{line: 2843, col: 24, offset: 90179},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2843, col: 37, offset: 90063},
+																	pos:        position{line: 2843, col: 37, offset: 90192},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2843, col: 48, offset: 90074},
+																	pos:        position{line: 2843, col: 48, offset: 90203},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2843, col: 59, offset: 90085},
+																	pos:        position{line: 2843, col: 59, offset: 90214},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24210,38 +24210,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2839, col: 44, offset: 89939},
+													pos:   position{line: 2839, col: 44, offset: 90068},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2848, col: 5, offset: 90149},
+														pos: position{line: 2848, col: 5, offset: 90278},
 														run: (*parser).callonExternalLink138,
 														expr: &labeledExpr{
-															pos:   position{line: 2848, col: 5, offset: 90149},
+															pos:   position{line: 2848, col: 5, offset: 90278},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2848, col: 14, offset: 90158},
+																pos: position{line: 2848, col: 14, offset: 90287},
 																expr: &choiceExpr{
-																	pos: position{line: 2849, col: 9, offset: 90168},
+																	pos: position{line: 2849, col: 9, offset: 90297},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2849, col: 9, offset: 90168},
+																			pos: position{line: 2849, col: 9, offset: 90297},
 																			run: (*parser).callonExternalLink142,
 																			expr: &seqExpr{
-																				pos: position{line: 2849, col: 9, offset: 90168},
+																				pos: position{line: 2849, col: 9, offset: 90297},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2849, col: 9, offset: 90168},
+																						pos: position{line: 2849, col: 9, offset: 90297},
 																						expr: &litMatcher{
-																							pos:        position{line: 2849, col: 10, offset: 90169},
+																							pos:        position{line: 2849, col: 10, offset: 90298},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2850, col: 9, offset: 90197},
+																						pos: position{line: 2850, col: 9, offset: 90326},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2850, col: 10, offset: 90198},
+																							pos:        position{line: 2850, col: 10, offset: 90327},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24252,27 +24252,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2853, col: 11, offset: 90410},
+																			pos: position{line: 2853, col: 11, offset: 90539},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2853, col: 11, offset: 90410},
+																					pos:        position{line: 2853, col: 11, offset: 90539},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2853, col: 19, offset: 90418},
+																					pos: position{line: 2853, col: 19, offset: 90547},
 																					expr: &seqExpr{
-																						pos: position{line: 2853, col: 21, offset: 90420},
+																						pos: position{line: 2853, col: 21, offset: 90549},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2853, col: 21, offset: 90420},
+																								pos: position{line: 2853, col: 21, offset: 90549},
 																								expr: &actionExpr{
-																									pos: position{line: 2877, col: 10, offset: 91032},
+																									pos: position{line: 2877, col: 10, offset: 91161},
 																									run: (*parser).callonExternalLink153,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 10, offset: 91032},
+																										pos:        position{line: 2877, col: 10, offset: 91161},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24281,11 +24281,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2853, col: 28, offset: 90427},
+																								pos: position{line: 2853, col: 28, offset: 90556},
 																								expr: &notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91380},
+																									pos: position{line: 2896, col: 8, offset: 91509},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91381,
+																										line: 2896, col: 9, offset: 91510,
 																									},
 																								},
 																							},
@@ -24684,10 +24684,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2856, col: 11, offset: 90547},
+																			pos: position{line: 2856, col: 11, offset: 90676},
 																			run: (*parser).callonExternalLink236,
 																			expr: &litMatcher{
-																				pos:        position{line: 2856, col: 11, offset: 90547},
+																				pos:        position{line: 2856, col: 11, offset: 90676},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24704,12 +24704,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1450, col: 30, offset: 46813},
+									pos:   position{line: 1450, col: 30, offset: 46942},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1450, col: 41, offset: 46824},
+										pos: position{line: 1450, col: 41, offset: 46953},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1450, col: 42, offset: 46825},
+											pos:  position{line: 1450, col: 42, offset: 46954},
 											name: "InlineAttributes",
 										},
 									},
@@ -24722,41 +24722,41 @@ var g = &grammar{
 		},
 		{
 			name: "ListElements",
-			pos:  position{line: 1481, col: 1, offset: 47955},
+			pos:  position{line: 1481, col: 1, offset: 48084},
 			expr: &actionExpr{
-				pos: position{line: 1482, col: 5, offset: 47976},
+				pos: position{line: 1482, col: 5, offset: 48105},
 				run: (*parser).callonListElements1,
 				expr: &seqExpr{
-					pos: position{line: 1482, col: 5, offset: 47976},
+					pos: position{line: 1482, col: 5, offset: 48105},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1482, col: 5, offset: 47976},
+							pos:   position{line: 1482, col: 5, offset: 48105},
 							label: "firstElement",
 							expr: &choiceExpr{
-								pos: position{line: 1488, col: 5, offset: 48178},
+								pos: position{line: 1488, col: 5, offset: 48307},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1581, col: 5, offset: 51112},
+										pos: position{line: 1581, col: 5, offset: 51241},
 										run: (*parser).callonListElements5,
 										expr: &seqExpr{
-											pos: position{line: 1581, col: 5, offset: 51112},
+											pos: position{line: 1581, col: 5, offset: 51241},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1581, col: 5, offset: 51112},
+													pos:   position{line: 1581, col: 5, offset: 51241},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1588, col: 5, offset: 51320},
+														pos: position{line: 1588, col: 5, offset: 51449},
 														run: (*parser).callonListElements8,
 														expr: &seqExpr{
-															pos: position{line: 1588, col: 5, offset: 51320},
+															pos: position{line: 1588, col: 5, offset: 51449},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1588, col: 5, offset: 51320},
+																	pos: position{line: 1588, col: 5, offset: 51449},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91032},
+																		pos: position{line: 2877, col: 10, offset: 91161},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91032},
+																			pos:        position{line: 2877, col: 10, offset: 91161},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24765,27 +24765,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1588, col: 12, offset: 51327},
+																	pos:   position{line: 1588, col: 12, offset: 51456},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1590, col: 9, offset: 51390},
+																		pos: position{line: 1590, col: 9, offset: 51519},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1590, col: 9, offset: 51390},
+																				pos: position{line: 1590, col: 9, offset: 51519},
 																				run: (*parser).callonListElements15,
 																				expr: &seqExpr{
-																					pos: position{line: 1590, col: 9, offset: 51390},
+																					pos: position{line: 1590, col: 9, offset: 51519},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1590, col: 9, offset: 51390},
+																							pos:   position{line: 1590, col: 9, offset: 51519},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1590, col: 16, offset: 51397},
+																								pos: position{line: 1590, col: 16, offset: 51526},
 																								run: (*parser).callonListElements18,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1590, col: 16, offset: 51397},
+																									pos: position{line: 1590, col: 16, offset: 51526},
 																									expr: &litMatcher{
-																										pos:        position{line: 1590, col: 17, offset: 51398},
+																										pos:        position{line: 1590, col: 17, offset: 51527},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -24794,22 +24794,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1594, col: 9, offset: 51498},
+																							pos: position{line: 1594, col: 9, offset: 51627},
 																							run: (*parser).callonListElements21,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1613, col: 11, offset: 52215},
+																				pos: position{line: 1613, col: 11, offset: 52344},
 																				run: (*parser).callonListElements22,
 																				expr: &seqExpr{
-																					pos: position{line: 1613, col: 11, offset: 52215},
+																					pos: position{line: 1613, col: 11, offset: 52344},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1613, col: 11, offset: 52215},
+																							pos: position{line: 1613, col: 11, offset: 52344},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1613, col: 12, offset: 52216},
+																								pos:        position{line: 1613, col: 12, offset: 52345},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -24817,7 +24817,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1613, col: 20, offset: 52224},
+																							pos:        position{line: 1613, col: 20, offset: 52353},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24826,20 +24826,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1615, col: 13, offset: 52341},
+																				pos: position{line: 1615, col: 13, offset: 52470},
 																				run: (*parser).callonListElements27,
 																				expr: &seqExpr{
-																					pos: position{line: 1615, col: 13, offset: 52341},
+																					pos: position{line: 1615, col: 13, offset: 52470},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1615, col: 14, offset: 52342},
+																							pos:        position{line: 1615, col: 14, offset: 52471},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1615, col: 21, offset: 52349},
+																							pos:        position{line: 1615, col: 21, offset: 52478},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24848,20 +24848,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1617, col: 13, offset: 52469},
+																				pos: position{line: 1617, col: 13, offset: 52598},
 																				run: (*parser).callonListElements31,
 																				expr: &seqExpr{
-																					pos: position{line: 1617, col: 13, offset: 52469},
+																					pos: position{line: 1617, col: 13, offset: 52598},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1617, col: 14, offset: 52470},
+																							pos:        position{line: 1617, col: 14, offset: 52599},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1617, col: 21, offset: 52477},
+																							pos:        position{line: 1617, col: 21, offset: 52606},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24870,15 +24870,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1619, col: 13, offset: 52597},
+																				pos: position{line: 1619, col: 13, offset: 52726},
 																				run: (*parser).callonListElements35,
 																				expr: &seqExpr{
-																					pos: position{line: 1619, col: 13, offset: 52597},
+																					pos: position{line: 1619, col: 13, offset: 52726},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1619, col: 13, offset: 52597},
+																							pos: position{line: 1619, col: 13, offset: 52726},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1619, col: 14, offset: 52598},
+																								pos:        position{line: 1619, col: 14, offset: 52727},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -24886,7 +24886,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1619, col: 26, offset: 52610},
+																							pos:        position{line: 1619, col: 26, offset: 52739},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -24895,15 +24895,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1621, col: 13, offset: 52730},
+																				pos: position{line: 1621, col: 13, offset: 52859},
 																				run: (*parser).callonListElements40,
 																				expr: &seqExpr{
-																					pos: position{line: 1621, col: 13, offset: 52730},
+																					pos: position{line: 1621, col: 13, offset: 52859},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1621, col: 13, offset: 52730},
+																							pos: position{line: 1621, col: 13, offset: 52859},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1621, col: 14, offset: 52731},
+																								pos:        position{line: 1621, col: 14, offset: 52860},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -24911,7 +24911,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1621, col: 26, offset: 52743},
+																							pos:        position{line: 1621, col: 26, offset: 52872},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -24923,12 +24923,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2881, col: 11, offset: 91093},
+																	pos: position{line: 2881, col: 11, offset: 91222},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2881, col: 11, offset: 91093},
+																		pos: position{line: 2881, col: 11, offset: 91222},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2881, col: 11, offset: 91093},
+																			pos:        position{line: 2881, col: 11, offset: 91222},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24941,26 +24941,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1582, col: 5, offset: 51151},
+													pos:   position{line: 1582, col: 5, offset: 51280},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1529, col: 5, offset: 49618},
+														pos: position{line: 1529, col: 5, offset: 49747},
 														run: (*parser).callonListElements49,
 														expr: &seqExpr{
-															pos: position{line: 1529, col: 5, offset: 49618},
+															pos: position{line: 1529, col: 5, offset: 49747},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1529, col: 5, offset: 49618},
+																	pos:   position{line: 1529, col: 5, offset: 49747},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1529, col: 14, offset: 49627},
+																		pos: position{line: 1529, col: 14, offset: 49756},
 																		expr: &actionExpr{
-																			pos: position{line: 1529, col: 15, offset: 49628},
+																			pos: position{line: 1529, col: 15, offset: 49757},
 																			run: (*parser).callonListElements53,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1529, col: 15, offset: 49628},
+																				pos: position{line: 1529, col: 15, offset: 49757},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1529, col: 15, offset: 49628},
+																					pos:        position{line: 1529, col: 15, offset: 49757},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -24971,28 +24971,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91430},
+																	pos: position{line: 2899, col: 8, offset: 91559},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91203},
+																			pos: position{line: 2886, col: 12, offset: 91332},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91204},
+																				pos: position{line: 2886, col: 13, offset: 91333},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91204},
+																						pos:        position{line: 2886, col: 13, offset: 91333},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91211},
+																						pos:        position{line: 2886, col: 20, offset: 91340},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91220},
+																						pos:        position{line: 2886, col: 29, offset: 91349},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25001,9 +25001,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91380},
+																			pos: position{line: 2896, col: 8, offset: 91509},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91381,
+																				line: 2896, col: 9, offset: 91510,
 																			},
 																		},
 																	},
@@ -25016,27 +25016,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1631, col: 5, offset: 53009},
+										pos: position{line: 1631, col: 5, offset: 53138},
 										run: (*parser).callonListElements64,
 										expr: &seqExpr{
-											pos: position{line: 1631, col: 5, offset: 53009},
+											pos: position{line: 1631, col: 5, offset: 53138},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1631, col: 5, offset: 53009},
+													pos:   position{line: 1631, col: 5, offset: 53138},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1638, col: 5, offset: 53282},
+														pos: position{line: 1638, col: 5, offset: 53411},
 														run: (*parser).callonListElements67,
 														expr: &seqExpr{
-															pos: position{line: 1638, col: 5, offset: 53282},
+															pos: position{line: 1638, col: 5, offset: 53411},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1638, col: 5, offset: 53282},
+																	pos: position{line: 1638, col: 5, offset: 53411},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91032},
+																		pos: position{line: 2877, col: 10, offset: 91161},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91032},
+																			pos:        position{line: 2877, col: 10, offset: 91161},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25045,24 +25045,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1639, col: 5, offset: 53294},
+																	pos:   position{line: 1639, col: 5, offset: 53423},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1640, col: 9, offset: 53310},
+																		pos: position{line: 1640, col: 9, offset: 53439},
 																		run: (*parser).callonListElements73,
 																		expr: &choiceExpr{
-																			pos: position{line: 1640, col: 10, offset: 53311},
+																			pos: position{line: 1640, col: 10, offset: 53440},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1640, col: 11, offset: 53312},
+																					pos:        position{line: 1640, col: 11, offset: 53441},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1640, col: 18, offset: 53319},
+																					pos: position{line: 1640, col: 18, offset: 53448},
 																					expr: &litMatcher{
-																						pos:        position{line: 1640, col: 19, offset: 53320},
+																						pos:        position{line: 1640, col: 19, offset: 53449},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -25073,16 +25073,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1643, col: 7, offset: 53410},
+																	pos: position{line: 1643, col: 7, offset: 53539},
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2881, col: 11, offset: 91093},
+																	pos: position{line: 2881, col: 11, offset: 91222},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2881, col: 11, offset: 91093},
+																		pos: position{line: 2881, col: 11, offset: 91222},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2881, col: 11, offset: 91093},
+																			pos:        position{line: 2881, col: 11, offset: 91222},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25095,56 +25095,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1632, col: 5, offset: 53050},
+													pos:   position{line: 1632, col: 5, offset: 53179},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1632, col: 16, offset: 53061},
+														pos: position{line: 1632, col: 16, offset: 53190},
 														expr: &actionExpr{
-															pos: position{line: 1653, col: 5, offset: 53675},
+															pos: position{line: 1653, col: 5, offset: 53804},
 															run: (*parser).callonListElements84,
 															expr: &seqExpr{
-																pos: position{line: 1653, col: 5, offset: 53675},
+																pos: position{line: 1653, col: 5, offset: 53804},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1653, col: 5, offset: 53675},
+																		pos: position{line: 1653, col: 5, offset: 53804},
 																		expr: &litMatcher{
-																			pos:        position{line: 1653, col: 6, offset: 53676},
+																			pos:        position{line: 1653, col: 6, offset: 53805},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1653, col: 10, offset: 53680},
+																		pos:   position{line: 1653, col: 10, offset: 53809},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1654, col: 7, offset: 53694},
+																			pos: position{line: 1654, col: 7, offset: 53823},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1654, col: 7, offset: 53694},
+																					pos: position{line: 1654, col: 7, offset: 53823},
 																					run: (*parser).callonListElements90,
 																					expr: &litMatcher{
-																						pos:        position{line: 1654, col: 7, offset: 53694},
+																						pos:        position{line: 1654, col: 7, offset: 53823},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1655, col: 7, offset: 53739},
+																					pos: position{line: 1655, col: 7, offset: 53868},
 																					run: (*parser).callonListElements92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1655, col: 7, offset: 53739},
+																						pos:        position{line: 1655, col: 7, offset: 53868},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1656, col: 7, offset: 53782},
+																					pos: position{line: 1656, col: 7, offset: 53911},
 																					run: (*parser).callonListElements94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1656, col: 7, offset: 53782},
+																						pos:        position{line: 1656, col: 7, offset: 53911},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -25154,12 +25154,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2881, col: 11, offset: 91093},
+																		pos: position{line: 2881, col: 11, offset: 91222},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2881, col: 11, offset: 91093},
+																			pos: position{line: 2881, col: 11, offset: 91222},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2881, col: 11, offset: 91093},
+																				pos:        position{line: 2881, col: 11, offset: 91222},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -25173,26 +25173,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1633, col: 5, offset: 53100},
+													pos:   position{line: 1633, col: 5, offset: 53229},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1529, col: 5, offset: 49618},
+														pos: position{line: 1529, col: 5, offset: 49747},
 														run: (*parser).callonListElements100,
 														expr: &seqExpr{
-															pos: position{line: 1529, col: 5, offset: 49618},
+															pos: position{line: 1529, col: 5, offset: 49747},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1529, col: 5, offset: 49618},
+																	pos:   position{line: 1529, col: 5, offset: 49747},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1529, col: 14, offset: 49627},
+																		pos: position{line: 1529, col: 14, offset: 49756},
 																		expr: &actionExpr{
-																			pos: position{line: 1529, col: 15, offset: 49628},
+																			pos: position{line: 1529, col: 15, offset: 49757},
 																			run: (*parser).callonListElements104,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1529, col: 15, offset: 49628},
+																				pos: position{line: 1529, col: 15, offset: 49757},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1529, col: 15, offset: 49628},
+																					pos:        position{line: 1529, col: 15, offset: 49757},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25203,28 +25203,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91430},
+																	pos: position{line: 2899, col: 8, offset: 91559},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91203},
+																			pos: position{line: 2886, col: 12, offset: 91332},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91204},
+																				pos: position{line: 2886, col: 13, offset: 91333},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91204},
+																						pos:        position{line: 2886, col: 13, offset: 91333},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91211},
+																						pos:        position{line: 2886, col: 20, offset: 91340},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91220},
+																						pos:        position{line: 2886, col: 29, offset: 91349},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25233,9 +25233,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91380},
+																			pos: position{line: 2896, col: 8, offset: 91509},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91381,
+																				line: 2896, col: 9, offset: 91510,
 																			},
 																		},
 																	},
@@ -25248,36 +25248,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1722, col: 5, offset: 55654},
+										pos: position{line: 1722, col: 5, offset: 55783},
 										run: (*parser).callonListElements115,
 										expr: &seqExpr{
-											pos: position{line: 1722, col: 5, offset: 55654},
+											pos: position{line: 1722, col: 5, offset: 55783},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1722, col: 5, offset: 55654},
+													pos:   position{line: 1722, col: 5, offset: 55783},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1728, col: 5, offset: 55851},
+														pos: position{line: 1728, col: 5, offset: 55980},
 														run: (*parser).callonListElements118,
 														expr: &seqExpr{
-															pos: position{line: 1728, col: 5, offset: 55851},
+															pos: position{line: 1728, col: 5, offset: 55980},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1728, col: 5, offset: 55851},
+																	pos:        position{line: 1728, col: 5, offset: 55980},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1728, col: 9, offset: 55855},
+																	pos:   position{line: 1728, col: 9, offset: 55984},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1728, col: 14, offset: 55860},
+																		pos: position{line: 1728, col: 14, offset: 55989},
 																		run: (*parser).callonListElements122,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1728, col: 14, offset: 55860},
+																			pos: position{line: 1728, col: 14, offset: 55989},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1728, col: 14, offset: 55860},
+																				pos:        position{line: 1728, col: 14, offset: 55989},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -25287,18 +25287,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1728, col: 62, offset: 55908},
+																	pos:        position{line: 1728, col: 62, offset: 56037},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2881, col: 11, offset: 91093},
+																	pos: position{line: 2881, col: 11, offset: 91222},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2881, col: 11, offset: 91093},
+																		pos: position{line: 2881, col: 11, offset: 91222},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2881, col: 11, offset: 91093},
+																			pos:        position{line: 2881, col: 11, offset: 91222},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25311,26 +25311,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1723, col: 5, offset: 55690},
+													pos:   position{line: 1723, col: 5, offset: 55819},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1529, col: 5, offset: 49618},
+														pos: position{line: 1529, col: 5, offset: 49747},
 														run: (*parser).callonListElements130,
 														expr: &seqExpr{
-															pos: position{line: 1529, col: 5, offset: 49618},
+															pos: position{line: 1529, col: 5, offset: 49747},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1529, col: 5, offset: 49618},
+																	pos:   position{line: 1529, col: 5, offset: 49747},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1529, col: 14, offset: 49627},
+																		pos: position{line: 1529, col: 14, offset: 49756},
 																		expr: &actionExpr{
-																			pos: position{line: 1529, col: 15, offset: 49628},
+																			pos: position{line: 1529, col: 15, offset: 49757},
 																			run: (*parser).callonListElements134,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1529, col: 15, offset: 49628},
+																				pos: position{line: 1529, col: 15, offset: 49757},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1529, col: 15, offset: 49628},
+																					pos:        position{line: 1529, col: 15, offset: 49757},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25341,28 +25341,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91430},
+																	pos: position{line: 2899, col: 8, offset: 91559},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91203},
+																			pos: position{line: 2886, col: 12, offset: 91332},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91204},
+																				pos: position{line: 2886, col: 13, offset: 91333},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91204},
+																						pos:        position{line: 2886, col: 13, offset: 91333},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91211},
+																						pos:        position{line: 2886, col: 20, offset: 91340},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91220},
+																						pos:        position{line: 2886, col: 29, offset: 91349},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25371,9 +25371,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91380},
+																			pos: position{line: 2896, col: 8, offset: 91509},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91381,
+																				line: 2896, col: 9, offset: 91510,
 																			},
 																		},
 																	},
@@ -25386,35 +25386,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1665, col: 5, offset: 53975},
+										pos: position{line: 1665, col: 5, offset: 54104},
 										run: (*parser).callonListElements145,
 										expr: &seqExpr{
-											pos: position{line: 1665, col: 5, offset: 53975},
+											pos: position{line: 1665, col: 5, offset: 54104},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1665, col: 5, offset: 53975},
+													pos:   position{line: 1665, col: 5, offset: 54104},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1673, col: 5, offset: 54301},
+														pos: position{line: 1673, col: 5, offset: 54430},
 														run: (*parser).callonListElements148,
 														expr: &seqExpr{
-															pos: position{line: 1673, col: 5, offset: 54301},
+															pos: position{line: 1673, col: 5, offset: 54430},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1673, col: 5, offset: 54301},
+																	pos: position{line: 1673, col: 5, offset: 54430},
 																	expr: &seqExpr{
-																		pos: position{line: 2489, col: 31, offset: 80139},
+																		pos: position{line: 2489, col: 31, offset: 80268},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2489, col: 31, offset: 80139},
+																				pos:        position{line: 2489, col: 31, offset: 80268},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2489, col: 36, offset: 80144},
+																				pos: position{line: 2489, col: 36, offset: 80273},
 																				expr: &litMatcher{
-																					pos:        position{line: 2489, col: 37, offset: 80145},
+																					pos:        position{line: 2489, col: 37, offset: 80274},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
@@ -25424,28 +25424,28 @@ var g = &grammar{
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 1674, col: 5, offset: 54333},
+																	pos: position{line: 1674, col: 5, offset: 54462},
 																	expr: &seqExpr{
-																		pos: position{line: 1674, col: 6, offset: 54334},
+																		pos: position{line: 1674, col: 6, offset: 54463},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1674, col: 6, offset: 54334},
+																				pos: position{line: 1674, col: 6, offset: 54463},
 																				expr: &actionExpr{
-																					pos: position{line: 1679, col: 5, offset: 54484},
+																					pos: position{line: 1679, col: 5, offset: 54613},
 																					run: (*parser).callonListElements158,
 																					expr: &seqExpr{
-																						pos: position{line: 1679, col: 5, offset: 54484},
+																						pos: position{line: 1679, col: 5, offset: 54613},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1679, col: 5, offset: 54484},
+																								pos:   position{line: 1679, col: 5, offset: 54613},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1679, col: 16, offset: 54495},
+																									pos: position{line: 1679, col: 16, offset: 54624},
 																									run: (*parser).callonListElements161,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1679, col: 16, offset: 54495},
+																										pos: position{line: 1679, col: 16, offset: 54624},
 																										expr: &litMatcher{
-																											pos:        position{line: 1679, col: 17, offset: 54496},
+																											pos:        position{line: 1679, col: 17, offset: 54625},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -25454,7 +25454,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1682, col: 5, offset: 54553},
+																								pos: position{line: 1682, col: 5, offset: 54682},
 																								run: (*parser).callonListElements164,
 																							},
 																						},
@@ -25462,30 +25462,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1674, col: 35, offset: 54363},
+																				pos: position{line: 1674, col: 35, offset: 54492},
 																				expr: &choiceExpr{
-																					pos: position{line: 2899, col: 8, offset: 91430},
+																					pos: position{line: 2899, col: 8, offset: 91559},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2886, col: 12, offset: 91203},
+																							pos: position{line: 2886, col: 12, offset: 91332},
 																							run: (*parser).callonListElements167,
 																							expr: &choiceExpr{
-																								pos: position{line: 2886, col: 13, offset: 91204},
+																								pos: position{line: 2886, col: 13, offset: 91333},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 13, offset: 91204},
+																										pos:        position{line: 2886, col: 13, offset: 91333},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 20, offset: 91211},
+																										pos:        position{line: 2886, col: 20, offset: 91340},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 29, offset: 91220},
+																										pos:        position{line: 2886, col: 29, offset: 91349},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -25494,16 +25494,16 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2896, col: 8, offset: 91380},
+																							pos: position{line: 2896, col: 8, offset: 91509},
 																							expr: &anyMatcher{
-																								line: 2896, col: 9, offset: 91381,
+																								line: 2896, col: 9, offset: 91510,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1674, col: 40, offset: 54368,
+																				line: 1674, col: 40, offset: 54497,
 																			},
 																		},
 																	},
@@ -25513,24 +25513,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1666, col: 5, offset: 54010},
+													pos:   position{line: 1666, col: 5, offset: 54139},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1679, col: 5, offset: 54484},
+														pos: position{line: 1679, col: 5, offset: 54613},
 														run: (*parser).callonListElements176,
 														expr: &seqExpr{
-															pos: position{line: 1679, col: 5, offset: 54484},
+															pos: position{line: 1679, col: 5, offset: 54613},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1679, col: 5, offset: 54484},
+																	pos:   position{line: 1679, col: 5, offset: 54613},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1679, col: 16, offset: 54495},
+																		pos: position{line: 1679, col: 16, offset: 54624},
 																		run: (*parser).callonListElements179,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1679, col: 16, offset: 54495},
+																			pos: position{line: 1679, col: 16, offset: 54624},
 																			expr: &litMatcher{
-																				pos:        position{line: 1679, col: 17, offset: 54496},
+																				pos:        position{line: 1679, col: 17, offset: 54625},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -25539,7 +25539,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1682, col: 5, offset: 54553},
+																	pos: position{line: 1682, col: 5, offset: 54682},
 																	run: (*parser).callonListElements182,
 																},
 															},
@@ -25547,24 +25547,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1667, col: 5, offset: 54055},
+													pos:   position{line: 1667, col: 5, offset: 54184},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1690, col: 5, offset: 54802},
+														pos: position{line: 1690, col: 5, offset: 54931},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1692, col: 9, offset: 54868},
+																pos: position{line: 1692, col: 9, offset: 54997},
 																run: (*parser).callonListElements185,
 																expr: &seqExpr{
-																	pos: position{line: 1692, col: 9, offset: 54868},
+																	pos: position{line: 1692, col: 9, offset: 54997},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1692, col: 9, offset: 54868},
+																			pos: position{line: 1692, col: 9, offset: 54997},
 																			expr: &actionExpr{
-																				pos: position{line: 2877, col: 10, offset: 91032},
+																				pos: position{line: 2877, col: 10, offset: 91161},
 																				run: (*parser).callonListElements188,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 10, offset: 91032},
+																					pos:        position{line: 2877, col: 10, offset: 91161},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25573,28 +25573,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2899, col: 8, offset: 91430},
+																			pos: position{line: 2899, col: 8, offset: 91559},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2886, col: 12, offset: 91203},
+																					pos: position{line: 2886, col: 12, offset: 91332},
 																					run: (*parser).callonListElements191,
 																					expr: &choiceExpr{
-																						pos: position{line: 2886, col: 13, offset: 91204},
+																						pos: position{line: 2886, col: 13, offset: 91333},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 13, offset: 91204},
+																								pos:        position{line: 2886, col: 13, offset: 91333},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 20, offset: 91211},
+																								pos:        position{line: 2886, col: 20, offset: 91340},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 29, offset: 91220},
+																								pos:        position{line: 2886, col: 29, offset: 91349},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25603,15 +25603,15 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91380},
+																					pos: position{line: 2896, col: 8, offset: 91509},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91381,
+																						line: 2896, col: 9, offset: 91510,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1693, col: 9, offset: 54887},
+																			pos: position{line: 1693, col: 9, offset: 55016},
 																			expr: &actionExpr{
 																				pos: position{line: 677, col: 14, offset: 21525},
 																				run: (*parser).callonListElements199,
@@ -25619,18 +25619,18 @@ var g = &grammar{
 																					pos: position{line: 677, col: 14, offset: 21525},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2894, col: 11, offset: 91366},
+																							pos: position{line: 2894, col: 11, offset: 91495},
 																							expr: &anyMatcher{
-																								line: 2894, col: 13, offset: 91368,
+																								line: 2894, col: 13, offset: 91497,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 677, col: 21, offset: 21532},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91032},
+																								pos: position{line: 2877, col: 10, offset: 91161},
 																								run: (*parser).callonListElements204,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91032},
+																									pos:        position{line: 2877, col: 10, offset: 91161},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25639,28 +25639,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91430},
+																							pos: position{line: 2899, col: 8, offset: 91559},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91203},
+																									pos: position{line: 2886, col: 12, offset: 91332},
 																									run: (*parser).callonListElements207,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91204},
+																										pos: position{line: 2886, col: 13, offset: 91333},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91204},
+																												pos:        position{line: 2886, col: 13, offset: 91333},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91211},
+																												pos:        position{line: 2886, col: 20, offset: 91340},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91220},
+																												pos:        position{line: 2886, col: 29, offset: 91349},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25669,9 +25669,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91380},
+																									pos: position{line: 2896, col: 8, offset: 91509},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91381,
+																										line: 2896, col: 9, offset: 91510,
 																									},
 																								},
 																							},
@@ -25684,18 +25684,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1699, col: 9, offset: 55016},
+																pos: position{line: 1699, col: 9, offset: 55145},
 																run: (*parser).callonListElements214,
 																expr: &seqExpr{
-																	pos: position{line: 1699, col: 9, offset: 55016},
+																	pos: position{line: 1699, col: 9, offset: 55145},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2881, col: 11, offset: 91093},
+																			pos: position{line: 2881, col: 11, offset: 91222},
 																			run: (*parser).callonListElements216,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2881, col: 11, offset: 91093},
+																				pos: position{line: 2881, col: 11, offset: 91222},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2881, col: 11, offset: 91093},
+																					pos:        position{line: 2881, col: 11, offset: 91222},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25704,15 +25704,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1700, col: 9, offset: 55089},
+																			pos:   position{line: 1700, col: 9, offset: 55218},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1700, col: 18, offset: 55098},
+																				pos: position{line: 1700, col: 18, offset: 55227},
 																				run: (*parser).callonListElements220,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1700, col: 18, offset: 55098},
+																					pos: position{line: 1700, col: 18, offset: 55227},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1700, col: 18, offset: 55098},
+																						pos:        position{line: 1700, col: 18, offset: 55227},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -25722,28 +25722,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2899, col: 8, offset: 91430},
+																			pos: position{line: 2899, col: 8, offset: 91559},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2886, col: 12, offset: 91203},
+																					pos: position{line: 2886, col: 12, offset: 91332},
 																					run: (*parser).callonListElements224,
 																					expr: &choiceExpr{
-																						pos: position{line: 2886, col: 13, offset: 91204},
+																						pos: position{line: 2886, col: 13, offset: 91333},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 13, offset: 91204},
+																								pos:        position{line: 2886, col: 13, offset: 91333},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 20, offset: 91211},
+																								pos:        position{line: 2886, col: 20, offset: 91340},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 29, offset: 91220},
+																								pos:        position{line: 2886, col: 29, offset: 91349},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25752,9 +25752,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91380},
+																					pos: position{line: 2896, col: 8, offset: 91509},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91381,
+																						line: 2896, col: 9, offset: 91510,
 																					},
 																				},
 																			},
@@ -25772,10 +25772,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1483, col: 5, offset: 48007},
+							pos:   position{line: 1483, col: 5, offset: 48136},
 							label: "extraElements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1483, col: 20, offset: 48022},
+								pos:  position{line: 1483, col: 20, offset: 48151},
 								name: "ExtraListElements",
 							},
 						},
@@ -25785,17 +25785,17 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElements",
-			pos:  position{line: 1493, col: 1, offset: 48277},
+			pos:  position{line: 1493, col: 1, offset: 48406},
 			expr: &actionExpr{
-				pos: position{line: 1493, col: 22, offset: 48298},
+				pos: position{line: 1493, col: 22, offset: 48427},
 				run: (*parser).callonExtraListElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1493, col: 22, offset: 48298},
+					pos:   position{line: 1493, col: 22, offset: 48427},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1493, col: 31, offset: 48307},
+						pos: position{line: 1493, col: 31, offset: 48436},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1493, col: 32, offset: 48308},
+							pos:  position{line: 1493, col: 32, offset: 48437},
 							name: "ExtraListElement",
 						},
 					},
@@ -25804,33 +25804,33 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElement",
-			pos:  position{line: 1497, col: 1, offset: 48388},
+			pos:  position{line: 1497, col: 1, offset: 48517},
 			expr: &actionExpr{
-				pos: position{line: 1498, col: 5, offset: 48527},
+				pos: position{line: 1498, col: 5, offset: 48656},
 				run: (*parser).callonExtraListElement1,
 				expr: &seqExpr{
-					pos: position{line: 1498, col: 5, offset: 48527},
+					pos: position{line: 1498, col: 5, offset: 48656},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2894, col: 11, offset: 91366},
+							pos: position{line: 2894, col: 11, offset: 91495},
 							expr: &anyMatcher{
-								line: 2894, col: 13, offset: 91368,
+								line: 2894, col: 13, offset: 91497,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1499, col: 5, offset: 48539},
+							pos:   position{line: 1499, col: 5, offset: 48668},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1500, col: 9, offset: 48557},
+								pos: position{line: 1500, col: 9, offset: 48686},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1500, col: 13, offset: 48561},
+										pos: position{line: 1500, col: 13, offset: 48690},
 										run: (*parser).callonExtraListElement7,
 										expr: &seqExpr{
-											pos: position{line: 1500, col: 13, offset: 48561},
+											pos: position{line: 1500, col: 13, offset: 48690},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 1500, col: 13, offset: 48561},
+													pos: position{line: 1500, col: 13, offset: 48690},
 													expr: &actionExpr{
 														pos: position{line: 677, col: 14, offset: 21525},
 														run: (*parser).callonExtraListElement10,
@@ -25838,18 +25838,18 @@ var g = &grammar{
 															pos: position{line: 677, col: 14, offset: 21525},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2894, col: 11, offset: 91366},
+																	pos: position{line: 2894, col: 11, offset: 91495},
 																	expr: &anyMatcher{
-																		line: 2894, col: 13, offset: 91368,
+																		line: 2894, col: 13, offset: 91497,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 677, col: 21, offset: 21532},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91032},
+																		pos: position{line: 2877, col: 10, offset: 91161},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91032},
+																			pos:        position{line: 2877, col: 10, offset: 91161},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25858,28 +25858,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91430},
+																	pos: position{line: 2899, col: 8, offset: 91559},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91203},
+																			pos: position{line: 2886, col: 12, offset: 91332},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91204},
+																				pos: position{line: 2886, col: 13, offset: 91333},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91204},
+																						pos:        position{line: 2886, col: 13, offset: 91333},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91211},
+																						pos:        position{line: 2886, col: 20, offset: 91340},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91220},
+																						pos:        position{line: 2886, col: 29, offset: 91349},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25888,9 +25888,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91380},
+																			pos: position{line: 2896, col: 8, offset: 91509},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91381,
+																				line: 2896, col: 9, offset: 91510,
 																			},
 																		},
 																	},
@@ -25900,33 +25900,33 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1501, col: 13, offset: 48585},
+													pos:   position{line: 1501, col: 13, offset: 48714},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1501, col: 22, offset: 48594},
+														pos: position{line: 1501, col: 22, offset: 48723},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1581, col: 5, offset: 51112},
+																pos: position{line: 1581, col: 5, offset: 51241},
 																run: (*parser).callonExtraListElement27,
 																expr: &seqExpr{
-																	pos: position{line: 1581, col: 5, offset: 51112},
+																	pos: position{line: 1581, col: 5, offset: 51241},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1581, col: 5, offset: 51112},
+																			pos:   position{line: 1581, col: 5, offset: 51241},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1588, col: 5, offset: 51320},
+																				pos: position{line: 1588, col: 5, offset: 51449},
 																				run: (*parser).callonExtraListElement30,
 																				expr: &seqExpr{
-																					pos: position{line: 1588, col: 5, offset: 51320},
+																					pos: position{line: 1588, col: 5, offset: 51449},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1588, col: 5, offset: 51320},
+																							pos: position{line: 1588, col: 5, offset: 51449},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91032},
+																								pos: position{line: 2877, col: 10, offset: 91161},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91032},
+																									pos:        position{line: 2877, col: 10, offset: 91161},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25935,27 +25935,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1588, col: 12, offset: 51327},
+																							pos:   position{line: 1588, col: 12, offset: 51456},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1590, col: 9, offset: 51390},
+																								pos: position{line: 1590, col: 9, offset: 51519},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1590, col: 9, offset: 51390},
+																										pos: position{line: 1590, col: 9, offset: 51519},
 																										run: (*parser).callonExtraListElement37,
 																										expr: &seqExpr{
-																											pos: position{line: 1590, col: 9, offset: 51390},
+																											pos: position{line: 1590, col: 9, offset: 51519},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1590, col: 9, offset: 51390},
+																													pos:   position{line: 1590, col: 9, offset: 51519},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1590, col: 16, offset: 51397},
+																														pos: position{line: 1590, col: 16, offset: 51526},
 																														run: (*parser).callonExtraListElement40,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1590, col: 16, offset: 51397},
+																															pos: position{line: 1590, col: 16, offset: 51526},
 																															expr: &litMatcher{
-																																pos:        position{line: 1590, col: 17, offset: 51398},
+																																pos:        position{line: 1590, col: 17, offset: 51527},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -25964,22 +25964,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1594, col: 9, offset: 51498},
+																													pos: position{line: 1594, col: 9, offset: 51627},
 																													run: (*parser).callonExtraListElement43,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1613, col: 11, offset: 52215},
+																										pos: position{line: 1613, col: 11, offset: 52344},
 																										run: (*parser).callonExtraListElement44,
 																										expr: &seqExpr{
-																											pos: position{line: 1613, col: 11, offset: 52215},
+																											pos: position{line: 1613, col: 11, offset: 52344},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1613, col: 11, offset: 52215},
+																													pos: position{line: 1613, col: 11, offset: 52344},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1613, col: 12, offset: 52216},
+																														pos:        position{line: 1613, col: 12, offset: 52345},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -25987,7 +25987,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1613, col: 20, offset: 52224},
+																													pos:        position{line: 1613, col: 20, offset: 52353},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -25996,20 +25996,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1615, col: 13, offset: 52341},
+																										pos: position{line: 1615, col: 13, offset: 52470},
 																										run: (*parser).callonExtraListElement49,
 																										expr: &seqExpr{
-																											pos: position{line: 1615, col: 13, offset: 52341},
+																											pos: position{line: 1615, col: 13, offset: 52470},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1615, col: 14, offset: 52342},
+																													pos:        position{line: 1615, col: 14, offset: 52471},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1615, col: 21, offset: 52349},
+																													pos:        position{line: 1615, col: 21, offset: 52478},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26018,20 +26018,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1617, col: 13, offset: 52469},
+																										pos: position{line: 1617, col: 13, offset: 52598},
 																										run: (*parser).callonExtraListElement53,
 																										expr: &seqExpr{
-																											pos: position{line: 1617, col: 13, offset: 52469},
+																											pos: position{line: 1617, col: 13, offset: 52598},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1617, col: 14, offset: 52470},
+																													pos:        position{line: 1617, col: 14, offset: 52599},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1617, col: 21, offset: 52477},
+																													pos:        position{line: 1617, col: 21, offset: 52606},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26040,15 +26040,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1619, col: 13, offset: 52597},
+																										pos: position{line: 1619, col: 13, offset: 52726},
 																										run: (*parser).callonExtraListElement57,
 																										expr: &seqExpr{
-																											pos: position{line: 1619, col: 13, offset: 52597},
+																											pos: position{line: 1619, col: 13, offset: 52726},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1619, col: 13, offset: 52597},
+																													pos: position{line: 1619, col: 13, offset: 52726},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1619, col: 14, offset: 52598},
+																														pos:        position{line: 1619, col: 14, offset: 52727},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -26056,7 +26056,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1619, col: 26, offset: 52610},
+																													pos:        position{line: 1619, col: 26, offset: 52739},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26065,15 +26065,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1621, col: 13, offset: 52730},
+																										pos: position{line: 1621, col: 13, offset: 52859},
 																										run: (*parser).callonExtraListElement62,
 																										expr: &seqExpr{
-																											pos: position{line: 1621, col: 13, offset: 52730},
+																											pos: position{line: 1621, col: 13, offset: 52859},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1621, col: 13, offset: 52730},
+																													pos: position{line: 1621, col: 13, offset: 52859},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1621, col: 14, offset: 52731},
+																														pos:        position{line: 1621, col: 14, offset: 52860},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -26081,7 +26081,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1621, col: 26, offset: 52743},
+																													pos:        position{line: 1621, col: 26, offset: 52872},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26093,12 +26093,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2881, col: 11, offset: 91093},
+																							pos: position{line: 2881, col: 11, offset: 91222},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2881, col: 11, offset: 91093},
+																								pos: position{line: 2881, col: 11, offset: 91222},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2881, col: 11, offset: 91093},
+																									pos:        position{line: 2881, col: 11, offset: 91222},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26111,26 +26111,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1582, col: 5, offset: 51151},
+																			pos:   position{line: 1582, col: 5, offset: 51280},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1529, col: 5, offset: 49618},
+																				pos: position{line: 1529, col: 5, offset: 49747},
 																				run: (*parser).callonExtraListElement71,
 																				expr: &seqExpr{
-																					pos: position{line: 1529, col: 5, offset: 49618},
+																					pos: position{line: 1529, col: 5, offset: 49747},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1529, col: 5, offset: 49618},
+																							pos:   position{line: 1529, col: 5, offset: 49747},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1529, col: 14, offset: 49627},
+																								pos: position{line: 1529, col: 14, offset: 49756},
 																								expr: &actionExpr{
-																									pos: position{line: 1529, col: 15, offset: 49628},
+																									pos: position{line: 1529, col: 15, offset: 49757},
 																									run: (*parser).callonExtraListElement75,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1529, col: 15, offset: 49628},
+																										pos: position{line: 1529, col: 15, offset: 49757},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1529, col: 15, offset: 49628},
+																											pos:        position{line: 1529, col: 15, offset: 49757},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26141,28 +26141,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91430},
+																							pos: position{line: 2899, col: 8, offset: 91559},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91203},
+																									pos: position{line: 2886, col: 12, offset: 91332},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91204},
+																										pos: position{line: 2886, col: 13, offset: 91333},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91204},
+																												pos:        position{line: 2886, col: 13, offset: 91333},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91211},
+																												pos:        position{line: 2886, col: 20, offset: 91340},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91220},
+																												pos:        position{line: 2886, col: 29, offset: 91349},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26171,9 +26171,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91380},
+																									pos: position{line: 2896, col: 8, offset: 91509},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91381,
+																										line: 2896, col: 9, offset: 91510,
 																									},
 																								},
 																							},
@@ -26186,27 +26186,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1631, col: 5, offset: 53009},
+																pos: position{line: 1631, col: 5, offset: 53138},
 																run: (*parser).callonExtraListElement86,
 																expr: &seqExpr{
-																	pos: position{line: 1631, col: 5, offset: 53009},
+																	pos: position{line: 1631, col: 5, offset: 53138},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1631, col: 5, offset: 53009},
+																			pos:   position{line: 1631, col: 5, offset: 53138},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1638, col: 5, offset: 53282},
+																				pos: position{line: 1638, col: 5, offset: 53411},
 																				run: (*parser).callonExtraListElement89,
 																				expr: &seqExpr{
-																					pos: position{line: 1638, col: 5, offset: 53282},
+																					pos: position{line: 1638, col: 5, offset: 53411},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1638, col: 5, offset: 53282},
+																							pos: position{line: 1638, col: 5, offset: 53411},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91032},
+																								pos: position{line: 2877, col: 10, offset: 91161},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91032},
+																									pos:        position{line: 2877, col: 10, offset: 91161},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26215,24 +26215,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1639, col: 5, offset: 53294},
+																							pos:   position{line: 1639, col: 5, offset: 53423},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1640, col: 9, offset: 53310},
+																								pos: position{line: 1640, col: 9, offset: 53439},
 																								run: (*parser).callonExtraListElement95,
 																								expr: &choiceExpr{
-																									pos: position{line: 1640, col: 10, offset: 53311},
+																									pos: position{line: 1640, col: 10, offset: 53440},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1640, col: 11, offset: 53312},
+																											pos:        position{line: 1640, col: 11, offset: 53441},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1640, col: 18, offset: 53319},
+																											pos: position{line: 1640, col: 18, offset: 53448},
 																											expr: &litMatcher{
-																												pos:        position{line: 1640, col: 19, offset: 53320},
+																												pos:        position{line: 1640, col: 19, offset: 53449},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -26243,16 +26243,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1643, col: 7, offset: 53410},
+																							pos: position{line: 1643, col: 7, offset: 53539},
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2881, col: 11, offset: 91093},
+																							pos: position{line: 2881, col: 11, offset: 91222},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2881, col: 11, offset: 91093},
+																								pos: position{line: 2881, col: 11, offset: 91222},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2881, col: 11, offset: 91093},
+																									pos:        position{line: 2881, col: 11, offset: 91222},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26265,56 +26265,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1632, col: 5, offset: 53050},
+																			pos:   position{line: 1632, col: 5, offset: 53179},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1632, col: 16, offset: 53061},
+																				pos: position{line: 1632, col: 16, offset: 53190},
 																				expr: &actionExpr{
-																					pos: position{line: 1653, col: 5, offset: 53675},
+																					pos: position{line: 1653, col: 5, offset: 53804},
 																					run: (*parser).callonExtraListElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 1653, col: 5, offset: 53675},
+																						pos: position{line: 1653, col: 5, offset: 53804},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1653, col: 5, offset: 53675},
+																								pos: position{line: 1653, col: 5, offset: 53804},
 																								expr: &litMatcher{
-																									pos:        position{line: 1653, col: 6, offset: 53676},
+																									pos:        position{line: 1653, col: 6, offset: 53805},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1653, col: 10, offset: 53680},
+																								pos:   position{line: 1653, col: 10, offset: 53809},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1654, col: 7, offset: 53694},
+																									pos: position{line: 1654, col: 7, offset: 53823},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1654, col: 7, offset: 53694},
+																											pos: position{line: 1654, col: 7, offset: 53823},
 																											run: (*parser).callonExtraListElement112,
 																											expr: &litMatcher{
-																												pos:        position{line: 1654, col: 7, offset: 53694},
+																												pos:        position{line: 1654, col: 7, offset: 53823},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1655, col: 7, offset: 53739},
+																											pos: position{line: 1655, col: 7, offset: 53868},
 																											run: (*parser).callonExtraListElement114,
 																											expr: &litMatcher{
-																												pos:        position{line: 1655, col: 7, offset: 53739},
+																												pos:        position{line: 1655, col: 7, offset: 53868},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1656, col: 7, offset: 53782},
+																											pos: position{line: 1656, col: 7, offset: 53911},
 																											run: (*parser).callonExtraListElement116,
 																											expr: &litMatcher{
-																												pos:        position{line: 1656, col: 7, offset: 53782},
+																												pos:        position{line: 1656, col: 7, offset: 53911},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -26324,12 +26324,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2881, col: 11, offset: 91093},
+																								pos: position{line: 2881, col: 11, offset: 91222},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2881, col: 11, offset: 91093},
+																									pos: position{line: 2881, col: 11, offset: 91222},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2881, col: 11, offset: 91093},
+																										pos:        position{line: 2881, col: 11, offset: 91222},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -26343,26 +26343,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1633, col: 5, offset: 53100},
+																			pos:   position{line: 1633, col: 5, offset: 53229},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1529, col: 5, offset: 49618},
+																				pos: position{line: 1529, col: 5, offset: 49747},
 																				run: (*parser).callonExtraListElement122,
 																				expr: &seqExpr{
-																					pos: position{line: 1529, col: 5, offset: 49618},
+																					pos: position{line: 1529, col: 5, offset: 49747},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1529, col: 5, offset: 49618},
+																							pos:   position{line: 1529, col: 5, offset: 49747},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1529, col: 14, offset: 49627},
+																								pos: position{line: 1529, col: 14, offset: 49756},
 																								expr: &actionExpr{
-																									pos: position{line: 1529, col: 15, offset: 49628},
+																									pos: position{line: 1529, col: 15, offset: 49757},
 																									run: (*parser).callonExtraListElement126,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1529, col: 15, offset: 49628},
+																										pos: position{line: 1529, col: 15, offset: 49757},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1529, col: 15, offset: 49628},
+																											pos:        position{line: 1529, col: 15, offset: 49757},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26373,28 +26373,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91430},
+																							pos: position{line: 2899, col: 8, offset: 91559},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91203},
+																									pos: position{line: 2886, col: 12, offset: 91332},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91204},
+																										pos: position{line: 2886, col: 13, offset: 91333},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91204},
+																												pos:        position{line: 2886, col: 13, offset: 91333},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91211},
+																												pos:        position{line: 2886, col: 20, offset: 91340},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91220},
+																												pos:        position{line: 2886, col: 29, offset: 91349},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26403,9 +26403,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91380},
+																									pos: position{line: 2896, col: 8, offset: 91509},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91381,
+																										line: 2896, col: 9, offset: 91510,
 																									},
 																								},
 																							},
@@ -26418,36 +26418,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1722, col: 5, offset: 55654},
+																pos: position{line: 1722, col: 5, offset: 55783},
 																run: (*parser).callonExtraListElement137,
 																expr: &seqExpr{
-																	pos: position{line: 1722, col: 5, offset: 55654},
+																	pos: position{line: 1722, col: 5, offset: 55783},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1722, col: 5, offset: 55654},
+																			pos:   position{line: 1722, col: 5, offset: 55783},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1728, col: 5, offset: 55851},
+																				pos: position{line: 1728, col: 5, offset: 55980},
 																				run: (*parser).callonExtraListElement140,
 																				expr: &seqExpr{
-																					pos: position{line: 1728, col: 5, offset: 55851},
+																					pos: position{line: 1728, col: 5, offset: 55980},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1728, col: 5, offset: 55851},
+																							pos:        position{line: 1728, col: 5, offset: 55980},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1728, col: 9, offset: 55855},
+																							pos:   position{line: 1728, col: 9, offset: 55984},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1728, col: 14, offset: 55860},
+																								pos: position{line: 1728, col: 14, offset: 55989},
 																								run: (*parser).callonExtraListElement144,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1728, col: 14, offset: 55860},
+																									pos: position{line: 1728, col: 14, offset: 55989},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1728, col: 14, offset: 55860},
+																										pos:        position{line: 1728, col: 14, offset: 55989},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -26457,18 +26457,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1728, col: 62, offset: 55908},
+																							pos:        position{line: 1728, col: 62, offset: 56037},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2881, col: 11, offset: 91093},
+																							pos: position{line: 2881, col: 11, offset: 91222},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2881, col: 11, offset: 91093},
+																								pos: position{line: 2881, col: 11, offset: 91222},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2881, col: 11, offset: 91093},
+																									pos:        position{line: 2881, col: 11, offset: 91222},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26481,26 +26481,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1723, col: 5, offset: 55690},
+																			pos:   position{line: 1723, col: 5, offset: 55819},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1529, col: 5, offset: 49618},
+																				pos: position{line: 1529, col: 5, offset: 49747},
 																				run: (*parser).callonExtraListElement152,
 																				expr: &seqExpr{
-																					pos: position{line: 1529, col: 5, offset: 49618},
+																					pos: position{line: 1529, col: 5, offset: 49747},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1529, col: 5, offset: 49618},
+																							pos:   position{line: 1529, col: 5, offset: 49747},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1529, col: 14, offset: 49627},
+																								pos: position{line: 1529, col: 14, offset: 49756},
 																								expr: &actionExpr{
-																									pos: position{line: 1529, col: 15, offset: 49628},
+																									pos: position{line: 1529, col: 15, offset: 49757},
 																									run: (*parser).callonExtraListElement156,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1529, col: 15, offset: 49628},
+																										pos: position{line: 1529, col: 15, offset: 49757},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1529, col: 15, offset: 49628},
+																											pos:        position{line: 1529, col: 15, offset: 49757},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26511,28 +26511,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91430},
+																							pos: position{line: 2899, col: 8, offset: 91559},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91203},
+																									pos: position{line: 2886, col: 12, offset: 91332},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91204},
+																										pos: position{line: 2886, col: 13, offset: 91333},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91204},
+																												pos:        position{line: 2886, col: 13, offset: 91333},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91211},
+																												pos:        position{line: 2886, col: 20, offset: 91340},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91220},
+																												pos:        position{line: 2886, col: 29, offset: 91349},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26541,9 +26541,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91380},
+																									pos: position{line: 2896, col: 8, offset: 91509},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91381,
+																										line: 2896, col: 9, offset: 91510,
 																									},
 																								},
 																							},
@@ -26556,35 +26556,35 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1665, col: 5, offset: 53975},
+																pos: position{line: 1665, col: 5, offset: 54104},
 																run: (*parser).callonExtraListElement167,
 																expr: &seqExpr{
-																	pos: position{line: 1665, col: 5, offset: 53975},
+																	pos: position{line: 1665, col: 5, offset: 54104},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1665, col: 5, offset: 53975},
+																			pos:   position{line: 1665, col: 5, offset: 54104},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1673, col: 5, offset: 54301},
+																				pos: position{line: 1673, col: 5, offset: 54430},
 																				run: (*parser).callonExtraListElement170,
 																				expr: &seqExpr{
-																					pos: position{line: 1673, col: 5, offset: 54301},
+																					pos: position{line: 1673, col: 5, offset: 54430},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1673, col: 5, offset: 54301},
+																							pos: position{line: 1673, col: 5, offset: 54430},
 																							expr: &seqExpr{
-																								pos: position{line: 2489, col: 31, offset: 80139},
+																								pos: position{line: 2489, col: 31, offset: 80268},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2489, col: 31, offset: 80139},
+																										pos:        position{line: 2489, col: 31, offset: 80268},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2489, col: 36, offset: 80144},
+																										pos: position{line: 2489, col: 36, offset: 80273},
 																										expr: &litMatcher{
-																											pos:        position{line: 2489, col: 37, offset: 80145},
+																											pos:        position{line: 2489, col: 37, offset: 80274},
 																											val:        "//",
 																											ignoreCase: false,
 																											want:       "\"//\"",
@@ -26594,28 +26594,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1674, col: 5, offset: 54333},
+																							pos: position{line: 1674, col: 5, offset: 54462},
 																							expr: &seqExpr{
-																								pos: position{line: 1674, col: 6, offset: 54334},
+																								pos: position{line: 1674, col: 6, offset: 54463},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1674, col: 6, offset: 54334},
+																										pos: position{line: 1674, col: 6, offset: 54463},
 																										expr: &actionExpr{
-																											pos: position{line: 1679, col: 5, offset: 54484},
+																											pos: position{line: 1679, col: 5, offset: 54613},
 																											run: (*parser).callonExtraListElement180,
 																											expr: &seqExpr{
-																												pos: position{line: 1679, col: 5, offset: 54484},
+																												pos: position{line: 1679, col: 5, offset: 54613},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1679, col: 5, offset: 54484},
+																														pos:   position{line: 1679, col: 5, offset: 54613},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1679, col: 16, offset: 54495},
+																															pos: position{line: 1679, col: 16, offset: 54624},
 																															run: (*parser).callonExtraListElement183,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1679, col: 16, offset: 54495},
+																																pos: position{line: 1679, col: 16, offset: 54624},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1679, col: 17, offset: 54496},
+																																	pos:        position{line: 1679, col: 17, offset: 54625},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -26624,7 +26624,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1682, col: 5, offset: 54553},
+																														pos: position{line: 1682, col: 5, offset: 54682},
 																														run: (*parser).callonExtraListElement186,
 																													},
 																												},
@@ -26632,30 +26632,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1674, col: 35, offset: 54363},
+																										pos: position{line: 1674, col: 35, offset: 54492},
 																										expr: &choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91430},
+																											pos: position{line: 2899, col: 8, offset: 91559},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91203},
+																													pos: position{line: 2886, col: 12, offset: 91332},
 																													run: (*parser).callonExtraListElement189,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91204},
+																														pos: position{line: 2886, col: 13, offset: 91333},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91204},
+																																pos:        position{line: 2886, col: 13, offset: 91333},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91211},
+																																pos:        position{line: 2886, col: 20, offset: 91340},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91220},
+																																pos:        position{line: 2886, col: 29, offset: 91349},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -26664,16 +26664,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91380},
+																													pos: position{line: 2896, col: 8, offset: 91509},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91381,
+																														line: 2896, col: 9, offset: 91510,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1674, col: 40, offset: 54368,
+																										line: 1674, col: 40, offset: 54497,
 																									},
 																								},
 																							},
@@ -26683,24 +26683,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1666, col: 5, offset: 54010},
+																			pos:   position{line: 1666, col: 5, offset: 54139},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1679, col: 5, offset: 54484},
+																				pos: position{line: 1679, col: 5, offset: 54613},
 																				run: (*parser).callonExtraListElement198,
 																				expr: &seqExpr{
-																					pos: position{line: 1679, col: 5, offset: 54484},
+																					pos: position{line: 1679, col: 5, offset: 54613},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1679, col: 5, offset: 54484},
+																							pos:   position{line: 1679, col: 5, offset: 54613},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1679, col: 16, offset: 54495},
+																								pos: position{line: 1679, col: 16, offset: 54624},
 																								run: (*parser).callonExtraListElement201,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1679, col: 16, offset: 54495},
+																									pos: position{line: 1679, col: 16, offset: 54624},
 																									expr: &litMatcher{
-																										pos:        position{line: 1679, col: 17, offset: 54496},
+																										pos:        position{line: 1679, col: 17, offset: 54625},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -26709,7 +26709,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1682, col: 5, offset: 54553},
+																							pos: position{line: 1682, col: 5, offset: 54682},
 																							run: (*parser).callonExtraListElement204,
 																						},
 																					},
@@ -26717,24 +26717,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1667, col: 5, offset: 54055},
+																			pos:   position{line: 1667, col: 5, offset: 54184},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1690, col: 5, offset: 54802},
+																				pos: position{line: 1690, col: 5, offset: 54931},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1692, col: 9, offset: 54868},
+																						pos: position{line: 1692, col: 9, offset: 54997},
 																						run: (*parser).callonExtraListElement207,
 																						expr: &seqExpr{
-																							pos: position{line: 1692, col: 9, offset: 54868},
+																							pos: position{line: 1692, col: 9, offset: 54997},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1692, col: 9, offset: 54868},
+																									pos: position{line: 1692, col: 9, offset: 54997},
 																									expr: &actionExpr{
-																										pos: position{line: 2877, col: 10, offset: 91032},
+																										pos: position{line: 2877, col: 10, offset: 91161},
 																										run: (*parser).callonExtraListElement210,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2877, col: 10, offset: 91032},
+																											pos:        position{line: 2877, col: 10, offset: 91161},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26743,28 +26743,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2899, col: 8, offset: 91430},
+																									pos: position{line: 2899, col: 8, offset: 91559},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2886, col: 12, offset: 91203},
+																											pos: position{line: 2886, col: 12, offset: 91332},
 																											run: (*parser).callonExtraListElement213,
 																											expr: &choiceExpr{
-																												pos: position{line: 2886, col: 13, offset: 91204},
+																												pos: position{line: 2886, col: 13, offset: 91333},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 13, offset: 91204},
+																														pos:        position{line: 2886, col: 13, offset: 91333},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 20, offset: 91211},
+																														pos:        position{line: 2886, col: 20, offset: 91340},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 29, offset: 91220},
+																														pos:        position{line: 2886, col: 29, offset: 91349},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26773,15 +26773,15 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2896, col: 8, offset: 91380},
+																											pos: position{line: 2896, col: 8, offset: 91509},
 																											expr: &anyMatcher{
-																												line: 2896, col: 9, offset: 91381,
+																												line: 2896, col: 9, offset: 91510,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1693, col: 9, offset: 54887},
+																									pos: position{line: 1693, col: 9, offset: 55016},
 																									expr: &actionExpr{
 																										pos: position{line: 677, col: 14, offset: 21525},
 																										run: (*parser).callonExtraListElement221,
@@ -26789,18 +26789,18 @@ var g = &grammar{
 																											pos: position{line: 677, col: 14, offset: 21525},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2894, col: 11, offset: 91366},
+																													pos: position{line: 2894, col: 11, offset: 91495},
 																													expr: &anyMatcher{
-																														line: 2894, col: 13, offset: 91368,
+																														line: 2894, col: 13, offset: 91497,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 677, col: 21, offset: 21532},
 																													expr: &actionExpr{
-																														pos: position{line: 2877, col: 10, offset: 91032},
+																														pos: position{line: 2877, col: 10, offset: 91161},
 																														run: (*parser).callonExtraListElement226,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2877, col: 10, offset: 91032},
+																															pos:        position{line: 2877, col: 10, offset: 91161},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -26809,28 +26809,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2899, col: 8, offset: 91430},
+																													pos: position{line: 2899, col: 8, offset: 91559},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2886, col: 12, offset: 91203},
+																															pos: position{line: 2886, col: 12, offset: 91332},
 																															run: (*parser).callonExtraListElement229,
 																															expr: &choiceExpr{
-																																pos: position{line: 2886, col: 13, offset: 91204},
+																																pos: position{line: 2886, col: 13, offset: 91333},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2886, col: 13, offset: 91204},
+																																		pos:        position{line: 2886, col: 13, offset: 91333},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2886, col: 20, offset: 91211},
+																																		pos:        position{line: 2886, col: 20, offset: 91340},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2886, col: 29, offset: 91220},
+																																		pos:        position{line: 2886, col: 29, offset: 91349},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -26839,9 +26839,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2896, col: 8, offset: 91380},
+																															pos: position{line: 2896, col: 8, offset: 91509},
 																															expr: &anyMatcher{
-																																line: 2896, col: 9, offset: 91381,
+																																line: 2896, col: 9, offset: 91510,
 																															},
 																														},
 																													},
@@ -26854,18 +26854,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1699, col: 9, offset: 55016},
+																						pos: position{line: 1699, col: 9, offset: 55145},
 																						run: (*parser).callonExtraListElement236,
 																						expr: &seqExpr{
-																							pos: position{line: 1699, col: 9, offset: 55016},
+																							pos: position{line: 1699, col: 9, offset: 55145},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2881, col: 11, offset: 91093},
+																									pos: position{line: 2881, col: 11, offset: 91222},
 																									run: (*parser).callonExtraListElement238,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2881, col: 11, offset: 91093},
+																										pos: position{line: 2881, col: 11, offset: 91222},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2881, col: 11, offset: 91093},
+																											pos:        position{line: 2881, col: 11, offset: 91222},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26874,15 +26874,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1700, col: 9, offset: 55089},
+																									pos:   position{line: 1700, col: 9, offset: 55218},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1700, col: 18, offset: 55098},
+																										pos: position{line: 1700, col: 18, offset: 55227},
 																										run: (*parser).callonExtraListElement242,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1700, col: 18, offset: 55098},
+																											pos: position{line: 1700, col: 18, offset: 55227},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1700, col: 18, offset: 55098},
+																												pos:        position{line: 1700, col: 18, offset: 55227},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -26892,28 +26892,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2899, col: 8, offset: 91430},
+																									pos: position{line: 2899, col: 8, offset: 91559},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2886, col: 12, offset: 91203},
+																											pos: position{line: 2886, col: 12, offset: 91332},
 																											run: (*parser).callonExtraListElement246,
 																											expr: &choiceExpr{
-																												pos: position{line: 2886, col: 13, offset: 91204},
+																												pos: position{line: 2886, col: 13, offset: 91333},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 13, offset: 91204},
+																														pos:        position{line: 2886, col: 13, offset: 91333},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 20, offset: 91211},
+																														pos:        position{line: 2886, col: 20, offset: 91340},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 29, offset: 91220},
+																														pos:        position{line: 2886, col: 29, offset: 91349},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26922,9 +26922,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2896, col: 8, offset: 91380},
+																											pos: position{line: 2896, col: 8, offset: 91509},
 																											expr: &anyMatcher{
-																												line: 2896, col: 9, offset: 91381,
+																												line: 2896, col: 9, offset: 91510,
 																											},
 																										},
 																									},
@@ -26945,50 +26945,50 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1504, col: 13, offset: 48745},
+										pos: position{line: 1504, col: 13, offset: 48874},
 										run: (*parser).callonExtraListElement253,
 										expr: &seqExpr{
-											pos: position{line: 1504, col: 13, offset: 48745},
+											pos: position{line: 1504, col: 13, offset: 48874},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1504, col: 13, offset: 48745},
+													pos:   position{line: 1504, col: 13, offset: 48874},
 													label: "attributes",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1504, col: 24, offset: 48756},
+														pos: position{line: 1504, col: 24, offset: 48885},
 														expr: &ruleRefExpr{
-															pos:  position{line: 1504, col: 25, offset: 48757},
+															pos:  position{line: 1504, col: 25, offset: 48886},
 															name: "BlockAttributes",
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1505, col: 13, offset: 48788},
+													pos:   position{line: 1505, col: 13, offset: 48917},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1505, col: 22, offset: 48797},
+														pos: position{line: 1505, col: 22, offset: 48926},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1581, col: 5, offset: 51112},
+																pos: position{line: 1581, col: 5, offset: 51241},
 																run: (*parser).callonExtraListElement260,
 																expr: &seqExpr{
-																	pos: position{line: 1581, col: 5, offset: 51112},
+																	pos: position{line: 1581, col: 5, offset: 51241},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1581, col: 5, offset: 51112},
+																			pos:   position{line: 1581, col: 5, offset: 51241},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1588, col: 5, offset: 51320},
+																				pos: position{line: 1588, col: 5, offset: 51449},
 																				run: (*parser).callonExtraListElement263,
 																				expr: &seqExpr{
-																					pos: position{line: 1588, col: 5, offset: 51320},
+																					pos: position{line: 1588, col: 5, offset: 51449},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1588, col: 5, offset: 51320},
+																							pos: position{line: 1588, col: 5, offset: 51449},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91032},
+																								pos: position{line: 2877, col: 10, offset: 91161},
 																								run: (*parser).callonExtraListElement266,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91032},
+																									pos:        position{line: 2877, col: 10, offset: 91161},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26997,27 +26997,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1588, col: 12, offset: 51327},
+																							pos:   position{line: 1588, col: 12, offset: 51456},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1590, col: 9, offset: 51390},
+																								pos: position{line: 1590, col: 9, offset: 51519},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1590, col: 9, offset: 51390},
+																										pos: position{line: 1590, col: 9, offset: 51519},
 																										run: (*parser).callonExtraListElement270,
 																										expr: &seqExpr{
-																											pos: position{line: 1590, col: 9, offset: 51390},
+																											pos: position{line: 1590, col: 9, offset: 51519},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1590, col: 9, offset: 51390},
+																													pos:   position{line: 1590, col: 9, offset: 51519},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1590, col: 16, offset: 51397},
+																														pos: position{line: 1590, col: 16, offset: 51526},
 																														run: (*parser).callonExtraListElement273,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1590, col: 16, offset: 51397},
+																															pos: position{line: 1590, col: 16, offset: 51526},
 																															expr: &litMatcher{
-																																pos:        position{line: 1590, col: 17, offset: 51398},
+																																pos:        position{line: 1590, col: 17, offset: 51527},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -27026,22 +27026,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1594, col: 9, offset: 51498},
+																													pos: position{line: 1594, col: 9, offset: 51627},
 																													run: (*parser).callonExtraListElement276,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1613, col: 11, offset: 52215},
+																										pos: position{line: 1613, col: 11, offset: 52344},
 																										run: (*parser).callonExtraListElement277,
 																										expr: &seqExpr{
-																											pos: position{line: 1613, col: 11, offset: 52215},
+																											pos: position{line: 1613, col: 11, offset: 52344},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1613, col: 11, offset: 52215},
+																													pos: position{line: 1613, col: 11, offset: 52344},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1613, col: 12, offset: 52216},
+																														pos:        position{line: 1613, col: 12, offset: 52345},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -27049,7 +27049,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1613, col: 20, offset: 52224},
+																													pos:        position{line: 1613, col: 20, offset: 52353},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27058,20 +27058,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1615, col: 13, offset: 52341},
+																										pos: position{line: 1615, col: 13, offset: 52470},
 																										run: (*parser).callonExtraListElement282,
 																										expr: &seqExpr{
-																											pos: position{line: 1615, col: 13, offset: 52341},
+																											pos: position{line: 1615, col: 13, offset: 52470},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1615, col: 14, offset: 52342},
+																													pos:        position{line: 1615, col: 14, offset: 52471},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1615, col: 21, offset: 52349},
+																													pos:        position{line: 1615, col: 21, offset: 52478},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27080,20 +27080,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1617, col: 13, offset: 52469},
+																										pos: position{line: 1617, col: 13, offset: 52598},
 																										run: (*parser).callonExtraListElement286,
 																										expr: &seqExpr{
-																											pos: position{line: 1617, col: 13, offset: 52469},
+																											pos: position{line: 1617, col: 13, offset: 52598},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1617, col: 14, offset: 52470},
+																													pos:        position{line: 1617, col: 14, offset: 52599},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1617, col: 21, offset: 52477},
+																													pos:        position{line: 1617, col: 21, offset: 52606},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27102,15 +27102,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1619, col: 13, offset: 52597},
+																										pos: position{line: 1619, col: 13, offset: 52726},
 																										run: (*parser).callonExtraListElement290,
 																										expr: &seqExpr{
-																											pos: position{line: 1619, col: 13, offset: 52597},
+																											pos: position{line: 1619, col: 13, offset: 52726},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1619, col: 13, offset: 52597},
+																													pos: position{line: 1619, col: 13, offset: 52726},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1619, col: 14, offset: 52598},
+																														pos:        position{line: 1619, col: 14, offset: 52727},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -27118,7 +27118,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1619, col: 26, offset: 52610},
+																													pos:        position{line: 1619, col: 26, offset: 52739},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27127,15 +27127,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1621, col: 13, offset: 52730},
+																										pos: position{line: 1621, col: 13, offset: 52859},
 																										run: (*parser).callonExtraListElement295,
 																										expr: &seqExpr{
-																											pos: position{line: 1621, col: 13, offset: 52730},
+																											pos: position{line: 1621, col: 13, offset: 52859},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1621, col: 13, offset: 52730},
+																													pos: position{line: 1621, col: 13, offset: 52859},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1621, col: 14, offset: 52731},
+																														pos:        position{line: 1621, col: 14, offset: 52860},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -27143,7 +27143,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1621, col: 26, offset: 52743},
+																													pos:        position{line: 1621, col: 26, offset: 52872},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27155,12 +27155,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2881, col: 11, offset: 91093},
+																							pos: position{line: 2881, col: 11, offset: 91222},
 																							run: (*parser).callonExtraListElement300,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2881, col: 11, offset: 91093},
+																								pos: position{line: 2881, col: 11, offset: 91222},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2881, col: 11, offset: 91093},
+																									pos:        position{line: 2881, col: 11, offset: 91222},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27173,26 +27173,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1582, col: 5, offset: 51151},
+																			pos:   position{line: 1582, col: 5, offset: 51280},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1529, col: 5, offset: 49618},
+																				pos: position{line: 1529, col: 5, offset: 49747},
 																				run: (*parser).callonExtraListElement304,
 																				expr: &seqExpr{
-																					pos: position{line: 1529, col: 5, offset: 49618},
+																					pos: position{line: 1529, col: 5, offset: 49747},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1529, col: 5, offset: 49618},
+																							pos:   position{line: 1529, col: 5, offset: 49747},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1529, col: 14, offset: 49627},
+																								pos: position{line: 1529, col: 14, offset: 49756},
 																								expr: &actionExpr{
-																									pos: position{line: 1529, col: 15, offset: 49628},
+																									pos: position{line: 1529, col: 15, offset: 49757},
 																									run: (*parser).callonExtraListElement308,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1529, col: 15, offset: 49628},
+																										pos: position{line: 1529, col: 15, offset: 49757},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1529, col: 15, offset: 49628},
+																											pos:        position{line: 1529, col: 15, offset: 49757},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27203,28 +27203,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91430},
+																							pos: position{line: 2899, col: 8, offset: 91559},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91203},
+																									pos: position{line: 2886, col: 12, offset: 91332},
 																									run: (*parser).callonExtraListElement312,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91204},
+																										pos: position{line: 2886, col: 13, offset: 91333},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91204},
+																												pos:        position{line: 2886, col: 13, offset: 91333},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91211},
+																												pos:        position{line: 2886, col: 20, offset: 91340},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91220},
+																												pos:        position{line: 2886, col: 29, offset: 91349},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27233,9 +27233,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91380},
+																									pos: position{line: 2896, col: 8, offset: 91509},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91381,
+																										line: 2896, col: 9, offset: 91510,
 																									},
 																								},
 																							},
@@ -27248,27 +27248,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1631, col: 5, offset: 53009},
+																pos: position{line: 1631, col: 5, offset: 53138},
 																run: (*parser).callonExtraListElement319,
 																expr: &seqExpr{
-																	pos: position{line: 1631, col: 5, offset: 53009},
+																	pos: position{line: 1631, col: 5, offset: 53138},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1631, col: 5, offset: 53009},
+																			pos:   position{line: 1631, col: 5, offset: 53138},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1638, col: 5, offset: 53282},
+																				pos: position{line: 1638, col: 5, offset: 53411},
 																				run: (*parser).callonExtraListElement322,
 																				expr: &seqExpr{
-																					pos: position{line: 1638, col: 5, offset: 53282},
+																					pos: position{line: 1638, col: 5, offset: 53411},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1638, col: 5, offset: 53282},
+																							pos: position{line: 1638, col: 5, offset: 53411},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91032},
+																								pos: position{line: 2877, col: 10, offset: 91161},
 																								run: (*parser).callonExtraListElement325,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91032},
+																									pos:        position{line: 2877, col: 10, offset: 91161},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27277,24 +27277,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1639, col: 5, offset: 53294},
+																							pos:   position{line: 1639, col: 5, offset: 53423},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1640, col: 9, offset: 53310},
+																								pos: position{line: 1640, col: 9, offset: 53439},
 																								run: (*parser).callonExtraListElement328,
 																								expr: &choiceExpr{
-																									pos: position{line: 1640, col: 10, offset: 53311},
+																									pos: position{line: 1640, col: 10, offset: 53440},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1640, col: 11, offset: 53312},
+																											pos:        position{line: 1640, col: 11, offset: 53441},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1640, col: 18, offset: 53319},
+																											pos: position{line: 1640, col: 18, offset: 53448},
 																											expr: &litMatcher{
-																												pos:        position{line: 1640, col: 19, offset: 53320},
+																												pos:        position{line: 1640, col: 19, offset: 53449},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -27305,16 +27305,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1643, col: 7, offset: 53410},
+																							pos: position{line: 1643, col: 7, offset: 53539},
 																							run: (*parser).callonExtraListElement333,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2881, col: 11, offset: 91093},
+																							pos: position{line: 2881, col: 11, offset: 91222},
 																							run: (*parser).callonExtraListElement334,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2881, col: 11, offset: 91093},
+																								pos: position{line: 2881, col: 11, offset: 91222},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2881, col: 11, offset: 91093},
+																									pos:        position{line: 2881, col: 11, offset: 91222},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27327,56 +27327,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1632, col: 5, offset: 53050},
+																			pos:   position{line: 1632, col: 5, offset: 53179},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1632, col: 16, offset: 53061},
+																				pos: position{line: 1632, col: 16, offset: 53190},
 																				expr: &actionExpr{
-																					pos: position{line: 1653, col: 5, offset: 53675},
+																					pos: position{line: 1653, col: 5, offset: 53804},
 																					run: (*parser).callonExtraListElement339,
 																					expr: &seqExpr{
-																						pos: position{line: 1653, col: 5, offset: 53675},
+																						pos: position{line: 1653, col: 5, offset: 53804},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1653, col: 5, offset: 53675},
+																								pos: position{line: 1653, col: 5, offset: 53804},
 																								expr: &litMatcher{
-																									pos:        position{line: 1653, col: 6, offset: 53676},
+																									pos:        position{line: 1653, col: 6, offset: 53805},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1653, col: 10, offset: 53680},
+																								pos:   position{line: 1653, col: 10, offset: 53809},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1654, col: 7, offset: 53694},
+																									pos: position{line: 1654, col: 7, offset: 53823},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1654, col: 7, offset: 53694},
+																											pos: position{line: 1654, col: 7, offset: 53823},
 																											run: (*parser).callonExtraListElement345,
 																											expr: &litMatcher{
-																												pos:        position{line: 1654, col: 7, offset: 53694},
+																												pos:        position{line: 1654, col: 7, offset: 53823},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1655, col: 7, offset: 53739},
+																											pos: position{line: 1655, col: 7, offset: 53868},
 																											run: (*parser).callonExtraListElement347,
 																											expr: &litMatcher{
-																												pos:        position{line: 1655, col: 7, offset: 53739},
+																												pos:        position{line: 1655, col: 7, offset: 53868},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1656, col: 7, offset: 53782},
+																											pos: position{line: 1656, col: 7, offset: 53911},
 																											run: (*parser).callonExtraListElement349,
 																											expr: &litMatcher{
-																												pos:        position{line: 1656, col: 7, offset: 53782},
+																												pos:        position{line: 1656, col: 7, offset: 53911},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -27386,12 +27386,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2881, col: 11, offset: 91093},
+																								pos: position{line: 2881, col: 11, offset: 91222},
 																								run: (*parser).callonExtraListElement351,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2881, col: 11, offset: 91093},
+																									pos: position{line: 2881, col: 11, offset: 91222},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2881, col: 11, offset: 91093},
+																										pos:        position{line: 2881, col: 11, offset: 91222},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27405,26 +27405,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1633, col: 5, offset: 53100},
+																			pos:   position{line: 1633, col: 5, offset: 53229},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1529, col: 5, offset: 49618},
+																				pos: position{line: 1529, col: 5, offset: 49747},
 																				run: (*parser).callonExtraListElement355,
 																				expr: &seqExpr{
-																					pos: position{line: 1529, col: 5, offset: 49618},
+																					pos: position{line: 1529, col: 5, offset: 49747},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1529, col: 5, offset: 49618},
+																							pos:   position{line: 1529, col: 5, offset: 49747},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1529, col: 14, offset: 49627},
+																								pos: position{line: 1529, col: 14, offset: 49756},
 																								expr: &actionExpr{
-																									pos: position{line: 1529, col: 15, offset: 49628},
+																									pos: position{line: 1529, col: 15, offset: 49757},
 																									run: (*parser).callonExtraListElement359,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1529, col: 15, offset: 49628},
+																										pos: position{line: 1529, col: 15, offset: 49757},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1529, col: 15, offset: 49628},
+																											pos:        position{line: 1529, col: 15, offset: 49757},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27435,28 +27435,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91430},
+																							pos: position{line: 2899, col: 8, offset: 91559},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91203},
+																									pos: position{line: 2886, col: 12, offset: 91332},
 																									run: (*parser).callonExtraListElement363,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91204},
+																										pos: position{line: 2886, col: 13, offset: 91333},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91204},
+																												pos:        position{line: 2886, col: 13, offset: 91333},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91211},
+																												pos:        position{line: 2886, col: 20, offset: 91340},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91220},
+																												pos:        position{line: 2886, col: 29, offset: 91349},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27465,9 +27465,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91380},
+																									pos: position{line: 2896, col: 8, offset: 91509},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91381,
+																										line: 2896, col: 9, offset: 91510,
 																									},
 																								},
 																							},
@@ -27480,36 +27480,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1722, col: 5, offset: 55654},
+																pos: position{line: 1722, col: 5, offset: 55783},
 																run: (*parser).callonExtraListElement370,
 																expr: &seqExpr{
-																	pos: position{line: 1722, col: 5, offset: 55654},
+																	pos: position{line: 1722, col: 5, offset: 55783},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1722, col: 5, offset: 55654},
+																			pos:   position{line: 1722, col: 5, offset: 55783},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1728, col: 5, offset: 55851},
+																				pos: position{line: 1728, col: 5, offset: 55980},
 																				run: (*parser).callonExtraListElement373,
 																				expr: &seqExpr{
-																					pos: position{line: 1728, col: 5, offset: 55851},
+																					pos: position{line: 1728, col: 5, offset: 55980},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1728, col: 5, offset: 55851},
+																							pos:        position{line: 1728, col: 5, offset: 55980},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1728, col: 9, offset: 55855},
+																							pos:   position{line: 1728, col: 9, offset: 55984},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1728, col: 14, offset: 55860},
+																								pos: position{line: 1728, col: 14, offset: 55989},
 																								run: (*parser).callonExtraListElement377,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1728, col: 14, offset: 55860},
+																									pos: position{line: 1728, col: 14, offset: 55989},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1728, col: 14, offset: 55860},
+																										pos:        position{line: 1728, col: 14, offset: 55989},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -27519,18 +27519,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1728, col: 62, offset: 55908},
+																							pos:        position{line: 1728, col: 62, offset: 56037},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2881, col: 11, offset: 91093},
+																							pos: position{line: 2881, col: 11, offset: 91222},
 																							run: (*parser).callonExtraListElement381,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2881, col: 11, offset: 91093},
+																								pos: position{line: 2881, col: 11, offset: 91222},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2881, col: 11, offset: 91093},
+																									pos:        position{line: 2881, col: 11, offset: 91222},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27543,26 +27543,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1723, col: 5, offset: 55690},
+																			pos:   position{line: 1723, col: 5, offset: 55819},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1529, col: 5, offset: 49618},
+																				pos: position{line: 1529, col: 5, offset: 49747},
 																				run: (*parser).callonExtraListElement385,
 																				expr: &seqExpr{
-																					pos: position{line: 1529, col: 5, offset: 49618},
+																					pos: position{line: 1529, col: 5, offset: 49747},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1529, col: 5, offset: 49618},
+																							pos:   position{line: 1529, col: 5, offset: 49747},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1529, col: 14, offset: 49627},
+																								pos: position{line: 1529, col: 14, offset: 49756},
 																								expr: &actionExpr{
-																									pos: position{line: 1529, col: 15, offset: 49628},
+																									pos: position{line: 1529, col: 15, offset: 49757},
 																									run: (*parser).callonExtraListElement389,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1529, col: 15, offset: 49628},
+																										pos: position{line: 1529, col: 15, offset: 49757},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1529, col: 15, offset: 49628},
+																											pos:        position{line: 1529, col: 15, offset: 49757},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27573,28 +27573,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91430},
+																							pos: position{line: 2899, col: 8, offset: 91559},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91203},
+																									pos: position{line: 2886, col: 12, offset: 91332},
 																									run: (*parser).callonExtraListElement393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91204},
+																										pos: position{line: 2886, col: 13, offset: 91333},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91204},
+																												pos:        position{line: 2886, col: 13, offset: 91333},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91211},
+																												pos:        position{line: 2886, col: 20, offset: 91340},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91220},
+																												pos:        position{line: 2886, col: 29, offset: 91349},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27603,9 +27603,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91380},
+																									pos: position{line: 2896, col: 8, offset: 91509},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91381,
+																										line: 2896, col: 9, offset: 91510,
 																									},
 																								},
 																							},
@@ -27618,35 +27618,35 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1665, col: 5, offset: 53975},
+																pos: position{line: 1665, col: 5, offset: 54104},
 																run: (*parser).callonExtraListElement400,
 																expr: &seqExpr{
-																	pos: position{line: 1665, col: 5, offset: 53975},
+																	pos: position{line: 1665, col: 5, offset: 54104},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1665, col: 5, offset: 53975},
+																			pos:   position{line: 1665, col: 5, offset: 54104},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1673, col: 5, offset: 54301},
+																				pos: position{line: 1673, col: 5, offset: 54430},
 																				run: (*parser).callonExtraListElement403,
 																				expr: &seqExpr{
-																					pos: position{line: 1673, col: 5, offset: 54301},
+																					pos: position{line: 1673, col: 5, offset: 54430},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1673, col: 5, offset: 54301},
+																							pos: position{line: 1673, col: 5, offset: 54430},
 																							expr: &seqExpr{
-																								pos: position{line: 2489, col: 31, offset: 80139},
+																								pos: position{line: 2489, col: 31, offset: 80268},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2489, col: 31, offset: 80139},
+																										pos:        position{line: 2489, col: 31, offset: 80268},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2489, col: 36, offset: 80144},
+																										pos: position{line: 2489, col: 36, offset: 80273},
 																										expr: &litMatcher{
-																											pos:        position{line: 2489, col: 37, offset: 80145},
+																											pos:        position{line: 2489, col: 37, offset: 80274},
 																											val:        "//",
 																											ignoreCase: false,
 																											want:       "\"//\"",
@@ -27656,28 +27656,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1674, col: 5, offset: 54333},
+																							pos: position{line: 1674, col: 5, offset: 54462},
 																							expr: &seqExpr{
-																								pos: position{line: 1674, col: 6, offset: 54334},
+																								pos: position{line: 1674, col: 6, offset: 54463},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1674, col: 6, offset: 54334},
+																										pos: position{line: 1674, col: 6, offset: 54463},
 																										expr: &actionExpr{
-																											pos: position{line: 1679, col: 5, offset: 54484},
+																											pos: position{line: 1679, col: 5, offset: 54613},
 																											run: (*parser).callonExtraListElement413,
 																											expr: &seqExpr{
-																												pos: position{line: 1679, col: 5, offset: 54484},
+																												pos: position{line: 1679, col: 5, offset: 54613},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1679, col: 5, offset: 54484},
+																														pos:   position{line: 1679, col: 5, offset: 54613},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1679, col: 16, offset: 54495},
+																															pos: position{line: 1679, col: 16, offset: 54624},
 																															run: (*parser).callonExtraListElement416,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1679, col: 16, offset: 54495},
+																																pos: position{line: 1679, col: 16, offset: 54624},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1679, col: 17, offset: 54496},
+																																	pos:        position{line: 1679, col: 17, offset: 54625},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -27686,7 +27686,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1682, col: 5, offset: 54553},
+																														pos: position{line: 1682, col: 5, offset: 54682},
 																														run: (*parser).callonExtraListElement419,
 																													},
 																												},
@@ -27694,30 +27694,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1674, col: 35, offset: 54363},
+																										pos: position{line: 1674, col: 35, offset: 54492},
 																										expr: &choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91430},
+																											pos: position{line: 2899, col: 8, offset: 91559},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91203},
+																													pos: position{line: 2886, col: 12, offset: 91332},
 																													run: (*parser).callonExtraListElement422,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91204},
+																														pos: position{line: 2886, col: 13, offset: 91333},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91204},
+																																pos:        position{line: 2886, col: 13, offset: 91333},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91211},
+																																pos:        position{line: 2886, col: 20, offset: 91340},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91220},
+																																pos:        position{line: 2886, col: 29, offset: 91349},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -27726,16 +27726,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91380},
+																													pos: position{line: 2896, col: 8, offset: 91509},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91381,
+																														line: 2896, col: 9, offset: 91510,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1674, col: 40, offset: 54368,
+																										line: 1674, col: 40, offset: 54497,
 																									},
 																								},
 																							},
@@ -27745,24 +27745,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1666, col: 5, offset: 54010},
+																			pos:   position{line: 1666, col: 5, offset: 54139},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1679, col: 5, offset: 54484},
+																				pos: position{line: 1679, col: 5, offset: 54613},
 																				run: (*parser).callonExtraListElement431,
 																				expr: &seqExpr{
-																					pos: position{line: 1679, col: 5, offset: 54484},
+																					pos: position{line: 1679, col: 5, offset: 54613},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1679, col: 5, offset: 54484},
+																							pos:   position{line: 1679, col: 5, offset: 54613},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1679, col: 16, offset: 54495},
+																								pos: position{line: 1679, col: 16, offset: 54624},
 																								run: (*parser).callonExtraListElement434,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1679, col: 16, offset: 54495},
+																									pos: position{line: 1679, col: 16, offset: 54624},
 																									expr: &litMatcher{
-																										pos:        position{line: 1679, col: 17, offset: 54496},
+																										pos:        position{line: 1679, col: 17, offset: 54625},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -27771,7 +27771,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1682, col: 5, offset: 54553},
+																							pos: position{line: 1682, col: 5, offset: 54682},
 																							run: (*parser).callonExtraListElement437,
 																						},
 																					},
@@ -27779,24 +27779,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1667, col: 5, offset: 54055},
+																			pos:   position{line: 1667, col: 5, offset: 54184},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1690, col: 5, offset: 54802},
+																				pos: position{line: 1690, col: 5, offset: 54931},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1692, col: 9, offset: 54868},
+																						pos: position{line: 1692, col: 9, offset: 54997},
 																						run: (*parser).callonExtraListElement440,
 																						expr: &seqExpr{
-																							pos: position{line: 1692, col: 9, offset: 54868},
+																							pos: position{line: 1692, col: 9, offset: 54997},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1692, col: 9, offset: 54868},
+																									pos: position{line: 1692, col: 9, offset: 54997},
 																									expr: &actionExpr{
-																										pos: position{line: 2877, col: 10, offset: 91032},
+																										pos: position{line: 2877, col: 10, offset: 91161},
 																										run: (*parser).callonExtraListElement443,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2877, col: 10, offset: 91032},
+																											pos:        position{line: 2877, col: 10, offset: 91161},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27805,28 +27805,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2899, col: 8, offset: 91430},
+																									pos: position{line: 2899, col: 8, offset: 91559},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2886, col: 12, offset: 91203},
+																											pos: position{line: 2886, col: 12, offset: 91332},
 																											run: (*parser).callonExtraListElement446,
 																											expr: &choiceExpr{
-																												pos: position{line: 2886, col: 13, offset: 91204},
+																												pos: position{line: 2886, col: 13, offset: 91333},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 13, offset: 91204},
+																														pos:        position{line: 2886, col: 13, offset: 91333},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 20, offset: 91211},
+																														pos:        position{line: 2886, col: 20, offset: 91340},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 29, offset: 91220},
+																														pos:        position{line: 2886, col: 29, offset: 91349},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27835,15 +27835,15 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2896, col: 8, offset: 91380},
+																											pos: position{line: 2896, col: 8, offset: 91509},
 																											expr: &anyMatcher{
-																												line: 2896, col: 9, offset: 91381,
+																												line: 2896, col: 9, offset: 91510,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1693, col: 9, offset: 54887},
+																									pos: position{line: 1693, col: 9, offset: 55016},
 																									expr: &actionExpr{
 																										pos: position{line: 677, col: 14, offset: 21525},
 																										run: (*parser).callonExtraListElement454,
@@ -27851,18 +27851,18 @@ var g = &grammar{
 																											pos: position{line: 677, col: 14, offset: 21525},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2894, col: 11, offset: 91366},
+																													pos: position{line: 2894, col: 11, offset: 91495},
 																													expr: &anyMatcher{
-																														line: 2894, col: 13, offset: 91368,
+																														line: 2894, col: 13, offset: 91497,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 677, col: 21, offset: 21532},
 																													expr: &actionExpr{
-																														pos: position{line: 2877, col: 10, offset: 91032},
+																														pos: position{line: 2877, col: 10, offset: 91161},
 																														run: (*parser).callonExtraListElement459,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2877, col: 10, offset: 91032},
+																															pos:        position{line: 2877, col: 10, offset: 91161},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27871,28 +27871,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2899, col: 8, offset: 91430},
+																													pos: position{line: 2899, col: 8, offset: 91559},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2886, col: 12, offset: 91203},
+																															pos: position{line: 2886, col: 12, offset: 91332},
 																															run: (*parser).callonExtraListElement462,
 																															expr: &choiceExpr{
-																																pos: position{line: 2886, col: 13, offset: 91204},
+																																pos: position{line: 2886, col: 13, offset: 91333},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2886, col: 13, offset: 91204},
+																																		pos:        position{line: 2886, col: 13, offset: 91333},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2886, col: 20, offset: 91211},
+																																		pos:        position{line: 2886, col: 20, offset: 91340},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2886, col: 29, offset: 91220},
+																																		pos:        position{line: 2886, col: 29, offset: 91349},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -27901,9 +27901,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2896, col: 8, offset: 91380},
+																															pos: position{line: 2896, col: 8, offset: 91509},
 																															expr: &anyMatcher{
-																																line: 2896, col: 9, offset: 91381,
+																																line: 2896, col: 9, offset: 91510,
 																															},
 																														},
 																													},
@@ -27916,18 +27916,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1699, col: 9, offset: 55016},
+																						pos: position{line: 1699, col: 9, offset: 55145},
 																						run: (*parser).callonExtraListElement469,
 																						expr: &seqExpr{
-																							pos: position{line: 1699, col: 9, offset: 55016},
+																							pos: position{line: 1699, col: 9, offset: 55145},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2881, col: 11, offset: 91093},
+																									pos: position{line: 2881, col: 11, offset: 91222},
 																									run: (*parser).callonExtraListElement471,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2881, col: 11, offset: 91093},
+																										pos: position{line: 2881, col: 11, offset: 91222},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2881, col: 11, offset: 91093},
+																											pos:        position{line: 2881, col: 11, offset: 91222},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27936,15 +27936,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1700, col: 9, offset: 55089},
+																									pos:   position{line: 1700, col: 9, offset: 55218},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1700, col: 18, offset: 55098},
+																										pos: position{line: 1700, col: 18, offset: 55227},
 																										run: (*parser).callonExtraListElement475,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1700, col: 18, offset: 55098},
+																											pos: position{line: 1700, col: 18, offset: 55227},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1700, col: 18, offset: 55098},
+																												pos:        position{line: 1700, col: 18, offset: 55227},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -27954,28 +27954,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2899, col: 8, offset: 91430},
+																									pos: position{line: 2899, col: 8, offset: 91559},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2886, col: 12, offset: 91203},
+																											pos: position{line: 2886, col: 12, offset: 91332},
 																											run: (*parser).callonExtraListElement479,
 																											expr: &choiceExpr{
-																												pos: position{line: 2886, col: 13, offset: 91204},
+																												pos: position{line: 2886, col: 13, offset: 91333},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 13, offset: 91204},
+																														pos:        position{line: 2886, col: 13, offset: 91333},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 20, offset: 91211},
+																														pos:        position{line: 2886, col: 20, offset: 91340},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 29, offset: 91220},
+																														pos:        position{line: 2886, col: 29, offset: 91349},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27984,9 +27984,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2896, col: 8, offset: 91380},
+																											pos: position{line: 2896, col: 8, offset: 91509},
 																											expr: &anyMatcher{
-																												line: 2896, col: 9, offset: 91381,
+																												line: 2896, col: 9, offset: 91510,
 																											},
 																										},
 																									},
@@ -28007,40 +28007,40 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1508, col: 11, offset: 48982},
+										pos:  position{line: 1508, col: 11, offset: 49111},
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2484, col: 22, offset: 79918},
+										pos: position{line: 2484, col: 22, offset: 80047},
 										run: (*parser).callonExtraListElement487,
 										expr: &seqExpr{
-											pos: position{line: 2484, col: 22, offset: 79918},
+											pos: position{line: 2484, col: 22, offset: 80047},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2489, col: 31, offset: 80139},
+													pos:        position{line: 2489, col: 31, offset: 80268},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2489, col: 36, offset: 80144},
+													pos: position{line: 2489, col: 36, offset: 80273},
 													expr: &litMatcher{
-														pos:        position{line: 2489, col: 37, offset: 80145},
+														pos:        position{line: 2489, col: 37, offset: 80274},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2484, col: 49, offset: 79945},
+													pos:   position{line: 2484, col: 49, offset: 80074},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2823, col: 13, offset: 89558},
+														pos: position{line: 2823, col: 13, offset: 89687},
 														run: (*parser).callonExtraListElement493,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2823, col: 13, offset: 89558},
+															pos: position{line: 2823, col: 13, offset: 89687},
 															expr: &charClassMatcher{
-																pos:        position{line: 2823, col: 13, offset: 89558},
+																pos:        position{line: 2823, col: 13, offset: 89687},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -28050,28 +28050,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2899, col: 8, offset: 91430},
+													pos: position{line: 2899, col: 8, offset: 91559},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2886, col: 12, offset: 91203},
+															pos: position{line: 2886, col: 12, offset: 91332},
 															run: (*parser).callonExtraListElement497,
 															expr: &choiceExpr{
-																pos: position{line: 2886, col: 13, offset: 91204},
+																pos: position{line: 2886, col: 13, offset: 91333},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 13, offset: 91204},
+																		pos:        position{line: 2886, col: 13, offset: 91333},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 20, offset: 91211},
+																		pos:        position{line: 2886, col: 20, offset: 91340},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 29, offset: 91220},
+																		pos:        position{line: 2886, col: 29, offset: 91349},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -28080,9 +28080,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2896, col: 8, offset: 91380},
+															pos: position{line: 2896, col: 8, offset: 91509},
 															expr: &anyMatcher{
-																line: 2896, col: 9, offset: 91381,
+																line: 2896, col: 9, offset: 91510,
 															},
 														},
 													},
@@ -28091,13 +28091,13 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1516, col: 5, offset: 49260},
+										pos: position{line: 1516, col: 5, offset: 49389},
 										run: (*parser).callonExtraListElement504,
 										expr: &seqExpr{
-											pos: position{line: 1516, col: 5, offset: 49260},
+											pos: position{line: 1516, col: 5, offset: 49389},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 1516, col: 5, offset: 49260},
+													pos: position{line: 1516, col: 5, offset: 49389},
 													expr: &actionExpr{
 														pos: position{line: 677, col: 14, offset: 21525},
 														run: (*parser).callonExtraListElement507,
@@ -28105,18 +28105,18 @@ var g = &grammar{
 															pos: position{line: 677, col: 14, offset: 21525},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2894, col: 11, offset: 91366},
+																	pos: position{line: 2894, col: 11, offset: 91495},
 																	expr: &anyMatcher{
-																		line: 2894, col: 13, offset: 91368,
+																		line: 2894, col: 13, offset: 91497,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 677, col: 21, offset: 21532},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91032},
+																		pos: position{line: 2877, col: 10, offset: 91161},
 																		run: (*parser).callonExtraListElement512,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91032},
+																			pos:        position{line: 2877, col: 10, offset: 91161},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28125,28 +28125,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91430},
+																	pos: position{line: 2899, col: 8, offset: 91559},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91203},
+																			pos: position{line: 2886, col: 12, offset: 91332},
 																			run: (*parser).callonExtraListElement515,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91204},
+																				pos: position{line: 2886, col: 13, offset: 91333},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91204},
+																						pos:        position{line: 2886, col: 13, offset: 91333},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91211},
+																						pos:        position{line: 2886, col: 20, offset: 91340},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91220},
+																						pos:        position{line: 2886, col: 29, offset: 91349},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -28155,9 +28155,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91380},
+																			pos: position{line: 2896, col: 8, offset: 91509},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91381,
+																				line: 2896, col: 9, offset: 91510,
 																			},
 																		},
 																	},
@@ -28167,23 +28167,23 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1517, col: 5, offset: 49275},
+													pos: position{line: 1517, col: 5, offset: 49404},
 													expr: &seqExpr{
-														pos: position{line: 1547, col: 27, offset: 50101},
+														pos: position{line: 1547, col: 27, offset: 50230},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 1547, col: 27, offset: 50101},
+																pos:        position{line: 1547, col: 27, offset: 50230},
 																val:        "+",
 																ignoreCase: false,
 																want:       "\"+\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 1547, col: 31, offset: 50105},
+																pos: position{line: 1547, col: 31, offset: 50234},
 																expr: &actionExpr{
-																	pos: position{line: 2877, col: 10, offset: 91032},
+																	pos: position{line: 2877, col: 10, offset: 91161},
 																	run: (*parser).callonExtraListElement526,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2877, col: 10, offset: 91032},
+																		pos:        position{line: 2877, col: 10, offset: 91161},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -28192,25 +28192,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2886, col: 12, offset: 91203},
+																pos: position{line: 2886, col: 12, offset: 91332},
 																run: (*parser).callonExtraListElement528,
 																expr: &choiceExpr{
-																	pos: position{line: 2886, col: 13, offset: 91204},
+																	pos: position{line: 2886, col: 13, offset: 91333},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 13, offset: 91204},
+																			pos:        position{line: 2886, col: 13, offset: 91333},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 20, offset: 91211},
+																			pos:        position{line: 2886, col: 20, offset: 91340},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 29, offset: 91220},
+																			pos:        position{line: 2886, col: 29, offset: 91349},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -28222,20 +28222,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1518, col: 5, offset: 49303},
+													pos: position{line: 1518, col: 5, offset: 49432},
 													expr: &actionExpr{
-														pos: position{line: 1588, col: 5, offset: 51320},
+														pos: position{line: 1588, col: 5, offset: 51449},
 														run: (*parser).callonExtraListElement534,
 														expr: &seqExpr{
-															pos: position{line: 1588, col: 5, offset: 51320},
+															pos: position{line: 1588, col: 5, offset: 51449},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1588, col: 5, offset: 51320},
+																	pos: position{line: 1588, col: 5, offset: 51449},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91032},
+																		pos: position{line: 2877, col: 10, offset: 91161},
 																		run: (*parser).callonExtraListElement537,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91032},
+																			pos:        position{line: 2877, col: 10, offset: 91161},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28244,27 +28244,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1588, col: 12, offset: 51327},
+																	pos:   position{line: 1588, col: 12, offset: 51456},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1590, col: 9, offset: 51390},
+																		pos: position{line: 1590, col: 9, offset: 51519},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1590, col: 9, offset: 51390},
+																				pos: position{line: 1590, col: 9, offset: 51519},
 																				run: (*parser).callonExtraListElement541,
 																				expr: &seqExpr{
-																					pos: position{line: 1590, col: 9, offset: 51390},
+																					pos: position{line: 1590, col: 9, offset: 51519},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1590, col: 9, offset: 51390},
+																							pos:   position{line: 1590, col: 9, offset: 51519},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1590, col: 16, offset: 51397},
+																								pos: position{line: 1590, col: 16, offset: 51526},
 																								run: (*parser).callonExtraListElement544,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1590, col: 16, offset: 51397},
+																									pos: position{line: 1590, col: 16, offset: 51526},
 																									expr: &litMatcher{
-																										pos:        position{line: 1590, col: 17, offset: 51398},
+																										pos:        position{line: 1590, col: 17, offset: 51527},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -28273,22 +28273,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1594, col: 9, offset: 51498},
+																							pos: position{line: 1594, col: 9, offset: 51627},
 																							run: (*parser).callonExtraListElement547,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1613, col: 11, offset: 52215},
+																				pos: position{line: 1613, col: 11, offset: 52344},
 																				run: (*parser).callonExtraListElement548,
 																				expr: &seqExpr{
-																					pos: position{line: 1613, col: 11, offset: 52215},
+																					pos: position{line: 1613, col: 11, offset: 52344},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1613, col: 11, offset: 52215},
+																							pos: position{line: 1613, col: 11, offset: 52344},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1613, col: 12, offset: 52216},
+																								pos:        position{line: 1613, col: 12, offset: 52345},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -28296,7 +28296,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1613, col: 20, offset: 52224},
+																							pos:        position{line: 1613, col: 20, offset: 52353},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28305,20 +28305,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1615, col: 13, offset: 52341},
+																				pos: position{line: 1615, col: 13, offset: 52470},
 																				run: (*parser).callonExtraListElement553,
 																				expr: &seqExpr{
-																					pos: position{line: 1615, col: 13, offset: 52341},
+																					pos: position{line: 1615, col: 13, offset: 52470},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1615, col: 14, offset: 52342},
+																							pos:        position{line: 1615, col: 14, offset: 52471},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1615, col: 21, offset: 52349},
+																							pos:        position{line: 1615, col: 21, offset: 52478},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28327,20 +28327,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1617, col: 13, offset: 52469},
+																				pos: position{line: 1617, col: 13, offset: 52598},
 																				run: (*parser).callonExtraListElement557,
 																				expr: &seqExpr{
-																					pos: position{line: 1617, col: 13, offset: 52469},
+																					pos: position{line: 1617, col: 13, offset: 52598},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1617, col: 14, offset: 52470},
+																							pos:        position{line: 1617, col: 14, offset: 52599},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1617, col: 21, offset: 52477},
+																							pos:        position{line: 1617, col: 21, offset: 52606},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28349,15 +28349,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1619, col: 13, offset: 52597},
+																				pos: position{line: 1619, col: 13, offset: 52726},
 																				run: (*parser).callonExtraListElement561,
 																				expr: &seqExpr{
-																					pos: position{line: 1619, col: 13, offset: 52597},
+																					pos: position{line: 1619, col: 13, offset: 52726},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1619, col: 13, offset: 52597},
+																							pos: position{line: 1619, col: 13, offset: 52726},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1619, col: 14, offset: 52598},
+																								pos:        position{line: 1619, col: 14, offset: 52727},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -28365,7 +28365,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1619, col: 26, offset: 52610},
+																							pos:        position{line: 1619, col: 26, offset: 52739},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -28374,15 +28374,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1621, col: 13, offset: 52730},
+																				pos: position{line: 1621, col: 13, offset: 52859},
 																				run: (*parser).callonExtraListElement566,
 																				expr: &seqExpr{
-																					pos: position{line: 1621, col: 13, offset: 52730},
+																					pos: position{line: 1621, col: 13, offset: 52859},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1621, col: 13, offset: 52730},
+																							pos: position{line: 1621, col: 13, offset: 52859},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1621, col: 14, offset: 52731},
+																								pos:        position{line: 1621, col: 14, offset: 52860},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -28390,7 +28390,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1621, col: 26, offset: 52743},
+																							pos:        position{line: 1621, col: 26, offset: 52872},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -28402,12 +28402,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2881, col: 11, offset: 91093},
+																	pos: position{line: 2881, col: 11, offset: 91222},
 																	run: (*parser).callonExtraListElement571,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2881, col: 11, offset: 91093},
+																		pos: position{line: 2881, col: 11, offset: 91222},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2881, col: 11, offset: 91093},
+																			pos:        position{line: 2881, col: 11, offset: 91222},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28420,20 +28420,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1519, col: 5, offset: 49333},
+													pos: position{line: 1519, col: 5, offset: 49462},
 													expr: &actionExpr{
-														pos: position{line: 1638, col: 5, offset: 53282},
+														pos: position{line: 1638, col: 5, offset: 53411},
 														run: (*parser).callonExtraListElement575,
 														expr: &seqExpr{
-															pos: position{line: 1638, col: 5, offset: 53282},
+															pos: position{line: 1638, col: 5, offset: 53411},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1638, col: 5, offset: 53282},
+																	pos: position{line: 1638, col: 5, offset: 53411},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91032},
+																		pos: position{line: 2877, col: 10, offset: 91161},
 																		run: (*parser).callonExtraListElement578,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91032},
+																			pos:        position{line: 2877, col: 10, offset: 91161},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28442,24 +28442,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1639, col: 5, offset: 53294},
+																	pos:   position{line: 1639, col: 5, offset: 53423},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1640, col: 9, offset: 53310},
+																		pos: position{line: 1640, col: 9, offset: 53439},
 																		run: (*parser).callonExtraListElement581,
 																		expr: &choiceExpr{
-																			pos: position{line: 1640, col: 10, offset: 53311},
+																			pos: position{line: 1640, col: 10, offset: 53440},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1640, col: 11, offset: 53312},
+																					pos:        position{line: 1640, col: 11, offset: 53441},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1640, col: 18, offset: 53319},
+																					pos: position{line: 1640, col: 18, offset: 53448},
 																					expr: &litMatcher{
-																						pos:        position{line: 1640, col: 19, offset: 53320},
+																						pos:        position{line: 1640, col: 19, offset: 53449},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -28470,16 +28470,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1643, col: 7, offset: 53410},
+																	pos: position{line: 1643, col: 7, offset: 53539},
 																	run: (*parser).callonExtraListElement586,
 																},
 																&actionExpr{
-																	pos: position{line: 2881, col: 11, offset: 91093},
+																	pos: position{line: 2881, col: 11, offset: 91222},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2881, col: 11, offset: 91093},
+																		pos: position{line: 2881, col: 11, offset: 91222},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2881, col: 11, offset: 91093},
+																			pos:        position{line: 2881, col: 11, offset: 91222},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28492,29 +28492,29 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1520, col: 5, offset: 49365},
+													pos: position{line: 1520, col: 5, offset: 49494},
 													expr: &actionExpr{
-														pos: position{line: 1728, col: 5, offset: 55851},
+														pos: position{line: 1728, col: 5, offset: 55980},
 														run: (*parser).callonExtraListElement591,
 														expr: &seqExpr{
-															pos: position{line: 1728, col: 5, offset: 55851},
+															pos: position{line: 1728, col: 5, offset: 55980},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1728, col: 5, offset: 55851},
+																	pos:        position{line: 1728, col: 5, offset: 55980},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1728, col: 9, offset: 55855},
+																	pos:   position{line: 1728, col: 9, offset: 55984},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1728, col: 14, offset: 55860},
+																		pos: position{line: 1728, col: 14, offset: 55989},
 																		run: (*parser).callonExtraListElement595,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1728, col: 14, offset: 55860},
+																			pos: position{line: 1728, col: 14, offset: 55989},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1728, col: 14, offset: 55860},
+																				pos:        position{line: 1728, col: 14, offset: 55989},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -28524,18 +28524,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1728, col: 62, offset: 55908},
+																	pos:        position{line: 1728, col: 62, offset: 56037},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2881, col: 11, offset: 91093},
+																	pos: position{line: 2881, col: 11, offset: 91222},
 																	run: (*parser).callonExtraListElement599,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2881, col: 11, offset: 91093},
+																		pos: position{line: 2881, col: 11, offset: 91222},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2881, col: 11, offset: 91093},
+																			pos:        position{line: 2881, col: 11, offset: 91222},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28548,31 +28548,31 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1521, col: 5, offset: 49395},
+													pos: position{line: 1521, col: 5, offset: 49524},
 													expr: &seqExpr{
-														pos: position{line: 1521, col: 7, offset: 49397},
+														pos: position{line: 1521, col: 7, offset: 49526},
 														exprs: []interface{}{
 															&actionExpr{
-																pos: position{line: 1673, col: 5, offset: 54301},
+																pos: position{line: 1673, col: 5, offset: 54430},
 																run: (*parser).callonExtraListElement604,
 																expr: &seqExpr{
-																	pos: position{line: 1673, col: 5, offset: 54301},
+																	pos: position{line: 1673, col: 5, offset: 54430},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1673, col: 5, offset: 54301},
+																			pos: position{line: 1673, col: 5, offset: 54430},
 																			expr: &seqExpr{
-																				pos: position{line: 2489, col: 31, offset: 80139},
+																				pos: position{line: 2489, col: 31, offset: 80268},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2489, col: 31, offset: 80139},
+																						pos:        position{line: 2489, col: 31, offset: 80268},
 																						val:        "//",
 																						ignoreCase: false,
 																						want:       "\"//\"",
 																					},
 																					&notExpr{
-																						pos: position{line: 2489, col: 36, offset: 80144},
+																						pos: position{line: 2489, col: 36, offset: 80273},
 																						expr: &litMatcher{
-																							pos:        position{line: 2489, col: 37, offset: 80145},
+																							pos:        position{line: 2489, col: 37, offset: 80274},
 																							val:        "//",
 																							ignoreCase: false,
 																							want:       "\"//\"",
@@ -28582,28 +28582,28 @@ var g = &grammar{
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 1674, col: 5, offset: 54333},
+																			pos: position{line: 1674, col: 5, offset: 54462},
 																			expr: &seqExpr{
-																				pos: position{line: 1674, col: 6, offset: 54334},
+																				pos: position{line: 1674, col: 6, offset: 54463},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1674, col: 6, offset: 54334},
+																						pos: position{line: 1674, col: 6, offset: 54463},
 																						expr: &actionExpr{
-																							pos: position{line: 1679, col: 5, offset: 54484},
+																							pos: position{line: 1679, col: 5, offset: 54613},
 																							run: (*parser).callonExtraListElement614,
 																							expr: &seqExpr{
-																								pos: position{line: 1679, col: 5, offset: 54484},
+																								pos: position{line: 1679, col: 5, offset: 54613},
 																								exprs: []interface{}{
 																									&labeledExpr{
-																										pos:   position{line: 1679, col: 5, offset: 54484},
+																										pos:   position{line: 1679, col: 5, offset: 54613},
 																										label: "separator",
 																										expr: &actionExpr{
-																											pos: position{line: 1679, col: 16, offset: 54495},
+																											pos: position{line: 1679, col: 16, offset: 54624},
 																											run: (*parser).callonExtraListElement617,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1679, col: 16, offset: 54495},
+																												pos: position{line: 1679, col: 16, offset: 54624},
 																												expr: &litMatcher{
-																													pos:        position{line: 1679, col: 17, offset: 54496},
+																													pos:        position{line: 1679, col: 17, offset: 54625},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
@@ -28612,7 +28612,7 @@ var g = &grammar{
 																										},
 																									},
 																									&andCodeExpr{
-																										pos: position{line: 1682, col: 5, offset: 54553},
+																										pos: position{line: 1682, col: 5, offset: 54682},
 																										run: (*parser).callonExtraListElement620,
 																									},
 																								},
@@ -28620,30 +28620,30 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1674, col: 35, offset: 54363},
+																						pos: position{line: 1674, col: 35, offset: 54492},
 																						expr: &choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91430},
+																							pos: position{line: 2899, col: 8, offset: 91559},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91203},
+																									pos: position{line: 2886, col: 12, offset: 91332},
 																									run: (*parser).callonExtraListElement623,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91204},
+																										pos: position{line: 2886, col: 13, offset: 91333},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91204},
+																												pos:        position{line: 2886, col: 13, offset: 91333},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91211},
+																												pos:        position{line: 2886, col: 20, offset: 91340},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91220},
+																												pos:        position{line: 2886, col: 29, offset: 91349},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28652,16 +28652,16 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91380},
+																									pos: position{line: 2896, col: 8, offset: 91509},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91381,
+																										line: 2896, col: 9, offset: 91510,
 																									},
 																								},
 																							},
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1674, col: 40, offset: 54368,
+																						line: 1674, col: 40, offset: 54497,
 																					},
 																				},
 																			},
@@ -28670,21 +28670,21 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1679, col: 5, offset: 54484},
+																pos: position{line: 1679, col: 5, offset: 54613},
 																run: (*parser).callonExtraListElement631,
 																expr: &seqExpr{
-																	pos: position{line: 1679, col: 5, offset: 54484},
+																	pos: position{line: 1679, col: 5, offset: 54613},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1679, col: 5, offset: 54484},
+																			pos:   position{line: 1679, col: 5, offset: 54613},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1679, col: 16, offset: 54495},
+																				pos: position{line: 1679, col: 16, offset: 54624},
 																				run: (*parser).callonExtraListElement634,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1679, col: 16, offset: 54495},
+																					pos: position{line: 1679, col: 16, offset: 54624},
 																					expr: &litMatcher{
-																						pos:        position{line: 1679, col: 17, offset: 54496},
+																						pos:        position{line: 1679, col: 17, offset: 54625},
 																						val:        ":",
 																						ignoreCase: false,
 																						want:       "\":\"",
@@ -28693,7 +28693,7 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1682, col: 5, offset: 54553},
+																			pos: position{line: 1682, col: 5, offset: 54682},
 																			run: (*parser).callonExtraListElement637,
 																		},
 																	},
@@ -28703,7 +28703,7 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1522, col: 5, offset: 49453},
+													pos: position{line: 1522, col: 5, offset: 49582},
 													expr: &actionExpr{
 														pos: position{line: 724, col: 5, offset: 23078},
 														run: (*parser).callonExtraListElement639,
@@ -28713,7 +28713,7 @@ var g = &grammar{
 																&notExpr{
 																	pos: position{line: 724, col: 5, offset: 23078},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2767, col: 13, offset: 88106},
+																		pos:        position{line: 2767, col: 13, offset: 88235},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -28763,10 +28763,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 742, col: 8, offset: 23722},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91032},
+																								pos: position{line: 2877, col: 10, offset: 91161},
 																								run: (*parser).callonExtraListElement654,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91032},
+																									pos:        position{line: 2877, col: 10, offset: 91161},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28775,28 +28775,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91430},
+																							pos: position{line: 2899, col: 8, offset: 91559},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91203},
+																									pos: position{line: 2886, col: 12, offset: 91332},
 																									run: (*parser).callonExtraListElement657,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91204},
+																										pos: position{line: 2886, col: 13, offset: 91333},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91204},
+																												pos:        position{line: 2886, col: 13, offset: 91333},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91211},
+																												pos:        position{line: 2886, col: 20, offset: 91340},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91220},
+																												pos:        position{line: 2886, col: 29, offset: 91349},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28805,9 +28805,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91380},
+																									pos: position{line: 2896, col: 8, offset: 91509},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91381,
+																										line: 2896, col: 9, offset: 91510,
 																									},
 																								},
 																							},
@@ -28852,10 +28852,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 749, col: 8, offset: 23970},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91032},
+																								pos: position{line: 2877, col: 10, offset: 91161},
 																								run: (*parser).callonExtraListElement673,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91032},
+																									pos:        position{line: 2877, col: 10, offset: 91161},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28864,28 +28864,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91430},
+																							pos: position{line: 2899, col: 8, offset: 91559},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91203},
+																									pos: position{line: 2886, col: 12, offset: 91332},
 																									run: (*parser).callonExtraListElement676,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91204},
+																										pos: position{line: 2886, col: 13, offset: 91333},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91204},
+																												pos:        position{line: 2886, col: 13, offset: 91333},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91211},
+																												pos:        position{line: 2886, col: 20, offset: 91340},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91220},
+																												pos:        position{line: 2886, col: 29, offset: 91349},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28894,9 +28894,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91380},
+																									pos: position{line: 2896, col: 8, offset: 91509},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91381,
+																										line: 2896, col: 9, offset: 91510,
 																									},
 																								},
 																							},
@@ -28937,10 +28937,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 760, col: 52, offset: 24382},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91032},
+																								pos: position{line: 2877, col: 10, offset: 91161},
 																								run: (*parser).callonExtraListElement691,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91032},
+																									pos:        position{line: 2877, col: 10, offset: 91161},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28949,28 +28949,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91430},
+																							pos: position{line: 2899, col: 8, offset: 91559},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91203},
+																									pos: position{line: 2886, col: 12, offset: 91332},
 																									run: (*parser).callonExtraListElement694,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91204},
+																										pos: position{line: 2886, col: 13, offset: 91333},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91204},
+																												pos:        position{line: 2886, col: 13, offset: 91333},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91211},
+																												pos:        position{line: 2886, col: 20, offset: 91340},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91220},
+																												pos:        position{line: 2886, col: 29, offset: 91349},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28979,9 +28979,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91380},
+																									pos: position{line: 2896, col: 8, offset: 91509},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91381,
+																										line: 2896, col: 9, offset: 91510,
 																									},
 																								},
 																							},
@@ -29026,10 +29026,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 756, col: 8, offset: 24216},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91032},
+																								pos: position{line: 2877, col: 10, offset: 91161},
 																								run: (*parser).callonExtraListElement710,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91032},
+																									pos:        position{line: 2877, col: 10, offset: 91161},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29038,28 +29038,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91430},
+																							pos: position{line: 2899, col: 8, offset: 91559},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91203},
+																									pos: position{line: 2886, col: 12, offset: 91332},
 																									run: (*parser).callonExtraListElement713,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91204},
+																										pos: position{line: 2886, col: 13, offset: 91333},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91204},
+																												pos:        position{line: 2886, col: 13, offset: 91333},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91211},
+																												pos:        position{line: 2886, col: 20, offset: 91340},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91220},
+																												pos:        position{line: 2886, col: 29, offset: 91349},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29068,9 +29068,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91380},
+																									pos: position{line: 2896, col: 8, offset: 91509},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91381,
+																										line: 2896, col: 9, offset: 91510,
 																									},
 																								},
 																							},
@@ -29115,10 +29115,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 771, col: 8, offset: 24759},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91032},
+																								pos: position{line: 2877, col: 10, offset: 91161},
 																								run: (*parser).callonExtraListElement729,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91032},
+																									pos:        position{line: 2877, col: 10, offset: 91161},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29127,28 +29127,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91430},
+																							pos: position{line: 2899, col: 8, offset: 91559},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91203},
+																									pos: position{line: 2886, col: 12, offset: 91332},
 																									run: (*parser).callonExtraListElement732,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91204},
+																										pos: position{line: 2886, col: 13, offset: 91333},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91204},
+																												pos:        position{line: 2886, col: 13, offset: 91333},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91211},
+																												pos:        position{line: 2886, col: 20, offset: 91340},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91220},
+																												pos:        position{line: 2886, col: 29, offset: 91349},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29157,9 +29157,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91380},
+																									pos: position{line: 2896, col: 8, offset: 91509},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91381,
+																										line: 2896, col: 9, offset: 91510,
 																									},
 																								},
 																							},
@@ -29204,10 +29204,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 785, col: 8, offset: 25235},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91032},
+																								pos: position{line: 2877, col: 10, offset: 91161},
 																								run: (*parser).callonExtraListElement748,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91032},
+																									pos:        position{line: 2877, col: 10, offset: 91161},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29216,28 +29216,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91430},
+																							pos: position{line: 2899, col: 8, offset: 91559},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91203},
+																									pos: position{line: 2886, col: 12, offset: 91332},
 																									run: (*parser).callonExtraListElement751,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91204},
+																										pos: position{line: 2886, col: 13, offset: 91333},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91204},
+																												pos:        position{line: 2886, col: 13, offset: 91333},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91211},
+																												pos:        position{line: 2886, col: 20, offset: 91340},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91220},
+																												pos:        position{line: 2886, col: 29, offset: 91349},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29246,9 +29246,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91380},
+																									pos: position{line: 2896, col: 8, offset: 91509},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91381,
+																										line: 2896, col: 9, offset: 91510,
 																									},
 																								},
 																							},
@@ -29293,10 +29293,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 792, col: 8, offset: 25487},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91032},
+																								pos: position{line: 2877, col: 10, offset: 91161},
 																								run: (*parser).callonExtraListElement767,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91032},
+																									pos:        position{line: 2877, col: 10, offset: 91161},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29305,28 +29305,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91430},
+																							pos: position{line: 2899, col: 8, offset: 91559},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91203},
+																									pos: position{line: 2886, col: 12, offset: 91332},
 																									run: (*parser).callonExtraListElement770,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91204},
+																										pos: position{line: 2886, col: 13, offset: 91333},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91204},
+																												pos:        position{line: 2886, col: 13, offset: 91333},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91211},
+																												pos:        position{line: 2886, col: 20, offset: 91340},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91220},
+																												pos:        position{line: 2886, col: 29, offset: 91349},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29335,9 +29335,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91380},
+																									pos: position{line: 2896, col: 8, offset: 91509},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91381,
+																										line: 2896, col: 9, offset: 91510,
 																									},
 																								},
 																							},
@@ -29382,10 +29382,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 799, col: 8, offset: 25737},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91032},
+																								pos: position{line: 2877, col: 10, offset: 91161},
 																								run: (*parser).callonExtraListElement786,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91032},
+																									pos:        position{line: 2877, col: 10, offset: 91161},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29394,28 +29394,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91430},
+																							pos: position{line: 2899, col: 8, offset: 91559},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91203},
+																									pos: position{line: 2886, col: 12, offset: 91332},
 																									run: (*parser).callonExtraListElement789,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91204},
+																										pos: position{line: 2886, col: 13, offset: 91333},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91204},
+																												pos:        position{line: 2886, col: 13, offset: 91333},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91211},
+																												pos:        position{line: 2886, col: 20, offset: 91340},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91220},
+																												pos:        position{line: 2886, col: 29, offset: 91349},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29424,9 +29424,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91380},
+																									pos: position{line: 2896, col: 8, offset: 91509},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91381,
+																										line: 2896, col: 9, offset: 91510,
 																									},
 																								},
 																							},
@@ -29471,10 +29471,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 806, col: 8, offset: 25983},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91032},
+																								pos: position{line: 2877, col: 10, offset: 91161},
 																								run: (*parser).callonExtraListElement805,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91032},
+																									pos:        position{line: 2877, col: 10, offset: 91161},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29483,28 +29483,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91430},
+																							pos: position{line: 2899, col: 8, offset: 91559},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91203},
+																									pos: position{line: 2886, col: 12, offset: 91332},
 																									run: (*parser).callonExtraListElement808,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91204},
+																										pos: position{line: 2886, col: 13, offset: 91333},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91204},
+																												pos:        position{line: 2886, col: 13, offset: 91333},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91211},
+																												pos:        position{line: 2886, col: 20, offset: 91340},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91220},
+																												pos:        position{line: 2886, col: 29, offset: 91349},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29513,9 +29513,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91380},
+																									pos: position{line: 2896, col: 8, offset: 91509},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91381,
+																										line: 2896, col: 9, offset: 91510,
 																									},
 																								},
 																							},
@@ -29531,15 +29531,15 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1523, col: 5, offset: 49473},
+													pos:   position{line: 1523, col: 5, offset: 49602},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2827, col: 14, offset: 89625},
+														pos: position{line: 2827, col: 14, offset: 89754},
 														run: (*parser).callonExtraListElement816,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2827, col: 14, offset: 89625},
+															pos: position{line: 2827, col: 14, offset: 89754},
 															expr: &charClassMatcher{
-																pos:        position{line: 2827, col: 14, offset: 89625},
+																pos:        position{line: 2827, col: 14, offset: 89754},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -29549,28 +29549,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2899, col: 8, offset: 91430},
+													pos: position{line: 2899, col: 8, offset: 91559},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2886, col: 12, offset: 91203},
+															pos: position{line: 2886, col: 12, offset: 91332},
 															run: (*parser).callonExtraListElement820,
 															expr: &choiceExpr{
-																pos: position{line: 2886, col: 13, offset: 91204},
+																pos: position{line: 2886, col: 13, offset: 91333},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 13, offset: 91204},
+																		pos:        position{line: 2886, col: 13, offset: 91333},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 20, offset: 91211},
+																		pos:        position{line: 2886, col: 20, offset: 91340},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 29, offset: 91220},
+																		pos:        position{line: 2886, col: 29, offset: 91349},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -29579,9 +29579,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2896, col: 8, offset: 91380},
+															pos: position{line: 2896, col: 8, offset: 91509},
 															expr: &anyMatcher{
-																line: 2896, col: 9, offset: 91381,
+																line: 2896, col: 9, offset: 91510,
 															},
 														},
 													},
@@ -29598,28 +29598,28 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuation",
-			pos:  position{line: 1539, col: 1, offset: 49864},
+			pos:  position{line: 1539, col: 1, offset: 49993},
 			expr: &actionExpr{
-				pos: position{line: 1540, col: 5, offset: 49889},
+				pos: position{line: 1540, col: 5, offset: 50018},
 				run: (*parser).callonListContinuation1,
 				expr: &seqExpr{
-					pos: position{line: 1540, col: 5, offset: 49889},
+					pos: position{line: 1540, col: 5, offset: 50018},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1540, col: 5, offset: 49889},
+							pos:   position{line: 1540, col: 5, offset: 50018},
 							label: "offset",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1540, col: 12, offset: 49896},
+								pos: position{line: 1540, col: 12, offset: 50025},
 								expr: &seqExpr{
-									pos: position{line: 1540, col: 13, offset: 49897},
+									pos: position{line: 1540, col: 13, offset: 50026},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 1540, col: 13, offset: 49897},
+											pos: position{line: 1540, col: 13, offset: 50026},
 											expr: &actionExpr{
-												pos: position{line: 2877, col: 10, offset: 91032},
+												pos: position{line: 2877, col: 10, offset: 91161},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2877, col: 10, offset: 91032},
+													pos:        position{line: 2877, col: 10, offset: 91161},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -29628,25 +29628,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2886, col: 12, offset: 91203},
+											pos: position{line: 2886, col: 12, offset: 91332},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2886, col: 13, offset: 91204},
+												pos: position{line: 2886, col: 13, offset: 91333},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2886, col: 13, offset: 91204},
+														pos:        position{line: 2886, col: 13, offset: 91333},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2886, col: 20, offset: 91211},
+														pos:        position{line: 2886, col: 20, offset: 91340},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2886, col: 29, offset: 91220},
+														pos:        position{line: 2886, col: 29, offset: 91349},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -29659,18 +29659,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1547, col: 27, offset: 50101},
+							pos:        position{line: 1547, col: 27, offset: 50230},
 							val:        "+",
 							ignoreCase: false,
 							want:       "\"+\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1547, col: 31, offset: 50105},
+							pos: position{line: 1547, col: 31, offset: 50234},
 							expr: &actionExpr{
-								pos: position{line: 2877, col: 10, offset: 91032},
+								pos: position{line: 2877, col: 10, offset: 91161},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2877, col: 10, offset: 91032},
+									pos:        position{line: 2877, col: 10, offset: 91161},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -29679,25 +29679,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2886, col: 12, offset: 91203},
+							pos: position{line: 2886, col: 12, offset: 91332},
 							run: (*parser).callonListContinuation18,
 							expr: &choiceExpr{
-								pos: position{line: 2886, col: 13, offset: 91204},
+								pos: position{line: 2886, col: 13, offset: 91333},
 								alternatives: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2886, col: 13, offset: 91204},
+										pos:        position{line: 2886, col: 13, offset: 91333},
 										val:        "\n",
 										ignoreCase: false,
 										want:       "\"\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2886, col: 20, offset: 91211},
+										pos:        position{line: 2886, col: 20, offset: 91340},
 										val:        "\r\n",
 										ignoreCase: false,
 										want:       "\"\\r\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2886, col: 29, offset: 91220},
+										pos:        position{line: 2886, col: 29, offset: 91349},
 										val:        "\r",
 										ignoreCase: false,
 										want:       "\"\\r\"",
@@ -29706,12 +29706,12 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1542, col: 5, offset: 49946},
+							pos:   position{line: 1542, col: 5, offset: 50075},
 							label: "element",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1542, col: 13, offset: 49954},
+								pos: position{line: 1542, col: 13, offset: 50083},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1542, col: 13, offset: 49954},
+									pos:  position{line: 1542, col: 13, offset: 50083},
 									name: "ListContinuationElement",
 								},
 							},
@@ -29722,46 +29722,46 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuationElement",
-			pos:  position{line: 1549, col: 1, offset: 50121},
+			pos:  position{line: 1549, col: 1, offset: 50250},
 			expr: &actionExpr{
-				pos: position{line: 1550, col: 5, offset: 50192},
+				pos: position{line: 1550, col: 5, offset: 50321},
 				run: (*parser).callonListContinuationElement1,
 				expr: &seqExpr{
-					pos: position{line: 1550, col: 5, offset: 50192},
+					pos: position{line: 1550, col: 5, offset: 50321},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2894, col: 11, offset: 91366},
+							pos: position{line: 2894, col: 11, offset: 91495},
 							expr: &anyMatcher{
-								line: 2894, col: 13, offset: 91368,
+								line: 2894, col: 13, offset: 91497,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1551, col: 5, offset: 50220},
+							pos: position{line: 1551, col: 5, offset: 50349},
 							expr: &choiceExpr{
-								pos: position{line: 1488, col: 5, offset: 48178},
+								pos: position{line: 1488, col: 5, offset: 48307},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1581, col: 5, offset: 51112},
+										pos: position{line: 1581, col: 5, offset: 51241},
 										run: (*parser).callonListContinuationElement7,
 										expr: &seqExpr{
-											pos: position{line: 1581, col: 5, offset: 51112},
+											pos: position{line: 1581, col: 5, offset: 51241},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1581, col: 5, offset: 51112},
+													pos:   position{line: 1581, col: 5, offset: 51241},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1588, col: 5, offset: 51320},
+														pos: position{line: 1588, col: 5, offset: 51449},
 														run: (*parser).callonListContinuationElement10,
 														expr: &seqExpr{
-															pos: position{line: 1588, col: 5, offset: 51320},
+															pos: position{line: 1588, col: 5, offset: 51449},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1588, col: 5, offset: 51320},
+																	pos: position{line: 1588, col: 5, offset: 51449},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91032},
+																		pos: position{line: 2877, col: 10, offset: 91161},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91032},
+																			pos:        position{line: 2877, col: 10, offset: 91161},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29770,27 +29770,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1588, col: 12, offset: 51327},
+																	pos:   position{line: 1588, col: 12, offset: 51456},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1590, col: 9, offset: 51390},
+																		pos: position{line: 1590, col: 9, offset: 51519},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1590, col: 9, offset: 51390},
+																				pos: position{line: 1590, col: 9, offset: 51519},
 																				run: (*parser).callonListContinuationElement17,
 																				expr: &seqExpr{
-																					pos: position{line: 1590, col: 9, offset: 51390},
+																					pos: position{line: 1590, col: 9, offset: 51519},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1590, col: 9, offset: 51390},
+																							pos:   position{line: 1590, col: 9, offset: 51519},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1590, col: 16, offset: 51397},
+																								pos: position{line: 1590, col: 16, offset: 51526},
 																								run: (*parser).callonListContinuationElement20,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1590, col: 16, offset: 51397},
+																									pos: position{line: 1590, col: 16, offset: 51526},
 																									expr: &litMatcher{
-																										pos:        position{line: 1590, col: 17, offset: 51398},
+																										pos:        position{line: 1590, col: 17, offset: 51527},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -29799,22 +29799,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1594, col: 9, offset: 51498},
+																							pos: position{line: 1594, col: 9, offset: 51627},
 																							run: (*parser).callonListContinuationElement23,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1613, col: 11, offset: 52215},
+																				pos: position{line: 1613, col: 11, offset: 52344},
 																				run: (*parser).callonListContinuationElement24,
 																				expr: &seqExpr{
-																					pos: position{line: 1613, col: 11, offset: 52215},
+																					pos: position{line: 1613, col: 11, offset: 52344},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1613, col: 11, offset: 52215},
+																							pos: position{line: 1613, col: 11, offset: 52344},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1613, col: 12, offset: 52216},
+																								pos:        position{line: 1613, col: 12, offset: 52345},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -29822,7 +29822,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1613, col: 20, offset: 52224},
+																							pos:        position{line: 1613, col: 20, offset: 52353},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29831,20 +29831,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1615, col: 13, offset: 52341},
+																				pos: position{line: 1615, col: 13, offset: 52470},
 																				run: (*parser).callonListContinuationElement29,
 																				expr: &seqExpr{
-																					pos: position{line: 1615, col: 13, offset: 52341},
+																					pos: position{line: 1615, col: 13, offset: 52470},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1615, col: 14, offset: 52342},
+																							pos:        position{line: 1615, col: 14, offset: 52471},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1615, col: 21, offset: 52349},
+																							pos:        position{line: 1615, col: 21, offset: 52478},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29853,20 +29853,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1617, col: 13, offset: 52469},
+																				pos: position{line: 1617, col: 13, offset: 52598},
 																				run: (*parser).callonListContinuationElement33,
 																				expr: &seqExpr{
-																					pos: position{line: 1617, col: 13, offset: 52469},
+																					pos: position{line: 1617, col: 13, offset: 52598},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1617, col: 14, offset: 52470},
+																							pos:        position{line: 1617, col: 14, offset: 52599},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1617, col: 21, offset: 52477},
+																							pos:        position{line: 1617, col: 21, offset: 52606},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29875,15 +29875,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1619, col: 13, offset: 52597},
+																				pos: position{line: 1619, col: 13, offset: 52726},
 																				run: (*parser).callonListContinuationElement37,
 																				expr: &seqExpr{
-																					pos: position{line: 1619, col: 13, offset: 52597},
+																					pos: position{line: 1619, col: 13, offset: 52726},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1619, col: 13, offset: 52597},
+																							pos: position{line: 1619, col: 13, offset: 52726},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1619, col: 14, offset: 52598},
+																								pos:        position{line: 1619, col: 14, offset: 52727},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -29891,7 +29891,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1619, col: 26, offset: 52610},
+																							pos:        position{line: 1619, col: 26, offset: 52739},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -29900,15 +29900,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1621, col: 13, offset: 52730},
+																				pos: position{line: 1621, col: 13, offset: 52859},
 																				run: (*parser).callonListContinuationElement42,
 																				expr: &seqExpr{
-																					pos: position{line: 1621, col: 13, offset: 52730},
+																					pos: position{line: 1621, col: 13, offset: 52859},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1621, col: 13, offset: 52730},
+																							pos: position{line: 1621, col: 13, offset: 52859},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1621, col: 14, offset: 52731},
+																								pos:        position{line: 1621, col: 14, offset: 52860},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -29916,7 +29916,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1621, col: 26, offset: 52743},
+																							pos:        position{line: 1621, col: 26, offset: 52872},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -29928,12 +29928,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2881, col: 11, offset: 91093},
+																	pos: position{line: 2881, col: 11, offset: 91222},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2881, col: 11, offset: 91093},
+																		pos: position{line: 2881, col: 11, offset: 91222},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2881, col: 11, offset: 91093},
+																			pos:        position{line: 2881, col: 11, offset: 91222},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29946,26 +29946,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1582, col: 5, offset: 51151},
+													pos:   position{line: 1582, col: 5, offset: 51280},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1529, col: 5, offset: 49618},
+														pos: position{line: 1529, col: 5, offset: 49747},
 														run: (*parser).callonListContinuationElement51,
 														expr: &seqExpr{
-															pos: position{line: 1529, col: 5, offset: 49618},
+															pos: position{line: 1529, col: 5, offset: 49747},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1529, col: 5, offset: 49618},
+																	pos:   position{line: 1529, col: 5, offset: 49747},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1529, col: 14, offset: 49627},
+																		pos: position{line: 1529, col: 14, offset: 49756},
 																		expr: &actionExpr{
-																			pos: position{line: 1529, col: 15, offset: 49628},
+																			pos: position{line: 1529, col: 15, offset: 49757},
 																			run: (*parser).callonListContinuationElement55,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1529, col: 15, offset: 49628},
+																				pos: position{line: 1529, col: 15, offset: 49757},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1529, col: 15, offset: 49628},
+																					pos:        position{line: 1529, col: 15, offset: 49757},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -29976,28 +29976,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91430},
+																	pos: position{line: 2899, col: 8, offset: 91559},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91203},
+																			pos: position{line: 2886, col: 12, offset: 91332},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91204},
+																				pos: position{line: 2886, col: 13, offset: 91333},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91204},
+																						pos:        position{line: 2886, col: 13, offset: 91333},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91211},
+																						pos:        position{line: 2886, col: 20, offset: 91340},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91220},
+																						pos:        position{line: 2886, col: 29, offset: 91349},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30006,9 +30006,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91380},
+																			pos: position{line: 2896, col: 8, offset: 91509},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91381,
+																				line: 2896, col: 9, offset: 91510,
 																			},
 																		},
 																	},
@@ -30021,27 +30021,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1631, col: 5, offset: 53009},
+										pos: position{line: 1631, col: 5, offset: 53138},
 										run: (*parser).callonListContinuationElement66,
 										expr: &seqExpr{
-											pos: position{line: 1631, col: 5, offset: 53009},
+											pos: position{line: 1631, col: 5, offset: 53138},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1631, col: 5, offset: 53009},
+													pos:   position{line: 1631, col: 5, offset: 53138},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1638, col: 5, offset: 53282},
+														pos: position{line: 1638, col: 5, offset: 53411},
 														run: (*parser).callonListContinuationElement69,
 														expr: &seqExpr{
-															pos: position{line: 1638, col: 5, offset: 53282},
+															pos: position{line: 1638, col: 5, offset: 53411},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1638, col: 5, offset: 53282},
+																	pos: position{line: 1638, col: 5, offset: 53411},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91032},
+																		pos: position{line: 2877, col: 10, offset: 91161},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91032},
+																			pos:        position{line: 2877, col: 10, offset: 91161},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30050,24 +30050,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1639, col: 5, offset: 53294},
+																	pos:   position{line: 1639, col: 5, offset: 53423},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1640, col: 9, offset: 53310},
+																		pos: position{line: 1640, col: 9, offset: 53439},
 																		run: (*parser).callonListContinuationElement75,
 																		expr: &choiceExpr{
-																			pos: position{line: 1640, col: 10, offset: 53311},
+																			pos: position{line: 1640, col: 10, offset: 53440},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1640, col: 11, offset: 53312},
+																					pos:        position{line: 1640, col: 11, offset: 53441},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1640, col: 18, offset: 53319},
+																					pos: position{line: 1640, col: 18, offset: 53448},
 																					expr: &litMatcher{
-																						pos:        position{line: 1640, col: 19, offset: 53320},
+																						pos:        position{line: 1640, col: 19, offset: 53449},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -30078,16 +30078,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1643, col: 7, offset: 53410},
+																	pos: position{line: 1643, col: 7, offset: 53539},
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2881, col: 11, offset: 91093},
+																	pos: position{line: 2881, col: 11, offset: 91222},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2881, col: 11, offset: 91093},
+																		pos: position{line: 2881, col: 11, offset: 91222},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2881, col: 11, offset: 91093},
+																			pos:        position{line: 2881, col: 11, offset: 91222},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30100,56 +30100,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1632, col: 5, offset: 53050},
+													pos:   position{line: 1632, col: 5, offset: 53179},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1632, col: 16, offset: 53061},
+														pos: position{line: 1632, col: 16, offset: 53190},
 														expr: &actionExpr{
-															pos: position{line: 1653, col: 5, offset: 53675},
+															pos: position{line: 1653, col: 5, offset: 53804},
 															run: (*parser).callonListContinuationElement86,
 															expr: &seqExpr{
-																pos: position{line: 1653, col: 5, offset: 53675},
+																pos: position{line: 1653, col: 5, offset: 53804},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1653, col: 5, offset: 53675},
+																		pos: position{line: 1653, col: 5, offset: 53804},
 																		expr: &litMatcher{
-																			pos:        position{line: 1653, col: 6, offset: 53676},
+																			pos:        position{line: 1653, col: 6, offset: 53805},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1653, col: 10, offset: 53680},
+																		pos:   position{line: 1653, col: 10, offset: 53809},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1654, col: 7, offset: 53694},
+																			pos: position{line: 1654, col: 7, offset: 53823},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1654, col: 7, offset: 53694},
+																					pos: position{line: 1654, col: 7, offset: 53823},
 																					run: (*parser).callonListContinuationElement92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1654, col: 7, offset: 53694},
+																						pos:        position{line: 1654, col: 7, offset: 53823},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1655, col: 7, offset: 53739},
+																					pos: position{line: 1655, col: 7, offset: 53868},
 																					run: (*parser).callonListContinuationElement94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1655, col: 7, offset: 53739},
+																						pos:        position{line: 1655, col: 7, offset: 53868},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1656, col: 7, offset: 53782},
+																					pos: position{line: 1656, col: 7, offset: 53911},
 																					run: (*parser).callonListContinuationElement96,
 																					expr: &litMatcher{
-																						pos:        position{line: 1656, col: 7, offset: 53782},
+																						pos:        position{line: 1656, col: 7, offset: 53911},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -30159,12 +30159,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2881, col: 11, offset: 91093},
+																		pos: position{line: 2881, col: 11, offset: 91222},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2881, col: 11, offset: 91093},
+																			pos: position{line: 2881, col: 11, offset: 91222},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2881, col: 11, offset: 91093},
+																				pos:        position{line: 2881, col: 11, offset: 91222},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -30178,26 +30178,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1633, col: 5, offset: 53100},
+													pos:   position{line: 1633, col: 5, offset: 53229},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1529, col: 5, offset: 49618},
+														pos: position{line: 1529, col: 5, offset: 49747},
 														run: (*parser).callonListContinuationElement102,
 														expr: &seqExpr{
-															pos: position{line: 1529, col: 5, offset: 49618},
+															pos: position{line: 1529, col: 5, offset: 49747},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1529, col: 5, offset: 49618},
+																	pos:   position{line: 1529, col: 5, offset: 49747},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1529, col: 14, offset: 49627},
+																		pos: position{line: 1529, col: 14, offset: 49756},
 																		expr: &actionExpr{
-																			pos: position{line: 1529, col: 15, offset: 49628},
+																			pos: position{line: 1529, col: 15, offset: 49757},
 																			run: (*parser).callonListContinuationElement106,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1529, col: 15, offset: 49628},
+																				pos: position{line: 1529, col: 15, offset: 49757},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1529, col: 15, offset: 49628},
+																					pos:        position{line: 1529, col: 15, offset: 49757},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30208,28 +30208,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91430},
+																	pos: position{line: 2899, col: 8, offset: 91559},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91203},
+																			pos: position{line: 2886, col: 12, offset: 91332},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91204},
+																				pos: position{line: 2886, col: 13, offset: 91333},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91204},
+																						pos:        position{line: 2886, col: 13, offset: 91333},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91211},
+																						pos:        position{line: 2886, col: 20, offset: 91340},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91220},
+																						pos:        position{line: 2886, col: 29, offset: 91349},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30238,9 +30238,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91380},
+																			pos: position{line: 2896, col: 8, offset: 91509},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91381,
+																				line: 2896, col: 9, offset: 91510,
 																			},
 																		},
 																	},
@@ -30253,36 +30253,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1722, col: 5, offset: 55654},
+										pos: position{line: 1722, col: 5, offset: 55783},
 										run: (*parser).callonListContinuationElement117,
 										expr: &seqExpr{
-											pos: position{line: 1722, col: 5, offset: 55654},
+											pos: position{line: 1722, col: 5, offset: 55783},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1722, col: 5, offset: 55654},
+													pos:   position{line: 1722, col: 5, offset: 55783},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1728, col: 5, offset: 55851},
+														pos: position{line: 1728, col: 5, offset: 55980},
 														run: (*parser).callonListContinuationElement120,
 														expr: &seqExpr{
-															pos: position{line: 1728, col: 5, offset: 55851},
+															pos: position{line: 1728, col: 5, offset: 55980},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1728, col: 5, offset: 55851},
+																	pos:        position{line: 1728, col: 5, offset: 55980},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1728, col: 9, offset: 55855},
+																	pos:   position{line: 1728, col: 9, offset: 55984},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1728, col: 14, offset: 55860},
+																		pos: position{line: 1728, col: 14, offset: 55989},
 																		run: (*parser).callonListContinuationElement124,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1728, col: 14, offset: 55860},
+																			pos: position{line: 1728, col: 14, offset: 55989},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1728, col: 14, offset: 55860},
+																				pos:        position{line: 1728, col: 14, offset: 55989},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -30292,18 +30292,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1728, col: 62, offset: 55908},
+																	pos:        position{line: 1728, col: 62, offset: 56037},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2881, col: 11, offset: 91093},
+																	pos: position{line: 2881, col: 11, offset: 91222},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2881, col: 11, offset: 91093},
+																		pos: position{line: 2881, col: 11, offset: 91222},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2881, col: 11, offset: 91093},
+																			pos:        position{line: 2881, col: 11, offset: 91222},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30316,26 +30316,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1723, col: 5, offset: 55690},
+													pos:   position{line: 1723, col: 5, offset: 55819},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1529, col: 5, offset: 49618},
+														pos: position{line: 1529, col: 5, offset: 49747},
 														run: (*parser).callonListContinuationElement132,
 														expr: &seqExpr{
-															pos: position{line: 1529, col: 5, offset: 49618},
+															pos: position{line: 1529, col: 5, offset: 49747},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1529, col: 5, offset: 49618},
+																	pos:   position{line: 1529, col: 5, offset: 49747},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1529, col: 14, offset: 49627},
+																		pos: position{line: 1529, col: 14, offset: 49756},
 																		expr: &actionExpr{
-																			pos: position{line: 1529, col: 15, offset: 49628},
+																			pos: position{line: 1529, col: 15, offset: 49757},
 																			run: (*parser).callonListContinuationElement136,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1529, col: 15, offset: 49628},
+																				pos: position{line: 1529, col: 15, offset: 49757},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1529, col: 15, offset: 49628},
+																					pos:        position{line: 1529, col: 15, offset: 49757},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30346,28 +30346,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91430},
+																	pos: position{line: 2899, col: 8, offset: 91559},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91203},
+																			pos: position{line: 2886, col: 12, offset: 91332},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91204},
+																				pos: position{line: 2886, col: 13, offset: 91333},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91204},
+																						pos:        position{line: 2886, col: 13, offset: 91333},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91211},
+																						pos:        position{line: 2886, col: 20, offset: 91340},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91220},
+																						pos:        position{line: 2886, col: 29, offset: 91349},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30376,9 +30376,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91380},
+																			pos: position{line: 2896, col: 8, offset: 91509},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91381,
+																				line: 2896, col: 9, offset: 91510,
 																			},
 																		},
 																	},
@@ -30391,35 +30391,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1665, col: 5, offset: 53975},
+										pos: position{line: 1665, col: 5, offset: 54104},
 										run: (*parser).callonListContinuationElement147,
 										expr: &seqExpr{
-											pos: position{line: 1665, col: 5, offset: 53975},
+											pos: position{line: 1665, col: 5, offset: 54104},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1665, col: 5, offset: 53975},
+													pos:   position{line: 1665, col: 5, offset: 54104},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1673, col: 5, offset: 54301},
+														pos: position{line: 1673, col: 5, offset: 54430},
 														run: (*parser).callonListContinuationElement150,
 														expr: &seqExpr{
-															pos: position{line: 1673, col: 5, offset: 54301},
+															pos: position{line: 1673, col: 5, offset: 54430},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1673, col: 5, offset: 54301},
+																	pos: position{line: 1673, col: 5, offset: 54430},
 																	expr: &seqExpr{
-																		pos: position{line: 2489, col: 31, offset: 80139},
+																		pos: position{line: 2489, col: 31, offset: 80268},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2489, col: 31, offset: 80139},
+																				pos:        position{line: 2489, col: 31, offset: 80268},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2489, col: 36, offset: 80144},
+																				pos: position{line: 2489, col: 36, offset: 80273},
 																				expr: &litMatcher{
-																					pos:        position{line: 2489, col: 37, offset: 80145},
+																					pos:        position{line: 2489, col: 37, offset: 80274},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
@@ -30429,28 +30429,28 @@ var g = &grammar{
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 1674, col: 5, offset: 54333},
+																	pos: position{line: 1674, col: 5, offset: 54462},
 																	expr: &seqExpr{
-																		pos: position{line: 1674, col: 6, offset: 54334},
+																		pos: position{line: 1674, col: 6, offset: 54463},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1674, col: 6, offset: 54334},
+																				pos: position{line: 1674, col: 6, offset: 54463},
 																				expr: &actionExpr{
-																					pos: position{line: 1679, col: 5, offset: 54484},
+																					pos: position{line: 1679, col: 5, offset: 54613},
 																					run: (*parser).callonListContinuationElement160,
 																					expr: &seqExpr{
-																						pos: position{line: 1679, col: 5, offset: 54484},
+																						pos: position{line: 1679, col: 5, offset: 54613},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1679, col: 5, offset: 54484},
+																								pos:   position{line: 1679, col: 5, offset: 54613},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1679, col: 16, offset: 54495},
+																									pos: position{line: 1679, col: 16, offset: 54624},
 																									run: (*parser).callonListContinuationElement163,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1679, col: 16, offset: 54495},
+																										pos: position{line: 1679, col: 16, offset: 54624},
 																										expr: &litMatcher{
-																											pos:        position{line: 1679, col: 17, offset: 54496},
+																											pos:        position{line: 1679, col: 17, offset: 54625},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -30459,7 +30459,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1682, col: 5, offset: 54553},
+																								pos: position{line: 1682, col: 5, offset: 54682},
 																								run: (*parser).callonListContinuationElement166,
 																							},
 																						},
@@ -30467,30 +30467,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1674, col: 35, offset: 54363},
+																				pos: position{line: 1674, col: 35, offset: 54492},
 																				expr: &choiceExpr{
-																					pos: position{line: 2899, col: 8, offset: 91430},
+																					pos: position{line: 2899, col: 8, offset: 91559},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2886, col: 12, offset: 91203},
+																							pos: position{line: 2886, col: 12, offset: 91332},
 																							run: (*parser).callonListContinuationElement169,
 																							expr: &choiceExpr{
-																								pos: position{line: 2886, col: 13, offset: 91204},
+																								pos: position{line: 2886, col: 13, offset: 91333},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 13, offset: 91204},
+																										pos:        position{line: 2886, col: 13, offset: 91333},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 20, offset: 91211},
+																										pos:        position{line: 2886, col: 20, offset: 91340},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 29, offset: 91220},
+																										pos:        position{line: 2886, col: 29, offset: 91349},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -30499,16 +30499,16 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2896, col: 8, offset: 91380},
+																							pos: position{line: 2896, col: 8, offset: 91509},
 																							expr: &anyMatcher{
-																								line: 2896, col: 9, offset: 91381,
+																								line: 2896, col: 9, offset: 91510,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1674, col: 40, offset: 54368,
+																				line: 1674, col: 40, offset: 54497,
 																			},
 																		},
 																	},
@@ -30518,24 +30518,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1666, col: 5, offset: 54010},
+													pos:   position{line: 1666, col: 5, offset: 54139},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1679, col: 5, offset: 54484},
+														pos: position{line: 1679, col: 5, offset: 54613},
 														run: (*parser).callonListContinuationElement178,
 														expr: &seqExpr{
-															pos: position{line: 1679, col: 5, offset: 54484},
+															pos: position{line: 1679, col: 5, offset: 54613},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1679, col: 5, offset: 54484},
+																	pos:   position{line: 1679, col: 5, offset: 54613},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1679, col: 16, offset: 54495},
+																		pos: position{line: 1679, col: 16, offset: 54624},
 																		run: (*parser).callonListContinuationElement181,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1679, col: 16, offset: 54495},
+																			pos: position{line: 1679, col: 16, offset: 54624},
 																			expr: &litMatcher{
-																				pos:        position{line: 1679, col: 17, offset: 54496},
+																				pos:        position{line: 1679, col: 17, offset: 54625},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -30544,7 +30544,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1682, col: 5, offset: 54553},
+																	pos: position{line: 1682, col: 5, offset: 54682},
 																	run: (*parser).callonListContinuationElement184,
 																},
 															},
@@ -30552,24 +30552,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1667, col: 5, offset: 54055},
+													pos:   position{line: 1667, col: 5, offset: 54184},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1690, col: 5, offset: 54802},
+														pos: position{line: 1690, col: 5, offset: 54931},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1692, col: 9, offset: 54868},
+																pos: position{line: 1692, col: 9, offset: 54997},
 																run: (*parser).callonListContinuationElement187,
 																expr: &seqExpr{
-																	pos: position{line: 1692, col: 9, offset: 54868},
+																	pos: position{line: 1692, col: 9, offset: 54997},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1692, col: 9, offset: 54868},
+																			pos: position{line: 1692, col: 9, offset: 54997},
 																			expr: &actionExpr{
-																				pos: position{line: 2877, col: 10, offset: 91032},
+																				pos: position{line: 2877, col: 10, offset: 91161},
 																				run: (*parser).callonListContinuationElement190,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 10, offset: 91032},
+																					pos:        position{line: 2877, col: 10, offset: 91161},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30578,28 +30578,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2899, col: 8, offset: 91430},
+																			pos: position{line: 2899, col: 8, offset: 91559},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2886, col: 12, offset: 91203},
+																					pos: position{line: 2886, col: 12, offset: 91332},
 																					run: (*parser).callonListContinuationElement193,
 																					expr: &choiceExpr{
-																						pos: position{line: 2886, col: 13, offset: 91204},
+																						pos: position{line: 2886, col: 13, offset: 91333},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 13, offset: 91204},
+																								pos:        position{line: 2886, col: 13, offset: 91333},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 20, offset: 91211},
+																								pos:        position{line: 2886, col: 20, offset: 91340},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 29, offset: 91220},
+																								pos:        position{line: 2886, col: 29, offset: 91349},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30608,15 +30608,15 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91380},
+																					pos: position{line: 2896, col: 8, offset: 91509},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91381,
+																						line: 2896, col: 9, offset: 91510,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1693, col: 9, offset: 54887},
+																			pos: position{line: 1693, col: 9, offset: 55016},
 																			expr: &actionExpr{
 																				pos: position{line: 677, col: 14, offset: 21525},
 																				run: (*parser).callonListContinuationElement201,
@@ -30624,18 +30624,18 @@ var g = &grammar{
 																					pos: position{line: 677, col: 14, offset: 21525},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2894, col: 11, offset: 91366},
+																							pos: position{line: 2894, col: 11, offset: 91495},
 																							expr: &anyMatcher{
-																								line: 2894, col: 13, offset: 91368,
+																								line: 2894, col: 13, offset: 91497,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 677, col: 21, offset: 21532},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91032},
+																								pos: position{line: 2877, col: 10, offset: 91161},
 																								run: (*parser).callonListContinuationElement206,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91032},
+																									pos:        position{line: 2877, col: 10, offset: 91161},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30644,28 +30644,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91430},
+																							pos: position{line: 2899, col: 8, offset: 91559},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91203},
+																									pos: position{line: 2886, col: 12, offset: 91332},
 																									run: (*parser).callonListContinuationElement209,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91204},
+																										pos: position{line: 2886, col: 13, offset: 91333},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91204},
+																												pos:        position{line: 2886, col: 13, offset: 91333},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91211},
+																												pos:        position{line: 2886, col: 20, offset: 91340},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91220},
+																												pos:        position{line: 2886, col: 29, offset: 91349},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30674,9 +30674,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91380},
+																									pos: position{line: 2896, col: 8, offset: 91509},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91381,
+																										line: 2896, col: 9, offset: 91510,
 																									},
 																								},
 																							},
@@ -30689,18 +30689,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1699, col: 9, offset: 55016},
+																pos: position{line: 1699, col: 9, offset: 55145},
 																run: (*parser).callonListContinuationElement216,
 																expr: &seqExpr{
-																	pos: position{line: 1699, col: 9, offset: 55016},
+																	pos: position{line: 1699, col: 9, offset: 55145},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2881, col: 11, offset: 91093},
+																			pos: position{line: 2881, col: 11, offset: 91222},
 																			run: (*parser).callonListContinuationElement218,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2881, col: 11, offset: 91093},
+																				pos: position{line: 2881, col: 11, offset: 91222},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2881, col: 11, offset: 91093},
+																					pos:        position{line: 2881, col: 11, offset: 91222},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30709,15 +30709,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1700, col: 9, offset: 55089},
+																			pos:   position{line: 1700, col: 9, offset: 55218},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1700, col: 18, offset: 55098},
+																				pos: position{line: 1700, col: 18, offset: 55227},
 																				run: (*parser).callonListContinuationElement222,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1700, col: 18, offset: 55098},
+																					pos: position{line: 1700, col: 18, offset: 55227},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1700, col: 18, offset: 55098},
+																						pos:        position{line: 1700, col: 18, offset: 55227},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -30727,28 +30727,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2899, col: 8, offset: 91430},
+																			pos: position{line: 2899, col: 8, offset: 91559},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2886, col: 12, offset: 91203},
+																					pos: position{line: 2886, col: 12, offset: 91332},
 																					run: (*parser).callonListContinuationElement226,
 																					expr: &choiceExpr{
-																						pos: position{line: 2886, col: 13, offset: 91204},
+																						pos: position{line: 2886, col: 13, offset: 91333},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 13, offset: 91204},
+																								pos:        position{line: 2886, col: 13, offset: 91333},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 20, offset: 91211},
+																								pos:        position{line: 2886, col: 20, offset: 91340},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 29, offset: 91220},
+																								pos:        position{line: 2886, col: 29, offset: 91349},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30757,9 +30757,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91380},
+																					pos: position{line: 2896, col: 8, offset: 91509},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91381,
+																						line: 2896, col: 9, offset: 91510,
 																					},
 																				},
 																			},
@@ -30777,21 +30777,21 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1552, col: 5, offset: 50237},
+							pos:   position{line: 1552, col: 5, offset: 50366},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1552, col: 16, offset: 50248},
+								pos: position{line: 1552, col: 16, offset: 50377},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1552, col: 17, offset: 50249},
+									pos:  position{line: 1552, col: 17, offset: 50378},
 									name: "BlockAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1553, col: 5, offset: 50271},
+							pos:   position{line: 1553, col: 5, offset: 50400},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1554, col: 9, offset: 50289},
+								pos: position{line: 1554, col: 9, offset: 50418},
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 677, col: 14, offset: 21525},
@@ -30800,18 +30800,18 @@ var g = &grammar{
 											pos: position{line: 677, col: 14, offset: 21525},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2894, col: 11, offset: 91366},
+													pos: position{line: 2894, col: 11, offset: 91495},
 													expr: &anyMatcher{
-														line: 2894, col: 13, offset: 91368,
+														line: 2894, col: 13, offset: 91497,
 													},
 												},
 												&zeroOrMoreExpr{
 													pos: position{line: 677, col: 21, offset: 21532},
 													expr: &actionExpr{
-														pos: position{line: 2877, col: 10, offset: 91032},
+														pos: position{line: 2877, col: 10, offset: 91161},
 														run: (*parser).callonListContinuationElement243,
 														expr: &charClassMatcher{
-															pos:        position{line: 2877, col: 10, offset: 91032},
+															pos:        position{line: 2877, col: 10, offset: 91161},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30820,28 +30820,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2899, col: 8, offset: 91430},
+													pos: position{line: 2899, col: 8, offset: 91559},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2886, col: 12, offset: 91203},
+															pos: position{line: 2886, col: 12, offset: 91332},
 															run: (*parser).callonListContinuationElement246,
 															expr: &choiceExpr{
-																pos: position{line: 2886, col: 13, offset: 91204},
+																pos: position{line: 2886, col: 13, offset: 91333},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 13, offset: 91204},
+																		pos:        position{line: 2886, col: 13, offset: 91333},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 20, offset: 91211},
+																		pos:        position{line: 2886, col: 20, offset: 91340},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 29, offset: 91220},
+																		pos:        position{line: 2886, col: 29, offset: 91349},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30850,9 +30850,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2896, col: 8, offset: 91380},
+															pos: position{line: 2896, col: 8, offset: 91509},
 															expr: &anyMatcher{
-																line: 2896, col: 9, offset: 91381,
+																line: 2896, col: 9, offset: 91510,
 															},
 														},
 													},
@@ -30861,7 +30861,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1555, col: 11, offset: 50309},
+										pos:  position{line: 1555, col: 11, offset: 50438},
 										name: "AttributeDeclaration",
 									},
 									&actionExpr{
@@ -30917,10 +30917,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 359, col: 49, offset: 10879},
 													expr: &actionExpr{
-														pos: position{line: 2877, col: 10, offset: 91032},
+														pos: position{line: 2877, col: 10, offset: 91161},
 														run: (*parser).callonListContinuationElement265,
 														expr: &charClassMatcher{
-															pos:        position{line: 2877, col: 10, offset: 91032},
+															pos:        position{line: 2877, col: 10, offset: 91161},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30929,28 +30929,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2899, col: 8, offset: 91430},
+													pos: position{line: 2899, col: 8, offset: 91559},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2886, col: 12, offset: 91203},
+															pos: position{line: 2886, col: 12, offset: 91332},
 															run: (*parser).callonListContinuationElement268,
 															expr: &choiceExpr{
-																pos: position{line: 2886, col: 13, offset: 91204},
+																pos: position{line: 2886, col: 13, offset: 91333},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 13, offset: 91204},
+																		pos:        position{line: 2886, col: 13, offset: 91333},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 20, offset: 91211},
+																		pos:        position{line: 2886, col: 20, offset: 91340},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 29, offset: 91220},
+																		pos:        position{line: 2886, col: 29, offset: 91349},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30959,9 +30959,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2896, col: 8, offset: 91380},
+															pos: position{line: 2896, col: 8, offset: 91509},
 															expr: &anyMatcher{
-																line: 2896, col: 9, offset: 91381,
+																line: 2896, col: 9, offset: 91510,
 															},
 														},
 													},
@@ -31022,10 +31022,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 361, col: 39, offset: 11000},
 													expr: &actionExpr{
-														pos: position{line: 2877, col: 10, offset: 91032},
+														pos: position{line: 2877, col: 10, offset: 91161},
 														run: (*parser).callonListContinuationElement286,
 														expr: &charClassMatcher{
-															pos:        position{line: 2877, col: 10, offset: 91032},
+															pos:        position{line: 2877, col: 10, offset: 91161},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31034,28 +31034,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2899, col: 8, offset: 91430},
+													pos: position{line: 2899, col: 8, offset: 91559},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2886, col: 12, offset: 91203},
+															pos: position{line: 2886, col: 12, offset: 91332},
 															run: (*parser).callonListContinuationElement289,
 															expr: &choiceExpr{
-																pos: position{line: 2886, col: 13, offset: 91204},
+																pos: position{line: 2886, col: 13, offset: 91333},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 13, offset: 91204},
+																		pos:        position{line: 2886, col: 13, offset: 91333},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 20, offset: 91211},
+																		pos:        position{line: 2886, col: 20, offset: 91340},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 29, offset: 91220},
+																		pos:        position{line: 2886, col: 29, offset: 91349},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31064,9 +31064,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2896, col: 8, offset: 91380},
+															pos: position{line: 2896, col: 8, offset: 91509},
 															expr: &anyMatcher{
-																line: 2896, col: 9, offset: 91381,
+																line: 2896, col: 9, offset: 91510,
 															},
 														},
 													},
@@ -31117,10 +31117,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 742, col: 8, offset: 23722},
 																expr: &actionExpr{
-																	pos: position{line: 2877, col: 10, offset: 91032},
+																	pos: position{line: 2877, col: 10, offset: 91161},
 																	run: (*parser).callonListContinuationElement307,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2877, col: 10, offset: 91032},
+																		pos:        position{line: 2877, col: 10, offset: 91161},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -31129,28 +31129,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2899, col: 8, offset: 91430},
+																pos: position{line: 2899, col: 8, offset: 91559},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2886, col: 12, offset: 91203},
+																		pos: position{line: 2886, col: 12, offset: 91332},
 																		run: (*parser).callonListContinuationElement310,
 																		expr: &choiceExpr{
-																			pos: position{line: 2886, col: 13, offset: 91204},
+																			pos: position{line: 2886, col: 13, offset: 91333},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 13, offset: 91204},
+																					pos:        position{line: 2886, col: 13, offset: 91333},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 20, offset: 91211},
+																					pos:        position{line: 2886, col: 20, offset: 91340},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 29, offset: 91220},
+																					pos:        position{line: 2886, col: 29, offset: 91349},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -31159,9 +31159,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2896, col: 8, offset: 91380},
+																		pos: position{line: 2896, col: 8, offset: 91509},
 																		expr: &anyMatcher{
-																			line: 2896, col: 9, offset: 91381,
+																			line: 2896, col: 9, offset: 91510,
 																		},
 																	},
 																},
@@ -31222,10 +31222,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 742, col: 8, offset: 23722},
 																								expr: &actionExpr{
-																									pos: position{line: 2877, col: 10, offset: 91032},
+																									pos: position{line: 2877, col: 10, offset: 91161},
 																									run: (*parser).callonListContinuationElement332,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 10, offset: 91032},
+																										pos:        position{line: 2877, col: 10, offset: 91161},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -31234,28 +31234,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2899, col: 8, offset: 91430},
+																								pos: position{line: 2899, col: 8, offset: 91559},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2886, col: 12, offset: 91203},
+																										pos: position{line: 2886, col: 12, offset: 91332},
 																										run: (*parser).callonListContinuationElement335,
 																										expr: &choiceExpr{
-																											pos: position{line: 2886, col: 13, offset: 91204},
+																											pos: position{line: 2886, col: 13, offset: 91333},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 13, offset: 91204},
+																													pos:        position{line: 2886, col: 13, offset: 91333},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 20, offset: 91211},
+																													pos:        position{line: 2886, col: 20, offset: 91340},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 29, offset: 91220},
+																													pos:        position{line: 2886, col: 29, offset: 91349},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -31264,9 +31264,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2896, col: 8, offset: 91380},
+																										pos: position{line: 2896, col: 8, offset: 91509},
 																										expr: &anyMatcher{
-																											line: 2896, col: 9, offset: 91381,
+																											line: 2896, col: 9, offset: 91510,
 																										},
 																									},
 																								},
@@ -31275,9 +31275,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91380},
+																					pos: position{line: 2896, col: 8, offset: 91509},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91381,
+																						line: 2896, col: 9, offset: 91510,
 																					},
 																				},
 																			},
@@ -31293,21 +31293,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26129},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2894, col: 11, offset: 91366},
+																						pos: position{line: 2894, col: 11, offset: 91495},
 																						expr: &anyMatcher{
-																							line: 2894, col: 13, offset: 91368,
+																							line: 2894, col: 13, offset: 91497,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26204},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2823, col: 13, offset: 89558},
+																							pos: position{line: 2823, col: 13, offset: 89687},
 																							run: (*parser).callonListContinuationElement350,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2823, col: 13, offset: 89558},
+																								pos: position{line: 2823, col: 13, offset: 89687},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2823, col: 13, offset: 89558},
+																									pos:        position{line: 2823, col: 13, offset: 89687},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31317,28 +31317,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91430},
+																						pos: position{line: 2899, col: 8, offset: 91559},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91203},
+																								pos: position{line: 2886, col: 12, offset: 91332},
 																								run: (*parser).callonListContinuationElement354,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91204},
+																									pos: position{line: 2886, col: 13, offset: 91333},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91204},
+																											pos:        position{line: 2886, col: 13, offset: 91333},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91211},
+																											pos:        position{line: 2886, col: 20, offset: 91340},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91220},
+																											pos:        position{line: 2886, col: 29, offset: 91349},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31347,9 +31347,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91380},
+																								pos: position{line: 2896, col: 8, offset: 91509},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91381,
+																									line: 2896, col: 9, offset: 91510,
 																								},
 																							},
 																						},
@@ -31405,10 +31405,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 742, col: 8, offset: 23722},
 																			expr: &actionExpr{
-																				pos: position{line: 2877, col: 10, offset: 91032},
+																				pos: position{line: 2877, col: 10, offset: 91161},
 																				run: (*parser).callonListContinuationElement372,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 10, offset: 91032},
+																					pos:        position{line: 2877, col: 10, offset: 91161},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -31417,28 +31417,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2899, col: 8, offset: 91430},
+																			pos: position{line: 2899, col: 8, offset: 91559},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2886, col: 12, offset: 91203},
+																					pos: position{line: 2886, col: 12, offset: 91332},
 																					run: (*parser).callonListContinuationElement375,
 																					expr: &choiceExpr{
-																						pos: position{line: 2886, col: 13, offset: 91204},
+																						pos: position{line: 2886, col: 13, offset: 91333},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 13, offset: 91204},
+																								pos:        position{line: 2886, col: 13, offset: 91333},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 20, offset: 91211},
+																								pos:        position{line: 2886, col: 20, offset: 91340},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 29, offset: 91220},
+																								pos:        position{line: 2886, col: 29, offset: 91349},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31447,9 +31447,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91380},
+																					pos: position{line: 2896, col: 8, offset: 91509},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91381,
+																						line: 2896, col: 9, offset: 91510,
 																					},
 																				},
 																			},
@@ -31458,9 +31458,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2896, col: 8, offset: 91380},
+																pos: position{line: 2896, col: 8, offset: 91509},
 																expr: &anyMatcher{
-																	line: 2896, col: 9, offset: 91381,
+																	line: 2896, col: 9, offset: 91510,
 																},
 															},
 														},
@@ -31515,10 +31515,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 749, col: 8, offset: 23970},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91032},
+																		pos: position{line: 2877, col: 10, offset: 91161},
 																		run: (*parser).callonListContinuationElement396,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91032},
+																			pos:        position{line: 2877, col: 10, offset: 91161},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31527,28 +31527,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91430},
+																	pos: position{line: 2899, col: 8, offset: 91559},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91203},
+																			pos: position{line: 2886, col: 12, offset: 91332},
 																			run: (*parser).callonListContinuationElement399,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91204},
+																				pos: position{line: 2886, col: 13, offset: 91333},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91204},
+																						pos:        position{line: 2886, col: 13, offset: 91333},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91211},
+																						pos:        position{line: 2886, col: 20, offset: 91340},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91220},
+																						pos:        position{line: 2886, col: 29, offset: 91349},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31557,9 +31557,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91380},
+																			pos: position{line: 2896, col: 8, offset: 91509},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91381,
+																				line: 2896, col: 9, offset: 91510,
 																			},
 																		},
 																	},
@@ -31631,10 +31631,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 749, col: 8, offset: 23970},
 																											expr: &actionExpr{
-																												pos: position{line: 2877, col: 10, offset: 91032},
+																												pos: position{line: 2877, col: 10, offset: 91161},
 																												run: (*parser).callonListContinuationElement424,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2877, col: 10, offset: 91032},
+																													pos:        position{line: 2877, col: 10, offset: 91161},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31643,28 +31643,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91430},
+																											pos: position{line: 2899, col: 8, offset: 91559},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91203},
+																													pos: position{line: 2886, col: 12, offset: 91332},
 																													run: (*parser).callonListContinuationElement427,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91204},
+																														pos: position{line: 2886, col: 13, offset: 91333},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91204},
+																																pos:        position{line: 2886, col: 13, offset: 91333},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91211},
+																																pos:        position{line: 2886, col: 20, offset: 91340},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91220},
+																																pos:        position{line: 2886, col: 29, offset: 91349},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31673,9 +31673,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91380},
+																													pos: position{line: 2896, col: 8, offset: 91509},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91381,
+																														line: 2896, col: 9, offset: 91510,
 																													},
 																												},
 																											},
@@ -31691,9 +31691,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91380},
+																					pos: position{line: 2896, col: 8, offset: 91509},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91381,
+																						line: 2896, col: 9, offset: 91510,
 																					},
 																				},
 																			},
@@ -31709,21 +31709,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26129},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2894, col: 11, offset: 91366},
+																						pos: position{line: 2894, col: 11, offset: 91495},
 																						expr: &anyMatcher{
-																							line: 2894, col: 13, offset: 91368,
+																							line: 2894, col: 13, offset: 91497,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26204},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2823, col: 13, offset: 89558},
+																							pos: position{line: 2823, col: 13, offset: 89687},
 																							run: (*parser).callonListContinuationElement443,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2823, col: 13, offset: 89558},
+																								pos: position{line: 2823, col: 13, offset: 89687},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2823, col: 13, offset: 89558},
+																									pos:        position{line: 2823, col: 13, offset: 89687},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31733,28 +31733,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91430},
+																						pos: position{line: 2899, col: 8, offset: 91559},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91203},
+																								pos: position{line: 2886, col: 12, offset: 91332},
 																								run: (*parser).callonListContinuationElement447,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91204},
+																									pos: position{line: 2886, col: 13, offset: 91333},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91204},
+																											pos:        position{line: 2886, col: 13, offset: 91333},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91211},
+																											pos:        position{line: 2886, col: 20, offset: 91340},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91220},
+																											pos:        position{line: 2886, col: 29, offset: 91349},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31763,9 +31763,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91380},
+																								pos: position{line: 2896, col: 8, offset: 91509},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91381,
+																									line: 2896, col: 9, offset: 91510,
 																								},
 																							},
 																						},
@@ -31830,10 +31830,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 749, col: 8, offset: 23970},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91032},
+																								pos: position{line: 2877, col: 10, offset: 91161},
 																								run: (*parser).callonListContinuationElement468,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91032},
+																									pos:        position{line: 2877, col: 10, offset: 91161},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -31842,28 +31842,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91430},
+																							pos: position{line: 2899, col: 8, offset: 91559},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91203},
+																									pos: position{line: 2886, col: 12, offset: 91332},
 																									run: (*parser).callonListContinuationElement471,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91204},
+																										pos: position{line: 2886, col: 13, offset: 91333},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91204},
+																												pos:        position{line: 2886, col: 13, offset: 91333},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91211},
+																												pos:        position{line: 2886, col: 20, offset: 91340},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91220},
+																												pos:        position{line: 2886, col: 29, offset: 91349},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -31872,9 +31872,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91380},
+																									pos: position{line: 2896, col: 8, offset: 91509},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91381,
+																										line: 2896, col: 9, offset: 91510,
 																									},
 																								},
 																							},
@@ -31890,9 +31890,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2896, col: 8, offset: 91380},
+																	pos: position{line: 2896, col: 8, offset: 91509},
 																	expr: &anyMatcher{
-																		line: 2896, col: 9, offset: 91381,
+																		line: 2896, col: 9, offset: 91510,
 																	},
 																},
 															},
@@ -31944,10 +31944,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 760, col: 52, offset: 24382},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91032},
+																		pos: position{line: 2877, col: 10, offset: 91161},
 																		run: (*parser).callonListContinuationElement492,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91032},
+																			pos:        position{line: 2877, col: 10, offset: 91161},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31956,28 +31956,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91430},
+																	pos: position{line: 2899, col: 8, offset: 91559},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91203},
+																			pos: position{line: 2886, col: 12, offset: 91332},
 																			run: (*parser).callonListContinuationElement495,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91204},
+																				pos: position{line: 2886, col: 13, offset: 91333},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91204},
+																						pos:        position{line: 2886, col: 13, offset: 91333},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91211},
+																						pos:        position{line: 2886, col: 20, offset: 91340},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91220},
+																						pos:        position{line: 2886, col: 29, offset: 91349},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31986,9 +31986,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91380},
+																			pos: position{line: 2896, col: 8, offset: 91509},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91381,
+																				line: 2896, col: 9, offset: 91510,
 																			},
 																		},
 																	},
@@ -32022,10 +32022,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 963, col: 40, offset: 30190},
 																					expr: &actionExpr{
-																						pos: position{line: 2877, col: 10, offset: 91032},
+																						pos: position{line: 2877, col: 10, offset: 91161},
 																						run: (*parser).callonListContinuationElement510,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2877, col: 10, offset: 91032},
+																							pos:        position{line: 2877, col: 10, offset: 91161},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -32034,28 +32034,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2899, col: 8, offset: 91430},
+																					pos: position{line: 2899, col: 8, offset: 91559},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2886, col: 12, offset: 91203},
+																							pos: position{line: 2886, col: 12, offset: 91332},
 																							run: (*parser).callonListContinuationElement513,
 																							expr: &choiceExpr{
-																								pos: position{line: 2886, col: 13, offset: 91204},
+																								pos: position{line: 2886, col: 13, offset: 91333},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 13, offset: 91204},
+																										pos:        position{line: 2886, col: 13, offset: 91333},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 20, offset: 91211},
+																										pos:        position{line: 2886, col: 20, offset: 91340},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 29, offset: 91220},
+																										pos:        position{line: 2886, col: 29, offset: 91349},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -32064,9 +32064,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2896, col: 8, offset: 91380},
+																							pos: position{line: 2896, col: 8, offset: 91509},
 																							expr: &anyMatcher{
-																								line: 2896, col: 9, offset: 91381,
+																								line: 2896, col: 9, offset: 91510,
 																							},
 																						},
 																					},
@@ -32084,21 +32084,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26129},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2894, col: 11, offset: 91366},
+																						pos: position{line: 2894, col: 11, offset: 91495},
 																						expr: &anyMatcher{
-																							line: 2894, col: 13, offset: 91368,
+																							line: 2894, col: 13, offset: 91497,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26204},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2823, col: 13, offset: 89558},
+																							pos: position{line: 2823, col: 13, offset: 89687},
 																							run: (*parser).callonListContinuationElement526,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2823, col: 13, offset: 89558},
+																								pos: position{line: 2823, col: 13, offset: 89687},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2823, col: 13, offset: 89558},
+																									pos:        position{line: 2823, col: 13, offset: 89687},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32108,28 +32108,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91430},
+																						pos: position{line: 2899, col: 8, offset: 91559},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91203},
+																								pos: position{line: 2886, col: 12, offset: 91332},
 																								run: (*parser).callonListContinuationElement530,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91204},
+																									pos: position{line: 2886, col: 13, offset: 91333},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91204},
+																											pos:        position{line: 2886, col: 13, offset: 91333},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91211},
+																											pos:        position{line: 2886, col: 20, offset: 91340},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91220},
+																											pos:        position{line: 2886, col: 29, offset: 91349},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32138,9 +32138,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91380},
+																								pos: position{line: 2896, col: 8, offset: 91509},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91381,
+																									line: 2896, col: 9, offset: 91510,
 																								},
 																							},
 																						},
@@ -32168,10 +32168,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 963, col: 40, offset: 30190},
 																expr: &actionExpr{
-																	pos: position{line: 2877, col: 10, offset: 91032},
+																	pos: position{line: 2877, col: 10, offset: 91161},
 																	run: (*parser).callonListContinuationElement541,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2877, col: 10, offset: 91032},
+																		pos:        position{line: 2877, col: 10, offset: 91161},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -32180,28 +32180,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2899, col: 8, offset: 91430},
+																pos: position{line: 2899, col: 8, offset: 91559},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2886, col: 12, offset: 91203},
+																		pos: position{line: 2886, col: 12, offset: 91332},
 																		run: (*parser).callonListContinuationElement544,
 																		expr: &choiceExpr{
-																			pos: position{line: 2886, col: 13, offset: 91204},
+																			pos: position{line: 2886, col: 13, offset: 91333},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 13, offset: 91204},
+																					pos:        position{line: 2886, col: 13, offset: 91333},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 20, offset: 91211},
+																					pos:        position{line: 2886, col: 20, offset: 91340},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 29, offset: 91220},
+																					pos:        position{line: 2886, col: 29, offset: 91349},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -32210,9 +32210,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2896, col: 8, offset: 91380},
+																		pos: position{line: 2896, col: 8, offset: 91509},
 																		expr: &anyMatcher{
-																			line: 2896, col: 9, offset: 91381,
+																			line: 2896, col: 9, offset: 91510,
 																		},
 																	},
 																},
@@ -32269,10 +32269,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 756, col: 8, offset: 24216},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91032},
+																		pos: position{line: 2877, col: 10, offset: 91161},
 																		run: (*parser).callonListContinuationElement563,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91032},
+																			pos:        position{line: 2877, col: 10, offset: 91161},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32281,28 +32281,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91430},
+																	pos: position{line: 2899, col: 8, offset: 91559},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91203},
+																			pos: position{line: 2886, col: 12, offset: 91332},
 																			run: (*parser).callonListContinuationElement566,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91204},
+																				pos: position{line: 2886, col: 13, offset: 91333},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91204},
+																						pos:        position{line: 2886, col: 13, offset: 91333},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91211},
+																						pos:        position{line: 2886, col: 20, offset: 91340},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91220},
+																						pos:        position{line: 2886, col: 29, offset: 91349},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32311,9 +32311,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91380},
+																			pos: position{line: 2896, col: 8, offset: 91509},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91381,
+																				line: 2896, col: 9, offset: 91510,
 																			},
 																		},
 																	},
@@ -32385,10 +32385,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 756, col: 8, offset: 24216},
 																											expr: &actionExpr{
-																												pos: position{line: 2877, col: 10, offset: 91032},
+																												pos: position{line: 2877, col: 10, offset: 91161},
 																												run: (*parser).callonListContinuationElement591,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2877, col: 10, offset: 91032},
+																													pos:        position{line: 2877, col: 10, offset: 91161},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32397,28 +32397,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91430},
+																											pos: position{line: 2899, col: 8, offset: 91559},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91203},
+																													pos: position{line: 2886, col: 12, offset: 91332},
 																													run: (*parser).callonListContinuationElement594,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91204},
+																														pos: position{line: 2886, col: 13, offset: 91333},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91204},
+																																pos:        position{line: 2886, col: 13, offset: 91333},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91211},
+																																pos:        position{line: 2886, col: 20, offset: 91340},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91220},
+																																pos:        position{line: 2886, col: 29, offset: 91349},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32427,9 +32427,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91380},
+																													pos: position{line: 2896, col: 8, offset: 91509},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91381,
+																														line: 2896, col: 9, offset: 91510,
 																													},
 																												},
 																											},
@@ -32445,9 +32445,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91380},
+																					pos: position{line: 2896, col: 8, offset: 91509},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91381,
+																						line: 2896, col: 9, offset: 91510,
 																					},
 																				},
 																			},
@@ -32463,21 +32463,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26129},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2894, col: 11, offset: 91366},
+																						pos: position{line: 2894, col: 11, offset: 91495},
 																						expr: &anyMatcher{
-																							line: 2894, col: 13, offset: 91368,
+																							line: 2894, col: 13, offset: 91497,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26204},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2823, col: 13, offset: 89558},
+																							pos: position{line: 2823, col: 13, offset: 89687},
 																							run: (*parser).callonListContinuationElement610,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2823, col: 13, offset: 89558},
+																								pos: position{line: 2823, col: 13, offset: 89687},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2823, col: 13, offset: 89558},
+																									pos:        position{line: 2823, col: 13, offset: 89687},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32487,28 +32487,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91430},
+																						pos: position{line: 2899, col: 8, offset: 91559},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91203},
+																								pos: position{line: 2886, col: 12, offset: 91332},
 																								run: (*parser).callonListContinuationElement614,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91204},
+																									pos: position{line: 2886, col: 13, offset: 91333},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91204},
+																											pos:        position{line: 2886, col: 13, offset: 91333},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91211},
+																											pos:        position{line: 2886, col: 20, offset: 91340},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91220},
+																											pos:        position{line: 2886, col: 29, offset: 91349},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32517,9 +32517,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91380},
+																								pos: position{line: 2896, col: 8, offset: 91509},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91381,
+																									line: 2896, col: 9, offset: 91510,
 																								},
 																							},
 																						},
@@ -32584,10 +32584,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 756, col: 8, offset: 24216},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91032},
+																								pos: position{line: 2877, col: 10, offset: 91161},
 																								run: (*parser).callonListContinuationElement635,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91032},
+																									pos:        position{line: 2877, col: 10, offset: 91161},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32596,28 +32596,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91430},
+																							pos: position{line: 2899, col: 8, offset: 91559},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91203},
+																									pos: position{line: 2886, col: 12, offset: 91332},
 																									run: (*parser).callonListContinuationElement638,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91204},
+																										pos: position{line: 2886, col: 13, offset: 91333},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91204},
+																												pos:        position{line: 2886, col: 13, offset: 91333},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91211},
+																												pos:        position{line: 2886, col: 20, offset: 91340},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91220},
+																												pos:        position{line: 2886, col: 29, offset: 91349},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32626,9 +32626,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91380},
+																									pos: position{line: 2896, col: 8, offset: 91509},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91381,
+																										line: 2896, col: 9, offset: 91510,
 																									},
 																								},
 																							},
@@ -32644,9 +32644,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2896, col: 8, offset: 91380},
+																	pos: position{line: 2896, col: 8, offset: 91509},
 																	expr: &anyMatcher{
-																		line: 2896, col: 9, offset: 91381,
+																		line: 2896, col: 9, offset: 91510,
 																	},
 																},
 															},
@@ -32702,10 +32702,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 771, col: 8, offset: 24759},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91032},
+																		pos: position{line: 2877, col: 10, offset: 91161},
 																		run: (*parser).callonListContinuationElement660,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91032},
+																			pos:        position{line: 2877, col: 10, offset: 91161},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32714,28 +32714,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91430},
+																	pos: position{line: 2899, col: 8, offset: 91559},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91203},
+																			pos: position{line: 2886, col: 12, offset: 91332},
 																			run: (*parser).callonListContinuationElement663,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91204},
+																				pos: position{line: 2886, col: 13, offset: 91333},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91204},
+																						pos:        position{line: 2886, col: 13, offset: 91333},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91211},
+																						pos:        position{line: 2886, col: 20, offset: 91340},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91220},
+																						pos:        position{line: 2886, col: 29, offset: 91349},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32744,9 +32744,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91380},
+																			pos: position{line: 2896, col: 8, offset: 91509},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91381,
+																				line: 2896, col: 9, offset: 91510,
 																			},
 																		},
 																	},
@@ -32818,10 +32818,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 771, col: 8, offset: 24759},
 																											expr: &actionExpr{
-																												pos: position{line: 2877, col: 10, offset: 91032},
+																												pos: position{line: 2877, col: 10, offset: 91161},
 																												run: (*parser).callonListContinuationElement688,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2877, col: 10, offset: 91032},
+																													pos:        position{line: 2877, col: 10, offset: 91161},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32830,28 +32830,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91430},
+																											pos: position{line: 2899, col: 8, offset: 91559},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91203},
+																													pos: position{line: 2886, col: 12, offset: 91332},
 																													run: (*parser).callonListContinuationElement691,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91204},
+																														pos: position{line: 2886, col: 13, offset: 91333},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91204},
+																																pos:        position{line: 2886, col: 13, offset: 91333},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91211},
+																																pos:        position{line: 2886, col: 20, offset: 91340},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91220},
+																																pos:        position{line: 2886, col: 29, offset: 91349},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32860,9 +32860,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91380},
+																													pos: position{line: 2896, col: 8, offset: 91509},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91381,
+																														line: 2896, col: 9, offset: 91510,
 																													},
 																												},
 																											},
@@ -32878,9 +32878,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91380},
+																					pos: position{line: 2896, col: 8, offset: 91509},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91381,
+																						line: 2896, col: 9, offset: 91510,
 																					},
 																				},
 																			},
@@ -32896,21 +32896,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26129},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2894, col: 11, offset: 91366},
+																						pos: position{line: 2894, col: 11, offset: 91495},
 																						expr: &anyMatcher{
-																							line: 2894, col: 13, offset: 91368,
+																							line: 2894, col: 13, offset: 91497,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26204},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2823, col: 13, offset: 89558},
+																							pos: position{line: 2823, col: 13, offset: 89687},
 																							run: (*parser).callonListContinuationElement707,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2823, col: 13, offset: 89558},
+																								pos: position{line: 2823, col: 13, offset: 89687},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2823, col: 13, offset: 89558},
+																									pos:        position{line: 2823, col: 13, offset: 89687},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32920,28 +32920,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91430},
+																						pos: position{line: 2899, col: 8, offset: 91559},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91203},
+																								pos: position{line: 2886, col: 12, offset: 91332},
 																								run: (*parser).callonListContinuationElement711,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91204},
+																									pos: position{line: 2886, col: 13, offset: 91333},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91204},
+																											pos:        position{line: 2886, col: 13, offset: 91333},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91211},
+																											pos:        position{line: 2886, col: 20, offset: 91340},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91220},
+																											pos:        position{line: 2886, col: 29, offset: 91349},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32950,9 +32950,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91380},
+																								pos: position{line: 2896, col: 8, offset: 91509},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91381,
+																									line: 2896, col: 9, offset: 91510,
 																								},
 																							},
 																						},
@@ -33017,10 +33017,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 771, col: 8, offset: 24759},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91032},
+																								pos: position{line: 2877, col: 10, offset: 91161},
 																								run: (*parser).callonListContinuationElement732,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91032},
+																									pos:        position{line: 2877, col: 10, offset: 91161},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33029,28 +33029,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91430},
+																							pos: position{line: 2899, col: 8, offset: 91559},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91203},
+																									pos: position{line: 2886, col: 12, offset: 91332},
 																									run: (*parser).callonListContinuationElement735,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91204},
+																										pos: position{line: 2886, col: 13, offset: 91333},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91204},
+																												pos:        position{line: 2886, col: 13, offset: 91333},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91211},
+																												pos:        position{line: 2886, col: 20, offset: 91340},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91220},
+																												pos:        position{line: 2886, col: 29, offset: 91349},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33059,9 +33059,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91380},
+																									pos: position{line: 2896, col: 8, offset: 91509},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91381,
+																										line: 2896, col: 9, offset: 91510,
 																									},
 																								},
 																							},
@@ -33077,9 +33077,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2896, col: 8, offset: 91380},
+																	pos: position{line: 2896, col: 8, offset: 91509},
 																	expr: &anyMatcher{
-																		line: 2896, col: 9, offset: 91381,
+																		line: 2896, col: 9, offset: 91510,
 																	},
 																},
 															},
@@ -33135,10 +33135,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 785, col: 8, offset: 25235},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91032},
+																		pos: position{line: 2877, col: 10, offset: 91161},
 																		run: (*parser).callonListContinuationElement757,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91032},
+																			pos:        position{line: 2877, col: 10, offset: 91161},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33147,28 +33147,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91430},
+																	pos: position{line: 2899, col: 8, offset: 91559},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91203},
+																			pos: position{line: 2886, col: 12, offset: 91332},
 																			run: (*parser).callonListContinuationElement760,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91204},
+																				pos: position{line: 2886, col: 13, offset: 91333},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91204},
+																						pos:        position{line: 2886, col: 13, offset: 91333},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91211},
+																						pos:        position{line: 2886, col: 20, offset: 91340},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91220},
+																						pos:        position{line: 2886, col: 29, offset: 91349},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33177,9 +33177,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91380},
+																			pos: position{line: 2896, col: 8, offset: 91509},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91381,
+																				line: 2896, col: 9, offset: 91510,
 																			},
 																		},
 																	},
@@ -33251,10 +33251,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 785, col: 8, offset: 25235},
 																											expr: &actionExpr{
-																												pos: position{line: 2877, col: 10, offset: 91032},
+																												pos: position{line: 2877, col: 10, offset: 91161},
 																												run: (*parser).callonListContinuationElement785,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2877, col: 10, offset: 91032},
+																													pos:        position{line: 2877, col: 10, offset: 91161},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33263,28 +33263,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91430},
+																											pos: position{line: 2899, col: 8, offset: 91559},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91203},
+																													pos: position{line: 2886, col: 12, offset: 91332},
 																													run: (*parser).callonListContinuationElement788,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91204},
+																														pos: position{line: 2886, col: 13, offset: 91333},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91204},
+																																pos:        position{line: 2886, col: 13, offset: 91333},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91211},
+																																pos:        position{line: 2886, col: 20, offset: 91340},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91220},
+																																pos:        position{line: 2886, col: 29, offset: 91349},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33293,9 +33293,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91380},
+																													pos: position{line: 2896, col: 8, offset: 91509},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91381,
+																														line: 2896, col: 9, offset: 91510,
 																													},
 																												},
 																											},
@@ -33311,9 +33311,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91380},
+																					pos: position{line: 2896, col: 8, offset: 91509},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91381,
+																						line: 2896, col: 9, offset: 91510,
 																					},
 																				},
 																			},
@@ -33329,21 +33329,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26129},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2894, col: 11, offset: 91366},
+																						pos: position{line: 2894, col: 11, offset: 91495},
 																						expr: &anyMatcher{
-																							line: 2894, col: 13, offset: 91368,
+																							line: 2894, col: 13, offset: 91497,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26204},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2823, col: 13, offset: 89558},
+																							pos: position{line: 2823, col: 13, offset: 89687},
 																							run: (*parser).callonListContinuationElement804,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2823, col: 13, offset: 89558},
+																								pos: position{line: 2823, col: 13, offset: 89687},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2823, col: 13, offset: 89558},
+																									pos:        position{line: 2823, col: 13, offset: 89687},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33353,28 +33353,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91430},
+																						pos: position{line: 2899, col: 8, offset: 91559},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91203},
+																								pos: position{line: 2886, col: 12, offset: 91332},
 																								run: (*parser).callonListContinuationElement808,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91204},
+																									pos: position{line: 2886, col: 13, offset: 91333},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91204},
+																											pos:        position{line: 2886, col: 13, offset: 91333},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91211},
+																											pos:        position{line: 2886, col: 20, offset: 91340},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91220},
+																											pos:        position{line: 2886, col: 29, offset: 91349},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33383,9 +33383,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91380},
+																								pos: position{line: 2896, col: 8, offset: 91509},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91381,
+																									line: 2896, col: 9, offset: 91510,
 																								},
 																							},
 																						},
@@ -33450,10 +33450,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 785, col: 8, offset: 25235},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91032},
+																								pos: position{line: 2877, col: 10, offset: 91161},
 																								run: (*parser).callonListContinuationElement829,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91032},
+																									pos:        position{line: 2877, col: 10, offset: 91161},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33462,28 +33462,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91430},
+																							pos: position{line: 2899, col: 8, offset: 91559},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91203},
+																									pos: position{line: 2886, col: 12, offset: 91332},
 																									run: (*parser).callonListContinuationElement832,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91204},
+																										pos: position{line: 2886, col: 13, offset: 91333},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91204},
+																												pos:        position{line: 2886, col: 13, offset: 91333},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91211},
+																												pos:        position{line: 2886, col: 20, offset: 91340},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91220},
+																												pos:        position{line: 2886, col: 29, offset: 91349},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33492,9 +33492,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91380},
+																									pos: position{line: 2896, col: 8, offset: 91509},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91381,
+																										line: 2896, col: 9, offset: 91510,
 																									},
 																								},
 																							},
@@ -33510,9 +33510,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2896, col: 8, offset: 91380},
+																	pos: position{line: 2896, col: 8, offset: 91509},
 																	expr: &anyMatcher{
-																		line: 2896, col: 9, offset: 91381,
+																		line: 2896, col: 9, offset: 91510,
 																	},
 																},
 															},
@@ -33546,18 +33546,18 @@ var g = &grammar{
 																			pos: position{line: 677, col: 14, offset: 21525},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2894, col: 11, offset: 91366},
+																					pos: position{line: 2894, col: 11, offset: 91495},
 																					expr: &anyMatcher{
-																						line: 2894, col: 13, offset: 91368,
+																						line: 2894, col: 13, offset: 91497,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21532},
 																					expr: &actionExpr{
-																						pos: position{line: 2877, col: 10, offset: 91032},
+																						pos: position{line: 2877, col: 10, offset: 91161},
 																						run: (*parser).callonListContinuationElement853,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2877, col: 10, offset: 91032},
+																							pos:        position{line: 2877, col: 10, offset: 91161},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -33566,28 +33566,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2899, col: 8, offset: 91430},
+																					pos: position{line: 2899, col: 8, offset: 91559},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2886, col: 12, offset: 91203},
+																							pos: position{line: 2886, col: 12, offset: 91332},
 																							run: (*parser).callonListContinuationElement856,
 																							expr: &choiceExpr{
-																								pos: position{line: 2886, col: 13, offset: 91204},
+																								pos: position{line: 2886, col: 13, offset: 91333},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 13, offset: 91204},
+																										pos:        position{line: 2886, col: 13, offset: 91333},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 20, offset: 91211},
+																										pos:        position{line: 2886, col: 20, offset: 91340},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 29, offset: 91220},
+																										pos:        position{line: 2886, col: 29, offset: 91349},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -33596,9 +33596,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2896, col: 8, offset: 91380},
+																							pos: position{line: 2896, col: 8, offset: 91509},
 																							expr: &anyMatcher{
-																								line: 2896, col: 9, offset: 91381,
+																								line: 2896, col: 9, offset: 91510,
 																							},
 																						},
 																					},
@@ -33617,12 +33617,12 @@ var g = &grammar{
 																	pos:   position{line: 984, col: 5, offset: 30725},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2827, col: 14, offset: 89625},
+																		pos: position{line: 2827, col: 14, offset: 89754},
 																		run: (*parser).callonListContinuationElement865,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2827, col: 14, offset: 89625},
+																			pos: position{line: 2827, col: 14, offset: 89754},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2827, col: 14, offset: 89625},
+																				pos:        position{line: 2827, col: 14, offset: 89754},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -33632,28 +33632,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91430},
+																	pos: position{line: 2899, col: 8, offset: 91559},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91203},
+																			pos: position{line: 2886, col: 12, offset: 91332},
 																			run: (*parser).callonListContinuationElement869,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91204},
+																				pos: position{line: 2886, col: 13, offset: 91333},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91204},
+																						pos:        position{line: 2886, col: 13, offset: 91333},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91211},
+																						pos:        position{line: 2886, col: 20, offset: 91340},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91220},
+																						pos:        position{line: 2886, col: 29, offset: 91349},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33662,9 +33662,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91380},
+																			pos: position{line: 2896, col: 8, offset: 91509},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91381,
+																				line: 2896, col: 9, offset: 91510,
 																			},
 																		},
 																	},
@@ -33696,18 +33696,18 @@ var g = &grammar{
 																						pos: position{line: 677, col: 14, offset: 21525},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2894, col: 11, offset: 91366},
+																								pos: position{line: 2894, col: 11, offset: 91495},
 																								expr: &anyMatcher{
-																									line: 2894, col: 13, offset: 91368,
+																									line: 2894, col: 13, offset: 91497,
 																								},
 																							},
 																							&zeroOrMoreExpr{
 																								pos: position{line: 677, col: 21, offset: 21532},
 																								expr: &actionExpr{
-																									pos: position{line: 2877, col: 10, offset: 91032},
+																									pos: position{line: 2877, col: 10, offset: 91161},
 																									run: (*parser).callonListContinuationElement887,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 10, offset: 91032},
+																										pos:        position{line: 2877, col: 10, offset: 91161},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33716,28 +33716,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2899, col: 8, offset: 91430},
+																								pos: position{line: 2899, col: 8, offset: 91559},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2886, col: 12, offset: 91203},
+																										pos: position{line: 2886, col: 12, offset: 91332},
 																										run: (*parser).callonListContinuationElement890,
 																										expr: &choiceExpr{
-																											pos: position{line: 2886, col: 13, offset: 91204},
+																											pos: position{line: 2886, col: 13, offset: 91333},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 13, offset: 91204},
+																													pos:        position{line: 2886, col: 13, offset: 91333},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 20, offset: 91211},
+																													pos:        position{line: 2886, col: 20, offset: 91340},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 29, offset: 91220},
+																													pos:        position{line: 2886, col: 29, offset: 91349},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33746,9 +33746,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2896, col: 8, offset: 91380},
+																										pos: position{line: 2896, col: 8, offset: 91509},
 																										expr: &anyMatcher{
-																											line: 2896, col: 9, offset: 91381,
+																											line: 2896, col: 9, offset: 91510,
 																										},
 																									},
 																								},
@@ -33767,12 +33767,12 @@ var g = &grammar{
 																				pos:   position{line: 984, col: 5, offset: 30725},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2827, col: 14, offset: 89625},
+																					pos: position{line: 2827, col: 14, offset: 89754},
 																					run: (*parser).callonListContinuationElement899,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2827, col: 14, offset: 89625},
+																						pos: position{line: 2827, col: 14, offset: 89754},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2827, col: 14, offset: 89625},
+																							pos:        position{line: 2827, col: 14, offset: 89754},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33782,28 +33782,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2899, col: 8, offset: 91430},
+																				pos: position{line: 2899, col: 8, offset: 91559},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2886, col: 12, offset: 91203},
+																						pos: position{line: 2886, col: 12, offset: 91332},
 																						run: (*parser).callonListContinuationElement903,
 																						expr: &choiceExpr{
-																							pos: position{line: 2886, col: 13, offset: 91204},
+																							pos: position{line: 2886, col: 13, offset: 91333},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2886, col: 13, offset: 91204},
+																									pos:        position{line: 2886, col: 13, offset: 91333},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2886, col: 20, offset: 91211},
+																									pos:        position{line: 2886, col: 20, offset: 91340},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2886, col: 29, offset: 91220},
+																									pos:        position{line: 2886, col: 29, offset: 91349},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33812,9 +33812,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2896, col: 8, offset: 91380},
+																						pos: position{line: 2896, col: 8, offset: 91509},
 																						expr: &anyMatcher{
-																							line: 2896, col: 9, offset: 91381,
+																							line: 2896, col: 9, offset: 91510,
 																						},
 																					},
 																				},
@@ -33823,21 +33823,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1796, col: 5, offset: 58106},
+																	pos: position{line: 1796, col: 5, offset: 58235},
 																	run: (*parser).callonListContinuationElement910,
 																	expr: &seqExpr{
-																		pos: position{line: 1796, col: 5, offset: 58106},
+																		pos: position{line: 1796, col: 5, offset: 58235},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1796, col: 5, offset: 58106},
+																				pos:   position{line: 1796, col: 5, offset: 58235},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2827, col: 14, offset: 89625},
+																					pos: position{line: 2827, col: 14, offset: 89754},
 																					run: (*parser).callonListContinuationElement913,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2827, col: 14, offset: 89625},
+																						pos: position{line: 2827, col: 14, offset: 89754},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2827, col: 14, offset: 89625},
+																							pos:        position{line: 2827, col: 14, offset: 89754},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33847,32 +33847,32 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1797, col: 5, offset: 58130},
+																				pos: position{line: 1797, col: 5, offset: 58259},
 																				run: (*parser).callonListContinuationElement916,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2899, col: 8, offset: 91430},
+																				pos: position{line: 2899, col: 8, offset: 91559},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2886, col: 12, offset: 91203},
+																						pos: position{line: 2886, col: 12, offset: 91332},
 																						run: (*parser).callonListContinuationElement918,
 																						expr: &choiceExpr{
-																							pos: position{line: 2886, col: 13, offset: 91204},
+																							pos: position{line: 2886, col: 13, offset: 91333},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2886, col: 13, offset: 91204},
+																									pos:        position{line: 2886, col: 13, offset: 91333},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2886, col: 20, offset: 91211},
+																									pos:        position{line: 2886, col: 20, offset: 91340},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2886, col: 29, offset: 91220},
+																									pos:        position{line: 2886, col: 29, offset: 91349},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33881,9 +33881,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2896, col: 8, offset: 91380},
+																						pos: position{line: 2896, col: 8, offset: 91509},
 																						expr: &anyMatcher{
-																							line: 2896, col: 9, offset: 91381,
+																							line: 2896, col: 9, offset: 91510,
 																						},
 																					},
 																				},
@@ -33930,10 +33930,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 778, col: 8, offset: 24990},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91032},
+																		pos: position{line: 2877, col: 10, offset: 91161},
 																		run: (*parser).callonListContinuationElement934,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91032},
+																			pos:        position{line: 2877, col: 10, offset: 91161},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33942,28 +33942,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91430},
+																	pos: position{line: 2899, col: 8, offset: 91559},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91203},
+																			pos: position{line: 2886, col: 12, offset: 91332},
 																			run: (*parser).callonListContinuationElement937,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91204},
+																				pos: position{line: 2886, col: 13, offset: 91333},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91204},
+																						pos:        position{line: 2886, col: 13, offset: 91333},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91211},
+																						pos:        position{line: 2886, col: 20, offset: 91340},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91220},
+																						pos:        position{line: 2886, col: 29, offset: 91349},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33972,9 +33972,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91380},
+																			pos: position{line: 2896, col: 8, offset: 91509},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91381,
+																				line: 2896, col: 9, offset: 91510,
 																			},
 																		},
 																	},
@@ -34022,10 +34022,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 778, col: 8, offset: 24990},
 																								expr: &actionExpr{
-																									pos: position{line: 2877, col: 10, offset: 91032},
+																									pos: position{line: 2877, col: 10, offset: 91161},
 																									run: (*parser).callonListContinuationElement956,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 10, offset: 91032},
+																										pos:        position{line: 2877, col: 10, offset: 91161},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -34034,28 +34034,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2899, col: 8, offset: 91430},
+																								pos: position{line: 2899, col: 8, offset: 91559},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2886, col: 12, offset: 91203},
+																										pos: position{line: 2886, col: 12, offset: 91332},
 																										run: (*parser).callonListContinuationElement959,
 																										expr: &choiceExpr{
-																											pos: position{line: 2886, col: 13, offset: 91204},
+																											pos: position{line: 2886, col: 13, offset: 91333},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 13, offset: 91204},
+																													pos:        position{line: 2886, col: 13, offset: 91333},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 20, offset: 91211},
+																													pos:        position{line: 2886, col: 20, offset: 91340},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 29, offset: 91220},
+																													pos:        position{line: 2886, col: 29, offset: 91349},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34064,9 +34064,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2896, col: 8, offset: 91380},
+																										pos: position{line: 2896, col: 8, offset: 91509},
 																										expr: &anyMatcher{
-																											line: 2896, col: 9, offset: 91381,
+																											line: 2896, col: 9, offset: 91510,
 																										},
 																									},
 																								},
@@ -34075,9 +34075,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91380},
+																					pos: position{line: 2896, col: 8, offset: 91509},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91381,
+																						line: 2896, col: 9, offset: 91510,
 																					},
 																				},
 																			},
@@ -34093,21 +34093,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26129},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2894, col: 11, offset: 91366},
+																						pos: position{line: 2894, col: 11, offset: 91495},
 																						expr: &anyMatcher{
-																							line: 2894, col: 13, offset: 91368,
+																							line: 2894, col: 13, offset: 91497,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26204},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2823, col: 13, offset: 89558},
+																							pos: position{line: 2823, col: 13, offset: 89687},
 																							run: (*parser).callonListContinuationElement974,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2823, col: 13, offset: 89558},
+																								pos: position{line: 2823, col: 13, offset: 89687},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2823, col: 13, offset: 89558},
+																									pos:        position{line: 2823, col: 13, offset: 89687},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34117,28 +34117,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91430},
+																						pos: position{line: 2899, col: 8, offset: 91559},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91203},
+																								pos: position{line: 2886, col: 12, offset: 91332},
 																								run: (*parser).callonListContinuationElement978,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91204},
+																									pos: position{line: 2886, col: 13, offset: 91333},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91204},
+																											pos:        position{line: 2886, col: 13, offset: 91333},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91211},
+																											pos:        position{line: 2886, col: 20, offset: 91340},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91220},
+																											pos:        position{line: 2886, col: 29, offset: 91349},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34147,9 +34147,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91380},
+																								pos: position{line: 2896, col: 8, offset: 91509},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91381,
+																									line: 2896, col: 9, offset: 91510,
 																								},
 																							},
 																						},
@@ -34194,10 +34194,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 778, col: 8, offset: 24990},
 																				expr: &actionExpr{
-																					pos: position{line: 2877, col: 10, offset: 91032},
+																					pos: position{line: 2877, col: 10, offset: 91161},
 																					run: (*parser).callonListContinuationElement994,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2877, col: 10, offset: 91032},
+																						pos:        position{line: 2877, col: 10, offset: 91161},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -34206,28 +34206,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2899, col: 8, offset: 91430},
+																				pos: position{line: 2899, col: 8, offset: 91559},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2886, col: 12, offset: 91203},
+																						pos: position{line: 2886, col: 12, offset: 91332},
 																						run: (*parser).callonListContinuationElement997,
 																						expr: &choiceExpr{
-																							pos: position{line: 2886, col: 13, offset: 91204},
+																							pos: position{line: 2886, col: 13, offset: 91333},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2886, col: 13, offset: 91204},
+																									pos:        position{line: 2886, col: 13, offset: 91333},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2886, col: 20, offset: 91211},
+																									pos:        position{line: 2886, col: 20, offset: 91340},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2886, col: 29, offset: 91220},
+																									pos:        position{line: 2886, col: 29, offset: 91349},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34236,9 +34236,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2896, col: 8, offset: 91380},
+																						pos: position{line: 2896, col: 8, offset: 91509},
 																						expr: &anyMatcher{
-																							line: 2896, col: 9, offset: 91381,
+																							line: 2896, col: 9, offset: 91510,
 																						},
 																					},
 																				},
@@ -34247,9 +34247,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2896, col: 8, offset: 91380},
+																	pos: position{line: 2896, col: 8, offset: 91509},
 																	expr: &anyMatcher{
-																		line: 2896, col: 9, offset: 91381,
+																		line: 2896, col: 9, offset: 91510,
 																	},
 																},
 															},
@@ -34305,10 +34305,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 792, col: 8, offset: 25487},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91032},
+																		pos: position{line: 2877, col: 10, offset: 91161},
 																		run: (*parser).callonListContinuationElement1018,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91032},
+																			pos:        position{line: 2877, col: 10, offset: 91161},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34317,28 +34317,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91430},
+																	pos: position{line: 2899, col: 8, offset: 91559},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91203},
+																			pos: position{line: 2886, col: 12, offset: 91332},
 																			run: (*parser).callonListContinuationElement1021,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91204},
+																				pos: position{line: 2886, col: 13, offset: 91333},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91204},
+																						pos:        position{line: 2886, col: 13, offset: 91333},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91211},
+																						pos:        position{line: 2886, col: 20, offset: 91340},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91220},
+																						pos:        position{line: 2886, col: 29, offset: 91349},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34347,9 +34347,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91380},
+																			pos: position{line: 2896, col: 8, offset: 91509},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91381,
+																				line: 2896, col: 9, offset: 91510,
 																			},
 																		},
 																	},
@@ -34421,10 +34421,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 792, col: 8, offset: 25487},
 																											expr: &actionExpr{
-																												pos: position{line: 2877, col: 10, offset: 91032},
+																												pos: position{line: 2877, col: 10, offset: 91161},
 																												run: (*parser).callonListContinuationElement1046,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2877, col: 10, offset: 91032},
+																													pos:        position{line: 2877, col: 10, offset: 91161},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34433,28 +34433,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91430},
+																											pos: position{line: 2899, col: 8, offset: 91559},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91203},
+																													pos: position{line: 2886, col: 12, offset: 91332},
 																													run: (*parser).callonListContinuationElement1049,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91204},
+																														pos: position{line: 2886, col: 13, offset: 91333},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91204},
+																																pos:        position{line: 2886, col: 13, offset: 91333},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91211},
+																																pos:        position{line: 2886, col: 20, offset: 91340},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91220},
+																																pos:        position{line: 2886, col: 29, offset: 91349},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34463,9 +34463,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91380},
+																													pos: position{line: 2896, col: 8, offset: 91509},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91381,
+																														line: 2896, col: 9, offset: 91510,
 																													},
 																												},
 																											},
@@ -34481,9 +34481,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91380},
+																					pos: position{line: 2896, col: 8, offset: 91509},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91381,
+																						line: 2896, col: 9, offset: 91510,
 																					},
 																				},
 																			},
@@ -34499,21 +34499,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26129},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2894, col: 11, offset: 91366},
+																						pos: position{line: 2894, col: 11, offset: 91495},
 																						expr: &anyMatcher{
-																							line: 2894, col: 13, offset: 91368,
+																							line: 2894, col: 13, offset: 91497,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26204},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2823, col: 13, offset: 89558},
+																							pos: position{line: 2823, col: 13, offset: 89687},
 																							run: (*parser).callonListContinuationElement1065,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2823, col: 13, offset: 89558},
+																								pos: position{line: 2823, col: 13, offset: 89687},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2823, col: 13, offset: 89558},
+																									pos:        position{line: 2823, col: 13, offset: 89687},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34523,28 +34523,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91430},
+																						pos: position{line: 2899, col: 8, offset: 91559},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91203},
+																								pos: position{line: 2886, col: 12, offset: 91332},
 																								run: (*parser).callonListContinuationElement1069,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91204},
+																									pos: position{line: 2886, col: 13, offset: 91333},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91204},
+																											pos:        position{line: 2886, col: 13, offset: 91333},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91211},
+																											pos:        position{line: 2886, col: 20, offset: 91340},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91220},
+																											pos:        position{line: 2886, col: 29, offset: 91349},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34553,9 +34553,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91380},
+																								pos: position{line: 2896, col: 8, offset: 91509},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91381,
+																									line: 2896, col: 9, offset: 91510,
 																								},
 																							},
 																						},
@@ -34620,10 +34620,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 792, col: 8, offset: 25487},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91032},
+																								pos: position{line: 2877, col: 10, offset: 91161},
 																								run: (*parser).callonListContinuationElement1090,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91032},
+																									pos:        position{line: 2877, col: 10, offset: 91161},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34632,28 +34632,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91430},
+																							pos: position{line: 2899, col: 8, offset: 91559},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91203},
+																									pos: position{line: 2886, col: 12, offset: 91332},
 																									run: (*parser).callonListContinuationElement1093,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91204},
+																										pos: position{line: 2886, col: 13, offset: 91333},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91204},
+																												pos:        position{line: 2886, col: 13, offset: 91333},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91211},
+																												pos:        position{line: 2886, col: 20, offset: 91340},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91220},
+																												pos:        position{line: 2886, col: 29, offset: 91349},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34662,9 +34662,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91380},
+																									pos: position{line: 2896, col: 8, offset: 91509},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91381,
+																										line: 2896, col: 9, offset: 91510,
 																									},
 																								},
 																							},
@@ -34680,9 +34680,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2896, col: 8, offset: 91380},
+																	pos: position{line: 2896, col: 8, offset: 91509},
 																	expr: &anyMatcher{
-																		line: 2896, col: 9, offset: 91381,
+																		line: 2896, col: 9, offset: 91510,
 																	},
 																},
 															},
@@ -34738,10 +34738,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 799, col: 8, offset: 25737},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91032},
+																		pos: position{line: 2877, col: 10, offset: 91161},
 																		run: (*parser).callonListContinuationElement1115,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91032},
+																			pos:        position{line: 2877, col: 10, offset: 91161},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34750,28 +34750,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91430},
+																	pos: position{line: 2899, col: 8, offset: 91559},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91203},
+																			pos: position{line: 2886, col: 12, offset: 91332},
 																			run: (*parser).callonListContinuationElement1118,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91204},
+																				pos: position{line: 2886, col: 13, offset: 91333},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91204},
+																						pos:        position{line: 2886, col: 13, offset: 91333},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91211},
+																						pos:        position{line: 2886, col: 20, offset: 91340},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91220},
+																						pos:        position{line: 2886, col: 29, offset: 91349},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34780,9 +34780,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91380},
+																			pos: position{line: 2896, col: 8, offset: 91509},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91381,
+																				line: 2896, col: 9, offset: 91510,
 																			},
 																		},
 																	},
@@ -34854,10 +34854,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 799, col: 8, offset: 25737},
 																											expr: &actionExpr{
-																												pos: position{line: 2877, col: 10, offset: 91032},
+																												pos: position{line: 2877, col: 10, offset: 91161},
 																												run: (*parser).callonListContinuationElement1143,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2877, col: 10, offset: 91032},
+																													pos:        position{line: 2877, col: 10, offset: 91161},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34866,28 +34866,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91430},
+																											pos: position{line: 2899, col: 8, offset: 91559},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91203},
+																													pos: position{line: 2886, col: 12, offset: 91332},
 																													run: (*parser).callonListContinuationElement1146,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91204},
+																														pos: position{line: 2886, col: 13, offset: 91333},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91204},
+																																pos:        position{line: 2886, col: 13, offset: 91333},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91211},
+																																pos:        position{line: 2886, col: 20, offset: 91340},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91220},
+																																pos:        position{line: 2886, col: 29, offset: 91349},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34896,9 +34896,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91380},
+																													pos: position{line: 2896, col: 8, offset: 91509},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91381,
+																														line: 2896, col: 9, offset: 91510,
 																													},
 																												},
 																											},
@@ -34914,9 +34914,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91380},
+																					pos: position{line: 2896, col: 8, offset: 91509},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91381,
+																						line: 2896, col: 9, offset: 91510,
 																					},
 																				},
 																			},
@@ -34932,21 +34932,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26129},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2894, col: 11, offset: 91366},
+																						pos: position{line: 2894, col: 11, offset: 91495},
 																						expr: &anyMatcher{
-																							line: 2894, col: 13, offset: 91368,
+																							line: 2894, col: 13, offset: 91497,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26204},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2823, col: 13, offset: 89558},
+																							pos: position{line: 2823, col: 13, offset: 89687},
 																							run: (*parser).callonListContinuationElement1162,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2823, col: 13, offset: 89558},
+																								pos: position{line: 2823, col: 13, offset: 89687},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2823, col: 13, offset: 89558},
+																									pos:        position{line: 2823, col: 13, offset: 89687},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34956,28 +34956,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91430},
+																						pos: position{line: 2899, col: 8, offset: 91559},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91203},
+																								pos: position{line: 2886, col: 12, offset: 91332},
 																								run: (*parser).callonListContinuationElement1166,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91204},
+																									pos: position{line: 2886, col: 13, offset: 91333},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91204},
+																											pos:        position{line: 2886, col: 13, offset: 91333},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91211},
+																											pos:        position{line: 2886, col: 20, offset: 91340},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91220},
+																											pos:        position{line: 2886, col: 29, offset: 91349},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34986,9 +34986,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91380},
+																								pos: position{line: 2896, col: 8, offset: 91509},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91381,
+																									line: 2896, col: 9, offset: 91510,
 																								},
 																							},
 																						},
@@ -35053,10 +35053,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 799, col: 8, offset: 25737},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91032},
+																								pos: position{line: 2877, col: 10, offset: 91161},
 																								run: (*parser).callonListContinuationElement1187,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91032},
+																									pos:        position{line: 2877, col: 10, offset: 91161},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35065,28 +35065,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91430},
+																							pos: position{line: 2899, col: 8, offset: 91559},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91203},
+																									pos: position{line: 2886, col: 12, offset: 91332},
 																									run: (*parser).callonListContinuationElement1190,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91204},
+																										pos: position{line: 2886, col: 13, offset: 91333},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91204},
+																												pos:        position{line: 2886, col: 13, offset: 91333},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91211},
+																												pos:        position{line: 2886, col: 20, offset: 91340},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91220},
+																												pos:        position{line: 2886, col: 29, offset: 91349},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35095,9 +35095,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91380},
+																									pos: position{line: 2896, col: 8, offset: 91509},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91381,
+																										line: 2896, col: 9, offset: 91510,
 																									},
 																								},
 																							},
@@ -35113,9 +35113,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2896, col: 8, offset: 91380},
+																	pos: position{line: 2896, col: 8, offset: 91509},
 																	expr: &anyMatcher{
-																		line: 2896, col: 9, offset: 91381,
+																		line: 2896, col: 9, offset: 91510,
 																	},
 																},
 															},
@@ -35171,10 +35171,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 806, col: 8, offset: 25983},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91032},
+																		pos: position{line: 2877, col: 10, offset: 91161},
 																		run: (*parser).callonListContinuationElement1212,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91032},
+																			pos:        position{line: 2877, col: 10, offset: 91161},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35183,28 +35183,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91430},
+																	pos: position{line: 2899, col: 8, offset: 91559},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91203},
+																			pos: position{line: 2886, col: 12, offset: 91332},
 																			run: (*parser).callonListContinuationElement1215,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91204},
+																				pos: position{line: 2886, col: 13, offset: 91333},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91204},
+																						pos:        position{line: 2886, col: 13, offset: 91333},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91211},
+																						pos:        position{line: 2886, col: 20, offset: 91340},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91220},
+																						pos:        position{line: 2886, col: 29, offset: 91349},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35213,9 +35213,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91380},
+																			pos: position{line: 2896, col: 8, offset: 91509},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91381,
+																				line: 2896, col: 9, offset: 91510,
 																			},
 																		},
 																	},
@@ -35287,10 +35287,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 806, col: 8, offset: 25983},
 																											expr: &actionExpr{
-																												pos: position{line: 2877, col: 10, offset: 91032},
+																												pos: position{line: 2877, col: 10, offset: 91161},
 																												run: (*parser).callonListContinuationElement1240,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2877, col: 10, offset: 91032},
+																													pos:        position{line: 2877, col: 10, offset: 91161},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35299,28 +35299,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91430},
+																											pos: position{line: 2899, col: 8, offset: 91559},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91203},
+																													pos: position{line: 2886, col: 12, offset: 91332},
 																													run: (*parser).callonListContinuationElement1243,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91204},
+																														pos: position{line: 2886, col: 13, offset: 91333},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91204},
+																																pos:        position{line: 2886, col: 13, offset: 91333},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91211},
+																																pos:        position{line: 2886, col: 20, offset: 91340},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91220},
+																																pos:        position{line: 2886, col: 29, offset: 91349},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35329,9 +35329,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91380},
+																													pos: position{line: 2896, col: 8, offset: 91509},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91381,
+																														line: 2896, col: 9, offset: 91510,
 																													},
 																												},
 																											},
@@ -35347,9 +35347,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91380},
+																					pos: position{line: 2896, col: 8, offset: 91509},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91381,
+																						line: 2896, col: 9, offset: 91510,
 																					},
 																				},
 																			},
@@ -35365,21 +35365,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26129},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2894, col: 11, offset: 91366},
+																						pos: position{line: 2894, col: 11, offset: 91495},
 																						expr: &anyMatcher{
-																							line: 2894, col: 13, offset: 91368,
+																							line: 2894, col: 13, offset: 91497,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26204},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2823, col: 13, offset: 89558},
+																							pos: position{line: 2823, col: 13, offset: 89687},
 																							run: (*parser).callonListContinuationElement1259,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2823, col: 13, offset: 89558},
+																								pos: position{line: 2823, col: 13, offset: 89687},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2823, col: 13, offset: 89558},
+																									pos:        position{line: 2823, col: 13, offset: 89687},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35389,28 +35389,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91430},
+																						pos: position{line: 2899, col: 8, offset: 91559},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91203},
+																								pos: position{line: 2886, col: 12, offset: 91332},
 																								run: (*parser).callonListContinuationElement1263,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91204},
+																									pos: position{line: 2886, col: 13, offset: 91333},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91204},
+																											pos:        position{line: 2886, col: 13, offset: 91333},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91211},
+																											pos:        position{line: 2886, col: 20, offset: 91340},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91220},
+																											pos:        position{line: 2886, col: 29, offset: 91349},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35419,9 +35419,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91380},
+																								pos: position{line: 2896, col: 8, offset: 91509},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91381,
+																									line: 2896, col: 9, offset: 91510,
 																								},
 																							},
 																						},
@@ -35486,10 +35486,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 806, col: 8, offset: 25983},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91032},
+																								pos: position{line: 2877, col: 10, offset: 91161},
 																								run: (*parser).callonListContinuationElement1284,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91032},
+																									pos:        position{line: 2877, col: 10, offset: 91161},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35498,28 +35498,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91430},
+																							pos: position{line: 2899, col: 8, offset: 91559},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91203},
+																									pos: position{line: 2886, col: 12, offset: 91332},
 																									run: (*parser).callonListContinuationElement1287,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91204},
+																										pos: position{line: 2886, col: 13, offset: 91333},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91204},
+																												pos:        position{line: 2886, col: 13, offset: 91333},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91211},
+																												pos:        position{line: 2886, col: 20, offset: 91340},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91220},
+																												pos:        position{line: 2886, col: 29, offset: 91349},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35528,9 +35528,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91380},
+																									pos: position{line: 2896, col: 8, offset: 91509},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91381,
+																										line: 2896, col: 9, offset: 91510,
 																									},
 																								},
 																							},
@@ -35546,9 +35546,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2896, col: 8, offset: 91380},
+																	pos: position{line: 2896, col: 8, offset: 91509},
 																	expr: &anyMatcher{
-																		line: 2896, col: 9, offset: 91381,
+																		line: 2896, col: 9, offset: 91510,
 																	},
 																},
 															},
@@ -35559,52 +35559,52 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2722, col: 18, offset: 86606},
+										pos: position{line: 2722, col: 18, offset: 86735},
 										run: (*parser).callonListContinuationElement1297,
 										expr: &seqExpr{
-											pos: position{line: 2722, col: 18, offset: 86606},
+											pos: position{line: 2722, col: 18, offset: 86735},
 											exprs: []interface{}{
 												&choiceExpr{
-													pos: position{line: 2723, col: 9, offset: 86616},
+													pos: position{line: 2723, col: 9, offset: 86745},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2723, col: 9, offset: 86616},
+															pos:        position{line: 2723, col: 9, offset: 86745},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2724, col: 11, offset: 86652},
+															pos:        position{line: 2724, col: 11, offset: 86781},
 															val:        "***",
 															ignoreCase: false,
 															want:       "\"***\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2724, col: 19, offset: 86660},
+															pos:        position{line: 2724, col: 19, offset: 86789},
 															val:        "* * *",
 															ignoreCase: false,
 															want:       "\"* * *\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2724, col: 29, offset: 86670},
+															pos:        position{line: 2724, col: 29, offset: 86799},
 															val:        "---",
 															ignoreCase: false,
 															want:       "\"---\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2724, col: 37, offset: 86678},
+															pos:        position{line: 2724, col: 37, offset: 86807},
 															val:        "- - -",
 															ignoreCase: false,
 															want:       "\"- - -\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2724, col: 47, offset: 86688},
+															pos:        position{line: 2724, col: 47, offset: 86817},
 															val:        "___",
 															ignoreCase: false,
 															want:       "\"___\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2724, col: 55, offset: 86696},
+															pos:        position{line: 2724, col: 55, offset: 86825},
 															val:        "_ _ _",
 															ignoreCase: false,
 															want:       "\"_ _ _\"",
@@ -35612,12 +35612,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2725, col: 11, offset: 86742},
+													pos: position{line: 2725, col: 11, offset: 86871},
 													expr: &actionExpr{
-														pos: position{line: 2877, col: 10, offset: 91032},
+														pos: position{line: 2877, col: 10, offset: 91161},
 														run: (*parser).callonListContinuationElement1308,
 														expr: &charClassMatcher{
-															pos:        position{line: 2877, col: 10, offset: 91032},
+															pos:        position{line: 2877, col: 10, offset: 91161},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35626,28 +35626,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2899, col: 8, offset: 91430},
+													pos: position{line: 2899, col: 8, offset: 91559},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2886, col: 12, offset: 91203},
+															pos: position{line: 2886, col: 12, offset: 91332},
 															run: (*parser).callonListContinuationElement1311,
 															expr: &choiceExpr{
-																pos: position{line: 2886, col: 13, offset: 91204},
+																pos: position{line: 2886, col: 13, offset: 91333},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 13, offset: 91204},
+																		pos:        position{line: 2886, col: 13, offset: 91333},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 20, offset: 91211},
+																		pos:        position{line: 2886, col: 20, offset: 91340},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 29, offset: 91220},
+																		pos:        position{line: 2886, col: 29, offset: 91349},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35656,20 +35656,20 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2896, col: 8, offset: 91380},
+															pos: position{line: 2896, col: 8, offset: 91509},
 															expr: &anyMatcher{
-																line: 2896, col: 9, offset: 91381,
+																line: 2896, col: 9, offset: 91510,
 															},
 														},
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2725, col: 22, offset: 86753},
+													pos: position{line: 2725, col: 22, offset: 86882},
 													expr: &actionExpr{
-														pos: position{line: 2877, col: 10, offset: 91032},
+														pos: position{line: 2877, col: 10, offset: 91161},
 														run: (*parser).callonListContinuationElement1319,
 														expr: &charClassMatcher{
-															pos:        position{line: 2877, col: 10, offset: 91032},
+															pos:        position{line: 2877, col: 10, offset: 91161},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35678,28 +35678,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2899, col: 8, offset: 91430},
+													pos: position{line: 2899, col: 8, offset: 91559},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2886, col: 12, offset: 91203},
+															pos: position{line: 2886, col: 12, offset: 91332},
 															run: (*parser).callonListContinuationElement1322,
 															expr: &choiceExpr{
-																pos: position{line: 2886, col: 13, offset: 91204},
+																pos: position{line: 2886, col: 13, offset: 91333},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 13, offset: 91204},
+																		pos:        position{line: 2886, col: 13, offset: 91333},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 20, offset: 91211},
+																		pos:        position{line: 2886, col: 20, offset: 91340},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 29, offset: 91220},
+																		pos:        position{line: 2886, col: 29, offset: 91349},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35708,9 +35708,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2896, col: 8, offset: 91380},
+															pos: position{line: 2896, col: 8, offset: 91509},
 															expr: &anyMatcher{
-																line: 2896, col: 9, offset: 91381,
+																line: 2896, col: 9, offset: 91510,
 															},
 														},
 													},
@@ -35719,28 +35719,28 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1559, col: 11, offset: 50451},
+										pos:  position{line: 1559, col: 11, offset: 50580},
 										name: "ImageBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2613, col: 5, offset: 83542},
+										pos: position{line: 2613, col: 5, offset: 83671},
 										run: (*parser).callonListContinuationElement1330,
 										expr: &seqExpr{
-											pos: position{line: 2613, col: 5, offset: 83542},
+											pos: position{line: 2613, col: 5, offset: 83671},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2619, col: 19, offset: 83699},
+													pos:        position{line: 2619, col: 19, offset: 83828},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2619, col: 26, offset: 83706},
+													pos: position{line: 2619, col: 26, offset: 83835},
 													expr: &actionExpr{
-														pos: position{line: 2877, col: 10, offset: 91032},
+														pos: position{line: 2877, col: 10, offset: 91161},
 														run: (*parser).callonListContinuationElement1334,
 														expr: &charClassMatcher{
-															pos:        position{line: 2877, col: 10, offset: 91032},
+															pos:        position{line: 2877, col: 10, offset: 91161},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35749,28 +35749,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2899, col: 8, offset: 91430},
+													pos: position{line: 2899, col: 8, offset: 91559},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2886, col: 12, offset: 91203},
+															pos: position{line: 2886, col: 12, offset: 91332},
 															run: (*parser).callonListContinuationElement1337,
 															expr: &choiceExpr{
-																pos: position{line: 2886, col: 13, offset: 91204},
+																pos: position{line: 2886, col: 13, offset: 91333},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 13, offset: 91204},
+																		pos:        position{line: 2886, col: 13, offset: 91333},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 20, offset: 91211},
+																		pos:        position{line: 2886, col: 20, offset: 91340},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 29, offset: 91220},
+																		pos:        position{line: 2886, col: 29, offset: 91349},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35779,20 +35779,20 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2896, col: 8, offset: 91380},
+															pos: position{line: 2896, col: 8, offset: 91509},
 															expr: &anyMatcher{
-																line: 2896, col: 9, offset: 91381,
+																line: 2896, col: 9, offset: 91510,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2614, col: 5, offset: 83566},
+													pos:   position{line: 2614, col: 5, offset: 83695},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2614, col: 11, offset: 83572},
+														pos: position{line: 2614, col: 11, offset: 83701},
 														expr: &choiceExpr{
-															pos: position{line: 2614, col: 12, offset: 83573},
+															pos: position{line: 2614, col: 12, offset: 83702},
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 677, col: 14, offset: 21525},
@@ -35801,18 +35801,18 @@ var g = &grammar{
 																		pos: position{line: 677, col: 14, offset: 21525},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2894, col: 11, offset: 91366},
+																				pos: position{line: 2894, col: 11, offset: 91495},
 																				expr: &anyMatcher{
-																					line: 2894, col: 13, offset: 91368,
+																					line: 2894, col: 13, offset: 91497,
 																				},
 																			},
 																			&zeroOrMoreExpr{
 																				pos: position{line: 677, col: 21, offset: 21532},
 																				expr: &actionExpr{
-																					pos: position{line: 2877, col: 10, offset: 91032},
+																					pos: position{line: 2877, col: 10, offset: 91161},
 																					run: (*parser).callonListContinuationElement1352,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2877, col: 10, offset: 91032},
+																						pos:        position{line: 2877, col: 10, offset: 91161},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -35821,28 +35821,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2899, col: 8, offset: 91430},
+																				pos: position{line: 2899, col: 8, offset: 91559},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2886, col: 12, offset: 91203},
+																						pos: position{line: 2886, col: 12, offset: 91332},
 																						run: (*parser).callonListContinuationElement1355,
 																						expr: &choiceExpr{
-																							pos: position{line: 2886, col: 13, offset: 91204},
+																							pos: position{line: 2886, col: 13, offset: 91333},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2886, col: 13, offset: 91204},
+																									pos:        position{line: 2886, col: 13, offset: 91333},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2886, col: 20, offset: 91211},
+																									pos:        position{line: 2886, col: 20, offset: 91340},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2886, col: 29, offset: 91220},
+																									pos:        position{line: 2886, col: 29, offset: 91349},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35851,9 +35851,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2896, col: 8, offset: 91380},
+																						pos: position{line: 2896, col: 8, offset: 91509},
 																						expr: &anyMatcher{
-																							line: 2896, col: 9, offset: 91381,
+																							line: 2896, col: 9, offset: 91510,
 																						},
 																					},
 																				},
@@ -35862,32 +35862,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2626, col: 5, offset: 83818},
+																	pos: position{line: 2626, col: 5, offset: 83947},
 																	run: (*parser).callonListContinuationElement1362,
 																	expr: &seqExpr{
-																		pos: position{line: 2626, col: 5, offset: 83818},
+																		pos: position{line: 2626, col: 5, offset: 83947},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2626, col: 5, offset: 83818},
+																				pos: position{line: 2626, col: 5, offset: 83947},
 																				expr: &choiceExpr{
-																					pos: position{line: 2623, col: 22, offset: 83779},
+																					pos: position{line: 2623, col: 22, offset: 83908},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2619, col: 19, offset: 83699},
+																							pos: position{line: 2619, col: 19, offset: 83828},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2619, col: 19, offset: 83699},
+																									pos:        position{line: 2619, col: 19, offset: 83828},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2619, col: 26, offset: 83706},
+																									pos: position{line: 2619, col: 26, offset: 83835},
 																									expr: &actionExpr{
-																										pos: position{line: 2877, col: 10, offset: 91032},
+																										pos: position{line: 2877, col: 10, offset: 91161},
 																										run: (*parser).callonListContinuationElement1369,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2877, col: 10, offset: 91032},
+																											pos:        position{line: 2877, col: 10, offset: 91161},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -35896,28 +35896,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2899, col: 8, offset: 91430},
+																									pos: position{line: 2899, col: 8, offset: 91559},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2886, col: 12, offset: 91203},
+																											pos: position{line: 2886, col: 12, offset: 91332},
 																											run: (*parser).callonListContinuationElement1372,
 																											expr: &choiceExpr{
-																												pos: position{line: 2886, col: 13, offset: 91204},
+																												pos: position{line: 2886, col: 13, offset: 91333},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 13, offset: 91204},
+																														pos:        position{line: 2886, col: 13, offset: 91333},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 20, offset: 91211},
+																														pos:        position{line: 2886, col: 20, offset: 91340},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 29, offset: 91220},
+																														pos:        position{line: 2886, col: 29, offset: 91349},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -35926,9 +35926,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2896, col: 8, offset: 91380},
+																											pos: position{line: 2896, col: 8, offset: 91509},
 																											expr: &anyMatcher{
-																												line: 2896, col: 9, offset: 91381,
+																												line: 2896, col: 9, offset: 91510,
 																											},
 																										},
 																									},
@@ -35936,59 +35936,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2896, col: 8, offset: 91380},
+																							pos: position{line: 2896, col: 8, offset: 91509},
 																							expr: &anyMatcher{
-																								line: 2896, col: 9, offset: 91381,
+																								line: 2896, col: 9, offset: 91510,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2627, col: 5, offset: 83841},
+																				pos:   position{line: 2627, col: 5, offset: 83970},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2628, col: 9, offset: 83859},
+																					pos: position{line: 2628, col: 9, offset: 83988},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2628, col: 10, offset: 83860},
+																							pos: position{line: 2628, col: 10, offset: 83989},
 																							run: (*parser).callonListContinuationElement1383,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2628, col: 10, offset: 83860},
+																								pos:   position{line: 2628, col: 10, offset: 83989},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2628, col: 17, offset: 83867},
+																									pos: position{line: 2628, col: 17, offset: 83996},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2636, col: 21, offset: 84063},
+																											pos: position{line: 2636, col: 21, offset: 84192},
 																											run: (*parser).callonListContinuationElement1386,
 																											expr: &seqExpr{
-																												pos: position{line: 2636, col: 21, offset: 84063},
+																												pos: position{line: 2636, col: 21, offset: 84192},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2636, col: 21, offset: 84063},
+																														pos:   position{line: 2636, col: 21, offset: 84192},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2636, col: 27, offset: 84069},
+																															pos: position{line: 2636, col: 27, offset: 84198},
 																															expr: &actionExpr{
-																																pos: position{line: 2641, col: 5, offset: 84144},
+																																pos: position{line: 2641, col: 5, offset: 84273},
 																																run: (*parser).callonListContinuationElement1390,
 																																expr: &seqExpr{
-																																	pos: position{line: 2641, col: 5, offset: 84144},
+																																	pos: position{line: 2641, col: 5, offset: 84273},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2641, col: 5, offset: 84144},
+																																			pos:        position{line: 2641, col: 5, offset: 84273},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2641, col: 9, offset: 84148},
+																																			pos: position{line: 2641, col: 9, offset: 84277},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2877, col: 10, offset: 91032},
+																																				pos: position{line: 2877, col: 10, offset: 91161},
 																																				run: (*parser).callonListContinuationElement1394,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2877, col: 10, offset: 91032},
+																																					pos:        position{line: 2877, col: 10, offset: 91161},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -35997,21 +35997,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2641, col: 16, offset: 84155},
+																																			pos:   position{line: 2641, col: 16, offset: 84284},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2647, col: 5, offset: 84355},
+																																				pos: position{line: 2647, col: 5, offset: 84484},
 																																				run: (*parser).callonListContinuationElement1397,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2647, col: 5, offset: 84355},
+																																					pos:   position{line: 2647, col: 5, offset: 84484},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2647, col: 14, offset: 84364},
+																																						pos: position{line: 2647, col: 14, offset: 84493},
 																																						run: (*parser).callonListContinuationElement1399,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2647, col: 14, offset: 84364},
+																																							pos: position{line: 2647, col: 14, offset: 84493},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2647, col: 14, offset: 84364},
+																																								pos:        position{line: 2647, col: 14, offset: 84493},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -36028,28 +36028,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2899, col: 8, offset: 91430},
+																														pos: position{line: 2899, col: 8, offset: 91559},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2886, col: 12, offset: 91203},
+																																pos: position{line: 2886, col: 12, offset: 91332},
 																																run: (*parser).callonListContinuationElement1403,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2886, col: 13, offset: 91204},
+																																	pos: position{line: 2886, col: 13, offset: 91333},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2886, col: 13, offset: 91204},
+																																			pos:        position{line: 2886, col: 13, offset: 91333},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2886, col: 20, offset: 91211},
+																																			pos:        position{line: 2886, col: 20, offset: 91340},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2886, col: 29, offset: 91220},
+																																			pos:        position{line: 2886, col: 29, offset: 91349},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -36058,9 +36058,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2896, col: 8, offset: 91380},
+																																pos: position{line: 2896, col: 8, offset: 91509},
 																																expr: &anyMatcher{
-																																	line: 2896, col: 9, offset: 91381,
+																																	line: 2896, col: 9, offset: 91510,
 																																},
 																															},
 																														},
@@ -36069,40 +36069,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2653, col: 24, offset: 84500},
+																											pos: position{line: 2653, col: 24, offset: 84629},
 																											run: (*parser).callonListContinuationElement1410,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2653, col: 24, offset: 84500},
+																												pos:   position{line: 2653, col: 24, offset: 84629},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2653, col: 30, offset: 84506},
+																													pos: position{line: 2653, col: 30, offset: 84635},
 																													expr: &actionExpr{
-																														pos: position{line: 2658, col: 5, offset: 84582},
+																														pos: position{line: 2658, col: 5, offset: 84711},
 																														run: (*parser).callonListContinuationElement1413,
 																														expr: &seqExpr{
-																															pos: position{line: 2658, col: 5, offset: 84582},
+																															pos: position{line: 2658, col: 5, offset: 84711},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2658, col: 5, offset: 84582},
+																																	pos: position{line: 2658, col: 5, offset: 84711},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2623, col: 22, offset: 83779},
+																																		pos: position{line: 2623, col: 22, offset: 83908},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2619, col: 19, offset: 83699},
+																																				pos: position{line: 2619, col: 19, offset: 83828},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2619, col: 19, offset: 83699},
+																																						pos:        position{line: 2619, col: 19, offset: 83828},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2619, col: 26, offset: 83706},
+																																						pos: position{line: 2619, col: 26, offset: 83835},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2877, col: 10, offset: 91032},
+																																							pos: position{line: 2877, col: 10, offset: 91161},
 																																							run: (*parser).callonListContinuationElement1420,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2877, col: 10, offset: 91032},
+																																								pos:        position{line: 2877, col: 10, offset: 91161},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -36111,28 +36111,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2899, col: 8, offset: 91430},
+																																						pos: position{line: 2899, col: 8, offset: 91559},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2886, col: 12, offset: 91203},
+																																								pos: position{line: 2886, col: 12, offset: 91332},
 																																								run: (*parser).callonListContinuationElement1423,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2886, col: 13, offset: 91204},
+																																									pos: position{line: 2886, col: 13, offset: 91333},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2886, col: 13, offset: 91204},
+																																											pos:        position{line: 2886, col: 13, offset: 91333},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2886, col: 20, offset: 91211},
+																																											pos:        position{line: 2886, col: 20, offset: 91340},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2886, col: 29, offset: 91220},
+																																											pos:        position{line: 2886, col: 29, offset: 91349},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -36141,9 +36141,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2896, col: 8, offset: 91380},
+																																								pos: position{line: 2896, col: 8, offset: 91509},
 																																								expr: &anyMatcher{
-																																									line: 2896, col: 9, offset: 91381,
+																																									line: 2896, col: 9, offset: 91510,
 																																								},
 																																							},
 																																						},
@@ -36151,16 +36151,16 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2896, col: 8, offset: 91380},
+																																				pos: position{line: 2896, col: 8, offset: 91509},
 																																				expr: &anyMatcher{
-																																					line: 2896, col: 9, offset: 91381,
+																																					line: 2896, col: 9, offset: 91510,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2659, col: 5, offset: 84605},
+																																	pos: position{line: 2659, col: 5, offset: 84734},
 																																	expr: &actionExpr{
 																																		pos: position{line: 677, col: 14, offset: 21525},
 																																		run: (*parser).callonListContinuationElement1433,
@@ -36168,18 +36168,18 @@ var g = &grammar{
 																																			pos: position{line: 677, col: 14, offset: 21525},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2894, col: 11, offset: 91366},
+																																					pos: position{line: 2894, col: 11, offset: 91495},
 																																					expr: &anyMatcher{
-																																						line: 2894, col: 13, offset: 91368,
+																																						line: 2894, col: 13, offset: 91497,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
 																																					pos: position{line: 677, col: 21, offset: 21532},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2877, col: 10, offset: 91032},
+																																						pos: position{line: 2877, col: 10, offset: 91161},
 																																						run: (*parser).callonListContinuationElement1438,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2877, col: 10, offset: 91032},
+																																							pos:        position{line: 2877, col: 10, offset: 91161},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -36188,28 +36188,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2899, col: 8, offset: 91430},
+																																					pos: position{line: 2899, col: 8, offset: 91559},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2886, col: 12, offset: 91203},
+																																							pos: position{line: 2886, col: 12, offset: 91332},
 																																							run: (*parser).callonListContinuationElement1441,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2886, col: 13, offset: 91204},
+																																								pos: position{line: 2886, col: 13, offset: 91333},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2886, col: 13, offset: 91204},
+																																										pos:        position{line: 2886, col: 13, offset: 91333},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2886, col: 20, offset: 91211},
+																																										pos:        position{line: 2886, col: 20, offset: 91340},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2886, col: 29, offset: 91220},
+																																										pos:        position{line: 2886, col: 29, offset: 91349},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -36218,9 +36218,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2896, col: 8, offset: 91380},
+																																							pos: position{line: 2896, col: 8, offset: 91509},
 																																							expr: &anyMatcher{
-																																								line: 2896, col: 9, offset: 91381,
+																																								line: 2896, col: 9, offset: 91510,
 																																							},
 																																						},
 																																					},
@@ -36230,17 +36230,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2660, col: 5, offset: 84620},
+																																	pos:   position{line: 2660, col: 5, offset: 84749},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2660, col: 12, offset: 84627},
+																																		pos: position{line: 2660, col: 12, offset: 84756},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2677, col: 20, offset: 85091},
+																																			pos: position{line: 2677, col: 20, offset: 85220},
 																																			run: (*parser).callonListContinuationElement1450,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2677, col: 20, offset: 85091},
+																																				pos: position{line: 2677, col: 20, offset: 85220},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2677, col: 20, offset: 85091},
+																																					pos:        position{line: 2677, col: 20, offset: 85220},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -36251,18 +36251,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2660, col: 31, offset: 84646},
+																																	pos:        position{line: 2660, col: 31, offset: 84775},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2660, col: 35, offset: 84650},
+																																	pos: position{line: 2660, col: 35, offset: 84779},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2877, col: 10, offset: 91032},
+																																		pos: position{line: 2877, col: 10, offset: 91161},
 																																		run: (*parser).callonListContinuationElement1455,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2877, col: 10, offset: 91032},
+																																			pos:        position{line: 2877, col: 10, offset: 91161},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -36271,27 +36271,27 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2660, col: 42, offset: 84657},
+																																	pos: position{line: 2660, col: 42, offset: 84786},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2886, col: 12, offset: 91203},
+																																		pos: position{line: 2886, col: 12, offset: 91332},
 																																		run: (*parser).callonListContinuationElement1458,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2886, col: 13, offset: 91204},
+																																			pos: position{line: 2886, col: 13, offset: 91333},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2886, col: 13, offset: 91204},
+																																					pos:        position{line: 2886, col: 13, offset: 91333},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2886, col: 20, offset: 91211},
+																																					pos:        position{line: 2886, col: 20, offset: 91340},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2886, col: 29, offset: 91220},
+																																					pos:        position{line: 2886, col: 29, offset: 91349},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -36301,37 +36301,37 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2660, col: 51, offset: 84666},
+																																	pos:   position{line: 2660, col: 51, offset: 84795},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2666, col: 5, offset: 84825},
+																																		pos: position{line: 2666, col: 5, offset: 84954},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2667, col: 9, offset: 84835},
+																																			pos: position{line: 2667, col: 9, offset: 84964},
 																																			run: (*parser).callonListContinuationElement1465,
 																																			expr: &seqExpr{
-																																				pos: position{line: 2667, col: 9, offset: 84835},
+																																				pos: position{line: 2667, col: 9, offset: 84964},
 																																				exprs: []interface{}{
 																																					&notExpr{
-																																						pos: position{line: 2667, col: 9, offset: 84835},
+																																						pos: position{line: 2667, col: 9, offset: 84964},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2623, col: 22, offset: 83779},
+																																							pos: position{line: 2623, col: 22, offset: 83908},
 																																							alternatives: []interface{}{
 																																								&seqExpr{
-																																									pos: position{line: 2619, col: 19, offset: 83699},
+																																									pos: position{line: 2619, col: 19, offset: 83828},
 																																									exprs: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2619, col: 19, offset: 83699},
+																																											pos:        position{line: 2619, col: 19, offset: 83828},
 																																											val:        "|===",
 																																											ignoreCase: false,
 																																											want:       "\"|===\"",
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 2619, col: 26, offset: 83706},
+																																											pos: position{line: 2619, col: 26, offset: 83835},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2877, col: 10, offset: 91032},
+																																												pos: position{line: 2877, col: 10, offset: 91161},
 																																												run: (*parser).callonListContinuationElement1472,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2877, col: 10, offset: 91032},
+																																													pos:        position{line: 2877, col: 10, offset: 91161},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -36340,28 +36340,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2899, col: 8, offset: 91430},
+																																											pos: position{line: 2899, col: 8, offset: 91559},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2886, col: 12, offset: 91203},
+																																													pos: position{line: 2886, col: 12, offset: 91332},
 																																													run: (*parser).callonListContinuationElement1475,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2886, col: 13, offset: 91204},
+																																														pos: position{line: 2886, col: 13, offset: 91333},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2886, col: 13, offset: 91204},
+																																																pos:        position{line: 2886, col: 13, offset: 91333},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2886, col: 20, offset: 91211},
+																																																pos:        position{line: 2886, col: 20, offset: 91340},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2886, col: 29, offset: 91220},
+																																																pos:        position{line: 2886, col: 29, offset: 91349},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -36370,9 +36370,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2896, col: 8, offset: 91380},
+																																													pos: position{line: 2896, col: 8, offset: 91509},
 																																													expr: &anyMatcher{
-																																														line: 2896, col: 9, offset: 91381,
+																																														line: 2896, col: 9, offset: 91510,
 																																													},
 																																												},
 																																											},
@@ -36380,16 +36380,16 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2896, col: 8, offset: 91380},
+																																									pos: position{line: 2896, col: 8, offset: 91509},
 																																									expr: &anyMatcher{
-																																										line: 2896, col: 9, offset: 91381,
+																																										line: 2896, col: 9, offset: 91510,
 																																									},
 																																								},
 																																							},
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2668, col: 9, offset: 84862},
+																																						pos: position{line: 2668, col: 9, offset: 84991},
 																																						expr: &actionExpr{
 																																							pos: position{line: 677, col: 14, offset: 21525},
 																																							run: (*parser).callonListContinuationElement1485,
@@ -36397,18 +36397,18 @@ var g = &grammar{
 																																								pos: position{line: 677, col: 14, offset: 21525},
 																																								exprs: []interface{}{
 																																									&andExpr{
-																																										pos: position{line: 2894, col: 11, offset: 91366},
+																																										pos: position{line: 2894, col: 11, offset: 91495},
 																																										expr: &anyMatcher{
-																																											line: 2894, col: 13, offset: 91368,
+																																											line: 2894, col: 13, offset: 91497,
 																																										},
 																																									},
 																																									&zeroOrMoreExpr{
 																																										pos: position{line: 677, col: 21, offset: 21532},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2877, col: 10, offset: 91032},
+																																											pos: position{line: 2877, col: 10, offset: 91161},
 																																											run: (*parser).callonListContinuationElement1490,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2877, col: 10, offset: 91032},
+																																												pos:        position{line: 2877, col: 10, offset: 91161},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -36417,28 +36417,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2899, col: 8, offset: 91430},
+																																										pos: position{line: 2899, col: 8, offset: 91559},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2886, col: 12, offset: 91203},
+																																												pos: position{line: 2886, col: 12, offset: 91332},
 																																												run: (*parser).callonListContinuationElement1493,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2886, col: 13, offset: 91204},
+																																													pos: position{line: 2886, col: 13, offset: 91333},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2886, col: 13, offset: 91204},
+																																															pos:        position{line: 2886, col: 13, offset: 91333},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2886, col: 20, offset: 91211},
+																																															pos:        position{line: 2886, col: 20, offset: 91340},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2886, col: 29, offset: 91220},
+																																															pos:        position{line: 2886, col: 29, offset: 91349},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -36447,9 +36447,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2896, col: 8, offset: 91380},
+																																												pos: position{line: 2896, col: 8, offset: 91509},
 																																												expr: &anyMatcher{
-																																													line: 2896, col: 9, offset: 91381,
+																																													line: 2896, col: 9, offset: 91510,
 																																												},
 																																											},
 																																										},
@@ -36459,22 +36459,22 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2669, col: 9, offset: 84881},
+																																						pos: position{line: 2669, col: 9, offset: 85010},
 																																						expr: &seqExpr{
-																																							pos: position{line: 2669, col: 11, offset: 84883},
+																																							pos: position{line: 2669, col: 11, offset: 85012},
 																																							exprs: []interface{}{
 																																								&labeledExpr{
-																																									pos:   position{line: 2669, col: 11, offset: 84883},
+																																									pos:   position{line: 2669, col: 11, offset: 85012},
 																																									label: "format",
 																																									expr: &zeroOrOneExpr{
-																																										pos: position{line: 2669, col: 18, offset: 84890},
+																																										pos: position{line: 2669, col: 18, offset: 85019},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2677, col: 20, offset: 85091},
+																																											pos: position{line: 2677, col: 20, offset: 85220},
 																																											run: (*parser).callonListContinuationElement1504,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2677, col: 20, offset: 85091},
+																																												pos: position{line: 2677, col: 20, offset: 85220},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2677, col: 20, offset: 85091},
+																																													pos:        position{line: 2677, col: 20, offset: 85220},
 																																													val:        "[^ |\\r\\n]",
 																																													chars:      []rune{' ', '|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -36485,7 +36485,7 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&litMatcher{
-																																									pos:        position{line: 2669, col: 37, offset: 84909},
+																																									pos:        position{line: 2669, col: 37, offset: 85038},
 																																									val:        "|",
 																																									ignoreCase: false,
 																																									want:       "\"|\"",
@@ -36494,15 +36494,15 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2670, col: 9, offset: 84922},
+																																						pos:   position{line: 2670, col: 9, offset: 85051},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2670, col: 18, offset: 84931},
+																																							pos: position{line: 2670, col: 18, offset: 85060},
 																																							run: (*parser).callonListContinuationElement1509,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2670, col: 18, offset: 84931},
+																																								pos: position{line: 2670, col: 18, offset: 85060},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2670, col: 18, offset: 84931},
+																																									pos:        position{line: 2670, col: 18, offset: 85060},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -36512,30 +36512,30 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&zeroOrOneExpr{
-																																						pos: position{line: 2672, col: 12, offset: 84993},
+																																						pos: position{line: 2672, col: 12, offset: 85122},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2899, col: 8, offset: 91430},
+																																							pos: position{line: 2899, col: 8, offset: 91559},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2886, col: 12, offset: 91203},
+																																									pos: position{line: 2886, col: 12, offset: 91332},
 																																									run: (*parser).callonListContinuationElement1514,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2886, col: 13, offset: 91204},
+																																										pos: position{line: 2886, col: 13, offset: 91333},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2886, col: 13, offset: 91204},
+																																												pos:        position{line: 2886, col: 13, offset: 91333},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2886, col: 20, offset: 91211},
+																																												pos:        position{line: 2886, col: 20, offset: 91340},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2886, col: 29, offset: 91220},
+																																												pos:        position{line: 2886, col: 29, offset: 91349},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -36544,9 +36544,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2896, col: 8, offset: 91380},
+																																									pos: position{line: 2896, col: 8, offset: 91509},
 																																									expr: &anyMatcher{
-																																										line: 2896, col: 9, offset: 91381,
+																																										line: 2896, col: 9, offset: 91510,
 																																									},
 																																								},
 																																							},
@@ -36574,18 +36574,18 @@ var g = &grammar{
 																								pos: position{line: 677, col: 14, offset: 21525},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2894, col: 11, offset: 91366},
+																										pos: position{line: 2894, col: 11, offset: 91495},
 																										expr: &anyMatcher{
-																											line: 2894, col: 13, offset: 91368,
+																											line: 2894, col: 13, offset: 91497,
 																										},
 																									},
 																									&zeroOrMoreExpr{
 																										pos: position{line: 677, col: 21, offset: 21532},
 																										expr: &actionExpr{
-																											pos: position{line: 2877, col: 10, offset: 91032},
+																											pos: position{line: 2877, col: 10, offset: 91161},
 																											run: (*parser).callonListContinuationElement1526,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2877, col: 10, offset: 91032},
+																												pos:        position{line: 2877, col: 10, offset: 91161},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -36594,28 +36594,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2899, col: 8, offset: 91430},
+																										pos: position{line: 2899, col: 8, offset: 91559},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2886, col: 12, offset: 91203},
+																												pos: position{line: 2886, col: 12, offset: 91332},
 																												run: (*parser).callonListContinuationElement1529,
 																												expr: &choiceExpr{
-																													pos: position{line: 2886, col: 13, offset: 91204},
+																													pos: position{line: 2886, col: 13, offset: 91333},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2886, col: 13, offset: 91204},
+																															pos:        position{line: 2886, col: 13, offset: 91333},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2886, col: 20, offset: 91211},
+																															pos:        position{line: 2886, col: 20, offset: 91340},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2886, col: 29, offset: 91220},
+																															pos:        position{line: 2886, col: 29, offset: 91349},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -36624,9 +36624,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2896, col: 8, offset: 91380},
+																												pos: position{line: 2896, col: 8, offset: 91509},
 																												expr: &anyMatcher{
-																													line: 2896, col: 9, offset: 91381,
+																													line: 2896, col: 9, offset: 91510,
 																												},
 																											},
 																										},
@@ -36645,24 +36645,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2623, col: 22, offset: 83779},
+													pos: position{line: 2623, col: 22, offset: 83908},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2619, col: 19, offset: 83699},
+															pos: position{line: 2619, col: 19, offset: 83828},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2619, col: 19, offset: 83699},
+																	pos:        position{line: 2619, col: 19, offset: 83828},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2619, col: 26, offset: 83706},
+																	pos: position{line: 2619, col: 26, offset: 83835},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91032},
+																		pos: position{line: 2877, col: 10, offset: 91161},
 																		run: (*parser).callonListContinuationElement1540,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91032},
+																			pos:        position{line: 2877, col: 10, offset: 91161},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -36671,28 +36671,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91430},
+																	pos: position{line: 2899, col: 8, offset: 91559},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91203},
+																			pos: position{line: 2886, col: 12, offset: 91332},
 																			run: (*parser).callonListContinuationElement1543,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91204},
+																				pos: position{line: 2886, col: 13, offset: 91333},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91204},
+																						pos:        position{line: 2886, col: 13, offset: 91333},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91211},
+																						pos:        position{line: 2886, col: 20, offset: 91340},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91220},
+																						pos:        position{line: 2886, col: 29, offset: 91349},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36701,9 +36701,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91380},
+																			pos: position{line: 2896, col: 8, offset: 91509},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91381,
+																				line: 2896, col: 9, offset: 91510,
 																			},
 																		},
 																	},
@@ -36711,9 +36711,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2896, col: 8, offset: 91380},
+															pos: position{line: 2896, col: 8, offset: 91509},
 															expr: &anyMatcher{
-																line: 2896, col: 9, offset: 91381,
+																line: 2896, col: 9, offset: 91510,
 															},
 														},
 													},
@@ -36722,36 +36722,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2484, col: 22, offset: 79918},
+										pos: position{line: 2484, col: 22, offset: 80047},
 										run: (*parser).callonListContinuationElement1552,
 										expr: &seqExpr{
-											pos: position{line: 2484, col: 22, offset: 79918},
+											pos: position{line: 2484, col: 22, offset: 80047},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2489, col: 31, offset: 80139},
+													pos:        position{line: 2489, col: 31, offset: 80268},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2489, col: 36, offset: 80144},
+													pos: position{line: 2489, col: 36, offset: 80273},
 													expr: &litMatcher{
-														pos:        position{line: 2489, col: 37, offset: 80145},
+														pos:        position{line: 2489, col: 37, offset: 80274},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2484, col: 49, offset: 79945},
+													pos:   position{line: 2484, col: 49, offset: 80074},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2823, col: 13, offset: 89558},
+														pos: position{line: 2823, col: 13, offset: 89687},
 														run: (*parser).callonListContinuationElement1558,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2823, col: 13, offset: 89558},
+															pos: position{line: 2823, col: 13, offset: 89687},
 															expr: &charClassMatcher{
-																pos:        position{line: 2823, col: 13, offset: 89558},
+																pos:        position{line: 2823, col: 13, offset: 89687},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -36761,28 +36761,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2899, col: 8, offset: 91430},
+													pos: position{line: 2899, col: 8, offset: 91559},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2886, col: 12, offset: 91203},
+															pos: position{line: 2886, col: 12, offset: 91332},
 															run: (*parser).callonListContinuationElement1562,
 															expr: &choiceExpr{
-																pos: position{line: 2886, col: 13, offset: 91204},
+																pos: position{line: 2886, col: 13, offset: 91333},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 13, offset: 91204},
+																		pos:        position{line: 2886, col: 13, offset: 91333},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 20, offset: 91211},
+																		pos:        position{line: 2886, col: 20, offset: 91340},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 29, offset: 91220},
+																		pos:        position{line: 2886, col: 29, offset: 91349},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36791,9 +36791,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2896, col: 8, offset: 91380},
+															pos: position{line: 2896, col: 8, offset: 91509},
 															expr: &anyMatcher{
-																line: 2896, col: 9, offset: 91381,
+																line: 2896, col: 9, offset: 91510,
 															},
 														},
 													},
@@ -36802,94 +36802,94 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1572, col: 5, offset: 50881},
+										pos: position{line: 1572, col: 5, offset: 51010},
 										run: (*parser).callonListContinuationElement1569,
 										expr: &seqExpr{
-											pos: position{line: 1572, col: 5, offset: 50881},
+											pos: position{line: 1572, col: 5, offset: 51010},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1572, col: 5, offset: 50881},
+													pos:   position{line: 1572, col: 5, offset: 51010},
 													label: "style",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1572, col: 11, offset: 50887},
+														pos: position{line: 1572, col: 11, offset: 51016},
 														expr: &actionExpr{
-															pos: position{line: 1737, col: 5, offset: 56236},
+															pos: position{line: 1737, col: 5, offset: 56365},
 															run: (*parser).callonListContinuationElement1573,
 															expr: &seqExpr{
-																pos: position{line: 1737, col: 5, offset: 56236},
+																pos: position{line: 1737, col: 5, offset: 56365},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1737, col: 5, offset: 56236},
+																		pos: position{line: 1737, col: 5, offset: 56365},
 																		run: (*parser).callonListContinuationElement1575,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1740, col: 5, offset: 56299},
+																		pos:   position{line: 1740, col: 5, offset: 56428},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1740, col: 12, offset: 56306},
+																			pos: position{line: 1740, col: 12, offset: 56435},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1740, col: 12, offset: 56306},
+																					pos: position{line: 1740, col: 12, offset: 56435},
 																					run: (*parser).callonListContinuationElement1578,
 																					expr: &litMatcher{
-																						pos:        position{line: 1740, col: 12, offset: 56306},
+																						pos:        position{line: 1740, col: 12, offset: 56435},
 																						val:        "TIP: ",
 																						ignoreCase: false,
 																						want:       "\"TIP: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1742, col: 13, offset: 56362},
+																					pos: position{line: 1742, col: 13, offset: 56491},
 																					run: (*parser).callonListContinuationElement1580,
 																					expr: &litMatcher{
-																						pos:        position{line: 1742, col: 13, offset: 56362},
+																						pos:        position{line: 1742, col: 13, offset: 56491},
 																						val:        "NOTE: ",
 																						ignoreCase: false,
 																						want:       "\"NOTE: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1744, col: 13, offset: 56420},
+																					pos: position{line: 1744, col: 13, offset: 56549},
 																					run: (*parser).callonListContinuationElement1582,
 																					expr: &litMatcher{
-																						pos:        position{line: 1744, col: 13, offset: 56420},
+																						pos:        position{line: 1744, col: 13, offset: 56549},
 																						val:        "IMPORTANT: ",
 																						ignoreCase: false,
 																						want:       "\"IMPORTANT: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1746, col: 13, offset: 56488},
+																					pos: position{line: 1746, col: 13, offset: 56617},
 																					run: (*parser).callonListContinuationElement1584,
 																					expr: &litMatcher{
-																						pos:        position{line: 1746, col: 13, offset: 56488},
+																						pos:        position{line: 1746, col: 13, offset: 56617},
 																						val:        "WARNING: ",
 																						ignoreCase: false,
 																						want:       "\"WARNING: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1748, col: 13, offset: 56552},
+																					pos: position{line: 1748, col: 13, offset: 56681},
 																					run: (*parser).callonListContinuationElement1586,
 																					expr: &litMatcher{
-																						pos:        position{line: 1748, col: 13, offset: 56552},
+																						pos:        position{line: 1748, col: 13, offset: 56681},
 																						val:        "CAUTION: ",
 																						ignoreCase: false,
 																						want:       "\"CAUTION: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1750, col: 13, offset: 56616},
+																					pos: position{line: 1750, col: 13, offset: 56745},
 																					run: (*parser).callonListContinuationElement1588,
 																					expr: &andExpr{
-																						pos: position{line: 1750, col: 13, offset: 56616},
+																						pos: position{line: 1750, col: 13, offset: 56745},
 																						expr: &actionExpr{
-																							pos: position{line: 2881, col: 11, offset: 91093},
+																							pos: position{line: 2881, col: 11, offset: 91222},
 																							run: (*parser).callonListContinuationElement1590,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2881, col: 11, offset: 91093},
+																								pos: position{line: 2881, col: 11, offset: 91222},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2881, col: 11, offset: 91093},
+																									pos:        position{line: 2881, col: 11, offset: 91222},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36903,17 +36903,17 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1752, col: 12, offset: 56686},
+																		pos: position{line: 1752, col: 12, offset: 56815},
 																		expr: &seqExpr{
-																			pos: position{line: 1752, col: 14, offset: 56688},
+																			pos: position{line: 1752, col: 14, offset: 56817},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1752, col: 14, offset: 56688},
+																					pos: position{line: 1752, col: 14, offset: 56817},
 																					expr: &actionExpr{
-																						pos: position{line: 2877, col: 10, offset: 91032},
+																						pos: position{line: 2877, col: 10, offset: 91161},
 																						run: (*parser).callonListContinuationElement1596,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2877, col: 10, offset: 91032},
+																							pos:        position{line: 2877, col: 10, offset: 91161},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36922,28 +36922,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2899, col: 8, offset: 91430},
+																					pos: position{line: 2899, col: 8, offset: 91559},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2886, col: 12, offset: 91203},
+																							pos: position{line: 2886, col: 12, offset: 91332},
 																							run: (*parser).callonListContinuationElement1599,
 																							expr: &choiceExpr{
-																								pos: position{line: 2886, col: 13, offset: 91204},
+																								pos: position{line: 2886, col: 13, offset: 91333},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 13, offset: 91204},
+																										pos:        position{line: 2886, col: 13, offset: 91333},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 20, offset: 91211},
+																										pos:        position{line: 2886, col: 20, offset: 91340},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 29, offset: 91220},
+																										pos:        position{line: 2886, col: 29, offset: 91349},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -36952,9 +36952,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2896, col: 8, offset: 91380},
+																							pos: position{line: 2896, col: 8, offset: 91509},
 																							expr: &anyMatcher{
-																								line: 2896, col: 9, offset: 91381,
+																								line: 2896, col: 9, offset: 91510,
 																							},
 																						},
 																					},
@@ -36968,16 +36968,16 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1573, col: 5, offset: 50910},
+													pos:   position{line: 1573, col: 5, offset: 51039},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1516, col: 5, offset: 49260},
+														pos: position{line: 1516, col: 5, offset: 49389},
 														run: (*parser).callonListContinuationElement1607,
 														expr: &seqExpr{
-															pos: position{line: 1516, col: 5, offset: 49260},
+															pos: position{line: 1516, col: 5, offset: 49389},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1516, col: 5, offset: 49260},
+																	pos: position{line: 1516, col: 5, offset: 49389},
 																	expr: &actionExpr{
 																		pos: position{line: 677, col: 14, offset: 21525},
 																		run: (*parser).callonListContinuationElement1610,
@@ -36985,18 +36985,18 @@ var g = &grammar{
 																			pos: position{line: 677, col: 14, offset: 21525},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2894, col: 11, offset: 91366},
+																					pos: position{line: 2894, col: 11, offset: 91495},
 																					expr: &anyMatcher{
-																						line: 2894, col: 13, offset: 91368,
+																						line: 2894, col: 13, offset: 91497,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21532},
 																					expr: &actionExpr{
-																						pos: position{line: 2877, col: 10, offset: 91032},
+																						pos: position{line: 2877, col: 10, offset: 91161},
 																						run: (*parser).callonListContinuationElement1615,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2877, col: 10, offset: 91032},
+																							pos:        position{line: 2877, col: 10, offset: 91161},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37005,28 +37005,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2899, col: 8, offset: 91430},
+																					pos: position{line: 2899, col: 8, offset: 91559},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2886, col: 12, offset: 91203},
+																							pos: position{line: 2886, col: 12, offset: 91332},
 																							run: (*parser).callonListContinuationElement1618,
 																							expr: &choiceExpr{
-																								pos: position{line: 2886, col: 13, offset: 91204},
+																								pos: position{line: 2886, col: 13, offset: 91333},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 13, offset: 91204},
+																										pos:        position{line: 2886, col: 13, offset: 91333},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 20, offset: 91211},
+																										pos:        position{line: 2886, col: 20, offset: 91340},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 29, offset: 91220},
+																										pos:        position{line: 2886, col: 29, offset: 91349},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -37035,9 +37035,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2896, col: 8, offset: 91380},
+																							pos: position{line: 2896, col: 8, offset: 91509},
 																							expr: &anyMatcher{
-																								line: 2896, col: 9, offset: 91381,
+																								line: 2896, col: 9, offset: 91510,
 																							},
 																						},
 																					},
@@ -37047,23 +37047,23 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1517, col: 5, offset: 49275},
+																	pos: position{line: 1517, col: 5, offset: 49404},
 																	expr: &seqExpr{
-																		pos: position{line: 1547, col: 27, offset: 50101},
+																		pos: position{line: 1547, col: 27, offset: 50230},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1547, col: 27, offset: 50101},
+																				pos:        position{line: 1547, col: 27, offset: 50230},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 1547, col: 31, offset: 50105},
+																				pos: position{line: 1547, col: 31, offset: 50234},
 																				expr: &actionExpr{
-																					pos: position{line: 2877, col: 10, offset: 91032},
+																					pos: position{line: 2877, col: 10, offset: 91161},
 																					run: (*parser).callonListContinuationElement1629,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2877, col: 10, offset: 91032},
+																						pos:        position{line: 2877, col: 10, offset: 91161},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -37072,25 +37072,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91203},
+																				pos: position{line: 2886, col: 12, offset: 91332},
 																				run: (*parser).callonListContinuationElement1631,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91204},
+																					pos: position{line: 2886, col: 13, offset: 91333},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91204},
+																							pos:        position{line: 2886, col: 13, offset: 91333},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91211},
+																							pos:        position{line: 2886, col: 20, offset: 91340},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91220},
+																							pos:        position{line: 2886, col: 29, offset: 91349},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -37102,20 +37102,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1518, col: 5, offset: 49303},
+																	pos: position{line: 1518, col: 5, offset: 49432},
 																	expr: &actionExpr{
-																		pos: position{line: 1588, col: 5, offset: 51320},
+																		pos: position{line: 1588, col: 5, offset: 51449},
 																		run: (*parser).callonListContinuationElement1637,
 																		expr: &seqExpr{
-																			pos: position{line: 1588, col: 5, offset: 51320},
+																			pos: position{line: 1588, col: 5, offset: 51449},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1588, col: 5, offset: 51320},
+																					pos: position{line: 1588, col: 5, offset: 51449},
 																					expr: &actionExpr{
-																						pos: position{line: 2877, col: 10, offset: 91032},
+																						pos: position{line: 2877, col: 10, offset: 91161},
 																						run: (*parser).callonListContinuationElement1640,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2877, col: 10, offset: 91032},
+																							pos:        position{line: 2877, col: 10, offset: 91161},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37124,27 +37124,27 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1588, col: 12, offset: 51327},
+																					pos:   position{line: 1588, col: 12, offset: 51456},
 																					label: "prefix",
 																					expr: &choiceExpr{
-																						pos: position{line: 1590, col: 9, offset: 51390},
+																						pos: position{line: 1590, col: 9, offset: 51519},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 1590, col: 9, offset: 51390},
+																								pos: position{line: 1590, col: 9, offset: 51519},
 																								run: (*parser).callonListContinuationElement1644,
 																								expr: &seqExpr{
-																									pos: position{line: 1590, col: 9, offset: 51390},
+																									pos: position{line: 1590, col: 9, offset: 51519},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 1590, col: 9, offset: 51390},
+																											pos:   position{line: 1590, col: 9, offset: 51519},
 																											label: "depth",
 																											expr: &actionExpr{
-																												pos: position{line: 1590, col: 16, offset: 51397},
+																												pos: position{line: 1590, col: 16, offset: 51526},
 																												run: (*parser).callonListContinuationElement1647,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1590, col: 16, offset: 51397},
+																													pos: position{line: 1590, col: 16, offset: 51526},
 																													expr: &litMatcher{
-																														pos:        position{line: 1590, col: 17, offset: 51398},
+																														pos:        position{line: 1590, col: 17, offset: 51527},
 																														val:        ".",
 																														ignoreCase: false,
 																														want:       "\".\"",
@@ -37153,22 +37153,22 @@ var g = &grammar{
 																											},
 																										},
 																										&andCodeExpr{
-																											pos: position{line: 1594, col: 9, offset: 51498},
+																											pos: position{line: 1594, col: 9, offset: 51627},
 																											run: (*parser).callonListContinuationElement1650,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1613, col: 11, offset: 52215},
+																								pos: position{line: 1613, col: 11, offset: 52344},
 																								run: (*parser).callonListContinuationElement1651,
 																								expr: &seqExpr{
-																									pos: position{line: 1613, col: 11, offset: 52215},
+																									pos: position{line: 1613, col: 11, offset: 52344},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1613, col: 11, offset: 52215},
+																											pos: position{line: 1613, col: 11, offset: 52344},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1613, col: 12, offset: 52216},
+																												pos:        position{line: 1613, col: 12, offset: 52345},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -37176,7 +37176,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1613, col: 20, offset: 52224},
+																											pos:        position{line: 1613, col: 20, offset: 52353},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -37185,20 +37185,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1615, col: 13, offset: 52341},
+																								pos: position{line: 1615, col: 13, offset: 52470},
 																								run: (*parser).callonListContinuationElement1656,
 																								expr: &seqExpr{
-																									pos: position{line: 1615, col: 13, offset: 52341},
+																									pos: position{line: 1615, col: 13, offset: 52470},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1615, col: 14, offset: 52342},
+																											pos:        position{line: 1615, col: 14, offset: 52471},
 																											val:        "[a-z]",
 																											ranges:     []rune{'a', 'z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1615, col: 21, offset: 52349},
+																											pos:        position{line: 1615, col: 21, offset: 52478},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -37207,20 +37207,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1617, col: 13, offset: 52469},
+																								pos: position{line: 1617, col: 13, offset: 52598},
 																								run: (*parser).callonListContinuationElement1660,
 																								expr: &seqExpr{
-																									pos: position{line: 1617, col: 13, offset: 52469},
+																									pos: position{line: 1617, col: 13, offset: 52598},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1617, col: 14, offset: 52470},
+																											pos:        position{line: 1617, col: 14, offset: 52599},
 																											val:        "[A-Z]",
 																											ranges:     []rune{'A', 'Z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1617, col: 21, offset: 52477},
+																											pos:        position{line: 1617, col: 21, offset: 52606},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -37229,15 +37229,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1619, col: 13, offset: 52597},
+																								pos: position{line: 1619, col: 13, offset: 52726},
 																								run: (*parser).callonListContinuationElement1664,
 																								expr: &seqExpr{
-																									pos: position{line: 1619, col: 13, offset: 52597},
+																									pos: position{line: 1619, col: 13, offset: 52726},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1619, col: 13, offset: 52597},
+																											pos: position{line: 1619, col: 13, offset: 52726},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1619, col: 14, offset: 52598},
+																												pos:        position{line: 1619, col: 14, offset: 52727},
 																												val:        "[ivxdlcm]",
 																												chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																												ignoreCase: false,
@@ -37245,7 +37245,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1619, col: 26, offset: 52610},
+																											pos:        position{line: 1619, col: 26, offset: 52739},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -37254,15 +37254,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1621, col: 13, offset: 52730},
+																								pos: position{line: 1621, col: 13, offset: 52859},
 																								run: (*parser).callonListContinuationElement1669,
 																								expr: &seqExpr{
-																									pos: position{line: 1621, col: 13, offset: 52730},
+																									pos: position{line: 1621, col: 13, offset: 52859},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1621, col: 13, offset: 52730},
+																											pos: position{line: 1621, col: 13, offset: 52859},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1621, col: 14, offset: 52731},
+																												pos:        position{line: 1621, col: 14, offset: 52860},
 																												val:        "[IVXDLCM]",
 																												chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																												ignoreCase: false,
@@ -37270,7 +37270,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1621, col: 26, offset: 52743},
+																											pos:        position{line: 1621, col: 26, offset: 52872},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -37282,12 +37282,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2881, col: 11, offset: 91093},
+																					pos: position{line: 2881, col: 11, offset: 91222},
 																					run: (*parser).callonListContinuationElement1674,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2881, col: 11, offset: 91093},
+																						pos: position{line: 2881, col: 11, offset: 91222},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2881, col: 11, offset: 91093},
+																							pos:        position{line: 2881, col: 11, offset: 91222},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37300,20 +37300,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1519, col: 5, offset: 49333},
+																	pos: position{line: 1519, col: 5, offset: 49462},
 																	expr: &actionExpr{
-																		pos: position{line: 1638, col: 5, offset: 53282},
+																		pos: position{line: 1638, col: 5, offset: 53411},
 																		run: (*parser).callonListContinuationElement1678,
 																		expr: &seqExpr{
-																			pos: position{line: 1638, col: 5, offset: 53282},
+																			pos: position{line: 1638, col: 5, offset: 53411},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1638, col: 5, offset: 53282},
+																					pos: position{line: 1638, col: 5, offset: 53411},
 																					expr: &actionExpr{
-																						pos: position{line: 2877, col: 10, offset: 91032},
+																						pos: position{line: 2877, col: 10, offset: 91161},
 																						run: (*parser).callonListContinuationElement1681,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2877, col: 10, offset: 91032},
+																							pos:        position{line: 2877, col: 10, offset: 91161},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37322,24 +37322,24 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1639, col: 5, offset: 53294},
+																					pos:   position{line: 1639, col: 5, offset: 53423},
 																					label: "style",
 																					expr: &actionExpr{
-																						pos: position{line: 1640, col: 9, offset: 53310},
+																						pos: position{line: 1640, col: 9, offset: 53439},
 																						run: (*parser).callonListContinuationElement1684,
 																						expr: &choiceExpr{
-																							pos: position{line: 1640, col: 10, offset: 53311},
+																							pos: position{line: 1640, col: 10, offset: 53440},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1640, col: 11, offset: 53312},
+																									pos:        position{line: 1640, col: 11, offset: 53441},
 																									val:        "-",
 																									ignoreCase: false,
 																									want:       "\"-\"",
 																								},
 																								&oneOrMoreExpr{
-																									pos: position{line: 1640, col: 18, offset: 53319},
+																									pos: position{line: 1640, col: 18, offset: 53448},
 																									expr: &litMatcher{
-																										pos:        position{line: 1640, col: 19, offset: 53320},
+																										pos:        position{line: 1640, col: 19, offset: 53449},
 																										val:        "*",
 																										ignoreCase: false,
 																										want:       "\"*\"",
@@ -37350,16 +37350,16 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1643, col: 7, offset: 53410},
+																					pos: position{line: 1643, col: 7, offset: 53539},
 																					run: (*parser).callonListContinuationElement1689,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2881, col: 11, offset: 91093},
+																					pos: position{line: 2881, col: 11, offset: 91222},
 																					run: (*parser).callonListContinuationElement1690,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2881, col: 11, offset: 91093},
+																						pos: position{line: 2881, col: 11, offset: 91222},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2881, col: 11, offset: 91093},
+																							pos:        position{line: 2881, col: 11, offset: 91222},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37372,29 +37372,29 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1520, col: 5, offset: 49365},
+																	pos: position{line: 1520, col: 5, offset: 49494},
 																	expr: &actionExpr{
-																		pos: position{line: 1728, col: 5, offset: 55851},
+																		pos: position{line: 1728, col: 5, offset: 55980},
 																		run: (*parser).callonListContinuationElement1694,
 																		expr: &seqExpr{
-																			pos: position{line: 1728, col: 5, offset: 55851},
+																			pos: position{line: 1728, col: 5, offset: 55980},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1728, col: 5, offset: 55851},
+																					pos:        position{line: 1728, col: 5, offset: 55980},
 																					val:        "<",
 																					ignoreCase: false,
 																					want:       "\"<\"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1728, col: 9, offset: 55855},
+																					pos:   position{line: 1728, col: 9, offset: 55984},
 																					label: "ref",
 																					expr: &actionExpr{
-																						pos: position{line: 1728, col: 14, offset: 55860},
+																						pos: position{line: 1728, col: 14, offset: 55989},
 																						run: (*parser).callonListContinuationElement1698,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 1728, col: 14, offset: 55860},
+																							pos: position{line: 1728, col: 14, offset: 55989},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1728, col: 14, offset: 55860},
+																								pos:        position{line: 1728, col: 14, offset: 55989},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -37404,18 +37404,18 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 1728, col: 62, offset: 55908},
+																					pos:        position{line: 1728, col: 62, offset: 56037},
 																					val:        ">",
 																					ignoreCase: false,
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2881, col: 11, offset: 91093},
+																					pos: position{line: 2881, col: 11, offset: 91222},
 																					run: (*parser).callonListContinuationElement1702,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2881, col: 11, offset: 91093},
+																						pos: position{line: 2881, col: 11, offset: 91222},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2881, col: 11, offset: 91093},
+																							pos:        position{line: 2881, col: 11, offset: 91222},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37428,31 +37428,31 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1521, col: 5, offset: 49395},
+																	pos: position{line: 1521, col: 5, offset: 49524},
 																	expr: &seqExpr{
-																		pos: position{line: 1521, col: 7, offset: 49397},
+																		pos: position{line: 1521, col: 7, offset: 49526},
 																		exprs: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1673, col: 5, offset: 54301},
+																				pos: position{line: 1673, col: 5, offset: 54430},
 																				run: (*parser).callonListContinuationElement1707,
 																				expr: &seqExpr{
-																					pos: position{line: 1673, col: 5, offset: 54301},
+																					pos: position{line: 1673, col: 5, offset: 54430},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1673, col: 5, offset: 54301},
+																							pos: position{line: 1673, col: 5, offset: 54430},
 																							expr: &seqExpr{
-																								pos: position{line: 2489, col: 31, offset: 80139},
+																								pos: position{line: 2489, col: 31, offset: 80268},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2489, col: 31, offset: 80139},
+																										pos:        position{line: 2489, col: 31, offset: 80268},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2489, col: 36, offset: 80144},
+																										pos: position{line: 2489, col: 36, offset: 80273},
 																										expr: &litMatcher{
-																											pos:        position{line: 2489, col: 37, offset: 80145},
+																											pos:        position{line: 2489, col: 37, offset: 80274},
 																											val:        "//",
 																											ignoreCase: false,
 																											want:       "\"//\"",
@@ -37462,28 +37462,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1674, col: 5, offset: 54333},
+																							pos: position{line: 1674, col: 5, offset: 54462},
 																							expr: &seqExpr{
-																								pos: position{line: 1674, col: 6, offset: 54334},
+																								pos: position{line: 1674, col: 6, offset: 54463},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1674, col: 6, offset: 54334},
+																										pos: position{line: 1674, col: 6, offset: 54463},
 																										expr: &actionExpr{
-																											pos: position{line: 1679, col: 5, offset: 54484},
+																											pos: position{line: 1679, col: 5, offset: 54613},
 																											run: (*parser).callonListContinuationElement1717,
 																											expr: &seqExpr{
-																												pos: position{line: 1679, col: 5, offset: 54484},
+																												pos: position{line: 1679, col: 5, offset: 54613},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1679, col: 5, offset: 54484},
+																														pos:   position{line: 1679, col: 5, offset: 54613},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1679, col: 16, offset: 54495},
+																															pos: position{line: 1679, col: 16, offset: 54624},
 																															run: (*parser).callonListContinuationElement1720,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1679, col: 16, offset: 54495},
+																																pos: position{line: 1679, col: 16, offset: 54624},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1679, col: 17, offset: 54496},
+																																	pos:        position{line: 1679, col: 17, offset: 54625},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -37492,7 +37492,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1682, col: 5, offset: 54553},
+																														pos: position{line: 1682, col: 5, offset: 54682},
 																														run: (*parser).callonListContinuationElement1723,
 																													},
 																												},
@@ -37500,30 +37500,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1674, col: 35, offset: 54363},
+																										pos: position{line: 1674, col: 35, offset: 54492},
 																										expr: &choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91430},
+																											pos: position{line: 2899, col: 8, offset: 91559},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91203},
+																													pos: position{line: 2886, col: 12, offset: 91332},
 																													run: (*parser).callonListContinuationElement1726,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91204},
+																														pos: position{line: 2886, col: 13, offset: 91333},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91204},
+																																pos:        position{line: 2886, col: 13, offset: 91333},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91211},
+																																pos:        position{line: 2886, col: 20, offset: 91340},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91220},
+																																pos:        position{line: 2886, col: 29, offset: 91349},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37532,16 +37532,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91380},
+																													pos: position{line: 2896, col: 8, offset: 91509},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91381,
+																														line: 2896, col: 9, offset: 91510,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1674, col: 40, offset: 54368,
+																										line: 1674, col: 40, offset: 54497,
 																									},
 																								},
 																							},
@@ -37550,21 +37550,21 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1679, col: 5, offset: 54484},
+																				pos: position{line: 1679, col: 5, offset: 54613},
 																				run: (*parser).callonListContinuationElement1734,
 																				expr: &seqExpr{
-																					pos: position{line: 1679, col: 5, offset: 54484},
+																					pos: position{line: 1679, col: 5, offset: 54613},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1679, col: 5, offset: 54484},
+																							pos:   position{line: 1679, col: 5, offset: 54613},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1679, col: 16, offset: 54495},
+																								pos: position{line: 1679, col: 16, offset: 54624},
 																								run: (*parser).callonListContinuationElement1737,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1679, col: 16, offset: 54495},
+																									pos: position{line: 1679, col: 16, offset: 54624},
 																									expr: &litMatcher{
-																										pos:        position{line: 1679, col: 17, offset: 54496},
+																										pos:        position{line: 1679, col: 17, offset: 54625},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -37573,7 +37573,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1682, col: 5, offset: 54553},
+																							pos: position{line: 1682, col: 5, offset: 54682},
 																							run: (*parser).callonListContinuationElement1740,
 																						},
 																					},
@@ -37583,7 +37583,7 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1522, col: 5, offset: 49453},
+																	pos: position{line: 1522, col: 5, offset: 49582},
 																	expr: &actionExpr{
 																		pos: position{line: 724, col: 5, offset: 23078},
 																		run: (*parser).callonListContinuationElement1742,
@@ -37593,7 +37593,7 @@ var g = &grammar{
 																				&notExpr{
 																					pos: position{line: 724, col: 5, offset: 23078},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2767, col: 13, offset: 88106},
+																						pos:        position{line: 2767, col: 13, offset: 88235},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -37643,10 +37643,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 742, col: 8, offset: 23722},
 																											expr: &actionExpr{
-																												pos: position{line: 2877, col: 10, offset: 91032},
+																												pos: position{line: 2877, col: 10, offset: 91161},
 																												run: (*parser).callonListContinuationElement1757,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2877, col: 10, offset: 91032},
+																													pos:        position{line: 2877, col: 10, offset: 91161},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37655,28 +37655,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91430},
+																											pos: position{line: 2899, col: 8, offset: 91559},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91203},
+																													pos: position{line: 2886, col: 12, offset: 91332},
 																													run: (*parser).callonListContinuationElement1760,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91204},
+																														pos: position{line: 2886, col: 13, offset: 91333},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91204},
+																																pos:        position{line: 2886, col: 13, offset: 91333},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91211},
+																																pos:        position{line: 2886, col: 20, offset: 91340},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91220},
+																																pos:        position{line: 2886, col: 29, offset: 91349},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37685,9 +37685,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91380},
+																													pos: position{line: 2896, col: 8, offset: 91509},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91381,
+																														line: 2896, col: 9, offset: 91510,
 																													},
 																												},
 																											},
@@ -37732,10 +37732,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 749, col: 8, offset: 23970},
 																											expr: &actionExpr{
-																												pos: position{line: 2877, col: 10, offset: 91032},
+																												pos: position{line: 2877, col: 10, offset: 91161},
 																												run: (*parser).callonListContinuationElement1776,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2877, col: 10, offset: 91032},
+																													pos:        position{line: 2877, col: 10, offset: 91161},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37744,28 +37744,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91430},
+																											pos: position{line: 2899, col: 8, offset: 91559},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91203},
+																													pos: position{line: 2886, col: 12, offset: 91332},
 																													run: (*parser).callonListContinuationElement1779,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91204},
+																														pos: position{line: 2886, col: 13, offset: 91333},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91204},
+																																pos:        position{line: 2886, col: 13, offset: 91333},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91211},
+																																pos:        position{line: 2886, col: 20, offset: 91340},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91220},
+																																pos:        position{line: 2886, col: 29, offset: 91349},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37774,9 +37774,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91380},
+																													pos: position{line: 2896, col: 8, offset: 91509},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91381,
+																														line: 2896, col: 9, offset: 91510,
 																													},
 																												},
 																											},
@@ -37817,10 +37817,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 760, col: 52, offset: 24382},
 																											expr: &actionExpr{
-																												pos: position{line: 2877, col: 10, offset: 91032},
+																												pos: position{line: 2877, col: 10, offset: 91161},
 																												run: (*parser).callonListContinuationElement1794,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2877, col: 10, offset: 91032},
+																													pos:        position{line: 2877, col: 10, offset: 91161},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37829,28 +37829,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91430},
+																											pos: position{line: 2899, col: 8, offset: 91559},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91203},
+																													pos: position{line: 2886, col: 12, offset: 91332},
 																													run: (*parser).callonListContinuationElement1797,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91204},
+																														pos: position{line: 2886, col: 13, offset: 91333},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91204},
+																																pos:        position{line: 2886, col: 13, offset: 91333},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91211},
+																																pos:        position{line: 2886, col: 20, offset: 91340},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91220},
+																																pos:        position{line: 2886, col: 29, offset: 91349},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37859,9 +37859,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91380},
+																													pos: position{line: 2896, col: 8, offset: 91509},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91381,
+																														line: 2896, col: 9, offset: 91510,
 																													},
 																												},
 																											},
@@ -37906,10 +37906,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 756, col: 8, offset: 24216},
 																											expr: &actionExpr{
-																												pos: position{line: 2877, col: 10, offset: 91032},
+																												pos: position{line: 2877, col: 10, offset: 91161},
 																												run: (*parser).callonListContinuationElement1813,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2877, col: 10, offset: 91032},
+																													pos:        position{line: 2877, col: 10, offset: 91161},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37918,28 +37918,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91430},
+																											pos: position{line: 2899, col: 8, offset: 91559},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91203},
+																													pos: position{line: 2886, col: 12, offset: 91332},
 																													run: (*parser).callonListContinuationElement1816,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91204},
+																														pos: position{line: 2886, col: 13, offset: 91333},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91204},
+																																pos:        position{line: 2886, col: 13, offset: 91333},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91211},
+																																pos:        position{line: 2886, col: 20, offset: 91340},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91220},
+																																pos:        position{line: 2886, col: 29, offset: 91349},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37948,9 +37948,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91380},
+																													pos: position{line: 2896, col: 8, offset: 91509},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91381,
+																														line: 2896, col: 9, offset: 91510,
 																													},
 																												},
 																											},
@@ -37995,10 +37995,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 771, col: 8, offset: 24759},
 																											expr: &actionExpr{
-																												pos: position{line: 2877, col: 10, offset: 91032},
+																												pos: position{line: 2877, col: 10, offset: 91161},
 																												run: (*parser).callonListContinuationElement1832,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2877, col: 10, offset: 91032},
+																													pos:        position{line: 2877, col: 10, offset: 91161},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38007,28 +38007,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91430},
+																											pos: position{line: 2899, col: 8, offset: 91559},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91203},
+																													pos: position{line: 2886, col: 12, offset: 91332},
 																													run: (*parser).callonListContinuationElement1835,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91204},
+																														pos: position{line: 2886, col: 13, offset: 91333},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91204},
+																																pos:        position{line: 2886, col: 13, offset: 91333},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91211},
+																																pos:        position{line: 2886, col: 20, offset: 91340},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91220},
+																																pos:        position{line: 2886, col: 29, offset: 91349},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38037,9 +38037,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91380},
+																													pos: position{line: 2896, col: 8, offset: 91509},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91381,
+																														line: 2896, col: 9, offset: 91510,
 																													},
 																												},
 																											},
@@ -38084,10 +38084,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 785, col: 8, offset: 25235},
 																											expr: &actionExpr{
-																												pos: position{line: 2877, col: 10, offset: 91032},
+																												pos: position{line: 2877, col: 10, offset: 91161},
 																												run: (*parser).callonListContinuationElement1851,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2877, col: 10, offset: 91032},
+																													pos:        position{line: 2877, col: 10, offset: 91161},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38096,28 +38096,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91430},
+																											pos: position{line: 2899, col: 8, offset: 91559},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91203},
+																													pos: position{line: 2886, col: 12, offset: 91332},
 																													run: (*parser).callonListContinuationElement1854,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91204},
+																														pos: position{line: 2886, col: 13, offset: 91333},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91204},
+																																pos:        position{line: 2886, col: 13, offset: 91333},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91211},
+																																pos:        position{line: 2886, col: 20, offset: 91340},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91220},
+																																pos:        position{line: 2886, col: 29, offset: 91349},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38126,9 +38126,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91380},
+																													pos: position{line: 2896, col: 8, offset: 91509},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91381,
+																														line: 2896, col: 9, offset: 91510,
 																													},
 																												},
 																											},
@@ -38173,10 +38173,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 792, col: 8, offset: 25487},
 																											expr: &actionExpr{
-																												pos: position{line: 2877, col: 10, offset: 91032},
+																												pos: position{line: 2877, col: 10, offset: 91161},
 																												run: (*parser).callonListContinuationElement1870,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2877, col: 10, offset: 91032},
+																													pos:        position{line: 2877, col: 10, offset: 91161},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38185,28 +38185,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91430},
+																											pos: position{line: 2899, col: 8, offset: 91559},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91203},
+																													pos: position{line: 2886, col: 12, offset: 91332},
 																													run: (*parser).callonListContinuationElement1873,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91204},
+																														pos: position{line: 2886, col: 13, offset: 91333},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91204},
+																																pos:        position{line: 2886, col: 13, offset: 91333},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91211},
+																																pos:        position{line: 2886, col: 20, offset: 91340},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91220},
+																																pos:        position{line: 2886, col: 29, offset: 91349},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38215,9 +38215,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91380},
+																													pos: position{line: 2896, col: 8, offset: 91509},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91381,
+																														line: 2896, col: 9, offset: 91510,
 																													},
 																												},
 																											},
@@ -38262,10 +38262,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 799, col: 8, offset: 25737},
 																											expr: &actionExpr{
-																												pos: position{line: 2877, col: 10, offset: 91032},
+																												pos: position{line: 2877, col: 10, offset: 91161},
 																												run: (*parser).callonListContinuationElement1889,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2877, col: 10, offset: 91032},
+																													pos:        position{line: 2877, col: 10, offset: 91161},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38274,28 +38274,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91430},
+																											pos: position{line: 2899, col: 8, offset: 91559},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91203},
+																													pos: position{line: 2886, col: 12, offset: 91332},
 																													run: (*parser).callonListContinuationElement1892,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91204},
+																														pos: position{line: 2886, col: 13, offset: 91333},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91204},
+																																pos:        position{line: 2886, col: 13, offset: 91333},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91211},
+																																pos:        position{line: 2886, col: 20, offset: 91340},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91220},
+																																pos:        position{line: 2886, col: 29, offset: 91349},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38304,9 +38304,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91380},
+																													pos: position{line: 2896, col: 8, offset: 91509},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91381,
+																														line: 2896, col: 9, offset: 91510,
 																													},
 																												},
 																											},
@@ -38351,10 +38351,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 806, col: 8, offset: 25983},
 																											expr: &actionExpr{
-																												pos: position{line: 2877, col: 10, offset: 91032},
+																												pos: position{line: 2877, col: 10, offset: 91161},
 																												run: (*parser).callonListContinuationElement1908,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2877, col: 10, offset: 91032},
+																													pos:        position{line: 2877, col: 10, offset: 91161},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38363,28 +38363,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91430},
+																											pos: position{line: 2899, col: 8, offset: 91559},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91203},
+																													pos: position{line: 2886, col: 12, offset: 91332},
 																													run: (*parser).callonListContinuationElement1911,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91204},
+																														pos: position{line: 2886, col: 13, offset: 91333},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91204},
+																																pos:        position{line: 2886, col: 13, offset: 91333},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91211},
+																																pos:        position{line: 2886, col: 20, offset: 91340},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91220},
+																																pos:        position{line: 2886, col: 29, offset: 91349},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38393,9 +38393,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91380},
+																													pos: position{line: 2896, col: 8, offset: 91509},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91381,
+																														line: 2896, col: 9, offset: 91510,
 																													},
 																												},
 																											},
@@ -38411,15 +38411,15 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1523, col: 5, offset: 49473},
+																	pos:   position{line: 1523, col: 5, offset: 49602},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2827, col: 14, offset: 89625},
+																		pos: position{line: 2827, col: 14, offset: 89754},
 																		run: (*parser).callonListContinuationElement1919,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2827, col: 14, offset: 89625},
+																			pos: position{line: 2827, col: 14, offset: 89754},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2827, col: 14, offset: 89625},
+																				pos:        position{line: 2827, col: 14, offset: 89754},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -38429,28 +38429,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91430},
+																	pos: position{line: 2899, col: 8, offset: 91559},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91203},
+																			pos: position{line: 2886, col: 12, offset: 91332},
 																			run: (*parser).callonListContinuationElement1923,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91204},
+																				pos: position{line: 2886, col: 13, offset: 91333},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91204},
+																						pos:        position{line: 2886, col: 13, offset: 91333},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91211},
+																						pos:        position{line: 2886, col: 20, offset: 91340},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91220},
+																						pos:        position{line: 2886, col: 29, offset: 91349},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -38459,9 +38459,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91380},
+																			pos: position{line: 2896, col: 8, offset: 91509},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91381,
+																				line: 2896, col: 9, offset: 91510,
 																			},
 																		},
 																	},
@@ -38482,33 +38482,33 @@ var g = &grammar{
 		},
 		{
 			name: "Callout",
-			pos:  position{line: 1712, col: 1, offset: 55345},
+			pos:  position{line: 1712, col: 1, offset: 55474},
 			expr: &actionExpr{
-				pos: position{line: 1714, col: 5, offset: 55423},
+				pos: position{line: 1714, col: 5, offset: 55552},
 				run: (*parser).callonCallout1,
 				expr: &seqExpr{
-					pos: position{line: 1714, col: 5, offset: 55423},
+					pos: position{line: 1714, col: 5, offset: 55552},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1714, col: 5, offset: 55423},
+							pos: position{line: 1714, col: 5, offset: 55552},
 							run: (*parser).callonCallout3,
 						},
 						&litMatcher{
-							pos:        position{line: 1717, col: 5, offset: 55490},
+							pos:        position{line: 1717, col: 5, offset: 55619},
 							val:        "<",
 							ignoreCase: false,
 							want:       "\"<\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1717, col: 9, offset: 55494},
+							pos:   position{line: 1717, col: 9, offset: 55623},
 							label: "ref",
 							expr: &actionExpr{
-								pos: position{line: 1717, col: 14, offset: 55499},
+								pos: position{line: 1717, col: 14, offset: 55628},
 								run: (*parser).callonCallout6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1717, col: 14, offset: 55499},
+									pos: position{line: 1717, col: 14, offset: 55628},
 									expr: &charClassMatcher{
-										pos:        position{line: 1717, col: 14, offset: 55499},
+										pos:        position{line: 1717, col: 14, offset: 55628},
 										val:        "[0-9]",
 										ranges:     []rune{'0', '9'},
 										ignoreCase: false,
@@ -38518,18 +38518,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1717, col: 62, offset: 55547},
+							pos:        position{line: 1717, col: 62, offset: 55676},
 							val:        ">",
 							ignoreCase: false,
 							want:       "\">\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1717, col: 66, offset: 55551},
+							pos: position{line: 1717, col: 66, offset: 55680},
 							expr: &actionExpr{
-								pos: position{line: 2877, col: 10, offset: 91032},
+								pos: position{line: 2877, col: 10, offset: 91161},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2877, col: 10, offset: 91032},
+									pos:        position{line: 2877, col: 10, offset: 91161},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -38538,30 +38538,30 @@ var g = &grammar{
 							},
 						},
 						&andExpr{
-							pos: position{line: 1717, col: 73, offset: 55558},
+							pos: position{line: 1717, col: 73, offset: 55687},
 							expr: &choiceExpr{
-								pos: position{line: 1717, col: 75, offset: 55560},
+								pos: position{line: 1717, col: 75, offset: 55689},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2886, col: 12, offset: 91203},
+										pos: position{line: 2886, col: 12, offset: 91332},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2886, col: 13, offset: 91204},
+											pos: position{line: 2886, col: 13, offset: 91333},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2886, col: 13, offset: 91204},
+													pos:        position{line: 2886, col: 13, offset: 91333},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2886, col: 20, offset: 91211},
+													pos:        position{line: 2886, col: 20, offset: 91340},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2886, col: 29, offset: 91220},
+													pos:        position{line: 2886, col: 29, offset: 91349},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -38570,13 +38570,13 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2896, col: 8, offset: 91380},
+										pos: position{line: 2896, col: 8, offset: 91509},
 										expr: &anyMatcher{
-											line: 2896, col: 9, offset: 91381,
+											line: 2896, col: 9, offset: 91510,
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1717, col: 81, offset: 55566},
+										pos:  position{line: 1717, col: 81, offset: 55695},
 										name: "Callout",
 									},
 								},
@@ -38588,44 +38588,44 @@ var g = &grammar{
 		},
 		{
 			name: "ShortcutParagraph",
-			pos:  position{line: 1756, col: 1, offset: 56743},
+			pos:  position{line: 1756, col: 1, offset: 56872},
 			expr: &actionExpr{
-				pos: position{line: 1758, col: 5, offset: 56817},
+				pos: position{line: 1758, col: 5, offset: 56946},
 				run: (*parser).callonShortcutParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1758, col: 5, offset: 56817},
+					pos: position{line: 1758, col: 5, offset: 56946},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 1758, col: 5, offset: 56817},
+							pos: position{line: 1758, col: 5, offset: 56946},
 							expr: &seqExpr{
-								pos: position{line: 1758, col: 7, offset: 56819},
+								pos: position{line: 1758, col: 7, offset: 56948},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2767, col: 13, offset: 88106},
+										pos:        position{line: 2767, col: 13, offset: 88235},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
 										inverted:   false,
 									},
 									&notExpr{
-										pos: position{line: 1758, col: 16, offset: 56828},
+										pos: position{line: 1758, col: 16, offset: 56957},
 										expr: &seqExpr{
-											pos: position{line: 1758, col: 18, offset: 56830},
+											pos: position{line: 1758, col: 18, offset: 56959},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 1758, col: 19, offset: 56831},
+													pos:        position{line: 1758, col: 19, offset: 56960},
 													val:        "[.)]",
 													chars:      []rune{'.', ')'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2881, col: 11, offset: 91093},
+													pos: position{line: 2881, col: 11, offset: 91222},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2881, col: 11, offset: 91093},
+														pos: position{line: 2881, col: 11, offset: 91222},
 														expr: &charClassMatcher{
-															pos:        position{line: 2881, col: 11, offset: 91093},
+															pos:        position{line: 2881, col: 11, offset: 91222},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -38640,88 +38640,88 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1759, col: 5, offset: 56971},
+							pos:   position{line: 1759, col: 5, offset: 57100},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1759, col: 11, offset: 56977},
+								pos: position{line: 1759, col: 11, offset: 57106},
 								expr: &actionExpr{
-									pos: position{line: 1737, col: 5, offset: 56236},
+									pos: position{line: 1737, col: 5, offset: 56365},
 									run: (*parser).callonShortcutParagraph14,
 									expr: &seqExpr{
-										pos: position{line: 1737, col: 5, offset: 56236},
+										pos: position{line: 1737, col: 5, offset: 56365},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1737, col: 5, offset: 56236},
+												pos: position{line: 1737, col: 5, offset: 56365},
 												run: (*parser).callonShortcutParagraph16,
 											},
 											&labeledExpr{
-												pos:   position{line: 1740, col: 5, offset: 56299},
+												pos:   position{line: 1740, col: 5, offset: 56428},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1740, col: 12, offset: 56306},
+													pos: position{line: 1740, col: 12, offset: 56435},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1740, col: 12, offset: 56306},
+															pos: position{line: 1740, col: 12, offset: 56435},
 															run: (*parser).callonShortcutParagraph19,
 															expr: &litMatcher{
-																pos:        position{line: 1740, col: 12, offset: 56306},
+																pos:        position{line: 1740, col: 12, offset: 56435},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1742, col: 13, offset: 56362},
+															pos: position{line: 1742, col: 13, offset: 56491},
 															run: (*parser).callonShortcutParagraph21,
 															expr: &litMatcher{
-																pos:        position{line: 1742, col: 13, offset: 56362},
+																pos:        position{line: 1742, col: 13, offset: 56491},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1744, col: 13, offset: 56420},
+															pos: position{line: 1744, col: 13, offset: 56549},
 															run: (*parser).callonShortcutParagraph23,
 															expr: &litMatcher{
-																pos:        position{line: 1744, col: 13, offset: 56420},
+																pos:        position{line: 1744, col: 13, offset: 56549},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1746, col: 13, offset: 56488},
+															pos: position{line: 1746, col: 13, offset: 56617},
 															run: (*parser).callonShortcutParagraph25,
 															expr: &litMatcher{
-																pos:        position{line: 1746, col: 13, offset: 56488},
+																pos:        position{line: 1746, col: 13, offset: 56617},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1748, col: 13, offset: 56552},
+															pos: position{line: 1748, col: 13, offset: 56681},
 															run: (*parser).callonShortcutParagraph27,
 															expr: &litMatcher{
-																pos:        position{line: 1748, col: 13, offset: 56552},
+																pos:        position{line: 1748, col: 13, offset: 56681},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1750, col: 13, offset: 56616},
+															pos: position{line: 1750, col: 13, offset: 56745},
 															run: (*parser).callonShortcutParagraph29,
 															expr: &andExpr{
-																pos: position{line: 1750, col: 13, offset: 56616},
+																pos: position{line: 1750, col: 13, offset: 56745},
 																expr: &actionExpr{
-																	pos: position{line: 2881, col: 11, offset: 91093},
+																	pos: position{line: 2881, col: 11, offset: 91222},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2881, col: 11, offset: 91093},
+																		pos: position{line: 2881, col: 11, offset: 91222},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2881, col: 11, offset: 91093},
+																			pos:        position{line: 2881, col: 11, offset: 91222},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -38735,17 +38735,17 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1752, col: 12, offset: 56686},
+												pos: position{line: 1752, col: 12, offset: 56815},
 												expr: &seqExpr{
-													pos: position{line: 1752, col: 14, offset: 56688},
+													pos: position{line: 1752, col: 14, offset: 56817},
 													exprs: []interface{}{
 														&zeroOrMoreExpr{
-															pos: position{line: 1752, col: 14, offset: 56688},
+															pos: position{line: 1752, col: 14, offset: 56817},
 															expr: &actionExpr{
-																pos: position{line: 2877, col: 10, offset: 91032},
+																pos: position{line: 2877, col: 10, offset: 91161},
 																run: (*parser).callonShortcutParagraph37,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2877, col: 10, offset: 91032},
+																	pos:        position{line: 2877, col: 10, offset: 91161},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -38754,28 +38754,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2899, col: 8, offset: 91430},
+															pos: position{line: 2899, col: 8, offset: 91559},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2886, col: 12, offset: 91203},
+																	pos: position{line: 2886, col: 12, offset: 91332},
 																	run: (*parser).callonShortcutParagraph40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2886, col: 13, offset: 91204},
+																		pos: position{line: 2886, col: 13, offset: 91333},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2886, col: 13, offset: 91204},
+																				pos:        position{line: 2886, col: 13, offset: 91333},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2886, col: 20, offset: 91211},
+																				pos:        position{line: 2886, col: 20, offset: 91340},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2886, col: 29, offset: 91220},
+																				pos:        position{line: 2886, col: 29, offset: 91349},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -38784,9 +38784,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2896, col: 8, offset: 91380},
+																	pos: position{line: 2896, col: 8, offset: 91509},
 																	expr: &anyMatcher{
-																		line: 2896, col: 9, offset: 91381,
+																		line: 2896, col: 9, offset: 91510,
 																	},
 																},
 															},
@@ -38800,24 +38800,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1760, col: 5, offset: 56999},
+							pos:   position{line: 1760, col: 5, offset: 57128},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1796, col: 5, offset: 58106},
+								pos: position{line: 1796, col: 5, offset: 58235},
 								run: (*parser).callonShortcutParagraph48,
 								expr: &seqExpr{
-									pos: position{line: 1796, col: 5, offset: 58106},
+									pos: position{line: 1796, col: 5, offset: 58235},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1796, col: 5, offset: 58106},
+											pos:   position{line: 1796, col: 5, offset: 58235},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2827, col: 14, offset: 89625},
+												pos: position{line: 2827, col: 14, offset: 89754},
 												run: (*parser).callonShortcutParagraph51,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2827, col: 14, offset: 89625},
+													pos: position{line: 2827, col: 14, offset: 89754},
 													expr: &charClassMatcher{
-														pos:        position{line: 2827, col: 14, offset: 89625},
+														pos:        position{line: 2827, col: 14, offset: 89754},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -38827,32 +38827,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1797, col: 5, offset: 58130},
+											pos: position{line: 1797, col: 5, offset: 58259},
 											run: (*parser).callonShortcutParagraph54,
 										},
 										&choiceExpr{
-											pos: position{line: 2899, col: 8, offset: 91430},
+											pos: position{line: 2899, col: 8, offset: 91559},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2886, col: 12, offset: 91203},
+													pos: position{line: 2886, col: 12, offset: 91332},
 													run: (*parser).callonShortcutParagraph56,
 													expr: &choiceExpr{
-														pos: position{line: 2886, col: 13, offset: 91204},
+														pos: position{line: 2886, col: 13, offset: 91333},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2886, col: 13, offset: 91204},
+																pos:        position{line: 2886, col: 13, offset: 91333},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2886, col: 20, offset: 91211},
+																pos:        position{line: 2886, col: 20, offset: 91340},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2886, col: 29, offset: 91220},
+																pos:        position{line: 2886, col: 29, offset: 91349},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -38861,9 +38861,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2896, col: 8, offset: 91380},
+													pos: position{line: 2896, col: 8, offset: 91509},
 													expr: &anyMatcher{
-														line: 2896, col: 9, offset: 91381,
+														line: 2896, col: 9, offset: 91510,
 													},
 												},
 											},
@@ -38873,28 +38873,28 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1761, col: 5, offset: 57033},
+							pos: position{line: 1761, col: 5, offset: 57162},
 							run: (*parser).callonShortcutParagraph63,
 						},
 						&labeledExpr{
-							pos:   position{line: 1768, col: 5, offset: 57363},
+							pos:   position{line: 1768, col: 5, offset: 57492},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1768, col: 16, offset: 57374},
+								pos: position{line: 1768, col: 16, offset: 57503},
 								expr: &actionExpr{
-									pos: position{line: 1769, col: 9, offset: 57384},
+									pos: position{line: 1769, col: 9, offset: 57513},
 									run: (*parser).callonShortcutParagraph66,
 									expr: &seqExpr{
-										pos: position{line: 1769, col: 9, offset: 57384},
+										pos: position{line: 1769, col: 9, offset: 57513},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2894, col: 11, offset: 91366},
+												pos: position{line: 2894, col: 11, offset: 91495},
 												expr: &anyMatcher{
-													line: 2894, col: 13, offset: 91368,
+													line: 2894, col: 13, offset: 91497,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1770, col: 9, offset: 57400},
+												pos: position{line: 1770, col: 9, offset: 57529},
 												expr: &actionExpr{
 													pos: position{line: 677, col: 14, offset: 21525},
 													run: (*parser).callonShortcutParagraph71,
@@ -38902,18 +38902,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21525},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2894, col: 11, offset: 91366},
+																pos: position{line: 2894, col: 11, offset: 91495},
 																expr: &anyMatcher{
-																	line: 2894, col: 13, offset: 91368,
+																	line: 2894, col: 13, offset: 91497,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21532},
 																expr: &actionExpr{
-																	pos: position{line: 2877, col: 10, offset: 91032},
+																	pos: position{line: 2877, col: 10, offset: 91161},
 																	run: (*parser).callonShortcutParagraph76,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2877, col: 10, offset: 91032},
+																		pos:        position{line: 2877, col: 10, offset: 91161},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -38922,28 +38922,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2899, col: 8, offset: 91430},
+																pos: position{line: 2899, col: 8, offset: 91559},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2886, col: 12, offset: 91203},
+																		pos: position{line: 2886, col: 12, offset: 91332},
 																		run: (*parser).callonShortcutParagraph79,
 																		expr: &choiceExpr{
-																			pos: position{line: 2886, col: 13, offset: 91204},
+																			pos: position{line: 2886, col: 13, offset: 91333},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 13, offset: 91204},
+																					pos:        position{line: 2886, col: 13, offset: 91333},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 20, offset: 91211},
+																					pos:        position{line: 2886, col: 20, offset: 91340},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 29, offset: 91220},
+																					pos:        position{line: 2886, col: 29, offset: 91349},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -38952,9 +38952,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2896, col: 8, offset: 91380},
+																		pos: position{line: 2896, col: 8, offset: 91509},
 																		expr: &anyMatcher{
-																			line: 2896, col: 9, offset: 91381,
+																			line: 2896, col: 9, offset: 91510,
 																		},
 																	},
 																},
@@ -38964,14 +38964,14 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1771, col: 9, offset: 57419},
+												pos: position{line: 1771, col: 9, offset: 57548},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1771, col: 10, offset: 57420},
+													pos:  position{line: 1771, col: 10, offset: 57549},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1772, col: 9, offset: 57444},
+												pos: position{line: 1772, col: 9, offset: 57573},
 												expr: &actionExpr{
 													pos: position{line: 724, col: 5, offset: 23078},
 													run: (*parser).callonShortcutParagraph89,
@@ -38981,7 +38981,7 @@ var g = &grammar{
 															&notExpr{
 																pos: position{line: 724, col: 5, offset: 23078},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2767, col: 13, offset: 88106},
+																	pos:        position{line: 2767, col: 13, offset: 88235},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -39031,10 +39031,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 742, col: 8, offset: 23722},
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 10, offset: 91032},
+																							pos: position{line: 2877, col: 10, offset: 91161},
 																							run: (*parser).callonShortcutParagraph104,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2877, col: 10, offset: 91032},
+																								pos:        position{line: 2877, col: 10, offset: 91161},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39043,28 +39043,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91430},
+																						pos: position{line: 2899, col: 8, offset: 91559},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91203},
+																								pos: position{line: 2886, col: 12, offset: 91332},
 																								run: (*parser).callonShortcutParagraph107,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91204},
+																									pos: position{line: 2886, col: 13, offset: 91333},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91204},
+																											pos:        position{line: 2886, col: 13, offset: 91333},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91211},
+																											pos:        position{line: 2886, col: 20, offset: 91340},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91220},
+																											pos:        position{line: 2886, col: 29, offset: 91349},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39073,9 +39073,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91380},
+																								pos: position{line: 2896, col: 8, offset: 91509},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91381,
+																									line: 2896, col: 9, offset: 91510,
 																								},
 																							},
 																						},
@@ -39120,10 +39120,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 749, col: 8, offset: 23970},
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 10, offset: 91032},
+																							pos: position{line: 2877, col: 10, offset: 91161},
 																							run: (*parser).callonShortcutParagraph123,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2877, col: 10, offset: 91032},
+																								pos:        position{line: 2877, col: 10, offset: 91161},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39132,28 +39132,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91430},
+																						pos: position{line: 2899, col: 8, offset: 91559},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91203},
+																								pos: position{line: 2886, col: 12, offset: 91332},
 																								run: (*parser).callonShortcutParagraph126,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91204},
+																									pos: position{line: 2886, col: 13, offset: 91333},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91204},
+																											pos:        position{line: 2886, col: 13, offset: 91333},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91211},
+																											pos:        position{line: 2886, col: 20, offset: 91340},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91220},
+																											pos:        position{line: 2886, col: 29, offset: 91349},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39162,9 +39162,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91380},
+																								pos: position{line: 2896, col: 8, offset: 91509},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91381,
+																									line: 2896, col: 9, offset: 91510,
 																								},
 																							},
 																						},
@@ -39205,10 +39205,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 760, col: 52, offset: 24382},
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 10, offset: 91032},
+																							pos: position{line: 2877, col: 10, offset: 91161},
 																							run: (*parser).callonShortcutParagraph141,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2877, col: 10, offset: 91032},
+																								pos:        position{line: 2877, col: 10, offset: 91161},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39217,28 +39217,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91430},
+																						pos: position{line: 2899, col: 8, offset: 91559},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91203},
+																								pos: position{line: 2886, col: 12, offset: 91332},
 																								run: (*parser).callonShortcutParagraph144,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91204},
+																									pos: position{line: 2886, col: 13, offset: 91333},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91204},
+																											pos:        position{line: 2886, col: 13, offset: 91333},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91211},
+																											pos:        position{line: 2886, col: 20, offset: 91340},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91220},
+																											pos:        position{line: 2886, col: 29, offset: 91349},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39247,9 +39247,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91380},
+																								pos: position{line: 2896, col: 8, offset: 91509},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91381,
+																									line: 2896, col: 9, offset: 91510,
 																								},
 																							},
 																						},
@@ -39294,10 +39294,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 756, col: 8, offset: 24216},
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 10, offset: 91032},
+																							pos: position{line: 2877, col: 10, offset: 91161},
 																							run: (*parser).callonShortcutParagraph160,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2877, col: 10, offset: 91032},
+																								pos:        position{line: 2877, col: 10, offset: 91161},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39306,28 +39306,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91430},
+																						pos: position{line: 2899, col: 8, offset: 91559},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91203},
+																								pos: position{line: 2886, col: 12, offset: 91332},
 																								run: (*parser).callonShortcutParagraph163,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91204},
+																									pos: position{line: 2886, col: 13, offset: 91333},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91204},
+																											pos:        position{line: 2886, col: 13, offset: 91333},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91211},
+																											pos:        position{line: 2886, col: 20, offset: 91340},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91220},
+																											pos:        position{line: 2886, col: 29, offset: 91349},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39336,9 +39336,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91380},
+																								pos: position{line: 2896, col: 8, offset: 91509},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91381,
+																									line: 2896, col: 9, offset: 91510,
 																								},
 																							},
 																						},
@@ -39383,10 +39383,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 771, col: 8, offset: 24759},
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 10, offset: 91032},
+																							pos: position{line: 2877, col: 10, offset: 91161},
 																							run: (*parser).callonShortcutParagraph179,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2877, col: 10, offset: 91032},
+																								pos:        position{line: 2877, col: 10, offset: 91161},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39395,28 +39395,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91430},
+																						pos: position{line: 2899, col: 8, offset: 91559},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91203},
+																								pos: position{line: 2886, col: 12, offset: 91332},
 																								run: (*parser).callonShortcutParagraph182,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91204},
+																									pos: position{line: 2886, col: 13, offset: 91333},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91204},
+																											pos:        position{line: 2886, col: 13, offset: 91333},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91211},
+																											pos:        position{line: 2886, col: 20, offset: 91340},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91220},
+																											pos:        position{line: 2886, col: 29, offset: 91349},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39425,9 +39425,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91380},
+																								pos: position{line: 2896, col: 8, offset: 91509},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91381,
+																									line: 2896, col: 9, offset: 91510,
 																								},
 																							},
 																						},
@@ -39472,10 +39472,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 785, col: 8, offset: 25235},
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 10, offset: 91032},
+																							pos: position{line: 2877, col: 10, offset: 91161},
 																							run: (*parser).callonShortcutParagraph198,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2877, col: 10, offset: 91032},
+																								pos:        position{line: 2877, col: 10, offset: 91161},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39484,28 +39484,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91430},
+																						pos: position{line: 2899, col: 8, offset: 91559},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91203},
+																								pos: position{line: 2886, col: 12, offset: 91332},
 																								run: (*parser).callonShortcutParagraph201,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91204},
+																									pos: position{line: 2886, col: 13, offset: 91333},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91204},
+																											pos:        position{line: 2886, col: 13, offset: 91333},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91211},
+																											pos:        position{line: 2886, col: 20, offset: 91340},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91220},
+																											pos:        position{line: 2886, col: 29, offset: 91349},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39514,9 +39514,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91380},
+																								pos: position{line: 2896, col: 8, offset: 91509},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91381,
+																									line: 2896, col: 9, offset: 91510,
 																								},
 																							},
 																						},
@@ -39561,10 +39561,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 792, col: 8, offset: 25487},
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 10, offset: 91032},
+																							pos: position{line: 2877, col: 10, offset: 91161},
 																							run: (*parser).callonShortcutParagraph217,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2877, col: 10, offset: 91032},
+																								pos:        position{line: 2877, col: 10, offset: 91161},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39573,28 +39573,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91430},
+																						pos: position{line: 2899, col: 8, offset: 91559},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91203},
+																								pos: position{line: 2886, col: 12, offset: 91332},
 																								run: (*parser).callonShortcutParagraph220,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91204},
+																									pos: position{line: 2886, col: 13, offset: 91333},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91204},
+																											pos:        position{line: 2886, col: 13, offset: 91333},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91211},
+																											pos:        position{line: 2886, col: 20, offset: 91340},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91220},
+																											pos:        position{line: 2886, col: 29, offset: 91349},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39603,9 +39603,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91380},
+																								pos: position{line: 2896, col: 8, offset: 91509},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91381,
+																									line: 2896, col: 9, offset: 91510,
 																								},
 																							},
 																						},
@@ -39650,10 +39650,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 799, col: 8, offset: 25737},
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 10, offset: 91032},
+																							pos: position{line: 2877, col: 10, offset: 91161},
 																							run: (*parser).callonShortcutParagraph236,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2877, col: 10, offset: 91032},
+																								pos:        position{line: 2877, col: 10, offset: 91161},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39662,28 +39662,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91430},
+																						pos: position{line: 2899, col: 8, offset: 91559},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91203},
+																								pos: position{line: 2886, col: 12, offset: 91332},
 																								run: (*parser).callonShortcutParagraph239,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91204},
+																									pos: position{line: 2886, col: 13, offset: 91333},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91204},
+																											pos:        position{line: 2886, col: 13, offset: 91333},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91211},
+																											pos:        position{line: 2886, col: 20, offset: 91340},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91220},
+																											pos:        position{line: 2886, col: 29, offset: 91349},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39692,9 +39692,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91380},
+																								pos: position{line: 2896, col: 8, offset: 91509},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91381,
+																									line: 2896, col: 9, offset: 91510,
 																								},
 																							},
 																						},
@@ -39739,10 +39739,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 806, col: 8, offset: 25983},
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 10, offset: 91032},
+																							pos: position{line: 2877, col: 10, offset: 91161},
 																							run: (*parser).callonShortcutParagraph255,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2877, col: 10, offset: 91032},
+																								pos:        position{line: 2877, col: 10, offset: 91161},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39751,28 +39751,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91430},
+																						pos: position{line: 2899, col: 8, offset: 91559},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91203},
+																								pos: position{line: 2886, col: 12, offset: 91332},
 																								run: (*parser).callonShortcutParagraph258,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91204},
+																									pos: position{line: 2886, col: 13, offset: 91333},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91204},
+																											pos:        position{line: 2886, col: 13, offset: 91333},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91211},
+																											pos:        position{line: 2886, col: 20, offset: 91340},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91220},
+																											pos:        position{line: 2886, col: 29, offset: 91349},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39781,9 +39781,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91380},
+																								pos: position{line: 2896, col: 8, offset: 91509},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91381,
+																									line: 2896, col: 9, offset: 91510,
 																								},
 																							},
 																						},
@@ -39799,23 +39799,23 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1773, col: 9, offset: 57468},
+												pos: position{line: 1773, col: 9, offset: 57597},
 												expr: &seqExpr{
-													pos: position{line: 1547, col: 27, offset: 50101},
+													pos: position{line: 1547, col: 27, offset: 50230},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 1547, col: 27, offset: 50101},
+															pos:        position{line: 1547, col: 27, offset: 50230},
 															val:        "+",
 															ignoreCase: false,
 															want:       "\"+\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 1547, col: 31, offset: 50105},
+															pos: position{line: 1547, col: 31, offset: 50234},
 															expr: &actionExpr{
-																pos: position{line: 2877, col: 10, offset: 91032},
+																pos: position{line: 2877, col: 10, offset: 91161},
 																run: (*parser).callonShortcutParagraph269,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2877, col: 10, offset: 91032},
+																	pos:        position{line: 2877, col: 10, offset: 91161},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -39824,25 +39824,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2886, col: 12, offset: 91203},
+															pos: position{line: 2886, col: 12, offset: 91332},
 															run: (*parser).callonShortcutParagraph271,
 															expr: &choiceExpr{
-																pos: position{line: 2886, col: 13, offset: 91204},
+																pos: position{line: 2886, col: 13, offset: 91333},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 13, offset: 91204},
+																		pos:        position{line: 2886, col: 13, offset: 91333},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 20, offset: 91211},
+																		pos:        position{line: 2886, col: 20, offset: 91340},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 29, offset: 91220},
+																		pos:        position{line: 2886, col: 29, offset: 91349},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -39854,42 +39854,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1774, col: 9, offset: 57500},
+												pos:   position{line: 1774, col: 9, offset: 57629},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1774, col: 15, offset: 57506},
+													pos: position{line: 1774, col: 15, offset: 57635},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2484, col: 22, offset: 79918},
+															pos: position{line: 2484, col: 22, offset: 80047},
 															run: (*parser).callonShortcutParagraph278,
 															expr: &seqExpr{
-																pos: position{line: 2484, col: 22, offset: 79918},
+																pos: position{line: 2484, col: 22, offset: 80047},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2489, col: 31, offset: 80139},
+																		pos:        position{line: 2489, col: 31, offset: 80268},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2489, col: 36, offset: 80144},
+																		pos: position{line: 2489, col: 36, offset: 80273},
 																		expr: &litMatcher{
-																			pos:        position{line: 2489, col: 37, offset: 80145},
+																			pos:        position{line: 2489, col: 37, offset: 80274},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2484, col: 49, offset: 79945},
+																		pos:   position{line: 2484, col: 49, offset: 80074},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2823, col: 13, offset: 89558},
+																			pos: position{line: 2823, col: 13, offset: 89687},
 																			run: (*parser).callonShortcutParagraph284,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2823, col: 13, offset: 89558},
+																				pos: position{line: 2823, col: 13, offset: 89687},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2823, col: 13, offset: 89558},
+																					pos:        position{line: 2823, col: 13, offset: 89687},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39899,28 +39899,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2899, col: 8, offset: 91430},
+																		pos: position{line: 2899, col: 8, offset: 91559},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91203},
+																				pos: position{line: 2886, col: 12, offset: 91332},
 																				run: (*parser).callonShortcutParagraph288,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91204},
+																					pos: position{line: 2886, col: 13, offset: 91333},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91204},
+																							pos:        position{line: 2886, col: 13, offset: 91333},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91211},
+																							pos:        position{line: 2886, col: 20, offset: 91340},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91220},
+																							pos:        position{line: 2886, col: 29, offset: 91349},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39929,9 +39929,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2896, col: 8, offset: 91380},
+																				pos: position{line: 2896, col: 8, offset: 91509},
 																				expr: &anyMatcher{
-																					line: 2896, col: 9, offset: 91381,
+																					line: 2896, col: 9, offset: 91510,
 																				},
 																			},
 																		},
@@ -39940,21 +39940,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1796, col: 5, offset: 58106},
+															pos: position{line: 1796, col: 5, offset: 58235},
 															run: (*parser).callonShortcutParagraph295,
 															expr: &seqExpr{
-																pos: position{line: 1796, col: 5, offset: 58106},
+																pos: position{line: 1796, col: 5, offset: 58235},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1796, col: 5, offset: 58106},
+																		pos:   position{line: 1796, col: 5, offset: 58235},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2827, col: 14, offset: 89625},
+																			pos: position{line: 2827, col: 14, offset: 89754},
 																			run: (*parser).callonShortcutParagraph298,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2827, col: 14, offset: 89625},
+																				pos: position{line: 2827, col: 14, offset: 89754},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2827, col: 14, offset: 89625},
+																					pos:        position{line: 2827, col: 14, offset: 89754},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39964,32 +39964,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1797, col: 5, offset: 58130},
+																		pos: position{line: 1797, col: 5, offset: 58259},
 																		run: (*parser).callonShortcutParagraph301,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2899, col: 8, offset: 91430},
+																		pos: position{line: 2899, col: 8, offset: 91559},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91203},
+																				pos: position{line: 2886, col: 12, offset: 91332},
 																				run: (*parser).callonShortcutParagraph303,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91204},
+																					pos: position{line: 2886, col: 13, offset: 91333},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91204},
+																							pos:        position{line: 2886, col: 13, offset: 91333},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91211},
+																							pos:        position{line: 2886, col: 20, offset: 91340},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91220},
+																							pos:        position{line: 2886, col: 29, offset: 91349},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39998,9 +39998,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2896, col: 8, offset: 91380},
+																				pos: position{line: 2896, col: 8, offset: 91509},
 																				expr: &anyMatcher{
-																					line: 2896, col: 9, offset: 91381,
+																					line: 2896, col: 9, offset: 91510,
 																				},
 																			},
 																		},
@@ -40022,96 +40022,96 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraph",
-			pos:  position{line: 1781, col: 1, offset: 57710},
+			pos:  position{line: 1781, col: 1, offset: 57839},
 			expr: &actionExpr{
-				pos: position{line: 1782, col: 5, offset: 57728},
+				pos: position{line: 1782, col: 5, offset: 57857},
 				run: (*parser).callonParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1782, col: 5, offset: 57728},
+					pos: position{line: 1782, col: 5, offset: 57857},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1782, col: 5, offset: 57728},
+							pos:   position{line: 1782, col: 5, offset: 57857},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1782, col: 11, offset: 57734},
+								pos: position{line: 1782, col: 11, offset: 57863},
 								expr: &actionExpr{
-									pos: position{line: 1737, col: 5, offset: 56236},
+									pos: position{line: 1737, col: 5, offset: 56365},
 									run: (*parser).callonParagraph5,
 									expr: &seqExpr{
-										pos: position{line: 1737, col: 5, offset: 56236},
+										pos: position{line: 1737, col: 5, offset: 56365},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1737, col: 5, offset: 56236},
+												pos: position{line: 1737, col: 5, offset: 56365},
 												run: (*parser).callonParagraph7,
 											},
 											&labeledExpr{
-												pos:   position{line: 1740, col: 5, offset: 56299},
+												pos:   position{line: 1740, col: 5, offset: 56428},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1740, col: 12, offset: 56306},
+													pos: position{line: 1740, col: 12, offset: 56435},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1740, col: 12, offset: 56306},
+															pos: position{line: 1740, col: 12, offset: 56435},
 															run: (*parser).callonParagraph10,
 															expr: &litMatcher{
-																pos:        position{line: 1740, col: 12, offset: 56306},
+																pos:        position{line: 1740, col: 12, offset: 56435},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1742, col: 13, offset: 56362},
+															pos: position{line: 1742, col: 13, offset: 56491},
 															run: (*parser).callonParagraph12,
 															expr: &litMatcher{
-																pos:        position{line: 1742, col: 13, offset: 56362},
+																pos:        position{line: 1742, col: 13, offset: 56491},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1744, col: 13, offset: 56420},
+															pos: position{line: 1744, col: 13, offset: 56549},
 															run: (*parser).callonParagraph14,
 															expr: &litMatcher{
-																pos:        position{line: 1744, col: 13, offset: 56420},
+																pos:        position{line: 1744, col: 13, offset: 56549},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1746, col: 13, offset: 56488},
+															pos: position{line: 1746, col: 13, offset: 56617},
 															run: (*parser).callonParagraph16,
 															expr: &litMatcher{
-																pos:        position{line: 1746, col: 13, offset: 56488},
+																pos:        position{line: 1746, col: 13, offset: 56617},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1748, col: 13, offset: 56552},
+															pos: position{line: 1748, col: 13, offset: 56681},
 															run: (*parser).callonParagraph18,
 															expr: &litMatcher{
-																pos:        position{line: 1748, col: 13, offset: 56552},
+																pos:        position{line: 1748, col: 13, offset: 56681},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1750, col: 13, offset: 56616},
+															pos: position{line: 1750, col: 13, offset: 56745},
 															run: (*parser).callonParagraph20,
 															expr: &andExpr{
-																pos: position{line: 1750, col: 13, offset: 56616},
+																pos: position{line: 1750, col: 13, offset: 56745},
 																expr: &actionExpr{
-																	pos: position{line: 2881, col: 11, offset: 91093},
+																	pos: position{line: 2881, col: 11, offset: 91222},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2881, col: 11, offset: 91093},
+																		pos: position{line: 2881, col: 11, offset: 91222},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2881, col: 11, offset: 91093},
+																			pos:        position{line: 2881, col: 11, offset: 91222},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -40125,17 +40125,17 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1752, col: 12, offset: 56686},
+												pos: position{line: 1752, col: 12, offset: 56815},
 												expr: &seqExpr{
-													pos: position{line: 1752, col: 14, offset: 56688},
+													pos: position{line: 1752, col: 14, offset: 56817},
 													exprs: []interface{}{
 														&zeroOrMoreExpr{
-															pos: position{line: 1752, col: 14, offset: 56688},
+															pos: position{line: 1752, col: 14, offset: 56817},
 															expr: &actionExpr{
-																pos: position{line: 2877, col: 10, offset: 91032},
+																pos: position{line: 2877, col: 10, offset: 91161},
 																run: (*parser).callonParagraph28,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2877, col: 10, offset: 91032},
+																	pos:        position{line: 2877, col: 10, offset: 91161},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -40144,28 +40144,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2899, col: 8, offset: 91430},
+															pos: position{line: 2899, col: 8, offset: 91559},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2886, col: 12, offset: 91203},
+																	pos: position{line: 2886, col: 12, offset: 91332},
 																	run: (*parser).callonParagraph31,
 																	expr: &choiceExpr{
-																		pos: position{line: 2886, col: 13, offset: 91204},
+																		pos: position{line: 2886, col: 13, offset: 91333},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2886, col: 13, offset: 91204},
+																				pos:        position{line: 2886, col: 13, offset: 91333},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2886, col: 20, offset: 91211},
+																				pos:        position{line: 2886, col: 20, offset: 91340},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2886, col: 29, offset: 91220},
+																				pos:        position{line: 2886, col: 29, offset: 91349},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -40174,9 +40174,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2896, col: 8, offset: 91380},
+																	pos: position{line: 2896, col: 8, offset: 91509},
 																	expr: &anyMatcher{
-																		line: 2896, col: 9, offset: 91381,
+																		line: 2896, col: 9, offset: 91510,
 																	},
 																},
 															},
@@ -40190,24 +40190,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1783, col: 5, offset: 57757},
+							pos:   position{line: 1783, col: 5, offset: 57886},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1796, col: 5, offset: 58106},
+								pos: position{line: 1796, col: 5, offset: 58235},
 								run: (*parser).callonParagraph39,
 								expr: &seqExpr{
-									pos: position{line: 1796, col: 5, offset: 58106},
+									pos: position{line: 1796, col: 5, offset: 58235},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1796, col: 5, offset: 58106},
+											pos:   position{line: 1796, col: 5, offset: 58235},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2827, col: 14, offset: 89625},
+												pos: position{line: 2827, col: 14, offset: 89754},
 												run: (*parser).callonParagraph42,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2827, col: 14, offset: 89625},
+													pos: position{line: 2827, col: 14, offset: 89754},
 													expr: &charClassMatcher{
-														pos:        position{line: 2827, col: 14, offset: 89625},
+														pos:        position{line: 2827, col: 14, offset: 89754},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -40217,32 +40217,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1797, col: 5, offset: 58130},
+											pos: position{line: 1797, col: 5, offset: 58259},
 											run: (*parser).callonParagraph45,
 										},
 										&choiceExpr{
-											pos: position{line: 2899, col: 8, offset: 91430},
+											pos: position{line: 2899, col: 8, offset: 91559},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2886, col: 12, offset: 91203},
+													pos: position{line: 2886, col: 12, offset: 91332},
 													run: (*parser).callonParagraph47,
 													expr: &choiceExpr{
-														pos: position{line: 2886, col: 13, offset: 91204},
+														pos: position{line: 2886, col: 13, offset: 91333},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2886, col: 13, offset: 91204},
+																pos:        position{line: 2886, col: 13, offset: 91333},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2886, col: 20, offset: 91211},
+																pos:        position{line: 2886, col: 20, offset: 91340},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2886, col: 29, offset: 91220},
+																pos:        position{line: 2886, col: 29, offset: 91349},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -40251,9 +40251,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2896, col: 8, offset: 91380},
+													pos: position{line: 2896, col: 8, offset: 91509},
 													expr: &anyMatcher{
-														line: 2896, col: 9, offset: 91381,
+														line: 2896, col: 9, offset: 91510,
 													},
 												},
 											},
@@ -40263,24 +40263,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1784, col: 5, offset: 57791},
+							pos:   position{line: 1784, col: 5, offset: 57920},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1784, col: 16, offset: 57802},
+								pos: position{line: 1784, col: 16, offset: 57931},
 								expr: &actionExpr{
-									pos: position{line: 1785, col: 9, offset: 57812},
+									pos: position{line: 1785, col: 9, offset: 57941},
 									run: (*parser).callonParagraph56,
 									expr: &seqExpr{
-										pos: position{line: 1785, col: 9, offset: 57812},
+										pos: position{line: 1785, col: 9, offset: 57941},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2894, col: 11, offset: 91366},
+												pos: position{line: 2894, col: 11, offset: 91495},
 												expr: &anyMatcher{
-													line: 2894, col: 13, offset: 91368,
+													line: 2894, col: 13, offset: 91497,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1786, col: 9, offset: 57827},
+												pos: position{line: 1786, col: 9, offset: 57956},
 												expr: &actionExpr{
 													pos: position{line: 677, col: 14, offset: 21525},
 													run: (*parser).callonParagraph61,
@@ -40288,18 +40288,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21525},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2894, col: 11, offset: 91366},
+																pos: position{line: 2894, col: 11, offset: 91495},
 																expr: &anyMatcher{
-																	line: 2894, col: 13, offset: 91368,
+																	line: 2894, col: 13, offset: 91497,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21532},
 																expr: &actionExpr{
-																	pos: position{line: 2877, col: 10, offset: 91032},
+																	pos: position{line: 2877, col: 10, offset: 91161},
 																	run: (*parser).callonParagraph66,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2877, col: 10, offset: 91032},
+																		pos:        position{line: 2877, col: 10, offset: 91161},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -40308,28 +40308,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2899, col: 8, offset: 91430},
+																pos: position{line: 2899, col: 8, offset: 91559},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2886, col: 12, offset: 91203},
+																		pos: position{line: 2886, col: 12, offset: 91332},
 																		run: (*parser).callonParagraph69,
 																		expr: &choiceExpr{
-																			pos: position{line: 2886, col: 13, offset: 91204},
+																			pos: position{line: 2886, col: 13, offset: 91333},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 13, offset: 91204},
+																					pos:        position{line: 2886, col: 13, offset: 91333},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 20, offset: 91211},
+																					pos:        position{line: 2886, col: 20, offset: 91340},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 29, offset: 91220},
+																					pos:        position{line: 2886, col: 29, offset: 91349},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -40338,9 +40338,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2896, col: 8, offset: 91380},
+																		pos: position{line: 2896, col: 8, offset: 91509},
 																		expr: &anyMatcher{
-																			line: 2896, col: 9, offset: 91381,
+																			line: 2896, col: 9, offset: 91510,
 																		},
 																	},
 																},
@@ -40350,49 +40350,49 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1787, col: 9, offset: 57846},
+												pos: position{line: 1787, col: 9, offset: 57975},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1787, col: 10, offset: 57847},
+													pos:  position{line: 1787, col: 10, offset: 57976},
 													name: "BlockAttributes",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1788, col: 9, offset: 57871},
+												pos:   position{line: 1788, col: 9, offset: 58000},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1788, col: 15, offset: 57877},
+													pos: position{line: 1788, col: 15, offset: 58006},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2484, col: 22, offset: 79918},
+															pos: position{line: 2484, col: 22, offset: 80047},
 															run: (*parser).callonParagraph80,
 															expr: &seqExpr{
-																pos: position{line: 2484, col: 22, offset: 79918},
+																pos: position{line: 2484, col: 22, offset: 80047},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2489, col: 31, offset: 80139},
+																		pos:        position{line: 2489, col: 31, offset: 80268},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2489, col: 36, offset: 80144},
+																		pos: position{line: 2489, col: 36, offset: 80273},
 																		expr: &litMatcher{
-																			pos:        position{line: 2489, col: 37, offset: 80145},
+																			pos:        position{line: 2489, col: 37, offset: 80274},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2484, col: 49, offset: 79945},
+																		pos:   position{line: 2484, col: 49, offset: 80074},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2823, col: 13, offset: 89558},
+																			pos: position{line: 2823, col: 13, offset: 89687},
 																			run: (*parser).callonParagraph86,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2823, col: 13, offset: 89558},
+																				pos: position{line: 2823, col: 13, offset: 89687},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2823, col: 13, offset: 89558},
+																					pos:        position{line: 2823, col: 13, offset: 89687},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40402,28 +40402,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2899, col: 8, offset: 91430},
+																		pos: position{line: 2899, col: 8, offset: 91559},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91203},
+																				pos: position{line: 2886, col: 12, offset: 91332},
 																				run: (*parser).callonParagraph90,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91204},
+																					pos: position{line: 2886, col: 13, offset: 91333},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91204},
+																							pos:        position{line: 2886, col: 13, offset: 91333},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91211},
+																							pos:        position{line: 2886, col: 20, offset: 91340},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91220},
+																							pos:        position{line: 2886, col: 29, offset: 91349},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40432,9 +40432,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2896, col: 8, offset: 91380},
+																				pos: position{line: 2896, col: 8, offset: 91509},
 																				expr: &anyMatcher{
-																					line: 2896, col: 9, offset: 91381,
+																					line: 2896, col: 9, offset: 91510,
 																				},
 																			},
 																		},
@@ -40443,21 +40443,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1796, col: 5, offset: 58106},
+															pos: position{line: 1796, col: 5, offset: 58235},
 															run: (*parser).callonParagraph97,
 															expr: &seqExpr{
-																pos: position{line: 1796, col: 5, offset: 58106},
+																pos: position{line: 1796, col: 5, offset: 58235},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1796, col: 5, offset: 58106},
+																		pos:   position{line: 1796, col: 5, offset: 58235},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2827, col: 14, offset: 89625},
+																			pos: position{line: 2827, col: 14, offset: 89754},
 																			run: (*parser).callonParagraph100,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2827, col: 14, offset: 89625},
+																				pos: position{line: 2827, col: 14, offset: 89754},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2827, col: 14, offset: 89625},
+																					pos:        position{line: 2827, col: 14, offset: 89754},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40467,32 +40467,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1797, col: 5, offset: 58130},
+																		pos: position{line: 1797, col: 5, offset: 58259},
 																		run: (*parser).callonParagraph103,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2899, col: 8, offset: 91430},
+																		pos: position{line: 2899, col: 8, offset: 91559},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91203},
+																				pos: position{line: 2886, col: 12, offset: 91332},
 																				run: (*parser).callonParagraph105,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91204},
+																					pos: position{line: 2886, col: 13, offset: 91333},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91204},
+																							pos:        position{line: 2886, col: 13, offset: 91333},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91211},
+																							pos:        position{line: 2886, col: 20, offset: 91340},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91220},
+																							pos:        position{line: 2886, col: 29, offset: 91349},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40501,9 +40501,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2896, col: 8, offset: 91380},
+																				pos: position{line: 2896, col: 8, offset: 91509},
 																				expr: &anyMatcher{
-																					line: 2896, col: 9, offset: 91381,
+																					line: 2896, col: 9, offset: 91510,
 																				},
 																			},
 																		},
@@ -40525,16 +40525,16 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedText",
-			pos:  position{line: 1807, col: 1, offset: 58612},
+			pos:  position{line: 1807, col: 1, offset: 58741},
 			expr: &choiceExpr{
-				pos: position{line: 1807, col: 15, offset: 58626},
+				pos: position{line: 1807, col: 15, offset: 58755},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1807, col: 15, offset: 58626},
+						pos:  position{line: 1807, col: 15, offset: 58755},
 						name: "EscapedQuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1807, col: 35, offset: 58646},
+						pos:  position{line: 1807, col: 35, offset: 58775},
 						name: "UnescapedQuotedText",
 					},
 				},
@@ -40542,65 +40542,65 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedQuotedText",
-			pos:  position{line: 1809, col: 1, offset: 58667},
+			pos:  position{line: 1809, col: 1, offset: 58796},
 			expr: &actionExpr{
-				pos: position{line: 1810, col: 5, offset: 58692},
+				pos: position{line: 1810, col: 5, offset: 58821},
 				run: (*parser).callonEscapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1810, col: 5, offset: 58692},
+					pos: position{line: 1810, col: 5, offset: 58821},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1810, col: 5, offset: 58692},
+							pos:   position{line: 1810, col: 5, offset: 58821},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1810, col: 16, offset: 58703},
+								pos: position{line: 1810, col: 16, offset: 58832},
 								expr: &actionExpr{
-									pos: position{line: 1810, col: 17, offset: 58704},
+									pos: position{line: 1810, col: 17, offset: 58833},
 									run: (*parser).callonEscapedQuotedText5,
 									expr: &ruleRefExpr{
-										pos:  position{line: 1810, col: 17, offset: 58704},
+										pos:  position{line: 1810, col: 17, offset: 58833},
 										name: "LongHandAttributes",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 1813, col: 5, offset: 58772},
+							pos: position{line: 1813, col: 5, offset: 58901},
 							expr: &litMatcher{
-								pos:        position{line: 1813, col: 7, offset: 58774},
+								pos:        position{line: 1813, col: 7, offset: 58903},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1814, col: 5, offset: 58783},
+							pos:   position{line: 1814, col: 5, offset: 58912},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1815, col: 9, offset: 58801},
+								pos: position{line: 1815, col: 9, offset: 58930},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1815, col: 9, offset: 58801},
+										pos:  position{line: 1815, col: 9, offset: 58930},
 										name: "EscapedBoldText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1816, col: 11, offset: 58828},
+										pos:  position{line: 1816, col: 11, offset: 58957},
 										name: "EscapedItalicText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1817, col: 11, offset: 58856},
+										pos:  position{line: 1817, col: 11, offset: 58985},
 										name: "EscapedMonospaceText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1818, col: 11, offset: 58887},
+										pos:  position{line: 1818, col: 11, offset: 59016},
 										name: "EscapedMarkedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1819, col: 11, offset: 58915},
+										pos:  position{line: 1819, col: 11, offset: 59044},
 										name: "EscapedSubscriptText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1820, col: 11, offset: 58946},
+										pos:  position{line: 1820, col: 11, offset: 59075},
 										name: "EscapedSuperscriptText",
 									},
 								},
@@ -40612,36 +40612,36 @@ var g = &grammar{
 		},
 		{
 			name: "UnescapedQuotedText",
-			pos:  position{line: 1825, col: 1, offset: 59066},
+			pos:  position{line: 1825, col: 1, offset: 59195},
 			expr: &actionExpr{
-				pos: position{line: 1826, col: 5, offset: 59108},
+				pos: position{line: 1826, col: 5, offset: 59237},
 				run: (*parser).callonUnescapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1826, col: 5, offset: 59108},
+					pos: position{line: 1826, col: 5, offset: 59237},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1826, col: 5, offset: 59108},
+							pos:   position{line: 1826, col: 5, offset: 59237},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1826, col: 16, offset: 59119},
+								pos: position{line: 1826, col: 16, offset: 59248},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1826, col: 17, offset: 59120},
+									pos:  position{line: 1826, col: 17, offset: 59249},
 									name: "LongHandAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1827, col: 5, offset: 59145},
+							pos:   position{line: 1827, col: 5, offset: 59274},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1827, col: 14, offset: 59154},
+								pos: position{line: 1827, col: 14, offset: 59283},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1827, col: 14, offset: 59154},
+										pos:  position{line: 1827, col: 14, offset: 59283},
 										name: "SingleQuotedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1827, col: 33, offset: 59173},
+										pos:  position{line: 1827, col: 33, offset: 59302},
 										name: "DoubleQuotedText",
 									},
 								},
@@ -40653,32 +40653,32 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedText",
-			pos:  position{line: 1835, col: 1, offset: 59404},
+			pos:  position{line: 1835, col: 1, offset: 59533},
 			expr: &choiceExpr{
-				pos: position{line: 1836, col: 5, offset: 59429},
+				pos: position{line: 1836, col: 5, offset: 59558},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1836, col: 5, offset: 59429},
+						pos:  position{line: 1836, col: 5, offset: 59558},
 						name: "SingleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1837, col: 7, offset: 59456},
+						pos:  position{line: 1837, col: 7, offset: 59585},
 						name: "SingleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1838, col: 7, offset: 59484},
+						pos:  position{line: 1838, col: 7, offset: 59613},
 						name: "SingleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1839, col: 7, offset: 59516},
+						pos:  position{line: 1839, col: 7, offset: 59645},
 						name: "SingleQuoteMarkedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1840, col: 7, offset: 59544},
+						pos:  position{line: 1840, col: 7, offset: 59673},
 						name: "SubscriptText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1841, col: 7, offset: 59565},
+						pos:  position{line: 1841, col: 7, offset: 59694},
 						name: "SuperscriptText",
 					},
 				},
@@ -40686,24 +40686,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedText",
-			pos:  position{line: 1843, col: 1, offset: 59583},
+			pos:  position{line: 1843, col: 1, offset: 59712},
 			expr: &choiceExpr{
-				pos: position{line: 1844, col: 5, offset: 59608},
+				pos: position{line: 1844, col: 5, offset: 59737},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1844, col: 5, offset: 59608},
+						pos:  position{line: 1844, col: 5, offset: 59737},
 						name: "DoubleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1845, col: 7, offset: 59634},
+						pos:  position{line: 1845, col: 7, offset: 59763},
 						name: "DoubleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1846, col: 7, offset: 59662},
+						pos:  position{line: 1846, col: 7, offset: 59791},
 						name: "DoubleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1847, col: 7, offset: 59693},
+						pos:  position{line: 1847, col: 7, offset: 59822},
 						name: "DoubleQuoteMarkedText",
 					},
 				},
@@ -40711,26 +40711,26 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedTextElement",
-			pos:  position{line: 1861, col: 1, offset: 60047},
+			pos:  position{line: 1861, col: 1, offset: 60176},
 			expr: &choiceExpr{
-				pos: position{line: 1862, col: 5, offset: 60073},
+				pos: position{line: 1862, col: 5, offset: 60202},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2776, col: 5, offset: 88253},
+						pos: position{line: 2776, col: 5, offset: 88382},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2776, col: 5, offset: 88253},
+							pos: position{line: 2776, col: 5, offset: 88382},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2776, col: 5, offset: 88253},
+									pos:   position{line: 2776, col: 5, offset: 88382},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2776, col: 11, offset: 88259},
+										pos: position{line: 2776, col: 11, offset: 88388},
 										run: (*parser).callonQuotedTextElement5,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2776, col: 11, offset: 88259},
+											pos: position{line: 2776, col: 11, offset: 88388},
 											expr: &charClassMatcher{
-												pos:        position{line: 2776, col: 11, offset: 88259},
+												pos:        position{line: 2776, col: 11, offset: 88388},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40740,44 +40740,44 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2779, col: 5, offset: 88317},
+									pos: position{line: 2779, col: 5, offset: 88446},
 									expr: &seqExpr{
-										pos: position{line: 2780, col: 9, offset: 88328},
+										pos: position{line: 2780, col: 9, offset: 88457},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2780, col: 9, offset: 88328},
+												pos:        position{line: 2780, col: 9, offset: 88457},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2781, col: 9, offset: 88377},
+												pos: position{line: 2781, col: 9, offset: 88506},
 												run: (*parser).callonQuotedTextElement11,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2785, col: 5, offset: 88457},
+									pos: position{line: 2785, col: 5, offset: 88586},
 									expr: &seqExpr{
-										pos: position{line: 2786, col: 9, offset: 88468},
+										pos: position{line: 2786, col: 9, offset: 88597},
 										exprs: []interface{}{
 											&zeroOrMoreExpr{
-												pos: position{line: 2786, col: 9, offset: 88468},
+												pos: position{line: 2786, col: 9, offset: 88597},
 												expr: &seqExpr{
-													pos: position{line: 2786, col: 10, offset: 88469},
+													pos: position{line: 2786, col: 10, offset: 88598},
 													exprs: []interface{}{
 														&charClassMatcher{
-															pos:        position{line: 2786, col: 10, offset: 88469},
+															pos:        position{line: 2786, col: 10, offset: 88598},
 															val:        "[._%+-]",
 															chars:      []rune{'.', '_', '%', '+', '-'},
 															ignoreCase: false,
 															inverted:   false,
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2786, col: 18, offset: 88477},
+															pos: position{line: 2786, col: 18, offset: 88606},
 															expr: &charClassMatcher{
-																pos:        position{line: 2786, col: 18, offset: 88477},
+																pos:        position{line: 2786, col: 18, offset: 88606},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -40788,13 +40788,13 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 2786, col: 30, offset: 88489},
+												pos:        position{line: 2786, col: 30, offset: 88618},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2786, col: 34, offset: 88493},
+												pos:        position{line: 2786, col: 34, offset: 88622},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40807,12 +40807,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2881, col: 11, offset: 91093},
+						pos: position{line: 2881, col: 11, offset: 91222},
 						run: (*parser).callonQuotedTextElement21,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2881, col: 11, offset: 91093},
+							pos: position{line: 2881, col: 11, offset: 91222},
 							expr: &charClassMatcher{
-								pos:        position{line: 2881, col: 11, offset: 91093},
+								pos:        position{line: 2881, col: 11, offset: 91222},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -40821,29 +40821,29 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1864, col: 7, offset: 60136},
+						pos:  position{line: 1864, col: 7, offset: 60265},
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2502, col: 5, offset: 80635},
+						pos: position{line: 2502, col: 5, offset: 80764},
 						run: (*parser).callonQuotedTextElement25,
 						expr: &seqExpr{
-							pos: position{line: 2502, col: 5, offset: 80635},
+							pos: position{line: 2502, col: 5, offset: 80764},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2502, col: 5, offset: 80635},
+									pos: position{line: 2502, col: 5, offset: 80764},
 									run: (*parser).callonQuotedTextElement27,
 								},
 								&litMatcher{
-									pos:        position{line: 2505, col: 5, offset: 80706},
+									pos:        position{line: 2505, col: 5, offset: 80835},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2505, col: 10, offset: 80711},
+									pos: position{line: 2505, col: 10, offset: 80840},
 									expr: &charClassMatcher{
-										pos:        position{line: 2505, col: 11, offset: 80712},
+										pos:        position{line: 2505, col: 11, offset: 80841},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -40854,29 +40854,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2511, col: 5, offset: 80904},
+						pos: position{line: 2511, col: 5, offset: 81033},
 						run: (*parser).callonQuotedTextElement31,
 						expr: &seqExpr{
-							pos: position{line: 2511, col: 5, offset: 80904},
+							pos: position{line: 2511, col: 5, offset: 81033},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2511, col: 5, offset: 80904},
+									pos: position{line: 2511, col: 5, offset: 81033},
 									run: (*parser).callonQuotedTextElement33,
 								},
 								&andCodeExpr{
-									pos: position{line: 2514, col: 5, offset: 80975},
+									pos: position{line: 2514, col: 5, offset: 81104},
 									run: (*parser).callonQuotedTextElement34,
 								},
 								&litMatcher{
-									pos:        position{line: 2518, col: 5, offset: 81100},
+									pos:        position{line: 2518, col: 5, offset: 81229},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2518, col: 9, offset: 81104},
+									pos: position{line: 2518, col: 9, offset: 81233},
 									expr: &charClassMatcher{
-										pos:        position{line: 2518, col: 10, offset: 81105},
+										pos:        position{line: 2518, col: 10, offset: 81234},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -40887,27 +40887,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2794, col: 5, offset: 88686},
+						pos: position{line: 2794, col: 5, offset: 88815},
 						run: (*parser).callonQuotedTextElement38,
 						expr: &choiceExpr{
-							pos: position{line: 2795, col: 9, offset: 88696},
+							pos: position{line: 2795, col: 9, offset: 88825},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2795, col: 10, offset: 88697},
+									pos:        position{line: 2795, col: 10, offset: 88826},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2797, col: 13, offset: 88794},
+									pos: position{line: 2797, col: 13, offset: 88923},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2797, col: 13, offset: 88794},
+											pos: position{line: 2797, col: 13, offset: 88923},
 											run: (*parser).callonQuotedTextElement42,
 										},
 										&litMatcher{
-											pos:        position{line: 2800, col: 13, offset: 88894},
+											pos:        position{line: 2800, col: 13, offset: 89023},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -40915,20 +40915,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2800, col: 19, offset: 88900},
+									pos:        position{line: 2800, col: 19, offset: 89029},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2803, col: 13, offset: 88938},
+									pos: position{line: 2803, col: 13, offset: 89067},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2803, col: 13, offset: 88938},
+											pos: position{line: 2803, col: 13, offset: 89067},
 											run: (*parser).callonQuotedTextElement46,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2806, col: 14, offset: 89031},
+											pos:        position{line: 2806, col: 14, offset: 89160},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -40937,18 +40937,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2808, col: 12, offset: 89075},
+									pos: position{line: 2808, col: 12, offset: 89204},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2808, col: 12, offset: 89075},
+											pos:        position{line: 2808, col: 12, offset: 89204},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2808, col: 16, offset: 89079},
+											pos: position{line: 2808, col: 16, offset: 89208},
 											expr: &litMatcher{
-												pos:        position{line: 2808, col: 17, offset: 89080},
+												pos:        position{line: 2808, col: 17, offset: 89209},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -41306,31 +41306,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2890, col: 18, offset: 91303},
+						pos: position{line: 2890, col: 18, offset: 91432},
 						run: (*parser).callonQuotedTextElement121,
 						expr: &seqExpr{
-							pos: position{line: 2890, col: 18, offset: 91303},
+							pos: position{line: 2890, col: 18, offset: 91432},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2886, col: 12, offset: 91203},
+									pos: position{line: 2886, col: 12, offset: 91332},
 									run: (*parser).callonQuotedTextElement123,
 									expr: &choiceExpr{
-										pos: position{line: 2886, col: 13, offset: 91204},
+										pos: position{line: 2886, col: 13, offset: 91333},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2886, col: 13, offset: 91204},
+												pos:        position{line: 2886, col: 13, offset: 91333},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2886, col: 20, offset: 91211},
+												pos:        position{line: 2886, col: 20, offset: 91340},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2886, col: 29, offset: 91220},
+												pos:        position{line: 2886, col: 29, offset: 91349},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -41339,27 +41339,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2890, col: 26, offset: 91311},
+									pos: position{line: 2890, col: 26, offset: 91440},
 									expr: &actionExpr{
-										pos: position{line: 2886, col: 12, offset: 91203},
+										pos: position{line: 2886, col: 12, offset: 91332},
 										run: (*parser).callonQuotedTextElement129,
 										expr: &choiceExpr{
-											pos: position{line: 2886, col: 13, offset: 91204},
+											pos: position{line: 2886, col: 13, offset: 91333},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2886, col: 13, offset: 91204},
+													pos:        position{line: 2886, col: 13, offset: 91333},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2886, col: 20, offset: 91211},
+													pos:        position{line: 2886, col: 20, offset: 91340},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2886, col: 29, offset: 91220},
+													pos:        position{line: 2886, col: 29, offset: 91349},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -41372,31 +41372,31 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1869, col: 7, offset: 60303},
+						pos:  position{line: 1869, col: 7, offset: 60432},
 						name: "QuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1870, col: 7, offset: 60350},
+						pos:  position{line: 1870, col: 7, offset: 60479},
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2471, col: 5, offset: 79464},
+						pos: position{line: 2471, col: 5, offset: 79593},
 						run: (*parser).callonQuotedTextElement136,
 						expr: &seqExpr{
-							pos: position{line: 2471, col: 5, offset: 79464},
+							pos: position{line: 2471, col: 5, offset: 79593},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2471, col: 5, offset: 79464},
+									pos: position{line: 2471, col: 5, offset: 79593},
 									run: (*parser).callonQuotedTextElement138,
 								},
 								&labeledExpr{
-									pos:   position{line: 2474, col: 5, offset: 79540},
+									pos:   position{line: 2474, col: 5, offset: 79669},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2475, col: 9, offset: 79558},
+										pos: position{line: 2475, col: 9, offset: 79687},
 										run: (*parser).callonQuotedTextElement140,
 										expr: &charClassMatcher{
-											pos:        position{line: 2475, col: 10, offset: 79559},
+											pos:        position{line: 2475, col: 10, offset: 79688},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -41451,10 +41451,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2816, col: 12, offset: 89340},
+						pos: position{line: 2816, col: 12, offset: 89469},
 						run: (*parser).callonQuotedTextElement151,
 						expr: &charClassMatcher{
-							pos:        position{line: 2816, col: 12, offset: 89340},
+							pos:        position{line: 2816, col: 12, offset: 89469},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -41466,29 +41466,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldText",
-			pos:  position{line: 1888, col: 1, offset: 60820},
+			pos:  position{line: 1888, col: 1, offset: 60949},
 			expr: &actionExpr{
-				pos: position{line: 1889, col: 5, offset: 60848},
+				pos: position{line: 1889, col: 5, offset: 60977},
 				run: (*parser).callonDoubleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1889, col: 5, offset: 60848},
+					pos: position{line: 1889, col: 5, offset: 60977},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1884, col: 38, offset: 60773},
+							pos:        position{line: 1884, col: 38, offset: 60902},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1890, col: 5, offset: 60887},
+							pos:   position{line: 1890, col: 5, offset: 61016},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1890, col: 15, offset: 60897},
+								pos:  position{line: 1890, col: 15, offset: 61026},
 								name: "DoubleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1886, col: 36, offset: 60814},
+							pos:        position{line: 1886, col: 36, offset: 60943},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
@@ -41499,44 +41499,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElements",
-			pos:  position{line: 1895, col: 1, offset: 61057},
+			pos:  position{line: 1895, col: 1, offset: 61186},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1895, col: 32, offset: 61088},
+				pos: position{line: 1895, col: 32, offset: 61217},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1895, col: 32, offset: 61088},
+					pos:  position{line: 1895, col: 32, offset: 61217},
 					name: "DoubleQuoteBoldTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteBoldTextElement",
-			pos:  position{line: 1897, col: 1, offset: 61119},
+			pos:  position{line: 1897, col: 1, offset: 61248},
 			expr: &actionExpr{
-				pos: position{line: 1898, col: 5, offset: 61154},
+				pos: position{line: 1898, col: 5, offset: 61283},
 				run: (*parser).callonDoubleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1898, col: 5, offset: 61154},
+					pos: position{line: 1898, col: 5, offset: 61283},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2894, col: 11, offset: 91366},
+							pos: position{line: 2894, col: 11, offset: 91495},
 							expr: &anyMatcher{
-								line: 2894, col: 13, offset: 91368,
+								line: 2894, col: 13, offset: 91497,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1899, col: 5, offset: 61165},
+							pos: position{line: 1899, col: 5, offset: 61294},
 							expr: &litMatcher{
-								pos:        position{line: 1886, col: 36, offset: 60814},
+								pos:        position{line: 1886, col: 36, offset: 60943},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1900, col: 5, offset: 61202},
+							pos:   position{line: 1900, col: 5, offset: 61331},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1900, col: 14, offset: 61211},
+								pos:  position{line: 1900, col: 14, offset: 61340},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41546,29 +41546,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldText",
-			pos:  position{line: 1925, col: 1, offset: 61891},
+			pos:  position{line: 1925, col: 1, offset: 62020},
 			expr: &actionExpr{
-				pos: position{line: 1926, col: 5, offset: 61919},
+				pos: position{line: 1926, col: 5, offset: 62048},
 				run: (*parser).callonSingleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1926, col: 5, offset: 61919},
+					pos: position{line: 1926, col: 5, offset: 62048},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1909, col: 5, offset: 61445},
+							pos:        position{line: 1909, col: 5, offset: 61574},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1910, col: 5, offset: 61454},
+							pos: position{line: 1910, col: 5, offset: 61583},
 							run: (*parser).callonSingleQuoteBoldText4,
 						},
 						&andExpr{
-							pos: position{line: 1914, col: 5, offset: 61572},
+							pos: position{line: 1914, col: 5, offset: 61701},
 							expr: &notExpr{
-								pos: position{line: 1914, col: 7, offset: 61574},
+								pos: position{line: 1914, col: 7, offset: 61703},
 								expr: &litMatcher{
-									pos:        position{line: 1914, col: 8, offset: 61575},
+									pos:        position{line: 1914, col: 8, offset: 61704},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41576,38 +41576,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1927, col: 5, offset: 61957},
+							pos:   position{line: 1927, col: 5, offset: 62086},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1927, col: 15, offset: 61967},
+								pos:  position{line: 1927, col: 15, offset: 62096},
 								name: "SingleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1917, col: 5, offset: 61695},
+							pos:        position{line: 1917, col: 5, offset: 61824},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&notExpr{
-							pos: position{line: 1918, col: 5, offset: 61704},
+							pos: position{line: 1918, col: 5, offset: 61833},
 							expr: &litMatcher{
-								pos:        position{line: 1918, col: 6, offset: 61705},
+								pos:        position{line: 1918, col: 6, offset: 61834},
 								val:        "*",
 								ignoreCase: false,
 								want:       "\"*\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1919, col: 5, offset: 61768},
+							pos: position{line: 1919, col: 5, offset: 61897},
 							run: (*parser).callonSingleQuoteBoldText13,
 						},
 						&andExpr{
-							pos: position{line: 1923, col: 5, offset: 61877},
+							pos: position{line: 1923, col: 5, offset: 62006},
 							expr: &notExpr{
-								pos: position{line: 1923, col: 7, offset: 61879},
+								pos: position{line: 1923, col: 7, offset: 62008},
 								expr: &charClassMatcher{
-									pos:        position{line: 2767, col: 13, offset: 88106},
+									pos:        position{line: 2767, col: 13, offset: 88235},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -41621,20 +41621,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElements",
-			pos:  position{line: 1932, col: 1, offset: 62127},
+			pos:  position{line: 1932, col: 1, offset: 62256},
 			expr: &actionExpr{
-				pos: position{line: 1933, col: 5, offset: 62164},
+				pos: position{line: 1933, col: 5, offset: 62293},
 				run: (*parser).callonSingleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1933, col: 5, offset: 62164},
+					pos: position{line: 1933, col: 5, offset: 62293},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1933, col: 5, offset: 62164},
+							pos: position{line: 1933, col: 5, offset: 62293},
 							expr: &actionExpr{
-								pos: position{line: 2877, col: 10, offset: 91032},
+								pos: position{line: 2877, col: 10, offset: 91161},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2877, col: 10, offset: 91032},
+									pos:        position{line: 2877, col: 10, offset: 91161},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41643,18 +41643,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1934, col: 5, offset: 62203},
+							pos:   position{line: 1934, col: 5, offset: 62332},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1934, col: 14, offset: 62212},
+								pos: position{line: 1934, col: 14, offset: 62341},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1934, col: 15, offset: 62213},
+									pos:  position{line: 1934, col: 15, offset: 62342},
 									name: "SingleQuoteBoldTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1935, col: 5, offset: 62247},
+							pos: position{line: 1935, col: 5, offset: 62376},
 							run: (*parser).callonSingleQuoteBoldTextElements9,
 						},
 					},
@@ -41663,49 +41663,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElement",
-			pos:  position{line: 1941, col: 1, offset: 62388},
+			pos:  position{line: 1941, col: 1, offset: 62517},
 			expr: &actionExpr{
-				pos: position{line: 1942, col: 5, offset: 62423},
+				pos: position{line: 1942, col: 5, offset: 62552},
 				run: (*parser).callonSingleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1942, col: 5, offset: 62423},
+					pos: position{line: 1942, col: 5, offset: 62552},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2894, col: 11, offset: 91366},
+							pos: position{line: 2894, col: 11, offset: 91495},
 							expr: &anyMatcher{
-								line: 2894, col: 13, offset: 91368,
+								line: 2894, col: 13, offset: 91497,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1943, col: 5, offset: 62451},
+							pos: position{line: 1943, col: 5, offset: 62580},
 							expr: &seqExpr{
-								pos: position{line: 1917, col: 5, offset: 61695},
+								pos: position{line: 1917, col: 5, offset: 61824},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1917, col: 5, offset: 61695},
+										pos:        position{line: 1917, col: 5, offset: 61824},
 										val:        "*",
 										ignoreCase: false,
 										want:       "\"*\"",
 									},
 									&notExpr{
-										pos: position{line: 1918, col: 5, offset: 61704},
+										pos: position{line: 1918, col: 5, offset: 61833},
 										expr: &litMatcher{
-											pos:        position{line: 1918, col: 6, offset: 61705},
+											pos:        position{line: 1918, col: 6, offset: 61834},
 											val:        "*",
 											ignoreCase: false,
 											want:       "\"*\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1919, col: 5, offset: 61768},
+										pos: position{line: 1919, col: 5, offset: 61897},
 										run: (*parser).callonSingleQuoteBoldTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 1923, col: 5, offset: 61877},
+										pos: position{line: 1923, col: 5, offset: 62006},
 										expr: &notExpr{
-											pos: position{line: 1923, col: 7, offset: 61879},
+											pos: position{line: 1923, col: 7, offset: 62008},
 											expr: &charClassMatcher{
-												pos:        position{line: 2767, col: 13, offset: 88106},
+												pos:        position{line: 2767, col: 13, offset: 88235},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41717,10 +41717,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1944, col: 5, offset: 62488},
+							pos:   position{line: 1944, col: 5, offset: 62617},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1944, col: 14, offset: 62497},
+								pos:  position{line: 1944, col: 14, offset: 62626},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41730,35 +41730,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedBoldText",
-			pos:  position{line: 1949, col: 1, offset: 62585},
+			pos:  position{line: 1949, col: 1, offset: 62714},
 			expr: &choiceExpr{
-				pos: position{line: 1951, col: 5, offset: 62646},
+				pos: position{line: 1951, col: 5, offset: 62775},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1951, col: 5, offset: 62646},
+						pos: position{line: 1951, col: 5, offset: 62775},
 						run: (*parser).callonEscapedBoldText2,
 						expr: &seqExpr{
-							pos: position{line: 1951, col: 5, offset: 62646},
+							pos: position{line: 1951, col: 5, offset: 62775},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1951, col: 5, offset: 62646},
+									pos:   position{line: 1951, col: 5, offset: 62775},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1857, col: 25, offset: 59993},
+										pos: position{line: 1857, col: 25, offset: 60122},
 										run: (*parser).callonEscapedBoldText5,
 										expr: &seqExpr{
-											pos: position{line: 1857, col: 25, offset: 59993},
+											pos: position{line: 1857, col: 25, offset: 60122},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1857, col: 25, offset: 59993},
+													pos:        position{line: 1857, col: 25, offset: 60122},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1857, col: 30, offset: 59998},
+													pos: position{line: 1857, col: 30, offset: 60127},
 													expr: &litMatcher{
-														pos:        position{line: 1857, col: 30, offset: 59998},
+														pos:        position{line: 1857, col: 30, offset: 60127},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -41769,21 +41769,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1951, col: 40, offset: 62681},
+									pos:        position{line: 1951, col: 40, offset: 62810},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1951, col: 45, offset: 62686},
+									pos:   position{line: 1951, col: 45, offset: 62815},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1951, col: 55, offset: 62696},
+										pos:  position{line: 1951, col: 55, offset: 62825},
 										name: "DoubleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1951, col: 84, offset: 62725},
+									pos:        position{line: 1951, col: 84, offset: 62854},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
@@ -41792,21 +41792,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1955, col: 7, offset: 62889},
+						pos: position{line: 1955, col: 7, offset: 63018},
 						run: (*parser).callonEscapedBoldText14,
 						expr: &seqExpr{
-							pos: position{line: 1955, col: 7, offset: 62889},
+							pos: position{line: 1955, col: 7, offset: 63018},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1955, col: 7, offset: 62889},
+									pos:   position{line: 1955, col: 7, offset: 63018},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1853, col: 25, offset: 59920},
+										pos: position{line: 1853, col: 25, offset: 60049},
 										run: (*parser).callonEscapedBoldText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1853, col: 25, offset: 59920},
+											pos: position{line: 1853, col: 25, offset: 60049},
 											expr: &litMatcher{
-												pos:        position{line: 1853, col: 25, offset: 59920},
+												pos:        position{line: 1853, col: 25, offset: 60049},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41815,21 +41815,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1955, col: 42, offset: 62924},
+									pos:        position{line: 1955, col: 42, offset: 63053},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1955, col: 47, offset: 62929},
+									pos:   position{line: 1955, col: 47, offset: 63058},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1955, col: 57, offset: 62939},
+										pos:  position{line: 1955, col: 57, offset: 63068},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1955, col: 86, offset: 62968},
+									pos:        position{line: 1955, col: 86, offset: 63097},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41838,21 +41838,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1960, col: 7, offset: 63170},
+						pos: position{line: 1960, col: 7, offset: 63299},
 						run: (*parser).callonEscapedBoldText24,
 						expr: &seqExpr{
-							pos: position{line: 1960, col: 7, offset: 63170},
+							pos: position{line: 1960, col: 7, offset: 63299},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1960, col: 7, offset: 63170},
+									pos:   position{line: 1960, col: 7, offset: 63299},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1853, col: 25, offset: 59920},
+										pos: position{line: 1853, col: 25, offset: 60049},
 										run: (*parser).callonEscapedBoldText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1853, col: 25, offset: 59920},
+											pos: position{line: 1853, col: 25, offset: 60049},
 											expr: &litMatcher{
-												pos:        position{line: 1853, col: 25, offset: 59920},
+												pos:        position{line: 1853, col: 25, offset: 60049},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41861,21 +41861,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1960, col: 42, offset: 63205},
+									pos:        position{line: 1960, col: 42, offset: 63334},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1960, col: 46, offset: 63209},
+									pos:   position{line: 1960, col: 46, offset: 63338},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1960, col: 56, offset: 63219},
+										pos:  position{line: 1960, col: 56, offset: 63348},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1960, col: 85, offset: 63248},
+									pos:        position{line: 1960, col: 85, offset: 63377},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41888,29 +41888,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicText",
-			pos:  position{line: 1977, col: 1, offset: 63728},
+			pos:  position{line: 1977, col: 1, offset: 63857},
 			expr: &actionExpr{
-				pos: position{line: 1978, col: 5, offset: 63758},
+				pos: position{line: 1978, col: 5, offset: 63887},
 				run: (*parser).callonDoubleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 1978, col: 5, offset: 63758},
+					pos: position{line: 1978, col: 5, offset: 63887},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1973, col: 40, offset: 63679},
+							pos:        position{line: 1973, col: 40, offset: 63808},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1979, col: 5, offset: 63799},
+							pos:   position{line: 1979, col: 5, offset: 63928},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1979, col: 15, offset: 63809},
+								pos:  position{line: 1979, col: 15, offset: 63938},
 								name: "DoubleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1975, col: 38, offset: 63722},
+							pos:        position{line: 1975, col: 38, offset: 63851},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
@@ -41921,44 +41921,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElements",
-			pos:  position{line: 1984, col: 1, offset: 63974},
+			pos:  position{line: 1984, col: 1, offset: 64103},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1984, col: 34, offset: 64007},
+				pos: position{line: 1984, col: 34, offset: 64136},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1984, col: 34, offset: 64007},
+					pos:  position{line: 1984, col: 34, offset: 64136},
 					name: "DoubleQuoteItalicTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteItalicTextElement",
-			pos:  position{line: 1986, col: 1, offset: 64039},
+			pos:  position{line: 1986, col: 1, offset: 64168},
 			expr: &actionExpr{
-				pos: position{line: 1987, col: 5, offset: 64076},
+				pos: position{line: 1987, col: 5, offset: 64205},
 				run: (*parser).callonDoubleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1987, col: 5, offset: 64076},
+					pos: position{line: 1987, col: 5, offset: 64205},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2894, col: 11, offset: 91366},
+							pos: position{line: 2894, col: 11, offset: 91495},
 							expr: &anyMatcher{
-								line: 2894, col: 13, offset: 91368,
+								line: 2894, col: 13, offset: 91497,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1988, col: 5, offset: 64087},
+							pos: position{line: 1988, col: 5, offset: 64216},
 							expr: &litMatcher{
-								pos:        position{line: 1975, col: 38, offset: 63722},
+								pos:        position{line: 1975, col: 38, offset: 63851},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1989, col: 5, offset: 64126},
+							pos:   position{line: 1989, col: 5, offset: 64255},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1989, col: 14, offset: 64135},
+								pos:  position{line: 1989, col: 14, offset: 64264},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41968,29 +41968,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicText",
-			pos:  position{line: 2015, col: 1, offset: 64819},
+			pos:  position{line: 2015, col: 1, offset: 64948},
 			expr: &actionExpr{
-				pos: position{line: 2016, col: 5, offset: 64849},
+				pos: position{line: 2016, col: 5, offset: 64978},
 				run: (*parser).callonSingleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2016, col: 5, offset: 64849},
+					pos: position{line: 2016, col: 5, offset: 64978},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1998, col: 5, offset: 64377},
+							pos:        position{line: 1998, col: 5, offset: 64506},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1999, col: 5, offset: 64386},
+							pos: position{line: 1999, col: 5, offset: 64515},
 							run: (*parser).callonSingleQuoteItalicText4,
 						},
 						&andExpr{
-							pos: position{line: 2003, col: 5, offset: 64506},
+							pos: position{line: 2003, col: 5, offset: 64635},
 							expr: &notExpr{
-								pos: position{line: 2003, col: 7, offset: 64508},
+								pos: position{line: 2003, col: 7, offset: 64637},
 								expr: &litMatcher{
-									pos:        position{line: 2003, col: 8, offset: 64509},
+									pos:        position{line: 2003, col: 8, offset: 64638},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -41998,38 +41998,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2017, col: 5, offset: 64889},
+							pos:   position{line: 2017, col: 5, offset: 65018},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2017, col: 15, offset: 64899},
+								pos:  position{line: 2017, col: 15, offset: 65028},
 								name: "SingleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2007, col: 5, offset: 64619},
+							pos:        position{line: 2007, col: 5, offset: 64748},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&notExpr{
-							pos: position{line: 2008, col: 5, offset: 64628},
+							pos: position{line: 2008, col: 5, offset: 64757},
 							expr: &litMatcher{
-								pos:        position{line: 2008, col: 6, offset: 64629},
+								pos:        position{line: 2008, col: 6, offset: 64758},
 								val:        "_",
 								ignoreCase: false,
 								want:       "\"_\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2009, col: 5, offset: 64694},
+							pos: position{line: 2009, col: 5, offset: 64823},
 							run: (*parser).callonSingleQuoteItalicText13,
 						},
 						&andExpr{
-							pos: position{line: 2013, col: 5, offset: 64805},
+							pos: position{line: 2013, col: 5, offset: 64934},
 							expr: &notExpr{
-								pos: position{line: 2013, col: 7, offset: 64807},
+								pos: position{line: 2013, col: 7, offset: 64936},
 								expr: &charClassMatcher{
-									pos:        position{line: 2767, col: 13, offset: 88106},
+									pos:        position{line: 2767, col: 13, offset: 88235},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -42043,20 +42043,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElements",
-			pos:  position{line: 2022, col: 1, offset: 65066},
+			pos:  position{line: 2022, col: 1, offset: 65195},
 			expr: &actionExpr{
-				pos: position{line: 2023, col: 5, offset: 65104},
+				pos: position{line: 2023, col: 5, offset: 65233},
 				run: (*parser).callonSingleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2023, col: 5, offset: 65104},
+					pos: position{line: 2023, col: 5, offset: 65233},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2023, col: 5, offset: 65104},
+							pos: position{line: 2023, col: 5, offset: 65233},
 							expr: &actionExpr{
-								pos: position{line: 2877, col: 10, offset: 91032},
+								pos: position{line: 2877, col: 10, offset: 91161},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2877, col: 10, offset: 91032},
+									pos:        position{line: 2877, col: 10, offset: 91161},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42065,18 +42065,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2024, col: 5, offset: 65143},
+							pos:   position{line: 2024, col: 5, offset: 65272},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2024, col: 14, offset: 65152},
+								pos: position{line: 2024, col: 14, offset: 65281},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2024, col: 15, offset: 65153},
+									pos:  position{line: 2024, col: 15, offset: 65282},
 									name: "SingleQuoteItalicTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2025, col: 5, offset: 65188},
+							pos: position{line: 2025, col: 5, offset: 65317},
 							run: (*parser).callonSingleQuoteItalicTextElements9,
 						},
 					},
@@ -42085,49 +42085,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElement",
-			pos:  position{line: 2031, col: 1, offset: 65329},
+			pos:  position{line: 2031, col: 1, offset: 65458},
 			expr: &actionExpr{
-				pos: position{line: 2032, col: 5, offset: 65366},
+				pos: position{line: 2032, col: 5, offset: 65495},
 				run: (*parser).callonSingleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2032, col: 5, offset: 65366},
+					pos: position{line: 2032, col: 5, offset: 65495},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2894, col: 11, offset: 91366},
+							pos: position{line: 2894, col: 11, offset: 91495},
 							expr: &anyMatcher{
-								line: 2894, col: 13, offset: 91368,
+								line: 2894, col: 13, offset: 91497,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2033, col: 5, offset: 65377},
+							pos: position{line: 2033, col: 5, offset: 65506},
 							expr: &seqExpr{
-								pos: position{line: 2007, col: 5, offset: 64619},
+								pos: position{line: 2007, col: 5, offset: 64748},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2007, col: 5, offset: 64619},
+										pos:        position{line: 2007, col: 5, offset: 64748},
 										val:        "_",
 										ignoreCase: false,
 										want:       "\"_\"",
 									},
 									&notExpr{
-										pos: position{line: 2008, col: 5, offset: 64628},
+										pos: position{line: 2008, col: 5, offset: 64757},
 										expr: &litMatcher{
-											pos:        position{line: 2008, col: 6, offset: 64629},
+											pos:        position{line: 2008, col: 6, offset: 64758},
 											val:        "_",
 											ignoreCase: false,
 											want:       "\"_\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2009, col: 5, offset: 64694},
+										pos: position{line: 2009, col: 5, offset: 64823},
 										run: (*parser).callonSingleQuoteItalicTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2013, col: 5, offset: 64805},
+										pos: position{line: 2013, col: 5, offset: 64934},
 										expr: &notExpr{
-											pos: position{line: 2013, col: 7, offset: 64807},
+											pos: position{line: 2013, col: 7, offset: 64936},
 											expr: &charClassMatcher{
-												pos:        position{line: 2767, col: 13, offset: 88106},
+												pos:        position{line: 2767, col: 13, offset: 88235},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42139,10 +42139,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2034, col: 5, offset: 65416},
+							pos:   position{line: 2034, col: 5, offset: 65545},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2034, col: 14, offset: 65425},
+								pos:  position{line: 2034, col: 14, offset: 65554},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42152,35 +42152,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedItalicText",
-			pos:  position{line: 2039, col: 1, offset: 65513},
+			pos:  position{line: 2039, col: 1, offset: 65642},
 			expr: &choiceExpr{
-				pos: position{line: 2041, col: 5, offset: 65578},
+				pos: position{line: 2041, col: 5, offset: 65707},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2041, col: 5, offset: 65578},
+						pos: position{line: 2041, col: 5, offset: 65707},
 						run: (*parser).callonEscapedItalicText2,
 						expr: &seqExpr{
-							pos: position{line: 2041, col: 5, offset: 65578},
+							pos: position{line: 2041, col: 5, offset: 65707},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2041, col: 5, offset: 65578},
+									pos:   position{line: 2041, col: 5, offset: 65707},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1857, col: 25, offset: 59993},
+										pos: position{line: 1857, col: 25, offset: 60122},
 										run: (*parser).callonEscapedItalicText5,
 										expr: &seqExpr{
-											pos: position{line: 1857, col: 25, offset: 59993},
+											pos: position{line: 1857, col: 25, offset: 60122},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1857, col: 25, offset: 59993},
+													pos:        position{line: 1857, col: 25, offset: 60122},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1857, col: 30, offset: 59998},
+													pos: position{line: 1857, col: 30, offset: 60127},
 													expr: &litMatcher{
-														pos:        position{line: 1857, col: 30, offset: 59998},
+														pos:        position{line: 1857, col: 30, offset: 60127},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42191,21 +42191,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2041, col: 40, offset: 65613},
+									pos:        position{line: 2041, col: 40, offset: 65742},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2041, col: 45, offset: 65618},
+									pos:   position{line: 2041, col: 45, offset: 65747},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2041, col: 55, offset: 65628},
+										pos:  position{line: 2041, col: 55, offset: 65757},
 										name: "DoubleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2041, col: 86, offset: 65659},
+									pos:        position{line: 2041, col: 86, offset: 65788},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
@@ -42214,21 +42214,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2045, col: 7, offset: 65824},
+						pos: position{line: 2045, col: 7, offset: 65953},
 						run: (*parser).callonEscapedItalicText14,
 						expr: &seqExpr{
-							pos: position{line: 2045, col: 7, offset: 65824},
+							pos: position{line: 2045, col: 7, offset: 65953},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2045, col: 7, offset: 65824},
+									pos:   position{line: 2045, col: 7, offset: 65953},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1853, col: 25, offset: 59920},
+										pos: position{line: 1853, col: 25, offset: 60049},
 										run: (*parser).callonEscapedItalicText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1853, col: 25, offset: 59920},
+											pos: position{line: 1853, col: 25, offset: 60049},
 											expr: &litMatcher{
-												pos:        position{line: 1853, col: 25, offset: 59920},
+												pos:        position{line: 1853, col: 25, offset: 60049},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42237,21 +42237,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2045, col: 42, offset: 65859},
+									pos:        position{line: 2045, col: 42, offset: 65988},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2045, col: 47, offset: 65864},
+									pos:   position{line: 2045, col: 47, offset: 65993},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2045, col: 57, offset: 65874},
+										pos:  position{line: 2045, col: 57, offset: 66003},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2045, col: 88, offset: 65905},
+									pos:        position{line: 2045, col: 88, offset: 66034},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -42260,21 +42260,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2050, col: 7, offset: 66146},
+						pos: position{line: 2050, col: 7, offset: 66275},
 						run: (*parser).callonEscapedItalicText24,
 						expr: &seqExpr{
-							pos: position{line: 2050, col: 7, offset: 66146},
+							pos: position{line: 2050, col: 7, offset: 66275},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2050, col: 7, offset: 66146},
+									pos:   position{line: 2050, col: 7, offset: 66275},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1853, col: 25, offset: 59920},
+										pos: position{line: 1853, col: 25, offset: 60049},
 										run: (*parser).callonEscapedItalicText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1853, col: 25, offset: 59920},
+											pos: position{line: 1853, col: 25, offset: 60049},
 											expr: &litMatcher{
-												pos:        position{line: 1853, col: 25, offset: 59920},
+												pos:        position{line: 1853, col: 25, offset: 60049},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42283,21 +42283,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2050, col: 42, offset: 66181},
+									pos:        position{line: 2050, col: 42, offset: 66310},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2050, col: 46, offset: 66185},
+									pos:   position{line: 2050, col: 46, offset: 66314},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2050, col: 56, offset: 66195},
+										pos:  position{line: 2050, col: 56, offset: 66324},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2050, col: 87, offset: 66226},
+									pos:        position{line: 2050, col: 87, offset: 66355},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -42310,29 +42310,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceText",
-			pos:  position{line: 2067, col: 1, offset: 66790},
+			pos:  position{line: 2067, col: 1, offset: 66919},
 			expr: &actionExpr{
-				pos: position{line: 2068, col: 5, offset: 66823},
+				pos: position{line: 2068, col: 5, offset: 66952},
 				run: (*parser).callonDoubleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2068, col: 5, offset: 66823},
+					pos: position{line: 2068, col: 5, offset: 66952},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2063, col: 43, offset: 66738},
+							pos:        position{line: 2063, col: 43, offset: 66867},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2069, col: 5, offset: 66867},
+							pos:   position{line: 2069, col: 5, offset: 66996},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2069, col: 15, offset: 66877},
+								pos:  position{line: 2069, col: 15, offset: 67006},
 								name: "DoubleQuoteMonospaceTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2065, col: 41, offset: 66784},
+							pos:        position{line: 2065, col: 41, offset: 66913},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
@@ -42343,44 +42343,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElements",
-			pos:  position{line: 2074, col: 1, offset: 67052},
+			pos:  position{line: 2074, col: 1, offset: 67181},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 2074, col: 37, offset: 67088},
+				pos: position{line: 2074, col: 37, offset: 67217},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2074, col: 37, offset: 67088},
+					pos:  position{line: 2074, col: 37, offset: 67217},
 					name: "DoubleQuoteMonospaceTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElement",
-			pos:  position{line: 2076, col: 1, offset: 67155},
+			pos:  position{line: 2076, col: 1, offset: 67284},
 			expr: &actionExpr{
-				pos: position{line: 2077, col: 5, offset: 67195},
+				pos: position{line: 2077, col: 5, offset: 67324},
 				run: (*parser).callonDoubleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2077, col: 5, offset: 67195},
+					pos: position{line: 2077, col: 5, offset: 67324},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2894, col: 11, offset: 91366},
+							pos: position{line: 2894, col: 11, offset: 91495},
 							expr: &anyMatcher{
-								line: 2894, col: 13, offset: 91368,
+								line: 2894, col: 13, offset: 91497,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2078, col: 5, offset: 67206},
+							pos: position{line: 2078, col: 5, offset: 67335},
 							expr: &litMatcher{
-								pos:        position{line: 2065, col: 41, offset: 66784},
+								pos:        position{line: 2065, col: 41, offset: 66913},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2079, col: 5, offset: 67248},
+							pos:   position{line: 2079, col: 5, offset: 67377},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2079, col: 14, offset: 67257},
+								pos:  position{line: 2079, col: 14, offset: 67386},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42390,33 +42390,33 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextEndDelimiter",
-			pos:  position{line: 2097, col: 1, offset: 67799},
+			pos:  position{line: 2097, col: 1, offset: 67928},
 			expr: &seqExpr{
-				pos: position{line: 2098, col: 5, offset: 67844},
+				pos: position{line: 2098, col: 5, offset: 67973},
 				exprs: []interface{}{
 					&notExpr{
-						pos: position{line: 2098, col: 5, offset: 67844},
+						pos: position{line: 2098, col: 5, offset: 67973},
 						expr: &ruleRefExpr{
-							pos:  position{line: 2098, col: 6, offset: 67845},
+							pos:  position{line: 2098, col: 6, offset: 67974},
 							name: "QuotationMark",
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 2099, col: 5, offset: 67864},
+						pos:        position{line: 2099, col: 5, offset: 67993},
 						val:        "`",
 						ignoreCase: false,
 						want:       "\"`\"",
 					},
 					&andCodeExpr{
-						pos: position{line: 2100, col: 5, offset: 67872},
+						pos: position{line: 2100, col: 5, offset: 68001},
 						run: (*parser).callonSingleQuoteMonospaceTextEndDelimiter5,
 					},
 					&andExpr{
-						pos: position{line: 2104, col: 5, offset: 67986},
+						pos: position{line: 2104, col: 5, offset: 68115},
 						expr: &notExpr{
-							pos: position{line: 2104, col: 7, offset: 67988},
+							pos: position{line: 2104, col: 7, offset: 68117},
 							expr: &charClassMatcher{
-								pos:        position{line: 2767, col: 13, offset: 88106},
+								pos:        position{line: 2767, col: 13, offset: 88235},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -42429,29 +42429,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceText",
-			pos:  position{line: 2107, col: 1, offset: 68005},
+			pos:  position{line: 2107, col: 1, offset: 68134},
 			expr: &actionExpr{
-				pos: position{line: 2108, col: 5, offset: 68038},
+				pos: position{line: 2108, col: 5, offset: 68167},
 				run: (*parser).callonSingleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2108, col: 5, offset: 68038},
+					pos: position{line: 2108, col: 5, offset: 68167},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2090, col: 5, offset: 67601},
+							pos:        position{line: 2090, col: 5, offset: 67730},
 							val:        "`",
 							ignoreCase: false,
 							want:       "\"`\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2091, col: 5, offset: 67610},
+							pos: position{line: 2091, col: 5, offset: 67739},
 							run: (*parser).callonSingleQuoteMonospaceText4,
 						},
 						&andExpr{
-							pos: position{line: 2095, col: 5, offset: 67733},
+							pos: position{line: 2095, col: 5, offset: 67862},
 							expr: &notExpr{
-								pos: position{line: 2095, col: 7, offset: 67735},
+								pos: position{line: 2095, col: 7, offset: 67864},
 								expr: &litMatcher{
-									pos:        position{line: 2095, col: 8, offset: 67736},
+									pos:        position{line: 2095, col: 8, offset: 67865},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42459,15 +42459,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2109, col: 5, offset: 68082},
+							pos:   position{line: 2109, col: 5, offset: 68211},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2109, col: 15, offset: 68092},
+								pos:  position{line: 2109, col: 15, offset: 68221},
 								name: "SingleQuoteMonospaceTextElements",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 2110, col: 5, offset: 68131},
+							pos:  position{line: 2110, col: 5, offset: 68260},
 							name: "SingleQuoteMonospaceTextEndDelimiter",
 						},
 					},
@@ -42476,20 +42476,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElements",
-			pos:  position{line: 2114, col: 1, offset: 68268},
+			pos:  position{line: 2114, col: 1, offset: 68397},
 			expr: &actionExpr{
-				pos: position{line: 2115, col: 5, offset: 68309},
+				pos: position{line: 2115, col: 5, offset: 68438},
 				run: (*parser).callonSingleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2115, col: 5, offset: 68309},
+					pos: position{line: 2115, col: 5, offset: 68438},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2115, col: 5, offset: 68309},
+							pos: position{line: 2115, col: 5, offset: 68438},
 							expr: &actionExpr{
-								pos: position{line: 2877, col: 10, offset: 91032},
+								pos: position{line: 2877, col: 10, offset: 91161},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2877, col: 10, offset: 91032},
+									pos:        position{line: 2877, col: 10, offset: 91161},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42498,18 +42498,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2116, col: 5, offset: 68348},
+							pos:   position{line: 2116, col: 5, offset: 68477},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2116, col: 14, offset: 68357},
+								pos: position{line: 2116, col: 14, offset: 68486},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2116, col: 15, offset: 68358},
+									pos:  position{line: 2116, col: 15, offset: 68487},
 									name: "SingleQuoteMonospaceTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2117, col: 5, offset: 68396},
+							pos: position{line: 2117, col: 5, offset: 68525},
 							run: (*parser).callonSingleQuoteMonospaceTextElements9,
 						},
 					},
@@ -42518,31 +42518,31 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElement",
-			pos:  position{line: 2123, col: 1, offset: 68537},
+			pos:  position{line: 2123, col: 1, offset: 68666},
 			expr: &actionExpr{
-				pos: position{line: 2124, col: 5, offset: 68577},
+				pos: position{line: 2124, col: 5, offset: 68706},
 				run: (*parser).callonSingleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2124, col: 5, offset: 68577},
+					pos: position{line: 2124, col: 5, offset: 68706},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2894, col: 11, offset: 91366},
+							pos: position{line: 2894, col: 11, offset: 91495},
 							expr: &anyMatcher{
-								line: 2894, col: 13, offset: 91368,
+								line: 2894, col: 13, offset: 91497,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2125, col: 5, offset: 68588},
+							pos: position{line: 2125, col: 5, offset: 68717},
 							expr: &ruleRefExpr{
-								pos:  position{line: 2125, col: 6, offset: 68589},
+								pos:  position{line: 2125, col: 6, offset: 68718},
 								name: "SingleQuoteMonospaceTextEndDelimiter",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2126, col: 5, offset: 68630},
+							pos:   position{line: 2126, col: 5, offset: 68759},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2126, col: 14, offset: 68639},
+								pos:  position{line: 2126, col: 14, offset: 68768},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42552,35 +42552,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMonospaceText",
-			pos:  position{line: 2131, col: 1, offset: 68727},
+			pos:  position{line: 2131, col: 1, offset: 68856},
 			expr: &choiceExpr{
-				pos: position{line: 2133, col: 5, offset: 68798},
+				pos: position{line: 2133, col: 5, offset: 68927},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2133, col: 5, offset: 68798},
+						pos: position{line: 2133, col: 5, offset: 68927},
 						run: (*parser).callonEscapedMonospaceText2,
 						expr: &seqExpr{
-							pos: position{line: 2133, col: 5, offset: 68798},
+							pos: position{line: 2133, col: 5, offset: 68927},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2133, col: 5, offset: 68798},
+									pos:   position{line: 2133, col: 5, offset: 68927},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1857, col: 25, offset: 59993},
+										pos: position{line: 1857, col: 25, offset: 60122},
 										run: (*parser).callonEscapedMonospaceText5,
 										expr: &seqExpr{
-											pos: position{line: 1857, col: 25, offset: 59993},
+											pos: position{line: 1857, col: 25, offset: 60122},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1857, col: 25, offset: 59993},
+													pos:        position{line: 1857, col: 25, offset: 60122},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1857, col: 30, offset: 59998},
+													pos: position{line: 1857, col: 30, offset: 60127},
 													expr: &litMatcher{
-														pos:        position{line: 1857, col: 30, offset: 59998},
+														pos:        position{line: 1857, col: 30, offset: 60127},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42591,21 +42591,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2133, col: 40, offset: 68833},
+									pos:        position{line: 2133, col: 40, offset: 68962},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2133, col: 45, offset: 68838},
+									pos:   position{line: 2133, col: 45, offset: 68967},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2133, col: 55, offset: 68848},
+										pos:  position{line: 2133, col: 55, offset: 68977},
 										name: "DoubleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2133, col: 89, offset: 68882},
+									pos:        position{line: 2133, col: 89, offset: 69011},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
@@ -42614,21 +42614,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2137, col: 7, offset: 69051},
+						pos: position{line: 2137, col: 7, offset: 69180},
 						run: (*parser).callonEscapedMonospaceText14,
 						expr: &seqExpr{
-							pos: position{line: 2137, col: 7, offset: 69051},
+							pos: position{line: 2137, col: 7, offset: 69180},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2137, col: 7, offset: 69051},
+									pos:   position{line: 2137, col: 7, offset: 69180},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1853, col: 25, offset: 59920},
+										pos: position{line: 1853, col: 25, offset: 60049},
 										run: (*parser).callonEscapedMonospaceText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1853, col: 25, offset: 59920},
+											pos: position{line: 1853, col: 25, offset: 60049},
 											expr: &litMatcher{
-												pos:        position{line: 1853, col: 25, offset: 59920},
+												pos:        position{line: 1853, col: 25, offset: 60049},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42637,21 +42637,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2137, col: 42, offset: 69086},
+									pos:        position{line: 2137, col: 42, offset: 69215},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2137, col: 47, offset: 69091},
+									pos:   position{line: 2137, col: 47, offset: 69220},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2137, col: 57, offset: 69101},
+										pos:  position{line: 2137, col: 57, offset: 69230},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2137, col: 91, offset: 69135},
+									pos:        position{line: 2137, col: 91, offset: 69264},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42660,21 +42660,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2142, col: 7, offset: 69341},
+						pos: position{line: 2142, col: 7, offset: 69470},
 						run: (*parser).callonEscapedMonospaceText24,
 						expr: &seqExpr{
-							pos: position{line: 2142, col: 7, offset: 69341},
+							pos: position{line: 2142, col: 7, offset: 69470},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2142, col: 7, offset: 69341},
+									pos:   position{line: 2142, col: 7, offset: 69470},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1853, col: 25, offset: 59920},
+										pos: position{line: 1853, col: 25, offset: 60049},
 										run: (*parser).callonEscapedMonospaceText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1853, col: 25, offset: 59920},
+											pos: position{line: 1853, col: 25, offset: 60049},
 											expr: &litMatcher{
-												pos:        position{line: 1853, col: 25, offset: 59920},
+												pos:        position{line: 1853, col: 25, offset: 60049},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42683,21 +42683,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2142, col: 42, offset: 69376},
+									pos:        position{line: 2142, col: 42, offset: 69505},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2142, col: 46, offset: 69380},
+									pos:   position{line: 2142, col: 46, offset: 69509},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2142, col: 56, offset: 69390},
+										pos:  position{line: 2142, col: 56, offset: 69519},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2142, col: 90, offset: 69424},
+									pos:        position{line: 2142, col: 90, offset: 69553},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42710,29 +42710,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedText",
-			pos:  position{line: 2159, col: 1, offset: 69909},
+			pos:  position{line: 2159, col: 1, offset: 70038},
 			expr: &actionExpr{
-				pos: position{line: 2160, col: 5, offset: 69939},
+				pos: position{line: 2160, col: 5, offset: 70068},
 				run: (*parser).callonDoubleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2160, col: 5, offset: 69939},
+					pos: position{line: 2160, col: 5, offset: 70068},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2155, col: 40, offset: 69860},
+							pos:        position{line: 2155, col: 40, offset: 69989},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2161, col: 5, offset: 69980},
+							pos:   position{line: 2161, col: 5, offset: 70109},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2161, col: 15, offset: 69990},
+								pos:  position{line: 2161, col: 15, offset: 70119},
 								name: "DoubleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2157, col: 38, offset: 69903},
+							pos:        position{line: 2157, col: 38, offset: 70032},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
@@ -42743,44 +42743,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElements",
-			pos:  position{line: 2166, col: 1, offset: 70156},
+			pos:  position{line: 2166, col: 1, offset: 70285},
 			expr: &zeroOrMoreExpr{
-				pos: position{line: 2166, col: 34, offset: 70189},
+				pos: position{line: 2166, col: 34, offset: 70318},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2166, col: 34, offset: 70189},
+					pos:  position{line: 2166, col: 34, offset: 70318},
 					name: "DoubleQuoteMarkedTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMarkedTextElement",
-			pos:  position{line: 2168, col: 1, offset: 70220},
+			pos:  position{line: 2168, col: 1, offset: 70349},
 			expr: &actionExpr{
-				pos: position{line: 2169, col: 5, offset: 70289},
+				pos: position{line: 2169, col: 5, offset: 70418},
 				run: (*parser).callonDoubleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2169, col: 5, offset: 70289},
+					pos: position{line: 2169, col: 5, offset: 70418},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2894, col: 11, offset: 91366},
+							pos: position{line: 2894, col: 11, offset: 91495},
 							expr: &anyMatcher{
-								line: 2894, col: 13, offset: 91368,
+								line: 2894, col: 13, offset: 91497,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2170, col: 5, offset: 70300},
+							pos: position{line: 2170, col: 5, offset: 70429},
 							expr: &litMatcher{
-								pos:        position{line: 2157, col: 38, offset: 69903},
+								pos:        position{line: 2157, col: 38, offset: 70032},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2171, col: 5, offset: 70339},
+							pos:   position{line: 2171, col: 5, offset: 70468},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2171, col: 14, offset: 70348},
+								pos:  position{line: 2171, col: 14, offset: 70477},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42790,29 +42790,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedText",
-			pos:  position{line: 2196, col: 1, offset: 71030},
+			pos:  position{line: 2196, col: 1, offset: 71159},
 			expr: &actionExpr{
-				pos: position{line: 2197, col: 5, offset: 71060},
+				pos: position{line: 2197, col: 5, offset: 71189},
 				run: (*parser).callonSingleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2197, col: 5, offset: 71060},
+					pos: position{line: 2197, col: 5, offset: 71189},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2180, col: 5, offset: 70596},
+							pos:        position{line: 2180, col: 5, offset: 70725},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2181, col: 5, offset: 70605},
+							pos: position{line: 2181, col: 5, offset: 70734},
 							run: (*parser).callonSingleQuoteMarkedText4,
 						},
 						&andExpr{
-							pos: position{line: 2185, col: 5, offset: 70725},
+							pos: position{line: 2185, col: 5, offset: 70854},
 							expr: &notExpr{
-								pos: position{line: 2185, col: 7, offset: 70727},
+								pos: position{line: 2185, col: 7, offset: 70856},
 								expr: &litMatcher{
-									pos:        position{line: 2185, col: 8, offset: 70728},
+									pos:        position{line: 2185, col: 8, offset: 70857},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -42820,38 +42820,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2198, col: 5, offset: 71100},
+							pos:   position{line: 2198, col: 5, offset: 71229},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2198, col: 15, offset: 71110},
+								pos:  position{line: 2198, col: 15, offset: 71239},
 								name: "SingleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2188, col: 5, offset: 70833},
+							pos:        position{line: 2188, col: 5, offset: 70962},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&notExpr{
-							pos: position{line: 2189, col: 5, offset: 70841},
+							pos: position{line: 2189, col: 5, offset: 70970},
 							expr: &litMatcher{
-								pos:        position{line: 2189, col: 6, offset: 70842},
+								pos:        position{line: 2189, col: 6, offset: 70971},
 								val:        "#",
 								ignoreCase: false,
 								want:       "\"#\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2190, col: 5, offset: 70905},
+							pos: position{line: 2190, col: 5, offset: 71034},
 							run: (*parser).callonSingleQuoteMarkedText13,
 						},
 						&andExpr{
-							pos: position{line: 2194, col: 5, offset: 71016},
+							pos: position{line: 2194, col: 5, offset: 71145},
 							expr: &notExpr{
-								pos: position{line: 2194, col: 7, offset: 71018},
+								pos: position{line: 2194, col: 7, offset: 71147},
 								expr: &charClassMatcher{
-									pos:        position{line: 2767, col: 13, offset: 88106},
+									pos:        position{line: 2767, col: 13, offset: 88235},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -42865,20 +42865,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElements",
-			pos:  position{line: 2203, col: 1, offset: 71277},
+			pos:  position{line: 2203, col: 1, offset: 71406},
 			expr: &actionExpr{
-				pos: position{line: 2204, col: 5, offset: 71315},
+				pos: position{line: 2204, col: 5, offset: 71444},
 				run: (*parser).callonSingleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2204, col: 5, offset: 71315},
+					pos: position{line: 2204, col: 5, offset: 71444},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2204, col: 5, offset: 71315},
+							pos: position{line: 2204, col: 5, offset: 71444},
 							expr: &actionExpr{
-								pos: position{line: 2877, col: 10, offset: 91032},
+								pos: position{line: 2877, col: 10, offset: 91161},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2877, col: 10, offset: 91032},
+									pos:        position{line: 2877, col: 10, offset: 91161},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42887,18 +42887,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2205, col: 5, offset: 71354},
+							pos:   position{line: 2205, col: 5, offset: 71483},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2205, col: 14, offset: 71363},
+								pos: position{line: 2205, col: 14, offset: 71492},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2205, col: 15, offset: 71364},
+									pos:  position{line: 2205, col: 15, offset: 71493},
 									name: "SingleQuoteMarkedTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2206, col: 5, offset: 71400},
+							pos: position{line: 2206, col: 5, offset: 71529},
 							run: (*parser).callonSingleQuoteMarkedTextElements9,
 						},
 					},
@@ -42907,49 +42907,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElement",
-			pos:  position{line: 2212, col: 1, offset: 71541},
+			pos:  position{line: 2212, col: 1, offset: 71670},
 			expr: &actionExpr{
-				pos: position{line: 2213, col: 5, offset: 71578},
+				pos: position{line: 2213, col: 5, offset: 71707},
 				run: (*parser).callonSingleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2213, col: 5, offset: 71578},
+					pos: position{line: 2213, col: 5, offset: 71707},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2894, col: 11, offset: 91366},
+							pos: position{line: 2894, col: 11, offset: 91495},
 							expr: &anyMatcher{
-								line: 2894, col: 13, offset: 91368,
+								line: 2894, col: 13, offset: 91497,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2214, col: 5, offset: 71589},
+							pos: position{line: 2214, col: 5, offset: 71718},
 							expr: &seqExpr{
-								pos: position{line: 2188, col: 5, offset: 70833},
+								pos: position{line: 2188, col: 5, offset: 70962},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2188, col: 5, offset: 70833},
+										pos:        position{line: 2188, col: 5, offset: 70962},
 										val:        "#",
 										ignoreCase: false,
 										want:       "\"#\"",
 									},
 									&notExpr{
-										pos: position{line: 2189, col: 5, offset: 70841},
+										pos: position{line: 2189, col: 5, offset: 70970},
 										expr: &litMatcher{
-											pos:        position{line: 2189, col: 6, offset: 70842},
+											pos:        position{line: 2189, col: 6, offset: 70971},
 											val:        "#",
 											ignoreCase: false,
 											want:       "\"#\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2190, col: 5, offset: 70905},
+										pos: position{line: 2190, col: 5, offset: 71034},
 										run: (*parser).callonSingleQuoteMarkedTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2194, col: 5, offset: 71016},
+										pos: position{line: 2194, col: 5, offset: 71145},
 										expr: &notExpr{
-											pos: position{line: 2194, col: 7, offset: 71018},
+											pos: position{line: 2194, col: 7, offset: 71147},
 											expr: &charClassMatcher{
-												pos:        position{line: 2767, col: 13, offset: 88106},
+												pos:        position{line: 2767, col: 13, offset: 88235},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42961,10 +42961,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2215, col: 5, offset: 71628},
+							pos:   position{line: 2215, col: 5, offset: 71757},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2215, col: 14, offset: 71637},
+								pos:  position{line: 2215, col: 14, offset: 71766},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42974,35 +42974,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMarkedText",
-			pos:  position{line: 2220, col: 1, offset: 71725},
+			pos:  position{line: 2220, col: 1, offset: 71854},
 			expr: &choiceExpr{
-				pos: position{line: 2222, col: 5, offset: 71789},
+				pos: position{line: 2222, col: 5, offset: 71918},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2222, col: 5, offset: 71789},
+						pos: position{line: 2222, col: 5, offset: 71918},
 						run: (*parser).callonEscapedMarkedText2,
 						expr: &seqExpr{
-							pos: position{line: 2222, col: 5, offset: 71789},
+							pos: position{line: 2222, col: 5, offset: 71918},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2222, col: 5, offset: 71789},
+									pos:   position{line: 2222, col: 5, offset: 71918},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1857, col: 25, offset: 59993},
+										pos: position{line: 1857, col: 25, offset: 60122},
 										run: (*parser).callonEscapedMarkedText5,
 										expr: &seqExpr{
-											pos: position{line: 1857, col: 25, offset: 59993},
+											pos: position{line: 1857, col: 25, offset: 60122},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1857, col: 25, offset: 59993},
+													pos:        position{line: 1857, col: 25, offset: 60122},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1857, col: 30, offset: 59998},
+													pos: position{line: 1857, col: 30, offset: 60127},
 													expr: &litMatcher{
-														pos:        position{line: 1857, col: 30, offset: 59998},
+														pos:        position{line: 1857, col: 30, offset: 60127},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -43013,21 +43013,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2222, col: 40, offset: 71824},
+									pos:        position{line: 2222, col: 40, offset: 71953},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2222, col: 45, offset: 71829},
+									pos:   position{line: 2222, col: 45, offset: 71958},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2222, col: 55, offset: 71839},
+										pos:  position{line: 2222, col: 55, offset: 71968},
 										name: "DoubleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2222, col: 86, offset: 71870},
+									pos:        position{line: 2222, col: 86, offset: 71999},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
@@ -43036,21 +43036,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2226, col: 7, offset: 72035},
+						pos: position{line: 2226, col: 7, offset: 72164},
 						run: (*parser).callonEscapedMarkedText14,
 						expr: &seqExpr{
-							pos: position{line: 2226, col: 7, offset: 72035},
+							pos: position{line: 2226, col: 7, offset: 72164},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2226, col: 7, offset: 72035},
+									pos:   position{line: 2226, col: 7, offset: 72164},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1853, col: 25, offset: 59920},
+										pos: position{line: 1853, col: 25, offset: 60049},
 										run: (*parser).callonEscapedMarkedText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1853, col: 25, offset: 59920},
+											pos: position{line: 1853, col: 25, offset: 60049},
 											expr: &litMatcher{
-												pos:        position{line: 1853, col: 25, offset: 59920},
+												pos:        position{line: 1853, col: 25, offset: 60049},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43059,21 +43059,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2226, col: 42, offset: 72070},
+									pos:        position{line: 2226, col: 42, offset: 72199},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2226, col: 47, offset: 72075},
+									pos:   position{line: 2226, col: 47, offset: 72204},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2226, col: 57, offset: 72085},
+										pos:  position{line: 2226, col: 57, offset: 72214},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2226, col: 88, offset: 72116},
+									pos:        position{line: 2226, col: 88, offset: 72245},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -43082,21 +43082,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2231, col: 7, offset: 72319},
+						pos: position{line: 2231, col: 7, offset: 72448},
 						run: (*parser).callonEscapedMarkedText24,
 						expr: &seqExpr{
-							pos: position{line: 2231, col: 7, offset: 72319},
+							pos: position{line: 2231, col: 7, offset: 72448},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2231, col: 7, offset: 72319},
+									pos:   position{line: 2231, col: 7, offset: 72448},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1853, col: 25, offset: 59920},
+										pos: position{line: 1853, col: 25, offset: 60049},
 										run: (*parser).callonEscapedMarkedText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1853, col: 25, offset: 59920},
+											pos: position{line: 1853, col: 25, offset: 60049},
 											expr: &litMatcher{
-												pos:        position{line: 1853, col: 25, offset: 59920},
+												pos:        position{line: 1853, col: 25, offset: 60049},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43105,21 +43105,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2231, col: 42, offset: 72354},
+									pos:        position{line: 2231, col: 42, offset: 72483},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2231, col: 46, offset: 72358},
+									pos:   position{line: 2231, col: 46, offset: 72487},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2231, col: 56, offset: 72368},
+										pos:  position{line: 2231, col: 56, offset: 72497},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2231, col: 87, offset: 72399},
+									pos:        position{line: 2231, col: 87, offset: 72528},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -43132,29 +43132,29 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptText",
-			pos:  position{line: 2238, col: 1, offset: 72666},
+			pos:  position{line: 2238, col: 1, offset: 72795},
 			expr: &actionExpr{
-				pos: position{line: 2239, col: 5, offset: 72688},
+				pos: position{line: 2239, col: 5, offset: 72817},
 				run: (*parser).callonSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2239, col: 5, offset: 72688},
+					pos: position{line: 2239, col: 5, offset: 72817},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2245, col: 27, offset: 72903},
+							pos:        position{line: 2245, col: 27, offset: 73032},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2240, col: 5, offset: 72715},
+							pos:   position{line: 2240, col: 5, offset: 72844},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2240, col: 14, offset: 72724},
+								pos:  position{line: 2240, col: 14, offset: 72853},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2245, col: 27, offset: 72903},
+							pos:        position{line: 2245, col: 27, offset: 73032},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -43165,43 +43165,43 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptTextElement",
-			pos:  position{line: 2247, col: 1, offset: 72908},
+			pos:  position{line: 2247, col: 1, offset: 73037},
 			expr: &choiceExpr{
-				pos: position{line: 2247, col: 25, offset: 72932},
+				pos: position{line: 2247, col: 25, offset: 73061},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2247, col: 25, offset: 72932},
+						pos:  position{line: 2247, col: 25, offset: 73061},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2249, col: 21, offset: 72984},
+						pos: position{line: 2249, col: 21, offset: 73113},
 						run: (*parser).callonSubscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2249, col: 21, offset: 72984},
+							pos:   position{line: 2249, col: 21, offset: 73113},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2249, col: 30, offset: 72993},
+								pos: position{line: 2249, col: 30, offset: 73122},
 								expr: &choiceExpr{
-									pos: position{line: 2249, col: 31, offset: 72994},
+									pos: position{line: 2249, col: 31, offset: 73123},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2471, col: 5, offset: 79464},
+											pos: position{line: 2471, col: 5, offset: 79593},
 											run: (*parser).callonSubscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2471, col: 5, offset: 79464},
+												pos: position{line: 2471, col: 5, offset: 79593},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2471, col: 5, offset: 79464},
+														pos: position{line: 2471, col: 5, offset: 79593},
 														run: (*parser).callonSubscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2474, col: 5, offset: 79540},
+														pos:   position{line: 2474, col: 5, offset: 79669},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2475, col: 9, offset: 79558},
+															pos: position{line: 2475, col: 9, offset: 79687},
 															run: (*parser).callonSubscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2475, col: 10, offset: 79559},
+																pos:        position{line: 2475, col: 10, offset: 79688},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -43213,7 +43213,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2249, col: 50, offset: 73013},
+											pos:        position{line: 2249, col: 50, offset: 73142},
 											val:        "[^\\r\\n ~]",
 											chars:      []rune{'\r', '\n', ' ', '~'},
 											ignoreCase: false,
@@ -43229,23 +43229,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2253, col: 1, offset: 73063},
+			pos:  position{line: 2253, col: 1, offset: 73192},
 			expr: &actionExpr{
-				pos: position{line: 2255, col: 5, offset: 73130},
+				pos: position{line: 2255, col: 5, offset: 73259},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2255, col: 5, offset: 73130},
+					pos: position{line: 2255, col: 5, offset: 73259},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2255, col: 5, offset: 73130},
+							pos:   position{line: 2255, col: 5, offset: 73259},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1853, col: 25, offset: 59920},
+								pos: position{line: 1853, col: 25, offset: 60049},
 								run: (*parser).callonEscapedSubscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1853, col: 25, offset: 59920},
+									pos: position{line: 1853, col: 25, offset: 60049},
 									expr: &litMatcher{
-										pos:        position{line: 1853, col: 25, offset: 59920},
+										pos:        position{line: 1853, col: 25, offset: 60049},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -43254,21 +43254,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2245, col: 27, offset: 72903},
+							pos:        position{line: 2245, col: 27, offset: 73032},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2257, col: 5, offset: 73198},
+							pos:   position{line: 2257, col: 5, offset: 73327},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2257, col: 14, offset: 73207},
+								pos:  position{line: 2257, col: 14, offset: 73336},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2245, col: 27, offset: 72903},
+							pos:        position{line: 2245, col: 27, offset: 73032},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -43279,29 +43279,29 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2265, col: 1, offset: 73470},
+			pos:  position{line: 2265, col: 1, offset: 73599},
 			expr: &actionExpr{
-				pos: position{line: 2266, col: 5, offset: 73494},
+				pos: position{line: 2266, col: 5, offset: 73623},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2266, col: 5, offset: 73494},
+					pos: position{line: 2266, col: 5, offset: 73623},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2272, col: 29, offset: 73721},
+							pos:        position{line: 2272, col: 29, offset: 73850},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2267, col: 5, offset: 73524},
+							pos:   position{line: 2267, col: 5, offset: 73653},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2267, col: 14, offset: 73533},
+								pos:  position{line: 2267, col: 14, offset: 73662},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2272, col: 29, offset: 73721},
+							pos:        position{line: 2272, col: 29, offset: 73850},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -43312,43 +43312,43 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2274, col: 1, offset: 73726},
+			pos:  position{line: 2274, col: 1, offset: 73855},
 			expr: &choiceExpr{
-				pos: position{line: 2274, col: 27, offset: 73752},
+				pos: position{line: 2274, col: 27, offset: 73881},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2274, col: 27, offset: 73752},
+						pos:  position{line: 2274, col: 27, offset: 73881},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2276, col: 23, offset: 73808},
+						pos: position{line: 2276, col: 23, offset: 73937},
 						run: (*parser).callonSuperscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2276, col: 23, offset: 73808},
+							pos:   position{line: 2276, col: 23, offset: 73937},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2276, col: 32, offset: 73817},
+								pos: position{line: 2276, col: 32, offset: 73946},
 								expr: &choiceExpr{
-									pos: position{line: 2276, col: 33, offset: 73818},
+									pos: position{line: 2276, col: 33, offset: 73947},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2471, col: 5, offset: 79464},
+											pos: position{line: 2471, col: 5, offset: 79593},
 											run: (*parser).callonSuperscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2471, col: 5, offset: 79464},
+												pos: position{line: 2471, col: 5, offset: 79593},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2471, col: 5, offset: 79464},
+														pos: position{line: 2471, col: 5, offset: 79593},
 														run: (*parser).callonSuperscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2474, col: 5, offset: 79540},
+														pos:   position{line: 2474, col: 5, offset: 79669},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2475, col: 9, offset: 79558},
+															pos: position{line: 2475, col: 9, offset: 79687},
 															run: (*parser).callonSuperscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2475, col: 10, offset: 79559},
+																pos:        position{line: 2475, col: 10, offset: 79688},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -43360,7 +43360,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2276, col: 52, offset: 73837},
+											pos:        position{line: 2276, col: 52, offset: 73966},
 											val:        "[^\\r\\n ^]",
 											chars:      []rune{'\r', '\n', ' ', '^'},
 											ignoreCase: false,
@@ -43376,23 +43376,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2280, col: 1, offset: 73887},
+			pos:  position{line: 2280, col: 1, offset: 74016},
 			expr: &actionExpr{
-				pos: position{line: 2282, col: 5, offset: 73959},
+				pos: position{line: 2282, col: 5, offset: 74088},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2282, col: 5, offset: 73959},
+					pos: position{line: 2282, col: 5, offset: 74088},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2282, col: 5, offset: 73959},
+							pos:   position{line: 2282, col: 5, offset: 74088},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1853, col: 25, offset: 59920},
+								pos: position{line: 1853, col: 25, offset: 60049},
 								run: (*parser).callonEscapedSuperscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1853, col: 25, offset: 59920},
+									pos: position{line: 1853, col: 25, offset: 60049},
 									expr: &litMatcher{
-										pos:        position{line: 1853, col: 25, offset: 59920},
+										pos:        position{line: 1853, col: 25, offset: 60049},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -43401,21 +43401,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2272, col: 29, offset: 73721},
+							pos:        position{line: 2272, col: 29, offset: 73850},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2284, col: 5, offset: 74029},
+							pos:   position{line: 2284, col: 5, offset: 74158},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2284, col: 14, offset: 74038},
+								pos:  position{line: 2284, col: 14, offset: 74167},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2272, col: 29, offset: 73721},
+							pos:        position{line: 2272, col: 29, offset: 73850},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -43426,27 +43426,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2293, col: 1, offset: 74507},
+			pos:  position{line: 2293, col: 1, offset: 74636},
 			expr: &actionExpr{
-				pos: position{line: 2294, col: 5, offset: 74523},
+				pos: position{line: 2294, col: 5, offset: 74652},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2294, col: 5, offset: 74523},
+					pos: position{line: 2294, col: 5, offset: 74652},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2294, col: 5, offset: 74523},
+							pos: position{line: 2294, col: 5, offset: 74652},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2297, col: 5, offset: 74586},
+							pos:   position{line: 2297, col: 5, offset: 74715},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2297, col: 12, offset: 74593},
+								pos: position{line: 2297, col: 12, offset: 74722},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2297, col: 12, offset: 74593},
+									pos: position{line: 2297, col: 12, offset: 74722},
 									expr: &litMatcher{
-										pos:        position{line: 2297, col: 13, offset: 74594},
+										pos:        position{line: 2297, col: 13, offset: 74723},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -43455,16 +43455,16 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2301, col: 5, offset: 74702},
+							pos: position{line: 2301, col: 5, offset: 74831},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2881, col: 11, offset: 91093},
+							pos: position{line: 2881, col: 11, offset: 91222},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2881, col: 11, offset: 91093},
+								pos: position{line: 2881, col: 11, offset: 91222},
 								expr: &charClassMatcher{
-									pos:        position{line: 2881, col: 11, offset: 91093},
+									pos:        position{line: 2881, col: 11, offset: 91222},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43473,36 +43473,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2305, col: 12, offset: 74861},
+							pos:   position{line: 2305, col: 12, offset: 74990},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2305, col: 19, offset: 74868},
+								pos:  position{line: 2305, col: 19, offset: 74997},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2899, col: 8, offset: 91430},
+							pos: position{line: 2899, col: 8, offset: 91559},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2886, col: 12, offset: 91203},
+									pos: position{line: 2886, col: 12, offset: 91332},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2886, col: 13, offset: 91204},
+										pos: position{line: 2886, col: 13, offset: 91333},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2886, col: 13, offset: 91204},
+												pos:        position{line: 2886, col: 13, offset: 91333},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2886, col: 20, offset: 91211},
+												pos:        position{line: 2886, col: 20, offset: 91340},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2886, col: 29, offset: 91220},
+												pos:        position{line: 2886, col: 29, offset: 91349},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -43511,9 +43511,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2896, col: 8, offset: 91380},
+									pos: position{line: 2896, col: 8, offset: 91509},
 									expr: &anyMatcher{
-										line: 2896, col: 9, offset: 91381,
+										line: 2896, col: 9, offset: 91510,
 									},
 								},
 							},
@@ -43524,24 +43524,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2309, col: 1, offset: 74964},
+			pos:  position{line: 2309, col: 1, offset: 75093},
 			expr: &actionExpr{
-				pos: position{line: 2310, col: 5, offset: 74985},
+				pos: position{line: 2310, col: 5, offset: 75114},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2310, col: 5, offset: 74985},
+					pos: position{line: 2310, col: 5, offset: 75114},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2310, col: 5, offset: 74985},
+							pos: position{line: 2310, col: 5, offset: 75114},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2315, col: 5, offset: 75100},
+							pos:   position{line: 2315, col: 5, offset: 75229},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2315, col: 14, offset: 75109},
+								pos: position{line: 2315, col: 14, offset: 75238},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2315, col: 15, offset: 75110},
+									pos:  position{line: 2315, col: 15, offset: 75239},
 									name: "SectionTitleElement",
 								},
 							},
@@ -43552,38 +43552,38 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2319, col: 1, offset: 75191},
+			pos:  position{line: 2319, col: 1, offset: 75320},
 			expr: &actionExpr{
-				pos: position{line: 2320, col: 5, offset: 75218},
+				pos: position{line: 2320, col: 5, offset: 75347},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2320, col: 5, offset: 75218},
+					pos: position{line: 2320, col: 5, offset: 75347},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2320, col: 5, offset: 75218},
+							pos: position{line: 2320, col: 5, offset: 75347},
 							expr: &choiceExpr{
-								pos: position{line: 2899, col: 8, offset: 91430},
+								pos: position{line: 2899, col: 8, offset: 91559},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2886, col: 12, offset: 91203},
+										pos: position{line: 2886, col: 12, offset: 91332},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2886, col: 13, offset: 91204},
+											pos: position{line: 2886, col: 13, offset: 91333},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2886, col: 13, offset: 91204},
+													pos:        position{line: 2886, col: 13, offset: 91333},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2886, col: 20, offset: 91211},
+													pos:        position{line: 2886, col: 20, offset: 91340},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2886, col: 29, offset: 91220},
+													pos:        position{line: 2886, col: 29, offset: 91349},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -43592,29 +43592,29 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2896, col: 8, offset: 91380},
+										pos: position{line: 2896, col: 8, offset: 91509},
 										expr: &anyMatcher{
-											line: 2896, col: 9, offset: 91381,
+											line: 2896, col: 9, offset: 91510,
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2321, col: 5, offset: 75227},
+							pos:   position{line: 2321, col: 5, offset: 75356},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2321, col: 14, offset: 75236},
+								pos: position{line: 2321, col: 14, offset: 75365},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2321, col: 14, offset: 75236},
+										pos:  position{line: 2321, col: 14, offset: 75365},
 										name: "SectionTitleLineElement",
 									},
 									&actionExpr{
-										pos: position{line: 2816, col: 12, offset: 89340},
+										pos: position{line: 2816, col: 12, offset: 89469},
 										run: (*parser).callonSectionTitleElement15,
 										expr: &charClassMatcher{
-											pos:        position{line: 2816, col: 12, offset: 89340},
+											pos:        position{line: 2816, col: 12, offset: 89469},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -43630,21 +43630,21 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleLineElement",
-			pos:  position{line: 2326, col: 1, offset: 75340},
+			pos:  position{line: 2326, col: 1, offset: 75469},
 			expr: &actionExpr{
-				pos: position{line: 2327, col: 5, offset: 75371},
+				pos: position{line: 2327, col: 5, offset: 75500},
 				run: (*parser).callonSectionTitleLineElement1,
 				expr: &seqExpr{
-					pos: position{line: 2327, col: 5, offset: 75371},
+					pos: position{line: 2327, col: 5, offset: 75500},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2327, col: 5, offset: 75371},
+							pos:   position{line: 2327, col: 5, offset: 75500},
 							label: "start",
 							expr: &actionExpr{
-								pos: position{line: 2902, col: 16, offset: 91554},
+								pos: position{line: 2902, col: 16, offset: 91683},
 								run: (*parser).callonSectionTitleLineElement4,
 								expr: &litMatcher{
-									pos:        position{line: 2902, col: 16, offset: 91554},
+									pos:        position{line: 2902, col: 16, offset: 91683},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -43652,27 +43652,27 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2328, col: 5, offset: 75395},
+							pos:   position{line: 2328, col: 5, offset: 75524},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2329, col: 9, offset: 75413},
+								pos: position{line: 2329, col: 9, offset: 75542},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2776, col: 5, offset: 88253},
+										pos: position{line: 2776, col: 5, offset: 88382},
 										run: (*parser).callonSectionTitleLineElement8,
 										expr: &seqExpr{
-											pos: position{line: 2776, col: 5, offset: 88253},
+											pos: position{line: 2776, col: 5, offset: 88382},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2776, col: 5, offset: 88253},
+													pos:   position{line: 2776, col: 5, offset: 88382},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2776, col: 11, offset: 88259},
+														pos: position{line: 2776, col: 11, offset: 88388},
 														run: (*parser).callonSectionTitleLineElement11,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2776, col: 11, offset: 88259},
+															pos: position{line: 2776, col: 11, offset: 88388},
 															expr: &charClassMatcher{
-																pos:        position{line: 2776, col: 11, offset: 88259},
+																pos:        position{line: 2776, col: 11, offset: 88388},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -43682,44 +43682,44 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2779, col: 5, offset: 88317},
+													pos: position{line: 2779, col: 5, offset: 88446},
 													expr: &seqExpr{
-														pos: position{line: 2780, col: 9, offset: 88328},
+														pos: position{line: 2780, col: 9, offset: 88457},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2780, col: 9, offset: 88328},
+																pos:        position{line: 2780, col: 9, offset: 88457},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2781, col: 9, offset: 88377},
+																pos: position{line: 2781, col: 9, offset: 88506},
 																run: (*parser).callonSectionTitleLineElement17,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2785, col: 5, offset: 88457},
+													pos: position{line: 2785, col: 5, offset: 88586},
 													expr: &seqExpr{
-														pos: position{line: 2786, col: 9, offset: 88468},
+														pos: position{line: 2786, col: 9, offset: 88597},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2786, col: 9, offset: 88468},
+																pos: position{line: 2786, col: 9, offset: 88597},
 																expr: &seqExpr{
-																	pos: position{line: 2786, col: 10, offset: 88469},
+																	pos: position{line: 2786, col: 10, offset: 88598},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2786, col: 10, offset: 88469},
+																			pos:        position{line: 2786, col: 10, offset: 88598},
 																			val:        "[._%+-]",
 																			chars:      []rune{'.', '_', '%', '+', '-'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2786, col: 18, offset: 88477},
+																			pos: position{line: 2786, col: 18, offset: 88606},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2786, col: 18, offset: 88477},
+																				pos:        position{line: 2786, col: 18, offset: 88606},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -43730,13 +43730,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2786, col: 30, offset: 88489},
+																pos:        position{line: 2786, col: 30, offset: 88618},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2786, col: 34, offset: 88493},
+																pos:        position{line: 2786, col: 34, offset: 88622},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -43749,12 +43749,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2881, col: 11, offset: 91093},
+										pos: position{line: 2881, col: 11, offset: 91222},
 										run: (*parser).callonSectionTitleLineElement27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2881, col: 11, offset: 91093},
+											pos: position{line: 2881, col: 11, offset: 91222},
 											expr: &charClassMatcher{
-												pos:        position{line: 2881, col: 11, offset: 91093},
+												pos:        position{line: 2881, col: 11, offset: 91222},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -43763,25 +43763,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2502, col: 5, offset: 80635},
+										pos: position{line: 2502, col: 5, offset: 80764},
 										run: (*parser).callonSectionTitleLineElement30,
 										expr: &seqExpr{
-											pos: position{line: 2502, col: 5, offset: 80635},
+											pos: position{line: 2502, col: 5, offset: 80764},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2502, col: 5, offset: 80635},
+													pos: position{line: 2502, col: 5, offset: 80764},
 													run: (*parser).callonSectionTitleLineElement32,
 												},
 												&litMatcher{
-													pos:        position{line: 2505, col: 5, offset: 80706},
+													pos:        position{line: 2505, col: 5, offset: 80835},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2505, col: 10, offset: 80711},
+													pos: position{line: 2505, col: 10, offset: 80840},
 													expr: &charClassMatcher{
-														pos:        position{line: 2505, col: 11, offset: 80712},
+														pos:        position{line: 2505, col: 11, offset: 80841},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -43792,29 +43792,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2511, col: 5, offset: 80904},
+										pos: position{line: 2511, col: 5, offset: 81033},
 										run: (*parser).callonSectionTitleLineElement36,
 										expr: &seqExpr{
-											pos: position{line: 2511, col: 5, offset: 80904},
+											pos: position{line: 2511, col: 5, offset: 81033},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2511, col: 5, offset: 80904},
+													pos: position{line: 2511, col: 5, offset: 81033},
 													run: (*parser).callonSectionTitleLineElement38,
 												},
 												&andCodeExpr{
-													pos: position{line: 2514, col: 5, offset: 80975},
+													pos: position{line: 2514, col: 5, offset: 81104},
 													run: (*parser).callonSectionTitleLineElement39,
 												},
 												&litMatcher{
-													pos:        position{line: 2518, col: 5, offset: 81100},
+													pos:        position{line: 2518, col: 5, offset: 81229},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2518, col: 9, offset: 81104},
+													pos: position{line: 2518, col: 9, offset: 81233},
 													expr: &charClassMatcher{
-														pos:        position{line: 2518, col: 10, offset: 81105},
+														pos:        position{line: 2518, col: 10, offset: 81234},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -43825,31 +43825,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2332, col: 11, offset: 75478},
+										pos:  position{line: 2332, col: 11, offset: 75607},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2794, col: 5, offset: 88686},
+										pos: position{line: 2794, col: 5, offset: 88815},
 										run: (*parser).callonSectionTitleLineElement44,
 										expr: &choiceExpr{
-											pos: position{line: 2795, col: 9, offset: 88696},
+											pos: position{line: 2795, col: 9, offset: 88825},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2795, col: 10, offset: 88697},
+													pos:        position{line: 2795, col: 10, offset: 88826},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2797, col: 13, offset: 88794},
+													pos: position{line: 2797, col: 13, offset: 88923},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2797, col: 13, offset: 88794},
+															pos: position{line: 2797, col: 13, offset: 88923},
 															run: (*parser).callonSectionTitleLineElement48,
 														},
 														&litMatcher{
-															pos:        position{line: 2800, col: 13, offset: 88894},
+															pos:        position{line: 2800, col: 13, offset: 89023},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -43857,20 +43857,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2800, col: 19, offset: 88900},
+													pos:        position{line: 2800, col: 19, offset: 89029},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2803, col: 13, offset: 88938},
+													pos: position{line: 2803, col: 13, offset: 89067},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2803, col: 13, offset: 88938},
+															pos: position{line: 2803, col: 13, offset: 89067},
 															run: (*parser).callonSectionTitleLineElement52,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2806, col: 14, offset: 89031},
+															pos:        position{line: 2806, col: 14, offset: 89160},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -43879,18 +43879,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2808, col: 12, offset: 89075},
+													pos: position{line: 2808, col: 12, offset: 89204},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2808, col: 12, offset: 89075},
+															pos:        position{line: 2808, col: 12, offset: 89204},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2808, col: 16, offset: 89079},
+															pos: position{line: 2808, col: 16, offset: 89208},
 															expr: &litMatcher{
-																pos:        position{line: 2808, col: 17, offset: 89080},
+																pos:        position{line: 2808, col: 17, offset: 89209},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -43902,35 +43902,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2334, col: 11, offset: 75551},
+										pos:  position{line: 2334, col: 11, offset: 75680},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2335, col: 11, offset: 75567},
+										pos:  position{line: 2335, col: 11, offset: 75696},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2336, col: 11, offset: 75595},
+										pos:  position{line: 2336, col: 11, offset: 75724},
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2471, col: 5, offset: 79464},
+										pos: position{line: 2471, col: 5, offset: 79593},
 										run: (*parser).callonSectionTitleLineElement61,
 										expr: &seqExpr{
-											pos: position{line: 2471, col: 5, offset: 79464},
+											pos: position{line: 2471, col: 5, offset: 79593},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2471, col: 5, offset: 79464},
+													pos: position{line: 2471, col: 5, offset: 79593},
 													run: (*parser).callonSectionTitleLineElement63,
 												},
 												&labeledExpr{
-													pos:   position{line: 2474, col: 5, offset: 79540},
+													pos:   position{line: 2474, col: 5, offset: 79669},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2475, col: 9, offset: 79558},
+														pos: position{line: 2475, col: 9, offset: 79687},
 														run: (*parser).callonSectionTitleLineElement65,
 														expr: &charClassMatcher{
-															pos:        position{line: 2475, col: 10, offset: 79559},
+															pos:        position{line: 2475, col: 10, offset: 79688},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -43942,7 +43942,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2338, col: 11, offset: 75680},
+										pos:  position{line: 2338, col: 11, offset: 75809},
 										name: "InlineIcon",
 									},
 									&actionExpr{
@@ -44335,17 +44335,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2354, col: 5, offset: 76174},
+										pos: position{line: 2354, col: 5, offset: 76303},
 										run: (*parser).callonSectionTitleLineElement146,
 										expr: &seqExpr{
-											pos: position{line: 2354, col: 5, offset: 76174},
+											pos: position{line: 2354, col: 5, offset: 76303},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2354, col: 5, offset: 76174},
+													pos: position{line: 2354, col: 5, offset: 76303},
 													run: (*parser).callonSectionTitleLineElement148,
 												},
 												&labeledExpr{
-													pos:   position{line: 2357, col: 5, offset: 76229},
+													pos:   position{line: 2357, col: 5, offset: 76358},
 													label: "id",
 													expr: &actionExpr{
 														pos: position{line: 403, col: 5, offset: 12344},
@@ -44803,12 +44803,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2357, col: 26, offset: 76250},
+													pos: position{line: 2357, col: 26, offset: 76379},
 													expr: &actionExpr{
-														pos: position{line: 2877, col: 10, offset: 91032},
+														pos: position{line: 2877, col: 10, offset: 91161},
 														run: (*parser).callonSectionTitleLineElement243,
 														expr: &charClassMatcher{
-															pos:        position{line: 2877, col: 10, offset: 91032},
+															pos:        position{line: 2877, col: 10, offset: 91161},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -44817,30 +44817,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 2357, col: 33, offset: 76257},
+													pos: position{line: 2357, col: 33, offset: 76386},
 													expr: &choiceExpr{
-														pos: position{line: 2899, col: 8, offset: 91430},
+														pos: position{line: 2899, col: 8, offset: 91559},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2886, col: 12, offset: 91203},
+																pos: position{line: 2886, col: 12, offset: 91332},
 																run: (*parser).callonSectionTitleLineElement247,
 																expr: &choiceExpr{
-																	pos: position{line: 2886, col: 13, offset: 91204},
+																	pos: position{line: 2886, col: 13, offset: 91333},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 13, offset: 91204},
+																			pos:        position{line: 2886, col: 13, offset: 91333},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 20, offset: 91211},
+																			pos:        position{line: 2886, col: 20, offset: 91340},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 29, offset: 91220},
+																			pos:        position{line: 2886, col: 29, offset: 91349},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -44849,9 +44849,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2896, col: 8, offset: 91380},
+																pos: position{line: 2896, col: 8, offset: 91509},
 																expr: &anyMatcher{
-																	line: 2896, col: 9, offset: 91381,
+																	line: 2896, col: 9, offset: 91510,
 																},
 															},
 														},
@@ -44876,12 +44876,12 @@ var g = &grammar{
 													pos:   position{line: 1257, col: 14, offset: 38885},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2862, col: 7, offset: 90684},
+														pos: position{line: 2862, col: 7, offset: 90813},
 														run: (*parser).callonSectionTitleLineElement258,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2862, col: 7, offset: 90684},
+															pos: position{line: 2862, col: 7, offset: 90813},
 															expr: &charClassMatcher{
-																pos:        position{line: 2862, col: 7, offset: 90684},
+																pos:        position{line: 2862, col: 7, offset: 90813},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -44900,27 +44900,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1262, col: 5, offset: 39012},
+										pos: position{line: 1262, col: 5, offset: 39055},
 										run: (*parser).callonSectionTitleLineElement262,
 										expr: &seqExpr{
-											pos: position{line: 1262, col: 5, offset: 39012},
+											pos: position{line: 1262, col: 5, offset: 39055},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1262, col: 5, offset: 39012},
+													pos:        position{line: 1262, col: 5, offset: 39055},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1262, col: 10, offset: 39017},
+													pos:   position{line: 1262, col: 10, offset: 39060},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2862, col: 7, offset: 90684},
+														pos: position{line: 2862, col: 7, offset: 90813},
 														run: (*parser).callonSectionTitleLineElement266,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2862, col: 7, offset: 90684},
+															pos: position{line: 2862, col: 7, offset: 90813},
 															expr: &charClassMatcher{
-																pos:        position{line: 2862, col: 7, offset: 90684},
+																pos:        position{line: 2862, col: 7, offset: 90813},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -44930,7 +44930,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1262, col: 18, offset: 39025},
+													pos:        position{line: 1262, col: 18, offset: 39068},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -44939,20 +44939,20 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2343, col: 11, offset: 75934},
+										pos:  position{line: 2343, col: 11, offset: 76063},
 										name: "InlineFootnote",
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2344, col: 5, offset: 75954},
+							pos:   position{line: 2344, col: 5, offset: 76083},
 							label: "end",
 							expr: &actionExpr{
-								pos: position{line: 2902, col: 16, offset: 91554},
+								pos: position{line: 2902, col: 16, offset: 91683},
 								run: (*parser).callonSectionTitleLineElement272,
 								expr: &litMatcher{
-									pos:        position{line: 2902, col: 16, offset: 91554},
+									pos:        position{line: 2902, col: 16, offset: 91683},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -44960,7 +44960,7 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2345, col: 5, offset: 75976},
+							pos: position{line: 2345, col: 5, offset: 76105},
 							run: (*parser).callonSectionTitleLineElement274,
 						},
 					},
@@ -44969,52 +44969,52 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2367, col: 1, offset: 76519},
+			pos:  position{line: 2367, col: 1, offset: 76648},
 			expr: &actionExpr{
-				pos: position{line: 2368, col: 5, offset: 76606},
+				pos: position{line: 2368, col: 5, offset: 76735},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2368, col: 5, offset: 76606},
+					pos: position{line: 2368, col: 5, offset: 76735},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2368, col: 5, offset: 76606},
+							pos:   position{line: 2368, col: 5, offset: 76735},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2368, col: 14, offset: 76615},
+								pos: position{line: 2368, col: 14, offset: 76744},
 								expr: &actionExpr{
-									pos: position{line: 2370, col: 9, offset: 76641},
+									pos: position{line: 2370, col: 9, offset: 76770},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2370, col: 9, offset: 76641},
+										pos: position{line: 2370, col: 9, offset: 76770},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2894, col: 11, offset: 91366},
+												pos: position{line: 2894, col: 11, offset: 91495},
 												expr: &anyMatcher{
-													line: 2894, col: 13, offset: 91368,
+													line: 2894, col: 13, offset: 91497,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2371, col: 9, offset: 76656},
+												pos:   position{line: 2371, col: 9, offset: 76785},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2372, col: 13, offset: 76678},
+													pos: position{line: 2372, col: 13, offset: 76807},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2776, col: 5, offset: 88253},
+															pos: position{line: 2776, col: 5, offset: 88382},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2776, col: 5, offset: 88253},
+																pos: position{line: 2776, col: 5, offset: 88382},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 2776, col: 5, offset: 88253},
+																		pos:   position{line: 2776, col: 5, offset: 88382},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2776, col: 11, offset: 88259},
+																			pos: position{line: 2776, col: 11, offset: 88388},
 																			run: (*parser).callonNormalGroup14,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2776, col: 11, offset: 88259},
+																				pos: position{line: 2776, col: 11, offset: 88388},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2776, col: 11, offset: 88259},
+																					pos:        position{line: 2776, col: 11, offset: 88388},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -45024,44 +45024,44 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2779, col: 5, offset: 88317},
+																		pos: position{line: 2779, col: 5, offset: 88446},
 																		expr: &seqExpr{
-																			pos: position{line: 2780, col: 9, offset: 88328},
+																			pos: position{line: 2780, col: 9, offset: 88457},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2780, col: 9, offset: 88328},
+																					pos:        position{line: 2780, col: 9, offset: 88457},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2781, col: 9, offset: 88377},
+																					pos: position{line: 2781, col: 9, offset: 88506},
 																					run: (*parser).callonNormalGroup20,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2785, col: 5, offset: 88457},
+																		pos: position{line: 2785, col: 5, offset: 88586},
 																		expr: &seqExpr{
-																			pos: position{line: 2786, col: 9, offset: 88468},
+																			pos: position{line: 2786, col: 9, offset: 88597},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 2786, col: 9, offset: 88468},
+																					pos: position{line: 2786, col: 9, offset: 88597},
 																					expr: &seqExpr{
-																						pos: position{line: 2786, col: 10, offset: 88469},
+																						pos: position{line: 2786, col: 10, offset: 88598},
 																						exprs: []interface{}{
 																							&charClassMatcher{
-																								pos:        position{line: 2786, col: 10, offset: 88469},
+																								pos:        position{line: 2786, col: 10, offset: 88598},
 																								val:        "[._%+-]",
 																								chars:      []rune{'.', '_', '%', '+', '-'},
 																								ignoreCase: false,
 																								inverted:   false,
 																							},
 																							&oneOrMoreExpr{
-																								pos: position{line: 2786, col: 18, offset: 88477},
+																								pos: position{line: 2786, col: 18, offset: 88606},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2786, col: 18, offset: 88477},
+																									pos:        position{line: 2786, col: 18, offset: 88606},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -45072,13 +45072,13 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2786, col: 30, offset: 88489},
+																					pos:        position{line: 2786, col: 30, offset: 88618},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2786, col: 34, offset: 88493},
+																					pos:        position{line: 2786, col: 34, offset: 88622},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -45091,12 +45091,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2881, col: 11, offset: 91093},
+															pos: position{line: 2881, col: 11, offset: 91222},
 															run: (*parser).callonNormalGroup30,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2881, col: 11, offset: 91093},
+																pos: position{line: 2881, col: 11, offset: 91222},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2881, col: 11, offset: 91093},
+																	pos:        position{line: 2881, col: 11, offset: 91222},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -45105,29 +45105,29 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2374, col: 15, offset: 76724},
+															pos:  position{line: 2374, col: 15, offset: 76853},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2502, col: 5, offset: 80635},
+															pos: position{line: 2502, col: 5, offset: 80764},
 															run: (*parser).callonNormalGroup34,
 															expr: &seqExpr{
-																pos: position{line: 2502, col: 5, offset: 80635},
+																pos: position{line: 2502, col: 5, offset: 80764},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2502, col: 5, offset: 80635},
+																		pos: position{line: 2502, col: 5, offset: 80764},
 																		run: (*parser).callonNormalGroup36,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2505, col: 5, offset: 80706},
+																		pos:        position{line: 2505, col: 5, offset: 80835},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2505, col: 10, offset: 80711},
+																		pos: position{line: 2505, col: 10, offset: 80840},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2505, col: 11, offset: 80712},
+																			pos:        position{line: 2505, col: 11, offset: 80841},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -45138,29 +45138,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2511, col: 5, offset: 80904},
+															pos: position{line: 2511, col: 5, offset: 81033},
 															run: (*parser).callonNormalGroup40,
 															expr: &seqExpr{
-																pos: position{line: 2511, col: 5, offset: 80904},
+																pos: position{line: 2511, col: 5, offset: 81033},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2511, col: 5, offset: 80904},
+																		pos: position{line: 2511, col: 5, offset: 81033},
 																		run: (*parser).callonNormalGroup42,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2514, col: 5, offset: 80975},
+																		pos: position{line: 2514, col: 5, offset: 81104},
 																		run: (*parser).callonNormalGroup43,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2518, col: 5, offset: 81100},
+																		pos:        position{line: 2518, col: 5, offset: 81229},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2518, col: 9, offset: 81104},
+																		pos: position{line: 2518, col: 9, offset: 81233},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2518, col: 10, offset: 81105},
+																			pos:        position{line: 2518, col: 10, offset: 81234},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -45171,27 +45171,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2794, col: 5, offset: 88686},
+															pos: position{line: 2794, col: 5, offset: 88815},
 															run: (*parser).callonNormalGroup47,
 															expr: &choiceExpr{
-																pos: position{line: 2795, col: 9, offset: 88696},
+																pos: position{line: 2795, col: 9, offset: 88825},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2795, col: 10, offset: 88697},
+																		pos:        position{line: 2795, col: 10, offset: 88826},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2797, col: 13, offset: 88794},
+																		pos: position{line: 2797, col: 13, offset: 88923},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2797, col: 13, offset: 88794},
+																				pos: position{line: 2797, col: 13, offset: 88923},
 																				run: (*parser).callonNormalGroup51,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2800, col: 13, offset: 88894},
+																				pos:        position{line: 2800, col: 13, offset: 89023},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -45199,20 +45199,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2800, col: 19, offset: 88900},
+																		pos:        position{line: 2800, col: 19, offset: 89029},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2803, col: 13, offset: 88938},
+																		pos: position{line: 2803, col: 13, offset: 89067},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2803, col: 13, offset: 88938},
+																				pos: position{line: 2803, col: 13, offset: 89067},
 																				run: (*parser).callonNormalGroup55,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2806, col: 14, offset: 89031},
+																				pos:        position{line: 2806, col: 14, offset: 89160},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -45221,18 +45221,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2808, col: 12, offset: 89075},
+																		pos: position{line: 2808, col: 12, offset: 89204},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2808, col: 12, offset: 89075},
+																				pos:        position{line: 2808, col: 12, offset: 89204},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2808, col: 16, offset: 89079},
+																				pos: position{line: 2808, col: 16, offset: 89208},
 																				expr: &litMatcher{
-																					pos:        position{line: 2808, col: 17, offset: 89080},
+																					pos:        position{line: 2808, col: 17, offset: 89209},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -45244,25 +45244,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2886, col: 12, offset: 91203},
+															pos: position{line: 2886, col: 12, offset: 91332},
 															run: (*parser).callonNormalGroup61,
 															expr: &choiceExpr{
-																pos: position{line: 2886, col: 13, offset: 91204},
+																pos: position{line: 2886, col: 13, offset: 91333},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 13, offset: 91204},
+																		pos:        position{line: 2886, col: 13, offset: 91333},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 20, offset: 91211},
+																		pos:        position{line: 2886, col: 20, offset: 91340},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 29, offset: 91220},
+																		pos:        position{line: 2886, col: 29, offset: 91349},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -45617,35 +45617,35 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2379, col: 15, offset: 76891},
+															pos:  position{line: 2379, col: 15, offset: 77020},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2380, col: 15, offset: 76911},
+															pos:  position{line: 2380, col: 15, offset: 77040},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2381, col: 15, offset: 77000},
+															pos:  position{line: 2381, col: 15, offset: 77129},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2471, col: 5, offset: 79464},
+															pos: position{line: 2471, col: 5, offset: 79593},
 															run: (*parser).callonNormalGroup138,
 															expr: &seqExpr{
-																pos: position{line: 2471, col: 5, offset: 79464},
+																pos: position{line: 2471, col: 5, offset: 79593},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2471, col: 5, offset: 79464},
+																		pos: position{line: 2471, col: 5, offset: 79593},
 																		run: (*parser).callonNormalGroup140,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2474, col: 5, offset: 79540},
+																		pos:   position{line: 2474, col: 5, offset: 79669},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2475, col: 9, offset: 79558},
+																			pos: position{line: 2475, col: 9, offset: 79687},
 																			run: (*parser).callonNormalGroup142,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2475, col: 10, offset: 79559},
+																				pos:        position{line: 2475, col: 10, offset: 79688},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -45679,10 +45679,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1218, col: 5, offset: 37733},
 																		expr: &actionExpr{
-																			pos: position{line: 2877, col: 10, offset: 91032},
+																			pos: position{line: 2877, col: 10, offset: 91161},
 																			run: (*parser).callonNormalGroup150,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 10, offset: 91032},
+																				pos:        position{line: 2877, col: 10, offset: 91161},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45693,28 +45693,28 @@ var g = &grammar{
 																	&andExpr{
 																		pos: position{line: 1218, col: 12, offset: 37740},
 																		expr: &choiceExpr{
-																			pos: position{line: 2899, col: 8, offset: 91430},
+																			pos: position{line: 2899, col: 8, offset: 91559},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2886, col: 12, offset: 91203},
+																					pos: position{line: 2886, col: 12, offset: 91332},
 																					run: (*parser).callonNormalGroup154,
 																					expr: &choiceExpr{
-																						pos: position{line: 2886, col: 13, offset: 91204},
+																						pos: position{line: 2886, col: 13, offset: 91333},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 13, offset: 91204},
+																								pos:        position{line: 2886, col: 13, offset: 91333},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 20, offset: 91211},
+																								pos:        position{line: 2886, col: 20, offset: 91340},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 29, offset: 91220},
+																								pos:        position{line: 2886, col: 29, offset: 91349},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -45723,9 +45723,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91380},
+																					pos: position{line: 2896, col: 8, offset: 91509},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91381,
+																						line: 2896, col: 9, offset: 91510,
 																					},
 																				},
 																			},
@@ -45735,7 +45735,7 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2384, col: 15, offset: 77182},
+															pos:  position{line: 2384, col: 15, offset: 77311},
 															name: "InlinePassthrough",
 														},
 														&actionExpr{
@@ -45782,10 +45782,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2816, col: 12, offset: 89340},
+															pos: position{line: 2816, col: 12, offset: 89469},
 															run: (*parser).callonNormalGroup171,
 															expr: &charClassMatcher{
-																pos:        position{line: 2816, col: 12, offset: 89340},
+																pos:        position{line: 2816, col: 12, offset: 89469},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -45801,9 +45801,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2896, col: 8, offset: 91380},
+							pos: position{line: 2896, col: 8, offset: 91509},
 							expr: &anyMatcher{
-								line: 2896, col: 9, offset: 91381,
+								line: 2896, col: 9, offset: 91510,
 							},
 						},
 					},
@@ -45812,28 +45812,28 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2395, col: 1, offset: 77620},
+			pos:  position{line: 2395, col: 1, offset: 77749},
 			expr: &actionExpr{
-				pos: position{line: 2396, col: 5, offset: 77653},
+				pos: position{line: 2396, col: 5, offset: 77782},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2396, col: 5, offset: 77653},
+					pos: position{line: 2396, col: 5, offset: 77782},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2396, col: 5, offset: 77653},
+							pos:   position{line: 2396, col: 5, offset: 77782},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2396, col: 14, offset: 77662},
+								pos: position{line: 2396, col: 14, offset: 77791},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2396, col: 15, offset: 77663},
+									pos:  position{line: 2396, col: 15, offset: 77792},
 									name: "AttributeStructuredValueElement",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2896, col: 8, offset: 91380},
+							pos: position{line: 2896, col: 8, offset: 91509},
 							expr: &anyMatcher{
-								line: 2896, col: 9, offset: 91381,
+								line: 2896, col: 9, offset: 91510,
 							},
 						},
 					},
@@ -45842,41 +45842,41 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2400, col: 1, offset: 77760},
+			pos:  position{line: 2400, col: 1, offset: 77889},
 			expr: &actionExpr{
-				pos: position{line: 2401, col: 5, offset: 77800},
+				pos: position{line: 2401, col: 5, offset: 77929},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2401, col: 5, offset: 77800},
+					pos: position{line: 2401, col: 5, offset: 77929},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2894, col: 11, offset: 91366},
+							pos: position{line: 2894, col: 11, offset: 91495},
 							expr: &anyMatcher{
-								line: 2894, col: 13, offset: 91368,
+								line: 2894, col: 13, offset: 91497,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2402, col: 5, offset: 77811},
+							pos:   position{line: 2402, col: 5, offset: 77940},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2403, col: 9, offset: 77829},
+								pos: position{line: 2403, col: 9, offset: 77958},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2776, col: 5, offset: 88253},
+										pos: position{line: 2776, col: 5, offset: 88382},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2776, col: 5, offset: 88253},
+											pos: position{line: 2776, col: 5, offset: 88382},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2776, col: 5, offset: 88253},
+													pos:   position{line: 2776, col: 5, offset: 88382},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2776, col: 11, offset: 88259},
+														pos: position{line: 2776, col: 11, offset: 88388},
 														run: (*parser).callonAttributeStructuredValueElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2776, col: 11, offset: 88259},
+															pos: position{line: 2776, col: 11, offset: 88388},
 															expr: &charClassMatcher{
-																pos:        position{line: 2776, col: 11, offset: 88259},
+																pos:        position{line: 2776, col: 11, offset: 88388},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45886,44 +45886,44 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2779, col: 5, offset: 88317},
+													pos: position{line: 2779, col: 5, offset: 88446},
 													expr: &seqExpr{
-														pos: position{line: 2780, col: 9, offset: 88328},
+														pos: position{line: 2780, col: 9, offset: 88457},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2780, col: 9, offset: 88328},
+																pos:        position{line: 2780, col: 9, offset: 88457},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2781, col: 9, offset: 88377},
+																pos: position{line: 2781, col: 9, offset: 88506},
 																run: (*parser).callonAttributeStructuredValueElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2785, col: 5, offset: 88457},
+													pos: position{line: 2785, col: 5, offset: 88586},
 													expr: &seqExpr{
-														pos: position{line: 2786, col: 9, offset: 88468},
+														pos: position{line: 2786, col: 9, offset: 88597},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2786, col: 9, offset: 88468},
+																pos: position{line: 2786, col: 9, offset: 88597},
 																expr: &seqExpr{
-																	pos: position{line: 2786, col: 10, offset: 88469},
+																	pos: position{line: 2786, col: 10, offset: 88598},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2786, col: 10, offset: 88469},
+																			pos:        position{line: 2786, col: 10, offset: 88598},
 																			val:        "[._%+-]",
 																			chars:      []rune{'.', '_', '%', '+', '-'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2786, col: 18, offset: 88477},
+																			pos: position{line: 2786, col: 18, offset: 88606},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2786, col: 18, offset: 88477},
+																				pos:        position{line: 2786, col: 18, offset: 88606},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -45934,13 +45934,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2786, col: 30, offset: 88489},
+																pos:        position{line: 2786, col: 30, offset: 88618},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2786, col: 34, offset: 88493},
+																pos:        position{line: 2786, col: 34, offset: 88622},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45953,10 +45953,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2877, col: 10, offset: 91032},
+										pos: position{line: 2877, col: 10, offset: 91161},
 										run: (*parser).callonAttributeStructuredValueElement26,
 										expr: &charClassMatcher{
-											pos:        position{line: 2877, col: 10, offset: 91032},
+											pos:        position{line: 2877, col: 10, offset: 91161},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -45964,31 +45964,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2405, col: 11, offset: 77867},
+										pos:  position{line: 2405, col: 11, offset: 77996},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2794, col: 5, offset: 88686},
+										pos: position{line: 2794, col: 5, offset: 88815},
 										run: (*parser).callonAttributeStructuredValueElement29,
 										expr: &choiceExpr{
-											pos: position{line: 2795, col: 9, offset: 88696},
+											pos: position{line: 2795, col: 9, offset: 88825},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2795, col: 10, offset: 88697},
+													pos:        position{line: 2795, col: 10, offset: 88826},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2797, col: 13, offset: 88794},
+													pos: position{line: 2797, col: 13, offset: 88923},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2797, col: 13, offset: 88794},
+															pos: position{line: 2797, col: 13, offset: 88923},
 															run: (*parser).callonAttributeStructuredValueElement33,
 														},
 														&litMatcher{
-															pos:        position{line: 2800, col: 13, offset: 88894},
+															pos:        position{line: 2800, col: 13, offset: 89023},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -45996,20 +45996,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2800, col: 19, offset: 88900},
+													pos:        position{line: 2800, col: 19, offset: 89029},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2803, col: 13, offset: 88938},
+													pos: position{line: 2803, col: 13, offset: 89067},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2803, col: 13, offset: 88938},
+															pos: position{line: 2803, col: 13, offset: 89067},
 															run: (*parser).callonAttributeStructuredValueElement37,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2806, col: 14, offset: 89031},
+															pos:        position{line: 2806, col: 14, offset: 89160},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -46018,18 +46018,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2808, col: 12, offset: 89075},
+													pos: position{line: 2808, col: 12, offset: 89204},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2808, col: 12, offset: 89075},
+															pos:        position{line: 2808, col: 12, offset: 89204},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2808, col: 16, offset: 89079},
+															pos: position{line: 2808, col: 16, offset: 89208},
 															expr: &litMatcher{
-																pos:        position{line: 2808, col: 17, offset: 89080},
+																pos:        position{line: 2808, col: 17, offset: 89209},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -46041,31 +46041,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2407, col: 11, offset: 77940},
+										pos:  position{line: 2407, col: 11, offset: 78069},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2408, col: 11, offset: 77956},
+										pos:  position{line: 2408, col: 11, offset: 78085},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2471, col: 5, offset: 79464},
+										pos: position{line: 2471, col: 5, offset: 79593},
 										run: (*parser).callonAttributeStructuredValueElement45,
 										expr: &seqExpr{
-											pos: position{line: 2471, col: 5, offset: 79464},
+											pos: position{line: 2471, col: 5, offset: 79593},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2471, col: 5, offset: 79464},
+													pos: position{line: 2471, col: 5, offset: 79593},
 													run: (*parser).callonAttributeStructuredValueElement47,
 												},
 												&labeledExpr{
-													pos:   position{line: 2474, col: 5, offset: 79540},
+													pos:   position{line: 2474, col: 5, offset: 79669},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2475, col: 9, offset: 79558},
+														pos: position{line: 2475, col: 9, offset: 79687},
 														run: (*parser).callonAttributeStructuredValueElement49,
 														expr: &charClassMatcher{
-															pos:        position{line: 2475, col: 10, offset: 79559},
+															pos:        position{line: 2475, col: 10, offset: 79688},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -46120,25 +46120,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2886, col: 12, offset: 91203},
+										pos: position{line: 2886, col: 12, offset: 91332},
 										run: (*parser).callonAttributeStructuredValueElement60,
 										expr: &choiceExpr{
-											pos: position{line: 2886, col: 13, offset: 91204},
+											pos: position{line: 2886, col: 13, offset: 91333},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2886, col: 13, offset: 91204},
+													pos:        position{line: 2886, col: 13, offset: 91333},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2886, col: 20, offset: 91211},
+													pos:        position{line: 2886, col: 20, offset: 91340},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2886, col: 29, offset: 91220},
+													pos:        position{line: 2886, col: 29, offset: 91349},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -46147,10 +46147,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2816, col: 12, offset: 89340},
+										pos: position{line: 2816, col: 12, offset: 89469},
 										run: (*parser).callonAttributeStructuredValueElement65,
 										expr: &charClassMatcher{
-											pos:        position{line: 2816, col: 12, offset: 89340},
+											pos:        position{line: 2816, col: 12, offset: 89469},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -46166,49 +46166,49 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2419, col: 1, offset: 78226},
+			pos:  position{line: 2419, col: 1, offset: 78355},
 			expr: &actionExpr{
-				pos: position{line: 2421, col: 5, offset: 78308},
+				pos: position{line: 2421, col: 5, offset: 78437},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2421, col: 5, offset: 78308},
+					pos: position{line: 2421, col: 5, offset: 78437},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2421, col: 5, offset: 78308},
+							pos: position{line: 2421, col: 5, offset: 78437},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2424, col: 5, offset: 78373},
+							pos:   position{line: 2424, col: 5, offset: 78502},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2425, col: 9, offset: 78391},
+								pos: position{line: 2425, col: 9, offset: 78520},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2425, col: 9, offset: 78391},
+										pos:  position{line: 2425, col: 9, offset: 78520},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2426, col: 11, offset: 78412},
+										pos:  position{line: 2426, col: 11, offset: 78541},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2427, col: 11, offset: 78435},
+										pos:  position{line: 2427, col: 11, offset: 78564},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2428, col: 11, offset: 78451},
+										pos:  position{line: 2428, col: 11, offset: 78580},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2429, col: 11, offset: 78480},
+										pos:  position{line: 2429, col: 11, offset: 78609},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2430, col: 11, offset: 78506},
+										pos:  position{line: 2430, col: 11, offset: 78635},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2431, col: 11, offset: 78532},
+										pos:  position{line: 2431, col: 11, offset: 78661},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
@@ -46227,12 +46227,12 @@ var g = &grammar{
 													pos:   position{line: 1257, col: 14, offset: 38885},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2862, col: 7, offset: 90684},
+														pos: position{line: 2862, col: 7, offset: 90813},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2862, col: 7, offset: 90684},
+															pos: position{line: 2862, col: 7, offset: 90813},
 															expr: &charClassMatcher{
-																pos:        position{line: 2862, col: 7, offset: 90684},
+																pos:        position{line: 2862, col: 7, offset: 90813},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -46251,27 +46251,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1262, col: 5, offset: 39012},
+										pos: position{line: 1262, col: 5, offset: 39055},
 										run: (*parser).callonInlineMacro21,
 										expr: &seqExpr{
-											pos: position{line: 1262, col: 5, offset: 39012},
+											pos: position{line: 1262, col: 5, offset: 39055},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1262, col: 5, offset: 39012},
+													pos:        position{line: 1262, col: 5, offset: 39055},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1262, col: 10, offset: 39017},
+													pos:   position{line: 1262, col: 10, offset: 39060},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2862, col: 7, offset: 90684},
+														pos: position{line: 2862, col: 7, offset: 90813},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2862, col: 7, offset: 90684},
+															pos: position{line: 2862, col: 7, offset: 90813},
 															expr: &charClassMatcher{
-																pos:        position{line: 2862, col: 7, offset: 90684},
+																pos:        position{line: 2862, col: 7, offset: 90813},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -46281,7 +46281,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1262, col: 18, offset: 39025},
+													pos:        position{line: 1262, col: 18, offset: 39068},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -46290,40 +46290,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1301, col: 23, offset: 40501},
+										pos: position{line: 1301, col: 23, offset: 40544},
 										run: (*parser).callonInlineMacro29,
 										expr: &seqExpr{
-											pos: position{line: 1301, col: 23, offset: 40501},
+											pos: position{line: 1301, col: 23, offset: 40544},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1301, col: 23, offset: 40501},
+													pos:        position{line: 1301, col: 23, offset: 40544},
 													val:        "(((",
 													ignoreCase: false,
 													want:       "\"(((\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1301, col: 29, offset: 40507},
+													pos:   position{line: 1301, col: 29, offset: 40550},
 													label: "term1",
 													expr: &actionExpr{
-														pos: position{line: 1308, col: 30, offset: 40838},
+														pos: position{line: 1308, col: 30, offset: 40881},
 														run: (*parser).callonInlineMacro33,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1308, col: 30, offset: 40838},
+															pos: position{line: 1308, col: 30, offset: 40881},
 															expr: &choiceExpr{
-																pos: position{line: 1308, col: 31, offset: 40839},
+																pos: position{line: 1308, col: 31, offset: 40882},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2767, col: 13, offset: 88106},
+																		pos:        position{line: 2767, col: 13, offset: 88235},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91032},
+																		pos: position{line: 2877, col: 10, offset: 91161},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91032},
+																			pos:        position{line: 2877, col: 10, offset: 91161},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -46336,23 +46336,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1302, col: 5, offset: 40546},
+													pos:   position{line: 1302, col: 5, offset: 40589},
 													label: "term2",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1302, col: 11, offset: 40552},
+														pos: position{line: 1302, col: 11, offset: 40595},
 														expr: &actionExpr{
-															pos: position{line: 1302, col: 12, offset: 40553},
+															pos: position{line: 1302, col: 12, offset: 40596},
 															run: (*parser).callonInlineMacro41,
 															expr: &seqExpr{
-																pos: position{line: 1302, col: 12, offset: 40553},
+																pos: position{line: 1302, col: 12, offset: 40596},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1302, col: 12, offset: 40553},
+																		pos: position{line: 1302, col: 12, offset: 40596},
 																		expr: &actionExpr{
-																			pos: position{line: 2877, col: 10, offset: 91032},
+																			pos: position{line: 2877, col: 10, offset: 91161},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 10, offset: 91032},
+																				pos:        position{line: 2877, col: 10, offset: 91161},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46361,18 +46361,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1302, col: 19, offset: 40560},
+																		pos:        position{line: 1302, col: 19, offset: 40603},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1302, col: 23, offset: 40564},
+																		pos: position{line: 1302, col: 23, offset: 40607},
 																		expr: &actionExpr{
-																			pos: position{line: 2877, col: 10, offset: 91032},
+																			pos: position{line: 2877, col: 10, offset: 91161},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 10, offset: 91032},
+																				pos:        position{line: 2877, col: 10, offset: 91161},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46381,28 +46381,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1302, col: 30, offset: 40571},
+																		pos:   position{line: 1302, col: 30, offset: 40614},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1308, col: 30, offset: 40838},
+																			pos: position{line: 1308, col: 30, offset: 40881},
 																			run: (*parser).callonInlineMacro51,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1308, col: 30, offset: 40838},
+																				pos: position{line: 1308, col: 30, offset: 40881},
 																				expr: &choiceExpr{
-																					pos: position{line: 1308, col: 31, offset: 40839},
+																					pos: position{line: 1308, col: 31, offset: 40882},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2767, col: 13, offset: 88106},
+																							pos:        position{line: 2767, col: 13, offset: 88235},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2877, col: 10, offset: 91032},
+																							pos: position{line: 2877, col: 10, offset: 91161},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2877, col: 10, offset: 91032},
+																								pos:        position{line: 2877, col: 10, offset: 91161},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -46420,23 +46420,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1303, col: 5, offset: 40638},
+													pos:   position{line: 1303, col: 5, offset: 40681},
 													label: "term3",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1303, col: 11, offset: 40644},
+														pos: position{line: 1303, col: 11, offset: 40687},
 														expr: &actionExpr{
-															pos: position{line: 1303, col: 12, offset: 40645},
+															pos: position{line: 1303, col: 12, offset: 40688},
 															run: (*parser).callonInlineMacro59,
 															expr: &seqExpr{
-																pos: position{line: 1303, col: 12, offset: 40645},
+																pos: position{line: 1303, col: 12, offset: 40688},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1303, col: 12, offset: 40645},
+																		pos: position{line: 1303, col: 12, offset: 40688},
 																		expr: &actionExpr{
-																			pos: position{line: 2877, col: 10, offset: 91032},
+																			pos: position{line: 2877, col: 10, offset: 91161},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 10, offset: 91032},
+																				pos:        position{line: 2877, col: 10, offset: 91161},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46445,18 +46445,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1303, col: 19, offset: 40652},
+																		pos:        position{line: 1303, col: 19, offset: 40695},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1303, col: 23, offset: 40656},
+																		pos: position{line: 1303, col: 23, offset: 40699},
 																		expr: &actionExpr{
-																			pos: position{line: 2877, col: 10, offset: 91032},
+																			pos: position{line: 2877, col: 10, offset: 91161},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 10, offset: 91032},
+																				pos:        position{line: 2877, col: 10, offset: 91161},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46465,28 +46465,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1303, col: 30, offset: 40663},
+																		pos:   position{line: 1303, col: 30, offset: 40706},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1308, col: 30, offset: 40838},
+																			pos: position{line: 1308, col: 30, offset: 40881},
 																			run: (*parser).callonInlineMacro69,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1308, col: 30, offset: 40838},
+																				pos: position{line: 1308, col: 30, offset: 40881},
 																				expr: &choiceExpr{
-																					pos: position{line: 1308, col: 31, offset: 40839},
+																					pos: position{line: 1308, col: 31, offset: 40882},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2767, col: 13, offset: 88106},
+																							pos:        position{line: 2767, col: 13, offset: 88235},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2877, col: 10, offset: 91032},
+																							pos: position{line: 2877, col: 10, offset: 91161},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2877, col: 10, offset: 91032},
+																								pos:        position{line: 2877, col: 10, offset: 91161},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -46504,7 +46504,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1304, col: 5, offset: 40730},
+													pos:        position{line: 1304, col: 5, offset: 40773},
 													val:        ")))",
 													ignoreCase: false,
 													want:       "\")))\"",
@@ -46513,15 +46513,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2434, col: 11, offset: 78611},
+										pos:  position{line: 2434, col: 11, offset: 78740},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2435, col: 11, offset: 78631},
+										pos:  position{line: 2435, col: 11, offset: 78760},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2436, col: 11, offset: 78654},
+										pos:  position{line: 2436, col: 11, offset: 78783},
 										name: "InlineMenu",
 									},
 								},
@@ -46533,80 +46533,80 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2440, col: 1, offset: 78711},
+			pos:  position{line: 2440, col: 1, offset: 78840},
 			expr: &actionExpr{
-				pos: position{line: 2442, col: 5, offset: 78799},
+				pos: position{line: 2442, col: 5, offset: 78928},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2442, col: 5, offset: 78799},
+					pos: position{line: 2442, col: 5, offset: 78928},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2442, col: 5, offset: 78799},
+							pos: position{line: 2442, col: 5, offset: 78928},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2445, col: 5, offset: 78876},
+							pos:   position{line: 2445, col: 5, offset: 79005},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2446, col: 9, offset: 78894},
+								pos: position{line: 2446, col: 9, offset: 79023},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1383, col: 26, offset: 44176},
+										pos: position{line: 1383, col: 26, offset: 44219},
 										run: (*parser).callonInlinePassthrough6,
 										expr: &seqExpr{
-											pos: position{line: 1383, col: 26, offset: 44176},
+											pos: position{line: 1383, col: 26, offset: 44219},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1381, col: 32, offset: 44144},
+													pos:        position{line: 1381, col: 32, offset: 44187},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1383, col: 54, offset: 44204},
+													pos:   position{line: 1383, col: 54, offset: 44247},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1387, col: 33, offset: 44417},
+														pos: position{line: 1387, col: 33, offset: 44460},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1387, col: 34, offset: 44418},
+																pos: position{line: 1387, col: 34, offset: 44461},
 																run: (*parser).callonInlinePassthrough11,
 																expr: &zeroOrMoreExpr{
-																	pos: position{line: 1387, col: 34, offset: 44418},
+																	pos: position{line: 1387, col: 34, offset: 44461},
 																	expr: &seqExpr{
-																		pos: position{line: 1387, col: 35, offset: 44419},
+																		pos: position{line: 1387, col: 35, offset: 44462},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1387, col: 35, offset: 44419},
+																				pos: position{line: 1387, col: 35, offset: 44462},
 																				expr: &litMatcher{
-																					pos:        position{line: 1381, col: 32, offset: 44144},
+																					pos:        position{line: 1381, col: 32, offset: 44187},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1387, col: 64, offset: 44448,
+																				line: 1387, col: 64, offset: 44491,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1389, col: 11, offset: 44621},
+																pos: position{line: 1389, col: 11, offset: 44664},
 																run: (*parser).callonInlinePassthrough17,
 																expr: &zeroOrOneExpr{
-																	pos: position{line: 1389, col: 11, offset: 44621},
+																	pos: position{line: 1389, col: 11, offset: 44664},
 																	expr: &seqExpr{
-																		pos: position{line: 1389, col: 12, offset: 44622},
+																		pos: position{line: 1389, col: 12, offset: 44665},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1389, col: 12, offset: 44622},
+																				pos: position{line: 1389, col: 12, offset: 44665},
 																				expr: &actionExpr{
-																					pos: position{line: 2877, col: 10, offset: 91032},
+																					pos: position{line: 2877, col: 10, offset: 91161},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2877, col: 10, offset: 91032},
+																						pos:        position{line: 2877, col: 10, offset: 91161},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -46615,27 +46615,27 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1389, col: 19, offset: 44629},
+																				pos: position{line: 1389, col: 19, offset: 44672},
 																				expr: &actionExpr{
-																					pos: position{line: 2886, col: 12, offset: 91203},
+																					pos: position{line: 2886, col: 12, offset: 91332},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2886, col: 13, offset: 91204},
+																						pos: position{line: 2886, col: 13, offset: 91333},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 13, offset: 91204},
+																								pos:        position{line: 2886, col: 13, offset: 91333},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 20, offset: 91211},
+																								pos:        position{line: 2886, col: 20, offset: 91340},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 29, offset: 91220},
+																								pos:        position{line: 2886, col: 29, offset: 91349},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -46645,16 +46645,16 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1389, col: 28, offset: 44638},
+																				pos: position{line: 1389, col: 28, offset: 44681},
 																				expr: &litMatcher{
-																					pos:        position{line: 1381, col: 32, offset: 44144},
+																					pos:        position{line: 1381, col: 32, offset: 44187},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1389, col: 57, offset: 44667,
+																				line: 1389, col: 57, offset: 44710,
 																			},
 																		},
 																	},
@@ -46664,15 +46664,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1381, col: 32, offset: 44144},
+													pos:        position{line: 1381, col: 32, offset: 44187},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&notExpr{
-													pos: position{line: 1383, col: 121, offset: 44271},
+													pos: position{line: 1383, col: 121, offset: 44314},
 													expr: &charClassMatcher{
-														pos:        position{line: 2767, col: 13, offset: 88106},
+														pos:        position{line: 2767, col: 13, offset: 88235},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -46683,45 +46683,45 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1371, col: 26, offset: 43459},
+										pos: position{line: 1371, col: 26, offset: 43502},
 										run: (*parser).callonInlinePassthrough35,
 										expr: &seqExpr{
-											pos: position{line: 1371, col: 26, offset: 43459},
+											pos: position{line: 1371, col: 26, offset: 43502},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1369, col: 32, offset: 43429},
+													pos:        position{line: 1369, col: 32, offset: 43472},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1371, col: 54, offset: 43487},
+													pos:   position{line: 1371, col: 54, offset: 43530},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1375, col: 33, offset: 43700},
+														pos: position{line: 1375, col: 33, offset: 43743},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1375, col: 34, offset: 43701},
+																pos: position{line: 1375, col: 34, offset: 43744},
 																run: (*parser).callonInlinePassthrough40,
 																expr: &seqExpr{
-																	pos: position{line: 1375, col: 34, offset: 43701},
+																	pos: position{line: 1375, col: 34, offset: 43744},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1375, col: 35, offset: 43702},
+																			pos: position{line: 1375, col: 35, offset: 43745},
 																			expr: &litMatcher{
-																				pos:        position{line: 1369, col: 32, offset: 43429},
+																				pos:        position{line: 1369, col: 32, offset: 43472},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1375, col: 64, offset: 43731},
+																			pos: position{line: 1375, col: 64, offset: 43774},
 																			expr: &actionExpr{
-																				pos: position{line: 2877, col: 10, offset: 91032},
+																				pos: position{line: 2877, col: 10, offset: 91161},
 																				run: (*parser).callonInlinePassthrough45,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 10, offset: 91032},
+																					pos:        position{line: 2877, col: 10, offset: 91161},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -46730,27 +46730,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1375, col: 71, offset: 43738},
+																			pos: position{line: 1375, col: 71, offset: 43781},
 																			expr: &actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91203},
+																				pos: position{line: 2886, col: 12, offset: 91332},
 																				run: (*parser).callonInlinePassthrough48,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91204},
+																					pos: position{line: 2886, col: 13, offset: 91333},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91204},
+																							pos:        position{line: 2886, col: 13, offset: 91333},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91211},
+																							pos:        position{line: 2886, col: 20, offset: 91340},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91220},
+																							pos:        position{line: 2886, col: 29, offset: 91349},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -46760,25 +46760,25 @@ var g = &grammar{
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1375, col: 80, offset: 43747,
+																			line: 1375, col: 80, offset: 43790,
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1375, col: 83, offset: 43750},
+																			pos: position{line: 1375, col: 83, offset: 43793},
 																			expr: &seqExpr{
-																				pos: position{line: 1375, col: 84, offset: 43751},
+																				pos: position{line: 1375, col: 84, offset: 43794},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1375, col: 84, offset: 43751},
+																						pos: position{line: 1375, col: 84, offset: 43794},
 																						expr: &seqExpr{
-																							pos: position{line: 1375, col: 86, offset: 43753},
+																							pos: position{line: 1375, col: 86, offset: 43796},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2881, col: 11, offset: 91093},
+																									pos: position{line: 2881, col: 11, offset: 91222},
 																									run: (*parser).callonInlinePassthrough58,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2881, col: 11, offset: 91093},
+																										pos: position{line: 2881, col: 11, offset: 91222},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2881, col: 11, offset: 91093},
+																											pos:        position{line: 2881, col: 11, offset: 91222},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -46787,7 +46787,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1369, col: 32, offset: 43429},
+																									pos:        position{line: 1369, col: 32, offset: 43472},
 																									val:        "+",
 																									ignoreCase: false,
 																									want:       "\"+\"",
@@ -46796,36 +46796,36 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1375, col: 122, offset: 43789},
+																						pos: position{line: 1375, col: 122, offset: 43832},
 																						expr: &litMatcher{
-																							pos:        position{line: 1369, col: 32, offset: 43429},
+																							pos:        position{line: 1369, col: 32, offset: 43472},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1375, col: 151, offset: 43818},
+																						pos: position{line: 1375, col: 151, offset: 43861},
 																						expr: &actionExpr{
-																							pos: position{line: 2886, col: 12, offset: 91203},
+																							pos: position{line: 2886, col: 12, offset: 91332},
 																							run: (*parser).callonInlinePassthrough65,
 																							expr: &choiceExpr{
-																								pos: position{line: 2886, col: 13, offset: 91204},
+																								pos: position{line: 2886, col: 13, offset: 91333},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 13, offset: 91204},
+																										pos:        position{line: 2886, col: 13, offset: 91333},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 20, offset: 91211},
+																										pos:        position{line: 2886, col: 20, offset: 91340},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 29, offset: 91220},
+																										pos:        position{line: 2886, col: 29, offset: 91349},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -46835,7 +46835,7 @@ var g = &grammar{
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1375, col: 160, offset: 43827,
+																						line: 1375, col: 160, offset: 43870,
 																					},
 																				},
 																			},
@@ -46844,18 +46844,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1377, col: 11, offset: 43977},
+																pos: position{line: 1377, col: 11, offset: 44020},
 																run: (*parser).callonInlinePassthrough71,
 																expr: &seqExpr{
-																	pos: position{line: 1377, col: 12, offset: 43978},
+																	pos: position{line: 1377, col: 12, offset: 44021},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1377, col: 12, offset: 43978},
+																			pos: position{line: 1377, col: 12, offset: 44021},
 																			expr: &actionExpr{
-																				pos: position{line: 2877, col: 10, offset: 91032},
+																				pos: position{line: 2877, col: 10, offset: 91161},
 																				run: (*parser).callonInlinePassthrough74,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 10, offset: 91032},
+																					pos:        position{line: 2877, col: 10, offset: 91161},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -46864,27 +46864,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1377, col: 19, offset: 43985},
+																			pos: position{line: 1377, col: 19, offset: 44028},
 																			expr: &actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91203},
+																				pos: position{line: 2886, col: 12, offset: 91332},
 																				run: (*parser).callonInlinePassthrough77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91204},
+																					pos: position{line: 2886, col: 13, offset: 91333},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91204},
+																							pos:        position{line: 2886, col: 13, offset: 91333},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91211},
+																							pos:        position{line: 2886, col: 20, offset: 91340},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91220},
+																							pos:        position{line: 2886, col: 29, offset: 91349},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -46894,16 +46894,16 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1377, col: 28, offset: 43994},
+																			pos: position{line: 1377, col: 28, offset: 44037},
 																			expr: &litMatcher{
-																				pos:        position{line: 1369, col: 32, offset: 43429},
+																				pos:        position{line: 1369, col: 32, offset: 43472},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1377, col: 57, offset: 44023,
+																			line: 1377, col: 57, offset: 44066,
 																		},
 																	},
 																},
@@ -46912,15 +46912,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1369, col: 32, offset: 43429},
+													pos:        position{line: 1369, col: 32, offset: 43472},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&notExpr{
-													pos: position{line: 1371, col: 121, offset: 43554},
+													pos: position{line: 1371, col: 121, offset: 43597},
 													expr: &charClassMatcher{
-														pos:        position{line: 2767, col: 13, offset: 88106},
+														pos:        position{line: 2767, col: 13, offset: 88235},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -46931,7 +46931,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2446, col: 57, offset: 78942},
+										pos:  position{line: 2446, col: 57, offset: 79071},
 										name: "PassthroughMacro",
 									},
 								},
@@ -46943,16 +46943,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2451, col: 1, offset: 79002},
+			pos:  position{line: 2451, col: 1, offset: 79131},
 			expr: &seqExpr{
-				pos: position{line: 2453, col: 5, offset: 79078},
+				pos: position{line: 2453, col: 5, offset: 79207},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2453, col: 5, offset: 79078},
+						pos: position{line: 2453, col: 5, offset: 79207},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2456, col: 5, offset: 79143},
+						pos:  position{line: 2456, col: 5, offset: 79272},
 						name: "QuotedText",
 					},
 				},
@@ -46960,22 +46960,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2458, col: 1, offset: 79156},
+			pos:  position{line: 2458, col: 1, offset: 79285},
 			expr: &actionExpr{
-				pos: position{line: 2460, col: 5, offset: 79238},
+				pos: position{line: 2460, col: 5, offset: 79367},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2460, col: 5, offset: 79238},
+					pos: position{line: 2460, col: 5, offset: 79367},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2460, col: 5, offset: 79238},
+							pos: position{line: 2460, col: 5, offset: 79367},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2463, col: 5, offset: 79309},
+							pos:   position{line: 2463, col: 5, offset: 79438},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2464, col: 9, offset: 79327},
+								pos:  position{line: 2464, col: 9, offset: 79456},
 								name: "Symbol",
 							},
 						},
@@ -46985,93 +46985,93 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2522, col: 1, offset: 81157},
+			pos:  position{line: 2522, col: 1, offset: 81286},
 			expr: &choiceExpr{
-				pos: position{line: 2524, col: 5, offset: 81187},
+				pos: position{line: 2524, col: 5, offset: 81316},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2524, col: 5, offset: 81187},
+						pos: position{line: 2524, col: 5, offset: 81316},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2524, col: 5, offset: 81187},
+							pos: position{line: 2524, col: 5, offset: 81316},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2524, col: 5, offset: 81187},
+									pos:        position{line: 2524, col: 5, offset: 81316},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2524, col: 10, offset: 81192},
+									pos: position{line: 2524, col: 10, offset: 81321},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2524, col: 10, offset: 81192},
+											pos:  position{line: 2524, col: 10, offset: 81321},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2553, col: 14, offset: 82326},
+											pos: position{line: 2553, col: 14, offset: 82455},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2553, col: 14, offset: 82326},
+												pos:        position{line: 2553, col: 14, offset: 82455},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2557, col: 14, offset: 82392},
+											pos: position{line: 2557, col: 14, offset: 82521},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2557, col: 14, offset: 82392},
+												pos:        position{line: 2557, col: 14, offset: 82521},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2561, col: 15, offset: 82461},
+											pos: position{line: 2561, col: 15, offset: 82590},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2561, col: 15, offset: 82461},
+												pos:        position{line: 2561, col: 15, offset: 82590},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2565, col: 13, offset: 82526},
+											pos: position{line: 2565, col: 13, offset: 82655},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2565, col: 13, offset: 82526},
+												pos:        position{line: 2565, col: 13, offset: 82655},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2572, col: 5, offset: 82664},
+											pos: position{line: 2572, col: 5, offset: 82793},
 											run: (*parser).callonSymbol15,
 											expr: &seqExpr{
-												pos: position{line: 2572, col: 5, offset: 82664},
+												pos: position{line: 2572, col: 5, offset: 82793},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2572, col: 5, offset: 82664},
+														pos:        position{line: 2572, col: 5, offset: 82793},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2573, col: 5, offset: 82674},
+														pos: position{line: 2573, col: 5, offset: 82803},
 														run: (*parser).callonSymbol18,
 													},
 													&choiceExpr{
-														pos: position{line: 2577, col: 6, offset: 82761},
+														pos: position{line: 2577, col: 6, offset: 82890},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2877, col: 10, offset: 91032},
+																pos: position{line: 2877, col: 10, offset: 91161},
 																run: (*parser).callonSymbol20,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2877, col: 10, offset: 91032},
+																	pos:        position{line: 2877, col: 10, offset: 91161},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -47079,30 +47079,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2577, col: 14, offset: 82769},
+																pos: position{line: 2577, col: 14, offset: 82898},
 																expr: &choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91430},
+																	pos: position{line: 2899, col: 8, offset: 91559},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91203},
+																			pos: position{line: 2886, col: 12, offset: 91332},
 																			run: (*parser).callonSymbol24,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91204},
+																				pos: position{line: 2886, col: 13, offset: 91333},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91204},
+																						pos:        position{line: 2886, col: 13, offset: 91333},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91211},
+																						pos:        position{line: 2886, col: 20, offset: 91340},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91220},
+																						pos:        position{line: 2886, col: 29, offset: 91349},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -47111,9 +47111,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91380},
+																			pos: position{line: 2896, col: 8, offset: 91509},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91381,
+																				line: 2896, col: 9, offset: 91510,
 																			},
 																		},
 																	},
@@ -47125,53 +47125,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2582, col: 5, offset: 82889},
+											pos: position{line: 2582, col: 5, offset: 83018},
 											run: (*parser).callonSymbol31,
 											expr: &seqExpr{
-												pos: position{line: 2582, col: 5, offset: 82889},
+												pos: position{line: 2582, col: 5, offset: 83018},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2582, col: 5, offset: 82889},
+														pos:        position{line: 2582, col: 5, offset: 83018},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2583, col: 5, offset: 82899},
+														pos: position{line: 2583, col: 5, offset: 83028},
 														run: (*parser).callonSymbol34,
 													},
 													&andExpr{
-														pos: position{line: 2587, col: 5, offset: 82988},
+														pos: position{line: 2587, col: 5, offset: 83117},
 														expr: &choiceExpr{
-															pos: position{line: 2587, col: 7, offset: 82990},
+															pos: position{line: 2587, col: 7, offset: 83119},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2767, col: 13, offset: 88106},
+																	pos:        position{line: 2767, col: 13, offset: 88235},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2886, col: 12, offset: 91203},
+																	pos: position{line: 2886, col: 12, offset: 91332},
 																	run: (*parser).callonSymbol38,
 																	expr: &choiceExpr{
-																		pos: position{line: 2886, col: 13, offset: 91204},
+																		pos: position{line: 2886, col: 13, offset: 91333},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2886, col: 13, offset: 91204},
+																				pos:        position{line: 2886, col: 13, offset: 91333},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2886, col: 20, offset: 91211},
+																				pos:        position{line: 2886, col: 20, offset: 91340},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2886, col: 29, offset: 91220},
+																				pos:        position{line: 2886, col: 29, offset: 91349},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -47180,9 +47180,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2896, col: 8, offset: 91380},
+																	pos: position{line: 2896, col: 8, offset: 91509},
 																	expr: &anyMatcher{
-																		line: 2896, col: 9, offset: 91381,
+																		line: 2896, col: 9, offset: 91510,
 																	},
 																},
 															},
@@ -47197,63 +47197,63 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2527, col: 7, offset: 81356},
+						pos: position{line: 2527, col: 7, offset: 81485},
 						run: (*parser).callonSymbol45,
 						expr: &seqExpr{
-							pos: position{line: 2527, col: 7, offset: 81356},
+							pos: position{line: 2527, col: 7, offset: 81485},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2527, col: 7, offset: 81356},
+									pos:        position{line: 2527, col: 7, offset: 81485},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2527, col: 11, offset: 81360},
+									pos:   position{line: 2527, col: 11, offset: 81489},
 									label: "elements",
 									expr: &choiceExpr{
-										pos: position{line: 2527, col: 21, offset: 81370},
+										pos: position{line: 2527, col: 21, offset: 81499},
 										alternatives: []interface{}{
 											&seqExpr{
-												pos: position{line: 2527, col: 21, offset: 81370},
+												pos: position{line: 2527, col: 21, offset: 81499},
 												exprs: []interface{}{
 													&charClassMatcher{
-														pos:        position{line: 2527, col: 21, offset: 81370},
+														pos:        position{line: 2527, col: 21, offset: 81499},
 														val:        "[-=]",
 														chars:      []rune{'-', '='},
 														ignoreCase: false,
 														inverted:   false,
 													},
 													&andExpr{
-														pos: position{line: 2527, col: 26, offset: 81375},
+														pos: position{line: 2527, col: 26, offset: 81504},
 														expr: &litMatcher{
-															pos:        position{line: 2527, col: 27, offset: 81376},
+															pos:        position{line: 2527, col: 27, offset: 81505},
 															val:        ">",
 															ignoreCase: false,
 															want:       "\">\"",
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2527, col: 32, offset: 81381},
+														pos: position{line: 2527, col: 32, offset: 81510},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2471, col: 5, offset: 79464},
+																pos: position{line: 2471, col: 5, offset: 79593},
 																run: (*parser).callonSymbol55,
 																expr: &seqExpr{
-																	pos: position{line: 2471, col: 5, offset: 79464},
+																	pos: position{line: 2471, col: 5, offset: 79593},
 																	exprs: []interface{}{
 																		&andCodeExpr{
-																			pos: position{line: 2471, col: 5, offset: 79464},
+																			pos: position{line: 2471, col: 5, offset: 79593},
 																			run: (*parser).callonSymbol57,
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 2474, col: 5, offset: 79540},
+																			pos:   position{line: 2474, col: 5, offset: 79669},
 																			label: "element",
 																			expr: &actionExpr{
-																				pos: position{line: 2475, col: 9, offset: 79558},
+																				pos: position{line: 2475, col: 9, offset: 79687},
 																				run: (*parser).callonSymbol59,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2475, col: 10, offset: 79559},
+																					pos:        position{line: 2475, col: 10, offset: 79688},
 																					val:        "[<>&]",
 																					chars:      []rune{'<', '>', '&'},
 																					ignoreCase: false,
@@ -47265,28 +47265,28 @@ var g = &grammar{
 																},
 															},
 															&anyMatcher{
-																line: 2527, col: 51, offset: 81400,
+																line: 2527, col: 51, offset: 81529,
 															},
 														},
 													},
 												},
 											},
 											&seqExpr{
-												pos: position{line: 2527, col: 56, offset: 81405},
+												pos: position{line: 2527, col: 56, offset: 81534},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2527, col: 56, offset: 81405},
+														pos: position{line: 2527, col: 56, offset: 81534},
 														expr: &choiceExpr{
-															pos: position{line: 2527, col: 58, offset: 81407},
+															pos: position{line: 2527, col: 58, offset: 81536},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2527, col: 58, offset: 81407},
+																	pos:        position{line: 2527, col: 58, offset: 81536},
 																	val:        "<-",
 																	ignoreCase: false,
 																	want:       "\"<-\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2527, col: 65, offset: 81414},
+																	pos:        position{line: 2527, col: 65, offset: 81543},
 																	val:        "<=",
 																	ignoreCase: false,
 																	want:       "\"<=\"",
@@ -47295,26 +47295,26 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2527, col: 72, offset: 81421},
+														pos: position{line: 2527, col: 72, offset: 81550},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2471, col: 5, offset: 79464},
+																pos: position{line: 2471, col: 5, offset: 79593},
 																run: (*parser).callonSymbol68,
 																expr: &seqExpr{
-																	pos: position{line: 2471, col: 5, offset: 79464},
+																	pos: position{line: 2471, col: 5, offset: 79593},
 																	exprs: []interface{}{
 																		&andCodeExpr{
-																			pos: position{line: 2471, col: 5, offset: 79464},
+																			pos: position{line: 2471, col: 5, offset: 79593},
 																			run: (*parser).callonSymbol70,
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 2474, col: 5, offset: 79540},
+																			pos:   position{line: 2474, col: 5, offset: 79669},
 																			label: "element",
 																			expr: &actionExpr{
-																				pos: position{line: 2475, col: 9, offset: 79558},
+																				pos: position{line: 2475, col: 9, offset: 79687},
 																				run: (*parser).callonSymbol72,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2475, col: 10, offset: 79559},
+																					pos:        position{line: 2475, col: 10, offset: 79688},
 																					val:        "[<>&]",
 																					chars:      []rune{'<', '>', '&'},
 																					ignoreCase: false,
@@ -47326,12 +47326,12 @@ var g = &grammar{
 																},
 															},
 															&anyMatcher{
-																line: 2527, col: 91, offset: 81440,
+																line: 2527, col: 91, offset: 81569,
 															},
 														},
 													},
 													&anyMatcher{
-														line: 2527, col: 94, offset: 81443,
+														line: 2527, col: 94, offset: 81572,
 													},
 												},
 											},
@@ -47342,73 +47342,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2528, col: 7, offset: 81477},
+						pos:  position{line: 2528, col: 7, offset: 81606},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2553, col: 14, offset: 82326},
+						pos: position{line: 2553, col: 14, offset: 82455},
 						run: (*parser).callonSymbol77,
 						expr: &litMatcher{
-							pos:        position{line: 2553, col: 14, offset: 82326},
+							pos:        position{line: 2553, col: 14, offset: 82455},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2557, col: 14, offset: 82392},
+						pos: position{line: 2557, col: 14, offset: 82521},
 						run: (*parser).callonSymbol79,
 						expr: &litMatcher{
-							pos:        position{line: 2557, col: 14, offset: 82392},
+							pos:        position{line: 2557, col: 14, offset: 82521},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2561, col: 15, offset: 82461},
+						pos: position{line: 2561, col: 15, offset: 82590},
 						run: (*parser).callonSymbol81,
 						expr: &litMatcher{
-							pos:        position{line: 2561, col: 15, offset: 82461},
+							pos:        position{line: 2561, col: 15, offset: 82590},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2565, col: 13, offset: 82526},
+						pos: position{line: 2565, col: 13, offset: 82655},
 						run: (*parser).callonSymbol83,
 						expr: &litMatcher{
-							pos:        position{line: 2565, col: 13, offset: 82526},
+							pos:        position{line: 2565, col: 13, offset: 82655},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2572, col: 5, offset: 82664},
+						pos: position{line: 2572, col: 5, offset: 82793},
 						run: (*parser).callonSymbol85,
 						expr: &seqExpr{
-							pos: position{line: 2572, col: 5, offset: 82664},
+							pos: position{line: 2572, col: 5, offset: 82793},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2572, col: 5, offset: 82664},
+									pos:        position{line: 2572, col: 5, offset: 82793},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2573, col: 5, offset: 82674},
+									pos: position{line: 2573, col: 5, offset: 82803},
 									run: (*parser).callonSymbol88,
 								},
 								&choiceExpr{
-									pos: position{line: 2577, col: 6, offset: 82761},
+									pos: position{line: 2577, col: 6, offset: 82890},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2877, col: 10, offset: 91032},
+											pos: position{line: 2877, col: 10, offset: 91161},
 											run: (*parser).callonSymbol90,
 											expr: &charClassMatcher{
-												pos:        position{line: 2877, col: 10, offset: 91032},
+												pos:        position{line: 2877, col: 10, offset: 91161},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -47416,30 +47416,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2577, col: 14, offset: 82769},
+											pos: position{line: 2577, col: 14, offset: 82898},
 											expr: &choiceExpr{
-												pos: position{line: 2899, col: 8, offset: 91430},
+												pos: position{line: 2899, col: 8, offset: 91559},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2886, col: 12, offset: 91203},
+														pos: position{line: 2886, col: 12, offset: 91332},
 														run: (*parser).callonSymbol94,
 														expr: &choiceExpr{
-															pos: position{line: 2886, col: 13, offset: 91204},
+															pos: position{line: 2886, col: 13, offset: 91333},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2886, col: 13, offset: 91204},
+																	pos:        position{line: 2886, col: 13, offset: 91333},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2886, col: 20, offset: 91211},
+																	pos:        position{line: 2886, col: 20, offset: 91340},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2886, col: 29, offset: 91220},
+																	pos:        position{line: 2886, col: 29, offset: 91349},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -47448,9 +47448,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2896, col: 8, offset: 91380},
+														pos: position{line: 2896, col: 8, offset: 91509},
 														expr: &anyMatcher{
-															line: 2896, col: 9, offset: 91381,
+															line: 2896, col: 9, offset: 91510,
 														},
 													},
 												},
@@ -47462,53 +47462,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2582, col: 5, offset: 82889},
+						pos: position{line: 2582, col: 5, offset: 83018},
 						run: (*parser).callonSymbol101,
 						expr: &seqExpr{
-							pos: position{line: 2582, col: 5, offset: 82889},
+							pos: position{line: 2582, col: 5, offset: 83018},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2582, col: 5, offset: 82889},
+									pos:        position{line: 2582, col: 5, offset: 83018},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2583, col: 5, offset: 82899},
+									pos: position{line: 2583, col: 5, offset: 83028},
 									run: (*parser).callonSymbol104,
 								},
 								&andExpr{
-									pos: position{line: 2587, col: 5, offset: 82988},
+									pos: position{line: 2587, col: 5, offset: 83117},
 									expr: &choiceExpr{
-										pos: position{line: 2587, col: 7, offset: 82990},
+										pos: position{line: 2587, col: 7, offset: 83119},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2767, col: 13, offset: 88106},
+												pos:        position{line: 2767, col: 13, offset: 88235},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2886, col: 12, offset: 91203},
+												pos: position{line: 2886, col: 12, offset: 91332},
 												run: (*parser).callonSymbol108,
 												expr: &choiceExpr{
-													pos: position{line: 2886, col: 13, offset: 91204},
+													pos: position{line: 2886, col: 13, offset: 91333},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2886, col: 13, offset: 91204},
+															pos:        position{line: 2886, col: 13, offset: 91333},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2886, col: 20, offset: 91211},
+															pos:        position{line: 2886, col: 20, offset: 91340},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2886, col: 29, offset: 91220},
+															pos:        position{line: 2886, col: 29, offset: 91349},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -47517,9 +47517,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2896, col: 8, offset: 91380},
+												pos: position{line: 2896, col: 8, offset: 91509},
 												expr: &anyMatcher{
-													line: 2896, col: 9, offset: 91381,
+													line: 2896, col: 9, offset: 91510,
 												},
 											},
 										},
@@ -47529,40 +47529,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2593, col: 21, offset: 83078},
+						pos: position{line: 2593, col: 21, offset: 83207},
 						run: (*parser).callonSymbol115,
 						expr: &litMatcher{
-							pos:        position{line: 2593, col: 21, offset: 83078},
+							pos:        position{line: 2593, col: 21, offset: 83207},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2597, col: 20, offset: 83148},
+						pos: position{line: 2597, col: 20, offset: 83277},
 						run: (*parser).callonSymbol117,
 						expr: &litMatcher{
-							pos:        position{line: 2597, col: 20, offset: 83148},
+							pos:        position{line: 2597, col: 20, offset: 83277},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2601, col: 21, offset: 83219},
+						pos: position{line: 2601, col: 21, offset: 83348},
 						run: (*parser).callonSymbol119,
 						expr: &litMatcher{
-							pos:        position{line: 2601, col: 21, offset: 83219},
+							pos:        position{line: 2601, col: 21, offset: 83348},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2605, col: 20, offset: 83289},
+						pos: position{line: 2605, col: 20, offset: 83418},
 						run: (*parser).callonSymbol121,
 						expr: &litMatcher{
-							pos:        position{line: 2605, col: 20, offset: 83289},
+							pos:        position{line: 2605, col: 20, offset: 83418},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -47573,43 +47573,43 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2539, col: 1, offset: 81667},
+			pos:  position{line: 2539, col: 1, offset: 81796},
 			expr: &choiceExpr{
-				pos: position{line: 2540, col: 5, offset: 81689},
+				pos: position{line: 2540, col: 5, offset: 81818},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2540, col: 5, offset: 81689},
+						pos: position{line: 2540, col: 5, offset: 81818},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2540, col: 5, offset: 81689},
+							pos: position{line: 2540, col: 5, offset: 81818},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2540, col: 5, offset: 81689},
+									pos:        position{line: 2540, col: 5, offset: 81818},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2540, col: 11, offset: 81695},
+									pos: position{line: 2540, col: 11, offset: 81824},
 									expr: &seqExpr{
-										pos: position{line: 2090, col: 5, offset: 67601},
+										pos: position{line: 2090, col: 5, offset: 67730},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2090, col: 5, offset: 67601},
+												pos:        position{line: 2090, col: 5, offset: 67730},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2091, col: 5, offset: 67610},
+												pos: position{line: 2091, col: 5, offset: 67739},
 												run: (*parser).callonQuotationMark8,
 											},
 											&andExpr{
-												pos: position{line: 2095, col: 5, offset: 67733},
+												pos: position{line: 2095, col: 5, offset: 67862},
 												expr: &notExpr{
-													pos: position{line: 2095, col: 7, offset: 67735},
+													pos: position{line: 2095, col: 7, offset: 67864},
 													expr: &litMatcher{
-														pos:        position{line: 2095, col: 8, offset: 67736},
+														pos:        position{line: 2095, col: 8, offset: 67865},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -47623,21 +47623,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2543, col: 7, offset: 81848},
+						pos: position{line: 2543, col: 7, offset: 81977},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2543, col: 7, offset: 81848},
+							pos: position{line: 2543, col: 7, offset: 81977},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2543, col: 7, offset: 81848},
+									pos:        position{line: 2543, col: 7, offset: 81977},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2543, col: 13, offset: 81854},
+									pos: position{line: 2543, col: 13, offset: 81983},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2543, col: 14, offset: 81855},
+										pos:  position{line: 2543, col: 14, offset: 81984},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -47645,38 +47645,38 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2546, col: 7, offset: 82005},
+						pos: position{line: 2546, col: 7, offset: 82134},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2546, col: 7, offset: 82005},
+							pos: position{line: 2546, col: 7, offset: 82134},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2546, col: 7, offset: 82005},
+									pos:        position{line: 2546, col: 7, offset: 82134},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2546, col: 12, offset: 82010},
+									pos: position{line: 2546, col: 12, offset: 82139},
 									expr: &seqExpr{
-										pos: position{line: 2090, col: 5, offset: 67601},
+										pos: position{line: 2090, col: 5, offset: 67730},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2090, col: 5, offset: 67601},
+												pos:        position{line: 2090, col: 5, offset: 67730},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2091, col: 5, offset: 67610},
+												pos: position{line: 2091, col: 5, offset: 67739},
 												run: (*parser).callonQuotationMark23,
 											},
 											&andExpr{
-												pos: position{line: 2095, col: 5, offset: 67733},
+												pos: position{line: 2095, col: 5, offset: 67862},
 												expr: &notExpr{
-													pos: position{line: 2095, col: 7, offset: 67735},
+													pos: position{line: 2095, col: 7, offset: 67864},
 													expr: &litMatcher{
-														pos:        position{line: 2095, col: 8, offset: 67736},
+														pos:        position{line: 2095, col: 8, offset: 67865},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -47690,21 +47690,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2549, col: 7, offset: 82163},
+						pos: position{line: 2549, col: 7, offset: 82292},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2549, col: 7, offset: 82163},
+							pos: position{line: 2549, col: 7, offset: 82292},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2549, col: 7, offset: 82163},
+									pos:        position{line: 2549, col: 7, offset: 82292},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2549, col: 12, offset: 82168},
+									pos: position{line: 2549, col: 12, offset: 82297},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2549, col: 13, offset: 82169},
+										pos:  position{line: 2549, col: 13, offset: 82298},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -47716,63 +47716,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2682, col: 1, offset: 85191},
+			pos:  position{line: 2682, col: 1, offset: 85320},
 			expr: &actionExpr{
-				pos: position{line: 2682, col: 26, offset: 85216},
+				pos: position{line: 2682, col: 26, offset: 85345},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2682, col: 26, offset: 85216},
+					pos: position{line: 2682, col: 26, offset: 85345},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2682, col: 26, offset: 85216},
+							pos:   position{line: 2682, col: 26, offset: 85345},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2682, col: 31, offset: 85221},
+								pos: position{line: 2682, col: 31, offset: 85350},
 								expr: &actionExpr{
-									pos: position{line: 2687, col: 5, offset: 85284},
+									pos: position{line: 2687, col: 5, offset: 85413},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2687, col: 5, offset: 85284},
+										pos: position{line: 2687, col: 5, offset: 85413},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2894, col: 11, offset: 91366},
+												pos: position{line: 2894, col: 11, offset: 91495},
 												expr: &anyMatcher{
-													line: 2894, col: 13, offset: 91368,
+													line: 2894, col: 13, offset: 91497,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2690, col: 5, offset: 85410},
+												pos:   position{line: 2690, col: 5, offset: 85539},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2690, col: 16, offset: 85421},
+													pos: position{line: 2690, col: 16, offset: 85550},
 													expr: &actionExpr{
-														pos: position{line: 2690, col: 17, offset: 85422},
+														pos: position{line: 2690, col: 17, offset: 85551},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2690, col: 17, offset: 85422},
+															pos: position{line: 2690, col: 17, offset: 85551},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2690, col: 17, offset: 85422},
+																	pos:   position{line: 2690, col: 17, offset: 85551},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2869, col: 12, offset: 90859},
+																		pos: position{line: 2869, col: 12, offset: 90988},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2869, col: 13, offset: 90860},
+																			pos: position{line: 2869, col: 13, offset: 90989},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2869, col: 13, offset: 90860},
+																					pos: position{line: 2869, col: 13, offset: 90989},
 																					expr: &litMatcher{
-																						pos:        position{line: 2869, col: 13, offset: 90860},
+																						pos:        position{line: 2869, col: 13, offset: 90989},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2869, col: 18, offset: 90865},
+																					pos: position{line: 2869, col: 18, offset: 90994},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2869, col: 18, offset: 90865},
+																						pos:        position{line: 2869, col: 18, offset: 90994},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -47784,7 +47784,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2690, col: 27, offset: 85432},
+																	pos:        position{line: 2690, col: 27, offset: 85561},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -47795,38 +47795,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2691, col: 5, offset: 85460},
+												pos:   position{line: 2691, col: 5, offset: 85589},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2691, col: 12, offset: 85467},
+													pos: position{line: 2691, col: 12, offset: 85596},
 													expr: &choiceExpr{
-														pos: position{line: 2692, col: 9, offset: 85477},
+														pos: position{line: 2692, col: 9, offset: 85606},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2692, col: 9, offset: 85477},
+																pos: position{line: 2692, col: 9, offset: 85606},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2692, col: 9, offset: 85477},
+																	pos:        position{line: 2692, col: 9, offset: 85606},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2693, col: 11, offset: 85524},
+																pos: position{line: 2693, col: 11, offset: 85653},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2693, col: 11, offset: 85524},
+																	pos:        position{line: 2693, col: 11, offset: 85653},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2694, col: 11, offset: 85572},
+																pos: position{line: 2694, col: 11, offset: 85701},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2694, col: 11, offset: 85572},
+																	pos:        position{line: 2694, col: 11, offset: 85701},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -47837,38 +47837,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2696, col: 5, offset: 85622},
+												pos:   position{line: 2696, col: 5, offset: 85751},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2696, col: 12, offset: 85629},
+													pos: position{line: 2696, col: 12, offset: 85758},
 													expr: &choiceExpr{
-														pos: position{line: 2697, col: 9, offset: 85639},
+														pos: position{line: 2697, col: 9, offset: 85768},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2697, col: 9, offset: 85639},
+																pos: position{line: 2697, col: 9, offset: 85768},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2697, col: 9, offset: 85639},
+																	pos:        position{line: 2697, col: 9, offset: 85768},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2698, col: 11, offset: 85686},
+																pos: position{line: 2698, col: 11, offset: 85815},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2698, col: 11, offset: 85686},
+																	pos:        position{line: 2698, col: 11, offset: 85815},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2699, col: 11, offset: 85736},
+																pos: position{line: 2699, col: 11, offset: 85865},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2699, col: 11, offset: 85736},
+																	pos:        position{line: 2699, col: 11, offset: 85865},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -47879,32 +47879,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2701, col: 5, offset: 85787},
+												pos:   position{line: 2701, col: 5, offset: 85916},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2701, col: 12, offset: 85794},
+													pos: position{line: 2701, col: 12, offset: 85923},
 													expr: &choiceExpr{
-														pos: position{line: 2701, col: 13, offset: 85795},
+														pos: position{line: 2701, col: 13, offset: 85924},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2869, col: 12, offset: 90859},
+																pos: position{line: 2869, col: 12, offset: 90988},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2869, col: 13, offset: 90860},
+																	pos: position{line: 2869, col: 13, offset: 90989},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2869, col: 13, offset: 90860},
+																			pos: position{line: 2869, col: 13, offset: 90989},
 																			expr: &litMatcher{
-																				pos:        position{line: 2869, col: 13, offset: 90860},
+																				pos:        position{line: 2869, col: 13, offset: 90989},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2869, col: 18, offset: 90865},
+																			pos: position{line: 2869, col: 18, offset: 90994},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2869, col: 18, offset: 90865},
+																				pos:        position{line: 2869, col: 18, offset: 90994},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -47915,10 +47915,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2701, col: 24, offset: 85806},
+																pos: position{line: 2701, col: 24, offset: 85935},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2701, col: 24, offset: 85806},
+																	pos:        position{line: 2701, col: 24, offset: 85935},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -47929,15 +47929,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2702, col: 5, offset: 85848},
+												pos:   position{line: 2702, col: 5, offset: 85977},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2702, col: 11, offset: 85854},
+													pos: position{line: 2702, col: 11, offset: 85983},
 													expr: &actionExpr{
-														pos: position{line: 2702, col: 12, offset: 85855},
+														pos: position{line: 2702, col: 12, offset: 85984},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2702, col: 12, offset: 85855},
+															pos:        position{line: 2702, col: 12, offset: 85984},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -47947,12 +47947,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2704, col: 5, offset: 85985},
+												pos:   position{line: 2704, col: 5, offset: 86114},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2704, col: 11, offset: 85991},
+													pos: position{line: 2704, col: 11, offset: 86120},
 													expr: &litMatcher{
-														pos:        position{line: 2704, col: 12, offset: 85992},
+														pos:        position{line: 2704, col: 12, offset: 86121},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -47960,7 +47960,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2705, col: 5, offset: 86002},
+												pos: position{line: 2705, col: 5, offset: 86131},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -47969,9 +47969,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2896, col: 8, offset: 91380},
+							pos: position{line: 2896, col: 8, offset: 91509},
 							expr: &anyMatcher{
-								line: 2896, col: 9, offset: 91381,
+								line: 2896, col: 9, offset: 91510,
 							},
 						},
 					},
@@ -47980,23 +47980,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2732, col: 1, offset: 87006},
+			pos:  position{line: 2732, col: 1, offset: 87135},
 			expr: &actionExpr{
-				pos: position{line: 2733, col: 5, offset: 87029},
+				pos: position{line: 2733, col: 5, offset: 87158},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2733, col: 5, offset: 87029},
+					pos: position{line: 2733, col: 5, offset: 87158},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2733, col: 5, offset: 87029},
+							pos:   position{line: 2733, col: 5, offset: 87158},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2756, col: 18, offset: 87770},
+								pos: position{line: 2756, col: 18, offset: 87899},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2756, col: 19, offset: 87771},
+									pos: position{line: 2756, col: 19, offset: 87900},
 									expr: &charClassMatcher{
-										pos:        position{line: 2756, col: 19, offset: 87771},
+										pos:        position{line: 2756, col: 19, offset: 87900},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48007,25 +48007,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2734, col: 5, offset: 87055},
+							pos: position{line: 2734, col: 5, offset: 87184},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2738, col: 5, offset: 87183},
+							pos:        position{line: 2738, col: 5, offset: 87312},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2739, col: 5, offset: 87193},
+							pos:   position{line: 2739, col: 5, offset: 87322},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2760, col: 19, offset: 87846},
+								pos: position{line: 2760, col: 19, offset: 87975},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2760, col: 19, offset: 87846},
+									pos: position{line: 2760, col: 19, offset: 87975},
 									expr: &charClassMatcher{
-										pos:        position{line: 2760, col: 19, offset: 87846},
+										pos:        position{line: 2760, col: 19, offset: 87975},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -48035,36 +48035,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2740, col: 5, offset: 87221},
+							pos:   position{line: 2740, col: 5, offset: 87350},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2740, col: 17, offset: 87233},
+								pos:  position{line: 2740, col: 17, offset: 87362},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2899, col: 8, offset: 91430},
+							pos: position{line: 2899, col: 8, offset: 91559},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2886, col: 12, offset: 91203},
+									pos: position{line: 2886, col: 12, offset: 91332},
 									run: (*parser).callonUserMacroBlock16,
 									expr: &choiceExpr{
-										pos: position{line: 2886, col: 13, offset: 91204},
+										pos: position{line: 2886, col: 13, offset: 91333},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2886, col: 13, offset: 91204},
+												pos:        position{line: 2886, col: 13, offset: 91333},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2886, col: 20, offset: 91211},
+												pos:        position{line: 2886, col: 20, offset: 91340},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2886, col: 29, offset: 91220},
+												pos:        position{line: 2886, col: 29, offset: 91349},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -48073,9 +48073,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2896, col: 8, offset: 91380},
+									pos: position{line: 2896, col: 8, offset: 91509},
 									expr: &anyMatcher{
-										line: 2896, col: 9, offset: 91381,
+										line: 2896, col: 9, offset: 91510,
 									},
 								},
 							},
@@ -48086,23 +48086,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2744, col: 1, offset: 87381},
+			pos:  position{line: 2744, col: 1, offset: 87510},
 			expr: &actionExpr{
-				pos: position{line: 2745, col: 5, offset: 87405},
+				pos: position{line: 2745, col: 5, offset: 87534},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2745, col: 5, offset: 87405},
+					pos: position{line: 2745, col: 5, offset: 87534},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2745, col: 5, offset: 87405},
+							pos:   position{line: 2745, col: 5, offset: 87534},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2756, col: 18, offset: 87770},
+								pos: position{line: 2756, col: 18, offset: 87899},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2756, col: 19, offset: 87771},
+									pos: position{line: 2756, col: 19, offset: 87900},
 									expr: &charClassMatcher{
-										pos:        position{line: 2756, col: 19, offset: 87771},
+										pos:        position{line: 2756, col: 19, offset: 87900},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48113,25 +48113,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2746, col: 5, offset: 87431},
+							pos: position{line: 2746, col: 5, offset: 87560},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2750, col: 5, offset: 87559},
+							pos:        position{line: 2750, col: 5, offset: 87688},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2751, col: 5, offset: 87568},
+							pos:   position{line: 2751, col: 5, offset: 87697},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2760, col: 19, offset: 87846},
+								pos: position{line: 2760, col: 19, offset: 87975},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2760, col: 19, offset: 87846},
+									pos: position{line: 2760, col: 19, offset: 87975},
 									expr: &charClassMatcher{
-										pos:        position{line: 2760, col: 19, offset: 87846},
+										pos:        position{line: 2760, col: 19, offset: 87975},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -48141,10 +48141,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2752, col: 5, offset: 87596},
+							pos:   position{line: 2752, col: 5, offset: 87725},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2752, col: 17, offset: 87608},
+								pos:  position{line: 2752, col: 17, offset: 87737},
 								name: "InlineAttributes",
 							},
 						},
@@ -48154,43 +48154,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2831, col: 1, offset: 89679},
+			pos:  position{line: 2831, col: 1, offset: 89808},
 			expr: &actionExpr{
-				pos: position{line: 2831, col: 17, offset: 89695},
+				pos: position{line: 2831, col: 17, offset: 89824},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2831, col: 17, offset: 89695},
+					pos:   position{line: 2831, col: 17, offset: 89824},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2848, col: 5, offset: 90149},
+						pos: position{line: 2848, col: 5, offset: 90278},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2848, col: 5, offset: 90149},
+							pos:   position{line: 2848, col: 5, offset: 90278},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2848, col: 14, offset: 90158},
+								pos: position{line: 2848, col: 14, offset: 90287},
 								expr: &choiceExpr{
-									pos: position{line: 2849, col: 9, offset: 90168},
+									pos: position{line: 2849, col: 9, offset: 90297},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2849, col: 9, offset: 90168},
+											pos: position{line: 2849, col: 9, offset: 90297},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2849, col: 9, offset: 90168},
+												pos: position{line: 2849, col: 9, offset: 90297},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2849, col: 9, offset: 90168},
+														pos: position{line: 2849, col: 9, offset: 90297},
 														expr: &litMatcher{
-															pos:        position{line: 2849, col: 10, offset: 90169},
+															pos:        position{line: 2849, col: 10, offset: 90298},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2850, col: 9, offset: 90197},
+														pos: position{line: 2850, col: 9, offset: 90326},
 														expr: &charClassMatcher{
-															pos:        position{line: 2850, col: 10, offset: 90198},
+															pos:        position{line: 2850, col: 10, offset: 90327},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -48201,27 +48201,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2853, col: 11, offset: 90410},
+											pos: position{line: 2853, col: 11, offset: 90539},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2853, col: 11, offset: 90410},
+													pos:        position{line: 2853, col: 11, offset: 90539},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2853, col: 19, offset: 90418},
+													pos: position{line: 2853, col: 19, offset: 90547},
 													expr: &seqExpr{
-														pos: position{line: 2853, col: 21, offset: 90420},
+														pos: position{line: 2853, col: 21, offset: 90549},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2853, col: 21, offset: 90420},
+																pos: position{line: 2853, col: 21, offset: 90549},
 																expr: &actionExpr{
-																	pos: position{line: 2877, col: 10, offset: 91032},
+																	pos: position{line: 2877, col: 10, offset: 91161},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2877, col: 10, offset: 91032},
+																		pos:        position{line: 2877, col: 10, offset: 91161},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -48230,11 +48230,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2853, col: 28, offset: 90427},
+																pos: position{line: 2853, col: 28, offset: 90556},
 																expr: &notExpr{
-																	pos: position{line: 2896, col: 8, offset: 91380},
+																	pos: position{line: 2896, col: 8, offset: 91509},
 																	expr: &anyMatcher{
-																		line: 2896, col: 9, offset: 91381,
+																		line: 2896, col: 9, offset: 91510,
 																	},
 																},
 															},
@@ -48633,10 +48633,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2856, col: 11, offset: 90547},
+											pos: position{line: 2856, col: 11, offset: 90676},
 											run: (*parser).callonFileLocation101,
 											expr: &litMatcher{
-												pos:        position{line: 2856, col: 11, offset: 90547},
+												pos:        position{line: 2856, col: 11, offset: 90676},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -60490,7 +60490,7 @@ func (p *parser) callonRelativeLink6() (interface{}, error) {
 }
 
 func (c *current) onRelativeLink2(url, attributes interface{}) (interface{}, error) {
-	return types.NewStringElement(strings.TrimPrefix(string(c.text), `\`))
+	return types.NewEscapedMacro(strings.TrimPrefix(string(c.text), `\`), c.isSubstitutionEnabled(SpecialCharacters))
 
 }
 
@@ -61068,7 +61068,7 @@ func (p *parser) callonExternalLink6() (interface{}, error) {
 }
 
 func (c *current) onExternalLink2(url, attributes interface{}) (interface{}, error) {
-	return types.NewStringElement(strings.TrimPrefix(string(c.text), `\`))
+	return types.NewEscapedMacro(strings.TrimPrefix(string(c.text), `\`), c.isSubstitutionEnabled(SpecialCharacters))
 
 }
 
@@ -72311,7 +72311,7 @@ func (p *parser) callonSectionTitleLineElement258() (interface{}, error) {
 }
 
 func (c *current) onSectionTitleLineElement254(id interface{}) (interface{}, error) {
-	return types.NewStringElement(strings.TrimPrefix(string(c.text), `\`))
+	return types.NewEscapedMacro(strings.TrimPrefix(string(c.text), `\`), c.isSubstitutionEnabled(SpecialCharacters))
 
 }
 
@@ -73091,7 +73091,7 @@ func (p *parser) callonInlineMacro17() (interface{}, error) {
 }
 
 func (c *current) onInlineMacro13(id interface{}) (interface{}, error) {
-	return types.NewStringElement(strings.TrimPrefix(string(c.text), `\`))
+	return types.NewEscapedMacro(strings.TrimPrefix(string(c.text), `\`), c.isSubstitutionEnabled(SpecialCharacters))
 
 }
 
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 55558d6..b9addf1 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -1255,7 +1255,7 @@ FrontMatterLine <- (.)* {
 InlineAnchor <- 
     // escaped
     `\` "[[" id:(Id) "]]" {
-        return types.NewStringElement(strings.TrimPrefix(string(c.text), `\`))
+        return types.NewEscapedMacro(strings.TrimPrefix(string(c.text), `\`), c.isSubstitutionEnabled(SpecialCharacters))
     }
     // unescaped
     /
@@ -1431,7 +1431,7 @@ BareURL <-
 RelativeLink <- 
     // escaped
     `\` "link:" url:(Location) attributes:(InlineAttributes) {
-        return types.NewStringElement(strings.TrimPrefix(string(c.text), `\`))
+        return types.NewEscapedMacro(strings.TrimPrefix(string(c.text), `\`), c.isSubstitutionEnabled(SpecialCharacters))
     }
     /
     // unescaped
@@ -1443,7 +1443,7 @@ ExternalLink <-
     // escaped
     // TODO: do not attempt to parse url and attributes here, and support escaped element once for all at a higher level     
     `\` url:(LocationWithScheme) attributes:(InlineAttributes)? {
-        return types.NewStringElement(strings.TrimPrefix(string(c.text), `\`))
+        return types.NewEscapedMacro(strings.TrimPrefix(string(c.text), `\`), c.isSubstitutionEnabled(SpecialCharacters))
     }
     /
     // unescaped
diff --git a/pkg/types/types.go b/pkg/types/types.go
index 57a2c79..c7368e8 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -3851,6 +3851,26 @@ func NewConcealedIndexTerm(term1, term2, term3 interface{}) (*ConcealedIndexTerm
 // They need to be identified as they may have a special treatment during the rendering
 // ------------------------------------------------------------------------------------
 
+// NewEscapedMacro returns the elements of an escaped macro (eg: `\link:a[b]`), whose content is text in which
+// the special characters still have to be replaced if this substitution is enabled
+func NewEscapedMacro(content string, specialCharacters bool) ([]interface{}, error) {
+	if !specialCharacters {
+		return []interface{}{&StringElement{Content: content}}, nil
+	}
+	elements := []interface{}{}
+	for i := strings.IndexAny(content, "<>&"); i >= 0; i = strings.IndexAny(content, "<>&") {
+		if i > 0 {
+			elements = append(elements, &StringElement{Content: content[:i]})
+		}
+		elements = append(elements, &SpecialCharacter{Name: content[i : i+1]})
+		content = content[i+1:]
+	}
+	if content != "" {
+		elements = append(elements, &StringElement{Content: content})
+	}
+	return elements, nil
+}
+
 // SpecialCharacter a special character, which may get a special treatment later during rendering
 // Eg `<`, `>`, `&`
 type SpecialCharacter struct {
-- 
2.43.0


From c89e17687a98e2faf5678d12a24d1b819fc6fb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:51 +0000
Subject: [PATCH 119/143] fix: conversion failed on blocks in AsciiDoc cells of
 the footer of a table

---
 pkg/renderer/sgml/table.go | 43 ++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/pkg/renderer/sgml/table.go b/pkg/renderer/sgml/table.go
index 5df06aa..d121bd6 100644
--- a/pkg/renderer/sgml/table.go
+++ b/pkg/renderer/sgml/table.go
@@ -189,9 +189,9 @@ func (r *sgmlRenderer) renderTableFooter(ctx *context, f *types.TableRow, cols [
 }
 
 func (r *sgmlRenderer) renderTableFooterCell(ctx *context, c *types.TableCell, col *types.TableColumn) (string, error) {
-	// assume that elements to render are within the first element of the cell, which should be a paragraph
+	// in most cases, the element to render is a single paragraph
 	if len(c.Elements) == 1 {
-		if p, ok := c.Elements[0].(*types.Paragraph); ok {
+		if p, ok := c.Elements[0].(*types.Paragraph); ok && len(p.Attributes) == 0 {
 			content, err := r.renderInlineElements(ctx, p.Elements)
 			if err != nil {
 				return "", errors.Wrap(err, "unable to render footer cell")
@@ -207,7 +207,20 @@ func (r *sgmlRenderer) renderTableFooterCell(ctx *context, c *types.TableCell, c
 			})
 		}
 	}
-	return "", fmt.Errorf("invalid footer content (expected a single paragraph)")
+	// otherwise (AsciiDoc cell), same as in the body of the table
+	content, err := r.renderTableCellElements(ctx, c)
+	if err != nil {
+		return "", errors.Wrap(err, "unable to render footer cell")
+	}
+	return r.execute(r.tableCell, struct {
+		HAlign  types.HAlign
+		VAlign  types.VAlign
+		Content string
+	}{
+		HAlign:  col.HAlign,
+		VAlign:  col.VAlign,
+		Content: content,
+	})
 }
 
 func (r *sgmlRenderer) renderTableBody(ctx *context, rows []*types.TableRow, columns []*types.TableColumn) (string, error) {
@@ -253,13 +266,9 @@ func (r *sgmlRenderer) renderTableRow(ctx *context, l *types.TableRow, cols []*t
 }
 
 func (r *sgmlRenderer) renderTableCell(ctx *context, cell *types.TableCell, col *types.TableColumn) (string, error) {
-	buff := &strings.Builder{}
-	for _, element := range cell.Elements {
-		renderedElement, err := r.renderTableCellBlock(ctx, element)
-		if err != nil {
-			return "", err
-		}
-		buff.WriteString(renderedElement)
+	content, err := r.renderTableCellElements(ctx, cell)
+	if err != nil {
+		return "", err
 	}
 	tmpl := r.tableCell
 	if col.Style == types.HeaderStyle {
@@ -273,13 +282,25 @@ func (r *sgmlRenderer) renderTableCell(ctx *context, cell *types.TableCell, col
 		VAlign  types.VAlign
 	}{
 		Context: ctx,
-		Content: buff.String(),
+		Content: content,
 		Cell:    cell,
 		HAlign:  col.HAlign,
 		VAlign:  col.VAlign,
 	})
 }
 
+func (r *sgmlRenderer) renderTableCellElements(ctx *context, cell *types.TableCell) (string, error) {
+	buff := &strings.Builder{}
+	for _, element := range cell.Elements {
+		renderedElement, err := r.renderTableCellBlock(ctx, element)
+		if err != nil {
+			return "", err
+		}
+		buff.WriteString(renderedElement)
+	}
+	return buff.String(), nil
+}
+
 func (r *sgmlRenderer) renderTableCellBlock(ctx *context, element interface{}) (string, error) {
 	if p, ok := element.(*types.Paragraph); ok && len(p.Attributes) == 0 {
 		return r.renderTableCellParagraph(ctx, p)
-- 
2.43.0


From 58d0c7a84d6f2ae5873e74501ec83821ab66cfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:09 +0000
Subject: [PATCH 120/143] fix: special characters in the attributes of escaped
 quoted texts were not replaced

---
 pkg/parser/parser.go  | 9948 ++++++++++++++++++++---------------------
 pkg/parser/parser.peg |    2 +-
 2 files changed, 4975 insertions(+), 4975 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index af971f4..0e9daf4 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 359, col: 49, offset: 10879},
 													expr: &actionExpr{
-														pos: position{line: 2877, col: 10, offset: 91161},
+														pos: position{line: 2877, col: 10, offset: 91223},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2877, col: 10, offset: 91161},
+															pos:        position{line: 2877, col: 10, offset: 91223},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2899, col: 8, offset: 91559},
+													pos: position{line: 2899, col: 8, offset: 91621},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2886, col: 12, offset: 91332},
+															pos: position{line: 2886, col: 12, offset: 91394},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2886, col: 13, offset: 91333},
+																pos: position{line: 2886, col: 13, offset: 91395},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 13, offset: 91333},
+																		pos:        position{line: 2886, col: 13, offset: 91395},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 20, offset: 91340},
+																		pos:        position{line: 2886, col: 20, offset: 91402},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 29, offset: 91349},
+																		pos:        position{line: 2886, col: 29, offset: 91411},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2896, col: 8, offset: 91509},
+															pos: position{line: 2896, col: 8, offset: 91571},
 															expr: &anyMatcher{
-																line: 2896, col: 9, offset: 91510,
+																line: 2896, col: 9, offset: 91572,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 361, col: 39, offset: 11000},
 													expr: &actionExpr{
-														pos: position{line: 2877, col: 10, offset: 91161},
+														pos: position{line: 2877, col: 10, offset: 91223},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2877, col: 10, offset: 91161},
+															pos:        position{line: 2877, col: 10, offset: 91223},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2899, col: 8, offset: 91559},
+													pos: position{line: 2899, col: 8, offset: 91621},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2886, col: 12, offset: 91332},
+															pos: position{line: 2886, col: 12, offset: 91394},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2886, col: 13, offset: 91333},
+																pos: position{line: 2886, col: 13, offset: 91395},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 13, offset: 91333},
+																		pos:        position{line: 2886, col: 13, offset: 91395},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 20, offset: 91340},
+																		pos:        position{line: 2886, col: 20, offset: 91402},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 29, offset: 91349},
+																		pos:        position{line: 2886, col: 29, offset: 91411},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2896, col: 8, offset: 91509},
+															pos: position{line: 2896, col: 8, offset: 91571},
 															expr: &anyMatcher{
-																line: 2896, col: 9, offset: 91510,
+																line: 2896, col: 9, offset: 91572,
 															},
 														},
 													},
@@ -321,10 +321,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 78, col: 41, offset: 2149},
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 10, offset: 91161},
+																							pos: position{line: 2877, col: 10, offset: 91223},
 																							run: (*parser).callonDocumentRawLine66,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2877, col: 10, offset: 91161},
+																								pos:        position{line: 2877, col: 10, offset: 91223},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -333,9 +333,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2896, col: 8, offset: 91509},
+																						pos: position{line: 2896, col: 8, offset: 91571},
 																						expr: &anyMatcher{
-																							line: 2896, col: 9, offset: 91510,
+																							line: 2896, col: 9, offset: 91572,
 																						},
 																					},
 																				},
@@ -363,10 +363,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2877, col: 10, offset: 91161},
+														pos: position{line: 2877, col: 10, offset: 91223},
 														run: (*parser).callonDocumentRawLine73,
 														expr: &charClassMatcher{
-															pos:        position{line: 2877, col: 10, offset: 91161},
+															pos:        position{line: 2877, col: 10, offset: 91223},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -375,9 +375,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2896, col: 8, offset: 91509},
+													pos: position{line: 2896, col: 8, offset: 91571},
 													expr: &anyMatcher{
-														line: 2896, col: 9, offset: 91510,
+														line: 2896, col: 9, offset: 91572,
 													},
 												},
 											},
@@ -446,10 +446,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 78, col: 41, offset: 2149},
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 10, offset: 91161},
+																							pos: position{line: 2877, col: 10, offset: 91223},
 																							run: (*parser).callonDocumentRawLine94,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2877, col: 10, offset: 91161},
+																								pos:        position{line: 2877, col: 10, offset: 91223},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -458,9 +458,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2896, col: 8, offset: 91509},
+																						pos: position{line: 2896, col: 8, offset: 91571},
 																						expr: &anyMatcher{
-																							line: 2896, col: 9, offset: 91510,
+																							line: 2896, col: 9, offset: 91572,
 																						},
 																					},
 																				},
@@ -488,10 +488,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2877, col: 10, offset: 91161},
+														pos: position{line: 2877, col: 10, offset: 91223},
 														run: (*parser).callonDocumentRawLine101,
 														expr: &charClassMatcher{
-															pos:        position{line: 2877, col: 10, offset: 91161},
+															pos:        position{line: 2877, col: 10, offset: 91223},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -500,9 +500,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2896, col: 8, offset: 91509},
+													pos: position{line: 2896, col: 8, offset: 91571},
 													expr: &anyMatcher{
-														line: 2896, col: 9, offset: 91510,
+														line: 2896, col: 9, offset: 91572,
 													},
 												},
 											},
@@ -972,24 +972,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2873, col: 10, offset: 91064},
+																pos: position{line: 2873, col: 10, offset: 91126},
 																run: (*parser).callonDocumentRawLine197,
 																expr: &seqExpr{
-																	pos: position{line: 2873, col: 11, offset: 91065},
+																	pos: position{line: 2873, col: 11, offset: 91127},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2873, col: 11, offset: 91065},
+																			pos: position{line: 2873, col: 11, offset: 91127},
 																			expr: &litMatcher{
-																				pos:        position{line: 2873, col: 11, offset: 91065},
+																				pos:        position{line: 2873, col: 11, offset: 91127},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2873, col: 16, offset: 91070},
+																			pos: position{line: 2873, col: 16, offset: 91132},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 16, offset: 91070},
+																				pos:        position{line: 2873, col: 16, offset: 91132},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -997,15 +997,15 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 23, offset: 91077},
+																			pos:        position{line: 2873, col: 23, offset: 91139},
 																			val:        ".",
 																			ignoreCase: false,
 																			want:       "\".\"",
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2873, col: 27, offset: 91081},
+																			pos: position{line: 2873, col: 27, offset: 91143},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 27, offset: 91081},
+																				pos:        position{line: 2873, col: 27, offset: 91143},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1016,24 +1016,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2869, col: 12, offset: 90988},
+																pos: position{line: 2869, col: 12, offset: 91050},
 																run: (*parser).callonDocumentRawLine206,
 																expr: &seqExpr{
-																	pos: position{line: 2869, col: 13, offset: 90989},
+																	pos: position{line: 2869, col: 13, offset: 91051},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2869, col: 13, offset: 90989},
+																			pos: position{line: 2869, col: 13, offset: 91051},
 																			expr: &litMatcher{
-																				pos:        position{line: 2869, col: 13, offset: 90989},
+																				pos:        position{line: 2869, col: 13, offset: 91051},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2869, col: 18, offset: 90994},
+																			pos: position{line: 2869, col: 18, offset: 91056},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2869, col: 18, offset: 90994},
+																				pos:        position{line: 2869, col: 18, offset: 91056},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1049,10 +1049,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2280},
 													expr: &actionExpr{
-														pos: position{line: 2877, col: 10, offset: 91161},
+														pos: position{line: 2877, col: 10, offset: 91223},
 														run: (*parser).callonDocumentRawLine213,
 														expr: &charClassMatcher{
-															pos:        position{line: 2877, col: 10, offset: 91161},
+															pos:        position{line: 2877, col: 10, offset: 91223},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1132,10 +1132,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2326},
 													expr: &actionExpr{
-														pos: position{line: 2877, col: 10, offset: 91161},
+														pos: position{line: 2877, col: 10, offset: 91223},
 														run: (*parser).callonDocumentRawLine230,
 														expr: &charClassMatcher{
-															pos:        position{line: 2877, col: 10, offset: 91161},
+															pos:        position{line: 2877, col: 10, offset: 91223},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1595,24 +1595,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2873, col: 10, offset: 91064},
+																pos: position{line: 2873, col: 10, offset: 91126},
 																run: (*parser).callonDocumentRawLine321,
 																expr: &seqExpr{
-																	pos: position{line: 2873, col: 11, offset: 91065},
+																	pos: position{line: 2873, col: 11, offset: 91127},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2873, col: 11, offset: 91065},
+																			pos: position{line: 2873, col: 11, offset: 91127},
 																			expr: &litMatcher{
-																				pos:        position{line: 2873, col: 11, offset: 91065},
+																				pos:        position{line: 2873, col: 11, offset: 91127},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2873, col: 16, offset: 91070},
+																			pos: position{line: 2873, col: 16, offset: 91132},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 16, offset: 91070},
+																				pos:        position{line: 2873, col: 16, offset: 91132},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1620,15 +1620,15 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 23, offset: 91077},
+																			pos:        position{line: 2873, col: 23, offset: 91139},
 																			val:        ".",
 																			ignoreCase: false,
 																			want:       "\".\"",
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2873, col: 27, offset: 91081},
+																			pos: position{line: 2873, col: 27, offset: 91143},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 27, offset: 91081},
+																				pos:        position{line: 2873, col: 27, offset: 91143},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1639,24 +1639,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2869, col: 12, offset: 90988},
+																pos: position{line: 2869, col: 12, offset: 91050},
 																run: (*parser).callonDocumentRawLine330,
 																expr: &seqExpr{
-																	pos: position{line: 2869, col: 13, offset: 90989},
+																	pos: position{line: 2869, col: 13, offset: 91051},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2869, col: 13, offset: 90989},
+																			pos: position{line: 2869, col: 13, offset: 91051},
 																			expr: &litMatcher{
-																				pos:        position{line: 2869, col: 13, offset: 90989},
+																				pos:        position{line: 2869, col: 13, offset: 91051},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2869, col: 18, offset: 90994},
+																			pos: position{line: 2869, col: 18, offset: 91056},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2869, col: 18, offset: 90994},
+																				pos:        position{line: 2869, col: 18, offset: 91056},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1678,10 +1678,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2378},
 													expr: &actionExpr{
-														pos: position{line: 2877, col: 10, offset: 91161},
+														pos: position{line: 2877, col: 10, offset: 91223},
 														run: (*parser).callonDocumentRawLine338,
 														expr: &charClassMatcher{
-															pos:        position{line: 2877, col: 10, offset: 91161},
+															pos:        position{line: 2877, col: 10, offset: 91223},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1690,9 +1690,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2896, col: 8, offset: 91509},
+													pos: position{line: 2896, col: 8, offset: 91571},
 													expr: &anyMatcher{
-														line: 2896, col: 9, offset: 91510,
+														line: 2896, col: 9, offset: 91572,
 													},
 												},
 											},
@@ -1764,10 +1764,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 78, col: 41, offset: 2149},
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 10, offset: 91161},
+																							pos: position{line: 2877, col: 10, offset: 91223},
 																							run: (*parser).callonDocumentRawLine360,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2877, col: 10, offset: 91161},
+																								pos:        position{line: 2877, col: 10, offset: 91223},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -1776,9 +1776,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2896, col: 8, offset: 91509},
+																						pos: position{line: 2896, col: 8, offset: 91571},
 																						expr: &anyMatcher{
-																							line: 2896, col: 9, offset: 91510,
+																							line: 2896, col: 9, offset: 91572,
 																						},
 																					},
 																				},
@@ -1806,10 +1806,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3474},
 													expr: &actionExpr{
-														pos: position{line: 2877, col: 10, offset: 91161},
+														pos: position{line: 2877, col: 10, offset: 91223},
 														run: (*parser).callonDocumentRawLine367,
 														expr: &charClassMatcher{
-															pos:        position{line: 2877, col: 10, offset: 91161},
+															pos:        position{line: 2877, col: 10, offset: 91223},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1818,9 +1818,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2896, col: 8, offset: 91509},
+													pos: position{line: 2896, col: 8, offset: 91571},
 													expr: &anyMatcher{
-														line: 2896, col: 9, offset: 91510,
+														line: 2896, col: 9, offset: 91572,
 													},
 												},
 											},
@@ -1835,7 +1835,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 724, col: 5, offset: 23078},
 													expr: &charClassMatcher{
-														pos:        position{line: 2767, col: 13, offset: 88235},
+														pos:        position{line: 2767, col: 13, offset: 88297},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1885,10 +1885,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 742, col: 8, offset: 23722},
 																			expr: &actionExpr{
-																				pos: position{line: 2877, col: 10, offset: 91161},
+																				pos: position{line: 2877, col: 10, offset: 91223},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 10, offset: 91161},
+																					pos:        position{line: 2877, col: 10, offset: 91223},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1897,28 +1897,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2899, col: 8, offset: 91559},
+																			pos: position{line: 2899, col: 8, offset: 91621},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2886, col: 12, offset: 91332},
+																					pos: position{line: 2886, col: 12, offset: 91394},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2886, col: 13, offset: 91333},
+																						pos: position{line: 2886, col: 13, offset: 91395},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 13, offset: 91333},
+																								pos:        position{line: 2886, col: 13, offset: 91395},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 20, offset: 91340},
+																								pos:        position{line: 2886, col: 20, offset: 91402},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 29, offset: 91349},
+																								pos:        position{line: 2886, col: 29, offset: 91411},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1927,9 +1927,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91509},
+																					pos: position{line: 2896, col: 8, offset: 91571},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91510,
+																						line: 2896, col: 9, offset: 91572,
 																					},
 																				},
 																			},
@@ -1974,10 +1974,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 749, col: 8, offset: 23970},
 																			expr: &actionExpr{
-																				pos: position{line: 2877, col: 10, offset: 91161},
+																				pos: position{line: 2877, col: 10, offset: 91223},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 10, offset: 91161},
+																					pos:        position{line: 2877, col: 10, offset: 91223},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1986,28 +1986,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2899, col: 8, offset: 91559},
+																			pos: position{line: 2899, col: 8, offset: 91621},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2886, col: 12, offset: 91332},
+																					pos: position{line: 2886, col: 12, offset: 91394},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2886, col: 13, offset: 91333},
+																						pos: position{line: 2886, col: 13, offset: 91395},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 13, offset: 91333},
+																								pos:        position{line: 2886, col: 13, offset: 91395},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 20, offset: 91340},
+																								pos:        position{line: 2886, col: 20, offset: 91402},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 29, offset: 91349},
+																								pos:        position{line: 2886, col: 29, offset: 91411},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2016,9 +2016,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91509},
+																					pos: position{line: 2896, col: 8, offset: 91571},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91510,
+																						line: 2896, col: 9, offset: 91572,
 																					},
 																				},
 																			},
@@ -2059,10 +2059,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 760, col: 52, offset: 24382},
 																			expr: &actionExpr{
-																				pos: position{line: 2877, col: 10, offset: 91161},
+																				pos: position{line: 2877, col: 10, offset: 91223},
 																				run: (*parser).callonDocumentRawLine423,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 10, offset: 91161},
+																					pos:        position{line: 2877, col: 10, offset: 91223},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2071,28 +2071,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2899, col: 8, offset: 91559},
+																			pos: position{line: 2899, col: 8, offset: 91621},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2886, col: 12, offset: 91332},
+																					pos: position{line: 2886, col: 12, offset: 91394},
 																					run: (*parser).callonDocumentRawLine426,
 																					expr: &choiceExpr{
-																						pos: position{line: 2886, col: 13, offset: 91333},
+																						pos: position{line: 2886, col: 13, offset: 91395},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 13, offset: 91333},
+																								pos:        position{line: 2886, col: 13, offset: 91395},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 20, offset: 91340},
+																								pos:        position{line: 2886, col: 20, offset: 91402},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 29, offset: 91349},
+																								pos:        position{line: 2886, col: 29, offset: 91411},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2101,9 +2101,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91509},
+																					pos: position{line: 2896, col: 8, offset: 91571},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91510,
+																						line: 2896, col: 9, offset: 91572,
 																					},
 																				},
 																			},
@@ -2148,10 +2148,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 756, col: 8, offset: 24216},
 																			expr: &actionExpr{
-																				pos: position{line: 2877, col: 10, offset: 91161},
+																				pos: position{line: 2877, col: 10, offset: 91223},
 																				run: (*parser).callonDocumentRawLine442,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 10, offset: 91161},
+																					pos:        position{line: 2877, col: 10, offset: 91223},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2160,28 +2160,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2899, col: 8, offset: 91559},
+																			pos: position{line: 2899, col: 8, offset: 91621},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2886, col: 12, offset: 91332},
+																					pos: position{line: 2886, col: 12, offset: 91394},
 																					run: (*parser).callonDocumentRawLine445,
 																					expr: &choiceExpr{
-																						pos: position{line: 2886, col: 13, offset: 91333},
+																						pos: position{line: 2886, col: 13, offset: 91395},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 13, offset: 91333},
+																								pos:        position{line: 2886, col: 13, offset: 91395},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 20, offset: 91340},
+																								pos:        position{line: 2886, col: 20, offset: 91402},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 29, offset: 91349},
+																								pos:        position{line: 2886, col: 29, offset: 91411},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2190,9 +2190,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91509},
+																					pos: position{line: 2896, col: 8, offset: 91571},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91510,
+																						line: 2896, col: 9, offset: 91572,
 																					},
 																				},
 																			},
@@ -2237,10 +2237,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 771, col: 8, offset: 24759},
 																			expr: &actionExpr{
-																				pos: position{line: 2877, col: 10, offset: 91161},
+																				pos: position{line: 2877, col: 10, offset: 91223},
 																				run: (*parser).callonDocumentRawLine461,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 10, offset: 91161},
+																					pos:        position{line: 2877, col: 10, offset: 91223},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2249,28 +2249,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2899, col: 8, offset: 91559},
+																			pos: position{line: 2899, col: 8, offset: 91621},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2886, col: 12, offset: 91332},
+																					pos: position{line: 2886, col: 12, offset: 91394},
 																					run: (*parser).callonDocumentRawLine464,
 																					expr: &choiceExpr{
-																						pos: position{line: 2886, col: 13, offset: 91333},
+																						pos: position{line: 2886, col: 13, offset: 91395},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 13, offset: 91333},
+																								pos:        position{line: 2886, col: 13, offset: 91395},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 20, offset: 91340},
+																								pos:        position{line: 2886, col: 20, offset: 91402},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 29, offset: 91349},
+																								pos:        position{line: 2886, col: 29, offset: 91411},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2279,9 +2279,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91509},
+																					pos: position{line: 2896, col: 8, offset: 91571},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91510,
+																						line: 2896, col: 9, offset: 91572,
 																					},
 																				},
 																			},
@@ -2326,10 +2326,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 785, col: 8, offset: 25235},
 																			expr: &actionExpr{
-																				pos: position{line: 2877, col: 10, offset: 91161},
+																				pos: position{line: 2877, col: 10, offset: 91223},
 																				run: (*parser).callonDocumentRawLine480,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 10, offset: 91161},
+																					pos:        position{line: 2877, col: 10, offset: 91223},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2338,28 +2338,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2899, col: 8, offset: 91559},
+																			pos: position{line: 2899, col: 8, offset: 91621},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2886, col: 12, offset: 91332},
+																					pos: position{line: 2886, col: 12, offset: 91394},
 																					run: (*parser).callonDocumentRawLine483,
 																					expr: &choiceExpr{
-																						pos: position{line: 2886, col: 13, offset: 91333},
+																						pos: position{line: 2886, col: 13, offset: 91395},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 13, offset: 91333},
+																								pos:        position{line: 2886, col: 13, offset: 91395},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 20, offset: 91340},
+																								pos:        position{line: 2886, col: 20, offset: 91402},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 29, offset: 91349},
+																								pos:        position{line: 2886, col: 29, offset: 91411},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2368,9 +2368,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91509},
+																					pos: position{line: 2896, col: 8, offset: 91571},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91510,
+																						line: 2896, col: 9, offset: 91572,
 																					},
 																				},
 																			},
@@ -2415,10 +2415,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 792, col: 8, offset: 25487},
 																			expr: &actionExpr{
-																				pos: position{line: 2877, col: 10, offset: 91161},
+																				pos: position{line: 2877, col: 10, offset: 91223},
 																				run: (*parser).callonDocumentRawLine499,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 10, offset: 91161},
+																					pos:        position{line: 2877, col: 10, offset: 91223},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2427,28 +2427,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2899, col: 8, offset: 91559},
+																			pos: position{line: 2899, col: 8, offset: 91621},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2886, col: 12, offset: 91332},
+																					pos: position{line: 2886, col: 12, offset: 91394},
 																					run: (*parser).callonDocumentRawLine502,
 																					expr: &choiceExpr{
-																						pos: position{line: 2886, col: 13, offset: 91333},
+																						pos: position{line: 2886, col: 13, offset: 91395},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 13, offset: 91333},
+																								pos:        position{line: 2886, col: 13, offset: 91395},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 20, offset: 91340},
+																								pos:        position{line: 2886, col: 20, offset: 91402},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 29, offset: 91349},
+																								pos:        position{line: 2886, col: 29, offset: 91411},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2457,9 +2457,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91509},
+																					pos: position{line: 2896, col: 8, offset: 91571},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91510,
+																						line: 2896, col: 9, offset: 91572,
 																					},
 																				},
 																			},
@@ -2504,10 +2504,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 799, col: 8, offset: 25737},
 																			expr: &actionExpr{
-																				pos: position{line: 2877, col: 10, offset: 91161},
+																				pos: position{line: 2877, col: 10, offset: 91223},
 																				run: (*parser).callonDocumentRawLine518,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 10, offset: 91161},
+																					pos:        position{line: 2877, col: 10, offset: 91223},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2516,28 +2516,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2899, col: 8, offset: 91559},
+																			pos: position{line: 2899, col: 8, offset: 91621},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2886, col: 12, offset: 91332},
+																					pos: position{line: 2886, col: 12, offset: 91394},
 																					run: (*parser).callonDocumentRawLine521,
 																					expr: &choiceExpr{
-																						pos: position{line: 2886, col: 13, offset: 91333},
+																						pos: position{line: 2886, col: 13, offset: 91395},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 13, offset: 91333},
+																								pos:        position{line: 2886, col: 13, offset: 91395},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 20, offset: 91340},
+																								pos:        position{line: 2886, col: 20, offset: 91402},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 29, offset: 91349},
+																								pos:        position{line: 2886, col: 29, offset: 91411},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2546,9 +2546,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91509},
+																					pos: position{line: 2896, col: 8, offset: 91571},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91510,
+																						line: 2896, col: 9, offset: 91572,
 																					},
 																				},
 																			},
@@ -2593,10 +2593,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 806, col: 8, offset: 25983},
 																			expr: &actionExpr{
-																				pos: position{line: 2877, col: 10, offset: 91161},
+																				pos: position{line: 2877, col: 10, offset: 91223},
 																				run: (*parser).callonDocumentRawLine537,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 10, offset: 91161},
+																					pos:        position{line: 2877, col: 10, offset: 91223},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2605,28 +2605,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2899, col: 8, offset: 91559},
+																			pos: position{line: 2899, col: 8, offset: 91621},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2886, col: 12, offset: 91332},
+																					pos: position{line: 2886, col: 12, offset: 91394},
 																					run: (*parser).callonDocumentRawLine540,
 																					expr: &choiceExpr{
-																						pos: position{line: 2886, col: 13, offset: 91333},
+																						pos: position{line: 2886, col: 13, offset: 91395},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 13, offset: 91333},
+																								pos:        position{line: 2886, col: 13, offset: 91395},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 20, offset: 91340},
+																								pos:        position{line: 2886, col: 20, offset: 91402},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 29, offset: 91349},
+																								pos:        position{line: 2886, col: 29, offset: 91411},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2635,9 +2635,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91509},
+																					pos: position{line: 2896, col: 8, offset: 91571},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91510,
+																						line: 2896, col: 9, offset: 91572,
 																					},
 																				},
 																			},
@@ -2687,12 +2687,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine555,
 												},
 												&actionExpr{
-													pos: position{line: 2881, col: 11, offset: 91222},
+													pos: position{line: 2881, col: 11, offset: 91284},
 													run: (*parser).callonDocumentRawLine556,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2881, col: 11, offset: 91222},
+														pos: position{line: 2881, col: 11, offset: 91284},
 														expr: &charClassMatcher{
-															pos:        position{line: 2881, col: 11, offset: 91222},
+															pos:        position{line: 2881, col: 11, offset: 91284},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2701,12 +2701,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2827, col: 14, offset: 89754},
+													pos: position{line: 2827, col: 14, offset: 89816},
 													run: (*parser).callonDocumentRawLine559,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2827, col: 14, offset: 89754},
+														pos: position{line: 2827, col: 14, offset: 89816},
 														expr: &charClassMatcher{
-															pos:        position{line: 2827, col: 14, offset: 89754},
+															pos:        position{line: 2827, col: 14, offset: 89816},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2715,9 +2715,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2896, col: 8, offset: 91509},
+													pos: position{line: 2896, col: 8, offset: 91571},
 													expr: &anyMatcher{
-														line: 2896, col: 9, offset: 91510,
+														line: 2896, col: 9, offset: 91572,
 													},
 												},
 											},
@@ -2727,9 +2727,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2896, col: 8, offset: 91509},
+							pos: position{line: 2896, col: 8, offset: 91571},
 							expr: &anyMatcher{
-								line: 2896, col: 9, offset: 91510,
+								line: 2896, col: 9, offset: 91572,
 							},
 						},
 					},
@@ -2764,41 +2764,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2831, col: 17, offset: 89824},
+												pos: position{line: 2831, col: 17, offset: 89886},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2831, col: 17, offset: 89824},
+													pos:   position{line: 2831, col: 17, offset: 89886},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2848, col: 5, offset: 90278},
+														pos: position{line: 2848, col: 5, offset: 90340},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2848, col: 5, offset: 90278},
+															pos:   position{line: 2848, col: 5, offset: 90340},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2848, col: 14, offset: 90287},
+																pos: position{line: 2848, col: 14, offset: 90349},
 																expr: &choiceExpr{
-																	pos: position{line: 2849, col: 9, offset: 90297},
+																	pos: position{line: 2849, col: 9, offset: 90359},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2849, col: 9, offset: 90297},
+																			pos: position{line: 2849, col: 9, offset: 90359},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2849, col: 9, offset: 90297},
+																				pos: position{line: 2849, col: 9, offset: 90359},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2849, col: 9, offset: 90297},
+																						pos: position{line: 2849, col: 9, offset: 90359},
 																						expr: &litMatcher{
-																							pos:        position{line: 2849, col: 10, offset: 90298},
+																							pos:        position{line: 2849, col: 10, offset: 90360},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2850, col: 9, offset: 90326},
+																						pos: position{line: 2850, col: 9, offset: 90388},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2850, col: 10, offset: 90327},
+																							pos:        position{line: 2850, col: 10, offset: 90389},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2809,27 +2809,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2853, col: 11, offset: 90539},
+																			pos: position{line: 2853, col: 11, offset: 90601},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2853, col: 11, offset: 90539},
+																					pos:        position{line: 2853, col: 11, offset: 90601},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2853, col: 19, offset: 90547},
+																					pos: position{line: 2853, col: 19, offset: 90609},
 																					expr: &seqExpr{
-																						pos: position{line: 2853, col: 21, offset: 90549},
+																						pos: position{line: 2853, col: 21, offset: 90611},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2853, col: 21, offset: 90549},
+																								pos: position{line: 2853, col: 21, offset: 90611},
 																								expr: &actionExpr{
-																									pos: position{line: 2877, col: 10, offset: 91161},
+																									pos: position{line: 2877, col: 10, offset: 91223},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 10, offset: 91161},
+																										pos:        position{line: 2877, col: 10, offset: 91223},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2838,11 +2838,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2853, col: 28, offset: 90556},
+																								pos: position{line: 2853, col: 28, offset: 90618},
 																								expr: &notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91509},
+																									pos: position{line: 2896, col: 8, offset: 91571},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91510,
+																										line: 2896, col: 9, offset: 91572,
 																									},
 																								},
 																							},
@@ -3241,10 +3241,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2856, col: 11, offset: 90676},
+																			pos: position{line: 2856, col: 11, offset: 90738},
 																			run: (*parser).callonFileInclusion108,
 																			expr: &litMatcher{
-																				pos:        position{line: 2856, col: 11, offset: 90676},
+																				pos:        position{line: 2856, col: 11, offset: 90738},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3273,10 +3273,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2877, col: 10, offset: 91161},
+								pos: position{line: 2877, col: 10, offset: 91223},
 								run: (*parser).callonFileInclusion113,
 								expr: &charClassMatcher{
-									pos:        position{line: 2877, col: 10, offset: 91161},
+									pos:        position{line: 2877, col: 10, offset: 91223},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3285,28 +3285,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2899, col: 8, offset: 91559},
+							pos: position{line: 2899, col: 8, offset: 91621},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2886, col: 12, offset: 91332},
+									pos: position{line: 2886, col: 12, offset: 91394},
 									run: (*parser).callonFileInclusion116,
 									expr: &choiceExpr{
-										pos: position{line: 2886, col: 13, offset: 91333},
+										pos: position{line: 2886, col: 13, offset: 91395},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2886, col: 13, offset: 91333},
+												pos:        position{line: 2886, col: 13, offset: 91395},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2886, col: 20, offset: 91340},
+												pos:        position{line: 2886, col: 20, offset: 91402},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2886, col: 29, offset: 91349},
+												pos:        position{line: 2886, col: 29, offset: 91411},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3315,9 +3315,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2896, col: 8, offset: 91509},
+									pos: position{line: 2896, col: 8, offset: 91571},
 									expr: &anyMatcher{
-										line: 2896, col: 9, offset: 91510,
+										line: 2896, col: 9, offset: 91572,
 									},
 								},
 							},
@@ -3363,24 +3363,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2869, col: 12, offset: 90988},
+																				pos: position{line: 2869, col: 12, offset: 91050},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2869, col: 13, offset: 90989},
+																					pos: position{line: 2869, col: 13, offset: 91051},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2869, col: 13, offset: 90989},
+																							pos: position{line: 2869, col: 13, offset: 91051},
 																							expr: &litMatcher{
-																								pos:        position{line: 2869, col: 13, offset: 90989},
+																								pos:        position{line: 2869, col: 13, offset: 91051},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2869, col: 18, offset: 90994},
+																							pos: position{line: 2869, col: 18, offset: 91056},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2869, col: 18, offset: 90994},
+																								pos:        position{line: 2869, col: 18, offset: 91056},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3401,24 +3401,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2869, col: 12, offset: 90988},
+																				pos: position{line: 2869, col: 12, offset: 91050},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2869, col: 13, offset: 90989},
+																					pos: position{line: 2869, col: 13, offset: 91051},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2869, col: 13, offset: 90989},
+																							pos: position{line: 2869, col: 13, offset: 91051},
 																							expr: &litMatcher{
-																								pos:        position{line: 2869, col: 13, offset: 90989},
+																								pos:        position{line: 2869, col: 13, offset: 91051},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2869, col: 18, offset: 90994},
+																							pos: position{line: 2869, col: 18, offset: 91056},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2869, col: 18, offset: 90994},
+																								pos:        position{line: 2869, col: 18, offset: 91056},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3439,24 +3439,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2869, col: 12, offset: 90988},
+																		pos: position{line: 2869, col: 12, offset: 91050},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2869, col: 13, offset: 90989},
+																			pos: position{line: 2869, col: 13, offset: 91051},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2869, col: 13, offset: 90989},
+																					pos: position{line: 2869, col: 13, offset: 91051},
 																					expr: &litMatcher{
-																						pos:        position{line: 2869, col: 13, offset: 90989},
+																						pos:        position{line: 2869, col: 13, offset: 91051},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2869, col: 18, offset: 90994},
+																					pos: position{line: 2869, col: 18, offset: 91056},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2869, col: 18, offset: 90994},
+																						pos:        position{line: 2869, col: 18, offset: 91056},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3505,24 +3505,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2869, col: 12, offset: 90988},
+																									pos: position{line: 2869, col: 12, offset: 91050},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2869, col: 13, offset: 90989},
+																										pos: position{line: 2869, col: 13, offset: 91051},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2869, col: 13, offset: 90989},
+																												pos: position{line: 2869, col: 13, offset: 91051},
 																												expr: &litMatcher{
-																													pos:        position{line: 2869, col: 13, offset: 90989},
+																													pos:        position{line: 2869, col: 13, offset: 91051},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2869, col: 18, offset: 90994},
+																												pos: position{line: 2869, col: 18, offset: 91056},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2869, col: 18, offset: 90994},
+																													pos:        position{line: 2869, col: 18, offset: 91056},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3543,24 +3543,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2869, col: 12, offset: 90988},
+																									pos: position{line: 2869, col: 12, offset: 91050},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2869, col: 13, offset: 90989},
+																										pos: position{line: 2869, col: 13, offset: 91051},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2869, col: 13, offset: 90989},
+																												pos: position{line: 2869, col: 13, offset: 91051},
 																												expr: &litMatcher{
-																													pos:        position{line: 2869, col: 13, offset: 90989},
+																													pos:        position{line: 2869, col: 13, offset: 91051},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2869, col: 18, offset: 90994},
+																												pos: position{line: 2869, col: 18, offset: 91056},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2869, col: 18, offset: 90994},
+																													pos:        position{line: 2869, col: 18, offset: 91056},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3581,24 +3581,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2869, col: 12, offset: 90988},
+																							pos: position{line: 2869, col: 12, offset: 91050},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2869, col: 13, offset: 90989},
+																								pos: position{line: 2869, col: 13, offset: 91051},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2869, col: 13, offset: 90989},
+																										pos: position{line: 2869, col: 13, offset: 91051},
 																										expr: &litMatcher{
-																											pos:        position{line: 2869, col: 13, offset: 90989},
+																											pos:        position{line: 2869, col: 13, offset: 91051},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2869, col: 18, offset: 90994},
+																										pos: position{line: 2869, col: 18, offset: 91056},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2869, col: 18, offset: 90994},
+																											pos:        position{line: 2869, col: 18, offset: 91056},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3631,24 +3631,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2869, col: 12, offset: 90988},
+														pos: position{line: 2869, col: 12, offset: 91050},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2869, col: 13, offset: 90989},
+															pos: position{line: 2869, col: 13, offset: 91051},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2869, col: 13, offset: 90989},
+																	pos: position{line: 2869, col: 13, offset: 91051},
 																	expr: &litMatcher{
-																		pos:        position{line: 2869, col: 13, offset: 90989},
+																		pos:        position{line: 2869, col: 13, offset: 91051},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2869, col: 18, offset: 90994},
+																	pos: position{line: 2869, col: 18, offset: 91056},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2869, col: 18, offset: 90994},
+																		pos:        position{line: 2869, col: 18, offset: 91056},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3669,24 +3669,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2869, col: 12, offset: 90988},
+														pos: position{line: 2869, col: 12, offset: 91050},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2869, col: 13, offset: 90989},
+															pos: position{line: 2869, col: 13, offset: 91051},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2869, col: 13, offset: 90989},
+																	pos: position{line: 2869, col: 13, offset: 91051},
 																	expr: &litMatcher{
-																		pos:        position{line: 2869, col: 13, offset: 90989},
+																		pos:        position{line: 2869, col: 13, offset: 91051},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2869, col: 18, offset: 90994},
+																	pos: position{line: 2869, col: 18, offset: 91056},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2869, col: 18, offset: 90994},
+																		pos:        position{line: 2869, col: 18, offset: 91056},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3707,24 +3707,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2869, col: 12, offset: 90988},
+												pos: position{line: 2869, col: 12, offset: 91050},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2869, col: 13, offset: 90989},
+													pos: position{line: 2869, col: 13, offset: 91051},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2869, col: 13, offset: 90989},
+															pos: position{line: 2869, col: 13, offset: 91051},
 															expr: &litMatcher{
-																pos:        position{line: 2869, col: 13, offset: 90989},
+																pos:        position{line: 2869, col: 13, offset: 91051},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2869, col: 18, offset: 90994},
+															pos: position{line: 2869, col: 18, offset: 91056},
 															expr: &charClassMatcher{
-																pos:        position{line: 2869, col: 18, offset: 90994},
+																pos:        position{line: 2869, col: 18, offset: 91056},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3740,9 +3740,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2896, col: 8, offset: 91509},
+							pos: position{line: 2896, col: 8, offset: 91571},
 							expr: &anyMatcher{
-								line: 2896, col: 9, offset: 91510,
+								line: 2896, col: 9, offset: 91572,
 							},
 						},
 					},
@@ -4067,9 +4067,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2896, col: 8, offset: 91509},
+							pos: position{line: 2896, col: 8, offset: 91571},
 							expr: &anyMatcher{
-								line: 2896, col: 9, offset: 91510,
+								line: 2896, col: 9, offset: 91572,
 							},
 						},
 					},
@@ -4193,28 +4193,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2899, col: 8, offset: 91559},
+							pos: position{line: 2899, col: 8, offset: 91621},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2886, col: 12, offset: 91332},
+									pos: position{line: 2886, col: 12, offset: 91394},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2886, col: 13, offset: 91333},
+										pos: position{line: 2886, col: 13, offset: 91395},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2886, col: 13, offset: 91333},
+												pos:        position{line: 2886, col: 13, offset: 91395},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2886, col: 20, offset: 91340},
+												pos:        position{line: 2886, col: 20, offset: 91402},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2886, col: 29, offset: 91349},
+												pos:        position{line: 2886, col: 29, offset: 91411},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4223,9 +4223,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2896, col: 8, offset: 91509},
+									pos: position{line: 2896, col: 8, offset: 91571},
 									expr: &anyMatcher{
-										line: 2896, col: 9, offset: 91510,
+										line: 2896, col: 9, offset: 91572,
 									},
 								},
 							},
@@ -4244,9 +4244,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2894, col: 11, offset: 91495},
+							pos: position{line: 2894, col: 11, offset: 91557},
 							expr: &anyMatcher{
-								line: 2894, col: 13, offset: 91497,
+								line: 2894, col: 13, offset: 91559,
 							},
 						},
 						&labeledExpr{
@@ -4341,10 +4341,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 359, col: 49, offset: 10879},
 														expr: &actionExpr{
-															pos: position{line: 2877, col: 10, offset: 91161},
+															pos: position{line: 2877, col: 10, offset: 91223},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2877, col: 10, offset: 91161},
+																pos:        position{line: 2877, col: 10, offset: 91223},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4353,28 +4353,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2899, col: 8, offset: 91559},
+														pos: position{line: 2899, col: 8, offset: 91621},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2886, col: 12, offset: 91332},
+																pos: position{line: 2886, col: 12, offset: 91394},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2886, col: 13, offset: 91333},
+																	pos: position{line: 2886, col: 13, offset: 91395},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 13, offset: 91333},
+																			pos:        position{line: 2886, col: 13, offset: 91395},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 20, offset: 91340},
+																			pos:        position{line: 2886, col: 20, offset: 91402},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 29, offset: 91349},
+																			pos:        position{line: 2886, col: 29, offset: 91411},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4383,9 +4383,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2896, col: 8, offset: 91509},
+																pos: position{line: 2896, col: 8, offset: 91571},
 																expr: &anyMatcher{
-																	line: 2896, col: 9, offset: 91510,
+																	line: 2896, col: 9, offset: 91572,
 																},
 															},
 														},
@@ -4446,10 +4446,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 361, col: 39, offset: 11000},
 														expr: &actionExpr{
-															pos: position{line: 2877, col: 10, offset: 91161},
+															pos: position{line: 2877, col: 10, offset: 91223},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2877, col: 10, offset: 91161},
+																pos:        position{line: 2877, col: 10, offset: 91223},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4458,28 +4458,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2899, col: 8, offset: 91559},
+														pos: position{line: 2899, col: 8, offset: 91621},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2886, col: 12, offset: 91332},
+																pos: position{line: 2886, col: 12, offset: 91394},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2886, col: 13, offset: 91333},
+																	pos: position{line: 2886, col: 13, offset: 91395},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 13, offset: 91333},
+																			pos:        position{line: 2886, col: 13, offset: 91395},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 20, offset: 91340},
+																			pos:        position{line: 2886, col: 20, offset: 91402},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 29, offset: 91349},
+																			pos:        position{line: 2886, col: 29, offset: 91411},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4488,9 +4488,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2896, col: 8, offset: 91509},
+																pos: position{line: 2896, col: 8, offset: 91571},
 																expr: &anyMatcher{
-																	line: 2896, col: 9, offset: 91510,
+																	line: 2896, col: 9, offset: 91572,
 																},
 															},
 														},
@@ -4505,18 +4505,18 @@ var g = &grammar{
 												pos: position{line: 677, col: 14, offset: 21525},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2894, col: 11, offset: 91495},
+														pos: position{line: 2894, col: 11, offset: 91557},
 														expr: &anyMatcher{
-															line: 2894, col: 13, offset: 91497,
+															line: 2894, col: 13, offset: 91559,
 														},
 													},
 													&zeroOrMoreExpr{
 														pos: position{line: 677, col: 21, offset: 21532},
 														expr: &actionExpr{
-															pos: position{line: 2877, col: 10, offset: 91161},
+															pos: position{line: 2877, col: 10, offset: 91223},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2877, col: 10, offset: 91161},
+																pos:        position{line: 2877, col: 10, offset: 91223},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4525,28 +4525,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2899, col: 8, offset: 91559},
+														pos: position{line: 2899, col: 8, offset: 91621},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2886, col: 12, offset: 91332},
+																pos: position{line: 2886, col: 12, offset: 91394},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2886, col: 13, offset: 91333},
+																	pos: position{line: 2886, col: 13, offset: 91395},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 13, offset: 91333},
+																			pos:        position{line: 2886, col: 13, offset: 91395},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 20, offset: 91340},
+																			pos:        position{line: 2886, col: 20, offset: 91402},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 29, offset: 91349},
+																			pos:        position{line: 2886, col: 29, offset: 91411},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4555,9 +4555,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2896, col: 8, offset: 91509},
+																pos: position{line: 2896, col: 8, offset: 91571},
 																expr: &anyMatcher{
-																	line: 2896, col: 9, offset: 91510,
+																	line: 2896, col: 9, offset: 91572,
 																},
 															},
 														},
@@ -4616,10 +4616,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 742, col: 8, offset: 23722},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91161},
+																		pos: position{line: 2877, col: 10, offset: 91223},
 																		run: (*parser).callonDocumentFragment86,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91161},
+																			pos:        position{line: 2877, col: 10, offset: 91223},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -4628,28 +4628,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91559},
+																	pos: position{line: 2899, col: 8, offset: 91621},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91332},
+																			pos: position{line: 2886, col: 12, offset: 91394},
 																			run: (*parser).callonDocumentFragment89,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91333},
+																				pos: position{line: 2886, col: 13, offset: 91395},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91333},
+																						pos:        position{line: 2886, col: 13, offset: 91395},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91340},
+																						pos:        position{line: 2886, col: 20, offset: 91402},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91349},
+																						pos:        position{line: 2886, col: 29, offset: 91411},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -4658,9 +4658,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91509},
+																			pos: position{line: 2896, col: 8, offset: 91571},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91510,
+																				line: 2896, col: 9, offset: 91572,
 																			},
 																		},
 																	},
@@ -4721,10 +4721,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 742, col: 8, offset: 23722},
 																									expr: &actionExpr{
-																										pos: position{line: 2877, col: 10, offset: 91161},
+																										pos: position{line: 2877, col: 10, offset: 91223},
 																										run: (*parser).callonDocumentFragment111,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2877, col: 10, offset: 91161},
+																											pos:        position{line: 2877, col: 10, offset: 91223},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -4733,28 +4733,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2899, col: 8, offset: 91559},
+																									pos: position{line: 2899, col: 8, offset: 91621},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2886, col: 12, offset: 91332},
+																											pos: position{line: 2886, col: 12, offset: 91394},
 																											run: (*parser).callonDocumentFragment114,
 																											expr: &choiceExpr{
-																												pos: position{line: 2886, col: 13, offset: 91333},
+																												pos: position{line: 2886, col: 13, offset: 91395},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 13, offset: 91333},
+																														pos:        position{line: 2886, col: 13, offset: 91395},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 20, offset: 91340},
+																														pos:        position{line: 2886, col: 20, offset: 91402},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 29, offset: 91349},
+																														pos:        position{line: 2886, col: 29, offset: 91411},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -4763,9 +4763,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2896, col: 8, offset: 91509},
+																											pos: position{line: 2896, col: 8, offset: 91571},
 																											expr: &anyMatcher{
-																												line: 2896, col: 9, offset: 91510,
+																												line: 2896, col: 9, offset: 91572,
 																											},
 																										},
 																									},
@@ -4774,9 +4774,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2896, col: 8, offset: 91509},
+																						pos: position{line: 2896, col: 8, offset: 91571},
 																						expr: &anyMatcher{
-																							line: 2896, col: 9, offset: 91510,
+																							line: 2896, col: 9, offset: 91572,
 																						},
 																					},
 																				},
@@ -4792,21 +4792,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26129},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2894, col: 11, offset: 91495},
+																							pos: position{line: 2894, col: 11, offset: 91557},
 																							expr: &anyMatcher{
-																								line: 2894, col: 13, offset: 91497,
+																								line: 2894, col: 13, offset: 91559,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26204},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2823, col: 13, offset: 89687},
+																								pos: position{line: 2823, col: 13, offset: 89749},
 																								run: (*parser).callonDocumentFragment129,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2823, col: 13, offset: 89687},
+																									pos: position{line: 2823, col: 13, offset: 89749},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2823, col: 13, offset: 89687},
+																										pos:        position{line: 2823, col: 13, offset: 89749},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4816,28 +4816,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91559},
+																							pos: position{line: 2899, col: 8, offset: 91621},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91332},
+																									pos: position{line: 2886, col: 12, offset: 91394},
 																									run: (*parser).callonDocumentFragment133,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91333},
+																										pos: position{line: 2886, col: 13, offset: 91395},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91333},
+																												pos:        position{line: 2886, col: 13, offset: 91395},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91340},
+																												pos:        position{line: 2886, col: 20, offset: 91402},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91349},
+																												pos:        position{line: 2886, col: 29, offset: 91411},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4846,9 +4846,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91509},
+																									pos: position{line: 2896, col: 8, offset: 91571},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91510,
+																										line: 2896, col: 9, offset: 91572,
 																									},
 																								},
 																							},
@@ -4904,10 +4904,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 742, col: 8, offset: 23722},
 																				expr: &actionExpr{
-																					pos: position{line: 2877, col: 10, offset: 91161},
+																					pos: position{line: 2877, col: 10, offset: 91223},
 																					run: (*parser).callonDocumentFragment151,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2877, col: 10, offset: 91161},
+																						pos:        position{line: 2877, col: 10, offset: 91223},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -4916,28 +4916,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2899, col: 8, offset: 91559},
+																				pos: position{line: 2899, col: 8, offset: 91621},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2886, col: 12, offset: 91332},
+																						pos: position{line: 2886, col: 12, offset: 91394},
 																						run: (*parser).callonDocumentFragment154,
 																						expr: &choiceExpr{
-																							pos: position{line: 2886, col: 13, offset: 91333},
+																							pos: position{line: 2886, col: 13, offset: 91395},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2886, col: 13, offset: 91333},
+																									pos:        position{line: 2886, col: 13, offset: 91395},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2886, col: 20, offset: 91340},
+																									pos:        position{line: 2886, col: 20, offset: 91402},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2886, col: 29, offset: 91349},
+																									pos:        position{line: 2886, col: 29, offset: 91411},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -4946,9 +4946,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2896, col: 8, offset: 91509},
+																						pos: position{line: 2896, col: 8, offset: 91571},
 																						expr: &anyMatcher{
-																							line: 2896, col: 9, offset: 91510,
+																							line: 2896, col: 9, offset: 91572,
 																						},
 																					},
 																				},
@@ -4957,9 +4957,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2896, col: 8, offset: 91509},
+																	pos: position{line: 2896, col: 8, offset: 91571},
 																	expr: &anyMatcher{
-																		line: 2896, col: 9, offset: 91510,
+																		line: 2896, col: 9, offset: 91572,
 																	},
 																},
 															},
@@ -5014,10 +5014,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 749, col: 8, offset: 23970},
 																		expr: &actionExpr{
-																			pos: position{line: 2877, col: 10, offset: 91161},
+																			pos: position{line: 2877, col: 10, offset: 91223},
 																			run: (*parser).callonDocumentFragment175,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 10, offset: 91161},
+																				pos:        position{line: 2877, col: 10, offset: 91223},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5026,28 +5026,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2899, col: 8, offset: 91559},
+																		pos: position{line: 2899, col: 8, offset: 91621},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91332},
+																				pos: position{line: 2886, col: 12, offset: 91394},
 																				run: (*parser).callonDocumentFragment178,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91333},
+																					pos: position{line: 2886, col: 13, offset: 91395},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91333},
+																							pos:        position{line: 2886, col: 13, offset: 91395},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91340},
+																							pos:        position{line: 2886, col: 20, offset: 91402},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91349},
+																							pos:        position{line: 2886, col: 29, offset: 91411},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5056,9 +5056,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2896, col: 8, offset: 91509},
+																				pos: position{line: 2896, col: 8, offset: 91571},
 																				expr: &anyMatcher{
-																					line: 2896, col: 9, offset: 91510,
+																					line: 2896, col: 9, offset: 91572,
 																				},
 																			},
 																		},
@@ -5130,10 +5130,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 749, col: 8, offset: 23970},
 																												expr: &actionExpr{
-																													pos: position{line: 2877, col: 10, offset: 91161},
+																													pos: position{line: 2877, col: 10, offset: 91223},
 																													run: (*parser).callonDocumentFragment203,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2877, col: 10, offset: 91161},
+																														pos:        position{line: 2877, col: 10, offset: 91223},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5142,28 +5142,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2899, col: 8, offset: 91559},
+																												pos: position{line: 2899, col: 8, offset: 91621},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2886, col: 12, offset: 91332},
+																														pos: position{line: 2886, col: 12, offset: 91394},
 																														run: (*parser).callonDocumentFragment206,
 																														expr: &choiceExpr{
-																															pos: position{line: 2886, col: 13, offset: 91333},
+																															pos: position{line: 2886, col: 13, offset: 91395},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 13, offset: 91333},
+																																	pos:        position{line: 2886, col: 13, offset: 91395},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 20, offset: 91340},
+																																	pos:        position{line: 2886, col: 20, offset: 91402},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 29, offset: 91349},
+																																	pos:        position{line: 2886, col: 29, offset: 91411},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5172,9 +5172,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2896, col: 8, offset: 91509},
+																														pos: position{line: 2896, col: 8, offset: 91571},
 																														expr: &anyMatcher{
-																															line: 2896, col: 9, offset: 91510,
+																															line: 2896, col: 9, offset: 91572,
 																														},
 																													},
 																												},
@@ -5190,9 +5190,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2896, col: 8, offset: 91509},
+																						pos: position{line: 2896, col: 8, offset: 91571},
 																						expr: &anyMatcher{
-																							line: 2896, col: 9, offset: 91510,
+																							line: 2896, col: 9, offset: 91572,
 																						},
 																					},
 																				},
@@ -5208,21 +5208,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26129},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2894, col: 11, offset: 91495},
+																							pos: position{line: 2894, col: 11, offset: 91557},
 																							expr: &anyMatcher{
-																								line: 2894, col: 13, offset: 91497,
+																								line: 2894, col: 13, offset: 91559,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26204},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2823, col: 13, offset: 89687},
+																								pos: position{line: 2823, col: 13, offset: 89749},
 																								run: (*parser).callonDocumentFragment222,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2823, col: 13, offset: 89687},
+																									pos: position{line: 2823, col: 13, offset: 89749},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2823, col: 13, offset: 89687},
+																										pos:        position{line: 2823, col: 13, offset: 89749},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5232,28 +5232,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91559},
+																							pos: position{line: 2899, col: 8, offset: 91621},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91332},
+																									pos: position{line: 2886, col: 12, offset: 91394},
 																									run: (*parser).callonDocumentFragment226,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91333},
+																										pos: position{line: 2886, col: 13, offset: 91395},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91333},
+																												pos:        position{line: 2886, col: 13, offset: 91395},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91340},
+																												pos:        position{line: 2886, col: 20, offset: 91402},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91349},
+																												pos:        position{line: 2886, col: 29, offset: 91411},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5262,9 +5262,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91509},
+																									pos: position{line: 2896, col: 8, offset: 91571},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91510,
+																										line: 2896, col: 9, offset: 91572,
 																									},
 																								},
 																							},
@@ -5329,10 +5329,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 749, col: 8, offset: 23970},
 																								expr: &actionExpr{
-																									pos: position{line: 2877, col: 10, offset: 91161},
+																									pos: position{line: 2877, col: 10, offset: 91223},
 																									run: (*parser).callonDocumentFragment247,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 10, offset: 91161},
+																										pos:        position{line: 2877, col: 10, offset: 91223},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5341,28 +5341,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2899, col: 8, offset: 91559},
+																								pos: position{line: 2899, col: 8, offset: 91621},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2886, col: 12, offset: 91332},
+																										pos: position{line: 2886, col: 12, offset: 91394},
 																										run: (*parser).callonDocumentFragment250,
 																										expr: &choiceExpr{
-																											pos: position{line: 2886, col: 13, offset: 91333},
+																											pos: position{line: 2886, col: 13, offset: 91395},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 13, offset: 91333},
+																													pos:        position{line: 2886, col: 13, offset: 91395},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 20, offset: 91340},
+																													pos:        position{line: 2886, col: 20, offset: 91402},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 29, offset: 91349},
+																													pos:        position{line: 2886, col: 29, offset: 91411},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5371,9 +5371,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2896, col: 8, offset: 91509},
+																										pos: position{line: 2896, col: 8, offset: 91571},
 																										expr: &anyMatcher{
-																											line: 2896, col: 9, offset: 91510,
+																											line: 2896, col: 9, offset: 91572,
 																										},
 																									},
 																								},
@@ -5389,9 +5389,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2896, col: 8, offset: 91509},
+																		pos: position{line: 2896, col: 8, offset: 91571},
 																		expr: &anyMatcher{
-																			line: 2896, col: 9, offset: 91510,
+																			line: 2896, col: 9, offset: 91572,
 																		},
 																	},
 																},
@@ -5443,10 +5443,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 760, col: 52, offset: 24382},
 																		expr: &actionExpr{
-																			pos: position{line: 2877, col: 10, offset: 91161},
+																			pos: position{line: 2877, col: 10, offset: 91223},
 																			run: (*parser).callonDocumentFragment271,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 10, offset: 91161},
+																				pos:        position{line: 2877, col: 10, offset: 91223},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5455,28 +5455,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2899, col: 8, offset: 91559},
+																		pos: position{line: 2899, col: 8, offset: 91621},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91332},
+																				pos: position{line: 2886, col: 12, offset: 91394},
 																				run: (*parser).callonDocumentFragment274,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91333},
+																					pos: position{line: 2886, col: 13, offset: 91395},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91333},
+																							pos:        position{line: 2886, col: 13, offset: 91395},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91340},
+																							pos:        position{line: 2886, col: 20, offset: 91402},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91349},
+																							pos:        position{line: 2886, col: 29, offset: 91411},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5485,9 +5485,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2896, col: 8, offset: 91509},
+																				pos: position{line: 2896, col: 8, offset: 91571},
 																				expr: &anyMatcher{
-																					line: 2896, col: 9, offset: 91510,
+																					line: 2896, col: 9, offset: 91572,
 																				},
 																			},
 																		},
@@ -5521,10 +5521,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 963, col: 40, offset: 30190},
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 10, offset: 91161},
+																							pos: position{line: 2877, col: 10, offset: 91223},
 																							run: (*parser).callonDocumentFragment289,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2877, col: 10, offset: 91161},
+																								pos:        position{line: 2877, col: 10, offset: 91223},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5533,28 +5533,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91559},
+																						pos: position{line: 2899, col: 8, offset: 91621},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91332},
+																								pos: position{line: 2886, col: 12, offset: 91394},
 																								run: (*parser).callonDocumentFragment292,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91333},
+																									pos: position{line: 2886, col: 13, offset: 91395},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91333},
+																											pos:        position{line: 2886, col: 13, offset: 91395},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91340},
+																											pos:        position{line: 2886, col: 20, offset: 91402},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91349},
+																											pos:        position{line: 2886, col: 29, offset: 91411},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5563,9 +5563,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91509},
+																								pos: position{line: 2896, col: 8, offset: 91571},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91510,
+																									line: 2896, col: 9, offset: 91572,
 																								},
 																							},
 																						},
@@ -5583,21 +5583,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26129},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2894, col: 11, offset: 91495},
+																							pos: position{line: 2894, col: 11, offset: 91557},
 																							expr: &anyMatcher{
-																								line: 2894, col: 13, offset: 91497,
+																								line: 2894, col: 13, offset: 91559,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26204},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2823, col: 13, offset: 89687},
+																								pos: position{line: 2823, col: 13, offset: 89749},
 																								run: (*parser).callonDocumentFragment305,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2823, col: 13, offset: 89687},
+																									pos: position{line: 2823, col: 13, offset: 89749},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2823, col: 13, offset: 89687},
+																										pos:        position{line: 2823, col: 13, offset: 89749},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5607,28 +5607,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91559},
+																							pos: position{line: 2899, col: 8, offset: 91621},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91332},
+																									pos: position{line: 2886, col: 12, offset: 91394},
 																									run: (*parser).callonDocumentFragment309,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91333},
+																										pos: position{line: 2886, col: 13, offset: 91395},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91333},
+																												pos:        position{line: 2886, col: 13, offset: 91395},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91340},
+																												pos:        position{line: 2886, col: 20, offset: 91402},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91349},
+																												pos:        position{line: 2886, col: 29, offset: 91411},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5637,9 +5637,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91509},
+																									pos: position{line: 2896, col: 8, offset: 91571},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91510,
+																										line: 2896, col: 9, offset: 91572,
 																									},
 																								},
 																							},
@@ -5667,10 +5667,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 963, col: 40, offset: 30190},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91161},
+																		pos: position{line: 2877, col: 10, offset: 91223},
 																		run: (*parser).callonDocumentFragment320,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91161},
+																			pos:        position{line: 2877, col: 10, offset: 91223},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5679,28 +5679,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91559},
+																	pos: position{line: 2899, col: 8, offset: 91621},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91332},
+																			pos: position{line: 2886, col: 12, offset: 91394},
 																			run: (*parser).callonDocumentFragment323,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91333},
+																				pos: position{line: 2886, col: 13, offset: 91395},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91333},
+																						pos:        position{line: 2886, col: 13, offset: 91395},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91340},
+																						pos:        position{line: 2886, col: 20, offset: 91402},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91349},
+																						pos:        position{line: 2886, col: 29, offset: 91411},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5709,9 +5709,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91509},
+																			pos: position{line: 2896, col: 8, offset: 91571},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91510,
+																				line: 2896, col: 9, offset: 91572,
 																			},
 																		},
 																	},
@@ -5768,10 +5768,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 756, col: 8, offset: 24216},
 																		expr: &actionExpr{
-																			pos: position{line: 2877, col: 10, offset: 91161},
+																			pos: position{line: 2877, col: 10, offset: 91223},
 																			run: (*parser).callonDocumentFragment342,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 10, offset: 91161},
+																				pos:        position{line: 2877, col: 10, offset: 91223},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5780,28 +5780,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2899, col: 8, offset: 91559},
+																		pos: position{line: 2899, col: 8, offset: 91621},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91332},
+																				pos: position{line: 2886, col: 12, offset: 91394},
 																				run: (*parser).callonDocumentFragment345,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91333},
+																					pos: position{line: 2886, col: 13, offset: 91395},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91333},
+																							pos:        position{line: 2886, col: 13, offset: 91395},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91340},
+																							pos:        position{line: 2886, col: 20, offset: 91402},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91349},
+																							pos:        position{line: 2886, col: 29, offset: 91411},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5810,9 +5810,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2896, col: 8, offset: 91509},
+																				pos: position{line: 2896, col: 8, offset: 91571},
 																				expr: &anyMatcher{
-																					line: 2896, col: 9, offset: 91510,
+																					line: 2896, col: 9, offset: 91572,
 																				},
 																			},
 																		},
@@ -5884,10 +5884,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 756, col: 8, offset: 24216},
 																												expr: &actionExpr{
-																													pos: position{line: 2877, col: 10, offset: 91161},
+																													pos: position{line: 2877, col: 10, offset: 91223},
 																													run: (*parser).callonDocumentFragment370,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2877, col: 10, offset: 91161},
+																														pos:        position{line: 2877, col: 10, offset: 91223},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5896,28 +5896,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2899, col: 8, offset: 91559},
+																												pos: position{line: 2899, col: 8, offset: 91621},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2886, col: 12, offset: 91332},
+																														pos: position{line: 2886, col: 12, offset: 91394},
 																														run: (*parser).callonDocumentFragment373,
 																														expr: &choiceExpr{
-																															pos: position{line: 2886, col: 13, offset: 91333},
+																															pos: position{line: 2886, col: 13, offset: 91395},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 13, offset: 91333},
+																																	pos:        position{line: 2886, col: 13, offset: 91395},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 20, offset: 91340},
+																																	pos:        position{line: 2886, col: 20, offset: 91402},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 29, offset: 91349},
+																																	pos:        position{line: 2886, col: 29, offset: 91411},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5926,9 +5926,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2896, col: 8, offset: 91509},
+																														pos: position{line: 2896, col: 8, offset: 91571},
 																														expr: &anyMatcher{
-																															line: 2896, col: 9, offset: 91510,
+																															line: 2896, col: 9, offset: 91572,
 																														},
 																													},
 																												},
@@ -5944,9 +5944,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2896, col: 8, offset: 91509},
+																						pos: position{line: 2896, col: 8, offset: 91571},
 																						expr: &anyMatcher{
-																							line: 2896, col: 9, offset: 91510,
+																							line: 2896, col: 9, offset: 91572,
 																						},
 																					},
 																				},
@@ -5962,21 +5962,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26129},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2894, col: 11, offset: 91495},
+																							pos: position{line: 2894, col: 11, offset: 91557},
 																							expr: &anyMatcher{
-																								line: 2894, col: 13, offset: 91497,
+																								line: 2894, col: 13, offset: 91559,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26204},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2823, col: 13, offset: 89687},
+																								pos: position{line: 2823, col: 13, offset: 89749},
 																								run: (*parser).callonDocumentFragment389,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2823, col: 13, offset: 89687},
+																									pos: position{line: 2823, col: 13, offset: 89749},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2823, col: 13, offset: 89687},
+																										pos:        position{line: 2823, col: 13, offset: 89749},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5986,28 +5986,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91559},
+																							pos: position{line: 2899, col: 8, offset: 91621},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91332},
+																									pos: position{line: 2886, col: 12, offset: 91394},
 																									run: (*parser).callonDocumentFragment393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91333},
+																										pos: position{line: 2886, col: 13, offset: 91395},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91333},
+																												pos:        position{line: 2886, col: 13, offset: 91395},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91340},
+																												pos:        position{line: 2886, col: 20, offset: 91402},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91349},
+																												pos:        position{line: 2886, col: 29, offset: 91411},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6016,9 +6016,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91509},
+																									pos: position{line: 2896, col: 8, offset: 91571},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91510,
+																										line: 2896, col: 9, offset: 91572,
 																									},
 																								},
 																							},
@@ -6083,10 +6083,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 756, col: 8, offset: 24216},
 																								expr: &actionExpr{
-																									pos: position{line: 2877, col: 10, offset: 91161},
+																									pos: position{line: 2877, col: 10, offset: 91223},
 																									run: (*parser).callonDocumentFragment414,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 10, offset: 91161},
+																										pos:        position{line: 2877, col: 10, offset: 91223},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6095,28 +6095,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2899, col: 8, offset: 91559},
+																								pos: position{line: 2899, col: 8, offset: 91621},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2886, col: 12, offset: 91332},
+																										pos: position{line: 2886, col: 12, offset: 91394},
 																										run: (*parser).callonDocumentFragment417,
 																										expr: &choiceExpr{
-																											pos: position{line: 2886, col: 13, offset: 91333},
+																											pos: position{line: 2886, col: 13, offset: 91395},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 13, offset: 91333},
+																													pos:        position{line: 2886, col: 13, offset: 91395},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 20, offset: 91340},
+																													pos:        position{line: 2886, col: 20, offset: 91402},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 29, offset: 91349},
+																													pos:        position{line: 2886, col: 29, offset: 91411},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6125,9 +6125,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2896, col: 8, offset: 91509},
+																										pos: position{line: 2896, col: 8, offset: 91571},
 																										expr: &anyMatcher{
-																											line: 2896, col: 9, offset: 91510,
+																											line: 2896, col: 9, offset: 91572,
 																										},
 																									},
 																								},
@@ -6143,9 +6143,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2896, col: 8, offset: 91509},
+																		pos: position{line: 2896, col: 8, offset: 91571},
 																		expr: &anyMatcher{
-																			line: 2896, col: 9, offset: 91510,
+																			line: 2896, col: 9, offset: 91572,
 																		},
 																	},
 																},
@@ -6201,10 +6201,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 771, col: 8, offset: 24759},
 																		expr: &actionExpr{
-																			pos: position{line: 2877, col: 10, offset: 91161},
+																			pos: position{line: 2877, col: 10, offset: 91223},
 																			run: (*parser).callonDocumentFragment439,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 10, offset: 91161},
+																				pos:        position{line: 2877, col: 10, offset: 91223},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6213,28 +6213,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2899, col: 8, offset: 91559},
+																		pos: position{line: 2899, col: 8, offset: 91621},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91332},
+																				pos: position{line: 2886, col: 12, offset: 91394},
 																				run: (*parser).callonDocumentFragment442,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91333},
+																					pos: position{line: 2886, col: 13, offset: 91395},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91333},
+																							pos:        position{line: 2886, col: 13, offset: 91395},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91340},
+																							pos:        position{line: 2886, col: 20, offset: 91402},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91349},
+																							pos:        position{line: 2886, col: 29, offset: 91411},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6243,9 +6243,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2896, col: 8, offset: 91509},
+																				pos: position{line: 2896, col: 8, offset: 91571},
 																				expr: &anyMatcher{
-																					line: 2896, col: 9, offset: 91510,
+																					line: 2896, col: 9, offset: 91572,
 																				},
 																			},
 																		},
@@ -6317,10 +6317,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 771, col: 8, offset: 24759},
 																												expr: &actionExpr{
-																													pos: position{line: 2877, col: 10, offset: 91161},
+																													pos: position{line: 2877, col: 10, offset: 91223},
 																													run: (*parser).callonDocumentFragment467,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2877, col: 10, offset: 91161},
+																														pos:        position{line: 2877, col: 10, offset: 91223},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6329,28 +6329,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2899, col: 8, offset: 91559},
+																												pos: position{line: 2899, col: 8, offset: 91621},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2886, col: 12, offset: 91332},
+																														pos: position{line: 2886, col: 12, offset: 91394},
 																														run: (*parser).callonDocumentFragment470,
 																														expr: &choiceExpr{
-																															pos: position{line: 2886, col: 13, offset: 91333},
+																															pos: position{line: 2886, col: 13, offset: 91395},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 13, offset: 91333},
+																																	pos:        position{line: 2886, col: 13, offset: 91395},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 20, offset: 91340},
+																																	pos:        position{line: 2886, col: 20, offset: 91402},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 29, offset: 91349},
+																																	pos:        position{line: 2886, col: 29, offset: 91411},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6359,9 +6359,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2896, col: 8, offset: 91509},
+																														pos: position{line: 2896, col: 8, offset: 91571},
 																														expr: &anyMatcher{
-																															line: 2896, col: 9, offset: 91510,
+																															line: 2896, col: 9, offset: 91572,
 																														},
 																													},
 																												},
@@ -6377,9 +6377,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2896, col: 8, offset: 91509},
+																						pos: position{line: 2896, col: 8, offset: 91571},
 																						expr: &anyMatcher{
-																							line: 2896, col: 9, offset: 91510,
+																							line: 2896, col: 9, offset: 91572,
 																						},
 																					},
 																				},
@@ -6395,21 +6395,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26129},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2894, col: 11, offset: 91495},
+																							pos: position{line: 2894, col: 11, offset: 91557},
 																							expr: &anyMatcher{
-																								line: 2894, col: 13, offset: 91497,
+																								line: 2894, col: 13, offset: 91559,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26204},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2823, col: 13, offset: 89687},
+																								pos: position{line: 2823, col: 13, offset: 89749},
 																								run: (*parser).callonDocumentFragment486,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2823, col: 13, offset: 89687},
+																									pos: position{line: 2823, col: 13, offset: 89749},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2823, col: 13, offset: 89687},
+																										pos:        position{line: 2823, col: 13, offset: 89749},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6419,28 +6419,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91559},
+																							pos: position{line: 2899, col: 8, offset: 91621},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91332},
+																									pos: position{line: 2886, col: 12, offset: 91394},
 																									run: (*parser).callonDocumentFragment490,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91333},
+																										pos: position{line: 2886, col: 13, offset: 91395},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91333},
+																												pos:        position{line: 2886, col: 13, offset: 91395},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91340},
+																												pos:        position{line: 2886, col: 20, offset: 91402},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91349},
+																												pos:        position{line: 2886, col: 29, offset: 91411},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6449,9 +6449,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91509},
+																									pos: position{line: 2896, col: 8, offset: 91571},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91510,
+																										line: 2896, col: 9, offset: 91572,
 																									},
 																								},
 																							},
@@ -6516,10 +6516,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 771, col: 8, offset: 24759},
 																								expr: &actionExpr{
-																									pos: position{line: 2877, col: 10, offset: 91161},
+																									pos: position{line: 2877, col: 10, offset: 91223},
 																									run: (*parser).callonDocumentFragment511,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 10, offset: 91161},
+																										pos:        position{line: 2877, col: 10, offset: 91223},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6528,28 +6528,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2899, col: 8, offset: 91559},
+																								pos: position{line: 2899, col: 8, offset: 91621},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2886, col: 12, offset: 91332},
+																										pos: position{line: 2886, col: 12, offset: 91394},
 																										run: (*parser).callonDocumentFragment514,
 																										expr: &choiceExpr{
-																											pos: position{line: 2886, col: 13, offset: 91333},
+																											pos: position{line: 2886, col: 13, offset: 91395},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 13, offset: 91333},
+																													pos:        position{line: 2886, col: 13, offset: 91395},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 20, offset: 91340},
+																													pos:        position{line: 2886, col: 20, offset: 91402},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 29, offset: 91349},
+																													pos:        position{line: 2886, col: 29, offset: 91411},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6558,9 +6558,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2896, col: 8, offset: 91509},
+																										pos: position{line: 2896, col: 8, offset: 91571},
 																										expr: &anyMatcher{
-																											line: 2896, col: 9, offset: 91510,
+																											line: 2896, col: 9, offset: 91572,
 																										},
 																									},
 																								},
@@ -6576,9 +6576,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2896, col: 8, offset: 91509},
+																		pos: position{line: 2896, col: 8, offset: 91571},
 																		expr: &anyMatcher{
-																			line: 2896, col: 9, offset: 91510,
+																			line: 2896, col: 9, offset: 91572,
 																		},
 																	},
 																},
@@ -6634,10 +6634,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 785, col: 8, offset: 25235},
 																		expr: &actionExpr{
-																			pos: position{line: 2877, col: 10, offset: 91161},
+																			pos: position{line: 2877, col: 10, offset: 91223},
 																			run: (*parser).callonDocumentFragment536,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 10, offset: 91161},
+																				pos:        position{line: 2877, col: 10, offset: 91223},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6646,28 +6646,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2899, col: 8, offset: 91559},
+																		pos: position{line: 2899, col: 8, offset: 91621},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91332},
+																				pos: position{line: 2886, col: 12, offset: 91394},
 																				run: (*parser).callonDocumentFragment539,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91333},
+																					pos: position{line: 2886, col: 13, offset: 91395},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91333},
+																							pos:        position{line: 2886, col: 13, offset: 91395},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91340},
+																							pos:        position{line: 2886, col: 20, offset: 91402},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91349},
+																							pos:        position{line: 2886, col: 29, offset: 91411},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6676,9 +6676,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2896, col: 8, offset: 91509},
+																				pos: position{line: 2896, col: 8, offset: 91571},
 																				expr: &anyMatcher{
-																					line: 2896, col: 9, offset: 91510,
+																					line: 2896, col: 9, offset: 91572,
 																				},
 																			},
 																		},
@@ -6750,10 +6750,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 785, col: 8, offset: 25235},
 																												expr: &actionExpr{
-																													pos: position{line: 2877, col: 10, offset: 91161},
+																													pos: position{line: 2877, col: 10, offset: 91223},
 																													run: (*parser).callonDocumentFragment564,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2877, col: 10, offset: 91161},
+																														pos:        position{line: 2877, col: 10, offset: 91223},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6762,28 +6762,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2899, col: 8, offset: 91559},
+																												pos: position{line: 2899, col: 8, offset: 91621},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2886, col: 12, offset: 91332},
+																														pos: position{line: 2886, col: 12, offset: 91394},
 																														run: (*parser).callonDocumentFragment567,
 																														expr: &choiceExpr{
-																															pos: position{line: 2886, col: 13, offset: 91333},
+																															pos: position{line: 2886, col: 13, offset: 91395},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 13, offset: 91333},
+																																	pos:        position{line: 2886, col: 13, offset: 91395},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 20, offset: 91340},
+																																	pos:        position{line: 2886, col: 20, offset: 91402},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 29, offset: 91349},
+																																	pos:        position{line: 2886, col: 29, offset: 91411},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6792,9 +6792,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2896, col: 8, offset: 91509},
+																														pos: position{line: 2896, col: 8, offset: 91571},
 																														expr: &anyMatcher{
-																															line: 2896, col: 9, offset: 91510,
+																															line: 2896, col: 9, offset: 91572,
 																														},
 																													},
 																												},
@@ -6810,9 +6810,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2896, col: 8, offset: 91509},
+																						pos: position{line: 2896, col: 8, offset: 91571},
 																						expr: &anyMatcher{
-																							line: 2896, col: 9, offset: 91510,
+																							line: 2896, col: 9, offset: 91572,
 																						},
 																					},
 																				},
@@ -6828,21 +6828,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26129},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2894, col: 11, offset: 91495},
+																							pos: position{line: 2894, col: 11, offset: 91557},
 																							expr: &anyMatcher{
-																								line: 2894, col: 13, offset: 91497,
+																								line: 2894, col: 13, offset: 91559,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26204},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2823, col: 13, offset: 89687},
+																								pos: position{line: 2823, col: 13, offset: 89749},
 																								run: (*parser).callonDocumentFragment583,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2823, col: 13, offset: 89687},
+																									pos: position{line: 2823, col: 13, offset: 89749},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2823, col: 13, offset: 89687},
+																										pos:        position{line: 2823, col: 13, offset: 89749},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6852,28 +6852,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91559},
+																							pos: position{line: 2899, col: 8, offset: 91621},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91332},
+																									pos: position{line: 2886, col: 12, offset: 91394},
 																									run: (*parser).callonDocumentFragment587,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91333},
+																										pos: position{line: 2886, col: 13, offset: 91395},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91333},
+																												pos:        position{line: 2886, col: 13, offset: 91395},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91340},
+																												pos:        position{line: 2886, col: 20, offset: 91402},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91349},
+																												pos:        position{line: 2886, col: 29, offset: 91411},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6882,9 +6882,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91509},
+																									pos: position{line: 2896, col: 8, offset: 91571},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91510,
+																										line: 2896, col: 9, offset: 91572,
 																									},
 																								},
 																							},
@@ -6949,10 +6949,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 785, col: 8, offset: 25235},
 																								expr: &actionExpr{
-																									pos: position{line: 2877, col: 10, offset: 91161},
+																									pos: position{line: 2877, col: 10, offset: 91223},
 																									run: (*parser).callonDocumentFragment608,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 10, offset: 91161},
+																										pos:        position{line: 2877, col: 10, offset: 91223},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6961,28 +6961,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2899, col: 8, offset: 91559},
+																								pos: position{line: 2899, col: 8, offset: 91621},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2886, col: 12, offset: 91332},
+																										pos: position{line: 2886, col: 12, offset: 91394},
 																										run: (*parser).callonDocumentFragment611,
 																										expr: &choiceExpr{
-																											pos: position{line: 2886, col: 13, offset: 91333},
+																											pos: position{line: 2886, col: 13, offset: 91395},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 13, offset: 91333},
+																													pos:        position{line: 2886, col: 13, offset: 91395},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 20, offset: 91340},
+																													pos:        position{line: 2886, col: 20, offset: 91402},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 29, offset: 91349},
+																													pos:        position{line: 2886, col: 29, offset: 91411},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6991,9 +6991,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2896, col: 8, offset: 91509},
+																										pos: position{line: 2896, col: 8, offset: 91571},
 																										expr: &anyMatcher{
-																											line: 2896, col: 9, offset: 91510,
+																											line: 2896, col: 9, offset: 91572,
 																										},
 																									},
 																								},
@@ -7009,9 +7009,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2896, col: 8, offset: 91509},
+																		pos: position{line: 2896, col: 8, offset: 91571},
 																		expr: &anyMatcher{
-																			line: 2896, col: 9, offset: 91510,
+																			line: 2896, col: 9, offset: 91572,
 																		},
 																	},
 																},
@@ -7045,18 +7045,18 @@ var g = &grammar{
 																				pos: position{line: 677, col: 14, offset: 21525},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2894, col: 11, offset: 91495},
+																						pos: position{line: 2894, col: 11, offset: 91557},
 																						expr: &anyMatcher{
-																							line: 2894, col: 13, offset: 91497,
+																							line: 2894, col: 13, offset: 91559,
 																						},
 																					},
 																					&zeroOrMoreExpr{
 																						pos: position{line: 677, col: 21, offset: 21532},
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 10, offset: 91161},
+																							pos: position{line: 2877, col: 10, offset: 91223},
 																							run: (*parser).callonDocumentFragment632,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2877, col: 10, offset: 91161},
+																								pos:        position{line: 2877, col: 10, offset: 91223},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -7065,28 +7065,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91559},
+																						pos: position{line: 2899, col: 8, offset: 91621},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91332},
+																								pos: position{line: 2886, col: 12, offset: 91394},
 																								run: (*parser).callonDocumentFragment635,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91333},
+																									pos: position{line: 2886, col: 13, offset: 91395},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91333},
+																											pos:        position{line: 2886, col: 13, offset: 91395},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91340},
+																											pos:        position{line: 2886, col: 20, offset: 91402},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91349},
+																											pos:        position{line: 2886, col: 29, offset: 91411},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -7095,9 +7095,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91509},
+																								pos: position{line: 2896, col: 8, offset: 91571},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91510,
+																									line: 2896, col: 9, offset: 91572,
 																								},
 																							},
 																						},
@@ -7116,12 +7116,12 @@ var g = &grammar{
 																		pos:   position{line: 984, col: 5, offset: 30725},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2827, col: 14, offset: 89754},
+																			pos: position{line: 2827, col: 14, offset: 89816},
 																			run: (*parser).callonDocumentFragment644,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2827, col: 14, offset: 89754},
+																				pos: position{line: 2827, col: 14, offset: 89816},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2827, col: 14, offset: 89754},
+																					pos:        position{line: 2827, col: 14, offset: 89816},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -7131,28 +7131,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2899, col: 8, offset: 91559},
+																		pos: position{line: 2899, col: 8, offset: 91621},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91332},
+																				pos: position{line: 2886, col: 12, offset: 91394},
 																				run: (*parser).callonDocumentFragment648,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91333},
+																					pos: position{line: 2886, col: 13, offset: 91395},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91333},
+																							pos:        position{line: 2886, col: 13, offset: 91395},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91340},
+																							pos:        position{line: 2886, col: 20, offset: 91402},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91349},
+																							pos:        position{line: 2886, col: 29, offset: 91411},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7161,9 +7161,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2896, col: 8, offset: 91509},
+																				pos: position{line: 2896, col: 8, offset: 91571},
 																				expr: &anyMatcher{
-																					line: 2896, col: 9, offset: 91510,
+																					line: 2896, col: 9, offset: 91572,
 																				},
 																			},
 																		},
@@ -7195,18 +7195,18 @@ var g = &grammar{
 																							pos: position{line: 677, col: 14, offset: 21525},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2894, col: 11, offset: 91495},
+																									pos: position{line: 2894, col: 11, offset: 91557},
 																									expr: &anyMatcher{
-																										line: 2894, col: 13, offset: 91497,
+																										line: 2894, col: 13, offset: 91559,
 																									},
 																								},
 																								&zeroOrMoreExpr{
 																									pos: position{line: 677, col: 21, offset: 21532},
 																									expr: &actionExpr{
-																										pos: position{line: 2877, col: 10, offset: 91161},
+																										pos: position{line: 2877, col: 10, offset: 91223},
 																										run: (*parser).callonDocumentFragment666,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2877, col: 10, offset: 91161},
+																											pos:        position{line: 2877, col: 10, offset: 91223},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7215,28 +7215,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2899, col: 8, offset: 91559},
+																									pos: position{line: 2899, col: 8, offset: 91621},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2886, col: 12, offset: 91332},
+																											pos: position{line: 2886, col: 12, offset: 91394},
 																											run: (*parser).callonDocumentFragment669,
 																											expr: &choiceExpr{
-																												pos: position{line: 2886, col: 13, offset: 91333},
+																												pos: position{line: 2886, col: 13, offset: 91395},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 13, offset: 91333},
+																														pos:        position{line: 2886, col: 13, offset: 91395},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 20, offset: 91340},
+																														pos:        position{line: 2886, col: 20, offset: 91402},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 29, offset: 91349},
+																														pos:        position{line: 2886, col: 29, offset: 91411},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7245,9 +7245,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2896, col: 8, offset: 91509},
+																											pos: position{line: 2896, col: 8, offset: 91571},
 																											expr: &anyMatcher{
-																												line: 2896, col: 9, offset: 91510,
+																												line: 2896, col: 9, offset: 91572,
 																											},
 																										},
 																									},
@@ -7266,12 +7266,12 @@ var g = &grammar{
 																					pos:   position{line: 984, col: 5, offset: 30725},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2827, col: 14, offset: 89754},
+																						pos: position{line: 2827, col: 14, offset: 89816},
 																						run: (*parser).callonDocumentFragment678,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2827, col: 14, offset: 89754},
+																							pos: position{line: 2827, col: 14, offset: 89816},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2827, col: 14, offset: 89754},
+																								pos:        position{line: 2827, col: 14, offset: 89816},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7281,28 +7281,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2899, col: 8, offset: 91559},
+																					pos: position{line: 2899, col: 8, offset: 91621},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2886, col: 12, offset: 91332},
+																							pos: position{line: 2886, col: 12, offset: 91394},
 																							run: (*parser).callonDocumentFragment682,
 																							expr: &choiceExpr{
-																								pos: position{line: 2886, col: 13, offset: 91333},
+																								pos: position{line: 2886, col: 13, offset: 91395},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 13, offset: 91333},
+																										pos:        position{line: 2886, col: 13, offset: 91395},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 20, offset: 91340},
+																										pos:        position{line: 2886, col: 20, offset: 91402},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 29, offset: 91349},
+																										pos:        position{line: 2886, col: 29, offset: 91411},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7311,9 +7311,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2896, col: 8, offset: 91509},
+																							pos: position{line: 2896, col: 8, offset: 91571},
 																							expr: &anyMatcher{
-																								line: 2896, col: 9, offset: 91510,
+																								line: 2896, col: 9, offset: 91572,
 																							},
 																						},
 																					},
@@ -7331,12 +7331,12 @@ var g = &grammar{
 																					pos:   position{line: 1796, col: 5, offset: 58235},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2827, col: 14, offset: 89754},
+																						pos: position{line: 2827, col: 14, offset: 89816},
 																						run: (*parser).callonDocumentFragment692,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2827, col: 14, offset: 89754},
+																							pos: position{line: 2827, col: 14, offset: 89816},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2827, col: 14, offset: 89754},
+																								pos:        position{line: 2827, col: 14, offset: 89816},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7350,28 +7350,28 @@ var g = &grammar{
 																					run: (*parser).callonDocumentFragment695,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2899, col: 8, offset: 91559},
+																					pos: position{line: 2899, col: 8, offset: 91621},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2886, col: 12, offset: 91332},
+																							pos: position{line: 2886, col: 12, offset: 91394},
 																							run: (*parser).callonDocumentFragment697,
 																							expr: &choiceExpr{
-																								pos: position{line: 2886, col: 13, offset: 91333},
+																								pos: position{line: 2886, col: 13, offset: 91395},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 13, offset: 91333},
+																										pos:        position{line: 2886, col: 13, offset: 91395},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 20, offset: 91340},
+																										pos:        position{line: 2886, col: 20, offset: 91402},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 29, offset: 91349},
+																										pos:        position{line: 2886, col: 29, offset: 91411},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7380,9 +7380,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2896, col: 8, offset: 91509},
+																							pos: position{line: 2896, col: 8, offset: 91571},
 																							expr: &anyMatcher{
-																								line: 2896, col: 9, offset: 91510,
+																								line: 2896, col: 9, offset: 91572,
 																							},
 																						},
 																					},
@@ -7429,10 +7429,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 778, col: 8, offset: 24990},
 																		expr: &actionExpr{
-																			pos: position{line: 2877, col: 10, offset: 91161},
+																			pos: position{line: 2877, col: 10, offset: 91223},
 																			run: (*parser).callonDocumentFragment713,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 10, offset: 91161},
+																				pos:        position{line: 2877, col: 10, offset: 91223},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7441,28 +7441,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2899, col: 8, offset: 91559},
+																		pos: position{line: 2899, col: 8, offset: 91621},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91332},
+																				pos: position{line: 2886, col: 12, offset: 91394},
 																				run: (*parser).callonDocumentFragment716,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91333},
+																					pos: position{line: 2886, col: 13, offset: 91395},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91333},
+																							pos:        position{line: 2886, col: 13, offset: 91395},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91340},
+																							pos:        position{line: 2886, col: 20, offset: 91402},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91349},
+																							pos:        position{line: 2886, col: 29, offset: 91411},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7471,9 +7471,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2896, col: 8, offset: 91509},
+																				pos: position{line: 2896, col: 8, offset: 91571},
 																				expr: &anyMatcher{
-																					line: 2896, col: 9, offset: 91510,
+																					line: 2896, col: 9, offset: 91572,
 																				},
 																			},
 																		},
@@ -7521,10 +7521,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 778, col: 8, offset: 24990},
 																									expr: &actionExpr{
-																										pos: position{line: 2877, col: 10, offset: 91161},
+																										pos: position{line: 2877, col: 10, offset: 91223},
 																										run: (*parser).callonDocumentFragment735,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2877, col: 10, offset: 91161},
+																											pos:        position{line: 2877, col: 10, offset: 91223},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7533,28 +7533,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2899, col: 8, offset: 91559},
+																									pos: position{line: 2899, col: 8, offset: 91621},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2886, col: 12, offset: 91332},
+																											pos: position{line: 2886, col: 12, offset: 91394},
 																											run: (*parser).callonDocumentFragment738,
 																											expr: &choiceExpr{
-																												pos: position{line: 2886, col: 13, offset: 91333},
+																												pos: position{line: 2886, col: 13, offset: 91395},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 13, offset: 91333},
+																														pos:        position{line: 2886, col: 13, offset: 91395},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 20, offset: 91340},
+																														pos:        position{line: 2886, col: 20, offset: 91402},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 29, offset: 91349},
+																														pos:        position{line: 2886, col: 29, offset: 91411},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7563,9 +7563,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2896, col: 8, offset: 91509},
+																											pos: position{line: 2896, col: 8, offset: 91571},
 																											expr: &anyMatcher{
-																												line: 2896, col: 9, offset: 91510,
+																												line: 2896, col: 9, offset: 91572,
 																											},
 																										},
 																									},
@@ -7574,9 +7574,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2896, col: 8, offset: 91509},
+																						pos: position{line: 2896, col: 8, offset: 91571},
 																						expr: &anyMatcher{
-																							line: 2896, col: 9, offset: 91510,
+																							line: 2896, col: 9, offset: 91572,
 																						},
 																					},
 																				},
@@ -7592,21 +7592,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26129},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2894, col: 11, offset: 91495},
+																							pos: position{line: 2894, col: 11, offset: 91557},
 																							expr: &anyMatcher{
-																								line: 2894, col: 13, offset: 91497,
+																								line: 2894, col: 13, offset: 91559,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26204},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2823, col: 13, offset: 89687},
+																								pos: position{line: 2823, col: 13, offset: 89749},
 																								run: (*parser).callonDocumentFragment753,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2823, col: 13, offset: 89687},
+																									pos: position{line: 2823, col: 13, offset: 89749},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2823, col: 13, offset: 89687},
+																										pos:        position{line: 2823, col: 13, offset: 89749},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7616,28 +7616,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91559},
+																							pos: position{line: 2899, col: 8, offset: 91621},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91332},
+																									pos: position{line: 2886, col: 12, offset: 91394},
 																									run: (*parser).callonDocumentFragment757,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91333},
+																										pos: position{line: 2886, col: 13, offset: 91395},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91333},
+																												pos:        position{line: 2886, col: 13, offset: 91395},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91340},
+																												pos:        position{line: 2886, col: 20, offset: 91402},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91349},
+																												pos:        position{line: 2886, col: 29, offset: 91411},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7646,9 +7646,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91509},
+																									pos: position{line: 2896, col: 8, offset: 91571},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91510,
+																										line: 2896, col: 9, offset: 91572,
 																									},
 																								},
 																							},
@@ -7693,10 +7693,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 778, col: 8, offset: 24990},
 																					expr: &actionExpr{
-																						pos: position{line: 2877, col: 10, offset: 91161},
+																						pos: position{line: 2877, col: 10, offset: 91223},
 																						run: (*parser).callonDocumentFragment773,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2877, col: 10, offset: 91161},
+																							pos:        position{line: 2877, col: 10, offset: 91223},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7705,28 +7705,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2899, col: 8, offset: 91559},
+																					pos: position{line: 2899, col: 8, offset: 91621},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2886, col: 12, offset: 91332},
+																							pos: position{line: 2886, col: 12, offset: 91394},
 																							run: (*parser).callonDocumentFragment776,
 																							expr: &choiceExpr{
-																								pos: position{line: 2886, col: 13, offset: 91333},
+																								pos: position{line: 2886, col: 13, offset: 91395},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 13, offset: 91333},
+																										pos:        position{line: 2886, col: 13, offset: 91395},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 20, offset: 91340},
+																										pos:        position{line: 2886, col: 20, offset: 91402},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 29, offset: 91349},
+																										pos:        position{line: 2886, col: 29, offset: 91411},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7735,9 +7735,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2896, col: 8, offset: 91509},
+																							pos: position{line: 2896, col: 8, offset: 91571},
 																							expr: &anyMatcher{
-																								line: 2896, col: 9, offset: 91510,
+																								line: 2896, col: 9, offset: 91572,
 																							},
 																						},
 																					},
@@ -7746,9 +7746,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2896, col: 8, offset: 91509},
+																		pos: position{line: 2896, col: 8, offset: 91571},
 																		expr: &anyMatcher{
-																			line: 2896, col: 9, offset: 91510,
+																			line: 2896, col: 9, offset: 91572,
 																		},
 																	},
 																},
@@ -7804,10 +7804,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 792, col: 8, offset: 25487},
 																		expr: &actionExpr{
-																			pos: position{line: 2877, col: 10, offset: 91161},
+																			pos: position{line: 2877, col: 10, offset: 91223},
 																			run: (*parser).callonDocumentFragment797,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 10, offset: 91161},
+																				pos:        position{line: 2877, col: 10, offset: 91223},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7816,28 +7816,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2899, col: 8, offset: 91559},
+																		pos: position{line: 2899, col: 8, offset: 91621},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91332},
+																				pos: position{line: 2886, col: 12, offset: 91394},
 																				run: (*parser).callonDocumentFragment800,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91333},
+																					pos: position{line: 2886, col: 13, offset: 91395},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91333},
+																							pos:        position{line: 2886, col: 13, offset: 91395},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91340},
+																							pos:        position{line: 2886, col: 20, offset: 91402},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91349},
+																							pos:        position{line: 2886, col: 29, offset: 91411},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7846,9 +7846,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2896, col: 8, offset: 91509},
+																				pos: position{line: 2896, col: 8, offset: 91571},
 																				expr: &anyMatcher{
-																					line: 2896, col: 9, offset: 91510,
+																					line: 2896, col: 9, offset: 91572,
 																				},
 																			},
 																		},
@@ -7920,10 +7920,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 792, col: 8, offset: 25487},
 																												expr: &actionExpr{
-																													pos: position{line: 2877, col: 10, offset: 91161},
+																													pos: position{line: 2877, col: 10, offset: 91223},
 																													run: (*parser).callonDocumentFragment825,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2877, col: 10, offset: 91161},
+																														pos:        position{line: 2877, col: 10, offset: 91223},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7932,28 +7932,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2899, col: 8, offset: 91559},
+																												pos: position{line: 2899, col: 8, offset: 91621},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2886, col: 12, offset: 91332},
+																														pos: position{line: 2886, col: 12, offset: 91394},
 																														run: (*parser).callonDocumentFragment828,
 																														expr: &choiceExpr{
-																															pos: position{line: 2886, col: 13, offset: 91333},
+																															pos: position{line: 2886, col: 13, offset: 91395},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 13, offset: 91333},
+																																	pos:        position{line: 2886, col: 13, offset: 91395},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 20, offset: 91340},
+																																	pos:        position{line: 2886, col: 20, offset: 91402},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 29, offset: 91349},
+																																	pos:        position{line: 2886, col: 29, offset: 91411},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7962,9 +7962,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2896, col: 8, offset: 91509},
+																														pos: position{line: 2896, col: 8, offset: 91571},
 																														expr: &anyMatcher{
-																															line: 2896, col: 9, offset: 91510,
+																															line: 2896, col: 9, offset: 91572,
 																														},
 																													},
 																												},
@@ -7980,9 +7980,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2896, col: 8, offset: 91509},
+																						pos: position{line: 2896, col: 8, offset: 91571},
 																						expr: &anyMatcher{
-																							line: 2896, col: 9, offset: 91510,
+																							line: 2896, col: 9, offset: 91572,
 																						},
 																					},
 																				},
@@ -7998,21 +7998,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26129},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2894, col: 11, offset: 91495},
+																							pos: position{line: 2894, col: 11, offset: 91557},
 																							expr: &anyMatcher{
-																								line: 2894, col: 13, offset: 91497,
+																								line: 2894, col: 13, offset: 91559,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26204},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2823, col: 13, offset: 89687},
+																								pos: position{line: 2823, col: 13, offset: 89749},
 																								run: (*parser).callonDocumentFragment844,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2823, col: 13, offset: 89687},
+																									pos: position{line: 2823, col: 13, offset: 89749},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2823, col: 13, offset: 89687},
+																										pos:        position{line: 2823, col: 13, offset: 89749},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8022,28 +8022,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91559},
+																							pos: position{line: 2899, col: 8, offset: 91621},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91332},
+																									pos: position{line: 2886, col: 12, offset: 91394},
 																									run: (*parser).callonDocumentFragment848,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91333},
+																										pos: position{line: 2886, col: 13, offset: 91395},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91333},
+																												pos:        position{line: 2886, col: 13, offset: 91395},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91340},
+																												pos:        position{line: 2886, col: 20, offset: 91402},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91349},
+																												pos:        position{line: 2886, col: 29, offset: 91411},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8052,9 +8052,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91509},
+																									pos: position{line: 2896, col: 8, offset: 91571},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91510,
+																										line: 2896, col: 9, offset: 91572,
 																									},
 																								},
 																							},
@@ -8119,10 +8119,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 792, col: 8, offset: 25487},
 																								expr: &actionExpr{
-																									pos: position{line: 2877, col: 10, offset: 91161},
+																									pos: position{line: 2877, col: 10, offset: 91223},
 																									run: (*parser).callonDocumentFragment869,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 10, offset: 91161},
+																										pos:        position{line: 2877, col: 10, offset: 91223},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8131,28 +8131,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2899, col: 8, offset: 91559},
+																								pos: position{line: 2899, col: 8, offset: 91621},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2886, col: 12, offset: 91332},
+																										pos: position{line: 2886, col: 12, offset: 91394},
 																										run: (*parser).callonDocumentFragment872,
 																										expr: &choiceExpr{
-																											pos: position{line: 2886, col: 13, offset: 91333},
+																											pos: position{line: 2886, col: 13, offset: 91395},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 13, offset: 91333},
+																													pos:        position{line: 2886, col: 13, offset: 91395},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 20, offset: 91340},
+																													pos:        position{line: 2886, col: 20, offset: 91402},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 29, offset: 91349},
+																													pos:        position{line: 2886, col: 29, offset: 91411},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8161,9 +8161,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2896, col: 8, offset: 91509},
+																										pos: position{line: 2896, col: 8, offset: 91571},
 																										expr: &anyMatcher{
-																											line: 2896, col: 9, offset: 91510,
+																											line: 2896, col: 9, offset: 91572,
 																										},
 																									},
 																								},
@@ -8179,9 +8179,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2896, col: 8, offset: 91509},
+																		pos: position{line: 2896, col: 8, offset: 91571},
 																		expr: &anyMatcher{
-																			line: 2896, col: 9, offset: 91510,
+																			line: 2896, col: 9, offset: 91572,
 																		},
 																	},
 																},
@@ -8237,10 +8237,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 799, col: 8, offset: 25737},
 																		expr: &actionExpr{
-																			pos: position{line: 2877, col: 10, offset: 91161},
+																			pos: position{line: 2877, col: 10, offset: 91223},
 																			run: (*parser).callonDocumentFragment894,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 10, offset: 91161},
+																				pos:        position{line: 2877, col: 10, offset: 91223},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8249,28 +8249,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2899, col: 8, offset: 91559},
+																		pos: position{line: 2899, col: 8, offset: 91621},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91332},
+																				pos: position{line: 2886, col: 12, offset: 91394},
 																				run: (*parser).callonDocumentFragment897,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91333},
+																					pos: position{line: 2886, col: 13, offset: 91395},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91333},
+																							pos:        position{line: 2886, col: 13, offset: 91395},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91340},
+																							pos:        position{line: 2886, col: 20, offset: 91402},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91349},
+																							pos:        position{line: 2886, col: 29, offset: 91411},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8279,9 +8279,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2896, col: 8, offset: 91509},
+																				pos: position{line: 2896, col: 8, offset: 91571},
 																				expr: &anyMatcher{
-																					line: 2896, col: 9, offset: 91510,
+																					line: 2896, col: 9, offset: 91572,
 																				},
 																			},
 																		},
@@ -8353,10 +8353,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 799, col: 8, offset: 25737},
 																												expr: &actionExpr{
-																													pos: position{line: 2877, col: 10, offset: 91161},
+																													pos: position{line: 2877, col: 10, offset: 91223},
 																													run: (*parser).callonDocumentFragment922,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2877, col: 10, offset: 91161},
+																														pos:        position{line: 2877, col: 10, offset: 91223},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8365,28 +8365,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2899, col: 8, offset: 91559},
+																												pos: position{line: 2899, col: 8, offset: 91621},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2886, col: 12, offset: 91332},
+																														pos: position{line: 2886, col: 12, offset: 91394},
 																														run: (*parser).callonDocumentFragment925,
 																														expr: &choiceExpr{
-																															pos: position{line: 2886, col: 13, offset: 91333},
+																															pos: position{line: 2886, col: 13, offset: 91395},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 13, offset: 91333},
+																																	pos:        position{line: 2886, col: 13, offset: 91395},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 20, offset: 91340},
+																																	pos:        position{line: 2886, col: 20, offset: 91402},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 29, offset: 91349},
+																																	pos:        position{line: 2886, col: 29, offset: 91411},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8395,9 +8395,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2896, col: 8, offset: 91509},
+																														pos: position{line: 2896, col: 8, offset: 91571},
 																														expr: &anyMatcher{
-																															line: 2896, col: 9, offset: 91510,
+																															line: 2896, col: 9, offset: 91572,
 																														},
 																													},
 																												},
@@ -8413,9 +8413,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2896, col: 8, offset: 91509},
+																						pos: position{line: 2896, col: 8, offset: 91571},
 																						expr: &anyMatcher{
-																							line: 2896, col: 9, offset: 91510,
+																							line: 2896, col: 9, offset: 91572,
 																						},
 																					},
 																				},
@@ -8431,21 +8431,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26129},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2894, col: 11, offset: 91495},
+																							pos: position{line: 2894, col: 11, offset: 91557},
 																							expr: &anyMatcher{
-																								line: 2894, col: 13, offset: 91497,
+																								line: 2894, col: 13, offset: 91559,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26204},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2823, col: 13, offset: 89687},
+																								pos: position{line: 2823, col: 13, offset: 89749},
 																								run: (*parser).callonDocumentFragment941,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2823, col: 13, offset: 89687},
+																									pos: position{line: 2823, col: 13, offset: 89749},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2823, col: 13, offset: 89687},
+																										pos:        position{line: 2823, col: 13, offset: 89749},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8455,28 +8455,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91559},
+																							pos: position{line: 2899, col: 8, offset: 91621},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91332},
+																									pos: position{line: 2886, col: 12, offset: 91394},
 																									run: (*parser).callonDocumentFragment945,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91333},
+																										pos: position{line: 2886, col: 13, offset: 91395},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91333},
+																												pos:        position{line: 2886, col: 13, offset: 91395},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91340},
+																												pos:        position{line: 2886, col: 20, offset: 91402},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91349},
+																												pos:        position{line: 2886, col: 29, offset: 91411},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8485,9 +8485,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91509},
+																									pos: position{line: 2896, col: 8, offset: 91571},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91510,
+																										line: 2896, col: 9, offset: 91572,
 																									},
 																								},
 																							},
@@ -8552,10 +8552,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 799, col: 8, offset: 25737},
 																								expr: &actionExpr{
-																									pos: position{line: 2877, col: 10, offset: 91161},
+																									pos: position{line: 2877, col: 10, offset: 91223},
 																									run: (*parser).callonDocumentFragment966,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 10, offset: 91161},
+																										pos:        position{line: 2877, col: 10, offset: 91223},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8564,28 +8564,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2899, col: 8, offset: 91559},
+																								pos: position{line: 2899, col: 8, offset: 91621},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2886, col: 12, offset: 91332},
+																										pos: position{line: 2886, col: 12, offset: 91394},
 																										run: (*parser).callonDocumentFragment969,
 																										expr: &choiceExpr{
-																											pos: position{line: 2886, col: 13, offset: 91333},
+																											pos: position{line: 2886, col: 13, offset: 91395},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 13, offset: 91333},
+																													pos:        position{line: 2886, col: 13, offset: 91395},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 20, offset: 91340},
+																													pos:        position{line: 2886, col: 20, offset: 91402},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 29, offset: 91349},
+																													pos:        position{line: 2886, col: 29, offset: 91411},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8594,9 +8594,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2896, col: 8, offset: 91509},
+																										pos: position{line: 2896, col: 8, offset: 91571},
 																										expr: &anyMatcher{
-																											line: 2896, col: 9, offset: 91510,
+																											line: 2896, col: 9, offset: 91572,
 																										},
 																									},
 																								},
@@ -8612,9 +8612,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2896, col: 8, offset: 91509},
+																		pos: position{line: 2896, col: 8, offset: 91571},
 																		expr: &anyMatcher{
-																			line: 2896, col: 9, offset: 91510,
+																			line: 2896, col: 9, offset: 91572,
 																		},
 																	},
 																},
@@ -8670,10 +8670,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 806, col: 8, offset: 25983},
 																		expr: &actionExpr{
-																			pos: position{line: 2877, col: 10, offset: 91161},
+																			pos: position{line: 2877, col: 10, offset: 91223},
 																			run: (*parser).callonDocumentFragment991,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 10, offset: 91161},
+																				pos:        position{line: 2877, col: 10, offset: 91223},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8682,28 +8682,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2899, col: 8, offset: 91559},
+																		pos: position{line: 2899, col: 8, offset: 91621},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91332},
+																				pos: position{line: 2886, col: 12, offset: 91394},
 																				run: (*parser).callonDocumentFragment994,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91333},
+																					pos: position{line: 2886, col: 13, offset: 91395},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91333},
+																							pos:        position{line: 2886, col: 13, offset: 91395},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91340},
+																							pos:        position{line: 2886, col: 20, offset: 91402},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91349},
+																							pos:        position{line: 2886, col: 29, offset: 91411},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8712,9 +8712,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2896, col: 8, offset: 91509},
+																				pos: position{line: 2896, col: 8, offset: 91571},
 																				expr: &anyMatcher{
-																					line: 2896, col: 9, offset: 91510,
+																					line: 2896, col: 9, offset: 91572,
 																				},
 																			},
 																		},
@@ -8786,10 +8786,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 806, col: 8, offset: 25983},
 																												expr: &actionExpr{
-																													pos: position{line: 2877, col: 10, offset: 91161},
+																													pos: position{line: 2877, col: 10, offset: 91223},
 																													run: (*parser).callonDocumentFragment1019,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2877, col: 10, offset: 91161},
+																														pos:        position{line: 2877, col: 10, offset: 91223},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8798,28 +8798,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2899, col: 8, offset: 91559},
+																												pos: position{line: 2899, col: 8, offset: 91621},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2886, col: 12, offset: 91332},
+																														pos: position{line: 2886, col: 12, offset: 91394},
 																														run: (*parser).callonDocumentFragment1022,
 																														expr: &choiceExpr{
-																															pos: position{line: 2886, col: 13, offset: 91333},
+																															pos: position{line: 2886, col: 13, offset: 91395},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 13, offset: 91333},
+																																	pos:        position{line: 2886, col: 13, offset: 91395},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 20, offset: 91340},
+																																	pos:        position{line: 2886, col: 20, offset: 91402},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 29, offset: 91349},
+																																	pos:        position{line: 2886, col: 29, offset: 91411},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8828,9 +8828,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2896, col: 8, offset: 91509},
+																														pos: position{line: 2896, col: 8, offset: 91571},
 																														expr: &anyMatcher{
-																															line: 2896, col: 9, offset: 91510,
+																															line: 2896, col: 9, offset: 91572,
 																														},
 																													},
 																												},
@@ -8846,9 +8846,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2896, col: 8, offset: 91509},
+																						pos: position{line: 2896, col: 8, offset: 91571},
 																						expr: &anyMatcher{
-																							line: 2896, col: 9, offset: 91510,
+																							line: 2896, col: 9, offset: 91572,
 																						},
 																					},
 																				},
@@ -8864,21 +8864,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26129},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2894, col: 11, offset: 91495},
+																							pos: position{line: 2894, col: 11, offset: 91557},
 																							expr: &anyMatcher{
-																								line: 2894, col: 13, offset: 91497,
+																								line: 2894, col: 13, offset: 91559,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26204},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2823, col: 13, offset: 89687},
+																								pos: position{line: 2823, col: 13, offset: 89749},
 																								run: (*parser).callonDocumentFragment1038,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2823, col: 13, offset: 89687},
+																									pos: position{line: 2823, col: 13, offset: 89749},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2823, col: 13, offset: 89687},
+																										pos:        position{line: 2823, col: 13, offset: 89749},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8888,28 +8888,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91559},
+																							pos: position{line: 2899, col: 8, offset: 91621},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91332},
+																									pos: position{line: 2886, col: 12, offset: 91394},
 																									run: (*parser).callonDocumentFragment1042,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91333},
+																										pos: position{line: 2886, col: 13, offset: 91395},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91333},
+																												pos:        position{line: 2886, col: 13, offset: 91395},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91340},
+																												pos:        position{line: 2886, col: 20, offset: 91402},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91349},
+																												pos:        position{line: 2886, col: 29, offset: 91411},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8918,9 +8918,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91509},
+																									pos: position{line: 2896, col: 8, offset: 91571},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91510,
+																										line: 2896, col: 9, offset: 91572,
 																									},
 																								},
 																							},
@@ -8985,10 +8985,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 806, col: 8, offset: 25983},
 																								expr: &actionExpr{
-																									pos: position{line: 2877, col: 10, offset: 91161},
+																									pos: position{line: 2877, col: 10, offset: 91223},
 																									run: (*parser).callonDocumentFragment1063,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 10, offset: 91161},
+																										pos:        position{line: 2877, col: 10, offset: 91223},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8997,28 +8997,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2899, col: 8, offset: 91559},
+																								pos: position{line: 2899, col: 8, offset: 91621},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2886, col: 12, offset: 91332},
+																										pos: position{line: 2886, col: 12, offset: 91394},
 																										run: (*parser).callonDocumentFragment1066,
 																										expr: &choiceExpr{
-																											pos: position{line: 2886, col: 13, offset: 91333},
+																											pos: position{line: 2886, col: 13, offset: 91395},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 13, offset: 91333},
+																													pos:        position{line: 2886, col: 13, offset: 91395},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 20, offset: 91340},
+																													pos:        position{line: 2886, col: 20, offset: 91402},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 29, offset: 91349},
+																													pos:        position{line: 2886, col: 29, offset: 91411},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -9027,9 +9027,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2896, col: 8, offset: 91509},
+																										pos: position{line: 2896, col: 8, offset: 91571},
 																										expr: &anyMatcher{
-																											line: 2896, col: 9, offset: 91510,
+																											line: 2896, col: 9, offset: 91572,
 																										},
 																									},
 																								},
@@ -9045,9 +9045,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2896, col: 8, offset: 91509},
+																		pos: position{line: 2896, col: 8, offset: 91571},
 																		expr: &anyMatcher{
-																			line: 2896, col: 9, offset: 91510,
+																			line: 2896, col: 9, offset: 91572,
 																		},
 																	},
 																},
@@ -9058,52 +9058,52 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2722, col: 18, offset: 86735},
+											pos: position{line: 2722, col: 18, offset: 86797},
 											run: (*parser).callonDocumentFragment1076,
 											expr: &seqExpr{
-												pos: position{line: 2722, col: 18, offset: 86735},
+												pos: position{line: 2722, col: 18, offset: 86797},
 												exprs: []interface{}{
 													&choiceExpr{
-														pos: position{line: 2723, col: 9, offset: 86745},
+														pos: position{line: 2723, col: 9, offset: 86807},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2723, col: 9, offset: 86745},
+																pos:        position{line: 2723, col: 9, offset: 86807},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2724, col: 11, offset: 86781},
+																pos:        position{line: 2724, col: 11, offset: 86843},
 																val:        "***",
 																ignoreCase: false,
 																want:       "\"***\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2724, col: 19, offset: 86789},
+																pos:        position{line: 2724, col: 19, offset: 86851},
 																val:        "* * *",
 																ignoreCase: false,
 																want:       "\"* * *\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2724, col: 29, offset: 86799},
+																pos:        position{line: 2724, col: 29, offset: 86861},
 																val:        "---",
 																ignoreCase: false,
 																want:       "\"---\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2724, col: 37, offset: 86807},
+																pos:        position{line: 2724, col: 37, offset: 86869},
 																val:        "- - -",
 																ignoreCase: false,
 																want:       "\"- - -\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2724, col: 47, offset: 86817},
+																pos:        position{line: 2724, col: 47, offset: 86879},
 																val:        "___",
 																ignoreCase: false,
 																want:       "\"___\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2724, col: 55, offset: 86825},
+																pos:        position{line: 2724, col: 55, offset: 86887},
 																val:        "_ _ _",
 																ignoreCase: false,
 																want:       "\"_ _ _\"",
@@ -9111,12 +9111,12 @@ var g = &grammar{
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2725, col: 11, offset: 86871},
+														pos: position{line: 2725, col: 11, offset: 86933},
 														expr: &actionExpr{
-															pos: position{line: 2877, col: 10, offset: 91161},
+															pos: position{line: 2877, col: 10, offset: 91223},
 															run: (*parser).callonDocumentFragment1087,
 															expr: &charClassMatcher{
-																pos:        position{line: 2877, col: 10, offset: 91161},
+																pos:        position{line: 2877, col: 10, offset: 91223},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9125,28 +9125,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2899, col: 8, offset: 91559},
+														pos: position{line: 2899, col: 8, offset: 91621},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2886, col: 12, offset: 91332},
+																pos: position{line: 2886, col: 12, offset: 91394},
 																run: (*parser).callonDocumentFragment1090,
 																expr: &choiceExpr{
-																	pos: position{line: 2886, col: 13, offset: 91333},
+																	pos: position{line: 2886, col: 13, offset: 91395},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 13, offset: 91333},
+																			pos:        position{line: 2886, col: 13, offset: 91395},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 20, offset: 91340},
+																			pos:        position{line: 2886, col: 20, offset: 91402},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 29, offset: 91349},
+																			pos:        position{line: 2886, col: 29, offset: 91411},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9155,20 +9155,20 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2896, col: 8, offset: 91509},
+																pos: position{line: 2896, col: 8, offset: 91571},
 																expr: &anyMatcher{
-																	line: 2896, col: 9, offset: 91510,
+																	line: 2896, col: 9, offset: 91572,
 																},
 															},
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2725, col: 22, offset: 86882},
+														pos: position{line: 2725, col: 22, offset: 86944},
 														expr: &actionExpr{
-															pos: position{line: 2877, col: 10, offset: 91161},
+															pos: position{line: 2877, col: 10, offset: 91223},
 															run: (*parser).callonDocumentFragment1098,
 															expr: &charClassMatcher{
-																pos:        position{line: 2877, col: 10, offset: 91161},
+																pos:        position{line: 2877, col: 10, offset: 91223},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9177,28 +9177,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2899, col: 8, offset: 91559},
+														pos: position{line: 2899, col: 8, offset: 91621},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2886, col: 12, offset: 91332},
+																pos: position{line: 2886, col: 12, offset: 91394},
 																run: (*parser).callonDocumentFragment1101,
 																expr: &choiceExpr{
-																	pos: position{line: 2886, col: 13, offset: 91333},
+																	pos: position{line: 2886, col: 13, offset: 91395},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 13, offset: 91333},
+																			pos:        position{line: 2886, col: 13, offset: 91395},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 20, offset: 91340},
+																			pos:        position{line: 2886, col: 20, offset: 91402},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 29, offset: 91349},
+																			pos:        position{line: 2886, col: 29, offset: 91411},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9207,9 +9207,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2896, col: 8, offset: 91509},
+																pos: position{line: 2896, col: 8, offset: 91571},
 																expr: &anyMatcher{
-																	line: 2896, col: 9, offset: 91510,
+																	line: 2896, col: 9, offset: 91572,
 																},
 															},
 														},
@@ -9222,24 +9222,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2613, col: 5, offset: 83671},
+											pos: position{line: 2613, col: 5, offset: 83733},
 											run: (*parser).callonDocumentFragment1109,
 											expr: &seqExpr{
-												pos: position{line: 2613, col: 5, offset: 83671},
+												pos: position{line: 2613, col: 5, offset: 83733},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2619, col: 19, offset: 83828},
+														pos:        position{line: 2619, col: 19, offset: 83890},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2619, col: 26, offset: 83835},
+														pos: position{line: 2619, col: 26, offset: 83897},
 														expr: &actionExpr{
-															pos: position{line: 2877, col: 10, offset: 91161},
+															pos: position{line: 2877, col: 10, offset: 91223},
 															run: (*parser).callonDocumentFragment1113,
 															expr: &charClassMatcher{
-																pos:        position{line: 2877, col: 10, offset: 91161},
+																pos:        position{line: 2877, col: 10, offset: 91223},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9248,28 +9248,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2899, col: 8, offset: 91559},
+														pos: position{line: 2899, col: 8, offset: 91621},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2886, col: 12, offset: 91332},
+																pos: position{line: 2886, col: 12, offset: 91394},
 																run: (*parser).callonDocumentFragment1116,
 																expr: &choiceExpr{
-																	pos: position{line: 2886, col: 13, offset: 91333},
+																	pos: position{line: 2886, col: 13, offset: 91395},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 13, offset: 91333},
+																			pos:        position{line: 2886, col: 13, offset: 91395},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 20, offset: 91340},
+																			pos:        position{line: 2886, col: 20, offset: 91402},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 29, offset: 91349},
+																			pos:        position{line: 2886, col: 29, offset: 91411},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9278,20 +9278,20 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2896, col: 8, offset: 91509},
+																pos: position{line: 2896, col: 8, offset: 91571},
 																expr: &anyMatcher{
-																	line: 2896, col: 9, offset: 91510,
+																	line: 2896, col: 9, offset: 91572,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2614, col: 5, offset: 83695},
+														pos:   position{line: 2614, col: 5, offset: 83757},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2614, col: 11, offset: 83701},
+															pos: position{line: 2614, col: 11, offset: 83763},
 															expr: &choiceExpr{
-																pos: position{line: 2614, col: 12, offset: 83702},
+																pos: position{line: 2614, col: 12, offset: 83764},
 																alternatives: []interface{}{
 																	&actionExpr{
 																		pos: position{line: 677, col: 14, offset: 21525},
@@ -9300,18 +9300,18 @@ var g = &grammar{
 																			pos: position{line: 677, col: 14, offset: 21525},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2894, col: 11, offset: 91495},
+																					pos: position{line: 2894, col: 11, offset: 91557},
 																					expr: &anyMatcher{
-																						line: 2894, col: 13, offset: 91497,
+																						line: 2894, col: 13, offset: 91559,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21532},
 																					expr: &actionExpr{
-																						pos: position{line: 2877, col: 10, offset: 91161},
+																						pos: position{line: 2877, col: 10, offset: 91223},
 																						run: (*parser).callonDocumentFragment1131,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2877, col: 10, offset: 91161},
+																							pos:        position{line: 2877, col: 10, offset: 91223},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9320,28 +9320,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2899, col: 8, offset: 91559},
+																					pos: position{line: 2899, col: 8, offset: 91621},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2886, col: 12, offset: 91332},
+																							pos: position{line: 2886, col: 12, offset: 91394},
 																							run: (*parser).callonDocumentFragment1134,
 																							expr: &choiceExpr{
-																								pos: position{line: 2886, col: 13, offset: 91333},
+																								pos: position{line: 2886, col: 13, offset: 91395},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 13, offset: 91333},
+																										pos:        position{line: 2886, col: 13, offset: 91395},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 20, offset: 91340},
+																										pos:        position{line: 2886, col: 20, offset: 91402},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 29, offset: 91349},
+																										pos:        position{line: 2886, col: 29, offset: 91411},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9350,9 +9350,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2896, col: 8, offset: 91509},
+																							pos: position{line: 2896, col: 8, offset: 91571},
 																							expr: &anyMatcher{
-																								line: 2896, col: 9, offset: 91510,
+																								line: 2896, col: 9, offset: 91572,
 																							},
 																						},
 																					},
@@ -9361,32 +9361,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2626, col: 5, offset: 83947},
+																		pos: position{line: 2626, col: 5, offset: 84009},
 																		run: (*parser).callonDocumentFragment1141,
 																		expr: &seqExpr{
-																			pos: position{line: 2626, col: 5, offset: 83947},
+																			pos: position{line: 2626, col: 5, offset: 84009},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2626, col: 5, offset: 83947},
+																					pos: position{line: 2626, col: 5, offset: 84009},
 																					expr: &choiceExpr{
-																						pos: position{line: 2623, col: 22, offset: 83908},
+																						pos: position{line: 2623, col: 22, offset: 83970},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2619, col: 19, offset: 83828},
+																								pos: position{line: 2619, col: 19, offset: 83890},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2619, col: 19, offset: 83828},
+																										pos:        position{line: 2619, col: 19, offset: 83890},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2619, col: 26, offset: 83835},
+																										pos: position{line: 2619, col: 26, offset: 83897},
 																										expr: &actionExpr{
-																											pos: position{line: 2877, col: 10, offset: 91161},
+																											pos: position{line: 2877, col: 10, offset: 91223},
 																											run: (*parser).callonDocumentFragment1148,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2877, col: 10, offset: 91161},
+																												pos:        position{line: 2877, col: 10, offset: 91223},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9395,28 +9395,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2899, col: 8, offset: 91559},
+																										pos: position{line: 2899, col: 8, offset: 91621},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2886, col: 12, offset: 91332},
+																												pos: position{line: 2886, col: 12, offset: 91394},
 																												run: (*parser).callonDocumentFragment1151,
 																												expr: &choiceExpr{
-																													pos: position{line: 2886, col: 13, offset: 91333},
+																													pos: position{line: 2886, col: 13, offset: 91395},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2886, col: 13, offset: 91333},
+																															pos:        position{line: 2886, col: 13, offset: 91395},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2886, col: 20, offset: 91340},
+																															pos:        position{line: 2886, col: 20, offset: 91402},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2886, col: 29, offset: 91349},
+																															pos:        position{line: 2886, col: 29, offset: 91411},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9425,9 +9425,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2896, col: 8, offset: 91509},
+																												pos: position{line: 2896, col: 8, offset: 91571},
 																												expr: &anyMatcher{
-																													line: 2896, col: 9, offset: 91510,
+																													line: 2896, col: 9, offset: 91572,
 																												},
 																											},
 																										},
@@ -9435,59 +9435,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91509},
+																								pos: position{line: 2896, col: 8, offset: 91571},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91510,
+																									line: 2896, col: 9, offset: 91572,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2627, col: 5, offset: 83970},
+																					pos:   position{line: 2627, col: 5, offset: 84032},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2628, col: 9, offset: 83988},
+																						pos: position{line: 2628, col: 9, offset: 84050},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2628, col: 10, offset: 83989},
+																								pos: position{line: 2628, col: 10, offset: 84051},
 																								run: (*parser).callonDocumentFragment1162,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2628, col: 10, offset: 83989},
+																									pos:   position{line: 2628, col: 10, offset: 84051},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2628, col: 17, offset: 83996},
+																										pos: position{line: 2628, col: 17, offset: 84058},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2636, col: 21, offset: 84192},
+																												pos: position{line: 2636, col: 21, offset: 84254},
 																												run: (*parser).callonDocumentFragment1165,
 																												expr: &seqExpr{
-																													pos: position{line: 2636, col: 21, offset: 84192},
+																													pos: position{line: 2636, col: 21, offset: 84254},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2636, col: 21, offset: 84192},
+																															pos:   position{line: 2636, col: 21, offset: 84254},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2636, col: 27, offset: 84198},
+																																pos: position{line: 2636, col: 27, offset: 84260},
 																																expr: &actionExpr{
-																																	pos: position{line: 2641, col: 5, offset: 84273},
+																																	pos: position{line: 2641, col: 5, offset: 84335},
 																																	run: (*parser).callonDocumentFragment1169,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2641, col: 5, offset: 84273},
+																																		pos: position{line: 2641, col: 5, offset: 84335},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2641, col: 5, offset: 84273},
+																																				pos:        position{line: 2641, col: 5, offset: 84335},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2641, col: 9, offset: 84277},
+																																				pos: position{line: 2641, col: 9, offset: 84339},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2877, col: 10, offset: 91161},
+																																					pos: position{line: 2877, col: 10, offset: 91223},
 																																					run: (*parser).callonDocumentFragment1173,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2877, col: 10, offset: 91161},
+																																						pos:        position{line: 2877, col: 10, offset: 91223},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9496,21 +9496,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2641, col: 16, offset: 84284},
+																																				pos:   position{line: 2641, col: 16, offset: 84346},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2647, col: 5, offset: 84484},
+																																					pos: position{line: 2647, col: 5, offset: 84546},
 																																					run: (*parser).callonDocumentFragment1176,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2647, col: 5, offset: 84484},
+																																						pos:   position{line: 2647, col: 5, offset: 84546},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2647, col: 14, offset: 84493},
+																																							pos: position{line: 2647, col: 14, offset: 84555},
 																																							run: (*parser).callonDocumentFragment1178,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2647, col: 14, offset: 84493},
+																																								pos: position{line: 2647, col: 14, offset: 84555},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2647, col: 14, offset: 84493},
+																																									pos:        position{line: 2647, col: 14, offset: 84555},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9527,28 +9527,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2899, col: 8, offset: 91559},
+																															pos: position{line: 2899, col: 8, offset: 91621},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2886, col: 12, offset: 91332},
+																																	pos: position{line: 2886, col: 12, offset: 91394},
 																																	run: (*parser).callonDocumentFragment1182,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2886, col: 13, offset: 91333},
+																																		pos: position{line: 2886, col: 13, offset: 91395},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2886, col: 13, offset: 91333},
+																																				pos:        position{line: 2886, col: 13, offset: 91395},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2886, col: 20, offset: 91340},
+																																				pos:        position{line: 2886, col: 20, offset: 91402},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2886, col: 29, offset: 91349},
+																																				pos:        position{line: 2886, col: 29, offset: 91411},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9557,9 +9557,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2896, col: 8, offset: 91509},
+																																	pos: position{line: 2896, col: 8, offset: 91571},
 																																	expr: &anyMatcher{
-																																		line: 2896, col: 9, offset: 91510,
+																																		line: 2896, col: 9, offset: 91572,
 																																	},
 																																},
 																															},
@@ -9568,40 +9568,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2653, col: 24, offset: 84629},
+																												pos: position{line: 2653, col: 24, offset: 84691},
 																												run: (*parser).callonDocumentFragment1189,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2653, col: 24, offset: 84629},
+																													pos:   position{line: 2653, col: 24, offset: 84691},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2653, col: 30, offset: 84635},
+																														pos: position{line: 2653, col: 30, offset: 84697},
 																														expr: &actionExpr{
-																															pos: position{line: 2658, col: 5, offset: 84711},
+																															pos: position{line: 2658, col: 5, offset: 84773},
 																															run: (*parser).callonDocumentFragment1192,
 																															expr: &seqExpr{
-																																pos: position{line: 2658, col: 5, offset: 84711},
+																																pos: position{line: 2658, col: 5, offset: 84773},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2658, col: 5, offset: 84711},
+																																		pos: position{line: 2658, col: 5, offset: 84773},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2623, col: 22, offset: 83908},
+																																			pos: position{line: 2623, col: 22, offset: 83970},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2619, col: 19, offset: 83828},
+																																					pos: position{line: 2619, col: 19, offset: 83890},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2619, col: 19, offset: 83828},
+																																							pos:        position{line: 2619, col: 19, offset: 83890},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2619, col: 26, offset: 83835},
+																																							pos: position{line: 2619, col: 26, offset: 83897},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2877, col: 10, offset: 91161},
+																																								pos: position{line: 2877, col: 10, offset: 91223},
 																																								run: (*parser).callonDocumentFragment1199,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2877, col: 10, offset: 91161},
+																																									pos:        position{line: 2877, col: 10, offset: 91223},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9610,28 +9610,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2899, col: 8, offset: 91559},
+																																							pos: position{line: 2899, col: 8, offset: 91621},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2886, col: 12, offset: 91332},
+																																									pos: position{line: 2886, col: 12, offset: 91394},
 																																									run: (*parser).callonDocumentFragment1202,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2886, col: 13, offset: 91333},
+																																										pos: position{line: 2886, col: 13, offset: 91395},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2886, col: 13, offset: 91333},
+																																												pos:        position{line: 2886, col: 13, offset: 91395},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2886, col: 20, offset: 91340},
+																																												pos:        position{line: 2886, col: 20, offset: 91402},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2886, col: 29, offset: 91349},
+																																												pos:        position{line: 2886, col: 29, offset: 91411},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9640,9 +9640,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2896, col: 8, offset: 91509},
+																																									pos: position{line: 2896, col: 8, offset: 91571},
 																																									expr: &anyMatcher{
-																																										line: 2896, col: 9, offset: 91510,
+																																										line: 2896, col: 9, offset: 91572,
 																																									},
 																																								},
 																																							},
@@ -9650,16 +9650,16 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2896, col: 8, offset: 91509},
+																																					pos: position{line: 2896, col: 8, offset: 91571},
 																																					expr: &anyMatcher{
-																																						line: 2896, col: 9, offset: 91510,
+																																						line: 2896, col: 9, offset: 91572,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2659, col: 5, offset: 84734},
+																																		pos: position{line: 2659, col: 5, offset: 84796},
 																																		expr: &actionExpr{
 																																			pos: position{line: 677, col: 14, offset: 21525},
 																																			run: (*parser).callonDocumentFragment1212,
@@ -9667,18 +9667,18 @@ var g = &grammar{
 																																				pos: position{line: 677, col: 14, offset: 21525},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2894, col: 11, offset: 91495},
+																																						pos: position{line: 2894, col: 11, offset: 91557},
 																																						expr: &anyMatcher{
-																																							line: 2894, col: 13, offset: 91497,
+																																							line: 2894, col: 13, offset: 91559,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
 																																						pos: position{line: 677, col: 21, offset: 21532},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2877, col: 10, offset: 91161},
+																																							pos: position{line: 2877, col: 10, offset: 91223},
 																																							run: (*parser).callonDocumentFragment1217,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2877, col: 10, offset: 91161},
+																																								pos:        position{line: 2877, col: 10, offset: 91223},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9687,28 +9687,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2899, col: 8, offset: 91559},
+																																						pos: position{line: 2899, col: 8, offset: 91621},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2886, col: 12, offset: 91332},
+																																								pos: position{line: 2886, col: 12, offset: 91394},
 																																								run: (*parser).callonDocumentFragment1220,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2886, col: 13, offset: 91333},
+																																									pos: position{line: 2886, col: 13, offset: 91395},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2886, col: 13, offset: 91333},
+																																											pos:        position{line: 2886, col: 13, offset: 91395},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2886, col: 20, offset: 91340},
+																																											pos:        position{line: 2886, col: 20, offset: 91402},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2886, col: 29, offset: 91349},
+																																											pos:        position{line: 2886, col: 29, offset: 91411},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9717,9 +9717,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2896, col: 8, offset: 91509},
+																																								pos: position{line: 2896, col: 8, offset: 91571},
 																																								expr: &anyMatcher{
-																																									line: 2896, col: 9, offset: 91510,
+																																									line: 2896, col: 9, offset: 91572,
 																																								},
 																																							},
 																																						},
@@ -9729,17 +9729,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2660, col: 5, offset: 84749},
+																																		pos:   position{line: 2660, col: 5, offset: 84811},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2660, col: 12, offset: 84756},
+																																			pos: position{line: 2660, col: 12, offset: 84818},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2677, col: 20, offset: 85220},
+																																				pos: position{line: 2677, col: 20, offset: 85282},
 																																				run: (*parser).callonDocumentFragment1229,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2677, col: 20, offset: 85220},
+																																					pos: position{line: 2677, col: 20, offset: 85282},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2677, col: 20, offset: 85220},
+																																						pos:        position{line: 2677, col: 20, offset: 85282},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9750,18 +9750,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2660, col: 31, offset: 84775},
+																																		pos:        position{line: 2660, col: 31, offset: 84837},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2660, col: 35, offset: 84779},
+																																		pos: position{line: 2660, col: 35, offset: 84841},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2877, col: 10, offset: 91161},
+																																			pos: position{line: 2877, col: 10, offset: 91223},
 																																			run: (*parser).callonDocumentFragment1234,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2877, col: 10, offset: 91161},
+																																				pos:        position{line: 2877, col: 10, offset: 91223},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9770,27 +9770,27 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2660, col: 42, offset: 84786},
+																																		pos: position{line: 2660, col: 42, offset: 84848},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2886, col: 12, offset: 91332},
+																																			pos: position{line: 2886, col: 12, offset: 91394},
 																																			run: (*parser).callonDocumentFragment1237,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2886, col: 13, offset: 91333},
+																																				pos: position{line: 2886, col: 13, offset: 91395},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2886, col: 13, offset: 91333},
+																																						pos:        position{line: 2886, col: 13, offset: 91395},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2886, col: 20, offset: 91340},
+																																						pos:        position{line: 2886, col: 20, offset: 91402},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2886, col: 29, offset: 91349},
+																																						pos:        position{line: 2886, col: 29, offset: 91411},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9800,37 +9800,37 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2660, col: 51, offset: 84795},
+																																		pos:   position{line: 2660, col: 51, offset: 84857},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2666, col: 5, offset: 84954},
+																																			pos: position{line: 2666, col: 5, offset: 85016},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2667, col: 9, offset: 84964},
+																																				pos: position{line: 2667, col: 9, offset: 85026},
 																																				run: (*parser).callonDocumentFragment1244,
 																																				expr: &seqExpr{
-																																					pos: position{line: 2667, col: 9, offset: 84964},
+																																					pos: position{line: 2667, col: 9, offset: 85026},
 																																					exprs: []interface{}{
 																																						&notExpr{
-																																							pos: position{line: 2667, col: 9, offset: 84964},
+																																							pos: position{line: 2667, col: 9, offset: 85026},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2623, col: 22, offset: 83908},
+																																								pos: position{line: 2623, col: 22, offset: 83970},
 																																								alternatives: []interface{}{
 																																									&seqExpr{
-																																										pos: position{line: 2619, col: 19, offset: 83828},
+																																										pos: position{line: 2619, col: 19, offset: 83890},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2619, col: 19, offset: 83828},
+																																												pos:        position{line: 2619, col: 19, offset: 83890},
 																																												val:        "|===",
 																																												ignoreCase: false,
 																																												want:       "\"|===\"",
 																																											},
 																																											&zeroOrMoreExpr{
-																																												pos: position{line: 2619, col: 26, offset: 83835},
+																																												pos: position{line: 2619, col: 26, offset: 83897},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2877, col: 10, offset: 91161},
+																																													pos: position{line: 2877, col: 10, offset: 91223},
 																																													run: (*parser).callonDocumentFragment1251,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2877, col: 10, offset: 91161},
+																																														pos:        position{line: 2877, col: 10, offset: 91223},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -9839,28 +9839,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2899, col: 8, offset: 91559},
+																																												pos: position{line: 2899, col: 8, offset: 91621},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2886, col: 12, offset: 91332},
+																																														pos: position{line: 2886, col: 12, offset: 91394},
 																																														run: (*parser).callonDocumentFragment1254,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2886, col: 13, offset: 91333},
+																																															pos: position{line: 2886, col: 13, offset: 91395},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2886, col: 13, offset: 91333},
+																																																	pos:        position{line: 2886, col: 13, offset: 91395},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2886, col: 20, offset: 91340},
+																																																	pos:        position{line: 2886, col: 20, offset: 91402},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2886, col: 29, offset: 91349},
+																																																	pos:        position{line: 2886, col: 29, offset: 91411},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -9869,9 +9869,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2896, col: 8, offset: 91509},
+																																														pos: position{line: 2896, col: 8, offset: 91571},
 																																														expr: &anyMatcher{
-																																															line: 2896, col: 9, offset: 91510,
+																																															line: 2896, col: 9, offset: 91572,
 																																														},
 																																													},
 																																												},
@@ -9879,16 +9879,16 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2896, col: 8, offset: 91509},
+																																										pos: position{line: 2896, col: 8, offset: 91571},
 																																										expr: &anyMatcher{
-																																											line: 2896, col: 9, offset: 91510,
+																																											line: 2896, col: 9, offset: 91572,
 																																										},
 																																									},
 																																								},
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2668, col: 9, offset: 84991},
+																																							pos: position{line: 2668, col: 9, offset: 85053},
 																																							expr: &actionExpr{
 																																								pos: position{line: 677, col: 14, offset: 21525},
 																																								run: (*parser).callonDocumentFragment1264,
@@ -9896,18 +9896,18 @@ var g = &grammar{
 																																									pos: position{line: 677, col: 14, offset: 21525},
 																																									exprs: []interface{}{
 																																										&andExpr{
-																																											pos: position{line: 2894, col: 11, offset: 91495},
+																																											pos: position{line: 2894, col: 11, offset: 91557},
 																																											expr: &anyMatcher{
-																																												line: 2894, col: 13, offset: 91497,
+																																												line: 2894, col: 13, offset: 91559,
 																																											},
 																																										},
 																																										&zeroOrMoreExpr{
 																																											pos: position{line: 677, col: 21, offset: 21532},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2877, col: 10, offset: 91161},
+																																												pos: position{line: 2877, col: 10, offset: 91223},
 																																												run: (*parser).callonDocumentFragment1269,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2877, col: 10, offset: 91161},
+																																													pos:        position{line: 2877, col: 10, offset: 91223},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -9916,28 +9916,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2899, col: 8, offset: 91559},
+																																											pos: position{line: 2899, col: 8, offset: 91621},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2886, col: 12, offset: 91332},
+																																													pos: position{line: 2886, col: 12, offset: 91394},
 																																													run: (*parser).callonDocumentFragment1272,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2886, col: 13, offset: 91333},
+																																														pos: position{line: 2886, col: 13, offset: 91395},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2886, col: 13, offset: 91333},
+																																																pos:        position{line: 2886, col: 13, offset: 91395},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2886, col: 20, offset: 91340},
+																																																pos:        position{line: 2886, col: 20, offset: 91402},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2886, col: 29, offset: 91349},
+																																																pos:        position{line: 2886, col: 29, offset: 91411},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -9946,9 +9946,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2896, col: 8, offset: 91509},
+																																													pos: position{line: 2896, col: 8, offset: 91571},
 																																													expr: &anyMatcher{
-																																														line: 2896, col: 9, offset: 91510,
+																																														line: 2896, col: 9, offset: 91572,
 																																													},
 																																												},
 																																											},
@@ -9958,22 +9958,22 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2669, col: 9, offset: 85010},
+																																							pos: position{line: 2669, col: 9, offset: 85072},
 																																							expr: &seqExpr{
-																																								pos: position{line: 2669, col: 11, offset: 85012},
+																																								pos: position{line: 2669, col: 11, offset: 85074},
 																																								exprs: []interface{}{
 																																									&labeledExpr{
-																																										pos:   position{line: 2669, col: 11, offset: 85012},
+																																										pos:   position{line: 2669, col: 11, offset: 85074},
 																																										label: "format",
 																																										expr: &zeroOrOneExpr{
-																																											pos: position{line: 2669, col: 18, offset: 85019},
+																																											pos: position{line: 2669, col: 18, offset: 85081},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2677, col: 20, offset: 85220},
+																																												pos: position{line: 2677, col: 20, offset: 85282},
 																																												run: (*parser).callonDocumentFragment1283,
 																																												expr: &zeroOrMoreExpr{
-																																													pos: position{line: 2677, col: 20, offset: 85220},
+																																													pos: position{line: 2677, col: 20, offset: 85282},
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2677, col: 20, offset: 85220},
+																																														pos:        position{line: 2677, col: 20, offset: 85282},
 																																														val:        "[^ |\\r\\n]",
 																																														chars:      []rune{' ', '|', '\r', '\n'},
 																																														ignoreCase: false,
@@ -9984,7 +9984,7 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2669, col: 37, offset: 85038},
+																																										pos:        position{line: 2669, col: 37, offset: 85100},
 																																										val:        "|",
 																																										ignoreCase: false,
 																																										want:       "\"|\"",
@@ -9993,15 +9993,15 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&labeledExpr{
-																																							pos:   position{line: 2670, col: 9, offset: 85051},
+																																							pos:   position{line: 2670, col: 9, offset: 85113},
 																																							label: "content",
 																																							expr: &actionExpr{
-																																								pos: position{line: 2670, col: 18, offset: 85060},
+																																								pos: position{line: 2670, col: 18, offset: 85122},
 																																								run: (*parser).callonDocumentFragment1288,
 																																								expr: &zeroOrMoreExpr{
-																																									pos: position{line: 2670, col: 18, offset: 85060},
+																																									pos: position{line: 2670, col: 18, offset: 85122},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2670, col: 18, offset: 85060},
+																																										pos:        position{line: 2670, col: 18, offset: 85122},
 																																										val:        "[^|\\r\\n]",
 																																										chars:      []rune{'|', '\r', '\n'},
 																																										ignoreCase: false,
@@ -10011,30 +10011,30 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&zeroOrOneExpr{
-																																							pos: position{line: 2672, col: 12, offset: 85122},
+																																							pos: position{line: 2672, col: 12, offset: 85184},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2899, col: 8, offset: 91559},
+																																								pos: position{line: 2899, col: 8, offset: 91621},
 																																								alternatives: []interface{}{
 																																									&actionExpr{
-																																										pos: position{line: 2886, col: 12, offset: 91332},
+																																										pos: position{line: 2886, col: 12, offset: 91394},
 																																										run: (*parser).callonDocumentFragment1293,
 																																										expr: &choiceExpr{
-																																											pos: position{line: 2886, col: 13, offset: 91333},
+																																											pos: position{line: 2886, col: 13, offset: 91395},
 																																											alternatives: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2886, col: 13, offset: 91333},
+																																													pos:        position{line: 2886, col: 13, offset: 91395},
 																																													val:        "\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2886, col: 20, offset: 91340},
+																																													pos:        position{line: 2886, col: 20, offset: 91402},
 																																													val:        "\r\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2886, col: 29, offset: 91349},
+																																													pos:        position{line: 2886, col: 29, offset: 91411},
 																																													val:        "\r",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\"",
@@ -10043,9 +10043,9 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2896, col: 8, offset: 91509},
+																																										pos: position{line: 2896, col: 8, offset: 91571},
 																																										expr: &anyMatcher{
-																																											line: 2896, col: 9, offset: 91510,
+																																											line: 2896, col: 9, offset: 91572,
 																																										},
 																																									},
 																																								},
@@ -10073,18 +10073,18 @@ var g = &grammar{
 																									pos: position{line: 677, col: 14, offset: 21525},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2894, col: 11, offset: 91495},
+																											pos: position{line: 2894, col: 11, offset: 91557},
 																											expr: &anyMatcher{
-																												line: 2894, col: 13, offset: 91497,
+																												line: 2894, col: 13, offset: 91559,
 																											},
 																										},
 																										&zeroOrMoreExpr{
 																											pos: position{line: 677, col: 21, offset: 21532},
 																											expr: &actionExpr{
-																												pos: position{line: 2877, col: 10, offset: 91161},
+																												pos: position{line: 2877, col: 10, offset: 91223},
 																												run: (*parser).callonDocumentFragment1305,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2877, col: 10, offset: 91161},
+																													pos:        position{line: 2877, col: 10, offset: 91223},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -10093,28 +10093,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91559},
+																											pos: position{line: 2899, col: 8, offset: 91621},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91332},
+																													pos: position{line: 2886, col: 12, offset: 91394},
 																													run: (*parser).callonDocumentFragment1308,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91333},
+																														pos: position{line: 2886, col: 13, offset: 91395},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91333},
+																																pos:        position{line: 2886, col: 13, offset: 91395},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91340},
+																																pos:        position{line: 2886, col: 20, offset: 91402},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91349},
+																																pos:        position{line: 2886, col: 29, offset: 91411},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -10123,9 +10123,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91509},
+																													pos: position{line: 2896, col: 8, offset: 91571},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91510,
+																														line: 2896, col: 9, offset: 91572,
 																													},
 																												},
 																											},
@@ -10144,24 +10144,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2623, col: 22, offset: 83908},
+														pos: position{line: 2623, col: 22, offset: 83970},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2619, col: 19, offset: 83828},
+																pos: position{line: 2619, col: 19, offset: 83890},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2619, col: 19, offset: 83828},
+																		pos:        position{line: 2619, col: 19, offset: 83890},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2619, col: 26, offset: 83835},
+																		pos: position{line: 2619, col: 26, offset: 83897},
 																		expr: &actionExpr{
-																			pos: position{line: 2877, col: 10, offset: 91161},
+																			pos: position{line: 2877, col: 10, offset: 91223},
 																			run: (*parser).callonDocumentFragment1319,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 10, offset: 91161},
+																				pos:        position{line: 2877, col: 10, offset: 91223},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10170,28 +10170,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2899, col: 8, offset: 91559},
+																		pos: position{line: 2899, col: 8, offset: 91621},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91332},
+																				pos: position{line: 2886, col: 12, offset: 91394},
 																				run: (*parser).callonDocumentFragment1322,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91333},
+																					pos: position{line: 2886, col: 13, offset: 91395},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91333},
+																							pos:        position{line: 2886, col: 13, offset: 91395},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91340},
+																							pos:        position{line: 2886, col: 20, offset: 91402},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91349},
+																							pos:        position{line: 2886, col: 29, offset: 91411},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10200,9 +10200,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2896, col: 8, offset: 91509},
+																				pos: position{line: 2896, col: 8, offset: 91571},
 																				expr: &anyMatcher{
-																					line: 2896, col: 9, offset: 91510,
+																					line: 2896, col: 9, offset: 91572,
 																				},
 																			},
 																		},
@@ -10210,9 +10210,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2896, col: 8, offset: 91509},
+																pos: position{line: 2896, col: 8, offset: 91571},
 																expr: &anyMatcher{
-																	line: 2896, col: 9, offset: 91510,
+																	line: 2896, col: 9, offset: 91572,
 																},
 															},
 														},
@@ -10221,36 +10221,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2484, col: 22, offset: 80047},
+											pos: position{line: 2484, col: 22, offset: 80109},
 											run: (*parser).callonDocumentFragment1331,
 											expr: &seqExpr{
-												pos: position{line: 2484, col: 22, offset: 80047},
+												pos: position{line: 2484, col: 22, offset: 80109},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2489, col: 31, offset: 80268},
+														pos:        position{line: 2489, col: 31, offset: 80330},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2489, col: 36, offset: 80273},
+														pos: position{line: 2489, col: 36, offset: 80335},
 														expr: &litMatcher{
-															pos:        position{line: 2489, col: 37, offset: 80274},
+															pos:        position{line: 2489, col: 37, offset: 80336},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2484, col: 49, offset: 80074},
+														pos:   position{line: 2484, col: 49, offset: 80136},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2823, col: 13, offset: 89687},
+															pos: position{line: 2823, col: 13, offset: 89749},
 															run: (*parser).callonDocumentFragment1337,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2823, col: 13, offset: 89687},
+																pos: position{line: 2823, col: 13, offset: 89749},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2823, col: 13, offset: 89687},
+																	pos:        position{line: 2823, col: 13, offset: 89749},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10260,28 +10260,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2899, col: 8, offset: 91559},
+														pos: position{line: 2899, col: 8, offset: 91621},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2886, col: 12, offset: 91332},
+																pos: position{line: 2886, col: 12, offset: 91394},
 																run: (*parser).callonDocumentFragment1341,
 																expr: &choiceExpr{
-																	pos: position{line: 2886, col: 13, offset: 91333},
+																	pos: position{line: 2886, col: 13, offset: 91395},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 13, offset: 91333},
+																			pos:        position{line: 2886, col: 13, offset: 91395},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 20, offset: 91340},
+																			pos:        position{line: 2886, col: 20, offset: 91402},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 29, offset: 91349},
+																			pos:        position{line: 2886, col: 29, offset: 91411},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10290,9 +10290,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2896, col: 8, offset: 91509},
+																pos: position{line: 2896, col: 8, offset: 91571},
 																expr: &anyMatcher{
-																	line: 2896, col: 9, offset: 91510,
+																	line: 2896, col: 9, offset: 91572,
 																},
 															},
 														},
@@ -10328,10 +10328,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1238, col: 36, offset: 38341},
 																		expr: &actionExpr{
-																			pos: position{line: 2877, col: 10, offset: 91161},
+																			pos: position{line: 2877, col: 10, offset: 91223},
 																			run: (*parser).callonDocumentFragment1356,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 10, offset: 91161},
+																				pos:        position{line: 2877, col: 10, offset: 91223},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10340,28 +10340,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2899, col: 8, offset: 91559},
+																		pos: position{line: 2899, col: 8, offset: 91621},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91332},
+																				pos: position{line: 2886, col: 12, offset: 91394},
 																				run: (*parser).callonDocumentFragment1359,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91333},
+																					pos: position{line: 2886, col: 13, offset: 91395},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91333},
+																							pos:        position{line: 2886, col: 13, offset: 91395},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91340},
+																							pos:        position{line: 2886, col: 20, offset: 91402},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91349},
+																							pos:        position{line: 2886, col: 29, offset: 91411},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10370,9 +10370,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2896, col: 8, offset: 91509},
+																				pos: position{line: 2896, col: 8, offset: 91571},
 																				expr: &anyMatcher{
-																					line: 2896, col: 9, offset: 91510,
+																					line: 2896, col: 9, offset: 91572,
 																				},
 																			},
 																		},
@@ -10406,10 +10406,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 1238, col: 36, offset: 38341},
 																												expr: &actionExpr{
-																													pos: position{line: 2877, col: 10, offset: 91161},
+																													pos: position{line: 2877, col: 10, offset: 91223},
 																													run: (*parser).callonDocumentFragment1376,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2877, col: 10, offset: 91161},
+																														pos:        position{line: 2877, col: 10, offset: 91223},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -10418,28 +10418,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2899, col: 8, offset: 91559},
+																												pos: position{line: 2899, col: 8, offset: 91621},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2886, col: 12, offset: 91332},
+																														pos: position{line: 2886, col: 12, offset: 91394},
 																														run: (*parser).callonDocumentFragment1379,
 																														expr: &choiceExpr{
-																															pos: position{line: 2886, col: 13, offset: 91333},
+																															pos: position{line: 2886, col: 13, offset: 91395},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 13, offset: 91333},
+																																	pos:        position{line: 2886, col: 13, offset: 91395},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 20, offset: 91340},
+																																	pos:        position{line: 2886, col: 20, offset: 91402},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 29, offset: 91349},
+																																	pos:        position{line: 2886, col: 29, offset: 91411},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -10448,9 +10448,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2896, col: 8, offset: 91509},
+																														pos: position{line: 2896, col: 8, offset: 91571},
 																														expr: &anyMatcher{
-																															line: 2896, col: 9, offset: 91510,
+																															line: 2896, col: 9, offset: 91572,
 																														},
 																													},
 																												},
@@ -10477,10 +10477,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1238, col: 36, offset: 38341},
 																		expr: &actionExpr{
-																			pos: position{line: 2877, col: 10, offset: 91161},
+																			pos: position{line: 2877, col: 10, offset: 91223},
 																			run: (*parser).callonDocumentFragment1389,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 10, offset: 91161},
+																				pos:        position{line: 2877, col: 10, offset: 91223},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10489,28 +10489,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2899, col: 8, offset: 91559},
+																		pos: position{line: 2899, col: 8, offset: 91621},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91332},
+																				pos: position{line: 2886, col: 12, offset: 91394},
 																				run: (*parser).callonDocumentFragment1392,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91333},
+																					pos: position{line: 2886, col: 13, offset: 91395},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91333},
+																							pos:        position{line: 2886, col: 13, offset: 91395},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91340},
+																							pos:        position{line: 2886, col: 20, offset: 91402},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91349},
+																							pos:        position{line: 2886, col: 29, offset: 91411},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10519,9 +10519,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2896, col: 8, offset: 91509},
+																				pos: position{line: 2896, col: 8, offset: 91571},
 																				expr: &anyMatcher{
-																					line: 2896, col: 9, offset: 91510,
+																					line: 2896, col: 9, offset: 91572,
 																				},
 																			},
 																		},
@@ -10578,9 +10578,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2896, col: 8, offset: 91509},
+							pos: position{line: 2896, col: 8, offset: 91571},
 							expr: &anyMatcher{
-								line: 2896, col: 9, offset: 91510,
+								line: 2896, col: 9, offset: 91572,
 							},
 						},
 					},
@@ -10652,12 +10652,12 @@ var g = &grammar{
 										pos: position{line: 304, col: 9, offset: 9170},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2881, col: 11, offset: 91222},
+												pos: position{line: 2881, col: 11, offset: 91284},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2881, col: 11, offset: 91222},
+													pos: position{line: 2881, col: 11, offset: 91284},
 													expr: &charClassMatcher{
-														pos:        position{line: 2881, col: 11, offset: 91222},
+														pos:        position{line: 2881, col: 11, offset: 91284},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10681,10 +10681,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 309, col: 5, offset: 9350},
 							expr: &actionExpr{
-								pos: position{line: 2877, col: 10, offset: 91161},
+								pos: position{line: 2877, col: 10, offset: 91223},
 								run: (*parser).callonAttributeDeclaration21,
 								expr: &charClassMatcher{
-									pos:        position{line: 2877, col: 10, offset: 91161},
+									pos:        position{line: 2877, col: 10, offset: 91223},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -10693,28 +10693,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2899, col: 8, offset: 91559},
+							pos: position{line: 2899, col: 8, offset: 91621},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2886, col: 12, offset: 91332},
+									pos: position{line: 2886, col: 12, offset: 91394},
 									run: (*parser).callonAttributeDeclaration24,
 									expr: &choiceExpr{
-										pos: position{line: 2886, col: 13, offset: 91333},
+										pos: position{line: 2886, col: 13, offset: 91395},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2886, col: 13, offset: 91333},
+												pos:        position{line: 2886, col: 13, offset: 91395},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2886, col: 20, offset: 91340},
+												pos:        position{line: 2886, col: 20, offset: 91402},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2886, col: 29, offset: 91349},
+												pos:        position{line: 2886, col: 29, offset: 91411},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10723,9 +10723,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2896, col: 8, offset: 91509},
+									pos: position{line: 2896, col: 8, offset: 91571},
 									expr: &anyMatcher{
-										line: 2896, col: 9, offset: 91510,
+										line: 2896, col: 9, offset: 91572,
 									},
 								},
 							},
@@ -10771,10 +10771,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 324, col: 14, offset: 9848},
 												expr: &actionExpr{
-													pos: position{line: 2877, col: 10, offset: 91161},
+													pos: position{line: 2877, col: 10, offset: 91223},
 													run: (*parser).callonAttributeDeclarationValue11,
 													expr: &charClassMatcher{
-														pos:        position{line: 2877, col: 10, offset: 91161},
+														pos:        position{line: 2877, col: 10, offset: 91223},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10783,25 +10783,25 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 2886, col: 12, offset: 91332},
+												pos: position{line: 2886, col: 12, offset: 91394},
 												run: (*parser).callonAttributeDeclarationValue13,
 												expr: &choiceExpr{
-													pos: position{line: 2886, col: 13, offset: 91333},
+													pos: position{line: 2886, col: 13, offset: 91395},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2886, col: 13, offset: 91333},
+															pos:        position{line: 2886, col: 13, offset: 91395},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2886, col: 20, offset: 91340},
+															pos:        position{line: 2886, col: 20, offset: 91402},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2886, col: 29, offset: 91349},
+															pos:        position{line: 2886, col: 29, offset: 91411},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10812,10 +10812,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 325, col: 9, offset: 9872},
 												expr: &actionExpr{
-													pos: position{line: 2877, col: 10, offset: 91161},
+													pos: position{line: 2877, col: 10, offset: 91223},
 													run: (*parser).callonAttributeDeclarationValue19,
 													expr: &charClassMatcher{
-														pos:        position{line: 2877, col: 10, offset: 91161},
+														pos:        position{line: 2877, col: 10, offset: 91223},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10885,10 +10885,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 343, col: 13, offset: 10417},
 										expr: &actionExpr{
-											pos: position{line: 2877, col: 10, offset: 91161},
+											pos: position{line: 2877, col: 10, offset: 91223},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2877, col: 10, offset: 91161},
+												pos:        position{line: 2877, col: 10, offset: 91223},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10897,28 +10897,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2899, col: 8, offset: 91559},
+										pos: position{line: 2899, col: 8, offset: 91621},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2886, col: 12, offset: 91332},
+												pos: position{line: 2886, col: 12, offset: 91394},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2886, col: 13, offset: 91333},
+													pos: position{line: 2886, col: 13, offset: 91395},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2886, col: 13, offset: 91333},
+															pos:        position{line: 2886, col: 13, offset: 91395},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2886, col: 20, offset: 91340},
+															pos:        position{line: 2886, col: 20, offset: 91402},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2886, col: 29, offset: 91349},
+															pos:        position{line: 2886, col: 29, offset: 91411},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10927,9 +10927,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2896, col: 8, offset: 91509},
+												pos: position{line: 2896, col: 8, offset: 91571},
 												expr: &anyMatcher{
-													line: 2896, col: 9, offset: 91510,
+													line: 2896, col: 9, offset: 91572,
 												},
 											},
 										},
@@ -10962,23 +10962,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2471, col: 5, offset: 79593},
+										pos: position{line: 2471, col: 5, offset: 79655},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2471, col: 5, offset: 79593},
+											pos: position{line: 2471, col: 5, offset: 79655},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2471, col: 5, offset: 79593},
+													pos: position{line: 2471, col: 5, offset: 79655},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2474, col: 5, offset: 79669},
+													pos:   position{line: 2474, col: 5, offset: 79731},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2475, col: 9, offset: 79687},
+														pos: position{line: 2475, col: 9, offset: 79749},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2475, col: 10, offset: 79688},
+															pos:        position{line: 2475, col: 10, offset: 79750},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -10990,10 +10990,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2877, col: 10, offset: 91161},
+										pos: position{line: 2877, col: 10, offset: 91223},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2877, col: 10, offset: 91161},
+											pos:        position{line: 2877, col: 10, offset: 91223},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -11834,10 +11834,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 371, col: 35, offset: 11426},
 												expr: &actionExpr{
-													pos: position{line: 2877, col: 10, offset: 91161},
+													pos: position{line: 2877, col: 10, offset: 91223},
 													run: (*parser).callonBlockAttributes101,
 													expr: &charClassMatcher{
-														pos:        position{line: 2877, col: 10, offset: 91161},
+														pos:        position{line: 2877, col: 10, offset: 91223},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11846,28 +11846,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2899, col: 8, offset: 91559},
+												pos: position{line: 2899, col: 8, offset: 91621},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2886, col: 12, offset: 91332},
+														pos: position{line: 2886, col: 12, offset: 91394},
 														run: (*parser).callonBlockAttributes104,
 														expr: &choiceExpr{
-															pos: position{line: 2886, col: 13, offset: 91333},
+															pos: position{line: 2886, col: 13, offset: 91395},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2886, col: 13, offset: 91333},
+																	pos:        position{line: 2886, col: 13, offset: 91395},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2886, col: 20, offset: 91340},
+																	pos:        position{line: 2886, col: 20, offset: 91402},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2886, col: 29, offset: 91349},
+																	pos:        position{line: 2886, col: 29, offset: 91411},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11876,9 +11876,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2896, col: 8, offset: 91509},
+														pos: position{line: 2896, col: 8, offset: 91571},
 														expr: &anyMatcher{
-															line: 2896, col: 9, offset: 91510,
+															line: 2896, col: 9, offset: 91572,
 														},
 													},
 												},
@@ -11892,18 +11892,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21525},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2894, col: 11, offset: 91495},
+																pos: position{line: 2894, col: 11, offset: 91557},
 																expr: &anyMatcher{
-																	line: 2894, col: 13, offset: 91497,
+																	line: 2894, col: 13, offset: 91559,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21532},
 																expr: &actionExpr{
-																	pos: position{line: 2877, col: 10, offset: 91161},
+																	pos: position{line: 2877, col: 10, offset: 91223},
 																	run: (*parser).callonBlockAttributes117,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2877, col: 10, offset: 91161},
+																		pos:        position{line: 2877, col: 10, offset: 91223},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -11912,28 +11912,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2899, col: 8, offset: 91559},
+																pos: position{line: 2899, col: 8, offset: 91621},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2886, col: 12, offset: 91332},
+																		pos: position{line: 2886, col: 12, offset: 91394},
 																		run: (*parser).callonBlockAttributes120,
 																		expr: &choiceExpr{
-																			pos: position{line: 2886, col: 13, offset: 91333},
+																			pos: position{line: 2886, col: 13, offset: 91395},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 13, offset: 91333},
+																					pos:        position{line: 2886, col: 13, offset: 91395},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 20, offset: 91340},
+																					pos:        position{line: 2886, col: 20, offset: 91402},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 29, offset: 91349},
+																					pos:        position{line: 2886, col: 29, offset: 91411},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -11942,9 +11942,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2896, col: 8, offset: 91509},
+																		pos: position{line: 2896, col: 8, offset: 91571},
 																		expr: &anyMatcher{
-																			line: 2896, col: 9, offset: 91510,
+																			line: 2896, col: 9, offset: 91572,
 																		},
 																	},
 																},
@@ -11996,12 +11996,12 @@ var g = &grammar{
 																		pos: position{line: 425, col: 9, offset: 13070},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2771, col: 14, offset: 88309},
+																				pos: position{line: 2771, col: 14, offset: 88371},
 																				run: (*parser).callonBlockAttributes138,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2771, col: 14, offset: 88309},
+																					pos: position{line: 2771, col: 14, offset: 88371},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2771, col: 14, offset: 88309},
+																						pos:        position{line: 2771, col: 14, offset: 88371},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -12010,10 +12010,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2877, col: 10, offset: 91161},
+																				pos: position{line: 2877, col: 10, offset: 91223},
 																				run: (*parser).callonBlockAttributes141,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 10, offset: 91161},
+																					pos:        position{line: 2877, col: 10, offset: 91223},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -12021,27 +12021,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2794, col: 5, offset: 88815},
+																				pos: position{line: 2794, col: 5, offset: 88877},
 																				run: (*parser).callonBlockAttributes143,
 																				expr: &choiceExpr{
-																					pos: position{line: 2795, col: 9, offset: 88825},
+																					pos: position{line: 2795, col: 9, offset: 88887},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2795, col: 10, offset: 88826},
+																							pos:        position{line: 2795, col: 10, offset: 88888},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2797, col: 13, offset: 88923},
+																							pos: position{line: 2797, col: 13, offset: 88985},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2797, col: 13, offset: 88923},
+																									pos: position{line: 2797, col: 13, offset: 88985},
 																									run: (*parser).callonBlockAttributes147,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2800, col: 13, offset: 89023},
+																									pos:        position{line: 2800, col: 13, offset: 89085},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -12049,20 +12049,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2800, col: 19, offset: 89029},
+																							pos:        position{line: 2800, col: 19, offset: 89091},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2803, col: 13, offset: 89067},
+																							pos: position{line: 2803, col: 13, offset: 89129},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2803, col: 13, offset: 89067},
+																									pos: position{line: 2803, col: 13, offset: 89129},
 																									run: (*parser).callonBlockAttributes151,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2806, col: 14, offset: 89160},
+																									pos:        position{line: 2806, col: 14, offset: 89222},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -12071,18 +12071,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2808, col: 12, offset: 89204},
+																							pos: position{line: 2808, col: 12, offset: 89266},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2808, col: 12, offset: 89204},
+																									pos:        position{line: 2808, col: 12, offset: 89266},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2808, col: 16, offset: 89208},
+																									pos: position{line: 2808, col: 16, offset: 89270},
 																									expr: &litMatcher{
-																										pos:        position{line: 2808, col: 17, offset: 89209},
+																										pos:        position{line: 2808, col: 17, offset: 89271},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12418,10 +12418,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2816, col: 12, offset: 89469},
+																				pos: position{line: 2816, col: 12, offset: 89531},
 																				run: (*parser).callonBlockAttributes221,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2816, col: 12, offset: 89469},
+																					pos:        position{line: 2816, col: 12, offset: 89531},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12439,10 +12439,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 375, col: 35, offset: 11581},
 												expr: &actionExpr{
-													pos: position{line: 2877, col: 10, offset: 91161},
+													pos: position{line: 2877, col: 10, offset: 91223},
 													run: (*parser).callonBlockAttributes224,
 													expr: &charClassMatcher{
-														pos:        position{line: 2877, col: 10, offset: 91161},
+														pos:        position{line: 2877, col: 10, offset: 91223},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12451,28 +12451,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2899, col: 8, offset: 91559},
+												pos: position{line: 2899, col: 8, offset: 91621},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2886, col: 12, offset: 91332},
+														pos: position{line: 2886, col: 12, offset: 91394},
 														run: (*parser).callonBlockAttributes227,
 														expr: &choiceExpr{
-															pos: position{line: 2886, col: 13, offset: 91333},
+															pos: position{line: 2886, col: 13, offset: 91395},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2886, col: 13, offset: 91333},
+																	pos:        position{line: 2886, col: 13, offset: 91395},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2886, col: 20, offset: 91340},
+																	pos:        position{line: 2886, col: 20, offset: 91402},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2886, col: 29, offset: 91349},
+																	pos:        position{line: 2886, col: 29, offset: 91411},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12481,9 +12481,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2896, col: 8, offset: 91509},
+														pos: position{line: 2896, col: 8, offset: 91571},
 														expr: &anyMatcher{
-															line: 2896, col: 9, offset: 91510,
+															line: 2896, col: 9, offset: 91572,
 														},
 													},
 												},
@@ -12497,18 +12497,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21525},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2894, col: 11, offset: 91495},
+																pos: position{line: 2894, col: 11, offset: 91557},
 																expr: &anyMatcher{
-																	line: 2894, col: 13, offset: 91497,
+																	line: 2894, col: 13, offset: 91559,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21532},
 																expr: &actionExpr{
-																	pos: position{line: 2877, col: 10, offset: 91161},
+																	pos: position{line: 2877, col: 10, offset: 91223},
 																	run: (*parser).callonBlockAttributes240,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2877, col: 10, offset: 91161},
+																		pos:        position{line: 2877, col: 10, offset: 91223},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12517,28 +12517,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2899, col: 8, offset: 91559},
+																pos: position{line: 2899, col: 8, offset: 91621},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2886, col: 12, offset: 91332},
+																		pos: position{line: 2886, col: 12, offset: 91394},
 																		run: (*parser).callonBlockAttributes243,
 																		expr: &choiceExpr{
-																			pos: position{line: 2886, col: 13, offset: 91333},
+																			pos: position{line: 2886, col: 13, offset: 91395},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 13, offset: 91333},
+																					pos:        position{line: 2886, col: 13, offset: 91395},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 20, offset: 91340},
+																					pos:        position{line: 2886, col: 20, offset: 91402},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 29, offset: 91349},
+																					pos:        position{line: 2886, col: 29, offset: 91411},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12547,9 +12547,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2896, col: 8, offset: 91509},
+																		pos: position{line: 2896, col: 8, offset: 91571},
 																		expr: &anyMatcher{
-																			line: 2896, col: 9, offset: 91510,
+																			line: 2896, col: 9, offset: 91572,
 																		},
 																	},
 																},
@@ -12571,10 +12571,10 @@ var g = &grammar{
 												pos:   position{line: 379, col: 12, offset: 11682},
 												label: "start",
 												expr: &actionExpr{
-													pos: position{line: 2902, col: 16, offset: 91683},
+													pos: position{line: 2902, col: 16, offset: 91745},
 													run: (*parser).callonBlockAttributes253,
 													expr: &litMatcher{
-														pos:        position{line: 2902, col: 16, offset: 91683},
+														pos:        position{line: 2902, col: 16, offset: 91745},
 														val:        "",
 														ignoreCase: false,
 														want:       "\"\"",
@@ -12592,10 +12592,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 379, col: 64, offset: 11734},
 												expr: &actionExpr{
-													pos: position{line: 2877, col: 10, offset: 91161},
+													pos: position{line: 2877, col: 10, offset: 91223},
 													run: (*parser).callonBlockAttributes258,
 													expr: &charClassMatcher{
-														pos:        position{line: 2877, col: 10, offset: 91161},
+														pos:        position{line: 2877, col: 10, offset: 91223},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12607,10 +12607,10 @@ var g = &grammar{
 												pos:   position{line: 379, col: 71, offset: 11741},
 												label: "end",
 												expr: &actionExpr{
-													pos: position{line: 2902, col: 16, offset: 91683},
+													pos: position{line: 2902, col: 16, offset: 91745},
 													run: (*parser).callonBlockAttributes261,
 													expr: &litMatcher{
-														pos:        position{line: 2902, col: 16, offset: 91683},
+														pos:        position{line: 2902, col: 16, offset: 91745},
 														val:        "",
 														ignoreCase: false,
 														want:       "\"\"",
@@ -12622,28 +12622,28 @@ var g = &grammar{
 												run: (*parser).callonBlockAttributes263,
 											},
 											&choiceExpr{
-												pos: position{line: 2899, col: 8, offset: 91559},
+												pos: position{line: 2899, col: 8, offset: 91621},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2886, col: 12, offset: 91332},
+														pos: position{line: 2886, col: 12, offset: 91394},
 														run: (*parser).callonBlockAttributes265,
 														expr: &choiceExpr{
-															pos: position{line: 2886, col: 13, offset: 91333},
+															pos: position{line: 2886, col: 13, offset: 91395},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2886, col: 13, offset: 91333},
+																	pos:        position{line: 2886, col: 13, offset: 91395},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2886, col: 20, offset: 91340},
+																	pos:        position{line: 2886, col: 20, offset: 91402},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2886, col: 29, offset: 91349},
+																	pos:        position{line: 2886, col: 29, offset: 91411},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12652,9 +12652,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2896, col: 8, offset: 91509},
+														pos: position{line: 2896, col: 8, offset: 91571},
 														expr: &anyMatcher{
-															line: 2896, col: 9, offset: 91510,
+															line: 2896, col: 9, offset: 91572,
 														},
 													},
 												},
@@ -12668,18 +12668,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21525},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2894, col: 11, offset: 91495},
+																pos: position{line: 2894, col: 11, offset: 91557},
 																expr: &anyMatcher{
-																	line: 2894, col: 13, offset: 91497,
+																	line: 2894, col: 13, offset: 91559,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21532},
 																expr: &actionExpr{
-																	pos: position{line: 2877, col: 10, offset: 91161},
+																	pos: position{line: 2877, col: 10, offset: 91223},
 																	run: (*parser).callonBlockAttributes278,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2877, col: 10, offset: 91161},
+																		pos:        position{line: 2877, col: 10, offset: 91223},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12688,28 +12688,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2899, col: 8, offset: 91559},
+																pos: position{line: 2899, col: 8, offset: 91621},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2886, col: 12, offset: 91332},
+																		pos: position{line: 2886, col: 12, offset: 91394},
 																		run: (*parser).callonBlockAttributes281,
 																		expr: &choiceExpr{
-																			pos: position{line: 2886, col: 13, offset: 91333},
+																			pos: position{line: 2886, col: 13, offset: 91395},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 13, offset: 91333},
+																					pos:        position{line: 2886, col: 13, offset: 91395},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 20, offset: 91340},
+																					pos:        position{line: 2886, col: 20, offset: 91402},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 29, offset: 91349},
+																					pos:        position{line: 2886, col: 29, offset: 91411},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12718,9 +12718,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2896, col: 8, offset: 91509},
+																		pos: position{line: 2896, col: 8, offset: 91571},
 																		expr: &anyMatcher{
-																			line: 2896, col: 9, offset: 91510,
+																			line: 2896, col: 9, offset: 91572,
 																		},
 																	},
 																},
@@ -12968,10 +12968,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 466, col: 13, offset: 14565},
 										expr: &actionExpr{
-											pos: position{line: 2877, col: 10, offset: 91161},
+											pos: position{line: 2877, col: 10, offset: 91223},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2877, col: 10, offset: 91161},
+												pos:        position{line: 2877, col: 10, offset: 91223},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13503,10 +13503,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 518, col: 9, offset: 16147},
 													expr: &actionExpr{
-														pos: position{line: 2877, col: 10, offset: 91161},
+														pos: position{line: 2877, col: 10, offset: 91223},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2877, col: 10, offset: 91161},
+															pos:        position{line: 2877, col: 10, offset: 91223},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13567,10 +13567,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 524, col: 34, offset: 16290},
 														expr: &actionExpr{
-															pos: position{line: 2877, col: 10, offset: 91161},
+															pos: position{line: 2877, col: 10, offset: 91223},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2877, col: 10, offset: 91161},
+																pos:        position{line: 2877, col: 10, offset: 91223},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13610,10 +13610,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 529, col: 13, offset: 16454},
 												expr: &actionExpr{
-													pos: position{line: 2877, col: 10, offset: 91161},
+													pos: position{line: 2877, col: 10, offset: 91223},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2877, col: 10, offset: 91161},
+														pos:        position{line: 2877, col: 10, offset: 91223},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13636,10 +13636,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 529, col: 26, offset: 16467},
 																expr: &actionExpr{
-																	pos: position{line: 2877, col: 10, offset: 91161},
+																	pos: position{line: 2877, col: 10, offset: 91223},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2877, col: 10, offset: 91161},
+																		pos:        position{line: 2877, col: 10, offset: 91223},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13694,10 +13694,10 @@ var g = &grammar{
 										&notExpr{
 											pos: position{line: 549, col: 22, offset: 17114},
 											expr: &actionExpr{
-												pos: position{line: 2877, col: 10, offset: 91161},
+												pos: position{line: 2877, col: 10, offset: 91223},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2877, col: 10, offset: 91161},
+													pos:        position{line: 2877, col: 10, offset: 91223},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13728,10 +13728,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 542, col: 9, offset: 16859},
 							expr: &actionExpr{
-								pos: position{line: 2877, col: 10, offset: 91161},
+								pos: position{line: 2877, col: 10, offset: 91223},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2877, col: 10, offset: 91161},
+									pos:        position{line: 2877, col: 10, offset: 91223},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13761,10 +13761,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 543, col: 33, offset: 16899},
 										expr: &actionExpr{
-											pos: position{line: 2877, col: 10, offset: 91161},
+											pos: position{line: 2877, col: 10, offset: 91223},
 											run: (*parser).callonNamedAttribute21,
 											expr: &charClassMatcher{
-												pos:        position{line: 2877, col: 10, offset: 91161},
+												pos:        position{line: 2877, col: 10, offset: 91223},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13819,10 +13819,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 559, col: 9, offset: 17331},
 											expr: &actionExpr{
-												pos: position{line: 2877, col: 10, offset: 91161},
+												pos: position{line: 2877, col: 10, offset: 91223},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2877, col: 10, offset: 91161},
+													pos:        position{line: 2877, col: 10, offset: 91223},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13901,12 +13901,12 @@ var g = &grammar{
 							pos: position{line: 572, col: 9, offset: 17648},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2771, col: 14, offset: 88309},
+									pos: position{line: 2771, col: 14, offset: 88371},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2771, col: 14, offset: 88309},
+										pos: position{line: 2771, col: 14, offset: 88371},
 										expr: &charClassMatcher{
-											pos:        position{line: 2771, col: 14, offset: 88309},
+											pos:        position{line: 2771, col: 14, offset: 88371},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -13915,10 +13915,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2877, col: 10, offset: 91161},
+									pos: position{line: 2877, col: 10, offset: 91223},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2877, col: 10, offset: 91161},
+										pos:        position{line: 2877, col: 10, offset: 91223},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14375,10 +14375,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 592, col: 14, offset: 18388},
 											expr: &actionExpr{
-												pos: position{line: 2877, col: 10, offset: 91161},
+												pos: position{line: 2877, col: 10, offset: 91223},
 												run: (*parser).callonDoubleQuotedAttributeValue13,
 												expr: &charClassMatcher{
-													pos:        position{line: 2877, col: 10, offset: 91161},
+													pos:        position{line: 2877, col: 10, offset: 91223},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14415,12 +14415,12 @@ var g = &grammar{
 							pos: position{line: 598, col: 9, offset: 18499},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2771, col: 14, offset: 88309},
+									pos: position{line: 2771, col: 14, offset: 88371},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2771, col: 14, offset: 88309},
+										pos: position{line: 2771, col: 14, offset: 88371},
 										expr: &charClassMatcher{
-											pos:        position{line: 2771, col: 14, offset: 88309},
+											pos:        position{line: 2771, col: 14, offset: 88371},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14429,10 +14429,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2877, col: 10, offset: 91161},
+									pos: position{line: 2877, col: 10, offset: 91223},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2877, col: 10, offset: 91161},
+										pos:        position{line: 2877, col: 10, offset: 91223},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14859,10 +14859,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 619, col: 5, offset: 19355},
 							expr: &actionExpr{
-								pos: position{line: 2877, col: 10, offset: 91161},
+								pos: position{line: 2877, col: 10, offset: 91223},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2877, col: 10, offset: 91161},
+									pos:        position{line: 2877, col: 10, offset: 91223},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -15252,10 +15252,10 @@ var g = &grammar{
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2877, col: 10, offset: 91161},
+											pos: position{line: 2877, col: 10, offset: 91223},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2877, col: 10, offset: 91161},
+												pos:        position{line: 2877, col: 10, offset: 91223},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -15306,12 +15306,12 @@ var g = &grammar{
 									pos:   position{line: 686, col: 32, offset: 21885},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2862, col: 7, offset: 90813},
+										pos: position{line: 2862, col: 7, offset: 90875},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2862, col: 7, offset: 90813},
+											pos: position{line: 2862, col: 7, offset: 90875},
 											expr: &charClassMatcher{
-												pos:        position{line: 2862, col: 7, offset: 90813},
+												pos:        position{line: 2862, col: 7, offset: 90875},
 												val:        "[^[]<>,\\r\\n]",
 												chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 												ignoreCase: false,
@@ -15323,10 +15323,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 686, col: 40, offset: 21893},
 									expr: &actionExpr{
-										pos: position{line: 2877, col: 10, offset: 91161},
+										pos: position{line: 2877, col: 10, offset: 91223},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2877, col: 10, offset: 91161},
+											pos:        position{line: 2877, col: 10, offset: 91223},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15343,10 +15343,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 686, col: 51, offset: 21904},
 									expr: &actionExpr{
-										pos: position{line: 2877, col: 10, offset: 91161},
+										pos: position{line: 2877, col: 10, offset: 91223},
 										run: (*parser).callonCrossReference14,
 										expr: &charClassMatcher{
-											pos:        position{line: 2877, col: 10, offset: 91161},
+											pos:        position{line: 2877, col: 10, offset: 91223},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15521,12 +15521,12 @@ var g = &grammar{
 									pos:   position{line: 688, col: 14, offset: 22017},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2862, col: 7, offset: 90813},
+										pos: position{line: 2862, col: 7, offset: 90875},
 										run: (*parser).callonCrossReference49,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2862, col: 7, offset: 90813},
+											pos: position{line: 2862, col: 7, offset: 90875},
 											expr: &charClassMatcher{
-												pos:        position{line: 2862, col: 7, offset: 90813},
+												pos:        position{line: 2862, col: 7, offset: 90875},
 												val:        "[^[]<>,\\r\\n]",
 												chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 												ignoreCase: false,
@@ -15570,41 +15570,41 @@ var g = &grammar{
 							pos:   position{line: 692, col: 35, offset: 22130},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2831, col: 17, offset: 89824},
+								pos: position{line: 2831, col: 17, offset: 89886},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2831, col: 17, offset: 89824},
+									pos:   position{line: 2831, col: 17, offset: 89886},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2848, col: 5, offset: 90278},
+										pos: position{line: 2848, col: 5, offset: 90340},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2848, col: 5, offset: 90278},
+											pos:   position{line: 2848, col: 5, offset: 90340},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2848, col: 14, offset: 90287},
+												pos: position{line: 2848, col: 14, offset: 90349},
 												expr: &choiceExpr{
-													pos: position{line: 2849, col: 9, offset: 90297},
+													pos: position{line: 2849, col: 9, offset: 90359},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2849, col: 9, offset: 90297},
+															pos: position{line: 2849, col: 9, offset: 90359},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2849, col: 9, offset: 90297},
+																pos: position{line: 2849, col: 9, offset: 90359},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2849, col: 9, offset: 90297},
+																		pos: position{line: 2849, col: 9, offset: 90359},
 																		expr: &litMatcher{
-																			pos:        position{line: 2849, col: 10, offset: 90298},
+																			pos:        position{line: 2849, col: 10, offset: 90360},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2850, col: 9, offset: 90326},
+																		pos: position{line: 2850, col: 9, offset: 90388},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2850, col: 10, offset: 90327},
+																			pos:        position{line: 2850, col: 10, offset: 90389},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -15615,27 +15615,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2853, col: 11, offset: 90539},
+															pos: position{line: 2853, col: 11, offset: 90601},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2853, col: 11, offset: 90539},
+																	pos:        position{line: 2853, col: 11, offset: 90601},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2853, col: 19, offset: 90547},
+																	pos: position{line: 2853, col: 19, offset: 90609},
 																	expr: &seqExpr{
-																		pos: position{line: 2853, col: 21, offset: 90549},
+																		pos: position{line: 2853, col: 21, offset: 90611},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2853, col: 21, offset: 90549},
+																				pos: position{line: 2853, col: 21, offset: 90611},
 																				expr: &actionExpr{
-																					pos: position{line: 2877, col: 10, offset: 91161},
+																					pos: position{line: 2877, col: 10, offset: 91223},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2877, col: 10, offset: 91161},
+																						pos:        position{line: 2877, col: 10, offset: 91223},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -15644,11 +15644,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2853, col: 28, offset: 90556},
+																				pos: position{line: 2853, col: 28, offset: 90618},
 																				expr: &notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91509},
+																					pos: position{line: 2896, col: 8, offset: 91571},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91510,
+																						line: 2896, col: 9, offset: 91572,
 																					},
 																				},
 																			},
@@ -16047,10 +16047,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2856, col: 11, offset: 90676},
+															pos: position{line: 2856, col: 11, offset: 90738},
 															run: (*parser).callonExternalCrossReference105,
 															expr: &litMatcher{
-																pos:        position{line: 2856, col: 11, offset: 90676},
+																pos:        position{line: 2856, col: 11, offset: 90738},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -16095,12 +16095,12 @@ var g = &grammar{
 							pos:   position{line: 989, col: 11, offset: 30847},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2827, col: 14, offset: 89754},
+								pos: position{line: 2827, col: 14, offset: 89816},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2827, col: 14, offset: 89754},
+									pos: position{line: 2827, col: 14, offset: 89816},
 									expr: &charClassMatcher{
-										pos:        position{line: 2827, col: 14, offset: 89754},
+										pos:        position{line: 2827, col: 14, offset: 89816},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -16110,28 +16110,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2899, col: 8, offset: 91559},
+							pos: position{line: 2899, col: 8, offset: 91621},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2886, col: 12, offset: 91332},
+									pos: position{line: 2886, col: 12, offset: 91394},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2886, col: 13, offset: 91333},
+										pos: position{line: 2886, col: 13, offset: 91395},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2886, col: 13, offset: 91333},
+												pos:        position{line: 2886, col: 13, offset: 91395},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2886, col: 20, offset: 91340},
+												pos:        position{line: 2886, col: 20, offset: 91402},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2886, col: 29, offset: 91349},
+												pos:        position{line: 2886, col: 29, offset: 91411},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -16140,9 +16140,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2896, col: 8, offset: 91509},
+									pos: position{line: 2896, col: 8, offset: 91571},
 									expr: &anyMatcher{
-										line: 2896, col: 9, offset: 91510,
+										line: 2896, col: 9, offset: 91572,
 									},
 								},
 							},
@@ -16170,36 +16170,36 @@ var g = &grammar{
 								pos: position{line: 1104, col: 6, offset: 33849},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2484, col: 22, offset: 80047},
+										pos: position{line: 2484, col: 22, offset: 80109},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2484, col: 22, offset: 80047},
+											pos: position{line: 2484, col: 22, offset: 80109},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2489, col: 31, offset: 80268},
+													pos:        position{line: 2489, col: 31, offset: 80330},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2489, col: 36, offset: 80273},
+													pos: position{line: 2489, col: 36, offset: 80335},
 													expr: &litMatcher{
-														pos:        position{line: 2489, col: 37, offset: 80274},
+														pos:        position{line: 2489, col: 37, offset: 80336},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2484, col: 49, offset: 80074},
+													pos:   position{line: 2484, col: 49, offset: 80136},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2823, col: 13, offset: 89687},
+														pos: position{line: 2823, col: 13, offset: 89749},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2823, col: 13, offset: 89687},
+															pos: position{line: 2823, col: 13, offset: 89749},
 															expr: &charClassMatcher{
-																pos:        position{line: 2823, col: 13, offset: 89687},
+																pos:        position{line: 2823, col: 13, offset: 89749},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16209,28 +16209,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2899, col: 8, offset: 91559},
+													pos: position{line: 2899, col: 8, offset: 91621},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2886, col: 12, offset: 91332},
+															pos: position{line: 2886, col: 12, offset: 91394},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2886, col: 13, offset: 91333},
+																pos: position{line: 2886, col: 13, offset: 91395},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 13, offset: 91333},
+																		pos:        position{line: 2886, col: 13, offset: 91395},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 20, offset: 91340},
+																		pos:        position{line: 2886, col: 20, offset: 91402},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 29, offset: 91349},
+																		pos:        position{line: 2886, col: 29, offset: 91411},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16239,9 +16239,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2896, col: 8, offset: 91509},
+															pos: position{line: 2896, col: 8, offset: 91571},
 															expr: &anyMatcher{
-																line: 2896, col: 9, offset: 91510,
+																line: 2896, col: 9, offset: 91572,
 															},
 														},
 													},
@@ -16292,10 +16292,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 742, col: 8, offset: 23722},
 																expr: &actionExpr{
-																	pos: position{line: 2877, col: 10, offset: 91161},
+																	pos: position{line: 2877, col: 10, offset: 91223},
 																	run: (*parser).callonDocumentHeader34,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2877, col: 10, offset: 91161},
+																		pos:        position{line: 2877, col: 10, offset: 91223},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16304,28 +16304,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2899, col: 8, offset: 91559},
+																pos: position{line: 2899, col: 8, offset: 91621},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2886, col: 12, offset: 91332},
+																		pos: position{line: 2886, col: 12, offset: 91394},
 																		run: (*parser).callonDocumentHeader37,
 																		expr: &choiceExpr{
-																			pos: position{line: 2886, col: 13, offset: 91333},
+																			pos: position{line: 2886, col: 13, offset: 91395},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 13, offset: 91333},
+																					pos:        position{line: 2886, col: 13, offset: 91395},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 20, offset: 91340},
+																					pos:        position{line: 2886, col: 20, offset: 91402},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 29, offset: 91349},
+																					pos:        position{line: 2886, col: 29, offset: 91411},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -16334,9 +16334,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2896, col: 8, offset: 91509},
+																		pos: position{line: 2896, col: 8, offset: 91571},
 																		expr: &anyMatcher{
-																			line: 2896, col: 9, offset: 91510,
+																			line: 2896, col: 9, offset: 91572,
 																		},
 																	},
 																},
@@ -16397,10 +16397,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 742, col: 8, offset: 23722},
 																								expr: &actionExpr{
-																									pos: position{line: 2877, col: 10, offset: 91161},
+																									pos: position{line: 2877, col: 10, offset: 91223},
 																									run: (*parser).callonDocumentHeader59,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 10, offset: 91161},
+																										pos:        position{line: 2877, col: 10, offset: 91223},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -16409,28 +16409,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2899, col: 8, offset: 91559},
+																								pos: position{line: 2899, col: 8, offset: 91621},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2886, col: 12, offset: 91332},
+																										pos: position{line: 2886, col: 12, offset: 91394},
 																										run: (*parser).callonDocumentHeader62,
 																										expr: &choiceExpr{
-																											pos: position{line: 2886, col: 13, offset: 91333},
+																											pos: position{line: 2886, col: 13, offset: 91395},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 13, offset: 91333},
+																													pos:        position{line: 2886, col: 13, offset: 91395},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 20, offset: 91340},
+																													pos:        position{line: 2886, col: 20, offset: 91402},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 29, offset: 91349},
+																													pos:        position{line: 2886, col: 29, offset: 91411},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -16439,9 +16439,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2896, col: 8, offset: 91509},
+																										pos: position{line: 2896, col: 8, offset: 91571},
 																										expr: &anyMatcher{
-																											line: 2896, col: 9, offset: 91510,
+																											line: 2896, col: 9, offset: 91572,
 																										},
 																									},
 																								},
@@ -16450,9 +16450,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91509},
+																					pos: position{line: 2896, col: 8, offset: 91571},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91510,
+																						line: 2896, col: 9, offset: 91572,
 																					},
 																				},
 																			},
@@ -16468,21 +16468,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26129},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2894, col: 11, offset: 91495},
+																						pos: position{line: 2894, col: 11, offset: 91557},
 																						expr: &anyMatcher{
-																							line: 2894, col: 13, offset: 91497,
+																							line: 2894, col: 13, offset: 91559,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26204},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2823, col: 13, offset: 89687},
+																							pos: position{line: 2823, col: 13, offset: 89749},
 																							run: (*parser).callonDocumentHeader77,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2823, col: 13, offset: 89687},
+																								pos: position{line: 2823, col: 13, offset: 89749},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2823, col: 13, offset: 89687},
+																									pos:        position{line: 2823, col: 13, offset: 89749},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16492,28 +16492,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91559},
+																						pos: position{line: 2899, col: 8, offset: 91621},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91332},
+																								pos: position{line: 2886, col: 12, offset: 91394},
 																								run: (*parser).callonDocumentHeader81,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91333},
+																									pos: position{line: 2886, col: 13, offset: 91395},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91333},
+																											pos:        position{line: 2886, col: 13, offset: 91395},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91340},
+																											pos:        position{line: 2886, col: 20, offset: 91402},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91349},
+																											pos:        position{line: 2886, col: 29, offset: 91411},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16522,9 +16522,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91509},
+																								pos: position{line: 2896, col: 8, offset: 91571},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91510,
+																									line: 2896, col: 9, offset: 91572,
 																								},
 																							},
 																						},
@@ -16580,10 +16580,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 742, col: 8, offset: 23722},
 																			expr: &actionExpr{
-																				pos: position{line: 2877, col: 10, offset: 91161},
+																				pos: position{line: 2877, col: 10, offset: 91223},
 																				run: (*parser).callonDocumentHeader99,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 10, offset: 91161},
+																					pos:        position{line: 2877, col: 10, offset: 91223},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -16592,28 +16592,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2899, col: 8, offset: 91559},
+																			pos: position{line: 2899, col: 8, offset: 91621},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2886, col: 12, offset: 91332},
+																					pos: position{line: 2886, col: 12, offset: 91394},
 																					run: (*parser).callonDocumentHeader102,
 																					expr: &choiceExpr{
-																						pos: position{line: 2886, col: 13, offset: 91333},
+																						pos: position{line: 2886, col: 13, offset: 91395},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 13, offset: 91333},
+																								pos:        position{line: 2886, col: 13, offset: 91395},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 20, offset: 91340},
+																								pos:        position{line: 2886, col: 20, offset: 91402},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 29, offset: 91349},
+																								pos:        position{line: 2886, col: 29, offset: 91411},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -16622,9 +16622,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91509},
+																					pos: position{line: 2896, col: 8, offset: 91571},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91510,
+																						line: 2896, col: 9, offset: 91572,
 																					},
 																				},
 																			},
@@ -16633,9 +16633,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2896, col: 8, offset: 91509},
+																pos: position{line: 2896, col: 8, offset: 91571},
 																expr: &anyMatcher{
-																	line: 2896, col: 9, offset: 91510,
+																	line: 2896, col: 9, offset: 91572,
 																},
 															},
 														},
@@ -16661,36 +16661,36 @@ var g = &grammar{
 								pos: position{line: 1106, col: 6, offset: 33972},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2484, col: 22, offset: 80047},
+										pos: position{line: 2484, col: 22, offset: 80109},
 										run: (*parser).callonDocumentHeader115,
 										expr: &seqExpr{
-											pos: position{line: 2484, col: 22, offset: 80047},
+											pos: position{line: 2484, col: 22, offset: 80109},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2489, col: 31, offset: 80268},
+													pos:        position{line: 2489, col: 31, offset: 80330},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2489, col: 36, offset: 80273},
+													pos: position{line: 2489, col: 36, offset: 80335},
 													expr: &litMatcher{
-														pos:        position{line: 2489, col: 37, offset: 80274},
+														pos:        position{line: 2489, col: 37, offset: 80336},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2484, col: 49, offset: 80074},
+													pos:   position{line: 2484, col: 49, offset: 80136},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2823, col: 13, offset: 89687},
+														pos: position{line: 2823, col: 13, offset: 89749},
 														run: (*parser).callonDocumentHeader121,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2823, col: 13, offset: 89687},
+															pos: position{line: 2823, col: 13, offset: 89749},
 															expr: &charClassMatcher{
-																pos:        position{line: 2823, col: 13, offset: 89687},
+																pos:        position{line: 2823, col: 13, offset: 89749},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16700,28 +16700,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2899, col: 8, offset: 91559},
+													pos: position{line: 2899, col: 8, offset: 91621},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2886, col: 12, offset: 91332},
+															pos: position{line: 2886, col: 12, offset: 91394},
 															run: (*parser).callonDocumentHeader125,
 															expr: &choiceExpr{
-																pos: position{line: 2886, col: 13, offset: 91333},
+																pos: position{line: 2886, col: 13, offset: 91395},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 13, offset: 91333},
+																		pos:        position{line: 2886, col: 13, offset: 91395},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 20, offset: 91340},
+																		pos:        position{line: 2886, col: 20, offset: 91402},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 29, offset: 91349},
+																		pos:        position{line: 2886, col: 29, offset: 91411},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16730,9 +16730,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2896, col: 8, offset: 91509},
+															pos: position{line: 2896, col: 8, offset: 91571},
 															expr: &anyMatcher{
-																line: 2896, col: 9, offset: 91510,
+																line: 2896, col: 9, offset: 91572,
 															},
 														},
 													},
@@ -16783,10 +16783,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 742, col: 8, offset: 23722},
 																expr: &actionExpr{
-																	pos: position{line: 2877, col: 10, offset: 91161},
+																	pos: position{line: 2877, col: 10, offset: 91223},
 																	run: (*parser).callonDocumentHeader143,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2877, col: 10, offset: 91161},
+																		pos:        position{line: 2877, col: 10, offset: 91223},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16795,28 +16795,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2899, col: 8, offset: 91559},
+																pos: position{line: 2899, col: 8, offset: 91621},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2886, col: 12, offset: 91332},
+																		pos: position{line: 2886, col: 12, offset: 91394},
 																		run: (*parser).callonDocumentHeader146,
 																		expr: &choiceExpr{
-																			pos: position{line: 2886, col: 13, offset: 91333},
+																			pos: position{line: 2886, col: 13, offset: 91395},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 13, offset: 91333},
+																					pos:        position{line: 2886, col: 13, offset: 91395},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 20, offset: 91340},
+																					pos:        position{line: 2886, col: 20, offset: 91402},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 29, offset: 91349},
+																					pos:        position{line: 2886, col: 29, offset: 91411},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -16825,9 +16825,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2896, col: 8, offset: 91509},
+																		pos: position{line: 2896, col: 8, offset: 91571},
 																		expr: &anyMatcher{
-																			line: 2896, col: 9, offset: 91510,
+																			line: 2896, col: 9, offset: 91572,
 																		},
 																	},
 																},
@@ -16888,10 +16888,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 742, col: 8, offset: 23722},
 																								expr: &actionExpr{
-																									pos: position{line: 2877, col: 10, offset: 91161},
+																									pos: position{line: 2877, col: 10, offset: 91223},
 																									run: (*parser).callonDocumentHeader168,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 10, offset: 91161},
+																										pos:        position{line: 2877, col: 10, offset: 91223},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -16900,28 +16900,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2899, col: 8, offset: 91559},
+																								pos: position{line: 2899, col: 8, offset: 91621},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2886, col: 12, offset: 91332},
+																										pos: position{line: 2886, col: 12, offset: 91394},
 																										run: (*parser).callonDocumentHeader171,
 																										expr: &choiceExpr{
-																											pos: position{line: 2886, col: 13, offset: 91333},
+																											pos: position{line: 2886, col: 13, offset: 91395},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 13, offset: 91333},
+																													pos:        position{line: 2886, col: 13, offset: 91395},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 20, offset: 91340},
+																													pos:        position{line: 2886, col: 20, offset: 91402},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 29, offset: 91349},
+																													pos:        position{line: 2886, col: 29, offset: 91411},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -16930,9 +16930,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2896, col: 8, offset: 91509},
+																										pos: position{line: 2896, col: 8, offset: 91571},
 																										expr: &anyMatcher{
-																											line: 2896, col: 9, offset: 91510,
+																											line: 2896, col: 9, offset: 91572,
 																										},
 																									},
 																								},
@@ -16941,9 +16941,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91509},
+																					pos: position{line: 2896, col: 8, offset: 91571},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91510,
+																						line: 2896, col: 9, offset: 91572,
 																					},
 																				},
 																			},
@@ -16959,21 +16959,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26129},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2894, col: 11, offset: 91495},
+																						pos: position{line: 2894, col: 11, offset: 91557},
 																						expr: &anyMatcher{
-																							line: 2894, col: 13, offset: 91497,
+																							line: 2894, col: 13, offset: 91559,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26204},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2823, col: 13, offset: 89687},
+																							pos: position{line: 2823, col: 13, offset: 89749},
 																							run: (*parser).callonDocumentHeader186,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2823, col: 13, offset: 89687},
+																								pos: position{line: 2823, col: 13, offset: 89749},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2823, col: 13, offset: 89687},
+																									pos:        position{line: 2823, col: 13, offset: 89749},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16983,28 +16983,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91559},
+																						pos: position{line: 2899, col: 8, offset: 91621},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91332},
+																								pos: position{line: 2886, col: 12, offset: 91394},
 																								run: (*parser).callonDocumentHeader190,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91333},
+																									pos: position{line: 2886, col: 13, offset: 91395},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91333},
+																											pos:        position{line: 2886, col: 13, offset: 91395},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91340},
+																											pos:        position{line: 2886, col: 20, offset: 91402},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91349},
+																											pos:        position{line: 2886, col: 29, offset: 91411},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17013,9 +17013,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91509},
+																								pos: position{line: 2896, col: 8, offset: 91571},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91510,
+																									line: 2896, col: 9, offset: 91572,
 																								},
 																							},
 																						},
@@ -17071,10 +17071,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 742, col: 8, offset: 23722},
 																			expr: &actionExpr{
-																				pos: position{line: 2877, col: 10, offset: 91161},
+																				pos: position{line: 2877, col: 10, offset: 91223},
 																				run: (*parser).callonDocumentHeader208,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 10, offset: 91161},
+																					pos:        position{line: 2877, col: 10, offset: 91223},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -17083,28 +17083,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2899, col: 8, offset: 91559},
+																			pos: position{line: 2899, col: 8, offset: 91621},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2886, col: 12, offset: 91332},
+																					pos: position{line: 2886, col: 12, offset: 91394},
 																					run: (*parser).callonDocumentHeader211,
 																					expr: &choiceExpr{
-																						pos: position{line: 2886, col: 13, offset: 91333},
+																						pos: position{line: 2886, col: 13, offset: 91395},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 13, offset: 91333},
+																								pos:        position{line: 2886, col: 13, offset: 91395},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 20, offset: 91340},
+																								pos:        position{line: 2886, col: 20, offset: 91402},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 29, offset: 91349},
+																								pos:        position{line: 2886, col: 29, offset: 91411},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -17113,9 +17113,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91509},
+																					pos: position{line: 2896, col: 8, offset: 91571},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91510,
+																						line: 2896, col: 9, offset: 91572,
 																					},
 																				},
 																			},
@@ -17124,9 +17124,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2896, col: 8, offset: 91509},
+																pos: position{line: 2896, col: 8, offset: 91571},
 																expr: &anyMatcher{
-																	line: 2896, col: 9, offset: 91510,
+																	line: 2896, col: 9, offset: 91572,
 																},
 															},
 														},
@@ -17170,10 +17170,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1125, col: 20, offset: 34727},
 																expr: &actionExpr{
-																	pos: position{line: 2877, col: 10, offset: 91161},
+																	pos: position{line: 2877, col: 10, offset: 91223},
 																	run: (*parser).callonDocumentHeader230,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2877, col: 10, offset: 91161},
+																		pos:        position{line: 2877, col: 10, offset: 91223},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17224,10 +17224,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1144, col: 5, offset: 35332},
 																										expr: &actionExpr{
-																											pos: position{line: 2877, col: 10, offset: 91161},
+																											pos: position{line: 2877, col: 10, offset: 91223},
 																											run: (*parser).callonDocumentHeader245,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2877, col: 10, offset: 91161},
+																												pos:        position{line: 2877, col: 10, offset: 91223},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17259,10 +17259,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1148, col: 5, offset: 35431},
 																										expr: &actionExpr{
-																											pos: position{line: 2877, col: 10, offset: 91161},
+																											pos: position{line: 2877, col: 10, offset: 91223},
 																											run: (*parser).callonDocumentHeader253,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2877, col: 10, offset: 91161},
+																												pos:        position{line: 2877, col: 10, offset: 91223},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17294,10 +17294,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1152, col: 5, offset: 35528},
 																										expr: &actionExpr{
-																											pos: position{line: 2877, col: 10, offset: 91161},
+																											pos: position{line: 2877, col: 10, offset: 91223},
 																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2877, col: 10, offset: 91161},
+																												pos:        position{line: 2877, col: 10, offset: 91223},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17322,9 +17322,9 @@ var g = &grammar{
 																								pos: position{line: 1158, col: 5, offset: 35650},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2894, col: 11, offset: 91495},
+																										pos: position{line: 2894, col: 11, offset: 91557},
 																										expr: &anyMatcher{
-																											line: 2894, col: 13, offset: 91497,
+																											line: 2894, col: 13, offset: 91559,
 																										},
 																									},
 																									&litMatcher{
@@ -17365,10 +17365,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1130, col: 69, offset: 34920},
 																					expr: &actionExpr{
-																						pos: position{line: 2877, col: 10, offset: 91161},
+																						pos: position{line: 2877, col: 10, offset: 91223},
 																						run: (*parser).callonDocumentHeader276,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2877, col: 10, offset: 91161},
+																							pos:        position{line: 2877, col: 10, offset: 91223},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17388,10 +17388,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1130, col: 81, offset: 34932},
 																					expr: &actionExpr{
-																						pos: position{line: 2877, col: 10, offset: 91161},
+																						pos: position{line: 2877, col: 10, offset: 91223},
 																						run: (*parser).callonDocumentHeader281,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2877, col: 10, offset: 91161},
+																							pos:        position{line: 2877, col: 10, offset: 91223},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17409,28 +17409,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2899, col: 8, offset: 91559},
+																pos: position{line: 2899, col: 8, offset: 91621},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2886, col: 12, offset: 91332},
+																		pos: position{line: 2886, col: 12, offset: 91394},
 																		run: (*parser).callonDocumentHeader285,
 																		expr: &choiceExpr{
-																			pos: position{line: 2886, col: 13, offset: 91333},
+																			pos: position{line: 2886, col: 13, offset: 91395},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 13, offset: 91333},
+																					pos:        position{line: 2886, col: 13, offset: 91395},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 20, offset: 91340},
+																					pos:        position{line: 2886, col: 20, offset: 91402},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 29, offset: 91349},
+																					pos:        position{line: 2886, col: 29, offset: 91411},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17439,9 +17439,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2896, col: 8, offset: 91509},
+																		pos: position{line: 2896, col: 8, offset: 91571},
 																		expr: &anyMatcher{
-																			line: 2896, col: 9, offset: 91510,
+																			line: 2896, col: 9, offset: 91572,
 																		},
 																	},
 																},
@@ -17456,36 +17456,36 @@ var g = &grammar{
 													pos: position{line: 1120, col: 6, offset: 34502},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2484, col: 22, offset: 80047},
+															pos: position{line: 2484, col: 22, offset: 80109},
 															run: (*parser).callonDocumentHeader294,
 															expr: &seqExpr{
-																pos: position{line: 2484, col: 22, offset: 80047},
+																pos: position{line: 2484, col: 22, offset: 80109},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2489, col: 31, offset: 80268},
+																		pos:        position{line: 2489, col: 31, offset: 80330},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2489, col: 36, offset: 80273},
+																		pos: position{line: 2489, col: 36, offset: 80335},
 																		expr: &litMatcher{
-																			pos:        position{line: 2489, col: 37, offset: 80274},
+																			pos:        position{line: 2489, col: 37, offset: 80336},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2484, col: 49, offset: 80074},
+																		pos:   position{line: 2484, col: 49, offset: 80136},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2823, col: 13, offset: 89687},
+																			pos: position{line: 2823, col: 13, offset: 89749},
 																			run: (*parser).callonDocumentHeader300,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2823, col: 13, offset: 89687},
+																				pos: position{line: 2823, col: 13, offset: 89749},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2823, col: 13, offset: 89687},
+																					pos:        position{line: 2823, col: 13, offset: 89749},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -17495,28 +17495,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2899, col: 8, offset: 91559},
+																		pos: position{line: 2899, col: 8, offset: 91621},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91332},
+																				pos: position{line: 2886, col: 12, offset: 91394},
 																				run: (*parser).callonDocumentHeader304,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91333},
+																					pos: position{line: 2886, col: 13, offset: 91395},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91333},
+																							pos:        position{line: 2886, col: 13, offset: 91395},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91340},
+																							pos:        position{line: 2886, col: 20, offset: 91402},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91349},
+																							pos:        position{line: 2886, col: 29, offset: 91411},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -17525,9 +17525,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2896, col: 8, offset: 91509},
+																				pos: position{line: 2896, col: 8, offset: 91571},
 																				expr: &anyMatcher{
-																					line: 2896, col: 9, offset: 91510,
+																					line: 2896, col: 9, offset: 91572,
 																				},
 																			},
 																		},
@@ -17578,10 +17578,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 742, col: 8, offset: 23722},
 																					expr: &actionExpr{
-																						pos: position{line: 2877, col: 10, offset: 91161},
+																						pos: position{line: 2877, col: 10, offset: 91223},
 																						run: (*parser).callonDocumentHeader322,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2877, col: 10, offset: 91161},
+																							pos:        position{line: 2877, col: 10, offset: 91223},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17590,28 +17590,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2899, col: 8, offset: 91559},
+																					pos: position{line: 2899, col: 8, offset: 91621},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2886, col: 12, offset: 91332},
+																							pos: position{line: 2886, col: 12, offset: 91394},
 																							run: (*parser).callonDocumentHeader325,
 																							expr: &choiceExpr{
-																								pos: position{line: 2886, col: 13, offset: 91333},
+																								pos: position{line: 2886, col: 13, offset: 91395},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 13, offset: 91333},
+																										pos:        position{line: 2886, col: 13, offset: 91395},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 20, offset: 91340},
+																										pos:        position{line: 2886, col: 20, offset: 91402},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 29, offset: 91349},
+																										pos:        position{line: 2886, col: 29, offset: 91411},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -17620,9 +17620,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2896, col: 8, offset: 91509},
+																							pos: position{line: 2896, col: 8, offset: 91571},
 																							expr: &anyMatcher{
-																								line: 2896, col: 9, offset: 91510,
+																								line: 2896, col: 9, offset: 91572,
 																							},
 																						},
 																					},
@@ -17683,10 +17683,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 742, col: 8, offset: 23722},
 																													expr: &actionExpr{
-																														pos: position{line: 2877, col: 10, offset: 91161},
+																														pos: position{line: 2877, col: 10, offset: 91223},
 																														run: (*parser).callonDocumentHeader347,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2877, col: 10, offset: 91161},
+																															pos:        position{line: 2877, col: 10, offset: 91223},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -17695,28 +17695,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2899, col: 8, offset: 91559},
+																													pos: position{line: 2899, col: 8, offset: 91621},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2886, col: 12, offset: 91332},
+																															pos: position{line: 2886, col: 12, offset: 91394},
 																															run: (*parser).callonDocumentHeader350,
 																															expr: &choiceExpr{
-																																pos: position{line: 2886, col: 13, offset: 91333},
+																																pos: position{line: 2886, col: 13, offset: 91395},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2886, col: 13, offset: 91333},
+																																		pos:        position{line: 2886, col: 13, offset: 91395},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2886, col: 20, offset: 91340},
+																																		pos:        position{line: 2886, col: 20, offset: 91402},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2886, col: 29, offset: 91349},
+																																		pos:        position{line: 2886, col: 29, offset: 91411},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -17725,9 +17725,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2896, col: 8, offset: 91509},
+																															pos: position{line: 2896, col: 8, offset: 91571},
 																															expr: &anyMatcher{
-																																line: 2896, col: 9, offset: 91510,
+																																line: 2896, col: 9, offset: 91572,
 																															},
 																														},
 																													},
@@ -17736,9 +17736,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2896, col: 8, offset: 91509},
+																										pos: position{line: 2896, col: 8, offset: 91571},
 																										expr: &anyMatcher{
-																											line: 2896, col: 9, offset: 91510,
+																											line: 2896, col: 9, offset: 91572,
 																										},
 																									},
 																								},
@@ -17754,21 +17754,21 @@ var g = &grammar{
 																									pos: position{line: 811, col: 5, offset: 26129},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2894, col: 11, offset: 91495},
+																											pos: position{line: 2894, col: 11, offset: 91557},
 																											expr: &anyMatcher{
-																												line: 2894, col: 13, offset: 91497,
+																												line: 2894, col: 13, offset: 91559,
 																											},
 																										},
 																										&labeledExpr{
 																											pos:   position{line: 812, col: 5, offset: 26204},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2823, col: 13, offset: 89687},
+																												pos: position{line: 2823, col: 13, offset: 89749},
 																												run: (*parser).callonDocumentHeader365,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2823, col: 13, offset: 89687},
+																													pos: position{line: 2823, col: 13, offset: 89749},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2823, col: 13, offset: 89687},
+																														pos:        position{line: 2823, col: 13, offset: 89749},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -17778,28 +17778,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91559},
+																											pos: position{line: 2899, col: 8, offset: 91621},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91332},
+																													pos: position{line: 2886, col: 12, offset: 91394},
 																													run: (*parser).callonDocumentHeader369,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91333},
+																														pos: position{line: 2886, col: 13, offset: 91395},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91333},
+																																pos:        position{line: 2886, col: 13, offset: 91395},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91340},
+																																pos:        position{line: 2886, col: 20, offset: 91402},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91349},
+																																pos:        position{line: 2886, col: 29, offset: 91411},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17808,9 +17808,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91509},
+																													pos: position{line: 2896, col: 8, offset: 91571},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91510,
+																														line: 2896, col: 9, offset: 91572,
 																													},
 																												},
 																											},
@@ -17866,10 +17866,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 742, col: 8, offset: 23722},
 																								expr: &actionExpr{
-																									pos: position{line: 2877, col: 10, offset: 91161},
+																									pos: position{line: 2877, col: 10, offset: 91223},
 																									run: (*parser).callonDocumentHeader387,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 10, offset: 91161},
+																										pos:        position{line: 2877, col: 10, offset: 91223},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -17878,28 +17878,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2899, col: 8, offset: 91559},
+																								pos: position{line: 2899, col: 8, offset: 91621},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2886, col: 12, offset: 91332},
+																										pos: position{line: 2886, col: 12, offset: 91394},
 																										run: (*parser).callonDocumentHeader390,
 																										expr: &choiceExpr{
-																											pos: position{line: 2886, col: 13, offset: 91333},
+																											pos: position{line: 2886, col: 13, offset: 91395},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 13, offset: 91333},
+																													pos:        position{line: 2886, col: 13, offset: 91395},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 20, offset: 91340},
+																													pos:        position{line: 2886, col: 20, offset: 91402},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 29, offset: 91349},
+																													pos:        position{line: 2886, col: 29, offset: 91411},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -17908,9 +17908,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2896, col: 8, offset: 91509},
+																										pos: position{line: 2896, col: 8, offset: 91571},
 																										expr: &anyMatcher{
-																											line: 2896, col: 9, offset: 91510,
+																											line: 2896, col: 9, offset: 91572,
 																										},
 																									},
 																								},
@@ -17919,9 +17919,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91509},
+																					pos: position{line: 2896, col: 8, offset: 91571},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91510,
+																						line: 2896, col: 9, offset: 91572,
 																					},
 																				},
 																			},
@@ -17947,10 +17947,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1169, col: 21, offset: 35928},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91161},
+																		pos: position{line: 2877, col: 10, offset: 91223},
 																		run: (*parser).callonDocumentHeader404,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91161},
+																			pos:        position{line: 2877, col: 10, offset: 91223},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18052,10 +18052,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 1181, col: 28, offset: 36559},
 																													expr: &actionExpr{
-																														pos: position{line: 2877, col: 10, offset: 91161},
+																														pos: position{line: 2877, col: 10, offset: 91223},
 																														run: (*parser).callonDocumentHeader428,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2877, col: 10, offset: 91161},
+																															pos:        position{line: 2877, col: 10, offset: 91223},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -18202,28 +18202,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91559},
+																	pos: position{line: 2899, col: 8, offset: 91621},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91332},
+																			pos: position{line: 2886, col: 12, offset: 91394},
 																			run: (*parser).callonDocumentHeader460,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91333},
+																				pos: position{line: 2886, col: 13, offset: 91395},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91333},
+																						pos:        position{line: 2886, col: 13, offset: 91395},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91340},
+																						pos:        position{line: 2886, col: 20, offset: 91402},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91349},
+																						pos:        position{line: 2886, col: 29, offset: 91411},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18232,9 +18232,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91509},
+																			pos: position{line: 2896, col: 8, offset: 91571},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91510,
+																				line: 2896, col: 9, offset: 91572,
 																			},
 																		},
 																	},
@@ -18314,10 +18314,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 359, col: 49, offset: 10879},
 														expr: &actionExpr{
-															pos: position{line: 2877, col: 10, offset: 91161},
+															pos: position{line: 2877, col: 10, offset: 91223},
 															run: (*parser).callonDocumentHeader482,
 															expr: &charClassMatcher{
-																pos:        position{line: 2877, col: 10, offset: 91161},
+																pos:        position{line: 2877, col: 10, offset: 91223},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18326,28 +18326,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2899, col: 8, offset: 91559},
+														pos: position{line: 2899, col: 8, offset: 91621},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2886, col: 12, offset: 91332},
+																pos: position{line: 2886, col: 12, offset: 91394},
 																run: (*parser).callonDocumentHeader485,
 																expr: &choiceExpr{
-																	pos: position{line: 2886, col: 13, offset: 91333},
+																	pos: position{line: 2886, col: 13, offset: 91395},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 13, offset: 91333},
+																			pos:        position{line: 2886, col: 13, offset: 91395},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 20, offset: 91340},
+																			pos:        position{line: 2886, col: 20, offset: 91402},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 29, offset: 91349},
+																			pos:        position{line: 2886, col: 29, offset: 91411},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18356,9 +18356,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2896, col: 8, offset: 91509},
+																pos: position{line: 2896, col: 8, offset: 91571},
 																expr: &anyMatcher{
-																	line: 2896, col: 9, offset: 91510,
+																	line: 2896, col: 9, offset: 91572,
 																},
 															},
 														},
@@ -18419,10 +18419,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 361, col: 39, offset: 11000},
 														expr: &actionExpr{
-															pos: position{line: 2877, col: 10, offset: 91161},
+															pos: position{line: 2877, col: 10, offset: 91223},
 															run: (*parser).callonDocumentHeader503,
 															expr: &charClassMatcher{
-																pos:        position{line: 2877, col: 10, offset: 91161},
+																pos:        position{line: 2877, col: 10, offset: 91223},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18431,28 +18431,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2899, col: 8, offset: 91559},
+														pos: position{line: 2899, col: 8, offset: 91621},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2886, col: 12, offset: 91332},
+																pos: position{line: 2886, col: 12, offset: 91394},
 																run: (*parser).callonDocumentHeader506,
 																expr: &choiceExpr{
-																	pos: position{line: 2886, col: 13, offset: 91333},
+																	pos: position{line: 2886, col: 13, offset: 91395},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 13, offset: 91333},
+																			pos:        position{line: 2886, col: 13, offset: 91395},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 20, offset: 91340},
+																			pos:        position{line: 2886, col: 20, offset: 91402},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 29, offset: 91349},
+																			pos:        position{line: 2886, col: 29, offset: 91411},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18461,9 +18461,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2896, col: 8, offset: 91509},
+																pos: position{line: 2896, col: 8, offset: 91571},
 																expr: &anyMatcher{
-																	line: 2896, col: 9, offset: 91510,
+																	line: 2896, col: 9, offset: 91572,
 																},
 															},
 														},
@@ -18472,36 +18472,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2484, col: 22, offset: 80047},
+											pos: position{line: 2484, col: 22, offset: 80109},
 											run: (*parser).callonDocumentHeader513,
 											expr: &seqExpr{
-												pos: position{line: 2484, col: 22, offset: 80047},
+												pos: position{line: 2484, col: 22, offset: 80109},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2489, col: 31, offset: 80268},
+														pos:        position{line: 2489, col: 31, offset: 80330},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2489, col: 36, offset: 80273},
+														pos: position{line: 2489, col: 36, offset: 80335},
 														expr: &litMatcher{
-															pos:        position{line: 2489, col: 37, offset: 80274},
+															pos:        position{line: 2489, col: 37, offset: 80336},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2484, col: 49, offset: 80074},
+														pos:   position{line: 2484, col: 49, offset: 80136},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2823, col: 13, offset: 89687},
+															pos: position{line: 2823, col: 13, offset: 89749},
 															run: (*parser).callonDocumentHeader519,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2823, col: 13, offset: 89687},
+																pos: position{line: 2823, col: 13, offset: 89749},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2823, col: 13, offset: 89687},
+																	pos:        position{line: 2823, col: 13, offset: 89749},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -18511,28 +18511,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2899, col: 8, offset: 91559},
+														pos: position{line: 2899, col: 8, offset: 91621},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2886, col: 12, offset: 91332},
+																pos: position{line: 2886, col: 12, offset: 91394},
 																run: (*parser).callonDocumentHeader523,
 																expr: &choiceExpr{
-																	pos: position{line: 2886, col: 13, offset: 91333},
+																	pos: position{line: 2886, col: 13, offset: 91395},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 13, offset: 91333},
+																			pos:        position{line: 2886, col: 13, offset: 91395},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 20, offset: 91340},
+																			pos:        position{line: 2886, col: 20, offset: 91402},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 29, offset: 91349},
+																			pos:        position{line: 2886, col: 29, offset: 91411},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18541,9 +18541,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2896, col: 8, offset: 91509},
+																pos: position{line: 2896, col: 8, offset: 91571},
 																expr: &anyMatcher{
-																	line: 2896, col: 9, offset: 91510,
+																	line: 2896, col: 9, offset: 91572,
 																},
 															},
 														},
@@ -18594,10 +18594,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 742, col: 8, offset: 23722},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91161},
+																		pos: position{line: 2877, col: 10, offset: 91223},
 																		run: (*parser).callonDocumentHeader541,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91161},
+																			pos:        position{line: 2877, col: 10, offset: 91223},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18606,28 +18606,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91559},
+																	pos: position{line: 2899, col: 8, offset: 91621},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91332},
+																			pos: position{line: 2886, col: 12, offset: 91394},
 																			run: (*parser).callonDocumentHeader544,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91333},
+																				pos: position{line: 2886, col: 13, offset: 91395},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91333},
+																						pos:        position{line: 2886, col: 13, offset: 91395},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91340},
+																						pos:        position{line: 2886, col: 20, offset: 91402},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91349},
+																						pos:        position{line: 2886, col: 29, offset: 91411},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18636,9 +18636,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91509},
+																			pos: position{line: 2896, col: 8, offset: 91571},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91510,
+																				line: 2896, col: 9, offset: 91572,
 																			},
 																		},
 																	},
@@ -18699,10 +18699,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 742, col: 8, offset: 23722},
 																									expr: &actionExpr{
-																										pos: position{line: 2877, col: 10, offset: 91161},
+																										pos: position{line: 2877, col: 10, offset: 91223},
 																										run: (*parser).callonDocumentHeader566,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2877, col: 10, offset: 91161},
+																											pos:        position{line: 2877, col: 10, offset: 91223},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -18711,28 +18711,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2899, col: 8, offset: 91559},
+																									pos: position{line: 2899, col: 8, offset: 91621},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2886, col: 12, offset: 91332},
+																											pos: position{line: 2886, col: 12, offset: 91394},
 																											run: (*parser).callonDocumentHeader569,
 																											expr: &choiceExpr{
-																												pos: position{line: 2886, col: 13, offset: 91333},
+																												pos: position{line: 2886, col: 13, offset: 91395},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 13, offset: 91333},
+																														pos:        position{line: 2886, col: 13, offset: 91395},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 20, offset: 91340},
+																														pos:        position{line: 2886, col: 20, offset: 91402},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 29, offset: 91349},
+																														pos:        position{line: 2886, col: 29, offset: 91411},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -18741,9 +18741,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2896, col: 8, offset: 91509},
+																											pos: position{line: 2896, col: 8, offset: 91571},
 																											expr: &anyMatcher{
-																												line: 2896, col: 9, offset: 91510,
+																												line: 2896, col: 9, offset: 91572,
 																											},
 																										},
 																									},
@@ -18752,9 +18752,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2896, col: 8, offset: 91509},
+																						pos: position{line: 2896, col: 8, offset: 91571},
 																						expr: &anyMatcher{
-																							line: 2896, col: 9, offset: 91510,
+																							line: 2896, col: 9, offset: 91572,
 																						},
 																					},
 																				},
@@ -18770,21 +18770,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26129},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2894, col: 11, offset: 91495},
+																							pos: position{line: 2894, col: 11, offset: 91557},
 																							expr: &anyMatcher{
-																								line: 2894, col: 13, offset: 91497,
+																								line: 2894, col: 13, offset: 91559,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26204},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2823, col: 13, offset: 89687},
+																								pos: position{line: 2823, col: 13, offset: 89749},
 																								run: (*parser).callonDocumentHeader584,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2823, col: 13, offset: 89687},
+																									pos: position{line: 2823, col: 13, offset: 89749},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2823, col: 13, offset: 89687},
+																										pos:        position{line: 2823, col: 13, offset: 89749},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -18794,28 +18794,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91559},
+																							pos: position{line: 2899, col: 8, offset: 91621},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91332},
+																									pos: position{line: 2886, col: 12, offset: 91394},
 																									run: (*parser).callonDocumentHeader588,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91333},
+																										pos: position{line: 2886, col: 13, offset: 91395},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91333},
+																												pos:        position{line: 2886, col: 13, offset: 91395},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91340},
+																												pos:        position{line: 2886, col: 20, offset: 91402},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91349},
+																												pos:        position{line: 2886, col: 29, offset: 91411},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -18824,9 +18824,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91509},
+																									pos: position{line: 2896, col: 8, offset: 91571},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91510,
+																										line: 2896, col: 9, offset: 91572,
 																									},
 																								},
 																							},
@@ -18882,10 +18882,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 742, col: 8, offset: 23722},
 																				expr: &actionExpr{
-																					pos: position{line: 2877, col: 10, offset: 91161},
+																					pos: position{line: 2877, col: 10, offset: 91223},
 																					run: (*parser).callonDocumentHeader606,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2877, col: 10, offset: 91161},
+																						pos:        position{line: 2877, col: 10, offset: 91223},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -18894,28 +18894,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2899, col: 8, offset: 91559},
+																				pos: position{line: 2899, col: 8, offset: 91621},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2886, col: 12, offset: 91332},
+																						pos: position{line: 2886, col: 12, offset: 91394},
 																						run: (*parser).callonDocumentHeader609,
 																						expr: &choiceExpr{
-																							pos: position{line: 2886, col: 13, offset: 91333},
+																							pos: position{line: 2886, col: 13, offset: 91395},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2886, col: 13, offset: 91333},
+																									pos:        position{line: 2886, col: 13, offset: 91395},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2886, col: 20, offset: 91340},
+																									pos:        position{line: 2886, col: 20, offset: 91402},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2886, col: 29, offset: 91349},
+																									pos:        position{line: 2886, col: 29, offset: 91411},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -18924,9 +18924,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2896, col: 8, offset: 91509},
+																						pos: position{line: 2896, col: 8, offset: 91571},
 																						expr: &anyMatcher{
-																							line: 2896, col: 9, offset: 91510,
+																							line: 2896, col: 9, offset: 91572,
 																						},
 																					},
 																				},
@@ -18935,9 +18935,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2896, col: 8, offset: 91509},
+																	pos: position{line: 2896, col: 8, offset: 91571},
 																	expr: &anyMatcher{
-																		line: 2896, col: 9, offset: 91510,
+																		line: 2896, col: 9, offset: 91572,
 																	},
 																},
 															},
@@ -18970,12 +18970,12 @@ var g = &grammar{
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2881, col: 11, offset: 91222},
+							pos: position{line: 2881, col: 11, offset: 91284},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2881, col: 11, offset: 91222},
+								pos: position{line: 2881, col: 11, offset: 91284},
 								expr: &charClassMatcher{
-									pos:        position{line: 2881, col: 11, offset: 91222},
+									pos:        position{line: 2881, col: 11, offset: 91284},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18992,28 +18992,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2899, col: 8, offset: 91559},
+							pos: position{line: 2899, col: 8, offset: 91621},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2886, col: 12, offset: 91332},
+									pos: position{line: 2886, col: 12, offset: 91394},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2886, col: 13, offset: 91333},
+										pos: position{line: 2886, col: 13, offset: 91395},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2886, col: 13, offset: 91333},
+												pos:        position{line: 2886, col: 13, offset: 91395},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2886, col: 20, offset: 91340},
+												pos:        position{line: 2886, col: 20, offset: 91402},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2886, col: 29, offset: 91349},
+												pos:        position{line: 2886, col: 29, offset: 91411},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19022,9 +19022,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2896, col: 8, offset: 91509},
+									pos: position{line: 2896, col: 8, offset: 91571},
 									expr: &anyMatcher{
-										line: 2896, col: 9, offset: 91510,
+										line: 2896, col: 9, offset: 91572,
 									},
 								},
 							},
@@ -19063,10 +19063,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1144, col: 5, offset: 35332},
 							expr: &actionExpr{
-								pos: position{line: 2877, col: 10, offset: 91161},
+								pos: position{line: 2877, col: 10, offset: 91223},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2877, col: 10, offset: 91161},
+									pos:        position{line: 2877, col: 10, offset: 91223},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19098,10 +19098,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1148, col: 5, offset: 35431},
 							expr: &actionExpr{
-								pos: position{line: 2877, col: 10, offset: 91161},
+								pos: position{line: 2877, col: 10, offset: 91223},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2877, col: 10, offset: 91161},
+									pos:        position{line: 2877, col: 10, offset: 91223},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19133,10 +19133,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1152, col: 5, offset: 35528},
 							expr: &actionExpr{
-								pos: position{line: 2877, col: 10, offset: 91161},
+								pos: position{line: 2877, col: 10, offset: 91223},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2877, col: 10, offset: 91161},
+									pos:        position{line: 2877, col: 10, offset: 91223},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19202,12 +19202,12 @@ var g = &grammar{
 							pos:   position{line: 1284, col: 13, offset: 39876},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2862, col: 7, offset: 90813},
+								pos: position{line: 2862, col: 7, offset: 90875},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2862, col: 7, offset: 90813},
+									pos: position{line: 2862, col: 7, offset: 90875},
 									expr: &charClassMatcher{
-										pos:        position{line: 2862, col: 7, offset: 90813},
+										pos:        position{line: 2862, col: 7, offset: 90875},
 										val:        "[^[]<>,\\r\\n]",
 										chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 										ignoreCase: false,
@@ -19276,12 +19276,12 @@ var g = &grammar{
 							pos: position{line: 1295, col: 31, offset: 40336},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2771, col: 14, offset: 88309},
+									pos: position{line: 2771, col: 14, offset: 88371},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2771, col: 14, offset: 88309},
+										pos: position{line: 2771, col: 14, offset: 88371},
 										expr: &charClassMatcher{
-											pos:        position{line: 2771, col: 14, offset: 88309},
+											pos:        position{line: 2771, col: 14, offset: 88371},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -19294,10 +19294,10 @@ var g = &grammar{
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2877, col: 10, offset: 91161},
+									pos: position{line: 2877, col: 10, offset: 91223},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2877, col: 10, offset: 91161},
+										pos:        position{line: 2877, col: 10, offset: 91223},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -19305,23 +19305,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2471, col: 5, offset: 79593},
+									pos: position{line: 2471, col: 5, offset: 79655},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2471, col: 5, offset: 79593},
+										pos: position{line: 2471, col: 5, offset: 79655},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2471, col: 5, offset: 79593},
+												pos: position{line: 2471, col: 5, offset: 79655},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2474, col: 5, offset: 79669},
+												pos:   position{line: 2474, col: 5, offset: 79731},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2475, col: 9, offset: 79687},
+													pos: position{line: 2475, col: 9, offset: 79749},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2475, col: 10, offset: 79688},
+														pos:        position{line: 2475, col: 10, offset: 79750},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -19415,10 +19415,10 @@ var g = &grammar{
 							pos:   position{line: 1316, col: 5, offset: 41144},
 							label: "start",
 							expr: &actionExpr{
-								pos: position{line: 2902, col: 16, offset: 91683},
+								pos: position{line: 2902, col: 16, offset: 91745},
 								run: (*parser).callonImageBlock4,
 								expr: &litMatcher{
-									pos:        position{line: 2902, col: 16, offset: 91683},
+									pos:        position{line: 2902, col: 16, offset: 91745},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -19435,48 +19435,48 @@ var g = &grammar{
 							pos:   position{line: 1316, col: 35, offset: 41174},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2835, col: 13, offset: 89920},
+								pos: position{line: 2835, col: 13, offset: 89982},
 								run: (*parser).callonImageBlock8,
 								expr: &seqExpr{
-									pos: position{line: 2835, col: 13, offset: 89920},
+									pos: position{line: 2835, col: 13, offset: 89982},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2835, col: 13, offset: 89920},
+											pos:   position{line: 2835, col: 13, offset: 89982},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2835, col: 20, offset: 89927},
+												pos: position{line: 2835, col: 20, offset: 89989},
 												expr: &actionExpr{
-													pos: position{line: 2843, col: 11, offset: 90166},
+													pos: position{line: 2843, col: 11, offset: 90228},
 													run: (*parser).callonImageBlock12,
 													expr: &choiceExpr{
-														pos: position{line: 2843, col: 12, offset: 90167},
+														pos: position{line: 2843, col: 12, offset: 90229},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2843, col: 12, offset: 90167},
+																pos:        position{line: 2843, col: 12, offset: 90229},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2843, col: 24, offset: 90179},
+																pos:        position{line: 2843, col: 24, offset: 90241},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2843, col: 37, offset: 90192},
+																pos:        position{line: 2843, col: 37, offset: 90254},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2843, col: 48, offset: 90203},
+																pos:        position{line: 2843, col: 48, offset: 90265},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2843, col: 59, offset: 90214},
+																pos:        position{line: 2843, col: 59, offset: 90276},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19487,38 +19487,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2835, col: 30, offset: 89937},
+											pos:   position{line: 2835, col: 30, offset: 89999},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2848, col: 5, offset: 90278},
+												pos: position{line: 2848, col: 5, offset: 90340},
 												run: (*parser).callonImageBlock20,
 												expr: &labeledExpr{
-													pos:   position{line: 2848, col: 5, offset: 90278},
+													pos:   position{line: 2848, col: 5, offset: 90340},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2848, col: 14, offset: 90287},
+														pos: position{line: 2848, col: 14, offset: 90349},
 														expr: &choiceExpr{
-															pos: position{line: 2849, col: 9, offset: 90297},
+															pos: position{line: 2849, col: 9, offset: 90359},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2849, col: 9, offset: 90297},
+																	pos: position{line: 2849, col: 9, offset: 90359},
 																	run: (*parser).callonImageBlock24,
 																	expr: &seqExpr{
-																		pos: position{line: 2849, col: 9, offset: 90297},
+																		pos: position{line: 2849, col: 9, offset: 90359},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2849, col: 9, offset: 90297},
+																				pos: position{line: 2849, col: 9, offset: 90359},
 																				expr: &litMatcher{
-																					pos:        position{line: 2849, col: 10, offset: 90298},
+																					pos:        position{line: 2849, col: 10, offset: 90360},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2850, col: 9, offset: 90326},
+																				pos: position{line: 2850, col: 9, offset: 90388},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2850, col: 10, offset: 90327},
+																					pos:        position{line: 2850, col: 10, offset: 90389},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19529,27 +19529,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2853, col: 11, offset: 90539},
+																	pos: position{line: 2853, col: 11, offset: 90601},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2853, col: 11, offset: 90539},
+																			pos:        position{line: 2853, col: 11, offset: 90601},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2853, col: 19, offset: 90547},
+																			pos: position{line: 2853, col: 19, offset: 90609},
 																			expr: &seqExpr{
-																				pos: position{line: 2853, col: 21, offset: 90549},
+																				pos: position{line: 2853, col: 21, offset: 90611},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2853, col: 21, offset: 90549},
+																						pos: position{line: 2853, col: 21, offset: 90611},
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 10, offset: 91161},
+																							pos: position{line: 2877, col: 10, offset: 91223},
 																							run: (*parser).callonImageBlock35,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2877, col: 10, offset: 91161},
+																								pos:        position{line: 2877, col: 10, offset: 91223},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19558,11 +19558,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2853, col: 28, offset: 90556},
+																						pos: position{line: 2853, col: 28, offset: 90618},
 																						expr: &notExpr{
-																							pos: position{line: 2896, col: 8, offset: 91509},
+																							pos: position{line: 2896, col: 8, offset: 91571},
 																							expr: &anyMatcher{
-																								line: 2896, col: 9, offset: 91510,
+																								line: 2896, col: 9, offset: 91572,
 																							},
 																						},
 																					},
@@ -19961,10 +19961,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2856, col: 11, offset: 90676},
+																	pos: position{line: 2856, col: 11, offset: 90738},
 																	run: (*parser).callonImageBlock118,
 																	expr: &litMatcher{
-																		pos:        position{line: 2856, col: 11, offset: 90676},
+																		pos:        position{line: 2856, col: 11, offset: 90738},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -19991,10 +19991,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1316, col: 81, offset: 41220},
 							expr: &actionExpr{
-								pos: position{line: 2877, col: 10, offset: 91161},
+								pos: position{line: 2877, col: 10, offset: 91223},
 								run: (*parser).callonImageBlock123,
 								expr: &charClassMatcher{
-									pos:        position{line: 2877, col: 10, offset: 91161},
+									pos:        position{line: 2877, col: 10, offset: 91223},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -20006,10 +20006,10 @@ var g = &grammar{
 							pos:   position{line: 1316, col: 88, offset: 41227},
 							label: "end",
 							expr: &actionExpr{
-								pos: position{line: 2902, col: 16, offset: 91683},
+								pos: position{line: 2902, col: 16, offset: 91745},
 								run: (*parser).callonImageBlock126,
 								expr: &litMatcher{
-									pos:        position{line: 2902, col: 16, offset: 91683},
+									pos:        position{line: 2902, col: 16, offset: 91745},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -20021,28 +20021,28 @@ var g = &grammar{
 							run: (*parser).callonImageBlock128,
 						},
 						&choiceExpr{
-							pos: position{line: 2899, col: 8, offset: 91559},
+							pos: position{line: 2899, col: 8, offset: 91621},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2886, col: 12, offset: 91332},
+									pos: position{line: 2886, col: 12, offset: 91394},
 									run: (*parser).callonImageBlock130,
 									expr: &choiceExpr{
-										pos: position{line: 2886, col: 13, offset: 91333},
+										pos: position{line: 2886, col: 13, offset: 91395},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2886, col: 13, offset: 91333},
+												pos:        position{line: 2886, col: 13, offset: 91395},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2886, col: 20, offset: 91340},
+												pos:        position{line: 2886, col: 20, offset: 91402},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2886, col: 29, offset: 91349},
+												pos:        position{line: 2886, col: 29, offset: 91411},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -20051,9 +20051,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2896, col: 8, offset: 91509},
+									pos: position{line: 2896, col: 8, offset: 91571},
 									expr: &anyMatcher{
-										line: 2896, col: 9, offset: 91510,
+										line: 2896, col: 9, offset: 91572,
 									},
 								},
 							},
@@ -20090,48 +20090,48 @@ var g = &grammar{
 							pos:   position{line: 1321, col: 30, offset: 41514},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2835, col: 13, offset: 89920},
+								pos: position{line: 2835, col: 13, offset: 89982},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2835, col: 13, offset: 89920},
+									pos: position{line: 2835, col: 13, offset: 89982},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2835, col: 13, offset: 89920},
+											pos:   position{line: 2835, col: 13, offset: 89982},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2835, col: 20, offset: 89927},
+												pos: position{line: 2835, col: 20, offset: 89989},
 												expr: &actionExpr{
-													pos: position{line: 2843, col: 11, offset: 90166},
+													pos: position{line: 2843, col: 11, offset: 90228},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2843, col: 12, offset: 90167},
+														pos: position{line: 2843, col: 12, offset: 90229},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2843, col: 12, offset: 90167},
+																pos:        position{line: 2843, col: 12, offset: 90229},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2843, col: 24, offset: 90179},
+																pos:        position{line: 2843, col: 24, offset: 90241},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2843, col: 37, offset: 90192},
+																pos:        position{line: 2843, col: 37, offset: 90254},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2843, col: 48, offset: 90203},
+																pos:        position{line: 2843, col: 48, offset: 90265},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2843, col: 59, offset: 90214},
+																pos:        position{line: 2843, col: 59, offset: 90276},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20142,38 +20142,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2835, col: 30, offset: 89937},
+											pos:   position{line: 2835, col: 30, offset: 89999},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2848, col: 5, offset: 90278},
+												pos: position{line: 2848, col: 5, offset: 90340},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2848, col: 5, offset: 90278},
+													pos:   position{line: 2848, col: 5, offset: 90340},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2848, col: 14, offset: 90287},
+														pos: position{line: 2848, col: 14, offset: 90349},
 														expr: &choiceExpr{
-															pos: position{line: 2849, col: 9, offset: 90297},
+															pos: position{line: 2849, col: 9, offset: 90359},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2849, col: 9, offset: 90297},
+																	pos: position{line: 2849, col: 9, offset: 90359},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2849, col: 9, offset: 90297},
+																		pos: position{line: 2849, col: 9, offset: 90359},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2849, col: 9, offset: 90297},
+																				pos: position{line: 2849, col: 9, offset: 90359},
 																				expr: &litMatcher{
-																					pos:        position{line: 2849, col: 10, offset: 90298},
+																					pos:        position{line: 2849, col: 10, offset: 90360},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2850, col: 9, offset: 90326},
+																				pos: position{line: 2850, col: 9, offset: 90388},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2850, col: 10, offset: 90327},
+																					pos:        position{line: 2850, col: 10, offset: 90389},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20184,27 +20184,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2853, col: 11, offset: 90539},
+																	pos: position{line: 2853, col: 11, offset: 90601},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2853, col: 11, offset: 90539},
+																			pos:        position{line: 2853, col: 11, offset: 90601},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2853, col: 19, offset: 90547},
+																			pos: position{line: 2853, col: 19, offset: 90609},
 																			expr: &seqExpr{
-																				pos: position{line: 2853, col: 21, offset: 90549},
+																				pos: position{line: 2853, col: 21, offset: 90611},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2853, col: 21, offset: 90549},
+																						pos: position{line: 2853, col: 21, offset: 90611},
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 10, offset: 91161},
+																							pos: position{line: 2877, col: 10, offset: 91223},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2877, col: 10, offset: 91161},
+																								pos:        position{line: 2877, col: 10, offset: 91223},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20213,11 +20213,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2853, col: 28, offset: 90556},
+																						pos: position{line: 2853, col: 28, offset: 90618},
 																						expr: &notExpr{
-																							pos: position{line: 2896, col: 8, offset: 91509},
+																							pos: position{line: 2896, col: 8, offset: 91571},
 																							expr: &anyMatcher{
-																								line: 2896, col: 9, offset: 91510,
+																								line: 2896, col: 9, offset: 91572,
 																							},
 																						},
 																					},
@@ -20616,10 +20616,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2856, col: 11, offset: 90676},
+																	pos: position{line: 2856, col: 11, offset: 90738},
 																	run: (*parser).callonInlineImage117,
 																	expr: &litMatcher{
-																		pos:        position{line: 2856, col: 11, offset: 90676},
+																		pos:        position{line: 2856, col: 11, offset: 90738},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20798,21 +20798,21 @@ var g = &grammar{
 								pos: position{line: 1348, col: 9, offset: 42800},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2776, col: 5, offset: 88382},
+										pos: position{line: 2776, col: 5, offset: 88444},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2776, col: 5, offset: 88382},
+											pos: position{line: 2776, col: 5, offset: 88444},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2776, col: 5, offset: 88382},
+													pos:   position{line: 2776, col: 5, offset: 88444},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2776, col: 11, offset: 88388},
+														pos: position{line: 2776, col: 11, offset: 88450},
 														run: (*parser).callonFootnoteElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2776, col: 11, offset: 88388},
+															pos: position{line: 2776, col: 11, offset: 88450},
 															expr: &charClassMatcher{
-																pos:        position{line: 2776, col: 11, offset: 88388},
+																pos:        position{line: 2776, col: 11, offset: 88450},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -20822,44 +20822,44 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2779, col: 5, offset: 88446},
+													pos: position{line: 2779, col: 5, offset: 88508},
 													expr: &seqExpr{
-														pos: position{line: 2780, col: 9, offset: 88457},
+														pos: position{line: 2780, col: 9, offset: 88519},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2780, col: 9, offset: 88457},
+																pos:        position{line: 2780, col: 9, offset: 88519},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2781, col: 9, offset: 88506},
+																pos: position{line: 2781, col: 9, offset: 88568},
 																run: (*parser).callonFootnoteElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2785, col: 5, offset: 88586},
+													pos: position{line: 2785, col: 5, offset: 88648},
 													expr: &seqExpr{
-														pos: position{line: 2786, col: 9, offset: 88597},
+														pos: position{line: 2786, col: 9, offset: 88659},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2786, col: 9, offset: 88597},
+																pos: position{line: 2786, col: 9, offset: 88659},
 																expr: &seqExpr{
-																	pos: position{line: 2786, col: 10, offset: 88598},
+																	pos: position{line: 2786, col: 10, offset: 88660},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2786, col: 10, offset: 88598},
+																			pos:        position{line: 2786, col: 10, offset: 88660},
 																			val:        "[._%+-]",
 																			chars:      []rune{'.', '_', '%', '+', '-'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2786, col: 18, offset: 88606},
+																			pos: position{line: 2786, col: 18, offset: 88668},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2786, col: 18, offset: 88606},
+																				pos:        position{line: 2786, col: 18, offset: 88668},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -20870,13 +20870,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2786, col: 30, offset: 88618},
+																pos:        position{line: 2786, col: 30, offset: 88680},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2786, col: 34, offset: 88622},
+																pos:        position{line: 2786, col: 34, offset: 88684},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -20889,12 +20889,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2881, col: 11, offset: 91222},
+										pos: position{line: 2881, col: 11, offset: 91284},
 										run: (*parser).callonFootnoteElement26,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2881, col: 11, offset: 91222},
+											pos: position{line: 2881, col: 11, offset: 91284},
 											expr: &charClassMatcher{
-												pos:        position{line: 2881, col: 11, offset: 91222},
+												pos:        position{line: 2881, col: 11, offset: 91284},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -20903,25 +20903,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2502, col: 5, offset: 80764},
+										pos: position{line: 2502, col: 5, offset: 80826},
 										run: (*parser).callonFootnoteElement29,
 										expr: &seqExpr{
-											pos: position{line: 2502, col: 5, offset: 80764},
+											pos: position{line: 2502, col: 5, offset: 80826},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2502, col: 5, offset: 80764},
+													pos: position{line: 2502, col: 5, offset: 80826},
 													run: (*parser).callonFootnoteElement31,
 												},
 												&litMatcher{
-													pos:        position{line: 2505, col: 5, offset: 80835},
+													pos:        position{line: 2505, col: 5, offset: 80897},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2505, col: 10, offset: 80840},
+													pos: position{line: 2505, col: 10, offset: 80902},
 													expr: &charClassMatcher{
-														pos:        position{line: 2505, col: 11, offset: 80841},
+														pos:        position{line: 2505, col: 11, offset: 80903},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -20932,29 +20932,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2511, col: 5, offset: 81033},
+										pos: position{line: 2511, col: 5, offset: 81095},
 										run: (*parser).callonFootnoteElement35,
 										expr: &seqExpr{
-											pos: position{line: 2511, col: 5, offset: 81033},
+											pos: position{line: 2511, col: 5, offset: 81095},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2511, col: 5, offset: 81033},
+													pos: position{line: 2511, col: 5, offset: 81095},
 													run: (*parser).callonFootnoteElement37,
 												},
 												&andCodeExpr{
-													pos: position{line: 2514, col: 5, offset: 81104},
+													pos: position{line: 2514, col: 5, offset: 81166},
 													run: (*parser).callonFootnoteElement38,
 												},
 												&litMatcher{
-													pos:        position{line: 2518, col: 5, offset: 81229},
+													pos:        position{line: 2518, col: 5, offset: 81291},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2518, col: 9, offset: 81233},
+													pos: position{line: 2518, col: 9, offset: 81295},
 													expr: &charClassMatcher{
-														pos:        position{line: 2518, col: 10, offset: 81234},
+														pos:        position{line: 2518, col: 10, offset: 81296},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -20973,27 +20973,27 @@ var g = &grammar{
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2794, col: 5, offset: 88815},
+										pos: position{line: 2794, col: 5, offset: 88877},
 										run: (*parser).callonFootnoteElement44,
 										expr: &choiceExpr{
-											pos: position{line: 2795, col: 9, offset: 88825},
+											pos: position{line: 2795, col: 9, offset: 88887},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2795, col: 10, offset: 88826},
+													pos:        position{line: 2795, col: 10, offset: 88888},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2797, col: 13, offset: 88923},
+													pos: position{line: 2797, col: 13, offset: 88985},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2797, col: 13, offset: 88923},
+															pos: position{line: 2797, col: 13, offset: 88985},
 															run: (*parser).callonFootnoteElement48,
 														},
 														&litMatcher{
-															pos:        position{line: 2800, col: 13, offset: 89023},
+															pos:        position{line: 2800, col: 13, offset: 89085},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -21001,20 +21001,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2800, col: 19, offset: 89029},
+													pos:        position{line: 2800, col: 19, offset: 89091},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2803, col: 13, offset: 89067},
+													pos: position{line: 2803, col: 13, offset: 89129},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2803, col: 13, offset: 89067},
+															pos: position{line: 2803, col: 13, offset: 89129},
 															run: (*parser).callonFootnoteElement52,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2806, col: 14, offset: 89160},
+															pos:        position{line: 2806, col: 14, offset: 89222},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -21023,18 +21023,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2808, col: 12, offset: 89204},
+													pos: position{line: 2808, col: 12, offset: 89266},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2808, col: 12, offset: 89204},
+															pos:        position{line: 2808, col: 12, offset: 89266},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2808, col: 16, offset: 89208},
+															pos: position{line: 2808, col: 16, offset: 89270},
 															expr: &litMatcher{
-																pos:        position{line: 2808, col: 17, offset: 89209},
+																pos:        position{line: 2808, col: 17, offset: 89271},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -21072,10 +21072,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 1218, col: 5, offset: 37733},
 													expr: &actionExpr{
-														pos: position{line: 2877, col: 10, offset: 91161},
+														pos: position{line: 2877, col: 10, offset: 91223},
 														run: (*parser).callonFootnoteElement65,
 														expr: &charClassMatcher{
-															pos:        position{line: 2877, col: 10, offset: 91161},
+															pos:        position{line: 2877, col: 10, offset: 91223},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -21086,28 +21086,28 @@ var g = &grammar{
 												&andExpr{
 													pos: position{line: 1218, col: 12, offset: 37740},
 													expr: &choiceExpr{
-														pos: position{line: 2899, col: 8, offset: 91559},
+														pos: position{line: 2899, col: 8, offset: 91621},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2886, col: 12, offset: 91332},
+																pos: position{line: 2886, col: 12, offset: 91394},
 																run: (*parser).callonFootnoteElement69,
 																expr: &choiceExpr{
-																	pos: position{line: 2886, col: 13, offset: 91333},
+																	pos: position{line: 2886, col: 13, offset: 91395},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 13, offset: 91333},
+																			pos:        position{line: 2886, col: 13, offset: 91395},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 20, offset: 91340},
+																			pos:        position{line: 2886, col: 20, offset: 91402},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 29, offset: 91349},
+																			pos:        position{line: 2886, col: 29, offset: 91411},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -21116,9 +21116,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2896, col: 8, offset: 91509},
+																pos: position{line: 2896, col: 8, offset: 91571},
 																expr: &anyMatcher{
-																	line: 2896, col: 9, offset: 91510,
+																	line: 2896, col: 9, offset: 91572,
 																},
 															},
 														},
@@ -21474,23 +21474,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2471, col: 5, offset: 79593},
+										pos: position{line: 2471, col: 5, offset: 79655},
 										run: (*parser).callonFootnoteElement145,
 										expr: &seqExpr{
-											pos: position{line: 2471, col: 5, offset: 79593},
+											pos: position{line: 2471, col: 5, offset: 79655},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2471, col: 5, offset: 79593},
+													pos: position{line: 2471, col: 5, offset: 79655},
 													run: (*parser).callonFootnoteElement147,
 												},
 												&labeledExpr{
-													pos:   position{line: 2474, col: 5, offset: 79669},
+													pos:   position{line: 2474, col: 5, offset: 79731},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2475, col: 9, offset: 79687},
+														pos: position{line: 2475, col: 9, offset: 79749},
 														run: (*parser).callonFootnoteElement149,
 														expr: &charClassMatcher{
-															pos:        position{line: 2475, col: 10, offset: 79688},
+															pos:        position{line: 2475, col: 10, offset: 79750},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -21502,25 +21502,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2886, col: 12, offset: 91332},
+										pos: position{line: 2886, col: 12, offset: 91394},
 										run: (*parser).callonFootnoteElement151,
 										expr: &choiceExpr{
-											pos: position{line: 2886, col: 13, offset: 91333},
+											pos: position{line: 2886, col: 13, offset: 91395},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2886, col: 13, offset: 91333},
+													pos:        position{line: 2886, col: 13, offset: 91395},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2886, col: 20, offset: 91340},
+													pos:        position{line: 2886, col: 20, offset: 91402},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2886, col: 29, offset: 91349},
+													pos:        position{line: 2886, col: 29, offset: 91411},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -21529,10 +21529,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2816, col: 12, offset: 89469},
+										pos: position{line: 2816, col: 12, offset: 89531},
 										run: (*parser).callonFootnoteElement156,
 										expr: &charClassMatcher{
-											pos:        position{line: 2816, col: 12, offset: 89469},
+											pos:        position{line: 2816, col: 12, offset: 89531},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -21684,55 +21684,55 @@ var g = &grammar{
 									pos:   position{line: 1420, col: 5, offset: 45770},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2839, col: 23, offset: 90047},
+										pos: position{line: 2839, col: 23, offset: 90109},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2839, col: 23, offset: 90047},
+											pos: position{line: 2839, col: 23, offset: 90109},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2839, col: 23, offset: 90047},
+													pos: position{line: 2839, col: 23, offset: 90109},
 													expr: &litMatcher{
-														pos:        position{line: 2839, col: 24, offset: 90048},
+														pos:        position{line: 2839, col: 24, offset: 90110},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2839, col: 28, offset: 90052},
+													pos:   position{line: 2839, col: 28, offset: 90114},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2843, col: 11, offset: 90166},
+														pos: position{line: 2843, col: 11, offset: 90228},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2843, col: 12, offset: 90167},
+															pos: position{line: 2843, col: 12, offset: 90229},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2843, col: 12, offset: 90167},
+																	pos:        position{line: 2843, col: 12, offset: 90229},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2843, col: 24, offset: 90179},
+																	pos:        position{line: 2843, col: 24, offset: 90241},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2843, col: 37, offset: 90192},
+																	pos:        position{line: 2843, col: 37, offset: 90254},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2843, col: 48, offset: 90203},
+																	pos:        position{line: 2843, col: 48, offset: 90265},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2843, col: 59, offset: 90214},
+																	pos:        position{line: 2843, col: 59, offset: 90276},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -21742,38 +21742,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2839, col: 44, offset: 90068},
+													pos:   position{line: 2839, col: 44, offset: 90130},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2848, col: 5, offset: 90278},
+														pos: position{line: 2848, col: 5, offset: 90340},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2848, col: 5, offset: 90278},
+															pos:   position{line: 2848, col: 5, offset: 90340},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2848, col: 14, offset: 90287},
+																pos: position{line: 2848, col: 14, offset: 90349},
 																expr: &choiceExpr{
-																	pos: position{line: 2849, col: 9, offset: 90297},
+																	pos: position{line: 2849, col: 9, offset: 90359},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2849, col: 9, offset: 90297},
+																			pos: position{line: 2849, col: 9, offset: 90359},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2849, col: 9, offset: 90297},
+																				pos: position{line: 2849, col: 9, offset: 90359},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2849, col: 9, offset: 90297},
+																						pos: position{line: 2849, col: 9, offset: 90359},
 																						expr: &litMatcher{
-																							pos:        position{line: 2849, col: 10, offset: 90298},
+																							pos:        position{line: 2849, col: 10, offset: 90360},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2850, col: 9, offset: 90326},
+																						pos: position{line: 2850, col: 9, offset: 90388},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2850, col: 10, offset: 90327},
+																							pos:        position{line: 2850, col: 10, offset: 90389},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -21784,27 +21784,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2853, col: 11, offset: 90539},
+																			pos: position{line: 2853, col: 11, offset: 90601},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2853, col: 11, offset: 90539},
+																					pos:        position{line: 2853, col: 11, offset: 90601},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2853, col: 19, offset: 90547},
+																					pos: position{line: 2853, col: 19, offset: 90609},
 																					expr: &seqExpr{
-																						pos: position{line: 2853, col: 21, offset: 90549},
+																						pos: position{line: 2853, col: 21, offset: 90611},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2853, col: 21, offset: 90549},
+																								pos: position{line: 2853, col: 21, offset: 90611},
 																								expr: &actionExpr{
-																									pos: position{line: 2877, col: 10, offset: 91161},
+																									pos: position{line: 2877, col: 10, offset: 91223},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 10, offset: 91161},
+																										pos:        position{line: 2877, col: 10, offset: 91223},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -21813,11 +21813,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2853, col: 28, offset: 90556},
+																								pos: position{line: 2853, col: 28, offset: 90618},
 																								expr: &notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91509},
+																									pos: position{line: 2896, col: 8, offset: 91571},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91510,
+																										line: 2896, col: 9, offset: 91572,
 																									},
 																								},
 																							},
@@ -22216,10 +22216,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2856, col: 11, offset: 90676},
+																			pos: position{line: 2856, col: 11, offset: 90738},
 																			run: (*parser).callonLink117,
 																			expr: &litMatcher{
-																				pos:        position{line: 2856, col: 11, offset: 90676},
+																				pos:        position{line: 2856, col: 11, offset: 90738},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22424,48 +22424,48 @@ var g = &grammar{
 									pos:   position{line: 1433, col: 17, offset: 46185},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2835, col: 13, offset: 89920},
+										pos: position{line: 2835, col: 13, offset: 89982},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2835, col: 13, offset: 89920},
+											pos: position{line: 2835, col: 13, offset: 89982},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2835, col: 13, offset: 89920},
+													pos:   position{line: 2835, col: 13, offset: 89982},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2835, col: 20, offset: 89927},
+														pos: position{line: 2835, col: 20, offset: 89989},
 														expr: &actionExpr{
-															pos: position{line: 2843, col: 11, offset: 90166},
+															pos: position{line: 2843, col: 11, offset: 90228},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2843, col: 12, offset: 90167},
+																pos: position{line: 2843, col: 12, offset: 90229},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2843, col: 12, offset: 90167},
+																		pos:        position{line: 2843, col: 12, offset: 90229},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2843, col: 24, offset: 90179},
+																		pos:        position{line: 2843, col: 24, offset: 90241},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2843, col: 37, offset: 90192},
+																		pos:        position{line: 2843, col: 37, offset: 90254},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2843, col: 48, offset: 90203},
+																		pos:        position{line: 2843, col: 48, offset: 90265},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2843, col: 59, offset: 90214},
+																		pos:        position{line: 2843, col: 59, offset: 90276},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22476,38 +22476,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2835, col: 30, offset: 89937},
+													pos:   position{line: 2835, col: 30, offset: 89999},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2848, col: 5, offset: 90278},
+														pos: position{line: 2848, col: 5, offset: 90340},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2848, col: 5, offset: 90278},
+															pos:   position{line: 2848, col: 5, offset: 90340},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2848, col: 14, offset: 90287},
+																pos: position{line: 2848, col: 14, offset: 90349},
 																expr: &choiceExpr{
-																	pos: position{line: 2849, col: 9, offset: 90297},
+																	pos: position{line: 2849, col: 9, offset: 90359},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2849, col: 9, offset: 90297},
+																			pos: position{line: 2849, col: 9, offset: 90359},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2849, col: 9, offset: 90297},
+																				pos: position{line: 2849, col: 9, offset: 90359},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2849, col: 9, offset: 90297},
+																						pos: position{line: 2849, col: 9, offset: 90359},
 																						expr: &litMatcher{
-																							pos:        position{line: 2849, col: 10, offset: 90298},
+																							pos:        position{line: 2849, col: 10, offset: 90360},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2850, col: 9, offset: 90326},
+																						pos: position{line: 2850, col: 9, offset: 90388},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2850, col: 10, offset: 90327},
+																							pos:        position{line: 2850, col: 10, offset: 90389},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22518,27 +22518,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2853, col: 11, offset: 90539},
+																			pos: position{line: 2853, col: 11, offset: 90601},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2853, col: 11, offset: 90539},
+																					pos:        position{line: 2853, col: 11, offset: 90601},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2853, col: 19, offset: 90547},
+																					pos: position{line: 2853, col: 19, offset: 90609},
 																					expr: &seqExpr{
-																						pos: position{line: 2853, col: 21, offset: 90549},
+																						pos: position{line: 2853, col: 21, offset: 90611},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2853, col: 21, offset: 90549},
+																								pos: position{line: 2853, col: 21, offset: 90611},
 																								expr: &actionExpr{
-																									pos: position{line: 2877, col: 10, offset: 91161},
+																									pos: position{line: 2877, col: 10, offset: 91223},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 10, offset: 91161},
+																										pos:        position{line: 2877, col: 10, offset: 91223},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22547,11 +22547,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2853, col: 28, offset: 90556},
+																								pos: position{line: 2853, col: 28, offset: 90618},
 																								expr: &notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91509},
+																									pos: position{line: 2896, col: 8, offset: 91571},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91510,
+																										line: 2896, col: 9, offset: 91572,
 																									},
 																								},
 																							},
@@ -22950,10 +22950,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2856, col: 11, offset: 90676},
+																			pos: position{line: 2856, col: 11, offset: 90738},
 																			run: (*parser).callonRelativeLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2856, col: 11, offset: 90676},
+																				pos:        position{line: 2856, col: 11, offset: 90738},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22996,48 +22996,48 @@ var g = &grammar{
 									pos:   position{line: 1438, col: 13, offset: 46395},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2835, col: 13, offset: 89920},
+										pos: position{line: 2835, col: 13, offset: 89982},
 										run: (*parser).callonRelativeLink124,
 										expr: &seqExpr{
-											pos: position{line: 2835, col: 13, offset: 89920},
+											pos: position{line: 2835, col: 13, offset: 89982},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2835, col: 13, offset: 89920},
+													pos:   position{line: 2835, col: 13, offset: 89982},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2835, col: 20, offset: 89927},
+														pos: position{line: 2835, col: 20, offset: 89989},
 														expr: &actionExpr{
-															pos: position{line: 2843, col: 11, offset: 90166},
+															pos: position{line: 2843, col: 11, offset: 90228},
 															run: (*parser).callonRelativeLink128,
 															expr: &choiceExpr{
-																pos: position{line: 2843, col: 12, offset: 90167},
+																pos: position{line: 2843, col: 12, offset: 90229},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2843, col: 12, offset: 90167},
+																		pos:        position{line: 2843, col: 12, offset: 90229},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2843, col: 24, offset: 90179},
+																		pos:        position{line: 2843, col: 24, offset: 90241},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2843, col: 37, offset: 90192},
+																		pos:        position{line: 2843, col: 37, offset: 90254},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2843, col: 48, offset: 90203},
+																		pos:        position{line: 2843, col: 48, offset: 90265},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2843, col: 59, offset: 90214},
+																		pos:        position{line: 2843, col: 59, offset: 90276},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23048,38 +23048,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2835, col: 30, offset: 89937},
+													pos:   position{line: 2835, col: 30, offset: 89999},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2848, col: 5, offset: 90278},
+														pos: position{line: 2848, col: 5, offset: 90340},
 														run: (*parser).callonRelativeLink136,
 														expr: &labeledExpr{
-															pos:   position{line: 2848, col: 5, offset: 90278},
+															pos:   position{line: 2848, col: 5, offset: 90340},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2848, col: 14, offset: 90287},
+																pos: position{line: 2848, col: 14, offset: 90349},
 																expr: &choiceExpr{
-																	pos: position{line: 2849, col: 9, offset: 90297},
+																	pos: position{line: 2849, col: 9, offset: 90359},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2849, col: 9, offset: 90297},
+																			pos: position{line: 2849, col: 9, offset: 90359},
 																			run: (*parser).callonRelativeLink140,
 																			expr: &seqExpr{
-																				pos: position{line: 2849, col: 9, offset: 90297},
+																				pos: position{line: 2849, col: 9, offset: 90359},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2849, col: 9, offset: 90297},
+																						pos: position{line: 2849, col: 9, offset: 90359},
 																						expr: &litMatcher{
-																							pos:        position{line: 2849, col: 10, offset: 90298},
+																							pos:        position{line: 2849, col: 10, offset: 90360},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2850, col: 9, offset: 90326},
+																						pos: position{line: 2850, col: 9, offset: 90388},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2850, col: 10, offset: 90327},
+																							pos:        position{line: 2850, col: 10, offset: 90389},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23090,27 +23090,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2853, col: 11, offset: 90539},
+																			pos: position{line: 2853, col: 11, offset: 90601},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2853, col: 11, offset: 90539},
+																					pos:        position{line: 2853, col: 11, offset: 90601},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2853, col: 19, offset: 90547},
+																					pos: position{line: 2853, col: 19, offset: 90609},
 																					expr: &seqExpr{
-																						pos: position{line: 2853, col: 21, offset: 90549},
+																						pos: position{line: 2853, col: 21, offset: 90611},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2853, col: 21, offset: 90549},
+																								pos: position{line: 2853, col: 21, offset: 90611},
 																								expr: &actionExpr{
-																									pos: position{line: 2877, col: 10, offset: 91161},
+																									pos: position{line: 2877, col: 10, offset: 91223},
 																									run: (*parser).callonRelativeLink151,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 10, offset: 91161},
+																										pos:        position{line: 2877, col: 10, offset: 91223},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23119,11 +23119,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2853, col: 28, offset: 90556},
+																								pos: position{line: 2853, col: 28, offset: 90618},
 																								expr: &notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91509},
+																									pos: position{line: 2896, col: 8, offset: 91571},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91510,
+																										line: 2896, col: 9, offset: 91572,
 																									},
 																								},
 																							},
@@ -23522,10 +23522,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2856, col: 11, offset: 90676},
+																			pos: position{line: 2856, col: 11, offset: 90738},
 																			run: (*parser).callonRelativeLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2856, col: 11, offset: 90676},
+																				pos:        position{line: 2856, col: 11, offset: 90738},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23577,55 +23577,55 @@ var g = &grammar{
 									pos:   position{line: 1445, col: 9, offset: 46704},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2839, col: 23, offset: 90047},
+										pos: position{line: 2839, col: 23, offset: 90109},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2839, col: 23, offset: 90047},
+											pos: position{line: 2839, col: 23, offset: 90109},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2839, col: 23, offset: 90047},
+													pos: position{line: 2839, col: 23, offset: 90109},
 													expr: &litMatcher{
-														pos:        position{line: 2839, col: 24, offset: 90048},
+														pos:        position{line: 2839, col: 24, offset: 90110},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2839, col: 28, offset: 90052},
+													pos:   position{line: 2839, col: 28, offset: 90114},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2843, col: 11, offset: 90166},
+														pos: position{line: 2843, col: 11, offset: 90228},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2843, col: 12, offset: 90167},
+															pos: position{line: 2843, col: 12, offset: 90229},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2843, col: 12, offset: 90167},
+																	pos:        position{line: 2843, col: 12, offset: 90229},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2843, col: 24, offset: 90179},
+																	pos:        position{line: 2843, col: 24, offset: 90241},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2843, col: 37, offset: 90192},
+																	pos:        position{line: 2843, col: 37, offset: 90254},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2843, col: 48, offset: 90203},
+																	pos:        position{line: 2843, col: 48, offset: 90265},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2843, col: 59, offset: 90214},
+																	pos:        position{line: 2843, col: 59, offset: 90276},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23635,38 +23635,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2839, col: 44, offset: 90068},
+													pos:   position{line: 2839, col: 44, offset: 90130},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2848, col: 5, offset: 90278},
+														pos: position{line: 2848, col: 5, offset: 90340},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2848, col: 5, offset: 90278},
+															pos:   position{line: 2848, col: 5, offset: 90340},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2848, col: 14, offset: 90287},
+																pos: position{line: 2848, col: 14, offset: 90349},
 																expr: &choiceExpr{
-																	pos: position{line: 2849, col: 9, offset: 90297},
+																	pos: position{line: 2849, col: 9, offset: 90359},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2849, col: 9, offset: 90297},
+																			pos: position{line: 2849, col: 9, offset: 90359},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2849, col: 9, offset: 90297},
+																				pos: position{line: 2849, col: 9, offset: 90359},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2849, col: 9, offset: 90297},
+																						pos: position{line: 2849, col: 9, offset: 90359},
 																						expr: &litMatcher{
-																							pos:        position{line: 2849, col: 10, offset: 90298},
+																							pos:        position{line: 2849, col: 10, offset: 90360},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2850, col: 9, offset: 90326},
+																						pos: position{line: 2850, col: 9, offset: 90388},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2850, col: 10, offset: 90327},
+																							pos:        position{line: 2850, col: 10, offset: 90389},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23677,27 +23677,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2853, col: 11, offset: 90539},
+																			pos: position{line: 2853, col: 11, offset: 90601},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2853, col: 11, offset: 90539},
+																					pos:        position{line: 2853, col: 11, offset: 90601},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2853, col: 19, offset: 90547},
+																					pos: position{line: 2853, col: 19, offset: 90609},
 																					expr: &seqExpr{
-																						pos: position{line: 2853, col: 21, offset: 90549},
+																						pos: position{line: 2853, col: 21, offset: 90611},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2853, col: 21, offset: 90549},
+																								pos: position{line: 2853, col: 21, offset: 90611},
 																								expr: &actionExpr{
-																									pos: position{line: 2877, col: 10, offset: 91161},
+																									pos: position{line: 2877, col: 10, offset: 91223},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 10, offset: 91161},
+																										pos:        position{line: 2877, col: 10, offset: 91223},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23706,11 +23706,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2853, col: 28, offset: 90556},
+																								pos: position{line: 2853, col: 28, offset: 90618},
 																								expr: &notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91509},
+																									pos: position{line: 2896, col: 8, offset: 91571},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91510,
+																										line: 2896, col: 9, offset: 91572,
 																									},
 																								},
 																							},
@@ -24109,10 +24109,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2856, col: 11, offset: 90676},
+																			pos: position{line: 2856, col: 11, offset: 90738},
 																			run: (*parser).callonExternalLink117,
 																			expr: &litMatcher{
-																				pos:        position{line: 2856, col: 11, offset: 90676},
+																				pos:        position{line: 2856, col: 11, offset: 90738},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24152,55 +24152,55 @@ var g = &grammar{
 									pos:   position{line: 1450, col: 5, offset: 46917},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2839, col: 23, offset: 90047},
+										pos: position{line: 2839, col: 23, offset: 90109},
 										run: (*parser).callonExternalLink125,
 										expr: &seqExpr{
-											pos: position{line: 2839, col: 23, offset: 90047},
+											pos: position{line: 2839, col: 23, offset: 90109},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2839, col: 23, offset: 90047},
+													pos: position{line: 2839, col: 23, offset: 90109},
 													expr: &litMatcher{
-														pos:        position{line: 2839, col: 24, offset: 90048},
+														pos:        position{line: 2839, col: 24, offset: 90110},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2839, col: 28, offset: 90052},
+													pos:   position{line: 2839, col: 28, offset: 90114},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2843, col: 11, offset: 90166},
+														pos: position{line: 2843, col: 11, offset: 90228},
 														run: (*parser).callonExternalLink130,
 														expr: &choiceExpr{
-															pos: position{line: 2843, col: 12, offset: 90167},
+															pos: position{line: 2843, col: 12, offset: 90229},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2843, col: 12, offset: 90167},
+																	pos:        position{line: 2843, col: 12, offset: 90229},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2843, col: 24, offset: 90179},
+																	pos:        position{line: 2843, col: 24, offset: 90241},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2843, col: 37, offset: 90192},
+																	pos:        position{line: 2843, col: 37, offset: 90254},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2843, col: 48, offset: 90203},
+																	pos:        position{line: 2843, col: 48, offset: 90265},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2843, col: 59, offset: 90214},
+																	pos:        position{line: 2843, col: 59, offset: 90276},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24210,38 +24210,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2839, col: 44, offset: 90068},
+													pos:   position{line: 2839, col: 44, offset: 90130},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2848, col: 5, offset: 90278},
+														pos: position{line: 2848, col: 5, offset: 90340},
 														run: (*parser).callonExternalLink138,
 														expr: &labeledExpr{
-															pos:   position{line: 2848, col: 5, offset: 90278},
+															pos:   position{line: 2848, col: 5, offset: 90340},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2848, col: 14, offset: 90287},
+																pos: position{line: 2848, col: 14, offset: 90349},
 																expr: &choiceExpr{
-																	pos: position{line: 2849, col: 9, offset: 90297},
+																	pos: position{line: 2849, col: 9, offset: 90359},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2849, col: 9, offset: 90297},
+																			pos: position{line: 2849, col: 9, offset: 90359},
 																			run: (*parser).callonExternalLink142,
 																			expr: &seqExpr{
-																				pos: position{line: 2849, col: 9, offset: 90297},
+																				pos: position{line: 2849, col: 9, offset: 90359},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2849, col: 9, offset: 90297},
+																						pos: position{line: 2849, col: 9, offset: 90359},
 																						expr: &litMatcher{
-																							pos:        position{line: 2849, col: 10, offset: 90298},
+																							pos:        position{line: 2849, col: 10, offset: 90360},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2850, col: 9, offset: 90326},
+																						pos: position{line: 2850, col: 9, offset: 90388},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2850, col: 10, offset: 90327},
+																							pos:        position{line: 2850, col: 10, offset: 90389},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24252,27 +24252,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2853, col: 11, offset: 90539},
+																			pos: position{line: 2853, col: 11, offset: 90601},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2853, col: 11, offset: 90539},
+																					pos:        position{line: 2853, col: 11, offset: 90601},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2853, col: 19, offset: 90547},
+																					pos: position{line: 2853, col: 19, offset: 90609},
 																					expr: &seqExpr{
-																						pos: position{line: 2853, col: 21, offset: 90549},
+																						pos: position{line: 2853, col: 21, offset: 90611},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2853, col: 21, offset: 90549},
+																								pos: position{line: 2853, col: 21, offset: 90611},
 																								expr: &actionExpr{
-																									pos: position{line: 2877, col: 10, offset: 91161},
+																									pos: position{line: 2877, col: 10, offset: 91223},
 																									run: (*parser).callonExternalLink153,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 10, offset: 91161},
+																										pos:        position{line: 2877, col: 10, offset: 91223},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24281,11 +24281,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2853, col: 28, offset: 90556},
+																								pos: position{line: 2853, col: 28, offset: 90618},
 																								expr: &notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91509},
+																									pos: position{line: 2896, col: 8, offset: 91571},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91510,
+																										line: 2896, col: 9, offset: 91572,
 																									},
 																								},
 																							},
@@ -24684,10 +24684,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2856, col: 11, offset: 90676},
+																			pos: position{line: 2856, col: 11, offset: 90738},
 																			run: (*parser).callonExternalLink236,
 																			expr: &litMatcher{
-																				pos:        position{line: 2856, col: 11, offset: 90676},
+																				pos:        position{line: 2856, col: 11, offset: 90738},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24753,10 +24753,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1588, col: 5, offset: 51449},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91161},
+																		pos: position{line: 2877, col: 10, offset: 91223},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91161},
+																			pos:        position{line: 2877, col: 10, offset: 91223},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24923,12 +24923,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2881, col: 11, offset: 91222},
+																	pos: position{line: 2881, col: 11, offset: 91284},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2881, col: 11, offset: 91222},
+																		pos: position{line: 2881, col: 11, offset: 91284},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2881, col: 11, offset: 91222},
+																			pos:        position{line: 2881, col: 11, offset: 91284},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24971,28 +24971,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91559},
+																	pos: position{line: 2899, col: 8, offset: 91621},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91332},
+																			pos: position{line: 2886, col: 12, offset: 91394},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91333},
+																				pos: position{line: 2886, col: 13, offset: 91395},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91333},
+																						pos:        position{line: 2886, col: 13, offset: 91395},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91340},
+																						pos:        position{line: 2886, col: 20, offset: 91402},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91349},
+																						pos:        position{line: 2886, col: 29, offset: 91411},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25001,9 +25001,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91509},
+																			pos: position{line: 2896, col: 8, offset: 91571},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91510,
+																				line: 2896, col: 9, offset: 91572,
 																			},
 																		},
 																	},
@@ -25033,10 +25033,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1638, col: 5, offset: 53411},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91161},
+																		pos: position{line: 2877, col: 10, offset: 91223},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91161},
+																			pos:        position{line: 2877, col: 10, offset: 91223},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25077,12 +25077,12 @@ var g = &grammar{
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2881, col: 11, offset: 91222},
+																	pos: position{line: 2881, col: 11, offset: 91284},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2881, col: 11, offset: 91222},
+																		pos: position{line: 2881, col: 11, offset: 91284},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2881, col: 11, offset: 91222},
+																			pos:        position{line: 2881, col: 11, offset: 91284},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25154,12 +25154,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2881, col: 11, offset: 91222},
+																		pos: position{line: 2881, col: 11, offset: 91284},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2881, col: 11, offset: 91222},
+																			pos: position{line: 2881, col: 11, offset: 91284},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2881, col: 11, offset: 91222},
+																				pos:        position{line: 2881, col: 11, offset: 91284},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -25203,28 +25203,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91559},
+																	pos: position{line: 2899, col: 8, offset: 91621},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91332},
+																			pos: position{line: 2886, col: 12, offset: 91394},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91333},
+																				pos: position{line: 2886, col: 13, offset: 91395},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91333},
+																						pos:        position{line: 2886, col: 13, offset: 91395},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91340},
+																						pos:        position{line: 2886, col: 20, offset: 91402},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91349},
+																						pos:        position{line: 2886, col: 29, offset: 91411},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25233,9 +25233,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91509},
+																			pos: position{line: 2896, col: 8, offset: 91571},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91510,
+																				line: 2896, col: 9, offset: 91572,
 																			},
 																		},
 																	},
@@ -25293,12 +25293,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2881, col: 11, offset: 91222},
+																	pos: position{line: 2881, col: 11, offset: 91284},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2881, col: 11, offset: 91222},
+																		pos: position{line: 2881, col: 11, offset: 91284},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2881, col: 11, offset: 91222},
+																			pos:        position{line: 2881, col: 11, offset: 91284},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25341,28 +25341,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91559},
+																	pos: position{line: 2899, col: 8, offset: 91621},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91332},
+																			pos: position{line: 2886, col: 12, offset: 91394},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91333},
+																				pos: position{line: 2886, col: 13, offset: 91395},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91333},
+																						pos:        position{line: 2886, col: 13, offset: 91395},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91340},
+																						pos:        position{line: 2886, col: 20, offset: 91402},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91349},
+																						pos:        position{line: 2886, col: 29, offset: 91411},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25371,9 +25371,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91509},
+																			pos: position{line: 2896, col: 8, offset: 91571},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91510,
+																				line: 2896, col: 9, offset: 91572,
 																			},
 																		},
 																	},
@@ -25403,18 +25403,18 @@ var g = &grammar{
 																&notExpr{
 																	pos: position{line: 1673, col: 5, offset: 54430},
 																	expr: &seqExpr{
-																		pos: position{line: 2489, col: 31, offset: 80268},
+																		pos: position{line: 2489, col: 31, offset: 80330},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2489, col: 31, offset: 80268},
+																				pos:        position{line: 2489, col: 31, offset: 80330},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2489, col: 36, offset: 80273},
+																				pos: position{line: 2489, col: 36, offset: 80335},
 																				expr: &litMatcher{
-																					pos:        position{line: 2489, col: 37, offset: 80274},
+																					pos:        position{line: 2489, col: 37, offset: 80336},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
@@ -25464,28 +25464,28 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1674, col: 35, offset: 54492},
 																				expr: &choiceExpr{
-																					pos: position{line: 2899, col: 8, offset: 91559},
+																					pos: position{line: 2899, col: 8, offset: 91621},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2886, col: 12, offset: 91332},
+																							pos: position{line: 2886, col: 12, offset: 91394},
 																							run: (*parser).callonListElements167,
 																							expr: &choiceExpr{
-																								pos: position{line: 2886, col: 13, offset: 91333},
+																								pos: position{line: 2886, col: 13, offset: 91395},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 13, offset: 91333},
+																										pos:        position{line: 2886, col: 13, offset: 91395},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 20, offset: 91340},
+																										pos:        position{line: 2886, col: 20, offset: 91402},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 29, offset: 91349},
+																										pos:        position{line: 2886, col: 29, offset: 91411},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -25494,9 +25494,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2896, col: 8, offset: 91509},
+																							pos: position{line: 2896, col: 8, offset: 91571},
 																							expr: &anyMatcher{
-																								line: 2896, col: 9, offset: 91510,
+																								line: 2896, col: 9, offset: 91572,
 																							},
 																						},
 																					},
@@ -25561,10 +25561,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 1692, col: 9, offset: 54997},
 																			expr: &actionExpr{
-																				pos: position{line: 2877, col: 10, offset: 91161},
+																				pos: position{line: 2877, col: 10, offset: 91223},
 																				run: (*parser).callonListElements188,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 10, offset: 91161},
+																					pos:        position{line: 2877, col: 10, offset: 91223},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25573,28 +25573,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2899, col: 8, offset: 91559},
+																			pos: position{line: 2899, col: 8, offset: 91621},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2886, col: 12, offset: 91332},
+																					pos: position{line: 2886, col: 12, offset: 91394},
 																					run: (*parser).callonListElements191,
 																					expr: &choiceExpr{
-																						pos: position{line: 2886, col: 13, offset: 91333},
+																						pos: position{line: 2886, col: 13, offset: 91395},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 13, offset: 91333},
+																								pos:        position{line: 2886, col: 13, offset: 91395},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 20, offset: 91340},
+																								pos:        position{line: 2886, col: 20, offset: 91402},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 29, offset: 91349},
+																								pos:        position{line: 2886, col: 29, offset: 91411},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25603,9 +25603,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91509},
+																					pos: position{line: 2896, col: 8, offset: 91571},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91510,
+																						line: 2896, col: 9, offset: 91572,
 																					},
 																				},
 																			},
@@ -25619,18 +25619,18 @@ var g = &grammar{
 																					pos: position{line: 677, col: 14, offset: 21525},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2894, col: 11, offset: 91495},
+																							pos: position{line: 2894, col: 11, offset: 91557},
 																							expr: &anyMatcher{
-																								line: 2894, col: 13, offset: 91497,
+																								line: 2894, col: 13, offset: 91559,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 677, col: 21, offset: 21532},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91161},
+																								pos: position{line: 2877, col: 10, offset: 91223},
 																								run: (*parser).callonListElements204,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91161},
+																									pos:        position{line: 2877, col: 10, offset: 91223},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25639,28 +25639,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91559},
+																							pos: position{line: 2899, col: 8, offset: 91621},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91332},
+																									pos: position{line: 2886, col: 12, offset: 91394},
 																									run: (*parser).callonListElements207,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91333},
+																										pos: position{line: 2886, col: 13, offset: 91395},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91333},
+																												pos:        position{line: 2886, col: 13, offset: 91395},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91340},
+																												pos:        position{line: 2886, col: 20, offset: 91402},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91349},
+																												pos:        position{line: 2886, col: 29, offset: 91411},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25669,9 +25669,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91509},
+																									pos: position{line: 2896, col: 8, offset: 91571},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91510,
+																										line: 2896, col: 9, offset: 91572,
 																									},
 																								},
 																							},
@@ -25690,12 +25690,12 @@ var g = &grammar{
 																	pos: position{line: 1699, col: 9, offset: 55145},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2881, col: 11, offset: 91222},
+																			pos: position{line: 2881, col: 11, offset: 91284},
 																			run: (*parser).callonListElements216,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2881, col: 11, offset: 91222},
+																				pos: position{line: 2881, col: 11, offset: 91284},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2881, col: 11, offset: 91222},
+																					pos:        position{line: 2881, col: 11, offset: 91284},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25722,28 +25722,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2899, col: 8, offset: 91559},
+																			pos: position{line: 2899, col: 8, offset: 91621},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2886, col: 12, offset: 91332},
+																					pos: position{line: 2886, col: 12, offset: 91394},
 																					run: (*parser).callonListElements224,
 																					expr: &choiceExpr{
-																						pos: position{line: 2886, col: 13, offset: 91333},
+																						pos: position{line: 2886, col: 13, offset: 91395},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 13, offset: 91333},
+																								pos:        position{line: 2886, col: 13, offset: 91395},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 20, offset: 91340},
+																								pos:        position{line: 2886, col: 20, offset: 91402},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 29, offset: 91349},
+																								pos:        position{line: 2886, col: 29, offset: 91411},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25752,9 +25752,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91509},
+																					pos: position{line: 2896, col: 8, offset: 91571},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91510,
+																						line: 2896, col: 9, offset: 91572,
 																					},
 																				},
 																			},
@@ -25812,9 +25812,9 @@ var g = &grammar{
 					pos: position{line: 1498, col: 5, offset: 48656},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2894, col: 11, offset: 91495},
+							pos: position{line: 2894, col: 11, offset: 91557},
 							expr: &anyMatcher{
-								line: 2894, col: 13, offset: 91497,
+								line: 2894, col: 13, offset: 91559,
 							},
 						},
 						&labeledExpr{
@@ -25838,18 +25838,18 @@ var g = &grammar{
 															pos: position{line: 677, col: 14, offset: 21525},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2894, col: 11, offset: 91495},
+																	pos: position{line: 2894, col: 11, offset: 91557},
 																	expr: &anyMatcher{
-																		line: 2894, col: 13, offset: 91497,
+																		line: 2894, col: 13, offset: 91559,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 677, col: 21, offset: 21532},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91161},
+																		pos: position{line: 2877, col: 10, offset: 91223},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91161},
+																			pos:        position{line: 2877, col: 10, offset: 91223},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25858,28 +25858,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91559},
+																	pos: position{line: 2899, col: 8, offset: 91621},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91332},
+																			pos: position{line: 2886, col: 12, offset: 91394},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91333},
+																				pos: position{line: 2886, col: 13, offset: 91395},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91333},
+																						pos:        position{line: 2886, col: 13, offset: 91395},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91340},
+																						pos:        position{line: 2886, col: 20, offset: 91402},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91349},
+																						pos:        position{line: 2886, col: 29, offset: 91411},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25888,9 +25888,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91509},
+																			pos: position{line: 2896, col: 8, offset: 91571},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91510,
+																				line: 2896, col: 9, offset: 91572,
 																			},
 																		},
 																	},
@@ -25923,10 +25923,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1588, col: 5, offset: 51449},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91161},
+																								pos: position{line: 2877, col: 10, offset: 91223},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91161},
+																									pos:        position{line: 2877, col: 10, offset: 91223},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26093,12 +26093,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2881, col: 11, offset: 91222},
+																							pos: position{line: 2881, col: 11, offset: 91284},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2881, col: 11, offset: 91222},
+																								pos: position{line: 2881, col: 11, offset: 91284},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2881, col: 11, offset: 91222},
+																									pos:        position{line: 2881, col: 11, offset: 91284},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26141,28 +26141,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91559},
+																							pos: position{line: 2899, col: 8, offset: 91621},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91332},
+																									pos: position{line: 2886, col: 12, offset: 91394},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91333},
+																										pos: position{line: 2886, col: 13, offset: 91395},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91333},
+																												pos:        position{line: 2886, col: 13, offset: 91395},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91340},
+																												pos:        position{line: 2886, col: 20, offset: 91402},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91349},
+																												pos:        position{line: 2886, col: 29, offset: 91411},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26171,9 +26171,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91509},
+																									pos: position{line: 2896, col: 8, offset: 91571},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91510,
+																										line: 2896, col: 9, offset: 91572,
 																									},
 																								},
 																							},
@@ -26203,10 +26203,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1638, col: 5, offset: 53411},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91161},
+																								pos: position{line: 2877, col: 10, offset: 91223},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91161},
+																									pos:        position{line: 2877, col: 10, offset: 91223},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26247,12 +26247,12 @@ var g = &grammar{
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2881, col: 11, offset: 91222},
+																							pos: position{line: 2881, col: 11, offset: 91284},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2881, col: 11, offset: 91222},
+																								pos: position{line: 2881, col: 11, offset: 91284},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2881, col: 11, offset: 91222},
+																									pos:        position{line: 2881, col: 11, offset: 91284},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26324,12 +26324,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2881, col: 11, offset: 91222},
+																								pos: position{line: 2881, col: 11, offset: 91284},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2881, col: 11, offset: 91222},
+																									pos: position{line: 2881, col: 11, offset: 91284},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2881, col: 11, offset: 91222},
+																										pos:        position{line: 2881, col: 11, offset: 91284},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -26373,28 +26373,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91559},
+																							pos: position{line: 2899, col: 8, offset: 91621},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91332},
+																									pos: position{line: 2886, col: 12, offset: 91394},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91333},
+																										pos: position{line: 2886, col: 13, offset: 91395},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91333},
+																												pos:        position{line: 2886, col: 13, offset: 91395},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91340},
+																												pos:        position{line: 2886, col: 20, offset: 91402},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91349},
+																												pos:        position{line: 2886, col: 29, offset: 91411},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26403,9 +26403,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91509},
+																									pos: position{line: 2896, col: 8, offset: 91571},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91510,
+																										line: 2896, col: 9, offset: 91572,
 																									},
 																								},
 																							},
@@ -26463,12 +26463,12 @@ var g = &grammar{
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2881, col: 11, offset: 91222},
+																							pos: position{line: 2881, col: 11, offset: 91284},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2881, col: 11, offset: 91222},
+																								pos: position{line: 2881, col: 11, offset: 91284},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2881, col: 11, offset: 91222},
+																									pos:        position{line: 2881, col: 11, offset: 91284},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26511,28 +26511,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91559},
+																							pos: position{line: 2899, col: 8, offset: 91621},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91332},
+																									pos: position{line: 2886, col: 12, offset: 91394},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91333},
+																										pos: position{line: 2886, col: 13, offset: 91395},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91333},
+																												pos:        position{line: 2886, col: 13, offset: 91395},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91340},
+																												pos:        position{line: 2886, col: 20, offset: 91402},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91349},
+																												pos:        position{line: 2886, col: 29, offset: 91411},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26541,9 +26541,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91509},
+																									pos: position{line: 2896, col: 8, offset: 91571},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91510,
+																										line: 2896, col: 9, offset: 91572,
 																									},
 																								},
 																							},
@@ -26573,18 +26573,18 @@ var g = &grammar{
 																						&notExpr{
 																							pos: position{line: 1673, col: 5, offset: 54430},
 																							expr: &seqExpr{
-																								pos: position{line: 2489, col: 31, offset: 80268},
+																								pos: position{line: 2489, col: 31, offset: 80330},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2489, col: 31, offset: 80268},
+																										pos:        position{line: 2489, col: 31, offset: 80330},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2489, col: 36, offset: 80273},
+																										pos: position{line: 2489, col: 36, offset: 80335},
 																										expr: &litMatcher{
-																											pos:        position{line: 2489, col: 37, offset: 80274},
+																											pos:        position{line: 2489, col: 37, offset: 80336},
 																											val:        "//",
 																											ignoreCase: false,
 																											want:       "\"//\"",
@@ -26634,28 +26634,28 @@ var g = &grammar{
 																									&notExpr{
 																										pos: position{line: 1674, col: 35, offset: 54492},
 																										expr: &choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91559},
+																											pos: position{line: 2899, col: 8, offset: 91621},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91332},
+																													pos: position{line: 2886, col: 12, offset: 91394},
 																													run: (*parser).callonExtraListElement189,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91333},
+																														pos: position{line: 2886, col: 13, offset: 91395},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91333},
+																																pos:        position{line: 2886, col: 13, offset: 91395},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91340},
+																																pos:        position{line: 2886, col: 20, offset: 91402},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91349},
+																																pos:        position{line: 2886, col: 29, offset: 91411},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -26664,9 +26664,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91509},
+																													pos: position{line: 2896, col: 8, offset: 91571},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91510,
+																														line: 2896, col: 9, offset: 91572,
 																													},
 																												},
 																											},
@@ -26731,10 +26731,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 1692, col: 9, offset: 54997},
 																									expr: &actionExpr{
-																										pos: position{line: 2877, col: 10, offset: 91161},
+																										pos: position{line: 2877, col: 10, offset: 91223},
 																										run: (*parser).callonExtraListElement210,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2877, col: 10, offset: 91161},
+																											pos:        position{line: 2877, col: 10, offset: 91223},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26743,28 +26743,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2899, col: 8, offset: 91559},
+																									pos: position{line: 2899, col: 8, offset: 91621},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2886, col: 12, offset: 91332},
+																											pos: position{line: 2886, col: 12, offset: 91394},
 																											run: (*parser).callonExtraListElement213,
 																											expr: &choiceExpr{
-																												pos: position{line: 2886, col: 13, offset: 91333},
+																												pos: position{line: 2886, col: 13, offset: 91395},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 13, offset: 91333},
+																														pos:        position{line: 2886, col: 13, offset: 91395},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 20, offset: 91340},
+																														pos:        position{line: 2886, col: 20, offset: 91402},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 29, offset: 91349},
+																														pos:        position{line: 2886, col: 29, offset: 91411},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26773,9 +26773,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2896, col: 8, offset: 91509},
+																											pos: position{line: 2896, col: 8, offset: 91571},
 																											expr: &anyMatcher{
-																												line: 2896, col: 9, offset: 91510,
+																												line: 2896, col: 9, offset: 91572,
 																											},
 																										},
 																									},
@@ -26789,18 +26789,18 @@ var g = &grammar{
 																											pos: position{line: 677, col: 14, offset: 21525},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2894, col: 11, offset: 91495},
+																													pos: position{line: 2894, col: 11, offset: 91557},
 																													expr: &anyMatcher{
-																														line: 2894, col: 13, offset: 91497,
+																														line: 2894, col: 13, offset: 91559,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 677, col: 21, offset: 21532},
 																													expr: &actionExpr{
-																														pos: position{line: 2877, col: 10, offset: 91161},
+																														pos: position{line: 2877, col: 10, offset: 91223},
 																														run: (*parser).callonExtraListElement226,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2877, col: 10, offset: 91161},
+																															pos:        position{line: 2877, col: 10, offset: 91223},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -26809,28 +26809,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2899, col: 8, offset: 91559},
+																													pos: position{line: 2899, col: 8, offset: 91621},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2886, col: 12, offset: 91332},
+																															pos: position{line: 2886, col: 12, offset: 91394},
 																															run: (*parser).callonExtraListElement229,
 																															expr: &choiceExpr{
-																																pos: position{line: 2886, col: 13, offset: 91333},
+																																pos: position{line: 2886, col: 13, offset: 91395},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2886, col: 13, offset: 91333},
+																																		pos:        position{line: 2886, col: 13, offset: 91395},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2886, col: 20, offset: 91340},
+																																		pos:        position{line: 2886, col: 20, offset: 91402},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2886, col: 29, offset: 91349},
+																																		pos:        position{line: 2886, col: 29, offset: 91411},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -26839,9 +26839,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2896, col: 8, offset: 91509},
+																															pos: position{line: 2896, col: 8, offset: 91571},
 																															expr: &anyMatcher{
-																																line: 2896, col: 9, offset: 91510,
+																																line: 2896, col: 9, offset: 91572,
 																															},
 																														},
 																													},
@@ -26860,12 +26860,12 @@ var g = &grammar{
 																							pos: position{line: 1699, col: 9, offset: 55145},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2881, col: 11, offset: 91222},
+																									pos: position{line: 2881, col: 11, offset: 91284},
 																									run: (*parser).callonExtraListElement238,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2881, col: 11, offset: 91222},
+																										pos: position{line: 2881, col: 11, offset: 91284},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2881, col: 11, offset: 91222},
+																											pos:        position{line: 2881, col: 11, offset: 91284},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26892,28 +26892,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2899, col: 8, offset: 91559},
+																									pos: position{line: 2899, col: 8, offset: 91621},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2886, col: 12, offset: 91332},
+																											pos: position{line: 2886, col: 12, offset: 91394},
 																											run: (*parser).callonExtraListElement246,
 																											expr: &choiceExpr{
-																												pos: position{line: 2886, col: 13, offset: 91333},
+																												pos: position{line: 2886, col: 13, offset: 91395},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 13, offset: 91333},
+																														pos:        position{line: 2886, col: 13, offset: 91395},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 20, offset: 91340},
+																														pos:        position{line: 2886, col: 20, offset: 91402},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 29, offset: 91349},
+																														pos:        position{line: 2886, col: 29, offset: 91411},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26922,9 +26922,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2896, col: 8, offset: 91509},
+																											pos: position{line: 2896, col: 8, offset: 91571},
 																											expr: &anyMatcher{
-																												line: 2896, col: 9, offset: 91510,
+																												line: 2896, col: 9, offset: 91572,
 																											},
 																										},
 																									},
@@ -26985,10 +26985,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1588, col: 5, offset: 51449},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91161},
+																								pos: position{line: 2877, col: 10, offset: 91223},
 																								run: (*parser).callonExtraListElement266,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91161},
+																									pos:        position{line: 2877, col: 10, offset: 91223},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27155,12 +27155,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2881, col: 11, offset: 91222},
+																							pos: position{line: 2881, col: 11, offset: 91284},
 																							run: (*parser).callonExtraListElement300,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2881, col: 11, offset: 91222},
+																								pos: position{line: 2881, col: 11, offset: 91284},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2881, col: 11, offset: 91222},
+																									pos:        position{line: 2881, col: 11, offset: 91284},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27203,28 +27203,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91559},
+																							pos: position{line: 2899, col: 8, offset: 91621},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91332},
+																									pos: position{line: 2886, col: 12, offset: 91394},
 																									run: (*parser).callonExtraListElement312,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91333},
+																										pos: position{line: 2886, col: 13, offset: 91395},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91333},
+																												pos:        position{line: 2886, col: 13, offset: 91395},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91340},
+																												pos:        position{line: 2886, col: 20, offset: 91402},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91349},
+																												pos:        position{line: 2886, col: 29, offset: 91411},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27233,9 +27233,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91509},
+																									pos: position{line: 2896, col: 8, offset: 91571},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91510,
+																										line: 2896, col: 9, offset: 91572,
 																									},
 																								},
 																							},
@@ -27265,10 +27265,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1638, col: 5, offset: 53411},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91161},
+																								pos: position{line: 2877, col: 10, offset: 91223},
 																								run: (*parser).callonExtraListElement325,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91161},
+																									pos:        position{line: 2877, col: 10, offset: 91223},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27309,12 +27309,12 @@ var g = &grammar{
 																							run: (*parser).callonExtraListElement333,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2881, col: 11, offset: 91222},
+																							pos: position{line: 2881, col: 11, offset: 91284},
 																							run: (*parser).callonExtraListElement334,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2881, col: 11, offset: 91222},
+																								pos: position{line: 2881, col: 11, offset: 91284},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2881, col: 11, offset: 91222},
+																									pos:        position{line: 2881, col: 11, offset: 91284},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27386,12 +27386,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2881, col: 11, offset: 91222},
+																								pos: position{line: 2881, col: 11, offset: 91284},
 																								run: (*parser).callonExtraListElement351,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2881, col: 11, offset: 91222},
+																									pos: position{line: 2881, col: 11, offset: 91284},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2881, col: 11, offset: 91222},
+																										pos:        position{line: 2881, col: 11, offset: 91284},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27435,28 +27435,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91559},
+																							pos: position{line: 2899, col: 8, offset: 91621},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91332},
+																									pos: position{line: 2886, col: 12, offset: 91394},
 																									run: (*parser).callonExtraListElement363,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91333},
+																										pos: position{line: 2886, col: 13, offset: 91395},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91333},
+																												pos:        position{line: 2886, col: 13, offset: 91395},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91340},
+																												pos:        position{line: 2886, col: 20, offset: 91402},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91349},
+																												pos:        position{line: 2886, col: 29, offset: 91411},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27465,9 +27465,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91509},
+																									pos: position{line: 2896, col: 8, offset: 91571},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91510,
+																										line: 2896, col: 9, offset: 91572,
 																									},
 																								},
 																							},
@@ -27525,12 +27525,12 @@ var g = &grammar{
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2881, col: 11, offset: 91222},
+																							pos: position{line: 2881, col: 11, offset: 91284},
 																							run: (*parser).callonExtraListElement381,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2881, col: 11, offset: 91222},
+																								pos: position{line: 2881, col: 11, offset: 91284},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2881, col: 11, offset: 91222},
+																									pos:        position{line: 2881, col: 11, offset: 91284},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27573,28 +27573,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91559},
+																							pos: position{line: 2899, col: 8, offset: 91621},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91332},
+																									pos: position{line: 2886, col: 12, offset: 91394},
 																									run: (*parser).callonExtraListElement393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91333},
+																										pos: position{line: 2886, col: 13, offset: 91395},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91333},
+																												pos:        position{line: 2886, col: 13, offset: 91395},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91340},
+																												pos:        position{line: 2886, col: 20, offset: 91402},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91349},
+																												pos:        position{line: 2886, col: 29, offset: 91411},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27603,9 +27603,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91509},
+																									pos: position{line: 2896, col: 8, offset: 91571},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91510,
+																										line: 2896, col: 9, offset: 91572,
 																									},
 																								},
 																							},
@@ -27635,18 +27635,18 @@ var g = &grammar{
 																						&notExpr{
 																							pos: position{line: 1673, col: 5, offset: 54430},
 																							expr: &seqExpr{
-																								pos: position{line: 2489, col: 31, offset: 80268},
+																								pos: position{line: 2489, col: 31, offset: 80330},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2489, col: 31, offset: 80268},
+																										pos:        position{line: 2489, col: 31, offset: 80330},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2489, col: 36, offset: 80273},
+																										pos: position{line: 2489, col: 36, offset: 80335},
 																										expr: &litMatcher{
-																											pos:        position{line: 2489, col: 37, offset: 80274},
+																											pos:        position{line: 2489, col: 37, offset: 80336},
 																											val:        "//",
 																											ignoreCase: false,
 																											want:       "\"//\"",
@@ -27696,28 +27696,28 @@ var g = &grammar{
 																									&notExpr{
 																										pos: position{line: 1674, col: 35, offset: 54492},
 																										expr: &choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91559},
+																											pos: position{line: 2899, col: 8, offset: 91621},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91332},
+																													pos: position{line: 2886, col: 12, offset: 91394},
 																													run: (*parser).callonExtraListElement422,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91333},
+																														pos: position{line: 2886, col: 13, offset: 91395},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91333},
+																																pos:        position{line: 2886, col: 13, offset: 91395},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91340},
+																																pos:        position{line: 2886, col: 20, offset: 91402},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91349},
+																																pos:        position{line: 2886, col: 29, offset: 91411},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -27726,9 +27726,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91509},
+																													pos: position{line: 2896, col: 8, offset: 91571},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91510,
+																														line: 2896, col: 9, offset: 91572,
 																													},
 																												},
 																											},
@@ -27793,10 +27793,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 1692, col: 9, offset: 54997},
 																									expr: &actionExpr{
-																										pos: position{line: 2877, col: 10, offset: 91161},
+																										pos: position{line: 2877, col: 10, offset: 91223},
 																										run: (*parser).callonExtraListElement443,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2877, col: 10, offset: 91161},
+																											pos:        position{line: 2877, col: 10, offset: 91223},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27805,28 +27805,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2899, col: 8, offset: 91559},
+																									pos: position{line: 2899, col: 8, offset: 91621},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2886, col: 12, offset: 91332},
+																											pos: position{line: 2886, col: 12, offset: 91394},
 																											run: (*parser).callonExtraListElement446,
 																											expr: &choiceExpr{
-																												pos: position{line: 2886, col: 13, offset: 91333},
+																												pos: position{line: 2886, col: 13, offset: 91395},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 13, offset: 91333},
+																														pos:        position{line: 2886, col: 13, offset: 91395},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 20, offset: 91340},
+																														pos:        position{line: 2886, col: 20, offset: 91402},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 29, offset: 91349},
+																														pos:        position{line: 2886, col: 29, offset: 91411},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27835,9 +27835,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2896, col: 8, offset: 91509},
+																											pos: position{line: 2896, col: 8, offset: 91571},
 																											expr: &anyMatcher{
-																												line: 2896, col: 9, offset: 91510,
+																												line: 2896, col: 9, offset: 91572,
 																											},
 																										},
 																									},
@@ -27851,18 +27851,18 @@ var g = &grammar{
 																											pos: position{line: 677, col: 14, offset: 21525},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2894, col: 11, offset: 91495},
+																													pos: position{line: 2894, col: 11, offset: 91557},
 																													expr: &anyMatcher{
-																														line: 2894, col: 13, offset: 91497,
+																														line: 2894, col: 13, offset: 91559,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 677, col: 21, offset: 21532},
 																													expr: &actionExpr{
-																														pos: position{line: 2877, col: 10, offset: 91161},
+																														pos: position{line: 2877, col: 10, offset: 91223},
 																														run: (*parser).callonExtraListElement459,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2877, col: 10, offset: 91161},
+																															pos:        position{line: 2877, col: 10, offset: 91223},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27871,28 +27871,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2899, col: 8, offset: 91559},
+																													pos: position{line: 2899, col: 8, offset: 91621},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2886, col: 12, offset: 91332},
+																															pos: position{line: 2886, col: 12, offset: 91394},
 																															run: (*parser).callonExtraListElement462,
 																															expr: &choiceExpr{
-																																pos: position{line: 2886, col: 13, offset: 91333},
+																																pos: position{line: 2886, col: 13, offset: 91395},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2886, col: 13, offset: 91333},
+																																		pos:        position{line: 2886, col: 13, offset: 91395},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2886, col: 20, offset: 91340},
+																																		pos:        position{line: 2886, col: 20, offset: 91402},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2886, col: 29, offset: 91349},
+																																		pos:        position{line: 2886, col: 29, offset: 91411},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -27901,9 +27901,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2896, col: 8, offset: 91509},
+																															pos: position{line: 2896, col: 8, offset: 91571},
 																															expr: &anyMatcher{
-																																line: 2896, col: 9, offset: 91510,
+																																line: 2896, col: 9, offset: 91572,
 																															},
 																														},
 																													},
@@ -27922,12 +27922,12 @@ var g = &grammar{
 																							pos: position{line: 1699, col: 9, offset: 55145},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2881, col: 11, offset: 91222},
+																									pos: position{line: 2881, col: 11, offset: 91284},
 																									run: (*parser).callonExtraListElement471,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2881, col: 11, offset: 91222},
+																										pos: position{line: 2881, col: 11, offset: 91284},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2881, col: 11, offset: 91222},
+																											pos:        position{line: 2881, col: 11, offset: 91284},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27954,28 +27954,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2899, col: 8, offset: 91559},
+																									pos: position{line: 2899, col: 8, offset: 91621},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2886, col: 12, offset: 91332},
+																											pos: position{line: 2886, col: 12, offset: 91394},
 																											run: (*parser).callonExtraListElement479,
 																											expr: &choiceExpr{
-																												pos: position{line: 2886, col: 13, offset: 91333},
+																												pos: position{line: 2886, col: 13, offset: 91395},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 13, offset: 91333},
+																														pos:        position{line: 2886, col: 13, offset: 91395},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 20, offset: 91340},
+																														pos:        position{line: 2886, col: 20, offset: 91402},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 29, offset: 91349},
+																														pos:        position{line: 2886, col: 29, offset: 91411},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27984,9 +27984,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2896, col: 8, offset: 91509},
+																											pos: position{line: 2896, col: 8, offset: 91571},
 																											expr: &anyMatcher{
-																												line: 2896, col: 9, offset: 91510,
+																												line: 2896, col: 9, offset: 91572,
 																											},
 																										},
 																									},
@@ -28011,36 +28011,36 @@ var g = &grammar{
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2484, col: 22, offset: 80047},
+										pos: position{line: 2484, col: 22, offset: 80109},
 										run: (*parser).callonExtraListElement487,
 										expr: &seqExpr{
-											pos: position{line: 2484, col: 22, offset: 80047},
+											pos: position{line: 2484, col: 22, offset: 80109},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2489, col: 31, offset: 80268},
+													pos:        position{line: 2489, col: 31, offset: 80330},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2489, col: 36, offset: 80273},
+													pos: position{line: 2489, col: 36, offset: 80335},
 													expr: &litMatcher{
-														pos:        position{line: 2489, col: 37, offset: 80274},
+														pos:        position{line: 2489, col: 37, offset: 80336},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2484, col: 49, offset: 80074},
+													pos:   position{line: 2484, col: 49, offset: 80136},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2823, col: 13, offset: 89687},
+														pos: position{line: 2823, col: 13, offset: 89749},
 														run: (*parser).callonExtraListElement493,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2823, col: 13, offset: 89687},
+															pos: position{line: 2823, col: 13, offset: 89749},
 															expr: &charClassMatcher{
-																pos:        position{line: 2823, col: 13, offset: 89687},
+																pos:        position{line: 2823, col: 13, offset: 89749},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -28050,28 +28050,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2899, col: 8, offset: 91559},
+													pos: position{line: 2899, col: 8, offset: 91621},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2886, col: 12, offset: 91332},
+															pos: position{line: 2886, col: 12, offset: 91394},
 															run: (*parser).callonExtraListElement497,
 															expr: &choiceExpr{
-																pos: position{line: 2886, col: 13, offset: 91333},
+																pos: position{line: 2886, col: 13, offset: 91395},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 13, offset: 91333},
+																		pos:        position{line: 2886, col: 13, offset: 91395},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 20, offset: 91340},
+																		pos:        position{line: 2886, col: 20, offset: 91402},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 29, offset: 91349},
+																		pos:        position{line: 2886, col: 29, offset: 91411},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -28080,9 +28080,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2896, col: 8, offset: 91509},
+															pos: position{line: 2896, col: 8, offset: 91571},
 															expr: &anyMatcher{
-																line: 2896, col: 9, offset: 91510,
+																line: 2896, col: 9, offset: 91572,
 															},
 														},
 													},
@@ -28105,18 +28105,18 @@ var g = &grammar{
 															pos: position{line: 677, col: 14, offset: 21525},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2894, col: 11, offset: 91495},
+																	pos: position{line: 2894, col: 11, offset: 91557},
 																	expr: &anyMatcher{
-																		line: 2894, col: 13, offset: 91497,
+																		line: 2894, col: 13, offset: 91559,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 677, col: 21, offset: 21532},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91161},
+																		pos: position{line: 2877, col: 10, offset: 91223},
 																		run: (*parser).callonExtraListElement512,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91161},
+																			pos:        position{line: 2877, col: 10, offset: 91223},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28125,28 +28125,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91559},
+																	pos: position{line: 2899, col: 8, offset: 91621},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91332},
+																			pos: position{line: 2886, col: 12, offset: 91394},
 																			run: (*parser).callonExtraListElement515,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91333},
+																				pos: position{line: 2886, col: 13, offset: 91395},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91333},
+																						pos:        position{line: 2886, col: 13, offset: 91395},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91340},
+																						pos:        position{line: 2886, col: 20, offset: 91402},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91349},
+																						pos:        position{line: 2886, col: 29, offset: 91411},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -28155,9 +28155,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91509},
+																			pos: position{line: 2896, col: 8, offset: 91571},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91510,
+																				line: 2896, col: 9, offset: 91572,
 																			},
 																		},
 																	},
@@ -28180,10 +28180,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1547, col: 31, offset: 50234},
 																expr: &actionExpr{
-																	pos: position{line: 2877, col: 10, offset: 91161},
+																	pos: position{line: 2877, col: 10, offset: 91223},
 																	run: (*parser).callonExtraListElement526,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2877, col: 10, offset: 91161},
+																		pos:        position{line: 2877, col: 10, offset: 91223},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -28192,25 +28192,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2886, col: 12, offset: 91332},
+																pos: position{line: 2886, col: 12, offset: 91394},
 																run: (*parser).callonExtraListElement528,
 																expr: &choiceExpr{
-																	pos: position{line: 2886, col: 13, offset: 91333},
+																	pos: position{line: 2886, col: 13, offset: 91395},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 13, offset: 91333},
+																			pos:        position{line: 2886, col: 13, offset: 91395},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 20, offset: 91340},
+																			pos:        position{line: 2886, col: 20, offset: 91402},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 29, offset: 91349},
+																			pos:        position{line: 2886, col: 29, offset: 91411},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -28232,10 +28232,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1588, col: 5, offset: 51449},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91161},
+																		pos: position{line: 2877, col: 10, offset: 91223},
 																		run: (*parser).callonExtraListElement537,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91161},
+																			pos:        position{line: 2877, col: 10, offset: 91223},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28402,12 +28402,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2881, col: 11, offset: 91222},
+																	pos: position{line: 2881, col: 11, offset: 91284},
 																	run: (*parser).callonExtraListElement571,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2881, col: 11, offset: 91222},
+																		pos: position{line: 2881, col: 11, offset: 91284},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2881, col: 11, offset: 91222},
+																			pos:        position{line: 2881, col: 11, offset: 91284},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28430,10 +28430,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1638, col: 5, offset: 53411},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91161},
+																		pos: position{line: 2877, col: 10, offset: 91223},
 																		run: (*parser).callonExtraListElement578,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91161},
+																			pos:        position{line: 2877, col: 10, offset: 91223},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28474,12 +28474,12 @@ var g = &grammar{
 																	run: (*parser).callonExtraListElement586,
 																},
 																&actionExpr{
-																	pos: position{line: 2881, col: 11, offset: 91222},
+																	pos: position{line: 2881, col: 11, offset: 91284},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2881, col: 11, offset: 91222},
+																		pos: position{line: 2881, col: 11, offset: 91284},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2881, col: 11, offset: 91222},
+																			pos:        position{line: 2881, col: 11, offset: 91284},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28530,12 +28530,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2881, col: 11, offset: 91222},
+																	pos: position{line: 2881, col: 11, offset: 91284},
 																	run: (*parser).callonExtraListElement599,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2881, col: 11, offset: 91222},
+																		pos: position{line: 2881, col: 11, offset: 91284},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2881, col: 11, offset: 91222},
+																			pos:        position{line: 2881, col: 11, offset: 91284},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28561,18 +28561,18 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1673, col: 5, offset: 54430},
 																			expr: &seqExpr{
-																				pos: position{line: 2489, col: 31, offset: 80268},
+																				pos: position{line: 2489, col: 31, offset: 80330},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2489, col: 31, offset: 80268},
+																						pos:        position{line: 2489, col: 31, offset: 80330},
 																						val:        "//",
 																						ignoreCase: false,
 																						want:       "\"//\"",
 																					},
 																					&notExpr{
-																						pos: position{line: 2489, col: 36, offset: 80273},
+																						pos: position{line: 2489, col: 36, offset: 80335},
 																						expr: &litMatcher{
-																							pos:        position{line: 2489, col: 37, offset: 80274},
+																							pos:        position{line: 2489, col: 37, offset: 80336},
 																							val:        "//",
 																							ignoreCase: false,
 																							want:       "\"//\"",
@@ -28622,28 +28622,28 @@ var g = &grammar{
 																					&notExpr{
 																						pos: position{line: 1674, col: 35, offset: 54492},
 																						expr: &choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91559},
+																							pos: position{line: 2899, col: 8, offset: 91621},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91332},
+																									pos: position{line: 2886, col: 12, offset: 91394},
 																									run: (*parser).callonExtraListElement623,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91333},
+																										pos: position{line: 2886, col: 13, offset: 91395},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91333},
+																												pos:        position{line: 2886, col: 13, offset: 91395},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91340},
+																												pos:        position{line: 2886, col: 20, offset: 91402},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91349},
+																												pos:        position{line: 2886, col: 29, offset: 91411},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28652,9 +28652,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91509},
+																									pos: position{line: 2896, col: 8, offset: 91571},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91510,
+																										line: 2896, col: 9, offset: 91572,
 																									},
 																								},
 																							},
@@ -28713,7 +28713,7 @@ var g = &grammar{
 																&notExpr{
 																	pos: position{line: 724, col: 5, offset: 23078},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2767, col: 13, offset: 88235},
+																		pos:        position{line: 2767, col: 13, offset: 88297},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -28763,10 +28763,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 742, col: 8, offset: 23722},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91161},
+																								pos: position{line: 2877, col: 10, offset: 91223},
 																								run: (*parser).callonExtraListElement654,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91161},
+																									pos:        position{line: 2877, col: 10, offset: 91223},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28775,28 +28775,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91559},
+																							pos: position{line: 2899, col: 8, offset: 91621},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91332},
+																									pos: position{line: 2886, col: 12, offset: 91394},
 																									run: (*parser).callonExtraListElement657,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91333},
+																										pos: position{line: 2886, col: 13, offset: 91395},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91333},
+																												pos:        position{line: 2886, col: 13, offset: 91395},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91340},
+																												pos:        position{line: 2886, col: 20, offset: 91402},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91349},
+																												pos:        position{line: 2886, col: 29, offset: 91411},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28805,9 +28805,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91509},
+																									pos: position{line: 2896, col: 8, offset: 91571},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91510,
+																										line: 2896, col: 9, offset: 91572,
 																									},
 																								},
 																							},
@@ -28852,10 +28852,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 749, col: 8, offset: 23970},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91161},
+																								pos: position{line: 2877, col: 10, offset: 91223},
 																								run: (*parser).callonExtraListElement673,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91161},
+																									pos:        position{line: 2877, col: 10, offset: 91223},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28864,28 +28864,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91559},
+																							pos: position{line: 2899, col: 8, offset: 91621},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91332},
+																									pos: position{line: 2886, col: 12, offset: 91394},
 																									run: (*parser).callonExtraListElement676,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91333},
+																										pos: position{line: 2886, col: 13, offset: 91395},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91333},
+																												pos:        position{line: 2886, col: 13, offset: 91395},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91340},
+																												pos:        position{line: 2886, col: 20, offset: 91402},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91349},
+																												pos:        position{line: 2886, col: 29, offset: 91411},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28894,9 +28894,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91509},
+																									pos: position{line: 2896, col: 8, offset: 91571},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91510,
+																										line: 2896, col: 9, offset: 91572,
 																									},
 																								},
 																							},
@@ -28937,10 +28937,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 760, col: 52, offset: 24382},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91161},
+																								pos: position{line: 2877, col: 10, offset: 91223},
 																								run: (*parser).callonExtraListElement691,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91161},
+																									pos:        position{line: 2877, col: 10, offset: 91223},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28949,28 +28949,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91559},
+																							pos: position{line: 2899, col: 8, offset: 91621},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91332},
+																									pos: position{line: 2886, col: 12, offset: 91394},
 																									run: (*parser).callonExtraListElement694,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91333},
+																										pos: position{line: 2886, col: 13, offset: 91395},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91333},
+																												pos:        position{line: 2886, col: 13, offset: 91395},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91340},
+																												pos:        position{line: 2886, col: 20, offset: 91402},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91349},
+																												pos:        position{line: 2886, col: 29, offset: 91411},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28979,9 +28979,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91509},
+																									pos: position{line: 2896, col: 8, offset: 91571},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91510,
+																										line: 2896, col: 9, offset: 91572,
 																									},
 																								},
 																							},
@@ -29026,10 +29026,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 756, col: 8, offset: 24216},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91161},
+																								pos: position{line: 2877, col: 10, offset: 91223},
 																								run: (*parser).callonExtraListElement710,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91161},
+																									pos:        position{line: 2877, col: 10, offset: 91223},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29038,28 +29038,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91559},
+																							pos: position{line: 2899, col: 8, offset: 91621},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91332},
+																									pos: position{line: 2886, col: 12, offset: 91394},
 																									run: (*parser).callonExtraListElement713,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91333},
+																										pos: position{line: 2886, col: 13, offset: 91395},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91333},
+																												pos:        position{line: 2886, col: 13, offset: 91395},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91340},
+																												pos:        position{line: 2886, col: 20, offset: 91402},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91349},
+																												pos:        position{line: 2886, col: 29, offset: 91411},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29068,9 +29068,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91509},
+																									pos: position{line: 2896, col: 8, offset: 91571},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91510,
+																										line: 2896, col: 9, offset: 91572,
 																									},
 																								},
 																							},
@@ -29115,10 +29115,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 771, col: 8, offset: 24759},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91161},
+																								pos: position{line: 2877, col: 10, offset: 91223},
 																								run: (*parser).callonExtraListElement729,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91161},
+																									pos:        position{line: 2877, col: 10, offset: 91223},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29127,28 +29127,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91559},
+																							pos: position{line: 2899, col: 8, offset: 91621},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91332},
+																									pos: position{line: 2886, col: 12, offset: 91394},
 																									run: (*parser).callonExtraListElement732,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91333},
+																										pos: position{line: 2886, col: 13, offset: 91395},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91333},
+																												pos:        position{line: 2886, col: 13, offset: 91395},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91340},
+																												pos:        position{line: 2886, col: 20, offset: 91402},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91349},
+																												pos:        position{line: 2886, col: 29, offset: 91411},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29157,9 +29157,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91509},
+																									pos: position{line: 2896, col: 8, offset: 91571},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91510,
+																										line: 2896, col: 9, offset: 91572,
 																									},
 																								},
 																							},
@@ -29204,10 +29204,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 785, col: 8, offset: 25235},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91161},
+																								pos: position{line: 2877, col: 10, offset: 91223},
 																								run: (*parser).callonExtraListElement748,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91161},
+																									pos:        position{line: 2877, col: 10, offset: 91223},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29216,28 +29216,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91559},
+																							pos: position{line: 2899, col: 8, offset: 91621},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91332},
+																									pos: position{line: 2886, col: 12, offset: 91394},
 																									run: (*parser).callonExtraListElement751,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91333},
+																										pos: position{line: 2886, col: 13, offset: 91395},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91333},
+																												pos:        position{line: 2886, col: 13, offset: 91395},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91340},
+																												pos:        position{line: 2886, col: 20, offset: 91402},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91349},
+																												pos:        position{line: 2886, col: 29, offset: 91411},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29246,9 +29246,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91509},
+																									pos: position{line: 2896, col: 8, offset: 91571},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91510,
+																										line: 2896, col: 9, offset: 91572,
 																									},
 																								},
 																							},
@@ -29293,10 +29293,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 792, col: 8, offset: 25487},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91161},
+																								pos: position{line: 2877, col: 10, offset: 91223},
 																								run: (*parser).callonExtraListElement767,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91161},
+																									pos:        position{line: 2877, col: 10, offset: 91223},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29305,28 +29305,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91559},
+																							pos: position{line: 2899, col: 8, offset: 91621},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91332},
+																									pos: position{line: 2886, col: 12, offset: 91394},
 																									run: (*parser).callonExtraListElement770,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91333},
+																										pos: position{line: 2886, col: 13, offset: 91395},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91333},
+																												pos:        position{line: 2886, col: 13, offset: 91395},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91340},
+																												pos:        position{line: 2886, col: 20, offset: 91402},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91349},
+																												pos:        position{line: 2886, col: 29, offset: 91411},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29335,9 +29335,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91509},
+																									pos: position{line: 2896, col: 8, offset: 91571},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91510,
+																										line: 2896, col: 9, offset: 91572,
 																									},
 																								},
 																							},
@@ -29382,10 +29382,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 799, col: 8, offset: 25737},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91161},
+																								pos: position{line: 2877, col: 10, offset: 91223},
 																								run: (*parser).callonExtraListElement786,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91161},
+																									pos:        position{line: 2877, col: 10, offset: 91223},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29394,28 +29394,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91559},
+																							pos: position{line: 2899, col: 8, offset: 91621},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91332},
+																									pos: position{line: 2886, col: 12, offset: 91394},
 																									run: (*parser).callonExtraListElement789,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91333},
+																										pos: position{line: 2886, col: 13, offset: 91395},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91333},
+																												pos:        position{line: 2886, col: 13, offset: 91395},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91340},
+																												pos:        position{line: 2886, col: 20, offset: 91402},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91349},
+																												pos:        position{line: 2886, col: 29, offset: 91411},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29424,9 +29424,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91509},
+																									pos: position{line: 2896, col: 8, offset: 91571},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91510,
+																										line: 2896, col: 9, offset: 91572,
 																									},
 																								},
 																							},
@@ -29471,10 +29471,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 806, col: 8, offset: 25983},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91161},
+																								pos: position{line: 2877, col: 10, offset: 91223},
 																								run: (*parser).callonExtraListElement805,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91161},
+																									pos:        position{line: 2877, col: 10, offset: 91223},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29483,28 +29483,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91559},
+																							pos: position{line: 2899, col: 8, offset: 91621},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91332},
+																									pos: position{line: 2886, col: 12, offset: 91394},
 																									run: (*parser).callonExtraListElement808,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91333},
+																										pos: position{line: 2886, col: 13, offset: 91395},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91333},
+																												pos:        position{line: 2886, col: 13, offset: 91395},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91340},
+																												pos:        position{line: 2886, col: 20, offset: 91402},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91349},
+																												pos:        position{line: 2886, col: 29, offset: 91411},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29513,9 +29513,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91509},
+																									pos: position{line: 2896, col: 8, offset: 91571},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91510,
+																										line: 2896, col: 9, offset: 91572,
 																									},
 																								},
 																							},
@@ -29534,12 +29534,12 @@ var g = &grammar{
 													pos:   position{line: 1523, col: 5, offset: 49602},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2827, col: 14, offset: 89754},
+														pos: position{line: 2827, col: 14, offset: 89816},
 														run: (*parser).callonExtraListElement816,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2827, col: 14, offset: 89754},
+															pos: position{line: 2827, col: 14, offset: 89816},
 															expr: &charClassMatcher{
-																pos:        position{line: 2827, col: 14, offset: 89754},
+																pos:        position{line: 2827, col: 14, offset: 89816},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -29549,28 +29549,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2899, col: 8, offset: 91559},
+													pos: position{line: 2899, col: 8, offset: 91621},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2886, col: 12, offset: 91332},
+															pos: position{line: 2886, col: 12, offset: 91394},
 															run: (*parser).callonExtraListElement820,
 															expr: &choiceExpr{
-																pos: position{line: 2886, col: 13, offset: 91333},
+																pos: position{line: 2886, col: 13, offset: 91395},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 13, offset: 91333},
+																		pos:        position{line: 2886, col: 13, offset: 91395},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 20, offset: 91340},
+																		pos:        position{line: 2886, col: 20, offset: 91402},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 29, offset: 91349},
+																		pos:        position{line: 2886, col: 29, offset: 91411},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -29579,9 +29579,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2896, col: 8, offset: 91509},
+															pos: position{line: 2896, col: 8, offset: 91571},
 															expr: &anyMatcher{
-																line: 2896, col: 9, offset: 91510,
+																line: 2896, col: 9, offset: 91572,
 															},
 														},
 													},
@@ -29616,10 +29616,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 1540, col: 13, offset: 50026},
 											expr: &actionExpr{
-												pos: position{line: 2877, col: 10, offset: 91161},
+												pos: position{line: 2877, col: 10, offset: 91223},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2877, col: 10, offset: 91161},
+													pos:        position{line: 2877, col: 10, offset: 91223},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -29628,25 +29628,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2886, col: 12, offset: 91332},
+											pos: position{line: 2886, col: 12, offset: 91394},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2886, col: 13, offset: 91333},
+												pos: position{line: 2886, col: 13, offset: 91395},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2886, col: 13, offset: 91333},
+														pos:        position{line: 2886, col: 13, offset: 91395},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2886, col: 20, offset: 91340},
+														pos:        position{line: 2886, col: 20, offset: 91402},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2886, col: 29, offset: 91349},
+														pos:        position{line: 2886, col: 29, offset: 91411},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -29667,10 +29667,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1547, col: 31, offset: 50234},
 							expr: &actionExpr{
-								pos: position{line: 2877, col: 10, offset: 91161},
+								pos: position{line: 2877, col: 10, offset: 91223},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2877, col: 10, offset: 91161},
+									pos:        position{line: 2877, col: 10, offset: 91223},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -29679,25 +29679,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2886, col: 12, offset: 91332},
+							pos: position{line: 2886, col: 12, offset: 91394},
 							run: (*parser).callonListContinuation18,
 							expr: &choiceExpr{
-								pos: position{line: 2886, col: 13, offset: 91333},
+								pos: position{line: 2886, col: 13, offset: 91395},
 								alternatives: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2886, col: 13, offset: 91333},
+										pos:        position{line: 2886, col: 13, offset: 91395},
 										val:        "\n",
 										ignoreCase: false,
 										want:       "\"\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2886, col: 20, offset: 91340},
+										pos:        position{line: 2886, col: 20, offset: 91402},
 										val:        "\r\n",
 										ignoreCase: false,
 										want:       "\"\\r\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2886, col: 29, offset: 91349},
+										pos:        position{line: 2886, col: 29, offset: 91411},
 										val:        "\r",
 										ignoreCase: false,
 										want:       "\"\\r\"",
@@ -29730,9 +29730,9 @@ var g = &grammar{
 					pos: position{line: 1550, col: 5, offset: 50321},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2894, col: 11, offset: 91495},
+							pos: position{line: 2894, col: 11, offset: 91557},
 							expr: &anyMatcher{
-								line: 2894, col: 13, offset: 91497,
+								line: 2894, col: 13, offset: 91559,
 							},
 						},
 						&notExpr{
@@ -29758,10 +29758,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1588, col: 5, offset: 51449},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91161},
+																		pos: position{line: 2877, col: 10, offset: 91223},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91161},
+																			pos:        position{line: 2877, col: 10, offset: 91223},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29928,12 +29928,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2881, col: 11, offset: 91222},
+																	pos: position{line: 2881, col: 11, offset: 91284},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2881, col: 11, offset: 91222},
+																		pos: position{line: 2881, col: 11, offset: 91284},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2881, col: 11, offset: 91222},
+																			pos:        position{line: 2881, col: 11, offset: 91284},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29976,28 +29976,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91559},
+																	pos: position{line: 2899, col: 8, offset: 91621},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91332},
+																			pos: position{line: 2886, col: 12, offset: 91394},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91333},
+																				pos: position{line: 2886, col: 13, offset: 91395},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91333},
+																						pos:        position{line: 2886, col: 13, offset: 91395},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91340},
+																						pos:        position{line: 2886, col: 20, offset: 91402},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91349},
+																						pos:        position{line: 2886, col: 29, offset: 91411},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30006,9 +30006,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91509},
+																			pos: position{line: 2896, col: 8, offset: 91571},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91510,
+																				line: 2896, col: 9, offset: 91572,
 																			},
 																		},
 																	},
@@ -30038,10 +30038,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1638, col: 5, offset: 53411},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91161},
+																		pos: position{line: 2877, col: 10, offset: 91223},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91161},
+																			pos:        position{line: 2877, col: 10, offset: 91223},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30082,12 +30082,12 @@ var g = &grammar{
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2881, col: 11, offset: 91222},
+																	pos: position{line: 2881, col: 11, offset: 91284},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2881, col: 11, offset: 91222},
+																		pos: position{line: 2881, col: 11, offset: 91284},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2881, col: 11, offset: 91222},
+																			pos:        position{line: 2881, col: 11, offset: 91284},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30159,12 +30159,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2881, col: 11, offset: 91222},
+																		pos: position{line: 2881, col: 11, offset: 91284},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2881, col: 11, offset: 91222},
+																			pos: position{line: 2881, col: 11, offset: 91284},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2881, col: 11, offset: 91222},
+																				pos:        position{line: 2881, col: 11, offset: 91284},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -30208,28 +30208,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91559},
+																	pos: position{line: 2899, col: 8, offset: 91621},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91332},
+																			pos: position{line: 2886, col: 12, offset: 91394},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91333},
+																				pos: position{line: 2886, col: 13, offset: 91395},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91333},
+																						pos:        position{line: 2886, col: 13, offset: 91395},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91340},
+																						pos:        position{line: 2886, col: 20, offset: 91402},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91349},
+																						pos:        position{line: 2886, col: 29, offset: 91411},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30238,9 +30238,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91509},
+																			pos: position{line: 2896, col: 8, offset: 91571},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91510,
+																				line: 2896, col: 9, offset: 91572,
 																			},
 																		},
 																	},
@@ -30298,12 +30298,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2881, col: 11, offset: 91222},
+																	pos: position{line: 2881, col: 11, offset: 91284},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2881, col: 11, offset: 91222},
+																		pos: position{line: 2881, col: 11, offset: 91284},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2881, col: 11, offset: 91222},
+																			pos:        position{line: 2881, col: 11, offset: 91284},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30346,28 +30346,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91559},
+																	pos: position{line: 2899, col: 8, offset: 91621},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91332},
+																			pos: position{line: 2886, col: 12, offset: 91394},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91333},
+																				pos: position{line: 2886, col: 13, offset: 91395},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91333},
+																						pos:        position{line: 2886, col: 13, offset: 91395},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91340},
+																						pos:        position{line: 2886, col: 20, offset: 91402},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91349},
+																						pos:        position{line: 2886, col: 29, offset: 91411},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30376,9 +30376,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91509},
+																			pos: position{line: 2896, col: 8, offset: 91571},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91510,
+																				line: 2896, col: 9, offset: 91572,
 																			},
 																		},
 																	},
@@ -30408,18 +30408,18 @@ var g = &grammar{
 																&notExpr{
 																	pos: position{line: 1673, col: 5, offset: 54430},
 																	expr: &seqExpr{
-																		pos: position{line: 2489, col: 31, offset: 80268},
+																		pos: position{line: 2489, col: 31, offset: 80330},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2489, col: 31, offset: 80268},
+																				pos:        position{line: 2489, col: 31, offset: 80330},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2489, col: 36, offset: 80273},
+																				pos: position{line: 2489, col: 36, offset: 80335},
 																				expr: &litMatcher{
-																					pos:        position{line: 2489, col: 37, offset: 80274},
+																					pos:        position{line: 2489, col: 37, offset: 80336},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
@@ -30469,28 +30469,28 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1674, col: 35, offset: 54492},
 																				expr: &choiceExpr{
-																					pos: position{line: 2899, col: 8, offset: 91559},
+																					pos: position{line: 2899, col: 8, offset: 91621},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2886, col: 12, offset: 91332},
+																							pos: position{line: 2886, col: 12, offset: 91394},
 																							run: (*parser).callonListContinuationElement169,
 																							expr: &choiceExpr{
-																								pos: position{line: 2886, col: 13, offset: 91333},
+																								pos: position{line: 2886, col: 13, offset: 91395},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 13, offset: 91333},
+																										pos:        position{line: 2886, col: 13, offset: 91395},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 20, offset: 91340},
+																										pos:        position{line: 2886, col: 20, offset: 91402},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 29, offset: 91349},
+																										pos:        position{line: 2886, col: 29, offset: 91411},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -30499,9 +30499,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2896, col: 8, offset: 91509},
+																							pos: position{line: 2896, col: 8, offset: 91571},
 																							expr: &anyMatcher{
-																								line: 2896, col: 9, offset: 91510,
+																								line: 2896, col: 9, offset: 91572,
 																							},
 																						},
 																					},
@@ -30566,10 +30566,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 1692, col: 9, offset: 54997},
 																			expr: &actionExpr{
-																				pos: position{line: 2877, col: 10, offset: 91161},
+																				pos: position{line: 2877, col: 10, offset: 91223},
 																				run: (*parser).callonListContinuationElement190,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 10, offset: 91161},
+																					pos:        position{line: 2877, col: 10, offset: 91223},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30578,28 +30578,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2899, col: 8, offset: 91559},
+																			pos: position{line: 2899, col: 8, offset: 91621},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2886, col: 12, offset: 91332},
+																					pos: position{line: 2886, col: 12, offset: 91394},
 																					run: (*parser).callonListContinuationElement193,
 																					expr: &choiceExpr{
-																						pos: position{line: 2886, col: 13, offset: 91333},
+																						pos: position{line: 2886, col: 13, offset: 91395},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 13, offset: 91333},
+																								pos:        position{line: 2886, col: 13, offset: 91395},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 20, offset: 91340},
+																								pos:        position{line: 2886, col: 20, offset: 91402},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 29, offset: 91349},
+																								pos:        position{line: 2886, col: 29, offset: 91411},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30608,9 +30608,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91509},
+																					pos: position{line: 2896, col: 8, offset: 91571},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91510,
+																						line: 2896, col: 9, offset: 91572,
 																					},
 																				},
 																			},
@@ -30624,18 +30624,18 @@ var g = &grammar{
 																					pos: position{line: 677, col: 14, offset: 21525},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2894, col: 11, offset: 91495},
+																							pos: position{line: 2894, col: 11, offset: 91557},
 																							expr: &anyMatcher{
-																								line: 2894, col: 13, offset: 91497,
+																								line: 2894, col: 13, offset: 91559,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 677, col: 21, offset: 21532},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91161},
+																								pos: position{line: 2877, col: 10, offset: 91223},
 																								run: (*parser).callonListContinuationElement206,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91161},
+																									pos:        position{line: 2877, col: 10, offset: 91223},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30644,28 +30644,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91559},
+																							pos: position{line: 2899, col: 8, offset: 91621},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91332},
+																									pos: position{line: 2886, col: 12, offset: 91394},
 																									run: (*parser).callonListContinuationElement209,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91333},
+																										pos: position{line: 2886, col: 13, offset: 91395},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91333},
+																												pos:        position{line: 2886, col: 13, offset: 91395},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91340},
+																												pos:        position{line: 2886, col: 20, offset: 91402},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91349},
+																												pos:        position{line: 2886, col: 29, offset: 91411},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30674,9 +30674,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91509},
+																									pos: position{line: 2896, col: 8, offset: 91571},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91510,
+																										line: 2896, col: 9, offset: 91572,
 																									},
 																								},
 																							},
@@ -30695,12 +30695,12 @@ var g = &grammar{
 																	pos: position{line: 1699, col: 9, offset: 55145},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2881, col: 11, offset: 91222},
+																			pos: position{line: 2881, col: 11, offset: 91284},
 																			run: (*parser).callonListContinuationElement218,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2881, col: 11, offset: 91222},
+																				pos: position{line: 2881, col: 11, offset: 91284},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2881, col: 11, offset: 91222},
+																					pos:        position{line: 2881, col: 11, offset: 91284},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30727,28 +30727,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2899, col: 8, offset: 91559},
+																			pos: position{line: 2899, col: 8, offset: 91621},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2886, col: 12, offset: 91332},
+																					pos: position{line: 2886, col: 12, offset: 91394},
 																					run: (*parser).callonListContinuationElement226,
 																					expr: &choiceExpr{
-																						pos: position{line: 2886, col: 13, offset: 91333},
+																						pos: position{line: 2886, col: 13, offset: 91395},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 13, offset: 91333},
+																								pos:        position{line: 2886, col: 13, offset: 91395},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 20, offset: 91340},
+																								pos:        position{line: 2886, col: 20, offset: 91402},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 29, offset: 91349},
+																								pos:        position{line: 2886, col: 29, offset: 91411},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30757,9 +30757,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91509},
+																					pos: position{line: 2896, col: 8, offset: 91571},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91510,
+																						line: 2896, col: 9, offset: 91572,
 																					},
 																				},
 																			},
@@ -30800,18 +30800,18 @@ var g = &grammar{
 											pos: position{line: 677, col: 14, offset: 21525},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2894, col: 11, offset: 91495},
+													pos: position{line: 2894, col: 11, offset: 91557},
 													expr: &anyMatcher{
-														line: 2894, col: 13, offset: 91497,
+														line: 2894, col: 13, offset: 91559,
 													},
 												},
 												&zeroOrMoreExpr{
 													pos: position{line: 677, col: 21, offset: 21532},
 													expr: &actionExpr{
-														pos: position{line: 2877, col: 10, offset: 91161},
+														pos: position{line: 2877, col: 10, offset: 91223},
 														run: (*parser).callonListContinuationElement243,
 														expr: &charClassMatcher{
-															pos:        position{line: 2877, col: 10, offset: 91161},
+															pos:        position{line: 2877, col: 10, offset: 91223},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30820,28 +30820,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2899, col: 8, offset: 91559},
+													pos: position{line: 2899, col: 8, offset: 91621},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2886, col: 12, offset: 91332},
+															pos: position{line: 2886, col: 12, offset: 91394},
 															run: (*parser).callonListContinuationElement246,
 															expr: &choiceExpr{
-																pos: position{line: 2886, col: 13, offset: 91333},
+																pos: position{line: 2886, col: 13, offset: 91395},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 13, offset: 91333},
+																		pos:        position{line: 2886, col: 13, offset: 91395},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 20, offset: 91340},
+																		pos:        position{line: 2886, col: 20, offset: 91402},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 29, offset: 91349},
+																		pos:        position{line: 2886, col: 29, offset: 91411},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30850,9 +30850,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2896, col: 8, offset: 91509},
+															pos: position{line: 2896, col: 8, offset: 91571},
 															expr: &anyMatcher{
-																line: 2896, col: 9, offset: 91510,
+																line: 2896, col: 9, offset: 91572,
 															},
 														},
 													},
@@ -30917,10 +30917,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 359, col: 49, offset: 10879},
 													expr: &actionExpr{
-														pos: position{line: 2877, col: 10, offset: 91161},
+														pos: position{line: 2877, col: 10, offset: 91223},
 														run: (*parser).callonListContinuationElement265,
 														expr: &charClassMatcher{
-															pos:        position{line: 2877, col: 10, offset: 91161},
+															pos:        position{line: 2877, col: 10, offset: 91223},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30929,28 +30929,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2899, col: 8, offset: 91559},
+													pos: position{line: 2899, col: 8, offset: 91621},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2886, col: 12, offset: 91332},
+															pos: position{line: 2886, col: 12, offset: 91394},
 															run: (*parser).callonListContinuationElement268,
 															expr: &choiceExpr{
-																pos: position{line: 2886, col: 13, offset: 91333},
+																pos: position{line: 2886, col: 13, offset: 91395},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 13, offset: 91333},
+																		pos:        position{line: 2886, col: 13, offset: 91395},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 20, offset: 91340},
+																		pos:        position{line: 2886, col: 20, offset: 91402},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 29, offset: 91349},
+																		pos:        position{line: 2886, col: 29, offset: 91411},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30959,9 +30959,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2896, col: 8, offset: 91509},
+															pos: position{line: 2896, col: 8, offset: 91571},
 															expr: &anyMatcher{
-																line: 2896, col: 9, offset: 91510,
+																line: 2896, col: 9, offset: 91572,
 															},
 														},
 													},
@@ -31022,10 +31022,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 361, col: 39, offset: 11000},
 													expr: &actionExpr{
-														pos: position{line: 2877, col: 10, offset: 91161},
+														pos: position{line: 2877, col: 10, offset: 91223},
 														run: (*parser).callonListContinuationElement286,
 														expr: &charClassMatcher{
-															pos:        position{line: 2877, col: 10, offset: 91161},
+															pos:        position{line: 2877, col: 10, offset: 91223},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31034,28 +31034,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2899, col: 8, offset: 91559},
+													pos: position{line: 2899, col: 8, offset: 91621},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2886, col: 12, offset: 91332},
+															pos: position{line: 2886, col: 12, offset: 91394},
 															run: (*parser).callonListContinuationElement289,
 															expr: &choiceExpr{
-																pos: position{line: 2886, col: 13, offset: 91333},
+																pos: position{line: 2886, col: 13, offset: 91395},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 13, offset: 91333},
+																		pos:        position{line: 2886, col: 13, offset: 91395},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 20, offset: 91340},
+																		pos:        position{line: 2886, col: 20, offset: 91402},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 29, offset: 91349},
+																		pos:        position{line: 2886, col: 29, offset: 91411},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31064,9 +31064,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2896, col: 8, offset: 91509},
+															pos: position{line: 2896, col: 8, offset: 91571},
 															expr: &anyMatcher{
-																line: 2896, col: 9, offset: 91510,
+																line: 2896, col: 9, offset: 91572,
 															},
 														},
 													},
@@ -31117,10 +31117,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 742, col: 8, offset: 23722},
 																expr: &actionExpr{
-																	pos: position{line: 2877, col: 10, offset: 91161},
+																	pos: position{line: 2877, col: 10, offset: 91223},
 																	run: (*parser).callonListContinuationElement307,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2877, col: 10, offset: 91161},
+																		pos:        position{line: 2877, col: 10, offset: 91223},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -31129,28 +31129,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2899, col: 8, offset: 91559},
+																pos: position{line: 2899, col: 8, offset: 91621},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2886, col: 12, offset: 91332},
+																		pos: position{line: 2886, col: 12, offset: 91394},
 																		run: (*parser).callonListContinuationElement310,
 																		expr: &choiceExpr{
-																			pos: position{line: 2886, col: 13, offset: 91333},
+																			pos: position{line: 2886, col: 13, offset: 91395},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 13, offset: 91333},
+																					pos:        position{line: 2886, col: 13, offset: 91395},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 20, offset: 91340},
+																					pos:        position{line: 2886, col: 20, offset: 91402},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 29, offset: 91349},
+																					pos:        position{line: 2886, col: 29, offset: 91411},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -31159,9 +31159,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2896, col: 8, offset: 91509},
+																		pos: position{line: 2896, col: 8, offset: 91571},
 																		expr: &anyMatcher{
-																			line: 2896, col: 9, offset: 91510,
+																			line: 2896, col: 9, offset: 91572,
 																		},
 																	},
 																},
@@ -31222,10 +31222,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 742, col: 8, offset: 23722},
 																								expr: &actionExpr{
-																									pos: position{line: 2877, col: 10, offset: 91161},
+																									pos: position{line: 2877, col: 10, offset: 91223},
 																									run: (*parser).callonListContinuationElement332,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 10, offset: 91161},
+																										pos:        position{line: 2877, col: 10, offset: 91223},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -31234,28 +31234,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2899, col: 8, offset: 91559},
+																								pos: position{line: 2899, col: 8, offset: 91621},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2886, col: 12, offset: 91332},
+																										pos: position{line: 2886, col: 12, offset: 91394},
 																										run: (*parser).callonListContinuationElement335,
 																										expr: &choiceExpr{
-																											pos: position{line: 2886, col: 13, offset: 91333},
+																											pos: position{line: 2886, col: 13, offset: 91395},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 13, offset: 91333},
+																													pos:        position{line: 2886, col: 13, offset: 91395},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 20, offset: 91340},
+																													pos:        position{line: 2886, col: 20, offset: 91402},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 29, offset: 91349},
+																													pos:        position{line: 2886, col: 29, offset: 91411},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -31264,9 +31264,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2896, col: 8, offset: 91509},
+																										pos: position{line: 2896, col: 8, offset: 91571},
 																										expr: &anyMatcher{
-																											line: 2896, col: 9, offset: 91510,
+																											line: 2896, col: 9, offset: 91572,
 																										},
 																									},
 																								},
@@ -31275,9 +31275,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91509},
+																					pos: position{line: 2896, col: 8, offset: 91571},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91510,
+																						line: 2896, col: 9, offset: 91572,
 																					},
 																				},
 																			},
@@ -31293,21 +31293,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26129},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2894, col: 11, offset: 91495},
+																						pos: position{line: 2894, col: 11, offset: 91557},
 																						expr: &anyMatcher{
-																							line: 2894, col: 13, offset: 91497,
+																							line: 2894, col: 13, offset: 91559,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26204},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2823, col: 13, offset: 89687},
+																							pos: position{line: 2823, col: 13, offset: 89749},
 																							run: (*parser).callonListContinuationElement350,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2823, col: 13, offset: 89687},
+																								pos: position{line: 2823, col: 13, offset: 89749},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2823, col: 13, offset: 89687},
+																									pos:        position{line: 2823, col: 13, offset: 89749},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31317,28 +31317,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91559},
+																						pos: position{line: 2899, col: 8, offset: 91621},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91332},
+																								pos: position{line: 2886, col: 12, offset: 91394},
 																								run: (*parser).callonListContinuationElement354,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91333},
+																									pos: position{line: 2886, col: 13, offset: 91395},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91333},
+																											pos:        position{line: 2886, col: 13, offset: 91395},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91340},
+																											pos:        position{line: 2886, col: 20, offset: 91402},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91349},
+																											pos:        position{line: 2886, col: 29, offset: 91411},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31347,9 +31347,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91509},
+																								pos: position{line: 2896, col: 8, offset: 91571},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91510,
+																									line: 2896, col: 9, offset: 91572,
 																								},
 																							},
 																						},
@@ -31405,10 +31405,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 742, col: 8, offset: 23722},
 																			expr: &actionExpr{
-																				pos: position{line: 2877, col: 10, offset: 91161},
+																				pos: position{line: 2877, col: 10, offset: 91223},
 																				run: (*parser).callonListContinuationElement372,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 10, offset: 91161},
+																					pos:        position{line: 2877, col: 10, offset: 91223},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -31417,28 +31417,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2899, col: 8, offset: 91559},
+																			pos: position{line: 2899, col: 8, offset: 91621},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2886, col: 12, offset: 91332},
+																					pos: position{line: 2886, col: 12, offset: 91394},
 																					run: (*parser).callonListContinuationElement375,
 																					expr: &choiceExpr{
-																						pos: position{line: 2886, col: 13, offset: 91333},
+																						pos: position{line: 2886, col: 13, offset: 91395},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 13, offset: 91333},
+																								pos:        position{line: 2886, col: 13, offset: 91395},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 20, offset: 91340},
+																								pos:        position{line: 2886, col: 20, offset: 91402},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 29, offset: 91349},
+																								pos:        position{line: 2886, col: 29, offset: 91411},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31447,9 +31447,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91509},
+																					pos: position{line: 2896, col: 8, offset: 91571},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91510,
+																						line: 2896, col: 9, offset: 91572,
 																					},
 																				},
 																			},
@@ -31458,9 +31458,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2896, col: 8, offset: 91509},
+																pos: position{line: 2896, col: 8, offset: 91571},
 																expr: &anyMatcher{
-																	line: 2896, col: 9, offset: 91510,
+																	line: 2896, col: 9, offset: 91572,
 																},
 															},
 														},
@@ -31515,10 +31515,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 749, col: 8, offset: 23970},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91161},
+																		pos: position{line: 2877, col: 10, offset: 91223},
 																		run: (*parser).callonListContinuationElement396,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91161},
+																			pos:        position{line: 2877, col: 10, offset: 91223},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31527,28 +31527,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91559},
+																	pos: position{line: 2899, col: 8, offset: 91621},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91332},
+																			pos: position{line: 2886, col: 12, offset: 91394},
 																			run: (*parser).callonListContinuationElement399,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91333},
+																				pos: position{line: 2886, col: 13, offset: 91395},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91333},
+																						pos:        position{line: 2886, col: 13, offset: 91395},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91340},
+																						pos:        position{line: 2886, col: 20, offset: 91402},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91349},
+																						pos:        position{line: 2886, col: 29, offset: 91411},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31557,9 +31557,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91509},
+																			pos: position{line: 2896, col: 8, offset: 91571},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91510,
+																				line: 2896, col: 9, offset: 91572,
 																			},
 																		},
 																	},
@@ -31631,10 +31631,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 749, col: 8, offset: 23970},
 																											expr: &actionExpr{
-																												pos: position{line: 2877, col: 10, offset: 91161},
+																												pos: position{line: 2877, col: 10, offset: 91223},
 																												run: (*parser).callonListContinuationElement424,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2877, col: 10, offset: 91161},
+																													pos:        position{line: 2877, col: 10, offset: 91223},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31643,28 +31643,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91559},
+																											pos: position{line: 2899, col: 8, offset: 91621},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91332},
+																													pos: position{line: 2886, col: 12, offset: 91394},
 																													run: (*parser).callonListContinuationElement427,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91333},
+																														pos: position{line: 2886, col: 13, offset: 91395},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91333},
+																																pos:        position{line: 2886, col: 13, offset: 91395},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91340},
+																																pos:        position{line: 2886, col: 20, offset: 91402},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91349},
+																																pos:        position{line: 2886, col: 29, offset: 91411},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31673,9 +31673,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91509},
+																													pos: position{line: 2896, col: 8, offset: 91571},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91510,
+																														line: 2896, col: 9, offset: 91572,
 																													},
 																												},
 																											},
@@ -31691,9 +31691,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91509},
+																					pos: position{line: 2896, col: 8, offset: 91571},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91510,
+																						line: 2896, col: 9, offset: 91572,
 																					},
 																				},
 																			},
@@ -31709,21 +31709,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26129},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2894, col: 11, offset: 91495},
+																						pos: position{line: 2894, col: 11, offset: 91557},
 																						expr: &anyMatcher{
-																							line: 2894, col: 13, offset: 91497,
+																							line: 2894, col: 13, offset: 91559,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26204},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2823, col: 13, offset: 89687},
+																							pos: position{line: 2823, col: 13, offset: 89749},
 																							run: (*parser).callonListContinuationElement443,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2823, col: 13, offset: 89687},
+																								pos: position{line: 2823, col: 13, offset: 89749},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2823, col: 13, offset: 89687},
+																									pos:        position{line: 2823, col: 13, offset: 89749},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31733,28 +31733,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91559},
+																						pos: position{line: 2899, col: 8, offset: 91621},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91332},
+																								pos: position{line: 2886, col: 12, offset: 91394},
 																								run: (*parser).callonListContinuationElement447,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91333},
+																									pos: position{line: 2886, col: 13, offset: 91395},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91333},
+																											pos:        position{line: 2886, col: 13, offset: 91395},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91340},
+																											pos:        position{line: 2886, col: 20, offset: 91402},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91349},
+																											pos:        position{line: 2886, col: 29, offset: 91411},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31763,9 +31763,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91509},
+																								pos: position{line: 2896, col: 8, offset: 91571},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91510,
+																									line: 2896, col: 9, offset: 91572,
 																								},
 																							},
 																						},
@@ -31830,10 +31830,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 749, col: 8, offset: 23970},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91161},
+																								pos: position{line: 2877, col: 10, offset: 91223},
 																								run: (*parser).callonListContinuationElement468,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91161},
+																									pos:        position{line: 2877, col: 10, offset: 91223},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -31842,28 +31842,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91559},
+																							pos: position{line: 2899, col: 8, offset: 91621},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91332},
+																									pos: position{line: 2886, col: 12, offset: 91394},
 																									run: (*parser).callonListContinuationElement471,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91333},
+																										pos: position{line: 2886, col: 13, offset: 91395},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91333},
+																												pos:        position{line: 2886, col: 13, offset: 91395},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91340},
+																												pos:        position{line: 2886, col: 20, offset: 91402},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91349},
+																												pos:        position{line: 2886, col: 29, offset: 91411},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -31872,9 +31872,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91509},
+																									pos: position{line: 2896, col: 8, offset: 91571},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91510,
+																										line: 2896, col: 9, offset: 91572,
 																									},
 																								},
 																							},
@@ -31890,9 +31890,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2896, col: 8, offset: 91509},
+																	pos: position{line: 2896, col: 8, offset: 91571},
 																	expr: &anyMatcher{
-																		line: 2896, col: 9, offset: 91510,
+																		line: 2896, col: 9, offset: 91572,
 																	},
 																},
 															},
@@ -31944,10 +31944,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 760, col: 52, offset: 24382},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91161},
+																		pos: position{line: 2877, col: 10, offset: 91223},
 																		run: (*parser).callonListContinuationElement492,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91161},
+																			pos:        position{line: 2877, col: 10, offset: 91223},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31956,28 +31956,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91559},
+																	pos: position{line: 2899, col: 8, offset: 91621},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91332},
+																			pos: position{line: 2886, col: 12, offset: 91394},
 																			run: (*parser).callonListContinuationElement495,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91333},
+																				pos: position{line: 2886, col: 13, offset: 91395},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91333},
+																						pos:        position{line: 2886, col: 13, offset: 91395},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91340},
+																						pos:        position{line: 2886, col: 20, offset: 91402},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91349},
+																						pos:        position{line: 2886, col: 29, offset: 91411},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31986,9 +31986,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91509},
+																			pos: position{line: 2896, col: 8, offset: 91571},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91510,
+																				line: 2896, col: 9, offset: 91572,
 																			},
 																		},
 																	},
@@ -32022,10 +32022,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 963, col: 40, offset: 30190},
 																					expr: &actionExpr{
-																						pos: position{line: 2877, col: 10, offset: 91161},
+																						pos: position{line: 2877, col: 10, offset: 91223},
 																						run: (*parser).callonListContinuationElement510,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2877, col: 10, offset: 91161},
+																							pos:        position{line: 2877, col: 10, offset: 91223},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -32034,28 +32034,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2899, col: 8, offset: 91559},
+																					pos: position{line: 2899, col: 8, offset: 91621},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2886, col: 12, offset: 91332},
+																							pos: position{line: 2886, col: 12, offset: 91394},
 																							run: (*parser).callonListContinuationElement513,
 																							expr: &choiceExpr{
-																								pos: position{line: 2886, col: 13, offset: 91333},
+																								pos: position{line: 2886, col: 13, offset: 91395},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 13, offset: 91333},
+																										pos:        position{line: 2886, col: 13, offset: 91395},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 20, offset: 91340},
+																										pos:        position{line: 2886, col: 20, offset: 91402},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 29, offset: 91349},
+																										pos:        position{line: 2886, col: 29, offset: 91411},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -32064,9 +32064,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2896, col: 8, offset: 91509},
+																							pos: position{line: 2896, col: 8, offset: 91571},
 																							expr: &anyMatcher{
-																								line: 2896, col: 9, offset: 91510,
+																								line: 2896, col: 9, offset: 91572,
 																							},
 																						},
 																					},
@@ -32084,21 +32084,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26129},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2894, col: 11, offset: 91495},
+																						pos: position{line: 2894, col: 11, offset: 91557},
 																						expr: &anyMatcher{
-																							line: 2894, col: 13, offset: 91497,
+																							line: 2894, col: 13, offset: 91559,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26204},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2823, col: 13, offset: 89687},
+																							pos: position{line: 2823, col: 13, offset: 89749},
 																							run: (*parser).callonListContinuationElement526,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2823, col: 13, offset: 89687},
+																								pos: position{line: 2823, col: 13, offset: 89749},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2823, col: 13, offset: 89687},
+																									pos:        position{line: 2823, col: 13, offset: 89749},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32108,28 +32108,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91559},
+																						pos: position{line: 2899, col: 8, offset: 91621},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91332},
+																								pos: position{line: 2886, col: 12, offset: 91394},
 																								run: (*parser).callonListContinuationElement530,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91333},
+																									pos: position{line: 2886, col: 13, offset: 91395},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91333},
+																											pos:        position{line: 2886, col: 13, offset: 91395},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91340},
+																											pos:        position{line: 2886, col: 20, offset: 91402},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91349},
+																											pos:        position{line: 2886, col: 29, offset: 91411},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32138,9 +32138,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91509},
+																								pos: position{line: 2896, col: 8, offset: 91571},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91510,
+																									line: 2896, col: 9, offset: 91572,
 																								},
 																							},
 																						},
@@ -32168,10 +32168,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 963, col: 40, offset: 30190},
 																expr: &actionExpr{
-																	pos: position{line: 2877, col: 10, offset: 91161},
+																	pos: position{line: 2877, col: 10, offset: 91223},
 																	run: (*parser).callonListContinuationElement541,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2877, col: 10, offset: 91161},
+																		pos:        position{line: 2877, col: 10, offset: 91223},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -32180,28 +32180,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2899, col: 8, offset: 91559},
+																pos: position{line: 2899, col: 8, offset: 91621},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2886, col: 12, offset: 91332},
+																		pos: position{line: 2886, col: 12, offset: 91394},
 																		run: (*parser).callonListContinuationElement544,
 																		expr: &choiceExpr{
-																			pos: position{line: 2886, col: 13, offset: 91333},
+																			pos: position{line: 2886, col: 13, offset: 91395},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 13, offset: 91333},
+																					pos:        position{line: 2886, col: 13, offset: 91395},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 20, offset: 91340},
+																					pos:        position{line: 2886, col: 20, offset: 91402},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 29, offset: 91349},
+																					pos:        position{line: 2886, col: 29, offset: 91411},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -32210,9 +32210,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2896, col: 8, offset: 91509},
+																		pos: position{line: 2896, col: 8, offset: 91571},
 																		expr: &anyMatcher{
-																			line: 2896, col: 9, offset: 91510,
+																			line: 2896, col: 9, offset: 91572,
 																		},
 																	},
 																},
@@ -32269,10 +32269,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 756, col: 8, offset: 24216},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91161},
+																		pos: position{line: 2877, col: 10, offset: 91223},
 																		run: (*parser).callonListContinuationElement563,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91161},
+																			pos:        position{line: 2877, col: 10, offset: 91223},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32281,28 +32281,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91559},
+																	pos: position{line: 2899, col: 8, offset: 91621},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91332},
+																			pos: position{line: 2886, col: 12, offset: 91394},
 																			run: (*parser).callonListContinuationElement566,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91333},
+																				pos: position{line: 2886, col: 13, offset: 91395},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91333},
+																						pos:        position{line: 2886, col: 13, offset: 91395},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91340},
+																						pos:        position{line: 2886, col: 20, offset: 91402},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91349},
+																						pos:        position{line: 2886, col: 29, offset: 91411},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32311,9 +32311,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91509},
+																			pos: position{line: 2896, col: 8, offset: 91571},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91510,
+																				line: 2896, col: 9, offset: 91572,
 																			},
 																		},
 																	},
@@ -32385,10 +32385,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 756, col: 8, offset: 24216},
 																											expr: &actionExpr{
-																												pos: position{line: 2877, col: 10, offset: 91161},
+																												pos: position{line: 2877, col: 10, offset: 91223},
 																												run: (*parser).callonListContinuationElement591,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2877, col: 10, offset: 91161},
+																													pos:        position{line: 2877, col: 10, offset: 91223},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32397,28 +32397,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91559},
+																											pos: position{line: 2899, col: 8, offset: 91621},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91332},
+																													pos: position{line: 2886, col: 12, offset: 91394},
 																													run: (*parser).callonListContinuationElement594,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91333},
+																														pos: position{line: 2886, col: 13, offset: 91395},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91333},
+																																pos:        position{line: 2886, col: 13, offset: 91395},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91340},
+																																pos:        position{line: 2886, col: 20, offset: 91402},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91349},
+																																pos:        position{line: 2886, col: 29, offset: 91411},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32427,9 +32427,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91509},
+																													pos: position{line: 2896, col: 8, offset: 91571},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91510,
+																														line: 2896, col: 9, offset: 91572,
 																													},
 																												},
 																											},
@@ -32445,9 +32445,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91509},
+																					pos: position{line: 2896, col: 8, offset: 91571},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91510,
+																						line: 2896, col: 9, offset: 91572,
 																					},
 																				},
 																			},
@@ -32463,21 +32463,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26129},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2894, col: 11, offset: 91495},
+																						pos: position{line: 2894, col: 11, offset: 91557},
 																						expr: &anyMatcher{
-																							line: 2894, col: 13, offset: 91497,
+																							line: 2894, col: 13, offset: 91559,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26204},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2823, col: 13, offset: 89687},
+																							pos: position{line: 2823, col: 13, offset: 89749},
 																							run: (*parser).callonListContinuationElement610,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2823, col: 13, offset: 89687},
+																								pos: position{line: 2823, col: 13, offset: 89749},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2823, col: 13, offset: 89687},
+																									pos:        position{line: 2823, col: 13, offset: 89749},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32487,28 +32487,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91559},
+																						pos: position{line: 2899, col: 8, offset: 91621},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91332},
+																								pos: position{line: 2886, col: 12, offset: 91394},
 																								run: (*parser).callonListContinuationElement614,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91333},
+																									pos: position{line: 2886, col: 13, offset: 91395},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91333},
+																											pos:        position{line: 2886, col: 13, offset: 91395},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91340},
+																											pos:        position{line: 2886, col: 20, offset: 91402},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91349},
+																											pos:        position{line: 2886, col: 29, offset: 91411},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32517,9 +32517,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91509},
+																								pos: position{line: 2896, col: 8, offset: 91571},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91510,
+																									line: 2896, col: 9, offset: 91572,
 																								},
 																							},
 																						},
@@ -32584,10 +32584,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 756, col: 8, offset: 24216},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91161},
+																								pos: position{line: 2877, col: 10, offset: 91223},
 																								run: (*parser).callonListContinuationElement635,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91161},
+																									pos:        position{line: 2877, col: 10, offset: 91223},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32596,28 +32596,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91559},
+																							pos: position{line: 2899, col: 8, offset: 91621},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91332},
+																									pos: position{line: 2886, col: 12, offset: 91394},
 																									run: (*parser).callonListContinuationElement638,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91333},
+																										pos: position{line: 2886, col: 13, offset: 91395},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91333},
+																												pos:        position{line: 2886, col: 13, offset: 91395},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91340},
+																												pos:        position{line: 2886, col: 20, offset: 91402},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91349},
+																												pos:        position{line: 2886, col: 29, offset: 91411},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32626,9 +32626,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91509},
+																									pos: position{line: 2896, col: 8, offset: 91571},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91510,
+																										line: 2896, col: 9, offset: 91572,
 																									},
 																								},
 																							},
@@ -32644,9 +32644,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2896, col: 8, offset: 91509},
+																	pos: position{line: 2896, col: 8, offset: 91571},
 																	expr: &anyMatcher{
-																		line: 2896, col: 9, offset: 91510,
+																		line: 2896, col: 9, offset: 91572,
 																	},
 																},
 															},
@@ -32702,10 +32702,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 771, col: 8, offset: 24759},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91161},
+																		pos: position{line: 2877, col: 10, offset: 91223},
 																		run: (*parser).callonListContinuationElement660,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91161},
+																			pos:        position{line: 2877, col: 10, offset: 91223},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32714,28 +32714,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91559},
+																	pos: position{line: 2899, col: 8, offset: 91621},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91332},
+																			pos: position{line: 2886, col: 12, offset: 91394},
 																			run: (*parser).callonListContinuationElement663,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91333},
+																				pos: position{line: 2886, col: 13, offset: 91395},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91333},
+																						pos:        position{line: 2886, col: 13, offset: 91395},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91340},
+																						pos:        position{line: 2886, col: 20, offset: 91402},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91349},
+																						pos:        position{line: 2886, col: 29, offset: 91411},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32744,9 +32744,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91509},
+																			pos: position{line: 2896, col: 8, offset: 91571},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91510,
+																				line: 2896, col: 9, offset: 91572,
 																			},
 																		},
 																	},
@@ -32818,10 +32818,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 771, col: 8, offset: 24759},
 																											expr: &actionExpr{
-																												pos: position{line: 2877, col: 10, offset: 91161},
+																												pos: position{line: 2877, col: 10, offset: 91223},
 																												run: (*parser).callonListContinuationElement688,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2877, col: 10, offset: 91161},
+																													pos:        position{line: 2877, col: 10, offset: 91223},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32830,28 +32830,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91559},
+																											pos: position{line: 2899, col: 8, offset: 91621},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91332},
+																													pos: position{line: 2886, col: 12, offset: 91394},
 																													run: (*parser).callonListContinuationElement691,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91333},
+																														pos: position{line: 2886, col: 13, offset: 91395},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91333},
+																																pos:        position{line: 2886, col: 13, offset: 91395},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91340},
+																																pos:        position{line: 2886, col: 20, offset: 91402},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91349},
+																																pos:        position{line: 2886, col: 29, offset: 91411},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32860,9 +32860,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91509},
+																													pos: position{line: 2896, col: 8, offset: 91571},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91510,
+																														line: 2896, col: 9, offset: 91572,
 																													},
 																												},
 																											},
@@ -32878,9 +32878,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91509},
+																					pos: position{line: 2896, col: 8, offset: 91571},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91510,
+																						line: 2896, col: 9, offset: 91572,
 																					},
 																				},
 																			},
@@ -32896,21 +32896,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26129},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2894, col: 11, offset: 91495},
+																						pos: position{line: 2894, col: 11, offset: 91557},
 																						expr: &anyMatcher{
-																							line: 2894, col: 13, offset: 91497,
+																							line: 2894, col: 13, offset: 91559,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26204},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2823, col: 13, offset: 89687},
+																							pos: position{line: 2823, col: 13, offset: 89749},
 																							run: (*parser).callonListContinuationElement707,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2823, col: 13, offset: 89687},
+																								pos: position{line: 2823, col: 13, offset: 89749},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2823, col: 13, offset: 89687},
+																									pos:        position{line: 2823, col: 13, offset: 89749},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32920,28 +32920,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91559},
+																						pos: position{line: 2899, col: 8, offset: 91621},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91332},
+																								pos: position{line: 2886, col: 12, offset: 91394},
 																								run: (*parser).callonListContinuationElement711,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91333},
+																									pos: position{line: 2886, col: 13, offset: 91395},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91333},
+																											pos:        position{line: 2886, col: 13, offset: 91395},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91340},
+																											pos:        position{line: 2886, col: 20, offset: 91402},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91349},
+																											pos:        position{line: 2886, col: 29, offset: 91411},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32950,9 +32950,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91509},
+																								pos: position{line: 2896, col: 8, offset: 91571},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91510,
+																									line: 2896, col: 9, offset: 91572,
 																								},
 																							},
 																						},
@@ -33017,10 +33017,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 771, col: 8, offset: 24759},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91161},
+																								pos: position{line: 2877, col: 10, offset: 91223},
 																								run: (*parser).callonListContinuationElement732,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91161},
+																									pos:        position{line: 2877, col: 10, offset: 91223},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33029,28 +33029,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91559},
+																							pos: position{line: 2899, col: 8, offset: 91621},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91332},
+																									pos: position{line: 2886, col: 12, offset: 91394},
 																									run: (*parser).callonListContinuationElement735,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91333},
+																										pos: position{line: 2886, col: 13, offset: 91395},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91333},
+																												pos:        position{line: 2886, col: 13, offset: 91395},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91340},
+																												pos:        position{line: 2886, col: 20, offset: 91402},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91349},
+																												pos:        position{line: 2886, col: 29, offset: 91411},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33059,9 +33059,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91509},
+																									pos: position{line: 2896, col: 8, offset: 91571},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91510,
+																										line: 2896, col: 9, offset: 91572,
 																									},
 																								},
 																							},
@@ -33077,9 +33077,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2896, col: 8, offset: 91509},
+																	pos: position{line: 2896, col: 8, offset: 91571},
 																	expr: &anyMatcher{
-																		line: 2896, col: 9, offset: 91510,
+																		line: 2896, col: 9, offset: 91572,
 																	},
 																},
 															},
@@ -33135,10 +33135,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 785, col: 8, offset: 25235},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91161},
+																		pos: position{line: 2877, col: 10, offset: 91223},
 																		run: (*parser).callonListContinuationElement757,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91161},
+																			pos:        position{line: 2877, col: 10, offset: 91223},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33147,28 +33147,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91559},
+																	pos: position{line: 2899, col: 8, offset: 91621},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91332},
+																			pos: position{line: 2886, col: 12, offset: 91394},
 																			run: (*parser).callonListContinuationElement760,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91333},
+																				pos: position{line: 2886, col: 13, offset: 91395},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91333},
+																						pos:        position{line: 2886, col: 13, offset: 91395},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91340},
+																						pos:        position{line: 2886, col: 20, offset: 91402},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91349},
+																						pos:        position{line: 2886, col: 29, offset: 91411},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33177,9 +33177,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91509},
+																			pos: position{line: 2896, col: 8, offset: 91571},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91510,
+																				line: 2896, col: 9, offset: 91572,
 																			},
 																		},
 																	},
@@ -33251,10 +33251,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 785, col: 8, offset: 25235},
 																											expr: &actionExpr{
-																												pos: position{line: 2877, col: 10, offset: 91161},
+																												pos: position{line: 2877, col: 10, offset: 91223},
 																												run: (*parser).callonListContinuationElement785,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2877, col: 10, offset: 91161},
+																													pos:        position{line: 2877, col: 10, offset: 91223},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33263,28 +33263,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91559},
+																											pos: position{line: 2899, col: 8, offset: 91621},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91332},
+																													pos: position{line: 2886, col: 12, offset: 91394},
 																													run: (*parser).callonListContinuationElement788,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91333},
+																														pos: position{line: 2886, col: 13, offset: 91395},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91333},
+																																pos:        position{line: 2886, col: 13, offset: 91395},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91340},
+																																pos:        position{line: 2886, col: 20, offset: 91402},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91349},
+																																pos:        position{line: 2886, col: 29, offset: 91411},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33293,9 +33293,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91509},
+																													pos: position{line: 2896, col: 8, offset: 91571},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91510,
+																														line: 2896, col: 9, offset: 91572,
 																													},
 																												},
 																											},
@@ -33311,9 +33311,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91509},
+																					pos: position{line: 2896, col: 8, offset: 91571},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91510,
+																						line: 2896, col: 9, offset: 91572,
 																					},
 																				},
 																			},
@@ -33329,21 +33329,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26129},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2894, col: 11, offset: 91495},
+																						pos: position{line: 2894, col: 11, offset: 91557},
 																						expr: &anyMatcher{
-																							line: 2894, col: 13, offset: 91497,
+																							line: 2894, col: 13, offset: 91559,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26204},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2823, col: 13, offset: 89687},
+																							pos: position{line: 2823, col: 13, offset: 89749},
 																							run: (*parser).callonListContinuationElement804,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2823, col: 13, offset: 89687},
+																								pos: position{line: 2823, col: 13, offset: 89749},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2823, col: 13, offset: 89687},
+																									pos:        position{line: 2823, col: 13, offset: 89749},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33353,28 +33353,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91559},
+																						pos: position{line: 2899, col: 8, offset: 91621},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91332},
+																								pos: position{line: 2886, col: 12, offset: 91394},
 																								run: (*parser).callonListContinuationElement808,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91333},
+																									pos: position{line: 2886, col: 13, offset: 91395},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91333},
+																											pos:        position{line: 2886, col: 13, offset: 91395},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91340},
+																											pos:        position{line: 2886, col: 20, offset: 91402},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91349},
+																											pos:        position{line: 2886, col: 29, offset: 91411},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33383,9 +33383,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91509},
+																								pos: position{line: 2896, col: 8, offset: 91571},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91510,
+																									line: 2896, col: 9, offset: 91572,
 																								},
 																							},
 																						},
@@ -33450,10 +33450,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 785, col: 8, offset: 25235},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91161},
+																								pos: position{line: 2877, col: 10, offset: 91223},
 																								run: (*parser).callonListContinuationElement829,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91161},
+																									pos:        position{line: 2877, col: 10, offset: 91223},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33462,28 +33462,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91559},
+																							pos: position{line: 2899, col: 8, offset: 91621},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91332},
+																									pos: position{line: 2886, col: 12, offset: 91394},
 																									run: (*parser).callonListContinuationElement832,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91333},
+																										pos: position{line: 2886, col: 13, offset: 91395},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91333},
+																												pos:        position{line: 2886, col: 13, offset: 91395},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91340},
+																												pos:        position{line: 2886, col: 20, offset: 91402},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91349},
+																												pos:        position{line: 2886, col: 29, offset: 91411},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33492,9 +33492,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91509},
+																									pos: position{line: 2896, col: 8, offset: 91571},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91510,
+																										line: 2896, col: 9, offset: 91572,
 																									},
 																								},
 																							},
@@ -33510,9 +33510,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2896, col: 8, offset: 91509},
+																	pos: position{line: 2896, col: 8, offset: 91571},
 																	expr: &anyMatcher{
-																		line: 2896, col: 9, offset: 91510,
+																		line: 2896, col: 9, offset: 91572,
 																	},
 																},
 															},
@@ -33546,18 +33546,18 @@ var g = &grammar{
 																			pos: position{line: 677, col: 14, offset: 21525},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2894, col: 11, offset: 91495},
+																					pos: position{line: 2894, col: 11, offset: 91557},
 																					expr: &anyMatcher{
-																						line: 2894, col: 13, offset: 91497,
+																						line: 2894, col: 13, offset: 91559,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21532},
 																					expr: &actionExpr{
-																						pos: position{line: 2877, col: 10, offset: 91161},
+																						pos: position{line: 2877, col: 10, offset: 91223},
 																						run: (*parser).callonListContinuationElement853,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2877, col: 10, offset: 91161},
+																							pos:        position{line: 2877, col: 10, offset: 91223},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -33566,28 +33566,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2899, col: 8, offset: 91559},
+																					pos: position{line: 2899, col: 8, offset: 91621},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2886, col: 12, offset: 91332},
+																							pos: position{line: 2886, col: 12, offset: 91394},
 																							run: (*parser).callonListContinuationElement856,
 																							expr: &choiceExpr{
-																								pos: position{line: 2886, col: 13, offset: 91333},
+																								pos: position{line: 2886, col: 13, offset: 91395},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 13, offset: 91333},
+																										pos:        position{line: 2886, col: 13, offset: 91395},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 20, offset: 91340},
+																										pos:        position{line: 2886, col: 20, offset: 91402},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 29, offset: 91349},
+																										pos:        position{line: 2886, col: 29, offset: 91411},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -33596,9 +33596,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2896, col: 8, offset: 91509},
+																							pos: position{line: 2896, col: 8, offset: 91571},
 																							expr: &anyMatcher{
-																								line: 2896, col: 9, offset: 91510,
+																								line: 2896, col: 9, offset: 91572,
 																							},
 																						},
 																					},
@@ -33617,12 +33617,12 @@ var g = &grammar{
 																	pos:   position{line: 984, col: 5, offset: 30725},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2827, col: 14, offset: 89754},
+																		pos: position{line: 2827, col: 14, offset: 89816},
 																		run: (*parser).callonListContinuationElement865,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2827, col: 14, offset: 89754},
+																			pos: position{line: 2827, col: 14, offset: 89816},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2827, col: 14, offset: 89754},
+																				pos:        position{line: 2827, col: 14, offset: 89816},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -33632,28 +33632,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91559},
+																	pos: position{line: 2899, col: 8, offset: 91621},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91332},
+																			pos: position{line: 2886, col: 12, offset: 91394},
 																			run: (*parser).callonListContinuationElement869,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91333},
+																				pos: position{line: 2886, col: 13, offset: 91395},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91333},
+																						pos:        position{line: 2886, col: 13, offset: 91395},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91340},
+																						pos:        position{line: 2886, col: 20, offset: 91402},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91349},
+																						pos:        position{line: 2886, col: 29, offset: 91411},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33662,9 +33662,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91509},
+																			pos: position{line: 2896, col: 8, offset: 91571},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91510,
+																				line: 2896, col: 9, offset: 91572,
 																			},
 																		},
 																	},
@@ -33696,18 +33696,18 @@ var g = &grammar{
 																						pos: position{line: 677, col: 14, offset: 21525},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2894, col: 11, offset: 91495},
+																								pos: position{line: 2894, col: 11, offset: 91557},
 																								expr: &anyMatcher{
-																									line: 2894, col: 13, offset: 91497,
+																									line: 2894, col: 13, offset: 91559,
 																								},
 																							},
 																							&zeroOrMoreExpr{
 																								pos: position{line: 677, col: 21, offset: 21532},
 																								expr: &actionExpr{
-																									pos: position{line: 2877, col: 10, offset: 91161},
+																									pos: position{line: 2877, col: 10, offset: 91223},
 																									run: (*parser).callonListContinuationElement887,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 10, offset: 91161},
+																										pos:        position{line: 2877, col: 10, offset: 91223},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33716,28 +33716,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2899, col: 8, offset: 91559},
+																								pos: position{line: 2899, col: 8, offset: 91621},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2886, col: 12, offset: 91332},
+																										pos: position{line: 2886, col: 12, offset: 91394},
 																										run: (*parser).callonListContinuationElement890,
 																										expr: &choiceExpr{
-																											pos: position{line: 2886, col: 13, offset: 91333},
+																											pos: position{line: 2886, col: 13, offset: 91395},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 13, offset: 91333},
+																													pos:        position{line: 2886, col: 13, offset: 91395},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 20, offset: 91340},
+																													pos:        position{line: 2886, col: 20, offset: 91402},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 29, offset: 91349},
+																													pos:        position{line: 2886, col: 29, offset: 91411},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33746,9 +33746,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2896, col: 8, offset: 91509},
+																										pos: position{line: 2896, col: 8, offset: 91571},
 																										expr: &anyMatcher{
-																											line: 2896, col: 9, offset: 91510,
+																											line: 2896, col: 9, offset: 91572,
 																										},
 																									},
 																								},
@@ -33767,12 +33767,12 @@ var g = &grammar{
 																				pos:   position{line: 984, col: 5, offset: 30725},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2827, col: 14, offset: 89754},
+																					pos: position{line: 2827, col: 14, offset: 89816},
 																					run: (*parser).callonListContinuationElement899,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2827, col: 14, offset: 89754},
+																						pos: position{line: 2827, col: 14, offset: 89816},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2827, col: 14, offset: 89754},
+																							pos:        position{line: 2827, col: 14, offset: 89816},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33782,28 +33782,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2899, col: 8, offset: 91559},
+																				pos: position{line: 2899, col: 8, offset: 91621},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2886, col: 12, offset: 91332},
+																						pos: position{line: 2886, col: 12, offset: 91394},
 																						run: (*parser).callonListContinuationElement903,
 																						expr: &choiceExpr{
-																							pos: position{line: 2886, col: 13, offset: 91333},
+																							pos: position{line: 2886, col: 13, offset: 91395},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2886, col: 13, offset: 91333},
+																									pos:        position{line: 2886, col: 13, offset: 91395},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2886, col: 20, offset: 91340},
+																									pos:        position{line: 2886, col: 20, offset: 91402},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2886, col: 29, offset: 91349},
+																									pos:        position{line: 2886, col: 29, offset: 91411},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33812,9 +33812,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2896, col: 8, offset: 91509},
+																						pos: position{line: 2896, col: 8, offset: 91571},
 																						expr: &anyMatcher{
-																							line: 2896, col: 9, offset: 91510,
+																							line: 2896, col: 9, offset: 91572,
 																						},
 																					},
 																				},
@@ -33832,12 +33832,12 @@ var g = &grammar{
 																				pos:   position{line: 1796, col: 5, offset: 58235},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2827, col: 14, offset: 89754},
+																					pos: position{line: 2827, col: 14, offset: 89816},
 																					run: (*parser).callonListContinuationElement913,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2827, col: 14, offset: 89754},
+																						pos: position{line: 2827, col: 14, offset: 89816},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2827, col: 14, offset: 89754},
+																							pos:        position{line: 2827, col: 14, offset: 89816},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33851,28 +33851,28 @@ var g = &grammar{
 																				run: (*parser).callonListContinuationElement916,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2899, col: 8, offset: 91559},
+																				pos: position{line: 2899, col: 8, offset: 91621},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2886, col: 12, offset: 91332},
+																						pos: position{line: 2886, col: 12, offset: 91394},
 																						run: (*parser).callonListContinuationElement918,
 																						expr: &choiceExpr{
-																							pos: position{line: 2886, col: 13, offset: 91333},
+																							pos: position{line: 2886, col: 13, offset: 91395},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2886, col: 13, offset: 91333},
+																									pos:        position{line: 2886, col: 13, offset: 91395},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2886, col: 20, offset: 91340},
+																									pos:        position{line: 2886, col: 20, offset: 91402},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2886, col: 29, offset: 91349},
+																									pos:        position{line: 2886, col: 29, offset: 91411},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33881,9 +33881,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2896, col: 8, offset: 91509},
+																						pos: position{line: 2896, col: 8, offset: 91571},
 																						expr: &anyMatcher{
-																							line: 2896, col: 9, offset: 91510,
+																							line: 2896, col: 9, offset: 91572,
 																						},
 																					},
 																				},
@@ -33930,10 +33930,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 778, col: 8, offset: 24990},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91161},
+																		pos: position{line: 2877, col: 10, offset: 91223},
 																		run: (*parser).callonListContinuationElement934,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91161},
+																			pos:        position{line: 2877, col: 10, offset: 91223},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33942,28 +33942,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91559},
+																	pos: position{line: 2899, col: 8, offset: 91621},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91332},
+																			pos: position{line: 2886, col: 12, offset: 91394},
 																			run: (*parser).callonListContinuationElement937,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91333},
+																				pos: position{line: 2886, col: 13, offset: 91395},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91333},
+																						pos:        position{line: 2886, col: 13, offset: 91395},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91340},
+																						pos:        position{line: 2886, col: 20, offset: 91402},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91349},
+																						pos:        position{line: 2886, col: 29, offset: 91411},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33972,9 +33972,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91509},
+																			pos: position{line: 2896, col: 8, offset: 91571},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91510,
+																				line: 2896, col: 9, offset: 91572,
 																			},
 																		},
 																	},
@@ -34022,10 +34022,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 778, col: 8, offset: 24990},
 																								expr: &actionExpr{
-																									pos: position{line: 2877, col: 10, offset: 91161},
+																									pos: position{line: 2877, col: 10, offset: 91223},
 																									run: (*parser).callonListContinuationElement956,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 10, offset: 91161},
+																										pos:        position{line: 2877, col: 10, offset: 91223},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -34034,28 +34034,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2899, col: 8, offset: 91559},
+																								pos: position{line: 2899, col: 8, offset: 91621},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2886, col: 12, offset: 91332},
+																										pos: position{line: 2886, col: 12, offset: 91394},
 																										run: (*parser).callonListContinuationElement959,
 																										expr: &choiceExpr{
-																											pos: position{line: 2886, col: 13, offset: 91333},
+																											pos: position{line: 2886, col: 13, offset: 91395},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 13, offset: 91333},
+																													pos:        position{line: 2886, col: 13, offset: 91395},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 20, offset: 91340},
+																													pos:        position{line: 2886, col: 20, offset: 91402},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 29, offset: 91349},
+																													pos:        position{line: 2886, col: 29, offset: 91411},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34064,9 +34064,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2896, col: 8, offset: 91509},
+																										pos: position{line: 2896, col: 8, offset: 91571},
 																										expr: &anyMatcher{
-																											line: 2896, col: 9, offset: 91510,
+																											line: 2896, col: 9, offset: 91572,
 																										},
 																									},
 																								},
@@ -34075,9 +34075,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91509},
+																					pos: position{line: 2896, col: 8, offset: 91571},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91510,
+																						line: 2896, col: 9, offset: 91572,
 																					},
 																				},
 																			},
@@ -34093,21 +34093,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26129},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2894, col: 11, offset: 91495},
+																						pos: position{line: 2894, col: 11, offset: 91557},
 																						expr: &anyMatcher{
-																							line: 2894, col: 13, offset: 91497,
+																							line: 2894, col: 13, offset: 91559,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26204},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2823, col: 13, offset: 89687},
+																							pos: position{line: 2823, col: 13, offset: 89749},
 																							run: (*parser).callonListContinuationElement974,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2823, col: 13, offset: 89687},
+																								pos: position{line: 2823, col: 13, offset: 89749},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2823, col: 13, offset: 89687},
+																									pos:        position{line: 2823, col: 13, offset: 89749},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34117,28 +34117,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91559},
+																						pos: position{line: 2899, col: 8, offset: 91621},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91332},
+																								pos: position{line: 2886, col: 12, offset: 91394},
 																								run: (*parser).callonListContinuationElement978,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91333},
+																									pos: position{line: 2886, col: 13, offset: 91395},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91333},
+																											pos:        position{line: 2886, col: 13, offset: 91395},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91340},
+																											pos:        position{line: 2886, col: 20, offset: 91402},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91349},
+																											pos:        position{line: 2886, col: 29, offset: 91411},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34147,9 +34147,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91509},
+																								pos: position{line: 2896, col: 8, offset: 91571},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91510,
+																									line: 2896, col: 9, offset: 91572,
 																								},
 																							},
 																						},
@@ -34194,10 +34194,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 778, col: 8, offset: 24990},
 																				expr: &actionExpr{
-																					pos: position{line: 2877, col: 10, offset: 91161},
+																					pos: position{line: 2877, col: 10, offset: 91223},
 																					run: (*parser).callonListContinuationElement994,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2877, col: 10, offset: 91161},
+																						pos:        position{line: 2877, col: 10, offset: 91223},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -34206,28 +34206,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2899, col: 8, offset: 91559},
+																				pos: position{line: 2899, col: 8, offset: 91621},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2886, col: 12, offset: 91332},
+																						pos: position{line: 2886, col: 12, offset: 91394},
 																						run: (*parser).callonListContinuationElement997,
 																						expr: &choiceExpr{
-																							pos: position{line: 2886, col: 13, offset: 91333},
+																							pos: position{line: 2886, col: 13, offset: 91395},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2886, col: 13, offset: 91333},
+																									pos:        position{line: 2886, col: 13, offset: 91395},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2886, col: 20, offset: 91340},
+																									pos:        position{line: 2886, col: 20, offset: 91402},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2886, col: 29, offset: 91349},
+																									pos:        position{line: 2886, col: 29, offset: 91411},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34236,9 +34236,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2896, col: 8, offset: 91509},
+																						pos: position{line: 2896, col: 8, offset: 91571},
 																						expr: &anyMatcher{
-																							line: 2896, col: 9, offset: 91510,
+																							line: 2896, col: 9, offset: 91572,
 																						},
 																					},
 																				},
@@ -34247,9 +34247,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2896, col: 8, offset: 91509},
+																	pos: position{line: 2896, col: 8, offset: 91571},
 																	expr: &anyMatcher{
-																		line: 2896, col: 9, offset: 91510,
+																		line: 2896, col: 9, offset: 91572,
 																	},
 																},
 															},
@@ -34305,10 +34305,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 792, col: 8, offset: 25487},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91161},
+																		pos: position{line: 2877, col: 10, offset: 91223},
 																		run: (*parser).callonListContinuationElement1018,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91161},
+																			pos:        position{line: 2877, col: 10, offset: 91223},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34317,28 +34317,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91559},
+																	pos: position{line: 2899, col: 8, offset: 91621},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91332},
+																			pos: position{line: 2886, col: 12, offset: 91394},
 																			run: (*parser).callonListContinuationElement1021,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91333},
+																				pos: position{line: 2886, col: 13, offset: 91395},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91333},
+																						pos:        position{line: 2886, col: 13, offset: 91395},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91340},
+																						pos:        position{line: 2886, col: 20, offset: 91402},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91349},
+																						pos:        position{line: 2886, col: 29, offset: 91411},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34347,9 +34347,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91509},
+																			pos: position{line: 2896, col: 8, offset: 91571},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91510,
+																				line: 2896, col: 9, offset: 91572,
 																			},
 																		},
 																	},
@@ -34421,10 +34421,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 792, col: 8, offset: 25487},
 																											expr: &actionExpr{
-																												pos: position{line: 2877, col: 10, offset: 91161},
+																												pos: position{line: 2877, col: 10, offset: 91223},
 																												run: (*parser).callonListContinuationElement1046,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2877, col: 10, offset: 91161},
+																													pos:        position{line: 2877, col: 10, offset: 91223},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34433,28 +34433,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91559},
+																											pos: position{line: 2899, col: 8, offset: 91621},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91332},
+																													pos: position{line: 2886, col: 12, offset: 91394},
 																													run: (*parser).callonListContinuationElement1049,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91333},
+																														pos: position{line: 2886, col: 13, offset: 91395},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91333},
+																																pos:        position{line: 2886, col: 13, offset: 91395},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91340},
+																																pos:        position{line: 2886, col: 20, offset: 91402},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91349},
+																																pos:        position{line: 2886, col: 29, offset: 91411},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34463,9 +34463,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91509},
+																													pos: position{line: 2896, col: 8, offset: 91571},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91510,
+																														line: 2896, col: 9, offset: 91572,
 																													},
 																												},
 																											},
@@ -34481,9 +34481,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91509},
+																					pos: position{line: 2896, col: 8, offset: 91571},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91510,
+																						line: 2896, col: 9, offset: 91572,
 																					},
 																				},
 																			},
@@ -34499,21 +34499,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26129},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2894, col: 11, offset: 91495},
+																						pos: position{line: 2894, col: 11, offset: 91557},
 																						expr: &anyMatcher{
-																							line: 2894, col: 13, offset: 91497,
+																							line: 2894, col: 13, offset: 91559,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26204},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2823, col: 13, offset: 89687},
+																							pos: position{line: 2823, col: 13, offset: 89749},
 																							run: (*parser).callonListContinuationElement1065,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2823, col: 13, offset: 89687},
+																								pos: position{line: 2823, col: 13, offset: 89749},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2823, col: 13, offset: 89687},
+																									pos:        position{line: 2823, col: 13, offset: 89749},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34523,28 +34523,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91559},
+																						pos: position{line: 2899, col: 8, offset: 91621},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91332},
+																								pos: position{line: 2886, col: 12, offset: 91394},
 																								run: (*parser).callonListContinuationElement1069,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91333},
+																									pos: position{line: 2886, col: 13, offset: 91395},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91333},
+																											pos:        position{line: 2886, col: 13, offset: 91395},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91340},
+																											pos:        position{line: 2886, col: 20, offset: 91402},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91349},
+																											pos:        position{line: 2886, col: 29, offset: 91411},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34553,9 +34553,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91509},
+																								pos: position{line: 2896, col: 8, offset: 91571},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91510,
+																									line: 2896, col: 9, offset: 91572,
 																								},
 																							},
 																						},
@@ -34620,10 +34620,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 792, col: 8, offset: 25487},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91161},
+																								pos: position{line: 2877, col: 10, offset: 91223},
 																								run: (*parser).callonListContinuationElement1090,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91161},
+																									pos:        position{line: 2877, col: 10, offset: 91223},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34632,28 +34632,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91559},
+																							pos: position{line: 2899, col: 8, offset: 91621},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91332},
+																									pos: position{line: 2886, col: 12, offset: 91394},
 																									run: (*parser).callonListContinuationElement1093,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91333},
+																										pos: position{line: 2886, col: 13, offset: 91395},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91333},
+																												pos:        position{line: 2886, col: 13, offset: 91395},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91340},
+																												pos:        position{line: 2886, col: 20, offset: 91402},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91349},
+																												pos:        position{line: 2886, col: 29, offset: 91411},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34662,9 +34662,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91509},
+																									pos: position{line: 2896, col: 8, offset: 91571},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91510,
+																										line: 2896, col: 9, offset: 91572,
 																									},
 																								},
 																							},
@@ -34680,9 +34680,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2896, col: 8, offset: 91509},
+																	pos: position{line: 2896, col: 8, offset: 91571},
 																	expr: &anyMatcher{
-																		line: 2896, col: 9, offset: 91510,
+																		line: 2896, col: 9, offset: 91572,
 																	},
 																},
 															},
@@ -34738,10 +34738,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 799, col: 8, offset: 25737},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91161},
+																		pos: position{line: 2877, col: 10, offset: 91223},
 																		run: (*parser).callonListContinuationElement1115,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91161},
+																			pos:        position{line: 2877, col: 10, offset: 91223},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34750,28 +34750,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91559},
+																	pos: position{line: 2899, col: 8, offset: 91621},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91332},
+																			pos: position{line: 2886, col: 12, offset: 91394},
 																			run: (*parser).callonListContinuationElement1118,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91333},
+																				pos: position{line: 2886, col: 13, offset: 91395},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91333},
+																						pos:        position{line: 2886, col: 13, offset: 91395},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91340},
+																						pos:        position{line: 2886, col: 20, offset: 91402},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91349},
+																						pos:        position{line: 2886, col: 29, offset: 91411},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34780,9 +34780,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91509},
+																			pos: position{line: 2896, col: 8, offset: 91571},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91510,
+																				line: 2896, col: 9, offset: 91572,
 																			},
 																		},
 																	},
@@ -34854,10 +34854,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 799, col: 8, offset: 25737},
 																											expr: &actionExpr{
-																												pos: position{line: 2877, col: 10, offset: 91161},
+																												pos: position{line: 2877, col: 10, offset: 91223},
 																												run: (*parser).callonListContinuationElement1143,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2877, col: 10, offset: 91161},
+																													pos:        position{line: 2877, col: 10, offset: 91223},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34866,28 +34866,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91559},
+																											pos: position{line: 2899, col: 8, offset: 91621},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91332},
+																													pos: position{line: 2886, col: 12, offset: 91394},
 																													run: (*parser).callonListContinuationElement1146,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91333},
+																														pos: position{line: 2886, col: 13, offset: 91395},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91333},
+																																pos:        position{line: 2886, col: 13, offset: 91395},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91340},
+																																pos:        position{line: 2886, col: 20, offset: 91402},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91349},
+																																pos:        position{line: 2886, col: 29, offset: 91411},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34896,9 +34896,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91509},
+																													pos: position{line: 2896, col: 8, offset: 91571},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91510,
+																														line: 2896, col: 9, offset: 91572,
 																													},
 																												},
 																											},
@@ -34914,9 +34914,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91509},
+																					pos: position{line: 2896, col: 8, offset: 91571},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91510,
+																						line: 2896, col: 9, offset: 91572,
 																					},
 																				},
 																			},
@@ -34932,21 +34932,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26129},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2894, col: 11, offset: 91495},
+																						pos: position{line: 2894, col: 11, offset: 91557},
 																						expr: &anyMatcher{
-																							line: 2894, col: 13, offset: 91497,
+																							line: 2894, col: 13, offset: 91559,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26204},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2823, col: 13, offset: 89687},
+																							pos: position{line: 2823, col: 13, offset: 89749},
 																							run: (*parser).callonListContinuationElement1162,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2823, col: 13, offset: 89687},
+																								pos: position{line: 2823, col: 13, offset: 89749},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2823, col: 13, offset: 89687},
+																									pos:        position{line: 2823, col: 13, offset: 89749},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34956,28 +34956,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91559},
+																						pos: position{line: 2899, col: 8, offset: 91621},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91332},
+																								pos: position{line: 2886, col: 12, offset: 91394},
 																								run: (*parser).callonListContinuationElement1166,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91333},
+																									pos: position{line: 2886, col: 13, offset: 91395},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91333},
+																											pos:        position{line: 2886, col: 13, offset: 91395},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91340},
+																											pos:        position{line: 2886, col: 20, offset: 91402},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91349},
+																											pos:        position{line: 2886, col: 29, offset: 91411},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34986,9 +34986,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91509},
+																								pos: position{line: 2896, col: 8, offset: 91571},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91510,
+																									line: 2896, col: 9, offset: 91572,
 																								},
 																							},
 																						},
@@ -35053,10 +35053,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 799, col: 8, offset: 25737},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91161},
+																								pos: position{line: 2877, col: 10, offset: 91223},
 																								run: (*parser).callonListContinuationElement1187,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91161},
+																									pos:        position{line: 2877, col: 10, offset: 91223},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35065,28 +35065,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91559},
+																							pos: position{line: 2899, col: 8, offset: 91621},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91332},
+																									pos: position{line: 2886, col: 12, offset: 91394},
 																									run: (*parser).callonListContinuationElement1190,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91333},
+																										pos: position{line: 2886, col: 13, offset: 91395},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91333},
+																												pos:        position{line: 2886, col: 13, offset: 91395},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91340},
+																												pos:        position{line: 2886, col: 20, offset: 91402},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91349},
+																												pos:        position{line: 2886, col: 29, offset: 91411},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35095,9 +35095,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91509},
+																									pos: position{line: 2896, col: 8, offset: 91571},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91510,
+																										line: 2896, col: 9, offset: 91572,
 																									},
 																								},
 																							},
@@ -35113,9 +35113,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2896, col: 8, offset: 91509},
+																	pos: position{line: 2896, col: 8, offset: 91571},
 																	expr: &anyMatcher{
-																		line: 2896, col: 9, offset: 91510,
+																		line: 2896, col: 9, offset: 91572,
 																	},
 																},
 															},
@@ -35171,10 +35171,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 806, col: 8, offset: 25983},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91161},
+																		pos: position{line: 2877, col: 10, offset: 91223},
 																		run: (*parser).callonListContinuationElement1212,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91161},
+																			pos:        position{line: 2877, col: 10, offset: 91223},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35183,28 +35183,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91559},
+																	pos: position{line: 2899, col: 8, offset: 91621},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91332},
+																			pos: position{line: 2886, col: 12, offset: 91394},
 																			run: (*parser).callonListContinuationElement1215,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91333},
+																				pos: position{line: 2886, col: 13, offset: 91395},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91333},
+																						pos:        position{line: 2886, col: 13, offset: 91395},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91340},
+																						pos:        position{line: 2886, col: 20, offset: 91402},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91349},
+																						pos:        position{line: 2886, col: 29, offset: 91411},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35213,9 +35213,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91509},
+																			pos: position{line: 2896, col: 8, offset: 91571},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91510,
+																				line: 2896, col: 9, offset: 91572,
 																			},
 																		},
 																	},
@@ -35287,10 +35287,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 806, col: 8, offset: 25983},
 																											expr: &actionExpr{
-																												pos: position{line: 2877, col: 10, offset: 91161},
+																												pos: position{line: 2877, col: 10, offset: 91223},
 																												run: (*parser).callonListContinuationElement1240,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2877, col: 10, offset: 91161},
+																													pos:        position{line: 2877, col: 10, offset: 91223},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35299,28 +35299,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91559},
+																											pos: position{line: 2899, col: 8, offset: 91621},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91332},
+																													pos: position{line: 2886, col: 12, offset: 91394},
 																													run: (*parser).callonListContinuationElement1243,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91333},
+																														pos: position{line: 2886, col: 13, offset: 91395},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91333},
+																																pos:        position{line: 2886, col: 13, offset: 91395},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91340},
+																																pos:        position{line: 2886, col: 20, offset: 91402},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91349},
+																																pos:        position{line: 2886, col: 29, offset: 91411},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35329,9 +35329,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91509},
+																													pos: position{line: 2896, col: 8, offset: 91571},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91510,
+																														line: 2896, col: 9, offset: 91572,
 																													},
 																												},
 																											},
@@ -35347,9 +35347,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91509},
+																					pos: position{line: 2896, col: 8, offset: 91571},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91510,
+																						line: 2896, col: 9, offset: 91572,
 																					},
 																				},
 																			},
@@ -35365,21 +35365,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26129},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2894, col: 11, offset: 91495},
+																						pos: position{line: 2894, col: 11, offset: 91557},
 																						expr: &anyMatcher{
-																							line: 2894, col: 13, offset: 91497,
+																							line: 2894, col: 13, offset: 91559,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26204},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2823, col: 13, offset: 89687},
+																							pos: position{line: 2823, col: 13, offset: 89749},
 																							run: (*parser).callonListContinuationElement1259,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2823, col: 13, offset: 89687},
+																								pos: position{line: 2823, col: 13, offset: 89749},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2823, col: 13, offset: 89687},
+																									pos:        position{line: 2823, col: 13, offset: 89749},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35389,28 +35389,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91559},
+																						pos: position{line: 2899, col: 8, offset: 91621},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91332},
+																								pos: position{line: 2886, col: 12, offset: 91394},
 																								run: (*parser).callonListContinuationElement1263,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91333},
+																									pos: position{line: 2886, col: 13, offset: 91395},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91333},
+																											pos:        position{line: 2886, col: 13, offset: 91395},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91340},
+																											pos:        position{line: 2886, col: 20, offset: 91402},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91349},
+																											pos:        position{line: 2886, col: 29, offset: 91411},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35419,9 +35419,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91509},
+																								pos: position{line: 2896, col: 8, offset: 91571},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91510,
+																									line: 2896, col: 9, offset: 91572,
 																								},
 																							},
 																						},
@@ -35486,10 +35486,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 806, col: 8, offset: 25983},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91161},
+																								pos: position{line: 2877, col: 10, offset: 91223},
 																								run: (*parser).callonListContinuationElement1284,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91161},
+																									pos:        position{line: 2877, col: 10, offset: 91223},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35498,28 +35498,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91559},
+																							pos: position{line: 2899, col: 8, offset: 91621},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91332},
+																									pos: position{line: 2886, col: 12, offset: 91394},
 																									run: (*parser).callonListContinuationElement1287,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91333},
+																										pos: position{line: 2886, col: 13, offset: 91395},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91333},
+																												pos:        position{line: 2886, col: 13, offset: 91395},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91340},
+																												pos:        position{line: 2886, col: 20, offset: 91402},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91349},
+																												pos:        position{line: 2886, col: 29, offset: 91411},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35528,9 +35528,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91509},
+																									pos: position{line: 2896, col: 8, offset: 91571},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91510,
+																										line: 2896, col: 9, offset: 91572,
 																									},
 																								},
 																							},
@@ -35546,9 +35546,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2896, col: 8, offset: 91509},
+																	pos: position{line: 2896, col: 8, offset: 91571},
 																	expr: &anyMatcher{
-																		line: 2896, col: 9, offset: 91510,
+																		line: 2896, col: 9, offset: 91572,
 																	},
 																},
 															},
@@ -35559,52 +35559,52 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2722, col: 18, offset: 86735},
+										pos: position{line: 2722, col: 18, offset: 86797},
 										run: (*parser).callonListContinuationElement1297,
 										expr: &seqExpr{
-											pos: position{line: 2722, col: 18, offset: 86735},
+											pos: position{line: 2722, col: 18, offset: 86797},
 											exprs: []interface{}{
 												&choiceExpr{
-													pos: position{line: 2723, col: 9, offset: 86745},
+													pos: position{line: 2723, col: 9, offset: 86807},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2723, col: 9, offset: 86745},
+															pos:        position{line: 2723, col: 9, offset: 86807},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2724, col: 11, offset: 86781},
+															pos:        position{line: 2724, col: 11, offset: 86843},
 															val:        "***",
 															ignoreCase: false,
 															want:       "\"***\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2724, col: 19, offset: 86789},
+															pos:        position{line: 2724, col: 19, offset: 86851},
 															val:        "* * *",
 															ignoreCase: false,
 															want:       "\"* * *\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2724, col: 29, offset: 86799},
+															pos:        position{line: 2724, col: 29, offset: 86861},
 															val:        "---",
 															ignoreCase: false,
 															want:       "\"---\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2724, col: 37, offset: 86807},
+															pos:        position{line: 2724, col: 37, offset: 86869},
 															val:        "- - -",
 															ignoreCase: false,
 															want:       "\"- - -\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2724, col: 47, offset: 86817},
+															pos:        position{line: 2724, col: 47, offset: 86879},
 															val:        "___",
 															ignoreCase: false,
 															want:       "\"___\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2724, col: 55, offset: 86825},
+															pos:        position{line: 2724, col: 55, offset: 86887},
 															val:        "_ _ _",
 															ignoreCase: false,
 															want:       "\"_ _ _\"",
@@ -35612,12 +35612,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2725, col: 11, offset: 86871},
+													pos: position{line: 2725, col: 11, offset: 86933},
 													expr: &actionExpr{
-														pos: position{line: 2877, col: 10, offset: 91161},
+														pos: position{line: 2877, col: 10, offset: 91223},
 														run: (*parser).callonListContinuationElement1308,
 														expr: &charClassMatcher{
-															pos:        position{line: 2877, col: 10, offset: 91161},
+															pos:        position{line: 2877, col: 10, offset: 91223},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35626,28 +35626,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2899, col: 8, offset: 91559},
+													pos: position{line: 2899, col: 8, offset: 91621},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2886, col: 12, offset: 91332},
+															pos: position{line: 2886, col: 12, offset: 91394},
 															run: (*parser).callonListContinuationElement1311,
 															expr: &choiceExpr{
-																pos: position{line: 2886, col: 13, offset: 91333},
+																pos: position{line: 2886, col: 13, offset: 91395},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 13, offset: 91333},
+																		pos:        position{line: 2886, col: 13, offset: 91395},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 20, offset: 91340},
+																		pos:        position{line: 2886, col: 20, offset: 91402},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 29, offset: 91349},
+																		pos:        position{line: 2886, col: 29, offset: 91411},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35656,20 +35656,20 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2896, col: 8, offset: 91509},
+															pos: position{line: 2896, col: 8, offset: 91571},
 															expr: &anyMatcher{
-																line: 2896, col: 9, offset: 91510,
+																line: 2896, col: 9, offset: 91572,
 															},
 														},
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2725, col: 22, offset: 86882},
+													pos: position{line: 2725, col: 22, offset: 86944},
 													expr: &actionExpr{
-														pos: position{line: 2877, col: 10, offset: 91161},
+														pos: position{line: 2877, col: 10, offset: 91223},
 														run: (*parser).callonListContinuationElement1319,
 														expr: &charClassMatcher{
-															pos:        position{line: 2877, col: 10, offset: 91161},
+															pos:        position{line: 2877, col: 10, offset: 91223},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35678,28 +35678,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2899, col: 8, offset: 91559},
+													pos: position{line: 2899, col: 8, offset: 91621},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2886, col: 12, offset: 91332},
+															pos: position{line: 2886, col: 12, offset: 91394},
 															run: (*parser).callonListContinuationElement1322,
 															expr: &choiceExpr{
-																pos: position{line: 2886, col: 13, offset: 91333},
+																pos: position{line: 2886, col: 13, offset: 91395},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 13, offset: 91333},
+																		pos:        position{line: 2886, col: 13, offset: 91395},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 20, offset: 91340},
+																		pos:        position{line: 2886, col: 20, offset: 91402},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 29, offset: 91349},
+																		pos:        position{line: 2886, col: 29, offset: 91411},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35708,9 +35708,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2896, col: 8, offset: 91509},
+															pos: position{line: 2896, col: 8, offset: 91571},
 															expr: &anyMatcher{
-																line: 2896, col: 9, offset: 91510,
+																line: 2896, col: 9, offset: 91572,
 															},
 														},
 													},
@@ -35723,24 +35723,24 @@ var g = &grammar{
 										name: "ImageBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2613, col: 5, offset: 83671},
+										pos: position{line: 2613, col: 5, offset: 83733},
 										run: (*parser).callonListContinuationElement1330,
 										expr: &seqExpr{
-											pos: position{line: 2613, col: 5, offset: 83671},
+											pos: position{line: 2613, col: 5, offset: 83733},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2619, col: 19, offset: 83828},
+													pos:        position{line: 2619, col: 19, offset: 83890},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2619, col: 26, offset: 83835},
+													pos: position{line: 2619, col: 26, offset: 83897},
 													expr: &actionExpr{
-														pos: position{line: 2877, col: 10, offset: 91161},
+														pos: position{line: 2877, col: 10, offset: 91223},
 														run: (*parser).callonListContinuationElement1334,
 														expr: &charClassMatcher{
-															pos:        position{line: 2877, col: 10, offset: 91161},
+															pos:        position{line: 2877, col: 10, offset: 91223},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35749,28 +35749,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2899, col: 8, offset: 91559},
+													pos: position{line: 2899, col: 8, offset: 91621},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2886, col: 12, offset: 91332},
+															pos: position{line: 2886, col: 12, offset: 91394},
 															run: (*parser).callonListContinuationElement1337,
 															expr: &choiceExpr{
-																pos: position{line: 2886, col: 13, offset: 91333},
+																pos: position{line: 2886, col: 13, offset: 91395},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 13, offset: 91333},
+																		pos:        position{line: 2886, col: 13, offset: 91395},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 20, offset: 91340},
+																		pos:        position{line: 2886, col: 20, offset: 91402},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 29, offset: 91349},
+																		pos:        position{line: 2886, col: 29, offset: 91411},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35779,20 +35779,20 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2896, col: 8, offset: 91509},
+															pos: position{line: 2896, col: 8, offset: 91571},
 															expr: &anyMatcher{
-																line: 2896, col: 9, offset: 91510,
+																line: 2896, col: 9, offset: 91572,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2614, col: 5, offset: 83695},
+													pos:   position{line: 2614, col: 5, offset: 83757},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2614, col: 11, offset: 83701},
+														pos: position{line: 2614, col: 11, offset: 83763},
 														expr: &choiceExpr{
-															pos: position{line: 2614, col: 12, offset: 83702},
+															pos: position{line: 2614, col: 12, offset: 83764},
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 677, col: 14, offset: 21525},
@@ -35801,18 +35801,18 @@ var g = &grammar{
 																		pos: position{line: 677, col: 14, offset: 21525},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2894, col: 11, offset: 91495},
+																				pos: position{line: 2894, col: 11, offset: 91557},
 																				expr: &anyMatcher{
-																					line: 2894, col: 13, offset: 91497,
+																					line: 2894, col: 13, offset: 91559,
 																				},
 																			},
 																			&zeroOrMoreExpr{
 																				pos: position{line: 677, col: 21, offset: 21532},
 																				expr: &actionExpr{
-																					pos: position{line: 2877, col: 10, offset: 91161},
+																					pos: position{line: 2877, col: 10, offset: 91223},
 																					run: (*parser).callonListContinuationElement1352,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2877, col: 10, offset: 91161},
+																						pos:        position{line: 2877, col: 10, offset: 91223},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -35821,28 +35821,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2899, col: 8, offset: 91559},
+																				pos: position{line: 2899, col: 8, offset: 91621},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2886, col: 12, offset: 91332},
+																						pos: position{line: 2886, col: 12, offset: 91394},
 																						run: (*parser).callonListContinuationElement1355,
 																						expr: &choiceExpr{
-																							pos: position{line: 2886, col: 13, offset: 91333},
+																							pos: position{line: 2886, col: 13, offset: 91395},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2886, col: 13, offset: 91333},
+																									pos:        position{line: 2886, col: 13, offset: 91395},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2886, col: 20, offset: 91340},
+																									pos:        position{line: 2886, col: 20, offset: 91402},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2886, col: 29, offset: 91349},
+																									pos:        position{line: 2886, col: 29, offset: 91411},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35851,9 +35851,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2896, col: 8, offset: 91509},
+																						pos: position{line: 2896, col: 8, offset: 91571},
 																						expr: &anyMatcher{
-																							line: 2896, col: 9, offset: 91510,
+																							line: 2896, col: 9, offset: 91572,
 																						},
 																					},
 																				},
@@ -35862,32 +35862,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2626, col: 5, offset: 83947},
+																	pos: position{line: 2626, col: 5, offset: 84009},
 																	run: (*parser).callonListContinuationElement1362,
 																	expr: &seqExpr{
-																		pos: position{line: 2626, col: 5, offset: 83947},
+																		pos: position{line: 2626, col: 5, offset: 84009},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2626, col: 5, offset: 83947},
+																				pos: position{line: 2626, col: 5, offset: 84009},
 																				expr: &choiceExpr{
-																					pos: position{line: 2623, col: 22, offset: 83908},
+																					pos: position{line: 2623, col: 22, offset: 83970},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2619, col: 19, offset: 83828},
+																							pos: position{line: 2619, col: 19, offset: 83890},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2619, col: 19, offset: 83828},
+																									pos:        position{line: 2619, col: 19, offset: 83890},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2619, col: 26, offset: 83835},
+																									pos: position{line: 2619, col: 26, offset: 83897},
 																									expr: &actionExpr{
-																										pos: position{line: 2877, col: 10, offset: 91161},
+																										pos: position{line: 2877, col: 10, offset: 91223},
 																										run: (*parser).callonListContinuationElement1369,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2877, col: 10, offset: 91161},
+																											pos:        position{line: 2877, col: 10, offset: 91223},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -35896,28 +35896,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2899, col: 8, offset: 91559},
+																									pos: position{line: 2899, col: 8, offset: 91621},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2886, col: 12, offset: 91332},
+																											pos: position{line: 2886, col: 12, offset: 91394},
 																											run: (*parser).callonListContinuationElement1372,
 																											expr: &choiceExpr{
-																												pos: position{line: 2886, col: 13, offset: 91333},
+																												pos: position{line: 2886, col: 13, offset: 91395},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 13, offset: 91333},
+																														pos:        position{line: 2886, col: 13, offset: 91395},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 20, offset: 91340},
+																														pos:        position{line: 2886, col: 20, offset: 91402},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 29, offset: 91349},
+																														pos:        position{line: 2886, col: 29, offset: 91411},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -35926,9 +35926,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2896, col: 8, offset: 91509},
+																											pos: position{line: 2896, col: 8, offset: 91571},
 																											expr: &anyMatcher{
-																												line: 2896, col: 9, offset: 91510,
+																												line: 2896, col: 9, offset: 91572,
 																											},
 																										},
 																									},
@@ -35936,59 +35936,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2896, col: 8, offset: 91509},
+																							pos: position{line: 2896, col: 8, offset: 91571},
 																							expr: &anyMatcher{
-																								line: 2896, col: 9, offset: 91510,
+																								line: 2896, col: 9, offset: 91572,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2627, col: 5, offset: 83970},
+																				pos:   position{line: 2627, col: 5, offset: 84032},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2628, col: 9, offset: 83988},
+																					pos: position{line: 2628, col: 9, offset: 84050},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2628, col: 10, offset: 83989},
+																							pos: position{line: 2628, col: 10, offset: 84051},
 																							run: (*parser).callonListContinuationElement1383,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2628, col: 10, offset: 83989},
+																								pos:   position{line: 2628, col: 10, offset: 84051},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2628, col: 17, offset: 83996},
+																									pos: position{line: 2628, col: 17, offset: 84058},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2636, col: 21, offset: 84192},
+																											pos: position{line: 2636, col: 21, offset: 84254},
 																											run: (*parser).callonListContinuationElement1386,
 																											expr: &seqExpr{
-																												pos: position{line: 2636, col: 21, offset: 84192},
+																												pos: position{line: 2636, col: 21, offset: 84254},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2636, col: 21, offset: 84192},
+																														pos:   position{line: 2636, col: 21, offset: 84254},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2636, col: 27, offset: 84198},
+																															pos: position{line: 2636, col: 27, offset: 84260},
 																															expr: &actionExpr{
-																																pos: position{line: 2641, col: 5, offset: 84273},
+																																pos: position{line: 2641, col: 5, offset: 84335},
 																																run: (*parser).callonListContinuationElement1390,
 																																expr: &seqExpr{
-																																	pos: position{line: 2641, col: 5, offset: 84273},
+																																	pos: position{line: 2641, col: 5, offset: 84335},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2641, col: 5, offset: 84273},
+																																			pos:        position{line: 2641, col: 5, offset: 84335},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2641, col: 9, offset: 84277},
+																																			pos: position{line: 2641, col: 9, offset: 84339},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2877, col: 10, offset: 91161},
+																																				pos: position{line: 2877, col: 10, offset: 91223},
 																																				run: (*parser).callonListContinuationElement1394,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2877, col: 10, offset: 91161},
+																																					pos:        position{line: 2877, col: 10, offset: 91223},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -35997,21 +35997,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2641, col: 16, offset: 84284},
+																																			pos:   position{line: 2641, col: 16, offset: 84346},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2647, col: 5, offset: 84484},
+																																				pos: position{line: 2647, col: 5, offset: 84546},
 																																				run: (*parser).callonListContinuationElement1397,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2647, col: 5, offset: 84484},
+																																					pos:   position{line: 2647, col: 5, offset: 84546},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2647, col: 14, offset: 84493},
+																																						pos: position{line: 2647, col: 14, offset: 84555},
 																																						run: (*parser).callonListContinuationElement1399,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2647, col: 14, offset: 84493},
+																																							pos: position{line: 2647, col: 14, offset: 84555},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2647, col: 14, offset: 84493},
+																																								pos:        position{line: 2647, col: 14, offset: 84555},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -36028,28 +36028,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2899, col: 8, offset: 91559},
+																														pos: position{line: 2899, col: 8, offset: 91621},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2886, col: 12, offset: 91332},
+																																pos: position{line: 2886, col: 12, offset: 91394},
 																																run: (*parser).callonListContinuationElement1403,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2886, col: 13, offset: 91333},
+																																	pos: position{line: 2886, col: 13, offset: 91395},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2886, col: 13, offset: 91333},
+																																			pos:        position{line: 2886, col: 13, offset: 91395},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2886, col: 20, offset: 91340},
+																																			pos:        position{line: 2886, col: 20, offset: 91402},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2886, col: 29, offset: 91349},
+																																			pos:        position{line: 2886, col: 29, offset: 91411},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -36058,9 +36058,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2896, col: 8, offset: 91509},
+																																pos: position{line: 2896, col: 8, offset: 91571},
 																																expr: &anyMatcher{
-																																	line: 2896, col: 9, offset: 91510,
+																																	line: 2896, col: 9, offset: 91572,
 																																},
 																															},
 																														},
@@ -36069,40 +36069,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2653, col: 24, offset: 84629},
+																											pos: position{line: 2653, col: 24, offset: 84691},
 																											run: (*parser).callonListContinuationElement1410,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2653, col: 24, offset: 84629},
+																												pos:   position{line: 2653, col: 24, offset: 84691},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2653, col: 30, offset: 84635},
+																													pos: position{line: 2653, col: 30, offset: 84697},
 																													expr: &actionExpr{
-																														pos: position{line: 2658, col: 5, offset: 84711},
+																														pos: position{line: 2658, col: 5, offset: 84773},
 																														run: (*parser).callonListContinuationElement1413,
 																														expr: &seqExpr{
-																															pos: position{line: 2658, col: 5, offset: 84711},
+																															pos: position{line: 2658, col: 5, offset: 84773},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2658, col: 5, offset: 84711},
+																																	pos: position{line: 2658, col: 5, offset: 84773},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2623, col: 22, offset: 83908},
+																																		pos: position{line: 2623, col: 22, offset: 83970},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2619, col: 19, offset: 83828},
+																																				pos: position{line: 2619, col: 19, offset: 83890},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2619, col: 19, offset: 83828},
+																																						pos:        position{line: 2619, col: 19, offset: 83890},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2619, col: 26, offset: 83835},
+																																						pos: position{line: 2619, col: 26, offset: 83897},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2877, col: 10, offset: 91161},
+																																							pos: position{line: 2877, col: 10, offset: 91223},
 																																							run: (*parser).callonListContinuationElement1420,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2877, col: 10, offset: 91161},
+																																								pos:        position{line: 2877, col: 10, offset: 91223},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -36111,28 +36111,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2899, col: 8, offset: 91559},
+																																						pos: position{line: 2899, col: 8, offset: 91621},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2886, col: 12, offset: 91332},
+																																								pos: position{line: 2886, col: 12, offset: 91394},
 																																								run: (*parser).callonListContinuationElement1423,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2886, col: 13, offset: 91333},
+																																									pos: position{line: 2886, col: 13, offset: 91395},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2886, col: 13, offset: 91333},
+																																											pos:        position{line: 2886, col: 13, offset: 91395},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2886, col: 20, offset: 91340},
+																																											pos:        position{line: 2886, col: 20, offset: 91402},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2886, col: 29, offset: 91349},
+																																											pos:        position{line: 2886, col: 29, offset: 91411},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -36141,9 +36141,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2896, col: 8, offset: 91509},
+																																								pos: position{line: 2896, col: 8, offset: 91571},
 																																								expr: &anyMatcher{
-																																									line: 2896, col: 9, offset: 91510,
+																																									line: 2896, col: 9, offset: 91572,
 																																								},
 																																							},
 																																						},
@@ -36151,16 +36151,16 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2896, col: 8, offset: 91509},
+																																				pos: position{line: 2896, col: 8, offset: 91571},
 																																				expr: &anyMatcher{
-																																					line: 2896, col: 9, offset: 91510,
+																																					line: 2896, col: 9, offset: 91572,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2659, col: 5, offset: 84734},
+																																	pos: position{line: 2659, col: 5, offset: 84796},
 																																	expr: &actionExpr{
 																																		pos: position{line: 677, col: 14, offset: 21525},
 																																		run: (*parser).callonListContinuationElement1433,
@@ -36168,18 +36168,18 @@ var g = &grammar{
 																																			pos: position{line: 677, col: 14, offset: 21525},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2894, col: 11, offset: 91495},
+																																					pos: position{line: 2894, col: 11, offset: 91557},
 																																					expr: &anyMatcher{
-																																						line: 2894, col: 13, offset: 91497,
+																																						line: 2894, col: 13, offset: 91559,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
 																																					pos: position{line: 677, col: 21, offset: 21532},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2877, col: 10, offset: 91161},
+																																						pos: position{line: 2877, col: 10, offset: 91223},
 																																						run: (*parser).callonListContinuationElement1438,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2877, col: 10, offset: 91161},
+																																							pos:        position{line: 2877, col: 10, offset: 91223},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -36188,28 +36188,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2899, col: 8, offset: 91559},
+																																					pos: position{line: 2899, col: 8, offset: 91621},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2886, col: 12, offset: 91332},
+																																							pos: position{line: 2886, col: 12, offset: 91394},
 																																							run: (*parser).callonListContinuationElement1441,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2886, col: 13, offset: 91333},
+																																								pos: position{line: 2886, col: 13, offset: 91395},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2886, col: 13, offset: 91333},
+																																										pos:        position{line: 2886, col: 13, offset: 91395},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2886, col: 20, offset: 91340},
+																																										pos:        position{line: 2886, col: 20, offset: 91402},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2886, col: 29, offset: 91349},
+																																										pos:        position{line: 2886, col: 29, offset: 91411},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -36218,9 +36218,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2896, col: 8, offset: 91509},
+																																							pos: position{line: 2896, col: 8, offset: 91571},
 																																							expr: &anyMatcher{
-																																								line: 2896, col: 9, offset: 91510,
+																																								line: 2896, col: 9, offset: 91572,
 																																							},
 																																						},
 																																					},
@@ -36230,17 +36230,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2660, col: 5, offset: 84749},
+																																	pos:   position{line: 2660, col: 5, offset: 84811},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2660, col: 12, offset: 84756},
+																																		pos: position{line: 2660, col: 12, offset: 84818},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2677, col: 20, offset: 85220},
+																																			pos: position{line: 2677, col: 20, offset: 85282},
 																																			run: (*parser).callonListContinuationElement1450,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2677, col: 20, offset: 85220},
+																																				pos: position{line: 2677, col: 20, offset: 85282},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2677, col: 20, offset: 85220},
+																																					pos:        position{line: 2677, col: 20, offset: 85282},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -36251,18 +36251,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2660, col: 31, offset: 84775},
+																																	pos:        position{line: 2660, col: 31, offset: 84837},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2660, col: 35, offset: 84779},
+																																	pos: position{line: 2660, col: 35, offset: 84841},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2877, col: 10, offset: 91161},
+																																		pos: position{line: 2877, col: 10, offset: 91223},
 																																		run: (*parser).callonListContinuationElement1455,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2877, col: 10, offset: 91161},
+																																			pos:        position{line: 2877, col: 10, offset: 91223},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -36271,27 +36271,27 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2660, col: 42, offset: 84786},
+																																	pos: position{line: 2660, col: 42, offset: 84848},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2886, col: 12, offset: 91332},
+																																		pos: position{line: 2886, col: 12, offset: 91394},
 																																		run: (*parser).callonListContinuationElement1458,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2886, col: 13, offset: 91333},
+																																			pos: position{line: 2886, col: 13, offset: 91395},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2886, col: 13, offset: 91333},
+																																					pos:        position{line: 2886, col: 13, offset: 91395},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2886, col: 20, offset: 91340},
+																																					pos:        position{line: 2886, col: 20, offset: 91402},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2886, col: 29, offset: 91349},
+																																					pos:        position{line: 2886, col: 29, offset: 91411},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -36301,37 +36301,37 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2660, col: 51, offset: 84795},
+																																	pos:   position{line: 2660, col: 51, offset: 84857},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2666, col: 5, offset: 84954},
+																																		pos: position{line: 2666, col: 5, offset: 85016},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2667, col: 9, offset: 84964},
+																																			pos: position{line: 2667, col: 9, offset: 85026},
 																																			run: (*parser).callonListContinuationElement1465,
 																																			expr: &seqExpr{
-																																				pos: position{line: 2667, col: 9, offset: 84964},
+																																				pos: position{line: 2667, col: 9, offset: 85026},
 																																				exprs: []interface{}{
 																																					&notExpr{
-																																						pos: position{line: 2667, col: 9, offset: 84964},
+																																						pos: position{line: 2667, col: 9, offset: 85026},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2623, col: 22, offset: 83908},
+																																							pos: position{line: 2623, col: 22, offset: 83970},
 																																							alternatives: []interface{}{
 																																								&seqExpr{
-																																									pos: position{line: 2619, col: 19, offset: 83828},
+																																									pos: position{line: 2619, col: 19, offset: 83890},
 																																									exprs: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2619, col: 19, offset: 83828},
+																																											pos:        position{line: 2619, col: 19, offset: 83890},
 																																											val:        "|===",
 																																											ignoreCase: false,
 																																											want:       "\"|===\"",
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 2619, col: 26, offset: 83835},
+																																											pos: position{line: 2619, col: 26, offset: 83897},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2877, col: 10, offset: 91161},
+																																												pos: position{line: 2877, col: 10, offset: 91223},
 																																												run: (*parser).callonListContinuationElement1472,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2877, col: 10, offset: 91161},
+																																													pos:        position{line: 2877, col: 10, offset: 91223},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -36340,28 +36340,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2899, col: 8, offset: 91559},
+																																											pos: position{line: 2899, col: 8, offset: 91621},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2886, col: 12, offset: 91332},
+																																													pos: position{line: 2886, col: 12, offset: 91394},
 																																													run: (*parser).callonListContinuationElement1475,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2886, col: 13, offset: 91333},
+																																														pos: position{line: 2886, col: 13, offset: 91395},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2886, col: 13, offset: 91333},
+																																																pos:        position{line: 2886, col: 13, offset: 91395},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2886, col: 20, offset: 91340},
+																																																pos:        position{line: 2886, col: 20, offset: 91402},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2886, col: 29, offset: 91349},
+																																																pos:        position{line: 2886, col: 29, offset: 91411},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -36370,9 +36370,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2896, col: 8, offset: 91509},
+																																													pos: position{line: 2896, col: 8, offset: 91571},
 																																													expr: &anyMatcher{
-																																														line: 2896, col: 9, offset: 91510,
+																																														line: 2896, col: 9, offset: 91572,
 																																													},
 																																												},
 																																											},
@@ -36380,16 +36380,16 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2896, col: 8, offset: 91509},
+																																									pos: position{line: 2896, col: 8, offset: 91571},
 																																									expr: &anyMatcher{
-																																										line: 2896, col: 9, offset: 91510,
+																																										line: 2896, col: 9, offset: 91572,
 																																									},
 																																								},
 																																							},
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2668, col: 9, offset: 84991},
+																																						pos: position{line: 2668, col: 9, offset: 85053},
 																																						expr: &actionExpr{
 																																							pos: position{line: 677, col: 14, offset: 21525},
 																																							run: (*parser).callonListContinuationElement1485,
@@ -36397,18 +36397,18 @@ var g = &grammar{
 																																								pos: position{line: 677, col: 14, offset: 21525},
 																																								exprs: []interface{}{
 																																									&andExpr{
-																																										pos: position{line: 2894, col: 11, offset: 91495},
+																																										pos: position{line: 2894, col: 11, offset: 91557},
 																																										expr: &anyMatcher{
-																																											line: 2894, col: 13, offset: 91497,
+																																											line: 2894, col: 13, offset: 91559,
 																																										},
 																																									},
 																																									&zeroOrMoreExpr{
 																																										pos: position{line: 677, col: 21, offset: 21532},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2877, col: 10, offset: 91161},
+																																											pos: position{line: 2877, col: 10, offset: 91223},
 																																											run: (*parser).callonListContinuationElement1490,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2877, col: 10, offset: 91161},
+																																												pos:        position{line: 2877, col: 10, offset: 91223},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -36417,28 +36417,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2899, col: 8, offset: 91559},
+																																										pos: position{line: 2899, col: 8, offset: 91621},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2886, col: 12, offset: 91332},
+																																												pos: position{line: 2886, col: 12, offset: 91394},
 																																												run: (*parser).callonListContinuationElement1493,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2886, col: 13, offset: 91333},
+																																													pos: position{line: 2886, col: 13, offset: 91395},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2886, col: 13, offset: 91333},
+																																															pos:        position{line: 2886, col: 13, offset: 91395},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2886, col: 20, offset: 91340},
+																																															pos:        position{line: 2886, col: 20, offset: 91402},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2886, col: 29, offset: 91349},
+																																															pos:        position{line: 2886, col: 29, offset: 91411},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -36447,9 +36447,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2896, col: 8, offset: 91509},
+																																												pos: position{line: 2896, col: 8, offset: 91571},
 																																												expr: &anyMatcher{
-																																													line: 2896, col: 9, offset: 91510,
+																																													line: 2896, col: 9, offset: 91572,
 																																												},
 																																											},
 																																										},
@@ -36459,22 +36459,22 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2669, col: 9, offset: 85010},
+																																						pos: position{line: 2669, col: 9, offset: 85072},
 																																						expr: &seqExpr{
-																																							pos: position{line: 2669, col: 11, offset: 85012},
+																																							pos: position{line: 2669, col: 11, offset: 85074},
 																																							exprs: []interface{}{
 																																								&labeledExpr{
-																																									pos:   position{line: 2669, col: 11, offset: 85012},
+																																									pos:   position{line: 2669, col: 11, offset: 85074},
 																																									label: "format",
 																																									expr: &zeroOrOneExpr{
-																																										pos: position{line: 2669, col: 18, offset: 85019},
+																																										pos: position{line: 2669, col: 18, offset: 85081},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2677, col: 20, offset: 85220},
+																																											pos: position{line: 2677, col: 20, offset: 85282},
 																																											run: (*parser).callonListContinuationElement1504,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2677, col: 20, offset: 85220},
+																																												pos: position{line: 2677, col: 20, offset: 85282},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2677, col: 20, offset: 85220},
+																																													pos:        position{line: 2677, col: 20, offset: 85282},
 																																													val:        "[^ |\\r\\n]",
 																																													chars:      []rune{' ', '|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -36485,7 +36485,7 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&litMatcher{
-																																									pos:        position{line: 2669, col: 37, offset: 85038},
+																																									pos:        position{line: 2669, col: 37, offset: 85100},
 																																									val:        "|",
 																																									ignoreCase: false,
 																																									want:       "\"|\"",
@@ -36494,15 +36494,15 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2670, col: 9, offset: 85051},
+																																						pos:   position{line: 2670, col: 9, offset: 85113},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2670, col: 18, offset: 85060},
+																																							pos: position{line: 2670, col: 18, offset: 85122},
 																																							run: (*parser).callonListContinuationElement1509,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2670, col: 18, offset: 85060},
+																																								pos: position{line: 2670, col: 18, offset: 85122},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2670, col: 18, offset: 85060},
+																																									pos:        position{line: 2670, col: 18, offset: 85122},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -36512,30 +36512,30 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&zeroOrOneExpr{
-																																						pos: position{line: 2672, col: 12, offset: 85122},
+																																						pos: position{line: 2672, col: 12, offset: 85184},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2899, col: 8, offset: 91559},
+																																							pos: position{line: 2899, col: 8, offset: 91621},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2886, col: 12, offset: 91332},
+																																									pos: position{line: 2886, col: 12, offset: 91394},
 																																									run: (*parser).callonListContinuationElement1514,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2886, col: 13, offset: 91333},
+																																										pos: position{line: 2886, col: 13, offset: 91395},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2886, col: 13, offset: 91333},
+																																												pos:        position{line: 2886, col: 13, offset: 91395},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2886, col: 20, offset: 91340},
+																																												pos:        position{line: 2886, col: 20, offset: 91402},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2886, col: 29, offset: 91349},
+																																												pos:        position{line: 2886, col: 29, offset: 91411},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -36544,9 +36544,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2896, col: 8, offset: 91509},
+																																									pos: position{line: 2896, col: 8, offset: 91571},
 																																									expr: &anyMatcher{
-																																										line: 2896, col: 9, offset: 91510,
+																																										line: 2896, col: 9, offset: 91572,
 																																									},
 																																								},
 																																							},
@@ -36574,18 +36574,18 @@ var g = &grammar{
 																								pos: position{line: 677, col: 14, offset: 21525},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2894, col: 11, offset: 91495},
+																										pos: position{line: 2894, col: 11, offset: 91557},
 																										expr: &anyMatcher{
-																											line: 2894, col: 13, offset: 91497,
+																											line: 2894, col: 13, offset: 91559,
 																										},
 																									},
 																									&zeroOrMoreExpr{
 																										pos: position{line: 677, col: 21, offset: 21532},
 																										expr: &actionExpr{
-																											pos: position{line: 2877, col: 10, offset: 91161},
+																											pos: position{line: 2877, col: 10, offset: 91223},
 																											run: (*parser).callonListContinuationElement1526,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2877, col: 10, offset: 91161},
+																												pos:        position{line: 2877, col: 10, offset: 91223},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -36594,28 +36594,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2899, col: 8, offset: 91559},
+																										pos: position{line: 2899, col: 8, offset: 91621},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2886, col: 12, offset: 91332},
+																												pos: position{line: 2886, col: 12, offset: 91394},
 																												run: (*parser).callonListContinuationElement1529,
 																												expr: &choiceExpr{
-																													pos: position{line: 2886, col: 13, offset: 91333},
+																													pos: position{line: 2886, col: 13, offset: 91395},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2886, col: 13, offset: 91333},
+																															pos:        position{line: 2886, col: 13, offset: 91395},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2886, col: 20, offset: 91340},
+																															pos:        position{line: 2886, col: 20, offset: 91402},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2886, col: 29, offset: 91349},
+																															pos:        position{line: 2886, col: 29, offset: 91411},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -36624,9 +36624,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2896, col: 8, offset: 91509},
+																												pos: position{line: 2896, col: 8, offset: 91571},
 																												expr: &anyMatcher{
-																													line: 2896, col: 9, offset: 91510,
+																													line: 2896, col: 9, offset: 91572,
 																												},
 																											},
 																										},
@@ -36645,24 +36645,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2623, col: 22, offset: 83908},
+													pos: position{line: 2623, col: 22, offset: 83970},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2619, col: 19, offset: 83828},
+															pos: position{line: 2619, col: 19, offset: 83890},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2619, col: 19, offset: 83828},
+																	pos:        position{line: 2619, col: 19, offset: 83890},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2619, col: 26, offset: 83835},
+																	pos: position{line: 2619, col: 26, offset: 83897},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91161},
+																		pos: position{line: 2877, col: 10, offset: 91223},
 																		run: (*parser).callonListContinuationElement1540,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91161},
+																			pos:        position{line: 2877, col: 10, offset: 91223},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -36671,28 +36671,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91559},
+																	pos: position{line: 2899, col: 8, offset: 91621},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91332},
+																			pos: position{line: 2886, col: 12, offset: 91394},
 																			run: (*parser).callonListContinuationElement1543,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91333},
+																				pos: position{line: 2886, col: 13, offset: 91395},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91333},
+																						pos:        position{line: 2886, col: 13, offset: 91395},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91340},
+																						pos:        position{line: 2886, col: 20, offset: 91402},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91349},
+																						pos:        position{line: 2886, col: 29, offset: 91411},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36701,9 +36701,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91509},
+																			pos: position{line: 2896, col: 8, offset: 91571},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91510,
+																				line: 2896, col: 9, offset: 91572,
 																			},
 																		},
 																	},
@@ -36711,9 +36711,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2896, col: 8, offset: 91509},
+															pos: position{line: 2896, col: 8, offset: 91571},
 															expr: &anyMatcher{
-																line: 2896, col: 9, offset: 91510,
+																line: 2896, col: 9, offset: 91572,
 															},
 														},
 													},
@@ -36722,36 +36722,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2484, col: 22, offset: 80047},
+										pos: position{line: 2484, col: 22, offset: 80109},
 										run: (*parser).callonListContinuationElement1552,
 										expr: &seqExpr{
-											pos: position{line: 2484, col: 22, offset: 80047},
+											pos: position{line: 2484, col: 22, offset: 80109},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2489, col: 31, offset: 80268},
+													pos:        position{line: 2489, col: 31, offset: 80330},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2489, col: 36, offset: 80273},
+													pos: position{line: 2489, col: 36, offset: 80335},
 													expr: &litMatcher{
-														pos:        position{line: 2489, col: 37, offset: 80274},
+														pos:        position{line: 2489, col: 37, offset: 80336},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2484, col: 49, offset: 80074},
+													pos:   position{line: 2484, col: 49, offset: 80136},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2823, col: 13, offset: 89687},
+														pos: position{line: 2823, col: 13, offset: 89749},
 														run: (*parser).callonListContinuationElement1558,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2823, col: 13, offset: 89687},
+															pos: position{line: 2823, col: 13, offset: 89749},
 															expr: &charClassMatcher{
-																pos:        position{line: 2823, col: 13, offset: 89687},
+																pos:        position{line: 2823, col: 13, offset: 89749},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -36761,28 +36761,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2899, col: 8, offset: 91559},
+													pos: position{line: 2899, col: 8, offset: 91621},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2886, col: 12, offset: 91332},
+															pos: position{line: 2886, col: 12, offset: 91394},
 															run: (*parser).callonListContinuationElement1562,
 															expr: &choiceExpr{
-																pos: position{line: 2886, col: 13, offset: 91333},
+																pos: position{line: 2886, col: 13, offset: 91395},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 13, offset: 91333},
+																		pos:        position{line: 2886, col: 13, offset: 91395},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 20, offset: 91340},
+																		pos:        position{line: 2886, col: 20, offset: 91402},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 29, offset: 91349},
+																		pos:        position{line: 2886, col: 29, offset: 91411},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36791,9 +36791,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2896, col: 8, offset: 91509},
+															pos: position{line: 2896, col: 8, offset: 91571},
 															expr: &anyMatcher{
-																line: 2896, col: 9, offset: 91510,
+																line: 2896, col: 9, offset: 91572,
 															},
 														},
 													},
@@ -36884,12 +36884,12 @@ var g = &grammar{
 																					expr: &andExpr{
 																						pos: position{line: 1750, col: 13, offset: 56745},
 																						expr: &actionExpr{
-																							pos: position{line: 2881, col: 11, offset: 91222},
+																							pos: position{line: 2881, col: 11, offset: 91284},
 																							run: (*parser).callonListContinuationElement1590,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2881, col: 11, offset: 91222},
+																								pos: position{line: 2881, col: 11, offset: 91284},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2881, col: 11, offset: 91222},
+																									pos:        position{line: 2881, col: 11, offset: 91284},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36910,10 +36910,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1752, col: 14, offset: 56817},
 																					expr: &actionExpr{
-																						pos: position{line: 2877, col: 10, offset: 91161},
+																						pos: position{line: 2877, col: 10, offset: 91223},
 																						run: (*parser).callonListContinuationElement1596,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2877, col: 10, offset: 91161},
+																							pos:        position{line: 2877, col: 10, offset: 91223},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36922,28 +36922,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2899, col: 8, offset: 91559},
+																					pos: position{line: 2899, col: 8, offset: 91621},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2886, col: 12, offset: 91332},
+																							pos: position{line: 2886, col: 12, offset: 91394},
 																							run: (*parser).callonListContinuationElement1599,
 																							expr: &choiceExpr{
-																								pos: position{line: 2886, col: 13, offset: 91333},
+																								pos: position{line: 2886, col: 13, offset: 91395},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 13, offset: 91333},
+																										pos:        position{line: 2886, col: 13, offset: 91395},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 20, offset: 91340},
+																										pos:        position{line: 2886, col: 20, offset: 91402},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 29, offset: 91349},
+																										pos:        position{line: 2886, col: 29, offset: 91411},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -36952,9 +36952,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2896, col: 8, offset: 91509},
+																							pos: position{line: 2896, col: 8, offset: 91571},
 																							expr: &anyMatcher{
-																								line: 2896, col: 9, offset: 91510,
+																								line: 2896, col: 9, offset: 91572,
 																							},
 																						},
 																					},
@@ -36985,18 +36985,18 @@ var g = &grammar{
 																			pos: position{line: 677, col: 14, offset: 21525},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2894, col: 11, offset: 91495},
+																					pos: position{line: 2894, col: 11, offset: 91557},
 																					expr: &anyMatcher{
-																						line: 2894, col: 13, offset: 91497,
+																						line: 2894, col: 13, offset: 91559,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21532},
 																					expr: &actionExpr{
-																						pos: position{line: 2877, col: 10, offset: 91161},
+																						pos: position{line: 2877, col: 10, offset: 91223},
 																						run: (*parser).callonListContinuationElement1615,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2877, col: 10, offset: 91161},
+																							pos:        position{line: 2877, col: 10, offset: 91223},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37005,28 +37005,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2899, col: 8, offset: 91559},
+																					pos: position{line: 2899, col: 8, offset: 91621},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2886, col: 12, offset: 91332},
+																							pos: position{line: 2886, col: 12, offset: 91394},
 																							run: (*parser).callonListContinuationElement1618,
 																							expr: &choiceExpr{
-																								pos: position{line: 2886, col: 13, offset: 91333},
+																								pos: position{line: 2886, col: 13, offset: 91395},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 13, offset: 91333},
+																										pos:        position{line: 2886, col: 13, offset: 91395},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 20, offset: 91340},
+																										pos:        position{line: 2886, col: 20, offset: 91402},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 29, offset: 91349},
+																										pos:        position{line: 2886, col: 29, offset: 91411},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -37035,9 +37035,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2896, col: 8, offset: 91509},
+																							pos: position{line: 2896, col: 8, offset: 91571},
 																							expr: &anyMatcher{
-																								line: 2896, col: 9, offset: 91510,
+																								line: 2896, col: 9, offset: 91572,
 																							},
 																						},
 																					},
@@ -37060,10 +37060,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 1547, col: 31, offset: 50234},
 																				expr: &actionExpr{
-																					pos: position{line: 2877, col: 10, offset: 91161},
+																					pos: position{line: 2877, col: 10, offset: 91223},
 																					run: (*parser).callonListContinuationElement1629,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2877, col: 10, offset: 91161},
+																						pos:        position{line: 2877, col: 10, offset: 91223},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -37072,25 +37072,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91332},
+																				pos: position{line: 2886, col: 12, offset: 91394},
 																				run: (*parser).callonListContinuationElement1631,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91333},
+																					pos: position{line: 2886, col: 13, offset: 91395},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91333},
+																							pos:        position{line: 2886, col: 13, offset: 91395},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91340},
+																							pos:        position{line: 2886, col: 20, offset: 91402},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91349},
+																							pos:        position{line: 2886, col: 29, offset: 91411},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -37112,10 +37112,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1588, col: 5, offset: 51449},
 																					expr: &actionExpr{
-																						pos: position{line: 2877, col: 10, offset: 91161},
+																						pos: position{line: 2877, col: 10, offset: 91223},
 																						run: (*parser).callonListContinuationElement1640,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2877, col: 10, offset: 91161},
+																							pos:        position{line: 2877, col: 10, offset: 91223},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37282,12 +37282,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2881, col: 11, offset: 91222},
+																					pos: position{line: 2881, col: 11, offset: 91284},
 																					run: (*parser).callonListContinuationElement1674,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2881, col: 11, offset: 91222},
+																						pos: position{line: 2881, col: 11, offset: 91284},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2881, col: 11, offset: 91222},
+																							pos:        position{line: 2881, col: 11, offset: 91284},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37310,10 +37310,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1638, col: 5, offset: 53411},
 																					expr: &actionExpr{
-																						pos: position{line: 2877, col: 10, offset: 91161},
+																						pos: position{line: 2877, col: 10, offset: 91223},
 																						run: (*parser).callonListContinuationElement1681,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2877, col: 10, offset: 91161},
+																							pos:        position{line: 2877, col: 10, offset: 91223},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37354,12 +37354,12 @@ var g = &grammar{
 																					run: (*parser).callonListContinuationElement1689,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2881, col: 11, offset: 91222},
+																					pos: position{line: 2881, col: 11, offset: 91284},
 																					run: (*parser).callonListContinuationElement1690,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2881, col: 11, offset: 91222},
+																						pos: position{line: 2881, col: 11, offset: 91284},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2881, col: 11, offset: 91222},
+																							pos:        position{line: 2881, col: 11, offset: 91284},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37410,12 +37410,12 @@ var g = &grammar{
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2881, col: 11, offset: 91222},
+																					pos: position{line: 2881, col: 11, offset: 91284},
 																					run: (*parser).callonListContinuationElement1702,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2881, col: 11, offset: 91222},
+																						pos: position{line: 2881, col: 11, offset: 91284},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2881, col: 11, offset: 91222},
+																							pos:        position{line: 2881, col: 11, offset: 91284},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37441,18 +37441,18 @@ var g = &grammar{
 																						&notExpr{
 																							pos: position{line: 1673, col: 5, offset: 54430},
 																							expr: &seqExpr{
-																								pos: position{line: 2489, col: 31, offset: 80268},
+																								pos: position{line: 2489, col: 31, offset: 80330},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2489, col: 31, offset: 80268},
+																										pos:        position{line: 2489, col: 31, offset: 80330},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2489, col: 36, offset: 80273},
+																										pos: position{line: 2489, col: 36, offset: 80335},
 																										expr: &litMatcher{
-																											pos:        position{line: 2489, col: 37, offset: 80274},
+																											pos:        position{line: 2489, col: 37, offset: 80336},
 																											val:        "//",
 																											ignoreCase: false,
 																											want:       "\"//\"",
@@ -37502,28 +37502,28 @@ var g = &grammar{
 																									&notExpr{
 																										pos: position{line: 1674, col: 35, offset: 54492},
 																										expr: &choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91559},
+																											pos: position{line: 2899, col: 8, offset: 91621},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91332},
+																													pos: position{line: 2886, col: 12, offset: 91394},
 																													run: (*parser).callonListContinuationElement1726,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91333},
+																														pos: position{line: 2886, col: 13, offset: 91395},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91333},
+																																pos:        position{line: 2886, col: 13, offset: 91395},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91340},
+																																pos:        position{line: 2886, col: 20, offset: 91402},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91349},
+																																pos:        position{line: 2886, col: 29, offset: 91411},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37532,9 +37532,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91509},
+																													pos: position{line: 2896, col: 8, offset: 91571},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91510,
+																														line: 2896, col: 9, offset: 91572,
 																													},
 																												},
 																											},
@@ -37593,7 +37593,7 @@ var g = &grammar{
 																				&notExpr{
 																					pos: position{line: 724, col: 5, offset: 23078},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2767, col: 13, offset: 88235},
+																						pos:        position{line: 2767, col: 13, offset: 88297},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -37643,10 +37643,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 742, col: 8, offset: 23722},
 																											expr: &actionExpr{
-																												pos: position{line: 2877, col: 10, offset: 91161},
+																												pos: position{line: 2877, col: 10, offset: 91223},
 																												run: (*parser).callonListContinuationElement1757,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2877, col: 10, offset: 91161},
+																													pos:        position{line: 2877, col: 10, offset: 91223},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37655,28 +37655,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91559},
+																											pos: position{line: 2899, col: 8, offset: 91621},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91332},
+																													pos: position{line: 2886, col: 12, offset: 91394},
 																													run: (*parser).callonListContinuationElement1760,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91333},
+																														pos: position{line: 2886, col: 13, offset: 91395},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91333},
+																																pos:        position{line: 2886, col: 13, offset: 91395},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91340},
+																																pos:        position{line: 2886, col: 20, offset: 91402},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91349},
+																																pos:        position{line: 2886, col: 29, offset: 91411},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37685,9 +37685,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91509},
+																													pos: position{line: 2896, col: 8, offset: 91571},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91510,
+																														line: 2896, col: 9, offset: 91572,
 																													},
 																												},
 																											},
@@ -37732,10 +37732,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 749, col: 8, offset: 23970},
 																											expr: &actionExpr{
-																												pos: position{line: 2877, col: 10, offset: 91161},
+																												pos: position{line: 2877, col: 10, offset: 91223},
 																												run: (*parser).callonListContinuationElement1776,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2877, col: 10, offset: 91161},
+																													pos:        position{line: 2877, col: 10, offset: 91223},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37744,28 +37744,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91559},
+																											pos: position{line: 2899, col: 8, offset: 91621},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91332},
+																													pos: position{line: 2886, col: 12, offset: 91394},
 																													run: (*parser).callonListContinuationElement1779,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91333},
+																														pos: position{line: 2886, col: 13, offset: 91395},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91333},
+																																pos:        position{line: 2886, col: 13, offset: 91395},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91340},
+																																pos:        position{line: 2886, col: 20, offset: 91402},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91349},
+																																pos:        position{line: 2886, col: 29, offset: 91411},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37774,9 +37774,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91509},
+																													pos: position{line: 2896, col: 8, offset: 91571},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91510,
+																														line: 2896, col: 9, offset: 91572,
 																													},
 																												},
 																											},
@@ -37817,10 +37817,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 760, col: 52, offset: 24382},
 																											expr: &actionExpr{
-																												pos: position{line: 2877, col: 10, offset: 91161},
+																												pos: position{line: 2877, col: 10, offset: 91223},
 																												run: (*parser).callonListContinuationElement1794,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2877, col: 10, offset: 91161},
+																													pos:        position{line: 2877, col: 10, offset: 91223},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37829,28 +37829,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91559},
+																											pos: position{line: 2899, col: 8, offset: 91621},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91332},
+																													pos: position{line: 2886, col: 12, offset: 91394},
 																													run: (*parser).callonListContinuationElement1797,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91333},
+																														pos: position{line: 2886, col: 13, offset: 91395},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91333},
+																																pos:        position{line: 2886, col: 13, offset: 91395},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91340},
+																																pos:        position{line: 2886, col: 20, offset: 91402},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91349},
+																																pos:        position{line: 2886, col: 29, offset: 91411},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37859,9 +37859,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91509},
+																													pos: position{line: 2896, col: 8, offset: 91571},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91510,
+																														line: 2896, col: 9, offset: 91572,
 																													},
 																												},
 																											},
@@ -37906,10 +37906,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 756, col: 8, offset: 24216},
 																											expr: &actionExpr{
-																												pos: position{line: 2877, col: 10, offset: 91161},
+																												pos: position{line: 2877, col: 10, offset: 91223},
 																												run: (*parser).callonListContinuationElement1813,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2877, col: 10, offset: 91161},
+																													pos:        position{line: 2877, col: 10, offset: 91223},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37918,28 +37918,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91559},
+																											pos: position{line: 2899, col: 8, offset: 91621},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91332},
+																													pos: position{line: 2886, col: 12, offset: 91394},
 																													run: (*parser).callonListContinuationElement1816,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91333},
+																														pos: position{line: 2886, col: 13, offset: 91395},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91333},
+																																pos:        position{line: 2886, col: 13, offset: 91395},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91340},
+																																pos:        position{line: 2886, col: 20, offset: 91402},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91349},
+																																pos:        position{line: 2886, col: 29, offset: 91411},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37948,9 +37948,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91509},
+																													pos: position{line: 2896, col: 8, offset: 91571},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91510,
+																														line: 2896, col: 9, offset: 91572,
 																													},
 																												},
 																											},
@@ -37995,10 +37995,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 771, col: 8, offset: 24759},
 																											expr: &actionExpr{
-																												pos: position{line: 2877, col: 10, offset: 91161},
+																												pos: position{line: 2877, col: 10, offset: 91223},
 																												run: (*parser).callonListContinuationElement1832,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2877, col: 10, offset: 91161},
+																													pos:        position{line: 2877, col: 10, offset: 91223},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38007,28 +38007,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91559},
+																											pos: position{line: 2899, col: 8, offset: 91621},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91332},
+																													pos: position{line: 2886, col: 12, offset: 91394},
 																													run: (*parser).callonListContinuationElement1835,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91333},
+																														pos: position{line: 2886, col: 13, offset: 91395},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91333},
+																																pos:        position{line: 2886, col: 13, offset: 91395},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91340},
+																																pos:        position{line: 2886, col: 20, offset: 91402},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91349},
+																																pos:        position{line: 2886, col: 29, offset: 91411},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38037,9 +38037,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91509},
+																													pos: position{line: 2896, col: 8, offset: 91571},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91510,
+																														line: 2896, col: 9, offset: 91572,
 																													},
 																												},
 																											},
@@ -38084,10 +38084,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 785, col: 8, offset: 25235},
 																											expr: &actionExpr{
-																												pos: position{line: 2877, col: 10, offset: 91161},
+																												pos: position{line: 2877, col: 10, offset: 91223},
 																												run: (*parser).callonListContinuationElement1851,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2877, col: 10, offset: 91161},
+																													pos:        position{line: 2877, col: 10, offset: 91223},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38096,28 +38096,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91559},
+																											pos: position{line: 2899, col: 8, offset: 91621},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91332},
+																													pos: position{line: 2886, col: 12, offset: 91394},
 																													run: (*parser).callonListContinuationElement1854,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91333},
+																														pos: position{line: 2886, col: 13, offset: 91395},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91333},
+																																pos:        position{line: 2886, col: 13, offset: 91395},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91340},
+																																pos:        position{line: 2886, col: 20, offset: 91402},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91349},
+																																pos:        position{line: 2886, col: 29, offset: 91411},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38126,9 +38126,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91509},
+																													pos: position{line: 2896, col: 8, offset: 91571},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91510,
+																														line: 2896, col: 9, offset: 91572,
 																													},
 																												},
 																											},
@@ -38173,10 +38173,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 792, col: 8, offset: 25487},
 																											expr: &actionExpr{
-																												pos: position{line: 2877, col: 10, offset: 91161},
+																												pos: position{line: 2877, col: 10, offset: 91223},
 																												run: (*parser).callonListContinuationElement1870,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2877, col: 10, offset: 91161},
+																													pos:        position{line: 2877, col: 10, offset: 91223},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38185,28 +38185,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91559},
+																											pos: position{line: 2899, col: 8, offset: 91621},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91332},
+																													pos: position{line: 2886, col: 12, offset: 91394},
 																													run: (*parser).callonListContinuationElement1873,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91333},
+																														pos: position{line: 2886, col: 13, offset: 91395},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91333},
+																																pos:        position{line: 2886, col: 13, offset: 91395},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91340},
+																																pos:        position{line: 2886, col: 20, offset: 91402},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91349},
+																																pos:        position{line: 2886, col: 29, offset: 91411},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38215,9 +38215,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91509},
+																													pos: position{line: 2896, col: 8, offset: 91571},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91510,
+																														line: 2896, col: 9, offset: 91572,
 																													},
 																												},
 																											},
@@ -38262,10 +38262,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 799, col: 8, offset: 25737},
 																											expr: &actionExpr{
-																												pos: position{line: 2877, col: 10, offset: 91161},
+																												pos: position{line: 2877, col: 10, offset: 91223},
 																												run: (*parser).callonListContinuationElement1889,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2877, col: 10, offset: 91161},
+																													pos:        position{line: 2877, col: 10, offset: 91223},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38274,28 +38274,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91559},
+																											pos: position{line: 2899, col: 8, offset: 91621},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91332},
+																													pos: position{line: 2886, col: 12, offset: 91394},
 																													run: (*parser).callonListContinuationElement1892,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91333},
+																														pos: position{line: 2886, col: 13, offset: 91395},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91333},
+																																pos:        position{line: 2886, col: 13, offset: 91395},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91340},
+																																pos:        position{line: 2886, col: 20, offset: 91402},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91349},
+																																pos:        position{line: 2886, col: 29, offset: 91411},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38304,9 +38304,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91509},
+																													pos: position{line: 2896, col: 8, offset: 91571},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91510,
+																														line: 2896, col: 9, offset: 91572,
 																													},
 																												},
 																											},
@@ -38351,10 +38351,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 806, col: 8, offset: 25983},
 																											expr: &actionExpr{
-																												pos: position{line: 2877, col: 10, offset: 91161},
+																												pos: position{line: 2877, col: 10, offset: 91223},
 																												run: (*parser).callonListContinuationElement1908,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2877, col: 10, offset: 91161},
+																													pos:        position{line: 2877, col: 10, offset: 91223},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38363,28 +38363,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91559},
+																											pos: position{line: 2899, col: 8, offset: 91621},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91332},
+																													pos: position{line: 2886, col: 12, offset: 91394},
 																													run: (*parser).callonListContinuationElement1911,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91333},
+																														pos: position{line: 2886, col: 13, offset: 91395},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91333},
+																																pos:        position{line: 2886, col: 13, offset: 91395},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91340},
+																																pos:        position{line: 2886, col: 20, offset: 91402},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91349},
+																																pos:        position{line: 2886, col: 29, offset: 91411},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38393,9 +38393,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91509},
+																													pos: position{line: 2896, col: 8, offset: 91571},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91510,
+																														line: 2896, col: 9, offset: 91572,
 																													},
 																												},
 																											},
@@ -38414,12 +38414,12 @@ var g = &grammar{
 																	pos:   position{line: 1523, col: 5, offset: 49602},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2827, col: 14, offset: 89754},
+																		pos: position{line: 2827, col: 14, offset: 89816},
 																		run: (*parser).callonListContinuationElement1919,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2827, col: 14, offset: 89754},
+																			pos: position{line: 2827, col: 14, offset: 89816},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2827, col: 14, offset: 89754},
+																				pos:        position{line: 2827, col: 14, offset: 89816},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -38429,28 +38429,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91559},
+																	pos: position{line: 2899, col: 8, offset: 91621},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91332},
+																			pos: position{line: 2886, col: 12, offset: 91394},
 																			run: (*parser).callonListContinuationElement1923,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91333},
+																				pos: position{line: 2886, col: 13, offset: 91395},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91333},
+																						pos:        position{line: 2886, col: 13, offset: 91395},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91340},
+																						pos:        position{line: 2886, col: 20, offset: 91402},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91349},
+																						pos:        position{line: 2886, col: 29, offset: 91411},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -38459,9 +38459,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91509},
+																			pos: position{line: 2896, col: 8, offset: 91571},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91510,
+																				line: 2896, col: 9, offset: 91572,
 																			},
 																		},
 																	},
@@ -38526,10 +38526,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1717, col: 66, offset: 55680},
 							expr: &actionExpr{
-								pos: position{line: 2877, col: 10, offset: 91161},
+								pos: position{line: 2877, col: 10, offset: 91223},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2877, col: 10, offset: 91161},
+									pos:        position{line: 2877, col: 10, offset: 91223},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -38543,25 +38543,25 @@ var g = &grammar{
 								pos: position{line: 1717, col: 75, offset: 55689},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2886, col: 12, offset: 91332},
+										pos: position{line: 2886, col: 12, offset: 91394},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2886, col: 13, offset: 91333},
+											pos: position{line: 2886, col: 13, offset: 91395},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2886, col: 13, offset: 91333},
+													pos:        position{line: 2886, col: 13, offset: 91395},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2886, col: 20, offset: 91340},
+													pos:        position{line: 2886, col: 20, offset: 91402},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2886, col: 29, offset: 91349},
+													pos:        position{line: 2886, col: 29, offset: 91411},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -38570,9 +38570,9 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2896, col: 8, offset: 91509},
+										pos: position{line: 2896, col: 8, offset: 91571},
 										expr: &anyMatcher{
-											line: 2896, col: 9, offset: 91510,
+											line: 2896, col: 9, offset: 91572,
 										},
 									},
 									&ruleRefExpr{
@@ -38601,7 +38601,7 @@ var g = &grammar{
 								pos: position{line: 1758, col: 7, offset: 56948},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2767, col: 13, offset: 88235},
+										pos:        position{line: 2767, col: 13, offset: 88297},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
@@ -38620,12 +38620,12 @@ var g = &grammar{
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2881, col: 11, offset: 91222},
+													pos: position{line: 2881, col: 11, offset: 91284},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2881, col: 11, offset: 91222},
+														pos: position{line: 2881, col: 11, offset: 91284},
 														expr: &charClassMatcher{
-															pos:        position{line: 2881, col: 11, offset: 91222},
+															pos:        position{line: 2881, col: 11, offset: 91284},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -38716,12 +38716,12 @@ var g = &grammar{
 															expr: &andExpr{
 																pos: position{line: 1750, col: 13, offset: 56745},
 																expr: &actionExpr{
-																	pos: position{line: 2881, col: 11, offset: 91222},
+																	pos: position{line: 2881, col: 11, offset: 91284},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2881, col: 11, offset: 91222},
+																		pos: position{line: 2881, col: 11, offset: 91284},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2881, col: 11, offset: 91222},
+																			pos:        position{line: 2881, col: 11, offset: 91284},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -38742,10 +38742,10 @@ var g = &grammar{
 														&zeroOrMoreExpr{
 															pos: position{line: 1752, col: 14, offset: 56817},
 															expr: &actionExpr{
-																pos: position{line: 2877, col: 10, offset: 91161},
+																pos: position{line: 2877, col: 10, offset: 91223},
 																run: (*parser).callonShortcutParagraph37,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2877, col: 10, offset: 91161},
+																	pos:        position{line: 2877, col: 10, offset: 91223},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -38754,28 +38754,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2899, col: 8, offset: 91559},
+															pos: position{line: 2899, col: 8, offset: 91621},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2886, col: 12, offset: 91332},
+																	pos: position{line: 2886, col: 12, offset: 91394},
 																	run: (*parser).callonShortcutParagraph40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2886, col: 13, offset: 91333},
+																		pos: position{line: 2886, col: 13, offset: 91395},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2886, col: 13, offset: 91333},
+																				pos:        position{line: 2886, col: 13, offset: 91395},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2886, col: 20, offset: 91340},
+																				pos:        position{line: 2886, col: 20, offset: 91402},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2886, col: 29, offset: 91349},
+																				pos:        position{line: 2886, col: 29, offset: 91411},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -38784,9 +38784,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2896, col: 8, offset: 91509},
+																	pos: position{line: 2896, col: 8, offset: 91571},
 																	expr: &anyMatcher{
-																		line: 2896, col: 9, offset: 91510,
+																		line: 2896, col: 9, offset: 91572,
 																	},
 																},
 															},
@@ -38812,12 +38812,12 @@ var g = &grammar{
 											pos:   position{line: 1796, col: 5, offset: 58235},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2827, col: 14, offset: 89754},
+												pos: position{line: 2827, col: 14, offset: 89816},
 												run: (*parser).callonShortcutParagraph51,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2827, col: 14, offset: 89754},
+													pos: position{line: 2827, col: 14, offset: 89816},
 													expr: &charClassMatcher{
-														pos:        position{line: 2827, col: 14, offset: 89754},
+														pos:        position{line: 2827, col: 14, offset: 89816},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -38831,28 +38831,28 @@ var g = &grammar{
 											run: (*parser).callonShortcutParagraph54,
 										},
 										&choiceExpr{
-											pos: position{line: 2899, col: 8, offset: 91559},
+											pos: position{line: 2899, col: 8, offset: 91621},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2886, col: 12, offset: 91332},
+													pos: position{line: 2886, col: 12, offset: 91394},
 													run: (*parser).callonShortcutParagraph56,
 													expr: &choiceExpr{
-														pos: position{line: 2886, col: 13, offset: 91333},
+														pos: position{line: 2886, col: 13, offset: 91395},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2886, col: 13, offset: 91333},
+																pos:        position{line: 2886, col: 13, offset: 91395},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2886, col: 20, offset: 91340},
+																pos:        position{line: 2886, col: 20, offset: 91402},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2886, col: 29, offset: 91349},
+																pos:        position{line: 2886, col: 29, offset: 91411},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -38861,9 +38861,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2896, col: 8, offset: 91509},
+													pos: position{line: 2896, col: 8, offset: 91571},
 													expr: &anyMatcher{
-														line: 2896, col: 9, offset: 91510,
+														line: 2896, col: 9, offset: 91572,
 													},
 												},
 											},
@@ -38888,9 +38888,9 @@ var g = &grammar{
 										pos: position{line: 1769, col: 9, offset: 57513},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2894, col: 11, offset: 91495},
+												pos: position{line: 2894, col: 11, offset: 91557},
 												expr: &anyMatcher{
-													line: 2894, col: 13, offset: 91497,
+													line: 2894, col: 13, offset: 91559,
 												},
 											},
 											&notExpr{
@@ -38902,18 +38902,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21525},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2894, col: 11, offset: 91495},
+																pos: position{line: 2894, col: 11, offset: 91557},
 																expr: &anyMatcher{
-																	line: 2894, col: 13, offset: 91497,
+																	line: 2894, col: 13, offset: 91559,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21532},
 																expr: &actionExpr{
-																	pos: position{line: 2877, col: 10, offset: 91161},
+																	pos: position{line: 2877, col: 10, offset: 91223},
 																	run: (*parser).callonShortcutParagraph76,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2877, col: 10, offset: 91161},
+																		pos:        position{line: 2877, col: 10, offset: 91223},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -38922,28 +38922,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2899, col: 8, offset: 91559},
+																pos: position{line: 2899, col: 8, offset: 91621},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2886, col: 12, offset: 91332},
+																		pos: position{line: 2886, col: 12, offset: 91394},
 																		run: (*parser).callonShortcutParagraph79,
 																		expr: &choiceExpr{
-																			pos: position{line: 2886, col: 13, offset: 91333},
+																			pos: position{line: 2886, col: 13, offset: 91395},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 13, offset: 91333},
+																					pos:        position{line: 2886, col: 13, offset: 91395},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 20, offset: 91340},
+																					pos:        position{line: 2886, col: 20, offset: 91402},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 29, offset: 91349},
+																					pos:        position{line: 2886, col: 29, offset: 91411},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -38952,9 +38952,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2896, col: 8, offset: 91509},
+																		pos: position{line: 2896, col: 8, offset: 91571},
 																		expr: &anyMatcher{
-																			line: 2896, col: 9, offset: 91510,
+																			line: 2896, col: 9, offset: 91572,
 																		},
 																	},
 																},
@@ -38981,7 +38981,7 @@ var g = &grammar{
 															&notExpr{
 																pos: position{line: 724, col: 5, offset: 23078},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2767, col: 13, offset: 88235},
+																	pos:        position{line: 2767, col: 13, offset: 88297},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -39031,10 +39031,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 742, col: 8, offset: 23722},
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 10, offset: 91161},
+																							pos: position{line: 2877, col: 10, offset: 91223},
 																							run: (*parser).callonShortcutParagraph104,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2877, col: 10, offset: 91161},
+																								pos:        position{line: 2877, col: 10, offset: 91223},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39043,28 +39043,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91559},
+																						pos: position{line: 2899, col: 8, offset: 91621},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91332},
+																								pos: position{line: 2886, col: 12, offset: 91394},
 																								run: (*parser).callonShortcutParagraph107,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91333},
+																									pos: position{line: 2886, col: 13, offset: 91395},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91333},
+																											pos:        position{line: 2886, col: 13, offset: 91395},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91340},
+																											pos:        position{line: 2886, col: 20, offset: 91402},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91349},
+																											pos:        position{line: 2886, col: 29, offset: 91411},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39073,9 +39073,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91509},
+																								pos: position{line: 2896, col: 8, offset: 91571},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91510,
+																									line: 2896, col: 9, offset: 91572,
 																								},
 																							},
 																						},
@@ -39120,10 +39120,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 749, col: 8, offset: 23970},
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 10, offset: 91161},
+																							pos: position{line: 2877, col: 10, offset: 91223},
 																							run: (*parser).callonShortcutParagraph123,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2877, col: 10, offset: 91161},
+																								pos:        position{line: 2877, col: 10, offset: 91223},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39132,28 +39132,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91559},
+																						pos: position{line: 2899, col: 8, offset: 91621},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91332},
+																								pos: position{line: 2886, col: 12, offset: 91394},
 																								run: (*parser).callonShortcutParagraph126,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91333},
+																									pos: position{line: 2886, col: 13, offset: 91395},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91333},
+																											pos:        position{line: 2886, col: 13, offset: 91395},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91340},
+																											pos:        position{line: 2886, col: 20, offset: 91402},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91349},
+																											pos:        position{line: 2886, col: 29, offset: 91411},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39162,9 +39162,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91509},
+																								pos: position{line: 2896, col: 8, offset: 91571},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91510,
+																									line: 2896, col: 9, offset: 91572,
 																								},
 																							},
 																						},
@@ -39205,10 +39205,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 760, col: 52, offset: 24382},
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 10, offset: 91161},
+																							pos: position{line: 2877, col: 10, offset: 91223},
 																							run: (*parser).callonShortcutParagraph141,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2877, col: 10, offset: 91161},
+																								pos:        position{line: 2877, col: 10, offset: 91223},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39217,28 +39217,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91559},
+																						pos: position{line: 2899, col: 8, offset: 91621},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91332},
+																								pos: position{line: 2886, col: 12, offset: 91394},
 																								run: (*parser).callonShortcutParagraph144,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91333},
+																									pos: position{line: 2886, col: 13, offset: 91395},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91333},
+																											pos:        position{line: 2886, col: 13, offset: 91395},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91340},
+																											pos:        position{line: 2886, col: 20, offset: 91402},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91349},
+																											pos:        position{line: 2886, col: 29, offset: 91411},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39247,9 +39247,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91509},
+																								pos: position{line: 2896, col: 8, offset: 91571},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91510,
+																									line: 2896, col: 9, offset: 91572,
 																								},
 																							},
 																						},
@@ -39294,10 +39294,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 756, col: 8, offset: 24216},
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 10, offset: 91161},
+																							pos: position{line: 2877, col: 10, offset: 91223},
 																							run: (*parser).callonShortcutParagraph160,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2877, col: 10, offset: 91161},
+																								pos:        position{line: 2877, col: 10, offset: 91223},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39306,28 +39306,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91559},
+																						pos: position{line: 2899, col: 8, offset: 91621},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91332},
+																								pos: position{line: 2886, col: 12, offset: 91394},
 																								run: (*parser).callonShortcutParagraph163,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91333},
+																									pos: position{line: 2886, col: 13, offset: 91395},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91333},
+																											pos:        position{line: 2886, col: 13, offset: 91395},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91340},
+																											pos:        position{line: 2886, col: 20, offset: 91402},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91349},
+																											pos:        position{line: 2886, col: 29, offset: 91411},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39336,9 +39336,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91509},
+																								pos: position{line: 2896, col: 8, offset: 91571},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91510,
+																									line: 2896, col: 9, offset: 91572,
 																								},
 																							},
 																						},
@@ -39383,10 +39383,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 771, col: 8, offset: 24759},
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 10, offset: 91161},
+																							pos: position{line: 2877, col: 10, offset: 91223},
 																							run: (*parser).callonShortcutParagraph179,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2877, col: 10, offset: 91161},
+																								pos:        position{line: 2877, col: 10, offset: 91223},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39395,28 +39395,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91559},
+																						pos: position{line: 2899, col: 8, offset: 91621},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91332},
+																								pos: position{line: 2886, col: 12, offset: 91394},
 																								run: (*parser).callonShortcutParagraph182,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91333},
+																									pos: position{line: 2886, col: 13, offset: 91395},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91333},
+																											pos:        position{line: 2886, col: 13, offset: 91395},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91340},
+																											pos:        position{line: 2886, col: 20, offset: 91402},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91349},
+																											pos:        position{line: 2886, col: 29, offset: 91411},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39425,9 +39425,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91509},
+																								pos: position{line: 2896, col: 8, offset: 91571},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91510,
+																									line: 2896, col: 9, offset: 91572,
 																								},
 																							},
 																						},
@@ -39472,10 +39472,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 785, col: 8, offset: 25235},
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 10, offset: 91161},
+																							pos: position{line: 2877, col: 10, offset: 91223},
 																							run: (*parser).callonShortcutParagraph198,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2877, col: 10, offset: 91161},
+																								pos:        position{line: 2877, col: 10, offset: 91223},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39484,28 +39484,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91559},
+																						pos: position{line: 2899, col: 8, offset: 91621},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91332},
+																								pos: position{line: 2886, col: 12, offset: 91394},
 																								run: (*parser).callonShortcutParagraph201,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91333},
+																									pos: position{line: 2886, col: 13, offset: 91395},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91333},
+																											pos:        position{line: 2886, col: 13, offset: 91395},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91340},
+																											pos:        position{line: 2886, col: 20, offset: 91402},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91349},
+																											pos:        position{line: 2886, col: 29, offset: 91411},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39514,9 +39514,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91509},
+																								pos: position{line: 2896, col: 8, offset: 91571},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91510,
+																									line: 2896, col: 9, offset: 91572,
 																								},
 																							},
 																						},
@@ -39561,10 +39561,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 792, col: 8, offset: 25487},
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 10, offset: 91161},
+																							pos: position{line: 2877, col: 10, offset: 91223},
 																							run: (*parser).callonShortcutParagraph217,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2877, col: 10, offset: 91161},
+																								pos:        position{line: 2877, col: 10, offset: 91223},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39573,28 +39573,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91559},
+																						pos: position{line: 2899, col: 8, offset: 91621},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91332},
+																								pos: position{line: 2886, col: 12, offset: 91394},
 																								run: (*parser).callonShortcutParagraph220,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91333},
+																									pos: position{line: 2886, col: 13, offset: 91395},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91333},
+																											pos:        position{line: 2886, col: 13, offset: 91395},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91340},
+																											pos:        position{line: 2886, col: 20, offset: 91402},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91349},
+																											pos:        position{line: 2886, col: 29, offset: 91411},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39603,9 +39603,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91509},
+																								pos: position{line: 2896, col: 8, offset: 91571},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91510,
+																									line: 2896, col: 9, offset: 91572,
 																								},
 																							},
 																						},
@@ -39650,10 +39650,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 799, col: 8, offset: 25737},
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 10, offset: 91161},
+																							pos: position{line: 2877, col: 10, offset: 91223},
 																							run: (*parser).callonShortcutParagraph236,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2877, col: 10, offset: 91161},
+																								pos:        position{line: 2877, col: 10, offset: 91223},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39662,28 +39662,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91559},
+																						pos: position{line: 2899, col: 8, offset: 91621},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91332},
+																								pos: position{line: 2886, col: 12, offset: 91394},
 																								run: (*parser).callonShortcutParagraph239,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91333},
+																									pos: position{line: 2886, col: 13, offset: 91395},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91333},
+																											pos:        position{line: 2886, col: 13, offset: 91395},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91340},
+																											pos:        position{line: 2886, col: 20, offset: 91402},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91349},
+																											pos:        position{line: 2886, col: 29, offset: 91411},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39692,9 +39692,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91509},
+																								pos: position{line: 2896, col: 8, offset: 91571},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91510,
+																									line: 2896, col: 9, offset: 91572,
 																								},
 																							},
 																						},
@@ -39739,10 +39739,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 806, col: 8, offset: 25983},
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 10, offset: 91161},
+																							pos: position{line: 2877, col: 10, offset: 91223},
 																							run: (*parser).callonShortcutParagraph255,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2877, col: 10, offset: 91161},
+																								pos:        position{line: 2877, col: 10, offset: 91223},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39751,28 +39751,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91559},
+																						pos: position{line: 2899, col: 8, offset: 91621},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91332},
+																								pos: position{line: 2886, col: 12, offset: 91394},
 																								run: (*parser).callonShortcutParagraph258,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91333},
+																									pos: position{line: 2886, col: 13, offset: 91395},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91333},
+																											pos:        position{line: 2886, col: 13, offset: 91395},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91340},
+																											pos:        position{line: 2886, col: 20, offset: 91402},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91349},
+																											pos:        position{line: 2886, col: 29, offset: 91411},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39781,9 +39781,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91509},
+																								pos: position{line: 2896, col: 8, offset: 91571},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91510,
+																									line: 2896, col: 9, offset: 91572,
 																								},
 																							},
 																						},
@@ -39812,10 +39812,10 @@ var g = &grammar{
 														&zeroOrMoreExpr{
 															pos: position{line: 1547, col: 31, offset: 50234},
 															expr: &actionExpr{
-																pos: position{line: 2877, col: 10, offset: 91161},
+																pos: position{line: 2877, col: 10, offset: 91223},
 																run: (*parser).callonShortcutParagraph269,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2877, col: 10, offset: 91161},
+																	pos:        position{line: 2877, col: 10, offset: 91223},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -39824,25 +39824,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2886, col: 12, offset: 91332},
+															pos: position{line: 2886, col: 12, offset: 91394},
 															run: (*parser).callonShortcutParagraph271,
 															expr: &choiceExpr{
-																pos: position{line: 2886, col: 13, offset: 91333},
+																pos: position{line: 2886, col: 13, offset: 91395},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 13, offset: 91333},
+																		pos:        position{line: 2886, col: 13, offset: 91395},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 20, offset: 91340},
+																		pos:        position{line: 2886, col: 20, offset: 91402},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 29, offset: 91349},
+																		pos:        position{line: 2886, col: 29, offset: 91411},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -39860,36 +39860,36 @@ var g = &grammar{
 													pos: position{line: 1774, col: 15, offset: 57635},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2484, col: 22, offset: 80047},
+															pos: position{line: 2484, col: 22, offset: 80109},
 															run: (*parser).callonShortcutParagraph278,
 															expr: &seqExpr{
-																pos: position{line: 2484, col: 22, offset: 80047},
+																pos: position{line: 2484, col: 22, offset: 80109},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2489, col: 31, offset: 80268},
+																		pos:        position{line: 2489, col: 31, offset: 80330},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2489, col: 36, offset: 80273},
+																		pos: position{line: 2489, col: 36, offset: 80335},
 																		expr: &litMatcher{
-																			pos:        position{line: 2489, col: 37, offset: 80274},
+																			pos:        position{line: 2489, col: 37, offset: 80336},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2484, col: 49, offset: 80074},
+																		pos:   position{line: 2484, col: 49, offset: 80136},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2823, col: 13, offset: 89687},
+																			pos: position{line: 2823, col: 13, offset: 89749},
 																			run: (*parser).callonShortcutParagraph284,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2823, col: 13, offset: 89687},
+																				pos: position{line: 2823, col: 13, offset: 89749},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2823, col: 13, offset: 89687},
+																					pos:        position{line: 2823, col: 13, offset: 89749},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39899,28 +39899,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2899, col: 8, offset: 91559},
+																		pos: position{line: 2899, col: 8, offset: 91621},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91332},
+																				pos: position{line: 2886, col: 12, offset: 91394},
 																				run: (*parser).callonShortcutParagraph288,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91333},
+																					pos: position{line: 2886, col: 13, offset: 91395},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91333},
+																							pos:        position{line: 2886, col: 13, offset: 91395},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91340},
+																							pos:        position{line: 2886, col: 20, offset: 91402},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91349},
+																							pos:        position{line: 2886, col: 29, offset: 91411},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39929,9 +39929,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2896, col: 8, offset: 91509},
+																				pos: position{line: 2896, col: 8, offset: 91571},
 																				expr: &anyMatcher{
-																					line: 2896, col: 9, offset: 91510,
+																					line: 2896, col: 9, offset: 91572,
 																				},
 																			},
 																		},
@@ -39949,12 +39949,12 @@ var g = &grammar{
 																		pos:   position{line: 1796, col: 5, offset: 58235},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2827, col: 14, offset: 89754},
+																			pos: position{line: 2827, col: 14, offset: 89816},
 																			run: (*parser).callonShortcutParagraph298,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2827, col: 14, offset: 89754},
+																				pos: position{line: 2827, col: 14, offset: 89816},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2827, col: 14, offset: 89754},
+																					pos:        position{line: 2827, col: 14, offset: 89816},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39968,28 +39968,28 @@ var g = &grammar{
 																		run: (*parser).callonShortcutParagraph301,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2899, col: 8, offset: 91559},
+																		pos: position{line: 2899, col: 8, offset: 91621},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91332},
+																				pos: position{line: 2886, col: 12, offset: 91394},
 																				run: (*parser).callonShortcutParagraph303,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91333},
+																					pos: position{line: 2886, col: 13, offset: 91395},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91333},
+																							pos:        position{line: 2886, col: 13, offset: 91395},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91340},
+																							pos:        position{line: 2886, col: 20, offset: 91402},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91349},
+																							pos:        position{line: 2886, col: 29, offset: 91411},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39998,9 +39998,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2896, col: 8, offset: 91509},
+																				pos: position{line: 2896, col: 8, offset: 91571},
 																				expr: &anyMatcher{
-																					line: 2896, col: 9, offset: 91510,
+																					line: 2896, col: 9, offset: 91572,
 																				},
 																			},
 																		},
@@ -40106,12 +40106,12 @@ var g = &grammar{
 															expr: &andExpr{
 																pos: position{line: 1750, col: 13, offset: 56745},
 																expr: &actionExpr{
-																	pos: position{line: 2881, col: 11, offset: 91222},
+																	pos: position{line: 2881, col: 11, offset: 91284},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2881, col: 11, offset: 91222},
+																		pos: position{line: 2881, col: 11, offset: 91284},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2881, col: 11, offset: 91222},
+																			pos:        position{line: 2881, col: 11, offset: 91284},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -40132,10 +40132,10 @@ var g = &grammar{
 														&zeroOrMoreExpr{
 															pos: position{line: 1752, col: 14, offset: 56817},
 															expr: &actionExpr{
-																pos: position{line: 2877, col: 10, offset: 91161},
+																pos: position{line: 2877, col: 10, offset: 91223},
 																run: (*parser).callonParagraph28,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2877, col: 10, offset: 91161},
+																	pos:        position{line: 2877, col: 10, offset: 91223},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -40144,28 +40144,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2899, col: 8, offset: 91559},
+															pos: position{line: 2899, col: 8, offset: 91621},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2886, col: 12, offset: 91332},
+																	pos: position{line: 2886, col: 12, offset: 91394},
 																	run: (*parser).callonParagraph31,
 																	expr: &choiceExpr{
-																		pos: position{line: 2886, col: 13, offset: 91333},
+																		pos: position{line: 2886, col: 13, offset: 91395},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2886, col: 13, offset: 91333},
+																				pos:        position{line: 2886, col: 13, offset: 91395},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2886, col: 20, offset: 91340},
+																				pos:        position{line: 2886, col: 20, offset: 91402},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2886, col: 29, offset: 91349},
+																				pos:        position{line: 2886, col: 29, offset: 91411},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -40174,9 +40174,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2896, col: 8, offset: 91509},
+																	pos: position{line: 2896, col: 8, offset: 91571},
 																	expr: &anyMatcher{
-																		line: 2896, col: 9, offset: 91510,
+																		line: 2896, col: 9, offset: 91572,
 																	},
 																},
 															},
@@ -40202,12 +40202,12 @@ var g = &grammar{
 											pos:   position{line: 1796, col: 5, offset: 58235},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2827, col: 14, offset: 89754},
+												pos: position{line: 2827, col: 14, offset: 89816},
 												run: (*parser).callonParagraph42,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2827, col: 14, offset: 89754},
+													pos: position{line: 2827, col: 14, offset: 89816},
 													expr: &charClassMatcher{
-														pos:        position{line: 2827, col: 14, offset: 89754},
+														pos:        position{line: 2827, col: 14, offset: 89816},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -40221,28 +40221,28 @@ var g = &grammar{
 											run: (*parser).callonParagraph45,
 										},
 										&choiceExpr{
-											pos: position{line: 2899, col: 8, offset: 91559},
+											pos: position{line: 2899, col: 8, offset: 91621},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2886, col: 12, offset: 91332},
+													pos: position{line: 2886, col: 12, offset: 91394},
 													run: (*parser).callonParagraph47,
 													expr: &choiceExpr{
-														pos: position{line: 2886, col: 13, offset: 91333},
+														pos: position{line: 2886, col: 13, offset: 91395},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2886, col: 13, offset: 91333},
+																pos:        position{line: 2886, col: 13, offset: 91395},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2886, col: 20, offset: 91340},
+																pos:        position{line: 2886, col: 20, offset: 91402},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2886, col: 29, offset: 91349},
+																pos:        position{line: 2886, col: 29, offset: 91411},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -40251,9 +40251,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2896, col: 8, offset: 91509},
+													pos: position{line: 2896, col: 8, offset: 91571},
 													expr: &anyMatcher{
-														line: 2896, col: 9, offset: 91510,
+														line: 2896, col: 9, offset: 91572,
 													},
 												},
 											},
@@ -40274,9 +40274,9 @@ var g = &grammar{
 										pos: position{line: 1785, col: 9, offset: 57941},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2894, col: 11, offset: 91495},
+												pos: position{line: 2894, col: 11, offset: 91557},
 												expr: &anyMatcher{
-													line: 2894, col: 13, offset: 91497,
+													line: 2894, col: 13, offset: 91559,
 												},
 											},
 											&notExpr{
@@ -40288,18 +40288,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21525},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2894, col: 11, offset: 91495},
+																pos: position{line: 2894, col: 11, offset: 91557},
 																expr: &anyMatcher{
-																	line: 2894, col: 13, offset: 91497,
+																	line: 2894, col: 13, offset: 91559,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21532},
 																expr: &actionExpr{
-																	pos: position{line: 2877, col: 10, offset: 91161},
+																	pos: position{line: 2877, col: 10, offset: 91223},
 																	run: (*parser).callonParagraph66,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2877, col: 10, offset: 91161},
+																		pos:        position{line: 2877, col: 10, offset: 91223},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -40308,28 +40308,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2899, col: 8, offset: 91559},
+																pos: position{line: 2899, col: 8, offset: 91621},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2886, col: 12, offset: 91332},
+																		pos: position{line: 2886, col: 12, offset: 91394},
 																		run: (*parser).callonParagraph69,
 																		expr: &choiceExpr{
-																			pos: position{line: 2886, col: 13, offset: 91333},
+																			pos: position{line: 2886, col: 13, offset: 91395},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 13, offset: 91333},
+																					pos:        position{line: 2886, col: 13, offset: 91395},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 20, offset: 91340},
+																					pos:        position{line: 2886, col: 20, offset: 91402},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 29, offset: 91349},
+																					pos:        position{line: 2886, col: 29, offset: 91411},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -40338,9 +40338,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2896, col: 8, offset: 91509},
+																		pos: position{line: 2896, col: 8, offset: 91571},
 																		expr: &anyMatcher{
-																			line: 2896, col: 9, offset: 91510,
+																			line: 2896, col: 9, offset: 91572,
 																		},
 																	},
 																},
@@ -40363,36 +40363,36 @@ var g = &grammar{
 													pos: position{line: 1788, col: 15, offset: 58006},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2484, col: 22, offset: 80047},
+															pos: position{line: 2484, col: 22, offset: 80109},
 															run: (*parser).callonParagraph80,
 															expr: &seqExpr{
-																pos: position{line: 2484, col: 22, offset: 80047},
+																pos: position{line: 2484, col: 22, offset: 80109},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2489, col: 31, offset: 80268},
+																		pos:        position{line: 2489, col: 31, offset: 80330},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2489, col: 36, offset: 80273},
+																		pos: position{line: 2489, col: 36, offset: 80335},
 																		expr: &litMatcher{
-																			pos:        position{line: 2489, col: 37, offset: 80274},
+																			pos:        position{line: 2489, col: 37, offset: 80336},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2484, col: 49, offset: 80074},
+																		pos:   position{line: 2484, col: 49, offset: 80136},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2823, col: 13, offset: 89687},
+																			pos: position{line: 2823, col: 13, offset: 89749},
 																			run: (*parser).callonParagraph86,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2823, col: 13, offset: 89687},
+																				pos: position{line: 2823, col: 13, offset: 89749},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2823, col: 13, offset: 89687},
+																					pos:        position{line: 2823, col: 13, offset: 89749},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40402,28 +40402,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2899, col: 8, offset: 91559},
+																		pos: position{line: 2899, col: 8, offset: 91621},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91332},
+																				pos: position{line: 2886, col: 12, offset: 91394},
 																				run: (*parser).callonParagraph90,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91333},
+																					pos: position{line: 2886, col: 13, offset: 91395},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91333},
+																							pos:        position{line: 2886, col: 13, offset: 91395},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91340},
+																							pos:        position{line: 2886, col: 20, offset: 91402},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91349},
+																							pos:        position{line: 2886, col: 29, offset: 91411},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40432,9 +40432,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2896, col: 8, offset: 91509},
+																				pos: position{line: 2896, col: 8, offset: 91571},
 																				expr: &anyMatcher{
-																					line: 2896, col: 9, offset: 91510,
+																					line: 2896, col: 9, offset: 91572,
 																				},
 																			},
 																		},
@@ -40452,12 +40452,12 @@ var g = &grammar{
 																		pos:   position{line: 1796, col: 5, offset: 58235},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2827, col: 14, offset: 89754},
+																			pos: position{line: 2827, col: 14, offset: 89816},
 																			run: (*parser).callonParagraph100,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2827, col: 14, offset: 89754},
+																				pos: position{line: 2827, col: 14, offset: 89816},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2827, col: 14, offset: 89754},
+																					pos:        position{line: 2827, col: 14, offset: 89816},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40471,28 +40471,28 @@ var g = &grammar{
 																		run: (*parser).callonParagraph103,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2899, col: 8, offset: 91559},
+																		pos: position{line: 2899, col: 8, offset: 91621},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91332},
+																				pos: position{line: 2886, col: 12, offset: 91394},
 																				run: (*parser).callonParagraph105,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91333},
+																					pos: position{line: 2886, col: 13, offset: 91395},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91333},
+																							pos:        position{line: 2886, col: 13, offset: 91395},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91340},
+																							pos:        position{line: 2886, col: 20, offset: 91402},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91349},
+																							pos:        position{line: 2886, col: 29, offset: 91411},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40501,9 +40501,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2896, col: 8, offset: 91509},
+																				pos: position{line: 2896, col: 8, offset: 91571},
 																				expr: &anyMatcher{
-																					line: 2896, col: 9, offset: 91510,
+																					line: 2896, col: 9, offset: 91572,
 																				},
 																			},
 																		},
@@ -40565,42 +40565,42 @@ var g = &grammar{
 							},
 						},
 						&andExpr{
-							pos: position{line: 1813, col: 5, offset: 58901},
+							pos: position{line: 1813, col: 5, offset: 58963},
 							expr: &litMatcher{
-								pos:        position{line: 1813, col: 7, offset: 58903},
+								pos:        position{line: 1813, col: 7, offset: 58965},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1814, col: 5, offset: 58912},
+							pos:   position{line: 1814, col: 5, offset: 58974},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1815, col: 9, offset: 58930},
+								pos: position{line: 1815, col: 9, offset: 58992},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1815, col: 9, offset: 58930},
+										pos:  position{line: 1815, col: 9, offset: 58992},
 										name: "EscapedBoldText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1816, col: 11, offset: 58957},
+										pos:  position{line: 1816, col: 11, offset: 59019},
 										name: "EscapedItalicText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1817, col: 11, offset: 58985},
+										pos:  position{line: 1817, col: 11, offset: 59047},
 										name: "EscapedMonospaceText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1818, col: 11, offset: 59016},
+										pos:  position{line: 1818, col: 11, offset: 59078},
 										name: "EscapedMarkedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1819, col: 11, offset: 59044},
+										pos:  position{line: 1819, col: 11, offset: 59106},
 										name: "EscapedSubscriptText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1820, col: 11, offset: 59075},
+										pos:  position{line: 1820, col: 11, offset: 59137},
 										name: "EscapedSuperscriptText",
 									},
 								},
@@ -40612,36 +40612,36 @@ var g = &grammar{
 		},
 		{
 			name: "UnescapedQuotedText",
-			pos:  position{line: 1825, col: 1, offset: 59195},
+			pos:  position{line: 1825, col: 1, offset: 59257},
 			expr: &actionExpr{
-				pos: position{line: 1826, col: 5, offset: 59237},
+				pos: position{line: 1826, col: 5, offset: 59299},
 				run: (*parser).callonUnescapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1826, col: 5, offset: 59237},
+					pos: position{line: 1826, col: 5, offset: 59299},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1826, col: 5, offset: 59237},
+							pos:   position{line: 1826, col: 5, offset: 59299},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1826, col: 16, offset: 59248},
+								pos: position{line: 1826, col: 16, offset: 59310},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1826, col: 17, offset: 59249},
+									pos:  position{line: 1826, col: 17, offset: 59311},
 									name: "LongHandAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1827, col: 5, offset: 59274},
+							pos:   position{line: 1827, col: 5, offset: 59336},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1827, col: 14, offset: 59283},
+								pos: position{line: 1827, col: 14, offset: 59345},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1827, col: 14, offset: 59283},
+										pos:  position{line: 1827, col: 14, offset: 59345},
 										name: "SingleQuotedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1827, col: 33, offset: 59302},
+										pos:  position{line: 1827, col: 33, offset: 59364},
 										name: "DoubleQuotedText",
 									},
 								},
@@ -40653,32 +40653,32 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedText",
-			pos:  position{line: 1835, col: 1, offset: 59533},
+			pos:  position{line: 1835, col: 1, offset: 59595},
 			expr: &choiceExpr{
-				pos: position{line: 1836, col: 5, offset: 59558},
+				pos: position{line: 1836, col: 5, offset: 59620},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1836, col: 5, offset: 59558},
+						pos:  position{line: 1836, col: 5, offset: 59620},
 						name: "SingleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1837, col: 7, offset: 59585},
+						pos:  position{line: 1837, col: 7, offset: 59647},
 						name: "SingleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1838, col: 7, offset: 59613},
+						pos:  position{line: 1838, col: 7, offset: 59675},
 						name: "SingleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1839, col: 7, offset: 59645},
+						pos:  position{line: 1839, col: 7, offset: 59707},
 						name: "SingleQuoteMarkedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1840, col: 7, offset: 59673},
+						pos:  position{line: 1840, col: 7, offset: 59735},
 						name: "SubscriptText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1841, col: 7, offset: 59694},
+						pos:  position{line: 1841, col: 7, offset: 59756},
 						name: "SuperscriptText",
 					},
 				},
@@ -40686,24 +40686,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedText",
-			pos:  position{line: 1843, col: 1, offset: 59712},
+			pos:  position{line: 1843, col: 1, offset: 59774},
 			expr: &choiceExpr{
-				pos: position{line: 1844, col: 5, offset: 59737},
+				pos: position{line: 1844, col: 5, offset: 59799},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1844, col: 5, offset: 59737},
+						pos:  position{line: 1844, col: 5, offset: 59799},
 						name: "DoubleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1845, col: 7, offset: 59763},
+						pos:  position{line: 1845, col: 7, offset: 59825},
 						name: "DoubleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1846, col: 7, offset: 59791},
+						pos:  position{line: 1846, col: 7, offset: 59853},
 						name: "DoubleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1847, col: 7, offset: 59822},
+						pos:  position{line: 1847, col: 7, offset: 59884},
 						name: "DoubleQuoteMarkedText",
 					},
 				},
@@ -40711,26 +40711,26 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedTextElement",
-			pos:  position{line: 1861, col: 1, offset: 60176},
+			pos:  position{line: 1861, col: 1, offset: 60238},
 			expr: &choiceExpr{
-				pos: position{line: 1862, col: 5, offset: 60202},
+				pos: position{line: 1862, col: 5, offset: 60264},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2776, col: 5, offset: 88382},
+						pos: position{line: 2776, col: 5, offset: 88444},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2776, col: 5, offset: 88382},
+							pos: position{line: 2776, col: 5, offset: 88444},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2776, col: 5, offset: 88382},
+									pos:   position{line: 2776, col: 5, offset: 88444},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2776, col: 11, offset: 88388},
+										pos: position{line: 2776, col: 11, offset: 88450},
 										run: (*parser).callonQuotedTextElement5,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2776, col: 11, offset: 88388},
+											pos: position{line: 2776, col: 11, offset: 88450},
 											expr: &charClassMatcher{
-												pos:        position{line: 2776, col: 11, offset: 88388},
+												pos:        position{line: 2776, col: 11, offset: 88450},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40740,44 +40740,44 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2779, col: 5, offset: 88446},
+									pos: position{line: 2779, col: 5, offset: 88508},
 									expr: &seqExpr{
-										pos: position{line: 2780, col: 9, offset: 88457},
+										pos: position{line: 2780, col: 9, offset: 88519},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2780, col: 9, offset: 88457},
+												pos:        position{line: 2780, col: 9, offset: 88519},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2781, col: 9, offset: 88506},
+												pos: position{line: 2781, col: 9, offset: 88568},
 												run: (*parser).callonQuotedTextElement11,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2785, col: 5, offset: 88586},
+									pos: position{line: 2785, col: 5, offset: 88648},
 									expr: &seqExpr{
-										pos: position{line: 2786, col: 9, offset: 88597},
+										pos: position{line: 2786, col: 9, offset: 88659},
 										exprs: []interface{}{
 											&zeroOrMoreExpr{
-												pos: position{line: 2786, col: 9, offset: 88597},
+												pos: position{line: 2786, col: 9, offset: 88659},
 												expr: &seqExpr{
-													pos: position{line: 2786, col: 10, offset: 88598},
+													pos: position{line: 2786, col: 10, offset: 88660},
 													exprs: []interface{}{
 														&charClassMatcher{
-															pos:        position{line: 2786, col: 10, offset: 88598},
+															pos:        position{line: 2786, col: 10, offset: 88660},
 															val:        "[._%+-]",
 															chars:      []rune{'.', '_', '%', '+', '-'},
 															ignoreCase: false,
 															inverted:   false,
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2786, col: 18, offset: 88606},
+															pos: position{line: 2786, col: 18, offset: 88668},
 															expr: &charClassMatcher{
-																pos:        position{line: 2786, col: 18, offset: 88606},
+																pos:        position{line: 2786, col: 18, offset: 88668},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -40788,13 +40788,13 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 2786, col: 30, offset: 88618},
+												pos:        position{line: 2786, col: 30, offset: 88680},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2786, col: 34, offset: 88622},
+												pos:        position{line: 2786, col: 34, offset: 88684},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40807,12 +40807,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2881, col: 11, offset: 91222},
+						pos: position{line: 2881, col: 11, offset: 91284},
 						run: (*parser).callonQuotedTextElement21,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2881, col: 11, offset: 91222},
+							pos: position{line: 2881, col: 11, offset: 91284},
 							expr: &charClassMatcher{
-								pos:        position{line: 2881, col: 11, offset: 91222},
+								pos:        position{line: 2881, col: 11, offset: 91284},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -40821,29 +40821,29 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1864, col: 7, offset: 60265},
+						pos:  position{line: 1864, col: 7, offset: 60327},
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2502, col: 5, offset: 80764},
+						pos: position{line: 2502, col: 5, offset: 80826},
 						run: (*parser).callonQuotedTextElement25,
 						expr: &seqExpr{
-							pos: position{line: 2502, col: 5, offset: 80764},
+							pos: position{line: 2502, col: 5, offset: 80826},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2502, col: 5, offset: 80764},
+									pos: position{line: 2502, col: 5, offset: 80826},
 									run: (*parser).callonQuotedTextElement27,
 								},
 								&litMatcher{
-									pos:        position{line: 2505, col: 5, offset: 80835},
+									pos:        position{line: 2505, col: 5, offset: 80897},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2505, col: 10, offset: 80840},
+									pos: position{line: 2505, col: 10, offset: 80902},
 									expr: &charClassMatcher{
-										pos:        position{line: 2505, col: 11, offset: 80841},
+										pos:        position{line: 2505, col: 11, offset: 80903},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -40854,29 +40854,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2511, col: 5, offset: 81033},
+						pos: position{line: 2511, col: 5, offset: 81095},
 						run: (*parser).callonQuotedTextElement31,
 						expr: &seqExpr{
-							pos: position{line: 2511, col: 5, offset: 81033},
+							pos: position{line: 2511, col: 5, offset: 81095},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2511, col: 5, offset: 81033},
+									pos: position{line: 2511, col: 5, offset: 81095},
 									run: (*parser).callonQuotedTextElement33,
 								},
 								&andCodeExpr{
-									pos: position{line: 2514, col: 5, offset: 81104},
+									pos: position{line: 2514, col: 5, offset: 81166},
 									run: (*parser).callonQuotedTextElement34,
 								},
 								&litMatcher{
-									pos:        position{line: 2518, col: 5, offset: 81229},
+									pos:        position{line: 2518, col: 5, offset: 81291},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2518, col: 9, offset: 81233},
+									pos: position{line: 2518, col: 9, offset: 81295},
 									expr: &charClassMatcher{
-										pos:        position{line: 2518, col: 10, offset: 81234},
+										pos:        position{line: 2518, col: 10, offset: 81296},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -40887,27 +40887,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2794, col: 5, offset: 88815},
+						pos: position{line: 2794, col: 5, offset: 88877},
 						run: (*parser).callonQuotedTextElement38,
 						expr: &choiceExpr{
-							pos: position{line: 2795, col: 9, offset: 88825},
+							pos: position{line: 2795, col: 9, offset: 88887},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2795, col: 10, offset: 88826},
+									pos:        position{line: 2795, col: 10, offset: 88888},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2797, col: 13, offset: 88923},
+									pos: position{line: 2797, col: 13, offset: 88985},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2797, col: 13, offset: 88923},
+											pos: position{line: 2797, col: 13, offset: 88985},
 											run: (*parser).callonQuotedTextElement42,
 										},
 										&litMatcher{
-											pos:        position{line: 2800, col: 13, offset: 89023},
+											pos:        position{line: 2800, col: 13, offset: 89085},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -40915,20 +40915,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2800, col: 19, offset: 89029},
+									pos:        position{line: 2800, col: 19, offset: 89091},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2803, col: 13, offset: 89067},
+									pos: position{line: 2803, col: 13, offset: 89129},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2803, col: 13, offset: 89067},
+											pos: position{line: 2803, col: 13, offset: 89129},
 											run: (*parser).callonQuotedTextElement46,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2806, col: 14, offset: 89160},
+											pos:        position{line: 2806, col: 14, offset: 89222},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -40937,18 +40937,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2808, col: 12, offset: 89204},
+									pos: position{line: 2808, col: 12, offset: 89266},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2808, col: 12, offset: 89204},
+											pos:        position{line: 2808, col: 12, offset: 89266},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2808, col: 16, offset: 89208},
+											pos: position{line: 2808, col: 16, offset: 89270},
 											expr: &litMatcher{
-												pos:        position{line: 2808, col: 17, offset: 89209},
+												pos:        position{line: 2808, col: 17, offset: 89271},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -41306,31 +41306,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2890, col: 18, offset: 91432},
+						pos: position{line: 2890, col: 18, offset: 91494},
 						run: (*parser).callonQuotedTextElement121,
 						expr: &seqExpr{
-							pos: position{line: 2890, col: 18, offset: 91432},
+							pos: position{line: 2890, col: 18, offset: 91494},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2886, col: 12, offset: 91332},
+									pos: position{line: 2886, col: 12, offset: 91394},
 									run: (*parser).callonQuotedTextElement123,
 									expr: &choiceExpr{
-										pos: position{line: 2886, col: 13, offset: 91333},
+										pos: position{line: 2886, col: 13, offset: 91395},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2886, col: 13, offset: 91333},
+												pos:        position{line: 2886, col: 13, offset: 91395},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2886, col: 20, offset: 91340},
+												pos:        position{line: 2886, col: 20, offset: 91402},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2886, col: 29, offset: 91349},
+												pos:        position{line: 2886, col: 29, offset: 91411},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -41339,27 +41339,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2890, col: 26, offset: 91440},
+									pos: position{line: 2890, col: 26, offset: 91502},
 									expr: &actionExpr{
-										pos: position{line: 2886, col: 12, offset: 91332},
+										pos: position{line: 2886, col: 12, offset: 91394},
 										run: (*parser).callonQuotedTextElement129,
 										expr: &choiceExpr{
-											pos: position{line: 2886, col: 13, offset: 91333},
+											pos: position{line: 2886, col: 13, offset: 91395},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2886, col: 13, offset: 91333},
+													pos:        position{line: 2886, col: 13, offset: 91395},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2886, col: 20, offset: 91340},
+													pos:        position{line: 2886, col: 20, offset: 91402},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2886, col: 29, offset: 91349},
+													pos:        position{line: 2886, col: 29, offset: 91411},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -41372,31 +41372,31 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1869, col: 7, offset: 60432},
+						pos:  position{line: 1869, col: 7, offset: 60494},
 						name: "QuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1870, col: 7, offset: 60479},
+						pos:  position{line: 1870, col: 7, offset: 60541},
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2471, col: 5, offset: 79593},
+						pos: position{line: 2471, col: 5, offset: 79655},
 						run: (*parser).callonQuotedTextElement136,
 						expr: &seqExpr{
-							pos: position{line: 2471, col: 5, offset: 79593},
+							pos: position{line: 2471, col: 5, offset: 79655},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2471, col: 5, offset: 79593},
+									pos: position{line: 2471, col: 5, offset: 79655},
 									run: (*parser).callonQuotedTextElement138,
 								},
 								&labeledExpr{
-									pos:   position{line: 2474, col: 5, offset: 79669},
+									pos:   position{line: 2474, col: 5, offset: 79731},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2475, col: 9, offset: 79687},
+										pos: position{line: 2475, col: 9, offset: 79749},
 										run: (*parser).callonQuotedTextElement140,
 										expr: &charClassMatcher{
-											pos:        position{line: 2475, col: 10, offset: 79688},
+											pos:        position{line: 2475, col: 10, offset: 79750},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -41451,10 +41451,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2816, col: 12, offset: 89469},
+						pos: position{line: 2816, col: 12, offset: 89531},
 						run: (*parser).callonQuotedTextElement151,
 						expr: &charClassMatcher{
-							pos:        position{line: 2816, col: 12, offset: 89469},
+							pos:        position{line: 2816, col: 12, offset: 89531},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -41466,29 +41466,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldText",
-			pos:  position{line: 1888, col: 1, offset: 60949},
+			pos:  position{line: 1888, col: 1, offset: 61011},
 			expr: &actionExpr{
-				pos: position{line: 1889, col: 5, offset: 60977},
+				pos: position{line: 1889, col: 5, offset: 61039},
 				run: (*parser).callonDoubleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1889, col: 5, offset: 60977},
+					pos: position{line: 1889, col: 5, offset: 61039},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1884, col: 38, offset: 60902},
+							pos:        position{line: 1884, col: 38, offset: 60964},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1890, col: 5, offset: 61016},
+							pos:   position{line: 1890, col: 5, offset: 61078},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1890, col: 15, offset: 61026},
+								pos:  position{line: 1890, col: 15, offset: 61088},
 								name: "DoubleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1886, col: 36, offset: 60943},
+							pos:        position{line: 1886, col: 36, offset: 61005},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
@@ -41499,44 +41499,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElements",
-			pos:  position{line: 1895, col: 1, offset: 61186},
+			pos:  position{line: 1895, col: 1, offset: 61248},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1895, col: 32, offset: 61217},
+				pos: position{line: 1895, col: 32, offset: 61279},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1895, col: 32, offset: 61217},
+					pos:  position{line: 1895, col: 32, offset: 61279},
 					name: "DoubleQuoteBoldTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteBoldTextElement",
-			pos:  position{line: 1897, col: 1, offset: 61248},
+			pos:  position{line: 1897, col: 1, offset: 61310},
 			expr: &actionExpr{
-				pos: position{line: 1898, col: 5, offset: 61283},
+				pos: position{line: 1898, col: 5, offset: 61345},
 				run: (*parser).callonDoubleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1898, col: 5, offset: 61283},
+					pos: position{line: 1898, col: 5, offset: 61345},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2894, col: 11, offset: 91495},
+							pos: position{line: 2894, col: 11, offset: 91557},
 							expr: &anyMatcher{
-								line: 2894, col: 13, offset: 91497,
+								line: 2894, col: 13, offset: 91559,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1899, col: 5, offset: 61294},
+							pos: position{line: 1899, col: 5, offset: 61356},
 							expr: &litMatcher{
-								pos:        position{line: 1886, col: 36, offset: 60943},
+								pos:        position{line: 1886, col: 36, offset: 61005},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1900, col: 5, offset: 61331},
+							pos:   position{line: 1900, col: 5, offset: 61393},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1900, col: 14, offset: 61340},
+								pos:  position{line: 1900, col: 14, offset: 61402},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41546,29 +41546,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldText",
-			pos:  position{line: 1925, col: 1, offset: 62020},
+			pos:  position{line: 1925, col: 1, offset: 62082},
 			expr: &actionExpr{
-				pos: position{line: 1926, col: 5, offset: 62048},
+				pos: position{line: 1926, col: 5, offset: 62110},
 				run: (*parser).callonSingleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1926, col: 5, offset: 62048},
+					pos: position{line: 1926, col: 5, offset: 62110},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1909, col: 5, offset: 61574},
+							pos:        position{line: 1909, col: 5, offset: 61636},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1910, col: 5, offset: 61583},
+							pos: position{line: 1910, col: 5, offset: 61645},
 							run: (*parser).callonSingleQuoteBoldText4,
 						},
 						&andExpr{
-							pos: position{line: 1914, col: 5, offset: 61701},
+							pos: position{line: 1914, col: 5, offset: 61763},
 							expr: &notExpr{
-								pos: position{line: 1914, col: 7, offset: 61703},
+								pos: position{line: 1914, col: 7, offset: 61765},
 								expr: &litMatcher{
-									pos:        position{line: 1914, col: 8, offset: 61704},
+									pos:        position{line: 1914, col: 8, offset: 61766},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41576,38 +41576,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1927, col: 5, offset: 62086},
+							pos:   position{line: 1927, col: 5, offset: 62148},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1927, col: 15, offset: 62096},
+								pos:  position{line: 1927, col: 15, offset: 62158},
 								name: "SingleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1917, col: 5, offset: 61824},
+							pos:        position{line: 1917, col: 5, offset: 61886},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&notExpr{
-							pos: position{line: 1918, col: 5, offset: 61833},
+							pos: position{line: 1918, col: 5, offset: 61895},
 							expr: &litMatcher{
-								pos:        position{line: 1918, col: 6, offset: 61834},
+								pos:        position{line: 1918, col: 6, offset: 61896},
 								val:        "*",
 								ignoreCase: false,
 								want:       "\"*\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1919, col: 5, offset: 61897},
+							pos: position{line: 1919, col: 5, offset: 61959},
 							run: (*parser).callonSingleQuoteBoldText13,
 						},
 						&andExpr{
-							pos: position{line: 1923, col: 5, offset: 62006},
+							pos: position{line: 1923, col: 5, offset: 62068},
 							expr: &notExpr{
-								pos: position{line: 1923, col: 7, offset: 62008},
+								pos: position{line: 1923, col: 7, offset: 62070},
 								expr: &charClassMatcher{
-									pos:        position{line: 2767, col: 13, offset: 88235},
+									pos:        position{line: 2767, col: 13, offset: 88297},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -41621,20 +41621,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElements",
-			pos:  position{line: 1932, col: 1, offset: 62256},
+			pos:  position{line: 1932, col: 1, offset: 62318},
 			expr: &actionExpr{
-				pos: position{line: 1933, col: 5, offset: 62293},
+				pos: position{line: 1933, col: 5, offset: 62355},
 				run: (*parser).callonSingleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1933, col: 5, offset: 62293},
+					pos: position{line: 1933, col: 5, offset: 62355},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1933, col: 5, offset: 62293},
+							pos: position{line: 1933, col: 5, offset: 62355},
 							expr: &actionExpr{
-								pos: position{line: 2877, col: 10, offset: 91161},
+								pos: position{line: 2877, col: 10, offset: 91223},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2877, col: 10, offset: 91161},
+									pos:        position{line: 2877, col: 10, offset: 91223},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41643,18 +41643,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1934, col: 5, offset: 62332},
+							pos:   position{line: 1934, col: 5, offset: 62394},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1934, col: 14, offset: 62341},
+								pos: position{line: 1934, col: 14, offset: 62403},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1934, col: 15, offset: 62342},
+									pos:  position{line: 1934, col: 15, offset: 62404},
 									name: "SingleQuoteBoldTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1935, col: 5, offset: 62376},
+							pos: position{line: 1935, col: 5, offset: 62438},
 							run: (*parser).callonSingleQuoteBoldTextElements9,
 						},
 					},
@@ -41663,49 +41663,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElement",
-			pos:  position{line: 1941, col: 1, offset: 62517},
+			pos:  position{line: 1941, col: 1, offset: 62579},
 			expr: &actionExpr{
-				pos: position{line: 1942, col: 5, offset: 62552},
+				pos: position{line: 1942, col: 5, offset: 62614},
 				run: (*parser).callonSingleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1942, col: 5, offset: 62552},
+					pos: position{line: 1942, col: 5, offset: 62614},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2894, col: 11, offset: 91495},
+							pos: position{line: 2894, col: 11, offset: 91557},
 							expr: &anyMatcher{
-								line: 2894, col: 13, offset: 91497,
+								line: 2894, col: 13, offset: 91559,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1943, col: 5, offset: 62580},
+							pos: position{line: 1943, col: 5, offset: 62642},
 							expr: &seqExpr{
-								pos: position{line: 1917, col: 5, offset: 61824},
+								pos: position{line: 1917, col: 5, offset: 61886},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1917, col: 5, offset: 61824},
+										pos:        position{line: 1917, col: 5, offset: 61886},
 										val:        "*",
 										ignoreCase: false,
 										want:       "\"*\"",
 									},
 									&notExpr{
-										pos: position{line: 1918, col: 5, offset: 61833},
+										pos: position{line: 1918, col: 5, offset: 61895},
 										expr: &litMatcher{
-											pos:        position{line: 1918, col: 6, offset: 61834},
+											pos:        position{line: 1918, col: 6, offset: 61896},
 											val:        "*",
 											ignoreCase: false,
 											want:       "\"*\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1919, col: 5, offset: 61897},
+										pos: position{line: 1919, col: 5, offset: 61959},
 										run: (*parser).callonSingleQuoteBoldTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 1923, col: 5, offset: 62006},
+										pos: position{line: 1923, col: 5, offset: 62068},
 										expr: &notExpr{
-											pos: position{line: 1923, col: 7, offset: 62008},
+											pos: position{line: 1923, col: 7, offset: 62070},
 											expr: &charClassMatcher{
-												pos:        position{line: 2767, col: 13, offset: 88235},
+												pos:        position{line: 2767, col: 13, offset: 88297},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41717,10 +41717,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1944, col: 5, offset: 62617},
+							pos:   position{line: 1944, col: 5, offset: 62679},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1944, col: 14, offset: 62626},
+								pos:  position{line: 1944, col: 14, offset: 62688},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41730,35 +41730,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedBoldText",
-			pos:  position{line: 1949, col: 1, offset: 62714},
+			pos:  position{line: 1949, col: 1, offset: 62776},
 			expr: &choiceExpr{
-				pos: position{line: 1951, col: 5, offset: 62775},
+				pos: position{line: 1951, col: 5, offset: 62837},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1951, col: 5, offset: 62775},
+						pos: position{line: 1951, col: 5, offset: 62837},
 						run: (*parser).callonEscapedBoldText2,
 						expr: &seqExpr{
-							pos: position{line: 1951, col: 5, offset: 62775},
+							pos: position{line: 1951, col: 5, offset: 62837},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1951, col: 5, offset: 62775},
+									pos:   position{line: 1951, col: 5, offset: 62837},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1857, col: 25, offset: 60122},
+										pos: position{line: 1857, col: 25, offset: 60184},
 										run: (*parser).callonEscapedBoldText5,
 										expr: &seqExpr{
-											pos: position{line: 1857, col: 25, offset: 60122},
+											pos: position{line: 1857, col: 25, offset: 60184},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1857, col: 25, offset: 60122},
+													pos:        position{line: 1857, col: 25, offset: 60184},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1857, col: 30, offset: 60127},
+													pos: position{line: 1857, col: 30, offset: 60189},
 													expr: &litMatcher{
-														pos:        position{line: 1857, col: 30, offset: 60127},
+														pos:        position{line: 1857, col: 30, offset: 60189},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -41769,21 +41769,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1951, col: 40, offset: 62810},
+									pos:        position{line: 1951, col: 40, offset: 62872},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1951, col: 45, offset: 62815},
+									pos:   position{line: 1951, col: 45, offset: 62877},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1951, col: 55, offset: 62825},
+										pos:  position{line: 1951, col: 55, offset: 62887},
 										name: "DoubleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1951, col: 84, offset: 62854},
+									pos:        position{line: 1951, col: 84, offset: 62916},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
@@ -41792,21 +41792,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1955, col: 7, offset: 63018},
+						pos: position{line: 1955, col: 7, offset: 63080},
 						run: (*parser).callonEscapedBoldText14,
 						expr: &seqExpr{
-							pos: position{line: 1955, col: 7, offset: 63018},
+							pos: position{line: 1955, col: 7, offset: 63080},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1955, col: 7, offset: 63018},
+									pos:   position{line: 1955, col: 7, offset: 63080},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1853, col: 25, offset: 60049},
+										pos: position{line: 1853, col: 25, offset: 60111},
 										run: (*parser).callonEscapedBoldText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1853, col: 25, offset: 60049},
+											pos: position{line: 1853, col: 25, offset: 60111},
 											expr: &litMatcher{
-												pos:        position{line: 1853, col: 25, offset: 60049},
+												pos:        position{line: 1853, col: 25, offset: 60111},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41815,21 +41815,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1955, col: 42, offset: 63053},
+									pos:        position{line: 1955, col: 42, offset: 63115},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1955, col: 47, offset: 63058},
+									pos:   position{line: 1955, col: 47, offset: 63120},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1955, col: 57, offset: 63068},
+										pos:  position{line: 1955, col: 57, offset: 63130},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1955, col: 86, offset: 63097},
+									pos:        position{line: 1955, col: 86, offset: 63159},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41838,21 +41838,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1960, col: 7, offset: 63299},
+						pos: position{line: 1960, col: 7, offset: 63361},
 						run: (*parser).callonEscapedBoldText24,
 						expr: &seqExpr{
-							pos: position{line: 1960, col: 7, offset: 63299},
+							pos: position{line: 1960, col: 7, offset: 63361},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1960, col: 7, offset: 63299},
+									pos:   position{line: 1960, col: 7, offset: 63361},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1853, col: 25, offset: 60049},
+										pos: position{line: 1853, col: 25, offset: 60111},
 										run: (*parser).callonEscapedBoldText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1853, col: 25, offset: 60049},
+											pos: position{line: 1853, col: 25, offset: 60111},
 											expr: &litMatcher{
-												pos:        position{line: 1853, col: 25, offset: 60049},
+												pos:        position{line: 1853, col: 25, offset: 60111},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41861,21 +41861,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1960, col: 42, offset: 63334},
+									pos:        position{line: 1960, col: 42, offset: 63396},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1960, col: 46, offset: 63338},
+									pos:   position{line: 1960, col: 46, offset: 63400},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1960, col: 56, offset: 63348},
+										pos:  position{line: 1960, col: 56, offset: 63410},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1960, col: 85, offset: 63377},
+									pos:        position{line: 1960, col: 85, offset: 63439},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41888,29 +41888,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicText",
-			pos:  position{line: 1977, col: 1, offset: 63857},
+			pos:  position{line: 1977, col: 1, offset: 63919},
 			expr: &actionExpr{
-				pos: position{line: 1978, col: 5, offset: 63887},
+				pos: position{line: 1978, col: 5, offset: 63949},
 				run: (*parser).callonDoubleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 1978, col: 5, offset: 63887},
+					pos: position{line: 1978, col: 5, offset: 63949},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1973, col: 40, offset: 63808},
+							pos:        position{line: 1973, col: 40, offset: 63870},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1979, col: 5, offset: 63928},
+							pos:   position{line: 1979, col: 5, offset: 63990},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1979, col: 15, offset: 63938},
+								pos:  position{line: 1979, col: 15, offset: 64000},
 								name: "DoubleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1975, col: 38, offset: 63851},
+							pos:        position{line: 1975, col: 38, offset: 63913},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
@@ -41921,44 +41921,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElements",
-			pos:  position{line: 1984, col: 1, offset: 64103},
+			pos:  position{line: 1984, col: 1, offset: 64165},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1984, col: 34, offset: 64136},
+				pos: position{line: 1984, col: 34, offset: 64198},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1984, col: 34, offset: 64136},
+					pos:  position{line: 1984, col: 34, offset: 64198},
 					name: "DoubleQuoteItalicTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteItalicTextElement",
-			pos:  position{line: 1986, col: 1, offset: 64168},
+			pos:  position{line: 1986, col: 1, offset: 64230},
 			expr: &actionExpr{
-				pos: position{line: 1987, col: 5, offset: 64205},
+				pos: position{line: 1987, col: 5, offset: 64267},
 				run: (*parser).callonDoubleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1987, col: 5, offset: 64205},
+					pos: position{line: 1987, col: 5, offset: 64267},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2894, col: 11, offset: 91495},
+							pos: position{line: 2894, col: 11, offset: 91557},
 							expr: &anyMatcher{
-								line: 2894, col: 13, offset: 91497,
+								line: 2894, col: 13, offset: 91559,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1988, col: 5, offset: 64216},
+							pos: position{line: 1988, col: 5, offset: 64278},
 							expr: &litMatcher{
-								pos:        position{line: 1975, col: 38, offset: 63851},
+								pos:        position{line: 1975, col: 38, offset: 63913},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1989, col: 5, offset: 64255},
+							pos:   position{line: 1989, col: 5, offset: 64317},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1989, col: 14, offset: 64264},
+								pos:  position{line: 1989, col: 14, offset: 64326},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41968,29 +41968,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicText",
-			pos:  position{line: 2015, col: 1, offset: 64948},
+			pos:  position{line: 2015, col: 1, offset: 65010},
 			expr: &actionExpr{
-				pos: position{line: 2016, col: 5, offset: 64978},
+				pos: position{line: 2016, col: 5, offset: 65040},
 				run: (*parser).callonSingleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2016, col: 5, offset: 64978},
+					pos: position{line: 2016, col: 5, offset: 65040},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1998, col: 5, offset: 64506},
+							pos:        position{line: 1998, col: 5, offset: 64568},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1999, col: 5, offset: 64515},
+							pos: position{line: 1999, col: 5, offset: 64577},
 							run: (*parser).callonSingleQuoteItalicText4,
 						},
 						&andExpr{
-							pos: position{line: 2003, col: 5, offset: 64635},
+							pos: position{line: 2003, col: 5, offset: 64697},
 							expr: &notExpr{
-								pos: position{line: 2003, col: 7, offset: 64637},
+								pos: position{line: 2003, col: 7, offset: 64699},
 								expr: &litMatcher{
-									pos:        position{line: 2003, col: 8, offset: 64638},
+									pos:        position{line: 2003, col: 8, offset: 64700},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -41998,38 +41998,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2017, col: 5, offset: 65018},
+							pos:   position{line: 2017, col: 5, offset: 65080},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2017, col: 15, offset: 65028},
+								pos:  position{line: 2017, col: 15, offset: 65090},
 								name: "SingleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2007, col: 5, offset: 64748},
+							pos:        position{line: 2007, col: 5, offset: 64810},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&notExpr{
-							pos: position{line: 2008, col: 5, offset: 64757},
+							pos: position{line: 2008, col: 5, offset: 64819},
 							expr: &litMatcher{
-								pos:        position{line: 2008, col: 6, offset: 64758},
+								pos:        position{line: 2008, col: 6, offset: 64820},
 								val:        "_",
 								ignoreCase: false,
 								want:       "\"_\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2009, col: 5, offset: 64823},
+							pos: position{line: 2009, col: 5, offset: 64885},
 							run: (*parser).callonSingleQuoteItalicText13,
 						},
 						&andExpr{
-							pos: position{line: 2013, col: 5, offset: 64934},
+							pos: position{line: 2013, col: 5, offset: 64996},
 							expr: &notExpr{
-								pos: position{line: 2013, col: 7, offset: 64936},
+								pos: position{line: 2013, col: 7, offset: 64998},
 								expr: &charClassMatcher{
-									pos:        position{line: 2767, col: 13, offset: 88235},
+									pos:        position{line: 2767, col: 13, offset: 88297},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -42043,20 +42043,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElements",
-			pos:  position{line: 2022, col: 1, offset: 65195},
+			pos:  position{line: 2022, col: 1, offset: 65257},
 			expr: &actionExpr{
-				pos: position{line: 2023, col: 5, offset: 65233},
+				pos: position{line: 2023, col: 5, offset: 65295},
 				run: (*parser).callonSingleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2023, col: 5, offset: 65233},
+					pos: position{line: 2023, col: 5, offset: 65295},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2023, col: 5, offset: 65233},
+							pos: position{line: 2023, col: 5, offset: 65295},
 							expr: &actionExpr{
-								pos: position{line: 2877, col: 10, offset: 91161},
+								pos: position{line: 2877, col: 10, offset: 91223},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2877, col: 10, offset: 91161},
+									pos:        position{line: 2877, col: 10, offset: 91223},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42065,18 +42065,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2024, col: 5, offset: 65272},
+							pos:   position{line: 2024, col: 5, offset: 65334},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2024, col: 14, offset: 65281},
+								pos: position{line: 2024, col: 14, offset: 65343},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2024, col: 15, offset: 65282},
+									pos:  position{line: 2024, col: 15, offset: 65344},
 									name: "SingleQuoteItalicTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2025, col: 5, offset: 65317},
+							pos: position{line: 2025, col: 5, offset: 65379},
 							run: (*parser).callonSingleQuoteItalicTextElements9,
 						},
 					},
@@ -42085,49 +42085,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElement",
-			pos:  position{line: 2031, col: 1, offset: 65458},
+			pos:  position{line: 2031, col: 1, offset: 65520},
 			expr: &actionExpr{
-				pos: position{line: 2032, col: 5, offset: 65495},
+				pos: position{line: 2032, col: 5, offset: 65557},
 				run: (*parser).callonSingleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2032, col: 5, offset: 65495},
+					pos: position{line: 2032, col: 5, offset: 65557},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2894, col: 11, offset: 91495},
+							pos: position{line: 2894, col: 11, offset: 91557},
 							expr: &anyMatcher{
-								line: 2894, col: 13, offset: 91497,
+								line: 2894, col: 13, offset: 91559,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2033, col: 5, offset: 65506},
+							pos: position{line: 2033, col: 5, offset: 65568},
 							expr: &seqExpr{
-								pos: position{line: 2007, col: 5, offset: 64748},
+								pos: position{line: 2007, col: 5, offset: 64810},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2007, col: 5, offset: 64748},
+										pos:        position{line: 2007, col: 5, offset: 64810},
 										val:        "_",
 										ignoreCase: false,
 										want:       "\"_\"",
 									},
 									&notExpr{
-										pos: position{line: 2008, col: 5, offset: 64757},
+										pos: position{line: 2008, col: 5, offset: 64819},
 										expr: &litMatcher{
-											pos:        position{line: 2008, col: 6, offset: 64758},
+											pos:        position{line: 2008, col: 6, offset: 64820},
 											val:        "_",
 											ignoreCase: false,
 											want:       "\"_\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2009, col: 5, offset: 64823},
+										pos: position{line: 2009, col: 5, offset: 64885},
 										run: (*parser).callonSingleQuoteItalicTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2013, col: 5, offset: 64934},
+										pos: position{line: 2013, col: 5, offset: 64996},
 										expr: &notExpr{
-											pos: position{line: 2013, col: 7, offset: 64936},
+											pos: position{line: 2013, col: 7, offset: 64998},
 											expr: &charClassMatcher{
-												pos:        position{line: 2767, col: 13, offset: 88235},
+												pos:        position{line: 2767, col: 13, offset: 88297},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42139,10 +42139,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2034, col: 5, offset: 65545},
+							pos:   position{line: 2034, col: 5, offset: 65607},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2034, col: 14, offset: 65554},
+								pos:  position{line: 2034, col: 14, offset: 65616},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42152,35 +42152,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedItalicText",
-			pos:  position{line: 2039, col: 1, offset: 65642},
+			pos:  position{line: 2039, col: 1, offset: 65704},
 			expr: &choiceExpr{
-				pos: position{line: 2041, col: 5, offset: 65707},
+				pos: position{line: 2041, col: 5, offset: 65769},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2041, col: 5, offset: 65707},
+						pos: position{line: 2041, col: 5, offset: 65769},
 						run: (*parser).callonEscapedItalicText2,
 						expr: &seqExpr{
-							pos: position{line: 2041, col: 5, offset: 65707},
+							pos: position{line: 2041, col: 5, offset: 65769},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2041, col: 5, offset: 65707},
+									pos:   position{line: 2041, col: 5, offset: 65769},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1857, col: 25, offset: 60122},
+										pos: position{line: 1857, col: 25, offset: 60184},
 										run: (*parser).callonEscapedItalicText5,
 										expr: &seqExpr{
-											pos: position{line: 1857, col: 25, offset: 60122},
+											pos: position{line: 1857, col: 25, offset: 60184},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1857, col: 25, offset: 60122},
+													pos:        position{line: 1857, col: 25, offset: 60184},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1857, col: 30, offset: 60127},
+													pos: position{line: 1857, col: 30, offset: 60189},
 													expr: &litMatcher{
-														pos:        position{line: 1857, col: 30, offset: 60127},
+														pos:        position{line: 1857, col: 30, offset: 60189},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42191,21 +42191,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2041, col: 40, offset: 65742},
+									pos:        position{line: 2041, col: 40, offset: 65804},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2041, col: 45, offset: 65747},
+									pos:   position{line: 2041, col: 45, offset: 65809},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2041, col: 55, offset: 65757},
+										pos:  position{line: 2041, col: 55, offset: 65819},
 										name: "DoubleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2041, col: 86, offset: 65788},
+									pos:        position{line: 2041, col: 86, offset: 65850},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
@@ -42214,21 +42214,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2045, col: 7, offset: 65953},
+						pos: position{line: 2045, col: 7, offset: 66015},
 						run: (*parser).callonEscapedItalicText14,
 						expr: &seqExpr{
-							pos: position{line: 2045, col: 7, offset: 65953},
+							pos: position{line: 2045, col: 7, offset: 66015},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2045, col: 7, offset: 65953},
+									pos:   position{line: 2045, col: 7, offset: 66015},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1853, col: 25, offset: 60049},
+										pos: position{line: 1853, col: 25, offset: 60111},
 										run: (*parser).callonEscapedItalicText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1853, col: 25, offset: 60049},
+											pos: position{line: 1853, col: 25, offset: 60111},
 											expr: &litMatcher{
-												pos:        position{line: 1853, col: 25, offset: 60049},
+												pos:        position{line: 1853, col: 25, offset: 60111},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42237,21 +42237,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2045, col: 42, offset: 65988},
+									pos:        position{line: 2045, col: 42, offset: 66050},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2045, col: 47, offset: 65993},
+									pos:   position{line: 2045, col: 47, offset: 66055},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2045, col: 57, offset: 66003},
+										pos:  position{line: 2045, col: 57, offset: 66065},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2045, col: 88, offset: 66034},
+									pos:        position{line: 2045, col: 88, offset: 66096},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -42260,21 +42260,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2050, col: 7, offset: 66275},
+						pos: position{line: 2050, col: 7, offset: 66337},
 						run: (*parser).callonEscapedItalicText24,
 						expr: &seqExpr{
-							pos: position{line: 2050, col: 7, offset: 66275},
+							pos: position{line: 2050, col: 7, offset: 66337},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2050, col: 7, offset: 66275},
+									pos:   position{line: 2050, col: 7, offset: 66337},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1853, col: 25, offset: 60049},
+										pos: position{line: 1853, col: 25, offset: 60111},
 										run: (*parser).callonEscapedItalicText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1853, col: 25, offset: 60049},
+											pos: position{line: 1853, col: 25, offset: 60111},
 											expr: &litMatcher{
-												pos:        position{line: 1853, col: 25, offset: 60049},
+												pos:        position{line: 1853, col: 25, offset: 60111},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42283,21 +42283,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2050, col: 42, offset: 66310},
+									pos:        position{line: 2050, col: 42, offset: 66372},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2050, col: 46, offset: 66314},
+									pos:   position{line: 2050, col: 46, offset: 66376},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2050, col: 56, offset: 66324},
+										pos:  position{line: 2050, col: 56, offset: 66386},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2050, col: 87, offset: 66355},
+									pos:        position{line: 2050, col: 87, offset: 66417},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -42310,29 +42310,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceText",
-			pos:  position{line: 2067, col: 1, offset: 66919},
+			pos:  position{line: 2067, col: 1, offset: 66981},
 			expr: &actionExpr{
-				pos: position{line: 2068, col: 5, offset: 66952},
+				pos: position{line: 2068, col: 5, offset: 67014},
 				run: (*parser).callonDoubleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2068, col: 5, offset: 66952},
+					pos: position{line: 2068, col: 5, offset: 67014},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2063, col: 43, offset: 66867},
+							pos:        position{line: 2063, col: 43, offset: 66929},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2069, col: 5, offset: 66996},
+							pos:   position{line: 2069, col: 5, offset: 67058},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2069, col: 15, offset: 67006},
+								pos:  position{line: 2069, col: 15, offset: 67068},
 								name: "DoubleQuoteMonospaceTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2065, col: 41, offset: 66913},
+							pos:        position{line: 2065, col: 41, offset: 66975},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
@@ -42343,44 +42343,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElements",
-			pos:  position{line: 2074, col: 1, offset: 67181},
+			pos:  position{line: 2074, col: 1, offset: 67243},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 2074, col: 37, offset: 67217},
+				pos: position{line: 2074, col: 37, offset: 67279},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2074, col: 37, offset: 67217},
+					pos:  position{line: 2074, col: 37, offset: 67279},
 					name: "DoubleQuoteMonospaceTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElement",
-			pos:  position{line: 2076, col: 1, offset: 67284},
+			pos:  position{line: 2076, col: 1, offset: 67346},
 			expr: &actionExpr{
-				pos: position{line: 2077, col: 5, offset: 67324},
+				pos: position{line: 2077, col: 5, offset: 67386},
 				run: (*parser).callonDoubleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2077, col: 5, offset: 67324},
+					pos: position{line: 2077, col: 5, offset: 67386},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2894, col: 11, offset: 91495},
+							pos: position{line: 2894, col: 11, offset: 91557},
 							expr: &anyMatcher{
-								line: 2894, col: 13, offset: 91497,
+								line: 2894, col: 13, offset: 91559,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2078, col: 5, offset: 67335},
+							pos: position{line: 2078, col: 5, offset: 67397},
 							expr: &litMatcher{
-								pos:        position{line: 2065, col: 41, offset: 66913},
+								pos:        position{line: 2065, col: 41, offset: 66975},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2079, col: 5, offset: 67377},
+							pos:   position{line: 2079, col: 5, offset: 67439},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2079, col: 14, offset: 67386},
+								pos:  position{line: 2079, col: 14, offset: 67448},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42390,33 +42390,33 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextEndDelimiter",
-			pos:  position{line: 2097, col: 1, offset: 67928},
+			pos:  position{line: 2097, col: 1, offset: 67990},
 			expr: &seqExpr{
-				pos: position{line: 2098, col: 5, offset: 67973},
+				pos: position{line: 2098, col: 5, offset: 68035},
 				exprs: []interface{}{
 					&notExpr{
-						pos: position{line: 2098, col: 5, offset: 67973},
+						pos: position{line: 2098, col: 5, offset: 68035},
 						expr: &ruleRefExpr{
-							pos:  position{line: 2098, col: 6, offset: 67974},
+							pos:  position{line: 2098, col: 6, offset: 68036},
 							name: "QuotationMark",
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 2099, col: 5, offset: 67993},
+						pos:        position{line: 2099, col: 5, offset: 68055},
 						val:        "`",
 						ignoreCase: false,
 						want:       "\"`\"",
 					},
 					&andCodeExpr{
-						pos: position{line: 2100, col: 5, offset: 68001},
+						pos: position{line: 2100, col: 5, offset: 68063},
 						run: (*parser).callonSingleQuoteMonospaceTextEndDelimiter5,
 					},
 					&andExpr{
-						pos: position{line: 2104, col: 5, offset: 68115},
+						pos: position{line: 2104, col: 5, offset: 68177},
 						expr: &notExpr{
-							pos: position{line: 2104, col: 7, offset: 68117},
+							pos: position{line: 2104, col: 7, offset: 68179},
 							expr: &charClassMatcher{
-								pos:        position{line: 2767, col: 13, offset: 88235},
+								pos:        position{line: 2767, col: 13, offset: 88297},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -42429,29 +42429,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceText",
-			pos:  position{line: 2107, col: 1, offset: 68134},
+			pos:  position{line: 2107, col: 1, offset: 68196},
 			expr: &actionExpr{
-				pos: position{line: 2108, col: 5, offset: 68167},
+				pos: position{line: 2108, col: 5, offset: 68229},
 				run: (*parser).callonSingleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2108, col: 5, offset: 68167},
+					pos: position{line: 2108, col: 5, offset: 68229},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2090, col: 5, offset: 67730},
+							pos:        position{line: 2090, col: 5, offset: 67792},
 							val:        "`",
 							ignoreCase: false,
 							want:       "\"`\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2091, col: 5, offset: 67739},
+							pos: position{line: 2091, col: 5, offset: 67801},
 							run: (*parser).callonSingleQuoteMonospaceText4,
 						},
 						&andExpr{
-							pos: position{line: 2095, col: 5, offset: 67862},
+							pos: position{line: 2095, col: 5, offset: 67924},
 							expr: &notExpr{
-								pos: position{line: 2095, col: 7, offset: 67864},
+								pos: position{line: 2095, col: 7, offset: 67926},
 								expr: &litMatcher{
-									pos:        position{line: 2095, col: 8, offset: 67865},
+									pos:        position{line: 2095, col: 8, offset: 67927},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42459,15 +42459,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2109, col: 5, offset: 68211},
+							pos:   position{line: 2109, col: 5, offset: 68273},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2109, col: 15, offset: 68221},
+								pos:  position{line: 2109, col: 15, offset: 68283},
 								name: "SingleQuoteMonospaceTextElements",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 2110, col: 5, offset: 68260},
+							pos:  position{line: 2110, col: 5, offset: 68322},
 							name: "SingleQuoteMonospaceTextEndDelimiter",
 						},
 					},
@@ -42476,20 +42476,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElements",
-			pos:  position{line: 2114, col: 1, offset: 68397},
+			pos:  position{line: 2114, col: 1, offset: 68459},
 			expr: &actionExpr{
-				pos: position{line: 2115, col: 5, offset: 68438},
+				pos: position{line: 2115, col: 5, offset: 68500},
 				run: (*parser).callonSingleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2115, col: 5, offset: 68438},
+					pos: position{line: 2115, col: 5, offset: 68500},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2115, col: 5, offset: 68438},
+							pos: position{line: 2115, col: 5, offset: 68500},
 							expr: &actionExpr{
-								pos: position{line: 2877, col: 10, offset: 91161},
+								pos: position{line: 2877, col: 10, offset: 91223},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2877, col: 10, offset: 91161},
+									pos:        position{line: 2877, col: 10, offset: 91223},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42498,18 +42498,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2116, col: 5, offset: 68477},
+							pos:   position{line: 2116, col: 5, offset: 68539},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2116, col: 14, offset: 68486},
+								pos: position{line: 2116, col: 14, offset: 68548},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2116, col: 15, offset: 68487},
+									pos:  position{line: 2116, col: 15, offset: 68549},
 									name: "SingleQuoteMonospaceTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2117, col: 5, offset: 68525},
+							pos: position{line: 2117, col: 5, offset: 68587},
 							run: (*parser).callonSingleQuoteMonospaceTextElements9,
 						},
 					},
@@ -42518,31 +42518,31 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElement",
-			pos:  position{line: 2123, col: 1, offset: 68666},
+			pos:  position{line: 2123, col: 1, offset: 68728},
 			expr: &actionExpr{
-				pos: position{line: 2124, col: 5, offset: 68706},
+				pos: position{line: 2124, col: 5, offset: 68768},
 				run: (*parser).callonSingleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2124, col: 5, offset: 68706},
+					pos: position{line: 2124, col: 5, offset: 68768},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2894, col: 11, offset: 91495},
+							pos: position{line: 2894, col: 11, offset: 91557},
 							expr: &anyMatcher{
-								line: 2894, col: 13, offset: 91497,
+								line: 2894, col: 13, offset: 91559,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2125, col: 5, offset: 68717},
+							pos: position{line: 2125, col: 5, offset: 68779},
 							expr: &ruleRefExpr{
-								pos:  position{line: 2125, col: 6, offset: 68718},
+								pos:  position{line: 2125, col: 6, offset: 68780},
 								name: "SingleQuoteMonospaceTextEndDelimiter",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2126, col: 5, offset: 68759},
+							pos:   position{line: 2126, col: 5, offset: 68821},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2126, col: 14, offset: 68768},
+								pos:  position{line: 2126, col: 14, offset: 68830},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42552,35 +42552,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMonospaceText",
-			pos:  position{line: 2131, col: 1, offset: 68856},
+			pos:  position{line: 2131, col: 1, offset: 68918},
 			expr: &choiceExpr{
-				pos: position{line: 2133, col: 5, offset: 68927},
+				pos: position{line: 2133, col: 5, offset: 68989},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2133, col: 5, offset: 68927},
+						pos: position{line: 2133, col: 5, offset: 68989},
 						run: (*parser).callonEscapedMonospaceText2,
 						expr: &seqExpr{
-							pos: position{line: 2133, col: 5, offset: 68927},
+							pos: position{line: 2133, col: 5, offset: 68989},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2133, col: 5, offset: 68927},
+									pos:   position{line: 2133, col: 5, offset: 68989},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1857, col: 25, offset: 60122},
+										pos: position{line: 1857, col: 25, offset: 60184},
 										run: (*parser).callonEscapedMonospaceText5,
 										expr: &seqExpr{
-											pos: position{line: 1857, col: 25, offset: 60122},
+											pos: position{line: 1857, col: 25, offset: 60184},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1857, col: 25, offset: 60122},
+													pos:        position{line: 1857, col: 25, offset: 60184},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1857, col: 30, offset: 60127},
+													pos: position{line: 1857, col: 30, offset: 60189},
 													expr: &litMatcher{
-														pos:        position{line: 1857, col: 30, offset: 60127},
+														pos:        position{line: 1857, col: 30, offset: 60189},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42591,21 +42591,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2133, col: 40, offset: 68962},
+									pos:        position{line: 2133, col: 40, offset: 69024},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2133, col: 45, offset: 68967},
+									pos:   position{line: 2133, col: 45, offset: 69029},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2133, col: 55, offset: 68977},
+										pos:  position{line: 2133, col: 55, offset: 69039},
 										name: "DoubleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2133, col: 89, offset: 69011},
+									pos:        position{line: 2133, col: 89, offset: 69073},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
@@ -42614,21 +42614,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2137, col: 7, offset: 69180},
+						pos: position{line: 2137, col: 7, offset: 69242},
 						run: (*parser).callonEscapedMonospaceText14,
 						expr: &seqExpr{
-							pos: position{line: 2137, col: 7, offset: 69180},
+							pos: position{line: 2137, col: 7, offset: 69242},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2137, col: 7, offset: 69180},
+									pos:   position{line: 2137, col: 7, offset: 69242},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1853, col: 25, offset: 60049},
+										pos: position{line: 1853, col: 25, offset: 60111},
 										run: (*parser).callonEscapedMonospaceText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1853, col: 25, offset: 60049},
+											pos: position{line: 1853, col: 25, offset: 60111},
 											expr: &litMatcher{
-												pos:        position{line: 1853, col: 25, offset: 60049},
+												pos:        position{line: 1853, col: 25, offset: 60111},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42637,21 +42637,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2137, col: 42, offset: 69215},
+									pos:        position{line: 2137, col: 42, offset: 69277},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2137, col: 47, offset: 69220},
+									pos:   position{line: 2137, col: 47, offset: 69282},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2137, col: 57, offset: 69230},
+										pos:  position{line: 2137, col: 57, offset: 69292},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2137, col: 91, offset: 69264},
+									pos:        position{line: 2137, col: 91, offset: 69326},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42660,21 +42660,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2142, col: 7, offset: 69470},
+						pos: position{line: 2142, col: 7, offset: 69532},
 						run: (*parser).callonEscapedMonospaceText24,
 						expr: &seqExpr{
-							pos: position{line: 2142, col: 7, offset: 69470},
+							pos: position{line: 2142, col: 7, offset: 69532},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2142, col: 7, offset: 69470},
+									pos:   position{line: 2142, col: 7, offset: 69532},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1853, col: 25, offset: 60049},
+										pos: position{line: 1853, col: 25, offset: 60111},
 										run: (*parser).callonEscapedMonospaceText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1853, col: 25, offset: 60049},
+											pos: position{line: 1853, col: 25, offset: 60111},
 											expr: &litMatcher{
-												pos:        position{line: 1853, col: 25, offset: 60049},
+												pos:        position{line: 1853, col: 25, offset: 60111},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42683,21 +42683,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2142, col: 42, offset: 69505},
+									pos:        position{line: 2142, col: 42, offset: 69567},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2142, col: 46, offset: 69509},
+									pos:   position{line: 2142, col: 46, offset: 69571},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2142, col: 56, offset: 69519},
+										pos:  position{line: 2142, col: 56, offset: 69581},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2142, col: 90, offset: 69553},
+									pos:        position{line: 2142, col: 90, offset: 69615},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42710,29 +42710,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedText",
-			pos:  position{line: 2159, col: 1, offset: 70038},
+			pos:  position{line: 2159, col: 1, offset: 70100},
 			expr: &actionExpr{
-				pos: position{line: 2160, col: 5, offset: 70068},
+				pos: position{line: 2160, col: 5, offset: 70130},
 				run: (*parser).callonDoubleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2160, col: 5, offset: 70068},
+					pos: position{line: 2160, col: 5, offset: 70130},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2155, col: 40, offset: 69989},
+							pos:        position{line: 2155, col: 40, offset: 70051},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2161, col: 5, offset: 70109},
+							pos:   position{line: 2161, col: 5, offset: 70171},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2161, col: 15, offset: 70119},
+								pos:  position{line: 2161, col: 15, offset: 70181},
 								name: "DoubleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2157, col: 38, offset: 70032},
+							pos:        position{line: 2157, col: 38, offset: 70094},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
@@ -42743,44 +42743,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElements",
-			pos:  position{line: 2166, col: 1, offset: 70285},
+			pos:  position{line: 2166, col: 1, offset: 70347},
 			expr: &zeroOrMoreExpr{
-				pos: position{line: 2166, col: 34, offset: 70318},
+				pos: position{line: 2166, col: 34, offset: 70380},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2166, col: 34, offset: 70318},
+					pos:  position{line: 2166, col: 34, offset: 70380},
 					name: "DoubleQuoteMarkedTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMarkedTextElement",
-			pos:  position{line: 2168, col: 1, offset: 70349},
+			pos:  position{line: 2168, col: 1, offset: 70411},
 			expr: &actionExpr{
-				pos: position{line: 2169, col: 5, offset: 70418},
+				pos: position{line: 2169, col: 5, offset: 70480},
 				run: (*parser).callonDoubleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2169, col: 5, offset: 70418},
+					pos: position{line: 2169, col: 5, offset: 70480},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2894, col: 11, offset: 91495},
+							pos: position{line: 2894, col: 11, offset: 91557},
 							expr: &anyMatcher{
-								line: 2894, col: 13, offset: 91497,
+								line: 2894, col: 13, offset: 91559,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2170, col: 5, offset: 70429},
+							pos: position{line: 2170, col: 5, offset: 70491},
 							expr: &litMatcher{
-								pos:        position{line: 2157, col: 38, offset: 70032},
+								pos:        position{line: 2157, col: 38, offset: 70094},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2171, col: 5, offset: 70468},
+							pos:   position{line: 2171, col: 5, offset: 70530},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2171, col: 14, offset: 70477},
+								pos:  position{line: 2171, col: 14, offset: 70539},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42790,29 +42790,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedText",
-			pos:  position{line: 2196, col: 1, offset: 71159},
+			pos:  position{line: 2196, col: 1, offset: 71221},
 			expr: &actionExpr{
-				pos: position{line: 2197, col: 5, offset: 71189},
+				pos: position{line: 2197, col: 5, offset: 71251},
 				run: (*parser).callonSingleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2197, col: 5, offset: 71189},
+					pos: position{line: 2197, col: 5, offset: 71251},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2180, col: 5, offset: 70725},
+							pos:        position{line: 2180, col: 5, offset: 70787},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2181, col: 5, offset: 70734},
+							pos: position{line: 2181, col: 5, offset: 70796},
 							run: (*parser).callonSingleQuoteMarkedText4,
 						},
 						&andExpr{
-							pos: position{line: 2185, col: 5, offset: 70854},
+							pos: position{line: 2185, col: 5, offset: 70916},
 							expr: &notExpr{
-								pos: position{line: 2185, col: 7, offset: 70856},
+								pos: position{line: 2185, col: 7, offset: 70918},
 								expr: &litMatcher{
-									pos:        position{line: 2185, col: 8, offset: 70857},
+									pos:        position{line: 2185, col: 8, offset: 70919},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -42820,38 +42820,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2198, col: 5, offset: 71229},
+							pos:   position{line: 2198, col: 5, offset: 71291},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2198, col: 15, offset: 71239},
+								pos:  position{line: 2198, col: 15, offset: 71301},
 								name: "SingleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2188, col: 5, offset: 70962},
+							pos:        position{line: 2188, col: 5, offset: 71024},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&notExpr{
-							pos: position{line: 2189, col: 5, offset: 70970},
+							pos: position{line: 2189, col: 5, offset: 71032},
 							expr: &litMatcher{
-								pos:        position{line: 2189, col: 6, offset: 70971},
+								pos:        position{line: 2189, col: 6, offset: 71033},
 								val:        "#",
 								ignoreCase: false,
 								want:       "\"#\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2190, col: 5, offset: 71034},
+							pos: position{line: 2190, col: 5, offset: 71096},
 							run: (*parser).callonSingleQuoteMarkedText13,
 						},
 						&andExpr{
-							pos: position{line: 2194, col: 5, offset: 71145},
+							pos: position{line: 2194, col: 5, offset: 71207},
 							expr: &notExpr{
-								pos: position{line: 2194, col: 7, offset: 71147},
+								pos: position{line: 2194, col: 7, offset: 71209},
 								expr: &charClassMatcher{
-									pos:        position{line: 2767, col: 13, offset: 88235},
+									pos:        position{line: 2767, col: 13, offset: 88297},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -42865,20 +42865,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElements",
-			pos:  position{line: 2203, col: 1, offset: 71406},
+			pos:  position{line: 2203, col: 1, offset: 71468},
 			expr: &actionExpr{
-				pos: position{line: 2204, col: 5, offset: 71444},
+				pos: position{line: 2204, col: 5, offset: 71506},
 				run: (*parser).callonSingleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2204, col: 5, offset: 71444},
+					pos: position{line: 2204, col: 5, offset: 71506},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2204, col: 5, offset: 71444},
+							pos: position{line: 2204, col: 5, offset: 71506},
 							expr: &actionExpr{
-								pos: position{line: 2877, col: 10, offset: 91161},
+								pos: position{line: 2877, col: 10, offset: 91223},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2877, col: 10, offset: 91161},
+									pos:        position{line: 2877, col: 10, offset: 91223},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42887,18 +42887,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2205, col: 5, offset: 71483},
+							pos:   position{line: 2205, col: 5, offset: 71545},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2205, col: 14, offset: 71492},
+								pos: position{line: 2205, col: 14, offset: 71554},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2205, col: 15, offset: 71493},
+									pos:  position{line: 2205, col: 15, offset: 71555},
 									name: "SingleQuoteMarkedTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2206, col: 5, offset: 71529},
+							pos: position{line: 2206, col: 5, offset: 71591},
 							run: (*parser).callonSingleQuoteMarkedTextElements9,
 						},
 					},
@@ -42907,49 +42907,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElement",
-			pos:  position{line: 2212, col: 1, offset: 71670},
+			pos:  position{line: 2212, col: 1, offset: 71732},
 			expr: &actionExpr{
-				pos: position{line: 2213, col: 5, offset: 71707},
+				pos: position{line: 2213, col: 5, offset: 71769},
 				run: (*parser).callonSingleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2213, col: 5, offset: 71707},
+					pos: position{line: 2213, col: 5, offset: 71769},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2894, col: 11, offset: 91495},
+							pos: position{line: 2894, col: 11, offset: 91557},
 							expr: &anyMatcher{
-								line: 2894, col: 13, offset: 91497,
+								line: 2894, col: 13, offset: 91559,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2214, col: 5, offset: 71718},
+							pos: position{line: 2214, col: 5, offset: 71780},
 							expr: &seqExpr{
-								pos: position{line: 2188, col: 5, offset: 70962},
+								pos: position{line: 2188, col: 5, offset: 71024},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2188, col: 5, offset: 70962},
+										pos:        position{line: 2188, col: 5, offset: 71024},
 										val:        "#",
 										ignoreCase: false,
 										want:       "\"#\"",
 									},
 									&notExpr{
-										pos: position{line: 2189, col: 5, offset: 70970},
+										pos: position{line: 2189, col: 5, offset: 71032},
 										expr: &litMatcher{
-											pos:        position{line: 2189, col: 6, offset: 70971},
+											pos:        position{line: 2189, col: 6, offset: 71033},
 											val:        "#",
 											ignoreCase: false,
 											want:       "\"#\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2190, col: 5, offset: 71034},
+										pos: position{line: 2190, col: 5, offset: 71096},
 										run: (*parser).callonSingleQuoteMarkedTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2194, col: 5, offset: 71145},
+										pos: position{line: 2194, col: 5, offset: 71207},
 										expr: &notExpr{
-											pos: position{line: 2194, col: 7, offset: 71147},
+											pos: position{line: 2194, col: 7, offset: 71209},
 											expr: &charClassMatcher{
-												pos:        position{line: 2767, col: 13, offset: 88235},
+												pos:        position{line: 2767, col: 13, offset: 88297},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42961,10 +42961,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2215, col: 5, offset: 71757},
+							pos:   position{line: 2215, col: 5, offset: 71819},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2215, col: 14, offset: 71766},
+								pos:  position{line: 2215, col: 14, offset: 71828},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42974,35 +42974,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMarkedText",
-			pos:  position{line: 2220, col: 1, offset: 71854},
+			pos:  position{line: 2220, col: 1, offset: 71916},
 			expr: &choiceExpr{
-				pos: position{line: 2222, col: 5, offset: 71918},
+				pos: position{line: 2222, col: 5, offset: 71980},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2222, col: 5, offset: 71918},
+						pos: position{line: 2222, col: 5, offset: 71980},
 						run: (*parser).callonEscapedMarkedText2,
 						expr: &seqExpr{
-							pos: position{line: 2222, col: 5, offset: 71918},
+							pos: position{line: 2222, col: 5, offset: 71980},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2222, col: 5, offset: 71918},
+									pos:   position{line: 2222, col: 5, offset: 71980},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1857, col: 25, offset: 60122},
+										pos: position{line: 1857, col: 25, offset: 60184},
 										run: (*parser).callonEscapedMarkedText5,
 										expr: &seqExpr{
-											pos: position{line: 1857, col: 25, offset: 60122},
+											pos: position{line: 1857, col: 25, offset: 60184},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1857, col: 25, offset: 60122},
+													pos:        position{line: 1857, col: 25, offset: 60184},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1857, col: 30, offset: 60127},
+													pos: position{line: 1857, col: 30, offset: 60189},
 													expr: &litMatcher{
-														pos:        position{line: 1857, col: 30, offset: 60127},
+														pos:        position{line: 1857, col: 30, offset: 60189},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -43013,21 +43013,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2222, col: 40, offset: 71953},
+									pos:        position{line: 2222, col: 40, offset: 72015},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2222, col: 45, offset: 71958},
+									pos:   position{line: 2222, col: 45, offset: 72020},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2222, col: 55, offset: 71968},
+										pos:  position{line: 2222, col: 55, offset: 72030},
 										name: "DoubleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2222, col: 86, offset: 71999},
+									pos:        position{line: 2222, col: 86, offset: 72061},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
@@ -43036,21 +43036,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2226, col: 7, offset: 72164},
+						pos: position{line: 2226, col: 7, offset: 72226},
 						run: (*parser).callonEscapedMarkedText14,
 						expr: &seqExpr{
-							pos: position{line: 2226, col: 7, offset: 72164},
+							pos: position{line: 2226, col: 7, offset: 72226},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2226, col: 7, offset: 72164},
+									pos:   position{line: 2226, col: 7, offset: 72226},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1853, col: 25, offset: 60049},
+										pos: position{line: 1853, col: 25, offset: 60111},
 										run: (*parser).callonEscapedMarkedText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1853, col: 25, offset: 60049},
+											pos: position{line: 1853, col: 25, offset: 60111},
 											expr: &litMatcher{
-												pos:        position{line: 1853, col: 25, offset: 60049},
+												pos:        position{line: 1853, col: 25, offset: 60111},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43059,21 +43059,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2226, col: 42, offset: 72199},
+									pos:        position{line: 2226, col: 42, offset: 72261},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2226, col: 47, offset: 72204},
+									pos:   position{line: 2226, col: 47, offset: 72266},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2226, col: 57, offset: 72214},
+										pos:  position{line: 2226, col: 57, offset: 72276},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2226, col: 88, offset: 72245},
+									pos:        position{line: 2226, col: 88, offset: 72307},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -43082,21 +43082,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2231, col: 7, offset: 72448},
+						pos: position{line: 2231, col: 7, offset: 72510},
 						run: (*parser).callonEscapedMarkedText24,
 						expr: &seqExpr{
-							pos: position{line: 2231, col: 7, offset: 72448},
+							pos: position{line: 2231, col: 7, offset: 72510},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2231, col: 7, offset: 72448},
+									pos:   position{line: 2231, col: 7, offset: 72510},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1853, col: 25, offset: 60049},
+										pos: position{line: 1853, col: 25, offset: 60111},
 										run: (*parser).callonEscapedMarkedText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1853, col: 25, offset: 60049},
+											pos: position{line: 1853, col: 25, offset: 60111},
 											expr: &litMatcher{
-												pos:        position{line: 1853, col: 25, offset: 60049},
+												pos:        position{line: 1853, col: 25, offset: 60111},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43105,21 +43105,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2231, col: 42, offset: 72483},
+									pos:        position{line: 2231, col: 42, offset: 72545},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2231, col: 46, offset: 72487},
+									pos:   position{line: 2231, col: 46, offset: 72549},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2231, col: 56, offset: 72497},
+										pos:  position{line: 2231, col: 56, offset: 72559},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2231, col: 87, offset: 72528},
+									pos:        position{line: 2231, col: 87, offset: 72590},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -43132,29 +43132,29 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptText",
-			pos:  position{line: 2238, col: 1, offset: 72795},
+			pos:  position{line: 2238, col: 1, offset: 72857},
 			expr: &actionExpr{
-				pos: position{line: 2239, col: 5, offset: 72817},
+				pos: position{line: 2239, col: 5, offset: 72879},
 				run: (*parser).callonSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2239, col: 5, offset: 72817},
+					pos: position{line: 2239, col: 5, offset: 72879},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2245, col: 27, offset: 73032},
+							pos:        position{line: 2245, col: 27, offset: 73094},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2240, col: 5, offset: 72844},
+							pos:   position{line: 2240, col: 5, offset: 72906},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2240, col: 14, offset: 72853},
+								pos:  position{line: 2240, col: 14, offset: 72915},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2245, col: 27, offset: 73032},
+							pos:        position{line: 2245, col: 27, offset: 73094},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -43165,43 +43165,43 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptTextElement",
-			pos:  position{line: 2247, col: 1, offset: 73037},
+			pos:  position{line: 2247, col: 1, offset: 73099},
 			expr: &choiceExpr{
-				pos: position{line: 2247, col: 25, offset: 73061},
+				pos: position{line: 2247, col: 25, offset: 73123},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2247, col: 25, offset: 73061},
+						pos:  position{line: 2247, col: 25, offset: 73123},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2249, col: 21, offset: 73113},
+						pos: position{line: 2249, col: 21, offset: 73175},
 						run: (*parser).callonSubscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2249, col: 21, offset: 73113},
+							pos:   position{line: 2249, col: 21, offset: 73175},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2249, col: 30, offset: 73122},
+								pos: position{line: 2249, col: 30, offset: 73184},
 								expr: &choiceExpr{
-									pos: position{line: 2249, col: 31, offset: 73123},
+									pos: position{line: 2249, col: 31, offset: 73185},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2471, col: 5, offset: 79593},
+											pos: position{line: 2471, col: 5, offset: 79655},
 											run: (*parser).callonSubscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2471, col: 5, offset: 79593},
+												pos: position{line: 2471, col: 5, offset: 79655},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2471, col: 5, offset: 79593},
+														pos: position{line: 2471, col: 5, offset: 79655},
 														run: (*parser).callonSubscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2474, col: 5, offset: 79669},
+														pos:   position{line: 2474, col: 5, offset: 79731},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2475, col: 9, offset: 79687},
+															pos: position{line: 2475, col: 9, offset: 79749},
 															run: (*parser).callonSubscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2475, col: 10, offset: 79688},
+																pos:        position{line: 2475, col: 10, offset: 79750},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -43213,7 +43213,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2249, col: 50, offset: 73142},
+											pos:        position{line: 2249, col: 50, offset: 73204},
 											val:        "[^\\r\\n ~]",
 											chars:      []rune{'\r', '\n', ' ', '~'},
 											ignoreCase: false,
@@ -43229,23 +43229,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2253, col: 1, offset: 73192},
+			pos:  position{line: 2253, col: 1, offset: 73254},
 			expr: &actionExpr{
-				pos: position{line: 2255, col: 5, offset: 73259},
+				pos: position{line: 2255, col: 5, offset: 73321},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2255, col: 5, offset: 73259},
+					pos: position{line: 2255, col: 5, offset: 73321},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2255, col: 5, offset: 73259},
+							pos:   position{line: 2255, col: 5, offset: 73321},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1853, col: 25, offset: 60049},
+								pos: position{line: 1853, col: 25, offset: 60111},
 								run: (*parser).callonEscapedSubscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1853, col: 25, offset: 60049},
+									pos: position{line: 1853, col: 25, offset: 60111},
 									expr: &litMatcher{
-										pos:        position{line: 1853, col: 25, offset: 60049},
+										pos:        position{line: 1853, col: 25, offset: 60111},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -43254,21 +43254,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2245, col: 27, offset: 73032},
+							pos:        position{line: 2245, col: 27, offset: 73094},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2257, col: 5, offset: 73327},
+							pos:   position{line: 2257, col: 5, offset: 73389},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2257, col: 14, offset: 73336},
+								pos:  position{line: 2257, col: 14, offset: 73398},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2245, col: 27, offset: 73032},
+							pos:        position{line: 2245, col: 27, offset: 73094},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -43279,29 +43279,29 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2265, col: 1, offset: 73599},
+			pos:  position{line: 2265, col: 1, offset: 73661},
 			expr: &actionExpr{
-				pos: position{line: 2266, col: 5, offset: 73623},
+				pos: position{line: 2266, col: 5, offset: 73685},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2266, col: 5, offset: 73623},
+					pos: position{line: 2266, col: 5, offset: 73685},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2272, col: 29, offset: 73850},
+							pos:        position{line: 2272, col: 29, offset: 73912},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2267, col: 5, offset: 73653},
+							pos:   position{line: 2267, col: 5, offset: 73715},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2267, col: 14, offset: 73662},
+								pos:  position{line: 2267, col: 14, offset: 73724},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2272, col: 29, offset: 73850},
+							pos:        position{line: 2272, col: 29, offset: 73912},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -43312,43 +43312,43 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2274, col: 1, offset: 73855},
+			pos:  position{line: 2274, col: 1, offset: 73917},
 			expr: &choiceExpr{
-				pos: position{line: 2274, col: 27, offset: 73881},
+				pos: position{line: 2274, col: 27, offset: 73943},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2274, col: 27, offset: 73881},
+						pos:  position{line: 2274, col: 27, offset: 73943},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2276, col: 23, offset: 73937},
+						pos: position{line: 2276, col: 23, offset: 73999},
 						run: (*parser).callonSuperscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2276, col: 23, offset: 73937},
+							pos:   position{line: 2276, col: 23, offset: 73999},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2276, col: 32, offset: 73946},
+								pos: position{line: 2276, col: 32, offset: 74008},
 								expr: &choiceExpr{
-									pos: position{line: 2276, col: 33, offset: 73947},
+									pos: position{line: 2276, col: 33, offset: 74009},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2471, col: 5, offset: 79593},
+											pos: position{line: 2471, col: 5, offset: 79655},
 											run: (*parser).callonSuperscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2471, col: 5, offset: 79593},
+												pos: position{line: 2471, col: 5, offset: 79655},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2471, col: 5, offset: 79593},
+														pos: position{line: 2471, col: 5, offset: 79655},
 														run: (*parser).callonSuperscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2474, col: 5, offset: 79669},
+														pos:   position{line: 2474, col: 5, offset: 79731},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2475, col: 9, offset: 79687},
+															pos: position{line: 2475, col: 9, offset: 79749},
 															run: (*parser).callonSuperscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2475, col: 10, offset: 79688},
+																pos:        position{line: 2475, col: 10, offset: 79750},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -43360,7 +43360,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2276, col: 52, offset: 73966},
+											pos:        position{line: 2276, col: 52, offset: 74028},
 											val:        "[^\\r\\n ^]",
 											chars:      []rune{'\r', '\n', ' ', '^'},
 											ignoreCase: false,
@@ -43376,23 +43376,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2280, col: 1, offset: 74016},
+			pos:  position{line: 2280, col: 1, offset: 74078},
 			expr: &actionExpr{
-				pos: position{line: 2282, col: 5, offset: 74088},
+				pos: position{line: 2282, col: 5, offset: 74150},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2282, col: 5, offset: 74088},
+					pos: position{line: 2282, col: 5, offset: 74150},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2282, col: 5, offset: 74088},
+							pos:   position{line: 2282, col: 5, offset: 74150},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1853, col: 25, offset: 60049},
+								pos: position{line: 1853, col: 25, offset: 60111},
 								run: (*parser).callonEscapedSuperscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1853, col: 25, offset: 60049},
+									pos: position{line: 1853, col: 25, offset: 60111},
 									expr: &litMatcher{
-										pos:        position{line: 1853, col: 25, offset: 60049},
+										pos:        position{line: 1853, col: 25, offset: 60111},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -43401,21 +43401,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2272, col: 29, offset: 73850},
+							pos:        position{line: 2272, col: 29, offset: 73912},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2284, col: 5, offset: 74158},
+							pos:   position{line: 2284, col: 5, offset: 74220},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2284, col: 14, offset: 74167},
+								pos:  position{line: 2284, col: 14, offset: 74229},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2272, col: 29, offset: 73850},
+							pos:        position{line: 2272, col: 29, offset: 73912},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -43426,27 +43426,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2293, col: 1, offset: 74636},
+			pos:  position{line: 2293, col: 1, offset: 74698},
 			expr: &actionExpr{
-				pos: position{line: 2294, col: 5, offset: 74652},
+				pos: position{line: 2294, col: 5, offset: 74714},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2294, col: 5, offset: 74652},
+					pos: position{line: 2294, col: 5, offset: 74714},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2294, col: 5, offset: 74652},
+							pos: position{line: 2294, col: 5, offset: 74714},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2297, col: 5, offset: 74715},
+							pos:   position{line: 2297, col: 5, offset: 74777},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2297, col: 12, offset: 74722},
+								pos: position{line: 2297, col: 12, offset: 74784},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2297, col: 12, offset: 74722},
+									pos: position{line: 2297, col: 12, offset: 74784},
 									expr: &litMatcher{
-										pos:        position{line: 2297, col: 13, offset: 74723},
+										pos:        position{line: 2297, col: 13, offset: 74785},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -43455,16 +43455,16 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2301, col: 5, offset: 74831},
+							pos: position{line: 2301, col: 5, offset: 74893},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2881, col: 11, offset: 91222},
+							pos: position{line: 2881, col: 11, offset: 91284},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2881, col: 11, offset: 91222},
+								pos: position{line: 2881, col: 11, offset: 91284},
 								expr: &charClassMatcher{
-									pos:        position{line: 2881, col: 11, offset: 91222},
+									pos:        position{line: 2881, col: 11, offset: 91284},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43473,36 +43473,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2305, col: 12, offset: 74990},
+							pos:   position{line: 2305, col: 12, offset: 75052},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2305, col: 19, offset: 74997},
+								pos:  position{line: 2305, col: 19, offset: 75059},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2899, col: 8, offset: 91559},
+							pos: position{line: 2899, col: 8, offset: 91621},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2886, col: 12, offset: 91332},
+									pos: position{line: 2886, col: 12, offset: 91394},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2886, col: 13, offset: 91333},
+										pos: position{line: 2886, col: 13, offset: 91395},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2886, col: 13, offset: 91333},
+												pos:        position{line: 2886, col: 13, offset: 91395},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2886, col: 20, offset: 91340},
+												pos:        position{line: 2886, col: 20, offset: 91402},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2886, col: 29, offset: 91349},
+												pos:        position{line: 2886, col: 29, offset: 91411},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -43511,9 +43511,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2896, col: 8, offset: 91509},
+									pos: position{line: 2896, col: 8, offset: 91571},
 									expr: &anyMatcher{
-										line: 2896, col: 9, offset: 91510,
+										line: 2896, col: 9, offset: 91572,
 									},
 								},
 							},
@@ -43524,24 +43524,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2309, col: 1, offset: 75093},
+			pos:  position{line: 2309, col: 1, offset: 75155},
 			expr: &actionExpr{
-				pos: position{line: 2310, col: 5, offset: 75114},
+				pos: position{line: 2310, col: 5, offset: 75176},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2310, col: 5, offset: 75114},
+					pos: position{line: 2310, col: 5, offset: 75176},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2310, col: 5, offset: 75114},
+							pos: position{line: 2310, col: 5, offset: 75176},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2315, col: 5, offset: 75229},
+							pos:   position{line: 2315, col: 5, offset: 75291},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2315, col: 14, offset: 75238},
+								pos: position{line: 2315, col: 14, offset: 75300},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2315, col: 15, offset: 75239},
+									pos:  position{line: 2315, col: 15, offset: 75301},
 									name: "SectionTitleElement",
 								},
 							},
@@ -43552,38 +43552,38 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2319, col: 1, offset: 75320},
+			pos:  position{line: 2319, col: 1, offset: 75382},
 			expr: &actionExpr{
-				pos: position{line: 2320, col: 5, offset: 75347},
+				pos: position{line: 2320, col: 5, offset: 75409},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2320, col: 5, offset: 75347},
+					pos: position{line: 2320, col: 5, offset: 75409},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2320, col: 5, offset: 75347},
+							pos: position{line: 2320, col: 5, offset: 75409},
 							expr: &choiceExpr{
-								pos: position{line: 2899, col: 8, offset: 91559},
+								pos: position{line: 2899, col: 8, offset: 91621},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2886, col: 12, offset: 91332},
+										pos: position{line: 2886, col: 12, offset: 91394},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2886, col: 13, offset: 91333},
+											pos: position{line: 2886, col: 13, offset: 91395},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2886, col: 13, offset: 91333},
+													pos:        position{line: 2886, col: 13, offset: 91395},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2886, col: 20, offset: 91340},
+													pos:        position{line: 2886, col: 20, offset: 91402},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2886, col: 29, offset: 91349},
+													pos:        position{line: 2886, col: 29, offset: 91411},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -43592,29 +43592,29 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2896, col: 8, offset: 91509},
+										pos: position{line: 2896, col: 8, offset: 91571},
 										expr: &anyMatcher{
-											line: 2896, col: 9, offset: 91510,
+											line: 2896, col: 9, offset: 91572,
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2321, col: 5, offset: 75356},
+							pos:   position{line: 2321, col: 5, offset: 75418},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2321, col: 14, offset: 75365},
+								pos: position{line: 2321, col: 14, offset: 75427},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2321, col: 14, offset: 75365},
+										pos:  position{line: 2321, col: 14, offset: 75427},
 										name: "SectionTitleLineElement",
 									},
 									&actionExpr{
-										pos: position{line: 2816, col: 12, offset: 89469},
+										pos: position{line: 2816, col: 12, offset: 89531},
 										run: (*parser).callonSectionTitleElement15,
 										expr: &charClassMatcher{
-											pos:        position{line: 2816, col: 12, offset: 89469},
+											pos:        position{line: 2816, col: 12, offset: 89531},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -43630,21 +43630,21 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleLineElement",
-			pos:  position{line: 2326, col: 1, offset: 75469},
+			pos:  position{line: 2326, col: 1, offset: 75531},
 			expr: &actionExpr{
-				pos: position{line: 2327, col: 5, offset: 75500},
+				pos: position{line: 2327, col: 5, offset: 75562},
 				run: (*parser).callonSectionTitleLineElement1,
 				expr: &seqExpr{
-					pos: position{line: 2327, col: 5, offset: 75500},
+					pos: position{line: 2327, col: 5, offset: 75562},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2327, col: 5, offset: 75500},
+							pos:   position{line: 2327, col: 5, offset: 75562},
 							label: "start",
 							expr: &actionExpr{
-								pos: position{line: 2902, col: 16, offset: 91683},
+								pos: position{line: 2902, col: 16, offset: 91745},
 								run: (*parser).callonSectionTitleLineElement4,
 								expr: &litMatcher{
-									pos:        position{line: 2902, col: 16, offset: 91683},
+									pos:        position{line: 2902, col: 16, offset: 91745},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -43652,27 +43652,27 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2328, col: 5, offset: 75524},
+							pos:   position{line: 2328, col: 5, offset: 75586},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2329, col: 9, offset: 75542},
+								pos: position{line: 2329, col: 9, offset: 75604},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2776, col: 5, offset: 88382},
+										pos: position{line: 2776, col: 5, offset: 88444},
 										run: (*parser).callonSectionTitleLineElement8,
 										expr: &seqExpr{
-											pos: position{line: 2776, col: 5, offset: 88382},
+											pos: position{line: 2776, col: 5, offset: 88444},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2776, col: 5, offset: 88382},
+													pos:   position{line: 2776, col: 5, offset: 88444},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2776, col: 11, offset: 88388},
+														pos: position{line: 2776, col: 11, offset: 88450},
 														run: (*parser).callonSectionTitleLineElement11,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2776, col: 11, offset: 88388},
+															pos: position{line: 2776, col: 11, offset: 88450},
 															expr: &charClassMatcher{
-																pos:        position{line: 2776, col: 11, offset: 88388},
+																pos:        position{line: 2776, col: 11, offset: 88450},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -43682,44 +43682,44 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2779, col: 5, offset: 88446},
+													pos: position{line: 2779, col: 5, offset: 88508},
 													expr: &seqExpr{
-														pos: position{line: 2780, col: 9, offset: 88457},
+														pos: position{line: 2780, col: 9, offset: 88519},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2780, col: 9, offset: 88457},
+																pos:        position{line: 2780, col: 9, offset: 88519},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2781, col: 9, offset: 88506},
+																pos: position{line: 2781, col: 9, offset: 88568},
 																run: (*parser).callonSectionTitleLineElement17,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2785, col: 5, offset: 88586},
+													pos: position{line: 2785, col: 5, offset: 88648},
 													expr: &seqExpr{
-														pos: position{line: 2786, col: 9, offset: 88597},
+														pos: position{line: 2786, col: 9, offset: 88659},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2786, col: 9, offset: 88597},
+																pos: position{line: 2786, col: 9, offset: 88659},
 																expr: &seqExpr{
-																	pos: position{line: 2786, col: 10, offset: 88598},
+																	pos: position{line: 2786, col: 10, offset: 88660},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2786, col: 10, offset: 88598},
+																			pos:        position{line: 2786, col: 10, offset: 88660},
 																			val:        "[._%+-]",
 																			chars:      []rune{'.', '_', '%', '+', '-'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2786, col: 18, offset: 88606},
+																			pos: position{line: 2786, col: 18, offset: 88668},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2786, col: 18, offset: 88606},
+																				pos:        position{line: 2786, col: 18, offset: 88668},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -43730,13 +43730,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2786, col: 30, offset: 88618},
+																pos:        position{line: 2786, col: 30, offset: 88680},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2786, col: 34, offset: 88622},
+																pos:        position{line: 2786, col: 34, offset: 88684},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -43749,12 +43749,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2881, col: 11, offset: 91222},
+										pos: position{line: 2881, col: 11, offset: 91284},
 										run: (*parser).callonSectionTitleLineElement27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2881, col: 11, offset: 91222},
+											pos: position{line: 2881, col: 11, offset: 91284},
 											expr: &charClassMatcher{
-												pos:        position{line: 2881, col: 11, offset: 91222},
+												pos:        position{line: 2881, col: 11, offset: 91284},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -43763,25 +43763,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2502, col: 5, offset: 80764},
+										pos: position{line: 2502, col: 5, offset: 80826},
 										run: (*parser).callonSectionTitleLineElement30,
 										expr: &seqExpr{
-											pos: position{line: 2502, col: 5, offset: 80764},
+											pos: position{line: 2502, col: 5, offset: 80826},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2502, col: 5, offset: 80764},
+													pos: position{line: 2502, col: 5, offset: 80826},
 													run: (*parser).callonSectionTitleLineElement32,
 												},
 												&litMatcher{
-													pos:        position{line: 2505, col: 5, offset: 80835},
+													pos:        position{line: 2505, col: 5, offset: 80897},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2505, col: 10, offset: 80840},
+													pos: position{line: 2505, col: 10, offset: 80902},
 													expr: &charClassMatcher{
-														pos:        position{line: 2505, col: 11, offset: 80841},
+														pos:        position{line: 2505, col: 11, offset: 80903},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -43792,29 +43792,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2511, col: 5, offset: 81033},
+										pos: position{line: 2511, col: 5, offset: 81095},
 										run: (*parser).callonSectionTitleLineElement36,
 										expr: &seqExpr{
-											pos: position{line: 2511, col: 5, offset: 81033},
+											pos: position{line: 2511, col: 5, offset: 81095},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2511, col: 5, offset: 81033},
+													pos: position{line: 2511, col: 5, offset: 81095},
 													run: (*parser).callonSectionTitleLineElement38,
 												},
 												&andCodeExpr{
-													pos: position{line: 2514, col: 5, offset: 81104},
+													pos: position{line: 2514, col: 5, offset: 81166},
 													run: (*parser).callonSectionTitleLineElement39,
 												},
 												&litMatcher{
-													pos:        position{line: 2518, col: 5, offset: 81229},
+													pos:        position{line: 2518, col: 5, offset: 81291},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2518, col: 9, offset: 81233},
+													pos: position{line: 2518, col: 9, offset: 81295},
 													expr: &charClassMatcher{
-														pos:        position{line: 2518, col: 10, offset: 81234},
+														pos:        position{line: 2518, col: 10, offset: 81296},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -43825,31 +43825,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2332, col: 11, offset: 75607},
+										pos:  position{line: 2332, col: 11, offset: 75669},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2794, col: 5, offset: 88815},
+										pos: position{line: 2794, col: 5, offset: 88877},
 										run: (*parser).callonSectionTitleLineElement44,
 										expr: &choiceExpr{
-											pos: position{line: 2795, col: 9, offset: 88825},
+											pos: position{line: 2795, col: 9, offset: 88887},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2795, col: 10, offset: 88826},
+													pos:        position{line: 2795, col: 10, offset: 88888},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2797, col: 13, offset: 88923},
+													pos: position{line: 2797, col: 13, offset: 88985},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2797, col: 13, offset: 88923},
+															pos: position{line: 2797, col: 13, offset: 88985},
 															run: (*parser).callonSectionTitleLineElement48,
 														},
 														&litMatcher{
-															pos:        position{line: 2800, col: 13, offset: 89023},
+															pos:        position{line: 2800, col: 13, offset: 89085},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -43857,20 +43857,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2800, col: 19, offset: 89029},
+													pos:        position{line: 2800, col: 19, offset: 89091},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2803, col: 13, offset: 89067},
+													pos: position{line: 2803, col: 13, offset: 89129},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2803, col: 13, offset: 89067},
+															pos: position{line: 2803, col: 13, offset: 89129},
 															run: (*parser).callonSectionTitleLineElement52,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2806, col: 14, offset: 89160},
+															pos:        position{line: 2806, col: 14, offset: 89222},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -43879,18 +43879,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2808, col: 12, offset: 89204},
+													pos: position{line: 2808, col: 12, offset: 89266},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2808, col: 12, offset: 89204},
+															pos:        position{line: 2808, col: 12, offset: 89266},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2808, col: 16, offset: 89208},
+															pos: position{line: 2808, col: 16, offset: 89270},
 															expr: &litMatcher{
-																pos:        position{line: 2808, col: 17, offset: 89209},
+																pos:        position{line: 2808, col: 17, offset: 89271},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -43902,35 +43902,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2334, col: 11, offset: 75680},
+										pos:  position{line: 2334, col: 11, offset: 75742},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2335, col: 11, offset: 75696},
+										pos:  position{line: 2335, col: 11, offset: 75758},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2336, col: 11, offset: 75724},
+										pos:  position{line: 2336, col: 11, offset: 75786},
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2471, col: 5, offset: 79593},
+										pos: position{line: 2471, col: 5, offset: 79655},
 										run: (*parser).callonSectionTitleLineElement61,
 										expr: &seqExpr{
-											pos: position{line: 2471, col: 5, offset: 79593},
+											pos: position{line: 2471, col: 5, offset: 79655},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2471, col: 5, offset: 79593},
+													pos: position{line: 2471, col: 5, offset: 79655},
 													run: (*parser).callonSectionTitleLineElement63,
 												},
 												&labeledExpr{
-													pos:   position{line: 2474, col: 5, offset: 79669},
+													pos:   position{line: 2474, col: 5, offset: 79731},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2475, col: 9, offset: 79687},
+														pos: position{line: 2475, col: 9, offset: 79749},
 														run: (*parser).callonSectionTitleLineElement65,
 														expr: &charClassMatcher{
-															pos:        position{line: 2475, col: 10, offset: 79688},
+															pos:        position{line: 2475, col: 10, offset: 79750},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -43942,7 +43942,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2338, col: 11, offset: 75809},
+										pos:  position{line: 2338, col: 11, offset: 75871},
 										name: "InlineIcon",
 									},
 									&actionExpr{
@@ -44335,17 +44335,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2354, col: 5, offset: 76303},
+										pos: position{line: 2354, col: 5, offset: 76365},
 										run: (*parser).callonSectionTitleLineElement146,
 										expr: &seqExpr{
-											pos: position{line: 2354, col: 5, offset: 76303},
+											pos: position{line: 2354, col: 5, offset: 76365},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2354, col: 5, offset: 76303},
+													pos: position{line: 2354, col: 5, offset: 76365},
 													run: (*parser).callonSectionTitleLineElement148,
 												},
 												&labeledExpr{
-													pos:   position{line: 2357, col: 5, offset: 76358},
+													pos:   position{line: 2357, col: 5, offset: 76420},
 													label: "id",
 													expr: &actionExpr{
 														pos: position{line: 403, col: 5, offset: 12344},
@@ -44803,12 +44803,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2357, col: 26, offset: 76379},
+													pos: position{line: 2357, col: 26, offset: 76441},
 													expr: &actionExpr{
-														pos: position{line: 2877, col: 10, offset: 91161},
+														pos: position{line: 2877, col: 10, offset: 91223},
 														run: (*parser).callonSectionTitleLineElement243,
 														expr: &charClassMatcher{
-															pos:        position{line: 2877, col: 10, offset: 91161},
+															pos:        position{line: 2877, col: 10, offset: 91223},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -44817,30 +44817,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 2357, col: 33, offset: 76386},
+													pos: position{line: 2357, col: 33, offset: 76448},
 													expr: &choiceExpr{
-														pos: position{line: 2899, col: 8, offset: 91559},
+														pos: position{line: 2899, col: 8, offset: 91621},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2886, col: 12, offset: 91332},
+																pos: position{line: 2886, col: 12, offset: 91394},
 																run: (*parser).callonSectionTitleLineElement247,
 																expr: &choiceExpr{
-																	pos: position{line: 2886, col: 13, offset: 91333},
+																	pos: position{line: 2886, col: 13, offset: 91395},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 13, offset: 91333},
+																			pos:        position{line: 2886, col: 13, offset: 91395},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 20, offset: 91340},
+																			pos:        position{line: 2886, col: 20, offset: 91402},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 29, offset: 91349},
+																			pos:        position{line: 2886, col: 29, offset: 91411},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -44849,9 +44849,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2896, col: 8, offset: 91509},
+																pos: position{line: 2896, col: 8, offset: 91571},
 																expr: &anyMatcher{
-																	line: 2896, col: 9, offset: 91510,
+																	line: 2896, col: 9, offset: 91572,
 																},
 															},
 														},
@@ -44876,12 +44876,12 @@ var g = &grammar{
 													pos:   position{line: 1257, col: 14, offset: 38885},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2862, col: 7, offset: 90813},
+														pos: position{line: 2862, col: 7, offset: 90875},
 														run: (*parser).callonSectionTitleLineElement258,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2862, col: 7, offset: 90813},
+															pos: position{line: 2862, col: 7, offset: 90875},
 															expr: &charClassMatcher{
-																pos:        position{line: 2862, col: 7, offset: 90813},
+																pos:        position{line: 2862, col: 7, offset: 90875},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -44915,12 +44915,12 @@ var g = &grammar{
 													pos:   position{line: 1262, col: 10, offset: 39060},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2862, col: 7, offset: 90813},
+														pos: position{line: 2862, col: 7, offset: 90875},
 														run: (*parser).callonSectionTitleLineElement266,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2862, col: 7, offset: 90813},
+															pos: position{line: 2862, col: 7, offset: 90875},
 															expr: &charClassMatcher{
-																pos:        position{line: 2862, col: 7, offset: 90813},
+																pos:        position{line: 2862, col: 7, offset: 90875},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -44939,20 +44939,20 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2343, col: 11, offset: 76063},
+										pos:  position{line: 2343, col: 11, offset: 76125},
 										name: "InlineFootnote",
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2344, col: 5, offset: 76083},
+							pos:   position{line: 2344, col: 5, offset: 76145},
 							label: "end",
 							expr: &actionExpr{
-								pos: position{line: 2902, col: 16, offset: 91683},
+								pos: position{line: 2902, col: 16, offset: 91745},
 								run: (*parser).callonSectionTitleLineElement272,
 								expr: &litMatcher{
-									pos:        position{line: 2902, col: 16, offset: 91683},
+									pos:        position{line: 2902, col: 16, offset: 91745},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -44960,7 +44960,7 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2345, col: 5, offset: 76105},
+							pos: position{line: 2345, col: 5, offset: 76167},
 							run: (*parser).callonSectionTitleLineElement274,
 						},
 					},
@@ -44969,52 +44969,52 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2367, col: 1, offset: 76648},
+			pos:  position{line: 2367, col: 1, offset: 76710},
 			expr: &actionExpr{
-				pos: position{line: 2368, col: 5, offset: 76735},
+				pos: position{line: 2368, col: 5, offset: 76797},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2368, col: 5, offset: 76735},
+					pos: position{line: 2368, col: 5, offset: 76797},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2368, col: 5, offset: 76735},
+							pos:   position{line: 2368, col: 5, offset: 76797},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2368, col: 14, offset: 76744},
+								pos: position{line: 2368, col: 14, offset: 76806},
 								expr: &actionExpr{
-									pos: position{line: 2370, col: 9, offset: 76770},
+									pos: position{line: 2370, col: 9, offset: 76832},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2370, col: 9, offset: 76770},
+										pos: position{line: 2370, col: 9, offset: 76832},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2894, col: 11, offset: 91495},
+												pos: position{line: 2894, col: 11, offset: 91557},
 												expr: &anyMatcher{
-													line: 2894, col: 13, offset: 91497,
+													line: 2894, col: 13, offset: 91559,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2371, col: 9, offset: 76785},
+												pos:   position{line: 2371, col: 9, offset: 76847},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2372, col: 13, offset: 76807},
+													pos: position{line: 2372, col: 13, offset: 76869},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2776, col: 5, offset: 88382},
+															pos: position{line: 2776, col: 5, offset: 88444},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2776, col: 5, offset: 88382},
+																pos: position{line: 2776, col: 5, offset: 88444},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 2776, col: 5, offset: 88382},
+																		pos:   position{line: 2776, col: 5, offset: 88444},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2776, col: 11, offset: 88388},
+																			pos: position{line: 2776, col: 11, offset: 88450},
 																			run: (*parser).callonNormalGroup14,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2776, col: 11, offset: 88388},
+																				pos: position{line: 2776, col: 11, offset: 88450},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2776, col: 11, offset: 88388},
+																					pos:        position{line: 2776, col: 11, offset: 88450},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -45024,44 +45024,44 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2779, col: 5, offset: 88446},
+																		pos: position{line: 2779, col: 5, offset: 88508},
 																		expr: &seqExpr{
-																			pos: position{line: 2780, col: 9, offset: 88457},
+																			pos: position{line: 2780, col: 9, offset: 88519},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2780, col: 9, offset: 88457},
+																					pos:        position{line: 2780, col: 9, offset: 88519},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2781, col: 9, offset: 88506},
+																					pos: position{line: 2781, col: 9, offset: 88568},
 																					run: (*parser).callonNormalGroup20,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2785, col: 5, offset: 88586},
+																		pos: position{line: 2785, col: 5, offset: 88648},
 																		expr: &seqExpr{
-																			pos: position{line: 2786, col: 9, offset: 88597},
+																			pos: position{line: 2786, col: 9, offset: 88659},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 2786, col: 9, offset: 88597},
+																					pos: position{line: 2786, col: 9, offset: 88659},
 																					expr: &seqExpr{
-																						pos: position{line: 2786, col: 10, offset: 88598},
+																						pos: position{line: 2786, col: 10, offset: 88660},
 																						exprs: []interface{}{
 																							&charClassMatcher{
-																								pos:        position{line: 2786, col: 10, offset: 88598},
+																								pos:        position{line: 2786, col: 10, offset: 88660},
 																								val:        "[._%+-]",
 																								chars:      []rune{'.', '_', '%', '+', '-'},
 																								ignoreCase: false,
 																								inverted:   false,
 																							},
 																							&oneOrMoreExpr{
-																								pos: position{line: 2786, col: 18, offset: 88606},
+																								pos: position{line: 2786, col: 18, offset: 88668},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2786, col: 18, offset: 88606},
+																									pos:        position{line: 2786, col: 18, offset: 88668},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -45072,13 +45072,13 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2786, col: 30, offset: 88618},
+																					pos:        position{line: 2786, col: 30, offset: 88680},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2786, col: 34, offset: 88622},
+																					pos:        position{line: 2786, col: 34, offset: 88684},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -45091,12 +45091,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2881, col: 11, offset: 91222},
+															pos: position{line: 2881, col: 11, offset: 91284},
 															run: (*parser).callonNormalGroup30,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2881, col: 11, offset: 91222},
+																pos: position{line: 2881, col: 11, offset: 91284},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2881, col: 11, offset: 91222},
+																	pos:        position{line: 2881, col: 11, offset: 91284},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -45105,29 +45105,29 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2374, col: 15, offset: 76853},
+															pos:  position{line: 2374, col: 15, offset: 76915},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2502, col: 5, offset: 80764},
+															pos: position{line: 2502, col: 5, offset: 80826},
 															run: (*parser).callonNormalGroup34,
 															expr: &seqExpr{
-																pos: position{line: 2502, col: 5, offset: 80764},
+																pos: position{line: 2502, col: 5, offset: 80826},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2502, col: 5, offset: 80764},
+																		pos: position{line: 2502, col: 5, offset: 80826},
 																		run: (*parser).callonNormalGroup36,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2505, col: 5, offset: 80835},
+																		pos:        position{line: 2505, col: 5, offset: 80897},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2505, col: 10, offset: 80840},
+																		pos: position{line: 2505, col: 10, offset: 80902},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2505, col: 11, offset: 80841},
+																			pos:        position{line: 2505, col: 11, offset: 80903},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -45138,29 +45138,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2511, col: 5, offset: 81033},
+															pos: position{line: 2511, col: 5, offset: 81095},
 															run: (*parser).callonNormalGroup40,
 															expr: &seqExpr{
-																pos: position{line: 2511, col: 5, offset: 81033},
+																pos: position{line: 2511, col: 5, offset: 81095},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2511, col: 5, offset: 81033},
+																		pos: position{line: 2511, col: 5, offset: 81095},
 																		run: (*parser).callonNormalGroup42,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2514, col: 5, offset: 81104},
+																		pos: position{line: 2514, col: 5, offset: 81166},
 																		run: (*parser).callonNormalGroup43,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2518, col: 5, offset: 81229},
+																		pos:        position{line: 2518, col: 5, offset: 81291},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2518, col: 9, offset: 81233},
+																		pos: position{line: 2518, col: 9, offset: 81295},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2518, col: 10, offset: 81234},
+																			pos:        position{line: 2518, col: 10, offset: 81296},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -45171,27 +45171,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2794, col: 5, offset: 88815},
+															pos: position{line: 2794, col: 5, offset: 88877},
 															run: (*parser).callonNormalGroup47,
 															expr: &choiceExpr{
-																pos: position{line: 2795, col: 9, offset: 88825},
+																pos: position{line: 2795, col: 9, offset: 88887},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2795, col: 10, offset: 88826},
+																		pos:        position{line: 2795, col: 10, offset: 88888},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2797, col: 13, offset: 88923},
+																		pos: position{line: 2797, col: 13, offset: 88985},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2797, col: 13, offset: 88923},
+																				pos: position{line: 2797, col: 13, offset: 88985},
 																				run: (*parser).callonNormalGroup51,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2800, col: 13, offset: 89023},
+																				pos:        position{line: 2800, col: 13, offset: 89085},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -45199,20 +45199,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2800, col: 19, offset: 89029},
+																		pos:        position{line: 2800, col: 19, offset: 89091},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2803, col: 13, offset: 89067},
+																		pos: position{line: 2803, col: 13, offset: 89129},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2803, col: 13, offset: 89067},
+																				pos: position{line: 2803, col: 13, offset: 89129},
 																				run: (*parser).callonNormalGroup55,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2806, col: 14, offset: 89160},
+																				pos:        position{line: 2806, col: 14, offset: 89222},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -45221,18 +45221,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2808, col: 12, offset: 89204},
+																		pos: position{line: 2808, col: 12, offset: 89266},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2808, col: 12, offset: 89204},
+																				pos:        position{line: 2808, col: 12, offset: 89266},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2808, col: 16, offset: 89208},
+																				pos: position{line: 2808, col: 16, offset: 89270},
 																				expr: &litMatcher{
-																					pos:        position{line: 2808, col: 17, offset: 89209},
+																					pos:        position{line: 2808, col: 17, offset: 89271},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -45244,25 +45244,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2886, col: 12, offset: 91332},
+															pos: position{line: 2886, col: 12, offset: 91394},
 															run: (*parser).callonNormalGroup61,
 															expr: &choiceExpr{
-																pos: position{line: 2886, col: 13, offset: 91333},
+																pos: position{line: 2886, col: 13, offset: 91395},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 13, offset: 91333},
+																		pos:        position{line: 2886, col: 13, offset: 91395},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 20, offset: 91340},
+																		pos:        position{line: 2886, col: 20, offset: 91402},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 29, offset: 91349},
+																		pos:        position{line: 2886, col: 29, offset: 91411},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -45617,35 +45617,35 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2379, col: 15, offset: 77020},
+															pos:  position{line: 2379, col: 15, offset: 77082},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2380, col: 15, offset: 77040},
+															pos:  position{line: 2380, col: 15, offset: 77102},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2381, col: 15, offset: 77129},
+															pos:  position{line: 2381, col: 15, offset: 77191},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2471, col: 5, offset: 79593},
+															pos: position{line: 2471, col: 5, offset: 79655},
 															run: (*parser).callonNormalGroup138,
 															expr: &seqExpr{
-																pos: position{line: 2471, col: 5, offset: 79593},
+																pos: position{line: 2471, col: 5, offset: 79655},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2471, col: 5, offset: 79593},
+																		pos: position{line: 2471, col: 5, offset: 79655},
 																		run: (*parser).callonNormalGroup140,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2474, col: 5, offset: 79669},
+																		pos:   position{line: 2474, col: 5, offset: 79731},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2475, col: 9, offset: 79687},
+																			pos: position{line: 2475, col: 9, offset: 79749},
 																			run: (*parser).callonNormalGroup142,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2475, col: 10, offset: 79688},
+																				pos:        position{line: 2475, col: 10, offset: 79750},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -45679,10 +45679,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1218, col: 5, offset: 37733},
 																		expr: &actionExpr{
-																			pos: position{line: 2877, col: 10, offset: 91161},
+																			pos: position{line: 2877, col: 10, offset: 91223},
 																			run: (*parser).callonNormalGroup150,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 10, offset: 91161},
+																				pos:        position{line: 2877, col: 10, offset: 91223},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45693,28 +45693,28 @@ var g = &grammar{
 																	&andExpr{
 																		pos: position{line: 1218, col: 12, offset: 37740},
 																		expr: &choiceExpr{
-																			pos: position{line: 2899, col: 8, offset: 91559},
+																			pos: position{line: 2899, col: 8, offset: 91621},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2886, col: 12, offset: 91332},
+																					pos: position{line: 2886, col: 12, offset: 91394},
 																					run: (*parser).callonNormalGroup154,
 																					expr: &choiceExpr{
-																						pos: position{line: 2886, col: 13, offset: 91333},
+																						pos: position{line: 2886, col: 13, offset: 91395},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 13, offset: 91333},
+																								pos:        position{line: 2886, col: 13, offset: 91395},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 20, offset: 91340},
+																								pos:        position{line: 2886, col: 20, offset: 91402},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 29, offset: 91349},
+																								pos:        position{line: 2886, col: 29, offset: 91411},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -45723,9 +45723,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91509},
+																					pos: position{line: 2896, col: 8, offset: 91571},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91510,
+																						line: 2896, col: 9, offset: 91572,
 																					},
 																				},
 																			},
@@ -45735,7 +45735,7 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2384, col: 15, offset: 77311},
+															pos:  position{line: 2384, col: 15, offset: 77373},
 															name: "InlinePassthrough",
 														},
 														&actionExpr{
@@ -45782,10 +45782,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2816, col: 12, offset: 89469},
+															pos: position{line: 2816, col: 12, offset: 89531},
 															run: (*parser).callonNormalGroup171,
 															expr: &charClassMatcher{
-																pos:        position{line: 2816, col: 12, offset: 89469},
+																pos:        position{line: 2816, col: 12, offset: 89531},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -45801,9 +45801,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2896, col: 8, offset: 91509},
+							pos: position{line: 2896, col: 8, offset: 91571},
 							expr: &anyMatcher{
-								line: 2896, col: 9, offset: 91510,
+								line: 2896, col: 9, offset: 91572,
 							},
 						},
 					},
@@ -45812,28 +45812,28 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2395, col: 1, offset: 77749},
+			pos:  position{line: 2395, col: 1, offset: 77811},
 			expr: &actionExpr{
-				pos: position{line: 2396, col: 5, offset: 77782},
+				pos: position{line: 2396, col: 5, offset: 77844},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2396, col: 5, offset: 77782},
+					pos: position{line: 2396, col: 5, offset: 77844},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2396, col: 5, offset: 77782},
+							pos:   position{line: 2396, col: 5, offset: 77844},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2396, col: 14, offset: 77791},
+								pos: position{line: 2396, col: 14, offset: 77853},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2396, col: 15, offset: 77792},
+									pos:  position{line: 2396, col: 15, offset: 77854},
 									name: "AttributeStructuredValueElement",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2896, col: 8, offset: 91509},
+							pos: position{line: 2896, col: 8, offset: 91571},
 							expr: &anyMatcher{
-								line: 2896, col: 9, offset: 91510,
+								line: 2896, col: 9, offset: 91572,
 							},
 						},
 					},
@@ -45842,41 +45842,41 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2400, col: 1, offset: 77889},
+			pos:  position{line: 2400, col: 1, offset: 77951},
 			expr: &actionExpr{
-				pos: position{line: 2401, col: 5, offset: 77929},
+				pos: position{line: 2401, col: 5, offset: 77991},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2401, col: 5, offset: 77929},
+					pos: position{line: 2401, col: 5, offset: 77991},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2894, col: 11, offset: 91495},
+							pos: position{line: 2894, col: 11, offset: 91557},
 							expr: &anyMatcher{
-								line: 2894, col: 13, offset: 91497,
+								line: 2894, col: 13, offset: 91559,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2402, col: 5, offset: 77940},
+							pos:   position{line: 2402, col: 5, offset: 78002},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2403, col: 9, offset: 77958},
+								pos: position{line: 2403, col: 9, offset: 78020},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2776, col: 5, offset: 88382},
+										pos: position{line: 2776, col: 5, offset: 88444},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2776, col: 5, offset: 88382},
+											pos: position{line: 2776, col: 5, offset: 88444},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2776, col: 5, offset: 88382},
+													pos:   position{line: 2776, col: 5, offset: 88444},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2776, col: 11, offset: 88388},
+														pos: position{line: 2776, col: 11, offset: 88450},
 														run: (*parser).callonAttributeStructuredValueElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2776, col: 11, offset: 88388},
+															pos: position{line: 2776, col: 11, offset: 88450},
 															expr: &charClassMatcher{
-																pos:        position{line: 2776, col: 11, offset: 88388},
+																pos:        position{line: 2776, col: 11, offset: 88450},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45886,44 +45886,44 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2779, col: 5, offset: 88446},
+													pos: position{line: 2779, col: 5, offset: 88508},
 													expr: &seqExpr{
-														pos: position{line: 2780, col: 9, offset: 88457},
+														pos: position{line: 2780, col: 9, offset: 88519},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2780, col: 9, offset: 88457},
+																pos:        position{line: 2780, col: 9, offset: 88519},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2781, col: 9, offset: 88506},
+																pos: position{line: 2781, col: 9, offset: 88568},
 																run: (*parser).callonAttributeStructuredValueElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2785, col: 5, offset: 88586},
+													pos: position{line: 2785, col: 5, offset: 88648},
 													expr: &seqExpr{
-														pos: position{line: 2786, col: 9, offset: 88597},
+														pos: position{line: 2786, col: 9, offset: 88659},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2786, col: 9, offset: 88597},
+																pos: position{line: 2786, col: 9, offset: 88659},
 																expr: &seqExpr{
-																	pos: position{line: 2786, col: 10, offset: 88598},
+																	pos: position{line: 2786, col: 10, offset: 88660},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2786, col: 10, offset: 88598},
+																			pos:        position{line: 2786, col: 10, offset: 88660},
 																			val:        "[._%+-]",
 																			chars:      []rune{'.', '_', '%', '+', '-'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2786, col: 18, offset: 88606},
+																			pos: position{line: 2786, col: 18, offset: 88668},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2786, col: 18, offset: 88606},
+																				pos:        position{line: 2786, col: 18, offset: 88668},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -45934,13 +45934,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2786, col: 30, offset: 88618},
+																pos:        position{line: 2786, col: 30, offset: 88680},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2786, col: 34, offset: 88622},
+																pos:        position{line: 2786, col: 34, offset: 88684},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45953,10 +45953,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2877, col: 10, offset: 91161},
+										pos: position{line: 2877, col: 10, offset: 91223},
 										run: (*parser).callonAttributeStructuredValueElement26,
 										expr: &charClassMatcher{
-											pos:        position{line: 2877, col: 10, offset: 91161},
+											pos:        position{line: 2877, col: 10, offset: 91223},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -45964,31 +45964,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2405, col: 11, offset: 77996},
+										pos:  position{line: 2405, col: 11, offset: 78058},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2794, col: 5, offset: 88815},
+										pos: position{line: 2794, col: 5, offset: 88877},
 										run: (*parser).callonAttributeStructuredValueElement29,
 										expr: &choiceExpr{
-											pos: position{line: 2795, col: 9, offset: 88825},
+											pos: position{line: 2795, col: 9, offset: 88887},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2795, col: 10, offset: 88826},
+													pos:        position{line: 2795, col: 10, offset: 88888},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2797, col: 13, offset: 88923},
+													pos: position{line: 2797, col: 13, offset: 88985},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2797, col: 13, offset: 88923},
+															pos: position{line: 2797, col: 13, offset: 88985},
 															run: (*parser).callonAttributeStructuredValueElement33,
 														},
 														&litMatcher{
-															pos:        position{line: 2800, col: 13, offset: 89023},
+															pos:        position{line: 2800, col: 13, offset: 89085},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -45996,20 +45996,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2800, col: 19, offset: 89029},
+													pos:        position{line: 2800, col: 19, offset: 89091},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2803, col: 13, offset: 89067},
+													pos: position{line: 2803, col: 13, offset: 89129},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2803, col: 13, offset: 89067},
+															pos: position{line: 2803, col: 13, offset: 89129},
 															run: (*parser).callonAttributeStructuredValueElement37,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2806, col: 14, offset: 89160},
+															pos:        position{line: 2806, col: 14, offset: 89222},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -46018,18 +46018,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2808, col: 12, offset: 89204},
+													pos: position{line: 2808, col: 12, offset: 89266},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2808, col: 12, offset: 89204},
+															pos:        position{line: 2808, col: 12, offset: 89266},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2808, col: 16, offset: 89208},
+															pos: position{line: 2808, col: 16, offset: 89270},
 															expr: &litMatcher{
-																pos:        position{line: 2808, col: 17, offset: 89209},
+																pos:        position{line: 2808, col: 17, offset: 89271},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -46041,31 +46041,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2407, col: 11, offset: 78069},
+										pos:  position{line: 2407, col: 11, offset: 78131},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2408, col: 11, offset: 78085},
+										pos:  position{line: 2408, col: 11, offset: 78147},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2471, col: 5, offset: 79593},
+										pos: position{line: 2471, col: 5, offset: 79655},
 										run: (*parser).callonAttributeStructuredValueElement45,
 										expr: &seqExpr{
-											pos: position{line: 2471, col: 5, offset: 79593},
+											pos: position{line: 2471, col: 5, offset: 79655},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2471, col: 5, offset: 79593},
+													pos: position{line: 2471, col: 5, offset: 79655},
 													run: (*parser).callonAttributeStructuredValueElement47,
 												},
 												&labeledExpr{
-													pos:   position{line: 2474, col: 5, offset: 79669},
+													pos:   position{line: 2474, col: 5, offset: 79731},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2475, col: 9, offset: 79687},
+														pos: position{line: 2475, col: 9, offset: 79749},
 														run: (*parser).callonAttributeStructuredValueElement49,
 														expr: &charClassMatcher{
-															pos:        position{line: 2475, col: 10, offset: 79688},
+															pos:        position{line: 2475, col: 10, offset: 79750},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -46120,25 +46120,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2886, col: 12, offset: 91332},
+										pos: position{line: 2886, col: 12, offset: 91394},
 										run: (*parser).callonAttributeStructuredValueElement60,
 										expr: &choiceExpr{
-											pos: position{line: 2886, col: 13, offset: 91333},
+											pos: position{line: 2886, col: 13, offset: 91395},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2886, col: 13, offset: 91333},
+													pos:        position{line: 2886, col: 13, offset: 91395},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2886, col: 20, offset: 91340},
+													pos:        position{line: 2886, col: 20, offset: 91402},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2886, col: 29, offset: 91349},
+													pos:        position{line: 2886, col: 29, offset: 91411},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -46147,10 +46147,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2816, col: 12, offset: 89469},
+										pos: position{line: 2816, col: 12, offset: 89531},
 										run: (*parser).callonAttributeStructuredValueElement65,
 										expr: &charClassMatcher{
-											pos:        position{line: 2816, col: 12, offset: 89469},
+											pos:        position{line: 2816, col: 12, offset: 89531},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -46166,49 +46166,49 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2419, col: 1, offset: 78355},
+			pos:  position{line: 2419, col: 1, offset: 78417},
 			expr: &actionExpr{
-				pos: position{line: 2421, col: 5, offset: 78437},
+				pos: position{line: 2421, col: 5, offset: 78499},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2421, col: 5, offset: 78437},
+					pos: position{line: 2421, col: 5, offset: 78499},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2421, col: 5, offset: 78437},
+							pos: position{line: 2421, col: 5, offset: 78499},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2424, col: 5, offset: 78502},
+							pos:   position{line: 2424, col: 5, offset: 78564},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2425, col: 9, offset: 78520},
+								pos: position{line: 2425, col: 9, offset: 78582},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2425, col: 9, offset: 78520},
+										pos:  position{line: 2425, col: 9, offset: 78582},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2426, col: 11, offset: 78541},
+										pos:  position{line: 2426, col: 11, offset: 78603},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2427, col: 11, offset: 78564},
+										pos:  position{line: 2427, col: 11, offset: 78626},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2428, col: 11, offset: 78580},
+										pos:  position{line: 2428, col: 11, offset: 78642},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2429, col: 11, offset: 78609},
+										pos:  position{line: 2429, col: 11, offset: 78671},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2430, col: 11, offset: 78635},
+										pos:  position{line: 2430, col: 11, offset: 78697},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2431, col: 11, offset: 78661},
+										pos:  position{line: 2431, col: 11, offset: 78723},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
@@ -46227,12 +46227,12 @@ var g = &grammar{
 													pos:   position{line: 1257, col: 14, offset: 38885},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2862, col: 7, offset: 90813},
+														pos: position{line: 2862, col: 7, offset: 90875},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2862, col: 7, offset: 90813},
+															pos: position{line: 2862, col: 7, offset: 90875},
 															expr: &charClassMatcher{
-																pos:        position{line: 2862, col: 7, offset: 90813},
+																pos:        position{line: 2862, col: 7, offset: 90875},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -46266,12 +46266,12 @@ var g = &grammar{
 													pos:   position{line: 1262, col: 10, offset: 39060},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2862, col: 7, offset: 90813},
+														pos: position{line: 2862, col: 7, offset: 90875},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2862, col: 7, offset: 90813},
+															pos: position{line: 2862, col: 7, offset: 90875},
 															expr: &charClassMatcher{
-																pos:        position{line: 2862, col: 7, offset: 90813},
+																pos:        position{line: 2862, col: 7, offset: 90875},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -46313,17 +46313,17 @@ var g = &grammar{
 																pos: position{line: 1308, col: 31, offset: 40882},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2767, col: 13, offset: 88235},
+																		pos:        position{line: 2767, col: 13, offset: 88297},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91161},
+																		pos: position{line: 2877, col: 10, offset: 91223},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91161},
+																			pos:        position{line: 2877, col: 10, offset: 91223},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -46349,10 +46349,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1302, col: 12, offset: 40596},
 																		expr: &actionExpr{
-																			pos: position{line: 2877, col: 10, offset: 91161},
+																			pos: position{line: 2877, col: 10, offset: 91223},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 10, offset: 91161},
+																				pos:        position{line: 2877, col: 10, offset: 91223},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46369,10 +46369,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1302, col: 23, offset: 40607},
 																		expr: &actionExpr{
-																			pos: position{line: 2877, col: 10, offset: 91161},
+																			pos: position{line: 2877, col: 10, offset: 91223},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 10, offset: 91161},
+																				pos:        position{line: 2877, col: 10, offset: 91223},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46392,17 +46392,17 @@ var g = &grammar{
 																					pos: position{line: 1308, col: 31, offset: 40882},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2767, col: 13, offset: 88235},
+																							pos:        position{line: 2767, col: 13, offset: 88297},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2877, col: 10, offset: 91161},
+																							pos: position{line: 2877, col: 10, offset: 91223},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2877, col: 10, offset: 91161},
+																								pos:        position{line: 2877, col: 10, offset: 91223},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -46433,10 +46433,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1303, col: 12, offset: 40688},
 																		expr: &actionExpr{
-																			pos: position{line: 2877, col: 10, offset: 91161},
+																			pos: position{line: 2877, col: 10, offset: 91223},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 10, offset: 91161},
+																				pos:        position{line: 2877, col: 10, offset: 91223},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46453,10 +46453,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1303, col: 23, offset: 40699},
 																		expr: &actionExpr{
-																			pos: position{line: 2877, col: 10, offset: 91161},
+																			pos: position{line: 2877, col: 10, offset: 91223},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 10, offset: 91161},
+																				pos:        position{line: 2877, col: 10, offset: 91223},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46476,17 +46476,17 @@ var g = &grammar{
 																					pos: position{line: 1308, col: 31, offset: 40882},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2767, col: 13, offset: 88235},
+																							pos:        position{line: 2767, col: 13, offset: 88297},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2877, col: 10, offset: 91161},
+																							pos: position{line: 2877, col: 10, offset: 91223},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2877, col: 10, offset: 91161},
+																								pos:        position{line: 2877, col: 10, offset: 91223},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -46513,15 +46513,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2434, col: 11, offset: 78740},
+										pos:  position{line: 2434, col: 11, offset: 78802},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2435, col: 11, offset: 78760},
+										pos:  position{line: 2435, col: 11, offset: 78822},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2436, col: 11, offset: 78783},
+										pos:  position{line: 2436, col: 11, offset: 78845},
 										name: "InlineMenu",
 									},
 								},
@@ -46533,22 +46533,22 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2440, col: 1, offset: 78840},
+			pos:  position{line: 2440, col: 1, offset: 78902},
 			expr: &actionExpr{
-				pos: position{line: 2442, col: 5, offset: 78928},
+				pos: position{line: 2442, col: 5, offset: 78990},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2442, col: 5, offset: 78928},
+					pos: position{line: 2442, col: 5, offset: 78990},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2442, col: 5, offset: 78928},
+							pos: position{line: 2442, col: 5, offset: 78990},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2445, col: 5, offset: 79005},
+							pos:   position{line: 2445, col: 5, offset: 79067},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2446, col: 9, offset: 79023},
+								pos: position{line: 2446, col: 9, offset: 79085},
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 1383, col: 26, offset: 44219},
@@ -46603,10 +46603,10 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1389, col: 12, offset: 44665},
 																				expr: &actionExpr{
-																					pos: position{line: 2877, col: 10, offset: 91161},
+																					pos: position{line: 2877, col: 10, offset: 91223},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2877, col: 10, offset: 91161},
+																						pos:        position{line: 2877, col: 10, offset: 91223},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -46617,25 +46617,25 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1389, col: 19, offset: 44672},
 																				expr: &actionExpr{
-																					pos: position{line: 2886, col: 12, offset: 91332},
+																					pos: position{line: 2886, col: 12, offset: 91394},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2886, col: 13, offset: 91333},
+																						pos: position{line: 2886, col: 13, offset: 91395},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 13, offset: 91333},
+																								pos:        position{line: 2886, col: 13, offset: 91395},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 20, offset: 91340},
+																								pos:        position{line: 2886, col: 20, offset: 91402},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 29, offset: 91349},
+																								pos:        position{line: 2886, col: 29, offset: 91411},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -46672,7 +46672,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1383, col: 121, offset: 44314},
 													expr: &charClassMatcher{
-														pos:        position{line: 2767, col: 13, offset: 88235},
+														pos:        position{line: 2767, col: 13, offset: 88297},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -46718,10 +46718,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1375, col: 64, offset: 43774},
 																			expr: &actionExpr{
-																				pos: position{line: 2877, col: 10, offset: 91161},
+																				pos: position{line: 2877, col: 10, offset: 91223},
 																				run: (*parser).callonInlinePassthrough45,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 10, offset: 91161},
+																					pos:        position{line: 2877, col: 10, offset: 91223},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -46732,25 +46732,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1375, col: 71, offset: 43781},
 																			expr: &actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91332},
+																				pos: position{line: 2886, col: 12, offset: 91394},
 																				run: (*parser).callonInlinePassthrough48,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91333},
+																					pos: position{line: 2886, col: 13, offset: 91395},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91333},
+																							pos:        position{line: 2886, col: 13, offset: 91395},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91340},
+																							pos:        position{line: 2886, col: 20, offset: 91402},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91349},
+																							pos:        position{line: 2886, col: 29, offset: 91411},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -46773,12 +46773,12 @@ var g = &grammar{
 																							pos: position{line: 1375, col: 86, offset: 43796},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2881, col: 11, offset: 91222},
+																									pos: position{line: 2881, col: 11, offset: 91284},
 																									run: (*parser).callonInlinePassthrough58,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2881, col: 11, offset: 91222},
+																										pos: position{line: 2881, col: 11, offset: 91284},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2881, col: 11, offset: 91222},
+																											pos:        position{line: 2881, col: 11, offset: 91284},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -46807,25 +46807,25 @@ var g = &grammar{
 																					&notExpr{
 																						pos: position{line: 1375, col: 151, offset: 43861},
 																						expr: &actionExpr{
-																							pos: position{line: 2886, col: 12, offset: 91332},
+																							pos: position{line: 2886, col: 12, offset: 91394},
 																							run: (*parser).callonInlinePassthrough65,
 																							expr: &choiceExpr{
-																								pos: position{line: 2886, col: 13, offset: 91333},
+																								pos: position{line: 2886, col: 13, offset: 91395},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 13, offset: 91333},
+																										pos:        position{line: 2886, col: 13, offset: 91395},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 20, offset: 91340},
+																										pos:        position{line: 2886, col: 20, offset: 91402},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 29, offset: 91349},
+																										pos:        position{line: 2886, col: 29, offset: 91411},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -46852,10 +46852,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1377, col: 12, offset: 44021},
 																			expr: &actionExpr{
-																				pos: position{line: 2877, col: 10, offset: 91161},
+																				pos: position{line: 2877, col: 10, offset: 91223},
 																				run: (*parser).callonInlinePassthrough74,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 10, offset: 91161},
+																					pos:        position{line: 2877, col: 10, offset: 91223},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -46866,25 +46866,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1377, col: 19, offset: 44028},
 																			expr: &actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91332},
+																				pos: position{line: 2886, col: 12, offset: 91394},
 																				run: (*parser).callonInlinePassthrough77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91333},
+																					pos: position{line: 2886, col: 13, offset: 91395},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91333},
+																							pos:        position{line: 2886, col: 13, offset: 91395},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91340},
+																							pos:        position{line: 2886, col: 20, offset: 91402},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91349},
+																							pos:        position{line: 2886, col: 29, offset: 91411},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -46920,7 +46920,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1371, col: 121, offset: 43597},
 													expr: &charClassMatcher{
-														pos:        position{line: 2767, col: 13, offset: 88235},
+														pos:        position{line: 2767, col: 13, offset: 88297},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -46931,7 +46931,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2446, col: 57, offset: 79071},
+										pos:  position{line: 2446, col: 57, offset: 79133},
 										name: "PassthroughMacro",
 									},
 								},
@@ -46943,16 +46943,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2451, col: 1, offset: 79131},
+			pos:  position{line: 2451, col: 1, offset: 79193},
 			expr: &seqExpr{
-				pos: position{line: 2453, col: 5, offset: 79207},
+				pos: position{line: 2453, col: 5, offset: 79269},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2453, col: 5, offset: 79207},
+						pos: position{line: 2453, col: 5, offset: 79269},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2456, col: 5, offset: 79272},
+						pos:  position{line: 2456, col: 5, offset: 79334},
 						name: "QuotedText",
 					},
 				},
@@ -46960,22 +46960,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2458, col: 1, offset: 79285},
+			pos:  position{line: 2458, col: 1, offset: 79347},
 			expr: &actionExpr{
-				pos: position{line: 2460, col: 5, offset: 79367},
+				pos: position{line: 2460, col: 5, offset: 79429},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2460, col: 5, offset: 79367},
+					pos: position{line: 2460, col: 5, offset: 79429},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2460, col: 5, offset: 79367},
+							pos: position{line: 2460, col: 5, offset: 79429},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2463, col: 5, offset: 79438},
+							pos:   position{line: 2463, col: 5, offset: 79500},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2464, col: 9, offset: 79456},
+								pos:  position{line: 2464, col: 9, offset: 79518},
 								name: "Symbol",
 							},
 						},
@@ -46985,93 +46985,93 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2522, col: 1, offset: 81286},
+			pos:  position{line: 2522, col: 1, offset: 81348},
 			expr: &choiceExpr{
-				pos: position{line: 2524, col: 5, offset: 81316},
+				pos: position{line: 2524, col: 5, offset: 81378},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2524, col: 5, offset: 81316},
+						pos: position{line: 2524, col: 5, offset: 81378},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2524, col: 5, offset: 81316},
+							pos: position{line: 2524, col: 5, offset: 81378},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2524, col: 5, offset: 81316},
+									pos:        position{line: 2524, col: 5, offset: 81378},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2524, col: 10, offset: 81321},
+									pos: position{line: 2524, col: 10, offset: 81383},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2524, col: 10, offset: 81321},
+											pos:  position{line: 2524, col: 10, offset: 81383},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2553, col: 14, offset: 82455},
+											pos: position{line: 2553, col: 14, offset: 82517},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2553, col: 14, offset: 82455},
+												pos:        position{line: 2553, col: 14, offset: 82517},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2557, col: 14, offset: 82521},
+											pos: position{line: 2557, col: 14, offset: 82583},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2557, col: 14, offset: 82521},
+												pos:        position{line: 2557, col: 14, offset: 82583},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2561, col: 15, offset: 82590},
+											pos: position{line: 2561, col: 15, offset: 82652},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2561, col: 15, offset: 82590},
+												pos:        position{line: 2561, col: 15, offset: 82652},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2565, col: 13, offset: 82655},
+											pos: position{line: 2565, col: 13, offset: 82717},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2565, col: 13, offset: 82655},
+												pos:        position{line: 2565, col: 13, offset: 82717},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2572, col: 5, offset: 82793},
+											pos: position{line: 2572, col: 5, offset: 82855},
 											run: (*parser).callonSymbol15,
 											expr: &seqExpr{
-												pos: position{line: 2572, col: 5, offset: 82793},
+												pos: position{line: 2572, col: 5, offset: 82855},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2572, col: 5, offset: 82793},
+														pos:        position{line: 2572, col: 5, offset: 82855},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2573, col: 5, offset: 82803},
+														pos: position{line: 2573, col: 5, offset: 82865},
 														run: (*parser).callonSymbol18,
 													},
 													&choiceExpr{
-														pos: position{line: 2577, col: 6, offset: 82890},
+														pos: position{line: 2577, col: 6, offset: 82952},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2877, col: 10, offset: 91161},
+																pos: position{line: 2877, col: 10, offset: 91223},
 																run: (*parser).callonSymbol20,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2877, col: 10, offset: 91161},
+																	pos:        position{line: 2877, col: 10, offset: 91223},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -47079,30 +47079,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2577, col: 14, offset: 82898},
+																pos: position{line: 2577, col: 14, offset: 82960},
 																expr: &choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91559},
+																	pos: position{line: 2899, col: 8, offset: 91621},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91332},
+																			pos: position{line: 2886, col: 12, offset: 91394},
 																			run: (*parser).callonSymbol24,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91333},
+																				pos: position{line: 2886, col: 13, offset: 91395},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91333},
+																						pos:        position{line: 2886, col: 13, offset: 91395},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91340},
+																						pos:        position{line: 2886, col: 20, offset: 91402},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91349},
+																						pos:        position{line: 2886, col: 29, offset: 91411},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -47111,9 +47111,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91509},
+																			pos: position{line: 2896, col: 8, offset: 91571},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91510,
+																				line: 2896, col: 9, offset: 91572,
 																			},
 																		},
 																	},
@@ -47125,53 +47125,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2582, col: 5, offset: 83018},
+											pos: position{line: 2582, col: 5, offset: 83080},
 											run: (*parser).callonSymbol31,
 											expr: &seqExpr{
-												pos: position{line: 2582, col: 5, offset: 83018},
+												pos: position{line: 2582, col: 5, offset: 83080},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2582, col: 5, offset: 83018},
+														pos:        position{line: 2582, col: 5, offset: 83080},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2583, col: 5, offset: 83028},
+														pos: position{line: 2583, col: 5, offset: 83090},
 														run: (*parser).callonSymbol34,
 													},
 													&andExpr{
-														pos: position{line: 2587, col: 5, offset: 83117},
+														pos: position{line: 2587, col: 5, offset: 83179},
 														expr: &choiceExpr{
-															pos: position{line: 2587, col: 7, offset: 83119},
+															pos: position{line: 2587, col: 7, offset: 83181},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2767, col: 13, offset: 88235},
+																	pos:        position{line: 2767, col: 13, offset: 88297},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2886, col: 12, offset: 91332},
+																	pos: position{line: 2886, col: 12, offset: 91394},
 																	run: (*parser).callonSymbol38,
 																	expr: &choiceExpr{
-																		pos: position{line: 2886, col: 13, offset: 91333},
+																		pos: position{line: 2886, col: 13, offset: 91395},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2886, col: 13, offset: 91333},
+																				pos:        position{line: 2886, col: 13, offset: 91395},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2886, col: 20, offset: 91340},
+																				pos:        position{line: 2886, col: 20, offset: 91402},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2886, col: 29, offset: 91349},
+																				pos:        position{line: 2886, col: 29, offset: 91411},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -47180,9 +47180,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2896, col: 8, offset: 91509},
+																	pos: position{line: 2896, col: 8, offset: 91571},
 																	expr: &anyMatcher{
-																		line: 2896, col: 9, offset: 91510,
+																		line: 2896, col: 9, offset: 91572,
 																	},
 																},
 															},
@@ -47197,63 +47197,63 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2527, col: 7, offset: 81485},
+						pos: position{line: 2527, col: 7, offset: 81547},
 						run: (*parser).callonSymbol45,
 						expr: &seqExpr{
-							pos: position{line: 2527, col: 7, offset: 81485},
+							pos: position{line: 2527, col: 7, offset: 81547},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2527, col: 7, offset: 81485},
+									pos:        position{line: 2527, col: 7, offset: 81547},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2527, col: 11, offset: 81489},
+									pos:   position{line: 2527, col: 11, offset: 81551},
 									label: "elements",
 									expr: &choiceExpr{
-										pos: position{line: 2527, col: 21, offset: 81499},
+										pos: position{line: 2527, col: 21, offset: 81561},
 										alternatives: []interface{}{
 											&seqExpr{
-												pos: position{line: 2527, col: 21, offset: 81499},
+												pos: position{line: 2527, col: 21, offset: 81561},
 												exprs: []interface{}{
 													&charClassMatcher{
-														pos:        position{line: 2527, col: 21, offset: 81499},
+														pos:        position{line: 2527, col: 21, offset: 81561},
 														val:        "[-=]",
 														chars:      []rune{'-', '='},
 														ignoreCase: false,
 														inverted:   false,
 													},
 													&andExpr{
-														pos: position{line: 2527, col: 26, offset: 81504},
+														pos: position{line: 2527, col: 26, offset: 81566},
 														expr: &litMatcher{
-															pos:        position{line: 2527, col: 27, offset: 81505},
+															pos:        position{line: 2527, col: 27, offset: 81567},
 															val:        ">",
 															ignoreCase: false,
 															want:       "\">\"",
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2527, col: 32, offset: 81510},
+														pos: position{line: 2527, col: 32, offset: 81572},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2471, col: 5, offset: 79593},
+																pos: position{line: 2471, col: 5, offset: 79655},
 																run: (*parser).callonSymbol55,
 																expr: &seqExpr{
-																	pos: position{line: 2471, col: 5, offset: 79593},
+																	pos: position{line: 2471, col: 5, offset: 79655},
 																	exprs: []interface{}{
 																		&andCodeExpr{
-																			pos: position{line: 2471, col: 5, offset: 79593},
+																			pos: position{line: 2471, col: 5, offset: 79655},
 																			run: (*parser).callonSymbol57,
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 2474, col: 5, offset: 79669},
+																			pos:   position{line: 2474, col: 5, offset: 79731},
 																			label: "element",
 																			expr: &actionExpr{
-																				pos: position{line: 2475, col: 9, offset: 79687},
+																				pos: position{line: 2475, col: 9, offset: 79749},
 																				run: (*parser).callonSymbol59,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2475, col: 10, offset: 79688},
+																					pos:        position{line: 2475, col: 10, offset: 79750},
 																					val:        "[<>&]",
 																					chars:      []rune{'<', '>', '&'},
 																					ignoreCase: false,
@@ -47265,28 +47265,28 @@ var g = &grammar{
 																},
 															},
 															&anyMatcher{
-																line: 2527, col: 51, offset: 81529,
+																line: 2527, col: 51, offset: 81591,
 															},
 														},
 													},
 												},
 											},
 											&seqExpr{
-												pos: position{line: 2527, col: 56, offset: 81534},
+												pos: position{line: 2527, col: 56, offset: 81596},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2527, col: 56, offset: 81534},
+														pos: position{line: 2527, col: 56, offset: 81596},
 														expr: &choiceExpr{
-															pos: position{line: 2527, col: 58, offset: 81536},
+															pos: position{line: 2527, col: 58, offset: 81598},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2527, col: 58, offset: 81536},
+																	pos:        position{line: 2527, col: 58, offset: 81598},
 																	val:        "<-",
 																	ignoreCase: false,
 																	want:       "\"<-\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2527, col: 65, offset: 81543},
+																	pos:        position{line: 2527, col: 65, offset: 81605},
 																	val:        "<=",
 																	ignoreCase: false,
 																	want:       "\"<=\"",
@@ -47295,26 +47295,26 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2527, col: 72, offset: 81550},
+														pos: position{line: 2527, col: 72, offset: 81612},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2471, col: 5, offset: 79593},
+																pos: position{line: 2471, col: 5, offset: 79655},
 																run: (*parser).callonSymbol68,
 																expr: &seqExpr{
-																	pos: position{line: 2471, col: 5, offset: 79593},
+																	pos: position{line: 2471, col: 5, offset: 79655},
 																	exprs: []interface{}{
 																		&andCodeExpr{
-																			pos: position{line: 2471, col: 5, offset: 79593},
+																			pos: position{line: 2471, col: 5, offset: 79655},
 																			run: (*parser).callonSymbol70,
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 2474, col: 5, offset: 79669},
+																			pos:   position{line: 2474, col: 5, offset: 79731},
 																			label: "element",
 																			expr: &actionExpr{
-																				pos: position{line: 2475, col: 9, offset: 79687},
+																				pos: position{line: 2475, col: 9, offset: 79749},
 																				run: (*parser).callonSymbol72,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2475, col: 10, offset: 79688},
+																					pos:        position{line: 2475, col: 10, offset: 79750},
 																					val:        "[<>&]",
 																					chars:      []rune{'<', '>', '&'},
 																					ignoreCase: false,
@@ -47326,12 +47326,12 @@ var g = &grammar{
 																},
 															},
 															&anyMatcher{
-																line: 2527, col: 91, offset: 81569,
+																line: 2527, col: 91, offset: 81631,
 															},
 														},
 													},
 													&anyMatcher{
-														line: 2527, col: 94, offset: 81572,
+														line: 2527, col: 94, offset: 81634,
 													},
 												},
 											},
@@ -47342,73 +47342,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2528, col: 7, offset: 81606},
+						pos:  position{line: 2528, col: 7, offset: 81668},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2553, col: 14, offset: 82455},
+						pos: position{line: 2553, col: 14, offset: 82517},
 						run: (*parser).callonSymbol77,
 						expr: &litMatcher{
-							pos:        position{line: 2553, col: 14, offset: 82455},
+							pos:        position{line: 2553, col: 14, offset: 82517},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2557, col: 14, offset: 82521},
+						pos: position{line: 2557, col: 14, offset: 82583},
 						run: (*parser).callonSymbol79,
 						expr: &litMatcher{
-							pos:        position{line: 2557, col: 14, offset: 82521},
+							pos:        position{line: 2557, col: 14, offset: 82583},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2561, col: 15, offset: 82590},
+						pos: position{line: 2561, col: 15, offset: 82652},
 						run: (*parser).callonSymbol81,
 						expr: &litMatcher{
-							pos:        position{line: 2561, col: 15, offset: 82590},
+							pos:        position{line: 2561, col: 15, offset: 82652},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2565, col: 13, offset: 82655},
+						pos: position{line: 2565, col: 13, offset: 82717},
 						run: (*parser).callonSymbol83,
 						expr: &litMatcher{
-							pos:        position{line: 2565, col: 13, offset: 82655},
+							pos:        position{line: 2565, col: 13, offset: 82717},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2572, col: 5, offset: 82793},
+						pos: position{line: 2572, col: 5, offset: 82855},
 						run: (*parser).callonSymbol85,
 						expr: &seqExpr{
-							pos: position{line: 2572, col: 5, offset: 82793},
+							pos: position{line: 2572, col: 5, offset: 82855},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2572, col: 5, offset: 82793},
+									pos:        position{line: 2572, col: 5, offset: 82855},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2573, col: 5, offset: 82803},
+									pos: position{line: 2573, col: 5, offset: 82865},
 									run: (*parser).callonSymbol88,
 								},
 								&choiceExpr{
-									pos: position{line: 2577, col: 6, offset: 82890},
+									pos: position{line: 2577, col: 6, offset: 82952},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2877, col: 10, offset: 91161},
+											pos: position{line: 2877, col: 10, offset: 91223},
 											run: (*parser).callonSymbol90,
 											expr: &charClassMatcher{
-												pos:        position{line: 2877, col: 10, offset: 91161},
+												pos:        position{line: 2877, col: 10, offset: 91223},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -47416,30 +47416,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2577, col: 14, offset: 82898},
+											pos: position{line: 2577, col: 14, offset: 82960},
 											expr: &choiceExpr{
-												pos: position{line: 2899, col: 8, offset: 91559},
+												pos: position{line: 2899, col: 8, offset: 91621},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2886, col: 12, offset: 91332},
+														pos: position{line: 2886, col: 12, offset: 91394},
 														run: (*parser).callonSymbol94,
 														expr: &choiceExpr{
-															pos: position{line: 2886, col: 13, offset: 91333},
+															pos: position{line: 2886, col: 13, offset: 91395},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2886, col: 13, offset: 91333},
+																	pos:        position{line: 2886, col: 13, offset: 91395},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2886, col: 20, offset: 91340},
+																	pos:        position{line: 2886, col: 20, offset: 91402},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2886, col: 29, offset: 91349},
+																	pos:        position{line: 2886, col: 29, offset: 91411},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -47448,9 +47448,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2896, col: 8, offset: 91509},
+														pos: position{line: 2896, col: 8, offset: 91571},
 														expr: &anyMatcher{
-															line: 2896, col: 9, offset: 91510,
+															line: 2896, col: 9, offset: 91572,
 														},
 													},
 												},
@@ -47462,53 +47462,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2582, col: 5, offset: 83018},
+						pos: position{line: 2582, col: 5, offset: 83080},
 						run: (*parser).callonSymbol101,
 						expr: &seqExpr{
-							pos: position{line: 2582, col: 5, offset: 83018},
+							pos: position{line: 2582, col: 5, offset: 83080},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2582, col: 5, offset: 83018},
+									pos:        position{line: 2582, col: 5, offset: 83080},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2583, col: 5, offset: 83028},
+									pos: position{line: 2583, col: 5, offset: 83090},
 									run: (*parser).callonSymbol104,
 								},
 								&andExpr{
-									pos: position{line: 2587, col: 5, offset: 83117},
+									pos: position{line: 2587, col: 5, offset: 83179},
 									expr: &choiceExpr{
-										pos: position{line: 2587, col: 7, offset: 83119},
+										pos: position{line: 2587, col: 7, offset: 83181},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2767, col: 13, offset: 88235},
+												pos:        position{line: 2767, col: 13, offset: 88297},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2886, col: 12, offset: 91332},
+												pos: position{line: 2886, col: 12, offset: 91394},
 												run: (*parser).callonSymbol108,
 												expr: &choiceExpr{
-													pos: position{line: 2886, col: 13, offset: 91333},
+													pos: position{line: 2886, col: 13, offset: 91395},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2886, col: 13, offset: 91333},
+															pos:        position{line: 2886, col: 13, offset: 91395},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2886, col: 20, offset: 91340},
+															pos:        position{line: 2886, col: 20, offset: 91402},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2886, col: 29, offset: 91349},
+															pos:        position{line: 2886, col: 29, offset: 91411},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -47517,9 +47517,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2896, col: 8, offset: 91509},
+												pos: position{line: 2896, col: 8, offset: 91571},
 												expr: &anyMatcher{
-													line: 2896, col: 9, offset: 91510,
+													line: 2896, col: 9, offset: 91572,
 												},
 											},
 										},
@@ -47529,40 +47529,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2593, col: 21, offset: 83207},
+						pos: position{line: 2593, col: 21, offset: 83269},
 						run: (*parser).callonSymbol115,
 						expr: &litMatcher{
-							pos:        position{line: 2593, col: 21, offset: 83207},
+							pos:        position{line: 2593, col: 21, offset: 83269},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2597, col: 20, offset: 83277},
+						pos: position{line: 2597, col: 20, offset: 83339},
 						run: (*parser).callonSymbol117,
 						expr: &litMatcher{
-							pos:        position{line: 2597, col: 20, offset: 83277},
+							pos:        position{line: 2597, col: 20, offset: 83339},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2601, col: 21, offset: 83348},
+						pos: position{line: 2601, col: 21, offset: 83410},
 						run: (*parser).callonSymbol119,
 						expr: &litMatcher{
-							pos:        position{line: 2601, col: 21, offset: 83348},
+							pos:        position{line: 2601, col: 21, offset: 83410},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2605, col: 20, offset: 83418},
+						pos: position{line: 2605, col: 20, offset: 83480},
 						run: (*parser).callonSymbol121,
 						expr: &litMatcher{
-							pos:        position{line: 2605, col: 20, offset: 83418},
+							pos:        position{line: 2605, col: 20, offset: 83480},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -47573,43 +47573,43 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2539, col: 1, offset: 81796},
+			pos:  position{line: 2539, col: 1, offset: 81858},
 			expr: &choiceExpr{
-				pos: position{line: 2540, col: 5, offset: 81818},
+				pos: position{line: 2540, col: 5, offset: 81880},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2540, col: 5, offset: 81818},
+						pos: position{line: 2540, col: 5, offset: 81880},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2540, col: 5, offset: 81818},
+							pos: position{line: 2540, col: 5, offset: 81880},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2540, col: 5, offset: 81818},
+									pos:        position{line: 2540, col: 5, offset: 81880},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2540, col: 11, offset: 81824},
+									pos: position{line: 2540, col: 11, offset: 81886},
 									expr: &seqExpr{
-										pos: position{line: 2090, col: 5, offset: 67730},
+										pos: position{line: 2090, col: 5, offset: 67792},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2090, col: 5, offset: 67730},
+												pos:        position{line: 2090, col: 5, offset: 67792},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2091, col: 5, offset: 67739},
+												pos: position{line: 2091, col: 5, offset: 67801},
 												run: (*parser).callonQuotationMark8,
 											},
 											&andExpr{
-												pos: position{line: 2095, col: 5, offset: 67862},
+												pos: position{line: 2095, col: 5, offset: 67924},
 												expr: &notExpr{
-													pos: position{line: 2095, col: 7, offset: 67864},
+													pos: position{line: 2095, col: 7, offset: 67926},
 													expr: &litMatcher{
-														pos:        position{line: 2095, col: 8, offset: 67865},
+														pos:        position{line: 2095, col: 8, offset: 67927},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -47623,21 +47623,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2543, col: 7, offset: 81977},
+						pos: position{line: 2543, col: 7, offset: 82039},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2543, col: 7, offset: 81977},
+							pos: position{line: 2543, col: 7, offset: 82039},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2543, col: 7, offset: 81977},
+									pos:        position{line: 2543, col: 7, offset: 82039},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2543, col: 13, offset: 81983},
+									pos: position{line: 2543, col: 13, offset: 82045},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2543, col: 14, offset: 81984},
+										pos:  position{line: 2543, col: 14, offset: 82046},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -47645,38 +47645,38 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2546, col: 7, offset: 82134},
+						pos: position{line: 2546, col: 7, offset: 82196},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2546, col: 7, offset: 82134},
+							pos: position{line: 2546, col: 7, offset: 82196},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2546, col: 7, offset: 82134},
+									pos:        position{line: 2546, col: 7, offset: 82196},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2546, col: 12, offset: 82139},
+									pos: position{line: 2546, col: 12, offset: 82201},
 									expr: &seqExpr{
-										pos: position{line: 2090, col: 5, offset: 67730},
+										pos: position{line: 2090, col: 5, offset: 67792},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2090, col: 5, offset: 67730},
+												pos:        position{line: 2090, col: 5, offset: 67792},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2091, col: 5, offset: 67739},
+												pos: position{line: 2091, col: 5, offset: 67801},
 												run: (*parser).callonQuotationMark23,
 											},
 											&andExpr{
-												pos: position{line: 2095, col: 5, offset: 67862},
+												pos: position{line: 2095, col: 5, offset: 67924},
 												expr: &notExpr{
-													pos: position{line: 2095, col: 7, offset: 67864},
+													pos: position{line: 2095, col: 7, offset: 67926},
 													expr: &litMatcher{
-														pos:        position{line: 2095, col: 8, offset: 67865},
+														pos:        position{line: 2095, col: 8, offset: 67927},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -47690,21 +47690,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2549, col: 7, offset: 82292},
+						pos: position{line: 2549, col: 7, offset: 82354},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2549, col: 7, offset: 82292},
+							pos: position{line: 2549, col: 7, offset: 82354},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2549, col: 7, offset: 82292},
+									pos:        position{line: 2549, col: 7, offset: 82354},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2549, col: 12, offset: 82297},
+									pos: position{line: 2549, col: 12, offset: 82359},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2549, col: 13, offset: 82298},
+										pos:  position{line: 2549, col: 13, offset: 82360},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -47716,63 +47716,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2682, col: 1, offset: 85320},
+			pos:  position{line: 2682, col: 1, offset: 85382},
 			expr: &actionExpr{
-				pos: position{line: 2682, col: 26, offset: 85345},
+				pos: position{line: 2682, col: 26, offset: 85407},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2682, col: 26, offset: 85345},
+					pos: position{line: 2682, col: 26, offset: 85407},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2682, col: 26, offset: 85345},
+							pos:   position{line: 2682, col: 26, offset: 85407},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2682, col: 31, offset: 85350},
+								pos: position{line: 2682, col: 31, offset: 85412},
 								expr: &actionExpr{
-									pos: position{line: 2687, col: 5, offset: 85413},
+									pos: position{line: 2687, col: 5, offset: 85475},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2687, col: 5, offset: 85413},
+										pos: position{line: 2687, col: 5, offset: 85475},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2894, col: 11, offset: 91495},
+												pos: position{line: 2894, col: 11, offset: 91557},
 												expr: &anyMatcher{
-													line: 2894, col: 13, offset: 91497,
+													line: 2894, col: 13, offset: 91559,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2690, col: 5, offset: 85539},
+												pos:   position{line: 2690, col: 5, offset: 85601},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2690, col: 16, offset: 85550},
+													pos: position{line: 2690, col: 16, offset: 85612},
 													expr: &actionExpr{
-														pos: position{line: 2690, col: 17, offset: 85551},
+														pos: position{line: 2690, col: 17, offset: 85613},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2690, col: 17, offset: 85551},
+															pos: position{line: 2690, col: 17, offset: 85613},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2690, col: 17, offset: 85551},
+																	pos:   position{line: 2690, col: 17, offset: 85613},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2869, col: 12, offset: 90988},
+																		pos: position{line: 2869, col: 12, offset: 91050},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2869, col: 13, offset: 90989},
+																			pos: position{line: 2869, col: 13, offset: 91051},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2869, col: 13, offset: 90989},
+																					pos: position{line: 2869, col: 13, offset: 91051},
 																					expr: &litMatcher{
-																						pos:        position{line: 2869, col: 13, offset: 90989},
+																						pos:        position{line: 2869, col: 13, offset: 91051},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2869, col: 18, offset: 90994},
+																					pos: position{line: 2869, col: 18, offset: 91056},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2869, col: 18, offset: 90994},
+																						pos:        position{line: 2869, col: 18, offset: 91056},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -47784,7 +47784,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2690, col: 27, offset: 85561},
+																	pos:        position{line: 2690, col: 27, offset: 85623},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -47795,38 +47795,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2691, col: 5, offset: 85589},
+												pos:   position{line: 2691, col: 5, offset: 85651},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2691, col: 12, offset: 85596},
+													pos: position{line: 2691, col: 12, offset: 85658},
 													expr: &choiceExpr{
-														pos: position{line: 2692, col: 9, offset: 85606},
+														pos: position{line: 2692, col: 9, offset: 85668},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2692, col: 9, offset: 85606},
+																pos: position{line: 2692, col: 9, offset: 85668},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2692, col: 9, offset: 85606},
+																	pos:        position{line: 2692, col: 9, offset: 85668},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2693, col: 11, offset: 85653},
+																pos: position{line: 2693, col: 11, offset: 85715},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2693, col: 11, offset: 85653},
+																	pos:        position{line: 2693, col: 11, offset: 85715},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2694, col: 11, offset: 85701},
+																pos: position{line: 2694, col: 11, offset: 85763},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2694, col: 11, offset: 85701},
+																	pos:        position{line: 2694, col: 11, offset: 85763},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -47837,38 +47837,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2696, col: 5, offset: 85751},
+												pos:   position{line: 2696, col: 5, offset: 85813},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2696, col: 12, offset: 85758},
+													pos: position{line: 2696, col: 12, offset: 85820},
 													expr: &choiceExpr{
-														pos: position{line: 2697, col: 9, offset: 85768},
+														pos: position{line: 2697, col: 9, offset: 85830},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2697, col: 9, offset: 85768},
+																pos: position{line: 2697, col: 9, offset: 85830},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2697, col: 9, offset: 85768},
+																	pos:        position{line: 2697, col: 9, offset: 85830},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2698, col: 11, offset: 85815},
+																pos: position{line: 2698, col: 11, offset: 85877},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2698, col: 11, offset: 85815},
+																	pos:        position{line: 2698, col: 11, offset: 85877},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2699, col: 11, offset: 85865},
+																pos: position{line: 2699, col: 11, offset: 85927},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2699, col: 11, offset: 85865},
+																	pos:        position{line: 2699, col: 11, offset: 85927},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -47879,32 +47879,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2701, col: 5, offset: 85916},
+												pos:   position{line: 2701, col: 5, offset: 85978},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2701, col: 12, offset: 85923},
+													pos: position{line: 2701, col: 12, offset: 85985},
 													expr: &choiceExpr{
-														pos: position{line: 2701, col: 13, offset: 85924},
+														pos: position{line: 2701, col: 13, offset: 85986},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2869, col: 12, offset: 90988},
+																pos: position{line: 2869, col: 12, offset: 91050},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2869, col: 13, offset: 90989},
+																	pos: position{line: 2869, col: 13, offset: 91051},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2869, col: 13, offset: 90989},
+																			pos: position{line: 2869, col: 13, offset: 91051},
 																			expr: &litMatcher{
-																				pos:        position{line: 2869, col: 13, offset: 90989},
+																				pos:        position{line: 2869, col: 13, offset: 91051},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2869, col: 18, offset: 90994},
+																			pos: position{line: 2869, col: 18, offset: 91056},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2869, col: 18, offset: 90994},
+																				pos:        position{line: 2869, col: 18, offset: 91056},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -47915,10 +47915,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2701, col: 24, offset: 85935},
+																pos: position{line: 2701, col: 24, offset: 85997},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2701, col: 24, offset: 85935},
+																	pos:        position{line: 2701, col: 24, offset: 85997},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -47929,15 +47929,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2702, col: 5, offset: 85977},
+												pos:   position{line: 2702, col: 5, offset: 86039},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2702, col: 11, offset: 85983},
+													pos: position{line: 2702, col: 11, offset: 86045},
 													expr: &actionExpr{
-														pos: position{line: 2702, col: 12, offset: 85984},
+														pos: position{line: 2702, col: 12, offset: 86046},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2702, col: 12, offset: 85984},
+															pos:        position{line: 2702, col: 12, offset: 86046},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -47947,12 +47947,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2704, col: 5, offset: 86114},
+												pos:   position{line: 2704, col: 5, offset: 86176},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2704, col: 11, offset: 86120},
+													pos: position{line: 2704, col: 11, offset: 86182},
 													expr: &litMatcher{
-														pos:        position{line: 2704, col: 12, offset: 86121},
+														pos:        position{line: 2704, col: 12, offset: 86183},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -47960,7 +47960,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2705, col: 5, offset: 86131},
+												pos: position{line: 2705, col: 5, offset: 86193},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -47969,9 +47969,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2896, col: 8, offset: 91509},
+							pos: position{line: 2896, col: 8, offset: 91571},
 							expr: &anyMatcher{
-								line: 2896, col: 9, offset: 91510,
+								line: 2896, col: 9, offset: 91572,
 							},
 						},
 					},
@@ -47980,23 +47980,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2732, col: 1, offset: 87135},
+			pos:  position{line: 2732, col: 1, offset: 87197},
 			expr: &actionExpr{
-				pos: position{line: 2733, col: 5, offset: 87158},
+				pos: position{line: 2733, col: 5, offset: 87220},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2733, col: 5, offset: 87158},
+					pos: position{line: 2733, col: 5, offset: 87220},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2733, col: 5, offset: 87158},
+							pos:   position{line: 2733, col: 5, offset: 87220},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2756, col: 18, offset: 87899},
+								pos: position{line: 2756, col: 18, offset: 87961},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2756, col: 19, offset: 87900},
+									pos: position{line: 2756, col: 19, offset: 87962},
 									expr: &charClassMatcher{
-										pos:        position{line: 2756, col: 19, offset: 87900},
+										pos:        position{line: 2756, col: 19, offset: 87962},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48007,25 +48007,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2734, col: 5, offset: 87184},
+							pos: position{line: 2734, col: 5, offset: 87246},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2738, col: 5, offset: 87312},
+							pos:        position{line: 2738, col: 5, offset: 87374},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2739, col: 5, offset: 87322},
+							pos:   position{line: 2739, col: 5, offset: 87384},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2760, col: 19, offset: 87975},
+								pos: position{line: 2760, col: 19, offset: 88037},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2760, col: 19, offset: 87975},
+									pos: position{line: 2760, col: 19, offset: 88037},
 									expr: &charClassMatcher{
-										pos:        position{line: 2760, col: 19, offset: 87975},
+										pos:        position{line: 2760, col: 19, offset: 88037},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -48035,36 +48035,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2740, col: 5, offset: 87350},
+							pos:   position{line: 2740, col: 5, offset: 87412},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2740, col: 17, offset: 87362},
+								pos:  position{line: 2740, col: 17, offset: 87424},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2899, col: 8, offset: 91559},
+							pos: position{line: 2899, col: 8, offset: 91621},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2886, col: 12, offset: 91332},
+									pos: position{line: 2886, col: 12, offset: 91394},
 									run: (*parser).callonUserMacroBlock16,
 									expr: &choiceExpr{
-										pos: position{line: 2886, col: 13, offset: 91333},
+										pos: position{line: 2886, col: 13, offset: 91395},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2886, col: 13, offset: 91333},
+												pos:        position{line: 2886, col: 13, offset: 91395},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2886, col: 20, offset: 91340},
+												pos:        position{line: 2886, col: 20, offset: 91402},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2886, col: 29, offset: 91349},
+												pos:        position{line: 2886, col: 29, offset: 91411},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -48073,9 +48073,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2896, col: 8, offset: 91509},
+									pos: position{line: 2896, col: 8, offset: 91571},
 									expr: &anyMatcher{
-										line: 2896, col: 9, offset: 91510,
+										line: 2896, col: 9, offset: 91572,
 									},
 								},
 							},
@@ -48086,23 +48086,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2744, col: 1, offset: 87510},
+			pos:  position{line: 2744, col: 1, offset: 87572},
 			expr: &actionExpr{
-				pos: position{line: 2745, col: 5, offset: 87534},
+				pos: position{line: 2745, col: 5, offset: 87596},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2745, col: 5, offset: 87534},
+					pos: position{line: 2745, col: 5, offset: 87596},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2745, col: 5, offset: 87534},
+							pos:   position{line: 2745, col: 5, offset: 87596},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2756, col: 18, offset: 87899},
+								pos: position{line: 2756, col: 18, offset: 87961},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2756, col: 19, offset: 87900},
+									pos: position{line: 2756, col: 19, offset: 87962},
 									expr: &charClassMatcher{
-										pos:        position{line: 2756, col: 19, offset: 87900},
+										pos:        position{line: 2756, col: 19, offset: 87962},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48113,25 +48113,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2746, col: 5, offset: 87560},
+							pos: position{line: 2746, col: 5, offset: 87622},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2750, col: 5, offset: 87688},
+							pos:        position{line: 2750, col: 5, offset: 87750},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2751, col: 5, offset: 87697},
+							pos:   position{line: 2751, col: 5, offset: 87759},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2760, col: 19, offset: 87975},
+								pos: position{line: 2760, col: 19, offset: 88037},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2760, col: 19, offset: 87975},
+									pos: position{line: 2760, col: 19, offset: 88037},
 									expr: &charClassMatcher{
-										pos:        position{line: 2760, col: 19, offset: 87975},
+										pos:        position{line: 2760, col: 19, offset: 88037},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -48141,10 +48141,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2752, col: 5, offset: 87725},
+							pos:   position{line: 2752, col: 5, offset: 87787},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2752, col: 17, offset: 87737},
+								pos:  position{line: 2752, col: 17, offset: 87799},
 								name: "InlineAttributes",
 							},
 						},
@@ -48154,43 +48154,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2831, col: 1, offset: 89808},
+			pos:  position{line: 2831, col: 1, offset: 89870},
 			expr: &actionExpr{
-				pos: position{line: 2831, col: 17, offset: 89824},
+				pos: position{line: 2831, col: 17, offset: 89886},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2831, col: 17, offset: 89824},
+					pos:   position{line: 2831, col: 17, offset: 89886},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2848, col: 5, offset: 90278},
+						pos: position{line: 2848, col: 5, offset: 90340},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2848, col: 5, offset: 90278},
+							pos:   position{line: 2848, col: 5, offset: 90340},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2848, col: 14, offset: 90287},
+								pos: position{line: 2848, col: 14, offset: 90349},
 								expr: &choiceExpr{
-									pos: position{line: 2849, col: 9, offset: 90297},
+									pos: position{line: 2849, col: 9, offset: 90359},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2849, col: 9, offset: 90297},
+											pos: position{line: 2849, col: 9, offset: 90359},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2849, col: 9, offset: 90297},
+												pos: position{line: 2849, col: 9, offset: 90359},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2849, col: 9, offset: 90297},
+														pos: position{line: 2849, col: 9, offset: 90359},
 														expr: &litMatcher{
-															pos:        position{line: 2849, col: 10, offset: 90298},
+															pos:        position{line: 2849, col: 10, offset: 90360},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2850, col: 9, offset: 90326},
+														pos: position{line: 2850, col: 9, offset: 90388},
 														expr: &charClassMatcher{
-															pos:        position{line: 2850, col: 10, offset: 90327},
+															pos:        position{line: 2850, col: 10, offset: 90389},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -48201,27 +48201,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2853, col: 11, offset: 90539},
+											pos: position{line: 2853, col: 11, offset: 90601},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2853, col: 11, offset: 90539},
+													pos:        position{line: 2853, col: 11, offset: 90601},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2853, col: 19, offset: 90547},
+													pos: position{line: 2853, col: 19, offset: 90609},
 													expr: &seqExpr{
-														pos: position{line: 2853, col: 21, offset: 90549},
+														pos: position{line: 2853, col: 21, offset: 90611},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2853, col: 21, offset: 90549},
+																pos: position{line: 2853, col: 21, offset: 90611},
 																expr: &actionExpr{
-																	pos: position{line: 2877, col: 10, offset: 91161},
+																	pos: position{line: 2877, col: 10, offset: 91223},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2877, col: 10, offset: 91161},
+																		pos:        position{line: 2877, col: 10, offset: 91223},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -48230,11 +48230,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2853, col: 28, offset: 90556},
+																pos: position{line: 2853, col: 28, offset: 90618},
 																expr: &notExpr{
-																	pos: position{line: 2896, col: 8, offset: 91509},
+																	pos: position{line: 2896, col: 8, offset: 91571},
 																	expr: &anyMatcher{
-																		line: 2896, col: 9, offset: 91510,
+																		line: 2896, col: 9, offset: 91572,
 																	},
 																},
 															},
@@ -48633,10 +48633,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2856, col: 11, offset: 90676},
+											pos: position{line: 2856, col: 11, offset: 90738},
 											run: (*parser).callonFileLocation101,
 											expr: &litMatcher{
-												pos:        position{line: 2856, col: 11, offset: 90676},
+												pos:        position{line: 2856, col: 11, offset: 90738},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -70114,7 +70114,7 @@ func (p *parser) callonParagraph1() (interface{}, error) {
 }
 
 func (c *current) onEscapedQuotedText5() (interface{}, error) {
-	return string(c.text), nil
+	return types.NewEscapedMacro(string(c.text), c.isSubstitutionEnabled(SpecialCharacters))
 
 }
 
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index b9addf1..ba6c88c 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -1808,7 +1808,7 @@ QuotedText <- EscapedQuotedText / UnescapedQuotedText
 
 EscapedQuotedText <-
     attributes:(LongHandAttributes {
-        return string(c.text), nil
+        return types.NewEscapedMacro(string(c.text), c.isSubstitutionEnabled(SpecialCharacters))
     })?
     &(`\`)
     element:(
-- 
2.43.0


From a6b301187c390ae22daf3ada2a2d772d5929c4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:38 +0000
Subject: [PATCH 121/143] fix: blocks with an invalid 'cols' attribute were
 lost

---
 pkg/parser/document_processing_apply_substitutions.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 68fe30a..1c7a1bc 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -294,8 +294,10 @@ func reparseAttributes(ctx *ParseContext, element types.WithAttributes, opts ...
 				return err
 			}
 			v, err := parseWithSubstitutions(s, attributeSubstitutions(), append(append(ctx.opts, Entrypoint("TableColumnsAttribute")), opts...)...)
-			if err != nil {
-				return err
+			if err != nil { // same as without the attribute
+				log.Warnf("ignoring invalid columns specification: '%s'", s)
+				delete(attrs, k)
+				continue
 			}
 			attrs[k] = types.Reduce(v)
 		default:
-- 
2.43.0


From d937d3c9d01af61c6d9589057839b5d9fc8629b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:42 +0000
Subject: [PATCH 122/143] fix: references to attributes in icons with a role
 failed

---
 pkg/parser/document_processing_apply_substitutions.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 1c7a1bc..2471f0a 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -544,6 +544,10 @@ func replaceAttributeRefsInElementsAndReparse(ctx *ParseContext, elements []inte
 			if err := e.SetElements(elmts); err != nil {
 				return nil, err
 			}
+		case *types.Icon: // if `subs=macros,attributes`, then replace within inline macros
+			if err := replaceAttributeRefsInAttributeValues(ctx, e.Attributes); err != nil {
+				return nil, err
+			}
 		case types.WithLocation: // if `subs=macros,attributes`, then replace within inline macros
 			// in attributes
 			if err := replaceAttributeRefsInAttributeValues(ctx, e.GetAttributes()); err != nil {
-- 
2.43.0


From 14f9a4803b2e58c404f3e281cf7fc11de32cffc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:21 +0000
Subject: [PATCH 123/143] fix: labels of cross references with references to
 attributes were lost when not replaced

---
 pkg/renderer/sgml/cross_reference.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/renderer/sgml/cross_reference.go b/pkg/renderer/sgml/cross_reference.go
index f9e363b..c1646e7 100644
--- a/pkg/renderer/sgml/cross_reference.go
+++ b/pkg/renderer/sgml/cross_reference.go
@@ -21,7 +21,8 @@ func (r *sgmlRenderer) renderInternalCrossReference(ctx *context, xref *types.In
 		return "", errors.Errorf("unable to process internal cross reference: invalid ID: '%v'", xref.ID)
 	}
 	href, target, found := ctx.resolveReference(xrefID)
-	if xrefLabel, ok := xref.Label.(string); ok {
+	attrs := types.Attributes{types.AttrXRefLabel: xref.Label} // may have references to attributes which are not replaced
+	if xrefLabel, ok := attrs.GetAsString(types.AttrXRefLabel); ok && xref.Label != nil {
 		label = escapeString(xrefLabel)
 	} else if _, within := ctx.labels[href]; found && !within { // a title may have a cross reference to itself
 		ctx.labels[href] = struct{}{}
-- 
2.43.0


From e334b7d453edb50ea0eb818601006d5656cf8cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:21 +0000
Subject: [PATCH 124/143] fix: counters in the labels of cross references were
 not replaced

---
 pkg/parser/parser.go  | 16314 ++++++++++++++++++++--------------------
 pkg/parser/parser.peg |     1 +
 2 files changed, 8322 insertions(+), 7993 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 0e9daf4..ef4a334 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 359, col: 49, offset: 10879},
 													expr: &actionExpr{
-														pos: position{line: 2877, col: 10, offset: 91223},
+														pos: position{line: 2878, col: 10, offset: 91246},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2877, col: 10, offset: 91223},
+															pos:        position{line: 2878, col: 10, offset: 91246},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2899, col: 8, offset: 91621},
+													pos: position{line: 2900, col: 8, offset: 91644},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2886, col: 12, offset: 91394},
+															pos: position{line: 2887, col: 12, offset: 91417},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2886, col: 13, offset: 91395},
+																pos: position{line: 2887, col: 13, offset: 91418},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 13, offset: 91395},
+																		pos:        position{line: 2887, col: 13, offset: 91418},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 20, offset: 91402},
+																		pos:        position{line: 2887, col: 20, offset: 91425},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 29, offset: 91411},
+																		pos:        position{line: 2887, col: 29, offset: 91434},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2896, col: 8, offset: 91571},
+															pos: position{line: 2897, col: 8, offset: 91594},
 															expr: &anyMatcher{
-																line: 2896, col: 9, offset: 91572,
+																line: 2897, col: 9, offset: 91595,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 361, col: 39, offset: 11000},
 													expr: &actionExpr{
-														pos: position{line: 2877, col: 10, offset: 91223},
+														pos: position{line: 2878, col: 10, offset: 91246},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2877, col: 10, offset: 91223},
+															pos:        position{line: 2878, col: 10, offset: 91246},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2899, col: 8, offset: 91621},
+													pos: position{line: 2900, col: 8, offset: 91644},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2886, col: 12, offset: 91394},
+															pos: position{line: 2887, col: 12, offset: 91417},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2886, col: 13, offset: 91395},
+																pos: position{line: 2887, col: 13, offset: 91418},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 13, offset: 91395},
+																		pos:        position{line: 2887, col: 13, offset: 91418},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 20, offset: 91402},
+																		pos:        position{line: 2887, col: 20, offset: 91425},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 29, offset: 91411},
+																		pos:        position{line: 2887, col: 29, offset: 91434},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2896, col: 8, offset: 91571},
+															pos: position{line: 2897, col: 8, offset: 91594},
 															expr: &anyMatcher{
-																line: 2896, col: 9, offset: 91572,
+																line: 2897, col: 9, offset: 91595,
 															},
 														},
 													},
@@ -321,10 +321,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 78, col: 41, offset: 2149},
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 10, offset: 91223},
+																							pos: position{line: 2878, col: 10, offset: 91246},
 																							run: (*parser).callonDocumentRawLine66,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2877, col: 10, offset: 91223},
+																								pos:        position{line: 2878, col: 10, offset: 91246},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -333,9 +333,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2896, col: 8, offset: 91571},
+																						pos: position{line: 2897, col: 8, offset: 91594},
 																						expr: &anyMatcher{
-																							line: 2896, col: 9, offset: 91572,
+																							line: 2897, col: 9, offset: 91595,
 																						},
 																					},
 																				},
@@ -363,10 +363,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2877, col: 10, offset: 91223},
+														pos: position{line: 2878, col: 10, offset: 91246},
 														run: (*parser).callonDocumentRawLine73,
 														expr: &charClassMatcher{
-															pos:        position{line: 2877, col: 10, offset: 91223},
+															pos:        position{line: 2878, col: 10, offset: 91246},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -375,9 +375,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2896, col: 8, offset: 91571},
+													pos: position{line: 2897, col: 8, offset: 91594},
 													expr: &anyMatcher{
-														line: 2896, col: 9, offset: 91572,
+														line: 2897, col: 9, offset: 91595,
 													},
 												},
 											},
@@ -446,10 +446,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 78, col: 41, offset: 2149},
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 10, offset: 91223},
+																							pos: position{line: 2878, col: 10, offset: 91246},
 																							run: (*parser).callonDocumentRawLine94,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2877, col: 10, offset: 91223},
+																								pos:        position{line: 2878, col: 10, offset: 91246},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -458,9 +458,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2896, col: 8, offset: 91571},
+																						pos: position{line: 2897, col: 8, offset: 91594},
 																						expr: &anyMatcher{
-																							line: 2896, col: 9, offset: 91572,
+																							line: 2897, col: 9, offset: 91595,
 																						},
 																					},
 																				},
@@ -488,10 +488,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2877, col: 10, offset: 91223},
+														pos: position{line: 2878, col: 10, offset: 91246},
 														run: (*parser).callonDocumentRawLine101,
 														expr: &charClassMatcher{
-															pos:        position{line: 2877, col: 10, offset: 91223},
+															pos:        position{line: 2878, col: 10, offset: 91246},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -500,9 +500,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2896, col: 8, offset: 91571},
+													pos: position{line: 2897, col: 8, offset: 91594},
 													expr: &anyMatcher{
-														line: 2896, col: 9, offset: 91572,
+														line: 2897, col: 9, offset: 91595,
 													},
 												},
 											},
@@ -972,24 +972,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2873, col: 10, offset: 91126},
+																pos: position{line: 2874, col: 10, offset: 91149},
 																run: (*parser).callonDocumentRawLine197,
 																expr: &seqExpr{
-																	pos: position{line: 2873, col: 11, offset: 91127},
+																	pos: position{line: 2874, col: 11, offset: 91150},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2873, col: 11, offset: 91127},
+																			pos: position{line: 2874, col: 11, offset: 91150},
 																			expr: &litMatcher{
-																				pos:        position{line: 2873, col: 11, offset: 91127},
+																				pos:        position{line: 2874, col: 11, offset: 91150},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2873, col: 16, offset: 91132},
+																			pos: position{line: 2874, col: 16, offset: 91155},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 16, offset: 91132},
+																				pos:        position{line: 2874, col: 16, offset: 91155},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -997,15 +997,15 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 23, offset: 91139},
+																			pos:        position{line: 2874, col: 23, offset: 91162},
 																			val:        ".",
 																			ignoreCase: false,
 																			want:       "\".\"",
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2873, col: 27, offset: 91143},
+																			pos: position{line: 2874, col: 27, offset: 91166},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 27, offset: 91143},
+																				pos:        position{line: 2874, col: 27, offset: 91166},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1016,24 +1016,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2869, col: 12, offset: 91050},
+																pos: position{line: 2870, col: 12, offset: 91073},
 																run: (*parser).callonDocumentRawLine206,
 																expr: &seqExpr{
-																	pos: position{line: 2869, col: 13, offset: 91051},
+																	pos: position{line: 2870, col: 13, offset: 91074},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2869, col: 13, offset: 91051},
+																			pos: position{line: 2870, col: 13, offset: 91074},
 																			expr: &litMatcher{
-																				pos:        position{line: 2869, col: 13, offset: 91051},
+																				pos:        position{line: 2870, col: 13, offset: 91074},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2869, col: 18, offset: 91056},
+																			pos: position{line: 2870, col: 18, offset: 91079},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2869, col: 18, offset: 91056},
+																				pos:        position{line: 2870, col: 18, offset: 91079},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1049,10 +1049,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2280},
 													expr: &actionExpr{
-														pos: position{line: 2877, col: 10, offset: 91223},
+														pos: position{line: 2878, col: 10, offset: 91246},
 														run: (*parser).callonDocumentRawLine213,
 														expr: &charClassMatcher{
-															pos:        position{line: 2877, col: 10, offset: 91223},
+															pos:        position{line: 2878, col: 10, offset: 91246},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1132,10 +1132,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2326},
 													expr: &actionExpr{
-														pos: position{line: 2877, col: 10, offset: 91223},
+														pos: position{line: 2878, col: 10, offset: 91246},
 														run: (*parser).callonDocumentRawLine230,
 														expr: &charClassMatcher{
-															pos:        position{line: 2877, col: 10, offset: 91223},
+															pos:        position{line: 2878, col: 10, offset: 91246},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1595,24 +1595,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2873, col: 10, offset: 91126},
+																pos: position{line: 2874, col: 10, offset: 91149},
 																run: (*parser).callonDocumentRawLine321,
 																expr: &seqExpr{
-																	pos: position{line: 2873, col: 11, offset: 91127},
+																	pos: position{line: 2874, col: 11, offset: 91150},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2873, col: 11, offset: 91127},
+																			pos: position{line: 2874, col: 11, offset: 91150},
 																			expr: &litMatcher{
-																				pos:        position{line: 2873, col: 11, offset: 91127},
+																				pos:        position{line: 2874, col: 11, offset: 91150},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2873, col: 16, offset: 91132},
+																			pos: position{line: 2874, col: 16, offset: 91155},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 16, offset: 91132},
+																				pos:        position{line: 2874, col: 16, offset: 91155},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1620,15 +1620,15 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 23, offset: 91139},
+																			pos:        position{line: 2874, col: 23, offset: 91162},
 																			val:        ".",
 																			ignoreCase: false,
 																			want:       "\".\"",
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2873, col: 27, offset: 91143},
+																			pos: position{line: 2874, col: 27, offset: 91166},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 27, offset: 91143},
+																				pos:        position{line: 2874, col: 27, offset: 91166},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1639,24 +1639,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2869, col: 12, offset: 91050},
+																pos: position{line: 2870, col: 12, offset: 91073},
 																run: (*parser).callonDocumentRawLine330,
 																expr: &seqExpr{
-																	pos: position{line: 2869, col: 13, offset: 91051},
+																	pos: position{line: 2870, col: 13, offset: 91074},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2869, col: 13, offset: 91051},
+																			pos: position{line: 2870, col: 13, offset: 91074},
 																			expr: &litMatcher{
-																				pos:        position{line: 2869, col: 13, offset: 91051},
+																				pos:        position{line: 2870, col: 13, offset: 91074},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2869, col: 18, offset: 91056},
+																			pos: position{line: 2870, col: 18, offset: 91079},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2869, col: 18, offset: 91056},
+																				pos:        position{line: 2870, col: 18, offset: 91079},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1678,10 +1678,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2378},
 													expr: &actionExpr{
-														pos: position{line: 2877, col: 10, offset: 91223},
+														pos: position{line: 2878, col: 10, offset: 91246},
 														run: (*parser).callonDocumentRawLine338,
 														expr: &charClassMatcher{
-															pos:        position{line: 2877, col: 10, offset: 91223},
+															pos:        position{line: 2878, col: 10, offset: 91246},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1690,9 +1690,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2896, col: 8, offset: 91571},
+													pos: position{line: 2897, col: 8, offset: 91594},
 													expr: &anyMatcher{
-														line: 2896, col: 9, offset: 91572,
+														line: 2897, col: 9, offset: 91595,
 													},
 												},
 											},
@@ -1764,10 +1764,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 78, col: 41, offset: 2149},
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 10, offset: 91223},
+																							pos: position{line: 2878, col: 10, offset: 91246},
 																							run: (*parser).callonDocumentRawLine360,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2877, col: 10, offset: 91223},
+																								pos:        position{line: 2878, col: 10, offset: 91246},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -1776,9 +1776,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2896, col: 8, offset: 91571},
+																						pos: position{line: 2897, col: 8, offset: 91594},
 																						expr: &anyMatcher{
-																							line: 2896, col: 9, offset: 91572,
+																							line: 2897, col: 9, offset: 91595,
 																						},
 																					},
 																				},
@@ -1806,10 +1806,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3474},
 													expr: &actionExpr{
-														pos: position{line: 2877, col: 10, offset: 91223},
+														pos: position{line: 2878, col: 10, offset: 91246},
 														run: (*parser).callonDocumentRawLine367,
 														expr: &charClassMatcher{
-															pos:        position{line: 2877, col: 10, offset: 91223},
+															pos:        position{line: 2878, col: 10, offset: 91246},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1818,24 +1818,24 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2896, col: 8, offset: 91571},
+													pos: position{line: 2897, col: 8, offset: 91594},
 													expr: &anyMatcher{
-														line: 2896, col: 9, offset: 91572,
+														line: 2897, col: 9, offset: 91595,
 													},
 												},
 											},
 										},
 									},
 									&actionExpr{
-										pos: position{line: 724, col: 5, offset: 23078},
+										pos: position{line: 725, col: 5, offset: 23101},
 										run: (*parser).callonDocumentRawLine371,
 										expr: &seqExpr{
-											pos: position{line: 724, col: 5, offset: 23078},
+											pos: position{line: 725, col: 5, offset: 23101},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 724, col: 5, offset: 23078},
+													pos: position{line: 725, col: 5, offset: 23101},
 													expr: &charClassMatcher{
-														pos:        position{line: 2767, col: 13, offset: 88297},
+														pos:        position{line: 2768, col: 13, offset: 88320},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1843,36 +1843,36 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 725, col: 5, offset: 23108},
+													pos:   position{line: 726, col: 5, offset: 23131},
 													label: "delimiter",
 													expr: &choiceExpr{
-														pos: position{line: 726, col: 9, offset: 23128},
+														pos: position{line: 727, col: 9, offset: 23151},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 740, col: 5, offset: 23620},
+																pos: position{line: 741, col: 5, offset: 23643},
 																run: (*parser).callonDocumentRawLine377,
 																expr: &seqExpr{
-																	pos: position{line: 740, col: 5, offset: 23620},
+																	pos: position{line: 741, col: 5, offset: 23643},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 740, col: 5, offset: 23620},
+																			pos:   position{line: 741, col: 5, offset: 23643},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 740, col: 16, offset: 23631},
+																				pos: position{line: 741, col: 16, offset: 23654},
 																				run: (*parser).callonDocumentRawLine380,
 																				expr: &seqExpr{
-																					pos: position{line: 740, col: 16, offset: 23631},
+																					pos: position{line: 741, col: 16, offset: 23654},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 740, col: 16, offset: 23631},
+																							pos:        position{line: 741, col: 16, offset: 23654},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 740, col: 23, offset: 23638},
+																							pos: position{line: 741, col: 23, offset: 23661},
 																							expr: &litMatcher{
-																								pos:        position{line: 740, col: 23, offset: 23638},
+																								pos:        position{line: 741, col: 23, offset: 23661},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -1883,12 +1883,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 742, col: 8, offset: 23722},
+																			pos: position{line: 743, col: 8, offset: 23745},
 																			expr: &actionExpr{
-																				pos: position{line: 2877, col: 10, offset: 91223},
+																				pos: position{line: 2878, col: 10, offset: 91246},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 10, offset: 91223},
+																					pos:        position{line: 2878, col: 10, offset: 91246},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1897,28 +1897,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2899, col: 8, offset: 91621},
+																			pos: position{line: 2900, col: 8, offset: 91644},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2886, col: 12, offset: 91394},
+																					pos: position{line: 2887, col: 12, offset: 91417},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2886, col: 13, offset: 91395},
+																						pos: position{line: 2887, col: 13, offset: 91418},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 13, offset: 91395},
+																								pos:        position{line: 2887, col: 13, offset: 91418},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 20, offset: 91402},
+																								pos:        position{line: 2887, col: 20, offset: 91425},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 29, offset: 91411},
+																								pos:        position{line: 2887, col: 29, offset: 91434},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1927,9 +1927,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91571},
+																					pos: position{line: 2897, col: 8, offset: 91594},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91572,
+																						line: 2897, col: 9, offset: 91595,
 																					},
 																				},
 																			},
@@ -1938,30 +1938,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 747, col: 5, offset: 23868},
+																pos: position{line: 748, col: 5, offset: 23891},
 																run: (*parser).callonDocumentRawLine396,
 																expr: &seqExpr{
-																	pos: position{line: 747, col: 5, offset: 23868},
+																	pos: position{line: 748, col: 5, offset: 23891},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 747, col: 5, offset: 23868},
+																			pos:   position{line: 748, col: 5, offset: 23891},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 747, col: 16, offset: 23879},
+																				pos: position{line: 748, col: 16, offset: 23902},
 																				run: (*parser).callonDocumentRawLine399,
 																				expr: &seqExpr{
-																					pos: position{line: 747, col: 16, offset: 23879},
+																					pos: position{line: 748, col: 16, offset: 23902},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 747, col: 16, offset: 23879},
+																							pos:        position{line: 748, col: 16, offset: 23902},
 																							val:        "====",
 																							ignoreCase: false,
 																							want:       "\"====\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 747, col: 23, offset: 23886},
+																							pos: position{line: 748, col: 23, offset: 23909},
 																							expr: &litMatcher{
-																								pos:        position{line: 747, col: 23, offset: 23886},
+																								pos:        position{line: 748, col: 23, offset: 23909},
 																								val:        "=",
 																								ignoreCase: false,
 																								want:       "\"=\"",
@@ -1972,12 +1972,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 749, col: 8, offset: 23970},
+																			pos: position{line: 750, col: 8, offset: 23993},
 																			expr: &actionExpr{
-																				pos: position{line: 2877, col: 10, offset: 91223},
+																				pos: position{line: 2878, col: 10, offset: 91246},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 10, offset: 91223},
+																					pos:        position{line: 2878, col: 10, offset: 91246},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1986,28 +1986,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2899, col: 8, offset: 91621},
+																			pos: position{line: 2900, col: 8, offset: 91644},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2886, col: 12, offset: 91394},
+																					pos: position{line: 2887, col: 12, offset: 91417},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2886, col: 13, offset: 91395},
+																						pos: position{line: 2887, col: 13, offset: 91418},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 13, offset: 91395},
+																								pos:        position{line: 2887, col: 13, offset: 91418},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 20, offset: 91402},
+																								pos:        position{line: 2887, col: 20, offset: 91425},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 29, offset: 91411},
+																								pos:        position{line: 2887, col: 29, offset: 91434},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2016,9 +2016,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91571},
+																					pos: position{line: 2897, col: 8, offset: 91594},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91572,
+																						line: 2897, col: 9, offset: 91595,
 																					},
 																				},
 																			},
@@ -2027,27 +2027,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 760, col: 26, offset: 24356},
+																pos: position{line: 761, col: 26, offset: 24379},
 																run: (*parser).callonDocumentRawLine415,
 																expr: &seqExpr{
-																	pos: position{line: 760, col: 26, offset: 24356},
+																	pos: position{line: 761, col: 26, offset: 24379},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 760, col: 26, offset: 24356},
+																			pos:        position{line: 761, col: 26, offset: 24379},
 																			val:        "```",
 																			ignoreCase: false,
 																			want:       "\"```\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 760, col: 32, offset: 24362},
+																			pos:   position{line: 761, col: 32, offset: 24385},
 																			label: "language",
 																			expr: &actionExpr{
-																				pos: position{line: 764, col: 13, offset: 24492},
+																				pos: position{line: 765, col: 13, offset: 24515},
 																				run: (*parser).callonDocumentRawLine419,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 764, col: 14, offset: 24493},
+																					pos: position{line: 765, col: 14, offset: 24516},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 764, col: 14, offset: 24493},
+																						pos:        position{line: 765, col: 14, offset: 24516},
 																						val:        "[^\\r\\n`\\t ]",
 																						chars:      []rune{'\r', '\n', '`', '\t', ' '},
 																						ignoreCase: false,
@@ -2057,12 +2057,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 760, col: 52, offset: 24382},
+																			pos: position{line: 761, col: 52, offset: 24405},
 																			expr: &actionExpr{
-																				pos: position{line: 2877, col: 10, offset: 91223},
+																				pos: position{line: 2878, col: 10, offset: 91246},
 																				run: (*parser).callonDocumentRawLine423,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 10, offset: 91223},
+																					pos:        position{line: 2878, col: 10, offset: 91246},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2071,28 +2071,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2899, col: 8, offset: 91621},
+																			pos: position{line: 2900, col: 8, offset: 91644},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2886, col: 12, offset: 91394},
+																					pos: position{line: 2887, col: 12, offset: 91417},
 																					run: (*parser).callonDocumentRawLine426,
 																					expr: &choiceExpr{
-																						pos: position{line: 2886, col: 13, offset: 91395},
+																						pos: position{line: 2887, col: 13, offset: 91418},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 13, offset: 91395},
+																								pos:        position{line: 2887, col: 13, offset: 91418},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 20, offset: 91402},
+																								pos:        position{line: 2887, col: 20, offset: 91425},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 29, offset: 91411},
+																								pos:        position{line: 2887, col: 29, offset: 91434},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2101,9 +2101,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91571},
+																					pos: position{line: 2897, col: 8, offset: 91594},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91572,
+																						line: 2897, col: 9, offset: 91595,
 																					},
 																				},
 																			},
@@ -2112,30 +2112,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 754, col: 5, offset: 24115},
+																pos: position{line: 755, col: 5, offset: 24138},
 																run: (*parser).callonDocumentRawLine433,
 																expr: &seqExpr{
-																	pos: position{line: 754, col: 5, offset: 24115},
+																	pos: position{line: 755, col: 5, offset: 24138},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 754, col: 5, offset: 24115},
+																			pos:   position{line: 755, col: 5, offset: 24138},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 754, col: 16, offset: 24126},
+																				pos: position{line: 755, col: 16, offset: 24149},
 																				run: (*parser).callonDocumentRawLine436,
 																				expr: &seqExpr{
-																					pos: position{line: 754, col: 16, offset: 24126},
+																					pos: position{line: 755, col: 16, offset: 24149},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 754, col: 16, offset: 24126},
+																							pos:        position{line: 755, col: 16, offset: 24149},
 																							val:        "```",
 																							ignoreCase: false,
 																							want:       "\"```\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 754, col: 22, offset: 24132},
+																							pos: position{line: 755, col: 22, offset: 24155},
 																							expr: &litMatcher{
-																								pos:        position{line: 754, col: 22, offset: 24132},
+																								pos:        position{line: 755, col: 22, offset: 24155},
 																								val:        "`",
 																								ignoreCase: false,
 																								want:       "\"`\"",
@@ -2146,12 +2146,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 756, col: 8, offset: 24216},
+																			pos: position{line: 757, col: 8, offset: 24239},
 																			expr: &actionExpr{
-																				pos: position{line: 2877, col: 10, offset: 91223},
+																				pos: position{line: 2878, col: 10, offset: 91246},
 																				run: (*parser).callonDocumentRawLine442,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 10, offset: 91223},
+																					pos:        position{line: 2878, col: 10, offset: 91246},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2160,28 +2160,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2899, col: 8, offset: 91621},
+																			pos: position{line: 2900, col: 8, offset: 91644},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2886, col: 12, offset: 91394},
+																					pos: position{line: 2887, col: 12, offset: 91417},
 																					run: (*parser).callonDocumentRawLine445,
 																					expr: &choiceExpr{
-																						pos: position{line: 2886, col: 13, offset: 91395},
+																						pos: position{line: 2887, col: 13, offset: 91418},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 13, offset: 91395},
+																								pos:        position{line: 2887, col: 13, offset: 91418},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 20, offset: 91402},
+																								pos:        position{line: 2887, col: 20, offset: 91425},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 29, offset: 91411},
+																								pos:        position{line: 2887, col: 29, offset: 91434},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2190,9 +2190,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91571},
+																					pos: position{line: 2897, col: 8, offset: 91594},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91572,
+																						line: 2897, col: 9, offset: 91595,
 																					},
 																				},
 																			},
@@ -2201,30 +2201,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 769, col: 5, offset: 24657},
+																pos: position{line: 770, col: 5, offset: 24680},
 																run: (*parser).callonDocumentRawLine452,
 																expr: &seqExpr{
-																	pos: position{line: 769, col: 5, offset: 24657},
+																	pos: position{line: 770, col: 5, offset: 24680},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 769, col: 5, offset: 24657},
+																			pos:   position{line: 770, col: 5, offset: 24680},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 769, col: 16, offset: 24668},
+																				pos: position{line: 770, col: 16, offset: 24691},
 																				run: (*parser).callonDocumentRawLine455,
 																				expr: &seqExpr{
-																					pos: position{line: 769, col: 16, offset: 24668},
+																					pos: position{line: 770, col: 16, offset: 24691},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 769, col: 16, offset: 24668},
+																							pos:        position{line: 770, col: 16, offset: 24691},
 																							val:        "----",
 																							ignoreCase: false,
 																							want:       "\"----\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 769, col: 23, offset: 24675},
+																							pos: position{line: 770, col: 23, offset: 24698},
 																							expr: &litMatcher{
-																								pos:        position{line: 769, col: 23, offset: 24675},
+																								pos:        position{line: 770, col: 23, offset: 24698},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
@@ -2235,12 +2235,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 771, col: 8, offset: 24759},
+																			pos: position{line: 772, col: 8, offset: 24782},
 																			expr: &actionExpr{
-																				pos: position{line: 2877, col: 10, offset: 91223},
+																				pos: position{line: 2878, col: 10, offset: 91246},
 																				run: (*parser).callonDocumentRawLine461,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 10, offset: 91223},
+																					pos:        position{line: 2878, col: 10, offset: 91246},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2249,28 +2249,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2899, col: 8, offset: 91621},
+																			pos: position{line: 2900, col: 8, offset: 91644},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2886, col: 12, offset: 91394},
+																					pos: position{line: 2887, col: 12, offset: 91417},
 																					run: (*parser).callonDocumentRawLine464,
 																					expr: &choiceExpr{
-																						pos: position{line: 2886, col: 13, offset: 91395},
+																						pos: position{line: 2887, col: 13, offset: 91418},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 13, offset: 91395},
+																								pos:        position{line: 2887, col: 13, offset: 91418},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 20, offset: 91402},
+																								pos:        position{line: 2887, col: 20, offset: 91425},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 29, offset: 91411},
+																								pos:        position{line: 2887, col: 29, offset: 91434},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2279,9 +2279,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91571},
+																					pos: position{line: 2897, col: 8, offset: 91594},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91572,
+																						line: 2897, col: 9, offset: 91595,
 																					},
 																				},
 																			},
@@ -2290,30 +2290,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 783, col: 5, offset: 25133},
+																pos: position{line: 784, col: 5, offset: 25156},
 																run: (*parser).callonDocumentRawLine471,
 																expr: &seqExpr{
-																	pos: position{line: 783, col: 5, offset: 25133},
+																	pos: position{line: 784, col: 5, offset: 25156},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 783, col: 5, offset: 25133},
+																			pos:   position{line: 784, col: 5, offset: 25156},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 783, col: 16, offset: 25144},
+																				pos: position{line: 784, col: 16, offset: 25167},
 																				run: (*parser).callonDocumentRawLine474,
 																				expr: &seqExpr{
-																					pos: position{line: 783, col: 16, offset: 25144},
+																					pos: position{line: 784, col: 16, offset: 25167},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 783, col: 16, offset: 25144},
+																							pos:        position{line: 784, col: 16, offset: 25167},
 																							val:        "....",
 																							ignoreCase: false,
 																							want:       "\"....\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 783, col: 23, offset: 25151},
+																							pos: position{line: 784, col: 23, offset: 25174},
 																							expr: &litMatcher{
-																								pos:        position{line: 783, col: 23, offset: 25151},
+																								pos:        position{line: 784, col: 23, offset: 25174},
 																								val:        ".",
 																								ignoreCase: false,
 																								want:       "\".\"",
@@ -2324,12 +2324,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 785, col: 8, offset: 25235},
+																			pos: position{line: 786, col: 8, offset: 25258},
 																			expr: &actionExpr{
-																				pos: position{line: 2877, col: 10, offset: 91223},
+																				pos: position{line: 2878, col: 10, offset: 91246},
 																				run: (*parser).callonDocumentRawLine480,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 10, offset: 91223},
+																					pos:        position{line: 2878, col: 10, offset: 91246},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2338,28 +2338,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2899, col: 8, offset: 91621},
+																			pos: position{line: 2900, col: 8, offset: 91644},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2886, col: 12, offset: 91394},
+																					pos: position{line: 2887, col: 12, offset: 91417},
 																					run: (*parser).callonDocumentRawLine483,
 																					expr: &choiceExpr{
-																						pos: position{line: 2886, col: 13, offset: 91395},
+																						pos: position{line: 2887, col: 13, offset: 91418},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 13, offset: 91395},
+																								pos:        position{line: 2887, col: 13, offset: 91418},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 20, offset: 91402},
+																								pos:        position{line: 2887, col: 20, offset: 91425},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 29, offset: 91411},
+																								pos:        position{line: 2887, col: 29, offset: 91434},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2368,9 +2368,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91571},
+																					pos: position{line: 2897, col: 8, offset: 91594},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91572,
+																						line: 2897, col: 9, offset: 91595,
 																					},
 																				},
 																			},
@@ -2379,30 +2379,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 790, col: 5, offset: 25385},
+																pos: position{line: 791, col: 5, offset: 25408},
 																run: (*parser).callonDocumentRawLine490,
 																expr: &seqExpr{
-																	pos: position{line: 790, col: 5, offset: 25385},
+																	pos: position{line: 791, col: 5, offset: 25408},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 790, col: 5, offset: 25385},
+																			pos:   position{line: 791, col: 5, offset: 25408},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 790, col: 16, offset: 25396},
+																				pos: position{line: 791, col: 16, offset: 25419},
 																				run: (*parser).callonDocumentRawLine493,
 																				expr: &seqExpr{
-																					pos: position{line: 790, col: 16, offset: 25396},
+																					pos: position{line: 791, col: 16, offset: 25419},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 790, col: 16, offset: 25396},
+																							pos:        position{line: 791, col: 16, offset: 25419},
 																							val:        "++++",
 																							ignoreCase: false,
 																							want:       "\"++++\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 790, col: 23, offset: 25403},
+																							pos: position{line: 791, col: 23, offset: 25426},
 																							expr: &litMatcher{
-																								pos:        position{line: 790, col: 23, offset: 25403},
+																								pos:        position{line: 791, col: 23, offset: 25426},
 																								val:        "+",
 																								ignoreCase: false,
 																								want:       "\"+\"",
@@ -2413,12 +2413,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 792, col: 8, offset: 25487},
+																			pos: position{line: 793, col: 8, offset: 25510},
 																			expr: &actionExpr{
-																				pos: position{line: 2877, col: 10, offset: 91223},
+																				pos: position{line: 2878, col: 10, offset: 91246},
 																				run: (*parser).callonDocumentRawLine499,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 10, offset: 91223},
+																					pos:        position{line: 2878, col: 10, offset: 91246},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2427,28 +2427,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2899, col: 8, offset: 91621},
+																			pos: position{line: 2900, col: 8, offset: 91644},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2886, col: 12, offset: 91394},
+																					pos: position{line: 2887, col: 12, offset: 91417},
 																					run: (*parser).callonDocumentRawLine502,
 																					expr: &choiceExpr{
-																						pos: position{line: 2886, col: 13, offset: 91395},
+																						pos: position{line: 2887, col: 13, offset: 91418},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 13, offset: 91395},
+																								pos:        position{line: 2887, col: 13, offset: 91418},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 20, offset: 91402},
+																								pos:        position{line: 2887, col: 20, offset: 91425},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 29, offset: 91411},
+																								pos:        position{line: 2887, col: 29, offset: 91434},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2457,9 +2457,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91571},
+																					pos: position{line: 2897, col: 8, offset: 91594},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91572,
+																						line: 2897, col: 9, offset: 91595,
 																					},
 																				},
 																			},
@@ -2468,30 +2468,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 797, col: 5, offset: 25635},
+																pos: position{line: 798, col: 5, offset: 25658},
 																run: (*parser).callonDocumentRawLine509,
 																expr: &seqExpr{
-																	pos: position{line: 797, col: 5, offset: 25635},
+																	pos: position{line: 798, col: 5, offset: 25658},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 797, col: 5, offset: 25635},
+																			pos:   position{line: 798, col: 5, offset: 25658},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 797, col: 16, offset: 25646},
+																				pos: position{line: 798, col: 16, offset: 25669},
 																				run: (*parser).callonDocumentRawLine512,
 																				expr: &seqExpr{
-																					pos: position{line: 797, col: 16, offset: 25646},
+																					pos: position{line: 798, col: 16, offset: 25669},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 797, col: 16, offset: 25646},
+																							pos:        position{line: 798, col: 16, offset: 25669},
 																							val:        "____",
 																							ignoreCase: false,
 																							want:       "\"____\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 797, col: 23, offset: 25653},
+																							pos: position{line: 798, col: 23, offset: 25676},
 																							expr: &litMatcher{
-																								pos:        position{line: 797, col: 23, offset: 25653},
+																								pos:        position{line: 798, col: 23, offset: 25676},
 																								val:        "_",
 																								ignoreCase: false,
 																								want:       "\"_\"",
@@ -2502,12 +2502,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 799, col: 8, offset: 25737},
+																			pos: position{line: 800, col: 8, offset: 25760},
 																			expr: &actionExpr{
-																				pos: position{line: 2877, col: 10, offset: 91223},
+																				pos: position{line: 2878, col: 10, offset: 91246},
 																				run: (*parser).callonDocumentRawLine518,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 10, offset: 91223},
+																					pos:        position{line: 2878, col: 10, offset: 91246},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2516,28 +2516,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2899, col: 8, offset: 91621},
+																			pos: position{line: 2900, col: 8, offset: 91644},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2886, col: 12, offset: 91394},
+																					pos: position{line: 2887, col: 12, offset: 91417},
 																					run: (*parser).callonDocumentRawLine521,
 																					expr: &choiceExpr{
-																						pos: position{line: 2886, col: 13, offset: 91395},
+																						pos: position{line: 2887, col: 13, offset: 91418},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 13, offset: 91395},
+																								pos:        position{line: 2887, col: 13, offset: 91418},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 20, offset: 91402},
+																								pos:        position{line: 2887, col: 20, offset: 91425},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 29, offset: 91411},
+																								pos:        position{line: 2887, col: 29, offset: 91434},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2546,9 +2546,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91571},
+																					pos: position{line: 2897, col: 8, offset: 91594},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91572,
+																						line: 2897, col: 9, offset: 91595,
 																					},
 																				},
 																			},
@@ -2557,30 +2557,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 804, col: 5, offset: 25881},
+																pos: position{line: 805, col: 5, offset: 25904},
 																run: (*parser).callonDocumentRawLine528,
 																expr: &seqExpr{
-																	pos: position{line: 804, col: 5, offset: 25881},
+																	pos: position{line: 805, col: 5, offset: 25904},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 804, col: 5, offset: 25881},
+																			pos:   position{line: 805, col: 5, offset: 25904},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 804, col: 16, offset: 25892},
+																				pos: position{line: 805, col: 16, offset: 25915},
 																				run: (*parser).callonDocumentRawLine531,
 																				expr: &seqExpr{
-																					pos: position{line: 804, col: 16, offset: 25892},
+																					pos: position{line: 805, col: 16, offset: 25915},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 804, col: 16, offset: 25892},
+																							pos:        position{line: 805, col: 16, offset: 25915},
 																							val:        "****",
 																							ignoreCase: false,
 																							want:       "\"****\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 804, col: 23, offset: 25899},
+																							pos: position{line: 805, col: 23, offset: 25922},
 																							expr: &litMatcher{
-																								pos:        position{line: 804, col: 23, offset: 25899},
+																								pos:        position{line: 805, col: 23, offset: 25922},
 																								val:        "*",
 																								ignoreCase: false,
 																								want:       "\"*\"",
@@ -2591,12 +2591,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 806, col: 8, offset: 25983},
+																			pos: position{line: 807, col: 8, offset: 26006},
 																			expr: &actionExpr{
-																				pos: position{line: 2877, col: 10, offset: 91223},
+																				pos: position{line: 2878, col: 10, offset: 91246},
 																				run: (*parser).callonDocumentRawLine537,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 10, offset: 91223},
+																					pos:        position{line: 2878, col: 10, offset: 91246},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2605,28 +2605,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2899, col: 8, offset: 91621},
+																			pos: position{line: 2900, col: 8, offset: 91644},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2886, col: 12, offset: 91394},
+																					pos: position{line: 2887, col: 12, offset: 91417},
 																					run: (*parser).callonDocumentRawLine540,
 																					expr: &choiceExpr{
-																						pos: position{line: 2886, col: 13, offset: 91395},
+																						pos: position{line: 2887, col: 13, offset: 91418},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 13, offset: 91395},
+																								pos:        position{line: 2887, col: 13, offset: 91418},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 20, offset: 91402},
+																								pos:        position{line: 2887, col: 20, offset: 91425},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 29, offset: 91411},
+																								pos:        position{line: 2887, col: 29, offset: 91434},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2635,9 +2635,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91571},
+																					pos: position{line: 2897, col: 8, offset: 91594},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91572,
+																						line: 2897, col: 9, offset: 91595,
 																					},
 																				},
 																			},
@@ -2687,12 +2687,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine555,
 												},
 												&actionExpr{
-													pos: position{line: 2881, col: 11, offset: 91284},
+													pos: position{line: 2882, col: 11, offset: 91307},
 													run: (*parser).callonDocumentRawLine556,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2881, col: 11, offset: 91284},
+														pos: position{line: 2882, col: 11, offset: 91307},
 														expr: &charClassMatcher{
-															pos:        position{line: 2881, col: 11, offset: 91284},
+															pos:        position{line: 2882, col: 11, offset: 91307},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2701,12 +2701,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2827, col: 14, offset: 89816},
+													pos: position{line: 2828, col: 14, offset: 89839},
 													run: (*parser).callonDocumentRawLine559,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2827, col: 14, offset: 89816},
+														pos: position{line: 2828, col: 14, offset: 89839},
 														expr: &charClassMatcher{
-															pos:        position{line: 2827, col: 14, offset: 89816},
+															pos:        position{line: 2828, col: 14, offset: 89839},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2715,9 +2715,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2896, col: 8, offset: 91571},
+													pos: position{line: 2897, col: 8, offset: 91594},
 													expr: &anyMatcher{
-														line: 2896, col: 9, offset: 91572,
+														line: 2897, col: 9, offset: 91595,
 													},
 												},
 											},
@@ -2727,9 +2727,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2896, col: 8, offset: 91571},
+							pos: position{line: 2897, col: 8, offset: 91594},
 							expr: &anyMatcher{
-								line: 2896, col: 9, offset: 91572,
+								line: 2897, col: 9, offset: 91595,
 							},
 						},
 					},
@@ -2764,41 +2764,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2831, col: 17, offset: 89886},
+												pos: position{line: 2832, col: 17, offset: 89909},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2831, col: 17, offset: 89886},
+													pos:   position{line: 2832, col: 17, offset: 89909},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2848, col: 5, offset: 90340},
+														pos: position{line: 2849, col: 5, offset: 90363},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2848, col: 5, offset: 90340},
+															pos:   position{line: 2849, col: 5, offset: 90363},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2848, col: 14, offset: 90349},
+																pos: position{line: 2849, col: 14, offset: 90372},
 																expr: &choiceExpr{
-																	pos: position{line: 2849, col: 9, offset: 90359},
+																	pos: position{line: 2850, col: 9, offset: 90382},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2849, col: 9, offset: 90359},
+																			pos: position{line: 2850, col: 9, offset: 90382},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2849, col: 9, offset: 90359},
+																				pos: position{line: 2850, col: 9, offset: 90382},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2849, col: 9, offset: 90359},
+																						pos: position{line: 2850, col: 9, offset: 90382},
 																						expr: &litMatcher{
-																							pos:        position{line: 2849, col: 10, offset: 90360},
+																							pos:        position{line: 2850, col: 10, offset: 90383},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2850, col: 9, offset: 90388},
+																						pos: position{line: 2851, col: 9, offset: 90411},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2850, col: 10, offset: 90389},
+																							pos:        position{line: 2851, col: 10, offset: 90412},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2809,27 +2809,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2853, col: 11, offset: 90601},
+																			pos: position{line: 2854, col: 11, offset: 90624},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2853, col: 11, offset: 90601},
+																					pos:        position{line: 2854, col: 11, offset: 90624},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2853, col: 19, offset: 90609},
+																					pos: position{line: 2854, col: 19, offset: 90632},
 																					expr: &seqExpr{
-																						pos: position{line: 2853, col: 21, offset: 90611},
+																						pos: position{line: 2854, col: 21, offset: 90634},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2853, col: 21, offset: 90611},
+																								pos: position{line: 2854, col: 21, offset: 90634},
 																								expr: &actionExpr{
-																									pos: position{line: 2877, col: 10, offset: 91223},
+																									pos: position{line: 2878, col: 10, offset: 91246},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 10, offset: 91223},
+																										pos:        position{line: 2878, col: 10, offset: 91246},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2838,11 +2838,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2853, col: 28, offset: 90618},
+																								pos: position{line: 2854, col: 28, offset: 90641},
 																								expr: &notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91571},
+																									pos: position{line: 2897, col: 8, offset: 91594},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91572,
+																										line: 2897, col: 9, offset: 91595,
 																									},
 																								},
 																							},
@@ -3198,27 +3198,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1198, col: 23, offset: 37013},
+																			pos: position{line: 1199, col: 23, offset: 37036},
 																			run: (*parser).callonFileInclusion99,
 																			expr: &seqExpr{
-																				pos: position{line: 1198, col: 23, offset: 37013},
+																				pos: position{line: 1199, col: 23, offset: 37036},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36981},
+																						pos:        position{line: 1197, col: 32, offset: 37004},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1198, col: 51, offset: 37041},
+																						pos:   position{line: 1199, col: 51, offset: 37064},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1198, col: 56, offset: 37046},
+																							pos: position{line: 1199, col: 56, offset: 37069},
 																							run: (*parser).callonFileInclusion103,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1198, col: 56, offset: 37046},
+																								pos: position{line: 1199, col: 56, offset: 37069},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1198, col: 56, offset: 37046},
+																									pos:        position{line: 1199, col: 56, offset: 37069},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -3228,23 +3228,23 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36981},
+																						pos:        position{line: 1197, col: 32, offset: 37004},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1199, col: 5, offset: 37118},
+																						pos: position{line: 1200, col: 5, offset: 37141},
 																						run: (*parser).callonFileInclusion107,
 																					},
 																				},
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2856, col: 11, offset: 90738},
+																			pos: position{line: 2857, col: 11, offset: 90761},
 																			run: (*parser).callonFileInclusion108,
 																			expr: &litMatcher{
-																				pos:        position{line: 2856, col: 11, offset: 90738},
+																				pos:        position{line: 2857, col: 11, offset: 90761},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3273,10 +3273,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2877, col: 10, offset: 91223},
+								pos: position{line: 2878, col: 10, offset: 91246},
 								run: (*parser).callonFileInclusion113,
 								expr: &charClassMatcher{
-									pos:        position{line: 2877, col: 10, offset: 91223},
+									pos:        position{line: 2878, col: 10, offset: 91246},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3285,28 +3285,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2899, col: 8, offset: 91621},
+							pos: position{line: 2900, col: 8, offset: 91644},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2886, col: 12, offset: 91394},
+									pos: position{line: 2887, col: 12, offset: 91417},
 									run: (*parser).callonFileInclusion116,
 									expr: &choiceExpr{
-										pos: position{line: 2886, col: 13, offset: 91395},
+										pos: position{line: 2887, col: 13, offset: 91418},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2886, col: 13, offset: 91395},
+												pos:        position{line: 2887, col: 13, offset: 91418},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2886, col: 20, offset: 91402},
+												pos:        position{line: 2887, col: 20, offset: 91425},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2886, col: 29, offset: 91411},
+												pos:        position{line: 2887, col: 29, offset: 91434},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3315,9 +3315,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2896, col: 8, offset: 91571},
+									pos: position{line: 2897, col: 8, offset: 91594},
 									expr: &anyMatcher{
-										line: 2896, col: 9, offset: 91572,
+										line: 2897, col: 9, offset: 91595,
 									},
 								},
 							},
@@ -3363,24 +3363,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2869, col: 12, offset: 91050},
+																				pos: position{line: 2870, col: 12, offset: 91073},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2869, col: 13, offset: 91051},
+																					pos: position{line: 2870, col: 13, offset: 91074},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2869, col: 13, offset: 91051},
+																							pos: position{line: 2870, col: 13, offset: 91074},
 																							expr: &litMatcher{
-																								pos:        position{line: 2869, col: 13, offset: 91051},
+																								pos:        position{line: 2870, col: 13, offset: 91074},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2869, col: 18, offset: 91056},
+																							pos: position{line: 2870, col: 18, offset: 91079},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2869, col: 18, offset: 91056},
+																								pos:        position{line: 2870, col: 18, offset: 91079},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3401,24 +3401,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2869, col: 12, offset: 91050},
+																				pos: position{line: 2870, col: 12, offset: 91073},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2869, col: 13, offset: 91051},
+																					pos: position{line: 2870, col: 13, offset: 91074},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2869, col: 13, offset: 91051},
+																							pos: position{line: 2870, col: 13, offset: 91074},
 																							expr: &litMatcher{
-																								pos:        position{line: 2869, col: 13, offset: 91051},
+																								pos:        position{line: 2870, col: 13, offset: 91074},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2869, col: 18, offset: 91056},
+																							pos: position{line: 2870, col: 18, offset: 91079},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2869, col: 18, offset: 91056},
+																								pos:        position{line: 2870, col: 18, offset: 91079},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3439,24 +3439,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2869, col: 12, offset: 91050},
+																		pos: position{line: 2870, col: 12, offset: 91073},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2869, col: 13, offset: 91051},
+																			pos: position{line: 2870, col: 13, offset: 91074},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2869, col: 13, offset: 91051},
+																					pos: position{line: 2870, col: 13, offset: 91074},
 																					expr: &litMatcher{
-																						pos:        position{line: 2869, col: 13, offset: 91051},
+																						pos:        position{line: 2870, col: 13, offset: 91074},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2869, col: 18, offset: 91056},
+																					pos: position{line: 2870, col: 18, offset: 91079},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2869, col: 18, offset: 91056},
+																						pos:        position{line: 2870, col: 18, offset: 91079},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3505,24 +3505,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2869, col: 12, offset: 91050},
+																									pos: position{line: 2870, col: 12, offset: 91073},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2869, col: 13, offset: 91051},
+																										pos: position{line: 2870, col: 13, offset: 91074},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2869, col: 13, offset: 91051},
+																												pos: position{line: 2870, col: 13, offset: 91074},
 																												expr: &litMatcher{
-																													pos:        position{line: 2869, col: 13, offset: 91051},
+																													pos:        position{line: 2870, col: 13, offset: 91074},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2869, col: 18, offset: 91056},
+																												pos: position{line: 2870, col: 18, offset: 91079},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2869, col: 18, offset: 91056},
+																													pos:        position{line: 2870, col: 18, offset: 91079},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3543,24 +3543,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2869, col: 12, offset: 91050},
+																									pos: position{line: 2870, col: 12, offset: 91073},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2869, col: 13, offset: 91051},
+																										pos: position{line: 2870, col: 13, offset: 91074},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2869, col: 13, offset: 91051},
+																												pos: position{line: 2870, col: 13, offset: 91074},
 																												expr: &litMatcher{
-																													pos:        position{line: 2869, col: 13, offset: 91051},
+																													pos:        position{line: 2870, col: 13, offset: 91074},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2869, col: 18, offset: 91056},
+																												pos: position{line: 2870, col: 18, offset: 91079},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2869, col: 18, offset: 91056},
+																													pos:        position{line: 2870, col: 18, offset: 91079},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3581,24 +3581,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2869, col: 12, offset: 91050},
+																							pos: position{line: 2870, col: 12, offset: 91073},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2869, col: 13, offset: 91051},
+																								pos: position{line: 2870, col: 13, offset: 91074},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2869, col: 13, offset: 91051},
+																										pos: position{line: 2870, col: 13, offset: 91074},
 																										expr: &litMatcher{
-																											pos:        position{line: 2869, col: 13, offset: 91051},
+																											pos:        position{line: 2870, col: 13, offset: 91074},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2869, col: 18, offset: 91056},
+																										pos: position{line: 2870, col: 18, offset: 91079},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2869, col: 18, offset: 91056},
+																											pos:        position{line: 2870, col: 18, offset: 91079},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3631,24 +3631,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2869, col: 12, offset: 91050},
+														pos: position{line: 2870, col: 12, offset: 91073},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2869, col: 13, offset: 91051},
+															pos: position{line: 2870, col: 13, offset: 91074},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2869, col: 13, offset: 91051},
+																	pos: position{line: 2870, col: 13, offset: 91074},
 																	expr: &litMatcher{
-																		pos:        position{line: 2869, col: 13, offset: 91051},
+																		pos:        position{line: 2870, col: 13, offset: 91074},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2869, col: 18, offset: 91056},
+																	pos: position{line: 2870, col: 18, offset: 91079},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2869, col: 18, offset: 91056},
+																		pos:        position{line: 2870, col: 18, offset: 91079},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3669,24 +3669,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2869, col: 12, offset: 91050},
+														pos: position{line: 2870, col: 12, offset: 91073},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2869, col: 13, offset: 91051},
+															pos: position{line: 2870, col: 13, offset: 91074},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2869, col: 13, offset: 91051},
+																	pos: position{line: 2870, col: 13, offset: 91074},
 																	expr: &litMatcher{
-																		pos:        position{line: 2869, col: 13, offset: 91051},
+																		pos:        position{line: 2870, col: 13, offset: 91074},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2869, col: 18, offset: 91056},
+																	pos: position{line: 2870, col: 18, offset: 91079},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2869, col: 18, offset: 91056},
+																		pos:        position{line: 2870, col: 18, offset: 91079},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3707,24 +3707,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2869, col: 12, offset: 91050},
+												pos: position{line: 2870, col: 12, offset: 91073},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2869, col: 13, offset: 91051},
+													pos: position{line: 2870, col: 13, offset: 91074},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2869, col: 13, offset: 91051},
+															pos: position{line: 2870, col: 13, offset: 91074},
 															expr: &litMatcher{
-																pos:        position{line: 2869, col: 13, offset: 91051},
+																pos:        position{line: 2870, col: 13, offset: 91074},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2869, col: 18, offset: 91056},
+															pos: position{line: 2870, col: 18, offset: 91079},
 															expr: &charClassMatcher{
-																pos:        position{line: 2869, col: 18, offset: 91056},
+																pos:        position{line: 2870, col: 18, offset: 91079},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3740,9 +3740,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2896, col: 8, offset: 91571},
+							pos: position{line: 2897, col: 8, offset: 91594},
 							expr: &anyMatcher{
-								line: 2896, col: 9, offset: 91572,
+								line: 2897, col: 9, offset: 91595,
 							},
 						},
 					},
@@ -4067,9 +4067,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2896, col: 8, offset: 91571},
+							pos: position{line: 2897, col: 8, offset: 91594},
 							expr: &anyMatcher{
-								line: 2896, col: 9, offset: 91572,
+								line: 2897, col: 9, offset: 91595,
 							},
 						},
 					},
@@ -4193,28 +4193,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2899, col: 8, offset: 91621},
+							pos: position{line: 2900, col: 8, offset: 91644},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2886, col: 12, offset: 91394},
+									pos: position{line: 2887, col: 12, offset: 91417},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2886, col: 13, offset: 91395},
+										pos: position{line: 2887, col: 13, offset: 91418},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2886, col: 13, offset: 91395},
+												pos:        position{line: 2887, col: 13, offset: 91418},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2886, col: 20, offset: 91402},
+												pos:        position{line: 2887, col: 20, offset: 91425},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2886, col: 29, offset: 91411},
+												pos:        position{line: 2887, col: 29, offset: 91434},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4223,9 +4223,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2896, col: 8, offset: 91571},
+									pos: position{line: 2897, col: 8, offset: 91594},
 									expr: &anyMatcher{
-										line: 2896, col: 9, offset: 91572,
+										line: 2897, col: 9, offset: 91595,
 									},
 								},
 							},
@@ -4244,9 +4244,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2894, col: 11, offset: 91557},
+							pos: position{line: 2895, col: 11, offset: 91580},
 							expr: &anyMatcher{
-								line: 2894, col: 13, offset: 91559,
+								line: 2895, col: 13, offset: 91582,
 							},
 						},
 						&labeledExpr{
@@ -4341,10 +4341,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 359, col: 49, offset: 10879},
 														expr: &actionExpr{
-															pos: position{line: 2877, col: 10, offset: 91223},
+															pos: position{line: 2878, col: 10, offset: 91246},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2877, col: 10, offset: 91223},
+																pos:        position{line: 2878, col: 10, offset: 91246},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4353,28 +4353,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2899, col: 8, offset: 91621},
+														pos: position{line: 2900, col: 8, offset: 91644},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2886, col: 12, offset: 91394},
+																pos: position{line: 2887, col: 12, offset: 91417},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2886, col: 13, offset: 91395},
+																	pos: position{line: 2887, col: 13, offset: 91418},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 13, offset: 91395},
+																			pos:        position{line: 2887, col: 13, offset: 91418},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 20, offset: 91402},
+																			pos:        position{line: 2887, col: 20, offset: 91425},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 29, offset: 91411},
+																			pos:        position{line: 2887, col: 29, offset: 91434},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4383,9 +4383,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2896, col: 8, offset: 91571},
+																pos: position{line: 2897, col: 8, offset: 91594},
 																expr: &anyMatcher{
-																	line: 2896, col: 9, offset: 91572,
+																	line: 2897, col: 9, offset: 91595,
 																},
 															},
 														},
@@ -4446,10 +4446,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 361, col: 39, offset: 11000},
 														expr: &actionExpr{
-															pos: position{line: 2877, col: 10, offset: 91223},
+															pos: position{line: 2878, col: 10, offset: 91246},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2877, col: 10, offset: 91223},
+																pos:        position{line: 2878, col: 10, offset: 91246},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4458,28 +4458,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2899, col: 8, offset: 91621},
+														pos: position{line: 2900, col: 8, offset: 91644},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2886, col: 12, offset: 91394},
+																pos: position{line: 2887, col: 12, offset: 91417},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2886, col: 13, offset: 91395},
+																	pos: position{line: 2887, col: 13, offset: 91418},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 13, offset: 91395},
+																			pos:        position{line: 2887, col: 13, offset: 91418},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 20, offset: 91402},
+																			pos:        position{line: 2887, col: 20, offset: 91425},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 29, offset: 91411},
+																			pos:        position{line: 2887, col: 29, offset: 91434},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4488,9 +4488,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2896, col: 8, offset: 91571},
+																pos: position{line: 2897, col: 8, offset: 91594},
 																expr: &anyMatcher{
-																	line: 2896, col: 9, offset: 91572,
+																	line: 2897, col: 9, offset: 91595,
 																},
 															},
 														},
@@ -4505,18 +4505,18 @@ var g = &grammar{
 												pos: position{line: 677, col: 14, offset: 21525},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2894, col: 11, offset: 91557},
+														pos: position{line: 2895, col: 11, offset: 91580},
 														expr: &anyMatcher{
-															line: 2894, col: 13, offset: 91559,
+															line: 2895, col: 13, offset: 91582,
 														},
 													},
 													&zeroOrMoreExpr{
 														pos: position{line: 677, col: 21, offset: 21532},
 														expr: &actionExpr{
-															pos: position{line: 2877, col: 10, offset: 91223},
+															pos: position{line: 2878, col: 10, offset: 91246},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2877, col: 10, offset: 91223},
+																pos:        position{line: 2878, col: 10, offset: 91246},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4525,28 +4525,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2899, col: 8, offset: 91621},
+														pos: position{line: 2900, col: 8, offset: 91644},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2886, col: 12, offset: 91394},
+																pos: position{line: 2887, col: 12, offset: 91417},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2886, col: 13, offset: 91395},
+																	pos: position{line: 2887, col: 13, offset: 91418},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 13, offset: 91395},
+																			pos:        position{line: 2887, col: 13, offset: 91418},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 20, offset: 91402},
+																			pos:        position{line: 2887, col: 20, offset: 91425},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 29, offset: 91411},
+																			pos:        position{line: 2887, col: 29, offset: 91434},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4555,9 +4555,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2896, col: 8, offset: 91571},
+																pos: position{line: 2897, col: 8, offset: 91594},
 																expr: &anyMatcher{
-																	line: 2896, col: 9, offset: 91572,
+																	line: 2897, col: 9, offset: 91595,
 																},
 															},
 														},
@@ -4574,36 +4574,36 @@ var g = &grammar{
 											name: "Section",
 										},
 										&actionExpr{
-											pos: position{line: 820, col: 5, offset: 26365},
+											pos: position{line: 821, col: 5, offset: 26388},
 											run: (*parser).callonDocumentFragment75,
 											expr: &seqExpr{
-												pos: position{line: 820, col: 5, offset: 26365},
+												pos: position{line: 821, col: 5, offset: 26388},
 												exprs: []interface{}{
 													&actionExpr{
-														pos: position{line: 740, col: 5, offset: 23620},
+														pos: position{line: 741, col: 5, offset: 23643},
 														run: (*parser).callonDocumentFragment77,
 														expr: &seqExpr{
-															pos: position{line: 740, col: 5, offset: 23620},
+															pos: position{line: 741, col: 5, offset: 23643},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 740, col: 5, offset: 23620},
+																	pos:   position{line: 741, col: 5, offset: 23643},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 740, col: 16, offset: 23631},
+																		pos: position{line: 741, col: 16, offset: 23654},
 																		run: (*parser).callonDocumentFragment80,
 																		expr: &seqExpr{
-																			pos: position{line: 740, col: 16, offset: 23631},
+																			pos: position{line: 741, col: 16, offset: 23654},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 740, col: 16, offset: 23631},
+																					pos:        position{line: 741, col: 16, offset: 23654},
 																					val:        "////",
 																					ignoreCase: false,
 																					want:       "\"////\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 740, col: 23, offset: 23638},
+																					pos: position{line: 741, col: 23, offset: 23661},
 																					expr: &litMatcher{
-																						pos:        position{line: 740, col: 23, offset: 23638},
+																						pos:        position{line: 741, col: 23, offset: 23661},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
@@ -4614,12 +4614,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 742, col: 8, offset: 23722},
+																	pos: position{line: 743, col: 8, offset: 23745},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91223},
+																		pos: position{line: 2878, col: 10, offset: 91246},
 																		run: (*parser).callonDocumentFragment86,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91223},
+																			pos:        position{line: 2878, col: 10, offset: 91246},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -4628,28 +4628,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91621},
+																	pos: position{line: 2900, col: 8, offset: 91644},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91394},
+																			pos: position{line: 2887, col: 12, offset: 91417},
 																			run: (*parser).callonDocumentFragment89,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91395},
+																				pos: position{line: 2887, col: 13, offset: 91418},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91395},
+																						pos:        position{line: 2887, col: 13, offset: 91418},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91402},
+																						pos:        position{line: 2887, col: 20, offset: 91425},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91411},
+																						pos:        position{line: 2887, col: 29, offset: 91434},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -4658,9 +4658,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91571},
+																			pos: position{line: 2897, col: 8, offset: 91594},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91572,
+																				line: 2897, col: 9, offset: 91595,
 																			},
 																		},
 																	},
@@ -4669,46 +4669,46 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 821, col: 5, offset: 26396},
+														pos:   position{line: 822, col: 5, offset: 26419},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 831, col: 5, offset: 26682},
+															pos: position{line: 832, col: 5, offset: 26705},
 															expr: &actionExpr{
-																pos: position{line: 831, col: 6, offset: 26683},
+																pos: position{line: 832, col: 6, offset: 26706},
 																run: (*parser).callonDocumentFragment98,
 																expr: &seqExpr{
-																	pos: position{line: 831, col: 6, offset: 26683},
+																	pos: position{line: 832, col: 6, offset: 26706},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 831, col: 6, offset: 26683},
+																			pos: position{line: 832, col: 6, offset: 26706},
 																			expr: &choiceExpr{
-																				pos: position{line: 828, col: 29, offset: 26625},
+																				pos: position{line: 829, col: 29, offset: 26648},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 740, col: 5, offset: 23620},
+																						pos: position{line: 741, col: 5, offset: 23643},
 																						run: (*parser).callonDocumentFragment102,
 																						expr: &seqExpr{
-																							pos: position{line: 740, col: 5, offset: 23620},
+																							pos: position{line: 741, col: 5, offset: 23643},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 740, col: 5, offset: 23620},
+																									pos:   position{line: 741, col: 5, offset: 23643},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 740, col: 16, offset: 23631},
+																										pos: position{line: 741, col: 16, offset: 23654},
 																										run: (*parser).callonDocumentFragment105,
 																										expr: &seqExpr{
-																											pos: position{line: 740, col: 16, offset: 23631},
+																											pos: position{line: 741, col: 16, offset: 23654},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 740, col: 16, offset: 23631},
+																													pos:        position{line: 741, col: 16, offset: 23654},
 																													val:        "////",
 																													ignoreCase: false,
 																													want:       "\"////\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 740, col: 23, offset: 23638},
+																													pos: position{line: 741, col: 23, offset: 23661},
 																													expr: &litMatcher{
-																														pos:        position{line: 740, col: 23, offset: 23638},
+																														pos:        position{line: 741, col: 23, offset: 23661},
 																														val:        "/",
 																														ignoreCase: false,
 																														want:       "\"/\"",
@@ -4719,12 +4719,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 742, col: 8, offset: 23722},
+																									pos: position{line: 743, col: 8, offset: 23745},
 																									expr: &actionExpr{
-																										pos: position{line: 2877, col: 10, offset: 91223},
+																										pos: position{line: 2878, col: 10, offset: 91246},
 																										run: (*parser).callonDocumentFragment111,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2877, col: 10, offset: 91223},
+																											pos:        position{line: 2878, col: 10, offset: 91246},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -4733,28 +4733,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2899, col: 8, offset: 91621},
+																									pos: position{line: 2900, col: 8, offset: 91644},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2886, col: 12, offset: 91394},
+																											pos: position{line: 2887, col: 12, offset: 91417},
 																											run: (*parser).callonDocumentFragment114,
 																											expr: &choiceExpr{
-																												pos: position{line: 2886, col: 13, offset: 91395},
+																												pos: position{line: 2887, col: 13, offset: 91418},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 13, offset: 91395},
+																														pos:        position{line: 2887, col: 13, offset: 91418},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 20, offset: 91402},
+																														pos:        position{line: 2887, col: 20, offset: 91425},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 29, offset: 91411},
+																														pos:        position{line: 2887, col: 29, offset: 91434},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -4763,9 +4763,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2896, col: 8, offset: 91571},
+																											pos: position{line: 2897, col: 8, offset: 91594},
 																											expr: &anyMatcher{
-																												line: 2896, col: 9, offset: 91572,
+																												line: 2897, col: 9, offset: 91595,
 																											},
 																										},
 																									},
@@ -4774,39 +4774,39 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2896, col: 8, offset: 91571},
+																						pos: position{line: 2897, col: 8, offset: 91594},
 																						expr: &anyMatcher{
-																							line: 2896, col: 9, offset: 91572,
+																							line: 2897, col: 9, offset: 91595,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 832, col: 5, offset: 26713},
+																			pos:   position{line: 833, col: 5, offset: 26736},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26129},
+																				pos: position{line: 812, col: 5, offset: 26152},
 																				run: (*parser).callonDocumentFragment124,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26129},
+																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2894, col: 11, offset: 91557},
+																							pos: position{line: 2895, col: 11, offset: 91580},
 																							expr: &anyMatcher{
-																								line: 2894, col: 13, offset: 91559,
+																								line: 2895, col: 13, offset: 91582,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26204},
+																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2823, col: 13, offset: 89749},
+																								pos: position{line: 2824, col: 13, offset: 89772},
 																								run: (*parser).callonDocumentFragment129,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2823, col: 13, offset: 89749},
+																									pos: position{line: 2824, col: 13, offset: 89772},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2823, col: 13, offset: 89749},
+																										pos:        position{line: 2824, col: 13, offset: 89772},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4816,28 +4816,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91621},
+																							pos: position{line: 2900, col: 8, offset: 91644},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91394},
+																									pos: position{line: 2887, col: 12, offset: 91417},
 																									run: (*parser).callonDocumentFragment133,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91395},
+																										pos: position{line: 2887, col: 13, offset: 91418},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91395},
+																												pos:        position{line: 2887, col: 13, offset: 91418},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91402},
+																												pos:        position{line: 2887, col: 20, offset: 91425},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91411},
+																												pos:        position{line: 2887, col: 29, offset: 91434},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4846,9 +4846,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91571},
+																									pos: position{line: 2897, col: 8, offset: 91594},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91572,
+																										line: 2897, col: 9, offset: 91595,
 																									},
 																								},
 																							},
@@ -4863,35 +4863,35 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 822, col: 5, offset: 26430},
+														pos: position{line: 823, col: 5, offset: 26453},
 														expr: &choiceExpr{
-															pos: position{line: 828, col: 29, offset: 26625},
+															pos: position{line: 829, col: 29, offset: 26648},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 740, col: 5, offset: 23620},
+																	pos: position{line: 741, col: 5, offset: 23643},
 																	run: (*parser).callonDocumentFragment142,
 																	expr: &seqExpr{
-																		pos: position{line: 740, col: 5, offset: 23620},
+																		pos: position{line: 741, col: 5, offset: 23643},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 740, col: 5, offset: 23620},
+																				pos:   position{line: 741, col: 5, offset: 23643},
 																				label: "delimiter",
 																				expr: &actionExpr{
-																					pos: position{line: 740, col: 16, offset: 23631},
+																					pos: position{line: 741, col: 16, offset: 23654},
 																					run: (*parser).callonDocumentFragment145,
 																					expr: &seqExpr{
-																						pos: position{line: 740, col: 16, offset: 23631},
+																						pos: position{line: 741, col: 16, offset: 23654},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 740, col: 16, offset: 23631},
+																								pos:        position{line: 741, col: 16, offset: 23654},
 																								val:        "////",
 																								ignoreCase: false,
 																								want:       "\"////\"",
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 740, col: 23, offset: 23638},
+																								pos: position{line: 741, col: 23, offset: 23661},
 																								expr: &litMatcher{
-																									pos:        position{line: 740, col: 23, offset: 23638},
+																									pos:        position{line: 741, col: 23, offset: 23661},
 																									val:        "/",
 																									ignoreCase: false,
 																									want:       "\"/\"",
@@ -4902,12 +4902,12 @@ var g = &grammar{
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 742, col: 8, offset: 23722},
+																				pos: position{line: 743, col: 8, offset: 23745},
 																				expr: &actionExpr{
-																					pos: position{line: 2877, col: 10, offset: 91223},
+																					pos: position{line: 2878, col: 10, offset: 91246},
 																					run: (*parser).callonDocumentFragment151,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2877, col: 10, offset: 91223},
+																						pos:        position{line: 2878, col: 10, offset: 91246},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -4916,28 +4916,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2899, col: 8, offset: 91621},
+																				pos: position{line: 2900, col: 8, offset: 91644},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2886, col: 12, offset: 91394},
+																						pos: position{line: 2887, col: 12, offset: 91417},
 																						run: (*parser).callonDocumentFragment154,
 																						expr: &choiceExpr{
-																							pos: position{line: 2886, col: 13, offset: 91395},
+																							pos: position{line: 2887, col: 13, offset: 91418},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2886, col: 13, offset: 91395},
+																									pos:        position{line: 2887, col: 13, offset: 91418},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2886, col: 20, offset: 91402},
+																									pos:        position{line: 2887, col: 20, offset: 91425},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2886, col: 29, offset: 91411},
+																									pos:        position{line: 2887, col: 29, offset: 91434},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -4946,9 +4946,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2896, col: 8, offset: 91571},
+																						pos: position{line: 2897, col: 8, offset: 91594},
 																						expr: &anyMatcher{
-																							line: 2896, col: 9, offset: 91572,
+																							line: 2897, col: 9, offset: 91595,
 																						},
 																					},
 																				},
@@ -4957,9 +4957,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2896, col: 8, offset: 91571},
+																	pos: position{line: 2897, col: 8, offset: 91594},
 																	expr: &anyMatcher{
-																		line: 2896, col: 9, offset: 91572,
+																		line: 2897, col: 9, offset: 91595,
 																	},
 																},
 															},
@@ -4969,39 +4969,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 840, col: 5, offset: 26866},
+											pos: position{line: 841, col: 5, offset: 26889},
 											run: (*parser).callonDocumentFragment163,
 											expr: &seqExpr{
-												pos: position{line: 840, col: 5, offset: 26866},
+												pos: position{line: 841, col: 5, offset: 26889},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 840, col: 5, offset: 26866},
+														pos:   position{line: 841, col: 5, offset: 26889},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 747, col: 5, offset: 23868},
+															pos: position{line: 748, col: 5, offset: 23891},
 															run: (*parser).callonDocumentFragment166,
 															expr: &seqExpr{
-																pos: position{line: 747, col: 5, offset: 23868},
+																pos: position{line: 748, col: 5, offset: 23891},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 747, col: 5, offset: 23868},
+																		pos:   position{line: 748, col: 5, offset: 23891},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 747, col: 16, offset: 23879},
+																			pos: position{line: 748, col: 16, offset: 23902},
 																			run: (*parser).callonDocumentFragment169,
 																			expr: &seqExpr{
-																				pos: position{line: 747, col: 16, offset: 23879},
+																				pos: position{line: 748, col: 16, offset: 23902},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 747, col: 16, offset: 23879},
+																						pos:        position{line: 748, col: 16, offset: 23902},
 																						val:        "====",
 																						ignoreCase: false,
 																						want:       "\"====\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 747, col: 23, offset: 23886},
+																						pos: position{line: 748, col: 23, offset: 23909},
 																						expr: &litMatcher{
-																							pos:        position{line: 747, col: 23, offset: 23886},
+																							pos:        position{line: 748, col: 23, offset: 23909},
 																							val:        "=",
 																							ignoreCase: false,
 																							want:       "\"=\"",
@@ -5012,12 +5012,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 749, col: 8, offset: 23970},
+																		pos: position{line: 750, col: 8, offset: 23993},
 																		expr: &actionExpr{
-																			pos: position{line: 2877, col: 10, offset: 91223},
+																			pos: position{line: 2878, col: 10, offset: 91246},
 																			run: (*parser).callonDocumentFragment175,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 10, offset: 91223},
+																				pos:        position{line: 2878, col: 10, offset: 91246},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5026,28 +5026,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2899, col: 8, offset: 91621},
+																		pos: position{line: 2900, col: 8, offset: 91644},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91394},
+																				pos: position{line: 2887, col: 12, offset: 91417},
 																				run: (*parser).callonDocumentFragment178,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91395},
+																					pos: position{line: 2887, col: 13, offset: 91418},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91395},
+																							pos:        position{line: 2887, col: 13, offset: 91418},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91402},
+																							pos:        position{line: 2887, col: 20, offset: 91425},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91411},
+																							pos:        position{line: 2887, col: 29, offset: 91434},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5056,9 +5056,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2896, col: 8, offset: 91571},
+																				pos: position{line: 2897, col: 8, offset: 91594},
 																				expr: &anyMatcher{
-																					line: 2896, col: 9, offset: 91572,
+																					line: 2897, col: 9, offset: 91595,
 																				},
 																			},
 																		},
@@ -5068,56 +5068,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 841, col: 5, offset: 26905},
+														pos: position{line: 842, col: 5, offset: 26928},
 														run: (*parser).callonDocumentFragment185,
 													},
 													&labeledExpr{
-														pos:   position{line: 844, col: 5, offset: 26997},
+														pos:   position{line: 845, col: 5, offset: 27020},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 859, col: 4, offset: 27394},
+															pos: position{line: 860, col: 4, offset: 27417},
 															expr: &actionExpr{
-																pos: position{line: 859, col: 5, offset: 27395},
+																pos: position{line: 860, col: 5, offset: 27418},
 																run: (*parser).callonDocumentFragment188,
 																expr: &seqExpr{
-																	pos: position{line: 859, col: 5, offset: 27395},
+																	pos: position{line: 860, col: 5, offset: 27418},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 859, col: 5, offset: 27395},
+																			pos: position{line: 860, col: 5, offset: 27418},
 																			expr: &choiceExpr{
-																				pos: position{line: 852, col: 5, offset: 27237},
+																				pos: position{line: 853, col: 5, offset: 27260},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 852, col: 5, offset: 27237},
+																						pos: position{line: 853, col: 5, offset: 27260},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 852, col: 5, offset: 27237},
+																								pos:   position{line: 853, col: 5, offset: 27260},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 747, col: 5, offset: 23868},
+																									pos: position{line: 748, col: 5, offset: 23891},
 																									run: (*parser).callonDocumentFragment194,
 																									expr: &seqExpr{
-																										pos: position{line: 747, col: 5, offset: 23868},
+																										pos: position{line: 748, col: 5, offset: 23891},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 747, col: 5, offset: 23868},
+																												pos:   position{line: 748, col: 5, offset: 23891},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 747, col: 16, offset: 23879},
+																													pos: position{line: 748, col: 16, offset: 23902},
 																													run: (*parser).callonDocumentFragment197,
 																													expr: &seqExpr{
-																														pos: position{line: 747, col: 16, offset: 23879},
+																														pos: position{line: 748, col: 16, offset: 23902},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 747, col: 16, offset: 23879},
+																																pos:        position{line: 748, col: 16, offset: 23902},
 																																val:        "====",
 																																ignoreCase: false,
 																																want:       "\"====\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 747, col: 23, offset: 23886},
+																																pos: position{line: 748, col: 23, offset: 23909},
 																																expr: &litMatcher{
-																																	pos:        position{line: 747, col: 23, offset: 23886},
+																																	pos:        position{line: 748, col: 23, offset: 23909},
 																																	val:        "=",
 																																	ignoreCase: false,
 																																	want:       "\"=\"",
@@ -5128,12 +5128,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 749, col: 8, offset: 23970},
+																												pos: position{line: 750, col: 8, offset: 23993},
 																												expr: &actionExpr{
-																													pos: position{line: 2877, col: 10, offset: 91223},
+																													pos: position{line: 2878, col: 10, offset: 91246},
 																													run: (*parser).callonDocumentFragment203,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2877, col: 10, offset: 91223},
+																														pos:        position{line: 2878, col: 10, offset: 91246},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5142,28 +5142,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2899, col: 8, offset: 91621},
+																												pos: position{line: 2900, col: 8, offset: 91644},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2886, col: 12, offset: 91394},
+																														pos: position{line: 2887, col: 12, offset: 91417},
 																														run: (*parser).callonDocumentFragment206,
 																														expr: &choiceExpr{
-																															pos: position{line: 2886, col: 13, offset: 91395},
+																															pos: position{line: 2887, col: 13, offset: 91418},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 13, offset: 91395},
+																																	pos:        position{line: 2887, col: 13, offset: 91418},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 20, offset: 91402},
+																																	pos:        position{line: 2887, col: 20, offset: 91425},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 29, offset: 91411},
+																																	pos:        position{line: 2887, col: 29, offset: 91434},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5172,9 +5172,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2896, col: 8, offset: 91571},
+																														pos: position{line: 2897, col: 8, offset: 91594},
 																														expr: &anyMatcher{
-																															line: 2896, col: 9, offset: 91572,
+																															line: 2897, col: 9, offset: 91595,
 																														},
 																													},
 																												},
@@ -5184,45 +5184,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 853, col: 5, offset: 27268},
+																								pos: position{line: 854, col: 5, offset: 27291},
 																								run: (*parser).callonDocumentFragment213,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2896, col: 8, offset: 91571},
+																						pos: position{line: 2897, col: 8, offset: 91594},
 																						expr: &anyMatcher{
-																							line: 2896, col: 9, offset: 91572,
+																							line: 2897, col: 9, offset: 91595,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 860, col: 5, offset: 27425},
+																			pos:   position{line: 861, col: 5, offset: 27448},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26129},
+																				pos: position{line: 812, col: 5, offset: 26152},
 																				run: (*parser).callonDocumentFragment217,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26129},
+																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2894, col: 11, offset: 91557},
+																							pos: position{line: 2895, col: 11, offset: 91580},
 																							expr: &anyMatcher{
-																								line: 2894, col: 13, offset: 91559,
+																								line: 2895, col: 13, offset: 91582,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26204},
+																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2823, col: 13, offset: 89749},
+																								pos: position{line: 2824, col: 13, offset: 89772},
 																								run: (*parser).callonDocumentFragment222,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2823, col: 13, offset: 89749},
+																									pos: position{line: 2824, col: 13, offset: 89772},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2823, col: 13, offset: 89749},
+																										pos:        position{line: 2824, col: 13, offset: 89772},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5232,28 +5232,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91621},
+																							pos: position{line: 2900, col: 8, offset: 91644},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91394},
+																									pos: position{line: 2887, col: 12, offset: 91417},
 																									run: (*parser).callonDocumentFragment226,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91395},
+																										pos: position{line: 2887, col: 13, offset: 91418},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91395},
+																												pos:        position{line: 2887, col: 13, offset: 91418},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91402},
+																												pos:        position{line: 2887, col: 20, offset: 91425},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91411},
+																												pos:        position{line: 2887, col: 29, offset: 91434},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5262,9 +5262,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91571},
+																									pos: position{line: 2897, col: 8, offset: 91594},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91572,
+																										line: 2897, col: 9, offset: 91595,
 																									},
 																								},
 																							},
@@ -5279,44 +5279,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 845, col: 5, offset: 27031},
+														pos:   position{line: 846, col: 5, offset: 27054},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 845, col: 9, offset: 27035},
+															pos: position{line: 846, col: 9, offset: 27058},
 															expr: &choiceExpr{
-																pos: position{line: 852, col: 5, offset: 27237},
+																pos: position{line: 853, col: 5, offset: 27260},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 852, col: 5, offset: 27237},
+																		pos: position{line: 853, col: 5, offset: 27260},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 852, col: 5, offset: 27237},
+																				pos:   position{line: 853, col: 5, offset: 27260},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 747, col: 5, offset: 23868},
+																					pos: position{line: 748, col: 5, offset: 23891},
 																					run: (*parser).callonDocumentFragment238,
 																					expr: &seqExpr{
-																						pos: position{line: 747, col: 5, offset: 23868},
+																						pos: position{line: 748, col: 5, offset: 23891},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 747, col: 5, offset: 23868},
+																								pos:   position{line: 748, col: 5, offset: 23891},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 747, col: 16, offset: 23879},
+																									pos: position{line: 748, col: 16, offset: 23902},
 																									run: (*parser).callonDocumentFragment241,
 																									expr: &seqExpr{
-																										pos: position{line: 747, col: 16, offset: 23879},
+																										pos: position{line: 748, col: 16, offset: 23902},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 747, col: 16, offset: 23879},
+																												pos:        position{line: 748, col: 16, offset: 23902},
 																												val:        "====",
 																												ignoreCase: false,
 																												want:       "\"====\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 747, col: 23, offset: 23886},
+																												pos: position{line: 748, col: 23, offset: 23909},
 																												expr: &litMatcher{
-																													pos:        position{line: 747, col: 23, offset: 23886},
+																													pos:        position{line: 748, col: 23, offset: 23909},
 																													val:        "=",
 																													ignoreCase: false,
 																													want:       "\"=\"",
@@ -5327,12 +5327,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 749, col: 8, offset: 23970},
+																								pos: position{line: 750, col: 8, offset: 23993},
 																								expr: &actionExpr{
-																									pos: position{line: 2877, col: 10, offset: 91223},
+																									pos: position{line: 2878, col: 10, offset: 91246},
 																									run: (*parser).callonDocumentFragment247,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 10, offset: 91223},
+																										pos:        position{line: 2878, col: 10, offset: 91246},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5341,28 +5341,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2899, col: 8, offset: 91621},
+																								pos: position{line: 2900, col: 8, offset: 91644},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2886, col: 12, offset: 91394},
+																										pos: position{line: 2887, col: 12, offset: 91417},
 																										run: (*parser).callonDocumentFragment250,
 																										expr: &choiceExpr{
-																											pos: position{line: 2886, col: 13, offset: 91395},
+																											pos: position{line: 2887, col: 13, offset: 91418},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 13, offset: 91395},
+																													pos:        position{line: 2887, col: 13, offset: 91418},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 20, offset: 91402},
+																													pos:        position{line: 2887, col: 20, offset: 91425},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 29, offset: 91411},
+																													pos:        position{line: 2887, col: 29, offset: 91434},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5371,9 +5371,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2896, col: 8, offset: 91571},
+																										pos: position{line: 2897, col: 8, offset: 91594},
 																										expr: &anyMatcher{
-																											line: 2896, col: 9, offset: 91572,
+																											line: 2897, col: 9, offset: 91595,
 																										},
 																									},
 																								},
@@ -5383,15 +5383,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 853, col: 5, offset: 27268},
+																				pos: position{line: 854, col: 5, offset: 27291},
 																				run: (*parser).callonDocumentFragment257,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2896, col: 8, offset: 91571},
+																		pos: position{line: 2897, col: 8, offset: 91594},
 																		expr: &anyMatcher{
-																			line: 2896, col: 9, offset: 91572,
+																			line: 2897, col: 9, offset: 91595,
 																		},
 																	},
 																},
@@ -5402,36 +5402,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 952, col: 5, offset: 29717},
+											pos: position{line: 953, col: 5, offset: 29740},
 											run: (*parser).callonDocumentFragment260,
 											expr: &seqExpr{
-												pos: position{line: 952, col: 5, offset: 29717},
+												pos: position{line: 953, col: 5, offset: 29740},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 952, col: 5, offset: 29717},
+														pos:   position{line: 953, col: 5, offset: 29740},
 														label: "delimiter",
 														expr: &actionExpr{
-															pos: position{line: 760, col: 26, offset: 24356},
+															pos: position{line: 761, col: 26, offset: 24379},
 															run: (*parser).callonDocumentFragment263,
 															expr: &seqExpr{
-																pos: position{line: 760, col: 26, offset: 24356},
+																pos: position{line: 761, col: 26, offset: 24379},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 760, col: 26, offset: 24356},
+																		pos:        position{line: 761, col: 26, offset: 24379},
 																		val:        "```",
 																		ignoreCase: false,
 																		want:       "\"```\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 760, col: 32, offset: 24362},
+																		pos:   position{line: 761, col: 32, offset: 24385},
 																		label: "language",
 																		expr: &actionExpr{
-																			pos: position{line: 764, col: 13, offset: 24492},
+																			pos: position{line: 765, col: 13, offset: 24515},
 																			run: (*parser).callonDocumentFragment267,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 764, col: 14, offset: 24493},
+																				pos: position{line: 765, col: 14, offset: 24516},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 764, col: 14, offset: 24493},
+																					pos:        position{line: 765, col: 14, offset: 24516},
 																					val:        "[^\\r\\n`\\t ]",
 																					chars:      []rune{'\r', '\n', '`', '\t', ' '},
 																					ignoreCase: false,
@@ -5441,12 +5441,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 760, col: 52, offset: 24382},
+																		pos: position{line: 761, col: 52, offset: 24405},
 																		expr: &actionExpr{
-																			pos: position{line: 2877, col: 10, offset: 91223},
+																			pos: position{line: 2878, col: 10, offset: 91246},
 																			run: (*parser).callonDocumentFragment271,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 10, offset: 91223},
+																				pos:        position{line: 2878, col: 10, offset: 91246},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5455,28 +5455,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2899, col: 8, offset: 91621},
+																		pos: position{line: 2900, col: 8, offset: 91644},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91394},
+																				pos: position{line: 2887, col: 12, offset: 91417},
 																				run: (*parser).callonDocumentFragment274,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91395},
+																					pos: position{line: 2887, col: 13, offset: 91418},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91395},
+																							pos:        position{line: 2887, col: 13, offset: 91418},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91402},
+																							pos:        position{line: 2887, col: 20, offset: 91425},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91411},
+																							pos:        position{line: 2887, col: 29, offset: 91434},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5485,9 +5485,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2896, col: 8, offset: 91571},
+																				pos: position{line: 2897, col: 8, offset: 91594},
 																				expr: &anyMatcher{
-																					line: 2896, col: 9, offset: 91572,
+																					line: 2897, col: 9, offset: 91595,
 																				},
 																			},
 																		},
@@ -5497,34 +5497,34 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 953, col: 5, offset: 29763},
+														pos:   position{line: 954, col: 5, offset: 29786},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 966, col: 5, offset: 30236},
+															pos: position{line: 967, col: 5, offset: 30259},
 															expr: &actionExpr{
-																pos: position{line: 966, col: 6, offset: 30237},
+																pos: position{line: 967, col: 6, offset: 30260},
 																run: (*parser).callonDocumentFragment283,
 																expr: &seqExpr{
-																	pos: position{line: 966, col: 6, offset: 30237},
+																	pos: position{line: 967, col: 6, offset: 30260},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 966, col: 6, offset: 30237},
+																			pos: position{line: 967, col: 6, offset: 30260},
 																			expr: &seqExpr{
-																				pos: position{line: 963, col: 34, offset: 30184},
+																				pos: position{line: 964, col: 34, offset: 30207},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 963, col: 34, offset: 30184},
+																						pos:        position{line: 964, col: 34, offset: 30207},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 963, col: 40, offset: 30190},
+																						pos: position{line: 964, col: 40, offset: 30213},
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 10, offset: 91223},
+																							pos: position{line: 2878, col: 10, offset: 91246},
 																							run: (*parser).callonDocumentFragment289,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2877, col: 10, offset: 91223},
+																								pos:        position{line: 2878, col: 10, offset: 91246},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5533,28 +5533,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91621},
+																						pos: position{line: 2900, col: 8, offset: 91644},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91394},
+																								pos: position{line: 2887, col: 12, offset: 91417},
 																								run: (*parser).callonDocumentFragment292,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91395},
+																									pos: position{line: 2887, col: 13, offset: 91418},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91395},
+																											pos:        position{line: 2887, col: 13, offset: 91418},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91402},
+																											pos:        position{line: 2887, col: 20, offset: 91425},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91411},
+																											pos:        position{line: 2887, col: 29, offset: 91434},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5563,9 +5563,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91571},
+																								pos: position{line: 2897, col: 8, offset: 91594},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91572,
+																									line: 2897, col: 9, offset: 91595,
 																								},
 																							},
 																						},
@@ -5574,30 +5574,30 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 967, col: 5, offset: 30272},
+																			pos:   position{line: 968, col: 5, offset: 30295},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26129},
+																				pos: position{line: 812, col: 5, offset: 26152},
 																				run: (*parser).callonDocumentFragment300,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26129},
+																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2894, col: 11, offset: 91557},
+																							pos: position{line: 2895, col: 11, offset: 91580},
 																							expr: &anyMatcher{
-																								line: 2894, col: 13, offset: 91559,
+																								line: 2895, col: 13, offset: 91582,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26204},
+																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2823, col: 13, offset: 89749},
+																								pos: position{line: 2824, col: 13, offset: 89772},
 																								run: (*parser).callonDocumentFragment305,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2823, col: 13, offset: 89749},
+																									pos: position{line: 2824, col: 13, offset: 89772},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2823, col: 13, offset: 89749},
+																										pos:        position{line: 2824, col: 13, offset: 89772},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5607,28 +5607,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91621},
+																							pos: position{line: 2900, col: 8, offset: 91644},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91394},
+																									pos: position{line: 2887, col: 12, offset: 91417},
 																									run: (*parser).callonDocumentFragment309,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91395},
+																										pos: position{line: 2887, col: 13, offset: 91418},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91395},
+																												pos:        position{line: 2887, col: 13, offset: 91418},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91402},
+																												pos:        position{line: 2887, col: 20, offset: 91425},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91411},
+																												pos:        position{line: 2887, col: 29, offset: 91434},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5637,9 +5637,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91571},
+																									pos: position{line: 2897, col: 8, offset: 91594},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91572,
+																										line: 2897, col: 9, offset: 91595,
 																									},
 																								},
 																							},
@@ -5654,23 +5654,23 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 954, col: 5, offset: 29802},
+														pos: position{line: 955, col: 5, offset: 29825},
 														expr: &seqExpr{
-															pos: position{line: 963, col: 34, offset: 30184},
+															pos: position{line: 964, col: 34, offset: 30207},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 963, col: 34, offset: 30184},
+																	pos:        position{line: 964, col: 34, offset: 30207},
 																	val:        "```",
 																	ignoreCase: false,
 																	want:       "\"```\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 963, col: 40, offset: 30190},
+																	pos: position{line: 964, col: 40, offset: 30213},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91223},
+																		pos: position{line: 2878, col: 10, offset: 91246},
 																		run: (*parser).callonDocumentFragment320,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91223},
+																			pos:        position{line: 2878, col: 10, offset: 91246},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5679,28 +5679,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91621},
+																	pos: position{line: 2900, col: 8, offset: 91644},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91394},
+																			pos: position{line: 2887, col: 12, offset: 91417},
 																			run: (*parser).callonDocumentFragment323,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91395},
+																				pos: position{line: 2887, col: 13, offset: 91418},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91395},
+																						pos:        position{line: 2887, col: 13, offset: 91418},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91402},
+																						pos:        position{line: 2887, col: 20, offset: 91425},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91411},
+																						pos:        position{line: 2887, col: 29, offset: 91434},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5709,9 +5709,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91571},
+																			pos: position{line: 2897, col: 8, offset: 91594},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91572,
+																				line: 2897, col: 9, offset: 91595,
 																			},
 																		},
 																	},
@@ -5723,39 +5723,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 868, col: 5, offset: 27578},
+											pos: position{line: 869, col: 5, offset: 27601},
 											run: (*parser).callonDocumentFragment330,
 											expr: &seqExpr{
-												pos: position{line: 868, col: 5, offset: 27578},
+												pos: position{line: 869, col: 5, offset: 27601},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 868, col: 5, offset: 27578},
+														pos:   position{line: 869, col: 5, offset: 27601},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 754, col: 5, offset: 24115},
+															pos: position{line: 755, col: 5, offset: 24138},
 															run: (*parser).callonDocumentFragment333,
 															expr: &seqExpr{
-																pos: position{line: 754, col: 5, offset: 24115},
+																pos: position{line: 755, col: 5, offset: 24138},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 754, col: 5, offset: 24115},
+																		pos:   position{line: 755, col: 5, offset: 24138},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 754, col: 16, offset: 24126},
+																			pos: position{line: 755, col: 16, offset: 24149},
 																			run: (*parser).callonDocumentFragment336,
 																			expr: &seqExpr{
-																				pos: position{line: 754, col: 16, offset: 24126},
+																				pos: position{line: 755, col: 16, offset: 24149},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 754, col: 16, offset: 24126},
+																						pos:        position{line: 755, col: 16, offset: 24149},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 754, col: 22, offset: 24132},
+																						pos: position{line: 755, col: 22, offset: 24155},
 																						expr: &litMatcher{
-																							pos:        position{line: 754, col: 22, offset: 24132},
+																							pos:        position{line: 755, col: 22, offset: 24155},
 																							val:        "`",
 																							ignoreCase: false,
 																							want:       "\"`\"",
@@ -5766,12 +5766,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 756, col: 8, offset: 24216},
+																		pos: position{line: 757, col: 8, offset: 24239},
 																		expr: &actionExpr{
-																			pos: position{line: 2877, col: 10, offset: 91223},
+																			pos: position{line: 2878, col: 10, offset: 91246},
 																			run: (*parser).callonDocumentFragment342,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 10, offset: 91223},
+																				pos:        position{line: 2878, col: 10, offset: 91246},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5780,28 +5780,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2899, col: 8, offset: 91621},
+																		pos: position{line: 2900, col: 8, offset: 91644},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91394},
+																				pos: position{line: 2887, col: 12, offset: 91417},
 																				run: (*parser).callonDocumentFragment345,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91395},
+																					pos: position{line: 2887, col: 13, offset: 91418},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91395},
+																							pos:        position{line: 2887, col: 13, offset: 91418},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91402},
+																							pos:        position{line: 2887, col: 20, offset: 91425},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91411},
+																							pos:        position{line: 2887, col: 29, offset: 91434},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5810,9 +5810,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2896, col: 8, offset: 91571},
+																				pos: position{line: 2897, col: 8, offset: 91594},
 																				expr: &anyMatcher{
-																					line: 2896, col: 9, offset: 91572,
+																					line: 2897, col: 9, offset: 91595,
 																				},
 																			},
 																		},
@@ -5822,56 +5822,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 869, col: 5, offset: 27616},
+														pos: position{line: 870, col: 5, offset: 27639},
 														run: (*parser).callonDocumentFragment352,
 													},
 													&labeledExpr{
-														pos:   position{line: 872, col: 5, offset: 27708},
+														pos:   position{line: 873, col: 5, offset: 27731},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 887, col: 5, offset: 28098},
+															pos: position{line: 888, col: 5, offset: 28121},
 															expr: &actionExpr{
-																pos: position{line: 887, col: 6, offset: 28099},
+																pos: position{line: 888, col: 6, offset: 28122},
 																run: (*parser).callonDocumentFragment355,
 																expr: &seqExpr{
-																	pos: position{line: 887, col: 6, offset: 28099},
+																	pos: position{line: 888, col: 6, offset: 28122},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 887, col: 6, offset: 28099},
+																			pos: position{line: 888, col: 6, offset: 28122},
 																			expr: &choiceExpr{
-																				pos: position{line: 880, col: 5, offset: 27942},
+																				pos: position{line: 881, col: 5, offset: 27965},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 880, col: 5, offset: 27942},
+																						pos: position{line: 881, col: 5, offset: 27965},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 880, col: 5, offset: 27942},
+																								pos:   position{line: 881, col: 5, offset: 27965},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 754, col: 5, offset: 24115},
+																									pos: position{line: 755, col: 5, offset: 24138},
 																									run: (*parser).callonDocumentFragment361,
 																									expr: &seqExpr{
-																										pos: position{line: 754, col: 5, offset: 24115},
+																										pos: position{line: 755, col: 5, offset: 24138},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 754, col: 5, offset: 24115},
+																												pos:   position{line: 755, col: 5, offset: 24138},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 754, col: 16, offset: 24126},
+																													pos: position{line: 755, col: 16, offset: 24149},
 																													run: (*parser).callonDocumentFragment364,
 																													expr: &seqExpr{
-																														pos: position{line: 754, col: 16, offset: 24126},
+																														pos: position{line: 755, col: 16, offset: 24149},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 754, col: 16, offset: 24126},
+																																pos:        position{line: 755, col: 16, offset: 24149},
 																																val:        "```",
 																																ignoreCase: false,
 																																want:       "\"```\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 754, col: 22, offset: 24132},
+																																pos: position{line: 755, col: 22, offset: 24155},
 																																expr: &litMatcher{
-																																	pos:        position{line: 754, col: 22, offset: 24132},
+																																	pos:        position{line: 755, col: 22, offset: 24155},
 																																	val:        "`",
 																																	ignoreCase: false,
 																																	want:       "\"`\"",
@@ -5882,12 +5882,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 756, col: 8, offset: 24216},
+																												pos: position{line: 757, col: 8, offset: 24239},
 																												expr: &actionExpr{
-																													pos: position{line: 2877, col: 10, offset: 91223},
+																													pos: position{line: 2878, col: 10, offset: 91246},
 																													run: (*parser).callonDocumentFragment370,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2877, col: 10, offset: 91223},
+																														pos:        position{line: 2878, col: 10, offset: 91246},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5896,28 +5896,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2899, col: 8, offset: 91621},
+																												pos: position{line: 2900, col: 8, offset: 91644},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2886, col: 12, offset: 91394},
+																														pos: position{line: 2887, col: 12, offset: 91417},
 																														run: (*parser).callonDocumentFragment373,
 																														expr: &choiceExpr{
-																															pos: position{line: 2886, col: 13, offset: 91395},
+																															pos: position{line: 2887, col: 13, offset: 91418},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 13, offset: 91395},
+																																	pos:        position{line: 2887, col: 13, offset: 91418},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 20, offset: 91402},
+																																	pos:        position{line: 2887, col: 20, offset: 91425},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 29, offset: 91411},
+																																	pos:        position{line: 2887, col: 29, offset: 91434},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5926,9 +5926,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2896, col: 8, offset: 91571},
+																														pos: position{line: 2897, col: 8, offset: 91594},
 																														expr: &anyMatcher{
-																															line: 2896, col: 9, offset: 91572,
+																															line: 2897, col: 9, offset: 91595,
 																														},
 																													},
 																												},
@@ -5938,45 +5938,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 881, col: 5, offset: 27972},
+																								pos: position{line: 882, col: 5, offset: 27995},
 																								run: (*parser).callonDocumentFragment380,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2896, col: 8, offset: 91571},
+																						pos: position{line: 2897, col: 8, offset: 91594},
 																						expr: &anyMatcher{
-																							line: 2896, col: 9, offset: 91572,
+																							line: 2897, col: 9, offset: 91595,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 888, col: 5, offset: 28128},
+																			pos:   position{line: 889, col: 5, offset: 28151},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26129},
+																				pos: position{line: 812, col: 5, offset: 26152},
 																				run: (*parser).callonDocumentFragment384,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26129},
+																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2894, col: 11, offset: 91557},
+																							pos: position{line: 2895, col: 11, offset: 91580},
 																							expr: &anyMatcher{
-																								line: 2894, col: 13, offset: 91559,
+																								line: 2895, col: 13, offset: 91582,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26204},
+																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2823, col: 13, offset: 89749},
+																								pos: position{line: 2824, col: 13, offset: 89772},
 																								run: (*parser).callonDocumentFragment389,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2823, col: 13, offset: 89749},
+																									pos: position{line: 2824, col: 13, offset: 89772},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2823, col: 13, offset: 89749},
+																										pos:        position{line: 2824, col: 13, offset: 89772},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5986,28 +5986,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91621},
+																							pos: position{line: 2900, col: 8, offset: 91644},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91394},
+																									pos: position{line: 2887, col: 12, offset: 91417},
 																									run: (*parser).callonDocumentFragment393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91395},
+																										pos: position{line: 2887, col: 13, offset: 91418},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91395},
+																												pos:        position{line: 2887, col: 13, offset: 91418},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91402},
+																												pos:        position{line: 2887, col: 20, offset: 91425},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91411},
+																												pos:        position{line: 2887, col: 29, offset: 91434},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6016,9 +6016,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91571},
+																									pos: position{line: 2897, col: 8, offset: 91594},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91572,
+																										line: 2897, col: 9, offset: 91595,
 																									},
 																								},
 																							},
@@ -6033,44 +6033,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 873, col: 5, offset: 27741},
+														pos:   position{line: 874, col: 5, offset: 27764},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 873, col: 9, offset: 27745},
+															pos: position{line: 874, col: 9, offset: 27768},
 															expr: &choiceExpr{
-																pos: position{line: 880, col: 5, offset: 27942},
+																pos: position{line: 881, col: 5, offset: 27965},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 880, col: 5, offset: 27942},
+																		pos: position{line: 881, col: 5, offset: 27965},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 880, col: 5, offset: 27942},
+																				pos:   position{line: 881, col: 5, offset: 27965},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 754, col: 5, offset: 24115},
+																					pos: position{line: 755, col: 5, offset: 24138},
 																					run: (*parser).callonDocumentFragment405,
 																					expr: &seqExpr{
-																						pos: position{line: 754, col: 5, offset: 24115},
+																						pos: position{line: 755, col: 5, offset: 24138},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 754, col: 5, offset: 24115},
+																								pos:   position{line: 755, col: 5, offset: 24138},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 754, col: 16, offset: 24126},
+																									pos: position{line: 755, col: 16, offset: 24149},
 																									run: (*parser).callonDocumentFragment408,
 																									expr: &seqExpr{
-																										pos: position{line: 754, col: 16, offset: 24126},
+																										pos: position{line: 755, col: 16, offset: 24149},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 754, col: 16, offset: 24126},
+																												pos:        position{line: 755, col: 16, offset: 24149},
 																												val:        "```",
 																												ignoreCase: false,
 																												want:       "\"```\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 754, col: 22, offset: 24132},
+																												pos: position{line: 755, col: 22, offset: 24155},
 																												expr: &litMatcher{
-																													pos:        position{line: 754, col: 22, offset: 24132},
+																													pos:        position{line: 755, col: 22, offset: 24155},
 																													val:        "`",
 																													ignoreCase: false,
 																													want:       "\"`\"",
@@ -6081,12 +6081,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 756, col: 8, offset: 24216},
+																								pos: position{line: 757, col: 8, offset: 24239},
 																								expr: &actionExpr{
-																									pos: position{line: 2877, col: 10, offset: 91223},
+																									pos: position{line: 2878, col: 10, offset: 91246},
 																									run: (*parser).callonDocumentFragment414,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 10, offset: 91223},
+																										pos:        position{line: 2878, col: 10, offset: 91246},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6095,28 +6095,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2899, col: 8, offset: 91621},
+																								pos: position{line: 2900, col: 8, offset: 91644},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2886, col: 12, offset: 91394},
+																										pos: position{line: 2887, col: 12, offset: 91417},
 																										run: (*parser).callonDocumentFragment417,
 																										expr: &choiceExpr{
-																											pos: position{line: 2886, col: 13, offset: 91395},
+																											pos: position{line: 2887, col: 13, offset: 91418},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 13, offset: 91395},
+																													pos:        position{line: 2887, col: 13, offset: 91418},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 20, offset: 91402},
+																													pos:        position{line: 2887, col: 20, offset: 91425},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 29, offset: 91411},
+																													pos:        position{line: 2887, col: 29, offset: 91434},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6125,9 +6125,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2896, col: 8, offset: 91571},
+																										pos: position{line: 2897, col: 8, offset: 91594},
 																										expr: &anyMatcher{
-																											line: 2896, col: 9, offset: 91572,
+																											line: 2897, col: 9, offset: 91595,
 																										},
 																									},
 																								},
@@ -6137,15 +6137,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 881, col: 5, offset: 27972},
+																				pos: position{line: 882, col: 5, offset: 27995},
 																				run: (*parser).callonDocumentFragment424,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2896, col: 8, offset: 91571},
+																		pos: position{line: 2897, col: 8, offset: 91594},
 																		expr: &anyMatcher{
-																			line: 2896, col: 9, offset: 91572,
+																			line: 2897, col: 9, offset: 91595,
 																		},
 																	},
 																},
@@ -6156,39 +6156,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 896, col: 5, offset: 28283},
+											pos: position{line: 897, col: 5, offset: 28306},
 											run: (*parser).callonDocumentFragment427,
 											expr: &seqExpr{
-												pos: position{line: 896, col: 5, offset: 28283},
+												pos: position{line: 897, col: 5, offset: 28306},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 896, col: 5, offset: 28283},
+														pos:   position{line: 897, col: 5, offset: 28306},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 769, col: 5, offset: 24657},
+															pos: position{line: 770, col: 5, offset: 24680},
 															run: (*parser).callonDocumentFragment430,
 															expr: &seqExpr{
-																pos: position{line: 769, col: 5, offset: 24657},
+																pos: position{line: 770, col: 5, offset: 24680},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 769, col: 5, offset: 24657},
+																		pos:   position{line: 770, col: 5, offset: 24680},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 769, col: 16, offset: 24668},
+																			pos: position{line: 770, col: 16, offset: 24691},
 																			run: (*parser).callonDocumentFragment433,
 																			expr: &seqExpr{
-																				pos: position{line: 769, col: 16, offset: 24668},
+																				pos: position{line: 770, col: 16, offset: 24691},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 769, col: 16, offset: 24668},
+																						pos:        position{line: 770, col: 16, offset: 24691},
 																						val:        "----",
 																						ignoreCase: false,
 																						want:       "\"----\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 769, col: 23, offset: 24675},
+																						pos: position{line: 770, col: 23, offset: 24698},
 																						expr: &litMatcher{
-																							pos:        position{line: 769, col: 23, offset: 24675},
+																							pos:        position{line: 770, col: 23, offset: 24698},
 																							val:        "-",
 																							ignoreCase: false,
 																							want:       "\"-\"",
@@ -6199,12 +6199,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 771, col: 8, offset: 24759},
+																		pos: position{line: 772, col: 8, offset: 24782},
 																		expr: &actionExpr{
-																			pos: position{line: 2877, col: 10, offset: 91223},
+																			pos: position{line: 2878, col: 10, offset: 91246},
 																			run: (*parser).callonDocumentFragment439,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 10, offset: 91223},
+																				pos:        position{line: 2878, col: 10, offset: 91246},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6213,28 +6213,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2899, col: 8, offset: 91621},
+																		pos: position{line: 2900, col: 8, offset: 91644},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91394},
+																				pos: position{line: 2887, col: 12, offset: 91417},
 																				run: (*parser).callonDocumentFragment442,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91395},
+																					pos: position{line: 2887, col: 13, offset: 91418},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91395},
+																							pos:        position{line: 2887, col: 13, offset: 91418},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91402},
+																							pos:        position{line: 2887, col: 20, offset: 91425},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91411},
+																							pos:        position{line: 2887, col: 29, offset: 91434},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6243,9 +6243,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2896, col: 8, offset: 91571},
+																				pos: position{line: 2897, col: 8, offset: 91594},
 																				expr: &anyMatcher{
-																					line: 2896, col: 9, offset: 91572,
+																					line: 2897, col: 9, offset: 91595,
 																				},
 																			},
 																		},
@@ -6255,56 +6255,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 897, col: 5, offset: 28322},
+														pos: position{line: 898, col: 5, offset: 28345},
 														run: (*parser).callonDocumentFragment449,
 													},
 													&labeledExpr{
-														pos:   position{line: 900, col: 5, offset: 28414},
+														pos:   position{line: 901, col: 5, offset: 28437},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 915, col: 5, offset: 28812},
+															pos: position{line: 916, col: 5, offset: 28835},
 															expr: &actionExpr{
-																pos: position{line: 915, col: 6, offset: 28813},
+																pos: position{line: 916, col: 6, offset: 28836},
 																run: (*parser).callonDocumentFragment452,
 																expr: &seqExpr{
-																	pos: position{line: 915, col: 6, offset: 28813},
+																	pos: position{line: 916, col: 6, offset: 28836},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 915, col: 6, offset: 28813},
+																			pos: position{line: 916, col: 6, offset: 28836},
 																			expr: &choiceExpr{
-																				pos: position{line: 908, col: 5, offset: 28654},
+																				pos: position{line: 909, col: 5, offset: 28677},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 908, col: 5, offset: 28654},
+																						pos: position{line: 909, col: 5, offset: 28677},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 908, col: 5, offset: 28654},
+																								pos:   position{line: 909, col: 5, offset: 28677},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 769, col: 5, offset: 24657},
+																									pos: position{line: 770, col: 5, offset: 24680},
 																									run: (*parser).callonDocumentFragment458,
 																									expr: &seqExpr{
-																										pos: position{line: 769, col: 5, offset: 24657},
+																										pos: position{line: 770, col: 5, offset: 24680},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 769, col: 5, offset: 24657},
+																												pos:   position{line: 770, col: 5, offset: 24680},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 769, col: 16, offset: 24668},
+																													pos: position{line: 770, col: 16, offset: 24691},
 																													run: (*parser).callonDocumentFragment461,
 																													expr: &seqExpr{
-																														pos: position{line: 769, col: 16, offset: 24668},
+																														pos: position{line: 770, col: 16, offset: 24691},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 769, col: 16, offset: 24668},
+																																pos:        position{line: 770, col: 16, offset: 24691},
 																																val:        "----",
 																																ignoreCase: false,
 																																want:       "\"----\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 769, col: 23, offset: 24675},
+																																pos: position{line: 770, col: 23, offset: 24698},
 																																expr: &litMatcher{
-																																	pos:        position{line: 769, col: 23, offset: 24675},
+																																	pos:        position{line: 770, col: 23, offset: 24698},
 																																	val:        "-",
 																																	ignoreCase: false,
 																																	want:       "\"-\"",
@@ -6315,12 +6315,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 771, col: 8, offset: 24759},
+																												pos: position{line: 772, col: 8, offset: 24782},
 																												expr: &actionExpr{
-																													pos: position{line: 2877, col: 10, offset: 91223},
+																													pos: position{line: 2878, col: 10, offset: 91246},
 																													run: (*parser).callonDocumentFragment467,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2877, col: 10, offset: 91223},
+																														pos:        position{line: 2878, col: 10, offset: 91246},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6329,28 +6329,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2899, col: 8, offset: 91621},
+																												pos: position{line: 2900, col: 8, offset: 91644},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2886, col: 12, offset: 91394},
+																														pos: position{line: 2887, col: 12, offset: 91417},
 																														run: (*parser).callonDocumentFragment470,
 																														expr: &choiceExpr{
-																															pos: position{line: 2886, col: 13, offset: 91395},
+																															pos: position{line: 2887, col: 13, offset: 91418},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 13, offset: 91395},
+																																	pos:        position{line: 2887, col: 13, offset: 91418},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 20, offset: 91402},
+																																	pos:        position{line: 2887, col: 20, offset: 91425},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 29, offset: 91411},
+																																	pos:        position{line: 2887, col: 29, offset: 91434},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6359,9 +6359,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2896, col: 8, offset: 91571},
+																														pos: position{line: 2897, col: 8, offset: 91594},
 																														expr: &anyMatcher{
-																															line: 2896, col: 9, offset: 91572,
+																															line: 2897, col: 9, offset: 91595,
 																														},
 																													},
 																												},
@@ -6371,45 +6371,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 909, col: 5, offset: 28685},
+																								pos: position{line: 910, col: 5, offset: 28708},
 																								run: (*parser).callonDocumentFragment477,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2896, col: 8, offset: 91571},
+																						pos: position{line: 2897, col: 8, offset: 91594},
 																						expr: &anyMatcher{
-																							line: 2896, col: 9, offset: 91572,
+																							line: 2897, col: 9, offset: 91595,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 916, col: 5, offset: 28843},
+																			pos:   position{line: 917, col: 5, offset: 28866},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26129},
+																				pos: position{line: 812, col: 5, offset: 26152},
 																				run: (*parser).callonDocumentFragment481,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26129},
+																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2894, col: 11, offset: 91557},
+																							pos: position{line: 2895, col: 11, offset: 91580},
 																							expr: &anyMatcher{
-																								line: 2894, col: 13, offset: 91559,
+																								line: 2895, col: 13, offset: 91582,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26204},
+																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2823, col: 13, offset: 89749},
+																								pos: position{line: 2824, col: 13, offset: 89772},
 																								run: (*parser).callonDocumentFragment486,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2823, col: 13, offset: 89749},
+																									pos: position{line: 2824, col: 13, offset: 89772},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2823, col: 13, offset: 89749},
+																										pos:        position{line: 2824, col: 13, offset: 89772},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6419,28 +6419,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91621},
+																							pos: position{line: 2900, col: 8, offset: 91644},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91394},
+																									pos: position{line: 2887, col: 12, offset: 91417},
 																									run: (*parser).callonDocumentFragment490,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91395},
+																										pos: position{line: 2887, col: 13, offset: 91418},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91395},
+																												pos:        position{line: 2887, col: 13, offset: 91418},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91402},
+																												pos:        position{line: 2887, col: 20, offset: 91425},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91411},
+																												pos:        position{line: 2887, col: 29, offset: 91434},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6449,9 +6449,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91571},
+																									pos: position{line: 2897, col: 8, offset: 91594},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91572,
+																										line: 2897, col: 9, offset: 91595,
 																									},
 																								},
 																							},
@@ -6466,44 +6466,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 901, col: 5, offset: 28448},
+														pos:   position{line: 902, col: 5, offset: 28471},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 901, col: 9, offset: 28452},
+															pos: position{line: 902, col: 9, offset: 28475},
 															expr: &choiceExpr{
-																pos: position{line: 908, col: 5, offset: 28654},
+																pos: position{line: 909, col: 5, offset: 28677},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 908, col: 5, offset: 28654},
+																		pos: position{line: 909, col: 5, offset: 28677},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 908, col: 5, offset: 28654},
+																				pos:   position{line: 909, col: 5, offset: 28677},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 769, col: 5, offset: 24657},
+																					pos: position{line: 770, col: 5, offset: 24680},
 																					run: (*parser).callonDocumentFragment502,
 																					expr: &seqExpr{
-																						pos: position{line: 769, col: 5, offset: 24657},
+																						pos: position{line: 770, col: 5, offset: 24680},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 769, col: 5, offset: 24657},
+																								pos:   position{line: 770, col: 5, offset: 24680},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 769, col: 16, offset: 24668},
+																									pos: position{line: 770, col: 16, offset: 24691},
 																									run: (*parser).callonDocumentFragment505,
 																									expr: &seqExpr{
-																										pos: position{line: 769, col: 16, offset: 24668},
+																										pos: position{line: 770, col: 16, offset: 24691},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 769, col: 16, offset: 24668},
+																												pos:        position{line: 770, col: 16, offset: 24691},
 																												val:        "----",
 																												ignoreCase: false,
 																												want:       "\"----\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 769, col: 23, offset: 24675},
+																												pos: position{line: 770, col: 23, offset: 24698},
 																												expr: &litMatcher{
-																													pos:        position{line: 769, col: 23, offset: 24675},
+																													pos:        position{line: 770, col: 23, offset: 24698},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
@@ -6514,12 +6514,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 771, col: 8, offset: 24759},
+																								pos: position{line: 772, col: 8, offset: 24782},
 																								expr: &actionExpr{
-																									pos: position{line: 2877, col: 10, offset: 91223},
+																									pos: position{line: 2878, col: 10, offset: 91246},
 																									run: (*parser).callonDocumentFragment511,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 10, offset: 91223},
+																										pos:        position{line: 2878, col: 10, offset: 91246},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6528,28 +6528,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2899, col: 8, offset: 91621},
+																								pos: position{line: 2900, col: 8, offset: 91644},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2886, col: 12, offset: 91394},
+																										pos: position{line: 2887, col: 12, offset: 91417},
 																										run: (*parser).callonDocumentFragment514,
 																										expr: &choiceExpr{
-																											pos: position{line: 2886, col: 13, offset: 91395},
+																											pos: position{line: 2887, col: 13, offset: 91418},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 13, offset: 91395},
+																													pos:        position{line: 2887, col: 13, offset: 91418},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 20, offset: 91402},
+																													pos:        position{line: 2887, col: 20, offset: 91425},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 29, offset: 91411},
+																													pos:        position{line: 2887, col: 29, offset: 91434},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6558,9 +6558,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2896, col: 8, offset: 91571},
+																										pos: position{line: 2897, col: 8, offset: 91594},
 																										expr: &anyMatcher{
-																											line: 2896, col: 9, offset: 91572,
+																											line: 2897, col: 9, offset: 91595,
 																										},
 																									},
 																								},
@@ -6570,15 +6570,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 909, col: 5, offset: 28685},
+																				pos: position{line: 910, col: 5, offset: 28708},
 																				run: (*parser).callonDocumentFragment521,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2896, col: 8, offset: 91571},
+																		pos: position{line: 2897, col: 8, offset: 91594},
 																		expr: &anyMatcher{
-																			line: 2896, col: 9, offset: 91572,
+																			line: 2897, col: 9, offset: 91595,
 																		},
 																	},
 																},
@@ -6589,39 +6589,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 924, col: 5, offset: 28998},
+											pos: position{line: 925, col: 5, offset: 29021},
 											run: (*parser).callonDocumentFragment524,
 											expr: &seqExpr{
-												pos: position{line: 924, col: 5, offset: 28998},
+												pos: position{line: 925, col: 5, offset: 29021},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 924, col: 5, offset: 28998},
+														pos:   position{line: 925, col: 5, offset: 29021},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 783, col: 5, offset: 25133},
+															pos: position{line: 784, col: 5, offset: 25156},
 															run: (*parser).callonDocumentFragment527,
 															expr: &seqExpr{
-																pos: position{line: 783, col: 5, offset: 25133},
+																pos: position{line: 784, col: 5, offset: 25156},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 783, col: 5, offset: 25133},
+																		pos:   position{line: 784, col: 5, offset: 25156},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 783, col: 16, offset: 25144},
+																			pos: position{line: 784, col: 16, offset: 25167},
 																			run: (*parser).callonDocumentFragment530,
 																			expr: &seqExpr{
-																				pos: position{line: 783, col: 16, offset: 25144},
+																				pos: position{line: 784, col: 16, offset: 25167},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 783, col: 16, offset: 25144},
+																						pos:        position{line: 784, col: 16, offset: 25167},
 																						val:        "....",
 																						ignoreCase: false,
 																						want:       "\"....\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 783, col: 23, offset: 25151},
+																						pos: position{line: 784, col: 23, offset: 25174},
 																						expr: &litMatcher{
-																							pos:        position{line: 783, col: 23, offset: 25151},
+																							pos:        position{line: 784, col: 23, offset: 25174},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -6632,12 +6632,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 785, col: 8, offset: 25235},
+																		pos: position{line: 786, col: 8, offset: 25258},
 																		expr: &actionExpr{
-																			pos: position{line: 2877, col: 10, offset: 91223},
+																			pos: position{line: 2878, col: 10, offset: 91246},
 																			run: (*parser).callonDocumentFragment536,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 10, offset: 91223},
+																				pos:        position{line: 2878, col: 10, offset: 91246},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6646,28 +6646,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2899, col: 8, offset: 91621},
+																		pos: position{line: 2900, col: 8, offset: 91644},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91394},
+																				pos: position{line: 2887, col: 12, offset: 91417},
 																				run: (*parser).callonDocumentFragment539,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91395},
+																					pos: position{line: 2887, col: 13, offset: 91418},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91395},
+																							pos:        position{line: 2887, col: 13, offset: 91418},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91402},
+																							pos:        position{line: 2887, col: 20, offset: 91425},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91411},
+																							pos:        position{line: 2887, col: 29, offset: 91434},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6676,9 +6676,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2896, col: 8, offset: 91571},
+																				pos: position{line: 2897, col: 8, offset: 91594},
 																				expr: &anyMatcher{
-																					line: 2896, col: 9, offset: 91572,
+																					line: 2897, col: 9, offset: 91595,
 																				},
 																			},
 																		},
@@ -6688,56 +6688,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 925, col: 5, offset: 29037},
+														pos: position{line: 926, col: 5, offset: 29060},
 														run: (*parser).callonDocumentFragment546,
 													},
 													&labeledExpr{
-														pos:   position{line: 928, col: 5, offset: 29129},
+														pos:   position{line: 929, col: 5, offset: 29152},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 943, col: 5, offset: 29527},
+															pos: position{line: 944, col: 5, offset: 29550},
 															expr: &actionExpr{
-																pos: position{line: 943, col: 6, offset: 29528},
+																pos: position{line: 944, col: 6, offset: 29551},
 																run: (*parser).callonDocumentFragment549,
 																expr: &seqExpr{
-																	pos: position{line: 943, col: 6, offset: 29528},
+																	pos: position{line: 944, col: 6, offset: 29551},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 943, col: 6, offset: 29528},
+																			pos: position{line: 944, col: 6, offset: 29551},
 																			expr: &choiceExpr{
-																				pos: position{line: 936, col: 5, offset: 29369},
+																				pos: position{line: 937, col: 5, offset: 29392},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 936, col: 5, offset: 29369},
+																						pos: position{line: 937, col: 5, offset: 29392},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 936, col: 5, offset: 29369},
+																								pos:   position{line: 937, col: 5, offset: 29392},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 783, col: 5, offset: 25133},
+																									pos: position{line: 784, col: 5, offset: 25156},
 																									run: (*parser).callonDocumentFragment555,
 																									expr: &seqExpr{
-																										pos: position{line: 783, col: 5, offset: 25133},
+																										pos: position{line: 784, col: 5, offset: 25156},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 783, col: 5, offset: 25133},
+																												pos:   position{line: 784, col: 5, offset: 25156},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 783, col: 16, offset: 25144},
+																													pos: position{line: 784, col: 16, offset: 25167},
 																													run: (*parser).callonDocumentFragment558,
 																													expr: &seqExpr{
-																														pos: position{line: 783, col: 16, offset: 25144},
+																														pos: position{line: 784, col: 16, offset: 25167},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 783, col: 16, offset: 25144},
+																																pos:        position{line: 784, col: 16, offset: 25167},
 																																val:        "....",
 																																ignoreCase: false,
 																																want:       "\"....\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 783, col: 23, offset: 25151},
+																																pos: position{line: 784, col: 23, offset: 25174},
 																																expr: &litMatcher{
-																																	pos:        position{line: 783, col: 23, offset: 25151},
+																																	pos:        position{line: 784, col: 23, offset: 25174},
 																																	val:        ".",
 																																	ignoreCase: false,
 																																	want:       "\".\"",
@@ -6748,12 +6748,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 785, col: 8, offset: 25235},
+																												pos: position{line: 786, col: 8, offset: 25258},
 																												expr: &actionExpr{
-																													pos: position{line: 2877, col: 10, offset: 91223},
+																													pos: position{line: 2878, col: 10, offset: 91246},
 																													run: (*parser).callonDocumentFragment564,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2877, col: 10, offset: 91223},
+																														pos:        position{line: 2878, col: 10, offset: 91246},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6762,28 +6762,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2899, col: 8, offset: 91621},
+																												pos: position{line: 2900, col: 8, offset: 91644},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2886, col: 12, offset: 91394},
+																														pos: position{line: 2887, col: 12, offset: 91417},
 																														run: (*parser).callonDocumentFragment567,
 																														expr: &choiceExpr{
-																															pos: position{line: 2886, col: 13, offset: 91395},
+																															pos: position{line: 2887, col: 13, offset: 91418},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 13, offset: 91395},
+																																	pos:        position{line: 2887, col: 13, offset: 91418},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 20, offset: 91402},
+																																	pos:        position{line: 2887, col: 20, offset: 91425},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 29, offset: 91411},
+																																	pos:        position{line: 2887, col: 29, offset: 91434},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6792,9 +6792,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2896, col: 8, offset: 91571},
+																														pos: position{line: 2897, col: 8, offset: 91594},
 																														expr: &anyMatcher{
-																															line: 2896, col: 9, offset: 91572,
+																															line: 2897, col: 9, offset: 91595,
 																														},
 																													},
 																												},
@@ -6804,45 +6804,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 937, col: 5, offset: 29400},
+																								pos: position{line: 938, col: 5, offset: 29423},
 																								run: (*parser).callonDocumentFragment574,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2896, col: 8, offset: 91571},
+																						pos: position{line: 2897, col: 8, offset: 91594},
 																						expr: &anyMatcher{
-																							line: 2896, col: 9, offset: 91572,
+																							line: 2897, col: 9, offset: 91595,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 944, col: 5, offset: 29558},
+																			pos:   position{line: 945, col: 5, offset: 29581},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26129},
+																				pos: position{line: 812, col: 5, offset: 26152},
 																				run: (*parser).callonDocumentFragment578,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26129},
+																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2894, col: 11, offset: 91557},
+																							pos: position{line: 2895, col: 11, offset: 91580},
 																							expr: &anyMatcher{
-																								line: 2894, col: 13, offset: 91559,
+																								line: 2895, col: 13, offset: 91582,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26204},
+																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2823, col: 13, offset: 89749},
+																								pos: position{line: 2824, col: 13, offset: 89772},
 																								run: (*parser).callonDocumentFragment583,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2823, col: 13, offset: 89749},
+																									pos: position{line: 2824, col: 13, offset: 89772},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2823, col: 13, offset: 89749},
+																										pos:        position{line: 2824, col: 13, offset: 89772},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6852,28 +6852,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91621},
+																							pos: position{line: 2900, col: 8, offset: 91644},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91394},
+																									pos: position{line: 2887, col: 12, offset: 91417},
 																									run: (*parser).callonDocumentFragment587,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91395},
+																										pos: position{line: 2887, col: 13, offset: 91418},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91395},
+																												pos:        position{line: 2887, col: 13, offset: 91418},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91402},
+																												pos:        position{line: 2887, col: 20, offset: 91425},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91411},
+																												pos:        position{line: 2887, col: 29, offset: 91434},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6882,9 +6882,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91571},
+																									pos: position{line: 2897, col: 8, offset: 91594},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91572,
+																										line: 2897, col: 9, offset: 91595,
 																									},
 																								},
 																							},
@@ -6899,44 +6899,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 929, col: 5, offset: 29163},
+														pos:   position{line: 930, col: 5, offset: 29186},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 929, col: 9, offset: 29167},
+															pos: position{line: 930, col: 9, offset: 29190},
 															expr: &choiceExpr{
-																pos: position{line: 936, col: 5, offset: 29369},
+																pos: position{line: 937, col: 5, offset: 29392},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 936, col: 5, offset: 29369},
+																		pos: position{line: 937, col: 5, offset: 29392},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 936, col: 5, offset: 29369},
+																				pos:   position{line: 937, col: 5, offset: 29392},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 783, col: 5, offset: 25133},
+																					pos: position{line: 784, col: 5, offset: 25156},
 																					run: (*parser).callonDocumentFragment599,
 																					expr: &seqExpr{
-																						pos: position{line: 783, col: 5, offset: 25133},
+																						pos: position{line: 784, col: 5, offset: 25156},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 783, col: 5, offset: 25133},
+																								pos:   position{line: 784, col: 5, offset: 25156},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 783, col: 16, offset: 25144},
+																									pos: position{line: 784, col: 16, offset: 25167},
 																									run: (*parser).callonDocumentFragment602,
 																									expr: &seqExpr{
-																										pos: position{line: 783, col: 16, offset: 25144},
+																										pos: position{line: 784, col: 16, offset: 25167},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 783, col: 16, offset: 25144},
+																												pos:        position{line: 784, col: 16, offset: 25167},
 																												val:        "....",
 																												ignoreCase: false,
 																												want:       "\"....\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 783, col: 23, offset: 25151},
+																												pos: position{line: 784, col: 23, offset: 25174},
 																												expr: &litMatcher{
-																													pos:        position{line: 783, col: 23, offset: 25151},
+																													pos:        position{line: 784, col: 23, offset: 25174},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -6947,12 +6947,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 785, col: 8, offset: 25235},
+																								pos: position{line: 786, col: 8, offset: 25258},
 																								expr: &actionExpr{
-																									pos: position{line: 2877, col: 10, offset: 91223},
+																									pos: position{line: 2878, col: 10, offset: 91246},
 																									run: (*parser).callonDocumentFragment608,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 10, offset: 91223},
+																										pos:        position{line: 2878, col: 10, offset: 91246},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6961,28 +6961,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2899, col: 8, offset: 91621},
+																								pos: position{line: 2900, col: 8, offset: 91644},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2886, col: 12, offset: 91394},
+																										pos: position{line: 2887, col: 12, offset: 91417},
 																										run: (*parser).callonDocumentFragment611,
 																										expr: &choiceExpr{
-																											pos: position{line: 2886, col: 13, offset: 91395},
+																											pos: position{line: 2887, col: 13, offset: 91418},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 13, offset: 91395},
+																													pos:        position{line: 2887, col: 13, offset: 91418},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 20, offset: 91402},
+																													pos:        position{line: 2887, col: 20, offset: 91425},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 29, offset: 91411},
+																													pos:        position{line: 2887, col: 29, offset: 91434},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6991,9 +6991,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2896, col: 8, offset: 91571},
+																										pos: position{line: 2897, col: 8, offset: 91594},
 																										expr: &anyMatcher{
-																											line: 2896, col: 9, offset: 91572,
+																											line: 2897, col: 9, offset: 91595,
 																										},
 																									},
 																								},
@@ -7003,15 +7003,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 937, col: 5, offset: 29400},
+																				pos: position{line: 938, col: 5, offset: 29423},
 																				run: (*parser).callonDocumentFragment618,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2896, col: 8, offset: 91571},
+																		pos: position{line: 2897, col: 8, offset: 91594},
 																		expr: &anyMatcher{
-																			line: 2896, col: 9, offset: 91572,
+																			line: 2897, col: 9, offset: 91595,
 																		},
 																	},
 																},
@@ -7022,22 +7022,22 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 975, col: 5, offset: 30441},
+											pos: position{line: 976, col: 5, offset: 30464},
 											run: (*parser).callonDocumentFragment621,
 											expr: &seqExpr{
-												pos: position{line: 975, col: 5, offset: 30441},
+												pos: position{line: 976, col: 5, offset: 30464},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 975, col: 5, offset: 30441},
+														pos:   position{line: 976, col: 5, offset: 30464},
 														label: "firstLine",
 														expr: &actionExpr{
-															pos: position{line: 982, col: 5, offset: 30700},
+															pos: position{line: 983, col: 5, offset: 30723},
 															run: (*parser).callonDocumentFragment624,
 															expr: &seqExpr{
-																pos: position{line: 982, col: 5, offset: 30700},
+																pos: position{line: 983, col: 5, offset: 30723},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 982, col: 5, offset: 30700},
+																		pos: position{line: 983, col: 5, offset: 30723},
 																		expr: &actionExpr{
 																			pos: position{line: 677, col: 14, offset: 21525},
 																			run: (*parser).callonDocumentFragment627,
@@ -7045,18 +7045,18 @@ var g = &grammar{
 																				pos: position{line: 677, col: 14, offset: 21525},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2894, col: 11, offset: 91557},
+																						pos: position{line: 2895, col: 11, offset: 91580},
 																						expr: &anyMatcher{
-																							line: 2894, col: 13, offset: 91559,
+																							line: 2895, col: 13, offset: 91582,
 																						},
 																					},
 																					&zeroOrMoreExpr{
 																						pos: position{line: 677, col: 21, offset: 21532},
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 10, offset: 91223},
+																							pos: position{line: 2878, col: 10, offset: 91246},
 																							run: (*parser).callonDocumentFragment632,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2877, col: 10, offset: 91223},
+																								pos:        position{line: 2878, col: 10, offset: 91246},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -7065,28 +7065,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91621},
+																						pos: position{line: 2900, col: 8, offset: 91644},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91394},
+																								pos: position{line: 2887, col: 12, offset: 91417},
 																								run: (*parser).callonDocumentFragment635,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91395},
+																									pos: position{line: 2887, col: 13, offset: 91418},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91395},
+																											pos:        position{line: 2887, col: 13, offset: 91418},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91402},
+																											pos:        position{line: 2887, col: 20, offset: 91425},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91411},
+																											pos:        position{line: 2887, col: 29, offset: 91434},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -7095,9 +7095,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91571},
+																								pos: position{line: 2897, col: 8, offset: 91594},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91572,
+																									line: 2897, col: 9, offset: 91595,
 																								},
 																							},
 																						},
@@ -7107,21 +7107,21 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 983, col: 5, offset: 30715},
+																		pos:        position{line: 984, col: 5, offset: 30738},
 																		val:        "> ",
 																		ignoreCase: false,
 																		want:       "\"> \"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 984, col: 5, offset: 30725},
+																		pos:   position{line: 985, col: 5, offset: 30748},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2827, col: 14, offset: 89816},
+																			pos: position{line: 2828, col: 14, offset: 89839},
 																			run: (*parser).callonDocumentFragment644,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2827, col: 14, offset: 89816},
+																				pos: position{line: 2828, col: 14, offset: 89839},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2827, col: 14, offset: 89816},
+																					pos:        position{line: 2828, col: 14, offset: 89839},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -7131,28 +7131,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2899, col: 8, offset: 91621},
+																		pos: position{line: 2900, col: 8, offset: 91644},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91394},
+																				pos: position{line: 2887, col: 12, offset: 91417},
 																				run: (*parser).callonDocumentFragment648,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91395},
+																					pos: position{line: 2887, col: 13, offset: 91418},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91395},
+																							pos:        position{line: 2887, col: 13, offset: 91418},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91402},
+																							pos:        position{line: 2887, col: 20, offset: 91425},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91411},
+																							pos:        position{line: 2887, col: 29, offset: 91434},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7161,9 +7161,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2896, col: 8, offset: 91571},
+																				pos: position{line: 2897, col: 8, offset: 91594},
 																				expr: &anyMatcher{
-																					line: 2896, col: 9, offset: 91572,
+																					line: 2897, col: 9, offset: 91595,
 																				},
 																			},
 																		},
@@ -7173,21 +7173,21 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 976, col: 5, offset: 30478},
+														pos:   position{line: 977, col: 5, offset: 30501},
 														label: "otherLines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 976, col: 16, offset: 30489},
+															pos: position{line: 977, col: 16, offset: 30512},
 															expr: &choiceExpr{
-																pos: position{line: 976, col: 17, offset: 30490},
+																pos: position{line: 977, col: 17, offset: 30513},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 982, col: 5, offset: 30700},
+																		pos: position{line: 983, col: 5, offset: 30723},
 																		run: (*parser).callonDocumentFragment658,
 																		expr: &seqExpr{
-																			pos: position{line: 982, col: 5, offset: 30700},
+																			pos: position{line: 983, col: 5, offset: 30723},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 982, col: 5, offset: 30700},
+																					pos: position{line: 983, col: 5, offset: 30723},
 																					expr: &actionExpr{
 																						pos: position{line: 677, col: 14, offset: 21525},
 																						run: (*parser).callonDocumentFragment661,
@@ -7195,18 +7195,18 @@ var g = &grammar{
 																							pos: position{line: 677, col: 14, offset: 21525},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2894, col: 11, offset: 91557},
+																									pos: position{line: 2895, col: 11, offset: 91580},
 																									expr: &anyMatcher{
-																										line: 2894, col: 13, offset: 91559,
+																										line: 2895, col: 13, offset: 91582,
 																									},
 																								},
 																								&zeroOrMoreExpr{
 																									pos: position{line: 677, col: 21, offset: 21532},
 																									expr: &actionExpr{
-																										pos: position{line: 2877, col: 10, offset: 91223},
+																										pos: position{line: 2878, col: 10, offset: 91246},
 																										run: (*parser).callonDocumentFragment666,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2877, col: 10, offset: 91223},
+																											pos:        position{line: 2878, col: 10, offset: 91246},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7215,28 +7215,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2899, col: 8, offset: 91621},
+																									pos: position{line: 2900, col: 8, offset: 91644},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2886, col: 12, offset: 91394},
+																											pos: position{line: 2887, col: 12, offset: 91417},
 																											run: (*parser).callonDocumentFragment669,
 																											expr: &choiceExpr{
-																												pos: position{line: 2886, col: 13, offset: 91395},
+																												pos: position{line: 2887, col: 13, offset: 91418},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 13, offset: 91395},
+																														pos:        position{line: 2887, col: 13, offset: 91418},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 20, offset: 91402},
+																														pos:        position{line: 2887, col: 20, offset: 91425},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 29, offset: 91411},
+																														pos:        position{line: 2887, col: 29, offset: 91434},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7245,9 +7245,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2896, col: 8, offset: 91571},
+																											pos: position{line: 2897, col: 8, offset: 91594},
 																											expr: &anyMatcher{
-																												line: 2896, col: 9, offset: 91572,
+																												line: 2897, col: 9, offset: 91595,
 																											},
 																										},
 																									},
@@ -7257,21 +7257,21 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 983, col: 5, offset: 30715},
+																					pos:        position{line: 984, col: 5, offset: 30738},
 																					val:        "> ",
 																					ignoreCase: false,
 																					want:       "\"> \"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 984, col: 5, offset: 30725},
+																					pos:   position{line: 985, col: 5, offset: 30748},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2827, col: 14, offset: 89816},
+																						pos: position{line: 2828, col: 14, offset: 89839},
 																						run: (*parser).callonDocumentFragment678,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2827, col: 14, offset: 89816},
+																							pos: position{line: 2828, col: 14, offset: 89839},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2827, col: 14, offset: 89816},
+																								pos:        position{line: 2828, col: 14, offset: 89839},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7281,28 +7281,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2899, col: 8, offset: 91621},
+																					pos: position{line: 2900, col: 8, offset: 91644},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2886, col: 12, offset: 91394},
+																							pos: position{line: 2887, col: 12, offset: 91417},
 																							run: (*parser).callonDocumentFragment682,
 																							expr: &choiceExpr{
-																								pos: position{line: 2886, col: 13, offset: 91395},
+																								pos: position{line: 2887, col: 13, offset: 91418},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 13, offset: 91395},
+																										pos:        position{line: 2887, col: 13, offset: 91418},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 20, offset: 91402},
+																										pos:        position{line: 2887, col: 20, offset: 91425},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 29, offset: 91411},
+																										pos:        position{line: 2887, col: 29, offset: 91434},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7311,9 +7311,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2896, col: 8, offset: 91571},
+																							pos: position{line: 2897, col: 8, offset: 91594},
 																							expr: &anyMatcher{
-																								line: 2896, col: 9, offset: 91572,
+																								line: 2897, col: 9, offset: 91595,
 																							},
 																						},
 																					},
@@ -7322,21 +7322,21 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 1796, col: 5, offset: 58235},
+																		pos: position{line: 1797, col: 5, offset: 58258},
 																		run: (*parser).callonDocumentFragment689,
 																		expr: &seqExpr{
-																			pos: position{line: 1796, col: 5, offset: 58235},
+																			pos: position{line: 1797, col: 5, offset: 58258},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1796, col: 5, offset: 58235},
+																					pos:   position{line: 1797, col: 5, offset: 58258},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2827, col: 14, offset: 89816},
+																						pos: position{line: 2828, col: 14, offset: 89839},
 																						run: (*parser).callonDocumentFragment692,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2827, col: 14, offset: 89816},
+																							pos: position{line: 2828, col: 14, offset: 89839},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2827, col: 14, offset: 89816},
+																								pos:        position{line: 2828, col: 14, offset: 89839},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7346,32 +7346,32 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1797, col: 5, offset: 58259},
+																					pos: position{line: 1798, col: 5, offset: 58282},
 																					run: (*parser).callonDocumentFragment695,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2899, col: 8, offset: 91621},
+																					pos: position{line: 2900, col: 8, offset: 91644},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2886, col: 12, offset: 91394},
+																							pos: position{line: 2887, col: 12, offset: 91417},
 																							run: (*parser).callonDocumentFragment697,
 																							expr: &choiceExpr{
-																								pos: position{line: 2886, col: 13, offset: 91395},
+																								pos: position{line: 2887, col: 13, offset: 91418},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 13, offset: 91395},
+																										pos:        position{line: 2887, col: 13, offset: 91418},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 20, offset: 91402},
+																										pos:        position{line: 2887, col: 20, offset: 91425},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 29, offset: 91411},
+																										pos:        position{line: 2887, col: 29, offset: 91434},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7380,9 +7380,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2896, col: 8, offset: 91571},
+																							pos: position{line: 2897, col: 8, offset: 91594},
 																							expr: &anyMatcher{
-																								line: 2896, col: 9, offset: 91572,
+																								line: 2897, col: 9, offset: 91595,
 																							},
 																						},
 																					},
@@ -7398,28 +7398,28 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 997, col: 5, offset: 30990},
+											pos: position{line: 998, col: 5, offset: 31013},
 											run: (*parser).callonDocumentFragment704,
 											expr: &seqExpr{
-												pos: position{line: 997, col: 5, offset: 30990},
+												pos: position{line: 998, col: 5, offset: 31013},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 997, col: 5, offset: 30990},
+														pos:   position{line: 998, col: 5, offset: 31013},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 776, col: 5, offset: 24902},
+															pos: position{line: 777, col: 5, offset: 24925},
 															run: (*parser).callonDocumentFragment707,
 															expr: &seqExpr{
-																pos: position{line: 776, col: 5, offset: 24902},
+																pos: position{line: 777, col: 5, offset: 24925},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 776, col: 5, offset: 24902},
+																		pos:   position{line: 777, col: 5, offset: 24925},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 776, col: 16, offset: 24913},
+																			pos: position{line: 777, col: 16, offset: 24936},
 																			run: (*parser).callonDocumentFragment710,
 																			expr: &litMatcher{
-																				pos:        position{line: 776, col: 16, offset: 24913},
+																				pos:        position{line: 777, col: 16, offset: 24936},
 																				val:        "--",
 																				ignoreCase: false,
 																				want:       "\"--\"",
@@ -7427,12 +7427,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 778, col: 8, offset: 24990},
+																		pos: position{line: 779, col: 8, offset: 25013},
 																		expr: &actionExpr{
-																			pos: position{line: 2877, col: 10, offset: 91223},
+																			pos: position{line: 2878, col: 10, offset: 91246},
 																			run: (*parser).callonDocumentFragment713,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 10, offset: 91223},
+																				pos:        position{line: 2878, col: 10, offset: 91246},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7441,28 +7441,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2899, col: 8, offset: 91621},
+																		pos: position{line: 2900, col: 8, offset: 91644},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91394},
+																				pos: position{line: 2887, col: 12, offset: 91417},
 																				run: (*parser).callonDocumentFragment716,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91395},
+																					pos: position{line: 2887, col: 13, offset: 91418},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91395},
+																							pos:        position{line: 2887, col: 13, offset: 91418},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91402},
+																							pos:        position{line: 2887, col: 20, offset: 91425},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91411},
+																							pos:        position{line: 2887, col: 29, offset: 91434},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7471,9 +7471,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2896, col: 8, offset: 91571},
+																				pos: position{line: 2897, col: 8, offset: 91594},
 																				expr: &anyMatcher{
-																					line: 2896, col: 9, offset: 91572,
+																					line: 2897, col: 9, offset: 91595,
 																				},
 																			},
 																		},
@@ -7483,35 +7483,35 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 998, col: 5, offset: 31026},
+														pos:   position{line: 999, col: 5, offset: 31049},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1008, col: 5, offset: 31294},
+															pos: position{line: 1009, col: 5, offset: 31317},
 															expr: &actionExpr{
-																pos: position{line: 1008, col: 6, offset: 31295},
+																pos: position{line: 1009, col: 6, offset: 31318},
 																run: (*parser).callonDocumentFragment725,
 																expr: &seqExpr{
-																	pos: position{line: 1008, col: 6, offset: 31295},
+																	pos: position{line: 1009, col: 6, offset: 31318},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1008, col: 6, offset: 31295},
+																			pos: position{line: 1009, col: 6, offset: 31318},
 																			expr: &choiceExpr{
-																				pos: position{line: 1005, col: 26, offset: 31243},
+																				pos: position{line: 1006, col: 26, offset: 31266},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 776, col: 5, offset: 24902},
+																						pos: position{line: 777, col: 5, offset: 24925},
 																						run: (*parser).callonDocumentFragment729,
 																						expr: &seqExpr{
-																							pos: position{line: 776, col: 5, offset: 24902},
+																							pos: position{line: 777, col: 5, offset: 24925},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 776, col: 5, offset: 24902},
+																									pos:   position{line: 777, col: 5, offset: 24925},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 776, col: 16, offset: 24913},
+																										pos: position{line: 777, col: 16, offset: 24936},
 																										run: (*parser).callonDocumentFragment732,
 																										expr: &litMatcher{
-																											pos:        position{line: 776, col: 16, offset: 24913},
+																											pos:        position{line: 777, col: 16, offset: 24936},
 																											val:        "--",
 																											ignoreCase: false,
 																											want:       "\"--\"",
@@ -7519,12 +7519,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 778, col: 8, offset: 24990},
+																									pos: position{line: 779, col: 8, offset: 25013},
 																									expr: &actionExpr{
-																										pos: position{line: 2877, col: 10, offset: 91223},
+																										pos: position{line: 2878, col: 10, offset: 91246},
 																										run: (*parser).callonDocumentFragment735,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2877, col: 10, offset: 91223},
+																											pos:        position{line: 2878, col: 10, offset: 91246},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7533,28 +7533,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2899, col: 8, offset: 91621},
+																									pos: position{line: 2900, col: 8, offset: 91644},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2886, col: 12, offset: 91394},
+																											pos: position{line: 2887, col: 12, offset: 91417},
 																											run: (*parser).callonDocumentFragment738,
 																											expr: &choiceExpr{
-																												pos: position{line: 2886, col: 13, offset: 91395},
+																												pos: position{line: 2887, col: 13, offset: 91418},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 13, offset: 91395},
+																														pos:        position{line: 2887, col: 13, offset: 91418},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 20, offset: 91402},
+																														pos:        position{line: 2887, col: 20, offset: 91425},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 29, offset: 91411},
+																														pos:        position{line: 2887, col: 29, offset: 91434},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7563,9 +7563,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2896, col: 8, offset: 91571},
+																											pos: position{line: 2897, col: 8, offset: 91594},
 																											expr: &anyMatcher{
-																												line: 2896, col: 9, offset: 91572,
+																												line: 2897, col: 9, offset: 91595,
 																											},
 																										},
 																									},
@@ -7574,39 +7574,39 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2896, col: 8, offset: 91571},
+																						pos: position{line: 2897, col: 8, offset: 91594},
 																						expr: &anyMatcher{
-																							line: 2896, col: 9, offset: 91572,
+																							line: 2897, col: 9, offset: 91595,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1009, col: 5, offset: 31322},
+																			pos:   position{line: 1010, col: 5, offset: 31345},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26129},
+																				pos: position{line: 812, col: 5, offset: 26152},
 																				run: (*parser).callonDocumentFragment748,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26129},
+																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2894, col: 11, offset: 91557},
+																							pos: position{line: 2895, col: 11, offset: 91580},
 																							expr: &anyMatcher{
-																								line: 2894, col: 13, offset: 91559,
+																								line: 2895, col: 13, offset: 91582,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26204},
+																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2823, col: 13, offset: 89749},
+																								pos: position{line: 2824, col: 13, offset: 89772},
 																								run: (*parser).callonDocumentFragment753,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2823, col: 13, offset: 89749},
+																									pos: position{line: 2824, col: 13, offset: 89772},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2823, col: 13, offset: 89749},
+																										pos:        position{line: 2824, col: 13, offset: 89772},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7616,28 +7616,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91621},
+																							pos: position{line: 2900, col: 8, offset: 91644},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91394},
+																									pos: position{line: 2887, col: 12, offset: 91417},
 																									run: (*parser).callonDocumentFragment757,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91395},
+																										pos: position{line: 2887, col: 13, offset: 91418},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91395},
+																												pos:        position{line: 2887, col: 13, offset: 91418},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91402},
+																												pos:        position{line: 2887, col: 20, offset: 91425},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91411},
+																												pos:        position{line: 2887, col: 29, offset: 91434},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7646,9 +7646,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91571},
+																									pos: position{line: 2897, col: 8, offset: 91594},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91572,
+																										line: 2897, col: 9, offset: 91595,
 																									},
 																								},
 																							},
@@ -7663,27 +7663,27 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 999, col: 5, offset: 31057},
+														pos:   position{line: 1000, col: 5, offset: 31080},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 999, col: 9, offset: 31061},
+															pos: position{line: 1000, col: 9, offset: 31084},
 															expr: &choiceExpr{
-																pos: position{line: 1005, col: 26, offset: 31243},
+																pos: position{line: 1006, col: 26, offset: 31266},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 776, col: 5, offset: 24902},
+																		pos: position{line: 777, col: 5, offset: 24925},
 																		run: (*parser).callonDocumentFragment767,
 																		expr: &seqExpr{
-																			pos: position{line: 776, col: 5, offset: 24902},
+																			pos: position{line: 777, col: 5, offset: 24925},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 776, col: 5, offset: 24902},
+																					pos:   position{line: 777, col: 5, offset: 24925},
 																					label: "delimiter",
 																					expr: &actionExpr{
-																						pos: position{line: 776, col: 16, offset: 24913},
+																						pos: position{line: 777, col: 16, offset: 24936},
 																						run: (*parser).callonDocumentFragment770,
 																						expr: &litMatcher{
-																							pos:        position{line: 776, col: 16, offset: 24913},
+																							pos:        position{line: 777, col: 16, offset: 24936},
 																							val:        "--",
 																							ignoreCase: false,
 																							want:       "\"--\"",
@@ -7691,12 +7691,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 778, col: 8, offset: 24990},
+																					pos: position{line: 779, col: 8, offset: 25013},
 																					expr: &actionExpr{
-																						pos: position{line: 2877, col: 10, offset: 91223},
+																						pos: position{line: 2878, col: 10, offset: 91246},
 																						run: (*parser).callonDocumentFragment773,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2877, col: 10, offset: 91223},
+																							pos:        position{line: 2878, col: 10, offset: 91246},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7705,28 +7705,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2899, col: 8, offset: 91621},
+																					pos: position{line: 2900, col: 8, offset: 91644},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2886, col: 12, offset: 91394},
+																							pos: position{line: 2887, col: 12, offset: 91417},
 																							run: (*parser).callonDocumentFragment776,
 																							expr: &choiceExpr{
-																								pos: position{line: 2886, col: 13, offset: 91395},
+																								pos: position{line: 2887, col: 13, offset: 91418},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 13, offset: 91395},
+																										pos:        position{line: 2887, col: 13, offset: 91418},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 20, offset: 91402},
+																										pos:        position{line: 2887, col: 20, offset: 91425},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 29, offset: 91411},
+																										pos:        position{line: 2887, col: 29, offset: 91434},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7735,9 +7735,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2896, col: 8, offset: 91571},
+																							pos: position{line: 2897, col: 8, offset: 91594},
 																							expr: &anyMatcher{
-																								line: 2896, col: 9, offset: 91572,
+																								line: 2897, col: 9, offset: 91595,
 																							},
 																						},
 																					},
@@ -7746,9 +7746,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2896, col: 8, offset: 91571},
+																		pos: position{line: 2897, col: 8, offset: 91594},
 																		expr: &anyMatcher{
-																			line: 2896, col: 9, offset: 91572,
+																			line: 2897, col: 9, offset: 91595,
 																		},
 																	},
 																},
@@ -7759,39 +7759,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1017, col: 5, offset: 31485},
+											pos: position{line: 1018, col: 5, offset: 31508},
 											run: (*parser).callonDocumentFragment785,
 											expr: &seqExpr{
-												pos: position{line: 1017, col: 5, offset: 31485},
+												pos: position{line: 1018, col: 5, offset: 31508},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1017, col: 5, offset: 31485},
+														pos:   position{line: 1018, col: 5, offset: 31508},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 790, col: 5, offset: 25385},
+															pos: position{line: 791, col: 5, offset: 25408},
 															run: (*parser).callonDocumentFragment788,
 															expr: &seqExpr{
-																pos: position{line: 790, col: 5, offset: 25385},
+																pos: position{line: 791, col: 5, offset: 25408},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 790, col: 5, offset: 25385},
+																		pos:   position{line: 791, col: 5, offset: 25408},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 790, col: 16, offset: 25396},
+																			pos: position{line: 791, col: 16, offset: 25419},
 																			run: (*parser).callonDocumentFragment791,
 																			expr: &seqExpr{
-																				pos: position{line: 790, col: 16, offset: 25396},
+																				pos: position{line: 791, col: 16, offset: 25419},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 790, col: 16, offset: 25396},
+																						pos:        position{line: 791, col: 16, offset: 25419},
 																						val:        "++++",
 																						ignoreCase: false,
 																						want:       "\"++++\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 790, col: 23, offset: 25403},
+																						pos: position{line: 791, col: 23, offset: 25426},
 																						expr: &litMatcher{
-																							pos:        position{line: 790, col: 23, offset: 25403},
+																							pos:        position{line: 791, col: 23, offset: 25426},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
@@ -7802,12 +7802,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 792, col: 8, offset: 25487},
+																		pos: position{line: 793, col: 8, offset: 25510},
 																		expr: &actionExpr{
-																			pos: position{line: 2877, col: 10, offset: 91223},
+																			pos: position{line: 2878, col: 10, offset: 91246},
 																			run: (*parser).callonDocumentFragment797,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 10, offset: 91223},
+																				pos:        position{line: 2878, col: 10, offset: 91246},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7816,28 +7816,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2899, col: 8, offset: 91621},
+																		pos: position{line: 2900, col: 8, offset: 91644},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91394},
+																				pos: position{line: 2887, col: 12, offset: 91417},
 																				run: (*parser).callonDocumentFragment800,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91395},
+																					pos: position{line: 2887, col: 13, offset: 91418},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91395},
+																							pos:        position{line: 2887, col: 13, offset: 91418},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91402},
+																							pos:        position{line: 2887, col: 20, offset: 91425},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91411},
+																							pos:        position{line: 2887, col: 29, offset: 91434},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7846,9 +7846,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2896, col: 8, offset: 91571},
+																				pos: position{line: 2897, col: 8, offset: 91594},
 																				expr: &anyMatcher{
-																					line: 2896, col: 9, offset: 91572,
+																					line: 2897, col: 9, offset: 91595,
 																				},
 																			},
 																		},
@@ -7858,56 +7858,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1018, col: 5, offset: 31528},
+														pos: position{line: 1019, col: 5, offset: 31551},
 														run: (*parser).callonDocumentFragment807,
 													},
 													&labeledExpr{
-														pos:   position{line: 1021, col: 5, offset: 31620},
+														pos:   position{line: 1022, col: 5, offset: 31643},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1036, col: 5, offset: 32050},
+															pos: position{line: 1037, col: 5, offset: 32073},
 															expr: &actionExpr{
-																pos: position{line: 1036, col: 6, offset: 32051},
+																pos: position{line: 1037, col: 6, offset: 32074},
 																run: (*parser).callonDocumentFragment810,
 																expr: &seqExpr{
-																	pos: position{line: 1036, col: 6, offset: 32051},
+																	pos: position{line: 1037, col: 6, offset: 32074},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1036, col: 6, offset: 32051},
+																			pos: position{line: 1037, col: 6, offset: 32074},
 																			expr: &choiceExpr{
-																				pos: position{line: 1029, col: 5, offset: 31884},
+																				pos: position{line: 1030, col: 5, offset: 31907},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1029, col: 5, offset: 31884},
+																						pos: position{line: 1030, col: 5, offset: 31907},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1029, col: 5, offset: 31884},
+																								pos:   position{line: 1030, col: 5, offset: 31907},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 790, col: 5, offset: 25385},
+																									pos: position{line: 791, col: 5, offset: 25408},
 																									run: (*parser).callonDocumentFragment816,
 																									expr: &seqExpr{
-																										pos: position{line: 790, col: 5, offset: 25385},
+																										pos: position{line: 791, col: 5, offset: 25408},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 790, col: 5, offset: 25385},
+																												pos:   position{line: 791, col: 5, offset: 25408},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 790, col: 16, offset: 25396},
+																													pos: position{line: 791, col: 16, offset: 25419},
 																													run: (*parser).callonDocumentFragment819,
 																													expr: &seqExpr{
-																														pos: position{line: 790, col: 16, offset: 25396},
+																														pos: position{line: 791, col: 16, offset: 25419},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 790, col: 16, offset: 25396},
+																																pos:        position{line: 791, col: 16, offset: 25419},
 																																val:        "++++",
 																																ignoreCase: false,
 																																want:       "\"++++\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 790, col: 23, offset: 25403},
+																																pos: position{line: 791, col: 23, offset: 25426},
 																																expr: &litMatcher{
-																																	pos:        position{line: 790, col: 23, offset: 25403},
+																																	pos:        position{line: 791, col: 23, offset: 25426},
 																																	val:        "+",
 																																	ignoreCase: false,
 																																	want:       "\"+\"",
@@ -7918,12 +7918,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 792, col: 8, offset: 25487},
+																												pos: position{line: 793, col: 8, offset: 25510},
 																												expr: &actionExpr{
-																													pos: position{line: 2877, col: 10, offset: 91223},
+																													pos: position{line: 2878, col: 10, offset: 91246},
 																													run: (*parser).callonDocumentFragment825,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2877, col: 10, offset: 91223},
+																														pos:        position{line: 2878, col: 10, offset: 91246},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7932,28 +7932,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2899, col: 8, offset: 91621},
+																												pos: position{line: 2900, col: 8, offset: 91644},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2886, col: 12, offset: 91394},
+																														pos: position{line: 2887, col: 12, offset: 91417},
 																														run: (*parser).callonDocumentFragment828,
 																														expr: &choiceExpr{
-																															pos: position{line: 2886, col: 13, offset: 91395},
+																															pos: position{line: 2887, col: 13, offset: 91418},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 13, offset: 91395},
+																																	pos:        position{line: 2887, col: 13, offset: 91418},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 20, offset: 91402},
+																																	pos:        position{line: 2887, col: 20, offset: 91425},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 29, offset: 91411},
+																																	pos:        position{line: 2887, col: 29, offset: 91434},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7962,9 +7962,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2896, col: 8, offset: 91571},
+																														pos: position{line: 2897, col: 8, offset: 91594},
 																														expr: &anyMatcher{
-																															line: 2896, col: 9, offset: 91572,
+																															line: 2897, col: 9, offset: 91595,
 																														},
 																													},
 																												},
@@ -7974,45 +7974,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1030, col: 5, offset: 31919},
+																								pos: position{line: 1031, col: 5, offset: 31942},
 																								run: (*parser).callonDocumentFragment835,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2896, col: 8, offset: 91571},
+																						pos: position{line: 2897, col: 8, offset: 91594},
 																						expr: &anyMatcher{
-																							line: 2896, col: 9, offset: 91572,
+																							line: 2897, col: 9, offset: 91595,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1037, col: 5, offset: 32085},
+																			pos:   position{line: 1038, col: 5, offset: 32108},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26129},
+																				pos: position{line: 812, col: 5, offset: 26152},
 																				run: (*parser).callonDocumentFragment839,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26129},
+																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2894, col: 11, offset: 91557},
+																							pos: position{line: 2895, col: 11, offset: 91580},
 																							expr: &anyMatcher{
-																								line: 2894, col: 13, offset: 91559,
+																								line: 2895, col: 13, offset: 91582,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26204},
+																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2823, col: 13, offset: 89749},
+																								pos: position{line: 2824, col: 13, offset: 89772},
 																								run: (*parser).callonDocumentFragment844,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2823, col: 13, offset: 89749},
+																									pos: position{line: 2824, col: 13, offset: 89772},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2823, col: 13, offset: 89749},
+																										pos:        position{line: 2824, col: 13, offset: 89772},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8022,28 +8022,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91621},
+																							pos: position{line: 2900, col: 8, offset: 91644},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91394},
+																									pos: position{line: 2887, col: 12, offset: 91417},
 																									run: (*parser).callonDocumentFragment848,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91395},
+																										pos: position{line: 2887, col: 13, offset: 91418},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91395},
+																												pos:        position{line: 2887, col: 13, offset: 91418},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91402},
+																												pos:        position{line: 2887, col: 20, offset: 91425},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91411},
+																												pos:        position{line: 2887, col: 29, offset: 91434},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8052,9 +8052,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91571},
+																									pos: position{line: 2897, col: 8, offset: 91594},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91572,
+																										line: 2897, col: 9, offset: 91595,
 																									},
 																								},
 																							},
@@ -8069,44 +8069,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1022, col: 5, offset: 31658},
+														pos:   position{line: 1023, col: 5, offset: 31681},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1022, col: 9, offset: 31662},
+															pos: position{line: 1023, col: 9, offset: 31685},
 															expr: &choiceExpr{
-																pos: position{line: 1029, col: 5, offset: 31884},
+																pos: position{line: 1030, col: 5, offset: 31907},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1029, col: 5, offset: 31884},
+																		pos: position{line: 1030, col: 5, offset: 31907},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1029, col: 5, offset: 31884},
+																				pos:   position{line: 1030, col: 5, offset: 31907},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 790, col: 5, offset: 25385},
+																					pos: position{line: 791, col: 5, offset: 25408},
 																					run: (*parser).callonDocumentFragment860,
 																					expr: &seqExpr{
-																						pos: position{line: 790, col: 5, offset: 25385},
+																						pos: position{line: 791, col: 5, offset: 25408},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 790, col: 5, offset: 25385},
+																								pos:   position{line: 791, col: 5, offset: 25408},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 790, col: 16, offset: 25396},
+																									pos: position{line: 791, col: 16, offset: 25419},
 																									run: (*parser).callonDocumentFragment863,
 																									expr: &seqExpr{
-																										pos: position{line: 790, col: 16, offset: 25396},
+																										pos: position{line: 791, col: 16, offset: 25419},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 790, col: 16, offset: 25396},
+																												pos:        position{line: 791, col: 16, offset: 25419},
 																												val:        "++++",
 																												ignoreCase: false,
 																												want:       "\"++++\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 790, col: 23, offset: 25403},
+																												pos: position{line: 791, col: 23, offset: 25426},
 																												expr: &litMatcher{
-																													pos:        position{line: 790, col: 23, offset: 25403},
+																													pos:        position{line: 791, col: 23, offset: 25426},
 																													val:        "+",
 																													ignoreCase: false,
 																													want:       "\"+\"",
@@ -8117,12 +8117,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 792, col: 8, offset: 25487},
+																								pos: position{line: 793, col: 8, offset: 25510},
 																								expr: &actionExpr{
-																									pos: position{line: 2877, col: 10, offset: 91223},
+																									pos: position{line: 2878, col: 10, offset: 91246},
 																									run: (*parser).callonDocumentFragment869,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 10, offset: 91223},
+																										pos:        position{line: 2878, col: 10, offset: 91246},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8131,28 +8131,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2899, col: 8, offset: 91621},
+																								pos: position{line: 2900, col: 8, offset: 91644},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2886, col: 12, offset: 91394},
+																										pos: position{line: 2887, col: 12, offset: 91417},
 																										run: (*parser).callonDocumentFragment872,
 																										expr: &choiceExpr{
-																											pos: position{line: 2886, col: 13, offset: 91395},
+																											pos: position{line: 2887, col: 13, offset: 91418},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 13, offset: 91395},
+																													pos:        position{line: 2887, col: 13, offset: 91418},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 20, offset: 91402},
+																													pos:        position{line: 2887, col: 20, offset: 91425},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 29, offset: 91411},
+																													pos:        position{line: 2887, col: 29, offset: 91434},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8161,9 +8161,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2896, col: 8, offset: 91571},
+																										pos: position{line: 2897, col: 8, offset: 91594},
 																										expr: &anyMatcher{
-																											line: 2896, col: 9, offset: 91572,
+																											line: 2897, col: 9, offset: 91595,
 																										},
 																									},
 																								},
@@ -8173,15 +8173,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1030, col: 5, offset: 31919},
+																				pos: position{line: 1031, col: 5, offset: 31942},
 																				run: (*parser).callonDocumentFragment879,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2896, col: 8, offset: 91571},
+																		pos: position{line: 2897, col: 8, offset: 91594},
 																		expr: &anyMatcher{
-																			line: 2896, col: 9, offset: 91572,
+																			line: 2897, col: 9, offset: 91595,
 																		},
 																	},
 																},
@@ -8192,39 +8192,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1045, col: 5, offset: 32236},
+											pos: position{line: 1046, col: 5, offset: 32259},
 											run: (*parser).callonDocumentFragment882,
 											expr: &seqExpr{
-												pos: position{line: 1045, col: 5, offset: 32236},
+												pos: position{line: 1046, col: 5, offset: 32259},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1045, col: 5, offset: 32236},
+														pos:   position{line: 1046, col: 5, offset: 32259},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 797, col: 5, offset: 25635},
+															pos: position{line: 798, col: 5, offset: 25658},
 															run: (*parser).callonDocumentFragment885,
 															expr: &seqExpr{
-																pos: position{line: 797, col: 5, offset: 25635},
+																pos: position{line: 798, col: 5, offset: 25658},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 797, col: 5, offset: 25635},
+																		pos:   position{line: 798, col: 5, offset: 25658},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 797, col: 16, offset: 25646},
+																			pos: position{line: 798, col: 16, offset: 25669},
 																			run: (*parser).callonDocumentFragment888,
 																			expr: &seqExpr{
-																				pos: position{line: 797, col: 16, offset: 25646},
+																				pos: position{line: 798, col: 16, offset: 25669},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 797, col: 16, offset: 25646},
+																						pos:        position{line: 798, col: 16, offset: 25669},
 																						val:        "____",
 																						ignoreCase: false,
 																						want:       "\"____\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 797, col: 23, offset: 25653},
+																						pos: position{line: 798, col: 23, offset: 25676},
 																						expr: &litMatcher{
-																							pos:        position{line: 797, col: 23, offset: 25653},
+																							pos:        position{line: 798, col: 23, offset: 25676},
 																							val:        "_",
 																							ignoreCase: false,
 																							want:       "\"_\"",
@@ -8235,12 +8235,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 799, col: 8, offset: 25737},
+																		pos: position{line: 800, col: 8, offset: 25760},
 																		expr: &actionExpr{
-																			pos: position{line: 2877, col: 10, offset: 91223},
+																			pos: position{line: 2878, col: 10, offset: 91246},
 																			run: (*parser).callonDocumentFragment894,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 10, offset: 91223},
+																				pos:        position{line: 2878, col: 10, offset: 91246},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8249,28 +8249,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2899, col: 8, offset: 91621},
+																		pos: position{line: 2900, col: 8, offset: 91644},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91394},
+																				pos: position{line: 2887, col: 12, offset: 91417},
 																				run: (*parser).callonDocumentFragment897,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91395},
+																					pos: position{line: 2887, col: 13, offset: 91418},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91395},
+																							pos:        position{line: 2887, col: 13, offset: 91418},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91402},
+																							pos:        position{line: 2887, col: 20, offset: 91425},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91411},
+																							pos:        position{line: 2887, col: 29, offset: 91434},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8279,9 +8279,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2896, col: 8, offset: 91571},
+																				pos: position{line: 2897, col: 8, offset: 91594},
 																				expr: &anyMatcher{
-																					line: 2896, col: 9, offset: 91572,
+																					line: 2897, col: 9, offset: 91595,
 																				},
 																			},
 																		},
@@ -8291,56 +8291,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1046, col: 5, offset: 32273},
+														pos: position{line: 1047, col: 5, offset: 32296},
 														run: (*parser).callonDocumentFragment904,
 													},
 													&labeledExpr{
-														pos:   position{line: 1049, col: 5, offset: 32365},
+														pos:   position{line: 1050, col: 5, offset: 32388},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1064, col: 4, offset: 32746},
+															pos: position{line: 1065, col: 4, offset: 32769},
 															expr: &actionExpr{
-																pos: position{line: 1064, col: 5, offset: 32747},
+																pos: position{line: 1065, col: 5, offset: 32770},
 																run: (*parser).callonDocumentFragment907,
 																expr: &seqExpr{
-																	pos: position{line: 1064, col: 5, offset: 32747},
+																	pos: position{line: 1065, col: 5, offset: 32770},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1064, col: 5, offset: 32747},
+																			pos: position{line: 1065, col: 5, offset: 32770},
 																			expr: &choiceExpr{
-																				pos: position{line: 1057, col: 5, offset: 32593},
+																				pos: position{line: 1058, col: 5, offset: 32616},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1057, col: 5, offset: 32593},
+																						pos: position{line: 1058, col: 5, offset: 32616},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1057, col: 5, offset: 32593},
+																								pos:   position{line: 1058, col: 5, offset: 32616},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 797, col: 5, offset: 25635},
+																									pos: position{line: 798, col: 5, offset: 25658},
 																									run: (*parser).callonDocumentFragment913,
 																									expr: &seqExpr{
-																										pos: position{line: 797, col: 5, offset: 25635},
+																										pos: position{line: 798, col: 5, offset: 25658},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 797, col: 5, offset: 25635},
+																												pos:   position{line: 798, col: 5, offset: 25658},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 797, col: 16, offset: 25646},
+																													pos: position{line: 798, col: 16, offset: 25669},
 																													run: (*parser).callonDocumentFragment916,
 																													expr: &seqExpr{
-																														pos: position{line: 797, col: 16, offset: 25646},
+																														pos: position{line: 798, col: 16, offset: 25669},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 797, col: 16, offset: 25646},
+																																pos:        position{line: 798, col: 16, offset: 25669},
 																																val:        "____",
 																																ignoreCase: false,
 																																want:       "\"____\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 797, col: 23, offset: 25653},
+																																pos: position{line: 798, col: 23, offset: 25676},
 																																expr: &litMatcher{
-																																	pos:        position{line: 797, col: 23, offset: 25653},
+																																	pos:        position{line: 798, col: 23, offset: 25676},
 																																	val:        "_",
 																																	ignoreCase: false,
 																																	want:       "\"_\"",
@@ -8351,12 +8351,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 799, col: 8, offset: 25737},
+																												pos: position{line: 800, col: 8, offset: 25760},
 																												expr: &actionExpr{
-																													pos: position{line: 2877, col: 10, offset: 91223},
+																													pos: position{line: 2878, col: 10, offset: 91246},
 																													run: (*parser).callonDocumentFragment922,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2877, col: 10, offset: 91223},
+																														pos:        position{line: 2878, col: 10, offset: 91246},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8365,28 +8365,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2899, col: 8, offset: 91621},
+																												pos: position{line: 2900, col: 8, offset: 91644},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2886, col: 12, offset: 91394},
+																														pos: position{line: 2887, col: 12, offset: 91417},
 																														run: (*parser).callonDocumentFragment925,
 																														expr: &choiceExpr{
-																															pos: position{line: 2886, col: 13, offset: 91395},
+																															pos: position{line: 2887, col: 13, offset: 91418},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 13, offset: 91395},
+																																	pos:        position{line: 2887, col: 13, offset: 91418},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 20, offset: 91402},
+																																	pos:        position{line: 2887, col: 20, offset: 91425},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 29, offset: 91411},
+																																	pos:        position{line: 2887, col: 29, offset: 91434},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8395,9 +8395,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2896, col: 8, offset: 91571},
+																														pos: position{line: 2897, col: 8, offset: 91594},
 																														expr: &anyMatcher{
-																															line: 2896, col: 9, offset: 91572,
+																															line: 2897, col: 9, offset: 91595,
 																														},
 																													},
 																												},
@@ -8407,45 +8407,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1058, col: 5, offset: 32622},
+																								pos: position{line: 1059, col: 5, offset: 32645},
 																								run: (*parser).callonDocumentFragment932,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2896, col: 8, offset: 91571},
+																						pos: position{line: 2897, col: 8, offset: 91594},
 																						expr: &anyMatcher{
-																							line: 2896, col: 9, offset: 91572,
+																							line: 2897, col: 9, offset: 91595,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1065, col: 5, offset: 32775},
+																			pos:   position{line: 1066, col: 5, offset: 32798},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26129},
+																				pos: position{line: 812, col: 5, offset: 26152},
 																				run: (*parser).callonDocumentFragment936,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26129},
+																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2894, col: 11, offset: 91557},
+																							pos: position{line: 2895, col: 11, offset: 91580},
 																							expr: &anyMatcher{
-																								line: 2894, col: 13, offset: 91559,
+																								line: 2895, col: 13, offset: 91582,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26204},
+																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2823, col: 13, offset: 89749},
+																								pos: position{line: 2824, col: 13, offset: 89772},
 																								run: (*parser).callonDocumentFragment941,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2823, col: 13, offset: 89749},
+																									pos: position{line: 2824, col: 13, offset: 89772},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2823, col: 13, offset: 89749},
+																										pos:        position{line: 2824, col: 13, offset: 89772},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8455,28 +8455,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91621},
+																							pos: position{line: 2900, col: 8, offset: 91644},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91394},
+																									pos: position{line: 2887, col: 12, offset: 91417},
 																									run: (*parser).callonDocumentFragment945,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91395},
+																										pos: position{line: 2887, col: 13, offset: 91418},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91395},
+																												pos:        position{line: 2887, col: 13, offset: 91418},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91402},
+																												pos:        position{line: 2887, col: 20, offset: 91425},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91411},
+																												pos:        position{line: 2887, col: 29, offset: 91434},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8485,9 +8485,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91571},
+																									pos: position{line: 2897, col: 8, offset: 91594},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91572,
+																										line: 2897, col: 9, offset: 91595,
 																									},
 																								},
 																							},
@@ -8502,44 +8502,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1050, col: 5, offset: 32397},
+														pos:   position{line: 1051, col: 5, offset: 32420},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1050, col: 9, offset: 32401},
+															pos: position{line: 1051, col: 9, offset: 32424},
 															expr: &choiceExpr{
-																pos: position{line: 1057, col: 5, offset: 32593},
+																pos: position{line: 1058, col: 5, offset: 32616},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1057, col: 5, offset: 32593},
+																		pos: position{line: 1058, col: 5, offset: 32616},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1057, col: 5, offset: 32593},
+																				pos:   position{line: 1058, col: 5, offset: 32616},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 797, col: 5, offset: 25635},
+																					pos: position{line: 798, col: 5, offset: 25658},
 																					run: (*parser).callonDocumentFragment957,
 																					expr: &seqExpr{
-																						pos: position{line: 797, col: 5, offset: 25635},
+																						pos: position{line: 798, col: 5, offset: 25658},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 797, col: 5, offset: 25635},
+																								pos:   position{line: 798, col: 5, offset: 25658},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 797, col: 16, offset: 25646},
+																									pos: position{line: 798, col: 16, offset: 25669},
 																									run: (*parser).callonDocumentFragment960,
 																									expr: &seqExpr{
-																										pos: position{line: 797, col: 16, offset: 25646},
+																										pos: position{line: 798, col: 16, offset: 25669},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 797, col: 16, offset: 25646},
+																												pos:        position{line: 798, col: 16, offset: 25669},
 																												val:        "____",
 																												ignoreCase: false,
 																												want:       "\"____\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 797, col: 23, offset: 25653},
+																												pos: position{line: 798, col: 23, offset: 25676},
 																												expr: &litMatcher{
-																													pos:        position{line: 797, col: 23, offset: 25653},
+																													pos:        position{line: 798, col: 23, offset: 25676},
 																													val:        "_",
 																													ignoreCase: false,
 																													want:       "\"_\"",
@@ -8550,12 +8550,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 799, col: 8, offset: 25737},
+																								pos: position{line: 800, col: 8, offset: 25760},
 																								expr: &actionExpr{
-																									pos: position{line: 2877, col: 10, offset: 91223},
+																									pos: position{line: 2878, col: 10, offset: 91246},
 																									run: (*parser).callonDocumentFragment966,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 10, offset: 91223},
+																										pos:        position{line: 2878, col: 10, offset: 91246},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8564,28 +8564,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2899, col: 8, offset: 91621},
+																								pos: position{line: 2900, col: 8, offset: 91644},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2886, col: 12, offset: 91394},
+																										pos: position{line: 2887, col: 12, offset: 91417},
 																										run: (*parser).callonDocumentFragment969,
 																										expr: &choiceExpr{
-																											pos: position{line: 2886, col: 13, offset: 91395},
+																											pos: position{line: 2887, col: 13, offset: 91418},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 13, offset: 91395},
+																													pos:        position{line: 2887, col: 13, offset: 91418},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 20, offset: 91402},
+																													pos:        position{line: 2887, col: 20, offset: 91425},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 29, offset: 91411},
+																													pos:        position{line: 2887, col: 29, offset: 91434},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8594,9 +8594,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2896, col: 8, offset: 91571},
+																										pos: position{line: 2897, col: 8, offset: 91594},
 																										expr: &anyMatcher{
-																											line: 2896, col: 9, offset: 91572,
+																											line: 2897, col: 9, offset: 91595,
 																										},
 																									},
 																								},
@@ -8606,15 +8606,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1058, col: 5, offset: 32622},
+																				pos: position{line: 1059, col: 5, offset: 32645},
 																				run: (*parser).callonDocumentFragment976,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2896, col: 8, offset: 91571},
+																		pos: position{line: 2897, col: 8, offset: 91594},
 																		expr: &anyMatcher{
-																			line: 2896, col: 9, offset: 91572,
+																			line: 2897, col: 9, offset: 91595,
 																		},
 																	},
 																},
@@ -8625,39 +8625,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1073, col: 5, offset: 32930},
+											pos: position{line: 1074, col: 5, offset: 32953},
 											run: (*parser).callonDocumentFragment979,
 											expr: &seqExpr{
-												pos: position{line: 1073, col: 5, offset: 32930},
+												pos: position{line: 1074, col: 5, offset: 32953},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1073, col: 5, offset: 32930},
+														pos:   position{line: 1074, col: 5, offset: 32953},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 804, col: 5, offset: 25881},
+															pos: position{line: 805, col: 5, offset: 25904},
 															run: (*parser).callonDocumentFragment982,
 															expr: &seqExpr{
-																pos: position{line: 804, col: 5, offset: 25881},
+																pos: position{line: 805, col: 5, offset: 25904},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 804, col: 5, offset: 25881},
+																		pos:   position{line: 805, col: 5, offset: 25904},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 804, col: 16, offset: 25892},
+																			pos: position{line: 805, col: 16, offset: 25915},
 																			run: (*parser).callonDocumentFragment985,
 																			expr: &seqExpr{
-																				pos: position{line: 804, col: 16, offset: 25892},
+																				pos: position{line: 805, col: 16, offset: 25915},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 804, col: 16, offset: 25892},
+																						pos:        position{line: 805, col: 16, offset: 25915},
 																						val:        "****",
 																						ignoreCase: false,
 																						want:       "\"****\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 804, col: 23, offset: 25899},
+																						pos: position{line: 805, col: 23, offset: 25922},
 																						expr: &litMatcher{
-																							pos:        position{line: 804, col: 23, offset: 25899},
+																							pos:        position{line: 805, col: 23, offset: 25922},
 																							val:        "*",
 																							ignoreCase: false,
 																							want:       "\"*\"",
@@ -8668,12 +8668,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 806, col: 8, offset: 25983},
+																		pos: position{line: 807, col: 8, offset: 26006},
 																		expr: &actionExpr{
-																			pos: position{line: 2877, col: 10, offset: 91223},
+																			pos: position{line: 2878, col: 10, offset: 91246},
 																			run: (*parser).callonDocumentFragment991,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 10, offset: 91223},
+																				pos:        position{line: 2878, col: 10, offset: 91246},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8682,28 +8682,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2899, col: 8, offset: 91621},
+																		pos: position{line: 2900, col: 8, offset: 91644},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91394},
+																				pos: position{line: 2887, col: 12, offset: 91417},
 																				run: (*parser).callonDocumentFragment994,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91395},
+																					pos: position{line: 2887, col: 13, offset: 91418},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91395},
+																							pos:        position{line: 2887, col: 13, offset: 91418},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91402},
+																							pos:        position{line: 2887, col: 20, offset: 91425},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91411},
+																							pos:        position{line: 2887, col: 29, offset: 91434},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8712,9 +8712,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2896, col: 8, offset: 91571},
+																				pos: position{line: 2897, col: 8, offset: 91594},
 																				expr: &anyMatcher{
-																					line: 2896, col: 9, offset: 91572,
+																					line: 2897, col: 9, offset: 91595,
 																				},
 																			},
 																		},
@@ -8724,56 +8724,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1074, col: 5, offset: 32969},
+														pos: position{line: 1075, col: 5, offset: 32992},
 														run: (*parser).callonDocumentFragment1001,
 													},
 													&labeledExpr{
-														pos:   position{line: 1077, col: 5, offset: 33061},
+														pos:   position{line: 1078, col: 5, offset: 33084},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1092, col: 4, offset: 33458},
+															pos: position{line: 1093, col: 4, offset: 33481},
 															expr: &actionExpr{
-																pos: position{line: 1092, col: 5, offset: 33459},
+																pos: position{line: 1093, col: 5, offset: 33482},
 																run: (*parser).callonDocumentFragment1004,
 																expr: &seqExpr{
-																	pos: position{line: 1092, col: 5, offset: 33459},
+																	pos: position{line: 1093, col: 5, offset: 33482},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1092, col: 5, offset: 33459},
+																			pos: position{line: 1093, col: 5, offset: 33482},
 																			expr: &choiceExpr{
-																				pos: position{line: 1085, col: 5, offset: 33301},
+																				pos: position{line: 1086, col: 5, offset: 33324},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1085, col: 5, offset: 33301},
+																						pos: position{line: 1086, col: 5, offset: 33324},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1085, col: 5, offset: 33301},
+																								pos:   position{line: 1086, col: 5, offset: 33324},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 804, col: 5, offset: 25881},
+																									pos: position{line: 805, col: 5, offset: 25904},
 																									run: (*parser).callonDocumentFragment1010,
 																									expr: &seqExpr{
-																										pos: position{line: 804, col: 5, offset: 25881},
+																										pos: position{line: 805, col: 5, offset: 25904},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 804, col: 5, offset: 25881},
+																												pos:   position{line: 805, col: 5, offset: 25904},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 804, col: 16, offset: 25892},
+																													pos: position{line: 805, col: 16, offset: 25915},
 																													run: (*parser).callonDocumentFragment1013,
 																													expr: &seqExpr{
-																														pos: position{line: 804, col: 16, offset: 25892},
+																														pos: position{line: 805, col: 16, offset: 25915},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 804, col: 16, offset: 25892},
+																																pos:        position{line: 805, col: 16, offset: 25915},
 																																val:        "****",
 																																ignoreCase: false,
 																																want:       "\"****\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 804, col: 23, offset: 25899},
+																																pos: position{line: 805, col: 23, offset: 25922},
 																																expr: &litMatcher{
-																																	pos:        position{line: 804, col: 23, offset: 25899},
+																																	pos:        position{line: 805, col: 23, offset: 25922},
 																																	val:        "*",
 																																	ignoreCase: false,
 																																	want:       "\"*\"",
@@ -8784,12 +8784,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 806, col: 8, offset: 25983},
+																												pos: position{line: 807, col: 8, offset: 26006},
 																												expr: &actionExpr{
-																													pos: position{line: 2877, col: 10, offset: 91223},
+																													pos: position{line: 2878, col: 10, offset: 91246},
 																													run: (*parser).callonDocumentFragment1019,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2877, col: 10, offset: 91223},
+																														pos:        position{line: 2878, col: 10, offset: 91246},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8798,28 +8798,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2899, col: 8, offset: 91621},
+																												pos: position{line: 2900, col: 8, offset: 91644},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2886, col: 12, offset: 91394},
+																														pos: position{line: 2887, col: 12, offset: 91417},
 																														run: (*parser).callonDocumentFragment1022,
 																														expr: &choiceExpr{
-																															pos: position{line: 2886, col: 13, offset: 91395},
+																															pos: position{line: 2887, col: 13, offset: 91418},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 13, offset: 91395},
+																																	pos:        position{line: 2887, col: 13, offset: 91418},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 20, offset: 91402},
+																																	pos:        position{line: 2887, col: 20, offset: 91425},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 29, offset: 91411},
+																																	pos:        position{line: 2887, col: 29, offset: 91434},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8828,9 +8828,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2896, col: 8, offset: 91571},
+																														pos: position{line: 2897, col: 8, offset: 91594},
 																														expr: &anyMatcher{
-																															line: 2896, col: 9, offset: 91572,
+																															line: 2897, col: 9, offset: 91595,
 																														},
 																													},
 																												},
@@ -8840,45 +8840,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1086, col: 5, offset: 33332},
+																								pos: position{line: 1087, col: 5, offset: 33355},
 																								run: (*parser).callonDocumentFragment1029,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2896, col: 8, offset: 91571},
+																						pos: position{line: 2897, col: 8, offset: 91594},
 																						expr: &anyMatcher{
-																							line: 2896, col: 9, offset: 91572,
+																							line: 2897, col: 9, offset: 91595,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1093, col: 5, offset: 33489},
+																			pos:   position{line: 1094, col: 5, offset: 33512},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26129},
+																				pos: position{line: 812, col: 5, offset: 26152},
 																				run: (*parser).callonDocumentFragment1033,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26129},
+																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2894, col: 11, offset: 91557},
+																							pos: position{line: 2895, col: 11, offset: 91580},
 																							expr: &anyMatcher{
-																								line: 2894, col: 13, offset: 91559,
+																								line: 2895, col: 13, offset: 91582,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26204},
+																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2823, col: 13, offset: 89749},
+																								pos: position{line: 2824, col: 13, offset: 89772},
 																								run: (*parser).callonDocumentFragment1038,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2823, col: 13, offset: 89749},
+																									pos: position{line: 2824, col: 13, offset: 89772},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2823, col: 13, offset: 89749},
+																										pos:        position{line: 2824, col: 13, offset: 89772},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8888,28 +8888,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91621},
+																							pos: position{line: 2900, col: 8, offset: 91644},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91394},
+																									pos: position{line: 2887, col: 12, offset: 91417},
 																									run: (*parser).callonDocumentFragment1042,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91395},
+																										pos: position{line: 2887, col: 13, offset: 91418},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91395},
+																												pos:        position{line: 2887, col: 13, offset: 91418},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91402},
+																												pos:        position{line: 2887, col: 20, offset: 91425},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91411},
+																												pos:        position{line: 2887, col: 29, offset: 91434},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8918,9 +8918,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91571},
+																									pos: position{line: 2897, col: 8, offset: 91594},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91572,
+																										line: 2897, col: 9, offset: 91595,
 																									},
 																								},
 																							},
@@ -8935,44 +8935,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1078, col: 5, offset: 33095},
+														pos:   position{line: 1079, col: 5, offset: 33118},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1078, col: 9, offset: 33099},
+															pos: position{line: 1079, col: 9, offset: 33122},
 															expr: &choiceExpr{
-																pos: position{line: 1085, col: 5, offset: 33301},
+																pos: position{line: 1086, col: 5, offset: 33324},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1085, col: 5, offset: 33301},
+																		pos: position{line: 1086, col: 5, offset: 33324},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1085, col: 5, offset: 33301},
+																				pos:   position{line: 1086, col: 5, offset: 33324},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 804, col: 5, offset: 25881},
+																					pos: position{line: 805, col: 5, offset: 25904},
 																					run: (*parser).callonDocumentFragment1054,
 																					expr: &seqExpr{
-																						pos: position{line: 804, col: 5, offset: 25881},
+																						pos: position{line: 805, col: 5, offset: 25904},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 804, col: 5, offset: 25881},
+																								pos:   position{line: 805, col: 5, offset: 25904},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 804, col: 16, offset: 25892},
+																									pos: position{line: 805, col: 16, offset: 25915},
 																									run: (*parser).callonDocumentFragment1057,
 																									expr: &seqExpr{
-																										pos: position{line: 804, col: 16, offset: 25892},
+																										pos: position{line: 805, col: 16, offset: 25915},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 804, col: 16, offset: 25892},
+																												pos:        position{line: 805, col: 16, offset: 25915},
 																												val:        "****",
 																												ignoreCase: false,
 																												want:       "\"****\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 804, col: 23, offset: 25899},
+																												pos: position{line: 805, col: 23, offset: 25922},
 																												expr: &litMatcher{
-																													pos:        position{line: 804, col: 23, offset: 25899},
+																													pos:        position{line: 805, col: 23, offset: 25922},
 																													val:        "*",
 																													ignoreCase: false,
 																													want:       "\"*\"",
@@ -8983,12 +8983,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 806, col: 8, offset: 25983},
+																								pos: position{line: 807, col: 8, offset: 26006},
 																								expr: &actionExpr{
-																									pos: position{line: 2877, col: 10, offset: 91223},
+																									pos: position{line: 2878, col: 10, offset: 91246},
 																									run: (*parser).callonDocumentFragment1063,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 10, offset: 91223},
+																										pos:        position{line: 2878, col: 10, offset: 91246},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8997,28 +8997,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2899, col: 8, offset: 91621},
+																								pos: position{line: 2900, col: 8, offset: 91644},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2886, col: 12, offset: 91394},
+																										pos: position{line: 2887, col: 12, offset: 91417},
 																										run: (*parser).callonDocumentFragment1066,
 																										expr: &choiceExpr{
-																											pos: position{line: 2886, col: 13, offset: 91395},
+																											pos: position{line: 2887, col: 13, offset: 91418},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 13, offset: 91395},
+																													pos:        position{line: 2887, col: 13, offset: 91418},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 20, offset: 91402},
+																													pos:        position{line: 2887, col: 20, offset: 91425},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 29, offset: 91411},
+																													pos:        position{line: 2887, col: 29, offset: 91434},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -9027,9 +9027,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2896, col: 8, offset: 91571},
+																										pos: position{line: 2897, col: 8, offset: 91594},
 																										expr: &anyMatcher{
-																											line: 2896, col: 9, offset: 91572,
+																											line: 2897, col: 9, offset: 91595,
 																										},
 																									},
 																								},
@@ -9039,15 +9039,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1086, col: 5, offset: 33332},
+																				pos: position{line: 1087, col: 5, offset: 33355},
 																				run: (*parser).callonDocumentFragment1073,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2896, col: 8, offset: 91571},
+																		pos: position{line: 2897, col: 8, offset: 91594},
 																		expr: &anyMatcher{
-																			line: 2896, col: 9, offset: 91572,
+																			line: 2897, col: 9, offset: 91595,
 																		},
 																	},
 																},
@@ -9058,52 +9058,52 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2722, col: 18, offset: 86797},
+											pos: position{line: 2723, col: 18, offset: 86820},
 											run: (*parser).callonDocumentFragment1076,
 											expr: &seqExpr{
-												pos: position{line: 2722, col: 18, offset: 86797},
+												pos: position{line: 2723, col: 18, offset: 86820},
 												exprs: []interface{}{
 													&choiceExpr{
-														pos: position{line: 2723, col: 9, offset: 86807},
+														pos: position{line: 2724, col: 9, offset: 86830},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2723, col: 9, offset: 86807},
+																pos:        position{line: 2724, col: 9, offset: 86830},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2724, col: 11, offset: 86843},
+																pos:        position{line: 2725, col: 11, offset: 86866},
 																val:        "***",
 																ignoreCase: false,
 																want:       "\"***\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2724, col: 19, offset: 86851},
+																pos:        position{line: 2725, col: 19, offset: 86874},
 																val:        "* * *",
 																ignoreCase: false,
 																want:       "\"* * *\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2724, col: 29, offset: 86861},
+																pos:        position{line: 2725, col: 29, offset: 86884},
 																val:        "---",
 																ignoreCase: false,
 																want:       "\"---\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2724, col: 37, offset: 86869},
+																pos:        position{line: 2725, col: 37, offset: 86892},
 																val:        "- - -",
 																ignoreCase: false,
 																want:       "\"- - -\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2724, col: 47, offset: 86879},
+																pos:        position{line: 2725, col: 47, offset: 86902},
 																val:        "___",
 																ignoreCase: false,
 																want:       "\"___\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2724, col: 55, offset: 86887},
+																pos:        position{line: 2725, col: 55, offset: 86910},
 																val:        "_ _ _",
 																ignoreCase: false,
 																want:       "\"_ _ _\"",
@@ -9111,12 +9111,12 @@ var g = &grammar{
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2725, col: 11, offset: 86933},
+														pos: position{line: 2726, col: 11, offset: 86956},
 														expr: &actionExpr{
-															pos: position{line: 2877, col: 10, offset: 91223},
+															pos: position{line: 2878, col: 10, offset: 91246},
 															run: (*parser).callonDocumentFragment1087,
 															expr: &charClassMatcher{
-																pos:        position{line: 2877, col: 10, offset: 91223},
+																pos:        position{line: 2878, col: 10, offset: 91246},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9125,28 +9125,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2899, col: 8, offset: 91621},
+														pos: position{line: 2900, col: 8, offset: 91644},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2886, col: 12, offset: 91394},
+																pos: position{line: 2887, col: 12, offset: 91417},
 																run: (*parser).callonDocumentFragment1090,
 																expr: &choiceExpr{
-																	pos: position{line: 2886, col: 13, offset: 91395},
+																	pos: position{line: 2887, col: 13, offset: 91418},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 13, offset: 91395},
+																			pos:        position{line: 2887, col: 13, offset: 91418},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 20, offset: 91402},
+																			pos:        position{line: 2887, col: 20, offset: 91425},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 29, offset: 91411},
+																			pos:        position{line: 2887, col: 29, offset: 91434},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9155,20 +9155,20 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2896, col: 8, offset: 91571},
+																pos: position{line: 2897, col: 8, offset: 91594},
 																expr: &anyMatcher{
-																	line: 2896, col: 9, offset: 91572,
+																	line: 2897, col: 9, offset: 91595,
 																},
 															},
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2725, col: 22, offset: 86944},
+														pos: position{line: 2726, col: 22, offset: 86967},
 														expr: &actionExpr{
-															pos: position{line: 2877, col: 10, offset: 91223},
+															pos: position{line: 2878, col: 10, offset: 91246},
 															run: (*parser).callonDocumentFragment1098,
 															expr: &charClassMatcher{
-																pos:        position{line: 2877, col: 10, offset: 91223},
+																pos:        position{line: 2878, col: 10, offset: 91246},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9177,28 +9177,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2899, col: 8, offset: 91621},
+														pos: position{line: 2900, col: 8, offset: 91644},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2886, col: 12, offset: 91394},
+																pos: position{line: 2887, col: 12, offset: 91417},
 																run: (*parser).callonDocumentFragment1101,
 																expr: &choiceExpr{
-																	pos: position{line: 2886, col: 13, offset: 91395},
+																	pos: position{line: 2887, col: 13, offset: 91418},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 13, offset: 91395},
+																			pos:        position{line: 2887, col: 13, offset: 91418},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 20, offset: 91402},
+																			pos:        position{line: 2887, col: 20, offset: 91425},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 29, offset: 91411},
+																			pos:        position{line: 2887, col: 29, offset: 91434},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9207,9 +9207,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2896, col: 8, offset: 91571},
+																pos: position{line: 2897, col: 8, offset: 91594},
 																expr: &anyMatcher{
-																	line: 2896, col: 9, offset: 91572,
+																	line: 2897, col: 9, offset: 91595,
 																},
 															},
 														},
@@ -9222,24 +9222,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2613, col: 5, offset: 83733},
+											pos: position{line: 2614, col: 5, offset: 83756},
 											run: (*parser).callonDocumentFragment1109,
 											expr: &seqExpr{
-												pos: position{line: 2613, col: 5, offset: 83733},
+												pos: position{line: 2614, col: 5, offset: 83756},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2619, col: 19, offset: 83890},
+														pos:        position{line: 2620, col: 19, offset: 83913},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2619, col: 26, offset: 83897},
+														pos: position{line: 2620, col: 26, offset: 83920},
 														expr: &actionExpr{
-															pos: position{line: 2877, col: 10, offset: 91223},
+															pos: position{line: 2878, col: 10, offset: 91246},
 															run: (*parser).callonDocumentFragment1113,
 															expr: &charClassMatcher{
-																pos:        position{line: 2877, col: 10, offset: 91223},
+																pos:        position{line: 2878, col: 10, offset: 91246},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9248,28 +9248,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2899, col: 8, offset: 91621},
+														pos: position{line: 2900, col: 8, offset: 91644},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2886, col: 12, offset: 91394},
+																pos: position{line: 2887, col: 12, offset: 91417},
 																run: (*parser).callonDocumentFragment1116,
 																expr: &choiceExpr{
-																	pos: position{line: 2886, col: 13, offset: 91395},
+																	pos: position{line: 2887, col: 13, offset: 91418},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 13, offset: 91395},
+																			pos:        position{line: 2887, col: 13, offset: 91418},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 20, offset: 91402},
+																			pos:        position{line: 2887, col: 20, offset: 91425},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 29, offset: 91411},
+																			pos:        position{line: 2887, col: 29, offset: 91434},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9278,20 +9278,20 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2896, col: 8, offset: 91571},
+																pos: position{line: 2897, col: 8, offset: 91594},
 																expr: &anyMatcher{
-																	line: 2896, col: 9, offset: 91572,
+																	line: 2897, col: 9, offset: 91595,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2614, col: 5, offset: 83757},
+														pos:   position{line: 2615, col: 5, offset: 83780},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2614, col: 11, offset: 83763},
+															pos: position{line: 2615, col: 11, offset: 83786},
 															expr: &choiceExpr{
-																pos: position{line: 2614, col: 12, offset: 83764},
+																pos: position{line: 2615, col: 12, offset: 83787},
 																alternatives: []interface{}{
 																	&actionExpr{
 																		pos: position{line: 677, col: 14, offset: 21525},
@@ -9300,18 +9300,18 @@ var g = &grammar{
 																			pos: position{line: 677, col: 14, offset: 21525},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2894, col: 11, offset: 91557},
+																					pos: position{line: 2895, col: 11, offset: 91580},
 																					expr: &anyMatcher{
-																						line: 2894, col: 13, offset: 91559,
+																						line: 2895, col: 13, offset: 91582,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21532},
 																					expr: &actionExpr{
-																						pos: position{line: 2877, col: 10, offset: 91223},
+																						pos: position{line: 2878, col: 10, offset: 91246},
 																						run: (*parser).callonDocumentFragment1131,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2877, col: 10, offset: 91223},
+																							pos:        position{line: 2878, col: 10, offset: 91246},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9320,28 +9320,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2899, col: 8, offset: 91621},
+																					pos: position{line: 2900, col: 8, offset: 91644},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2886, col: 12, offset: 91394},
+																							pos: position{line: 2887, col: 12, offset: 91417},
 																							run: (*parser).callonDocumentFragment1134,
 																							expr: &choiceExpr{
-																								pos: position{line: 2886, col: 13, offset: 91395},
+																								pos: position{line: 2887, col: 13, offset: 91418},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 13, offset: 91395},
+																										pos:        position{line: 2887, col: 13, offset: 91418},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 20, offset: 91402},
+																										pos:        position{line: 2887, col: 20, offset: 91425},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 29, offset: 91411},
+																										pos:        position{line: 2887, col: 29, offset: 91434},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9350,9 +9350,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2896, col: 8, offset: 91571},
+																							pos: position{line: 2897, col: 8, offset: 91594},
 																							expr: &anyMatcher{
-																								line: 2896, col: 9, offset: 91572,
+																								line: 2897, col: 9, offset: 91595,
 																							},
 																						},
 																					},
@@ -9361,32 +9361,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2626, col: 5, offset: 84009},
+																		pos: position{line: 2627, col: 5, offset: 84032},
 																		run: (*parser).callonDocumentFragment1141,
 																		expr: &seqExpr{
-																			pos: position{line: 2626, col: 5, offset: 84009},
+																			pos: position{line: 2627, col: 5, offset: 84032},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2626, col: 5, offset: 84009},
+																					pos: position{line: 2627, col: 5, offset: 84032},
 																					expr: &choiceExpr{
-																						pos: position{line: 2623, col: 22, offset: 83970},
+																						pos: position{line: 2624, col: 22, offset: 83993},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2619, col: 19, offset: 83890},
+																								pos: position{line: 2620, col: 19, offset: 83913},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2619, col: 19, offset: 83890},
+																										pos:        position{line: 2620, col: 19, offset: 83913},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2619, col: 26, offset: 83897},
+																										pos: position{line: 2620, col: 26, offset: 83920},
 																										expr: &actionExpr{
-																											pos: position{line: 2877, col: 10, offset: 91223},
+																											pos: position{line: 2878, col: 10, offset: 91246},
 																											run: (*parser).callonDocumentFragment1148,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2877, col: 10, offset: 91223},
+																												pos:        position{line: 2878, col: 10, offset: 91246},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9395,28 +9395,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2899, col: 8, offset: 91621},
+																										pos: position{line: 2900, col: 8, offset: 91644},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2886, col: 12, offset: 91394},
+																												pos: position{line: 2887, col: 12, offset: 91417},
 																												run: (*parser).callonDocumentFragment1151,
 																												expr: &choiceExpr{
-																													pos: position{line: 2886, col: 13, offset: 91395},
+																													pos: position{line: 2887, col: 13, offset: 91418},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2886, col: 13, offset: 91395},
+																															pos:        position{line: 2887, col: 13, offset: 91418},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2886, col: 20, offset: 91402},
+																															pos:        position{line: 2887, col: 20, offset: 91425},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2886, col: 29, offset: 91411},
+																															pos:        position{line: 2887, col: 29, offset: 91434},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9425,9 +9425,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2896, col: 8, offset: 91571},
+																												pos: position{line: 2897, col: 8, offset: 91594},
 																												expr: &anyMatcher{
-																													line: 2896, col: 9, offset: 91572,
+																													line: 2897, col: 9, offset: 91595,
 																												},
 																											},
 																										},
@@ -9435,59 +9435,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91571},
+																								pos: position{line: 2897, col: 8, offset: 91594},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91572,
+																									line: 2897, col: 9, offset: 91595,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2627, col: 5, offset: 84032},
+																					pos:   position{line: 2628, col: 5, offset: 84055},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2628, col: 9, offset: 84050},
+																						pos: position{line: 2629, col: 9, offset: 84073},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2628, col: 10, offset: 84051},
+																								pos: position{line: 2629, col: 10, offset: 84074},
 																								run: (*parser).callonDocumentFragment1162,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2628, col: 10, offset: 84051},
+																									pos:   position{line: 2629, col: 10, offset: 84074},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2628, col: 17, offset: 84058},
+																										pos: position{line: 2629, col: 17, offset: 84081},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2636, col: 21, offset: 84254},
+																												pos: position{line: 2637, col: 21, offset: 84277},
 																												run: (*parser).callonDocumentFragment1165,
 																												expr: &seqExpr{
-																													pos: position{line: 2636, col: 21, offset: 84254},
+																													pos: position{line: 2637, col: 21, offset: 84277},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2636, col: 21, offset: 84254},
+																															pos:   position{line: 2637, col: 21, offset: 84277},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2636, col: 27, offset: 84260},
+																																pos: position{line: 2637, col: 27, offset: 84283},
 																																expr: &actionExpr{
-																																	pos: position{line: 2641, col: 5, offset: 84335},
+																																	pos: position{line: 2642, col: 5, offset: 84358},
 																																	run: (*parser).callonDocumentFragment1169,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2641, col: 5, offset: 84335},
+																																		pos: position{line: 2642, col: 5, offset: 84358},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2641, col: 5, offset: 84335},
+																																				pos:        position{line: 2642, col: 5, offset: 84358},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2641, col: 9, offset: 84339},
+																																				pos: position{line: 2642, col: 9, offset: 84362},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2877, col: 10, offset: 91223},
+																																					pos: position{line: 2878, col: 10, offset: 91246},
 																																					run: (*parser).callonDocumentFragment1173,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2877, col: 10, offset: 91223},
+																																						pos:        position{line: 2878, col: 10, offset: 91246},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9496,21 +9496,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2641, col: 16, offset: 84346},
+																																				pos:   position{line: 2642, col: 16, offset: 84369},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2647, col: 5, offset: 84546},
+																																					pos: position{line: 2648, col: 5, offset: 84569},
 																																					run: (*parser).callonDocumentFragment1176,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2647, col: 5, offset: 84546},
+																																						pos:   position{line: 2648, col: 5, offset: 84569},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2647, col: 14, offset: 84555},
+																																							pos: position{line: 2648, col: 14, offset: 84578},
 																																							run: (*parser).callonDocumentFragment1178,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2647, col: 14, offset: 84555},
+																																								pos: position{line: 2648, col: 14, offset: 84578},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2647, col: 14, offset: 84555},
+																																									pos:        position{line: 2648, col: 14, offset: 84578},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9527,28 +9527,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2899, col: 8, offset: 91621},
+																															pos: position{line: 2900, col: 8, offset: 91644},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2886, col: 12, offset: 91394},
+																																	pos: position{line: 2887, col: 12, offset: 91417},
 																																	run: (*parser).callonDocumentFragment1182,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2886, col: 13, offset: 91395},
+																																		pos: position{line: 2887, col: 13, offset: 91418},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2886, col: 13, offset: 91395},
+																																				pos:        position{line: 2887, col: 13, offset: 91418},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2886, col: 20, offset: 91402},
+																																				pos:        position{line: 2887, col: 20, offset: 91425},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2886, col: 29, offset: 91411},
+																																				pos:        position{line: 2887, col: 29, offset: 91434},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9557,9 +9557,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2896, col: 8, offset: 91571},
+																																	pos: position{line: 2897, col: 8, offset: 91594},
 																																	expr: &anyMatcher{
-																																		line: 2896, col: 9, offset: 91572,
+																																		line: 2897, col: 9, offset: 91595,
 																																	},
 																																},
 																															},
@@ -9568,40 +9568,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2653, col: 24, offset: 84691},
+																												pos: position{line: 2654, col: 24, offset: 84714},
 																												run: (*parser).callonDocumentFragment1189,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2653, col: 24, offset: 84691},
+																													pos:   position{line: 2654, col: 24, offset: 84714},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2653, col: 30, offset: 84697},
+																														pos: position{line: 2654, col: 30, offset: 84720},
 																														expr: &actionExpr{
-																															pos: position{line: 2658, col: 5, offset: 84773},
+																															pos: position{line: 2659, col: 5, offset: 84796},
 																															run: (*parser).callonDocumentFragment1192,
 																															expr: &seqExpr{
-																																pos: position{line: 2658, col: 5, offset: 84773},
+																																pos: position{line: 2659, col: 5, offset: 84796},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2658, col: 5, offset: 84773},
+																																		pos: position{line: 2659, col: 5, offset: 84796},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2623, col: 22, offset: 83970},
+																																			pos: position{line: 2624, col: 22, offset: 83993},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2619, col: 19, offset: 83890},
+																																					pos: position{line: 2620, col: 19, offset: 83913},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2619, col: 19, offset: 83890},
+																																							pos:        position{line: 2620, col: 19, offset: 83913},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2619, col: 26, offset: 83897},
+																																							pos: position{line: 2620, col: 26, offset: 83920},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2877, col: 10, offset: 91223},
+																																								pos: position{line: 2878, col: 10, offset: 91246},
 																																								run: (*parser).callonDocumentFragment1199,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2877, col: 10, offset: 91223},
+																																									pos:        position{line: 2878, col: 10, offset: 91246},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9610,28 +9610,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2899, col: 8, offset: 91621},
+																																							pos: position{line: 2900, col: 8, offset: 91644},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2886, col: 12, offset: 91394},
+																																									pos: position{line: 2887, col: 12, offset: 91417},
 																																									run: (*parser).callonDocumentFragment1202,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2886, col: 13, offset: 91395},
+																																										pos: position{line: 2887, col: 13, offset: 91418},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2886, col: 13, offset: 91395},
+																																												pos:        position{line: 2887, col: 13, offset: 91418},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2886, col: 20, offset: 91402},
+																																												pos:        position{line: 2887, col: 20, offset: 91425},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2886, col: 29, offset: 91411},
+																																												pos:        position{line: 2887, col: 29, offset: 91434},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9640,9 +9640,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2896, col: 8, offset: 91571},
+																																									pos: position{line: 2897, col: 8, offset: 91594},
 																																									expr: &anyMatcher{
-																																										line: 2896, col: 9, offset: 91572,
+																																										line: 2897, col: 9, offset: 91595,
 																																									},
 																																								},
 																																							},
@@ -9650,16 +9650,16 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2896, col: 8, offset: 91571},
+																																					pos: position{line: 2897, col: 8, offset: 91594},
 																																					expr: &anyMatcher{
-																																						line: 2896, col: 9, offset: 91572,
+																																						line: 2897, col: 9, offset: 91595,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2659, col: 5, offset: 84796},
+																																		pos: position{line: 2660, col: 5, offset: 84819},
 																																		expr: &actionExpr{
 																																			pos: position{line: 677, col: 14, offset: 21525},
 																																			run: (*parser).callonDocumentFragment1212,
@@ -9667,18 +9667,18 @@ var g = &grammar{
 																																				pos: position{line: 677, col: 14, offset: 21525},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2894, col: 11, offset: 91557},
+																																						pos: position{line: 2895, col: 11, offset: 91580},
 																																						expr: &anyMatcher{
-																																							line: 2894, col: 13, offset: 91559,
+																																							line: 2895, col: 13, offset: 91582,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
 																																						pos: position{line: 677, col: 21, offset: 21532},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2877, col: 10, offset: 91223},
+																																							pos: position{line: 2878, col: 10, offset: 91246},
 																																							run: (*parser).callonDocumentFragment1217,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2877, col: 10, offset: 91223},
+																																								pos:        position{line: 2878, col: 10, offset: 91246},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9687,28 +9687,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2899, col: 8, offset: 91621},
+																																						pos: position{line: 2900, col: 8, offset: 91644},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2886, col: 12, offset: 91394},
+																																								pos: position{line: 2887, col: 12, offset: 91417},
 																																								run: (*parser).callonDocumentFragment1220,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2886, col: 13, offset: 91395},
+																																									pos: position{line: 2887, col: 13, offset: 91418},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2886, col: 13, offset: 91395},
+																																											pos:        position{line: 2887, col: 13, offset: 91418},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2886, col: 20, offset: 91402},
+																																											pos:        position{line: 2887, col: 20, offset: 91425},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2886, col: 29, offset: 91411},
+																																											pos:        position{line: 2887, col: 29, offset: 91434},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9717,9 +9717,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2896, col: 8, offset: 91571},
+																																								pos: position{line: 2897, col: 8, offset: 91594},
 																																								expr: &anyMatcher{
-																																									line: 2896, col: 9, offset: 91572,
+																																									line: 2897, col: 9, offset: 91595,
 																																								},
 																																							},
 																																						},
@@ -9729,17 +9729,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2660, col: 5, offset: 84811},
+																																		pos:   position{line: 2661, col: 5, offset: 84834},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2660, col: 12, offset: 84818},
+																																			pos: position{line: 2661, col: 12, offset: 84841},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2677, col: 20, offset: 85282},
+																																				pos: position{line: 2678, col: 20, offset: 85305},
 																																				run: (*parser).callonDocumentFragment1229,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2677, col: 20, offset: 85282},
+																																					pos: position{line: 2678, col: 20, offset: 85305},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2677, col: 20, offset: 85282},
+																																						pos:        position{line: 2678, col: 20, offset: 85305},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9750,18 +9750,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2660, col: 31, offset: 84837},
+																																		pos:        position{line: 2661, col: 31, offset: 84860},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2660, col: 35, offset: 84841},
+																																		pos: position{line: 2661, col: 35, offset: 84864},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2877, col: 10, offset: 91223},
+																																			pos: position{line: 2878, col: 10, offset: 91246},
 																																			run: (*parser).callonDocumentFragment1234,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2877, col: 10, offset: 91223},
+																																				pos:        position{line: 2878, col: 10, offset: 91246},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9770,27 +9770,27 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2660, col: 42, offset: 84848},
+																																		pos: position{line: 2661, col: 42, offset: 84871},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2886, col: 12, offset: 91394},
+																																			pos: position{line: 2887, col: 12, offset: 91417},
 																																			run: (*parser).callonDocumentFragment1237,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2886, col: 13, offset: 91395},
+																																				pos: position{line: 2887, col: 13, offset: 91418},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2886, col: 13, offset: 91395},
+																																						pos:        position{line: 2887, col: 13, offset: 91418},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2886, col: 20, offset: 91402},
+																																						pos:        position{line: 2887, col: 20, offset: 91425},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2886, col: 29, offset: 91411},
+																																						pos:        position{line: 2887, col: 29, offset: 91434},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9800,37 +9800,37 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2660, col: 51, offset: 84857},
+																																		pos:   position{line: 2661, col: 51, offset: 84880},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2666, col: 5, offset: 85016},
+																																			pos: position{line: 2667, col: 5, offset: 85039},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2667, col: 9, offset: 85026},
+																																				pos: position{line: 2668, col: 9, offset: 85049},
 																																				run: (*parser).callonDocumentFragment1244,
 																																				expr: &seqExpr{
-																																					pos: position{line: 2667, col: 9, offset: 85026},
+																																					pos: position{line: 2668, col: 9, offset: 85049},
 																																					exprs: []interface{}{
 																																						&notExpr{
-																																							pos: position{line: 2667, col: 9, offset: 85026},
+																																							pos: position{line: 2668, col: 9, offset: 85049},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2623, col: 22, offset: 83970},
+																																								pos: position{line: 2624, col: 22, offset: 83993},
 																																								alternatives: []interface{}{
 																																									&seqExpr{
-																																										pos: position{line: 2619, col: 19, offset: 83890},
+																																										pos: position{line: 2620, col: 19, offset: 83913},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2619, col: 19, offset: 83890},
+																																												pos:        position{line: 2620, col: 19, offset: 83913},
 																																												val:        "|===",
 																																												ignoreCase: false,
 																																												want:       "\"|===\"",
 																																											},
 																																											&zeroOrMoreExpr{
-																																												pos: position{line: 2619, col: 26, offset: 83897},
+																																												pos: position{line: 2620, col: 26, offset: 83920},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2877, col: 10, offset: 91223},
+																																													pos: position{line: 2878, col: 10, offset: 91246},
 																																													run: (*parser).callonDocumentFragment1251,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2877, col: 10, offset: 91223},
+																																														pos:        position{line: 2878, col: 10, offset: 91246},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -9839,28 +9839,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2899, col: 8, offset: 91621},
+																																												pos: position{line: 2900, col: 8, offset: 91644},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2886, col: 12, offset: 91394},
+																																														pos: position{line: 2887, col: 12, offset: 91417},
 																																														run: (*parser).callonDocumentFragment1254,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2886, col: 13, offset: 91395},
+																																															pos: position{line: 2887, col: 13, offset: 91418},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2886, col: 13, offset: 91395},
+																																																	pos:        position{line: 2887, col: 13, offset: 91418},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2886, col: 20, offset: 91402},
+																																																	pos:        position{line: 2887, col: 20, offset: 91425},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2886, col: 29, offset: 91411},
+																																																	pos:        position{line: 2887, col: 29, offset: 91434},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -9869,9 +9869,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2896, col: 8, offset: 91571},
+																																														pos: position{line: 2897, col: 8, offset: 91594},
 																																														expr: &anyMatcher{
-																																															line: 2896, col: 9, offset: 91572,
+																																															line: 2897, col: 9, offset: 91595,
 																																														},
 																																													},
 																																												},
@@ -9879,16 +9879,16 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2896, col: 8, offset: 91571},
+																																										pos: position{line: 2897, col: 8, offset: 91594},
 																																										expr: &anyMatcher{
-																																											line: 2896, col: 9, offset: 91572,
+																																											line: 2897, col: 9, offset: 91595,
 																																										},
 																																									},
 																																								},
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2668, col: 9, offset: 85053},
+																																							pos: position{line: 2669, col: 9, offset: 85076},
 																																							expr: &actionExpr{
 																																								pos: position{line: 677, col: 14, offset: 21525},
 																																								run: (*parser).callonDocumentFragment1264,
@@ -9896,18 +9896,18 @@ var g = &grammar{
 																																									pos: position{line: 677, col: 14, offset: 21525},
 																																									exprs: []interface{}{
 																																										&andExpr{
-																																											pos: position{line: 2894, col: 11, offset: 91557},
+																																											pos: position{line: 2895, col: 11, offset: 91580},
 																																											expr: &anyMatcher{
-																																												line: 2894, col: 13, offset: 91559,
+																																												line: 2895, col: 13, offset: 91582,
 																																											},
 																																										},
 																																										&zeroOrMoreExpr{
 																																											pos: position{line: 677, col: 21, offset: 21532},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2877, col: 10, offset: 91223},
+																																												pos: position{line: 2878, col: 10, offset: 91246},
 																																												run: (*parser).callonDocumentFragment1269,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2877, col: 10, offset: 91223},
+																																													pos:        position{line: 2878, col: 10, offset: 91246},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -9916,28 +9916,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2899, col: 8, offset: 91621},
+																																											pos: position{line: 2900, col: 8, offset: 91644},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2886, col: 12, offset: 91394},
+																																													pos: position{line: 2887, col: 12, offset: 91417},
 																																													run: (*parser).callonDocumentFragment1272,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2886, col: 13, offset: 91395},
+																																														pos: position{line: 2887, col: 13, offset: 91418},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2886, col: 13, offset: 91395},
+																																																pos:        position{line: 2887, col: 13, offset: 91418},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2886, col: 20, offset: 91402},
+																																																pos:        position{line: 2887, col: 20, offset: 91425},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2886, col: 29, offset: 91411},
+																																																pos:        position{line: 2887, col: 29, offset: 91434},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -9946,9 +9946,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2896, col: 8, offset: 91571},
+																																													pos: position{line: 2897, col: 8, offset: 91594},
 																																													expr: &anyMatcher{
-																																														line: 2896, col: 9, offset: 91572,
+																																														line: 2897, col: 9, offset: 91595,
 																																													},
 																																												},
 																																											},
@@ -9958,22 +9958,22 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2669, col: 9, offset: 85072},
+																																							pos: position{line: 2670, col: 9, offset: 85095},
 																																							expr: &seqExpr{
-																																								pos: position{line: 2669, col: 11, offset: 85074},
+																																								pos: position{line: 2670, col: 11, offset: 85097},
 																																								exprs: []interface{}{
 																																									&labeledExpr{
-																																										pos:   position{line: 2669, col: 11, offset: 85074},
+																																										pos:   position{line: 2670, col: 11, offset: 85097},
 																																										label: "format",
 																																										expr: &zeroOrOneExpr{
-																																											pos: position{line: 2669, col: 18, offset: 85081},
+																																											pos: position{line: 2670, col: 18, offset: 85104},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2677, col: 20, offset: 85282},
+																																												pos: position{line: 2678, col: 20, offset: 85305},
 																																												run: (*parser).callonDocumentFragment1283,
 																																												expr: &zeroOrMoreExpr{
-																																													pos: position{line: 2677, col: 20, offset: 85282},
+																																													pos: position{line: 2678, col: 20, offset: 85305},
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2677, col: 20, offset: 85282},
+																																														pos:        position{line: 2678, col: 20, offset: 85305},
 																																														val:        "[^ |\\r\\n]",
 																																														chars:      []rune{' ', '|', '\r', '\n'},
 																																														ignoreCase: false,
@@ -9984,7 +9984,7 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2669, col: 37, offset: 85100},
+																																										pos:        position{line: 2670, col: 37, offset: 85123},
 																																										val:        "|",
 																																										ignoreCase: false,
 																																										want:       "\"|\"",
@@ -9993,15 +9993,15 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&labeledExpr{
-																																							pos:   position{line: 2670, col: 9, offset: 85113},
+																																							pos:   position{line: 2671, col: 9, offset: 85136},
 																																							label: "content",
 																																							expr: &actionExpr{
-																																								pos: position{line: 2670, col: 18, offset: 85122},
+																																								pos: position{line: 2671, col: 18, offset: 85145},
 																																								run: (*parser).callonDocumentFragment1288,
 																																								expr: &zeroOrMoreExpr{
-																																									pos: position{line: 2670, col: 18, offset: 85122},
+																																									pos: position{line: 2671, col: 18, offset: 85145},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2670, col: 18, offset: 85122},
+																																										pos:        position{line: 2671, col: 18, offset: 85145},
 																																										val:        "[^|\\r\\n]",
 																																										chars:      []rune{'|', '\r', '\n'},
 																																										ignoreCase: false,
@@ -10011,30 +10011,30 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&zeroOrOneExpr{
-																																							pos: position{line: 2672, col: 12, offset: 85184},
+																																							pos: position{line: 2673, col: 12, offset: 85207},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2899, col: 8, offset: 91621},
+																																								pos: position{line: 2900, col: 8, offset: 91644},
 																																								alternatives: []interface{}{
 																																									&actionExpr{
-																																										pos: position{line: 2886, col: 12, offset: 91394},
+																																										pos: position{line: 2887, col: 12, offset: 91417},
 																																										run: (*parser).callonDocumentFragment1293,
 																																										expr: &choiceExpr{
-																																											pos: position{line: 2886, col: 13, offset: 91395},
+																																											pos: position{line: 2887, col: 13, offset: 91418},
 																																											alternatives: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2886, col: 13, offset: 91395},
+																																													pos:        position{line: 2887, col: 13, offset: 91418},
 																																													val:        "\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2886, col: 20, offset: 91402},
+																																													pos:        position{line: 2887, col: 20, offset: 91425},
 																																													val:        "\r\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2886, col: 29, offset: 91411},
+																																													pos:        position{line: 2887, col: 29, offset: 91434},
 																																													val:        "\r",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\"",
@@ -10043,9 +10043,9 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2896, col: 8, offset: 91571},
+																																										pos: position{line: 2897, col: 8, offset: 91594},
 																																										expr: &anyMatcher{
-																																											line: 2896, col: 9, offset: 91572,
+																																											line: 2897, col: 9, offset: 91595,
 																																										},
 																																									},
 																																								},
@@ -10073,18 +10073,18 @@ var g = &grammar{
 																									pos: position{line: 677, col: 14, offset: 21525},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2894, col: 11, offset: 91557},
+																											pos: position{line: 2895, col: 11, offset: 91580},
 																											expr: &anyMatcher{
-																												line: 2894, col: 13, offset: 91559,
+																												line: 2895, col: 13, offset: 91582,
 																											},
 																										},
 																										&zeroOrMoreExpr{
 																											pos: position{line: 677, col: 21, offset: 21532},
 																											expr: &actionExpr{
-																												pos: position{line: 2877, col: 10, offset: 91223},
+																												pos: position{line: 2878, col: 10, offset: 91246},
 																												run: (*parser).callonDocumentFragment1305,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2877, col: 10, offset: 91223},
+																													pos:        position{line: 2878, col: 10, offset: 91246},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -10093,28 +10093,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91621},
+																											pos: position{line: 2900, col: 8, offset: 91644},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91394},
+																													pos: position{line: 2887, col: 12, offset: 91417},
 																													run: (*parser).callonDocumentFragment1308,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91395},
+																														pos: position{line: 2887, col: 13, offset: 91418},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91395},
+																																pos:        position{line: 2887, col: 13, offset: 91418},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91402},
+																																pos:        position{line: 2887, col: 20, offset: 91425},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91411},
+																																pos:        position{line: 2887, col: 29, offset: 91434},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -10123,9 +10123,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91571},
+																													pos: position{line: 2897, col: 8, offset: 91594},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91572,
+																														line: 2897, col: 9, offset: 91595,
 																													},
 																												},
 																											},
@@ -10144,24 +10144,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2623, col: 22, offset: 83970},
+														pos: position{line: 2624, col: 22, offset: 83993},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2619, col: 19, offset: 83890},
+																pos: position{line: 2620, col: 19, offset: 83913},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2619, col: 19, offset: 83890},
+																		pos:        position{line: 2620, col: 19, offset: 83913},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2619, col: 26, offset: 83897},
+																		pos: position{line: 2620, col: 26, offset: 83920},
 																		expr: &actionExpr{
-																			pos: position{line: 2877, col: 10, offset: 91223},
+																			pos: position{line: 2878, col: 10, offset: 91246},
 																			run: (*parser).callonDocumentFragment1319,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 10, offset: 91223},
+																				pos:        position{line: 2878, col: 10, offset: 91246},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10170,28 +10170,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2899, col: 8, offset: 91621},
+																		pos: position{line: 2900, col: 8, offset: 91644},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91394},
+																				pos: position{line: 2887, col: 12, offset: 91417},
 																				run: (*parser).callonDocumentFragment1322,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91395},
+																					pos: position{line: 2887, col: 13, offset: 91418},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91395},
+																							pos:        position{line: 2887, col: 13, offset: 91418},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91402},
+																							pos:        position{line: 2887, col: 20, offset: 91425},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91411},
+																							pos:        position{line: 2887, col: 29, offset: 91434},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10200,9 +10200,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2896, col: 8, offset: 91571},
+																				pos: position{line: 2897, col: 8, offset: 91594},
 																				expr: &anyMatcher{
-																					line: 2896, col: 9, offset: 91572,
+																					line: 2897, col: 9, offset: 91595,
 																				},
 																			},
 																		},
@@ -10210,9 +10210,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2896, col: 8, offset: 91571},
+																pos: position{line: 2897, col: 8, offset: 91594},
 																expr: &anyMatcher{
-																	line: 2896, col: 9, offset: 91572,
+																	line: 2897, col: 9, offset: 91595,
 																},
 															},
 														},
@@ -10221,36 +10221,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2484, col: 22, offset: 80109},
+											pos: position{line: 2485, col: 22, offset: 80132},
 											run: (*parser).callonDocumentFragment1331,
 											expr: &seqExpr{
-												pos: position{line: 2484, col: 22, offset: 80109},
+												pos: position{line: 2485, col: 22, offset: 80132},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2489, col: 31, offset: 80330},
+														pos:        position{line: 2490, col: 31, offset: 80353},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2489, col: 36, offset: 80335},
+														pos: position{line: 2490, col: 36, offset: 80358},
 														expr: &litMatcher{
-															pos:        position{line: 2489, col: 37, offset: 80336},
+															pos:        position{line: 2490, col: 37, offset: 80359},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2484, col: 49, offset: 80136},
+														pos:   position{line: 2485, col: 49, offset: 80159},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2823, col: 13, offset: 89749},
+															pos: position{line: 2824, col: 13, offset: 89772},
 															run: (*parser).callonDocumentFragment1337,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2823, col: 13, offset: 89749},
+																pos: position{line: 2824, col: 13, offset: 89772},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2823, col: 13, offset: 89749},
+																	pos:        position{line: 2824, col: 13, offset: 89772},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10260,28 +10260,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2899, col: 8, offset: 91621},
+														pos: position{line: 2900, col: 8, offset: 91644},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2886, col: 12, offset: 91394},
+																pos: position{line: 2887, col: 12, offset: 91417},
 																run: (*parser).callonDocumentFragment1341,
 																expr: &choiceExpr{
-																	pos: position{line: 2886, col: 13, offset: 91395},
+																	pos: position{line: 2887, col: 13, offset: 91418},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 13, offset: 91395},
+																			pos:        position{line: 2887, col: 13, offset: 91418},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 20, offset: 91402},
+																			pos:        position{line: 2887, col: 20, offset: 91425},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 29, offset: 91411},
+																			pos:        position{line: 2887, col: 29, offset: 91434},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10290,9 +10290,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2896, col: 8, offset: 91571},
+																pos: position{line: 2897, col: 8, offset: 91594},
 																expr: &anyMatcher{
-																	line: 2896, col: 9, offset: 91572,
+																	line: 2897, col: 9, offset: 91595,
 																},
 															},
 														},
@@ -10301,37 +10301,37 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1226, col: 5, offset: 37962},
+											pos: position{line: 1227, col: 5, offset: 37985},
 											run: (*parser).callonDocumentFragment1348,
 											expr: &seqExpr{
-												pos: position{line: 1226, col: 5, offset: 37962},
+												pos: position{line: 1227, col: 5, offset: 37985},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 1226, col: 5, offset: 37962},
+														pos: position{line: 1227, col: 5, offset: 37985},
 														run: (*parser).callonDocumentFragment1350,
 													},
 													&labeledExpr{
-														pos:   position{line: 1229, col: 5, offset: 38020},
+														pos:   position{line: 1230, col: 5, offset: 38043},
 														label: "frontmatter",
 														expr: &actionExpr{
-															pos: position{line: 1234, col: 20, offset: 38115},
+															pos: position{line: 1235, col: 20, offset: 38138},
 															run: (*parser).callonDocumentFragment1352,
 															expr: &seqExpr{
-																pos: position{line: 1234, col: 20, offset: 38115},
+																pos: position{line: 1235, col: 20, offset: 38138},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1238, col: 30, offset: 38335},
+																		pos:        position{line: 1239, col: 30, offset: 38358},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1238, col: 36, offset: 38341},
+																		pos: position{line: 1239, col: 36, offset: 38364},
 																		expr: &actionExpr{
-																			pos: position{line: 2877, col: 10, offset: 91223},
+																			pos: position{line: 2878, col: 10, offset: 91246},
 																			run: (*parser).callonDocumentFragment1356,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 10, offset: 91223},
+																				pos:        position{line: 2878, col: 10, offset: 91246},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10340,28 +10340,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2899, col: 8, offset: 91621},
+																		pos: position{line: 2900, col: 8, offset: 91644},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91394},
+																				pos: position{line: 2887, col: 12, offset: 91417},
 																				run: (*parser).callonDocumentFragment1359,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91395},
+																					pos: position{line: 2887, col: 13, offset: 91418},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91395},
+																							pos:        position{line: 2887, col: 13, offset: 91418},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91402},
+																							pos:        position{line: 2887, col: 20, offset: 91425},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91411},
+																							pos:        position{line: 2887, col: 29, offset: 91434},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10370,46 +10370,46 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2896, col: 8, offset: 91571},
+																				pos: position{line: 2897, col: 8, offset: 91594},
 																				expr: &anyMatcher{
-																					line: 2896, col: 9, offset: 91572,
+																					line: 2897, col: 9, offset: 91595,
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1234, col: 45, offset: 38140},
+																		pos:   position{line: 1235, col: 45, offset: 38163},
 																		label: "content",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 1234, col: 53, offset: 38148},
+																			pos: position{line: 1235, col: 53, offset: 38171},
 																			expr: &actionExpr{
-																				pos: position{line: 1240, col: 27, offset: 38379},
+																				pos: position{line: 1241, col: 27, offset: 38402},
 																				run: (*parser).callonDocumentFragment1368,
 																				expr: &zeroOrMoreExpr{
-																					pos: position{line: 1240, col: 27, offset: 38379},
+																					pos: position{line: 1241, col: 27, offset: 38402},
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1240, col: 28, offset: 38380},
+																						pos: position{line: 1241, col: 28, offset: 38403},
 																						expr: &seqExpr{
-																							pos: position{line: 1240, col: 29, offset: 38381},
+																							pos: position{line: 1241, col: 29, offset: 38404},
 																							exprs: []interface{}{
 																								&notExpr{
-																									pos: position{line: 1240, col: 29, offset: 38381},
+																									pos: position{line: 1241, col: 29, offset: 38404},
 																									expr: &seqExpr{
-																										pos: position{line: 1238, col: 30, offset: 38335},
+																										pos: position{line: 1239, col: 30, offset: 38358},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 1238, col: 30, offset: 38335},
+																												pos:        position{line: 1239, col: 30, offset: 38358},
 																												val:        "---",
 																												ignoreCase: false,
 																												want:       "\"---\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 1238, col: 36, offset: 38341},
+																												pos: position{line: 1239, col: 36, offset: 38364},
 																												expr: &actionExpr{
-																													pos: position{line: 2877, col: 10, offset: 91223},
+																													pos: position{line: 2878, col: 10, offset: 91246},
 																													run: (*parser).callonDocumentFragment1376,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2877, col: 10, offset: 91223},
+																														pos:        position{line: 2878, col: 10, offset: 91246},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -10418,28 +10418,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2899, col: 8, offset: 91621},
+																												pos: position{line: 2900, col: 8, offset: 91644},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2886, col: 12, offset: 91394},
+																														pos: position{line: 2887, col: 12, offset: 91417},
 																														run: (*parser).callonDocumentFragment1379,
 																														expr: &choiceExpr{
-																															pos: position{line: 2886, col: 13, offset: 91395},
+																															pos: position{line: 2887, col: 13, offset: 91418},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 13, offset: 91395},
+																																	pos:        position{line: 2887, col: 13, offset: 91418},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 20, offset: 91402},
+																																	pos:        position{line: 2887, col: 20, offset: 91425},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2886, col: 29, offset: 91411},
+																																	pos:        position{line: 2887, col: 29, offset: 91434},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -10448,9 +10448,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2896, col: 8, offset: 91571},
+																														pos: position{line: 2897, col: 8, offset: 91594},
 																														expr: &anyMatcher{
-																															line: 2896, col: 9, offset: 91572,
+																															line: 2897, col: 9, offset: 91595,
 																														},
 																													},
 																												},
@@ -10459,7 +10459,7 @@ var g = &grammar{
 																									},
 																								},
 																								&anyMatcher{
-																									line: 1240, col: 55, offset: 38407,
+																									line: 1241, col: 55, offset: 38430,
 																								},
 																							},
 																						},
@@ -10469,18 +10469,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1238, col: 30, offset: 38335},
+																		pos:        position{line: 1239, col: 30, offset: 38358},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1238, col: 36, offset: 38341},
+																		pos: position{line: 1239, col: 36, offset: 38364},
 																		expr: &actionExpr{
-																			pos: position{line: 2877, col: 10, offset: 91223},
+																			pos: position{line: 2878, col: 10, offset: 91246},
 																			run: (*parser).callonDocumentFragment1389,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 10, offset: 91223},
+																				pos:        position{line: 2878, col: 10, offset: 91246},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10489,28 +10489,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2899, col: 8, offset: 91621},
+																		pos: position{line: 2900, col: 8, offset: 91644},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91394},
+																				pos: position{line: 2887, col: 12, offset: 91417},
 																				run: (*parser).callonDocumentFragment1392,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91395},
+																					pos: position{line: 2887, col: 13, offset: 91418},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91395},
+																							pos:        position{line: 2887, col: 13, offset: 91418},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91402},
+																							pos:        position{line: 2887, col: 20, offset: 91425},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91411},
+																							pos:        position{line: 2887, col: 29, offset: 91434},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10519,15 +10519,15 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2896, col: 8, offset: 91571},
+																				pos: position{line: 2897, col: 8, offset: 91594},
 																				expr: &anyMatcher{
-																					line: 2896, col: 9, offset: 91572,
+																					line: 2897, col: 9, offset: 91595,
 																				},
 																			},
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1234, col: 104, offset: 38199},
+																		pos: position{line: 1235, col: 104, offset: 38222},
 																		run: (*parser).callonDocumentFragment1399,
 																	},
 																},
@@ -10578,9 +10578,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2896, col: 8, offset: 91571},
+							pos: position{line: 2897, col: 8, offset: 91594},
 							expr: &anyMatcher{
-								line: 2896, col: 9, offset: 91572,
+								line: 2897, col: 9, offset: 91595,
 							},
 						},
 					},
@@ -10652,12 +10652,12 @@ var g = &grammar{
 										pos: position{line: 304, col: 9, offset: 9170},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2881, col: 11, offset: 91284},
+												pos: position{line: 2882, col: 11, offset: 91307},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2881, col: 11, offset: 91284},
+													pos: position{line: 2882, col: 11, offset: 91307},
 													expr: &charClassMatcher{
-														pos:        position{line: 2881, col: 11, offset: 91284},
+														pos:        position{line: 2882, col: 11, offset: 91307},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10681,10 +10681,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 309, col: 5, offset: 9350},
 							expr: &actionExpr{
-								pos: position{line: 2877, col: 10, offset: 91223},
+								pos: position{line: 2878, col: 10, offset: 91246},
 								run: (*parser).callonAttributeDeclaration21,
 								expr: &charClassMatcher{
-									pos:        position{line: 2877, col: 10, offset: 91223},
+									pos:        position{line: 2878, col: 10, offset: 91246},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -10693,28 +10693,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2899, col: 8, offset: 91621},
+							pos: position{line: 2900, col: 8, offset: 91644},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2886, col: 12, offset: 91394},
+									pos: position{line: 2887, col: 12, offset: 91417},
 									run: (*parser).callonAttributeDeclaration24,
 									expr: &choiceExpr{
-										pos: position{line: 2886, col: 13, offset: 91395},
+										pos: position{line: 2887, col: 13, offset: 91418},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2886, col: 13, offset: 91395},
+												pos:        position{line: 2887, col: 13, offset: 91418},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2886, col: 20, offset: 91402},
+												pos:        position{line: 2887, col: 20, offset: 91425},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2886, col: 29, offset: 91411},
+												pos:        position{line: 2887, col: 29, offset: 91434},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10723,9 +10723,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2896, col: 8, offset: 91571},
+									pos: position{line: 2897, col: 8, offset: 91594},
 									expr: &anyMatcher{
-										line: 2896, col: 9, offset: 91572,
+										line: 2897, col: 9, offset: 91595,
 									},
 								},
 							},
@@ -10771,10 +10771,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 324, col: 14, offset: 9848},
 												expr: &actionExpr{
-													pos: position{line: 2877, col: 10, offset: 91223},
+													pos: position{line: 2878, col: 10, offset: 91246},
 													run: (*parser).callonAttributeDeclarationValue11,
 													expr: &charClassMatcher{
-														pos:        position{line: 2877, col: 10, offset: 91223},
+														pos:        position{line: 2878, col: 10, offset: 91246},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10783,25 +10783,25 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 2886, col: 12, offset: 91394},
+												pos: position{line: 2887, col: 12, offset: 91417},
 												run: (*parser).callonAttributeDeclarationValue13,
 												expr: &choiceExpr{
-													pos: position{line: 2886, col: 13, offset: 91395},
+													pos: position{line: 2887, col: 13, offset: 91418},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2886, col: 13, offset: 91395},
+															pos:        position{line: 2887, col: 13, offset: 91418},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2886, col: 20, offset: 91402},
+															pos:        position{line: 2887, col: 20, offset: 91425},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2886, col: 29, offset: 91411},
+															pos:        position{line: 2887, col: 29, offset: 91434},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10812,10 +10812,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 325, col: 9, offset: 9872},
 												expr: &actionExpr{
-													pos: position{line: 2877, col: 10, offset: 91223},
+													pos: position{line: 2878, col: 10, offset: 91246},
 													run: (*parser).callonAttributeDeclarationValue19,
 													expr: &charClassMatcher{
-														pos:        position{line: 2877, col: 10, offset: 91223},
+														pos:        position{line: 2878, col: 10, offset: 91246},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10885,10 +10885,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 343, col: 13, offset: 10417},
 										expr: &actionExpr{
-											pos: position{line: 2877, col: 10, offset: 91223},
+											pos: position{line: 2878, col: 10, offset: 91246},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2877, col: 10, offset: 91223},
+												pos:        position{line: 2878, col: 10, offset: 91246},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10897,28 +10897,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2899, col: 8, offset: 91621},
+										pos: position{line: 2900, col: 8, offset: 91644},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2886, col: 12, offset: 91394},
+												pos: position{line: 2887, col: 12, offset: 91417},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2886, col: 13, offset: 91395},
+													pos: position{line: 2887, col: 13, offset: 91418},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2886, col: 13, offset: 91395},
+															pos:        position{line: 2887, col: 13, offset: 91418},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2886, col: 20, offset: 91402},
+															pos:        position{line: 2887, col: 20, offset: 91425},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2886, col: 29, offset: 91411},
+															pos:        position{line: 2887, col: 29, offset: 91434},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10927,9 +10927,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2896, col: 8, offset: 91571},
+												pos: position{line: 2897, col: 8, offset: 91594},
 												expr: &anyMatcher{
-													line: 2896, col: 9, offset: 91572,
+													line: 2897, col: 9, offset: 91595,
 												},
 											},
 										},
@@ -10962,23 +10962,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2471, col: 5, offset: 79655},
+										pos: position{line: 2472, col: 5, offset: 79678},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2471, col: 5, offset: 79655},
+											pos: position{line: 2472, col: 5, offset: 79678},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2471, col: 5, offset: 79655},
+													pos: position{line: 2472, col: 5, offset: 79678},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2474, col: 5, offset: 79731},
+													pos:   position{line: 2475, col: 5, offset: 79754},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2475, col: 9, offset: 79749},
+														pos: position{line: 2476, col: 9, offset: 79772},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2475, col: 10, offset: 79750},
+															pos:        position{line: 2476, col: 10, offset: 79773},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -10990,10 +10990,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2877, col: 10, offset: 91223},
+										pos: position{line: 2878, col: 10, offset: 91246},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2877, col: 10, offset: 91223},
+											pos:        position{line: 2878, col: 10, offset: 91246},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -11417,27 +11417,27 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1198, col: 23, offset: 37013},
+																						pos: position{line: 1199, col: 23, offset: 37036},
 																						run: (*parser).callonBlockAttributes19,
 																						expr: &seqExpr{
-																							pos: position{line: 1198, col: 23, offset: 37013},
+																							pos: position{line: 1199, col: 23, offset: 37036},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1196, col: 32, offset: 36981},
+																									pos:        position{line: 1197, col: 32, offset: 37004},
 																									val:        "�",
 																									ignoreCase: false,
 																									want:       "\"�\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1198, col: 51, offset: 37041},
+																									pos:   position{line: 1199, col: 51, offset: 37064},
 																									label: "ref",
 																									expr: &actionExpr{
-																										pos: position{line: 1198, col: 56, offset: 37046},
+																										pos: position{line: 1199, col: 56, offset: 37069},
 																										run: (*parser).callonBlockAttributes23,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1198, col: 56, offset: 37046},
+																											pos: position{line: 1199, col: 56, offset: 37069},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1198, col: 56, offset: 37046},
+																												pos:        position{line: 1199, col: 56, offset: 37069},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -11447,13 +11447,13 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1196, col: 32, offset: 36981},
+																									pos:        position{line: 1197, col: 32, offset: 37004},
 																									val:        "�",
 																									ignoreCase: false,
 																									want:       "\"�\"",
 																								},
 																								&andCodeExpr{
-																									pos: position{line: 1199, col: 5, offset: 37118},
+																									pos: position{line: 1200, col: 5, offset: 37141},
 																									run: (*parser).callonBlockAttributes27,
 																								},
 																							},
@@ -11834,10 +11834,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 371, col: 35, offset: 11426},
 												expr: &actionExpr{
-													pos: position{line: 2877, col: 10, offset: 91223},
+													pos: position{line: 2878, col: 10, offset: 91246},
 													run: (*parser).callonBlockAttributes101,
 													expr: &charClassMatcher{
-														pos:        position{line: 2877, col: 10, offset: 91223},
+														pos:        position{line: 2878, col: 10, offset: 91246},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11846,28 +11846,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2899, col: 8, offset: 91621},
+												pos: position{line: 2900, col: 8, offset: 91644},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2886, col: 12, offset: 91394},
+														pos: position{line: 2887, col: 12, offset: 91417},
 														run: (*parser).callonBlockAttributes104,
 														expr: &choiceExpr{
-															pos: position{line: 2886, col: 13, offset: 91395},
+															pos: position{line: 2887, col: 13, offset: 91418},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2886, col: 13, offset: 91395},
+																	pos:        position{line: 2887, col: 13, offset: 91418},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2886, col: 20, offset: 91402},
+																	pos:        position{line: 2887, col: 20, offset: 91425},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2886, col: 29, offset: 91411},
+																	pos:        position{line: 2887, col: 29, offset: 91434},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11876,9 +11876,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2896, col: 8, offset: 91571},
+														pos: position{line: 2897, col: 8, offset: 91594},
 														expr: &anyMatcher{
-															line: 2896, col: 9, offset: 91572,
+															line: 2897, col: 9, offset: 91595,
 														},
 													},
 												},
@@ -11892,18 +11892,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21525},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2894, col: 11, offset: 91557},
+																pos: position{line: 2895, col: 11, offset: 91580},
 																expr: &anyMatcher{
-																	line: 2894, col: 13, offset: 91559,
+																	line: 2895, col: 13, offset: 91582,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21532},
 																expr: &actionExpr{
-																	pos: position{line: 2877, col: 10, offset: 91223},
+																	pos: position{line: 2878, col: 10, offset: 91246},
 																	run: (*parser).callonBlockAttributes117,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2877, col: 10, offset: 91223},
+																		pos:        position{line: 2878, col: 10, offset: 91246},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -11912,28 +11912,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2899, col: 8, offset: 91621},
+																pos: position{line: 2900, col: 8, offset: 91644},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2886, col: 12, offset: 91394},
+																		pos: position{line: 2887, col: 12, offset: 91417},
 																		run: (*parser).callonBlockAttributes120,
 																		expr: &choiceExpr{
-																			pos: position{line: 2886, col: 13, offset: 91395},
+																			pos: position{line: 2887, col: 13, offset: 91418},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 13, offset: 91395},
+																					pos:        position{line: 2887, col: 13, offset: 91418},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 20, offset: 91402},
+																					pos:        position{line: 2887, col: 20, offset: 91425},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 29, offset: 91411},
+																					pos:        position{line: 2887, col: 29, offset: 91434},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -11942,9 +11942,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2896, col: 8, offset: 91571},
+																		pos: position{line: 2897, col: 8, offset: 91594},
 																		expr: &anyMatcher{
-																			line: 2896, col: 9, offset: 91572,
+																			line: 2897, col: 9, offset: 91595,
 																		},
 																	},
 																},
@@ -11996,12 +11996,12 @@ var g = &grammar{
 																		pos: position{line: 425, col: 9, offset: 13070},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2771, col: 14, offset: 88371},
+																				pos: position{line: 2772, col: 14, offset: 88394},
 																				run: (*parser).callonBlockAttributes138,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2771, col: 14, offset: 88371},
+																					pos: position{line: 2772, col: 14, offset: 88394},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2771, col: 14, offset: 88371},
+																						pos:        position{line: 2772, col: 14, offset: 88394},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -12010,10 +12010,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2877, col: 10, offset: 91223},
+																				pos: position{line: 2878, col: 10, offset: 91246},
 																				run: (*parser).callonBlockAttributes141,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 10, offset: 91223},
+																					pos:        position{line: 2878, col: 10, offset: 91246},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -12021,27 +12021,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2794, col: 5, offset: 88877},
+																				pos: position{line: 2795, col: 5, offset: 88900},
 																				run: (*parser).callonBlockAttributes143,
 																				expr: &choiceExpr{
-																					pos: position{line: 2795, col: 9, offset: 88887},
+																					pos: position{line: 2796, col: 9, offset: 88910},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2795, col: 10, offset: 88888},
+																							pos:        position{line: 2796, col: 10, offset: 88911},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2797, col: 13, offset: 88985},
+																							pos: position{line: 2798, col: 13, offset: 89008},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2797, col: 13, offset: 88985},
+																									pos: position{line: 2798, col: 13, offset: 89008},
 																									run: (*parser).callonBlockAttributes147,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2800, col: 13, offset: 89085},
+																									pos:        position{line: 2801, col: 13, offset: 89108},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -12049,20 +12049,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2800, col: 19, offset: 89091},
+																							pos:        position{line: 2801, col: 19, offset: 89114},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2803, col: 13, offset: 89129},
+																							pos: position{line: 2804, col: 13, offset: 89152},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2803, col: 13, offset: 89129},
+																									pos: position{line: 2804, col: 13, offset: 89152},
 																									run: (*parser).callonBlockAttributes151,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2806, col: 14, offset: 89222},
+																									pos:        position{line: 2807, col: 14, offset: 89245},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -12071,18 +12071,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2808, col: 12, offset: 89266},
+																							pos: position{line: 2809, col: 12, offset: 89289},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2808, col: 12, offset: 89266},
+																									pos:        position{line: 2809, col: 12, offset: 89289},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2808, col: 16, offset: 89270},
+																									pos: position{line: 2809, col: 16, offset: 89293},
 																									expr: &litMatcher{
-																										pos:        position{line: 2808, col: 17, offset: 89271},
+																										pos:        position{line: 2809, col: 17, offset: 89294},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12418,10 +12418,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2816, col: 12, offset: 89531},
+																				pos: position{line: 2817, col: 12, offset: 89554},
 																				run: (*parser).callonBlockAttributes221,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2816, col: 12, offset: 89531},
+																					pos:        position{line: 2817, col: 12, offset: 89554},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12439,10 +12439,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 375, col: 35, offset: 11581},
 												expr: &actionExpr{
-													pos: position{line: 2877, col: 10, offset: 91223},
+													pos: position{line: 2878, col: 10, offset: 91246},
 													run: (*parser).callonBlockAttributes224,
 													expr: &charClassMatcher{
-														pos:        position{line: 2877, col: 10, offset: 91223},
+														pos:        position{line: 2878, col: 10, offset: 91246},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12451,28 +12451,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2899, col: 8, offset: 91621},
+												pos: position{line: 2900, col: 8, offset: 91644},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2886, col: 12, offset: 91394},
+														pos: position{line: 2887, col: 12, offset: 91417},
 														run: (*parser).callonBlockAttributes227,
 														expr: &choiceExpr{
-															pos: position{line: 2886, col: 13, offset: 91395},
+															pos: position{line: 2887, col: 13, offset: 91418},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2886, col: 13, offset: 91395},
+																	pos:        position{line: 2887, col: 13, offset: 91418},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2886, col: 20, offset: 91402},
+																	pos:        position{line: 2887, col: 20, offset: 91425},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2886, col: 29, offset: 91411},
+																	pos:        position{line: 2887, col: 29, offset: 91434},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12481,9 +12481,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2896, col: 8, offset: 91571},
+														pos: position{line: 2897, col: 8, offset: 91594},
 														expr: &anyMatcher{
-															line: 2896, col: 9, offset: 91572,
+															line: 2897, col: 9, offset: 91595,
 														},
 													},
 												},
@@ -12497,18 +12497,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21525},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2894, col: 11, offset: 91557},
+																pos: position{line: 2895, col: 11, offset: 91580},
 																expr: &anyMatcher{
-																	line: 2894, col: 13, offset: 91559,
+																	line: 2895, col: 13, offset: 91582,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21532},
 																expr: &actionExpr{
-																	pos: position{line: 2877, col: 10, offset: 91223},
+																	pos: position{line: 2878, col: 10, offset: 91246},
 																	run: (*parser).callonBlockAttributes240,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2877, col: 10, offset: 91223},
+																		pos:        position{line: 2878, col: 10, offset: 91246},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12517,28 +12517,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2899, col: 8, offset: 91621},
+																pos: position{line: 2900, col: 8, offset: 91644},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2886, col: 12, offset: 91394},
+																		pos: position{line: 2887, col: 12, offset: 91417},
 																		run: (*parser).callonBlockAttributes243,
 																		expr: &choiceExpr{
-																			pos: position{line: 2886, col: 13, offset: 91395},
+																			pos: position{line: 2887, col: 13, offset: 91418},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 13, offset: 91395},
+																					pos:        position{line: 2887, col: 13, offset: 91418},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 20, offset: 91402},
+																					pos:        position{line: 2887, col: 20, offset: 91425},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 29, offset: 91411},
+																					pos:        position{line: 2887, col: 29, offset: 91434},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12547,9 +12547,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2896, col: 8, offset: 91571},
+																		pos: position{line: 2897, col: 8, offset: 91594},
 																		expr: &anyMatcher{
-																			line: 2896, col: 9, offset: 91572,
+																			line: 2897, col: 9, offset: 91595,
 																		},
 																	},
 																},
@@ -12571,10 +12571,10 @@ var g = &grammar{
 												pos:   position{line: 379, col: 12, offset: 11682},
 												label: "start",
 												expr: &actionExpr{
-													pos: position{line: 2902, col: 16, offset: 91745},
+													pos: position{line: 2903, col: 16, offset: 91768},
 													run: (*parser).callonBlockAttributes253,
 													expr: &litMatcher{
-														pos:        position{line: 2902, col: 16, offset: 91745},
+														pos:        position{line: 2903, col: 16, offset: 91768},
 														val:        "",
 														ignoreCase: false,
 														want:       "\"\"",
@@ -12592,10 +12592,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 379, col: 64, offset: 11734},
 												expr: &actionExpr{
-													pos: position{line: 2877, col: 10, offset: 91223},
+													pos: position{line: 2878, col: 10, offset: 91246},
 													run: (*parser).callonBlockAttributes258,
 													expr: &charClassMatcher{
-														pos:        position{line: 2877, col: 10, offset: 91223},
+														pos:        position{line: 2878, col: 10, offset: 91246},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12607,10 +12607,10 @@ var g = &grammar{
 												pos:   position{line: 379, col: 71, offset: 11741},
 												label: "end",
 												expr: &actionExpr{
-													pos: position{line: 2902, col: 16, offset: 91745},
+													pos: position{line: 2903, col: 16, offset: 91768},
 													run: (*parser).callonBlockAttributes261,
 													expr: &litMatcher{
-														pos:        position{line: 2902, col: 16, offset: 91745},
+														pos:        position{line: 2903, col: 16, offset: 91768},
 														val:        "",
 														ignoreCase: false,
 														want:       "\"\"",
@@ -12622,28 +12622,28 @@ var g = &grammar{
 												run: (*parser).callonBlockAttributes263,
 											},
 											&choiceExpr{
-												pos: position{line: 2899, col: 8, offset: 91621},
+												pos: position{line: 2900, col: 8, offset: 91644},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2886, col: 12, offset: 91394},
+														pos: position{line: 2887, col: 12, offset: 91417},
 														run: (*parser).callonBlockAttributes265,
 														expr: &choiceExpr{
-															pos: position{line: 2886, col: 13, offset: 91395},
+															pos: position{line: 2887, col: 13, offset: 91418},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2886, col: 13, offset: 91395},
+																	pos:        position{line: 2887, col: 13, offset: 91418},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2886, col: 20, offset: 91402},
+																	pos:        position{line: 2887, col: 20, offset: 91425},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2886, col: 29, offset: 91411},
+																	pos:        position{line: 2887, col: 29, offset: 91434},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12652,9 +12652,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2896, col: 8, offset: 91571},
+														pos: position{line: 2897, col: 8, offset: 91594},
 														expr: &anyMatcher{
-															line: 2896, col: 9, offset: 91572,
+															line: 2897, col: 9, offset: 91595,
 														},
 													},
 												},
@@ -12668,18 +12668,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21525},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2894, col: 11, offset: 91557},
+																pos: position{line: 2895, col: 11, offset: 91580},
 																expr: &anyMatcher{
-																	line: 2894, col: 13, offset: 91559,
+																	line: 2895, col: 13, offset: 91582,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21532},
 																expr: &actionExpr{
-																	pos: position{line: 2877, col: 10, offset: 91223},
+																	pos: position{line: 2878, col: 10, offset: 91246},
 																	run: (*parser).callonBlockAttributes278,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2877, col: 10, offset: 91223},
+																		pos:        position{line: 2878, col: 10, offset: 91246},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12688,28 +12688,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2899, col: 8, offset: 91621},
+																pos: position{line: 2900, col: 8, offset: 91644},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2886, col: 12, offset: 91394},
+																		pos: position{line: 2887, col: 12, offset: 91417},
 																		run: (*parser).callonBlockAttributes281,
 																		expr: &choiceExpr{
-																			pos: position{line: 2886, col: 13, offset: 91395},
+																			pos: position{line: 2887, col: 13, offset: 91418},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 13, offset: 91395},
+																					pos:        position{line: 2887, col: 13, offset: 91418},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 20, offset: 91402},
+																					pos:        position{line: 2887, col: 20, offset: 91425},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 29, offset: 91411},
+																					pos:        position{line: 2887, col: 29, offset: 91434},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12718,9 +12718,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2896, col: 8, offset: 91571},
+																		pos: position{line: 2897, col: 8, offset: 91594},
 																		expr: &anyMatcher{
-																			line: 2896, col: 9, offset: 91572,
+																			line: 2897, col: 9, offset: 91595,
 																		},
 																	},
 																},
@@ -12968,10 +12968,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 466, col: 13, offset: 14565},
 										expr: &actionExpr{
-											pos: position{line: 2877, col: 10, offset: 91223},
+											pos: position{line: 2878, col: 10, offset: 91246},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2877, col: 10, offset: 91223},
+												pos:        position{line: 2878, col: 10, offset: 91246},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13503,10 +13503,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 518, col: 9, offset: 16147},
 													expr: &actionExpr{
-														pos: position{line: 2877, col: 10, offset: 91223},
+														pos: position{line: 2878, col: 10, offset: 91246},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2877, col: 10, offset: 91223},
+															pos:        position{line: 2878, col: 10, offset: 91246},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13567,10 +13567,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 524, col: 34, offset: 16290},
 														expr: &actionExpr{
-															pos: position{line: 2877, col: 10, offset: 91223},
+															pos: position{line: 2878, col: 10, offset: 91246},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2877, col: 10, offset: 91223},
+																pos:        position{line: 2878, col: 10, offset: 91246},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13610,10 +13610,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 529, col: 13, offset: 16454},
 												expr: &actionExpr{
-													pos: position{line: 2877, col: 10, offset: 91223},
+													pos: position{line: 2878, col: 10, offset: 91246},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2877, col: 10, offset: 91223},
+														pos:        position{line: 2878, col: 10, offset: 91246},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13636,10 +13636,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 529, col: 26, offset: 16467},
 																expr: &actionExpr{
-																	pos: position{line: 2877, col: 10, offset: 91223},
+																	pos: position{line: 2878, col: 10, offset: 91246},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2877, col: 10, offset: 91223},
+																		pos:        position{line: 2878, col: 10, offset: 91246},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13694,10 +13694,10 @@ var g = &grammar{
 										&notExpr{
 											pos: position{line: 549, col: 22, offset: 17114},
 											expr: &actionExpr{
-												pos: position{line: 2877, col: 10, offset: 91223},
+												pos: position{line: 2878, col: 10, offset: 91246},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2877, col: 10, offset: 91223},
+													pos:        position{line: 2878, col: 10, offset: 91246},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13728,10 +13728,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 542, col: 9, offset: 16859},
 							expr: &actionExpr{
-								pos: position{line: 2877, col: 10, offset: 91223},
+								pos: position{line: 2878, col: 10, offset: 91246},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2877, col: 10, offset: 91223},
+									pos:        position{line: 2878, col: 10, offset: 91246},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13761,10 +13761,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 543, col: 33, offset: 16899},
 										expr: &actionExpr{
-											pos: position{line: 2877, col: 10, offset: 91223},
+											pos: position{line: 2878, col: 10, offset: 91246},
 											run: (*parser).callonNamedAttribute21,
 											expr: &charClassMatcher{
-												pos:        position{line: 2877, col: 10, offset: 91223},
+												pos:        position{line: 2878, col: 10, offset: 91246},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13819,10 +13819,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 559, col: 9, offset: 17331},
 											expr: &actionExpr{
-												pos: position{line: 2877, col: 10, offset: 91223},
+												pos: position{line: 2878, col: 10, offset: 91246},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2877, col: 10, offset: 91223},
+													pos:        position{line: 2878, col: 10, offset: 91246},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13901,12 +13901,12 @@ var g = &grammar{
 							pos: position{line: 572, col: 9, offset: 17648},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2771, col: 14, offset: 88371},
+									pos: position{line: 2772, col: 14, offset: 88394},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2771, col: 14, offset: 88371},
+										pos: position{line: 2772, col: 14, offset: 88394},
 										expr: &charClassMatcher{
-											pos:        position{line: 2771, col: 14, offset: 88371},
+											pos:        position{line: 2772, col: 14, offset: 88394},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -13915,10 +13915,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2877, col: 10, offset: 91223},
+									pos: position{line: 2878, col: 10, offset: 91246},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2877, col: 10, offset: 91223},
+										pos:        position{line: 2878, col: 10, offset: 91246},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14375,10 +14375,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 592, col: 14, offset: 18388},
 											expr: &actionExpr{
-												pos: position{line: 2877, col: 10, offset: 91223},
+												pos: position{line: 2878, col: 10, offset: 91246},
 												run: (*parser).callonDoubleQuotedAttributeValue13,
 												expr: &charClassMatcher{
-													pos:        position{line: 2877, col: 10, offset: 91223},
+													pos:        position{line: 2878, col: 10, offset: 91246},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14415,12 +14415,12 @@ var g = &grammar{
 							pos: position{line: 598, col: 9, offset: 18499},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2771, col: 14, offset: 88371},
+									pos: position{line: 2772, col: 14, offset: 88394},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2771, col: 14, offset: 88371},
+										pos: position{line: 2772, col: 14, offset: 88394},
 										expr: &charClassMatcher{
-											pos:        position{line: 2771, col: 14, offset: 88371},
+											pos:        position{line: 2772, col: 14, offset: 88394},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14429,10 +14429,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2877, col: 10, offset: 91223},
+									pos: position{line: 2878, col: 10, offset: 91246},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2877, col: 10, offset: 91223},
+										pos:        position{line: 2878, col: 10, offset: 91246},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14859,10 +14859,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 619, col: 5, offset: 19355},
 							expr: &actionExpr{
-								pos: position{line: 2877, col: 10, offset: 91223},
+								pos: position{line: 2878, col: 10, offset: 91246},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2877, col: 10, offset: 91223},
+									pos:        position{line: 2878, col: 10, offset: 91246},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -15252,10 +15252,10 @@ var g = &grammar{
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2877, col: 10, offset: 91223},
+											pos: position{line: 2878, col: 10, offset: 91246},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2877, col: 10, offset: 91223},
+												pos:        position{line: 2878, col: 10, offset: 91246},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -15306,12 +15306,12 @@ var g = &grammar{
 									pos:   position{line: 686, col: 32, offset: 21885},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2862, col: 7, offset: 90875},
+										pos: position{line: 2863, col: 7, offset: 90898},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2862, col: 7, offset: 90875},
+											pos: position{line: 2863, col: 7, offset: 90898},
 											expr: &charClassMatcher{
-												pos:        position{line: 2862, col: 7, offset: 90875},
+												pos:        position{line: 2863, col: 7, offset: 90898},
 												val:        "[^[]<>,\\r\\n]",
 												chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 												ignoreCase: false,
@@ -15323,10 +15323,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 686, col: 40, offset: 21893},
 									expr: &actionExpr{
-										pos: position{line: 2877, col: 10, offset: 91223},
+										pos: position{line: 2878, col: 10, offset: 91246},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2877, col: 10, offset: 91223},
+											pos:        position{line: 2878, col: 10, offset: 91246},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15343,10 +15343,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 686, col: 51, offset: 21904},
 									expr: &actionExpr{
-										pos: position{line: 2877, col: 10, offset: 91223},
+										pos: position{line: 2878, col: 10, offset: 91246},
 										run: (*parser).callonCrossReference14,
 										expr: &charClassMatcher{
-											pos:        position{line: 2877, col: 10, offset: 91223},
+											pos:        position{line: 2878, col: 10, offset: 91246},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15483,10 +15483,228 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 701, col: 8, offset: 22546},
+													pos: position{line: 658, col: 25, offset: 20825},
 													run: (*parser).callonCrossReference42,
+													expr: &seqExpr{
+														pos: position{line: 658, col: 25, offset: 20825},
+														exprs: []interface{}{
+															&litMatcher{
+																pos:        position{line: 658, col: 25, offset: 20825},
+																val:        "{counter:",
+																ignoreCase: false,
+																want:       "\"{counter:\"",
+															},
+															&labeledExpr{
+																pos:   position{line: 658, col: 37, offset: 20837},
+																label: "name",
+																expr: &actionExpr{
+																	pos: position{line: 317, col: 18, offset: 9667},
+																	run: (*parser).callonCrossReference46,
+																	expr: &seqExpr{
+																		pos: position{line: 317, col: 18, offset: 9667},
+																		exprs: []interface{}{
+																			&charClassMatcher{
+																				pos:        position{line: 317, col: 18, offset: 9667},
+																				val:        "[_\\pL\\pN]",
+																				chars:      []rune{'_'},
+																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																				ignoreCase: false,
+																				inverted:   false,
+																			},
+																			&zeroOrMoreExpr{
+																				pos: position{line: 317, col: 28, offset: 9677},
+																				expr: &charClassMatcher{
+																					pos:        position{line: 317, col: 29, offset: 9678},
+																					val:        "[_-\\pL\\pN]",
+																					chars:      []rune{'_', '-'},
+																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																					ignoreCase: false,
+																					inverted:   false,
+																				},
+																			},
+																		},
+																	},
+																},
+															},
+															&labeledExpr{
+																pos:   position{line: 658, col: 56, offset: 20856},
+																label: "start",
+																expr: &zeroOrOneExpr{
+																	pos: position{line: 658, col: 62, offset: 20862},
+																	expr: &actionExpr{
+																		pos: position{line: 666, col: 17, offset: 21159},
+																		run: (*parser).callonCrossReference53,
+																		expr: &seqExpr{
+																			pos: position{line: 666, col: 17, offset: 21159},
+																			exprs: []interface{}{
+																				&litMatcher{
+																					pos:        position{line: 666, col: 17, offset: 21159},
+																					val:        ":",
+																					ignoreCase: false,
+																					want:       "\":\"",
+																				},
+																				&labeledExpr{
+																					pos:   position{line: 666, col: 21, offset: 21163},
+																					label: "start",
+																					expr: &choiceExpr{
+																						pos: position{line: 666, col: 28, offset: 21170},
+																						alternatives: []interface{}{
+																							&actionExpr{
+																								pos: position{line: 666, col: 28, offset: 21170},
+																								run: (*parser).callonCrossReference58,
+																								expr: &charClassMatcher{
+																									pos:        position{line: 666, col: 28, offset: 21170},
+																									val:        "[A-Za-z]",
+																									ranges:     []rune{'A', 'Z', 'a', 'z'},
+																									ignoreCase: false,
+																									inverted:   false,
+																								},
+																							},
+																							&actionExpr{
+																								pos: position{line: 668, col: 9, offset: 21224},
+																								run: (*parser).callonCrossReference60,
+																								expr: &oneOrMoreExpr{
+																									pos: position{line: 668, col: 9, offset: 21224},
+																									expr: &charClassMatcher{
+																										pos:        position{line: 668, col: 9, offset: 21224},
+																										val:        "[0-9]",
+																										ranges:     []rune{'0', '9'},
+																										ignoreCase: false,
+																										inverted:   false,
+																									},
+																								},
+																							},
+																						},
+																					},
+																				},
+																			},
+																		},
+																	},
+																},
+															},
+															&litMatcher{
+																pos:        position{line: 658, col: 78, offset: 20878},
+																val:        "}",
+																ignoreCase: false,
+																want:       "\"}\"",
+															},
+														},
+													},
+												},
+												&actionExpr{
+													pos: position{line: 662, col: 25, offset: 20996},
+													run: (*parser).callonCrossReference64,
+													expr: &seqExpr{
+														pos: position{line: 662, col: 25, offset: 20996},
+														exprs: []interface{}{
+															&litMatcher{
+																pos:        position{line: 662, col: 25, offset: 20996},
+																val:        "{counter2:",
+																ignoreCase: false,
+																want:       "\"{counter2:\"",
+															},
+															&labeledExpr{
+																pos:   position{line: 662, col: 38, offset: 21009},
+																label: "name",
+																expr: &actionExpr{
+																	pos: position{line: 317, col: 18, offset: 9667},
+																	run: (*parser).callonCrossReference68,
+																	expr: &seqExpr{
+																		pos: position{line: 317, col: 18, offset: 9667},
+																		exprs: []interface{}{
+																			&charClassMatcher{
+																				pos:        position{line: 317, col: 18, offset: 9667},
+																				val:        "[_\\pL\\pN]",
+																				chars:      []rune{'_'},
+																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																				ignoreCase: false,
+																				inverted:   false,
+																			},
+																			&zeroOrMoreExpr{
+																				pos: position{line: 317, col: 28, offset: 9677},
+																				expr: &charClassMatcher{
+																					pos:        position{line: 317, col: 29, offset: 9678},
+																					val:        "[_-\\pL\\pN]",
+																					chars:      []rune{'_', '-'},
+																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																					ignoreCase: false,
+																					inverted:   false,
+																				},
+																			},
+																		},
+																	},
+																},
+															},
+															&labeledExpr{
+																pos:   position{line: 662, col: 57, offset: 21028},
+																label: "start",
+																expr: &zeroOrOneExpr{
+																	pos: position{line: 662, col: 63, offset: 21034},
+																	expr: &actionExpr{
+																		pos: position{line: 666, col: 17, offset: 21159},
+																		run: (*parser).callonCrossReference75,
+																		expr: &seqExpr{
+																			pos: position{line: 666, col: 17, offset: 21159},
+																			exprs: []interface{}{
+																				&litMatcher{
+																					pos:        position{line: 666, col: 17, offset: 21159},
+																					val:        ":",
+																					ignoreCase: false,
+																					want:       "\":\"",
+																				},
+																				&labeledExpr{
+																					pos:   position{line: 666, col: 21, offset: 21163},
+																					label: "start",
+																					expr: &choiceExpr{
+																						pos: position{line: 666, col: 28, offset: 21170},
+																						alternatives: []interface{}{
+																							&actionExpr{
+																								pos: position{line: 666, col: 28, offset: 21170},
+																								run: (*parser).callonCrossReference80,
+																								expr: &charClassMatcher{
+																									pos:        position{line: 666, col: 28, offset: 21170},
+																									val:        "[A-Za-z]",
+																									ranges:     []rune{'A', 'Z', 'a', 'z'},
+																									ignoreCase: false,
+																									inverted:   false,
+																								},
+																							},
+																							&actionExpr{
+																								pos: position{line: 668, col: 9, offset: 21224},
+																								run: (*parser).callonCrossReference82,
+																								expr: &oneOrMoreExpr{
+																									pos: position{line: 668, col: 9, offset: 21224},
+																									expr: &charClassMatcher{
+																										pos:        position{line: 668, col: 9, offset: 21224},
+																										val:        "[0-9]",
+																										ranges:     []rune{'0', '9'},
+																										ignoreCase: false,
+																										inverted:   false,
+																									},
+																								},
+																							},
+																						},
+																					},
+																				},
+																			},
+																		},
+																	},
+																},
+															},
+															&litMatcher{
+																pos:        position{line: 662, col: 79, offset: 21050},
+																val:        "}",
+																ignoreCase: false,
+																want:       "\"}\"",
+															},
+														},
+													},
+												},
+												&actionExpr{
+													pos: position{line: 702, col: 8, offset: 22569},
+													run: (*parser).callonCrossReference86,
 													expr: &litMatcher{
-														pos:        position{line: 701, col: 8, offset: 22546},
+														pos:        position{line: 702, col: 8, offset: 22569},
 														val:        "{",
 														ignoreCase: false,
 														want:       "\"{\"",
@@ -15507,7 +15725,7 @@ var g = &grammar{
 					},
 					&actionExpr{
 						pos: position{line: 688, col: 9, offset: 22012},
-						run: (*parser).callonCrossReference45,
+						run: (*parser).callonCrossReference89,
 						expr: &seqExpr{
 							pos: position{line: 688, col: 9, offset: 22012},
 							exprs: []interface{}{
@@ -15521,12 +15739,12 @@ var g = &grammar{
 									pos:   position{line: 688, col: 14, offset: 22017},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2862, col: 7, offset: 90875},
-										run: (*parser).callonCrossReference49,
+										pos: position{line: 2863, col: 7, offset: 90898},
+										run: (*parser).callonCrossReference93,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2862, col: 7, offset: 90875},
+											pos: position{line: 2863, col: 7, offset: 90898},
 											expr: &charClassMatcher{
-												pos:        position{line: 2862, col: 7, offset: 90875},
+												pos:        position{line: 2863, col: 7, offset: 90898},
 												val:        "[^[]<>,\\r\\n]",
 												chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 												ignoreCase: false,
@@ -15570,41 +15788,41 @@ var g = &grammar{
 							pos:   position{line: 692, col: 35, offset: 22130},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2831, col: 17, offset: 89886},
+								pos: position{line: 2832, col: 17, offset: 89909},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2831, col: 17, offset: 89886},
+									pos:   position{line: 2832, col: 17, offset: 89909},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2848, col: 5, offset: 90340},
+										pos: position{line: 2849, col: 5, offset: 90363},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2848, col: 5, offset: 90340},
+											pos:   position{line: 2849, col: 5, offset: 90363},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2848, col: 14, offset: 90349},
+												pos: position{line: 2849, col: 14, offset: 90372},
 												expr: &choiceExpr{
-													pos: position{line: 2849, col: 9, offset: 90359},
+													pos: position{line: 2850, col: 9, offset: 90382},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2849, col: 9, offset: 90359},
+															pos: position{line: 2850, col: 9, offset: 90382},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2849, col: 9, offset: 90359},
+																pos: position{line: 2850, col: 9, offset: 90382},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2849, col: 9, offset: 90359},
+																		pos: position{line: 2850, col: 9, offset: 90382},
 																		expr: &litMatcher{
-																			pos:        position{line: 2849, col: 10, offset: 90360},
+																			pos:        position{line: 2850, col: 10, offset: 90383},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2850, col: 9, offset: 90388},
+																		pos: position{line: 2851, col: 9, offset: 90411},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2850, col: 10, offset: 90389},
+																			pos:        position{line: 2851, col: 10, offset: 90412},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -15615,27 +15833,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2853, col: 11, offset: 90601},
+															pos: position{line: 2854, col: 11, offset: 90624},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2853, col: 11, offset: 90601},
+																	pos:        position{line: 2854, col: 11, offset: 90624},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2853, col: 19, offset: 90609},
+																	pos: position{line: 2854, col: 19, offset: 90632},
 																	expr: &seqExpr{
-																		pos: position{line: 2853, col: 21, offset: 90611},
+																		pos: position{line: 2854, col: 21, offset: 90634},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2853, col: 21, offset: 90611},
+																				pos: position{line: 2854, col: 21, offset: 90634},
 																				expr: &actionExpr{
-																					pos: position{line: 2877, col: 10, offset: 91223},
+																					pos: position{line: 2878, col: 10, offset: 91246},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2877, col: 10, offset: 91223},
+																						pos:        position{line: 2878, col: 10, offset: 91246},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -15644,11 +15862,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2853, col: 28, offset: 90618},
+																				pos: position{line: 2854, col: 28, offset: 90641},
 																				expr: &notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91571},
+																					pos: position{line: 2897, col: 8, offset: 91594},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91572,
+																						line: 2897, col: 9, offset: 91595,
 																					},
 																				},
 																			},
@@ -16004,27 +16222,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1198, col: 23, offset: 37013},
+															pos: position{line: 1199, col: 23, offset: 37036},
 															run: (*parser).callonExternalCrossReference96,
 															expr: &seqExpr{
-																pos: position{line: 1198, col: 23, offset: 37013},
+																pos: position{line: 1199, col: 23, offset: 37036},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1196, col: 32, offset: 36981},
+																		pos:        position{line: 1197, col: 32, offset: 37004},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1198, col: 51, offset: 37041},
+																		pos:   position{line: 1199, col: 51, offset: 37064},
 																		label: "ref",
 																		expr: &actionExpr{
-																			pos: position{line: 1198, col: 56, offset: 37046},
+																			pos: position{line: 1199, col: 56, offset: 37069},
 																			run: (*parser).callonExternalCrossReference100,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1198, col: 56, offset: 37046},
+																				pos: position{line: 1199, col: 56, offset: 37069},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1198, col: 56, offset: 37046},
+																					pos:        position{line: 1199, col: 56, offset: 37069},
 																					val:        "[0-9]",
 																					ranges:     []rune{'0', '9'},
 																					ignoreCase: false,
@@ -16034,23 +16252,23 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1196, col: 32, offset: 36981},
+																		pos:        position{line: 1197, col: 32, offset: 37004},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1199, col: 5, offset: 37118},
+																		pos: position{line: 1200, col: 5, offset: 37141},
 																		run: (*parser).callonExternalCrossReference104,
 																	},
 																},
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2856, col: 11, offset: 90738},
+															pos: position{line: 2857, col: 11, offset: 90761},
 															run: (*parser).callonExternalCrossReference105,
 															expr: &litMatcher{
-																pos:        position{line: 2856, col: 11, offset: 90738},
+																pos:        position{line: 2857, col: 11, offset: 90761},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -16078,29 +16296,29 @@ var g = &grammar{
 		},
 		{
 			name: "MarkdownQuoteAttribution",
-			pos:  position{line: 988, col: 1, offset: 30808},
+			pos:  position{line: 989, col: 1, offset: 30831},
 			expr: &actionExpr{
-				pos: position{line: 989, col: 5, offset: 30841},
+				pos: position{line: 990, col: 5, offset: 30864},
 				run: (*parser).callonMarkdownQuoteAttribution1,
 				expr: &seqExpr{
-					pos: position{line: 989, col: 5, offset: 30841},
+					pos: position{line: 990, col: 5, offset: 30864},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 989, col: 5, offset: 30841},
+							pos:        position{line: 990, col: 5, offset: 30864},
 							val:        "-- ",
 							ignoreCase: false,
 							want:       "\"-- \"",
 						},
 						&labeledExpr{
-							pos:   position{line: 989, col: 11, offset: 30847},
+							pos:   position{line: 990, col: 11, offset: 30870},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2827, col: 14, offset: 89816},
+								pos: position{line: 2828, col: 14, offset: 89839},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2827, col: 14, offset: 89816},
+									pos: position{line: 2828, col: 14, offset: 89839},
 									expr: &charClassMatcher{
-										pos:        position{line: 2827, col: 14, offset: 89816},
+										pos:        position{line: 2828, col: 14, offset: 89839},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -16110,28 +16328,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2899, col: 8, offset: 91621},
+							pos: position{line: 2900, col: 8, offset: 91644},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2886, col: 12, offset: 91394},
+									pos: position{line: 2887, col: 12, offset: 91417},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2886, col: 13, offset: 91395},
+										pos: position{line: 2887, col: 13, offset: 91418},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2886, col: 13, offset: 91395},
+												pos:        position{line: 2887, col: 13, offset: 91418},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2886, col: 20, offset: 91402},
+												pos:        position{line: 2887, col: 20, offset: 91425},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2886, col: 29, offset: 91411},
+												pos:        position{line: 2887, col: 29, offset: 91434},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -16140,9 +16358,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2896, col: 8, offset: 91571},
+									pos: position{line: 2897, col: 8, offset: 91594},
 									expr: &anyMatcher{
-										line: 2896, col: 9, offset: 91572,
+										line: 2897, col: 9, offset: 91595,
 									},
 								},
 							},
@@ -16153,53 +16371,53 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentHeader",
-			pos:  position{line: 1100, col: 1, offset: 33764},
+			pos:  position{line: 1101, col: 1, offset: 33787},
 			expr: &actionExpr{
-				pos: position{line: 1101, col: 5, offset: 33787},
+				pos: position{line: 1102, col: 5, offset: 33810},
 				run: (*parser).callonDocumentHeader1,
 				expr: &seqExpr{
-					pos: position{line: 1101, col: 5, offset: 33787},
+					pos: position{line: 1102, col: 5, offset: 33810},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1101, col: 5, offset: 33787},
+							pos: position{line: 1102, col: 5, offset: 33810},
 							run: (*parser).callonDocumentHeader3,
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1104, col: 5, offset: 33848},
+							pos: position{line: 1105, col: 5, offset: 33871},
 							expr: &choiceExpr{
-								pos: position{line: 1104, col: 6, offset: 33849},
+								pos: position{line: 1105, col: 6, offset: 33872},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2484, col: 22, offset: 80109},
+										pos: position{line: 2485, col: 22, offset: 80132},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2484, col: 22, offset: 80109},
+											pos: position{line: 2485, col: 22, offset: 80132},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2489, col: 31, offset: 80330},
+													pos:        position{line: 2490, col: 31, offset: 80353},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2489, col: 36, offset: 80335},
+													pos: position{line: 2490, col: 36, offset: 80358},
 													expr: &litMatcher{
-														pos:        position{line: 2489, col: 37, offset: 80336},
+														pos:        position{line: 2490, col: 37, offset: 80359},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2484, col: 49, offset: 80136},
+													pos:   position{line: 2485, col: 49, offset: 80159},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2823, col: 13, offset: 89749},
+														pos: position{line: 2824, col: 13, offset: 89772},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2823, col: 13, offset: 89749},
+															pos: position{line: 2824, col: 13, offset: 89772},
 															expr: &charClassMatcher{
-																pos:        position{line: 2823, col: 13, offset: 89749},
+																pos:        position{line: 2824, col: 13, offset: 89772},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16209,28 +16427,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2899, col: 8, offset: 91621},
+													pos: position{line: 2900, col: 8, offset: 91644},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2886, col: 12, offset: 91394},
+															pos: position{line: 2887, col: 12, offset: 91417},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2886, col: 13, offset: 91395},
+																pos: position{line: 2887, col: 13, offset: 91418},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 13, offset: 91395},
+																		pos:        position{line: 2887, col: 13, offset: 91418},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 20, offset: 91402},
+																		pos:        position{line: 2887, col: 20, offset: 91425},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 29, offset: 91411},
+																		pos:        position{line: 2887, col: 29, offset: 91434},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16239,9 +16457,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2896, col: 8, offset: 91571},
+															pos: position{line: 2897, col: 8, offset: 91594},
 															expr: &anyMatcher{
-																line: 2896, col: 9, offset: 91572,
+																line: 2897, col: 9, offset: 91595,
 															},
 														},
 													},
@@ -16250,36 +16468,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 820, col: 5, offset: 26365},
+										pos: position{line: 821, col: 5, offset: 26388},
 										run: (*parser).callonDocumentHeader23,
 										expr: &seqExpr{
-											pos: position{line: 820, col: 5, offset: 26365},
+											pos: position{line: 821, col: 5, offset: 26388},
 											exprs: []interface{}{
 												&actionExpr{
-													pos: position{line: 740, col: 5, offset: 23620},
+													pos: position{line: 741, col: 5, offset: 23643},
 													run: (*parser).callonDocumentHeader25,
 													expr: &seqExpr{
-														pos: position{line: 740, col: 5, offset: 23620},
+														pos: position{line: 741, col: 5, offset: 23643},
 														exprs: []interface{}{
 															&labeledExpr{
-																pos:   position{line: 740, col: 5, offset: 23620},
+																pos:   position{line: 741, col: 5, offset: 23643},
 																label: "delimiter",
 																expr: &actionExpr{
-																	pos: position{line: 740, col: 16, offset: 23631},
+																	pos: position{line: 741, col: 16, offset: 23654},
 																	run: (*parser).callonDocumentHeader28,
 																	expr: &seqExpr{
-																		pos: position{line: 740, col: 16, offset: 23631},
+																		pos: position{line: 741, col: 16, offset: 23654},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 740, col: 16, offset: 23631},
+																				pos:        position{line: 741, col: 16, offset: 23654},
 																				val:        "////",
 																				ignoreCase: false,
 																				want:       "\"////\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 740, col: 23, offset: 23638},
+																				pos: position{line: 741, col: 23, offset: 23661},
 																				expr: &litMatcher{
-																					pos:        position{line: 740, col: 23, offset: 23638},
+																					pos:        position{line: 741, col: 23, offset: 23661},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -16290,12 +16508,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 742, col: 8, offset: 23722},
+																pos: position{line: 743, col: 8, offset: 23745},
 																expr: &actionExpr{
-																	pos: position{line: 2877, col: 10, offset: 91223},
+																	pos: position{line: 2878, col: 10, offset: 91246},
 																	run: (*parser).callonDocumentHeader34,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2877, col: 10, offset: 91223},
+																		pos:        position{line: 2878, col: 10, offset: 91246},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16304,28 +16522,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2899, col: 8, offset: 91621},
+																pos: position{line: 2900, col: 8, offset: 91644},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2886, col: 12, offset: 91394},
+																		pos: position{line: 2887, col: 12, offset: 91417},
 																		run: (*parser).callonDocumentHeader37,
 																		expr: &choiceExpr{
-																			pos: position{line: 2886, col: 13, offset: 91395},
+																			pos: position{line: 2887, col: 13, offset: 91418},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 13, offset: 91395},
+																					pos:        position{line: 2887, col: 13, offset: 91418},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 20, offset: 91402},
+																					pos:        position{line: 2887, col: 20, offset: 91425},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 29, offset: 91411},
+																					pos:        position{line: 2887, col: 29, offset: 91434},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -16334,9 +16552,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2896, col: 8, offset: 91571},
+																		pos: position{line: 2897, col: 8, offset: 91594},
 																		expr: &anyMatcher{
-																			line: 2896, col: 9, offset: 91572,
+																			line: 2897, col: 9, offset: 91595,
 																		},
 																	},
 																},
@@ -16345,46 +16563,46 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 821, col: 5, offset: 26396},
+													pos:   position{line: 822, col: 5, offset: 26419},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 831, col: 5, offset: 26682},
+														pos: position{line: 832, col: 5, offset: 26705},
 														expr: &actionExpr{
-															pos: position{line: 831, col: 6, offset: 26683},
+															pos: position{line: 832, col: 6, offset: 26706},
 															run: (*parser).callonDocumentHeader46,
 															expr: &seqExpr{
-																pos: position{line: 831, col: 6, offset: 26683},
+																pos: position{line: 832, col: 6, offset: 26706},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 831, col: 6, offset: 26683},
+																		pos: position{line: 832, col: 6, offset: 26706},
 																		expr: &choiceExpr{
-																			pos: position{line: 828, col: 29, offset: 26625},
+																			pos: position{line: 829, col: 29, offset: 26648},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 740, col: 5, offset: 23620},
+																					pos: position{line: 741, col: 5, offset: 23643},
 																					run: (*parser).callonDocumentHeader50,
 																					expr: &seqExpr{
-																						pos: position{line: 740, col: 5, offset: 23620},
+																						pos: position{line: 741, col: 5, offset: 23643},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 740, col: 5, offset: 23620},
+																								pos:   position{line: 741, col: 5, offset: 23643},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 740, col: 16, offset: 23631},
+																									pos: position{line: 741, col: 16, offset: 23654},
 																									run: (*parser).callonDocumentHeader53,
 																									expr: &seqExpr{
-																										pos: position{line: 740, col: 16, offset: 23631},
+																										pos: position{line: 741, col: 16, offset: 23654},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 740, col: 16, offset: 23631},
+																												pos:        position{line: 741, col: 16, offset: 23654},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 740, col: 23, offset: 23638},
+																												pos: position{line: 741, col: 23, offset: 23661},
 																												expr: &litMatcher{
-																													pos:        position{line: 740, col: 23, offset: 23638},
+																													pos:        position{line: 741, col: 23, offset: 23661},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -16395,12 +16613,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 742, col: 8, offset: 23722},
+																								pos: position{line: 743, col: 8, offset: 23745},
 																								expr: &actionExpr{
-																									pos: position{line: 2877, col: 10, offset: 91223},
+																									pos: position{line: 2878, col: 10, offset: 91246},
 																									run: (*parser).callonDocumentHeader59,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 10, offset: 91223},
+																										pos:        position{line: 2878, col: 10, offset: 91246},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -16409,28 +16627,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2899, col: 8, offset: 91621},
+																								pos: position{line: 2900, col: 8, offset: 91644},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2886, col: 12, offset: 91394},
+																										pos: position{line: 2887, col: 12, offset: 91417},
 																										run: (*parser).callonDocumentHeader62,
 																										expr: &choiceExpr{
-																											pos: position{line: 2886, col: 13, offset: 91395},
+																											pos: position{line: 2887, col: 13, offset: 91418},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 13, offset: 91395},
+																													pos:        position{line: 2887, col: 13, offset: 91418},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 20, offset: 91402},
+																													pos:        position{line: 2887, col: 20, offset: 91425},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 29, offset: 91411},
+																													pos:        position{line: 2887, col: 29, offset: 91434},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -16439,9 +16657,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2896, col: 8, offset: 91571},
+																										pos: position{line: 2897, col: 8, offset: 91594},
 																										expr: &anyMatcher{
-																											line: 2896, col: 9, offset: 91572,
+																											line: 2897, col: 9, offset: 91595,
 																										},
 																									},
 																								},
@@ -16450,39 +16668,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91571},
+																					pos: position{line: 2897, col: 8, offset: 91594},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91572,
+																						line: 2897, col: 9, offset: 91595,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 832, col: 5, offset: 26713},
+																		pos:   position{line: 833, col: 5, offset: 26736},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26129},
+																			pos: position{line: 812, col: 5, offset: 26152},
 																			run: (*parser).callonDocumentHeader72,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26129},
+																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2894, col: 11, offset: 91557},
+																						pos: position{line: 2895, col: 11, offset: 91580},
 																						expr: &anyMatcher{
-																							line: 2894, col: 13, offset: 91559,
+																							line: 2895, col: 13, offset: 91582,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26204},
+																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2823, col: 13, offset: 89749},
+																							pos: position{line: 2824, col: 13, offset: 89772},
 																							run: (*parser).callonDocumentHeader77,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2823, col: 13, offset: 89749},
+																								pos: position{line: 2824, col: 13, offset: 89772},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2823, col: 13, offset: 89749},
+																									pos:        position{line: 2824, col: 13, offset: 89772},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16492,28 +16710,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91621},
+																						pos: position{line: 2900, col: 8, offset: 91644},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91394},
+																								pos: position{line: 2887, col: 12, offset: 91417},
 																								run: (*parser).callonDocumentHeader81,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91395},
+																									pos: position{line: 2887, col: 13, offset: 91418},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91395},
+																											pos:        position{line: 2887, col: 13, offset: 91418},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91402},
+																											pos:        position{line: 2887, col: 20, offset: 91425},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91411},
+																											pos:        position{line: 2887, col: 29, offset: 91434},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16522,9 +16740,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91571},
+																								pos: position{line: 2897, col: 8, offset: 91594},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91572,
+																									line: 2897, col: 9, offset: 91595,
 																								},
 																							},
 																						},
@@ -16539,35 +16757,35 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 822, col: 5, offset: 26430},
+													pos: position{line: 823, col: 5, offset: 26453},
 													expr: &choiceExpr{
-														pos: position{line: 828, col: 29, offset: 26625},
+														pos: position{line: 829, col: 29, offset: 26648},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 740, col: 5, offset: 23620},
+																pos: position{line: 741, col: 5, offset: 23643},
 																run: (*parser).callonDocumentHeader90,
 																expr: &seqExpr{
-																	pos: position{line: 740, col: 5, offset: 23620},
+																	pos: position{line: 741, col: 5, offset: 23643},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 740, col: 5, offset: 23620},
+																			pos:   position{line: 741, col: 5, offset: 23643},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 740, col: 16, offset: 23631},
+																				pos: position{line: 741, col: 16, offset: 23654},
 																				run: (*parser).callonDocumentHeader93,
 																				expr: &seqExpr{
-																					pos: position{line: 740, col: 16, offset: 23631},
+																					pos: position{line: 741, col: 16, offset: 23654},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 740, col: 16, offset: 23631},
+																							pos:        position{line: 741, col: 16, offset: 23654},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 740, col: 23, offset: 23638},
+																							pos: position{line: 741, col: 23, offset: 23661},
 																							expr: &litMatcher{
-																								pos:        position{line: 740, col: 23, offset: 23638},
+																								pos:        position{line: 741, col: 23, offset: 23661},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -16578,12 +16796,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 742, col: 8, offset: 23722},
+																			pos: position{line: 743, col: 8, offset: 23745},
 																			expr: &actionExpr{
-																				pos: position{line: 2877, col: 10, offset: 91223},
+																				pos: position{line: 2878, col: 10, offset: 91246},
 																				run: (*parser).callonDocumentHeader99,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 10, offset: 91223},
+																					pos:        position{line: 2878, col: 10, offset: 91246},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -16592,28 +16810,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2899, col: 8, offset: 91621},
+																			pos: position{line: 2900, col: 8, offset: 91644},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2886, col: 12, offset: 91394},
+																					pos: position{line: 2887, col: 12, offset: 91417},
 																					run: (*parser).callonDocumentHeader102,
 																					expr: &choiceExpr{
-																						pos: position{line: 2886, col: 13, offset: 91395},
+																						pos: position{line: 2887, col: 13, offset: 91418},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 13, offset: 91395},
+																								pos:        position{line: 2887, col: 13, offset: 91418},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 20, offset: 91402},
+																								pos:        position{line: 2887, col: 20, offset: 91425},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 29, offset: 91411},
+																								pos:        position{line: 2887, col: 29, offset: 91434},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -16622,9 +16840,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91571},
+																					pos: position{line: 2897, col: 8, offset: 91594},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91572,
+																						line: 2897, col: 9, offset: 91595,
 																					},
 																				},
 																			},
@@ -16633,9 +16851,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2896, col: 8, offset: 91571},
+																pos: position{line: 2897, col: 8, offset: 91594},
 																expr: &anyMatcher{
-																	line: 2896, col: 9, offset: 91572,
+																	line: 2897, col: 9, offset: 91595,
 																},
 															},
 														},
@@ -16648,49 +16866,49 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1105, col: 5, offset: 33945},
+							pos:   position{line: 1106, col: 5, offset: 33968},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1105, col: 12, offset: 33952},
+								pos:  position{line: 1106, col: 12, offset: 33975},
 								name: "DocumentTitle",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1106, col: 5, offset: 33971},
+							pos: position{line: 1107, col: 5, offset: 33994},
 							expr: &choiceExpr{
-								pos: position{line: 1106, col: 6, offset: 33972},
+								pos: position{line: 1107, col: 6, offset: 33995},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2484, col: 22, offset: 80109},
+										pos: position{line: 2485, col: 22, offset: 80132},
 										run: (*parser).callonDocumentHeader115,
 										expr: &seqExpr{
-											pos: position{line: 2484, col: 22, offset: 80109},
+											pos: position{line: 2485, col: 22, offset: 80132},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2489, col: 31, offset: 80330},
+													pos:        position{line: 2490, col: 31, offset: 80353},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2489, col: 36, offset: 80335},
+													pos: position{line: 2490, col: 36, offset: 80358},
 													expr: &litMatcher{
-														pos:        position{line: 2489, col: 37, offset: 80336},
+														pos:        position{line: 2490, col: 37, offset: 80359},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2484, col: 49, offset: 80136},
+													pos:   position{line: 2485, col: 49, offset: 80159},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2823, col: 13, offset: 89749},
+														pos: position{line: 2824, col: 13, offset: 89772},
 														run: (*parser).callonDocumentHeader121,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2823, col: 13, offset: 89749},
+															pos: position{line: 2824, col: 13, offset: 89772},
 															expr: &charClassMatcher{
-																pos:        position{line: 2823, col: 13, offset: 89749},
+																pos:        position{line: 2824, col: 13, offset: 89772},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16700,28 +16918,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2899, col: 8, offset: 91621},
+													pos: position{line: 2900, col: 8, offset: 91644},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2886, col: 12, offset: 91394},
+															pos: position{line: 2887, col: 12, offset: 91417},
 															run: (*parser).callonDocumentHeader125,
 															expr: &choiceExpr{
-																pos: position{line: 2886, col: 13, offset: 91395},
+																pos: position{line: 2887, col: 13, offset: 91418},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 13, offset: 91395},
+																		pos:        position{line: 2887, col: 13, offset: 91418},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 20, offset: 91402},
+																		pos:        position{line: 2887, col: 20, offset: 91425},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 29, offset: 91411},
+																		pos:        position{line: 2887, col: 29, offset: 91434},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16730,9 +16948,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2896, col: 8, offset: 91571},
+															pos: position{line: 2897, col: 8, offset: 91594},
 															expr: &anyMatcher{
-																line: 2896, col: 9, offset: 91572,
+																line: 2897, col: 9, offset: 91595,
 															},
 														},
 													},
@@ -16741,36 +16959,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 820, col: 5, offset: 26365},
+										pos: position{line: 821, col: 5, offset: 26388},
 										run: (*parser).callonDocumentHeader132,
 										expr: &seqExpr{
-											pos: position{line: 820, col: 5, offset: 26365},
+											pos: position{line: 821, col: 5, offset: 26388},
 											exprs: []interface{}{
 												&actionExpr{
-													pos: position{line: 740, col: 5, offset: 23620},
+													pos: position{line: 741, col: 5, offset: 23643},
 													run: (*parser).callonDocumentHeader134,
 													expr: &seqExpr{
-														pos: position{line: 740, col: 5, offset: 23620},
+														pos: position{line: 741, col: 5, offset: 23643},
 														exprs: []interface{}{
 															&labeledExpr{
-																pos:   position{line: 740, col: 5, offset: 23620},
+																pos:   position{line: 741, col: 5, offset: 23643},
 																label: "delimiter",
 																expr: &actionExpr{
-																	pos: position{line: 740, col: 16, offset: 23631},
+																	pos: position{line: 741, col: 16, offset: 23654},
 																	run: (*parser).callonDocumentHeader137,
 																	expr: &seqExpr{
-																		pos: position{line: 740, col: 16, offset: 23631},
+																		pos: position{line: 741, col: 16, offset: 23654},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 740, col: 16, offset: 23631},
+																				pos:        position{line: 741, col: 16, offset: 23654},
 																				val:        "////",
 																				ignoreCase: false,
 																				want:       "\"////\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 740, col: 23, offset: 23638},
+																				pos: position{line: 741, col: 23, offset: 23661},
 																				expr: &litMatcher{
-																					pos:        position{line: 740, col: 23, offset: 23638},
+																					pos:        position{line: 741, col: 23, offset: 23661},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -16781,12 +16999,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 742, col: 8, offset: 23722},
+																pos: position{line: 743, col: 8, offset: 23745},
 																expr: &actionExpr{
-																	pos: position{line: 2877, col: 10, offset: 91223},
+																	pos: position{line: 2878, col: 10, offset: 91246},
 																	run: (*parser).callonDocumentHeader143,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2877, col: 10, offset: 91223},
+																		pos:        position{line: 2878, col: 10, offset: 91246},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16795,28 +17013,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2899, col: 8, offset: 91621},
+																pos: position{line: 2900, col: 8, offset: 91644},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2886, col: 12, offset: 91394},
+																		pos: position{line: 2887, col: 12, offset: 91417},
 																		run: (*parser).callonDocumentHeader146,
 																		expr: &choiceExpr{
-																			pos: position{line: 2886, col: 13, offset: 91395},
+																			pos: position{line: 2887, col: 13, offset: 91418},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 13, offset: 91395},
+																					pos:        position{line: 2887, col: 13, offset: 91418},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 20, offset: 91402},
+																					pos:        position{line: 2887, col: 20, offset: 91425},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 29, offset: 91411},
+																					pos:        position{line: 2887, col: 29, offset: 91434},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -16825,9 +17043,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2896, col: 8, offset: 91571},
+																		pos: position{line: 2897, col: 8, offset: 91594},
 																		expr: &anyMatcher{
-																			line: 2896, col: 9, offset: 91572,
+																			line: 2897, col: 9, offset: 91595,
 																		},
 																	},
 																},
@@ -16836,46 +17054,46 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 821, col: 5, offset: 26396},
+													pos:   position{line: 822, col: 5, offset: 26419},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 831, col: 5, offset: 26682},
+														pos: position{line: 832, col: 5, offset: 26705},
 														expr: &actionExpr{
-															pos: position{line: 831, col: 6, offset: 26683},
+															pos: position{line: 832, col: 6, offset: 26706},
 															run: (*parser).callonDocumentHeader155,
 															expr: &seqExpr{
-																pos: position{line: 831, col: 6, offset: 26683},
+																pos: position{line: 832, col: 6, offset: 26706},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 831, col: 6, offset: 26683},
+																		pos: position{line: 832, col: 6, offset: 26706},
 																		expr: &choiceExpr{
-																			pos: position{line: 828, col: 29, offset: 26625},
+																			pos: position{line: 829, col: 29, offset: 26648},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 740, col: 5, offset: 23620},
+																					pos: position{line: 741, col: 5, offset: 23643},
 																					run: (*parser).callonDocumentHeader159,
 																					expr: &seqExpr{
-																						pos: position{line: 740, col: 5, offset: 23620},
+																						pos: position{line: 741, col: 5, offset: 23643},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 740, col: 5, offset: 23620},
+																								pos:   position{line: 741, col: 5, offset: 23643},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 740, col: 16, offset: 23631},
+																									pos: position{line: 741, col: 16, offset: 23654},
 																									run: (*parser).callonDocumentHeader162,
 																									expr: &seqExpr{
-																										pos: position{line: 740, col: 16, offset: 23631},
+																										pos: position{line: 741, col: 16, offset: 23654},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 740, col: 16, offset: 23631},
+																												pos:        position{line: 741, col: 16, offset: 23654},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 740, col: 23, offset: 23638},
+																												pos: position{line: 741, col: 23, offset: 23661},
 																												expr: &litMatcher{
-																													pos:        position{line: 740, col: 23, offset: 23638},
+																													pos:        position{line: 741, col: 23, offset: 23661},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -16886,12 +17104,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 742, col: 8, offset: 23722},
+																								pos: position{line: 743, col: 8, offset: 23745},
 																								expr: &actionExpr{
-																									pos: position{line: 2877, col: 10, offset: 91223},
+																									pos: position{line: 2878, col: 10, offset: 91246},
 																									run: (*parser).callonDocumentHeader168,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 10, offset: 91223},
+																										pos:        position{line: 2878, col: 10, offset: 91246},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -16900,28 +17118,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2899, col: 8, offset: 91621},
+																								pos: position{line: 2900, col: 8, offset: 91644},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2886, col: 12, offset: 91394},
+																										pos: position{line: 2887, col: 12, offset: 91417},
 																										run: (*parser).callonDocumentHeader171,
 																										expr: &choiceExpr{
-																											pos: position{line: 2886, col: 13, offset: 91395},
+																											pos: position{line: 2887, col: 13, offset: 91418},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 13, offset: 91395},
+																													pos:        position{line: 2887, col: 13, offset: 91418},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 20, offset: 91402},
+																													pos:        position{line: 2887, col: 20, offset: 91425},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 29, offset: 91411},
+																													pos:        position{line: 2887, col: 29, offset: 91434},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -16930,9 +17148,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2896, col: 8, offset: 91571},
+																										pos: position{line: 2897, col: 8, offset: 91594},
 																										expr: &anyMatcher{
-																											line: 2896, col: 9, offset: 91572,
+																											line: 2897, col: 9, offset: 91595,
 																										},
 																									},
 																								},
@@ -16941,39 +17159,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91571},
+																					pos: position{line: 2897, col: 8, offset: 91594},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91572,
+																						line: 2897, col: 9, offset: 91595,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 832, col: 5, offset: 26713},
+																		pos:   position{line: 833, col: 5, offset: 26736},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26129},
+																			pos: position{line: 812, col: 5, offset: 26152},
 																			run: (*parser).callonDocumentHeader181,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26129},
+																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2894, col: 11, offset: 91557},
+																						pos: position{line: 2895, col: 11, offset: 91580},
 																						expr: &anyMatcher{
-																							line: 2894, col: 13, offset: 91559,
+																							line: 2895, col: 13, offset: 91582,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26204},
+																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2823, col: 13, offset: 89749},
+																							pos: position{line: 2824, col: 13, offset: 89772},
 																							run: (*parser).callonDocumentHeader186,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2823, col: 13, offset: 89749},
+																								pos: position{line: 2824, col: 13, offset: 89772},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2823, col: 13, offset: 89749},
+																									pos:        position{line: 2824, col: 13, offset: 89772},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16983,28 +17201,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91621},
+																						pos: position{line: 2900, col: 8, offset: 91644},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91394},
+																								pos: position{line: 2887, col: 12, offset: 91417},
 																								run: (*parser).callonDocumentHeader190,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91395},
+																									pos: position{line: 2887, col: 13, offset: 91418},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91395},
+																											pos:        position{line: 2887, col: 13, offset: 91418},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91402},
+																											pos:        position{line: 2887, col: 20, offset: 91425},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91411},
+																											pos:        position{line: 2887, col: 29, offset: 91434},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17013,9 +17231,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91571},
+																								pos: position{line: 2897, col: 8, offset: 91594},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91572,
+																									line: 2897, col: 9, offset: 91595,
 																								},
 																							},
 																						},
@@ -17030,35 +17248,35 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 822, col: 5, offset: 26430},
+													pos: position{line: 823, col: 5, offset: 26453},
 													expr: &choiceExpr{
-														pos: position{line: 828, col: 29, offset: 26625},
+														pos: position{line: 829, col: 29, offset: 26648},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 740, col: 5, offset: 23620},
+																pos: position{line: 741, col: 5, offset: 23643},
 																run: (*parser).callonDocumentHeader199,
 																expr: &seqExpr{
-																	pos: position{line: 740, col: 5, offset: 23620},
+																	pos: position{line: 741, col: 5, offset: 23643},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 740, col: 5, offset: 23620},
+																			pos:   position{line: 741, col: 5, offset: 23643},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 740, col: 16, offset: 23631},
+																				pos: position{line: 741, col: 16, offset: 23654},
 																				run: (*parser).callonDocumentHeader202,
 																				expr: &seqExpr{
-																					pos: position{line: 740, col: 16, offset: 23631},
+																					pos: position{line: 741, col: 16, offset: 23654},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 740, col: 16, offset: 23631},
+																							pos:        position{line: 741, col: 16, offset: 23654},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 740, col: 23, offset: 23638},
+																							pos: position{line: 741, col: 23, offset: 23661},
 																							expr: &litMatcher{
-																								pos:        position{line: 740, col: 23, offset: 23638},
+																								pos:        position{line: 741, col: 23, offset: 23661},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -17069,12 +17287,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 742, col: 8, offset: 23722},
+																			pos: position{line: 743, col: 8, offset: 23745},
 																			expr: &actionExpr{
-																				pos: position{line: 2877, col: 10, offset: 91223},
+																				pos: position{line: 2878, col: 10, offset: 91246},
 																				run: (*parser).callonDocumentHeader208,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 10, offset: 91223},
+																					pos:        position{line: 2878, col: 10, offset: 91246},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -17083,28 +17301,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2899, col: 8, offset: 91621},
+																			pos: position{line: 2900, col: 8, offset: 91644},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2886, col: 12, offset: 91394},
+																					pos: position{line: 2887, col: 12, offset: 91417},
 																					run: (*parser).callonDocumentHeader211,
 																					expr: &choiceExpr{
-																						pos: position{line: 2886, col: 13, offset: 91395},
+																						pos: position{line: 2887, col: 13, offset: 91418},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 13, offset: 91395},
+																								pos:        position{line: 2887, col: 13, offset: 91418},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 20, offset: 91402},
+																								pos:        position{line: 2887, col: 20, offset: 91425},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 29, offset: 91411},
+																								pos:        position{line: 2887, col: 29, offset: 91434},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -17113,9 +17331,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91571},
+																					pos: position{line: 2897, col: 8, offset: 91594},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91572,
+																						line: 2897, col: 9, offset: 91595,
 																					},
 																				},
 																			},
@@ -17124,9 +17342,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2896, col: 8, offset: 91571},
+																pos: position{line: 2897, col: 8, offset: 91594},
 																expr: &anyMatcher{
-																	line: 2896, col: 9, offset: 91572,
+																	line: 2897, col: 9, offset: 91595,
 																},
 															},
 														},
@@ -17139,41 +17357,41 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1107, col: 5, offset: 34068},
+							pos:   position{line: 1108, col: 5, offset: 34091},
 							label: "authorsAndRevision",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1107, col: 24, offset: 34087},
+								pos: position{line: 1108, col: 24, offset: 34110},
 								expr: &actionExpr{
-									pos: position{line: 1118, col: 5, offset: 34462},
+									pos: position{line: 1119, col: 5, offset: 34485},
 									run: (*parser).callonDocumentHeader222,
 									expr: &seqExpr{
-										pos: position{line: 1118, col: 5, offset: 34462},
+										pos: position{line: 1119, col: 5, offset: 34485},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1118, col: 5, offset: 34462},
+												pos: position{line: 1119, col: 5, offset: 34485},
 												expr: &litMatcher{
-													pos:        position{line: 1118, col: 6, offset: 34463},
+													pos:        position{line: 1119, col: 6, offset: 34486},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1119, col: 5, offset: 34471},
+												pos:   position{line: 1120, col: 5, offset: 34494},
 												label: "authors",
 												expr: &actionExpr{
-													pos: position{line: 1125, col: 20, offset: 34727},
+													pos: position{line: 1126, col: 20, offset: 34750},
 													run: (*parser).callonDocumentHeader227,
 													expr: &seqExpr{
-														pos: position{line: 1125, col: 20, offset: 34727},
+														pos: position{line: 1126, col: 20, offset: 34750},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 1125, col: 20, offset: 34727},
+																pos: position{line: 1126, col: 20, offset: 34750},
 																expr: &actionExpr{
-																	pos: position{line: 2877, col: 10, offset: 91223},
+																	pos: position{line: 2878, col: 10, offset: 91246},
 																	run: (*parser).callonDocumentHeader230,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2877, col: 10, offset: 91223},
+																		pos:        position{line: 2878, col: 10, offset: 91246},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17182,37 +17400,37 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 1125, col: 27, offset: 34734},
+																pos:   position{line: 1126, col: 27, offset: 34757},
 																label: "authors",
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 1125, col: 36, offset: 34743},
+																	pos: position{line: 1126, col: 36, offset: 34766},
 																	expr: &actionExpr{
-																		pos: position{line: 1130, col: 5, offset: 34856},
+																		pos: position{line: 1131, col: 5, offset: 34879},
 																		run: (*parser).callonDocumentHeader234,
 																		expr: &seqExpr{
-																			pos: position{line: 1130, col: 5, offset: 34856},
+																			pos: position{line: 1131, col: 5, offset: 34879},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1130, col: 5, offset: 34856},
+																					pos:   position{line: 1131, col: 5, offset: 34879},
 																					label: "fullName",
 																					expr: &zeroOrOneExpr{
-																						pos: position{line: 1130, col: 14, offset: 34865},
+																						pos: position{line: 1131, col: 14, offset: 34888},
 																						expr: &actionExpr{
-																							pos: position{line: 1141, col: 5, offset: 35245},
+																							pos: position{line: 1142, col: 5, offset: 35268},
 																							run: (*parser).callonDocumentHeader238,
 																							expr: &seqExpr{
-																								pos: position{line: 1141, col: 5, offset: 35245},
+																								pos: position{line: 1142, col: 5, offset: 35268},
 																								exprs: []interface{}{
 																									&labeledExpr{
-																										pos:   position{line: 1141, col: 5, offset: 35245},
+																										pos:   position{line: 1142, col: 5, offset: 35268},
 																										label: "part1",
 																										expr: &actionExpr{
-																											pos: position{line: 1141, col: 12, offset: 35252},
+																											pos: position{line: 1142, col: 12, offset: 35275},
 																											run: (*parser).callonDocumentHeader241,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1141, col: 12, offset: 35252},
+																												pos: position{line: 1142, col: 12, offset: 35275},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1141, col: 12, offset: 35252},
+																													pos:        position{line: 1142, col: 12, offset: 35275},
 																													val:        "[^<;\\r\\n ]",
 																													chars:      []rune{'<', ';', '\r', '\n', ' '},
 																													ignoreCase: false,
@@ -17222,12 +17440,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1144, col: 5, offset: 35332},
+																										pos: position{line: 1145, col: 5, offset: 35355},
 																										expr: &actionExpr{
-																											pos: position{line: 2877, col: 10, offset: 91223},
+																											pos: position{line: 2878, col: 10, offset: 91246},
 																											run: (*parser).callonDocumentHeader245,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2877, col: 10, offset: 91223},
+																												pos:        position{line: 2878, col: 10, offset: 91246},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17236,17 +17454,17 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1145, col: 5, offset: 35343},
+																										pos:   position{line: 1146, col: 5, offset: 35366},
 																										label: "part2",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 1145, col: 11, offset: 35349},
+																											pos: position{line: 1146, col: 11, offset: 35372},
 																											expr: &actionExpr{
-																												pos: position{line: 1145, col: 12, offset: 35350},
+																												pos: position{line: 1146, col: 12, offset: 35373},
 																												run: (*parser).callonDocumentHeader249,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1145, col: 12, offset: 35350},
+																													pos: position{line: 1146, col: 12, offset: 35373},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1145, col: 12, offset: 35350},
+																														pos:        position{line: 1146, col: 12, offset: 35373},
 																														val:        "[^<;\\r\\n ]",
 																														chars:      []rune{'<', ';', '\r', '\n', ' '},
 																														ignoreCase: false,
@@ -17257,12 +17475,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1148, col: 5, offset: 35431},
+																										pos: position{line: 1149, col: 5, offset: 35454},
 																										expr: &actionExpr{
-																											pos: position{line: 2877, col: 10, offset: 91223},
+																											pos: position{line: 2878, col: 10, offset: 91246},
 																											run: (*parser).callonDocumentHeader253,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2877, col: 10, offset: 91223},
+																												pos:        position{line: 2878, col: 10, offset: 91246},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17271,17 +17489,17 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1149, col: 5, offset: 35442},
+																										pos:   position{line: 1150, col: 5, offset: 35465},
 																										label: "part3",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 1149, col: 11, offset: 35448},
+																											pos: position{line: 1150, col: 11, offset: 35471},
 																											expr: &actionExpr{
-																												pos: position{line: 1149, col: 12, offset: 35449},
+																												pos: position{line: 1150, col: 12, offset: 35472},
 																												run: (*parser).callonDocumentHeader257,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1149, col: 12, offset: 35449},
+																													pos: position{line: 1150, col: 12, offset: 35472},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1149, col: 12, offset: 35449},
+																														pos:        position{line: 1150, col: 12, offset: 35472},
 																														val:        "[^<;\\r\\n]",
 																														chars:      []rune{'<', ';', '\r', '\n'},
 																														ignoreCase: false,
@@ -17292,12 +17510,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1152, col: 5, offset: 35528},
+																										pos: position{line: 1153, col: 5, offset: 35551},
 																										expr: &actionExpr{
-																											pos: position{line: 2877, col: 10, offset: 91223},
+																											pos: position{line: 2878, col: 10, offset: 91246},
 																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2877, col: 10, offset: 91223},
+																												pos:        position{line: 2878, col: 10, offset: 91246},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17311,38 +17529,38 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1130, col: 40, offset: 34891},
+																					pos:   position{line: 1131, col: 40, offset: 34914},
 																					label: "email",
 																					expr: &zeroOrOneExpr{
-																						pos: position{line: 1130, col: 46, offset: 34897},
+																						pos: position{line: 1131, col: 46, offset: 34920},
 																						expr: &actionExpr{
-																							pos: position{line: 1158, col: 5, offset: 35650},
+																							pos: position{line: 1159, col: 5, offset: 35673},
 																							run: (*parser).callonDocumentHeader265,
 																							expr: &seqExpr{
-																								pos: position{line: 1158, col: 5, offset: 35650},
+																								pos: position{line: 1159, col: 5, offset: 35673},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2894, col: 11, offset: 91557},
+																										pos: position{line: 2895, col: 11, offset: 91580},
 																										expr: &anyMatcher{
-																											line: 2894, col: 13, offset: 91559,
+																											line: 2895, col: 13, offset: 91582,
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1159, col: 5, offset: 35662},
+																										pos:        position{line: 1160, col: 5, offset: 35685},
 																										val:        "<",
 																										ignoreCase: false,
 																										want:       "\"<\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1160, col: 5, offset: 35671},
+																										pos:   position{line: 1161, col: 5, offset: 35694},
 																										label: "email",
 																										expr: &actionExpr{
-																											pos: position{line: 1160, col: 12, offset: 35678},
+																											pos: position{line: 1161, col: 12, offset: 35701},
 																											run: (*parser).callonDocumentHeader271,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1160, col: 13, offset: 35679},
+																												pos: position{line: 1161, col: 13, offset: 35702},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1160, col: 13, offset: 35679},
+																													pos:        position{line: 1161, col: 13, offset: 35702},
 																													val:        "[^>\\r\\n]",
 																													chars:      []rune{'>', '\r', '\n'},
 																													ignoreCase: false,
@@ -17352,7 +17570,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1163, col: 5, offset: 35739},
+																										pos:        position{line: 1164, col: 5, offset: 35762},
 																										val:        ">",
 																										ignoreCase: false,
 																										want:       "\">\"",
@@ -17363,12 +17581,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1130, col: 69, offset: 34920},
+																					pos: position{line: 1131, col: 69, offset: 34943},
 																					expr: &actionExpr{
-																						pos: position{line: 2877, col: 10, offset: 91223},
+																						pos: position{line: 2878, col: 10, offset: 91246},
 																						run: (*parser).callonDocumentHeader276,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2877, col: 10, offset: 91223},
+																							pos:        position{line: 2878, col: 10, offset: 91246},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17377,21 +17595,21 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrOneExpr{
-																					pos: position{line: 1130, col: 76, offset: 34927},
+																					pos: position{line: 1131, col: 76, offset: 34950},
 																					expr: &litMatcher{
-																						pos:        position{line: 1130, col: 76, offset: 34927},
+																						pos:        position{line: 1131, col: 76, offset: 34950},
 																						val:        ";",
 																						ignoreCase: false,
 																						want:       "\";\"",
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1130, col: 81, offset: 34932},
+																					pos: position{line: 1131, col: 81, offset: 34955},
 																					expr: &actionExpr{
-																						pos: position{line: 2877, col: 10, offset: 91223},
+																						pos: position{line: 2878, col: 10, offset: 91246},
 																						run: (*parser).callonDocumentHeader281,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2877, col: 10, offset: 91223},
+																							pos:        position{line: 2878, col: 10, offset: 91246},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17400,7 +17618,7 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1131, col: 5, offset: 34944},
+																					pos: position{line: 1132, col: 5, offset: 34967},
 																					run: (*parser).callonDocumentHeader283,
 																				},
 																			},
@@ -17409,28 +17627,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2899, col: 8, offset: 91621},
+																pos: position{line: 2900, col: 8, offset: 91644},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2886, col: 12, offset: 91394},
+																		pos: position{line: 2887, col: 12, offset: 91417},
 																		run: (*parser).callonDocumentHeader285,
 																		expr: &choiceExpr{
-																			pos: position{line: 2886, col: 13, offset: 91395},
+																			pos: position{line: 2887, col: 13, offset: 91418},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 13, offset: 91395},
+																					pos:        position{line: 2887, col: 13, offset: 91418},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 20, offset: 91402},
+																					pos:        position{line: 2887, col: 20, offset: 91425},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 29, offset: 91411},
+																					pos:        position{line: 2887, col: 29, offset: 91434},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17439,9 +17657,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2896, col: 8, offset: 91571},
+																		pos: position{line: 2897, col: 8, offset: 91594},
 																		expr: &anyMatcher{
-																			line: 2896, col: 9, offset: 91572,
+																			line: 2897, col: 9, offset: 91595,
 																		},
 																	},
 																},
@@ -17451,41 +17669,41 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 1120, col: 5, offset: 34501},
+												pos: position{line: 1121, col: 5, offset: 34524},
 												expr: &choiceExpr{
-													pos: position{line: 1120, col: 6, offset: 34502},
+													pos: position{line: 1121, col: 6, offset: 34525},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2484, col: 22, offset: 80109},
+															pos: position{line: 2485, col: 22, offset: 80132},
 															run: (*parser).callonDocumentHeader294,
 															expr: &seqExpr{
-																pos: position{line: 2484, col: 22, offset: 80109},
+																pos: position{line: 2485, col: 22, offset: 80132},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2489, col: 31, offset: 80330},
+																		pos:        position{line: 2490, col: 31, offset: 80353},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2489, col: 36, offset: 80335},
+																		pos: position{line: 2490, col: 36, offset: 80358},
 																		expr: &litMatcher{
-																			pos:        position{line: 2489, col: 37, offset: 80336},
+																			pos:        position{line: 2490, col: 37, offset: 80359},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2484, col: 49, offset: 80136},
+																		pos:   position{line: 2485, col: 49, offset: 80159},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2823, col: 13, offset: 89749},
+																			pos: position{line: 2824, col: 13, offset: 89772},
 																			run: (*parser).callonDocumentHeader300,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2823, col: 13, offset: 89749},
+																				pos: position{line: 2824, col: 13, offset: 89772},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2823, col: 13, offset: 89749},
+																					pos:        position{line: 2824, col: 13, offset: 89772},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -17495,28 +17713,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2899, col: 8, offset: 91621},
+																		pos: position{line: 2900, col: 8, offset: 91644},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91394},
+																				pos: position{line: 2887, col: 12, offset: 91417},
 																				run: (*parser).callonDocumentHeader304,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91395},
+																					pos: position{line: 2887, col: 13, offset: 91418},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91395},
+																							pos:        position{line: 2887, col: 13, offset: 91418},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91402},
+																							pos:        position{line: 2887, col: 20, offset: 91425},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91411},
+																							pos:        position{line: 2887, col: 29, offset: 91434},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -17525,9 +17743,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2896, col: 8, offset: 91571},
+																				pos: position{line: 2897, col: 8, offset: 91594},
 																				expr: &anyMatcher{
-																					line: 2896, col: 9, offset: 91572,
+																					line: 2897, col: 9, offset: 91595,
 																				},
 																			},
 																		},
@@ -17536,36 +17754,36 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 820, col: 5, offset: 26365},
+															pos: position{line: 821, col: 5, offset: 26388},
 															run: (*parser).callonDocumentHeader311,
 															expr: &seqExpr{
-																pos: position{line: 820, col: 5, offset: 26365},
+																pos: position{line: 821, col: 5, offset: 26388},
 																exprs: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 740, col: 5, offset: 23620},
+																		pos: position{line: 741, col: 5, offset: 23643},
 																		run: (*parser).callonDocumentHeader313,
 																		expr: &seqExpr{
-																			pos: position{line: 740, col: 5, offset: 23620},
+																			pos: position{line: 741, col: 5, offset: 23643},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 740, col: 5, offset: 23620},
+																					pos:   position{line: 741, col: 5, offset: 23643},
 																					label: "delimiter",
 																					expr: &actionExpr{
-																						pos: position{line: 740, col: 16, offset: 23631},
+																						pos: position{line: 741, col: 16, offset: 23654},
 																						run: (*parser).callonDocumentHeader316,
 																						expr: &seqExpr{
-																							pos: position{line: 740, col: 16, offset: 23631},
+																							pos: position{line: 741, col: 16, offset: 23654},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 740, col: 16, offset: 23631},
+																									pos:        position{line: 741, col: 16, offset: 23654},
 																									val:        "////",
 																									ignoreCase: false,
 																									want:       "\"////\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 740, col: 23, offset: 23638},
+																									pos: position{line: 741, col: 23, offset: 23661},
 																									expr: &litMatcher{
-																										pos:        position{line: 740, col: 23, offset: 23638},
+																										pos:        position{line: 741, col: 23, offset: 23661},
 																										val:        "/",
 																										ignoreCase: false,
 																										want:       "\"/\"",
@@ -17576,12 +17794,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 742, col: 8, offset: 23722},
+																					pos: position{line: 743, col: 8, offset: 23745},
 																					expr: &actionExpr{
-																						pos: position{line: 2877, col: 10, offset: 91223},
+																						pos: position{line: 2878, col: 10, offset: 91246},
 																						run: (*parser).callonDocumentHeader322,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2877, col: 10, offset: 91223},
+																							pos:        position{line: 2878, col: 10, offset: 91246},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17590,28 +17808,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2899, col: 8, offset: 91621},
+																					pos: position{line: 2900, col: 8, offset: 91644},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2886, col: 12, offset: 91394},
+																							pos: position{line: 2887, col: 12, offset: 91417},
 																							run: (*parser).callonDocumentHeader325,
 																							expr: &choiceExpr{
-																								pos: position{line: 2886, col: 13, offset: 91395},
+																								pos: position{line: 2887, col: 13, offset: 91418},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 13, offset: 91395},
+																										pos:        position{line: 2887, col: 13, offset: 91418},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 20, offset: 91402},
+																										pos:        position{line: 2887, col: 20, offset: 91425},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 29, offset: 91411},
+																										pos:        position{line: 2887, col: 29, offset: 91434},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -17620,9 +17838,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2896, col: 8, offset: 91571},
+																							pos: position{line: 2897, col: 8, offset: 91594},
 																							expr: &anyMatcher{
-																								line: 2896, col: 9, offset: 91572,
+																								line: 2897, col: 9, offset: 91595,
 																							},
 																						},
 																					},
@@ -17631,46 +17849,46 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 821, col: 5, offset: 26396},
+																		pos:   position{line: 822, col: 5, offset: 26419},
 																		label: "content",
 																		expr: &zeroOrMoreExpr{
-																			pos: position{line: 831, col: 5, offset: 26682},
+																			pos: position{line: 832, col: 5, offset: 26705},
 																			expr: &actionExpr{
-																				pos: position{line: 831, col: 6, offset: 26683},
+																				pos: position{line: 832, col: 6, offset: 26706},
 																				run: (*parser).callonDocumentHeader334,
 																				expr: &seqExpr{
-																					pos: position{line: 831, col: 6, offset: 26683},
+																					pos: position{line: 832, col: 6, offset: 26706},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 831, col: 6, offset: 26683},
+																							pos: position{line: 832, col: 6, offset: 26706},
 																							expr: &choiceExpr{
-																								pos: position{line: 828, col: 29, offset: 26625},
+																								pos: position{line: 829, col: 29, offset: 26648},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 740, col: 5, offset: 23620},
+																										pos: position{line: 741, col: 5, offset: 23643},
 																										run: (*parser).callonDocumentHeader338,
 																										expr: &seqExpr{
-																											pos: position{line: 740, col: 5, offset: 23620},
+																											pos: position{line: 741, col: 5, offset: 23643},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 740, col: 5, offset: 23620},
+																													pos:   position{line: 741, col: 5, offset: 23643},
 																													label: "delimiter",
 																													expr: &actionExpr{
-																														pos: position{line: 740, col: 16, offset: 23631},
+																														pos: position{line: 741, col: 16, offset: 23654},
 																														run: (*parser).callonDocumentHeader341,
 																														expr: &seqExpr{
-																															pos: position{line: 740, col: 16, offset: 23631},
+																															pos: position{line: 741, col: 16, offset: 23654},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 740, col: 16, offset: 23631},
+																																	pos:        position{line: 741, col: 16, offset: 23654},
 																																	val:        "////",
 																																	ignoreCase: false,
 																																	want:       "\"////\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 740, col: 23, offset: 23638},
+																																	pos: position{line: 741, col: 23, offset: 23661},
 																																	expr: &litMatcher{
-																																		pos:        position{line: 740, col: 23, offset: 23638},
+																																		pos:        position{line: 741, col: 23, offset: 23661},
 																																		val:        "/",
 																																		ignoreCase: false,
 																																		want:       "\"/\"",
@@ -17681,12 +17899,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 742, col: 8, offset: 23722},
+																													pos: position{line: 743, col: 8, offset: 23745},
 																													expr: &actionExpr{
-																														pos: position{line: 2877, col: 10, offset: 91223},
+																														pos: position{line: 2878, col: 10, offset: 91246},
 																														run: (*parser).callonDocumentHeader347,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2877, col: 10, offset: 91223},
+																															pos:        position{line: 2878, col: 10, offset: 91246},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -17695,28 +17913,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2899, col: 8, offset: 91621},
+																													pos: position{line: 2900, col: 8, offset: 91644},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2886, col: 12, offset: 91394},
+																															pos: position{line: 2887, col: 12, offset: 91417},
 																															run: (*parser).callonDocumentHeader350,
 																															expr: &choiceExpr{
-																																pos: position{line: 2886, col: 13, offset: 91395},
+																																pos: position{line: 2887, col: 13, offset: 91418},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2886, col: 13, offset: 91395},
+																																		pos:        position{line: 2887, col: 13, offset: 91418},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2886, col: 20, offset: 91402},
+																																		pos:        position{line: 2887, col: 20, offset: 91425},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2886, col: 29, offset: 91411},
+																																		pos:        position{line: 2887, col: 29, offset: 91434},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -17725,9 +17943,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2896, col: 8, offset: 91571},
+																															pos: position{line: 2897, col: 8, offset: 91594},
 																															expr: &anyMatcher{
-																																line: 2896, col: 9, offset: 91572,
+																																line: 2897, col: 9, offset: 91595,
 																															},
 																														},
 																													},
@@ -17736,39 +17954,39 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2896, col: 8, offset: 91571},
+																										pos: position{line: 2897, col: 8, offset: 91594},
 																										expr: &anyMatcher{
-																											line: 2896, col: 9, offset: 91572,
+																											line: 2897, col: 9, offset: 91595,
 																										},
 																									},
 																								},
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 832, col: 5, offset: 26713},
+																							pos:   position{line: 833, col: 5, offset: 26736},
 																							label: "line",
 																							expr: &actionExpr{
-																								pos: position{line: 811, col: 5, offset: 26129},
+																								pos: position{line: 812, col: 5, offset: 26152},
 																								run: (*parser).callonDocumentHeader360,
 																								expr: &seqExpr{
-																									pos: position{line: 811, col: 5, offset: 26129},
+																									pos: position{line: 812, col: 5, offset: 26152},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2894, col: 11, offset: 91557},
+																											pos: position{line: 2895, col: 11, offset: 91580},
 																											expr: &anyMatcher{
-																												line: 2894, col: 13, offset: 91559,
+																												line: 2895, col: 13, offset: 91582,
 																											},
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 812, col: 5, offset: 26204},
+																											pos:   position{line: 813, col: 5, offset: 26227},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2823, col: 13, offset: 89749},
+																												pos: position{line: 2824, col: 13, offset: 89772},
 																												run: (*parser).callonDocumentHeader365,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2823, col: 13, offset: 89749},
+																													pos: position{line: 2824, col: 13, offset: 89772},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2823, col: 13, offset: 89749},
+																														pos:        position{line: 2824, col: 13, offset: 89772},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -17778,28 +17996,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91621},
+																											pos: position{line: 2900, col: 8, offset: 91644},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91394},
+																													pos: position{line: 2887, col: 12, offset: 91417},
 																													run: (*parser).callonDocumentHeader369,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91395},
+																														pos: position{line: 2887, col: 13, offset: 91418},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91395},
+																																pos:        position{line: 2887, col: 13, offset: 91418},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91402},
+																																pos:        position{line: 2887, col: 20, offset: 91425},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91411},
+																																pos:        position{line: 2887, col: 29, offset: 91434},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17808,9 +18026,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91571},
+																													pos: position{line: 2897, col: 8, offset: 91594},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91572,
+																														line: 2897, col: 9, offset: 91595,
 																													},
 																												},
 																											},
@@ -17825,35 +18043,35 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrOneExpr{
-																		pos: position{line: 822, col: 5, offset: 26430},
+																		pos: position{line: 823, col: 5, offset: 26453},
 																		expr: &choiceExpr{
-																			pos: position{line: 828, col: 29, offset: 26625},
+																			pos: position{line: 829, col: 29, offset: 26648},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 740, col: 5, offset: 23620},
+																					pos: position{line: 741, col: 5, offset: 23643},
 																					run: (*parser).callonDocumentHeader378,
 																					expr: &seqExpr{
-																						pos: position{line: 740, col: 5, offset: 23620},
+																						pos: position{line: 741, col: 5, offset: 23643},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 740, col: 5, offset: 23620},
+																								pos:   position{line: 741, col: 5, offset: 23643},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 740, col: 16, offset: 23631},
+																									pos: position{line: 741, col: 16, offset: 23654},
 																									run: (*parser).callonDocumentHeader381,
 																									expr: &seqExpr{
-																										pos: position{line: 740, col: 16, offset: 23631},
+																										pos: position{line: 741, col: 16, offset: 23654},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 740, col: 16, offset: 23631},
+																												pos:        position{line: 741, col: 16, offset: 23654},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 740, col: 23, offset: 23638},
+																												pos: position{line: 741, col: 23, offset: 23661},
 																												expr: &litMatcher{
-																													pos:        position{line: 740, col: 23, offset: 23638},
+																													pos:        position{line: 741, col: 23, offset: 23661},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -17864,12 +18082,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 742, col: 8, offset: 23722},
+																								pos: position{line: 743, col: 8, offset: 23745},
 																								expr: &actionExpr{
-																									pos: position{line: 2877, col: 10, offset: 91223},
+																									pos: position{line: 2878, col: 10, offset: 91246},
 																									run: (*parser).callonDocumentHeader387,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 10, offset: 91223},
+																										pos:        position{line: 2878, col: 10, offset: 91246},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -17878,28 +18096,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2899, col: 8, offset: 91621},
+																								pos: position{line: 2900, col: 8, offset: 91644},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2886, col: 12, offset: 91394},
+																										pos: position{line: 2887, col: 12, offset: 91417},
 																										run: (*parser).callonDocumentHeader390,
 																										expr: &choiceExpr{
-																											pos: position{line: 2886, col: 13, offset: 91395},
+																											pos: position{line: 2887, col: 13, offset: 91418},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 13, offset: 91395},
+																													pos:        position{line: 2887, col: 13, offset: 91418},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 20, offset: 91402},
+																													pos:        position{line: 2887, col: 20, offset: 91425},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 29, offset: 91411},
+																													pos:        position{line: 2887, col: 29, offset: 91434},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -17908,9 +18126,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2896, col: 8, offset: 91571},
+																										pos: position{line: 2897, col: 8, offset: 91594},
 																										expr: &anyMatcher{
-																											line: 2896, col: 9, offset: 91572,
+																											line: 2897, col: 9, offset: 91595,
 																										},
 																									},
 																								},
@@ -17919,9 +18137,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91571},
+																					pos: position{line: 2897, col: 8, offset: 91594},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91572,
+																						line: 2897, col: 9, offset: 91595,
 																					},
 																				},
 																			},
@@ -17934,23 +18152,23 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1121, col: 5, offset: 34576},
+												pos:   position{line: 1122, col: 5, offset: 34599},
 												label: "revision",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 1121, col: 14, offset: 34585},
+													pos: position{line: 1122, col: 14, offset: 34608},
 													expr: &actionExpr{
-														pos: position{line: 1169, col: 21, offset: 35928},
+														pos: position{line: 1170, col: 21, offset: 35951},
 														run: (*parser).callonDocumentHeader401,
 														expr: &seqExpr{
-															pos: position{line: 1169, col: 21, offset: 35928},
+															pos: position{line: 1170, col: 21, offset: 35951},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1169, col: 21, offset: 35928},
+																	pos: position{line: 1170, col: 21, offset: 35951},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91223},
+																		pos: position{line: 2878, col: 10, offset: 91246},
 																		run: (*parser).callonDocumentHeader404,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91223},
+																			pos:        position{line: 2878, col: 10, offset: 91246},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -17959,55 +18177,55 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1169, col: 28, offset: 35935},
+																	pos: position{line: 1170, col: 28, offset: 35958},
 																	expr: &litMatcher{
-																		pos:        position{line: 1169, col: 29, offset: 35936},
+																		pos:        position{line: 1170, col: 29, offset: 35959},
 																		val:        ":",
 																		ignoreCase: false,
 																		want:       "\":\"",
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1169, col: 33, offset: 35940},
+																	pos:   position{line: 1170, col: 33, offset: 35963},
 																	label: "revision",
 																	expr: &choiceExpr{
-																		pos: position{line: 1170, col: 9, offset: 35959},
+																		pos: position{line: 1171, col: 9, offset: 35982},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1170, col: 10, offset: 35960},
+																				pos: position{line: 1171, col: 10, offset: 35983},
 																				run: (*parser).callonDocumentHeader410,
 																				expr: &seqExpr{
-																					pos: position{line: 1170, col: 10, offset: 35960},
+																					pos: position{line: 1171, col: 10, offset: 35983},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1170, col: 10, offset: 35960},
+																							pos:   position{line: 1171, col: 10, offset: 35983},
 																							label: "revnumber",
 																							expr: &choiceExpr{
-																								pos: position{line: 1179, col: 27, offset: 36477},
+																								pos: position{line: 1180, col: 27, offset: 36500},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1179, col: 27, offset: 36477},
+																										pos: position{line: 1180, col: 27, offset: 36500},
 																										run: (*parser).callonDocumentHeader414,
 																										expr: &seqExpr{
-																											pos: position{line: 1179, col: 27, offset: 36477},
+																											pos: position{line: 1180, col: 27, offset: 36500},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 1179, col: 27, offset: 36477},
+																													pos:        position{line: 1180, col: 27, offset: 36500},
 																													val:        "v",
 																													ignoreCase: true,
 																													want:       "\"v\"i",
 																												},
 																												&charClassMatcher{
-																													pos:        position{line: 1179, col: 32, offset: 36482},
+																													pos:        position{line: 1180, col: 32, offset: 36505},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 1179, col: 38, offset: 36488},
+																													pos: position{line: 1180, col: 38, offset: 36511},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1179, col: 38, offset: 36488},
+																														pos:        position{line: 1180, col: 38, offset: 36511},
 																														val:        "[^:,\\r\\n]",
 																														chars:      []rune{':', ',', '\r', '\n'},
 																														ignoreCase: false,
@@ -18018,31 +18236,31 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1181, col: 5, offset: 36536},
+																										pos: position{line: 1182, col: 5, offset: 36559},
 																										run: (*parser).callonDocumentHeader420,
 																										expr: &seqExpr{
-																											pos: position{line: 1181, col: 5, offset: 36536},
+																											pos: position{line: 1182, col: 5, offset: 36559},
 																											exprs: []interface{}{
 																												&zeroOrOneExpr{
-																													pos: position{line: 1181, col: 5, offset: 36536},
+																													pos: position{line: 1182, col: 5, offset: 36559},
 																													expr: &litMatcher{
-																														pos:        position{line: 1181, col: 5, offset: 36536},
+																														pos:        position{line: 1182, col: 5, offset: 36559},
 																														val:        "v",
 																														ignoreCase: true,
 																														want:       "\"v\"i",
 																													},
 																												},
 																												&charClassMatcher{
-																													pos:        position{line: 1181, col: 11, offset: 36542},
+																													pos:        position{line: 1182, col: 11, offset: 36565},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 1181, col: 17, offset: 36548},
+																													pos: position{line: 1182, col: 17, offset: 36571},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1181, col: 17, offset: 36548},
+																														pos:        position{line: 1182, col: 17, offset: 36571},
 																														val:        "[^:,\\r\\n]",
 																														chars:      []rune{':', ',', '\r', '\n'},
 																														ignoreCase: false,
@@ -18050,12 +18268,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 1181, col: 28, offset: 36559},
+																													pos: position{line: 1182, col: 28, offset: 36582},
 																													expr: &actionExpr{
-																														pos: position{line: 2877, col: 10, offset: 91223},
+																														pos: position{line: 2878, col: 10, offset: 91246},
 																														run: (*parser).callonDocumentHeader428,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2877, col: 10, offset: 91223},
+																															pos:        position{line: 2878, col: 10, offset: 91246},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -18064,9 +18282,9 @@ var g = &grammar{
 																													},
 																												},
 																												&andExpr{
-																													pos: position{line: 1181, col: 35, offset: 36566},
+																													pos: position{line: 1182, col: 35, offset: 36589},
 																													expr: &litMatcher{
-																														pos:        position{line: 1181, col: 36, offset: 36567},
+																														pos:        position{line: 1182, col: 36, offset: 36590},
 																														val:        ",",
 																														ignoreCase: false,
 																														want:       "\",\"",
@@ -18079,26 +18297,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1170, col: 45, offset: 35995},
+																							pos: position{line: 1171, col: 45, offset: 36018},
 																							expr: &litMatcher{
-																								pos:        position{line: 1170, col: 45, offset: 35995},
+																								pos:        position{line: 1171, col: 45, offset: 36018},
 																								val:        ",",
 																								ignoreCase: false,
 																								want:       "\",\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1170, col: 50, offset: 36000},
+																							pos:   position{line: 1171, col: 50, offset: 36023},
 																							label: "revdate",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1170, col: 58, offset: 36008},
+																								pos: position{line: 1171, col: 58, offset: 36031},
 																								expr: &actionExpr{
-																									pos: position{line: 1185, col: 25, offset: 36631},
+																									pos: position{line: 1186, col: 25, offset: 36654},
 																									run: (*parser).callonDocumentHeader436,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1185, col: 25, offset: 36631},
+																										pos: position{line: 1186, col: 25, offset: 36654},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1185, col: 25, offset: 36631},
+																											pos:        position{line: 1186, col: 25, offset: 36654},
 																											val:        "[^:\\r\\n]",
 																											chars:      []rune{':', '\r', '\n'},
 																											ignoreCase: false,
@@ -18109,26 +18327,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1170, col: 82, offset: 36032},
+																							pos: position{line: 1171, col: 82, offset: 36055},
 																							expr: &litMatcher{
-																								pos:        position{line: 1170, col: 82, offset: 36032},
+																								pos:        position{line: 1171, col: 82, offset: 36055},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1170, col: 87, offset: 36037},
+																							pos:   position{line: 1171, col: 87, offset: 36060},
 																							label: "revremark",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1170, col: 97, offset: 36047},
+																								pos: position{line: 1171, col: 97, offset: 36070},
 																								expr: &actionExpr{
-																									pos: position{line: 1189, col: 27, offset: 36703},
+																									pos: position{line: 1190, col: 27, offset: 36726},
 																									run: (*parser).callonDocumentHeader443,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1189, col: 27, offset: 36703},
+																										pos: position{line: 1190, col: 27, offset: 36726},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1189, col: 27, offset: 36703},
+																											pos:        position{line: 1190, col: 27, offset: 36726},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -18142,21 +18360,21 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1172, col: 15, offset: 36165},
+																				pos: position{line: 1173, col: 15, offset: 36188},
 																				run: (*parser).callonDocumentHeader446,
 																				expr: &seqExpr{
-																					pos: position{line: 1172, col: 15, offset: 36165},
+																					pos: position{line: 1173, col: 15, offset: 36188},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1172, col: 15, offset: 36165},
+																							pos:   position{line: 1173, col: 15, offset: 36188},
 																							label: "revdate",
 																							expr: &actionExpr{
-																								pos: position{line: 1185, col: 25, offset: 36631},
+																								pos: position{line: 1186, col: 25, offset: 36654},
 																								run: (*parser).callonDocumentHeader449,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1185, col: 25, offset: 36631},
+																									pos: position{line: 1186, col: 25, offset: 36654},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1185, col: 25, offset: 36631},
+																										pos:        position{line: 1186, col: 25, offset: 36654},
 																										val:        "[^:\\r\\n]",
 																										chars:      []rune{':', '\r', '\n'},
 																										ignoreCase: false,
@@ -18166,26 +18384,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1172, col: 46, offset: 36196},
+																							pos: position{line: 1173, col: 46, offset: 36219},
 																							expr: &litMatcher{
-																								pos:        position{line: 1172, col: 46, offset: 36196},
+																								pos:        position{line: 1173, col: 46, offset: 36219},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1172, col: 51, offset: 36201},
+																							pos:   position{line: 1173, col: 51, offset: 36224},
 																							label: "revremark",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1172, col: 61, offset: 36211},
+																								pos: position{line: 1173, col: 61, offset: 36234},
 																								expr: &actionExpr{
-																									pos: position{line: 1189, col: 27, offset: 36703},
+																									pos: position{line: 1190, col: 27, offset: 36726},
 																									run: (*parser).callonDocumentHeader456,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1189, col: 27, offset: 36703},
+																										pos: position{line: 1190, col: 27, offset: 36726},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1189, col: 27, offset: 36703},
+																											pos:        position{line: 1190, col: 27, offset: 36726},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -18202,28 +18420,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91621},
+																	pos: position{line: 2900, col: 8, offset: 91644},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91394},
+																			pos: position{line: 2887, col: 12, offset: 91417},
 																			run: (*parser).callonDocumentHeader460,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91395},
+																				pos: position{line: 2887, col: 13, offset: 91418},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91395},
+																						pos:        position{line: 2887, col: 13, offset: 91418},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91402},
+																						pos:        position{line: 2887, col: 20, offset: 91425},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91411},
+																						pos:        position{line: 2887, col: 29, offset: 91434},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18232,9 +18450,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91571},
+																			pos: position{line: 2897, col: 8, offset: 91594},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91572,
+																				line: 2897, col: 9, offset: 91595,
 																			},
 																		},
 																	},
@@ -18250,15 +18468,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1108, col: 5, offset: 34122},
+							pos:   position{line: 1109, col: 5, offset: 34145},
 							label: "extraElements",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1108, col: 19, offset: 34136},
+								pos: position{line: 1109, col: 19, offset: 34159},
 								expr: &choiceExpr{
-									pos: position{line: 1108, col: 20, offset: 34137},
+									pos: position{line: 1109, col: 20, offset: 34160},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 1108, col: 20, offset: 34137},
+											pos:  position{line: 1109, col: 20, offset: 34160},
 											name: "AttributeDeclaration",
 										},
 										&actionExpr{
@@ -18314,10 +18532,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 359, col: 49, offset: 10879},
 														expr: &actionExpr{
-															pos: position{line: 2877, col: 10, offset: 91223},
+															pos: position{line: 2878, col: 10, offset: 91246},
 															run: (*parser).callonDocumentHeader482,
 															expr: &charClassMatcher{
-																pos:        position{line: 2877, col: 10, offset: 91223},
+																pos:        position{line: 2878, col: 10, offset: 91246},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18326,28 +18544,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2899, col: 8, offset: 91621},
+														pos: position{line: 2900, col: 8, offset: 91644},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2886, col: 12, offset: 91394},
+																pos: position{line: 2887, col: 12, offset: 91417},
 																run: (*parser).callonDocumentHeader485,
 																expr: &choiceExpr{
-																	pos: position{line: 2886, col: 13, offset: 91395},
+																	pos: position{line: 2887, col: 13, offset: 91418},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 13, offset: 91395},
+																			pos:        position{line: 2887, col: 13, offset: 91418},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 20, offset: 91402},
+																			pos:        position{line: 2887, col: 20, offset: 91425},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 29, offset: 91411},
+																			pos:        position{line: 2887, col: 29, offset: 91434},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18356,9 +18574,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2896, col: 8, offset: 91571},
+																pos: position{line: 2897, col: 8, offset: 91594},
 																expr: &anyMatcher{
-																	line: 2896, col: 9, offset: 91572,
+																	line: 2897, col: 9, offset: 91595,
 																},
 															},
 														},
@@ -18419,10 +18637,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 361, col: 39, offset: 11000},
 														expr: &actionExpr{
-															pos: position{line: 2877, col: 10, offset: 91223},
+															pos: position{line: 2878, col: 10, offset: 91246},
 															run: (*parser).callonDocumentHeader503,
 															expr: &charClassMatcher{
-																pos:        position{line: 2877, col: 10, offset: 91223},
+																pos:        position{line: 2878, col: 10, offset: 91246},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18431,28 +18649,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2899, col: 8, offset: 91621},
+														pos: position{line: 2900, col: 8, offset: 91644},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2886, col: 12, offset: 91394},
+																pos: position{line: 2887, col: 12, offset: 91417},
 																run: (*parser).callonDocumentHeader506,
 																expr: &choiceExpr{
-																	pos: position{line: 2886, col: 13, offset: 91395},
+																	pos: position{line: 2887, col: 13, offset: 91418},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 13, offset: 91395},
+																			pos:        position{line: 2887, col: 13, offset: 91418},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 20, offset: 91402},
+																			pos:        position{line: 2887, col: 20, offset: 91425},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 29, offset: 91411},
+																			pos:        position{line: 2887, col: 29, offset: 91434},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18461,9 +18679,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2896, col: 8, offset: 91571},
+																pos: position{line: 2897, col: 8, offset: 91594},
 																expr: &anyMatcher{
-																	line: 2896, col: 9, offset: 91572,
+																	line: 2897, col: 9, offset: 91595,
 																},
 															},
 														},
@@ -18472,36 +18690,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2484, col: 22, offset: 80109},
+											pos: position{line: 2485, col: 22, offset: 80132},
 											run: (*parser).callonDocumentHeader513,
 											expr: &seqExpr{
-												pos: position{line: 2484, col: 22, offset: 80109},
+												pos: position{line: 2485, col: 22, offset: 80132},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2489, col: 31, offset: 80330},
+														pos:        position{line: 2490, col: 31, offset: 80353},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2489, col: 36, offset: 80335},
+														pos: position{line: 2490, col: 36, offset: 80358},
 														expr: &litMatcher{
-															pos:        position{line: 2489, col: 37, offset: 80336},
+															pos:        position{line: 2490, col: 37, offset: 80359},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2484, col: 49, offset: 80136},
+														pos:   position{line: 2485, col: 49, offset: 80159},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2823, col: 13, offset: 89749},
+															pos: position{line: 2824, col: 13, offset: 89772},
 															run: (*parser).callonDocumentHeader519,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2823, col: 13, offset: 89749},
+																pos: position{line: 2824, col: 13, offset: 89772},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2823, col: 13, offset: 89749},
+																	pos:        position{line: 2824, col: 13, offset: 89772},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -18511,28 +18729,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2899, col: 8, offset: 91621},
+														pos: position{line: 2900, col: 8, offset: 91644},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2886, col: 12, offset: 91394},
+																pos: position{line: 2887, col: 12, offset: 91417},
 																run: (*parser).callonDocumentHeader523,
 																expr: &choiceExpr{
-																	pos: position{line: 2886, col: 13, offset: 91395},
+																	pos: position{line: 2887, col: 13, offset: 91418},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 13, offset: 91395},
+																			pos:        position{line: 2887, col: 13, offset: 91418},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 20, offset: 91402},
+																			pos:        position{line: 2887, col: 20, offset: 91425},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 29, offset: 91411},
+																			pos:        position{line: 2887, col: 29, offset: 91434},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18541,9 +18759,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2896, col: 8, offset: 91571},
+																pos: position{line: 2897, col: 8, offset: 91594},
 																expr: &anyMatcher{
-																	line: 2896, col: 9, offset: 91572,
+																	line: 2897, col: 9, offset: 91595,
 																},
 															},
 														},
@@ -18552,36 +18770,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 820, col: 5, offset: 26365},
+											pos: position{line: 821, col: 5, offset: 26388},
 											run: (*parser).callonDocumentHeader530,
 											expr: &seqExpr{
-												pos: position{line: 820, col: 5, offset: 26365},
+												pos: position{line: 821, col: 5, offset: 26388},
 												exprs: []interface{}{
 													&actionExpr{
-														pos: position{line: 740, col: 5, offset: 23620},
+														pos: position{line: 741, col: 5, offset: 23643},
 														run: (*parser).callonDocumentHeader532,
 														expr: &seqExpr{
-															pos: position{line: 740, col: 5, offset: 23620},
+															pos: position{line: 741, col: 5, offset: 23643},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 740, col: 5, offset: 23620},
+																	pos:   position{line: 741, col: 5, offset: 23643},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 740, col: 16, offset: 23631},
+																		pos: position{line: 741, col: 16, offset: 23654},
 																		run: (*parser).callonDocumentHeader535,
 																		expr: &seqExpr{
-																			pos: position{line: 740, col: 16, offset: 23631},
+																			pos: position{line: 741, col: 16, offset: 23654},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 740, col: 16, offset: 23631},
+																					pos:        position{line: 741, col: 16, offset: 23654},
 																					val:        "////",
 																					ignoreCase: false,
 																					want:       "\"////\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 740, col: 23, offset: 23638},
+																					pos: position{line: 741, col: 23, offset: 23661},
 																					expr: &litMatcher{
-																						pos:        position{line: 740, col: 23, offset: 23638},
+																						pos:        position{line: 741, col: 23, offset: 23661},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
@@ -18592,12 +18810,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 742, col: 8, offset: 23722},
+																	pos: position{line: 743, col: 8, offset: 23745},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91223},
+																		pos: position{line: 2878, col: 10, offset: 91246},
 																		run: (*parser).callonDocumentHeader541,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91223},
+																			pos:        position{line: 2878, col: 10, offset: 91246},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18606,28 +18824,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91621},
+																	pos: position{line: 2900, col: 8, offset: 91644},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91394},
+																			pos: position{line: 2887, col: 12, offset: 91417},
 																			run: (*parser).callonDocumentHeader544,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91395},
+																				pos: position{line: 2887, col: 13, offset: 91418},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91395},
+																						pos:        position{line: 2887, col: 13, offset: 91418},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91402},
+																						pos:        position{line: 2887, col: 20, offset: 91425},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91411},
+																						pos:        position{line: 2887, col: 29, offset: 91434},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18636,9 +18854,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91571},
+																			pos: position{line: 2897, col: 8, offset: 91594},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91572,
+																				line: 2897, col: 9, offset: 91595,
 																			},
 																		},
 																	},
@@ -18647,46 +18865,46 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 821, col: 5, offset: 26396},
+														pos:   position{line: 822, col: 5, offset: 26419},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 831, col: 5, offset: 26682},
+															pos: position{line: 832, col: 5, offset: 26705},
 															expr: &actionExpr{
-																pos: position{line: 831, col: 6, offset: 26683},
+																pos: position{line: 832, col: 6, offset: 26706},
 																run: (*parser).callonDocumentHeader553,
 																expr: &seqExpr{
-																	pos: position{line: 831, col: 6, offset: 26683},
+																	pos: position{line: 832, col: 6, offset: 26706},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 831, col: 6, offset: 26683},
+																			pos: position{line: 832, col: 6, offset: 26706},
 																			expr: &choiceExpr{
-																				pos: position{line: 828, col: 29, offset: 26625},
+																				pos: position{line: 829, col: 29, offset: 26648},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 740, col: 5, offset: 23620},
+																						pos: position{line: 741, col: 5, offset: 23643},
 																						run: (*parser).callonDocumentHeader557,
 																						expr: &seqExpr{
-																							pos: position{line: 740, col: 5, offset: 23620},
+																							pos: position{line: 741, col: 5, offset: 23643},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 740, col: 5, offset: 23620},
+																									pos:   position{line: 741, col: 5, offset: 23643},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 740, col: 16, offset: 23631},
+																										pos: position{line: 741, col: 16, offset: 23654},
 																										run: (*parser).callonDocumentHeader560,
 																										expr: &seqExpr{
-																											pos: position{line: 740, col: 16, offset: 23631},
+																											pos: position{line: 741, col: 16, offset: 23654},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 740, col: 16, offset: 23631},
+																													pos:        position{line: 741, col: 16, offset: 23654},
 																													val:        "////",
 																													ignoreCase: false,
 																													want:       "\"////\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 740, col: 23, offset: 23638},
+																													pos: position{line: 741, col: 23, offset: 23661},
 																													expr: &litMatcher{
-																														pos:        position{line: 740, col: 23, offset: 23638},
+																														pos:        position{line: 741, col: 23, offset: 23661},
 																														val:        "/",
 																														ignoreCase: false,
 																														want:       "\"/\"",
@@ -18697,12 +18915,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 742, col: 8, offset: 23722},
+																									pos: position{line: 743, col: 8, offset: 23745},
 																									expr: &actionExpr{
-																										pos: position{line: 2877, col: 10, offset: 91223},
+																										pos: position{line: 2878, col: 10, offset: 91246},
 																										run: (*parser).callonDocumentHeader566,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2877, col: 10, offset: 91223},
+																											pos:        position{line: 2878, col: 10, offset: 91246},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -18711,28 +18929,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2899, col: 8, offset: 91621},
+																									pos: position{line: 2900, col: 8, offset: 91644},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2886, col: 12, offset: 91394},
+																											pos: position{line: 2887, col: 12, offset: 91417},
 																											run: (*parser).callonDocumentHeader569,
 																											expr: &choiceExpr{
-																												pos: position{line: 2886, col: 13, offset: 91395},
+																												pos: position{line: 2887, col: 13, offset: 91418},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 13, offset: 91395},
+																														pos:        position{line: 2887, col: 13, offset: 91418},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 20, offset: 91402},
+																														pos:        position{line: 2887, col: 20, offset: 91425},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 29, offset: 91411},
+																														pos:        position{line: 2887, col: 29, offset: 91434},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -18741,9 +18959,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2896, col: 8, offset: 91571},
+																											pos: position{line: 2897, col: 8, offset: 91594},
 																											expr: &anyMatcher{
-																												line: 2896, col: 9, offset: 91572,
+																												line: 2897, col: 9, offset: 91595,
 																											},
 																										},
 																									},
@@ -18752,39 +18970,39 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2896, col: 8, offset: 91571},
+																						pos: position{line: 2897, col: 8, offset: 91594},
 																						expr: &anyMatcher{
-																							line: 2896, col: 9, offset: 91572,
+																							line: 2897, col: 9, offset: 91595,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 832, col: 5, offset: 26713},
+																			pos:   position{line: 833, col: 5, offset: 26736},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26129},
+																				pos: position{line: 812, col: 5, offset: 26152},
 																				run: (*parser).callonDocumentHeader579,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26129},
+																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2894, col: 11, offset: 91557},
+																							pos: position{line: 2895, col: 11, offset: 91580},
 																							expr: &anyMatcher{
-																								line: 2894, col: 13, offset: 91559,
+																								line: 2895, col: 13, offset: 91582,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26204},
+																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2823, col: 13, offset: 89749},
+																								pos: position{line: 2824, col: 13, offset: 89772},
 																								run: (*parser).callonDocumentHeader584,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2823, col: 13, offset: 89749},
+																									pos: position{line: 2824, col: 13, offset: 89772},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2823, col: 13, offset: 89749},
+																										pos:        position{line: 2824, col: 13, offset: 89772},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -18794,28 +19012,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91621},
+																							pos: position{line: 2900, col: 8, offset: 91644},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91394},
+																									pos: position{line: 2887, col: 12, offset: 91417},
 																									run: (*parser).callonDocumentHeader588,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91395},
+																										pos: position{line: 2887, col: 13, offset: 91418},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91395},
+																												pos:        position{line: 2887, col: 13, offset: 91418},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91402},
+																												pos:        position{line: 2887, col: 20, offset: 91425},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91411},
+																												pos:        position{line: 2887, col: 29, offset: 91434},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -18824,9 +19042,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91571},
+																									pos: position{line: 2897, col: 8, offset: 91594},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91572,
+																										line: 2897, col: 9, offset: 91595,
 																									},
 																								},
 																							},
@@ -18841,35 +19059,35 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 822, col: 5, offset: 26430},
+														pos: position{line: 823, col: 5, offset: 26453},
 														expr: &choiceExpr{
-															pos: position{line: 828, col: 29, offset: 26625},
+															pos: position{line: 829, col: 29, offset: 26648},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 740, col: 5, offset: 23620},
+																	pos: position{line: 741, col: 5, offset: 23643},
 																	run: (*parser).callonDocumentHeader597,
 																	expr: &seqExpr{
-																		pos: position{line: 740, col: 5, offset: 23620},
+																		pos: position{line: 741, col: 5, offset: 23643},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 740, col: 5, offset: 23620},
+																				pos:   position{line: 741, col: 5, offset: 23643},
 																				label: "delimiter",
 																				expr: &actionExpr{
-																					pos: position{line: 740, col: 16, offset: 23631},
+																					pos: position{line: 741, col: 16, offset: 23654},
 																					run: (*parser).callonDocumentHeader600,
 																					expr: &seqExpr{
-																						pos: position{line: 740, col: 16, offset: 23631},
+																						pos: position{line: 741, col: 16, offset: 23654},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 740, col: 16, offset: 23631},
+																								pos:        position{line: 741, col: 16, offset: 23654},
 																								val:        "////",
 																								ignoreCase: false,
 																								want:       "\"////\"",
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 740, col: 23, offset: 23638},
+																								pos: position{line: 741, col: 23, offset: 23661},
 																								expr: &litMatcher{
-																									pos:        position{line: 740, col: 23, offset: 23638},
+																									pos:        position{line: 741, col: 23, offset: 23661},
 																									val:        "/",
 																									ignoreCase: false,
 																									want:       "\"/\"",
@@ -18880,12 +19098,12 @@ var g = &grammar{
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 742, col: 8, offset: 23722},
+																				pos: position{line: 743, col: 8, offset: 23745},
 																				expr: &actionExpr{
-																					pos: position{line: 2877, col: 10, offset: 91223},
+																					pos: position{line: 2878, col: 10, offset: 91246},
 																					run: (*parser).callonDocumentHeader606,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2877, col: 10, offset: 91223},
+																						pos:        position{line: 2878, col: 10, offset: 91246},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -18894,28 +19112,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2899, col: 8, offset: 91621},
+																				pos: position{line: 2900, col: 8, offset: 91644},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2886, col: 12, offset: 91394},
+																						pos: position{line: 2887, col: 12, offset: 91417},
 																						run: (*parser).callonDocumentHeader609,
 																						expr: &choiceExpr{
-																							pos: position{line: 2886, col: 13, offset: 91395},
+																							pos: position{line: 2887, col: 13, offset: 91418},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2886, col: 13, offset: 91395},
+																									pos:        position{line: 2887, col: 13, offset: 91418},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2886, col: 20, offset: 91402},
+																									pos:        position{line: 2887, col: 20, offset: 91425},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2886, col: 29, offset: 91411},
+																									pos:        position{line: 2887, col: 29, offset: 91434},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -18924,9 +19142,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2896, col: 8, offset: 91571},
+																						pos: position{line: 2897, col: 8, offset: 91594},
 																						expr: &anyMatcher{
-																							line: 2896, col: 9, offset: 91572,
+																							line: 2897, col: 9, offset: 91595,
 																						},
 																					},
 																				},
@@ -18935,9 +19153,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2896, col: 8, offset: 91571},
+																	pos: position{line: 2897, col: 8, offset: 91594},
 																	expr: &anyMatcher{
-																		line: 2896, col: 9, offset: 91572,
+																		line: 2897, col: 9, offset: 91595,
 																	},
 																},
 															},
@@ -18956,26 +19174,26 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentTitle",
-			pos:  position{line: 1112, col: 1, offset: 34334},
+			pos:  position{line: 1113, col: 1, offset: 34357},
 			expr: &actionExpr{
-				pos: position{line: 1113, col: 5, offset: 34356},
+				pos: position{line: 1114, col: 5, offset: 34379},
 				run: (*parser).callonDocumentTitle1,
 				expr: &seqExpr{
-					pos: position{line: 1113, col: 5, offset: 34356},
+					pos: position{line: 1114, col: 5, offset: 34379},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1113, col: 5, offset: 34356},
+							pos:        position{line: 1114, col: 5, offset: 34379},
 							val:        "=",
 							ignoreCase: false,
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2881, col: 11, offset: 91284},
+							pos: position{line: 2882, col: 11, offset: 91307},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2881, col: 11, offset: 91284},
+								pos: position{line: 2882, col: 11, offset: 91307},
 								expr: &charClassMatcher{
-									pos:        position{line: 2881, col: 11, offset: 91284},
+									pos:        position{line: 2882, col: 11, offset: 91307},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18984,36 +19202,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1113, col: 16, offset: 34367},
+							pos:   position{line: 1114, col: 16, offset: 34390},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1113, col: 23, offset: 34374},
+								pos:  position{line: 1114, col: 23, offset: 34397},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2899, col: 8, offset: 91621},
+							pos: position{line: 2900, col: 8, offset: 91644},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2886, col: 12, offset: 91394},
+									pos: position{line: 2887, col: 12, offset: 91417},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2886, col: 13, offset: 91395},
+										pos: position{line: 2887, col: 13, offset: 91418},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2886, col: 13, offset: 91395},
+												pos:        position{line: 2887, col: 13, offset: 91418},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2886, col: 20, offset: 91402},
+												pos:        position{line: 2887, col: 20, offset: 91425},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2886, col: 29, offset: 91411},
+												pos:        position{line: 2887, col: 29, offset: 91434},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19022,9 +19240,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2896, col: 8, offset: 91571},
+									pos: position{line: 2897, col: 8, offset: 91594},
 									expr: &anyMatcher{
-										line: 2896, col: 9, offset: 91572,
+										line: 2897, col: 9, offset: 91595,
 									},
 								},
 							},
@@ -19035,23 +19253,23 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentAuthorFullName",
-			pos:  position{line: 1140, col: 1, offset: 35214},
+			pos:  position{line: 1141, col: 1, offset: 35237},
 			expr: &actionExpr{
-				pos: position{line: 1141, col: 5, offset: 35245},
+				pos: position{line: 1142, col: 5, offset: 35268},
 				run: (*parser).callonDocumentAuthorFullName1,
 				expr: &seqExpr{
-					pos: position{line: 1141, col: 5, offset: 35245},
+					pos: position{line: 1142, col: 5, offset: 35268},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1141, col: 5, offset: 35245},
+							pos:   position{line: 1142, col: 5, offset: 35268},
 							label: "part1",
 							expr: &actionExpr{
-								pos: position{line: 1141, col: 12, offset: 35252},
+								pos: position{line: 1142, col: 12, offset: 35275},
 								run: (*parser).callonDocumentAuthorFullName4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1141, col: 12, offset: 35252},
+									pos: position{line: 1142, col: 12, offset: 35275},
 									expr: &charClassMatcher{
-										pos:        position{line: 1141, col: 12, offset: 35252},
+										pos:        position{line: 1142, col: 12, offset: 35275},
 										val:        "[^<;\\r\\n ]",
 										chars:      []rune{'<', ';', '\r', '\n', ' '},
 										ignoreCase: false,
@@ -19061,12 +19279,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1144, col: 5, offset: 35332},
+							pos: position{line: 1145, col: 5, offset: 35355},
 							expr: &actionExpr{
-								pos: position{line: 2877, col: 10, offset: 91223},
+								pos: position{line: 2878, col: 10, offset: 91246},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2877, col: 10, offset: 91223},
+									pos:        position{line: 2878, col: 10, offset: 91246},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19075,17 +19293,17 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1145, col: 5, offset: 35343},
+							pos:   position{line: 1146, col: 5, offset: 35366},
 							label: "part2",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1145, col: 11, offset: 35349},
+								pos: position{line: 1146, col: 11, offset: 35372},
 								expr: &actionExpr{
-									pos: position{line: 1145, col: 12, offset: 35350},
+									pos: position{line: 1146, col: 12, offset: 35373},
 									run: (*parser).callonDocumentAuthorFullName12,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1145, col: 12, offset: 35350},
+										pos: position{line: 1146, col: 12, offset: 35373},
 										expr: &charClassMatcher{
-											pos:        position{line: 1145, col: 12, offset: 35350},
+											pos:        position{line: 1146, col: 12, offset: 35373},
 											val:        "[^<;\\r\\n ]",
 											chars:      []rune{'<', ';', '\r', '\n', ' '},
 											ignoreCase: false,
@@ -19096,12 +19314,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1148, col: 5, offset: 35431},
+							pos: position{line: 1149, col: 5, offset: 35454},
 							expr: &actionExpr{
-								pos: position{line: 2877, col: 10, offset: 91223},
+								pos: position{line: 2878, col: 10, offset: 91246},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2877, col: 10, offset: 91223},
+									pos:        position{line: 2878, col: 10, offset: 91246},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19110,17 +19328,17 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1149, col: 5, offset: 35442},
+							pos:   position{line: 1150, col: 5, offset: 35465},
 							label: "part3",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1149, col: 11, offset: 35448},
+								pos: position{line: 1150, col: 11, offset: 35471},
 								expr: &actionExpr{
-									pos: position{line: 1149, col: 12, offset: 35449},
+									pos: position{line: 1150, col: 12, offset: 35472},
 									run: (*parser).callonDocumentAuthorFullName20,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1149, col: 12, offset: 35449},
+										pos: position{line: 1150, col: 12, offset: 35472},
 										expr: &charClassMatcher{
-											pos:        position{line: 1149, col: 12, offset: 35449},
+											pos:        position{line: 1150, col: 12, offset: 35472},
 											val:        "[^<;\\r\\n]",
 											chars:      []rune{'<', ';', '\r', '\n'},
 											ignoreCase: false,
@@ -19131,12 +19349,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1152, col: 5, offset: 35528},
+							pos: position{line: 1153, col: 5, offset: 35551},
 							expr: &actionExpr{
-								pos: position{line: 2877, col: 10, offset: 91223},
+								pos: position{line: 2878, col: 10, offset: 91246},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2877, col: 10, offset: 91223},
+									pos:        position{line: 2878, col: 10, offset: 91246},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19150,28 +19368,28 @@ var g = &grammar{
 		},
 		{
 			name: "InlineButton",
-			pos:  position{line: 1269, col: 1, offset: 39403},
+			pos:  position{line: 1270, col: 1, offset: 39426},
 			expr: &actionExpr{
-				pos: position{line: 1270, col: 5, offset: 39424},
+				pos: position{line: 1271, col: 5, offset: 39447},
 				run: (*parser).callonInlineButton1,
 				expr: &seqExpr{
-					pos: position{line: 1270, col: 5, offset: 39424},
+					pos: position{line: 1271, col: 5, offset: 39447},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1270, col: 5, offset: 39424},
+							pos: position{line: 1271, col: 5, offset: 39447},
 							run: (*parser).callonInlineButton3,
 						},
 						&litMatcher{
-							pos:        position{line: 1273, col: 5, offset: 39483},
+							pos:        position{line: 1274, col: 5, offset: 39506},
 							val:        "btn:",
 							ignoreCase: false,
 							want:       "\"btn:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1273, col: 12, offset: 39490},
+							pos:   position{line: 1274, col: 12, offset: 39513},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1273, col: 24, offset: 39502},
+								pos:  position{line: 1274, col: 24, offset: 39525},
 								name: "InlineAttributes",
 							},
 						},
@@ -19181,33 +19399,33 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMenu",
-			pos:  position{line: 1280, col: 1, offset: 39790},
+			pos:  position{line: 1281, col: 1, offset: 39813},
 			expr: &actionExpr{
-				pos: position{line: 1281, col: 5, offset: 39809},
+				pos: position{line: 1282, col: 5, offset: 39832},
 				run: (*parser).callonInlineMenu1,
 				expr: &seqExpr{
-					pos: position{line: 1281, col: 5, offset: 39809},
+					pos: position{line: 1282, col: 5, offset: 39832},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1281, col: 5, offset: 39809},
+							pos: position{line: 1282, col: 5, offset: 39832},
 							run: (*parser).callonInlineMenu3,
 						},
 						&litMatcher{
-							pos:        position{line: 1284, col: 5, offset: 39868},
+							pos:        position{line: 1285, col: 5, offset: 39891},
 							val:        "menu:",
 							ignoreCase: false,
 							want:       "\"menu:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1284, col: 13, offset: 39876},
+							pos:   position{line: 1285, col: 13, offset: 39899},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2862, col: 7, offset: 90875},
+								pos: position{line: 2863, col: 7, offset: 90898},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2862, col: 7, offset: 90875},
+									pos: position{line: 2863, col: 7, offset: 90898},
 									expr: &charClassMatcher{
-										pos:        position{line: 2862, col: 7, offset: 90875},
+										pos:        position{line: 2863, col: 7, offset: 90898},
 										val:        "[^[]<>,\\r\\n]",
 										chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 										ignoreCase: false,
@@ -19217,10 +19435,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1284, col: 21, offset: 39884},
+							pos:   position{line: 1285, col: 21, offset: 39907},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1284, col: 33, offset: 39896},
+								pos:  position{line: 1285, col: 33, offset: 39919},
 								name: "InlineAttributes",
 							},
 						},
@@ -19230,29 +19448,29 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTerm",
-			pos:  position{line: 1291, col: 1, offset: 40195},
+			pos:  position{line: 1292, col: 1, offset: 40218},
 			expr: &actionExpr{
-				pos: position{line: 1291, col: 14, offset: 40208},
+				pos: position{line: 1292, col: 14, offset: 40231},
 				run: (*parser).callonIndexTerm1,
 				expr: &seqExpr{
-					pos: position{line: 1291, col: 14, offset: 40208},
+					pos: position{line: 1292, col: 14, offset: 40231},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1291, col: 14, offset: 40208},
+							pos:        position{line: 1292, col: 14, offset: 40231},
 							val:        "((",
 							ignoreCase: false,
 							want:       "\"((\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1291, col: 19, offset: 40213},
+							pos:   position{line: 1292, col: 19, offset: 40236},
 							label: "term",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1291, col: 25, offset: 40219},
+								pos:  position{line: 1292, col: 25, offset: 40242},
 								name: "IndexTermContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1291, col: 43, offset: 40237},
+							pos:        position{line: 1292, col: 43, offset: 40260},
 							val:        "))",
 							ignoreCase: false,
 							want:       "\"))\"",
@@ -19263,25 +19481,25 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTermContent",
-			pos:  position{line: 1295, col: 1, offset: 40306},
+			pos:  position{line: 1296, col: 1, offset: 40329},
 			expr: &actionExpr{
-				pos: position{line: 1295, col: 21, offset: 40326},
+				pos: position{line: 1296, col: 21, offset: 40349},
 				run: (*parser).callonIndexTermContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 1295, col: 21, offset: 40326},
+					pos:   position{line: 1296, col: 21, offset: 40349},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 1295, col: 30, offset: 40335},
+						pos: position{line: 1296, col: 30, offset: 40358},
 						expr: &choiceExpr{
-							pos: position{line: 1295, col: 31, offset: 40336},
+							pos: position{line: 1296, col: 31, offset: 40359},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2771, col: 14, offset: 88371},
+									pos: position{line: 2772, col: 14, offset: 88394},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2771, col: 14, offset: 88371},
+										pos: position{line: 2772, col: 14, offset: 88394},
 										expr: &charClassMatcher{
-											pos:        position{line: 2771, col: 14, offset: 88371},
+											pos:        position{line: 2772, col: 14, offset: 88394},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -19290,14 +19508,14 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 1295, col: 43, offset: 40348},
+									pos:  position{line: 1296, col: 43, offset: 40371},
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2877, col: 10, offset: 91223},
+									pos: position{line: 2878, col: 10, offset: 91246},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2877, col: 10, offset: 91223},
+										pos:        position{line: 2878, col: 10, offset: 91246},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -19305,23 +19523,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2471, col: 5, offset: 79655},
+									pos: position{line: 2472, col: 5, offset: 79678},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2471, col: 5, offset: 79655},
+										pos: position{line: 2472, col: 5, offset: 79678},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2471, col: 5, offset: 79655},
+												pos: position{line: 2472, col: 5, offset: 79678},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2474, col: 5, offset: 79731},
+												pos:   position{line: 2475, col: 5, offset: 79754},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2475, col: 9, offset: 79749},
+													pos: position{line: 2476, col: 9, offset: 79772},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2475, col: 10, offset: 79750},
+														pos:        position{line: 2476, col: 10, offset: 79773},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -19333,27 +19551,27 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1198, col: 23, offset: 37013},
+									pos: position{line: 1199, col: 23, offset: 37036},
 									run: (*parser).callonIndexTermContent17,
 									expr: &seqExpr{
-										pos: position{line: 1198, col: 23, offset: 37013},
+										pos: position{line: 1199, col: 23, offset: 37036},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 1196, col: 32, offset: 36981},
+												pos:        position{line: 1197, col: 32, offset: 37004},
 												val:        "�",
 												ignoreCase: false,
 												want:       "\"�\"",
 											},
 											&labeledExpr{
-												pos:   position{line: 1198, col: 51, offset: 37041},
+												pos:   position{line: 1199, col: 51, offset: 37064},
 												label: "ref",
 												expr: &actionExpr{
-													pos: position{line: 1198, col: 56, offset: 37046},
+													pos: position{line: 1199, col: 56, offset: 37069},
 													run: (*parser).callonIndexTermContent21,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1198, col: 56, offset: 37046},
+														pos: position{line: 1199, col: 56, offset: 37069},
 														expr: &charClassMatcher{
-															pos:        position{line: 1198, col: 56, offset: 37046},
+															pos:        position{line: 1199, col: 56, offset: 37069},
 															val:        "[0-9]",
 															ranges:     []rune{'0', '9'},
 															ignoreCase: false,
@@ -19363,35 +19581,35 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 1196, col: 32, offset: 36981},
+												pos:        position{line: 1197, col: 32, offset: 37004},
 												val:        "�",
 												ignoreCase: false,
 												want:       "\"�\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 1199, col: 5, offset: 37118},
+												pos: position{line: 1200, col: 5, offset: 37141},
 												run: (*parser).callonIndexTermContent25,
 											},
 										},
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1295, col: 104, offset: 40409},
+									pos: position{line: 1296, col: 104, offset: 40432},
 									run: (*parser).callonIndexTermContent26,
 									expr: &seqExpr{
-										pos: position{line: 1295, col: 105, offset: 40410},
+										pos: position{line: 1296, col: 105, offset: 40433},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1295, col: 105, offset: 40410},
+												pos: position{line: 1296, col: 105, offset: 40433},
 												expr: &litMatcher{
-													pos:        position{line: 1295, col: 106, offset: 40411},
+													pos:        position{line: 1296, col: 106, offset: 40434},
 													val:        "))",
 													ignoreCase: false,
 													want:       "\"))\"",
 												},
 											},
 											&anyMatcher{
-												line: 1295, col: 111, offset: 40416,
+												line: 1296, col: 111, offset: 40439,
 											},
 										},
 									},
@@ -19404,21 +19622,21 @@ var g = &grammar{
 		},
 		{
 			name: "ImageBlock",
-			pos:  position{line: 1315, col: 1, offset: 41125},
+			pos:  position{line: 1316, col: 1, offset: 41148},
 			expr: &actionExpr{
-				pos: position{line: 1316, col: 5, offset: 41144},
+				pos: position{line: 1317, col: 5, offset: 41167},
 				run: (*parser).callonImageBlock1,
 				expr: &seqExpr{
-					pos: position{line: 1316, col: 5, offset: 41144},
+					pos: position{line: 1317, col: 5, offset: 41167},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1316, col: 5, offset: 41144},
+							pos:   position{line: 1317, col: 5, offset: 41167},
 							label: "start",
 							expr: &actionExpr{
-								pos: position{line: 2902, col: 16, offset: 91745},
+								pos: position{line: 2903, col: 16, offset: 91768},
 								run: (*parser).callonImageBlock4,
 								expr: &litMatcher{
-									pos:        position{line: 2902, col: 16, offset: 91745},
+									pos:        position{line: 2903, col: 16, offset: 91768},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -19426,57 +19644,57 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1316, col: 25, offset: 41164},
+							pos:        position{line: 1317, col: 25, offset: 41187},
 							val:        "image::",
 							ignoreCase: false,
 							want:       "\"image::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1316, col: 35, offset: 41174},
+							pos:   position{line: 1317, col: 35, offset: 41197},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2835, col: 13, offset: 89982},
+								pos: position{line: 2836, col: 13, offset: 90005},
 								run: (*parser).callonImageBlock8,
 								expr: &seqExpr{
-									pos: position{line: 2835, col: 13, offset: 89982},
+									pos: position{line: 2836, col: 13, offset: 90005},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2835, col: 13, offset: 89982},
+											pos:   position{line: 2836, col: 13, offset: 90005},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2835, col: 20, offset: 89989},
+												pos: position{line: 2836, col: 20, offset: 90012},
 												expr: &actionExpr{
-													pos: position{line: 2843, col: 11, offset: 90228},
+													pos: position{line: 2844, col: 11, offset: 90251},
 													run: (*parser).callonImageBlock12,
 													expr: &choiceExpr{
-														pos: position{line: 2843, col: 12, offset: 90229},
+														pos: position{line: 2844, col: 12, offset: 90252},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2843, col: 12, offset: 90229},
+																pos:        position{line: 2844, col: 12, offset: 90252},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2843, col: 24, offset: 90241},
+																pos:        position{line: 2844, col: 24, offset: 90264},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2843, col: 37, offset: 90254},
+																pos:        position{line: 2844, col: 37, offset: 90277},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2843, col: 48, offset: 90265},
+																pos:        position{line: 2844, col: 48, offset: 90288},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2843, col: 59, offset: 90276},
+																pos:        position{line: 2844, col: 59, offset: 90299},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19487,38 +19705,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2835, col: 30, offset: 89999},
+											pos:   position{line: 2836, col: 30, offset: 90022},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2848, col: 5, offset: 90340},
+												pos: position{line: 2849, col: 5, offset: 90363},
 												run: (*parser).callonImageBlock20,
 												expr: &labeledExpr{
-													pos:   position{line: 2848, col: 5, offset: 90340},
+													pos:   position{line: 2849, col: 5, offset: 90363},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2848, col: 14, offset: 90349},
+														pos: position{line: 2849, col: 14, offset: 90372},
 														expr: &choiceExpr{
-															pos: position{line: 2849, col: 9, offset: 90359},
+															pos: position{line: 2850, col: 9, offset: 90382},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2849, col: 9, offset: 90359},
+																	pos: position{line: 2850, col: 9, offset: 90382},
 																	run: (*parser).callonImageBlock24,
 																	expr: &seqExpr{
-																		pos: position{line: 2849, col: 9, offset: 90359},
+																		pos: position{line: 2850, col: 9, offset: 90382},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2849, col: 9, offset: 90359},
+																				pos: position{line: 2850, col: 9, offset: 90382},
 																				expr: &litMatcher{
-																					pos:        position{line: 2849, col: 10, offset: 90360},
+																					pos:        position{line: 2850, col: 10, offset: 90383},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2850, col: 9, offset: 90388},
+																				pos: position{line: 2851, col: 9, offset: 90411},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2850, col: 10, offset: 90389},
+																					pos:        position{line: 2851, col: 10, offset: 90412},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19529,27 +19747,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2853, col: 11, offset: 90601},
+																	pos: position{line: 2854, col: 11, offset: 90624},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2853, col: 11, offset: 90601},
+																			pos:        position{line: 2854, col: 11, offset: 90624},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2853, col: 19, offset: 90609},
+																			pos: position{line: 2854, col: 19, offset: 90632},
 																			expr: &seqExpr{
-																				pos: position{line: 2853, col: 21, offset: 90611},
+																				pos: position{line: 2854, col: 21, offset: 90634},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2853, col: 21, offset: 90611},
+																						pos: position{line: 2854, col: 21, offset: 90634},
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 10, offset: 91223},
+																							pos: position{line: 2878, col: 10, offset: 91246},
 																							run: (*parser).callonImageBlock35,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2877, col: 10, offset: 91223},
+																								pos:        position{line: 2878, col: 10, offset: 91246},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19558,11 +19776,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2853, col: 28, offset: 90618},
+																						pos: position{line: 2854, col: 28, offset: 90641},
 																						expr: &notExpr{
-																							pos: position{line: 2896, col: 8, offset: 91571},
+																							pos: position{line: 2897, col: 8, offset: 91594},
 																							expr: &anyMatcher{
-																								line: 2896, col: 9, offset: 91572,
+																								line: 2897, col: 9, offset: 91595,
 																							},
 																						},
 																					},
@@ -19918,27 +20136,27 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1198, col: 23, offset: 37013},
+																	pos: position{line: 1199, col: 23, offset: 37036},
 																	run: (*parser).callonImageBlock109,
 																	expr: &seqExpr{
-																		pos: position{line: 1198, col: 23, offset: 37013},
+																		pos: position{line: 1199, col: 23, offset: 37036},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1196, col: 32, offset: 36981},
+																				pos:        position{line: 1197, col: 32, offset: 37004},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1198, col: 51, offset: 37041},
+																				pos:   position{line: 1199, col: 51, offset: 37064},
 																				label: "ref",
 																				expr: &actionExpr{
-																					pos: position{line: 1198, col: 56, offset: 37046},
+																					pos: position{line: 1199, col: 56, offset: 37069},
 																					run: (*parser).callonImageBlock113,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1198, col: 56, offset: 37046},
+																						pos: position{line: 1199, col: 56, offset: 37069},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 1198, col: 56, offset: 37046},
+																							pos:        position{line: 1199, col: 56, offset: 37069},
 																							val:        "[0-9]",
 																							ranges:     []rune{'0', '9'},
 																							ignoreCase: false,
@@ -19948,23 +20166,23 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1196, col: 32, offset: 36981},
+																				pos:        position{line: 1197, col: 32, offset: 37004},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1199, col: 5, offset: 37118},
+																				pos: position{line: 1200, col: 5, offset: 37141},
 																				run: (*parser).callonImageBlock117,
 																			},
 																		},
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2856, col: 11, offset: 90738},
+																	pos: position{line: 2857, col: 11, offset: 90761},
 																	run: (*parser).callonImageBlock118,
 																	expr: &litMatcher{
-																		pos:        position{line: 2856, col: 11, offset: 90738},
+																		pos:        position{line: 2857, col: 11, offset: 90761},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -19981,20 +20199,20 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1316, col: 51, offset: 41190},
+							pos:   position{line: 1317, col: 51, offset: 41213},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1316, col: 63, offset: 41202},
+								pos:  position{line: 1317, col: 63, offset: 41225},
 								name: "InlineAttributes",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1316, col: 81, offset: 41220},
+							pos: position{line: 1317, col: 81, offset: 41243},
 							expr: &actionExpr{
-								pos: position{line: 2877, col: 10, offset: 91223},
+								pos: position{line: 2878, col: 10, offset: 91246},
 								run: (*parser).callonImageBlock123,
 								expr: &charClassMatcher{
-									pos:        position{line: 2877, col: 10, offset: 91223},
+									pos:        position{line: 2878, col: 10, offset: 91246},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -20003,13 +20221,13 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1316, col: 88, offset: 41227},
+							pos:   position{line: 1317, col: 88, offset: 41250},
 							label: "end",
 							expr: &actionExpr{
-								pos: position{line: 2902, col: 16, offset: 91745},
+								pos: position{line: 2903, col: 16, offset: 91768},
 								run: (*parser).callonImageBlock126,
 								expr: &litMatcher{
-									pos:        position{line: 2902, col: 16, offset: 91745},
+									pos:        position{line: 2903, col: 16, offset: 91768},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -20017,32 +20235,32 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1316, col: 106, offset: 41245},
+							pos: position{line: 1317, col: 106, offset: 41268},
 							run: (*parser).callonImageBlock128,
 						},
 						&choiceExpr{
-							pos: position{line: 2899, col: 8, offset: 91621},
+							pos: position{line: 2900, col: 8, offset: 91644},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2886, col: 12, offset: 91394},
+									pos: position{line: 2887, col: 12, offset: 91417},
 									run: (*parser).callonImageBlock130,
 									expr: &choiceExpr{
-										pos: position{line: 2886, col: 13, offset: 91395},
+										pos: position{line: 2887, col: 13, offset: 91418},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2886, col: 13, offset: 91395},
+												pos:        position{line: 2887, col: 13, offset: 91418},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2886, col: 20, offset: 91402},
+												pos:        position{line: 2887, col: 20, offset: 91425},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2886, col: 29, offset: 91411},
+												pos:        position{line: 2887, col: 29, offset: 91434},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -20051,9 +20269,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2896, col: 8, offset: 91571},
+									pos: position{line: 2897, col: 8, offset: 91594},
 									expr: &anyMatcher{
-										line: 2896, col: 9, offset: 91572,
+										line: 2897, col: 9, offset: 91595,
 									},
 								},
 							},
@@ -20064,74 +20282,74 @@ var g = &grammar{
 		},
 		{
 			name: "InlineImage",
-			pos:  position{line: 1321, col: 1, offset: 41485},
+			pos:  position{line: 1322, col: 1, offset: 41508},
 			expr: &actionExpr{
-				pos: position{line: 1321, col: 16, offset: 41500},
+				pos: position{line: 1322, col: 16, offset: 41523},
 				run: (*parser).callonInlineImage1,
 				expr: &seqExpr{
-					pos: position{line: 1321, col: 16, offset: 41500},
+					pos: position{line: 1322, col: 16, offset: 41523},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1321, col: 16, offset: 41500},
+							pos:        position{line: 1322, col: 16, offset: 41523},
 							val:        "image:",
 							ignoreCase: false,
 							want:       "\"image:\"",
 						},
 						&notExpr{
-							pos: position{line: 1321, col: 25, offset: 41509},
+							pos: position{line: 1322, col: 25, offset: 41532},
 							expr: &litMatcher{
-								pos:        position{line: 1321, col: 26, offset: 41510},
+								pos:        position{line: 1322, col: 26, offset: 41533},
 								val:        ":",
 								ignoreCase: false,
 								want:       "\":\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1321, col: 30, offset: 41514},
+							pos:   position{line: 1322, col: 30, offset: 41537},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2835, col: 13, offset: 89982},
+								pos: position{line: 2836, col: 13, offset: 90005},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2835, col: 13, offset: 89982},
+									pos: position{line: 2836, col: 13, offset: 90005},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2835, col: 13, offset: 89982},
+											pos:   position{line: 2836, col: 13, offset: 90005},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2835, col: 20, offset: 89989},
+												pos: position{line: 2836, col: 20, offset: 90012},
 												expr: &actionExpr{
-													pos: position{line: 2843, col: 11, offset: 90228},
+													pos: position{line: 2844, col: 11, offset: 90251},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2843, col: 12, offset: 90229},
+														pos: position{line: 2844, col: 12, offset: 90252},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2843, col: 12, offset: 90229},
+																pos:        position{line: 2844, col: 12, offset: 90252},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2843, col: 24, offset: 90241},
+																pos:        position{line: 2844, col: 24, offset: 90264},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2843, col: 37, offset: 90254},
+																pos:        position{line: 2844, col: 37, offset: 90277},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2843, col: 48, offset: 90265},
+																pos:        position{line: 2844, col: 48, offset: 90288},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2843, col: 59, offset: 90276},
+																pos:        position{line: 2844, col: 59, offset: 90299},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20142,38 +20360,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2835, col: 30, offset: 89999},
+											pos:   position{line: 2836, col: 30, offset: 90022},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2848, col: 5, offset: 90340},
+												pos: position{line: 2849, col: 5, offset: 90363},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2848, col: 5, offset: 90340},
+													pos:   position{line: 2849, col: 5, offset: 90363},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2848, col: 14, offset: 90349},
+														pos: position{line: 2849, col: 14, offset: 90372},
 														expr: &choiceExpr{
-															pos: position{line: 2849, col: 9, offset: 90359},
+															pos: position{line: 2850, col: 9, offset: 90382},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2849, col: 9, offset: 90359},
+																	pos: position{line: 2850, col: 9, offset: 90382},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2849, col: 9, offset: 90359},
+																		pos: position{line: 2850, col: 9, offset: 90382},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2849, col: 9, offset: 90359},
+																				pos: position{line: 2850, col: 9, offset: 90382},
 																				expr: &litMatcher{
-																					pos:        position{line: 2849, col: 10, offset: 90360},
+																					pos:        position{line: 2850, col: 10, offset: 90383},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2850, col: 9, offset: 90388},
+																				pos: position{line: 2851, col: 9, offset: 90411},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2850, col: 10, offset: 90389},
+																					pos:        position{line: 2851, col: 10, offset: 90412},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20184,27 +20402,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2853, col: 11, offset: 90601},
+																	pos: position{line: 2854, col: 11, offset: 90624},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2853, col: 11, offset: 90601},
+																			pos:        position{line: 2854, col: 11, offset: 90624},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2853, col: 19, offset: 90609},
+																			pos: position{line: 2854, col: 19, offset: 90632},
 																			expr: &seqExpr{
-																				pos: position{line: 2853, col: 21, offset: 90611},
+																				pos: position{line: 2854, col: 21, offset: 90634},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2853, col: 21, offset: 90611},
+																						pos: position{line: 2854, col: 21, offset: 90634},
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 10, offset: 91223},
+																							pos: position{line: 2878, col: 10, offset: 91246},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2877, col: 10, offset: 91223},
+																								pos:        position{line: 2878, col: 10, offset: 91246},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20213,11 +20431,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2853, col: 28, offset: 90618},
+																						pos: position{line: 2854, col: 28, offset: 90641},
 																						expr: &notExpr{
-																							pos: position{line: 2896, col: 8, offset: 91571},
+																							pos: position{line: 2897, col: 8, offset: 91594},
 																							expr: &anyMatcher{
-																								line: 2896, col: 9, offset: 91572,
+																								line: 2897, col: 9, offset: 91595,
 																							},
 																						},
 																					},
@@ -20573,27 +20791,27 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1198, col: 23, offset: 37013},
+																	pos: position{line: 1199, col: 23, offset: 37036},
 																	run: (*parser).callonInlineImage108,
 																	expr: &seqExpr{
-																		pos: position{line: 1198, col: 23, offset: 37013},
+																		pos: position{line: 1199, col: 23, offset: 37036},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1196, col: 32, offset: 36981},
+																				pos:        position{line: 1197, col: 32, offset: 37004},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1198, col: 51, offset: 37041},
+																				pos:   position{line: 1199, col: 51, offset: 37064},
 																				label: "ref",
 																				expr: &actionExpr{
-																					pos: position{line: 1198, col: 56, offset: 37046},
+																					pos: position{line: 1199, col: 56, offset: 37069},
 																					run: (*parser).callonInlineImage112,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1198, col: 56, offset: 37046},
+																						pos: position{line: 1199, col: 56, offset: 37069},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 1198, col: 56, offset: 37046},
+																							pos:        position{line: 1199, col: 56, offset: 37069},
 																							val:        "[0-9]",
 																							ranges:     []rune{'0', '9'},
 																							ignoreCase: false,
@@ -20603,23 +20821,23 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1196, col: 32, offset: 36981},
+																				pos:        position{line: 1197, col: 32, offset: 37004},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1199, col: 5, offset: 37118},
+																				pos: position{line: 1200, col: 5, offset: 37141},
 																				run: (*parser).callonInlineImage116,
 																			},
 																		},
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2856, col: 11, offset: 90738},
+																	pos: position{line: 2857, col: 11, offset: 90761},
 																	run: (*parser).callonInlineImage117,
 																	expr: &litMatcher{
-																		pos:        position{line: 2856, col: 11, offset: 90738},
+																		pos:        position{line: 2857, col: 11, offset: 90761},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20636,10 +20854,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1321, col: 46, offset: 41530},
+							pos:   position{line: 1322, col: 46, offset: 41553},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1321, col: 58, offset: 41542},
+								pos:  position{line: 1322, col: 58, offset: 41565},
 								name: "InlineAttributes",
 							},
 						},
@@ -20649,29 +20867,29 @@ var g = &grammar{
 		},
 		{
 			name: "InlineIcon",
-			pos:  position{line: 1328, col: 1, offset: 41938},
+			pos:  position{line: 1329, col: 1, offset: 41961},
 			expr: &actionExpr{
-				pos: position{line: 1328, col: 15, offset: 41952},
+				pos: position{line: 1329, col: 15, offset: 41975},
 				run: (*parser).callonInlineIcon1,
 				expr: &seqExpr{
-					pos: position{line: 1328, col: 15, offset: 41952},
+					pos: position{line: 1329, col: 15, offset: 41975},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1328, col: 15, offset: 41952},
+							pos:        position{line: 1329, col: 15, offset: 41975},
 							val:        "icon:",
 							ignoreCase: false,
 							want:       "\"icon:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1328, col: 23, offset: 41960},
+							pos:   position{line: 1329, col: 23, offset: 41983},
 							label: "icon",
 							expr: &actionExpr{
-								pos: position{line: 1328, col: 29, offset: 41966},
+								pos: position{line: 1329, col: 29, offset: 41989},
 								run: (*parser).callonInlineIcon5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1328, col: 29, offset: 41966},
+									pos: position{line: 1329, col: 29, offset: 41989},
 									expr: &charClassMatcher{
-										pos:        position{line: 1328, col: 29, offset: 41966},
+										pos:        position{line: 1329, col: 29, offset: 41989},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20682,10 +20900,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1328, col: 73, offset: 42010},
+							pos:   position{line: 1329, col: 73, offset: 42033},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1328, col: 85, offset: 42022},
+								pos:  position{line: 1329, col: 85, offset: 42045},
 								name: "InlineAttributes",
 							},
 						},
@@ -20695,31 +20913,31 @@ var g = &grammar{
 		},
 		{
 			name: "InlineFootnote",
-			pos:  position{line: 1335, col: 1, offset: 42388},
+			pos:  position{line: 1336, col: 1, offset: 42411},
 			expr: &actionExpr{
-				pos: position{line: 1335, col: 19, offset: 42406},
+				pos: position{line: 1336, col: 19, offset: 42429},
 				run: (*parser).callonInlineFootnote1,
 				expr: &seqExpr{
-					pos: position{line: 1335, col: 19, offset: 42406},
+					pos: position{line: 1336, col: 19, offset: 42429},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1335, col: 19, offset: 42406},
+							pos:        position{line: 1336, col: 19, offset: 42429},
 							val:        "footnote:",
 							ignoreCase: false,
 							want:       "\"footnote:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1335, col: 31, offset: 42418},
+							pos:   position{line: 1336, col: 31, offset: 42441},
 							label: "ref",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1335, col: 35, offset: 42422},
+								pos: position{line: 1336, col: 35, offset: 42445},
 								expr: &actionExpr{
-									pos: position{line: 1339, col: 16, offset: 42582},
+									pos: position{line: 1340, col: 16, offset: 42605},
 									run: (*parser).callonInlineFootnote6,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1339, col: 16, offset: 42582},
+										pos: position{line: 1340, col: 16, offset: 42605},
 										expr: &charClassMatcher{
-											pos:        position{line: 1339, col: 16, offset: 42582},
+											pos:        position{line: 1340, col: 16, offset: 42605},
 											val:        "[_-\\pL\\pN]",
 											chars:      []rune{'_', '-'},
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20731,21 +20949,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1335, col: 50, offset: 42437},
+							pos:        position{line: 1336, col: 50, offset: 42460},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1335, col: 54, offset: 42441},
+							pos:   position{line: 1336, col: 54, offset: 42464},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1335, col: 64, offset: 42451},
+								pos:  position{line: 1336, col: 64, offset: 42474},
 								name: "FootnoteElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1335, col: 82, offset: 42469},
+							pos:        position{line: 1336, col: 82, offset: 42492},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -20756,17 +20974,17 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElements",
-			pos:  position{line: 1341, col: 1, offset: 42626},
+			pos:  position{line: 1342, col: 1, offset: 42649},
 			expr: &actionExpr{
-				pos: position{line: 1341, col: 21, offset: 42646},
+				pos: position{line: 1342, col: 21, offset: 42669},
 				run: (*parser).callonFootnoteElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1341, col: 21, offset: 42646},
+					pos:   position{line: 1342, col: 21, offset: 42669},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1341, col: 30, offset: 42655},
+						pos: position{line: 1342, col: 30, offset: 42678},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1341, col: 31, offset: 42656},
+							pos:  position{line: 1342, col: 31, offset: 42679},
 							name: "FootnoteElement",
 						},
 					},
@@ -20775,44 +20993,44 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElement",
-			pos:  position{line: 1345, col: 1, offset: 42748},
+			pos:  position{line: 1346, col: 1, offset: 42771},
 			expr: &actionExpr{
-				pos: position{line: 1346, col: 5, offset: 42772},
+				pos: position{line: 1347, col: 5, offset: 42795},
 				run: (*parser).callonFootnoteElement1,
 				expr: &seqExpr{
-					pos: position{line: 1346, col: 5, offset: 42772},
+					pos: position{line: 1347, col: 5, offset: 42795},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1346, col: 5, offset: 42772},
+							pos: position{line: 1347, col: 5, offset: 42795},
 							expr: &litMatcher{
-								pos:        position{line: 1346, col: 6, offset: 42773},
+								pos:        position{line: 1347, col: 6, offset: 42796},
 								val:        "]",
 								ignoreCase: false,
 								want:       "\"]\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1347, col: 5, offset: 42782},
+							pos:   position{line: 1348, col: 5, offset: 42805},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1348, col: 9, offset: 42800},
+								pos: position{line: 1349, col: 9, offset: 42823},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2776, col: 5, offset: 88444},
+										pos: position{line: 2777, col: 5, offset: 88467},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2776, col: 5, offset: 88444},
+											pos: position{line: 2777, col: 5, offset: 88467},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2776, col: 5, offset: 88444},
+													pos:   position{line: 2777, col: 5, offset: 88467},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2776, col: 11, offset: 88450},
+														pos: position{line: 2777, col: 11, offset: 88473},
 														run: (*parser).callonFootnoteElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2776, col: 11, offset: 88450},
+															pos: position{line: 2777, col: 11, offset: 88473},
 															expr: &charClassMatcher{
-																pos:        position{line: 2776, col: 11, offset: 88450},
+																pos:        position{line: 2777, col: 11, offset: 88473},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -20822,44 +21040,44 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2779, col: 5, offset: 88508},
+													pos: position{line: 2780, col: 5, offset: 88531},
 													expr: &seqExpr{
-														pos: position{line: 2780, col: 9, offset: 88519},
+														pos: position{line: 2781, col: 9, offset: 88542},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2780, col: 9, offset: 88519},
+																pos:        position{line: 2781, col: 9, offset: 88542},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2781, col: 9, offset: 88568},
+																pos: position{line: 2782, col: 9, offset: 88591},
 																run: (*parser).callonFootnoteElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2785, col: 5, offset: 88648},
+													pos: position{line: 2786, col: 5, offset: 88671},
 													expr: &seqExpr{
-														pos: position{line: 2786, col: 9, offset: 88659},
+														pos: position{line: 2787, col: 9, offset: 88682},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2786, col: 9, offset: 88659},
+																pos: position{line: 2787, col: 9, offset: 88682},
 																expr: &seqExpr{
-																	pos: position{line: 2786, col: 10, offset: 88660},
+																	pos: position{line: 2787, col: 10, offset: 88683},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2786, col: 10, offset: 88660},
+																			pos:        position{line: 2787, col: 10, offset: 88683},
 																			val:        "[._%+-]",
 																			chars:      []rune{'.', '_', '%', '+', '-'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2786, col: 18, offset: 88668},
+																			pos: position{line: 2787, col: 18, offset: 88691},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2786, col: 18, offset: 88668},
+																				pos:        position{line: 2787, col: 18, offset: 88691},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -20870,13 +21088,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2786, col: 30, offset: 88680},
+																pos:        position{line: 2787, col: 30, offset: 88703},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2786, col: 34, offset: 88684},
+																pos:        position{line: 2787, col: 34, offset: 88707},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -20889,12 +21107,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2881, col: 11, offset: 91284},
+										pos: position{line: 2882, col: 11, offset: 91307},
 										run: (*parser).callonFootnoteElement26,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2881, col: 11, offset: 91284},
+											pos: position{line: 2882, col: 11, offset: 91307},
 											expr: &charClassMatcher{
-												pos:        position{line: 2881, col: 11, offset: 91284},
+												pos:        position{line: 2882, col: 11, offset: 91307},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -20903,25 +21121,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2502, col: 5, offset: 80826},
+										pos: position{line: 2503, col: 5, offset: 80849},
 										run: (*parser).callonFootnoteElement29,
 										expr: &seqExpr{
-											pos: position{line: 2502, col: 5, offset: 80826},
+											pos: position{line: 2503, col: 5, offset: 80849},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2502, col: 5, offset: 80826},
+													pos: position{line: 2503, col: 5, offset: 80849},
 													run: (*parser).callonFootnoteElement31,
 												},
 												&litMatcher{
-													pos:        position{line: 2505, col: 5, offset: 80897},
+													pos:        position{line: 2506, col: 5, offset: 80920},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2505, col: 10, offset: 80902},
+													pos: position{line: 2506, col: 10, offset: 80925},
 													expr: &charClassMatcher{
-														pos:        position{line: 2505, col: 11, offset: 80903},
+														pos:        position{line: 2506, col: 11, offset: 80926},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -20932,29 +21150,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2511, col: 5, offset: 81095},
+										pos: position{line: 2512, col: 5, offset: 81118},
 										run: (*parser).callonFootnoteElement35,
 										expr: &seqExpr{
-											pos: position{line: 2511, col: 5, offset: 81095},
+											pos: position{line: 2512, col: 5, offset: 81118},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2511, col: 5, offset: 81095},
+													pos: position{line: 2512, col: 5, offset: 81118},
 													run: (*parser).callonFootnoteElement37,
 												},
 												&andCodeExpr{
-													pos: position{line: 2514, col: 5, offset: 81166},
+													pos: position{line: 2515, col: 5, offset: 81189},
 													run: (*parser).callonFootnoteElement38,
 												},
 												&litMatcher{
-													pos:        position{line: 2518, col: 5, offset: 81291},
+													pos:        position{line: 2519, col: 5, offset: 81314},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2518, col: 9, offset: 81295},
+													pos: position{line: 2519, col: 9, offset: 81318},
 													expr: &charClassMatcher{
-														pos:        position{line: 2518, col: 10, offset: 81296},
+														pos:        position{line: 2519, col: 10, offset: 81319},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -20965,35 +21183,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1351, col: 11, offset: 42867},
+										pos:  position{line: 1352, col: 11, offset: 42890},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1352, col: 11, offset: 42883},
+										pos:  position{line: 1353, col: 11, offset: 42906},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2794, col: 5, offset: 88877},
+										pos: position{line: 2795, col: 5, offset: 88900},
 										run: (*parser).callonFootnoteElement44,
 										expr: &choiceExpr{
-											pos: position{line: 2795, col: 9, offset: 88887},
+											pos: position{line: 2796, col: 9, offset: 88910},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2795, col: 10, offset: 88888},
+													pos:        position{line: 2796, col: 10, offset: 88911},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2797, col: 13, offset: 88985},
+													pos: position{line: 2798, col: 13, offset: 89008},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2797, col: 13, offset: 88985},
+															pos: position{line: 2798, col: 13, offset: 89008},
 															run: (*parser).callonFootnoteElement48,
 														},
 														&litMatcher{
-															pos:        position{line: 2800, col: 13, offset: 89085},
+															pos:        position{line: 2801, col: 13, offset: 89108},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -21001,20 +21219,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2800, col: 19, offset: 89091},
+													pos:        position{line: 2801, col: 19, offset: 89114},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2803, col: 13, offset: 89129},
+													pos: position{line: 2804, col: 13, offset: 89152},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2803, col: 13, offset: 89129},
+															pos: position{line: 2804, col: 13, offset: 89152},
 															run: (*parser).callonFootnoteElement52,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2806, col: 14, offset: 89222},
+															pos:        position{line: 2807, col: 14, offset: 89245},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -21023,18 +21241,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2808, col: 12, offset: 89266},
+													pos: position{line: 2809, col: 12, offset: 89289},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2808, col: 12, offset: 89266},
+															pos:        position{line: 2809, col: 12, offset: 89289},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2808, col: 16, offset: 89270},
+															pos: position{line: 2809, col: 16, offset: 89293},
 															expr: &litMatcher{
-																pos:        position{line: 2808, col: 17, offset: 89271},
+																pos:        position{line: 2809, col: 17, offset: 89294},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -21046,36 +21264,36 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1354, col: 11, offset: 42956},
+										pos:  position{line: 1355, col: 11, offset: 42979},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 1210, col: 5, offset: 37562},
+										pos: position{line: 1211, col: 5, offset: 37585},
 										run: (*parser).callonFootnoteElement59,
 										expr: &seqExpr{
-											pos: position{line: 1210, col: 5, offset: 37562},
+											pos: position{line: 1211, col: 5, offset: 37585},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 1210, col: 5, offset: 37562},
+													pos: position{line: 1211, col: 5, offset: 37585},
 													run: (*parser).callonFootnoteElement61,
 												},
 												&litMatcher{
-													pos:        position{line: 1213, col: 5, offset: 37638},
+													pos:        position{line: 1214, col: 5, offset: 37661},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&andCodeExpr{
-													pos: position{line: 1214, col: 5, offset: 37646},
+													pos: position{line: 1215, col: 5, offset: 37669},
 													run: (*parser).callonFootnoteElement63,
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1218, col: 5, offset: 37733},
+													pos: position{line: 1219, col: 5, offset: 37756},
 													expr: &actionExpr{
-														pos: position{line: 2877, col: 10, offset: 91223},
+														pos: position{line: 2878, col: 10, offset: 91246},
 														run: (*parser).callonFootnoteElement65,
 														expr: &charClassMatcher{
-															pos:        position{line: 2877, col: 10, offset: 91223},
+															pos:        position{line: 2878, col: 10, offset: 91246},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -21084,30 +21302,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 1218, col: 12, offset: 37740},
+													pos: position{line: 1219, col: 12, offset: 37763},
 													expr: &choiceExpr{
-														pos: position{line: 2899, col: 8, offset: 91621},
+														pos: position{line: 2900, col: 8, offset: 91644},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2886, col: 12, offset: 91394},
+																pos: position{line: 2887, col: 12, offset: 91417},
 																run: (*parser).callonFootnoteElement69,
 																expr: &choiceExpr{
-																	pos: position{line: 2886, col: 13, offset: 91395},
+																	pos: position{line: 2887, col: 13, offset: 91418},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 13, offset: 91395},
+																			pos:        position{line: 2887, col: 13, offset: 91418},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 20, offset: 91402},
+																			pos:        position{line: 2887, col: 20, offset: 91425},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 29, offset: 91411},
+																			pos:        position{line: 2887, col: 29, offset: 91434},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -21116,9 +21334,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2896, col: 8, offset: 91571},
+																pos: position{line: 2897, col: 8, offset: 91594},
 																expr: &anyMatcher{
-																	line: 2896, col: 9, offset: 91572,
+																	line: 2897, col: 9, offset: 91595,
 																},
 															},
 														},
@@ -21474,23 +21692,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2471, col: 5, offset: 79655},
+										pos: position{line: 2472, col: 5, offset: 79678},
 										run: (*parser).callonFootnoteElement145,
 										expr: &seqExpr{
-											pos: position{line: 2471, col: 5, offset: 79655},
+											pos: position{line: 2472, col: 5, offset: 79678},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2471, col: 5, offset: 79655},
+													pos: position{line: 2472, col: 5, offset: 79678},
 													run: (*parser).callonFootnoteElement147,
 												},
 												&labeledExpr{
-													pos:   position{line: 2474, col: 5, offset: 79731},
+													pos:   position{line: 2475, col: 5, offset: 79754},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2475, col: 9, offset: 79749},
+														pos: position{line: 2476, col: 9, offset: 79772},
 														run: (*parser).callonFootnoteElement149,
 														expr: &charClassMatcher{
-															pos:        position{line: 2475, col: 10, offset: 79750},
+															pos:        position{line: 2476, col: 10, offset: 79773},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -21502,25 +21720,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2886, col: 12, offset: 91394},
+										pos: position{line: 2887, col: 12, offset: 91417},
 										run: (*parser).callonFootnoteElement151,
 										expr: &choiceExpr{
-											pos: position{line: 2886, col: 13, offset: 91395},
+											pos: position{line: 2887, col: 13, offset: 91418},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2886, col: 13, offset: 91395},
+													pos:        position{line: 2887, col: 13, offset: 91418},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2886, col: 20, offset: 91402},
+													pos:        position{line: 2887, col: 20, offset: 91425},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2886, col: 29, offset: 91411},
+													pos:        position{line: 2887, col: 29, offset: 91434},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -21529,10 +21747,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2816, col: 12, offset: 89531},
+										pos: position{line: 2817, col: 12, offset: 89554},
 										run: (*parser).callonFootnoteElement156,
 										expr: &charClassMatcher{
-											pos:        position{line: 2816, col: 12, offset: 89531},
+											pos:        position{line: 2817, col: 12, offset: 89554},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -21548,32 +21766,32 @@ var g = &grammar{
 		},
 		{
 			name: "PassthroughMacro",
-			pos:  position{line: 1393, col: 1, offset: 44801},
+			pos:  position{line: 1394, col: 1, offset: 44824},
 			expr: &choiceExpr{
-				pos: position{line: 1393, col: 21, offset: 44821},
+				pos: position{line: 1394, col: 21, offset: 44844},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1393, col: 21, offset: 44821},
+						pos: position{line: 1394, col: 21, offset: 44844},
 						run: (*parser).callonPassthroughMacro2,
 						expr: &seqExpr{
-							pos: position{line: 1393, col: 21, offset: 44821},
+							pos: position{line: 1394, col: 21, offset: 44844},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1393, col: 21, offset: 44821},
+									pos:        position{line: 1394, col: 21, offset: 44844},
 									val:        "pass:[",
 									ignoreCase: false,
 									want:       "\"pass:[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1393, col: 30, offset: 44830},
+									pos:   position{line: 1394, col: 30, offset: 44853},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1393, col: 38, offset: 44838},
+										pos: position{line: 1394, col: 38, offset: 44861},
 										expr: &actionExpr{
-											pos: position{line: 1409, col: 30, offset: 45428},
+											pos: position{line: 1410, col: 30, offset: 45451},
 											run: (*parser).callonPassthroughMacro7,
 											expr: &charClassMatcher{
-												pos:        position{line: 1409, col: 30, offset: 45428},
+												pos:        position{line: 1410, col: 30, offset: 45451},
 												val:        "[^]]",
 												chars:      []rune{']'},
 												ignoreCase: false,
@@ -21583,7 +21801,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1393, col: 67, offset: 44867},
+									pos:        position{line: 1394, col: 67, offset: 44890},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -21592,34 +21810,34 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1395, col: 9, offset: 44971},
+						pos: position{line: 1396, col: 9, offset: 44994},
 						run: (*parser).callonPassthroughMacro10,
 						expr: &seqExpr{
-							pos: position{line: 1395, col: 9, offset: 44971},
+							pos: position{line: 1396, col: 9, offset: 44994},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 1399, col: 33, offset: 45177},
+									pos: position{line: 1400, col: 33, offset: 45200},
 									run: (*parser).callonPassthroughMacro12,
 									expr: &litMatcher{
-										pos:        position{line: 1399, col: 33, offset: 45177},
+										pos:        position{line: 1400, col: 33, offset: 45200},
 										val:        "pass:q[",
 										ignoreCase: false,
 										want:       "\"pass:q[\"",
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1395, col: 38, offset: 45000},
+									pos:   position{line: 1396, col: 38, offset: 45023},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1395, col: 46, offset: 45008},
+										pos: position{line: 1396, col: 46, offset: 45031},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1395, col: 47, offset: 45009},
+											pos:  position{line: 1396, col: 47, offset: 45032},
 											name: "PassthroughMacroQuotesElement",
 										},
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1395, col: 79, offset: 45041},
+									pos:        position{line: 1396, col: 79, offset: 45064},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -21632,25 +21850,25 @@ var g = &grammar{
 		},
 		{
 			name: "PassthroughMacroQuotesElement",
-			pos:  position{line: 1404, col: 1, offset: 45248},
+			pos:  position{line: 1405, col: 1, offset: 45271},
 			expr: &actionExpr{
-				pos: position{line: 1404, col: 34, offset: 45281},
+				pos: position{line: 1405, col: 34, offset: 45304},
 				run: (*parser).callonPassthroughMacroQuotesElement1,
 				expr: &labeledExpr{
-					pos:   position{line: 1404, col: 34, offset: 45281},
+					pos:   position{line: 1405, col: 34, offset: 45304},
 					label: "element",
 					expr: &choiceExpr{
-						pos: position{line: 1404, col: 43, offset: 45290},
+						pos: position{line: 1405, col: 43, offset: 45313},
 						alternatives: []interface{}{
 							&ruleRefExpr{
-								pos:  position{line: 1404, col: 43, offset: 45290},
+								pos:  position{line: 1405, col: 43, offset: 45313},
 								name: "QuotedText",
 							},
 							&actionExpr{
-								pos: position{line: 1409, col: 30, offset: 45428},
+								pos: position{line: 1410, col: 30, offset: 45451},
 								run: (*parser).callonPassthroughMacroQuotesElement5,
 								expr: &charClassMatcher{
-									pos:        position{line: 1409, col: 30, offset: 45428},
+									pos:        position{line: 1410, col: 30, offset: 45451},
 									val:        "[^]]",
 									chars:      []rune{']'},
 									ignoreCase: false,
@@ -21664,75 +21882,75 @@ var g = &grammar{
 		},
 		{
 			name: "Link",
-			pos:  position{line: 1416, col: 1, offset: 45684},
+			pos:  position{line: 1417, col: 1, offset: 45707},
 			expr: &choiceExpr{
-				pos: position{line: 1416, col: 9, offset: 45692},
+				pos: position{line: 1417, col: 9, offset: 45715},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1419, col: 5, offset: 45761},
+						pos: position{line: 1420, col: 5, offset: 45784},
 						run: (*parser).callonLink2,
 						expr: &seqExpr{
-							pos: position{line: 1419, col: 5, offset: 45761},
+							pos: position{line: 1420, col: 5, offset: 45784},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1419, col: 5, offset: 45761},
+									pos:        position{line: 1420, col: 5, offset: 45784},
 									val:        "<",
 									ignoreCase: false,
 									want:       "\"<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1420, col: 5, offset: 45770},
+									pos:   position{line: 1421, col: 5, offset: 45793},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2839, col: 23, offset: 90109},
+										pos: position{line: 2840, col: 23, offset: 90132},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2839, col: 23, offset: 90109},
+											pos: position{line: 2840, col: 23, offset: 90132},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2839, col: 23, offset: 90109},
+													pos: position{line: 2840, col: 23, offset: 90132},
 													expr: &litMatcher{
-														pos:        position{line: 2839, col: 24, offset: 90110},
+														pos:        position{line: 2840, col: 24, offset: 90133},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2839, col: 28, offset: 90114},
+													pos:   position{line: 2840, col: 28, offset: 90137},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2843, col: 11, offset: 90228},
+														pos: position{line: 2844, col: 11, offset: 90251},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2843, col: 12, offset: 90229},
+															pos: position{line: 2844, col: 12, offset: 90252},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2843, col: 12, offset: 90229},
+																	pos:        position{line: 2844, col: 12, offset: 90252},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2843, col: 24, offset: 90241},
+																	pos:        position{line: 2844, col: 24, offset: 90264},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2843, col: 37, offset: 90254},
+																	pos:        position{line: 2844, col: 37, offset: 90277},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2843, col: 48, offset: 90265},
+																	pos:        position{line: 2844, col: 48, offset: 90288},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2843, col: 59, offset: 90276},
+																	pos:        position{line: 2844, col: 59, offset: 90299},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -21742,38 +21960,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2839, col: 44, offset: 90130},
+													pos:   position{line: 2840, col: 44, offset: 90153},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2848, col: 5, offset: 90340},
+														pos: position{line: 2849, col: 5, offset: 90363},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2848, col: 5, offset: 90340},
+															pos:   position{line: 2849, col: 5, offset: 90363},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2848, col: 14, offset: 90349},
+																pos: position{line: 2849, col: 14, offset: 90372},
 																expr: &choiceExpr{
-																	pos: position{line: 2849, col: 9, offset: 90359},
+																	pos: position{line: 2850, col: 9, offset: 90382},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2849, col: 9, offset: 90359},
+																			pos: position{line: 2850, col: 9, offset: 90382},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2849, col: 9, offset: 90359},
+																				pos: position{line: 2850, col: 9, offset: 90382},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2849, col: 9, offset: 90359},
+																						pos: position{line: 2850, col: 9, offset: 90382},
 																						expr: &litMatcher{
-																							pos:        position{line: 2849, col: 10, offset: 90360},
+																							pos:        position{line: 2850, col: 10, offset: 90383},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2850, col: 9, offset: 90388},
+																						pos: position{line: 2851, col: 9, offset: 90411},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2850, col: 10, offset: 90389},
+																							pos:        position{line: 2851, col: 10, offset: 90412},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -21784,27 +22002,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2853, col: 11, offset: 90601},
+																			pos: position{line: 2854, col: 11, offset: 90624},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2853, col: 11, offset: 90601},
+																					pos:        position{line: 2854, col: 11, offset: 90624},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2853, col: 19, offset: 90609},
+																					pos: position{line: 2854, col: 19, offset: 90632},
 																					expr: &seqExpr{
-																						pos: position{line: 2853, col: 21, offset: 90611},
+																						pos: position{line: 2854, col: 21, offset: 90634},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2853, col: 21, offset: 90611},
+																								pos: position{line: 2854, col: 21, offset: 90634},
 																								expr: &actionExpr{
-																									pos: position{line: 2877, col: 10, offset: 91223},
+																									pos: position{line: 2878, col: 10, offset: 91246},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 10, offset: 91223},
+																										pos:        position{line: 2878, col: 10, offset: 91246},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -21813,11 +22031,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2853, col: 28, offset: 90618},
+																								pos: position{line: 2854, col: 28, offset: 90641},
 																								expr: &notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91571},
+																									pos: position{line: 2897, col: 8, offset: 91594},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91572,
+																										line: 2897, col: 9, offset: 91595,
 																									},
 																								},
 																							},
@@ -22173,27 +22391,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1198, col: 23, offset: 37013},
+																			pos: position{line: 1199, col: 23, offset: 37036},
 																			run: (*parser).callonLink108,
 																			expr: &seqExpr{
-																				pos: position{line: 1198, col: 23, offset: 37013},
+																				pos: position{line: 1199, col: 23, offset: 37036},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36981},
+																						pos:        position{line: 1197, col: 32, offset: 37004},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1198, col: 51, offset: 37041},
+																						pos:   position{line: 1199, col: 51, offset: 37064},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1198, col: 56, offset: 37046},
+																							pos: position{line: 1199, col: 56, offset: 37069},
 																							run: (*parser).callonLink112,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1198, col: 56, offset: 37046},
+																								pos: position{line: 1199, col: 56, offset: 37069},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1198, col: 56, offset: 37046},
+																									pos:        position{line: 1199, col: 56, offset: 37069},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -22203,23 +22421,23 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36981},
+																						pos:        position{line: 1197, col: 32, offset: 37004},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1199, col: 5, offset: 37118},
+																						pos: position{line: 1200, col: 5, offset: 37141},
 																						run: (*parser).callonLink116,
 																					},
 																				},
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2856, col: 11, offset: 90738},
+																			pos: position{line: 2857, col: 11, offset: 90761},
 																			run: (*parser).callonLink117,
 																			expr: &litMatcher{
-																				pos:        position{line: 2856, col: 11, offset: 90738},
+																				pos:        position{line: 2857, col: 11, offset: 90761},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22236,7 +22454,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1425, col: 5, offset: 45989},
+									pos:        position{line: 1426, col: 5, offset: 46012},
 									val:        ">",
 									ignoreCase: false,
 									want:       "\">\"",
@@ -22245,38 +22463,38 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1416, col: 19, offset: 45702},
+						pos:  position{line: 1417, col: 19, offset: 45725},
 						name: "RelativeLink",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1416, col: 34, offset: 45717},
+						pos:  position{line: 1417, col: 34, offset: 45740},
 						name: "ExternalLink",
 					},
 					&actionExpr{
-						pos: position{line: 1454, col: 17, offset: 47068},
+						pos: position{line: 1455, col: 17, offset: 47091},
 						run: (*parser).callonLink122,
 						expr: &seqExpr{
-							pos: position{line: 1454, col: 17, offset: 47068},
+							pos: position{line: 1455, col: 17, offset: 47091},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1454, col: 17, offset: 47068},
+									pos:   position{line: 1455, col: 17, offset: 47091},
 									label: "local",
 									expr: &actionExpr{
-										pos: position{line: 1459, col: 5, offset: 47233},
+										pos: position{line: 1460, col: 5, offset: 47256},
 										run: (*parser).callonLink125,
 										expr: &seqExpr{
-											pos: position{line: 1459, col: 5, offset: 47233},
+											pos: position{line: 1460, col: 5, offset: 47256},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1459, col: 5, offset: 47233},
+													pos:   position{line: 1460, col: 5, offset: 47256},
 													label: "local",
 													expr: &actionExpr{
-														pos: position{line: 1459, col: 12, offset: 47240},
+														pos: position{line: 1460, col: 12, offset: 47263},
 														run: (*parser).callonLink128,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1459, col: 12, offset: 47240},
+															pos: position{line: 1460, col: 12, offset: 47263},
 															expr: &charClassMatcher{
-																pos:        position{line: 1459, col: 12, offset: 47240},
+																pos:        position{line: 1460, col: 12, offset: 47263},
 																val:        "[!#$%&\\*=?^_`{|}~.+-/\\pL\\pN]",
 																chars:      []rune{'!', '#', '$', '%', '&', '\'', '*', '=', '?', '^', '_', '`', '{', '|', '}', '~', '.'},
 																ranges:     []rune{'+', '/'},
@@ -22288,7 +22506,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1462, col: 5, offset: 47324},
+													pos: position{line: 1463, col: 5, offset: 47347},
 													run: (*parser).callonLink131,
 												},
 											},
@@ -22296,24 +22514,24 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1454, col: 43, offset: 47094},
+									pos:        position{line: 1455, col: 43, offset: 47117},
 									val:        "@",
 									ignoreCase: false,
 									want:       "\"@\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1454, col: 47, offset: 47098},
+									pos:   position{line: 1455, col: 47, offset: 47121},
 									label: "domain",
 									expr: &actionExpr{
-										pos: position{line: 1472, col: 23, offset: 47675},
+										pos: position{line: 1473, col: 23, offset: 47698},
 										run: (*parser).callonLink134,
 										expr: &seqExpr{
-											pos: position{line: 1472, col: 23, offset: 47675},
+											pos: position{line: 1473, col: 23, offset: 47698},
 											exprs: []interface{}{
 												&oneOrMoreExpr{
-													pos: position{line: 1476, col: 28, offset: 47801},
+													pos: position{line: 1477, col: 28, offset: 47824},
 													expr: &charClassMatcher{
-														pos:        position{line: 1476, col: 28, offset: 47801},
+														pos:        position{line: 1477, col: 28, offset: 47824},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -22321,20 +22539,20 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1476, col: 38, offset: 47811},
+													pos: position{line: 1477, col: 38, offset: 47834},
 													expr: &seqExpr{
-														pos: position{line: 1476, col: 39, offset: 47812},
+														pos: position{line: 1477, col: 39, offset: 47835},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 1476, col: 39, offset: 47812},
+																pos:        position{line: 1477, col: 39, offset: 47835},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 															&oneOrMoreExpr{
-																pos: position{line: 1476, col: 43, offset: 47816},
+																pos: position{line: 1477, col: 43, offset: 47839},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1476, col: 43, offset: 47816},
+																	pos:        position{line: 1477, col: 43, offset: 47839},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -22345,20 +22563,20 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1472, col: 47, offset: 47699},
+													pos: position{line: 1473, col: 47, offset: 47722},
 													expr: &seqExpr{
-														pos: position{line: 1472, col: 48, offset: 47700},
+														pos: position{line: 1473, col: 48, offset: 47723},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 1472, col: 48, offset: 47700},
+																pos:        position{line: 1473, col: 48, offset: 47723},
 																val:        ".",
 																ignoreCase: false,
 																want:       "\".\"",
 															},
 															&oneOrMoreExpr{
-																pos: position{line: 1476, col: 28, offset: 47801},
+																pos: position{line: 1477, col: 28, offset: 47824},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1476, col: 28, offset: 47801},
+																	pos:        position{line: 1477, col: 28, offset: 47824},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -22366,20 +22584,20 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 1476, col: 38, offset: 47811},
+																pos: position{line: 1477, col: 38, offset: 47834},
 																expr: &seqExpr{
-																	pos: position{line: 1476, col: 39, offset: 47812},
+																	pos: position{line: 1477, col: 39, offset: 47835},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 1476, col: 39, offset: 47812},
+																			pos:        position{line: 1477, col: 39, offset: 47835},
 																			val:        "-",
 																			ignoreCase: false,
 																			want:       "\"-\"",
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 1476, col: 43, offset: 47816},
+																			pos: position{line: 1477, col: 43, offset: 47839},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1476, col: 43, offset: 47816},
+																				pos:        position{line: 1477, col: 43, offset: 47839},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -22404,68 +22622,68 @@ var g = &grammar{
 		},
 		{
 			name: "RelativeLink",
-			pos:  position{line: 1431, col: 1, offset: 46137},
+			pos:  position{line: 1432, col: 1, offset: 46160},
 			expr: &choiceExpr{
-				pos: position{line: 1433, col: 5, offset: 46173},
+				pos: position{line: 1434, col: 5, offset: 46196},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1433, col: 5, offset: 46173},
+						pos: position{line: 1434, col: 5, offset: 46196},
 						run: (*parser).callonRelativeLink2,
 						expr: &seqExpr{
-							pos: position{line: 1433, col: 5, offset: 46173},
+							pos: position{line: 1434, col: 5, offset: 46196},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1433, col: 5, offset: 46173},
+									pos:        position{line: 1434, col: 5, offset: 46196},
 									val:        "\\link:",
 									ignoreCase: false,
 									want:       "\"\\\\link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1433, col: 17, offset: 46185},
+									pos:   position{line: 1434, col: 17, offset: 46208},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2835, col: 13, offset: 89982},
+										pos: position{line: 2836, col: 13, offset: 90005},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2835, col: 13, offset: 89982},
+											pos: position{line: 2836, col: 13, offset: 90005},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2835, col: 13, offset: 89982},
+													pos:   position{line: 2836, col: 13, offset: 90005},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2835, col: 20, offset: 89989},
+														pos: position{line: 2836, col: 20, offset: 90012},
 														expr: &actionExpr{
-															pos: position{line: 2843, col: 11, offset: 90228},
+															pos: position{line: 2844, col: 11, offset: 90251},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2843, col: 12, offset: 90229},
+																pos: position{line: 2844, col: 12, offset: 90252},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2843, col: 12, offset: 90229},
+																		pos:        position{line: 2844, col: 12, offset: 90252},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2843, col: 24, offset: 90241},
+																		pos:        position{line: 2844, col: 24, offset: 90264},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2843, col: 37, offset: 90254},
+																		pos:        position{line: 2844, col: 37, offset: 90277},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2843, col: 48, offset: 90265},
+																		pos:        position{line: 2844, col: 48, offset: 90288},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2843, col: 59, offset: 90276},
+																		pos:        position{line: 2844, col: 59, offset: 90299},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22476,38 +22694,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2835, col: 30, offset: 89999},
+													pos:   position{line: 2836, col: 30, offset: 90022},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2848, col: 5, offset: 90340},
+														pos: position{line: 2849, col: 5, offset: 90363},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2848, col: 5, offset: 90340},
+															pos:   position{line: 2849, col: 5, offset: 90363},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2848, col: 14, offset: 90349},
+																pos: position{line: 2849, col: 14, offset: 90372},
 																expr: &choiceExpr{
-																	pos: position{line: 2849, col: 9, offset: 90359},
+																	pos: position{line: 2850, col: 9, offset: 90382},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2849, col: 9, offset: 90359},
+																			pos: position{line: 2850, col: 9, offset: 90382},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2849, col: 9, offset: 90359},
+																				pos: position{line: 2850, col: 9, offset: 90382},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2849, col: 9, offset: 90359},
+																						pos: position{line: 2850, col: 9, offset: 90382},
 																						expr: &litMatcher{
-																							pos:        position{line: 2849, col: 10, offset: 90360},
+																							pos:        position{line: 2850, col: 10, offset: 90383},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2850, col: 9, offset: 90388},
+																						pos: position{line: 2851, col: 9, offset: 90411},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2850, col: 10, offset: 90389},
+																							pos:        position{line: 2851, col: 10, offset: 90412},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22518,27 +22736,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2853, col: 11, offset: 90601},
+																			pos: position{line: 2854, col: 11, offset: 90624},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2853, col: 11, offset: 90601},
+																					pos:        position{line: 2854, col: 11, offset: 90624},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2853, col: 19, offset: 90609},
+																					pos: position{line: 2854, col: 19, offset: 90632},
 																					expr: &seqExpr{
-																						pos: position{line: 2853, col: 21, offset: 90611},
+																						pos: position{line: 2854, col: 21, offset: 90634},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2853, col: 21, offset: 90611},
+																								pos: position{line: 2854, col: 21, offset: 90634},
 																								expr: &actionExpr{
-																									pos: position{line: 2877, col: 10, offset: 91223},
+																									pos: position{line: 2878, col: 10, offset: 91246},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 10, offset: 91223},
+																										pos:        position{line: 2878, col: 10, offset: 91246},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22547,11 +22765,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2853, col: 28, offset: 90618},
+																								pos: position{line: 2854, col: 28, offset: 90641},
 																								expr: &notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91571},
+																									pos: position{line: 2897, col: 8, offset: 91594},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91572,
+																										line: 2897, col: 9, offset: 91595,
 																									},
 																								},
 																							},
@@ -22907,27 +23125,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1198, col: 23, offset: 37013},
+																			pos: position{line: 1199, col: 23, offset: 37036},
 																			run: (*parser).callonRelativeLink107,
 																			expr: &seqExpr{
-																				pos: position{line: 1198, col: 23, offset: 37013},
+																				pos: position{line: 1199, col: 23, offset: 37036},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36981},
+																						pos:        position{line: 1197, col: 32, offset: 37004},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1198, col: 51, offset: 37041},
+																						pos:   position{line: 1199, col: 51, offset: 37064},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1198, col: 56, offset: 37046},
+																							pos: position{line: 1199, col: 56, offset: 37069},
 																							run: (*parser).callonRelativeLink111,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1198, col: 56, offset: 37046},
+																								pos: position{line: 1199, col: 56, offset: 37069},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1198, col: 56, offset: 37046},
+																									pos:        position{line: 1199, col: 56, offset: 37069},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -22937,23 +23155,23 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36981},
+																						pos:        position{line: 1197, col: 32, offset: 37004},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1199, col: 5, offset: 37118},
+																						pos: position{line: 1200, col: 5, offset: 37141},
 																						run: (*parser).callonRelativeLink115,
 																					},
 																				},
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2856, col: 11, offset: 90738},
+																			pos: position{line: 2857, col: 11, offset: 90761},
 																			run: (*parser).callonRelativeLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2856, col: 11, offset: 90738},
+																				pos:        position{line: 2857, col: 11, offset: 90761},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22970,10 +23188,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1433, col: 32, offset: 46200},
+									pos:   position{line: 1434, col: 32, offset: 46223},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1433, col: 44, offset: 46212},
+										pos:  position{line: 1434, col: 44, offset: 46235},
 										name: "InlineAttributes",
 									},
 								},
@@ -22981,63 +23199,63 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1438, col: 5, offset: 46387},
+						pos: position{line: 1439, col: 5, offset: 46410},
 						run: (*parser).callonRelativeLink120,
 						expr: &seqExpr{
-							pos: position{line: 1438, col: 5, offset: 46387},
+							pos: position{line: 1439, col: 5, offset: 46410},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1438, col: 5, offset: 46387},
+									pos:        position{line: 1439, col: 5, offset: 46410},
 									val:        "link:",
 									ignoreCase: false,
 									want:       "\"link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1438, col: 13, offset: 46395},
+									pos:   position{line: 1439, col: 13, offset: 46418},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2835, col: 13, offset: 89982},
+										pos: position{line: 2836, col: 13, offset: 90005},
 										run: (*parser).callonRelativeLink124,
 										expr: &seqExpr{
-											pos: position{line: 2835, col: 13, offset: 89982},
+											pos: position{line: 2836, col: 13, offset: 90005},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2835, col: 13, offset: 89982},
+													pos:   position{line: 2836, col: 13, offset: 90005},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2835, col: 20, offset: 89989},
+														pos: position{line: 2836, col: 20, offset: 90012},
 														expr: &actionExpr{
-															pos: position{line: 2843, col: 11, offset: 90228},
+															pos: position{line: 2844, col: 11, offset: 90251},
 															run: (*parser).callonRelativeLink128,
 															expr: &choiceExpr{
-																pos: position{line: 2843, col: 12, offset: 90229},
+																pos: position{line: 2844, col: 12, offset: 90252},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2843, col: 12, offset: 90229},
+																		pos:        position{line: 2844, col: 12, offset: 90252},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2843, col: 24, offset: 90241},
+																		pos:        position{line: 2844, col: 24, offset: 90264},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2843, col: 37, offset: 90254},
+																		pos:        position{line: 2844, col: 37, offset: 90277},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2843, col: 48, offset: 90265},
+																		pos:        position{line: 2844, col: 48, offset: 90288},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2843, col: 59, offset: 90276},
+																		pos:        position{line: 2844, col: 59, offset: 90299},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23048,38 +23266,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2835, col: 30, offset: 89999},
+													pos:   position{line: 2836, col: 30, offset: 90022},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2848, col: 5, offset: 90340},
+														pos: position{line: 2849, col: 5, offset: 90363},
 														run: (*parser).callonRelativeLink136,
 														expr: &labeledExpr{
-															pos:   position{line: 2848, col: 5, offset: 90340},
+															pos:   position{line: 2849, col: 5, offset: 90363},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2848, col: 14, offset: 90349},
+																pos: position{line: 2849, col: 14, offset: 90372},
 																expr: &choiceExpr{
-																	pos: position{line: 2849, col: 9, offset: 90359},
+																	pos: position{line: 2850, col: 9, offset: 90382},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2849, col: 9, offset: 90359},
+																			pos: position{line: 2850, col: 9, offset: 90382},
 																			run: (*parser).callonRelativeLink140,
 																			expr: &seqExpr{
-																				pos: position{line: 2849, col: 9, offset: 90359},
+																				pos: position{line: 2850, col: 9, offset: 90382},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2849, col: 9, offset: 90359},
+																						pos: position{line: 2850, col: 9, offset: 90382},
 																						expr: &litMatcher{
-																							pos:        position{line: 2849, col: 10, offset: 90360},
+																							pos:        position{line: 2850, col: 10, offset: 90383},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2850, col: 9, offset: 90388},
+																						pos: position{line: 2851, col: 9, offset: 90411},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2850, col: 10, offset: 90389},
+																							pos:        position{line: 2851, col: 10, offset: 90412},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23090,27 +23308,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2853, col: 11, offset: 90601},
+																			pos: position{line: 2854, col: 11, offset: 90624},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2853, col: 11, offset: 90601},
+																					pos:        position{line: 2854, col: 11, offset: 90624},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2853, col: 19, offset: 90609},
+																					pos: position{line: 2854, col: 19, offset: 90632},
 																					expr: &seqExpr{
-																						pos: position{line: 2853, col: 21, offset: 90611},
+																						pos: position{line: 2854, col: 21, offset: 90634},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2853, col: 21, offset: 90611},
+																								pos: position{line: 2854, col: 21, offset: 90634},
 																								expr: &actionExpr{
-																									pos: position{line: 2877, col: 10, offset: 91223},
+																									pos: position{line: 2878, col: 10, offset: 91246},
 																									run: (*parser).callonRelativeLink151,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 10, offset: 91223},
+																										pos:        position{line: 2878, col: 10, offset: 91246},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23119,11 +23337,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2853, col: 28, offset: 90618},
+																								pos: position{line: 2854, col: 28, offset: 90641},
 																								expr: &notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91571},
+																									pos: position{line: 2897, col: 8, offset: 91594},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91572,
+																										line: 2897, col: 9, offset: 91595,
 																									},
 																								},
 																							},
@@ -23479,27 +23697,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1198, col: 23, offset: 37013},
+																			pos: position{line: 1199, col: 23, offset: 37036},
 																			run: (*parser).callonRelativeLink225,
 																			expr: &seqExpr{
-																				pos: position{line: 1198, col: 23, offset: 37013},
+																				pos: position{line: 1199, col: 23, offset: 37036},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36981},
+																						pos:        position{line: 1197, col: 32, offset: 37004},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1198, col: 51, offset: 37041},
+																						pos:   position{line: 1199, col: 51, offset: 37064},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1198, col: 56, offset: 37046},
+																							pos: position{line: 1199, col: 56, offset: 37069},
 																							run: (*parser).callonRelativeLink229,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1198, col: 56, offset: 37046},
+																								pos: position{line: 1199, col: 56, offset: 37069},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1198, col: 56, offset: 37046},
+																									pos:        position{line: 1199, col: 56, offset: 37069},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -23509,23 +23727,23 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36981},
+																						pos:        position{line: 1197, col: 32, offset: 37004},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1199, col: 5, offset: 37118},
+																						pos: position{line: 1200, col: 5, offset: 37141},
 																						run: (*parser).callonRelativeLink233,
 																					},
 																				},
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2856, col: 11, offset: 90738},
+																			pos: position{line: 2857, col: 11, offset: 90761},
 																			run: (*parser).callonRelativeLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2856, col: 11, offset: 90738},
+																				pos:        position{line: 2857, col: 11, offset: 90761},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23542,10 +23760,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1438, col: 28, offset: 46410},
+									pos:   position{line: 1439, col: 28, offset: 46433},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1438, col: 40, offset: 46422},
+										pos:  position{line: 1439, col: 40, offset: 46445},
 										name: "InlineAttributes",
 									},
 								},
@@ -23557,75 +23775,75 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalLink",
-			pos:  position{line: 1442, col: 1, offset: 46538},
+			pos:  position{line: 1443, col: 1, offset: 46561},
 			expr: &choiceExpr{
-				pos: position{line: 1445, col: 5, offset: 46700},
+				pos: position{line: 1446, col: 5, offset: 46723},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1445, col: 5, offset: 46700},
+						pos: position{line: 1446, col: 5, offset: 46723},
 						run: (*parser).callonExternalLink2,
 						expr: &seqExpr{
-							pos: position{line: 1445, col: 5, offset: 46700},
+							pos: position{line: 1446, col: 5, offset: 46723},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1445, col: 5, offset: 46700},
+									pos:        position{line: 1446, col: 5, offset: 46723},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1445, col: 9, offset: 46704},
+									pos:   position{line: 1446, col: 9, offset: 46727},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2839, col: 23, offset: 90109},
+										pos: position{line: 2840, col: 23, offset: 90132},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2839, col: 23, offset: 90109},
+											pos: position{line: 2840, col: 23, offset: 90132},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2839, col: 23, offset: 90109},
+													pos: position{line: 2840, col: 23, offset: 90132},
 													expr: &litMatcher{
-														pos:        position{line: 2839, col: 24, offset: 90110},
+														pos:        position{line: 2840, col: 24, offset: 90133},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2839, col: 28, offset: 90114},
+													pos:   position{line: 2840, col: 28, offset: 90137},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2843, col: 11, offset: 90228},
+														pos: position{line: 2844, col: 11, offset: 90251},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2843, col: 12, offset: 90229},
+															pos: position{line: 2844, col: 12, offset: 90252},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2843, col: 12, offset: 90229},
+																	pos:        position{line: 2844, col: 12, offset: 90252},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2843, col: 24, offset: 90241},
+																	pos:        position{line: 2844, col: 24, offset: 90264},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2843, col: 37, offset: 90254},
+																	pos:        position{line: 2844, col: 37, offset: 90277},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2843, col: 48, offset: 90265},
+																	pos:        position{line: 2844, col: 48, offset: 90288},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2843, col: 59, offset: 90276},
+																	pos:        position{line: 2844, col: 59, offset: 90299},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23635,38 +23853,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2839, col: 44, offset: 90130},
+													pos:   position{line: 2840, col: 44, offset: 90153},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2848, col: 5, offset: 90340},
+														pos: position{line: 2849, col: 5, offset: 90363},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2848, col: 5, offset: 90340},
+															pos:   position{line: 2849, col: 5, offset: 90363},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2848, col: 14, offset: 90349},
+																pos: position{line: 2849, col: 14, offset: 90372},
 																expr: &choiceExpr{
-																	pos: position{line: 2849, col: 9, offset: 90359},
+																	pos: position{line: 2850, col: 9, offset: 90382},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2849, col: 9, offset: 90359},
+																			pos: position{line: 2850, col: 9, offset: 90382},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2849, col: 9, offset: 90359},
+																				pos: position{line: 2850, col: 9, offset: 90382},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2849, col: 9, offset: 90359},
+																						pos: position{line: 2850, col: 9, offset: 90382},
 																						expr: &litMatcher{
-																							pos:        position{line: 2849, col: 10, offset: 90360},
+																							pos:        position{line: 2850, col: 10, offset: 90383},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2850, col: 9, offset: 90388},
+																						pos: position{line: 2851, col: 9, offset: 90411},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2850, col: 10, offset: 90389},
+																							pos:        position{line: 2851, col: 10, offset: 90412},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23677,27 +23895,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2853, col: 11, offset: 90601},
+																			pos: position{line: 2854, col: 11, offset: 90624},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2853, col: 11, offset: 90601},
+																					pos:        position{line: 2854, col: 11, offset: 90624},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2853, col: 19, offset: 90609},
+																					pos: position{line: 2854, col: 19, offset: 90632},
 																					expr: &seqExpr{
-																						pos: position{line: 2853, col: 21, offset: 90611},
+																						pos: position{line: 2854, col: 21, offset: 90634},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2853, col: 21, offset: 90611},
+																								pos: position{line: 2854, col: 21, offset: 90634},
 																								expr: &actionExpr{
-																									pos: position{line: 2877, col: 10, offset: 91223},
+																									pos: position{line: 2878, col: 10, offset: 91246},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 10, offset: 91223},
+																										pos:        position{line: 2878, col: 10, offset: 91246},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23706,11 +23924,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2853, col: 28, offset: 90618},
+																								pos: position{line: 2854, col: 28, offset: 90641},
 																								expr: &notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91571},
+																									pos: position{line: 2897, col: 8, offset: 91594},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91572,
+																										line: 2897, col: 9, offset: 91595,
 																									},
 																								},
 																							},
@@ -24066,27 +24284,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1198, col: 23, offset: 37013},
+																			pos: position{line: 1199, col: 23, offset: 37036},
 																			run: (*parser).callonExternalLink108,
 																			expr: &seqExpr{
-																				pos: position{line: 1198, col: 23, offset: 37013},
+																				pos: position{line: 1199, col: 23, offset: 37036},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36981},
+																						pos:        position{line: 1197, col: 32, offset: 37004},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1198, col: 51, offset: 37041},
+																						pos:   position{line: 1199, col: 51, offset: 37064},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1198, col: 56, offset: 37046},
+																							pos: position{line: 1199, col: 56, offset: 37069},
 																							run: (*parser).callonExternalLink112,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1198, col: 56, offset: 37046},
+																								pos: position{line: 1199, col: 56, offset: 37069},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1198, col: 56, offset: 37046},
+																									pos:        position{line: 1199, col: 56, offset: 37069},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -24096,23 +24314,23 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36981},
+																						pos:        position{line: 1197, col: 32, offset: 37004},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1199, col: 5, offset: 37118},
+																						pos: position{line: 1200, col: 5, offset: 37141},
 																						run: (*parser).callonExternalLink116,
 																					},
 																				},
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2856, col: 11, offset: 90738},
+																			pos: position{line: 2857, col: 11, offset: 90761},
 																			run: (*parser).callonExternalLink117,
 																			expr: &litMatcher{
-																				pos:        position{line: 2856, col: 11, offset: 90738},
+																				pos:        position{line: 2857, col: 11, offset: 90761},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24129,12 +24347,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1445, col: 34, offset: 46729},
+									pos:   position{line: 1446, col: 34, offset: 46752},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1445, col: 45, offset: 46740},
+										pos: position{line: 1446, col: 45, offset: 46763},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1445, col: 46, offset: 46741},
+											pos:  position{line: 1446, col: 46, offset: 46764},
 											name: "InlineAttributes",
 										},
 									},
@@ -24143,64 +24361,64 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1450, col: 5, offset: 46917},
+						pos: position{line: 1451, col: 5, offset: 46940},
 						run: (*parser).callonExternalLink122,
 						expr: &seqExpr{
-							pos: position{line: 1450, col: 5, offset: 46917},
+							pos: position{line: 1451, col: 5, offset: 46940},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1450, col: 5, offset: 46917},
+									pos:   position{line: 1451, col: 5, offset: 46940},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2839, col: 23, offset: 90109},
+										pos: position{line: 2840, col: 23, offset: 90132},
 										run: (*parser).callonExternalLink125,
 										expr: &seqExpr{
-											pos: position{line: 2839, col: 23, offset: 90109},
+											pos: position{line: 2840, col: 23, offset: 90132},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2839, col: 23, offset: 90109},
+													pos: position{line: 2840, col: 23, offset: 90132},
 													expr: &litMatcher{
-														pos:        position{line: 2839, col: 24, offset: 90110},
+														pos:        position{line: 2840, col: 24, offset: 90133},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2839, col: 28, offset: 90114},
+													pos:   position{line: 2840, col: 28, offset: 90137},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2843, col: 11, offset: 90228},
+														pos: position{line: 2844, col: 11, offset: 90251},
 														run: (*parser).callonExternalLink130,
 														expr: &choiceExpr{
-															pos: position{line: 2843, col: 12, offset: 90229},
+															pos: position{line: 2844, col: 12, offset: 90252},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2843, col: 12, offset: 90229},
+																	pos:        position{line: 2844, col: 12, offset: 90252},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2843, col: 24, offset: 90241},
+																	pos:        position{line: 2844, col: 24, offset: 90264},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2843, col: 37, offset: 90254},
+																	pos:        position{line: 2844, col: 37, offset: 90277},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2843, col: 48, offset: 90265},
+																	pos:        position{line: 2844, col: 48, offset: 90288},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2843, col: 59, offset: 90276},
+																	pos:        position{line: 2844, col: 59, offset: 90299},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24210,38 +24428,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2839, col: 44, offset: 90130},
+													pos:   position{line: 2840, col: 44, offset: 90153},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2848, col: 5, offset: 90340},
+														pos: position{line: 2849, col: 5, offset: 90363},
 														run: (*parser).callonExternalLink138,
 														expr: &labeledExpr{
-															pos:   position{line: 2848, col: 5, offset: 90340},
+															pos:   position{line: 2849, col: 5, offset: 90363},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2848, col: 14, offset: 90349},
+																pos: position{line: 2849, col: 14, offset: 90372},
 																expr: &choiceExpr{
-																	pos: position{line: 2849, col: 9, offset: 90359},
+																	pos: position{line: 2850, col: 9, offset: 90382},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2849, col: 9, offset: 90359},
+																			pos: position{line: 2850, col: 9, offset: 90382},
 																			run: (*parser).callonExternalLink142,
 																			expr: &seqExpr{
-																				pos: position{line: 2849, col: 9, offset: 90359},
+																				pos: position{line: 2850, col: 9, offset: 90382},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2849, col: 9, offset: 90359},
+																						pos: position{line: 2850, col: 9, offset: 90382},
 																						expr: &litMatcher{
-																							pos:        position{line: 2849, col: 10, offset: 90360},
+																							pos:        position{line: 2850, col: 10, offset: 90383},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2850, col: 9, offset: 90388},
+																						pos: position{line: 2851, col: 9, offset: 90411},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2850, col: 10, offset: 90389},
+																							pos:        position{line: 2851, col: 10, offset: 90412},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24252,27 +24470,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2853, col: 11, offset: 90601},
+																			pos: position{line: 2854, col: 11, offset: 90624},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2853, col: 11, offset: 90601},
+																					pos:        position{line: 2854, col: 11, offset: 90624},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2853, col: 19, offset: 90609},
+																					pos: position{line: 2854, col: 19, offset: 90632},
 																					expr: &seqExpr{
-																						pos: position{line: 2853, col: 21, offset: 90611},
+																						pos: position{line: 2854, col: 21, offset: 90634},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2853, col: 21, offset: 90611},
+																								pos: position{line: 2854, col: 21, offset: 90634},
 																								expr: &actionExpr{
-																									pos: position{line: 2877, col: 10, offset: 91223},
+																									pos: position{line: 2878, col: 10, offset: 91246},
 																									run: (*parser).callonExternalLink153,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 10, offset: 91223},
+																										pos:        position{line: 2878, col: 10, offset: 91246},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24281,11 +24499,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2853, col: 28, offset: 90618},
+																								pos: position{line: 2854, col: 28, offset: 90641},
 																								expr: &notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91571},
+																									pos: position{line: 2897, col: 8, offset: 91594},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91572,
+																										line: 2897, col: 9, offset: 91595,
 																									},
 																								},
 																							},
@@ -24641,27 +24859,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1198, col: 23, offset: 37013},
+																			pos: position{line: 1199, col: 23, offset: 37036},
 																			run: (*parser).callonExternalLink227,
 																			expr: &seqExpr{
-																				pos: position{line: 1198, col: 23, offset: 37013},
+																				pos: position{line: 1199, col: 23, offset: 37036},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36981},
+																						pos:        position{line: 1197, col: 32, offset: 37004},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1198, col: 51, offset: 37041},
+																						pos:   position{line: 1199, col: 51, offset: 37064},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1198, col: 56, offset: 37046},
+																							pos: position{line: 1199, col: 56, offset: 37069},
 																							run: (*parser).callonExternalLink231,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1198, col: 56, offset: 37046},
+																								pos: position{line: 1199, col: 56, offset: 37069},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1198, col: 56, offset: 37046},
+																									pos:        position{line: 1199, col: 56, offset: 37069},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -24671,23 +24889,23 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36981},
+																						pos:        position{line: 1197, col: 32, offset: 37004},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1199, col: 5, offset: 37118},
+																						pos: position{line: 1200, col: 5, offset: 37141},
 																						run: (*parser).callonExternalLink235,
 																					},
 																				},
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2856, col: 11, offset: 90738},
+																			pos: position{line: 2857, col: 11, offset: 90761},
 																			run: (*parser).callonExternalLink236,
 																			expr: &litMatcher{
-																				pos:        position{line: 2856, col: 11, offset: 90738},
+																				pos:        position{line: 2857, col: 11, offset: 90761},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24704,12 +24922,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1450, col: 30, offset: 46942},
+									pos:   position{line: 1451, col: 30, offset: 46965},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1450, col: 41, offset: 46953},
+										pos: position{line: 1451, col: 41, offset: 46976},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1450, col: 42, offset: 46954},
+											pos:  position{line: 1451, col: 42, offset: 46977},
 											name: "InlineAttributes",
 										},
 									},
@@ -24722,41 +24940,41 @@ var g = &grammar{
 		},
 		{
 			name: "ListElements",
-			pos:  position{line: 1481, col: 1, offset: 48084},
+			pos:  position{line: 1482, col: 1, offset: 48107},
 			expr: &actionExpr{
-				pos: position{line: 1482, col: 5, offset: 48105},
+				pos: position{line: 1483, col: 5, offset: 48128},
 				run: (*parser).callonListElements1,
 				expr: &seqExpr{
-					pos: position{line: 1482, col: 5, offset: 48105},
+					pos: position{line: 1483, col: 5, offset: 48128},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1482, col: 5, offset: 48105},
+							pos:   position{line: 1483, col: 5, offset: 48128},
 							label: "firstElement",
 							expr: &choiceExpr{
-								pos: position{line: 1488, col: 5, offset: 48307},
+								pos: position{line: 1489, col: 5, offset: 48330},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1581, col: 5, offset: 51241},
+										pos: position{line: 1582, col: 5, offset: 51264},
 										run: (*parser).callonListElements5,
 										expr: &seqExpr{
-											pos: position{line: 1581, col: 5, offset: 51241},
+											pos: position{line: 1582, col: 5, offset: 51264},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1581, col: 5, offset: 51241},
+													pos:   position{line: 1582, col: 5, offset: 51264},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1588, col: 5, offset: 51449},
+														pos: position{line: 1589, col: 5, offset: 51472},
 														run: (*parser).callonListElements8,
 														expr: &seqExpr{
-															pos: position{line: 1588, col: 5, offset: 51449},
+															pos: position{line: 1589, col: 5, offset: 51472},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1588, col: 5, offset: 51449},
+																	pos: position{line: 1589, col: 5, offset: 51472},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91223},
+																		pos: position{line: 2878, col: 10, offset: 91246},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91223},
+																			pos:        position{line: 2878, col: 10, offset: 91246},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24765,27 +24983,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1588, col: 12, offset: 51456},
+																	pos:   position{line: 1589, col: 12, offset: 51479},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1590, col: 9, offset: 51519},
+																		pos: position{line: 1591, col: 9, offset: 51542},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1590, col: 9, offset: 51519},
+																				pos: position{line: 1591, col: 9, offset: 51542},
 																				run: (*parser).callonListElements15,
 																				expr: &seqExpr{
-																					pos: position{line: 1590, col: 9, offset: 51519},
+																					pos: position{line: 1591, col: 9, offset: 51542},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1590, col: 9, offset: 51519},
+																							pos:   position{line: 1591, col: 9, offset: 51542},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1590, col: 16, offset: 51526},
+																								pos: position{line: 1591, col: 16, offset: 51549},
 																								run: (*parser).callonListElements18,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1590, col: 16, offset: 51526},
+																									pos: position{line: 1591, col: 16, offset: 51549},
 																									expr: &litMatcher{
-																										pos:        position{line: 1590, col: 17, offset: 51527},
+																										pos:        position{line: 1591, col: 17, offset: 51550},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -24794,22 +25012,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1594, col: 9, offset: 51627},
+																							pos: position{line: 1595, col: 9, offset: 51650},
 																							run: (*parser).callonListElements21,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1613, col: 11, offset: 52344},
+																				pos: position{line: 1614, col: 11, offset: 52367},
 																				run: (*parser).callonListElements22,
 																				expr: &seqExpr{
-																					pos: position{line: 1613, col: 11, offset: 52344},
+																					pos: position{line: 1614, col: 11, offset: 52367},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1613, col: 11, offset: 52344},
+																							pos: position{line: 1614, col: 11, offset: 52367},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1613, col: 12, offset: 52345},
+																								pos:        position{line: 1614, col: 12, offset: 52368},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -24817,7 +25035,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1613, col: 20, offset: 52353},
+																							pos:        position{line: 1614, col: 20, offset: 52376},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24826,20 +25044,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1615, col: 13, offset: 52470},
+																				pos: position{line: 1616, col: 13, offset: 52493},
 																				run: (*parser).callonListElements27,
 																				expr: &seqExpr{
-																					pos: position{line: 1615, col: 13, offset: 52470},
+																					pos: position{line: 1616, col: 13, offset: 52493},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1615, col: 14, offset: 52471},
+																							pos:        position{line: 1616, col: 14, offset: 52494},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1615, col: 21, offset: 52478},
+																							pos:        position{line: 1616, col: 21, offset: 52501},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24848,20 +25066,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1617, col: 13, offset: 52598},
+																				pos: position{line: 1618, col: 13, offset: 52621},
 																				run: (*parser).callonListElements31,
 																				expr: &seqExpr{
-																					pos: position{line: 1617, col: 13, offset: 52598},
+																					pos: position{line: 1618, col: 13, offset: 52621},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1617, col: 14, offset: 52599},
+																							pos:        position{line: 1618, col: 14, offset: 52622},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1617, col: 21, offset: 52606},
+																							pos:        position{line: 1618, col: 21, offset: 52629},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24870,15 +25088,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1619, col: 13, offset: 52726},
+																				pos: position{line: 1620, col: 13, offset: 52749},
 																				run: (*parser).callonListElements35,
 																				expr: &seqExpr{
-																					pos: position{line: 1619, col: 13, offset: 52726},
+																					pos: position{line: 1620, col: 13, offset: 52749},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1619, col: 13, offset: 52726},
+																							pos: position{line: 1620, col: 13, offset: 52749},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1619, col: 14, offset: 52727},
+																								pos:        position{line: 1620, col: 14, offset: 52750},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -24886,7 +25104,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1619, col: 26, offset: 52739},
+																							pos:        position{line: 1620, col: 26, offset: 52762},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -24895,15 +25113,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1621, col: 13, offset: 52859},
+																				pos: position{line: 1622, col: 13, offset: 52882},
 																				run: (*parser).callonListElements40,
 																				expr: &seqExpr{
-																					pos: position{line: 1621, col: 13, offset: 52859},
+																					pos: position{line: 1622, col: 13, offset: 52882},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1621, col: 13, offset: 52859},
+																							pos: position{line: 1622, col: 13, offset: 52882},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1621, col: 14, offset: 52860},
+																								pos:        position{line: 1622, col: 14, offset: 52883},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -24911,7 +25129,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1621, col: 26, offset: 52872},
+																							pos:        position{line: 1622, col: 26, offset: 52895},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -24923,12 +25141,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2881, col: 11, offset: 91284},
+																	pos: position{line: 2882, col: 11, offset: 91307},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2881, col: 11, offset: 91284},
+																		pos: position{line: 2882, col: 11, offset: 91307},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2881, col: 11, offset: 91284},
+																			pos:        position{line: 2882, col: 11, offset: 91307},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24941,26 +25159,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1582, col: 5, offset: 51280},
+													pos:   position{line: 1583, col: 5, offset: 51303},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1529, col: 5, offset: 49747},
+														pos: position{line: 1530, col: 5, offset: 49770},
 														run: (*parser).callonListElements49,
 														expr: &seqExpr{
-															pos: position{line: 1529, col: 5, offset: 49747},
+															pos: position{line: 1530, col: 5, offset: 49770},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1529, col: 5, offset: 49747},
+																	pos:   position{line: 1530, col: 5, offset: 49770},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1529, col: 14, offset: 49756},
+																		pos: position{line: 1530, col: 14, offset: 49779},
 																		expr: &actionExpr{
-																			pos: position{line: 1529, col: 15, offset: 49757},
+																			pos: position{line: 1530, col: 15, offset: 49780},
 																			run: (*parser).callonListElements53,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1529, col: 15, offset: 49757},
+																				pos: position{line: 1530, col: 15, offset: 49780},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1529, col: 15, offset: 49757},
+																					pos:        position{line: 1530, col: 15, offset: 49780},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -24971,28 +25189,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91621},
+																	pos: position{line: 2900, col: 8, offset: 91644},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91394},
+																			pos: position{line: 2887, col: 12, offset: 91417},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91395},
+																				pos: position{line: 2887, col: 13, offset: 91418},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91395},
+																						pos:        position{line: 2887, col: 13, offset: 91418},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91402},
+																						pos:        position{line: 2887, col: 20, offset: 91425},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91411},
+																						pos:        position{line: 2887, col: 29, offset: 91434},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25001,9 +25219,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91571},
+																			pos: position{line: 2897, col: 8, offset: 91594},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91572,
+																				line: 2897, col: 9, offset: 91595,
 																			},
 																		},
 																	},
@@ -25016,27 +25234,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1631, col: 5, offset: 53138},
+										pos: position{line: 1632, col: 5, offset: 53161},
 										run: (*parser).callonListElements64,
 										expr: &seqExpr{
-											pos: position{line: 1631, col: 5, offset: 53138},
+											pos: position{line: 1632, col: 5, offset: 53161},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1631, col: 5, offset: 53138},
+													pos:   position{line: 1632, col: 5, offset: 53161},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1638, col: 5, offset: 53411},
+														pos: position{line: 1639, col: 5, offset: 53434},
 														run: (*parser).callonListElements67,
 														expr: &seqExpr{
-															pos: position{line: 1638, col: 5, offset: 53411},
+															pos: position{line: 1639, col: 5, offset: 53434},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1638, col: 5, offset: 53411},
+																	pos: position{line: 1639, col: 5, offset: 53434},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91223},
+																		pos: position{line: 2878, col: 10, offset: 91246},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91223},
+																			pos:        position{line: 2878, col: 10, offset: 91246},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25045,24 +25263,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1639, col: 5, offset: 53423},
+																	pos:   position{line: 1640, col: 5, offset: 53446},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1640, col: 9, offset: 53439},
+																		pos: position{line: 1641, col: 9, offset: 53462},
 																		run: (*parser).callonListElements73,
 																		expr: &choiceExpr{
-																			pos: position{line: 1640, col: 10, offset: 53440},
+																			pos: position{line: 1641, col: 10, offset: 53463},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1640, col: 11, offset: 53441},
+																					pos:        position{line: 1641, col: 11, offset: 53464},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1640, col: 18, offset: 53448},
+																					pos: position{line: 1641, col: 18, offset: 53471},
 																					expr: &litMatcher{
-																						pos:        position{line: 1640, col: 19, offset: 53449},
+																						pos:        position{line: 1641, col: 19, offset: 53472},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -25073,16 +25291,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1643, col: 7, offset: 53539},
+																	pos: position{line: 1644, col: 7, offset: 53562},
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2881, col: 11, offset: 91284},
+																	pos: position{line: 2882, col: 11, offset: 91307},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2881, col: 11, offset: 91284},
+																		pos: position{line: 2882, col: 11, offset: 91307},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2881, col: 11, offset: 91284},
+																			pos:        position{line: 2882, col: 11, offset: 91307},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25095,56 +25313,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1632, col: 5, offset: 53179},
+													pos:   position{line: 1633, col: 5, offset: 53202},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1632, col: 16, offset: 53190},
+														pos: position{line: 1633, col: 16, offset: 53213},
 														expr: &actionExpr{
-															pos: position{line: 1653, col: 5, offset: 53804},
+															pos: position{line: 1654, col: 5, offset: 53827},
 															run: (*parser).callonListElements84,
 															expr: &seqExpr{
-																pos: position{line: 1653, col: 5, offset: 53804},
+																pos: position{line: 1654, col: 5, offset: 53827},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1653, col: 5, offset: 53804},
+																		pos: position{line: 1654, col: 5, offset: 53827},
 																		expr: &litMatcher{
-																			pos:        position{line: 1653, col: 6, offset: 53805},
+																			pos:        position{line: 1654, col: 6, offset: 53828},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1653, col: 10, offset: 53809},
+																		pos:   position{line: 1654, col: 10, offset: 53832},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1654, col: 7, offset: 53823},
+																			pos: position{line: 1655, col: 7, offset: 53846},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1654, col: 7, offset: 53823},
+																					pos: position{line: 1655, col: 7, offset: 53846},
 																					run: (*parser).callonListElements90,
 																					expr: &litMatcher{
-																						pos:        position{line: 1654, col: 7, offset: 53823},
+																						pos:        position{line: 1655, col: 7, offset: 53846},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1655, col: 7, offset: 53868},
+																					pos: position{line: 1656, col: 7, offset: 53891},
 																					run: (*parser).callonListElements92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1655, col: 7, offset: 53868},
+																						pos:        position{line: 1656, col: 7, offset: 53891},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1656, col: 7, offset: 53911},
+																					pos: position{line: 1657, col: 7, offset: 53934},
 																					run: (*parser).callonListElements94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1656, col: 7, offset: 53911},
+																						pos:        position{line: 1657, col: 7, offset: 53934},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -25154,12 +25372,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2881, col: 11, offset: 91284},
+																		pos: position{line: 2882, col: 11, offset: 91307},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2881, col: 11, offset: 91284},
+																			pos: position{line: 2882, col: 11, offset: 91307},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2881, col: 11, offset: 91284},
+																				pos:        position{line: 2882, col: 11, offset: 91307},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -25173,26 +25391,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1633, col: 5, offset: 53229},
+													pos:   position{line: 1634, col: 5, offset: 53252},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1529, col: 5, offset: 49747},
+														pos: position{line: 1530, col: 5, offset: 49770},
 														run: (*parser).callonListElements100,
 														expr: &seqExpr{
-															pos: position{line: 1529, col: 5, offset: 49747},
+															pos: position{line: 1530, col: 5, offset: 49770},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1529, col: 5, offset: 49747},
+																	pos:   position{line: 1530, col: 5, offset: 49770},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1529, col: 14, offset: 49756},
+																		pos: position{line: 1530, col: 14, offset: 49779},
 																		expr: &actionExpr{
-																			pos: position{line: 1529, col: 15, offset: 49757},
+																			pos: position{line: 1530, col: 15, offset: 49780},
 																			run: (*parser).callonListElements104,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1529, col: 15, offset: 49757},
+																				pos: position{line: 1530, col: 15, offset: 49780},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1529, col: 15, offset: 49757},
+																					pos:        position{line: 1530, col: 15, offset: 49780},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25203,28 +25421,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91621},
+																	pos: position{line: 2900, col: 8, offset: 91644},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91394},
+																			pos: position{line: 2887, col: 12, offset: 91417},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91395},
+																				pos: position{line: 2887, col: 13, offset: 91418},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91395},
+																						pos:        position{line: 2887, col: 13, offset: 91418},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91402},
+																						pos:        position{line: 2887, col: 20, offset: 91425},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91411},
+																						pos:        position{line: 2887, col: 29, offset: 91434},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25233,9 +25451,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91571},
+																			pos: position{line: 2897, col: 8, offset: 91594},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91572,
+																				line: 2897, col: 9, offset: 91595,
 																			},
 																		},
 																	},
@@ -25248,36 +25466,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1722, col: 5, offset: 55783},
+										pos: position{line: 1723, col: 5, offset: 55806},
 										run: (*parser).callonListElements115,
 										expr: &seqExpr{
-											pos: position{line: 1722, col: 5, offset: 55783},
+											pos: position{line: 1723, col: 5, offset: 55806},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1722, col: 5, offset: 55783},
+													pos:   position{line: 1723, col: 5, offset: 55806},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1728, col: 5, offset: 55980},
+														pos: position{line: 1729, col: 5, offset: 56003},
 														run: (*parser).callonListElements118,
 														expr: &seqExpr{
-															pos: position{line: 1728, col: 5, offset: 55980},
+															pos: position{line: 1729, col: 5, offset: 56003},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1728, col: 5, offset: 55980},
+																	pos:        position{line: 1729, col: 5, offset: 56003},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1728, col: 9, offset: 55984},
+																	pos:   position{line: 1729, col: 9, offset: 56007},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1728, col: 14, offset: 55989},
+																		pos: position{line: 1729, col: 14, offset: 56012},
 																		run: (*parser).callonListElements122,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1728, col: 14, offset: 55989},
+																			pos: position{line: 1729, col: 14, offset: 56012},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1728, col: 14, offset: 55989},
+																				pos:        position{line: 1729, col: 14, offset: 56012},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -25287,18 +25505,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1728, col: 62, offset: 56037},
+																	pos:        position{line: 1729, col: 62, offset: 56060},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2881, col: 11, offset: 91284},
+																	pos: position{line: 2882, col: 11, offset: 91307},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2881, col: 11, offset: 91284},
+																		pos: position{line: 2882, col: 11, offset: 91307},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2881, col: 11, offset: 91284},
+																			pos:        position{line: 2882, col: 11, offset: 91307},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25311,26 +25529,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1723, col: 5, offset: 55819},
+													pos:   position{line: 1724, col: 5, offset: 55842},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1529, col: 5, offset: 49747},
+														pos: position{line: 1530, col: 5, offset: 49770},
 														run: (*parser).callonListElements130,
 														expr: &seqExpr{
-															pos: position{line: 1529, col: 5, offset: 49747},
+															pos: position{line: 1530, col: 5, offset: 49770},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1529, col: 5, offset: 49747},
+																	pos:   position{line: 1530, col: 5, offset: 49770},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1529, col: 14, offset: 49756},
+																		pos: position{line: 1530, col: 14, offset: 49779},
 																		expr: &actionExpr{
-																			pos: position{line: 1529, col: 15, offset: 49757},
+																			pos: position{line: 1530, col: 15, offset: 49780},
 																			run: (*parser).callonListElements134,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1529, col: 15, offset: 49757},
+																				pos: position{line: 1530, col: 15, offset: 49780},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1529, col: 15, offset: 49757},
+																					pos:        position{line: 1530, col: 15, offset: 49780},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25341,28 +25559,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91621},
+																	pos: position{line: 2900, col: 8, offset: 91644},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91394},
+																			pos: position{line: 2887, col: 12, offset: 91417},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91395},
+																				pos: position{line: 2887, col: 13, offset: 91418},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91395},
+																						pos:        position{line: 2887, col: 13, offset: 91418},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91402},
+																						pos:        position{line: 2887, col: 20, offset: 91425},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91411},
+																						pos:        position{line: 2887, col: 29, offset: 91434},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25371,9 +25589,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91571},
+																			pos: position{line: 2897, col: 8, offset: 91594},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91572,
+																				line: 2897, col: 9, offset: 91595,
 																			},
 																		},
 																	},
@@ -25386,35 +25604,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1665, col: 5, offset: 54104},
+										pos: position{line: 1666, col: 5, offset: 54127},
 										run: (*parser).callonListElements145,
 										expr: &seqExpr{
-											pos: position{line: 1665, col: 5, offset: 54104},
+											pos: position{line: 1666, col: 5, offset: 54127},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1665, col: 5, offset: 54104},
+													pos:   position{line: 1666, col: 5, offset: 54127},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1673, col: 5, offset: 54430},
+														pos: position{line: 1674, col: 5, offset: 54453},
 														run: (*parser).callonListElements148,
 														expr: &seqExpr{
-															pos: position{line: 1673, col: 5, offset: 54430},
+															pos: position{line: 1674, col: 5, offset: 54453},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1673, col: 5, offset: 54430},
+																	pos: position{line: 1674, col: 5, offset: 54453},
 																	expr: &seqExpr{
-																		pos: position{line: 2489, col: 31, offset: 80330},
+																		pos: position{line: 2490, col: 31, offset: 80353},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2489, col: 31, offset: 80330},
+																				pos:        position{line: 2490, col: 31, offset: 80353},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2489, col: 36, offset: 80335},
+																				pos: position{line: 2490, col: 36, offset: 80358},
 																				expr: &litMatcher{
-																					pos:        position{line: 2489, col: 37, offset: 80336},
+																					pos:        position{line: 2490, col: 37, offset: 80359},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
@@ -25424,28 +25642,28 @@ var g = &grammar{
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 1674, col: 5, offset: 54462},
+																	pos: position{line: 1675, col: 5, offset: 54485},
 																	expr: &seqExpr{
-																		pos: position{line: 1674, col: 6, offset: 54463},
+																		pos: position{line: 1675, col: 6, offset: 54486},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1674, col: 6, offset: 54463},
+																				pos: position{line: 1675, col: 6, offset: 54486},
 																				expr: &actionExpr{
-																					pos: position{line: 1679, col: 5, offset: 54613},
+																					pos: position{line: 1680, col: 5, offset: 54636},
 																					run: (*parser).callonListElements158,
 																					expr: &seqExpr{
-																						pos: position{line: 1679, col: 5, offset: 54613},
+																						pos: position{line: 1680, col: 5, offset: 54636},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1679, col: 5, offset: 54613},
+																								pos:   position{line: 1680, col: 5, offset: 54636},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1679, col: 16, offset: 54624},
+																									pos: position{line: 1680, col: 16, offset: 54647},
 																									run: (*parser).callonListElements161,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1679, col: 16, offset: 54624},
+																										pos: position{line: 1680, col: 16, offset: 54647},
 																										expr: &litMatcher{
-																											pos:        position{line: 1679, col: 17, offset: 54625},
+																											pos:        position{line: 1680, col: 17, offset: 54648},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -25454,7 +25672,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1682, col: 5, offset: 54682},
+																								pos: position{line: 1683, col: 5, offset: 54705},
 																								run: (*parser).callonListElements164,
 																							},
 																						},
@@ -25462,30 +25680,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1674, col: 35, offset: 54492},
+																				pos: position{line: 1675, col: 35, offset: 54515},
 																				expr: &choiceExpr{
-																					pos: position{line: 2899, col: 8, offset: 91621},
+																					pos: position{line: 2900, col: 8, offset: 91644},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2886, col: 12, offset: 91394},
+																							pos: position{line: 2887, col: 12, offset: 91417},
 																							run: (*parser).callonListElements167,
 																							expr: &choiceExpr{
-																								pos: position{line: 2886, col: 13, offset: 91395},
+																								pos: position{line: 2887, col: 13, offset: 91418},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 13, offset: 91395},
+																										pos:        position{line: 2887, col: 13, offset: 91418},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 20, offset: 91402},
+																										pos:        position{line: 2887, col: 20, offset: 91425},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 29, offset: 91411},
+																										pos:        position{line: 2887, col: 29, offset: 91434},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -25494,16 +25712,16 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2896, col: 8, offset: 91571},
+																							pos: position{line: 2897, col: 8, offset: 91594},
 																							expr: &anyMatcher{
-																								line: 2896, col: 9, offset: 91572,
+																								line: 2897, col: 9, offset: 91595,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1674, col: 40, offset: 54497,
+																				line: 1675, col: 40, offset: 54520,
 																			},
 																		},
 																	},
@@ -25513,24 +25731,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1666, col: 5, offset: 54139},
+													pos:   position{line: 1667, col: 5, offset: 54162},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1679, col: 5, offset: 54613},
+														pos: position{line: 1680, col: 5, offset: 54636},
 														run: (*parser).callonListElements176,
 														expr: &seqExpr{
-															pos: position{line: 1679, col: 5, offset: 54613},
+															pos: position{line: 1680, col: 5, offset: 54636},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1679, col: 5, offset: 54613},
+																	pos:   position{line: 1680, col: 5, offset: 54636},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1679, col: 16, offset: 54624},
+																		pos: position{line: 1680, col: 16, offset: 54647},
 																		run: (*parser).callonListElements179,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1679, col: 16, offset: 54624},
+																			pos: position{line: 1680, col: 16, offset: 54647},
 																			expr: &litMatcher{
-																				pos:        position{line: 1679, col: 17, offset: 54625},
+																				pos:        position{line: 1680, col: 17, offset: 54648},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -25539,7 +25757,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1682, col: 5, offset: 54682},
+																	pos: position{line: 1683, col: 5, offset: 54705},
 																	run: (*parser).callonListElements182,
 																},
 															},
@@ -25547,24 +25765,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1667, col: 5, offset: 54184},
+													pos:   position{line: 1668, col: 5, offset: 54207},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1690, col: 5, offset: 54931},
+														pos: position{line: 1691, col: 5, offset: 54954},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1692, col: 9, offset: 54997},
+																pos: position{line: 1693, col: 9, offset: 55020},
 																run: (*parser).callonListElements185,
 																expr: &seqExpr{
-																	pos: position{line: 1692, col: 9, offset: 54997},
+																	pos: position{line: 1693, col: 9, offset: 55020},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1692, col: 9, offset: 54997},
+																			pos: position{line: 1693, col: 9, offset: 55020},
 																			expr: &actionExpr{
-																				pos: position{line: 2877, col: 10, offset: 91223},
+																				pos: position{line: 2878, col: 10, offset: 91246},
 																				run: (*parser).callonListElements188,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 10, offset: 91223},
+																					pos:        position{line: 2878, col: 10, offset: 91246},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25573,28 +25791,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2899, col: 8, offset: 91621},
+																			pos: position{line: 2900, col: 8, offset: 91644},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2886, col: 12, offset: 91394},
+																					pos: position{line: 2887, col: 12, offset: 91417},
 																					run: (*parser).callonListElements191,
 																					expr: &choiceExpr{
-																						pos: position{line: 2886, col: 13, offset: 91395},
+																						pos: position{line: 2887, col: 13, offset: 91418},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 13, offset: 91395},
+																								pos:        position{line: 2887, col: 13, offset: 91418},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 20, offset: 91402},
+																								pos:        position{line: 2887, col: 20, offset: 91425},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 29, offset: 91411},
+																								pos:        position{line: 2887, col: 29, offset: 91434},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25603,15 +25821,15 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91571},
+																					pos: position{line: 2897, col: 8, offset: 91594},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91572,
+																						line: 2897, col: 9, offset: 91595,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1693, col: 9, offset: 55016},
+																			pos: position{line: 1694, col: 9, offset: 55039},
 																			expr: &actionExpr{
 																				pos: position{line: 677, col: 14, offset: 21525},
 																				run: (*parser).callonListElements199,
@@ -25619,18 +25837,18 @@ var g = &grammar{
 																					pos: position{line: 677, col: 14, offset: 21525},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2894, col: 11, offset: 91557},
+																							pos: position{line: 2895, col: 11, offset: 91580},
 																							expr: &anyMatcher{
-																								line: 2894, col: 13, offset: 91559,
+																								line: 2895, col: 13, offset: 91582,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 677, col: 21, offset: 21532},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91223},
+																								pos: position{line: 2878, col: 10, offset: 91246},
 																								run: (*parser).callonListElements204,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91223},
+																									pos:        position{line: 2878, col: 10, offset: 91246},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25639,28 +25857,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91621},
+																							pos: position{line: 2900, col: 8, offset: 91644},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91394},
+																									pos: position{line: 2887, col: 12, offset: 91417},
 																									run: (*parser).callonListElements207,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91395},
+																										pos: position{line: 2887, col: 13, offset: 91418},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91395},
+																												pos:        position{line: 2887, col: 13, offset: 91418},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91402},
+																												pos:        position{line: 2887, col: 20, offset: 91425},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91411},
+																												pos:        position{line: 2887, col: 29, offset: 91434},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25669,9 +25887,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91571},
+																									pos: position{line: 2897, col: 8, offset: 91594},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91572,
+																										line: 2897, col: 9, offset: 91595,
 																									},
 																								},
 																							},
@@ -25684,18 +25902,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1699, col: 9, offset: 55145},
+																pos: position{line: 1700, col: 9, offset: 55168},
 																run: (*parser).callonListElements214,
 																expr: &seqExpr{
-																	pos: position{line: 1699, col: 9, offset: 55145},
+																	pos: position{line: 1700, col: 9, offset: 55168},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2881, col: 11, offset: 91284},
+																			pos: position{line: 2882, col: 11, offset: 91307},
 																			run: (*parser).callonListElements216,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2881, col: 11, offset: 91284},
+																				pos: position{line: 2882, col: 11, offset: 91307},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2881, col: 11, offset: 91284},
+																					pos:        position{line: 2882, col: 11, offset: 91307},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25704,15 +25922,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1700, col: 9, offset: 55218},
+																			pos:   position{line: 1701, col: 9, offset: 55241},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1700, col: 18, offset: 55227},
+																				pos: position{line: 1701, col: 18, offset: 55250},
 																				run: (*parser).callonListElements220,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1700, col: 18, offset: 55227},
+																					pos: position{line: 1701, col: 18, offset: 55250},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1700, col: 18, offset: 55227},
+																						pos:        position{line: 1701, col: 18, offset: 55250},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -25722,28 +25940,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2899, col: 8, offset: 91621},
+																			pos: position{line: 2900, col: 8, offset: 91644},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2886, col: 12, offset: 91394},
+																					pos: position{line: 2887, col: 12, offset: 91417},
 																					run: (*parser).callonListElements224,
 																					expr: &choiceExpr{
-																						pos: position{line: 2886, col: 13, offset: 91395},
+																						pos: position{line: 2887, col: 13, offset: 91418},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 13, offset: 91395},
+																								pos:        position{line: 2887, col: 13, offset: 91418},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 20, offset: 91402},
+																								pos:        position{line: 2887, col: 20, offset: 91425},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 29, offset: 91411},
+																								pos:        position{line: 2887, col: 29, offset: 91434},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25752,9 +25970,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91571},
+																					pos: position{line: 2897, col: 8, offset: 91594},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91572,
+																						line: 2897, col: 9, offset: 91595,
 																					},
 																				},
 																			},
@@ -25772,10 +25990,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1483, col: 5, offset: 48136},
+							pos:   position{line: 1484, col: 5, offset: 48159},
 							label: "extraElements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1483, col: 20, offset: 48151},
+								pos:  position{line: 1484, col: 20, offset: 48174},
 								name: "ExtraListElements",
 							},
 						},
@@ -25785,17 +26003,17 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElements",
-			pos:  position{line: 1493, col: 1, offset: 48406},
+			pos:  position{line: 1494, col: 1, offset: 48429},
 			expr: &actionExpr{
-				pos: position{line: 1493, col: 22, offset: 48427},
+				pos: position{line: 1494, col: 22, offset: 48450},
 				run: (*parser).callonExtraListElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1493, col: 22, offset: 48427},
+					pos:   position{line: 1494, col: 22, offset: 48450},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1493, col: 31, offset: 48436},
+						pos: position{line: 1494, col: 31, offset: 48459},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1493, col: 32, offset: 48437},
+							pos:  position{line: 1494, col: 32, offset: 48460},
 							name: "ExtraListElement",
 						},
 					},
@@ -25804,33 +26022,33 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElement",
-			pos:  position{line: 1497, col: 1, offset: 48517},
+			pos:  position{line: 1498, col: 1, offset: 48540},
 			expr: &actionExpr{
-				pos: position{line: 1498, col: 5, offset: 48656},
+				pos: position{line: 1499, col: 5, offset: 48679},
 				run: (*parser).callonExtraListElement1,
 				expr: &seqExpr{
-					pos: position{line: 1498, col: 5, offset: 48656},
+					pos: position{line: 1499, col: 5, offset: 48679},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2894, col: 11, offset: 91557},
+							pos: position{line: 2895, col: 11, offset: 91580},
 							expr: &anyMatcher{
-								line: 2894, col: 13, offset: 91559,
+								line: 2895, col: 13, offset: 91582,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1499, col: 5, offset: 48668},
+							pos:   position{line: 1500, col: 5, offset: 48691},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1500, col: 9, offset: 48686},
+								pos: position{line: 1501, col: 9, offset: 48709},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1500, col: 13, offset: 48690},
+										pos: position{line: 1501, col: 13, offset: 48713},
 										run: (*parser).callonExtraListElement7,
 										expr: &seqExpr{
-											pos: position{line: 1500, col: 13, offset: 48690},
+											pos: position{line: 1501, col: 13, offset: 48713},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 1500, col: 13, offset: 48690},
+													pos: position{line: 1501, col: 13, offset: 48713},
 													expr: &actionExpr{
 														pos: position{line: 677, col: 14, offset: 21525},
 														run: (*parser).callonExtraListElement10,
@@ -25838,18 +26056,18 @@ var g = &grammar{
 															pos: position{line: 677, col: 14, offset: 21525},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2894, col: 11, offset: 91557},
+																	pos: position{line: 2895, col: 11, offset: 91580},
 																	expr: &anyMatcher{
-																		line: 2894, col: 13, offset: 91559,
+																		line: 2895, col: 13, offset: 91582,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 677, col: 21, offset: 21532},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91223},
+																		pos: position{line: 2878, col: 10, offset: 91246},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91223},
+																			pos:        position{line: 2878, col: 10, offset: 91246},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25858,28 +26076,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91621},
+																	pos: position{line: 2900, col: 8, offset: 91644},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91394},
+																			pos: position{line: 2887, col: 12, offset: 91417},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91395},
+																				pos: position{line: 2887, col: 13, offset: 91418},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91395},
+																						pos:        position{line: 2887, col: 13, offset: 91418},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91402},
+																						pos:        position{line: 2887, col: 20, offset: 91425},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91411},
+																						pos:        position{line: 2887, col: 29, offset: 91434},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25888,9 +26106,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91571},
+																			pos: position{line: 2897, col: 8, offset: 91594},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91572,
+																				line: 2897, col: 9, offset: 91595,
 																			},
 																		},
 																	},
@@ -25900,33 +26118,33 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1501, col: 13, offset: 48714},
+													pos:   position{line: 1502, col: 13, offset: 48737},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1501, col: 22, offset: 48723},
+														pos: position{line: 1502, col: 22, offset: 48746},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1581, col: 5, offset: 51241},
+																pos: position{line: 1582, col: 5, offset: 51264},
 																run: (*parser).callonExtraListElement27,
 																expr: &seqExpr{
-																	pos: position{line: 1581, col: 5, offset: 51241},
+																	pos: position{line: 1582, col: 5, offset: 51264},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1581, col: 5, offset: 51241},
+																			pos:   position{line: 1582, col: 5, offset: 51264},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1588, col: 5, offset: 51449},
+																				pos: position{line: 1589, col: 5, offset: 51472},
 																				run: (*parser).callonExtraListElement30,
 																				expr: &seqExpr{
-																					pos: position{line: 1588, col: 5, offset: 51449},
+																					pos: position{line: 1589, col: 5, offset: 51472},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1588, col: 5, offset: 51449},
+																							pos: position{line: 1589, col: 5, offset: 51472},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91223},
+																								pos: position{line: 2878, col: 10, offset: 91246},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91223},
+																									pos:        position{line: 2878, col: 10, offset: 91246},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25935,27 +26153,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1588, col: 12, offset: 51456},
+																							pos:   position{line: 1589, col: 12, offset: 51479},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1590, col: 9, offset: 51519},
+																								pos: position{line: 1591, col: 9, offset: 51542},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1590, col: 9, offset: 51519},
+																										pos: position{line: 1591, col: 9, offset: 51542},
 																										run: (*parser).callonExtraListElement37,
 																										expr: &seqExpr{
-																											pos: position{line: 1590, col: 9, offset: 51519},
+																											pos: position{line: 1591, col: 9, offset: 51542},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1590, col: 9, offset: 51519},
+																													pos:   position{line: 1591, col: 9, offset: 51542},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1590, col: 16, offset: 51526},
+																														pos: position{line: 1591, col: 16, offset: 51549},
 																														run: (*parser).callonExtraListElement40,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1590, col: 16, offset: 51526},
+																															pos: position{line: 1591, col: 16, offset: 51549},
 																															expr: &litMatcher{
-																																pos:        position{line: 1590, col: 17, offset: 51527},
+																																pos:        position{line: 1591, col: 17, offset: 51550},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -25964,22 +26182,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1594, col: 9, offset: 51627},
+																													pos: position{line: 1595, col: 9, offset: 51650},
 																													run: (*parser).callonExtraListElement43,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1613, col: 11, offset: 52344},
+																										pos: position{line: 1614, col: 11, offset: 52367},
 																										run: (*parser).callonExtraListElement44,
 																										expr: &seqExpr{
-																											pos: position{line: 1613, col: 11, offset: 52344},
+																											pos: position{line: 1614, col: 11, offset: 52367},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1613, col: 11, offset: 52344},
+																													pos: position{line: 1614, col: 11, offset: 52367},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1613, col: 12, offset: 52345},
+																														pos:        position{line: 1614, col: 12, offset: 52368},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -25987,7 +26205,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1613, col: 20, offset: 52353},
+																													pos:        position{line: 1614, col: 20, offset: 52376},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -25996,20 +26214,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1615, col: 13, offset: 52470},
+																										pos: position{line: 1616, col: 13, offset: 52493},
 																										run: (*parser).callonExtraListElement49,
 																										expr: &seqExpr{
-																											pos: position{line: 1615, col: 13, offset: 52470},
+																											pos: position{line: 1616, col: 13, offset: 52493},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1615, col: 14, offset: 52471},
+																													pos:        position{line: 1616, col: 14, offset: 52494},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1615, col: 21, offset: 52478},
+																													pos:        position{line: 1616, col: 21, offset: 52501},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26018,20 +26236,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1617, col: 13, offset: 52598},
+																										pos: position{line: 1618, col: 13, offset: 52621},
 																										run: (*parser).callonExtraListElement53,
 																										expr: &seqExpr{
-																											pos: position{line: 1617, col: 13, offset: 52598},
+																											pos: position{line: 1618, col: 13, offset: 52621},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1617, col: 14, offset: 52599},
+																													pos:        position{line: 1618, col: 14, offset: 52622},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1617, col: 21, offset: 52606},
+																													pos:        position{line: 1618, col: 21, offset: 52629},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26040,15 +26258,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1619, col: 13, offset: 52726},
+																										pos: position{line: 1620, col: 13, offset: 52749},
 																										run: (*parser).callonExtraListElement57,
 																										expr: &seqExpr{
-																											pos: position{line: 1619, col: 13, offset: 52726},
+																											pos: position{line: 1620, col: 13, offset: 52749},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1619, col: 13, offset: 52726},
+																													pos: position{line: 1620, col: 13, offset: 52749},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1619, col: 14, offset: 52727},
+																														pos:        position{line: 1620, col: 14, offset: 52750},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -26056,7 +26274,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1619, col: 26, offset: 52739},
+																													pos:        position{line: 1620, col: 26, offset: 52762},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26065,15 +26283,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1621, col: 13, offset: 52859},
+																										pos: position{line: 1622, col: 13, offset: 52882},
 																										run: (*parser).callonExtraListElement62,
 																										expr: &seqExpr{
-																											pos: position{line: 1621, col: 13, offset: 52859},
+																											pos: position{line: 1622, col: 13, offset: 52882},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1621, col: 13, offset: 52859},
+																													pos: position{line: 1622, col: 13, offset: 52882},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1621, col: 14, offset: 52860},
+																														pos:        position{line: 1622, col: 14, offset: 52883},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -26081,7 +26299,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1621, col: 26, offset: 52872},
+																													pos:        position{line: 1622, col: 26, offset: 52895},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26093,12 +26311,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2881, col: 11, offset: 91284},
+																							pos: position{line: 2882, col: 11, offset: 91307},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2881, col: 11, offset: 91284},
+																								pos: position{line: 2882, col: 11, offset: 91307},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2881, col: 11, offset: 91284},
+																									pos:        position{line: 2882, col: 11, offset: 91307},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26111,26 +26329,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1582, col: 5, offset: 51280},
+																			pos:   position{line: 1583, col: 5, offset: 51303},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1529, col: 5, offset: 49747},
+																				pos: position{line: 1530, col: 5, offset: 49770},
 																				run: (*parser).callonExtraListElement71,
 																				expr: &seqExpr{
-																					pos: position{line: 1529, col: 5, offset: 49747},
+																					pos: position{line: 1530, col: 5, offset: 49770},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1529, col: 5, offset: 49747},
+																							pos:   position{line: 1530, col: 5, offset: 49770},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1529, col: 14, offset: 49756},
+																								pos: position{line: 1530, col: 14, offset: 49779},
 																								expr: &actionExpr{
-																									pos: position{line: 1529, col: 15, offset: 49757},
+																									pos: position{line: 1530, col: 15, offset: 49780},
 																									run: (*parser).callonExtraListElement75,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1529, col: 15, offset: 49757},
+																										pos: position{line: 1530, col: 15, offset: 49780},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1529, col: 15, offset: 49757},
+																											pos:        position{line: 1530, col: 15, offset: 49780},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26141,28 +26359,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91621},
+																							pos: position{line: 2900, col: 8, offset: 91644},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91394},
+																									pos: position{line: 2887, col: 12, offset: 91417},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91395},
+																										pos: position{line: 2887, col: 13, offset: 91418},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91395},
+																												pos:        position{line: 2887, col: 13, offset: 91418},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91402},
+																												pos:        position{line: 2887, col: 20, offset: 91425},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91411},
+																												pos:        position{line: 2887, col: 29, offset: 91434},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26171,9 +26389,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91571},
+																									pos: position{line: 2897, col: 8, offset: 91594},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91572,
+																										line: 2897, col: 9, offset: 91595,
 																									},
 																								},
 																							},
@@ -26186,27 +26404,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1631, col: 5, offset: 53138},
+																pos: position{line: 1632, col: 5, offset: 53161},
 																run: (*parser).callonExtraListElement86,
 																expr: &seqExpr{
-																	pos: position{line: 1631, col: 5, offset: 53138},
+																	pos: position{line: 1632, col: 5, offset: 53161},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1631, col: 5, offset: 53138},
+																			pos:   position{line: 1632, col: 5, offset: 53161},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1638, col: 5, offset: 53411},
+																				pos: position{line: 1639, col: 5, offset: 53434},
 																				run: (*parser).callonExtraListElement89,
 																				expr: &seqExpr{
-																					pos: position{line: 1638, col: 5, offset: 53411},
+																					pos: position{line: 1639, col: 5, offset: 53434},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1638, col: 5, offset: 53411},
+																							pos: position{line: 1639, col: 5, offset: 53434},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91223},
+																								pos: position{line: 2878, col: 10, offset: 91246},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91223},
+																									pos:        position{line: 2878, col: 10, offset: 91246},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26215,24 +26433,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1639, col: 5, offset: 53423},
+																							pos:   position{line: 1640, col: 5, offset: 53446},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1640, col: 9, offset: 53439},
+																								pos: position{line: 1641, col: 9, offset: 53462},
 																								run: (*parser).callonExtraListElement95,
 																								expr: &choiceExpr{
-																									pos: position{line: 1640, col: 10, offset: 53440},
+																									pos: position{line: 1641, col: 10, offset: 53463},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1640, col: 11, offset: 53441},
+																											pos:        position{line: 1641, col: 11, offset: 53464},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1640, col: 18, offset: 53448},
+																											pos: position{line: 1641, col: 18, offset: 53471},
 																											expr: &litMatcher{
-																												pos:        position{line: 1640, col: 19, offset: 53449},
+																												pos:        position{line: 1641, col: 19, offset: 53472},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -26243,16 +26461,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1643, col: 7, offset: 53539},
+																							pos: position{line: 1644, col: 7, offset: 53562},
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2881, col: 11, offset: 91284},
+																							pos: position{line: 2882, col: 11, offset: 91307},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2881, col: 11, offset: 91284},
+																								pos: position{line: 2882, col: 11, offset: 91307},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2881, col: 11, offset: 91284},
+																									pos:        position{line: 2882, col: 11, offset: 91307},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26265,56 +26483,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1632, col: 5, offset: 53179},
+																			pos:   position{line: 1633, col: 5, offset: 53202},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1632, col: 16, offset: 53190},
+																				pos: position{line: 1633, col: 16, offset: 53213},
 																				expr: &actionExpr{
-																					pos: position{line: 1653, col: 5, offset: 53804},
+																					pos: position{line: 1654, col: 5, offset: 53827},
 																					run: (*parser).callonExtraListElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 1653, col: 5, offset: 53804},
+																						pos: position{line: 1654, col: 5, offset: 53827},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1653, col: 5, offset: 53804},
+																								pos: position{line: 1654, col: 5, offset: 53827},
 																								expr: &litMatcher{
-																									pos:        position{line: 1653, col: 6, offset: 53805},
+																									pos:        position{line: 1654, col: 6, offset: 53828},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1653, col: 10, offset: 53809},
+																								pos:   position{line: 1654, col: 10, offset: 53832},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1654, col: 7, offset: 53823},
+																									pos: position{line: 1655, col: 7, offset: 53846},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1654, col: 7, offset: 53823},
+																											pos: position{line: 1655, col: 7, offset: 53846},
 																											run: (*parser).callonExtraListElement112,
 																											expr: &litMatcher{
-																												pos:        position{line: 1654, col: 7, offset: 53823},
+																												pos:        position{line: 1655, col: 7, offset: 53846},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1655, col: 7, offset: 53868},
+																											pos: position{line: 1656, col: 7, offset: 53891},
 																											run: (*parser).callonExtraListElement114,
 																											expr: &litMatcher{
-																												pos:        position{line: 1655, col: 7, offset: 53868},
+																												pos:        position{line: 1656, col: 7, offset: 53891},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1656, col: 7, offset: 53911},
+																											pos: position{line: 1657, col: 7, offset: 53934},
 																											run: (*parser).callonExtraListElement116,
 																											expr: &litMatcher{
-																												pos:        position{line: 1656, col: 7, offset: 53911},
+																												pos:        position{line: 1657, col: 7, offset: 53934},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -26324,12 +26542,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2881, col: 11, offset: 91284},
+																								pos: position{line: 2882, col: 11, offset: 91307},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2881, col: 11, offset: 91284},
+																									pos: position{line: 2882, col: 11, offset: 91307},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2881, col: 11, offset: 91284},
+																										pos:        position{line: 2882, col: 11, offset: 91307},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -26343,26 +26561,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1633, col: 5, offset: 53229},
+																			pos:   position{line: 1634, col: 5, offset: 53252},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1529, col: 5, offset: 49747},
+																				pos: position{line: 1530, col: 5, offset: 49770},
 																				run: (*parser).callonExtraListElement122,
 																				expr: &seqExpr{
-																					pos: position{line: 1529, col: 5, offset: 49747},
+																					pos: position{line: 1530, col: 5, offset: 49770},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1529, col: 5, offset: 49747},
+																							pos:   position{line: 1530, col: 5, offset: 49770},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1529, col: 14, offset: 49756},
+																								pos: position{line: 1530, col: 14, offset: 49779},
 																								expr: &actionExpr{
-																									pos: position{line: 1529, col: 15, offset: 49757},
+																									pos: position{line: 1530, col: 15, offset: 49780},
 																									run: (*parser).callonExtraListElement126,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1529, col: 15, offset: 49757},
+																										pos: position{line: 1530, col: 15, offset: 49780},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1529, col: 15, offset: 49757},
+																											pos:        position{line: 1530, col: 15, offset: 49780},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26373,28 +26591,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91621},
+																							pos: position{line: 2900, col: 8, offset: 91644},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91394},
+																									pos: position{line: 2887, col: 12, offset: 91417},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91395},
+																										pos: position{line: 2887, col: 13, offset: 91418},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91395},
+																												pos:        position{line: 2887, col: 13, offset: 91418},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91402},
+																												pos:        position{line: 2887, col: 20, offset: 91425},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91411},
+																												pos:        position{line: 2887, col: 29, offset: 91434},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26403,9 +26621,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91571},
+																									pos: position{line: 2897, col: 8, offset: 91594},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91572,
+																										line: 2897, col: 9, offset: 91595,
 																									},
 																								},
 																							},
@@ -26418,36 +26636,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1722, col: 5, offset: 55783},
+																pos: position{line: 1723, col: 5, offset: 55806},
 																run: (*parser).callonExtraListElement137,
 																expr: &seqExpr{
-																	pos: position{line: 1722, col: 5, offset: 55783},
+																	pos: position{line: 1723, col: 5, offset: 55806},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1722, col: 5, offset: 55783},
+																			pos:   position{line: 1723, col: 5, offset: 55806},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1728, col: 5, offset: 55980},
+																				pos: position{line: 1729, col: 5, offset: 56003},
 																				run: (*parser).callonExtraListElement140,
 																				expr: &seqExpr{
-																					pos: position{line: 1728, col: 5, offset: 55980},
+																					pos: position{line: 1729, col: 5, offset: 56003},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1728, col: 5, offset: 55980},
+																							pos:        position{line: 1729, col: 5, offset: 56003},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1728, col: 9, offset: 55984},
+																							pos:   position{line: 1729, col: 9, offset: 56007},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1728, col: 14, offset: 55989},
+																								pos: position{line: 1729, col: 14, offset: 56012},
 																								run: (*parser).callonExtraListElement144,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1728, col: 14, offset: 55989},
+																									pos: position{line: 1729, col: 14, offset: 56012},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1728, col: 14, offset: 55989},
+																										pos:        position{line: 1729, col: 14, offset: 56012},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -26457,18 +26675,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1728, col: 62, offset: 56037},
+																							pos:        position{line: 1729, col: 62, offset: 56060},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2881, col: 11, offset: 91284},
+																							pos: position{line: 2882, col: 11, offset: 91307},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2881, col: 11, offset: 91284},
+																								pos: position{line: 2882, col: 11, offset: 91307},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2881, col: 11, offset: 91284},
+																									pos:        position{line: 2882, col: 11, offset: 91307},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26481,26 +26699,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1723, col: 5, offset: 55819},
+																			pos:   position{line: 1724, col: 5, offset: 55842},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1529, col: 5, offset: 49747},
+																				pos: position{line: 1530, col: 5, offset: 49770},
 																				run: (*parser).callonExtraListElement152,
 																				expr: &seqExpr{
-																					pos: position{line: 1529, col: 5, offset: 49747},
+																					pos: position{line: 1530, col: 5, offset: 49770},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1529, col: 5, offset: 49747},
+																							pos:   position{line: 1530, col: 5, offset: 49770},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1529, col: 14, offset: 49756},
+																								pos: position{line: 1530, col: 14, offset: 49779},
 																								expr: &actionExpr{
-																									pos: position{line: 1529, col: 15, offset: 49757},
+																									pos: position{line: 1530, col: 15, offset: 49780},
 																									run: (*parser).callonExtraListElement156,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1529, col: 15, offset: 49757},
+																										pos: position{line: 1530, col: 15, offset: 49780},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1529, col: 15, offset: 49757},
+																											pos:        position{line: 1530, col: 15, offset: 49780},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26511,28 +26729,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91621},
+																							pos: position{line: 2900, col: 8, offset: 91644},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91394},
+																									pos: position{line: 2887, col: 12, offset: 91417},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91395},
+																										pos: position{line: 2887, col: 13, offset: 91418},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91395},
+																												pos:        position{line: 2887, col: 13, offset: 91418},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91402},
+																												pos:        position{line: 2887, col: 20, offset: 91425},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91411},
+																												pos:        position{line: 2887, col: 29, offset: 91434},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26541,9 +26759,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91571},
+																									pos: position{line: 2897, col: 8, offset: 91594},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91572,
+																										line: 2897, col: 9, offset: 91595,
 																									},
 																								},
 																							},
@@ -26556,35 +26774,35 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1665, col: 5, offset: 54104},
+																pos: position{line: 1666, col: 5, offset: 54127},
 																run: (*parser).callonExtraListElement167,
 																expr: &seqExpr{
-																	pos: position{line: 1665, col: 5, offset: 54104},
+																	pos: position{line: 1666, col: 5, offset: 54127},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1665, col: 5, offset: 54104},
+																			pos:   position{line: 1666, col: 5, offset: 54127},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1673, col: 5, offset: 54430},
+																				pos: position{line: 1674, col: 5, offset: 54453},
 																				run: (*parser).callonExtraListElement170,
 																				expr: &seqExpr{
-																					pos: position{line: 1673, col: 5, offset: 54430},
+																					pos: position{line: 1674, col: 5, offset: 54453},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1673, col: 5, offset: 54430},
+																							pos: position{line: 1674, col: 5, offset: 54453},
 																							expr: &seqExpr{
-																								pos: position{line: 2489, col: 31, offset: 80330},
+																								pos: position{line: 2490, col: 31, offset: 80353},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2489, col: 31, offset: 80330},
+																										pos:        position{line: 2490, col: 31, offset: 80353},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2489, col: 36, offset: 80335},
+																										pos: position{line: 2490, col: 36, offset: 80358},
 																										expr: &litMatcher{
-																											pos:        position{line: 2489, col: 37, offset: 80336},
+																											pos:        position{line: 2490, col: 37, offset: 80359},
 																											val:        "//",
 																											ignoreCase: false,
 																											want:       "\"//\"",
@@ -26594,28 +26812,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1674, col: 5, offset: 54462},
+																							pos: position{line: 1675, col: 5, offset: 54485},
 																							expr: &seqExpr{
-																								pos: position{line: 1674, col: 6, offset: 54463},
+																								pos: position{line: 1675, col: 6, offset: 54486},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1674, col: 6, offset: 54463},
+																										pos: position{line: 1675, col: 6, offset: 54486},
 																										expr: &actionExpr{
-																											pos: position{line: 1679, col: 5, offset: 54613},
+																											pos: position{line: 1680, col: 5, offset: 54636},
 																											run: (*parser).callonExtraListElement180,
 																											expr: &seqExpr{
-																												pos: position{line: 1679, col: 5, offset: 54613},
+																												pos: position{line: 1680, col: 5, offset: 54636},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1679, col: 5, offset: 54613},
+																														pos:   position{line: 1680, col: 5, offset: 54636},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1679, col: 16, offset: 54624},
+																															pos: position{line: 1680, col: 16, offset: 54647},
 																															run: (*parser).callonExtraListElement183,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1679, col: 16, offset: 54624},
+																																pos: position{line: 1680, col: 16, offset: 54647},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1679, col: 17, offset: 54625},
+																																	pos:        position{line: 1680, col: 17, offset: 54648},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -26624,7 +26842,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1682, col: 5, offset: 54682},
+																														pos: position{line: 1683, col: 5, offset: 54705},
 																														run: (*parser).callonExtraListElement186,
 																													},
 																												},
@@ -26632,30 +26850,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1674, col: 35, offset: 54492},
+																										pos: position{line: 1675, col: 35, offset: 54515},
 																										expr: &choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91621},
+																											pos: position{line: 2900, col: 8, offset: 91644},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91394},
+																													pos: position{line: 2887, col: 12, offset: 91417},
 																													run: (*parser).callonExtraListElement189,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91395},
+																														pos: position{line: 2887, col: 13, offset: 91418},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91395},
+																																pos:        position{line: 2887, col: 13, offset: 91418},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91402},
+																																pos:        position{line: 2887, col: 20, offset: 91425},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91411},
+																																pos:        position{line: 2887, col: 29, offset: 91434},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -26664,16 +26882,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91571},
+																													pos: position{line: 2897, col: 8, offset: 91594},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91572,
+																														line: 2897, col: 9, offset: 91595,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1674, col: 40, offset: 54497,
+																										line: 1675, col: 40, offset: 54520,
 																									},
 																								},
 																							},
@@ -26683,24 +26901,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1666, col: 5, offset: 54139},
+																			pos:   position{line: 1667, col: 5, offset: 54162},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1679, col: 5, offset: 54613},
+																				pos: position{line: 1680, col: 5, offset: 54636},
 																				run: (*parser).callonExtraListElement198,
 																				expr: &seqExpr{
-																					pos: position{line: 1679, col: 5, offset: 54613},
+																					pos: position{line: 1680, col: 5, offset: 54636},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1679, col: 5, offset: 54613},
+																							pos:   position{line: 1680, col: 5, offset: 54636},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1679, col: 16, offset: 54624},
+																								pos: position{line: 1680, col: 16, offset: 54647},
 																								run: (*parser).callonExtraListElement201,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1679, col: 16, offset: 54624},
+																									pos: position{line: 1680, col: 16, offset: 54647},
 																									expr: &litMatcher{
-																										pos:        position{line: 1679, col: 17, offset: 54625},
+																										pos:        position{line: 1680, col: 17, offset: 54648},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -26709,7 +26927,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1682, col: 5, offset: 54682},
+																							pos: position{line: 1683, col: 5, offset: 54705},
 																							run: (*parser).callonExtraListElement204,
 																						},
 																					},
@@ -26717,24 +26935,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1667, col: 5, offset: 54184},
+																			pos:   position{line: 1668, col: 5, offset: 54207},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1690, col: 5, offset: 54931},
+																				pos: position{line: 1691, col: 5, offset: 54954},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1692, col: 9, offset: 54997},
+																						pos: position{line: 1693, col: 9, offset: 55020},
 																						run: (*parser).callonExtraListElement207,
 																						expr: &seqExpr{
-																							pos: position{line: 1692, col: 9, offset: 54997},
+																							pos: position{line: 1693, col: 9, offset: 55020},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1692, col: 9, offset: 54997},
+																									pos: position{line: 1693, col: 9, offset: 55020},
 																									expr: &actionExpr{
-																										pos: position{line: 2877, col: 10, offset: 91223},
+																										pos: position{line: 2878, col: 10, offset: 91246},
 																										run: (*parser).callonExtraListElement210,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2877, col: 10, offset: 91223},
+																											pos:        position{line: 2878, col: 10, offset: 91246},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26743,28 +26961,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2899, col: 8, offset: 91621},
+																									pos: position{line: 2900, col: 8, offset: 91644},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2886, col: 12, offset: 91394},
+																											pos: position{line: 2887, col: 12, offset: 91417},
 																											run: (*parser).callonExtraListElement213,
 																											expr: &choiceExpr{
-																												pos: position{line: 2886, col: 13, offset: 91395},
+																												pos: position{line: 2887, col: 13, offset: 91418},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 13, offset: 91395},
+																														pos:        position{line: 2887, col: 13, offset: 91418},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 20, offset: 91402},
+																														pos:        position{line: 2887, col: 20, offset: 91425},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 29, offset: 91411},
+																														pos:        position{line: 2887, col: 29, offset: 91434},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26773,15 +26991,15 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2896, col: 8, offset: 91571},
+																											pos: position{line: 2897, col: 8, offset: 91594},
 																											expr: &anyMatcher{
-																												line: 2896, col: 9, offset: 91572,
+																												line: 2897, col: 9, offset: 91595,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1693, col: 9, offset: 55016},
+																									pos: position{line: 1694, col: 9, offset: 55039},
 																									expr: &actionExpr{
 																										pos: position{line: 677, col: 14, offset: 21525},
 																										run: (*parser).callonExtraListElement221,
@@ -26789,18 +27007,18 @@ var g = &grammar{
 																											pos: position{line: 677, col: 14, offset: 21525},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2894, col: 11, offset: 91557},
+																													pos: position{line: 2895, col: 11, offset: 91580},
 																													expr: &anyMatcher{
-																														line: 2894, col: 13, offset: 91559,
+																														line: 2895, col: 13, offset: 91582,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 677, col: 21, offset: 21532},
 																													expr: &actionExpr{
-																														pos: position{line: 2877, col: 10, offset: 91223},
+																														pos: position{line: 2878, col: 10, offset: 91246},
 																														run: (*parser).callonExtraListElement226,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2877, col: 10, offset: 91223},
+																															pos:        position{line: 2878, col: 10, offset: 91246},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -26809,28 +27027,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2899, col: 8, offset: 91621},
+																													pos: position{line: 2900, col: 8, offset: 91644},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2886, col: 12, offset: 91394},
+																															pos: position{line: 2887, col: 12, offset: 91417},
 																															run: (*parser).callonExtraListElement229,
 																															expr: &choiceExpr{
-																																pos: position{line: 2886, col: 13, offset: 91395},
+																																pos: position{line: 2887, col: 13, offset: 91418},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2886, col: 13, offset: 91395},
+																																		pos:        position{line: 2887, col: 13, offset: 91418},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2886, col: 20, offset: 91402},
+																																		pos:        position{line: 2887, col: 20, offset: 91425},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2886, col: 29, offset: 91411},
+																																		pos:        position{line: 2887, col: 29, offset: 91434},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -26839,9 +27057,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2896, col: 8, offset: 91571},
+																															pos: position{line: 2897, col: 8, offset: 91594},
 																															expr: &anyMatcher{
-																																line: 2896, col: 9, offset: 91572,
+																																line: 2897, col: 9, offset: 91595,
 																															},
 																														},
 																													},
@@ -26854,18 +27072,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1699, col: 9, offset: 55145},
+																						pos: position{line: 1700, col: 9, offset: 55168},
 																						run: (*parser).callonExtraListElement236,
 																						expr: &seqExpr{
-																							pos: position{line: 1699, col: 9, offset: 55145},
+																							pos: position{line: 1700, col: 9, offset: 55168},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2881, col: 11, offset: 91284},
+																									pos: position{line: 2882, col: 11, offset: 91307},
 																									run: (*parser).callonExtraListElement238,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2881, col: 11, offset: 91284},
+																										pos: position{line: 2882, col: 11, offset: 91307},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2881, col: 11, offset: 91284},
+																											pos:        position{line: 2882, col: 11, offset: 91307},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26874,15 +27092,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1700, col: 9, offset: 55218},
+																									pos:   position{line: 1701, col: 9, offset: 55241},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1700, col: 18, offset: 55227},
+																										pos: position{line: 1701, col: 18, offset: 55250},
 																										run: (*parser).callonExtraListElement242,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1700, col: 18, offset: 55227},
+																											pos: position{line: 1701, col: 18, offset: 55250},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1700, col: 18, offset: 55227},
+																												pos:        position{line: 1701, col: 18, offset: 55250},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -26892,28 +27110,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2899, col: 8, offset: 91621},
+																									pos: position{line: 2900, col: 8, offset: 91644},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2886, col: 12, offset: 91394},
+																											pos: position{line: 2887, col: 12, offset: 91417},
 																											run: (*parser).callonExtraListElement246,
 																											expr: &choiceExpr{
-																												pos: position{line: 2886, col: 13, offset: 91395},
+																												pos: position{line: 2887, col: 13, offset: 91418},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 13, offset: 91395},
+																														pos:        position{line: 2887, col: 13, offset: 91418},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 20, offset: 91402},
+																														pos:        position{line: 2887, col: 20, offset: 91425},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 29, offset: 91411},
+																														pos:        position{line: 2887, col: 29, offset: 91434},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26922,9 +27140,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2896, col: 8, offset: 91571},
+																											pos: position{line: 2897, col: 8, offset: 91594},
 																											expr: &anyMatcher{
-																												line: 2896, col: 9, offset: 91572,
+																												line: 2897, col: 9, offset: 91595,
 																											},
 																										},
 																									},
@@ -26945,50 +27163,50 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1504, col: 13, offset: 48874},
+										pos: position{line: 1505, col: 13, offset: 48897},
 										run: (*parser).callonExtraListElement253,
 										expr: &seqExpr{
-											pos: position{line: 1504, col: 13, offset: 48874},
+											pos: position{line: 1505, col: 13, offset: 48897},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1504, col: 13, offset: 48874},
+													pos:   position{line: 1505, col: 13, offset: 48897},
 													label: "attributes",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1504, col: 24, offset: 48885},
+														pos: position{line: 1505, col: 24, offset: 48908},
 														expr: &ruleRefExpr{
-															pos:  position{line: 1504, col: 25, offset: 48886},
+															pos:  position{line: 1505, col: 25, offset: 48909},
 															name: "BlockAttributes",
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1505, col: 13, offset: 48917},
+													pos:   position{line: 1506, col: 13, offset: 48940},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1505, col: 22, offset: 48926},
+														pos: position{line: 1506, col: 22, offset: 48949},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1581, col: 5, offset: 51241},
+																pos: position{line: 1582, col: 5, offset: 51264},
 																run: (*parser).callonExtraListElement260,
 																expr: &seqExpr{
-																	pos: position{line: 1581, col: 5, offset: 51241},
+																	pos: position{line: 1582, col: 5, offset: 51264},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1581, col: 5, offset: 51241},
+																			pos:   position{line: 1582, col: 5, offset: 51264},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1588, col: 5, offset: 51449},
+																				pos: position{line: 1589, col: 5, offset: 51472},
 																				run: (*parser).callonExtraListElement263,
 																				expr: &seqExpr{
-																					pos: position{line: 1588, col: 5, offset: 51449},
+																					pos: position{line: 1589, col: 5, offset: 51472},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1588, col: 5, offset: 51449},
+																							pos: position{line: 1589, col: 5, offset: 51472},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91223},
+																								pos: position{line: 2878, col: 10, offset: 91246},
 																								run: (*parser).callonExtraListElement266,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91223},
+																									pos:        position{line: 2878, col: 10, offset: 91246},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26997,27 +27215,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1588, col: 12, offset: 51456},
+																							pos:   position{line: 1589, col: 12, offset: 51479},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1590, col: 9, offset: 51519},
+																								pos: position{line: 1591, col: 9, offset: 51542},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1590, col: 9, offset: 51519},
+																										pos: position{line: 1591, col: 9, offset: 51542},
 																										run: (*parser).callonExtraListElement270,
 																										expr: &seqExpr{
-																											pos: position{line: 1590, col: 9, offset: 51519},
+																											pos: position{line: 1591, col: 9, offset: 51542},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1590, col: 9, offset: 51519},
+																													pos:   position{line: 1591, col: 9, offset: 51542},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1590, col: 16, offset: 51526},
+																														pos: position{line: 1591, col: 16, offset: 51549},
 																														run: (*parser).callonExtraListElement273,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1590, col: 16, offset: 51526},
+																															pos: position{line: 1591, col: 16, offset: 51549},
 																															expr: &litMatcher{
-																																pos:        position{line: 1590, col: 17, offset: 51527},
+																																pos:        position{line: 1591, col: 17, offset: 51550},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -27026,22 +27244,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1594, col: 9, offset: 51627},
+																													pos: position{line: 1595, col: 9, offset: 51650},
 																													run: (*parser).callonExtraListElement276,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1613, col: 11, offset: 52344},
+																										pos: position{line: 1614, col: 11, offset: 52367},
 																										run: (*parser).callonExtraListElement277,
 																										expr: &seqExpr{
-																											pos: position{line: 1613, col: 11, offset: 52344},
+																											pos: position{line: 1614, col: 11, offset: 52367},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1613, col: 11, offset: 52344},
+																													pos: position{line: 1614, col: 11, offset: 52367},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1613, col: 12, offset: 52345},
+																														pos:        position{line: 1614, col: 12, offset: 52368},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -27049,7 +27267,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1613, col: 20, offset: 52353},
+																													pos:        position{line: 1614, col: 20, offset: 52376},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27058,20 +27276,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1615, col: 13, offset: 52470},
+																										pos: position{line: 1616, col: 13, offset: 52493},
 																										run: (*parser).callonExtraListElement282,
 																										expr: &seqExpr{
-																											pos: position{line: 1615, col: 13, offset: 52470},
+																											pos: position{line: 1616, col: 13, offset: 52493},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1615, col: 14, offset: 52471},
+																													pos:        position{line: 1616, col: 14, offset: 52494},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1615, col: 21, offset: 52478},
+																													pos:        position{line: 1616, col: 21, offset: 52501},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27080,20 +27298,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1617, col: 13, offset: 52598},
+																										pos: position{line: 1618, col: 13, offset: 52621},
 																										run: (*parser).callonExtraListElement286,
 																										expr: &seqExpr{
-																											pos: position{line: 1617, col: 13, offset: 52598},
+																											pos: position{line: 1618, col: 13, offset: 52621},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1617, col: 14, offset: 52599},
+																													pos:        position{line: 1618, col: 14, offset: 52622},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1617, col: 21, offset: 52606},
+																													pos:        position{line: 1618, col: 21, offset: 52629},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27102,15 +27320,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1619, col: 13, offset: 52726},
+																										pos: position{line: 1620, col: 13, offset: 52749},
 																										run: (*parser).callonExtraListElement290,
 																										expr: &seqExpr{
-																											pos: position{line: 1619, col: 13, offset: 52726},
+																											pos: position{line: 1620, col: 13, offset: 52749},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1619, col: 13, offset: 52726},
+																													pos: position{line: 1620, col: 13, offset: 52749},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1619, col: 14, offset: 52727},
+																														pos:        position{line: 1620, col: 14, offset: 52750},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -27118,7 +27336,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1619, col: 26, offset: 52739},
+																													pos:        position{line: 1620, col: 26, offset: 52762},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27127,15 +27345,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1621, col: 13, offset: 52859},
+																										pos: position{line: 1622, col: 13, offset: 52882},
 																										run: (*parser).callonExtraListElement295,
 																										expr: &seqExpr{
-																											pos: position{line: 1621, col: 13, offset: 52859},
+																											pos: position{line: 1622, col: 13, offset: 52882},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1621, col: 13, offset: 52859},
+																													pos: position{line: 1622, col: 13, offset: 52882},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1621, col: 14, offset: 52860},
+																														pos:        position{line: 1622, col: 14, offset: 52883},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -27143,7 +27361,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1621, col: 26, offset: 52872},
+																													pos:        position{line: 1622, col: 26, offset: 52895},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27155,12 +27373,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2881, col: 11, offset: 91284},
+																							pos: position{line: 2882, col: 11, offset: 91307},
 																							run: (*parser).callonExtraListElement300,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2881, col: 11, offset: 91284},
+																								pos: position{line: 2882, col: 11, offset: 91307},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2881, col: 11, offset: 91284},
+																									pos:        position{line: 2882, col: 11, offset: 91307},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27173,26 +27391,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1582, col: 5, offset: 51280},
+																			pos:   position{line: 1583, col: 5, offset: 51303},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1529, col: 5, offset: 49747},
+																				pos: position{line: 1530, col: 5, offset: 49770},
 																				run: (*parser).callonExtraListElement304,
 																				expr: &seqExpr{
-																					pos: position{line: 1529, col: 5, offset: 49747},
+																					pos: position{line: 1530, col: 5, offset: 49770},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1529, col: 5, offset: 49747},
+																							pos:   position{line: 1530, col: 5, offset: 49770},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1529, col: 14, offset: 49756},
+																								pos: position{line: 1530, col: 14, offset: 49779},
 																								expr: &actionExpr{
-																									pos: position{line: 1529, col: 15, offset: 49757},
+																									pos: position{line: 1530, col: 15, offset: 49780},
 																									run: (*parser).callonExtraListElement308,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1529, col: 15, offset: 49757},
+																										pos: position{line: 1530, col: 15, offset: 49780},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1529, col: 15, offset: 49757},
+																											pos:        position{line: 1530, col: 15, offset: 49780},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27203,28 +27421,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91621},
+																							pos: position{line: 2900, col: 8, offset: 91644},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91394},
+																									pos: position{line: 2887, col: 12, offset: 91417},
 																									run: (*parser).callonExtraListElement312,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91395},
+																										pos: position{line: 2887, col: 13, offset: 91418},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91395},
+																												pos:        position{line: 2887, col: 13, offset: 91418},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91402},
+																												pos:        position{line: 2887, col: 20, offset: 91425},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91411},
+																												pos:        position{line: 2887, col: 29, offset: 91434},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27233,9 +27451,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91571},
+																									pos: position{line: 2897, col: 8, offset: 91594},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91572,
+																										line: 2897, col: 9, offset: 91595,
 																									},
 																								},
 																							},
@@ -27248,27 +27466,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1631, col: 5, offset: 53138},
+																pos: position{line: 1632, col: 5, offset: 53161},
 																run: (*parser).callonExtraListElement319,
 																expr: &seqExpr{
-																	pos: position{line: 1631, col: 5, offset: 53138},
+																	pos: position{line: 1632, col: 5, offset: 53161},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1631, col: 5, offset: 53138},
+																			pos:   position{line: 1632, col: 5, offset: 53161},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1638, col: 5, offset: 53411},
+																				pos: position{line: 1639, col: 5, offset: 53434},
 																				run: (*parser).callonExtraListElement322,
 																				expr: &seqExpr{
-																					pos: position{line: 1638, col: 5, offset: 53411},
+																					pos: position{line: 1639, col: 5, offset: 53434},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1638, col: 5, offset: 53411},
+																							pos: position{line: 1639, col: 5, offset: 53434},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91223},
+																								pos: position{line: 2878, col: 10, offset: 91246},
 																								run: (*parser).callonExtraListElement325,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91223},
+																									pos:        position{line: 2878, col: 10, offset: 91246},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27277,24 +27495,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1639, col: 5, offset: 53423},
+																							pos:   position{line: 1640, col: 5, offset: 53446},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1640, col: 9, offset: 53439},
+																								pos: position{line: 1641, col: 9, offset: 53462},
 																								run: (*parser).callonExtraListElement328,
 																								expr: &choiceExpr{
-																									pos: position{line: 1640, col: 10, offset: 53440},
+																									pos: position{line: 1641, col: 10, offset: 53463},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1640, col: 11, offset: 53441},
+																											pos:        position{line: 1641, col: 11, offset: 53464},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1640, col: 18, offset: 53448},
+																											pos: position{line: 1641, col: 18, offset: 53471},
 																											expr: &litMatcher{
-																												pos:        position{line: 1640, col: 19, offset: 53449},
+																												pos:        position{line: 1641, col: 19, offset: 53472},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -27305,16 +27523,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1643, col: 7, offset: 53539},
+																							pos: position{line: 1644, col: 7, offset: 53562},
 																							run: (*parser).callonExtraListElement333,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2881, col: 11, offset: 91284},
+																							pos: position{line: 2882, col: 11, offset: 91307},
 																							run: (*parser).callonExtraListElement334,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2881, col: 11, offset: 91284},
+																								pos: position{line: 2882, col: 11, offset: 91307},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2881, col: 11, offset: 91284},
+																									pos:        position{line: 2882, col: 11, offset: 91307},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27327,56 +27545,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1632, col: 5, offset: 53179},
+																			pos:   position{line: 1633, col: 5, offset: 53202},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1632, col: 16, offset: 53190},
+																				pos: position{line: 1633, col: 16, offset: 53213},
 																				expr: &actionExpr{
-																					pos: position{line: 1653, col: 5, offset: 53804},
+																					pos: position{line: 1654, col: 5, offset: 53827},
 																					run: (*parser).callonExtraListElement339,
 																					expr: &seqExpr{
-																						pos: position{line: 1653, col: 5, offset: 53804},
+																						pos: position{line: 1654, col: 5, offset: 53827},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1653, col: 5, offset: 53804},
+																								pos: position{line: 1654, col: 5, offset: 53827},
 																								expr: &litMatcher{
-																									pos:        position{line: 1653, col: 6, offset: 53805},
+																									pos:        position{line: 1654, col: 6, offset: 53828},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1653, col: 10, offset: 53809},
+																								pos:   position{line: 1654, col: 10, offset: 53832},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1654, col: 7, offset: 53823},
+																									pos: position{line: 1655, col: 7, offset: 53846},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1654, col: 7, offset: 53823},
+																											pos: position{line: 1655, col: 7, offset: 53846},
 																											run: (*parser).callonExtraListElement345,
 																											expr: &litMatcher{
-																												pos:        position{line: 1654, col: 7, offset: 53823},
+																												pos:        position{line: 1655, col: 7, offset: 53846},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1655, col: 7, offset: 53868},
+																											pos: position{line: 1656, col: 7, offset: 53891},
 																											run: (*parser).callonExtraListElement347,
 																											expr: &litMatcher{
-																												pos:        position{line: 1655, col: 7, offset: 53868},
+																												pos:        position{line: 1656, col: 7, offset: 53891},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1656, col: 7, offset: 53911},
+																											pos: position{line: 1657, col: 7, offset: 53934},
 																											run: (*parser).callonExtraListElement349,
 																											expr: &litMatcher{
-																												pos:        position{line: 1656, col: 7, offset: 53911},
+																												pos:        position{line: 1657, col: 7, offset: 53934},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -27386,12 +27604,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2881, col: 11, offset: 91284},
+																								pos: position{line: 2882, col: 11, offset: 91307},
 																								run: (*parser).callonExtraListElement351,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2881, col: 11, offset: 91284},
+																									pos: position{line: 2882, col: 11, offset: 91307},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2881, col: 11, offset: 91284},
+																										pos:        position{line: 2882, col: 11, offset: 91307},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27405,26 +27623,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1633, col: 5, offset: 53229},
+																			pos:   position{line: 1634, col: 5, offset: 53252},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1529, col: 5, offset: 49747},
+																				pos: position{line: 1530, col: 5, offset: 49770},
 																				run: (*parser).callonExtraListElement355,
 																				expr: &seqExpr{
-																					pos: position{line: 1529, col: 5, offset: 49747},
+																					pos: position{line: 1530, col: 5, offset: 49770},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1529, col: 5, offset: 49747},
+																							pos:   position{line: 1530, col: 5, offset: 49770},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1529, col: 14, offset: 49756},
+																								pos: position{line: 1530, col: 14, offset: 49779},
 																								expr: &actionExpr{
-																									pos: position{line: 1529, col: 15, offset: 49757},
+																									pos: position{line: 1530, col: 15, offset: 49780},
 																									run: (*parser).callonExtraListElement359,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1529, col: 15, offset: 49757},
+																										pos: position{line: 1530, col: 15, offset: 49780},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1529, col: 15, offset: 49757},
+																											pos:        position{line: 1530, col: 15, offset: 49780},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27435,28 +27653,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91621},
+																							pos: position{line: 2900, col: 8, offset: 91644},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91394},
+																									pos: position{line: 2887, col: 12, offset: 91417},
 																									run: (*parser).callonExtraListElement363,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91395},
+																										pos: position{line: 2887, col: 13, offset: 91418},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91395},
+																												pos:        position{line: 2887, col: 13, offset: 91418},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91402},
+																												pos:        position{line: 2887, col: 20, offset: 91425},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91411},
+																												pos:        position{line: 2887, col: 29, offset: 91434},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27465,9 +27683,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91571},
+																									pos: position{line: 2897, col: 8, offset: 91594},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91572,
+																										line: 2897, col: 9, offset: 91595,
 																									},
 																								},
 																							},
@@ -27480,36 +27698,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1722, col: 5, offset: 55783},
+																pos: position{line: 1723, col: 5, offset: 55806},
 																run: (*parser).callonExtraListElement370,
 																expr: &seqExpr{
-																	pos: position{line: 1722, col: 5, offset: 55783},
+																	pos: position{line: 1723, col: 5, offset: 55806},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1722, col: 5, offset: 55783},
+																			pos:   position{line: 1723, col: 5, offset: 55806},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1728, col: 5, offset: 55980},
+																				pos: position{line: 1729, col: 5, offset: 56003},
 																				run: (*parser).callonExtraListElement373,
 																				expr: &seqExpr{
-																					pos: position{line: 1728, col: 5, offset: 55980},
+																					pos: position{line: 1729, col: 5, offset: 56003},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1728, col: 5, offset: 55980},
+																							pos:        position{line: 1729, col: 5, offset: 56003},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1728, col: 9, offset: 55984},
+																							pos:   position{line: 1729, col: 9, offset: 56007},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1728, col: 14, offset: 55989},
+																								pos: position{line: 1729, col: 14, offset: 56012},
 																								run: (*parser).callonExtraListElement377,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1728, col: 14, offset: 55989},
+																									pos: position{line: 1729, col: 14, offset: 56012},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1728, col: 14, offset: 55989},
+																										pos:        position{line: 1729, col: 14, offset: 56012},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -27519,18 +27737,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1728, col: 62, offset: 56037},
+																							pos:        position{line: 1729, col: 62, offset: 56060},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2881, col: 11, offset: 91284},
+																							pos: position{line: 2882, col: 11, offset: 91307},
 																							run: (*parser).callonExtraListElement381,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2881, col: 11, offset: 91284},
+																								pos: position{line: 2882, col: 11, offset: 91307},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2881, col: 11, offset: 91284},
+																									pos:        position{line: 2882, col: 11, offset: 91307},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27543,26 +27761,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1723, col: 5, offset: 55819},
+																			pos:   position{line: 1724, col: 5, offset: 55842},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1529, col: 5, offset: 49747},
+																				pos: position{line: 1530, col: 5, offset: 49770},
 																				run: (*parser).callonExtraListElement385,
 																				expr: &seqExpr{
-																					pos: position{line: 1529, col: 5, offset: 49747},
+																					pos: position{line: 1530, col: 5, offset: 49770},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1529, col: 5, offset: 49747},
+																							pos:   position{line: 1530, col: 5, offset: 49770},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1529, col: 14, offset: 49756},
+																								pos: position{line: 1530, col: 14, offset: 49779},
 																								expr: &actionExpr{
-																									pos: position{line: 1529, col: 15, offset: 49757},
+																									pos: position{line: 1530, col: 15, offset: 49780},
 																									run: (*parser).callonExtraListElement389,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1529, col: 15, offset: 49757},
+																										pos: position{line: 1530, col: 15, offset: 49780},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1529, col: 15, offset: 49757},
+																											pos:        position{line: 1530, col: 15, offset: 49780},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27573,28 +27791,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91621},
+																							pos: position{line: 2900, col: 8, offset: 91644},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91394},
+																									pos: position{line: 2887, col: 12, offset: 91417},
 																									run: (*parser).callonExtraListElement393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91395},
+																										pos: position{line: 2887, col: 13, offset: 91418},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91395},
+																												pos:        position{line: 2887, col: 13, offset: 91418},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91402},
+																												pos:        position{line: 2887, col: 20, offset: 91425},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91411},
+																												pos:        position{line: 2887, col: 29, offset: 91434},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27603,9 +27821,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91571},
+																									pos: position{line: 2897, col: 8, offset: 91594},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91572,
+																										line: 2897, col: 9, offset: 91595,
 																									},
 																								},
 																							},
@@ -27618,35 +27836,35 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1665, col: 5, offset: 54104},
+																pos: position{line: 1666, col: 5, offset: 54127},
 																run: (*parser).callonExtraListElement400,
 																expr: &seqExpr{
-																	pos: position{line: 1665, col: 5, offset: 54104},
+																	pos: position{line: 1666, col: 5, offset: 54127},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1665, col: 5, offset: 54104},
+																			pos:   position{line: 1666, col: 5, offset: 54127},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1673, col: 5, offset: 54430},
+																				pos: position{line: 1674, col: 5, offset: 54453},
 																				run: (*parser).callonExtraListElement403,
 																				expr: &seqExpr{
-																					pos: position{line: 1673, col: 5, offset: 54430},
+																					pos: position{line: 1674, col: 5, offset: 54453},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1673, col: 5, offset: 54430},
+																							pos: position{line: 1674, col: 5, offset: 54453},
 																							expr: &seqExpr{
-																								pos: position{line: 2489, col: 31, offset: 80330},
+																								pos: position{line: 2490, col: 31, offset: 80353},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2489, col: 31, offset: 80330},
+																										pos:        position{line: 2490, col: 31, offset: 80353},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2489, col: 36, offset: 80335},
+																										pos: position{line: 2490, col: 36, offset: 80358},
 																										expr: &litMatcher{
-																											pos:        position{line: 2489, col: 37, offset: 80336},
+																											pos:        position{line: 2490, col: 37, offset: 80359},
 																											val:        "//",
 																											ignoreCase: false,
 																											want:       "\"//\"",
@@ -27656,28 +27874,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1674, col: 5, offset: 54462},
+																							pos: position{line: 1675, col: 5, offset: 54485},
 																							expr: &seqExpr{
-																								pos: position{line: 1674, col: 6, offset: 54463},
+																								pos: position{line: 1675, col: 6, offset: 54486},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1674, col: 6, offset: 54463},
+																										pos: position{line: 1675, col: 6, offset: 54486},
 																										expr: &actionExpr{
-																											pos: position{line: 1679, col: 5, offset: 54613},
+																											pos: position{line: 1680, col: 5, offset: 54636},
 																											run: (*parser).callonExtraListElement413,
 																											expr: &seqExpr{
-																												pos: position{line: 1679, col: 5, offset: 54613},
+																												pos: position{line: 1680, col: 5, offset: 54636},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1679, col: 5, offset: 54613},
+																														pos:   position{line: 1680, col: 5, offset: 54636},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1679, col: 16, offset: 54624},
+																															pos: position{line: 1680, col: 16, offset: 54647},
 																															run: (*parser).callonExtraListElement416,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1679, col: 16, offset: 54624},
+																																pos: position{line: 1680, col: 16, offset: 54647},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1679, col: 17, offset: 54625},
+																																	pos:        position{line: 1680, col: 17, offset: 54648},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -27686,7 +27904,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1682, col: 5, offset: 54682},
+																														pos: position{line: 1683, col: 5, offset: 54705},
 																														run: (*parser).callonExtraListElement419,
 																													},
 																												},
@@ -27694,30 +27912,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1674, col: 35, offset: 54492},
+																										pos: position{line: 1675, col: 35, offset: 54515},
 																										expr: &choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91621},
+																											pos: position{line: 2900, col: 8, offset: 91644},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91394},
+																													pos: position{line: 2887, col: 12, offset: 91417},
 																													run: (*parser).callonExtraListElement422,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91395},
+																														pos: position{line: 2887, col: 13, offset: 91418},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91395},
+																																pos:        position{line: 2887, col: 13, offset: 91418},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91402},
+																																pos:        position{line: 2887, col: 20, offset: 91425},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91411},
+																																pos:        position{line: 2887, col: 29, offset: 91434},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -27726,16 +27944,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91571},
+																													pos: position{line: 2897, col: 8, offset: 91594},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91572,
+																														line: 2897, col: 9, offset: 91595,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1674, col: 40, offset: 54497,
+																										line: 1675, col: 40, offset: 54520,
 																									},
 																								},
 																							},
@@ -27745,24 +27963,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1666, col: 5, offset: 54139},
+																			pos:   position{line: 1667, col: 5, offset: 54162},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1679, col: 5, offset: 54613},
+																				pos: position{line: 1680, col: 5, offset: 54636},
 																				run: (*parser).callonExtraListElement431,
 																				expr: &seqExpr{
-																					pos: position{line: 1679, col: 5, offset: 54613},
+																					pos: position{line: 1680, col: 5, offset: 54636},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1679, col: 5, offset: 54613},
+																							pos:   position{line: 1680, col: 5, offset: 54636},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1679, col: 16, offset: 54624},
+																								pos: position{line: 1680, col: 16, offset: 54647},
 																								run: (*parser).callonExtraListElement434,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1679, col: 16, offset: 54624},
+																									pos: position{line: 1680, col: 16, offset: 54647},
 																									expr: &litMatcher{
-																										pos:        position{line: 1679, col: 17, offset: 54625},
+																										pos:        position{line: 1680, col: 17, offset: 54648},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -27771,7 +27989,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1682, col: 5, offset: 54682},
+																							pos: position{line: 1683, col: 5, offset: 54705},
 																							run: (*parser).callonExtraListElement437,
 																						},
 																					},
@@ -27779,24 +27997,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1667, col: 5, offset: 54184},
+																			pos:   position{line: 1668, col: 5, offset: 54207},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1690, col: 5, offset: 54931},
+																				pos: position{line: 1691, col: 5, offset: 54954},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1692, col: 9, offset: 54997},
+																						pos: position{line: 1693, col: 9, offset: 55020},
 																						run: (*parser).callonExtraListElement440,
 																						expr: &seqExpr{
-																							pos: position{line: 1692, col: 9, offset: 54997},
+																							pos: position{line: 1693, col: 9, offset: 55020},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1692, col: 9, offset: 54997},
+																									pos: position{line: 1693, col: 9, offset: 55020},
 																									expr: &actionExpr{
-																										pos: position{line: 2877, col: 10, offset: 91223},
+																										pos: position{line: 2878, col: 10, offset: 91246},
 																										run: (*parser).callonExtraListElement443,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2877, col: 10, offset: 91223},
+																											pos:        position{line: 2878, col: 10, offset: 91246},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27805,28 +28023,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2899, col: 8, offset: 91621},
+																									pos: position{line: 2900, col: 8, offset: 91644},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2886, col: 12, offset: 91394},
+																											pos: position{line: 2887, col: 12, offset: 91417},
 																											run: (*parser).callonExtraListElement446,
 																											expr: &choiceExpr{
-																												pos: position{line: 2886, col: 13, offset: 91395},
+																												pos: position{line: 2887, col: 13, offset: 91418},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 13, offset: 91395},
+																														pos:        position{line: 2887, col: 13, offset: 91418},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 20, offset: 91402},
+																														pos:        position{line: 2887, col: 20, offset: 91425},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 29, offset: 91411},
+																														pos:        position{line: 2887, col: 29, offset: 91434},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27835,15 +28053,15 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2896, col: 8, offset: 91571},
+																											pos: position{line: 2897, col: 8, offset: 91594},
 																											expr: &anyMatcher{
-																												line: 2896, col: 9, offset: 91572,
+																												line: 2897, col: 9, offset: 91595,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1693, col: 9, offset: 55016},
+																									pos: position{line: 1694, col: 9, offset: 55039},
 																									expr: &actionExpr{
 																										pos: position{line: 677, col: 14, offset: 21525},
 																										run: (*parser).callonExtraListElement454,
@@ -27851,18 +28069,18 @@ var g = &grammar{
 																											pos: position{line: 677, col: 14, offset: 21525},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2894, col: 11, offset: 91557},
+																													pos: position{line: 2895, col: 11, offset: 91580},
 																													expr: &anyMatcher{
-																														line: 2894, col: 13, offset: 91559,
+																														line: 2895, col: 13, offset: 91582,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 677, col: 21, offset: 21532},
 																													expr: &actionExpr{
-																														pos: position{line: 2877, col: 10, offset: 91223},
+																														pos: position{line: 2878, col: 10, offset: 91246},
 																														run: (*parser).callonExtraListElement459,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2877, col: 10, offset: 91223},
+																															pos:        position{line: 2878, col: 10, offset: 91246},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27871,28 +28089,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2899, col: 8, offset: 91621},
+																													pos: position{line: 2900, col: 8, offset: 91644},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2886, col: 12, offset: 91394},
+																															pos: position{line: 2887, col: 12, offset: 91417},
 																															run: (*parser).callonExtraListElement462,
 																															expr: &choiceExpr{
-																																pos: position{line: 2886, col: 13, offset: 91395},
+																																pos: position{line: 2887, col: 13, offset: 91418},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2886, col: 13, offset: 91395},
+																																		pos:        position{line: 2887, col: 13, offset: 91418},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2886, col: 20, offset: 91402},
+																																		pos:        position{line: 2887, col: 20, offset: 91425},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2886, col: 29, offset: 91411},
+																																		pos:        position{line: 2887, col: 29, offset: 91434},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -27901,9 +28119,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2896, col: 8, offset: 91571},
+																															pos: position{line: 2897, col: 8, offset: 91594},
 																															expr: &anyMatcher{
-																																line: 2896, col: 9, offset: 91572,
+																																line: 2897, col: 9, offset: 91595,
 																															},
 																														},
 																													},
@@ -27916,18 +28134,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1699, col: 9, offset: 55145},
+																						pos: position{line: 1700, col: 9, offset: 55168},
 																						run: (*parser).callonExtraListElement469,
 																						expr: &seqExpr{
-																							pos: position{line: 1699, col: 9, offset: 55145},
+																							pos: position{line: 1700, col: 9, offset: 55168},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2881, col: 11, offset: 91284},
+																									pos: position{line: 2882, col: 11, offset: 91307},
 																									run: (*parser).callonExtraListElement471,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2881, col: 11, offset: 91284},
+																										pos: position{line: 2882, col: 11, offset: 91307},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2881, col: 11, offset: 91284},
+																											pos:        position{line: 2882, col: 11, offset: 91307},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27936,15 +28154,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1700, col: 9, offset: 55218},
+																									pos:   position{line: 1701, col: 9, offset: 55241},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1700, col: 18, offset: 55227},
+																										pos: position{line: 1701, col: 18, offset: 55250},
 																										run: (*parser).callonExtraListElement475,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1700, col: 18, offset: 55227},
+																											pos: position{line: 1701, col: 18, offset: 55250},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1700, col: 18, offset: 55227},
+																												pos:        position{line: 1701, col: 18, offset: 55250},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -27954,28 +28172,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2899, col: 8, offset: 91621},
+																									pos: position{line: 2900, col: 8, offset: 91644},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2886, col: 12, offset: 91394},
+																											pos: position{line: 2887, col: 12, offset: 91417},
 																											run: (*parser).callonExtraListElement479,
 																											expr: &choiceExpr{
-																												pos: position{line: 2886, col: 13, offset: 91395},
+																												pos: position{line: 2887, col: 13, offset: 91418},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 13, offset: 91395},
+																														pos:        position{line: 2887, col: 13, offset: 91418},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 20, offset: 91402},
+																														pos:        position{line: 2887, col: 20, offset: 91425},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 29, offset: 91411},
+																														pos:        position{line: 2887, col: 29, offset: 91434},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27984,9 +28202,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2896, col: 8, offset: 91571},
+																											pos: position{line: 2897, col: 8, offset: 91594},
 																											expr: &anyMatcher{
-																												line: 2896, col: 9, offset: 91572,
+																												line: 2897, col: 9, offset: 91595,
 																											},
 																										},
 																									},
@@ -28007,40 +28225,40 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1508, col: 11, offset: 49111},
+										pos:  position{line: 1509, col: 11, offset: 49134},
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2484, col: 22, offset: 80109},
+										pos: position{line: 2485, col: 22, offset: 80132},
 										run: (*parser).callonExtraListElement487,
 										expr: &seqExpr{
-											pos: position{line: 2484, col: 22, offset: 80109},
+											pos: position{line: 2485, col: 22, offset: 80132},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2489, col: 31, offset: 80330},
+													pos:        position{line: 2490, col: 31, offset: 80353},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2489, col: 36, offset: 80335},
+													pos: position{line: 2490, col: 36, offset: 80358},
 													expr: &litMatcher{
-														pos:        position{line: 2489, col: 37, offset: 80336},
+														pos:        position{line: 2490, col: 37, offset: 80359},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2484, col: 49, offset: 80136},
+													pos:   position{line: 2485, col: 49, offset: 80159},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2823, col: 13, offset: 89749},
+														pos: position{line: 2824, col: 13, offset: 89772},
 														run: (*parser).callonExtraListElement493,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2823, col: 13, offset: 89749},
+															pos: position{line: 2824, col: 13, offset: 89772},
 															expr: &charClassMatcher{
-																pos:        position{line: 2823, col: 13, offset: 89749},
+																pos:        position{line: 2824, col: 13, offset: 89772},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -28050,28 +28268,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2899, col: 8, offset: 91621},
+													pos: position{line: 2900, col: 8, offset: 91644},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2886, col: 12, offset: 91394},
+															pos: position{line: 2887, col: 12, offset: 91417},
 															run: (*parser).callonExtraListElement497,
 															expr: &choiceExpr{
-																pos: position{line: 2886, col: 13, offset: 91395},
+																pos: position{line: 2887, col: 13, offset: 91418},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 13, offset: 91395},
+																		pos:        position{line: 2887, col: 13, offset: 91418},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 20, offset: 91402},
+																		pos:        position{line: 2887, col: 20, offset: 91425},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 29, offset: 91411},
+																		pos:        position{line: 2887, col: 29, offset: 91434},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -28080,9 +28298,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2896, col: 8, offset: 91571},
+															pos: position{line: 2897, col: 8, offset: 91594},
 															expr: &anyMatcher{
-																line: 2896, col: 9, offset: 91572,
+																line: 2897, col: 9, offset: 91595,
 															},
 														},
 													},
@@ -28091,13 +28309,13 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1516, col: 5, offset: 49389},
+										pos: position{line: 1517, col: 5, offset: 49412},
 										run: (*parser).callonExtraListElement504,
 										expr: &seqExpr{
-											pos: position{line: 1516, col: 5, offset: 49389},
+											pos: position{line: 1517, col: 5, offset: 49412},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 1516, col: 5, offset: 49389},
+													pos: position{line: 1517, col: 5, offset: 49412},
 													expr: &actionExpr{
 														pos: position{line: 677, col: 14, offset: 21525},
 														run: (*parser).callonExtraListElement507,
@@ -28105,18 +28323,18 @@ var g = &grammar{
 															pos: position{line: 677, col: 14, offset: 21525},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2894, col: 11, offset: 91557},
+																	pos: position{line: 2895, col: 11, offset: 91580},
 																	expr: &anyMatcher{
-																		line: 2894, col: 13, offset: 91559,
+																		line: 2895, col: 13, offset: 91582,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 677, col: 21, offset: 21532},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91223},
+																		pos: position{line: 2878, col: 10, offset: 91246},
 																		run: (*parser).callonExtraListElement512,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91223},
+																			pos:        position{line: 2878, col: 10, offset: 91246},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28125,28 +28343,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91621},
+																	pos: position{line: 2900, col: 8, offset: 91644},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91394},
+																			pos: position{line: 2887, col: 12, offset: 91417},
 																			run: (*parser).callonExtraListElement515,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91395},
+																				pos: position{line: 2887, col: 13, offset: 91418},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91395},
+																						pos:        position{line: 2887, col: 13, offset: 91418},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91402},
+																						pos:        position{line: 2887, col: 20, offset: 91425},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91411},
+																						pos:        position{line: 2887, col: 29, offset: 91434},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -28155,9 +28373,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91571},
+																			pos: position{line: 2897, col: 8, offset: 91594},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91572,
+																				line: 2897, col: 9, offset: 91595,
 																			},
 																		},
 																	},
@@ -28167,23 +28385,23 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1517, col: 5, offset: 49404},
+													pos: position{line: 1518, col: 5, offset: 49427},
 													expr: &seqExpr{
-														pos: position{line: 1547, col: 27, offset: 50230},
+														pos: position{line: 1548, col: 27, offset: 50253},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 1547, col: 27, offset: 50230},
+																pos:        position{line: 1548, col: 27, offset: 50253},
 																val:        "+",
 																ignoreCase: false,
 																want:       "\"+\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 1547, col: 31, offset: 50234},
+																pos: position{line: 1548, col: 31, offset: 50257},
 																expr: &actionExpr{
-																	pos: position{line: 2877, col: 10, offset: 91223},
+																	pos: position{line: 2878, col: 10, offset: 91246},
 																	run: (*parser).callonExtraListElement526,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2877, col: 10, offset: 91223},
+																		pos:        position{line: 2878, col: 10, offset: 91246},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -28192,25 +28410,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2886, col: 12, offset: 91394},
+																pos: position{line: 2887, col: 12, offset: 91417},
 																run: (*parser).callonExtraListElement528,
 																expr: &choiceExpr{
-																	pos: position{line: 2886, col: 13, offset: 91395},
+																	pos: position{line: 2887, col: 13, offset: 91418},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 13, offset: 91395},
+																			pos:        position{line: 2887, col: 13, offset: 91418},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 20, offset: 91402},
+																			pos:        position{line: 2887, col: 20, offset: 91425},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 29, offset: 91411},
+																			pos:        position{line: 2887, col: 29, offset: 91434},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -28222,20 +28440,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1518, col: 5, offset: 49432},
+													pos: position{line: 1519, col: 5, offset: 49455},
 													expr: &actionExpr{
-														pos: position{line: 1588, col: 5, offset: 51449},
+														pos: position{line: 1589, col: 5, offset: 51472},
 														run: (*parser).callonExtraListElement534,
 														expr: &seqExpr{
-															pos: position{line: 1588, col: 5, offset: 51449},
+															pos: position{line: 1589, col: 5, offset: 51472},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1588, col: 5, offset: 51449},
+																	pos: position{line: 1589, col: 5, offset: 51472},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91223},
+																		pos: position{line: 2878, col: 10, offset: 91246},
 																		run: (*parser).callonExtraListElement537,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91223},
+																			pos:        position{line: 2878, col: 10, offset: 91246},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28244,27 +28462,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1588, col: 12, offset: 51456},
+																	pos:   position{line: 1589, col: 12, offset: 51479},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1590, col: 9, offset: 51519},
+																		pos: position{line: 1591, col: 9, offset: 51542},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1590, col: 9, offset: 51519},
+																				pos: position{line: 1591, col: 9, offset: 51542},
 																				run: (*parser).callonExtraListElement541,
 																				expr: &seqExpr{
-																					pos: position{line: 1590, col: 9, offset: 51519},
+																					pos: position{line: 1591, col: 9, offset: 51542},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1590, col: 9, offset: 51519},
+																							pos:   position{line: 1591, col: 9, offset: 51542},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1590, col: 16, offset: 51526},
+																								pos: position{line: 1591, col: 16, offset: 51549},
 																								run: (*parser).callonExtraListElement544,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1590, col: 16, offset: 51526},
+																									pos: position{line: 1591, col: 16, offset: 51549},
 																									expr: &litMatcher{
-																										pos:        position{line: 1590, col: 17, offset: 51527},
+																										pos:        position{line: 1591, col: 17, offset: 51550},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -28273,22 +28491,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1594, col: 9, offset: 51627},
+																							pos: position{line: 1595, col: 9, offset: 51650},
 																							run: (*parser).callonExtraListElement547,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1613, col: 11, offset: 52344},
+																				pos: position{line: 1614, col: 11, offset: 52367},
 																				run: (*parser).callonExtraListElement548,
 																				expr: &seqExpr{
-																					pos: position{line: 1613, col: 11, offset: 52344},
+																					pos: position{line: 1614, col: 11, offset: 52367},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1613, col: 11, offset: 52344},
+																							pos: position{line: 1614, col: 11, offset: 52367},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1613, col: 12, offset: 52345},
+																								pos:        position{line: 1614, col: 12, offset: 52368},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -28296,7 +28514,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1613, col: 20, offset: 52353},
+																							pos:        position{line: 1614, col: 20, offset: 52376},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28305,20 +28523,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1615, col: 13, offset: 52470},
+																				pos: position{line: 1616, col: 13, offset: 52493},
 																				run: (*parser).callonExtraListElement553,
 																				expr: &seqExpr{
-																					pos: position{line: 1615, col: 13, offset: 52470},
+																					pos: position{line: 1616, col: 13, offset: 52493},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1615, col: 14, offset: 52471},
+																							pos:        position{line: 1616, col: 14, offset: 52494},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1615, col: 21, offset: 52478},
+																							pos:        position{line: 1616, col: 21, offset: 52501},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28327,20 +28545,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1617, col: 13, offset: 52598},
+																				pos: position{line: 1618, col: 13, offset: 52621},
 																				run: (*parser).callonExtraListElement557,
 																				expr: &seqExpr{
-																					pos: position{line: 1617, col: 13, offset: 52598},
+																					pos: position{line: 1618, col: 13, offset: 52621},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1617, col: 14, offset: 52599},
+																							pos:        position{line: 1618, col: 14, offset: 52622},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1617, col: 21, offset: 52606},
+																							pos:        position{line: 1618, col: 21, offset: 52629},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28349,15 +28567,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1619, col: 13, offset: 52726},
+																				pos: position{line: 1620, col: 13, offset: 52749},
 																				run: (*parser).callonExtraListElement561,
 																				expr: &seqExpr{
-																					pos: position{line: 1619, col: 13, offset: 52726},
+																					pos: position{line: 1620, col: 13, offset: 52749},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1619, col: 13, offset: 52726},
+																							pos: position{line: 1620, col: 13, offset: 52749},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1619, col: 14, offset: 52727},
+																								pos:        position{line: 1620, col: 14, offset: 52750},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -28365,7 +28583,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1619, col: 26, offset: 52739},
+																							pos:        position{line: 1620, col: 26, offset: 52762},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -28374,15 +28592,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1621, col: 13, offset: 52859},
+																				pos: position{line: 1622, col: 13, offset: 52882},
 																				run: (*parser).callonExtraListElement566,
 																				expr: &seqExpr{
-																					pos: position{line: 1621, col: 13, offset: 52859},
+																					pos: position{line: 1622, col: 13, offset: 52882},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1621, col: 13, offset: 52859},
+																							pos: position{line: 1622, col: 13, offset: 52882},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1621, col: 14, offset: 52860},
+																								pos:        position{line: 1622, col: 14, offset: 52883},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -28390,7 +28608,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1621, col: 26, offset: 52872},
+																							pos:        position{line: 1622, col: 26, offset: 52895},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -28402,12 +28620,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2881, col: 11, offset: 91284},
+																	pos: position{line: 2882, col: 11, offset: 91307},
 																	run: (*parser).callonExtraListElement571,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2881, col: 11, offset: 91284},
+																		pos: position{line: 2882, col: 11, offset: 91307},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2881, col: 11, offset: 91284},
+																			pos:        position{line: 2882, col: 11, offset: 91307},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28420,20 +28638,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1519, col: 5, offset: 49462},
+													pos: position{line: 1520, col: 5, offset: 49485},
 													expr: &actionExpr{
-														pos: position{line: 1638, col: 5, offset: 53411},
+														pos: position{line: 1639, col: 5, offset: 53434},
 														run: (*parser).callonExtraListElement575,
 														expr: &seqExpr{
-															pos: position{line: 1638, col: 5, offset: 53411},
+															pos: position{line: 1639, col: 5, offset: 53434},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1638, col: 5, offset: 53411},
+																	pos: position{line: 1639, col: 5, offset: 53434},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91223},
+																		pos: position{line: 2878, col: 10, offset: 91246},
 																		run: (*parser).callonExtraListElement578,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91223},
+																			pos:        position{line: 2878, col: 10, offset: 91246},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28442,24 +28660,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1639, col: 5, offset: 53423},
+																	pos:   position{line: 1640, col: 5, offset: 53446},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1640, col: 9, offset: 53439},
+																		pos: position{line: 1641, col: 9, offset: 53462},
 																		run: (*parser).callonExtraListElement581,
 																		expr: &choiceExpr{
-																			pos: position{line: 1640, col: 10, offset: 53440},
+																			pos: position{line: 1641, col: 10, offset: 53463},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1640, col: 11, offset: 53441},
+																					pos:        position{line: 1641, col: 11, offset: 53464},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1640, col: 18, offset: 53448},
+																					pos: position{line: 1641, col: 18, offset: 53471},
 																					expr: &litMatcher{
-																						pos:        position{line: 1640, col: 19, offset: 53449},
+																						pos:        position{line: 1641, col: 19, offset: 53472},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -28470,16 +28688,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1643, col: 7, offset: 53539},
+																	pos: position{line: 1644, col: 7, offset: 53562},
 																	run: (*parser).callonExtraListElement586,
 																},
 																&actionExpr{
-																	pos: position{line: 2881, col: 11, offset: 91284},
+																	pos: position{line: 2882, col: 11, offset: 91307},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2881, col: 11, offset: 91284},
+																		pos: position{line: 2882, col: 11, offset: 91307},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2881, col: 11, offset: 91284},
+																			pos:        position{line: 2882, col: 11, offset: 91307},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28492,29 +28710,29 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1520, col: 5, offset: 49494},
+													pos: position{line: 1521, col: 5, offset: 49517},
 													expr: &actionExpr{
-														pos: position{line: 1728, col: 5, offset: 55980},
+														pos: position{line: 1729, col: 5, offset: 56003},
 														run: (*parser).callonExtraListElement591,
 														expr: &seqExpr{
-															pos: position{line: 1728, col: 5, offset: 55980},
+															pos: position{line: 1729, col: 5, offset: 56003},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1728, col: 5, offset: 55980},
+																	pos:        position{line: 1729, col: 5, offset: 56003},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1728, col: 9, offset: 55984},
+																	pos:   position{line: 1729, col: 9, offset: 56007},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1728, col: 14, offset: 55989},
+																		pos: position{line: 1729, col: 14, offset: 56012},
 																		run: (*parser).callonExtraListElement595,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1728, col: 14, offset: 55989},
+																			pos: position{line: 1729, col: 14, offset: 56012},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1728, col: 14, offset: 55989},
+																				pos:        position{line: 1729, col: 14, offset: 56012},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -28524,18 +28742,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1728, col: 62, offset: 56037},
+																	pos:        position{line: 1729, col: 62, offset: 56060},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2881, col: 11, offset: 91284},
+																	pos: position{line: 2882, col: 11, offset: 91307},
 																	run: (*parser).callonExtraListElement599,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2881, col: 11, offset: 91284},
+																		pos: position{line: 2882, col: 11, offset: 91307},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2881, col: 11, offset: 91284},
+																			pos:        position{line: 2882, col: 11, offset: 91307},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28548,31 +28766,31 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1521, col: 5, offset: 49524},
+													pos: position{line: 1522, col: 5, offset: 49547},
 													expr: &seqExpr{
-														pos: position{line: 1521, col: 7, offset: 49526},
+														pos: position{line: 1522, col: 7, offset: 49549},
 														exprs: []interface{}{
 															&actionExpr{
-																pos: position{line: 1673, col: 5, offset: 54430},
+																pos: position{line: 1674, col: 5, offset: 54453},
 																run: (*parser).callonExtraListElement604,
 																expr: &seqExpr{
-																	pos: position{line: 1673, col: 5, offset: 54430},
+																	pos: position{line: 1674, col: 5, offset: 54453},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1673, col: 5, offset: 54430},
+																			pos: position{line: 1674, col: 5, offset: 54453},
 																			expr: &seqExpr{
-																				pos: position{line: 2489, col: 31, offset: 80330},
+																				pos: position{line: 2490, col: 31, offset: 80353},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2489, col: 31, offset: 80330},
+																						pos:        position{line: 2490, col: 31, offset: 80353},
 																						val:        "//",
 																						ignoreCase: false,
 																						want:       "\"//\"",
 																					},
 																					&notExpr{
-																						pos: position{line: 2489, col: 36, offset: 80335},
+																						pos: position{line: 2490, col: 36, offset: 80358},
 																						expr: &litMatcher{
-																							pos:        position{line: 2489, col: 37, offset: 80336},
+																							pos:        position{line: 2490, col: 37, offset: 80359},
 																							val:        "//",
 																							ignoreCase: false,
 																							want:       "\"//\"",
@@ -28582,28 +28800,28 @@ var g = &grammar{
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 1674, col: 5, offset: 54462},
+																			pos: position{line: 1675, col: 5, offset: 54485},
 																			expr: &seqExpr{
-																				pos: position{line: 1674, col: 6, offset: 54463},
+																				pos: position{line: 1675, col: 6, offset: 54486},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1674, col: 6, offset: 54463},
+																						pos: position{line: 1675, col: 6, offset: 54486},
 																						expr: &actionExpr{
-																							pos: position{line: 1679, col: 5, offset: 54613},
+																							pos: position{line: 1680, col: 5, offset: 54636},
 																							run: (*parser).callonExtraListElement614,
 																							expr: &seqExpr{
-																								pos: position{line: 1679, col: 5, offset: 54613},
+																								pos: position{line: 1680, col: 5, offset: 54636},
 																								exprs: []interface{}{
 																									&labeledExpr{
-																										pos:   position{line: 1679, col: 5, offset: 54613},
+																										pos:   position{line: 1680, col: 5, offset: 54636},
 																										label: "separator",
 																										expr: &actionExpr{
-																											pos: position{line: 1679, col: 16, offset: 54624},
+																											pos: position{line: 1680, col: 16, offset: 54647},
 																											run: (*parser).callonExtraListElement617,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1679, col: 16, offset: 54624},
+																												pos: position{line: 1680, col: 16, offset: 54647},
 																												expr: &litMatcher{
-																													pos:        position{line: 1679, col: 17, offset: 54625},
+																													pos:        position{line: 1680, col: 17, offset: 54648},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
@@ -28612,7 +28830,7 @@ var g = &grammar{
 																										},
 																									},
 																									&andCodeExpr{
-																										pos: position{line: 1682, col: 5, offset: 54682},
+																										pos: position{line: 1683, col: 5, offset: 54705},
 																										run: (*parser).callonExtraListElement620,
 																									},
 																								},
@@ -28620,30 +28838,30 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1674, col: 35, offset: 54492},
+																						pos: position{line: 1675, col: 35, offset: 54515},
 																						expr: &choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91621},
+																							pos: position{line: 2900, col: 8, offset: 91644},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91394},
+																									pos: position{line: 2887, col: 12, offset: 91417},
 																									run: (*parser).callonExtraListElement623,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91395},
+																										pos: position{line: 2887, col: 13, offset: 91418},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91395},
+																												pos:        position{line: 2887, col: 13, offset: 91418},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91402},
+																												pos:        position{line: 2887, col: 20, offset: 91425},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91411},
+																												pos:        position{line: 2887, col: 29, offset: 91434},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28652,16 +28870,16 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91571},
+																									pos: position{line: 2897, col: 8, offset: 91594},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91572,
+																										line: 2897, col: 9, offset: 91595,
 																									},
 																								},
 																							},
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1674, col: 40, offset: 54497,
+																						line: 1675, col: 40, offset: 54520,
 																					},
 																				},
 																			},
@@ -28670,21 +28888,21 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1679, col: 5, offset: 54613},
+																pos: position{line: 1680, col: 5, offset: 54636},
 																run: (*parser).callonExtraListElement631,
 																expr: &seqExpr{
-																	pos: position{line: 1679, col: 5, offset: 54613},
+																	pos: position{line: 1680, col: 5, offset: 54636},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1679, col: 5, offset: 54613},
+																			pos:   position{line: 1680, col: 5, offset: 54636},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1679, col: 16, offset: 54624},
+																				pos: position{line: 1680, col: 16, offset: 54647},
 																				run: (*parser).callonExtraListElement634,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1679, col: 16, offset: 54624},
+																					pos: position{line: 1680, col: 16, offset: 54647},
 																					expr: &litMatcher{
-																						pos:        position{line: 1679, col: 17, offset: 54625},
+																						pos:        position{line: 1680, col: 17, offset: 54648},
 																						val:        ":",
 																						ignoreCase: false,
 																						want:       "\":\"",
@@ -28693,7 +28911,7 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1682, col: 5, offset: 54682},
+																			pos: position{line: 1683, col: 5, offset: 54705},
 																			run: (*parser).callonExtraListElement637,
 																		},
 																	},
@@ -28703,17 +28921,17 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1522, col: 5, offset: 49582},
+													pos: position{line: 1523, col: 5, offset: 49605},
 													expr: &actionExpr{
-														pos: position{line: 724, col: 5, offset: 23078},
+														pos: position{line: 725, col: 5, offset: 23101},
 														run: (*parser).callonExtraListElement639,
 														expr: &seqExpr{
-															pos: position{line: 724, col: 5, offset: 23078},
+															pos: position{line: 725, col: 5, offset: 23101},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 724, col: 5, offset: 23078},
+																	pos: position{line: 725, col: 5, offset: 23101},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2767, col: 13, offset: 88297},
+																		pos:        position{line: 2768, col: 13, offset: 88320},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -28721,36 +28939,36 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 725, col: 5, offset: 23108},
+																	pos:   position{line: 726, col: 5, offset: 23131},
 																	label: "delimiter",
 																	expr: &choiceExpr{
-																		pos: position{line: 726, col: 9, offset: 23128},
+																		pos: position{line: 727, col: 9, offset: 23151},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 740, col: 5, offset: 23620},
+																				pos: position{line: 741, col: 5, offset: 23643},
 																				run: (*parser).callonExtraListElement645,
 																				expr: &seqExpr{
-																					pos: position{line: 740, col: 5, offset: 23620},
+																					pos: position{line: 741, col: 5, offset: 23643},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 740, col: 5, offset: 23620},
+																							pos:   position{line: 741, col: 5, offset: 23643},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 740, col: 16, offset: 23631},
+																								pos: position{line: 741, col: 16, offset: 23654},
 																								run: (*parser).callonExtraListElement648,
 																								expr: &seqExpr{
-																									pos: position{line: 740, col: 16, offset: 23631},
+																									pos: position{line: 741, col: 16, offset: 23654},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 740, col: 16, offset: 23631},
+																											pos:        position{line: 741, col: 16, offset: 23654},
 																											val:        "////",
 																											ignoreCase: false,
 																											want:       "\"////\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 740, col: 23, offset: 23638},
+																											pos: position{line: 741, col: 23, offset: 23661},
 																											expr: &litMatcher{
-																												pos:        position{line: 740, col: 23, offset: 23638},
+																												pos:        position{line: 741, col: 23, offset: 23661},
 																												val:        "/",
 																												ignoreCase: false,
 																												want:       "\"/\"",
@@ -28761,12 +28979,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 742, col: 8, offset: 23722},
+																							pos: position{line: 743, col: 8, offset: 23745},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91223},
+																								pos: position{line: 2878, col: 10, offset: 91246},
 																								run: (*parser).callonExtraListElement654,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91223},
+																									pos:        position{line: 2878, col: 10, offset: 91246},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28775,28 +28993,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91621},
+																							pos: position{line: 2900, col: 8, offset: 91644},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91394},
+																									pos: position{line: 2887, col: 12, offset: 91417},
 																									run: (*parser).callonExtraListElement657,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91395},
+																										pos: position{line: 2887, col: 13, offset: 91418},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91395},
+																												pos:        position{line: 2887, col: 13, offset: 91418},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91402},
+																												pos:        position{line: 2887, col: 20, offset: 91425},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91411},
+																												pos:        position{line: 2887, col: 29, offset: 91434},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28805,9 +29023,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91571},
+																									pos: position{line: 2897, col: 8, offset: 91594},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91572,
+																										line: 2897, col: 9, offset: 91595,
 																									},
 																								},
 																							},
@@ -28816,30 +29034,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 747, col: 5, offset: 23868},
+																				pos: position{line: 748, col: 5, offset: 23891},
 																				run: (*parser).callonExtraListElement664,
 																				expr: &seqExpr{
-																					pos: position{line: 747, col: 5, offset: 23868},
+																					pos: position{line: 748, col: 5, offset: 23891},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 747, col: 5, offset: 23868},
+																							pos:   position{line: 748, col: 5, offset: 23891},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 747, col: 16, offset: 23879},
+																								pos: position{line: 748, col: 16, offset: 23902},
 																								run: (*parser).callonExtraListElement667,
 																								expr: &seqExpr{
-																									pos: position{line: 747, col: 16, offset: 23879},
+																									pos: position{line: 748, col: 16, offset: 23902},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 747, col: 16, offset: 23879},
+																											pos:        position{line: 748, col: 16, offset: 23902},
 																											val:        "====",
 																											ignoreCase: false,
 																											want:       "\"====\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 747, col: 23, offset: 23886},
+																											pos: position{line: 748, col: 23, offset: 23909},
 																											expr: &litMatcher{
-																												pos:        position{line: 747, col: 23, offset: 23886},
+																												pos:        position{line: 748, col: 23, offset: 23909},
 																												val:        "=",
 																												ignoreCase: false,
 																												want:       "\"=\"",
@@ -28850,12 +29068,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 749, col: 8, offset: 23970},
+																							pos: position{line: 750, col: 8, offset: 23993},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91223},
+																								pos: position{line: 2878, col: 10, offset: 91246},
 																								run: (*parser).callonExtraListElement673,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91223},
+																									pos:        position{line: 2878, col: 10, offset: 91246},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28864,28 +29082,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91621},
+																							pos: position{line: 2900, col: 8, offset: 91644},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91394},
+																									pos: position{line: 2887, col: 12, offset: 91417},
 																									run: (*parser).callonExtraListElement676,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91395},
+																										pos: position{line: 2887, col: 13, offset: 91418},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91395},
+																												pos:        position{line: 2887, col: 13, offset: 91418},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91402},
+																												pos:        position{line: 2887, col: 20, offset: 91425},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91411},
+																												pos:        position{line: 2887, col: 29, offset: 91434},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28894,9 +29112,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91571},
+																									pos: position{line: 2897, col: 8, offset: 91594},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91572,
+																										line: 2897, col: 9, offset: 91595,
 																									},
 																								},
 																							},
@@ -28905,27 +29123,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 760, col: 26, offset: 24356},
+																				pos: position{line: 761, col: 26, offset: 24379},
 																				run: (*parser).callonExtraListElement683,
 																				expr: &seqExpr{
-																					pos: position{line: 760, col: 26, offset: 24356},
+																					pos: position{line: 761, col: 26, offset: 24379},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 760, col: 26, offset: 24356},
+																							pos:        position{line: 761, col: 26, offset: 24379},
 																							val:        "```",
 																							ignoreCase: false,
 																							want:       "\"```\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 760, col: 32, offset: 24362},
+																							pos:   position{line: 761, col: 32, offset: 24385},
 																							label: "language",
 																							expr: &actionExpr{
-																								pos: position{line: 764, col: 13, offset: 24492},
+																								pos: position{line: 765, col: 13, offset: 24515},
 																								run: (*parser).callonExtraListElement687,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 764, col: 14, offset: 24493},
+																									pos: position{line: 765, col: 14, offset: 24516},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 764, col: 14, offset: 24493},
+																										pos:        position{line: 765, col: 14, offset: 24516},
 																										val:        "[^\\r\\n`\\t ]",
 																										chars:      []rune{'\r', '\n', '`', '\t', ' '},
 																										ignoreCase: false,
@@ -28935,12 +29153,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 760, col: 52, offset: 24382},
+																							pos: position{line: 761, col: 52, offset: 24405},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91223},
+																								pos: position{line: 2878, col: 10, offset: 91246},
 																								run: (*parser).callonExtraListElement691,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91223},
+																									pos:        position{line: 2878, col: 10, offset: 91246},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28949,28 +29167,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91621},
+																							pos: position{line: 2900, col: 8, offset: 91644},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91394},
+																									pos: position{line: 2887, col: 12, offset: 91417},
 																									run: (*parser).callonExtraListElement694,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91395},
+																										pos: position{line: 2887, col: 13, offset: 91418},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91395},
+																												pos:        position{line: 2887, col: 13, offset: 91418},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91402},
+																												pos:        position{line: 2887, col: 20, offset: 91425},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91411},
+																												pos:        position{line: 2887, col: 29, offset: 91434},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28979,9 +29197,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91571},
+																									pos: position{line: 2897, col: 8, offset: 91594},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91572,
+																										line: 2897, col: 9, offset: 91595,
 																									},
 																								},
 																							},
@@ -28990,30 +29208,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 754, col: 5, offset: 24115},
+																				pos: position{line: 755, col: 5, offset: 24138},
 																				run: (*parser).callonExtraListElement701,
 																				expr: &seqExpr{
-																					pos: position{line: 754, col: 5, offset: 24115},
+																					pos: position{line: 755, col: 5, offset: 24138},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 754, col: 5, offset: 24115},
+																							pos:   position{line: 755, col: 5, offset: 24138},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 754, col: 16, offset: 24126},
+																								pos: position{line: 755, col: 16, offset: 24149},
 																								run: (*parser).callonExtraListElement704,
 																								expr: &seqExpr{
-																									pos: position{line: 754, col: 16, offset: 24126},
+																									pos: position{line: 755, col: 16, offset: 24149},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 754, col: 16, offset: 24126},
+																											pos:        position{line: 755, col: 16, offset: 24149},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 754, col: 22, offset: 24132},
+																											pos: position{line: 755, col: 22, offset: 24155},
 																											expr: &litMatcher{
-																												pos:        position{line: 754, col: 22, offset: 24132},
+																												pos:        position{line: 755, col: 22, offset: 24155},
 																												val:        "`",
 																												ignoreCase: false,
 																												want:       "\"`\"",
@@ -29024,12 +29242,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 756, col: 8, offset: 24216},
+																							pos: position{line: 757, col: 8, offset: 24239},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91223},
+																								pos: position{line: 2878, col: 10, offset: 91246},
 																								run: (*parser).callonExtraListElement710,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91223},
+																									pos:        position{line: 2878, col: 10, offset: 91246},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29038,28 +29256,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91621},
+																							pos: position{line: 2900, col: 8, offset: 91644},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91394},
+																									pos: position{line: 2887, col: 12, offset: 91417},
 																									run: (*parser).callonExtraListElement713,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91395},
+																										pos: position{line: 2887, col: 13, offset: 91418},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91395},
+																												pos:        position{line: 2887, col: 13, offset: 91418},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91402},
+																												pos:        position{line: 2887, col: 20, offset: 91425},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91411},
+																												pos:        position{line: 2887, col: 29, offset: 91434},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29068,9 +29286,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91571},
+																									pos: position{line: 2897, col: 8, offset: 91594},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91572,
+																										line: 2897, col: 9, offset: 91595,
 																									},
 																								},
 																							},
@@ -29079,30 +29297,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 769, col: 5, offset: 24657},
+																				pos: position{line: 770, col: 5, offset: 24680},
 																				run: (*parser).callonExtraListElement720,
 																				expr: &seqExpr{
-																					pos: position{line: 769, col: 5, offset: 24657},
+																					pos: position{line: 770, col: 5, offset: 24680},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 769, col: 5, offset: 24657},
+																							pos:   position{line: 770, col: 5, offset: 24680},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 769, col: 16, offset: 24668},
+																								pos: position{line: 770, col: 16, offset: 24691},
 																								run: (*parser).callonExtraListElement723,
 																								expr: &seqExpr{
-																									pos: position{line: 769, col: 16, offset: 24668},
+																									pos: position{line: 770, col: 16, offset: 24691},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 769, col: 16, offset: 24668},
+																											pos:        position{line: 770, col: 16, offset: 24691},
 																											val:        "----",
 																											ignoreCase: false,
 																											want:       "\"----\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 769, col: 23, offset: 24675},
+																											pos: position{line: 770, col: 23, offset: 24698},
 																											expr: &litMatcher{
-																												pos:        position{line: 769, col: 23, offset: 24675},
+																												pos:        position{line: 770, col: 23, offset: 24698},
 																												val:        "-",
 																												ignoreCase: false,
 																												want:       "\"-\"",
@@ -29113,12 +29331,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 771, col: 8, offset: 24759},
+																							pos: position{line: 772, col: 8, offset: 24782},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91223},
+																								pos: position{line: 2878, col: 10, offset: 91246},
 																								run: (*parser).callonExtraListElement729,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91223},
+																									pos:        position{line: 2878, col: 10, offset: 91246},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29127,28 +29345,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91621},
+																							pos: position{line: 2900, col: 8, offset: 91644},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91394},
+																									pos: position{line: 2887, col: 12, offset: 91417},
 																									run: (*parser).callonExtraListElement732,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91395},
+																										pos: position{line: 2887, col: 13, offset: 91418},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91395},
+																												pos:        position{line: 2887, col: 13, offset: 91418},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91402},
+																												pos:        position{line: 2887, col: 20, offset: 91425},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91411},
+																												pos:        position{line: 2887, col: 29, offset: 91434},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29157,9 +29375,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91571},
+																									pos: position{line: 2897, col: 8, offset: 91594},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91572,
+																										line: 2897, col: 9, offset: 91595,
 																									},
 																								},
 																							},
@@ -29168,30 +29386,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 783, col: 5, offset: 25133},
+																				pos: position{line: 784, col: 5, offset: 25156},
 																				run: (*parser).callonExtraListElement739,
 																				expr: &seqExpr{
-																					pos: position{line: 783, col: 5, offset: 25133},
+																					pos: position{line: 784, col: 5, offset: 25156},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 783, col: 5, offset: 25133},
+																							pos:   position{line: 784, col: 5, offset: 25156},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 783, col: 16, offset: 25144},
+																								pos: position{line: 784, col: 16, offset: 25167},
 																								run: (*parser).callonExtraListElement742,
 																								expr: &seqExpr{
-																									pos: position{line: 783, col: 16, offset: 25144},
+																									pos: position{line: 784, col: 16, offset: 25167},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 783, col: 16, offset: 25144},
+																											pos:        position{line: 784, col: 16, offset: 25167},
 																											val:        "....",
 																											ignoreCase: false,
 																											want:       "\"....\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 783, col: 23, offset: 25151},
+																											pos: position{line: 784, col: 23, offset: 25174},
 																											expr: &litMatcher{
-																												pos:        position{line: 783, col: 23, offset: 25151},
+																												pos:        position{line: 784, col: 23, offset: 25174},
 																												val:        ".",
 																												ignoreCase: false,
 																												want:       "\".\"",
@@ -29202,12 +29420,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 785, col: 8, offset: 25235},
+																							pos: position{line: 786, col: 8, offset: 25258},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91223},
+																								pos: position{line: 2878, col: 10, offset: 91246},
 																								run: (*parser).callonExtraListElement748,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91223},
+																									pos:        position{line: 2878, col: 10, offset: 91246},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29216,28 +29434,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91621},
+																							pos: position{line: 2900, col: 8, offset: 91644},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91394},
+																									pos: position{line: 2887, col: 12, offset: 91417},
 																									run: (*parser).callonExtraListElement751,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91395},
+																										pos: position{line: 2887, col: 13, offset: 91418},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91395},
+																												pos:        position{line: 2887, col: 13, offset: 91418},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91402},
+																												pos:        position{line: 2887, col: 20, offset: 91425},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91411},
+																												pos:        position{line: 2887, col: 29, offset: 91434},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29246,9 +29464,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91571},
+																									pos: position{line: 2897, col: 8, offset: 91594},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91572,
+																										line: 2897, col: 9, offset: 91595,
 																									},
 																								},
 																							},
@@ -29257,30 +29475,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 790, col: 5, offset: 25385},
+																				pos: position{line: 791, col: 5, offset: 25408},
 																				run: (*parser).callonExtraListElement758,
 																				expr: &seqExpr{
-																					pos: position{line: 790, col: 5, offset: 25385},
+																					pos: position{line: 791, col: 5, offset: 25408},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 790, col: 5, offset: 25385},
+																							pos:   position{line: 791, col: 5, offset: 25408},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 790, col: 16, offset: 25396},
+																								pos: position{line: 791, col: 16, offset: 25419},
 																								run: (*parser).callonExtraListElement761,
 																								expr: &seqExpr{
-																									pos: position{line: 790, col: 16, offset: 25396},
+																									pos: position{line: 791, col: 16, offset: 25419},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 790, col: 16, offset: 25396},
+																											pos:        position{line: 791, col: 16, offset: 25419},
 																											val:        "++++",
 																											ignoreCase: false,
 																											want:       "\"++++\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 790, col: 23, offset: 25403},
+																											pos: position{line: 791, col: 23, offset: 25426},
 																											expr: &litMatcher{
-																												pos:        position{line: 790, col: 23, offset: 25403},
+																												pos:        position{line: 791, col: 23, offset: 25426},
 																												val:        "+",
 																												ignoreCase: false,
 																												want:       "\"+\"",
@@ -29291,12 +29509,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 792, col: 8, offset: 25487},
+																							pos: position{line: 793, col: 8, offset: 25510},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91223},
+																								pos: position{line: 2878, col: 10, offset: 91246},
 																								run: (*parser).callonExtraListElement767,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91223},
+																									pos:        position{line: 2878, col: 10, offset: 91246},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29305,28 +29523,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91621},
+																							pos: position{line: 2900, col: 8, offset: 91644},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91394},
+																									pos: position{line: 2887, col: 12, offset: 91417},
 																									run: (*parser).callonExtraListElement770,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91395},
+																										pos: position{line: 2887, col: 13, offset: 91418},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91395},
+																												pos:        position{line: 2887, col: 13, offset: 91418},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91402},
+																												pos:        position{line: 2887, col: 20, offset: 91425},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91411},
+																												pos:        position{line: 2887, col: 29, offset: 91434},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29335,9 +29553,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91571},
+																									pos: position{line: 2897, col: 8, offset: 91594},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91572,
+																										line: 2897, col: 9, offset: 91595,
 																									},
 																								},
 																							},
@@ -29346,30 +29564,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 797, col: 5, offset: 25635},
+																				pos: position{line: 798, col: 5, offset: 25658},
 																				run: (*parser).callonExtraListElement777,
 																				expr: &seqExpr{
-																					pos: position{line: 797, col: 5, offset: 25635},
+																					pos: position{line: 798, col: 5, offset: 25658},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 797, col: 5, offset: 25635},
+																							pos:   position{line: 798, col: 5, offset: 25658},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 797, col: 16, offset: 25646},
+																								pos: position{line: 798, col: 16, offset: 25669},
 																								run: (*parser).callonExtraListElement780,
 																								expr: &seqExpr{
-																									pos: position{line: 797, col: 16, offset: 25646},
+																									pos: position{line: 798, col: 16, offset: 25669},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 797, col: 16, offset: 25646},
+																											pos:        position{line: 798, col: 16, offset: 25669},
 																											val:        "____",
 																											ignoreCase: false,
 																											want:       "\"____\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 797, col: 23, offset: 25653},
+																											pos: position{line: 798, col: 23, offset: 25676},
 																											expr: &litMatcher{
-																												pos:        position{line: 797, col: 23, offset: 25653},
+																												pos:        position{line: 798, col: 23, offset: 25676},
 																												val:        "_",
 																												ignoreCase: false,
 																												want:       "\"_\"",
@@ -29380,12 +29598,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 799, col: 8, offset: 25737},
+																							pos: position{line: 800, col: 8, offset: 25760},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91223},
+																								pos: position{line: 2878, col: 10, offset: 91246},
 																								run: (*parser).callonExtraListElement786,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91223},
+																									pos:        position{line: 2878, col: 10, offset: 91246},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29394,28 +29612,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91621},
+																							pos: position{line: 2900, col: 8, offset: 91644},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91394},
+																									pos: position{line: 2887, col: 12, offset: 91417},
 																									run: (*parser).callonExtraListElement789,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91395},
+																										pos: position{line: 2887, col: 13, offset: 91418},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91395},
+																												pos:        position{line: 2887, col: 13, offset: 91418},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91402},
+																												pos:        position{line: 2887, col: 20, offset: 91425},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91411},
+																												pos:        position{line: 2887, col: 29, offset: 91434},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29424,9 +29642,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91571},
+																									pos: position{line: 2897, col: 8, offset: 91594},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91572,
+																										line: 2897, col: 9, offset: 91595,
 																									},
 																								},
 																							},
@@ -29435,30 +29653,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 804, col: 5, offset: 25881},
+																				pos: position{line: 805, col: 5, offset: 25904},
 																				run: (*parser).callonExtraListElement796,
 																				expr: &seqExpr{
-																					pos: position{line: 804, col: 5, offset: 25881},
+																					pos: position{line: 805, col: 5, offset: 25904},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 804, col: 5, offset: 25881},
+																							pos:   position{line: 805, col: 5, offset: 25904},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 804, col: 16, offset: 25892},
+																								pos: position{line: 805, col: 16, offset: 25915},
 																								run: (*parser).callonExtraListElement799,
 																								expr: &seqExpr{
-																									pos: position{line: 804, col: 16, offset: 25892},
+																									pos: position{line: 805, col: 16, offset: 25915},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 804, col: 16, offset: 25892},
+																											pos:        position{line: 805, col: 16, offset: 25915},
 																											val:        "****",
 																											ignoreCase: false,
 																											want:       "\"****\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 804, col: 23, offset: 25899},
+																											pos: position{line: 805, col: 23, offset: 25922},
 																											expr: &litMatcher{
-																												pos:        position{line: 804, col: 23, offset: 25899},
+																												pos:        position{line: 805, col: 23, offset: 25922},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -29469,12 +29687,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 806, col: 8, offset: 25983},
+																							pos: position{line: 807, col: 8, offset: 26006},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91223},
+																								pos: position{line: 2878, col: 10, offset: 91246},
 																								run: (*parser).callonExtraListElement805,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91223},
+																									pos:        position{line: 2878, col: 10, offset: 91246},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29483,28 +29701,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91621},
+																							pos: position{line: 2900, col: 8, offset: 91644},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91394},
+																									pos: position{line: 2887, col: 12, offset: 91417},
 																									run: (*parser).callonExtraListElement808,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91395},
+																										pos: position{line: 2887, col: 13, offset: 91418},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91395},
+																												pos:        position{line: 2887, col: 13, offset: 91418},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91402},
+																												pos:        position{line: 2887, col: 20, offset: 91425},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91411},
+																												pos:        position{line: 2887, col: 29, offset: 91434},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29513,9 +29731,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91571},
+																									pos: position{line: 2897, col: 8, offset: 91594},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91572,
+																										line: 2897, col: 9, offset: 91595,
 																									},
 																								},
 																							},
@@ -29531,15 +29749,15 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1523, col: 5, offset: 49602},
+													pos:   position{line: 1524, col: 5, offset: 49625},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2827, col: 14, offset: 89816},
+														pos: position{line: 2828, col: 14, offset: 89839},
 														run: (*parser).callonExtraListElement816,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2827, col: 14, offset: 89816},
+															pos: position{line: 2828, col: 14, offset: 89839},
 															expr: &charClassMatcher{
-																pos:        position{line: 2827, col: 14, offset: 89816},
+																pos:        position{line: 2828, col: 14, offset: 89839},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -29549,28 +29767,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2899, col: 8, offset: 91621},
+													pos: position{line: 2900, col: 8, offset: 91644},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2886, col: 12, offset: 91394},
+															pos: position{line: 2887, col: 12, offset: 91417},
 															run: (*parser).callonExtraListElement820,
 															expr: &choiceExpr{
-																pos: position{line: 2886, col: 13, offset: 91395},
+																pos: position{line: 2887, col: 13, offset: 91418},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 13, offset: 91395},
+																		pos:        position{line: 2887, col: 13, offset: 91418},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 20, offset: 91402},
+																		pos:        position{line: 2887, col: 20, offset: 91425},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 29, offset: 91411},
+																		pos:        position{line: 2887, col: 29, offset: 91434},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -29579,9 +29797,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2896, col: 8, offset: 91571},
+															pos: position{line: 2897, col: 8, offset: 91594},
 															expr: &anyMatcher{
-																line: 2896, col: 9, offset: 91572,
+																line: 2897, col: 9, offset: 91595,
 															},
 														},
 													},
@@ -29598,28 +29816,28 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuation",
-			pos:  position{line: 1539, col: 1, offset: 49993},
+			pos:  position{line: 1540, col: 1, offset: 50016},
 			expr: &actionExpr{
-				pos: position{line: 1540, col: 5, offset: 50018},
+				pos: position{line: 1541, col: 5, offset: 50041},
 				run: (*parser).callonListContinuation1,
 				expr: &seqExpr{
-					pos: position{line: 1540, col: 5, offset: 50018},
+					pos: position{line: 1541, col: 5, offset: 50041},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1540, col: 5, offset: 50018},
+							pos:   position{line: 1541, col: 5, offset: 50041},
 							label: "offset",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1540, col: 12, offset: 50025},
+								pos: position{line: 1541, col: 12, offset: 50048},
 								expr: &seqExpr{
-									pos: position{line: 1540, col: 13, offset: 50026},
+									pos: position{line: 1541, col: 13, offset: 50049},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 1540, col: 13, offset: 50026},
+											pos: position{line: 1541, col: 13, offset: 50049},
 											expr: &actionExpr{
-												pos: position{line: 2877, col: 10, offset: 91223},
+												pos: position{line: 2878, col: 10, offset: 91246},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2877, col: 10, offset: 91223},
+													pos:        position{line: 2878, col: 10, offset: 91246},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -29628,25 +29846,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2886, col: 12, offset: 91394},
+											pos: position{line: 2887, col: 12, offset: 91417},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2886, col: 13, offset: 91395},
+												pos: position{line: 2887, col: 13, offset: 91418},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2886, col: 13, offset: 91395},
+														pos:        position{line: 2887, col: 13, offset: 91418},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2886, col: 20, offset: 91402},
+														pos:        position{line: 2887, col: 20, offset: 91425},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2886, col: 29, offset: 91411},
+														pos:        position{line: 2887, col: 29, offset: 91434},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -29659,18 +29877,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1547, col: 27, offset: 50230},
+							pos:        position{line: 1548, col: 27, offset: 50253},
 							val:        "+",
 							ignoreCase: false,
 							want:       "\"+\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1547, col: 31, offset: 50234},
+							pos: position{line: 1548, col: 31, offset: 50257},
 							expr: &actionExpr{
-								pos: position{line: 2877, col: 10, offset: 91223},
+								pos: position{line: 2878, col: 10, offset: 91246},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2877, col: 10, offset: 91223},
+									pos:        position{line: 2878, col: 10, offset: 91246},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -29679,25 +29897,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2886, col: 12, offset: 91394},
+							pos: position{line: 2887, col: 12, offset: 91417},
 							run: (*parser).callonListContinuation18,
 							expr: &choiceExpr{
-								pos: position{line: 2886, col: 13, offset: 91395},
+								pos: position{line: 2887, col: 13, offset: 91418},
 								alternatives: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2886, col: 13, offset: 91395},
+										pos:        position{line: 2887, col: 13, offset: 91418},
 										val:        "\n",
 										ignoreCase: false,
 										want:       "\"\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2886, col: 20, offset: 91402},
+										pos:        position{line: 2887, col: 20, offset: 91425},
 										val:        "\r\n",
 										ignoreCase: false,
 										want:       "\"\\r\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2886, col: 29, offset: 91411},
+										pos:        position{line: 2887, col: 29, offset: 91434},
 										val:        "\r",
 										ignoreCase: false,
 										want:       "\"\\r\"",
@@ -29706,12 +29924,12 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1542, col: 5, offset: 50075},
+							pos:   position{line: 1543, col: 5, offset: 50098},
 							label: "element",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1542, col: 13, offset: 50083},
+								pos: position{line: 1543, col: 13, offset: 50106},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1542, col: 13, offset: 50083},
+									pos:  position{line: 1543, col: 13, offset: 50106},
 									name: "ListContinuationElement",
 								},
 							},
@@ -29722,46 +29940,46 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuationElement",
-			pos:  position{line: 1549, col: 1, offset: 50250},
+			pos:  position{line: 1550, col: 1, offset: 50273},
 			expr: &actionExpr{
-				pos: position{line: 1550, col: 5, offset: 50321},
+				pos: position{line: 1551, col: 5, offset: 50344},
 				run: (*parser).callonListContinuationElement1,
 				expr: &seqExpr{
-					pos: position{line: 1550, col: 5, offset: 50321},
+					pos: position{line: 1551, col: 5, offset: 50344},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2894, col: 11, offset: 91557},
+							pos: position{line: 2895, col: 11, offset: 91580},
 							expr: &anyMatcher{
-								line: 2894, col: 13, offset: 91559,
+								line: 2895, col: 13, offset: 91582,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1551, col: 5, offset: 50349},
+							pos: position{line: 1552, col: 5, offset: 50372},
 							expr: &choiceExpr{
-								pos: position{line: 1488, col: 5, offset: 48307},
+								pos: position{line: 1489, col: 5, offset: 48330},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1581, col: 5, offset: 51241},
+										pos: position{line: 1582, col: 5, offset: 51264},
 										run: (*parser).callonListContinuationElement7,
 										expr: &seqExpr{
-											pos: position{line: 1581, col: 5, offset: 51241},
+											pos: position{line: 1582, col: 5, offset: 51264},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1581, col: 5, offset: 51241},
+													pos:   position{line: 1582, col: 5, offset: 51264},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1588, col: 5, offset: 51449},
+														pos: position{line: 1589, col: 5, offset: 51472},
 														run: (*parser).callonListContinuationElement10,
 														expr: &seqExpr{
-															pos: position{line: 1588, col: 5, offset: 51449},
+															pos: position{line: 1589, col: 5, offset: 51472},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1588, col: 5, offset: 51449},
+																	pos: position{line: 1589, col: 5, offset: 51472},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91223},
+																		pos: position{line: 2878, col: 10, offset: 91246},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91223},
+																			pos:        position{line: 2878, col: 10, offset: 91246},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29770,27 +29988,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1588, col: 12, offset: 51456},
+																	pos:   position{line: 1589, col: 12, offset: 51479},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1590, col: 9, offset: 51519},
+																		pos: position{line: 1591, col: 9, offset: 51542},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1590, col: 9, offset: 51519},
+																				pos: position{line: 1591, col: 9, offset: 51542},
 																				run: (*parser).callonListContinuationElement17,
 																				expr: &seqExpr{
-																					pos: position{line: 1590, col: 9, offset: 51519},
+																					pos: position{line: 1591, col: 9, offset: 51542},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1590, col: 9, offset: 51519},
+																							pos:   position{line: 1591, col: 9, offset: 51542},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1590, col: 16, offset: 51526},
+																								pos: position{line: 1591, col: 16, offset: 51549},
 																								run: (*parser).callonListContinuationElement20,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1590, col: 16, offset: 51526},
+																									pos: position{line: 1591, col: 16, offset: 51549},
 																									expr: &litMatcher{
-																										pos:        position{line: 1590, col: 17, offset: 51527},
+																										pos:        position{line: 1591, col: 17, offset: 51550},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -29799,22 +30017,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1594, col: 9, offset: 51627},
+																							pos: position{line: 1595, col: 9, offset: 51650},
 																							run: (*parser).callonListContinuationElement23,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1613, col: 11, offset: 52344},
+																				pos: position{line: 1614, col: 11, offset: 52367},
 																				run: (*parser).callonListContinuationElement24,
 																				expr: &seqExpr{
-																					pos: position{line: 1613, col: 11, offset: 52344},
+																					pos: position{line: 1614, col: 11, offset: 52367},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1613, col: 11, offset: 52344},
+																							pos: position{line: 1614, col: 11, offset: 52367},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1613, col: 12, offset: 52345},
+																								pos:        position{line: 1614, col: 12, offset: 52368},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -29822,7 +30040,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1613, col: 20, offset: 52353},
+																							pos:        position{line: 1614, col: 20, offset: 52376},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29831,20 +30049,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1615, col: 13, offset: 52470},
+																				pos: position{line: 1616, col: 13, offset: 52493},
 																				run: (*parser).callonListContinuationElement29,
 																				expr: &seqExpr{
-																					pos: position{line: 1615, col: 13, offset: 52470},
+																					pos: position{line: 1616, col: 13, offset: 52493},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1615, col: 14, offset: 52471},
+																							pos:        position{line: 1616, col: 14, offset: 52494},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1615, col: 21, offset: 52478},
+																							pos:        position{line: 1616, col: 21, offset: 52501},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29853,20 +30071,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1617, col: 13, offset: 52598},
+																				pos: position{line: 1618, col: 13, offset: 52621},
 																				run: (*parser).callonListContinuationElement33,
 																				expr: &seqExpr{
-																					pos: position{line: 1617, col: 13, offset: 52598},
+																					pos: position{line: 1618, col: 13, offset: 52621},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1617, col: 14, offset: 52599},
+																							pos:        position{line: 1618, col: 14, offset: 52622},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1617, col: 21, offset: 52606},
+																							pos:        position{line: 1618, col: 21, offset: 52629},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29875,15 +30093,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1619, col: 13, offset: 52726},
+																				pos: position{line: 1620, col: 13, offset: 52749},
 																				run: (*parser).callonListContinuationElement37,
 																				expr: &seqExpr{
-																					pos: position{line: 1619, col: 13, offset: 52726},
+																					pos: position{line: 1620, col: 13, offset: 52749},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1619, col: 13, offset: 52726},
+																							pos: position{line: 1620, col: 13, offset: 52749},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1619, col: 14, offset: 52727},
+																								pos:        position{line: 1620, col: 14, offset: 52750},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -29891,7 +30109,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1619, col: 26, offset: 52739},
+																							pos:        position{line: 1620, col: 26, offset: 52762},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -29900,15 +30118,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1621, col: 13, offset: 52859},
+																				pos: position{line: 1622, col: 13, offset: 52882},
 																				run: (*parser).callonListContinuationElement42,
 																				expr: &seqExpr{
-																					pos: position{line: 1621, col: 13, offset: 52859},
+																					pos: position{line: 1622, col: 13, offset: 52882},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1621, col: 13, offset: 52859},
+																							pos: position{line: 1622, col: 13, offset: 52882},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1621, col: 14, offset: 52860},
+																								pos:        position{line: 1622, col: 14, offset: 52883},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -29916,7 +30134,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1621, col: 26, offset: 52872},
+																							pos:        position{line: 1622, col: 26, offset: 52895},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -29928,12 +30146,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2881, col: 11, offset: 91284},
+																	pos: position{line: 2882, col: 11, offset: 91307},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2881, col: 11, offset: 91284},
+																		pos: position{line: 2882, col: 11, offset: 91307},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2881, col: 11, offset: 91284},
+																			pos:        position{line: 2882, col: 11, offset: 91307},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29946,26 +30164,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1582, col: 5, offset: 51280},
+													pos:   position{line: 1583, col: 5, offset: 51303},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1529, col: 5, offset: 49747},
+														pos: position{line: 1530, col: 5, offset: 49770},
 														run: (*parser).callonListContinuationElement51,
 														expr: &seqExpr{
-															pos: position{line: 1529, col: 5, offset: 49747},
+															pos: position{line: 1530, col: 5, offset: 49770},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1529, col: 5, offset: 49747},
+																	pos:   position{line: 1530, col: 5, offset: 49770},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1529, col: 14, offset: 49756},
+																		pos: position{line: 1530, col: 14, offset: 49779},
 																		expr: &actionExpr{
-																			pos: position{line: 1529, col: 15, offset: 49757},
+																			pos: position{line: 1530, col: 15, offset: 49780},
 																			run: (*parser).callonListContinuationElement55,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1529, col: 15, offset: 49757},
+																				pos: position{line: 1530, col: 15, offset: 49780},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1529, col: 15, offset: 49757},
+																					pos:        position{line: 1530, col: 15, offset: 49780},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -29976,28 +30194,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91621},
+																	pos: position{line: 2900, col: 8, offset: 91644},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91394},
+																			pos: position{line: 2887, col: 12, offset: 91417},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91395},
+																				pos: position{line: 2887, col: 13, offset: 91418},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91395},
+																						pos:        position{line: 2887, col: 13, offset: 91418},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91402},
+																						pos:        position{line: 2887, col: 20, offset: 91425},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91411},
+																						pos:        position{line: 2887, col: 29, offset: 91434},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30006,9 +30224,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91571},
+																			pos: position{line: 2897, col: 8, offset: 91594},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91572,
+																				line: 2897, col: 9, offset: 91595,
 																			},
 																		},
 																	},
@@ -30021,27 +30239,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1631, col: 5, offset: 53138},
+										pos: position{line: 1632, col: 5, offset: 53161},
 										run: (*parser).callonListContinuationElement66,
 										expr: &seqExpr{
-											pos: position{line: 1631, col: 5, offset: 53138},
+											pos: position{line: 1632, col: 5, offset: 53161},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1631, col: 5, offset: 53138},
+													pos:   position{line: 1632, col: 5, offset: 53161},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1638, col: 5, offset: 53411},
+														pos: position{line: 1639, col: 5, offset: 53434},
 														run: (*parser).callonListContinuationElement69,
 														expr: &seqExpr{
-															pos: position{line: 1638, col: 5, offset: 53411},
+															pos: position{line: 1639, col: 5, offset: 53434},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1638, col: 5, offset: 53411},
+																	pos: position{line: 1639, col: 5, offset: 53434},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91223},
+																		pos: position{line: 2878, col: 10, offset: 91246},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91223},
+																			pos:        position{line: 2878, col: 10, offset: 91246},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30050,24 +30268,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1639, col: 5, offset: 53423},
+																	pos:   position{line: 1640, col: 5, offset: 53446},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1640, col: 9, offset: 53439},
+																		pos: position{line: 1641, col: 9, offset: 53462},
 																		run: (*parser).callonListContinuationElement75,
 																		expr: &choiceExpr{
-																			pos: position{line: 1640, col: 10, offset: 53440},
+																			pos: position{line: 1641, col: 10, offset: 53463},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1640, col: 11, offset: 53441},
+																					pos:        position{line: 1641, col: 11, offset: 53464},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1640, col: 18, offset: 53448},
+																					pos: position{line: 1641, col: 18, offset: 53471},
 																					expr: &litMatcher{
-																						pos:        position{line: 1640, col: 19, offset: 53449},
+																						pos:        position{line: 1641, col: 19, offset: 53472},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -30078,16 +30296,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1643, col: 7, offset: 53539},
+																	pos: position{line: 1644, col: 7, offset: 53562},
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2881, col: 11, offset: 91284},
+																	pos: position{line: 2882, col: 11, offset: 91307},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2881, col: 11, offset: 91284},
+																		pos: position{line: 2882, col: 11, offset: 91307},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2881, col: 11, offset: 91284},
+																			pos:        position{line: 2882, col: 11, offset: 91307},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30100,56 +30318,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1632, col: 5, offset: 53179},
+													pos:   position{line: 1633, col: 5, offset: 53202},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1632, col: 16, offset: 53190},
+														pos: position{line: 1633, col: 16, offset: 53213},
 														expr: &actionExpr{
-															pos: position{line: 1653, col: 5, offset: 53804},
+															pos: position{line: 1654, col: 5, offset: 53827},
 															run: (*parser).callonListContinuationElement86,
 															expr: &seqExpr{
-																pos: position{line: 1653, col: 5, offset: 53804},
+																pos: position{line: 1654, col: 5, offset: 53827},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1653, col: 5, offset: 53804},
+																		pos: position{line: 1654, col: 5, offset: 53827},
 																		expr: &litMatcher{
-																			pos:        position{line: 1653, col: 6, offset: 53805},
+																			pos:        position{line: 1654, col: 6, offset: 53828},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1653, col: 10, offset: 53809},
+																		pos:   position{line: 1654, col: 10, offset: 53832},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1654, col: 7, offset: 53823},
+																			pos: position{line: 1655, col: 7, offset: 53846},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1654, col: 7, offset: 53823},
+																					pos: position{line: 1655, col: 7, offset: 53846},
 																					run: (*parser).callonListContinuationElement92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1654, col: 7, offset: 53823},
+																						pos:        position{line: 1655, col: 7, offset: 53846},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1655, col: 7, offset: 53868},
+																					pos: position{line: 1656, col: 7, offset: 53891},
 																					run: (*parser).callonListContinuationElement94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1655, col: 7, offset: 53868},
+																						pos:        position{line: 1656, col: 7, offset: 53891},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1656, col: 7, offset: 53911},
+																					pos: position{line: 1657, col: 7, offset: 53934},
 																					run: (*parser).callonListContinuationElement96,
 																					expr: &litMatcher{
-																						pos:        position{line: 1656, col: 7, offset: 53911},
+																						pos:        position{line: 1657, col: 7, offset: 53934},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -30159,12 +30377,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2881, col: 11, offset: 91284},
+																		pos: position{line: 2882, col: 11, offset: 91307},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2881, col: 11, offset: 91284},
+																			pos: position{line: 2882, col: 11, offset: 91307},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2881, col: 11, offset: 91284},
+																				pos:        position{line: 2882, col: 11, offset: 91307},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -30178,26 +30396,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1633, col: 5, offset: 53229},
+													pos:   position{line: 1634, col: 5, offset: 53252},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1529, col: 5, offset: 49747},
+														pos: position{line: 1530, col: 5, offset: 49770},
 														run: (*parser).callonListContinuationElement102,
 														expr: &seqExpr{
-															pos: position{line: 1529, col: 5, offset: 49747},
+															pos: position{line: 1530, col: 5, offset: 49770},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1529, col: 5, offset: 49747},
+																	pos:   position{line: 1530, col: 5, offset: 49770},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1529, col: 14, offset: 49756},
+																		pos: position{line: 1530, col: 14, offset: 49779},
 																		expr: &actionExpr{
-																			pos: position{line: 1529, col: 15, offset: 49757},
+																			pos: position{line: 1530, col: 15, offset: 49780},
 																			run: (*parser).callonListContinuationElement106,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1529, col: 15, offset: 49757},
+																				pos: position{line: 1530, col: 15, offset: 49780},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1529, col: 15, offset: 49757},
+																					pos:        position{line: 1530, col: 15, offset: 49780},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30208,28 +30426,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91621},
+																	pos: position{line: 2900, col: 8, offset: 91644},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91394},
+																			pos: position{line: 2887, col: 12, offset: 91417},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91395},
+																				pos: position{line: 2887, col: 13, offset: 91418},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91395},
+																						pos:        position{line: 2887, col: 13, offset: 91418},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91402},
+																						pos:        position{line: 2887, col: 20, offset: 91425},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91411},
+																						pos:        position{line: 2887, col: 29, offset: 91434},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30238,9 +30456,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91571},
+																			pos: position{line: 2897, col: 8, offset: 91594},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91572,
+																				line: 2897, col: 9, offset: 91595,
 																			},
 																		},
 																	},
@@ -30253,36 +30471,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1722, col: 5, offset: 55783},
+										pos: position{line: 1723, col: 5, offset: 55806},
 										run: (*parser).callonListContinuationElement117,
 										expr: &seqExpr{
-											pos: position{line: 1722, col: 5, offset: 55783},
+											pos: position{line: 1723, col: 5, offset: 55806},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1722, col: 5, offset: 55783},
+													pos:   position{line: 1723, col: 5, offset: 55806},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1728, col: 5, offset: 55980},
+														pos: position{line: 1729, col: 5, offset: 56003},
 														run: (*parser).callonListContinuationElement120,
 														expr: &seqExpr{
-															pos: position{line: 1728, col: 5, offset: 55980},
+															pos: position{line: 1729, col: 5, offset: 56003},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1728, col: 5, offset: 55980},
+																	pos:        position{line: 1729, col: 5, offset: 56003},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1728, col: 9, offset: 55984},
+																	pos:   position{line: 1729, col: 9, offset: 56007},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1728, col: 14, offset: 55989},
+																		pos: position{line: 1729, col: 14, offset: 56012},
 																		run: (*parser).callonListContinuationElement124,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1728, col: 14, offset: 55989},
+																			pos: position{line: 1729, col: 14, offset: 56012},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1728, col: 14, offset: 55989},
+																				pos:        position{line: 1729, col: 14, offset: 56012},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -30292,18 +30510,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1728, col: 62, offset: 56037},
+																	pos:        position{line: 1729, col: 62, offset: 56060},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2881, col: 11, offset: 91284},
+																	pos: position{line: 2882, col: 11, offset: 91307},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2881, col: 11, offset: 91284},
+																		pos: position{line: 2882, col: 11, offset: 91307},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2881, col: 11, offset: 91284},
+																			pos:        position{line: 2882, col: 11, offset: 91307},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30316,26 +30534,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1723, col: 5, offset: 55819},
+													pos:   position{line: 1724, col: 5, offset: 55842},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1529, col: 5, offset: 49747},
+														pos: position{line: 1530, col: 5, offset: 49770},
 														run: (*parser).callonListContinuationElement132,
 														expr: &seqExpr{
-															pos: position{line: 1529, col: 5, offset: 49747},
+															pos: position{line: 1530, col: 5, offset: 49770},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1529, col: 5, offset: 49747},
+																	pos:   position{line: 1530, col: 5, offset: 49770},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1529, col: 14, offset: 49756},
+																		pos: position{line: 1530, col: 14, offset: 49779},
 																		expr: &actionExpr{
-																			pos: position{line: 1529, col: 15, offset: 49757},
+																			pos: position{line: 1530, col: 15, offset: 49780},
 																			run: (*parser).callonListContinuationElement136,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1529, col: 15, offset: 49757},
+																				pos: position{line: 1530, col: 15, offset: 49780},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1529, col: 15, offset: 49757},
+																					pos:        position{line: 1530, col: 15, offset: 49780},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30346,28 +30564,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91621},
+																	pos: position{line: 2900, col: 8, offset: 91644},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91394},
+																			pos: position{line: 2887, col: 12, offset: 91417},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91395},
+																				pos: position{line: 2887, col: 13, offset: 91418},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91395},
+																						pos:        position{line: 2887, col: 13, offset: 91418},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91402},
+																						pos:        position{line: 2887, col: 20, offset: 91425},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91411},
+																						pos:        position{line: 2887, col: 29, offset: 91434},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30376,9 +30594,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91571},
+																			pos: position{line: 2897, col: 8, offset: 91594},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91572,
+																				line: 2897, col: 9, offset: 91595,
 																			},
 																		},
 																	},
@@ -30391,35 +30609,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1665, col: 5, offset: 54104},
+										pos: position{line: 1666, col: 5, offset: 54127},
 										run: (*parser).callonListContinuationElement147,
 										expr: &seqExpr{
-											pos: position{line: 1665, col: 5, offset: 54104},
+											pos: position{line: 1666, col: 5, offset: 54127},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1665, col: 5, offset: 54104},
+													pos:   position{line: 1666, col: 5, offset: 54127},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1673, col: 5, offset: 54430},
+														pos: position{line: 1674, col: 5, offset: 54453},
 														run: (*parser).callonListContinuationElement150,
 														expr: &seqExpr{
-															pos: position{line: 1673, col: 5, offset: 54430},
+															pos: position{line: 1674, col: 5, offset: 54453},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1673, col: 5, offset: 54430},
+																	pos: position{line: 1674, col: 5, offset: 54453},
 																	expr: &seqExpr{
-																		pos: position{line: 2489, col: 31, offset: 80330},
+																		pos: position{line: 2490, col: 31, offset: 80353},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2489, col: 31, offset: 80330},
+																				pos:        position{line: 2490, col: 31, offset: 80353},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2489, col: 36, offset: 80335},
+																				pos: position{line: 2490, col: 36, offset: 80358},
 																				expr: &litMatcher{
-																					pos:        position{line: 2489, col: 37, offset: 80336},
+																					pos:        position{line: 2490, col: 37, offset: 80359},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
@@ -30429,28 +30647,28 @@ var g = &grammar{
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 1674, col: 5, offset: 54462},
+																	pos: position{line: 1675, col: 5, offset: 54485},
 																	expr: &seqExpr{
-																		pos: position{line: 1674, col: 6, offset: 54463},
+																		pos: position{line: 1675, col: 6, offset: 54486},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1674, col: 6, offset: 54463},
+																				pos: position{line: 1675, col: 6, offset: 54486},
 																				expr: &actionExpr{
-																					pos: position{line: 1679, col: 5, offset: 54613},
+																					pos: position{line: 1680, col: 5, offset: 54636},
 																					run: (*parser).callonListContinuationElement160,
 																					expr: &seqExpr{
-																						pos: position{line: 1679, col: 5, offset: 54613},
+																						pos: position{line: 1680, col: 5, offset: 54636},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1679, col: 5, offset: 54613},
+																								pos:   position{line: 1680, col: 5, offset: 54636},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1679, col: 16, offset: 54624},
+																									pos: position{line: 1680, col: 16, offset: 54647},
 																									run: (*parser).callonListContinuationElement163,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1679, col: 16, offset: 54624},
+																										pos: position{line: 1680, col: 16, offset: 54647},
 																										expr: &litMatcher{
-																											pos:        position{line: 1679, col: 17, offset: 54625},
+																											pos:        position{line: 1680, col: 17, offset: 54648},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -30459,7 +30677,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1682, col: 5, offset: 54682},
+																								pos: position{line: 1683, col: 5, offset: 54705},
 																								run: (*parser).callonListContinuationElement166,
 																							},
 																						},
@@ -30467,30 +30685,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1674, col: 35, offset: 54492},
+																				pos: position{line: 1675, col: 35, offset: 54515},
 																				expr: &choiceExpr{
-																					pos: position{line: 2899, col: 8, offset: 91621},
+																					pos: position{line: 2900, col: 8, offset: 91644},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2886, col: 12, offset: 91394},
+																							pos: position{line: 2887, col: 12, offset: 91417},
 																							run: (*parser).callonListContinuationElement169,
 																							expr: &choiceExpr{
-																								pos: position{line: 2886, col: 13, offset: 91395},
+																								pos: position{line: 2887, col: 13, offset: 91418},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 13, offset: 91395},
+																										pos:        position{line: 2887, col: 13, offset: 91418},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 20, offset: 91402},
+																										pos:        position{line: 2887, col: 20, offset: 91425},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 29, offset: 91411},
+																										pos:        position{line: 2887, col: 29, offset: 91434},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -30499,16 +30717,16 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2896, col: 8, offset: 91571},
+																							pos: position{line: 2897, col: 8, offset: 91594},
 																							expr: &anyMatcher{
-																								line: 2896, col: 9, offset: 91572,
+																								line: 2897, col: 9, offset: 91595,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1674, col: 40, offset: 54497,
+																				line: 1675, col: 40, offset: 54520,
 																			},
 																		},
 																	},
@@ -30518,24 +30736,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1666, col: 5, offset: 54139},
+													pos:   position{line: 1667, col: 5, offset: 54162},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1679, col: 5, offset: 54613},
+														pos: position{line: 1680, col: 5, offset: 54636},
 														run: (*parser).callonListContinuationElement178,
 														expr: &seqExpr{
-															pos: position{line: 1679, col: 5, offset: 54613},
+															pos: position{line: 1680, col: 5, offset: 54636},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1679, col: 5, offset: 54613},
+																	pos:   position{line: 1680, col: 5, offset: 54636},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1679, col: 16, offset: 54624},
+																		pos: position{line: 1680, col: 16, offset: 54647},
 																		run: (*parser).callonListContinuationElement181,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1679, col: 16, offset: 54624},
+																			pos: position{line: 1680, col: 16, offset: 54647},
 																			expr: &litMatcher{
-																				pos:        position{line: 1679, col: 17, offset: 54625},
+																				pos:        position{line: 1680, col: 17, offset: 54648},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -30544,7 +30762,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1682, col: 5, offset: 54682},
+																	pos: position{line: 1683, col: 5, offset: 54705},
 																	run: (*parser).callonListContinuationElement184,
 																},
 															},
@@ -30552,24 +30770,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1667, col: 5, offset: 54184},
+													pos:   position{line: 1668, col: 5, offset: 54207},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1690, col: 5, offset: 54931},
+														pos: position{line: 1691, col: 5, offset: 54954},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1692, col: 9, offset: 54997},
+																pos: position{line: 1693, col: 9, offset: 55020},
 																run: (*parser).callonListContinuationElement187,
 																expr: &seqExpr{
-																	pos: position{line: 1692, col: 9, offset: 54997},
+																	pos: position{line: 1693, col: 9, offset: 55020},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1692, col: 9, offset: 54997},
+																			pos: position{line: 1693, col: 9, offset: 55020},
 																			expr: &actionExpr{
-																				pos: position{line: 2877, col: 10, offset: 91223},
+																				pos: position{line: 2878, col: 10, offset: 91246},
 																				run: (*parser).callonListContinuationElement190,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 10, offset: 91223},
+																					pos:        position{line: 2878, col: 10, offset: 91246},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30578,28 +30796,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2899, col: 8, offset: 91621},
+																			pos: position{line: 2900, col: 8, offset: 91644},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2886, col: 12, offset: 91394},
+																					pos: position{line: 2887, col: 12, offset: 91417},
 																					run: (*parser).callonListContinuationElement193,
 																					expr: &choiceExpr{
-																						pos: position{line: 2886, col: 13, offset: 91395},
+																						pos: position{line: 2887, col: 13, offset: 91418},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 13, offset: 91395},
+																								pos:        position{line: 2887, col: 13, offset: 91418},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 20, offset: 91402},
+																								pos:        position{line: 2887, col: 20, offset: 91425},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 29, offset: 91411},
+																								pos:        position{line: 2887, col: 29, offset: 91434},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30608,15 +30826,15 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91571},
+																					pos: position{line: 2897, col: 8, offset: 91594},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91572,
+																						line: 2897, col: 9, offset: 91595,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1693, col: 9, offset: 55016},
+																			pos: position{line: 1694, col: 9, offset: 55039},
 																			expr: &actionExpr{
 																				pos: position{line: 677, col: 14, offset: 21525},
 																				run: (*parser).callonListContinuationElement201,
@@ -30624,18 +30842,18 @@ var g = &grammar{
 																					pos: position{line: 677, col: 14, offset: 21525},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2894, col: 11, offset: 91557},
+																							pos: position{line: 2895, col: 11, offset: 91580},
 																							expr: &anyMatcher{
-																								line: 2894, col: 13, offset: 91559,
+																								line: 2895, col: 13, offset: 91582,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 677, col: 21, offset: 21532},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91223},
+																								pos: position{line: 2878, col: 10, offset: 91246},
 																								run: (*parser).callonListContinuationElement206,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91223},
+																									pos:        position{line: 2878, col: 10, offset: 91246},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30644,28 +30862,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91621},
+																							pos: position{line: 2900, col: 8, offset: 91644},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91394},
+																									pos: position{line: 2887, col: 12, offset: 91417},
 																									run: (*parser).callonListContinuationElement209,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91395},
+																										pos: position{line: 2887, col: 13, offset: 91418},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91395},
+																												pos:        position{line: 2887, col: 13, offset: 91418},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91402},
+																												pos:        position{line: 2887, col: 20, offset: 91425},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91411},
+																												pos:        position{line: 2887, col: 29, offset: 91434},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30674,9 +30892,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91571},
+																									pos: position{line: 2897, col: 8, offset: 91594},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91572,
+																										line: 2897, col: 9, offset: 91595,
 																									},
 																								},
 																							},
@@ -30689,18 +30907,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1699, col: 9, offset: 55145},
+																pos: position{line: 1700, col: 9, offset: 55168},
 																run: (*parser).callonListContinuationElement216,
 																expr: &seqExpr{
-																	pos: position{line: 1699, col: 9, offset: 55145},
+																	pos: position{line: 1700, col: 9, offset: 55168},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2881, col: 11, offset: 91284},
+																			pos: position{line: 2882, col: 11, offset: 91307},
 																			run: (*parser).callonListContinuationElement218,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2881, col: 11, offset: 91284},
+																				pos: position{line: 2882, col: 11, offset: 91307},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2881, col: 11, offset: 91284},
+																					pos:        position{line: 2882, col: 11, offset: 91307},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30709,15 +30927,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1700, col: 9, offset: 55218},
+																			pos:   position{line: 1701, col: 9, offset: 55241},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1700, col: 18, offset: 55227},
+																				pos: position{line: 1701, col: 18, offset: 55250},
 																				run: (*parser).callonListContinuationElement222,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1700, col: 18, offset: 55227},
+																					pos: position{line: 1701, col: 18, offset: 55250},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1700, col: 18, offset: 55227},
+																						pos:        position{line: 1701, col: 18, offset: 55250},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -30727,28 +30945,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2899, col: 8, offset: 91621},
+																			pos: position{line: 2900, col: 8, offset: 91644},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2886, col: 12, offset: 91394},
+																					pos: position{line: 2887, col: 12, offset: 91417},
 																					run: (*parser).callonListContinuationElement226,
 																					expr: &choiceExpr{
-																						pos: position{line: 2886, col: 13, offset: 91395},
+																						pos: position{line: 2887, col: 13, offset: 91418},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 13, offset: 91395},
+																								pos:        position{line: 2887, col: 13, offset: 91418},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 20, offset: 91402},
+																								pos:        position{line: 2887, col: 20, offset: 91425},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 29, offset: 91411},
+																								pos:        position{line: 2887, col: 29, offset: 91434},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30757,9 +30975,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91571},
+																					pos: position{line: 2897, col: 8, offset: 91594},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91572,
+																						line: 2897, col: 9, offset: 91595,
 																					},
 																				},
 																			},
@@ -30777,21 +30995,21 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1552, col: 5, offset: 50366},
+							pos:   position{line: 1553, col: 5, offset: 50389},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1552, col: 16, offset: 50377},
+								pos: position{line: 1553, col: 16, offset: 50400},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1552, col: 17, offset: 50378},
+									pos:  position{line: 1553, col: 17, offset: 50401},
 									name: "BlockAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1553, col: 5, offset: 50400},
+							pos:   position{line: 1554, col: 5, offset: 50423},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1554, col: 9, offset: 50418},
+								pos: position{line: 1555, col: 9, offset: 50441},
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 677, col: 14, offset: 21525},
@@ -30800,18 +31018,18 @@ var g = &grammar{
 											pos: position{line: 677, col: 14, offset: 21525},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2894, col: 11, offset: 91557},
+													pos: position{line: 2895, col: 11, offset: 91580},
 													expr: &anyMatcher{
-														line: 2894, col: 13, offset: 91559,
+														line: 2895, col: 13, offset: 91582,
 													},
 												},
 												&zeroOrMoreExpr{
 													pos: position{line: 677, col: 21, offset: 21532},
 													expr: &actionExpr{
-														pos: position{line: 2877, col: 10, offset: 91223},
+														pos: position{line: 2878, col: 10, offset: 91246},
 														run: (*parser).callonListContinuationElement243,
 														expr: &charClassMatcher{
-															pos:        position{line: 2877, col: 10, offset: 91223},
+															pos:        position{line: 2878, col: 10, offset: 91246},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30820,28 +31038,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2899, col: 8, offset: 91621},
+													pos: position{line: 2900, col: 8, offset: 91644},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2886, col: 12, offset: 91394},
+															pos: position{line: 2887, col: 12, offset: 91417},
 															run: (*parser).callonListContinuationElement246,
 															expr: &choiceExpr{
-																pos: position{line: 2886, col: 13, offset: 91395},
+																pos: position{line: 2887, col: 13, offset: 91418},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 13, offset: 91395},
+																		pos:        position{line: 2887, col: 13, offset: 91418},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 20, offset: 91402},
+																		pos:        position{line: 2887, col: 20, offset: 91425},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 29, offset: 91411},
+																		pos:        position{line: 2887, col: 29, offset: 91434},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30850,9 +31068,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2896, col: 8, offset: 91571},
+															pos: position{line: 2897, col: 8, offset: 91594},
 															expr: &anyMatcher{
-																line: 2896, col: 9, offset: 91572,
+																line: 2897, col: 9, offset: 91595,
 															},
 														},
 													},
@@ -30861,7 +31079,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1555, col: 11, offset: 50438},
+										pos:  position{line: 1556, col: 11, offset: 50461},
 										name: "AttributeDeclaration",
 									},
 									&actionExpr{
@@ -30917,10 +31135,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 359, col: 49, offset: 10879},
 													expr: &actionExpr{
-														pos: position{line: 2877, col: 10, offset: 91223},
+														pos: position{line: 2878, col: 10, offset: 91246},
 														run: (*parser).callonListContinuationElement265,
 														expr: &charClassMatcher{
-															pos:        position{line: 2877, col: 10, offset: 91223},
+															pos:        position{line: 2878, col: 10, offset: 91246},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30929,28 +31147,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2899, col: 8, offset: 91621},
+													pos: position{line: 2900, col: 8, offset: 91644},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2886, col: 12, offset: 91394},
+															pos: position{line: 2887, col: 12, offset: 91417},
 															run: (*parser).callonListContinuationElement268,
 															expr: &choiceExpr{
-																pos: position{line: 2886, col: 13, offset: 91395},
+																pos: position{line: 2887, col: 13, offset: 91418},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 13, offset: 91395},
+																		pos:        position{line: 2887, col: 13, offset: 91418},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 20, offset: 91402},
+																		pos:        position{line: 2887, col: 20, offset: 91425},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 29, offset: 91411},
+																		pos:        position{line: 2887, col: 29, offset: 91434},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30959,9 +31177,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2896, col: 8, offset: 91571},
+															pos: position{line: 2897, col: 8, offset: 91594},
 															expr: &anyMatcher{
-																line: 2896, col: 9, offset: 91572,
+																line: 2897, col: 9, offset: 91595,
 															},
 														},
 													},
@@ -31022,10 +31240,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 361, col: 39, offset: 11000},
 													expr: &actionExpr{
-														pos: position{line: 2877, col: 10, offset: 91223},
+														pos: position{line: 2878, col: 10, offset: 91246},
 														run: (*parser).callonListContinuationElement286,
 														expr: &charClassMatcher{
-															pos:        position{line: 2877, col: 10, offset: 91223},
+															pos:        position{line: 2878, col: 10, offset: 91246},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31034,28 +31252,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2899, col: 8, offset: 91621},
+													pos: position{line: 2900, col: 8, offset: 91644},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2886, col: 12, offset: 91394},
+															pos: position{line: 2887, col: 12, offset: 91417},
 															run: (*parser).callonListContinuationElement289,
 															expr: &choiceExpr{
-																pos: position{line: 2886, col: 13, offset: 91395},
+																pos: position{line: 2887, col: 13, offset: 91418},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 13, offset: 91395},
+																		pos:        position{line: 2887, col: 13, offset: 91418},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 20, offset: 91402},
+																		pos:        position{line: 2887, col: 20, offset: 91425},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 29, offset: 91411},
+																		pos:        position{line: 2887, col: 29, offset: 91434},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31064,9 +31282,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2896, col: 8, offset: 91571},
+															pos: position{line: 2897, col: 8, offset: 91594},
 															expr: &anyMatcher{
-																line: 2896, col: 9, offset: 91572,
+																line: 2897, col: 9, offset: 91595,
 															},
 														},
 													},
@@ -31075,36 +31293,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 820, col: 5, offset: 26365},
+										pos: position{line: 821, col: 5, offset: 26388},
 										run: (*parser).callonListContinuationElement296,
 										expr: &seqExpr{
-											pos: position{line: 820, col: 5, offset: 26365},
+											pos: position{line: 821, col: 5, offset: 26388},
 											exprs: []interface{}{
 												&actionExpr{
-													pos: position{line: 740, col: 5, offset: 23620},
+													pos: position{line: 741, col: 5, offset: 23643},
 													run: (*parser).callonListContinuationElement298,
 													expr: &seqExpr{
-														pos: position{line: 740, col: 5, offset: 23620},
+														pos: position{line: 741, col: 5, offset: 23643},
 														exprs: []interface{}{
 															&labeledExpr{
-																pos:   position{line: 740, col: 5, offset: 23620},
+																pos:   position{line: 741, col: 5, offset: 23643},
 																label: "delimiter",
 																expr: &actionExpr{
-																	pos: position{line: 740, col: 16, offset: 23631},
+																	pos: position{line: 741, col: 16, offset: 23654},
 																	run: (*parser).callonListContinuationElement301,
 																	expr: &seqExpr{
-																		pos: position{line: 740, col: 16, offset: 23631},
+																		pos: position{line: 741, col: 16, offset: 23654},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 740, col: 16, offset: 23631},
+																				pos:        position{line: 741, col: 16, offset: 23654},
 																				val:        "////",
 																				ignoreCase: false,
 																				want:       "\"////\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 740, col: 23, offset: 23638},
+																				pos: position{line: 741, col: 23, offset: 23661},
 																				expr: &litMatcher{
-																					pos:        position{line: 740, col: 23, offset: 23638},
+																					pos:        position{line: 741, col: 23, offset: 23661},
 																					val:        "/",
 																					ignoreCase: false,
 																					want:       "\"/\"",
@@ -31115,12 +31333,12 @@ var g = &grammar{
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 742, col: 8, offset: 23722},
+																pos: position{line: 743, col: 8, offset: 23745},
 																expr: &actionExpr{
-																	pos: position{line: 2877, col: 10, offset: 91223},
+																	pos: position{line: 2878, col: 10, offset: 91246},
 																	run: (*parser).callonListContinuationElement307,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2877, col: 10, offset: 91223},
+																		pos:        position{line: 2878, col: 10, offset: 91246},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -31129,28 +31347,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2899, col: 8, offset: 91621},
+																pos: position{line: 2900, col: 8, offset: 91644},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2886, col: 12, offset: 91394},
+																		pos: position{line: 2887, col: 12, offset: 91417},
 																		run: (*parser).callonListContinuationElement310,
 																		expr: &choiceExpr{
-																			pos: position{line: 2886, col: 13, offset: 91395},
+																			pos: position{line: 2887, col: 13, offset: 91418},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 13, offset: 91395},
+																					pos:        position{line: 2887, col: 13, offset: 91418},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 20, offset: 91402},
+																					pos:        position{line: 2887, col: 20, offset: 91425},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 29, offset: 91411},
+																					pos:        position{line: 2887, col: 29, offset: 91434},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -31159,9 +31377,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2896, col: 8, offset: 91571},
+																		pos: position{line: 2897, col: 8, offset: 91594},
 																		expr: &anyMatcher{
-																			line: 2896, col: 9, offset: 91572,
+																			line: 2897, col: 9, offset: 91595,
 																		},
 																	},
 																},
@@ -31170,46 +31388,46 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 821, col: 5, offset: 26396},
+													pos:   position{line: 822, col: 5, offset: 26419},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 831, col: 5, offset: 26682},
+														pos: position{line: 832, col: 5, offset: 26705},
 														expr: &actionExpr{
-															pos: position{line: 831, col: 6, offset: 26683},
+															pos: position{line: 832, col: 6, offset: 26706},
 															run: (*parser).callonListContinuationElement319,
 															expr: &seqExpr{
-																pos: position{line: 831, col: 6, offset: 26683},
+																pos: position{line: 832, col: 6, offset: 26706},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 831, col: 6, offset: 26683},
+																		pos: position{line: 832, col: 6, offset: 26706},
 																		expr: &choiceExpr{
-																			pos: position{line: 828, col: 29, offset: 26625},
+																			pos: position{line: 829, col: 29, offset: 26648},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 740, col: 5, offset: 23620},
+																					pos: position{line: 741, col: 5, offset: 23643},
 																					run: (*parser).callonListContinuationElement323,
 																					expr: &seqExpr{
-																						pos: position{line: 740, col: 5, offset: 23620},
+																						pos: position{line: 741, col: 5, offset: 23643},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 740, col: 5, offset: 23620},
+																								pos:   position{line: 741, col: 5, offset: 23643},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 740, col: 16, offset: 23631},
+																									pos: position{line: 741, col: 16, offset: 23654},
 																									run: (*parser).callonListContinuationElement326,
 																									expr: &seqExpr{
-																										pos: position{line: 740, col: 16, offset: 23631},
+																										pos: position{line: 741, col: 16, offset: 23654},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 740, col: 16, offset: 23631},
+																												pos:        position{line: 741, col: 16, offset: 23654},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 740, col: 23, offset: 23638},
+																												pos: position{line: 741, col: 23, offset: 23661},
 																												expr: &litMatcher{
-																													pos:        position{line: 740, col: 23, offset: 23638},
+																													pos:        position{line: 741, col: 23, offset: 23661},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -31220,12 +31438,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 742, col: 8, offset: 23722},
+																								pos: position{line: 743, col: 8, offset: 23745},
 																								expr: &actionExpr{
-																									pos: position{line: 2877, col: 10, offset: 91223},
+																									pos: position{line: 2878, col: 10, offset: 91246},
 																									run: (*parser).callonListContinuationElement332,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 10, offset: 91223},
+																										pos:        position{line: 2878, col: 10, offset: 91246},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -31234,28 +31452,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2899, col: 8, offset: 91621},
+																								pos: position{line: 2900, col: 8, offset: 91644},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2886, col: 12, offset: 91394},
+																										pos: position{line: 2887, col: 12, offset: 91417},
 																										run: (*parser).callonListContinuationElement335,
 																										expr: &choiceExpr{
-																											pos: position{line: 2886, col: 13, offset: 91395},
+																											pos: position{line: 2887, col: 13, offset: 91418},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 13, offset: 91395},
+																													pos:        position{line: 2887, col: 13, offset: 91418},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 20, offset: 91402},
+																													pos:        position{line: 2887, col: 20, offset: 91425},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 29, offset: 91411},
+																													pos:        position{line: 2887, col: 29, offset: 91434},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -31264,9 +31482,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2896, col: 8, offset: 91571},
+																										pos: position{line: 2897, col: 8, offset: 91594},
 																										expr: &anyMatcher{
-																											line: 2896, col: 9, offset: 91572,
+																											line: 2897, col: 9, offset: 91595,
 																										},
 																									},
 																								},
@@ -31275,39 +31493,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91571},
+																					pos: position{line: 2897, col: 8, offset: 91594},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91572,
+																						line: 2897, col: 9, offset: 91595,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 832, col: 5, offset: 26713},
+																		pos:   position{line: 833, col: 5, offset: 26736},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26129},
+																			pos: position{line: 812, col: 5, offset: 26152},
 																			run: (*parser).callonListContinuationElement345,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26129},
+																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2894, col: 11, offset: 91557},
+																						pos: position{line: 2895, col: 11, offset: 91580},
 																						expr: &anyMatcher{
-																							line: 2894, col: 13, offset: 91559,
+																							line: 2895, col: 13, offset: 91582,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26204},
+																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2823, col: 13, offset: 89749},
+																							pos: position{line: 2824, col: 13, offset: 89772},
 																							run: (*parser).callonListContinuationElement350,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2823, col: 13, offset: 89749},
+																								pos: position{line: 2824, col: 13, offset: 89772},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2823, col: 13, offset: 89749},
+																									pos:        position{line: 2824, col: 13, offset: 89772},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31317,28 +31535,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91621},
+																						pos: position{line: 2900, col: 8, offset: 91644},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91394},
+																								pos: position{line: 2887, col: 12, offset: 91417},
 																								run: (*parser).callonListContinuationElement354,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91395},
+																									pos: position{line: 2887, col: 13, offset: 91418},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91395},
+																											pos:        position{line: 2887, col: 13, offset: 91418},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91402},
+																											pos:        position{line: 2887, col: 20, offset: 91425},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91411},
+																											pos:        position{line: 2887, col: 29, offset: 91434},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31347,9 +31565,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91571},
+																								pos: position{line: 2897, col: 8, offset: 91594},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91572,
+																									line: 2897, col: 9, offset: 91595,
 																								},
 																							},
 																						},
@@ -31364,35 +31582,35 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 822, col: 5, offset: 26430},
+													pos: position{line: 823, col: 5, offset: 26453},
 													expr: &choiceExpr{
-														pos: position{line: 828, col: 29, offset: 26625},
+														pos: position{line: 829, col: 29, offset: 26648},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 740, col: 5, offset: 23620},
+																pos: position{line: 741, col: 5, offset: 23643},
 																run: (*parser).callonListContinuationElement363,
 																expr: &seqExpr{
-																	pos: position{line: 740, col: 5, offset: 23620},
+																	pos: position{line: 741, col: 5, offset: 23643},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 740, col: 5, offset: 23620},
+																			pos:   position{line: 741, col: 5, offset: 23643},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 740, col: 16, offset: 23631},
+																				pos: position{line: 741, col: 16, offset: 23654},
 																				run: (*parser).callonListContinuationElement366,
 																				expr: &seqExpr{
-																					pos: position{line: 740, col: 16, offset: 23631},
+																					pos: position{line: 741, col: 16, offset: 23654},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 740, col: 16, offset: 23631},
+																							pos:        position{line: 741, col: 16, offset: 23654},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 740, col: 23, offset: 23638},
+																							pos: position{line: 741, col: 23, offset: 23661},
 																							expr: &litMatcher{
-																								pos:        position{line: 740, col: 23, offset: 23638},
+																								pos:        position{line: 741, col: 23, offset: 23661},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -31403,12 +31621,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 742, col: 8, offset: 23722},
+																			pos: position{line: 743, col: 8, offset: 23745},
 																			expr: &actionExpr{
-																				pos: position{line: 2877, col: 10, offset: 91223},
+																				pos: position{line: 2878, col: 10, offset: 91246},
 																				run: (*parser).callonListContinuationElement372,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 10, offset: 91223},
+																					pos:        position{line: 2878, col: 10, offset: 91246},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -31417,28 +31635,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2899, col: 8, offset: 91621},
+																			pos: position{line: 2900, col: 8, offset: 91644},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2886, col: 12, offset: 91394},
+																					pos: position{line: 2887, col: 12, offset: 91417},
 																					run: (*parser).callonListContinuationElement375,
 																					expr: &choiceExpr{
-																						pos: position{line: 2886, col: 13, offset: 91395},
+																						pos: position{line: 2887, col: 13, offset: 91418},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 13, offset: 91395},
+																								pos:        position{line: 2887, col: 13, offset: 91418},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 20, offset: 91402},
+																								pos:        position{line: 2887, col: 20, offset: 91425},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 29, offset: 91411},
+																								pos:        position{line: 2887, col: 29, offset: 91434},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31447,9 +31665,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91571},
+																					pos: position{line: 2897, col: 8, offset: 91594},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91572,
+																						line: 2897, col: 9, offset: 91595,
 																					},
 																				},
 																			},
@@ -31458,9 +31676,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2896, col: 8, offset: 91571},
+																pos: position{line: 2897, col: 8, offset: 91594},
 																expr: &anyMatcher{
-																	line: 2896, col: 9, offset: 91572,
+																	line: 2897, col: 9, offset: 91595,
 																},
 															},
 														},
@@ -31470,39 +31688,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 840, col: 5, offset: 26866},
+										pos: position{line: 841, col: 5, offset: 26889},
 										run: (*parser).callonListContinuationElement384,
 										expr: &seqExpr{
-											pos: position{line: 840, col: 5, offset: 26866},
+											pos: position{line: 841, col: 5, offset: 26889},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 840, col: 5, offset: 26866},
+													pos:   position{line: 841, col: 5, offset: 26889},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 747, col: 5, offset: 23868},
+														pos: position{line: 748, col: 5, offset: 23891},
 														run: (*parser).callonListContinuationElement387,
 														expr: &seqExpr{
-															pos: position{line: 747, col: 5, offset: 23868},
+															pos: position{line: 748, col: 5, offset: 23891},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 747, col: 5, offset: 23868},
+																	pos:   position{line: 748, col: 5, offset: 23891},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 747, col: 16, offset: 23879},
+																		pos: position{line: 748, col: 16, offset: 23902},
 																		run: (*parser).callonListContinuationElement390,
 																		expr: &seqExpr{
-																			pos: position{line: 747, col: 16, offset: 23879},
+																			pos: position{line: 748, col: 16, offset: 23902},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 747, col: 16, offset: 23879},
+																					pos:        position{line: 748, col: 16, offset: 23902},
 																					val:        "====",
 																					ignoreCase: false,
 																					want:       "\"====\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 747, col: 23, offset: 23886},
+																					pos: position{line: 748, col: 23, offset: 23909},
 																					expr: &litMatcher{
-																						pos:        position{line: 747, col: 23, offset: 23886},
+																						pos:        position{line: 748, col: 23, offset: 23909},
 																						val:        "=",
 																						ignoreCase: false,
 																						want:       "\"=\"",
@@ -31513,12 +31731,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 749, col: 8, offset: 23970},
+																	pos: position{line: 750, col: 8, offset: 23993},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91223},
+																		pos: position{line: 2878, col: 10, offset: 91246},
 																		run: (*parser).callonListContinuationElement396,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91223},
+																			pos:        position{line: 2878, col: 10, offset: 91246},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31527,28 +31745,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91621},
+																	pos: position{line: 2900, col: 8, offset: 91644},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91394},
+																			pos: position{line: 2887, col: 12, offset: 91417},
 																			run: (*parser).callonListContinuationElement399,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91395},
+																				pos: position{line: 2887, col: 13, offset: 91418},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91395},
+																						pos:        position{line: 2887, col: 13, offset: 91418},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91402},
+																						pos:        position{line: 2887, col: 20, offset: 91425},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91411},
+																						pos:        position{line: 2887, col: 29, offset: 91434},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31557,9 +31775,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91571},
+																			pos: position{line: 2897, col: 8, offset: 91594},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91572,
+																				line: 2897, col: 9, offset: 91595,
 																			},
 																		},
 																	},
@@ -31569,56 +31787,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 841, col: 5, offset: 26905},
+													pos: position{line: 842, col: 5, offset: 26928},
 													run: (*parser).callonListContinuationElement406,
 												},
 												&labeledExpr{
-													pos:   position{line: 844, col: 5, offset: 26997},
+													pos:   position{line: 845, col: 5, offset: 27020},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 859, col: 4, offset: 27394},
+														pos: position{line: 860, col: 4, offset: 27417},
 														expr: &actionExpr{
-															pos: position{line: 859, col: 5, offset: 27395},
+															pos: position{line: 860, col: 5, offset: 27418},
 															run: (*parser).callonListContinuationElement409,
 															expr: &seqExpr{
-																pos: position{line: 859, col: 5, offset: 27395},
+																pos: position{line: 860, col: 5, offset: 27418},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 859, col: 5, offset: 27395},
+																		pos: position{line: 860, col: 5, offset: 27418},
 																		expr: &choiceExpr{
-																			pos: position{line: 852, col: 5, offset: 27237},
+																			pos: position{line: 853, col: 5, offset: 27260},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 852, col: 5, offset: 27237},
+																					pos: position{line: 853, col: 5, offset: 27260},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 852, col: 5, offset: 27237},
+																							pos:   position{line: 853, col: 5, offset: 27260},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 747, col: 5, offset: 23868},
+																								pos: position{line: 748, col: 5, offset: 23891},
 																								run: (*parser).callonListContinuationElement415,
 																								expr: &seqExpr{
-																									pos: position{line: 747, col: 5, offset: 23868},
+																									pos: position{line: 748, col: 5, offset: 23891},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 747, col: 5, offset: 23868},
+																											pos:   position{line: 748, col: 5, offset: 23891},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 747, col: 16, offset: 23879},
+																												pos: position{line: 748, col: 16, offset: 23902},
 																												run: (*parser).callonListContinuationElement418,
 																												expr: &seqExpr{
-																													pos: position{line: 747, col: 16, offset: 23879},
+																													pos: position{line: 748, col: 16, offset: 23902},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 747, col: 16, offset: 23879},
+																															pos:        position{line: 748, col: 16, offset: 23902},
 																															val:        "====",
 																															ignoreCase: false,
 																															want:       "\"====\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 747, col: 23, offset: 23886},
+																															pos: position{line: 748, col: 23, offset: 23909},
 																															expr: &litMatcher{
-																																pos:        position{line: 747, col: 23, offset: 23886},
+																																pos:        position{line: 748, col: 23, offset: 23909},
 																																val:        "=",
 																																ignoreCase: false,
 																																want:       "\"=\"",
@@ -31629,12 +31847,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 749, col: 8, offset: 23970},
+																											pos: position{line: 750, col: 8, offset: 23993},
 																											expr: &actionExpr{
-																												pos: position{line: 2877, col: 10, offset: 91223},
+																												pos: position{line: 2878, col: 10, offset: 91246},
 																												run: (*parser).callonListContinuationElement424,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2877, col: 10, offset: 91223},
+																													pos:        position{line: 2878, col: 10, offset: 91246},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31643,28 +31861,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91621},
+																											pos: position{line: 2900, col: 8, offset: 91644},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91394},
+																													pos: position{line: 2887, col: 12, offset: 91417},
 																													run: (*parser).callonListContinuationElement427,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91395},
+																														pos: position{line: 2887, col: 13, offset: 91418},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91395},
+																																pos:        position{line: 2887, col: 13, offset: 91418},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91402},
+																																pos:        position{line: 2887, col: 20, offset: 91425},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91411},
+																																pos:        position{line: 2887, col: 29, offset: 91434},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31673,9 +31891,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91571},
+																													pos: position{line: 2897, col: 8, offset: 91594},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91572,
+																														line: 2897, col: 9, offset: 91595,
 																													},
 																												},
 																											},
@@ -31685,45 +31903,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 853, col: 5, offset: 27268},
+																							pos: position{line: 854, col: 5, offset: 27291},
 																							run: (*parser).callonListContinuationElement434,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91571},
+																					pos: position{line: 2897, col: 8, offset: 91594},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91572,
+																						line: 2897, col: 9, offset: 91595,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 860, col: 5, offset: 27425},
+																		pos:   position{line: 861, col: 5, offset: 27448},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26129},
+																			pos: position{line: 812, col: 5, offset: 26152},
 																			run: (*parser).callonListContinuationElement438,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26129},
+																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2894, col: 11, offset: 91557},
+																						pos: position{line: 2895, col: 11, offset: 91580},
 																						expr: &anyMatcher{
-																							line: 2894, col: 13, offset: 91559,
+																							line: 2895, col: 13, offset: 91582,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26204},
+																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2823, col: 13, offset: 89749},
+																							pos: position{line: 2824, col: 13, offset: 89772},
 																							run: (*parser).callonListContinuationElement443,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2823, col: 13, offset: 89749},
+																								pos: position{line: 2824, col: 13, offset: 89772},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2823, col: 13, offset: 89749},
+																									pos:        position{line: 2824, col: 13, offset: 89772},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31733,28 +31951,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91621},
+																						pos: position{line: 2900, col: 8, offset: 91644},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91394},
+																								pos: position{line: 2887, col: 12, offset: 91417},
 																								run: (*parser).callonListContinuationElement447,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91395},
+																									pos: position{line: 2887, col: 13, offset: 91418},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91395},
+																											pos:        position{line: 2887, col: 13, offset: 91418},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91402},
+																											pos:        position{line: 2887, col: 20, offset: 91425},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91411},
+																											pos:        position{line: 2887, col: 29, offset: 91434},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31763,9 +31981,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91571},
+																								pos: position{line: 2897, col: 8, offset: 91594},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91572,
+																									line: 2897, col: 9, offset: 91595,
 																								},
 																							},
 																						},
@@ -31780,44 +31998,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 845, col: 5, offset: 27031},
+													pos:   position{line: 846, col: 5, offset: 27054},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 845, col: 9, offset: 27035},
+														pos: position{line: 846, col: 9, offset: 27058},
 														expr: &choiceExpr{
-															pos: position{line: 852, col: 5, offset: 27237},
+															pos: position{line: 853, col: 5, offset: 27260},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 852, col: 5, offset: 27237},
+																	pos: position{line: 853, col: 5, offset: 27260},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 852, col: 5, offset: 27237},
+																			pos:   position{line: 853, col: 5, offset: 27260},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 747, col: 5, offset: 23868},
+																				pos: position{line: 748, col: 5, offset: 23891},
 																				run: (*parser).callonListContinuationElement459,
 																				expr: &seqExpr{
-																					pos: position{line: 747, col: 5, offset: 23868},
+																					pos: position{line: 748, col: 5, offset: 23891},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 747, col: 5, offset: 23868},
+																							pos:   position{line: 748, col: 5, offset: 23891},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 747, col: 16, offset: 23879},
+																								pos: position{line: 748, col: 16, offset: 23902},
 																								run: (*parser).callonListContinuationElement462,
 																								expr: &seqExpr{
-																									pos: position{line: 747, col: 16, offset: 23879},
+																									pos: position{line: 748, col: 16, offset: 23902},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 747, col: 16, offset: 23879},
+																											pos:        position{line: 748, col: 16, offset: 23902},
 																											val:        "====",
 																											ignoreCase: false,
 																											want:       "\"====\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 747, col: 23, offset: 23886},
+																											pos: position{line: 748, col: 23, offset: 23909},
 																											expr: &litMatcher{
-																												pos:        position{line: 747, col: 23, offset: 23886},
+																												pos:        position{line: 748, col: 23, offset: 23909},
 																												val:        "=",
 																												ignoreCase: false,
 																												want:       "\"=\"",
@@ -31828,12 +32046,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 749, col: 8, offset: 23970},
+																							pos: position{line: 750, col: 8, offset: 23993},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91223},
+																								pos: position{line: 2878, col: 10, offset: 91246},
 																								run: (*parser).callonListContinuationElement468,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91223},
+																									pos:        position{line: 2878, col: 10, offset: 91246},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -31842,28 +32060,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91621},
+																							pos: position{line: 2900, col: 8, offset: 91644},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91394},
+																									pos: position{line: 2887, col: 12, offset: 91417},
 																									run: (*parser).callonListContinuationElement471,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91395},
+																										pos: position{line: 2887, col: 13, offset: 91418},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91395},
+																												pos:        position{line: 2887, col: 13, offset: 91418},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91402},
+																												pos:        position{line: 2887, col: 20, offset: 91425},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91411},
+																												pos:        position{line: 2887, col: 29, offset: 91434},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -31872,9 +32090,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91571},
+																									pos: position{line: 2897, col: 8, offset: 91594},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91572,
+																										line: 2897, col: 9, offset: 91595,
 																									},
 																								},
 																							},
@@ -31884,15 +32102,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 853, col: 5, offset: 27268},
+																			pos: position{line: 854, col: 5, offset: 27291},
 																			run: (*parser).callonListContinuationElement478,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2896, col: 8, offset: 91571},
+																	pos: position{line: 2897, col: 8, offset: 91594},
 																	expr: &anyMatcher{
-																		line: 2896, col: 9, offset: 91572,
+																		line: 2897, col: 9, offset: 91595,
 																	},
 																},
 															},
@@ -31903,36 +32121,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 952, col: 5, offset: 29717},
+										pos: position{line: 953, col: 5, offset: 29740},
 										run: (*parser).callonListContinuationElement481,
 										expr: &seqExpr{
-											pos: position{line: 952, col: 5, offset: 29717},
+											pos: position{line: 953, col: 5, offset: 29740},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 952, col: 5, offset: 29717},
+													pos:   position{line: 953, col: 5, offset: 29740},
 													label: "delimiter",
 													expr: &actionExpr{
-														pos: position{line: 760, col: 26, offset: 24356},
+														pos: position{line: 761, col: 26, offset: 24379},
 														run: (*parser).callonListContinuationElement484,
 														expr: &seqExpr{
-															pos: position{line: 760, col: 26, offset: 24356},
+															pos: position{line: 761, col: 26, offset: 24379},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 760, col: 26, offset: 24356},
+																	pos:        position{line: 761, col: 26, offset: 24379},
 																	val:        "```",
 																	ignoreCase: false,
 																	want:       "\"```\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 760, col: 32, offset: 24362},
+																	pos:   position{line: 761, col: 32, offset: 24385},
 																	label: "language",
 																	expr: &actionExpr{
-																		pos: position{line: 764, col: 13, offset: 24492},
+																		pos: position{line: 765, col: 13, offset: 24515},
 																		run: (*parser).callonListContinuationElement488,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 764, col: 14, offset: 24493},
+																			pos: position{line: 765, col: 14, offset: 24516},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 764, col: 14, offset: 24493},
+																				pos:        position{line: 765, col: 14, offset: 24516},
 																				val:        "[^\\r\\n`\\t ]",
 																				chars:      []rune{'\r', '\n', '`', '\t', ' '},
 																				ignoreCase: false,
@@ -31942,12 +32160,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 760, col: 52, offset: 24382},
+																	pos: position{line: 761, col: 52, offset: 24405},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91223},
+																		pos: position{line: 2878, col: 10, offset: 91246},
 																		run: (*parser).callonListContinuationElement492,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91223},
+																			pos:        position{line: 2878, col: 10, offset: 91246},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31956,28 +32174,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91621},
+																	pos: position{line: 2900, col: 8, offset: 91644},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91394},
+																			pos: position{line: 2887, col: 12, offset: 91417},
 																			run: (*parser).callonListContinuationElement495,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91395},
+																				pos: position{line: 2887, col: 13, offset: 91418},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91395},
+																						pos:        position{line: 2887, col: 13, offset: 91418},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91402},
+																						pos:        position{line: 2887, col: 20, offset: 91425},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91411},
+																						pos:        position{line: 2887, col: 29, offset: 91434},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31986,9 +32204,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91571},
+																			pos: position{line: 2897, col: 8, offset: 91594},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91572,
+																				line: 2897, col: 9, offset: 91595,
 																			},
 																		},
 																	},
@@ -31998,34 +32216,34 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 953, col: 5, offset: 29763},
+													pos:   position{line: 954, col: 5, offset: 29786},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 966, col: 5, offset: 30236},
+														pos: position{line: 967, col: 5, offset: 30259},
 														expr: &actionExpr{
-															pos: position{line: 966, col: 6, offset: 30237},
+															pos: position{line: 967, col: 6, offset: 30260},
 															run: (*parser).callonListContinuationElement504,
 															expr: &seqExpr{
-																pos: position{line: 966, col: 6, offset: 30237},
+																pos: position{line: 967, col: 6, offset: 30260},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 966, col: 6, offset: 30237},
+																		pos: position{line: 967, col: 6, offset: 30260},
 																		expr: &seqExpr{
-																			pos: position{line: 963, col: 34, offset: 30184},
+																			pos: position{line: 964, col: 34, offset: 30207},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 963, col: 34, offset: 30184},
+																					pos:        position{line: 964, col: 34, offset: 30207},
 																					val:        "```",
 																					ignoreCase: false,
 																					want:       "\"```\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 963, col: 40, offset: 30190},
+																					pos: position{line: 964, col: 40, offset: 30213},
 																					expr: &actionExpr{
-																						pos: position{line: 2877, col: 10, offset: 91223},
+																						pos: position{line: 2878, col: 10, offset: 91246},
 																						run: (*parser).callonListContinuationElement510,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2877, col: 10, offset: 91223},
+																							pos:        position{line: 2878, col: 10, offset: 91246},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -32034,28 +32252,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2899, col: 8, offset: 91621},
+																					pos: position{line: 2900, col: 8, offset: 91644},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2886, col: 12, offset: 91394},
+																							pos: position{line: 2887, col: 12, offset: 91417},
 																							run: (*parser).callonListContinuationElement513,
 																							expr: &choiceExpr{
-																								pos: position{line: 2886, col: 13, offset: 91395},
+																								pos: position{line: 2887, col: 13, offset: 91418},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 13, offset: 91395},
+																										pos:        position{line: 2887, col: 13, offset: 91418},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 20, offset: 91402},
+																										pos:        position{line: 2887, col: 20, offset: 91425},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 29, offset: 91411},
+																										pos:        position{line: 2887, col: 29, offset: 91434},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -32064,9 +32282,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2896, col: 8, offset: 91571},
+																							pos: position{line: 2897, col: 8, offset: 91594},
 																							expr: &anyMatcher{
-																								line: 2896, col: 9, offset: 91572,
+																								line: 2897, col: 9, offset: 91595,
 																							},
 																						},
 																					},
@@ -32075,30 +32293,30 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 967, col: 5, offset: 30272},
+																		pos:   position{line: 968, col: 5, offset: 30295},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26129},
+																			pos: position{line: 812, col: 5, offset: 26152},
 																			run: (*parser).callonListContinuationElement521,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26129},
+																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2894, col: 11, offset: 91557},
+																						pos: position{line: 2895, col: 11, offset: 91580},
 																						expr: &anyMatcher{
-																							line: 2894, col: 13, offset: 91559,
+																							line: 2895, col: 13, offset: 91582,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26204},
+																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2823, col: 13, offset: 89749},
+																							pos: position{line: 2824, col: 13, offset: 89772},
 																							run: (*parser).callonListContinuationElement526,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2823, col: 13, offset: 89749},
+																								pos: position{line: 2824, col: 13, offset: 89772},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2823, col: 13, offset: 89749},
+																									pos:        position{line: 2824, col: 13, offset: 89772},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32108,28 +32326,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91621},
+																						pos: position{line: 2900, col: 8, offset: 91644},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91394},
+																								pos: position{line: 2887, col: 12, offset: 91417},
 																								run: (*parser).callonListContinuationElement530,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91395},
+																									pos: position{line: 2887, col: 13, offset: 91418},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91395},
+																											pos:        position{line: 2887, col: 13, offset: 91418},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91402},
+																											pos:        position{line: 2887, col: 20, offset: 91425},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91411},
+																											pos:        position{line: 2887, col: 29, offset: 91434},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32138,9 +32356,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91571},
+																								pos: position{line: 2897, col: 8, offset: 91594},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91572,
+																									line: 2897, col: 9, offset: 91595,
 																								},
 																							},
 																						},
@@ -32155,23 +32373,23 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 954, col: 5, offset: 29802},
+													pos: position{line: 955, col: 5, offset: 29825},
 													expr: &seqExpr{
-														pos: position{line: 963, col: 34, offset: 30184},
+														pos: position{line: 964, col: 34, offset: 30207},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 963, col: 34, offset: 30184},
+																pos:        position{line: 964, col: 34, offset: 30207},
 																val:        "```",
 																ignoreCase: false,
 																want:       "\"```\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 963, col: 40, offset: 30190},
+																pos: position{line: 964, col: 40, offset: 30213},
 																expr: &actionExpr{
-																	pos: position{line: 2877, col: 10, offset: 91223},
+																	pos: position{line: 2878, col: 10, offset: 91246},
 																	run: (*parser).callonListContinuationElement541,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2877, col: 10, offset: 91223},
+																		pos:        position{line: 2878, col: 10, offset: 91246},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -32180,28 +32398,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2899, col: 8, offset: 91621},
+																pos: position{line: 2900, col: 8, offset: 91644},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2886, col: 12, offset: 91394},
+																		pos: position{line: 2887, col: 12, offset: 91417},
 																		run: (*parser).callonListContinuationElement544,
 																		expr: &choiceExpr{
-																			pos: position{line: 2886, col: 13, offset: 91395},
+																			pos: position{line: 2887, col: 13, offset: 91418},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 13, offset: 91395},
+																					pos:        position{line: 2887, col: 13, offset: 91418},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 20, offset: 91402},
+																					pos:        position{line: 2887, col: 20, offset: 91425},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 29, offset: 91411},
+																					pos:        position{line: 2887, col: 29, offset: 91434},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -32210,9 +32428,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2896, col: 8, offset: 91571},
+																		pos: position{line: 2897, col: 8, offset: 91594},
 																		expr: &anyMatcher{
-																			line: 2896, col: 9, offset: 91572,
+																			line: 2897, col: 9, offset: 91595,
 																		},
 																	},
 																},
@@ -32224,39 +32442,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 868, col: 5, offset: 27578},
+										pos: position{line: 869, col: 5, offset: 27601},
 										run: (*parser).callonListContinuationElement551,
 										expr: &seqExpr{
-											pos: position{line: 868, col: 5, offset: 27578},
+											pos: position{line: 869, col: 5, offset: 27601},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 868, col: 5, offset: 27578},
+													pos:   position{line: 869, col: 5, offset: 27601},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 754, col: 5, offset: 24115},
+														pos: position{line: 755, col: 5, offset: 24138},
 														run: (*parser).callonListContinuationElement554,
 														expr: &seqExpr{
-															pos: position{line: 754, col: 5, offset: 24115},
+															pos: position{line: 755, col: 5, offset: 24138},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 754, col: 5, offset: 24115},
+																	pos:   position{line: 755, col: 5, offset: 24138},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 754, col: 16, offset: 24126},
+																		pos: position{line: 755, col: 16, offset: 24149},
 																		run: (*parser).callonListContinuationElement557,
 																		expr: &seqExpr{
-																			pos: position{line: 754, col: 16, offset: 24126},
+																			pos: position{line: 755, col: 16, offset: 24149},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 754, col: 16, offset: 24126},
+																					pos:        position{line: 755, col: 16, offset: 24149},
 																					val:        "```",
 																					ignoreCase: false,
 																					want:       "\"```\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 754, col: 22, offset: 24132},
+																					pos: position{line: 755, col: 22, offset: 24155},
 																					expr: &litMatcher{
-																						pos:        position{line: 754, col: 22, offset: 24132},
+																						pos:        position{line: 755, col: 22, offset: 24155},
 																						val:        "`",
 																						ignoreCase: false,
 																						want:       "\"`\"",
@@ -32267,12 +32485,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 756, col: 8, offset: 24216},
+																	pos: position{line: 757, col: 8, offset: 24239},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91223},
+																		pos: position{line: 2878, col: 10, offset: 91246},
 																		run: (*parser).callonListContinuationElement563,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91223},
+																			pos:        position{line: 2878, col: 10, offset: 91246},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32281,28 +32499,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91621},
+																	pos: position{line: 2900, col: 8, offset: 91644},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91394},
+																			pos: position{line: 2887, col: 12, offset: 91417},
 																			run: (*parser).callonListContinuationElement566,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91395},
+																				pos: position{line: 2887, col: 13, offset: 91418},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91395},
+																						pos:        position{line: 2887, col: 13, offset: 91418},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91402},
+																						pos:        position{line: 2887, col: 20, offset: 91425},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91411},
+																						pos:        position{line: 2887, col: 29, offset: 91434},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32311,9 +32529,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91571},
+																			pos: position{line: 2897, col: 8, offset: 91594},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91572,
+																				line: 2897, col: 9, offset: 91595,
 																			},
 																		},
 																	},
@@ -32323,56 +32541,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 869, col: 5, offset: 27616},
+													pos: position{line: 870, col: 5, offset: 27639},
 													run: (*parser).callonListContinuationElement573,
 												},
 												&labeledExpr{
-													pos:   position{line: 872, col: 5, offset: 27708},
+													pos:   position{line: 873, col: 5, offset: 27731},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 887, col: 5, offset: 28098},
+														pos: position{line: 888, col: 5, offset: 28121},
 														expr: &actionExpr{
-															pos: position{line: 887, col: 6, offset: 28099},
+															pos: position{line: 888, col: 6, offset: 28122},
 															run: (*parser).callonListContinuationElement576,
 															expr: &seqExpr{
-																pos: position{line: 887, col: 6, offset: 28099},
+																pos: position{line: 888, col: 6, offset: 28122},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 887, col: 6, offset: 28099},
+																		pos: position{line: 888, col: 6, offset: 28122},
 																		expr: &choiceExpr{
-																			pos: position{line: 880, col: 5, offset: 27942},
+																			pos: position{line: 881, col: 5, offset: 27965},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 880, col: 5, offset: 27942},
+																					pos: position{line: 881, col: 5, offset: 27965},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 880, col: 5, offset: 27942},
+																							pos:   position{line: 881, col: 5, offset: 27965},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 754, col: 5, offset: 24115},
+																								pos: position{line: 755, col: 5, offset: 24138},
 																								run: (*parser).callonListContinuationElement582,
 																								expr: &seqExpr{
-																									pos: position{line: 754, col: 5, offset: 24115},
+																									pos: position{line: 755, col: 5, offset: 24138},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 754, col: 5, offset: 24115},
+																											pos:   position{line: 755, col: 5, offset: 24138},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 754, col: 16, offset: 24126},
+																												pos: position{line: 755, col: 16, offset: 24149},
 																												run: (*parser).callonListContinuationElement585,
 																												expr: &seqExpr{
-																													pos: position{line: 754, col: 16, offset: 24126},
+																													pos: position{line: 755, col: 16, offset: 24149},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 754, col: 16, offset: 24126},
+																															pos:        position{line: 755, col: 16, offset: 24149},
 																															val:        "```",
 																															ignoreCase: false,
 																															want:       "\"```\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 754, col: 22, offset: 24132},
+																															pos: position{line: 755, col: 22, offset: 24155},
 																															expr: &litMatcher{
-																																pos:        position{line: 754, col: 22, offset: 24132},
+																																pos:        position{line: 755, col: 22, offset: 24155},
 																																val:        "`",
 																																ignoreCase: false,
 																																want:       "\"`\"",
@@ -32383,12 +32601,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 756, col: 8, offset: 24216},
+																											pos: position{line: 757, col: 8, offset: 24239},
 																											expr: &actionExpr{
-																												pos: position{line: 2877, col: 10, offset: 91223},
+																												pos: position{line: 2878, col: 10, offset: 91246},
 																												run: (*parser).callonListContinuationElement591,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2877, col: 10, offset: 91223},
+																													pos:        position{line: 2878, col: 10, offset: 91246},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32397,28 +32615,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91621},
+																											pos: position{line: 2900, col: 8, offset: 91644},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91394},
+																													pos: position{line: 2887, col: 12, offset: 91417},
 																													run: (*parser).callonListContinuationElement594,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91395},
+																														pos: position{line: 2887, col: 13, offset: 91418},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91395},
+																																pos:        position{line: 2887, col: 13, offset: 91418},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91402},
+																																pos:        position{line: 2887, col: 20, offset: 91425},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91411},
+																																pos:        position{line: 2887, col: 29, offset: 91434},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32427,9 +32645,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91571},
+																													pos: position{line: 2897, col: 8, offset: 91594},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91572,
+																														line: 2897, col: 9, offset: 91595,
 																													},
 																												},
 																											},
@@ -32439,45 +32657,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 881, col: 5, offset: 27972},
+																							pos: position{line: 882, col: 5, offset: 27995},
 																							run: (*parser).callonListContinuationElement601,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91571},
+																					pos: position{line: 2897, col: 8, offset: 91594},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91572,
+																						line: 2897, col: 9, offset: 91595,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 888, col: 5, offset: 28128},
+																		pos:   position{line: 889, col: 5, offset: 28151},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26129},
+																			pos: position{line: 812, col: 5, offset: 26152},
 																			run: (*parser).callonListContinuationElement605,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26129},
+																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2894, col: 11, offset: 91557},
+																						pos: position{line: 2895, col: 11, offset: 91580},
 																						expr: &anyMatcher{
-																							line: 2894, col: 13, offset: 91559,
+																							line: 2895, col: 13, offset: 91582,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26204},
+																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2823, col: 13, offset: 89749},
+																							pos: position{line: 2824, col: 13, offset: 89772},
 																							run: (*parser).callonListContinuationElement610,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2823, col: 13, offset: 89749},
+																								pos: position{line: 2824, col: 13, offset: 89772},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2823, col: 13, offset: 89749},
+																									pos:        position{line: 2824, col: 13, offset: 89772},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32487,28 +32705,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91621},
+																						pos: position{line: 2900, col: 8, offset: 91644},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91394},
+																								pos: position{line: 2887, col: 12, offset: 91417},
 																								run: (*parser).callonListContinuationElement614,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91395},
+																									pos: position{line: 2887, col: 13, offset: 91418},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91395},
+																											pos:        position{line: 2887, col: 13, offset: 91418},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91402},
+																											pos:        position{line: 2887, col: 20, offset: 91425},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91411},
+																											pos:        position{line: 2887, col: 29, offset: 91434},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32517,9 +32735,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91571},
+																								pos: position{line: 2897, col: 8, offset: 91594},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91572,
+																									line: 2897, col: 9, offset: 91595,
 																								},
 																							},
 																						},
@@ -32534,44 +32752,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 873, col: 5, offset: 27741},
+													pos:   position{line: 874, col: 5, offset: 27764},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 873, col: 9, offset: 27745},
+														pos: position{line: 874, col: 9, offset: 27768},
 														expr: &choiceExpr{
-															pos: position{line: 880, col: 5, offset: 27942},
+															pos: position{line: 881, col: 5, offset: 27965},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 880, col: 5, offset: 27942},
+																	pos: position{line: 881, col: 5, offset: 27965},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 880, col: 5, offset: 27942},
+																			pos:   position{line: 881, col: 5, offset: 27965},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 754, col: 5, offset: 24115},
+																				pos: position{line: 755, col: 5, offset: 24138},
 																				run: (*parser).callonListContinuationElement626,
 																				expr: &seqExpr{
-																					pos: position{line: 754, col: 5, offset: 24115},
+																					pos: position{line: 755, col: 5, offset: 24138},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 754, col: 5, offset: 24115},
+																							pos:   position{line: 755, col: 5, offset: 24138},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 754, col: 16, offset: 24126},
+																								pos: position{line: 755, col: 16, offset: 24149},
 																								run: (*parser).callonListContinuationElement629,
 																								expr: &seqExpr{
-																									pos: position{line: 754, col: 16, offset: 24126},
+																									pos: position{line: 755, col: 16, offset: 24149},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 754, col: 16, offset: 24126},
+																											pos:        position{line: 755, col: 16, offset: 24149},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 754, col: 22, offset: 24132},
+																											pos: position{line: 755, col: 22, offset: 24155},
 																											expr: &litMatcher{
-																												pos:        position{line: 754, col: 22, offset: 24132},
+																												pos:        position{line: 755, col: 22, offset: 24155},
 																												val:        "`",
 																												ignoreCase: false,
 																												want:       "\"`\"",
@@ -32582,12 +32800,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 756, col: 8, offset: 24216},
+																							pos: position{line: 757, col: 8, offset: 24239},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91223},
+																								pos: position{line: 2878, col: 10, offset: 91246},
 																								run: (*parser).callonListContinuationElement635,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91223},
+																									pos:        position{line: 2878, col: 10, offset: 91246},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32596,28 +32814,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91621},
+																							pos: position{line: 2900, col: 8, offset: 91644},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91394},
+																									pos: position{line: 2887, col: 12, offset: 91417},
 																									run: (*parser).callonListContinuationElement638,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91395},
+																										pos: position{line: 2887, col: 13, offset: 91418},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91395},
+																												pos:        position{line: 2887, col: 13, offset: 91418},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91402},
+																												pos:        position{line: 2887, col: 20, offset: 91425},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91411},
+																												pos:        position{line: 2887, col: 29, offset: 91434},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32626,9 +32844,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91571},
+																									pos: position{line: 2897, col: 8, offset: 91594},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91572,
+																										line: 2897, col: 9, offset: 91595,
 																									},
 																								},
 																							},
@@ -32638,15 +32856,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 881, col: 5, offset: 27972},
+																			pos: position{line: 882, col: 5, offset: 27995},
 																			run: (*parser).callonListContinuationElement645,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2896, col: 8, offset: 91571},
+																	pos: position{line: 2897, col: 8, offset: 91594},
 																	expr: &anyMatcher{
-																		line: 2896, col: 9, offset: 91572,
+																		line: 2897, col: 9, offset: 91595,
 																	},
 																},
 															},
@@ -32657,39 +32875,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 896, col: 5, offset: 28283},
+										pos: position{line: 897, col: 5, offset: 28306},
 										run: (*parser).callonListContinuationElement648,
 										expr: &seqExpr{
-											pos: position{line: 896, col: 5, offset: 28283},
+											pos: position{line: 897, col: 5, offset: 28306},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 896, col: 5, offset: 28283},
+													pos:   position{line: 897, col: 5, offset: 28306},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 769, col: 5, offset: 24657},
+														pos: position{line: 770, col: 5, offset: 24680},
 														run: (*parser).callonListContinuationElement651,
 														expr: &seqExpr{
-															pos: position{line: 769, col: 5, offset: 24657},
+															pos: position{line: 770, col: 5, offset: 24680},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 769, col: 5, offset: 24657},
+																	pos:   position{line: 770, col: 5, offset: 24680},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 769, col: 16, offset: 24668},
+																		pos: position{line: 770, col: 16, offset: 24691},
 																		run: (*parser).callonListContinuationElement654,
 																		expr: &seqExpr{
-																			pos: position{line: 769, col: 16, offset: 24668},
+																			pos: position{line: 770, col: 16, offset: 24691},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 769, col: 16, offset: 24668},
+																					pos:        position{line: 770, col: 16, offset: 24691},
 																					val:        "----",
 																					ignoreCase: false,
 																					want:       "\"----\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 769, col: 23, offset: 24675},
+																					pos: position{line: 770, col: 23, offset: 24698},
 																					expr: &litMatcher{
-																						pos:        position{line: 769, col: 23, offset: 24675},
+																						pos:        position{line: 770, col: 23, offset: 24698},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
@@ -32700,12 +32918,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 771, col: 8, offset: 24759},
+																	pos: position{line: 772, col: 8, offset: 24782},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91223},
+																		pos: position{line: 2878, col: 10, offset: 91246},
 																		run: (*parser).callonListContinuationElement660,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91223},
+																			pos:        position{line: 2878, col: 10, offset: 91246},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32714,28 +32932,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91621},
+																	pos: position{line: 2900, col: 8, offset: 91644},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91394},
+																			pos: position{line: 2887, col: 12, offset: 91417},
 																			run: (*parser).callonListContinuationElement663,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91395},
+																				pos: position{line: 2887, col: 13, offset: 91418},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91395},
+																						pos:        position{line: 2887, col: 13, offset: 91418},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91402},
+																						pos:        position{line: 2887, col: 20, offset: 91425},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91411},
+																						pos:        position{line: 2887, col: 29, offset: 91434},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32744,9 +32962,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91571},
+																			pos: position{line: 2897, col: 8, offset: 91594},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91572,
+																				line: 2897, col: 9, offset: 91595,
 																			},
 																		},
 																	},
@@ -32756,56 +32974,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 897, col: 5, offset: 28322},
+													pos: position{line: 898, col: 5, offset: 28345},
 													run: (*parser).callonListContinuationElement670,
 												},
 												&labeledExpr{
-													pos:   position{line: 900, col: 5, offset: 28414},
+													pos:   position{line: 901, col: 5, offset: 28437},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 915, col: 5, offset: 28812},
+														pos: position{line: 916, col: 5, offset: 28835},
 														expr: &actionExpr{
-															pos: position{line: 915, col: 6, offset: 28813},
+															pos: position{line: 916, col: 6, offset: 28836},
 															run: (*parser).callonListContinuationElement673,
 															expr: &seqExpr{
-																pos: position{line: 915, col: 6, offset: 28813},
+																pos: position{line: 916, col: 6, offset: 28836},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 915, col: 6, offset: 28813},
+																		pos: position{line: 916, col: 6, offset: 28836},
 																		expr: &choiceExpr{
-																			pos: position{line: 908, col: 5, offset: 28654},
+																			pos: position{line: 909, col: 5, offset: 28677},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 908, col: 5, offset: 28654},
+																					pos: position{line: 909, col: 5, offset: 28677},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 908, col: 5, offset: 28654},
+																							pos:   position{line: 909, col: 5, offset: 28677},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 769, col: 5, offset: 24657},
+																								pos: position{line: 770, col: 5, offset: 24680},
 																								run: (*parser).callonListContinuationElement679,
 																								expr: &seqExpr{
-																									pos: position{line: 769, col: 5, offset: 24657},
+																									pos: position{line: 770, col: 5, offset: 24680},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 769, col: 5, offset: 24657},
+																											pos:   position{line: 770, col: 5, offset: 24680},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 769, col: 16, offset: 24668},
+																												pos: position{line: 770, col: 16, offset: 24691},
 																												run: (*parser).callonListContinuationElement682,
 																												expr: &seqExpr{
-																													pos: position{line: 769, col: 16, offset: 24668},
+																													pos: position{line: 770, col: 16, offset: 24691},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 769, col: 16, offset: 24668},
+																															pos:        position{line: 770, col: 16, offset: 24691},
 																															val:        "----",
 																															ignoreCase: false,
 																															want:       "\"----\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 769, col: 23, offset: 24675},
+																															pos: position{line: 770, col: 23, offset: 24698},
 																															expr: &litMatcher{
-																																pos:        position{line: 769, col: 23, offset: 24675},
+																																pos:        position{line: 770, col: 23, offset: 24698},
 																																val:        "-",
 																																ignoreCase: false,
 																																want:       "\"-\"",
@@ -32816,12 +33034,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 771, col: 8, offset: 24759},
+																											pos: position{line: 772, col: 8, offset: 24782},
 																											expr: &actionExpr{
-																												pos: position{line: 2877, col: 10, offset: 91223},
+																												pos: position{line: 2878, col: 10, offset: 91246},
 																												run: (*parser).callonListContinuationElement688,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2877, col: 10, offset: 91223},
+																													pos:        position{line: 2878, col: 10, offset: 91246},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32830,28 +33048,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91621},
+																											pos: position{line: 2900, col: 8, offset: 91644},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91394},
+																													pos: position{line: 2887, col: 12, offset: 91417},
 																													run: (*parser).callonListContinuationElement691,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91395},
+																														pos: position{line: 2887, col: 13, offset: 91418},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91395},
+																																pos:        position{line: 2887, col: 13, offset: 91418},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91402},
+																																pos:        position{line: 2887, col: 20, offset: 91425},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91411},
+																																pos:        position{line: 2887, col: 29, offset: 91434},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32860,9 +33078,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91571},
+																													pos: position{line: 2897, col: 8, offset: 91594},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91572,
+																														line: 2897, col: 9, offset: 91595,
 																													},
 																												},
 																											},
@@ -32872,45 +33090,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 909, col: 5, offset: 28685},
+																							pos: position{line: 910, col: 5, offset: 28708},
 																							run: (*parser).callonListContinuationElement698,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91571},
+																					pos: position{line: 2897, col: 8, offset: 91594},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91572,
+																						line: 2897, col: 9, offset: 91595,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 916, col: 5, offset: 28843},
+																		pos:   position{line: 917, col: 5, offset: 28866},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26129},
+																			pos: position{line: 812, col: 5, offset: 26152},
 																			run: (*parser).callonListContinuationElement702,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26129},
+																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2894, col: 11, offset: 91557},
+																						pos: position{line: 2895, col: 11, offset: 91580},
 																						expr: &anyMatcher{
-																							line: 2894, col: 13, offset: 91559,
+																							line: 2895, col: 13, offset: 91582,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26204},
+																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2823, col: 13, offset: 89749},
+																							pos: position{line: 2824, col: 13, offset: 89772},
 																							run: (*parser).callonListContinuationElement707,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2823, col: 13, offset: 89749},
+																								pos: position{line: 2824, col: 13, offset: 89772},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2823, col: 13, offset: 89749},
+																									pos:        position{line: 2824, col: 13, offset: 89772},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32920,28 +33138,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91621},
+																						pos: position{line: 2900, col: 8, offset: 91644},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91394},
+																								pos: position{line: 2887, col: 12, offset: 91417},
 																								run: (*parser).callonListContinuationElement711,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91395},
+																									pos: position{line: 2887, col: 13, offset: 91418},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91395},
+																											pos:        position{line: 2887, col: 13, offset: 91418},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91402},
+																											pos:        position{line: 2887, col: 20, offset: 91425},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91411},
+																											pos:        position{line: 2887, col: 29, offset: 91434},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32950,9 +33168,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91571},
+																								pos: position{line: 2897, col: 8, offset: 91594},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91572,
+																									line: 2897, col: 9, offset: 91595,
 																								},
 																							},
 																						},
@@ -32967,44 +33185,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 901, col: 5, offset: 28448},
+													pos:   position{line: 902, col: 5, offset: 28471},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 901, col: 9, offset: 28452},
+														pos: position{line: 902, col: 9, offset: 28475},
 														expr: &choiceExpr{
-															pos: position{line: 908, col: 5, offset: 28654},
+															pos: position{line: 909, col: 5, offset: 28677},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 908, col: 5, offset: 28654},
+																	pos: position{line: 909, col: 5, offset: 28677},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 908, col: 5, offset: 28654},
+																			pos:   position{line: 909, col: 5, offset: 28677},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 769, col: 5, offset: 24657},
+																				pos: position{line: 770, col: 5, offset: 24680},
 																				run: (*parser).callonListContinuationElement723,
 																				expr: &seqExpr{
-																					pos: position{line: 769, col: 5, offset: 24657},
+																					pos: position{line: 770, col: 5, offset: 24680},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 769, col: 5, offset: 24657},
+																							pos:   position{line: 770, col: 5, offset: 24680},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 769, col: 16, offset: 24668},
+																								pos: position{line: 770, col: 16, offset: 24691},
 																								run: (*parser).callonListContinuationElement726,
 																								expr: &seqExpr{
-																									pos: position{line: 769, col: 16, offset: 24668},
+																									pos: position{line: 770, col: 16, offset: 24691},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 769, col: 16, offset: 24668},
+																											pos:        position{line: 770, col: 16, offset: 24691},
 																											val:        "----",
 																											ignoreCase: false,
 																											want:       "\"----\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 769, col: 23, offset: 24675},
+																											pos: position{line: 770, col: 23, offset: 24698},
 																											expr: &litMatcher{
-																												pos:        position{line: 769, col: 23, offset: 24675},
+																												pos:        position{line: 770, col: 23, offset: 24698},
 																												val:        "-",
 																												ignoreCase: false,
 																												want:       "\"-\"",
@@ -33015,12 +33233,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 771, col: 8, offset: 24759},
+																							pos: position{line: 772, col: 8, offset: 24782},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91223},
+																								pos: position{line: 2878, col: 10, offset: 91246},
 																								run: (*parser).callonListContinuationElement732,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91223},
+																									pos:        position{line: 2878, col: 10, offset: 91246},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33029,28 +33247,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91621},
+																							pos: position{line: 2900, col: 8, offset: 91644},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91394},
+																									pos: position{line: 2887, col: 12, offset: 91417},
 																									run: (*parser).callonListContinuationElement735,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91395},
+																										pos: position{line: 2887, col: 13, offset: 91418},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91395},
+																												pos:        position{line: 2887, col: 13, offset: 91418},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91402},
+																												pos:        position{line: 2887, col: 20, offset: 91425},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91411},
+																												pos:        position{line: 2887, col: 29, offset: 91434},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33059,9 +33277,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91571},
+																									pos: position{line: 2897, col: 8, offset: 91594},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91572,
+																										line: 2897, col: 9, offset: 91595,
 																									},
 																								},
 																							},
@@ -33071,15 +33289,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 909, col: 5, offset: 28685},
+																			pos: position{line: 910, col: 5, offset: 28708},
 																			run: (*parser).callonListContinuationElement742,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2896, col: 8, offset: 91571},
+																	pos: position{line: 2897, col: 8, offset: 91594},
 																	expr: &anyMatcher{
-																		line: 2896, col: 9, offset: 91572,
+																		line: 2897, col: 9, offset: 91595,
 																	},
 																},
 															},
@@ -33090,39 +33308,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 924, col: 5, offset: 28998},
+										pos: position{line: 925, col: 5, offset: 29021},
 										run: (*parser).callonListContinuationElement745,
 										expr: &seqExpr{
-											pos: position{line: 924, col: 5, offset: 28998},
+											pos: position{line: 925, col: 5, offset: 29021},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 924, col: 5, offset: 28998},
+													pos:   position{line: 925, col: 5, offset: 29021},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 783, col: 5, offset: 25133},
+														pos: position{line: 784, col: 5, offset: 25156},
 														run: (*parser).callonListContinuationElement748,
 														expr: &seqExpr{
-															pos: position{line: 783, col: 5, offset: 25133},
+															pos: position{line: 784, col: 5, offset: 25156},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 783, col: 5, offset: 25133},
+																	pos:   position{line: 784, col: 5, offset: 25156},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 783, col: 16, offset: 25144},
+																		pos: position{line: 784, col: 16, offset: 25167},
 																		run: (*parser).callonListContinuationElement751,
 																		expr: &seqExpr{
-																			pos: position{line: 783, col: 16, offset: 25144},
+																			pos: position{line: 784, col: 16, offset: 25167},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 783, col: 16, offset: 25144},
+																					pos:        position{line: 784, col: 16, offset: 25167},
 																					val:        "....",
 																					ignoreCase: false,
 																					want:       "\"....\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 783, col: 23, offset: 25151},
+																					pos: position{line: 784, col: 23, offset: 25174},
 																					expr: &litMatcher{
-																						pos:        position{line: 783, col: 23, offset: 25151},
+																						pos:        position{line: 784, col: 23, offset: 25174},
 																						val:        ".",
 																						ignoreCase: false,
 																						want:       "\".\"",
@@ -33133,12 +33351,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 785, col: 8, offset: 25235},
+																	pos: position{line: 786, col: 8, offset: 25258},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91223},
+																		pos: position{line: 2878, col: 10, offset: 91246},
 																		run: (*parser).callonListContinuationElement757,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91223},
+																			pos:        position{line: 2878, col: 10, offset: 91246},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33147,28 +33365,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91621},
+																	pos: position{line: 2900, col: 8, offset: 91644},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91394},
+																			pos: position{line: 2887, col: 12, offset: 91417},
 																			run: (*parser).callonListContinuationElement760,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91395},
+																				pos: position{line: 2887, col: 13, offset: 91418},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91395},
+																						pos:        position{line: 2887, col: 13, offset: 91418},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91402},
+																						pos:        position{line: 2887, col: 20, offset: 91425},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91411},
+																						pos:        position{line: 2887, col: 29, offset: 91434},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33177,9 +33395,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91571},
+																			pos: position{line: 2897, col: 8, offset: 91594},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91572,
+																				line: 2897, col: 9, offset: 91595,
 																			},
 																		},
 																	},
@@ -33189,56 +33407,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 925, col: 5, offset: 29037},
+													pos: position{line: 926, col: 5, offset: 29060},
 													run: (*parser).callonListContinuationElement767,
 												},
 												&labeledExpr{
-													pos:   position{line: 928, col: 5, offset: 29129},
+													pos:   position{line: 929, col: 5, offset: 29152},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 943, col: 5, offset: 29527},
+														pos: position{line: 944, col: 5, offset: 29550},
 														expr: &actionExpr{
-															pos: position{line: 943, col: 6, offset: 29528},
+															pos: position{line: 944, col: 6, offset: 29551},
 															run: (*parser).callonListContinuationElement770,
 															expr: &seqExpr{
-																pos: position{line: 943, col: 6, offset: 29528},
+																pos: position{line: 944, col: 6, offset: 29551},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 943, col: 6, offset: 29528},
+																		pos: position{line: 944, col: 6, offset: 29551},
 																		expr: &choiceExpr{
-																			pos: position{line: 936, col: 5, offset: 29369},
+																			pos: position{line: 937, col: 5, offset: 29392},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 936, col: 5, offset: 29369},
+																					pos: position{line: 937, col: 5, offset: 29392},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 936, col: 5, offset: 29369},
+																							pos:   position{line: 937, col: 5, offset: 29392},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 783, col: 5, offset: 25133},
+																								pos: position{line: 784, col: 5, offset: 25156},
 																								run: (*parser).callonListContinuationElement776,
 																								expr: &seqExpr{
-																									pos: position{line: 783, col: 5, offset: 25133},
+																									pos: position{line: 784, col: 5, offset: 25156},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 783, col: 5, offset: 25133},
+																											pos:   position{line: 784, col: 5, offset: 25156},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 783, col: 16, offset: 25144},
+																												pos: position{line: 784, col: 16, offset: 25167},
 																												run: (*parser).callonListContinuationElement779,
 																												expr: &seqExpr{
-																													pos: position{line: 783, col: 16, offset: 25144},
+																													pos: position{line: 784, col: 16, offset: 25167},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 783, col: 16, offset: 25144},
+																															pos:        position{line: 784, col: 16, offset: 25167},
 																															val:        "....",
 																															ignoreCase: false,
 																															want:       "\"....\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 783, col: 23, offset: 25151},
+																															pos: position{line: 784, col: 23, offset: 25174},
 																															expr: &litMatcher{
-																																pos:        position{line: 783, col: 23, offset: 25151},
+																																pos:        position{line: 784, col: 23, offset: 25174},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -33249,12 +33467,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 785, col: 8, offset: 25235},
+																											pos: position{line: 786, col: 8, offset: 25258},
 																											expr: &actionExpr{
-																												pos: position{line: 2877, col: 10, offset: 91223},
+																												pos: position{line: 2878, col: 10, offset: 91246},
 																												run: (*parser).callonListContinuationElement785,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2877, col: 10, offset: 91223},
+																													pos:        position{line: 2878, col: 10, offset: 91246},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33263,28 +33481,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91621},
+																											pos: position{line: 2900, col: 8, offset: 91644},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91394},
+																													pos: position{line: 2887, col: 12, offset: 91417},
 																													run: (*parser).callonListContinuationElement788,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91395},
+																														pos: position{line: 2887, col: 13, offset: 91418},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91395},
+																																pos:        position{line: 2887, col: 13, offset: 91418},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91402},
+																																pos:        position{line: 2887, col: 20, offset: 91425},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91411},
+																																pos:        position{line: 2887, col: 29, offset: 91434},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33293,9 +33511,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91571},
+																													pos: position{line: 2897, col: 8, offset: 91594},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91572,
+																														line: 2897, col: 9, offset: 91595,
 																													},
 																												},
 																											},
@@ -33305,45 +33523,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 937, col: 5, offset: 29400},
+																							pos: position{line: 938, col: 5, offset: 29423},
 																							run: (*parser).callonListContinuationElement795,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91571},
+																					pos: position{line: 2897, col: 8, offset: 91594},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91572,
+																						line: 2897, col: 9, offset: 91595,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 944, col: 5, offset: 29558},
+																		pos:   position{line: 945, col: 5, offset: 29581},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26129},
+																			pos: position{line: 812, col: 5, offset: 26152},
 																			run: (*parser).callonListContinuationElement799,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26129},
+																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2894, col: 11, offset: 91557},
+																						pos: position{line: 2895, col: 11, offset: 91580},
 																						expr: &anyMatcher{
-																							line: 2894, col: 13, offset: 91559,
+																							line: 2895, col: 13, offset: 91582,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26204},
+																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2823, col: 13, offset: 89749},
+																							pos: position{line: 2824, col: 13, offset: 89772},
 																							run: (*parser).callonListContinuationElement804,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2823, col: 13, offset: 89749},
+																								pos: position{line: 2824, col: 13, offset: 89772},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2823, col: 13, offset: 89749},
+																									pos:        position{line: 2824, col: 13, offset: 89772},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33353,28 +33571,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91621},
+																						pos: position{line: 2900, col: 8, offset: 91644},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91394},
+																								pos: position{line: 2887, col: 12, offset: 91417},
 																								run: (*parser).callonListContinuationElement808,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91395},
+																									pos: position{line: 2887, col: 13, offset: 91418},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91395},
+																											pos:        position{line: 2887, col: 13, offset: 91418},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91402},
+																											pos:        position{line: 2887, col: 20, offset: 91425},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91411},
+																											pos:        position{line: 2887, col: 29, offset: 91434},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33383,9 +33601,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91571},
+																								pos: position{line: 2897, col: 8, offset: 91594},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91572,
+																									line: 2897, col: 9, offset: 91595,
 																								},
 																							},
 																						},
@@ -33400,44 +33618,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 929, col: 5, offset: 29163},
+													pos:   position{line: 930, col: 5, offset: 29186},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 929, col: 9, offset: 29167},
+														pos: position{line: 930, col: 9, offset: 29190},
 														expr: &choiceExpr{
-															pos: position{line: 936, col: 5, offset: 29369},
+															pos: position{line: 937, col: 5, offset: 29392},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 936, col: 5, offset: 29369},
+																	pos: position{line: 937, col: 5, offset: 29392},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 936, col: 5, offset: 29369},
+																			pos:   position{line: 937, col: 5, offset: 29392},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 783, col: 5, offset: 25133},
+																				pos: position{line: 784, col: 5, offset: 25156},
 																				run: (*parser).callonListContinuationElement820,
 																				expr: &seqExpr{
-																					pos: position{line: 783, col: 5, offset: 25133},
+																					pos: position{line: 784, col: 5, offset: 25156},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 783, col: 5, offset: 25133},
+																							pos:   position{line: 784, col: 5, offset: 25156},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 783, col: 16, offset: 25144},
+																								pos: position{line: 784, col: 16, offset: 25167},
 																								run: (*parser).callonListContinuationElement823,
 																								expr: &seqExpr{
-																									pos: position{line: 783, col: 16, offset: 25144},
+																									pos: position{line: 784, col: 16, offset: 25167},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 783, col: 16, offset: 25144},
+																											pos:        position{line: 784, col: 16, offset: 25167},
 																											val:        "....",
 																											ignoreCase: false,
 																											want:       "\"....\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 783, col: 23, offset: 25151},
+																											pos: position{line: 784, col: 23, offset: 25174},
 																											expr: &litMatcher{
-																												pos:        position{line: 783, col: 23, offset: 25151},
+																												pos:        position{line: 784, col: 23, offset: 25174},
 																												val:        ".",
 																												ignoreCase: false,
 																												want:       "\".\"",
@@ -33448,12 +33666,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 785, col: 8, offset: 25235},
+																							pos: position{line: 786, col: 8, offset: 25258},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91223},
+																								pos: position{line: 2878, col: 10, offset: 91246},
 																								run: (*parser).callonListContinuationElement829,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91223},
+																									pos:        position{line: 2878, col: 10, offset: 91246},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33462,28 +33680,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91621},
+																							pos: position{line: 2900, col: 8, offset: 91644},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91394},
+																									pos: position{line: 2887, col: 12, offset: 91417},
 																									run: (*parser).callonListContinuationElement832,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91395},
+																										pos: position{line: 2887, col: 13, offset: 91418},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91395},
+																												pos:        position{line: 2887, col: 13, offset: 91418},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91402},
+																												pos:        position{line: 2887, col: 20, offset: 91425},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91411},
+																												pos:        position{line: 2887, col: 29, offset: 91434},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33492,9 +33710,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91571},
+																									pos: position{line: 2897, col: 8, offset: 91594},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91572,
+																										line: 2897, col: 9, offset: 91595,
 																									},
 																								},
 																							},
@@ -33504,15 +33722,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 937, col: 5, offset: 29400},
+																			pos: position{line: 938, col: 5, offset: 29423},
 																			run: (*parser).callonListContinuationElement839,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2896, col: 8, offset: 91571},
+																	pos: position{line: 2897, col: 8, offset: 91594},
 																	expr: &anyMatcher{
-																		line: 2896, col: 9, offset: 91572,
+																		line: 2897, col: 9, offset: 91595,
 																	},
 																},
 															},
@@ -33523,22 +33741,22 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 975, col: 5, offset: 30441},
+										pos: position{line: 976, col: 5, offset: 30464},
 										run: (*parser).callonListContinuationElement842,
 										expr: &seqExpr{
-											pos: position{line: 975, col: 5, offset: 30441},
+											pos: position{line: 976, col: 5, offset: 30464},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 975, col: 5, offset: 30441},
+													pos:   position{line: 976, col: 5, offset: 30464},
 													label: "firstLine",
 													expr: &actionExpr{
-														pos: position{line: 982, col: 5, offset: 30700},
+														pos: position{line: 983, col: 5, offset: 30723},
 														run: (*parser).callonListContinuationElement845,
 														expr: &seqExpr{
-															pos: position{line: 982, col: 5, offset: 30700},
+															pos: position{line: 983, col: 5, offset: 30723},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 982, col: 5, offset: 30700},
+																	pos: position{line: 983, col: 5, offset: 30723},
 																	expr: &actionExpr{
 																		pos: position{line: 677, col: 14, offset: 21525},
 																		run: (*parser).callonListContinuationElement848,
@@ -33546,18 +33764,18 @@ var g = &grammar{
 																			pos: position{line: 677, col: 14, offset: 21525},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2894, col: 11, offset: 91557},
+																					pos: position{line: 2895, col: 11, offset: 91580},
 																					expr: &anyMatcher{
-																						line: 2894, col: 13, offset: 91559,
+																						line: 2895, col: 13, offset: 91582,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21532},
 																					expr: &actionExpr{
-																						pos: position{line: 2877, col: 10, offset: 91223},
+																						pos: position{line: 2878, col: 10, offset: 91246},
 																						run: (*parser).callonListContinuationElement853,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2877, col: 10, offset: 91223},
+																							pos:        position{line: 2878, col: 10, offset: 91246},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -33566,28 +33784,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2899, col: 8, offset: 91621},
+																					pos: position{line: 2900, col: 8, offset: 91644},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2886, col: 12, offset: 91394},
+																							pos: position{line: 2887, col: 12, offset: 91417},
 																							run: (*parser).callonListContinuationElement856,
 																							expr: &choiceExpr{
-																								pos: position{line: 2886, col: 13, offset: 91395},
+																								pos: position{line: 2887, col: 13, offset: 91418},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 13, offset: 91395},
+																										pos:        position{line: 2887, col: 13, offset: 91418},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 20, offset: 91402},
+																										pos:        position{line: 2887, col: 20, offset: 91425},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 29, offset: 91411},
+																										pos:        position{line: 2887, col: 29, offset: 91434},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -33596,9 +33814,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2896, col: 8, offset: 91571},
+																							pos: position{line: 2897, col: 8, offset: 91594},
 																							expr: &anyMatcher{
-																								line: 2896, col: 9, offset: 91572,
+																								line: 2897, col: 9, offset: 91595,
 																							},
 																						},
 																					},
@@ -33608,21 +33826,21 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 983, col: 5, offset: 30715},
+																	pos:        position{line: 984, col: 5, offset: 30738},
 																	val:        "> ",
 																	ignoreCase: false,
 																	want:       "\"> \"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 984, col: 5, offset: 30725},
+																	pos:   position{line: 985, col: 5, offset: 30748},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2827, col: 14, offset: 89816},
+																		pos: position{line: 2828, col: 14, offset: 89839},
 																		run: (*parser).callonListContinuationElement865,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2827, col: 14, offset: 89816},
+																			pos: position{line: 2828, col: 14, offset: 89839},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2827, col: 14, offset: 89816},
+																				pos:        position{line: 2828, col: 14, offset: 89839},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -33632,28 +33850,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91621},
+																	pos: position{line: 2900, col: 8, offset: 91644},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91394},
+																			pos: position{line: 2887, col: 12, offset: 91417},
 																			run: (*parser).callonListContinuationElement869,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91395},
+																				pos: position{line: 2887, col: 13, offset: 91418},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91395},
+																						pos:        position{line: 2887, col: 13, offset: 91418},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91402},
+																						pos:        position{line: 2887, col: 20, offset: 91425},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91411},
+																						pos:        position{line: 2887, col: 29, offset: 91434},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33662,9 +33880,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91571},
+																			pos: position{line: 2897, col: 8, offset: 91594},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91572,
+																				line: 2897, col: 9, offset: 91595,
 																			},
 																		},
 																	},
@@ -33674,21 +33892,21 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 976, col: 5, offset: 30478},
+													pos:   position{line: 977, col: 5, offset: 30501},
 													label: "otherLines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 976, col: 16, offset: 30489},
+														pos: position{line: 977, col: 16, offset: 30512},
 														expr: &choiceExpr{
-															pos: position{line: 976, col: 17, offset: 30490},
+															pos: position{line: 977, col: 17, offset: 30513},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 982, col: 5, offset: 30700},
+																	pos: position{line: 983, col: 5, offset: 30723},
 																	run: (*parser).callonListContinuationElement879,
 																	expr: &seqExpr{
-																		pos: position{line: 982, col: 5, offset: 30700},
+																		pos: position{line: 983, col: 5, offset: 30723},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 982, col: 5, offset: 30700},
+																				pos: position{line: 983, col: 5, offset: 30723},
 																				expr: &actionExpr{
 																					pos: position{line: 677, col: 14, offset: 21525},
 																					run: (*parser).callonListContinuationElement882,
@@ -33696,18 +33914,18 @@ var g = &grammar{
 																						pos: position{line: 677, col: 14, offset: 21525},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2894, col: 11, offset: 91557},
+																								pos: position{line: 2895, col: 11, offset: 91580},
 																								expr: &anyMatcher{
-																									line: 2894, col: 13, offset: 91559,
+																									line: 2895, col: 13, offset: 91582,
 																								},
 																							},
 																							&zeroOrMoreExpr{
 																								pos: position{line: 677, col: 21, offset: 21532},
 																								expr: &actionExpr{
-																									pos: position{line: 2877, col: 10, offset: 91223},
+																									pos: position{line: 2878, col: 10, offset: 91246},
 																									run: (*parser).callonListContinuationElement887,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 10, offset: 91223},
+																										pos:        position{line: 2878, col: 10, offset: 91246},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33716,28 +33934,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2899, col: 8, offset: 91621},
+																								pos: position{line: 2900, col: 8, offset: 91644},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2886, col: 12, offset: 91394},
+																										pos: position{line: 2887, col: 12, offset: 91417},
 																										run: (*parser).callonListContinuationElement890,
 																										expr: &choiceExpr{
-																											pos: position{line: 2886, col: 13, offset: 91395},
+																											pos: position{line: 2887, col: 13, offset: 91418},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 13, offset: 91395},
+																													pos:        position{line: 2887, col: 13, offset: 91418},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 20, offset: 91402},
+																													pos:        position{line: 2887, col: 20, offset: 91425},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 29, offset: 91411},
+																													pos:        position{line: 2887, col: 29, offset: 91434},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33746,9 +33964,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2896, col: 8, offset: 91571},
+																										pos: position{line: 2897, col: 8, offset: 91594},
 																										expr: &anyMatcher{
-																											line: 2896, col: 9, offset: 91572,
+																											line: 2897, col: 9, offset: 91595,
 																										},
 																									},
 																								},
@@ -33758,21 +33976,21 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 983, col: 5, offset: 30715},
+																				pos:        position{line: 984, col: 5, offset: 30738},
 																				val:        "> ",
 																				ignoreCase: false,
 																				want:       "\"> \"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 984, col: 5, offset: 30725},
+																				pos:   position{line: 985, col: 5, offset: 30748},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2827, col: 14, offset: 89816},
+																					pos: position{line: 2828, col: 14, offset: 89839},
 																					run: (*parser).callonListContinuationElement899,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2827, col: 14, offset: 89816},
+																						pos: position{line: 2828, col: 14, offset: 89839},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2827, col: 14, offset: 89816},
+																							pos:        position{line: 2828, col: 14, offset: 89839},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33782,28 +34000,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2899, col: 8, offset: 91621},
+																				pos: position{line: 2900, col: 8, offset: 91644},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2886, col: 12, offset: 91394},
+																						pos: position{line: 2887, col: 12, offset: 91417},
 																						run: (*parser).callonListContinuationElement903,
 																						expr: &choiceExpr{
-																							pos: position{line: 2886, col: 13, offset: 91395},
+																							pos: position{line: 2887, col: 13, offset: 91418},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2886, col: 13, offset: 91395},
+																									pos:        position{line: 2887, col: 13, offset: 91418},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2886, col: 20, offset: 91402},
+																									pos:        position{line: 2887, col: 20, offset: 91425},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2886, col: 29, offset: 91411},
+																									pos:        position{line: 2887, col: 29, offset: 91434},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33812,9 +34030,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2896, col: 8, offset: 91571},
+																						pos: position{line: 2897, col: 8, offset: 91594},
 																						expr: &anyMatcher{
-																							line: 2896, col: 9, offset: 91572,
+																							line: 2897, col: 9, offset: 91595,
 																						},
 																					},
 																				},
@@ -33823,21 +34041,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1796, col: 5, offset: 58235},
+																	pos: position{line: 1797, col: 5, offset: 58258},
 																	run: (*parser).callonListContinuationElement910,
 																	expr: &seqExpr{
-																		pos: position{line: 1796, col: 5, offset: 58235},
+																		pos: position{line: 1797, col: 5, offset: 58258},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1796, col: 5, offset: 58235},
+																				pos:   position{line: 1797, col: 5, offset: 58258},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2827, col: 14, offset: 89816},
+																					pos: position{line: 2828, col: 14, offset: 89839},
 																					run: (*parser).callonListContinuationElement913,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2827, col: 14, offset: 89816},
+																						pos: position{line: 2828, col: 14, offset: 89839},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2827, col: 14, offset: 89816},
+																							pos:        position{line: 2828, col: 14, offset: 89839},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33847,32 +34065,32 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1797, col: 5, offset: 58259},
+																				pos: position{line: 1798, col: 5, offset: 58282},
 																				run: (*parser).callonListContinuationElement916,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2899, col: 8, offset: 91621},
+																				pos: position{line: 2900, col: 8, offset: 91644},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2886, col: 12, offset: 91394},
+																						pos: position{line: 2887, col: 12, offset: 91417},
 																						run: (*parser).callonListContinuationElement918,
 																						expr: &choiceExpr{
-																							pos: position{line: 2886, col: 13, offset: 91395},
+																							pos: position{line: 2887, col: 13, offset: 91418},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2886, col: 13, offset: 91395},
+																									pos:        position{line: 2887, col: 13, offset: 91418},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2886, col: 20, offset: 91402},
+																									pos:        position{line: 2887, col: 20, offset: 91425},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2886, col: 29, offset: 91411},
+																									pos:        position{line: 2887, col: 29, offset: 91434},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33881,9 +34099,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2896, col: 8, offset: 91571},
+																						pos: position{line: 2897, col: 8, offset: 91594},
 																						expr: &anyMatcher{
-																							line: 2896, col: 9, offset: 91572,
+																							line: 2897, col: 9, offset: 91595,
 																						},
 																					},
 																				},
@@ -33899,28 +34117,28 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 997, col: 5, offset: 30990},
+										pos: position{line: 998, col: 5, offset: 31013},
 										run: (*parser).callonListContinuationElement925,
 										expr: &seqExpr{
-											pos: position{line: 997, col: 5, offset: 30990},
+											pos: position{line: 998, col: 5, offset: 31013},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 997, col: 5, offset: 30990},
+													pos:   position{line: 998, col: 5, offset: 31013},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 776, col: 5, offset: 24902},
+														pos: position{line: 777, col: 5, offset: 24925},
 														run: (*parser).callonListContinuationElement928,
 														expr: &seqExpr{
-															pos: position{line: 776, col: 5, offset: 24902},
+															pos: position{line: 777, col: 5, offset: 24925},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 776, col: 5, offset: 24902},
+																	pos:   position{line: 777, col: 5, offset: 24925},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 776, col: 16, offset: 24913},
+																		pos: position{line: 777, col: 16, offset: 24936},
 																		run: (*parser).callonListContinuationElement931,
 																		expr: &litMatcher{
-																			pos:        position{line: 776, col: 16, offset: 24913},
+																			pos:        position{line: 777, col: 16, offset: 24936},
 																			val:        "--",
 																			ignoreCase: false,
 																			want:       "\"--\"",
@@ -33928,12 +34146,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 778, col: 8, offset: 24990},
+																	pos: position{line: 779, col: 8, offset: 25013},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91223},
+																		pos: position{line: 2878, col: 10, offset: 91246},
 																		run: (*parser).callonListContinuationElement934,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91223},
+																			pos:        position{line: 2878, col: 10, offset: 91246},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33942,28 +34160,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91621},
+																	pos: position{line: 2900, col: 8, offset: 91644},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91394},
+																			pos: position{line: 2887, col: 12, offset: 91417},
 																			run: (*parser).callonListContinuationElement937,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91395},
+																				pos: position{line: 2887, col: 13, offset: 91418},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91395},
+																						pos:        position{line: 2887, col: 13, offset: 91418},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91402},
+																						pos:        position{line: 2887, col: 20, offset: 91425},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91411},
+																						pos:        position{line: 2887, col: 29, offset: 91434},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33972,9 +34190,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91571},
+																			pos: position{line: 2897, col: 8, offset: 91594},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91572,
+																				line: 2897, col: 9, offset: 91595,
 																			},
 																		},
 																	},
@@ -33984,35 +34202,35 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 998, col: 5, offset: 31026},
+													pos:   position{line: 999, col: 5, offset: 31049},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1008, col: 5, offset: 31294},
+														pos: position{line: 1009, col: 5, offset: 31317},
 														expr: &actionExpr{
-															pos: position{line: 1008, col: 6, offset: 31295},
+															pos: position{line: 1009, col: 6, offset: 31318},
 															run: (*parser).callonListContinuationElement946,
 															expr: &seqExpr{
-																pos: position{line: 1008, col: 6, offset: 31295},
+																pos: position{line: 1009, col: 6, offset: 31318},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1008, col: 6, offset: 31295},
+																		pos: position{line: 1009, col: 6, offset: 31318},
 																		expr: &choiceExpr{
-																			pos: position{line: 1005, col: 26, offset: 31243},
+																			pos: position{line: 1006, col: 26, offset: 31266},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 776, col: 5, offset: 24902},
+																					pos: position{line: 777, col: 5, offset: 24925},
 																					run: (*parser).callonListContinuationElement950,
 																					expr: &seqExpr{
-																						pos: position{line: 776, col: 5, offset: 24902},
+																						pos: position{line: 777, col: 5, offset: 24925},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 776, col: 5, offset: 24902},
+																								pos:   position{line: 777, col: 5, offset: 24925},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 776, col: 16, offset: 24913},
+																									pos: position{line: 777, col: 16, offset: 24936},
 																									run: (*parser).callonListContinuationElement953,
 																									expr: &litMatcher{
-																										pos:        position{line: 776, col: 16, offset: 24913},
+																										pos:        position{line: 777, col: 16, offset: 24936},
 																										val:        "--",
 																										ignoreCase: false,
 																										want:       "\"--\"",
@@ -34020,12 +34238,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 778, col: 8, offset: 24990},
+																								pos: position{line: 779, col: 8, offset: 25013},
 																								expr: &actionExpr{
-																									pos: position{line: 2877, col: 10, offset: 91223},
+																									pos: position{line: 2878, col: 10, offset: 91246},
 																									run: (*parser).callonListContinuationElement956,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2877, col: 10, offset: 91223},
+																										pos:        position{line: 2878, col: 10, offset: 91246},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -34034,28 +34252,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2899, col: 8, offset: 91621},
+																								pos: position{line: 2900, col: 8, offset: 91644},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2886, col: 12, offset: 91394},
+																										pos: position{line: 2887, col: 12, offset: 91417},
 																										run: (*parser).callonListContinuationElement959,
 																										expr: &choiceExpr{
-																											pos: position{line: 2886, col: 13, offset: 91395},
+																											pos: position{line: 2887, col: 13, offset: 91418},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 13, offset: 91395},
+																													pos:        position{line: 2887, col: 13, offset: 91418},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 20, offset: 91402},
+																													pos:        position{line: 2887, col: 20, offset: 91425},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2886, col: 29, offset: 91411},
+																													pos:        position{line: 2887, col: 29, offset: 91434},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34064,9 +34282,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2896, col: 8, offset: 91571},
+																										pos: position{line: 2897, col: 8, offset: 91594},
 																										expr: &anyMatcher{
-																											line: 2896, col: 9, offset: 91572,
+																											line: 2897, col: 9, offset: 91595,
 																										},
 																									},
 																								},
@@ -34075,39 +34293,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91571},
+																					pos: position{line: 2897, col: 8, offset: 91594},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91572,
+																						line: 2897, col: 9, offset: 91595,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1009, col: 5, offset: 31322},
+																		pos:   position{line: 1010, col: 5, offset: 31345},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26129},
+																			pos: position{line: 812, col: 5, offset: 26152},
 																			run: (*parser).callonListContinuationElement969,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26129},
+																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2894, col: 11, offset: 91557},
+																						pos: position{line: 2895, col: 11, offset: 91580},
 																						expr: &anyMatcher{
-																							line: 2894, col: 13, offset: 91559,
+																							line: 2895, col: 13, offset: 91582,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26204},
+																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2823, col: 13, offset: 89749},
+																							pos: position{line: 2824, col: 13, offset: 89772},
 																							run: (*parser).callonListContinuationElement974,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2823, col: 13, offset: 89749},
+																								pos: position{line: 2824, col: 13, offset: 89772},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2823, col: 13, offset: 89749},
+																									pos:        position{line: 2824, col: 13, offset: 89772},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34117,28 +34335,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91621},
+																						pos: position{line: 2900, col: 8, offset: 91644},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91394},
+																								pos: position{line: 2887, col: 12, offset: 91417},
 																								run: (*parser).callonListContinuationElement978,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91395},
+																									pos: position{line: 2887, col: 13, offset: 91418},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91395},
+																											pos:        position{line: 2887, col: 13, offset: 91418},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91402},
+																											pos:        position{line: 2887, col: 20, offset: 91425},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91411},
+																											pos:        position{line: 2887, col: 29, offset: 91434},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34147,9 +34365,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91571},
+																								pos: position{line: 2897, col: 8, offset: 91594},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91572,
+																									line: 2897, col: 9, offset: 91595,
 																								},
 																							},
 																						},
@@ -34164,27 +34382,27 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 999, col: 5, offset: 31057},
+													pos:   position{line: 1000, col: 5, offset: 31080},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 999, col: 9, offset: 31061},
+														pos: position{line: 1000, col: 9, offset: 31084},
 														expr: &choiceExpr{
-															pos: position{line: 1005, col: 26, offset: 31243},
+															pos: position{line: 1006, col: 26, offset: 31266},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 776, col: 5, offset: 24902},
+																	pos: position{line: 777, col: 5, offset: 24925},
 																	run: (*parser).callonListContinuationElement988,
 																	expr: &seqExpr{
-																		pos: position{line: 776, col: 5, offset: 24902},
+																		pos: position{line: 777, col: 5, offset: 24925},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 776, col: 5, offset: 24902},
+																				pos:   position{line: 777, col: 5, offset: 24925},
 																				label: "delimiter",
 																				expr: &actionExpr{
-																					pos: position{line: 776, col: 16, offset: 24913},
+																					pos: position{line: 777, col: 16, offset: 24936},
 																					run: (*parser).callonListContinuationElement991,
 																					expr: &litMatcher{
-																						pos:        position{line: 776, col: 16, offset: 24913},
+																						pos:        position{line: 777, col: 16, offset: 24936},
 																						val:        "--",
 																						ignoreCase: false,
 																						want:       "\"--\"",
@@ -34192,12 +34410,12 @@ var g = &grammar{
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 778, col: 8, offset: 24990},
+																				pos: position{line: 779, col: 8, offset: 25013},
 																				expr: &actionExpr{
-																					pos: position{line: 2877, col: 10, offset: 91223},
+																					pos: position{line: 2878, col: 10, offset: 91246},
 																					run: (*parser).callonListContinuationElement994,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2877, col: 10, offset: 91223},
+																						pos:        position{line: 2878, col: 10, offset: 91246},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -34206,28 +34424,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2899, col: 8, offset: 91621},
+																				pos: position{line: 2900, col: 8, offset: 91644},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2886, col: 12, offset: 91394},
+																						pos: position{line: 2887, col: 12, offset: 91417},
 																						run: (*parser).callonListContinuationElement997,
 																						expr: &choiceExpr{
-																							pos: position{line: 2886, col: 13, offset: 91395},
+																							pos: position{line: 2887, col: 13, offset: 91418},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2886, col: 13, offset: 91395},
+																									pos:        position{line: 2887, col: 13, offset: 91418},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2886, col: 20, offset: 91402},
+																									pos:        position{line: 2887, col: 20, offset: 91425},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2886, col: 29, offset: 91411},
+																									pos:        position{line: 2887, col: 29, offset: 91434},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34236,9 +34454,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2896, col: 8, offset: 91571},
+																						pos: position{line: 2897, col: 8, offset: 91594},
 																						expr: &anyMatcher{
-																							line: 2896, col: 9, offset: 91572,
+																							line: 2897, col: 9, offset: 91595,
 																						},
 																					},
 																				},
@@ -34247,9 +34465,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2896, col: 8, offset: 91571},
+																	pos: position{line: 2897, col: 8, offset: 91594},
 																	expr: &anyMatcher{
-																		line: 2896, col: 9, offset: 91572,
+																		line: 2897, col: 9, offset: 91595,
 																	},
 																},
 															},
@@ -34260,39 +34478,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1017, col: 5, offset: 31485},
+										pos: position{line: 1018, col: 5, offset: 31508},
 										run: (*parser).callonListContinuationElement1006,
 										expr: &seqExpr{
-											pos: position{line: 1017, col: 5, offset: 31485},
+											pos: position{line: 1018, col: 5, offset: 31508},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1017, col: 5, offset: 31485},
+													pos:   position{line: 1018, col: 5, offset: 31508},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 790, col: 5, offset: 25385},
+														pos: position{line: 791, col: 5, offset: 25408},
 														run: (*parser).callonListContinuationElement1009,
 														expr: &seqExpr{
-															pos: position{line: 790, col: 5, offset: 25385},
+															pos: position{line: 791, col: 5, offset: 25408},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 790, col: 5, offset: 25385},
+																	pos:   position{line: 791, col: 5, offset: 25408},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 790, col: 16, offset: 25396},
+																		pos: position{line: 791, col: 16, offset: 25419},
 																		run: (*parser).callonListContinuationElement1012,
 																		expr: &seqExpr{
-																			pos: position{line: 790, col: 16, offset: 25396},
+																			pos: position{line: 791, col: 16, offset: 25419},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 790, col: 16, offset: 25396},
+																					pos:        position{line: 791, col: 16, offset: 25419},
 																					val:        "++++",
 																					ignoreCase: false,
 																					want:       "\"++++\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 790, col: 23, offset: 25403},
+																					pos: position{line: 791, col: 23, offset: 25426},
 																					expr: &litMatcher{
-																						pos:        position{line: 790, col: 23, offset: 25403},
+																						pos:        position{line: 791, col: 23, offset: 25426},
 																						val:        "+",
 																						ignoreCase: false,
 																						want:       "\"+\"",
@@ -34303,12 +34521,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 792, col: 8, offset: 25487},
+																	pos: position{line: 793, col: 8, offset: 25510},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91223},
+																		pos: position{line: 2878, col: 10, offset: 91246},
 																		run: (*parser).callonListContinuationElement1018,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91223},
+																			pos:        position{line: 2878, col: 10, offset: 91246},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34317,28 +34535,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91621},
+																	pos: position{line: 2900, col: 8, offset: 91644},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91394},
+																			pos: position{line: 2887, col: 12, offset: 91417},
 																			run: (*parser).callonListContinuationElement1021,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91395},
+																				pos: position{line: 2887, col: 13, offset: 91418},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91395},
+																						pos:        position{line: 2887, col: 13, offset: 91418},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91402},
+																						pos:        position{line: 2887, col: 20, offset: 91425},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91411},
+																						pos:        position{line: 2887, col: 29, offset: 91434},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34347,9 +34565,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91571},
+																			pos: position{line: 2897, col: 8, offset: 91594},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91572,
+																				line: 2897, col: 9, offset: 91595,
 																			},
 																		},
 																	},
@@ -34359,56 +34577,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1018, col: 5, offset: 31528},
+													pos: position{line: 1019, col: 5, offset: 31551},
 													run: (*parser).callonListContinuationElement1028,
 												},
 												&labeledExpr{
-													pos:   position{line: 1021, col: 5, offset: 31620},
+													pos:   position{line: 1022, col: 5, offset: 31643},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1036, col: 5, offset: 32050},
+														pos: position{line: 1037, col: 5, offset: 32073},
 														expr: &actionExpr{
-															pos: position{line: 1036, col: 6, offset: 32051},
+															pos: position{line: 1037, col: 6, offset: 32074},
 															run: (*parser).callonListContinuationElement1031,
 															expr: &seqExpr{
-																pos: position{line: 1036, col: 6, offset: 32051},
+																pos: position{line: 1037, col: 6, offset: 32074},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1036, col: 6, offset: 32051},
+																		pos: position{line: 1037, col: 6, offset: 32074},
 																		expr: &choiceExpr{
-																			pos: position{line: 1029, col: 5, offset: 31884},
+																			pos: position{line: 1030, col: 5, offset: 31907},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1029, col: 5, offset: 31884},
+																					pos: position{line: 1030, col: 5, offset: 31907},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1029, col: 5, offset: 31884},
+																							pos:   position{line: 1030, col: 5, offset: 31907},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 790, col: 5, offset: 25385},
+																								pos: position{line: 791, col: 5, offset: 25408},
 																								run: (*parser).callonListContinuationElement1037,
 																								expr: &seqExpr{
-																									pos: position{line: 790, col: 5, offset: 25385},
+																									pos: position{line: 791, col: 5, offset: 25408},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 790, col: 5, offset: 25385},
+																											pos:   position{line: 791, col: 5, offset: 25408},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 790, col: 16, offset: 25396},
+																												pos: position{line: 791, col: 16, offset: 25419},
 																												run: (*parser).callonListContinuationElement1040,
 																												expr: &seqExpr{
-																													pos: position{line: 790, col: 16, offset: 25396},
+																													pos: position{line: 791, col: 16, offset: 25419},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 790, col: 16, offset: 25396},
+																															pos:        position{line: 791, col: 16, offset: 25419},
 																															val:        "++++",
 																															ignoreCase: false,
 																															want:       "\"++++\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 790, col: 23, offset: 25403},
+																															pos: position{line: 791, col: 23, offset: 25426},
 																															expr: &litMatcher{
-																																pos:        position{line: 790, col: 23, offset: 25403},
+																																pos:        position{line: 791, col: 23, offset: 25426},
 																																val:        "+",
 																																ignoreCase: false,
 																																want:       "\"+\"",
@@ -34419,12 +34637,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 792, col: 8, offset: 25487},
+																											pos: position{line: 793, col: 8, offset: 25510},
 																											expr: &actionExpr{
-																												pos: position{line: 2877, col: 10, offset: 91223},
+																												pos: position{line: 2878, col: 10, offset: 91246},
 																												run: (*parser).callonListContinuationElement1046,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2877, col: 10, offset: 91223},
+																													pos:        position{line: 2878, col: 10, offset: 91246},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34433,28 +34651,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91621},
+																											pos: position{line: 2900, col: 8, offset: 91644},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91394},
+																													pos: position{line: 2887, col: 12, offset: 91417},
 																													run: (*parser).callonListContinuationElement1049,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91395},
+																														pos: position{line: 2887, col: 13, offset: 91418},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91395},
+																																pos:        position{line: 2887, col: 13, offset: 91418},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91402},
+																																pos:        position{line: 2887, col: 20, offset: 91425},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91411},
+																																pos:        position{line: 2887, col: 29, offset: 91434},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34463,9 +34681,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91571},
+																													pos: position{line: 2897, col: 8, offset: 91594},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91572,
+																														line: 2897, col: 9, offset: 91595,
 																													},
 																												},
 																											},
@@ -34475,45 +34693,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1030, col: 5, offset: 31919},
+																							pos: position{line: 1031, col: 5, offset: 31942},
 																							run: (*parser).callonListContinuationElement1056,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91571},
+																					pos: position{line: 2897, col: 8, offset: 91594},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91572,
+																						line: 2897, col: 9, offset: 91595,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1037, col: 5, offset: 32085},
+																		pos:   position{line: 1038, col: 5, offset: 32108},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26129},
+																			pos: position{line: 812, col: 5, offset: 26152},
 																			run: (*parser).callonListContinuationElement1060,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26129},
+																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2894, col: 11, offset: 91557},
+																						pos: position{line: 2895, col: 11, offset: 91580},
 																						expr: &anyMatcher{
-																							line: 2894, col: 13, offset: 91559,
+																							line: 2895, col: 13, offset: 91582,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26204},
+																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2823, col: 13, offset: 89749},
+																							pos: position{line: 2824, col: 13, offset: 89772},
 																							run: (*parser).callonListContinuationElement1065,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2823, col: 13, offset: 89749},
+																								pos: position{line: 2824, col: 13, offset: 89772},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2823, col: 13, offset: 89749},
+																									pos:        position{line: 2824, col: 13, offset: 89772},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34523,28 +34741,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91621},
+																						pos: position{line: 2900, col: 8, offset: 91644},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91394},
+																								pos: position{line: 2887, col: 12, offset: 91417},
 																								run: (*parser).callonListContinuationElement1069,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91395},
+																									pos: position{line: 2887, col: 13, offset: 91418},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91395},
+																											pos:        position{line: 2887, col: 13, offset: 91418},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91402},
+																											pos:        position{line: 2887, col: 20, offset: 91425},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91411},
+																											pos:        position{line: 2887, col: 29, offset: 91434},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34553,9 +34771,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91571},
+																								pos: position{line: 2897, col: 8, offset: 91594},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91572,
+																									line: 2897, col: 9, offset: 91595,
 																								},
 																							},
 																						},
@@ -34570,44 +34788,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1022, col: 5, offset: 31658},
+													pos:   position{line: 1023, col: 5, offset: 31681},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1022, col: 9, offset: 31662},
+														pos: position{line: 1023, col: 9, offset: 31685},
 														expr: &choiceExpr{
-															pos: position{line: 1029, col: 5, offset: 31884},
+															pos: position{line: 1030, col: 5, offset: 31907},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1029, col: 5, offset: 31884},
+																	pos: position{line: 1030, col: 5, offset: 31907},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1029, col: 5, offset: 31884},
+																			pos:   position{line: 1030, col: 5, offset: 31907},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 790, col: 5, offset: 25385},
+																				pos: position{line: 791, col: 5, offset: 25408},
 																				run: (*parser).callonListContinuationElement1081,
 																				expr: &seqExpr{
-																					pos: position{line: 790, col: 5, offset: 25385},
+																					pos: position{line: 791, col: 5, offset: 25408},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 790, col: 5, offset: 25385},
+																							pos:   position{line: 791, col: 5, offset: 25408},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 790, col: 16, offset: 25396},
+																								pos: position{line: 791, col: 16, offset: 25419},
 																								run: (*parser).callonListContinuationElement1084,
 																								expr: &seqExpr{
-																									pos: position{line: 790, col: 16, offset: 25396},
+																									pos: position{line: 791, col: 16, offset: 25419},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 790, col: 16, offset: 25396},
+																											pos:        position{line: 791, col: 16, offset: 25419},
 																											val:        "++++",
 																											ignoreCase: false,
 																											want:       "\"++++\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 790, col: 23, offset: 25403},
+																											pos: position{line: 791, col: 23, offset: 25426},
 																											expr: &litMatcher{
-																												pos:        position{line: 790, col: 23, offset: 25403},
+																												pos:        position{line: 791, col: 23, offset: 25426},
 																												val:        "+",
 																												ignoreCase: false,
 																												want:       "\"+\"",
@@ -34618,12 +34836,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 792, col: 8, offset: 25487},
+																							pos: position{line: 793, col: 8, offset: 25510},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91223},
+																								pos: position{line: 2878, col: 10, offset: 91246},
 																								run: (*parser).callonListContinuationElement1090,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91223},
+																									pos:        position{line: 2878, col: 10, offset: 91246},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34632,28 +34850,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91621},
+																							pos: position{line: 2900, col: 8, offset: 91644},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91394},
+																									pos: position{line: 2887, col: 12, offset: 91417},
 																									run: (*parser).callonListContinuationElement1093,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91395},
+																										pos: position{line: 2887, col: 13, offset: 91418},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91395},
+																												pos:        position{line: 2887, col: 13, offset: 91418},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91402},
+																												pos:        position{line: 2887, col: 20, offset: 91425},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91411},
+																												pos:        position{line: 2887, col: 29, offset: 91434},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34662,9 +34880,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91571},
+																									pos: position{line: 2897, col: 8, offset: 91594},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91572,
+																										line: 2897, col: 9, offset: 91595,
 																									},
 																								},
 																							},
@@ -34674,15 +34892,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1030, col: 5, offset: 31919},
+																			pos: position{line: 1031, col: 5, offset: 31942},
 																			run: (*parser).callonListContinuationElement1100,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2896, col: 8, offset: 91571},
+																	pos: position{line: 2897, col: 8, offset: 91594},
 																	expr: &anyMatcher{
-																		line: 2896, col: 9, offset: 91572,
+																		line: 2897, col: 9, offset: 91595,
 																	},
 																},
 															},
@@ -34693,39 +34911,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1045, col: 5, offset: 32236},
+										pos: position{line: 1046, col: 5, offset: 32259},
 										run: (*parser).callonListContinuationElement1103,
 										expr: &seqExpr{
-											pos: position{line: 1045, col: 5, offset: 32236},
+											pos: position{line: 1046, col: 5, offset: 32259},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1045, col: 5, offset: 32236},
+													pos:   position{line: 1046, col: 5, offset: 32259},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 797, col: 5, offset: 25635},
+														pos: position{line: 798, col: 5, offset: 25658},
 														run: (*parser).callonListContinuationElement1106,
 														expr: &seqExpr{
-															pos: position{line: 797, col: 5, offset: 25635},
+															pos: position{line: 798, col: 5, offset: 25658},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 797, col: 5, offset: 25635},
+																	pos:   position{line: 798, col: 5, offset: 25658},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 797, col: 16, offset: 25646},
+																		pos: position{line: 798, col: 16, offset: 25669},
 																		run: (*parser).callonListContinuationElement1109,
 																		expr: &seqExpr{
-																			pos: position{line: 797, col: 16, offset: 25646},
+																			pos: position{line: 798, col: 16, offset: 25669},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 797, col: 16, offset: 25646},
+																					pos:        position{line: 798, col: 16, offset: 25669},
 																					val:        "____",
 																					ignoreCase: false,
 																					want:       "\"____\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 797, col: 23, offset: 25653},
+																					pos: position{line: 798, col: 23, offset: 25676},
 																					expr: &litMatcher{
-																						pos:        position{line: 797, col: 23, offset: 25653},
+																						pos:        position{line: 798, col: 23, offset: 25676},
 																						val:        "_",
 																						ignoreCase: false,
 																						want:       "\"_\"",
@@ -34736,12 +34954,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 799, col: 8, offset: 25737},
+																	pos: position{line: 800, col: 8, offset: 25760},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91223},
+																		pos: position{line: 2878, col: 10, offset: 91246},
 																		run: (*parser).callonListContinuationElement1115,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91223},
+																			pos:        position{line: 2878, col: 10, offset: 91246},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34750,28 +34968,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91621},
+																	pos: position{line: 2900, col: 8, offset: 91644},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91394},
+																			pos: position{line: 2887, col: 12, offset: 91417},
 																			run: (*parser).callonListContinuationElement1118,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91395},
+																				pos: position{line: 2887, col: 13, offset: 91418},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91395},
+																						pos:        position{line: 2887, col: 13, offset: 91418},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91402},
+																						pos:        position{line: 2887, col: 20, offset: 91425},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91411},
+																						pos:        position{line: 2887, col: 29, offset: 91434},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34780,9 +34998,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91571},
+																			pos: position{line: 2897, col: 8, offset: 91594},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91572,
+																				line: 2897, col: 9, offset: 91595,
 																			},
 																		},
 																	},
@@ -34792,56 +35010,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1046, col: 5, offset: 32273},
+													pos: position{line: 1047, col: 5, offset: 32296},
 													run: (*parser).callonListContinuationElement1125,
 												},
 												&labeledExpr{
-													pos:   position{line: 1049, col: 5, offset: 32365},
+													pos:   position{line: 1050, col: 5, offset: 32388},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1064, col: 4, offset: 32746},
+														pos: position{line: 1065, col: 4, offset: 32769},
 														expr: &actionExpr{
-															pos: position{line: 1064, col: 5, offset: 32747},
+															pos: position{line: 1065, col: 5, offset: 32770},
 															run: (*parser).callonListContinuationElement1128,
 															expr: &seqExpr{
-																pos: position{line: 1064, col: 5, offset: 32747},
+																pos: position{line: 1065, col: 5, offset: 32770},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1064, col: 5, offset: 32747},
+																		pos: position{line: 1065, col: 5, offset: 32770},
 																		expr: &choiceExpr{
-																			pos: position{line: 1057, col: 5, offset: 32593},
+																			pos: position{line: 1058, col: 5, offset: 32616},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1057, col: 5, offset: 32593},
+																					pos: position{line: 1058, col: 5, offset: 32616},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1057, col: 5, offset: 32593},
+																							pos:   position{line: 1058, col: 5, offset: 32616},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 797, col: 5, offset: 25635},
+																								pos: position{line: 798, col: 5, offset: 25658},
 																								run: (*parser).callonListContinuationElement1134,
 																								expr: &seqExpr{
-																									pos: position{line: 797, col: 5, offset: 25635},
+																									pos: position{line: 798, col: 5, offset: 25658},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 797, col: 5, offset: 25635},
+																											pos:   position{line: 798, col: 5, offset: 25658},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 797, col: 16, offset: 25646},
+																												pos: position{line: 798, col: 16, offset: 25669},
 																												run: (*parser).callonListContinuationElement1137,
 																												expr: &seqExpr{
-																													pos: position{line: 797, col: 16, offset: 25646},
+																													pos: position{line: 798, col: 16, offset: 25669},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 797, col: 16, offset: 25646},
+																															pos:        position{line: 798, col: 16, offset: 25669},
 																															val:        "____",
 																															ignoreCase: false,
 																															want:       "\"____\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 797, col: 23, offset: 25653},
+																															pos: position{line: 798, col: 23, offset: 25676},
 																															expr: &litMatcher{
-																																pos:        position{line: 797, col: 23, offset: 25653},
+																																pos:        position{line: 798, col: 23, offset: 25676},
 																																val:        "_",
 																																ignoreCase: false,
 																																want:       "\"_\"",
@@ -34852,12 +35070,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 799, col: 8, offset: 25737},
+																											pos: position{line: 800, col: 8, offset: 25760},
 																											expr: &actionExpr{
-																												pos: position{line: 2877, col: 10, offset: 91223},
+																												pos: position{line: 2878, col: 10, offset: 91246},
 																												run: (*parser).callonListContinuationElement1143,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2877, col: 10, offset: 91223},
+																													pos:        position{line: 2878, col: 10, offset: 91246},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34866,28 +35084,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91621},
+																											pos: position{line: 2900, col: 8, offset: 91644},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91394},
+																													pos: position{line: 2887, col: 12, offset: 91417},
 																													run: (*parser).callonListContinuationElement1146,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91395},
+																														pos: position{line: 2887, col: 13, offset: 91418},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91395},
+																																pos:        position{line: 2887, col: 13, offset: 91418},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91402},
+																																pos:        position{line: 2887, col: 20, offset: 91425},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91411},
+																																pos:        position{line: 2887, col: 29, offset: 91434},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34896,9 +35114,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91571},
+																													pos: position{line: 2897, col: 8, offset: 91594},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91572,
+																														line: 2897, col: 9, offset: 91595,
 																													},
 																												},
 																											},
@@ -34908,45 +35126,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1058, col: 5, offset: 32622},
+																							pos: position{line: 1059, col: 5, offset: 32645},
 																							run: (*parser).callonListContinuationElement1153,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91571},
+																					pos: position{line: 2897, col: 8, offset: 91594},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91572,
+																						line: 2897, col: 9, offset: 91595,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1065, col: 5, offset: 32775},
+																		pos:   position{line: 1066, col: 5, offset: 32798},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26129},
+																			pos: position{line: 812, col: 5, offset: 26152},
 																			run: (*parser).callonListContinuationElement1157,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26129},
+																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2894, col: 11, offset: 91557},
+																						pos: position{line: 2895, col: 11, offset: 91580},
 																						expr: &anyMatcher{
-																							line: 2894, col: 13, offset: 91559,
+																							line: 2895, col: 13, offset: 91582,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26204},
+																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2823, col: 13, offset: 89749},
+																							pos: position{line: 2824, col: 13, offset: 89772},
 																							run: (*parser).callonListContinuationElement1162,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2823, col: 13, offset: 89749},
+																								pos: position{line: 2824, col: 13, offset: 89772},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2823, col: 13, offset: 89749},
+																									pos:        position{line: 2824, col: 13, offset: 89772},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34956,28 +35174,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91621},
+																						pos: position{line: 2900, col: 8, offset: 91644},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91394},
+																								pos: position{line: 2887, col: 12, offset: 91417},
 																								run: (*parser).callonListContinuationElement1166,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91395},
+																									pos: position{line: 2887, col: 13, offset: 91418},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91395},
+																											pos:        position{line: 2887, col: 13, offset: 91418},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91402},
+																											pos:        position{line: 2887, col: 20, offset: 91425},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91411},
+																											pos:        position{line: 2887, col: 29, offset: 91434},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34986,9 +35204,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91571},
+																								pos: position{line: 2897, col: 8, offset: 91594},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91572,
+																									line: 2897, col: 9, offset: 91595,
 																								},
 																							},
 																						},
@@ -35003,44 +35221,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1050, col: 5, offset: 32397},
+													pos:   position{line: 1051, col: 5, offset: 32420},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1050, col: 9, offset: 32401},
+														pos: position{line: 1051, col: 9, offset: 32424},
 														expr: &choiceExpr{
-															pos: position{line: 1057, col: 5, offset: 32593},
+															pos: position{line: 1058, col: 5, offset: 32616},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1057, col: 5, offset: 32593},
+																	pos: position{line: 1058, col: 5, offset: 32616},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1057, col: 5, offset: 32593},
+																			pos:   position{line: 1058, col: 5, offset: 32616},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 797, col: 5, offset: 25635},
+																				pos: position{line: 798, col: 5, offset: 25658},
 																				run: (*parser).callonListContinuationElement1178,
 																				expr: &seqExpr{
-																					pos: position{line: 797, col: 5, offset: 25635},
+																					pos: position{line: 798, col: 5, offset: 25658},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 797, col: 5, offset: 25635},
+																							pos:   position{line: 798, col: 5, offset: 25658},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 797, col: 16, offset: 25646},
+																								pos: position{line: 798, col: 16, offset: 25669},
 																								run: (*parser).callonListContinuationElement1181,
 																								expr: &seqExpr{
-																									pos: position{line: 797, col: 16, offset: 25646},
+																									pos: position{line: 798, col: 16, offset: 25669},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 797, col: 16, offset: 25646},
+																											pos:        position{line: 798, col: 16, offset: 25669},
 																											val:        "____",
 																											ignoreCase: false,
 																											want:       "\"____\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 797, col: 23, offset: 25653},
+																											pos: position{line: 798, col: 23, offset: 25676},
 																											expr: &litMatcher{
-																												pos:        position{line: 797, col: 23, offset: 25653},
+																												pos:        position{line: 798, col: 23, offset: 25676},
 																												val:        "_",
 																												ignoreCase: false,
 																												want:       "\"_\"",
@@ -35051,12 +35269,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 799, col: 8, offset: 25737},
+																							pos: position{line: 800, col: 8, offset: 25760},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91223},
+																								pos: position{line: 2878, col: 10, offset: 91246},
 																								run: (*parser).callonListContinuationElement1187,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91223},
+																									pos:        position{line: 2878, col: 10, offset: 91246},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35065,28 +35283,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91621},
+																							pos: position{line: 2900, col: 8, offset: 91644},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91394},
+																									pos: position{line: 2887, col: 12, offset: 91417},
 																									run: (*parser).callonListContinuationElement1190,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91395},
+																										pos: position{line: 2887, col: 13, offset: 91418},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91395},
+																												pos:        position{line: 2887, col: 13, offset: 91418},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91402},
+																												pos:        position{line: 2887, col: 20, offset: 91425},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91411},
+																												pos:        position{line: 2887, col: 29, offset: 91434},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35095,9 +35313,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91571},
+																									pos: position{line: 2897, col: 8, offset: 91594},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91572,
+																										line: 2897, col: 9, offset: 91595,
 																									},
 																								},
 																							},
@@ -35107,15 +35325,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1058, col: 5, offset: 32622},
+																			pos: position{line: 1059, col: 5, offset: 32645},
 																			run: (*parser).callonListContinuationElement1197,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2896, col: 8, offset: 91571},
+																	pos: position{line: 2897, col: 8, offset: 91594},
 																	expr: &anyMatcher{
-																		line: 2896, col: 9, offset: 91572,
+																		line: 2897, col: 9, offset: 91595,
 																	},
 																},
 															},
@@ -35126,39 +35344,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1073, col: 5, offset: 32930},
+										pos: position{line: 1074, col: 5, offset: 32953},
 										run: (*parser).callonListContinuationElement1200,
 										expr: &seqExpr{
-											pos: position{line: 1073, col: 5, offset: 32930},
+											pos: position{line: 1074, col: 5, offset: 32953},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1073, col: 5, offset: 32930},
+													pos:   position{line: 1074, col: 5, offset: 32953},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 804, col: 5, offset: 25881},
+														pos: position{line: 805, col: 5, offset: 25904},
 														run: (*parser).callonListContinuationElement1203,
 														expr: &seqExpr{
-															pos: position{line: 804, col: 5, offset: 25881},
+															pos: position{line: 805, col: 5, offset: 25904},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 804, col: 5, offset: 25881},
+																	pos:   position{line: 805, col: 5, offset: 25904},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 804, col: 16, offset: 25892},
+																		pos: position{line: 805, col: 16, offset: 25915},
 																		run: (*parser).callonListContinuationElement1206,
 																		expr: &seqExpr{
-																			pos: position{line: 804, col: 16, offset: 25892},
+																			pos: position{line: 805, col: 16, offset: 25915},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 804, col: 16, offset: 25892},
+																					pos:        position{line: 805, col: 16, offset: 25915},
 																					val:        "****",
 																					ignoreCase: false,
 																					want:       "\"****\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 804, col: 23, offset: 25899},
+																					pos: position{line: 805, col: 23, offset: 25922},
 																					expr: &litMatcher{
-																						pos:        position{line: 804, col: 23, offset: 25899},
+																						pos:        position{line: 805, col: 23, offset: 25922},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -35169,12 +35387,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 806, col: 8, offset: 25983},
+																	pos: position{line: 807, col: 8, offset: 26006},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91223},
+																		pos: position{line: 2878, col: 10, offset: 91246},
 																		run: (*parser).callonListContinuationElement1212,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91223},
+																			pos:        position{line: 2878, col: 10, offset: 91246},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35183,28 +35401,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91621},
+																	pos: position{line: 2900, col: 8, offset: 91644},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91394},
+																			pos: position{line: 2887, col: 12, offset: 91417},
 																			run: (*parser).callonListContinuationElement1215,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91395},
+																				pos: position{line: 2887, col: 13, offset: 91418},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91395},
+																						pos:        position{line: 2887, col: 13, offset: 91418},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91402},
+																						pos:        position{line: 2887, col: 20, offset: 91425},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91411},
+																						pos:        position{line: 2887, col: 29, offset: 91434},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35213,9 +35431,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91571},
+																			pos: position{line: 2897, col: 8, offset: 91594},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91572,
+																				line: 2897, col: 9, offset: 91595,
 																			},
 																		},
 																	},
@@ -35225,56 +35443,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1074, col: 5, offset: 32969},
+													pos: position{line: 1075, col: 5, offset: 32992},
 													run: (*parser).callonListContinuationElement1222,
 												},
 												&labeledExpr{
-													pos:   position{line: 1077, col: 5, offset: 33061},
+													pos:   position{line: 1078, col: 5, offset: 33084},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1092, col: 4, offset: 33458},
+														pos: position{line: 1093, col: 4, offset: 33481},
 														expr: &actionExpr{
-															pos: position{line: 1092, col: 5, offset: 33459},
+															pos: position{line: 1093, col: 5, offset: 33482},
 															run: (*parser).callonListContinuationElement1225,
 															expr: &seqExpr{
-																pos: position{line: 1092, col: 5, offset: 33459},
+																pos: position{line: 1093, col: 5, offset: 33482},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1092, col: 5, offset: 33459},
+																		pos: position{line: 1093, col: 5, offset: 33482},
 																		expr: &choiceExpr{
-																			pos: position{line: 1085, col: 5, offset: 33301},
+																			pos: position{line: 1086, col: 5, offset: 33324},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1085, col: 5, offset: 33301},
+																					pos: position{line: 1086, col: 5, offset: 33324},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1085, col: 5, offset: 33301},
+																							pos:   position{line: 1086, col: 5, offset: 33324},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 804, col: 5, offset: 25881},
+																								pos: position{line: 805, col: 5, offset: 25904},
 																								run: (*parser).callonListContinuationElement1231,
 																								expr: &seqExpr{
-																									pos: position{line: 804, col: 5, offset: 25881},
+																									pos: position{line: 805, col: 5, offset: 25904},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 804, col: 5, offset: 25881},
+																											pos:   position{line: 805, col: 5, offset: 25904},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 804, col: 16, offset: 25892},
+																												pos: position{line: 805, col: 16, offset: 25915},
 																												run: (*parser).callonListContinuationElement1234,
 																												expr: &seqExpr{
-																													pos: position{line: 804, col: 16, offset: 25892},
+																													pos: position{line: 805, col: 16, offset: 25915},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 804, col: 16, offset: 25892},
+																															pos:        position{line: 805, col: 16, offset: 25915},
 																															val:        "****",
 																															ignoreCase: false,
 																															want:       "\"****\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 804, col: 23, offset: 25899},
+																															pos: position{line: 805, col: 23, offset: 25922},
 																															expr: &litMatcher{
-																																pos:        position{line: 804, col: 23, offset: 25899},
+																																pos:        position{line: 805, col: 23, offset: 25922},
 																																val:        "*",
 																																ignoreCase: false,
 																																want:       "\"*\"",
@@ -35285,12 +35503,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 806, col: 8, offset: 25983},
+																											pos: position{line: 807, col: 8, offset: 26006},
 																											expr: &actionExpr{
-																												pos: position{line: 2877, col: 10, offset: 91223},
+																												pos: position{line: 2878, col: 10, offset: 91246},
 																												run: (*parser).callonListContinuationElement1240,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2877, col: 10, offset: 91223},
+																													pos:        position{line: 2878, col: 10, offset: 91246},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35299,28 +35517,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91621},
+																											pos: position{line: 2900, col: 8, offset: 91644},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91394},
+																													pos: position{line: 2887, col: 12, offset: 91417},
 																													run: (*parser).callonListContinuationElement1243,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91395},
+																														pos: position{line: 2887, col: 13, offset: 91418},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91395},
+																																pos:        position{line: 2887, col: 13, offset: 91418},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91402},
+																																pos:        position{line: 2887, col: 20, offset: 91425},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91411},
+																																pos:        position{line: 2887, col: 29, offset: 91434},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35329,9 +35547,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91571},
+																													pos: position{line: 2897, col: 8, offset: 91594},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91572,
+																														line: 2897, col: 9, offset: 91595,
 																													},
 																												},
 																											},
@@ -35341,45 +35559,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1086, col: 5, offset: 33332},
+																							pos: position{line: 1087, col: 5, offset: 33355},
 																							run: (*parser).callonListContinuationElement1250,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91571},
+																					pos: position{line: 2897, col: 8, offset: 91594},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91572,
+																						line: 2897, col: 9, offset: 91595,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1093, col: 5, offset: 33489},
+																		pos:   position{line: 1094, col: 5, offset: 33512},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26129},
+																			pos: position{line: 812, col: 5, offset: 26152},
 																			run: (*parser).callonListContinuationElement1254,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26129},
+																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2894, col: 11, offset: 91557},
+																						pos: position{line: 2895, col: 11, offset: 91580},
 																						expr: &anyMatcher{
-																							line: 2894, col: 13, offset: 91559,
+																							line: 2895, col: 13, offset: 91582,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26204},
+																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2823, col: 13, offset: 89749},
+																							pos: position{line: 2824, col: 13, offset: 89772},
 																							run: (*parser).callonListContinuationElement1259,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2823, col: 13, offset: 89749},
+																								pos: position{line: 2824, col: 13, offset: 89772},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2823, col: 13, offset: 89749},
+																									pos:        position{line: 2824, col: 13, offset: 89772},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35389,28 +35607,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91621},
+																						pos: position{line: 2900, col: 8, offset: 91644},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91394},
+																								pos: position{line: 2887, col: 12, offset: 91417},
 																								run: (*parser).callonListContinuationElement1263,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91395},
+																									pos: position{line: 2887, col: 13, offset: 91418},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91395},
+																											pos:        position{line: 2887, col: 13, offset: 91418},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91402},
+																											pos:        position{line: 2887, col: 20, offset: 91425},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91411},
+																											pos:        position{line: 2887, col: 29, offset: 91434},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35419,9 +35637,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91571},
+																								pos: position{line: 2897, col: 8, offset: 91594},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91572,
+																									line: 2897, col: 9, offset: 91595,
 																								},
 																							},
 																						},
@@ -35436,44 +35654,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1078, col: 5, offset: 33095},
+													pos:   position{line: 1079, col: 5, offset: 33118},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1078, col: 9, offset: 33099},
+														pos: position{line: 1079, col: 9, offset: 33122},
 														expr: &choiceExpr{
-															pos: position{line: 1085, col: 5, offset: 33301},
+															pos: position{line: 1086, col: 5, offset: 33324},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1085, col: 5, offset: 33301},
+																	pos: position{line: 1086, col: 5, offset: 33324},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1085, col: 5, offset: 33301},
+																			pos:   position{line: 1086, col: 5, offset: 33324},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 804, col: 5, offset: 25881},
+																				pos: position{line: 805, col: 5, offset: 25904},
 																				run: (*parser).callonListContinuationElement1275,
 																				expr: &seqExpr{
-																					pos: position{line: 804, col: 5, offset: 25881},
+																					pos: position{line: 805, col: 5, offset: 25904},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 804, col: 5, offset: 25881},
+																							pos:   position{line: 805, col: 5, offset: 25904},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 804, col: 16, offset: 25892},
+																								pos: position{line: 805, col: 16, offset: 25915},
 																								run: (*parser).callonListContinuationElement1278,
 																								expr: &seqExpr{
-																									pos: position{line: 804, col: 16, offset: 25892},
+																									pos: position{line: 805, col: 16, offset: 25915},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 804, col: 16, offset: 25892},
+																											pos:        position{line: 805, col: 16, offset: 25915},
 																											val:        "****",
 																											ignoreCase: false,
 																											want:       "\"****\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 804, col: 23, offset: 25899},
+																											pos: position{line: 805, col: 23, offset: 25922},
 																											expr: &litMatcher{
-																												pos:        position{line: 804, col: 23, offset: 25899},
+																												pos:        position{line: 805, col: 23, offset: 25922},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -35484,12 +35702,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 806, col: 8, offset: 25983},
+																							pos: position{line: 807, col: 8, offset: 26006},
 																							expr: &actionExpr{
-																								pos: position{line: 2877, col: 10, offset: 91223},
+																								pos: position{line: 2878, col: 10, offset: 91246},
 																								run: (*parser).callonListContinuationElement1284,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2877, col: 10, offset: 91223},
+																									pos:        position{line: 2878, col: 10, offset: 91246},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35498,28 +35716,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2899, col: 8, offset: 91621},
+																							pos: position{line: 2900, col: 8, offset: 91644},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2886, col: 12, offset: 91394},
+																									pos: position{line: 2887, col: 12, offset: 91417},
 																									run: (*parser).callonListContinuationElement1287,
 																									expr: &choiceExpr{
-																										pos: position{line: 2886, col: 13, offset: 91395},
+																										pos: position{line: 2887, col: 13, offset: 91418},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 13, offset: 91395},
+																												pos:        position{line: 2887, col: 13, offset: 91418},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 20, offset: 91402},
+																												pos:        position{line: 2887, col: 20, offset: 91425},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2886, col: 29, offset: 91411},
+																												pos:        position{line: 2887, col: 29, offset: 91434},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35528,9 +35746,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2896, col: 8, offset: 91571},
+																									pos: position{line: 2897, col: 8, offset: 91594},
 																									expr: &anyMatcher{
-																										line: 2896, col: 9, offset: 91572,
+																										line: 2897, col: 9, offset: 91595,
 																									},
 																								},
 																							},
@@ -35540,15 +35758,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1086, col: 5, offset: 33332},
+																			pos: position{line: 1087, col: 5, offset: 33355},
 																			run: (*parser).callonListContinuationElement1294,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2896, col: 8, offset: 91571},
+																	pos: position{line: 2897, col: 8, offset: 91594},
 																	expr: &anyMatcher{
-																		line: 2896, col: 9, offset: 91572,
+																		line: 2897, col: 9, offset: 91595,
 																	},
 																},
 															},
@@ -35559,52 +35777,52 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2722, col: 18, offset: 86797},
+										pos: position{line: 2723, col: 18, offset: 86820},
 										run: (*parser).callonListContinuationElement1297,
 										expr: &seqExpr{
-											pos: position{line: 2722, col: 18, offset: 86797},
+											pos: position{line: 2723, col: 18, offset: 86820},
 											exprs: []interface{}{
 												&choiceExpr{
-													pos: position{line: 2723, col: 9, offset: 86807},
+													pos: position{line: 2724, col: 9, offset: 86830},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2723, col: 9, offset: 86807},
+															pos:        position{line: 2724, col: 9, offset: 86830},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2724, col: 11, offset: 86843},
+															pos:        position{line: 2725, col: 11, offset: 86866},
 															val:        "***",
 															ignoreCase: false,
 															want:       "\"***\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2724, col: 19, offset: 86851},
+															pos:        position{line: 2725, col: 19, offset: 86874},
 															val:        "* * *",
 															ignoreCase: false,
 															want:       "\"* * *\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2724, col: 29, offset: 86861},
+															pos:        position{line: 2725, col: 29, offset: 86884},
 															val:        "---",
 															ignoreCase: false,
 															want:       "\"---\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2724, col: 37, offset: 86869},
+															pos:        position{line: 2725, col: 37, offset: 86892},
 															val:        "- - -",
 															ignoreCase: false,
 															want:       "\"- - -\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2724, col: 47, offset: 86879},
+															pos:        position{line: 2725, col: 47, offset: 86902},
 															val:        "___",
 															ignoreCase: false,
 															want:       "\"___\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2724, col: 55, offset: 86887},
+															pos:        position{line: 2725, col: 55, offset: 86910},
 															val:        "_ _ _",
 															ignoreCase: false,
 															want:       "\"_ _ _\"",
@@ -35612,12 +35830,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2725, col: 11, offset: 86933},
+													pos: position{line: 2726, col: 11, offset: 86956},
 													expr: &actionExpr{
-														pos: position{line: 2877, col: 10, offset: 91223},
+														pos: position{line: 2878, col: 10, offset: 91246},
 														run: (*parser).callonListContinuationElement1308,
 														expr: &charClassMatcher{
-															pos:        position{line: 2877, col: 10, offset: 91223},
+															pos:        position{line: 2878, col: 10, offset: 91246},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35626,28 +35844,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2899, col: 8, offset: 91621},
+													pos: position{line: 2900, col: 8, offset: 91644},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2886, col: 12, offset: 91394},
+															pos: position{line: 2887, col: 12, offset: 91417},
 															run: (*parser).callonListContinuationElement1311,
 															expr: &choiceExpr{
-																pos: position{line: 2886, col: 13, offset: 91395},
+																pos: position{line: 2887, col: 13, offset: 91418},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 13, offset: 91395},
+																		pos:        position{line: 2887, col: 13, offset: 91418},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 20, offset: 91402},
+																		pos:        position{line: 2887, col: 20, offset: 91425},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 29, offset: 91411},
+																		pos:        position{line: 2887, col: 29, offset: 91434},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35656,20 +35874,20 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2896, col: 8, offset: 91571},
+															pos: position{line: 2897, col: 8, offset: 91594},
 															expr: &anyMatcher{
-																line: 2896, col: 9, offset: 91572,
+																line: 2897, col: 9, offset: 91595,
 															},
 														},
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2725, col: 22, offset: 86944},
+													pos: position{line: 2726, col: 22, offset: 86967},
 													expr: &actionExpr{
-														pos: position{line: 2877, col: 10, offset: 91223},
+														pos: position{line: 2878, col: 10, offset: 91246},
 														run: (*parser).callonListContinuationElement1319,
 														expr: &charClassMatcher{
-															pos:        position{line: 2877, col: 10, offset: 91223},
+															pos:        position{line: 2878, col: 10, offset: 91246},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35678,28 +35896,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2899, col: 8, offset: 91621},
+													pos: position{line: 2900, col: 8, offset: 91644},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2886, col: 12, offset: 91394},
+															pos: position{line: 2887, col: 12, offset: 91417},
 															run: (*parser).callonListContinuationElement1322,
 															expr: &choiceExpr{
-																pos: position{line: 2886, col: 13, offset: 91395},
+																pos: position{line: 2887, col: 13, offset: 91418},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 13, offset: 91395},
+																		pos:        position{line: 2887, col: 13, offset: 91418},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 20, offset: 91402},
+																		pos:        position{line: 2887, col: 20, offset: 91425},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 29, offset: 91411},
+																		pos:        position{line: 2887, col: 29, offset: 91434},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35708,9 +35926,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2896, col: 8, offset: 91571},
+															pos: position{line: 2897, col: 8, offset: 91594},
 															expr: &anyMatcher{
-																line: 2896, col: 9, offset: 91572,
+																line: 2897, col: 9, offset: 91595,
 															},
 														},
 													},
@@ -35719,28 +35937,28 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1559, col: 11, offset: 50580},
+										pos:  position{line: 1560, col: 11, offset: 50603},
 										name: "ImageBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2613, col: 5, offset: 83733},
+										pos: position{line: 2614, col: 5, offset: 83756},
 										run: (*parser).callonListContinuationElement1330,
 										expr: &seqExpr{
-											pos: position{line: 2613, col: 5, offset: 83733},
+											pos: position{line: 2614, col: 5, offset: 83756},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2619, col: 19, offset: 83890},
+													pos:        position{line: 2620, col: 19, offset: 83913},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2619, col: 26, offset: 83897},
+													pos: position{line: 2620, col: 26, offset: 83920},
 													expr: &actionExpr{
-														pos: position{line: 2877, col: 10, offset: 91223},
+														pos: position{line: 2878, col: 10, offset: 91246},
 														run: (*parser).callonListContinuationElement1334,
 														expr: &charClassMatcher{
-															pos:        position{line: 2877, col: 10, offset: 91223},
+															pos:        position{line: 2878, col: 10, offset: 91246},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35749,28 +35967,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2899, col: 8, offset: 91621},
+													pos: position{line: 2900, col: 8, offset: 91644},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2886, col: 12, offset: 91394},
+															pos: position{line: 2887, col: 12, offset: 91417},
 															run: (*parser).callonListContinuationElement1337,
 															expr: &choiceExpr{
-																pos: position{line: 2886, col: 13, offset: 91395},
+																pos: position{line: 2887, col: 13, offset: 91418},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 13, offset: 91395},
+																		pos:        position{line: 2887, col: 13, offset: 91418},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 20, offset: 91402},
+																		pos:        position{line: 2887, col: 20, offset: 91425},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 29, offset: 91411},
+																		pos:        position{line: 2887, col: 29, offset: 91434},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35779,20 +35997,20 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2896, col: 8, offset: 91571},
+															pos: position{line: 2897, col: 8, offset: 91594},
 															expr: &anyMatcher{
-																line: 2896, col: 9, offset: 91572,
+																line: 2897, col: 9, offset: 91595,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2614, col: 5, offset: 83757},
+													pos:   position{line: 2615, col: 5, offset: 83780},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2614, col: 11, offset: 83763},
+														pos: position{line: 2615, col: 11, offset: 83786},
 														expr: &choiceExpr{
-															pos: position{line: 2614, col: 12, offset: 83764},
+															pos: position{line: 2615, col: 12, offset: 83787},
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 677, col: 14, offset: 21525},
@@ -35801,18 +36019,18 @@ var g = &grammar{
 																		pos: position{line: 677, col: 14, offset: 21525},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2894, col: 11, offset: 91557},
+																				pos: position{line: 2895, col: 11, offset: 91580},
 																				expr: &anyMatcher{
-																					line: 2894, col: 13, offset: 91559,
+																					line: 2895, col: 13, offset: 91582,
 																				},
 																			},
 																			&zeroOrMoreExpr{
 																				pos: position{line: 677, col: 21, offset: 21532},
 																				expr: &actionExpr{
-																					pos: position{line: 2877, col: 10, offset: 91223},
+																					pos: position{line: 2878, col: 10, offset: 91246},
 																					run: (*parser).callonListContinuationElement1352,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2877, col: 10, offset: 91223},
+																						pos:        position{line: 2878, col: 10, offset: 91246},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -35821,28 +36039,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2899, col: 8, offset: 91621},
+																				pos: position{line: 2900, col: 8, offset: 91644},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2886, col: 12, offset: 91394},
+																						pos: position{line: 2887, col: 12, offset: 91417},
 																						run: (*parser).callonListContinuationElement1355,
 																						expr: &choiceExpr{
-																							pos: position{line: 2886, col: 13, offset: 91395},
+																							pos: position{line: 2887, col: 13, offset: 91418},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2886, col: 13, offset: 91395},
+																									pos:        position{line: 2887, col: 13, offset: 91418},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2886, col: 20, offset: 91402},
+																									pos:        position{line: 2887, col: 20, offset: 91425},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2886, col: 29, offset: 91411},
+																									pos:        position{line: 2887, col: 29, offset: 91434},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35851,9 +36069,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2896, col: 8, offset: 91571},
+																						pos: position{line: 2897, col: 8, offset: 91594},
 																						expr: &anyMatcher{
-																							line: 2896, col: 9, offset: 91572,
+																							line: 2897, col: 9, offset: 91595,
 																						},
 																					},
 																				},
@@ -35862,32 +36080,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2626, col: 5, offset: 84009},
+																	pos: position{line: 2627, col: 5, offset: 84032},
 																	run: (*parser).callonListContinuationElement1362,
 																	expr: &seqExpr{
-																		pos: position{line: 2626, col: 5, offset: 84009},
+																		pos: position{line: 2627, col: 5, offset: 84032},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2626, col: 5, offset: 84009},
+																				pos: position{line: 2627, col: 5, offset: 84032},
 																				expr: &choiceExpr{
-																					pos: position{line: 2623, col: 22, offset: 83970},
+																					pos: position{line: 2624, col: 22, offset: 83993},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2619, col: 19, offset: 83890},
+																							pos: position{line: 2620, col: 19, offset: 83913},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2619, col: 19, offset: 83890},
+																									pos:        position{line: 2620, col: 19, offset: 83913},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2619, col: 26, offset: 83897},
+																									pos: position{line: 2620, col: 26, offset: 83920},
 																									expr: &actionExpr{
-																										pos: position{line: 2877, col: 10, offset: 91223},
+																										pos: position{line: 2878, col: 10, offset: 91246},
 																										run: (*parser).callonListContinuationElement1369,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2877, col: 10, offset: 91223},
+																											pos:        position{line: 2878, col: 10, offset: 91246},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -35896,28 +36114,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2899, col: 8, offset: 91621},
+																									pos: position{line: 2900, col: 8, offset: 91644},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2886, col: 12, offset: 91394},
+																											pos: position{line: 2887, col: 12, offset: 91417},
 																											run: (*parser).callonListContinuationElement1372,
 																											expr: &choiceExpr{
-																												pos: position{line: 2886, col: 13, offset: 91395},
+																												pos: position{line: 2887, col: 13, offset: 91418},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 13, offset: 91395},
+																														pos:        position{line: 2887, col: 13, offset: 91418},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 20, offset: 91402},
+																														pos:        position{line: 2887, col: 20, offset: 91425},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2886, col: 29, offset: 91411},
+																														pos:        position{line: 2887, col: 29, offset: 91434},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -35926,9 +36144,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2896, col: 8, offset: 91571},
+																											pos: position{line: 2897, col: 8, offset: 91594},
 																											expr: &anyMatcher{
-																												line: 2896, col: 9, offset: 91572,
+																												line: 2897, col: 9, offset: 91595,
 																											},
 																										},
 																									},
@@ -35936,59 +36154,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2896, col: 8, offset: 91571},
+																							pos: position{line: 2897, col: 8, offset: 91594},
 																							expr: &anyMatcher{
-																								line: 2896, col: 9, offset: 91572,
+																								line: 2897, col: 9, offset: 91595,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2627, col: 5, offset: 84032},
+																				pos:   position{line: 2628, col: 5, offset: 84055},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2628, col: 9, offset: 84050},
+																					pos: position{line: 2629, col: 9, offset: 84073},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2628, col: 10, offset: 84051},
+																							pos: position{line: 2629, col: 10, offset: 84074},
 																							run: (*parser).callonListContinuationElement1383,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2628, col: 10, offset: 84051},
+																								pos:   position{line: 2629, col: 10, offset: 84074},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2628, col: 17, offset: 84058},
+																									pos: position{line: 2629, col: 17, offset: 84081},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2636, col: 21, offset: 84254},
+																											pos: position{line: 2637, col: 21, offset: 84277},
 																											run: (*parser).callonListContinuationElement1386,
 																											expr: &seqExpr{
-																												pos: position{line: 2636, col: 21, offset: 84254},
+																												pos: position{line: 2637, col: 21, offset: 84277},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2636, col: 21, offset: 84254},
+																														pos:   position{line: 2637, col: 21, offset: 84277},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2636, col: 27, offset: 84260},
+																															pos: position{line: 2637, col: 27, offset: 84283},
 																															expr: &actionExpr{
-																																pos: position{line: 2641, col: 5, offset: 84335},
+																																pos: position{line: 2642, col: 5, offset: 84358},
 																																run: (*parser).callonListContinuationElement1390,
 																																expr: &seqExpr{
-																																	pos: position{line: 2641, col: 5, offset: 84335},
+																																	pos: position{line: 2642, col: 5, offset: 84358},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2641, col: 5, offset: 84335},
+																																			pos:        position{line: 2642, col: 5, offset: 84358},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2641, col: 9, offset: 84339},
+																																			pos: position{line: 2642, col: 9, offset: 84362},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2877, col: 10, offset: 91223},
+																																				pos: position{line: 2878, col: 10, offset: 91246},
 																																				run: (*parser).callonListContinuationElement1394,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2877, col: 10, offset: 91223},
+																																					pos:        position{line: 2878, col: 10, offset: 91246},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -35997,21 +36215,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2641, col: 16, offset: 84346},
+																																			pos:   position{line: 2642, col: 16, offset: 84369},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2647, col: 5, offset: 84546},
+																																				pos: position{line: 2648, col: 5, offset: 84569},
 																																				run: (*parser).callonListContinuationElement1397,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2647, col: 5, offset: 84546},
+																																					pos:   position{line: 2648, col: 5, offset: 84569},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2647, col: 14, offset: 84555},
+																																						pos: position{line: 2648, col: 14, offset: 84578},
 																																						run: (*parser).callonListContinuationElement1399,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2647, col: 14, offset: 84555},
+																																							pos: position{line: 2648, col: 14, offset: 84578},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2647, col: 14, offset: 84555},
+																																								pos:        position{line: 2648, col: 14, offset: 84578},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -36028,28 +36246,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2899, col: 8, offset: 91621},
+																														pos: position{line: 2900, col: 8, offset: 91644},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2886, col: 12, offset: 91394},
+																																pos: position{line: 2887, col: 12, offset: 91417},
 																																run: (*parser).callonListContinuationElement1403,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2886, col: 13, offset: 91395},
+																																	pos: position{line: 2887, col: 13, offset: 91418},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2886, col: 13, offset: 91395},
+																																			pos:        position{line: 2887, col: 13, offset: 91418},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2886, col: 20, offset: 91402},
+																																			pos:        position{line: 2887, col: 20, offset: 91425},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2886, col: 29, offset: 91411},
+																																			pos:        position{line: 2887, col: 29, offset: 91434},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -36058,9 +36276,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2896, col: 8, offset: 91571},
+																																pos: position{line: 2897, col: 8, offset: 91594},
 																																expr: &anyMatcher{
-																																	line: 2896, col: 9, offset: 91572,
+																																	line: 2897, col: 9, offset: 91595,
 																																},
 																															},
 																														},
@@ -36069,40 +36287,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2653, col: 24, offset: 84691},
+																											pos: position{line: 2654, col: 24, offset: 84714},
 																											run: (*parser).callonListContinuationElement1410,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2653, col: 24, offset: 84691},
+																												pos:   position{line: 2654, col: 24, offset: 84714},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2653, col: 30, offset: 84697},
+																													pos: position{line: 2654, col: 30, offset: 84720},
 																													expr: &actionExpr{
-																														pos: position{line: 2658, col: 5, offset: 84773},
+																														pos: position{line: 2659, col: 5, offset: 84796},
 																														run: (*parser).callonListContinuationElement1413,
 																														expr: &seqExpr{
-																															pos: position{line: 2658, col: 5, offset: 84773},
+																															pos: position{line: 2659, col: 5, offset: 84796},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2658, col: 5, offset: 84773},
+																																	pos: position{line: 2659, col: 5, offset: 84796},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2623, col: 22, offset: 83970},
+																																		pos: position{line: 2624, col: 22, offset: 83993},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2619, col: 19, offset: 83890},
+																																				pos: position{line: 2620, col: 19, offset: 83913},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2619, col: 19, offset: 83890},
+																																						pos:        position{line: 2620, col: 19, offset: 83913},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2619, col: 26, offset: 83897},
+																																						pos: position{line: 2620, col: 26, offset: 83920},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2877, col: 10, offset: 91223},
+																																							pos: position{line: 2878, col: 10, offset: 91246},
 																																							run: (*parser).callonListContinuationElement1420,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2877, col: 10, offset: 91223},
+																																								pos:        position{line: 2878, col: 10, offset: 91246},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -36111,28 +36329,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2899, col: 8, offset: 91621},
+																																						pos: position{line: 2900, col: 8, offset: 91644},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2886, col: 12, offset: 91394},
+																																								pos: position{line: 2887, col: 12, offset: 91417},
 																																								run: (*parser).callonListContinuationElement1423,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2886, col: 13, offset: 91395},
+																																									pos: position{line: 2887, col: 13, offset: 91418},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2886, col: 13, offset: 91395},
+																																											pos:        position{line: 2887, col: 13, offset: 91418},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2886, col: 20, offset: 91402},
+																																											pos:        position{line: 2887, col: 20, offset: 91425},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2886, col: 29, offset: 91411},
+																																											pos:        position{line: 2887, col: 29, offset: 91434},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -36141,9 +36359,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2896, col: 8, offset: 91571},
+																																								pos: position{line: 2897, col: 8, offset: 91594},
 																																								expr: &anyMatcher{
-																																									line: 2896, col: 9, offset: 91572,
+																																									line: 2897, col: 9, offset: 91595,
 																																								},
 																																							},
 																																						},
@@ -36151,16 +36369,16 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2896, col: 8, offset: 91571},
+																																				pos: position{line: 2897, col: 8, offset: 91594},
 																																				expr: &anyMatcher{
-																																					line: 2896, col: 9, offset: 91572,
+																																					line: 2897, col: 9, offset: 91595,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2659, col: 5, offset: 84796},
+																																	pos: position{line: 2660, col: 5, offset: 84819},
 																																	expr: &actionExpr{
 																																		pos: position{line: 677, col: 14, offset: 21525},
 																																		run: (*parser).callonListContinuationElement1433,
@@ -36168,18 +36386,18 @@ var g = &grammar{
 																																			pos: position{line: 677, col: 14, offset: 21525},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2894, col: 11, offset: 91557},
+																																					pos: position{line: 2895, col: 11, offset: 91580},
 																																					expr: &anyMatcher{
-																																						line: 2894, col: 13, offset: 91559,
+																																						line: 2895, col: 13, offset: 91582,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
 																																					pos: position{line: 677, col: 21, offset: 21532},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2877, col: 10, offset: 91223},
+																																						pos: position{line: 2878, col: 10, offset: 91246},
 																																						run: (*parser).callonListContinuationElement1438,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2877, col: 10, offset: 91223},
+																																							pos:        position{line: 2878, col: 10, offset: 91246},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -36188,28 +36406,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2899, col: 8, offset: 91621},
+																																					pos: position{line: 2900, col: 8, offset: 91644},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2886, col: 12, offset: 91394},
+																																							pos: position{line: 2887, col: 12, offset: 91417},
 																																							run: (*parser).callonListContinuationElement1441,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2886, col: 13, offset: 91395},
+																																								pos: position{line: 2887, col: 13, offset: 91418},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2886, col: 13, offset: 91395},
+																																										pos:        position{line: 2887, col: 13, offset: 91418},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2886, col: 20, offset: 91402},
+																																										pos:        position{line: 2887, col: 20, offset: 91425},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2886, col: 29, offset: 91411},
+																																										pos:        position{line: 2887, col: 29, offset: 91434},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -36218,9 +36436,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2896, col: 8, offset: 91571},
+																																							pos: position{line: 2897, col: 8, offset: 91594},
 																																							expr: &anyMatcher{
-																																								line: 2896, col: 9, offset: 91572,
+																																								line: 2897, col: 9, offset: 91595,
 																																							},
 																																						},
 																																					},
@@ -36230,17 +36448,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2660, col: 5, offset: 84811},
+																																	pos:   position{line: 2661, col: 5, offset: 84834},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2660, col: 12, offset: 84818},
+																																		pos: position{line: 2661, col: 12, offset: 84841},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2677, col: 20, offset: 85282},
+																																			pos: position{line: 2678, col: 20, offset: 85305},
 																																			run: (*parser).callonListContinuationElement1450,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2677, col: 20, offset: 85282},
+																																				pos: position{line: 2678, col: 20, offset: 85305},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2677, col: 20, offset: 85282},
+																																					pos:        position{line: 2678, col: 20, offset: 85305},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -36251,18 +36469,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2660, col: 31, offset: 84837},
+																																	pos:        position{line: 2661, col: 31, offset: 84860},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2660, col: 35, offset: 84841},
+																																	pos: position{line: 2661, col: 35, offset: 84864},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2877, col: 10, offset: 91223},
+																																		pos: position{line: 2878, col: 10, offset: 91246},
 																																		run: (*parser).callonListContinuationElement1455,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2877, col: 10, offset: 91223},
+																																			pos:        position{line: 2878, col: 10, offset: 91246},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -36271,27 +36489,27 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2660, col: 42, offset: 84848},
+																																	pos: position{line: 2661, col: 42, offset: 84871},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2886, col: 12, offset: 91394},
+																																		pos: position{line: 2887, col: 12, offset: 91417},
 																																		run: (*parser).callonListContinuationElement1458,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2886, col: 13, offset: 91395},
+																																			pos: position{line: 2887, col: 13, offset: 91418},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2886, col: 13, offset: 91395},
+																																					pos:        position{line: 2887, col: 13, offset: 91418},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2886, col: 20, offset: 91402},
+																																					pos:        position{line: 2887, col: 20, offset: 91425},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2886, col: 29, offset: 91411},
+																																					pos:        position{line: 2887, col: 29, offset: 91434},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -36301,37 +36519,37 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2660, col: 51, offset: 84857},
+																																	pos:   position{line: 2661, col: 51, offset: 84880},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2666, col: 5, offset: 85016},
+																																		pos: position{line: 2667, col: 5, offset: 85039},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2667, col: 9, offset: 85026},
+																																			pos: position{line: 2668, col: 9, offset: 85049},
 																																			run: (*parser).callonListContinuationElement1465,
 																																			expr: &seqExpr{
-																																				pos: position{line: 2667, col: 9, offset: 85026},
+																																				pos: position{line: 2668, col: 9, offset: 85049},
 																																				exprs: []interface{}{
 																																					&notExpr{
-																																						pos: position{line: 2667, col: 9, offset: 85026},
+																																						pos: position{line: 2668, col: 9, offset: 85049},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2623, col: 22, offset: 83970},
+																																							pos: position{line: 2624, col: 22, offset: 83993},
 																																							alternatives: []interface{}{
 																																								&seqExpr{
-																																									pos: position{line: 2619, col: 19, offset: 83890},
+																																									pos: position{line: 2620, col: 19, offset: 83913},
 																																									exprs: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2619, col: 19, offset: 83890},
+																																											pos:        position{line: 2620, col: 19, offset: 83913},
 																																											val:        "|===",
 																																											ignoreCase: false,
 																																											want:       "\"|===\"",
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 2619, col: 26, offset: 83897},
+																																											pos: position{line: 2620, col: 26, offset: 83920},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2877, col: 10, offset: 91223},
+																																												pos: position{line: 2878, col: 10, offset: 91246},
 																																												run: (*parser).callonListContinuationElement1472,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2877, col: 10, offset: 91223},
+																																													pos:        position{line: 2878, col: 10, offset: 91246},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -36340,28 +36558,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2899, col: 8, offset: 91621},
+																																											pos: position{line: 2900, col: 8, offset: 91644},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2886, col: 12, offset: 91394},
+																																													pos: position{line: 2887, col: 12, offset: 91417},
 																																													run: (*parser).callonListContinuationElement1475,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2886, col: 13, offset: 91395},
+																																														pos: position{line: 2887, col: 13, offset: 91418},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2886, col: 13, offset: 91395},
+																																																pos:        position{line: 2887, col: 13, offset: 91418},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2886, col: 20, offset: 91402},
+																																																pos:        position{line: 2887, col: 20, offset: 91425},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2886, col: 29, offset: 91411},
+																																																pos:        position{line: 2887, col: 29, offset: 91434},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -36370,9 +36588,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2896, col: 8, offset: 91571},
+																																													pos: position{line: 2897, col: 8, offset: 91594},
 																																													expr: &anyMatcher{
-																																														line: 2896, col: 9, offset: 91572,
+																																														line: 2897, col: 9, offset: 91595,
 																																													},
 																																												},
 																																											},
@@ -36380,16 +36598,16 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2896, col: 8, offset: 91571},
+																																									pos: position{line: 2897, col: 8, offset: 91594},
 																																									expr: &anyMatcher{
-																																										line: 2896, col: 9, offset: 91572,
+																																										line: 2897, col: 9, offset: 91595,
 																																									},
 																																								},
 																																							},
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2668, col: 9, offset: 85053},
+																																						pos: position{line: 2669, col: 9, offset: 85076},
 																																						expr: &actionExpr{
 																																							pos: position{line: 677, col: 14, offset: 21525},
 																																							run: (*parser).callonListContinuationElement1485,
@@ -36397,18 +36615,18 @@ var g = &grammar{
 																																								pos: position{line: 677, col: 14, offset: 21525},
 																																								exprs: []interface{}{
 																																									&andExpr{
-																																										pos: position{line: 2894, col: 11, offset: 91557},
+																																										pos: position{line: 2895, col: 11, offset: 91580},
 																																										expr: &anyMatcher{
-																																											line: 2894, col: 13, offset: 91559,
+																																											line: 2895, col: 13, offset: 91582,
 																																										},
 																																									},
 																																									&zeroOrMoreExpr{
 																																										pos: position{line: 677, col: 21, offset: 21532},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2877, col: 10, offset: 91223},
+																																											pos: position{line: 2878, col: 10, offset: 91246},
 																																											run: (*parser).callonListContinuationElement1490,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2877, col: 10, offset: 91223},
+																																												pos:        position{line: 2878, col: 10, offset: 91246},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -36417,28 +36635,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2899, col: 8, offset: 91621},
+																																										pos: position{line: 2900, col: 8, offset: 91644},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2886, col: 12, offset: 91394},
+																																												pos: position{line: 2887, col: 12, offset: 91417},
 																																												run: (*parser).callonListContinuationElement1493,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2886, col: 13, offset: 91395},
+																																													pos: position{line: 2887, col: 13, offset: 91418},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2886, col: 13, offset: 91395},
+																																															pos:        position{line: 2887, col: 13, offset: 91418},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2886, col: 20, offset: 91402},
+																																															pos:        position{line: 2887, col: 20, offset: 91425},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2886, col: 29, offset: 91411},
+																																															pos:        position{line: 2887, col: 29, offset: 91434},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -36447,9 +36665,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2896, col: 8, offset: 91571},
+																																												pos: position{line: 2897, col: 8, offset: 91594},
 																																												expr: &anyMatcher{
-																																													line: 2896, col: 9, offset: 91572,
+																																													line: 2897, col: 9, offset: 91595,
 																																												},
 																																											},
 																																										},
@@ -36459,22 +36677,22 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2669, col: 9, offset: 85072},
+																																						pos: position{line: 2670, col: 9, offset: 85095},
 																																						expr: &seqExpr{
-																																							pos: position{line: 2669, col: 11, offset: 85074},
+																																							pos: position{line: 2670, col: 11, offset: 85097},
 																																							exprs: []interface{}{
 																																								&labeledExpr{
-																																									pos:   position{line: 2669, col: 11, offset: 85074},
+																																									pos:   position{line: 2670, col: 11, offset: 85097},
 																																									label: "format",
 																																									expr: &zeroOrOneExpr{
-																																										pos: position{line: 2669, col: 18, offset: 85081},
+																																										pos: position{line: 2670, col: 18, offset: 85104},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2677, col: 20, offset: 85282},
+																																											pos: position{line: 2678, col: 20, offset: 85305},
 																																											run: (*parser).callonListContinuationElement1504,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2677, col: 20, offset: 85282},
+																																												pos: position{line: 2678, col: 20, offset: 85305},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2677, col: 20, offset: 85282},
+																																													pos:        position{line: 2678, col: 20, offset: 85305},
 																																													val:        "[^ |\\r\\n]",
 																																													chars:      []rune{' ', '|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -36485,7 +36703,7 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&litMatcher{
-																																									pos:        position{line: 2669, col: 37, offset: 85100},
+																																									pos:        position{line: 2670, col: 37, offset: 85123},
 																																									val:        "|",
 																																									ignoreCase: false,
 																																									want:       "\"|\"",
@@ -36494,15 +36712,15 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2670, col: 9, offset: 85113},
+																																						pos:   position{line: 2671, col: 9, offset: 85136},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2670, col: 18, offset: 85122},
+																																							pos: position{line: 2671, col: 18, offset: 85145},
 																																							run: (*parser).callonListContinuationElement1509,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2670, col: 18, offset: 85122},
+																																								pos: position{line: 2671, col: 18, offset: 85145},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2670, col: 18, offset: 85122},
+																																									pos:        position{line: 2671, col: 18, offset: 85145},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -36512,30 +36730,30 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&zeroOrOneExpr{
-																																						pos: position{line: 2672, col: 12, offset: 85184},
+																																						pos: position{line: 2673, col: 12, offset: 85207},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2899, col: 8, offset: 91621},
+																																							pos: position{line: 2900, col: 8, offset: 91644},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2886, col: 12, offset: 91394},
+																																									pos: position{line: 2887, col: 12, offset: 91417},
 																																									run: (*parser).callonListContinuationElement1514,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2886, col: 13, offset: 91395},
+																																										pos: position{line: 2887, col: 13, offset: 91418},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2886, col: 13, offset: 91395},
+																																												pos:        position{line: 2887, col: 13, offset: 91418},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2886, col: 20, offset: 91402},
+																																												pos:        position{line: 2887, col: 20, offset: 91425},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2886, col: 29, offset: 91411},
+																																												pos:        position{line: 2887, col: 29, offset: 91434},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -36544,9 +36762,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2896, col: 8, offset: 91571},
+																																									pos: position{line: 2897, col: 8, offset: 91594},
 																																									expr: &anyMatcher{
-																																										line: 2896, col: 9, offset: 91572,
+																																										line: 2897, col: 9, offset: 91595,
 																																									},
 																																								},
 																																							},
@@ -36574,18 +36792,18 @@ var g = &grammar{
 																								pos: position{line: 677, col: 14, offset: 21525},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2894, col: 11, offset: 91557},
+																										pos: position{line: 2895, col: 11, offset: 91580},
 																										expr: &anyMatcher{
-																											line: 2894, col: 13, offset: 91559,
+																											line: 2895, col: 13, offset: 91582,
 																										},
 																									},
 																									&zeroOrMoreExpr{
 																										pos: position{line: 677, col: 21, offset: 21532},
 																										expr: &actionExpr{
-																											pos: position{line: 2877, col: 10, offset: 91223},
+																											pos: position{line: 2878, col: 10, offset: 91246},
 																											run: (*parser).callonListContinuationElement1526,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2877, col: 10, offset: 91223},
+																												pos:        position{line: 2878, col: 10, offset: 91246},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -36594,28 +36812,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2899, col: 8, offset: 91621},
+																										pos: position{line: 2900, col: 8, offset: 91644},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2886, col: 12, offset: 91394},
+																												pos: position{line: 2887, col: 12, offset: 91417},
 																												run: (*parser).callonListContinuationElement1529,
 																												expr: &choiceExpr{
-																													pos: position{line: 2886, col: 13, offset: 91395},
+																													pos: position{line: 2887, col: 13, offset: 91418},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2886, col: 13, offset: 91395},
+																															pos:        position{line: 2887, col: 13, offset: 91418},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2886, col: 20, offset: 91402},
+																															pos:        position{line: 2887, col: 20, offset: 91425},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2886, col: 29, offset: 91411},
+																															pos:        position{line: 2887, col: 29, offset: 91434},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -36624,9 +36842,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2896, col: 8, offset: 91571},
+																												pos: position{line: 2897, col: 8, offset: 91594},
 																												expr: &anyMatcher{
-																													line: 2896, col: 9, offset: 91572,
+																													line: 2897, col: 9, offset: 91595,
 																												},
 																											},
 																										},
@@ -36645,24 +36863,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2623, col: 22, offset: 83970},
+													pos: position{line: 2624, col: 22, offset: 83993},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2619, col: 19, offset: 83890},
+															pos: position{line: 2620, col: 19, offset: 83913},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2619, col: 19, offset: 83890},
+																	pos:        position{line: 2620, col: 19, offset: 83913},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2619, col: 26, offset: 83897},
+																	pos: position{line: 2620, col: 26, offset: 83920},
 																	expr: &actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91223},
+																		pos: position{line: 2878, col: 10, offset: 91246},
 																		run: (*parser).callonListContinuationElement1540,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91223},
+																			pos:        position{line: 2878, col: 10, offset: 91246},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -36671,28 +36889,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91621},
+																	pos: position{line: 2900, col: 8, offset: 91644},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91394},
+																			pos: position{line: 2887, col: 12, offset: 91417},
 																			run: (*parser).callonListContinuationElement1543,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91395},
+																				pos: position{line: 2887, col: 13, offset: 91418},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91395},
+																						pos:        position{line: 2887, col: 13, offset: 91418},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91402},
+																						pos:        position{line: 2887, col: 20, offset: 91425},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91411},
+																						pos:        position{line: 2887, col: 29, offset: 91434},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36701,9 +36919,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91571},
+																			pos: position{line: 2897, col: 8, offset: 91594},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91572,
+																				line: 2897, col: 9, offset: 91595,
 																			},
 																		},
 																	},
@@ -36711,9 +36929,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2896, col: 8, offset: 91571},
+															pos: position{line: 2897, col: 8, offset: 91594},
 															expr: &anyMatcher{
-																line: 2896, col: 9, offset: 91572,
+																line: 2897, col: 9, offset: 91595,
 															},
 														},
 													},
@@ -36722,36 +36940,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2484, col: 22, offset: 80109},
+										pos: position{line: 2485, col: 22, offset: 80132},
 										run: (*parser).callonListContinuationElement1552,
 										expr: &seqExpr{
-											pos: position{line: 2484, col: 22, offset: 80109},
+											pos: position{line: 2485, col: 22, offset: 80132},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2489, col: 31, offset: 80330},
+													pos:        position{line: 2490, col: 31, offset: 80353},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2489, col: 36, offset: 80335},
+													pos: position{line: 2490, col: 36, offset: 80358},
 													expr: &litMatcher{
-														pos:        position{line: 2489, col: 37, offset: 80336},
+														pos:        position{line: 2490, col: 37, offset: 80359},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2484, col: 49, offset: 80136},
+													pos:   position{line: 2485, col: 49, offset: 80159},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2823, col: 13, offset: 89749},
+														pos: position{line: 2824, col: 13, offset: 89772},
 														run: (*parser).callonListContinuationElement1558,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2823, col: 13, offset: 89749},
+															pos: position{line: 2824, col: 13, offset: 89772},
 															expr: &charClassMatcher{
-																pos:        position{line: 2823, col: 13, offset: 89749},
+																pos:        position{line: 2824, col: 13, offset: 89772},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -36761,28 +36979,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2899, col: 8, offset: 91621},
+													pos: position{line: 2900, col: 8, offset: 91644},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2886, col: 12, offset: 91394},
+															pos: position{line: 2887, col: 12, offset: 91417},
 															run: (*parser).callonListContinuationElement1562,
 															expr: &choiceExpr{
-																pos: position{line: 2886, col: 13, offset: 91395},
+																pos: position{line: 2887, col: 13, offset: 91418},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 13, offset: 91395},
+																		pos:        position{line: 2887, col: 13, offset: 91418},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 20, offset: 91402},
+																		pos:        position{line: 2887, col: 20, offset: 91425},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 29, offset: 91411},
+																		pos:        position{line: 2887, col: 29, offset: 91434},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36791,9 +37009,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2896, col: 8, offset: 91571},
+															pos: position{line: 2897, col: 8, offset: 91594},
 															expr: &anyMatcher{
-																line: 2896, col: 9, offset: 91572,
+																line: 2897, col: 9, offset: 91595,
 															},
 														},
 													},
@@ -36802,94 +37020,94 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1572, col: 5, offset: 51010},
+										pos: position{line: 1573, col: 5, offset: 51033},
 										run: (*parser).callonListContinuationElement1569,
 										expr: &seqExpr{
-											pos: position{line: 1572, col: 5, offset: 51010},
+											pos: position{line: 1573, col: 5, offset: 51033},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1572, col: 5, offset: 51010},
+													pos:   position{line: 1573, col: 5, offset: 51033},
 													label: "style",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1572, col: 11, offset: 51016},
+														pos: position{line: 1573, col: 11, offset: 51039},
 														expr: &actionExpr{
-															pos: position{line: 1737, col: 5, offset: 56365},
+															pos: position{line: 1738, col: 5, offset: 56388},
 															run: (*parser).callonListContinuationElement1573,
 															expr: &seqExpr{
-																pos: position{line: 1737, col: 5, offset: 56365},
+																pos: position{line: 1738, col: 5, offset: 56388},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1737, col: 5, offset: 56365},
+																		pos: position{line: 1738, col: 5, offset: 56388},
 																		run: (*parser).callonListContinuationElement1575,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1740, col: 5, offset: 56428},
+																		pos:   position{line: 1741, col: 5, offset: 56451},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1740, col: 12, offset: 56435},
+																			pos: position{line: 1741, col: 12, offset: 56458},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1740, col: 12, offset: 56435},
+																					pos: position{line: 1741, col: 12, offset: 56458},
 																					run: (*parser).callonListContinuationElement1578,
 																					expr: &litMatcher{
-																						pos:        position{line: 1740, col: 12, offset: 56435},
+																						pos:        position{line: 1741, col: 12, offset: 56458},
 																						val:        "TIP: ",
 																						ignoreCase: false,
 																						want:       "\"TIP: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1742, col: 13, offset: 56491},
+																					pos: position{line: 1743, col: 13, offset: 56514},
 																					run: (*parser).callonListContinuationElement1580,
 																					expr: &litMatcher{
-																						pos:        position{line: 1742, col: 13, offset: 56491},
+																						pos:        position{line: 1743, col: 13, offset: 56514},
 																						val:        "NOTE: ",
 																						ignoreCase: false,
 																						want:       "\"NOTE: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1744, col: 13, offset: 56549},
+																					pos: position{line: 1745, col: 13, offset: 56572},
 																					run: (*parser).callonListContinuationElement1582,
 																					expr: &litMatcher{
-																						pos:        position{line: 1744, col: 13, offset: 56549},
+																						pos:        position{line: 1745, col: 13, offset: 56572},
 																						val:        "IMPORTANT: ",
 																						ignoreCase: false,
 																						want:       "\"IMPORTANT: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1746, col: 13, offset: 56617},
+																					pos: position{line: 1747, col: 13, offset: 56640},
 																					run: (*parser).callonListContinuationElement1584,
 																					expr: &litMatcher{
-																						pos:        position{line: 1746, col: 13, offset: 56617},
+																						pos:        position{line: 1747, col: 13, offset: 56640},
 																						val:        "WARNING: ",
 																						ignoreCase: false,
 																						want:       "\"WARNING: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1748, col: 13, offset: 56681},
+																					pos: position{line: 1749, col: 13, offset: 56704},
 																					run: (*parser).callonListContinuationElement1586,
 																					expr: &litMatcher{
-																						pos:        position{line: 1748, col: 13, offset: 56681},
+																						pos:        position{line: 1749, col: 13, offset: 56704},
 																						val:        "CAUTION: ",
 																						ignoreCase: false,
 																						want:       "\"CAUTION: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1750, col: 13, offset: 56745},
+																					pos: position{line: 1751, col: 13, offset: 56768},
 																					run: (*parser).callonListContinuationElement1588,
 																					expr: &andExpr{
-																						pos: position{line: 1750, col: 13, offset: 56745},
+																						pos: position{line: 1751, col: 13, offset: 56768},
 																						expr: &actionExpr{
-																							pos: position{line: 2881, col: 11, offset: 91284},
+																							pos: position{line: 2882, col: 11, offset: 91307},
 																							run: (*parser).callonListContinuationElement1590,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2881, col: 11, offset: 91284},
+																								pos: position{line: 2882, col: 11, offset: 91307},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2881, col: 11, offset: 91284},
+																									pos:        position{line: 2882, col: 11, offset: 91307},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36903,17 +37121,17 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1752, col: 12, offset: 56815},
+																		pos: position{line: 1753, col: 12, offset: 56838},
 																		expr: &seqExpr{
-																			pos: position{line: 1752, col: 14, offset: 56817},
+																			pos: position{line: 1753, col: 14, offset: 56840},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1752, col: 14, offset: 56817},
+																					pos: position{line: 1753, col: 14, offset: 56840},
 																					expr: &actionExpr{
-																						pos: position{line: 2877, col: 10, offset: 91223},
+																						pos: position{line: 2878, col: 10, offset: 91246},
 																						run: (*parser).callonListContinuationElement1596,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2877, col: 10, offset: 91223},
+																							pos:        position{line: 2878, col: 10, offset: 91246},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36922,28 +37140,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2899, col: 8, offset: 91621},
+																					pos: position{line: 2900, col: 8, offset: 91644},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2886, col: 12, offset: 91394},
+																							pos: position{line: 2887, col: 12, offset: 91417},
 																							run: (*parser).callonListContinuationElement1599,
 																							expr: &choiceExpr{
-																								pos: position{line: 2886, col: 13, offset: 91395},
+																								pos: position{line: 2887, col: 13, offset: 91418},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 13, offset: 91395},
+																										pos:        position{line: 2887, col: 13, offset: 91418},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 20, offset: 91402},
+																										pos:        position{line: 2887, col: 20, offset: 91425},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 29, offset: 91411},
+																										pos:        position{line: 2887, col: 29, offset: 91434},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -36952,9 +37170,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2896, col: 8, offset: 91571},
+																							pos: position{line: 2897, col: 8, offset: 91594},
 																							expr: &anyMatcher{
-																								line: 2896, col: 9, offset: 91572,
+																								line: 2897, col: 9, offset: 91595,
 																							},
 																						},
 																					},
@@ -36968,16 +37186,16 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1573, col: 5, offset: 51039},
+													pos:   position{line: 1574, col: 5, offset: 51062},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1516, col: 5, offset: 49389},
+														pos: position{line: 1517, col: 5, offset: 49412},
 														run: (*parser).callonListContinuationElement1607,
 														expr: &seqExpr{
-															pos: position{line: 1516, col: 5, offset: 49389},
+															pos: position{line: 1517, col: 5, offset: 49412},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1516, col: 5, offset: 49389},
+																	pos: position{line: 1517, col: 5, offset: 49412},
 																	expr: &actionExpr{
 																		pos: position{line: 677, col: 14, offset: 21525},
 																		run: (*parser).callonListContinuationElement1610,
@@ -36985,18 +37203,18 @@ var g = &grammar{
 																			pos: position{line: 677, col: 14, offset: 21525},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2894, col: 11, offset: 91557},
+																					pos: position{line: 2895, col: 11, offset: 91580},
 																					expr: &anyMatcher{
-																						line: 2894, col: 13, offset: 91559,
+																						line: 2895, col: 13, offset: 91582,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21532},
 																					expr: &actionExpr{
-																						pos: position{line: 2877, col: 10, offset: 91223},
+																						pos: position{line: 2878, col: 10, offset: 91246},
 																						run: (*parser).callonListContinuationElement1615,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2877, col: 10, offset: 91223},
+																							pos:        position{line: 2878, col: 10, offset: 91246},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37005,28 +37223,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2899, col: 8, offset: 91621},
+																					pos: position{line: 2900, col: 8, offset: 91644},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2886, col: 12, offset: 91394},
+																							pos: position{line: 2887, col: 12, offset: 91417},
 																							run: (*parser).callonListContinuationElement1618,
 																							expr: &choiceExpr{
-																								pos: position{line: 2886, col: 13, offset: 91395},
+																								pos: position{line: 2887, col: 13, offset: 91418},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 13, offset: 91395},
+																										pos:        position{line: 2887, col: 13, offset: 91418},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 20, offset: 91402},
+																										pos:        position{line: 2887, col: 20, offset: 91425},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 29, offset: 91411},
+																										pos:        position{line: 2887, col: 29, offset: 91434},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -37035,9 +37253,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2896, col: 8, offset: 91571},
+																							pos: position{line: 2897, col: 8, offset: 91594},
 																							expr: &anyMatcher{
-																								line: 2896, col: 9, offset: 91572,
+																								line: 2897, col: 9, offset: 91595,
 																							},
 																						},
 																					},
@@ -37047,23 +37265,23 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1517, col: 5, offset: 49404},
+																	pos: position{line: 1518, col: 5, offset: 49427},
 																	expr: &seqExpr{
-																		pos: position{line: 1547, col: 27, offset: 50230},
+																		pos: position{line: 1548, col: 27, offset: 50253},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1547, col: 27, offset: 50230},
+																				pos:        position{line: 1548, col: 27, offset: 50253},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 1547, col: 31, offset: 50234},
+																				pos: position{line: 1548, col: 31, offset: 50257},
 																				expr: &actionExpr{
-																					pos: position{line: 2877, col: 10, offset: 91223},
+																					pos: position{line: 2878, col: 10, offset: 91246},
 																					run: (*parser).callonListContinuationElement1629,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2877, col: 10, offset: 91223},
+																						pos:        position{line: 2878, col: 10, offset: 91246},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -37072,25 +37290,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91394},
+																				pos: position{line: 2887, col: 12, offset: 91417},
 																				run: (*parser).callonListContinuationElement1631,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91395},
+																					pos: position{line: 2887, col: 13, offset: 91418},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91395},
+																							pos:        position{line: 2887, col: 13, offset: 91418},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91402},
+																							pos:        position{line: 2887, col: 20, offset: 91425},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91411},
+																							pos:        position{line: 2887, col: 29, offset: 91434},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -37102,20 +37320,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1518, col: 5, offset: 49432},
+																	pos: position{line: 1519, col: 5, offset: 49455},
 																	expr: &actionExpr{
-																		pos: position{line: 1588, col: 5, offset: 51449},
+																		pos: position{line: 1589, col: 5, offset: 51472},
 																		run: (*parser).callonListContinuationElement1637,
 																		expr: &seqExpr{
-																			pos: position{line: 1588, col: 5, offset: 51449},
+																			pos: position{line: 1589, col: 5, offset: 51472},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1588, col: 5, offset: 51449},
+																					pos: position{line: 1589, col: 5, offset: 51472},
 																					expr: &actionExpr{
-																						pos: position{line: 2877, col: 10, offset: 91223},
+																						pos: position{line: 2878, col: 10, offset: 91246},
 																						run: (*parser).callonListContinuationElement1640,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2877, col: 10, offset: 91223},
+																							pos:        position{line: 2878, col: 10, offset: 91246},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37124,27 +37342,27 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1588, col: 12, offset: 51456},
+																					pos:   position{line: 1589, col: 12, offset: 51479},
 																					label: "prefix",
 																					expr: &choiceExpr{
-																						pos: position{line: 1590, col: 9, offset: 51519},
+																						pos: position{line: 1591, col: 9, offset: 51542},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 1590, col: 9, offset: 51519},
+																								pos: position{line: 1591, col: 9, offset: 51542},
 																								run: (*parser).callonListContinuationElement1644,
 																								expr: &seqExpr{
-																									pos: position{line: 1590, col: 9, offset: 51519},
+																									pos: position{line: 1591, col: 9, offset: 51542},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 1590, col: 9, offset: 51519},
+																											pos:   position{line: 1591, col: 9, offset: 51542},
 																											label: "depth",
 																											expr: &actionExpr{
-																												pos: position{line: 1590, col: 16, offset: 51526},
+																												pos: position{line: 1591, col: 16, offset: 51549},
 																												run: (*parser).callonListContinuationElement1647,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1590, col: 16, offset: 51526},
+																													pos: position{line: 1591, col: 16, offset: 51549},
 																													expr: &litMatcher{
-																														pos:        position{line: 1590, col: 17, offset: 51527},
+																														pos:        position{line: 1591, col: 17, offset: 51550},
 																														val:        ".",
 																														ignoreCase: false,
 																														want:       "\".\"",
@@ -37153,22 +37371,22 @@ var g = &grammar{
 																											},
 																										},
 																										&andCodeExpr{
-																											pos: position{line: 1594, col: 9, offset: 51627},
+																											pos: position{line: 1595, col: 9, offset: 51650},
 																											run: (*parser).callonListContinuationElement1650,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1613, col: 11, offset: 52344},
+																								pos: position{line: 1614, col: 11, offset: 52367},
 																								run: (*parser).callonListContinuationElement1651,
 																								expr: &seqExpr{
-																									pos: position{line: 1613, col: 11, offset: 52344},
+																									pos: position{line: 1614, col: 11, offset: 52367},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1613, col: 11, offset: 52344},
+																											pos: position{line: 1614, col: 11, offset: 52367},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1613, col: 12, offset: 52345},
+																												pos:        position{line: 1614, col: 12, offset: 52368},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -37176,7 +37394,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1613, col: 20, offset: 52353},
+																											pos:        position{line: 1614, col: 20, offset: 52376},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -37185,20 +37403,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1615, col: 13, offset: 52470},
+																								pos: position{line: 1616, col: 13, offset: 52493},
 																								run: (*parser).callonListContinuationElement1656,
 																								expr: &seqExpr{
-																									pos: position{line: 1615, col: 13, offset: 52470},
+																									pos: position{line: 1616, col: 13, offset: 52493},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1615, col: 14, offset: 52471},
+																											pos:        position{line: 1616, col: 14, offset: 52494},
 																											val:        "[a-z]",
 																											ranges:     []rune{'a', 'z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1615, col: 21, offset: 52478},
+																											pos:        position{line: 1616, col: 21, offset: 52501},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -37207,20 +37425,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1617, col: 13, offset: 52598},
+																								pos: position{line: 1618, col: 13, offset: 52621},
 																								run: (*parser).callonListContinuationElement1660,
 																								expr: &seqExpr{
-																									pos: position{line: 1617, col: 13, offset: 52598},
+																									pos: position{line: 1618, col: 13, offset: 52621},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1617, col: 14, offset: 52599},
+																											pos:        position{line: 1618, col: 14, offset: 52622},
 																											val:        "[A-Z]",
 																											ranges:     []rune{'A', 'Z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1617, col: 21, offset: 52606},
+																											pos:        position{line: 1618, col: 21, offset: 52629},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -37229,15 +37447,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1619, col: 13, offset: 52726},
+																								pos: position{line: 1620, col: 13, offset: 52749},
 																								run: (*parser).callonListContinuationElement1664,
 																								expr: &seqExpr{
-																									pos: position{line: 1619, col: 13, offset: 52726},
+																									pos: position{line: 1620, col: 13, offset: 52749},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1619, col: 13, offset: 52726},
+																											pos: position{line: 1620, col: 13, offset: 52749},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1619, col: 14, offset: 52727},
+																												pos:        position{line: 1620, col: 14, offset: 52750},
 																												val:        "[ivxdlcm]",
 																												chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																												ignoreCase: false,
@@ -37245,7 +37463,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1619, col: 26, offset: 52739},
+																											pos:        position{line: 1620, col: 26, offset: 52762},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -37254,15 +37472,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1621, col: 13, offset: 52859},
+																								pos: position{line: 1622, col: 13, offset: 52882},
 																								run: (*parser).callonListContinuationElement1669,
 																								expr: &seqExpr{
-																									pos: position{line: 1621, col: 13, offset: 52859},
+																									pos: position{line: 1622, col: 13, offset: 52882},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1621, col: 13, offset: 52859},
+																											pos: position{line: 1622, col: 13, offset: 52882},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1621, col: 14, offset: 52860},
+																												pos:        position{line: 1622, col: 14, offset: 52883},
 																												val:        "[IVXDLCM]",
 																												chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																												ignoreCase: false,
@@ -37270,7 +37488,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1621, col: 26, offset: 52872},
+																											pos:        position{line: 1622, col: 26, offset: 52895},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -37282,12 +37500,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2881, col: 11, offset: 91284},
+																					pos: position{line: 2882, col: 11, offset: 91307},
 																					run: (*parser).callonListContinuationElement1674,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2881, col: 11, offset: 91284},
+																						pos: position{line: 2882, col: 11, offset: 91307},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2881, col: 11, offset: 91284},
+																							pos:        position{line: 2882, col: 11, offset: 91307},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37300,20 +37518,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1519, col: 5, offset: 49462},
+																	pos: position{line: 1520, col: 5, offset: 49485},
 																	expr: &actionExpr{
-																		pos: position{line: 1638, col: 5, offset: 53411},
+																		pos: position{line: 1639, col: 5, offset: 53434},
 																		run: (*parser).callonListContinuationElement1678,
 																		expr: &seqExpr{
-																			pos: position{line: 1638, col: 5, offset: 53411},
+																			pos: position{line: 1639, col: 5, offset: 53434},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1638, col: 5, offset: 53411},
+																					pos: position{line: 1639, col: 5, offset: 53434},
 																					expr: &actionExpr{
-																						pos: position{line: 2877, col: 10, offset: 91223},
+																						pos: position{line: 2878, col: 10, offset: 91246},
 																						run: (*parser).callonListContinuationElement1681,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2877, col: 10, offset: 91223},
+																							pos:        position{line: 2878, col: 10, offset: 91246},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37322,24 +37540,24 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1639, col: 5, offset: 53423},
+																					pos:   position{line: 1640, col: 5, offset: 53446},
 																					label: "style",
 																					expr: &actionExpr{
-																						pos: position{line: 1640, col: 9, offset: 53439},
+																						pos: position{line: 1641, col: 9, offset: 53462},
 																						run: (*parser).callonListContinuationElement1684,
 																						expr: &choiceExpr{
-																							pos: position{line: 1640, col: 10, offset: 53440},
+																							pos: position{line: 1641, col: 10, offset: 53463},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1640, col: 11, offset: 53441},
+																									pos:        position{line: 1641, col: 11, offset: 53464},
 																									val:        "-",
 																									ignoreCase: false,
 																									want:       "\"-\"",
 																								},
 																								&oneOrMoreExpr{
-																									pos: position{line: 1640, col: 18, offset: 53448},
+																									pos: position{line: 1641, col: 18, offset: 53471},
 																									expr: &litMatcher{
-																										pos:        position{line: 1640, col: 19, offset: 53449},
+																										pos:        position{line: 1641, col: 19, offset: 53472},
 																										val:        "*",
 																										ignoreCase: false,
 																										want:       "\"*\"",
@@ -37350,16 +37568,16 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1643, col: 7, offset: 53539},
+																					pos: position{line: 1644, col: 7, offset: 53562},
 																					run: (*parser).callonListContinuationElement1689,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2881, col: 11, offset: 91284},
+																					pos: position{line: 2882, col: 11, offset: 91307},
 																					run: (*parser).callonListContinuationElement1690,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2881, col: 11, offset: 91284},
+																						pos: position{line: 2882, col: 11, offset: 91307},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2881, col: 11, offset: 91284},
+																							pos:        position{line: 2882, col: 11, offset: 91307},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37372,29 +37590,29 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1520, col: 5, offset: 49494},
+																	pos: position{line: 1521, col: 5, offset: 49517},
 																	expr: &actionExpr{
-																		pos: position{line: 1728, col: 5, offset: 55980},
+																		pos: position{line: 1729, col: 5, offset: 56003},
 																		run: (*parser).callonListContinuationElement1694,
 																		expr: &seqExpr{
-																			pos: position{line: 1728, col: 5, offset: 55980},
+																			pos: position{line: 1729, col: 5, offset: 56003},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1728, col: 5, offset: 55980},
+																					pos:        position{line: 1729, col: 5, offset: 56003},
 																					val:        "<",
 																					ignoreCase: false,
 																					want:       "\"<\"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1728, col: 9, offset: 55984},
+																					pos:   position{line: 1729, col: 9, offset: 56007},
 																					label: "ref",
 																					expr: &actionExpr{
-																						pos: position{line: 1728, col: 14, offset: 55989},
+																						pos: position{line: 1729, col: 14, offset: 56012},
 																						run: (*parser).callonListContinuationElement1698,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 1728, col: 14, offset: 55989},
+																							pos: position{line: 1729, col: 14, offset: 56012},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1728, col: 14, offset: 55989},
+																								pos:        position{line: 1729, col: 14, offset: 56012},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -37404,18 +37622,18 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 1728, col: 62, offset: 56037},
+																					pos:        position{line: 1729, col: 62, offset: 56060},
 																					val:        ">",
 																					ignoreCase: false,
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2881, col: 11, offset: 91284},
+																					pos: position{line: 2882, col: 11, offset: 91307},
 																					run: (*parser).callonListContinuationElement1702,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2881, col: 11, offset: 91284},
+																						pos: position{line: 2882, col: 11, offset: 91307},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2881, col: 11, offset: 91284},
+																							pos:        position{line: 2882, col: 11, offset: 91307},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37428,31 +37646,31 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1521, col: 5, offset: 49524},
+																	pos: position{line: 1522, col: 5, offset: 49547},
 																	expr: &seqExpr{
-																		pos: position{line: 1521, col: 7, offset: 49526},
+																		pos: position{line: 1522, col: 7, offset: 49549},
 																		exprs: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1673, col: 5, offset: 54430},
+																				pos: position{line: 1674, col: 5, offset: 54453},
 																				run: (*parser).callonListContinuationElement1707,
 																				expr: &seqExpr{
-																					pos: position{line: 1673, col: 5, offset: 54430},
+																					pos: position{line: 1674, col: 5, offset: 54453},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1673, col: 5, offset: 54430},
+																							pos: position{line: 1674, col: 5, offset: 54453},
 																							expr: &seqExpr{
-																								pos: position{line: 2489, col: 31, offset: 80330},
+																								pos: position{line: 2490, col: 31, offset: 80353},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2489, col: 31, offset: 80330},
+																										pos:        position{line: 2490, col: 31, offset: 80353},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2489, col: 36, offset: 80335},
+																										pos: position{line: 2490, col: 36, offset: 80358},
 																										expr: &litMatcher{
-																											pos:        position{line: 2489, col: 37, offset: 80336},
+																											pos:        position{line: 2490, col: 37, offset: 80359},
 																											val:        "//",
 																											ignoreCase: false,
 																											want:       "\"//\"",
@@ -37462,28 +37680,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1674, col: 5, offset: 54462},
+																							pos: position{line: 1675, col: 5, offset: 54485},
 																							expr: &seqExpr{
-																								pos: position{line: 1674, col: 6, offset: 54463},
+																								pos: position{line: 1675, col: 6, offset: 54486},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1674, col: 6, offset: 54463},
+																										pos: position{line: 1675, col: 6, offset: 54486},
 																										expr: &actionExpr{
-																											pos: position{line: 1679, col: 5, offset: 54613},
+																											pos: position{line: 1680, col: 5, offset: 54636},
 																											run: (*parser).callonListContinuationElement1717,
 																											expr: &seqExpr{
-																												pos: position{line: 1679, col: 5, offset: 54613},
+																												pos: position{line: 1680, col: 5, offset: 54636},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1679, col: 5, offset: 54613},
+																														pos:   position{line: 1680, col: 5, offset: 54636},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1679, col: 16, offset: 54624},
+																															pos: position{line: 1680, col: 16, offset: 54647},
 																															run: (*parser).callonListContinuationElement1720,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1679, col: 16, offset: 54624},
+																																pos: position{line: 1680, col: 16, offset: 54647},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1679, col: 17, offset: 54625},
+																																	pos:        position{line: 1680, col: 17, offset: 54648},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -37492,7 +37710,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1682, col: 5, offset: 54682},
+																														pos: position{line: 1683, col: 5, offset: 54705},
 																														run: (*parser).callonListContinuationElement1723,
 																													},
 																												},
@@ -37500,30 +37718,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1674, col: 35, offset: 54492},
+																										pos: position{line: 1675, col: 35, offset: 54515},
 																										expr: &choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91621},
+																											pos: position{line: 2900, col: 8, offset: 91644},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91394},
+																													pos: position{line: 2887, col: 12, offset: 91417},
 																													run: (*parser).callonListContinuationElement1726,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91395},
+																														pos: position{line: 2887, col: 13, offset: 91418},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91395},
+																																pos:        position{line: 2887, col: 13, offset: 91418},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91402},
+																																pos:        position{line: 2887, col: 20, offset: 91425},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91411},
+																																pos:        position{line: 2887, col: 29, offset: 91434},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37532,16 +37750,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91571},
+																													pos: position{line: 2897, col: 8, offset: 91594},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91572,
+																														line: 2897, col: 9, offset: 91595,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1674, col: 40, offset: 54497,
+																										line: 1675, col: 40, offset: 54520,
 																									},
 																								},
 																							},
@@ -37550,21 +37768,21 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1679, col: 5, offset: 54613},
+																				pos: position{line: 1680, col: 5, offset: 54636},
 																				run: (*parser).callonListContinuationElement1734,
 																				expr: &seqExpr{
-																					pos: position{line: 1679, col: 5, offset: 54613},
+																					pos: position{line: 1680, col: 5, offset: 54636},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1679, col: 5, offset: 54613},
+																							pos:   position{line: 1680, col: 5, offset: 54636},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1679, col: 16, offset: 54624},
+																								pos: position{line: 1680, col: 16, offset: 54647},
 																								run: (*parser).callonListContinuationElement1737,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1679, col: 16, offset: 54624},
+																									pos: position{line: 1680, col: 16, offset: 54647},
 																									expr: &litMatcher{
-																										pos:        position{line: 1679, col: 17, offset: 54625},
+																										pos:        position{line: 1680, col: 17, offset: 54648},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -37573,7 +37791,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1682, col: 5, offset: 54682},
+																							pos: position{line: 1683, col: 5, offset: 54705},
 																							run: (*parser).callonListContinuationElement1740,
 																						},
 																					},
@@ -37583,17 +37801,17 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1522, col: 5, offset: 49582},
+																	pos: position{line: 1523, col: 5, offset: 49605},
 																	expr: &actionExpr{
-																		pos: position{line: 724, col: 5, offset: 23078},
+																		pos: position{line: 725, col: 5, offset: 23101},
 																		run: (*parser).callonListContinuationElement1742,
 																		expr: &seqExpr{
-																			pos: position{line: 724, col: 5, offset: 23078},
+																			pos: position{line: 725, col: 5, offset: 23101},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 724, col: 5, offset: 23078},
+																					pos: position{line: 725, col: 5, offset: 23101},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2767, col: 13, offset: 88297},
+																						pos:        position{line: 2768, col: 13, offset: 88320},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -37601,36 +37819,36 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 725, col: 5, offset: 23108},
+																					pos:   position{line: 726, col: 5, offset: 23131},
 																					label: "delimiter",
 																					expr: &choiceExpr{
-																						pos: position{line: 726, col: 9, offset: 23128},
+																						pos: position{line: 727, col: 9, offset: 23151},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 740, col: 5, offset: 23620},
+																								pos: position{line: 741, col: 5, offset: 23643},
 																								run: (*parser).callonListContinuationElement1748,
 																								expr: &seqExpr{
-																									pos: position{line: 740, col: 5, offset: 23620},
+																									pos: position{line: 741, col: 5, offset: 23643},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 740, col: 5, offset: 23620},
+																											pos:   position{line: 741, col: 5, offset: 23643},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 740, col: 16, offset: 23631},
+																												pos: position{line: 741, col: 16, offset: 23654},
 																												run: (*parser).callonListContinuationElement1751,
 																												expr: &seqExpr{
-																													pos: position{line: 740, col: 16, offset: 23631},
+																													pos: position{line: 741, col: 16, offset: 23654},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 740, col: 16, offset: 23631},
+																															pos:        position{line: 741, col: 16, offset: 23654},
 																															val:        "////",
 																															ignoreCase: false,
 																															want:       "\"////\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 740, col: 23, offset: 23638},
+																															pos: position{line: 741, col: 23, offset: 23661},
 																															expr: &litMatcher{
-																																pos:        position{line: 740, col: 23, offset: 23638},
+																																pos:        position{line: 741, col: 23, offset: 23661},
 																																val:        "/",
 																																ignoreCase: false,
 																																want:       "\"/\"",
@@ -37641,12 +37859,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 742, col: 8, offset: 23722},
+																											pos: position{line: 743, col: 8, offset: 23745},
 																											expr: &actionExpr{
-																												pos: position{line: 2877, col: 10, offset: 91223},
+																												pos: position{line: 2878, col: 10, offset: 91246},
 																												run: (*parser).callonListContinuationElement1757,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2877, col: 10, offset: 91223},
+																													pos:        position{line: 2878, col: 10, offset: 91246},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37655,28 +37873,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91621},
+																											pos: position{line: 2900, col: 8, offset: 91644},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91394},
+																													pos: position{line: 2887, col: 12, offset: 91417},
 																													run: (*parser).callonListContinuationElement1760,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91395},
+																														pos: position{line: 2887, col: 13, offset: 91418},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91395},
+																																pos:        position{line: 2887, col: 13, offset: 91418},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91402},
+																																pos:        position{line: 2887, col: 20, offset: 91425},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91411},
+																																pos:        position{line: 2887, col: 29, offset: 91434},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37685,9 +37903,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91571},
+																													pos: position{line: 2897, col: 8, offset: 91594},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91572,
+																														line: 2897, col: 9, offset: 91595,
 																													},
 																												},
 																											},
@@ -37696,30 +37914,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 747, col: 5, offset: 23868},
+																								pos: position{line: 748, col: 5, offset: 23891},
 																								run: (*parser).callonListContinuationElement1767,
 																								expr: &seqExpr{
-																									pos: position{line: 747, col: 5, offset: 23868},
+																									pos: position{line: 748, col: 5, offset: 23891},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 747, col: 5, offset: 23868},
+																											pos:   position{line: 748, col: 5, offset: 23891},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 747, col: 16, offset: 23879},
+																												pos: position{line: 748, col: 16, offset: 23902},
 																												run: (*parser).callonListContinuationElement1770,
 																												expr: &seqExpr{
-																													pos: position{line: 747, col: 16, offset: 23879},
+																													pos: position{line: 748, col: 16, offset: 23902},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 747, col: 16, offset: 23879},
+																															pos:        position{line: 748, col: 16, offset: 23902},
 																															val:        "====",
 																															ignoreCase: false,
 																															want:       "\"====\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 747, col: 23, offset: 23886},
+																															pos: position{line: 748, col: 23, offset: 23909},
 																															expr: &litMatcher{
-																																pos:        position{line: 747, col: 23, offset: 23886},
+																																pos:        position{line: 748, col: 23, offset: 23909},
 																																val:        "=",
 																																ignoreCase: false,
 																																want:       "\"=\"",
@@ -37730,12 +37948,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 749, col: 8, offset: 23970},
+																											pos: position{line: 750, col: 8, offset: 23993},
 																											expr: &actionExpr{
-																												pos: position{line: 2877, col: 10, offset: 91223},
+																												pos: position{line: 2878, col: 10, offset: 91246},
 																												run: (*parser).callonListContinuationElement1776,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2877, col: 10, offset: 91223},
+																													pos:        position{line: 2878, col: 10, offset: 91246},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37744,28 +37962,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91621},
+																											pos: position{line: 2900, col: 8, offset: 91644},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91394},
+																													pos: position{line: 2887, col: 12, offset: 91417},
 																													run: (*parser).callonListContinuationElement1779,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91395},
+																														pos: position{line: 2887, col: 13, offset: 91418},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91395},
+																																pos:        position{line: 2887, col: 13, offset: 91418},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91402},
+																																pos:        position{line: 2887, col: 20, offset: 91425},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91411},
+																																pos:        position{line: 2887, col: 29, offset: 91434},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37774,9 +37992,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91571},
+																													pos: position{line: 2897, col: 8, offset: 91594},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91572,
+																														line: 2897, col: 9, offset: 91595,
 																													},
 																												},
 																											},
@@ -37785,27 +38003,27 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 760, col: 26, offset: 24356},
+																								pos: position{line: 761, col: 26, offset: 24379},
 																								run: (*parser).callonListContinuationElement1786,
 																								expr: &seqExpr{
-																									pos: position{line: 760, col: 26, offset: 24356},
+																									pos: position{line: 761, col: 26, offset: 24379},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 760, col: 26, offset: 24356},
+																											pos:        position{line: 761, col: 26, offset: 24379},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 760, col: 32, offset: 24362},
+																											pos:   position{line: 761, col: 32, offset: 24385},
 																											label: "language",
 																											expr: &actionExpr{
-																												pos: position{line: 764, col: 13, offset: 24492},
+																												pos: position{line: 765, col: 13, offset: 24515},
 																												run: (*parser).callonListContinuationElement1790,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 764, col: 14, offset: 24493},
+																													pos: position{line: 765, col: 14, offset: 24516},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 764, col: 14, offset: 24493},
+																														pos:        position{line: 765, col: 14, offset: 24516},
 																														val:        "[^\\r\\n`\\t ]",
 																														chars:      []rune{'\r', '\n', '`', '\t', ' '},
 																														ignoreCase: false,
@@ -37815,12 +38033,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 760, col: 52, offset: 24382},
+																											pos: position{line: 761, col: 52, offset: 24405},
 																											expr: &actionExpr{
-																												pos: position{line: 2877, col: 10, offset: 91223},
+																												pos: position{line: 2878, col: 10, offset: 91246},
 																												run: (*parser).callonListContinuationElement1794,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2877, col: 10, offset: 91223},
+																													pos:        position{line: 2878, col: 10, offset: 91246},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37829,28 +38047,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91621},
+																											pos: position{line: 2900, col: 8, offset: 91644},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91394},
+																													pos: position{line: 2887, col: 12, offset: 91417},
 																													run: (*parser).callonListContinuationElement1797,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91395},
+																														pos: position{line: 2887, col: 13, offset: 91418},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91395},
+																																pos:        position{line: 2887, col: 13, offset: 91418},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91402},
+																																pos:        position{line: 2887, col: 20, offset: 91425},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91411},
+																																pos:        position{line: 2887, col: 29, offset: 91434},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37859,9 +38077,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91571},
+																													pos: position{line: 2897, col: 8, offset: 91594},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91572,
+																														line: 2897, col: 9, offset: 91595,
 																													},
 																												},
 																											},
@@ -37870,30 +38088,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 754, col: 5, offset: 24115},
+																								pos: position{line: 755, col: 5, offset: 24138},
 																								run: (*parser).callonListContinuationElement1804,
 																								expr: &seqExpr{
-																									pos: position{line: 754, col: 5, offset: 24115},
+																									pos: position{line: 755, col: 5, offset: 24138},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 754, col: 5, offset: 24115},
+																											pos:   position{line: 755, col: 5, offset: 24138},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 754, col: 16, offset: 24126},
+																												pos: position{line: 755, col: 16, offset: 24149},
 																												run: (*parser).callonListContinuationElement1807,
 																												expr: &seqExpr{
-																													pos: position{line: 754, col: 16, offset: 24126},
+																													pos: position{line: 755, col: 16, offset: 24149},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 754, col: 16, offset: 24126},
+																															pos:        position{line: 755, col: 16, offset: 24149},
 																															val:        "```",
 																															ignoreCase: false,
 																															want:       "\"```\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 754, col: 22, offset: 24132},
+																															pos: position{line: 755, col: 22, offset: 24155},
 																															expr: &litMatcher{
-																																pos:        position{line: 754, col: 22, offset: 24132},
+																																pos:        position{line: 755, col: 22, offset: 24155},
 																																val:        "`",
 																																ignoreCase: false,
 																																want:       "\"`\"",
@@ -37904,12 +38122,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 756, col: 8, offset: 24216},
+																											pos: position{line: 757, col: 8, offset: 24239},
 																											expr: &actionExpr{
-																												pos: position{line: 2877, col: 10, offset: 91223},
+																												pos: position{line: 2878, col: 10, offset: 91246},
 																												run: (*parser).callonListContinuationElement1813,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2877, col: 10, offset: 91223},
+																													pos:        position{line: 2878, col: 10, offset: 91246},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37918,28 +38136,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91621},
+																											pos: position{line: 2900, col: 8, offset: 91644},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91394},
+																													pos: position{line: 2887, col: 12, offset: 91417},
 																													run: (*parser).callonListContinuationElement1816,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91395},
+																														pos: position{line: 2887, col: 13, offset: 91418},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91395},
+																																pos:        position{line: 2887, col: 13, offset: 91418},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91402},
+																																pos:        position{line: 2887, col: 20, offset: 91425},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91411},
+																																pos:        position{line: 2887, col: 29, offset: 91434},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37948,9 +38166,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91571},
+																													pos: position{line: 2897, col: 8, offset: 91594},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91572,
+																														line: 2897, col: 9, offset: 91595,
 																													},
 																												},
 																											},
@@ -37959,30 +38177,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 769, col: 5, offset: 24657},
+																								pos: position{line: 770, col: 5, offset: 24680},
 																								run: (*parser).callonListContinuationElement1823,
 																								expr: &seqExpr{
-																									pos: position{line: 769, col: 5, offset: 24657},
+																									pos: position{line: 770, col: 5, offset: 24680},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 769, col: 5, offset: 24657},
+																											pos:   position{line: 770, col: 5, offset: 24680},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 769, col: 16, offset: 24668},
+																												pos: position{line: 770, col: 16, offset: 24691},
 																												run: (*parser).callonListContinuationElement1826,
 																												expr: &seqExpr{
-																													pos: position{line: 769, col: 16, offset: 24668},
+																													pos: position{line: 770, col: 16, offset: 24691},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 769, col: 16, offset: 24668},
+																															pos:        position{line: 770, col: 16, offset: 24691},
 																															val:        "----",
 																															ignoreCase: false,
 																															want:       "\"----\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 769, col: 23, offset: 24675},
+																															pos: position{line: 770, col: 23, offset: 24698},
 																															expr: &litMatcher{
-																																pos:        position{line: 769, col: 23, offset: 24675},
+																																pos:        position{line: 770, col: 23, offset: 24698},
 																																val:        "-",
 																																ignoreCase: false,
 																																want:       "\"-\"",
@@ -37993,12 +38211,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 771, col: 8, offset: 24759},
+																											pos: position{line: 772, col: 8, offset: 24782},
 																											expr: &actionExpr{
-																												pos: position{line: 2877, col: 10, offset: 91223},
+																												pos: position{line: 2878, col: 10, offset: 91246},
 																												run: (*parser).callonListContinuationElement1832,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2877, col: 10, offset: 91223},
+																													pos:        position{line: 2878, col: 10, offset: 91246},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38007,28 +38225,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91621},
+																											pos: position{line: 2900, col: 8, offset: 91644},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91394},
+																													pos: position{line: 2887, col: 12, offset: 91417},
 																													run: (*parser).callonListContinuationElement1835,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91395},
+																														pos: position{line: 2887, col: 13, offset: 91418},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91395},
+																																pos:        position{line: 2887, col: 13, offset: 91418},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91402},
+																																pos:        position{line: 2887, col: 20, offset: 91425},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91411},
+																																pos:        position{line: 2887, col: 29, offset: 91434},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38037,9 +38255,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91571},
+																													pos: position{line: 2897, col: 8, offset: 91594},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91572,
+																														line: 2897, col: 9, offset: 91595,
 																													},
 																												},
 																											},
@@ -38048,30 +38266,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 783, col: 5, offset: 25133},
+																								pos: position{line: 784, col: 5, offset: 25156},
 																								run: (*parser).callonListContinuationElement1842,
 																								expr: &seqExpr{
-																									pos: position{line: 783, col: 5, offset: 25133},
+																									pos: position{line: 784, col: 5, offset: 25156},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 783, col: 5, offset: 25133},
+																											pos:   position{line: 784, col: 5, offset: 25156},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 783, col: 16, offset: 25144},
+																												pos: position{line: 784, col: 16, offset: 25167},
 																												run: (*parser).callonListContinuationElement1845,
 																												expr: &seqExpr{
-																													pos: position{line: 783, col: 16, offset: 25144},
+																													pos: position{line: 784, col: 16, offset: 25167},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 783, col: 16, offset: 25144},
+																															pos:        position{line: 784, col: 16, offset: 25167},
 																															val:        "....",
 																															ignoreCase: false,
 																															want:       "\"....\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 783, col: 23, offset: 25151},
+																															pos: position{line: 784, col: 23, offset: 25174},
 																															expr: &litMatcher{
-																																pos:        position{line: 783, col: 23, offset: 25151},
+																																pos:        position{line: 784, col: 23, offset: 25174},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -38082,12 +38300,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 785, col: 8, offset: 25235},
+																											pos: position{line: 786, col: 8, offset: 25258},
 																											expr: &actionExpr{
-																												pos: position{line: 2877, col: 10, offset: 91223},
+																												pos: position{line: 2878, col: 10, offset: 91246},
 																												run: (*parser).callonListContinuationElement1851,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2877, col: 10, offset: 91223},
+																													pos:        position{line: 2878, col: 10, offset: 91246},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38096,28 +38314,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91621},
+																											pos: position{line: 2900, col: 8, offset: 91644},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91394},
+																													pos: position{line: 2887, col: 12, offset: 91417},
 																													run: (*parser).callonListContinuationElement1854,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91395},
+																														pos: position{line: 2887, col: 13, offset: 91418},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91395},
+																																pos:        position{line: 2887, col: 13, offset: 91418},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91402},
+																																pos:        position{line: 2887, col: 20, offset: 91425},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91411},
+																																pos:        position{line: 2887, col: 29, offset: 91434},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38126,9 +38344,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91571},
+																													pos: position{line: 2897, col: 8, offset: 91594},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91572,
+																														line: 2897, col: 9, offset: 91595,
 																													},
 																												},
 																											},
@@ -38137,30 +38355,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 790, col: 5, offset: 25385},
+																								pos: position{line: 791, col: 5, offset: 25408},
 																								run: (*parser).callonListContinuationElement1861,
 																								expr: &seqExpr{
-																									pos: position{line: 790, col: 5, offset: 25385},
+																									pos: position{line: 791, col: 5, offset: 25408},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 790, col: 5, offset: 25385},
+																											pos:   position{line: 791, col: 5, offset: 25408},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 790, col: 16, offset: 25396},
+																												pos: position{line: 791, col: 16, offset: 25419},
 																												run: (*parser).callonListContinuationElement1864,
 																												expr: &seqExpr{
-																													pos: position{line: 790, col: 16, offset: 25396},
+																													pos: position{line: 791, col: 16, offset: 25419},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 790, col: 16, offset: 25396},
+																															pos:        position{line: 791, col: 16, offset: 25419},
 																															val:        "++++",
 																															ignoreCase: false,
 																															want:       "\"++++\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 790, col: 23, offset: 25403},
+																															pos: position{line: 791, col: 23, offset: 25426},
 																															expr: &litMatcher{
-																																pos:        position{line: 790, col: 23, offset: 25403},
+																																pos:        position{line: 791, col: 23, offset: 25426},
 																																val:        "+",
 																																ignoreCase: false,
 																																want:       "\"+\"",
@@ -38171,12 +38389,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 792, col: 8, offset: 25487},
+																											pos: position{line: 793, col: 8, offset: 25510},
 																											expr: &actionExpr{
-																												pos: position{line: 2877, col: 10, offset: 91223},
+																												pos: position{line: 2878, col: 10, offset: 91246},
 																												run: (*parser).callonListContinuationElement1870,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2877, col: 10, offset: 91223},
+																													pos:        position{line: 2878, col: 10, offset: 91246},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38185,28 +38403,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91621},
+																											pos: position{line: 2900, col: 8, offset: 91644},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91394},
+																													pos: position{line: 2887, col: 12, offset: 91417},
 																													run: (*parser).callonListContinuationElement1873,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91395},
+																														pos: position{line: 2887, col: 13, offset: 91418},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91395},
+																																pos:        position{line: 2887, col: 13, offset: 91418},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91402},
+																																pos:        position{line: 2887, col: 20, offset: 91425},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91411},
+																																pos:        position{line: 2887, col: 29, offset: 91434},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38215,9 +38433,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91571},
+																													pos: position{line: 2897, col: 8, offset: 91594},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91572,
+																														line: 2897, col: 9, offset: 91595,
 																													},
 																												},
 																											},
@@ -38226,30 +38444,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 797, col: 5, offset: 25635},
+																								pos: position{line: 798, col: 5, offset: 25658},
 																								run: (*parser).callonListContinuationElement1880,
 																								expr: &seqExpr{
-																									pos: position{line: 797, col: 5, offset: 25635},
+																									pos: position{line: 798, col: 5, offset: 25658},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 797, col: 5, offset: 25635},
+																											pos:   position{line: 798, col: 5, offset: 25658},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 797, col: 16, offset: 25646},
+																												pos: position{line: 798, col: 16, offset: 25669},
 																												run: (*parser).callonListContinuationElement1883,
 																												expr: &seqExpr{
-																													pos: position{line: 797, col: 16, offset: 25646},
+																													pos: position{line: 798, col: 16, offset: 25669},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 797, col: 16, offset: 25646},
+																															pos:        position{line: 798, col: 16, offset: 25669},
 																															val:        "____",
 																															ignoreCase: false,
 																															want:       "\"____\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 797, col: 23, offset: 25653},
+																															pos: position{line: 798, col: 23, offset: 25676},
 																															expr: &litMatcher{
-																																pos:        position{line: 797, col: 23, offset: 25653},
+																																pos:        position{line: 798, col: 23, offset: 25676},
 																																val:        "_",
 																																ignoreCase: false,
 																																want:       "\"_\"",
@@ -38260,12 +38478,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 799, col: 8, offset: 25737},
+																											pos: position{line: 800, col: 8, offset: 25760},
 																											expr: &actionExpr{
-																												pos: position{line: 2877, col: 10, offset: 91223},
+																												pos: position{line: 2878, col: 10, offset: 91246},
 																												run: (*parser).callonListContinuationElement1889,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2877, col: 10, offset: 91223},
+																													pos:        position{line: 2878, col: 10, offset: 91246},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38274,28 +38492,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91621},
+																											pos: position{line: 2900, col: 8, offset: 91644},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91394},
+																													pos: position{line: 2887, col: 12, offset: 91417},
 																													run: (*parser).callonListContinuationElement1892,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91395},
+																														pos: position{line: 2887, col: 13, offset: 91418},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91395},
+																																pos:        position{line: 2887, col: 13, offset: 91418},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91402},
+																																pos:        position{line: 2887, col: 20, offset: 91425},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91411},
+																																pos:        position{line: 2887, col: 29, offset: 91434},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38304,9 +38522,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91571},
+																													pos: position{line: 2897, col: 8, offset: 91594},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91572,
+																														line: 2897, col: 9, offset: 91595,
 																													},
 																												},
 																											},
@@ -38315,30 +38533,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 804, col: 5, offset: 25881},
+																								pos: position{line: 805, col: 5, offset: 25904},
 																								run: (*parser).callonListContinuationElement1899,
 																								expr: &seqExpr{
-																									pos: position{line: 804, col: 5, offset: 25881},
+																									pos: position{line: 805, col: 5, offset: 25904},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 804, col: 5, offset: 25881},
+																											pos:   position{line: 805, col: 5, offset: 25904},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 804, col: 16, offset: 25892},
+																												pos: position{line: 805, col: 16, offset: 25915},
 																												run: (*parser).callonListContinuationElement1902,
 																												expr: &seqExpr{
-																													pos: position{line: 804, col: 16, offset: 25892},
+																													pos: position{line: 805, col: 16, offset: 25915},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 804, col: 16, offset: 25892},
+																															pos:        position{line: 805, col: 16, offset: 25915},
 																															val:        "****",
 																															ignoreCase: false,
 																															want:       "\"****\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 804, col: 23, offset: 25899},
+																															pos: position{line: 805, col: 23, offset: 25922},
 																															expr: &litMatcher{
-																																pos:        position{line: 804, col: 23, offset: 25899},
+																																pos:        position{line: 805, col: 23, offset: 25922},
 																																val:        "*",
 																																ignoreCase: false,
 																																want:       "\"*\"",
@@ -38349,12 +38567,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 806, col: 8, offset: 25983},
+																											pos: position{line: 807, col: 8, offset: 26006},
 																											expr: &actionExpr{
-																												pos: position{line: 2877, col: 10, offset: 91223},
+																												pos: position{line: 2878, col: 10, offset: 91246},
 																												run: (*parser).callonListContinuationElement1908,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2877, col: 10, offset: 91223},
+																													pos:        position{line: 2878, col: 10, offset: 91246},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38363,28 +38581,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2899, col: 8, offset: 91621},
+																											pos: position{line: 2900, col: 8, offset: 91644},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2886, col: 12, offset: 91394},
+																													pos: position{line: 2887, col: 12, offset: 91417},
 																													run: (*parser).callonListContinuationElement1911,
 																													expr: &choiceExpr{
-																														pos: position{line: 2886, col: 13, offset: 91395},
+																														pos: position{line: 2887, col: 13, offset: 91418},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 13, offset: 91395},
+																																pos:        position{line: 2887, col: 13, offset: 91418},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 20, offset: 91402},
+																																pos:        position{line: 2887, col: 20, offset: 91425},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2886, col: 29, offset: 91411},
+																																pos:        position{line: 2887, col: 29, offset: 91434},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38393,9 +38611,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2896, col: 8, offset: 91571},
+																													pos: position{line: 2897, col: 8, offset: 91594},
 																													expr: &anyMatcher{
-																														line: 2896, col: 9, offset: 91572,
+																														line: 2897, col: 9, offset: 91595,
 																													},
 																												},
 																											},
@@ -38411,15 +38629,15 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1523, col: 5, offset: 49602},
+																	pos:   position{line: 1524, col: 5, offset: 49625},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2827, col: 14, offset: 89816},
+																		pos: position{line: 2828, col: 14, offset: 89839},
 																		run: (*parser).callonListContinuationElement1919,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2827, col: 14, offset: 89816},
+																			pos: position{line: 2828, col: 14, offset: 89839},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2827, col: 14, offset: 89816},
+																				pos:        position{line: 2828, col: 14, offset: 89839},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -38429,28 +38647,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91621},
+																	pos: position{line: 2900, col: 8, offset: 91644},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91394},
+																			pos: position{line: 2887, col: 12, offset: 91417},
 																			run: (*parser).callonListContinuationElement1923,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91395},
+																				pos: position{line: 2887, col: 13, offset: 91418},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91395},
+																						pos:        position{line: 2887, col: 13, offset: 91418},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91402},
+																						pos:        position{line: 2887, col: 20, offset: 91425},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91411},
+																						pos:        position{line: 2887, col: 29, offset: 91434},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -38459,9 +38677,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91571},
+																			pos: position{line: 2897, col: 8, offset: 91594},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91572,
+																				line: 2897, col: 9, offset: 91595,
 																			},
 																		},
 																	},
@@ -38482,33 +38700,33 @@ var g = &grammar{
 		},
 		{
 			name: "Callout",
-			pos:  position{line: 1712, col: 1, offset: 55474},
+			pos:  position{line: 1713, col: 1, offset: 55497},
 			expr: &actionExpr{
-				pos: position{line: 1714, col: 5, offset: 55552},
+				pos: position{line: 1715, col: 5, offset: 55575},
 				run: (*parser).callonCallout1,
 				expr: &seqExpr{
-					pos: position{line: 1714, col: 5, offset: 55552},
+					pos: position{line: 1715, col: 5, offset: 55575},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1714, col: 5, offset: 55552},
+							pos: position{line: 1715, col: 5, offset: 55575},
 							run: (*parser).callonCallout3,
 						},
 						&litMatcher{
-							pos:        position{line: 1717, col: 5, offset: 55619},
+							pos:        position{line: 1718, col: 5, offset: 55642},
 							val:        "<",
 							ignoreCase: false,
 							want:       "\"<\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1717, col: 9, offset: 55623},
+							pos:   position{line: 1718, col: 9, offset: 55646},
 							label: "ref",
 							expr: &actionExpr{
-								pos: position{line: 1717, col: 14, offset: 55628},
+								pos: position{line: 1718, col: 14, offset: 55651},
 								run: (*parser).callonCallout6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1717, col: 14, offset: 55628},
+									pos: position{line: 1718, col: 14, offset: 55651},
 									expr: &charClassMatcher{
-										pos:        position{line: 1717, col: 14, offset: 55628},
+										pos:        position{line: 1718, col: 14, offset: 55651},
 										val:        "[0-9]",
 										ranges:     []rune{'0', '9'},
 										ignoreCase: false,
@@ -38518,18 +38736,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1717, col: 62, offset: 55676},
+							pos:        position{line: 1718, col: 62, offset: 55699},
 							val:        ">",
 							ignoreCase: false,
 							want:       "\">\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1717, col: 66, offset: 55680},
+							pos: position{line: 1718, col: 66, offset: 55703},
 							expr: &actionExpr{
-								pos: position{line: 2877, col: 10, offset: 91223},
+								pos: position{line: 2878, col: 10, offset: 91246},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2877, col: 10, offset: 91223},
+									pos:        position{line: 2878, col: 10, offset: 91246},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -38538,30 +38756,30 @@ var g = &grammar{
 							},
 						},
 						&andExpr{
-							pos: position{line: 1717, col: 73, offset: 55687},
+							pos: position{line: 1718, col: 73, offset: 55710},
 							expr: &choiceExpr{
-								pos: position{line: 1717, col: 75, offset: 55689},
+								pos: position{line: 1718, col: 75, offset: 55712},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2886, col: 12, offset: 91394},
+										pos: position{line: 2887, col: 12, offset: 91417},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2886, col: 13, offset: 91395},
+											pos: position{line: 2887, col: 13, offset: 91418},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2886, col: 13, offset: 91395},
+													pos:        position{line: 2887, col: 13, offset: 91418},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2886, col: 20, offset: 91402},
+													pos:        position{line: 2887, col: 20, offset: 91425},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2886, col: 29, offset: 91411},
+													pos:        position{line: 2887, col: 29, offset: 91434},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -38570,13 +38788,13 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2896, col: 8, offset: 91571},
+										pos: position{line: 2897, col: 8, offset: 91594},
 										expr: &anyMatcher{
-											line: 2896, col: 9, offset: 91572,
+											line: 2897, col: 9, offset: 91595,
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1717, col: 81, offset: 55695},
+										pos:  position{line: 1718, col: 81, offset: 55718},
 										name: "Callout",
 									},
 								},
@@ -38588,44 +38806,44 @@ var g = &grammar{
 		},
 		{
 			name: "ShortcutParagraph",
-			pos:  position{line: 1756, col: 1, offset: 56872},
+			pos:  position{line: 1757, col: 1, offset: 56895},
 			expr: &actionExpr{
-				pos: position{line: 1758, col: 5, offset: 56946},
+				pos: position{line: 1759, col: 5, offset: 56969},
 				run: (*parser).callonShortcutParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1758, col: 5, offset: 56946},
+					pos: position{line: 1759, col: 5, offset: 56969},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 1758, col: 5, offset: 56946},
+							pos: position{line: 1759, col: 5, offset: 56969},
 							expr: &seqExpr{
-								pos: position{line: 1758, col: 7, offset: 56948},
+								pos: position{line: 1759, col: 7, offset: 56971},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2767, col: 13, offset: 88297},
+										pos:        position{line: 2768, col: 13, offset: 88320},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
 										inverted:   false,
 									},
 									&notExpr{
-										pos: position{line: 1758, col: 16, offset: 56957},
+										pos: position{line: 1759, col: 16, offset: 56980},
 										expr: &seqExpr{
-											pos: position{line: 1758, col: 18, offset: 56959},
+											pos: position{line: 1759, col: 18, offset: 56982},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 1758, col: 19, offset: 56960},
+													pos:        position{line: 1759, col: 19, offset: 56983},
 													val:        "[.)]",
 													chars:      []rune{'.', ')'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2881, col: 11, offset: 91284},
+													pos: position{line: 2882, col: 11, offset: 91307},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2881, col: 11, offset: 91284},
+														pos: position{line: 2882, col: 11, offset: 91307},
 														expr: &charClassMatcher{
-															pos:        position{line: 2881, col: 11, offset: 91284},
+															pos:        position{line: 2882, col: 11, offset: 91307},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -38640,88 +38858,88 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1759, col: 5, offset: 57100},
+							pos:   position{line: 1760, col: 5, offset: 57123},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1759, col: 11, offset: 57106},
+								pos: position{line: 1760, col: 11, offset: 57129},
 								expr: &actionExpr{
-									pos: position{line: 1737, col: 5, offset: 56365},
+									pos: position{line: 1738, col: 5, offset: 56388},
 									run: (*parser).callonShortcutParagraph14,
 									expr: &seqExpr{
-										pos: position{line: 1737, col: 5, offset: 56365},
+										pos: position{line: 1738, col: 5, offset: 56388},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1737, col: 5, offset: 56365},
+												pos: position{line: 1738, col: 5, offset: 56388},
 												run: (*parser).callonShortcutParagraph16,
 											},
 											&labeledExpr{
-												pos:   position{line: 1740, col: 5, offset: 56428},
+												pos:   position{line: 1741, col: 5, offset: 56451},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1740, col: 12, offset: 56435},
+													pos: position{line: 1741, col: 12, offset: 56458},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1740, col: 12, offset: 56435},
+															pos: position{line: 1741, col: 12, offset: 56458},
 															run: (*parser).callonShortcutParagraph19,
 															expr: &litMatcher{
-																pos:        position{line: 1740, col: 12, offset: 56435},
+																pos:        position{line: 1741, col: 12, offset: 56458},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1742, col: 13, offset: 56491},
+															pos: position{line: 1743, col: 13, offset: 56514},
 															run: (*parser).callonShortcutParagraph21,
 															expr: &litMatcher{
-																pos:        position{line: 1742, col: 13, offset: 56491},
+																pos:        position{line: 1743, col: 13, offset: 56514},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1744, col: 13, offset: 56549},
+															pos: position{line: 1745, col: 13, offset: 56572},
 															run: (*parser).callonShortcutParagraph23,
 															expr: &litMatcher{
-																pos:        position{line: 1744, col: 13, offset: 56549},
+																pos:        position{line: 1745, col: 13, offset: 56572},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1746, col: 13, offset: 56617},
+															pos: position{line: 1747, col: 13, offset: 56640},
 															run: (*parser).callonShortcutParagraph25,
 															expr: &litMatcher{
-																pos:        position{line: 1746, col: 13, offset: 56617},
+																pos:        position{line: 1747, col: 13, offset: 56640},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1748, col: 13, offset: 56681},
+															pos: position{line: 1749, col: 13, offset: 56704},
 															run: (*parser).callonShortcutParagraph27,
 															expr: &litMatcher{
-																pos:        position{line: 1748, col: 13, offset: 56681},
+																pos:        position{line: 1749, col: 13, offset: 56704},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1750, col: 13, offset: 56745},
+															pos: position{line: 1751, col: 13, offset: 56768},
 															run: (*parser).callonShortcutParagraph29,
 															expr: &andExpr{
-																pos: position{line: 1750, col: 13, offset: 56745},
+																pos: position{line: 1751, col: 13, offset: 56768},
 																expr: &actionExpr{
-																	pos: position{line: 2881, col: 11, offset: 91284},
+																	pos: position{line: 2882, col: 11, offset: 91307},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2881, col: 11, offset: 91284},
+																		pos: position{line: 2882, col: 11, offset: 91307},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2881, col: 11, offset: 91284},
+																			pos:        position{line: 2882, col: 11, offset: 91307},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -38735,17 +38953,17 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1752, col: 12, offset: 56815},
+												pos: position{line: 1753, col: 12, offset: 56838},
 												expr: &seqExpr{
-													pos: position{line: 1752, col: 14, offset: 56817},
+													pos: position{line: 1753, col: 14, offset: 56840},
 													exprs: []interface{}{
 														&zeroOrMoreExpr{
-															pos: position{line: 1752, col: 14, offset: 56817},
+															pos: position{line: 1753, col: 14, offset: 56840},
 															expr: &actionExpr{
-																pos: position{line: 2877, col: 10, offset: 91223},
+																pos: position{line: 2878, col: 10, offset: 91246},
 																run: (*parser).callonShortcutParagraph37,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2877, col: 10, offset: 91223},
+																	pos:        position{line: 2878, col: 10, offset: 91246},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -38754,28 +38972,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2899, col: 8, offset: 91621},
+															pos: position{line: 2900, col: 8, offset: 91644},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2886, col: 12, offset: 91394},
+																	pos: position{line: 2887, col: 12, offset: 91417},
 																	run: (*parser).callonShortcutParagraph40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2886, col: 13, offset: 91395},
+																		pos: position{line: 2887, col: 13, offset: 91418},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2886, col: 13, offset: 91395},
+																				pos:        position{line: 2887, col: 13, offset: 91418},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2886, col: 20, offset: 91402},
+																				pos:        position{line: 2887, col: 20, offset: 91425},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2886, col: 29, offset: 91411},
+																				pos:        position{line: 2887, col: 29, offset: 91434},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -38784,9 +39002,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2896, col: 8, offset: 91571},
+																	pos: position{line: 2897, col: 8, offset: 91594},
 																	expr: &anyMatcher{
-																		line: 2896, col: 9, offset: 91572,
+																		line: 2897, col: 9, offset: 91595,
 																	},
 																},
 															},
@@ -38800,24 +39018,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1760, col: 5, offset: 57128},
+							pos:   position{line: 1761, col: 5, offset: 57151},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1796, col: 5, offset: 58235},
+								pos: position{line: 1797, col: 5, offset: 58258},
 								run: (*parser).callonShortcutParagraph48,
 								expr: &seqExpr{
-									pos: position{line: 1796, col: 5, offset: 58235},
+									pos: position{line: 1797, col: 5, offset: 58258},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1796, col: 5, offset: 58235},
+											pos:   position{line: 1797, col: 5, offset: 58258},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2827, col: 14, offset: 89816},
+												pos: position{line: 2828, col: 14, offset: 89839},
 												run: (*parser).callonShortcutParagraph51,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2827, col: 14, offset: 89816},
+													pos: position{line: 2828, col: 14, offset: 89839},
 													expr: &charClassMatcher{
-														pos:        position{line: 2827, col: 14, offset: 89816},
+														pos:        position{line: 2828, col: 14, offset: 89839},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -38827,32 +39045,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1797, col: 5, offset: 58259},
+											pos: position{line: 1798, col: 5, offset: 58282},
 											run: (*parser).callonShortcutParagraph54,
 										},
 										&choiceExpr{
-											pos: position{line: 2899, col: 8, offset: 91621},
+											pos: position{line: 2900, col: 8, offset: 91644},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2886, col: 12, offset: 91394},
+													pos: position{line: 2887, col: 12, offset: 91417},
 													run: (*parser).callonShortcutParagraph56,
 													expr: &choiceExpr{
-														pos: position{line: 2886, col: 13, offset: 91395},
+														pos: position{line: 2887, col: 13, offset: 91418},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2886, col: 13, offset: 91395},
+																pos:        position{line: 2887, col: 13, offset: 91418},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2886, col: 20, offset: 91402},
+																pos:        position{line: 2887, col: 20, offset: 91425},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2886, col: 29, offset: 91411},
+																pos:        position{line: 2887, col: 29, offset: 91434},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -38861,9 +39079,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2896, col: 8, offset: 91571},
+													pos: position{line: 2897, col: 8, offset: 91594},
 													expr: &anyMatcher{
-														line: 2896, col: 9, offset: 91572,
+														line: 2897, col: 9, offset: 91595,
 													},
 												},
 											},
@@ -38873,28 +39091,28 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1761, col: 5, offset: 57162},
+							pos: position{line: 1762, col: 5, offset: 57185},
 							run: (*parser).callonShortcutParagraph63,
 						},
 						&labeledExpr{
-							pos:   position{line: 1768, col: 5, offset: 57492},
+							pos:   position{line: 1769, col: 5, offset: 57515},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1768, col: 16, offset: 57503},
+								pos: position{line: 1769, col: 16, offset: 57526},
 								expr: &actionExpr{
-									pos: position{line: 1769, col: 9, offset: 57513},
+									pos: position{line: 1770, col: 9, offset: 57536},
 									run: (*parser).callonShortcutParagraph66,
 									expr: &seqExpr{
-										pos: position{line: 1769, col: 9, offset: 57513},
+										pos: position{line: 1770, col: 9, offset: 57536},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2894, col: 11, offset: 91557},
+												pos: position{line: 2895, col: 11, offset: 91580},
 												expr: &anyMatcher{
-													line: 2894, col: 13, offset: 91559,
+													line: 2895, col: 13, offset: 91582,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1770, col: 9, offset: 57529},
+												pos: position{line: 1771, col: 9, offset: 57552},
 												expr: &actionExpr{
 													pos: position{line: 677, col: 14, offset: 21525},
 													run: (*parser).callonShortcutParagraph71,
@@ -38902,18 +39120,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21525},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2894, col: 11, offset: 91557},
+																pos: position{line: 2895, col: 11, offset: 91580},
 																expr: &anyMatcher{
-																	line: 2894, col: 13, offset: 91559,
+																	line: 2895, col: 13, offset: 91582,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21532},
 																expr: &actionExpr{
-																	pos: position{line: 2877, col: 10, offset: 91223},
+																	pos: position{line: 2878, col: 10, offset: 91246},
 																	run: (*parser).callonShortcutParagraph76,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2877, col: 10, offset: 91223},
+																		pos:        position{line: 2878, col: 10, offset: 91246},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -38922,28 +39140,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2899, col: 8, offset: 91621},
+																pos: position{line: 2900, col: 8, offset: 91644},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2886, col: 12, offset: 91394},
+																		pos: position{line: 2887, col: 12, offset: 91417},
 																		run: (*parser).callonShortcutParagraph79,
 																		expr: &choiceExpr{
-																			pos: position{line: 2886, col: 13, offset: 91395},
+																			pos: position{line: 2887, col: 13, offset: 91418},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 13, offset: 91395},
+																					pos:        position{line: 2887, col: 13, offset: 91418},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 20, offset: 91402},
+																					pos:        position{line: 2887, col: 20, offset: 91425},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 29, offset: 91411},
+																					pos:        position{line: 2887, col: 29, offset: 91434},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -38952,9 +39170,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2896, col: 8, offset: 91571},
+																		pos: position{line: 2897, col: 8, offset: 91594},
 																		expr: &anyMatcher{
-																			line: 2896, col: 9, offset: 91572,
+																			line: 2897, col: 9, offset: 91595,
 																		},
 																	},
 																},
@@ -38964,24 +39182,24 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1771, col: 9, offset: 57548},
+												pos: position{line: 1772, col: 9, offset: 57571},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1771, col: 10, offset: 57549},
+													pos:  position{line: 1772, col: 10, offset: 57572},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1772, col: 9, offset: 57573},
+												pos: position{line: 1773, col: 9, offset: 57596},
 												expr: &actionExpr{
-													pos: position{line: 724, col: 5, offset: 23078},
+													pos: position{line: 725, col: 5, offset: 23101},
 													run: (*parser).callonShortcutParagraph89,
 													expr: &seqExpr{
-														pos: position{line: 724, col: 5, offset: 23078},
+														pos: position{line: 725, col: 5, offset: 23101},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 724, col: 5, offset: 23078},
+																pos: position{line: 725, col: 5, offset: 23101},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2767, col: 13, offset: 88297},
+																	pos:        position{line: 2768, col: 13, offset: 88320},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -38989,36 +39207,36 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 725, col: 5, offset: 23108},
+																pos:   position{line: 726, col: 5, offset: 23131},
 																label: "delimiter",
 																expr: &choiceExpr{
-																	pos: position{line: 726, col: 9, offset: 23128},
+																	pos: position{line: 727, col: 9, offset: 23151},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 740, col: 5, offset: 23620},
+																			pos: position{line: 741, col: 5, offset: 23643},
 																			run: (*parser).callonShortcutParagraph95,
 																			expr: &seqExpr{
-																				pos: position{line: 740, col: 5, offset: 23620},
+																				pos: position{line: 741, col: 5, offset: 23643},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 740, col: 5, offset: 23620},
+																						pos:   position{line: 741, col: 5, offset: 23643},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 740, col: 16, offset: 23631},
+																							pos: position{line: 741, col: 16, offset: 23654},
 																							run: (*parser).callonShortcutParagraph98,
 																							expr: &seqExpr{
-																								pos: position{line: 740, col: 16, offset: 23631},
+																								pos: position{line: 741, col: 16, offset: 23654},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 740, col: 16, offset: 23631},
+																										pos:        position{line: 741, col: 16, offset: 23654},
 																										val:        "////",
 																										ignoreCase: false,
 																										want:       "\"////\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 740, col: 23, offset: 23638},
+																										pos: position{line: 741, col: 23, offset: 23661},
 																										expr: &litMatcher{
-																											pos:        position{line: 740, col: 23, offset: 23638},
+																											pos:        position{line: 741, col: 23, offset: 23661},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -39029,12 +39247,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 742, col: 8, offset: 23722},
+																						pos: position{line: 743, col: 8, offset: 23745},
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 10, offset: 91223},
+																							pos: position{line: 2878, col: 10, offset: 91246},
 																							run: (*parser).callonShortcutParagraph104,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2877, col: 10, offset: 91223},
+																								pos:        position{line: 2878, col: 10, offset: 91246},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39043,28 +39261,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91621},
+																						pos: position{line: 2900, col: 8, offset: 91644},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91394},
+																								pos: position{line: 2887, col: 12, offset: 91417},
 																								run: (*parser).callonShortcutParagraph107,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91395},
+																									pos: position{line: 2887, col: 13, offset: 91418},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91395},
+																											pos:        position{line: 2887, col: 13, offset: 91418},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91402},
+																											pos:        position{line: 2887, col: 20, offset: 91425},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91411},
+																											pos:        position{line: 2887, col: 29, offset: 91434},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39073,9 +39291,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91571},
+																								pos: position{line: 2897, col: 8, offset: 91594},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91572,
+																									line: 2897, col: 9, offset: 91595,
 																								},
 																							},
 																						},
@@ -39084,30 +39302,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 747, col: 5, offset: 23868},
+																			pos: position{line: 748, col: 5, offset: 23891},
 																			run: (*parser).callonShortcutParagraph114,
 																			expr: &seqExpr{
-																				pos: position{line: 747, col: 5, offset: 23868},
+																				pos: position{line: 748, col: 5, offset: 23891},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 747, col: 5, offset: 23868},
+																						pos:   position{line: 748, col: 5, offset: 23891},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 747, col: 16, offset: 23879},
+																							pos: position{line: 748, col: 16, offset: 23902},
 																							run: (*parser).callonShortcutParagraph117,
 																							expr: &seqExpr{
-																								pos: position{line: 747, col: 16, offset: 23879},
+																								pos: position{line: 748, col: 16, offset: 23902},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 747, col: 16, offset: 23879},
+																										pos:        position{line: 748, col: 16, offset: 23902},
 																										val:        "====",
 																										ignoreCase: false,
 																										want:       "\"====\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 747, col: 23, offset: 23886},
+																										pos: position{line: 748, col: 23, offset: 23909},
 																										expr: &litMatcher{
-																											pos:        position{line: 747, col: 23, offset: 23886},
+																											pos:        position{line: 748, col: 23, offset: 23909},
 																											val:        "=",
 																											ignoreCase: false,
 																											want:       "\"=\"",
@@ -39118,12 +39336,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 749, col: 8, offset: 23970},
+																						pos: position{line: 750, col: 8, offset: 23993},
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 10, offset: 91223},
+																							pos: position{line: 2878, col: 10, offset: 91246},
 																							run: (*parser).callonShortcutParagraph123,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2877, col: 10, offset: 91223},
+																								pos:        position{line: 2878, col: 10, offset: 91246},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39132,28 +39350,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91621},
+																						pos: position{line: 2900, col: 8, offset: 91644},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91394},
+																								pos: position{line: 2887, col: 12, offset: 91417},
 																								run: (*parser).callonShortcutParagraph126,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91395},
+																									pos: position{line: 2887, col: 13, offset: 91418},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91395},
+																											pos:        position{line: 2887, col: 13, offset: 91418},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91402},
+																											pos:        position{line: 2887, col: 20, offset: 91425},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91411},
+																											pos:        position{line: 2887, col: 29, offset: 91434},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39162,9 +39380,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91571},
+																								pos: position{line: 2897, col: 8, offset: 91594},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91572,
+																									line: 2897, col: 9, offset: 91595,
 																								},
 																							},
 																						},
@@ -39173,27 +39391,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 760, col: 26, offset: 24356},
+																			pos: position{line: 761, col: 26, offset: 24379},
 																			run: (*parser).callonShortcutParagraph133,
 																			expr: &seqExpr{
-																				pos: position{line: 760, col: 26, offset: 24356},
+																				pos: position{line: 761, col: 26, offset: 24379},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 760, col: 26, offset: 24356},
+																						pos:        position{line: 761, col: 26, offset: 24379},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 760, col: 32, offset: 24362},
+																						pos:   position{line: 761, col: 32, offset: 24385},
 																						label: "language",
 																						expr: &actionExpr{
-																							pos: position{line: 764, col: 13, offset: 24492},
+																							pos: position{line: 765, col: 13, offset: 24515},
 																							run: (*parser).callonShortcutParagraph137,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 764, col: 14, offset: 24493},
+																								pos: position{line: 765, col: 14, offset: 24516},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 764, col: 14, offset: 24493},
+																									pos:        position{line: 765, col: 14, offset: 24516},
 																									val:        "[^\\r\\n`\\t ]",
 																									chars:      []rune{'\r', '\n', '`', '\t', ' '},
 																									ignoreCase: false,
@@ -39203,12 +39421,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 760, col: 52, offset: 24382},
+																						pos: position{line: 761, col: 52, offset: 24405},
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 10, offset: 91223},
+																							pos: position{line: 2878, col: 10, offset: 91246},
 																							run: (*parser).callonShortcutParagraph141,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2877, col: 10, offset: 91223},
+																								pos:        position{line: 2878, col: 10, offset: 91246},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39217,28 +39435,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91621},
+																						pos: position{line: 2900, col: 8, offset: 91644},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91394},
+																								pos: position{line: 2887, col: 12, offset: 91417},
 																								run: (*parser).callonShortcutParagraph144,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91395},
+																									pos: position{line: 2887, col: 13, offset: 91418},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91395},
+																											pos:        position{line: 2887, col: 13, offset: 91418},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91402},
+																											pos:        position{line: 2887, col: 20, offset: 91425},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91411},
+																											pos:        position{line: 2887, col: 29, offset: 91434},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39247,9 +39465,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91571},
+																								pos: position{line: 2897, col: 8, offset: 91594},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91572,
+																									line: 2897, col: 9, offset: 91595,
 																								},
 																							},
 																						},
@@ -39258,30 +39476,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 754, col: 5, offset: 24115},
+																			pos: position{line: 755, col: 5, offset: 24138},
 																			run: (*parser).callonShortcutParagraph151,
 																			expr: &seqExpr{
-																				pos: position{line: 754, col: 5, offset: 24115},
+																				pos: position{line: 755, col: 5, offset: 24138},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 754, col: 5, offset: 24115},
+																						pos:   position{line: 755, col: 5, offset: 24138},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 754, col: 16, offset: 24126},
+																							pos: position{line: 755, col: 16, offset: 24149},
 																							run: (*parser).callonShortcutParagraph154,
 																							expr: &seqExpr{
-																								pos: position{line: 754, col: 16, offset: 24126},
+																								pos: position{line: 755, col: 16, offset: 24149},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 754, col: 16, offset: 24126},
+																										pos:        position{line: 755, col: 16, offset: 24149},
 																										val:        "```",
 																										ignoreCase: false,
 																										want:       "\"```\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 754, col: 22, offset: 24132},
+																										pos: position{line: 755, col: 22, offset: 24155},
 																										expr: &litMatcher{
-																											pos:        position{line: 754, col: 22, offset: 24132},
+																											pos:        position{line: 755, col: 22, offset: 24155},
 																											val:        "`",
 																											ignoreCase: false,
 																											want:       "\"`\"",
@@ -39292,12 +39510,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 756, col: 8, offset: 24216},
+																						pos: position{line: 757, col: 8, offset: 24239},
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 10, offset: 91223},
+																							pos: position{line: 2878, col: 10, offset: 91246},
 																							run: (*parser).callonShortcutParagraph160,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2877, col: 10, offset: 91223},
+																								pos:        position{line: 2878, col: 10, offset: 91246},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39306,28 +39524,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91621},
+																						pos: position{line: 2900, col: 8, offset: 91644},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91394},
+																								pos: position{line: 2887, col: 12, offset: 91417},
 																								run: (*parser).callonShortcutParagraph163,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91395},
+																									pos: position{line: 2887, col: 13, offset: 91418},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91395},
+																											pos:        position{line: 2887, col: 13, offset: 91418},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91402},
+																											pos:        position{line: 2887, col: 20, offset: 91425},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91411},
+																											pos:        position{line: 2887, col: 29, offset: 91434},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39336,9 +39554,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91571},
+																								pos: position{line: 2897, col: 8, offset: 91594},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91572,
+																									line: 2897, col: 9, offset: 91595,
 																								},
 																							},
 																						},
@@ -39347,30 +39565,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 769, col: 5, offset: 24657},
+																			pos: position{line: 770, col: 5, offset: 24680},
 																			run: (*parser).callonShortcutParagraph170,
 																			expr: &seqExpr{
-																				pos: position{line: 769, col: 5, offset: 24657},
+																				pos: position{line: 770, col: 5, offset: 24680},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 769, col: 5, offset: 24657},
+																						pos:   position{line: 770, col: 5, offset: 24680},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 769, col: 16, offset: 24668},
+																							pos: position{line: 770, col: 16, offset: 24691},
 																							run: (*parser).callonShortcutParagraph173,
 																							expr: &seqExpr{
-																								pos: position{line: 769, col: 16, offset: 24668},
+																								pos: position{line: 770, col: 16, offset: 24691},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 769, col: 16, offset: 24668},
+																										pos:        position{line: 770, col: 16, offset: 24691},
 																										val:        "----",
 																										ignoreCase: false,
 																										want:       "\"----\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 769, col: 23, offset: 24675},
+																										pos: position{line: 770, col: 23, offset: 24698},
 																										expr: &litMatcher{
-																											pos:        position{line: 769, col: 23, offset: 24675},
+																											pos:        position{line: 770, col: 23, offset: 24698},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
@@ -39381,12 +39599,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 771, col: 8, offset: 24759},
+																						pos: position{line: 772, col: 8, offset: 24782},
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 10, offset: 91223},
+																							pos: position{line: 2878, col: 10, offset: 91246},
 																							run: (*parser).callonShortcutParagraph179,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2877, col: 10, offset: 91223},
+																								pos:        position{line: 2878, col: 10, offset: 91246},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39395,28 +39613,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91621},
+																						pos: position{line: 2900, col: 8, offset: 91644},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91394},
+																								pos: position{line: 2887, col: 12, offset: 91417},
 																								run: (*parser).callonShortcutParagraph182,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91395},
+																									pos: position{line: 2887, col: 13, offset: 91418},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91395},
+																											pos:        position{line: 2887, col: 13, offset: 91418},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91402},
+																											pos:        position{line: 2887, col: 20, offset: 91425},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91411},
+																											pos:        position{line: 2887, col: 29, offset: 91434},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39425,9 +39643,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91571},
+																								pos: position{line: 2897, col: 8, offset: 91594},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91572,
+																									line: 2897, col: 9, offset: 91595,
 																								},
 																							},
 																						},
@@ -39436,30 +39654,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 783, col: 5, offset: 25133},
+																			pos: position{line: 784, col: 5, offset: 25156},
 																			run: (*parser).callonShortcutParagraph189,
 																			expr: &seqExpr{
-																				pos: position{line: 783, col: 5, offset: 25133},
+																				pos: position{line: 784, col: 5, offset: 25156},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 783, col: 5, offset: 25133},
+																						pos:   position{line: 784, col: 5, offset: 25156},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 783, col: 16, offset: 25144},
+																							pos: position{line: 784, col: 16, offset: 25167},
 																							run: (*parser).callonShortcutParagraph192,
 																							expr: &seqExpr{
-																								pos: position{line: 783, col: 16, offset: 25144},
+																								pos: position{line: 784, col: 16, offset: 25167},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 783, col: 16, offset: 25144},
+																										pos:        position{line: 784, col: 16, offset: 25167},
 																										val:        "....",
 																										ignoreCase: false,
 																										want:       "\"....\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 783, col: 23, offset: 25151},
+																										pos: position{line: 784, col: 23, offset: 25174},
 																										expr: &litMatcher{
-																											pos:        position{line: 783, col: 23, offset: 25151},
+																											pos:        position{line: 784, col: 23, offset: 25174},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -39470,12 +39688,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 785, col: 8, offset: 25235},
+																						pos: position{line: 786, col: 8, offset: 25258},
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 10, offset: 91223},
+																							pos: position{line: 2878, col: 10, offset: 91246},
 																							run: (*parser).callonShortcutParagraph198,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2877, col: 10, offset: 91223},
+																								pos:        position{line: 2878, col: 10, offset: 91246},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39484,28 +39702,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91621},
+																						pos: position{line: 2900, col: 8, offset: 91644},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91394},
+																								pos: position{line: 2887, col: 12, offset: 91417},
 																								run: (*parser).callonShortcutParagraph201,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91395},
+																									pos: position{line: 2887, col: 13, offset: 91418},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91395},
+																											pos:        position{line: 2887, col: 13, offset: 91418},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91402},
+																											pos:        position{line: 2887, col: 20, offset: 91425},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91411},
+																											pos:        position{line: 2887, col: 29, offset: 91434},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39514,9 +39732,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91571},
+																								pos: position{line: 2897, col: 8, offset: 91594},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91572,
+																									line: 2897, col: 9, offset: 91595,
 																								},
 																							},
 																						},
@@ -39525,30 +39743,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 790, col: 5, offset: 25385},
+																			pos: position{line: 791, col: 5, offset: 25408},
 																			run: (*parser).callonShortcutParagraph208,
 																			expr: &seqExpr{
-																				pos: position{line: 790, col: 5, offset: 25385},
+																				pos: position{line: 791, col: 5, offset: 25408},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 790, col: 5, offset: 25385},
+																						pos:   position{line: 791, col: 5, offset: 25408},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 790, col: 16, offset: 25396},
+																							pos: position{line: 791, col: 16, offset: 25419},
 																							run: (*parser).callonShortcutParagraph211,
 																							expr: &seqExpr{
-																								pos: position{line: 790, col: 16, offset: 25396},
+																								pos: position{line: 791, col: 16, offset: 25419},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 790, col: 16, offset: 25396},
+																										pos:        position{line: 791, col: 16, offset: 25419},
 																										val:        "++++",
 																										ignoreCase: false,
 																										want:       "\"++++\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 790, col: 23, offset: 25403},
+																										pos: position{line: 791, col: 23, offset: 25426},
 																										expr: &litMatcher{
-																											pos:        position{line: 790, col: 23, offset: 25403},
+																											pos:        position{line: 791, col: 23, offset: 25426},
 																											val:        "+",
 																											ignoreCase: false,
 																											want:       "\"+\"",
@@ -39559,12 +39777,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 792, col: 8, offset: 25487},
+																						pos: position{line: 793, col: 8, offset: 25510},
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 10, offset: 91223},
+																							pos: position{line: 2878, col: 10, offset: 91246},
 																							run: (*parser).callonShortcutParagraph217,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2877, col: 10, offset: 91223},
+																								pos:        position{line: 2878, col: 10, offset: 91246},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39573,28 +39791,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91621},
+																						pos: position{line: 2900, col: 8, offset: 91644},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91394},
+																								pos: position{line: 2887, col: 12, offset: 91417},
 																								run: (*parser).callonShortcutParagraph220,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91395},
+																									pos: position{line: 2887, col: 13, offset: 91418},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91395},
+																											pos:        position{line: 2887, col: 13, offset: 91418},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91402},
+																											pos:        position{line: 2887, col: 20, offset: 91425},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91411},
+																											pos:        position{line: 2887, col: 29, offset: 91434},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39603,9 +39821,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91571},
+																								pos: position{line: 2897, col: 8, offset: 91594},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91572,
+																									line: 2897, col: 9, offset: 91595,
 																								},
 																							},
 																						},
@@ -39614,30 +39832,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 797, col: 5, offset: 25635},
+																			pos: position{line: 798, col: 5, offset: 25658},
 																			run: (*parser).callonShortcutParagraph227,
 																			expr: &seqExpr{
-																				pos: position{line: 797, col: 5, offset: 25635},
+																				pos: position{line: 798, col: 5, offset: 25658},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 797, col: 5, offset: 25635},
+																						pos:   position{line: 798, col: 5, offset: 25658},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 797, col: 16, offset: 25646},
+																							pos: position{line: 798, col: 16, offset: 25669},
 																							run: (*parser).callonShortcutParagraph230,
 																							expr: &seqExpr{
-																								pos: position{line: 797, col: 16, offset: 25646},
+																								pos: position{line: 798, col: 16, offset: 25669},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 797, col: 16, offset: 25646},
+																										pos:        position{line: 798, col: 16, offset: 25669},
 																										val:        "____",
 																										ignoreCase: false,
 																										want:       "\"____\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 797, col: 23, offset: 25653},
+																										pos: position{line: 798, col: 23, offset: 25676},
 																										expr: &litMatcher{
-																											pos:        position{line: 797, col: 23, offset: 25653},
+																											pos:        position{line: 798, col: 23, offset: 25676},
 																											val:        "_",
 																											ignoreCase: false,
 																											want:       "\"_\"",
@@ -39648,12 +39866,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 799, col: 8, offset: 25737},
+																						pos: position{line: 800, col: 8, offset: 25760},
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 10, offset: 91223},
+																							pos: position{line: 2878, col: 10, offset: 91246},
 																							run: (*parser).callonShortcutParagraph236,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2877, col: 10, offset: 91223},
+																								pos:        position{line: 2878, col: 10, offset: 91246},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39662,28 +39880,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91621},
+																						pos: position{line: 2900, col: 8, offset: 91644},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91394},
+																								pos: position{line: 2887, col: 12, offset: 91417},
 																								run: (*parser).callonShortcutParagraph239,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91395},
+																									pos: position{line: 2887, col: 13, offset: 91418},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91395},
+																											pos:        position{line: 2887, col: 13, offset: 91418},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91402},
+																											pos:        position{line: 2887, col: 20, offset: 91425},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91411},
+																											pos:        position{line: 2887, col: 29, offset: 91434},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39692,9 +39910,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91571},
+																								pos: position{line: 2897, col: 8, offset: 91594},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91572,
+																									line: 2897, col: 9, offset: 91595,
 																								},
 																							},
 																						},
@@ -39703,30 +39921,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 804, col: 5, offset: 25881},
+																			pos: position{line: 805, col: 5, offset: 25904},
 																			run: (*parser).callonShortcutParagraph246,
 																			expr: &seqExpr{
-																				pos: position{line: 804, col: 5, offset: 25881},
+																				pos: position{line: 805, col: 5, offset: 25904},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 804, col: 5, offset: 25881},
+																						pos:   position{line: 805, col: 5, offset: 25904},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 804, col: 16, offset: 25892},
+																							pos: position{line: 805, col: 16, offset: 25915},
 																							run: (*parser).callonShortcutParagraph249,
 																							expr: &seqExpr{
-																								pos: position{line: 804, col: 16, offset: 25892},
+																								pos: position{line: 805, col: 16, offset: 25915},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 804, col: 16, offset: 25892},
+																										pos:        position{line: 805, col: 16, offset: 25915},
 																										val:        "****",
 																										ignoreCase: false,
 																										want:       "\"****\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 804, col: 23, offset: 25899},
+																										pos: position{line: 805, col: 23, offset: 25922},
 																										expr: &litMatcher{
-																											pos:        position{line: 804, col: 23, offset: 25899},
+																											pos:        position{line: 805, col: 23, offset: 25922},
 																											val:        "*",
 																											ignoreCase: false,
 																											want:       "\"*\"",
@@ -39737,12 +39955,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 806, col: 8, offset: 25983},
+																						pos: position{line: 807, col: 8, offset: 26006},
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 10, offset: 91223},
+																							pos: position{line: 2878, col: 10, offset: 91246},
 																							run: (*parser).callonShortcutParagraph255,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2877, col: 10, offset: 91223},
+																								pos:        position{line: 2878, col: 10, offset: 91246},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39751,28 +39969,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2899, col: 8, offset: 91621},
+																						pos: position{line: 2900, col: 8, offset: 91644},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2886, col: 12, offset: 91394},
+																								pos: position{line: 2887, col: 12, offset: 91417},
 																								run: (*parser).callonShortcutParagraph258,
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 13, offset: 91395},
+																									pos: position{line: 2887, col: 13, offset: 91418},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 13, offset: 91395},
+																											pos:        position{line: 2887, col: 13, offset: 91418},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 20, offset: 91402},
+																											pos:        position{line: 2887, col: 20, offset: 91425},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2886, col: 29, offset: 91411},
+																											pos:        position{line: 2887, col: 29, offset: 91434},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39781,9 +39999,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2896, col: 8, offset: 91571},
+																								pos: position{line: 2897, col: 8, offset: 91594},
 																								expr: &anyMatcher{
-																									line: 2896, col: 9, offset: 91572,
+																									line: 2897, col: 9, offset: 91595,
 																								},
 																							},
 																						},
@@ -39799,23 +40017,23 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1773, col: 9, offset: 57597},
+												pos: position{line: 1774, col: 9, offset: 57620},
 												expr: &seqExpr{
-													pos: position{line: 1547, col: 27, offset: 50230},
+													pos: position{line: 1548, col: 27, offset: 50253},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 1547, col: 27, offset: 50230},
+															pos:        position{line: 1548, col: 27, offset: 50253},
 															val:        "+",
 															ignoreCase: false,
 															want:       "\"+\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 1547, col: 31, offset: 50234},
+															pos: position{line: 1548, col: 31, offset: 50257},
 															expr: &actionExpr{
-																pos: position{line: 2877, col: 10, offset: 91223},
+																pos: position{line: 2878, col: 10, offset: 91246},
 																run: (*parser).callonShortcutParagraph269,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2877, col: 10, offset: 91223},
+																	pos:        position{line: 2878, col: 10, offset: 91246},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -39824,25 +40042,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2886, col: 12, offset: 91394},
+															pos: position{line: 2887, col: 12, offset: 91417},
 															run: (*parser).callonShortcutParagraph271,
 															expr: &choiceExpr{
-																pos: position{line: 2886, col: 13, offset: 91395},
+																pos: position{line: 2887, col: 13, offset: 91418},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 13, offset: 91395},
+																		pos:        position{line: 2887, col: 13, offset: 91418},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 20, offset: 91402},
+																		pos:        position{line: 2887, col: 20, offset: 91425},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 29, offset: 91411},
+																		pos:        position{line: 2887, col: 29, offset: 91434},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -39854,42 +40072,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1774, col: 9, offset: 57629},
+												pos:   position{line: 1775, col: 9, offset: 57652},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1774, col: 15, offset: 57635},
+													pos: position{line: 1775, col: 15, offset: 57658},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2484, col: 22, offset: 80109},
+															pos: position{line: 2485, col: 22, offset: 80132},
 															run: (*parser).callonShortcutParagraph278,
 															expr: &seqExpr{
-																pos: position{line: 2484, col: 22, offset: 80109},
+																pos: position{line: 2485, col: 22, offset: 80132},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2489, col: 31, offset: 80330},
+																		pos:        position{line: 2490, col: 31, offset: 80353},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2489, col: 36, offset: 80335},
+																		pos: position{line: 2490, col: 36, offset: 80358},
 																		expr: &litMatcher{
-																			pos:        position{line: 2489, col: 37, offset: 80336},
+																			pos:        position{line: 2490, col: 37, offset: 80359},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2484, col: 49, offset: 80136},
+																		pos:   position{line: 2485, col: 49, offset: 80159},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2823, col: 13, offset: 89749},
+																			pos: position{line: 2824, col: 13, offset: 89772},
 																			run: (*parser).callonShortcutParagraph284,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2823, col: 13, offset: 89749},
+																				pos: position{line: 2824, col: 13, offset: 89772},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2823, col: 13, offset: 89749},
+																					pos:        position{line: 2824, col: 13, offset: 89772},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39899,28 +40117,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2899, col: 8, offset: 91621},
+																		pos: position{line: 2900, col: 8, offset: 91644},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91394},
+																				pos: position{line: 2887, col: 12, offset: 91417},
 																				run: (*parser).callonShortcutParagraph288,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91395},
+																					pos: position{line: 2887, col: 13, offset: 91418},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91395},
+																							pos:        position{line: 2887, col: 13, offset: 91418},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91402},
+																							pos:        position{line: 2887, col: 20, offset: 91425},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91411},
+																							pos:        position{line: 2887, col: 29, offset: 91434},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39929,9 +40147,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2896, col: 8, offset: 91571},
+																				pos: position{line: 2897, col: 8, offset: 91594},
 																				expr: &anyMatcher{
-																					line: 2896, col: 9, offset: 91572,
+																					line: 2897, col: 9, offset: 91595,
 																				},
 																			},
 																		},
@@ -39940,21 +40158,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1796, col: 5, offset: 58235},
+															pos: position{line: 1797, col: 5, offset: 58258},
 															run: (*parser).callonShortcutParagraph295,
 															expr: &seqExpr{
-																pos: position{line: 1796, col: 5, offset: 58235},
+																pos: position{line: 1797, col: 5, offset: 58258},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1796, col: 5, offset: 58235},
+																		pos:   position{line: 1797, col: 5, offset: 58258},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2827, col: 14, offset: 89816},
+																			pos: position{line: 2828, col: 14, offset: 89839},
 																			run: (*parser).callonShortcutParagraph298,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2827, col: 14, offset: 89816},
+																				pos: position{line: 2828, col: 14, offset: 89839},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2827, col: 14, offset: 89816},
+																					pos:        position{line: 2828, col: 14, offset: 89839},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39964,32 +40182,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1797, col: 5, offset: 58259},
+																		pos: position{line: 1798, col: 5, offset: 58282},
 																		run: (*parser).callonShortcutParagraph301,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2899, col: 8, offset: 91621},
+																		pos: position{line: 2900, col: 8, offset: 91644},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91394},
+																				pos: position{line: 2887, col: 12, offset: 91417},
 																				run: (*parser).callonShortcutParagraph303,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91395},
+																					pos: position{line: 2887, col: 13, offset: 91418},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91395},
+																							pos:        position{line: 2887, col: 13, offset: 91418},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91402},
+																							pos:        position{line: 2887, col: 20, offset: 91425},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91411},
+																							pos:        position{line: 2887, col: 29, offset: 91434},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39998,9 +40216,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2896, col: 8, offset: 91571},
+																				pos: position{line: 2897, col: 8, offset: 91594},
 																				expr: &anyMatcher{
-																					line: 2896, col: 9, offset: 91572,
+																					line: 2897, col: 9, offset: 91595,
 																				},
 																			},
 																		},
@@ -40022,96 +40240,96 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraph",
-			pos:  position{line: 1781, col: 1, offset: 57839},
+			pos:  position{line: 1782, col: 1, offset: 57862},
 			expr: &actionExpr{
-				pos: position{line: 1782, col: 5, offset: 57857},
+				pos: position{line: 1783, col: 5, offset: 57880},
 				run: (*parser).callonParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1782, col: 5, offset: 57857},
+					pos: position{line: 1783, col: 5, offset: 57880},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1782, col: 5, offset: 57857},
+							pos:   position{line: 1783, col: 5, offset: 57880},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1782, col: 11, offset: 57863},
+								pos: position{line: 1783, col: 11, offset: 57886},
 								expr: &actionExpr{
-									pos: position{line: 1737, col: 5, offset: 56365},
+									pos: position{line: 1738, col: 5, offset: 56388},
 									run: (*parser).callonParagraph5,
 									expr: &seqExpr{
-										pos: position{line: 1737, col: 5, offset: 56365},
+										pos: position{line: 1738, col: 5, offset: 56388},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1737, col: 5, offset: 56365},
+												pos: position{line: 1738, col: 5, offset: 56388},
 												run: (*parser).callonParagraph7,
 											},
 											&labeledExpr{
-												pos:   position{line: 1740, col: 5, offset: 56428},
+												pos:   position{line: 1741, col: 5, offset: 56451},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1740, col: 12, offset: 56435},
+													pos: position{line: 1741, col: 12, offset: 56458},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1740, col: 12, offset: 56435},
+															pos: position{line: 1741, col: 12, offset: 56458},
 															run: (*parser).callonParagraph10,
 															expr: &litMatcher{
-																pos:        position{line: 1740, col: 12, offset: 56435},
+																pos:        position{line: 1741, col: 12, offset: 56458},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1742, col: 13, offset: 56491},
+															pos: position{line: 1743, col: 13, offset: 56514},
 															run: (*parser).callonParagraph12,
 															expr: &litMatcher{
-																pos:        position{line: 1742, col: 13, offset: 56491},
+																pos:        position{line: 1743, col: 13, offset: 56514},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1744, col: 13, offset: 56549},
+															pos: position{line: 1745, col: 13, offset: 56572},
 															run: (*parser).callonParagraph14,
 															expr: &litMatcher{
-																pos:        position{line: 1744, col: 13, offset: 56549},
+																pos:        position{line: 1745, col: 13, offset: 56572},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1746, col: 13, offset: 56617},
+															pos: position{line: 1747, col: 13, offset: 56640},
 															run: (*parser).callonParagraph16,
 															expr: &litMatcher{
-																pos:        position{line: 1746, col: 13, offset: 56617},
+																pos:        position{line: 1747, col: 13, offset: 56640},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1748, col: 13, offset: 56681},
+															pos: position{line: 1749, col: 13, offset: 56704},
 															run: (*parser).callonParagraph18,
 															expr: &litMatcher{
-																pos:        position{line: 1748, col: 13, offset: 56681},
+																pos:        position{line: 1749, col: 13, offset: 56704},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1750, col: 13, offset: 56745},
+															pos: position{line: 1751, col: 13, offset: 56768},
 															run: (*parser).callonParagraph20,
 															expr: &andExpr{
-																pos: position{line: 1750, col: 13, offset: 56745},
+																pos: position{line: 1751, col: 13, offset: 56768},
 																expr: &actionExpr{
-																	pos: position{line: 2881, col: 11, offset: 91284},
+																	pos: position{line: 2882, col: 11, offset: 91307},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2881, col: 11, offset: 91284},
+																		pos: position{line: 2882, col: 11, offset: 91307},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2881, col: 11, offset: 91284},
+																			pos:        position{line: 2882, col: 11, offset: 91307},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -40125,17 +40343,17 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1752, col: 12, offset: 56815},
+												pos: position{line: 1753, col: 12, offset: 56838},
 												expr: &seqExpr{
-													pos: position{line: 1752, col: 14, offset: 56817},
+													pos: position{line: 1753, col: 14, offset: 56840},
 													exprs: []interface{}{
 														&zeroOrMoreExpr{
-															pos: position{line: 1752, col: 14, offset: 56817},
+															pos: position{line: 1753, col: 14, offset: 56840},
 															expr: &actionExpr{
-																pos: position{line: 2877, col: 10, offset: 91223},
+																pos: position{line: 2878, col: 10, offset: 91246},
 																run: (*parser).callonParagraph28,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2877, col: 10, offset: 91223},
+																	pos:        position{line: 2878, col: 10, offset: 91246},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -40144,28 +40362,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2899, col: 8, offset: 91621},
+															pos: position{line: 2900, col: 8, offset: 91644},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2886, col: 12, offset: 91394},
+																	pos: position{line: 2887, col: 12, offset: 91417},
 																	run: (*parser).callonParagraph31,
 																	expr: &choiceExpr{
-																		pos: position{line: 2886, col: 13, offset: 91395},
+																		pos: position{line: 2887, col: 13, offset: 91418},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2886, col: 13, offset: 91395},
+																				pos:        position{line: 2887, col: 13, offset: 91418},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2886, col: 20, offset: 91402},
+																				pos:        position{line: 2887, col: 20, offset: 91425},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2886, col: 29, offset: 91411},
+																				pos:        position{line: 2887, col: 29, offset: 91434},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -40174,9 +40392,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2896, col: 8, offset: 91571},
+																	pos: position{line: 2897, col: 8, offset: 91594},
 																	expr: &anyMatcher{
-																		line: 2896, col: 9, offset: 91572,
+																		line: 2897, col: 9, offset: 91595,
 																	},
 																},
 															},
@@ -40190,24 +40408,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1783, col: 5, offset: 57886},
+							pos:   position{line: 1784, col: 5, offset: 57909},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1796, col: 5, offset: 58235},
+								pos: position{line: 1797, col: 5, offset: 58258},
 								run: (*parser).callonParagraph39,
 								expr: &seqExpr{
-									pos: position{line: 1796, col: 5, offset: 58235},
+									pos: position{line: 1797, col: 5, offset: 58258},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1796, col: 5, offset: 58235},
+											pos:   position{line: 1797, col: 5, offset: 58258},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2827, col: 14, offset: 89816},
+												pos: position{line: 2828, col: 14, offset: 89839},
 												run: (*parser).callonParagraph42,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2827, col: 14, offset: 89816},
+													pos: position{line: 2828, col: 14, offset: 89839},
 													expr: &charClassMatcher{
-														pos:        position{line: 2827, col: 14, offset: 89816},
+														pos:        position{line: 2828, col: 14, offset: 89839},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -40217,32 +40435,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1797, col: 5, offset: 58259},
+											pos: position{line: 1798, col: 5, offset: 58282},
 											run: (*parser).callonParagraph45,
 										},
 										&choiceExpr{
-											pos: position{line: 2899, col: 8, offset: 91621},
+											pos: position{line: 2900, col: 8, offset: 91644},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2886, col: 12, offset: 91394},
+													pos: position{line: 2887, col: 12, offset: 91417},
 													run: (*parser).callonParagraph47,
 													expr: &choiceExpr{
-														pos: position{line: 2886, col: 13, offset: 91395},
+														pos: position{line: 2887, col: 13, offset: 91418},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2886, col: 13, offset: 91395},
+																pos:        position{line: 2887, col: 13, offset: 91418},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2886, col: 20, offset: 91402},
+																pos:        position{line: 2887, col: 20, offset: 91425},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2886, col: 29, offset: 91411},
+																pos:        position{line: 2887, col: 29, offset: 91434},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -40251,9 +40469,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2896, col: 8, offset: 91571},
+													pos: position{line: 2897, col: 8, offset: 91594},
 													expr: &anyMatcher{
-														line: 2896, col: 9, offset: 91572,
+														line: 2897, col: 9, offset: 91595,
 													},
 												},
 											},
@@ -40263,24 +40481,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1784, col: 5, offset: 57920},
+							pos:   position{line: 1785, col: 5, offset: 57943},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1784, col: 16, offset: 57931},
+								pos: position{line: 1785, col: 16, offset: 57954},
 								expr: &actionExpr{
-									pos: position{line: 1785, col: 9, offset: 57941},
+									pos: position{line: 1786, col: 9, offset: 57964},
 									run: (*parser).callonParagraph56,
 									expr: &seqExpr{
-										pos: position{line: 1785, col: 9, offset: 57941},
+										pos: position{line: 1786, col: 9, offset: 57964},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2894, col: 11, offset: 91557},
+												pos: position{line: 2895, col: 11, offset: 91580},
 												expr: &anyMatcher{
-													line: 2894, col: 13, offset: 91559,
+													line: 2895, col: 13, offset: 91582,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1786, col: 9, offset: 57956},
+												pos: position{line: 1787, col: 9, offset: 57979},
 												expr: &actionExpr{
 													pos: position{line: 677, col: 14, offset: 21525},
 													run: (*parser).callonParagraph61,
@@ -40288,18 +40506,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21525},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2894, col: 11, offset: 91557},
+																pos: position{line: 2895, col: 11, offset: 91580},
 																expr: &anyMatcher{
-																	line: 2894, col: 13, offset: 91559,
+																	line: 2895, col: 13, offset: 91582,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21532},
 																expr: &actionExpr{
-																	pos: position{line: 2877, col: 10, offset: 91223},
+																	pos: position{line: 2878, col: 10, offset: 91246},
 																	run: (*parser).callonParagraph66,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2877, col: 10, offset: 91223},
+																		pos:        position{line: 2878, col: 10, offset: 91246},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -40308,28 +40526,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2899, col: 8, offset: 91621},
+																pos: position{line: 2900, col: 8, offset: 91644},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2886, col: 12, offset: 91394},
+																		pos: position{line: 2887, col: 12, offset: 91417},
 																		run: (*parser).callonParagraph69,
 																		expr: &choiceExpr{
-																			pos: position{line: 2886, col: 13, offset: 91395},
+																			pos: position{line: 2887, col: 13, offset: 91418},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 13, offset: 91395},
+																					pos:        position{line: 2887, col: 13, offset: 91418},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 20, offset: 91402},
+																					pos:        position{line: 2887, col: 20, offset: 91425},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2886, col: 29, offset: 91411},
+																					pos:        position{line: 2887, col: 29, offset: 91434},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -40338,9 +40556,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2896, col: 8, offset: 91571},
+																		pos: position{line: 2897, col: 8, offset: 91594},
 																		expr: &anyMatcher{
-																			line: 2896, col: 9, offset: 91572,
+																			line: 2897, col: 9, offset: 91595,
 																		},
 																	},
 																},
@@ -40350,49 +40568,49 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1787, col: 9, offset: 57975},
+												pos: position{line: 1788, col: 9, offset: 57998},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1787, col: 10, offset: 57976},
+													pos:  position{line: 1788, col: 10, offset: 57999},
 													name: "BlockAttributes",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1788, col: 9, offset: 58000},
+												pos:   position{line: 1789, col: 9, offset: 58023},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1788, col: 15, offset: 58006},
+													pos: position{line: 1789, col: 15, offset: 58029},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2484, col: 22, offset: 80109},
+															pos: position{line: 2485, col: 22, offset: 80132},
 															run: (*parser).callonParagraph80,
 															expr: &seqExpr{
-																pos: position{line: 2484, col: 22, offset: 80109},
+																pos: position{line: 2485, col: 22, offset: 80132},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2489, col: 31, offset: 80330},
+																		pos:        position{line: 2490, col: 31, offset: 80353},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2489, col: 36, offset: 80335},
+																		pos: position{line: 2490, col: 36, offset: 80358},
 																		expr: &litMatcher{
-																			pos:        position{line: 2489, col: 37, offset: 80336},
+																			pos:        position{line: 2490, col: 37, offset: 80359},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2484, col: 49, offset: 80136},
+																		pos:   position{line: 2485, col: 49, offset: 80159},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2823, col: 13, offset: 89749},
+																			pos: position{line: 2824, col: 13, offset: 89772},
 																			run: (*parser).callonParagraph86,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2823, col: 13, offset: 89749},
+																				pos: position{line: 2824, col: 13, offset: 89772},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2823, col: 13, offset: 89749},
+																					pos:        position{line: 2824, col: 13, offset: 89772},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40402,28 +40620,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2899, col: 8, offset: 91621},
+																		pos: position{line: 2900, col: 8, offset: 91644},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91394},
+																				pos: position{line: 2887, col: 12, offset: 91417},
 																				run: (*parser).callonParagraph90,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91395},
+																					pos: position{line: 2887, col: 13, offset: 91418},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91395},
+																							pos:        position{line: 2887, col: 13, offset: 91418},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91402},
+																							pos:        position{line: 2887, col: 20, offset: 91425},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91411},
+																							pos:        position{line: 2887, col: 29, offset: 91434},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40432,9 +40650,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2896, col: 8, offset: 91571},
+																				pos: position{line: 2897, col: 8, offset: 91594},
 																				expr: &anyMatcher{
-																					line: 2896, col: 9, offset: 91572,
+																					line: 2897, col: 9, offset: 91595,
 																				},
 																			},
 																		},
@@ -40443,21 +40661,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1796, col: 5, offset: 58235},
+															pos: position{line: 1797, col: 5, offset: 58258},
 															run: (*parser).callonParagraph97,
 															expr: &seqExpr{
-																pos: position{line: 1796, col: 5, offset: 58235},
+																pos: position{line: 1797, col: 5, offset: 58258},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1796, col: 5, offset: 58235},
+																		pos:   position{line: 1797, col: 5, offset: 58258},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2827, col: 14, offset: 89816},
+																			pos: position{line: 2828, col: 14, offset: 89839},
 																			run: (*parser).callonParagraph100,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2827, col: 14, offset: 89816},
+																				pos: position{line: 2828, col: 14, offset: 89839},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2827, col: 14, offset: 89816},
+																					pos:        position{line: 2828, col: 14, offset: 89839},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40467,32 +40685,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1797, col: 5, offset: 58259},
+																		pos: position{line: 1798, col: 5, offset: 58282},
 																		run: (*parser).callonParagraph103,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2899, col: 8, offset: 91621},
+																		pos: position{line: 2900, col: 8, offset: 91644},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91394},
+																				pos: position{line: 2887, col: 12, offset: 91417},
 																				run: (*parser).callonParagraph105,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91395},
+																					pos: position{line: 2887, col: 13, offset: 91418},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91395},
+																							pos:        position{line: 2887, col: 13, offset: 91418},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91402},
+																							pos:        position{line: 2887, col: 20, offset: 91425},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91411},
+																							pos:        position{line: 2887, col: 29, offset: 91434},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40501,9 +40719,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2896, col: 8, offset: 91571},
+																				pos: position{line: 2897, col: 8, offset: 91594},
 																				expr: &anyMatcher{
-																					line: 2896, col: 9, offset: 91572,
+																					line: 2897, col: 9, offset: 91595,
 																				},
 																			},
 																		},
@@ -40525,16 +40743,16 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedText",
-			pos:  position{line: 1807, col: 1, offset: 58741},
+			pos:  position{line: 1808, col: 1, offset: 58764},
 			expr: &choiceExpr{
-				pos: position{line: 1807, col: 15, offset: 58755},
+				pos: position{line: 1808, col: 15, offset: 58778},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1807, col: 15, offset: 58755},
+						pos:  position{line: 1808, col: 15, offset: 58778},
 						name: "EscapedQuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1807, col: 35, offset: 58775},
+						pos:  position{line: 1808, col: 35, offset: 58798},
 						name: "UnescapedQuotedText",
 					},
 				},
@@ -40542,65 +40760,65 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedQuotedText",
-			pos:  position{line: 1809, col: 1, offset: 58796},
+			pos:  position{line: 1810, col: 1, offset: 58819},
 			expr: &actionExpr{
-				pos: position{line: 1810, col: 5, offset: 58821},
+				pos: position{line: 1811, col: 5, offset: 58844},
 				run: (*parser).callonEscapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1810, col: 5, offset: 58821},
+					pos: position{line: 1811, col: 5, offset: 58844},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1810, col: 5, offset: 58821},
+							pos:   position{line: 1811, col: 5, offset: 58844},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1810, col: 16, offset: 58832},
+								pos: position{line: 1811, col: 16, offset: 58855},
 								expr: &actionExpr{
-									pos: position{line: 1810, col: 17, offset: 58833},
+									pos: position{line: 1811, col: 17, offset: 58856},
 									run: (*parser).callonEscapedQuotedText5,
 									expr: &ruleRefExpr{
-										pos:  position{line: 1810, col: 17, offset: 58833},
+										pos:  position{line: 1811, col: 17, offset: 58856},
 										name: "LongHandAttributes",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 1813, col: 5, offset: 58963},
+							pos: position{line: 1814, col: 5, offset: 58986},
 							expr: &litMatcher{
-								pos:        position{line: 1813, col: 7, offset: 58965},
+								pos:        position{line: 1814, col: 7, offset: 58988},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1814, col: 5, offset: 58974},
+							pos:   position{line: 1815, col: 5, offset: 58997},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1815, col: 9, offset: 58992},
+								pos: position{line: 1816, col: 9, offset: 59015},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1815, col: 9, offset: 58992},
+										pos:  position{line: 1816, col: 9, offset: 59015},
 										name: "EscapedBoldText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1816, col: 11, offset: 59019},
+										pos:  position{line: 1817, col: 11, offset: 59042},
 										name: "EscapedItalicText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1817, col: 11, offset: 59047},
+										pos:  position{line: 1818, col: 11, offset: 59070},
 										name: "EscapedMonospaceText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1818, col: 11, offset: 59078},
+										pos:  position{line: 1819, col: 11, offset: 59101},
 										name: "EscapedMarkedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1819, col: 11, offset: 59106},
+										pos:  position{line: 1820, col: 11, offset: 59129},
 										name: "EscapedSubscriptText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1820, col: 11, offset: 59137},
+										pos:  position{line: 1821, col: 11, offset: 59160},
 										name: "EscapedSuperscriptText",
 									},
 								},
@@ -40612,36 +40830,36 @@ var g = &grammar{
 		},
 		{
 			name: "UnescapedQuotedText",
-			pos:  position{line: 1825, col: 1, offset: 59257},
+			pos:  position{line: 1826, col: 1, offset: 59280},
 			expr: &actionExpr{
-				pos: position{line: 1826, col: 5, offset: 59299},
+				pos: position{line: 1827, col: 5, offset: 59322},
 				run: (*parser).callonUnescapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1826, col: 5, offset: 59299},
+					pos: position{line: 1827, col: 5, offset: 59322},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1826, col: 5, offset: 59299},
+							pos:   position{line: 1827, col: 5, offset: 59322},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1826, col: 16, offset: 59310},
+								pos: position{line: 1827, col: 16, offset: 59333},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1826, col: 17, offset: 59311},
+									pos:  position{line: 1827, col: 17, offset: 59334},
 									name: "LongHandAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1827, col: 5, offset: 59336},
+							pos:   position{line: 1828, col: 5, offset: 59359},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1827, col: 14, offset: 59345},
+								pos: position{line: 1828, col: 14, offset: 59368},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1827, col: 14, offset: 59345},
+										pos:  position{line: 1828, col: 14, offset: 59368},
 										name: "SingleQuotedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1827, col: 33, offset: 59364},
+										pos:  position{line: 1828, col: 33, offset: 59387},
 										name: "DoubleQuotedText",
 									},
 								},
@@ -40653,32 +40871,32 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedText",
-			pos:  position{line: 1835, col: 1, offset: 59595},
+			pos:  position{line: 1836, col: 1, offset: 59618},
 			expr: &choiceExpr{
-				pos: position{line: 1836, col: 5, offset: 59620},
+				pos: position{line: 1837, col: 5, offset: 59643},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1836, col: 5, offset: 59620},
+						pos:  position{line: 1837, col: 5, offset: 59643},
 						name: "SingleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1837, col: 7, offset: 59647},
+						pos:  position{line: 1838, col: 7, offset: 59670},
 						name: "SingleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1838, col: 7, offset: 59675},
+						pos:  position{line: 1839, col: 7, offset: 59698},
 						name: "SingleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1839, col: 7, offset: 59707},
+						pos:  position{line: 1840, col: 7, offset: 59730},
 						name: "SingleQuoteMarkedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1840, col: 7, offset: 59735},
+						pos:  position{line: 1841, col: 7, offset: 59758},
 						name: "SubscriptText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1841, col: 7, offset: 59756},
+						pos:  position{line: 1842, col: 7, offset: 59779},
 						name: "SuperscriptText",
 					},
 				},
@@ -40686,24 +40904,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedText",
-			pos:  position{line: 1843, col: 1, offset: 59774},
+			pos:  position{line: 1844, col: 1, offset: 59797},
 			expr: &choiceExpr{
-				pos: position{line: 1844, col: 5, offset: 59799},
+				pos: position{line: 1845, col: 5, offset: 59822},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1844, col: 5, offset: 59799},
+						pos:  position{line: 1845, col: 5, offset: 59822},
 						name: "DoubleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1845, col: 7, offset: 59825},
+						pos:  position{line: 1846, col: 7, offset: 59848},
 						name: "DoubleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1846, col: 7, offset: 59853},
+						pos:  position{line: 1847, col: 7, offset: 59876},
 						name: "DoubleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1847, col: 7, offset: 59884},
+						pos:  position{line: 1848, col: 7, offset: 59907},
 						name: "DoubleQuoteMarkedText",
 					},
 				},
@@ -40711,26 +40929,26 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedTextElement",
-			pos:  position{line: 1861, col: 1, offset: 60238},
+			pos:  position{line: 1862, col: 1, offset: 60261},
 			expr: &choiceExpr{
-				pos: position{line: 1862, col: 5, offset: 60264},
+				pos: position{line: 1863, col: 5, offset: 60287},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2776, col: 5, offset: 88444},
+						pos: position{line: 2777, col: 5, offset: 88467},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2776, col: 5, offset: 88444},
+							pos: position{line: 2777, col: 5, offset: 88467},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2776, col: 5, offset: 88444},
+									pos:   position{line: 2777, col: 5, offset: 88467},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2776, col: 11, offset: 88450},
+										pos: position{line: 2777, col: 11, offset: 88473},
 										run: (*parser).callonQuotedTextElement5,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2776, col: 11, offset: 88450},
+											pos: position{line: 2777, col: 11, offset: 88473},
 											expr: &charClassMatcher{
-												pos:        position{line: 2776, col: 11, offset: 88450},
+												pos:        position{line: 2777, col: 11, offset: 88473},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40740,44 +40958,44 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2779, col: 5, offset: 88508},
+									pos: position{line: 2780, col: 5, offset: 88531},
 									expr: &seqExpr{
-										pos: position{line: 2780, col: 9, offset: 88519},
+										pos: position{line: 2781, col: 9, offset: 88542},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2780, col: 9, offset: 88519},
+												pos:        position{line: 2781, col: 9, offset: 88542},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2781, col: 9, offset: 88568},
+												pos: position{line: 2782, col: 9, offset: 88591},
 												run: (*parser).callonQuotedTextElement11,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2785, col: 5, offset: 88648},
+									pos: position{line: 2786, col: 5, offset: 88671},
 									expr: &seqExpr{
-										pos: position{line: 2786, col: 9, offset: 88659},
+										pos: position{line: 2787, col: 9, offset: 88682},
 										exprs: []interface{}{
 											&zeroOrMoreExpr{
-												pos: position{line: 2786, col: 9, offset: 88659},
+												pos: position{line: 2787, col: 9, offset: 88682},
 												expr: &seqExpr{
-													pos: position{line: 2786, col: 10, offset: 88660},
+													pos: position{line: 2787, col: 10, offset: 88683},
 													exprs: []interface{}{
 														&charClassMatcher{
-															pos:        position{line: 2786, col: 10, offset: 88660},
+															pos:        position{line: 2787, col: 10, offset: 88683},
 															val:        "[._%+-]",
 															chars:      []rune{'.', '_', '%', '+', '-'},
 															ignoreCase: false,
 															inverted:   false,
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2786, col: 18, offset: 88668},
+															pos: position{line: 2787, col: 18, offset: 88691},
 															expr: &charClassMatcher{
-																pos:        position{line: 2786, col: 18, offset: 88668},
+																pos:        position{line: 2787, col: 18, offset: 88691},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -40788,13 +41006,13 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 2786, col: 30, offset: 88680},
+												pos:        position{line: 2787, col: 30, offset: 88703},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2786, col: 34, offset: 88684},
+												pos:        position{line: 2787, col: 34, offset: 88707},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40807,12 +41025,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2881, col: 11, offset: 91284},
+						pos: position{line: 2882, col: 11, offset: 91307},
 						run: (*parser).callonQuotedTextElement21,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2881, col: 11, offset: 91284},
+							pos: position{line: 2882, col: 11, offset: 91307},
 							expr: &charClassMatcher{
-								pos:        position{line: 2881, col: 11, offset: 91284},
+								pos:        position{line: 2882, col: 11, offset: 91307},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -40821,29 +41039,29 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1864, col: 7, offset: 60327},
+						pos:  position{line: 1865, col: 7, offset: 60350},
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2502, col: 5, offset: 80826},
+						pos: position{line: 2503, col: 5, offset: 80849},
 						run: (*parser).callonQuotedTextElement25,
 						expr: &seqExpr{
-							pos: position{line: 2502, col: 5, offset: 80826},
+							pos: position{line: 2503, col: 5, offset: 80849},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2502, col: 5, offset: 80826},
+									pos: position{line: 2503, col: 5, offset: 80849},
 									run: (*parser).callonQuotedTextElement27,
 								},
 								&litMatcher{
-									pos:        position{line: 2505, col: 5, offset: 80897},
+									pos:        position{line: 2506, col: 5, offset: 80920},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2505, col: 10, offset: 80902},
+									pos: position{line: 2506, col: 10, offset: 80925},
 									expr: &charClassMatcher{
-										pos:        position{line: 2505, col: 11, offset: 80903},
+										pos:        position{line: 2506, col: 11, offset: 80926},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -40854,29 +41072,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2511, col: 5, offset: 81095},
+						pos: position{line: 2512, col: 5, offset: 81118},
 						run: (*parser).callonQuotedTextElement31,
 						expr: &seqExpr{
-							pos: position{line: 2511, col: 5, offset: 81095},
+							pos: position{line: 2512, col: 5, offset: 81118},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2511, col: 5, offset: 81095},
+									pos: position{line: 2512, col: 5, offset: 81118},
 									run: (*parser).callonQuotedTextElement33,
 								},
 								&andCodeExpr{
-									pos: position{line: 2514, col: 5, offset: 81166},
+									pos: position{line: 2515, col: 5, offset: 81189},
 									run: (*parser).callonQuotedTextElement34,
 								},
 								&litMatcher{
-									pos:        position{line: 2518, col: 5, offset: 81291},
+									pos:        position{line: 2519, col: 5, offset: 81314},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2518, col: 9, offset: 81295},
+									pos: position{line: 2519, col: 9, offset: 81318},
 									expr: &charClassMatcher{
-										pos:        position{line: 2518, col: 10, offset: 81296},
+										pos:        position{line: 2519, col: 10, offset: 81319},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -40887,27 +41105,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2794, col: 5, offset: 88877},
+						pos: position{line: 2795, col: 5, offset: 88900},
 						run: (*parser).callonQuotedTextElement38,
 						expr: &choiceExpr{
-							pos: position{line: 2795, col: 9, offset: 88887},
+							pos: position{line: 2796, col: 9, offset: 88910},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2795, col: 10, offset: 88888},
+									pos:        position{line: 2796, col: 10, offset: 88911},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2797, col: 13, offset: 88985},
+									pos: position{line: 2798, col: 13, offset: 89008},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2797, col: 13, offset: 88985},
+											pos: position{line: 2798, col: 13, offset: 89008},
 											run: (*parser).callonQuotedTextElement42,
 										},
 										&litMatcher{
-											pos:        position{line: 2800, col: 13, offset: 89085},
+											pos:        position{line: 2801, col: 13, offset: 89108},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -40915,20 +41133,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2800, col: 19, offset: 89091},
+									pos:        position{line: 2801, col: 19, offset: 89114},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2803, col: 13, offset: 89129},
+									pos: position{line: 2804, col: 13, offset: 89152},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2803, col: 13, offset: 89129},
+											pos: position{line: 2804, col: 13, offset: 89152},
 											run: (*parser).callonQuotedTextElement46,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2806, col: 14, offset: 89222},
+											pos:        position{line: 2807, col: 14, offset: 89245},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -40937,18 +41155,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2808, col: 12, offset: 89266},
+									pos: position{line: 2809, col: 12, offset: 89289},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2808, col: 12, offset: 89266},
+											pos:        position{line: 2809, col: 12, offset: 89289},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2808, col: 16, offset: 89270},
+											pos: position{line: 2809, col: 16, offset: 89293},
 											expr: &litMatcher{
-												pos:        position{line: 2808, col: 17, offset: 89271},
+												pos:        position{line: 2809, col: 17, offset: 89294},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -41306,31 +41524,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2890, col: 18, offset: 91494},
+						pos: position{line: 2891, col: 18, offset: 91517},
 						run: (*parser).callonQuotedTextElement121,
 						expr: &seqExpr{
-							pos: position{line: 2890, col: 18, offset: 91494},
+							pos: position{line: 2891, col: 18, offset: 91517},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2886, col: 12, offset: 91394},
+									pos: position{line: 2887, col: 12, offset: 91417},
 									run: (*parser).callonQuotedTextElement123,
 									expr: &choiceExpr{
-										pos: position{line: 2886, col: 13, offset: 91395},
+										pos: position{line: 2887, col: 13, offset: 91418},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2886, col: 13, offset: 91395},
+												pos:        position{line: 2887, col: 13, offset: 91418},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2886, col: 20, offset: 91402},
+												pos:        position{line: 2887, col: 20, offset: 91425},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2886, col: 29, offset: 91411},
+												pos:        position{line: 2887, col: 29, offset: 91434},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -41339,27 +41557,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2890, col: 26, offset: 91502},
+									pos: position{line: 2891, col: 26, offset: 91525},
 									expr: &actionExpr{
-										pos: position{line: 2886, col: 12, offset: 91394},
+										pos: position{line: 2887, col: 12, offset: 91417},
 										run: (*parser).callonQuotedTextElement129,
 										expr: &choiceExpr{
-											pos: position{line: 2886, col: 13, offset: 91395},
+											pos: position{line: 2887, col: 13, offset: 91418},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2886, col: 13, offset: 91395},
+													pos:        position{line: 2887, col: 13, offset: 91418},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2886, col: 20, offset: 91402},
+													pos:        position{line: 2887, col: 20, offset: 91425},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2886, col: 29, offset: 91411},
+													pos:        position{line: 2887, col: 29, offset: 91434},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -41372,31 +41590,31 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1869, col: 7, offset: 60494},
+						pos:  position{line: 1870, col: 7, offset: 60517},
 						name: "QuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1870, col: 7, offset: 60541},
+						pos:  position{line: 1871, col: 7, offset: 60564},
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2471, col: 5, offset: 79655},
+						pos: position{line: 2472, col: 5, offset: 79678},
 						run: (*parser).callonQuotedTextElement136,
 						expr: &seqExpr{
-							pos: position{line: 2471, col: 5, offset: 79655},
+							pos: position{line: 2472, col: 5, offset: 79678},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2471, col: 5, offset: 79655},
+									pos: position{line: 2472, col: 5, offset: 79678},
 									run: (*parser).callonQuotedTextElement138,
 								},
 								&labeledExpr{
-									pos:   position{line: 2474, col: 5, offset: 79731},
+									pos:   position{line: 2475, col: 5, offset: 79754},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2475, col: 9, offset: 79749},
+										pos: position{line: 2476, col: 9, offset: 79772},
 										run: (*parser).callonQuotedTextElement140,
 										expr: &charClassMatcher{
-											pos:        position{line: 2475, col: 10, offset: 79750},
+											pos:        position{line: 2476, col: 10, offset: 79773},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -41408,27 +41626,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1198, col: 23, offset: 37013},
+						pos: position{line: 1199, col: 23, offset: 37036},
 						run: (*parser).callonQuotedTextElement142,
 						expr: &seqExpr{
-							pos: position{line: 1198, col: 23, offset: 37013},
+							pos: position{line: 1199, col: 23, offset: 37036},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1196, col: 32, offset: 36981},
+									pos:        position{line: 1197, col: 32, offset: 37004},
 									val:        "�",
 									ignoreCase: false,
 									want:       "\"�\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1198, col: 51, offset: 37041},
+									pos:   position{line: 1199, col: 51, offset: 37064},
 									label: "ref",
 									expr: &actionExpr{
-										pos: position{line: 1198, col: 56, offset: 37046},
+										pos: position{line: 1199, col: 56, offset: 37069},
 										run: (*parser).callonQuotedTextElement146,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1198, col: 56, offset: 37046},
+											pos: position{line: 1199, col: 56, offset: 37069},
 											expr: &charClassMatcher{
-												pos:        position{line: 1198, col: 56, offset: 37046},
+												pos:        position{line: 1199, col: 56, offset: 37069},
 												val:        "[0-9]",
 												ranges:     []rune{'0', '9'},
 												ignoreCase: false,
@@ -41438,23 +41656,23 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1196, col: 32, offset: 36981},
+									pos:        position{line: 1197, col: 32, offset: 37004},
 									val:        "�",
 									ignoreCase: false,
 									want:       "\"�\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 1199, col: 5, offset: 37118},
+									pos: position{line: 1200, col: 5, offset: 37141},
 									run: (*parser).callonQuotedTextElement150,
 								},
 							},
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2816, col: 12, offset: 89531},
+						pos: position{line: 2817, col: 12, offset: 89554},
 						run: (*parser).callonQuotedTextElement151,
 						expr: &charClassMatcher{
-							pos:        position{line: 2816, col: 12, offset: 89531},
+							pos:        position{line: 2817, col: 12, offset: 89554},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -41466,29 +41684,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldText",
-			pos:  position{line: 1888, col: 1, offset: 61011},
+			pos:  position{line: 1889, col: 1, offset: 61034},
 			expr: &actionExpr{
-				pos: position{line: 1889, col: 5, offset: 61039},
+				pos: position{line: 1890, col: 5, offset: 61062},
 				run: (*parser).callonDoubleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1889, col: 5, offset: 61039},
+					pos: position{line: 1890, col: 5, offset: 61062},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1884, col: 38, offset: 60964},
+							pos:        position{line: 1885, col: 38, offset: 60987},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1890, col: 5, offset: 61078},
+							pos:   position{line: 1891, col: 5, offset: 61101},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1890, col: 15, offset: 61088},
+								pos:  position{line: 1891, col: 15, offset: 61111},
 								name: "DoubleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1886, col: 36, offset: 61005},
+							pos:        position{line: 1887, col: 36, offset: 61028},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
@@ -41499,44 +41717,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElements",
-			pos:  position{line: 1895, col: 1, offset: 61248},
+			pos:  position{line: 1896, col: 1, offset: 61271},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1895, col: 32, offset: 61279},
+				pos: position{line: 1896, col: 32, offset: 61302},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1895, col: 32, offset: 61279},
+					pos:  position{line: 1896, col: 32, offset: 61302},
 					name: "DoubleQuoteBoldTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteBoldTextElement",
-			pos:  position{line: 1897, col: 1, offset: 61310},
+			pos:  position{line: 1898, col: 1, offset: 61333},
 			expr: &actionExpr{
-				pos: position{line: 1898, col: 5, offset: 61345},
+				pos: position{line: 1899, col: 5, offset: 61368},
 				run: (*parser).callonDoubleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1898, col: 5, offset: 61345},
+					pos: position{line: 1899, col: 5, offset: 61368},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2894, col: 11, offset: 91557},
+							pos: position{line: 2895, col: 11, offset: 91580},
 							expr: &anyMatcher{
-								line: 2894, col: 13, offset: 91559,
+								line: 2895, col: 13, offset: 91582,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1899, col: 5, offset: 61356},
+							pos: position{line: 1900, col: 5, offset: 61379},
 							expr: &litMatcher{
-								pos:        position{line: 1886, col: 36, offset: 61005},
+								pos:        position{line: 1887, col: 36, offset: 61028},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1900, col: 5, offset: 61393},
+							pos:   position{line: 1901, col: 5, offset: 61416},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1900, col: 14, offset: 61402},
+								pos:  position{line: 1901, col: 14, offset: 61425},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41546,29 +41764,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldText",
-			pos:  position{line: 1925, col: 1, offset: 62082},
+			pos:  position{line: 1926, col: 1, offset: 62105},
 			expr: &actionExpr{
-				pos: position{line: 1926, col: 5, offset: 62110},
+				pos: position{line: 1927, col: 5, offset: 62133},
 				run: (*parser).callonSingleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1926, col: 5, offset: 62110},
+					pos: position{line: 1927, col: 5, offset: 62133},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1909, col: 5, offset: 61636},
+							pos:        position{line: 1910, col: 5, offset: 61659},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1910, col: 5, offset: 61645},
+							pos: position{line: 1911, col: 5, offset: 61668},
 							run: (*parser).callonSingleQuoteBoldText4,
 						},
 						&andExpr{
-							pos: position{line: 1914, col: 5, offset: 61763},
+							pos: position{line: 1915, col: 5, offset: 61786},
 							expr: &notExpr{
-								pos: position{line: 1914, col: 7, offset: 61765},
+								pos: position{line: 1915, col: 7, offset: 61788},
 								expr: &litMatcher{
-									pos:        position{line: 1914, col: 8, offset: 61766},
+									pos:        position{line: 1915, col: 8, offset: 61789},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41576,38 +41794,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1927, col: 5, offset: 62148},
+							pos:   position{line: 1928, col: 5, offset: 62171},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1927, col: 15, offset: 62158},
+								pos:  position{line: 1928, col: 15, offset: 62181},
 								name: "SingleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1917, col: 5, offset: 61886},
+							pos:        position{line: 1918, col: 5, offset: 61909},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&notExpr{
-							pos: position{line: 1918, col: 5, offset: 61895},
+							pos: position{line: 1919, col: 5, offset: 61918},
 							expr: &litMatcher{
-								pos:        position{line: 1918, col: 6, offset: 61896},
+								pos:        position{line: 1919, col: 6, offset: 61919},
 								val:        "*",
 								ignoreCase: false,
 								want:       "\"*\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1919, col: 5, offset: 61959},
+							pos: position{line: 1920, col: 5, offset: 61982},
 							run: (*parser).callonSingleQuoteBoldText13,
 						},
 						&andExpr{
-							pos: position{line: 1923, col: 5, offset: 62068},
+							pos: position{line: 1924, col: 5, offset: 62091},
 							expr: &notExpr{
-								pos: position{line: 1923, col: 7, offset: 62070},
+								pos: position{line: 1924, col: 7, offset: 62093},
 								expr: &charClassMatcher{
-									pos:        position{line: 2767, col: 13, offset: 88297},
+									pos:        position{line: 2768, col: 13, offset: 88320},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -41621,20 +41839,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElements",
-			pos:  position{line: 1932, col: 1, offset: 62318},
+			pos:  position{line: 1933, col: 1, offset: 62341},
 			expr: &actionExpr{
-				pos: position{line: 1933, col: 5, offset: 62355},
+				pos: position{line: 1934, col: 5, offset: 62378},
 				run: (*parser).callonSingleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1933, col: 5, offset: 62355},
+					pos: position{line: 1934, col: 5, offset: 62378},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1933, col: 5, offset: 62355},
+							pos: position{line: 1934, col: 5, offset: 62378},
 							expr: &actionExpr{
-								pos: position{line: 2877, col: 10, offset: 91223},
+								pos: position{line: 2878, col: 10, offset: 91246},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2877, col: 10, offset: 91223},
+									pos:        position{line: 2878, col: 10, offset: 91246},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41643,18 +41861,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1934, col: 5, offset: 62394},
+							pos:   position{line: 1935, col: 5, offset: 62417},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1934, col: 14, offset: 62403},
+								pos: position{line: 1935, col: 14, offset: 62426},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1934, col: 15, offset: 62404},
+									pos:  position{line: 1935, col: 15, offset: 62427},
 									name: "SingleQuoteBoldTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1935, col: 5, offset: 62438},
+							pos: position{line: 1936, col: 5, offset: 62461},
 							run: (*parser).callonSingleQuoteBoldTextElements9,
 						},
 					},
@@ -41663,49 +41881,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElement",
-			pos:  position{line: 1941, col: 1, offset: 62579},
+			pos:  position{line: 1942, col: 1, offset: 62602},
 			expr: &actionExpr{
-				pos: position{line: 1942, col: 5, offset: 62614},
+				pos: position{line: 1943, col: 5, offset: 62637},
 				run: (*parser).callonSingleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1942, col: 5, offset: 62614},
+					pos: position{line: 1943, col: 5, offset: 62637},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2894, col: 11, offset: 91557},
+							pos: position{line: 2895, col: 11, offset: 91580},
 							expr: &anyMatcher{
-								line: 2894, col: 13, offset: 91559,
+								line: 2895, col: 13, offset: 91582,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1943, col: 5, offset: 62642},
+							pos: position{line: 1944, col: 5, offset: 62665},
 							expr: &seqExpr{
-								pos: position{line: 1917, col: 5, offset: 61886},
+								pos: position{line: 1918, col: 5, offset: 61909},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1917, col: 5, offset: 61886},
+										pos:        position{line: 1918, col: 5, offset: 61909},
 										val:        "*",
 										ignoreCase: false,
 										want:       "\"*\"",
 									},
 									&notExpr{
-										pos: position{line: 1918, col: 5, offset: 61895},
+										pos: position{line: 1919, col: 5, offset: 61918},
 										expr: &litMatcher{
-											pos:        position{line: 1918, col: 6, offset: 61896},
+											pos:        position{line: 1919, col: 6, offset: 61919},
 											val:        "*",
 											ignoreCase: false,
 											want:       "\"*\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1919, col: 5, offset: 61959},
+										pos: position{line: 1920, col: 5, offset: 61982},
 										run: (*parser).callonSingleQuoteBoldTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 1923, col: 5, offset: 62068},
+										pos: position{line: 1924, col: 5, offset: 62091},
 										expr: &notExpr{
-											pos: position{line: 1923, col: 7, offset: 62070},
+											pos: position{line: 1924, col: 7, offset: 62093},
 											expr: &charClassMatcher{
-												pos:        position{line: 2767, col: 13, offset: 88297},
+												pos:        position{line: 2768, col: 13, offset: 88320},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41717,10 +41935,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1944, col: 5, offset: 62679},
+							pos:   position{line: 1945, col: 5, offset: 62702},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1944, col: 14, offset: 62688},
+								pos:  position{line: 1945, col: 14, offset: 62711},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41730,35 +41948,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedBoldText",
-			pos:  position{line: 1949, col: 1, offset: 62776},
+			pos:  position{line: 1950, col: 1, offset: 62799},
 			expr: &choiceExpr{
-				pos: position{line: 1951, col: 5, offset: 62837},
+				pos: position{line: 1952, col: 5, offset: 62860},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1951, col: 5, offset: 62837},
+						pos: position{line: 1952, col: 5, offset: 62860},
 						run: (*parser).callonEscapedBoldText2,
 						expr: &seqExpr{
-							pos: position{line: 1951, col: 5, offset: 62837},
+							pos: position{line: 1952, col: 5, offset: 62860},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1951, col: 5, offset: 62837},
+									pos:   position{line: 1952, col: 5, offset: 62860},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1857, col: 25, offset: 60184},
+										pos: position{line: 1858, col: 25, offset: 60207},
 										run: (*parser).callonEscapedBoldText5,
 										expr: &seqExpr{
-											pos: position{line: 1857, col: 25, offset: 60184},
+											pos: position{line: 1858, col: 25, offset: 60207},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1857, col: 25, offset: 60184},
+													pos:        position{line: 1858, col: 25, offset: 60207},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1857, col: 30, offset: 60189},
+													pos: position{line: 1858, col: 30, offset: 60212},
 													expr: &litMatcher{
-														pos:        position{line: 1857, col: 30, offset: 60189},
+														pos:        position{line: 1858, col: 30, offset: 60212},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -41769,21 +41987,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1951, col: 40, offset: 62872},
+									pos:        position{line: 1952, col: 40, offset: 62895},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1951, col: 45, offset: 62877},
+									pos:   position{line: 1952, col: 45, offset: 62900},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1951, col: 55, offset: 62887},
+										pos:  position{line: 1952, col: 55, offset: 62910},
 										name: "DoubleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1951, col: 84, offset: 62916},
+									pos:        position{line: 1952, col: 84, offset: 62939},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
@@ -41792,21 +42010,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1955, col: 7, offset: 63080},
+						pos: position{line: 1956, col: 7, offset: 63103},
 						run: (*parser).callonEscapedBoldText14,
 						expr: &seqExpr{
-							pos: position{line: 1955, col: 7, offset: 63080},
+							pos: position{line: 1956, col: 7, offset: 63103},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1955, col: 7, offset: 63080},
+									pos:   position{line: 1956, col: 7, offset: 63103},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1853, col: 25, offset: 60111},
+										pos: position{line: 1854, col: 25, offset: 60134},
 										run: (*parser).callonEscapedBoldText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1853, col: 25, offset: 60111},
+											pos: position{line: 1854, col: 25, offset: 60134},
 											expr: &litMatcher{
-												pos:        position{line: 1853, col: 25, offset: 60111},
+												pos:        position{line: 1854, col: 25, offset: 60134},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41815,21 +42033,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1955, col: 42, offset: 63115},
+									pos:        position{line: 1956, col: 42, offset: 63138},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1955, col: 47, offset: 63120},
+									pos:   position{line: 1956, col: 47, offset: 63143},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1955, col: 57, offset: 63130},
+										pos:  position{line: 1956, col: 57, offset: 63153},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1955, col: 86, offset: 63159},
+									pos:        position{line: 1956, col: 86, offset: 63182},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41838,21 +42056,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1960, col: 7, offset: 63361},
+						pos: position{line: 1961, col: 7, offset: 63384},
 						run: (*parser).callonEscapedBoldText24,
 						expr: &seqExpr{
-							pos: position{line: 1960, col: 7, offset: 63361},
+							pos: position{line: 1961, col: 7, offset: 63384},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1960, col: 7, offset: 63361},
+									pos:   position{line: 1961, col: 7, offset: 63384},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1853, col: 25, offset: 60111},
+										pos: position{line: 1854, col: 25, offset: 60134},
 										run: (*parser).callonEscapedBoldText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1853, col: 25, offset: 60111},
+											pos: position{line: 1854, col: 25, offset: 60134},
 											expr: &litMatcher{
-												pos:        position{line: 1853, col: 25, offset: 60111},
+												pos:        position{line: 1854, col: 25, offset: 60134},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41861,21 +42079,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1960, col: 42, offset: 63396},
+									pos:        position{line: 1961, col: 42, offset: 63419},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1960, col: 46, offset: 63400},
+									pos:   position{line: 1961, col: 46, offset: 63423},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1960, col: 56, offset: 63410},
+										pos:  position{line: 1961, col: 56, offset: 63433},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1960, col: 85, offset: 63439},
+									pos:        position{line: 1961, col: 85, offset: 63462},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41888,29 +42106,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicText",
-			pos:  position{line: 1977, col: 1, offset: 63919},
+			pos:  position{line: 1978, col: 1, offset: 63942},
 			expr: &actionExpr{
-				pos: position{line: 1978, col: 5, offset: 63949},
+				pos: position{line: 1979, col: 5, offset: 63972},
 				run: (*parser).callonDoubleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 1978, col: 5, offset: 63949},
+					pos: position{line: 1979, col: 5, offset: 63972},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1973, col: 40, offset: 63870},
+							pos:        position{line: 1974, col: 40, offset: 63893},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1979, col: 5, offset: 63990},
+							pos:   position{line: 1980, col: 5, offset: 64013},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1979, col: 15, offset: 64000},
+								pos:  position{line: 1980, col: 15, offset: 64023},
 								name: "DoubleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1975, col: 38, offset: 63913},
+							pos:        position{line: 1976, col: 38, offset: 63936},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
@@ -41921,44 +42139,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElements",
-			pos:  position{line: 1984, col: 1, offset: 64165},
+			pos:  position{line: 1985, col: 1, offset: 64188},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1984, col: 34, offset: 64198},
+				pos: position{line: 1985, col: 34, offset: 64221},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1984, col: 34, offset: 64198},
+					pos:  position{line: 1985, col: 34, offset: 64221},
 					name: "DoubleQuoteItalicTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteItalicTextElement",
-			pos:  position{line: 1986, col: 1, offset: 64230},
+			pos:  position{line: 1987, col: 1, offset: 64253},
 			expr: &actionExpr{
-				pos: position{line: 1987, col: 5, offset: 64267},
+				pos: position{line: 1988, col: 5, offset: 64290},
 				run: (*parser).callonDoubleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1987, col: 5, offset: 64267},
+					pos: position{line: 1988, col: 5, offset: 64290},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2894, col: 11, offset: 91557},
+							pos: position{line: 2895, col: 11, offset: 91580},
 							expr: &anyMatcher{
-								line: 2894, col: 13, offset: 91559,
+								line: 2895, col: 13, offset: 91582,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1988, col: 5, offset: 64278},
+							pos: position{line: 1989, col: 5, offset: 64301},
 							expr: &litMatcher{
-								pos:        position{line: 1975, col: 38, offset: 63913},
+								pos:        position{line: 1976, col: 38, offset: 63936},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1989, col: 5, offset: 64317},
+							pos:   position{line: 1990, col: 5, offset: 64340},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1989, col: 14, offset: 64326},
+								pos:  position{line: 1990, col: 14, offset: 64349},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41968,29 +42186,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicText",
-			pos:  position{line: 2015, col: 1, offset: 65010},
+			pos:  position{line: 2016, col: 1, offset: 65033},
 			expr: &actionExpr{
-				pos: position{line: 2016, col: 5, offset: 65040},
+				pos: position{line: 2017, col: 5, offset: 65063},
 				run: (*parser).callonSingleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2016, col: 5, offset: 65040},
+					pos: position{line: 2017, col: 5, offset: 65063},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1998, col: 5, offset: 64568},
+							pos:        position{line: 1999, col: 5, offset: 64591},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1999, col: 5, offset: 64577},
+							pos: position{line: 2000, col: 5, offset: 64600},
 							run: (*parser).callonSingleQuoteItalicText4,
 						},
 						&andExpr{
-							pos: position{line: 2003, col: 5, offset: 64697},
+							pos: position{line: 2004, col: 5, offset: 64720},
 							expr: &notExpr{
-								pos: position{line: 2003, col: 7, offset: 64699},
+								pos: position{line: 2004, col: 7, offset: 64722},
 								expr: &litMatcher{
-									pos:        position{line: 2003, col: 8, offset: 64700},
+									pos:        position{line: 2004, col: 8, offset: 64723},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -41998,38 +42216,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2017, col: 5, offset: 65080},
+							pos:   position{line: 2018, col: 5, offset: 65103},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2017, col: 15, offset: 65090},
+								pos:  position{line: 2018, col: 15, offset: 65113},
 								name: "SingleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2007, col: 5, offset: 64810},
+							pos:        position{line: 2008, col: 5, offset: 64833},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&notExpr{
-							pos: position{line: 2008, col: 5, offset: 64819},
+							pos: position{line: 2009, col: 5, offset: 64842},
 							expr: &litMatcher{
-								pos:        position{line: 2008, col: 6, offset: 64820},
+								pos:        position{line: 2009, col: 6, offset: 64843},
 								val:        "_",
 								ignoreCase: false,
 								want:       "\"_\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2009, col: 5, offset: 64885},
+							pos: position{line: 2010, col: 5, offset: 64908},
 							run: (*parser).callonSingleQuoteItalicText13,
 						},
 						&andExpr{
-							pos: position{line: 2013, col: 5, offset: 64996},
+							pos: position{line: 2014, col: 5, offset: 65019},
 							expr: &notExpr{
-								pos: position{line: 2013, col: 7, offset: 64998},
+								pos: position{line: 2014, col: 7, offset: 65021},
 								expr: &charClassMatcher{
-									pos:        position{line: 2767, col: 13, offset: 88297},
+									pos:        position{line: 2768, col: 13, offset: 88320},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -42043,20 +42261,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElements",
-			pos:  position{line: 2022, col: 1, offset: 65257},
+			pos:  position{line: 2023, col: 1, offset: 65280},
 			expr: &actionExpr{
-				pos: position{line: 2023, col: 5, offset: 65295},
+				pos: position{line: 2024, col: 5, offset: 65318},
 				run: (*parser).callonSingleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2023, col: 5, offset: 65295},
+					pos: position{line: 2024, col: 5, offset: 65318},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2023, col: 5, offset: 65295},
+							pos: position{line: 2024, col: 5, offset: 65318},
 							expr: &actionExpr{
-								pos: position{line: 2877, col: 10, offset: 91223},
+								pos: position{line: 2878, col: 10, offset: 91246},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2877, col: 10, offset: 91223},
+									pos:        position{line: 2878, col: 10, offset: 91246},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42065,18 +42283,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2024, col: 5, offset: 65334},
+							pos:   position{line: 2025, col: 5, offset: 65357},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2024, col: 14, offset: 65343},
+								pos: position{line: 2025, col: 14, offset: 65366},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2024, col: 15, offset: 65344},
+									pos:  position{line: 2025, col: 15, offset: 65367},
 									name: "SingleQuoteItalicTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2025, col: 5, offset: 65379},
+							pos: position{line: 2026, col: 5, offset: 65402},
 							run: (*parser).callonSingleQuoteItalicTextElements9,
 						},
 					},
@@ -42085,49 +42303,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElement",
-			pos:  position{line: 2031, col: 1, offset: 65520},
+			pos:  position{line: 2032, col: 1, offset: 65543},
 			expr: &actionExpr{
-				pos: position{line: 2032, col: 5, offset: 65557},
+				pos: position{line: 2033, col: 5, offset: 65580},
 				run: (*parser).callonSingleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2032, col: 5, offset: 65557},
+					pos: position{line: 2033, col: 5, offset: 65580},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2894, col: 11, offset: 91557},
+							pos: position{line: 2895, col: 11, offset: 91580},
 							expr: &anyMatcher{
-								line: 2894, col: 13, offset: 91559,
+								line: 2895, col: 13, offset: 91582,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2033, col: 5, offset: 65568},
+							pos: position{line: 2034, col: 5, offset: 65591},
 							expr: &seqExpr{
-								pos: position{line: 2007, col: 5, offset: 64810},
+								pos: position{line: 2008, col: 5, offset: 64833},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2007, col: 5, offset: 64810},
+										pos:        position{line: 2008, col: 5, offset: 64833},
 										val:        "_",
 										ignoreCase: false,
 										want:       "\"_\"",
 									},
 									&notExpr{
-										pos: position{line: 2008, col: 5, offset: 64819},
+										pos: position{line: 2009, col: 5, offset: 64842},
 										expr: &litMatcher{
-											pos:        position{line: 2008, col: 6, offset: 64820},
+											pos:        position{line: 2009, col: 6, offset: 64843},
 											val:        "_",
 											ignoreCase: false,
 											want:       "\"_\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2009, col: 5, offset: 64885},
+										pos: position{line: 2010, col: 5, offset: 64908},
 										run: (*parser).callonSingleQuoteItalicTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2013, col: 5, offset: 64996},
+										pos: position{line: 2014, col: 5, offset: 65019},
 										expr: &notExpr{
-											pos: position{line: 2013, col: 7, offset: 64998},
+											pos: position{line: 2014, col: 7, offset: 65021},
 											expr: &charClassMatcher{
-												pos:        position{line: 2767, col: 13, offset: 88297},
+												pos:        position{line: 2768, col: 13, offset: 88320},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42139,10 +42357,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2034, col: 5, offset: 65607},
+							pos:   position{line: 2035, col: 5, offset: 65630},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2034, col: 14, offset: 65616},
+								pos:  position{line: 2035, col: 14, offset: 65639},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42152,35 +42370,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedItalicText",
-			pos:  position{line: 2039, col: 1, offset: 65704},
+			pos:  position{line: 2040, col: 1, offset: 65727},
 			expr: &choiceExpr{
-				pos: position{line: 2041, col: 5, offset: 65769},
+				pos: position{line: 2042, col: 5, offset: 65792},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2041, col: 5, offset: 65769},
+						pos: position{line: 2042, col: 5, offset: 65792},
 						run: (*parser).callonEscapedItalicText2,
 						expr: &seqExpr{
-							pos: position{line: 2041, col: 5, offset: 65769},
+							pos: position{line: 2042, col: 5, offset: 65792},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2041, col: 5, offset: 65769},
+									pos:   position{line: 2042, col: 5, offset: 65792},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1857, col: 25, offset: 60184},
+										pos: position{line: 1858, col: 25, offset: 60207},
 										run: (*parser).callonEscapedItalicText5,
 										expr: &seqExpr{
-											pos: position{line: 1857, col: 25, offset: 60184},
+											pos: position{line: 1858, col: 25, offset: 60207},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1857, col: 25, offset: 60184},
+													pos:        position{line: 1858, col: 25, offset: 60207},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1857, col: 30, offset: 60189},
+													pos: position{line: 1858, col: 30, offset: 60212},
 													expr: &litMatcher{
-														pos:        position{line: 1857, col: 30, offset: 60189},
+														pos:        position{line: 1858, col: 30, offset: 60212},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42191,21 +42409,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2041, col: 40, offset: 65804},
+									pos:        position{line: 2042, col: 40, offset: 65827},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2041, col: 45, offset: 65809},
+									pos:   position{line: 2042, col: 45, offset: 65832},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2041, col: 55, offset: 65819},
+										pos:  position{line: 2042, col: 55, offset: 65842},
 										name: "DoubleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2041, col: 86, offset: 65850},
+									pos:        position{line: 2042, col: 86, offset: 65873},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
@@ -42214,21 +42432,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2045, col: 7, offset: 66015},
+						pos: position{line: 2046, col: 7, offset: 66038},
 						run: (*parser).callonEscapedItalicText14,
 						expr: &seqExpr{
-							pos: position{line: 2045, col: 7, offset: 66015},
+							pos: position{line: 2046, col: 7, offset: 66038},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2045, col: 7, offset: 66015},
+									pos:   position{line: 2046, col: 7, offset: 66038},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1853, col: 25, offset: 60111},
+										pos: position{line: 1854, col: 25, offset: 60134},
 										run: (*parser).callonEscapedItalicText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1853, col: 25, offset: 60111},
+											pos: position{line: 1854, col: 25, offset: 60134},
 											expr: &litMatcher{
-												pos:        position{line: 1853, col: 25, offset: 60111},
+												pos:        position{line: 1854, col: 25, offset: 60134},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42237,21 +42455,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2045, col: 42, offset: 66050},
+									pos:        position{line: 2046, col: 42, offset: 66073},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2045, col: 47, offset: 66055},
+									pos:   position{line: 2046, col: 47, offset: 66078},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2045, col: 57, offset: 66065},
+										pos:  position{line: 2046, col: 57, offset: 66088},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2045, col: 88, offset: 66096},
+									pos:        position{line: 2046, col: 88, offset: 66119},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -42260,21 +42478,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2050, col: 7, offset: 66337},
+						pos: position{line: 2051, col: 7, offset: 66360},
 						run: (*parser).callonEscapedItalicText24,
 						expr: &seqExpr{
-							pos: position{line: 2050, col: 7, offset: 66337},
+							pos: position{line: 2051, col: 7, offset: 66360},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2050, col: 7, offset: 66337},
+									pos:   position{line: 2051, col: 7, offset: 66360},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1853, col: 25, offset: 60111},
+										pos: position{line: 1854, col: 25, offset: 60134},
 										run: (*parser).callonEscapedItalicText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1853, col: 25, offset: 60111},
+											pos: position{line: 1854, col: 25, offset: 60134},
 											expr: &litMatcher{
-												pos:        position{line: 1853, col: 25, offset: 60111},
+												pos:        position{line: 1854, col: 25, offset: 60134},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42283,21 +42501,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2050, col: 42, offset: 66372},
+									pos:        position{line: 2051, col: 42, offset: 66395},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2050, col: 46, offset: 66376},
+									pos:   position{line: 2051, col: 46, offset: 66399},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2050, col: 56, offset: 66386},
+										pos:  position{line: 2051, col: 56, offset: 66409},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2050, col: 87, offset: 66417},
+									pos:        position{line: 2051, col: 87, offset: 66440},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -42310,29 +42528,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceText",
-			pos:  position{line: 2067, col: 1, offset: 66981},
+			pos:  position{line: 2068, col: 1, offset: 67004},
 			expr: &actionExpr{
-				pos: position{line: 2068, col: 5, offset: 67014},
+				pos: position{line: 2069, col: 5, offset: 67037},
 				run: (*parser).callonDoubleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2068, col: 5, offset: 67014},
+					pos: position{line: 2069, col: 5, offset: 67037},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2063, col: 43, offset: 66929},
+							pos:        position{line: 2064, col: 43, offset: 66952},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2069, col: 5, offset: 67058},
+							pos:   position{line: 2070, col: 5, offset: 67081},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2069, col: 15, offset: 67068},
+								pos:  position{line: 2070, col: 15, offset: 67091},
 								name: "DoubleQuoteMonospaceTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2065, col: 41, offset: 66975},
+							pos:        position{line: 2066, col: 41, offset: 66998},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
@@ -42343,44 +42561,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElements",
-			pos:  position{line: 2074, col: 1, offset: 67243},
+			pos:  position{line: 2075, col: 1, offset: 67266},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 2074, col: 37, offset: 67279},
+				pos: position{line: 2075, col: 37, offset: 67302},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2074, col: 37, offset: 67279},
+					pos:  position{line: 2075, col: 37, offset: 67302},
 					name: "DoubleQuoteMonospaceTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElement",
-			pos:  position{line: 2076, col: 1, offset: 67346},
+			pos:  position{line: 2077, col: 1, offset: 67369},
 			expr: &actionExpr{
-				pos: position{line: 2077, col: 5, offset: 67386},
+				pos: position{line: 2078, col: 5, offset: 67409},
 				run: (*parser).callonDoubleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2077, col: 5, offset: 67386},
+					pos: position{line: 2078, col: 5, offset: 67409},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2894, col: 11, offset: 91557},
+							pos: position{line: 2895, col: 11, offset: 91580},
 							expr: &anyMatcher{
-								line: 2894, col: 13, offset: 91559,
+								line: 2895, col: 13, offset: 91582,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2078, col: 5, offset: 67397},
+							pos: position{line: 2079, col: 5, offset: 67420},
 							expr: &litMatcher{
-								pos:        position{line: 2065, col: 41, offset: 66975},
+								pos:        position{line: 2066, col: 41, offset: 66998},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2079, col: 5, offset: 67439},
+							pos:   position{line: 2080, col: 5, offset: 67462},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2079, col: 14, offset: 67448},
+								pos:  position{line: 2080, col: 14, offset: 67471},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42390,33 +42608,33 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextEndDelimiter",
-			pos:  position{line: 2097, col: 1, offset: 67990},
+			pos:  position{line: 2098, col: 1, offset: 68013},
 			expr: &seqExpr{
-				pos: position{line: 2098, col: 5, offset: 68035},
+				pos: position{line: 2099, col: 5, offset: 68058},
 				exprs: []interface{}{
 					&notExpr{
-						pos: position{line: 2098, col: 5, offset: 68035},
+						pos: position{line: 2099, col: 5, offset: 68058},
 						expr: &ruleRefExpr{
-							pos:  position{line: 2098, col: 6, offset: 68036},
+							pos:  position{line: 2099, col: 6, offset: 68059},
 							name: "QuotationMark",
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 2099, col: 5, offset: 68055},
+						pos:        position{line: 2100, col: 5, offset: 68078},
 						val:        "`",
 						ignoreCase: false,
 						want:       "\"`\"",
 					},
 					&andCodeExpr{
-						pos: position{line: 2100, col: 5, offset: 68063},
+						pos: position{line: 2101, col: 5, offset: 68086},
 						run: (*parser).callonSingleQuoteMonospaceTextEndDelimiter5,
 					},
 					&andExpr{
-						pos: position{line: 2104, col: 5, offset: 68177},
+						pos: position{line: 2105, col: 5, offset: 68200},
 						expr: &notExpr{
-							pos: position{line: 2104, col: 7, offset: 68179},
+							pos: position{line: 2105, col: 7, offset: 68202},
 							expr: &charClassMatcher{
-								pos:        position{line: 2767, col: 13, offset: 88297},
+								pos:        position{line: 2768, col: 13, offset: 88320},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -42429,29 +42647,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceText",
-			pos:  position{line: 2107, col: 1, offset: 68196},
+			pos:  position{line: 2108, col: 1, offset: 68219},
 			expr: &actionExpr{
-				pos: position{line: 2108, col: 5, offset: 68229},
+				pos: position{line: 2109, col: 5, offset: 68252},
 				run: (*parser).callonSingleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2108, col: 5, offset: 68229},
+					pos: position{line: 2109, col: 5, offset: 68252},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2090, col: 5, offset: 67792},
+							pos:        position{line: 2091, col: 5, offset: 67815},
 							val:        "`",
 							ignoreCase: false,
 							want:       "\"`\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2091, col: 5, offset: 67801},
+							pos: position{line: 2092, col: 5, offset: 67824},
 							run: (*parser).callonSingleQuoteMonospaceText4,
 						},
 						&andExpr{
-							pos: position{line: 2095, col: 5, offset: 67924},
+							pos: position{line: 2096, col: 5, offset: 67947},
 							expr: &notExpr{
-								pos: position{line: 2095, col: 7, offset: 67926},
+								pos: position{line: 2096, col: 7, offset: 67949},
 								expr: &litMatcher{
-									pos:        position{line: 2095, col: 8, offset: 67927},
+									pos:        position{line: 2096, col: 8, offset: 67950},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42459,15 +42677,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2109, col: 5, offset: 68273},
+							pos:   position{line: 2110, col: 5, offset: 68296},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2109, col: 15, offset: 68283},
+								pos:  position{line: 2110, col: 15, offset: 68306},
 								name: "SingleQuoteMonospaceTextElements",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 2110, col: 5, offset: 68322},
+							pos:  position{line: 2111, col: 5, offset: 68345},
 							name: "SingleQuoteMonospaceTextEndDelimiter",
 						},
 					},
@@ -42476,20 +42694,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElements",
-			pos:  position{line: 2114, col: 1, offset: 68459},
+			pos:  position{line: 2115, col: 1, offset: 68482},
 			expr: &actionExpr{
-				pos: position{line: 2115, col: 5, offset: 68500},
+				pos: position{line: 2116, col: 5, offset: 68523},
 				run: (*parser).callonSingleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2115, col: 5, offset: 68500},
+					pos: position{line: 2116, col: 5, offset: 68523},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2115, col: 5, offset: 68500},
+							pos: position{line: 2116, col: 5, offset: 68523},
 							expr: &actionExpr{
-								pos: position{line: 2877, col: 10, offset: 91223},
+								pos: position{line: 2878, col: 10, offset: 91246},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2877, col: 10, offset: 91223},
+									pos:        position{line: 2878, col: 10, offset: 91246},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42498,18 +42716,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2116, col: 5, offset: 68539},
+							pos:   position{line: 2117, col: 5, offset: 68562},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2116, col: 14, offset: 68548},
+								pos: position{line: 2117, col: 14, offset: 68571},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2116, col: 15, offset: 68549},
+									pos:  position{line: 2117, col: 15, offset: 68572},
 									name: "SingleQuoteMonospaceTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2117, col: 5, offset: 68587},
+							pos: position{line: 2118, col: 5, offset: 68610},
 							run: (*parser).callonSingleQuoteMonospaceTextElements9,
 						},
 					},
@@ -42518,31 +42736,31 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElement",
-			pos:  position{line: 2123, col: 1, offset: 68728},
+			pos:  position{line: 2124, col: 1, offset: 68751},
 			expr: &actionExpr{
-				pos: position{line: 2124, col: 5, offset: 68768},
+				pos: position{line: 2125, col: 5, offset: 68791},
 				run: (*parser).callonSingleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2124, col: 5, offset: 68768},
+					pos: position{line: 2125, col: 5, offset: 68791},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2894, col: 11, offset: 91557},
+							pos: position{line: 2895, col: 11, offset: 91580},
 							expr: &anyMatcher{
-								line: 2894, col: 13, offset: 91559,
+								line: 2895, col: 13, offset: 91582,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2125, col: 5, offset: 68779},
+							pos: position{line: 2126, col: 5, offset: 68802},
 							expr: &ruleRefExpr{
-								pos:  position{line: 2125, col: 6, offset: 68780},
+								pos:  position{line: 2126, col: 6, offset: 68803},
 								name: "SingleQuoteMonospaceTextEndDelimiter",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2126, col: 5, offset: 68821},
+							pos:   position{line: 2127, col: 5, offset: 68844},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2126, col: 14, offset: 68830},
+								pos:  position{line: 2127, col: 14, offset: 68853},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42552,35 +42770,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMonospaceText",
-			pos:  position{line: 2131, col: 1, offset: 68918},
+			pos:  position{line: 2132, col: 1, offset: 68941},
 			expr: &choiceExpr{
-				pos: position{line: 2133, col: 5, offset: 68989},
+				pos: position{line: 2134, col: 5, offset: 69012},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2133, col: 5, offset: 68989},
+						pos: position{line: 2134, col: 5, offset: 69012},
 						run: (*parser).callonEscapedMonospaceText2,
 						expr: &seqExpr{
-							pos: position{line: 2133, col: 5, offset: 68989},
+							pos: position{line: 2134, col: 5, offset: 69012},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2133, col: 5, offset: 68989},
+									pos:   position{line: 2134, col: 5, offset: 69012},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1857, col: 25, offset: 60184},
+										pos: position{line: 1858, col: 25, offset: 60207},
 										run: (*parser).callonEscapedMonospaceText5,
 										expr: &seqExpr{
-											pos: position{line: 1857, col: 25, offset: 60184},
+											pos: position{line: 1858, col: 25, offset: 60207},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1857, col: 25, offset: 60184},
+													pos:        position{line: 1858, col: 25, offset: 60207},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1857, col: 30, offset: 60189},
+													pos: position{line: 1858, col: 30, offset: 60212},
 													expr: &litMatcher{
-														pos:        position{line: 1857, col: 30, offset: 60189},
+														pos:        position{line: 1858, col: 30, offset: 60212},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42591,21 +42809,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2133, col: 40, offset: 69024},
+									pos:        position{line: 2134, col: 40, offset: 69047},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2133, col: 45, offset: 69029},
+									pos:   position{line: 2134, col: 45, offset: 69052},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2133, col: 55, offset: 69039},
+										pos:  position{line: 2134, col: 55, offset: 69062},
 										name: "DoubleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2133, col: 89, offset: 69073},
+									pos:        position{line: 2134, col: 89, offset: 69096},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
@@ -42614,21 +42832,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2137, col: 7, offset: 69242},
+						pos: position{line: 2138, col: 7, offset: 69265},
 						run: (*parser).callonEscapedMonospaceText14,
 						expr: &seqExpr{
-							pos: position{line: 2137, col: 7, offset: 69242},
+							pos: position{line: 2138, col: 7, offset: 69265},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2137, col: 7, offset: 69242},
+									pos:   position{line: 2138, col: 7, offset: 69265},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1853, col: 25, offset: 60111},
+										pos: position{line: 1854, col: 25, offset: 60134},
 										run: (*parser).callonEscapedMonospaceText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1853, col: 25, offset: 60111},
+											pos: position{line: 1854, col: 25, offset: 60134},
 											expr: &litMatcher{
-												pos:        position{line: 1853, col: 25, offset: 60111},
+												pos:        position{line: 1854, col: 25, offset: 60134},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42637,21 +42855,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2137, col: 42, offset: 69277},
+									pos:        position{line: 2138, col: 42, offset: 69300},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2137, col: 47, offset: 69282},
+									pos:   position{line: 2138, col: 47, offset: 69305},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2137, col: 57, offset: 69292},
+										pos:  position{line: 2138, col: 57, offset: 69315},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2137, col: 91, offset: 69326},
+									pos:        position{line: 2138, col: 91, offset: 69349},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42660,21 +42878,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2142, col: 7, offset: 69532},
+						pos: position{line: 2143, col: 7, offset: 69555},
 						run: (*parser).callonEscapedMonospaceText24,
 						expr: &seqExpr{
-							pos: position{line: 2142, col: 7, offset: 69532},
+							pos: position{line: 2143, col: 7, offset: 69555},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2142, col: 7, offset: 69532},
+									pos:   position{line: 2143, col: 7, offset: 69555},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1853, col: 25, offset: 60111},
+										pos: position{line: 1854, col: 25, offset: 60134},
 										run: (*parser).callonEscapedMonospaceText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1853, col: 25, offset: 60111},
+											pos: position{line: 1854, col: 25, offset: 60134},
 											expr: &litMatcher{
-												pos:        position{line: 1853, col: 25, offset: 60111},
+												pos:        position{line: 1854, col: 25, offset: 60134},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42683,21 +42901,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2142, col: 42, offset: 69567},
+									pos:        position{line: 2143, col: 42, offset: 69590},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2142, col: 46, offset: 69571},
+									pos:   position{line: 2143, col: 46, offset: 69594},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2142, col: 56, offset: 69581},
+										pos:  position{line: 2143, col: 56, offset: 69604},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2142, col: 90, offset: 69615},
+									pos:        position{line: 2143, col: 90, offset: 69638},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42710,29 +42928,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedText",
-			pos:  position{line: 2159, col: 1, offset: 70100},
+			pos:  position{line: 2160, col: 1, offset: 70123},
 			expr: &actionExpr{
-				pos: position{line: 2160, col: 5, offset: 70130},
+				pos: position{line: 2161, col: 5, offset: 70153},
 				run: (*parser).callonDoubleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2160, col: 5, offset: 70130},
+					pos: position{line: 2161, col: 5, offset: 70153},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2155, col: 40, offset: 70051},
+							pos:        position{line: 2156, col: 40, offset: 70074},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2161, col: 5, offset: 70171},
+							pos:   position{line: 2162, col: 5, offset: 70194},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2161, col: 15, offset: 70181},
+								pos:  position{line: 2162, col: 15, offset: 70204},
 								name: "DoubleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2157, col: 38, offset: 70094},
+							pos:        position{line: 2158, col: 38, offset: 70117},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
@@ -42743,44 +42961,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElements",
-			pos:  position{line: 2166, col: 1, offset: 70347},
+			pos:  position{line: 2167, col: 1, offset: 70370},
 			expr: &zeroOrMoreExpr{
-				pos: position{line: 2166, col: 34, offset: 70380},
+				pos: position{line: 2167, col: 34, offset: 70403},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2166, col: 34, offset: 70380},
+					pos:  position{line: 2167, col: 34, offset: 70403},
 					name: "DoubleQuoteMarkedTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMarkedTextElement",
-			pos:  position{line: 2168, col: 1, offset: 70411},
+			pos:  position{line: 2169, col: 1, offset: 70434},
 			expr: &actionExpr{
-				pos: position{line: 2169, col: 5, offset: 70480},
+				pos: position{line: 2170, col: 5, offset: 70503},
 				run: (*parser).callonDoubleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2169, col: 5, offset: 70480},
+					pos: position{line: 2170, col: 5, offset: 70503},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2894, col: 11, offset: 91557},
+							pos: position{line: 2895, col: 11, offset: 91580},
 							expr: &anyMatcher{
-								line: 2894, col: 13, offset: 91559,
+								line: 2895, col: 13, offset: 91582,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2170, col: 5, offset: 70491},
+							pos: position{line: 2171, col: 5, offset: 70514},
 							expr: &litMatcher{
-								pos:        position{line: 2157, col: 38, offset: 70094},
+								pos:        position{line: 2158, col: 38, offset: 70117},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2171, col: 5, offset: 70530},
+							pos:   position{line: 2172, col: 5, offset: 70553},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2171, col: 14, offset: 70539},
+								pos:  position{line: 2172, col: 14, offset: 70562},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42790,29 +43008,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedText",
-			pos:  position{line: 2196, col: 1, offset: 71221},
+			pos:  position{line: 2197, col: 1, offset: 71244},
 			expr: &actionExpr{
-				pos: position{line: 2197, col: 5, offset: 71251},
+				pos: position{line: 2198, col: 5, offset: 71274},
 				run: (*parser).callonSingleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2197, col: 5, offset: 71251},
+					pos: position{line: 2198, col: 5, offset: 71274},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2180, col: 5, offset: 70787},
+							pos:        position{line: 2181, col: 5, offset: 70810},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2181, col: 5, offset: 70796},
+							pos: position{line: 2182, col: 5, offset: 70819},
 							run: (*parser).callonSingleQuoteMarkedText4,
 						},
 						&andExpr{
-							pos: position{line: 2185, col: 5, offset: 70916},
+							pos: position{line: 2186, col: 5, offset: 70939},
 							expr: &notExpr{
-								pos: position{line: 2185, col: 7, offset: 70918},
+								pos: position{line: 2186, col: 7, offset: 70941},
 								expr: &litMatcher{
-									pos:        position{line: 2185, col: 8, offset: 70919},
+									pos:        position{line: 2186, col: 8, offset: 70942},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -42820,38 +43038,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2198, col: 5, offset: 71291},
+							pos:   position{line: 2199, col: 5, offset: 71314},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2198, col: 15, offset: 71301},
+								pos:  position{line: 2199, col: 15, offset: 71324},
 								name: "SingleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2188, col: 5, offset: 71024},
+							pos:        position{line: 2189, col: 5, offset: 71047},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&notExpr{
-							pos: position{line: 2189, col: 5, offset: 71032},
+							pos: position{line: 2190, col: 5, offset: 71055},
 							expr: &litMatcher{
-								pos:        position{line: 2189, col: 6, offset: 71033},
+								pos:        position{line: 2190, col: 6, offset: 71056},
 								val:        "#",
 								ignoreCase: false,
 								want:       "\"#\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2190, col: 5, offset: 71096},
+							pos: position{line: 2191, col: 5, offset: 71119},
 							run: (*parser).callonSingleQuoteMarkedText13,
 						},
 						&andExpr{
-							pos: position{line: 2194, col: 5, offset: 71207},
+							pos: position{line: 2195, col: 5, offset: 71230},
 							expr: &notExpr{
-								pos: position{line: 2194, col: 7, offset: 71209},
+								pos: position{line: 2195, col: 7, offset: 71232},
 								expr: &charClassMatcher{
-									pos:        position{line: 2767, col: 13, offset: 88297},
+									pos:        position{line: 2768, col: 13, offset: 88320},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -42865,20 +43083,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElements",
-			pos:  position{line: 2203, col: 1, offset: 71468},
+			pos:  position{line: 2204, col: 1, offset: 71491},
 			expr: &actionExpr{
-				pos: position{line: 2204, col: 5, offset: 71506},
+				pos: position{line: 2205, col: 5, offset: 71529},
 				run: (*parser).callonSingleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2204, col: 5, offset: 71506},
+					pos: position{line: 2205, col: 5, offset: 71529},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2204, col: 5, offset: 71506},
+							pos: position{line: 2205, col: 5, offset: 71529},
 							expr: &actionExpr{
-								pos: position{line: 2877, col: 10, offset: 91223},
+								pos: position{line: 2878, col: 10, offset: 91246},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2877, col: 10, offset: 91223},
+									pos:        position{line: 2878, col: 10, offset: 91246},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42887,18 +43105,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2205, col: 5, offset: 71545},
+							pos:   position{line: 2206, col: 5, offset: 71568},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2205, col: 14, offset: 71554},
+								pos: position{line: 2206, col: 14, offset: 71577},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2205, col: 15, offset: 71555},
+									pos:  position{line: 2206, col: 15, offset: 71578},
 									name: "SingleQuoteMarkedTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2206, col: 5, offset: 71591},
+							pos: position{line: 2207, col: 5, offset: 71614},
 							run: (*parser).callonSingleQuoteMarkedTextElements9,
 						},
 					},
@@ -42907,49 +43125,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElement",
-			pos:  position{line: 2212, col: 1, offset: 71732},
+			pos:  position{line: 2213, col: 1, offset: 71755},
 			expr: &actionExpr{
-				pos: position{line: 2213, col: 5, offset: 71769},
+				pos: position{line: 2214, col: 5, offset: 71792},
 				run: (*parser).callonSingleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2213, col: 5, offset: 71769},
+					pos: position{line: 2214, col: 5, offset: 71792},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2894, col: 11, offset: 91557},
+							pos: position{line: 2895, col: 11, offset: 91580},
 							expr: &anyMatcher{
-								line: 2894, col: 13, offset: 91559,
+								line: 2895, col: 13, offset: 91582,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2214, col: 5, offset: 71780},
+							pos: position{line: 2215, col: 5, offset: 71803},
 							expr: &seqExpr{
-								pos: position{line: 2188, col: 5, offset: 71024},
+								pos: position{line: 2189, col: 5, offset: 71047},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2188, col: 5, offset: 71024},
+										pos:        position{line: 2189, col: 5, offset: 71047},
 										val:        "#",
 										ignoreCase: false,
 										want:       "\"#\"",
 									},
 									&notExpr{
-										pos: position{line: 2189, col: 5, offset: 71032},
+										pos: position{line: 2190, col: 5, offset: 71055},
 										expr: &litMatcher{
-											pos:        position{line: 2189, col: 6, offset: 71033},
+											pos:        position{line: 2190, col: 6, offset: 71056},
 											val:        "#",
 											ignoreCase: false,
 											want:       "\"#\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2190, col: 5, offset: 71096},
+										pos: position{line: 2191, col: 5, offset: 71119},
 										run: (*parser).callonSingleQuoteMarkedTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2194, col: 5, offset: 71207},
+										pos: position{line: 2195, col: 5, offset: 71230},
 										expr: &notExpr{
-											pos: position{line: 2194, col: 7, offset: 71209},
+											pos: position{line: 2195, col: 7, offset: 71232},
 											expr: &charClassMatcher{
-												pos:        position{line: 2767, col: 13, offset: 88297},
+												pos:        position{line: 2768, col: 13, offset: 88320},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42961,10 +43179,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2215, col: 5, offset: 71819},
+							pos:   position{line: 2216, col: 5, offset: 71842},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2215, col: 14, offset: 71828},
+								pos:  position{line: 2216, col: 14, offset: 71851},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42974,35 +43192,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMarkedText",
-			pos:  position{line: 2220, col: 1, offset: 71916},
+			pos:  position{line: 2221, col: 1, offset: 71939},
 			expr: &choiceExpr{
-				pos: position{line: 2222, col: 5, offset: 71980},
+				pos: position{line: 2223, col: 5, offset: 72003},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2222, col: 5, offset: 71980},
+						pos: position{line: 2223, col: 5, offset: 72003},
 						run: (*parser).callonEscapedMarkedText2,
 						expr: &seqExpr{
-							pos: position{line: 2222, col: 5, offset: 71980},
+							pos: position{line: 2223, col: 5, offset: 72003},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2222, col: 5, offset: 71980},
+									pos:   position{line: 2223, col: 5, offset: 72003},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1857, col: 25, offset: 60184},
+										pos: position{line: 1858, col: 25, offset: 60207},
 										run: (*parser).callonEscapedMarkedText5,
 										expr: &seqExpr{
-											pos: position{line: 1857, col: 25, offset: 60184},
+											pos: position{line: 1858, col: 25, offset: 60207},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1857, col: 25, offset: 60184},
+													pos:        position{line: 1858, col: 25, offset: 60207},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1857, col: 30, offset: 60189},
+													pos: position{line: 1858, col: 30, offset: 60212},
 													expr: &litMatcher{
-														pos:        position{line: 1857, col: 30, offset: 60189},
+														pos:        position{line: 1858, col: 30, offset: 60212},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -43013,21 +43231,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2222, col: 40, offset: 72015},
+									pos:        position{line: 2223, col: 40, offset: 72038},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2222, col: 45, offset: 72020},
+									pos:   position{line: 2223, col: 45, offset: 72043},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2222, col: 55, offset: 72030},
+										pos:  position{line: 2223, col: 55, offset: 72053},
 										name: "DoubleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2222, col: 86, offset: 72061},
+									pos:        position{line: 2223, col: 86, offset: 72084},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
@@ -43036,21 +43254,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2226, col: 7, offset: 72226},
+						pos: position{line: 2227, col: 7, offset: 72249},
 						run: (*parser).callonEscapedMarkedText14,
 						expr: &seqExpr{
-							pos: position{line: 2226, col: 7, offset: 72226},
+							pos: position{line: 2227, col: 7, offset: 72249},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2226, col: 7, offset: 72226},
+									pos:   position{line: 2227, col: 7, offset: 72249},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1853, col: 25, offset: 60111},
+										pos: position{line: 1854, col: 25, offset: 60134},
 										run: (*parser).callonEscapedMarkedText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1853, col: 25, offset: 60111},
+											pos: position{line: 1854, col: 25, offset: 60134},
 											expr: &litMatcher{
-												pos:        position{line: 1853, col: 25, offset: 60111},
+												pos:        position{line: 1854, col: 25, offset: 60134},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43059,21 +43277,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2226, col: 42, offset: 72261},
+									pos:        position{line: 2227, col: 42, offset: 72284},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2226, col: 47, offset: 72266},
+									pos:   position{line: 2227, col: 47, offset: 72289},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2226, col: 57, offset: 72276},
+										pos:  position{line: 2227, col: 57, offset: 72299},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2226, col: 88, offset: 72307},
+									pos:        position{line: 2227, col: 88, offset: 72330},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -43082,21 +43300,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2231, col: 7, offset: 72510},
+						pos: position{line: 2232, col: 7, offset: 72533},
 						run: (*parser).callonEscapedMarkedText24,
 						expr: &seqExpr{
-							pos: position{line: 2231, col: 7, offset: 72510},
+							pos: position{line: 2232, col: 7, offset: 72533},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2231, col: 7, offset: 72510},
+									pos:   position{line: 2232, col: 7, offset: 72533},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1853, col: 25, offset: 60111},
+										pos: position{line: 1854, col: 25, offset: 60134},
 										run: (*parser).callonEscapedMarkedText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1853, col: 25, offset: 60111},
+											pos: position{line: 1854, col: 25, offset: 60134},
 											expr: &litMatcher{
-												pos:        position{line: 1853, col: 25, offset: 60111},
+												pos:        position{line: 1854, col: 25, offset: 60134},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43105,21 +43323,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2231, col: 42, offset: 72545},
+									pos:        position{line: 2232, col: 42, offset: 72568},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2231, col: 46, offset: 72549},
+									pos:   position{line: 2232, col: 46, offset: 72572},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2231, col: 56, offset: 72559},
+										pos:  position{line: 2232, col: 56, offset: 72582},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2231, col: 87, offset: 72590},
+									pos:        position{line: 2232, col: 87, offset: 72613},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -43132,29 +43350,29 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptText",
-			pos:  position{line: 2238, col: 1, offset: 72857},
+			pos:  position{line: 2239, col: 1, offset: 72880},
 			expr: &actionExpr{
-				pos: position{line: 2239, col: 5, offset: 72879},
+				pos: position{line: 2240, col: 5, offset: 72902},
 				run: (*parser).callonSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2239, col: 5, offset: 72879},
+					pos: position{line: 2240, col: 5, offset: 72902},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2245, col: 27, offset: 73094},
+							pos:        position{line: 2246, col: 27, offset: 73117},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2240, col: 5, offset: 72906},
+							pos:   position{line: 2241, col: 5, offset: 72929},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2240, col: 14, offset: 72915},
+								pos:  position{line: 2241, col: 14, offset: 72938},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2245, col: 27, offset: 73094},
+							pos:        position{line: 2246, col: 27, offset: 73117},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -43165,43 +43383,43 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptTextElement",
-			pos:  position{line: 2247, col: 1, offset: 73099},
+			pos:  position{line: 2248, col: 1, offset: 73122},
 			expr: &choiceExpr{
-				pos: position{line: 2247, col: 25, offset: 73123},
+				pos: position{line: 2248, col: 25, offset: 73146},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2247, col: 25, offset: 73123},
+						pos:  position{line: 2248, col: 25, offset: 73146},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2249, col: 21, offset: 73175},
+						pos: position{line: 2250, col: 21, offset: 73198},
 						run: (*parser).callonSubscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2249, col: 21, offset: 73175},
+							pos:   position{line: 2250, col: 21, offset: 73198},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2249, col: 30, offset: 73184},
+								pos: position{line: 2250, col: 30, offset: 73207},
 								expr: &choiceExpr{
-									pos: position{line: 2249, col: 31, offset: 73185},
+									pos: position{line: 2250, col: 31, offset: 73208},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2471, col: 5, offset: 79655},
+											pos: position{line: 2472, col: 5, offset: 79678},
 											run: (*parser).callonSubscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2471, col: 5, offset: 79655},
+												pos: position{line: 2472, col: 5, offset: 79678},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2471, col: 5, offset: 79655},
+														pos: position{line: 2472, col: 5, offset: 79678},
 														run: (*parser).callonSubscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2474, col: 5, offset: 79731},
+														pos:   position{line: 2475, col: 5, offset: 79754},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2475, col: 9, offset: 79749},
+															pos: position{line: 2476, col: 9, offset: 79772},
 															run: (*parser).callonSubscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2475, col: 10, offset: 79750},
+																pos:        position{line: 2476, col: 10, offset: 79773},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -43213,7 +43431,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2249, col: 50, offset: 73204},
+											pos:        position{line: 2250, col: 50, offset: 73227},
 											val:        "[^\\r\\n ~]",
 											chars:      []rune{'\r', '\n', ' ', '~'},
 											ignoreCase: false,
@@ -43229,23 +43447,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2253, col: 1, offset: 73254},
+			pos:  position{line: 2254, col: 1, offset: 73277},
 			expr: &actionExpr{
-				pos: position{line: 2255, col: 5, offset: 73321},
+				pos: position{line: 2256, col: 5, offset: 73344},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2255, col: 5, offset: 73321},
+					pos: position{line: 2256, col: 5, offset: 73344},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2255, col: 5, offset: 73321},
+							pos:   position{line: 2256, col: 5, offset: 73344},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1853, col: 25, offset: 60111},
+								pos: position{line: 1854, col: 25, offset: 60134},
 								run: (*parser).callonEscapedSubscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1853, col: 25, offset: 60111},
+									pos: position{line: 1854, col: 25, offset: 60134},
 									expr: &litMatcher{
-										pos:        position{line: 1853, col: 25, offset: 60111},
+										pos:        position{line: 1854, col: 25, offset: 60134},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -43254,21 +43472,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2245, col: 27, offset: 73094},
+							pos:        position{line: 2246, col: 27, offset: 73117},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2257, col: 5, offset: 73389},
+							pos:   position{line: 2258, col: 5, offset: 73412},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2257, col: 14, offset: 73398},
+								pos:  position{line: 2258, col: 14, offset: 73421},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2245, col: 27, offset: 73094},
+							pos:        position{line: 2246, col: 27, offset: 73117},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -43279,29 +43497,29 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2265, col: 1, offset: 73661},
+			pos:  position{line: 2266, col: 1, offset: 73684},
 			expr: &actionExpr{
-				pos: position{line: 2266, col: 5, offset: 73685},
+				pos: position{line: 2267, col: 5, offset: 73708},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2266, col: 5, offset: 73685},
+					pos: position{line: 2267, col: 5, offset: 73708},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2272, col: 29, offset: 73912},
+							pos:        position{line: 2273, col: 29, offset: 73935},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2267, col: 5, offset: 73715},
+							pos:   position{line: 2268, col: 5, offset: 73738},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2267, col: 14, offset: 73724},
+								pos:  position{line: 2268, col: 14, offset: 73747},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2272, col: 29, offset: 73912},
+							pos:        position{line: 2273, col: 29, offset: 73935},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -43312,43 +43530,43 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2274, col: 1, offset: 73917},
+			pos:  position{line: 2275, col: 1, offset: 73940},
 			expr: &choiceExpr{
-				pos: position{line: 2274, col: 27, offset: 73943},
+				pos: position{line: 2275, col: 27, offset: 73966},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2274, col: 27, offset: 73943},
+						pos:  position{line: 2275, col: 27, offset: 73966},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2276, col: 23, offset: 73999},
+						pos: position{line: 2277, col: 23, offset: 74022},
 						run: (*parser).callonSuperscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2276, col: 23, offset: 73999},
+							pos:   position{line: 2277, col: 23, offset: 74022},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2276, col: 32, offset: 74008},
+								pos: position{line: 2277, col: 32, offset: 74031},
 								expr: &choiceExpr{
-									pos: position{line: 2276, col: 33, offset: 74009},
+									pos: position{line: 2277, col: 33, offset: 74032},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2471, col: 5, offset: 79655},
+											pos: position{line: 2472, col: 5, offset: 79678},
 											run: (*parser).callonSuperscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2471, col: 5, offset: 79655},
+												pos: position{line: 2472, col: 5, offset: 79678},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2471, col: 5, offset: 79655},
+														pos: position{line: 2472, col: 5, offset: 79678},
 														run: (*parser).callonSuperscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2474, col: 5, offset: 79731},
+														pos:   position{line: 2475, col: 5, offset: 79754},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2475, col: 9, offset: 79749},
+															pos: position{line: 2476, col: 9, offset: 79772},
 															run: (*parser).callonSuperscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2475, col: 10, offset: 79750},
+																pos:        position{line: 2476, col: 10, offset: 79773},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -43360,7 +43578,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2276, col: 52, offset: 74028},
+											pos:        position{line: 2277, col: 52, offset: 74051},
 											val:        "[^\\r\\n ^]",
 											chars:      []rune{'\r', '\n', ' ', '^'},
 											ignoreCase: false,
@@ -43376,23 +43594,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2280, col: 1, offset: 74078},
+			pos:  position{line: 2281, col: 1, offset: 74101},
 			expr: &actionExpr{
-				pos: position{line: 2282, col: 5, offset: 74150},
+				pos: position{line: 2283, col: 5, offset: 74173},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2282, col: 5, offset: 74150},
+					pos: position{line: 2283, col: 5, offset: 74173},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2282, col: 5, offset: 74150},
+							pos:   position{line: 2283, col: 5, offset: 74173},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1853, col: 25, offset: 60111},
+								pos: position{line: 1854, col: 25, offset: 60134},
 								run: (*parser).callonEscapedSuperscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1853, col: 25, offset: 60111},
+									pos: position{line: 1854, col: 25, offset: 60134},
 									expr: &litMatcher{
-										pos:        position{line: 1853, col: 25, offset: 60111},
+										pos:        position{line: 1854, col: 25, offset: 60134},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -43401,21 +43619,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2272, col: 29, offset: 73912},
+							pos:        position{line: 2273, col: 29, offset: 73935},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2284, col: 5, offset: 74220},
+							pos:   position{line: 2285, col: 5, offset: 74243},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2284, col: 14, offset: 74229},
+								pos:  position{line: 2285, col: 14, offset: 74252},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2272, col: 29, offset: 73912},
+							pos:        position{line: 2273, col: 29, offset: 73935},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -43426,27 +43644,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2293, col: 1, offset: 74698},
+			pos:  position{line: 2294, col: 1, offset: 74721},
 			expr: &actionExpr{
-				pos: position{line: 2294, col: 5, offset: 74714},
+				pos: position{line: 2295, col: 5, offset: 74737},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2294, col: 5, offset: 74714},
+					pos: position{line: 2295, col: 5, offset: 74737},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2294, col: 5, offset: 74714},
+							pos: position{line: 2295, col: 5, offset: 74737},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2297, col: 5, offset: 74777},
+							pos:   position{line: 2298, col: 5, offset: 74800},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2297, col: 12, offset: 74784},
+								pos: position{line: 2298, col: 12, offset: 74807},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2297, col: 12, offset: 74784},
+									pos: position{line: 2298, col: 12, offset: 74807},
 									expr: &litMatcher{
-										pos:        position{line: 2297, col: 13, offset: 74785},
+										pos:        position{line: 2298, col: 13, offset: 74808},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -43455,16 +43673,16 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2301, col: 5, offset: 74893},
+							pos: position{line: 2302, col: 5, offset: 74916},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2881, col: 11, offset: 91284},
+							pos: position{line: 2882, col: 11, offset: 91307},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2881, col: 11, offset: 91284},
+								pos: position{line: 2882, col: 11, offset: 91307},
 								expr: &charClassMatcher{
-									pos:        position{line: 2881, col: 11, offset: 91284},
+									pos:        position{line: 2882, col: 11, offset: 91307},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43473,36 +43691,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2305, col: 12, offset: 75052},
+							pos:   position{line: 2306, col: 12, offset: 75075},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2305, col: 19, offset: 75059},
+								pos:  position{line: 2306, col: 19, offset: 75082},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2899, col: 8, offset: 91621},
+							pos: position{line: 2900, col: 8, offset: 91644},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2886, col: 12, offset: 91394},
+									pos: position{line: 2887, col: 12, offset: 91417},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2886, col: 13, offset: 91395},
+										pos: position{line: 2887, col: 13, offset: 91418},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2886, col: 13, offset: 91395},
+												pos:        position{line: 2887, col: 13, offset: 91418},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2886, col: 20, offset: 91402},
+												pos:        position{line: 2887, col: 20, offset: 91425},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2886, col: 29, offset: 91411},
+												pos:        position{line: 2887, col: 29, offset: 91434},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -43511,9 +43729,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2896, col: 8, offset: 91571},
+									pos: position{line: 2897, col: 8, offset: 91594},
 									expr: &anyMatcher{
-										line: 2896, col: 9, offset: 91572,
+										line: 2897, col: 9, offset: 91595,
 									},
 								},
 							},
@@ -43524,24 +43742,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2309, col: 1, offset: 75155},
+			pos:  position{line: 2310, col: 1, offset: 75178},
 			expr: &actionExpr{
-				pos: position{line: 2310, col: 5, offset: 75176},
+				pos: position{line: 2311, col: 5, offset: 75199},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2310, col: 5, offset: 75176},
+					pos: position{line: 2311, col: 5, offset: 75199},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2310, col: 5, offset: 75176},
+							pos: position{line: 2311, col: 5, offset: 75199},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2315, col: 5, offset: 75291},
+							pos:   position{line: 2316, col: 5, offset: 75314},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2315, col: 14, offset: 75300},
+								pos: position{line: 2316, col: 14, offset: 75323},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2315, col: 15, offset: 75301},
+									pos:  position{line: 2316, col: 15, offset: 75324},
 									name: "SectionTitleElement",
 								},
 							},
@@ -43552,38 +43770,38 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2319, col: 1, offset: 75382},
+			pos:  position{line: 2320, col: 1, offset: 75405},
 			expr: &actionExpr{
-				pos: position{line: 2320, col: 5, offset: 75409},
+				pos: position{line: 2321, col: 5, offset: 75432},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2320, col: 5, offset: 75409},
+					pos: position{line: 2321, col: 5, offset: 75432},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2320, col: 5, offset: 75409},
+							pos: position{line: 2321, col: 5, offset: 75432},
 							expr: &choiceExpr{
-								pos: position{line: 2899, col: 8, offset: 91621},
+								pos: position{line: 2900, col: 8, offset: 91644},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2886, col: 12, offset: 91394},
+										pos: position{line: 2887, col: 12, offset: 91417},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2886, col: 13, offset: 91395},
+											pos: position{line: 2887, col: 13, offset: 91418},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2886, col: 13, offset: 91395},
+													pos:        position{line: 2887, col: 13, offset: 91418},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2886, col: 20, offset: 91402},
+													pos:        position{line: 2887, col: 20, offset: 91425},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2886, col: 29, offset: 91411},
+													pos:        position{line: 2887, col: 29, offset: 91434},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -43592,29 +43810,29 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2896, col: 8, offset: 91571},
+										pos: position{line: 2897, col: 8, offset: 91594},
 										expr: &anyMatcher{
-											line: 2896, col: 9, offset: 91572,
+											line: 2897, col: 9, offset: 91595,
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2321, col: 5, offset: 75418},
+							pos:   position{line: 2322, col: 5, offset: 75441},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2321, col: 14, offset: 75427},
+								pos: position{line: 2322, col: 14, offset: 75450},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2321, col: 14, offset: 75427},
+										pos:  position{line: 2322, col: 14, offset: 75450},
 										name: "SectionTitleLineElement",
 									},
 									&actionExpr{
-										pos: position{line: 2816, col: 12, offset: 89531},
+										pos: position{line: 2817, col: 12, offset: 89554},
 										run: (*parser).callonSectionTitleElement15,
 										expr: &charClassMatcher{
-											pos:        position{line: 2816, col: 12, offset: 89531},
+											pos:        position{line: 2817, col: 12, offset: 89554},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -43630,21 +43848,21 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleLineElement",
-			pos:  position{line: 2326, col: 1, offset: 75531},
+			pos:  position{line: 2327, col: 1, offset: 75554},
 			expr: &actionExpr{
-				pos: position{line: 2327, col: 5, offset: 75562},
+				pos: position{line: 2328, col: 5, offset: 75585},
 				run: (*parser).callonSectionTitleLineElement1,
 				expr: &seqExpr{
-					pos: position{line: 2327, col: 5, offset: 75562},
+					pos: position{line: 2328, col: 5, offset: 75585},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2327, col: 5, offset: 75562},
+							pos:   position{line: 2328, col: 5, offset: 75585},
 							label: "start",
 							expr: &actionExpr{
-								pos: position{line: 2902, col: 16, offset: 91745},
+								pos: position{line: 2903, col: 16, offset: 91768},
 								run: (*parser).callonSectionTitleLineElement4,
 								expr: &litMatcher{
-									pos:        position{line: 2902, col: 16, offset: 91745},
+									pos:        position{line: 2903, col: 16, offset: 91768},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -43652,27 +43870,27 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2328, col: 5, offset: 75586},
+							pos:   position{line: 2329, col: 5, offset: 75609},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2329, col: 9, offset: 75604},
+								pos: position{line: 2330, col: 9, offset: 75627},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2776, col: 5, offset: 88444},
+										pos: position{line: 2777, col: 5, offset: 88467},
 										run: (*parser).callonSectionTitleLineElement8,
 										expr: &seqExpr{
-											pos: position{line: 2776, col: 5, offset: 88444},
+											pos: position{line: 2777, col: 5, offset: 88467},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2776, col: 5, offset: 88444},
+													pos:   position{line: 2777, col: 5, offset: 88467},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2776, col: 11, offset: 88450},
+														pos: position{line: 2777, col: 11, offset: 88473},
 														run: (*parser).callonSectionTitleLineElement11,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2776, col: 11, offset: 88450},
+															pos: position{line: 2777, col: 11, offset: 88473},
 															expr: &charClassMatcher{
-																pos:        position{line: 2776, col: 11, offset: 88450},
+																pos:        position{line: 2777, col: 11, offset: 88473},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -43682,44 +43900,44 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2779, col: 5, offset: 88508},
+													pos: position{line: 2780, col: 5, offset: 88531},
 													expr: &seqExpr{
-														pos: position{line: 2780, col: 9, offset: 88519},
+														pos: position{line: 2781, col: 9, offset: 88542},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2780, col: 9, offset: 88519},
+																pos:        position{line: 2781, col: 9, offset: 88542},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2781, col: 9, offset: 88568},
+																pos: position{line: 2782, col: 9, offset: 88591},
 																run: (*parser).callonSectionTitleLineElement17,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2785, col: 5, offset: 88648},
+													pos: position{line: 2786, col: 5, offset: 88671},
 													expr: &seqExpr{
-														pos: position{line: 2786, col: 9, offset: 88659},
+														pos: position{line: 2787, col: 9, offset: 88682},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2786, col: 9, offset: 88659},
+																pos: position{line: 2787, col: 9, offset: 88682},
 																expr: &seqExpr{
-																	pos: position{line: 2786, col: 10, offset: 88660},
+																	pos: position{line: 2787, col: 10, offset: 88683},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2786, col: 10, offset: 88660},
+																			pos:        position{line: 2787, col: 10, offset: 88683},
 																			val:        "[._%+-]",
 																			chars:      []rune{'.', '_', '%', '+', '-'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2786, col: 18, offset: 88668},
+																			pos: position{line: 2787, col: 18, offset: 88691},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2786, col: 18, offset: 88668},
+																				pos:        position{line: 2787, col: 18, offset: 88691},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -43730,13 +43948,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2786, col: 30, offset: 88680},
+																pos:        position{line: 2787, col: 30, offset: 88703},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2786, col: 34, offset: 88684},
+																pos:        position{line: 2787, col: 34, offset: 88707},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -43749,12 +43967,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2881, col: 11, offset: 91284},
+										pos: position{line: 2882, col: 11, offset: 91307},
 										run: (*parser).callonSectionTitleLineElement27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2881, col: 11, offset: 91284},
+											pos: position{line: 2882, col: 11, offset: 91307},
 											expr: &charClassMatcher{
-												pos:        position{line: 2881, col: 11, offset: 91284},
+												pos:        position{line: 2882, col: 11, offset: 91307},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -43763,25 +43981,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2502, col: 5, offset: 80826},
+										pos: position{line: 2503, col: 5, offset: 80849},
 										run: (*parser).callonSectionTitleLineElement30,
 										expr: &seqExpr{
-											pos: position{line: 2502, col: 5, offset: 80826},
+											pos: position{line: 2503, col: 5, offset: 80849},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2502, col: 5, offset: 80826},
+													pos: position{line: 2503, col: 5, offset: 80849},
 													run: (*parser).callonSectionTitleLineElement32,
 												},
 												&litMatcher{
-													pos:        position{line: 2505, col: 5, offset: 80897},
+													pos:        position{line: 2506, col: 5, offset: 80920},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2505, col: 10, offset: 80902},
+													pos: position{line: 2506, col: 10, offset: 80925},
 													expr: &charClassMatcher{
-														pos:        position{line: 2505, col: 11, offset: 80903},
+														pos:        position{line: 2506, col: 11, offset: 80926},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -43792,29 +44010,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2511, col: 5, offset: 81095},
+										pos: position{line: 2512, col: 5, offset: 81118},
 										run: (*parser).callonSectionTitleLineElement36,
 										expr: &seqExpr{
-											pos: position{line: 2511, col: 5, offset: 81095},
+											pos: position{line: 2512, col: 5, offset: 81118},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2511, col: 5, offset: 81095},
+													pos: position{line: 2512, col: 5, offset: 81118},
 													run: (*parser).callonSectionTitleLineElement38,
 												},
 												&andCodeExpr{
-													pos: position{line: 2514, col: 5, offset: 81166},
+													pos: position{line: 2515, col: 5, offset: 81189},
 													run: (*parser).callonSectionTitleLineElement39,
 												},
 												&litMatcher{
-													pos:        position{line: 2518, col: 5, offset: 81291},
+													pos:        position{line: 2519, col: 5, offset: 81314},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2518, col: 9, offset: 81295},
+													pos: position{line: 2519, col: 9, offset: 81318},
 													expr: &charClassMatcher{
-														pos:        position{line: 2518, col: 10, offset: 81296},
+														pos:        position{line: 2519, col: 10, offset: 81319},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -43825,31 +44043,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2332, col: 11, offset: 75669},
+										pos:  position{line: 2333, col: 11, offset: 75692},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2794, col: 5, offset: 88877},
+										pos: position{line: 2795, col: 5, offset: 88900},
 										run: (*parser).callonSectionTitleLineElement44,
 										expr: &choiceExpr{
-											pos: position{line: 2795, col: 9, offset: 88887},
+											pos: position{line: 2796, col: 9, offset: 88910},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2795, col: 10, offset: 88888},
+													pos:        position{line: 2796, col: 10, offset: 88911},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2797, col: 13, offset: 88985},
+													pos: position{line: 2798, col: 13, offset: 89008},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2797, col: 13, offset: 88985},
+															pos: position{line: 2798, col: 13, offset: 89008},
 															run: (*parser).callonSectionTitleLineElement48,
 														},
 														&litMatcher{
-															pos:        position{line: 2800, col: 13, offset: 89085},
+															pos:        position{line: 2801, col: 13, offset: 89108},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -43857,20 +44075,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2800, col: 19, offset: 89091},
+													pos:        position{line: 2801, col: 19, offset: 89114},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2803, col: 13, offset: 89129},
+													pos: position{line: 2804, col: 13, offset: 89152},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2803, col: 13, offset: 89129},
+															pos: position{line: 2804, col: 13, offset: 89152},
 															run: (*parser).callonSectionTitleLineElement52,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2806, col: 14, offset: 89222},
+															pos:        position{line: 2807, col: 14, offset: 89245},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -43879,18 +44097,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2808, col: 12, offset: 89266},
+													pos: position{line: 2809, col: 12, offset: 89289},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2808, col: 12, offset: 89266},
+															pos:        position{line: 2809, col: 12, offset: 89289},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2808, col: 16, offset: 89270},
+															pos: position{line: 2809, col: 16, offset: 89293},
 															expr: &litMatcher{
-																pos:        position{line: 2808, col: 17, offset: 89271},
+																pos:        position{line: 2809, col: 17, offset: 89294},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -43902,35 +44120,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2334, col: 11, offset: 75742},
+										pos:  position{line: 2335, col: 11, offset: 75765},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2335, col: 11, offset: 75758},
+										pos:  position{line: 2336, col: 11, offset: 75781},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2336, col: 11, offset: 75786},
+										pos:  position{line: 2337, col: 11, offset: 75809},
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2471, col: 5, offset: 79655},
+										pos: position{line: 2472, col: 5, offset: 79678},
 										run: (*parser).callonSectionTitleLineElement61,
 										expr: &seqExpr{
-											pos: position{line: 2471, col: 5, offset: 79655},
+											pos: position{line: 2472, col: 5, offset: 79678},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2471, col: 5, offset: 79655},
+													pos: position{line: 2472, col: 5, offset: 79678},
 													run: (*parser).callonSectionTitleLineElement63,
 												},
 												&labeledExpr{
-													pos:   position{line: 2474, col: 5, offset: 79731},
+													pos:   position{line: 2475, col: 5, offset: 79754},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2475, col: 9, offset: 79749},
+														pos: position{line: 2476, col: 9, offset: 79772},
 														run: (*parser).callonSectionTitleLineElement65,
 														expr: &charClassMatcher{
-															pos:        position{line: 2475, col: 10, offset: 79750},
+															pos:        position{line: 2476, col: 10, offset: 79773},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -43942,7 +44160,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2338, col: 11, offset: 75871},
+										pos:  position{line: 2339, col: 11, offset: 75894},
 										name: "InlineIcon",
 									},
 									&actionExpr{
@@ -44292,27 +44510,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1198, col: 23, offset: 37013},
+										pos: position{line: 1199, col: 23, offset: 37036},
 										run: (*parser).callonSectionTitleLineElement137,
 										expr: &seqExpr{
-											pos: position{line: 1198, col: 23, offset: 37013},
+											pos: position{line: 1199, col: 23, offset: 37036},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1196, col: 32, offset: 36981},
+													pos:        position{line: 1197, col: 32, offset: 37004},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1198, col: 51, offset: 37041},
+													pos:   position{line: 1199, col: 51, offset: 37064},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1198, col: 56, offset: 37046},
+														pos: position{line: 1199, col: 56, offset: 37069},
 														run: (*parser).callonSectionTitleLineElement141,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1198, col: 56, offset: 37046},
+															pos: position{line: 1199, col: 56, offset: 37069},
 															expr: &charClassMatcher{
-																pos:        position{line: 1198, col: 56, offset: 37046},
+																pos:        position{line: 1199, col: 56, offset: 37069},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -44322,30 +44540,30 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1196, col: 32, offset: 36981},
+													pos:        position{line: 1197, col: 32, offset: 37004},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&andCodeExpr{
-													pos: position{line: 1199, col: 5, offset: 37118},
+													pos: position{line: 1200, col: 5, offset: 37141},
 													run: (*parser).callonSectionTitleLineElement145,
 												},
 											},
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2354, col: 5, offset: 76365},
+										pos: position{line: 2355, col: 5, offset: 76388},
 										run: (*parser).callonSectionTitleLineElement146,
 										expr: &seqExpr{
-											pos: position{line: 2354, col: 5, offset: 76365},
+											pos: position{line: 2355, col: 5, offset: 76388},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2354, col: 5, offset: 76365},
+													pos: position{line: 2355, col: 5, offset: 76388},
 													run: (*parser).callonSectionTitleLineElement148,
 												},
 												&labeledExpr{
-													pos:   position{line: 2357, col: 5, offset: 76420},
+													pos:   position{line: 2358, col: 5, offset: 76443},
 													label: "id",
 													expr: &actionExpr{
 														pos: position{line: 403, col: 5, offset: 12344},
@@ -44388,27 +44606,27 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 1198, col: 23, offset: 37013},
+																							pos: position{line: 1199, col: 23, offset: 37036},
 																							run: (*parser).callonSectionTitleLineElement161,
 																							expr: &seqExpr{
-																								pos: position{line: 1198, col: 23, offset: 37013},
+																								pos: position{line: 1199, col: 23, offset: 37036},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 1196, col: 32, offset: 36981},
+																										pos:        position{line: 1197, col: 32, offset: 37004},
 																										val:        "�",
 																										ignoreCase: false,
 																										want:       "\"�\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1198, col: 51, offset: 37041},
+																										pos:   position{line: 1199, col: 51, offset: 37064},
 																										label: "ref",
 																										expr: &actionExpr{
-																											pos: position{line: 1198, col: 56, offset: 37046},
+																											pos: position{line: 1199, col: 56, offset: 37069},
 																											run: (*parser).callonSectionTitleLineElement165,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1198, col: 56, offset: 37046},
+																												pos: position{line: 1199, col: 56, offset: 37069},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1198, col: 56, offset: 37046},
+																													pos:        position{line: 1199, col: 56, offset: 37069},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -44418,13 +44636,13 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1196, col: 32, offset: 36981},
+																										pos:        position{line: 1197, col: 32, offset: 37004},
 																										val:        "�",
 																										ignoreCase: false,
 																										want:       "\"�\"",
 																									},
 																									&andCodeExpr{
-																										pos: position{line: 1199, col: 5, offset: 37118},
+																										pos: position{line: 1200, col: 5, offset: 37141},
 																										run: (*parser).callonSectionTitleLineElement169,
 																									},
 																								},
@@ -44803,12 +45021,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2357, col: 26, offset: 76441},
+													pos: position{line: 2358, col: 26, offset: 76464},
 													expr: &actionExpr{
-														pos: position{line: 2877, col: 10, offset: 91223},
+														pos: position{line: 2878, col: 10, offset: 91246},
 														run: (*parser).callonSectionTitleLineElement243,
 														expr: &charClassMatcher{
-															pos:        position{line: 2877, col: 10, offset: 91223},
+															pos:        position{line: 2878, col: 10, offset: 91246},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -44817,30 +45035,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 2357, col: 33, offset: 76448},
+													pos: position{line: 2358, col: 33, offset: 76471},
 													expr: &choiceExpr{
-														pos: position{line: 2899, col: 8, offset: 91621},
+														pos: position{line: 2900, col: 8, offset: 91644},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2886, col: 12, offset: 91394},
+																pos: position{line: 2887, col: 12, offset: 91417},
 																run: (*parser).callonSectionTitleLineElement247,
 																expr: &choiceExpr{
-																	pos: position{line: 2886, col: 13, offset: 91395},
+																	pos: position{line: 2887, col: 13, offset: 91418},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 13, offset: 91395},
+																			pos:        position{line: 2887, col: 13, offset: 91418},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 20, offset: 91402},
+																			pos:        position{line: 2887, col: 20, offset: 91425},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2886, col: 29, offset: 91411},
+																			pos:        position{line: 2887, col: 29, offset: 91434},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -44849,9 +45067,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2896, col: 8, offset: 91571},
+																pos: position{line: 2897, col: 8, offset: 91594},
 																expr: &anyMatcher{
-																	line: 2896, col: 9, offset: 91572,
+																	line: 2897, col: 9, offset: 91595,
 																},
 															},
 														},
@@ -44861,27 +45079,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1257, col: 5, offset: 38876},
+										pos: position{line: 1258, col: 5, offset: 38899},
 										run: (*parser).callonSectionTitleLineElement254,
 										expr: &seqExpr{
-											pos: position{line: 1257, col: 5, offset: 38876},
+											pos: position{line: 1258, col: 5, offset: 38899},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1257, col: 5, offset: 38876},
+													pos:        position{line: 1258, col: 5, offset: 38899},
 													val:        "\\[[",
 													ignoreCase: false,
 													want:       "\"\\\\[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1257, col: 14, offset: 38885},
+													pos:   position{line: 1258, col: 14, offset: 38908},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2862, col: 7, offset: 90875},
+														pos: position{line: 2863, col: 7, offset: 90898},
 														run: (*parser).callonSectionTitleLineElement258,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2862, col: 7, offset: 90875},
+															pos: position{line: 2863, col: 7, offset: 90898},
 															expr: &charClassMatcher{
-																pos:        position{line: 2862, col: 7, offset: 90875},
+																pos:        position{line: 2863, col: 7, offset: 90898},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -44891,7 +45109,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1257, col: 22, offset: 38893},
+													pos:        position{line: 1258, col: 22, offset: 38916},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -44900,27 +45118,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1262, col: 5, offset: 39055},
+										pos: position{line: 1263, col: 5, offset: 39078},
 										run: (*parser).callonSectionTitleLineElement262,
 										expr: &seqExpr{
-											pos: position{line: 1262, col: 5, offset: 39055},
+											pos: position{line: 1263, col: 5, offset: 39078},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1262, col: 5, offset: 39055},
+													pos:        position{line: 1263, col: 5, offset: 39078},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1262, col: 10, offset: 39060},
+													pos:   position{line: 1263, col: 10, offset: 39083},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2862, col: 7, offset: 90875},
+														pos: position{line: 2863, col: 7, offset: 90898},
 														run: (*parser).callonSectionTitleLineElement266,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2862, col: 7, offset: 90875},
+															pos: position{line: 2863, col: 7, offset: 90898},
 															expr: &charClassMatcher{
-																pos:        position{line: 2862, col: 7, offset: 90875},
+																pos:        position{line: 2863, col: 7, offset: 90898},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -44930,7 +45148,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1262, col: 18, offset: 39068},
+													pos:        position{line: 1263, col: 18, offset: 39091},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -44939,20 +45157,20 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2343, col: 11, offset: 76125},
+										pos:  position{line: 2344, col: 11, offset: 76148},
 										name: "InlineFootnote",
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2344, col: 5, offset: 76145},
+							pos:   position{line: 2345, col: 5, offset: 76168},
 							label: "end",
 							expr: &actionExpr{
-								pos: position{line: 2902, col: 16, offset: 91745},
+								pos: position{line: 2903, col: 16, offset: 91768},
 								run: (*parser).callonSectionTitleLineElement272,
 								expr: &litMatcher{
-									pos:        position{line: 2902, col: 16, offset: 91745},
+									pos:        position{line: 2903, col: 16, offset: 91768},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -44960,7 +45178,7 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2345, col: 5, offset: 76167},
+							pos: position{line: 2346, col: 5, offset: 76190},
 							run: (*parser).callonSectionTitleLineElement274,
 						},
 					},
@@ -44969,52 +45187,52 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2367, col: 1, offset: 76710},
+			pos:  position{line: 2368, col: 1, offset: 76733},
 			expr: &actionExpr{
-				pos: position{line: 2368, col: 5, offset: 76797},
+				pos: position{line: 2369, col: 5, offset: 76820},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2368, col: 5, offset: 76797},
+					pos: position{line: 2369, col: 5, offset: 76820},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2368, col: 5, offset: 76797},
+							pos:   position{line: 2369, col: 5, offset: 76820},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2368, col: 14, offset: 76806},
+								pos: position{line: 2369, col: 14, offset: 76829},
 								expr: &actionExpr{
-									pos: position{line: 2370, col: 9, offset: 76832},
+									pos: position{line: 2371, col: 9, offset: 76855},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2370, col: 9, offset: 76832},
+										pos: position{line: 2371, col: 9, offset: 76855},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2894, col: 11, offset: 91557},
+												pos: position{line: 2895, col: 11, offset: 91580},
 												expr: &anyMatcher{
-													line: 2894, col: 13, offset: 91559,
+													line: 2895, col: 13, offset: 91582,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2371, col: 9, offset: 76847},
+												pos:   position{line: 2372, col: 9, offset: 76870},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2372, col: 13, offset: 76869},
+													pos: position{line: 2373, col: 13, offset: 76892},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2776, col: 5, offset: 88444},
+															pos: position{line: 2777, col: 5, offset: 88467},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2776, col: 5, offset: 88444},
+																pos: position{line: 2777, col: 5, offset: 88467},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 2776, col: 5, offset: 88444},
+																		pos:   position{line: 2777, col: 5, offset: 88467},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2776, col: 11, offset: 88450},
+																			pos: position{line: 2777, col: 11, offset: 88473},
 																			run: (*parser).callonNormalGroup14,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2776, col: 11, offset: 88450},
+																				pos: position{line: 2777, col: 11, offset: 88473},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2776, col: 11, offset: 88450},
+																					pos:        position{line: 2777, col: 11, offset: 88473},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -45024,44 +45242,44 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2779, col: 5, offset: 88508},
+																		pos: position{line: 2780, col: 5, offset: 88531},
 																		expr: &seqExpr{
-																			pos: position{line: 2780, col: 9, offset: 88519},
+																			pos: position{line: 2781, col: 9, offset: 88542},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2780, col: 9, offset: 88519},
+																					pos:        position{line: 2781, col: 9, offset: 88542},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2781, col: 9, offset: 88568},
+																					pos: position{line: 2782, col: 9, offset: 88591},
 																					run: (*parser).callonNormalGroup20,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2785, col: 5, offset: 88648},
+																		pos: position{line: 2786, col: 5, offset: 88671},
 																		expr: &seqExpr{
-																			pos: position{line: 2786, col: 9, offset: 88659},
+																			pos: position{line: 2787, col: 9, offset: 88682},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 2786, col: 9, offset: 88659},
+																					pos: position{line: 2787, col: 9, offset: 88682},
 																					expr: &seqExpr{
-																						pos: position{line: 2786, col: 10, offset: 88660},
+																						pos: position{line: 2787, col: 10, offset: 88683},
 																						exprs: []interface{}{
 																							&charClassMatcher{
-																								pos:        position{line: 2786, col: 10, offset: 88660},
+																								pos:        position{line: 2787, col: 10, offset: 88683},
 																								val:        "[._%+-]",
 																								chars:      []rune{'.', '_', '%', '+', '-'},
 																								ignoreCase: false,
 																								inverted:   false,
 																							},
 																							&oneOrMoreExpr{
-																								pos: position{line: 2786, col: 18, offset: 88668},
+																								pos: position{line: 2787, col: 18, offset: 88691},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2786, col: 18, offset: 88668},
+																									pos:        position{line: 2787, col: 18, offset: 88691},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -45072,13 +45290,13 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2786, col: 30, offset: 88680},
+																					pos:        position{line: 2787, col: 30, offset: 88703},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2786, col: 34, offset: 88684},
+																					pos:        position{line: 2787, col: 34, offset: 88707},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -45091,12 +45309,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2881, col: 11, offset: 91284},
+															pos: position{line: 2882, col: 11, offset: 91307},
 															run: (*parser).callonNormalGroup30,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2881, col: 11, offset: 91284},
+																pos: position{line: 2882, col: 11, offset: 91307},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2881, col: 11, offset: 91284},
+																	pos:        position{line: 2882, col: 11, offset: 91307},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -45105,29 +45323,29 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2374, col: 15, offset: 76915},
+															pos:  position{line: 2375, col: 15, offset: 76938},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2502, col: 5, offset: 80826},
+															pos: position{line: 2503, col: 5, offset: 80849},
 															run: (*parser).callonNormalGroup34,
 															expr: &seqExpr{
-																pos: position{line: 2502, col: 5, offset: 80826},
+																pos: position{line: 2503, col: 5, offset: 80849},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2502, col: 5, offset: 80826},
+																		pos: position{line: 2503, col: 5, offset: 80849},
 																		run: (*parser).callonNormalGroup36,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2505, col: 5, offset: 80897},
+																		pos:        position{line: 2506, col: 5, offset: 80920},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2505, col: 10, offset: 80902},
+																		pos: position{line: 2506, col: 10, offset: 80925},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2505, col: 11, offset: 80903},
+																			pos:        position{line: 2506, col: 11, offset: 80926},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -45138,29 +45356,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2511, col: 5, offset: 81095},
+															pos: position{line: 2512, col: 5, offset: 81118},
 															run: (*parser).callonNormalGroup40,
 															expr: &seqExpr{
-																pos: position{line: 2511, col: 5, offset: 81095},
+																pos: position{line: 2512, col: 5, offset: 81118},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2511, col: 5, offset: 81095},
+																		pos: position{line: 2512, col: 5, offset: 81118},
 																		run: (*parser).callonNormalGroup42,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2514, col: 5, offset: 81166},
+																		pos: position{line: 2515, col: 5, offset: 81189},
 																		run: (*parser).callonNormalGroup43,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2518, col: 5, offset: 81291},
+																		pos:        position{line: 2519, col: 5, offset: 81314},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2518, col: 9, offset: 81295},
+																		pos: position{line: 2519, col: 9, offset: 81318},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2518, col: 10, offset: 81296},
+																			pos:        position{line: 2519, col: 10, offset: 81319},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -45171,27 +45389,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2794, col: 5, offset: 88877},
+															pos: position{line: 2795, col: 5, offset: 88900},
 															run: (*parser).callonNormalGroup47,
 															expr: &choiceExpr{
-																pos: position{line: 2795, col: 9, offset: 88887},
+																pos: position{line: 2796, col: 9, offset: 88910},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2795, col: 10, offset: 88888},
+																		pos:        position{line: 2796, col: 10, offset: 88911},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2797, col: 13, offset: 88985},
+																		pos: position{line: 2798, col: 13, offset: 89008},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2797, col: 13, offset: 88985},
+																				pos: position{line: 2798, col: 13, offset: 89008},
 																				run: (*parser).callonNormalGroup51,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2800, col: 13, offset: 89085},
+																				pos:        position{line: 2801, col: 13, offset: 89108},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -45199,20 +45417,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2800, col: 19, offset: 89091},
+																		pos:        position{line: 2801, col: 19, offset: 89114},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2803, col: 13, offset: 89129},
+																		pos: position{line: 2804, col: 13, offset: 89152},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2803, col: 13, offset: 89129},
+																				pos: position{line: 2804, col: 13, offset: 89152},
 																				run: (*parser).callonNormalGroup55,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2806, col: 14, offset: 89222},
+																				pos:        position{line: 2807, col: 14, offset: 89245},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -45221,18 +45439,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2808, col: 12, offset: 89266},
+																		pos: position{line: 2809, col: 12, offset: 89289},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2808, col: 12, offset: 89266},
+																				pos:        position{line: 2809, col: 12, offset: 89289},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2808, col: 16, offset: 89270},
+																				pos: position{line: 2809, col: 16, offset: 89293},
 																				expr: &litMatcher{
-																					pos:        position{line: 2808, col: 17, offset: 89271},
+																					pos:        position{line: 2809, col: 17, offset: 89294},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -45244,25 +45462,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2886, col: 12, offset: 91394},
+															pos: position{line: 2887, col: 12, offset: 91417},
 															run: (*parser).callonNormalGroup61,
 															expr: &choiceExpr{
-																pos: position{line: 2886, col: 13, offset: 91395},
+																pos: position{line: 2887, col: 13, offset: 91418},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 13, offset: 91395},
+																		pos:        position{line: 2887, col: 13, offset: 91418},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 20, offset: 91402},
+																		pos:        position{line: 2887, col: 20, offset: 91425},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2886, col: 29, offset: 91411},
+																		pos:        position{line: 2887, col: 29, offset: 91434},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -45617,35 +45835,35 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2379, col: 15, offset: 77082},
+															pos:  position{line: 2380, col: 15, offset: 77105},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2380, col: 15, offset: 77102},
+															pos:  position{line: 2381, col: 15, offset: 77125},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2381, col: 15, offset: 77191},
+															pos:  position{line: 2382, col: 15, offset: 77214},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2471, col: 5, offset: 79655},
+															pos: position{line: 2472, col: 5, offset: 79678},
 															run: (*parser).callonNormalGroup138,
 															expr: &seqExpr{
-																pos: position{line: 2471, col: 5, offset: 79655},
+																pos: position{line: 2472, col: 5, offset: 79678},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2471, col: 5, offset: 79655},
+																		pos: position{line: 2472, col: 5, offset: 79678},
 																		run: (*parser).callonNormalGroup140,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2474, col: 5, offset: 79731},
+																		pos:   position{line: 2475, col: 5, offset: 79754},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2475, col: 9, offset: 79749},
+																			pos: position{line: 2476, col: 9, offset: 79772},
 																			run: (*parser).callonNormalGroup142,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2475, col: 10, offset: 79750},
+																				pos:        position{line: 2476, col: 10, offset: 79773},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -45657,32 +45875,32 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1210, col: 5, offset: 37562},
+															pos: position{line: 1211, col: 5, offset: 37585},
 															run: (*parser).callonNormalGroup144,
 															expr: &seqExpr{
-																pos: position{line: 1210, col: 5, offset: 37562},
+																pos: position{line: 1211, col: 5, offset: 37585},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1210, col: 5, offset: 37562},
+																		pos: position{line: 1211, col: 5, offset: 37585},
 																		run: (*parser).callonNormalGroup146,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1213, col: 5, offset: 37638},
+																		pos:        position{line: 1214, col: 5, offset: 37661},
 																		val:        "+",
 																		ignoreCase: false,
 																		want:       "\"+\"",
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1214, col: 5, offset: 37646},
+																		pos: position{line: 1215, col: 5, offset: 37669},
 																		run: (*parser).callonNormalGroup148,
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1218, col: 5, offset: 37733},
+																		pos: position{line: 1219, col: 5, offset: 37756},
 																		expr: &actionExpr{
-																			pos: position{line: 2877, col: 10, offset: 91223},
+																			pos: position{line: 2878, col: 10, offset: 91246},
 																			run: (*parser).callonNormalGroup150,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 10, offset: 91223},
+																				pos:        position{line: 2878, col: 10, offset: 91246},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45691,30 +45909,30 @@ var g = &grammar{
 																		},
 																	},
 																	&andExpr{
-																		pos: position{line: 1218, col: 12, offset: 37740},
+																		pos: position{line: 1219, col: 12, offset: 37763},
 																		expr: &choiceExpr{
-																			pos: position{line: 2899, col: 8, offset: 91621},
+																			pos: position{line: 2900, col: 8, offset: 91644},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2886, col: 12, offset: 91394},
+																					pos: position{line: 2887, col: 12, offset: 91417},
 																					run: (*parser).callonNormalGroup154,
 																					expr: &choiceExpr{
-																						pos: position{line: 2886, col: 13, offset: 91395},
+																						pos: position{line: 2887, col: 13, offset: 91418},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 13, offset: 91395},
+																								pos:        position{line: 2887, col: 13, offset: 91418},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 20, offset: 91402},
+																								pos:        position{line: 2887, col: 20, offset: 91425},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 29, offset: 91411},
+																								pos:        position{line: 2887, col: 29, offset: 91434},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -45723,9 +45941,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2896, col: 8, offset: 91571},
+																					pos: position{line: 2897, col: 8, offset: 91594},
 																					expr: &anyMatcher{
-																						line: 2896, col: 9, offset: 91572,
+																						line: 2897, col: 9, offset: 91595,
 																					},
 																				},
 																			},
@@ -45735,31 +45953,31 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2384, col: 15, offset: 77373},
+															pos:  position{line: 2385, col: 15, offset: 77396},
 															name: "InlinePassthrough",
 														},
 														&actionExpr{
-															pos: position{line: 1198, col: 23, offset: 37013},
+															pos: position{line: 1199, col: 23, offset: 37036},
 															run: (*parser).callonNormalGroup162,
 															expr: &seqExpr{
-																pos: position{line: 1198, col: 23, offset: 37013},
+																pos: position{line: 1199, col: 23, offset: 37036},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1196, col: 32, offset: 36981},
+																		pos:        position{line: 1197, col: 32, offset: 37004},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1198, col: 51, offset: 37041},
+																		pos:   position{line: 1199, col: 51, offset: 37064},
 																		label: "ref",
 																		expr: &actionExpr{
-																			pos: position{line: 1198, col: 56, offset: 37046},
+																			pos: position{line: 1199, col: 56, offset: 37069},
 																			run: (*parser).callonNormalGroup166,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1198, col: 56, offset: 37046},
+																				pos: position{line: 1199, col: 56, offset: 37069},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1198, col: 56, offset: 37046},
+																					pos:        position{line: 1199, col: 56, offset: 37069},
 																					val:        "[0-9]",
 																					ranges:     []rune{'0', '9'},
 																					ignoreCase: false,
@@ -45769,23 +45987,23 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1196, col: 32, offset: 36981},
+																		pos:        position{line: 1197, col: 32, offset: 37004},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1199, col: 5, offset: 37118},
+																		pos: position{line: 1200, col: 5, offset: 37141},
 																		run: (*parser).callonNormalGroup170,
 																	},
 																},
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2816, col: 12, offset: 89531},
+															pos: position{line: 2817, col: 12, offset: 89554},
 															run: (*parser).callonNormalGroup171,
 															expr: &charClassMatcher{
-																pos:        position{line: 2816, col: 12, offset: 89531},
+																pos:        position{line: 2817, col: 12, offset: 89554},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -45801,9 +46019,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2896, col: 8, offset: 91571},
+							pos: position{line: 2897, col: 8, offset: 91594},
 							expr: &anyMatcher{
-								line: 2896, col: 9, offset: 91572,
+								line: 2897, col: 9, offset: 91595,
 							},
 						},
 					},
@@ -45812,28 +46030,28 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2395, col: 1, offset: 77811},
+			pos:  position{line: 2396, col: 1, offset: 77834},
 			expr: &actionExpr{
-				pos: position{line: 2396, col: 5, offset: 77844},
+				pos: position{line: 2397, col: 5, offset: 77867},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2396, col: 5, offset: 77844},
+					pos: position{line: 2397, col: 5, offset: 77867},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2396, col: 5, offset: 77844},
+							pos:   position{line: 2397, col: 5, offset: 77867},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2396, col: 14, offset: 77853},
+								pos: position{line: 2397, col: 14, offset: 77876},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2396, col: 15, offset: 77854},
+									pos:  position{line: 2397, col: 15, offset: 77877},
 									name: "AttributeStructuredValueElement",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2896, col: 8, offset: 91571},
+							pos: position{line: 2897, col: 8, offset: 91594},
 							expr: &anyMatcher{
-								line: 2896, col: 9, offset: 91572,
+								line: 2897, col: 9, offset: 91595,
 							},
 						},
 					},
@@ -45842,41 +46060,41 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2400, col: 1, offset: 77951},
+			pos:  position{line: 2401, col: 1, offset: 77974},
 			expr: &actionExpr{
-				pos: position{line: 2401, col: 5, offset: 77991},
+				pos: position{line: 2402, col: 5, offset: 78014},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2401, col: 5, offset: 77991},
+					pos: position{line: 2402, col: 5, offset: 78014},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2894, col: 11, offset: 91557},
+							pos: position{line: 2895, col: 11, offset: 91580},
 							expr: &anyMatcher{
-								line: 2894, col: 13, offset: 91559,
+								line: 2895, col: 13, offset: 91582,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2402, col: 5, offset: 78002},
+							pos:   position{line: 2403, col: 5, offset: 78025},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2403, col: 9, offset: 78020},
+								pos: position{line: 2404, col: 9, offset: 78043},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2776, col: 5, offset: 88444},
+										pos: position{line: 2777, col: 5, offset: 88467},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2776, col: 5, offset: 88444},
+											pos: position{line: 2777, col: 5, offset: 88467},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2776, col: 5, offset: 88444},
+													pos:   position{line: 2777, col: 5, offset: 88467},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2776, col: 11, offset: 88450},
+														pos: position{line: 2777, col: 11, offset: 88473},
 														run: (*parser).callonAttributeStructuredValueElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2776, col: 11, offset: 88450},
+															pos: position{line: 2777, col: 11, offset: 88473},
 															expr: &charClassMatcher{
-																pos:        position{line: 2776, col: 11, offset: 88450},
+																pos:        position{line: 2777, col: 11, offset: 88473},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45886,44 +46104,44 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2779, col: 5, offset: 88508},
+													pos: position{line: 2780, col: 5, offset: 88531},
 													expr: &seqExpr{
-														pos: position{line: 2780, col: 9, offset: 88519},
+														pos: position{line: 2781, col: 9, offset: 88542},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2780, col: 9, offset: 88519},
+																pos:        position{line: 2781, col: 9, offset: 88542},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2781, col: 9, offset: 88568},
+																pos: position{line: 2782, col: 9, offset: 88591},
 																run: (*parser).callonAttributeStructuredValueElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2785, col: 5, offset: 88648},
+													pos: position{line: 2786, col: 5, offset: 88671},
 													expr: &seqExpr{
-														pos: position{line: 2786, col: 9, offset: 88659},
+														pos: position{line: 2787, col: 9, offset: 88682},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2786, col: 9, offset: 88659},
+																pos: position{line: 2787, col: 9, offset: 88682},
 																expr: &seqExpr{
-																	pos: position{line: 2786, col: 10, offset: 88660},
+																	pos: position{line: 2787, col: 10, offset: 88683},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2786, col: 10, offset: 88660},
+																			pos:        position{line: 2787, col: 10, offset: 88683},
 																			val:        "[._%+-]",
 																			chars:      []rune{'.', '_', '%', '+', '-'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2786, col: 18, offset: 88668},
+																			pos: position{line: 2787, col: 18, offset: 88691},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2786, col: 18, offset: 88668},
+																				pos:        position{line: 2787, col: 18, offset: 88691},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -45934,13 +46152,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2786, col: 30, offset: 88680},
+																pos:        position{line: 2787, col: 30, offset: 88703},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2786, col: 34, offset: 88684},
+																pos:        position{line: 2787, col: 34, offset: 88707},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45953,10 +46171,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2877, col: 10, offset: 91223},
+										pos: position{line: 2878, col: 10, offset: 91246},
 										run: (*parser).callonAttributeStructuredValueElement26,
 										expr: &charClassMatcher{
-											pos:        position{line: 2877, col: 10, offset: 91223},
+											pos:        position{line: 2878, col: 10, offset: 91246},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -45964,31 +46182,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2405, col: 11, offset: 78058},
+										pos:  position{line: 2406, col: 11, offset: 78081},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2794, col: 5, offset: 88877},
+										pos: position{line: 2795, col: 5, offset: 88900},
 										run: (*parser).callonAttributeStructuredValueElement29,
 										expr: &choiceExpr{
-											pos: position{line: 2795, col: 9, offset: 88887},
+											pos: position{line: 2796, col: 9, offset: 88910},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2795, col: 10, offset: 88888},
+													pos:        position{line: 2796, col: 10, offset: 88911},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2797, col: 13, offset: 88985},
+													pos: position{line: 2798, col: 13, offset: 89008},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2797, col: 13, offset: 88985},
+															pos: position{line: 2798, col: 13, offset: 89008},
 															run: (*parser).callonAttributeStructuredValueElement33,
 														},
 														&litMatcher{
-															pos:        position{line: 2800, col: 13, offset: 89085},
+															pos:        position{line: 2801, col: 13, offset: 89108},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -45996,20 +46214,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2800, col: 19, offset: 89091},
+													pos:        position{line: 2801, col: 19, offset: 89114},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2803, col: 13, offset: 89129},
+													pos: position{line: 2804, col: 13, offset: 89152},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2803, col: 13, offset: 89129},
+															pos: position{line: 2804, col: 13, offset: 89152},
 															run: (*parser).callonAttributeStructuredValueElement37,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2806, col: 14, offset: 89222},
+															pos:        position{line: 2807, col: 14, offset: 89245},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -46018,18 +46236,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2808, col: 12, offset: 89266},
+													pos: position{line: 2809, col: 12, offset: 89289},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2808, col: 12, offset: 89266},
+															pos:        position{line: 2809, col: 12, offset: 89289},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2808, col: 16, offset: 89270},
+															pos: position{line: 2809, col: 16, offset: 89293},
 															expr: &litMatcher{
-																pos:        position{line: 2808, col: 17, offset: 89271},
+																pos:        position{line: 2809, col: 17, offset: 89294},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -46041,31 +46259,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2407, col: 11, offset: 78131},
+										pos:  position{line: 2408, col: 11, offset: 78154},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2408, col: 11, offset: 78147},
+										pos:  position{line: 2409, col: 11, offset: 78170},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2471, col: 5, offset: 79655},
+										pos: position{line: 2472, col: 5, offset: 79678},
 										run: (*parser).callonAttributeStructuredValueElement45,
 										expr: &seqExpr{
-											pos: position{line: 2471, col: 5, offset: 79655},
+											pos: position{line: 2472, col: 5, offset: 79678},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2471, col: 5, offset: 79655},
+													pos: position{line: 2472, col: 5, offset: 79678},
 													run: (*parser).callonAttributeStructuredValueElement47,
 												},
 												&labeledExpr{
-													pos:   position{line: 2474, col: 5, offset: 79731},
+													pos:   position{line: 2475, col: 5, offset: 79754},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2475, col: 9, offset: 79749},
+														pos: position{line: 2476, col: 9, offset: 79772},
 														run: (*parser).callonAttributeStructuredValueElement49,
 														expr: &charClassMatcher{
-															pos:        position{line: 2475, col: 10, offset: 79750},
+															pos:        position{line: 2476, col: 10, offset: 79773},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -46077,27 +46295,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1198, col: 23, offset: 37013},
+										pos: position{line: 1199, col: 23, offset: 37036},
 										run: (*parser).callonAttributeStructuredValueElement51,
 										expr: &seqExpr{
-											pos: position{line: 1198, col: 23, offset: 37013},
+											pos: position{line: 1199, col: 23, offset: 37036},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1196, col: 32, offset: 36981},
+													pos:        position{line: 1197, col: 32, offset: 37004},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1198, col: 51, offset: 37041},
+													pos:   position{line: 1199, col: 51, offset: 37064},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1198, col: 56, offset: 37046},
+														pos: position{line: 1199, col: 56, offset: 37069},
 														run: (*parser).callonAttributeStructuredValueElement55,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1198, col: 56, offset: 37046},
+															pos: position{line: 1199, col: 56, offset: 37069},
 															expr: &charClassMatcher{
-																pos:        position{line: 1198, col: 56, offset: 37046},
+																pos:        position{line: 1199, col: 56, offset: 37069},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -46107,38 +46325,38 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1196, col: 32, offset: 36981},
+													pos:        position{line: 1197, col: 32, offset: 37004},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&andCodeExpr{
-													pos: position{line: 1199, col: 5, offset: 37118},
+													pos: position{line: 1200, col: 5, offset: 37141},
 													run: (*parser).callonAttributeStructuredValueElement59,
 												},
 											},
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2886, col: 12, offset: 91394},
+										pos: position{line: 2887, col: 12, offset: 91417},
 										run: (*parser).callonAttributeStructuredValueElement60,
 										expr: &choiceExpr{
-											pos: position{line: 2886, col: 13, offset: 91395},
+											pos: position{line: 2887, col: 13, offset: 91418},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2886, col: 13, offset: 91395},
+													pos:        position{line: 2887, col: 13, offset: 91418},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2886, col: 20, offset: 91402},
+													pos:        position{line: 2887, col: 20, offset: 91425},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2886, col: 29, offset: 91411},
+													pos:        position{line: 2887, col: 29, offset: 91434},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -46147,10 +46365,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2816, col: 12, offset: 89531},
+										pos: position{line: 2817, col: 12, offset: 89554},
 										run: (*parser).callonAttributeStructuredValueElement65,
 										expr: &charClassMatcher{
-											pos:        position{line: 2816, col: 12, offset: 89531},
+											pos:        position{line: 2817, col: 12, offset: 89554},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -46166,73 +46384,73 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2419, col: 1, offset: 78417},
+			pos:  position{line: 2420, col: 1, offset: 78440},
 			expr: &actionExpr{
-				pos: position{line: 2421, col: 5, offset: 78499},
+				pos: position{line: 2422, col: 5, offset: 78522},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2421, col: 5, offset: 78499},
+					pos: position{line: 2422, col: 5, offset: 78522},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2421, col: 5, offset: 78499},
+							pos: position{line: 2422, col: 5, offset: 78522},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2424, col: 5, offset: 78564},
+							pos:   position{line: 2425, col: 5, offset: 78587},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2425, col: 9, offset: 78582},
+								pos: position{line: 2426, col: 9, offset: 78605},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2425, col: 9, offset: 78582},
+										pos:  position{line: 2426, col: 9, offset: 78605},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2426, col: 11, offset: 78603},
+										pos:  position{line: 2427, col: 11, offset: 78626},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2427, col: 11, offset: 78626},
+										pos:  position{line: 2428, col: 11, offset: 78649},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2428, col: 11, offset: 78642},
+										pos:  position{line: 2429, col: 11, offset: 78665},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2429, col: 11, offset: 78671},
+										pos:  position{line: 2430, col: 11, offset: 78694},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2430, col: 11, offset: 78697},
+										pos:  position{line: 2431, col: 11, offset: 78720},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2431, col: 11, offset: 78723},
+										pos:  position{line: 2432, col: 11, offset: 78746},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
-										pos: position{line: 1257, col: 5, offset: 38876},
+										pos: position{line: 1258, col: 5, offset: 38899},
 										run: (*parser).callonInlineMacro13,
 										expr: &seqExpr{
-											pos: position{line: 1257, col: 5, offset: 38876},
+											pos: position{line: 1258, col: 5, offset: 38899},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1257, col: 5, offset: 38876},
+													pos:        position{line: 1258, col: 5, offset: 38899},
 													val:        "\\[[",
 													ignoreCase: false,
 													want:       "\"\\\\[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1257, col: 14, offset: 38885},
+													pos:   position{line: 1258, col: 14, offset: 38908},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2862, col: 7, offset: 90875},
+														pos: position{line: 2863, col: 7, offset: 90898},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2862, col: 7, offset: 90875},
+															pos: position{line: 2863, col: 7, offset: 90898},
 															expr: &charClassMatcher{
-																pos:        position{line: 2862, col: 7, offset: 90875},
+																pos:        position{line: 2863, col: 7, offset: 90898},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -46242,7 +46460,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1257, col: 22, offset: 38893},
+													pos:        position{line: 1258, col: 22, offset: 38916},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -46251,27 +46469,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1262, col: 5, offset: 39055},
+										pos: position{line: 1263, col: 5, offset: 39078},
 										run: (*parser).callonInlineMacro21,
 										expr: &seqExpr{
-											pos: position{line: 1262, col: 5, offset: 39055},
+											pos: position{line: 1263, col: 5, offset: 39078},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1262, col: 5, offset: 39055},
+													pos:        position{line: 1263, col: 5, offset: 39078},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1262, col: 10, offset: 39060},
+													pos:   position{line: 1263, col: 10, offset: 39083},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2862, col: 7, offset: 90875},
+														pos: position{line: 2863, col: 7, offset: 90898},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2862, col: 7, offset: 90875},
+															pos: position{line: 2863, col: 7, offset: 90898},
 															expr: &charClassMatcher{
-																pos:        position{line: 2862, col: 7, offset: 90875},
+																pos:        position{line: 2863, col: 7, offset: 90898},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -46281,7 +46499,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1262, col: 18, offset: 39068},
+													pos:        position{line: 1263, col: 18, offset: 39091},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -46290,40 +46508,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1301, col: 23, offset: 40544},
+										pos: position{line: 1302, col: 23, offset: 40567},
 										run: (*parser).callonInlineMacro29,
 										expr: &seqExpr{
-											pos: position{line: 1301, col: 23, offset: 40544},
+											pos: position{line: 1302, col: 23, offset: 40567},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1301, col: 23, offset: 40544},
+													pos:        position{line: 1302, col: 23, offset: 40567},
 													val:        "(((",
 													ignoreCase: false,
 													want:       "\"(((\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1301, col: 29, offset: 40550},
+													pos:   position{line: 1302, col: 29, offset: 40573},
 													label: "term1",
 													expr: &actionExpr{
-														pos: position{line: 1308, col: 30, offset: 40881},
+														pos: position{line: 1309, col: 30, offset: 40904},
 														run: (*parser).callonInlineMacro33,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1308, col: 30, offset: 40881},
+															pos: position{line: 1309, col: 30, offset: 40904},
 															expr: &choiceExpr{
-																pos: position{line: 1308, col: 31, offset: 40882},
+																pos: position{line: 1309, col: 31, offset: 40905},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2767, col: 13, offset: 88297},
+																		pos:        position{line: 2768, col: 13, offset: 88320},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2877, col: 10, offset: 91223},
+																		pos: position{line: 2878, col: 10, offset: 91246},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 91223},
+																			pos:        position{line: 2878, col: 10, offset: 91246},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -46336,23 +46554,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1302, col: 5, offset: 40589},
+													pos:   position{line: 1303, col: 5, offset: 40612},
 													label: "term2",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1302, col: 11, offset: 40595},
+														pos: position{line: 1303, col: 11, offset: 40618},
 														expr: &actionExpr{
-															pos: position{line: 1302, col: 12, offset: 40596},
+															pos: position{line: 1303, col: 12, offset: 40619},
 															run: (*parser).callonInlineMacro41,
 															expr: &seqExpr{
-																pos: position{line: 1302, col: 12, offset: 40596},
+																pos: position{line: 1303, col: 12, offset: 40619},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1302, col: 12, offset: 40596},
+																		pos: position{line: 1303, col: 12, offset: 40619},
 																		expr: &actionExpr{
-																			pos: position{line: 2877, col: 10, offset: 91223},
+																			pos: position{line: 2878, col: 10, offset: 91246},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 10, offset: 91223},
+																				pos:        position{line: 2878, col: 10, offset: 91246},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46361,18 +46579,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1302, col: 19, offset: 40603},
+																		pos:        position{line: 1303, col: 19, offset: 40626},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1302, col: 23, offset: 40607},
+																		pos: position{line: 1303, col: 23, offset: 40630},
 																		expr: &actionExpr{
-																			pos: position{line: 2877, col: 10, offset: 91223},
+																			pos: position{line: 2878, col: 10, offset: 91246},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 10, offset: 91223},
+																				pos:        position{line: 2878, col: 10, offset: 91246},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46381,28 +46599,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1302, col: 30, offset: 40614},
+																		pos:   position{line: 1303, col: 30, offset: 40637},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1308, col: 30, offset: 40881},
+																			pos: position{line: 1309, col: 30, offset: 40904},
 																			run: (*parser).callonInlineMacro51,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1308, col: 30, offset: 40881},
+																				pos: position{line: 1309, col: 30, offset: 40904},
 																				expr: &choiceExpr{
-																					pos: position{line: 1308, col: 31, offset: 40882},
+																					pos: position{line: 1309, col: 31, offset: 40905},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2767, col: 13, offset: 88297},
+																							pos:        position{line: 2768, col: 13, offset: 88320},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2877, col: 10, offset: 91223},
+																							pos: position{line: 2878, col: 10, offset: 91246},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2877, col: 10, offset: 91223},
+																								pos:        position{line: 2878, col: 10, offset: 91246},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -46420,23 +46638,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1303, col: 5, offset: 40681},
+													pos:   position{line: 1304, col: 5, offset: 40704},
 													label: "term3",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1303, col: 11, offset: 40687},
+														pos: position{line: 1304, col: 11, offset: 40710},
 														expr: &actionExpr{
-															pos: position{line: 1303, col: 12, offset: 40688},
+															pos: position{line: 1304, col: 12, offset: 40711},
 															run: (*parser).callonInlineMacro59,
 															expr: &seqExpr{
-																pos: position{line: 1303, col: 12, offset: 40688},
+																pos: position{line: 1304, col: 12, offset: 40711},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1303, col: 12, offset: 40688},
+																		pos: position{line: 1304, col: 12, offset: 40711},
 																		expr: &actionExpr{
-																			pos: position{line: 2877, col: 10, offset: 91223},
+																			pos: position{line: 2878, col: 10, offset: 91246},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 10, offset: 91223},
+																				pos:        position{line: 2878, col: 10, offset: 91246},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46445,18 +46663,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1303, col: 19, offset: 40695},
+																		pos:        position{line: 1304, col: 19, offset: 40718},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1303, col: 23, offset: 40699},
+																		pos: position{line: 1304, col: 23, offset: 40722},
 																		expr: &actionExpr{
-																			pos: position{line: 2877, col: 10, offset: 91223},
+																			pos: position{line: 2878, col: 10, offset: 91246},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 10, offset: 91223},
+																				pos:        position{line: 2878, col: 10, offset: 91246},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46465,28 +46683,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1303, col: 30, offset: 40706},
+																		pos:   position{line: 1304, col: 30, offset: 40729},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1308, col: 30, offset: 40881},
+																			pos: position{line: 1309, col: 30, offset: 40904},
 																			run: (*parser).callonInlineMacro69,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1308, col: 30, offset: 40881},
+																				pos: position{line: 1309, col: 30, offset: 40904},
 																				expr: &choiceExpr{
-																					pos: position{line: 1308, col: 31, offset: 40882},
+																					pos: position{line: 1309, col: 31, offset: 40905},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2767, col: 13, offset: 88297},
+																							pos:        position{line: 2768, col: 13, offset: 88320},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2877, col: 10, offset: 91223},
+																							pos: position{line: 2878, col: 10, offset: 91246},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2877, col: 10, offset: 91223},
+																								pos:        position{line: 2878, col: 10, offset: 91246},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -46504,7 +46722,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1304, col: 5, offset: 40773},
+													pos:        position{line: 1305, col: 5, offset: 40796},
 													val:        ")))",
 													ignoreCase: false,
 													want:       "\")))\"",
@@ -46513,15 +46731,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2434, col: 11, offset: 78802},
+										pos:  position{line: 2435, col: 11, offset: 78825},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2435, col: 11, offset: 78822},
+										pos:  position{line: 2436, col: 11, offset: 78845},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2436, col: 11, offset: 78845},
+										pos:  position{line: 2437, col: 11, offset: 78868},
 										name: "InlineMenu",
 									},
 								},
@@ -46533,80 +46751,80 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2440, col: 1, offset: 78902},
+			pos:  position{line: 2441, col: 1, offset: 78925},
 			expr: &actionExpr{
-				pos: position{line: 2442, col: 5, offset: 78990},
+				pos: position{line: 2443, col: 5, offset: 79013},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2442, col: 5, offset: 78990},
+					pos: position{line: 2443, col: 5, offset: 79013},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2442, col: 5, offset: 78990},
+							pos: position{line: 2443, col: 5, offset: 79013},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2445, col: 5, offset: 79067},
+							pos:   position{line: 2446, col: 5, offset: 79090},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2446, col: 9, offset: 79085},
+								pos: position{line: 2447, col: 9, offset: 79108},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1383, col: 26, offset: 44219},
+										pos: position{line: 1384, col: 26, offset: 44242},
 										run: (*parser).callonInlinePassthrough6,
 										expr: &seqExpr{
-											pos: position{line: 1383, col: 26, offset: 44219},
+											pos: position{line: 1384, col: 26, offset: 44242},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1381, col: 32, offset: 44187},
+													pos:        position{line: 1382, col: 32, offset: 44210},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1383, col: 54, offset: 44247},
+													pos:   position{line: 1384, col: 54, offset: 44270},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1387, col: 33, offset: 44460},
+														pos: position{line: 1388, col: 33, offset: 44483},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1387, col: 34, offset: 44461},
+																pos: position{line: 1388, col: 34, offset: 44484},
 																run: (*parser).callonInlinePassthrough11,
 																expr: &zeroOrMoreExpr{
-																	pos: position{line: 1387, col: 34, offset: 44461},
+																	pos: position{line: 1388, col: 34, offset: 44484},
 																	expr: &seqExpr{
-																		pos: position{line: 1387, col: 35, offset: 44462},
+																		pos: position{line: 1388, col: 35, offset: 44485},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1387, col: 35, offset: 44462},
+																				pos: position{line: 1388, col: 35, offset: 44485},
 																				expr: &litMatcher{
-																					pos:        position{line: 1381, col: 32, offset: 44187},
+																					pos:        position{line: 1382, col: 32, offset: 44210},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1387, col: 64, offset: 44491,
+																				line: 1388, col: 64, offset: 44514,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1389, col: 11, offset: 44664},
+																pos: position{line: 1390, col: 11, offset: 44687},
 																run: (*parser).callonInlinePassthrough17,
 																expr: &zeroOrOneExpr{
-																	pos: position{line: 1389, col: 11, offset: 44664},
+																	pos: position{line: 1390, col: 11, offset: 44687},
 																	expr: &seqExpr{
-																		pos: position{line: 1389, col: 12, offset: 44665},
+																		pos: position{line: 1390, col: 12, offset: 44688},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1389, col: 12, offset: 44665},
+																				pos: position{line: 1390, col: 12, offset: 44688},
 																				expr: &actionExpr{
-																					pos: position{line: 2877, col: 10, offset: 91223},
+																					pos: position{line: 2878, col: 10, offset: 91246},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2877, col: 10, offset: 91223},
+																						pos:        position{line: 2878, col: 10, offset: 91246},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -46615,27 +46833,27 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1389, col: 19, offset: 44672},
+																				pos: position{line: 1390, col: 19, offset: 44695},
 																				expr: &actionExpr{
-																					pos: position{line: 2886, col: 12, offset: 91394},
+																					pos: position{line: 2887, col: 12, offset: 91417},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2886, col: 13, offset: 91395},
+																						pos: position{line: 2887, col: 13, offset: 91418},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 13, offset: 91395},
+																								pos:        position{line: 2887, col: 13, offset: 91418},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 20, offset: 91402},
+																								pos:        position{line: 2887, col: 20, offset: 91425},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2886, col: 29, offset: 91411},
+																								pos:        position{line: 2887, col: 29, offset: 91434},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -46645,16 +46863,16 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1389, col: 28, offset: 44681},
+																				pos: position{line: 1390, col: 28, offset: 44704},
 																				expr: &litMatcher{
-																					pos:        position{line: 1381, col: 32, offset: 44187},
+																					pos:        position{line: 1382, col: 32, offset: 44210},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1389, col: 57, offset: 44710,
+																				line: 1390, col: 57, offset: 44733,
 																			},
 																		},
 																	},
@@ -46664,15 +46882,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1381, col: 32, offset: 44187},
+													pos:        position{line: 1382, col: 32, offset: 44210},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&notExpr{
-													pos: position{line: 1383, col: 121, offset: 44314},
+													pos: position{line: 1384, col: 121, offset: 44337},
 													expr: &charClassMatcher{
-														pos:        position{line: 2767, col: 13, offset: 88297},
+														pos:        position{line: 2768, col: 13, offset: 88320},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -46683,45 +46901,45 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1371, col: 26, offset: 43502},
+										pos: position{line: 1372, col: 26, offset: 43525},
 										run: (*parser).callonInlinePassthrough35,
 										expr: &seqExpr{
-											pos: position{line: 1371, col: 26, offset: 43502},
+											pos: position{line: 1372, col: 26, offset: 43525},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1369, col: 32, offset: 43472},
+													pos:        position{line: 1370, col: 32, offset: 43495},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1371, col: 54, offset: 43530},
+													pos:   position{line: 1372, col: 54, offset: 43553},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1375, col: 33, offset: 43743},
+														pos: position{line: 1376, col: 33, offset: 43766},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1375, col: 34, offset: 43744},
+																pos: position{line: 1376, col: 34, offset: 43767},
 																run: (*parser).callonInlinePassthrough40,
 																expr: &seqExpr{
-																	pos: position{line: 1375, col: 34, offset: 43744},
+																	pos: position{line: 1376, col: 34, offset: 43767},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1375, col: 35, offset: 43745},
+																			pos: position{line: 1376, col: 35, offset: 43768},
 																			expr: &litMatcher{
-																				pos:        position{line: 1369, col: 32, offset: 43472},
+																				pos:        position{line: 1370, col: 32, offset: 43495},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1375, col: 64, offset: 43774},
+																			pos: position{line: 1376, col: 64, offset: 43797},
 																			expr: &actionExpr{
-																				pos: position{line: 2877, col: 10, offset: 91223},
+																				pos: position{line: 2878, col: 10, offset: 91246},
 																				run: (*parser).callonInlinePassthrough45,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 10, offset: 91223},
+																					pos:        position{line: 2878, col: 10, offset: 91246},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -46730,27 +46948,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1375, col: 71, offset: 43781},
+																			pos: position{line: 1376, col: 71, offset: 43804},
 																			expr: &actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91394},
+																				pos: position{line: 2887, col: 12, offset: 91417},
 																				run: (*parser).callonInlinePassthrough48,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91395},
+																					pos: position{line: 2887, col: 13, offset: 91418},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91395},
+																							pos:        position{line: 2887, col: 13, offset: 91418},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91402},
+																							pos:        position{line: 2887, col: 20, offset: 91425},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91411},
+																							pos:        position{line: 2887, col: 29, offset: 91434},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -46760,25 +46978,25 @@ var g = &grammar{
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1375, col: 80, offset: 43790,
+																			line: 1376, col: 80, offset: 43813,
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1375, col: 83, offset: 43793},
+																			pos: position{line: 1376, col: 83, offset: 43816},
 																			expr: &seqExpr{
-																				pos: position{line: 1375, col: 84, offset: 43794},
+																				pos: position{line: 1376, col: 84, offset: 43817},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1375, col: 84, offset: 43794},
+																						pos: position{line: 1376, col: 84, offset: 43817},
 																						expr: &seqExpr{
-																							pos: position{line: 1375, col: 86, offset: 43796},
+																							pos: position{line: 1376, col: 86, offset: 43819},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2881, col: 11, offset: 91284},
+																									pos: position{line: 2882, col: 11, offset: 91307},
 																									run: (*parser).callonInlinePassthrough58,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2881, col: 11, offset: 91284},
+																										pos: position{line: 2882, col: 11, offset: 91307},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2881, col: 11, offset: 91284},
+																											pos:        position{line: 2882, col: 11, offset: 91307},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -46787,7 +47005,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1369, col: 32, offset: 43472},
+																									pos:        position{line: 1370, col: 32, offset: 43495},
 																									val:        "+",
 																									ignoreCase: false,
 																									want:       "\"+\"",
@@ -46796,36 +47014,36 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1375, col: 122, offset: 43832},
+																						pos: position{line: 1376, col: 122, offset: 43855},
 																						expr: &litMatcher{
-																							pos:        position{line: 1369, col: 32, offset: 43472},
+																							pos:        position{line: 1370, col: 32, offset: 43495},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1375, col: 151, offset: 43861},
+																						pos: position{line: 1376, col: 151, offset: 43884},
 																						expr: &actionExpr{
-																							pos: position{line: 2886, col: 12, offset: 91394},
+																							pos: position{line: 2887, col: 12, offset: 91417},
 																							run: (*parser).callonInlinePassthrough65,
 																							expr: &choiceExpr{
-																								pos: position{line: 2886, col: 13, offset: 91395},
+																								pos: position{line: 2887, col: 13, offset: 91418},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 13, offset: 91395},
+																										pos:        position{line: 2887, col: 13, offset: 91418},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 20, offset: 91402},
+																										pos:        position{line: 2887, col: 20, offset: 91425},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2886, col: 29, offset: 91411},
+																										pos:        position{line: 2887, col: 29, offset: 91434},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -46835,7 +47053,7 @@ var g = &grammar{
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1375, col: 160, offset: 43870,
+																						line: 1376, col: 160, offset: 43893,
 																					},
 																				},
 																			},
@@ -46844,18 +47062,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1377, col: 11, offset: 44020},
+																pos: position{line: 1378, col: 11, offset: 44043},
 																run: (*parser).callonInlinePassthrough71,
 																expr: &seqExpr{
-																	pos: position{line: 1377, col: 12, offset: 44021},
+																	pos: position{line: 1378, col: 12, offset: 44044},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1377, col: 12, offset: 44021},
+																			pos: position{line: 1378, col: 12, offset: 44044},
 																			expr: &actionExpr{
-																				pos: position{line: 2877, col: 10, offset: 91223},
+																				pos: position{line: 2878, col: 10, offset: 91246},
 																				run: (*parser).callonInlinePassthrough74,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2877, col: 10, offset: 91223},
+																					pos:        position{line: 2878, col: 10, offset: 91246},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -46864,27 +47082,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1377, col: 19, offset: 44028},
+																			pos: position{line: 1378, col: 19, offset: 44051},
 																			expr: &actionExpr{
-																				pos: position{line: 2886, col: 12, offset: 91394},
+																				pos: position{line: 2887, col: 12, offset: 91417},
 																				run: (*parser).callonInlinePassthrough77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 13, offset: 91395},
+																					pos: position{line: 2887, col: 13, offset: 91418},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 13, offset: 91395},
+																							pos:        position{line: 2887, col: 13, offset: 91418},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 20, offset: 91402},
+																							pos:        position{line: 2887, col: 20, offset: 91425},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2886, col: 29, offset: 91411},
+																							pos:        position{line: 2887, col: 29, offset: 91434},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -46894,16 +47112,16 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1377, col: 28, offset: 44037},
+																			pos: position{line: 1378, col: 28, offset: 44060},
 																			expr: &litMatcher{
-																				pos:        position{line: 1369, col: 32, offset: 43472},
+																				pos:        position{line: 1370, col: 32, offset: 43495},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1377, col: 57, offset: 44066,
+																			line: 1378, col: 57, offset: 44089,
 																		},
 																	},
 																},
@@ -46912,15 +47130,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1369, col: 32, offset: 43472},
+													pos:        position{line: 1370, col: 32, offset: 43495},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&notExpr{
-													pos: position{line: 1371, col: 121, offset: 43597},
+													pos: position{line: 1372, col: 121, offset: 43620},
 													expr: &charClassMatcher{
-														pos:        position{line: 2767, col: 13, offset: 88297},
+														pos:        position{line: 2768, col: 13, offset: 88320},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -46931,7 +47149,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2446, col: 57, offset: 79133},
+										pos:  position{line: 2447, col: 57, offset: 79156},
 										name: "PassthroughMacro",
 									},
 								},
@@ -46943,16 +47161,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2451, col: 1, offset: 79193},
+			pos:  position{line: 2452, col: 1, offset: 79216},
 			expr: &seqExpr{
-				pos: position{line: 2453, col: 5, offset: 79269},
+				pos: position{line: 2454, col: 5, offset: 79292},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2453, col: 5, offset: 79269},
+						pos: position{line: 2454, col: 5, offset: 79292},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2456, col: 5, offset: 79334},
+						pos:  position{line: 2457, col: 5, offset: 79357},
 						name: "QuotedText",
 					},
 				},
@@ -46960,22 +47178,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2458, col: 1, offset: 79347},
+			pos:  position{line: 2459, col: 1, offset: 79370},
 			expr: &actionExpr{
-				pos: position{line: 2460, col: 5, offset: 79429},
+				pos: position{line: 2461, col: 5, offset: 79452},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2460, col: 5, offset: 79429},
+					pos: position{line: 2461, col: 5, offset: 79452},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2460, col: 5, offset: 79429},
+							pos: position{line: 2461, col: 5, offset: 79452},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2463, col: 5, offset: 79500},
+							pos:   position{line: 2464, col: 5, offset: 79523},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2464, col: 9, offset: 79518},
+								pos:  position{line: 2465, col: 9, offset: 79541},
 								name: "Symbol",
 							},
 						},
@@ -46985,93 +47203,93 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2522, col: 1, offset: 81348},
+			pos:  position{line: 2523, col: 1, offset: 81371},
 			expr: &choiceExpr{
-				pos: position{line: 2524, col: 5, offset: 81378},
+				pos: position{line: 2525, col: 5, offset: 81401},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2524, col: 5, offset: 81378},
+						pos: position{line: 2525, col: 5, offset: 81401},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2524, col: 5, offset: 81378},
+							pos: position{line: 2525, col: 5, offset: 81401},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2524, col: 5, offset: 81378},
+									pos:        position{line: 2525, col: 5, offset: 81401},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2524, col: 10, offset: 81383},
+									pos: position{line: 2525, col: 10, offset: 81406},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2524, col: 10, offset: 81383},
+											pos:  position{line: 2525, col: 10, offset: 81406},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2553, col: 14, offset: 82517},
+											pos: position{line: 2554, col: 14, offset: 82540},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2553, col: 14, offset: 82517},
+												pos:        position{line: 2554, col: 14, offset: 82540},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2557, col: 14, offset: 82583},
+											pos: position{line: 2558, col: 14, offset: 82606},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2557, col: 14, offset: 82583},
+												pos:        position{line: 2558, col: 14, offset: 82606},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2561, col: 15, offset: 82652},
+											pos: position{line: 2562, col: 15, offset: 82675},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2561, col: 15, offset: 82652},
+												pos:        position{line: 2562, col: 15, offset: 82675},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2565, col: 13, offset: 82717},
+											pos: position{line: 2566, col: 13, offset: 82740},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2565, col: 13, offset: 82717},
+												pos:        position{line: 2566, col: 13, offset: 82740},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2572, col: 5, offset: 82855},
+											pos: position{line: 2573, col: 5, offset: 82878},
 											run: (*parser).callonSymbol15,
 											expr: &seqExpr{
-												pos: position{line: 2572, col: 5, offset: 82855},
+												pos: position{line: 2573, col: 5, offset: 82878},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2572, col: 5, offset: 82855},
+														pos:        position{line: 2573, col: 5, offset: 82878},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2573, col: 5, offset: 82865},
+														pos: position{line: 2574, col: 5, offset: 82888},
 														run: (*parser).callonSymbol18,
 													},
 													&choiceExpr{
-														pos: position{line: 2577, col: 6, offset: 82952},
+														pos: position{line: 2578, col: 6, offset: 82975},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2877, col: 10, offset: 91223},
+																pos: position{line: 2878, col: 10, offset: 91246},
 																run: (*parser).callonSymbol20,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2877, col: 10, offset: 91223},
+																	pos:        position{line: 2878, col: 10, offset: 91246},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -47079,30 +47297,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2577, col: 14, offset: 82960},
+																pos: position{line: 2578, col: 14, offset: 82983},
 																expr: &choiceExpr{
-																	pos: position{line: 2899, col: 8, offset: 91621},
+																	pos: position{line: 2900, col: 8, offset: 91644},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2886, col: 12, offset: 91394},
+																			pos: position{line: 2887, col: 12, offset: 91417},
 																			run: (*parser).callonSymbol24,
 																			expr: &choiceExpr{
-																				pos: position{line: 2886, col: 13, offset: 91395},
+																				pos: position{line: 2887, col: 13, offset: 91418},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 13, offset: 91395},
+																						pos:        position{line: 2887, col: 13, offset: 91418},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 20, offset: 91402},
+																						pos:        position{line: 2887, col: 20, offset: 91425},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2886, col: 29, offset: 91411},
+																						pos:        position{line: 2887, col: 29, offset: 91434},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -47111,9 +47329,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2896, col: 8, offset: 91571},
+																			pos: position{line: 2897, col: 8, offset: 91594},
 																			expr: &anyMatcher{
-																				line: 2896, col: 9, offset: 91572,
+																				line: 2897, col: 9, offset: 91595,
 																			},
 																		},
 																	},
@@ -47125,53 +47343,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2582, col: 5, offset: 83080},
+											pos: position{line: 2583, col: 5, offset: 83103},
 											run: (*parser).callonSymbol31,
 											expr: &seqExpr{
-												pos: position{line: 2582, col: 5, offset: 83080},
+												pos: position{line: 2583, col: 5, offset: 83103},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2582, col: 5, offset: 83080},
+														pos:        position{line: 2583, col: 5, offset: 83103},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2583, col: 5, offset: 83090},
+														pos: position{line: 2584, col: 5, offset: 83113},
 														run: (*parser).callonSymbol34,
 													},
 													&andExpr{
-														pos: position{line: 2587, col: 5, offset: 83179},
+														pos: position{line: 2588, col: 5, offset: 83202},
 														expr: &choiceExpr{
-															pos: position{line: 2587, col: 7, offset: 83181},
+															pos: position{line: 2588, col: 7, offset: 83204},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2767, col: 13, offset: 88297},
+																	pos:        position{line: 2768, col: 13, offset: 88320},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2886, col: 12, offset: 91394},
+																	pos: position{line: 2887, col: 12, offset: 91417},
 																	run: (*parser).callonSymbol38,
 																	expr: &choiceExpr{
-																		pos: position{line: 2886, col: 13, offset: 91395},
+																		pos: position{line: 2887, col: 13, offset: 91418},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2886, col: 13, offset: 91395},
+																				pos:        position{line: 2887, col: 13, offset: 91418},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2886, col: 20, offset: 91402},
+																				pos:        position{line: 2887, col: 20, offset: 91425},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2886, col: 29, offset: 91411},
+																				pos:        position{line: 2887, col: 29, offset: 91434},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -47180,9 +47398,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2896, col: 8, offset: 91571},
+																	pos: position{line: 2897, col: 8, offset: 91594},
 																	expr: &anyMatcher{
-																		line: 2896, col: 9, offset: 91572,
+																		line: 2897, col: 9, offset: 91595,
 																	},
 																},
 															},
@@ -47197,63 +47415,63 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2527, col: 7, offset: 81547},
+						pos: position{line: 2528, col: 7, offset: 81570},
 						run: (*parser).callonSymbol45,
 						expr: &seqExpr{
-							pos: position{line: 2527, col: 7, offset: 81547},
+							pos: position{line: 2528, col: 7, offset: 81570},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2527, col: 7, offset: 81547},
+									pos:        position{line: 2528, col: 7, offset: 81570},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2527, col: 11, offset: 81551},
+									pos:   position{line: 2528, col: 11, offset: 81574},
 									label: "elements",
 									expr: &choiceExpr{
-										pos: position{line: 2527, col: 21, offset: 81561},
+										pos: position{line: 2528, col: 21, offset: 81584},
 										alternatives: []interface{}{
 											&seqExpr{
-												pos: position{line: 2527, col: 21, offset: 81561},
+												pos: position{line: 2528, col: 21, offset: 81584},
 												exprs: []interface{}{
 													&charClassMatcher{
-														pos:        position{line: 2527, col: 21, offset: 81561},
+														pos:        position{line: 2528, col: 21, offset: 81584},
 														val:        "[-=]",
 														chars:      []rune{'-', '='},
 														ignoreCase: false,
 														inverted:   false,
 													},
 													&andExpr{
-														pos: position{line: 2527, col: 26, offset: 81566},
+														pos: position{line: 2528, col: 26, offset: 81589},
 														expr: &litMatcher{
-															pos:        position{line: 2527, col: 27, offset: 81567},
+															pos:        position{line: 2528, col: 27, offset: 81590},
 															val:        ">",
 															ignoreCase: false,
 															want:       "\">\"",
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2527, col: 32, offset: 81572},
+														pos: position{line: 2528, col: 32, offset: 81595},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2471, col: 5, offset: 79655},
+																pos: position{line: 2472, col: 5, offset: 79678},
 																run: (*parser).callonSymbol55,
 																expr: &seqExpr{
-																	pos: position{line: 2471, col: 5, offset: 79655},
+																	pos: position{line: 2472, col: 5, offset: 79678},
 																	exprs: []interface{}{
 																		&andCodeExpr{
-																			pos: position{line: 2471, col: 5, offset: 79655},
+																			pos: position{line: 2472, col: 5, offset: 79678},
 																			run: (*parser).callonSymbol57,
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 2474, col: 5, offset: 79731},
+																			pos:   position{line: 2475, col: 5, offset: 79754},
 																			label: "element",
 																			expr: &actionExpr{
-																				pos: position{line: 2475, col: 9, offset: 79749},
+																				pos: position{line: 2476, col: 9, offset: 79772},
 																				run: (*parser).callonSymbol59,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2475, col: 10, offset: 79750},
+																					pos:        position{line: 2476, col: 10, offset: 79773},
 																					val:        "[<>&]",
 																					chars:      []rune{'<', '>', '&'},
 																					ignoreCase: false,
@@ -47265,28 +47483,28 @@ var g = &grammar{
 																},
 															},
 															&anyMatcher{
-																line: 2527, col: 51, offset: 81591,
+																line: 2528, col: 51, offset: 81614,
 															},
 														},
 													},
 												},
 											},
 											&seqExpr{
-												pos: position{line: 2527, col: 56, offset: 81596},
+												pos: position{line: 2528, col: 56, offset: 81619},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2527, col: 56, offset: 81596},
+														pos: position{line: 2528, col: 56, offset: 81619},
 														expr: &choiceExpr{
-															pos: position{line: 2527, col: 58, offset: 81598},
+															pos: position{line: 2528, col: 58, offset: 81621},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2527, col: 58, offset: 81598},
+																	pos:        position{line: 2528, col: 58, offset: 81621},
 																	val:        "<-",
 																	ignoreCase: false,
 																	want:       "\"<-\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2527, col: 65, offset: 81605},
+																	pos:        position{line: 2528, col: 65, offset: 81628},
 																	val:        "<=",
 																	ignoreCase: false,
 																	want:       "\"<=\"",
@@ -47295,26 +47513,26 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2527, col: 72, offset: 81612},
+														pos: position{line: 2528, col: 72, offset: 81635},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2471, col: 5, offset: 79655},
+																pos: position{line: 2472, col: 5, offset: 79678},
 																run: (*parser).callonSymbol68,
 																expr: &seqExpr{
-																	pos: position{line: 2471, col: 5, offset: 79655},
+																	pos: position{line: 2472, col: 5, offset: 79678},
 																	exprs: []interface{}{
 																		&andCodeExpr{
-																			pos: position{line: 2471, col: 5, offset: 79655},
+																			pos: position{line: 2472, col: 5, offset: 79678},
 																			run: (*parser).callonSymbol70,
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 2474, col: 5, offset: 79731},
+																			pos:   position{line: 2475, col: 5, offset: 79754},
 																			label: "element",
 																			expr: &actionExpr{
-																				pos: position{line: 2475, col: 9, offset: 79749},
+																				pos: position{line: 2476, col: 9, offset: 79772},
 																				run: (*parser).callonSymbol72,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2475, col: 10, offset: 79750},
+																					pos:        position{line: 2476, col: 10, offset: 79773},
 																					val:        "[<>&]",
 																					chars:      []rune{'<', '>', '&'},
 																					ignoreCase: false,
@@ -47326,12 +47544,12 @@ var g = &grammar{
 																},
 															},
 															&anyMatcher{
-																line: 2527, col: 91, offset: 81631,
+																line: 2528, col: 91, offset: 81654,
 															},
 														},
 													},
 													&anyMatcher{
-														line: 2527, col: 94, offset: 81634,
+														line: 2528, col: 94, offset: 81657,
 													},
 												},
 											},
@@ -47342,73 +47560,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2528, col: 7, offset: 81668},
+						pos:  position{line: 2529, col: 7, offset: 81691},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2553, col: 14, offset: 82517},
+						pos: position{line: 2554, col: 14, offset: 82540},
 						run: (*parser).callonSymbol77,
 						expr: &litMatcher{
-							pos:        position{line: 2553, col: 14, offset: 82517},
+							pos:        position{line: 2554, col: 14, offset: 82540},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2557, col: 14, offset: 82583},
+						pos: position{line: 2558, col: 14, offset: 82606},
 						run: (*parser).callonSymbol79,
 						expr: &litMatcher{
-							pos:        position{line: 2557, col: 14, offset: 82583},
+							pos:        position{line: 2558, col: 14, offset: 82606},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2561, col: 15, offset: 82652},
+						pos: position{line: 2562, col: 15, offset: 82675},
 						run: (*parser).callonSymbol81,
 						expr: &litMatcher{
-							pos:        position{line: 2561, col: 15, offset: 82652},
+							pos:        position{line: 2562, col: 15, offset: 82675},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2565, col: 13, offset: 82717},
+						pos: position{line: 2566, col: 13, offset: 82740},
 						run: (*parser).callonSymbol83,
 						expr: &litMatcher{
-							pos:        position{line: 2565, col: 13, offset: 82717},
+							pos:        position{line: 2566, col: 13, offset: 82740},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2572, col: 5, offset: 82855},
+						pos: position{line: 2573, col: 5, offset: 82878},
 						run: (*parser).callonSymbol85,
 						expr: &seqExpr{
-							pos: position{line: 2572, col: 5, offset: 82855},
+							pos: position{line: 2573, col: 5, offset: 82878},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2572, col: 5, offset: 82855},
+									pos:        position{line: 2573, col: 5, offset: 82878},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2573, col: 5, offset: 82865},
+									pos: position{line: 2574, col: 5, offset: 82888},
 									run: (*parser).callonSymbol88,
 								},
 								&choiceExpr{
-									pos: position{line: 2577, col: 6, offset: 82952},
+									pos: position{line: 2578, col: 6, offset: 82975},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2877, col: 10, offset: 91223},
+											pos: position{line: 2878, col: 10, offset: 91246},
 											run: (*parser).callonSymbol90,
 											expr: &charClassMatcher{
-												pos:        position{line: 2877, col: 10, offset: 91223},
+												pos:        position{line: 2878, col: 10, offset: 91246},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -47416,30 +47634,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2577, col: 14, offset: 82960},
+											pos: position{line: 2578, col: 14, offset: 82983},
 											expr: &choiceExpr{
-												pos: position{line: 2899, col: 8, offset: 91621},
+												pos: position{line: 2900, col: 8, offset: 91644},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2886, col: 12, offset: 91394},
+														pos: position{line: 2887, col: 12, offset: 91417},
 														run: (*parser).callonSymbol94,
 														expr: &choiceExpr{
-															pos: position{line: 2886, col: 13, offset: 91395},
+															pos: position{line: 2887, col: 13, offset: 91418},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2886, col: 13, offset: 91395},
+																	pos:        position{line: 2887, col: 13, offset: 91418},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2886, col: 20, offset: 91402},
+																	pos:        position{line: 2887, col: 20, offset: 91425},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2886, col: 29, offset: 91411},
+																	pos:        position{line: 2887, col: 29, offset: 91434},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -47448,9 +47666,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2896, col: 8, offset: 91571},
+														pos: position{line: 2897, col: 8, offset: 91594},
 														expr: &anyMatcher{
-															line: 2896, col: 9, offset: 91572,
+															line: 2897, col: 9, offset: 91595,
 														},
 													},
 												},
@@ -47462,53 +47680,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2582, col: 5, offset: 83080},
+						pos: position{line: 2583, col: 5, offset: 83103},
 						run: (*parser).callonSymbol101,
 						expr: &seqExpr{
-							pos: position{line: 2582, col: 5, offset: 83080},
+							pos: position{line: 2583, col: 5, offset: 83103},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2582, col: 5, offset: 83080},
+									pos:        position{line: 2583, col: 5, offset: 83103},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2583, col: 5, offset: 83090},
+									pos: position{line: 2584, col: 5, offset: 83113},
 									run: (*parser).callonSymbol104,
 								},
 								&andExpr{
-									pos: position{line: 2587, col: 5, offset: 83179},
+									pos: position{line: 2588, col: 5, offset: 83202},
 									expr: &choiceExpr{
-										pos: position{line: 2587, col: 7, offset: 83181},
+										pos: position{line: 2588, col: 7, offset: 83204},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2767, col: 13, offset: 88297},
+												pos:        position{line: 2768, col: 13, offset: 88320},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2886, col: 12, offset: 91394},
+												pos: position{line: 2887, col: 12, offset: 91417},
 												run: (*parser).callonSymbol108,
 												expr: &choiceExpr{
-													pos: position{line: 2886, col: 13, offset: 91395},
+													pos: position{line: 2887, col: 13, offset: 91418},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2886, col: 13, offset: 91395},
+															pos:        position{line: 2887, col: 13, offset: 91418},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2886, col: 20, offset: 91402},
+															pos:        position{line: 2887, col: 20, offset: 91425},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2886, col: 29, offset: 91411},
+															pos:        position{line: 2887, col: 29, offset: 91434},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -47517,9 +47735,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2896, col: 8, offset: 91571},
+												pos: position{line: 2897, col: 8, offset: 91594},
 												expr: &anyMatcher{
-													line: 2896, col: 9, offset: 91572,
+													line: 2897, col: 9, offset: 91595,
 												},
 											},
 										},
@@ -47529,40 +47747,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2593, col: 21, offset: 83269},
+						pos: position{line: 2594, col: 21, offset: 83292},
 						run: (*parser).callonSymbol115,
 						expr: &litMatcher{
-							pos:        position{line: 2593, col: 21, offset: 83269},
+							pos:        position{line: 2594, col: 21, offset: 83292},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2597, col: 20, offset: 83339},
+						pos: position{line: 2598, col: 20, offset: 83362},
 						run: (*parser).callonSymbol117,
 						expr: &litMatcher{
-							pos:        position{line: 2597, col: 20, offset: 83339},
+							pos:        position{line: 2598, col: 20, offset: 83362},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2601, col: 21, offset: 83410},
+						pos: position{line: 2602, col: 21, offset: 83433},
 						run: (*parser).callonSymbol119,
 						expr: &litMatcher{
-							pos:        position{line: 2601, col: 21, offset: 83410},
+							pos:        position{line: 2602, col: 21, offset: 83433},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2605, col: 20, offset: 83480},
+						pos: position{line: 2606, col: 20, offset: 83503},
 						run: (*parser).callonSymbol121,
 						expr: &litMatcher{
-							pos:        position{line: 2605, col: 20, offset: 83480},
+							pos:        position{line: 2606, col: 20, offset: 83503},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -47573,43 +47791,43 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2539, col: 1, offset: 81858},
+			pos:  position{line: 2540, col: 1, offset: 81881},
 			expr: &choiceExpr{
-				pos: position{line: 2540, col: 5, offset: 81880},
+				pos: position{line: 2541, col: 5, offset: 81903},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2540, col: 5, offset: 81880},
+						pos: position{line: 2541, col: 5, offset: 81903},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2540, col: 5, offset: 81880},
+							pos: position{line: 2541, col: 5, offset: 81903},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2540, col: 5, offset: 81880},
+									pos:        position{line: 2541, col: 5, offset: 81903},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2540, col: 11, offset: 81886},
+									pos: position{line: 2541, col: 11, offset: 81909},
 									expr: &seqExpr{
-										pos: position{line: 2090, col: 5, offset: 67792},
+										pos: position{line: 2091, col: 5, offset: 67815},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2090, col: 5, offset: 67792},
+												pos:        position{line: 2091, col: 5, offset: 67815},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2091, col: 5, offset: 67801},
+												pos: position{line: 2092, col: 5, offset: 67824},
 												run: (*parser).callonQuotationMark8,
 											},
 											&andExpr{
-												pos: position{line: 2095, col: 5, offset: 67924},
+												pos: position{line: 2096, col: 5, offset: 67947},
 												expr: &notExpr{
-													pos: position{line: 2095, col: 7, offset: 67926},
+													pos: position{line: 2096, col: 7, offset: 67949},
 													expr: &litMatcher{
-														pos:        position{line: 2095, col: 8, offset: 67927},
+														pos:        position{line: 2096, col: 8, offset: 67950},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -47623,21 +47841,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2543, col: 7, offset: 82039},
+						pos: position{line: 2544, col: 7, offset: 82062},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2543, col: 7, offset: 82039},
+							pos: position{line: 2544, col: 7, offset: 82062},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2543, col: 7, offset: 82039},
+									pos:        position{line: 2544, col: 7, offset: 82062},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2543, col: 13, offset: 82045},
+									pos: position{line: 2544, col: 13, offset: 82068},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2543, col: 14, offset: 82046},
+										pos:  position{line: 2544, col: 14, offset: 82069},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -47645,38 +47863,38 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2546, col: 7, offset: 82196},
+						pos: position{line: 2547, col: 7, offset: 82219},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2546, col: 7, offset: 82196},
+							pos: position{line: 2547, col: 7, offset: 82219},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2546, col: 7, offset: 82196},
+									pos:        position{line: 2547, col: 7, offset: 82219},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2546, col: 12, offset: 82201},
+									pos: position{line: 2547, col: 12, offset: 82224},
 									expr: &seqExpr{
-										pos: position{line: 2090, col: 5, offset: 67792},
+										pos: position{line: 2091, col: 5, offset: 67815},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2090, col: 5, offset: 67792},
+												pos:        position{line: 2091, col: 5, offset: 67815},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2091, col: 5, offset: 67801},
+												pos: position{line: 2092, col: 5, offset: 67824},
 												run: (*parser).callonQuotationMark23,
 											},
 											&andExpr{
-												pos: position{line: 2095, col: 5, offset: 67924},
+												pos: position{line: 2096, col: 5, offset: 67947},
 												expr: &notExpr{
-													pos: position{line: 2095, col: 7, offset: 67926},
+													pos: position{line: 2096, col: 7, offset: 67949},
 													expr: &litMatcher{
-														pos:        position{line: 2095, col: 8, offset: 67927},
+														pos:        position{line: 2096, col: 8, offset: 67950},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -47690,21 +47908,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2549, col: 7, offset: 82354},
+						pos: position{line: 2550, col: 7, offset: 82377},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2549, col: 7, offset: 82354},
+							pos: position{line: 2550, col: 7, offset: 82377},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2549, col: 7, offset: 82354},
+									pos:        position{line: 2550, col: 7, offset: 82377},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2549, col: 12, offset: 82359},
+									pos: position{line: 2550, col: 12, offset: 82382},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2549, col: 13, offset: 82360},
+										pos:  position{line: 2550, col: 13, offset: 82383},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -47716,63 +47934,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2682, col: 1, offset: 85382},
+			pos:  position{line: 2683, col: 1, offset: 85405},
 			expr: &actionExpr{
-				pos: position{line: 2682, col: 26, offset: 85407},
+				pos: position{line: 2683, col: 26, offset: 85430},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2682, col: 26, offset: 85407},
+					pos: position{line: 2683, col: 26, offset: 85430},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2682, col: 26, offset: 85407},
+							pos:   position{line: 2683, col: 26, offset: 85430},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2682, col: 31, offset: 85412},
+								pos: position{line: 2683, col: 31, offset: 85435},
 								expr: &actionExpr{
-									pos: position{line: 2687, col: 5, offset: 85475},
+									pos: position{line: 2688, col: 5, offset: 85498},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2687, col: 5, offset: 85475},
+										pos: position{line: 2688, col: 5, offset: 85498},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2894, col: 11, offset: 91557},
+												pos: position{line: 2895, col: 11, offset: 91580},
 												expr: &anyMatcher{
-													line: 2894, col: 13, offset: 91559,
+													line: 2895, col: 13, offset: 91582,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2690, col: 5, offset: 85601},
+												pos:   position{line: 2691, col: 5, offset: 85624},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2690, col: 16, offset: 85612},
+													pos: position{line: 2691, col: 16, offset: 85635},
 													expr: &actionExpr{
-														pos: position{line: 2690, col: 17, offset: 85613},
+														pos: position{line: 2691, col: 17, offset: 85636},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2690, col: 17, offset: 85613},
+															pos: position{line: 2691, col: 17, offset: 85636},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2690, col: 17, offset: 85613},
+																	pos:   position{line: 2691, col: 17, offset: 85636},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2869, col: 12, offset: 91050},
+																		pos: position{line: 2870, col: 12, offset: 91073},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2869, col: 13, offset: 91051},
+																			pos: position{line: 2870, col: 13, offset: 91074},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2869, col: 13, offset: 91051},
+																					pos: position{line: 2870, col: 13, offset: 91074},
 																					expr: &litMatcher{
-																						pos:        position{line: 2869, col: 13, offset: 91051},
+																						pos:        position{line: 2870, col: 13, offset: 91074},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2869, col: 18, offset: 91056},
+																					pos: position{line: 2870, col: 18, offset: 91079},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2869, col: 18, offset: 91056},
+																						pos:        position{line: 2870, col: 18, offset: 91079},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -47784,7 +48002,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2690, col: 27, offset: 85623},
+																	pos:        position{line: 2691, col: 27, offset: 85646},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -47795,38 +48013,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2691, col: 5, offset: 85651},
+												pos:   position{line: 2692, col: 5, offset: 85674},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2691, col: 12, offset: 85658},
+													pos: position{line: 2692, col: 12, offset: 85681},
 													expr: &choiceExpr{
-														pos: position{line: 2692, col: 9, offset: 85668},
+														pos: position{line: 2693, col: 9, offset: 85691},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2692, col: 9, offset: 85668},
+																pos: position{line: 2693, col: 9, offset: 85691},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2692, col: 9, offset: 85668},
+																	pos:        position{line: 2693, col: 9, offset: 85691},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2693, col: 11, offset: 85715},
+																pos: position{line: 2694, col: 11, offset: 85738},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2693, col: 11, offset: 85715},
+																	pos:        position{line: 2694, col: 11, offset: 85738},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2694, col: 11, offset: 85763},
+																pos: position{line: 2695, col: 11, offset: 85786},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2694, col: 11, offset: 85763},
+																	pos:        position{line: 2695, col: 11, offset: 85786},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -47837,38 +48055,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2696, col: 5, offset: 85813},
+												pos:   position{line: 2697, col: 5, offset: 85836},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2696, col: 12, offset: 85820},
+													pos: position{line: 2697, col: 12, offset: 85843},
 													expr: &choiceExpr{
-														pos: position{line: 2697, col: 9, offset: 85830},
+														pos: position{line: 2698, col: 9, offset: 85853},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2697, col: 9, offset: 85830},
+																pos: position{line: 2698, col: 9, offset: 85853},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2697, col: 9, offset: 85830},
+																	pos:        position{line: 2698, col: 9, offset: 85853},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2698, col: 11, offset: 85877},
+																pos: position{line: 2699, col: 11, offset: 85900},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2698, col: 11, offset: 85877},
+																	pos:        position{line: 2699, col: 11, offset: 85900},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2699, col: 11, offset: 85927},
+																pos: position{line: 2700, col: 11, offset: 85950},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2699, col: 11, offset: 85927},
+																	pos:        position{line: 2700, col: 11, offset: 85950},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -47879,32 +48097,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2701, col: 5, offset: 85978},
+												pos:   position{line: 2702, col: 5, offset: 86001},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2701, col: 12, offset: 85985},
+													pos: position{line: 2702, col: 12, offset: 86008},
 													expr: &choiceExpr{
-														pos: position{line: 2701, col: 13, offset: 85986},
+														pos: position{line: 2702, col: 13, offset: 86009},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2869, col: 12, offset: 91050},
+																pos: position{line: 2870, col: 12, offset: 91073},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2869, col: 13, offset: 91051},
+																	pos: position{line: 2870, col: 13, offset: 91074},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2869, col: 13, offset: 91051},
+																			pos: position{line: 2870, col: 13, offset: 91074},
 																			expr: &litMatcher{
-																				pos:        position{line: 2869, col: 13, offset: 91051},
+																				pos:        position{line: 2870, col: 13, offset: 91074},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2869, col: 18, offset: 91056},
+																			pos: position{line: 2870, col: 18, offset: 91079},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2869, col: 18, offset: 91056},
+																				pos:        position{line: 2870, col: 18, offset: 91079},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -47915,10 +48133,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2701, col: 24, offset: 85997},
+																pos: position{line: 2702, col: 24, offset: 86020},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2701, col: 24, offset: 85997},
+																	pos:        position{line: 2702, col: 24, offset: 86020},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -47929,15 +48147,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2702, col: 5, offset: 86039},
+												pos:   position{line: 2703, col: 5, offset: 86062},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2702, col: 11, offset: 86045},
+													pos: position{line: 2703, col: 11, offset: 86068},
 													expr: &actionExpr{
-														pos: position{line: 2702, col: 12, offset: 86046},
+														pos: position{line: 2703, col: 12, offset: 86069},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2702, col: 12, offset: 86046},
+															pos:        position{line: 2703, col: 12, offset: 86069},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -47947,12 +48165,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2704, col: 5, offset: 86176},
+												pos:   position{line: 2705, col: 5, offset: 86199},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2704, col: 11, offset: 86182},
+													pos: position{line: 2705, col: 11, offset: 86205},
 													expr: &litMatcher{
-														pos:        position{line: 2704, col: 12, offset: 86183},
+														pos:        position{line: 2705, col: 12, offset: 86206},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -47960,7 +48178,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2705, col: 5, offset: 86193},
+												pos: position{line: 2706, col: 5, offset: 86216},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -47969,9 +48187,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2896, col: 8, offset: 91571},
+							pos: position{line: 2897, col: 8, offset: 91594},
 							expr: &anyMatcher{
-								line: 2896, col: 9, offset: 91572,
+								line: 2897, col: 9, offset: 91595,
 							},
 						},
 					},
@@ -47980,23 +48198,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2732, col: 1, offset: 87197},
+			pos:  position{line: 2733, col: 1, offset: 87220},
 			expr: &actionExpr{
-				pos: position{line: 2733, col: 5, offset: 87220},
+				pos: position{line: 2734, col: 5, offset: 87243},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2733, col: 5, offset: 87220},
+					pos: position{line: 2734, col: 5, offset: 87243},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2733, col: 5, offset: 87220},
+							pos:   position{line: 2734, col: 5, offset: 87243},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2756, col: 18, offset: 87961},
+								pos: position{line: 2757, col: 18, offset: 87984},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2756, col: 19, offset: 87962},
+									pos: position{line: 2757, col: 19, offset: 87985},
 									expr: &charClassMatcher{
-										pos:        position{line: 2756, col: 19, offset: 87962},
+										pos:        position{line: 2757, col: 19, offset: 87985},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48007,25 +48225,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2734, col: 5, offset: 87246},
+							pos: position{line: 2735, col: 5, offset: 87269},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2738, col: 5, offset: 87374},
+							pos:        position{line: 2739, col: 5, offset: 87397},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2739, col: 5, offset: 87384},
+							pos:   position{line: 2740, col: 5, offset: 87407},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2760, col: 19, offset: 88037},
+								pos: position{line: 2761, col: 19, offset: 88060},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2760, col: 19, offset: 88037},
+									pos: position{line: 2761, col: 19, offset: 88060},
 									expr: &charClassMatcher{
-										pos:        position{line: 2760, col: 19, offset: 88037},
+										pos:        position{line: 2761, col: 19, offset: 88060},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -48035,36 +48253,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2740, col: 5, offset: 87412},
+							pos:   position{line: 2741, col: 5, offset: 87435},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2740, col: 17, offset: 87424},
+								pos:  position{line: 2741, col: 17, offset: 87447},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2899, col: 8, offset: 91621},
+							pos: position{line: 2900, col: 8, offset: 91644},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2886, col: 12, offset: 91394},
+									pos: position{line: 2887, col: 12, offset: 91417},
 									run: (*parser).callonUserMacroBlock16,
 									expr: &choiceExpr{
-										pos: position{line: 2886, col: 13, offset: 91395},
+										pos: position{line: 2887, col: 13, offset: 91418},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2886, col: 13, offset: 91395},
+												pos:        position{line: 2887, col: 13, offset: 91418},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2886, col: 20, offset: 91402},
+												pos:        position{line: 2887, col: 20, offset: 91425},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2886, col: 29, offset: 91411},
+												pos:        position{line: 2887, col: 29, offset: 91434},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -48073,9 +48291,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2896, col: 8, offset: 91571},
+									pos: position{line: 2897, col: 8, offset: 91594},
 									expr: &anyMatcher{
-										line: 2896, col: 9, offset: 91572,
+										line: 2897, col: 9, offset: 91595,
 									},
 								},
 							},
@@ -48086,23 +48304,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2744, col: 1, offset: 87572},
+			pos:  position{line: 2745, col: 1, offset: 87595},
 			expr: &actionExpr{
-				pos: position{line: 2745, col: 5, offset: 87596},
+				pos: position{line: 2746, col: 5, offset: 87619},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2745, col: 5, offset: 87596},
+					pos: position{line: 2746, col: 5, offset: 87619},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2745, col: 5, offset: 87596},
+							pos:   position{line: 2746, col: 5, offset: 87619},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2756, col: 18, offset: 87961},
+								pos: position{line: 2757, col: 18, offset: 87984},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2756, col: 19, offset: 87962},
+									pos: position{line: 2757, col: 19, offset: 87985},
 									expr: &charClassMatcher{
-										pos:        position{line: 2756, col: 19, offset: 87962},
+										pos:        position{line: 2757, col: 19, offset: 87985},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48113,25 +48331,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2746, col: 5, offset: 87622},
+							pos: position{line: 2747, col: 5, offset: 87645},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2750, col: 5, offset: 87750},
+							pos:        position{line: 2751, col: 5, offset: 87773},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2751, col: 5, offset: 87759},
+							pos:   position{line: 2752, col: 5, offset: 87782},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2760, col: 19, offset: 88037},
+								pos: position{line: 2761, col: 19, offset: 88060},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2760, col: 19, offset: 88037},
+									pos: position{line: 2761, col: 19, offset: 88060},
 									expr: &charClassMatcher{
-										pos:        position{line: 2760, col: 19, offset: 88037},
+										pos:        position{line: 2761, col: 19, offset: 88060},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -48141,10 +48359,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2752, col: 5, offset: 87787},
+							pos:   position{line: 2753, col: 5, offset: 87810},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2752, col: 17, offset: 87799},
+								pos:  position{line: 2753, col: 17, offset: 87822},
 								name: "InlineAttributes",
 							},
 						},
@@ -48154,43 +48372,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2831, col: 1, offset: 89870},
+			pos:  position{line: 2832, col: 1, offset: 89893},
 			expr: &actionExpr{
-				pos: position{line: 2831, col: 17, offset: 89886},
+				pos: position{line: 2832, col: 17, offset: 89909},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2831, col: 17, offset: 89886},
+					pos:   position{line: 2832, col: 17, offset: 89909},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2848, col: 5, offset: 90340},
+						pos: position{line: 2849, col: 5, offset: 90363},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2848, col: 5, offset: 90340},
+							pos:   position{line: 2849, col: 5, offset: 90363},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2848, col: 14, offset: 90349},
+								pos: position{line: 2849, col: 14, offset: 90372},
 								expr: &choiceExpr{
-									pos: position{line: 2849, col: 9, offset: 90359},
+									pos: position{line: 2850, col: 9, offset: 90382},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2849, col: 9, offset: 90359},
+											pos: position{line: 2850, col: 9, offset: 90382},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2849, col: 9, offset: 90359},
+												pos: position{line: 2850, col: 9, offset: 90382},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2849, col: 9, offset: 90359},
+														pos: position{line: 2850, col: 9, offset: 90382},
 														expr: &litMatcher{
-															pos:        position{line: 2849, col: 10, offset: 90360},
+															pos:        position{line: 2850, col: 10, offset: 90383},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2850, col: 9, offset: 90388},
+														pos: position{line: 2851, col: 9, offset: 90411},
 														expr: &charClassMatcher{
-															pos:        position{line: 2850, col: 10, offset: 90389},
+															pos:        position{line: 2851, col: 10, offset: 90412},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -48201,27 +48419,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2853, col: 11, offset: 90601},
+											pos: position{line: 2854, col: 11, offset: 90624},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2853, col: 11, offset: 90601},
+													pos:        position{line: 2854, col: 11, offset: 90624},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2853, col: 19, offset: 90609},
+													pos: position{line: 2854, col: 19, offset: 90632},
 													expr: &seqExpr{
-														pos: position{line: 2853, col: 21, offset: 90611},
+														pos: position{line: 2854, col: 21, offset: 90634},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2853, col: 21, offset: 90611},
+																pos: position{line: 2854, col: 21, offset: 90634},
 																expr: &actionExpr{
-																	pos: position{line: 2877, col: 10, offset: 91223},
+																	pos: position{line: 2878, col: 10, offset: 91246},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2877, col: 10, offset: 91223},
+																		pos:        position{line: 2878, col: 10, offset: 91246},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -48230,11 +48448,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2853, col: 28, offset: 90618},
+																pos: position{line: 2854, col: 28, offset: 90641},
 																expr: &notExpr{
-																	pos: position{line: 2896, col: 8, offset: 91571},
+																	pos: position{line: 2897, col: 8, offset: 91594},
 																	expr: &anyMatcher{
-																		line: 2896, col: 9, offset: 91572,
+																		line: 2897, col: 9, offset: 91595,
 																	},
 																},
 															},
@@ -48590,27 +48808,27 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1198, col: 23, offset: 37013},
+											pos: position{line: 1199, col: 23, offset: 37036},
 											run: (*parser).callonFileLocation92,
 											expr: &seqExpr{
-												pos: position{line: 1198, col: 23, offset: 37013},
+												pos: position{line: 1199, col: 23, offset: 37036},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 1196, col: 32, offset: 36981},
+														pos:        position{line: 1197, col: 32, offset: 37004},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 1198, col: 51, offset: 37041},
+														pos:   position{line: 1199, col: 51, offset: 37064},
 														label: "ref",
 														expr: &actionExpr{
-															pos: position{line: 1198, col: 56, offset: 37046},
+															pos: position{line: 1199, col: 56, offset: 37069},
 															run: (*parser).callonFileLocation96,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 1198, col: 56, offset: 37046},
+																pos: position{line: 1199, col: 56, offset: 37069},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1198, col: 56, offset: 37046},
+																	pos:        position{line: 1199, col: 56, offset: 37069},
 																	val:        "[0-9]",
 																	ranges:     []rune{'0', '9'},
 																	ignoreCase: false,
@@ -48620,23 +48838,23 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 1196, col: 32, offset: 36981},
+														pos:        position{line: 1197, col: 32, offset: 37004},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 1199, col: 5, offset: 37118},
+														pos: position{line: 1200, col: 5, offset: 37141},
 														run: (*parser).callonFileLocation100,
 													},
 												},
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2856, col: 11, offset: 90738},
+											pos: position{line: 2857, col: 11, offset: 90761},
 											run: (*parser).callonFileLocation101,
 											expr: &litMatcher{
-												pos:        position{line: 2856, col: 11, offset: 90738},
+												pos:        position{line: 2857, col: 11, offset: 90761},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -56644,16 +56862,126 @@ func (p *parser) callonCrossReference32() (interface{}, error) {
 	return p.cur.onCrossReference32(stack["name"])
 }
 
-func (c *current) onCrossReference42() (interface{}, error) {
+func (c *current) onCrossReference46() (interface{}, error) {
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonCrossReference46() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onCrossReference46()
+}
 
-	return types.NewStringElement(string(c.text))
+func (c *current) onCrossReference58() (interface{}, error) {
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonCrossReference58() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onCrossReference58()
+}
+
+func (c *current) onCrossReference60() (interface{}, error) {
+
+	return strconv.Atoi(string(c.text))
+
+}
+
+func (p *parser) callonCrossReference60() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onCrossReference60()
+}
+
+func (c *current) onCrossReference53(start interface{}) (interface{}, error) {
+	return start, nil
 
 }
 
+func (p *parser) callonCrossReference53() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onCrossReference53(stack["start"])
+}
+
+func (c *current) onCrossReference42(name, start interface{}) (interface{}, error) {
+	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
+}
+
 func (p *parser) callonCrossReference42() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onCrossReference42()
+	return p.cur.onCrossReference42(stack["name"], stack["start"])
+}
+
+func (c *current) onCrossReference68() (interface{}, error) {
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonCrossReference68() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onCrossReference68()
+}
+
+func (c *current) onCrossReference80() (interface{}, error) {
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonCrossReference80() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onCrossReference80()
+}
+
+func (c *current) onCrossReference82() (interface{}, error) {
+
+	return strconv.Atoi(string(c.text))
+
+}
+
+func (p *parser) callonCrossReference82() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onCrossReference82()
+}
+
+func (c *current) onCrossReference75(start interface{}) (interface{}, error) {
+	return start, nil
+
+}
+
+func (p *parser) callonCrossReference75() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onCrossReference75(stack["start"])
+}
+
+func (c *current) onCrossReference64(name, start interface{}) (interface{}, error) {
+	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
+}
+
+func (p *parser) callonCrossReference64() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onCrossReference64(stack["name"], stack["start"])
+}
+
+func (c *current) onCrossReference86() (interface{}, error) {
+
+	return types.NewStringElement(string(c.text))
+
+}
+
+func (p *parser) callonCrossReference86() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onCrossReference86()
 }
 
 func (c *current) onCrossReference2(id, label interface{}) (interface{}, error) {
@@ -56667,27 +56995,27 @@ func (p *parser) callonCrossReference2() (interface{}, error) {
 	return p.cur.onCrossReference2(stack["id"], stack["label"])
 }
 
-func (c *current) onCrossReference49() (interface{}, error) {
+func (c *current) onCrossReference93() (interface{}, error) {
 	// previously:(Alphas / (!Newline !Space !"[" !"]" !"<<" !">>" !","  .))+
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonCrossReference49() (interface{}, error) {
+func (p *parser) callonCrossReference93() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onCrossReference49()
+	return p.cur.onCrossReference93()
 }
 
-func (c *current) onCrossReference45(id interface{}) (interface{}, error) {
+func (c *current) onCrossReference89(id interface{}) (interface{}, error) {
 	return types.NewInternalCrossReference(id, nil)
 
 }
 
-func (p *parser) callonCrossReference45() (interface{}, error) {
+func (p *parser) callonCrossReference89() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onCrossReference45(stack["id"])
+	return p.cur.onCrossReference89(stack["id"])
 }
 
 func (c *current) onExternalCrossReference11() (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index ba6c88c..e838a6b 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -698,6 +698,7 @@ CrossReferenceLabel <- (
         return types.NewStringElement(string(c.text))
     })
     / AttributeReferenceValue
+    / CounterReference
     / ("{" { 
         return types.NewStringElement(string(c.text))
     })
-- 
2.43.0


From aa4d53dee54cdcb916f156936611acdb97211610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:32 +0000
Subject: [PATCH 125/143] fix: identifier of the 'Name' section of manpages

---
 pkg/renderer/sgml/html5/manpage.go | 2 +-
 pkg/renderer/sgml/sgml.go          | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/renderer/sgml/html5/manpage.go b/pkg/renderer/sgml/html5/manpage.go
index 83cf518..ab79f4e 100644
--- a/pkg/renderer/sgml/html5/manpage.go
+++ b/pkg/renderer/sgml/html5/manpage.go
@@ -3,7 +3,7 @@ package html5
 const (
 	manpageHeaderTmpl = `{{ if.IncludeH1 }}<div id="header">
 <h1>{{ .Header }} Manual Page</h1>
-{{ end }}<h2 id="_name">{{ .Name }}</h2>
+{{ end }}<h2 id="{{ toLower .ID }}">{{ .Name }}</h2>
 <div class="sectionbody">
 {{ .Content }}</div>
 {{ if .IncludeH1 }}</div>
diff --git a/pkg/renderer/sgml/sgml.go b/pkg/renderer/sgml/sgml.go
index 0e698f3..ef1be70 100644
--- a/pkg/renderer/sgml/sgml.go
+++ b/pkg/renderer/sgml/sgml.go
@@ -329,11 +329,13 @@ func (r *sgmlRenderer) renderManpageHeader(ctx *context, header *types.DocumentH
 	}
 	if err = tmpl.Execute(output, struct {
 		Header    string
+		ID        string
 		Name      string
 		Content   string
 		IncludeH1 bool
 	}{
 		Header:    renderedHeader,
+		ID:        r.renderElementID(nameSection.Attributes),
 		Name:      renderedName,
 		Content:   string(renderedContent),
 		IncludeH1: len(renderedHeader) > 0,
-- 
2.43.0


From 41931d2bfc759be395c48d7b3c40e1487daa9bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:40 +0000
Subject: [PATCH 126/143] fix: quoted text at the beginning of a section title
 was not recognised after another title

---
 pkg/parser/parser.go     | 9014 +++++++++++++++++++-------------------
 pkg/parser/parser.peg    |    2 +
 pkg/parser/parser_ext.go |    5 +
 3 files changed, 4515 insertions(+), 4506 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index ef4a334..12e07a5 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 359, col: 49, offset: 10879},
 													expr: &actionExpr{
-														pos: position{line: 2878, col: 10, offset: 91246},
+														pos: position{line: 2880, col: 10, offset: 91317},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2878, col: 10, offset: 91246},
+															pos:        position{line: 2880, col: 10, offset: 91317},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2900, col: 8, offset: 91644},
+													pos: position{line: 2902, col: 8, offset: 91715},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2887, col: 12, offset: 91417},
+															pos: position{line: 2889, col: 12, offset: 91488},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2887, col: 13, offset: 91418},
+																pos: position{line: 2889, col: 13, offset: 91489},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2887, col: 13, offset: 91418},
+																		pos:        position{line: 2889, col: 13, offset: 91489},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2887, col: 20, offset: 91425},
+																		pos:        position{line: 2889, col: 20, offset: 91496},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2887, col: 29, offset: 91434},
+																		pos:        position{line: 2889, col: 29, offset: 91505},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2897, col: 8, offset: 91594},
+															pos: position{line: 2899, col: 8, offset: 91665},
 															expr: &anyMatcher{
-																line: 2897, col: 9, offset: 91595,
+																line: 2899, col: 9, offset: 91666,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 361, col: 39, offset: 11000},
 													expr: &actionExpr{
-														pos: position{line: 2878, col: 10, offset: 91246},
+														pos: position{line: 2880, col: 10, offset: 91317},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2878, col: 10, offset: 91246},
+															pos:        position{line: 2880, col: 10, offset: 91317},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2900, col: 8, offset: 91644},
+													pos: position{line: 2902, col: 8, offset: 91715},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2887, col: 12, offset: 91417},
+															pos: position{line: 2889, col: 12, offset: 91488},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2887, col: 13, offset: 91418},
+																pos: position{line: 2889, col: 13, offset: 91489},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2887, col: 13, offset: 91418},
+																		pos:        position{line: 2889, col: 13, offset: 91489},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2887, col: 20, offset: 91425},
+																		pos:        position{line: 2889, col: 20, offset: 91496},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2887, col: 29, offset: 91434},
+																		pos:        position{line: 2889, col: 29, offset: 91505},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2897, col: 8, offset: 91594},
+															pos: position{line: 2899, col: 8, offset: 91665},
 															expr: &anyMatcher{
-																line: 2897, col: 9, offset: 91595,
+																line: 2899, col: 9, offset: 91666,
 															},
 														},
 													},
@@ -321,10 +321,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 78, col: 41, offset: 2149},
 																						expr: &actionExpr{
-																							pos: position{line: 2878, col: 10, offset: 91246},
+																							pos: position{line: 2880, col: 10, offset: 91317},
 																							run: (*parser).callonDocumentRawLine66,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2878, col: 10, offset: 91246},
+																								pos:        position{line: 2880, col: 10, offset: 91317},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -333,9 +333,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2897, col: 8, offset: 91594},
+																						pos: position{line: 2899, col: 8, offset: 91665},
 																						expr: &anyMatcher{
-																							line: 2897, col: 9, offset: 91595,
+																							line: 2899, col: 9, offset: 91666,
 																						},
 																					},
 																				},
@@ -363,10 +363,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2878, col: 10, offset: 91246},
+														pos: position{line: 2880, col: 10, offset: 91317},
 														run: (*parser).callonDocumentRawLine73,
 														expr: &charClassMatcher{
-															pos:        position{line: 2878, col: 10, offset: 91246},
+															pos:        position{line: 2880, col: 10, offset: 91317},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -375,9 +375,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2897, col: 8, offset: 91594},
+													pos: position{line: 2899, col: 8, offset: 91665},
 													expr: &anyMatcher{
-														line: 2897, col: 9, offset: 91595,
+														line: 2899, col: 9, offset: 91666,
 													},
 												},
 											},
@@ -446,10 +446,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 78, col: 41, offset: 2149},
 																						expr: &actionExpr{
-																							pos: position{line: 2878, col: 10, offset: 91246},
+																							pos: position{line: 2880, col: 10, offset: 91317},
 																							run: (*parser).callonDocumentRawLine94,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2878, col: 10, offset: 91246},
+																								pos:        position{line: 2880, col: 10, offset: 91317},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -458,9 +458,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2897, col: 8, offset: 91594},
+																						pos: position{line: 2899, col: 8, offset: 91665},
 																						expr: &anyMatcher{
-																							line: 2897, col: 9, offset: 91595,
+																							line: 2899, col: 9, offset: 91666,
 																						},
 																					},
 																				},
@@ -488,10 +488,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2878, col: 10, offset: 91246},
+														pos: position{line: 2880, col: 10, offset: 91317},
 														run: (*parser).callonDocumentRawLine101,
 														expr: &charClassMatcher{
-															pos:        position{line: 2878, col: 10, offset: 91246},
+															pos:        position{line: 2880, col: 10, offset: 91317},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -500,9 +500,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2897, col: 8, offset: 91594},
+													pos: position{line: 2899, col: 8, offset: 91665},
 													expr: &anyMatcher{
-														line: 2897, col: 9, offset: 91595,
+														line: 2899, col: 9, offset: 91666,
 													},
 												},
 											},
@@ -972,24 +972,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2874, col: 10, offset: 91149},
+																pos: position{line: 2876, col: 10, offset: 91220},
 																run: (*parser).callonDocumentRawLine197,
 																expr: &seqExpr{
-																	pos: position{line: 2874, col: 11, offset: 91150},
+																	pos: position{line: 2876, col: 11, offset: 91221},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2874, col: 11, offset: 91150},
+																			pos: position{line: 2876, col: 11, offset: 91221},
 																			expr: &litMatcher{
-																				pos:        position{line: 2874, col: 11, offset: 91150},
+																				pos:        position{line: 2876, col: 11, offset: 91221},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2874, col: 16, offset: 91155},
+																			pos: position{line: 2876, col: 16, offset: 91226},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2874, col: 16, offset: 91155},
+																				pos:        position{line: 2876, col: 16, offset: 91226},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -997,15 +997,15 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2874, col: 23, offset: 91162},
+																			pos:        position{line: 2876, col: 23, offset: 91233},
 																			val:        ".",
 																			ignoreCase: false,
 																			want:       "\".\"",
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2874, col: 27, offset: 91166},
+																			pos: position{line: 2876, col: 27, offset: 91237},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2874, col: 27, offset: 91166},
+																				pos:        position{line: 2876, col: 27, offset: 91237},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1016,24 +1016,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2870, col: 12, offset: 91073},
+																pos: position{line: 2872, col: 12, offset: 91144},
 																run: (*parser).callonDocumentRawLine206,
 																expr: &seqExpr{
-																	pos: position{line: 2870, col: 13, offset: 91074},
+																	pos: position{line: 2872, col: 13, offset: 91145},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2870, col: 13, offset: 91074},
+																			pos: position{line: 2872, col: 13, offset: 91145},
 																			expr: &litMatcher{
-																				pos:        position{line: 2870, col: 13, offset: 91074},
+																				pos:        position{line: 2872, col: 13, offset: 91145},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2870, col: 18, offset: 91079},
+																			pos: position{line: 2872, col: 18, offset: 91150},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2870, col: 18, offset: 91079},
+																				pos:        position{line: 2872, col: 18, offset: 91150},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1049,10 +1049,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2280},
 													expr: &actionExpr{
-														pos: position{line: 2878, col: 10, offset: 91246},
+														pos: position{line: 2880, col: 10, offset: 91317},
 														run: (*parser).callonDocumentRawLine213,
 														expr: &charClassMatcher{
-															pos:        position{line: 2878, col: 10, offset: 91246},
+															pos:        position{line: 2880, col: 10, offset: 91317},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1132,10 +1132,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2326},
 													expr: &actionExpr{
-														pos: position{line: 2878, col: 10, offset: 91246},
+														pos: position{line: 2880, col: 10, offset: 91317},
 														run: (*parser).callonDocumentRawLine230,
 														expr: &charClassMatcher{
-															pos:        position{line: 2878, col: 10, offset: 91246},
+															pos:        position{line: 2880, col: 10, offset: 91317},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1595,24 +1595,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2874, col: 10, offset: 91149},
+																pos: position{line: 2876, col: 10, offset: 91220},
 																run: (*parser).callonDocumentRawLine321,
 																expr: &seqExpr{
-																	pos: position{line: 2874, col: 11, offset: 91150},
+																	pos: position{line: 2876, col: 11, offset: 91221},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2874, col: 11, offset: 91150},
+																			pos: position{line: 2876, col: 11, offset: 91221},
 																			expr: &litMatcher{
-																				pos:        position{line: 2874, col: 11, offset: 91150},
+																				pos:        position{line: 2876, col: 11, offset: 91221},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2874, col: 16, offset: 91155},
+																			pos: position{line: 2876, col: 16, offset: 91226},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2874, col: 16, offset: 91155},
+																				pos:        position{line: 2876, col: 16, offset: 91226},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1620,15 +1620,15 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2874, col: 23, offset: 91162},
+																			pos:        position{line: 2876, col: 23, offset: 91233},
 																			val:        ".",
 																			ignoreCase: false,
 																			want:       "\".\"",
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2874, col: 27, offset: 91166},
+																			pos: position{line: 2876, col: 27, offset: 91237},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2874, col: 27, offset: 91166},
+																				pos:        position{line: 2876, col: 27, offset: 91237},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1639,24 +1639,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2870, col: 12, offset: 91073},
+																pos: position{line: 2872, col: 12, offset: 91144},
 																run: (*parser).callonDocumentRawLine330,
 																expr: &seqExpr{
-																	pos: position{line: 2870, col: 13, offset: 91074},
+																	pos: position{line: 2872, col: 13, offset: 91145},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2870, col: 13, offset: 91074},
+																			pos: position{line: 2872, col: 13, offset: 91145},
 																			expr: &litMatcher{
-																				pos:        position{line: 2870, col: 13, offset: 91074},
+																				pos:        position{line: 2872, col: 13, offset: 91145},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2870, col: 18, offset: 91079},
+																			pos: position{line: 2872, col: 18, offset: 91150},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2870, col: 18, offset: 91079},
+																				pos:        position{line: 2872, col: 18, offset: 91150},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1678,10 +1678,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2378},
 													expr: &actionExpr{
-														pos: position{line: 2878, col: 10, offset: 91246},
+														pos: position{line: 2880, col: 10, offset: 91317},
 														run: (*parser).callonDocumentRawLine338,
 														expr: &charClassMatcher{
-															pos:        position{line: 2878, col: 10, offset: 91246},
+															pos:        position{line: 2880, col: 10, offset: 91317},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1690,9 +1690,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2897, col: 8, offset: 91594},
+													pos: position{line: 2899, col: 8, offset: 91665},
 													expr: &anyMatcher{
-														line: 2897, col: 9, offset: 91595,
+														line: 2899, col: 9, offset: 91666,
 													},
 												},
 											},
@@ -1764,10 +1764,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 78, col: 41, offset: 2149},
 																						expr: &actionExpr{
-																							pos: position{line: 2878, col: 10, offset: 91246},
+																							pos: position{line: 2880, col: 10, offset: 91317},
 																							run: (*parser).callonDocumentRawLine360,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2878, col: 10, offset: 91246},
+																								pos:        position{line: 2880, col: 10, offset: 91317},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -1776,9 +1776,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2897, col: 8, offset: 91594},
+																						pos: position{line: 2899, col: 8, offset: 91665},
 																						expr: &anyMatcher{
-																							line: 2897, col: 9, offset: 91595,
+																							line: 2899, col: 9, offset: 91666,
 																						},
 																					},
 																				},
@@ -1806,10 +1806,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3474},
 													expr: &actionExpr{
-														pos: position{line: 2878, col: 10, offset: 91246},
+														pos: position{line: 2880, col: 10, offset: 91317},
 														run: (*parser).callonDocumentRawLine367,
 														expr: &charClassMatcher{
-															pos:        position{line: 2878, col: 10, offset: 91246},
+															pos:        position{line: 2880, col: 10, offset: 91317},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1818,9 +1818,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2897, col: 8, offset: 91594},
+													pos: position{line: 2899, col: 8, offset: 91665},
 													expr: &anyMatcher{
-														line: 2897, col: 9, offset: 91595,
+														line: 2899, col: 9, offset: 91666,
 													},
 												},
 											},
@@ -1835,7 +1835,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 725, col: 5, offset: 23101},
 													expr: &charClassMatcher{
-														pos:        position{line: 2768, col: 13, offset: 88320},
+														pos:        position{line: 2770, col: 13, offset: 88391},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1885,10 +1885,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 743, col: 8, offset: 23745},
 																			expr: &actionExpr{
-																				pos: position{line: 2878, col: 10, offset: 91246},
+																				pos: position{line: 2880, col: 10, offset: 91317},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2878, col: 10, offset: 91246},
+																					pos:        position{line: 2880, col: 10, offset: 91317},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1897,28 +1897,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2900, col: 8, offset: 91644},
+																			pos: position{line: 2902, col: 8, offset: 91715},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2887, col: 12, offset: 91417},
+																					pos: position{line: 2889, col: 12, offset: 91488},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2887, col: 13, offset: 91418},
+																						pos: position{line: 2889, col: 13, offset: 91489},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2887, col: 13, offset: 91418},
+																								pos:        position{line: 2889, col: 13, offset: 91489},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2887, col: 20, offset: 91425},
+																								pos:        position{line: 2889, col: 20, offset: 91496},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2887, col: 29, offset: 91434},
+																								pos:        position{line: 2889, col: 29, offset: 91505},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1927,9 +1927,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2897, col: 8, offset: 91594},
+																					pos: position{line: 2899, col: 8, offset: 91665},
 																					expr: &anyMatcher{
-																						line: 2897, col: 9, offset: 91595,
+																						line: 2899, col: 9, offset: 91666,
 																					},
 																				},
 																			},
@@ -1974,10 +1974,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 750, col: 8, offset: 23993},
 																			expr: &actionExpr{
-																				pos: position{line: 2878, col: 10, offset: 91246},
+																				pos: position{line: 2880, col: 10, offset: 91317},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2878, col: 10, offset: 91246},
+																					pos:        position{line: 2880, col: 10, offset: 91317},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1986,28 +1986,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2900, col: 8, offset: 91644},
+																			pos: position{line: 2902, col: 8, offset: 91715},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2887, col: 12, offset: 91417},
+																					pos: position{line: 2889, col: 12, offset: 91488},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2887, col: 13, offset: 91418},
+																						pos: position{line: 2889, col: 13, offset: 91489},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2887, col: 13, offset: 91418},
+																								pos:        position{line: 2889, col: 13, offset: 91489},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2887, col: 20, offset: 91425},
+																								pos:        position{line: 2889, col: 20, offset: 91496},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2887, col: 29, offset: 91434},
+																								pos:        position{line: 2889, col: 29, offset: 91505},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2016,9 +2016,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2897, col: 8, offset: 91594},
+																					pos: position{line: 2899, col: 8, offset: 91665},
 																					expr: &anyMatcher{
-																						line: 2897, col: 9, offset: 91595,
+																						line: 2899, col: 9, offset: 91666,
 																					},
 																				},
 																			},
@@ -2059,10 +2059,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 761, col: 52, offset: 24405},
 																			expr: &actionExpr{
-																				pos: position{line: 2878, col: 10, offset: 91246},
+																				pos: position{line: 2880, col: 10, offset: 91317},
 																				run: (*parser).callonDocumentRawLine423,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2878, col: 10, offset: 91246},
+																					pos:        position{line: 2880, col: 10, offset: 91317},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2071,28 +2071,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2900, col: 8, offset: 91644},
+																			pos: position{line: 2902, col: 8, offset: 91715},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2887, col: 12, offset: 91417},
+																					pos: position{line: 2889, col: 12, offset: 91488},
 																					run: (*parser).callonDocumentRawLine426,
 																					expr: &choiceExpr{
-																						pos: position{line: 2887, col: 13, offset: 91418},
+																						pos: position{line: 2889, col: 13, offset: 91489},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2887, col: 13, offset: 91418},
+																								pos:        position{line: 2889, col: 13, offset: 91489},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2887, col: 20, offset: 91425},
+																								pos:        position{line: 2889, col: 20, offset: 91496},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2887, col: 29, offset: 91434},
+																								pos:        position{line: 2889, col: 29, offset: 91505},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2101,9 +2101,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2897, col: 8, offset: 91594},
+																					pos: position{line: 2899, col: 8, offset: 91665},
 																					expr: &anyMatcher{
-																						line: 2897, col: 9, offset: 91595,
+																						line: 2899, col: 9, offset: 91666,
 																					},
 																				},
 																			},
@@ -2148,10 +2148,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 757, col: 8, offset: 24239},
 																			expr: &actionExpr{
-																				pos: position{line: 2878, col: 10, offset: 91246},
+																				pos: position{line: 2880, col: 10, offset: 91317},
 																				run: (*parser).callonDocumentRawLine442,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2878, col: 10, offset: 91246},
+																					pos:        position{line: 2880, col: 10, offset: 91317},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2160,28 +2160,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2900, col: 8, offset: 91644},
+																			pos: position{line: 2902, col: 8, offset: 91715},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2887, col: 12, offset: 91417},
+																					pos: position{line: 2889, col: 12, offset: 91488},
 																					run: (*parser).callonDocumentRawLine445,
 																					expr: &choiceExpr{
-																						pos: position{line: 2887, col: 13, offset: 91418},
+																						pos: position{line: 2889, col: 13, offset: 91489},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2887, col: 13, offset: 91418},
+																								pos:        position{line: 2889, col: 13, offset: 91489},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2887, col: 20, offset: 91425},
+																								pos:        position{line: 2889, col: 20, offset: 91496},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2887, col: 29, offset: 91434},
+																								pos:        position{line: 2889, col: 29, offset: 91505},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2190,9 +2190,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2897, col: 8, offset: 91594},
+																					pos: position{line: 2899, col: 8, offset: 91665},
 																					expr: &anyMatcher{
-																						line: 2897, col: 9, offset: 91595,
+																						line: 2899, col: 9, offset: 91666,
 																					},
 																				},
 																			},
@@ -2237,10 +2237,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 772, col: 8, offset: 24782},
 																			expr: &actionExpr{
-																				pos: position{line: 2878, col: 10, offset: 91246},
+																				pos: position{line: 2880, col: 10, offset: 91317},
 																				run: (*parser).callonDocumentRawLine461,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2878, col: 10, offset: 91246},
+																					pos:        position{line: 2880, col: 10, offset: 91317},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2249,28 +2249,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2900, col: 8, offset: 91644},
+																			pos: position{line: 2902, col: 8, offset: 91715},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2887, col: 12, offset: 91417},
+																					pos: position{line: 2889, col: 12, offset: 91488},
 																					run: (*parser).callonDocumentRawLine464,
 																					expr: &choiceExpr{
-																						pos: position{line: 2887, col: 13, offset: 91418},
+																						pos: position{line: 2889, col: 13, offset: 91489},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2887, col: 13, offset: 91418},
+																								pos:        position{line: 2889, col: 13, offset: 91489},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2887, col: 20, offset: 91425},
+																								pos:        position{line: 2889, col: 20, offset: 91496},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2887, col: 29, offset: 91434},
+																								pos:        position{line: 2889, col: 29, offset: 91505},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2279,9 +2279,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2897, col: 8, offset: 91594},
+																					pos: position{line: 2899, col: 8, offset: 91665},
 																					expr: &anyMatcher{
-																						line: 2897, col: 9, offset: 91595,
+																						line: 2899, col: 9, offset: 91666,
 																					},
 																				},
 																			},
@@ -2326,10 +2326,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 786, col: 8, offset: 25258},
 																			expr: &actionExpr{
-																				pos: position{line: 2878, col: 10, offset: 91246},
+																				pos: position{line: 2880, col: 10, offset: 91317},
 																				run: (*parser).callonDocumentRawLine480,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2878, col: 10, offset: 91246},
+																					pos:        position{line: 2880, col: 10, offset: 91317},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2338,28 +2338,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2900, col: 8, offset: 91644},
+																			pos: position{line: 2902, col: 8, offset: 91715},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2887, col: 12, offset: 91417},
+																					pos: position{line: 2889, col: 12, offset: 91488},
 																					run: (*parser).callonDocumentRawLine483,
 																					expr: &choiceExpr{
-																						pos: position{line: 2887, col: 13, offset: 91418},
+																						pos: position{line: 2889, col: 13, offset: 91489},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2887, col: 13, offset: 91418},
+																								pos:        position{line: 2889, col: 13, offset: 91489},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2887, col: 20, offset: 91425},
+																								pos:        position{line: 2889, col: 20, offset: 91496},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2887, col: 29, offset: 91434},
+																								pos:        position{line: 2889, col: 29, offset: 91505},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2368,9 +2368,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2897, col: 8, offset: 91594},
+																					pos: position{line: 2899, col: 8, offset: 91665},
 																					expr: &anyMatcher{
-																						line: 2897, col: 9, offset: 91595,
+																						line: 2899, col: 9, offset: 91666,
 																					},
 																				},
 																			},
@@ -2415,10 +2415,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 793, col: 8, offset: 25510},
 																			expr: &actionExpr{
-																				pos: position{line: 2878, col: 10, offset: 91246},
+																				pos: position{line: 2880, col: 10, offset: 91317},
 																				run: (*parser).callonDocumentRawLine499,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2878, col: 10, offset: 91246},
+																					pos:        position{line: 2880, col: 10, offset: 91317},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2427,28 +2427,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2900, col: 8, offset: 91644},
+																			pos: position{line: 2902, col: 8, offset: 91715},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2887, col: 12, offset: 91417},
+																					pos: position{line: 2889, col: 12, offset: 91488},
 																					run: (*parser).callonDocumentRawLine502,
 																					expr: &choiceExpr{
-																						pos: position{line: 2887, col: 13, offset: 91418},
+																						pos: position{line: 2889, col: 13, offset: 91489},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2887, col: 13, offset: 91418},
+																								pos:        position{line: 2889, col: 13, offset: 91489},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2887, col: 20, offset: 91425},
+																								pos:        position{line: 2889, col: 20, offset: 91496},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2887, col: 29, offset: 91434},
+																								pos:        position{line: 2889, col: 29, offset: 91505},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2457,9 +2457,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2897, col: 8, offset: 91594},
+																					pos: position{line: 2899, col: 8, offset: 91665},
 																					expr: &anyMatcher{
-																						line: 2897, col: 9, offset: 91595,
+																						line: 2899, col: 9, offset: 91666,
 																					},
 																				},
 																			},
@@ -2504,10 +2504,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 800, col: 8, offset: 25760},
 																			expr: &actionExpr{
-																				pos: position{line: 2878, col: 10, offset: 91246},
+																				pos: position{line: 2880, col: 10, offset: 91317},
 																				run: (*parser).callonDocumentRawLine518,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2878, col: 10, offset: 91246},
+																					pos:        position{line: 2880, col: 10, offset: 91317},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2516,28 +2516,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2900, col: 8, offset: 91644},
+																			pos: position{line: 2902, col: 8, offset: 91715},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2887, col: 12, offset: 91417},
+																					pos: position{line: 2889, col: 12, offset: 91488},
 																					run: (*parser).callonDocumentRawLine521,
 																					expr: &choiceExpr{
-																						pos: position{line: 2887, col: 13, offset: 91418},
+																						pos: position{line: 2889, col: 13, offset: 91489},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2887, col: 13, offset: 91418},
+																								pos:        position{line: 2889, col: 13, offset: 91489},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2887, col: 20, offset: 91425},
+																								pos:        position{line: 2889, col: 20, offset: 91496},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2887, col: 29, offset: 91434},
+																								pos:        position{line: 2889, col: 29, offset: 91505},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2546,9 +2546,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2897, col: 8, offset: 91594},
+																					pos: position{line: 2899, col: 8, offset: 91665},
 																					expr: &anyMatcher{
-																						line: 2897, col: 9, offset: 91595,
+																						line: 2899, col: 9, offset: 91666,
 																					},
 																				},
 																			},
@@ -2593,10 +2593,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 807, col: 8, offset: 26006},
 																			expr: &actionExpr{
-																				pos: position{line: 2878, col: 10, offset: 91246},
+																				pos: position{line: 2880, col: 10, offset: 91317},
 																				run: (*parser).callonDocumentRawLine537,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2878, col: 10, offset: 91246},
+																					pos:        position{line: 2880, col: 10, offset: 91317},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2605,28 +2605,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2900, col: 8, offset: 91644},
+																			pos: position{line: 2902, col: 8, offset: 91715},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2887, col: 12, offset: 91417},
+																					pos: position{line: 2889, col: 12, offset: 91488},
 																					run: (*parser).callonDocumentRawLine540,
 																					expr: &choiceExpr{
-																						pos: position{line: 2887, col: 13, offset: 91418},
+																						pos: position{line: 2889, col: 13, offset: 91489},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2887, col: 13, offset: 91418},
+																								pos:        position{line: 2889, col: 13, offset: 91489},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2887, col: 20, offset: 91425},
+																								pos:        position{line: 2889, col: 20, offset: 91496},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2887, col: 29, offset: 91434},
+																								pos:        position{line: 2889, col: 29, offset: 91505},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2635,9 +2635,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2897, col: 8, offset: 91594},
+																					pos: position{line: 2899, col: 8, offset: 91665},
 																					expr: &anyMatcher{
-																						line: 2897, col: 9, offset: 91595,
+																						line: 2899, col: 9, offset: 91666,
 																					},
 																				},
 																			},
@@ -2687,12 +2687,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine555,
 												},
 												&actionExpr{
-													pos: position{line: 2882, col: 11, offset: 91307},
+													pos: position{line: 2884, col: 11, offset: 91378},
 													run: (*parser).callonDocumentRawLine556,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2882, col: 11, offset: 91307},
+														pos: position{line: 2884, col: 11, offset: 91378},
 														expr: &charClassMatcher{
-															pos:        position{line: 2882, col: 11, offset: 91307},
+															pos:        position{line: 2884, col: 11, offset: 91378},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2701,12 +2701,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2828, col: 14, offset: 89839},
+													pos: position{line: 2830, col: 14, offset: 89910},
 													run: (*parser).callonDocumentRawLine559,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2828, col: 14, offset: 89839},
+														pos: position{line: 2830, col: 14, offset: 89910},
 														expr: &charClassMatcher{
-															pos:        position{line: 2828, col: 14, offset: 89839},
+															pos:        position{line: 2830, col: 14, offset: 89910},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2715,9 +2715,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2897, col: 8, offset: 91594},
+													pos: position{line: 2899, col: 8, offset: 91665},
 													expr: &anyMatcher{
-														line: 2897, col: 9, offset: 91595,
+														line: 2899, col: 9, offset: 91666,
 													},
 												},
 											},
@@ -2727,9 +2727,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2897, col: 8, offset: 91594},
+							pos: position{line: 2899, col: 8, offset: 91665},
 							expr: &anyMatcher{
-								line: 2897, col: 9, offset: 91595,
+								line: 2899, col: 9, offset: 91666,
 							},
 						},
 					},
@@ -2764,41 +2764,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2832, col: 17, offset: 89909},
+												pos: position{line: 2834, col: 17, offset: 89980},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2832, col: 17, offset: 89909},
+													pos:   position{line: 2834, col: 17, offset: 89980},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2849, col: 5, offset: 90363},
+														pos: position{line: 2851, col: 5, offset: 90434},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2849, col: 5, offset: 90363},
+															pos:   position{line: 2851, col: 5, offset: 90434},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2849, col: 14, offset: 90372},
+																pos: position{line: 2851, col: 14, offset: 90443},
 																expr: &choiceExpr{
-																	pos: position{line: 2850, col: 9, offset: 90382},
+																	pos: position{line: 2852, col: 9, offset: 90453},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2850, col: 9, offset: 90382},
+																			pos: position{line: 2852, col: 9, offset: 90453},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2850, col: 9, offset: 90382},
+																				pos: position{line: 2852, col: 9, offset: 90453},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2850, col: 9, offset: 90382},
+																						pos: position{line: 2852, col: 9, offset: 90453},
 																						expr: &litMatcher{
-																							pos:        position{line: 2850, col: 10, offset: 90383},
+																							pos:        position{line: 2852, col: 10, offset: 90454},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2851, col: 9, offset: 90411},
+																						pos: position{line: 2853, col: 9, offset: 90482},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2851, col: 10, offset: 90412},
+																							pos:        position{line: 2853, col: 10, offset: 90483},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2809,27 +2809,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2854, col: 11, offset: 90624},
+																			pos: position{line: 2856, col: 11, offset: 90695},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2854, col: 11, offset: 90624},
+																					pos:        position{line: 2856, col: 11, offset: 90695},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2854, col: 19, offset: 90632},
+																					pos: position{line: 2856, col: 19, offset: 90703},
 																					expr: &seqExpr{
-																						pos: position{line: 2854, col: 21, offset: 90634},
+																						pos: position{line: 2856, col: 21, offset: 90705},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2854, col: 21, offset: 90634},
+																								pos: position{line: 2856, col: 21, offset: 90705},
 																								expr: &actionExpr{
-																									pos: position{line: 2878, col: 10, offset: 91246},
+																									pos: position{line: 2880, col: 10, offset: 91317},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2878, col: 10, offset: 91246},
+																										pos:        position{line: 2880, col: 10, offset: 91317},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2838,11 +2838,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2854, col: 28, offset: 90641},
+																								pos: position{line: 2856, col: 28, offset: 90712},
 																								expr: &notExpr{
-																									pos: position{line: 2897, col: 8, offset: 91594},
+																									pos: position{line: 2899, col: 8, offset: 91665},
 																									expr: &anyMatcher{
-																										line: 2897, col: 9, offset: 91595,
+																										line: 2899, col: 9, offset: 91666,
 																									},
 																								},
 																							},
@@ -3241,10 +3241,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2857, col: 11, offset: 90761},
+																			pos: position{line: 2859, col: 11, offset: 90832},
 																			run: (*parser).callonFileInclusion108,
 																			expr: &litMatcher{
-																				pos:        position{line: 2857, col: 11, offset: 90761},
+																				pos:        position{line: 2859, col: 11, offset: 90832},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3273,10 +3273,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2878, col: 10, offset: 91246},
+								pos: position{line: 2880, col: 10, offset: 91317},
 								run: (*parser).callonFileInclusion113,
 								expr: &charClassMatcher{
-									pos:        position{line: 2878, col: 10, offset: 91246},
+									pos:        position{line: 2880, col: 10, offset: 91317},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3285,28 +3285,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2900, col: 8, offset: 91644},
+							pos: position{line: 2902, col: 8, offset: 91715},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2887, col: 12, offset: 91417},
+									pos: position{line: 2889, col: 12, offset: 91488},
 									run: (*parser).callonFileInclusion116,
 									expr: &choiceExpr{
-										pos: position{line: 2887, col: 13, offset: 91418},
+										pos: position{line: 2889, col: 13, offset: 91489},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2887, col: 13, offset: 91418},
+												pos:        position{line: 2889, col: 13, offset: 91489},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2887, col: 20, offset: 91425},
+												pos:        position{line: 2889, col: 20, offset: 91496},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2887, col: 29, offset: 91434},
+												pos:        position{line: 2889, col: 29, offset: 91505},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3315,9 +3315,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2897, col: 8, offset: 91594},
+									pos: position{line: 2899, col: 8, offset: 91665},
 									expr: &anyMatcher{
-										line: 2897, col: 9, offset: 91595,
+										line: 2899, col: 9, offset: 91666,
 									},
 								},
 							},
@@ -3363,24 +3363,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2870, col: 12, offset: 91073},
+																				pos: position{line: 2872, col: 12, offset: 91144},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2870, col: 13, offset: 91074},
+																					pos: position{line: 2872, col: 13, offset: 91145},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2870, col: 13, offset: 91074},
+																							pos: position{line: 2872, col: 13, offset: 91145},
 																							expr: &litMatcher{
-																								pos:        position{line: 2870, col: 13, offset: 91074},
+																								pos:        position{line: 2872, col: 13, offset: 91145},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2870, col: 18, offset: 91079},
+																							pos: position{line: 2872, col: 18, offset: 91150},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2870, col: 18, offset: 91079},
+																								pos:        position{line: 2872, col: 18, offset: 91150},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3401,24 +3401,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2870, col: 12, offset: 91073},
+																				pos: position{line: 2872, col: 12, offset: 91144},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2870, col: 13, offset: 91074},
+																					pos: position{line: 2872, col: 13, offset: 91145},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2870, col: 13, offset: 91074},
+																							pos: position{line: 2872, col: 13, offset: 91145},
 																							expr: &litMatcher{
-																								pos:        position{line: 2870, col: 13, offset: 91074},
+																								pos:        position{line: 2872, col: 13, offset: 91145},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2870, col: 18, offset: 91079},
+																							pos: position{line: 2872, col: 18, offset: 91150},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2870, col: 18, offset: 91079},
+																								pos:        position{line: 2872, col: 18, offset: 91150},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3439,24 +3439,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2870, col: 12, offset: 91073},
+																		pos: position{line: 2872, col: 12, offset: 91144},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2870, col: 13, offset: 91074},
+																			pos: position{line: 2872, col: 13, offset: 91145},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2870, col: 13, offset: 91074},
+																					pos: position{line: 2872, col: 13, offset: 91145},
 																					expr: &litMatcher{
-																						pos:        position{line: 2870, col: 13, offset: 91074},
+																						pos:        position{line: 2872, col: 13, offset: 91145},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2870, col: 18, offset: 91079},
+																					pos: position{line: 2872, col: 18, offset: 91150},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2870, col: 18, offset: 91079},
+																						pos:        position{line: 2872, col: 18, offset: 91150},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3505,24 +3505,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2870, col: 12, offset: 91073},
+																									pos: position{line: 2872, col: 12, offset: 91144},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2870, col: 13, offset: 91074},
+																										pos: position{line: 2872, col: 13, offset: 91145},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2870, col: 13, offset: 91074},
+																												pos: position{line: 2872, col: 13, offset: 91145},
 																												expr: &litMatcher{
-																													pos:        position{line: 2870, col: 13, offset: 91074},
+																													pos:        position{line: 2872, col: 13, offset: 91145},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2870, col: 18, offset: 91079},
+																												pos: position{line: 2872, col: 18, offset: 91150},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2870, col: 18, offset: 91079},
+																													pos:        position{line: 2872, col: 18, offset: 91150},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3543,24 +3543,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2870, col: 12, offset: 91073},
+																									pos: position{line: 2872, col: 12, offset: 91144},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2870, col: 13, offset: 91074},
+																										pos: position{line: 2872, col: 13, offset: 91145},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2870, col: 13, offset: 91074},
+																												pos: position{line: 2872, col: 13, offset: 91145},
 																												expr: &litMatcher{
-																													pos:        position{line: 2870, col: 13, offset: 91074},
+																													pos:        position{line: 2872, col: 13, offset: 91145},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2870, col: 18, offset: 91079},
+																												pos: position{line: 2872, col: 18, offset: 91150},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2870, col: 18, offset: 91079},
+																													pos:        position{line: 2872, col: 18, offset: 91150},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3581,24 +3581,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2870, col: 12, offset: 91073},
+																							pos: position{line: 2872, col: 12, offset: 91144},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2870, col: 13, offset: 91074},
+																								pos: position{line: 2872, col: 13, offset: 91145},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2870, col: 13, offset: 91074},
+																										pos: position{line: 2872, col: 13, offset: 91145},
 																										expr: &litMatcher{
-																											pos:        position{line: 2870, col: 13, offset: 91074},
+																											pos:        position{line: 2872, col: 13, offset: 91145},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2870, col: 18, offset: 91079},
+																										pos: position{line: 2872, col: 18, offset: 91150},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2870, col: 18, offset: 91079},
+																											pos:        position{line: 2872, col: 18, offset: 91150},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3631,24 +3631,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2870, col: 12, offset: 91073},
+														pos: position{line: 2872, col: 12, offset: 91144},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2870, col: 13, offset: 91074},
+															pos: position{line: 2872, col: 13, offset: 91145},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2870, col: 13, offset: 91074},
+																	pos: position{line: 2872, col: 13, offset: 91145},
 																	expr: &litMatcher{
-																		pos:        position{line: 2870, col: 13, offset: 91074},
+																		pos:        position{line: 2872, col: 13, offset: 91145},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2870, col: 18, offset: 91079},
+																	pos: position{line: 2872, col: 18, offset: 91150},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2870, col: 18, offset: 91079},
+																		pos:        position{line: 2872, col: 18, offset: 91150},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3669,24 +3669,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2870, col: 12, offset: 91073},
+														pos: position{line: 2872, col: 12, offset: 91144},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2870, col: 13, offset: 91074},
+															pos: position{line: 2872, col: 13, offset: 91145},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2870, col: 13, offset: 91074},
+																	pos: position{line: 2872, col: 13, offset: 91145},
 																	expr: &litMatcher{
-																		pos:        position{line: 2870, col: 13, offset: 91074},
+																		pos:        position{line: 2872, col: 13, offset: 91145},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2870, col: 18, offset: 91079},
+																	pos: position{line: 2872, col: 18, offset: 91150},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2870, col: 18, offset: 91079},
+																		pos:        position{line: 2872, col: 18, offset: 91150},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3707,24 +3707,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2870, col: 12, offset: 91073},
+												pos: position{line: 2872, col: 12, offset: 91144},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2870, col: 13, offset: 91074},
+													pos: position{line: 2872, col: 13, offset: 91145},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2870, col: 13, offset: 91074},
+															pos: position{line: 2872, col: 13, offset: 91145},
 															expr: &litMatcher{
-																pos:        position{line: 2870, col: 13, offset: 91074},
+																pos:        position{line: 2872, col: 13, offset: 91145},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2870, col: 18, offset: 91079},
+															pos: position{line: 2872, col: 18, offset: 91150},
 															expr: &charClassMatcher{
-																pos:        position{line: 2870, col: 18, offset: 91079},
+																pos:        position{line: 2872, col: 18, offset: 91150},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3740,9 +3740,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2897, col: 8, offset: 91594},
+							pos: position{line: 2899, col: 8, offset: 91665},
 							expr: &anyMatcher{
-								line: 2897, col: 9, offset: 91595,
+								line: 2899, col: 9, offset: 91666,
 							},
 						},
 					},
@@ -4067,9 +4067,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2897, col: 8, offset: 91594},
+							pos: position{line: 2899, col: 8, offset: 91665},
 							expr: &anyMatcher{
-								line: 2897, col: 9, offset: 91595,
+								line: 2899, col: 9, offset: 91666,
 							},
 						},
 					},
@@ -4193,28 +4193,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2900, col: 8, offset: 91644},
+							pos: position{line: 2902, col: 8, offset: 91715},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2887, col: 12, offset: 91417},
+									pos: position{line: 2889, col: 12, offset: 91488},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2887, col: 13, offset: 91418},
+										pos: position{line: 2889, col: 13, offset: 91489},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2887, col: 13, offset: 91418},
+												pos:        position{line: 2889, col: 13, offset: 91489},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2887, col: 20, offset: 91425},
+												pos:        position{line: 2889, col: 20, offset: 91496},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2887, col: 29, offset: 91434},
+												pos:        position{line: 2889, col: 29, offset: 91505},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4223,9 +4223,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2897, col: 8, offset: 91594},
+									pos: position{line: 2899, col: 8, offset: 91665},
 									expr: &anyMatcher{
-										line: 2897, col: 9, offset: 91595,
+										line: 2899, col: 9, offset: 91666,
 									},
 								},
 							},
@@ -4244,9 +4244,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2895, col: 11, offset: 91580},
+							pos: position{line: 2897, col: 11, offset: 91651},
 							expr: &anyMatcher{
-								line: 2895, col: 13, offset: 91582,
+								line: 2897, col: 13, offset: 91653,
 							},
 						},
 						&labeledExpr{
@@ -4341,10 +4341,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 359, col: 49, offset: 10879},
 														expr: &actionExpr{
-															pos: position{line: 2878, col: 10, offset: 91246},
+															pos: position{line: 2880, col: 10, offset: 91317},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2878, col: 10, offset: 91246},
+																pos:        position{line: 2880, col: 10, offset: 91317},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4353,28 +4353,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2900, col: 8, offset: 91644},
+														pos: position{line: 2902, col: 8, offset: 91715},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2887, col: 12, offset: 91417},
+																pos: position{line: 2889, col: 12, offset: 91488},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2887, col: 13, offset: 91418},
+																	pos: position{line: 2889, col: 13, offset: 91489},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2887, col: 13, offset: 91418},
+																			pos:        position{line: 2889, col: 13, offset: 91489},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2887, col: 20, offset: 91425},
+																			pos:        position{line: 2889, col: 20, offset: 91496},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2887, col: 29, offset: 91434},
+																			pos:        position{line: 2889, col: 29, offset: 91505},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4383,9 +4383,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2897, col: 8, offset: 91594},
+																pos: position{line: 2899, col: 8, offset: 91665},
 																expr: &anyMatcher{
-																	line: 2897, col: 9, offset: 91595,
+																	line: 2899, col: 9, offset: 91666,
 																},
 															},
 														},
@@ -4446,10 +4446,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 361, col: 39, offset: 11000},
 														expr: &actionExpr{
-															pos: position{line: 2878, col: 10, offset: 91246},
+															pos: position{line: 2880, col: 10, offset: 91317},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2878, col: 10, offset: 91246},
+																pos:        position{line: 2880, col: 10, offset: 91317},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4458,28 +4458,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2900, col: 8, offset: 91644},
+														pos: position{line: 2902, col: 8, offset: 91715},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2887, col: 12, offset: 91417},
+																pos: position{line: 2889, col: 12, offset: 91488},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2887, col: 13, offset: 91418},
+																	pos: position{line: 2889, col: 13, offset: 91489},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2887, col: 13, offset: 91418},
+																			pos:        position{line: 2889, col: 13, offset: 91489},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2887, col: 20, offset: 91425},
+																			pos:        position{line: 2889, col: 20, offset: 91496},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2887, col: 29, offset: 91434},
+																			pos:        position{line: 2889, col: 29, offset: 91505},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4488,9 +4488,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2897, col: 8, offset: 91594},
+																pos: position{line: 2899, col: 8, offset: 91665},
 																expr: &anyMatcher{
-																	line: 2897, col: 9, offset: 91595,
+																	line: 2899, col: 9, offset: 91666,
 																},
 															},
 														},
@@ -4505,18 +4505,18 @@ var g = &grammar{
 												pos: position{line: 677, col: 14, offset: 21525},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2895, col: 11, offset: 91580},
+														pos: position{line: 2897, col: 11, offset: 91651},
 														expr: &anyMatcher{
-															line: 2895, col: 13, offset: 91582,
+															line: 2897, col: 13, offset: 91653,
 														},
 													},
 													&zeroOrMoreExpr{
 														pos: position{line: 677, col: 21, offset: 21532},
 														expr: &actionExpr{
-															pos: position{line: 2878, col: 10, offset: 91246},
+															pos: position{line: 2880, col: 10, offset: 91317},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2878, col: 10, offset: 91246},
+																pos:        position{line: 2880, col: 10, offset: 91317},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4525,28 +4525,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2900, col: 8, offset: 91644},
+														pos: position{line: 2902, col: 8, offset: 91715},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2887, col: 12, offset: 91417},
+																pos: position{line: 2889, col: 12, offset: 91488},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2887, col: 13, offset: 91418},
+																	pos: position{line: 2889, col: 13, offset: 91489},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2887, col: 13, offset: 91418},
+																			pos:        position{line: 2889, col: 13, offset: 91489},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2887, col: 20, offset: 91425},
+																			pos:        position{line: 2889, col: 20, offset: 91496},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2887, col: 29, offset: 91434},
+																			pos:        position{line: 2889, col: 29, offset: 91505},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4555,9 +4555,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2897, col: 8, offset: 91594},
+																pos: position{line: 2899, col: 8, offset: 91665},
 																expr: &anyMatcher{
-																	line: 2897, col: 9, offset: 91595,
+																	line: 2899, col: 9, offset: 91666,
 																},
 															},
 														},
@@ -4616,10 +4616,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 743, col: 8, offset: 23745},
 																	expr: &actionExpr{
-																		pos: position{line: 2878, col: 10, offset: 91246},
+																		pos: position{line: 2880, col: 10, offset: 91317},
 																		run: (*parser).callonDocumentFragment86,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2878, col: 10, offset: 91246},
+																			pos:        position{line: 2880, col: 10, offset: 91317},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -4628,28 +4628,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2900, col: 8, offset: 91644},
+																	pos: position{line: 2902, col: 8, offset: 91715},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2887, col: 12, offset: 91417},
+																			pos: position{line: 2889, col: 12, offset: 91488},
 																			run: (*parser).callonDocumentFragment89,
 																			expr: &choiceExpr{
-																				pos: position{line: 2887, col: 13, offset: 91418},
+																				pos: position{line: 2889, col: 13, offset: 91489},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 13, offset: 91418},
+																						pos:        position{line: 2889, col: 13, offset: 91489},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 20, offset: 91425},
+																						pos:        position{line: 2889, col: 20, offset: 91496},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 29, offset: 91434},
+																						pos:        position{line: 2889, col: 29, offset: 91505},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -4658,9 +4658,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2897, col: 8, offset: 91594},
+																			pos: position{line: 2899, col: 8, offset: 91665},
 																			expr: &anyMatcher{
-																				line: 2897, col: 9, offset: 91595,
+																				line: 2899, col: 9, offset: 91666,
 																			},
 																		},
 																	},
@@ -4721,10 +4721,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 743, col: 8, offset: 23745},
 																									expr: &actionExpr{
-																										pos: position{line: 2878, col: 10, offset: 91246},
+																										pos: position{line: 2880, col: 10, offset: 91317},
 																										run: (*parser).callonDocumentFragment111,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2878, col: 10, offset: 91246},
+																											pos:        position{line: 2880, col: 10, offset: 91317},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -4733,28 +4733,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2900, col: 8, offset: 91644},
+																									pos: position{line: 2902, col: 8, offset: 91715},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2887, col: 12, offset: 91417},
+																											pos: position{line: 2889, col: 12, offset: 91488},
 																											run: (*parser).callonDocumentFragment114,
 																											expr: &choiceExpr{
-																												pos: position{line: 2887, col: 13, offset: 91418},
+																												pos: position{line: 2889, col: 13, offset: 91489},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2887, col: 13, offset: 91418},
+																														pos:        position{line: 2889, col: 13, offset: 91489},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2887, col: 20, offset: 91425},
+																														pos:        position{line: 2889, col: 20, offset: 91496},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2887, col: 29, offset: 91434},
+																														pos:        position{line: 2889, col: 29, offset: 91505},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -4763,9 +4763,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2897, col: 8, offset: 91594},
+																											pos: position{line: 2899, col: 8, offset: 91665},
 																											expr: &anyMatcher{
-																												line: 2897, col: 9, offset: 91595,
+																												line: 2899, col: 9, offset: 91666,
 																											},
 																										},
 																									},
@@ -4774,9 +4774,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2897, col: 8, offset: 91594},
+																						pos: position{line: 2899, col: 8, offset: 91665},
 																						expr: &anyMatcher{
-																							line: 2897, col: 9, offset: 91595,
+																							line: 2899, col: 9, offset: 91666,
 																						},
 																					},
 																				},
@@ -4792,21 +4792,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2895, col: 11, offset: 91580},
+																							pos: position{line: 2897, col: 11, offset: 91651},
 																							expr: &anyMatcher{
-																								line: 2895, col: 13, offset: 91582,
+																								line: 2897, col: 13, offset: 91653,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2824, col: 13, offset: 89772},
+																								pos: position{line: 2826, col: 13, offset: 89843},
 																								run: (*parser).callonDocumentFragment129,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2824, col: 13, offset: 89772},
+																									pos: position{line: 2826, col: 13, offset: 89843},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2824, col: 13, offset: 89772},
+																										pos:        position{line: 2826, col: 13, offset: 89843},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4816,28 +4816,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2900, col: 8, offset: 91644},
+																							pos: position{line: 2902, col: 8, offset: 91715},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2887, col: 12, offset: 91417},
+																									pos: position{line: 2889, col: 12, offset: 91488},
 																									run: (*parser).callonDocumentFragment133,
 																									expr: &choiceExpr{
-																										pos: position{line: 2887, col: 13, offset: 91418},
+																										pos: position{line: 2889, col: 13, offset: 91489},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 13, offset: 91418},
+																												pos:        position{line: 2889, col: 13, offset: 91489},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 20, offset: 91425},
+																												pos:        position{line: 2889, col: 20, offset: 91496},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 29, offset: 91434},
+																												pos:        position{line: 2889, col: 29, offset: 91505},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4846,9 +4846,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2897, col: 8, offset: 91594},
+																									pos: position{line: 2899, col: 8, offset: 91665},
 																									expr: &anyMatcher{
-																										line: 2897, col: 9, offset: 91595,
+																										line: 2899, col: 9, offset: 91666,
 																									},
 																								},
 																							},
@@ -4904,10 +4904,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 743, col: 8, offset: 23745},
 																				expr: &actionExpr{
-																					pos: position{line: 2878, col: 10, offset: 91246},
+																					pos: position{line: 2880, col: 10, offset: 91317},
 																					run: (*parser).callonDocumentFragment151,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2878, col: 10, offset: 91246},
+																						pos:        position{line: 2880, col: 10, offset: 91317},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -4916,28 +4916,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2900, col: 8, offset: 91644},
+																				pos: position{line: 2902, col: 8, offset: 91715},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2887, col: 12, offset: 91417},
+																						pos: position{line: 2889, col: 12, offset: 91488},
 																						run: (*parser).callonDocumentFragment154,
 																						expr: &choiceExpr{
-																							pos: position{line: 2887, col: 13, offset: 91418},
+																							pos: position{line: 2889, col: 13, offset: 91489},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2887, col: 13, offset: 91418},
+																									pos:        position{line: 2889, col: 13, offset: 91489},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2887, col: 20, offset: 91425},
+																									pos:        position{line: 2889, col: 20, offset: 91496},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2887, col: 29, offset: 91434},
+																									pos:        position{line: 2889, col: 29, offset: 91505},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -4946,9 +4946,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2897, col: 8, offset: 91594},
+																						pos: position{line: 2899, col: 8, offset: 91665},
 																						expr: &anyMatcher{
-																							line: 2897, col: 9, offset: 91595,
+																							line: 2899, col: 9, offset: 91666,
 																						},
 																					},
 																				},
@@ -4957,9 +4957,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2897, col: 8, offset: 91594},
+																	pos: position{line: 2899, col: 8, offset: 91665},
 																	expr: &anyMatcher{
-																		line: 2897, col: 9, offset: 91595,
+																		line: 2899, col: 9, offset: 91666,
 																	},
 																},
 															},
@@ -5014,10 +5014,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 750, col: 8, offset: 23993},
 																		expr: &actionExpr{
-																			pos: position{line: 2878, col: 10, offset: 91246},
+																			pos: position{line: 2880, col: 10, offset: 91317},
 																			run: (*parser).callonDocumentFragment175,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2878, col: 10, offset: 91246},
+																				pos:        position{line: 2880, col: 10, offset: 91317},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5026,28 +5026,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2900, col: 8, offset: 91644},
+																		pos: position{line: 2902, col: 8, offset: 91715},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2887, col: 12, offset: 91417},
+																				pos: position{line: 2889, col: 12, offset: 91488},
 																				run: (*parser).callonDocumentFragment178,
 																				expr: &choiceExpr{
-																					pos: position{line: 2887, col: 13, offset: 91418},
+																					pos: position{line: 2889, col: 13, offset: 91489},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 13, offset: 91418},
+																							pos:        position{line: 2889, col: 13, offset: 91489},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 20, offset: 91425},
+																							pos:        position{line: 2889, col: 20, offset: 91496},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 29, offset: 91434},
+																							pos:        position{line: 2889, col: 29, offset: 91505},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5056,9 +5056,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2897, col: 8, offset: 91594},
+																				pos: position{line: 2899, col: 8, offset: 91665},
 																				expr: &anyMatcher{
-																					line: 2897, col: 9, offset: 91595,
+																					line: 2899, col: 9, offset: 91666,
 																				},
 																			},
 																		},
@@ -5130,10 +5130,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 750, col: 8, offset: 23993},
 																												expr: &actionExpr{
-																													pos: position{line: 2878, col: 10, offset: 91246},
+																													pos: position{line: 2880, col: 10, offset: 91317},
 																													run: (*parser).callonDocumentFragment203,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2878, col: 10, offset: 91246},
+																														pos:        position{line: 2880, col: 10, offset: 91317},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5142,28 +5142,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2900, col: 8, offset: 91644},
+																												pos: position{line: 2902, col: 8, offset: 91715},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2887, col: 12, offset: 91417},
+																														pos: position{line: 2889, col: 12, offset: 91488},
 																														run: (*parser).callonDocumentFragment206,
 																														expr: &choiceExpr{
-																															pos: position{line: 2887, col: 13, offset: 91418},
+																															pos: position{line: 2889, col: 13, offset: 91489},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2887, col: 13, offset: 91418},
+																																	pos:        position{line: 2889, col: 13, offset: 91489},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2887, col: 20, offset: 91425},
+																																	pos:        position{line: 2889, col: 20, offset: 91496},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2887, col: 29, offset: 91434},
+																																	pos:        position{line: 2889, col: 29, offset: 91505},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5172,9 +5172,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2897, col: 8, offset: 91594},
+																														pos: position{line: 2899, col: 8, offset: 91665},
 																														expr: &anyMatcher{
-																															line: 2897, col: 9, offset: 91595,
+																															line: 2899, col: 9, offset: 91666,
 																														},
 																													},
 																												},
@@ -5190,9 +5190,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2897, col: 8, offset: 91594},
+																						pos: position{line: 2899, col: 8, offset: 91665},
 																						expr: &anyMatcher{
-																							line: 2897, col: 9, offset: 91595,
+																							line: 2899, col: 9, offset: 91666,
 																						},
 																					},
 																				},
@@ -5208,21 +5208,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2895, col: 11, offset: 91580},
+																							pos: position{line: 2897, col: 11, offset: 91651},
 																							expr: &anyMatcher{
-																								line: 2895, col: 13, offset: 91582,
+																								line: 2897, col: 13, offset: 91653,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2824, col: 13, offset: 89772},
+																								pos: position{line: 2826, col: 13, offset: 89843},
 																								run: (*parser).callonDocumentFragment222,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2824, col: 13, offset: 89772},
+																									pos: position{line: 2826, col: 13, offset: 89843},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2824, col: 13, offset: 89772},
+																										pos:        position{line: 2826, col: 13, offset: 89843},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5232,28 +5232,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2900, col: 8, offset: 91644},
+																							pos: position{line: 2902, col: 8, offset: 91715},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2887, col: 12, offset: 91417},
+																									pos: position{line: 2889, col: 12, offset: 91488},
 																									run: (*parser).callonDocumentFragment226,
 																									expr: &choiceExpr{
-																										pos: position{line: 2887, col: 13, offset: 91418},
+																										pos: position{line: 2889, col: 13, offset: 91489},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 13, offset: 91418},
+																												pos:        position{line: 2889, col: 13, offset: 91489},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 20, offset: 91425},
+																												pos:        position{line: 2889, col: 20, offset: 91496},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 29, offset: 91434},
+																												pos:        position{line: 2889, col: 29, offset: 91505},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5262,9 +5262,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2897, col: 8, offset: 91594},
+																									pos: position{line: 2899, col: 8, offset: 91665},
 																									expr: &anyMatcher{
-																										line: 2897, col: 9, offset: 91595,
+																										line: 2899, col: 9, offset: 91666,
 																									},
 																								},
 																							},
@@ -5329,10 +5329,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 750, col: 8, offset: 23993},
 																								expr: &actionExpr{
-																									pos: position{line: 2878, col: 10, offset: 91246},
+																									pos: position{line: 2880, col: 10, offset: 91317},
 																									run: (*parser).callonDocumentFragment247,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2878, col: 10, offset: 91246},
+																										pos:        position{line: 2880, col: 10, offset: 91317},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5341,28 +5341,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2900, col: 8, offset: 91644},
+																								pos: position{line: 2902, col: 8, offset: 91715},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2887, col: 12, offset: 91417},
+																										pos: position{line: 2889, col: 12, offset: 91488},
 																										run: (*parser).callonDocumentFragment250,
 																										expr: &choiceExpr{
-																											pos: position{line: 2887, col: 13, offset: 91418},
+																											pos: position{line: 2889, col: 13, offset: 91489},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2887, col: 13, offset: 91418},
+																													pos:        position{line: 2889, col: 13, offset: 91489},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2887, col: 20, offset: 91425},
+																													pos:        position{line: 2889, col: 20, offset: 91496},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2887, col: 29, offset: 91434},
+																													pos:        position{line: 2889, col: 29, offset: 91505},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5371,9 +5371,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2897, col: 8, offset: 91594},
+																										pos: position{line: 2899, col: 8, offset: 91665},
 																										expr: &anyMatcher{
-																											line: 2897, col: 9, offset: 91595,
+																											line: 2899, col: 9, offset: 91666,
 																										},
 																									},
 																								},
@@ -5389,9 +5389,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2897, col: 8, offset: 91594},
+																		pos: position{line: 2899, col: 8, offset: 91665},
 																		expr: &anyMatcher{
-																			line: 2897, col: 9, offset: 91595,
+																			line: 2899, col: 9, offset: 91666,
 																		},
 																	},
 																},
@@ -5443,10 +5443,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 761, col: 52, offset: 24405},
 																		expr: &actionExpr{
-																			pos: position{line: 2878, col: 10, offset: 91246},
+																			pos: position{line: 2880, col: 10, offset: 91317},
 																			run: (*parser).callonDocumentFragment271,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2878, col: 10, offset: 91246},
+																				pos:        position{line: 2880, col: 10, offset: 91317},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5455,28 +5455,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2900, col: 8, offset: 91644},
+																		pos: position{line: 2902, col: 8, offset: 91715},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2887, col: 12, offset: 91417},
+																				pos: position{line: 2889, col: 12, offset: 91488},
 																				run: (*parser).callonDocumentFragment274,
 																				expr: &choiceExpr{
-																					pos: position{line: 2887, col: 13, offset: 91418},
+																					pos: position{line: 2889, col: 13, offset: 91489},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 13, offset: 91418},
+																							pos:        position{line: 2889, col: 13, offset: 91489},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 20, offset: 91425},
+																							pos:        position{line: 2889, col: 20, offset: 91496},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 29, offset: 91434},
+																							pos:        position{line: 2889, col: 29, offset: 91505},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5485,9 +5485,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2897, col: 8, offset: 91594},
+																				pos: position{line: 2899, col: 8, offset: 91665},
 																				expr: &anyMatcher{
-																					line: 2897, col: 9, offset: 91595,
+																					line: 2899, col: 9, offset: 91666,
 																				},
 																			},
 																		},
@@ -5521,10 +5521,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 964, col: 40, offset: 30213},
 																						expr: &actionExpr{
-																							pos: position{line: 2878, col: 10, offset: 91246},
+																							pos: position{line: 2880, col: 10, offset: 91317},
 																							run: (*parser).callonDocumentFragment289,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2878, col: 10, offset: 91246},
+																								pos:        position{line: 2880, col: 10, offset: 91317},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5533,28 +5533,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2900, col: 8, offset: 91644},
+																						pos: position{line: 2902, col: 8, offset: 91715},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2887, col: 12, offset: 91417},
+																								pos: position{line: 2889, col: 12, offset: 91488},
 																								run: (*parser).callonDocumentFragment292,
 																								expr: &choiceExpr{
-																									pos: position{line: 2887, col: 13, offset: 91418},
+																									pos: position{line: 2889, col: 13, offset: 91489},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 13, offset: 91418},
+																											pos:        position{line: 2889, col: 13, offset: 91489},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 20, offset: 91425},
+																											pos:        position{line: 2889, col: 20, offset: 91496},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 29, offset: 91434},
+																											pos:        position{line: 2889, col: 29, offset: 91505},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5563,9 +5563,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2897, col: 8, offset: 91594},
+																								pos: position{line: 2899, col: 8, offset: 91665},
 																								expr: &anyMatcher{
-																									line: 2897, col: 9, offset: 91595,
+																									line: 2899, col: 9, offset: 91666,
 																								},
 																							},
 																						},
@@ -5583,21 +5583,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2895, col: 11, offset: 91580},
+																							pos: position{line: 2897, col: 11, offset: 91651},
 																							expr: &anyMatcher{
-																								line: 2895, col: 13, offset: 91582,
+																								line: 2897, col: 13, offset: 91653,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2824, col: 13, offset: 89772},
+																								pos: position{line: 2826, col: 13, offset: 89843},
 																								run: (*parser).callonDocumentFragment305,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2824, col: 13, offset: 89772},
+																									pos: position{line: 2826, col: 13, offset: 89843},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2824, col: 13, offset: 89772},
+																										pos:        position{line: 2826, col: 13, offset: 89843},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5607,28 +5607,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2900, col: 8, offset: 91644},
+																							pos: position{line: 2902, col: 8, offset: 91715},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2887, col: 12, offset: 91417},
+																									pos: position{line: 2889, col: 12, offset: 91488},
 																									run: (*parser).callonDocumentFragment309,
 																									expr: &choiceExpr{
-																										pos: position{line: 2887, col: 13, offset: 91418},
+																										pos: position{line: 2889, col: 13, offset: 91489},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 13, offset: 91418},
+																												pos:        position{line: 2889, col: 13, offset: 91489},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 20, offset: 91425},
+																												pos:        position{line: 2889, col: 20, offset: 91496},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 29, offset: 91434},
+																												pos:        position{line: 2889, col: 29, offset: 91505},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5637,9 +5637,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2897, col: 8, offset: 91594},
+																									pos: position{line: 2899, col: 8, offset: 91665},
 																									expr: &anyMatcher{
-																										line: 2897, col: 9, offset: 91595,
+																										line: 2899, col: 9, offset: 91666,
 																									},
 																								},
 																							},
@@ -5667,10 +5667,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 964, col: 40, offset: 30213},
 																	expr: &actionExpr{
-																		pos: position{line: 2878, col: 10, offset: 91246},
+																		pos: position{line: 2880, col: 10, offset: 91317},
 																		run: (*parser).callonDocumentFragment320,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2878, col: 10, offset: 91246},
+																			pos:        position{line: 2880, col: 10, offset: 91317},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5679,28 +5679,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2900, col: 8, offset: 91644},
+																	pos: position{line: 2902, col: 8, offset: 91715},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2887, col: 12, offset: 91417},
+																			pos: position{line: 2889, col: 12, offset: 91488},
 																			run: (*parser).callonDocumentFragment323,
 																			expr: &choiceExpr{
-																				pos: position{line: 2887, col: 13, offset: 91418},
+																				pos: position{line: 2889, col: 13, offset: 91489},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 13, offset: 91418},
+																						pos:        position{line: 2889, col: 13, offset: 91489},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 20, offset: 91425},
+																						pos:        position{line: 2889, col: 20, offset: 91496},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 29, offset: 91434},
+																						pos:        position{line: 2889, col: 29, offset: 91505},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5709,9 +5709,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2897, col: 8, offset: 91594},
+																			pos: position{line: 2899, col: 8, offset: 91665},
 																			expr: &anyMatcher{
-																				line: 2897, col: 9, offset: 91595,
+																				line: 2899, col: 9, offset: 91666,
 																			},
 																		},
 																	},
@@ -5768,10 +5768,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 757, col: 8, offset: 24239},
 																		expr: &actionExpr{
-																			pos: position{line: 2878, col: 10, offset: 91246},
+																			pos: position{line: 2880, col: 10, offset: 91317},
 																			run: (*parser).callonDocumentFragment342,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2878, col: 10, offset: 91246},
+																				pos:        position{line: 2880, col: 10, offset: 91317},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5780,28 +5780,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2900, col: 8, offset: 91644},
+																		pos: position{line: 2902, col: 8, offset: 91715},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2887, col: 12, offset: 91417},
+																				pos: position{line: 2889, col: 12, offset: 91488},
 																				run: (*parser).callonDocumentFragment345,
 																				expr: &choiceExpr{
-																					pos: position{line: 2887, col: 13, offset: 91418},
+																					pos: position{line: 2889, col: 13, offset: 91489},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 13, offset: 91418},
+																							pos:        position{line: 2889, col: 13, offset: 91489},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 20, offset: 91425},
+																							pos:        position{line: 2889, col: 20, offset: 91496},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 29, offset: 91434},
+																							pos:        position{line: 2889, col: 29, offset: 91505},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5810,9 +5810,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2897, col: 8, offset: 91594},
+																				pos: position{line: 2899, col: 8, offset: 91665},
 																				expr: &anyMatcher{
-																					line: 2897, col: 9, offset: 91595,
+																					line: 2899, col: 9, offset: 91666,
 																				},
 																			},
 																		},
@@ -5884,10 +5884,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 757, col: 8, offset: 24239},
 																												expr: &actionExpr{
-																													pos: position{line: 2878, col: 10, offset: 91246},
+																													pos: position{line: 2880, col: 10, offset: 91317},
 																													run: (*parser).callonDocumentFragment370,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2878, col: 10, offset: 91246},
+																														pos:        position{line: 2880, col: 10, offset: 91317},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5896,28 +5896,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2900, col: 8, offset: 91644},
+																												pos: position{line: 2902, col: 8, offset: 91715},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2887, col: 12, offset: 91417},
+																														pos: position{line: 2889, col: 12, offset: 91488},
 																														run: (*parser).callonDocumentFragment373,
 																														expr: &choiceExpr{
-																															pos: position{line: 2887, col: 13, offset: 91418},
+																															pos: position{line: 2889, col: 13, offset: 91489},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2887, col: 13, offset: 91418},
+																																	pos:        position{line: 2889, col: 13, offset: 91489},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2887, col: 20, offset: 91425},
+																																	pos:        position{line: 2889, col: 20, offset: 91496},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2887, col: 29, offset: 91434},
+																																	pos:        position{line: 2889, col: 29, offset: 91505},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5926,9 +5926,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2897, col: 8, offset: 91594},
+																														pos: position{line: 2899, col: 8, offset: 91665},
 																														expr: &anyMatcher{
-																															line: 2897, col: 9, offset: 91595,
+																															line: 2899, col: 9, offset: 91666,
 																														},
 																													},
 																												},
@@ -5944,9 +5944,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2897, col: 8, offset: 91594},
+																						pos: position{line: 2899, col: 8, offset: 91665},
 																						expr: &anyMatcher{
-																							line: 2897, col: 9, offset: 91595,
+																							line: 2899, col: 9, offset: 91666,
 																						},
 																					},
 																				},
@@ -5962,21 +5962,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2895, col: 11, offset: 91580},
+																							pos: position{line: 2897, col: 11, offset: 91651},
 																							expr: &anyMatcher{
-																								line: 2895, col: 13, offset: 91582,
+																								line: 2897, col: 13, offset: 91653,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2824, col: 13, offset: 89772},
+																								pos: position{line: 2826, col: 13, offset: 89843},
 																								run: (*parser).callonDocumentFragment389,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2824, col: 13, offset: 89772},
+																									pos: position{line: 2826, col: 13, offset: 89843},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2824, col: 13, offset: 89772},
+																										pos:        position{line: 2826, col: 13, offset: 89843},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5986,28 +5986,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2900, col: 8, offset: 91644},
+																							pos: position{line: 2902, col: 8, offset: 91715},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2887, col: 12, offset: 91417},
+																									pos: position{line: 2889, col: 12, offset: 91488},
 																									run: (*parser).callonDocumentFragment393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2887, col: 13, offset: 91418},
+																										pos: position{line: 2889, col: 13, offset: 91489},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 13, offset: 91418},
+																												pos:        position{line: 2889, col: 13, offset: 91489},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 20, offset: 91425},
+																												pos:        position{line: 2889, col: 20, offset: 91496},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 29, offset: 91434},
+																												pos:        position{line: 2889, col: 29, offset: 91505},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6016,9 +6016,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2897, col: 8, offset: 91594},
+																									pos: position{line: 2899, col: 8, offset: 91665},
 																									expr: &anyMatcher{
-																										line: 2897, col: 9, offset: 91595,
+																										line: 2899, col: 9, offset: 91666,
 																									},
 																								},
 																							},
@@ -6083,10 +6083,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 757, col: 8, offset: 24239},
 																								expr: &actionExpr{
-																									pos: position{line: 2878, col: 10, offset: 91246},
+																									pos: position{line: 2880, col: 10, offset: 91317},
 																									run: (*parser).callonDocumentFragment414,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2878, col: 10, offset: 91246},
+																										pos:        position{line: 2880, col: 10, offset: 91317},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6095,28 +6095,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2900, col: 8, offset: 91644},
+																								pos: position{line: 2902, col: 8, offset: 91715},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2887, col: 12, offset: 91417},
+																										pos: position{line: 2889, col: 12, offset: 91488},
 																										run: (*parser).callonDocumentFragment417,
 																										expr: &choiceExpr{
-																											pos: position{line: 2887, col: 13, offset: 91418},
+																											pos: position{line: 2889, col: 13, offset: 91489},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2887, col: 13, offset: 91418},
+																													pos:        position{line: 2889, col: 13, offset: 91489},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2887, col: 20, offset: 91425},
+																													pos:        position{line: 2889, col: 20, offset: 91496},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2887, col: 29, offset: 91434},
+																													pos:        position{line: 2889, col: 29, offset: 91505},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6125,9 +6125,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2897, col: 8, offset: 91594},
+																										pos: position{line: 2899, col: 8, offset: 91665},
 																										expr: &anyMatcher{
-																											line: 2897, col: 9, offset: 91595,
+																											line: 2899, col: 9, offset: 91666,
 																										},
 																									},
 																								},
@@ -6143,9 +6143,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2897, col: 8, offset: 91594},
+																		pos: position{line: 2899, col: 8, offset: 91665},
 																		expr: &anyMatcher{
-																			line: 2897, col: 9, offset: 91595,
+																			line: 2899, col: 9, offset: 91666,
 																		},
 																	},
 																},
@@ -6201,10 +6201,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 772, col: 8, offset: 24782},
 																		expr: &actionExpr{
-																			pos: position{line: 2878, col: 10, offset: 91246},
+																			pos: position{line: 2880, col: 10, offset: 91317},
 																			run: (*parser).callonDocumentFragment439,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2878, col: 10, offset: 91246},
+																				pos:        position{line: 2880, col: 10, offset: 91317},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6213,28 +6213,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2900, col: 8, offset: 91644},
+																		pos: position{line: 2902, col: 8, offset: 91715},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2887, col: 12, offset: 91417},
+																				pos: position{line: 2889, col: 12, offset: 91488},
 																				run: (*parser).callonDocumentFragment442,
 																				expr: &choiceExpr{
-																					pos: position{line: 2887, col: 13, offset: 91418},
+																					pos: position{line: 2889, col: 13, offset: 91489},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 13, offset: 91418},
+																							pos:        position{line: 2889, col: 13, offset: 91489},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 20, offset: 91425},
+																							pos:        position{line: 2889, col: 20, offset: 91496},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 29, offset: 91434},
+																							pos:        position{line: 2889, col: 29, offset: 91505},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6243,9 +6243,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2897, col: 8, offset: 91594},
+																				pos: position{line: 2899, col: 8, offset: 91665},
 																				expr: &anyMatcher{
-																					line: 2897, col: 9, offset: 91595,
+																					line: 2899, col: 9, offset: 91666,
 																				},
 																			},
 																		},
@@ -6317,10 +6317,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 772, col: 8, offset: 24782},
 																												expr: &actionExpr{
-																													pos: position{line: 2878, col: 10, offset: 91246},
+																													pos: position{line: 2880, col: 10, offset: 91317},
 																													run: (*parser).callonDocumentFragment467,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2878, col: 10, offset: 91246},
+																														pos:        position{line: 2880, col: 10, offset: 91317},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6329,28 +6329,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2900, col: 8, offset: 91644},
+																												pos: position{line: 2902, col: 8, offset: 91715},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2887, col: 12, offset: 91417},
+																														pos: position{line: 2889, col: 12, offset: 91488},
 																														run: (*parser).callonDocumentFragment470,
 																														expr: &choiceExpr{
-																															pos: position{line: 2887, col: 13, offset: 91418},
+																															pos: position{line: 2889, col: 13, offset: 91489},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2887, col: 13, offset: 91418},
+																																	pos:        position{line: 2889, col: 13, offset: 91489},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2887, col: 20, offset: 91425},
+																																	pos:        position{line: 2889, col: 20, offset: 91496},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2887, col: 29, offset: 91434},
+																																	pos:        position{line: 2889, col: 29, offset: 91505},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6359,9 +6359,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2897, col: 8, offset: 91594},
+																														pos: position{line: 2899, col: 8, offset: 91665},
 																														expr: &anyMatcher{
-																															line: 2897, col: 9, offset: 91595,
+																															line: 2899, col: 9, offset: 91666,
 																														},
 																													},
 																												},
@@ -6377,9 +6377,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2897, col: 8, offset: 91594},
+																						pos: position{line: 2899, col: 8, offset: 91665},
 																						expr: &anyMatcher{
-																							line: 2897, col: 9, offset: 91595,
+																							line: 2899, col: 9, offset: 91666,
 																						},
 																					},
 																				},
@@ -6395,21 +6395,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2895, col: 11, offset: 91580},
+																							pos: position{line: 2897, col: 11, offset: 91651},
 																							expr: &anyMatcher{
-																								line: 2895, col: 13, offset: 91582,
+																								line: 2897, col: 13, offset: 91653,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2824, col: 13, offset: 89772},
+																								pos: position{line: 2826, col: 13, offset: 89843},
 																								run: (*parser).callonDocumentFragment486,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2824, col: 13, offset: 89772},
+																									pos: position{line: 2826, col: 13, offset: 89843},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2824, col: 13, offset: 89772},
+																										pos:        position{line: 2826, col: 13, offset: 89843},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6419,28 +6419,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2900, col: 8, offset: 91644},
+																							pos: position{line: 2902, col: 8, offset: 91715},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2887, col: 12, offset: 91417},
+																									pos: position{line: 2889, col: 12, offset: 91488},
 																									run: (*parser).callonDocumentFragment490,
 																									expr: &choiceExpr{
-																										pos: position{line: 2887, col: 13, offset: 91418},
+																										pos: position{line: 2889, col: 13, offset: 91489},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 13, offset: 91418},
+																												pos:        position{line: 2889, col: 13, offset: 91489},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 20, offset: 91425},
+																												pos:        position{line: 2889, col: 20, offset: 91496},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 29, offset: 91434},
+																												pos:        position{line: 2889, col: 29, offset: 91505},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6449,9 +6449,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2897, col: 8, offset: 91594},
+																									pos: position{line: 2899, col: 8, offset: 91665},
 																									expr: &anyMatcher{
-																										line: 2897, col: 9, offset: 91595,
+																										line: 2899, col: 9, offset: 91666,
 																									},
 																								},
 																							},
@@ -6516,10 +6516,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 772, col: 8, offset: 24782},
 																								expr: &actionExpr{
-																									pos: position{line: 2878, col: 10, offset: 91246},
+																									pos: position{line: 2880, col: 10, offset: 91317},
 																									run: (*parser).callonDocumentFragment511,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2878, col: 10, offset: 91246},
+																										pos:        position{line: 2880, col: 10, offset: 91317},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6528,28 +6528,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2900, col: 8, offset: 91644},
+																								pos: position{line: 2902, col: 8, offset: 91715},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2887, col: 12, offset: 91417},
+																										pos: position{line: 2889, col: 12, offset: 91488},
 																										run: (*parser).callonDocumentFragment514,
 																										expr: &choiceExpr{
-																											pos: position{line: 2887, col: 13, offset: 91418},
+																											pos: position{line: 2889, col: 13, offset: 91489},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2887, col: 13, offset: 91418},
+																													pos:        position{line: 2889, col: 13, offset: 91489},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2887, col: 20, offset: 91425},
+																													pos:        position{line: 2889, col: 20, offset: 91496},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2887, col: 29, offset: 91434},
+																													pos:        position{line: 2889, col: 29, offset: 91505},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6558,9 +6558,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2897, col: 8, offset: 91594},
+																										pos: position{line: 2899, col: 8, offset: 91665},
 																										expr: &anyMatcher{
-																											line: 2897, col: 9, offset: 91595,
+																											line: 2899, col: 9, offset: 91666,
 																										},
 																									},
 																								},
@@ -6576,9 +6576,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2897, col: 8, offset: 91594},
+																		pos: position{line: 2899, col: 8, offset: 91665},
 																		expr: &anyMatcher{
-																			line: 2897, col: 9, offset: 91595,
+																			line: 2899, col: 9, offset: 91666,
 																		},
 																	},
 																},
@@ -6634,10 +6634,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 786, col: 8, offset: 25258},
 																		expr: &actionExpr{
-																			pos: position{line: 2878, col: 10, offset: 91246},
+																			pos: position{line: 2880, col: 10, offset: 91317},
 																			run: (*parser).callonDocumentFragment536,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2878, col: 10, offset: 91246},
+																				pos:        position{line: 2880, col: 10, offset: 91317},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6646,28 +6646,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2900, col: 8, offset: 91644},
+																		pos: position{line: 2902, col: 8, offset: 91715},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2887, col: 12, offset: 91417},
+																				pos: position{line: 2889, col: 12, offset: 91488},
 																				run: (*parser).callonDocumentFragment539,
 																				expr: &choiceExpr{
-																					pos: position{line: 2887, col: 13, offset: 91418},
+																					pos: position{line: 2889, col: 13, offset: 91489},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 13, offset: 91418},
+																							pos:        position{line: 2889, col: 13, offset: 91489},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 20, offset: 91425},
+																							pos:        position{line: 2889, col: 20, offset: 91496},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 29, offset: 91434},
+																							pos:        position{line: 2889, col: 29, offset: 91505},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6676,9 +6676,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2897, col: 8, offset: 91594},
+																				pos: position{line: 2899, col: 8, offset: 91665},
 																				expr: &anyMatcher{
-																					line: 2897, col: 9, offset: 91595,
+																					line: 2899, col: 9, offset: 91666,
 																				},
 																			},
 																		},
@@ -6750,10 +6750,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 786, col: 8, offset: 25258},
 																												expr: &actionExpr{
-																													pos: position{line: 2878, col: 10, offset: 91246},
+																													pos: position{line: 2880, col: 10, offset: 91317},
 																													run: (*parser).callonDocumentFragment564,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2878, col: 10, offset: 91246},
+																														pos:        position{line: 2880, col: 10, offset: 91317},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6762,28 +6762,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2900, col: 8, offset: 91644},
+																												pos: position{line: 2902, col: 8, offset: 91715},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2887, col: 12, offset: 91417},
+																														pos: position{line: 2889, col: 12, offset: 91488},
 																														run: (*parser).callonDocumentFragment567,
 																														expr: &choiceExpr{
-																															pos: position{line: 2887, col: 13, offset: 91418},
+																															pos: position{line: 2889, col: 13, offset: 91489},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2887, col: 13, offset: 91418},
+																																	pos:        position{line: 2889, col: 13, offset: 91489},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2887, col: 20, offset: 91425},
+																																	pos:        position{line: 2889, col: 20, offset: 91496},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2887, col: 29, offset: 91434},
+																																	pos:        position{line: 2889, col: 29, offset: 91505},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6792,9 +6792,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2897, col: 8, offset: 91594},
+																														pos: position{line: 2899, col: 8, offset: 91665},
 																														expr: &anyMatcher{
-																															line: 2897, col: 9, offset: 91595,
+																															line: 2899, col: 9, offset: 91666,
 																														},
 																													},
 																												},
@@ -6810,9 +6810,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2897, col: 8, offset: 91594},
+																						pos: position{line: 2899, col: 8, offset: 91665},
 																						expr: &anyMatcher{
-																							line: 2897, col: 9, offset: 91595,
+																							line: 2899, col: 9, offset: 91666,
 																						},
 																					},
 																				},
@@ -6828,21 +6828,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2895, col: 11, offset: 91580},
+																							pos: position{line: 2897, col: 11, offset: 91651},
 																							expr: &anyMatcher{
-																								line: 2895, col: 13, offset: 91582,
+																								line: 2897, col: 13, offset: 91653,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2824, col: 13, offset: 89772},
+																								pos: position{line: 2826, col: 13, offset: 89843},
 																								run: (*parser).callonDocumentFragment583,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2824, col: 13, offset: 89772},
+																									pos: position{line: 2826, col: 13, offset: 89843},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2824, col: 13, offset: 89772},
+																										pos:        position{line: 2826, col: 13, offset: 89843},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6852,28 +6852,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2900, col: 8, offset: 91644},
+																							pos: position{line: 2902, col: 8, offset: 91715},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2887, col: 12, offset: 91417},
+																									pos: position{line: 2889, col: 12, offset: 91488},
 																									run: (*parser).callonDocumentFragment587,
 																									expr: &choiceExpr{
-																										pos: position{line: 2887, col: 13, offset: 91418},
+																										pos: position{line: 2889, col: 13, offset: 91489},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 13, offset: 91418},
+																												pos:        position{line: 2889, col: 13, offset: 91489},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 20, offset: 91425},
+																												pos:        position{line: 2889, col: 20, offset: 91496},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 29, offset: 91434},
+																												pos:        position{line: 2889, col: 29, offset: 91505},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6882,9 +6882,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2897, col: 8, offset: 91594},
+																									pos: position{line: 2899, col: 8, offset: 91665},
 																									expr: &anyMatcher{
-																										line: 2897, col: 9, offset: 91595,
+																										line: 2899, col: 9, offset: 91666,
 																									},
 																								},
 																							},
@@ -6949,10 +6949,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 786, col: 8, offset: 25258},
 																								expr: &actionExpr{
-																									pos: position{line: 2878, col: 10, offset: 91246},
+																									pos: position{line: 2880, col: 10, offset: 91317},
 																									run: (*parser).callonDocumentFragment608,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2878, col: 10, offset: 91246},
+																										pos:        position{line: 2880, col: 10, offset: 91317},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6961,28 +6961,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2900, col: 8, offset: 91644},
+																								pos: position{line: 2902, col: 8, offset: 91715},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2887, col: 12, offset: 91417},
+																										pos: position{line: 2889, col: 12, offset: 91488},
 																										run: (*parser).callonDocumentFragment611,
 																										expr: &choiceExpr{
-																											pos: position{line: 2887, col: 13, offset: 91418},
+																											pos: position{line: 2889, col: 13, offset: 91489},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2887, col: 13, offset: 91418},
+																													pos:        position{line: 2889, col: 13, offset: 91489},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2887, col: 20, offset: 91425},
+																													pos:        position{line: 2889, col: 20, offset: 91496},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2887, col: 29, offset: 91434},
+																													pos:        position{line: 2889, col: 29, offset: 91505},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6991,9 +6991,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2897, col: 8, offset: 91594},
+																										pos: position{line: 2899, col: 8, offset: 91665},
 																										expr: &anyMatcher{
-																											line: 2897, col: 9, offset: 91595,
+																											line: 2899, col: 9, offset: 91666,
 																										},
 																									},
 																								},
@@ -7009,9 +7009,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2897, col: 8, offset: 91594},
+																		pos: position{line: 2899, col: 8, offset: 91665},
 																		expr: &anyMatcher{
-																			line: 2897, col: 9, offset: 91595,
+																			line: 2899, col: 9, offset: 91666,
 																		},
 																	},
 																},
@@ -7045,18 +7045,18 @@ var g = &grammar{
 																				pos: position{line: 677, col: 14, offset: 21525},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2895, col: 11, offset: 91580},
+																						pos: position{line: 2897, col: 11, offset: 91651},
 																						expr: &anyMatcher{
-																							line: 2895, col: 13, offset: 91582,
+																							line: 2897, col: 13, offset: 91653,
 																						},
 																					},
 																					&zeroOrMoreExpr{
 																						pos: position{line: 677, col: 21, offset: 21532},
 																						expr: &actionExpr{
-																							pos: position{line: 2878, col: 10, offset: 91246},
+																							pos: position{line: 2880, col: 10, offset: 91317},
 																							run: (*parser).callonDocumentFragment632,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2878, col: 10, offset: 91246},
+																								pos:        position{line: 2880, col: 10, offset: 91317},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -7065,28 +7065,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2900, col: 8, offset: 91644},
+																						pos: position{line: 2902, col: 8, offset: 91715},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2887, col: 12, offset: 91417},
+																								pos: position{line: 2889, col: 12, offset: 91488},
 																								run: (*parser).callonDocumentFragment635,
 																								expr: &choiceExpr{
-																									pos: position{line: 2887, col: 13, offset: 91418},
+																									pos: position{line: 2889, col: 13, offset: 91489},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 13, offset: 91418},
+																											pos:        position{line: 2889, col: 13, offset: 91489},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 20, offset: 91425},
+																											pos:        position{line: 2889, col: 20, offset: 91496},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 29, offset: 91434},
+																											pos:        position{line: 2889, col: 29, offset: 91505},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -7095,9 +7095,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2897, col: 8, offset: 91594},
+																								pos: position{line: 2899, col: 8, offset: 91665},
 																								expr: &anyMatcher{
-																									line: 2897, col: 9, offset: 91595,
+																									line: 2899, col: 9, offset: 91666,
 																								},
 																							},
 																						},
@@ -7116,12 +7116,12 @@ var g = &grammar{
 																		pos:   position{line: 985, col: 5, offset: 30748},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2828, col: 14, offset: 89839},
+																			pos: position{line: 2830, col: 14, offset: 89910},
 																			run: (*parser).callonDocumentFragment644,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2828, col: 14, offset: 89839},
+																				pos: position{line: 2830, col: 14, offset: 89910},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2828, col: 14, offset: 89839},
+																					pos:        position{line: 2830, col: 14, offset: 89910},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -7131,28 +7131,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2900, col: 8, offset: 91644},
+																		pos: position{line: 2902, col: 8, offset: 91715},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2887, col: 12, offset: 91417},
+																				pos: position{line: 2889, col: 12, offset: 91488},
 																				run: (*parser).callonDocumentFragment648,
 																				expr: &choiceExpr{
-																					pos: position{line: 2887, col: 13, offset: 91418},
+																					pos: position{line: 2889, col: 13, offset: 91489},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 13, offset: 91418},
+																							pos:        position{line: 2889, col: 13, offset: 91489},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 20, offset: 91425},
+																							pos:        position{line: 2889, col: 20, offset: 91496},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 29, offset: 91434},
+																							pos:        position{line: 2889, col: 29, offset: 91505},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7161,9 +7161,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2897, col: 8, offset: 91594},
+																				pos: position{line: 2899, col: 8, offset: 91665},
 																				expr: &anyMatcher{
-																					line: 2897, col: 9, offset: 91595,
+																					line: 2899, col: 9, offset: 91666,
 																				},
 																			},
 																		},
@@ -7195,18 +7195,18 @@ var g = &grammar{
 																							pos: position{line: 677, col: 14, offset: 21525},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2895, col: 11, offset: 91580},
+																									pos: position{line: 2897, col: 11, offset: 91651},
 																									expr: &anyMatcher{
-																										line: 2895, col: 13, offset: 91582,
+																										line: 2897, col: 13, offset: 91653,
 																									},
 																								},
 																								&zeroOrMoreExpr{
 																									pos: position{line: 677, col: 21, offset: 21532},
 																									expr: &actionExpr{
-																										pos: position{line: 2878, col: 10, offset: 91246},
+																										pos: position{line: 2880, col: 10, offset: 91317},
 																										run: (*parser).callonDocumentFragment666,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2878, col: 10, offset: 91246},
+																											pos:        position{line: 2880, col: 10, offset: 91317},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7215,28 +7215,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2900, col: 8, offset: 91644},
+																									pos: position{line: 2902, col: 8, offset: 91715},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2887, col: 12, offset: 91417},
+																											pos: position{line: 2889, col: 12, offset: 91488},
 																											run: (*parser).callonDocumentFragment669,
 																											expr: &choiceExpr{
-																												pos: position{line: 2887, col: 13, offset: 91418},
+																												pos: position{line: 2889, col: 13, offset: 91489},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2887, col: 13, offset: 91418},
+																														pos:        position{line: 2889, col: 13, offset: 91489},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2887, col: 20, offset: 91425},
+																														pos:        position{line: 2889, col: 20, offset: 91496},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2887, col: 29, offset: 91434},
+																														pos:        position{line: 2889, col: 29, offset: 91505},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7245,9 +7245,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2897, col: 8, offset: 91594},
+																											pos: position{line: 2899, col: 8, offset: 91665},
 																											expr: &anyMatcher{
-																												line: 2897, col: 9, offset: 91595,
+																												line: 2899, col: 9, offset: 91666,
 																											},
 																										},
 																									},
@@ -7266,12 +7266,12 @@ var g = &grammar{
 																					pos:   position{line: 985, col: 5, offset: 30748},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2828, col: 14, offset: 89839},
+																						pos: position{line: 2830, col: 14, offset: 89910},
 																						run: (*parser).callonDocumentFragment678,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2828, col: 14, offset: 89839},
+																							pos: position{line: 2830, col: 14, offset: 89910},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2828, col: 14, offset: 89839},
+																								pos:        position{line: 2830, col: 14, offset: 89910},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7281,28 +7281,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2900, col: 8, offset: 91644},
+																					pos: position{line: 2902, col: 8, offset: 91715},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2887, col: 12, offset: 91417},
+																							pos: position{line: 2889, col: 12, offset: 91488},
 																							run: (*parser).callonDocumentFragment682,
 																							expr: &choiceExpr{
-																								pos: position{line: 2887, col: 13, offset: 91418},
+																								pos: position{line: 2889, col: 13, offset: 91489},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2887, col: 13, offset: 91418},
+																										pos:        position{line: 2889, col: 13, offset: 91489},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2887, col: 20, offset: 91425},
+																										pos:        position{line: 2889, col: 20, offset: 91496},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2887, col: 29, offset: 91434},
+																										pos:        position{line: 2889, col: 29, offset: 91505},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7311,9 +7311,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2897, col: 8, offset: 91594},
+																							pos: position{line: 2899, col: 8, offset: 91665},
 																							expr: &anyMatcher{
-																								line: 2897, col: 9, offset: 91595,
+																								line: 2899, col: 9, offset: 91666,
 																							},
 																						},
 																					},
@@ -7331,12 +7331,12 @@ var g = &grammar{
 																					pos:   position{line: 1797, col: 5, offset: 58258},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2828, col: 14, offset: 89839},
+																						pos: position{line: 2830, col: 14, offset: 89910},
 																						run: (*parser).callonDocumentFragment692,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2828, col: 14, offset: 89839},
+																							pos: position{line: 2830, col: 14, offset: 89910},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2828, col: 14, offset: 89839},
+																								pos:        position{line: 2830, col: 14, offset: 89910},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7350,28 +7350,28 @@ var g = &grammar{
 																					run: (*parser).callonDocumentFragment695,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2900, col: 8, offset: 91644},
+																					pos: position{line: 2902, col: 8, offset: 91715},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2887, col: 12, offset: 91417},
+																							pos: position{line: 2889, col: 12, offset: 91488},
 																							run: (*parser).callonDocumentFragment697,
 																							expr: &choiceExpr{
-																								pos: position{line: 2887, col: 13, offset: 91418},
+																								pos: position{line: 2889, col: 13, offset: 91489},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2887, col: 13, offset: 91418},
+																										pos:        position{line: 2889, col: 13, offset: 91489},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2887, col: 20, offset: 91425},
+																										pos:        position{line: 2889, col: 20, offset: 91496},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2887, col: 29, offset: 91434},
+																										pos:        position{line: 2889, col: 29, offset: 91505},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7380,9 +7380,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2897, col: 8, offset: 91594},
+																							pos: position{line: 2899, col: 8, offset: 91665},
 																							expr: &anyMatcher{
-																								line: 2897, col: 9, offset: 91595,
+																								line: 2899, col: 9, offset: 91666,
 																							},
 																						},
 																					},
@@ -7429,10 +7429,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 779, col: 8, offset: 25013},
 																		expr: &actionExpr{
-																			pos: position{line: 2878, col: 10, offset: 91246},
+																			pos: position{line: 2880, col: 10, offset: 91317},
 																			run: (*parser).callonDocumentFragment713,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2878, col: 10, offset: 91246},
+																				pos:        position{line: 2880, col: 10, offset: 91317},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7441,28 +7441,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2900, col: 8, offset: 91644},
+																		pos: position{line: 2902, col: 8, offset: 91715},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2887, col: 12, offset: 91417},
+																				pos: position{line: 2889, col: 12, offset: 91488},
 																				run: (*parser).callonDocumentFragment716,
 																				expr: &choiceExpr{
-																					pos: position{line: 2887, col: 13, offset: 91418},
+																					pos: position{line: 2889, col: 13, offset: 91489},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 13, offset: 91418},
+																							pos:        position{line: 2889, col: 13, offset: 91489},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 20, offset: 91425},
+																							pos:        position{line: 2889, col: 20, offset: 91496},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 29, offset: 91434},
+																							pos:        position{line: 2889, col: 29, offset: 91505},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7471,9 +7471,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2897, col: 8, offset: 91594},
+																				pos: position{line: 2899, col: 8, offset: 91665},
 																				expr: &anyMatcher{
-																					line: 2897, col: 9, offset: 91595,
+																					line: 2899, col: 9, offset: 91666,
 																				},
 																			},
 																		},
@@ -7521,10 +7521,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 779, col: 8, offset: 25013},
 																									expr: &actionExpr{
-																										pos: position{line: 2878, col: 10, offset: 91246},
+																										pos: position{line: 2880, col: 10, offset: 91317},
 																										run: (*parser).callonDocumentFragment735,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2878, col: 10, offset: 91246},
+																											pos:        position{line: 2880, col: 10, offset: 91317},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7533,28 +7533,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2900, col: 8, offset: 91644},
+																									pos: position{line: 2902, col: 8, offset: 91715},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2887, col: 12, offset: 91417},
+																											pos: position{line: 2889, col: 12, offset: 91488},
 																											run: (*parser).callonDocumentFragment738,
 																											expr: &choiceExpr{
-																												pos: position{line: 2887, col: 13, offset: 91418},
+																												pos: position{line: 2889, col: 13, offset: 91489},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2887, col: 13, offset: 91418},
+																														pos:        position{line: 2889, col: 13, offset: 91489},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2887, col: 20, offset: 91425},
+																														pos:        position{line: 2889, col: 20, offset: 91496},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2887, col: 29, offset: 91434},
+																														pos:        position{line: 2889, col: 29, offset: 91505},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7563,9 +7563,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2897, col: 8, offset: 91594},
+																											pos: position{line: 2899, col: 8, offset: 91665},
 																											expr: &anyMatcher{
-																												line: 2897, col: 9, offset: 91595,
+																												line: 2899, col: 9, offset: 91666,
 																											},
 																										},
 																									},
@@ -7574,9 +7574,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2897, col: 8, offset: 91594},
+																						pos: position{line: 2899, col: 8, offset: 91665},
 																						expr: &anyMatcher{
-																							line: 2897, col: 9, offset: 91595,
+																							line: 2899, col: 9, offset: 91666,
 																						},
 																					},
 																				},
@@ -7592,21 +7592,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2895, col: 11, offset: 91580},
+																							pos: position{line: 2897, col: 11, offset: 91651},
 																							expr: &anyMatcher{
-																								line: 2895, col: 13, offset: 91582,
+																								line: 2897, col: 13, offset: 91653,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2824, col: 13, offset: 89772},
+																								pos: position{line: 2826, col: 13, offset: 89843},
 																								run: (*parser).callonDocumentFragment753,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2824, col: 13, offset: 89772},
+																									pos: position{line: 2826, col: 13, offset: 89843},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2824, col: 13, offset: 89772},
+																										pos:        position{line: 2826, col: 13, offset: 89843},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7616,28 +7616,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2900, col: 8, offset: 91644},
+																							pos: position{line: 2902, col: 8, offset: 91715},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2887, col: 12, offset: 91417},
+																									pos: position{line: 2889, col: 12, offset: 91488},
 																									run: (*parser).callonDocumentFragment757,
 																									expr: &choiceExpr{
-																										pos: position{line: 2887, col: 13, offset: 91418},
+																										pos: position{line: 2889, col: 13, offset: 91489},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 13, offset: 91418},
+																												pos:        position{line: 2889, col: 13, offset: 91489},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 20, offset: 91425},
+																												pos:        position{line: 2889, col: 20, offset: 91496},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 29, offset: 91434},
+																												pos:        position{line: 2889, col: 29, offset: 91505},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7646,9 +7646,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2897, col: 8, offset: 91594},
+																									pos: position{line: 2899, col: 8, offset: 91665},
 																									expr: &anyMatcher{
-																										line: 2897, col: 9, offset: 91595,
+																										line: 2899, col: 9, offset: 91666,
 																									},
 																								},
 																							},
@@ -7693,10 +7693,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 779, col: 8, offset: 25013},
 																					expr: &actionExpr{
-																						pos: position{line: 2878, col: 10, offset: 91246},
+																						pos: position{line: 2880, col: 10, offset: 91317},
 																						run: (*parser).callonDocumentFragment773,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2878, col: 10, offset: 91246},
+																							pos:        position{line: 2880, col: 10, offset: 91317},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7705,28 +7705,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2900, col: 8, offset: 91644},
+																					pos: position{line: 2902, col: 8, offset: 91715},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2887, col: 12, offset: 91417},
+																							pos: position{line: 2889, col: 12, offset: 91488},
 																							run: (*parser).callonDocumentFragment776,
 																							expr: &choiceExpr{
-																								pos: position{line: 2887, col: 13, offset: 91418},
+																								pos: position{line: 2889, col: 13, offset: 91489},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2887, col: 13, offset: 91418},
+																										pos:        position{line: 2889, col: 13, offset: 91489},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2887, col: 20, offset: 91425},
+																										pos:        position{line: 2889, col: 20, offset: 91496},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2887, col: 29, offset: 91434},
+																										pos:        position{line: 2889, col: 29, offset: 91505},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7735,9 +7735,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2897, col: 8, offset: 91594},
+																							pos: position{line: 2899, col: 8, offset: 91665},
 																							expr: &anyMatcher{
-																								line: 2897, col: 9, offset: 91595,
+																								line: 2899, col: 9, offset: 91666,
 																							},
 																						},
 																					},
@@ -7746,9 +7746,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2897, col: 8, offset: 91594},
+																		pos: position{line: 2899, col: 8, offset: 91665},
 																		expr: &anyMatcher{
-																			line: 2897, col: 9, offset: 91595,
+																			line: 2899, col: 9, offset: 91666,
 																		},
 																	},
 																},
@@ -7804,10 +7804,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 793, col: 8, offset: 25510},
 																		expr: &actionExpr{
-																			pos: position{line: 2878, col: 10, offset: 91246},
+																			pos: position{line: 2880, col: 10, offset: 91317},
 																			run: (*parser).callonDocumentFragment797,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2878, col: 10, offset: 91246},
+																				pos:        position{line: 2880, col: 10, offset: 91317},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7816,28 +7816,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2900, col: 8, offset: 91644},
+																		pos: position{line: 2902, col: 8, offset: 91715},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2887, col: 12, offset: 91417},
+																				pos: position{line: 2889, col: 12, offset: 91488},
 																				run: (*parser).callonDocumentFragment800,
 																				expr: &choiceExpr{
-																					pos: position{line: 2887, col: 13, offset: 91418},
+																					pos: position{line: 2889, col: 13, offset: 91489},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 13, offset: 91418},
+																							pos:        position{line: 2889, col: 13, offset: 91489},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 20, offset: 91425},
+																							pos:        position{line: 2889, col: 20, offset: 91496},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 29, offset: 91434},
+																							pos:        position{line: 2889, col: 29, offset: 91505},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7846,9 +7846,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2897, col: 8, offset: 91594},
+																				pos: position{line: 2899, col: 8, offset: 91665},
 																				expr: &anyMatcher{
-																					line: 2897, col: 9, offset: 91595,
+																					line: 2899, col: 9, offset: 91666,
 																				},
 																			},
 																		},
@@ -7920,10 +7920,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 793, col: 8, offset: 25510},
 																												expr: &actionExpr{
-																													pos: position{line: 2878, col: 10, offset: 91246},
+																													pos: position{line: 2880, col: 10, offset: 91317},
 																													run: (*parser).callonDocumentFragment825,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2878, col: 10, offset: 91246},
+																														pos:        position{line: 2880, col: 10, offset: 91317},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7932,28 +7932,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2900, col: 8, offset: 91644},
+																												pos: position{line: 2902, col: 8, offset: 91715},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2887, col: 12, offset: 91417},
+																														pos: position{line: 2889, col: 12, offset: 91488},
 																														run: (*parser).callonDocumentFragment828,
 																														expr: &choiceExpr{
-																															pos: position{line: 2887, col: 13, offset: 91418},
+																															pos: position{line: 2889, col: 13, offset: 91489},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2887, col: 13, offset: 91418},
+																																	pos:        position{line: 2889, col: 13, offset: 91489},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2887, col: 20, offset: 91425},
+																																	pos:        position{line: 2889, col: 20, offset: 91496},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2887, col: 29, offset: 91434},
+																																	pos:        position{line: 2889, col: 29, offset: 91505},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7962,9 +7962,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2897, col: 8, offset: 91594},
+																														pos: position{line: 2899, col: 8, offset: 91665},
 																														expr: &anyMatcher{
-																															line: 2897, col: 9, offset: 91595,
+																															line: 2899, col: 9, offset: 91666,
 																														},
 																													},
 																												},
@@ -7980,9 +7980,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2897, col: 8, offset: 91594},
+																						pos: position{line: 2899, col: 8, offset: 91665},
 																						expr: &anyMatcher{
-																							line: 2897, col: 9, offset: 91595,
+																							line: 2899, col: 9, offset: 91666,
 																						},
 																					},
 																				},
@@ -7998,21 +7998,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2895, col: 11, offset: 91580},
+																							pos: position{line: 2897, col: 11, offset: 91651},
 																							expr: &anyMatcher{
-																								line: 2895, col: 13, offset: 91582,
+																								line: 2897, col: 13, offset: 91653,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2824, col: 13, offset: 89772},
+																								pos: position{line: 2826, col: 13, offset: 89843},
 																								run: (*parser).callonDocumentFragment844,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2824, col: 13, offset: 89772},
+																									pos: position{line: 2826, col: 13, offset: 89843},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2824, col: 13, offset: 89772},
+																										pos:        position{line: 2826, col: 13, offset: 89843},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8022,28 +8022,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2900, col: 8, offset: 91644},
+																							pos: position{line: 2902, col: 8, offset: 91715},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2887, col: 12, offset: 91417},
+																									pos: position{line: 2889, col: 12, offset: 91488},
 																									run: (*parser).callonDocumentFragment848,
 																									expr: &choiceExpr{
-																										pos: position{line: 2887, col: 13, offset: 91418},
+																										pos: position{line: 2889, col: 13, offset: 91489},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 13, offset: 91418},
+																												pos:        position{line: 2889, col: 13, offset: 91489},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 20, offset: 91425},
+																												pos:        position{line: 2889, col: 20, offset: 91496},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 29, offset: 91434},
+																												pos:        position{line: 2889, col: 29, offset: 91505},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8052,9 +8052,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2897, col: 8, offset: 91594},
+																									pos: position{line: 2899, col: 8, offset: 91665},
 																									expr: &anyMatcher{
-																										line: 2897, col: 9, offset: 91595,
+																										line: 2899, col: 9, offset: 91666,
 																									},
 																								},
 																							},
@@ -8119,10 +8119,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 793, col: 8, offset: 25510},
 																								expr: &actionExpr{
-																									pos: position{line: 2878, col: 10, offset: 91246},
+																									pos: position{line: 2880, col: 10, offset: 91317},
 																									run: (*parser).callonDocumentFragment869,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2878, col: 10, offset: 91246},
+																										pos:        position{line: 2880, col: 10, offset: 91317},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8131,28 +8131,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2900, col: 8, offset: 91644},
+																								pos: position{line: 2902, col: 8, offset: 91715},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2887, col: 12, offset: 91417},
+																										pos: position{line: 2889, col: 12, offset: 91488},
 																										run: (*parser).callonDocumentFragment872,
 																										expr: &choiceExpr{
-																											pos: position{line: 2887, col: 13, offset: 91418},
+																											pos: position{line: 2889, col: 13, offset: 91489},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2887, col: 13, offset: 91418},
+																													pos:        position{line: 2889, col: 13, offset: 91489},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2887, col: 20, offset: 91425},
+																													pos:        position{line: 2889, col: 20, offset: 91496},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2887, col: 29, offset: 91434},
+																													pos:        position{line: 2889, col: 29, offset: 91505},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8161,9 +8161,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2897, col: 8, offset: 91594},
+																										pos: position{line: 2899, col: 8, offset: 91665},
 																										expr: &anyMatcher{
-																											line: 2897, col: 9, offset: 91595,
+																											line: 2899, col: 9, offset: 91666,
 																										},
 																									},
 																								},
@@ -8179,9 +8179,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2897, col: 8, offset: 91594},
+																		pos: position{line: 2899, col: 8, offset: 91665},
 																		expr: &anyMatcher{
-																			line: 2897, col: 9, offset: 91595,
+																			line: 2899, col: 9, offset: 91666,
 																		},
 																	},
 																},
@@ -8237,10 +8237,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 800, col: 8, offset: 25760},
 																		expr: &actionExpr{
-																			pos: position{line: 2878, col: 10, offset: 91246},
+																			pos: position{line: 2880, col: 10, offset: 91317},
 																			run: (*parser).callonDocumentFragment894,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2878, col: 10, offset: 91246},
+																				pos:        position{line: 2880, col: 10, offset: 91317},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8249,28 +8249,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2900, col: 8, offset: 91644},
+																		pos: position{line: 2902, col: 8, offset: 91715},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2887, col: 12, offset: 91417},
+																				pos: position{line: 2889, col: 12, offset: 91488},
 																				run: (*parser).callonDocumentFragment897,
 																				expr: &choiceExpr{
-																					pos: position{line: 2887, col: 13, offset: 91418},
+																					pos: position{line: 2889, col: 13, offset: 91489},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 13, offset: 91418},
+																							pos:        position{line: 2889, col: 13, offset: 91489},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 20, offset: 91425},
+																							pos:        position{line: 2889, col: 20, offset: 91496},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 29, offset: 91434},
+																							pos:        position{line: 2889, col: 29, offset: 91505},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8279,9 +8279,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2897, col: 8, offset: 91594},
+																				pos: position{line: 2899, col: 8, offset: 91665},
 																				expr: &anyMatcher{
-																					line: 2897, col: 9, offset: 91595,
+																					line: 2899, col: 9, offset: 91666,
 																				},
 																			},
 																		},
@@ -8353,10 +8353,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 800, col: 8, offset: 25760},
 																												expr: &actionExpr{
-																													pos: position{line: 2878, col: 10, offset: 91246},
+																													pos: position{line: 2880, col: 10, offset: 91317},
 																													run: (*parser).callonDocumentFragment922,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2878, col: 10, offset: 91246},
+																														pos:        position{line: 2880, col: 10, offset: 91317},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8365,28 +8365,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2900, col: 8, offset: 91644},
+																												pos: position{line: 2902, col: 8, offset: 91715},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2887, col: 12, offset: 91417},
+																														pos: position{line: 2889, col: 12, offset: 91488},
 																														run: (*parser).callonDocumentFragment925,
 																														expr: &choiceExpr{
-																															pos: position{line: 2887, col: 13, offset: 91418},
+																															pos: position{line: 2889, col: 13, offset: 91489},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2887, col: 13, offset: 91418},
+																																	pos:        position{line: 2889, col: 13, offset: 91489},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2887, col: 20, offset: 91425},
+																																	pos:        position{line: 2889, col: 20, offset: 91496},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2887, col: 29, offset: 91434},
+																																	pos:        position{line: 2889, col: 29, offset: 91505},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8395,9 +8395,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2897, col: 8, offset: 91594},
+																														pos: position{line: 2899, col: 8, offset: 91665},
 																														expr: &anyMatcher{
-																															line: 2897, col: 9, offset: 91595,
+																															line: 2899, col: 9, offset: 91666,
 																														},
 																													},
 																												},
@@ -8413,9 +8413,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2897, col: 8, offset: 91594},
+																						pos: position{line: 2899, col: 8, offset: 91665},
 																						expr: &anyMatcher{
-																							line: 2897, col: 9, offset: 91595,
+																							line: 2899, col: 9, offset: 91666,
 																						},
 																					},
 																				},
@@ -8431,21 +8431,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2895, col: 11, offset: 91580},
+																							pos: position{line: 2897, col: 11, offset: 91651},
 																							expr: &anyMatcher{
-																								line: 2895, col: 13, offset: 91582,
+																								line: 2897, col: 13, offset: 91653,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2824, col: 13, offset: 89772},
+																								pos: position{line: 2826, col: 13, offset: 89843},
 																								run: (*parser).callonDocumentFragment941,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2824, col: 13, offset: 89772},
+																									pos: position{line: 2826, col: 13, offset: 89843},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2824, col: 13, offset: 89772},
+																										pos:        position{line: 2826, col: 13, offset: 89843},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8455,28 +8455,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2900, col: 8, offset: 91644},
+																							pos: position{line: 2902, col: 8, offset: 91715},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2887, col: 12, offset: 91417},
+																									pos: position{line: 2889, col: 12, offset: 91488},
 																									run: (*parser).callonDocumentFragment945,
 																									expr: &choiceExpr{
-																										pos: position{line: 2887, col: 13, offset: 91418},
+																										pos: position{line: 2889, col: 13, offset: 91489},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 13, offset: 91418},
+																												pos:        position{line: 2889, col: 13, offset: 91489},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 20, offset: 91425},
+																												pos:        position{line: 2889, col: 20, offset: 91496},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 29, offset: 91434},
+																												pos:        position{line: 2889, col: 29, offset: 91505},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8485,9 +8485,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2897, col: 8, offset: 91594},
+																									pos: position{line: 2899, col: 8, offset: 91665},
 																									expr: &anyMatcher{
-																										line: 2897, col: 9, offset: 91595,
+																										line: 2899, col: 9, offset: 91666,
 																									},
 																								},
 																							},
@@ -8552,10 +8552,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 800, col: 8, offset: 25760},
 																								expr: &actionExpr{
-																									pos: position{line: 2878, col: 10, offset: 91246},
+																									pos: position{line: 2880, col: 10, offset: 91317},
 																									run: (*parser).callonDocumentFragment966,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2878, col: 10, offset: 91246},
+																										pos:        position{line: 2880, col: 10, offset: 91317},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8564,28 +8564,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2900, col: 8, offset: 91644},
+																								pos: position{line: 2902, col: 8, offset: 91715},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2887, col: 12, offset: 91417},
+																										pos: position{line: 2889, col: 12, offset: 91488},
 																										run: (*parser).callonDocumentFragment969,
 																										expr: &choiceExpr{
-																											pos: position{line: 2887, col: 13, offset: 91418},
+																											pos: position{line: 2889, col: 13, offset: 91489},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2887, col: 13, offset: 91418},
+																													pos:        position{line: 2889, col: 13, offset: 91489},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2887, col: 20, offset: 91425},
+																													pos:        position{line: 2889, col: 20, offset: 91496},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2887, col: 29, offset: 91434},
+																													pos:        position{line: 2889, col: 29, offset: 91505},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8594,9 +8594,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2897, col: 8, offset: 91594},
+																										pos: position{line: 2899, col: 8, offset: 91665},
 																										expr: &anyMatcher{
-																											line: 2897, col: 9, offset: 91595,
+																											line: 2899, col: 9, offset: 91666,
 																										},
 																									},
 																								},
@@ -8612,9 +8612,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2897, col: 8, offset: 91594},
+																		pos: position{line: 2899, col: 8, offset: 91665},
 																		expr: &anyMatcher{
-																			line: 2897, col: 9, offset: 91595,
+																			line: 2899, col: 9, offset: 91666,
 																		},
 																	},
 																},
@@ -8670,10 +8670,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 807, col: 8, offset: 26006},
 																		expr: &actionExpr{
-																			pos: position{line: 2878, col: 10, offset: 91246},
+																			pos: position{line: 2880, col: 10, offset: 91317},
 																			run: (*parser).callonDocumentFragment991,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2878, col: 10, offset: 91246},
+																				pos:        position{line: 2880, col: 10, offset: 91317},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8682,28 +8682,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2900, col: 8, offset: 91644},
+																		pos: position{line: 2902, col: 8, offset: 91715},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2887, col: 12, offset: 91417},
+																				pos: position{line: 2889, col: 12, offset: 91488},
 																				run: (*parser).callonDocumentFragment994,
 																				expr: &choiceExpr{
-																					pos: position{line: 2887, col: 13, offset: 91418},
+																					pos: position{line: 2889, col: 13, offset: 91489},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 13, offset: 91418},
+																							pos:        position{line: 2889, col: 13, offset: 91489},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 20, offset: 91425},
+																							pos:        position{line: 2889, col: 20, offset: 91496},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 29, offset: 91434},
+																							pos:        position{line: 2889, col: 29, offset: 91505},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8712,9 +8712,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2897, col: 8, offset: 91594},
+																				pos: position{line: 2899, col: 8, offset: 91665},
 																				expr: &anyMatcher{
-																					line: 2897, col: 9, offset: 91595,
+																					line: 2899, col: 9, offset: 91666,
 																				},
 																			},
 																		},
@@ -8786,10 +8786,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 807, col: 8, offset: 26006},
 																												expr: &actionExpr{
-																													pos: position{line: 2878, col: 10, offset: 91246},
+																													pos: position{line: 2880, col: 10, offset: 91317},
 																													run: (*parser).callonDocumentFragment1019,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2878, col: 10, offset: 91246},
+																														pos:        position{line: 2880, col: 10, offset: 91317},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8798,28 +8798,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2900, col: 8, offset: 91644},
+																												pos: position{line: 2902, col: 8, offset: 91715},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2887, col: 12, offset: 91417},
+																														pos: position{line: 2889, col: 12, offset: 91488},
 																														run: (*parser).callonDocumentFragment1022,
 																														expr: &choiceExpr{
-																															pos: position{line: 2887, col: 13, offset: 91418},
+																															pos: position{line: 2889, col: 13, offset: 91489},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2887, col: 13, offset: 91418},
+																																	pos:        position{line: 2889, col: 13, offset: 91489},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2887, col: 20, offset: 91425},
+																																	pos:        position{line: 2889, col: 20, offset: 91496},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2887, col: 29, offset: 91434},
+																																	pos:        position{line: 2889, col: 29, offset: 91505},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8828,9 +8828,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2897, col: 8, offset: 91594},
+																														pos: position{line: 2899, col: 8, offset: 91665},
 																														expr: &anyMatcher{
-																															line: 2897, col: 9, offset: 91595,
+																															line: 2899, col: 9, offset: 91666,
 																														},
 																													},
 																												},
@@ -8846,9 +8846,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2897, col: 8, offset: 91594},
+																						pos: position{line: 2899, col: 8, offset: 91665},
 																						expr: &anyMatcher{
-																							line: 2897, col: 9, offset: 91595,
+																							line: 2899, col: 9, offset: 91666,
 																						},
 																					},
 																				},
@@ -8864,21 +8864,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2895, col: 11, offset: 91580},
+																							pos: position{line: 2897, col: 11, offset: 91651},
 																							expr: &anyMatcher{
-																								line: 2895, col: 13, offset: 91582,
+																								line: 2897, col: 13, offset: 91653,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2824, col: 13, offset: 89772},
+																								pos: position{line: 2826, col: 13, offset: 89843},
 																								run: (*parser).callonDocumentFragment1038,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2824, col: 13, offset: 89772},
+																									pos: position{line: 2826, col: 13, offset: 89843},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2824, col: 13, offset: 89772},
+																										pos:        position{line: 2826, col: 13, offset: 89843},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8888,28 +8888,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2900, col: 8, offset: 91644},
+																							pos: position{line: 2902, col: 8, offset: 91715},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2887, col: 12, offset: 91417},
+																									pos: position{line: 2889, col: 12, offset: 91488},
 																									run: (*parser).callonDocumentFragment1042,
 																									expr: &choiceExpr{
-																										pos: position{line: 2887, col: 13, offset: 91418},
+																										pos: position{line: 2889, col: 13, offset: 91489},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 13, offset: 91418},
+																												pos:        position{line: 2889, col: 13, offset: 91489},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 20, offset: 91425},
+																												pos:        position{line: 2889, col: 20, offset: 91496},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 29, offset: 91434},
+																												pos:        position{line: 2889, col: 29, offset: 91505},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8918,9 +8918,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2897, col: 8, offset: 91594},
+																									pos: position{line: 2899, col: 8, offset: 91665},
 																									expr: &anyMatcher{
-																										line: 2897, col: 9, offset: 91595,
+																										line: 2899, col: 9, offset: 91666,
 																									},
 																								},
 																							},
@@ -8985,10 +8985,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 807, col: 8, offset: 26006},
 																								expr: &actionExpr{
-																									pos: position{line: 2878, col: 10, offset: 91246},
+																									pos: position{line: 2880, col: 10, offset: 91317},
 																									run: (*parser).callonDocumentFragment1063,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2878, col: 10, offset: 91246},
+																										pos:        position{line: 2880, col: 10, offset: 91317},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8997,28 +8997,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2900, col: 8, offset: 91644},
+																								pos: position{line: 2902, col: 8, offset: 91715},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2887, col: 12, offset: 91417},
+																										pos: position{line: 2889, col: 12, offset: 91488},
 																										run: (*parser).callonDocumentFragment1066,
 																										expr: &choiceExpr{
-																											pos: position{line: 2887, col: 13, offset: 91418},
+																											pos: position{line: 2889, col: 13, offset: 91489},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2887, col: 13, offset: 91418},
+																													pos:        position{line: 2889, col: 13, offset: 91489},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2887, col: 20, offset: 91425},
+																													pos:        position{line: 2889, col: 20, offset: 91496},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2887, col: 29, offset: 91434},
+																													pos:        position{line: 2889, col: 29, offset: 91505},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -9027,9 +9027,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2897, col: 8, offset: 91594},
+																										pos: position{line: 2899, col: 8, offset: 91665},
 																										expr: &anyMatcher{
-																											line: 2897, col: 9, offset: 91595,
+																											line: 2899, col: 9, offset: 91666,
 																										},
 																									},
 																								},
@@ -9045,9 +9045,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2897, col: 8, offset: 91594},
+																		pos: position{line: 2899, col: 8, offset: 91665},
 																		expr: &anyMatcher{
-																			line: 2897, col: 9, offset: 91595,
+																			line: 2899, col: 9, offset: 91666,
 																		},
 																	},
 																},
@@ -9058,52 +9058,52 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2723, col: 18, offset: 86820},
+											pos: position{line: 2725, col: 18, offset: 86891},
 											run: (*parser).callonDocumentFragment1076,
 											expr: &seqExpr{
-												pos: position{line: 2723, col: 18, offset: 86820},
+												pos: position{line: 2725, col: 18, offset: 86891},
 												exprs: []interface{}{
 													&choiceExpr{
-														pos: position{line: 2724, col: 9, offset: 86830},
+														pos: position{line: 2726, col: 9, offset: 86901},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2724, col: 9, offset: 86830},
+																pos:        position{line: 2726, col: 9, offset: 86901},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2725, col: 11, offset: 86866},
+																pos:        position{line: 2727, col: 11, offset: 86937},
 																val:        "***",
 																ignoreCase: false,
 																want:       "\"***\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2725, col: 19, offset: 86874},
+																pos:        position{line: 2727, col: 19, offset: 86945},
 																val:        "* * *",
 																ignoreCase: false,
 																want:       "\"* * *\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2725, col: 29, offset: 86884},
+																pos:        position{line: 2727, col: 29, offset: 86955},
 																val:        "---",
 																ignoreCase: false,
 																want:       "\"---\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2725, col: 37, offset: 86892},
+																pos:        position{line: 2727, col: 37, offset: 86963},
 																val:        "- - -",
 																ignoreCase: false,
 																want:       "\"- - -\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2725, col: 47, offset: 86902},
+																pos:        position{line: 2727, col: 47, offset: 86973},
 																val:        "___",
 																ignoreCase: false,
 																want:       "\"___\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2725, col: 55, offset: 86910},
+																pos:        position{line: 2727, col: 55, offset: 86981},
 																val:        "_ _ _",
 																ignoreCase: false,
 																want:       "\"_ _ _\"",
@@ -9111,12 +9111,12 @@ var g = &grammar{
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2726, col: 11, offset: 86956},
+														pos: position{line: 2728, col: 11, offset: 87027},
 														expr: &actionExpr{
-															pos: position{line: 2878, col: 10, offset: 91246},
+															pos: position{line: 2880, col: 10, offset: 91317},
 															run: (*parser).callonDocumentFragment1087,
 															expr: &charClassMatcher{
-																pos:        position{line: 2878, col: 10, offset: 91246},
+																pos:        position{line: 2880, col: 10, offset: 91317},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9125,28 +9125,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2900, col: 8, offset: 91644},
+														pos: position{line: 2902, col: 8, offset: 91715},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2887, col: 12, offset: 91417},
+																pos: position{line: 2889, col: 12, offset: 91488},
 																run: (*parser).callonDocumentFragment1090,
 																expr: &choiceExpr{
-																	pos: position{line: 2887, col: 13, offset: 91418},
+																	pos: position{line: 2889, col: 13, offset: 91489},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2887, col: 13, offset: 91418},
+																			pos:        position{line: 2889, col: 13, offset: 91489},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2887, col: 20, offset: 91425},
+																			pos:        position{line: 2889, col: 20, offset: 91496},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2887, col: 29, offset: 91434},
+																			pos:        position{line: 2889, col: 29, offset: 91505},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9155,20 +9155,20 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2897, col: 8, offset: 91594},
+																pos: position{line: 2899, col: 8, offset: 91665},
 																expr: &anyMatcher{
-																	line: 2897, col: 9, offset: 91595,
+																	line: 2899, col: 9, offset: 91666,
 																},
 															},
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2726, col: 22, offset: 86967},
+														pos: position{line: 2728, col: 22, offset: 87038},
 														expr: &actionExpr{
-															pos: position{line: 2878, col: 10, offset: 91246},
+															pos: position{line: 2880, col: 10, offset: 91317},
 															run: (*parser).callonDocumentFragment1098,
 															expr: &charClassMatcher{
-																pos:        position{line: 2878, col: 10, offset: 91246},
+																pos:        position{line: 2880, col: 10, offset: 91317},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9177,28 +9177,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2900, col: 8, offset: 91644},
+														pos: position{line: 2902, col: 8, offset: 91715},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2887, col: 12, offset: 91417},
+																pos: position{line: 2889, col: 12, offset: 91488},
 																run: (*parser).callonDocumentFragment1101,
 																expr: &choiceExpr{
-																	pos: position{line: 2887, col: 13, offset: 91418},
+																	pos: position{line: 2889, col: 13, offset: 91489},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2887, col: 13, offset: 91418},
+																			pos:        position{line: 2889, col: 13, offset: 91489},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2887, col: 20, offset: 91425},
+																			pos:        position{line: 2889, col: 20, offset: 91496},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2887, col: 29, offset: 91434},
+																			pos:        position{line: 2889, col: 29, offset: 91505},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9207,9 +9207,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2897, col: 8, offset: 91594},
+																pos: position{line: 2899, col: 8, offset: 91665},
 																expr: &anyMatcher{
-																	line: 2897, col: 9, offset: 91595,
+																	line: 2899, col: 9, offset: 91666,
 																},
 															},
 														},
@@ -9222,24 +9222,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2614, col: 5, offset: 83756},
+											pos: position{line: 2616, col: 5, offset: 83827},
 											run: (*parser).callonDocumentFragment1109,
 											expr: &seqExpr{
-												pos: position{line: 2614, col: 5, offset: 83756},
+												pos: position{line: 2616, col: 5, offset: 83827},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2620, col: 19, offset: 83913},
+														pos:        position{line: 2622, col: 19, offset: 83984},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2620, col: 26, offset: 83920},
+														pos: position{line: 2622, col: 26, offset: 83991},
 														expr: &actionExpr{
-															pos: position{line: 2878, col: 10, offset: 91246},
+															pos: position{line: 2880, col: 10, offset: 91317},
 															run: (*parser).callonDocumentFragment1113,
 															expr: &charClassMatcher{
-																pos:        position{line: 2878, col: 10, offset: 91246},
+																pos:        position{line: 2880, col: 10, offset: 91317},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9248,28 +9248,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2900, col: 8, offset: 91644},
+														pos: position{line: 2902, col: 8, offset: 91715},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2887, col: 12, offset: 91417},
+																pos: position{line: 2889, col: 12, offset: 91488},
 																run: (*parser).callonDocumentFragment1116,
 																expr: &choiceExpr{
-																	pos: position{line: 2887, col: 13, offset: 91418},
+																	pos: position{line: 2889, col: 13, offset: 91489},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2887, col: 13, offset: 91418},
+																			pos:        position{line: 2889, col: 13, offset: 91489},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2887, col: 20, offset: 91425},
+																			pos:        position{line: 2889, col: 20, offset: 91496},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2887, col: 29, offset: 91434},
+																			pos:        position{line: 2889, col: 29, offset: 91505},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9278,20 +9278,20 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2897, col: 8, offset: 91594},
+																pos: position{line: 2899, col: 8, offset: 91665},
 																expr: &anyMatcher{
-																	line: 2897, col: 9, offset: 91595,
+																	line: 2899, col: 9, offset: 91666,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2615, col: 5, offset: 83780},
+														pos:   position{line: 2617, col: 5, offset: 83851},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2615, col: 11, offset: 83786},
+															pos: position{line: 2617, col: 11, offset: 83857},
 															expr: &choiceExpr{
-																pos: position{line: 2615, col: 12, offset: 83787},
+																pos: position{line: 2617, col: 12, offset: 83858},
 																alternatives: []interface{}{
 																	&actionExpr{
 																		pos: position{line: 677, col: 14, offset: 21525},
@@ -9300,18 +9300,18 @@ var g = &grammar{
 																			pos: position{line: 677, col: 14, offset: 21525},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2895, col: 11, offset: 91580},
+																					pos: position{line: 2897, col: 11, offset: 91651},
 																					expr: &anyMatcher{
-																						line: 2895, col: 13, offset: 91582,
+																						line: 2897, col: 13, offset: 91653,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21532},
 																					expr: &actionExpr{
-																						pos: position{line: 2878, col: 10, offset: 91246},
+																						pos: position{line: 2880, col: 10, offset: 91317},
 																						run: (*parser).callonDocumentFragment1131,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2878, col: 10, offset: 91246},
+																							pos:        position{line: 2880, col: 10, offset: 91317},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9320,28 +9320,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2900, col: 8, offset: 91644},
+																					pos: position{line: 2902, col: 8, offset: 91715},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2887, col: 12, offset: 91417},
+																							pos: position{line: 2889, col: 12, offset: 91488},
 																							run: (*parser).callonDocumentFragment1134,
 																							expr: &choiceExpr{
-																								pos: position{line: 2887, col: 13, offset: 91418},
+																								pos: position{line: 2889, col: 13, offset: 91489},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2887, col: 13, offset: 91418},
+																										pos:        position{line: 2889, col: 13, offset: 91489},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2887, col: 20, offset: 91425},
+																										pos:        position{line: 2889, col: 20, offset: 91496},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2887, col: 29, offset: 91434},
+																										pos:        position{line: 2889, col: 29, offset: 91505},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9350,9 +9350,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2897, col: 8, offset: 91594},
+																							pos: position{line: 2899, col: 8, offset: 91665},
 																							expr: &anyMatcher{
-																								line: 2897, col: 9, offset: 91595,
+																								line: 2899, col: 9, offset: 91666,
 																							},
 																						},
 																					},
@@ -9361,32 +9361,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2627, col: 5, offset: 84032},
+																		pos: position{line: 2629, col: 5, offset: 84103},
 																		run: (*parser).callonDocumentFragment1141,
 																		expr: &seqExpr{
-																			pos: position{line: 2627, col: 5, offset: 84032},
+																			pos: position{line: 2629, col: 5, offset: 84103},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2627, col: 5, offset: 84032},
+																					pos: position{line: 2629, col: 5, offset: 84103},
 																					expr: &choiceExpr{
-																						pos: position{line: 2624, col: 22, offset: 83993},
+																						pos: position{line: 2626, col: 22, offset: 84064},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2620, col: 19, offset: 83913},
+																								pos: position{line: 2622, col: 19, offset: 83984},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2620, col: 19, offset: 83913},
+																										pos:        position{line: 2622, col: 19, offset: 83984},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2620, col: 26, offset: 83920},
+																										pos: position{line: 2622, col: 26, offset: 83991},
 																										expr: &actionExpr{
-																											pos: position{line: 2878, col: 10, offset: 91246},
+																											pos: position{line: 2880, col: 10, offset: 91317},
 																											run: (*parser).callonDocumentFragment1148,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2878, col: 10, offset: 91246},
+																												pos:        position{line: 2880, col: 10, offset: 91317},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9395,28 +9395,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2900, col: 8, offset: 91644},
+																										pos: position{line: 2902, col: 8, offset: 91715},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2887, col: 12, offset: 91417},
+																												pos: position{line: 2889, col: 12, offset: 91488},
 																												run: (*parser).callonDocumentFragment1151,
 																												expr: &choiceExpr{
-																													pos: position{line: 2887, col: 13, offset: 91418},
+																													pos: position{line: 2889, col: 13, offset: 91489},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2887, col: 13, offset: 91418},
+																															pos:        position{line: 2889, col: 13, offset: 91489},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2887, col: 20, offset: 91425},
+																															pos:        position{line: 2889, col: 20, offset: 91496},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2887, col: 29, offset: 91434},
+																															pos:        position{line: 2889, col: 29, offset: 91505},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9425,9 +9425,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2897, col: 8, offset: 91594},
+																												pos: position{line: 2899, col: 8, offset: 91665},
 																												expr: &anyMatcher{
-																													line: 2897, col: 9, offset: 91595,
+																													line: 2899, col: 9, offset: 91666,
 																												},
 																											},
 																										},
@@ -9435,59 +9435,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2897, col: 8, offset: 91594},
+																								pos: position{line: 2899, col: 8, offset: 91665},
 																								expr: &anyMatcher{
-																									line: 2897, col: 9, offset: 91595,
+																									line: 2899, col: 9, offset: 91666,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2628, col: 5, offset: 84055},
+																					pos:   position{line: 2630, col: 5, offset: 84126},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2629, col: 9, offset: 84073},
+																						pos: position{line: 2631, col: 9, offset: 84144},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2629, col: 10, offset: 84074},
+																								pos: position{line: 2631, col: 10, offset: 84145},
 																								run: (*parser).callonDocumentFragment1162,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2629, col: 10, offset: 84074},
+																									pos:   position{line: 2631, col: 10, offset: 84145},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2629, col: 17, offset: 84081},
+																										pos: position{line: 2631, col: 17, offset: 84152},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2637, col: 21, offset: 84277},
+																												pos: position{line: 2639, col: 21, offset: 84348},
 																												run: (*parser).callonDocumentFragment1165,
 																												expr: &seqExpr{
-																													pos: position{line: 2637, col: 21, offset: 84277},
+																													pos: position{line: 2639, col: 21, offset: 84348},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2637, col: 21, offset: 84277},
+																															pos:   position{line: 2639, col: 21, offset: 84348},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2637, col: 27, offset: 84283},
+																																pos: position{line: 2639, col: 27, offset: 84354},
 																																expr: &actionExpr{
-																																	pos: position{line: 2642, col: 5, offset: 84358},
+																																	pos: position{line: 2644, col: 5, offset: 84429},
 																																	run: (*parser).callonDocumentFragment1169,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2642, col: 5, offset: 84358},
+																																		pos: position{line: 2644, col: 5, offset: 84429},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2642, col: 5, offset: 84358},
+																																				pos:        position{line: 2644, col: 5, offset: 84429},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2642, col: 9, offset: 84362},
+																																				pos: position{line: 2644, col: 9, offset: 84433},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2878, col: 10, offset: 91246},
+																																					pos: position{line: 2880, col: 10, offset: 91317},
 																																					run: (*parser).callonDocumentFragment1173,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2878, col: 10, offset: 91246},
+																																						pos:        position{line: 2880, col: 10, offset: 91317},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9496,21 +9496,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2642, col: 16, offset: 84369},
+																																				pos:   position{line: 2644, col: 16, offset: 84440},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2648, col: 5, offset: 84569},
+																																					pos: position{line: 2650, col: 5, offset: 84640},
 																																					run: (*parser).callonDocumentFragment1176,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2648, col: 5, offset: 84569},
+																																						pos:   position{line: 2650, col: 5, offset: 84640},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2648, col: 14, offset: 84578},
+																																							pos: position{line: 2650, col: 14, offset: 84649},
 																																							run: (*parser).callonDocumentFragment1178,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2648, col: 14, offset: 84578},
+																																								pos: position{line: 2650, col: 14, offset: 84649},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2648, col: 14, offset: 84578},
+																																									pos:        position{line: 2650, col: 14, offset: 84649},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9527,28 +9527,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2900, col: 8, offset: 91644},
+																															pos: position{line: 2902, col: 8, offset: 91715},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2887, col: 12, offset: 91417},
+																																	pos: position{line: 2889, col: 12, offset: 91488},
 																																	run: (*parser).callonDocumentFragment1182,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2887, col: 13, offset: 91418},
+																																		pos: position{line: 2889, col: 13, offset: 91489},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2887, col: 13, offset: 91418},
+																																				pos:        position{line: 2889, col: 13, offset: 91489},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2887, col: 20, offset: 91425},
+																																				pos:        position{line: 2889, col: 20, offset: 91496},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2887, col: 29, offset: 91434},
+																																				pos:        position{line: 2889, col: 29, offset: 91505},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9557,9 +9557,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2897, col: 8, offset: 91594},
+																																	pos: position{line: 2899, col: 8, offset: 91665},
 																																	expr: &anyMatcher{
-																																		line: 2897, col: 9, offset: 91595,
+																																		line: 2899, col: 9, offset: 91666,
 																																	},
 																																},
 																															},
@@ -9568,40 +9568,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2654, col: 24, offset: 84714},
+																												pos: position{line: 2656, col: 24, offset: 84785},
 																												run: (*parser).callonDocumentFragment1189,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2654, col: 24, offset: 84714},
+																													pos:   position{line: 2656, col: 24, offset: 84785},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2654, col: 30, offset: 84720},
+																														pos: position{line: 2656, col: 30, offset: 84791},
 																														expr: &actionExpr{
-																															pos: position{line: 2659, col: 5, offset: 84796},
+																															pos: position{line: 2661, col: 5, offset: 84867},
 																															run: (*parser).callonDocumentFragment1192,
 																															expr: &seqExpr{
-																																pos: position{line: 2659, col: 5, offset: 84796},
+																																pos: position{line: 2661, col: 5, offset: 84867},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2659, col: 5, offset: 84796},
+																																		pos: position{line: 2661, col: 5, offset: 84867},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2624, col: 22, offset: 83993},
+																																			pos: position{line: 2626, col: 22, offset: 84064},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2620, col: 19, offset: 83913},
+																																					pos: position{line: 2622, col: 19, offset: 83984},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2620, col: 19, offset: 83913},
+																																							pos:        position{line: 2622, col: 19, offset: 83984},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2620, col: 26, offset: 83920},
+																																							pos: position{line: 2622, col: 26, offset: 83991},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2878, col: 10, offset: 91246},
+																																								pos: position{line: 2880, col: 10, offset: 91317},
 																																								run: (*parser).callonDocumentFragment1199,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2878, col: 10, offset: 91246},
+																																									pos:        position{line: 2880, col: 10, offset: 91317},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9610,28 +9610,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2900, col: 8, offset: 91644},
+																																							pos: position{line: 2902, col: 8, offset: 91715},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2887, col: 12, offset: 91417},
+																																									pos: position{line: 2889, col: 12, offset: 91488},
 																																									run: (*parser).callonDocumentFragment1202,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2887, col: 13, offset: 91418},
+																																										pos: position{line: 2889, col: 13, offset: 91489},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2887, col: 13, offset: 91418},
+																																												pos:        position{line: 2889, col: 13, offset: 91489},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2887, col: 20, offset: 91425},
+																																												pos:        position{line: 2889, col: 20, offset: 91496},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2887, col: 29, offset: 91434},
+																																												pos:        position{line: 2889, col: 29, offset: 91505},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9640,9 +9640,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2897, col: 8, offset: 91594},
+																																									pos: position{line: 2899, col: 8, offset: 91665},
 																																									expr: &anyMatcher{
-																																										line: 2897, col: 9, offset: 91595,
+																																										line: 2899, col: 9, offset: 91666,
 																																									},
 																																								},
 																																							},
@@ -9650,16 +9650,16 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2897, col: 8, offset: 91594},
+																																					pos: position{line: 2899, col: 8, offset: 91665},
 																																					expr: &anyMatcher{
-																																						line: 2897, col: 9, offset: 91595,
+																																						line: 2899, col: 9, offset: 91666,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2660, col: 5, offset: 84819},
+																																		pos: position{line: 2662, col: 5, offset: 84890},
 																																		expr: &actionExpr{
 																																			pos: position{line: 677, col: 14, offset: 21525},
 																																			run: (*parser).callonDocumentFragment1212,
@@ -9667,18 +9667,18 @@ var g = &grammar{
 																																				pos: position{line: 677, col: 14, offset: 21525},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2895, col: 11, offset: 91580},
+																																						pos: position{line: 2897, col: 11, offset: 91651},
 																																						expr: &anyMatcher{
-																																							line: 2895, col: 13, offset: 91582,
+																																							line: 2897, col: 13, offset: 91653,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
 																																						pos: position{line: 677, col: 21, offset: 21532},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2878, col: 10, offset: 91246},
+																																							pos: position{line: 2880, col: 10, offset: 91317},
 																																							run: (*parser).callonDocumentFragment1217,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2878, col: 10, offset: 91246},
+																																								pos:        position{line: 2880, col: 10, offset: 91317},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9687,28 +9687,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2900, col: 8, offset: 91644},
+																																						pos: position{line: 2902, col: 8, offset: 91715},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2887, col: 12, offset: 91417},
+																																								pos: position{line: 2889, col: 12, offset: 91488},
 																																								run: (*parser).callonDocumentFragment1220,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2887, col: 13, offset: 91418},
+																																									pos: position{line: 2889, col: 13, offset: 91489},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2887, col: 13, offset: 91418},
+																																											pos:        position{line: 2889, col: 13, offset: 91489},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2887, col: 20, offset: 91425},
+																																											pos:        position{line: 2889, col: 20, offset: 91496},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2887, col: 29, offset: 91434},
+																																											pos:        position{line: 2889, col: 29, offset: 91505},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9717,9 +9717,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2897, col: 8, offset: 91594},
+																																								pos: position{line: 2899, col: 8, offset: 91665},
 																																								expr: &anyMatcher{
-																																									line: 2897, col: 9, offset: 91595,
+																																									line: 2899, col: 9, offset: 91666,
 																																								},
 																																							},
 																																						},
@@ -9729,17 +9729,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2661, col: 5, offset: 84834},
+																																		pos:   position{line: 2663, col: 5, offset: 84905},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2661, col: 12, offset: 84841},
+																																			pos: position{line: 2663, col: 12, offset: 84912},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2678, col: 20, offset: 85305},
+																																				pos: position{line: 2680, col: 20, offset: 85376},
 																																				run: (*parser).callonDocumentFragment1229,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2678, col: 20, offset: 85305},
+																																					pos: position{line: 2680, col: 20, offset: 85376},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2678, col: 20, offset: 85305},
+																																						pos:        position{line: 2680, col: 20, offset: 85376},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9750,18 +9750,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2661, col: 31, offset: 84860},
+																																		pos:        position{line: 2663, col: 31, offset: 84931},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2661, col: 35, offset: 84864},
+																																		pos: position{line: 2663, col: 35, offset: 84935},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2878, col: 10, offset: 91246},
+																																			pos: position{line: 2880, col: 10, offset: 91317},
 																																			run: (*parser).callonDocumentFragment1234,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2878, col: 10, offset: 91246},
+																																				pos:        position{line: 2880, col: 10, offset: 91317},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9770,27 +9770,27 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2661, col: 42, offset: 84871},
+																																		pos: position{line: 2663, col: 42, offset: 84942},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2887, col: 12, offset: 91417},
+																																			pos: position{line: 2889, col: 12, offset: 91488},
 																																			run: (*parser).callonDocumentFragment1237,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2887, col: 13, offset: 91418},
+																																				pos: position{line: 2889, col: 13, offset: 91489},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2887, col: 13, offset: 91418},
+																																						pos:        position{line: 2889, col: 13, offset: 91489},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2887, col: 20, offset: 91425},
+																																						pos:        position{line: 2889, col: 20, offset: 91496},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2887, col: 29, offset: 91434},
+																																						pos:        position{line: 2889, col: 29, offset: 91505},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9800,37 +9800,37 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2661, col: 51, offset: 84880},
+																																		pos:   position{line: 2663, col: 51, offset: 84951},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2667, col: 5, offset: 85039},
+																																			pos: position{line: 2669, col: 5, offset: 85110},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2668, col: 9, offset: 85049},
+																																				pos: position{line: 2670, col: 9, offset: 85120},
 																																				run: (*parser).callonDocumentFragment1244,
 																																				expr: &seqExpr{
-																																					pos: position{line: 2668, col: 9, offset: 85049},
+																																					pos: position{line: 2670, col: 9, offset: 85120},
 																																					exprs: []interface{}{
 																																						&notExpr{
-																																							pos: position{line: 2668, col: 9, offset: 85049},
+																																							pos: position{line: 2670, col: 9, offset: 85120},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2624, col: 22, offset: 83993},
+																																								pos: position{line: 2626, col: 22, offset: 84064},
 																																								alternatives: []interface{}{
 																																									&seqExpr{
-																																										pos: position{line: 2620, col: 19, offset: 83913},
+																																										pos: position{line: 2622, col: 19, offset: 83984},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2620, col: 19, offset: 83913},
+																																												pos:        position{line: 2622, col: 19, offset: 83984},
 																																												val:        "|===",
 																																												ignoreCase: false,
 																																												want:       "\"|===\"",
 																																											},
 																																											&zeroOrMoreExpr{
-																																												pos: position{line: 2620, col: 26, offset: 83920},
+																																												pos: position{line: 2622, col: 26, offset: 83991},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2878, col: 10, offset: 91246},
+																																													pos: position{line: 2880, col: 10, offset: 91317},
 																																													run: (*parser).callonDocumentFragment1251,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2878, col: 10, offset: 91246},
+																																														pos:        position{line: 2880, col: 10, offset: 91317},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -9839,28 +9839,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2900, col: 8, offset: 91644},
+																																												pos: position{line: 2902, col: 8, offset: 91715},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2887, col: 12, offset: 91417},
+																																														pos: position{line: 2889, col: 12, offset: 91488},
 																																														run: (*parser).callonDocumentFragment1254,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2887, col: 13, offset: 91418},
+																																															pos: position{line: 2889, col: 13, offset: 91489},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2887, col: 13, offset: 91418},
+																																																	pos:        position{line: 2889, col: 13, offset: 91489},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2887, col: 20, offset: 91425},
+																																																	pos:        position{line: 2889, col: 20, offset: 91496},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2887, col: 29, offset: 91434},
+																																																	pos:        position{line: 2889, col: 29, offset: 91505},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -9869,9 +9869,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2897, col: 8, offset: 91594},
+																																														pos: position{line: 2899, col: 8, offset: 91665},
 																																														expr: &anyMatcher{
-																																															line: 2897, col: 9, offset: 91595,
+																																															line: 2899, col: 9, offset: 91666,
 																																														},
 																																													},
 																																												},
@@ -9879,16 +9879,16 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2897, col: 8, offset: 91594},
+																																										pos: position{line: 2899, col: 8, offset: 91665},
 																																										expr: &anyMatcher{
-																																											line: 2897, col: 9, offset: 91595,
+																																											line: 2899, col: 9, offset: 91666,
 																																										},
 																																									},
 																																								},
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2669, col: 9, offset: 85076},
+																																							pos: position{line: 2671, col: 9, offset: 85147},
 																																							expr: &actionExpr{
 																																								pos: position{line: 677, col: 14, offset: 21525},
 																																								run: (*parser).callonDocumentFragment1264,
@@ -9896,18 +9896,18 @@ var g = &grammar{
 																																									pos: position{line: 677, col: 14, offset: 21525},
 																																									exprs: []interface{}{
 																																										&andExpr{
-																																											pos: position{line: 2895, col: 11, offset: 91580},
+																																											pos: position{line: 2897, col: 11, offset: 91651},
 																																											expr: &anyMatcher{
-																																												line: 2895, col: 13, offset: 91582,
+																																												line: 2897, col: 13, offset: 91653,
 																																											},
 																																										},
 																																										&zeroOrMoreExpr{
 																																											pos: position{line: 677, col: 21, offset: 21532},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2878, col: 10, offset: 91246},
+																																												pos: position{line: 2880, col: 10, offset: 91317},
 																																												run: (*parser).callonDocumentFragment1269,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2878, col: 10, offset: 91246},
+																																													pos:        position{line: 2880, col: 10, offset: 91317},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -9916,28 +9916,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2900, col: 8, offset: 91644},
+																																											pos: position{line: 2902, col: 8, offset: 91715},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2887, col: 12, offset: 91417},
+																																													pos: position{line: 2889, col: 12, offset: 91488},
 																																													run: (*parser).callonDocumentFragment1272,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2887, col: 13, offset: 91418},
+																																														pos: position{line: 2889, col: 13, offset: 91489},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2887, col: 13, offset: 91418},
+																																																pos:        position{line: 2889, col: 13, offset: 91489},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2887, col: 20, offset: 91425},
+																																																pos:        position{line: 2889, col: 20, offset: 91496},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2887, col: 29, offset: 91434},
+																																																pos:        position{line: 2889, col: 29, offset: 91505},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -9946,9 +9946,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2897, col: 8, offset: 91594},
+																																													pos: position{line: 2899, col: 8, offset: 91665},
 																																													expr: &anyMatcher{
-																																														line: 2897, col: 9, offset: 91595,
+																																														line: 2899, col: 9, offset: 91666,
 																																													},
 																																												},
 																																											},
@@ -9958,22 +9958,22 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2670, col: 9, offset: 85095},
+																																							pos: position{line: 2672, col: 9, offset: 85166},
 																																							expr: &seqExpr{
-																																								pos: position{line: 2670, col: 11, offset: 85097},
+																																								pos: position{line: 2672, col: 11, offset: 85168},
 																																								exprs: []interface{}{
 																																									&labeledExpr{
-																																										pos:   position{line: 2670, col: 11, offset: 85097},
+																																										pos:   position{line: 2672, col: 11, offset: 85168},
 																																										label: "format",
 																																										expr: &zeroOrOneExpr{
-																																											pos: position{line: 2670, col: 18, offset: 85104},
+																																											pos: position{line: 2672, col: 18, offset: 85175},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2678, col: 20, offset: 85305},
+																																												pos: position{line: 2680, col: 20, offset: 85376},
 																																												run: (*parser).callonDocumentFragment1283,
 																																												expr: &zeroOrMoreExpr{
-																																													pos: position{line: 2678, col: 20, offset: 85305},
+																																													pos: position{line: 2680, col: 20, offset: 85376},
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2678, col: 20, offset: 85305},
+																																														pos:        position{line: 2680, col: 20, offset: 85376},
 																																														val:        "[^ |\\r\\n]",
 																																														chars:      []rune{' ', '|', '\r', '\n'},
 																																														ignoreCase: false,
@@ -9984,7 +9984,7 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2670, col: 37, offset: 85123},
+																																										pos:        position{line: 2672, col: 37, offset: 85194},
 																																										val:        "|",
 																																										ignoreCase: false,
 																																										want:       "\"|\"",
@@ -9993,15 +9993,15 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&labeledExpr{
-																																							pos:   position{line: 2671, col: 9, offset: 85136},
+																																							pos:   position{line: 2673, col: 9, offset: 85207},
 																																							label: "content",
 																																							expr: &actionExpr{
-																																								pos: position{line: 2671, col: 18, offset: 85145},
+																																								pos: position{line: 2673, col: 18, offset: 85216},
 																																								run: (*parser).callonDocumentFragment1288,
 																																								expr: &zeroOrMoreExpr{
-																																									pos: position{line: 2671, col: 18, offset: 85145},
+																																									pos: position{line: 2673, col: 18, offset: 85216},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2671, col: 18, offset: 85145},
+																																										pos:        position{line: 2673, col: 18, offset: 85216},
 																																										val:        "[^|\\r\\n]",
 																																										chars:      []rune{'|', '\r', '\n'},
 																																										ignoreCase: false,
@@ -10011,30 +10011,30 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&zeroOrOneExpr{
-																																							pos: position{line: 2673, col: 12, offset: 85207},
+																																							pos: position{line: 2675, col: 12, offset: 85278},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2900, col: 8, offset: 91644},
+																																								pos: position{line: 2902, col: 8, offset: 91715},
 																																								alternatives: []interface{}{
 																																									&actionExpr{
-																																										pos: position{line: 2887, col: 12, offset: 91417},
+																																										pos: position{line: 2889, col: 12, offset: 91488},
 																																										run: (*parser).callonDocumentFragment1293,
 																																										expr: &choiceExpr{
-																																											pos: position{line: 2887, col: 13, offset: 91418},
+																																											pos: position{line: 2889, col: 13, offset: 91489},
 																																											alternatives: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2887, col: 13, offset: 91418},
+																																													pos:        position{line: 2889, col: 13, offset: 91489},
 																																													val:        "\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2887, col: 20, offset: 91425},
+																																													pos:        position{line: 2889, col: 20, offset: 91496},
 																																													val:        "\r\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2887, col: 29, offset: 91434},
+																																													pos:        position{line: 2889, col: 29, offset: 91505},
 																																													val:        "\r",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\"",
@@ -10043,9 +10043,9 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2897, col: 8, offset: 91594},
+																																										pos: position{line: 2899, col: 8, offset: 91665},
 																																										expr: &anyMatcher{
-																																											line: 2897, col: 9, offset: 91595,
+																																											line: 2899, col: 9, offset: 91666,
 																																										},
 																																									},
 																																								},
@@ -10073,18 +10073,18 @@ var g = &grammar{
 																									pos: position{line: 677, col: 14, offset: 21525},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2895, col: 11, offset: 91580},
+																											pos: position{line: 2897, col: 11, offset: 91651},
 																											expr: &anyMatcher{
-																												line: 2895, col: 13, offset: 91582,
+																												line: 2897, col: 13, offset: 91653,
 																											},
 																										},
 																										&zeroOrMoreExpr{
 																											pos: position{line: 677, col: 21, offset: 21532},
 																											expr: &actionExpr{
-																												pos: position{line: 2878, col: 10, offset: 91246},
+																												pos: position{line: 2880, col: 10, offset: 91317},
 																												run: (*parser).callonDocumentFragment1305,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2878, col: 10, offset: 91246},
+																													pos:        position{line: 2880, col: 10, offset: 91317},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -10093,28 +10093,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2900, col: 8, offset: 91644},
+																											pos: position{line: 2902, col: 8, offset: 91715},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2887, col: 12, offset: 91417},
+																													pos: position{line: 2889, col: 12, offset: 91488},
 																													run: (*parser).callonDocumentFragment1308,
 																													expr: &choiceExpr{
-																														pos: position{line: 2887, col: 13, offset: 91418},
+																														pos: position{line: 2889, col: 13, offset: 91489},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 13, offset: 91418},
+																																pos:        position{line: 2889, col: 13, offset: 91489},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 20, offset: 91425},
+																																pos:        position{line: 2889, col: 20, offset: 91496},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 29, offset: 91434},
+																																pos:        position{line: 2889, col: 29, offset: 91505},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -10123,9 +10123,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2897, col: 8, offset: 91594},
+																													pos: position{line: 2899, col: 8, offset: 91665},
 																													expr: &anyMatcher{
-																														line: 2897, col: 9, offset: 91595,
+																														line: 2899, col: 9, offset: 91666,
 																													},
 																												},
 																											},
@@ -10144,24 +10144,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2624, col: 22, offset: 83993},
+														pos: position{line: 2626, col: 22, offset: 84064},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2620, col: 19, offset: 83913},
+																pos: position{line: 2622, col: 19, offset: 83984},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2620, col: 19, offset: 83913},
+																		pos:        position{line: 2622, col: 19, offset: 83984},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2620, col: 26, offset: 83920},
+																		pos: position{line: 2622, col: 26, offset: 83991},
 																		expr: &actionExpr{
-																			pos: position{line: 2878, col: 10, offset: 91246},
+																			pos: position{line: 2880, col: 10, offset: 91317},
 																			run: (*parser).callonDocumentFragment1319,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2878, col: 10, offset: 91246},
+																				pos:        position{line: 2880, col: 10, offset: 91317},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10170,28 +10170,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2900, col: 8, offset: 91644},
+																		pos: position{line: 2902, col: 8, offset: 91715},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2887, col: 12, offset: 91417},
+																				pos: position{line: 2889, col: 12, offset: 91488},
 																				run: (*parser).callonDocumentFragment1322,
 																				expr: &choiceExpr{
-																					pos: position{line: 2887, col: 13, offset: 91418},
+																					pos: position{line: 2889, col: 13, offset: 91489},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 13, offset: 91418},
+																							pos:        position{line: 2889, col: 13, offset: 91489},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 20, offset: 91425},
+																							pos:        position{line: 2889, col: 20, offset: 91496},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 29, offset: 91434},
+																							pos:        position{line: 2889, col: 29, offset: 91505},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10200,9 +10200,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2897, col: 8, offset: 91594},
+																				pos: position{line: 2899, col: 8, offset: 91665},
 																				expr: &anyMatcher{
-																					line: 2897, col: 9, offset: 91595,
+																					line: 2899, col: 9, offset: 91666,
 																				},
 																			},
 																		},
@@ -10210,9 +10210,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2897, col: 8, offset: 91594},
+																pos: position{line: 2899, col: 8, offset: 91665},
 																expr: &anyMatcher{
-																	line: 2897, col: 9, offset: 91595,
+																	line: 2899, col: 9, offset: 91666,
 																},
 															},
 														},
@@ -10221,36 +10221,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2485, col: 22, offset: 80132},
+											pos: position{line: 2487, col: 22, offset: 80203},
 											run: (*parser).callonDocumentFragment1331,
 											expr: &seqExpr{
-												pos: position{line: 2485, col: 22, offset: 80132},
+												pos: position{line: 2487, col: 22, offset: 80203},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2490, col: 31, offset: 80353},
+														pos:        position{line: 2492, col: 31, offset: 80424},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2490, col: 36, offset: 80358},
+														pos: position{line: 2492, col: 36, offset: 80429},
 														expr: &litMatcher{
-															pos:        position{line: 2490, col: 37, offset: 80359},
+															pos:        position{line: 2492, col: 37, offset: 80430},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2485, col: 49, offset: 80159},
+														pos:   position{line: 2487, col: 49, offset: 80230},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2824, col: 13, offset: 89772},
+															pos: position{line: 2826, col: 13, offset: 89843},
 															run: (*parser).callonDocumentFragment1337,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2824, col: 13, offset: 89772},
+																pos: position{line: 2826, col: 13, offset: 89843},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2824, col: 13, offset: 89772},
+																	pos:        position{line: 2826, col: 13, offset: 89843},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10260,28 +10260,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2900, col: 8, offset: 91644},
+														pos: position{line: 2902, col: 8, offset: 91715},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2887, col: 12, offset: 91417},
+																pos: position{line: 2889, col: 12, offset: 91488},
 																run: (*parser).callonDocumentFragment1341,
 																expr: &choiceExpr{
-																	pos: position{line: 2887, col: 13, offset: 91418},
+																	pos: position{line: 2889, col: 13, offset: 91489},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2887, col: 13, offset: 91418},
+																			pos:        position{line: 2889, col: 13, offset: 91489},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2887, col: 20, offset: 91425},
+																			pos:        position{line: 2889, col: 20, offset: 91496},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2887, col: 29, offset: 91434},
+																			pos:        position{line: 2889, col: 29, offset: 91505},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10290,9 +10290,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2897, col: 8, offset: 91594},
+																pos: position{line: 2899, col: 8, offset: 91665},
 																expr: &anyMatcher{
-																	line: 2897, col: 9, offset: 91595,
+																	line: 2899, col: 9, offset: 91666,
 																},
 															},
 														},
@@ -10328,10 +10328,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1239, col: 36, offset: 38364},
 																		expr: &actionExpr{
-																			pos: position{line: 2878, col: 10, offset: 91246},
+																			pos: position{line: 2880, col: 10, offset: 91317},
 																			run: (*parser).callonDocumentFragment1356,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2878, col: 10, offset: 91246},
+																				pos:        position{line: 2880, col: 10, offset: 91317},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10340,28 +10340,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2900, col: 8, offset: 91644},
+																		pos: position{line: 2902, col: 8, offset: 91715},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2887, col: 12, offset: 91417},
+																				pos: position{line: 2889, col: 12, offset: 91488},
 																				run: (*parser).callonDocumentFragment1359,
 																				expr: &choiceExpr{
-																					pos: position{line: 2887, col: 13, offset: 91418},
+																					pos: position{line: 2889, col: 13, offset: 91489},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 13, offset: 91418},
+																							pos:        position{line: 2889, col: 13, offset: 91489},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 20, offset: 91425},
+																							pos:        position{line: 2889, col: 20, offset: 91496},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 29, offset: 91434},
+																							pos:        position{line: 2889, col: 29, offset: 91505},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10370,9 +10370,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2897, col: 8, offset: 91594},
+																				pos: position{line: 2899, col: 8, offset: 91665},
 																				expr: &anyMatcher{
-																					line: 2897, col: 9, offset: 91595,
+																					line: 2899, col: 9, offset: 91666,
 																				},
 																			},
 																		},
@@ -10406,10 +10406,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 1239, col: 36, offset: 38364},
 																												expr: &actionExpr{
-																													pos: position{line: 2878, col: 10, offset: 91246},
+																													pos: position{line: 2880, col: 10, offset: 91317},
 																													run: (*parser).callonDocumentFragment1376,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2878, col: 10, offset: 91246},
+																														pos:        position{line: 2880, col: 10, offset: 91317},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -10418,28 +10418,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2900, col: 8, offset: 91644},
+																												pos: position{line: 2902, col: 8, offset: 91715},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2887, col: 12, offset: 91417},
+																														pos: position{line: 2889, col: 12, offset: 91488},
 																														run: (*parser).callonDocumentFragment1379,
 																														expr: &choiceExpr{
-																															pos: position{line: 2887, col: 13, offset: 91418},
+																															pos: position{line: 2889, col: 13, offset: 91489},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2887, col: 13, offset: 91418},
+																																	pos:        position{line: 2889, col: 13, offset: 91489},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2887, col: 20, offset: 91425},
+																																	pos:        position{line: 2889, col: 20, offset: 91496},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2887, col: 29, offset: 91434},
+																																	pos:        position{line: 2889, col: 29, offset: 91505},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -10448,9 +10448,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2897, col: 8, offset: 91594},
+																														pos: position{line: 2899, col: 8, offset: 91665},
 																														expr: &anyMatcher{
-																															line: 2897, col: 9, offset: 91595,
+																															line: 2899, col: 9, offset: 91666,
 																														},
 																													},
 																												},
@@ -10477,10 +10477,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1239, col: 36, offset: 38364},
 																		expr: &actionExpr{
-																			pos: position{line: 2878, col: 10, offset: 91246},
+																			pos: position{line: 2880, col: 10, offset: 91317},
 																			run: (*parser).callonDocumentFragment1389,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2878, col: 10, offset: 91246},
+																				pos:        position{line: 2880, col: 10, offset: 91317},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10489,28 +10489,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2900, col: 8, offset: 91644},
+																		pos: position{line: 2902, col: 8, offset: 91715},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2887, col: 12, offset: 91417},
+																				pos: position{line: 2889, col: 12, offset: 91488},
 																				run: (*parser).callonDocumentFragment1392,
 																				expr: &choiceExpr{
-																					pos: position{line: 2887, col: 13, offset: 91418},
+																					pos: position{line: 2889, col: 13, offset: 91489},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 13, offset: 91418},
+																							pos:        position{line: 2889, col: 13, offset: 91489},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 20, offset: 91425},
+																							pos:        position{line: 2889, col: 20, offset: 91496},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 29, offset: 91434},
+																							pos:        position{line: 2889, col: 29, offset: 91505},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10519,9 +10519,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2897, col: 8, offset: 91594},
+																				pos: position{line: 2899, col: 8, offset: 91665},
 																				expr: &anyMatcher{
-																					line: 2897, col: 9, offset: 91595,
+																					line: 2899, col: 9, offset: 91666,
 																				},
 																			},
 																		},
@@ -10578,9 +10578,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2897, col: 8, offset: 91594},
+							pos: position{line: 2899, col: 8, offset: 91665},
 							expr: &anyMatcher{
-								line: 2897, col: 9, offset: 91595,
+								line: 2899, col: 9, offset: 91666,
 							},
 						},
 					},
@@ -10652,12 +10652,12 @@ var g = &grammar{
 										pos: position{line: 304, col: 9, offset: 9170},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2882, col: 11, offset: 91307},
+												pos: position{line: 2884, col: 11, offset: 91378},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2882, col: 11, offset: 91307},
+													pos: position{line: 2884, col: 11, offset: 91378},
 													expr: &charClassMatcher{
-														pos:        position{line: 2882, col: 11, offset: 91307},
+														pos:        position{line: 2884, col: 11, offset: 91378},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10681,10 +10681,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 309, col: 5, offset: 9350},
 							expr: &actionExpr{
-								pos: position{line: 2878, col: 10, offset: 91246},
+								pos: position{line: 2880, col: 10, offset: 91317},
 								run: (*parser).callonAttributeDeclaration21,
 								expr: &charClassMatcher{
-									pos:        position{line: 2878, col: 10, offset: 91246},
+									pos:        position{line: 2880, col: 10, offset: 91317},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -10693,28 +10693,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2900, col: 8, offset: 91644},
+							pos: position{line: 2902, col: 8, offset: 91715},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2887, col: 12, offset: 91417},
+									pos: position{line: 2889, col: 12, offset: 91488},
 									run: (*parser).callonAttributeDeclaration24,
 									expr: &choiceExpr{
-										pos: position{line: 2887, col: 13, offset: 91418},
+										pos: position{line: 2889, col: 13, offset: 91489},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2887, col: 13, offset: 91418},
+												pos:        position{line: 2889, col: 13, offset: 91489},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2887, col: 20, offset: 91425},
+												pos:        position{line: 2889, col: 20, offset: 91496},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2887, col: 29, offset: 91434},
+												pos:        position{line: 2889, col: 29, offset: 91505},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10723,9 +10723,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2897, col: 8, offset: 91594},
+									pos: position{line: 2899, col: 8, offset: 91665},
 									expr: &anyMatcher{
-										line: 2897, col: 9, offset: 91595,
+										line: 2899, col: 9, offset: 91666,
 									},
 								},
 							},
@@ -10771,10 +10771,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 324, col: 14, offset: 9848},
 												expr: &actionExpr{
-													pos: position{line: 2878, col: 10, offset: 91246},
+													pos: position{line: 2880, col: 10, offset: 91317},
 													run: (*parser).callonAttributeDeclarationValue11,
 													expr: &charClassMatcher{
-														pos:        position{line: 2878, col: 10, offset: 91246},
+														pos:        position{line: 2880, col: 10, offset: 91317},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10783,25 +10783,25 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 2887, col: 12, offset: 91417},
+												pos: position{line: 2889, col: 12, offset: 91488},
 												run: (*parser).callonAttributeDeclarationValue13,
 												expr: &choiceExpr{
-													pos: position{line: 2887, col: 13, offset: 91418},
+													pos: position{line: 2889, col: 13, offset: 91489},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2887, col: 13, offset: 91418},
+															pos:        position{line: 2889, col: 13, offset: 91489},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2887, col: 20, offset: 91425},
+															pos:        position{line: 2889, col: 20, offset: 91496},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2887, col: 29, offset: 91434},
+															pos:        position{line: 2889, col: 29, offset: 91505},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10812,10 +10812,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 325, col: 9, offset: 9872},
 												expr: &actionExpr{
-													pos: position{line: 2878, col: 10, offset: 91246},
+													pos: position{line: 2880, col: 10, offset: 91317},
 													run: (*parser).callonAttributeDeclarationValue19,
 													expr: &charClassMatcher{
-														pos:        position{line: 2878, col: 10, offset: 91246},
+														pos:        position{line: 2880, col: 10, offset: 91317},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10885,10 +10885,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 343, col: 13, offset: 10417},
 										expr: &actionExpr{
-											pos: position{line: 2878, col: 10, offset: 91246},
+											pos: position{line: 2880, col: 10, offset: 91317},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2878, col: 10, offset: 91246},
+												pos:        position{line: 2880, col: 10, offset: 91317},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10897,28 +10897,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2900, col: 8, offset: 91644},
+										pos: position{line: 2902, col: 8, offset: 91715},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2887, col: 12, offset: 91417},
+												pos: position{line: 2889, col: 12, offset: 91488},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2887, col: 13, offset: 91418},
+													pos: position{line: 2889, col: 13, offset: 91489},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2887, col: 13, offset: 91418},
+															pos:        position{line: 2889, col: 13, offset: 91489},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2887, col: 20, offset: 91425},
+															pos:        position{line: 2889, col: 20, offset: 91496},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2887, col: 29, offset: 91434},
+															pos:        position{line: 2889, col: 29, offset: 91505},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10927,9 +10927,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2897, col: 8, offset: 91594},
+												pos: position{line: 2899, col: 8, offset: 91665},
 												expr: &anyMatcher{
-													line: 2897, col: 9, offset: 91595,
+													line: 2899, col: 9, offset: 91666,
 												},
 											},
 										},
@@ -10962,23 +10962,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2472, col: 5, offset: 79678},
+										pos: position{line: 2474, col: 5, offset: 79749},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2472, col: 5, offset: 79678},
+											pos: position{line: 2474, col: 5, offset: 79749},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2472, col: 5, offset: 79678},
+													pos: position{line: 2474, col: 5, offset: 79749},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2475, col: 5, offset: 79754},
+													pos:   position{line: 2477, col: 5, offset: 79825},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2476, col: 9, offset: 79772},
+														pos: position{line: 2478, col: 9, offset: 79843},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2476, col: 10, offset: 79773},
+															pos:        position{line: 2478, col: 10, offset: 79844},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -10990,10 +10990,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2878, col: 10, offset: 91246},
+										pos: position{line: 2880, col: 10, offset: 91317},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2878, col: 10, offset: 91246},
+											pos:        position{line: 2880, col: 10, offset: 91317},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -11834,10 +11834,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 371, col: 35, offset: 11426},
 												expr: &actionExpr{
-													pos: position{line: 2878, col: 10, offset: 91246},
+													pos: position{line: 2880, col: 10, offset: 91317},
 													run: (*parser).callonBlockAttributes101,
 													expr: &charClassMatcher{
-														pos:        position{line: 2878, col: 10, offset: 91246},
+														pos:        position{line: 2880, col: 10, offset: 91317},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11846,28 +11846,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2900, col: 8, offset: 91644},
+												pos: position{line: 2902, col: 8, offset: 91715},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2887, col: 12, offset: 91417},
+														pos: position{line: 2889, col: 12, offset: 91488},
 														run: (*parser).callonBlockAttributes104,
 														expr: &choiceExpr{
-															pos: position{line: 2887, col: 13, offset: 91418},
+															pos: position{line: 2889, col: 13, offset: 91489},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2887, col: 13, offset: 91418},
+																	pos:        position{line: 2889, col: 13, offset: 91489},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2887, col: 20, offset: 91425},
+																	pos:        position{line: 2889, col: 20, offset: 91496},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2887, col: 29, offset: 91434},
+																	pos:        position{line: 2889, col: 29, offset: 91505},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11876,9 +11876,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2897, col: 8, offset: 91594},
+														pos: position{line: 2899, col: 8, offset: 91665},
 														expr: &anyMatcher{
-															line: 2897, col: 9, offset: 91595,
+															line: 2899, col: 9, offset: 91666,
 														},
 													},
 												},
@@ -11892,18 +11892,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21525},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2895, col: 11, offset: 91580},
+																pos: position{line: 2897, col: 11, offset: 91651},
 																expr: &anyMatcher{
-																	line: 2895, col: 13, offset: 91582,
+																	line: 2897, col: 13, offset: 91653,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21532},
 																expr: &actionExpr{
-																	pos: position{line: 2878, col: 10, offset: 91246},
+																	pos: position{line: 2880, col: 10, offset: 91317},
 																	run: (*parser).callonBlockAttributes117,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2878, col: 10, offset: 91246},
+																		pos:        position{line: 2880, col: 10, offset: 91317},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -11912,28 +11912,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2900, col: 8, offset: 91644},
+																pos: position{line: 2902, col: 8, offset: 91715},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2887, col: 12, offset: 91417},
+																		pos: position{line: 2889, col: 12, offset: 91488},
 																		run: (*parser).callonBlockAttributes120,
 																		expr: &choiceExpr{
-																			pos: position{line: 2887, col: 13, offset: 91418},
+																			pos: position{line: 2889, col: 13, offset: 91489},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2887, col: 13, offset: 91418},
+																					pos:        position{line: 2889, col: 13, offset: 91489},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2887, col: 20, offset: 91425},
+																					pos:        position{line: 2889, col: 20, offset: 91496},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2887, col: 29, offset: 91434},
+																					pos:        position{line: 2889, col: 29, offset: 91505},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -11942,9 +11942,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2897, col: 8, offset: 91594},
+																		pos: position{line: 2899, col: 8, offset: 91665},
 																		expr: &anyMatcher{
-																			line: 2897, col: 9, offset: 91595,
+																			line: 2899, col: 9, offset: 91666,
 																		},
 																	},
 																},
@@ -11996,12 +11996,12 @@ var g = &grammar{
 																		pos: position{line: 425, col: 9, offset: 13070},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2772, col: 14, offset: 88394},
+																				pos: position{line: 2774, col: 14, offset: 88465},
 																				run: (*parser).callonBlockAttributes138,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2772, col: 14, offset: 88394},
+																					pos: position{line: 2774, col: 14, offset: 88465},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2772, col: 14, offset: 88394},
+																						pos:        position{line: 2774, col: 14, offset: 88465},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -12010,10 +12010,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2878, col: 10, offset: 91246},
+																				pos: position{line: 2880, col: 10, offset: 91317},
 																				run: (*parser).callonBlockAttributes141,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2878, col: 10, offset: 91246},
+																					pos:        position{line: 2880, col: 10, offset: 91317},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -12021,27 +12021,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2795, col: 5, offset: 88900},
+																				pos: position{line: 2797, col: 5, offset: 88971},
 																				run: (*parser).callonBlockAttributes143,
 																				expr: &choiceExpr{
-																					pos: position{line: 2796, col: 9, offset: 88910},
+																					pos: position{line: 2798, col: 9, offset: 88981},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2796, col: 10, offset: 88911},
+																							pos:        position{line: 2798, col: 10, offset: 88982},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2798, col: 13, offset: 89008},
+																							pos: position{line: 2800, col: 13, offset: 89079},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2798, col: 13, offset: 89008},
+																									pos: position{line: 2800, col: 13, offset: 89079},
 																									run: (*parser).callonBlockAttributes147,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2801, col: 13, offset: 89108},
+																									pos:        position{line: 2803, col: 13, offset: 89179},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -12049,20 +12049,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2801, col: 19, offset: 89114},
+																							pos:        position{line: 2803, col: 19, offset: 89185},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2804, col: 13, offset: 89152},
+																							pos: position{line: 2806, col: 13, offset: 89223},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2804, col: 13, offset: 89152},
+																									pos: position{line: 2806, col: 13, offset: 89223},
 																									run: (*parser).callonBlockAttributes151,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2807, col: 14, offset: 89245},
+																									pos:        position{line: 2809, col: 14, offset: 89316},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -12071,18 +12071,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2809, col: 12, offset: 89289},
+																							pos: position{line: 2811, col: 12, offset: 89360},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2809, col: 12, offset: 89289},
+																									pos:        position{line: 2811, col: 12, offset: 89360},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2809, col: 16, offset: 89293},
+																									pos: position{line: 2811, col: 16, offset: 89364},
 																									expr: &litMatcher{
-																										pos:        position{line: 2809, col: 17, offset: 89294},
+																										pos:        position{line: 2811, col: 17, offset: 89365},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12418,10 +12418,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2817, col: 12, offset: 89554},
+																				pos: position{line: 2819, col: 12, offset: 89625},
 																				run: (*parser).callonBlockAttributes221,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2817, col: 12, offset: 89554},
+																					pos:        position{line: 2819, col: 12, offset: 89625},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12439,10 +12439,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 375, col: 35, offset: 11581},
 												expr: &actionExpr{
-													pos: position{line: 2878, col: 10, offset: 91246},
+													pos: position{line: 2880, col: 10, offset: 91317},
 													run: (*parser).callonBlockAttributes224,
 													expr: &charClassMatcher{
-														pos:        position{line: 2878, col: 10, offset: 91246},
+														pos:        position{line: 2880, col: 10, offset: 91317},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12451,28 +12451,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2900, col: 8, offset: 91644},
+												pos: position{line: 2902, col: 8, offset: 91715},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2887, col: 12, offset: 91417},
+														pos: position{line: 2889, col: 12, offset: 91488},
 														run: (*parser).callonBlockAttributes227,
 														expr: &choiceExpr{
-															pos: position{line: 2887, col: 13, offset: 91418},
+															pos: position{line: 2889, col: 13, offset: 91489},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2887, col: 13, offset: 91418},
+																	pos:        position{line: 2889, col: 13, offset: 91489},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2887, col: 20, offset: 91425},
+																	pos:        position{line: 2889, col: 20, offset: 91496},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2887, col: 29, offset: 91434},
+																	pos:        position{line: 2889, col: 29, offset: 91505},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12481,9 +12481,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2897, col: 8, offset: 91594},
+														pos: position{line: 2899, col: 8, offset: 91665},
 														expr: &anyMatcher{
-															line: 2897, col: 9, offset: 91595,
+															line: 2899, col: 9, offset: 91666,
 														},
 													},
 												},
@@ -12497,18 +12497,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21525},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2895, col: 11, offset: 91580},
+																pos: position{line: 2897, col: 11, offset: 91651},
 																expr: &anyMatcher{
-																	line: 2895, col: 13, offset: 91582,
+																	line: 2897, col: 13, offset: 91653,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21532},
 																expr: &actionExpr{
-																	pos: position{line: 2878, col: 10, offset: 91246},
+																	pos: position{line: 2880, col: 10, offset: 91317},
 																	run: (*parser).callonBlockAttributes240,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2878, col: 10, offset: 91246},
+																		pos:        position{line: 2880, col: 10, offset: 91317},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12517,28 +12517,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2900, col: 8, offset: 91644},
+																pos: position{line: 2902, col: 8, offset: 91715},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2887, col: 12, offset: 91417},
+																		pos: position{line: 2889, col: 12, offset: 91488},
 																		run: (*parser).callonBlockAttributes243,
 																		expr: &choiceExpr{
-																			pos: position{line: 2887, col: 13, offset: 91418},
+																			pos: position{line: 2889, col: 13, offset: 91489},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2887, col: 13, offset: 91418},
+																					pos:        position{line: 2889, col: 13, offset: 91489},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2887, col: 20, offset: 91425},
+																					pos:        position{line: 2889, col: 20, offset: 91496},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2887, col: 29, offset: 91434},
+																					pos:        position{line: 2889, col: 29, offset: 91505},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12547,9 +12547,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2897, col: 8, offset: 91594},
+																		pos: position{line: 2899, col: 8, offset: 91665},
 																		expr: &anyMatcher{
-																			line: 2897, col: 9, offset: 91595,
+																			line: 2899, col: 9, offset: 91666,
 																		},
 																	},
 																},
@@ -12571,10 +12571,10 @@ var g = &grammar{
 												pos:   position{line: 379, col: 12, offset: 11682},
 												label: "start",
 												expr: &actionExpr{
-													pos: position{line: 2903, col: 16, offset: 91768},
+													pos: position{line: 2905, col: 16, offset: 91839},
 													run: (*parser).callonBlockAttributes253,
 													expr: &litMatcher{
-														pos:        position{line: 2903, col: 16, offset: 91768},
+														pos:        position{line: 2905, col: 16, offset: 91839},
 														val:        "",
 														ignoreCase: false,
 														want:       "\"\"",
@@ -12592,10 +12592,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 379, col: 64, offset: 11734},
 												expr: &actionExpr{
-													pos: position{line: 2878, col: 10, offset: 91246},
+													pos: position{line: 2880, col: 10, offset: 91317},
 													run: (*parser).callonBlockAttributes258,
 													expr: &charClassMatcher{
-														pos:        position{line: 2878, col: 10, offset: 91246},
+														pos:        position{line: 2880, col: 10, offset: 91317},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12607,10 +12607,10 @@ var g = &grammar{
 												pos:   position{line: 379, col: 71, offset: 11741},
 												label: "end",
 												expr: &actionExpr{
-													pos: position{line: 2903, col: 16, offset: 91768},
+													pos: position{line: 2905, col: 16, offset: 91839},
 													run: (*parser).callonBlockAttributes261,
 													expr: &litMatcher{
-														pos:        position{line: 2903, col: 16, offset: 91768},
+														pos:        position{line: 2905, col: 16, offset: 91839},
 														val:        "",
 														ignoreCase: false,
 														want:       "\"\"",
@@ -12622,28 +12622,28 @@ var g = &grammar{
 												run: (*parser).callonBlockAttributes263,
 											},
 											&choiceExpr{
-												pos: position{line: 2900, col: 8, offset: 91644},
+												pos: position{line: 2902, col: 8, offset: 91715},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2887, col: 12, offset: 91417},
+														pos: position{line: 2889, col: 12, offset: 91488},
 														run: (*parser).callonBlockAttributes265,
 														expr: &choiceExpr{
-															pos: position{line: 2887, col: 13, offset: 91418},
+															pos: position{line: 2889, col: 13, offset: 91489},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2887, col: 13, offset: 91418},
+																	pos:        position{line: 2889, col: 13, offset: 91489},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2887, col: 20, offset: 91425},
+																	pos:        position{line: 2889, col: 20, offset: 91496},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2887, col: 29, offset: 91434},
+																	pos:        position{line: 2889, col: 29, offset: 91505},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12652,9 +12652,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2897, col: 8, offset: 91594},
+														pos: position{line: 2899, col: 8, offset: 91665},
 														expr: &anyMatcher{
-															line: 2897, col: 9, offset: 91595,
+															line: 2899, col: 9, offset: 91666,
 														},
 													},
 												},
@@ -12668,18 +12668,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21525},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2895, col: 11, offset: 91580},
+																pos: position{line: 2897, col: 11, offset: 91651},
 																expr: &anyMatcher{
-																	line: 2895, col: 13, offset: 91582,
+																	line: 2897, col: 13, offset: 91653,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21532},
 																expr: &actionExpr{
-																	pos: position{line: 2878, col: 10, offset: 91246},
+																	pos: position{line: 2880, col: 10, offset: 91317},
 																	run: (*parser).callonBlockAttributes278,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2878, col: 10, offset: 91246},
+																		pos:        position{line: 2880, col: 10, offset: 91317},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12688,28 +12688,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2900, col: 8, offset: 91644},
+																pos: position{line: 2902, col: 8, offset: 91715},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2887, col: 12, offset: 91417},
+																		pos: position{line: 2889, col: 12, offset: 91488},
 																		run: (*parser).callonBlockAttributes281,
 																		expr: &choiceExpr{
-																			pos: position{line: 2887, col: 13, offset: 91418},
+																			pos: position{line: 2889, col: 13, offset: 91489},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2887, col: 13, offset: 91418},
+																					pos:        position{line: 2889, col: 13, offset: 91489},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2887, col: 20, offset: 91425},
+																					pos:        position{line: 2889, col: 20, offset: 91496},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2887, col: 29, offset: 91434},
+																					pos:        position{line: 2889, col: 29, offset: 91505},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12718,9 +12718,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2897, col: 8, offset: 91594},
+																		pos: position{line: 2899, col: 8, offset: 91665},
 																		expr: &anyMatcher{
-																			line: 2897, col: 9, offset: 91595,
+																			line: 2899, col: 9, offset: 91666,
 																		},
 																	},
 																},
@@ -12968,10 +12968,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 466, col: 13, offset: 14565},
 										expr: &actionExpr{
-											pos: position{line: 2878, col: 10, offset: 91246},
+											pos: position{line: 2880, col: 10, offset: 91317},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2878, col: 10, offset: 91246},
+												pos:        position{line: 2880, col: 10, offset: 91317},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13503,10 +13503,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 518, col: 9, offset: 16147},
 													expr: &actionExpr{
-														pos: position{line: 2878, col: 10, offset: 91246},
+														pos: position{line: 2880, col: 10, offset: 91317},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2878, col: 10, offset: 91246},
+															pos:        position{line: 2880, col: 10, offset: 91317},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13567,10 +13567,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 524, col: 34, offset: 16290},
 														expr: &actionExpr{
-															pos: position{line: 2878, col: 10, offset: 91246},
+															pos: position{line: 2880, col: 10, offset: 91317},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2878, col: 10, offset: 91246},
+																pos:        position{line: 2880, col: 10, offset: 91317},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13610,10 +13610,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 529, col: 13, offset: 16454},
 												expr: &actionExpr{
-													pos: position{line: 2878, col: 10, offset: 91246},
+													pos: position{line: 2880, col: 10, offset: 91317},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2878, col: 10, offset: 91246},
+														pos:        position{line: 2880, col: 10, offset: 91317},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13636,10 +13636,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 529, col: 26, offset: 16467},
 																expr: &actionExpr{
-																	pos: position{line: 2878, col: 10, offset: 91246},
+																	pos: position{line: 2880, col: 10, offset: 91317},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2878, col: 10, offset: 91246},
+																		pos:        position{line: 2880, col: 10, offset: 91317},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13694,10 +13694,10 @@ var g = &grammar{
 										&notExpr{
 											pos: position{line: 549, col: 22, offset: 17114},
 											expr: &actionExpr{
-												pos: position{line: 2878, col: 10, offset: 91246},
+												pos: position{line: 2880, col: 10, offset: 91317},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2878, col: 10, offset: 91246},
+													pos:        position{line: 2880, col: 10, offset: 91317},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13728,10 +13728,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 542, col: 9, offset: 16859},
 							expr: &actionExpr{
-								pos: position{line: 2878, col: 10, offset: 91246},
+								pos: position{line: 2880, col: 10, offset: 91317},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2878, col: 10, offset: 91246},
+									pos:        position{line: 2880, col: 10, offset: 91317},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13761,10 +13761,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 543, col: 33, offset: 16899},
 										expr: &actionExpr{
-											pos: position{line: 2878, col: 10, offset: 91246},
+											pos: position{line: 2880, col: 10, offset: 91317},
 											run: (*parser).callonNamedAttribute21,
 											expr: &charClassMatcher{
-												pos:        position{line: 2878, col: 10, offset: 91246},
+												pos:        position{line: 2880, col: 10, offset: 91317},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13819,10 +13819,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 559, col: 9, offset: 17331},
 											expr: &actionExpr{
-												pos: position{line: 2878, col: 10, offset: 91246},
+												pos: position{line: 2880, col: 10, offset: 91317},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2878, col: 10, offset: 91246},
+													pos:        position{line: 2880, col: 10, offset: 91317},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13901,12 +13901,12 @@ var g = &grammar{
 							pos: position{line: 572, col: 9, offset: 17648},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2772, col: 14, offset: 88394},
+									pos: position{line: 2774, col: 14, offset: 88465},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2772, col: 14, offset: 88394},
+										pos: position{line: 2774, col: 14, offset: 88465},
 										expr: &charClassMatcher{
-											pos:        position{line: 2772, col: 14, offset: 88394},
+											pos:        position{line: 2774, col: 14, offset: 88465},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -13915,10 +13915,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2878, col: 10, offset: 91246},
+									pos: position{line: 2880, col: 10, offset: 91317},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2878, col: 10, offset: 91246},
+										pos:        position{line: 2880, col: 10, offset: 91317},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14375,10 +14375,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 592, col: 14, offset: 18388},
 											expr: &actionExpr{
-												pos: position{line: 2878, col: 10, offset: 91246},
+												pos: position{line: 2880, col: 10, offset: 91317},
 												run: (*parser).callonDoubleQuotedAttributeValue13,
 												expr: &charClassMatcher{
-													pos:        position{line: 2878, col: 10, offset: 91246},
+													pos:        position{line: 2880, col: 10, offset: 91317},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14415,12 +14415,12 @@ var g = &grammar{
 							pos: position{line: 598, col: 9, offset: 18499},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2772, col: 14, offset: 88394},
+									pos: position{line: 2774, col: 14, offset: 88465},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2772, col: 14, offset: 88394},
+										pos: position{line: 2774, col: 14, offset: 88465},
 										expr: &charClassMatcher{
-											pos:        position{line: 2772, col: 14, offset: 88394},
+											pos:        position{line: 2774, col: 14, offset: 88465},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14429,10 +14429,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2878, col: 10, offset: 91246},
+									pos: position{line: 2880, col: 10, offset: 91317},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2878, col: 10, offset: 91246},
+										pos:        position{line: 2880, col: 10, offset: 91317},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14859,10 +14859,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 619, col: 5, offset: 19355},
 							expr: &actionExpr{
-								pos: position{line: 2878, col: 10, offset: 91246},
+								pos: position{line: 2880, col: 10, offset: 91317},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2878, col: 10, offset: 91246},
+									pos:        position{line: 2880, col: 10, offset: 91317},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -15252,10 +15252,10 @@ var g = &grammar{
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2878, col: 10, offset: 91246},
+											pos: position{line: 2880, col: 10, offset: 91317},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2878, col: 10, offset: 91246},
+												pos:        position{line: 2880, col: 10, offset: 91317},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -15306,12 +15306,12 @@ var g = &grammar{
 									pos:   position{line: 686, col: 32, offset: 21885},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2863, col: 7, offset: 90898},
+										pos: position{line: 2865, col: 7, offset: 90969},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2863, col: 7, offset: 90898},
+											pos: position{line: 2865, col: 7, offset: 90969},
 											expr: &charClassMatcher{
-												pos:        position{line: 2863, col: 7, offset: 90898},
+												pos:        position{line: 2865, col: 7, offset: 90969},
 												val:        "[^[]<>,\\r\\n]",
 												chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 												ignoreCase: false,
@@ -15323,10 +15323,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 686, col: 40, offset: 21893},
 									expr: &actionExpr{
-										pos: position{line: 2878, col: 10, offset: 91246},
+										pos: position{line: 2880, col: 10, offset: 91317},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2878, col: 10, offset: 91246},
+											pos:        position{line: 2880, col: 10, offset: 91317},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15343,10 +15343,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 686, col: 51, offset: 21904},
 									expr: &actionExpr{
-										pos: position{line: 2878, col: 10, offset: 91246},
+										pos: position{line: 2880, col: 10, offset: 91317},
 										run: (*parser).callonCrossReference14,
 										expr: &charClassMatcher{
-											pos:        position{line: 2878, col: 10, offset: 91246},
+											pos:        position{line: 2880, col: 10, offset: 91317},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15739,12 +15739,12 @@ var g = &grammar{
 									pos:   position{line: 688, col: 14, offset: 22017},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2863, col: 7, offset: 90898},
+										pos: position{line: 2865, col: 7, offset: 90969},
 										run: (*parser).callonCrossReference93,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2863, col: 7, offset: 90898},
+											pos: position{line: 2865, col: 7, offset: 90969},
 											expr: &charClassMatcher{
-												pos:        position{line: 2863, col: 7, offset: 90898},
+												pos:        position{line: 2865, col: 7, offset: 90969},
 												val:        "[^[]<>,\\r\\n]",
 												chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 												ignoreCase: false,
@@ -15788,41 +15788,41 @@ var g = &grammar{
 							pos:   position{line: 692, col: 35, offset: 22130},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2832, col: 17, offset: 89909},
+								pos: position{line: 2834, col: 17, offset: 89980},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2832, col: 17, offset: 89909},
+									pos:   position{line: 2834, col: 17, offset: 89980},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2849, col: 5, offset: 90363},
+										pos: position{line: 2851, col: 5, offset: 90434},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2849, col: 5, offset: 90363},
+											pos:   position{line: 2851, col: 5, offset: 90434},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2849, col: 14, offset: 90372},
+												pos: position{line: 2851, col: 14, offset: 90443},
 												expr: &choiceExpr{
-													pos: position{line: 2850, col: 9, offset: 90382},
+													pos: position{line: 2852, col: 9, offset: 90453},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2850, col: 9, offset: 90382},
+															pos: position{line: 2852, col: 9, offset: 90453},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2850, col: 9, offset: 90382},
+																pos: position{line: 2852, col: 9, offset: 90453},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2850, col: 9, offset: 90382},
+																		pos: position{line: 2852, col: 9, offset: 90453},
 																		expr: &litMatcher{
-																			pos:        position{line: 2850, col: 10, offset: 90383},
+																			pos:        position{line: 2852, col: 10, offset: 90454},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2851, col: 9, offset: 90411},
+																		pos: position{line: 2853, col: 9, offset: 90482},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2851, col: 10, offset: 90412},
+																			pos:        position{line: 2853, col: 10, offset: 90483},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -15833,27 +15833,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2854, col: 11, offset: 90624},
+															pos: position{line: 2856, col: 11, offset: 90695},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2854, col: 11, offset: 90624},
+																	pos:        position{line: 2856, col: 11, offset: 90695},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2854, col: 19, offset: 90632},
+																	pos: position{line: 2856, col: 19, offset: 90703},
 																	expr: &seqExpr{
-																		pos: position{line: 2854, col: 21, offset: 90634},
+																		pos: position{line: 2856, col: 21, offset: 90705},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2854, col: 21, offset: 90634},
+																				pos: position{line: 2856, col: 21, offset: 90705},
 																				expr: &actionExpr{
-																					pos: position{line: 2878, col: 10, offset: 91246},
+																					pos: position{line: 2880, col: 10, offset: 91317},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2878, col: 10, offset: 91246},
+																						pos:        position{line: 2880, col: 10, offset: 91317},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -15862,11 +15862,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2854, col: 28, offset: 90641},
+																				pos: position{line: 2856, col: 28, offset: 90712},
 																				expr: &notExpr{
-																					pos: position{line: 2897, col: 8, offset: 91594},
+																					pos: position{line: 2899, col: 8, offset: 91665},
 																					expr: &anyMatcher{
-																						line: 2897, col: 9, offset: 91595,
+																						line: 2899, col: 9, offset: 91666,
 																					},
 																				},
 																			},
@@ -16265,10 +16265,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2857, col: 11, offset: 90761},
+															pos: position{line: 2859, col: 11, offset: 90832},
 															run: (*parser).callonExternalCrossReference105,
 															expr: &litMatcher{
-																pos:        position{line: 2857, col: 11, offset: 90761},
+																pos:        position{line: 2859, col: 11, offset: 90832},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -16313,12 +16313,12 @@ var g = &grammar{
 							pos:   position{line: 990, col: 11, offset: 30870},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2828, col: 14, offset: 89839},
+								pos: position{line: 2830, col: 14, offset: 89910},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2828, col: 14, offset: 89839},
+									pos: position{line: 2830, col: 14, offset: 89910},
 									expr: &charClassMatcher{
-										pos:        position{line: 2828, col: 14, offset: 89839},
+										pos:        position{line: 2830, col: 14, offset: 89910},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -16328,28 +16328,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2900, col: 8, offset: 91644},
+							pos: position{line: 2902, col: 8, offset: 91715},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2887, col: 12, offset: 91417},
+									pos: position{line: 2889, col: 12, offset: 91488},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2887, col: 13, offset: 91418},
+										pos: position{line: 2889, col: 13, offset: 91489},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2887, col: 13, offset: 91418},
+												pos:        position{line: 2889, col: 13, offset: 91489},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2887, col: 20, offset: 91425},
+												pos:        position{line: 2889, col: 20, offset: 91496},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2887, col: 29, offset: 91434},
+												pos:        position{line: 2889, col: 29, offset: 91505},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -16358,9 +16358,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2897, col: 8, offset: 91594},
+									pos: position{line: 2899, col: 8, offset: 91665},
 									expr: &anyMatcher{
-										line: 2897, col: 9, offset: 91595,
+										line: 2899, col: 9, offset: 91666,
 									},
 								},
 							},
@@ -16388,36 +16388,36 @@ var g = &grammar{
 								pos: position{line: 1105, col: 6, offset: 33872},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2485, col: 22, offset: 80132},
+										pos: position{line: 2487, col: 22, offset: 80203},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2485, col: 22, offset: 80132},
+											pos: position{line: 2487, col: 22, offset: 80203},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2490, col: 31, offset: 80353},
+													pos:        position{line: 2492, col: 31, offset: 80424},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2490, col: 36, offset: 80358},
+													pos: position{line: 2492, col: 36, offset: 80429},
 													expr: &litMatcher{
-														pos:        position{line: 2490, col: 37, offset: 80359},
+														pos:        position{line: 2492, col: 37, offset: 80430},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2485, col: 49, offset: 80159},
+													pos:   position{line: 2487, col: 49, offset: 80230},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2824, col: 13, offset: 89772},
+														pos: position{line: 2826, col: 13, offset: 89843},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2824, col: 13, offset: 89772},
+															pos: position{line: 2826, col: 13, offset: 89843},
 															expr: &charClassMatcher{
-																pos:        position{line: 2824, col: 13, offset: 89772},
+																pos:        position{line: 2826, col: 13, offset: 89843},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16427,28 +16427,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2900, col: 8, offset: 91644},
+													pos: position{line: 2902, col: 8, offset: 91715},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2887, col: 12, offset: 91417},
+															pos: position{line: 2889, col: 12, offset: 91488},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2887, col: 13, offset: 91418},
+																pos: position{line: 2889, col: 13, offset: 91489},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2887, col: 13, offset: 91418},
+																		pos:        position{line: 2889, col: 13, offset: 91489},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2887, col: 20, offset: 91425},
+																		pos:        position{line: 2889, col: 20, offset: 91496},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2887, col: 29, offset: 91434},
+																		pos:        position{line: 2889, col: 29, offset: 91505},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16457,9 +16457,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2897, col: 8, offset: 91594},
+															pos: position{line: 2899, col: 8, offset: 91665},
 															expr: &anyMatcher{
-																line: 2897, col: 9, offset: 91595,
+																line: 2899, col: 9, offset: 91666,
 															},
 														},
 													},
@@ -16510,10 +16510,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 743, col: 8, offset: 23745},
 																expr: &actionExpr{
-																	pos: position{line: 2878, col: 10, offset: 91246},
+																	pos: position{line: 2880, col: 10, offset: 91317},
 																	run: (*parser).callonDocumentHeader34,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2878, col: 10, offset: 91246},
+																		pos:        position{line: 2880, col: 10, offset: 91317},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16522,28 +16522,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2900, col: 8, offset: 91644},
+																pos: position{line: 2902, col: 8, offset: 91715},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2887, col: 12, offset: 91417},
+																		pos: position{line: 2889, col: 12, offset: 91488},
 																		run: (*parser).callonDocumentHeader37,
 																		expr: &choiceExpr{
-																			pos: position{line: 2887, col: 13, offset: 91418},
+																			pos: position{line: 2889, col: 13, offset: 91489},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2887, col: 13, offset: 91418},
+																					pos:        position{line: 2889, col: 13, offset: 91489},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2887, col: 20, offset: 91425},
+																					pos:        position{line: 2889, col: 20, offset: 91496},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2887, col: 29, offset: 91434},
+																					pos:        position{line: 2889, col: 29, offset: 91505},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -16552,9 +16552,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2897, col: 8, offset: 91594},
+																		pos: position{line: 2899, col: 8, offset: 91665},
 																		expr: &anyMatcher{
-																			line: 2897, col: 9, offset: 91595,
+																			line: 2899, col: 9, offset: 91666,
 																		},
 																	},
 																},
@@ -16615,10 +16615,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 743, col: 8, offset: 23745},
 																								expr: &actionExpr{
-																									pos: position{line: 2878, col: 10, offset: 91246},
+																									pos: position{line: 2880, col: 10, offset: 91317},
 																									run: (*parser).callonDocumentHeader59,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2878, col: 10, offset: 91246},
+																										pos:        position{line: 2880, col: 10, offset: 91317},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -16627,28 +16627,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2900, col: 8, offset: 91644},
+																								pos: position{line: 2902, col: 8, offset: 91715},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2887, col: 12, offset: 91417},
+																										pos: position{line: 2889, col: 12, offset: 91488},
 																										run: (*parser).callonDocumentHeader62,
 																										expr: &choiceExpr{
-																											pos: position{line: 2887, col: 13, offset: 91418},
+																											pos: position{line: 2889, col: 13, offset: 91489},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2887, col: 13, offset: 91418},
+																													pos:        position{line: 2889, col: 13, offset: 91489},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2887, col: 20, offset: 91425},
+																													pos:        position{line: 2889, col: 20, offset: 91496},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2887, col: 29, offset: 91434},
+																													pos:        position{line: 2889, col: 29, offset: 91505},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -16657,9 +16657,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2897, col: 8, offset: 91594},
+																										pos: position{line: 2899, col: 8, offset: 91665},
 																										expr: &anyMatcher{
-																											line: 2897, col: 9, offset: 91595,
+																											line: 2899, col: 9, offset: 91666,
 																										},
 																									},
 																								},
@@ -16668,9 +16668,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2897, col: 8, offset: 91594},
+																					pos: position{line: 2899, col: 8, offset: 91665},
 																					expr: &anyMatcher{
-																						line: 2897, col: 9, offset: 91595,
+																						line: 2899, col: 9, offset: 91666,
 																					},
 																				},
 																			},
@@ -16686,21 +16686,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2895, col: 11, offset: 91580},
+																						pos: position{line: 2897, col: 11, offset: 91651},
 																						expr: &anyMatcher{
-																							line: 2895, col: 13, offset: 91582,
+																							line: 2897, col: 13, offset: 91653,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2824, col: 13, offset: 89772},
+																							pos: position{line: 2826, col: 13, offset: 89843},
 																							run: (*parser).callonDocumentHeader77,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2824, col: 13, offset: 89772},
+																								pos: position{line: 2826, col: 13, offset: 89843},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2824, col: 13, offset: 89772},
+																									pos:        position{line: 2826, col: 13, offset: 89843},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16710,28 +16710,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2900, col: 8, offset: 91644},
+																						pos: position{line: 2902, col: 8, offset: 91715},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2887, col: 12, offset: 91417},
+																								pos: position{line: 2889, col: 12, offset: 91488},
 																								run: (*parser).callonDocumentHeader81,
 																								expr: &choiceExpr{
-																									pos: position{line: 2887, col: 13, offset: 91418},
+																									pos: position{line: 2889, col: 13, offset: 91489},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 13, offset: 91418},
+																											pos:        position{line: 2889, col: 13, offset: 91489},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 20, offset: 91425},
+																											pos:        position{line: 2889, col: 20, offset: 91496},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 29, offset: 91434},
+																											pos:        position{line: 2889, col: 29, offset: 91505},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16740,9 +16740,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2897, col: 8, offset: 91594},
+																								pos: position{line: 2899, col: 8, offset: 91665},
 																								expr: &anyMatcher{
-																									line: 2897, col: 9, offset: 91595,
+																									line: 2899, col: 9, offset: 91666,
 																								},
 																							},
 																						},
@@ -16798,10 +16798,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 743, col: 8, offset: 23745},
 																			expr: &actionExpr{
-																				pos: position{line: 2878, col: 10, offset: 91246},
+																				pos: position{line: 2880, col: 10, offset: 91317},
 																				run: (*parser).callonDocumentHeader99,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2878, col: 10, offset: 91246},
+																					pos:        position{line: 2880, col: 10, offset: 91317},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -16810,28 +16810,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2900, col: 8, offset: 91644},
+																			pos: position{line: 2902, col: 8, offset: 91715},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2887, col: 12, offset: 91417},
+																					pos: position{line: 2889, col: 12, offset: 91488},
 																					run: (*parser).callonDocumentHeader102,
 																					expr: &choiceExpr{
-																						pos: position{line: 2887, col: 13, offset: 91418},
+																						pos: position{line: 2889, col: 13, offset: 91489},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2887, col: 13, offset: 91418},
+																								pos:        position{line: 2889, col: 13, offset: 91489},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2887, col: 20, offset: 91425},
+																								pos:        position{line: 2889, col: 20, offset: 91496},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2887, col: 29, offset: 91434},
+																								pos:        position{line: 2889, col: 29, offset: 91505},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -16840,9 +16840,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2897, col: 8, offset: 91594},
+																					pos: position{line: 2899, col: 8, offset: 91665},
 																					expr: &anyMatcher{
-																						line: 2897, col: 9, offset: 91595,
+																						line: 2899, col: 9, offset: 91666,
 																					},
 																				},
 																			},
@@ -16851,9 +16851,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2897, col: 8, offset: 91594},
+																pos: position{line: 2899, col: 8, offset: 91665},
 																expr: &anyMatcher{
-																	line: 2897, col: 9, offset: 91595,
+																	line: 2899, col: 9, offset: 91666,
 																},
 															},
 														},
@@ -16879,36 +16879,36 @@ var g = &grammar{
 								pos: position{line: 1107, col: 6, offset: 33995},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2485, col: 22, offset: 80132},
+										pos: position{line: 2487, col: 22, offset: 80203},
 										run: (*parser).callonDocumentHeader115,
 										expr: &seqExpr{
-											pos: position{line: 2485, col: 22, offset: 80132},
+											pos: position{line: 2487, col: 22, offset: 80203},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2490, col: 31, offset: 80353},
+													pos:        position{line: 2492, col: 31, offset: 80424},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2490, col: 36, offset: 80358},
+													pos: position{line: 2492, col: 36, offset: 80429},
 													expr: &litMatcher{
-														pos:        position{line: 2490, col: 37, offset: 80359},
+														pos:        position{line: 2492, col: 37, offset: 80430},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2485, col: 49, offset: 80159},
+													pos:   position{line: 2487, col: 49, offset: 80230},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2824, col: 13, offset: 89772},
+														pos: position{line: 2826, col: 13, offset: 89843},
 														run: (*parser).callonDocumentHeader121,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2824, col: 13, offset: 89772},
+															pos: position{line: 2826, col: 13, offset: 89843},
 															expr: &charClassMatcher{
-																pos:        position{line: 2824, col: 13, offset: 89772},
+																pos:        position{line: 2826, col: 13, offset: 89843},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16918,28 +16918,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2900, col: 8, offset: 91644},
+													pos: position{line: 2902, col: 8, offset: 91715},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2887, col: 12, offset: 91417},
+															pos: position{line: 2889, col: 12, offset: 91488},
 															run: (*parser).callonDocumentHeader125,
 															expr: &choiceExpr{
-																pos: position{line: 2887, col: 13, offset: 91418},
+																pos: position{line: 2889, col: 13, offset: 91489},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2887, col: 13, offset: 91418},
+																		pos:        position{line: 2889, col: 13, offset: 91489},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2887, col: 20, offset: 91425},
+																		pos:        position{line: 2889, col: 20, offset: 91496},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2887, col: 29, offset: 91434},
+																		pos:        position{line: 2889, col: 29, offset: 91505},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16948,9 +16948,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2897, col: 8, offset: 91594},
+															pos: position{line: 2899, col: 8, offset: 91665},
 															expr: &anyMatcher{
-																line: 2897, col: 9, offset: 91595,
+																line: 2899, col: 9, offset: 91666,
 															},
 														},
 													},
@@ -17001,10 +17001,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 743, col: 8, offset: 23745},
 																expr: &actionExpr{
-																	pos: position{line: 2878, col: 10, offset: 91246},
+																	pos: position{line: 2880, col: 10, offset: 91317},
 																	run: (*parser).callonDocumentHeader143,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2878, col: 10, offset: 91246},
+																		pos:        position{line: 2880, col: 10, offset: 91317},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17013,28 +17013,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2900, col: 8, offset: 91644},
+																pos: position{line: 2902, col: 8, offset: 91715},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2887, col: 12, offset: 91417},
+																		pos: position{line: 2889, col: 12, offset: 91488},
 																		run: (*parser).callonDocumentHeader146,
 																		expr: &choiceExpr{
-																			pos: position{line: 2887, col: 13, offset: 91418},
+																			pos: position{line: 2889, col: 13, offset: 91489},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2887, col: 13, offset: 91418},
+																					pos:        position{line: 2889, col: 13, offset: 91489},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2887, col: 20, offset: 91425},
+																					pos:        position{line: 2889, col: 20, offset: 91496},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2887, col: 29, offset: 91434},
+																					pos:        position{line: 2889, col: 29, offset: 91505},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17043,9 +17043,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2897, col: 8, offset: 91594},
+																		pos: position{line: 2899, col: 8, offset: 91665},
 																		expr: &anyMatcher{
-																			line: 2897, col: 9, offset: 91595,
+																			line: 2899, col: 9, offset: 91666,
 																		},
 																	},
 																},
@@ -17106,10 +17106,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 743, col: 8, offset: 23745},
 																								expr: &actionExpr{
-																									pos: position{line: 2878, col: 10, offset: 91246},
+																									pos: position{line: 2880, col: 10, offset: 91317},
 																									run: (*parser).callonDocumentHeader168,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2878, col: 10, offset: 91246},
+																										pos:        position{line: 2880, col: 10, offset: 91317},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -17118,28 +17118,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2900, col: 8, offset: 91644},
+																								pos: position{line: 2902, col: 8, offset: 91715},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2887, col: 12, offset: 91417},
+																										pos: position{line: 2889, col: 12, offset: 91488},
 																										run: (*parser).callonDocumentHeader171,
 																										expr: &choiceExpr{
-																											pos: position{line: 2887, col: 13, offset: 91418},
+																											pos: position{line: 2889, col: 13, offset: 91489},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2887, col: 13, offset: 91418},
+																													pos:        position{line: 2889, col: 13, offset: 91489},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2887, col: 20, offset: 91425},
+																													pos:        position{line: 2889, col: 20, offset: 91496},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2887, col: 29, offset: 91434},
+																													pos:        position{line: 2889, col: 29, offset: 91505},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -17148,9 +17148,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2897, col: 8, offset: 91594},
+																										pos: position{line: 2899, col: 8, offset: 91665},
 																										expr: &anyMatcher{
-																											line: 2897, col: 9, offset: 91595,
+																											line: 2899, col: 9, offset: 91666,
 																										},
 																									},
 																								},
@@ -17159,9 +17159,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2897, col: 8, offset: 91594},
+																					pos: position{line: 2899, col: 8, offset: 91665},
 																					expr: &anyMatcher{
-																						line: 2897, col: 9, offset: 91595,
+																						line: 2899, col: 9, offset: 91666,
 																					},
 																				},
 																			},
@@ -17177,21 +17177,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2895, col: 11, offset: 91580},
+																						pos: position{line: 2897, col: 11, offset: 91651},
 																						expr: &anyMatcher{
-																							line: 2895, col: 13, offset: 91582,
+																							line: 2897, col: 13, offset: 91653,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2824, col: 13, offset: 89772},
+																							pos: position{line: 2826, col: 13, offset: 89843},
 																							run: (*parser).callonDocumentHeader186,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2824, col: 13, offset: 89772},
+																								pos: position{line: 2826, col: 13, offset: 89843},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2824, col: 13, offset: 89772},
+																									pos:        position{line: 2826, col: 13, offset: 89843},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17201,28 +17201,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2900, col: 8, offset: 91644},
+																						pos: position{line: 2902, col: 8, offset: 91715},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2887, col: 12, offset: 91417},
+																								pos: position{line: 2889, col: 12, offset: 91488},
 																								run: (*parser).callonDocumentHeader190,
 																								expr: &choiceExpr{
-																									pos: position{line: 2887, col: 13, offset: 91418},
+																									pos: position{line: 2889, col: 13, offset: 91489},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 13, offset: 91418},
+																											pos:        position{line: 2889, col: 13, offset: 91489},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 20, offset: 91425},
+																											pos:        position{line: 2889, col: 20, offset: 91496},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 29, offset: 91434},
+																											pos:        position{line: 2889, col: 29, offset: 91505},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17231,9 +17231,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2897, col: 8, offset: 91594},
+																								pos: position{line: 2899, col: 8, offset: 91665},
 																								expr: &anyMatcher{
-																									line: 2897, col: 9, offset: 91595,
+																									line: 2899, col: 9, offset: 91666,
 																								},
 																							},
 																						},
@@ -17289,10 +17289,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 743, col: 8, offset: 23745},
 																			expr: &actionExpr{
-																				pos: position{line: 2878, col: 10, offset: 91246},
+																				pos: position{line: 2880, col: 10, offset: 91317},
 																				run: (*parser).callonDocumentHeader208,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2878, col: 10, offset: 91246},
+																					pos:        position{line: 2880, col: 10, offset: 91317},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -17301,28 +17301,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2900, col: 8, offset: 91644},
+																			pos: position{line: 2902, col: 8, offset: 91715},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2887, col: 12, offset: 91417},
+																					pos: position{line: 2889, col: 12, offset: 91488},
 																					run: (*parser).callonDocumentHeader211,
 																					expr: &choiceExpr{
-																						pos: position{line: 2887, col: 13, offset: 91418},
+																						pos: position{line: 2889, col: 13, offset: 91489},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2887, col: 13, offset: 91418},
+																								pos:        position{line: 2889, col: 13, offset: 91489},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2887, col: 20, offset: 91425},
+																								pos:        position{line: 2889, col: 20, offset: 91496},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2887, col: 29, offset: 91434},
+																								pos:        position{line: 2889, col: 29, offset: 91505},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -17331,9 +17331,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2897, col: 8, offset: 91594},
+																					pos: position{line: 2899, col: 8, offset: 91665},
 																					expr: &anyMatcher{
-																						line: 2897, col: 9, offset: 91595,
+																						line: 2899, col: 9, offset: 91666,
 																					},
 																				},
 																			},
@@ -17342,9 +17342,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2897, col: 8, offset: 91594},
+																pos: position{line: 2899, col: 8, offset: 91665},
 																expr: &anyMatcher{
-																	line: 2897, col: 9, offset: 91595,
+																	line: 2899, col: 9, offset: 91666,
 																},
 															},
 														},
@@ -17388,10 +17388,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1126, col: 20, offset: 34750},
 																expr: &actionExpr{
-																	pos: position{line: 2878, col: 10, offset: 91246},
+																	pos: position{line: 2880, col: 10, offset: 91317},
 																	run: (*parser).callonDocumentHeader230,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2878, col: 10, offset: 91246},
+																		pos:        position{line: 2880, col: 10, offset: 91317},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17442,10 +17442,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1145, col: 5, offset: 35355},
 																										expr: &actionExpr{
-																											pos: position{line: 2878, col: 10, offset: 91246},
+																											pos: position{line: 2880, col: 10, offset: 91317},
 																											run: (*parser).callonDocumentHeader245,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2878, col: 10, offset: 91246},
+																												pos:        position{line: 2880, col: 10, offset: 91317},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17477,10 +17477,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1149, col: 5, offset: 35454},
 																										expr: &actionExpr{
-																											pos: position{line: 2878, col: 10, offset: 91246},
+																											pos: position{line: 2880, col: 10, offset: 91317},
 																											run: (*parser).callonDocumentHeader253,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2878, col: 10, offset: 91246},
+																												pos:        position{line: 2880, col: 10, offset: 91317},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17512,10 +17512,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1153, col: 5, offset: 35551},
 																										expr: &actionExpr{
-																											pos: position{line: 2878, col: 10, offset: 91246},
+																											pos: position{line: 2880, col: 10, offset: 91317},
 																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2878, col: 10, offset: 91246},
+																												pos:        position{line: 2880, col: 10, offset: 91317},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17540,9 +17540,9 @@ var g = &grammar{
 																								pos: position{line: 1159, col: 5, offset: 35673},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2895, col: 11, offset: 91580},
+																										pos: position{line: 2897, col: 11, offset: 91651},
 																										expr: &anyMatcher{
-																											line: 2895, col: 13, offset: 91582,
+																											line: 2897, col: 13, offset: 91653,
 																										},
 																									},
 																									&litMatcher{
@@ -17583,10 +17583,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1131, col: 69, offset: 34943},
 																					expr: &actionExpr{
-																						pos: position{line: 2878, col: 10, offset: 91246},
+																						pos: position{line: 2880, col: 10, offset: 91317},
 																						run: (*parser).callonDocumentHeader276,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2878, col: 10, offset: 91246},
+																							pos:        position{line: 2880, col: 10, offset: 91317},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17606,10 +17606,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1131, col: 81, offset: 34955},
 																					expr: &actionExpr{
-																						pos: position{line: 2878, col: 10, offset: 91246},
+																						pos: position{line: 2880, col: 10, offset: 91317},
 																						run: (*parser).callonDocumentHeader281,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2878, col: 10, offset: 91246},
+																							pos:        position{line: 2880, col: 10, offset: 91317},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17627,28 +17627,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2900, col: 8, offset: 91644},
+																pos: position{line: 2902, col: 8, offset: 91715},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2887, col: 12, offset: 91417},
+																		pos: position{line: 2889, col: 12, offset: 91488},
 																		run: (*parser).callonDocumentHeader285,
 																		expr: &choiceExpr{
-																			pos: position{line: 2887, col: 13, offset: 91418},
+																			pos: position{line: 2889, col: 13, offset: 91489},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2887, col: 13, offset: 91418},
+																					pos:        position{line: 2889, col: 13, offset: 91489},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2887, col: 20, offset: 91425},
+																					pos:        position{line: 2889, col: 20, offset: 91496},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2887, col: 29, offset: 91434},
+																					pos:        position{line: 2889, col: 29, offset: 91505},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17657,9 +17657,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2897, col: 8, offset: 91594},
+																		pos: position{line: 2899, col: 8, offset: 91665},
 																		expr: &anyMatcher{
-																			line: 2897, col: 9, offset: 91595,
+																			line: 2899, col: 9, offset: 91666,
 																		},
 																	},
 																},
@@ -17674,36 +17674,36 @@ var g = &grammar{
 													pos: position{line: 1121, col: 6, offset: 34525},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2485, col: 22, offset: 80132},
+															pos: position{line: 2487, col: 22, offset: 80203},
 															run: (*parser).callonDocumentHeader294,
 															expr: &seqExpr{
-																pos: position{line: 2485, col: 22, offset: 80132},
+																pos: position{line: 2487, col: 22, offset: 80203},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2490, col: 31, offset: 80353},
+																		pos:        position{line: 2492, col: 31, offset: 80424},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2490, col: 36, offset: 80358},
+																		pos: position{line: 2492, col: 36, offset: 80429},
 																		expr: &litMatcher{
-																			pos:        position{line: 2490, col: 37, offset: 80359},
+																			pos:        position{line: 2492, col: 37, offset: 80430},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2485, col: 49, offset: 80159},
+																		pos:   position{line: 2487, col: 49, offset: 80230},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2824, col: 13, offset: 89772},
+																			pos: position{line: 2826, col: 13, offset: 89843},
 																			run: (*parser).callonDocumentHeader300,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2824, col: 13, offset: 89772},
+																				pos: position{line: 2826, col: 13, offset: 89843},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2824, col: 13, offset: 89772},
+																					pos:        position{line: 2826, col: 13, offset: 89843},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -17713,28 +17713,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2900, col: 8, offset: 91644},
+																		pos: position{line: 2902, col: 8, offset: 91715},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2887, col: 12, offset: 91417},
+																				pos: position{line: 2889, col: 12, offset: 91488},
 																				run: (*parser).callonDocumentHeader304,
 																				expr: &choiceExpr{
-																					pos: position{line: 2887, col: 13, offset: 91418},
+																					pos: position{line: 2889, col: 13, offset: 91489},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 13, offset: 91418},
+																							pos:        position{line: 2889, col: 13, offset: 91489},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 20, offset: 91425},
+																							pos:        position{line: 2889, col: 20, offset: 91496},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 29, offset: 91434},
+																							pos:        position{line: 2889, col: 29, offset: 91505},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -17743,9 +17743,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2897, col: 8, offset: 91594},
+																				pos: position{line: 2899, col: 8, offset: 91665},
 																				expr: &anyMatcher{
-																					line: 2897, col: 9, offset: 91595,
+																					line: 2899, col: 9, offset: 91666,
 																				},
 																			},
 																		},
@@ -17796,10 +17796,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 743, col: 8, offset: 23745},
 																					expr: &actionExpr{
-																						pos: position{line: 2878, col: 10, offset: 91246},
+																						pos: position{line: 2880, col: 10, offset: 91317},
 																						run: (*parser).callonDocumentHeader322,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2878, col: 10, offset: 91246},
+																							pos:        position{line: 2880, col: 10, offset: 91317},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17808,28 +17808,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2900, col: 8, offset: 91644},
+																					pos: position{line: 2902, col: 8, offset: 91715},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2887, col: 12, offset: 91417},
+																							pos: position{line: 2889, col: 12, offset: 91488},
 																							run: (*parser).callonDocumentHeader325,
 																							expr: &choiceExpr{
-																								pos: position{line: 2887, col: 13, offset: 91418},
+																								pos: position{line: 2889, col: 13, offset: 91489},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2887, col: 13, offset: 91418},
+																										pos:        position{line: 2889, col: 13, offset: 91489},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2887, col: 20, offset: 91425},
+																										pos:        position{line: 2889, col: 20, offset: 91496},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2887, col: 29, offset: 91434},
+																										pos:        position{line: 2889, col: 29, offset: 91505},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -17838,9 +17838,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2897, col: 8, offset: 91594},
+																							pos: position{line: 2899, col: 8, offset: 91665},
 																							expr: &anyMatcher{
-																								line: 2897, col: 9, offset: 91595,
+																								line: 2899, col: 9, offset: 91666,
 																							},
 																						},
 																					},
@@ -17901,10 +17901,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 743, col: 8, offset: 23745},
 																													expr: &actionExpr{
-																														pos: position{line: 2878, col: 10, offset: 91246},
+																														pos: position{line: 2880, col: 10, offset: 91317},
 																														run: (*parser).callonDocumentHeader347,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2878, col: 10, offset: 91246},
+																															pos:        position{line: 2880, col: 10, offset: 91317},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -17913,28 +17913,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2900, col: 8, offset: 91644},
+																													pos: position{line: 2902, col: 8, offset: 91715},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2887, col: 12, offset: 91417},
+																															pos: position{line: 2889, col: 12, offset: 91488},
 																															run: (*parser).callonDocumentHeader350,
 																															expr: &choiceExpr{
-																																pos: position{line: 2887, col: 13, offset: 91418},
+																																pos: position{line: 2889, col: 13, offset: 91489},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2887, col: 13, offset: 91418},
+																																		pos:        position{line: 2889, col: 13, offset: 91489},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2887, col: 20, offset: 91425},
+																																		pos:        position{line: 2889, col: 20, offset: 91496},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2887, col: 29, offset: 91434},
+																																		pos:        position{line: 2889, col: 29, offset: 91505},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -17943,9 +17943,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2897, col: 8, offset: 91594},
+																															pos: position{line: 2899, col: 8, offset: 91665},
 																															expr: &anyMatcher{
-																																line: 2897, col: 9, offset: 91595,
+																																line: 2899, col: 9, offset: 91666,
 																															},
 																														},
 																													},
@@ -17954,9 +17954,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2897, col: 8, offset: 91594},
+																										pos: position{line: 2899, col: 8, offset: 91665},
 																										expr: &anyMatcher{
-																											line: 2897, col: 9, offset: 91595,
+																											line: 2899, col: 9, offset: 91666,
 																										},
 																									},
 																								},
@@ -17972,21 +17972,21 @@ var g = &grammar{
 																									pos: position{line: 812, col: 5, offset: 26152},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2895, col: 11, offset: 91580},
+																											pos: position{line: 2897, col: 11, offset: 91651},
 																											expr: &anyMatcher{
-																												line: 2895, col: 13, offset: 91582,
+																												line: 2897, col: 13, offset: 91653,
 																											},
 																										},
 																										&labeledExpr{
 																											pos:   position{line: 813, col: 5, offset: 26227},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2824, col: 13, offset: 89772},
+																												pos: position{line: 2826, col: 13, offset: 89843},
 																												run: (*parser).callonDocumentHeader365,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2824, col: 13, offset: 89772},
+																													pos: position{line: 2826, col: 13, offset: 89843},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2824, col: 13, offset: 89772},
+																														pos:        position{line: 2826, col: 13, offset: 89843},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -17996,28 +17996,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2900, col: 8, offset: 91644},
+																											pos: position{line: 2902, col: 8, offset: 91715},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2887, col: 12, offset: 91417},
+																													pos: position{line: 2889, col: 12, offset: 91488},
 																													run: (*parser).callonDocumentHeader369,
 																													expr: &choiceExpr{
-																														pos: position{line: 2887, col: 13, offset: 91418},
+																														pos: position{line: 2889, col: 13, offset: 91489},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 13, offset: 91418},
+																																pos:        position{line: 2889, col: 13, offset: 91489},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 20, offset: 91425},
+																																pos:        position{line: 2889, col: 20, offset: 91496},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 29, offset: 91434},
+																																pos:        position{line: 2889, col: 29, offset: 91505},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18026,9 +18026,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2897, col: 8, offset: 91594},
+																													pos: position{line: 2899, col: 8, offset: 91665},
 																													expr: &anyMatcher{
-																														line: 2897, col: 9, offset: 91595,
+																														line: 2899, col: 9, offset: 91666,
 																													},
 																												},
 																											},
@@ -18084,10 +18084,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 743, col: 8, offset: 23745},
 																								expr: &actionExpr{
-																									pos: position{line: 2878, col: 10, offset: 91246},
+																									pos: position{line: 2880, col: 10, offset: 91317},
 																									run: (*parser).callonDocumentHeader387,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2878, col: 10, offset: 91246},
+																										pos:        position{line: 2880, col: 10, offset: 91317},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -18096,28 +18096,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2900, col: 8, offset: 91644},
+																								pos: position{line: 2902, col: 8, offset: 91715},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2887, col: 12, offset: 91417},
+																										pos: position{line: 2889, col: 12, offset: 91488},
 																										run: (*parser).callonDocumentHeader390,
 																										expr: &choiceExpr{
-																											pos: position{line: 2887, col: 13, offset: 91418},
+																											pos: position{line: 2889, col: 13, offset: 91489},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2887, col: 13, offset: 91418},
+																													pos:        position{line: 2889, col: 13, offset: 91489},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2887, col: 20, offset: 91425},
+																													pos:        position{line: 2889, col: 20, offset: 91496},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2887, col: 29, offset: 91434},
+																													pos:        position{line: 2889, col: 29, offset: 91505},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -18126,9 +18126,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2897, col: 8, offset: 91594},
+																										pos: position{line: 2899, col: 8, offset: 91665},
 																										expr: &anyMatcher{
-																											line: 2897, col: 9, offset: 91595,
+																											line: 2899, col: 9, offset: 91666,
 																										},
 																									},
 																								},
@@ -18137,9 +18137,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2897, col: 8, offset: 91594},
+																					pos: position{line: 2899, col: 8, offset: 91665},
 																					expr: &anyMatcher{
-																						line: 2897, col: 9, offset: 91595,
+																						line: 2899, col: 9, offset: 91666,
 																					},
 																				},
 																			},
@@ -18165,10 +18165,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1170, col: 21, offset: 35951},
 																	expr: &actionExpr{
-																		pos: position{line: 2878, col: 10, offset: 91246},
+																		pos: position{line: 2880, col: 10, offset: 91317},
 																		run: (*parser).callonDocumentHeader404,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2878, col: 10, offset: 91246},
+																			pos:        position{line: 2880, col: 10, offset: 91317},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18270,10 +18270,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 1182, col: 28, offset: 36582},
 																													expr: &actionExpr{
-																														pos: position{line: 2878, col: 10, offset: 91246},
+																														pos: position{line: 2880, col: 10, offset: 91317},
 																														run: (*parser).callonDocumentHeader428,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2878, col: 10, offset: 91246},
+																															pos:        position{line: 2880, col: 10, offset: 91317},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -18420,28 +18420,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2900, col: 8, offset: 91644},
+																	pos: position{line: 2902, col: 8, offset: 91715},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2887, col: 12, offset: 91417},
+																			pos: position{line: 2889, col: 12, offset: 91488},
 																			run: (*parser).callonDocumentHeader460,
 																			expr: &choiceExpr{
-																				pos: position{line: 2887, col: 13, offset: 91418},
+																				pos: position{line: 2889, col: 13, offset: 91489},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 13, offset: 91418},
+																						pos:        position{line: 2889, col: 13, offset: 91489},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 20, offset: 91425},
+																						pos:        position{line: 2889, col: 20, offset: 91496},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 29, offset: 91434},
+																						pos:        position{line: 2889, col: 29, offset: 91505},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18450,9 +18450,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2897, col: 8, offset: 91594},
+																			pos: position{line: 2899, col: 8, offset: 91665},
 																			expr: &anyMatcher{
-																				line: 2897, col: 9, offset: 91595,
+																				line: 2899, col: 9, offset: 91666,
 																			},
 																		},
 																	},
@@ -18532,10 +18532,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 359, col: 49, offset: 10879},
 														expr: &actionExpr{
-															pos: position{line: 2878, col: 10, offset: 91246},
+															pos: position{line: 2880, col: 10, offset: 91317},
 															run: (*parser).callonDocumentHeader482,
 															expr: &charClassMatcher{
-																pos:        position{line: 2878, col: 10, offset: 91246},
+																pos:        position{line: 2880, col: 10, offset: 91317},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18544,28 +18544,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2900, col: 8, offset: 91644},
+														pos: position{line: 2902, col: 8, offset: 91715},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2887, col: 12, offset: 91417},
+																pos: position{line: 2889, col: 12, offset: 91488},
 																run: (*parser).callonDocumentHeader485,
 																expr: &choiceExpr{
-																	pos: position{line: 2887, col: 13, offset: 91418},
+																	pos: position{line: 2889, col: 13, offset: 91489},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2887, col: 13, offset: 91418},
+																			pos:        position{line: 2889, col: 13, offset: 91489},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2887, col: 20, offset: 91425},
+																			pos:        position{line: 2889, col: 20, offset: 91496},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2887, col: 29, offset: 91434},
+																			pos:        position{line: 2889, col: 29, offset: 91505},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18574,9 +18574,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2897, col: 8, offset: 91594},
+																pos: position{line: 2899, col: 8, offset: 91665},
 																expr: &anyMatcher{
-																	line: 2897, col: 9, offset: 91595,
+																	line: 2899, col: 9, offset: 91666,
 																},
 															},
 														},
@@ -18637,10 +18637,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 361, col: 39, offset: 11000},
 														expr: &actionExpr{
-															pos: position{line: 2878, col: 10, offset: 91246},
+															pos: position{line: 2880, col: 10, offset: 91317},
 															run: (*parser).callonDocumentHeader503,
 															expr: &charClassMatcher{
-																pos:        position{line: 2878, col: 10, offset: 91246},
+																pos:        position{line: 2880, col: 10, offset: 91317},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18649,28 +18649,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2900, col: 8, offset: 91644},
+														pos: position{line: 2902, col: 8, offset: 91715},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2887, col: 12, offset: 91417},
+																pos: position{line: 2889, col: 12, offset: 91488},
 																run: (*parser).callonDocumentHeader506,
 																expr: &choiceExpr{
-																	pos: position{line: 2887, col: 13, offset: 91418},
+																	pos: position{line: 2889, col: 13, offset: 91489},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2887, col: 13, offset: 91418},
+																			pos:        position{line: 2889, col: 13, offset: 91489},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2887, col: 20, offset: 91425},
+																			pos:        position{line: 2889, col: 20, offset: 91496},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2887, col: 29, offset: 91434},
+																			pos:        position{line: 2889, col: 29, offset: 91505},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18679,9 +18679,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2897, col: 8, offset: 91594},
+																pos: position{line: 2899, col: 8, offset: 91665},
 																expr: &anyMatcher{
-																	line: 2897, col: 9, offset: 91595,
+																	line: 2899, col: 9, offset: 91666,
 																},
 															},
 														},
@@ -18690,36 +18690,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2485, col: 22, offset: 80132},
+											pos: position{line: 2487, col: 22, offset: 80203},
 											run: (*parser).callonDocumentHeader513,
 											expr: &seqExpr{
-												pos: position{line: 2485, col: 22, offset: 80132},
+												pos: position{line: 2487, col: 22, offset: 80203},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2490, col: 31, offset: 80353},
+														pos:        position{line: 2492, col: 31, offset: 80424},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2490, col: 36, offset: 80358},
+														pos: position{line: 2492, col: 36, offset: 80429},
 														expr: &litMatcher{
-															pos:        position{line: 2490, col: 37, offset: 80359},
+															pos:        position{line: 2492, col: 37, offset: 80430},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2485, col: 49, offset: 80159},
+														pos:   position{line: 2487, col: 49, offset: 80230},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2824, col: 13, offset: 89772},
+															pos: position{line: 2826, col: 13, offset: 89843},
 															run: (*parser).callonDocumentHeader519,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2824, col: 13, offset: 89772},
+																pos: position{line: 2826, col: 13, offset: 89843},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2824, col: 13, offset: 89772},
+																	pos:        position{line: 2826, col: 13, offset: 89843},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -18729,28 +18729,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2900, col: 8, offset: 91644},
+														pos: position{line: 2902, col: 8, offset: 91715},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2887, col: 12, offset: 91417},
+																pos: position{line: 2889, col: 12, offset: 91488},
 																run: (*parser).callonDocumentHeader523,
 																expr: &choiceExpr{
-																	pos: position{line: 2887, col: 13, offset: 91418},
+																	pos: position{line: 2889, col: 13, offset: 91489},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2887, col: 13, offset: 91418},
+																			pos:        position{line: 2889, col: 13, offset: 91489},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2887, col: 20, offset: 91425},
+																			pos:        position{line: 2889, col: 20, offset: 91496},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2887, col: 29, offset: 91434},
+																			pos:        position{line: 2889, col: 29, offset: 91505},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18759,9 +18759,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2897, col: 8, offset: 91594},
+																pos: position{line: 2899, col: 8, offset: 91665},
 																expr: &anyMatcher{
-																	line: 2897, col: 9, offset: 91595,
+																	line: 2899, col: 9, offset: 91666,
 																},
 															},
 														},
@@ -18812,10 +18812,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 743, col: 8, offset: 23745},
 																	expr: &actionExpr{
-																		pos: position{line: 2878, col: 10, offset: 91246},
+																		pos: position{line: 2880, col: 10, offset: 91317},
 																		run: (*parser).callonDocumentHeader541,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2878, col: 10, offset: 91246},
+																			pos:        position{line: 2880, col: 10, offset: 91317},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18824,28 +18824,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2900, col: 8, offset: 91644},
+																	pos: position{line: 2902, col: 8, offset: 91715},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2887, col: 12, offset: 91417},
+																			pos: position{line: 2889, col: 12, offset: 91488},
 																			run: (*parser).callonDocumentHeader544,
 																			expr: &choiceExpr{
-																				pos: position{line: 2887, col: 13, offset: 91418},
+																				pos: position{line: 2889, col: 13, offset: 91489},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 13, offset: 91418},
+																						pos:        position{line: 2889, col: 13, offset: 91489},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 20, offset: 91425},
+																						pos:        position{line: 2889, col: 20, offset: 91496},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 29, offset: 91434},
+																						pos:        position{line: 2889, col: 29, offset: 91505},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18854,9 +18854,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2897, col: 8, offset: 91594},
+																			pos: position{line: 2899, col: 8, offset: 91665},
 																			expr: &anyMatcher{
-																				line: 2897, col: 9, offset: 91595,
+																				line: 2899, col: 9, offset: 91666,
 																			},
 																		},
 																	},
@@ -18917,10 +18917,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 743, col: 8, offset: 23745},
 																									expr: &actionExpr{
-																										pos: position{line: 2878, col: 10, offset: 91246},
+																										pos: position{line: 2880, col: 10, offset: 91317},
 																										run: (*parser).callonDocumentHeader566,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2878, col: 10, offset: 91246},
+																											pos:        position{line: 2880, col: 10, offset: 91317},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -18929,28 +18929,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2900, col: 8, offset: 91644},
+																									pos: position{line: 2902, col: 8, offset: 91715},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2887, col: 12, offset: 91417},
+																											pos: position{line: 2889, col: 12, offset: 91488},
 																											run: (*parser).callonDocumentHeader569,
 																											expr: &choiceExpr{
-																												pos: position{line: 2887, col: 13, offset: 91418},
+																												pos: position{line: 2889, col: 13, offset: 91489},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2887, col: 13, offset: 91418},
+																														pos:        position{line: 2889, col: 13, offset: 91489},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2887, col: 20, offset: 91425},
+																														pos:        position{line: 2889, col: 20, offset: 91496},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2887, col: 29, offset: 91434},
+																														pos:        position{line: 2889, col: 29, offset: 91505},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -18959,9 +18959,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2897, col: 8, offset: 91594},
+																											pos: position{line: 2899, col: 8, offset: 91665},
 																											expr: &anyMatcher{
-																												line: 2897, col: 9, offset: 91595,
+																												line: 2899, col: 9, offset: 91666,
 																											},
 																										},
 																									},
@@ -18970,9 +18970,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2897, col: 8, offset: 91594},
+																						pos: position{line: 2899, col: 8, offset: 91665},
 																						expr: &anyMatcher{
-																							line: 2897, col: 9, offset: 91595,
+																							line: 2899, col: 9, offset: 91666,
 																						},
 																					},
 																				},
@@ -18988,21 +18988,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2895, col: 11, offset: 91580},
+																							pos: position{line: 2897, col: 11, offset: 91651},
 																							expr: &anyMatcher{
-																								line: 2895, col: 13, offset: 91582,
+																								line: 2897, col: 13, offset: 91653,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2824, col: 13, offset: 89772},
+																								pos: position{line: 2826, col: 13, offset: 89843},
 																								run: (*parser).callonDocumentHeader584,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2824, col: 13, offset: 89772},
+																									pos: position{line: 2826, col: 13, offset: 89843},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2824, col: 13, offset: 89772},
+																										pos:        position{line: 2826, col: 13, offset: 89843},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -19012,28 +19012,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2900, col: 8, offset: 91644},
+																							pos: position{line: 2902, col: 8, offset: 91715},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2887, col: 12, offset: 91417},
+																									pos: position{line: 2889, col: 12, offset: 91488},
 																									run: (*parser).callonDocumentHeader588,
 																									expr: &choiceExpr{
-																										pos: position{line: 2887, col: 13, offset: 91418},
+																										pos: position{line: 2889, col: 13, offset: 91489},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 13, offset: 91418},
+																												pos:        position{line: 2889, col: 13, offset: 91489},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 20, offset: 91425},
+																												pos:        position{line: 2889, col: 20, offset: 91496},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 29, offset: 91434},
+																												pos:        position{line: 2889, col: 29, offset: 91505},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19042,9 +19042,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2897, col: 8, offset: 91594},
+																									pos: position{line: 2899, col: 8, offset: 91665},
 																									expr: &anyMatcher{
-																										line: 2897, col: 9, offset: 91595,
+																										line: 2899, col: 9, offset: 91666,
 																									},
 																								},
 																							},
@@ -19100,10 +19100,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 743, col: 8, offset: 23745},
 																				expr: &actionExpr{
-																					pos: position{line: 2878, col: 10, offset: 91246},
+																					pos: position{line: 2880, col: 10, offset: 91317},
 																					run: (*parser).callonDocumentHeader606,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2878, col: 10, offset: 91246},
+																						pos:        position{line: 2880, col: 10, offset: 91317},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -19112,28 +19112,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2900, col: 8, offset: 91644},
+																				pos: position{line: 2902, col: 8, offset: 91715},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2887, col: 12, offset: 91417},
+																						pos: position{line: 2889, col: 12, offset: 91488},
 																						run: (*parser).callonDocumentHeader609,
 																						expr: &choiceExpr{
-																							pos: position{line: 2887, col: 13, offset: 91418},
+																							pos: position{line: 2889, col: 13, offset: 91489},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2887, col: 13, offset: 91418},
+																									pos:        position{line: 2889, col: 13, offset: 91489},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2887, col: 20, offset: 91425},
+																									pos:        position{line: 2889, col: 20, offset: 91496},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2887, col: 29, offset: 91434},
+																									pos:        position{line: 2889, col: 29, offset: 91505},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -19142,9 +19142,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2897, col: 8, offset: 91594},
+																						pos: position{line: 2899, col: 8, offset: 91665},
 																						expr: &anyMatcher{
-																							line: 2897, col: 9, offset: 91595,
+																							line: 2899, col: 9, offset: 91666,
 																						},
 																					},
 																				},
@@ -19153,9 +19153,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2897, col: 8, offset: 91594},
+																	pos: position{line: 2899, col: 8, offset: 91665},
 																	expr: &anyMatcher{
-																		line: 2897, col: 9, offset: 91595,
+																		line: 2899, col: 9, offset: 91666,
 																	},
 																},
 															},
@@ -19188,12 +19188,12 @@ var g = &grammar{
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2882, col: 11, offset: 91307},
+							pos: position{line: 2884, col: 11, offset: 91378},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2882, col: 11, offset: 91307},
+								pos: position{line: 2884, col: 11, offset: 91378},
 								expr: &charClassMatcher{
-									pos:        position{line: 2882, col: 11, offset: 91307},
+									pos:        position{line: 2884, col: 11, offset: 91378},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19210,28 +19210,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2900, col: 8, offset: 91644},
+							pos: position{line: 2902, col: 8, offset: 91715},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2887, col: 12, offset: 91417},
+									pos: position{line: 2889, col: 12, offset: 91488},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2887, col: 13, offset: 91418},
+										pos: position{line: 2889, col: 13, offset: 91489},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2887, col: 13, offset: 91418},
+												pos:        position{line: 2889, col: 13, offset: 91489},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2887, col: 20, offset: 91425},
+												pos:        position{line: 2889, col: 20, offset: 91496},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2887, col: 29, offset: 91434},
+												pos:        position{line: 2889, col: 29, offset: 91505},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19240,9 +19240,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2897, col: 8, offset: 91594},
+									pos: position{line: 2899, col: 8, offset: 91665},
 									expr: &anyMatcher{
-										line: 2897, col: 9, offset: 91595,
+										line: 2899, col: 9, offset: 91666,
 									},
 								},
 							},
@@ -19281,10 +19281,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1145, col: 5, offset: 35355},
 							expr: &actionExpr{
-								pos: position{line: 2878, col: 10, offset: 91246},
+								pos: position{line: 2880, col: 10, offset: 91317},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2878, col: 10, offset: 91246},
+									pos:        position{line: 2880, col: 10, offset: 91317},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19316,10 +19316,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1149, col: 5, offset: 35454},
 							expr: &actionExpr{
-								pos: position{line: 2878, col: 10, offset: 91246},
+								pos: position{line: 2880, col: 10, offset: 91317},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2878, col: 10, offset: 91246},
+									pos:        position{line: 2880, col: 10, offset: 91317},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19351,10 +19351,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1153, col: 5, offset: 35551},
 							expr: &actionExpr{
-								pos: position{line: 2878, col: 10, offset: 91246},
+								pos: position{line: 2880, col: 10, offset: 91317},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2878, col: 10, offset: 91246},
+									pos:        position{line: 2880, col: 10, offset: 91317},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19420,12 +19420,12 @@ var g = &grammar{
 							pos:   position{line: 1285, col: 13, offset: 39899},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2863, col: 7, offset: 90898},
+								pos: position{line: 2865, col: 7, offset: 90969},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2863, col: 7, offset: 90898},
+									pos: position{line: 2865, col: 7, offset: 90969},
 									expr: &charClassMatcher{
-										pos:        position{line: 2863, col: 7, offset: 90898},
+										pos:        position{line: 2865, col: 7, offset: 90969},
 										val:        "[^[]<>,\\r\\n]",
 										chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 										ignoreCase: false,
@@ -19494,12 +19494,12 @@ var g = &grammar{
 							pos: position{line: 1296, col: 31, offset: 40359},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2772, col: 14, offset: 88394},
+									pos: position{line: 2774, col: 14, offset: 88465},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2772, col: 14, offset: 88394},
+										pos: position{line: 2774, col: 14, offset: 88465},
 										expr: &charClassMatcher{
-											pos:        position{line: 2772, col: 14, offset: 88394},
+											pos:        position{line: 2774, col: 14, offset: 88465},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -19512,10 +19512,10 @@ var g = &grammar{
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2878, col: 10, offset: 91246},
+									pos: position{line: 2880, col: 10, offset: 91317},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2878, col: 10, offset: 91246},
+										pos:        position{line: 2880, col: 10, offset: 91317},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -19523,23 +19523,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2472, col: 5, offset: 79678},
+									pos: position{line: 2474, col: 5, offset: 79749},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2472, col: 5, offset: 79678},
+										pos: position{line: 2474, col: 5, offset: 79749},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2472, col: 5, offset: 79678},
+												pos: position{line: 2474, col: 5, offset: 79749},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2475, col: 5, offset: 79754},
+												pos:   position{line: 2477, col: 5, offset: 79825},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2476, col: 9, offset: 79772},
+													pos: position{line: 2478, col: 9, offset: 79843},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2476, col: 10, offset: 79773},
+														pos:        position{line: 2478, col: 10, offset: 79844},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -19633,10 +19633,10 @@ var g = &grammar{
 							pos:   position{line: 1317, col: 5, offset: 41167},
 							label: "start",
 							expr: &actionExpr{
-								pos: position{line: 2903, col: 16, offset: 91768},
+								pos: position{line: 2905, col: 16, offset: 91839},
 								run: (*parser).callonImageBlock4,
 								expr: &litMatcher{
-									pos:        position{line: 2903, col: 16, offset: 91768},
+									pos:        position{line: 2905, col: 16, offset: 91839},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -19653,48 +19653,48 @@ var g = &grammar{
 							pos:   position{line: 1317, col: 35, offset: 41197},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2836, col: 13, offset: 90005},
+								pos: position{line: 2838, col: 13, offset: 90076},
 								run: (*parser).callonImageBlock8,
 								expr: &seqExpr{
-									pos: position{line: 2836, col: 13, offset: 90005},
+									pos: position{line: 2838, col: 13, offset: 90076},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2836, col: 13, offset: 90005},
+											pos:   position{line: 2838, col: 13, offset: 90076},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2836, col: 20, offset: 90012},
+												pos: position{line: 2838, col: 20, offset: 90083},
 												expr: &actionExpr{
-													pos: position{line: 2844, col: 11, offset: 90251},
+													pos: position{line: 2846, col: 11, offset: 90322},
 													run: (*parser).callonImageBlock12,
 													expr: &choiceExpr{
-														pos: position{line: 2844, col: 12, offset: 90252},
+														pos: position{line: 2846, col: 12, offset: 90323},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2844, col: 12, offset: 90252},
+																pos:        position{line: 2846, col: 12, offset: 90323},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2844, col: 24, offset: 90264},
+																pos:        position{line: 2846, col: 24, offset: 90335},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2844, col: 37, offset: 90277},
+																pos:        position{line: 2846, col: 37, offset: 90348},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2844, col: 48, offset: 90288},
+																pos:        position{line: 2846, col: 48, offset: 90359},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2844, col: 59, offset: 90299},
+																pos:        position{line: 2846, col: 59, offset: 90370},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19705,38 +19705,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2836, col: 30, offset: 90022},
+											pos:   position{line: 2838, col: 30, offset: 90093},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2849, col: 5, offset: 90363},
+												pos: position{line: 2851, col: 5, offset: 90434},
 												run: (*parser).callonImageBlock20,
 												expr: &labeledExpr{
-													pos:   position{line: 2849, col: 5, offset: 90363},
+													pos:   position{line: 2851, col: 5, offset: 90434},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2849, col: 14, offset: 90372},
+														pos: position{line: 2851, col: 14, offset: 90443},
 														expr: &choiceExpr{
-															pos: position{line: 2850, col: 9, offset: 90382},
+															pos: position{line: 2852, col: 9, offset: 90453},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2850, col: 9, offset: 90382},
+																	pos: position{line: 2852, col: 9, offset: 90453},
 																	run: (*parser).callonImageBlock24,
 																	expr: &seqExpr{
-																		pos: position{line: 2850, col: 9, offset: 90382},
+																		pos: position{line: 2852, col: 9, offset: 90453},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2850, col: 9, offset: 90382},
+																				pos: position{line: 2852, col: 9, offset: 90453},
 																				expr: &litMatcher{
-																					pos:        position{line: 2850, col: 10, offset: 90383},
+																					pos:        position{line: 2852, col: 10, offset: 90454},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2851, col: 9, offset: 90411},
+																				pos: position{line: 2853, col: 9, offset: 90482},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2851, col: 10, offset: 90412},
+																					pos:        position{line: 2853, col: 10, offset: 90483},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19747,27 +19747,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2854, col: 11, offset: 90624},
+																	pos: position{line: 2856, col: 11, offset: 90695},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2854, col: 11, offset: 90624},
+																			pos:        position{line: 2856, col: 11, offset: 90695},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2854, col: 19, offset: 90632},
+																			pos: position{line: 2856, col: 19, offset: 90703},
 																			expr: &seqExpr{
-																				pos: position{line: 2854, col: 21, offset: 90634},
+																				pos: position{line: 2856, col: 21, offset: 90705},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2854, col: 21, offset: 90634},
+																						pos: position{line: 2856, col: 21, offset: 90705},
 																						expr: &actionExpr{
-																							pos: position{line: 2878, col: 10, offset: 91246},
+																							pos: position{line: 2880, col: 10, offset: 91317},
 																							run: (*parser).callonImageBlock35,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2878, col: 10, offset: 91246},
+																								pos:        position{line: 2880, col: 10, offset: 91317},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19776,11 +19776,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2854, col: 28, offset: 90641},
+																						pos: position{line: 2856, col: 28, offset: 90712},
 																						expr: &notExpr{
-																							pos: position{line: 2897, col: 8, offset: 91594},
+																							pos: position{line: 2899, col: 8, offset: 91665},
 																							expr: &anyMatcher{
-																								line: 2897, col: 9, offset: 91595,
+																								line: 2899, col: 9, offset: 91666,
 																							},
 																						},
 																					},
@@ -20179,10 +20179,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2857, col: 11, offset: 90761},
+																	pos: position{line: 2859, col: 11, offset: 90832},
 																	run: (*parser).callonImageBlock118,
 																	expr: &litMatcher{
-																		pos:        position{line: 2857, col: 11, offset: 90761},
+																		pos:        position{line: 2859, col: 11, offset: 90832},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20209,10 +20209,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1317, col: 81, offset: 41243},
 							expr: &actionExpr{
-								pos: position{line: 2878, col: 10, offset: 91246},
+								pos: position{line: 2880, col: 10, offset: 91317},
 								run: (*parser).callonImageBlock123,
 								expr: &charClassMatcher{
-									pos:        position{line: 2878, col: 10, offset: 91246},
+									pos:        position{line: 2880, col: 10, offset: 91317},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -20224,10 +20224,10 @@ var g = &grammar{
 							pos:   position{line: 1317, col: 88, offset: 41250},
 							label: "end",
 							expr: &actionExpr{
-								pos: position{line: 2903, col: 16, offset: 91768},
+								pos: position{line: 2905, col: 16, offset: 91839},
 								run: (*parser).callonImageBlock126,
 								expr: &litMatcher{
-									pos:        position{line: 2903, col: 16, offset: 91768},
+									pos:        position{line: 2905, col: 16, offset: 91839},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -20239,28 +20239,28 @@ var g = &grammar{
 							run: (*parser).callonImageBlock128,
 						},
 						&choiceExpr{
-							pos: position{line: 2900, col: 8, offset: 91644},
+							pos: position{line: 2902, col: 8, offset: 91715},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2887, col: 12, offset: 91417},
+									pos: position{line: 2889, col: 12, offset: 91488},
 									run: (*parser).callonImageBlock130,
 									expr: &choiceExpr{
-										pos: position{line: 2887, col: 13, offset: 91418},
+										pos: position{line: 2889, col: 13, offset: 91489},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2887, col: 13, offset: 91418},
+												pos:        position{line: 2889, col: 13, offset: 91489},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2887, col: 20, offset: 91425},
+												pos:        position{line: 2889, col: 20, offset: 91496},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2887, col: 29, offset: 91434},
+												pos:        position{line: 2889, col: 29, offset: 91505},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -20269,9 +20269,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2897, col: 8, offset: 91594},
+									pos: position{line: 2899, col: 8, offset: 91665},
 									expr: &anyMatcher{
-										line: 2897, col: 9, offset: 91595,
+										line: 2899, col: 9, offset: 91666,
 									},
 								},
 							},
@@ -20308,48 +20308,48 @@ var g = &grammar{
 							pos:   position{line: 1322, col: 30, offset: 41537},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2836, col: 13, offset: 90005},
+								pos: position{line: 2838, col: 13, offset: 90076},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2836, col: 13, offset: 90005},
+									pos: position{line: 2838, col: 13, offset: 90076},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2836, col: 13, offset: 90005},
+											pos:   position{line: 2838, col: 13, offset: 90076},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2836, col: 20, offset: 90012},
+												pos: position{line: 2838, col: 20, offset: 90083},
 												expr: &actionExpr{
-													pos: position{line: 2844, col: 11, offset: 90251},
+													pos: position{line: 2846, col: 11, offset: 90322},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2844, col: 12, offset: 90252},
+														pos: position{line: 2846, col: 12, offset: 90323},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2844, col: 12, offset: 90252},
+																pos:        position{line: 2846, col: 12, offset: 90323},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2844, col: 24, offset: 90264},
+																pos:        position{line: 2846, col: 24, offset: 90335},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2844, col: 37, offset: 90277},
+																pos:        position{line: 2846, col: 37, offset: 90348},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2844, col: 48, offset: 90288},
+																pos:        position{line: 2846, col: 48, offset: 90359},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2844, col: 59, offset: 90299},
+																pos:        position{line: 2846, col: 59, offset: 90370},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20360,38 +20360,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2836, col: 30, offset: 90022},
+											pos:   position{line: 2838, col: 30, offset: 90093},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2849, col: 5, offset: 90363},
+												pos: position{line: 2851, col: 5, offset: 90434},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2849, col: 5, offset: 90363},
+													pos:   position{line: 2851, col: 5, offset: 90434},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2849, col: 14, offset: 90372},
+														pos: position{line: 2851, col: 14, offset: 90443},
 														expr: &choiceExpr{
-															pos: position{line: 2850, col: 9, offset: 90382},
+															pos: position{line: 2852, col: 9, offset: 90453},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2850, col: 9, offset: 90382},
+																	pos: position{line: 2852, col: 9, offset: 90453},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2850, col: 9, offset: 90382},
+																		pos: position{line: 2852, col: 9, offset: 90453},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2850, col: 9, offset: 90382},
+																				pos: position{line: 2852, col: 9, offset: 90453},
 																				expr: &litMatcher{
-																					pos:        position{line: 2850, col: 10, offset: 90383},
+																					pos:        position{line: 2852, col: 10, offset: 90454},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2851, col: 9, offset: 90411},
+																				pos: position{line: 2853, col: 9, offset: 90482},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2851, col: 10, offset: 90412},
+																					pos:        position{line: 2853, col: 10, offset: 90483},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20402,27 +20402,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2854, col: 11, offset: 90624},
+																	pos: position{line: 2856, col: 11, offset: 90695},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2854, col: 11, offset: 90624},
+																			pos:        position{line: 2856, col: 11, offset: 90695},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2854, col: 19, offset: 90632},
+																			pos: position{line: 2856, col: 19, offset: 90703},
 																			expr: &seqExpr{
-																				pos: position{line: 2854, col: 21, offset: 90634},
+																				pos: position{line: 2856, col: 21, offset: 90705},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2854, col: 21, offset: 90634},
+																						pos: position{line: 2856, col: 21, offset: 90705},
 																						expr: &actionExpr{
-																							pos: position{line: 2878, col: 10, offset: 91246},
+																							pos: position{line: 2880, col: 10, offset: 91317},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2878, col: 10, offset: 91246},
+																								pos:        position{line: 2880, col: 10, offset: 91317},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20431,11 +20431,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2854, col: 28, offset: 90641},
+																						pos: position{line: 2856, col: 28, offset: 90712},
 																						expr: &notExpr{
-																							pos: position{line: 2897, col: 8, offset: 91594},
+																							pos: position{line: 2899, col: 8, offset: 91665},
 																							expr: &anyMatcher{
-																								line: 2897, col: 9, offset: 91595,
+																								line: 2899, col: 9, offset: 91666,
 																							},
 																						},
 																					},
@@ -20834,10 +20834,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2857, col: 11, offset: 90761},
+																	pos: position{line: 2859, col: 11, offset: 90832},
 																	run: (*parser).callonInlineImage117,
 																	expr: &litMatcher{
-																		pos:        position{line: 2857, col: 11, offset: 90761},
+																		pos:        position{line: 2859, col: 11, offset: 90832},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -21016,21 +21016,21 @@ var g = &grammar{
 								pos: position{line: 1349, col: 9, offset: 42823},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2777, col: 5, offset: 88467},
+										pos: position{line: 2779, col: 5, offset: 88538},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2777, col: 5, offset: 88467},
+											pos: position{line: 2779, col: 5, offset: 88538},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2777, col: 5, offset: 88467},
+													pos:   position{line: 2779, col: 5, offset: 88538},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2777, col: 11, offset: 88473},
+														pos: position{line: 2779, col: 11, offset: 88544},
 														run: (*parser).callonFootnoteElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2777, col: 11, offset: 88473},
+															pos: position{line: 2779, col: 11, offset: 88544},
 															expr: &charClassMatcher{
-																pos:        position{line: 2777, col: 11, offset: 88473},
+																pos:        position{line: 2779, col: 11, offset: 88544},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21040,44 +21040,44 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2780, col: 5, offset: 88531},
+													pos: position{line: 2782, col: 5, offset: 88602},
 													expr: &seqExpr{
-														pos: position{line: 2781, col: 9, offset: 88542},
+														pos: position{line: 2783, col: 9, offset: 88613},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2781, col: 9, offset: 88542},
+																pos:        position{line: 2783, col: 9, offset: 88613},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2782, col: 9, offset: 88591},
+																pos: position{line: 2784, col: 9, offset: 88662},
 																run: (*parser).callonFootnoteElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2786, col: 5, offset: 88671},
+													pos: position{line: 2788, col: 5, offset: 88742},
 													expr: &seqExpr{
-														pos: position{line: 2787, col: 9, offset: 88682},
+														pos: position{line: 2789, col: 9, offset: 88753},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2787, col: 9, offset: 88682},
+																pos: position{line: 2789, col: 9, offset: 88753},
 																expr: &seqExpr{
-																	pos: position{line: 2787, col: 10, offset: 88683},
+																	pos: position{line: 2789, col: 10, offset: 88754},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2787, col: 10, offset: 88683},
+																			pos:        position{line: 2789, col: 10, offset: 88754},
 																			val:        "[._%+-]",
 																			chars:      []rune{'.', '_', '%', '+', '-'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2787, col: 18, offset: 88691},
+																			pos: position{line: 2789, col: 18, offset: 88762},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2787, col: 18, offset: 88691},
+																				pos:        position{line: 2789, col: 18, offset: 88762},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -21088,13 +21088,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2787, col: 30, offset: 88703},
+																pos:        position{line: 2789, col: 30, offset: 88774},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2787, col: 34, offset: 88707},
+																pos:        position{line: 2789, col: 34, offset: 88778},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21107,12 +21107,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2882, col: 11, offset: 91307},
+										pos: position{line: 2884, col: 11, offset: 91378},
 										run: (*parser).callonFootnoteElement26,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2882, col: 11, offset: 91307},
+											pos: position{line: 2884, col: 11, offset: 91378},
 											expr: &charClassMatcher{
-												pos:        position{line: 2882, col: 11, offset: 91307},
+												pos:        position{line: 2884, col: 11, offset: 91378},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -21121,25 +21121,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2503, col: 5, offset: 80849},
+										pos: position{line: 2505, col: 5, offset: 80920},
 										run: (*parser).callonFootnoteElement29,
 										expr: &seqExpr{
-											pos: position{line: 2503, col: 5, offset: 80849},
+											pos: position{line: 2505, col: 5, offset: 80920},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2503, col: 5, offset: 80849},
+													pos: position{line: 2505, col: 5, offset: 80920},
 													run: (*parser).callonFootnoteElement31,
 												},
 												&litMatcher{
-													pos:        position{line: 2506, col: 5, offset: 80920},
+													pos:        position{line: 2508, col: 5, offset: 80991},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2506, col: 10, offset: 80925},
+													pos: position{line: 2508, col: 10, offset: 80996},
 													expr: &charClassMatcher{
-														pos:        position{line: 2506, col: 11, offset: 80926},
+														pos:        position{line: 2508, col: 11, offset: 80997},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21150,29 +21150,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2512, col: 5, offset: 81118},
+										pos: position{line: 2514, col: 5, offset: 81189},
 										run: (*parser).callonFootnoteElement35,
 										expr: &seqExpr{
-											pos: position{line: 2512, col: 5, offset: 81118},
+											pos: position{line: 2514, col: 5, offset: 81189},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2512, col: 5, offset: 81118},
+													pos: position{line: 2514, col: 5, offset: 81189},
 													run: (*parser).callonFootnoteElement37,
 												},
 												&andCodeExpr{
-													pos: position{line: 2515, col: 5, offset: 81189},
+													pos: position{line: 2517, col: 5, offset: 81260},
 													run: (*parser).callonFootnoteElement38,
 												},
 												&litMatcher{
-													pos:        position{line: 2519, col: 5, offset: 81314},
+													pos:        position{line: 2521, col: 5, offset: 81385},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2519, col: 9, offset: 81318},
+													pos: position{line: 2521, col: 9, offset: 81389},
 													expr: &charClassMatcher{
-														pos:        position{line: 2519, col: 10, offset: 81319},
+														pos:        position{line: 2521, col: 10, offset: 81390},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21191,27 +21191,27 @@ var g = &grammar{
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2795, col: 5, offset: 88900},
+										pos: position{line: 2797, col: 5, offset: 88971},
 										run: (*parser).callonFootnoteElement44,
 										expr: &choiceExpr{
-											pos: position{line: 2796, col: 9, offset: 88910},
+											pos: position{line: 2798, col: 9, offset: 88981},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2796, col: 10, offset: 88911},
+													pos:        position{line: 2798, col: 10, offset: 88982},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2798, col: 13, offset: 89008},
+													pos: position{line: 2800, col: 13, offset: 89079},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2798, col: 13, offset: 89008},
+															pos: position{line: 2800, col: 13, offset: 89079},
 															run: (*parser).callonFootnoteElement48,
 														},
 														&litMatcher{
-															pos:        position{line: 2801, col: 13, offset: 89108},
+															pos:        position{line: 2803, col: 13, offset: 89179},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -21219,20 +21219,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2801, col: 19, offset: 89114},
+													pos:        position{line: 2803, col: 19, offset: 89185},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2804, col: 13, offset: 89152},
+													pos: position{line: 2806, col: 13, offset: 89223},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2804, col: 13, offset: 89152},
+															pos: position{line: 2806, col: 13, offset: 89223},
 															run: (*parser).callonFootnoteElement52,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2807, col: 14, offset: 89245},
+															pos:        position{line: 2809, col: 14, offset: 89316},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -21241,18 +21241,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2809, col: 12, offset: 89289},
+													pos: position{line: 2811, col: 12, offset: 89360},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2809, col: 12, offset: 89289},
+															pos:        position{line: 2811, col: 12, offset: 89360},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2809, col: 16, offset: 89293},
+															pos: position{line: 2811, col: 16, offset: 89364},
 															expr: &litMatcher{
-																pos:        position{line: 2809, col: 17, offset: 89294},
+																pos:        position{line: 2811, col: 17, offset: 89365},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -21290,10 +21290,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 1219, col: 5, offset: 37756},
 													expr: &actionExpr{
-														pos: position{line: 2878, col: 10, offset: 91246},
+														pos: position{line: 2880, col: 10, offset: 91317},
 														run: (*parser).callonFootnoteElement65,
 														expr: &charClassMatcher{
-															pos:        position{line: 2878, col: 10, offset: 91246},
+															pos:        position{line: 2880, col: 10, offset: 91317},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -21304,28 +21304,28 @@ var g = &grammar{
 												&andExpr{
 													pos: position{line: 1219, col: 12, offset: 37763},
 													expr: &choiceExpr{
-														pos: position{line: 2900, col: 8, offset: 91644},
+														pos: position{line: 2902, col: 8, offset: 91715},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2887, col: 12, offset: 91417},
+																pos: position{line: 2889, col: 12, offset: 91488},
 																run: (*parser).callonFootnoteElement69,
 																expr: &choiceExpr{
-																	pos: position{line: 2887, col: 13, offset: 91418},
+																	pos: position{line: 2889, col: 13, offset: 91489},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2887, col: 13, offset: 91418},
+																			pos:        position{line: 2889, col: 13, offset: 91489},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2887, col: 20, offset: 91425},
+																			pos:        position{line: 2889, col: 20, offset: 91496},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2887, col: 29, offset: 91434},
+																			pos:        position{line: 2889, col: 29, offset: 91505},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -21334,9 +21334,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2897, col: 8, offset: 91594},
+																pos: position{line: 2899, col: 8, offset: 91665},
 																expr: &anyMatcher{
-																	line: 2897, col: 9, offset: 91595,
+																	line: 2899, col: 9, offset: 91666,
 																},
 															},
 														},
@@ -21692,23 +21692,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2472, col: 5, offset: 79678},
+										pos: position{line: 2474, col: 5, offset: 79749},
 										run: (*parser).callonFootnoteElement145,
 										expr: &seqExpr{
-											pos: position{line: 2472, col: 5, offset: 79678},
+											pos: position{line: 2474, col: 5, offset: 79749},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2472, col: 5, offset: 79678},
+													pos: position{line: 2474, col: 5, offset: 79749},
 													run: (*parser).callonFootnoteElement147,
 												},
 												&labeledExpr{
-													pos:   position{line: 2475, col: 5, offset: 79754},
+													pos:   position{line: 2477, col: 5, offset: 79825},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2476, col: 9, offset: 79772},
+														pos: position{line: 2478, col: 9, offset: 79843},
 														run: (*parser).callonFootnoteElement149,
 														expr: &charClassMatcher{
-															pos:        position{line: 2476, col: 10, offset: 79773},
+															pos:        position{line: 2478, col: 10, offset: 79844},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -21720,25 +21720,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2887, col: 12, offset: 91417},
+										pos: position{line: 2889, col: 12, offset: 91488},
 										run: (*parser).callonFootnoteElement151,
 										expr: &choiceExpr{
-											pos: position{line: 2887, col: 13, offset: 91418},
+											pos: position{line: 2889, col: 13, offset: 91489},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2887, col: 13, offset: 91418},
+													pos:        position{line: 2889, col: 13, offset: 91489},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2887, col: 20, offset: 91425},
+													pos:        position{line: 2889, col: 20, offset: 91496},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2887, col: 29, offset: 91434},
+													pos:        position{line: 2889, col: 29, offset: 91505},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -21747,10 +21747,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2817, col: 12, offset: 89554},
+										pos: position{line: 2819, col: 12, offset: 89625},
 										run: (*parser).callonFootnoteElement156,
 										expr: &charClassMatcher{
-											pos:        position{line: 2817, col: 12, offset: 89554},
+											pos:        position{line: 2819, col: 12, offset: 89625},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -21902,55 +21902,55 @@ var g = &grammar{
 									pos:   position{line: 1421, col: 5, offset: 45793},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2840, col: 23, offset: 90132},
+										pos: position{line: 2842, col: 23, offset: 90203},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2840, col: 23, offset: 90132},
+											pos: position{line: 2842, col: 23, offset: 90203},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2840, col: 23, offset: 90132},
+													pos: position{line: 2842, col: 23, offset: 90203},
 													expr: &litMatcher{
-														pos:        position{line: 2840, col: 24, offset: 90133},
+														pos:        position{line: 2842, col: 24, offset: 90204},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2840, col: 28, offset: 90137},
+													pos:   position{line: 2842, col: 28, offset: 90208},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2844, col: 11, offset: 90251},
+														pos: position{line: 2846, col: 11, offset: 90322},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2844, col: 12, offset: 90252},
+															pos: position{line: 2846, col: 12, offset: 90323},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2844, col: 12, offset: 90252},
+																	pos:        position{line: 2846, col: 12, offset: 90323},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2844, col: 24, offset: 90264},
+																	pos:        position{line: 2846, col: 24, offset: 90335},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2844, col: 37, offset: 90277},
+																	pos:        position{line: 2846, col: 37, offset: 90348},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2844, col: 48, offset: 90288},
+																	pos:        position{line: 2846, col: 48, offset: 90359},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2844, col: 59, offset: 90299},
+																	pos:        position{line: 2846, col: 59, offset: 90370},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -21960,38 +21960,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2840, col: 44, offset: 90153},
+													pos:   position{line: 2842, col: 44, offset: 90224},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2849, col: 5, offset: 90363},
+														pos: position{line: 2851, col: 5, offset: 90434},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2849, col: 5, offset: 90363},
+															pos:   position{line: 2851, col: 5, offset: 90434},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2849, col: 14, offset: 90372},
+																pos: position{line: 2851, col: 14, offset: 90443},
 																expr: &choiceExpr{
-																	pos: position{line: 2850, col: 9, offset: 90382},
+																	pos: position{line: 2852, col: 9, offset: 90453},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2850, col: 9, offset: 90382},
+																			pos: position{line: 2852, col: 9, offset: 90453},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2850, col: 9, offset: 90382},
+																				pos: position{line: 2852, col: 9, offset: 90453},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2850, col: 9, offset: 90382},
+																						pos: position{line: 2852, col: 9, offset: 90453},
 																						expr: &litMatcher{
-																							pos:        position{line: 2850, col: 10, offset: 90383},
+																							pos:        position{line: 2852, col: 10, offset: 90454},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2851, col: 9, offset: 90411},
+																						pos: position{line: 2853, col: 9, offset: 90482},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2851, col: 10, offset: 90412},
+																							pos:        position{line: 2853, col: 10, offset: 90483},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22002,27 +22002,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2854, col: 11, offset: 90624},
+																			pos: position{line: 2856, col: 11, offset: 90695},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2854, col: 11, offset: 90624},
+																					pos:        position{line: 2856, col: 11, offset: 90695},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2854, col: 19, offset: 90632},
+																					pos: position{line: 2856, col: 19, offset: 90703},
 																					expr: &seqExpr{
-																						pos: position{line: 2854, col: 21, offset: 90634},
+																						pos: position{line: 2856, col: 21, offset: 90705},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2854, col: 21, offset: 90634},
+																								pos: position{line: 2856, col: 21, offset: 90705},
 																								expr: &actionExpr{
-																									pos: position{line: 2878, col: 10, offset: 91246},
+																									pos: position{line: 2880, col: 10, offset: 91317},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2878, col: 10, offset: 91246},
+																										pos:        position{line: 2880, col: 10, offset: 91317},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22031,11 +22031,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2854, col: 28, offset: 90641},
+																								pos: position{line: 2856, col: 28, offset: 90712},
 																								expr: &notExpr{
-																									pos: position{line: 2897, col: 8, offset: 91594},
+																									pos: position{line: 2899, col: 8, offset: 91665},
 																									expr: &anyMatcher{
-																										line: 2897, col: 9, offset: 91595,
+																										line: 2899, col: 9, offset: 91666,
 																									},
 																								},
 																							},
@@ -22434,10 +22434,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2857, col: 11, offset: 90761},
+																			pos: position{line: 2859, col: 11, offset: 90832},
 																			run: (*parser).callonLink117,
 																			expr: &litMatcher{
-																				pos:        position{line: 2857, col: 11, offset: 90761},
+																				pos:        position{line: 2859, col: 11, offset: 90832},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22642,48 +22642,48 @@ var g = &grammar{
 									pos:   position{line: 1434, col: 17, offset: 46208},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2836, col: 13, offset: 90005},
+										pos: position{line: 2838, col: 13, offset: 90076},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2836, col: 13, offset: 90005},
+											pos: position{line: 2838, col: 13, offset: 90076},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2836, col: 13, offset: 90005},
+													pos:   position{line: 2838, col: 13, offset: 90076},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2836, col: 20, offset: 90012},
+														pos: position{line: 2838, col: 20, offset: 90083},
 														expr: &actionExpr{
-															pos: position{line: 2844, col: 11, offset: 90251},
+															pos: position{line: 2846, col: 11, offset: 90322},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2844, col: 12, offset: 90252},
+																pos: position{line: 2846, col: 12, offset: 90323},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2844, col: 12, offset: 90252},
+																		pos:        position{line: 2846, col: 12, offset: 90323},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2844, col: 24, offset: 90264},
+																		pos:        position{line: 2846, col: 24, offset: 90335},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2844, col: 37, offset: 90277},
+																		pos:        position{line: 2846, col: 37, offset: 90348},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2844, col: 48, offset: 90288},
+																		pos:        position{line: 2846, col: 48, offset: 90359},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2844, col: 59, offset: 90299},
+																		pos:        position{line: 2846, col: 59, offset: 90370},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22694,38 +22694,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2836, col: 30, offset: 90022},
+													pos:   position{line: 2838, col: 30, offset: 90093},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2849, col: 5, offset: 90363},
+														pos: position{line: 2851, col: 5, offset: 90434},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2849, col: 5, offset: 90363},
+															pos:   position{line: 2851, col: 5, offset: 90434},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2849, col: 14, offset: 90372},
+																pos: position{line: 2851, col: 14, offset: 90443},
 																expr: &choiceExpr{
-																	pos: position{line: 2850, col: 9, offset: 90382},
+																	pos: position{line: 2852, col: 9, offset: 90453},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2850, col: 9, offset: 90382},
+																			pos: position{line: 2852, col: 9, offset: 90453},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2850, col: 9, offset: 90382},
+																				pos: position{line: 2852, col: 9, offset: 90453},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2850, col: 9, offset: 90382},
+																						pos: position{line: 2852, col: 9, offset: 90453},
 																						expr: &litMatcher{
-																							pos:        position{line: 2850, col: 10, offset: 90383},
+																							pos:        position{line: 2852, col: 10, offset: 90454},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2851, col: 9, offset: 90411},
+																						pos: position{line: 2853, col: 9, offset: 90482},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2851, col: 10, offset: 90412},
+																							pos:        position{line: 2853, col: 10, offset: 90483},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22736,27 +22736,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2854, col: 11, offset: 90624},
+																			pos: position{line: 2856, col: 11, offset: 90695},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2854, col: 11, offset: 90624},
+																					pos:        position{line: 2856, col: 11, offset: 90695},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2854, col: 19, offset: 90632},
+																					pos: position{line: 2856, col: 19, offset: 90703},
 																					expr: &seqExpr{
-																						pos: position{line: 2854, col: 21, offset: 90634},
+																						pos: position{line: 2856, col: 21, offset: 90705},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2854, col: 21, offset: 90634},
+																								pos: position{line: 2856, col: 21, offset: 90705},
 																								expr: &actionExpr{
-																									pos: position{line: 2878, col: 10, offset: 91246},
+																									pos: position{line: 2880, col: 10, offset: 91317},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2878, col: 10, offset: 91246},
+																										pos:        position{line: 2880, col: 10, offset: 91317},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22765,11 +22765,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2854, col: 28, offset: 90641},
+																								pos: position{line: 2856, col: 28, offset: 90712},
 																								expr: &notExpr{
-																									pos: position{line: 2897, col: 8, offset: 91594},
+																									pos: position{line: 2899, col: 8, offset: 91665},
 																									expr: &anyMatcher{
-																										line: 2897, col: 9, offset: 91595,
+																										line: 2899, col: 9, offset: 91666,
 																									},
 																								},
 																							},
@@ -23168,10 +23168,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2857, col: 11, offset: 90761},
+																			pos: position{line: 2859, col: 11, offset: 90832},
 																			run: (*parser).callonRelativeLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2857, col: 11, offset: 90761},
+																				pos:        position{line: 2859, col: 11, offset: 90832},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23214,48 +23214,48 @@ var g = &grammar{
 									pos:   position{line: 1439, col: 13, offset: 46418},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2836, col: 13, offset: 90005},
+										pos: position{line: 2838, col: 13, offset: 90076},
 										run: (*parser).callonRelativeLink124,
 										expr: &seqExpr{
-											pos: position{line: 2836, col: 13, offset: 90005},
+											pos: position{line: 2838, col: 13, offset: 90076},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2836, col: 13, offset: 90005},
+													pos:   position{line: 2838, col: 13, offset: 90076},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2836, col: 20, offset: 90012},
+														pos: position{line: 2838, col: 20, offset: 90083},
 														expr: &actionExpr{
-															pos: position{line: 2844, col: 11, offset: 90251},
+															pos: position{line: 2846, col: 11, offset: 90322},
 															run: (*parser).callonRelativeLink128,
 															expr: &choiceExpr{
-																pos: position{line: 2844, col: 12, offset: 90252},
+																pos: position{line: 2846, col: 12, offset: 90323},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2844, col: 12, offset: 90252},
+																		pos:        position{line: 2846, col: 12, offset: 90323},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2844, col: 24, offset: 90264},
+																		pos:        position{line: 2846, col: 24, offset: 90335},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2844, col: 37, offset: 90277},
+																		pos:        position{line: 2846, col: 37, offset: 90348},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2844, col: 48, offset: 90288},
+																		pos:        position{line: 2846, col: 48, offset: 90359},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2844, col: 59, offset: 90299},
+																		pos:        position{line: 2846, col: 59, offset: 90370},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23266,38 +23266,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2836, col: 30, offset: 90022},
+													pos:   position{line: 2838, col: 30, offset: 90093},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2849, col: 5, offset: 90363},
+														pos: position{line: 2851, col: 5, offset: 90434},
 														run: (*parser).callonRelativeLink136,
 														expr: &labeledExpr{
-															pos:   position{line: 2849, col: 5, offset: 90363},
+															pos:   position{line: 2851, col: 5, offset: 90434},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2849, col: 14, offset: 90372},
+																pos: position{line: 2851, col: 14, offset: 90443},
 																expr: &choiceExpr{
-																	pos: position{line: 2850, col: 9, offset: 90382},
+																	pos: position{line: 2852, col: 9, offset: 90453},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2850, col: 9, offset: 90382},
+																			pos: position{line: 2852, col: 9, offset: 90453},
 																			run: (*parser).callonRelativeLink140,
 																			expr: &seqExpr{
-																				pos: position{line: 2850, col: 9, offset: 90382},
+																				pos: position{line: 2852, col: 9, offset: 90453},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2850, col: 9, offset: 90382},
+																						pos: position{line: 2852, col: 9, offset: 90453},
 																						expr: &litMatcher{
-																							pos:        position{line: 2850, col: 10, offset: 90383},
+																							pos:        position{line: 2852, col: 10, offset: 90454},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2851, col: 9, offset: 90411},
+																						pos: position{line: 2853, col: 9, offset: 90482},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2851, col: 10, offset: 90412},
+																							pos:        position{line: 2853, col: 10, offset: 90483},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23308,27 +23308,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2854, col: 11, offset: 90624},
+																			pos: position{line: 2856, col: 11, offset: 90695},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2854, col: 11, offset: 90624},
+																					pos:        position{line: 2856, col: 11, offset: 90695},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2854, col: 19, offset: 90632},
+																					pos: position{line: 2856, col: 19, offset: 90703},
 																					expr: &seqExpr{
-																						pos: position{line: 2854, col: 21, offset: 90634},
+																						pos: position{line: 2856, col: 21, offset: 90705},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2854, col: 21, offset: 90634},
+																								pos: position{line: 2856, col: 21, offset: 90705},
 																								expr: &actionExpr{
-																									pos: position{line: 2878, col: 10, offset: 91246},
+																									pos: position{line: 2880, col: 10, offset: 91317},
 																									run: (*parser).callonRelativeLink151,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2878, col: 10, offset: 91246},
+																										pos:        position{line: 2880, col: 10, offset: 91317},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23337,11 +23337,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2854, col: 28, offset: 90641},
+																								pos: position{line: 2856, col: 28, offset: 90712},
 																								expr: &notExpr{
-																									pos: position{line: 2897, col: 8, offset: 91594},
+																									pos: position{line: 2899, col: 8, offset: 91665},
 																									expr: &anyMatcher{
-																										line: 2897, col: 9, offset: 91595,
+																										line: 2899, col: 9, offset: 91666,
 																									},
 																								},
 																							},
@@ -23740,10 +23740,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2857, col: 11, offset: 90761},
+																			pos: position{line: 2859, col: 11, offset: 90832},
 																			run: (*parser).callonRelativeLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2857, col: 11, offset: 90761},
+																				pos:        position{line: 2859, col: 11, offset: 90832},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23795,55 +23795,55 @@ var g = &grammar{
 									pos:   position{line: 1446, col: 9, offset: 46727},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2840, col: 23, offset: 90132},
+										pos: position{line: 2842, col: 23, offset: 90203},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2840, col: 23, offset: 90132},
+											pos: position{line: 2842, col: 23, offset: 90203},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2840, col: 23, offset: 90132},
+													pos: position{line: 2842, col: 23, offset: 90203},
 													expr: &litMatcher{
-														pos:        position{line: 2840, col: 24, offset: 90133},
+														pos:        position{line: 2842, col: 24, offset: 90204},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2840, col: 28, offset: 90137},
+													pos:   position{line: 2842, col: 28, offset: 90208},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2844, col: 11, offset: 90251},
+														pos: position{line: 2846, col: 11, offset: 90322},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2844, col: 12, offset: 90252},
+															pos: position{line: 2846, col: 12, offset: 90323},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2844, col: 12, offset: 90252},
+																	pos:        position{line: 2846, col: 12, offset: 90323},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2844, col: 24, offset: 90264},
+																	pos:        position{line: 2846, col: 24, offset: 90335},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2844, col: 37, offset: 90277},
+																	pos:        position{line: 2846, col: 37, offset: 90348},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2844, col: 48, offset: 90288},
+																	pos:        position{line: 2846, col: 48, offset: 90359},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2844, col: 59, offset: 90299},
+																	pos:        position{line: 2846, col: 59, offset: 90370},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23853,38 +23853,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2840, col: 44, offset: 90153},
+													pos:   position{line: 2842, col: 44, offset: 90224},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2849, col: 5, offset: 90363},
+														pos: position{line: 2851, col: 5, offset: 90434},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2849, col: 5, offset: 90363},
+															pos:   position{line: 2851, col: 5, offset: 90434},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2849, col: 14, offset: 90372},
+																pos: position{line: 2851, col: 14, offset: 90443},
 																expr: &choiceExpr{
-																	pos: position{line: 2850, col: 9, offset: 90382},
+																	pos: position{line: 2852, col: 9, offset: 90453},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2850, col: 9, offset: 90382},
+																			pos: position{line: 2852, col: 9, offset: 90453},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2850, col: 9, offset: 90382},
+																				pos: position{line: 2852, col: 9, offset: 90453},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2850, col: 9, offset: 90382},
+																						pos: position{line: 2852, col: 9, offset: 90453},
 																						expr: &litMatcher{
-																							pos:        position{line: 2850, col: 10, offset: 90383},
+																							pos:        position{line: 2852, col: 10, offset: 90454},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2851, col: 9, offset: 90411},
+																						pos: position{line: 2853, col: 9, offset: 90482},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2851, col: 10, offset: 90412},
+																							pos:        position{line: 2853, col: 10, offset: 90483},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23895,27 +23895,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2854, col: 11, offset: 90624},
+																			pos: position{line: 2856, col: 11, offset: 90695},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2854, col: 11, offset: 90624},
+																					pos:        position{line: 2856, col: 11, offset: 90695},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2854, col: 19, offset: 90632},
+																					pos: position{line: 2856, col: 19, offset: 90703},
 																					expr: &seqExpr{
-																						pos: position{line: 2854, col: 21, offset: 90634},
+																						pos: position{line: 2856, col: 21, offset: 90705},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2854, col: 21, offset: 90634},
+																								pos: position{line: 2856, col: 21, offset: 90705},
 																								expr: &actionExpr{
-																									pos: position{line: 2878, col: 10, offset: 91246},
+																									pos: position{line: 2880, col: 10, offset: 91317},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2878, col: 10, offset: 91246},
+																										pos:        position{line: 2880, col: 10, offset: 91317},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23924,11 +23924,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2854, col: 28, offset: 90641},
+																								pos: position{line: 2856, col: 28, offset: 90712},
 																								expr: &notExpr{
-																									pos: position{line: 2897, col: 8, offset: 91594},
+																									pos: position{line: 2899, col: 8, offset: 91665},
 																									expr: &anyMatcher{
-																										line: 2897, col: 9, offset: 91595,
+																										line: 2899, col: 9, offset: 91666,
 																									},
 																								},
 																							},
@@ -24327,10 +24327,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2857, col: 11, offset: 90761},
+																			pos: position{line: 2859, col: 11, offset: 90832},
 																			run: (*parser).callonExternalLink117,
 																			expr: &litMatcher{
-																				pos:        position{line: 2857, col: 11, offset: 90761},
+																				pos:        position{line: 2859, col: 11, offset: 90832},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24370,55 +24370,55 @@ var g = &grammar{
 									pos:   position{line: 1451, col: 5, offset: 46940},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2840, col: 23, offset: 90132},
+										pos: position{line: 2842, col: 23, offset: 90203},
 										run: (*parser).callonExternalLink125,
 										expr: &seqExpr{
-											pos: position{line: 2840, col: 23, offset: 90132},
+											pos: position{line: 2842, col: 23, offset: 90203},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2840, col: 23, offset: 90132},
+													pos: position{line: 2842, col: 23, offset: 90203},
 													expr: &litMatcher{
-														pos:        position{line: 2840, col: 24, offset: 90133},
+														pos:        position{line: 2842, col: 24, offset: 90204},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2840, col: 28, offset: 90137},
+													pos:   position{line: 2842, col: 28, offset: 90208},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2844, col: 11, offset: 90251},
+														pos: position{line: 2846, col: 11, offset: 90322},
 														run: (*parser).callonExternalLink130,
 														expr: &choiceExpr{
-															pos: position{line: 2844, col: 12, offset: 90252},
+															pos: position{line: 2846, col: 12, offset: 90323},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2844, col: 12, offset: 90252},
+																	pos:        position{line: 2846, col: 12, offset: 90323},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2844, col: 24, offset: 90264},
+																	pos:        position{line: 2846, col: 24, offset: 90335},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2844, col: 37, offset: 90277},
+																	pos:        position{line: 2846, col: 37, offset: 90348},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2844, col: 48, offset: 90288},
+																	pos:        position{line: 2846, col: 48, offset: 90359},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2844, col: 59, offset: 90299},
+																	pos:        position{line: 2846, col: 59, offset: 90370},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24428,38 +24428,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2840, col: 44, offset: 90153},
+													pos:   position{line: 2842, col: 44, offset: 90224},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2849, col: 5, offset: 90363},
+														pos: position{line: 2851, col: 5, offset: 90434},
 														run: (*parser).callonExternalLink138,
 														expr: &labeledExpr{
-															pos:   position{line: 2849, col: 5, offset: 90363},
+															pos:   position{line: 2851, col: 5, offset: 90434},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2849, col: 14, offset: 90372},
+																pos: position{line: 2851, col: 14, offset: 90443},
 																expr: &choiceExpr{
-																	pos: position{line: 2850, col: 9, offset: 90382},
+																	pos: position{line: 2852, col: 9, offset: 90453},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2850, col: 9, offset: 90382},
+																			pos: position{line: 2852, col: 9, offset: 90453},
 																			run: (*parser).callonExternalLink142,
 																			expr: &seqExpr{
-																				pos: position{line: 2850, col: 9, offset: 90382},
+																				pos: position{line: 2852, col: 9, offset: 90453},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2850, col: 9, offset: 90382},
+																						pos: position{line: 2852, col: 9, offset: 90453},
 																						expr: &litMatcher{
-																							pos:        position{line: 2850, col: 10, offset: 90383},
+																							pos:        position{line: 2852, col: 10, offset: 90454},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2851, col: 9, offset: 90411},
+																						pos: position{line: 2853, col: 9, offset: 90482},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2851, col: 10, offset: 90412},
+																							pos:        position{line: 2853, col: 10, offset: 90483},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24470,27 +24470,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2854, col: 11, offset: 90624},
+																			pos: position{line: 2856, col: 11, offset: 90695},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2854, col: 11, offset: 90624},
+																					pos:        position{line: 2856, col: 11, offset: 90695},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2854, col: 19, offset: 90632},
+																					pos: position{line: 2856, col: 19, offset: 90703},
 																					expr: &seqExpr{
-																						pos: position{line: 2854, col: 21, offset: 90634},
+																						pos: position{line: 2856, col: 21, offset: 90705},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2854, col: 21, offset: 90634},
+																								pos: position{line: 2856, col: 21, offset: 90705},
 																								expr: &actionExpr{
-																									pos: position{line: 2878, col: 10, offset: 91246},
+																									pos: position{line: 2880, col: 10, offset: 91317},
 																									run: (*parser).callonExternalLink153,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2878, col: 10, offset: 91246},
+																										pos:        position{line: 2880, col: 10, offset: 91317},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24499,11 +24499,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2854, col: 28, offset: 90641},
+																								pos: position{line: 2856, col: 28, offset: 90712},
 																								expr: &notExpr{
-																									pos: position{line: 2897, col: 8, offset: 91594},
+																									pos: position{line: 2899, col: 8, offset: 91665},
 																									expr: &anyMatcher{
-																										line: 2897, col: 9, offset: 91595,
+																										line: 2899, col: 9, offset: 91666,
 																									},
 																								},
 																							},
@@ -24902,10 +24902,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2857, col: 11, offset: 90761},
+																			pos: position{line: 2859, col: 11, offset: 90832},
 																			run: (*parser).callonExternalLink236,
 																			expr: &litMatcher{
-																				pos:        position{line: 2857, col: 11, offset: 90761},
+																				pos:        position{line: 2859, col: 11, offset: 90832},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24971,10 +24971,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1589, col: 5, offset: 51472},
 																	expr: &actionExpr{
-																		pos: position{line: 2878, col: 10, offset: 91246},
+																		pos: position{line: 2880, col: 10, offset: 91317},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2878, col: 10, offset: 91246},
+																			pos:        position{line: 2880, col: 10, offset: 91317},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25141,12 +25141,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2882, col: 11, offset: 91307},
+																	pos: position{line: 2884, col: 11, offset: 91378},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2882, col: 11, offset: 91307},
+																		pos: position{line: 2884, col: 11, offset: 91378},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2882, col: 11, offset: 91307},
+																			pos:        position{line: 2884, col: 11, offset: 91378},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25189,28 +25189,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2900, col: 8, offset: 91644},
+																	pos: position{line: 2902, col: 8, offset: 91715},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2887, col: 12, offset: 91417},
+																			pos: position{line: 2889, col: 12, offset: 91488},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2887, col: 13, offset: 91418},
+																				pos: position{line: 2889, col: 13, offset: 91489},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 13, offset: 91418},
+																						pos:        position{line: 2889, col: 13, offset: 91489},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 20, offset: 91425},
+																						pos:        position{line: 2889, col: 20, offset: 91496},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 29, offset: 91434},
+																						pos:        position{line: 2889, col: 29, offset: 91505},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25219,9 +25219,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2897, col: 8, offset: 91594},
+																			pos: position{line: 2899, col: 8, offset: 91665},
 																			expr: &anyMatcher{
-																				line: 2897, col: 9, offset: 91595,
+																				line: 2899, col: 9, offset: 91666,
 																			},
 																		},
 																	},
@@ -25251,10 +25251,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1639, col: 5, offset: 53434},
 																	expr: &actionExpr{
-																		pos: position{line: 2878, col: 10, offset: 91246},
+																		pos: position{line: 2880, col: 10, offset: 91317},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2878, col: 10, offset: 91246},
+																			pos:        position{line: 2880, col: 10, offset: 91317},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25295,12 +25295,12 @@ var g = &grammar{
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2882, col: 11, offset: 91307},
+																	pos: position{line: 2884, col: 11, offset: 91378},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2882, col: 11, offset: 91307},
+																		pos: position{line: 2884, col: 11, offset: 91378},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2882, col: 11, offset: 91307},
+																			pos:        position{line: 2884, col: 11, offset: 91378},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25372,12 +25372,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2882, col: 11, offset: 91307},
+																		pos: position{line: 2884, col: 11, offset: 91378},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2882, col: 11, offset: 91307},
+																			pos: position{line: 2884, col: 11, offset: 91378},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2882, col: 11, offset: 91307},
+																				pos:        position{line: 2884, col: 11, offset: 91378},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -25421,28 +25421,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2900, col: 8, offset: 91644},
+																	pos: position{line: 2902, col: 8, offset: 91715},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2887, col: 12, offset: 91417},
+																			pos: position{line: 2889, col: 12, offset: 91488},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2887, col: 13, offset: 91418},
+																				pos: position{line: 2889, col: 13, offset: 91489},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 13, offset: 91418},
+																						pos:        position{line: 2889, col: 13, offset: 91489},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 20, offset: 91425},
+																						pos:        position{line: 2889, col: 20, offset: 91496},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 29, offset: 91434},
+																						pos:        position{line: 2889, col: 29, offset: 91505},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25451,9 +25451,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2897, col: 8, offset: 91594},
+																			pos: position{line: 2899, col: 8, offset: 91665},
 																			expr: &anyMatcher{
-																				line: 2897, col: 9, offset: 91595,
+																				line: 2899, col: 9, offset: 91666,
 																			},
 																		},
 																	},
@@ -25511,12 +25511,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2882, col: 11, offset: 91307},
+																	pos: position{line: 2884, col: 11, offset: 91378},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2882, col: 11, offset: 91307},
+																		pos: position{line: 2884, col: 11, offset: 91378},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2882, col: 11, offset: 91307},
+																			pos:        position{line: 2884, col: 11, offset: 91378},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25559,28 +25559,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2900, col: 8, offset: 91644},
+																	pos: position{line: 2902, col: 8, offset: 91715},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2887, col: 12, offset: 91417},
+																			pos: position{line: 2889, col: 12, offset: 91488},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2887, col: 13, offset: 91418},
+																				pos: position{line: 2889, col: 13, offset: 91489},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 13, offset: 91418},
+																						pos:        position{line: 2889, col: 13, offset: 91489},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 20, offset: 91425},
+																						pos:        position{line: 2889, col: 20, offset: 91496},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 29, offset: 91434},
+																						pos:        position{line: 2889, col: 29, offset: 91505},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25589,9 +25589,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2897, col: 8, offset: 91594},
+																			pos: position{line: 2899, col: 8, offset: 91665},
 																			expr: &anyMatcher{
-																				line: 2897, col: 9, offset: 91595,
+																				line: 2899, col: 9, offset: 91666,
 																			},
 																		},
 																	},
@@ -25621,18 +25621,18 @@ var g = &grammar{
 																&notExpr{
 																	pos: position{line: 1674, col: 5, offset: 54453},
 																	expr: &seqExpr{
-																		pos: position{line: 2490, col: 31, offset: 80353},
+																		pos: position{line: 2492, col: 31, offset: 80424},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2490, col: 31, offset: 80353},
+																				pos:        position{line: 2492, col: 31, offset: 80424},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2490, col: 36, offset: 80358},
+																				pos: position{line: 2492, col: 36, offset: 80429},
 																				expr: &litMatcher{
-																					pos:        position{line: 2490, col: 37, offset: 80359},
+																					pos:        position{line: 2492, col: 37, offset: 80430},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
@@ -25682,28 +25682,28 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1675, col: 35, offset: 54515},
 																				expr: &choiceExpr{
-																					pos: position{line: 2900, col: 8, offset: 91644},
+																					pos: position{line: 2902, col: 8, offset: 91715},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2887, col: 12, offset: 91417},
+																							pos: position{line: 2889, col: 12, offset: 91488},
 																							run: (*parser).callonListElements167,
 																							expr: &choiceExpr{
-																								pos: position{line: 2887, col: 13, offset: 91418},
+																								pos: position{line: 2889, col: 13, offset: 91489},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2887, col: 13, offset: 91418},
+																										pos:        position{line: 2889, col: 13, offset: 91489},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2887, col: 20, offset: 91425},
+																										pos:        position{line: 2889, col: 20, offset: 91496},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2887, col: 29, offset: 91434},
+																										pos:        position{line: 2889, col: 29, offset: 91505},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -25712,9 +25712,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2897, col: 8, offset: 91594},
+																							pos: position{line: 2899, col: 8, offset: 91665},
 																							expr: &anyMatcher{
-																								line: 2897, col: 9, offset: 91595,
+																								line: 2899, col: 9, offset: 91666,
 																							},
 																						},
 																					},
@@ -25779,10 +25779,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 1693, col: 9, offset: 55020},
 																			expr: &actionExpr{
-																				pos: position{line: 2878, col: 10, offset: 91246},
+																				pos: position{line: 2880, col: 10, offset: 91317},
 																				run: (*parser).callonListElements188,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2878, col: 10, offset: 91246},
+																					pos:        position{line: 2880, col: 10, offset: 91317},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25791,28 +25791,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2900, col: 8, offset: 91644},
+																			pos: position{line: 2902, col: 8, offset: 91715},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2887, col: 12, offset: 91417},
+																					pos: position{line: 2889, col: 12, offset: 91488},
 																					run: (*parser).callonListElements191,
 																					expr: &choiceExpr{
-																						pos: position{line: 2887, col: 13, offset: 91418},
+																						pos: position{line: 2889, col: 13, offset: 91489},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2887, col: 13, offset: 91418},
+																								pos:        position{line: 2889, col: 13, offset: 91489},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2887, col: 20, offset: 91425},
+																								pos:        position{line: 2889, col: 20, offset: 91496},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2887, col: 29, offset: 91434},
+																								pos:        position{line: 2889, col: 29, offset: 91505},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25821,9 +25821,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2897, col: 8, offset: 91594},
+																					pos: position{line: 2899, col: 8, offset: 91665},
 																					expr: &anyMatcher{
-																						line: 2897, col: 9, offset: 91595,
+																						line: 2899, col: 9, offset: 91666,
 																					},
 																				},
 																			},
@@ -25837,18 +25837,18 @@ var g = &grammar{
 																					pos: position{line: 677, col: 14, offset: 21525},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2895, col: 11, offset: 91580},
+																							pos: position{line: 2897, col: 11, offset: 91651},
 																							expr: &anyMatcher{
-																								line: 2895, col: 13, offset: 91582,
+																								line: 2897, col: 13, offset: 91653,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 677, col: 21, offset: 21532},
 																							expr: &actionExpr{
-																								pos: position{line: 2878, col: 10, offset: 91246},
+																								pos: position{line: 2880, col: 10, offset: 91317},
 																								run: (*parser).callonListElements204,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 10, offset: 91246},
+																									pos:        position{line: 2880, col: 10, offset: 91317},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25857,28 +25857,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2900, col: 8, offset: 91644},
+																							pos: position{line: 2902, col: 8, offset: 91715},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2887, col: 12, offset: 91417},
+																									pos: position{line: 2889, col: 12, offset: 91488},
 																									run: (*parser).callonListElements207,
 																									expr: &choiceExpr{
-																										pos: position{line: 2887, col: 13, offset: 91418},
+																										pos: position{line: 2889, col: 13, offset: 91489},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 13, offset: 91418},
+																												pos:        position{line: 2889, col: 13, offset: 91489},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 20, offset: 91425},
+																												pos:        position{line: 2889, col: 20, offset: 91496},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 29, offset: 91434},
+																												pos:        position{line: 2889, col: 29, offset: 91505},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25887,9 +25887,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2897, col: 8, offset: 91594},
+																									pos: position{line: 2899, col: 8, offset: 91665},
 																									expr: &anyMatcher{
-																										line: 2897, col: 9, offset: 91595,
+																										line: 2899, col: 9, offset: 91666,
 																									},
 																								},
 																							},
@@ -25908,12 +25908,12 @@ var g = &grammar{
 																	pos: position{line: 1700, col: 9, offset: 55168},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 11, offset: 91307},
+																			pos: position{line: 2884, col: 11, offset: 91378},
 																			run: (*parser).callonListElements216,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2882, col: 11, offset: 91307},
+																				pos: position{line: 2884, col: 11, offset: 91378},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2882, col: 11, offset: 91307},
+																					pos:        position{line: 2884, col: 11, offset: 91378},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25940,28 +25940,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2900, col: 8, offset: 91644},
+																			pos: position{line: 2902, col: 8, offset: 91715},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2887, col: 12, offset: 91417},
+																					pos: position{line: 2889, col: 12, offset: 91488},
 																					run: (*parser).callonListElements224,
 																					expr: &choiceExpr{
-																						pos: position{line: 2887, col: 13, offset: 91418},
+																						pos: position{line: 2889, col: 13, offset: 91489},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2887, col: 13, offset: 91418},
+																								pos:        position{line: 2889, col: 13, offset: 91489},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2887, col: 20, offset: 91425},
+																								pos:        position{line: 2889, col: 20, offset: 91496},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2887, col: 29, offset: 91434},
+																								pos:        position{line: 2889, col: 29, offset: 91505},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25970,9 +25970,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2897, col: 8, offset: 91594},
+																					pos: position{line: 2899, col: 8, offset: 91665},
 																					expr: &anyMatcher{
-																						line: 2897, col: 9, offset: 91595,
+																						line: 2899, col: 9, offset: 91666,
 																					},
 																				},
 																			},
@@ -26030,9 +26030,9 @@ var g = &grammar{
 					pos: position{line: 1499, col: 5, offset: 48679},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2895, col: 11, offset: 91580},
+							pos: position{line: 2897, col: 11, offset: 91651},
 							expr: &anyMatcher{
-								line: 2895, col: 13, offset: 91582,
+								line: 2897, col: 13, offset: 91653,
 							},
 						},
 						&labeledExpr{
@@ -26056,18 +26056,18 @@ var g = &grammar{
 															pos: position{line: 677, col: 14, offset: 21525},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2895, col: 11, offset: 91580},
+																	pos: position{line: 2897, col: 11, offset: 91651},
 																	expr: &anyMatcher{
-																		line: 2895, col: 13, offset: 91582,
+																		line: 2897, col: 13, offset: 91653,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 677, col: 21, offset: 21532},
 																	expr: &actionExpr{
-																		pos: position{line: 2878, col: 10, offset: 91246},
+																		pos: position{line: 2880, col: 10, offset: 91317},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2878, col: 10, offset: 91246},
+																			pos:        position{line: 2880, col: 10, offset: 91317},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26076,28 +26076,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2900, col: 8, offset: 91644},
+																	pos: position{line: 2902, col: 8, offset: 91715},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2887, col: 12, offset: 91417},
+																			pos: position{line: 2889, col: 12, offset: 91488},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2887, col: 13, offset: 91418},
+																				pos: position{line: 2889, col: 13, offset: 91489},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 13, offset: 91418},
+																						pos:        position{line: 2889, col: 13, offset: 91489},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 20, offset: 91425},
+																						pos:        position{line: 2889, col: 20, offset: 91496},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 29, offset: 91434},
+																						pos:        position{line: 2889, col: 29, offset: 91505},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26106,9 +26106,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2897, col: 8, offset: 91594},
+																			pos: position{line: 2899, col: 8, offset: 91665},
 																			expr: &anyMatcher{
-																				line: 2897, col: 9, offset: 91595,
+																				line: 2899, col: 9, offset: 91666,
 																			},
 																		},
 																	},
@@ -26141,10 +26141,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1589, col: 5, offset: 51472},
 																							expr: &actionExpr{
-																								pos: position{line: 2878, col: 10, offset: 91246},
+																								pos: position{line: 2880, col: 10, offset: 91317},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 10, offset: 91246},
+																									pos:        position{line: 2880, col: 10, offset: 91317},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26311,12 +26311,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2882, col: 11, offset: 91307},
+																							pos: position{line: 2884, col: 11, offset: 91378},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2882, col: 11, offset: 91307},
+																								pos: position{line: 2884, col: 11, offset: 91378},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2882, col: 11, offset: 91307},
+																									pos:        position{line: 2884, col: 11, offset: 91378},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26359,28 +26359,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2900, col: 8, offset: 91644},
+																							pos: position{line: 2902, col: 8, offset: 91715},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2887, col: 12, offset: 91417},
+																									pos: position{line: 2889, col: 12, offset: 91488},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2887, col: 13, offset: 91418},
+																										pos: position{line: 2889, col: 13, offset: 91489},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 13, offset: 91418},
+																												pos:        position{line: 2889, col: 13, offset: 91489},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 20, offset: 91425},
+																												pos:        position{line: 2889, col: 20, offset: 91496},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 29, offset: 91434},
+																												pos:        position{line: 2889, col: 29, offset: 91505},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26389,9 +26389,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2897, col: 8, offset: 91594},
+																									pos: position{line: 2899, col: 8, offset: 91665},
 																									expr: &anyMatcher{
-																										line: 2897, col: 9, offset: 91595,
+																										line: 2899, col: 9, offset: 91666,
 																									},
 																								},
 																							},
@@ -26421,10 +26421,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1639, col: 5, offset: 53434},
 																							expr: &actionExpr{
-																								pos: position{line: 2878, col: 10, offset: 91246},
+																								pos: position{line: 2880, col: 10, offset: 91317},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 10, offset: 91246},
+																									pos:        position{line: 2880, col: 10, offset: 91317},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26465,12 +26465,12 @@ var g = &grammar{
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2882, col: 11, offset: 91307},
+																							pos: position{line: 2884, col: 11, offset: 91378},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2882, col: 11, offset: 91307},
+																								pos: position{line: 2884, col: 11, offset: 91378},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2882, col: 11, offset: 91307},
+																									pos:        position{line: 2884, col: 11, offset: 91378},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26542,12 +26542,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2882, col: 11, offset: 91307},
+																								pos: position{line: 2884, col: 11, offset: 91378},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2882, col: 11, offset: 91307},
+																									pos: position{line: 2884, col: 11, offset: 91378},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2882, col: 11, offset: 91307},
+																										pos:        position{line: 2884, col: 11, offset: 91378},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -26591,28 +26591,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2900, col: 8, offset: 91644},
+																							pos: position{line: 2902, col: 8, offset: 91715},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2887, col: 12, offset: 91417},
+																									pos: position{line: 2889, col: 12, offset: 91488},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2887, col: 13, offset: 91418},
+																										pos: position{line: 2889, col: 13, offset: 91489},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 13, offset: 91418},
+																												pos:        position{line: 2889, col: 13, offset: 91489},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 20, offset: 91425},
+																												pos:        position{line: 2889, col: 20, offset: 91496},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 29, offset: 91434},
+																												pos:        position{line: 2889, col: 29, offset: 91505},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26621,9 +26621,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2897, col: 8, offset: 91594},
+																									pos: position{line: 2899, col: 8, offset: 91665},
 																									expr: &anyMatcher{
-																										line: 2897, col: 9, offset: 91595,
+																										line: 2899, col: 9, offset: 91666,
 																									},
 																								},
 																							},
@@ -26681,12 +26681,12 @@ var g = &grammar{
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2882, col: 11, offset: 91307},
+																							pos: position{line: 2884, col: 11, offset: 91378},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2882, col: 11, offset: 91307},
+																								pos: position{line: 2884, col: 11, offset: 91378},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2882, col: 11, offset: 91307},
+																									pos:        position{line: 2884, col: 11, offset: 91378},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26729,28 +26729,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2900, col: 8, offset: 91644},
+																							pos: position{line: 2902, col: 8, offset: 91715},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2887, col: 12, offset: 91417},
+																									pos: position{line: 2889, col: 12, offset: 91488},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2887, col: 13, offset: 91418},
+																										pos: position{line: 2889, col: 13, offset: 91489},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 13, offset: 91418},
+																												pos:        position{line: 2889, col: 13, offset: 91489},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 20, offset: 91425},
+																												pos:        position{line: 2889, col: 20, offset: 91496},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 29, offset: 91434},
+																												pos:        position{line: 2889, col: 29, offset: 91505},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26759,9 +26759,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2897, col: 8, offset: 91594},
+																									pos: position{line: 2899, col: 8, offset: 91665},
 																									expr: &anyMatcher{
-																										line: 2897, col: 9, offset: 91595,
+																										line: 2899, col: 9, offset: 91666,
 																									},
 																								},
 																							},
@@ -26791,18 +26791,18 @@ var g = &grammar{
 																						&notExpr{
 																							pos: position{line: 1674, col: 5, offset: 54453},
 																							expr: &seqExpr{
-																								pos: position{line: 2490, col: 31, offset: 80353},
+																								pos: position{line: 2492, col: 31, offset: 80424},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2490, col: 31, offset: 80353},
+																										pos:        position{line: 2492, col: 31, offset: 80424},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2490, col: 36, offset: 80358},
+																										pos: position{line: 2492, col: 36, offset: 80429},
 																										expr: &litMatcher{
-																											pos:        position{line: 2490, col: 37, offset: 80359},
+																											pos:        position{line: 2492, col: 37, offset: 80430},
 																											val:        "//",
 																											ignoreCase: false,
 																											want:       "\"//\"",
@@ -26852,28 +26852,28 @@ var g = &grammar{
 																									&notExpr{
 																										pos: position{line: 1675, col: 35, offset: 54515},
 																										expr: &choiceExpr{
-																											pos: position{line: 2900, col: 8, offset: 91644},
+																											pos: position{line: 2902, col: 8, offset: 91715},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2887, col: 12, offset: 91417},
+																													pos: position{line: 2889, col: 12, offset: 91488},
 																													run: (*parser).callonExtraListElement189,
 																													expr: &choiceExpr{
-																														pos: position{line: 2887, col: 13, offset: 91418},
+																														pos: position{line: 2889, col: 13, offset: 91489},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 13, offset: 91418},
+																																pos:        position{line: 2889, col: 13, offset: 91489},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 20, offset: 91425},
+																																pos:        position{line: 2889, col: 20, offset: 91496},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 29, offset: 91434},
+																																pos:        position{line: 2889, col: 29, offset: 91505},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -26882,9 +26882,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2897, col: 8, offset: 91594},
+																													pos: position{line: 2899, col: 8, offset: 91665},
 																													expr: &anyMatcher{
-																														line: 2897, col: 9, offset: 91595,
+																														line: 2899, col: 9, offset: 91666,
 																													},
 																												},
 																											},
@@ -26949,10 +26949,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 1693, col: 9, offset: 55020},
 																									expr: &actionExpr{
-																										pos: position{line: 2878, col: 10, offset: 91246},
+																										pos: position{line: 2880, col: 10, offset: 91317},
 																										run: (*parser).callonExtraListElement210,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2878, col: 10, offset: 91246},
+																											pos:        position{line: 2880, col: 10, offset: 91317},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26961,28 +26961,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2900, col: 8, offset: 91644},
+																									pos: position{line: 2902, col: 8, offset: 91715},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2887, col: 12, offset: 91417},
+																											pos: position{line: 2889, col: 12, offset: 91488},
 																											run: (*parser).callonExtraListElement213,
 																											expr: &choiceExpr{
-																												pos: position{line: 2887, col: 13, offset: 91418},
+																												pos: position{line: 2889, col: 13, offset: 91489},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2887, col: 13, offset: 91418},
+																														pos:        position{line: 2889, col: 13, offset: 91489},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2887, col: 20, offset: 91425},
+																														pos:        position{line: 2889, col: 20, offset: 91496},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2887, col: 29, offset: 91434},
+																														pos:        position{line: 2889, col: 29, offset: 91505},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26991,9 +26991,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2897, col: 8, offset: 91594},
+																											pos: position{line: 2899, col: 8, offset: 91665},
 																											expr: &anyMatcher{
-																												line: 2897, col: 9, offset: 91595,
+																												line: 2899, col: 9, offset: 91666,
 																											},
 																										},
 																									},
@@ -27007,18 +27007,18 @@ var g = &grammar{
 																											pos: position{line: 677, col: 14, offset: 21525},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2895, col: 11, offset: 91580},
+																													pos: position{line: 2897, col: 11, offset: 91651},
 																													expr: &anyMatcher{
-																														line: 2895, col: 13, offset: 91582,
+																														line: 2897, col: 13, offset: 91653,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 677, col: 21, offset: 21532},
 																													expr: &actionExpr{
-																														pos: position{line: 2878, col: 10, offset: 91246},
+																														pos: position{line: 2880, col: 10, offset: 91317},
 																														run: (*parser).callonExtraListElement226,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2878, col: 10, offset: 91246},
+																															pos:        position{line: 2880, col: 10, offset: 91317},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27027,28 +27027,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2900, col: 8, offset: 91644},
+																													pos: position{line: 2902, col: 8, offset: 91715},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2887, col: 12, offset: 91417},
+																															pos: position{line: 2889, col: 12, offset: 91488},
 																															run: (*parser).callonExtraListElement229,
 																															expr: &choiceExpr{
-																																pos: position{line: 2887, col: 13, offset: 91418},
+																																pos: position{line: 2889, col: 13, offset: 91489},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2887, col: 13, offset: 91418},
+																																		pos:        position{line: 2889, col: 13, offset: 91489},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2887, col: 20, offset: 91425},
+																																		pos:        position{line: 2889, col: 20, offset: 91496},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2887, col: 29, offset: 91434},
+																																		pos:        position{line: 2889, col: 29, offset: 91505},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -27057,9 +27057,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2897, col: 8, offset: 91594},
+																															pos: position{line: 2899, col: 8, offset: 91665},
 																															expr: &anyMatcher{
-																																line: 2897, col: 9, offset: 91595,
+																																line: 2899, col: 9, offset: 91666,
 																															},
 																														},
 																													},
@@ -27078,12 +27078,12 @@ var g = &grammar{
 																							pos: position{line: 1700, col: 9, offset: 55168},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 11, offset: 91307},
+																									pos: position{line: 2884, col: 11, offset: 91378},
 																									run: (*parser).callonExtraListElement238,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2882, col: 11, offset: 91307},
+																										pos: position{line: 2884, col: 11, offset: 91378},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2882, col: 11, offset: 91307},
+																											pos:        position{line: 2884, col: 11, offset: 91378},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27110,28 +27110,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2900, col: 8, offset: 91644},
+																									pos: position{line: 2902, col: 8, offset: 91715},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2887, col: 12, offset: 91417},
+																											pos: position{line: 2889, col: 12, offset: 91488},
 																											run: (*parser).callonExtraListElement246,
 																											expr: &choiceExpr{
-																												pos: position{line: 2887, col: 13, offset: 91418},
+																												pos: position{line: 2889, col: 13, offset: 91489},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2887, col: 13, offset: 91418},
+																														pos:        position{line: 2889, col: 13, offset: 91489},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2887, col: 20, offset: 91425},
+																														pos:        position{line: 2889, col: 20, offset: 91496},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2887, col: 29, offset: 91434},
+																														pos:        position{line: 2889, col: 29, offset: 91505},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27140,9 +27140,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2897, col: 8, offset: 91594},
+																											pos: position{line: 2899, col: 8, offset: 91665},
 																											expr: &anyMatcher{
-																												line: 2897, col: 9, offset: 91595,
+																												line: 2899, col: 9, offset: 91666,
 																											},
 																										},
 																									},
@@ -27203,10 +27203,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1589, col: 5, offset: 51472},
 																							expr: &actionExpr{
-																								pos: position{line: 2878, col: 10, offset: 91246},
+																								pos: position{line: 2880, col: 10, offset: 91317},
 																								run: (*parser).callonExtraListElement266,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 10, offset: 91246},
+																									pos:        position{line: 2880, col: 10, offset: 91317},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27373,12 +27373,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2882, col: 11, offset: 91307},
+																							pos: position{line: 2884, col: 11, offset: 91378},
 																							run: (*parser).callonExtraListElement300,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2882, col: 11, offset: 91307},
+																								pos: position{line: 2884, col: 11, offset: 91378},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2882, col: 11, offset: 91307},
+																									pos:        position{line: 2884, col: 11, offset: 91378},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27421,28 +27421,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2900, col: 8, offset: 91644},
+																							pos: position{line: 2902, col: 8, offset: 91715},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2887, col: 12, offset: 91417},
+																									pos: position{line: 2889, col: 12, offset: 91488},
 																									run: (*parser).callonExtraListElement312,
 																									expr: &choiceExpr{
-																										pos: position{line: 2887, col: 13, offset: 91418},
+																										pos: position{line: 2889, col: 13, offset: 91489},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 13, offset: 91418},
+																												pos:        position{line: 2889, col: 13, offset: 91489},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 20, offset: 91425},
+																												pos:        position{line: 2889, col: 20, offset: 91496},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 29, offset: 91434},
+																												pos:        position{line: 2889, col: 29, offset: 91505},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27451,9 +27451,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2897, col: 8, offset: 91594},
+																									pos: position{line: 2899, col: 8, offset: 91665},
 																									expr: &anyMatcher{
-																										line: 2897, col: 9, offset: 91595,
+																										line: 2899, col: 9, offset: 91666,
 																									},
 																								},
 																							},
@@ -27483,10 +27483,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1639, col: 5, offset: 53434},
 																							expr: &actionExpr{
-																								pos: position{line: 2878, col: 10, offset: 91246},
+																								pos: position{line: 2880, col: 10, offset: 91317},
 																								run: (*parser).callonExtraListElement325,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 10, offset: 91246},
+																									pos:        position{line: 2880, col: 10, offset: 91317},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27527,12 +27527,12 @@ var g = &grammar{
 																							run: (*parser).callonExtraListElement333,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2882, col: 11, offset: 91307},
+																							pos: position{line: 2884, col: 11, offset: 91378},
 																							run: (*parser).callonExtraListElement334,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2882, col: 11, offset: 91307},
+																								pos: position{line: 2884, col: 11, offset: 91378},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2882, col: 11, offset: 91307},
+																									pos:        position{line: 2884, col: 11, offset: 91378},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27604,12 +27604,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2882, col: 11, offset: 91307},
+																								pos: position{line: 2884, col: 11, offset: 91378},
 																								run: (*parser).callonExtraListElement351,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2882, col: 11, offset: 91307},
+																									pos: position{line: 2884, col: 11, offset: 91378},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2882, col: 11, offset: 91307},
+																										pos:        position{line: 2884, col: 11, offset: 91378},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27653,28 +27653,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2900, col: 8, offset: 91644},
+																							pos: position{line: 2902, col: 8, offset: 91715},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2887, col: 12, offset: 91417},
+																									pos: position{line: 2889, col: 12, offset: 91488},
 																									run: (*parser).callonExtraListElement363,
 																									expr: &choiceExpr{
-																										pos: position{line: 2887, col: 13, offset: 91418},
+																										pos: position{line: 2889, col: 13, offset: 91489},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 13, offset: 91418},
+																												pos:        position{line: 2889, col: 13, offset: 91489},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 20, offset: 91425},
+																												pos:        position{line: 2889, col: 20, offset: 91496},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 29, offset: 91434},
+																												pos:        position{line: 2889, col: 29, offset: 91505},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27683,9 +27683,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2897, col: 8, offset: 91594},
+																									pos: position{line: 2899, col: 8, offset: 91665},
 																									expr: &anyMatcher{
-																										line: 2897, col: 9, offset: 91595,
+																										line: 2899, col: 9, offset: 91666,
 																									},
 																								},
 																							},
@@ -27743,12 +27743,12 @@ var g = &grammar{
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2882, col: 11, offset: 91307},
+																							pos: position{line: 2884, col: 11, offset: 91378},
 																							run: (*parser).callonExtraListElement381,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2882, col: 11, offset: 91307},
+																								pos: position{line: 2884, col: 11, offset: 91378},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2882, col: 11, offset: 91307},
+																									pos:        position{line: 2884, col: 11, offset: 91378},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27791,28 +27791,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2900, col: 8, offset: 91644},
+																							pos: position{line: 2902, col: 8, offset: 91715},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2887, col: 12, offset: 91417},
+																									pos: position{line: 2889, col: 12, offset: 91488},
 																									run: (*parser).callonExtraListElement393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2887, col: 13, offset: 91418},
+																										pos: position{line: 2889, col: 13, offset: 91489},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 13, offset: 91418},
+																												pos:        position{line: 2889, col: 13, offset: 91489},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 20, offset: 91425},
+																												pos:        position{line: 2889, col: 20, offset: 91496},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 29, offset: 91434},
+																												pos:        position{line: 2889, col: 29, offset: 91505},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27821,9 +27821,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2897, col: 8, offset: 91594},
+																									pos: position{line: 2899, col: 8, offset: 91665},
 																									expr: &anyMatcher{
-																										line: 2897, col: 9, offset: 91595,
+																										line: 2899, col: 9, offset: 91666,
 																									},
 																								},
 																							},
@@ -27853,18 +27853,18 @@ var g = &grammar{
 																						&notExpr{
 																							pos: position{line: 1674, col: 5, offset: 54453},
 																							expr: &seqExpr{
-																								pos: position{line: 2490, col: 31, offset: 80353},
+																								pos: position{line: 2492, col: 31, offset: 80424},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2490, col: 31, offset: 80353},
+																										pos:        position{line: 2492, col: 31, offset: 80424},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2490, col: 36, offset: 80358},
+																										pos: position{line: 2492, col: 36, offset: 80429},
 																										expr: &litMatcher{
-																											pos:        position{line: 2490, col: 37, offset: 80359},
+																											pos:        position{line: 2492, col: 37, offset: 80430},
 																											val:        "//",
 																											ignoreCase: false,
 																											want:       "\"//\"",
@@ -27914,28 +27914,28 @@ var g = &grammar{
 																									&notExpr{
 																										pos: position{line: 1675, col: 35, offset: 54515},
 																										expr: &choiceExpr{
-																											pos: position{line: 2900, col: 8, offset: 91644},
+																											pos: position{line: 2902, col: 8, offset: 91715},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2887, col: 12, offset: 91417},
+																													pos: position{line: 2889, col: 12, offset: 91488},
 																													run: (*parser).callonExtraListElement422,
 																													expr: &choiceExpr{
-																														pos: position{line: 2887, col: 13, offset: 91418},
+																														pos: position{line: 2889, col: 13, offset: 91489},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 13, offset: 91418},
+																																pos:        position{line: 2889, col: 13, offset: 91489},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 20, offset: 91425},
+																																pos:        position{line: 2889, col: 20, offset: 91496},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 29, offset: 91434},
+																																pos:        position{line: 2889, col: 29, offset: 91505},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -27944,9 +27944,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2897, col: 8, offset: 91594},
+																													pos: position{line: 2899, col: 8, offset: 91665},
 																													expr: &anyMatcher{
-																														line: 2897, col: 9, offset: 91595,
+																														line: 2899, col: 9, offset: 91666,
 																													},
 																												},
 																											},
@@ -28011,10 +28011,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 1693, col: 9, offset: 55020},
 																									expr: &actionExpr{
-																										pos: position{line: 2878, col: 10, offset: 91246},
+																										pos: position{line: 2880, col: 10, offset: 91317},
 																										run: (*parser).callonExtraListElement443,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2878, col: 10, offset: 91246},
+																											pos:        position{line: 2880, col: 10, offset: 91317},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28023,28 +28023,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2900, col: 8, offset: 91644},
+																									pos: position{line: 2902, col: 8, offset: 91715},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2887, col: 12, offset: 91417},
+																											pos: position{line: 2889, col: 12, offset: 91488},
 																											run: (*parser).callonExtraListElement446,
 																											expr: &choiceExpr{
-																												pos: position{line: 2887, col: 13, offset: 91418},
+																												pos: position{line: 2889, col: 13, offset: 91489},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2887, col: 13, offset: 91418},
+																														pos:        position{line: 2889, col: 13, offset: 91489},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2887, col: 20, offset: 91425},
+																														pos:        position{line: 2889, col: 20, offset: 91496},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2887, col: 29, offset: 91434},
+																														pos:        position{line: 2889, col: 29, offset: 91505},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28053,9 +28053,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2897, col: 8, offset: 91594},
+																											pos: position{line: 2899, col: 8, offset: 91665},
 																											expr: &anyMatcher{
-																												line: 2897, col: 9, offset: 91595,
+																												line: 2899, col: 9, offset: 91666,
 																											},
 																										},
 																									},
@@ -28069,18 +28069,18 @@ var g = &grammar{
 																											pos: position{line: 677, col: 14, offset: 21525},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2895, col: 11, offset: 91580},
+																													pos: position{line: 2897, col: 11, offset: 91651},
 																													expr: &anyMatcher{
-																														line: 2895, col: 13, offset: 91582,
+																														line: 2897, col: 13, offset: 91653,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 677, col: 21, offset: 21532},
 																													expr: &actionExpr{
-																														pos: position{line: 2878, col: 10, offset: 91246},
+																														pos: position{line: 2880, col: 10, offset: 91317},
 																														run: (*parser).callonExtraListElement459,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2878, col: 10, offset: 91246},
+																															pos:        position{line: 2880, col: 10, offset: 91317},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -28089,28 +28089,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2900, col: 8, offset: 91644},
+																													pos: position{line: 2902, col: 8, offset: 91715},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2887, col: 12, offset: 91417},
+																															pos: position{line: 2889, col: 12, offset: 91488},
 																															run: (*parser).callonExtraListElement462,
 																															expr: &choiceExpr{
-																																pos: position{line: 2887, col: 13, offset: 91418},
+																																pos: position{line: 2889, col: 13, offset: 91489},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2887, col: 13, offset: 91418},
+																																		pos:        position{line: 2889, col: 13, offset: 91489},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2887, col: 20, offset: 91425},
+																																		pos:        position{line: 2889, col: 20, offset: 91496},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2887, col: 29, offset: 91434},
+																																		pos:        position{line: 2889, col: 29, offset: 91505},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -28119,9 +28119,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2897, col: 8, offset: 91594},
+																															pos: position{line: 2899, col: 8, offset: 91665},
 																															expr: &anyMatcher{
-																																line: 2897, col: 9, offset: 91595,
+																																line: 2899, col: 9, offset: 91666,
 																															},
 																														},
 																													},
@@ -28140,12 +28140,12 @@ var g = &grammar{
 																							pos: position{line: 1700, col: 9, offset: 55168},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 11, offset: 91307},
+																									pos: position{line: 2884, col: 11, offset: 91378},
 																									run: (*parser).callonExtraListElement471,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2882, col: 11, offset: 91307},
+																										pos: position{line: 2884, col: 11, offset: 91378},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2882, col: 11, offset: 91307},
+																											pos:        position{line: 2884, col: 11, offset: 91378},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28172,28 +28172,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2900, col: 8, offset: 91644},
+																									pos: position{line: 2902, col: 8, offset: 91715},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2887, col: 12, offset: 91417},
+																											pos: position{line: 2889, col: 12, offset: 91488},
 																											run: (*parser).callonExtraListElement479,
 																											expr: &choiceExpr{
-																												pos: position{line: 2887, col: 13, offset: 91418},
+																												pos: position{line: 2889, col: 13, offset: 91489},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2887, col: 13, offset: 91418},
+																														pos:        position{line: 2889, col: 13, offset: 91489},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2887, col: 20, offset: 91425},
+																														pos:        position{line: 2889, col: 20, offset: 91496},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2887, col: 29, offset: 91434},
+																														pos:        position{line: 2889, col: 29, offset: 91505},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28202,9 +28202,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2897, col: 8, offset: 91594},
+																											pos: position{line: 2899, col: 8, offset: 91665},
 																											expr: &anyMatcher{
-																												line: 2897, col: 9, offset: 91595,
+																												line: 2899, col: 9, offset: 91666,
 																											},
 																										},
 																									},
@@ -28229,36 +28229,36 @@ var g = &grammar{
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2485, col: 22, offset: 80132},
+										pos: position{line: 2487, col: 22, offset: 80203},
 										run: (*parser).callonExtraListElement487,
 										expr: &seqExpr{
-											pos: position{line: 2485, col: 22, offset: 80132},
+											pos: position{line: 2487, col: 22, offset: 80203},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2490, col: 31, offset: 80353},
+													pos:        position{line: 2492, col: 31, offset: 80424},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2490, col: 36, offset: 80358},
+													pos: position{line: 2492, col: 36, offset: 80429},
 													expr: &litMatcher{
-														pos:        position{line: 2490, col: 37, offset: 80359},
+														pos:        position{line: 2492, col: 37, offset: 80430},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2485, col: 49, offset: 80159},
+													pos:   position{line: 2487, col: 49, offset: 80230},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2824, col: 13, offset: 89772},
+														pos: position{line: 2826, col: 13, offset: 89843},
 														run: (*parser).callonExtraListElement493,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2824, col: 13, offset: 89772},
+															pos: position{line: 2826, col: 13, offset: 89843},
 															expr: &charClassMatcher{
-																pos:        position{line: 2824, col: 13, offset: 89772},
+																pos:        position{line: 2826, col: 13, offset: 89843},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -28268,28 +28268,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2900, col: 8, offset: 91644},
+													pos: position{line: 2902, col: 8, offset: 91715},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2887, col: 12, offset: 91417},
+															pos: position{line: 2889, col: 12, offset: 91488},
 															run: (*parser).callonExtraListElement497,
 															expr: &choiceExpr{
-																pos: position{line: 2887, col: 13, offset: 91418},
+																pos: position{line: 2889, col: 13, offset: 91489},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2887, col: 13, offset: 91418},
+																		pos:        position{line: 2889, col: 13, offset: 91489},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2887, col: 20, offset: 91425},
+																		pos:        position{line: 2889, col: 20, offset: 91496},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2887, col: 29, offset: 91434},
+																		pos:        position{line: 2889, col: 29, offset: 91505},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -28298,9 +28298,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2897, col: 8, offset: 91594},
+															pos: position{line: 2899, col: 8, offset: 91665},
 															expr: &anyMatcher{
-																line: 2897, col: 9, offset: 91595,
+																line: 2899, col: 9, offset: 91666,
 															},
 														},
 													},
@@ -28323,18 +28323,18 @@ var g = &grammar{
 															pos: position{line: 677, col: 14, offset: 21525},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2895, col: 11, offset: 91580},
+																	pos: position{line: 2897, col: 11, offset: 91651},
 																	expr: &anyMatcher{
-																		line: 2895, col: 13, offset: 91582,
+																		line: 2897, col: 13, offset: 91653,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 677, col: 21, offset: 21532},
 																	expr: &actionExpr{
-																		pos: position{line: 2878, col: 10, offset: 91246},
+																		pos: position{line: 2880, col: 10, offset: 91317},
 																		run: (*parser).callonExtraListElement512,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2878, col: 10, offset: 91246},
+																			pos:        position{line: 2880, col: 10, offset: 91317},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28343,28 +28343,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2900, col: 8, offset: 91644},
+																	pos: position{line: 2902, col: 8, offset: 91715},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2887, col: 12, offset: 91417},
+																			pos: position{line: 2889, col: 12, offset: 91488},
 																			run: (*parser).callonExtraListElement515,
 																			expr: &choiceExpr{
-																				pos: position{line: 2887, col: 13, offset: 91418},
+																				pos: position{line: 2889, col: 13, offset: 91489},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 13, offset: 91418},
+																						pos:        position{line: 2889, col: 13, offset: 91489},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 20, offset: 91425},
+																						pos:        position{line: 2889, col: 20, offset: 91496},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 29, offset: 91434},
+																						pos:        position{line: 2889, col: 29, offset: 91505},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -28373,9 +28373,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2897, col: 8, offset: 91594},
+																			pos: position{line: 2899, col: 8, offset: 91665},
 																			expr: &anyMatcher{
-																				line: 2897, col: 9, offset: 91595,
+																				line: 2899, col: 9, offset: 91666,
 																			},
 																		},
 																	},
@@ -28398,10 +28398,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1548, col: 31, offset: 50257},
 																expr: &actionExpr{
-																	pos: position{line: 2878, col: 10, offset: 91246},
+																	pos: position{line: 2880, col: 10, offset: 91317},
 																	run: (*parser).callonExtraListElement526,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2878, col: 10, offset: 91246},
+																		pos:        position{line: 2880, col: 10, offset: 91317},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -28410,25 +28410,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2887, col: 12, offset: 91417},
+																pos: position{line: 2889, col: 12, offset: 91488},
 																run: (*parser).callonExtraListElement528,
 																expr: &choiceExpr{
-																	pos: position{line: 2887, col: 13, offset: 91418},
+																	pos: position{line: 2889, col: 13, offset: 91489},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2887, col: 13, offset: 91418},
+																			pos:        position{line: 2889, col: 13, offset: 91489},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2887, col: 20, offset: 91425},
+																			pos:        position{line: 2889, col: 20, offset: 91496},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2887, col: 29, offset: 91434},
+																			pos:        position{line: 2889, col: 29, offset: 91505},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -28450,10 +28450,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1589, col: 5, offset: 51472},
 																	expr: &actionExpr{
-																		pos: position{line: 2878, col: 10, offset: 91246},
+																		pos: position{line: 2880, col: 10, offset: 91317},
 																		run: (*parser).callonExtraListElement537,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2878, col: 10, offset: 91246},
+																			pos:        position{line: 2880, col: 10, offset: 91317},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28620,12 +28620,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2882, col: 11, offset: 91307},
+																	pos: position{line: 2884, col: 11, offset: 91378},
 																	run: (*parser).callonExtraListElement571,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2882, col: 11, offset: 91307},
+																		pos: position{line: 2884, col: 11, offset: 91378},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2882, col: 11, offset: 91307},
+																			pos:        position{line: 2884, col: 11, offset: 91378},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28648,10 +28648,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1639, col: 5, offset: 53434},
 																	expr: &actionExpr{
-																		pos: position{line: 2878, col: 10, offset: 91246},
+																		pos: position{line: 2880, col: 10, offset: 91317},
 																		run: (*parser).callonExtraListElement578,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2878, col: 10, offset: 91246},
+																			pos:        position{line: 2880, col: 10, offset: 91317},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28692,12 +28692,12 @@ var g = &grammar{
 																	run: (*parser).callonExtraListElement586,
 																},
 																&actionExpr{
-																	pos: position{line: 2882, col: 11, offset: 91307},
+																	pos: position{line: 2884, col: 11, offset: 91378},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2882, col: 11, offset: 91307},
+																		pos: position{line: 2884, col: 11, offset: 91378},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2882, col: 11, offset: 91307},
+																			pos:        position{line: 2884, col: 11, offset: 91378},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28748,12 +28748,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2882, col: 11, offset: 91307},
+																	pos: position{line: 2884, col: 11, offset: 91378},
 																	run: (*parser).callonExtraListElement599,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2882, col: 11, offset: 91307},
+																		pos: position{line: 2884, col: 11, offset: 91378},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2882, col: 11, offset: 91307},
+																			pos:        position{line: 2884, col: 11, offset: 91378},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28779,18 +28779,18 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1674, col: 5, offset: 54453},
 																			expr: &seqExpr{
-																				pos: position{line: 2490, col: 31, offset: 80353},
+																				pos: position{line: 2492, col: 31, offset: 80424},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2490, col: 31, offset: 80353},
+																						pos:        position{line: 2492, col: 31, offset: 80424},
 																						val:        "//",
 																						ignoreCase: false,
 																						want:       "\"//\"",
 																					},
 																					&notExpr{
-																						pos: position{line: 2490, col: 36, offset: 80358},
+																						pos: position{line: 2492, col: 36, offset: 80429},
 																						expr: &litMatcher{
-																							pos:        position{line: 2490, col: 37, offset: 80359},
+																							pos:        position{line: 2492, col: 37, offset: 80430},
 																							val:        "//",
 																							ignoreCase: false,
 																							want:       "\"//\"",
@@ -28840,28 +28840,28 @@ var g = &grammar{
 																					&notExpr{
 																						pos: position{line: 1675, col: 35, offset: 54515},
 																						expr: &choiceExpr{
-																							pos: position{line: 2900, col: 8, offset: 91644},
+																							pos: position{line: 2902, col: 8, offset: 91715},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2887, col: 12, offset: 91417},
+																									pos: position{line: 2889, col: 12, offset: 91488},
 																									run: (*parser).callonExtraListElement623,
 																									expr: &choiceExpr{
-																										pos: position{line: 2887, col: 13, offset: 91418},
+																										pos: position{line: 2889, col: 13, offset: 91489},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 13, offset: 91418},
+																												pos:        position{line: 2889, col: 13, offset: 91489},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 20, offset: 91425},
+																												pos:        position{line: 2889, col: 20, offset: 91496},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 29, offset: 91434},
+																												pos:        position{line: 2889, col: 29, offset: 91505},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28870,9 +28870,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2897, col: 8, offset: 91594},
+																									pos: position{line: 2899, col: 8, offset: 91665},
 																									expr: &anyMatcher{
-																										line: 2897, col: 9, offset: 91595,
+																										line: 2899, col: 9, offset: 91666,
 																									},
 																								},
 																							},
@@ -28931,7 +28931,7 @@ var g = &grammar{
 																&notExpr{
 																	pos: position{line: 725, col: 5, offset: 23101},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2768, col: 13, offset: 88320},
+																		pos:        position{line: 2770, col: 13, offset: 88391},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -28981,10 +28981,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 743, col: 8, offset: 23745},
 																							expr: &actionExpr{
-																								pos: position{line: 2878, col: 10, offset: 91246},
+																								pos: position{line: 2880, col: 10, offset: 91317},
 																								run: (*parser).callonExtraListElement654,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 10, offset: 91246},
+																									pos:        position{line: 2880, col: 10, offset: 91317},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28993,28 +28993,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2900, col: 8, offset: 91644},
+																							pos: position{line: 2902, col: 8, offset: 91715},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2887, col: 12, offset: 91417},
+																									pos: position{line: 2889, col: 12, offset: 91488},
 																									run: (*parser).callonExtraListElement657,
 																									expr: &choiceExpr{
-																										pos: position{line: 2887, col: 13, offset: 91418},
+																										pos: position{line: 2889, col: 13, offset: 91489},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 13, offset: 91418},
+																												pos:        position{line: 2889, col: 13, offset: 91489},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 20, offset: 91425},
+																												pos:        position{line: 2889, col: 20, offset: 91496},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 29, offset: 91434},
+																												pos:        position{line: 2889, col: 29, offset: 91505},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29023,9 +29023,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2897, col: 8, offset: 91594},
+																									pos: position{line: 2899, col: 8, offset: 91665},
 																									expr: &anyMatcher{
-																										line: 2897, col: 9, offset: 91595,
+																										line: 2899, col: 9, offset: 91666,
 																									},
 																								},
 																							},
@@ -29070,10 +29070,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 750, col: 8, offset: 23993},
 																							expr: &actionExpr{
-																								pos: position{line: 2878, col: 10, offset: 91246},
+																								pos: position{line: 2880, col: 10, offset: 91317},
 																								run: (*parser).callonExtraListElement673,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 10, offset: 91246},
+																									pos:        position{line: 2880, col: 10, offset: 91317},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29082,28 +29082,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2900, col: 8, offset: 91644},
+																							pos: position{line: 2902, col: 8, offset: 91715},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2887, col: 12, offset: 91417},
+																									pos: position{line: 2889, col: 12, offset: 91488},
 																									run: (*parser).callonExtraListElement676,
 																									expr: &choiceExpr{
-																										pos: position{line: 2887, col: 13, offset: 91418},
+																										pos: position{line: 2889, col: 13, offset: 91489},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 13, offset: 91418},
+																												pos:        position{line: 2889, col: 13, offset: 91489},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 20, offset: 91425},
+																												pos:        position{line: 2889, col: 20, offset: 91496},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 29, offset: 91434},
+																												pos:        position{line: 2889, col: 29, offset: 91505},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29112,9 +29112,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2897, col: 8, offset: 91594},
+																									pos: position{line: 2899, col: 8, offset: 91665},
 																									expr: &anyMatcher{
-																										line: 2897, col: 9, offset: 91595,
+																										line: 2899, col: 9, offset: 91666,
 																									},
 																								},
 																							},
@@ -29155,10 +29155,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 761, col: 52, offset: 24405},
 																							expr: &actionExpr{
-																								pos: position{line: 2878, col: 10, offset: 91246},
+																								pos: position{line: 2880, col: 10, offset: 91317},
 																								run: (*parser).callonExtraListElement691,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 10, offset: 91246},
+																									pos:        position{line: 2880, col: 10, offset: 91317},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29167,28 +29167,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2900, col: 8, offset: 91644},
+																							pos: position{line: 2902, col: 8, offset: 91715},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2887, col: 12, offset: 91417},
+																									pos: position{line: 2889, col: 12, offset: 91488},
 																									run: (*parser).callonExtraListElement694,
 																									expr: &choiceExpr{
-																										pos: position{line: 2887, col: 13, offset: 91418},
+																										pos: position{line: 2889, col: 13, offset: 91489},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 13, offset: 91418},
+																												pos:        position{line: 2889, col: 13, offset: 91489},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 20, offset: 91425},
+																												pos:        position{line: 2889, col: 20, offset: 91496},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 29, offset: 91434},
+																												pos:        position{line: 2889, col: 29, offset: 91505},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29197,9 +29197,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2897, col: 8, offset: 91594},
+																									pos: position{line: 2899, col: 8, offset: 91665},
 																									expr: &anyMatcher{
-																										line: 2897, col: 9, offset: 91595,
+																										line: 2899, col: 9, offset: 91666,
 																									},
 																								},
 																							},
@@ -29244,10 +29244,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 757, col: 8, offset: 24239},
 																							expr: &actionExpr{
-																								pos: position{line: 2878, col: 10, offset: 91246},
+																								pos: position{line: 2880, col: 10, offset: 91317},
 																								run: (*parser).callonExtraListElement710,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 10, offset: 91246},
+																									pos:        position{line: 2880, col: 10, offset: 91317},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29256,28 +29256,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2900, col: 8, offset: 91644},
+																							pos: position{line: 2902, col: 8, offset: 91715},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2887, col: 12, offset: 91417},
+																									pos: position{line: 2889, col: 12, offset: 91488},
 																									run: (*parser).callonExtraListElement713,
 																									expr: &choiceExpr{
-																										pos: position{line: 2887, col: 13, offset: 91418},
+																										pos: position{line: 2889, col: 13, offset: 91489},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 13, offset: 91418},
+																												pos:        position{line: 2889, col: 13, offset: 91489},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 20, offset: 91425},
+																												pos:        position{line: 2889, col: 20, offset: 91496},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 29, offset: 91434},
+																												pos:        position{line: 2889, col: 29, offset: 91505},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29286,9 +29286,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2897, col: 8, offset: 91594},
+																									pos: position{line: 2899, col: 8, offset: 91665},
 																									expr: &anyMatcher{
-																										line: 2897, col: 9, offset: 91595,
+																										line: 2899, col: 9, offset: 91666,
 																									},
 																								},
 																							},
@@ -29333,10 +29333,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 772, col: 8, offset: 24782},
 																							expr: &actionExpr{
-																								pos: position{line: 2878, col: 10, offset: 91246},
+																								pos: position{line: 2880, col: 10, offset: 91317},
 																								run: (*parser).callonExtraListElement729,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 10, offset: 91246},
+																									pos:        position{line: 2880, col: 10, offset: 91317},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29345,28 +29345,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2900, col: 8, offset: 91644},
+																							pos: position{line: 2902, col: 8, offset: 91715},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2887, col: 12, offset: 91417},
+																									pos: position{line: 2889, col: 12, offset: 91488},
 																									run: (*parser).callonExtraListElement732,
 																									expr: &choiceExpr{
-																										pos: position{line: 2887, col: 13, offset: 91418},
+																										pos: position{line: 2889, col: 13, offset: 91489},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 13, offset: 91418},
+																												pos:        position{line: 2889, col: 13, offset: 91489},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 20, offset: 91425},
+																												pos:        position{line: 2889, col: 20, offset: 91496},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 29, offset: 91434},
+																												pos:        position{line: 2889, col: 29, offset: 91505},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29375,9 +29375,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2897, col: 8, offset: 91594},
+																									pos: position{line: 2899, col: 8, offset: 91665},
 																									expr: &anyMatcher{
-																										line: 2897, col: 9, offset: 91595,
+																										line: 2899, col: 9, offset: 91666,
 																									},
 																								},
 																							},
@@ -29422,10 +29422,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 786, col: 8, offset: 25258},
 																							expr: &actionExpr{
-																								pos: position{line: 2878, col: 10, offset: 91246},
+																								pos: position{line: 2880, col: 10, offset: 91317},
 																								run: (*parser).callonExtraListElement748,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 10, offset: 91246},
+																									pos:        position{line: 2880, col: 10, offset: 91317},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29434,28 +29434,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2900, col: 8, offset: 91644},
+																							pos: position{line: 2902, col: 8, offset: 91715},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2887, col: 12, offset: 91417},
+																									pos: position{line: 2889, col: 12, offset: 91488},
 																									run: (*parser).callonExtraListElement751,
 																									expr: &choiceExpr{
-																										pos: position{line: 2887, col: 13, offset: 91418},
+																										pos: position{line: 2889, col: 13, offset: 91489},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 13, offset: 91418},
+																												pos:        position{line: 2889, col: 13, offset: 91489},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 20, offset: 91425},
+																												pos:        position{line: 2889, col: 20, offset: 91496},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 29, offset: 91434},
+																												pos:        position{line: 2889, col: 29, offset: 91505},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29464,9 +29464,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2897, col: 8, offset: 91594},
+																									pos: position{line: 2899, col: 8, offset: 91665},
 																									expr: &anyMatcher{
-																										line: 2897, col: 9, offset: 91595,
+																										line: 2899, col: 9, offset: 91666,
 																									},
 																								},
 																							},
@@ -29511,10 +29511,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 793, col: 8, offset: 25510},
 																							expr: &actionExpr{
-																								pos: position{line: 2878, col: 10, offset: 91246},
+																								pos: position{line: 2880, col: 10, offset: 91317},
 																								run: (*parser).callonExtraListElement767,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 10, offset: 91246},
+																									pos:        position{line: 2880, col: 10, offset: 91317},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29523,28 +29523,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2900, col: 8, offset: 91644},
+																							pos: position{line: 2902, col: 8, offset: 91715},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2887, col: 12, offset: 91417},
+																									pos: position{line: 2889, col: 12, offset: 91488},
 																									run: (*parser).callonExtraListElement770,
 																									expr: &choiceExpr{
-																										pos: position{line: 2887, col: 13, offset: 91418},
+																										pos: position{line: 2889, col: 13, offset: 91489},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 13, offset: 91418},
+																												pos:        position{line: 2889, col: 13, offset: 91489},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 20, offset: 91425},
+																												pos:        position{line: 2889, col: 20, offset: 91496},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 29, offset: 91434},
+																												pos:        position{line: 2889, col: 29, offset: 91505},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29553,9 +29553,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2897, col: 8, offset: 91594},
+																									pos: position{line: 2899, col: 8, offset: 91665},
 																									expr: &anyMatcher{
-																										line: 2897, col: 9, offset: 91595,
+																										line: 2899, col: 9, offset: 91666,
 																									},
 																								},
 																							},
@@ -29600,10 +29600,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 800, col: 8, offset: 25760},
 																							expr: &actionExpr{
-																								pos: position{line: 2878, col: 10, offset: 91246},
+																								pos: position{line: 2880, col: 10, offset: 91317},
 																								run: (*parser).callonExtraListElement786,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 10, offset: 91246},
+																									pos:        position{line: 2880, col: 10, offset: 91317},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29612,28 +29612,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2900, col: 8, offset: 91644},
+																							pos: position{line: 2902, col: 8, offset: 91715},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2887, col: 12, offset: 91417},
+																									pos: position{line: 2889, col: 12, offset: 91488},
 																									run: (*parser).callonExtraListElement789,
 																									expr: &choiceExpr{
-																										pos: position{line: 2887, col: 13, offset: 91418},
+																										pos: position{line: 2889, col: 13, offset: 91489},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 13, offset: 91418},
+																												pos:        position{line: 2889, col: 13, offset: 91489},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 20, offset: 91425},
+																												pos:        position{line: 2889, col: 20, offset: 91496},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 29, offset: 91434},
+																												pos:        position{line: 2889, col: 29, offset: 91505},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29642,9 +29642,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2897, col: 8, offset: 91594},
+																									pos: position{line: 2899, col: 8, offset: 91665},
 																									expr: &anyMatcher{
-																										line: 2897, col: 9, offset: 91595,
+																										line: 2899, col: 9, offset: 91666,
 																									},
 																								},
 																							},
@@ -29689,10 +29689,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 807, col: 8, offset: 26006},
 																							expr: &actionExpr{
-																								pos: position{line: 2878, col: 10, offset: 91246},
+																								pos: position{line: 2880, col: 10, offset: 91317},
 																								run: (*parser).callonExtraListElement805,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 10, offset: 91246},
+																									pos:        position{line: 2880, col: 10, offset: 91317},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29701,28 +29701,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2900, col: 8, offset: 91644},
+																							pos: position{line: 2902, col: 8, offset: 91715},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2887, col: 12, offset: 91417},
+																									pos: position{line: 2889, col: 12, offset: 91488},
 																									run: (*parser).callonExtraListElement808,
 																									expr: &choiceExpr{
-																										pos: position{line: 2887, col: 13, offset: 91418},
+																										pos: position{line: 2889, col: 13, offset: 91489},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 13, offset: 91418},
+																												pos:        position{line: 2889, col: 13, offset: 91489},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 20, offset: 91425},
+																												pos:        position{line: 2889, col: 20, offset: 91496},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 29, offset: 91434},
+																												pos:        position{line: 2889, col: 29, offset: 91505},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29731,9 +29731,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2897, col: 8, offset: 91594},
+																									pos: position{line: 2899, col: 8, offset: 91665},
 																									expr: &anyMatcher{
-																										line: 2897, col: 9, offset: 91595,
+																										line: 2899, col: 9, offset: 91666,
 																									},
 																								},
 																							},
@@ -29752,12 +29752,12 @@ var g = &grammar{
 													pos:   position{line: 1524, col: 5, offset: 49625},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2828, col: 14, offset: 89839},
+														pos: position{line: 2830, col: 14, offset: 89910},
 														run: (*parser).callonExtraListElement816,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2828, col: 14, offset: 89839},
+															pos: position{line: 2830, col: 14, offset: 89910},
 															expr: &charClassMatcher{
-																pos:        position{line: 2828, col: 14, offset: 89839},
+																pos:        position{line: 2830, col: 14, offset: 89910},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -29767,28 +29767,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2900, col: 8, offset: 91644},
+													pos: position{line: 2902, col: 8, offset: 91715},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2887, col: 12, offset: 91417},
+															pos: position{line: 2889, col: 12, offset: 91488},
 															run: (*parser).callonExtraListElement820,
 															expr: &choiceExpr{
-																pos: position{line: 2887, col: 13, offset: 91418},
+																pos: position{line: 2889, col: 13, offset: 91489},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2887, col: 13, offset: 91418},
+																		pos:        position{line: 2889, col: 13, offset: 91489},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2887, col: 20, offset: 91425},
+																		pos:        position{line: 2889, col: 20, offset: 91496},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2887, col: 29, offset: 91434},
+																		pos:        position{line: 2889, col: 29, offset: 91505},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -29797,9 +29797,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2897, col: 8, offset: 91594},
+															pos: position{line: 2899, col: 8, offset: 91665},
 															expr: &anyMatcher{
-																line: 2897, col: 9, offset: 91595,
+																line: 2899, col: 9, offset: 91666,
 															},
 														},
 													},
@@ -29834,10 +29834,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 1541, col: 13, offset: 50049},
 											expr: &actionExpr{
-												pos: position{line: 2878, col: 10, offset: 91246},
+												pos: position{line: 2880, col: 10, offset: 91317},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2878, col: 10, offset: 91246},
+													pos:        position{line: 2880, col: 10, offset: 91317},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -29846,25 +29846,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2887, col: 12, offset: 91417},
+											pos: position{line: 2889, col: 12, offset: 91488},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2887, col: 13, offset: 91418},
+												pos: position{line: 2889, col: 13, offset: 91489},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2887, col: 13, offset: 91418},
+														pos:        position{line: 2889, col: 13, offset: 91489},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2887, col: 20, offset: 91425},
+														pos:        position{line: 2889, col: 20, offset: 91496},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2887, col: 29, offset: 91434},
+														pos:        position{line: 2889, col: 29, offset: 91505},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -29885,10 +29885,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1548, col: 31, offset: 50257},
 							expr: &actionExpr{
-								pos: position{line: 2878, col: 10, offset: 91246},
+								pos: position{line: 2880, col: 10, offset: 91317},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2878, col: 10, offset: 91246},
+									pos:        position{line: 2880, col: 10, offset: 91317},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -29897,25 +29897,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2887, col: 12, offset: 91417},
+							pos: position{line: 2889, col: 12, offset: 91488},
 							run: (*parser).callonListContinuation18,
 							expr: &choiceExpr{
-								pos: position{line: 2887, col: 13, offset: 91418},
+								pos: position{line: 2889, col: 13, offset: 91489},
 								alternatives: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2887, col: 13, offset: 91418},
+										pos:        position{line: 2889, col: 13, offset: 91489},
 										val:        "\n",
 										ignoreCase: false,
 										want:       "\"\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2887, col: 20, offset: 91425},
+										pos:        position{line: 2889, col: 20, offset: 91496},
 										val:        "\r\n",
 										ignoreCase: false,
 										want:       "\"\\r\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2887, col: 29, offset: 91434},
+										pos:        position{line: 2889, col: 29, offset: 91505},
 										val:        "\r",
 										ignoreCase: false,
 										want:       "\"\\r\"",
@@ -29948,9 +29948,9 @@ var g = &grammar{
 					pos: position{line: 1551, col: 5, offset: 50344},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2895, col: 11, offset: 91580},
+							pos: position{line: 2897, col: 11, offset: 91651},
 							expr: &anyMatcher{
-								line: 2895, col: 13, offset: 91582,
+								line: 2897, col: 13, offset: 91653,
 							},
 						},
 						&notExpr{
@@ -29976,10 +29976,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1589, col: 5, offset: 51472},
 																	expr: &actionExpr{
-																		pos: position{line: 2878, col: 10, offset: 91246},
+																		pos: position{line: 2880, col: 10, offset: 91317},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2878, col: 10, offset: 91246},
+																			pos:        position{line: 2880, col: 10, offset: 91317},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30146,12 +30146,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2882, col: 11, offset: 91307},
+																	pos: position{line: 2884, col: 11, offset: 91378},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2882, col: 11, offset: 91307},
+																		pos: position{line: 2884, col: 11, offset: 91378},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2882, col: 11, offset: 91307},
+																			pos:        position{line: 2884, col: 11, offset: 91378},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30194,28 +30194,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2900, col: 8, offset: 91644},
+																	pos: position{line: 2902, col: 8, offset: 91715},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2887, col: 12, offset: 91417},
+																			pos: position{line: 2889, col: 12, offset: 91488},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2887, col: 13, offset: 91418},
+																				pos: position{line: 2889, col: 13, offset: 91489},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 13, offset: 91418},
+																						pos:        position{line: 2889, col: 13, offset: 91489},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 20, offset: 91425},
+																						pos:        position{line: 2889, col: 20, offset: 91496},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 29, offset: 91434},
+																						pos:        position{line: 2889, col: 29, offset: 91505},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30224,9 +30224,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2897, col: 8, offset: 91594},
+																			pos: position{line: 2899, col: 8, offset: 91665},
 																			expr: &anyMatcher{
-																				line: 2897, col: 9, offset: 91595,
+																				line: 2899, col: 9, offset: 91666,
 																			},
 																		},
 																	},
@@ -30256,10 +30256,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1639, col: 5, offset: 53434},
 																	expr: &actionExpr{
-																		pos: position{line: 2878, col: 10, offset: 91246},
+																		pos: position{line: 2880, col: 10, offset: 91317},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2878, col: 10, offset: 91246},
+																			pos:        position{line: 2880, col: 10, offset: 91317},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30300,12 +30300,12 @@ var g = &grammar{
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2882, col: 11, offset: 91307},
+																	pos: position{line: 2884, col: 11, offset: 91378},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2882, col: 11, offset: 91307},
+																		pos: position{line: 2884, col: 11, offset: 91378},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2882, col: 11, offset: 91307},
+																			pos:        position{line: 2884, col: 11, offset: 91378},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30377,12 +30377,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2882, col: 11, offset: 91307},
+																		pos: position{line: 2884, col: 11, offset: 91378},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2882, col: 11, offset: 91307},
+																			pos: position{line: 2884, col: 11, offset: 91378},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2882, col: 11, offset: 91307},
+																				pos:        position{line: 2884, col: 11, offset: 91378},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -30426,28 +30426,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2900, col: 8, offset: 91644},
+																	pos: position{line: 2902, col: 8, offset: 91715},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2887, col: 12, offset: 91417},
+																			pos: position{line: 2889, col: 12, offset: 91488},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2887, col: 13, offset: 91418},
+																				pos: position{line: 2889, col: 13, offset: 91489},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 13, offset: 91418},
+																						pos:        position{line: 2889, col: 13, offset: 91489},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 20, offset: 91425},
+																						pos:        position{line: 2889, col: 20, offset: 91496},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 29, offset: 91434},
+																						pos:        position{line: 2889, col: 29, offset: 91505},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30456,9 +30456,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2897, col: 8, offset: 91594},
+																			pos: position{line: 2899, col: 8, offset: 91665},
 																			expr: &anyMatcher{
-																				line: 2897, col: 9, offset: 91595,
+																				line: 2899, col: 9, offset: 91666,
 																			},
 																		},
 																	},
@@ -30516,12 +30516,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2882, col: 11, offset: 91307},
+																	pos: position{line: 2884, col: 11, offset: 91378},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2882, col: 11, offset: 91307},
+																		pos: position{line: 2884, col: 11, offset: 91378},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2882, col: 11, offset: 91307},
+																			pos:        position{line: 2884, col: 11, offset: 91378},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30564,28 +30564,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2900, col: 8, offset: 91644},
+																	pos: position{line: 2902, col: 8, offset: 91715},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2887, col: 12, offset: 91417},
+																			pos: position{line: 2889, col: 12, offset: 91488},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2887, col: 13, offset: 91418},
+																				pos: position{line: 2889, col: 13, offset: 91489},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 13, offset: 91418},
+																						pos:        position{line: 2889, col: 13, offset: 91489},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 20, offset: 91425},
+																						pos:        position{line: 2889, col: 20, offset: 91496},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 29, offset: 91434},
+																						pos:        position{line: 2889, col: 29, offset: 91505},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30594,9 +30594,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2897, col: 8, offset: 91594},
+																			pos: position{line: 2899, col: 8, offset: 91665},
 																			expr: &anyMatcher{
-																				line: 2897, col: 9, offset: 91595,
+																				line: 2899, col: 9, offset: 91666,
 																			},
 																		},
 																	},
@@ -30626,18 +30626,18 @@ var g = &grammar{
 																&notExpr{
 																	pos: position{line: 1674, col: 5, offset: 54453},
 																	expr: &seqExpr{
-																		pos: position{line: 2490, col: 31, offset: 80353},
+																		pos: position{line: 2492, col: 31, offset: 80424},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2490, col: 31, offset: 80353},
+																				pos:        position{line: 2492, col: 31, offset: 80424},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2490, col: 36, offset: 80358},
+																				pos: position{line: 2492, col: 36, offset: 80429},
 																				expr: &litMatcher{
-																					pos:        position{line: 2490, col: 37, offset: 80359},
+																					pos:        position{line: 2492, col: 37, offset: 80430},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
@@ -30687,28 +30687,28 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1675, col: 35, offset: 54515},
 																				expr: &choiceExpr{
-																					pos: position{line: 2900, col: 8, offset: 91644},
+																					pos: position{line: 2902, col: 8, offset: 91715},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2887, col: 12, offset: 91417},
+																							pos: position{line: 2889, col: 12, offset: 91488},
 																							run: (*parser).callonListContinuationElement169,
 																							expr: &choiceExpr{
-																								pos: position{line: 2887, col: 13, offset: 91418},
+																								pos: position{line: 2889, col: 13, offset: 91489},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2887, col: 13, offset: 91418},
+																										pos:        position{line: 2889, col: 13, offset: 91489},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2887, col: 20, offset: 91425},
+																										pos:        position{line: 2889, col: 20, offset: 91496},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2887, col: 29, offset: 91434},
+																										pos:        position{line: 2889, col: 29, offset: 91505},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -30717,9 +30717,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2897, col: 8, offset: 91594},
+																							pos: position{line: 2899, col: 8, offset: 91665},
 																							expr: &anyMatcher{
-																								line: 2897, col: 9, offset: 91595,
+																								line: 2899, col: 9, offset: 91666,
 																							},
 																						},
 																					},
@@ -30784,10 +30784,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 1693, col: 9, offset: 55020},
 																			expr: &actionExpr{
-																				pos: position{line: 2878, col: 10, offset: 91246},
+																				pos: position{line: 2880, col: 10, offset: 91317},
 																				run: (*parser).callonListContinuationElement190,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2878, col: 10, offset: 91246},
+																					pos:        position{line: 2880, col: 10, offset: 91317},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30796,28 +30796,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2900, col: 8, offset: 91644},
+																			pos: position{line: 2902, col: 8, offset: 91715},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2887, col: 12, offset: 91417},
+																					pos: position{line: 2889, col: 12, offset: 91488},
 																					run: (*parser).callonListContinuationElement193,
 																					expr: &choiceExpr{
-																						pos: position{line: 2887, col: 13, offset: 91418},
+																						pos: position{line: 2889, col: 13, offset: 91489},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2887, col: 13, offset: 91418},
+																								pos:        position{line: 2889, col: 13, offset: 91489},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2887, col: 20, offset: 91425},
+																								pos:        position{line: 2889, col: 20, offset: 91496},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2887, col: 29, offset: 91434},
+																								pos:        position{line: 2889, col: 29, offset: 91505},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30826,9 +30826,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2897, col: 8, offset: 91594},
+																					pos: position{line: 2899, col: 8, offset: 91665},
 																					expr: &anyMatcher{
-																						line: 2897, col: 9, offset: 91595,
+																						line: 2899, col: 9, offset: 91666,
 																					},
 																				},
 																			},
@@ -30842,18 +30842,18 @@ var g = &grammar{
 																					pos: position{line: 677, col: 14, offset: 21525},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2895, col: 11, offset: 91580},
+																							pos: position{line: 2897, col: 11, offset: 91651},
 																							expr: &anyMatcher{
-																								line: 2895, col: 13, offset: 91582,
+																								line: 2897, col: 13, offset: 91653,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 677, col: 21, offset: 21532},
 																							expr: &actionExpr{
-																								pos: position{line: 2878, col: 10, offset: 91246},
+																								pos: position{line: 2880, col: 10, offset: 91317},
 																								run: (*parser).callonListContinuationElement206,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 10, offset: 91246},
+																									pos:        position{line: 2880, col: 10, offset: 91317},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30862,28 +30862,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2900, col: 8, offset: 91644},
+																							pos: position{line: 2902, col: 8, offset: 91715},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2887, col: 12, offset: 91417},
+																									pos: position{line: 2889, col: 12, offset: 91488},
 																									run: (*parser).callonListContinuationElement209,
 																									expr: &choiceExpr{
-																										pos: position{line: 2887, col: 13, offset: 91418},
+																										pos: position{line: 2889, col: 13, offset: 91489},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 13, offset: 91418},
+																												pos:        position{line: 2889, col: 13, offset: 91489},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 20, offset: 91425},
+																												pos:        position{line: 2889, col: 20, offset: 91496},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 29, offset: 91434},
+																												pos:        position{line: 2889, col: 29, offset: 91505},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30892,9 +30892,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2897, col: 8, offset: 91594},
+																									pos: position{line: 2899, col: 8, offset: 91665},
 																									expr: &anyMatcher{
-																										line: 2897, col: 9, offset: 91595,
+																										line: 2899, col: 9, offset: 91666,
 																									},
 																								},
 																							},
@@ -30913,12 +30913,12 @@ var g = &grammar{
 																	pos: position{line: 1700, col: 9, offset: 55168},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2882, col: 11, offset: 91307},
+																			pos: position{line: 2884, col: 11, offset: 91378},
 																			run: (*parser).callonListContinuationElement218,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2882, col: 11, offset: 91307},
+																				pos: position{line: 2884, col: 11, offset: 91378},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2882, col: 11, offset: 91307},
+																					pos:        position{line: 2884, col: 11, offset: 91378},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30945,28 +30945,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2900, col: 8, offset: 91644},
+																			pos: position{line: 2902, col: 8, offset: 91715},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2887, col: 12, offset: 91417},
+																					pos: position{line: 2889, col: 12, offset: 91488},
 																					run: (*parser).callonListContinuationElement226,
 																					expr: &choiceExpr{
-																						pos: position{line: 2887, col: 13, offset: 91418},
+																						pos: position{line: 2889, col: 13, offset: 91489},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2887, col: 13, offset: 91418},
+																								pos:        position{line: 2889, col: 13, offset: 91489},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2887, col: 20, offset: 91425},
+																								pos:        position{line: 2889, col: 20, offset: 91496},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2887, col: 29, offset: 91434},
+																								pos:        position{line: 2889, col: 29, offset: 91505},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30975,9 +30975,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2897, col: 8, offset: 91594},
+																					pos: position{line: 2899, col: 8, offset: 91665},
 																					expr: &anyMatcher{
-																						line: 2897, col: 9, offset: 91595,
+																						line: 2899, col: 9, offset: 91666,
 																					},
 																				},
 																			},
@@ -31018,18 +31018,18 @@ var g = &grammar{
 											pos: position{line: 677, col: 14, offset: 21525},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2895, col: 11, offset: 91580},
+													pos: position{line: 2897, col: 11, offset: 91651},
 													expr: &anyMatcher{
-														line: 2895, col: 13, offset: 91582,
+														line: 2897, col: 13, offset: 91653,
 													},
 												},
 												&zeroOrMoreExpr{
 													pos: position{line: 677, col: 21, offset: 21532},
 													expr: &actionExpr{
-														pos: position{line: 2878, col: 10, offset: 91246},
+														pos: position{line: 2880, col: 10, offset: 91317},
 														run: (*parser).callonListContinuationElement243,
 														expr: &charClassMatcher{
-															pos:        position{line: 2878, col: 10, offset: 91246},
+															pos:        position{line: 2880, col: 10, offset: 91317},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31038,28 +31038,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2900, col: 8, offset: 91644},
+													pos: position{line: 2902, col: 8, offset: 91715},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2887, col: 12, offset: 91417},
+															pos: position{line: 2889, col: 12, offset: 91488},
 															run: (*parser).callonListContinuationElement246,
 															expr: &choiceExpr{
-																pos: position{line: 2887, col: 13, offset: 91418},
+																pos: position{line: 2889, col: 13, offset: 91489},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2887, col: 13, offset: 91418},
+																		pos:        position{line: 2889, col: 13, offset: 91489},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2887, col: 20, offset: 91425},
+																		pos:        position{line: 2889, col: 20, offset: 91496},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2887, col: 29, offset: 91434},
+																		pos:        position{line: 2889, col: 29, offset: 91505},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31068,9 +31068,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2897, col: 8, offset: 91594},
+															pos: position{line: 2899, col: 8, offset: 91665},
 															expr: &anyMatcher{
-																line: 2897, col: 9, offset: 91595,
+																line: 2899, col: 9, offset: 91666,
 															},
 														},
 													},
@@ -31135,10 +31135,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 359, col: 49, offset: 10879},
 													expr: &actionExpr{
-														pos: position{line: 2878, col: 10, offset: 91246},
+														pos: position{line: 2880, col: 10, offset: 91317},
 														run: (*parser).callonListContinuationElement265,
 														expr: &charClassMatcher{
-															pos:        position{line: 2878, col: 10, offset: 91246},
+															pos:        position{line: 2880, col: 10, offset: 91317},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31147,28 +31147,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2900, col: 8, offset: 91644},
+													pos: position{line: 2902, col: 8, offset: 91715},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2887, col: 12, offset: 91417},
+															pos: position{line: 2889, col: 12, offset: 91488},
 															run: (*parser).callonListContinuationElement268,
 															expr: &choiceExpr{
-																pos: position{line: 2887, col: 13, offset: 91418},
+																pos: position{line: 2889, col: 13, offset: 91489},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2887, col: 13, offset: 91418},
+																		pos:        position{line: 2889, col: 13, offset: 91489},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2887, col: 20, offset: 91425},
+																		pos:        position{line: 2889, col: 20, offset: 91496},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2887, col: 29, offset: 91434},
+																		pos:        position{line: 2889, col: 29, offset: 91505},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31177,9 +31177,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2897, col: 8, offset: 91594},
+															pos: position{line: 2899, col: 8, offset: 91665},
 															expr: &anyMatcher{
-																line: 2897, col: 9, offset: 91595,
+																line: 2899, col: 9, offset: 91666,
 															},
 														},
 													},
@@ -31240,10 +31240,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 361, col: 39, offset: 11000},
 													expr: &actionExpr{
-														pos: position{line: 2878, col: 10, offset: 91246},
+														pos: position{line: 2880, col: 10, offset: 91317},
 														run: (*parser).callonListContinuationElement286,
 														expr: &charClassMatcher{
-															pos:        position{line: 2878, col: 10, offset: 91246},
+															pos:        position{line: 2880, col: 10, offset: 91317},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31252,28 +31252,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2900, col: 8, offset: 91644},
+													pos: position{line: 2902, col: 8, offset: 91715},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2887, col: 12, offset: 91417},
+															pos: position{line: 2889, col: 12, offset: 91488},
 															run: (*parser).callonListContinuationElement289,
 															expr: &choiceExpr{
-																pos: position{line: 2887, col: 13, offset: 91418},
+																pos: position{line: 2889, col: 13, offset: 91489},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2887, col: 13, offset: 91418},
+																		pos:        position{line: 2889, col: 13, offset: 91489},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2887, col: 20, offset: 91425},
+																		pos:        position{line: 2889, col: 20, offset: 91496},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2887, col: 29, offset: 91434},
+																		pos:        position{line: 2889, col: 29, offset: 91505},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31282,9 +31282,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2897, col: 8, offset: 91594},
+															pos: position{line: 2899, col: 8, offset: 91665},
 															expr: &anyMatcher{
-																line: 2897, col: 9, offset: 91595,
+																line: 2899, col: 9, offset: 91666,
 															},
 														},
 													},
@@ -31335,10 +31335,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 743, col: 8, offset: 23745},
 																expr: &actionExpr{
-																	pos: position{line: 2878, col: 10, offset: 91246},
+																	pos: position{line: 2880, col: 10, offset: 91317},
 																	run: (*parser).callonListContinuationElement307,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2878, col: 10, offset: 91246},
+																		pos:        position{line: 2880, col: 10, offset: 91317},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -31347,28 +31347,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2900, col: 8, offset: 91644},
+																pos: position{line: 2902, col: 8, offset: 91715},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2887, col: 12, offset: 91417},
+																		pos: position{line: 2889, col: 12, offset: 91488},
 																		run: (*parser).callonListContinuationElement310,
 																		expr: &choiceExpr{
-																			pos: position{line: 2887, col: 13, offset: 91418},
+																			pos: position{line: 2889, col: 13, offset: 91489},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2887, col: 13, offset: 91418},
+																					pos:        position{line: 2889, col: 13, offset: 91489},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2887, col: 20, offset: 91425},
+																					pos:        position{line: 2889, col: 20, offset: 91496},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2887, col: 29, offset: 91434},
+																					pos:        position{line: 2889, col: 29, offset: 91505},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -31377,9 +31377,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2897, col: 8, offset: 91594},
+																		pos: position{line: 2899, col: 8, offset: 91665},
 																		expr: &anyMatcher{
-																			line: 2897, col: 9, offset: 91595,
+																			line: 2899, col: 9, offset: 91666,
 																		},
 																	},
 																},
@@ -31440,10 +31440,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 743, col: 8, offset: 23745},
 																								expr: &actionExpr{
-																									pos: position{line: 2878, col: 10, offset: 91246},
+																									pos: position{line: 2880, col: 10, offset: 91317},
 																									run: (*parser).callonListContinuationElement332,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2878, col: 10, offset: 91246},
+																										pos:        position{line: 2880, col: 10, offset: 91317},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -31452,28 +31452,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2900, col: 8, offset: 91644},
+																								pos: position{line: 2902, col: 8, offset: 91715},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2887, col: 12, offset: 91417},
+																										pos: position{line: 2889, col: 12, offset: 91488},
 																										run: (*parser).callonListContinuationElement335,
 																										expr: &choiceExpr{
-																											pos: position{line: 2887, col: 13, offset: 91418},
+																											pos: position{line: 2889, col: 13, offset: 91489},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2887, col: 13, offset: 91418},
+																													pos:        position{line: 2889, col: 13, offset: 91489},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2887, col: 20, offset: 91425},
+																													pos:        position{line: 2889, col: 20, offset: 91496},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2887, col: 29, offset: 91434},
+																													pos:        position{line: 2889, col: 29, offset: 91505},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -31482,9 +31482,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2897, col: 8, offset: 91594},
+																										pos: position{line: 2899, col: 8, offset: 91665},
 																										expr: &anyMatcher{
-																											line: 2897, col: 9, offset: 91595,
+																											line: 2899, col: 9, offset: 91666,
 																										},
 																									},
 																								},
@@ -31493,9 +31493,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2897, col: 8, offset: 91594},
+																					pos: position{line: 2899, col: 8, offset: 91665},
 																					expr: &anyMatcher{
-																						line: 2897, col: 9, offset: 91595,
+																						line: 2899, col: 9, offset: 91666,
 																					},
 																				},
 																			},
@@ -31511,21 +31511,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2895, col: 11, offset: 91580},
+																						pos: position{line: 2897, col: 11, offset: 91651},
 																						expr: &anyMatcher{
-																							line: 2895, col: 13, offset: 91582,
+																							line: 2897, col: 13, offset: 91653,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2824, col: 13, offset: 89772},
+																							pos: position{line: 2826, col: 13, offset: 89843},
 																							run: (*parser).callonListContinuationElement350,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2824, col: 13, offset: 89772},
+																								pos: position{line: 2826, col: 13, offset: 89843},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2824, col: 13, offset: 89772},
+																									pos:        position{line: 2826, col: 13, offset: 89843},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31535,28 +31535,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2900, col: 8, offset: 91644},
+																						pos: position{line: 2902, col: 8, offset: 91715},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2887, col: 12, offset: 91417},
+																								pos: position{line: 2889, col: 12, offset: 91488},
 																								run: (*parser).callonListContinuationElement354,
 																								expr: &choiceExpr{
-																									pos: position{line: 2887, col: 13, offset: 91418},
+																									pos: position{line: 2889, col: 13, offset: 91489},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 13, offset: 91418},
+																											pos:        position{line: 2889, col: 13, offset: 91489},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 20, offset: 91425},
+																											pos:        position{line: 2889, col: 20, offset: 91496},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 29, offset: 91434},
+																											pos:        position{line: 2889, col: 29, offset: 91505},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31565,9 +31565,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2897, col: 8, offset: 91594},
+																								pos: position{line: 2899, col: 8, offset: 91665},
 																								expr: &anyMatcher{
-																									line: 2897, col: 9, offset: 91595,
+																									line: 2899, col: 9, offset: 91666,
 																								},
 																							},
 																						},
@@ -31623,10 +31623,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 743, col: 8, offset: 23745},
 																			expr: &actionExpr{
-																				pos: position{line: 2878, col: 10, offset: 91246},
+																				pos: position{line: 2880, col: 10, offset: 91317},
 																				run: (*parser).callonListContinuationElement372,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2878, col: 10, offset: 91246},
+																					pos:        position{line: 2880, col: 10, offset: 91317},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -31635,28 +31635,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2900, col: 8, offset: 91644},
+																			pos: position{line: 2902, col: 8, offset: 91715},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2887, col: 12, offset: 91417},
+																					pos: position{line: 2889, col: 12, offset: 91488},
 																					run: (*parser).callonListContinuationElement375,
 																					expr: &choiceExpr{
-																						pos: position{line: 2887, col: 13, offset: 91418},
+																						pos: position{line: 2889, col: 13, offset: 91489},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2887, col: 13, offset: 91418},
+																								pos:        position{line: 2889, col: 13, offset: 91489},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2887, col: 20, offset: 91425},
+																								pos:        position{line: 2889, col: 20, offset: 91496},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2887, col: 29, offset: 91434},
+																								pos:        position{line: 2889, col: 29, offset: 91505},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31665,9 +31665,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2897, col: 8, offset: 91594},
+																					pos: position{line: 2899, col: 8, offset: 91665},
 																					expr: &anyMatcher{
-																						line: 2897, col: 9, offset: 91595,
+																						line: 2899, col: 9, offset: 91666,
 																					},
 																				},
 																			},
@@ -31676,9 +31676,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2897, col: 8, offset: 91594},
+																pos: position{line: 2899, col: 8, offset: 91665},
 																expr: &anyMatcher{
-																	line: 2897, col: 9, offset: 91595,
+																	line: 2899, col: 9, offset: 91666,
 																},
 															},
 														},
@@ -31733,10 +31733,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 750, col: 8, offset: 23993},
 																	expr: &actionExpr{
-																		pos: position{line: 2878, col: 10, offset: 91246},
+																		pos: position{line: 2880, col: 10, offset: 91317},
 																		run: (*parser).callonListContinuationElement396,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2878, col: 10, offset: 91246},
+																			pos:        position{line: 2880, col: 10, offset: 91317},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31745,28 +31745,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2900, col: 8, offset: 91644},
+																	pos: position{line: 2902, col: 8, offset: 91715},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2887, col: 12, offset: 91417},
+																			pos: position{line: 2889, col: 12, offset: 91488},
 																			run: (*parser).callonListContinuationElement399,
 																			expr: &choiceExpr{
-																				pos: position{line: 2887, col: 13, offset: 91418},
+																				pos: position{line: 2889, col: 13, offset: 91489},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 13, offset: 91418},
+																						pos:        position{line: 2889, col: 13, offset: 91489},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 20, offset: 91425},
+																						pos:        position{line: 2889, col: 20, offset: 91496},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 29, offset: 91434},
+																						pos:        position{line: 2889, col: 29, offset: 91505},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31775,9 +31775,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2897, col: 8, offset: 91594},
+																			pos: position{line: 2899, col: 8, offset: 91665},
 																			expr: &anyMatcher{
-																				line: 2897, col: 9, offset: 91595,
+																				line: 2899, col: 9, offset: 91666,
 																			},
 																		},
 																	},
@@ -31849,10 +31849,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 750, col: 8, offset: 23993},
 																											expr: &actionExpr{
-																												pos: position{line: 2878, col: 10, offset: 91246},
+																												pos: position{line: 2880, col: 10, offset: 91317},
 																												run: (*parser).callonListContinuationElement424,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2878, col: 10, offset: 91246},
+																													pos:        position{line: 2880, col: 10, offset: 91317},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31861,28 +31861,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2900, col: 8, offset: 91644},
+																											pos: position{line: 2902, col: 8, offset: 91715},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2887, col: 12, offset: 91417},
+																													pos: position{line: 2889, col: 12, offset: 91488},
 																													run: (*parser).callonListContinuationElement427,
 																													expr: &choiceExpr{
-																														pos: position{line: 2887, col: 13, offset: 91418},
+																														pos: position{line: 2889, col: 13, offset: 91489},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 13, offset: 91418},
+																																pos:        position{line: 2889, col: 13, offset: 91489},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 20, offset: 91425},
+																																pos:        position{line: 2889, col: 20, offset: 91496},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 29, offset: 91434},
+																																pos:        position{line: 2889, col: 29, offset: 91505},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31891,9 +31891,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2897, col: 8, offset: 91594},
+																													pos: position{line: 2899, col: 8, offset: 91665},
 																													expr: &anyMatcher{
-																														line: 2897, col: 9, offset: 91595,
+																														line: 2899, col: 9, offset: 91666,
 																													},
 																												},
 																											},
@@ -31909,9 +31909,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2897, col: 8, offset: 91594},
+																					pos: position{line: 2899, col: 8, offset: 91665},
 																					expr: &anyMatcher{
-																						line: 2897, col: 9, offset: 91595,
+																						line: 2899, col: 9, offset: 91666,
 																					},
 																				},
 																			},
@@ -31927,21 +31927,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2895, col: 11, offset: 91580},
+																						pos: position{line: 2897, col: 11, offset: 91651},
 																						expr: &anyMatcher{
-																							line: 2895, col: 13, offset: 91582,
+																							line: 2897, col: 13, offset: 91653,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2824, col: 13, offset: 89772},
+																							pos: position{line: 2826, col: 13, offset: 89843},
 																							run: (*parser).callonListContinuationElement443,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2824, col: 13, offset: 89772},
+																								pos: position{line: 2826, col: 13, offset: 89843},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2824, col: 13, offset: 89772},
+																									pos:        position{line: 2826, col: 13, offset: 89843},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31951,28 +31951,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2900, col: 8, offset: 91644},
+																						pos: position{line: 2902, col: 8, offset: 91715},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2887, col: 12, offset: 91417},
+																								pos: position{line: 2889, col: 12, offset: 91488},
 																								run: (*parser).callonListContinuationElement447,
 																								expr: &choiceExpr{
-																									pos: position{line: 2887, col: 13, offset: 91418},
+																									pos: position{line: 2889, col: 13, offset: 91489},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 13, offset: 91418},
+																											pos:        position{line: 2889, col: 13, offset: 91489},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 20, offset: 91425},
+																											pos:        position{line: 2889, col: 20, offset: 91496},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 29, offset: 91434},
+																											pos:        position{line: 2889, col: 29, offset: 91505},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31981,9 +31981,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2897, col: 8, offset: 91594},
+																								pos: position{line: 2899, col: 8, offset: 91665},
 																								expr: &anyMatcher{
-																									line: 2897, col: 9, offset: 91595,
+																									line: 2899, col: 9, offset: 91666,
 																								},
 																							},
 																						},
@@ -32048,10 +32048,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 750, col: 8, offset: 23993},
 																							expr: &actionExpr{
-																								pos: position{line: 2878, col: 10, offset: 91246},
+																								pos: position{line: 2880, col: 10, offset: 91317},
 																								run: (*parser).callonListContinuationElement468,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 10, offset: 91246},
+																									pos:        position{line: 2880, col: 10, offset: 91317},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32060,28 +32060,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2900, col: 8, offset: 91644},
+																							pos: position{line: 2902, col: 8, offset: 91715},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2887, col: 12, offset: 91417},
+																									pos: position{line: 2889, col: 12, offset: 91488},
 																									run: (*parser).callonListContinuationElement471,
 																									expr: &choiceExpr{
-																										pos: position{line: 2887, col: 13, offset: 91418},
+																										pos: position{line: 2889, col: 13, offset: 91489},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 13, offset: 91418},
+																												pos:        position{line: 2889, col: 13, offset: 91489},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 20, offset: 91425},
+																												pos:        position{line: 2889, col: 20, offset: 91496},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 29, offset: 91434},
+																												pos:        position{line: 2889, col: 29, offset: 91505},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32090,9 +32090,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2897, col: 8, offset: 91594},
+																									pos: position{line: 2899, col: 8, offset: 91665},
 																									expr: &anyMatcher{
-																										line: 2897, col: 9, offset: 91595,
+																										line: 2899, col: 9, offset: 91666,
 																									},
 																								},
 																							},
@@ -32108,9 +32108,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2897, col: 8, offset: 91594},
+																	pos: position{line: 2899, col: 8, offset: 91665},
 																	expr: &anyMatcher{
-																		line: 2897, col: 9, offset: 91595,
+																		line: 2899, col: 9, offset: 91666,
 																	},
 																},
 															},
@@ -32162,10 +32162,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 761, col: 52, offset: 24405},
 																	expr: &actionExpr{
-																		pos: position{line: 2878, col: 10, offset: 91246},
+																		pos: position{line: 2880, col: 10, offset: 91317},
 																		run: (*parser).callonListContinuationElement492,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2878, col: 10, offset: 91246},
+																			pos:        position{line: 2880, col: 10, offset: 91317},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32174,28 +32174,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2900, col: 8, offset: 91644},
+																	pos: position{line: 2902, col: 8, offset: 91715},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2887, col: 12, offset: 91417},
+																			pos: position{line: 2889, col: 12, offset: 91488},
 																			run: (*parser).callonListContinuationElement495,
 																			expr: &choiceExpr{
-																				pos: position{line: 2887, col: 13, offset: 91418},
+																				pos: position{line: 2889, col: 13, offset: 91489},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 13, offset: 91418},
+																						pos:        position{line: 2889, col: 13, offset: 91489},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 20, offset: 91425},
+																						pos:        position{line: 2889, col: 20, offset: 91496},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 29, offset: 91434},
+																						pos:        position{line: 2889, col: 29, offset: 91505},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32204,9 +32204,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2897, col: 8, offset: 91594},
+																			pos: position{line: 2899, col: 8, offset: 91665},
 																			expr: &anyMatcher{
-																				line: 2897, col: 9, offset: 91595,
+																				line: 2899, col: 9, offset: 91666,
 																			},
 																		},
 																	},
@@ -32240,10 +32240,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 964, col: 40, offset: 30213},
 																					expr: &actionExpr{
-																						pos: position{line: 2878, col: 10, offset: 91246},
+																						pos: position{line: 2880, col: 10, offset: 91317},
 																						run: (*parser).callonListContinuationElement510,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2878, col: 10, offset: 91246},
+																							pos:        position{line: 2880, col: 10, offset: 91317},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -32252,28 +32252,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2900, col: 8, offset: 91644},
+																					pos: position{line: 2902, col: 8, offset: 91715},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2887, col: 12, offset: 91417},
+																							pos: position{line: 2889, col: 12, offset: 91488},
 																							run: (*parser).callonListContinuationElement513,
 																							expr: &choiceExpr{
-																								pos: position{line: 2887, col: 13, offset: 91418},
+																								pos: position{line: 2889, col: 13, offset: 91489},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2887, col: 13, offset: 91418},
+																										pos:        position{line: 2889, col: 13, offset: 91489},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2887, col: 20, offset: 91425},
+																										pos:        position{line: 2889, col: 20, offset: 91496},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2887, col: 29, offset: 91434},
+																										pos:        position{line: 2889, col: 29, offset: 91505},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -32282,9 +32282,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2897, col: 8, offset: 91594},
+																							pos: position{line: 2899, col: 8, offset: 91665},
 																							expr: &anyMatcher{
-																								line: 2897, col: 9, offset: 91595,
+																								line: 2899, col: 9, offset: 91666,
 																							},
 																						},
 																					},
@@ -32302,21 +32302,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2895, col: 11, offset: 91580},
+																						pos: position{line: 2897, col: 11, offset: 91651},
 																						expr: &anyMatcher{
-																							line: 2895, col: 13, offset: 91582,
+																							line: 2897, col: 13, offset: 91653,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2824, col: 13, offset: 89772},
+																							pos: position{line: 2826, col: 13, offset: 89843},
 																							run: (*parser).callonListContinuationElement526,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2824, col: 13, offset: 89772},
+																								pos: position{line: 2826, col: 13, offset: 89843},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2824, col: 13, offset: 89772},
+																									pos:        position{line: 2826, col: 13, offset: 89843},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32326,28 +32326,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2900, col: 8, offset: 91644},
+																						pos: position{line: 2902, col: 8, offset: 91715},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2887, col: 12, offset: 91417},
+																								pos: position{line: 2889, col: 12, offset: 91488},
 																								run: (*parser).callonListContinuationElement530,
 																								expr: &choiceExpr{
-																									pos: position{line: 2887, col: 13, offset: 91418},
+																									pos: position{line: 2889, col: 13, offset: 91489},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 13, offset: 91418},
+																											pos:        position{line: 2889, col: 13, offset: 91489},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 20, offset: 91425},
+																											pos:        position{line: 2889, col: 20, offset: 91496},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 29, offset: 91434},
+																											pos:        position{line: 2889, col: 29, offset: 91505},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32356,9 +32356,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2897, col: 8, offset: 91594},
+																								pos: position{line: 2899, col: 8, offset: 91665},
 																								expr: &anyMatcher{
-																									line: 2897, col: 9, offset: 91595,
+																									line: 2899, col: 9, offset: 91666,
 																								},
 																							},
 																						},
@@ -32386,10 +32386,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 964, col: 40, offset: 30213},
 																expr: &actionExpr{
-																	pos: position{line: 2878, col: 10, offset: 91246},
+																	pos: position{line: 2880, col: 10, offset: 91317},
 																	run: (*parser).callonListContinuationElement541,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2878, col: 10, offset: 91246},
+																		pos:        position{line: 2880, col: 10, offset: 91317},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -32398,28 +32398,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2900, col: 8, offset: 91644},
+																pos: position{line: 2902, col: 8, offset: 91715},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2887, col: 12, offset: 91417},
+																		pos: position{line: 2889, col: 12, offset: 91488},
 																		run: (*parser).callonListContinuationElement544,
 																		expr: &choiceExpr{
-																			pos: position{line: 2887, col: 13, offset: 91418},
+																			pos: position{line: 2889, col: 13, offset: 91489},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2887, col: 13, offset: 91418},
+																					pos:        position{line: 2889, col: 13, offset: 91489},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2887, col: 20, offset: 91425},
+																					pos:        position{line: 2889, col: 20, offset: 91496},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2887, col: 29, offset: 91434},
+																					pos:        position{line: 2889, col: 29, offset: 91505},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -32428,9 +32428,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2897, col: 8, offset: 91594},
+																		pos: position{line: 2899, col: 8, offset: 91665},
 																		expr: &anyMatcher{
-																			line: 2897, col: 9, offset: 91595,
+																			line: 2899, col: 9, offset: 91666,
 																		},
 																	},
 																},
@@ -32487,10 +32487,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 757, col: 8, offset: 24239},
 																	expr: &actionExpr{
-																		pos: position{line: 2878, col: 10, offset: 91246},
+																		pos: position{line: 2880, col: 10, offset: 91317},
 																		run: (*parser).callonListContinuationElement563,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2878, col: 10, offset: 91246},
+																			pos:        position{line: 2880, col: 10, offset: 91317},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32499,28 +32499,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2900, col: 8, offset: 91644},
+																	pos: position{line: 2902, col: 8, offset: 91715},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2887, col: 12, offset: 91417},
+																			pos: position{line: 2889, col: 12, offset: 91488},
 																			run: (*parser).callonListContinuationElement566,
 																			expr: &choiceExpr{
-																				pos: position{line: 2887, col: 13, offset: 91418},
+																				pos: position{line: 2889, col: 13, offset: 91489},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 13, offset: 91418},
+																						pos:        position{line: 2889, col: 13, offset: 91489},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 20, offset: 91425},
+																						pos:        position{line: 2889, col: 20, offset: 91496},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 29, offset: 91434},
+																						pos:        position{line: 2889, col: 29, offset: 91505},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32529,9 +32529,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2897, col: 8, offset: 91594},
+																			pos: position{line: 2899, col: 8, offset: 91665},
 																			expr: &anyMatcher{
-																				line: 2897, col: 9, offset: 91595,
+																				line: 2899, col: 9, offset: 91666,
 																			},
 																		},
 																	},
@@ -32603,10 +32603,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 757, col: 8, offset: 24239},
 																											expr: &actionExpr{
-																												pos: position{line: 2878, col: 10, offset: 91246},
+																												pos: position{line: 2880, col: 10, offset: 91317},
 																												run: (*parser).callonListContinuationElement591,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2878, col: 10, offset: 91246},
+																													pos:        position{line: 2880, col: 10, offset: 91317},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32615,28 +32615,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2900, col: 8, offset: 91644},
+																											pos: position{line: 2902, col: 8, offset: 91715},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2887, col: 12, offset: 91417},
+																													pos: position{line: 2889, col: 12, offset: 91488},
 																													run: (*parser).callonListContinuationElement594,
 																													expr: &choiceExpr{
-																														pos: position{line: 2887, col: 13, offset: 91418},
+																														pos: position{line: 2889, col: 13, offset: 91489},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 13, offset: 91418},
+																																pos:        position{line: 2889, col: 13, offset: 91489},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 20, offset: 91425},
+																																pos:        position{line: 2889, col: 20, offset: 91496},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 29, offset: 91434},
+																																pos:        position{line: 2889, col: 29, offset: 91505},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32645,9 +32645,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2897, col: 8, offset: 91594},
+																													pos: position{line: 2899, col: 8, offset: 91665},
 																													expr: &anyMatcher{
-																														line: 2897, col: 9, offset: 91595,
+																														line: 2899, col: 9, offset: 91666,
 																													},
 																												},
 																											},
@@ -32663,9 +32663,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2897, col: 8, offset: 91594},
+																					pos: position{line: 2899, col: 8, offset: 91665},
 																					expr: &anyMatcher{
-																						line: 2897, col: 9, offset: 91595,
+																						line: 2899, col: 9, offset: 91666,
 																					},
 																				},
 																			},
@@ -32681,21 +32681,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2895, col: 11, offset: 91580},
+																						pos: position{line: 2897, col: 11, offset: 91651},
 																						expr: &anyMatcher{
-																							line: 2895, col: 13, offset: 91582,
+																							line: 2897, col: 13, offset: 91653,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2824, col: 13, offset: 89772},
+																							pos: position{line: 2826, col: 13, offset: 89843},
 																							run: (*parser).callonListContinuationElement610,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2824, col: 13, offset: 89772},
+																								pos: position{line: 2826, col: 13, offset: 89843},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2824, col: 13, offset: 89772},
+																									pos:        position{line: 2826, col: 13, offset: 89843},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32705,28 +32705,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2900, col: 8, offset: 91644},
+																						pos: position{line: 2902, col: 8, offset: 91715},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2887, col: 12, offset: 91417},
+																								pos: position{line: 2889, col: 12, offset: 91488},
 																								run: (*parser).callonListContinuationElement614,
 																								expr: &choiceExpr{
-																									pos: position{line: 2887, col: 13, offset: 91418},
+																									pos: position{line: 2889, col: 13, offset: 91489},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 13, offset: 91418},
+																											pos:        position{line: 2889, col: 13, offset: 91489},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 20, offset: 91425},
+																											pos:        position{line: 2889, col: 20, offset: 91496},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 29, offset: 91434},
+																											pos:        position{line: 2889, col: 29, offset: 91505},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32735,9 +32735,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2897, col: 8, offset: 91594},
+																								pos: position{line: 2899, col: 8, offset: 91665},
 																								expr: &anyMatcher{
-																									line: 2897, col: 9, offset: 91595,
+																									line: 2899, col: 9, offset: 91666,
 																								},
 																							},
 																						},
@@ -32802,10 +32802,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 757, col: 8, offset: 24239},
 																							expr: &actionExpr{
-																								pos: position{line: 2878, col: 10, offset: 91246},
+																								pos: position{line: 2880, col: 10, offset: 91317},
 																								run: (*parser).callonListContinuationElement635,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 10, offset: 91246},
+																									pos:        position{line: 2880, col: 10, offset: 91317},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32814,28 +32814,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2900, col: 8, offset: 91644},
+																							pos: position{line: 2902, col: 8, offset: 91715},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2887, col: 12, offset: 91417},
+																									pos: position{line: 2889, col: 12, offset: 91488},
 																									run: (*parser).callonListContinuationElement638,
 																									expr: &choiceExpr{
-																										pos: position{line: 2887, col: 13, offset: 91418},
+																										pos: position{line: 2889, col: 13, offset: 91489},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 13, offset: 91418},
+																												pos:        position{line: 2889, col: 13, offset: 91489},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 20, offset: 91425},
+																												pos:        position{line: 2889, col: 20, offset: 91496},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 29, offset: 91434},
+																												pos:        position{line: 2889, col: 29, offset: 91505},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32844,9 +32844,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2897, col: 8, offset: 91594},
+																									pos: position{line: 2899, col: 8, offset: 91665},
 																									expr: &anyMatcher{
-																										line: 2897, col: 9, offset: 91595,
+																										line: 2899, col: 9, offset: 91666,
 																									},
 																								},
 																							},
@@ -32862,9 +32862,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2897, col: 8, offset: 91594},
+																	pos: position{line: 2899, col: 8, offset: 91665},
 																	expr: &anyMatcher{
-																		line: 2897, col: 9, offset: 91595,
+																		line: 2899, col: 9, offset: 91666,
 																	},
 																},
 															},
@@ -32920,10 +32920,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 772, col: 8, offset: 24782},
 																	expr: &actionExpr{
-																		pos: position{line: 2878, col: 10, offset: 91246},
+																		pos: position{line: 2880, col: 10, offset: 91317},
 																		run: (*parser).callonListContinuationElement660,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2878, col: 10, offset: 91246},
+																			pos:        position{line: 2880, col: 10, offset: 91317},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32932,28 +32932,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2900, col: 8, offset: 91644},
+																	pos: position{line: 2902, col: 8, offset: 91715},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2887, col: 12, offset: 91417},
+																			pos: position{line: 2889, col: 12, offset: 91488},
 																			run: (*parser).callonListContinuationElement663,
 																			expr: &choiceExpr{
-																				pos: position{line: 2887, col: 13, offset: 91418},
+																				pos: position{line: 2889, col: 13, offset: 91489},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 13, offset: 91418},
+																						pos:        position{line: 2889, col: 13, offset: 91489},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 20, offset: 91425},
+																						pos:        position{line: 2889, col: 20, offset: 91496},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 29, offset: 91434},
+																						pos:        position{line: 2889, col: 29, offset: 91505},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32962,9 +32962,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2897, col: 8, offset: 91594},
+																			pos: position{line: 2899, col: 8, offset: 91665},
 																			expr: &anyMatcher{
-																				line: 2897, col: 9, offset: 91595,
+																				line: 2899, col: 9, offset: 91666,
 																			},
 																		},
 																	},
@@ -33036,10 +33036,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 772, col: 8, offset: 24782},
 																											expr: &actionExpr{
-																												pos: position{line: 2878, col: 10, offset: 91246},
+																												pos: position{line: 2880, col: 10, offset: 91317},
 																												run: (*parser).callonListContinuationElement688,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2878, col: 10, offset: 91246},
+																													pos:        position{line: 2880, col: 10, offset: 91317},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33048,28 +33048,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2900, col: 8, offset: 91644},
+																											pos: position{line: 2902, col: 8, offset: 91715},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2887, col: 12, offset: 91417},
+																													pos: position{line: 2889, col: 12, offset: 91488},
 																													run: (*parser).callonListContinuationElement691,
 																													expr: &choiceExpr{
-																														pos: position{line: 2887, col: 13, offset: 91418},
+																														pos: position{line: 2889, col: 13, offset: 91489},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 13, offset: 91418},
+																																pos:        position{line: 2889, col: 13, offset: 91489},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 20, offset: 91425},
+																																pos:        position{line: 2889, col: 20, offset: 91496},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 29, offset: 91434},
+																																pos:        position{line: 2889, col: 29, offset: 91505},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33078,9 +33078,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2897, col: 8, offset: 91594},
+																													pos: position{line: 2899, col: 8, offset: 91665},
 																													expr: &anyMatcher{
-																														line: 2897, col: 9, offset: 91595,
+																														line: 2899, col: 9, offset: 91666,
 																													},
 																												},
 																											},
@@ -33096,9 +33096,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2897, col: 8, offset: 91594},
+																					pos: position{line: 2899, col: 8, offset: 91665},
 																					expr: &anyMatcher{
-																						line: 2897, col: 9, offset: 91595,
+																						line: 2899, col: 9, offset: 91666,
 																					},
 																				},
 																			},
@@ -33114,21 +33114,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2895, col: 11, offset: 91580},
+																						pos: position{line: 2897, col: 11, offset: 91651},
 																						expr: &anyMatcher{
-																							line: 2895, col: 13, offset: 91582,
+																							line: 2897, col: 13, offset: 91653,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2824, col: 13, offset: 89772},
+																							pos: position{line: 2826, col: 13, offset: 89843},
 																							run: (*parser).callonListContinuationElement707,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2824, col: 13, offset: 89772},
+																								pos: position{line: 2826, col: 13, offset: 89843},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2824, col: 13, offset: 89772},
+																									pos:        position{line: 2826, col: 13, offset: 89843},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33138,28 +33138,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2900, col: 8, offset: 91644},
+																						pos: position{line: 2902, col: 8, offset: 91715},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2887, col: 12, offset: 91417},
+																								pos: position{line: 2889, col: 12, offset: 91488},
 																								run: (*parser).callonListContinuationElement711,
 																								expr: &choiceExpr{
-																									pos: position{line: 2887, col: 13, offset: 91418},
+																									pos: position{line: 2889, col: 13, offset: 91489},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 13, offset: 91418},
+																											pos:        position{line: 2889, col: 13, offset: 91489},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 20, offset: 91425},
+																											pos:        position{line: 2889, col: 20, offset: 91496},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 29, offset: 91434},
+																											pos:        position{line: 2889, col: 29, offset: 91505},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33168,9 +33168,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2897, col: 8, offset: 91594},
+																								pos: position{line: 2899, col: 8, offset: 91665},
 																								expr: &anyMatcher{
-																									line: 2897, col: 9, offset: 91595,
+																									line: 2899, col: 9, offset: 91666,
 																								},
 																							},
 																						},
@@ -33235,10 +33235,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 772, col: 8, offset: 24782},
 																							expr: &actionExpr{
-																								pos: position{line: 2878, col: 10, offset: 91246},
+																								pos: position{line: 2880, col: 10, offset: 91317},
 																								run: (*parser).callonListContinuationElement732,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 10, offset: 91246},
+																									pos:        position{line: 2880, col: 10, offset: 91317},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33247,28 +33247,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2900, col: 8, offset: 91644},
+																							pos: position{line: 2902, col: 8, offset: 91715},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2887, col: 12, offset: 91417},
+																									pos: position{line: 2889, col: 12, offset: 91488},
 																									run: (*parser).callonListContinuationElement735,
 																									expr: &choiceExpr{
-																										pos: position{line: 2887, col: 13, offset: 91418},
+																										pos: position{line: 2889, col: 13, offset: 91489},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 13, offset: 91418},
+																												pos:        position{line: 2889, col: 13, offset: 91489},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 20, offset: 91425},
+																												pos:        position{line: 2889, col: 20, offset: 91496},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 29, offset: 91434},
+																												pos:        position{line: 2889, col: 29, offset: 91505},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33277,9 +33277,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2897, col: 8, offset: 91594},
+																									pos: position{line: 2899, col: 8, offset: 91665},
 																									expr: &anyMatcher{
-																										line: 2897, col: 9, offset: 91595,
+																										line: 2899, col: 9, offset: 91666,
 																									},
 																								},
 																							},
@@ -33295,9 +33295,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2897, col: 8, offset: 91594},
+																	pos: position{line: 2899, col: 8, offset: 91665},
 																	expr: &anyMatcher{
-																		line: 2897, col: 9, offset: 91595,
+																		line: 2899, col: 9, offset: 91666,
 																	},
 																},
 															},
@@ -33353,10 +33353,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 786, col: 8, offset: 25258},
 																	expr: &actionExpr{
-																		pos: position{line: 2878, col: 10, offset: 91246},
+																		pos: position{line: 2880, col: 10, offset: 91317},
 																		run: (*parser).callonListContinuationElement757,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2878, col: 10, offset: 91246},
+																			pos:        position{line: 2880, col: 10, offset: 91317},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33365,28 +33365,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2900, col: 8, offset: 91644},
+																	pos: position{line: 2902, col: 8, offset: 91715},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2887, col: 12, offset: 91417},
+																			pos: position{line: 2889, col: 12, offset: 91488},
 																			run: (*parser).callonListContinuationElement760,
 																			expr: &choiceExpr{
-																				pos: position{line: 2887, col: 13, offset: 91418},
+																				pos: position{line: 2889, col: 13, offset: 91489},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 13, offset: 91418},
+																						pos:        position{line: 2889, col: 13, offset: 91489},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 20, offset: 91425},
+																						pos:        position{line: 2889, col: 20, offset: 91496},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 29, offset: 91434},
+																						pos:        position{line: 2889, col: 29, offset: 91505},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33395,9 +33395,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2897, col: 8, offset: 91594},
+																			pos: position{line: 2899, col: 8, offset: 91665},
 																			expr: &anyMatcher{
-																				line: 2897, col: 9, offset: 91595,
+																				line: 2899, col: 9, offset: 91666,
 																			},
 																		},
 																	},
@@ -33469,10 +33469,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 786, col: 8, offset: 25258},
 																											expr: &actionExpr{
-																												pos: position{line: 2878, col: 10, offset: 91246},
+																												pos: position{line: 2880, col: 10, offset: 91317},
 																												run: (*parser).callonListContinuationElement785,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2878, col: 10, offset: 91246},
+																													pos:        position{line: 2880, col: 10, offset: 91317},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33481,28 +33481,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2900, col: 8, offset: 91644},
+																											pos: position{line: 2902, col: 8, offset: 91715},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2887, col: 12, offset: 91417},
+																													pos: position{line: 2889, col: 12, offset: 91488},
 																													run: (*parser).callonListContinuationElement788,
 																													expr: &choiceExpr{
-																														pos: position{line: 2887, col: 13, offset: 91418},
+																														pos: position{line: 2889, col: 13, offset: 91489},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 13, offset: 91418},
+																																pos:        position{line: 2889, col: 13, offset: 91489},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 20, offset: 91425},
+																																pos:        position{line: 2889, col: 20, offset: 91496},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 29, offset: 91434},
+																																pos:        position{line: 2889, col: 29, offset: 91505},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33511,9 +33511,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2897, col: 8, offset: 91594},
+																													pos: position{line: 2899, col: 8, offset: 91665},
 																													expr: &anyMatcher{
-																														line: 2897, col: 9, offset: 91595,
+																														line: 2899, col: 9, offset: 91666,
 																													},
 																												},
 																											},
@@ -33529,9 +33529,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2897, col: 8, offset: 91594},
+																					pos: position{line: 2899, col: 8, offset: 91665},
 																					expr: &anyMatcher{
-																						line: 2897, col: 9, offset: 91595,
+																						line: 2899, col: 9, offset: 91666,
 																					},
 																				},
 																			},
@@ -33547,21 +33547,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2895, col: 11, offset: 91580},
+																						pos: position{line: 2897, col: 11, offset: 91651},
 																						expr: &anyMatcher{
-																							line: 2895, col: 13, offset: 91582,
+																							line: 2897, col: 13, offset: 91653,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2824, col: 13, offset: 89772},
+																							pos: position{line: 2826, col: 13, offset: 89843},
 																							run: (*parser).callonListContinuationElement804,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2824, col: 13, offset: 89772},
+																								pos: position{line: 2826, col: 13, offset: 89843},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2824, col: 13, offset: 89772},
+																									pos:        position{line: 2826, col: 13, offset: 89843},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33571,28 +33571,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2900, col: 8, offset: 91644},
+																						pos: position{line: 2902, col: 8, offset: 91715},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2887, col: 12, offset: 91417},
+																								pos: position{line: 2889, col: 12, offset: 91488},
 																								run: (*parser).callonListContinuationElement808,
 																								expr: &choiceExpr{
-																									pos: position{line: 2887, col: 13, offset: 91418},
+																									pos: position{line: 2889, col: 13, offset: 91489},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 13, offset: 91418},
+																											pos:        position{line: 2889, col: 13, offset: 91489},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 20, offset: 91425},
+																											pos:        position{line: 2889, col: 20, offset: 91496},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 29, offset: 91434},
+																											pos:        position{line: 2889, col: 29, offset: 91505},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33601,9 +33601,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2897, col: 8, offset: 91594},
+																								pos: position{line: 2899, col: 8, offset: 91665},
 																								expr: &anyMatcher{
-																									line: 2897, col: 9, offset: 91595,
+																									line: 2899, col: 9, offset: 91666,
 																								},
 																							},
 																						},
@@ -33668,10 +33668,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 786, col: 8, offset: 25258},
 																							expr: &actionExpr{
-																								pos: position{line: 2878, col: 10, offset: 91246},
+																								pos: position{line: 2880, col: 10, offset: 91317},
 																								run: (*parser).callonListContinuationElement829,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 10, offset: 91246},
+																									pos:        position{line: 2880, col: 10, offset: 91317},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33680,28 +33680,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2900, col: 8, offset: 91644},
+																							pos: position{line: 2902, col: 8, offset: 91715},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2887, col: 12, offset: 91417},
+																									pos: position{line: 2889, col: 12, offset: 91488},
 																									run: (*parser).callonListContinuationElement832,
 																									expr: &choiceExpr{
-																										pos: position{line: 2887, col: 13, offset: 91418},
+																										pos: position{line: 2889, col: 13, offset: 91489},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 13, offset: 91418},
+																												pos:        position{line: 2889, col: 13, offset: 91489},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 20, offset: 91425},
+																												pos:        position{line: 2889, col: 20, offset: 91496},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 29, offset: 91434},
+																												pos:        position{line: 2889, col: 29, offset: 91505},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33710,9 +33710,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2897, col: 8, offset: 91594},
+																									pos: position{line: 2899, col: 8, offset: 91665},
 																									expr: &anyMatcher{
-																										line: 2897, col: 9, offset: 91595,
+																										line: 2899, col: 9, offset: 91666,
 																									},
 																								},
 																							},
@@ -33728,9 +33728,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2897, col: 8, offset: 91594},
+																	pos: position{line: 2899, col: 8, offset: 91665},
 																	expr: &anyMatcher{
-																		line: 2897, col: 9, offset: 91595,
+																		line: 2899, col: 9, offset: 91666,
 																	},
 																},
 															},
@@ -33764,18 +33764,18 @@ var g = &grammar{
 																			pos: position{line: 677, col: 14, offset: 21525},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2895, col: 11, offset: 91580},
+																					pos: position{line: 2897, col: 11, offset: 91651},
 																					expr: &anyMatcher{
-																						line: 2895, col: 13, offset: 91582,
+																						line: 2897, col: 13, offset: 91653,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21532},
 																					expr: &actionExpr{
-																						pos: position{line: 2878, col: 10, offset: 91246},
+																						pos: position{line: 2880, col: 10, offset: 91317},
 																						run: (*parser).callonListContinuationElement853,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2878, col: 10, offset: 91246},
+																							pos:        position{line: 2880, col: 10, offset: 91317},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -33784,28 +33784,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2900, col: 8, offset: 91644},
+																					pos: position{line: 2902, col: 8, offset: 91715},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2887, col: 12, offset: 91417},
+																							pos: position{line: 2889, col: 12, offset: 91488},
 																							run: (*parser).callonListContinuationElement856,
 																							expr: &choiceExpr{
-																								pos: position{line: 2887, col: 13, offset: 91418},
+																								pos: position{line: 2889, col: 13, offset: 91489},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2887, col: 13, offset: 91418},
+																										pos:        position{line: 2889, col: 13, offset: 91489},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2887, col: 20, offset: 91425},
+																										pos:        position{line: 2889, col: 20, offset: 91496},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2887, col: 29, offset: 91434},
+																										pos:        position{line: 2889, col: 29, offset: 91505},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -33814,9 +33814,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2897, col: 8, offset: 91594},
+																							pos: position{line: 2899, col: 8, offset: 91665},
 																							expr: &anyMatcher{
-																								line: 2897, col: 9, offset: 91595,
+																								line: 2899, col: 9, offset: 91666,
 																							},
 																						},
 																					},
@@ -33835,12 +33835,12 @@ var g = &grammar{
 																	pos:   position{line: 985, col: 5, offset: 30748},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2828, col: 14, offset: 89839},
+																		pos: position{line: 2830, col: 14, offset: 89910},
 																		run: (*parser).callonListContinuationElement865,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2828, col: 14, offset: 89839},
+																			pos: position{line: 2830, col: 14, offset: 89910},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2828, col: 14, offset: 89839},
+																				pos:        position{line: 2830, col: 14, offset: 89910},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -33850,28 +33850,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2900, col: 8, offset: 91644},
+																	pos: position{line: 2902, col: 8, offset: 91715},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2887, col: 12, offset: 91417},
+																			pos: position{line: 2889, col: 12, offset: 91488},
 																			run: (*parser).callonListContinuationElement869,
 																			expr: &choiceExpr{
-																				pos: position{line: 2887, col: 13, offset: 91418},
+																				pos: position{line: 2889, col: 13, offset: 91489},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 13, offset: 91418},
+																						pos:        position{line: 2889, col: 13, offset: 91489},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 20, offset: 91425},
+																						pos:        position{line: 2889, col: 20, offset: 91496},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 29, offset: 91434},
+																						pos:        position{line: 2889, col: 29, offset: 91505},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33880,9 +33880,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2897, col: 8, offset: 91594},
+																			pos: position{line: 2899, col: 8, offset: 91665},
 																			expr: &anyMatcher{
-																				line: 2897, col: 9, offset: 91595,
+																				line: 2899, col: 9, offset: 91666,
 																			},
 																		},
 																	},
@@ -33914,18 +33914,18 @@ var g = &grammar{
 																						pos: position{line: 677, col: 14, offset: 21525},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2895, col: 11, offset: 91580},
+																								pos: position{line: 2897, col: 11, offset: 91651},
 																								expr: &anyMatcher{
-																									line: 2895, col: 13, offset: 91582,
+																									line: 2897, col: 13, offset: 91653,
 																								},
 																							},
 																							&zeroOrMoreExpr{
 																								pos: position{line: 677, col: 21, offset: 21532},
 																								expr: &actionExpr{
-																									pos: position{line: 2878, col: 10, offset: 91246},
+																									pos: position{line: 2880, col: 10, offset: 91317},
 																									run: (*parser).callonListContinuationElement887,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2878, col: 10, offset: 91246},
+																										pos:        position{line: 2880, col: 10, offset: 91317},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33934,28 +33934,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2900, col: 8, offset: 91644},
+																								pos: position{line: 2902, col: 8, offset: 91715},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2887, col: 12, offset: 91417},
+																										pos: position{line: 2889, col: 12, offset: 91488},
 																										run: (*parser).callonListContinuationElement890,
 																										expr: &choiceExpr{
-																											pos: position{line: 2887, col: 13, offset: 91418},
+																											pos: position{line: 2889, col: 13, offset: 91489},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2887, col: 13, offset: 91418},
+																													pos:        position{line: 2889, col: 13, offset: 91489},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2887, col: 20, offset: 91425},
+																													pos:        position{line: 2889, col: 20, offset: 91496},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2887, col: 29, offset: 91434},
+																													pos:        position{line: 2889, col: 29, offset: 91505},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33964,9 +33964,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2897, col: 8, offset: 91594},
+																										pos: position{line: 2899, col: 8, offset: 91665},
 																										expr: &anyMatcher{
-																											line: 2897, col: 9, offset: 91595,
+																											line: 2899, col: 9, offset: 91666,
 																										},
 																									},
 																								},
@@ -33985,12 +33985,12 @@ var g = &grammar{
 																				pos:   position{line: 985, col: 5, offset: 30748},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2828, col: 14, offset: 89839},
+																					pos: position{line: 2830, col: 14, offset: 89910},
 																					run: (*parser).callonListContinuationElement899,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2828, col: 14, offset: 89839},
+																						pos: position{line: 2830, col: 14, offset: 89910},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2828, col: 14, offset: 89839},
+																							pos:        position{line: 2830, col: 14, offset: 89910},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34000,28 +34000,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2900, col: 8, offset: 91644},
+																				pos: position{line: 2902, col: 8, offset: 91715},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2887, col: 12, offset: 91417},
+																						pos: position{line: 2889, col: 12, offset: 91488},
 																						run: (*parser).callonListContinuationElement903,
 																						expr: &choiceExpr{
-																							pos: position{line: 2887, col: 13, offset: 91418},
+																							pos: position{line: 2889, col: 13, offset: 91489},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2887, col: 13, offset: 91418},
+																									pos:        position{line: 2889, col: 13, offset: 91489},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2887, col: 20, offset: 91425},
+																									pos:        position{line: 2889, col: 20, offset: 91496},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2887, col: 29, offset: 91434},
+																									pos:        position{line: 2889, col: 29, offset: 91505},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34030,9 +34030,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2897, col: 8, offset: 91594},
+																						pos: position{line: 2899, col: 8, offset: 91665},
 																						expr: &anyMatcher{
-																							line: 2897, col: 9, offset: 91595,
+																							line: 2899, col: 9, offset: 91666,
 																						},
 																					},
 																				},
@@ -34050,12 +34050,12 @@ var g = &grammar{
 																				pos:   position{line: 1797, col: 5, offset: 58258},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2828, col: 14, offset: 89839},
+																					pos: position{line: 2830, col: 14, offset: 89910},
 																					run: (*parser).callonListContinuationElement913,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2828, col: 14, offset: 89839},
+																						pos: position{line: 2830, col: 14, offset: 89910},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2828, col: 14, offset: 89839},
+																							pos:        position{line: 2830, col: 14, offset: 89910},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34069,28 +34069,28 @@ var g = &grammar{
 																				run: (*parser).callonListContinuationElement916,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2900, col: 8, offset: 91644},
+																				pos: position{line: 2902, col: 8, offset: 91715},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2887, col: 12, offset: 91417},
+																						pos: position{line: 2889, col: 12, offset: 91488},
 																						run: (*parser).callonListContinuationElement918,
 																						expr: &choiceExpr{
-																							pos: position{line: 2887, col: 13, offset: 91418},
+																							pos: position{line: 2889, col: 13, offset: 91489},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2887, col: 13, offset: 91418},
+																									pos:        position{line: 2889, col: 13, offset: 91489},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2887, col: 20, offset: 91425},
+																									pos:        position{line: 2889, col: 20, offset: 91496},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2887, col: 29, offset: 91434},
+																									pos:        position{line: 2889, col: 29, offset: 91505},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34099,9 +34099,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2897, col: 8, offset: 91594},
+																						pos: position{line: 2899, col: 8, offset: 91665},
 																						expr: &anyMatcher{
-																							line: 2897, col: 9, offset: 91595,
+																							line: 2899, col: 9, offset: 91666,
 																						},
 																					},
 																				},
@@ -34148,10 +34148,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 779, col: 8, offset: 25013},
 																	expr: &actionExpr{
-																		pos: position{line: 2878, col: 10, offset: 91246},
+																		pos: position{line: 2880, col: 10, offset: 91317},
 																		run: (*parser).callonListContinuationElement934,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2878, col: 10, offset: 91246},
+																			pos:        position{line: 2880, col: 10, offset: 91317},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34160,28 +34160,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2900, col: 8, offset: 91644},
+																	pos: position{line: 2902, col: 8, offset: 91715},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2887, col: 12, offset: 91417},
+																			pos: position{line: 2889, col: 12, offset: 91488},
 																			run: (*parser).callonListContinuationElement937,
 																			expr: &choiceExpr{
-																				pos: position{line: 2887, col: 13, offset: 91418},
+																				pos: position{line: 2889, col: 13, offset: 91489},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 13, offset: 91418},
+																						pos:        position{line: 2889, col: 13, offset: 91489},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 20, offset: 91425},
+																						pos:        position{line: 2889, col: 20, offset: 91496},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 29, offset: 91434},
+																						pos:        position{line: 2889, col: 29, offset: 91505},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34190,9 +34190,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2897, col: 8, offset: 91594},
+																			pos: position{line: 2899, col: 8, offset: 91665},
 																			expr: &anyMatcher{
-																				line: 2897, col: 9, offset: 91595,
+																				line: 2899, col: 9, offset: 91666,
 																			},
 																		},
 																	},
@@ -34240,10 +34240,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 779, col: 8, offset: 25013},
 																								expr: &actionExpr{
-																									pos: position{line: 2878, col: 10, offset: 91246},
+																									pos: position{line: 2880, col: 10, offset: 91317},
 																									run: (*parser).callonListContinuationElement956,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2878, col: 10, offset: 91246},
+																										pos:        position{line: 2880, col: 10, offset: 91317},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -34252,28 +34252,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2900, col: 8, offset: 91644},
+																								pos: position{line: 2902, col: 8, offset: 91715},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2887, col: 12, offset: 91417},
+																										pos: position{line: 2889, col: 12, offset: 91488},
 																										run: (*parser).callonListContinuationElement959,
 																										expr: &choiceExpr{
-																											pos: position{line: 2887, col: 13, offset: 91418},
+																											pos: position{line: 2889, col: 13, offset: 91489},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2887, col: 13, offset: 91418},
+																													pos:        position{line: 2889, col: 13, offset: 91489},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2887, col: 20, offset: 91425},
+																													pos:        position{line: 2889, col: 20, offset: 91496},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2887, col: 29, offset: 91434},
+																													pos:        position{line: 2889, col: 29, offset: 91505},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34282,9 +34282,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2897, col: 8, offset: 91594},
+																										pos: position{line: 2899, col: 8, offset: 91665},
 																										expr: &anyMatcher{
-																											line: 2897, col: 9, offset: 91595,
+																											line: 2899, col: 9, offset: 91666,
 																										},
 																									},
 																								},
@@ -34293,9 +34293,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2897, col: 8, offset: 91594},
+																					pos: position{line: 2899, col: 8, offset: 91665},
 																					expr: &anyMatcher{
-																						line: 2897, col: 9, offset: 91595,
+																						line: 2899, col: 9, offset: 91666,
 																					},
 																				},
 																			},
@@ -34311,21 +34311,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2895, col: 11, offset: 91580},
+																						pos: position{line: 2897, col: 11, offset: 91651},
 																						expr: &anyMatcher{
-																							line: 2895, col: 13, offset: 91582,
+																							line: 2897, col: 13, offset: 91653,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2824, col: 13, offset: 89772},
+																							pos: position{line: 2826, col: 13, offset: 89843},
 																							run: (*parser).callonListContinuationElement974,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2824, col: 13, offset: 89772},
+																								pos: position{line: 2826, col: 13, offset: 89843},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2824, col: 13, offset: 89772},
+																									pos:        position{line: 2826, col: 13, offset: 89843},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34335,28 +34335,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2900, col: 8, offset: 91644},
+																						pos: position{line: 2902, col: 8, offset: 91715},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2887, col: 12, offset: 91417},
+																								pos: position{line: 2889, col: 12, offset: 91488},
 																								run: (*parser).callonListContinuationElement978,
 																								expr: &choiceExpr{
-																									pos: position{line: 2887, col: 13, offset: 91418},
+																									pos: position{line: 2889, col: 13, offset: 91489},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 13, offset: 91418},
+																											pos:        position{line: 2889, col: 13, offset: 91489},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 20, offset: 91425},
+																											pos:        position{line: 2889, col: 20, offset: 91496},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 29, offset: 91434},
+																											pos:        position{line: 2889, col: 29, offset: 91505},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34365,9 +34365,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2897, col: 8, offset: 91594},
+																								pos: position{line: 2899, col: 8, offset: 91665},
 																								expr: &anyMatcher{
-																									line: 2897, col: 9, offset: 91595,
+																									line: 2899, col: 9, offset: 91666,
 																								},
 																							},
 																						},
@@ -34412,10 +34412,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 779, col: 8, offset: 25013},
 																				expr: &actionExpr{
-																					pos: position{line: 2878, col: 10, offset: 91246},
+																					pos: position{line: 2880, col: 10, offset: 91317},
 																					run: (*parser).callonListContinuationElement994,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2878, col: 10, offset: 91246},
+																						pos:        position{line: 2880, col: 10, offset: 91317},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -34424,28 +34424,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2900, col: 8, offset: 91644},
+																				pos: position{line: 2902, col: 8, offset: 91715},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2887, col: 12, offset: 91417},
+																						pos: position{line: 2889, col: 12, offset: 91488},
 																						run: (*parser).callonListContinuationElement997,
 																						expr: &choiceExpr{
-																							pos: position{line: 2887, col: 13, offset: 91418},
+																							pos: position{line: 2889, col: 13, offset: 91489},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2887, col: 13, offset: 91418},
+																									pos:        position{line: 2889, col: 13, offset: 91489},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2887, col: 20, offset: 91425},
+																									pos:        position{line: 2889, col: 20, offset: 91496},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2887, col: 29, offset: 91434},
+																									pos:        position{line: 2889, col: 29, offset: 91505},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34454,9 +34454,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2897, col: 8, offset: 91594},
+																						pos: position{line: 2899, col: 8, offset: 91665},
 																						expr: &anyMatcher{
-																							line: 2897, col: 9, offset: 91595,
+																							line: 2899, col: 9, offset: 91666,
 																						},
 																					},
 																				},
@@ -34465,9 +34465,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2897, col: 8, offset: 91594},
+																	pos: position{line: 2899, col: 8, offset: 91665},
 																	expr: &anyMatcher{
-																		line: 2897, col: 9, offset: 91595,
+																		line: 2899, col: 9, offset: 91666,
 																	},
 																},
 															},
@@ -34523,10 +34523,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 793, col: 8, offset: 25510},
 																	expr: &actionExpr{
-																		pos: position{line: 2878, col: 10, offset: 91246},
+																		pos: position{line: 2880, col: 10, offset: 91317},
 																		run: (*parser).callonListContinuationElement1018,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2878, col: 10, offset: 91246},
+																			pos:        position{line: 2880, col: 10, offset: 91317},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34535,28 +34535,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2900, col: 8, offset: 91644},
+																	pos: position{line: 2902, col: 8, offset: 91715},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2887, col: 12, offset: 91417},
+																			pos: position{line: 2889, col: 12, offset: 91488},
 																			run: (*parser).callonListContinuationElement1021,
 																			expr: &choiceExpr{
-																				pos: position{line: 2887, col: 13, offset: 91418},
+																				pos: position{line: 2889, col: 13, offset: 91489},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 13, offset: 91418},
+																						pos:        position{line: 2889, col: 13, offset: 91489},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 20, offset: 91425},
+																						pos:        position{line: 2889, col: 20, offset: 91496},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 29, offset: 91434},
+																						pos:        position{line: 2889, col: 29, offset: 91505},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34565,9 +34565,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2897, col: 8, offset: 91594},
+																			pos: position{line: 2899, col: 8, offset: 91665},
 																			expr: &anyMatcher{
-																				line: 2897, col: 9, offset: 91595,
+																				line: 2899, col: 9, offset: 91666,
 																			},
 																		},
 																	},
@@ -34639,10 +34639,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 793, col: 8, offset: 25510},
 																											expr: &actionExpr{
-																												pos: position{line: 2878, col: 10, offset: 91246},
+																												pos: position{line: 2880, col: 10, offset: 91317},
 																												run: (*parser).callonListContinuationElement1046,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2878, col: 10, offset: 91246},
+																													pos:        position{line: 2880, col: 10, offset: 91317},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34651,28 +34651,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2900, col: 8, offset: 91644},
+																											pos: position{line: 2902, col: 8, offset: 91715},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2887, col: 12, offset: 91417},
+																													pos: position{line: 2889, col: 12, offset: 91488},
 																													run: (*parser).callonListContinuationElement1049,
 																													expr: &choiceExpr{
-																														pos: position{line: 2887, col: 13, offset: 91418},
+																														pos: position{line: 2889, col: 13, offset: 91489},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 13, offset: 91418},
+																																pos:        position{line: 2889, col: 13, offset: 91489},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 20, offset: 91425},
+																																pos:        position{line: 2889, col: 20, offset: 91496},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 29, offset: 91434},
+																																pos:        position{line: 2889, col: 29, offset: 91505},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34681,9 +34681,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2897, col: 8, offset: 91594},
+																													pos: position{line: 2899, col: 8, offset: 91665},
 																													expr: &anyMatcher{
-																														line: 2897, col: 9, offset: 91595,
+																														line: 2899, col: 9, offset: 91666,
 																													},
 																												},
 																											},
@@ -34699,9 +34699,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2897, col: 8, offset: 91594},
+																					pos: position{line: 2899, col: 8, offset: 91665},
 																					expr: &anyMatcher{
-																						line: 2897, col: 9, offset: 91595,
+																						line: 2899, col: 9, offset: 91666,
 																					},
 																				},
 																			},
@@ -34717,21 +34717,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2895, col: 11, offset: 91580},
+																						pos: position{line: 2897, col: 11, offset: 91651},
 																						expr: &anyMatcher{
-																							line: 2895, col: 13, offset: 91582,
+																							line: 2897, col: 13, offset: 91653,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2824, col: 13, offset: 89772},
+																							pos: position{line: 2826, col: 13, offset: 89843},
 																							run: (*parser).callonListContinuationElement1065,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2824, col: 13, offset: 89772},
+																								pos: position{line: 2826, col: 13, offset: 89843},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2824, col: 13, offset: 89772},
+																									pos:        position{line: 2826, col: 13, offset: 89843},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34741,28 +34741,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2900, col: 8, offset: 91644},
+																						pos: position{line: 2902, col: 8, offset: 91715},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2887, col: 12, offset: 91417},
+																								pos: position{line: 2889, col: 12, offset: 91488},
 																								run: (*parser).callonListContinuationElement1069,
 																								expr: &choiceExpr{
-																									pos: position{line: 2887, col: 13, offset: 91418},
+																									pos: position{line: 2889, col: 13, offset: 91489},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 13, offset: 91418},
+																											pos:        position{line: 2889, col: 13, offset: 91489},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 20, offset: 91425},
+																											pos:        position{line: 2889, col: 20, offset: 91496},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 29, offset: 91434},
+																											pos:        position{line: 2889, col: 29, offset: 91505},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34771,9 +34771,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2897, col: 8, offset: 91594},
+																								pos: position{line: 2899, col: 8, offset: 91665},
 																								expr: &anyMatcher{
-																									line: 2897, col: 9, offset: 91595,
+																									line: 2899, col: 9, offset: 91666,
 																								},
 																							},
 																						},
@@ -34838,10 +34838,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 793, col: 8, offset: 25510},
 																							expr: &actionExpr{
-																								pos: position{line: 2878, col: 10, offset: 91246},
+																								pos: position{line: 2880, col: 10, offset: 91317},
 																								run: (*parser).callonListContinuationElement1090,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 10, offset: 91246},
+																									pos:        position{line: 2880, col: 10, offset: 91317},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34850,28 +34850,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2900, col: 8, offset: 91644},
+																							pos: position{line: 2902, col: 8, offset: 91715},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2887, col: 12, offset: 91417},
+																									pos: position{line: 2889, col: 12, offset: 91488},
 																									run: (*parser).callonListContinuationElement1093,
 																									expr: &choiceExpr{
-																										pos: position{line: 2887, col: 13, offset: 91418},
+																										pos: position{line: 2889, col: 13, offset: 91489},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 13, offset: 91418},
+																												pos:        position{line: 2889, col: 13, offset: 91489},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 20, offset: 91425},
+																												pos:        position{line: 2889, col: 20, offset: 91496},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 29, offset: 91434},
+																												pos:        position{line: 2889, col: 29, offset: 91505},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34880,9 +34880,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2897, col: 8, offset: 91594},
+																									pos: position{line: 2899, col: 8, offset: 91665},
 																									expr: &anyMatcher{
-																										line: 2897, col: 9, offset: 91595,
+																										line: 2899, col: 9, offset: 91666,
 																									},
 																								},
 																							},
@@ -34898,9 +34898,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2897, col: 8, offset: 91594},
+																	pos: position{line: 2899, col: 8, offset: 91665},
 																	expr: &anyMatcher{
-																		line: 2897, col: 9, offset: 91595,
+																		line: 2899, col: 9, offset: 91666,
 																	},
 																},
 															},
@@ -34956,10 +34956,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 800, col: 8, offset: 25760},
 																	expr: &actionExpr{
-																		pos: position{line: 2878, col: 10, offset: 91246},
+																		pos: position{line: 2880, col: 10, offset: 91317},
 																		run: (*parser).callonListContinuationElement1115,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2878, col: 10, offset: 91246},
+																			pos:        position{line: 2880, col: 10, offset: 91317},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34968,28 +34968,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2900, col: 8, offset: 91644},
+																	pos: position{line: 2902, col: 8, offset: 91715},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2887, col: 12, offset: 91417},
+																			pos: position{line: 2889, col: 12, offset: 91488},
 																			run: (*parser).callonListContinuationElement1118,
 																			expr: &choiceExpr{
-																				pos: position{line: 2887, col: 13, offset: 91418},
+																				pos: position{line: 2889, col: 13, offset: 91489},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 13, offset: 91418},
+																						pos:        position{line: 2889, col: 13, offset: 91489},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 20, offset: 91425},
+																						pos:        position{line: 2889, col: 20, offset: 91496},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 29, offset: 91434},
+																						pos:        position{line: 2889, col: 29, offset: 91505},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34998,9 +34998,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2897, col: 8, offset: 91594},
+																			pos: position{line: 2899, col: 8, offset: 91665},
 																			expr: &anyMatcher{
-																				line: 2897, col: 9, offset: 91595,
+																				line: 2899, col: 9, offset: 91666,
 																			},
 																		},
 																	},
@@ -35072,10 +35072,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 800, col: 8, offset: 25760},
 																											expr: &actionExpr{
-																												pos: position{line: 2878, col: 10, offset: 91246},
+																												pos: position{line: 2880, col: 10, offset: 91317},
 																												run: (*parser).callonListContinuationElement1143,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2878, col: 10, offset: 91246},
+																													pos:        position{line: 2880, col: 10, offset: 91317},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35084,28 +35084,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2900, col: 8, offset: 91644},
+																											pos: position{line: 2902, col: 8, offset: 91715},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2887, col: 12, offset: 91417},
+																													pos: position{line: 2889, col: 12, offset: 91488},
 																													run: (*parser).callonListContinuationElement1146,
 																													expr: &choiceExpr{
-																														pos: position{line: 2887, col: 13, offset: 91418},
+																														pos: position{line: 2889, col: 13, offset: 91489},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 13, offset: 91418},
+																																pos:        position{line: 2889, col: 13, offset: 91489},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 20, offset: 91425},
+																																pos:        position{line: 2889, col: 20, offset: 91496},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 29, offset: 91434},
+																																pos:        position{line: 2889, col: 29, offset: 91505},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35114,9 +35114,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2897, col: 8, offset: 91594},
+																													pos: position{line: 2899, col: 8, offset: 91665},
 																													expr: &anyMatcher{
-																														line: 2897, col: 9, offset: 91595,
+																														line: 2899, col: 9, offset: 91666,
 																													},
 																												},
 																											},
@@ -35132,9 +35132,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2897, col: 8, offset: 91594},
+																					pos: position{line: 2899, col: 8, offset: 91665},
 																					expr: &anyMatcher{
-																						line: 2897, col: 9, offset: 91595,
+																						line: 2899, col: 9, offset: 91666,
 																					},
 																				},
 																			},
@@ -35150,21 +35150,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2895, col: 11, offset: 91580},
+																						pos: position{line: 2897, col: 11, offset: 91651},
 																						expr: &anyMatcher{
-																							line: 2895, col: 13, offset: 91582,
+																							line: 2897, col: 13, offset: 91653,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2824, col: 13, offset: 89772},
+																							pos: position{line: 2826, col: 13, offset: 89843},
 																							run: (*parser).callonListContinuationElement1162,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2824, col: 13, offset: 89772},
+																								pos: position{line: 2826, col: 13, offset: 89843},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2824, col: 13, offset: 89772},
+																									pos:        position{line: 2826, col: 13, offset: 89843},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35174,28 +35174,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2900, col: 8, offset: 91644},
+																						pos: position{line: 2902, col: 8, offset: 91715},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2887, col: 12, offset: 91417},
+																								pos: position{line: 2889, col: 12, offset: 91488},
 																								run: (*parser).callonListContinuationElement1166,
 																								expr: &choiceExpr{
-																									pos: position{line: 2887, col: 13, offset: 91418},
+																									pos: position{line: 2889, col: 13, offset: 91489},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 13, offset: 91418},
+																											pos:        position{line: 2889, col: 13, offset: 91489},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 20, offset: 91425},
+																											pos:        position{line: 2889, col: 20, offset: 91496},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 29, offset: 91434},
+																											pos:        position{line: 2889, col: 29, offset: 91505},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35204,9 +35204,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2897, col: 8, offset: 91594},
+																								pos: position{line: 2899, col: 8, offset: 91665},
 																								expr: &anyMatcher{
-																									line: 2897, col: 9, offset: 91595,
+																									line: 2899, col: 9, offset: 91666,
 																								},
 																							},
 																						},
@@ -35271,10 +35271,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 800, col: 8, offset: 25760},
 																							expr: &actionExpr{
-																								pos: position{line: 2878, col: 10, offset: 91246},
+																								pos: position{line: 2880, col: 10, offset: 91317},
 																								run: (*parser).callonListContinuationElement1187,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 10, offset: 91246},
+																									pos:        position{line: 2880, col: 10, offset: 91317},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35283,28 +35283,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2900, col: 8, offset: 91644},
+																							pos: position{line: 2902, col: 8, offset: 91715},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2887, col: 12, offset: 91417},
+																									pos: position{line: 2889, col: 12, offset: 91488},
 																									run: (*parser).callonListContinuationElement1190,
 																									expr: &choiceExpr{
-																										pos: position{line: 2887, col: 13, offset: 91418},
+																										pos: position{line: 2889, col: 13, offset: 91489},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 13, offset: 91418},
+																												pos:        position{line: 2889, col: 13, offset: 91489},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 20, offset: 91425},
+																												pos:        position{line: 2889, col: 20, offset: 91496},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 29, offset: 91434},
+																												pos:        position{line: 2889, col: 29, offset: 91505},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35313,9 +35313,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2897, col: 8, offset: 91594},
+																									pos: position{line: 2899, col: 8, offset: 91665},
 																									expr: &anyMatcher{
-																										line: 2897, col: 9, offset: 91595,
+																										line: 2899, col: 9, offset: 91666,
 																									},
 																								},
 																							},
@@ -35331,9 +35331,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2897, col: 8, offset: 91594},
+																	pos: position{line: 2899, col: 8, offset: 91665},
 																	expr: &anyMatcher{
-																		line: 2897, col: 9, offset: 91595,
+																		line: 2899, col: 9, offset: 91666,
 																	},
 																},
 															},
@@ -35389,10 +35389,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 807, col: 8, offset: 26006},
 																	expr: &actionExpr{
-																		pos: position{line: 2878, col: 10, offset: 91246},
+																		pos: position{line: 2880, col: 10, offset: 91317},
 																		run: (*parser).callonListContinuationElement1212,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2878, col: 10, offset: 91246},
+																			pos:        position{line: 2880, col: 10, offset: 91317},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35401,28 +35401,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2900, col: 8, offset: 91644},
+																	pos: position{line: 2902, col: 8, offset: 91715},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2887, col: 12, offset: 91417},
+																			pos: position{line: 2889, col: 12, offset: 91488},
 																			run: (*parser).callonListContinuationElement1215,
 																			expr: &choiceExpr{
-																				pos: position{line: 2887, col: 13, offset: 91418},
+																				pos: position{line: 2889, col: 13, offset: 91489},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 13, offset: 91418},
+																						pos:        position{line: 2889, col: 13, offset: 91489},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 20, offset: 91425},
+																						pos:        position{line: 2889, col: 20, offset: 91496},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 29, offset: 91434},
+																						pos:        position{line: 2889, col: 29, offset: 91505},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35431,9 +35431,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2897, col: 8, offset: 91594},
+																			pos: position{line: 2899, col: 8, offset: 91665},
 																			expr: &anyMatcher{
-																				line: 2897, col: 9, offset: 91595,
+																				line: 2899, col: 9, offset: 91666,
 																			},
 																		},
 																	},
@@ -35505,10 +35505,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 807, col: 8, offset: 26006},
 																											expr: &actionExpr{
-																												pos: position{line: 2878, col: 10, offset: 91246},
+																												pos: position{line: 2880, col: 10, offset: 91317},
 																												run: (*parser).callonListContinuationElement1240,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2878, col: 10, offset: 91246},
+																													pos:        position{line: 2880, col: 10, offset: 91317},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35517,28 +35517,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2900, col: 8, offset: 91644},
+																											pos: position{line: 2902, col: 8, offset: 91715},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2887, col: 12, offset: 91417},
+																													pos: position{line: 2889, col: 12, offset: 91488},
 																													run: (*parser).callonListContinuationElement1243,
 																													expr: &choiceExpr{
-																														pos: position{line: 2887, col: 13, offset: 91418},
+																														pos: position{line: 2889, col: 13, offset: 91489},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 13, offset: 91418},
+																																pos:        position{line: 2889, col: 13, offset: 91489},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 20, offset: 91425},
+																																pos:        position{line: 2889, col: 20, offset: 91496},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 29, offset: 91434},
+																																pos:        position{line: 2889, col: 29, offset: 91505},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35547,9 +35547,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2897, col: 8, offset: 91594},
+																													pos: position{line: 2899, col: 8, offset: 91665},
 																													expr: &anyMatcher{
-																														line: 2897, col: 9, offset: 91595,
+																														line: 2899, col: 9, offset: 91666,
 																													},
 																												},
 																											},
@@ -35565,9 +35565,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2897, col: 8, offset: 91594},
+																					pos: position{line: 2899, col: 8, offset: 91665},
 																					expr: &anyMatcher{
-																						line: 2897, col: 9, offset: 91595,
+																						line: 2899, col: 9, offset: 91666,
 																					},
 																				},
 																			},
@@ -35583,21 +35583,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2895, col: 11, offset: 91580},
+																						pos: position{line: 2897, col: 11, offset: 91651},
 																						expr: &anyMatcher{
-																							line: 2895, col: 13, offset: 91582,
+																							line: 2897, col: 13, offset: 91653,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2824, col: 13, offset: 89772},
+																							pos: position{line: 2826, col: 13, offset: 89843},
 																							run: (*parser).callonListContinuationElement1259,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2824, col: 13, offset: 89772},
+																								pos: position{line: 2826, col: 13, offset: 89843},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2824, col: 13, offset: 89772},
+																									pos:        position{line: 2826, col: 13, offset: 89843},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35607,28 +35607,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2900, col: 8, offset: 91644},
+																						pos: position{line: 2902, col: 8, offset: 91715},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2887, col: 12, offset: 91417},
+																								pos: position{line: 2889, col: 12, offset: 91488},
 																								run: (*parser).callonListContinuationElement1263,
 																								expr: &choiceExpr{
-																									pos: position{line: 2887, col: 13, offset: 91418},
+																									pos: position{line: 2889, col: 13, offset: 91489},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 13, offset: 91418},
+																											pos:        position{line: 2889, col: 13, offset: 91489},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 20, offset: 91425},
+																											pos:        position{line: 2889, col: 20, offset: 91496},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 29, offset: 91434},
+																											pos:        position{line: 2889, col: 29, offset: 91505},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35637,9 +35637,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2897, col: 8, offset: 91594},
+																								pos: position{line: 2899, col: 8, offset: 91665},
 																								expr: &anyMatcher{
-																									line: 2897, col: 9, offset: 91595,
+																									line: 2899, col: 9, offset: 91666,
 																								},
 																							},
 																						},
@@ -35704,10 +35704,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 807, col: 8, offset: 26006},
 																							expr: &actionExpr{
-																								pos: position{line: 2878, col: 10, offset: 91246},
+																								pos: position{line: 2880, col: 10, offset: 91317},
 																								run: (*parser).callonListContinuationElement1284,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2878, col: 10, offset: 91246},
+																									pos:        position{line: 2880, col: 10, offset: 91317},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35716,28 +35716,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2900, col: 8, offset: 91644},
+																							pos: position{line: 2902, col: 8, offset: 91715},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2887, col: 12, offset: 91417},
+																									pos: position{line: 2889, col: 12, offset: 91488},
 																									run: (*parser).callonListContinuationElement1287,
 																									expr: &choiceExpr{
-																										pos: position{line: 2887, col: 13, offset: 91418},
+																										pos: position{line: 2889, col: 13, offset: 91489},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 13, offset: 91418},
+																												pos:        position{line: 2889, col: 13, offset: 91489},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 20, offset: 91425},
+																												pos:        position{line: 2889, col: 20, offset: 91496},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2887, col: 29, offset: 91434},
+																												pos:        position{line: 2889, col: 29, offset: 91505},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35746,9 +35746,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2897, col: 8, offset: 91594},
+																									pos: position{line: 2899, col: 8, offset: 91665},
 																									expr: &anyMatcher{
-																										line: 2897, col: 9, offset: 91595,
+																										line: 2899, col: 9, offset: 91666,
 																									},
 																								},
 																							},
@@ -35764,9 +35764,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2897, col: 8, offset: 91594},
+																	pos: position{line: 2899, col: 8, offset: 91665},
 																	expr: &anyMatcher{
-																		line: 2897, col: 9, offset: 91595,
+																		line: 2899, col: 9, offset: 91666,
 																	},
 																},
 															},
@@ -35777,52 +35777,52 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2723, col: 18, offset: 86820},
+										pos: position{line: 2725, col: 18, offset: 86891},
 										run: (*parser).callonListContinuationElement1297,
 										expr: &seqExpr{
-											pos: position{line: 2723, col: 18, offset: 86820},
+											pos: position{line: 2725, col: 18, offset: 86891},
 											exprs: []interface{}{
 												&choiceExpr{
-													pos: position{line: 2724, col: 9, offset: 86830},
+													pos: position{line: 2726, col: 9, offset: 86901},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2724, col: 9, offset: 86830},
+															pos:        position{line: 2726, col: 9, offset: 86901},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2725, col: 11, offset: 86866},
+															pos:        position{line: 2727, col: 11, offset: 86937},
 															val:        "***",
 															ignoreCase: false,
 															want:       "\"***\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2725, col: 19, offset: 86874},
+															pos:        position{line: 2727, col: 19, offset: 86945},
 															val:        "* * *",
 															ignoreCase: false,
 															want:       "\"* * *\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2725, col: 29, offset: 86884},
+															pos:        position{line: 2727, col: 29, offset: 86955},
 															val:        "---",
 															ignoreCase: false,
 															want:       "\"---\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2725, col: 37, offset: 86892},
+															pos:        position{line: 2727, col: 37, offset: 86963},
 															val:        "- - -",
 															ignoreCase: false,
 															want:       "\"- - -\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2725, col: 47, offset: 86902},
+															pos:        position{line: 2727, col: 47, offset: 86973},
 															val:        "___",
 															ignoreCase: false,
 															want:       "\"___\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2725, col: 55, offset: 86910},
+															pos:        position{line: 2727, col: 55, offset: 86981},
 															val:        "_ _ _",
 															ignoreCase: false,
 															want:       "\"_ _ _\"",
@@ -35830,12 +35830,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2726, col: 11, offset: 86956},
+													pos: position{line: 2728, col: 11, offset: 87027},
 													expr: &actionExpr{
-														pos: position{line: 2878, col: 10, offset: 91246},
+														pos: position{line: 2880, col: 10, offset: 91317},
 														run: (*parser).callonListContinuationElement1308,
 														expr: &charClassMatcher{
-															pos:        position{line: 2878, col: 10, offset: 91246},
+															pos:        position{line: 2880, col: 10, offset: 91317},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35844,28 +35844,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2900, col: 8, offset: 91644},
+													pos: position{line: 2902, col: 8, offset: 91715},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2887, col: 12, offset: 91417},
+															pos: position{line: 2889, col: 12, offset: 91488},
 															run: (*parser).callonListContinuationElement1311,
 															expr: &choiceExpr{
-																pos: position{line: 2887, col: 13, offset: 91418},
+																pos: position{line: 2889, col: 13, offset: 91489},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2887, col: 13, offset: 91418},
+																		pos:        position{line: 2889, col: 13, offset: 91489},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2887, col: 20, offset: 91425},
+																		pos:        position{line: 2889, col: 20, offset: 91496},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2887, col: 29, offset: 91434},
+																		pos:        position{line: 2889, col: 29, offset: 91505},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35874,20 +35874,20 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2897, col: 8, offset: 91594},
+															pos: position{line: 2899, col: 8, offset: 91665},
 															expr: &anyMatcher{
-																line: 2897, col: 9, offset: 91595,
+																line: 2899, col: 9, offset: 91666,
 															},
 														},
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2726, col: 22, offset: 86967},
+													pos: position{line: 2728, col: 22, offset: 87038},
 													expr: &actionExpr{
-														pos: position{line: 2878, col: 10, offset: 91246},
+														pos: position{line: 2880, col: 10, offset: 91317},
 														run: (*parser).callonListContinuationElement1319,
 														expr: &charClassMatcher{
-															pos:        position{line: 2878, col: 10, offset: 91246},
+															pos:        position{line: 2880, col: 10, offset: 91317},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35896,28 +35896,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2900, col: 8, offset: 91644},
+													pos: position{line: 2902, col: 8, offset: 91715},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2887, col: 12, offset: 91417},
+															pos: position{line: 2889, col: 12, offset: 91488},
 															run: (*parser).callonListContinuationElement1322,
 															expr: &choiceExpr{
-																pos: position{line: 2887, col: 13, offset: 91418},
+																pos: position{line: 2889, col: 13, offset: 91489},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2887, col: 13, offset: 91418},
+																		pos:        position{line: 2889, col: 13, offset: 91489},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2887, col: 20, offset: 91425},
+																		pos:        position{line: 2889, col: 20, offset: 91496},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2887, col: 29, offset: 91434},
+																		pos:        position{line: 2889, col: 29, offset: 91505},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35926,9 +35926,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2897, col: 8, offset: 91594},
+															pos: position{line: 2899, col: 8, offset: 91665},
 															expr: &anyMatcher{
-																line: 2897, col: 9, offset: 91595,
+																line: 2899, col: 9, offset: 91666,
 															},
 														},
 													},
@@ -35941,24 +35941,24 @@ var g = &grammar{
 										name: "ImageBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2614, col: 5, offset: 83756},
+										pos: position{line: 2616, col: 5, offset: 83827},
 										run: (*parser).callonListContinuationElement1330,
 										expr: &seqExpr{
-											pos: position{line: 2614, col: 5, offset: 83756},
+											pos: position{line: 2616, col: 5, offset: 83827},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2620, col: 19, offset: 83913},
+													pos:        position{line: 2622, col: 19, offset: 83984},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2620, col: 26, offset: 83920},
+													pos: position{line: 2622, col: 26, offset: 83991},
 													expr: &actionExpr{
-														pos: position{line: 2878, col: 10, offset: 91246},
+														pos: position{line: 2880, col: 10, offset: 91317},
 														run: (*parser).callonListContinuationElement1334,
 														expr: &charClassMatcher{
-															pos:        position{line: 2878, col: 10, offset: 91246},
+															pos:        position{line: 2880, col: 10, offset: 91317},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35967,28 +35967,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2900, col: 8, offset: 91644},
+													pos: position{line: 2902, col: 8, offset: 91715},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2887, col: 12, offset: 91417},
+															pos: position{line: 2889, col: 12, offset: 91488},
 															run: (*parser).callonListContinuationElement1337,
 															expr: &choiceExpr{
-																pos: position{line: 2887, col: 13, offset: 91418},
+																pos: position{line: 2889, col: 13, offset: 91489},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2887, col: 13, offset: 91418},
+																		pos:        position{line: 2889, col: 13, offset: 91489},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2887, col: 20, offset: 91425},
+																		pos:        position{line: 2889, col: 20, offset: 91496},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2887, col: 29, offset: 91434},
+																		pos:        position{line: 2889, col: 29, offset: 91505},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35997,20 +35997,20 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2897, col: 8, offset: 91594},
+															pos: position{line: 2899, col: 8, offset: 91665},
 															expr: &anyMatcher{
-																line: 2897, col: 9, offset: 91595,
+																line: 2899, col: 9, offset: 91666,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2615, col: 5, offset: 83780},
+													pos:   position{line: 2617, col: 5, offset: 83851},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2615, col: 11, offset: 83786},
+														pos: position{line: 2617, col: 11, offset: 83857},
 														expr: &choiceExpr{
-															pos: position{line: 2615, col: 12, offset: 83787},
+															pos: position{line: 2617, col: 12, offset: 83858},
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 677, col: 14, offset: 21525},
@@ -36019,18 +36019,18 @@ var g = &grammar{
 																		pos: position{line: 677, col: 14, offset: 21525},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2895, col: 11, offset: 91580},
+																				pos: position{line: 2897, col: 11, offset: 91651},
 																				expr: &anyMatcher{
-																					line: 2895, col: 13, offset: 91582,
+																					line: 2897, col: 13, offset: 91653,
 																				},
 																			},
 																			&zeroOrMoreExpr{
 																				pos: position{line: 677, col: 21, offset: 21532},
 																				expr: &actionExpr{
-																					pos: position{line: 2878, col: 10, offset: 91246},
+																					pos: position{line: 2880, col: 10, offset: 91317},
 																					run: (*parser).callonListContinuationElement1352,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2878, col: 10, offset: 91246},
+																						pos:        position{line: 2880, col: 10, offset: 91317},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -36039,28 +36039,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2900, col: 8, offset: 91644},
+																				pos: position{line: 2902, col: 8, offset: 91715},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2887, col: 12, offset: 91417},
+																						pos: position{line: 2889, col: 12, offset: 91488},
 																						run: (*parser).callonListContinuationElement1355,
 																						expr: &choiceExpr{
-																							pos: position{line: 2887, col: 13, offset: 91418},
+																							pos: position{line: 2889, col: 13, offset: 91489},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2887, col: 13, offset: 91418},
+																									pos:        position{line: 2889, col: 13, offset: 91489},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2887, col: 20, offset: 91425},
+																									pos:        position{line: 2889, col: 20, offset: 91496},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2887, col: 29, offset: 91434},
+																									pos:        position{line: 2889, col: 29, offset: 91505},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -36069,9 +36069,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2897, col: 8, offset: 91594},
+																						pos: position{line: 2899, col: 8, offset: 91665},
 																						expr: &anyMatcher{
-																							line: 2897, col: 9, offset: 91595,
+																							line: 2899, col: 9, offset: 91666,
 																						},
 																					},
 																				},
@@ -36080,32 +36080,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2627, col: 5, offset: 84032},
+																	pos: position{line: 2629, col: 5, offset: 84103},
 																	run: (*parser).callonListContinuationElement1362,
 																	expr: &seqExpr{
-																		pos: position{line: 2627, col: 5, offset: 84032},
+																		pos: position{line: 2629, col: 5, offset: 84103},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2627, col: 5, offset: 84032},
+																				pos: position{line: 2629, col: 5, offset: 84103},
 																				expr: &choiceExpr{
-																					pos: position{line: 2624, col: 22, offset: 83993},
+																					pos: position{line: 2626, col: 22, offset: 84064},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2620, col: 19, offset: 83913},
+																							pos: position{line: 2622, col: 19, offset: 83984},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2620, col: 19, offset: 83913},
+																									pos:        position{line: 2622, col: 19, offset: 83984},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2620, col: 26, offset: 83920},
+																									pos: position{line: 2622, col: 26, offset: 83991},
 																									expr: &actionExpr{
-																										pos: position{line: 2878, col: 10, offset: 91246},
+																										pos: position{line: 2880, col: 10, offset: 91317},
 																										run: (*parser).callonListContinuationElement1369,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2878, col: 10, offset: 91246},
+																											pos:        position{line: 2880, col: 10, offset: 91317},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -36114,28 +36114,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2900, col: 8, offset: 91644},
+																									pos: position{line: 2902, col: 8, offset: 91715},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2887, col: 12, offset: 91417},
+																											pos: position{line: 2889, col: 12, offset: 91488},
 																											run: (*parser).callonListContinuationElement1372,
 																											expr: &choiceExpr{
-																												pos: position{line: 2887, col: 13, offset: 91418},
+																												pos: position{line: 2889, col: 13, offset: 91489},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2887, col: 13, offset: 91418},
+																														pos:        position{line: 2889, col: 13, offset: 91489},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2887, col: 20, offset: 91425},
+																														pos:        position{line: 2889, col: 20, offset: 91496},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2887, col: 29, offset: 91434},
+																														pos:        position{line: 2889, col: 29, offset: 91505},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -36144,9 +36144,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2897, col: 8, offset: 91594},
+																											pos: position{line: 2899, col: 8, offset: 91665},
 																											expr: &anyMatcher{
-																												line: 2897, col: 9, offset: 91595,
+																												line: 2899, col: 9, offset: 91666,
 																											},
 																										},
 																									},
@@ -36154,59 +36154,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2897, col: 8, offset: 91594},
+																							pos: position{line: 2899, col: 8, offset: 91665},
 																							expr: &anyMatcher{
-																								line: 2897, col: 9, offset: 91595,
+																								line: 2899, col: 9, offset: 91666,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2628, col: 5, offset: 84055},
+																				pos:   position{line: 2630, col: 5, offset: 84126},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2629, col: 9, offset: 84073},
+																					pos: position{line: 2631, col: 9, offset: 84144},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2629, col: 10, offset: 84074},
+																							pos: position{line: 2631, col: 10, offset: 84145},
 																							run: (*parser).callonListContinuationElement1383,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2629, col: 10, offset: 84074},
+																								pos:   position{line: 2631, col: 10, offset: 84145},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2629, col: 17, offset: 84081},
+																									pos: position{line: 2631, col: 17, offset: 84152},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2637, col: 21, offset: 84277},
+																											pos: position{line: 2639, col: 21, offset: 84348},
 																											run: (*parser).callonListContinuationElement1386,
 																											expr: &seqExpr{
-																												pos: position{line: 2637, col: 21, offset: 84277},
+																												pos: position{line: 2639, col: 21, offset: 84348},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2637, col: 21, offset: 84277},
+																														pos:   position{line: 2639, col: 21, offset: 84348},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2637, col: 27, offset: 84283},
+																															pos: position{line: 2639, col: 27, offset: 84354},
 																															expr: &actionExpr{
-																																pos: position{line: 2642, col: 5, offset: 84358},
+																																pos: position{line: 2644, col: 5, offset: 84429},
 																																run: (*parser).callonListContinuationElement1390,
 																																expr: &seqExpr{
-																																	pos: position{line: 2642, col: 5, offset: 84358},
+																																	pos: position{line: 2644, col: 5, offset: 84429},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2642, col: 5, offset: 84358},
+																																			pos:        position{line: 2644, col: 5, offset: 84429},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2642, col: 9, offset: 84362},
+																																			pos: position{line: 2644, col: 9, offset: 84433},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2878, col: 10, offset: 91246},
+																																				pos: position{line: 2880, col: 10, offset: 91317},
 																																				run: (*parser).callonListContinuationElement1394,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2878, col: 10, offset: 91246},
+																																					pos:        position{line: 2880, col: 10, offset: 91317},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -36215,21 +36215,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2642, col: 16, offset: 84369},
+																																			pos:   position{line: 2644, col: 16, offset: 84440},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2648, col: 5, offset: 84569},
+																																				pos: position{line: 2650, col: 5, offset: 84640},
 																																				run: (*parser).callonListContinuationElement1397,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2648, col: 5, offset: 84569},
+																																					pos:   position{line: 2650, col: 5, offset: 84640},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2648, col: 14, offset: 84578},
+																																						pos: position{line: 2650, col: 14, offset: 84649},
 																																						run: (*parser).callonListContinuationElement1399,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2648, col: 14, offset: 84578},
+																																							pos: position{line: 2650, col: 14, offset: 84649},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2648, col: 14, offset: 84578},
+																																								pos:        position{line: 2650, col: 14, offset: 84649},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -36246,28 +36246,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2900, col: 8, offset: 91644},
+																														pos: position{line: 2902, col: 8, offset: 91715},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2887, col: 12, offset: 91417},
+																																pos: position{line: 2889, col: 12, offset: 91488},
 																																run: (*parser).callonListContinuationElement1403,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2887, col: 13, offset: 91418},
+																																	pos: position{line: 2889, col: 13, offset: 91489},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2887, col: 13, offset: 91418},
+																																			pos:        position{line: 2889, col: 13, offset: 91489},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2887, col: 20, offset: 91425},
+																																			pos:        position{line: 2889, col: 20, offset: 91496},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2887, col: 29, offset: 91434},
+																																			pos:        position{line: 2889, col: 29, offset: 91505},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -36276,9 +36276,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2897, col: 8, offset: 91594},
+																																pos: position{line: 2899, col: 8, offset: 91665},
 																																expr: &anyMatcher{
-																																	line: 2897, col: 9, offset: 91595,
+																																	line: 2899, col: 9, offset: 91666,
 																																},
 																															},
 																														},
@@ -36287,40 +36287,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2654, col: 24, offset: 84714},
+																											pos: position{line: 2656, col: 24, offset: 84785},
 																											run: (*parser).callonListContinuationElement1410,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2654, col: 24, offset: 84714},
+																												pos:   position{line: 2656, col: 24, offset: 84785},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2654, col: 30, offset: 84720},
+																													pos: position{line: 2656, col: 30, offset: 84791},
 																													expr: &actionExpr{
-																														pos: position{line: 2659, col: 5, offset: 84796},
+																														pos: position{line: 2661, col: 5, offset: 84867},
 																														run: (*parser).callonListContinuationElement1413,
 																														expr: &seqExpr{
-																															pos: position{line: 2659, col: 5, offset: 84796},
+																															pos: position{line: 2661, col: 5, offset: 84867},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2659, col: 5, offset: 84796},
+																																	pos: position{line: 2661, col: 5, offset: 84867},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2624, col: 22, offset: 83993},
+																																		pos: position{line: 2626, col: 22, offset: 84064},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2620, col: 19, offset: 83913},
+																																				pos: position{line: 2622, col: 19, offset: 83984},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2620, col: 19, offset: 83913},
+																																						pos:        position{line: 2622, col: 19, offset: 83984},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2620, col: 26, offset: 83920},
+																																						pos: position{line: 2622, col: 26, offset: 83991},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2878, col: 10, offset: 91246},
+																																							pos: position{line: 2880, col: 10, offset: 91317},
 																																							run: (*parser).callonListContinuationElement1420,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2878, col: 10, offset: 91246},
+																																								pos:        position{line: 2880, col: 10, offset: 91317},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -36329,28 +36329,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2900, col: 8, offset: 91644},
+																																						pos: position{line: 2902, col: 8, offset: 91715},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2887, col: 12, offset: 91417},
+																																								pos: position{line: 2889, col: 12, offset: 91488},
 																																								run: (*parser).callonListContinuationElement1423,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2887, col: 13, offset: 91418},
+																																									pos: position{line: 2889, col: 13, offset: 91489},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2887, col: 13, offset: 91418},
+																																											pos:        position{line: 2889, col: 13, offset: 91489},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2887, col: 20, offset: 91425},
+																																											pos:        position{line: 2889, col: 20, offset: 91496},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2887, col: 29, offset: 91434},
+																																											pos:        position{line: 2889, col: 29, offset: 91505},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -36359,9 +36359,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2897, col: 8, offset: 91594},
+																																								pos: position{line: 2899, col: 8, offset: 91665},
 																																								expr: &anyMatcher{
-																																									line: 2897, col: 9, offset: 91595,
+																																									line: 2899, col: 9, offset: 91666,
 																																								},
 																																							},
 																																						},
@@ -36369,16 +36369,16 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2897, col: 8, offset: 91594},
+																																				pos: position{line: 2899, col: 8, offset: 91665},
 																																				expr: &anyMatcher{
-																																					line: 2897, col: 9, offset: 91595,
+																																					line: 2899, col: 9, offset: 91666,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2660, col: 5, offset: 84819},
+																																	pos: position{line: 2662, col: 5, offset: 84890},
 																																	expr: &actionExpr{
 																																		pos: position{line: 677, col: 14, offset: 21525},
 																																		run: (*parser).callonListContinuationElement1433,
@@ -36386,18 +36386,18 @@ var g = &grammar{
 																																			pos: position{line: 677, col: 14, offset: 21525},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2895, col: 11, offset: 91580},
+																																					pos: position{line: 2897, col: 11, offset: 91651},
 																																					expr: &anyMatcher{
-																																						line: 2895, col: 13, offset: 91582,
+																																						line: 2897, col: 13, offset: 91653,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
 																																					pos: position{line: 677, col: 21, offset: 21532},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2878, col: 10, offset: 91246},
+																																						pos: position{line: 2880, col: 10, offset: 91317},
 																																						run: (*parser).callonListContinuationElement1438,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2878, col: 10, offset: 91246},
+																																							pos:        position{line: 2880, col: 10, offset: 91317},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -36406,28 +36406,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2900, col: 8, offset: 91644},
+																																					pos: position{line: 2902, col: 8, offset: 91715},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2887, col: 12, offset: 91417},
+																																							pos: position{line: 2889, col: 12, offset: 91488},
 																																							run: (*parser).callonListContinuationElement1441,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2887, col: 13, offset: 91418},
+																																								pos: position{line: 2889, col: 13, offset: 91489},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2887, col: 13, offset: 91418},
+																																										pos:        position{line: 2889, col: 13, offset: 91489},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2887, col: 20, offset: 91425},
+																																										pos:        position{line: 2889, col: 20, offset: 91496},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2887, col: 29, offset: 91434},
+																																										pos:        position{line: 2889, col: 29, offset: 91505},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -36436,9 +36436,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2897, col: 8, offset: 91594},
+																																							pos: position{line: 2899, col: 8, offset: 91665},
 																																							expr: &anyMatcher{
-																																								line: 2897, col: 9, offset: 91595,
+																																								line: 2899, col: 9, offset: 91666,
 																																							},
 																																						},
 																																					},
@@ -36448,17 +36448,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2661, col: 5, offset: 84834},
+																																	pos:   position{line: 2663, col: 5, offset: 84905},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2661, col: 12, offset: 84841},
+																																		pos: position{line: 2663, col: 12, offset: 84912},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2678, col: 20, offset: 85305},
+																																			pos: position{line: 2680, col: 20, offset: 85376},
 																																			run: (*parser).callonListContinuationElement1450,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2678, col: 20, offset: 85305},
+																																				pos: position{line: 2680, col: 20, offset: 85376},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2678, col: 20, offset: 85305},
+																																					pos:        position{line: 2680, col: 20, offset: 85376},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -36469,18 +36469,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2661, col: 31, offset: 84860},
+																																	pos:        position{line: 2663, col: 31, offset: 84931},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2661, col: 35, offset: 84864},
+																																	pos: position{line: 2663, col: 35, offset: 84935},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2878, col: 10, offset: 91246},
+																																		pos: position{line: 2880, col: 10, offset: 91317},
 																																		run: (*parser).callonListContinuationElement1455,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2878, col: 10, offset: 91246},
+																																			pos:        position{line: 2880, col: 10, offset: 91317},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -36489,27 +36489,27 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2661, col: 42, offset: 84871},
+																																	pos: position{line: 2663, col: 42, offset: 84942},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2887, col: 12, offset: 91417},
+																																		pos: position{line: 2889, col: 12, offset: 91488},
 																																		run: (*parser).callonListContinuationElement1458,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2887, col: 13, offset: 91418},
+																																			pos: position{line: 2889, col: 13, offset: 91489},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2887, col: 13, offset: 91418},
+																																					pos:        position{line: 2889, col: 13, offset: 91489},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2887, col: 20, offset: 91425},
+																																					pos:        position{line: 2889, col: 20, offset: 91496},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2887, col: 29, offset: 91434},
+																																					pos:        position{line: 2889, col: 29, offset: 91505},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -36519,37 +36519,37 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2661, col: 51, offset: 84880},
+																																	pos:   position{line: 2663, col: 51, offset: 84951},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2667, col: 5, offset: 85039},
+																																		pos: position{line: 2669, col: 5, offset: 85110},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2668, col: 9, offset: 85049},
+																																			pos: position{line: 2670, col: 9, offset: 85120},
 																																			run: (*parser).callonListContinuationElement1465,
 																																			expr: &seqExpr{
-																																				pos: position{line: 2668, col: 9, offset: 85049},
+																																				pos: position{line: 2670, col: 9, offset: 85120},
 																																				exprs: []interface{}{
 																																					&notExpr{
-																																						pos: position{line: 2668, col: 9, offset: 85049},
+																																						pos: position{line: 2670, col: 9, offset: 85120},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2624, col: 22, offset: 83993},
+																																							pos: position{line: 2626, col: 22, offset: 84064},
 																																							alternatives: []interface{}{
 																																								&seqExpr{
-																																									pos: position{line: 2620, col: 19, offset: 83913},
+																																									pos: position{line: 2622, col: 19, offset: 83984},
 																																									exprs: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2620, col: 19, offset: 83913},
+																																											pos:        position{line: 2622, col: 19, offset: 83984},
 																																											val:        "|===",
 																																											ignoreCase: false,
 																																											want:       "\"|===\"",
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 2620, col: 26, offset: 83920},
+																																											pos: position{line: 2622, col: 26, offset: 83991},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2878, col: 10, offset: 91246},
+																																												pos: position{line: 2880, col: 10, offset: 91317},
 																																												run: (*parser).callonListContinuationElement1472,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2878, col: 10, offset: 91246},
+																																													pos:        position{line: 2880, col: 10, offset: 91317},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -36558,28 +36558,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2900, col: 8, offset: 91644},
+																																											pos: position{line: 2902, col: 8, offset: 91715},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2887, col: 12, offset: 91417},
+																																													pos: position{line: 2889, col: 12, offset: 91488},
 																																													run: (*parser).callonListContinuationElement1475,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2887, col: 13, offset: 91418},
+																																														pos: position{line: 2889, col: 13, offset: 91489},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2887, col: 13, offset: 91418},
+																																																pos:        position{line: 2889, col: 13, offset: 91489},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2887, col: 20, offset: 91425},
+																																																pos:        position{line: 2889, col: 20, offset: 91496},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2887, col: 29, offset: 91434},
+																																																pos:        position{line: 2889, col: 29, offset: 91505},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -36588,9 +36588,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2897, col: 8, offset: 91594},
+																																													pos: position{line: 2899, col: 8, offset: 91665},
 																																													expr: &anyMatcher{
-																																														line: 2897, col: 9, offset: 91595,
+																																														line: 2899, col: 9, offset: 91666,
 																																													},
 																																												},
 																																											},
@@ -36598,16 +36598,16 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2897, col: 8, offset: 91594},
+																																									pos: position{line: 2899, col: 8, offset: 91665},
 																																									expr: &anyMatcher{
-																																										line: 2897, col: 9, offset: 91595,
+																																										line: 2899, col: 9, offset: 91666,
 																																									},
 																																								},
 																																							},
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2669, col: 9, offset: 85076},
+																																						pos: position{line: 2671, col: 9, offset: 85147},
 																																						expr: &actionExpr{
 																																							pos: position{line: 677, col: 14, offset: 21525},
 																																							run: (*parser).callonListContinuationElement1485,
@@ -36615,18 +36615,18 @@ var g = &grammar{
 																																								pos: position{line: 677, col: 14, offset: 21525},
 																																								exprs: []interface{}{
 																																									&andExpr{
-																																										pos: position{line: 2895, col: 11, offset: 91580},
+																																										pos: position{line: 2897, col: 11, offset: 91651},
 																																										expr: &anyMatcher{
-																																											line: 2895, col: 13, offset: 91582,
+																																											line: 2897, col: 13, offset: 91653,
 																																										},
 																																									},
 																																									&zeroOrMoreExpr{
 																																										pos: position{line: 677, col: 21, offset: 21532},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2878, col: 10, offset: 91246},
+																																											pos: position{line: 2880, col: 10, offset: 91317},
 																																											run: (*parser).callonListContinuationElement1490,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2878, col: 10, offset: 91246},
+																																												pos:        position{line: 2880, col: 10, offset: 91317},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -36635,28 +36635,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2900, col: 8, offset: 91644},
+																																										pos: position{line: 2902, col: 8, offset: 91715},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2887, col: 12, offset: 91417},
+																																												pos: position{line: 2889, col: 12, offset: 91488},
 																																												run: (*parser).callonListContinuationElement1493,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2887, col: 13, offset: 91418},
+																																													pos: position{line: 2889, col: 13, offset: 91489},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2887, col: 13, offset: 91418},
+																																															pos:        position{line: 2889, col: 13, offset: 91489},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2887, col: 20, offset: 91425},
+																																															pos:        position{line: 2889, col: 20, offset: 91496},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2887, col: 29, offset: 91434},
+																																															pos:        position{line: 2889, col: 29, offset: 91505},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -36665,9 +36665,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2897, col: 8, offset: 91594},
+																																												pos: position{line: 2899, col: 8, offset: 91665},
 																																												expr: &anyMatcher{
-																																													line: 2897, col: 9, offset: 91595,
+																																													line: 2899, col: 9, offset: 91666,
 																																												},
 																																											},
 																																										},
@@ -36677,22 +36677,22 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2670, col: 9, offset: 85095},
+																																						pos: position{line: 2672, col: 9, offset: 85166},
 																																						expr: &seqExpr{
-																																							pos: position{line: 2670, col: 11, offset: 85097},
+																																							pos: position{line: 2672, col: 11, offset: 85168},
 																																							exprs: []interface{}{
 																																								&labeledExpr{
-																																									pos:   position{line: 2670, col: 11, offset: 85097},
+																																									pos:   position{line: 2672, col: 11, offset: 85168},
 																																									label: "format",
 																																									expr: &zeroOrOneExpr{
-																																										pos: position{line: 2670, col: 18, offset: 85104},
+																																										pos: position{line: 2672, col: 18, offset: 85175},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2678, col: 20, offset: 85305},
+																																											pos: position{line: 2680, col: 20, offset: 85376},
 																																											run: (*parser).callonListContinuationElement1504,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2678, col: 20, offset: 85305},
+																																												pos: position{line: 2680, col: 20, offset: 85376},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2678, col: 20, offset: 85305},
+																																													pos:        position{line: 2680, col: 20, offset: 85376},
 																																													val:        "[^ |\\r\\n]",
 																																													chars:      []rune{' ', '|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -36703,7 +36703,7 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&litMatcher{
-																																									pos:        position{line: 2670, col: 37, offset: 85123},
+																																									pos:        position{line: 2672, col: 37, offset: 85194},
 																																									val:        "|",
 																																									ignoreCase: false,
 																																									want:       "\"|\"",
@@ -36712,15 +36712,15 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2671, col: 9, offset: 85136},
+																																						pos:   position{line: 2673, col: 9, offset: 85207},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2671, col: 18, offset: 85145},
+																																							pos: position{line: 2673, col: 18, offset: 85216},
 																																							run: (*parser).callonListContinuationElement1509,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2671, col: 18, offset: 85145},
+																																								pos: position{line: 2673, col: 18, offset: 85216},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2671, col: 18, offset: 85145},
+																																									pos:        position{line: 2673, col: 18, offset: 85216},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -36730,30 +36730,30 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&zeroOrOneExpr{
-																																						pos: position{line: 2673, col: 12, offset: 85207},
+																																						pos: position{line: 2675, col: 12, offset: 85278},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2900, col: 8, offset: 91644},
+																																							pos: position{line: 2902, col: 8, offset: 91715},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2887, col: 12, offset: 91417},
+																																									pos: position{line: 2889, col: 12, offset: 91488},
 																																									run: (*parser).callonListContinuationElement1514,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2887, col: 13, offset: 91418},
+																																										pos: position{line: 2889, col: 13, offset: 91489},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2887, col: 13, offset: 91418},
+																																												pos:        position{line: 2889, col: 13, offset: 91489},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2887, col: 20, offset: 91425},
+																																												pos:        position{line: 2889, col: 20, offset: 91496},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2887, col: 29, offset: 91434},
+																																												pos:        position{line: 2889, col: 29, offset: 91505},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -36762,9 +36762,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2897, col: 8, offset: 91594},
+																																									pos: position{line: 2899, col: 8, offset: 91665},
 																																									expr: &anyMatcher{
-																																										line: 2897, col: 9, offset: 91595,
+																																										line: 2899, col: 9, offset: 91666,
 																																									},
 																																								},
 																																							},
@@ -36792,18 +36792,18 @@ var g = &grammar{
 																								pos: position{line: 677, col: 14, offset: 21525},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2895, col: 11, offset: 91580},
+																										pos: position{line: 2897, col: 11, offset: 91651},
 																										expr: &anyMatcher{
-																											line: 2895, col: 13, offset: 91582,
+																											line: 2897, col: 13, offset: 91653,
 																										},
 																									},
 																									&zeroOrMoreExpr{
 																										pos: position{line: 677, col: 21, offset: 21532},
 																										expr: &actionExpr{
-																											pos: position{line: 2878, col: 10, offset: 91246},
+																											pos: position{line: 2880, col: 10, offset: 91317},
 																											run: (*parser).callonListContinuationElement1526,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2878, col: 10, offset: 91246},
+																												pos:        position{line: 2880, col: 10, offset: 91317},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -36812,28 +36812,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2900, col: 8, offset: 91644},
+																										pos: position{line: 2902, col: 8, offset: 91715},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2887, col: 12, offset: 91417},
+																												pos: position{line: 2889, col: 12, offset: 91488},
 																												run: (*parser).callonListContinuationElement1529,
 																												expr: &choiceExpr{
-																													pos: position{line: 2887, col: 13, offset: 91418},
+																													pos: position{line: 2889, col: 13, offset: 91489},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2887, col: 13, offset: 91418},
+																															pos:        position{line: 2889, col: 13, offset: 91489},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2887, col: 20, offset: 91425},
+																															pos:        position{line: 2889, col: 20, offset: 91496},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2887, col: 29, offset: 91434},
+																															pos:        position{line: 2889, col: 29, offset: 91505},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -36842,9 +36842,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2897, col: 8, offset: 91594},
+																												pos: position{line: 2899, col: 8, offset: 91665},
 																												expr: &anyMatcher{
-																													line: 2897, col: 9, offset: 91595,
+																													line: 2899, col: 9, offset: 91666,
 																												},
 																											},
 																										},
@@ -36863,24 +36863,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2624, col: 22, offset: 83993},
+													pos: position{line: 2626, col: 22, offset: 84064},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2620, col: 19, offset: 83913},
+															pos: position{line: 2622, col: 19, offset: 83984},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2620, col: 19, offset: 83913},
+																	pos:        position{line: 2622, col: 19, offset: 83984},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2620, col: 26, offset: 83920},
+																	pos: position{line: 2622, col: 26, offset: 83991},
 																	expr: &actionExpr{
-																		pos: position{line: 2878, col: 10, offset: 91246},
+																		pos: position{line: 2880, col: 10, offset: 91317},
 																		run: (*parser).callonListContinuationElement1540,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2878, col: 10, offset: 91246},
+																			pos:        position{line: 2880, col: 10, offset: 91317},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -36889,28 +36889,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2900, col: 8, offset: 91644},
+																	pos: position{line: 2902, col: 8, offset: 91715},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2887, col: 12, offset: 91417},
+																			pos: position{line: 2889, col: 12, offset: 91488},
 																			run: (*parser).callonListContinuationElement1543,
 																			expr: &choiceExpr{
-																				pos: position{line: 2887, col: 13, offset: 91418},
+																				pos: position{line: 2889, col: 13, offset: 91489},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 13, offset: 91418},
+																						pos:        position{line: 2889, col: 13, offset: 91489},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 20, offset: 91425},
+																						pos:        position{line: 2889, col: 20, offset: 91496},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 29, offset: 91434},
+																						pos:        position{line: 2889, col: 29, offset: 91505},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36919,9 +36919,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2897, col: 8, offset: 91594},
+																			pos: position{line: 2899, col: 8, offset: 91665},
 																			expr: &anyMatcher{
-																				line: 2897, col: 9, offset: 91595,
+																				line: 2899, col: 9, offset: 91666,
 																			},
 																		},
 																	},
@@ -36929,9 +36929,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2897, col: 8, offset: 91594},
+															pos: position{line: 2899, col: 8, offset: 91665},
 															expr: &anyMatcher{
-																line: 2897, col: 9, offset: 91595,
+																line: 2899, col: 9, offset: 91666,
 															},
 														},
 													},
@@ -36940,36 +36940,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2485, col: 22, offset: 80132},
+										pos: position{line: 2487, col: 22, offset: 80203},
 										run: (*parser).callonListContinuationElement1552,
 										expr: &seqExpr{
-											pos: position{line: 2485, col: 22, offset: 80132},
+											pos: position{line: 2487, col: 22, offset: 80203},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2490, col: 31, offset: 80353},
+													pos:        position{line: 2492, col: 31, offset: 80424},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2490, col: 36, offset: 80358},
+													pos: position{line: 2492, col: 36, offset: 80429},
 													expr: &litMatcher{
-														pos:        position{line: 2490, col: 37, offset: 80359},
+														pos:        position{line: 2492, col: 37, offset: 80430},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2485, col: 49, offset: 80159},
+													pos:   position{line: 2487, col: 49, offset: 80230},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2824, col: 13, offset: 89772},
+														pos: position{line: 2826, col: 13, offset: 89843},
 														run: (*parser).callonListContinuationElement1558,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2824, col: 13, offset: 89772},
+															pos: position{line: 2826, col: 13, offset: 89843},
 															expr: &charClassMatcher{
-																pos:        position{line: 2824, col: 13, offset: 89772},
+																pos:        position{line: 2826, col: 13, offset: 89843},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -36979,28 +36979,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2900, col: 8, offset: 91644},
+													pos: position{line: 2902, col: 8, offset: 91715},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2887, col: 12, offset: 91417},
+															pos: position{line: 2889, col: 12, offset: 91488},
 															run: (*parser).callonListContinuationElement1562,
 															expr: &choiceExpr{
-																pos: position{line: 2887, col: 13, offset: 91418},
+																pos: position{line: 2889, col: 13, offset: 91489},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2887, col: 13, offset: 91418},
+																		pos:        position{line: 2889, col: 13, offset: 91489},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2887, col: 20, offset: 91425},
+																		pos:        position{line: 2889, col: 20, offset: 91496},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2887, col: 29, offset: 91434},
+																		pos:        position{line: 2889, col: 29, offset: 91505},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -37009,9 +37009,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2897, col: 8, offset: 91594},
+															pos: position{line: 2899, col: 8, offset: 91665},
 															expr: &anyMatcher{
-																line: 2897, col: 9, offset: 91595,
+																line: 2899, col: 9, offset: 91666,
 															},
 														},
 													},
@@ -37102,12 +37102,12 @@ var g = &grammar{
 																					expr: &andExpr{
 																						pos: position{line: 1751, col: 13, offset: 56768},
 																						expr: &actionExpr{
-																							pos: position{line: 2882, col: 11, offset: 91307},
+																							pos: position{line: 2884, col: 11, offset: 91378},
 																							run: (*parser).callonListContinuationElement1590,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2882, col: 11, offset: 91307},
+																								pos: position{line: 2884, col: 11, offset: 91378},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2882, col: 11, offset: 91307},
+																									pos:        position{line: 2884, col: 11, offset: 91378},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -37128,10 +37128,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1753, col: 14, offset: 56840},
 																					expr: &actionExpr{
-																						pos: position{line: 2878, col: 10, offset: 91246},
+																						pos: position{line: 2880, col: 10, offset: 91317},
 																						run: (*parser).callonListContinuationElement1596,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2878, col: 10, offset: 91246},
+																							pos:        position{line: 2880, col: 10, offset: 91317},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37140,28 +37140,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2900, col: 8, offset: 91644},
+																					pos: position{line: 2902, col: 8, offset: 91715},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2887, col: 12, offset: 91417},
+																							pos: position{line: 2889, col: 12, offset: 91488},
 																							run: (*parser).callonListContinuationElement1599,
 																							expr: &choiceExpr{
-																								pos: position{line: 2887, col: 13, offset: 91418},
+																								pos: position{line: 2889, col: 13, offset: 91489},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2887, col: 13, offset: 91418},
+																										pos:        position{line: 2889, col: 13, offset: 91489},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2887, col: 20, offset: 91425},
+																										pos:        position{line: 2889, col: 20, offset: 91496},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2887, col: 29, offset: 91434},
+																										pos:        position{line: 2889, col: 29, offset: 91505},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -37170,9 +37170,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2897, col: 8, offset: 91594},
+																							pos: position{line: 2899, col: 8, offset: 91665},
 																							expr: &anyMatcher{
-																								line: 2897, col: 9, offset: 91595,
+																								line: 2899, col: 9, offset: 91666,
 																							},
 																						},
 																					},
@@ -37203,18 +37203,18 @@ var g = &grammar{
 																			pos: position{line: 677, col: 14, offset: 21525},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2895, col: 11, offset: 91580},
+																					pos: position{line: 2897, col: 11, offset: 91651},
 																					expr: &anyMatcher{
-																						line: 2895, col: 13, offset: 91582,
+																						line: 2897, col: 13, offset: 91653,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21532},
 																					expr: &actionExpr{
-																						pos: position{line: 2878, col: 10, offset: 91246},
+																						pos: position{line: 2880, col: 10, offset: 91317},
 																						run: (*parser).callonListContinuationElement1615,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2878, col: 10, offset: 91246},
+																							pos:        position{line: 2880, col: 10, offset: 91317},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37223,28 +37223,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2900, col: 8, offset: 91644},
+																					pos: position{line: 2902, col: 8, offset: 91715},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2887, col: 12, offset: 91417},
+																							pos: position{line: 2889, col: 12, offset: 91488},
 																							run: (*parser).callonListContinuationElement1618,
 																							expr: &choiceExpr{
-																								pos: position{line: 2887, col: 13, offset: 91418},
+																								pos: position{line: 2889, col: 13, offset: 91489},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2887, col: 13, offset: 91418},
+																										pos:        position{line: 2889, col: 13, offset: 91489},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2887, col: 20, offset: 91425},
+																										pos:        position{line: 2889, col: 20, offset: 91496},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2887, col: 29, offset: 91434},
+																										pos:        position{line: 2889, col: 29, offset: 91505},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -37253,9 +37253,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2897, col: 8, offset: 91594},
+																							pos: position{line: 2899, col: 8, offset: 91665},
 																							expr: &anyMatcher{
-																								line: 2897, col: 9, offset: 91595,
+																								line: 2899, col: 9, offset: 91666,
 																							},
 																						},
 																					},
@@ -37278,10 +37278,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 1548, col: 31, offset: 50257},
 																				expr: &actionExpr{
-																					pos: position{line: 2878, col: 10, offset: 91246},
+																					pos: position{line: 2880, col: 10, offset: 91317},
 																					run: (*parser).callonListContinuationElement1629,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2878, col: 10, offset: 91246},
+																						pos:        position{line: 2880, col: 10, offset: 91317},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -37290,25 +37290,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2887, col: 12, offset: 91417},
+																				pos: position{line: 2889, col: 12, offset: 91488},
 																				run: (*parser).callonListContinuationElement1631,
 																				expr: &choiceExpr{
-																					pos: position{line: 2887, col: 13, offset: 91418},
+																					pos: position{line: 2889, col: 13, offset: 91489},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 13, offset: 91418},
+																							pos:        position{line: 2889, col: 13, offset: 91489},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 20, offset: 91425},
+																							pos:        position{line: 2889, col: 20, offset: 91496},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 29, offset: 91434},
+																							pos:        position{line: 2889, col: 29, offset: 91505},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -37330,10 +37330,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1589, col: 5, offset: 51472},
 																					expr: &actionExpr{
-																						pos: position{line: 2878, col: 10, offset: 91246},
+																						pos: position{line: 2880, col: 10, offset: 91317},
 																						run: (*parser).callonListContinuationElement1640,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2878, col: 10, offset: 91246},
+																							pos:        position{line: 2880, col: 10, offset: 91317},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37500,12 +37500,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2882, col: 11, offset: 91307},
+																					pos: position{line: 2884, col: 11, offset: 91378},
 																					run: (*parser).callonListContinuationElement1674,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2882, col: 11, offset: 91307},
+																						pos: position{line: 2884, col: 11, offset: 91378},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2882, col: 11, offset: 91307},
+																							pos:        position{line: 2884, col: 11, offset: 91378},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37528,10 +37528,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1639, col: 5, offset: 53434},
 																					expr: &actionExpr{
-																						pos: position{line: 2878, col: 10, offset: 91246},
+																						pos: position{line: 2880, col: 10, offset: 91317},
 																						run: (*parser).callonListContinuationElement1681,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2878, col: 10, offset: 91246},
+																							pos:        position{line: 2880, col: 10, offset: 91317},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37572,12 +37572,12 @@ var g = &grammar{
 																					run: (*parser).callonListContinuationElement1689,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2882, col: 11, offset: 91307},
+																					pos: position{line: 2884, col: 11, offset: 91378},
 																					run: (*parser).callonListContinuationElement1690,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2882, col: 11, offset: 91307},
+																						pos: position{line: 2884, col: 11, offset: 91378},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2882, col: 11, offset: 91307},
+																							pos:        position{line: 2884, col: 11, offset: 91378},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37628,12 +37628,12 @@ var g = &grammar{
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2882, col: 11, offset: 91307},
+																					pos: position{line: 2884, col: 11, offset: 91378},
 																					run: (*parser).callonListContinuationElement1702,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2882, col: 11, offset: 91307},
+																						pos: position{line: 2884, col: 11, offset: 91378},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2882, col: 11, offset: 91307},
+																							pos:        position{line: 2884, col: 11, offset: 91378},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37659,18 +37659,18 @@ var g = &grammar{
 																						&notExpr{
 																							pos: position{line: 1674, col: 5, offset: 54453},
 																							expr: &seqExpr{
-																								pos: position{line: 2490, col: 31, offset: 80353},
+																								pos: position{line: 2492, col: 31, offset: 80424},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2490, col: 31, offset: 80353},
+																										pos:        position{line: 2492, col: 31, offset: 80424},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2490, col: 36, offset: 80358},
+																										pos: position{line: 2492, col: 36, offset: 80429},
 																										expr: &litMatcher{
-																											pos:        position{line: 2490, col: 37, offset: 80359},
+																											pos:        position{line: 2492, col: 37, offset: 80430},
 																											val:        "//",
 																											ignoreCase: false,
 																											want:       "\"//\"",
@@ -37720,28 +37720,28 @@ var g = &grammar{
 																									&notExpr{
 																										pos: position{line: 1675, col: 35, offset: 54515},
 																										expr: &choiceExpr{
-																											pos: position{line: 2900, col: 8, offset: 91644},
+																											pos: position{line: 2902, col: 8, offset: 91715},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2887, col: 12, offset: 91417},
+																													pos: position{line: 2889, col: 12, offset: 91488},
 																													run: (*parser).callonListContinuationElement1726,
 																													expr: &choiceExpr{
-																														pos: position{line: 2887, col: 13, offset: 91418},
+																														pos: position{line: 2889, col: 13, offset: 91489},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 13, offset: 91418},
+																																pos:        position{line: 2889, col: 13, offset: 91489},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 20, offset: 91425},
+																																pos:        position{line: 2889, col: 20, offset: 91496},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 29, offset: 91434},
+																																pos:        position{line: 2889, col: 29, offset: 91505},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37750,9 +37750,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2897, col: 8, offset: 91594},
+																													pos: position{line: 2899, col: 8, offset: 91665},
 																													expr: &anyMatcher{
-																														line: 2897, col: 9, offset: 91595,
+																														line: 2899, col: 9, offset: 91666,
 																													},
 																												},
 																											},
@@ -37811,7 +37811,7 @@ var g = &grammar{
 																				&notExpr{
 																					pos: position{line: 725, col: 5, offset: 23101},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2768, col: 13, offset: 88320},
+																						pos:        position{line: 2770, col: 13, offset: 88391},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -37861,10 +37861,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 743, col: 8, offset: 23745},
 																											expr: &actionExpr{
-																												pos: position{line: 2878, col: 10, offset: 91246},
+																												pos: position{line: 2880, col: 10, offset: 91317},
 																												run: (*parser).callonListContinuationElement1757,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2878, col: 10, offset: 91246},
+																													pos:        position{line: 2880, col: 10, offset: 91317},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37873,28 +37873,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2900, col: 8, offset: 91644},
+																											pos: position{line: 2902, col: 8, offset: 91715},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2887, col: 12, offset: 91417},
+																													pos: position{line: 2889, col: 12, offset: 91488},
 																													run: (*parser).callonListContinuationElement1760,
 																													expr: &choiceExpr{
-																														pos: position{line: 2887, col: 13, offset: 91418},
+																														pos: position{line: 2889, col: 13, offset: 91489},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 13, offset: 91418},
+																																pos:        position{line: 2889, col: 13, offset: 91489},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 20, offset: 91425},
+																																pos:        position{line: 2889, col: 20, offset: 91496},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 29, offset: 91434},
+																																pos:        position{line: 2889, col: 29, offset: 91505},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37903,9 +37903,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2897, col: 8, offset: 91594},
+																													pos: position{line: 2899, col: 8, offset: 91665},
 																													expr: &anyMatcher{
-																														line: 2897, col: 9, offset: 91595,
+																														line: 2899, col: 9, offset: 91666,
 																													},
 																												},
 																											},
@@ -37950,10 +37950,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 750, col: 8, offset: 23993},
 																											expr: &actionExpr{
-																												pos: position{line: 2878, col: 10, offset: 91246},
+																												pos: position{line: 2880, col: 10, offset: 91317},
 																												run: (*parser).callonListContinuationElement1776,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2878, col: 10, offset: 91246},
+																													pos:        position{line: 2880, col: 10, offset: 91317},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37962,28 +37962,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2900, col: 8, offset: 91644},
+																											pos: position{line: 2902, col: 8, offset: 91715},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2887, col: 12, offset: 91417},
+																													pos: position{line: 2889, col: 12, offset: 91488},
 																													run: (*parser).callonListContinuationElement1779,
 																													expr: &choiceExpr{
-																														pos: position{line: 2887, col: 13, offset: 91418},
+																														pos: position{line: 2889, col: 13, offset: 91489},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 13, offset: 91418},
+																																pos:        position{line: 2889, col: 13, offset: 91489},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 20, offset: 91425},
+																																pos:        position{line: 2889, col: 20, offset: 91496},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 29, offset: 91434},
+																																pos:        position{line: 2889, col: 29, offset: 91505},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37992,9 +37992,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2897, col: 8, offset: 91594},
+																													pos: position{line: 2899, col: 8, offset: 91665},
 																													expr: &anyMatcher{
-																														line: 2897, col: 9, offset: 91595,
+																														line: 2899, col: 9, offset: 91666,
 																													},
 																												},
 																											},
@@ -38035,10 +38035,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 761, col: 52, offset: 24405},
 																											expr: &actionExpr{
-																												pos: position{line: 2878, col: 10, offset: 91246},
+																												pos: position{line: 2880, col: 10, offset: 91317},
 																												run: (*parser).callonListContinuationElement1794,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2878, col: 10, offset: 91246},
+																													pos:        position{line: 2880, col: 10, offset: 91317},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38047,28 +38047,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2900, col: 8, offset: 91644},
+																											pos: position{line: 2902, col: 8, offset: 91715},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2887, col: 12, offset: 91417},
+																													pos: position{line: 2889, col: 12, offset: 91488},
 																													run: (*parser).callonListContinuationElement1797,
 																													expr: &choiceExpr{
-																														pos: position{line: 2887, col: 13, offset: 91418},
+																														pos: position{line: 2889, col: 13, offset: 91489},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 13, offset: 91418},
+																																pos:        position{line: 2889, col: 13, offset: 91489},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 20, offset: 91425},
+																																pos:        position{line: 2889, col: 20, offset: 91496},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 29, offset: 91434},
+																																pos:        position{line: 2889, col: 29, offset: 91505},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38077,9 +38077,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2897, col: 8, offset: 91594},
+																													pos: position{line: 2899, col: 8, offset: 91665},
 																													expr: &anyMatcher{
-																														line: 2897, col: 9, offset: 91595,
+																														line: 2899, col: 9, offset: 91666,
 																													},
 																												},
 																											},
@@ -38124,10 +38124,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 757, col: 8, offset: 24239},
 																											expr: &actionExpr{
-																												pos: position{line: 2878, col: 10, offset: 91246},
+																												pos: position{line: 2880, col: 10, offset: 91317},
 																												run: (*parser).callonListContinuationElement1813,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2878, col: 10, offset: 91246},
+																													pos:        position{line: 2880, col: 10, offset: 91317},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38136,28 +38136,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2900, col: 8, offset: 91644},
+																											pos: position{line: 2902, col: 8, offset: 91715},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2887, col: 12, offset: 91417},
+																													pos: position{line: 2889, col: 12, offset: 91488},
 																													run: (*parser).callonListContinuationElement1816,
 																													expr: &choiceExpr{
-																														pos: position{line: 2887, col: 13, offset: 91418},
+																														pos: position{line: 2889, col: 13, offset: 91489},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 13, offset: 91418},
+																																pos:        position{line: 2889, col: 13, offset: 91489},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 20, offset: 91425},
+																																pos:        position{line: 2889, col: 20, offset: 91496},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 29, offset: 91434},
+																																pos:        position{line: 2889, col: 29, offset: 91505},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38166,9 +38166,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2897, col: 8, offset: 91594},
+																													pos: position{line: 2899, col: 8, offset: 91665},
 																													expr: &anyMatcher{
-																														line: 2897, col: 9, offset: 91595,
+																														line: 2899, col: 9, offset: 91666,
 																													},
 																												},
 																											},
@@ -38213,10 +38213,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 772, col: 8, offset: 24782},
 																											expr: &actionExpr{
-																												pos: position{line: 2878, col: 10, offset: 91246},
+																												pos: position{line: 2880, col: 10, offset: 91317},
 																												run: (*parser).callonListContinuationElement1832,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2878, col: 10, offset: 91246},
+																													pos:        position{line: 2880, col: 10, offset: 91317},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38225,28 +38225,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2900, col: 8, offset: 91644},
+																											pos: position{line: 2902, col: 8, offset: 91715},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2887, col: 12, offset: 91417},
+																													pos: position{line: 2889, col: 12, offset: 91488},
 																													run: (*parser).callonListContinuationElement1835,
 																													expr: &choiceExpr{
-																														pos: position{line: 2887, col: 13, offset: 91418},
+																														pos: position{line: 2889, col: 13, offset: 91489},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 13, offset: 91418},
+																																pos:        position{line: 2889, col: 13, offset: 91489},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 20, offset: 91425},
+																																pos:        position{line: 2889, col: 20, offset: 91496},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 29, offset: 91434},
+																																pos:        position{line: 2889, col: 29, offset: 91505},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38255,9 +38255,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2897, col: 8, offset: 91594},
+																													pos: position{line: 2899, col: 8, offset: 91665},
 																													expr: &anyMatcher{
-																														line: 2897, col: 9, offset: 91595,
+																														line: 2899, col: 9, offset: 91666,
 																													},
 																												},
 																											},
@@ -38302,10 +38302,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 786, col: 8, offset: 25258},
 																											expr: &actionExpr{
-																												pos: position{line: 2878, col: 10, offset: 91246},
+																												pos: position{line: 2880, col: 10, offset: 91317},
 																												run: (*parser).callonListContinuationElement1851,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2878, col: 10, offset: 91246},
+																													pos:        position{line: 2880, col: 10, offset: 91317},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38314,28 +38314,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2900, col: 8, offset: 91644},
+																											pos: position{line: 2902, col: 8, offset: 91715},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2887, col: 12, offset: 91417},
+																													pos: position{line: 2889, col: 12, offset: 91488},
 																													run: (*parser).callonListContinuationElement1854,
 																													expr: &choiceExpr{
-																														pos: position{line: 2887, col: 13, offset: 91418},
+																														pos: position{line: 2889, col: 13, offset: 91489},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 13, offset: 91418},
+																																pos:        position{line: 2889, col: 13, offset: 91489},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 20, offset: 91425},
+																																pos:        position{line: 2889, col: 20, offset: 91496},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 29, offset: 91434},
+																																pos:        position{line: 2889, col: 29, offset: 91505},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38344,9 +38344,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2897, col: 8, offset: 91594},
+																													pos: position{line: 2899, col: 8, offset: 91665},
 																													expr: &anyMatcher{
-																														line: 2897, col: 9, offset: 91595,
+																														line: 2899, col: 9, offset: 91666,
 																													},
 																												},
 																											},
@@ -38391,10 +38391,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 793, col: 8, offset: 25510},
 																											expr: &actionExpr{
-																												pos: position{line: 2878, col: 10, offset: 91246},
+																												pos: position{line: 2880, col: 10, offset: 91317},
 																												run: (*parser).callonListContinuationElement1870,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2878, col: 10, offset: 91246},
+																													pos:        position{line: 2880, col: 10, offset: 91317},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38403,28 +38403,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2900, col: 8, offset: 91644},
+																											pos: position{line: 2902, col: 8, offset: 91715},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2887, col: 12, offset: 91417},
+																													pos: position{line: 2889, col: 12, offset: 91488},
 																													run: (*parser).callonListContinuationElement1873,
 																													expr: &choiceExpr{
-																														pos: position{line: 2887, col: 13, offset: 91418},
+																														pos: position{line: 2889, col: 13, offset: 91489},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 13, offset: 91418},
+																																pos:        position{line: 2889, col: 13, offset: 91489},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 20, offset: 91425},
+																																pos:        position{line: 2889, col: 20, offset: 91496},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 29, offset: 91434},
+																																pos:        position{line: 2889, col: 29, offset: 91505},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38433,9 +38433,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2897, col: 8, offset: 91594},
+																													pos: position{line: 2899, col: 8, offset: 91665},
 																													expr: &anyMatcher{
-																														line: 2897, col: 9, offset: 91595,
+																														line: 2899, col: 9, offset: 91666,
 																													},
 																												},
 																											},
@@ -38480,10 +38480,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 800, col: 8, offset: 25760},
 																											expr: &actionExpr{
-																												pos: position{line: 2878, col: 10, offset: 91246},
+																												pos: position{line: 2880, col: 10, offset: 91317},
 																												run: (*parser).callonListContinuationElement1889,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2878, col: 10, offset: 91246},
+																													pos:        position{line: 2880, col: 10, offset: 91317},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38492,28 +38492,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2900, col: 8, offset: 91644},
+																											pos: position{line: 2902, col: 8, offset: 91715},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2887, col: 12, offset: 91417},
+																													pos: position{line: 2889, col: 12, offset: 91488},
 																													run: (*parser).callonListContinuationElement1892,
 																													expr: &choiceExpr{
-																														pos: position{line: 2887, col: 13, offset: 91418},
+																														pos: position{line: 2889, col: 13, offset: 91489},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 13, offset: 91418},
+																																pos:        position{line: 2889, col: 13, offset: 91489},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 20, offset: 91425},
+																																pos:        position{line: 2889, col: 20, offset: 91496},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 29, offset: 91434},
+																																pos:        position{line: 2889, col: 29, offset: 91505},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38522,9 +38522,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2897, col: 8, offset: 91594},
+																													pos: position{line: 2899, col: 8, offset: 91665},
 																													expr: &anyMatcher{
-																														line: 2897, col: 9, offset: 91595,
+																														line: 2899, col: 9, offset: 91666,
 																													},
 																												},
 																											},
@@ -38569,10 +38569,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 807, col: 8, offset: 26006},
 																											expr: &actionExpr{
-																												pos: position{line: 2878, col: 10, offset: 91246},
+																												pos: position{line: 2880, col: 10, offset: 91317},
 																												run: (*parser).callonListContinuationElement1908,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2878, col: 10, offset: 91246},
+																													pos:        position{line: 2880, col: 10, offset: 91317},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38581,28 +38581,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2900, col: 8, offset: 91644},
+																											pos: position{line: 2902, col: 8, offset: 91715},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2887, col: 12, offset: 91417},
+																													pos: position{line: 2889, col: 12, offset: 91488},
 																													run: (*parser).callonListContinuationElement1911,
 																													expr: &choiceExpr{
-																														pos: position{line: 2887, col: 13, offset: 91418},
+																														pos: position{line: 2889, col: 13, offset: 91489},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 13, offset: 91418},
+																																pos:        position{line: 2889, col: 13, offset: 91489},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 20, offset: 91425},
+																																pos:        position{line: 2889, col: 20, offset: 91496},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2887, col: 29, offset: 91434},
+																																pos:        position{line: 2889, col: 29, offset: 91505},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38611,9 +38611,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2897, col: 8, offset: 91594},
+																													pos: position{line: 2899, col: 8, offset: 91665},
 																													expr: &anyMatcher{
-																														line: 2897, col: 9, offset: 91595,
+																														line: 2899, col: 9, offset: 91666,
 																													},
 																												},
 																											},
@@ -38632,12 +38632,12 @@ var g = &grammar{
 																	pos:   position{line: 1524, col: 5, offset: 49625},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2828, col: 14, offset: 89839},
+																		pos: position{line: 2830, col: 14, offset: 89910},
 																		run: (*parser).callonListContinuationElement1919,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2828, col: 14, offset: 89839},
+																			pos: position{line: 2830, col: 14, offset: 89910},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2828, col: 14, offset: 89839},
+																				pos:        position{line: 2830, col: 14, offset: 89910},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -38647,28 +38647,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2900, col: 8, offset: 91644},
+																	pos: position{line: 2902, col: 8, offset: 91715},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2887, col: 12, offset: 91417},
+																			pos: position{line: 2889, col: 12, offset: 91488},
 																			run: (*parser).callonListContinuationElement1923,
 																			expr: &choiceExpr{
-																				pos: position{line: 2887, col: 13, offset: 91418},
+																				pos: position{line: 2889, col: 13, offset: 91489},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 13, offset: 91418},
+																						pos:        position{line: 2889, col: 13, offset: 91489},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 20, offset: 91425},
+																						pos:        position{line: 2889, col: 20, offset: 91496},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 29, offset: 91434},
+																						pos:        position{line: 2889, col: 29, offset: 91505},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -38677,9 +38677,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2897, col: 8, offset: 91594},
+																			pos: position{line: 2899, col: 8, offset: 91665},
 																			expr: &anyMatcher{
-																				line: 2897, col: 9, offset: 91595,
+																				line: 2899, col: 9, offset: 91666,
 																			},
 																		},
 																	},
@@ -38744,10 +38744,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1718, col: 66, offset: 55703},
 							expr: &actionExpr{
-								pos: position{line: 2878, col: 10, offset: 91246},
+								pos: position{line: 2880, col: 10, offset: 91317},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2878, col: 10, offset: 91246},
+									pos:        position{line: 2880, col: 10, offset: 91317},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -38761,25 +38761,25 @@ var g = &grammar{
 								pos: position{line: 1718, col: 75, offset: 55712},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2887, col: 12, offset: 91417},
+										pos: position{line: 2889, col: 12, offset: 91488},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2887, col: 13, offset: 91418},
+											pos: position{line: 2889, col: 13, offset: 91489},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2887, col: 13, offset: 91418},
+													pos:        position{line: 2889, col: 13, offset: 91489},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2887, col: 20, offset: 91425},
+													pos:        position{line: 2889, col: 20, offset: 91496},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2887, col: 29, offset: 91434},
+													pos:        position{line: 2889, col: 29, offset: 91505},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -38788,9 +38788,9 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2897, col: 8, offset: 91594},
+										pos: position{line: 2899, col: 8, offset: 91665},
 										expr: &anyMatcher{
-											line: 2897, col: 9, offset: 91595,
+											line: 2899, col: 9, offset: 91666,
 										},
 									},
 									&ruleRefExpr{
@@ -38819,7 +38819,7 @@ var g = &grammar{
 								pos: position{line: 1759, col: 7, offset: 56971},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2768, col: 13, offset: 88320},
+										pos:        position{line: 2770, col: 13, offset: 88391},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
@@ -38838,12 +38838,12 @@ var g = &grammar{
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2882, col: 11, offset: 91307},
+													pos: position{line: 2884, col: 11, offset: 91378},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2882, col: 11, offset: 91307},
+														pos: position{line: 2884, col: 11, offset: 91378},
 														expr: &charClassMatcher{
-															pos:        position{line: 2882, col: 11, offset: 91307},
+															pos:        position{line: 2884, col: 11, offset: 91378},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -38934,12 +38934,12 @@ var g = &grammar{
 															expr: &andExpr{
 																pos: position{line: 1751, col: 13, offset: 56768},
 																expr: &actionExpr{
-																	pos: position{line: 2882, col: 11, offset: 91307},
+																	pos: position{line: 2884, col: 11, offset: 91378},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2882, col: 11, offset: 91307},
+																		pos: position{line: 2884, col: 11, offset: 91378},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2882, col: 11, offset: 91307},
+																			pos:        position{line: 2884, col: 11, offset: 91378},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -38960,10 +38960,10 @@ var g = &grammar{
 														&zeroOrMoreExpr{
 															pos: position{line: 1753, col: 14, offset: 56840},
 															expr: &actionExpr{
-																pos: position{line: 2878, col: 10, offset: 91246},
+																pos: position{line: 2880, col: 10, offset: 91317},
 																run: (*parser).callonShortcutParagraph37,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2878, col: 10, offset: 91246},
+																	pos:        position{line: 2880, col: 10, offset: 91317},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -38972,28 +38972,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2900, col: 8, offset: 91644},
+															pos: position{line: 2902, col: 8, offset: 91715},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2887, col: 12, offset: 91417},
+																	pos: position{line: 2889, col: 12, offset: 91488},
 																	run: (*parser).callonShortcutParagraph40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2887, col: 13, offset: 91418},
+																		pos: position{line: 2889, col: 13, offset: 91489},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2887, col: 13, offset: 91418},
+																				pos:        position{line: 2889, col: 13, offset: 91489},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2887, col: 20, offset: 91425},
+																				pos:        position{line: 2889, col: 20, offset: 91496},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2887, col: 29, offset: 91434},
+																				pos:        position{line: 2889, col: 29, offset: 91505},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -39002,9 +39002,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2897, col: 8, offset: 91594},
+																	pos: position{line: 2899, col: 8, offset: 91665},
 																	expr: &anyMatcher{
-																		line: 2897, col: 9, offset: 91595,
+																		line: 2899, col: 9, offset: 91666,
 																	},
 																},
 															},
@@ -39030,12 +39030,12 @@ var g = &grammar{
 											pos:   position{line: 1797, col: 5, offset: 58258},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2828, col: 14, offset: 89839},
+												pos: position{line: 2830, col: 14, offset: 89910},
 												run: (*parser).callonShortcutParagraph51,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2828, col: 14, offset: 89839},
+													pos: position{line: 2830, col: 14, offset: 89910},
 													expr: &charClassMatcher{
-														pos:        position{line: 2828, col: 14, offset: 89839},
+														pos:        position{line: 2830, col: 14, offset: 89910},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -39049,28 +39049,28 @@ var g = &grammar{
 											run: (*parser).callonShortcutParagraph54,
 										},
 										&choiceExpr{
-											pos: position{line: 2900, col: 8, offset: 91644},
+											pos: position{line: 2902, col: 8, offset: 91715},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2887, col: 12, offset: 91417},
+													pos: position{line: 2889, col: 12, offset: 91488},
 													run: (*parser).callonShortcutParagraph56,
 													expr: &choiceExpr{
-														pos: position{line: 2887, col: 13, offset: 91418},
+														pos: position{line: 2889, col: 13, offset: 91489},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2887, col: 13, offset: 91418},
+																pos:        position{line: 2889, col: 13, offset: 91489},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2887, col: 20, offset: 91425},
+																pos:        position{line: 2889, col: 20, offset: 91496},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2887, col: 29, offset: 91434},
+																pos:        position{line: 2889, col: 29, offset: 91505},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -39079,9 +39079,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2897, col: 8, offset: 91594},
+													pos: position{line: 2899, col: 8, offset: 91665},
 													expr: &anyMatcher{
-														line: 2897, col: 9, offset: 91595,
+														line: 2899, col: 9, offset: 91666,
 													},
 												},
 											},
@@ -39106,9 +39106,9 @@ var g = &grammar{
 										pos: position{line: 1770, col: 9, offset: 57536},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2895, col: 11, offset: 91580},
+												pos: position{line: 2897, col: 11, offset: 91651},
 												expr: &anyMatcher{
-													line: 2895, col: 13, offset: 91582,
+													line: 2897, col: 13, offset: 91653,
 												},
 											},
 											&notExpr{
@@ -39120,18 +39120,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21525},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2895, col: 11, offset: 91580},
+																pos: position{line: 2897, col: 11, offset: 91651},
 																expr: &anyMatcher{
-																	line: 2895, col: 13, offset: 91582,
+																	line: 2897, col: 13, offset: 91653,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21532},
 																expr: &actionExpr{
-																	pos: position{line: 2878, col: 10, offset: 91246},
+																	pos: position{line: 2880, col: 10, offset: 91317},
 																	run: (*parser).callonShortcutParagraph76,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2878, col: 10, offset: 91246},
+																		pos:        position{line: 2880, col: 10, offset: 91317},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -39140,28 +39140,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2900, col: 8, offset: 91644},
+																pos: position{line: 2902, col: 8, offset: 91715},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2887, col: 12, offset: 91417},
+																		pos: position{line: 2889, col: 12, offset: 91488},
 																		run: (*parser).callonShortcutParagraph79,
 																		expr: &choiceExpr{
-																			pos: position{line: 2887, col: 13, offset: 91418},
+																			pos: position{line: 2889, col: 13, offset: 91489},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2887, col: 13, offset: 91418},
+																					pos:        position{line: 2889, col: 13, offset: 91489},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2887, col: 20, offset: 91425},
+																					pos:        position{line: 2889, col: 20, offset: 91496},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2887, col: 29, offset: 91434},
+																					pos:        position{line: 2889, col: 29, offset: 91505},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -39170,9 +39170,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2897, col: 8, offset: 91594},
+																		pos: position{line: 2899, col: 8, offset: 91665},
 																		expr: &anyMatcher{
-																			line: 2897, col: 9, offset: 91595,
+																			line: 2899, col: 9, offset: 91666,
 																		},
 																	},
 																},
@@ -39199,7 +39199,7 @@ var g = &grammar{
 															&notExpr{
 																pos: position{line: 725, col: 5, offset: 23101},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2768, col: 13, offset: 88320},
+																	pos:        position{line: 2770, col: 13, offset: 88391},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -39249,10 +39249,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 743, col: 8, offset: 23745},
 																						expr: &actionExpr{
-																							pos: position{line: 2878, col: 10, offset: 91246},
+																							pos: position{line: 2880, col: 10, offset: 91317},
 																							run: (*parser).callonShortcutParagraph104,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2878, col: 10, offset: 91246},
+																								pos:        position{line: 2880, col: 10, offset: 91317},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39261,28 +39261,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2900, col: 8, offset: 91644},
+																						pos: position{line: 2902, col: 8, offset: 91715},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2887, col: 12, offset: 91417},
+																								pos: position{line: 2889, col: 12, offset: 91488},
 																								run: (*parser).callonShortcutParagraph107,
 																								expr: &choiceExpr{
-																									pos: position{line: 2887, col: 13, offset: 91418},
+																									pos: position{line: 2889, col: 13, offset: 91489},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 13, offset: 91418},
+																											pos:        position{line: 2889, col: 13, offset: 91489},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 20, offset: 91425},
+																											pos:        position{line: 2889, col: 20, offset: 91496},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 29, offset: 91434},
+																											pos:        position{line: 2889, col: 29, offset: 91505},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39291,9 +39291,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2897, col: 8, offset: 91594},
+																								pos: position{line: 2899, col: 8, offset: 91665},
 																								expr: &anyMatcher{
-																									line: 2897, col: 9, offset: 91595,
+																									line: 2899, col: 9, offset: 91666,
 																								},
 																							},
 																						},
@@ -39338,10 +39338,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 750, col: 8, offset: 23993},
 																						expr: &actionExpr{
-																							pos: position{line: 2878, col: 10, offset: 91246},
+																							pos: position{line: 2880, col: 10, offset: 91317},
 																							run: (*parser).callonShortcutParagraph123,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2878, col: 10, offset: 91246},
+																								pos:        position{line: 2880, col: 10, offset: 91317},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39350,28 +39350,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2900, col: 8, offset: 91644},
+																						pos: position{line: 2902, col: 8, offset: 91715},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2887, col: 12, offset: 91417},
+																								pos: position{line: 2889, col: 12, offset: 91488},
 																								run: (*parser).callonShortcutParagraph126,
 																								expr: &choiceExpr{
-																									pos: position{line: 2887, col: 13, offset: 91418},
+																									pos: position{line: 2889, col: 13, offset: 91489},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 13, offset: 91418},
+																											pos:        position{line: 2889, col: 13, offset: 91489},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 20, offset: 91425},
+																											pos:        position{line: 2889, col: 20, offset: 91496},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 29, offset: 91434},
+																											pos:        position{line: 2889, col: 29, offset: 91505},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39380,9 +39380,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2897, col: 8, offset: 91594},
+																								pos: position{line: 2899, col: 8, offset: 91665},
 																								expr: &anyMatcher{
-																									line: 2897, col: 9, offset: 91595,
+																									line: 2899, col: 9, offset: 91666,
 																								},
 																							},
 																						},
@@ -39423,10 +39423,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 761, col: 52, offset: 24405},
 																						expr: &actionExpr{
-																							pos: position{line: 2878, col: 10, offset: 91246},
+																							pos: position{line: 2880, col: 10, offset: 91317},
 																							run: (*parser).callonShortcutParagraph141,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2878, col: 10, offset: 91246},
+																								pos:        position{line: 2880, col: 10, offset: 91317},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39435,28 +39435,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2900, col: 8, offset: 91644},
+																						pos: position{line: 2902, col: 8, offset: 91715},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2887, col: 12, offset: 91417},
+																								pos: position{line: 2889, col: 12, offset: 91488},
 																								run: (*parser).callonShortcutParagraph144,
 																								expr: &choiceExpr{
-																									pos: position{line: 2887, col: 13, offset: 91418},
+																									pos: position{line: 2889, col: 13, offset: 91489},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 13, offset: 91418},
+																											pos:        position{line: 2889, col: 13, offset: 91489},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 20, offset: 91425},
+																											pos:        position{line: 2889, col: 20, offset: 91496},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 29, offset: 91434},
+																											pos:        position{line: 2889, col: 29, offset: 91505},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39465,9 +39465,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2897, col: 8, offset: 91594},
+																								pos: position{line: 2899, col: 8, offset: 91665},
 																								expr: &anyMatcher{
-																									line: 2897, col: 9, offset: 91595,
+																									line: 2899, col: 9, offset: 91666,
 																								},
 																							},
 																						},
@@ -39512,10 +39512,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 757, col: 8, offset: 24239},
 																						expr: &actionExpr{
-																							pos: position{line: 2878, col: 10, offset: 91246},
+																							pos: position{line: 2880, col: 10, offset: 91317},
 																							run: (*parser).callonShortcutParagraph160,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2878, col: 10, offset: 91246},
+																								pos:        position{line: 2880, col: 10, offset: 91317},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39524,28 +39524,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2900, col: 8, offset: 91644},
+																						pos: position{line: 2902, col: 8, offset: 91715},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2887, col: 12, offset: 91417},
+																								pos: position{line: 2889, col: 12, offset: 91488},
 																								run: (*parser).callonShortcutParagraph163,
 																								expr: &choiceExpr{
-																									pos: position{line: 2887, col: 13, offset: 91418},
+																									pos: position{line: 2889, col: 13, offset: 91489},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 13, offset: 91418},
+																											pos:        position{line: 2889, col: 13, offset: 91489},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 20, offset: 91425},
+																											pos:        position{line: 2889, col: 20, offset: 91496},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 29, offset: 91434},
+																											pos:        position{line: 2889, col: 29, offset: 91505},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39554,9 +39554,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2897, col: 8, offset: 91594},
+																								pos: position{line: 2899, col: 8, offset: 91665},
 																								expr: &anyMatcher{
-																									line: 2897, col: 9, offset: 91595,
+																									line: 2899, col: 9, offset: 91666,
 																								},
 																							},
 																						},
@@ -39601,10 +39601,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 772, col: 8, offset: 24782},
 																						expr: &actionExpr{
-																							pos: position{line: 2878, col: 10, offset: 91246},
+																							pos: position{line: 2880, col: 10, offset: 91317},
 																							run: (*parser).callonShortcutParagraph179,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2878, col: 10, offset: 91246},
+																								pos:        position{line: 2880, col: 10, offset: 91317},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39613,28 +39613,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2900, col: 8, offset: 91644},
+																						pos: position{line: 2902, col: 8, offset: 91715},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2887, col: 12, offset: 91417},
+																								pos: position{line: 2889, col: 12, offset: 91488},
 																								run: (*parser).callonShortcutParagraph182,
 																								expr: &choiceExpr{
-																									pos: position{line: 2887, col: 13, offset: 91418},
+																									pos: position{line: 2889, col: 13, offset: 91489},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 13, offset: 91418},
+																											pos:        position{line: 2889, col: 13, offset: 91489},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 20, offset: 91425},
+																											pos:        position{line: 2889, col: 20, offset: 91496},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 29, offset: 91434},
+																											pos:        position{line: 2889, col: 29, offset: 91505},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39643,9 +39643,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2897, col: 8, offset: 91594},
+																								pos: position{line: 2899, col: 8, offset: 91665},
 																								expr: &anyMatcher{
-																									line: 2897, col: 9, offset: 91595,
+																									line: 2899, col: 9, offset: 91666,
 																								},
 																							},
 																						},
@@ -39690,10 +39690,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 786, col: 8, offset: 25258},
 																						expr: &actionExpr{
-																							pos: position{line: 2878, col: 10, offset: 91246},
+																							pos: position{line: 2880, col: 10, offset: 91317},
 																							run: (*parser).callonShortcutParagraph198,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2878, col: 10, offset: 91246},
+																								pos:        position{line: 2880, col: 10, offset: 91317},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39702,28 +39702,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2900, col: 8, offset: 91644},
+																						pos: position{line: 2902, col: 8, offset: 91715},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2887, col: 12, offset: 91417},
+																								pos: position{line: 2889, col: 12, offset: 91488},
 																								run: (*parser).callonShortcutParagraph201,
 																								expr: &choiceExpr{
-																									pos: position{line: 2887, col: 13, offset: 91418},
+																									pos: position{line: 2889, col: 13, offset: 91489},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 13, offset: 91418},
+																											pos:        position{line: 2889, col: 13, offset: 91489},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 20, offset: 91425},
+																											pos:        position{line: 2889, col: 20, offset: 91496},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 29, offset: 91434},
+																											pos:        position{line: 2889, col: 29, offset: 91505},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39732,9 +39732,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2897, col: 8, offset: 91594},
+																								pos: position{line: 2899, col: 8, offset: 91665},
 																								expr: &anyMatcher{
-																									line: 2897, col: 9, offset: 91595,
+																									line: 2899, col: 9, offset: 91666,
 																								},
 																							},
 																						},
@@ -39779,10 +39779,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 793, col: 8, offset: 25510},
 																						expr: &actionExpr{
-																							pos: position{line: 2878, col: 10, offset: 91246},
+																							pos: position{line: 2880, col: 10, offset: 91317},
 																							run: (*parser).callonShortcutParagraph217,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2878, col: 10, offset: 91246},
+																								pos:        position{line: 2880, col: 10, offset: 91317},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39791,28 +39791,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2900, col: 8, offset: 91644},
+																						pos: position{line: 2902, col: 8, offset: 91715},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2887, col: 12, offset: 91417},
+																								pos: position{line: 2889, col: 12, offset: 91488},
 																								run: (*parser).callonShortcutParagraph220,
 																								expr: &choiceExpr{
-																									pos: position{line: 2887, col: 13, offset: 91418},
+																									pos: position{line: 2889, col: 13, offset: 91489},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 13, offset: 91418},
+																											pos:        position{line: 2889, col: 13, offset: 91489},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 20, offset: 91425},
+																											pos:        position{line: 2889, col: 20, offset: 91496},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 29, offset: 91434},
+																											pos:        position{line: 2889, col: 29, offset: 91505},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39821,9 +39821,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2897, col: 8, offset: 91594},
+																								pos: position{line: 2899, col: 8, offset: 91665},
 																								expr: &anyMatcher{
-																									line: 2897, col: 9, offset: 91595,
+																									line: 2899, col: 9, offset: 91666,
 																								},
 																							},
 																						},
@@ -39868,10 +39868,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 800, col: 8, offset: 25760},
 																						expr: &actionExpr{
-																							pos: position{line: 2878, col: 10, offset: 91246},
+																							pos: position{line: 2880, col: 10, offset: 91317},
 																							run: (*parser).callonShortcutParagraph236,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2878, col: 10, offset: 91246},
+																								pos:        position{line: 2880, col: 10, offset: 91317},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39880,28 +39880,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2900, col: 8, offset: 91644},
+																						pos: position{line: 2902, col: 8, offset: 91715},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2887, col: 12, offset: 91417},
+																								pos: position{line: 2889, col: 12, offset: 91488},
 																								run: (*parser).callonShortcutParagraph239,
 																								expr: &choiceExpr{
-																									pos: position{line: 2887, col: 13, offset: 91418},
+																									pos: position{line: 2889, col: 13, offset: 91489},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 13, offset: 91418},
+																											pos:        position{line: 2889, col: 13, offset: 91489},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 20, offset: 91425},
+																											pos:        position{line: 2889, col: 20, offset: 91496},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 29, offset: 91434},
+																											pos:        position{line: 2889, col: 29, offset: 91505},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39910,9 +39910,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2897, col: 8, offset: 91594},
+																								pos: position{line: 2899, col: 8, offset: 91665},
 																								expr: &anyMatcher{
-																									line: 2897, col: 9, offset: 91595,
+																									line: 2899, col: 9, offset: 91666,
 																								},
 																							},
 																						},
@@ -39957,10 +39957,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 807, col: 8, offset: 26006},
 																						expr: &actionExpr{
-																							pos: position{line: 2878, col: 10, offset: 91246},
+																							pos: position{line: 2880, col: 10, offset: 91317},
 																							run: (*parser).callonShortcutParagraph255,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2878, col: 10, offset: 91246},
+																								pos:        position{line: 2880, col: 10, offset: 91317},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39969,28 +39969,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2900, col: 8, offset: 91644},
+																						pos: position{line: 2902, col: 8, offset: 91715},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2887, col: 12, offset: 91417},
+																								pos: position{line: 2889, col: 12, offset: 91488},
 																								run: (*parser).callonShortcutParagraph258,
 																								expr: &choiceExpr{
-																									pos: position{line: 2887, col: 13, offset: 91418},
+																									pos: position{line: 2889, col: 13, offset: 91489},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 13, offset: 91418},
+																											pos:        position{line: 2889, col: 13, offset: 91489},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 20, offset: 91425},
+																											pos:        position{line: 2889, col: 20, offset: 91496},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2887, col: 29, offset: 91434},
+																											pos:        position{line: 2889, col: 29, offset: 91505},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39999,9 +39999,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2897, col: 8, offset: 91594},
+																								pos: position{line: 2899, col: 8, offset: 91665},
 																								expr: &anyMatcher{
-																									line: 2897, col: 9, offset: 91595,
+																									line: 2899, col: 9, offset: 91666,
 																								},
 																							},
 																						},
@@ -40030,10 +40030,10 @@ var g = &grammar{
 														&zeroOrMoreExpr{
 															pos: position{line: 1548, col: 31, offset: 50257},
 															expr: &actionExpr{
-																pos: position{line: 2878, col: 10, offset: 91246},
+																pos: position{line: 2880, col: 10, offset: 91317},
 																run: (*parser).callonShortcutParagraph269,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2878, col: 10, offset: 91246},
+																	pos:        position{line: 2880, col: 10, offset: 91317},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -40042,25 +40042,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2887, col: 12, offset: 91417},
+															pos: position{line: 2889, col: 12, offset: 91488},
 															run: (*parser).callonShortcutParagraph271,
 															expr: &choiceExpr{
-																pos: position{line: 2887, col: 13, offset: 91418},
+																pos: position{line: 2889, col: 13, offset: 91489},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2887, col: 13, offset: 91418},
+																		pos:        position{line: 2889, col: 13, offset: 91489},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2887, col: 20, offset: 91425},
+																		pos:        position{line: 2889, col: 20, offset: 91496},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2887, col: 29, offset: 91434},
+																		pos:        position{line: 2889, col: 29, offset: 91505},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -40078,36 +40078,36 @@ var g = &grammar{
 													pos: position{line: 1775, col: 15, offset: 57658},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2485, col: 22, offset: 80132},
+															pos: position{line: 2487, col: 22, offset: 80203},
 															run: (*parser).callonShortcutParagraph278,
 															expr: &seqExpr{
-																pos: position{line: 2485, col: 22, offset: 80132},
+																pos: position{line: 2487, col: 22, offset: 80203},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2490, col: 31, offset: 80353},
+																		pos:        position{line: 2492, col: 31, offset: 80424},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2490, col: 36, offset: 80358},
+																		pos: position{line: 2492, col: 36, offset: 80429},
 																		expr: &litMatcher{
-																			pos:        position{line: 2490, col: 37, offset: 80359},
+																			pos:        position{line: 2492, col: 37, offset: 80430},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2485, col: 49, offset: 80159},
+																		pos:   position{line: 2487, col: 49, offset: 80230},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2824, col: 13, offset: 89772},
+																			pos: position{line: 2826, col: 13, offset: 89843},
 																			run: (*parser).callonShortcutParagraph284,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2824, col: 13, offset: 89772},
+																				pos: position{line: 2826, col: 13, offset: 89843},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2824, col: 13, offset: 89772},
+																					pos:        position{line: 2826, col: 13, offset: 89843},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40117,28 +40117,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2900, col: 8, offset: 91644},
+																		pos: position{line: 2902, col: 8, offset: 91715},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2887, col: 12, offset: 91417},
+																				pos: position{line: 2889, col: 12, offset: 91488},
 																				run: (*parser).callonShortcutParagraph288,
 																				expr: &choiceExpr{
-																					pos: position{line: 2887, col: 13, offset: 91418},
+																					pos: position{line: 2889, col: 13, offset: 91489},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 13, offset: 91418},
+																							pos:        position{line: 2889, col: 13, offset: 91489},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 20, offset: 91425},
+																							pos:        position{line: 2889, col: 20, offset: 91496},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 29, offset: 91434},
+																							pos:        position{line: 2889, col: 29, offset: 91505},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40147,9 +40147,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2897, col: 8, offset: 91594},
+																				pos: position{line: 2899, col: 8, offset: 91665},
 																				expr: &anyMatcher{
-																					line: 2897, col: 9, offset: 91595,
+																					line: 2899, col: 9, offset: 91666,
 																				},
 																			},
 																		},
@@ -40167,12 +40167,12 @@ var g = &grammar{
 																		pos:   position{line: 1797, col: 5, offset: 58258},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2828, col: 14, offset: 89839},
+																			pos: position{line: 2830, col: 14, offset: 89910},
 																			run: (*parser).callonShortcutParagraph298,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2828, col: 14, offset: 89839},
+																				pos: position{line: 2830, col: 14, offset: 89910},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2828, col: 14, offset: 89839},
+																					pos:        position{line: 2830, col: 14, offset: 89910},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40186,28 +40186,28 @@ var g = &grammar{
 																		run: (*parser).callonShortcutParagraph301,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2900, col: 8, offset: 91644},
+																		pos: position{line: 2902, col: 8, offset: 91715},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2887, col: 12, offset: 91417},
+																				pos: position{line: 2889, col: 12, offset: 91488},
 																				run: (*parser).callonShortcutParagraph303,
 																				expr: &choiceExpr{
-																					pos: position{line: 2887, col: 13, offset: 91418},
+																					pos: position{line: 2889, col: 13, offset: 91489},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 13, offset: 91418},
+																							pos:        position{line: 2889, col: 13, offset: 91489},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 20, offset: 91425},
+																							pos:        position{line: 2889, col: 20, offset: 91496},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 29, offset: 91434},
+																							pos:        position{line: 2889, col: 29, offset: 91505},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40216,9 +40216,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2897, col: 8, offset: 91594},
+																				pos: position{line: 2899, col: 8, offset: 91665},
 																				expr: &anyMatcher{
-																					line: 2897, col: 9, offset: 91595,
+																					line: 2899, col: 9, offset: 91666,
 																				},
 																			},
 																		},
@@ -40324,12 +40324,12 @@ var g = &grammar{
 															expr: &andExpr{
 																pos: position{line: 1751, col: 13, offset: 56768},
 																expr: &actionExpr{
-																	pos: position{line: 2882, col: 11, offset: 91307},
+																	pos: position{line: 2884, col: 11, offset: 91378},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2882, col: 11, offset: 91307},
+																		pos: position{line: 2884, col: 11, offset: 91378},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2882, col: 11, offset: 91307},
+																			pos:        position{line: 2884, col: 11, offset: 91378},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -40350,10 +40350,10 @@ var g = &grammar{
 														&zeroOrMoreExpr{
 															pos: position{line: 1753, col: 14, offset: 56840},
 															expr: &actionExpr{
-																pos: position{line: 2878, col: 10, offset: 91246},
+																pos: position{line: 2880, col: 10, offset: 91317},
 																run: (*parser).callonParagraph28,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2878, col: 10, offset: 91246},
+																	pos:        position{line: 2880, col: 10, offset: 91317},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -40362,28 +40362,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2900, col: 8, offset: 91644},
+															pos: position{line: 2902, col: 8, offset: 91715},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2887, col: 12, offset: 91417},
+																	pos: position{line: 2889, col: 12, offset: 91488},
 																	run: (*parser).callonParagraph31,
 																	expr: &choiceExpr{
-																		pos: position{line: 2887, col: 13, offset: 91418},
+																		pos: position{line: 2889, col: 13, offset: 91489},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2887, col: 13, offset: 91418},
+																				pos:        position{line: 2889, col: 13, offset: 91489},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2887, col: 20, offset: 91425},
+																				pos:        position{line: 2889, col: 20, offset: 91496},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2887, col: 29, offset: 91434},
+																				pos:        position{line: 2889, col: 29, offset: 91505},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -40392,9 +40392,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2897, col: 8, offset: 91594},
+																	pos: position{line: 2899, col: 8, offset: 91665},
 																	expr: &anyMatcher{
-																		line: 2897, col: 9, offset: 91595,
+																		line: 2899, col: 9, offset: 91666,
 																	},
 																},
 															},
@@ -40420,12 +40420,12 @@ var g = &grammar{
 											pos:   position{line: 1797, col: 5, offset: 58258},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2828, col: 14, offset: 89839},
+												pos: position{line: 2830, col: 14, offset: 89910},
 												run: (*parser).callonParagraph42,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2828, col: 14, offset: 89839},
+													pos: position{line: 2830, col: 14, offset: 89910},
 													expr: &charClassMatcher{
-														pos:        position{line: 2828, col: 14, offset: 89839},
+														pos:        position{line: 2830, col: 14, offset: 89910},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -40439,28 +40439,28 @@ var g = &grammar{
 											run: (*parser).callonParagraph45,
 										},
 										&choiceExpr{
-											pos: position{line: 2900, col: 8, offset: 91644},
+											pos: position{line: 2902, col: 8, offset: 91715},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2887, col: 12, offset: 91417},
+													pos: position{line: 2889, col: 12, offset: 91488},
 													run: (*parser).callonParagraph47,
 													expr: &choiceExpr{
-														pos: position{line: 2887, col: 13, offset: 91418},
+														pos: position{line: 2889, col: 13, offset: 91489},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2887, col: 13, offset: 91418},
+																pos:        position{line: 2889, col: 13, offset: 91489},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2887, col: 20, offset: 91425},
+																pos:        position{line: 2889, col: 20, offset: 91496},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2887, col: 29, offset: 91434},
+																pos:        position{line: 2889, col: 29, offset: 91505},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -40469,9 +40469,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2897, col: 8, offset: 91594},
+													pos: position{line: 2899, col: 8, offset: 91665},
 													expr: &anyMatcher{
-														line: 2897, col: 9, offset: 91595,
+														line: 2899, col: 9, offset: 91666,
 													},
 												},
 											},
@@ -40492,9 +40492,9 @@ var g = &grammar{
 										pos: position{line: 1786, col: 9, offset: 57964},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2895, col: 11, offset: 91580},
+												pos: position{line: 2897, col: 11, offset: 91651},
 												expr: &anyMatcher{
-													line: 2895, col: 13, offset: 91582,
+													line: 2897, col: 13, offset: 91653,
 												},
 											},
 											&notExpr{
@@ -40506,18 +40506,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21525},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2895, col: 11, offset: 91580},
+																pos: position{line: 2897, col: 11, offset: 91651},
 																expr: &anyMatcher{
-																	line: 2895, col: 13, offset: 91582,
+																	line: 2897, col: 13, offset: 91653,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21532},
 																expr: &actionExpr{
-																	pos: position{line: 2878, col: 10, offset: 91246},
+																	pos: position{line: 2880, col: 10, offset: 91317},
 																	run: (*parser).callonParagraph66,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2878, col: 10, offset: 91246},
+																		pos:        position{line: 2880, col: 10, offset: 91317},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -40526,28 +40526,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2900, col: 8, offset: 91644},
+																pos: position{line: 2902, col: 8, offset: 91715},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2887, col: 12, offset: 91417},
+																		pos: position{line: 2889, col: 12, offset: 91488},
 																		run: (*parser).callonParagraph69,
 																		expr: &choiceExpr{
-																			pos: position{line: 2887, col: 13, offset: 91418},
+																			pos: position{line: 2889, col: 13, offset: 91489},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2887, col: 13, offset: 91418},
+																					pos:        position{line: 2889, col: 13, offset: 91489},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2887, col: 20, offset: 91425},
+																					pos:        position{line: 2889, col: 20, offset: 91496},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2887, col: 29, offset: 91434},
+																					pos:        position{line: 2889, col: 29, offset: 91505},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -40556,9 +40556,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2897, col: 8, offset: 91594},
+																		pos: position{line: 2899, col: 8, offset: 91665},
 																		expr: &anyMatcher{
-																			line: 2897, col: 9, offset: 91595,
+																			line: 2899, col: 9, offset: 91666,
 																		},
 																	},
 																},
@@ -40581,36 +40581,36 @@ var g = &grammar{
 													pos: position{line: 1789, col: 15, offset: 58029},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2485, col: 22, offset: 80132},
+															pos: position{line: 2487, col: 22, offset: 80203},
 															run: (*parser).callonParagraph80,
 															expr: &seqExpr{
-																pos: position{line: 2485, col: 22, offset: 80132},
+																pos: position{line: 2487, col: 22, offset: 80203},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2490, col: 31, offset: 80353},
+																		pos:        position{line: 2492, col: 31, offset: 80424},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2490, col: 36, offset: 80358},
+																		pos: position{line: 2492, col: 36, offset: 80429},
 																		expr: &litMatcher{
-																			pos:        position{line: 2490, col: 37, offset: 80359},
+																			pos:        position{line: 2492, col: 37, offset: 80430},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2485, col: 49, offset: 80159},
+																		pos:   position{line: 2487, col: 49, offset: 80230},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2824, col: 13, offset: 89772},
+																			pos: position{line: 2826, col: 13, offset: 89843},
 																			run: (*parser).callonParagraph86,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2824, col: 13, offset: 89772},
+																				pos: position{line: 2826, col: 13, offset: 89843},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2824, col: 13, offset: 89772},
+																					pos:        position{line: 2826, col: 13, offset: 89843},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40620,28 +40620,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2900, col: 8, offset: 91644},
+																		pos: position{line: 2902, col: 8, offset: 91715},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2887, col: 12, offset: 91417},
+																				pos: position{line: 2889, col: 12, offset: 91488},
 																				run: (*parser).callonParagraph90,
 																				expr: &choiceExpr{
-																					pos: position{line: 2887, col: 13, offset: 91418},
+																					pos: position{line: 2889, col: 13, offset: 91489},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 13, offset: 91418},
+																							pos:        position{line: 2889, col: 13, offset: 91489},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 20, offset: 91425},
+																							pos:        position{line: 2889, col: 20, offset: 91496},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 29, offset: 91434},
+																							pos:        position{line: 2889, col: 29, offset: 91505},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40650,9 +40650,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2897, col: 8, offset: 91594},
+																				pos: position{line: 2899, col: 8, offset: 91665},
 																				expr: &anyMatcher{
-																					line: 2897, col: 9, offset: 91595,
+																					line: 2899, col: 9, offset: 91666,
 																				},
 																			},
 																		},
@@ -40670,12 +40670,12 @@ var g = &grammar{
 																		pos:   position{line: 1797, col: 5, offset: 58258},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2828, col: 14, offset: 89839},
+																			pos: position{line: 2830, col: 14, offset: 89910},
 																			run: (*parser).callonParagraph100,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2828, col: 14, offset: 89839},
+																				pos: position{line: 2830, col: 14, offset: 89910},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2828, col: 14, offset: 89839},
+																					pos:        position{line: 2830, col: 14, offset: 89910},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40689,28 +40689,28 @@ var g = &grammar{
 																		run: (*parser).callonParagraph103,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2900, col: 8, offset: 91644},
+																		pos: position{line: 2902, col: 8, offset: 91715},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2887, col: 12, offset: 91417},
+																				pos: position{line: 2889, col: 12, offset: 91488},
 																				run: (*parser).callonParagraph105,
 																				expr: &choiceExpr{
-																					pos: position{line: 2887, col: 13, offset: 91418},
+																					pos: position{line: 2889, col: 13, offset: 91489},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 13, offset: 91418},
+																							pos:        position{line: 2889, col: 13, offset: 91489},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 20, offset: 91425},
+																							pos:        position{line: 2889, col: 20, offset: 91496},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 29, offset: 91434},
+																							pos:        position{line: 2889, col: 29, offset: 91505},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40719,9 +40719,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2897, col: 8, offset: 91594},
+																				pos: position{line: 2899, col: 8, offset: 91665},
 																				expr: &anyMatcher{
-																					line: 2897, col: 9, offset: 91595,
+																					line: 2899, col: 9, offset: 91666,
 																				},
 																			},
 																		},
@@ -40934,21 +40934,21 @@ var g = &grammar{
 				pos: position{line: 1863, col: 5, offset: 60287},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2777, col: 5, offset: 88467},
+						pos: position{line: 2779, col: 5, offset: 88538},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2777, col: 5, offset: 88467},
+							pos: position{line: 2779, col: 5, offset: 88538},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2777, col: 5, offset: 88467},
+									pos:   position{line: 2779, col: 5, offset: 88538},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2777, col: 11, offset: 88473},
+										pos: position{line: 2779, col: 11, offset: 88544},
 										run: (*parser).callonQuotedTextElement5,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2777, col: 11, offset: 88473},
+											pos: position{line: 2779, col: 11, offset: 88544},
 											expr: &charClassMatcher{
-												pos:        position{line: 2777, col: 11, offset: 88473},
+												pos:        position{line: 2779, col: 11, offset: 88544},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40958,44 +40958,44 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2780, col: 5, offset: 88531},
+									pos: position{line: 2782, col: 5, offset: 88602},
 									expr: &seqExpr{
-										pos: position{line: 2781, col: 9, offset: 88542},
+										pos: position{line: 2783, col: 9, offset: 88613},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2781, col: 9, offset: 88542},
+												pos:        position{line: 2783, col: 9, offset: 88613},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2782, col: 9, offset: 88591},
+												pos: position{line: 2784, col: 9, offset: 88662},
 												run: (*parser).callonQuotedTextElement11,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2786, col: 5, offset: 88671},
+									pos: position{line: 2788, col: 5, offset: 88742},
 									expr: &seqExpr{
-										pos: position{line: 2787, col: 9, offset: 88682},
+										pos: position{line: 2789, col: 9, offset: 88753},
 										exprs: []interface{}{
 											&zeroOrMoreExpr{
-												pos: position{line: 2787, col: 9, offset: 88682},
+												pos: position{line: 2789, col: 9, offset: 88753},
 												expr: &seqExpr{
-													pos: position{line: 2787, col: 10, offset: 88683},
+													pos: position{line: 2789, col: 10, offset: 88754},
 													exprs: []interface{}{
 														&charClassMatcher{
-															pos:        position{line: 2787, col: 10, offset: 88683},
+															pos:        position{line: 2789, col: 10, offset: 88754},
 															val:        "[._%+-]",
 															chars:      []rune{'.', '_', '%', '+', '-'},
 															ignoreCase: false,
 															inverted:   false,
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2787, col: 18, offset: 88691},
+															pos: position{line: 2789, col: 18, offset: 88762},
 															expr: &charClassMatcher{
-																pos:        position{line: 2787, col: 18, offset: 88691},
+																pos:        position{line: 2789, col: 18, offset: 88762},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -41006,13 +41006,13 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 2787, col: 30, offset: 88703},
+												pos:        position{line: 2789, col: 30, offset: 88774},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2787, col: 34, offset: 88707},
+												pos:        position{line: 2789, col: 34, offset: 88778},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41025,12 +41025,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2882, col: 11, offset: 91307},
+						pos: position{line: 2884, col: 11, offset: 91378},
 						run: (*parser).callonQuotedTextElement21,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2882, col: 11, offset: 91307},
+							pos: position{line: 2884, col: 11, offset: 91378},
 							expr: &charClassMatcher{
-								pos:        position{line: 2882, col: 11, offset: 91307},
+								pos:        position{line: 2884, col: 11, offset: 91378},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -41043,25 +41043,25 @@ var g = &grammar{
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2503, col: 5, offset: 80849},
+						pos: position{line: 2505, col: 5, offset: 80920},
 						run: (*parser).callonQuotedTextElement25,
 						expr: &seqExpr{
-							pos: position{line: 2503, col: 5, offset: 80849},
+							pos: position{line: 2505, col: 5, offset: 80920},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2503, col: 5, offset: 80849},
+									pos: position{line: 2505, col: 5, offset: 80920},
 									run: (*parser).callonQuotedTextElement27,
 								},
 								&litMatcher{
-									pos:        position{line: 2506, col: 5, offset: 80920},
+									pos:        position{line: 2508, col: 5, offset: 80991},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2506, col: 10, offset: 80925},
+									pos: position{line: 2508, col: 10, offset: 80996},
 									expr: &charClassMatcher{
-										pos:        position{line: 2506, col: 11, offset: 80926},
+										pos:        position{line: 2508, col: 11, offset: 80997},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -41072,29 +41072,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2512, col: 5, offset: 81118},
+						pos: position{line: 2514, col: 5, offset: 81189},
 						run: (*parser).callonQuotedTextElement31,
 						expr: &seqExpr{
-							pos: position{line: 2512, col: 5, offset: 81118},
+							pos: position{line: 2514, col: 5, offset: 81189},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2512, col: 5, offset: 81118},
+									pos: position{line: 2514, col: 5, offset: 81189},
 									run: (*parser).callonQuotedTextElement33,
 								},
 								&andCodeExpr{
-									pos: position{line: 2515, col: 5, offset: 81189},
+									pos: position{line: 2517, col: 5, offset: 81260},
 									run: (*parser).callonQuotedTextElement34,
 								},
 								&litMatcher{
-									pos:        position{line: 2519, col: 5, offset: 81314},
+									pos:        position{line: 2521, col: 5, offset: 81385},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2519, col: 9, offset: 81318},
+									pos: position{line: 2521, col: 9, offset: 81389},
 									expr: &charClassMatcher{
-										pos:        position{line: 2519, col: 10, offset: 81319},
+										pos:        position{line: 2521, col: 10, offset: 81390},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -41105,27 +41105,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2795, col: 5, offset: 88900},
+						pos: position{line: 2797, col: 5, offset: 88971},
 						run: (*parser).callonQuotedTextElement38,
 						expr: &choiceExpr{
-							pos: position{line: 2796, col: 9, offset: 88910},
+							pos: position{line: 2798, col: 9, offset: 88981},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2796, col: 10, offset: 88911},
+									pos:        position{line: 2798, col: 10, offset: 88982},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2798, col: 13, offset: 89008},
+									pos: position{line: 2800, col: 13, offset: 89079},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2798, col: 13, offset: 89008},
+											pos: position{line: 2800, col: 13, offset: 89079},
 											run: (*parser).callonQuotedTextElement42,
 										},
 										&litMatcher{
-											pos:        position{line: 2801, col: 13, offset: 89108},
+											pos:        position{line: 2803, col: 13, offset: 89179},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -41133,20 +41133,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2801, col: 19, offset: 89114},
+									pos:        position{line: 2803, col: 19, offset: 89185},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2804, col: 13, offset: 89152},
+									pos: position{line: 2806, col: 13, offset: 89223},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2804, col: 13, offset: 89152},
+											pos: position{line: 2806, col: 13, offset: 89223},
 											run: (*parser).callonQuotedTextElement46,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2807, col: 14, offset: 89245},
+											pos:        position{line: 2809, col: 14, offset: 89316},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -41155,18 +41155,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2809, col: 12, offset: 89289},
+									pos: position{line: 2811, col: 12, offset: 89360},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2809, col: 12, offset: 89289},
+											pos:        position{line: 2811, col: 12, offset: 89360},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2809, col: 16, offset: 89293},
+											pos: position{line: 2811, col: 16, offset: 89364},
 											expr: &litMatcher{
-												pos:        position{line: 2809, col: 17, offset: 89294},
+												pos:        position{line: 2811, col: 17, offset: 89365},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -41524,31 +41524,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2891, col: 18, offset: 91517},
+						pos: position{line: 2893, col: 18, offset: 91588},
 						run: (*parser).callonQuotedTextElement121,
 						expr: &seqExpr{
-							pos: position{line: 2891, col: 18, offset: 91517},
+							pos: position{line: 2893, col: 18, offset: 91588},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2887, col: 12, offset: 91417},
+									pos: position{line: 2889, col: 12, offset: 91488},
 									run: (*parser).callonQuotedTextElement123,
 									expr: &choiceExpr{
-										pos: position{line: 2887, col: 13, offset: 91418},
+										pos: position{line: 2889, col: 13, offset: 91489},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2887, col: 13, offset: 91418},
+												pos:        position{line: 2889, col: 13, offset: 91489},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2887, col: 20, offset: 91425},
+												pos:        position{line: 2889, col: 20, offset: 91496},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2887, col: 29, offset: 91434},
+												pos:        position{line: 2889, col: 29, offset: 91505},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -41557,27 +41557,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2891, col: 26, offset: 91525},
+									pos: position{line: 2893, col: 26, offset: 91596},
 									expr: &actionExpr{
-										pos: position{line: 2887, col: 12, offset: 91417},
+										pos: position{line: 2889, col: 12, offset: 91488},
 										run: (*parser).callonQuotedTextElement129,
 										expr: &choiceExpr{
-											pos: position{line: 2887, col: 13, offset: 91418},
+											pos: position{line: 2889, col: 13, offset: 91489},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2887, col: 13, offset: 91418},
+													pos:        position{line: 2889, col: 13, offset: 91489},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2887, col: 20, offset: 91425},
+													pos:        position{line: 2889, col: 20, offset: 91496},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2887, col: 29, offset: 91434},
+													pos:        position{line: 2889, col: 29, offset: 91505},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -41598,23 +41598,23 @@ var g = &grammar{
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2472, col: 5, offset: 79678},
+						pos: position{line: 2474, col: 5, offset: 79749},
 						run: (*parser).callonQuotedTextElement136,
 						expr: &seqExpr{
-							pos: position{line: 2472, col: 5, offset: 79678},
+							pos: position{line: 2474, col: 5, offset: 79749},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2472, col: 5, offset: 79678},
+									pos: position{line: 2474, col: 5, offset: 79749},
 									run: (*parser).callonQuotedTextElement138,
 								},
 								&labeledExpr{
-									pos:   position{line: 2475, col: 5, offset: 79754},
+									pos:   position{line: 2477, col: 5, offset: 79825},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2476, col: 9, offset: 79772},
+										pos: position{line: 2478, col: 9, offset: 79843},
 										run: (*parser).callonQuotedTextElement140,
 										expr: &charClassMatcher{
-											pos:        position{line: 2476, col: 10, offset: 79773},
+											pos:        position{line: 2478, col: 10, offset: 79844},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -41669,10 +41669,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2817, col: 12, offset: 89554},
+						pos: position{line: 2819, col: 12, offset: 89625},
 						run: (*parser).callonQuotedTextElement151,
 						expr: &charClassMatcher{
-							pos:        position{line: 2817, col: 12, offset: 89554},
+							pos:        position{line: 2819, col: 12, offset: 89625},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -41736,9 +41736,9 @@ var g = &grammar{
 					pos: position{line: 1899, col: 5, offset: 61368},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2895, col: 11, offset: 91580},
+							pos: position{line: 2897, col: 11, offset: 91651},
 							expr: &anyMatcher{
-								line: 2895, col: 13, offset: 91582,
+								line: 2897, col: 13, offset: 91653,
 							},
 						},
 						&notExpr{
@@ -41825,7 +41825,7 @@ var g = &grammar{
 							expr: &notExpr{
 								pos: position{line: 1924, col: 7, offset: 62093},
 								expr: &charClassMatcher{
-									pos:        position{line: 2768, col: 13, offset: 88320},
+									pos:        position{line: 2770, col: 13, offset: 88391},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -41849,10 +41849,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 1934, col: 5, offset: 62378},
 							expr: &actionExpr{
-								pos: position{line: 2878, col: 10, offset: 91246},
+								pos: position{line: 2880, col: 10, offset: 91317},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2878, col: 10, offset: 91246},
+									pos:        position{line: 2880, col: 10, offset: 91317},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41889,9 +41889,9 @@ var g = &grammar{
 					pos: position{line: 1943, col: 5, offset: 62637},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2895, col: 11, offset: 91580},
+							pos: position{line: 2897, col: 11, offset: 91651},
 							expr: &anyMatcher{
-								line: 2895, col: 13, offset: 91582,
+								line: 2897, col: 13, offset: 91653,
 							},
 						},
 						&notExpr{
@@ -41923,7 +41923,7 @@ var g = &grammar{
 										expr: &notExpr{
 											pos: position{line: 1924, col: 7, offset: 62093},
 											expr: &charClassMatcher{
-												pos:        position{line: 2768, col: 13, offset: 88320},
+												pos:        position{line: 2770, col: 13, offset: 88391},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42158,9 +42158,9 @@ var g = &grammar{
 					pos: position{line: 1988, col: 5, offset: 64290},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2895, col: 11, offset: 91580},
+							pos: position{line: 2897, col: 11, offset: 91651},
 							expr: &anyMatcher{
-								line: 2895, col: 13, offset: 91582,
+								line: 2897, col: 13, offset: 91653,
 							},
 						},
 						&notExpr{
@@ -42247,7 +42247,7 @@ var g = &grammar{
 							expr: &notExpr{
 								pos: position{line: 2014, col: 7, offset: 65021},
 								expr: &charClassMatcher{
-									pos:        position{line: 2768, col: 13, offset: 88320},
+									pos:        position{line: 2770, col: 13, offset: 88391},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -42271,10 +42271,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 2024, col: 5, offset: 65318},
 							expr: &actionExpr{
-								pos: position{line: 2878, col: 10, offset: 91246},
+								pos: position{line: 2880, col: 10, offset: 91317},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2878, col: 10, offset: 91246},
+									pos:        position{line: 2880, col: 10, offset: 91317},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42311,9 +42311,9 @@ var g = &grammar{
 					pos: position{line: 2033, col: 5, offset: 65580},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2895, col: 11, offset: 91580},
+							pos: position{line: 2897, col: 11, offset: 91651},
 							expr: &anyMatcher{
-								line: 2895, col: 13, offset: 91582,
+								line: 2897, col: 13, offset: 91653,
 							},
 						},
 						&notExpr{
@@ -42345,7 +42345,7 @@ var g = &grammar{
 										expr: &notExpr{
 											pos: position{line: 2014, col: 7, offset: 65021},
 											expr: &charClassMatcher{
-												pos:        position{line: 2768, col: 13, offset: 88320},
+												pos:        position{line: 2770, col: 13, offset: 88391},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42580,9 +42580,9 @@ var g = &grammar{
 					pos: position{line: 2078, col: 5, offset: 67409},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2895, col: 11, offset: 91580},
+							pos: position{line: 2897, col: 11, offset: 91651},
 							expr: &anyMatcher{
-								line: 2895, col: 13, offset: 91582,
+								line: 2897, col: 13, offset: 91653,
 							},
 						},
 						&notExpr{
@@ -42634,7 +42634,7 @@ var g = &grammar{
 						expr: &notExpr{
 							pos: position{line: 2105, col: 7, offset: 68202},
 							expr: &charClassMatcher{
-								pos:        position{line: 2768, col: 13, offset: 88320},
+								pos:        position{line: 2770, col: 13, offset: 88391},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -42704,10 +42704,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 2116, col: 5, offset: 68523},
 							expr: &actionExpr{
-								pos: position{line: 2878, col: 10, offset: 91246},
+								pos: position{line: 2880, col: 10, offset: 91317},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2878, col: 10, offset: 91246},
+									pos:        position{line: 2880, col: 10, offset: 91317},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42744,9 +42744,9 @@ var g = &grammar{
 					pos: position{line: 2125, col: 5, offset: 68791},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2895, col: 11, offset: 91580},
+							pos: position{line: 2897, col: 11, offset: 91651},
 							expr: &anyMatcher{
-								line: 2895, col: 13, offset: 91582,
+								line: 2897, col: 13, offset: 91653,
 							},
 						},
 						&notExpr{
@@ -42980,9 +42980,9 @@ var g = &grammar{
 					pos: position{line: 2170, col: 5, offset: 70503},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2895, col: 11, offset: 91580},
+							pos: position{line: 2897, col: 11, offset: 91651},
 							expr: &anyMatcher{
-								line: 2895, col: 13, offset: 91582,
+								line: 2897, col: 13, offset: 91653,
 							},
 						},
 						&notExpr{
@@ -43069,7 +43069,7 @@ var g = &grammar{
 							expr: &notExpr{
 								pos: position{line: 2195, col: 7, offset: 71232},
 								expr: &charClassMatcher{
-									pos:        position{line: 2768, col: 13, offset: 88320},
+									pos:        position{line: 2770, col: 13, offset: 88391},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -43093,10 +43093,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 2205, col: 5, offset: 71529},
 							expr: &actionExpr{
-								pos: position{line: 2878, col: 10, offset: 91246},
+								pos: position{line: 2880, col: 10, offset: 91317},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2878, col: 10, offset: 91246},
+									pos:        position{line: 2880, col: 10, offset: 91317},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43133,9 +43133,9 @@ var g = &grammar{
 					pos: position{line: 2214, col: 5, offset: 71792},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2895, col: 11, offset: 91580},
+							pos: position{line: 2897, col: 11, offset: 91651},
 							expr: &anyMatcher{
-								line: 2895, col: 13, offset: 91582,
+								line: 2897, col: 13, offset: 91653,
 							},
 						},
 						&notExpr{
@@ -43167,7 +43167,7 @@ var g = &grammar{
 										expr: &notExpr{
 											pos: position{line: 2195, col: 7, offset: 71232},
 											expr: &charClassMatcher{
-												pos:        position{line: 2768, col: 13, offset: 88320},
+												pos:        position{line: 2770, col: 13, offset: 88391},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -43403,23 +43403,23 @@ var g = &grammar{
 									pos: position{line: 2250, col: 31, offset: 73208},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2472, col: 5, offset: 79678},
+											pos: position{line: 2474, col: 5, offset: 79749},
 											run: (*parser).callonSubscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2472, col: 5, offset: 79678},
+												pos: position{line: 2474, col: 5, offset: 79749},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2472, col: 5, offset: 79678},
+														pos: position{line: 2474, col: 5, offset: 79749},
 														run: (*parser).callonSubscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2475, col: 5, offset: 79754},
+														pos:   position{line: 2477, col: 5, offset: 79825},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2476, col: 9, offset: 79772},
+															pos: position{line: 2478, col: 9, offset: 79843},
 															run: (*parser).callonSubscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2476, col: 10, offset: 79773},
+																pos:        position{line: 2478, col: 10, offset: 79844},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -43550,23 +43550,23 @@ var g = &grammar{
 									pos: position{line: 2277, col: 33, offset: 74032},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2472, col: 5, offset: 79678},
+											pos: position{line: 2474, col: 5, offset: 79749},
 											run: (*parser).callonSuperscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2472, col: 5, offset: 79678},
+												pos: position{line: 2474, col: 5, offset: 79749},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2472, col: 5, offset: 79678},
+														pos: position{line: 2474, col: 5, offset: 79749},
 														run: (*parser).callonSuperscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2475, col: 5, offset: 79754},
+														pos:   position{line: 2477, col: 5, offset: 79825},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2476, col: 9, offset: 79772},
+															pos: position{line: 2478, col: 9, offset: 79843},
 															run: (*parser).callonSuperscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2476, col: 10, offset: 79773},
+																pos:        position{line: 2478, col: 10, offset: 79844},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -43677,12 +43677,12 @@ var g = &grammar{
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2882, col: 11, offset: 91307},
+							pos: position{line: 2884, col: 11, offset: 91378},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2882, col: 11, offset: 91307},
+								pos: position{line: 2884, col: 11, offset: 91378},
 								expr: &charClassMatcher{
-									pos:        position{line: 2882, col: 11, offset: 91307},
+									pos:        position{line: 2884, col: 11, offset: 91378},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43699,28 +43699,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2900, col: 8, offset: 91644},
+							pos: position{line: 2902, col: 8, offset: 91715},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2887, col: 12, offset: 91417},
+									pos: position{line: 2889, col: 12, offset: 91488},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2887, col: 13, offset: 91418},
+										pos: position{line: 2889, col: 13, offset: 91489},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2887, col: 13, offset: 91418},
+												pos:        position{line: 2889, col: 13, offset: 91489},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2887, col: 20, offset: 91425},
+												pos:        position{line: 2889, col: 20, offset: 91496},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2887, col: 29, offset: 91434},
+												pos:        position{line: 2889, col: 29, offset: 91505},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -43729,9 +43729,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2897, col: 8, offset: 91594},
+									pos: position{line: 2899, col: 8, offset: 91665},
 									expr: &anyMatcher{
-										line: 2897, col: 9, offset: 91595,
+										line: 2899, col: 9, offset: 91666,
 									},
 								},
 							},
@@ -43754,12 +43754,12 @@ var g = &grammar{
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2316, col: 5, offset: 75314},
+							pos:   position{line: 2318, col: 5, offset: 75385},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2316, col: 14, offset: 75323},
+								pos: position{line: 2318, col: 14, offset: 75394},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2316, col: 15, offset: 75324},
+									pos:  position{line: 2318, col: 15, offset: 75395},
 									name: "SectionTitleElement",
 								},
 							},
@@ -43770,38 +43770,38 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2320, col: 1, offset: 75405},
+			pos:  position{line: 2322, col: 1, offset: 75476},
 			expr: &actionExpr{
-				pos: position{line: 2321, col: 5, offset: 75432},
+				pos: position{line: 2323, col: 5, offset: 75503},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2321, col: 5, offset: 75432},
+					pos: position{line: 2323, col: 5, offset: 75503},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2321, col: 5, offset: 75432},
+							pos: position{line: 2323, col: 5, offset: 75503},
 							expr: &choiceExpr{
-								pos: position{line: 2900, col: 8, offset: 91644},
+								pos: position{line: 2902, col: 8, offset: 91715},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2887, col: 12, offset: 91417},
+										pos: position{line: 2889, col: 12, offset: 91488},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2887, col: 13, offset: 91418},
+											pos: position{line: 2889, col: 13, offset: 91489},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2887, col: 13, offset: 91418},
+													pos:        position{line: 2889, col: 13, offset: 91489},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2887, col: 20, offset: 91425},
+													pos:        position{line: 2889, col: 20, offset: 91496},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2887, col: 29, offset: 91434},
+													pos:        position{line: 2889, col: 29, offset: 91505},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -43810,29 +43810,29 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2897, col: 8, offset: 91594},
+										pos: position{line: 2899, col: 8, offset: 91665},
 										expr: &anyMatcher{
-											line: 2897, col: 9, offset: 91595,
+											line: 2899, col: 9, offset: 91666,
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2322, col: 5, offset: 75441},
+							pos:   position{line: 2324, col: 5, offset: 75512},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2322, col: 14, offset: 75450},
+								pos: position{line: 2324, col: 14, offset: 75521},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2322, col: 14, offset: 75450},
+										pos:  position{line: 2324, col: 14, offset: 75521},
 										name: "SectionTitleLineElement",
 									},
 									&actionExpr{
-										pos: position{line: 2817, col: 12, offset: 89554},
+										pos: position{line: 2819, col: 12, offset: 89625},
 										run: (*parser).callonSectionTitleElement15,
 										expr: &charClassMatcher{
-											pos:        position{line: 2817, col: 12, offset: 89554},
+											pos:        position{line: 2819, col: 12, offset: 89625},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -43848,21 +43848,21 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleLineElement",
-			pos:  position{line: 2327, col: 1, offset: 75554},
+			pos:  position{line: 2329, col: 1, offset: 75625},
 			expr: &actionExpr{
-				pos: position{line: 2328, col: 5, offset: 75585},
+				pos: position{line: 2330, col: 5, offset: 75656},
 				run: (*parser).callonSectionTitleLineElement1,
 				expr: &seqExpr{
-					pos: position{line: 2328, col: 5, offset: 75585},
+					pos: position{line: 2330, col: 5, offset: 75656},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2328, col: 5, offset: 75585},
+							pos:   position{line: 2330, col: 5, offset: 75656},
 							label: "start",
 							expr: &actionExpr{
-								pos: position{line: 2903, col: 16, offset: 91768},
+								pos: position{line: 2905, col: 16, offset: 91839},
 								run: (*parser).callonSectionTitleLineElement4,
 								expr: &litMatcher{
-									pos:        position{line: 2903, col: 16, offset: 91768},
+									pos:        position{line: 2905, col: 16, offset: 91839},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -43870,27 +43870,27 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2329, col: 5, offset: 75609},
+							pos:   position{line: 2331, col: 5, offset: 75680},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2330, col: 9, offset: 75627},
+								pos: position{line: 2332, col: 9, offset: 75698},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2777, col: 5, offset: 88467},
+										pos: position{line: 2779, col: 5, offset: 88538},
 										run: (*parser).callonSectionTitleLineElement8,
 										expr: &seqExpr{
-											pos: position{line: 2777, col: 5, offset: 88467},
+											pos: position{line: 2779, col: 5, offset: 88538},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2777, col: 5, offset: 88467},
+													pos:   position{line: 2779, col: 5, offset: 88538},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2777, col: 11, offset: 88473},
+														pos: position{line: 2779, col: 11, offset: 88544},
 														run: (*parser).callonSectionTitleLineElement11,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2777, col: 11, offset: 88473},
+															pos: position{line: 2779, col: 11, offset: 88544},
 															expr: &charClassMatcher{
-																pos:        position{line: 2777, col: 11, offset: 88473},
+																pos:        position{line: 2779, col: 11, offset: 88544},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -43900,44 +43900,44 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2780, col: 5, offset: 88531},
+													pos: position{line: 2782, col: 5, offset: 88602},
 													expr: &seqExpr{
-														pos: position{line: 2781, col: 9, offset: 88542},
+														pos: position{line: 2783, col: 9, offset: 88613},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2781, col: 9, offset: 88542},
+																pos:        position{line: 2783, col: 9, offset: 88613},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2782, col: 9, offset: 88591},
+																pos: position{line: 2784, col: 9, offset: 88662},
 																run: (*parser).callonSectionTitleLineElement17,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2786, col: 5, offset: 88671},
+													pos: position{line: 2788, col: 5, offset: 88742},
 													expr: &seqExpr{
-														pos: position{line: 2787, col: 9, offset: 88682},
+														pos: position{line: 2789, col: 9, offset: 88753},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2787, col: 9, offset: 88682},
+																pos: position{line: 2789, col: 9, offset: 88753},
 																expr: &seqExpr{
-																	pos: position{line: 2787, col: 10, offset: 88683},
+																	pos: position{line: 2789, col: 10, offset: 88754},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2787, col: 10, offset: 88683},
+																			pos:        position{line: 2789, col: 10, offset: 88754},
 																			val:        "[._%+-]",
 																			chars:      []rune{'.', '_', '%', '+', '-'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2787, col: 18, offset: 88691},
+																			pos: position{line: 2789, col: 18, offset: 88762},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2787, col: 18, offset: 88691},
+																				pos:        position{line: 2789, col: 18, offset: 88762},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -43948,13 +43948,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2787, col: 30, offset: 88703},
+																pos:        position{line: 2789, col: 30, offset: 88774},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2787, col: 34, offset: 88707},
+																pos:        position{line: 2789, col: 34, offset: 88778},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -43967,12 +43967,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2882, col: 11, offset: 91307},
+										pos: position{line: 2884, col: 11, offset: 91378},
 										run: (*parser).callonSectionTitleLineElement27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2882, col: 11, offset: 91307},
+											pos: position{line: 2884, col: 11, offset: 91378},
 											expr: &charClassMatcher{
-												pos:        position{line: 2882, col: 11, offset: 91307},
+												pos:        position{line: 2884, col: 11, offset: 91378},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -43981,25 +43981,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2503, col: 5, offset: 80849},
+										pos: position{line: 2505, col: 5, offset: 80920},
 										run: (*parser).callonSectionTitleLineElement30,
 										expr: &seqExpr{
-											pos: position{line: 2503, col: 5, offset: 80849},
+											pos: position{line: 2505, col: 5, offset: 80920},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2503, col: 5, offset: 80849},
+													pos: position{line: 2505, col: 5, offset: 80920},
 													run: (*parser).callonSectionTitleLineElement32,
 												},
 												&litMatcher{
-													pos:        position{line: 2506, col: 5, offset: 80920},
+													pos:        position{line: 2508, col: 5, offset: 80991},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2506, col: 10, offset: 80925},
+													pos: position{line: 2508, col: 10, offset: 80996},
 													expr: &charClassMatcher{
-														pos:        position{line: 2506, col: 11, offset: 80926},
+														pos:        position{line: 2508, col: 11, offset: 80997},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -44010,29 +44010,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2512, col: 5, offset: 81118},
+										pos: position{line: 2514, col: 5, offset: 81189},
 										run: (*parser).callonSectionTitleLineElement36,
 										expr: &seqExpr{
-											pos: position{line: 2512, col: 5, offset: 81118},
+											pos: position{line: 2514, col: 5, offset: 81189},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2512, col: 5, offset: 81118},
+													pos: position{line: 2514, col: 5, offset: 81189},
 													run: (*parser).callonSectionTitleLineElement38,
 												},
 												&andCodeExpr{
-													pos: position{line: 2515, col: 5, offset: 81189},
+													pos: position{line: 2517, col: 5, offset: 81260},
 													run: (*parser).callonSectionTitleLineElement39,
 												},
 												&litMatcher{
-													pos:        position{line: 2519, col: 5, offset: 81314},
+													pos:        position{line: 2521, col: 5, offset: 81385},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2519, col: 9, offset: 81318},
+													pos: position{line: 2521, col: 9, offset: 81389},
 													expr: &charClassMatcher{
-														pos:        position{line: 2519, col: 10, offset: 81319},
+														pos:        position{line: 2521, col: 10, offset: 81390},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -44043,31 +44043,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2333, col: 11, offset: 75692},
+										pos:  position{line: 2335, col: 11, offset: 75763},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2795, col: 5, offset: 88900},
+										pos: position{line: 2797, col: 5, offset: 88971},
 										run: (*parser).callonSectionTitleLineElement44,
 										expr: &choiceExpr{
-											pos: position{line: 2796, col: 9, offset: 88910},
+											pos: position{line: 2798, col: 9, offset: 88981},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2796, col: 10, offset: 88911},
+													pos:        position{line: 2798, col: 10, offset: 88982},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2798, col: 13, offset: 89008},
+													pos: position{line: 2800, col: 13, offset: 89079},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2798, col: 13, offset: 89008},
+															pos: position{line: 2800, col: 13, offset: 89079},
 															run: (*parser).callonSectionTitleLineElement48,
 														},
 														&litMatcher{
-															pos:        position{line: 2801, col: 13, offset: 89108},
+															pos:        position{line: 2803, col: 13, offset: 89179},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -44075,20 +44075,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2801, col: 19, offset: 89114},
+													pos:        position{line: 2803, col: 19, offset: 89185},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2804, col: 13, offset: 89152},
+													pos: position{line: 2806, col: 13, offset: 89223},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2804, col: 13, offset: 89152},
+															pos: position{line: 2806, col: 13, offset: 89223},
 															run: (*parser).callonSectionTitleLineElement52,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2807, col: 14, offset: 89245},
+															pos:        position{line: 2809, col: 14, offset: 89316},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -44097,18 +44097,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2809, col: 12, offset: 89289},
+													pos: position{line: 2811, col: 12, offset: 89360},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2809, col: 12, offset: 89289},
+															pos:        position{line: 2811, col: 12, offset: 89360},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2809, col: 16, offset: 89293},
+															pos: position{line: 2811, col: 16, offset: 89364},
 															expr: &litMatcher{
-																pos:        position{line: 2809, col: 17, offset: 89294},
+																pos:        position{line: 2811, col: 17, offset: 89365},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -44120,35 +44120,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2335, col: 11, offset: 75765},
+										pos:  position{line: 2337, col: 11, offset: 75836},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2336, col: 11, offset: 75781},
+										pos:  position{line: 2338, col: 11, offset: 75852},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2337, col: 11, offset: 75809},
+										pos:  position{line: 2339, col: 11, offset: 75880},
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2472, col: 5, offset: 79678},
+										pos: position{line: 2474, col: 5, offset: 79749},
 										run: (*parser).callonSectionTitleLineElement61,
 										expr: &seqExpr{
-											pos: position{line: 2472, col: 5, offset: 79678},
+											pos: position{line: 2474, col: 5, offset: 79749},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2472, col: 5, offset: 79678},
+													pos: position{line: 2474, col: 5, offset: 79749},
 													run: (*parser).callonSectionTitleLineElement63,
 												},
 												&labeledExpr{
-													pos:   position{line: 2475, col: 5, offset: 79754},
+													pos:   position{line: 2477, col: 5, offset: 79825},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2476, col: 9, offset: 79772},
+														pos: position{line: 2478, col: 9, offset: 79843},
 														run: (*parser).callonSectionTitleLineElement65,
 														expr: &charClassMatcher{
-															pos:        position{line: 2476, col: 10, offset: 79773},
+															pos:        position{line: 2478, col: 10, offset: 79844},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -44160,7 +44160,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2339, col: 11, offset: 75894},
+										pos:  position{line: 2341, col: 11, offset: 75965},
 										name: "InlineIcon",
 									},
 									&actionExpr{
@@ -44553,17 +44553,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2355, col: 5, offset: 76388},
+										pos: position{line: 2357, col: 5, offset: 76459},
 										run: (*parser).callonSectionTitleLineElement146,
 										expr: &seqExpr{
-											pos: position{line: 2355, col: 5, offset: 76388},
+											pos: position{line: 2357, col: 5, offset: 76459},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2355, col: 5, offset: 76388},
+													pos: position{line: 2357, col: 5, offset: 76459},
 													run: (*parser).callonSectionTitleLineElement148,
 												},
 												&labeledExpr{
-													pos:   position{line: 2358, col: 5, offset: 76443},
+													pos:   position{line: 2360, col: 5, offset: 76514},
 													label: "id",
 													expr: &actionExpr{
 														pos: position{line: 403, col: 5, offset: 12344},
@@ -45021,12 +45021,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2358, col: 26, offset: 76464},
+													pos: position{line: 2360, col: 26, offset: 76535},
 													expr: &actionExpr{
-														pos: position{line: 2878, col: 10, offset: 91246},
+														pos: position{line: 2880, col: 10, offset: 91317},
 														run: (*parser).callonSectionTitleLineElement243,
 														expr: &charClassMatcher{
-															pos:        position{line: 2878, col: 10, offset: 91246},
+															pos:        position{line: 2880, col: 10, offset: 91317},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -45035,30 +45035,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 2358, col: 33, offset: 76471},
+													pos: position{line: 2360, col: 33, offset: 76542},
 													expr: &choiceExpr{
-														pos: position{line: 2900, col: 8, offset: 91644},
+														pos: position{line: 2902, col: 8, offset: 91715},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2887, col: 12, offset: 91417},
+																pos: position{line: 2889, col: 12, offset: 91488},
 																run: (*parser).callonSectionTitleLineElement247,
 																expr: &choiceExpr{
-																	pos: position{line: 2887, col: 13, offset: 91418},
+																	pos: position{line: 2889, col: 13, offset: 91489},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2887, col: 13, offset: 91418},
+																			pos:        position{line: 2889, col: 13, offset: 91489},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2887, col: 20, offset: 91425},
+																			pos:        position{line: 2889, col: 20, offset: 91496},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2887, col: 29, offset: 91434},
+																			pos:        position{line: 2889, col: 29, offset: 91505},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -45067,9 +45067,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2897, col: 8, offset: 91594},
+																pos: position{line: 2899, col: 8, offset: 91665},
 																expr: &anyMatcher{
-																	line: 2897, col: 9, offset: 91595,
+																	line: 2899, col: 9, offset: 91666,
 																},
 															},
 														},
@@ -45094,12 +45094,12 @@ var g = &grammar{
 													pos:   position{line: 1258, col: 14, offset: 38908},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2863, col: 7, offset: 90898},
+														pos: position{line: 2865, col: 7, offset: 90969},
 														run: (*parser).callonSectionTitleLineElement258,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2863, col: 7, offset: 90898},
+															pos: position{line: 2865, col: 7, offset: 90969},
 															expr: &charClassMatcher{
-																pos:        position{line: 2863, col: 7, offset: 90898},
+																pos:        position{line: 2865, col: 7, offset: 90969},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -45133,12 +45133,12 @@ var g = &grammar{
 													pos:   position{line: 1263, col: 10, offset: 39083},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2863, col: 7, offset: 90898},
+														pos: position{line: 2865, col: 7, offset: 90969},
 														run: (*parser).callonSectionTitleLineElement266,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2863, col: 7, offset: 90898},
+															pos: position{line: 2865, col: 7, offset: 90969},
 															expr: &charClassMatcher{
-																pos:        position{line: 2863, col: 7, offset: 90898},
+																pos:        position{line: 2865, col: 7, offset: 90969},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -45157,20 +45157,20 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2344, col: 11, offset: 76148},
+										pos:  position{line: 2346, col: 11, offset: 76219},
 										name: "InlineFootnote",
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2345, col: 5, offset: 76168},
+							pos:   position{line: 2347, col: 5, offset: 76239},
 							label: "end",
 							expr: &actionExpr{
-								pos: position{line: 2903, col: 16, offset: 91768},
+								pos: position{line: 2905, col: 16, offset: 91839},
 								run: (*parser).callonSectionTitleLineElement272,
 								expr: &litMatcher{
-									pos:        position{line: 2903, col: 16, offset: 91768},
+									pos:        position{line: 2905, col: 16, offset: 91839},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -45178,7 +45178,7 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2346, col: 5, offset: 76190},
+							pos: position{line: 2348, col: 5, offset: 76261},
 							run: (*parser).callonSectionTitleLineElement274,
 						},
 					},
@@ -45187,52 +45187,52 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2368, col: 1, offset: 76733},
+			pos:  position{line: 2370, col: 1, offset: 76804},
 			expr: &actionExpr{
-				pos: position{line: 2369, col: 5, offset: 76820},
+				pos: position{line: 2371, col: 5, offset: 76891},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2369, col: 5, offset: 76820},
+					pos: position{line: 2371, col: 5, offset: 76891},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2369, col: 5, offset: 76820},
+							pos:   position{line: 2371, col: 5, offset: 76891},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2369, col: 14, offset: 76829},
+								pos: position{line: 2371, col: 14, offset: 76900},
 								expr: &actionExpr{
-									pos: position{line: 2371, col: 9, offset: 76855},
+									pos: position{line: 2373, col: 9, offset: 76926},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2371, col: 9, offset: 76855},
+										pos: position{line: 2373, col: 9, offset: 76926},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2895, col: 11, offset: 91580},
+												pos: position{line: 2897, col: 11, offset: 91651},
 												expr: &anyMatcher{
-													line: 2895, col: 13, offset: 91582,
+													line: 2897, col: 13, offset: 91653,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2372, col: 9, offset: 76870},
+												pos:   position{line: 2374, col: 9, offset: 76941},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2373, col: 13, offset: 76892},
+													pos: position{line: 2375, col: 13, offset: 76963},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2777, col: 5, offset: 88467},
+															pos: position{line: 2779, col: 5, offset: 88538},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2777, col: 5, offset: 88467},
+																pos: position{line: 2779, col: 5, offset: 88538},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 2777, col: 5, offset: 88467},
+																		pos:   position{line: 2779, col: 5, offset: 88538},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2777, col: 11, offset: 88473},
+																			pos: position{line: 2779, col: 11, offset: 88544},
 																			run: (*parser).callonNormalGroup14,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2777, col: 11, offset: 88473},
+																				pos: position{line: 2779, col: 11, offset: 88544},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2777, col: 11, offset: 88473},
+																					pos:        position{line: 2779, col: 11, offset: 88544},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -45242,44 +45242,44 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2780, col: 5, offset: 88531},
+																		pos: position{line: 2782, col: 5, offset: 88602},
 																		expr: &seqExpr{
-																			pos: position{line: 2781, col: 9, offset: 88542},
+																			pos: position{line: 2783, col: 9, offset: 88613},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2781, col: 9, offset: 88542},
+																					pos:        position{line: 2783, col: 9, offset: 88613},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2782, col: 9, offset: 88591},
+																					pos: position{line: 2784, col: 9, offset: 88662},
 																					run: (*parser).callonNormalGroup20,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2786, col: 5, offset: 88671},
+																		pos: position{line: 2788, col: 5, offset: 88742},
 																		expr: &seqExpr{
-																			pos: position{line: 2787, col: 9, offset: 88682},
+																			pos: position{line: 2789, col: 9, offset: 88753},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 2787, col: 9, offset: 88682},
+																					pos: position{line: 2789, col: 9, offset: 88753},
 																					expr: &seqExpr{
-																						pos: position{line: 2787, col: 10, offset: 88683},
+																						pos: position{line: 2789, col: 10, offset: 88754},
 																						exprs: []interface{}{
 																							&charClassMatcher{
-																								pos:        position{line: 2787, col: 10, offset: 88683},
+																								pos:        position{line: 2789, col: 10, offset: 88754},
 																								val:        "[._%+-]",
 																								chars:      []rune{'.', '_', '%', '+', '-'},
 																								ignoreCase: false,
 																								inverted:   false,
 																							},
 																							&oneOrMoreExpr{
-																								pos: position{line: 2787, col: 18, offset: 88691},
+																								pos: position{line: 2789, col: 18, offset: 88762},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2787, col: 18, offset: 88691},
+																									pos:        position{line: 2789, col: 18, offset: 88762},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -45290,13 +45290,13 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2787, col: 30, offset: 88703},
+																					pos:        position{line: 2789, col: 30, offset: 88774},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2787, col: 34, offset: 88707},
+																					pos:        position{line: 2789, col: 34, offset: 88778},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -45309,12 +45309,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2882, col: 11, offset: 91307},
+															pos: position{line: 2884, col: 11, offset: 91378},
 															run: (*parser).callonNormalGroup30,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2882, col: 11, offset: 91307},
+																pos: position{line: 2884, col: 11, offset: 91378},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2882, col: 11, offset: 91307},
+																	pos:        position{line: 2884, col: 11, offset: 91378},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -45323,29 +45323,29 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2375, col: 15, offset: 76938},
+															pos:  position{line: 2377, col: 15, offset: 77009},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2503, col: 5, offset: 80849},
+															pos: position{line: 2505, col: 5, offset: 80920},
 															run: (*parser).callonNormalGroup34,
 															expr: &seqExpr{
-																pos: position{line: 2503, col: 5, offset: 80849},
+																pos: position{line: 2505, col: 5, offset: 80920},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2503, col: 5, offset: 80849},
+																		pos: position{line: 2505, col: 5, offset: 80920},
 																		run: (*parser).callonNormalGroup36,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2506, col: 5, offset: 80920},
+																		pos:        position{line: 2508, col: 5, offset: 80991},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2506, col: 10, offset: 80925},
+																		pos: position{line: 2508, col: 10, offset: 80996},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2506, col: 11, offset: 80926},
+																			pos:        position{line: 2508, col: 11, offset: 80997},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -45356,29 +45356,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2512, col: 5, offset: 81118},
+															pos: position{line: 2514, col: 5, offset: 81189},
 															run: (*parser).callonNormalGroup40,
 															expr: &seqExpr{
-																pos: position{line: 2512, col: 5, offset: 81118},
+																pos: position{line: 2514, col: 5, offset: 81189},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2512, col: 5, offset: 81118},
+																		pos: position{line: 2514, col: 5, offset: 81189},
 																		run: (*parser).callonNormalGroup42,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2515, col: 5, offset: 81189},
+																		pos: position{line: 2517, col: 5, offset: 81260},
 																		run: (*parser).callonNormalGroup43,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2519, col: 5, offset: 81314},
+																		pos:        position{line: 2521, col: 5, offset: 81385},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2519, col: 9, offset: 81318},
+																		pos: position{line: 2521, col: 9, offset: 81389},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2519, col: 10, offset: 81319},
+																			pos:        position{line: 2521, col: 10, offset: 81390},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -45389,27 +45389,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2795, col: 5, offset: 88900},
+															pos: position{line: 2797, col: 5, offset: 88971},
 															run: (*parser).callonNormalGroup47,
 															expr: &choiceExpr{
-																pos: position{line: 2796, col: 9, offset: 88910},
+																pos: position{line: 2798, col: 9, offset: 88981},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2796, col: 10, offset: 88911},
+																		pos:        position{line: 2798, col: 10, offset: 88982},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2798, col: 13, offset: 89008},
+																		pos: position{line: 2800, col: 13, offset: 89079},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2798, col: 13, offset: 89008},
+																				pos: position{line: 2800, col: 13, offset: 89079},
 																				run: (*parser).callonNormalGroup51,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2801, col: 13, offset: 89108},
+																				pos:        position{line: 2803, col: 13, offset: 89179},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -45417,20 +45417,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2801, col: 19, offset: 89114},
+																		pos:        position{line: 2803, col: 19, offset: 89185},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2804, col: 13, offset: 89152},
+																		pos: position{line: 2806, col: 13, offset: 89223},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2804, col: 13, offset: 89152},
+																				pos: position{line: 2806, col: 13, offset: 89223},
 																				run: (*parser).callonNormalGroup55,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2807, col: 14, offset: 89245},
+																				pos:        position{line: 2809, col: 14, offset: 89316},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -45439,18 +45439,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2809, col: 12, offset: 89289},
+																		pos: position{line: 2811, col: 12, offset: 89360},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2809, col: 12, offset: 89289},
+																				pos:        position{line: 2811, col: 12, offset: 89360},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2809, col: 16, offset: 89293},
+																				pos: position{line: 2811, col: 16, offset: 89364},
 																				expr: &litMatcher{
-																					pos:        position{line: 2809, col: 17, offset: 89294},
+																					pos:        position{line: 2811, col: 17, offset: 89365},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -45462,25 +45462,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2887, col: 12, offset: 91417},
+															pos: position{line: 2889, col: 12, offset: 91488},
 															run: (*parser).callonNormalGroup61,
 															expr: &choiceExpr{
-																pos: position{line: 2887, col: 13, offset: 91418},
+																pos: position{line: 2889, col: 13, offset: 91489},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2887, col: 13, offset: 91418},
+																		pos:        position{line: 2889, col: 13, offset: 91489},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2887, col: 20, offset: 91425},
+																		pos:        position{line: 2889, col: 20, offset: 91496},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2887, col: 29, offset: 91434},
+																		pos:        position{line: 2889, col: 29, offset: 91505},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -45835,35 +45835,35 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2380, col: 15, offset: 77105},
+															pos:  position{line: 2382, col: 15, offset: 77176},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2381, col: 15, offset: 77125},
+															pos:  position{line: 2383, col: 15, offset: 77196},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2382, col: 15, offset: 77214},
+															pos:  position{line: 2384, col: 15, offset: 77285},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2472, col: 5, offset: 79678},
+															pos: position{line: 2474, col: 5, offset: 79749},
 															run: (*parser).callonNormalGroup138,
 															expr: &seqExpr{
-																pos: position{line: 2472, col: 5, offset: 79678},
+																pos: position{line: 2474, col: 5, offset: 79749},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2472, col: 5, offset: 79678},
+																		pos: position{line: 2474, col: 5, offset: 79749},
 																		run: (*parser).callonNormalGroup140,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2475, col: 5, offset: 79754},
+																		pos:   position{line: 2477, col: 5, offset: 79825},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2476, col: 9, offset: 79772},
+																			pos: position{line: 2478, col: 9, offset: 79843},
 																			run: (*parser).callonNormalGroup142,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2476, col: 10, offset: 79773},
+																				pos:        position{line: 2478, col: 10, offset: 79844},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -45897,10 +45897,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1219, col: 5, offset: 37756},
 																		expr: &actionExpr{
-																			pos: position{line: 2878, col: 10, offset: 91246},
+																			pos: position{line: 2880, col: 10, offset: 91317},
 																			run: (*parser).callonNormalGroup150,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2878, col: 10, offset: 91246},
+																				pos:        position{line: 2880, col: 10, offset: 91317},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45911,28 +45911,28 @@ var g = &grammar{
 																	&andExpr{
 																		pos: position{line: 1219, col: 12, offset: 37763},
 																		expr: &choiceExpr{
-																			pos: position{line: 2900, col: 8, offset: 91644},
+																			pos: position{line: 2902, col: 8, offset: 91715},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2887, col: 12, offset: 91417},
+																					pos: position{line: 2889, col: 12, offset: 91488},
 																					run: (*parser).callonNormalGroup154,
 																					expr: &choiceExpr{
-																						pos: position{line: 2887, col: 13, offset: 91418},
+																						pos: position{line: 2889, col: 13, offset: 91489},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2887, col: 13, offset: 91418},
+																								pos:        position{line: 2889, col: 13, offset: 91489},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2887, col: 20, offset: 91425},
+																								pos:        position{line: 2889, col: 20, offset: 91496},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2887, col: 29, offset: 91434},
+																								pos:        position{line: 2889, col: 29, offset: 91505},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -45941,9 +45941,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2897, col: 8, offset: 91594},
+																					pos: position{line: 2899, col: 8, offset: 91665},
 																					expr: &anyMatcher{
-																						line: 2897, col: 9, offset: 91595,
+																						line: 2899, col: 9, offset: 91666,
 																					},
 																				},
 																			},
@@ -45953,7 +45953,7 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2385, col: 15, offset: 77396},
+															pos:  position{line: 2387, col: 15, offset: 77467},
 															name: "InlinePassthrough",
 														},
 														&actionExpr{
@@ -46000,10 +46000,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2817, col: 12, offset: 89554},
+															pos: position{line: 2819, col: 12, offset: 89625},
 															run: (*parser).callonNormalGroup171,
 															expr: &charClassMatcher{
-																pos:        position{line: 2817, col: 12, offset: 89554},
+																pos:        position{line: 2819, col: 12, offset: 89625},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -46019,9 +46019,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2897, col: 8, offset: 91594},
+							pos: position{line: 2899, col: 8, offset: 91665},
 							expr: &anyMatcher{
-								line: 2897, col: 9, offset: 91595,
+								line: 2899, col: 9, offset: 91666,
 							},
 						},
 					},
@@ -46030,28 +46030,28 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2396, col: 1, offset: 77834},
+			pos:  position{line: 2398, col: 1, offset: 77905},
 			expr: &actionExpr{
-				pos: position{line: 2397, col: 5, offset: 77867},
+				pos: position{line: 2399, col: 5, offset: 77938},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2397, col: 5, offset: 77867},
+					pos: position{line: 2399, col: 5, offset: 77938},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2397, col: 5, offset: 77867},
+							pos:   position{line: 2399, col: 5, offset: 77938},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2397, col: 14, offset: 77876},
+								pos: position{line: 2399, col: 14, offset: 77947},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2397, col: 15, offset: 77877},
+									pos:  position{line: 2399, col: 15, offset: 77948},
 									name: "AttributeStructuredValueElement",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2897, col: 8, offset: 91594},
+							pos: position{line: 2899, col: 8, offset: 91665},
 							expr: &anyMatcher{
-								line: 2897, col: 9, offset: 91595,
+								line: 2899, col: 9, offset: 91666,
 							},
 						},
 					},
@@ -46060,41 +46060,41 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2401, col: 1, offset: 77974},
+			pos:  position{line: 2403, col: 1, offset: 78045},
 			expr: &actionExpr{
-				pos: position{line: 2402, col: 5, offset: 78014},
+				pos: position{line: 2404, col: 5, offset: 78085},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2402, col: 5, offset: 78014},
+					pos: position{line: 2404, col: 5, offset: 78085},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2895, col: 11, offset: 91580},
+							pos: position{line: 2897, col: 11, offset: 91651},
 							expr: &anyMatcher{
-								line: 2895, col: 13, offset: 91582,
+								line: 2897, col: 13, offset: 91653,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2403, col: 5, offset: 78025},
+							pos:   position{line: 2405, col: 5, offset: 78096},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2404, col: 9, offset: 78043},
+								pos: position{line: 2406, col: 9, offset: 78114},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2777, col: 5, offset: 88467},
+										pos: position{line: 2779, col: 5, offset: 88538},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2777, col: 5, offset: 88467},
+											pos: position{line: 2779, col: 5, offset: 88538},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2777, col: 5, offset: 88467},
+													pos:   position{line: 2779, col: 5, offset: 88538},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2777, col: 11, offset: 88473},
+														pos: position{line: 2779, col: 11, offset: 88544},
 														run: (*parser).callonAttributeStructuredValueElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2777, col: 11, offset: 88473},
+															pos: position{line: 2779, col: 11, offset: 88544},
 															expr: &charClassMatcher{
-																pos:        position{line: 2777, col: 11, offset: 88473},
+																pos:        position{line: 2779, col: 11, offset: 88544},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -46104,44 +46104,44 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2780, col: 5, offset: 88531},
+													pos: position{line: 2782, col: 5, offset: 88602},
 													expr: &seqExpr{
-														pos: position{line: 2781, col: 9, offset: 88542},
+														pos: position{line: 2783, col: 9, offset: 88613},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2781, col: 9, offset: 88542},
+																pos:        position{line: 2783, col: 9, offset: 88613},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2782, col: 9, offset: 88591},
+																pos: position{line: 2784, col: 9, offset: 88662},
 																run: (*parser).callonAttributeStructuredValueElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2786, col: 5, offset: 88671},
+													pos: position{line: 2788, col: 5, offset: 88742},
 													expr: &seqExpr{
-														pos: position{line: 2787, col: 9, offset: 88682},
+														pos: position{line: 2789, col: 9, offset: 88753},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2787, col: 9, offset: 88682},
+																pos: position{line: 2789, col: 9, offset: 88753},
 																expr: &seqExpr{
-																	pos: position{line: 2787, col: 10, offset: 88683},
+																	pos: position{line: 2789, col: 10, offset: 88754},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2787, col: 10, offset: 88683},
+																			pos:        position{line: 2789, col: 10, offset: 88754},
 																			val:        "[._%+-]",
 																			chars:      []rune{'.', '_', '%', '+', '-'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2787, col: 18, offset: 88691},
+																			pos: position{line: 2789, col: 18, offset: 88762},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2787, col: 18, offset: 88691},
+																				pos:        position{line: 2789, col: 18, offset: 88762},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -46152,13 +46152,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2787, col: 30, offset: 88703},
+																pos:        position{line: 2789, col: 30, offset: 88774},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2787, col: 34, offset: 88707},
+																pos:        position{line: 2789, col: 34, offset: 88778},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -46171,10 +46171,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2878, col: 10, offset: 91246},
+										pos: position{line: 2880, col: 10, offset: 91317},
 										run: (*parser).callonAttributeStructuredValueElement26,
 										expr: &charClassMatcher{
-											pos:        position{line: 2878, col: 10, offset: 91246},
+											pos:        position{line: 2880, col: 10, offset: 91317},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -46182,31 +46182,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2406, col: 11, offset: 78081},
+										pos:  position{line: 2408, col: 11, offset: 78152},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2795, col: 5, offset: 88900},
+										pos: position{line: 2797, col: 5, offset: 88971},
 										run: (*parser).callonAttributeStructuredValueElement29,
 										expr: &choiceExpr{
-											pos: position{line: 2796, col: 9, offset: 88910},
+											pos: position{line: 2798, col: 9, offset: 88981},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2796, col: 10, offset: 88911},
+													pos:        position{line: 2798, col: 10, offset: 88982},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2798, col: 13, offset: 89008},
+													pos: position{line: 2800, col: 13, offset: 89079},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2798, col: 13, offset: 89008},
+															pos: position{line: 2800, col: 13, offset: 89079},
 															run: (*parser).callonAttributeStructuredValueElement33,
 														},
 														&litMatcher{
-															pos:        position{line: 2801, col: 13, offset: 89108},
+															pos:        position{line: 2803, col: 13, offset: 89179},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -46214,20 +46214,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2801, col: 19, offset: 89114},
+													pos:        position{line: 2803, col: 19, offset: 89185},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2804, col: 13, offset: 89152},
+													pos: position{line: 2806, col: 13, offset: 89223},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2804, col: 13, offset: 89152},
+															pos: position{line: 2806, col: 13, offset: 89223},
 															run: (*parser).callonAttributeStructuredValueElement37,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2807, col: 14, offset: 89245},
+															pos:        position{line: 2809, col: 14, offset: 89316},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -46236,18 +46236,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2809, col: 12, offset: 89289},
+													pos: position{line: 2811, col: 12, offset: 89360},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2809, col: 12, offset: 89289},
+															pos:        position{line: 2811, col: 12, offset: 89360},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2809, col: 16, offset: 89293},
+															pos: position{line: 2811, col: 16, offset: 89364},
 															expr: &litMatcher{
-																pos:        position{line: 2809, col: 17, offset: 89294},
+																pos:        position{line: 2811, col: 17, offset: 89365},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -46259,31 +46259,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2408, col: 11, offset: 78154},
+										pos:  position{line: 2410, col: 11, offset: 78225},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2409, col: 11, offset: 78170},
+										pos:  position{line: 2411, col: 11, offset: 78241},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2472, col: 5, offset: 79678},
+										pos: position{line: 2474, col: 5, offset: 79749},
 										run: (*parser).callonAttributeStructuredValueElement45,
 										expr: &seqExpr{
-											pos: position{line: 2472, col: 5, offset: 79678},
+											pos: position{line: 2474, col: 5, offset: 79749},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2472, col: 5, offset: 79678},
+													pos: position{line: 2474, col: 5, offset: 79749},
 													run: (*parser).callonAttributeStructuredValueElement47,
 												},
 												&labeledExpr{
-													pos:   position{line: 2475, col: 5, offset: 79754},
+													pos:   position{line: 2477, col: 5, offset: 79825},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2476, col: 9, offset: 79772},
+														pos: position{line: 2478, col: 9, offset: 79843},
 														run: (*parser).callonAttributeStructuredValueElement49,
 														expr: &charClassMatcher{
-															pos:        position{line: 2476, col: 10, offset: 79773},
+															pos:        position{line: 2478, col: 10, offset: 79844},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -46338,25 +46338,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2887, col: 12, offset: 91417},
+										pos: position{line: 2889, col: 12, offset: 91488},
 										run: (*parser).callonAttributeStructuredValueElement60,
 										expr: &choiceExpr{
-											pos: position{line: 2887, col: 13, offset: 91418},
+											pos: position{line: 2889, col: 13, offset: 91489},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2887, col: 13, offset: 91418},
+													pos:        position{line: 2889, col: 13, offset: 91489},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2887, col: 20, offset: 91425},
+													pos:        position{line: 2889, col: 20, offset: 91496},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2887, col: 29, offset: 91434},
+													pos:        position{line: 2889, col: 29, offset: 91505},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -46365,10 +46365,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2817, col: 12, offset: 89554},
+										pos: position{line: 2819, col: 12, offset: 89625},
 										run: (*parser).callonAttributeStructuredValueElement65,
 										expr: &charClassMatcher{
-											pos:        position{line: 2817, col: 12, offset: 89554},
+											pos:        position{line: 2819, col: 12, offset: 89625},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -46384,49 +46384,49 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2420, col: 1, offset: 78440},
+			pos:  position{line: 2422, col: 1, offset: 78511},
 			expr: &actionExpr{
-				pos: position{line: 2422, col: 5, offset: 78522},
+				pos: position{line: 2424, col: 5, offset: 78593},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2422, col: 5, offset: 78522},
+					pos: position{line: 2424, col: 5, offset: 78593},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2422, col: 5, offset: 78522},
+							pos: position{line: 2424, col: 5, offset: 78593},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2425, col: 5, offset: 78587},
+							pos:   position{line: 2427, col: 5, offset: 78658},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2426, col: 9, offset: 78605},
+								pos: position{line: 2428, col: 9, offset: 78676},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2426, col: 9, offset: 78605},
+										pos:  position{line: 2428, col: 9, offset: 78676},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2427, col: 11, offset: 78626},
+										pos:  position{line: 2429, col: 11, offset: 78697},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2428, col: 11, offset: 78649},
+										pos:  position{line: 2430, col: 11, offset: 78720},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2429, col: 11, offset: 78665},
+										pos:  position{line: 2431, col: 11, offset: 78736},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2430, col: 11, offset: 78694},
+										pos:  position{line: 2432, col: 11, offset: 78765},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2431, col: 11, offset: 78720},
+										pos:  position{line: 2433, col: 11, offset: 78791},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2432, col: 11, offset: 78746},
+										pos:  position{line: 2434, col: 11, offset: 78817},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
@@ -46445,12 +46445,12 @@ var g = &grammar{
 													pos:   position{line: 1258, col: 14, offset: 38908},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2863, col: 7, offset: 90898},
+														pos: position{line: 2865, col: 7, offset: 90969},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2863, col: 7, offset: 90898},
+															pos: position{line: 2865, col: 7, offset: 90969},
 															expr: &charClassMatcher{
-																pos:        position{line: 2863, col: 7, offset: 90898},
+																pos:        position{line: 2865, col: 7, offset: 90969},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -46484,12 +46484,12 @@ var g = &grammar{
 													pos:   position{line: 1263, col: 10, offset: 39083},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2863, col: 7, offset: 90898},
+														pos: position{line: 2865, col: 7, offset: 90969},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2863, col: 7, offset: 90898},
+															pos: position{line: 2865, col: 7, offset: 90969},
 															expr: &charClassMatcher{
-																pos:        position{line: 2863, col: 7, offset: 90898},
+																pos:        position{line: 2865, col: 7, offset: 90969},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -46531,17 +46531,17 @@ var g = &grammar{
 																pos: position{line: 1309, col: 31, offset: 40905},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2768, col: 13, offset: 88320},
+																		pos:        position{line: 2770, col: 13, offset: 88391},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2878, col: 10, offset: 91246},
+																		pos: position{line: 2880, col: 10, offset: 91317},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2878, col: 10, offset: 91246},
+																			pos:        position{line: 2880, col: 10, offset: 91317},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -46567,10 +46567,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1303, col: 12, offset: 40619},
 																		expr: &actionExpr{
-																			pos: position{line: 2878, col: 10, offset: 91246},
+																			pos: position{line: 2880, col: 10, offset: 91317},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2878, col: 10, offset: 91246},
+																				pos:        position{line: 2880, col: 10, offset: 91317},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46587,10 +46587,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1303, col: 23, offset: 40630},
 																		expr: &actionExpr{
-																			pos: position{line: 2878, col: 10, offset: 91246},
+																			pos: position{line: 2880, col: 10, offset: 91317},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2878, col: 10, offset: 91246},
+																				pos:        position{line: 2880, col: 10, offset: 91317},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46610,17 +46610,17 @@ var g = &grammar{
 																					pos: position{line: 1309, col: 31, offset: 40905},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2768, col: 13, offset: 88320},
+																							pos:        position{line: 2770, col: 13, offset: 88391},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2878, col: 10, offset: 91246},
+																							pos: position{line: 2880, col: 10, offset: 91317},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2878, col: 10, offset: 91246},
+																								pos:        position{line: 2880, col: 10, offset: 91317},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -46651,10 +46651,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1304, col: 12, offset: 40711},
 																		expr: &actionExpr{
-																			pos: position{line: 2878, col: 10, offset: 91246},
+																			pos: position{line: 2880, col: 10, offset: 91317},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2878, col: 10, offset: 91246},
+																				pos:        position{line: 2880, col: 10, offset: 91317},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46671,10 +46671,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1304, col: 23, offset: 40722},
 																		expr: &actionExpr{
-																			pos: position{line: 2878, col: 10, offset: 91246},
+																			pos: position{line: 2880, col: 10, offset: 91317},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2878, col: 10, offset: 91246},
+																				pos:        position{line: 2880, col: 10, offset: 91317},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46694,17 +46694,17 @@ var g = &grammar{
 																					pos: position{line: 1309, col: 31, offset: 40905},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2768, col: 13, offset: 88320},
+																							pos:        position{line: 2770, col: 13, offset: 88391},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2878, col: 10, offset: 91246},
+																							pos: position{line: 2880, col: 10, offset: 91317},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2878, col: 10, offset: 91246},
+																								pos:        position{line: 2880, col: 10, offset: 91317},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -46731,15 +46731,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2435, col: 11, offset: 78825},
+										pos:  position{line: 2437, col: 11, offset: 78896},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2436, col: 11, offset: 78845},
+										pos:  position{line: 2438, col: 11, offset: 78916},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2437, col: 11, offset: 78868},
+										pos:  position{line: 2439, col: 11, offset: 78939},
 										name: "InlineMenu",
 									},
 								},
@@ -46751,22 +46751,22 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2441, col: 1, offset: 78925},
+			pos:  position{line: 2443, col: 1, offset: 78996},
 			expr: &actionExpr{
-				pos: position{line: 2443, col: 5, offset: 79013},
+				pos: position{line: 2445, col: 5, offset: 79084},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2443, col: 5, offset: 79013},
+					pos: position{line: 2445, col: 5, offset: 79084},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2443, col: 5, offset: 79013},
+							pos: position{line: 2445, col: 5, offset: 79084},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2446, col: 5, offset: 79090},
+							pos:   position{line: 2448, col: 5, offset: 79161},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2447, col: 9, offset: 79108},
+								pos: position{line: 2449, col: 9, offset: 79179},
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 1384, col: 26, offset: 44242},
@@ -46821,10 +46821,10 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1390, col: 12, offset: 44688},
 																				expr: &actionExpr{
-																					pos: position{line: 2878, col: 10, offset: 91246},
+																					pos: position{line: 2880, col: 10, offset: 91317},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2878, col: 10, offset: 91246},
+																						pos:        position{line: 2880, col: 10, offset: 91317},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -46835,25 +46835,25 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1390, col: 19, offset: 44695},
 																				expr: &actionExpr{
-																					pos: position{line: 2887, col: 12, offset: 91417},
+																					pos: position{line: 2889, col: 12, offset: 91488},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2887, col: 13, offset: 91418},
+																						pos: position{line: 2889, col: 13, offset: 91489},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2887, col: 13, offset: 91418},
+																								pos:        position{line: 2889, col: 13, offset: 91489},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2887, col: 20, offset: 91425},
+																								pos:        position{line: 2889, col: 20, offset: 91496},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2887, col: 29, offset: 91434},
+																								pos:        position{line: 2889, col: 29, offset: 91505},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -46890,7 +46890,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1384, col: 121, offset: 44337},
 													expr: &charClassMatcher{
-														pos:        position{line: 2768, col: 13, offset: 88320},
+														pos:        position{line: 2770, col: 13, offset: 88391},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -46936,10 +46936,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1376, col: 64, offset: 43797},
 																			expr: &actionExpr{
-																				pos: position{line: 2878, col: 10, offset: 91246},
+																				pos: position{line: 2880, col: 10, offset: 91317},
 																				run: (*parser).callonInlinePassthrough45,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2878, col: 10, offset: 91246},
+																					pos:        position{line: 2880, col: 10, offset: 91317},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -46950,25 +46950,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1376, col: 71, offset: 43804},
 																			expr: &actionExpr{
-																				pos: position{line: 2887, col: 12, offset: 91417},
+																				pos: position{line: 2889, col: 12, offset: 91488},
 																				run: (*parser).callonInlinePassthrough48,
 																				expr: &choiceExpr{
-																					pos: position{line: 2887, col: 13, offset: 91418},
+																					pos: position{line: 2889, col: 13, offset: 91489},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 13, offset: 91418},
+																							pos:        position{line: 2889, col: 13, offset: 91489},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 20, offset: 91425},
+																							pos:        position{line: 2889, col: 20, offset: 91496},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 29, offset: 91434},
+																							pos:        position{line: 2889, col: 29, offset: 91505},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -46991,12 +46991,12 @@ var g = &grammar{
 																							pos: position{line: 1376, col: 86, offset: 43819},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2882, col: 11, offset: 91307},
+																									pos: position{line: 2884, col: 11, offset: 91378},
 																									run: (*parser).callonInlinePassthrough58,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2882, col: 11, offset: 91307},
+																										pos: position{line: 2884, col: 11, offset: 91378},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2882, col: 11, offset: 91307},
+																											pos:        position{line: 2884, col: 11, offset: 91378},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -47025,25 +47025,25 @@ var g = &grammar{
 																					&notExpr{
 																						pos: position{line: 1376, col: 151, offset: 43884},
 																						expr: &actionExpr{
-																							pos: position{line: 2887, col: 12, offset: 91417},
+																							pos: position{line: 2889, col: 12, offset: 91488},
 																							run: (*parser).callonInlinePassthrough65,
 																							expr: &choiceExpr{
-																								pos: position{line: 2887, col: 13, offset: 91418},
+																								pos: position{line: 2889, col: 13, offset: 91489},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2887, col: 13, offset: 91418},
+																										pos:        position{line: 2889, col: 13, offset: 91489},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2887, col: 20, offset: 91425},
+																										pos:        position{line: 2889, col: 20, offset: 91496},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2887, col: 29, offset: 91434},
+																										pos:        position{line: 2889, col: 29, offset: 91505},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -47070,10 +47070,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1378, col: 12, offset: 44044},
 																			expr: &actionExpr{
-																				pos: position{line: 2878, col: 10, offset: 91246},
+																				pos: position{line: 2880, col: 10, offset: 91317},
 																				run: (*parser).callonInlinePassthrough74,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2878, col: 10, offset: 91246},
+																					pos:        position{line: 2880, col: 10, offset: 91317},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -47084,25 +47084,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1378, col: 19, offset: 44051},
 																			expr: &actionExpr{
-																				pos: position{line: 2887, col: 12, offset: 91417},
+																				pos: position{line: 2889, col: 12, offset: 91488},
 																				run: (*parser).callonInlinePassthrough77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2887, col: 13, offset: 91418},
+																					pos: position{line: 2889, col: 13, offset: 91489},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 13, offset: 91418},
+																							pos:        position{line: 2889, col: 13, offset: 91489},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 20, offset: 91425},
+																							pos:        position{line: 2889, col: 20, offset: 91496},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2887, col: 29, offset: 91434},
+																							pos:        position{line: 2889, col: 29, offset: 91505},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -47138,7 +47138,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1372, col: 121, offset: 43620},
 													expr: &charClassMatcher{
-														pos:        position{line: 2768, col: 13, offset: 88320},
+														pos:        position{line: 2770, col: 13, offset: 88391},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -47149,7 +47149,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2447, col: 57, offset: 79156},
+										pos:  position{line: 2449, col: 57, offset: 79227},
 										name: "PassthroughMacro",
 									},
 								},
@@ -47161,16 +47161,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2452, col: 1, offset: 79216},
+			pos:  position{line: 2454, col: 1, offset: 79287},
 			expr: &seqExpr{
-				pos: position{line: 2454, col: 5, offset: 79292},
+				pos: position{line: 2456, col: 5, offset: 79363},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2454, col: 5, offset: 79292},
+						pos: position{line: 2456, col: 5, offset: 79363},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2457, col: 5, offset: 79357},
+						pos:  position{line: 2459, col: 5, offset: 79428},
 						name: "QuotedText",
 					},
 				},
@@ -47178,22 +47178,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2459, col: 1, offset: 79370},
+			pos:  position{line: 2461, col: 1, offset: 79441},
 			expr: &actionExpr{
-				pos: position{line: 2461, col: 5, offset: 79452},
+				pos: position{line: 2463, col: 5, offset: 79523},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2461, col: 5, offset: 79452},
+					pos: position{line: 2463, col: 5, offset: 79523},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2461, col: 5, offset: 79452},
+							pos: position{line: 2463, col: 5, offset: 79523},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2464, col: 5, offset: 79523},
+							pos:   position{line: 2466, col: 5, offset: 79594},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2465, col: 9, offset: 79541},
+								pos:  position{line: 2467, col: 9, offset: 79612},
 								name: "Symbol",
 							},
 						},
@@ -47203,93 +47203,93 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2523, col: 1, offset: 81371},
+			pos:  position{line: 2525, col: 1, offset: 81442},
 			expr: &choiceExpr{
-				pos: position{line: 2525, col: 5, offset: 81401},
+				pos: position{line: 2527, col: 5, offset: 81472},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2525, col: 5, offset: 81401},
+						pos: position{line: 2527, col: 5, offset: 81472},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2525, col: 5, offset: 81401},
+							pos: position{line: 2527, col: 5, offset: 81472},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2525, col: 5, offset: 81401},
+									pos:        position{line: 2527, col: 5, offset: 81472},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2525, col: 10, offset: 81406},
+									pos: position{line: 2527, col: 10, offset: 81477},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2525, col: 10, offset: 81406},
+											pos:  position{line: 2527, col: 10, offset: 81477},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2554, col: 14, offset: 82540},
+											pos: position{line: 2556, col: 14, offset: 82611},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2554, col: 14, offset: 82540},
+												pos:        position{line: 2556, col: 14, offset: 82611},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2558, col: 14, offset: 82606},
+											pos: position{line: 2560, col: 14, offset: 82677},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2558, col: 14, offset: 82606},
+												pos:        position{line: 2560, col: 14, offset: 82677},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2562, col: 15, offset: 82675},
+											pos: position{line: 2564, col: 15, offset: 82746},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2562, col: 15, offset: 82675},
+												pos:        position{line: 2564, col: 15, offset: 82746},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2566, col: 13, offset: 82740},
+											pos: position{line: 2568, col: 13, offset: 82811},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2566, col: 13, offset: 82740},
+												pos:        position{line: 2568, col: 13, offset: 82811},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2573, col: 5, offset: 82878},
+											pos: position{line: 2575, col: 5, offset: 82949},
 											run: (*parser).callonSymbol15,
 											expr: &seqExpr{
-												pos: position{line: 2573, col: 5, offset: 82878},
+												pos: position{line: 2575, col: 5, offset: 82949},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2573, col: 5, offset: 82878},
+														pos:        position{line: 2575, col: 5, offset: 82949},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2574, col: 5, offset: 82888},
+														pos: position{line: 2576, col: 5, offset: 82959},
 														run: (*parser).callonSymbol18,
 													},
 													&choiceExpr{
-														pos: position{line: 2578, col: 6, offset: 82975},
+														pos: position{line: 2580, col: 6, offset: 83046},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2878, col: 10, offset: 91246},
+																pos: position{line: 2880, col: 10, offset: 91317},
 																run: (*parser).callonSymbol20,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2878, col: 10, offset: 91246},
+																	pos:        position{line: 2880, col: 10, offset: 91317},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -47297,30 +47297,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2578, col: 14, offset: 82983},
+																pos: position{line: 2580, col: 14, offset: 83054},
 																expr: &choiceExpr{
-																	pos: position{line: 2900, col: 8, offset: 91644},
+																	pos: position{line: 2902, col: 8, offset: 91715},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2887, col: 12, offset: 91417},
+																			pos: position{line: 2889, col: 12, offset: 91488},
 																			run: (*parser).callonSymbol24,
 																			expr: &choiceExpr{
-																				pos: position{line: 2887, col: 13, offset: 91418},
+																				pos: position{line: 2889, col: 13, offset: 91489},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 13, offset: 91418},
+																						pos:        position{line: 2889, col: 13, offset: 91489},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 20, offset: 91425},
+																						pos:        position{line: 2889, col: 20, offset: 91496},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2887, col: 29, offset: 91434},
+																						pos:        position{line: 2889, col: 29, offset: 91505},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -47329,9 +47329,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2897, col: 8, offset: 91594},
+																			pos: position{line: 2899, col: 8, offset: 91665},
 																			expr: &anyMatcher{
-																				line: 2897, col: 9, offset: 91595,
+																				line: 2899, col: 9, offset: 91666,
 																			},
 																		},
 																	},
@@ -47343,53 +47343,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2583, col: 5, offset: 83103},
+											pos: position{line: 2585, col: 5, offset: 83174},
 											run: (*parser).callonSymbol31,
 											expr: &seqExpr{
-												pos: position{line: 2583, col: 5, offset: 83103},
+												pos: position{line: 2585, col: 5, offset: 83174},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2583, col: 5, offset: 83103},
+														pos:        position{line: 2585, col: 5, offset: 83174},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2584, col: 5, offset: 83113},
+														pos: position{line: 2586, col: 5, offset: 83184},
 														run: (*parser).callonSymbol34,
 													},
 													&andExpr{
-														pos: position{line: 2588, col: 5, offset: 83202},
+														pos: position{line: 2590, col: 5, offset: 83273},
 														expr: &choiceExpr{
-															pos: position{line: 2588, col: 7, offset: 83204},
+															pos: position{line: 2590, col: 7, offset: 83275},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2768, col: 13, offset: 88320},
+																	pos:        position{line: 2770, col: 13, offset: 88391},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2887, col: 12, offset: 91417},
+																	pos: position{line: 2889, col: 12, offset: 91488},
 																	run: (*parser).callonSymbol38,
 																	expr: &choiceExpr{
-																		pos: position{line: 2887, col: 13, offset: 91418},
+																		pos: position{line: 2889, col: 13, offset: 91489},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2887, col: 13, offset: 91418},
+																				pos:        position{line: 2889, col: 13, offset: 91489},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2887, col: 20, offset: 91425},
+																				pos:        position{line: 2889, col: 20, offset: 91496},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2887, col: 29, offset: 91434},
+																				pos:        position{line: 2889, col: 29, offset: 91505},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -47398,9 +47398,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2897, col: 8, offset: 91594},
+																	pos: position{line: 2899, col: 8, offset: 91665},
 																	expr: &anyMatcher{
-																		line: 2897, col: 9, offset: 91595,
+																		line: 2899, col: 9, offset: 91666,
 																	},
 																},
 															},
@@ -47415,63 +47415,63 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2528, col: 7, offset: 81570},
+						pos: position{line: 2530, col: 7, offset: 81641},
 						run: (*parser).callonSymbol45,
 						expr: &seqExpr{
-							pos: position{line: 2528, col: 7, offset: 81570},
+							pos: position{line: 2530, col: 7, offset: 81641},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2528, col: 7, offset: 81570},
+									pos:        position{line: 2530, col: 7, offset: 81641},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2528, col: 11, offset: 81574},
+									pos:   position{line: 2530, col: 11, offset: 81645},
 									label: "elements",
 									expr: &choiceExpr{
-										pos: position{line: 2528, col: 21, offset: 81584},
+										pos: position{line: 2530, col: 21, offset: 81655},
 										alternatives: []interface{}{
 											&seqExpr{
-												pos: position{line: 2528, col: 21, offset: 81584},
+												pos: position{line: 2530, col: 21, offset: 81655},
 												exprs: []interface{}{
 													&charClassMatcher{
-														pos:        position{line: 2528, col: 21, offset: 81584},
+														pos:        position{line: 2530, col: 21, offset: 81655},
 														val:        "[-=]",
 														chars:      []rune{'-', '='},
 														ignoreCase: false,
 														inverted:   false,
 													},
 													&andExpr{
-														pos: position{line: 2528, col: 26, offset: 81589},
+														pos: position{line: 2530, col: 26, offset: 81660},
 														expr: &litMatcher{
-															pos:        position{line: 2528, col: 27, offset: 81590},
+															pos:        position{line: 2530, col: 27, offset: 81661},
 															val:        ">",
 															ignoreCase: false,
 															want:       "\">\"",
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2528, col: 32, offset: 81595},
+														pos: position{line: 2530, col: 32, offset: 81666},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2472, col: 5, offset: 79678},
+																pos: position{line: 2474, col: 5, offset: 79749},
 																run: (*parser).callonSymbol55,
 																expr: &seqExpr{
-																	pos: position{line: 2472, col: 5, offset: 79678},
+																	pos: position{line: 2474, col: 5, offset: 79749},
 																	exprs: []interface{}{
 																		&andCodeExpr{
-																			pos: position{line: 2472, col: 5, offset: 79678},
+																			pos: position{line: 2474, col: 5, offset: 79749},
 																			run: (*parser).callonSymbol57,
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 2475, col: 5, offset: 79754},
+																			pos:   position{line: 2477, col: 5, offset: 79825},
 																			label: "element",
 																			expr: &actionExpr{
-																				pos: position{line: 2476, col: 9, offset: 79772},
+																				pos: position{line: 2478, col: 9, offset: 79843},
 																				run: (*parser).callonSymbol59,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2476, col: 10, offset: 79773},
+																					pos:        position{line: 2478, col: 10, offset: 79844},
 																					val:        "[<>&]",
 																					chars:      []rune{'<', '>', '&'},
 																					ignoreCase: false,
@@ -47483,28 +47483,28 @@ var g = &grammar{
 																},
 															},
 															&anyMatcher{
-																line: 2528, col: 51, offset: 81614,
+																line: 2530, col: 51, offset: 81685,
 															},
 														},
 													},
 												},
 											},
 											&seqExpr{
-												pos: position{line: 2528, col: 56, offset: 81619},
+												pos: position{line: 2530, col: 56, offset: 81690},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2528, col: 56, offset: 81619},
+														pos: position{line: 2530, col: 56, offset: 81690},
 														expr: &choiceExpr{
-															pos: position{line: 2528, col: 58, offset: 81621},
+															pos: position{line: 2530, col: 58, offset: 81692},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2528, col: 58, offset: 81621},
+																	pos:        position{line: 2530, col: 58, offset: 81692},
 																	val:        "<-",
 																	ignoreCase: false,
 																	want:       "\"<-\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2528, col: 65, offset: 81628},
+																	pos:        position{line: 2530, col: 65, offset: 81699},
 																	val:        "<=",
 																	ignoreCase: false,
 																	want:       "\"<=\"",
@@ -47513,26 +47513,26 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2528, col: 72, offset: 81635},
+														pos: position{line: 2530, col: 72, offset: 81706},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2472, col: 5, offset: 79678},
+																pos: position{line: 2474, col: 5, offset: 79749},
 																run: (*parser).callonSymbol68,
 																expr: &seqExpr{
-																	pos: position{line: 2472, col: 5, offset: 79678},
+																	pos: position{line: 2474, col: 5, offset: 79749},
 																	exprs: []interface{}{
 																		&andCodeExpr{
-																			pos: position{line: 2472, col: 5, offset: 79678},
+																			pos: position{line: 2474, col: 5, offset: 79749},
 																			run: (*parser).callonSymbol70,
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 2475, col: 5, offset: 79754},
+																			pos:   position{line: 2477, col: 5, offset: 79825},
 																			label: "element",
 																			expr: &actionExpr{
-																				pos: position{line: 2476, col: 9, offset: 79772},
+																				pos: position{line: 2478, col: 9, offset: 79843},
 																				run: (*parser).callonSymbol72,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2476, col: 10, offset: 79773},
+																					pos:        position{line: 2478, col: 10, offset: 79844},
 																					val:        "[<>&]",
 																					chars:      []rune{'<', '>', '&'},
 																					ignoreCase: false,
@@ -47544,12 +47544,12 @@ var g = &grammar{
 																},
 															},
 															&anyMatcher{
-																line: 2528, col: 91, offset: 81654,
+																line: 2530, col: 91, offset: 81725,
 															},
 														},
 													},
 													&anyMatcher{
-														line: 2528, col: 94, offset: 81657,
+														line: 2530, col: 94, offset: 81728,
 													},
 												},
 											},
@@ -47560,73 +47560,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2529, col: 7, offset: 81691},
+						pos:  position{line: 2531, col: 7, offset: 81762},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2554, col: 14, offset: 82540},
+						pos: position{line: 2556, col: 14, offset: 82611},
 						run: (*parser).callonSymbol77,
 						expr: &litMatcher{
-							pos:        position{line: 2554, col: 14, offset: 82540},
+							pos:        position{line: 2556, col: 14, offset: 82611},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2558, col: 14, offset: 82606},
+						pos: position{line: 2560, col: 14, offset: 82677},
 						run: (*parser).callonSymbol79,
 						expr: &litMatcher{
-							pos:        position{line: 2558, col: 14, offset: 82606},
+							pos:        position{line: 2560, col: 14, offset: 82677},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2562, col: 15, offset: 82675},
+						pos: position{line: 2564, col: 15, offset: 82746},
 						run: (*parser).callonSymbol81,
 						expr: &litMatcher{
-							pos:        position{line: 2562, col: 15, offset: 82675},
+							pos:        position{line: 2564, col: 15, offset: 82746},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2566, col: 13, offset: 82740},
+						pos: position{line: 2568, col: 13, offset: 82811},
 						run: (*parser).callonSymbol83,
 						expr: &litMatcher{
-							pos:        position{line: 2566, col: 13, offset: 82740},
+							pos:        position{line: 2568, col: 13, offset: 82811},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2573, col: 5, offset: 82878},
+						pos: position{line: 2575, col: 5, offset: 82949},
 						run: (*parser).callonSymbol85,
 						expr: &seqExpr{
-							pos: position{line: 2573, col: 5, offset: 82878},
+							pos: position{line: 2575, col: 5, offset: 82949},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2573, col: 5, offset: 82878},
+									pos:        position{line: 2575, col: 5, offset: 82949},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2574, col: 5, offset: 82888},
+									pos: position{line: 2576, col: 5, offset: 82959},
 									run: (*parser).callonSymbol88,
 								},
 								&choiceExpr{
-									pos: position{line: 2578, col: 6, offset: 82975},
+									pos: position{line: 2580, col: 6, offset: 83046},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2878, col: 10, offset: 91246},
+											pos: position{line: 2880, col: 10, offset: 91317},
 											run: (*parser).callonSymbol90,
 											expr: &charClassMatcher{
-												pos:        position{line: 2878, col: 10, offset: 91246},
+												pos:        position{line: 2880, col: 10, offset: 91317},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -47634,30 +47634,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2578, col: 14, offset: 82983},
+											pos: position{line: 2580, col: 14, offset: 83054},
 											expr: &choiceExpr{
-												pos: position{line: 2900, col: 8, offset: 91644},
+												pos: position{line: 2902, col: 8, offset: 91715},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2887, col: 12, offset: 91417},
+														pos: position{line: 2889, col: 12, offset: 91488},
 														run: (*parser).callonSymbol94,
 														expr: &choiceExpr{
-															pos: position{line: 2887, col: 13, offset: 91418},
+															pos: position{line: 2889, col: 13, offset: 91489},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2887, col: 13, offset: 91418},
+																	pos:        position{line: 2889, col: 13, offset: 91489},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2887, col: 20, offset: 91425},
+																	pos:        position{line: 2889, col: 20, offset: 91496},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2887, col: 29, offset: 91434},
+																	pos:        position{line: 2889, col: 29, offset: 91505},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -47666,9 +47666,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2897, col: 8, offset: 91594},
+														pos: position{line: 2899, col: 8, offset: 91665},
 														expr: &anyMatcher{
-															line: 2897, col: 9, offset: 91595,
+															line: 2899, col: 9, offset: 91666,
 														},
 													},
 												},
@@ -47680,53 +47680,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2583, col: 5, offset: 83103},
+						pos: position{line: 2585, col: 5, offset: 83174},
 						run: (*parser).callonSymbol101,
 						expr: &seqExpr{
-							pos: position{line: 2583, col: 5, offset: 83103},
+							pos: position{line: 2585, col: 5, offset: 83174},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2583, col: 5, offset: 83103},
+									pos:        position{line: 2585, col: 5, offset: 83174},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2584, col: 5, offset: 83113},
+									pos: position{line: 2586, col: 5, offset: 83184},
 									run: (*parser).callonSymbol104,
 								},
 								&andExpr{
-									pos: position{line: 2588, col: 5, offset: 83202},
+									pos: position{line: 2590, col: 5, offset: 83273},
 									expr: &choiceExpr{
-										pos: position{line: 2588, col: 7, offset: 83204},
+										pos: position{line: 2590, col: 7, offset: 83275},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2768, col: 13, offset: 88320},
+												pos:        position{line: 2770, col: 13, offset: 88391},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2887, col: 12, offset: 91417},
+												pos: position{line: 2889, col: 12, offset: 91488},
 												run: (*parser).callonSymbol108,
 												expr: &choiceExpr{
-													pos: position{line: 2887, col: 13, offset: 91418},
+													pos: position{line: 2889, col: 13, offset: 91489},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2887, col: 13, offset: 91418},
+															pos:        position{line: 2889, col: 13, offset: 91489},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2887, col: 20, offset: 91425},
+															pos:        position{line: 2889, col: 20, offset: 91496},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2887, col: 29, offset: 91434},
+															pos:        position{line: 2889, col: 29, offset: 91505},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -47735,9 +47735,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2897, col: 8, offset: 91594},
+												pos: position{line: 2899, col: 8, offset: 91665},
 												expr: &anyMatcher{
-													line: 2897, col: 9, offset: 91595,
+													line: 2899, col: 9, offset: 91666,
 												},
 											},
 										},
@@ -47747,40 +47747,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2594, col: 21, offset: 83292},
+						pos: position{line: 2596, col: 21, offset: 83363},
 						run: (*parser).callonSymbol115,
 						expr: &litMatcher{
-							pos:        position{line: 2594, col: 21, offset: 83292},
+							pos:        position{line: 2596, col: 21, offset: 83363},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2598, col: 20, offset: 83362},
+						pos: position{line: 2600, col: 20, offset: 83433},
 						run: (*parser).callonSymbol117,
 						expr: &litMatcher{
-							pos:        position{line: 2598, col: 20, offset: 83362},
+							pos:        position{line: 2600, col: 20, offset: 83433},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2602, col: 21, offset: 83433},
+						pos: position{line: 2604, col: 21, offset: 83504},
 						run: (*parser).callonSymbol119,
 						expr: &litMatcher{
-							pos:        position{line: 2602, col: 21, offset: 83433},
+							pos:        position{line: 2604, col: 21, offset: 83504},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2606, col: 20, offset: 83503},
+						pos: position{line: 2608, col: 20, offset: 83574},
 						run: (*parser).callonSymbol121,
 						expr: &litMatcher{
-							pos:        position{line: 2606, col: 20, offset: 83503},
+							pos:        position{line: 2608, col: 20, offset: 83574},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -47791,24 +47791,24 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2540, col: 1, offset: 81881},
+			pos:  position{line: 2542, col: 1, offset: 81952},
 			expr: &choiceExpr{
-				pos: position{line: 2541, col: 5, offset: 81903},
+				pos: position{line: 2543, col: 5, offset: 81974},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2541, col: 5, offset: 81903},
+						pos: position{line: 2543, col: 5, offset: 81974},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2541, col: 5, offset: 81903},
+							pos: position{line: 2543, col: 5, offset: 81974},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2541, col: 5, offset: 81903},
+									pos:        position{line: 2543, col: 5, offset: 81974},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2541, col: 11, offset: 81909},
+									pos: position{line: 2543, col: 11, offset: 81980},
 									expr: &seqExpr{
 										pos: position{line: 2091, col: 5, offset: 67815},
 										exprs: []interface{}{
@@ -47841,21 +47841,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2544, col: 7, offset: 82062},
+						pos: position{line: 2546, col: 7, offset: 82133},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2544, col: 7, offset: 82062},
+							pos: position{line: 2546, col: 7, offset: 82133},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2544, col: 7, offset: 82062},
+									pos:        position{line: 2546, col: 7, offset: 82133},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2544, col: 13, offset: 82068},
+									pos: position{line: 2546, col: 13, offset: 82139},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2544, col: 14, offset: 82069},
+										pos:  position{line: 2546, col: 14, offset: 82140},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -47863,19 +47863,19 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2547, col: 7, offset: 82219},
+						pos: position{line: 2549, col: 7, offset: 82290},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2547, col: 7, offset: 82219},
+							pos: position{line: 2549, col: 7, offset: 82290},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2547, col: 7, offset: 82219},
+									pos:        position{line: 2549, col: 7, offset: 82290},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2547, col: 12, offset: 82224},
+									pos: position{line: 2549, col: 12, offset: 82295},
 									expr: &seqExpr{
 										pos: position{line: 2091, col: 5, offset: 67815},
 										exprs: []interface{}{
@@ -47908,21 +47908,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2550, col: 7, offset: 82377},
+						pos: position{line: 2552, col: 7, offset: 82448},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2550, col: 7, offset: 82377},
+							pos: position{line: 2552, col: 7, offset: 82448},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2550, col: 7, offset: 82377},
+									pos:        position{line: 2552, col: 7, offset: 82448},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2550, col: 12, offset: 82382},
+									pos: position{line: 2552, col: 12, offset: 82453},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2550, col: 13, offset: 82383},
+										pos:  position{line: 2552, col: 13, offset: 82454},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -47934,63 +47934,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2683, col: 1, offset: 85405},
+			pos:  position{line: 2685, col: 1, offset: 85476},
 			expr: &actionExpr{
-				pos: position{line: 2683, col: 26, offset: 85430},
+				pos: position{line: 2685, col: 26, offset: 85501},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2683, col: 26, offset: 85430},
+					pos: position{line: 2685, col: 26, offset: 85501},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2683, col: 26, offset: 85430},
+							pos:   position{line: 2685, col: 26, offset: 85501},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2683, col: 31, offset: 85435},
+								pos: position{line: 2685, col: 31, offset: 85506},
 								expr: &actionExpr{
-									pos: position{line: 2688, col: 5, offset: 85498},
+									pos: position{line: 2690, col: 5, offset: 85569},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2688, col: 5, offset: 85498},
+										pos: position{line: 2690, col: 5, offset: 85569},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2895, col: 11, offset: 91580},
+												pos: position{line: 2897, col: 11, offset: 91651},
 												expr: &anyMatcher{
-													line: 2895, col: 13, offset: 91582,
+													line: 2897, col: 13, offset: 91653,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2691, col: 5, offset: 85624},
+												pos:   position{line: 2693, col: 5, offset: 85695},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2691, col: 16, offset: 85635},
+													pos: position{line: 2693, col: 16, offset: 85706},
 													expr: &actionExpr{
-														pos: position{line: 2691, col: 17, offset: 85636},
+														pos: position{line: 2693, col: 17, offset: 85707},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2691, col: 17, offset: 85636},
+															pos: position{line: 2693, col: 17, offset: 85707},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2691, col: 17, offset: 85636},
+																	pos:   position{line: 2693, col: 17, offset: 85707},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2870, col: 12, offset: 91073},
+																		pos: position{line: 2872, col: 12, offset: 91144},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2870, col: 13, offset: 91074},
+																			pos: position{line: 2872, col: 13, offset: 91145},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2870, col: 13, offset: 91074},
+																					pos: position{line: 2872, col: 13, offset: 91145},
 																					expr: &litMatcher{
-																						pos:        position{line: 2870, col: 13, offset: 91074},
+																						pos:        position{line: 2872, col: 13, offset: 91145},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2870, col: 18, offset: 91079},
+																					pos: position{line: 2872, col: 18, offset: 91150},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2870, col: 18, offset: 91079},
+																						pos:        position{line: 2872, col: 18, offset: 91150},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -48002,7 +48002,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2691, col: 27, offset: 85646},
+																	pos:        position{line: 2693, col: 27, offset: 85717},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -48013,38 +48013,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2692, col: 5, offset: 85674},
+												pos:   position{line: 2694, col: 5, offset: 85745},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2692, col: 12, offset: 85681},
+													pos: position{line: 2694, col: 12, offset: 85752},
 													expr: &choiceExpr{
-														pos: position{line: 2693, col: 9, offset: 85691},
+														pos: position{line: 2695, col: 9, offset: 85762},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2693, col: 9, offset: 85691},
+																pos: position{line: 2695, col: 9, offset: 85762},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2693, col: 9, offset: 85691},
+																	pos:        position{line: 2695, col: 9, offset: 85762},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2694, col: 11, offset: 85738},
+																pos: position{line: 2696, col: 11, offset: 85809},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2694, col: 11, offset: 85738},
+																	pos:        position{line: 2696, col: 11, offset: 85809},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2695, col: 11, offset: 85786},
+																pos: position{line: 2697, col: 11, offset: 85857},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2695, col: 11, offset: 85786},
+																	pos:        position{line: 2697, col: 11, offset: 85857},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -48055,38 +48055,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2697, col: 5, offset: 85836},
+												pos:   position{line: 2699, col: 5, offset: 85907},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2697, col: 12, offset: 85843},
+													pos: position{line: 2699, col: 12, offset: 85914},
 													expr: &choiceExpr{
-														pos: position{line: 2698, col: 9, offset: 85853},
+														pos: position{line: 2700, col: 9, offset: 85924},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2698, col: 9, offset: 85853},
+																pos: position{line: 2700, col: 9, offset: 85924},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2698, col: 9, offset: 85853},
+																	pos:        position{line: 2700, col: 9, offset: 85924},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2699, col: 11, offset: 85900},
+																pos: position{line: 2701, col: 11, offset: 85971},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2699, col: 11, offset: 85900},
+																	pos:        position{line: 2701, col: 11, offset: 85971},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2700, col: 11, offset: 85950},
+																pos: position{line: 2702, col: 11, offset: 86021},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2700, col: 11, offset: 85950},
+																	pos:        position{line: 2702, col: 11, offset: 86021},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -48097,32 +48097,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2702, col: 5, offset: 86001},
+												pos:   position{line: 2704, col: 5, offset: 86072},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2702, col: 12, offset: 86008},
+													pos: position{line: 2704, col: 12, offset: 86079},
 													expr: &choiceExpr{
-														pos: position{line: 2702, col: 13, offset: 86009},
+														pos: position{line: 2704, col: 13, offset: 86080},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2870, col: 12, offset: 91073},
+																pos: position{line: 2872, col: 12, offset: 91144},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2870, col: 13, offset: 91074},
+																	pos: position{line: 2872, col: 13, offset: 91145},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2870, col: 13, offset: 91074},
+																			pos: position{line: 2872, col: 13, offset: 91145},
 																			expr: &litMatcher{
-																				pos:        position{line: 2870, col: 13, offset: 91074},
+																				pos:        position{line: 2872, col: 13, offset: 91145},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2870, col: 18, offset: 91079},
+																			pos: position{line: 2872, col: 18, offset: 91150},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2870, col: 18, offset: 91079},
+																				pos:        position{line: 2872, col: 18, offset: 91150},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -48133,10 +48133,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2702, col: 24, offset: 86020},
+																pos: position{line: 2704, col: 24, offset: 86091},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2702, col: 24, offset: 86020},
+																	pos:        position{line: 2704, col: 24, offset: 86091},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -48147,15 +48147,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2703, col: 5, offset: 86062},
+												pos:   position{line: 2705, col: 5, offset: 86133},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2703, col: 11, offset: 86068},
+													pos: position{line: 2705, col: 11, offset: 86139},
 													expr: &actionExpr{
-														pos: position{line: 2703, col: 12, offset: 86069},
+														pos: position{line: 2705, col: 12, offset: 86140},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2703, col: 12, offset: 86069},
+															pos:        position{line: 2705, col: 12, offset: 86140},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -48165,12 +48165,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2705, col: 5, offset: 86199},
+												pos:   position{line: 2707, col: 5, offset: 86270},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2705, col: 11, offset: 86205},
+													pos: position{line: 2707, col: 11, offset: 86276},
 													expr: &litMatcher{
-														pos:        position{line: 2705, col: 12, offset: 86206},
+														pos:        position{line: 2707, col: 12, offset: 86277},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -48178,7 +48178,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2706, col: 5, offset: 86216},
+												pos: position{line: 2708, col: 5, offset: 86287},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -48187,9 +48187,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2897, col: 8, offset: 91594},
+							pos: position{line: 2899, col: 8, offset: 91665},
 							expr: &anyMatcher{
-								line: 2897, col: 9, offset: 91595,
+								line: 2899, col: 9, offset: 91666,
 							},
 						},
 					},
@@ -48198,23 +48198,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2733, col: 1, offset: 87220},
+			pos:  position{line: 2735, col: 1, offset: 87291},
 			expr: &actionExpr{
-				pos: position{line: 2734, col: 5, offset: 87243},
+				pos: position{line: 2736, col: 5, offset: 87314},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2734, col: 5, offset: 87243},
+					pos: position{line: 2736, col: 5, offset: 87314},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2734, col: 5, offset: 87243},
+							pos:   position{line: 2736, col: 5, offset: 87314},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2757, col: 18, offset: 87984},
+								pos: position{line: 2759, col: 18, offset: 88055},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2757, col: 19, offset: 87985},
+									pos: position{line: 2759, col: 19, offset: 88056},
 									expr: &charClassMatcher{
-										pos:        position{line: 2757, col: 19, offset: 87985},
+										pos:        position{line: 2759, col: 19, offset: 88056},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48225,25 +48225,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2735, col: 5, offset: 87269},
+							pos: position{line: 2737, col: 5, offset: 87340},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2739, col: 5, offset: 87397},
+							pos:        position{line: 2741, col: 5, offset: 87468},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2740, col: 5, offset: 87407},
+							pos:   position{line: 2742, col: 5, offset: 87478},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2761, col: 19, offset: 88060},
+								pos: position{line: 2763, col: 19, offset: 88131},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2761, col: 19, offset: 88060},
+									pos: position{line: 2763, col: 19, offset: 88131},
 									expr: &charClassMatcher{
-										pos:        position{line: 2761, col: 19, offset: 88060},
+										pos:        position{line: 2763, col: 19, offset: 88131},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -48253,36 +48253,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2741, col: 5, offset: 87435},
+							pos:   position{line: 2743, col: 5, offset: 87506},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2741, col: 17, offset: 87447},
+								pos:  position{line: 2743, col: 17, offset: 87518},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2900, col: 8, offset: 91644},
+							pos: position{line: 2902, col: 8, offset: 91715},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2887, col: 12, offset: 91417},
+									pos: position{line: 2889, col: 12, offset: 91488},
 									run: (*parser).callonUserMacroBlock16,
 									expr: &choiceExpr{
-										pos: position{line: 2887, col: 13, offset: 91418},
+										pos: position{line: 2889, col: 13, offset: 91489},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2887, col: 13, offset: 91418},
+												pos:        position{line: 2889, col: 13, offset: 91489},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2887, col: 20, offset: 91425},
+												pos:        position{line: 2889, col: 20, offset: 91496},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2887, col: 29, offset: 91434},
+												pos:        position{line: 2889, col: 29, offset: 91505},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -48291,9 +48291,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2897, col: 8, offset: 91594},
+									pos: position{line: 2899, col: 8, offset: 91665},
 									expr: &anyMatcher{
-										line: 2897, col: 9, offset: 91595,
+										line: 2899, col: 9, offset: 91666,
 									},
 								},
 							},
@@ -48304,23 +48304,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2745, col: 1, offset: 87595},
+			pos:  position{line: 2747, col: 1, offset: 87666},
 			expr: &actionExpr{
-				pos: position{line: 2746, col: 5, offset: 87619},
+				pos: position{line: 2748, col: 5, offset: 87690},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2746, col: 5, offset: 87619},
+					pos: position{line: 2748, col: 5, offset: 87690},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2746, col: 5, offset: 87619},
+							pos:   position{line: 2748, col: 5, offset: 87690},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2757, col: 18, offset: 87984},
+								pos: position{line: 2759, col: 18, offset: 88055},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2757, col: 19, offset: 87985},
+									pos: position{line: 2759, col: 19, offset: 88056},
 									expr: &charClassMatcher{
-										pos:        position{line: 2757, col: 19, offset: 87985},
+										pos:        position{line: 2759, col: 19, offset: 88056},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48331,25 +48331,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2747, col: 5, offset: 87645},
+							pos: position{line: 2749, col: 5, offset: 87716},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2751, col: 5, offset: 87773},
+							pos:        position{line: 2753, col: 5, offset: 87844},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2752, col: 5, offset: 87782},
+							pos:   position{line: 2754, col: 5, offset: 87853},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2761, col: 19, offset: 88060},
+								pos: position{line: 2763, col: 19, offset: 88131},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2761, col: 19, offset: 88060},
+									pos: position{line: 2763, col: 19, offset: 88131},
 									expr: &charClassMatcher{
-										pos:        position{line: 2761, col: 19, offset: 88060},
+										pos:        position{line: 2763, col: 19, offset: 88131},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -48359,10 +48359,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2753, col: 5, offset: 87810},
+							pos:   position{line: 2755, col: 5, offset: 87881},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2753, col: 17, offset: 87822},
+								pos:  position{line: 2755, col: 17, offset: 87893},
 								name: "InlineAttributes",
 							},
 						},
@@ -48372,43 +48372,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2832, col: 1, offset: 89893},
+			pos:  position{line: 2834, col: 1, offset: 89964},
 			expr: &actionExpr{
-				pos: position{line: 2832, col: 17, offset: 89909},
+				pos: position{line: 2834, col: 17, offset: 89980},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2832, col: 17, offset: 89909},
+					pos:   position{line: 2834, col: 17, offset: 89980},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2849, col: 5, offset: 90363},
+						pos: position{line: 2851, col: 5, offset: 90434},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2849, col: 5, offset: 90363},
+							pos:   position{line: 2851, col: 5, offset: 90434},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2849, col: 14, offset: 90372},
+								pos: position{line: 2851, col: 14, offset: 90443},
 								expr: &choiceExpr{
-									pos: position{line: 2850, col: 9, offset: 90382},
+									pos: position{line: 2852, col: 9, offset: 90453},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2850, col: 9, offset: 90382},
+											pos: position{line: 2852, col: 9, offset: 90453},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2850, col: 9, offset: 90382},
+												pos: position{line: 2852, col: 9, offset: 90453},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2850, col: 9, offset: 90382},
+														pos: position{line: 2852, col: 9, offset: 90453},
 														expr: &litMatcher{
-															pos:        position{line: 2850, col: 10, offset: 90383},
+															pos:        position{line: 2852, col: 10, offset: 90454},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2851, col: 9, offset: 90411},
+														pos: position{line: 2853, col: 9, offset: 90482},
 														expr: &charClassMatcher{
-															pos:        position{line: 2851, col: 10, offset: 90412},
+															pos:        position{line: 2853, col: 10, offset: 90483},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -48419,27 +48419,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2854, col: 11, offset: 90624},
+											pos: position{line: 2856, col: 11, offset: 90695},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2854, col: 11, offset: 90624},
+													pos:        position{line: 2856, col: 11, offset: 90695},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2854, col: 19, offset: 90632},
+													pos: position{line: 2856, col: 19, offset: 90703},
 													expr: &seqExpr{
-														pos: position{line: 2854, col: 21, offset: 90634},
+														pos: position{line: 2856, col: 21, offset: 90705},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2854, col: 21, offset: 90634},
+																pos: position{line: 2856, col: 21, offset: 90705},
 																expr: &actionExpr{
-																	pos: position{line: 2878, col: 10, offset: 91246},
+																	pos: position{line: 2880, col: 10, offset: 91317},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2878, col: 10, offset: 91246},
+																		pos:        position{line: 2880, col: 10, offset: 91317},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -48448,11 +48448,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2854, col: 28, offset: 90641},
+																pos: position{line: 2856, col: 28, offset: 90712},
 																expr: &notExpr{
-																	pos: position{line: 2897, col: 8, offset: 91594},
+																	pos: position{line: 2899, col: 8, offset: 91665},
 																	expr: &anyMatcher{
-																		line: 2897, col: 9, offset: 91595,
+																		line: 2899, col: 9, offset: 91666,
 																	},
 																},
 															},
@@ -48851,10 +48851,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2857, col: 11, offset: 90761},
+											pos: position{line: 2859, col: 11, offset: 90832},
 											run: (*parser).callonFileLocation101,
 											expr: &litMatcher{
-												pos:        position{line: 2857, col: 11, offset: 90761},
+												pos:        position{line: 2859, col: 11, offset: 90832},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -71868,6 +71868,8 @@ func (p *parser) callonSection1() (interface{}, error) {
 func (c *current) onSectionTitle3() error {
 	// enable substitutions
 	c.withSubstitutions(headerSubstitutions())
+	// there is nothing before the title
+	c.resetTracking()
 	return nil
 
 }
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index e838a6b..0ae806f 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -2311,6 +2311,8 @@ SectionTitle <-
     #{
         // enable substitutions
         c.withSubstitutions(headerSubstitutions())
+        // there is nothing before the title
+        c.resetTracking()
         return nil
     }
     elements:(SectionTitleElement)+ { 
diff --git a/pkg/parser/parser_ext.go b/pkg/parser/parser_ext.go
index f7e7506..ea29960 100644
--- a/pkg/parser/parser_ext.go
+++ b/pkg/parser/parser_ext.go
@@ -129,6 +129,11 @@ func (c *current) trackElement(element interface{}) {
 	c.globalStore[suffixTrackingKey] = r
 }
 
+// resetTracking forgets the character of the previous element (which is not on the same line)
+func (c *current) resetTracking() {
+	delete(c.globalStore, suffixTrackingKey)
+}
+
 func (c *current) isPrecededBySpace() bool {
 	if r, ok := c.globalStore[suffixTrackingKey].(rune); ok {
 		log.Debugf("---checking if preceded by space (tracked='%s')", string(r))
-- 
2.43.0


From 588ac4c6c70cba4524791c7afa8341b998621a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:40 +0000
Subject: [PATCH 127/143] fix: the content could change the type of the
 document in the page

---
 pkg/renderer/sgml/sgml.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/renderer/sgml/sgml.go b/pkg/renderer/sgml/sgml.go
index ef1be70..7ea5528 100644
--- a/pkg/renderer/sgml/sgml.go
+++ b/pkg/renderer/sgml/sgml.go
@@ -68,6 +68,7 @@ func Render(doc *types.Document, config *configuration.Configuration, output io.
 		return metadata, errors.Wrapf(err, "unable to render full document")
 	}
 	metadata.TableOfContents = doc.TableOfContents
+	doctype := ctx.attributes.GetAsStringWithDefault(types.AttrDocType, "article") // cannot be changed by the content
 	renderedHeader, renderedContent, err := r.splitAndRender(ctx, doc)
 	if err != nil {
 		return metadata, errors.Wrapf(err, "unable to render full document")
@@ -98,7 +99,7 @@ func Render(doc *types.Document, config *configuration.Configuration, output io.
 			IncludeHTMLBodyHeader bool
 			IncludeHTMLBodyFooter bool
 		}{
-			Doctype:               escapeString(ctx.attributes.GetAsStringWithDefault(types.AttrDocType, "article")),
+			Doctype:               escapeString(doctype),
 			Generator:             "libasciidoc", // TODO: externalize this value and include the lib version ?
 			Description:           ctx.attributes.GetAsStringWithDefault(types.AttrDescription, ""),
 			Title:                 renderedTitle,
-- 
2.43.0


From e3485f5b7b111df1cf0b5b581b2957ddbcbf3d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:02 +0000
Subject: [PATCH 128/143] fix: user macros could not be attached to list
 elements

---
 pkg/parser/parser.go  | 12506 ++++++++++++++++++++--------------------
 pkg/parser/parser.peg |     1 +
 2 files changed, 6256 insertions(+), 6251 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 12e07a5..d1bb7f9 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 359, col: 49, offset: 10879},
 													expr: &actionExpr{
-														pos: position{line: 2880, col: 10, offset: 91317},
+														pos: position{line: 2881, col: 10, offset: 91342},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2880, col: 10, offset: 91317},
+															pos:        position{line: 2881, col: 10, offset: 91342},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2902, col: 8, offset: 91715},
+													pos: position{line: 2903, col: 8, offset: 91740},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2889, col: 12, offset: 91488},
+															pos: position{line: 2890, col: 12, offset: 91513},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2889, col: 13, offset: 91489},
+																pos: position{line: 2890, col: 13, offset: 91514},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2889, col: 13, offset: 91489},
+																		pos:        position{line: 2890, col: 13, offset: 91514},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2889, col: 20, offset: 91496},
+																		pos:        position{line: 2890, col: 20, offset: 91521},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2889, col: 29, offset: 91505},
+																		pos:        position{line: 2890, col: 29, offset: 91530},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2899, col: 8, offset: 91665},
+															pos: position{line: 2900, col: 8, offset: 91690},
 															expr: &anyMatcher{
-																line: 2899, col: 9, offset: 91666,
+																line: 2900, col: 9, offset: 91691,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 361, col: 39, offset: 11000},
 													expr: &actionExpr{
-														pos: position{line: 2880, col: 10, offset: 91317},
+														pos: position{line: 2881, col: 10, offset: 91342},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2880, col: 10, offset: 91317},
+															pos:        position{line: 2881, col: 10, offset: 91342},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2902, col: 8, offset: 91715},
+													pos: position{line: 2903, col: 8, offset: 91740},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2889, col: 12, offset: 91488},
+															pos: position{line: 2890, col: 12, offset: 91513},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2889, col: 13, offset: 91489},
+																pos: position{line: 2890, col: 13, offset: 91514},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2889, col: 13, offset: 91489},
+																		pos:        position{line: 2890, col: 13, offset: 91514},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2889, col: 20, offset: 91496},
+																		pos:        position{line: 2890, col: 20, offset: 91521},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2889, col: 29, offset: 91505},
+																		pos:        position{line: 2890, col: 29, offset: 91530},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2899, col: 8, offset: 91665},
+															pos: position{line: 2900, col: 8, offset: 91690},
 															expr: &anyMatcher{
-																line: 2899, col: 9, offset: 91666,
+																line: 2900, col: 9, offset: 91691,
 															},
 														},
 													},
@@ -321,10 +321,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 78, col: 41, offset: 2149},
 																						expr: &actionExpr{
-																							pos: position{line: 2880, col: 10, offset: 91317},
+																							pos: position{line: 2881, col: 10, offset: 91342},
 																							run: (*parser).callonDocumentRawLine66,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2880, col: 10, offset: 91317},
+																								pos:        position{line: 2881, col: 10, offset: 91342},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -333,9 +333,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2899, col: 8, offset: 91665},
+																						pos: position{line: 2900, col: 8, offset: 91690},
 																						expr: &anyMatcher{
-																							line: 2899, col: 9, offset: 91666,
+																							line: 2900, col: 9, offset: 91691,
 																						},
 																					},
 																				},
@@ -363,10 +363,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2880, col: 10, offset: 91317},
+														pos: position{line: 2881, col: 10, offset: 91342},
 														run: (*parser).callonDocumentRawLine73,
 														expr: &charClassMatcher{
-															pos:        position{line: 2880, col: 10, offset: 91317},
+															pos:        position{line: 2881, col: 10, offset: 91342},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -375,9 +375,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2899, col: 8, offset: 91665},
+													pos: position{line: 2900, col: 8, offset: 91690},
 													expr: &anyMatcher{
-														line: 2899, col: 9, offset: 91666,
+														line: 2900, col: 9, offset: 91691,
 													},
 												},
 											},
@@ -446,10 +446,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 78, col: 41, offset: 2149},
 																						expr: &actionExpr{
-																							pos: position{line: 2880, col: 10, offset: 91317},
+																							pos: position{line: 2881, col: 10, offset: 91342},
 																							run: (*parser).callonDocumentRawLine94,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2880, col: 10, offset: 91317},
+																								pos:        position{line: 2881, col: 10, offset: 91342},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -458,9 +458,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2899, col: 8, offset: 91665},
+																						pos: position{line: 2900, col: 8, offset: 91690},
 																						expr: &anyMatcher{
-																							line: 2899, col: 9, offset: 91666,
+																							line: 2900, col: 9, offset: 91691,
 																						},
 																					},
 																				},
@@ -488,10 +488,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2880, col: 10, offset: 91317},
+														pos: position{line: 2881, col: 10, offset: 91342},
 														run: (*parser).callonDocumentRawLine101,
 														expr: &charClassMatcher{
-															pos:        position{line: 2880, col: 10, offset: 91317},
+															pos:        position{line: 2881, col: 10, offset: 91342},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -500,9 +500,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2899, col: 8, offset: 91665},
+													pos: position{line: 2900, col: 8, offset: 91690},
 													expr: &anyMatcher{
-														line: 2899, col: 9, offset: 91666,
+														line: 2900, col: 9, offset: 91691,
 													},
 												},
 											},
@@ -972,24 +972,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2876, col: 10, offset: 91220},
+																pos: position{line: 2877, col: 10, offset: 91245},
 																run: (*parser).callonDocumentRawLine197,
 																expr: &seqExpr{
-																	pos: position{line: 2876, col: 11, offset: 91221},
+																	pos: position{line: 2877, col: 11, offset: 91246},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2876, col: 11, offset: 91221},
+																			pos: position{line: 2877, col: 11, offset: 91246},
 																			expr: &litMatcher{
-																				pos:        position{line: 2876, col: 11, offset: 91221},
+																				pos:        position{line: 2877, col: 11, offset: 91246},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2876, col: 16, offset: 91226},
+																			pos: position{line: 2877, col: 16, offset: 91251},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 16, offset: 91226},
+																				pos:        position{line: 2877, col: 16, offset: 91251},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -997,15 +997,15 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2876, col: 23, offset: 91233},
+																			pos:        position{line: 2877, col: 23, offset: 91258},
 																			val:        ".",
 																			ignoreCase: false,
 																			want:       "\".\"",
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2876, col: 27, offset: 91237},
+																			pos: position{line: 2877, col: 27, offset: 91262},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 27, offset: 91237},
+																				pos:        position{line: 2877, col: 27, offset: 91262},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1016,24 +1016,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2872, col: 12, offset: 91144},
+																pos: position{line: 2873, col: 12, offset: 91169},
 																run: (*parser).callonDocumentRawLine206,
 																expr: &seqExpr{
-																	pos: position{line: 2872, col: 13, offset: 91145},
+																	pos: position{line: 2873, col: 13, offset: 91170},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2872, col: 13, offset: 91145},
+																			pos: position{line: 2873, col: 13, offset: 91170},
 																			expr: &litMatcher{
-																				pos:        position{line: 2872, col: 13, offset: 91145},
+																				pos:        position{line: 2873, col: 13, offset: 91170},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2872, col: 18, offset: 91150},
+																			pos: position{line: 2873, col: 18, offset: 91175},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2872, col: 18, offset: 91150},
+																				pos:        position{line: 2873, col: 18, offset: 91175},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1049,10 +1049,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2280},
 													expr: &actionExpr{
-														pos: position{line: 2880, col: 10, offset: 91317},
+														pos: position{line: 2881, col: 10, offset: 91342},
 														run: (*parser).callonDocumentRawLine213,
 														expr: &charClassMatcher{
-															pos:        position{line: 2880, col: 10, offset: 91317},
+															pos:        position{line: 2881, col: 10, offset: 91342},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1132,10 +1132,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2326},
 													expr: &actionExpr{
-														pos: position{line: 2880, col: 10, offset: 91317},
+														pos: position{line: 2881, col: 10, offset: 91342},
 														run: (*parser).callonDocumentRawLine230,
 														expr: &charClassMatcher{
-															pos:        position{line: 2880, col: 10, offset: 91317},
+															pos:        position{line: 2881, col: 10, offset: 91342},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1595,24 +1595,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2876, col: 10, offset: 91220},
+																pos: position{line: 2877, col: 10, offset: 91245},
 																run: (*parser).callonDocumentRawLine321,
 																expr: &seqExpr{
-																	pos: position{line: 2876, col: 11, offset: 91221},
+																	pos: position{line: 2877, col: 11, offset: 91246},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2876, col: 11, offset: 91221},
+																			pos: position{line: 2877, col: 11, offset: 91246},
 																			expr: &litMatcher{
-																				pos:        position{line: 2876, col: 11, offset: 91221},
+																				pos:        position{line: 2877, col: 11, offset: 91246},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2876, col: 16, offset: 91226},
+																			pos: position{line: 2877, col: 16, offset: 91251},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 16, offset: 91226},
+																				pos:        position{line: 2877, col: 16, offset: 91251},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1620,15 +1620,15 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2876, col: 23, offset: 91233},
+																			pos:        position{line: 2877, col: 23, offset: 91258},
 																			val:        ".",
 																			ignoreCase: false,
 																			want:       "\".\"",
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2876, col: 27, offset: 91237},
+																			pos: position{line: 2877, col: 27, offset: 91262},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2876, col: 27, offset: 91237},
+																				pos:        position{line: 2877, col: 27, offset: 91262},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1639,24 +1639,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2872, col: 12, offset: 91144},
+																pos: position{line: 2873, col: 12, offset: 91169},
 																run: (*parser).callonDocumentRawLine330,
 																expr: &seqExpr{
-																	pos: position{line: 2872, col: 13, offset: 91145},
+																	pos: position{line: 2873, col: 13, offset: 91170},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2872, col: 13, offset: 91145},
+																			pos: position{line: 2873, col: 13, offset: 91170},
 																			expr: &litMatcher{
-																				pos:        position{line: 2872, col: 13, offset: 91145},
+																				pos:        position{line: 2873, col: 13, offset: 91170},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2872, col: 18, offset: 91150},
+																			pos: position{line: 2873, col: 18, offset: 91175},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2872, col: 18, offset: 91150},
+																				pos:        position{line: 2873, col: 18, offset: 91175},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1678,10 +1678,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2378},
 													expr: &actionExpr{
-														pos: position{line: 2880, col: 10, offset: 91317},
+														pos: position{line: 2881, col: 10, offset: 91342},
 														run: (*parser).callonDocumentRawLine338,
 														expr: &charClassMatcher{
-															pos:        position{line: 2880, col: 10, offset: 91317},
+															pos:        position{line: 2881, col: 10, offset: 91342},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1690,9 +1690,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2899, col: 8, offset: 91665},
+													pos: position{line: 2900, col: 8, offset: 91690},
 													expr: &anyMatcher{
-														line: 2899, col: 9, offset: 91666,
+														line: 2900, col: 9, offset: 91691,
 													},
 												},
 											},
@@ -1764,10 +1764,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 78, col: 41, offset: 2149},
 																						expr: &actionExpr{
-																							pos: position{line: 2880, col: 10, offset: 91317},
+																							pos: position{line: 2881, col: 10, offset: 91342},
 																							run: (*parser).callonDocumentRawLine360,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2880, col: 10, offset: 91317},
+																								pos:        position{line: 2881, col: 10, offset: 91342},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -1776,9 +1776,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2899, col: 8, offset: 91665},
+																						pos: position{line: 2900, col: 8, offset: 91690},
 																						expr: &anyMatcher{
-																							line: 2899, col: 9, offset: 91666,
+																							line: 2900, col: 9, offset: 91691,
 																						},
 																					},
 																				},
@@ -1806,10 +1806,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3474},
 													expr: &actionExpr{
-														pos: position{line: 2880, col: 10, offset: 91317},
+														pos: position{line: 2881, col: 10, offset: 91342},
 														run: (*parser).callonDocumentRawLine367,
 														expr: &charClassMatcher{
-															pos:        position{line: 2880, col: 10, offset: 91317},
+															pos:        position{line: 2881, col: 10, offset: 91342},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1818,9 +1818,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2899, col: 8, offset: 91665},
+													pos: position{line: 2900, col: 8, offset: 91690},
 													expr: &anyMatcher{
-														line: 2899, col: 9, offset: 91666,
+														line: 2900, col: 9, offset: 91691,
 													},
 												},
 											},
@@ -1835,7 +1835,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 725, col: 5, offset: 23101},
 													expr: &charClassMatcher{
-														pos:        position{line: 2770, col: 13, offset: 88391},
+														pos:        position{line: 2771, col: 13, offset: 88416},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1885,10 +1885,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 743, col: 8, offset: 23745},
 																			expr: &actionExpr{
-																				pos: position{line: 2880, col: 10, offset: 91317},
+																				pos: position{line: 2881, col: 10, offset: 91342},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2880, col: 10, offset: 91317},
+																					pos:        position{line: 2881, col: 10, offset: 91342},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1897,28 +1897,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2902, col: 8, offset: 91715},
+																			pos: position{line: 2903, col: 8, offset: 91740},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2889, col: 12, offset: 91488},
+																					pos: position{line: 2890, col: 12, offset: 91513},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2889, col: 13, offset: 91489},
+																						pos: position{line: 2890, col: 13, offset: 91514},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2889, col: 13, offset: 91489},
+																								pos:        position{line: 2890, col: 13, offset: 91514},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2889, col: 20, offset: 91496},
+																								pos:        position{line: 2890, col: 20, offset: 91521},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2889, col: 29, offset: 91505},
+																								pos:        position{line: 2890, col: 29, offset: 91530},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1927,9 +1927,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2899, col: 8, offset: 91665},
+																					pos: position{line: 2900, col: 8, offset: 91690},
 																					expr: &anyMatcher{
-																						line: 2899, col: 9, offset: 91666,
+																						line: 2900, col: 9, offset: 91691,
 																					},
 																				},
 																			},
@@ -1974,10 +1974,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 750, col: 8, offset: 23993},
 																			expr: &actionExpr{
-																				pos: position{line: 2880, col: 10, offset: 91317},
+																				pos: position{line: 2881, col: 10, offset: 91342},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2880, col: 10, offset: 91317},
+																					pos:        position{line: 2881, col: 10, offset: 91342},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1986,28 +1986,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2902, col: 8, offset: 91715},
+																			pos: position{line: 2903, col: 8, offset: 91740},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2889, col: 12, offset: 91488},
+																					pos: position{line: 2890, col: 12, offset: 91513},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2889, col: 13, offset: 91489},
+																						pos: position{line: 2890, col: 13, offset: 91514},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2889, col: 13, offset: 91489},
+																								pos:        position{line: 2890, col: 13, offset: 91514},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2889, col: 20, offset: 91496},
+																								pos:        position{line: 2890, col: 20, offset: 91521},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2889, col: 29, offset: 91505},
+																								pos:        position{line: 2890, col: 29, offset: 91530},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2016,9 +2016,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2899, col: 8, offset: 91665},
+																					pos: position{line: 2900, col: 8, offset: 91690},
 																					expr: &anyMatcher{
-																						line: 2899, col: 9, offset: 91666,
+																						line: 2900, col: 9, offset: 91691,
 																					},
 																				},
 																			},
@@ -2059,10 +2059,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 761, col: 52, offset: 24405},
 																			expr: &actionExpr{
-																				pos: position{line: 2880, col: 10, offset: 91317},
+																				pos: position{line: 2881, col: 10, offset: 91342},
 																				run: (*parser).callonDocumentRawLine423,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2880, col: 10, offset: 91317},
+																					pos:        position{line: 2881, col: 10, offset: 91342},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2071,28 +2071,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2902, col: 8, offset: 91715},
+																			pos: position{line: 2903, col: 8, offset: 91740},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2889, col: 12, offset: 91488},
+																					pos: position{line: 2890, col: 12, offset: 91513},
 																					run: (*parser).callonDocumentRawLine426,
 																					expr: &choiceExpr{
-																						pos: position{line: 2889, col: 13, offset: 91489},
+																						pos: position{line: 2890, col: 13, offset: 91514},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2889, col: 13, offset: 91489},
+																								pos:        position{line: 2890, col: 13, offset: 91514},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2889, col: 20, offset: 91496},
+																								pos:        position{line: 2890, col: 20, offset: 91521},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2889, col: 29, offset: 91505},
+																								pos:        position{line: 2890, col: 29, offset: 91530},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2101,9 +2101,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2899, col: 8, offset: 91665},
+																					pos: position{line: 2900, col: 8, offset: 91690},
 																					expr: &anyMatcher{
-																						line: 2899, col: 9, offset: 91666,
+																						line: 2900, col: 9, offset: 91691,
 																					},
 																				},
 																			},
@@ -2148,10 +2148,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 757, col: 8, offset: 24239},
 																			expr: &actionExpr{
-																				pos: position{line: 2880, col: 10, offset: 91317},
+																				pos: position{line: 2881, col: 10, offset: 91342},
 																				run: (*parser).callonDocumentRawLine442,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2880, col: 10, offset: 91317},
+																					pos:        position{line: 2881, col: 10, offset: 91342},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2160,28 +2160,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2902, col: 8, offset: 91715},
+																			pos: position{line: 2903, col: 8, offset: 91740},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2889, col: 12, offset: 91488},
+																					pos: position{line: 2890, col: 12, offset: 91513},
 																					run: (*parser).callonDocumentRawLine445,
 																					expr: &choiceExpr{
-																						pos: position{line: 2889, col: 13, offset: 91489},
+																						pos: position{line: 2890, col: 13, offset: 91514},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2889, col: 13, offset: 91489},
+																								pos:        position{line: 2890, col: 13, offset: 91514},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2889, col: 20, offset: 91496},
+																								pos:        position{line: 2890, col: 20, offset: 91521},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2889, col: 29, offset: 91505},
+																								pos:        position{line: 2890, col: 29, offset: 91530},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2190,9 +2190,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2899, col: 8, offset: 91665},
+																					pos: position{line: 2900, col: 8, offset: 91690},
 																					expr: &anyMatcher{
-																						line: 2899, col: 9, offset: 91666,
+																						line: 2900, col: 9, offset: 91691,
 																					},
 																				},
 																			},
@@ -2237,10 +2237,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 772, col: 8, offset: 24782},
 																			expr: &actionExpr{
-																				pos: position{line: 2880, col: 10, offset: 91317},
+																				pos: position{line: 2881, col: 10, offset: 91342},
 																				run: (*parser).callonDocumentRawLine461,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2880, col: 10, offset: 91317},
+																					pos:        position{line: 2881, col: 10, offset: 91342},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2249,28 +2249,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2902, col: 8, offset: 91715},
+																			pos: position{line: 2903, col: 8, offset: 91740},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2889, col: 12, offset: 91488},
+																					pos: position{line: 2890, col: 12, offset: 91513},
 																					run: (*parser).callonDocumentRawLine464,
 																					expr: &choiceExpr{
-																						pos: position{line: 2889, col: 13, offset: 91489},
+																						pos: position{line: 2890, col: 13, offset: 91514},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2889, col: 13, offset: 91489},
+																								pos:        position{line: 2890, col: 13, offset: 91514},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2889, col: 20, offset: 91496},
+																								pos:        position{line: 2890, col: 20, offset: 91521},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2889, col: 29, offset: 91505},
+																								pos:        position{line: 2890, col: 29, offset: 91530},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2279,9 +2279,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2899, col: 8, offset: 91665},
+																					pos: position{line: 2900, col: 8, offset: 91690},
 																					expr: &anyMatcher{
-																						line: 2899, col: 9, offset: 91666,
+																						line: 2900, col: 9, offset: 91691,
 																					},
 																				},
 																			},
@@ -2326,10 +2326,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 786, col: 8, offset: 25258},
 																			expr: &actionExpr{
-																				pos: position{line: 2880, col: 10, offset: 91317},
+																				pos: position{line: 2881, col: 10, offset: 91342},
 																				run: (*parser).callonDocumentRawLine480,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2880, col: 10, offset: 91317},
+																					pos:        position{line: 2881, col: 10, offset: 91342},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2338,28 +2338,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2902, col: 8, offset: 91715},
+																			pos: position{line: 2903, col: 8, offset: 91740},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2889, col: 12, offset: 91488},
+																					pos: position{line: 2890, col: 12, offset: 91513},
 																					run: (*parser).callonDocumentRawLine483,
 																					expr: &choiceExpr{
-																						pos: position{line: 2889, col: 13, offset: 91489},
+																						pos: position{line: 2890, col: 13, offset: 91514},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2889, col: 13, offset: 91489},
+																								pos:        position{line: 2890, col: 13, offset: 91514},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2889, col: 20, offset: 91496},
+																								pos:        position{line: 2890, col: 20, offset: 91521},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2889, col: 29, offset: 91505},
+																								pos:        position{line: 2890, col: 29, offset: 91530},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2368,9 +2368,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2899, col: 8, offset: 91665},
+																					pos: position{line: 2900, col: 8, offset: 91690},
 																					expr: &anyMatcher{
-																						line: 2899, col: 9, offset: 91666,
+																						line: 2900, col: 9, offset: 91691,
 																					},
 																				},
 																			},
@@ -2415,10 +2415,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 793, col: 8, offset: 25510},
 																			expr: &actionExpr{
-																				pos: position{line: 2880, col: 10, offset: 91317},
+																				pos: position{line: 2881, col: 10, offset: 91342},
 																				run: (*parser).callonDocumentRawLine499,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2880, col: 10, offset: 91317},
+																					pos:        position{line: 2881, col: 10, offset: 91342},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2427,28 +2427,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2902, col: 8, offset: 91715},
+																			pos: position{line: 2903, col: 8, offset: 91740},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2889, col: 12, offset: 91488},
+																					pos: position{line: 2890, col: 12, offset: 91513},
 																					run: (*parser).callonDocumentRawLine502,
 																					expr: &choiceExpr{
-																						pos: position{line: 2889, col: 13, offset: 91489},
+																						pos: position{line: 2890, col: 13, offset: 91514},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2889, col: 13, offset: 91489},
+																								pos:        position{line: 2890, col: 13, offset: 91514},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2889, col: 20, offset: 91496},
+																								pos:        position{line: 2890, col: 20, offset: 91521},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2889, col: 29, offset: 91505},
+																								pos:        position{line: 2890, col: 29, offset: 91530},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2457,9 +2457,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2899, col: 8, offset: 91665},
+																					pos: position{line: 2900, col: 8, offset: 91690},
 																					expr: &anyMatcher{
-																						line: 2899, col: 9, offset: 91666,
+																						line: 2900, col: 9, offset: 91691,
 																					},
 																				},
 																			},
@@ -2504,10 +2504,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 800, col: 8, offset: 25760},
 																			expr: &actionExpr{
-																				pos: position{line: 2880, col: 10, offset: 91317},
+																				pos: position{line: 2881, col: 10, offset: 91342},
 																				run: (*parser).callonDocumentRawLine518,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2880, col: 10, offset: 91317},
+																					pos:        position{line: 2881, col: 10, offset: 91342},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2516,28 +2516,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2902, col: 8, offset: 91715},
+																			pos: position{line: 2903, col: 8, offset: 91740},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2889, col: 12, offset: 91488},
+																					pos: position{line: 2890, col: 12, offset: 91513},
 																					run: (*parser).callonDocumentRawLine521,
 																					expr: &choiceExpr{
-																						pos: position{line: 2889, col: 13, offset: 91489},
+																						pos: position{line: 2890, col: 13, offset: 91514},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2889, col: 13, offset: 91489},
+																								pos:        position{line: 2890, col: 13, offset: 91514},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2889, col: 20, offset: 91496},
+																								pos:        position{line: 2890, col: 20, offset: 91521},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2889, col: 29, offset: 91505},
+																								pos:        position{line: 2890, col: 29, offset: 91530},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2546,9 +2546,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2899, col: 8, offset: 91665},
+																					pos: position{line: 2900, col: 8, offset: 91690},
 																					expr: &anyMatcher{
-																						line: 2899, col: 9, offset: 91666,
+																						line: 2900, col: 9, offset: 91691,
 																					},
 																				},
 																			},
@@ -2593,10 +2593,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 807, col: 8, offset: 26006},
 																			expr: &actionExpr{
-																				pos: position{line: 2880, col: 10, offset: 91317},
+																				pos: position{line: 2881, col: 10, offset: 91342},
 																				run: (*parser).callonDocumentRawLine537,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2880, col: 10, offset: 91317},
+																					pos:        position{line: 2881, col: 10, offset: 91342},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2605,28 +2605,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2902, col: 8, offset: 91715},
+																			pos: position{line: 2903, col: 8, offset: 91740},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2889, col: 12, offset: 91488},
+																					pos: position{line: 2890, col: 12, offset: 91513},
 																					run: (*parser).callonDocumentRawLine540,
 																					expr: &choiceExpr{
-																						pos: position{line: 2889, col: 13, offset: 91489},
+																						pos: position{line: 2890, col: 13, offset: 91514},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2889, col: 13, offset: 91489},
+																								pos:        position{line: 2890, col: 13, offset: 91514},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2889, col: 20, offset: 91496},
+																								pos:        position{line: 2890, col: 20, offset: 91521},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2889, col: 29, offset: 91505},
+																								pos:        position{line: 2890, col: 29, offset: 91530},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2635,9 +2635,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2899, col: 8, offset: 91665},
+																					pos: position{line: 2900, col: 8, offset: 91690},
 																					expr: &anyMatcher{
-																						line: 2899, col: 9, offset: 91666,
+																						line: 2900, col: 9, offset: 91691,
 																					},
 																				},
 																			},
@@ -2687,12 +2687,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine555,
 												},
 												&actionExpr{
-													pos: position{line: 2884, col: 11, offset: 91378},
+													pos: position{line: 2885, col: 11, offset: 91403},
 													run: (*parser).callonDocumentRawLine556,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2884, col: 11, offset: 91378},
+														pos: position{line: 2885, col: 11, offset: 91403},
 														expr: &charClassMatcher{
-															pos:        position{line: 2884, col: 11, offset: 91378},
+															pos:        position{line: 2885, col: 11, offset: 91403},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2701,12 +2701,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2830, col: 14, offset: 89910},
+													pos: position{line: 2831, col: 14, offset: 89935},
 													run: (*parser).callonDocumentRawLine559,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2830, col: 14, offset: 89910},
+														pos: position{line: 2831, col: 14, offset: 89935},
 														expr: &charClassMatcher{
-															pos:        position{line: 2830, col: 14, offset: 89910},
+															pos:        position{line: 2831, col: 14, offset: 89935},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2715,9 +2715,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2899, col: 8, offset: 91665},
+													pos: position{line: 2900, col: 8, offset: 91690},
 													expr: &anyMatcher{
-														line: 2899, col: 9, offset: 91666,
+														line: 2900, col: 9, offset: 91691,
 													},
 												},
 											},
@@ -2727,9 +2727,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2899, col: 8, offset: 91665},
+							pos: position{line: 2900, col: 8, offset: 91690},
 							expr: &anyMatcher{
-								line: 2899, col: 9, offset: 91666,
+								line: 2900, col: 9, offset: 91691,
 							},
 						},
 					},
@@ -2764,41 +2764,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2834, col: 17, offset: 89980},
+												pos: position{line: 2835, col: 17, offset: 90005},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2834, col: 17, offset: 89980},
+													pos:   position{line: 2835, col: 17, offset: 90005},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2851, col: 5, offset: 90434},
+														pos: position{line: 2852, col: 5, offset: 90459},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2851, col: 5, offset: 90434},
+															pos:   position{line: 2852, col: 5, offset: 90459},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2851, col: 14, offset: 90443},
+																pos: position{line: 2852, col: 14, offset: 90468},
 																expr: &choiceExpr{
-																	pos: position{line: 2852, col: 9, offset: 90453},
+																	pos: position{line: 2853, col: 9, offset: 90478},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2852, col: 9, offset: 90453},
+																			pos: position{line: 2853, col: 9, offset: 90478},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2852, col: 9, offset: 90453},
+																				pos: position{line: 2853, col: 9, offset: 90478},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2852, col: 9, offset: 90453},
+																						pos: position{line: 2853, col: 9, offset: 90478},
 																						expr: &litMatcher{
-																							pos:        position{line: 2852, col: 10, offset: 90454},
+																							pos:        position{line: 2853, col: 10, offset: 90479},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2853, col: 9, offset: 90482},
+																						pos: position{line: 2854, col: 9, offset: 90507},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2853, col: 10, offset: 90483},
+																							pos:        position{line: 2854, col: 10, offset: 90508},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2809,27 +2809,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2856, col: 11, offset: 90695},
+																			pos: position{line: 2857, col: 11, offset: 90720},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2856, col: 11, offset: 90695},
+																					pos:        position{line: 2857, col: 11, offset: 90720},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2856, col: 19, offset: 90703},
+																					pos: position{line: 2857, col: 19, offset: 90728},
 																					expr: &seqExpr{
-																						pos: position{line: 2856, col: 21, offset: 90705},
+																						pos: position{line: 2857, col: 21, offset: 90730},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2856, col: 21, offset: 90705},
+																								pos: position{line: 2857, col: 21, offset: 90730},
 																								expr: &actionExpr{
-																									pos: position{line: 2880, col: 10, offset: 91317},
+																									pos: position{line: 2881, col: 10, offset: 91342},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2880, col: 10, offset: 91317},
+																										pos:        position{line: 2881, col: 10, offset: 91342},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2838,11 +2838,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2856, col: 28, offset: 90712},
+																								pos: position{line: 2857, col: 28, offset: 90737},
 																								expr: &notExpr{
-																									pos: position{line: 2899, col: 8, offset: 91665},
+																									pos: position{line: 2900, col: 8, offset: 91690},
 																									expr: &anyMatcher{
-																										line: 2899, col: 9, offset: 91666,
+																										line: 2900, col: 9, offset: 91691,
 																									},
 																								},
 																							},
@@ -3241,10 +3241,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2859, col: 11, offset: 90832},
+																			pos: position{line: 2860, col: 11, offset: 90857},
 																			run: (*parser).callonFileInclusion108,
 																			expr: &litMatcher{
-																				pos:        position{line: 2859, col: 11, offset: 90832},
+																				pos:        position{line: 2860, col: 11, offset: 90857},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3273,10 +3273,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2880, col: 10, offset: 91317},
+								pos: position{line: 2881, col: 10, offset: 91342},
 								run: (*parser).callonFileInclusion113,
 								expr: &charClassMatcher{
-									pos:        position{line: 2880, col: 10, offset: 91317},
+									pos:        position{line: 2881, col: 10, offset: 91342},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3285,28 +3285,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2902, col: 8, offset: 91715},
+							pos: position{line: 2903, col: 8, offset: 91740},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2889, col: 12, offset: 91488},
+									pos: position{line: 2890, col: 12, offset: 91513},
 									run: (*parser).callonFileInclusion116,
 									expr: &choiceExpr{
-										pos: position{line: 2889, col: 13, offset: 91489},
+										pos: position{line: 2890, col: 13, offset: 91514},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2889, col: 13, offset: 91489},
+												pos:        position{line: 2890, col: 13, offset: 91514},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2889, col: 20, offset: 91496},
+												pos:        position{line: 2890, col: 20, offset: 91521},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2889, col: 29, offset: 91505},
+												pos:        position{line: 2890, col: 29, offset: 91530},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3315,9 +3315,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2899, col: 8, offset: 91665},
+									pos: position{line: 2900, col: 8, offset: 91690},
 									expr: &anyMatcher{
-										line: 2899, col: 9, offset: 91666,
+										line: 2900, col: 9, offset: 91691,
 									},
 								},
 							},
@@ -3363,24 +3363,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2872, col: 12, offset: 91144},
+																				pos: position{line: 2873, col: 12, offset: 91169},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2872, col: 13, offset: 91145},
+																					pos: position{line: 2873, col: 13, offset: 91170},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2872, col: 13, offset: 91145},
+																							pos: position{line: 2873, col: 13, offset: 91170},
 																							expr: &litMatcher{
-																								pos:        position{line: 2872, col: 13, offset: 91145},
+																								pos:        position{line: 2873, col: 13, offset: 91170},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2872, col: 18, offset: 91150},
+																							pos: position{line: 2873, col: 18, offset: 91175},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2872, col: 18, offset: 91150},
+																								pos:        position{line: 2873, col: 18, offset: 91175},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3401,24 +3401,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2872, col: 12, offset: 91144},
+																				pos: position{line: 2873, col: 12, offset: 91169},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2872, col: 13, offset: 91145},
+																					pos: position{line: 2873, col: 13, offset: 91170},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2872, col: 13, offset: 91145},
+																							pos: position{line: 2873, col: 13, offset: 91170},
 																							expr: &litMatcher{
-																								pos:        position{line: 2872, col: 13, offset: 91145},
+																								pos:        position{line: 2873, col: 13, offset: 91170},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2872, col: 18, offset: 91150},
+																							pos: position{line: 2873, col: 18, offset: 91175},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2872, col: 18, offset: 91150},
+																								pos:        position{line: 2873, col: 18, offset: 91175},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3439,24 +3439,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2872, col: 12, offset: 91144},
+																		pos: position{line: 2873, col: 12, offset: 91169},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2872, col: 13, offset: 91145},
+																			pos: position{line: 2873, col: 13, offset: 91170},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2872, col: 13, offset: 91145},
+																					pos: position{line: 2873, col: 13, offset: 91170},
 																					expr: &litMatcher{
-																						pos:        position{line: 2872, col: 13, offset: 91145},
+																						pos:        position{line: 2873, col: 13, offset: 91170},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2872, col: 18, offset: 91150},
+																					pos: position{line: 2873, col: 18, offset: 91175},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2872, col: 18, offset: 91150},
+																						pos:        position{line: 2873, col: 18, offset: 91175},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3505,24 +3505,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2872, col: 12, offset: 91144},
+																									pos: position{line: 2873, col: 12, offset: 91169},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2872, col: 13, offset: 91145},
+																										pos: position{line: 2873, col: 13, offset: 91170},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2872, col: 13, offset: 91145},
+																												pos: position{line: 2873, col: 13, offset: 91170},
 																												expr: &litMatcher{
-																													pos:        position{line: 2872, col: 13, offset: 91145},
+																													pos:        position{line: 2873, col: 13, offset: 91170},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2872, col: 18, offset: 91150},
+																												pos: position{line: 2873, col: 18, offset: 91175},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2872, col: 18, offset: 91150},
+																													pos:        position{line: 2873, col: 18, offset: 91175},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3543,24 +3543,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2872, col: 12, offset: 91144},
+																									pos: position{line: 2873, col: 12, offset: 91169},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2872, col: 13, offset: 91145},
+																										pos: position{line: 2873, col: 13, offset: 91170},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2872, col: 13, offset: 91145},
+																												pos: position{line: 2873, col: 13, offset: 91170},
 																												expr: &litMatcher{
-																													pos:        position{line: 2872, col: 13, offset: 91145},
+																													pos:        position{line: 2873, col: 13, offset: 91170},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2872, col: 18, offset: 91150},
+																												pos: position{line: 2873, col: 18, offset: 91175},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2872, col: 18, offset: 91150},
+																													pos:        position{line: 2873, col: 18, offset: 91175},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3581,24 +3581,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2872, col: 12, offset: 91144},
+																							pos: position{line: 2873, col: 12, offset: 91169},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2872, col: 13, offset: 91145},
+																								pos: position{line: 2873, col: 13, offset: 91170},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2872, col: 13, offset: 91145},
+																										pos: position{line: 2873, col: 13, offset: 91170},
 																										expr: &litMatcher{
-																											pos:        position{line: 2872, col: 13, offset: 91145},
+																											pos:        position{line: 2873, col: 13, offset: 91170},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2872, col: 18, offset: 91150},
+																										pos: position{line: 2873, col: 18, offset: 91175},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2872, col: 18, offset: 91150},
+																											pos:        position{line: 2873, col: 18, offset: 91175},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3631,24 +3631,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2872, col: 12, offset: 91144},
+														pos: position{line: 2873, col: 12, offset: 91169},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2872, col: 13, offset: 91145},
+															pos: position{line: 2873, col: 13, offset: 91170},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2872, col: 13, offset: 91145},
+																	pos: position{line: 2873, col: 13, offset: 91170},
 																	expr: &litMatcher{
-																		pos:        position{line: 2872, col: 13, offset: 91145},
+																		pos:        position{line: 2873, col: 13, offset: 91170},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2872, col: 18, offset: 91150},
+																	pos: position{line: 2873, col: 18, offset: 91175},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2872, col: 18, offset: 91150},
+																		pos:        position{line: 2873, col: 18, offset: 91175},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3669,24 +3669,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2872, col: 12, offset: 91144},
+														pos: position{line: 2873, col: 12, offset: 91169},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2872, col: 13, offset: 91145},
+															pos: position{line: 2873, col: 13, offset: 91170},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2872, col: 13, offset: 91145},
+																	pos: position{line: 2873, col: 13, offset: 91170},
 																	expr: &litMatcher{
-																		pos:        position{line: 2872, col: 13, offset: 91145},
+																		pos:        position{line: 2873, col: 13, offset: 91170},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2872, col: 18, offset: 91150},
+																	pos: position{line: 2873, col: 18, offset: 91175},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2872, col: 18, offset: 91150},
+																		pos:        position{line: 2873, col: 18, offset: 91175},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3707,24 +3707,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2872, col: 12, offset: 91144},
+												pos: position{line: 2873, col: 12, offset: 91169},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2872, col: 13, offset: 91145},
+													pos: position{line: 2873, col: 13, offset: 91170},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2872, col: 13, offset: 91145},
+															pos: position{line: 2873, col: 13, offset: 91170},
 															expr: &litMatcher{
-																pos:        position{line: 2872, col: 13, offset: 91145},
+																pos:        position{line: 2873, col: 13, offset: 91170},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2872, col: 18, offset: 91150},
+															pos: position{line: 2873, col: 18, offset: 91175},
 															expr: &charClassMatcher{
-																pos:        position{line: 2872, col: 18, offset: 91150},
+																pos:        position{line: 2873, col: 18, offset: 91175},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3740,9 +3740,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2899, col: 8, offset: 91665},
+							pos: position{line: 2900, col: 8, offset: 91690},
 							expr: &anyMatcher{
-								line: 2899, col: 9, offset: 91666,
+								line: 2900, col: 9, offset: 91691,
 							},
 						},
 					},
@@ -4067,9 +4067,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2899, col: 8, offset: 91665},
+							pos: position{line: 2900, col: 8, offset: 91690},
 							expr: &anyMatcher{
-								line: 2899, col: 9, offset: 91666,
+								line: 2900, col: 9, offset: 91691,
 							},
 						},
 					},
@@ -4193,28 +4193,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2902, col: 8, offset: 91715},
+							pos: position{line: 2903, col: 8, offset: 91740},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2889, col: 12, offset: 91488},
+									pos: position{line: 2890, col: 12, offset: 91513},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2889, col: 13, offset: 91489},
+										pos: position{line: 2890, col: 13, offset: 91514},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2889, col: 13, offset: 91489},
+												pos:        position{line: 2890, col: 13, offset: 91514},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2889, col: 20, offset: 91496},
+												pos:        position{line: 2890, col: 20, offset: 91521},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2889, col: 29, offset: 91505},
+												pos:        position{line: 2890, col: 29, offset: 91530},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4223,9 +4223,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2899, col: 8, offset: 91665},
+									pos: position{line: 2900, col: 8, offset: 91690},
 									expr: &anyMatcher{
-										line: 2899, col: 9, offset: 91666,
+										line: 2900, col: 9, offset: 91691,
 									},
 								},
 							},
@@ -4244,9 +4244,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2897, col: 11, offset: 91651},
+							pos: position{line: 2898, col: 11, offset: 91676},
 							expr: &anyMatcher{
-								line: 2897, col: 13, offset: 91653,
+								line: 2898, col: 13, offset: 91678,
 							},
 						},
 						&labeledExpr{
@@ -4341,10 +4341,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 359, col: 49, offset: 10879},
 														expr: &actionExpr{
-															pos: position{line: 2880, col: 10, offset: 91317},
+															pos: position{line: 2881, col: 10, offset: 91342},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2880, col: 10, offset: 91317},
+																pos:        position{line: 2881, col: 10, offset: 91342},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4353,28 +4353,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2902, col: 8, offset: 91715},
+														pos: position{line: 2903, col: 8, offset: 91740},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2889, col: 12, offset: 91488},
+																pos: position{line: 2890, col: 12, offset: 91513},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2889, col: 13, offset: 91489},
+																	pos: position{line: 2890, col: 13, offset: 91514},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2889, col: 13, offset: 91489},
+																			pos:        position{line: 2890, col: 13, offset: 91514},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2889, col: 20, offset: 91496},
+																			pos:        position{line: 2890, col: 20, offset: 91521},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2889, col: 29, offset: 91505},
+																			pos:        position{line: 2890, col: 29, offset: 91530},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4383,9 +4383,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2899, col: 8, offset: 91665},
+																pos: position{line: 2900, col: 8, offset: 91690},
 																expr: &anyMatcher{
-																	line: 2899, col: 9, offset: 91666,
+																	line: 2900, col: 9, offset: 91691,
 																},
 															},
 														},
@@ -4446,10 +4446,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 361, col: 39, offset: 11000},
 														expr: &actionExpr{
-															pos: position{line: 2880, col: 10, offset: 91317},
+															pos: position{line: 2881, col: 10, offset: 91342},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2880, col: 10, offset: 91317},
+																pos:        position{line: 2881, col: 10, offset: 91342},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4458,28 +4458,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2902, col: 8, offset: 91715},
+														pos: position{line: 2903, col: 8, offset: 91740},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2889, col: 12, offset: 91488},
+																pos: position{line: 2890, col: 12, offset: 91513},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2889, col: 13, offset: 91489},
+																	pos: position{line: 2890, col: 13, offset: 91514},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2889, col: 13, offset: 91489},
+																			pos:        position{line: 2890, col: 13, offset: 91514},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2889, col: 20, offset: 91496},
+																			pos:        position{line: 2890, col: 20, offset: 91521},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2889, col: 29, offset: 91505},
+																			pos:        position{line: 2890, col: 29, offset: 91530},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4488,9 +4488,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2899, col: 8, offset: 91665},
+																pos: position{line: 2900, col: 8, offset: 91690},
 																expr: &anyMatcher{
-																	line: 2899, col: 9, offset: 91666,
+																	line: 2900, col: 9, offset: 91691,
 																},
 															},
 														},
@@ -4505,18 +4505,18 @@ var g = &grammar{
 												pos: position{line: 677, col: 14, offset: 21525},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2897, col: 11, offset: 91651},
+														pos: position{line: 2898, col: 11, offset: 91676},
 														expr: &anyMatcher{
-															line: 2897, col: 13, offset: 91653,
+															line: 2898, col: 13, offset: 91678,
 														},
 													},
 													&zeroOrMoreExpr{
 														pos: position{line: 677, col: 21, offset: 21532},
 														expr: &actionExpr{
-															pos: position{line: 2880, col: 10, offset: 91317},
+															pos: position{line: 2881, col: 10, offset: 91342},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2880, col: 10, offset: 91317},
+																pos:        position{line: 2881, col: 10, offset: 91342},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4525,28 +4525,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2902, col: 8, offset: 91715},
+														pos: position{line: 2903, col: 8, offset: 91740},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2889, col: 12, offset: 91488},
+																pos: position{line: 2890, col: 12, offset: 91513},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2889, col: 13, offset: 91489},
+																	pos: position{line: 2890, col: 13, offset: 91514},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2889, col: 13, offset: 91489},
+																			pos:        position{line: 2890, col: 13, offset: 91514},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2889, col: 20, offset: 91496},
+																			pos:        position{line: 2890, col: 20, offset: 91521},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2889, col: 29, offset: 91505},
+																			pos:        position{line: 2890, col: 29, offset: 91530},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4555,9 +4555,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2899, col: 8, offset: 91665},
+																pos: position{line: 2900, col: 8, offset: 91690},
 																expr: &anyMatcher{
-																	line: 2899, col: 9, offset: 91666,
+																	line: 2900, col: 9, offset: 91691,
 																},
 															},
 														},
@@ -4616,10 +4616,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 743, col: 8, offset: 23745},
 																	expr: &actionExpr{
-																		pos: position{line: 2880, col: 10, offset: 91317},
+																		pos: position{line: 2881, col: 10, offset: 91342},
 																		run: (*parser).callonDocumentFragment86,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 10, offset: 91317},
+																			pos:        position{line: 2881, col: 10, offset: 91342},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -4628,28 +4628,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2902, col: 8, offset: 91715},
+																	pos: position{line: 2903, col: 8, offset: 91740},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2889, col: 12, offset: 91488},
+																			pos: position{line: 2890, col: 12, offset: 91513},
 																			run: (*parser).callonDocumentFragment89,
 																			expr: &choiceExpr{
-																				pos: position{line: 2889, col: 13, offset: 91489},
+																				pos: position{line: 2890, col: 13, offset: 91514},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 13, offset: 91489},
+																						pos:        position{line: 2890, col: 13, offset: 91514},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 20, offset: 91496},
+																						pos:        position{line: 2890, col: 20, offset: 91521},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 29, offset: 91505},
+																						pos:        position{line: 2890, col: 29, offset: 91530},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -4658,9 +4658,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2899, col: 8, offset: 91665},
+																			pos: position{line: 2900, col: 8, offset: 91690},
 																			expr: &anyMatcher{
-																				line: 2899, col: 9, offset: 91666,
+																				line: 2900, col: 9, offset: 91691,
 																			},
 																		},
 																	},
@@ -4721,10 +4721,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 743, col: 8, offset: 23745},
 																									expr: &actionExpr{
-																										pos: position{line: 2880, col: 10, offset: 91317},
+																										pos: position{line: 2881, col: 10, offset: 91342},
 																										run: (*parser).callonDocumentFragment111,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2880, col: 10, offset: 91317},
+																											pos:        position{line: 2881, col: 10, offset: 91342},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -4733,28 +4733,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2902, col: 8, offset: 91715},
+																									pos: position{line: 2903, col: 8, offset: 91740},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2889, col: 12, offset: 91488},
+																											pos: position{line: 2890, col: 12, offset: 91513},
 																											run: (*parser).callonDocumentFragment114,
 																											expr: &choiceExpr{
-																												pos: position{line: 2889, col: 13, offset: 91489},
+																												pos: position{line: 2890, col: 13, offset: 91514},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2889, col: 13, offset: 91489},
+																														pos:        position{line: 2890, col: 13, offset: 91514},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2889, col: 20, offset: 91496},
+																														pos:        position{line: 2890, col: 20, offset: 91521},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2889, col: 29, offset: 91505},
+																														pos:        position{line: 2890, col: 29, offset: 91530},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -4763,9 +4763,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2899, col: 8, offset: 91665},
+																											pos: position{line: 2900, col: 8, offset: 91690},
 																											expr: &anyMatcher{
-																												line: 2899, col: 9, offset: 91666,
+																												line: 2900, col: 9, offset: 91691,
 																											},
 																										},
 																									},
@@ -4774,9 +4774,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2899, col: 8, offset: 91665},
+																						pos: position{line: 2900, col: 8, offset: 91690},
 																						expr: &anyMatcher{
-																							line: 2899, col: 9, offset: 91666,
+																							line: 2900, col: 9, offset: 91691,
 																						},
 																					},
 																				},
@@ -4792,21 +4792,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2897, col: 11, offset: 91651},
+																							pos: position{line: 2898, col: 11, offset: 91676},
 																							expr: &anyMatcher{
-																								line: 2897, col: 13, offset: 91653,
+																								line: 2898, col: 13, offset: 91678,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2826, col: 13, offset: 89843},
+																								pos: position{line: 2827, col: 13, offset: 89868},
 																								run: (*parser).callonDocumentFragment129,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2826, col: 13, offset: 89843},
+																									pos: position{line: 2827, col: 13, offset: 89868},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2826, col: 13, offset: 89843},
+																										pos:        position{line: 2827, col: 13, offset: 89868},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4816,28 +4816,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2902, col: 8, offset: 91715},
+																							pos: position{line: 2903, col: 8, offset: 91740},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2889, col: 12, offset: 91488},
+																									pos: position{line: 2890, col: 12, offset: 91513},
 																									run: (*parser).callonDocumentFragment133,
 																									expr: &choiceExpr{
-																										pos: position{line: 2889, col: 13, offset: 91489},
+																										pos: position{line: 2890, col: 13, offset: 91514},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 13, offset: 91489},
+																												pos:        position{line: 2890, col: 13, offset: 91514},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 20, offset: 91496},
+																												pos:        position{line: 2890, col: 20, offset: 91521},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 29, offset: 91505},
+																												pos:        position{line: 2890, col: 29, offset: 91530},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4846,9 +4846,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2899, col: 8, offset: 91665},
+																									pos: position{line: 2900, col: 8, offset: 91690},
 																									expr: &anyMatcher{
-																										line: 2899, col: 9, offset: 91666,
+																										line: 2900, col: 9, offset: 91691,
 																									},
 																								},
 																							},
@@ -4904,10 +4904,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 743, col: 8, offset: 23745},
 																				expr: &actionExpr{
-																					pos: position{line: 2880, col: 10, offset: 91317},
+																					pos: position{line: 2881, col: 10, offset: 91342},
 																					run: (*parser).callonDocumentFragment151,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2880, col: 10, offset: 91317},
+																						pos:        position{line: 2881, col: 10, offset: 91342},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -4916,28 +4916,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2902, col: 8, offset: 91715},
+																				pos: position{line: 2903, col: 8, offset: 91740},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2889, col: 12, offset: 91488},
+																						pos: position{line: 2890, col: 12, offset: 91513},
 																						run: (*parser).callonDocumentFragment154,
 																						expr: &choiceExpr{
-																							pos: position{line: 2889, col: 13, offset: 91489},
+																							pos: position{line: 2890, col: 13, offset: 91514},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2889, col: 13, offset: 91489},
+																									pos:        position{line: 2890, col: 13, offset: 91514},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2889, col: 20, offset: 91496},
+																									pos:        position{line: 2890, col: 20, offset: 91521},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2889, col: 29, offset: 91505},
+																									pos:        position{line: 2890, col: 29, offset: 91530},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -4946,9 +4946,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2899, col: 8, offset: 91665},
+																						pos: position{line: 2900, col: 8, offset: 91690},
 																						expr: &anyMatcher{
-																							line: 2899, col: 9, offset: 91666,
+																							line: 2900, col: 9, offset: 91691,
 																						},
 																					},
 																				},
@@ -4957,9 +4957,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2899, col: 8, offset: 91665},
+																	pos: position{line: 2900, col: 8, offset: 91690},
 																	expr: &anyMatcher{
-																		line: 2899, col: 9, offset: 91666,
+																		line: 2900, col: 9, offset: 91691,
 																	},
 																},
 															},
@@ -5014,10 +5014,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 750, col: 8, offset: 23993},
 																		expr: &actionExpr{
-																			pos: position{line: 2880, col: 10, offset: 91317},
+																			pos: position{line: 2881, col: 10, offset: 91342},
 																			run: (*parser).callonDocumentFragment175,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2880, col: 10, offset: 91317},
+																				pos:        position{line: 2881, col: 10, offset: 91342},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5026,28 +5026,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2902, col: 8, offset: 91715},
+																		pos: position{line: 2903, col: 8, offset: 91740},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2889, col: 12, offset: 91488},
+																				pos: position{line: 2890, col: 12, offset: 91513},
 																				run: (*parser).callonDocumentFragment178,
 																				expr: &choiceExpr{
-																					pos: position{line: 2889, col: 13, offset: 91489},
+																					pos: position{line: 2890, col: 13, offset: 91514},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 13, offset: 91489},
+																							pos:        position{line: 2890, col: 13, offset: 91514},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 20, offset: 91496},
+																							pos:        position{line: 2890, col: 20, offset: 91521},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 29, offset: 91505},
+																							pos:        position{line: 2890, col: 29, offset: 91530},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5056,9 +5056,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2899, col: 8, offset: 91665},
+																				pos: position{line: 2900, col: 8, offset: 91690},
 																				expr: &anyMatcher{
-																					line: 2899, col: 9, offset: 91666,
+																					line: 2900, col: 9, offset: 91691,
 																				},
 																			},
 																		},
@@ -5130,10 +5130,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 750, col: 8, offset: 23993},
 																												expr: &actionExpr{
-																													pos: position{line: 2880, col: 10, offset: 91317},
+																													pos: position{line: 2881, col: 10, offset: 91342},
 																													run: (*parser).callonDocumentFragment203,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2880, col: 10, offset: 91317},
+																														pos:        position{line: 2881, col: 10, offset: 91342},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5142,28 +5142,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2902, col: 8, offset: 91715},
+																												pos: position{line: 2903, col: 8, offset: 91740},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2889, col: 12, offset: 91488},
+																														pos: position{line: 2890, col: 12, offset: 91513},
 																														run: (*parser).callonDocumentFragment206,
 																														expr: &choiceExpr{
-																															pos: position{line: 2889, col: 13, offset: 91489},
+																															pos: position{line: 2890, col: 13, offset: 91514},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2889, col: 13, offset: 91489},
+																																	pos:        position{line: 2890, col: 13, offset: 91514},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2889, col: 20, offset: 91496},
+																																	pos:        position{line: 2890, col: 20, offset: 91521},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2889, col: 29, offset: 91505},
+																																	pos:        position{line: 2890, col: 29, offset: 91530},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5172,9 +5172,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2899, col: 8, offset: 91665},
+																														pos: position{line: 2900, col: 8, offset: 91690},
 																														expr: &anyMatcher{
-																															line: 2899, col: 9, offset: 91666,
+																															line: 2900, col: 9, offset: 91691,
 																														},
 																													},
 																												},
@@ -5190,9 +5190,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2899, col: 8, offset: 91665},
+																						pos: position{line: 2900, col: 8, offset: 91690},
 																						expr: &anyMatcher{
-																							line: 2899, col: 9, offset: 91666,
+																							line: 2900, col: 9, offset: 91691,
 																						},
 																					},
 																				},
@@ -5208,21 +5208,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2897, col: 11, offset: 91651},
+																							pos: position{line: 2898, col: 11, offset: 91676},
 																							expr: &anyMatcher{
-																								line: 2897, col: 13, offset: 91653,
+																								line: 2898, col: 13, offset: 91678,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2826, col: 13, offset: 89843},
+																								pos: position{line: 2827, col: 13, offset: 89868},
 																								run: (*parser).callonDocumentFragment222,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2826, col: 13, offset: 89843},
+																									pos: position{line: 2827, col: 13, offset: 89868},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2826, col: 13, offset: 89843},
+																										pos:        position{line: 2827, col: 13, offset: 89868},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5232,28 +5232,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2902, col: 8, offset: 91715},
+																							pos: position{line: 2903, col: 8, offset: 91740},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2889, col: 12, offset: 91488},
+																									pos: position{line: 2890, col: 12, offset: 91513},
 																									run: (*parser).callonDocumentFragment226,
 																									expr: &choiceExpr{
-																										pos: position{line: 2889, col: 13, offset: 91489},
+																										pos: position{line: 2890, col: 13, offset: 91514},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 13, offset: 91489},
+																												pos:        position{line: 2890, col: 13, offset: 91514},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 20, offset: 91496},
+																												pos:        position{line: 2890, col: 20, offset: 91521},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 29, offset: 91505},
+																												pos:        position{line: 2890, col: 29, offset: 91530},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5262,9 +5262,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2899, col: 8, offset: 91665},
+																									pos: position{line: 2900, col: 8, offset: 91690},
 																									expr: &anyMatcher{
-																										line: 2899, col: 9, offset: 91666,
+																										line: 2900, col: 9, offset: 91691,
 																									},
 																								},
 																							},
@@ -5329,10 +5329,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 750, col: 8, offset: 23993},
 																								expr: &actionExpr{
-																									pos: position{line: 2880, col: 10, offset: 91317},
+																									pos: position{line: 2881, col: 10, offset: 91342},
 																									run: (*parser).callonDocumentFragment247,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2880, col: 10, offset: 91317},
+																										pos:        position{line: 2881, col: 10, offset: 91342},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5341,28 +5341,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2902, col: 8, offset: 91715},
+																								pos: position{line: 2903, col: 8, offset: 91740},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2889, col: 12, offset: 91488},
+																										pos: position{line: 2890, col: 12, offset: 91513},
 																										run: (*parser).callonDocumentFragment250,
 																										expr: &choiceExpr{
-																											pos: position{line: 2889, col: 13, offset: 91489},
+																											pos: position{line: 2890, col: 13, offset: 91514},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2889, col: 13, offset: 91489},
+																													pos:        position{line: 2890, col: 13, offset: 91514},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2889, col: 20, offset: 91496},
+																													pos:        position{line: 2890, col: 20, offset: 91521},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2889, col: 29, offset: 91505},
+																													pos:        position{line: 2890, col: 29, offset: 91530},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5371,9 +5371,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2899, col: 8, offset: 91665},
+																										pos: position{line: 2900, col: 8, offset: 91690},
 																										expr: &anyMatcher{
-																											line: 2899, col: 9, offset: 91666,
+																											line: 2900, col: 9, offset: 91691,
 																										},
 																									},
 																								},
@@ -5389,9 +5389,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2899, col: 8, offset: 91665},
+																		pos: position{line: 2900, col: 8, offset: 91690},
 																		expr: &anyMatcher{
-																			line: 2899, col: 9, offset: 91666,
+																			line: 2900, col: 9, offset: 91691,
 																		},
 																	},
 																},
@@ -5443,10 +5443,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 761, col: 52, offset: 24405},
 																		expr: &actionExpr{
-																			pos: position{line: 2880, col: 10, offset: 91317},
+																			pos: position{line: 2881, col: 10, offset: 91342},
 																			run: (*parser).callonDocumentFragment271,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2880, col: 10, offset: 91317},
+																				pos:        position{line: 2881, col: 10, offset: 91342},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5455,28 +5455,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2902, col: 8, offset: 91715},
+																		pos: position{line: 2903, col: 8, offset: 91740},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2889, col: 12, offset: 91488},
+																				pos: position{line: 2890, col: 12, offset: 91513},
 																				run: (*parser).callonDocumentFragment274,
 																				expr: &choiceExpr{
-																					pos: position{line: 2889, col: 13, offset: 91489},
+																					pos: position{line: 2890, col: 13, offset: 91514},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 13, offset: 91489},
+																							pos:        position{line: 2890, col: 13, offset: 91514},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 20, offset: 91496},
+																							pos:        position{line: 2890, col: 20, offset: 91521},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 29, offset: 91505},
+																							pos:        position{line: 2890, col: 29, offset: 91530},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5485,9 +5485,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2899, col: 8, offset: 91665},
+																				pos: position{line: 2900, col: 8, offset: 91690},
 																				expr: &anyMatcher{
-																					line: 2899, col: 9, offset: 91666,
+																					line: 2900, col: 9, offset: 91691,
 																				},
 																			},
 																		},
@@ -5521,10 +5521,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 964, col: 40, offset: 30213},
 																						expr: &actionExpr{
-																							pos: position{line: 2880, col: 10, offset: 91317},
+																							pos: position{line: 2881, col: 10, offset: 91342},
 																							run: (*parser).callonDocumentFragment289,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2880, col: 10, offset: 91317},
+																								pos:        position{line: 2881, col: 10, offset: 91342},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5533,28 +5533,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2902, col: 8, offset: 91715},
+																						pos: position{line: 2903, col: 8, offset: 91740},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2889, col: 12, offset: 91488},
+																								pos: position{line: 2890, col: 12, offset: 91513},
 																								run: (*parser).callonDocumentFragment292,
 																								expr: &choiceExpr{
-																									pos: position{line: 2889, col: 13, offset: 91489},
+																									pos: position{line: 2890, col: 13, offset: 91514},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 13, offset: 91489},
+																											pos:        position{line: 2890, col: 13, offset: 91514},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 20, offset: 91496},
+																											pos:        position{line: 2890, col: 20, offset: 91521},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 29, offset: 91505},
+																											pos:        position{line: 2890, col: 29, offset: 91530},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5563,9 +5563,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2899, col: 8, offset: 91665},
+																								pos: position{line: 2900, col: 8, offset: 91690},
 																								expr: &anyMatcher{
-																									line: 2899, col: 9, offset: 91666,
+																									line: 2900, col: 9, offset: 91691,
 																								},
 																							},
 																						},
@@ -5583,21 +5583,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2897, col: 11, offset: 91651},
+																							pos: position{line: 2898, col: 11, offset: 91676},
 																							expr: &anyMatcher{
-																								line: 2897, col: 13, offset: 91653,
+																								line: 2898, col: 13, offset: 91678,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2826, col: 13, offset: 89843},
+																								pos: position{line: 2827, col: 13, offset: 89868},
 																								run: (*parser).callonDocumentFragment305,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2826, col: 13, offset: 89843},
+																									pos: position{line: 2827, col: 13, offset: 89868},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2826, col: 13, offset: 89843},
+																										pos:        position{line: 2827, col: 13, offset: 89868},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5607,28 +5607,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2902, col: 8, offset: 91715},
+																							pos: position{line: 2903, col: 8, offset: 91740},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2889, col: 12, offset: 91488},
+																									pos: position{line: 2890, col: 12, offset: 91513},
 																									run: (*parser).callonDocumentFragment309,
 																									expr: &choiceExpr{
-																										pos: position{line: 2889, col: 13, offset: 91489},
+																										pos: position{line: 2890, col: 13, offset: 91514},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 13, offset: 91489},
+																												pos:        position{line: 2890, col: 13, offset: 91514},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 20, offset: 91496},
+																												pos:        position{line: 2890, col: 20, offset: 91521},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 29, offset: 91505},
+																												pos:        position{line: 2890, col: 29, offset: 91530},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5637,9 +5637,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2899, col: 8, offset: 91665},
+																									pos: position{line: 2900, col: 8, offset: 91690},
 																									expr: &anyMatcher{
-																										line: 2899, col: 9, offset: 91666,
+																										line: 2900, col: 9, offset: 91691,
 																									},
 																								},
 																							},
@@ -5667,10 +5667,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 964, col: 40, offset: 30213},
 																	expr: &actionExpr{
-																		pos: position{line: 2880, col: 10, offset: 91317},
+																		pos: position{line: 2881, col: 10, offset: 91342},
 																		run: (*parser).callonDocumentFragment320,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 10, offset: 91317},
+																			pos:        position{line: 2881, col: 10, offset: 91342},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5679,28 +5679,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2902, col: 8, offset: 91715},
+																	pos: position{line: 2903, col: 8, offset: 91740},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2889, col: 12, offset: 91488},
+																			pos: position{line: 2890, col: 12, offset: 91513},
 																			run: (*parser).callonDocumentFragment323,
 																			expr: &choiceExpr{
-																				pos: position{line: 2889, col: 13, offset: 91489},
+																				pos: position{line: 2890, col: 13, offset: 91514},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 13, offset: 91489},
+																						pos:        position{line: 2890, col: 13, offset: 91514},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 20, offset: 91496},
+																						pos:        position{line: 2890, col: 20, offset: 91521},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 29, offset: 91505},
+																						pos:        position{line: 2890, col: 29, offset: 91530},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5709,9 +5709,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2899, col: 8, offset: 91665},
+																			pos: position{line: 2900, col: 8, offset: 91690},
 																			expr: &anyMatcher{
-																				line: 2899, col: 9, offset: 91666,
+																				line: 2900, col: 9, offset: 91691,
 																			},
 																		},
 																	},
@@ -5768,10 +5768,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 757, col: 8, offset: 24239},
 																		expr: &actionExpr{
-																			pos: position{line: 2880, col: 10, offset: 91317},
+																			pos: position{line: 2881, col: 10, offset: 91342},
 																			run: (*parser).callonDocumentFragment342,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2880, col: 10, offset: 91317},
+																				pos:        position{line: 2881, col: 10, offset: 91342},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5780,28 +5780,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2902, col: 8, offset: 91715},
+																		pos: position{line: 2903, col: 8, offset: 91740},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2889, col: 12, offset: 91488},
+																				pos: position{line: 2890, col: 12, offset: 91513},
 																				run: (*parser).callonDocumentFragment345,
 																				expr: &choiceExpr{
-																					pos: position{line: 2889, col: 13, offset: 91489},
+																					pos: position{line: 2890, col: 13, offset: 91514},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 13, offset: 91489},
+																							pos:        position{line: 2890, col: 13, offset: 91514},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 20, offset: 91496},
+																							pos:        position{line: 2890, col: 20, offset: 91521},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 29, offset: 91505},
+																							pos:        position{line: 2890, col: 29, offset: 91530},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5810,9 +5810,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2899, col: 8, offset: 91665},
+																				pos: position{line: 2900, col: 8, offset: 91690},
 																				expr: &anyMatcher{
-																					line: 2899, col: 9, offset: 91666,
+																					line: 2900, col: 9, offset: 91691,
 																				},
 																			},
 																		},
@@ -5884,10 +5884,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 757, col: 8, offset: 24239},
 																												expr: &actionExpr{
-																													pos: position{line: 2880, col: 10, offset: 91317},
+																													pos: position{line: 2881, col: 10, offset: 91342},
 																													run: (*parser).callonDocumentFragment370,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2880, col: 10, offset: 91317},
+																														pos:        position{line: 2881, col: 10, offset: 91342},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5896,28 +5896,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2902, col: 8, offset: 91715},
+																												pos: position{line: 2903, col: 8, offset: 91740},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2889, col: 12, offset: 91488},
+																														pos: position{line: 2890, col: 12, offset: 91513},
 																														run: (*parser).callonDocumentFragment373,
 																														expr: &choiceExpr{
-																															pos: position{line: 2889, col: 13, offset: 91489},
+																															pos: position{line: 2890, col: 13, offset: 91514},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2889, col: 13, offset: 91489},
+																																	pos:        position{line: 2890, col: 13, offset: 91514},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2889, col: 20, offset: 91496},
+																																	pos:        position{line: 2890, col: 20, offset: 91521},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2889, col: 29, offset: 91505},
+																																	pos:        position{line: 2890, col: 29, offset: 91530},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5926,9 +5926,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2899, col: 8, offset: 91665},
+																														pos: position{line: 2900, col: 8, offset: 91690},
 																														expr: &anyMatcher{
-																															line: 2899, col: 9, offset: 91666,
+																															line: 2900, col: 9, offset: 91691,
 																														},
 																													},
 																												},
@@ -5944,9 +5944,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2899, col: 8, offset: 91665},
+																						pos: position{line: 2900, col: 8, offset: 91690},
 																						expr: &anyMatcher{
-																							line: 2899, col: 9, offset: 91666,
+																							line: 2900, col: 9, offset: 91691,
 																						},
 																					},
 																				},
@@ -5962,21 +5962,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2897, col: 11, offset: 91651},
+																							pos: position{line: 2898, col: 11, offset: 91676},
 																							expr: &anyMatcher{
-																								line: 2897, col: 13, offset: 91653,
+																								line: 2898, col: 13, offset: 91678,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2826, col: 13, offset: 89843},
+																								pos: position{line: 2827, col: 13, offset: 89868},
 																								run: (*parser).callonDocumentFragment389,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2826, col: 13, offset: 89843},
+																									pos: position{line: 2827, col: 13, offset: 89868},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2826, col: 13, offset: 89843},
+																										pos:        position{line: 2827, col: 13, offset: 89868},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5986,28 +5986,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2902, col: 8, offset: 91715},
+																							pos: position{line: 2903, col: 8, offset: 91740},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2889, col: 12, offset: 91488},
+																									pos: position{line: 2890, col: 12, offset: 91513},
 																									run: (*parser).callonDocumentFragment393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2889, col: 13, offset: 91489},
+																										pos: position{line: 2890, col: 13, offset: 91514},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 13, offset: 91489},
+																												pos:        position{line: 2890, col: 13, offset: 91514},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 20, offset: 91496},
+																												pos:        position{line: 2890, col: 20, offset: 91521},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 29, offset: 91505},
+																												pos:        position{line: 2890, col: 29, offset: 91530},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6016,9 +6016,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2899, col: 8, offset: 91665},
+																									pos: position{line: 2900, col: 8, offset: 91690},
 																									expr: &anyMatcher{
-																										line: 2899, col: 9, offset: 91666,
+																										line: 2900, col: 9, offset: 91691,
 																									},
 																								},
 																							},
@@ -6083,10 +6083,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 757, col: 8, offset: 24239},
 																								expr: &actionExpr{
-																									pos: position{line: 2880, col: 10, offset: 91317},
+																									pos: position{line: 2881, col: 10, offset: 91342},
 																									run: (*parser).callonDocumentFragment414,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2880, col: 10, offset: 91317},
+																										pos:        position{line: 2881, col: 10, offset: 91342},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6095,28 +6095,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2902, col: 8, offset: 91715},
+																								pos: position{line: 2903, col: 8, offset: 91740},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2889, col: 12, offset: 91488},
+																										pos: position{line: 2890, col: 12, offset: 91513},
 																										run: (*parser).callonDocumentFragment417,
 																										expr: &choiceExpr{
-																											pos: position{line: 2889, col: 13, offset: 91489},
+																											pos: position{line: 2890, col: 13, offset: 91514},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2889, col: 13, offset: 91489},
+																													pos:        position{line: 2890, col: 13, offset: 91514},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2889, col: 20, offset: 91496},
+																													pos:        position{line: 2890, col: 20, offset: 91521},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2889, col: 29, offset: 91505},
+																													pos:        position{line: 2890, col: 29, offset: 91530},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6125,9 +6125,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2899, col: 8, offset: 91665},
+																										pos: position{line: 2900, col: 8, offset: 91690},
 																										expr: &anyMatcher{
-																											line: 2899, col: 9, offset: 91666,
+																											line: 2900, col: 9, offset: 91691,
 																										},
 																									},
 																								},
@@ -6143,9 +6143,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2899, col: 8, offset: 91665},
+																		pos: position{line: 2900, col: 8, offset: 91690},
 																		expr: &anyMatcher{
-																			line: 2899, col: 9, offset: 91666,
+																			line: 2900, col: 9, offset: 91691,
 																		},
 																	},
 																},
@@ -6201,10 +6201,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 772, col: 8, offset: 24782},
 																		expr: &actionExpr{
-																			pos: position{line: 2880, col: 10, offset: 91317},
+																			pos: position{line: 2881, col: 10, offset: 91342},
 																			run: (*parser).callonDocumentFragment439,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2880, col: 10, offset: 91317},
+																				pos:        position{line: 2881, col: 10, offset: 91342},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6213,28 +6213,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2902, col: 8, offset: 91715},
+																		pos: position{line: 2903, col: 8, offset: 91740},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2889, col: 12, offset: 91488},
+																				pos: position{line: 2890, col: 12, offset: 91513},
 																				run: (*parser).callonDocumentFragment442,
 																				expr: &choiceExpr{
-																					pos: position{line: 2889, col: 13, offset: 91489},
+																					pos: position{line: 2890, col: 13, offset: 91514},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 13, offset: 91489},
+																							pos:        position{line: 2890, col: 13, offset: 91514},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 20, offset: 91496},
+																							pos:        position{line: 2890, col: 20, offset: 91521},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 29, offset: 91505},
+																							pos:        position{line: 2890, col: 29, offset: 91530},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6243,9 +6243,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2899, col: 8, offset: 91665},
+																				pos: position{line: 2900, col: 8, offset: 91690},
 																				expr: &anyMatcher{
-																					line: 2899, col: 9, offset: 91666,
+																					line: 2900, col: 9, offset: 91691,
 																				},
 																			},
 																		},
@@ -6317,10 +6317,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 772, col: 8, offset: 24782},
 																												expr: &actionExpr{
-																													pos: position{line: 2880, col: 10, offset: 91317},
+																													pos: position{line: 2881, col: 10, offset: 91342},
 																													run: (*parser).callonDocumentFragment467,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2880, col: 10, offset: 91317},
+																														pos:        position{line: 2881, col: 10, offset: 91342},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6329,28 +6329,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2902, col: 8, offset: 91715},
+																												pos: position{line: 2903, col: 8, offset: 91740},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2889, col: 12, offset: 91488},
+																														pos: position{line: 2890, col: 12, offset: 91513},
 																														run: (*parser).callonDocumentFragment470,
 																														expr: &choiceExpr{
-																															pos: position{line: 2889, col: 13, offset: 91489},
+																															pos: position{line: 2890, col: 13, offset: 91514},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2889, col: 13, offset: 91489},
+																																	pos:        position{line: 2890, col: 13, offset: 91514},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2889, col: 20, offset: 91496},
+																																	pos:        position{line: 2890, col: 20, offset: 91521},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2889, col: 29, offset: 91505},
+																																	pos:        position{line: 2890, col: 29, offset: 91530},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6359,9 +6359,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2899, col: 8, offset: 91665},
+																														pos: position{line: 2900, col: 8, offset: 91690},
 																														expr: &anyMatcher{
-																															line: 2899, col: 9, offset: 91666,
+																															line: 2900, col: 9, offset: 91691,
 																														},
 																													},
 																												},
@@ -6377,9 +6377,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2899, col: 8, offset: 91665},
+																						pos: position{line: 2900, col: 8, offset: 91690},
 																						expr: &anyMatcher{
-																							line: 2899, col: 9, offset: 91666,
+																							line: 2900, col: 9, offset: 91691,
 																						},
 																					},
 																				},
@@ -6395,21 +6395,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2897, col: 11, offset: 91651},
+																							pos: position{line: 2898, col: 11, offset: 91676},
 																							expr: &anyMatcher{
-																								line: 2897, col: 13, offset: 91653,
+																								line: 2898, col: 13, offset: 91678,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2826, col: 13, offset: 89843},
+																								pos: position{line: 2827, col: 13, offset: 89868},
 																								run: (*parser).callonDocumentFragment486,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2826, col: 13, offset: 89843},
+																									pos: position{line: 2827, col: 13, offset: 89868},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2826, col: 13, offset: 89843},
+																										pos:        position{line: 2827, col: 13, offset: 89868},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6419,28 +6419,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2902, col: 8, offset: 91715},
+																							pos: position{line: 2903, col: 8, offset: 91740},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2889, col: 12, offset: 91488},
+																									pos: position{line: 2890, col: 12, offset: 91513},
 																									run: (*parser).callonDocumentFragment490,
 																									expr: &choiceExpr{
-																										pos: position{line: 2889, col: 13, offset: 91489},
+																										pos: position{line: 2890, col: 13, offset: 91514},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 13, offset: 91489},
+																												pos:        position{line: 2890, col: 13, offset: 91514},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 20, offset: 91496},
+																												pos:        position{line: 2890, col: 20, offset: 91521},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 29, offset: 91505},
+																												pos:        position{line: 2890, col: 29, offset: 91530},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6449,9 +6449,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2899, col: 8, offset: 91665},
+																									pos: position{line: 2900, col: 8, offset: 91690},
 																									expr: &anyMatcher{
-																										line: 2899, col: 9, offset: 91666,
+																										line: 2900, col: 9, offset: 91691,
 																									},
 																								},
 																							},
@@ -6516,10 +6516,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 772, col: 8, offset: 24782},
 																								expr: &actionExpr{
-																									pos: position{line: 2880, col: 10, offset: 91317},
+																									pos: position{line: 2881, col: 10, offset: 91342},
 																									run: (*parser).callonDocumentFragment511,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2880, col: 10, offset: 91317},
+																										pos:        position{line: 2881, col: 10, offset: 91342},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6528,28 +6528,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2902, col: 8, offset: 91715},
+																								pos: position{line: 2903, col: 8, offset: 91740},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2889, col: 12, offset: 91488},
+																										pos: position{line: 2890, col: 12, offset: 91513},
 																										run: (*parser).callonDocumentFragment514,
 																										expr: &choiceExpr{
-																											pos: position{line: 2889, col: 13, offset: 91489},
+																											pos: position{line: 2890, col: 13, offset: 91514},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2889, col: 13, offset: 91489},
+																													pos:        position{line: 2890, col: 13, offset: 91514},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2889, col: 20, offset: 91496},
+																													pos:        position{line: 2890, col: 20, offset: 91521},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2889, col: 29, offset: 91505},
+																													pos:        position{line: 2890, col: 29, offset: 91530},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6558,9 +6558,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2899, col: 8, offset: 91665},
+																										pos: position{line: 2900, col: 8, offset: 91690},
 																										expr: &anyMatcher{
-																											line: 2899, col: 9, offset: 91666,
+																											line: 2900, col: 9, offset: 91691,
 																										},
 																									},
 																								},
@@ -6576,9 +6576,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2899, col: 8, offset: 91665},
+																		pos: position{line: 2900, col: 8, offset: 91690},
 																		expr: &anyMatcher{
-																			line: 2899, col: 9, offset: 91666,
+																			line: 2900, col: 9, offset: 91691,
 																		},
 																	},
 																},
@@ -6634,10 +6634,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 786, col: 8, offset: 25258},
 																		expr: &actionExpr{
-																			pos: position{line: 2880, col: 10, offset: 91317},
+																			pos: position{line: 2881, col: 10, offset: 91342},
 																			run: (*parser).callonDocumentFragment536,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2880, col: 10, offset: 91317},
+																				pos:        position{line: 2881, col: 10, offset: 91342},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6646,28 +6646,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2902, col: 8, offset: 91715},
+																		pos: position{line: 2903, col: 8, offset: 91740},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2889, col: 12, offset: 91488},
+																				pos: position{line: 2890, col: 12, offset: 91513},
 																				run: (*parser).callonDocumentFragment539,
 																				expr: &choiceExpr{
-																					pos: position{line: 2889, col: 13, offset: 91489},
+																					pos: position{line: 2890, col: 13, offset: 91514},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 13, offset: 91489},
+																							pos:        position{line: 2890, col: 13, offset: 91514},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 20, offset: 91496},
+																							pos:        position{line: 2890, col: 20, offset: 91521},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 29, offset: 91505},
+																							pos:        position{line: 2890, col: 29, offset: 91530},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6676,9 +6676,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2899, col: 8, offset: 91665},
+																				pos: position{line: 2900, col: 8, offset: 91690},
 																				expr: &anyMatcher{
-																					line: 2899, col: 9, offset: 91666,
+																					line: 2900, col: 9, offset: 91691,
 																				},
 																			},
 																		},
@@ -6750,10 +6750,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 786, col: 8, offset: 25258},
 																												expr: &actionExpr{
-																													pos: position{line: 2880, col: 10, offset: 91317},
+																													pos: position{line: 2881, col: 10, offset: 91342},
 																													run: (*parser).callonDocumentFragment564,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2880, col: 10, offset: 91317},
+																														pos:        position{line: 2881, col: 10, offset: 91342},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6762,28 +6762,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2902, col: 8, offset: 91715},
+																												pos: position{line: 2903, col: 8, offset: 91740},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2889, col: 12, offset: 91488},
+																														pos: position{line: 2890, col: 12, offset: 91513},
 																														run: (*parser).callonDocumentFragment567,
 																														expr: &choiceExpr{
-																															pos: position{line: 2889, col: 13, offset: 91489},
+																															pos: position{line: 2890, col: 13, offset: 91514},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2889, col: 13, offset: 91489},
+																																	pos:        position{line: 2890, col: 13, offset: 91514},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2889, col: 20, offset: 91496},
+																																	pos:        position{line: 2890, col: 20, offset: 91521},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2889, col: 29, offset: 91505},
+																																	pos:        position{line: 2890, col: 29, offset: 91530},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6792,9 +6792,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2899, col: 8, offset: 91665},
+																														pos: position{line: 2900, col: 8, offset: 91690},
 																														expr: &anyMatcher{
-																															line: 2899, col: 9, offset: 91666,
+																															line: 2900, col: 9, offset: 91691,
 																														},
 																													},
 																												},
@@ -6810,9 +6810,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2899, col: 8, offset: 91665},
+																						pos: position{line: 2900, col: 8, offset: 91690},
 																						expr: &anyMatcher{
-																							line: 2899, col: 9, offset: 91666,
+																							line: 2900, col: 9, offset: 91691,
 																						},
 																					},
 																				},
@@ -6828,21 +6828,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2897, col: 11, offset: 91651},
+																							pos: position{line: 2898, col: 11, offset: 91676},
 																							expr: &anyMatcher{
-																								line: 2897, col: 13, offset: 91653,
+																								line: 2898, col: 13, offset: 91678,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2826, col: 13, offset: 89843},
+																								pos: position{line: 2827, col: 13, offset: 89868},
 																								run: (*parser).callonDocumentFragment583,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2826, col: 13, offset: 89843},
+																									pos: position{line: 2827, col: 13, offset: 89868},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2826, col: 13, offset: 89843},
+																										pos:        position{line: 2827, col: 13, offset: 89868},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6852,28 +6852,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2902, col: 8, offset: 91715},
+																							pos: position{line: 2903, col: 8, offset: 91740},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2889, col: 12, offset: 91488},
+																									pos: position{line: 2890, col: 12, offset: 91513},
 																									run: (*parser).callonDocumentFragment587,
 																									expr: &choiceExpr{
-																										pos: position{line: 2889, col: 13, offset: 91489},
+																										pos: position{line: 2890, col: 13, offset: 91514},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 13, offset: 91489},
+																												pos:        position{line: 2890, col: 13, offset: 91514},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 20, offset: 91496},
+																												pos:        position{line: 2890, col: 20, offset: 91521},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 29, offset: 91505},
+																												pos:        position{line: 2890, col: 29, offset: 91530},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6882,9 +6882,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2899, col: 8, offset: 91665},
+																									pos: position{line: 2900, col: 8, offset: 91690},
 																									expr: &anyMatcher{
-																										line: 2899, col: 9, offset: 91666,
+																										line: 2900, col: 9, offset: 91691,
 																									},
 																								},
 																							},
@@ -6949,10 +6949,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 786, col: 8, offset: 25258},
 																								expr: &actionExpr{
-																									pos: position{line: 2880, col: 10, offset: 91317},
+																									pos: position{line: 2881, col: 10, offset: 91342},
 																									run: (*parser).callonDocumentFragment608,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2880, col: 10, offset: 91317},
+																										pos:        position{line: 2881, col: 10, offset: 91342},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6961,28 +6961,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2902, col: 8, offset: 91715},
+																								pos: position{line: 2903, col: 8, offset: 91740},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2889, col: 12, offset: 91488},
+																										pos: position{line: 2890, col: 12, offset: 91513},
 																										run: (*parser).callonDocumentFragment611,
 																										expr: &choiceExpr{
-																											pos: position{line: 2889, col: 13, offset: 91489},
+																											pos: position{line: 2890, col: 13, offset: 91514},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2889, col: 13, offset: 91489},
+																													pos:        position{line: 2890, col: 13, offset: 91514},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2889, col: 20, offset: 91496},
+																													pos:        position{line: 2890, col: 20, offset: 91521},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2889, col: 29, offset: 91505},
+																													pos:        position{line: 2890, col: 29, offset: 91530},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6991,9 +6991,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2899, col: 8, offset: 91665},
+																										pos: position{line: 2900, col: 8, offset: 91690},
 																										expr: &anyMatcher{
-																											line: 2899, col: 9, offset: 91666,
+																											line: 2900, col: 9, offset: 91691,
 																										},
 																									},
 																								},
@@ -7009,9 +7009,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2899, col: 8, offset: 91665},
+																		pos: position{line: 2900, col: 8, offset: 91690},
 																		expr: &anyMatcher{
-																			line: 2899, col: 9, offset: 91666,
+																			line: 2900, col: 9, offset: 91691,
 																		},
 																	},
 																},
@@ -7045,18 +7045,18 @@ var g = &grammar{
 																				pos: position{line: 677, col: 14, offset: 21525},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2897, col: 11, offset: 91651},
+																						pos: position{line: 2898, col: 11, offset: 91676},
 																						expr: &anyMatcher{
-																							line: 2897, col: 13, offset: 91653,
+																							line: 2898, col: 13, offset: 91678,
 																						},
 																					},
 																					&zeroOrMoreExpr{
 																						pos: position{line: 677, col: 21, offset: 21532},
 																						expr: &actionExpr{
-																							pos: position{line: 2880, col: 10, offset: 91317},
+																							pos: position{line: 2881, col: 10, offset: 91342},
 																							run: (*parser).callonDocumentFragment632,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2880, col: 10, offset: 91317},
+																								pos:        position{line: 2881, col: 10, offset: 91342},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -7065,28 +7065,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2902, col: 8, offset: 91715},
+																						pos: position{line: 2903, col: 8, offset: 91740},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2889, col: 12, offset: 91488},
+																								pos: position{line: 2890, col: 12, offset: 91513},
 																								run: (*parser).callonDocumentFragment635,
 																								expr: &choiceExpr{
-																									pos: position{line: 2889, col: 13, offset: 91489},
+																									pos: position{line: 2890, col: 13, offset: 91514},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 13, offset: 91489},
+																											pos:        position{line: 2890, col: 13, offset: 91514},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 20, offset: 91496},
+																											pos:        position{line: 2890, col: 20, offset: 91521},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 29, offset: 91505},
+																											pos:        position{line: 2890, col: 29, offset: 91530},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -7095,9 +7095,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2899, col: 8, offset: 91665},
+																								pos: position{line: 2900, col: 8, offset: 91690},
 																								expr: &anyMatcher{
-																									line: 2899, col: 9, offset: 91666,
+																									line: 2900, col: 9, offset: 91691,
 																								},
 																							},
 																						},
@@ -7116,12 +7116,12 @@ var g = &grammar{
 																		pos:   position{line: 985, col: 5, offset: 30748},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2830, col: 14, offset: 89910},
+																			pos: position{line: 2831, col: 14, offset: 89935},
 																			run: (*parser).callonDocumentFragment644,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2830, col: 14, offset: 89910},
+																				pos: position{line: 2831, col: 14, offset: 89935},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2830, col: 14, offset: 89910},
+																					pos:        position{line: 2831, col: 14, offset: 89935},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -7131,28 +7131,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2902, col: 8, offset: 91715},
+																		pos: position{line: 2903, col: 8, offset: 91740},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2889, col: 12, offset: 91488},
+																				pos: position{line: 2890, col: 12, offset: 91513},
 																				run: (*parser).callonDocumentFragment648,
 																				expr: &choiceExpr{
-																					pos: position{line: 2889, col: 13, offset: 91489},
+																					pos: position{line: 2890, col: 13, offset: 91514},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 13, offset: 91489},
+																							pos:        position{line: 2890, col: 13, offset: 91514},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 20, offset: 91496},
+																							pos:        position{line: 2890, col: 20, offset: 91521},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 29, offset: 91505},
+																							pos:        position{line: 2890, col: 29, offset: 91530},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7161,9 +7161,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2899, col: 8, offset: 91665},
+																				pos: position{line: 2900, col: 8, offset: 91690},
 																				expr: &anyMatcher{
-																					line: 2899, col: 9, offset: 91666,
+																					line: 2900, col: 9, offset: 91691,
 																				},
 																			},
 																		},
@@ -7195,18 +7195,18 @@ var g = &grammar{
 																							pos: position{line: 677, col: 14, offset: 21525},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2897, col: 11, offset: 91651},
+																									pos: position{line: 2898, col: 11, offset: 91676},
 																									expr: &anyMatcher{
-																										line: 2897, col: 13, offset: 91653,
+																										line: 2898, col: 13, offset: 91678,
 																									},
 																								},
 																								&zeroOrMoreExpr{
 																									pos: position{line: 677, col: 21, offset: 21532},
 																									expr: &actionExpr{
-																										pos: position{line: 2880, col: 10, offset: 91317},
+																										pos: position{line: 2881, col: 10, offset: 91342},
 																										run: (*parser).callonDocumentFragment666,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2880, col: 10, offset: 91317},
+																											pos:        position{line: 2881, col: 10, offset: 91342},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7215,28 +7215,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2902, col: 8, offset: 91715},
+																									pos: position{line: 2903, col: 8, offset: 91740},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2889, col: 12, offset: 91488},
+																											pos: position{line: 2890, col: 12, offset: 91513},
 																											run: (*parser).callonDocumentFragment669,
 																											expr: &choiceExpr{
-																												pos: position{line: 2889, col: 13, offset: 91489},
+																												pos: position{line: 2890, col: 13, offset: 91514},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2889, col: 13, offset: 91489},
+																														pos:        position{line: 2890, col: 13, offset: 91514},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2889, col: 20, offset: 91496},
+																														pos:        position{line: 2890, col: 20, offset: 91521},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2889, col: 29, offset: 91505},
+																														pos:        position{line: 2890, col: 29, offset: 91530},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7245,9 +7245,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2899, col: 8, offset: 91665},
+																											pos: position{line: 2900, col: 8, offset: 91690},
 																											expr: &anyMatcher{
-																												line: 2899, col: 9, offset: 91666,
+																												line: 2900, col: 9, offset: 91691,
 																											},
 																										},
 																									},
@@ -7266,12 +7266,12 @@ var g = &grammar{
 																					pos:   position{line: 985, col: 5, offset: 30748},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2830, col: 14, offset: 89910},
+																						pos: position{line: 2831, col: 14, offset: 89935},
 																						run: (*parser).callonDocumentFragment678,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2830, col: 14, offset: 89910},
+																							pos: position{line: 2831, col: 14, offset: 89935},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2830, col: 14, offset: 89910},
+																								pos:        position{line: 2831, col: 14, offset: 89935},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7281,28 +7281,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2902, col: 8, offset: 91715},
+																					pos: position{line: 2903, col: 8, offset: 91740},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2889, col: 12, offset: 91488},
+																							pos: position{line: 2890, col: 12, offset: 91513},
 																							run: (*parser).callonDocumentFragment682,
 																							expr: &choiceExpr{
-																								pos: position{line: 2889, col: 13, offset: 91489},
+																								pos: position{line: 2890, col: 13, offset: 91514},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2889, col: 13, offset: 91489},
+																										pos:        position{line: 2890, col: 13, offset: 91514},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2889, col: 20, offset: 91496},
+																										pos:        position{line: 2890, col: 20, offset: 91521},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2889, col: 29, offset: 91505},
+																										pos:        position{line: 2890, col: 29, offset: 91530},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7311,9 +7311,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2899, col: 8, offset: 91665},
+																							pos: position{line: 2900, col: 8, offset: 91690},
 																							expr: &anyMatcher{
-																								line: 2899, col: 9, offset: 91666,
+																								line: 2900, col: 9, offset: 91691,
 																							},
 																						},
 																					},
@@ -7322,21 +7322,21 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 1797, col: 5, offset: 58258},
+																		pos: position{line: 1798, col: 5, offset: 58283},
 																		run: (*parser).callonDocumentFragment689,
 																		expr: &seqExpr{
-																			pos: position{line: 1797, col: 5, offset: 58258},
+																			pos: position{line: 1798, col: 5, offset: 58283},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1797, col: 5, offset: 58258},
+																					pos:   position{line: 1798, col: 5, offset: 58283},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2830, col: 14, offset: 89910},
+																						pos: position{line: 2831, col: 14, offset: 89935},
 																						run: (*parser).callonDocumentFragment692,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2830, col: 14, offset: 89910},
+																							pos: position{line: 2831, col: 14, offset: 89935},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2830, col: 14, offset: 89910},
+																								pos:        position{line: 2831, col: 14, offset: 89935},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7346,32 +7346,32 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1798, col: 5, offset: 58282},
+																					pos: position{line: 1799, col: 5, offset: 58307},
 																					run: (*parser).callonDocumentFragment695,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2902, col: 8, offset: 91715},
+																					pos: position{line: 2903, col: 8, offset: 91740},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2889, col: 12, offset: 91488},
+																							pos: position{line: 2890, col: 12, offset: 91513},
 																							run: (*parser).callonDocumentFragment697,
 																							expr: &choiceExpr{
-																								pos: position{line: 2889, col: 13, offset: 91489},
+																								pos: position{line: 2890, col: 13, offset: 91514},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2889, col: 13, offset: 91489},
+																										pos:        position{line: 2890, col: 13, offset: 91514},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2889, col: 20, offset: 91496},
+																										pos:        position{line: 2890, col: 20, offset: 91521},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2889, col: 29, offset: 91505},
+																										pos:        position{line: 2890, col: 29, offset: 91530},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7380,9 +7380,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2899, col: 8, offset: 91665},
+																							pos: position{line: 2900, col: 8, offset: 91690},
 																							expr: &anyMatcher{
-																								line: 2899, col: 9, offset: 91666,
+																								line: 2900, col: 9, offset: 91691,
 																							},
 																						},
 																					},
@@ -7429,10 +7429,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 779, col: 8, offset: 25013},
 																		expr: &actionExpr{
-																			pos: position{line: 2880, col: 10, offset: 91317},
+																			pos: position{line: 2881, col: 10, offset: 91342},
 																			run: (*parser).callonDocumentFragment713,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2880, col: 10, offset: 91317},
+																				pos:        position{line: 2881, col: 10, offset: 91342},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7441,28 +7441,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2902, col: 8, offset: 91715},
+																		pos: position{line: 2903, col: 8, offset: 91740},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2889, col: 12, offset: 91488},
+																				pos: position{line: 2890, col: 12, offset: 91513},
 																				run: (*parser).callonDocumentFragment716,
 																				expr: &choiceExpr{
-																					pos: position{line: 2889, col: 13, offset: 91489},
+																					pos: position{line: 2890, col: 13, offset: 91514},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 13, offset: 91489},
+																							pos:        position{line: 2890, col: 13, offset: 91514},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 20, offset: 91496},
+																							pos:        position{line: 2890, col: 20, offset: 91521},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 29, offset: 91505},
+																							pos:        position{line: 2890, col: 29, offset: 91530},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7471,9 +7471,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2899, col: 8, offset: 91665},
+																				pos: position{line: 2900, col: 8, offset: 91690},
 																				expr: &anyMatcher{
-																					line: 2899, col: 9, offset: 91666,
+																					line: 2900, col: 9, offset: 91691,
 																				},
 																			},
 																		},
@@ -7521,10 +7521,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 779, col: 8, offset: 25013},
 																									expr: &actionExpr{
-																										pos: position{line: 2880, col: 10, offset: 91317},
+																										pos: position{line: 2881, col: 10, offset: 91342},
 																										run: (*parser).callonDocumentFragment735,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2880, col: 10, offset: 91317},
+																											pos:        position{line: 2881, col: 10, offset: 91342},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7533,28 +7533,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2902, col: 8, offset: 91715},
+																									pos: position{line: 2903, col: 8, offset: 91740},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2889, col: 12, offset: 91488},
+																											pos: position{line: 2890, col: 12, offset: 91513},
 																											run: (*parser).callonDocumentFragment738,
 																											expr: &choiceExpr{
-																												pos: position{line: 2889, col: 13, offset: 91489},
+																												pos: position{line: 2890, col: 13, offset: 91514},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2889, col: 13, offset: 91489},
+																														pos:        position{line: 2890, col: 13, offset: 91514},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2889, col: 20, offset: 91496},
+																														pos:        position{line: 2890, col: 20, offset: 91521},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2889, col: 29, offset: 91505},
+																														pos:        position{line: 2890, col: 29, offset: 91530},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7563,9 +7563,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2899, col: 8, offset: 91665},
+																											pos: position{line: 2900, col: 8, offset: 91690},
 																											expr: &anyMatcher{
-																												line: 2899, col: 9, offset: 91666,
+																												line: 2900, col: 9, offset: 91691,
 																											},
 																										},
 																									},
@@ -7574,9 +7574,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2899, col: 8, offset: 91665},
+																						pos: position{line: 2900, col: 8, offset: 91690},
 																						expr: &anyMatcher{
-																							line: 2899, col: 9, offset: 91666,
+																							line: 2900, col: 9, offset: 91691,
 																						},
 																					},
 																				},
@@ -7592,21 +7592,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2897, col: 11, offset: 91651},
+																							pos: position{line: 2898, col: 11, offset: 91676},
 																							expr: &anyMatcher{
-																								line: 2897, col: 13, offset: 91653,
+																								line: 2898, col: 13, offset: 91678,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2826, col: 13, offset: 89843},
+																								pos: position{line: 2827, col: 13, offset: 89868},
 																								run: (*parser).callonDocumentFragment753,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2826, col: 13, offset: 89843},
+																									pos: position{line: 2827, col: 13, offset: 89868},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2826, col: 13, offset: 89843},
+																										pos:        position{line: 2827, col: 13, offset: 89868},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7616,28 +7616,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2902, col: 8, offset: 91715},
+																							pos: position{line: 2903, col: 8, offset: 91740},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2889, col: 12, offset: 91488},
+																									pos: position{line: 2890, col: 12, offset: 91513},
 																									run: (*parser).callonDocumentFragment757,
 																									expr: &choiceExpr{
-																										pos: position{line: 2889, col: 13, offset: 91489},
+																										pos: position{line: 2890, col: 13, offset: 91514},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 13, offset: 91489},
+																												pos:        position{line: 2890, col: 13, offset: 91514},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 20, offset: 91496},
+																												pos:        position{line: 2890, col: 20, offset: 91521},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 29, offset: 91505},
+																												pos:        position{line: 2890, col: 29, offset: 91530},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7646,9 +7646,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2899, col: 8, offset: 91665},
+																									pos: position{line: 2900, col: 8, offset: 91690},
 																									expr: &anyMatcher{
-																										line: 2899, col: 9, offset: 91666,
+																										line: 2900, col: 9, offset: 91691,
 																									},
 																								},
 																							},
@@ -7693,10 +7693,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 779, col: 8, offset: 25013},
 																					expr: &actionExpr{
-																						pos: position{line: 2880, col: 10, offset: 91317},
+																						pos: position{line: 2881, col: 10, offset: 91342},
 																						run: (*parser).callonDocumentFragment773,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2880, col: 10, offset: 91317},
+																							pos:        position{line: 2881, col: 10, offset: 91342},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7705,28 +7705,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2902, col: 8, offset: 91715},
+																					pos: position{line: 2903, col: 8, offset: 91740},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2889, col: 12, offset: 91488},
+																							pos: position{line: 2890, col: 12, offset: 91513},
 																							run: (*parser).callonDocumentFragment776,
 																							expr: &choiceExpr{
-																								pos: position{line: 2889, col: 13, offset: 91489},
+																								pos: position{line: 2890, col: 13, offset: 91514},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2889, col: 13, offset: 91489},
+																										pos:        position{line: 2890, col: 13, offset: 91514},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2889, col: 20, offset: 91496},
+																										pos:        position{line: 2890, col: 20, offset: 91521},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2889, col: 29, offset: 91505},
+																										pos:        position{line: 2890, col: 29, offset: 91530},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7735,9 +7735,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2899, col: 8, offset: 91665},
+																							pos: position{line: 2900, col: 8, offset: 91690},
 																							expr: &anyMatcher{
-																								line: 2899, col: 9, offset: 91666,
+																								line: 2900, col: 9, offset: 91691,
 																							},
 																						},
 																					},
@@ -7746,9 +7746,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2899, col: 8, offset: 91665},
+																		pos: position{line: 2900, col: 8, offset: 91690},
 																		expr: &anyMatcher{
-																			line: 2899, col: 9, offset: 91666,
+																			line: 2900, col: 9, offset: 91691,
 																		},
 																	},
 																},
@@ -7804,10 +7804,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 793, col: 8, offset: 25510},
 																		expr: &actionExpr{
-																			pos: position{line: 2880, col: 10, offset: 91317},
+																			pos: position{line: 2881, col: 10, offset: 91342},
 																			run: (*parser).callonDocumentFragment797,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2880, col: 10, offset: 91317},
+																				pos:        position{line: 2881, col: 10, offset: 91342},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7816,28 +7816,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2902, col: 8, offset: 91715},
+																		pos: position{line: 2903, col: 8, offset: 91740},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2889, col: 12, offset: 91488},
+																				pos: position{line: 2890, col: 12, offset: 91513},
 																				run: (*parser).callonDocumentFragment800,
 																				expr: &choiceExpr{
-																					pos: position{line: 2889, col: 13, offset: 91489},
+																					pos: position{line: 2890, col: 13, offset: 91514},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 13, offset: 91489},
+																							pos:        position{line: 2890, col: 13, offset: 91514},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 20, offset: 91496},
+																							pos:        position{line: 2890, col: 20, offset: 91521},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 29, offset: 91505},
+																							pos:        position{line: 2890, col: 29, offset: 91530},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7846,9 +7846,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2899, col: 8, offset: 91665},
+																				pos: position{line: 2900, col: 8, offset: 91690},
 																				expr: &anyMatcher{
-																					line: 2899, col: 9, offset: 91666,
+																					line: 2900, col: 9, offset: 91691,
 																				},
 																			},
 																		},
@@ -7920,10 +7920,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 793, col: 8, offset: 25510},
 																												expr: &actionExpr{
-																													pos: position{line: 2880, col: 10, offset: 91317},
+																													pos: position{line: 2881, col: 10, offset: 91342},
 																													run: (*parser).callonDocumentFragment825,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2880, col: 10, offset: 91317},
+																														pos:        position{line: 2881, col: 10, offset: 91342},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7932,28 +7932,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2902, col: 8, offset: 91715},
+																												pos: position{line: 2903, col: 8, offset: 91740},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2889, col: 12, offset: 91488},
+																														pos: position{line: 2890, col: 12, offset: 91513},
 																														run: (*parser).callonDocumentFragment828,
 																														expr: &choiceExpr{
-																															pos: position{line: 2889, col: 13, offset: 91489},
+																															pos: position{line: 2890, col: 13, offset: 91514},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2889, col: 13, offset: 91489},
+																																	pos:        position{line: 2890, col: 13, offset: 91514},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2889, col: 20, offset: 91496},
+																																	pos:        position{line: 2890, col: 20, offset: 91521},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2889, col: 29, offset: 91505},
+																																	pos:        position{line: 2890, col: 29, offset: 91530},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7962,9 +7962,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2899, col: 8, offset: 91665},
+																														pos: position{line: 2900, col: 8, offset: 91690},
 																														expr: &anyMatcher{
-																															line: 2899, col: 9, offset: 91666,
+																															line: 2900, col: 9, offset: 91691,
 																														},
 																													},
 																												},
@@ -7980,9 +7980,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2899, col: 8, offset: 91665},
+																						pos: position{line: 2900, col: 8, offset: 91690},
 																						expr: &anyMatcher{
-																							line: 2899, col: 9, offset: 91666,
+																							line: 2900, col: 9, offset: 91691,
 																						},
 																					},
 																				},
@@ -7998,21 +7998,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2897, col: 11, offset: 91651},
+																							pos: position{line: 2898, col: 11, offset: 91676},
 																							expr: &anyMatcher{
-																								line: 2897, col: 13, offset: 91653,
+																								line: 2898, col: 13, offset: 91678,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2826, col: 13, offset: 89843},
+																								pos: position{line: 2827, col: 13, offset: 89868},
 																								run: (*parser).callonDocumentFragment844,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2826, col: 13, offset: 89843},
+																									pos: position{line: 2827, col: 13, offset: 89868},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2826, col: 13, offset: 89843},
+																										pos:        position{line: 2827, col: 13, offset: 89868},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8022,28 +8022,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2902, col: 8, offset: 91715},
+																							pos: position{line: 2903, col: 8, offset: 91740},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2889, col: 12, offset: 91488},
+																									pos: position{line: 2890, col: 12, offset: 91513},
 																									run: (*parser).callonDocumentFragment848,
 																									expr: &choiceExpr{
-																										pos: position{line: 2889, col: 13, offset: 91489},
+																										pos: position{line: 2890, col: 13, offset: 91514},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 13, offset: 91489},
+																												pos:        position{line: 2890, col: 13, offset: 91514},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 20, offset: 91496},
+																												pos:        position{line: 2890, col: 20, offset: 91521},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 29, offset: 91505},
+																												pos:        position{line: 2890, col: 29, offset: 91530},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8052,9 +8052,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2899, col: 8, offset: 91665},
+																									pos: position{line: 2900, col: 8, offset: 91690},
 																									expr: &anyMatcher{
-																										line: 2899, col: 9, offset: 91666,
+																										line: 2900, col: 9, offset: 91691,
 																									},
 																								},
 																							},
@@ -8119,10 +8119,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 793, col: 8, offset: 25510},
 																								expr: &actionExpr{
-																									pos: position{line: 2880, col: 10, offset: 91317},
+																									pos: position{line: 2881, col: 10, offset: 91342},
 																									run: (*parser).callonDocumentFragment869,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2880, col: 10, offset: 91317},
+																										pos:        position{line: 2881, col: 10, offset: 91342},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8131,28 +8131,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2902, col: 8, offset: 91715},
+																								pos: position{line: 2903, col: 8, offset: 91740},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2889, col: 12, offset: 91488},
+																										pos: position{line: 2890, col: 12, offset: 91513},
 																										run: (*parser).callonDocumentFragment872,
 																										expr: &choiceExpr{
-																											pos: position{line: 2889, col: 13, offset: 91489},
+																											pos: position{line: 2890, col: 13, offset: 91514},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2889, col: 13, offset: 91489},
+																													pos:        position{line: 2890, col: 13, offset: 91514},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2889, col: 20, offset: 91496},
+																													pos:        position{line: 2890, col: 20, offset: 91521},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2889, col: 29, offset: 91505},
+																													pos:        position{line: 2890, col: 29, offset: 91530},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8161,9 +8161,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2899, col: 8, offset: 91665},
+																										pos: position{line: 2900, col: 8, offset: 91690},
 																										expr: &anyMatcher{
-																											line: 2899, col: 9, offset: 91666,
+																											line: 2900, col: 9, offset: 91691,
 																										},
 																									},
 																								},
@@ -8179,9 +8179,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2899, col: 8, offset: 91665},
+																		pos: position{line: 2900, col: 8, offset: 91690},
 																		expr: &anyMatcher{
-																			line: 2899, col: 9, offset: 91666,
+																			line: 2900, col: 9, offset: 91691,
 																		},
 																	},
 																},
@@ -8237,10 +8237,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 800, col: 8, offset: 25760},
 																		expr: &actionExpr{
-																			pos: position{line: 2880, col: 10, offset: 91317},
+																			pos: position{line: 2881, col: 10, offset: 91342},
 																			run: (*parser).callonDocumentFragment894,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2880, col: 10, offset: 91317},
+																				pos:        position{line: 2881, col: 10, offset: 91342},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8249,28 +8249,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2902, col: 8, offset: 91715},
+																		pos: position{line: 2903, col: 8, offset: 91740},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2889, col: 12, offset: 91488},
+																				pos: position{line: 2890, col: 12, offset: 91513},
 																				run: (*parser).callonDocumentFragment897,
 																				expr: &choiceExpr{
-																					pos: position{line: 2889, col: 13, offset: 91489},
+																					pos: position{line: 2890, col: 13, offset: 91514},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 13, offset: 91489},
+																							pos:        position{line: 2890, col: 13, offset: 91514},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 20, offset: 91496},
+																							pos:        position{line: 2890, col: 20, offset: 91521},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 29, offset: 91505},
+																							pos:        position{line: 2890, col: 29, offset: 91530},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8279,9 +8279,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2899, col: 8, offset: 91665},
+																				pos: position{line: 2900, col: 8, offset: 91690},
 																				expr: &anyMatcher{
-																					line: 2899, col: 9, offset: 91666,
+																					line: 2900, col: 9, offset: 91691,
 																				},
 																			},
 																		},
@@ -8353,10 +8353,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 800, col: 8, offset: 25760},
 																												expr: &actionExpr{
-																													pos: position{line: 2880, col: 10, offset: 91317},
+																													pos: position{line: 2881, col: 10, offset: 91342},
 																													run: (*parser).callonDocumentFragment922,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2880, col: 10, offset: 91317},
+																														pos:        position{line: 2881, col: 10, offset: 91342},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8365,28 +8365,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2902, col: 8, offset: 91715},
+																												pos: position{line: 2903, col: 8, offset: 91740},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2889, col: 12, offset: 91488},
+																														pos: position{line: 2890, col: 12, offset: 91513},
 																														run: (*parser).callonDocumentFragment925,
 																														expr: &choiceExpr{
-																															pos: position{line: 2889, col: 13, offset: 91489},
+																															pos: position{line: 2890, col: 13, offset: 91514},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2889, col: 13, offset: 91489},
+																																	pos:        position{line: 2890, col: 13, offset: 91514},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2889, col: 20, offset: 91496},
+																																	pos:        position{line: 2890, col: 20, offset: 91521},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2889, col: 29, offset: 91505},
+																																	pos:        position{line: 2890, col: 29, offset: 91530},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8395,9 +8395,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2899, col: 8, offset: 91665},
+																														pos: position{line: 2900, col: 8, offset: 91690},
 																														expr: &anyMatcher{
-																															line: 2899, col: 9, offset: 91666,
+																															line: 2900, col: 9, offset: 91691,
 																														},
 																													},
 																												},
@@ -8413,9 +8413,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2899, col: 8, offset: 91665},
+																						pos: position{line: 2900, col: 8, offset: 91690},
 																						expr: &anyMatcher{
-																							line: 2899, col: 9, offset: 91666,
+																							line: 2900, col: 9, offset: 91691,
 																						},
 																					},
 																				},
@@ -8431,21 +8431,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2897, col: 11, offset: 91651},
+																							pos: position{line: 2898, col: 11, offset: 91676},
 																							expr: &anyMatcher{
-																								line: 2897, col: 13, offset: 91653,
+																								line: 2898, col: 13, offset: 91678,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2826, col: 13, offset: 89843},
+																								pos: position{line: 2827, col: 13, offset: 89868},
 																								run: (*parser).callonDocumentFragment941,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2826, col: 13, offset: 89843},
+																									pos: position{line: 2827, col: 13, offset: 89868},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2826, col: 13, offset: 89843},
+																										pos:        position{line: 2827, col: 13, offset: 89868},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8455,28 +8455,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2902, col: 8, offset: 91715},
+																							pos: position{line: 2903, col: 8, offset: 91740},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2889, col: 12, offset: 91488},
+																									pos: position{line: 2890, col: 12, offset: 91513},
 																									run: (*parser).callonDocumentFragment945,
 																									expr: &choiceExpr{
-																										pos: position{line: 2889, col: 13, offset: 91489},
+																										pos: position{line: 2890, col: 13, offset: 91514},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 13, offset: 91489},
+																												pos:        position{line: 2890, col: 13, offset: 91514},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 20, offset: 91496},
+																												pos:        position{line: 2890, col: 20, offset: 91521},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 29, offset: 91505},
+																												pos:        position{line: 2890, col: 29, offset: 91530},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8485,9 +8485,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2899, col: 8, offset: 91665},
+																									pos: position{line: 2900, col: 8, offset: 91690},
 																									expr: &anyMatcher{
-																										line: 2899, col: 9, offset: 91666,
+																										line: 2900, col: 9, offset: 91691,
 																									},
 																								},
 																							},
@@ -8552,10 +8552,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 800, col: 8, offset: 25760},
 																								expr: &actionExpr{
-																									pos: position{line: 2880, col: 10, offset: 91317},
+																									pos: position{line: 2881, col: 10, offset: 91342},
 																									run: (*parser).callonDocumentFragment966,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2880, col: 10, offset: 91317},
+																										pos:        position{line: 2881, col: 10, offset: 91342},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8564,28 +8564,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2902, col: 8, offset: 91715},
+																								pos: position{line: 2903, col: 8, offset: 91740},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2889, col: 12, offset: 91488},
+																										pos: position{line: 2890, col: 12, offset: 91513},
 																										run: (*parser).callonDocumentFragment969,
 																										expr: &choiceExpr{
-																											pos: position{line: 2889, col: 13, offset: 91489},
+																											pos: position{line: 2890, col: 13, offset: 91514},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2889, col: 13, offset: 91489},
+																													pos:        position{line: 2890, col: 13, offset: 91514},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2889, col: 20, offset: 91496},
+																													pos:        position{line: 2890, col: 20, offset: 91521},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2889, col: 29, offset: 91505},
+																													pos:        position{line: 2890, col: 29, offset: 91530},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8594,9 +8594,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2899, col: 8, offset: 91665},
+																										pos: position{line: 2900, col: 8, offset: 91690},
 																										expr: &anyMatcher{
-																											line: 2899, col: 9, offset: 91666,
+																											line: 2900, col: 9, offset: 91691,
 																										},
 																									},
 																								},
@@ -8612,9 +8612,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2899, col: 8, offset: 91665},
+																		pos: position{line: 2900, col: 8, offset: 91690},
 																		expr: &anyMatcher{
-																			line: 2899, col: 9, offset: 91666,
+																			line: 2900, col: 9, offset: 91691,
 																		},
 																	},
 																},
@@ -8670,10 +8670,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 807, col: 8, offset: 26006},
 																		expr: &actionExpr{
-																			pos: position{line: 2880, col: 10, offset: 91317},
+																			pos: position{line: 2881, col: 10, offset: 91342},
 																			run: (*parser).callonDocumentFragment991,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2880, col: 10, offset: 91317},
+																				pos:        position{line: 2881, col: 10, offset: 91342},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8682,28 +8682,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2902, col: 8, offset: 91715},
+																		pos: position{line: 2903, col: 8, offset: 91740},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2889, col: 12, offset: 91488},
+																				pos: position{line: 2890, col: 12, offset: 91513},
 																				run: (*parser).callonDocumentFragment994,
 																				expr: &choiceExpr{
-																					pos: position{line: 2889, col: 13, offset: 91489},
+																					pos: position{line: 2890, col: 13, offset: 91514},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 13, offset: 91489},
+																							pos:        position{line: 2890, col: 13, offset: 91514},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 20, offset: 91496},
+																							pos:        position{line: 2890, col: 20, offset: 91521},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 29, offset: 91505},
+																							pos:        position{line: 2890, col: 29, offset: 91530},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8712,9 +8712,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2899, col: 8, offset: 91665},
+																				pos: position{line: 2900, col: 8, offset: 91690},
 																				expr: &anyMatcher{
-																					line: 2899, col: 9, offset: 91666,
+																					line: 2900, col: 9, offset: 91691,
 																				},
 																			},
 																		},
@@ -8786,10 +8786,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 807, col: 8, offset: 26006},
 																												expr: &actionExpr{
-																													pos: position{line: 2880, col: 10, offset: 91317},
+																													pos: position{line: 2881, col: 10, offset: 91342},
 																													run: (*parser).callonDocumentFragment1019,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2880, col: 10, offset: 91317},
+																														pos:        position{line: 2881, col: 10, offset: 91342},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8798,28 +8798,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2902, col: 8, offset: 91715},
+																												pos: position{line: 2903, col: 8, offset: 91740},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2889, col: 12, offset: 91488},
+																														pos: position{line: 2890, col: 12, offset: 91513},
 																														run: (*parser).callonDocumentFragment1022,
 																														expr: &choiceExpr{
-																															pos: position{line: 2889, col: 13, offset: 91489},
+																															pos: position{line: 2890, col: 13, offset: 91514},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2889, col: 13, offset: 91489},
+																																	pos:        position{line: 2890, col: 13, offset: 91514},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2889, col: 20, offset: 91496},
+																																	pos:        position{line: 2890, col: 20, offset: 91521},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2889, col: 29, offset: 91505},
+																																	pos:        position{line: 2890, col: 29, offset: 91530},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8828,9 +8828,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2899, col: 8, offset: 91665},
+																														pos: position{line: 2900, col: 8, offset: 91690},
 																														expr: &anyMatcher{
-																															line: 2899, col: 9, offset: 91666,
+																															line: 2900, col: 9, offset: 91691,
 																														},
 																													},
 																												},
@@ -8846,9 +8846,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2899, col: 8, offset: 91665},
+																						pos: position{line: 2900, col: 8, offset: 91690},
 																						expr: &anyMatcher{
-																							line: 2899, col: 9, offset: 91666,
+																							line: 2900, col: 9, offset: 91691,
 																						},
 																					},
 																				},
@@ -8864,21 +8864,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2897, col: 11, offset: 91651},
+																							pos: position{line: 2898, col: 11, offset: 91676},
 																							expr: &anyMatcher{
-																								line: 2897, col: 13, offset: 91653,
+																								line: 2898, col: 13, offset: 91678,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2826, col: 13, offset: 89843},
+																								pos: position{line: 2827, col: 13, offset: 89868},
 																								run: (*parser).callonDocumentFragment1038,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2826, col: 13, offset: 89843},
+																									pos: position{line: 2827, col: 13, offset: 89868},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2826, col: 13, offset: 89843},
+																										pos:        position{line: 2827, col: 13, offset: 89868},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8888,28 +8888,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2902, col: 8, offset: 91715},
+																							pos: position{line: 2903, col: 8, offset: 91740},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2889, col: 12, offset: 91488},
+																									pos: position{line: 2890, col: 12, offset: 91513},
 																									run: (*parser).callonDocumentFragment1042,
 																									expr: &choiceExpr{
-																										pos: position{line: 2889, col: 13, offset: 91489},
+																										pos: position{line: 2890, col: 13, offset: 91514},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 13, offset: 91489},
+																												pos:        position{line: 2890, col: 13, offset: 91514},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 20, offset: 91496},
+																												pos:        position{line: 2890, col: 20, offset: 91521},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 29, offset: 91505},
+																												pos:        position{line: 2890, col: 29, offset: 91530},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8918,9 +8918,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2899, col: 8, offset: 91665},
+																									pos: position{line: 2900, col: 8, offset: 91690},
 																									expr: &anyMatcher{
-																										line: 2899, col: 9, offset: 91666,
+																										line: 2900, col: 9, offset: 91691,
 																									},
 																								},
 																							},
@@ -8985,10 +8985,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 807, col: 8, offset: 26006},
 																								expr: &actionExpr{
-																									pos: position{line: 2880, col: 10, offset: 91317},
+																									pos: position{line: 2881, col: 10, offset: 91342},
 																									run: (*parser).callonDocumentFragment1063,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2880, col: 10, offset: 91317},
+																										pos:        position{line: 2881, col: 10, offset: 91342},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8997,28 +8997,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2902, col: 8, offset: 91715},
+																								pos: position{line: 2903, col: 8, offset: 91740},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2889, col: 12, offset: 91488},
+																										pos: position{line: 2890, col: 12, offset: 91513},
 																										run: (*parser).callonDocumentFragment1066,
 																										expr: &choiceExpr{
-																											pos: position{line: 2889, col: 13, offset: 91489},
+																											pos: position{line: 2890, col: 13, offset: 91514},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2889, col: 13, offset: 91489},
+																													pos:        position{line: 2890, col: 13, offset: 91514},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2889, col: 20, offset: 91496},
+																													pos:        position{line: 2890, col: 20, offset: 91521},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2889, col: 29, offset: 91505},
+																													pos:        position{line: 2890, col: 29, offset: 91530},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -9027,9 +9027,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2899, col: 8, offset: 91665},
+																										pos: position{line: 2900, col: 8, offset: 91690},
 																										expr: &anyMatcher{
-																											line: 2899, col: 9, offset: 91666,
+																											line: 2900, col: 9, offset: 91691,
 																										},
 																									},
 																								},
@@ -9045,9 +9045,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2899, col: 8, offset: 91665},
+																		pos: position{line: 2900, col: 8, offset: 91690},
 																		expr: &anyMatcher{
-																			line: 2899, col: 9, offset: 91666,
+																			line: 2900, col: 9, offset: 91691,
 																		},
 																	},
 																},
@@ -9058,52 +9058,52 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2725, col: 18, offset: 86891},
+											pos: position{line: 2726, col: 18, offset: 86916},
 											run: (*parser).callonDocumentFragment1076,
 											expr: &seqExpr{
-												pos: position{line: 2725, col: 18, offset: 86891},
+												pos: position{line: 2726, col: 18, offset: 86916},
 												exprs: []interface{}{
 													&choiceExpr{
-														pos: position{line: 2726, col: 9, offset: 86901},
+														pos: position{line: 2727, col: 9, offset: 86926},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2726, col: 9, offset: 86901},
+																pos:        position{line: 2727, col: 9, offset: 86926},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2727, col: 11, offset: 86937},
+																pos:        position{line: 2728, col: 11, offset: 86962},
 																val:        "***",
 																ignoreCase: false,
 																want:       "\"***\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2727, col: 19, offset: 86945},
+																pos:        position{line: 2728, col: 19, offset: 86970},
 																val:        "* * *",
 																ignoreCase: false,
 																want:       "\"* * *\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2727, col: 29, offset: 86955},
+																pos:        position{line: 2728, col: 29, offset: 86980},
 																val:        "---",
 																ignoreCase: false,
 																want:       "\"---\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2727, col: 37, offset: 86963},
+																pos:        position{line: 2728, col: 37, offset: 86988},
 																val:        "- - -",
 																ignoreCase: false,
 																want:       "\"- - -\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2727, col: 47, offset: 86973},
+																pos:        position{line: 2728, col: 47, offset: 86998},
 																val:        "___",
 																ignoreCase: false,
 																want:       "\"___\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2727, col: 55, offset: 86981},
+																pos:        position{line: 2728, col: 55, offset: 87006},
 																val:        "_ _ _",
 																ignoreCase: false,
 																want:       "\"_ _ _\"",
@@ -9111,12 +9111,12 @@ var g = &grammar{
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2728, col: 11, offset: 87027},
+														pos: position{line: 2729, col: 11, offset: 87052},
 														expr: &actionExpr{
-															pos: position{line: 2880, col: 10, offset: 91317},
+															pos: position{line: 2881, col: 10, offset: 91342},
 															run: (*parser).callonDocumentFragment1087,
 															expr: &charClassMatcher{
-																pos:        position{line: 2880, col: 10, offset: 91317},
+																pos:        position{line: 2881, col: 10, offset: 91342},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9125,28 +9125,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2902, col: 8, offset: 91715},
+														pos: position{line: 2903, col: 8, offset: 91740},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2889, col: 12, offset: 91488},
+																pos: position{line: 2890, col: 12, offset: 91513},
 																run: (*parser).callonDocumentFragment1090,
 																expr: &choiceExpr{
-																	pos: position{line: 2889, col: 13, offset: 91489},
+																	pos: position{line: 2890, col: 13, offset: 91514},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2889, col: 13, offset: 91489},
+																			pos:        position{line: 2890, col: 13, offset: 91514},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2889, col: 20, offset: 91496},
+																			pos:        position{line: 2890, col: 20, offset: 91521},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2889, col: 29, offset: 91505},
+																			pos:        position{line: 2890, col: 29, offset: 91530},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9155,20 +9155,20 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2899, col: 8, offset: 91665},
+																pos: position{line: 2900, col: 8, offset: 91690},
 																expr: &anyMatcher{
-																	line: 2899, col: 9, offset: 91666,
+																	line: 2900, col: 9, offset: 91691,
 																},
 															},
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2728, col: 22, offset: 87038},
+														pos: position{line: 2729, col: 22, offset: 87063},
 														expr: &actionExpr{
-															pos: position{line: 2880, col: 10, offset: 91317},
+															pos: position{line: 2881, col: 10, offset: 91342},
 															run: (*parser).callonDocumentFragment1098,
 															expr: &charClassMatcher{
-																pos:        position{line: 2880, col: 10, offset: 91317},
+																pos:        position{line: 2881, col: 10, offset: 91342},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9177,28 +9177,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2902, col: 8, offset: 91715},
+														pos: position{line: 2903, col: 8, offset: 91740},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2889, col: 12, offset: 91488},
+																pos: position{line: 2890, col: 12, offset: 91513},
 																run: (*parser).callonDocumentFragment1101,
 																expr: &choiceExpr{
-																	pos: position{line: 2889, col: 13, offset: 91489},
+																	pos: position{line: 2890, col: 13, offset: 91514},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2889, col: 13, offset: 91489},
+																			pos:        position{line: 2890, col: 13, offset: 91514},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2889, col: 20, offset: 91496},
+																			pos:        position{line: 2890, col: 20, offset: 91521},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2889, col: 29, offset: 91505},
+																			pos:        position{line: 2890, col: 29, offset: 91530},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9207,9 +9207,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2899, col: 8, offset: 91665},
+																pos: position{line: 2900, col: 8, offset: 91690},
 																expr: &anyMatcher{
-																	line: 2899, col: 9, offset: 91666,
+																	line: 2900, col: 9, offset: 91691,
 																},
 															},
 														},
@@ -9222,24 +9222,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2616, col: 5, offset: 83827},
+											pos: position{line: 2617, col: 5, offset: 83852},
 											run: (*parser).callonDocumentFragment1109,
 											expr: &seqExpr{
-												pos: position{line: 2616, col: 5, offset: 83827},
+												pos: position{line: 2617, col: 5, offset: 83852},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2622, col: 19, offset: 83984},
+														pos:        position{line: 2623, col: 19, offset: 84009},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2622, col: 26, offset: 83991},
+														pos: position{line: 2623, col: 26, offset: 84016},
 														expr: &actionExpr{
-															pos: position{line: 2880, col: 10, offset: 91317},
+															pos: position{line: 2881, col: 10, offset: 91342},
 															run: (*parser).callonDocumentFragment1113,
 															expr: &charClassMatcher{
-																pos:        position{line: 2880, col: 10, offset: 91317},
+																pos:        position{line: 2881, col: 10, offset: 91342},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9248,28 +9248,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2902, col: 8, offset: 91715},
+														pos: position{line: 2903, col: 8, offset: 91740},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2889, col: 12, offset: 91488},
+																pos: position{line: 2890, col: 12, offset: 91513},
 																run: (*parser).callonDocumentFragment1116,
 																expr: &choiceExpr{
-																	pos: position{line: 2889, col: 13, offset: 91489},
+																	pos: position{line: 2890, col: 13, offset: 91514},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2889, col: 13, offset: 91489},
+																			pos:        position{line: 2890, col: 13, offset: 91514},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2889, col: 20, offset: 91496},
+																			pos:        position{line: 2890, col: 20, offset: 91521},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2889, col: 29, offset: 91505},
+																			pos:        position{line: 2890, col: 29, offset: 91530},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9278,20 +9278,20 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2899, col: 8, offset: 91665},
+																pos: position{line: 2900, col: 8, offset: 91690},
 																expr: &anyMatcher{
-																	line: 2899, col: 9, offset: 91666,
+																	line: 2900, col: 9, offset: 91691,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2617, col: 5, offset: 83851},
+														pos:   position{line: 2618, col: 5, offset: 83876},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2617, col: 11, offset: 83857},
+															pos: position{line: 2618, col: 11, offset: 83882},
 															expr: &choiceExpr{
-																pos: position{line: 2617, col: 12, offset: 83858},
+																pos: position{line: 2618, col: 12, offset: 83883},
 																alternatives: []interface{}{
 																	&actionExpr{
 																		pos: position{line: 677, col: 14, offset: 21525},
@@ -9300,18 +9300,18 @@ var g = &grammar{
 																			pos: position{line: 677, col: 14, offset: 21525},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2897, col: 11, offset: 91651},
+																					pos: position{line: 2898, col: 11, offset: 91676},
 																					expr: &anyMatcher{
-																						line: 2897, col: 13, offset: 91653,
+																						line: 2898, col: 13, offset: 91678,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21532},
 																					expr: &actionExpr{
-																						pos: position{line: 2880, col: 10, offset: 91317},
+																						pos: position{line: 2881, col: 10, offset: 91342},
 																						run: (*parser).callonDocumentFragment1131,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2880, col: 10, offset: 91317},
+																							pos:        position{line: 2881, col: 10, offset: 91342},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9320,28 +9320,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2902, col: 8, offset: 91715},
+																					pos: position{line: 2903, col: 8, offset: 91740},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2889, col: 12, offset: 91488},
+																							pos: position{line: 2890, col: 12, offset: 91513},
 																							run: (*parser).callonDocumentFragment1134,
 																							expr: &choiceExpr{
-																								pos: position{line: 2889, col: 13, offset: 91489},
+																								pos: position{line: 2890, col: 13, offset: 91514},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2889, col: 13, offset: 91489},
+																										pos:        position{line: 2890, col: 13, offset: 91514},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2889, col: 20, offset: 91496},
+																										pos:        position{line: 2890, col: 20, offset: 91521},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2889, col: 29, offset: 91505},
+																										pos:        position{line: 2890, col: 29, offset: 91530},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9350,9 +9350,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2899, col: 8, offset: 91665},
+																							pos: position{line: 2900, col: 8, offset: 91690},
 																							expr: &anyMatcher{
-																								line: 2899, col: 9, offset: 91666,
+																								line: 2900, col: 9, offset: 91691,
 																							},
 																						},
 																					},
@@ -9361,32 +9361,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2629, col: 5, offset: 84103},
+																		pos: position{line: 2630, col: 5, offset: 84128},
 																		run: (*parser).callonDocumentFragment1141,
 																		expr: &seqExpr{
-																			pos: position{line: 2629, col: 5, offset: 84103},
+																			pos: position{line: 2630, col: 5, offset: 84128},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2629, col: 5, offset: 84103},
+																					pos: position{line: 2630, col: 5, offset: 84128},
 																					expr: &choiceExpr{
-																						pos: position{line: 2626, col: 22, offset: 84064},
+																						pos: position{line: 2627, col: 22, offset: 84089},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2622, col: 19, offset: 83984},
+																								pos: position{line: 2623, col: 19, offset: 84009},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2622, col: 19, offset: 83984},
+																										pos:        position{line: 2623, col: 19, offset: 84009},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2622, col: 26, offset: 83991},
+																										pos: position{line: 2623, col: 26, offset: 84016},
 																										expr: &actionExpr{
-																											pos: position{line: 2880, col: 10, offset: 91317},
+																											pos: position{line: 2881, col: 10, offset: 91342},
 																											run: (*parser).callonDocumentFragment1148,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2880, col: 10, offset: 91317},
+																												pos:        position{line: 2881, col: 10, offset: 91342},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9395,28 +9395,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2902, col: 8, offset: 91715},
+																										pos: position{line: 2903, col: 8, offset: 91740},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2889, col: 12, offset: 91488},
+																												pos: position{line: 2890, col: 12, offset: 91513},
 																												run: (*parser).callonDocumentFragment1151,
 																												expr: &choiceExpr{
-																													pos: position{line: 2889, col: 13, offset: 91489},
+																													pos: position{line: 2890, col: 13, offset: 91514},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2889, col: 13, offset: 91489},
+																															pos:        position{line: 2890, col: 13, offset: 91514},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2889, col: 20, offset: 91496},
+																															pos:        position{line: 2890, col: 20, offset: 91521},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2889, col: 29, offset: 91505},
+																															pos:        position{line: 2890, col: 29, offset: 91530},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9425,9 +9425,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2899, col: 8, offset: 91665},
+																												pos: position{line: 2900, col: 8, offset: 91690},
 																												expr: &anyMatcher{
-																													line: 2899, col: 9, offset: 91666,
+																													line: 2900, col: 9, offset: 91691,
 																												},
 																											},
 																										},
@@ -9435,59 +9435,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2899, col: 8, offset: 91665},
+																								pos: position{line: 2900, col: 8, offset: 91690},
 																								expr: &anyMatcher{
-																									line: 2899, col: 9, offset: 91666,
+																									line: 2900, col: 9, offset: 91691,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2630, col: 5, offset: 84126},
+																					pos:   position{line: 2631, col: 5, offset: 84151},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2631, col: 9, offset: 84144},
+																						pos: position{line: 2632, col: 9, offset: 84169},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2631, col: 10, offset: 84145},
+																								pos: position{line: 2632, col: 10, offset: 84170},
 																								run: (*parser).callonDocumentFragment1162,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2631, col: 10, offset: 84145},
+																									pos:   position{line: 2632, col: 10, offset: 84170},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2631, col: 17, offset: 84152},
+																										pos: position{line: 2632, col: 17, offset: 84177},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2639, col: 21, offset: 84348},
+																												pos: position{line: 2640, col: 21, offset: 84373},
 																												run: (*parser).callonDocumentFragment1165,
 																												expr: &seqExpr{
-																													pos: position{line: 2639, col: 21, offset: 84348},
+																													pos: position{line: 2640, col: 21, offset: 84373},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2639, col: 21, offset: 84348},
+																															pos:   position{line: 2640, col: 21, offset: 84373},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2639, col: 27, offset: 84354},
+																																pos: position{line: 2640, col: 27, offset: 84379},
 																																expr: &actionExpr{
-																																	pos: position{line: 2644, col: 5, offset: 84429},
+																																	pos: position{line: 2645, col: 5, offset: 84454},
 																																	run: (*parser).callonDocumentFragment1169,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2644, col: 5, offset: 84429},
+																																		pos: position{line: 2645, col: 5, offset: 84454},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2644, col: 5, offset: 84429},
+																																				pos:        position{line: 2645, col: 5, offset: 84454},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2644, col: 9, offset: 84433},
+																																				pos: position{line: 2645, col: 9, offset: 84458},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2880, col: 10, offset: 91317},
+																																					pos: position{line: 2881, col: 10, offset: 91342},
 																																					run: (*parser).callonDocumentFragment1173,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2880, col: 10, offset: 91317},
+																																						pos:        position{line: 2881, col: 10, offset: 91342},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9496,21 +9496,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2644, col: 16, offset: 84440},
+																																				pos:   position{line: 2645, col: 16, offset: 84465},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2650, col: 5, offset: 84640},
+																																					pos: position{line: 2651, col: 5, offset: 84665},
 																																					run: (*parser).callonDocumentFragment1176,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2650, col: 5, offset: 84640},
+																																						pos:   position{line: 2651, col: 5, offset: 84665},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2650, col: 14, offset: 84649},
+																																							pos: position{line: 2651, col: 14, offset: 84674},
 																																							run: (*parser).callonDocumentFragment1178,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2650, col: 14, offset: 84649},
+																																								pos: position{line: 2651, col: 14, offset: 84674},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2650, col: 14, offset: 84649},
+																																									pos:        position{line: 2651, col: 14, offset: 84674},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9527,28 +9527,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2902, col: 8, offset: 91715},
+																															pos: position{line: 2903, col: 8, offset: 91740},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2889, col: 12, offset: 91488},
+																																	pos: position{line: 2890, col: 12, offset: 91513},
 																																	run: (*parser).callonDocumentFragment1182,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2889, col: 13, offset: 91489},
+																																		pos: position{line: 2890, col: 13, offset: 91514},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2889, col: 13, offset: 91489},
+																																				pos:        position{line: 2890, col: 13, offset: 91514},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2889, col: 20, offset: 91496},
+																																				pos:        position{line: 2890, col: 20, offset: 91521},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2889, col: 29, offset: 91505},
+																																				pos:        position{line: 2890, col: 29, offset: 91530},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9557,9 +9557,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2899, col: 8, offset: 91665},
+																																	pos: position{line: 2900, col: 8, offset: 91690},
 																																	expr: &anyMatcher{
-																																		line: 2899, col: 9, offset: 91666,
+																																		line: 2900, col: 9, offset: 91691,
 																																	},
 																																},
 																															},
@@ -9568,40 +9568,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2656, col: 24, offset: 84785},
+																												pos: position{line: 2657, col: 24, offset: 84810},
 																												run: (*parser).callonDocumentFragment1189,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2656, col: 24, offset: 84785},
+																													pos:   position{line: 2657, col: 24, offset: 84810},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2656, col: 30, offset: 84791},
+																														pos: position{line: 2657, col: 30, offset: 84816},
 																														expr: &actionExpr{
-																															pos: position{line: 2661, col: 5, offset: 84867},
+																															pos: position{line: 2662, col: 5, offset: 84892},
 																															run: (*parser).callonDocumentFragment1192,
 																															expr: &seqExpr{
-																																pos: position{line: 2661, col: 5, offset: 84867},
+																																pos: position{line: 2662, col: 5, offset: 84892},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2661, col: 5, offset: 84867},
+																																		pos: position{line: 2662, col: 5, offset: 84892},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2626, col: 22, offset: 84064},
+																																			pos: position{line: 2627, col: 22, offset: 84089},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2622, col: 19, offset: 83984},
+																																					pos: position{line: 2623, col: 19, offset: 84009},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2622, col: 19, offset: 83984},
+																																							pos:        position{line: 2623, col: 19, offset: 84009},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2622, col: 26, offset: 83991},
+																																							pos: position{line: 2623, col: 26, offset: 84016},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2880, col: 10, offset: 91317},
+																																								pos: position{line: 2881, col: 10, offset: 91342},
 																																								run: (*parser).callonDocumentFragment1199,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2880, col: 10, offset: 91317},
+																																									pos:        position{line: 2881, col: 10, offset: 91342},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9610,28 +9610,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2902, col: 8, offset: 91715},
+																																							pos: position{line: 2903, col: 8, offset: 91740},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2889, col: 12, offset: 91488},
+																																									pos: position{line: 2890, col: 12, offset: 91513},
 																																									run: (*parser).callonDocumentFragment1202,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2889, col: 13, offset: 91489},
+																																										pos: position{line: 2890, col: 13, offset: 91514},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2889, col: 13, offset: 91489},
+																																												pos:        position{line: 2890, col: 13, offset: 91514},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2889, col: 20, offset: 91496},
+																																												pos:        position{line: 2890, col: 20, offset: 91521},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2889, col: 29, offset: 91505},
+																																												pos:        position{line: 2890, col: 29, offset: 91530},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9640,9 +9640,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2899, col: 8, offset: 91665},
+																																									pos: position{line: 2900, col: 8, offset: 91690},
 																																									expr: &anyMatcher{
-																																										line: 2899, col: 9, offset: 91666,
+																																										line: 2900, col: 9, offset: 91691,
 																																									},
 																																								},
 																																							},
@@ -9650,16 +9650,16 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2899, col: 8, offset: 91665},
+																																					pos: position{line: 2900, col: 8, offset: 91690},
 																																					expr: &anyMatcher{
-																																						line: 2899, col: 9, offset: 91666,
+																																						line: 2900, col: 9, offset: 91691,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2662, col: 5, offset: 84890},
+																																		pos: position{line: 2663, col: 5, offset: 84915},
 																																		expr: &actionExpr{
 																																			pos: position{line: 677, col: 14, offset: 21525},
 																																			run: (*parser).callonDocumentFragment1212,
@@ -9667,18 +9667,18 @@ var g = &grammar{
 																																				pos: position{line: 677, col: 14, offset: 21525},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2897, col: 11, offset: 91651},
+																																						pos: position{line: 2898, col: 11, offset: 91676},
 																																						expr: &anyMatcher{
-																																							line: 2897, col: 13, offset: 91653,
+																																							line: 2898, col: 13, offset: 91678,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
 																																						pos: position{line: 677, col: 21, offset: 21532},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2880, col: 10, offset: 91317},
+																																							pos: position{line: 2881, col: 10, offset: 91342},
 																																							run: (*parser).callonDocumentFragment1217,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2880, col: 10, offset: 91317},
+																																								pos:        position{line: 2881, col: 10, offset: 91342},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9687,28 +9687,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2902, col: 8, offset: 91715},
+																																						pos: position{line: 2903, col: 8, offset: 91740},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2889, col: 12, offset: 91488},
+																																								pos: position{line: 2890, col: 12, offset: 91513},
 																																								run: (*parser).callonDocumentFragment1220,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2889, col: 13, offset: 91489},
+																																									pos: position{line: 2890, col: 13, offset: 91514},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2889, col: 13, offset: 91489},
+																																											pos:        position{line: 2890, col: 13, offset: 91514},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2889, col: 20, offset: 91496},
+																																											pos:        position{line: 2890, col: 20, offset: 91521},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2889, col: 29, offset: 91505},
+																																											pos:        position{line: 2890, col: 29, offset: 91530},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9717,9 +9717,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2899, col: 8, offset: 91665},
+																																								pos: position{line: 2900, col: 8, offset: 91690},
 																																								expr: &anyMatcher{
-																																									line: 2899, col: 9, offset: 91666,
+																																									line: 2900, col: 9, offset: 91691,
 																																								},
 																																							},
 																																						},
@@ -9729,17 +9729,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2663, col: 5, offset: 84905},
+																																		pos:   position{line: 2664, col: 5, offset: 84930},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2663, col: 12, offset: 84912},
+																																			pos: position{line: 2664, col: 12, offset: 84937},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2680, col: 20, offset: 85376},
+																																				pos: position{line: 2681, col: 20, offset: 85401},
 																																				run: (*parser).callonDocumentFragment1229,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2680, col: 20, offset: 85376},
+																																					pos: position{line: 2681, col: 20, offset: 85401},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2680, col: 20, offset: 85376},
+																																						pos:        position{line: 2681, col: 20, offset: 85401},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9750,18 +9750,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2663, col: 31, offset: 84931},
+																																		pos:        position{line: 2664, col: 31, offset: 84956},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2663, col: 35, offset: 84935},
+																																		pos: position{line: 2664, col: 35, offset: 84960},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2880, col: 10, offset: 91317},
+																																			pos: position{line: 2881, col: 10, offset: 91342},
 																																			run: (*parser).callonDocumentFragment1234,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2880, col: 10, offset: 91317},
+																																				pos:        position{line: 2881, col: 10, offset: 91342},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9770,27 +9770,27 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2663, col: 42, offset: 84942},
+																																		pos: position{line: 2664, col: 42, offset: 84967},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2889, col: 12, offset: 91488},
+																																			pos: position{line: 2890, col: 12, offset: 91513},
 																																			run: (*parser).callonDocumentFragment1237,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2889, col: 13, offset: 91489},
+																																				pos: position{line: 2890, col: 13, offset: 91514},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2889, col: 13, offset: 91489},
+																																						pos:        position{line: 2890, col: 13, offset: 91514},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2889, col: 20, offset: 91496},
+																																						pos:        position{line: 2890, col: 20, offset: 91521},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2889, col: 29, offset: 91505},
+																																						pos:        position{line: 2890, col: 29, offset: 91530},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9800,37 +9800,37 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2663, col: 51, offset: 84951},
+																																		pos:   position{line: 2664, col: 51, offset: 84976},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2669, col: 5, offset: 85110},
+																																			pos: position{line: 2670, col: 5, offset: 85135},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2670, col: 9, offset: 85120},
+																																				pos: position{line: 2671, col: 9, offset: 85145},
 																																				run: (*parser).callonDocumentFragment1244,
 																																				expr: &seqExpr{
-																																					pos: position{line: 2670, col: 9, offset: 85120},
+																																					pos: position{line: 2671, col: 9, offset: 85145},
 																																					exprs: []interface{}{
 																																						&notExpr{
-																																							pos: position{line: 2670, col: 9, offset: 85120},
+																																							pos: position{line: 2671, col: 9, offset: 85145},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2626, col: 22, offset: 84064},
+																																								pos: position{line: 2627, col: 22, offset: 84089},
 																																								alternatives: []interface{}{
 																																									&seqExpr{
-																																										pos: position{line: 2622, col: 19, offset: 83984},
+																																										pos: position{line: 2623, col: 19, offset: 84009},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2622, col: 19, offset: 83984},
+																																												pos:        position{line: 2623, col: 19, offset: 84009},
 																																												val:        "|===",
 																																												ignoreCase: false,
 																																												want:       "\"|===\"",
 																																											},
 																																											&zeroOrMoreExpr{
-																																												pos: position{line: 2622, col: 26, offset: 83991},
+																																												pos: position{line: 2623, col: 26, offset: 84016},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2880, col: 10, offset: 91317},
+																																													pos: position{line: 2881, col: 10, offset: 91342},
 																																													run: (*parser).callonDocumentFragment1251,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2880, col: 10, offset: 91317},
+																																														pos:        position{line: 2881, col: 10, offset: 91342},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -9839,28 +9839,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2902, col: 8, offset: 91715},
+																																												pos: position{line: 2903, col: 8, offset: 91740},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2889, col: 12, offset: 91488},
+																																														pos: position{line: 2890, col: 12, offset: 91513},
 																																														run: (*parser).callonDocumentFragment1254,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2889, col: 13, offset: 91489},
+																																															pos: position{line: 2890, col: 13, offset: 91514},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2889, col: 13, offset: 91489},
+																																																	pos:        position{line: 2890, col: 13, offset: 91514},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2889, col: 20, offset: 91496},
+																																																	pos:        position{line: 2890, col: 20, offset: 91521},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2889, col: 29, offset: 91505},
+																																																	pos:        position{line: 2890, col: 29, offset: 91530},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -9869,9 +9869,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2899, col: 8, offset: 91665},
+																																														pos: position{line: 2900, col: 8, offset: 91690},
 																																														expr: &anyMatcher{
-																																															line: 2899, col: 9, offset: 91666,
+																																															line: 2900, col: 9, offset: 91691,
 																																														},
 																																													},
 																																												},
@@ -9879,16 +9879,16 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2899, col: 8, offset: 91665},
+																																										pos: position{line: 2900, col: 8, offset: 91690},
 																																										expr: &anyMatcher{
-																																											line: 2899, col: 9, offset: 91666,
+																																											line: 2900, col: 9, offset: 91691,
 																																										},
 																																									},
 																																								},
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2671, col: 9, offset: 85147},
+																																							pos: position{line: 2672, col: 9, offset: 85172},
 																																							expr: &actionExpr{
 																																								pos: position{line: 677, col: 14, offset: 21525},
 																																								run: (*parser).callonDocumentFragment1264,
@@ -9896,18 +9896,18 @@ var g = &grammar{
 																																									pos: position{line: 677, col: 14, offset: 21525},
 																																									exprs: []interface{}{
 																																										&andExpr{
-																																											pos: position{line: 2897, col: 11, offset: 91651},
+																																											pos: position{line: 2898, col: 11, offset: 91676},
 																																											expr: &anyMatcher{
-																																												line: 2897, col: 13, offset: 91653,
+																																												line: 2898, col: 13, offset: 91678,
 																																											},
 																																										},
 																																										&zeroOrMoreExpr{
 																																											pos: position{line: 677, col: 21, offset: 21532},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2880, col: 10, offset: 91317},
+																																												pos: position{line: 2881, col: 10, offset: 91342},
 																																												run: (*parser).callonDocumentFragment1269,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2880, col: 10, offset: 91317},
+																																													pos:        position{line: 2881, col: 10, offset: 91342},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -9916,28 +9916,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2902, col: 8, offset: 91715},
+																																											pos: position{line: 2903, col: 8, offset: 91740},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2889, col: 12, offset: 91488},
+																																													pos: position{line: 2890, col: 12, offset: 91513},
 																																													run: (*parser).callonDocumentFragment1272,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2889, col: 13, offset: 91489},
+																																														pos: position{line: 2890, col: 13, offset: 91514},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2889, col: 13, offset: 91489},
+																																																pos:        position{line: 2890, col: 13, offset: 91514},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2889, col: 20, offset: 91496},
+																																																pos:        position{line: 2890, col: 20, offset: 91521},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2889, col: 29, offset: 91505},
+																																																pos:        position{line: 2890, col: 29, offset: 91530},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -9946,9 +9946,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2899, col: 8, offset: 91665},
+																																													pos: position{line: 2900, col: 8, offset: 91690},
 																																													expr: &anyMatcher{
-																																														line: 2899, col: 9, offset: 91666,
+																																														line: 2900, col: 9, offset: 91691,
 																																													},
 																																												},
 																																											},
@@ -9958,22 +9958,22 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2672, col: 9, offset: 85166},
+																																							pos: position{line: 2673, col: 9, offset: 85191},
 																																							expr: &seqExpr{
-																																								pos: position{line: 2672, col: 11, offset: 85168},
+																																								pos: position{line: 2673, col: 11, offset: 85193},
 																																								exprs: []interface{}{
 																																									&labeledExpr{
-																																										pos:   position{line: 2672, col: 11, offset: 85168},
+																																										pos:   position{line: 2673, col: 11, offset: 85193},
 																																										label: "format",
 																																										expr: &zeroOrOneExpr{
-																																											pos: position{line: 2672, col: 18, offset: 85175},
+																																											pos: position{line: 2673, col: 18, offset: 85200},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2680, col: 20, offset: 85376},
+																																												pos: position{line: 2681, col: 20, offset: 85401},
 																																												run: (*parser).callonDocumentFragment1283,
 																																												expr: &zeroOrMoreExpr{
-																																													pos: position{line: 2680, col: 20, offset: 85376},
+																																													pos: position{line: 2681, col: 20, offset: 85401},
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2680, col: 20, offset: 85376},
+																																														pos:        position{line: 2681, col: 20, offset: 85401},
 																																														val:        "[^ |\\r\\n]",
 																																														chars:      []rune{' ', '|', '\r', '\n'},
 																																														ignoreCase: false,
@@ -9984,7 +9984,7 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2672, col: 37, offset: 85194},
+																																										pos:        position{line: 2673, col: 37, offset: 85219},
 																																										val:        "|",
 																																										ignoreCase: false,
 																																										want:       "\"|\"",
@@ -9993,15 +9993,15 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&labeledExpr{
-																																							pos:   position{line: 2673, col: 9, offset: 85207},
+																																							pos:   position{line: 2674, col: 9, offset: 85232},
 																																							label: "content",
 																																							expr: &actionExpr{
-																																								pos: position{line: 2673, col: 18, offset: 85216},
+																																								pos: position{line: 2674, col: 18, offset: 85241},
 																																								run: (*parser).callonDocumentFragment1288,
 																																								expr: &zeroOrMoreExpr{
-																																									pos: position{line: 2673, col: 18, offset: 85216},
+																																									pos: position{line: 2674, col: 18, offset: 85241},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2673, col: 18, offset: 85216},
+																																										pos:        position{line: 2674, col: 18, offset: 85241},
 																																										val:        "[^|\\r\\n]",
 																																										chars:      []rune{'|', '\r', '\n'},
 																																										ignoreCase: false,
@@ -10011,30 +10011,30 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&zeroOrOneExpr{
-																																							pos: position{line: 2675, col: 12, offset: 85278},
+																																							pos: position{line: 2676, col: 12, offset: 85303},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2902, col: 8, offset: 91715},
+																																								pos: position{line: 2903, col: 8, offset: 91740},
 																																								alternatives: []interface{}{
 																																									&actionExpr{
-																																										pos: position{line: 2889, col: 12, offset: 91488},
+																																										pos: position{line: 2890, col: 12, offset: 91513},
 																																										run: (*parser).callonDocumentFragment1293,
 																																										expr: &choiceExpr{
-																																											pos: position{line: 2889, col: 13, offset: 91489},
+																																											pos: position{line: 2890, col: 13, offset: 91514},
 																																											alternatives: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2889, col: 13, offset: 91489},
+																																													pos:        position{line: 2890, col: 13, offset: 91514},
 																																													val:        "\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2889, col: 20, offset: 91496},
+																																													pos:        position{line: 2890, col: 20, offset: 91521},
 																																													val:        "\r\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2889, col: 29, offset: 91505},
+																																													pos:        position{line: 2890, col: 29, offset: 91530},
 																																													val:        "\r",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\"",
@@ -10043,9 +10043,9 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2899, col: 8, offset: 91665},
+																																										pos: position{line: 2900, col: 8, offset: 91690},
 																																										expr: &anyMatcher{
-																																											line: 2899, col: 9, offset: 91666,
+																																											line: 2900, col: 9, offset: 91691,
 																																										},
 																																									},
 																																								},
@@ -10073,18 +10073,18 @@ var g = &grammar{
 																									pos: position{line: 677, col: 14, offset: 21525},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2897, col: 11, offset: 91651},
+																											pos: position{line: 2898, col: 11, offset: 91676},
 																											expr: &anyMatcher{
-																												line: 2897, col: 13, offset: 91653,
+																												line: 2898, col: 13, offset: 91678,
 																											},
 																										},
 																										&zeroOrMoreExpr{
 																											pos: position{line: 677, col: 21, offset: 21532},
 																											expr: &actionExpr{
-																												pos: position{line: 2880, col: 10, offset: 91317},
+																												pos: position{line: 2881, col: 10, offset: 91342},
 																												run: (*parser).callonDocumentFragment1305,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2880, col: 10, offset: 91317},
+																													pos:        position{line: 2881, col: 10, offset: 91342},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -10093,28 +10093,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2902, col: 8, offset: 91715},
+																											pos: position{line: 2903, col: 8, offset: 91740},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2889, col: 12, offset: 91488},
+																													pos: position{line: 2890, col: 12, offset: 91513},
 																													run: (*parser).callonDocumentFragment1308,
 																													expr: &choiceExpr{
-																														pos: position{line: 2889, col: 13, offset: 91489},
+																														pos: position{line: 2890, col: 13, offset: 91514},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 13, offset: 91489},
+																																pos:        position{line: 2890, col: 13, offset: 91514},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 20, offset: 91496},
+																																pos:        position{line: 2890, col: 20, offset: 91521},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 29, offset: 91505},
+																																pos:        position{line: 2890, col: 29, offset: 91530},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -10123,9 +10123,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2899, col: 8, offset: 91665},
+																													pos: position{line: 2900, col: 8, offset: 91690},
 																													expr: &anyMatcher{
-																														line: 2899, col: 9, offset: 91666,
+																														line: 2900, col: 9, offset: 91691,
 																													},
 																												},
 																											},
@@ -10144,24 +10144,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2626, col: 22, offset: 84064},
+														pos: position{line: 2627, col: 22, offset: 84089},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2622, col: 19, offset: 83984},
+																pos: position{line: 2623, col: 19, offset: 84009},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2622, col: 19, offset: 83984},
+																		pos:        position{line: 2623, col: 19, offset: 84009},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2622, col: 26, offset: 83991},
+																		pos: position{line: 2623, col: 26, offset: 84016},
 																		expr: &actionExpr{
-																			pos: position{line: 2880, col: 10, offset: 91317},
+																			pos: position{line: 2881, col: 10, offset: 91342},
 																			run: (*parser).callonDocumentFragment1319,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2880, col: 10, offset: 91317},
+																				pos:        position{line: 2881, col: 10, offset: 91342},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10170,28 +10170,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2902, col: 8, offset: 91715},
+																		pos: position{line: 2903, col: 8, offset: 91740},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2889, col: 12, offset: 91488},
+																				pos: position{line: 2890, col: 12, offset: 91513},
 																				run: (*parser).callonDocumentFragment1322,
 																				expr: &choiceExpr{
-																					pos: position{line: 2889, col: 13, offset: 91489},
+																					pos: position{line: 2890, col: 13, offset: 91514},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 13, offset: 91489},
+																							pos:        position{line: 2890, col: 13, offset: 91514},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 20, offset: 91496},
+																							pos:        position{line: 2890, col: 20, offset: 91521},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 29, offset: 91505},
+																							pos:        position{line: 2890, col: 29, offset: 91530},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10200,9 +10200,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2899, col: 8, offset: 91665},
+																				pos: position{line: 2900, col: 8, offset: 91690},
 																				expr: &anyMatcher{
-																					line: 2899, col: 9, offset: 91666,
+																					line: 2900, col: 9, offset: 91691,
 																				},
 																			},
 																		},
@@ -10210,9 +10210,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2899, col: 8, offset: 91665},
+																pos: position{line: 2900, col: 8, offset: 91690},
 																expr: &anyMatcher{
-																	line: 2899, col: 9, offset: 91666,
+																	line: 2900, col: 9, offset: 91691,
 																},
 															},
 														},
@@ -10221,36 +10221,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2487, col: 22, offset: 80203},
+											pos: position{line: 2488, col: 22, offset: 80228},
 											run: (*parser).callonDocumentFragment1331,
 											expr: &seqExpr{
-												pos: position{line: 2487, col: 22, offset: 80203},
+												pos: position{line: 2488, col: 22, offset: 80228},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2492, col: 31, offset: 80424},
+														pos:        position{line: 2493, col: 31, offset: 80449},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2492, col: 36, offset: 80429},
+														pos: position{line: 2493, col: 36, offset: 80454},
 														expr: &litMatcher{
-															pos:        position{line: 2492, col: 37, offset: 80430},
+															pos:        position{line: 2493, col: 37, offset: 80455},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2487, col: 49, offset: 80230},
+														pos:   position{line: 2488, col: 49, offset: 80255},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2826, col: 13, offset: 89843},
+															pos: position{line: 2827, col: 13, offset: 89868},
 															run: (*parser).callonDocumentFragment1337,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2826, col: 13, offset: 89843},
+																pos: position{line: 2827, col: 13, offset: 89868},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2826, col: 13, offset: 89843},
+																	pos:        position{line: 2827, col: 13, offset: 89868},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10260,28 +10260,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2902, col: 8, offset: 91715},
+														pos: position{line: 2903, col: 8, offset: 91740},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2889, col: 12, offset: 91488},
+																pos: position{line: 2890, col: 12, offset: 91513},
 																run: (*parser).callonDocumentFragment1341,
 																expr: &choiceExpr{
-																	pos: position{line: 2889, col: 13, offset: 91489},
+																	pos: position{line: 2890, col: 13, offset: 91514},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2889, col: 13, offset: 91489},
+																			pos:        position{line: 2890, col: 13, offset: 91514},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2889, col: 20, offset: 91496},
+																			pos:        position{line: 2890, col: 20, offset: 91521},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2889, col: 29, offset: 91505},
+																			pos:        position{line: 2890, col: 29, offset: 91530},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10290,9 +10290,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2899, col: 8, offset: 91665},
+																pos: position{line: 2900, col: 8, offset: 91690},
 																expr: &anyMatcher{
-																	line: 2899, col: 9, offset: 91666,
+																	line: 2900, col: 9, offset: 91691,
 																},
 															},
 														},
@@ -10328,10 +10328,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1239, col: 36, offset: 38364},
 																		expr: &actionExpr{
-																			pos: position{line: 2880, col: 10, offset: 91317},
+																			pos: position{line: 2881, col: 10, offset: 91342},
 																			run: (*parser).callonDocumentFragment1356,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2880, col: 10, offset: 91317},
+																				pos:        position{line: 2881, col: 10, offset: 91342},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10340,28 +10340,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2902, col: 8, offset: 91715},
+																		pos: position{line: 2903, col: 8, offset: 91740},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2889, col: 12, offset: 91488},
+																				pos: position{line: 2890, col: 12, offset: 91513},
 																				run: (*parser).callonDocumentFragment1359,
 																				expr: &choiceExpr{
-																					pos: position{line: 2889, col: 13, offset: 91489},
+																					pos: position{line: 2890, col: 13, offset: 91514},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 13, offset: 91489},
+																							pos:        position{line: 2890, col: 13, offset: 91514},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 20, offset: 91496},
+																							pos:        position{line: 2890, col: 20, offset: 91521},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 29, offset: 91505},
+																							pos:        position{line: 2890, col: 29, offset: 91530},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10370,9 +10370,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2899, col: 8, offset: 91665},
+																				pos: position{line: 2900, col: 8, offset: 91690},
 																				expr: &anyMatcher{
-																					line: 2899, col: 9, offset: 91666,
+																					line: 2900, col: 9, offset: 91691,
 																				},
 																			},
 																		},
@@ -10406,10 +10406,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 1239, col: 36, offset: 38364},
 																												expr: &actionExpr{
-																													pos: position{line: 2880, col: 10, offset: 91317},
+																													pos: position{line: 2881, col: 10, offset: 91342},
 																													run: (*parser).callonDocumentFragment1376,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2880, col: 10, offset: 91317},
+																														pos:        position{line: 2881, col: 10, offset: 91342},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -10418,28 +10418,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2902, col: 8, offset: 91715},
+																												pos: position{line: 2903, col: 8, offset: 91740},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2889, col: 12, offset: 91488},
+																														pos: position{line: 2890, col: 12, offset: 91513},
 																														run: (*parser).callonDocumentFragment1379,
 																														expr: &choiceExpr{
-																															pos: position{line: 2889, col: 13, offset: 91489},
+																															pos: position{line: 2890, col: 13, offset: 91514},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2889, col: 13, offset: 91489},
+																																	pos:        position{line: 2890, col: 13, offset: 91514},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2889, col: 20, offset: 91496},
+																																	pos:        position{line: 2890, col: 20, offset: 91521},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2889, col: 29, offset: 91505},
+																																	pos:        position{line: 2890, col: 29, offset: 91530},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -10448,9 +10448,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2899, col: 8, offset: 91665},
+																														pos: position{line: 2900, col: 8, offset: 91690},
 																														expr: &anyMatcher{
-																															line: 2899, col: 9, offset: 91666,
+																															line: 2900, col: 9, offset: 91691,
 																														},
 																													},
 																												},
@@ -10477,10 +10477,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1239, col: 36, offset: 38364},
 																		expr: &actionExpr{
-																			pos: position{line: 2880, col: 10, offset: 91317},
+																			pos: position{line: 2881, col: 10, offset: 91342},
 																			run: (*parser).callonDocumentFragment1389,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2880, col: 10, offset: 91317},
+																				pos:        position{line: 2881, col: 10, offset: 91342},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10489,28 +10489,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2902, col: 8, offset: 91715},
+																		pos: position{line: 2903, col: 8, offset: 91740},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2889, col: 12, offset: 91488},
+																				pos: position{line: 2890, col: 12, offset: 91513},
 																				run: (*parser).callonDocumentFragment1392,
 																				expr: &choiceExpr{
-																					pos: position{line: 2889, col: 13, offset: 91489},
+																					pos: position{line: 2890, col: 13, offset: 91514},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 13, offset: 91489},
+																							pos:        position{line: 2890, col: 13, offset: 91514},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 20, offset: 91496},
+																							pos:        position{line: 2890, col: 20, offset: 91521},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 29, offset: 91505},
+																							pos:        position{line: 2890, col: 29, offset: 91530},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10519,9 +10519,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2899, col: 8, offset: 91665},
+																				pos: position{line: 2900, col: 8, offset: 91690},
 																				expr: &anyMatcher{
-																					line: 2899, col: 9, offset: 91666,
+																					line: 2900, col: 9, offset: 91691,
 																				},
 																			},
 																		},
@@ -10578,9 +10578,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2899, col: 8, offset: 91665},
+							pos: position{line: 2900, col: 8, offset: 91690},
 							expr: &anyMatcher{
-								line: 2899, col: 9, offset: 91666,
+								line: 2900, col: 9, offset: 91691,
 							},
 						},
 					},
@@ -10652,12 +10652,12 @@ var g = &grammar{
 										pos: position{line: 304, col: 9, offset: 9170},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2884, col: 11, offset: 91378},
+												pos: position{line: 2885, col: 11, offset: 91403},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2884, col: 11, offset: 91378},
+													pos: position{line: 2885, col: 11, offset: 91403},
 													expr: &charClassMatcher{
-														pos:        position{line: 2884, col: 11, offset: 91378},
+														pos:        position{line: 2885, col: 11, offset: 91403},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10681,10 +10681,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 309, col: 5, offset: 9350},
 							expr: &actionExpr{
-								pos: position{line: 2880, col: 10, offset: 91317},
+								pos: position{line: 2881, col: 10, offset: 91342},
 								run: (*parser).callonAttributeDeclaration21,
 								expr: &charClassMatcher{
-									pos:        position{line: 2880, col: 10, offset: 91317},
+									pos:        position{line: 2881, col: 10, offset: 91342},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -10693,28 +10693,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2902, col: 8, offset: 91715},
+							pos: position{line: 2903, col: 8, offset: 91740},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2889, col: 12, offset: 91488},
+									pos: position{line: 2890, col: 12, offset: 91513},
 									run: (*parser).callonAttributeDeclaration24,
 									expr: &choiceExpr{
-										pos: position{line: 2889, col: 13, offset: 91489},
+										pos: position{line: 2890, col: 13, offset: 91514},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2889, col: 13, offset: 91489},
+												pos:        position{line: 2890, col: 13, offset: 91514},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2889, col: 20, offset: 91496},
+												pos:        position{line: 2890, col: 20, offset: 91521},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2889, col: 29, offset: 91505},
+												pos:        position{line: 2890, col: 29, offset: 91530},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10723,9 +10723,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2899, col: 8, offset: 91665},
+									pos: position{line: 2900, col: 8, offset: 91690},
 									expr: &anyMatcher{
-										line: 2899, col: 9, offset: 91666,
+										line: 2900, col: 9, offset: 91691,
 									},
 								},
 							},
@@ -10771,10 +10771,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 324, col: 14, offset: 9848},
 												expr: &actionExpr{
-													pos: position{line: 2880, col: 10, offset: 91317},
+													pos: position{line: 2881, col: 10, offset: 91342},
 													run: (*parser).callonAttributeDeclarationValue11,
 													expr: &charClassMatcher{
-														pos:        position{line: 2880, col: 10, offset: 91317},
+														pos:        position{line: 2881, col: 10, offset: 91342},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10783,25 +10783,25 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 2889, col: 12, offset: 91488},
+												pos: position{line: 2890, col: 12, offset: 91513},
 												run: (*parser).callonAttributeDeclarationValue13,
 												expr: &choiceExpr{
-													pos: position{line: 2889, col: 13, offset: 91489},
+													pos: position{line: 2890, col: 13, offset: 91514},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2889, col: 13, offset: 91489},
+															pos:        position{line: 2890, col: 13, offset: 91514},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2889, col: 20, offset: 91496},
+															pos:        position{line: 2890, col: 20, offset: 91521},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2889, col: 29, offset: 91505},
+															pos:        position{line: 2890, col: 29, offset: 91530},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10812,10 +10812,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 325, col: 9, offset: 9872},
 												expr: &actionExpr{
-													pos: position{line: 2880, col: 10, offset: 91317},
+													pos: position{line: 2881, col: 10, offset: 91342},
 													run: (*parser).callonAttributeDeclarationValue19,
 													expr: &charClassMatcher{
-														pos:        position{line: 2880, col: 10, offset: 91317},
+														pos:        position{line: 2881, col: 10, offset: 91342},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10885,10 +10885,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 343, col: 13, offset: 10417},
 										expr: &actionExpr{
-											pos: position{line: 2880, col: 10, offset: 91317},
+											pos: position{line: 2881, col: 10, offset: 91342},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2880, col: 10, offset: 91317},
+												pos:        position{line: 2881, col: 10, offset: 91342},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10897,28 +10897,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2902, col: 8, offset: 91715},
+										pos: position{line: 2903, col: 8, offset: 91740},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2889, col: 12, offset: 91488},
+												pos: position{line: 2890, col: 12, offset: 91513},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2889, col: 13, offset: 91489},
+													pos: position{line: 2890, col: 13, offset: 91514},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2889, col: 13, offset: 91489},
+															pos:        position{line: 2890, col: 13, offset: 91514},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2889, col: 20, offset: 91496},
+															pos:        position{line: 2890, col: 20, offset: 91521},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2889, col: 29, offset: 91505},
+															pos:        position{line: 2890, col: 29, offset: 91530},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10927,9 +10927,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2899, col: 8, offset: 91665},
+												pos: position{line: 2900, col: 8, offset: 91690},
 												expr: &anyMatcher{
-													line: 2899, col: 9, offset: 91666,
+													line: 2900, col: 9, offset: 91691,
 												},
 											},
 										},
@@ -10962,23 +10962,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2474, col: 5, offset: 79749},
+										pos: position{line: 2475, col: 5, offset: 79774},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2474, col: 5, offset: 79749},
+											pos: position{line: 2475, col: 5, offset: 79774},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2474, col: 5, offset: 79749},
+													pos: position{line: 2475, col: 5, offset: 79774},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2477, col: 5, offset: 79825},
+													pos:   position{line: 2478, col: 5, offset: 79850},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2478, col: 9, offset: 79843},
+														pos: position{line: 2479, col: 9, offset: 79868},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2478, col: 10, offset: 79844},
+															pos:        position{line: 2479, col: 10, offset: 79869},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -10990,10 +10990,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2880, col: 10, offset: 91317},
+										pos: position{line: 2881, col: 10, offset: 91342},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2880, col: 10, offset: 91317},
+											pos:        position{line: 2881, col: 10, offset: 91342},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -11834,10 +11834,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 371, col: 35, offset: 11426},
 												expr: &actionExpr{
-													pos: position{line: 2880, col: 10, offset: 91317},
+													pos: position{line: 2881, col: 10, offset: 91342},
 													run: (*parser).callonBlockAttributes101,
 													expr: &charClassMatcher{
-														pos:        position{line: 2880, col: 10, offset: 91317},
+														pos:        position{line: 2881, col: 10, offset: 91342},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11846,28 +11846,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2902, col: 8, offset: 91715},
+												pos: position{line: 2903, col: 8, offset: 91740},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2889, col: 12, offset: 91488},
+														pos: position{line: 2890, col: 12, offset: 91513},
 														run: (*parser).callonBlockAttributes104,
 														expr: &choiceExpr{
-															pos: position{line: 2889, col: 13, offset: 91489},
+															pos: position{line: 2890, col: 13, offset: 91514},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2889, col: 13, offset: 91489},
+																	pos:        position{line: 2890, col: 13, offset: 91514},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2889, col: 20, offset: 91496},
+																	pos:        position{line: 2890, col: 20, offset: 91521},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2889, col: 29, offset: 91505},
+																	pos:        position{line: 2890, col: 29, offset: 91530},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11876,9 +11876,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2899, col: 8, offset: 91665},
+														pos: position{line: 2900, col: 8, offset: 91690},
 														expr: &anyMatcher{
-															line: 2899, col: 9, offset: 91666,
+															line: 2900, col: 9, offset: 91691,
 														},
 													},
 												},
@@ -11892,18 +11892,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21525},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2897, col: 11, offset: 91651},
+																pos: position{line: 2898, col: 11, offset: 91676},
 																expr: &anyMatcher{
-																	line: 2897, col: 13, offset: 91653,
+																	line: 2898, col: 13, offset: 91678,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21532},
 																expr: &actionExpr{
-																	pos: position{line: 2880, col: 10, offset: 91317},
+																	pos: position{line: 2881, col: 10, offset: 91342},
 																	run: (*parser).callonBlockAttributes117,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2880, col: 10, offset: 91317},
+																		pos:        position{line: 2881, col: 10, offset: 91342},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -11912,28 +11912,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2902, col: 8, offset: 91715},
+																pos: position{line: 2903, col: 8, offset: 91740},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2889, col: 12, offset: 91488},
+																		pos: position{line: 2890, col: 12, offset: 91513},
 																		run: (*parser).callonBlockAttributes120,
 																		expr: &choiceExpr{
-																			pos: position{line: 2889, col: 13, offset: 91489},
+																			pos: position{line: 2890, col: 13, offset: 91514},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2889, col: 13, offset: 91489},
+																					pos:        position{line: 2890, col: 13, offset: 91514},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2889, col: 20, offset: 91496},
+																					pos:        position{line: 2890, col: 20, offset: 91521},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2889, col: 29, offset: 91505},
+																					pos:        position{line: 2890, col: 29, offset: 91530},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -11942,9 +11942,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2899, col: 8, offset: 91665},
+																		pos: position{line: 2900, col: 8, offset: 91690},
 																		expr: &anyMatcher{
-																			line: 2899, col: 9, offset: 91666,
+																			line: 2900, col: 9, offset: 91691,
 																		},
 																	},
 																},
@@ -11996,12 +11996,12 @@ var g = &grammar{
 																		pos: position{line: 425, col: 9, offset: 13070},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2774, col: 14, offset: 88465},
+																				pos: position{line: 2775, col: 14, offset: 88490},
 																				run: (*parser).callonBlockAttributes138,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2774, col: 14, offset: 88465},
+																					pos: position{line: 2775, col: 14, offset: 88490},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2774, col: 14, offset: 88465},
+																						pos:        position{line: 2775, col: 14, offset: 88490},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -12010,10 +12010,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2880, col: 10, offset: 91317},
+																				pos: position{line: 2881, col: 10, offset: 91342},
 																				run: (*parser).callonBlockAttributes141,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2880, col: 10, offset: 91317},
+																					pos:        position{line: 2881, col: 10, offset: 91342},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -12021,27 +12021,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2797, col: 5, offset: 88971},
+																				pos: position{line: 2798, col: 5, offset: 88996},
 																				run: (*parser).callonBlockAttributes143,
 																				expr: &choiceExpr{
-																					pos: position{line: 2798, col: 9, offset: 88981},
+																					pos: position{line: 2799, col: 9, offset: 89006},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2798, col: 10, offset: 88982},
+																							pos:        position{line: 2799, col: 10, offset: 89007},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2800, col: 13, offset: 89079},
+																							pos: position{line: 2801, col: 13, offset: 89104},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2800, col: 13, offset: 89079},
+																									pos: position{line: 2801, col: 13, offset: 89104},
 																									run: (*parser).callonBlockAttributes147,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2803, col: 13, offset: 89179},
+																									pos:        position{line: 2804, col: 13, offset: 89204},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -12049,20 +12049,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2803, col: 19, offset: 89185},
+																							pos:        position{line: 2804, col: 19, offset: 89210},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2806, col: 13, offset: 89223},
+																							pos: position{line: 2807, col: 13, offset: 89248},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2806, col: 13, offset: 89223},
+																									pos: position{line: 2807, col: 13, offset: 89248},
 																									run: (*parser).callonBlockAttributes151,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2809, col: 14, offset: 89316},
+																									pos:        position{line: 2810, col: 14, offset: 89341},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -12071,18 +12071,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2811, col: 12, offset: 89360},
+																							pos: position{line: 2812, col: 12, offset: 89385},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2811, col: 12, offset: 89360},
+																									pos:        position{line: 2812, col: 12, offset: 89385},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2811, col: 16, offset: 89364},
+																									pos: position{line: 2812, col: 16, offset: 89389},
 																									expr: &litMatcher{
-																										pos:        position{line: 2811, col: 17, offset: 89365},
+																										pos:        position{line: 2812, col: 17, offset: 89390},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12418,10 +12418,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2819, col: 12, offset: 89625},
+																				pos: position{line: 2820, col: 12, offset: 89650},
 																				run: (*parser).callonBlockAttributes221,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2819, col: 12, offset: 89625},
+																					pos:        position{line: 2820, col: 12, offset: 89650},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12439,10 +12439,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 375, col: 35, offset: 11581},
 												expr: &actionExpr{
-													pos: position{line: 2880, col: 10, offset: 91317},
+													pos: position{line: 2881, col: 10, offset: 91342},
 													run: (*parser).callonBlockAttributes224,
 													expr: &charClassMatcher{
-														pos:        position{line: 2880, col: 10, offset: 91317},
+														pos:        position{line: 2881, col: 10, offset: 91342},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12451,28 +12451,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2902, col: 8, offset: 91715},
+												pos: position{line: 2903, col: 8, offset: 91740},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2889, col: 12, offset: 91488},
+														pos: position{line: 2890, col: 12, offset: 91513},
 														run: (*parser).callonBlockAttributes227,
 														expr: &choiceExpr{
-															pos: position{line: 2889, col: 13, offset: 91489},
+															pos: position{line: 2890, col: 13, offset: 91514},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2889, col: 13, offset: 91489},
+																	pos:        position{line: 2890, col: 13, offset: 91514},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2889, col: 20, offset: 91496},
+																	pos:        position{line: 2890, col: 20, offset: 91521},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2889, col: 29, offset: 91505},
+																	pos:        position{line: 2890, col: 29, offset: 91530},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12481,9 +12481,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2899, col: 8, offset: 91665},
+														pos: position{line: 2900, col: 8, offset: 91690},
 														expr: &anyMatcher{
-															line: 2899, col: 9, offset: 91666,
+															line: 2900, col: 9, offset: 91691,
 														},
 													},
 												},
@@ -12497,18 +12497,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21525},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2897, col: 11, offset: 91651},
+																pos: position{line: 2898, col: 11, offset: 91676},
 																expr: &anyMatcher{
-																	line: 2897, col: 13, offset: 91653,
+																	line: 2898, col: 13, offset: 91678,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21532},
 																expr: &actionExpr{
-																	pos: position{line: 2880, col: 10, offset: 91317},
+																	pos: position{line: 2881, col: 10, offset: 91342},
 																	run: (*parser).callonBlockAttributes240,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2880, col: 10, offset: 91317},
+																		pos:        position{line: 2881, col: 10, offset: 91342},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12517,28 +12517,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2902, col: 8, offset: 91715},
+																pos: position{line: 2903, col: 8, offset: 91740},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2889, col: 12, offset: 91488},
+																		pos: position{line: 2890, col: 12, offset: 91513},
 																		run: (*parser).callonBlockAttributes243,
 																		expr: &choiceExpr{
-																			pos: position{line: 2889, col: 13, offset: 91489},
+																			pos: position{line: 2890, col: 13, offset: 91514},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2889, col: 13, offset: 91489},
+																					pos:        position{line: 2890, col: 13, offset: 91514},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2889, col: 20, offset: 91496},
+																					pos:        position{line: 2890, col: 20, offset: 91521},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2889, col: 29, offset: 91505},
+																					pos:        position{line: 2890, col: 29, offset: 91530},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12547,9 +12547,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2899, col: 8, offset: 91665},
+																		pos: position{line: 2900, col: 8, offset: 91690},
 																		expr: &anyMatcher{
-																			line: 2899, col: 9, offset: 91666,
+																			line: 2900, col: 9, offset: 91691,
 																		},
 																	},
 																},
@@ -12571,10 +12571,10 @@ var g = &grammar{
 												pos:   position{line: 379, col: 12, offset: 11682},
 												label: "start",
 												expr: &actionExpr{
-													pos: position{line: 2905, col: 16, offset: 91839},
+													pos: position{line: 2906, col: 16, offset: 91864},
 													run: (*parser).callonBlockAttributes253,
 													expr: &litMatcher{
-														pos:        position{line: 2905, col: 16, offset: 91839},
+														pos:        position{line: 2906, col: 16, offset: 91864},
 														val:        "",
 														ignoreCase: false,
 														want:       "\"\"",
@@ -12592,10 +12592,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 379, col: 64, offset: 11734},
 												expr: &actionExpr{
-													pos: position{line: 2880, col: 10, offset: 91317},
+													pos: position{line: 2881, col: 10, offset: 91342},
 													run: (*parser).callonBlockAttributes258,
 													expr: &charClassMatcher{
-														pos:        position{line: 2880, col: 10, offset: 91317},
+														pos:        position{line: 2881, col: 10, offset: 91342},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12607,10 +12607,10 @@ var g = &grammar{
 												pos:   position{line: 379, col: 71, offset: 11741},
 												label: "end",
 												expr: &actionExpr{
-													pos: position{line: 2905, col: 16, offset: 91839},
+													pos: position{line: 2906, col: 16, offset: 91864},
 													run: (*parser).callonBlockAttributes261,
 													expr: &litMatcher{
-														pos:        position{line: 2905, col: 16, offset: 91839},
+														pos:        position{line: 2906, col: 16, offset: 91864},
 														val:        "",
 														ignoreCase: false,
 														want:       "\"\"",
@@ -12622,28 +12622,28 @@ var g = &grammar{
 												run: (*parser).callonBlockAttributes263,
 											},
 											&choiceExpr{
-												pos: position{line: 2902, col: 8, offset: 91715},
+												pos: position{line: 2903, col: 8, offset: 91740},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2889, col: 12, offset: 91488},
+														pos: position{line: 2890, col: 12, offset: 91513},
 														run: (*parser).callonBlockAttributes265,
 														expr: &choiceExpr{
-															pos: position{line: 2889, col: 13, offset: 91489},
+															pos: position{line: 2890, col: 13, offset: 91514},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2889, col: 13, offset: 91489},
+																	pos:        position{line: 2890, col: 13, offset: 91514},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2889, col: 20, offset: 91496},
+																	pos:        position{line: 2890, col: 20, offset: 91521},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2889, col: 29, offset: 91505},
+																	pos:        position{line: 2890, col: 29, offset: 91530},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12652,9 +12652,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2899, col: 8, offset: 91665},
+														pos: position{line: 2900, col: 8, offset: 91690},
 														expr: &anyMatcher{
-															line: 2899, col: 9, offset: 91666,
+															line: 2900, col: 9, offset: 91691,
 														},
 													},
 												},
@@ -12668,18 +12668,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21525},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2897, col: 11, offset: 91651},
+																pos: position{line: 2898, col: 11, offset: 91676},
 																expr: &anyMatcher{
-																	line: 2897, col: 13, offset: 91653,
+																	line: 2898, col: 13, offset: 91678,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21532},
 																expr: &actionExpr{
-																	pos: position{line: 2880, col: 10, offset: 91317},
+																	pos: position{line: 2881, col: 10, offset: 91342},
 																	run: (*parser).callonBlockAttributes278,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2880, col: 10, offset: 91317},
+																		pos:        position{line: 2881, col: 10, offset: 91342},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12688,28 +12688,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2902, col: 8, offset: 91715},
+																pos: position{line: 2903, col: 8, offset: 91740},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2889, col: 12, offset: 91488},
+																		pos: position{line: 2890, col: 12, offset: 91513},
 																		run: (*parser).callonBlockAttributes281,
 																		expr: &choiceExpr{
-																			pos: position{line: 2889, col: 13, offset: 91489},
+																			pos: position{line: 2890, col: 13, offset: 91514},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2889, col: 13, offset: 91489},
+																					pos:        position{line: 2890, col: 13, offset: 91514},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2889, col: 20, offset: 91496},
+																					pos:        position{line: 2890, col: 20, offset: 91521},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2889, col: 29, offset: 91505},
+																					pos:        position{line: 2890, col: 29, offset: 91530},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12718,9 +12718,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2899, col: 8, offset: 91665},
+																		pos: position{line: 2900, col: 8, offset: 91690},
 																		expr: &anyMatcher{
-																			line: 2899, col: 9, offset: 91666,
+																			line: 2900, col: 9, offset: 91691,
 																		},
 																	},
 																},
@@ -12968,10 +12968,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 466, col: 13, offset: 14565},
 										expr: &actionExpr{
-											pos: position{line: 2880, col: 10, offset: 91317},
+											pos: position{line: 2881, col: 10, offset: 91342},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2880, col: 10, offset: 91317},
+												pos:        position{line: 2881, col: 10, offset: 91342},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13503,10 +13503,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 518, col: 9, offset: 16147},
 													expr: &actionExpr{
-														pos: position{line: 2880, col: 10, offset: 91317},
+														pos: position{line: 2881, col: 10, offset: 91342},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2880, col: 10, offset: 91317},
+															pos:        position{line: 2881, col: 10, offset: 91342},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13567,10 +13567,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 524, col: 34, offset: 16290},
 														expr: &actionExpr{
-															pos: position{line: 2880, col: 10, offset: 91317},
+															pos: position{line: 2881, col: 10, offset: 91342},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2880, col: 10, offset: 91317},
+																pos:        position{line: 2881, col: 10, offset: 91342},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13610,10 +13610,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 529, col: 13, offset: 16454},
 												expr: &actionExpr{
-													pos: position{line: 2880, col: 10, offset: 91317},
+													pos: position{line: 2881, col: 10, offset: 91342},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2880, col: 10, offset: 91317},
+														pos:        position{line: 2881, col: 10, offset: 91342},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13636,10 +13636,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 529, col: 26, offset: 16467},
 																expr: &actionExpr{
-																	pos: position{line: 2880, col: 10, offset: 91317},
+																	pos: position{line: 2881, col: 10, offset: 91342},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2880, col: 10, offset: 91317},
+																		pos:        position{line: 2881, col: 10, offset: 91342},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13694,10 +13694,10 @@ var g = &grammar{
 										&notExpr{
 											pos: position{line: 549, col: 22, offset: 17114},
 											expr: &actionExpr{
-												pos: position{line: 2880, col: 10, offset: 91317},
+												pos: position{line: 2881, col: 10, offset: 91342},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2880, col: 10, offset: 91317},
+													pos:        position{line: 2881, col: 10, offset: 91342},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13728,10 +13728,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 542, col: 9, offset: 16859},
 							expr: &actionExpr{
-								pos: position{line: 2880, col: 10, offset: 91317},
+								pos: position{line: 2881, col: 10, offset: 91342},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2880, col: 10, offset: 91317},
+									pos:        position{line: 2881, col: 10, offset: 91342},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13761,10 +13761,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 543, col: 33, offset: 16899},
 										expr: &actionExpr{
-											pos: position{line: 2880, col: 10, offset: 91317},
+											pos: position{line: 2881, col: 10, offset: 91342},
 											run: (*parser).callonNamedAttribute21,
 											expr: &charClassMatcher{
-												pos:        position{line: 2880, col: 10, offset: 91317},
+												pos:        position{line: 2881, col: 10, offset: 91342},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13819,10 +13819,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 559, col: 9, offset: 17331},
 											expr: &actionExpr{
-												pos: position{line: 2880, col: 10, offset: 91317},
+												pos: position{line: 2881, col: 10, offset: 91342},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2880, col: 10, offset: 91317},
+													pos:        position{line: 2881, col: 10, offset: 91342},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13901,12 +13901,12 @@ var g = &grammar{
 							pos: position{line: 572, col: 9, offset: 17648},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2774, col: 14, offset: 88465},
+									pos: position{line: 2775, col: 14, offset: 88490},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2774, col: 14, offset: 88465},
+										pos: position{line: 2775, col: 14, offset: 88490},
 										expr: &charClassMatcher{
-											pos:        position{line: 2774, col: 14, offset: 88465},
+											pos:        position{line: 2775, col: 14, offset: 88490},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -13915,10 +13915,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2880, col: 10, offset: 91317},
+									pos: position{line: 2881, col: 10, offset: 91342},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2880, col: 10, offset: 91317},
+										pos:        position{line: 2881, col: 10, offset: 91342},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14375,10 +14375,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 592, col: 14, offset: 18388},
 											expr: &actionExpr{
-												pos: position{line: 2880, col: 10, offset: 91317},
+												pos: position{line: 2881, col: 10, offset: 91342},
 												run: (*parser).callonDoubleQuotedAttributeValue13,
 												expr: &charClassMatcher{
-													pos:        position{line: 2880, col: 10, offset: 91317},
+													pos:        position{line: 2881, col: 10, offset: 91342},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14415,12 +14415,12 @@ var g = &grammar{
 							pos: position{line: 598, col: 9, offset: 18499},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2774, col: 14, offset: 88465},
+									pos: position{line: 2775, col: 14, offset: 88490},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2774, col: 14, offset: 88465},
+										pos: position{line: 2775, col: 14, offset: 88490},
 										expr: &charClassMatcher{
-											pos:        position{line: 2774, col: 14, offset: 88465},
+											pos:        position{line: 2775, col: 14, offset: 88490},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14429,10 +14429,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2880, col: 10, offset: 91317},
+									pos: position{line: 2881, col: 10, offset: 91342},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2880, col: 10, offset: 91317},
+										pos:        position{line: 2881, col: 10, offset: 91342},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14859,10 +14859,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 619, col: 5, offset: 19355},
 							expr: &actionExpr{
-								pos: position{line: 2880, col: 10, offset: 91317},
+								pos: position{line: 2881, col: 10, offset: 91342},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2880, col: 10, offset: 91317},
+									pos:        position{line: 2881, col: 10, offset: 91342},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -15252,10 +15252,10 @@ var g = &grammar{
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2880, col: 10, offset: 91317},
+											pos: position{line: 2881, col: 10, offset: 91342},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2880, col: 10, offset: 91317},
+												pos:        position{line: 2881, col: 10, offset: 91342},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -15306,12 +15306,12 @@ var g = &grammar{
 									pos:   position{line: 686, col: 32, offset: 21885},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2865, col: 7, offset: 90969},
+										pos: position{line: 2866, col: 7, offset: 90994},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2865, col: 7, offset: 90969},
+											pos: position{line: 2866, col: 7, offset: 90994},
 											expr: &charClassMatcher{
-												pos:        position{line: 2865, col: 7, offset: 90969},
+												pos:        position{line: 2866, col: 7, offset: 90994},
 												val:        "[^[]<>,\\r\\n]",
 												chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 												ignoreCase: false,
@@ -15323,10 +15323,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 686, col: 40, offset: 21893},
 									expr: &actionExpr{
-										pos: position{line: 2880, col: 10, offset: 91317},
+										pos: position{line: 2881, col: 10, offset: 91342},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2880, col: 10, offset: 91317},
+											pos:        position{line: 2881, col: 10, offset: 91342},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15343,10 +15343,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 686, col: 51, offset: 21904},
 									expr: &actionExpr{
-										pos: position{line: 2880, col: 10, offset: 91317},
+										pos: position{line: 2881, col: 10, offset: 91342},
 										run: (*parser).callonCrossReference14,
 										expr: &charClassMatcher{
-											pos:        position{line: 2880, col: 10, offset: 91317},
+											pos:        position{line: 2881, col: 10, offset: 91342},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15739,12 +15739,12 @@ var g = &grammar{
 									pos:   position{line: 688, col: 14, offset: 22017},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2865, col: 7, offset: 90969},
+										pos: position{line: 2866, col: 7, offset: 90994},
 										run: (*parser).callonCrossReference93,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2865, col: 7, offset: 90969},
+											pos: position{line: 2866, col: 7, offset: 90994},
 											expr: &charClassMatcher{
-												pos:        position{line: 2865, col: 7, offset: 90969},
+												pos:        position{line: 2866, col: 7, offset: 90994},
 												val:        "[^[]<>,\\r\\n]",
 												chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 												ignoreCase: false,
@@ -15788,41 +15788,41 @@ var g = &grammar{
 							pos:   position{line: 692, col: 35, offset: 22130},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2834, col: 17, offset: 89980},
+								pos: position{line: 2835, col: 17, offset: 90005},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2834, col: 17, offset: 89980},
+									pos:   position{line: 2835, col: 17, offset: 90005},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2851, col: 5, offset: 90434},
+										pos: position{line: 2852, col: 5, offset: 90459},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2851, col: 5, offset: 90434},
+											pos:   position{line: 2852, col: 5, offset: 90459},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2851, col: 14, offset: 90443},
+												pos: position{line: 2852, col: 14, offset: 90468},
 												expr: &choiceExpr{
-													pos: position{line: 2852, col: 9, offset: 90453},
+													pos: position{line: 2853, col: 9, offset: 90478},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2852, col: 9, offset: 90453},
+															pos: position{line: 2853, col: 9, offset: 90478},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2852, col: 9, offset: 90453},
+																pos: position{line: 2853, col: 9, offset: 90478},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2852, col: 9, offset: 90453},
+																		pos: position{line: 2853, col: 9, offset: 90478},
 																		expr: &litMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90454},
+																			pos:        position{line: 2853, col: 10, offset: 90479},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2853, col: 9, offset: 90482},
+																		pos: position{line: 2854, col: 9, offset: 90507},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2853, col: 10, offset: 90483},
+																			pos:        position{line: 2854, col: 10, offset: 90508},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -15833,27 +15833,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2856, col: 11, offset: 90695},
+															pos: position{line: 2857, col: 11, offset: 90720},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2856, col: 11, offset: 90695},
+																	pos:        position{line: 2857, col: 11, offset: 90720},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2856, col: 19, offset: 90703},
+																	pos: position{line: 2857, col: 19, offset: 90728},
 																	expr: &seqExpr{
-																		pos: position{line: 2856, col: 21, offset: 90705},
+																		pos: position{line: 2857, col: 21, offset: 90730},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2856, col: 21, offset: 90705},
+																				pos: position{line: 2857, col: 21, offset: 90730},
 																				expr: &actionExpr{
-																					pos: position{line: 2880, col: 10, offset: 91317},
+																					pos: position{line: 2881, col: 10, offset: 91342},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2880, col: 10, offset: 91317},
+																						pos:        position{line: 2881, col: 10, offset: 91342},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -15862,11 +15862,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2856, col: 28, offset: 90712},
+																				pos: position{line: 2857, col: 28, offset: 90737},
 																				expr: &notExpr{
-																					pos: position{line: 2899, col: 8, offset: 91665},
+																					pos: position{line: 2900, col: 8, offset: 91690},
 																					expr: &anyMatcher{
-																						line: 2899, col: 9, offset: 91666,
+																						line: 2900, col: 9, offset: 91691,
 																					},
 																				},
 																			},
@@ -16265,10 +16265,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2859, col: 11, offset: 90832},
+															pos: position{line: 2860, col: 11, offset: 90857},
 															run: (*parser).callonExternalCrossReference105,
 															expr: &litMatcher{
-																pos:        position{line: 2859, col: 11, offset: 90832},
+																pos:        position{line: 2860, col: 11, offset: 90857},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -16313,12 +16313,12 @@ var g = &grammar{
 							pos:   position{line: 990, col: 11, offset: 30870},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2830, col: 14, offset: 89910},
+								pos: position{line: 2831, col: 14, offset: 89935},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2830, col: 14, offset: 89910},
+									pos: position{line: 2831, col: 14, offset: 89935},
 									expr: &charClassMatcher{
-										pos:        position{line: 2830, col: 14, offset: 89910},
+										pos:        position{line: 2831, col: 14, offset: 89935},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -16328,28 +16328,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2902, col: 8, offset: 91715},
+							pos: position{line: 2903, col: 8, offset: 91740},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2889, col: 12, offset: 91488},
+									pos: position{line: 2890, col: 12, offset: 91513},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2889, col: 13, offset: 91489},
+										pos: position{line: 2890, col: 13, offset: 91514},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2889, col: 13, offset: 91489},
+												pos:        position{line: 2890, col: 13, offset: 91514},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2889, col: 20, offset: 91496},
+												pos:        position{line: 2890, col: 20, offset: 91521},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2889, col: 29, offset: 91505},
+												pos:        position{line: 2890, col: 29, offset: 91530},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -16358,9 +16358,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2899, col: 8, offset: 91665},
+									pos: position{line: 2900, col: 8, offset: 91690},
 									expr: &anyMatcher{
-										line: 2899, col: 9, offset: 91666,
+										line: 2900, col: 9, offset: 91691,
 									},
 								},
 							},
@@ -16388,36 +16388,36 @@ var g = &grammar{
 								pos: position{line: 1105, col: 6, offset: 33872},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2487, col: 22, offset: 80203},
+										pos: position{line: 2488, col: 22, offset: 80228},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2487, col: 22, offset: 80203},
+											pos: position{line: 2488, col: 22, offset: 80228},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2492, col: 31, offset: 80424},
+													pos:        position{line: 2493, col: 31, offset: 80449},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2492, col: 36, offset: 80429},
+													pos: position{line: 2493, col: 36, offset: 80454},
 													expr: &litMatcher{
-														pos:        position{line: 2492, col: 37, offset: 80430},
+														pos:        position{line: 2493, col: 37, offset: 80455},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2487, col: 49, offset: 80230},
+													pos:   position{line: 2488, col: 49, offset: 80255},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2826, col: 13, offset: 89843},
+														pos: position{line: 2827, col: 13, offset: 89868},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2826, col: 13, offset: 89843},
+															pos: position{line: 2827, col: 13, offset: 89868},
 															expr: &charClassMatcher{
-																pos:        position{line: 2826, col: 13, offset: 89843},
+																pos:        position{line: 2827, col: 13, offset: 89868},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16427,28 +16427,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2902, col: 8, offset: 91715},
+													pos: position{line: 2903, col: 8, offset: 91740},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2889, col: 12, offset: 91488},
+															pos: position{line: 2890, col: 12, offset: 91513},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2889, col: 13, offset: 91489},
+																pos: position{line: 2890, col: 13, offset: 91514},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2889, col: 13, offset: 91489},
+																		pos:        position{line: 2890, col: 13, offset: 91514},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2889, col: 20, offset: 91496},
+																		pos:        position{line: 2890, col: 20, offset: 91521},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2889, col: 29, offset: 91505},
+																		pos:        position{line: 2890, col: 29, offset: 91530},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16457,9 +16457,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2899, col: 8, offset: 91665},
+															pos: position{line: 2900, col: 8, offset: 91690},
 															expr: &anyMatcher{
-																line: 2899, col: 9, offset: 91666,
+																line: 2900, col: 9, offset: 91691,
 															},
 														},
 													},
@@ -16510,10 +16510,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 743, col: 8, offset: 23745},
 																expr: &actionExpr{
-																	pos: position{line: 2880, col: 10, offset: 91317},
+																	pos: position{line: 2881, col: 10, offset: 91342},
 																	run: (*parser).callonDocumentHeader34,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2880, col: 10, offset: 91317},
+																		pos:        position{line: 2881, col: 10, offset: 91342},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16522,28 +16522,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2902, col: 8, offset: 91715},
+																pos: position{line: 2903, col: 8, offset: 91740},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2889, col: 12, offset: 91488},
+																		pos: position{line: 2890, col: 12, offset: 91513},
 																		run: (*parser).callonDocumentHeader37,
 																		expr: &choiceExpr{
-																			pos: position{line: 2889, col: 13, offset: 91489},
+																			pos: position{line: 2890, col: 13, offset: 91514},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2889, col: 13, offset: 91489},
+																					pos:        position{line: 2890, col: 13, offset: 91514},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2889, col: 20, offset: 91496},
+																					pos:        position{line: 2890, col: 20, offset: 91521},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2889, col: 29, offset: 91505},
+																					pos:        position{line: 2890, col: 29, offset: 91530},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -16552,9 +16552,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2899, col: 8, offset: 91665},
+																		pos: position{line: 2900, col: 8, offset: 91690},
 																		expr: &anyMatcher{
-																			line: 2899, col: 9, offset: 91666,
+																			line: 2900, col: 9, offset: 91691,
 																		},
 																	},
 																},
@@ -16615,10 +16615,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 743, col: 8, offset: 23745},
 																								expr: &actionExpr{
-																									pos: position{line: 2880, col: 10, offset: 91317},
+																									pos: position{line: 2881, col: 10, offset: 91342},
 																									run: (*parser).callonDocumentHeader59,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2880, col: 10, offset: 91317},
+																										pos:        position{line: 2881, col: 10, offset: 91342},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -16627,28 +16627,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2902, col: 8, offset: 91715},
+																								pos: position{line: 2903, col: 8, offset: 91740},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2889, col: 12, offset: 91488},
+																										pos: position{line: 2890, col: 12, offset: 91513},
 																										run: (*parser).callonDocumentHeader62,
 																										expr: &choiceExpr{
-																											pos: position{line: 2889, col: 13, offset: 91489},
+																											pos: position{line: 2890, col: 13, offset: 91514},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2889, col: 13, offset: 91489},
+																													pos:        position{line: 2890, col: 13, offset: 91514},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2889, col: 20, offset: 91496},
+																													pos:        position{line: 2890, col: 20, offset: 91521},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2889, col: 29, offset: 91505},
+																													pos:        position{line: 2890, col: 29, offset: 91530},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -16657,9 +16657,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2899, col: 8, offset: 91665},
+																										pos: position{line: 2900, col: 8, offset: 91690},
 																										expr: &anyMatcher{
-																											line: 2899, col: 9, offset: 91666,
+																											line: 2900, col: 9, offset: 91691,
 																										},
 																									},
 																								},
@@ -16668,9 +16668,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2899, col: 8, offset: 91665},
+																					pos: position{line: 2900, col: 8, offset: 91690},
 																					expr: &anyMatcher{
-																						line: 2899, col: 9, offset: 91666,
+																						line: 2900, col: 9, offset: 91691,
 																					},
 																				},
 																			},
@@ -16686,21 +16686,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2897, col: 11, offset: 91651},
+																						pos: position{line: 2898, col: 11, offset: 91676},
 																						expr: &anyMatcher{
-																							line: 2897, col: 13, offset: 91653,
+																							line: 2898, col: 13, offset: 91678,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2826, col: 13, offset: 89843},
+																							pos: position{line: 2827, col: 13, offset: 89868},
 																							run: (*parser).callonDocumentHeader77,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2826, col: 13, offset: 89843},
+																								pos: position{line: 2827, col: 13, offset: 89868},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2826, col: 13, offset: 89843},
+																									pos:        position{line: 2827, col: 13, offset: 89868},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16710,28 +16710,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2902, col: 8, offset: 91715},
+																						pos: position{line: 2903, col: 8, offset: 91740},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2889, col: 12, offset: 91488},
+																								pos: position{line: 2890, col: 12, offset: 91513},
 																								run: (*parser).callonDocumentHeader81,
 																								expr: &choiceExpr{
-																									pos: position{line: 2889, col: 13, offset: 91489},
+																									pos: position{line: 2890, col: 13, offset: 91514},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 13, offset: 91489},
+																											pos:        position{line: 2890, col: 13, offset: 91514},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 20, offset: 91496},
+																											pos:        position{line: 2890, col: 20, offset: 91521},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 29, offset: 91505},
+																											pos:        position{line: 2890, col: 29, offset: 91530},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16740,9 +16740,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2899, col: 8, offset: 91665},
+																								pos: position{line: 2900, col: 8, offset: 91690},
 																								expr: &anyMatcher{
-																									line: 2899, col: 9, offset: 91666,
+																									line: 2900, col: 9, offset: 91691,
 																								},
 																							},
 																						},
@@ -16798,10 +16798,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 743, col: 8, offset: 23745},
 																			expr: &actionExpr{
-																				pos: position{line: 2880, col: 10, offset: 91317},
+																				pos: position{line: 2881, col: 10, offset: 91342},
 																				run: (*parser).callonDocumentHeader99,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2880, col: 10, offset: 91317},
+																					pos:        position{line: 2881, col: 10, offset: 91342},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -16810,28 +16810,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2902, col: 8, offset: 91715},
+																			pos: position{line: 2903, col: 8, offset: 91740},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2889, col: 12, offset: 91488},
+																					pos: position{line: 2890, col: 12, offset: 91513},
 																					run: (*parser).callonDocumentHeader102,
 																					expr: &choiceExpr{
-																						pos: position{line: 2889, col: 13, offset: 91489},
+																						pos: position{line: 2890, col: 13, offset: 91514},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2889, col: 13, offset: 91489},
+																								pos:        position{line: 2890, col: 13, offset: 91514},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2889, col: 20, offset: 91496},
+																								pos:        position{line: 2890, col: 20, offset: 91521},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2889, col: 29, offset: 91505},
+																								pos:        position{line: 2890, col: 29, offset: 91530},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -16840,9 +16840,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2899, col: 8, offset: 91665},
+																					pos: position{line: 2900, col: 8, offset: 91690},
 																					expr: &anyMatcher{
-																						line: 2899, col: 9, offset: 91666,
+																						line: 2900, col: 9, offset: 91691,
 																					},
 																				},
 																			},
@@ -16851,9 +16851,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2899, col: 8, offset: 91665},
+																pos: position{line: 2900, col: 8, offset: 91690},
 																expr: &anyMatcher{
-																	line: 2899, col: 9, offset: 91666,
+																	line: 2900, col: 9, offset: 91691,
 																},
 															},
 														},
@@ -16879,36 +16879,36 @@ var g = &grammar{
 								pos: position{line: 1107, col: 6, offset: 33995},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2487, col: 22, offset: 80203},
+										pos: position{line: 2488, col: 22, offset: 80228},
 										run: (*parser).callonDocumentHeader115,
 										expr: &seqExpr{
-											pos: position{line: 2487, col: 22, offset: 80203},
+											pos: position{line: 2488, col: 22, offset: 80228},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2492, col: 31, offset: 80424},
+													pos:        position{line: 2493, col: 31, offset: 80449},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2492, col: 36, offset: 80429},
+													pos: position{line: 2493, col: 36, offset: 80454},
 													expr: &litMatcher{
-														pos:        position{line: 2492, col: 37, offset: 80430},
+														pos:        position{line: 2493, col: 37, offset: 80455},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2487, col: 49, offset: 80230},
+													pos:   position{line: 2488, col: 49, offset: 80255},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2826, col: 13, offset: 89843},
+														pos: position{line: 2827, col: 13, offset: 89868},
 														run: (*parser).callonDocumentHeader121,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2826, col: 13, offset: 89843},
+															pos: position{line: 2827, col: 13, offset: 89868},
 															expr: &charClassMatcher{
-																pos:        position{line: 2826, col: 13, offset: 89843},
+																pos:        position{line: 2827, col: 13, offset: 89868},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16918,28 +16918,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2902, col: 8, offset: 91715},
+													pos: position{line: 2903, col: 8, offset: 91740},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2889, col: 12, offset: 91488},
+															pos: position{line: 2890, col: 12, offset: 91513},
 															run: (*parser).callonDocumentHeader125,
 															expr: &choiceExpr{
-																pos: position{line: 2889, col: 13, offset: 91489},
+																pos: position{line: 2890, col: 13, offset: 91514},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2889, col: 13, offset: 91489},
+																		pos:        position{line: 2890, col: 13, offset: 91514},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2889, col: 20, offset: 91496},
+																		pos:        position{line: 2890, col: 20, offset: 91521},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2889, col: 29, offset: 91505},
+																		pos:        position{line: 2890, col: 29, offset: 91530},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16948,9 +16948,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2899, col: 8, offset: 91665},
+															pos: position{line: 2900, col: 8, offset: 91690},
 															expr: &anyMatcher{
-																line: 2899, col: 9, offset: 91666,
+																line: 2900, col: 9, offset: 91691,
 															},
 														},
 													},
@@ -17001,10 +17001,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 743, col: 8, offset: 23745},
 																expr: &actionExpr{
-																	pos: position{line: 2880, col: 10, offset: 91317},
+																	pos: position{line: 2881, col: 10, offset: 91342},
 																	run: (*parser).callonDocumentHeader143,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2880, col: 10, offset: 91317},
+																		pos:        position{line: 2881, col: 10, offset: 91342},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17013,28 +17013,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2902, col: 8, offset: 91715},
+																pos: position{line: 2903, col: 8, offset: 91740},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2889, col: 12, offset: 91488},
+																		pos: position{line: 2890, col: 12, offset: 91513},
 																		run: (*parser).callonDocumentHeader146,
 																		expr: &choiceExpr{
-																			pos: position{line: 2889, col: 13, offset: 91489},
+																			pos: position{line: 2890, col: 13, offset: 91514},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2889, col: 13, offset: 91489},
+																					pos:        position{line: 2890, col: 13, offset: 91514},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2889, col: 20, offset: 91496},
+																					pos:        position{line: 2890, col: 20, offset: 91521},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2889, col: 29, offset: 91505},
+																					pos:        position{line: 2890, col: 29, offset: 91530},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17043,9 +17043,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2899, col: 8, offset: 91665},
+																		pos: position{line: 2900, col: 8, offset: 91690},
 																		expr: &anyMatcher{
-																			line: 2899, col: 9, offset: 91666,
+																			line: 2900, col: 9, offset: 91691,
 																		},
 																	},
 																},
@@ -17106,10 +17106,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 743, col: 8, offset: 23745},
 																								expr: &actionExpr{
-																									pos: position{line: 2880, col: 10, offset: 91317},
+																									pos: position{line: 2881, col: 10, offset: 91342},
 																									run: (*parser).callonDocumentHeader168,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2880, col: 10, offset: 91317},
+																										pos:        position{line: 2881, col: 10, offset: 91342},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -17118,28 +17118,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2902, col: 8, offset: 91715},
+																								pos: position{line: 2903, col: 8, offset: 91740},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2889, col: 12, offset: 91488},
+																										pos: position{line: 2890, col: 12, offset: 91513},
 																										run: (*parser).callonDocumentHeader171,
 																										expr: &choiceExpr{
-																											pos: position{line: 2889, col: 13, offset: 91489},
+																											pos: position{line: 2890, col: 13, offset: 91514},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2889, col: 13, offset: 91489},
+																													pos:        position{line: 2890, col: 13, offset: 91514},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2889, col: 20, offset: 91496},
+																													pos:        position{line: 2890, col: 20, offset: 91521},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2889, col: 29, offset: 91505},
+																													pos:        position{line: 2890, col: 29, offset: 91530},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -17148,9 +17148,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2899, col: 8, offset: 91665},
+																										pos: position{line: 2900, col: 8, offset: 91690},
 																										expr: &anyMatcher{
-																											line: 2899, col: 9, offset: 91666,
+																											line: 2900, col: 9, offset: 91691,
 																										},
 																									},
 																								},
@@ -17159,9 +17159,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2899, col: 8, offset: 91665},
+																					pos: position{line: 2900, col: 8, offset: 91690},
 																					expr: &anyMatcher{
-																						line: 2899, col: 9, offset: 91666,
+																						line: 2900, col: 9, offset: 91691,
 																					},
 																				},
 																			},
@@ -17177,21 +17177,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2897, col: 11, offset: 91651},
+																						pos: position{line: 2898, col: 11, offset: 91676},
 																						expr: &anyMatcher{
-																							line: 2897, col: 13, offset: 91653,
+																							line: 2898, col: 13, offset: 91678,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2826, col: 13, offset: 89843},
+																							pos: position{line: 2827, col: 13, offset: 89868},
 																							run: (*parser).callonDocumentHeader186,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2826, col: 13, offset: 89843},
+																								pos: position{line: 2827, col: 13, offset: 89868},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2826, col: 13, offset: 89843},
+																									pos:        position{line: 2827, col: 13, offset: 89868},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17201,28 +17201,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2902, col: 8, offset: 91715},
+																						pos: position{line: 2903, col: 8, offset: 91740},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2889, col: 12, offset: 91488},
+																								pos: position{line: 2890, col: 12, offset: 91513},
 																								run: (*parser).callonDocumentHeader190,
 																								expr: &choiceExpr{
-																									pos: position{line: 2889, col: 13, offset: 91489},
+																									pos: position{line: 2890, col: 13, offset: 91514},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 13, offset: 91489},
+																											pos:        position{line: 2890, col: 13, offset: 91514},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 20, offset: 91496},
+																											pos:        position{line: 2890, col: 20, offset: 91521},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 29, offset: 91505},
+																											pos:        position{line: 2890, col: 29, offset: 91530},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17231,9 +17231,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2899, col: 8, offset: 91665},
+																								pos: position{line: 2900, col: 8, offset: 91690},
 																								expr: &anyMatcher{
-																									line: 2899, col: 9, offset: 91666,
+																									line: 2900, col: 9, offset: 91691,
 																								},
 																							},
 																						},
@@ -17289,10 +17289,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 743, col: 8, offset: 23745},
 																			expr: &actionExpr{
-																				pos: position{line: 2880, col: 10, offset: 91317},
+																				pos: position{line: 2881, col: 10, offset: 91342},
 																				run: (*parser).callonDocumentHeader208,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2880, col: 10, offset: 91317},
+																					pos:        position{line: 2881, col: 10, offset: 91342},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -17301,28 +17301,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2902, col: 8, offset: 91715},
+																			pos: position{line: 2903, col: 8, offset: 91740},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2889, col: 12, offset: 91488},
+																					pos: position{line: 2890, col: 12, offset: 91513},
 																					run: (*parser).callonDocumentHeader211,
 																					expr: &choiceExpr{
-																						pos: position{line: 2889, col: 13, offset: 91489},
+																						pos: position{line: 2890, col: 13, offset: 91514},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2889, col: 13, offset: 91489},
+																								pos:        position{line: 2890, col: 13, offset: 91514},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2889, col: 20, offset: 91496},
+																								pos:        position{line: 2890, col: 20, offset: 91521},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2889, col: 29, offset: 91505},
+																								pos:        position{line: 2890, col: 29, offset: 91530},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -17331,9 +17331,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2899, col: 8, offset: 91665},
+																					pos: position{line: 2900, col: 8, offset: 91690},
 																					expr: &anyMatcher{
-																						line: 2899, col: 9, offset: 91666,
+																						line: 2900, col: 9, offset: 91691,
 																					},
 																				},
 																			},
@@ -17342,9 +17342,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2899, col: 8, offset: 91665},
+																pos: position{line: 2900, col: 8, offset: 91690},
 																expr: &anyMatcher{
-																	line: 2899, col: 9, offset: 91666,
+																	line: 2900, col: 9, offset: 91691,
 																},
 															},
 														},
@@ -17388,10 +17388,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1126, col: 20, offset: 34750},
 																expr: &actionExpr{
-																	pos: position{line: 2880, col: 10, offset: 91317},
+																	pos: position{line: 2881, col: 10, offset: 91342},
 																	run: (*parser).callonDocumentHeader230,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2880, col: 10, offset: 91317},
+																		pos:        position{line: 2881, col: 10, offset: 91342},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17442,10 +17442,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1145, col: 5, offset: 35355},
 																										expr: &actionExpr{
-																											pos: position{line: 2880, col: 10, offset: 91317},
+																											pos: position{line: 2881, col: 10, offset: 91342},
 																											run: (*parser).callonDocumentHeader245,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2880, col: 10, offset: 91317},
+																												pos:        position{line: 2881, col: 10, offset: 91342},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17477,10 +17477,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1149, col: 5, offset: 35454},
 																										expr: &actionExpr{
-																											pos: position{line: 2880, col: 10, offset: 91317},
+																											pos: position{line: 2881, col: 10, offset: 91342},
 																											run: (*parser).callonDocumentHeader253,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2880, col: 10, offset: 91317},
+																												pos:        position{line: 2881, col: 10, offset: 91342},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17512,10 +17512,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1153, col: 5, offset: 35551},
 																										expr: &actionExpr{
-																											pos: position{line: 2880, col: 10, offset: 91317},
+																											pos: position{line: 2881, col: 10, offset: 91342},
 																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2880, col: 10, offset: 91317},
+																												pos:        position{line: 2881, col: 10, offset: 91342},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17540,9 +17540,9 @@ var g = &grammar{
 																								pos: position{line: 1159, col: 5, offset: 35673},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2897, col: 11, offset: 91651},
+																										pos: position{line: 2898, col: 11, offset: 91676},
 																										expr: &anyMatcher{
-																											line: 2897, col: 13, offset: 91653,
+																											line: 2898, col: 13, offset: 91678,
 																										},
 																									},
 																									&litMatcher{
@@ -17583,10 +17583,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1131, col: 69, offset: 34943},
 																					expr: &actionExpr{
-																						pos: position{line: 2880, col: 10, offset: 91317},
+																						pos: position{line: 2881, col: 10, offset: 91342},
 																						run: (*parser).callonDocumentHeader276,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2880, col: 10, offset: 91317},
+																							pos:        position{line: 2881, col: 10, offset: 91342},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17606,10 +17606,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1131, col: 81, offset: 34955},
 																					expr: &actionExpr{
-																						pos: position{line: 2880, col: 10, offset: 91317},
+																						pos: position{line: 2881, col: 10, offset: 91342},
 																						run: (*parser).callonDocumentHeader281,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2880, col: 10, offset: 91317},
+																							pos:        position{line: 2881, col: 10, offset: 91342},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17627,28 +17627,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2902, col: 8, offset: 91715},
+																pos: position{line: 2903, col: 8, offset: 91740},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2889, col: 12, offset: 91488},
+																		pos: position{line: 2890, col: 12, offset: 91513},
 																		run: (*parser).callonDocumentHeader285,
 																		expr: &choiceExpr{
-																			pos: position{line: 2889, col: 13, offset: 91489},
+																			pos: position{line: 2890, col: 13, offset: 91514},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2889, col: 13, offset: 91489},
+																					pos:        position{line: 2890, col: 13, offset: 91514},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2889, col: 20, offset: 91496},
+																					pos:        position{line: 2890, col: 20, offset: 91521},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2889, col: 29, offset: 91505},
+																					pos:        position{line: 2890, col: 29, offset: 91530},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17657,9 +17657,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2899, col: 8, offset: 91665},
+																		pos: position{line: 2900, col: 8, offset: 91690},
 																		expr: &anyMatcher{
-																			line: 2899, col: 9, offset: 91666,
+																			line: 2900, col: 9, offset: 91691,
 																		},
 																	},
 																},
@@ -17674,36 +17674,36 @@ var g = &grammar{
 													pos: position{line: 1121, col: 6, offset: 34525},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2487, col: 22, offset: 80203},
+															pos: position{line: 2488, col: 22, offset: 80228},
 															run: (*parser).callonDocumentHeader294,
 															expr: &seqExpr{
-																pos: position{line: 2487, col: 22, offset: 80203},
+																pos: position{line: 2488, col: 22, offset: 80228},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2492, col: 31, offset: 80424},
+																		pos:        position{line: 2493, col: 31, offset: 80449},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2492, col: 36, offset: 80429},
+																		pos: position{line: 2493, col: 36, offset: 80454},
 																		expr: &litMatcher{
-																			pos:        position{line: 2492, col: 37, offset: 80430},
+																			pos:        position{line: 2493, col: 37, offset: 80455},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2487, col: 49, offset: 80230},
+																		pos:   position{line: 2488, col: 49, offset: 80255},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2826, col: 13, offset: 89843},
+																			pos: position{line: 2827, col: 13, offset: 89868},
 																			run: (*parser).callonDocumentHeader300,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2826, col: 13, offset: 89843},
+																				pos: position{line: 2827, col: 13, offset: 89868},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2826, col: 13, offset: 89843},
+																					pos:        position{line: 2827, col: 13, offset: 89868},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -17713,28 +17713,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2902, col: 8, offset: 91715},
+																		pos: position{line: 2903, col: 8, offset: 91740},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2889, col: 12, offset: 91488},
+																				pos: position{line: 2890, col: 12, offset: 91513},
 																				run: (*parser).callonDocumentHeader304,
 																				expr: &choiceExpr{
-																					pos: position{line: 2889, col: 13, offset: 91489},
+																					pos: position{line: 2890, col: 13, offset: 91514},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 13, offset: 91489},
+																							pos:        position{line: 2890, col: 13, offset: 91514},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 20, offset: 91496},
+																							pos:        position{line: 2890, col: 20, offset: 91521},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 29, offset: 91505},
+																							pos:        position{line: 2890, col: 29, offset: 91530},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -17743,9 +17743,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2899, col: 8, offset: 91665},
+																				pos: position{line: 2900, col: 8, offset: 91690},
 																				expr: &anyMatcher{
-																					line: 2899, col: 9, offset: 91666,
+																					line: 2900, col: 9, offset: 91691,
 																				},
 																			},
 																		},
@@ -17796,10 +17796,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 743, col: 8, offset: 23745},
 																					expr: &actionExpr{
-																						pos: position{line: 2880, col: 10, offset: 91317},
+																						pos: position{line: 2881, col: 10, offset: 91342},
 																						run: (*parser).callonDocumentHeader322,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2880, col: 10, offset: 91317},
+																							pos:        position{line: 2881, col: 10, offset: 91342},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17808,28 +17808,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2902, col: 8, offset: 91715},
+																					pos: position{line: 2903, col: 8, offset: 91740},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2889, col: 12, offset: 91488},
+																							pos: position{line: 2890, col: 12, offset: 91513},
 																							run: (*parser).callonDocumentHeader325,
 																							expr: &choiceExpr{
-																								pos: position{line: 2889, col: 13, offset: 91489},
+																								pos: position{line: 2890, col: 13, offset: 91514},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2889, col: 13, offset: 91489},
+																										pos:        position{line: 2890, col: 13, offset: 91514},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2889, col: 20, offset: 91496},
+																										pos:        position{line: 2890, col: 20, offset: 91521},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2889, col: 29, offset: 91505},
+																										pos:        position{line: 2890, col: 29, offset: 91530},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -17838,9 +17838,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2899, col: 8, offset: 91665},
+																							pos: position{line: 2900, col: 8, offset: 91690},
 																							expr: &anyMatcher{
-																								line: 2899, col: 9, offset: 91666,
+																								line: 2900, col: 9, offset: 91691,
 																							},
 																						},
 																					},
@@ -17901,10 +17901,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 743, col: 8, offset: 23745},
 																													expr: &actionExpr{
-																														pos: position{line: 2880, col: 10, offset: 91317},
+																														pos: position{line: 2881, col: 10, offset: 91342},
 																														run: (*parser).callonDocumentHeader347,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2880, col: 10, offset: 91317},
+																															pos:        position{line: 2881, col: 10, offset: 91342},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -17913,28 +17913,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2902, col: 8, offset: 91715},
+																													pos: position{line: 2903, col: 8, offset: 91740},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2889, col: 12, offset: 91488},
+																															pos: position{line: 2890, col: 12, offset: 91513},
 																															run: (*parser).callonDocumentHeader350,
 																															expr: &choiceExpr{
-																																pos: position{line: 2889, col: 13, offset: 91489},
+																																pos: position{line: 2890, col: 13, offset: 91514},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2889, col: 13, offset: 91489},
+																																		pos:        position{line: 2890, col: 13, offset: 91514},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2889, col: 20, offset: 91496},
+																																		pos:        position{line: 2890, col: 20, offset: 91521},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2889, col: 29, offset: 91505},
+																																		pos:        position{line: 2890, col: 29, offset: 91530},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -17943,9 +17943,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2899, col: 8, offset: 91665},
+																															pos: position{line: 2900, col: 8, offset: 91690},
 																															expr: &anyMatcher{
-																																line: 2899, col: 9, offset: 91666,
+																																line: 2900, col: 9, offset: 91691,
 																															},
 																														},
 																													},
@@ -17954,9 +17954,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2899, col: 8, offset: 91665},
+																										pos: position{line: 2900, col: 8, offset: 91690},
 																										expr: &anyMatcher{
-																											line: 2899, col: 9, offset: 91666,
+																											line: 2900, col: 9, offset: 91691,
 																										},
 																									},
 																								},
@@ -17972,21 +17972,21 @@ var g = &grammar{
 																									pos: position{line: 812, col: 5, offset: 26152},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2897, col: 11, offset: 91651},
+																											pos: position{line: 2898, col: 11, offset: 91676},
 																											expr: &anyMatcher{
-																												line: 2897, col: 13, offset: 91653,
+																												line: 2898, col: 13, offset: 91678,
 																											},
 																										},
 																										&labeledExpr{
 																											pos:   position{line: 813, col: 5, offset: 26227},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2826, col: 13, offset: 89843},
+																												pos: position{line: 2827, col: 13, offset: 89868},
 																												run: (*parser).callonDocumentHeader365,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2826, col: 13, offset: 89843},
+																													pos: position{line: 2827, col: 13, offset: 89868},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2826, col: 13, offset: 89843},
+																														pos:        position{line: 2827, col: 13, offset: 89868},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -17996,28 +17996,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2902, col: 8, offset: 91715},
+																											pos: position{line: 2903, col: 8, offset: 91740},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2889, col: 12, offset: 91488},
+																													pos: position{line: 2890, col: 12, offset: 91513},
 																													run: (*parser).callonDocumentHeader369,
 																													expr: &choiceExpr{
-																														pos: position{line: 2889, col: 13, offset: 91489},
+																														pos: position{line: 2890, col: 13, offset: 91514},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 13, offset: 91489},
+																																pos:        position{line: 2890, col: 13, offset: 91514},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 20, offset: 91496},
+																																pos:        position{line: 2890, col: 20, offset: 91521},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 29, offset: 91505},
+																																pos:        position{line: 2890, col: 29, offset: 91530},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18026,9 +18026,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2899, col: 8, offset: 91665},
+																													pos: position{line: 2900, col: 8, offset: 91690},
 																													expr: &anyMatcher{
-																														line: 2899, col: 9, offset: 91666,
+																														line: 2900, col: 9, offset: 91691,
 																													},
 																												},
 																											},
@@ -18084,10 +18084,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 743, col: 8, offset: 23745},
 																								expr: &actionExpr{
-																									pos: position{line: 2880, col: 10, offset: 91317},
+																									pos: position{line: 2881, col: 10, offset: 91342},
 																									run: (*parser).callonDocumentHeader387,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2880, col: 10, offset: 91317},
+																										pos:        position{line: 2881, col: 10, offset: 91342},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -18096,28 +18096,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2902, col: 8, offset: 91715},
+																								pos: position{line: 2903, col: 8, offset: 91740},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2889, col: 12, offset: 91488},
+																										pos: position{line: 2890, col: 12, offset: 91513},
 																										run: (*parser).callonDocumentHeader390,
 																										expr: &choiceExpr{
-																											pos: position{line: 2889, col: 13, offset: 91489},
+																											pos: position{line: 2890, col: 13, offset: 91514},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2889, col: 13, offset: 91489},
+																													pos:        position{line: 2890, col: 13, offset: 91514},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2889, col: 20, offset: 91496},
+																													pos:        position{line: 2890, col: 20, offset: 91521},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2889, col: 29, offset: 91505},
+																													pos:        position{line: 2890, col: 29, offset: 91530},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -18126,9 +18126,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2899, col: 8, offset: 91665},
+																										pos: position{line: 2900, col: 8, offset: 91690},
 																										expr: &anyMatcher{
-																											line: 2899, col: 9, offset: 91666,
+																											line: 2900, col: 9, offset: 91691,
 																										},
 																									},
 																								},
@@ -18137,9 +18137,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2899, col: 8, offset: 91665},
+																					pos: position{line: 2900, col: 8, offset: 91690},
 																					expr: &anyMatcher{
-																						line: 2899, col: 9, offset: 91666,
+																						line: 2900, col: 9, offset: 91691,
 																					},
 																				},
 																			},
@@ -18165,10 +18165,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1170, col: 21, offset: 35951},
 																	expr: &actionExpr{
-																		pos: position{line: 2880, col: 10, offset: 91317},
+																		pos: position{line: 2881, col: 10, offset: 91342},
 																		run: (*parser).callonDocumentHeader404,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 10, offset: 91317},
+																			pos:        position{line: 2881, col: 10, offset: 91342},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18270,10 +18270,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 1182, col: 28, offset: 36582},
 																													expr: &actionExpr{
-																														pos: position{line: 2880, col: 10, offset: 91317},
+																														pos: position{line: 2881, col: 10, offset: 91342},
 																														run: (*parser).callonDocumentHeader428,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2880, col: 10, offset: 91317},
+																															pos:        position{line: 2881, col: 10, offset: 91342},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -18420,28 +18420,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2902, col: 8, offset: 91715},
+																	pos: position{line: 2903, col: 8, offset: 91740},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2889, col: 12, offset: 91488},
+																			pos: position{line: 2890, col: 12, offset: 91513},
 																			run: (*parser).callonDocumentHeader460,
 																			expr: &choiceExpr{
-																				pos: position{line: 2889, col: 13, offset: 91489},
+																				pos: position{line: 2890, col: 13, offset: 91514},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 13, offset: 91489},
+																						pos:        position{line: 2890, col: 13, offset: 91514},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 20, offset: 91496},
+																						pos:        position{line: 2890, col: 20, offset: 91521},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 29, offset: 91505},
+																						pos:        position{line: 2890, col: 29, offset: 91530},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18450,9 +18450,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2899, col: 8, offset: 91665},
+																			pos: position{line: 2900, col: 8, offset: 91690},
 																			expr: &anyMatcher{
-																				line: 2899, col: 9, offset: 91666,
+																				line: 2900, col: 9, offset: 91691,
 																			},
 																		},
 																	},
@@ -18532,10 +18532,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 359, col: 49, offset: 10879},
 														expr: &actionExpr{
-															pos: position{line: 2880, col: 10, offset: 91317},
+															pos: position{line: 2881, col: 10, offset: 91342},
 															run: (*parser).callonDocumentHeader482,
 															expr: &charClassMatcher{
-																pos:        position{line: 2880, col: 10, offset: 91317},
+																pos:        position{line: 2881, col: 10, offset: 91342},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18544,28 +18544,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2902, col: 8, offset: 91715},
+														pos: position{line: 2903, col: 8, offset: 91740},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2889, col: 12, offset: 91488},
+																pos: position{line: 2890, col: 12, offset: 91513},
 																run: (*parser).callonDocumentHeader485,
 																expr: &choiceExpr{
-																	pos: position{line: 2889, col: 13, offset: 91489},
+																	pos: position{line: 2890, col: 13, offset: 91514},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2889, col: 13, offset: 91489},
+																			pos:        position{line: 2890, col: 13, offset: 91514},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2889, col: 20, offset: 91496},
+																			pos:        position{line: 2890, col: 20, offset: 91521},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2889, col: 29, offset: 91505},
+																			pos:        position{line: 2890, col: 29, offset: 91530},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18574,9 +18574,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2899, col: 8, offset: 91665},
+																pos: position{line: 2900, col: 8, offset: 91690},
 																expr: &anyMatcher{
-																	line: 2899, col: 9, offset: 91666,
+																	line: 2900, col: 9, offset: 91691,
 																},
 															},
 														},
@@ -18637,10 +18637,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 361, col: 39, offset: 11000},
 														expr: &actionExpr{
-															pos: position{line: 2880, col: 10, offset: 91317},
+															pos: position{line: 2881, col: 10, offset: 91342},
 															run: (*parser).callonDocumentHeader503,
 															expr: &charClassMatcher{
-																pos:        position{line: 2880, col: 10, offset: 91317},
+																pos:        position{line: 2881, col: 10, offset: 91342},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18649,28 +18649,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2902, col: 8, offset: 91715},
+														pos: position{line: 2903, col: 8, offset: 91740},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2889, col: 12, offset: 91488},
+																pos: position{line: 2890, col: 12, offset: 91513},
 																run: (*parser).callonDocumentHeader506,
 																expr: &choiceExpr{
-																	pos: position{line: 2889, col: 13, offset: 91489},
+																	pos: position{line: 2890, col: 13, offset: 91514},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2889, col: 13, offset: 91489},
+																			pos:        position{line: 2890, col: 13, offset: 91514},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2889, col: 20, offset: 91496},
+																			pos:        position{line: 2890, col: 20, offset: 91521},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2889, col: 29, offset: 91505},
+																			pos:        position{line: 2890, col: 29, offset: 91530},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18679,9 +18679,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2899, col: 8, offset: 91665},
+																pos: position{line: 2900, col: 8, offset: 91690},
 																expr: &anyMatcher{
-																	line: 2899, col: 9, offset: 91666,
+																	line: 2900, col: 9, offset: 91691,
 																},
 															},
 														},
@@ -18690,36 +18690,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2487, col: 22, offset: 80203},
+											pos: position{line: 2488, col: 22, offset: 80228},
 											run: (*parser).callonDocumentHeader513,
 											expr: &seqExpr{
-												pos: position{line: 2487, col: 22, offset: 80203},
+												pos: position{line: 2488, col: 22, offset: 80228},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2492, col: 31, offset: 80424},
+														pos:        position{line: 2493, col: 31, offset: 80449},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2492, col: 36, offset: 80429},
+														pos: position{line: 2493, col: 36, offset: 80454},
 														expr: &litMatcher{
-															pos:        position{line: 2492, col: 37, offset: 80430},
+															pos:        position{line: 2493, col: 37, offset: 80455},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2487, col: 49, offset: 80230},
+														pos:   position{line: 2488, col: 49, offset: 80255},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2826, col: 13, offset: 89843},
+															pos: position{line: 2827, col: 13, offset: 89868},
 															run: (*parser).callonDocumentHeader519,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2826, col: 13, offset: 89843},
+																pos: position{line: 2827, col: 13, offset: 89868},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2826, col: 13, offset: 89843},
+																	pos:        position{line: 2827, col: 13, offset: 89868},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -18729,28 +18729,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2902, col: 8, offset: 91715},
+														pos: position{line: 2903, col: 8, offset: 91740},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2889, col: 12, offset: 91488},
+																pos: position{line: 2890, col: 12, offset: 91513},
 																run: (*parser).callonDocumentHeader523,
 																expr: &choiceExpr{
-																	pos: position{line: 2889, col: 13, offset: 91489},
+																	pos: position{line: 2890, col: 13, offset: 91514},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2889, col: 13, offset: 91489},
+																			pos:        position{line: 2890, col: 13, offset: 91514},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2889, col: 20, offset: 91496},
+																			pos:        position{line: 2890, col: 20, offset: 91521},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2889, col: 29, offset: 91505},
+																			pos:        position{line: 2890, col: 29, offset: 91530},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18759,9 +18759,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2899, col: 8, offset: 91665},
+																pos: position{line: 2900, col: 8, offset: 91690},
 																expr: &anyMatcher{
-																	line: 2899, col: 9, offset: 91666,
+																	line: 2900, col: 9, offset: 91691,
 																},
 															},
 														},
@@ -18812,10 +18812,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 743, col: 8, offset: 23745},
 																	expr: &actionExpr{
-																		pos: position{line: 2880, col: 10, offset: 91317},
+																		pos: position{line: 2881, col: 10, offset: 91342},
 																		run: (*parser).callonDocumentHeader541,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 10, offset: 91317},
+																			pos:        position{line: 2881, col: 10, offset: 91342},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18824,28 +18824,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2902, col: 8, offset: 91715},
+																	pos: position{line: 2903, col: 8, offset: 91740},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2889, col: 12, offset: 91488},
+																			pos: position{line: 2890, col: 12, offset: 91513},
 																			run: (*parser).callonDocumentHeader544,
 																			expr: &choiceExpr{
-																				pos: position{line: 2889, col: 13, offset: 91489},
+																				pos: position{line: 2890, col: 13, offset: 91514},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 13, offset: 91489},
+																						pos:        position{line: 2890, col: 13, offset: 91514},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 20, offset: 91496},
+																						pos:        position{line: 2890, col: 20, offset: 91521},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 29, offset: 91505},
+																						pos:        position{line: 2890, col: 29, offset: 91530},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18854,9 +18854,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2899, col: 8, offset: 91665},
+																			pos: position{line: 2900, col: 8, offset: 91690},
 																			expr: &anyMatcher{
-																				line: 2899, col: 9, offset: 91666,
+																				line: 2900, col: 9, offset: 91691,
 																			},
 																		},
 																	},
@@ -18917,10 +18917,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 743, col: 8, offset: 23745},
 																									expr: &actionExpr{
-																										pos: position{line: 2880, col: 10, offset: 91317},
+																										pos: position{line: 2881, col: 10, offset: 91342},
 																										run: (*parser).callonDocumentHeader566,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2880, col: 10, offset: 91317},
+																											pos:        position{line: 2881, col: 10, offset: 91342},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -18929,28 +18929,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2902, col: 8, offset: 91715},
+																									pos: position{line: 2903, col: 8, offset: 91740},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2889, col: 12, offset: 91488},
+																											pos: position{line: 2890, col: 12, offset: 91513},
 																											run: (*parser).callonDocumentHeader569,
 																											expr: &choiceExpr{
-																												pos: position{line: 2889, col: 13, offset: 91489},
+																												pos: position{line: 2890, col: 13, offset: 91514},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2889, col: 13, offset: 91489},
+																														pos:        position{line: 2890, col: 13, offset: 91514},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2889, col: 20, offset: 91496},
+																														pos:        position{line: 2890, col: 20, offset: 91521},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2889, col: 29, offset: 91505},
+																														pos:        position{line: 2890, col: 29, offset: 91530},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -18959,9 +18959,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2899, col: 8, offset: 91665},
+																											pos: position{line: 2900, col: 8, offset: 91690},
 																											expr: &anyMatcher{
-																												line: 2899, col: 9, offset: 91666,
+																												line: 2900, col: 9, offset: 91691,
 																											},
 																										},
 																									},
@@ -18970,9 +18970,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2899, col: 8, offset: 91665},
+																						pos: position{line: 2900, col: 8, offset: 91690},
 																						expr: &anyMatcher{
-																							line: 2899, col: 9, offset: 91666,
+																							line: 2900, col: 9, offset: 91691,
 																						},
 																					},
 																				},
@@ -18988,21 +18988,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2897, col: 11, offset: 91651},
+																							pos: position{line: 2898, col: 11, offset: 91676},
 																							expr: &anyMatcher{
-																								line: 2897, col: 13, offset: 91653,
+																								line: 2898, col: 13, offset: 91678,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2826, col: 13, offset: 89843},
+																								pos: position{line: 2827, col: 13, offset: 89868},
 																								run: (*parser).callonDocumentHeader584,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2826, col: 13, offset: 89843},
+																									pos: position{line: 2827, col: 13, offset: 89868},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2826, col: 13, offset: 89843},
+																										pos:        position{line: 2827, col: 13, offset: 89868},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -19012,28 +19012,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2902, col: 8, offset: 91715},
+																							pos: position{line: 2903, col: 8, offset: 91740},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2889, col: 12, offset: 91488},
+																									pos: position{line: 2890, col: 12, offset: 91513},
 																									run: (*parser).callonDocumentHeader588,
 																									expr: &choiceExpr{
-																										pos: position{line: 2889, col: 13, offset: 91489},
+																										pos: position{line: 2890, col: 13, offset: 91514},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 13, offset: 91489},
+																												pos:        position{line: 2890, col: 13, offset: 91514},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 20, offset: 91496},
+																												pos:        position{line: 2890, col: 20, offset: 91521},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 29, offset: 91505},
+																												pos:        position{line: 2890, col: 29, offset: 91530},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19042,9 +19042,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2899, col: 8, offset: 91665},
+																									pos: position{line: 2900, col: 8, offset: 91690},
 																									expr: &anyMatcher{
-																										line: 2899, col: 9, offset: 91666,
+																										line: 2900, col: 9, offset: 91691,
 																									},
 																								},
 																							},
@@ -19100,10 +19100,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 743, col: 8, offset: 23745},
 																				expr: &actionExpr{
-																					pos: position{line: 2880, col: 10, offset: 91317},
+																					pos: position{line: 2881, col: 10, offset: 91342},
 																					run: (*parser).callonDocumentHeader606,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2880, col: 10, offset: 91317},
+																						pos:        position{line: 2881, col: 10, offset: 91342},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -19112,28 +19112,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2902, col: 8, offset: 91715},
+																				pos: position{line: 2903, col: 8, offset: 91740},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2889, col: 12, offset: 91488},
+																						pos: position{line: 2890, col: 12, offset: 91513},
 																						run: (*parser).callonDocumentHeader609,
 																						expr: &choiceExpr{
-																							pos: position{line: 2889, col: 13, offset: 91489},
+																							pos: position{line: 2890, col: 13, offset: 91514},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2889, col: 13, offset: 91489},
+																									pos:        position{line: 2890, col: 13, offset: 91514},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2889, col: 20, offset: 91496},
+																									pos:        position{line: 2890, col: 20, offset: 91521},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2889, col: 29, offset: 91505},
+																									pos:        position{line: 2890, col: 29, offset: 91530},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -19142,9 +19142,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2899, col: 8, offset: 91665},
+																						pos: position{line: 2900, col: 8, offset: 91690},
 																						expr: &anyMatcher{
-																							line: 2899, col: 9, offset: 91666,
+																							line: 2900, col: 9, offset: 91691,
 																						},
 																					},
 																				},
@@ -19153,9 +19153,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2899, col: 8, offset: 91665},
+																	pos: position{line: 2900, col: 8, offset: 91690},
 																	expr: &anyMatcher{
-																		line: 2899, col: 9, offset: 91666,
+																		line: 2900, col: 9, offset: 91691,
 																	},
 																},
 															},
@@ -19188,12 +19188,12 @@ var g = &grammar{
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2884, col: 11, offset: 91378},
+							pos: position{line: 2885, col: 11, offset: 91403},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2884, col: 11, offset: 91378},
+								pos: position{line: 2885, col: 11, offset: 91403},
 								expr: &charClassMatcher{
-									pos:        position{line: 2884, col: 11, offset: 91378},
+									pos:        position{line: 2885, col: 11, offset: 91403},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19210,28 +19210,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2902, col: 8, offset: 91715},
+							pos: position{line: 2903, col: 8, offset: 91740},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2889, col: 12, offset: 91488},
+									pos: position{line: 2890, col: 12, offset: 91513},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2889, col: 13, offset: 91489},
+										pos: position{line: 2890, col: 13, offset: 91514},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2889, col: 13, offset: 91489},
+												pos:        position{line: 2890, col: 13, offset: 91514},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2889, col: 20, offset: 91496},
+												pos:        position{line: 2890, col: 20, offset: 91521},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2889, col: 29, offset: 91505},
+												pos:        position{line: 2890, col: 29, offset: 91530},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19240,9 +19240,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2899, col: 8, offset: 91665},
+									pos: position{line: 2900, col: 8, offset: 91690},
 									expr: &anyMatcher{
-										line: 2899, col: 9, offset: 91666,
+										line: 2900, col: 9, offset: 91691,
 									},
 								},
 							},
@@ -19281,10 +19281,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1145, col: 5, offset: 35355},
 							expr: &actionExpr{
-								pos: position{line: 2880, col: 10, offset: 91317},
+								pos: position{line: 2881, col: 10, offset: 91342},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2880, col: 10, offset: 91317},
+									pos:        position{line: 2881, col: 10, offset: 91342},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19316,10 +19316,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1149, col: 5, offset: 35454},
 							expr: &actionExpr{
-								pos: position{line: 2880, col: 10, offset: 91317},
+								pos: position{line: 2881, col: 10, offset: 91342},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2880, col: 10, offset: 91317},
+									pos:        position{line: 2881, col: 10, offset: 91342},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19351,10 +19351,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1153, col: 5, offset: 35551},
 							expr: &actionExpr{
-								pos: position{line: 2880, col: 10, offset: 91317},
+								pos: position{line: 2881, col: 10, offset: 91342},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2880, col: 10, offset: 91317},
+									pos:        position{line: 2881, col: 10, offset: 91342},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19420,12 +19420,12 @@ var g = &grammar{
 							pos:   position{line: 1285, col: 13, offset: 39899},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2865, col: 7, offset: 90969},
+								pos: position{line: 2866, col: 7, offset: 90994},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2865, col: 7, offset: 90969},
+									pos: position{line: 2866, col: 7, offset: 90994},
 									expr: &charClassMatcher{
-										pos:        position{line: 2865, col: 7, offset: 90969},
+										pos:        position{line: 2866, col: 7, offset: 90994},
 										val:        "[^[]<>,\\r\\n]",
 										chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 										ignoreCase: false,
@@ -19494,12 +19494,12 @@ var g = &grammar{
 							pos: position{line: 1296, col: 31, offset: 40359},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2774, col: 14, offset: 88465},
+									pos: position{line: 2775, col: 14, offset: 88490},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2774, col: 14, offset: 88465},
+										pos: position{line: 2775, col: 14, offset: 88490},
 										expr: &charClassMatcher{
-											pos:        position{line: 2774, col: 14, offset: 88465},
+											pos:        position{line: 2775, col: 14, offset: 88490},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -19512,10 +19512,10 @@ var g = &grammar{
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2880, col: 10, offset: 91317},
+									pos: position{line: 2881, col: 10, offset: 91342},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2880, col: 10, offset: 91317},
+										pos:        position{line: 2881, col: 10, offset: 91342},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -19523,23 +19523,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2474, col: 5, offset: 79749},
+									pos: position{line: 2475, col: 5, offset: 79774},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2474, col: 5, offset: 79749},
+										pos: position{line: 2475, col: 5, offset: 79774},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2474, col: 5, offset: 79749},
+												pos: position{line: 2475, col: 5, offset: 79774},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2477, col: 5, offset: 79825},
+												pos:   position{line: 2478, col: 5, offset: 79850},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2478, col: 9, offset: 79843},
+													pos: position{line: 2479, col: 9, offset: 79868},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2478, col: 10, offset: 79844},
+														pos:        position{line: 2479, col: 10, offset: 79869},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -19633,10 +19633,10 @@ var g = &grammar{
 							pos:   position{line: 1317, col: 5, offset: 41167},
 							label: "start",
 							expr: &actionExpr{
-								pos: position{line: 2905, col: 16, offset: 91839},
+								pos: position{line: 2906, col: 16, offset: 91864},
 								run: (*parser).callonImageBlock4,
 								expr: &litMatcher{
-									pos:        position{line: 2905, col: 16, offset: 91839},
+									pos:        position{line: 2906, col: 16, offset: 91864},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -19653,48 +19653,48 @@ var g = &grammar{
 							pos:   position{line: 1317, col: 35, offset: 41197},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2838, col: 13, offset: 90076},
+								pos: position{line: 2839, col: 13, offset: 90101},
 								run: (*parser).callonImageBlock8,
 								expr: &seqExpr{
-									pos: position{line: 2838, col: 13, offset: 90076},
+									pos: position{line: 2839, col: 13, offset: 90101},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2838, col: 13, offset: 90076},
+											pos:   position{line: 2839, col: 13, offset: 90101},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2838, col: 20, offset: 90083},
+												pos: position{line: 2839, col: 20, offset: 90108},
 												expr: &actionExpr{
-													pos: position{line: 2846, col: 11, offset: 90322},
+													pos: position{line: 2847, col: 11, offset: 90347},
 													run: (*parser).callonImageBlock12,
 													expr: &choiceExpr{
-														pos: position{line: 2846, col: 12, offset: 90323},
+														pos: position{line: 2847, col: 12, offset: 90348},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2846, col: 12, offset: 90323},
+																pos:        position{line: 2847, col: 12, offset: 90348},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2846, col: 24, offset: 90335},
+																pos:        position{line: 2847, col: 24, offset: 90360},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2846, col: 37, offset: 90348},
+																pos:        position{line: 2847, col: 37, offset: 90373},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2846, col: 48, offset: 90359},
+																pos:        position{line: 2847, col: 48, offset: 90384},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2846, col: 59, offset: 90370},
+																pos:        position{line: 2847, col: 59, offset: 90395},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19705,38 +19705,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2838, col: 30, offset: 90093},
+											pos:   position{line: 2839, col: 30, offset: 90118},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2851, col: 5, offset: 90434},
+												pos: position{line: 2852, col: 5, offset: 90459},
 												run: (*parser).callonImageBlock20,
 												expr: &labeledExpr{
-													pos:   position{line: 2851, col: 5, offset: 90434},
+													pos:   position{line: 2852, col: 5, offset: 90459},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2851, col: 14, offset: 90443},
+														pos: position{line: 2852, col: 14, offset: 90468},
 														expr: &choiceExpr{
-															pos: position{line: 2852, col: 9, offset: 90453},
+															pos: position{line: 2853, col: 9, offset: 90478},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2852, col: 9, offset: 90453},
+																	pos: position{line: 2853, col: 9, offset: 90478},
 																	run: (*parser).callonImageBlock24,
 																	expr: &seqExpr{
-																		pos: position{line: 2852, col: 9, offset: 90453},
+																		pos: position{line: 2853, col: 9, offset: 90478},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2852, col: 9, offset: 90453},
+																				pos: position{line: 2853, col: 9, offset: 90478},
 																				expr: &litMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90454},
+																					pos:        position{line: 2853, col: 10, offset: 90479},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2853, col: 9, offset: 90482},
+																				pos: position{line: 2854, col: 9, offset: 90507},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2853, col: 10, offset: 90483},
+																					pos:        position{line: 2854, col: 10, offset: 90508},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19747,27 +19747,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2856, col: 11, offset: 90695},
+																	pos: position{line: 2857, col: 11, offset: 90720},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2856, col: 11, offset: 90695},
+																			pos:        position{line: 2857, col: 11, offset: 90720},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2856, col: 19, offset: 90703},
+																			pos: position{line: 2857, col: 19, offset: 90728},
 																			expr: &seqExpr{
-																				pos: position{line: 2856, col: 21, offset: 90705},
+																				pos: position{line: 2857, col: 21, offset: 90730},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2856, col: 21, offset: 90705},
+																						pos: position{line: 2857, col: 21, offset: 90730},
 																						expr: &actionExpr{
-																							pos: position{line: 2880, col: 10, offset: 91317},
+																							pos: position{line: 2881, col: 10, offset: 91342},
 																							run: (*parser).callonImageBlock35,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2880, col: 10, offset: 91317},
+																								pos:        position{line: 2881, col: 10, offset: 91342},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19776,11 +19776,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2856, col: 28, offset: 90712},
+																						pos: position{line: 2857, col: 28, offset: 90737},
 																						expr: &notExpr{
-																							pos: position{line: 2899, col: 8, offset: 91665},
+																							pos: position{line: 2900, col: 8, offset: 91690},
 																							expr: &anyMatcher{
-																								line: 2899, col: 9, offset: 91666,
+																								line: 2900, col: 9, offset: 91691,
 																							},
 																						},
 																					},
@@ -20179,10 +20179,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2859, col: 11, offset: 90832},
+																	pos: position{line: 2860, col: 11, offset: 90857},
 																	run: (*parser).callonImageBlock118,
 																	expr: &litMatcher{
-																		pos:        position{line: 2859, col: 11, offset: 90832},
+																		pos:        position{line: 2860, col: 11, offset: 90857},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20209,10 +20209,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1317, col: 81, offset: 41243},
 							expr: &actionExpr{
-								pos: position{line: 2880, col: 10, offset: 91317},
+								pos: position{line: 2881, col: 10, offset: 91342},
 								run: (*parser).callonImageBlock123,
 								expr: &charClassMatcher{
-									pos:        position{line: 2880, col: 10, offset: 91317},
+									pos:        position{line: 2881, col: 10, offset: 91342},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -20224,10 +20224,10 @@ var g = &grammar{
 							pos:   position{line: 1317, col: 88, offset: 41250},
 							label: "end",
 							expr: &actionExpr{
-								pos: position{line: 2905, col: 16, offset: 91839},
+								pos: position{line: 2906, col: 16, offset: 91864},
 								run: (*parser).callonImageBlock126,
 								expr: &litMatcher{
-									pos:        position{line: 2905, col: 16, offset: 91839},
+									pos:        position{line: 2906, col: 16, offset: 91864},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -20239,28 +20239,28 @@ var g = &grammar{
 							run: (*parser).callonImageBlock128,
 						},
 						&choiceExpr{
-							pos: position{line: 2902, col: 8, offset: 91715},
+							pos: position{line: 2903, col: 8, offset: 91740},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2889, col: 12, offset: 91488},
+									pos: position{line: 2890, col: 12, offset: 91513},
 									run: (*parser).callonImageBlock130,
 									expr: &choiceExpr{
-										pos: position{line: 2889, col: 13, offset: 91489},
+										pos: position{line: 2890, col: 13, offset: 91514},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2889, col: 13, offset: 91489},
+												pos:        position{line: 2890, col: 13, offset: 91514},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2889, col: 20, offset: 91496},
+												pos:        position{line: 2890, col: 20, offset: 91521},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2889, col: 29, offset: 91505},
+												pos:        position{line: 2890, col: 29, offset: 91530},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -20269,9 +20269,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2899, col: 8, offset: 91665},
+									pos: position{line: 2900, col: 8, offset: 91690},
 									expr: &anyMatcher{
-										line: 2899, col: 9, offset: 91666,
+										line: 2900, col: 9, offset: 91691,
 									},
 								},
 							},
@@ -20308,48 +20308,48 @@ var g = &grammar{
 							pos:   position{line: 1322, col: 30, offset: 41537},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2838, col: 13, offset: 90076},
+								pos: position{line: 2839, col: 13, offset: 90101},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2838, col: 13, offset: 90076},
+									pos: position{line: 2839, col: 13, offset: 90101},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2838, col: 13, offset: 90076},
+											pos:   position{line: 2839, col: 13, offset: 90101},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2838, col: 20, offset: 90083},
+												pos: position{line: 2839, col: 20, offset: 90108},
 												expr: &actionExpr{
-													pos: position{line: 2846, col: 11, offset: 90322},
+													pos: position{line: 2847, col: 11, offset: 90347},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2846, col: 12, offset: 90323},
+														pos: position{line: 2847, col: 12, offset: 90348},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2846, col: 12, offset: 90323},
+																pos:        position{line: 2847, col: 12, offset: 90348},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2846, col: 24, offset: 90335},
+																pos:        position{line: 2847, col: 24, offset: 90360},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2846, col: 37, offset: 90348},
+																pos:        position{line: 2847, col: 37, offset: 90373},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2846, col: 48, offset: 90359},
+																pos:        position{line: 2847, col: 48, offset: 90384},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2846, col: 59, offset: 90370},
+																pos:        position{line: 2847, col: 59, offset: 90395},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20360,38 +20360,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2838, col: 30, offset: 90093},
+											pos:   position{line: 2839, col: 30, offset: 90118},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2851, col: 5, offset: 90434},
+												pos: position{line: 2852, col: 5, offset: 90459},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2851, col: 5, offset: 90434},
+													pos:   position{line: 2852, col: 5, offset: 90459},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2851, col: 14, offset: 90443},
+														pos: position{line: 2852, col: 14, offset: 90468},
 														expr: &choiceExpr{
-															pos: position{line: 2852, col: 9, offset: 90453},
+															pos: position{line: 2853, col: 9, offset: 90478},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2852, col: 9, offset: 90453},
+																	pos: position{line: 2853, col: 9, offset: 90478},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2852, col: 9, offset: 90453},
+																		pos: position{line: 2853, col: 9, offset: 90478},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2852, col: 9, offset: 90453},
+																				pos: position{line: 2853, col: 9, offset: 90478},
 																				expr: &litMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90454},
+																					pos:        position{line: 2853, col: 10, offset: 90479},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2853, col: 9, offset: 90482},
+																				pos: position{line: 2854, col: 9, offset: 90507},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2853, col: 10, offset: 90483},
+																					pos:        position{line: 2854, col: 10, offset: 90508},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20402,27 +20402,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2856, col: 11, offset: 90695},
+																	pos: position{line: 2857, col: 11, offset: 90720},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2856, col: 11, offset: 90695},
+																			pos:        position{line: 2857, col: 11, offset: 90720},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2856, col: 19, offset: 90703},
+																			pos: position{line: 2857, col: 19, offset: 90728},
 																			expr: &seqExpr{
-																				pos: position{line: 2856, col: 21, offset: 90705},
+																				pos: position{line: 2857, col: 21, offset: 90730},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2856, col: 21, offset: 90705},
+																						pos: position{line: 2857, col: 21, offset: 90730},
 																						expr: &actionExpr{
-																							pos: position{line: 2880, col: 10, offset: 91317},
+																							pos: position{line: 2881, col: 10, offset: 91342},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2880, col: 10, offset: 91317},
+																								pos:        position{line: 2881, col: 10, offset: 91342},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20431,11 +20431,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2856, col: 28, offset: 90712},
+																						pos: position{line: 2857, col: 28, offset: 90737},
 																						expr: &notExpr{
-																							pos: position{line: 2899, col: 8, offset: 91665},
+																							pos: position{line: 2900, col: 8, offset: 91690},
 																							expr: &anyMatcher{
-																								line: 2899, col: 9, offset: 91666,
+																								line: 2900, col: 9, offset: 91691,
 																							},
 																						},
 																					},
@@ -20834,10 +20834,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2859, col: 11, offset: 90832},
+																	pos: position{line: 2860, col: 11, offset: 90857},
 																	run: (*parser).callonInlineImage117,
 																	expr: &litMatcher{
-																		pos:        position{line: 2859, col: 11, offset: 90832},
+																		pos:        position{line: 2860, col: 11, offset: 90857},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -21016,21 +21016,21 @@ var g = &grammar{
 								pos: position{line: 1349, col: 9, offset: 42823},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2779, col: 5, offset: 88538},
+										pos: position{line: 2780, col: 5, offset: 88563},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2779, col: 5, offset: 88538},
+											pos: position{line: 2780, col: 5, offset: 88563},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2779, col: 5, offset: 88538},
+													pos:   position{line: 2780, col: 5, offset: 88563},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2779, col: 11, offset: 88544},
+														pos: position{line: 2780, col: 11, offset: 88569},
 														run: (*parser).callonFootnoteElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2779, col: 11, offset: 88544},
+															pos: position{line: 2780, col: 11, offset: 88569},
 															expr: &charClassMatcher{
-																pos:        position{line: 2779, col: 11, offset: 88544},
+																pos:        position{line: 2780, col: 11, offset: 88569},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21040,44 +21040,44 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2782, col: 5, offset: 88602},
+													pos: position{line: 2783, col: 5, offset: 88627},
 													expr: &seqExpr{
-														pos: position{line: 2783, col: 9, offset: 88613},
+														pos: position{line: 2784, col: 9, offset: 88638},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2783, col: 9, offset: 88613},
+																pos:        position{line: 2784, col: 9, offset: 88638},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2784, col: 9, offset: 88662},
+																pos: position{line: 2785, col: 9, offset: 88687},
 																run: (*parser).callonFootnoteElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2788, col: 5, offset: 88742},
+													pos: position{line: 2789, col: 5, offset: 88767},
 													expr: &seqExpr{
-														pos: position{line: 2789, col: 9, offset: 88753},
+														pos: position{line: 2790, col: 9, offset: 88778},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2789, col: 9, offset: 88753},
+																pos: position{line: 2790, col: 9, offset: 88778},
 																expr: &seqExpr{
-																	pos: position{line: 2789, col: 10, offset: 88754},
+																	pos: position{line: 2790, col: 10, offset: 88779},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2789, col: 10, offset: 88754},
+																			pos:        position{line: 2790, col: 10, offset: 88779},
 																			val:        "[._%+-]",
 																			chars:      []rune{'.', '_', '%', '+', '-'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2789, col: 18, offset: 88762},
+																			pos: position{line: 2790, col: 18, offset: 88787},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2789, col: 18, offset: 88762},
+																				pos:        position{line: 2790, col: 18, offset: 88787},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -21088,13 +21088,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2789, col: 30, offset: 88774},
+																pos:        position{line: 2790, col: 30, offset: 88799},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2789, col: 34, offset: 88778},
+																pos:        position{line: 2790, col: 34, offset: 88803},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21107,12 +21107,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2884, col: 11, offset: 91378},
+										pos: position{line: 2885, col: 11, offset: 91403},
 										run: (*parser).callonFootnoteElement26,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2884, col: 11, offset: 91378},
+											pos: position{line: 2885, col: 11, offset: 91403},
 											expr: &charClassMatcher{
-												pos:        position{line: 2884, col: 11, offset: 91378},
+												pos:        position{line: 2885, col: 11, offset: 91403},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -21121,25 +21121,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2505, col: 5, offset: 80920},
+										pos: position{line: 2506, col: 5, offset: 80945},
 										run: (*parser).callonFootnoteElement29,
 										expr: &seqExpr{
-											pos: position{line: 2505, col: 5, offset: 80920},
+											pos: position{line: 2506, col: 5, offset: 80945},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2505, col: 5, offset: 80920},
+													pos: position{line: 2506, col: 5, offset: 80945},
 													run: (*parser).callonFootnoteElement31,
 												},
 												&litMatcher{
-													pos:        position{line: 2508, col: 5, offset: 80991},
+													pos:        position{line: 2509, col: 5, offset: 81016},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2508, col: 10, offset: 80996},
+													pos: position{line: 2509, col: 10, offset: 81021},
 													expr: &charClassMatcher{
-														pos:        position{line: 2508, col: 11, offset: 80997},
+														pos:        position{line: 2509, col: 11, offset: 81022},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21150,29 +21150,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2514, col: 5, offset: 81189},
+										pos: position{line: 2515, col: 5, offset: 81214},
 										run: (*parser).callonFootnoteElement35,
 										expr: &seqExpr{
-											pos: position{line: 2514, col: 5, offset: 81189},
+											pos: position{line: 2515, col: 5, offset: 81214},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2514, col: 5, offset: 81189},
+													pos: position{line: 2515, col: 5, offset: 81214},
 													run: (*parser).callonFootnoteElement37,
 												},
 												&andCodeExpr{
-													pos: position{line: 2517, col: 5, offset: 81260},
+													pos: position{line: 2518, col: 5, offset: 81285},
 													run: (*parser).callonFootnoteElement38,
 												},
 												&litMatcher{
-													pos:        position{line: 2521, col: 5, offset: 81385},
+													pos:        position{line: 2522, col: 5, offset: 81410},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2521, col: 9, offset: 81389},
+													pos: position{line: 2522, col: 9, offset: 81414},
 													expr: &charClassMatcher{
-														pos:        position{line: 2521, col: 10, offset: 81390},
+														pos:        position{line: 2522, col: 10, offset: 81415},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21191,27 +21191,27 @@ var g = &grammar{
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2797, col: 5, offset: 88971},
+										pos: position{line: 2798, col: 5, offset: 88996},
 										run: (*parser).callonFootnoteElement44,
 										expr: &choiceExpr{
-											pos: position{line: 2798, col: 9, offset: 88981},
+											pos: position{line: 2799, col: 9, offset: 89006},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2798, col: 10, offset: 88982},
+													pos:        position{line: 2799, col: 10, offset: 89007},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2800, col: 13, offset: 89079},
+													pos: position{line: 2801, col: 13, offset: 89104},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2800, col: 13, offset: 89079},
+															pos: position{line: 2801, col: 13, offset: 89104},
 															run: (*parser).callonFootnoteElement48,
 														},
 														&litMatcher{
-															pos:        position{line: 2803, col: 13, offset: 89179},
+															pos:        position{line: 2804, col: 13, offset: 89204},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -21219,20 +21219,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2803, col: 19, offset: 89185},
+													pos:        position{line: 2804, col: 19, offset: 89210},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2806, col: 13, offset: 89223},
+													pos: position{line: 2807, col: 13, offset: 89248},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2806, col: 13, offset: 89223},
+															pos: position{line: 2807, col: 13, offset: 89248},
 															run: (*parser).callonFootnoteElement52,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2809, col: 14, offset: 89316},
+															pos:        position{line: 2810, col: 14, offset: 89341},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -21241,18 +21241,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2811, col: 12, offset: 89360},
+													pos: position{line: 2812, col: 12, offset: 89385},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2811, col: 12, offset: 89360},
+															pos:        position{line: 2812, col: 12, offset: 89385},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2811, col: 16, offset: 89364},
+															pos: position{line: 2812, col: 16, offset: 89389},
 															expr: &litMatcher{
-																pos:        position{line: 2811, col: 17, offset: 89365},
+																pos:        position{line: 2812, col: 17, offset: 89390},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -21290,10 +21290,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 1219, col: 5, offset: 37756},
 													expr: &actionExpr{
-														pos: position{line: 2880, col: 10, offset: 91317},
+														pos: position{line: 2881, col: 10, offset: 91342},
 														run: (*parser).callonFootnoteElement65,
 														expr: &charClassMatcher{
-															pos:        position{line: 2880, col: 10, offset: 91317},
+															pos:        position{line: 2881, col: 10, offset: 91342},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -21304,28 +21304,28 @@ var g = &grammar{
 												&andExpr{
 													pos: position{line: 1219, col: 12, offset: 37763},
 													expr: &choiceExpr{
-														pos: position{line: 2902, col: 8, offset: 91715},
+														pos: position{line: 2903, col: 8, offset: 91740},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2889, col: 12, offset: 91488},
+																pos: position{line: 2890, col: 12, offset: 91513},
 																run: (*parser).callonFootnoteElement69,
 																expr: &choiceExpr{
-																	pos: position{line: 2889, col: 13, offset: 91489},
+																	pos: position{line: 2890, col: 13, offset: 91514},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2889, col: 13, offset: 91489},
+																			pos:        position{line: 2890, col: 13, offset: 91514},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2889, col: 20, offset: 91496},
+																			pos:        position{line: 2890, col: 20, offset: 91521},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2889, col: 29, offset: 91505},
+																			pos:        position{line: 2890, col: 29, offset: 91530},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -21334,9 +21334,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2899, col: 8, offset: 91665},
+																pos: position{line: 2900, col: 8, offset: 91690},
 																expr: &anyMatcher{
-																	line: 2899, col: 9, offset: 91666,
+																	line: 2900, col: 9, offset: 91691,
 																},
 															},
 														},
@@ -21692,23 +21692,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2474, col: 5, offset: 79749},
+										pos: position{line: 2475, col: 5, offset: 79774},
 										run: (*parser).callonFootnoteElement145,
 										expr: &seqExpr{
-											pos: position{line: 2474, col: 5, offset: 79749},
+											pos: position{line: 2475, col: 5, offset: 79774},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2474, col: 5, offset: 79749},
+													pos: position{line: 2475, col: 5, offset: 79774},
 													run: (*parser).callonFootnoteElement147,
 												},
 												&labeledExpr{
-													pos:   position{line: 2477, col: 5, offset: 79825},
+													pos:   position{line: 2478, col: 5, offset: 79850},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2478, col: 9, offset: 79843},
+														pos: position{line: 2479, col: 9, offset: 79868},
 														run: (*parser).callonFootnoteElement149,
 														expr: &charClassMatcher{
-															pos:        position{line: 2478, col: 10, offset: 79844},
+															pos:        position{line: 2479, col: 10, offset: 79869},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -21720,25 +21720,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2889, col: 12, offset: 91488},
+										pos: position{line: 2890, col: 12, offset: 91513},
 										run: (*parser).callonFootnoteElement151,
 										expr: &choiceExpr{
-											pos: position{line: 2889, col: 13, offset: 91489},
+											pos: position{line: 2890, col: 13, offset: 91514},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2889, col: 13, offset: 91489},
+													pos:        position{line: 2890, col: 13, offset: 91514},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2889, col: 20, offset: 91496},
+													pos:        position{line: 2890, col: 20, offset: 91521},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2889, col: 29, offset: 91505},
+													pos:        position{line: 2890, col: 29, offset: 91530},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -21747,10 +21747,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2819, col: 12, offset: 89625},
+										pos: position{line: 2820, col: 12, offset: 89650},
 										run: (*parser).callonFootnoteElement156,
 										expr: &charClassMatcher{
-											pos:        position{line: 2819, col: 12, offset: 89625},
+											pos:        position{line: 2820, col: 12, offset: 89650},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -21902,55 +21902,55 @@ var g = &grammar{
 									pos:   position{line: 1421, col: 5, offset: 45793},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2842, col: 23, offset: 90203},
+										pos: position{line: 2843, col: 23, offset: 90228},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2842, col: 23, offset: 90203},
+											pos: position{line: 2843, col: 23, offset: 90228},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2842, col: 23, offset: 90203},
+													pos: position{line: 2843, col: 23, offset: 90228},
 													expr: &litMatcher{
-														pos:        position{line: 2842, col: 24, offset: 90204},
+														pos:        position{line: 2843, col: 24, offset: 90229},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2842, col: 28, offset: 90208},
+													pos:   position{line: 2843, col: 28, offset: 90233},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2846, col: 11, offset: 90322},
+														pos: position{line: 2847, col: 11, offset: 90347},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2846, col: 12, offset: 90323},
+															pos: position{line: 2847, col: 12, offset: 90348},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2846, col: 12, offset: 90323},
+																	pos:        position{line: 2847, col: 12, offset: 90348},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2846, col: 24, offset: 90335},
+																	pos:        position{line: 2847, col: 24, offset: 90360},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2846, col: 37, offset: 90348},
+																	pos:        position{line: 2847, col: 37, offset: 90373},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2846, col: 48, offset: 90359},
+																	pos:        position{line: 2847, col: 48, offset: 90384},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2846, col: 59, offset: 90370},
+																	pos:        position{line: 2847, col: 59, offset: 90395},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -21960,38 +21960,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2842, col: 44, offset: 90224},
+													pos:   position{line: 2843, col: 44, offset: 90249},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2851, col: 5, offset: 90434},
+														pos: position{line: 2852, col: 5, offset: 90459},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2851, col: 5, offset: 90434},
+															pos:   position{line: 2852, col: 5, offset: 90459},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2851, col: 14, offset: 90443},
+																pos: position{line: 2852, col: 14, offset: 90468},
 																expr: &choiceExpr{
-																	pos: position{line: 2852, col: 9, offset: 90453},
+																	pos: position{line: 2853, col: 9, offset: 90478},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2852, col: 9, offset: 90453},
+																			pos: position{line: 2853, col: 9, offset: 90478},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2852, col: 9, offset: 90453},
+																				pos: position{line: 2853, col: 9, offset: 90478},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2852, col: 9, offset: 90453},
+																						pos: position{line: 2853, col: 9, offset: 90478},
 																						expr: &litMatcher{
-																							pos:        position{line: 2852, col: 10, offset: 90454},
+																							pos:        position{line: 2853, col: 10, offset: 90479},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2853, col: 9, offset: 90482},
+																						pos: position{line: 2854, col: 9, offset: 90507},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2853, col: 10, offset: 90483},
+																							pos:        position{line: 2854, col: 10, offset: 90508},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22002,27 +22002,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2856, col: 11, offset: 90695},
+																			pos: position{line: 2857, col: 11, offset: 90720},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2856, col: 11, offset: 90695},
+																					pos:        position{line: 2857, col: 11, offset: 90720},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2856, col: 19, offset: 90703},
+																					pos: position{line: 2857, col: 19, offset: 90728},
 																					expr: &seqExpr{
-																						pos: position{line: 2856, col: 21, offset: 90705},
+																						pos: position{line: 2857, col: 21, offset: 90730},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2856, col: 21, offset: 90705},
+																								pos: position{line: 2857, col: 21, offset: 90730},
 																								expr: &actionExpr{
-																									pos: position{line: 2880, col: 10, offset: 91317},
+																									pos: position{line: 2881, col: 10, offset: 91342},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2880, col: 10, offset: 91317},
+																										pos:        position{line: 2881, col: 10, offset: 91342},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22031,11 +22031,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2856, col: 28, offset: 90712},
+																								pos: position{line: 2857, col: 28, offset: 90737},
 																								expr: &notExpr{
-																									pos: position{line: 2899, col: 8, offset: 91665},
+																									pos: position{line: 2900, col: 8, offset: 91690},
 																									expr: &anyMatcher{
-																										line: 2899, col: 9, offset: 91666,
+																										line: 2900, col: 9, offset: 91691,
 																									},
 																								},
 																							},
@@ -22434,10 +22434,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2859, col: 11, offset: 90832},
+																			pos: position{line: 2860, col: 11, offset: 90857},
 																			run: (*parser).callonLink117,
 																			expr: &litMatcher{
-																				pos:        position{line: 2859, col: 11, offset: 90832},
+																				pos:        position{line: 2860, col: 11, offset: 90857},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22642,48 +22642,48 @@ var g = &grammar{
 									pos:   position{line: 1434, col: 17, offset: 46208},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2838, col: 13, offset: 90076},
+										pos: position{line: 2839, col: 13, offset: 90101},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2838, col: 13, offset: 90076},
+											pos: position{line: 2839, col: 13, offset: 90101},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2838, col: 13, offset: 90076},
+													pos:   position{line: 2839, col: 13, offset: 90101},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2838, col: 20, offset: 90083},
+														pos: position{line: 2839, col: 20, offset: 90108},
 														expr: &actionExpr{
-															pos: position{line: 2846, col: 11, offset: 90322},
+															pos: position{line: 2847, col: 11, offset: 90347},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2846, col: 12, offset: 90323},
+																pos: position{line: 2847, col: 12, offset: 90348},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2846, col: 12, offset: 90323},
+																		pos:        position{line: 2847, col: 12, offset: 90348},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2846, col: 24, offset: 90335},
+																		pos:        position{line: 2847, col: 24, offset: 90360},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2846, col: 37, offset: 90348},
+																		pos:        position{line: 2847, col: 37, offset: 90373},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2846, col: 48, offset: 90359},
+																		pos:        position{line: 2847, col: 48, offset: 90384},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2846, col: 59, offset: 90370},
+																		pos:        position{line: 2847, col: 59, offset: 90395},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22694,38 +22694,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2838, col: 30, offset: 90093},
+													pos:   position{line: 2839, col: 30, offset: 90118},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2851, col: 5, offset: 90434},
+														pos: position{line: 2852, col: 5, offset: 90459},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2851, col: 5, offset: 90434},
+															pos:   position{line: 2852, col: 5, offset: 90459},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2851, col: 14, offset: 90443},
+																pos: position{line: 2852, col: 14, offset: 90468},
 																expr: &choiceExpr{
-																	pos: position{line: 2852, col: 9, offset: 90453},
+																	pos: position{line: 2853, col: 9, offset: 90478},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2852, col: 9, offset: 90453},
+																			pos: position{line: 2853, col: 9, offset: 90478},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2852, col: 9, offset: 90453},
+																				pos: position{line: 2853, col: 9, offset: 90478},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2852, col: 9, offset: 90453},
+																						pos: position{line: 2853, col: 9, offset: 90478},
 																						expr: &litMatcher{
-																							pos:        position{line: 2852, col: 10, offset: 90454},
+																							pos:        position{line: 2853, col: 10, offset: 90479},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2853, col: 9, offset: 90482},
+																						pos: position{line: 2854, col: 9, offset: 90507},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2853, col: 10, offset: 90483},
+																							pos:        position{line: 2854, col: 10, offset: 90508},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22736,27 +22736,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2856, col: 11, offset: 90695},
+																			pos: position{line: 2857, col: 11, offset: 90720},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2856, col: 11, offset: 90695},
+																					pos:        position{line: 2857, col: 11, offset: 90720},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2856, col: 19, offset: 90703},
+																					pos: position{line: 2857, col: 19, offset: 90728},
 																					expr: &seqExpr{
-																						pos: position{line: 2856, col: 21, offset: 90705},
+																						pos: position{line: 2857, col: 21, offset: 90730},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2856, col: 21, offset: 90705},
+																								pos: position{line: 2857, col: 21, offset: 90730},
 																								expr: &actionExpr{
-																									pos: position{line: 2880, col: 10, offset: 91317},
+																									pos: position{line: 2881, col: 10, offset: 91342},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2880, col: 10, offset: 91317},
+																										pos:        position{line: 2881, col: 10, offset: 91342},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22765,11 +22765,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2856, col: 28, offset: 90712},
+																								pos: position{line: 2857, col: 28, offset: 90737},
 																								expr: &notExpr{
-																									pos: position{line: 2899, col: 8, offset: 91665},
+																									pos: position{line: 2900, col: 8, offset: 91690},
 																									expr: &anyMatcher{
-																										line: 2899, col: 9, offset: 91666,
+																										line: 2900, col: 9, offset: 91691,
 																									},
 																								},
 																							},
@@ -23168,10 +23168,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2859, col: 11, offset: 90832},
+																			pos: position{line: 2860, col: 11, offset: 90857},
 																			run: (*parser).callonRelativeLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2859, col: 11, offset: 90832},
+																				pos:        position{line: 2860, col: 11, offset: 90857},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23214,48 +23214,48 @@ var g = &grammar{
 									pos:   position{line: 1439, col: 13, offset: 46418},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2838, col: 13, offset: 90076},
+										pos: position{line: 2839, col: 13, offset: 90101},
 										run: (*parser).callonRelativeLink124,
 										expr: &seqExpr{
-											pos: position{line: 2838, col: 13, offset: 90076},
+											pos: position{line: 2839, col: 13, offset: 90101},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2838, col: 13, offset: 90076},
+													pos:   position{line: 2839, col: 13, offset: 90101},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2838, col: 20, offset: 90083},
+														pos: position{line: 2839, col: 20, offset: 90108},
 														expr: &actionExpr{
-															pos: position{line: 2846, col: 11, offset: 90322},
+															pos: position{line: 2847, col: 11, offset: 90347},
 															run: (*parser).callonRelativeLink128,
 															expr: &choiceExpr{
-																pos: position{line: 2846, col: 12, offset: 90323},
+																pos: position{line: 2847, col: 12, offset: 90348},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2846, col: 12, offset: 90323},
+																		pos:        position{line: 2847, col: 12, offset: 90348},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2846, col: 24, offset: 90335},
+																		pos:        position{line: 2847, col: 24, offset: 90360},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2846, col: 37, offset: 90348},
+																		pos:        position{line: 2847, col: 37, offset: 90373},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2846, col: 48, offset: 90359},
+																		pos:        position{line: 2847, col: 48, offset: 90384},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2846, col: 59, offset: 90370},
+																		pos:        position{line: 2847, col: 59, offset: 90395},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23266,38 +23266,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2838, col: 30, offset: 90093},
+													pos:   position{line: 2839, col: 30, offset: 90118},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2851, col: 5, offset: 90434},
+														pos: position{line: 2852, col: 5, offset: 90459},
 														run: (*parser).callonRelativeLink136,
 														expr: &labeledExpr{
-															pos:   position{line: 2851, col: 5, offset: 90434},
+															pos:   position{line: 2852, col: 5, offset: 90459},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2851, col: 14, offset: 90443},
+																pos: position{line: 2852, col: 14, offset: 90468},
 																expr: &choiceExpr{
-																	pos: position{line: 2852, col: 9, offset: 90453},
+																	pos: position{line: 2853, col: 9, offset: 90478},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2852, col: 9, offset: 90453},
+																			pos: position{line: 2853, col: 9, offset: 90478},
 																			run: (*parser).callonRelativeLink140,
 																			expr: &seqExpr{
-																				pos: position{line: 2852, col: 9, offset: 90453},
+																				pos: position{line: 2853, col: 9, offset: 90478},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2852, col: 9, offset: 90453},
+																						pos: position{line: 2853, col: 9, offset: 90478},
 																						expr: &litMatcher{
-																							pos:        position{line: 2852, col: 10, offset: 90454},
+																							pos:        position{line: 2853, col: 10, offset: 90479},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2853, col: 9, offset: 90482},
+																						pos: position{line: 2854, col: 9, offset: 90507},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2853, col: 10, offset: 90483},
+																							pos:        position{line: 2854, col: 10, offset: 90508},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23308,27 +23308,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2856, col: 11, offset: 90695},
+																			pos: position{line: 2857, col: 11, offset: 90720},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2856, col: 11, offset: 90695},
+																					pos:        position{line: 2857, col: 11, offset: 90720},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2856, col: 19, offset: 90703},
+																					pos: position{line: 2857, col: 19, offset: 90728},
 																					expr: &seqExpr{
-																						pos: position{line: 2856, col: 21, offset: 90705},
+																						pos: position{line: 2857, col: 21, offset: 90730},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2856, col: 21, offset: 90705},
+																								pos: position{line: 2857, col: 21, offset: 90730},
 																								expr: &actionExpr{
-																									pos: position{line: 2880, col: 10, offset: 91317},
+																									pos: position{line: 2881, col: 10, offset: 91342},
 																									run: (*parser).callonRelativeLink151,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2880, col: 10, offset: 91317},
+																										pos:        position{line: 2881, col: 10, offset: 91342},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23337,11 +23337,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2856, col: 28, offset: 90712},
+																								pos: position{line: 2857, col: 28, offset: 90737},
 																								expr: &notExpr{
-																									pos: position{line: 2899, col: 8, offset: 91665},
+																									pos: position{line: 2900, col: 8, offset: 91690},
 																									expr: &anyMatcher{
-																										line: 2899, col: 9, offset: 91666,
+																										line: 2900, col: 9, offset: 91691,
 																									},
 																								},
 																							},
@@ -23740,10 +23740,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2859, col: 11, offset: 90832},
+																			pos: position{line: 2860, col: 11, offset: 90857},
 																			run: (*parser).callonRelativeLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2859, col: 11, offset: 90832},
+																				pos:        position{line: 2860, col: 11, offset: 90857},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23795,55 +23795,55 @@ var g = &grammar{
 									pos:   position{line: 1446, col: 9, offset: 46727},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2842, col: 23, offset: 90203},
+										pos: position{line: 2843, col: 23, offset: 90228},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2842, col: 23, offset: 90203},
+											pos: position{line: 2843, col: 23, offset: 90228},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2842, col: 23, offset: 90203},
+													pos: position{line: 2843, col: 23, offset: 90228},
 													expr: &litMatcher{
-														pos:        position{line: 2842, col: 24, offset: 90204},
+														pos:        position{line: 2843, col: 24, offset: 90229},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2842, col: 28, offset: 90208},
+													pos:   position{line: 2843, col: 28, offset: 90233},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2846, col: 11, offset: 90322},
+														pos: position{line: 2847, col: 11, offset: 90347},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2846, col: 12, offset: 90323},
+															pos: position{line: 2847, col: 12, offset: 90348},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2846, col: 12, offset: 90323},
+																	pos:        position{line: 2847, col: 12, offset: 90348},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2846, col: 24, offset: 90335},
+																	pos:        position{line: 2847, col: 24, offset: 90360},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2846, col: 37, offset: 90348},
+																	pos:        position{line: 2847, col: 37, offset: 90373},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2846, col: 48, offset: 90359},
+																	pos:        position{line: 2847, col: 48, offset: 90384},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2846, col: 59, offset: 90370},
+																	pos:        position{line: 2847, col: 59, offset: 90395},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23853,38 +23853,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2842, col: 44, offset: 90224},
+													pos:   position{line: 2843, col: 44, offset: 90249},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2851, col: 5, offset: 90434},
+														pos: position{line: 2852, col: 5, offset: 90459},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2851, col: 5, offset: 90434},
+															pos:   position{line: 2852, col: 5, offset: 90459},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2851, col: 14, offset: 90443},
+																pos: position{line: 2852, col: 14, offset: 90468},
 																expr: &choiceExpr{
-																	pos: position{line: 2852, col: 9, offset: 90453},
+																	pos: position{line: 2853, col: 9, offset: 90478},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2852, col: 9, offset: 90453},
+																			pos: position{line: 2853, col: 9, offset: 90478},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2852, col: 9, offset: 90453},
+																				pos: position{line: 2853, col: 9, offset: 90478},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2852, col: 9, offset: 90453},
+																						pos: position{line: 2853, col: 9, offset: 90478},
 																						expr: &litMatcher{
-																							pos:        position{line: 2852, col: 10, offset: 90454},
+																							pos:        position{line: 2853, col: 10, offset: 90479},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2853, col: 9, offset: 90482},
+																						pos: position{line: 2854, col: 9, offset: 90507},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2853, col: 10, offset: 90483},
+																							pos:        position{line: 2854, col: 10, offset: 90508},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23895,27 +23895,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2856, col: 11, offset: 90695},
+																			pos: position{line: 2857, col: 11, offset: 90720},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2856, col: 11, offset: 90695},
+																					pos:        position{line: 2857, col: 11, offset: 90720},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2856, col: 19, offset: 90703},
+																					pos: position{line: 2857, col: 19, offset: 90728},
 																					expr: &seqExpr{
-																						pos: position{line: 2856, col: 21, offset: 90705},
+																						pos: position{line: 2857, col: 21, offset: 90730},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2856, col: 21, offset: 90705},
+																								pos: position{line: 2857, col: 21, offset: 90730},
 																								expr: &actionExpr{
-																									pos: position{line: 2880, col: 10, offset: 91317},
+																									pos: position{line: 2881, col: 10, offset: 91342},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2880, col: 10, offset: 91317},
+																										pos:        position{line: 2881, col: 10, offset: 91342},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23924,11 +23924,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2856, col: 28, offset: 90712},
+																								pos: position{line: 2857, col: 28, offset: 90737},
 																								expr: &notExpr{
-																									pos: position{line: 2899, col: 8, offset: 91665},
+																									pos: position{line: 2900, col: 8, offset: 91690},
 																									expr: &anyMatcher{
-																										line: 2899, col: 9, offset: 91666,
+																										line: 2900, col: 9, offset: 91691,
 																									},
 																								},
 																							},
@@ -24327,10 +24327,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2859, col: 11, offset: 90832},
+																			pos: position{line: 2860, col: 11, offset: 90857},
 																			run: (*parser).callonExternalLink117,
 																			expr: &litMatcher{
-																				pos:        position{line: 2859, col: 11, offset: 90832},
+																				pos:        position{line: 2860, col: 11, offset: 90857},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24370,55 +24370,55 @@ var g = &grammar{
 									pos:   position{line: 1451, col: 5, offset: 46940},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2842, col: 23, offset: 90203},
+										pos: position{line: 2843, col: 23, offset: 90228},
 										run: (*parser).callonExternalLink125,
 										expr: &seqExpr{
-											pos: position{line: 2842, col: 23, offset: 90203},
+											pos: position{line: 2843, col: 23, offset: 90228},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2842, col: 23, offset: 90203},
+													pos: position{line: 2843, col: 23, offset: 90228},
 													expr: &litMatcher{
-														pos:        position{line: 2842, col: 24, offset: 90204},
+														pos:        position{line: 2843, col: 24, offset: 90229},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2842, col: 28, offset: 90208},
+													pos:   position{line: 2843, col: 28, offset: 90233},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2846, col: 11, offset: 90322},
+														pos: position{line: 2847, col: 11, offset: 90347},
 														run: (*parser).callonExternalLink130,
 														expr: &choiceExpr{
-															pos: position{line: 2846, col: 12, offset: 90323},
+															pos: position{line: 2847, col: 12, offset: 90348},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2846, col: 12, offset: 90323},
+																	pos:        position{line: 2847, col: 12, offset: 90348},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2846, col: 24, offset: 90335},
+																	pos:        position{line: 2847, col: 24, offset: 90360},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2846, col: 37, offset: 90348},
+																	pos:        position{line: 2847, col: 37, offset: 90373},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2846, col: 48, offset: 90359},
+																	pos:        position{line: 2847, col: 48, offset: 90384},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2846, col: 59, offset: 90370},
+																	pos:        position{line: 2847, col: 59, offset: 90395},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24428,38 +24428,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2842, col: 44, offset: 90224},
+													pos:   position{line: 2843, col: 44, offset: 90249},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2851, col: 5, offset: 90434},
+														pos: position{line: 2852, col: 5, offset: 90459},
 														run: (*parser).callonExternalLink138,
 														expr: &labeledExpr{
-															pos:   position{line: 2851, col: 5, offset: 90434},
+															pos:   position{line: 2852, col: 5, offset: 90459},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2851, col: 14, offset: 90443},
+																pos: position{line: 2852, col: 14, offset: 90468},
 																expr: &choiceExpr{
-																	pos: position{line: 2852, col: 9, offset: 90453},
+																	pos: position{line: 2853, col: 9, offset: 90478},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2852, col: 9, offset: 90453},
+																			pos: position{line: 2853, col: 9, offset: 90478},
 																			run: (*parser).callonExternalLink142,
 																			expr: &seqExpr{
-																				pos: position{line: 2852, col: 9, offset: 90453},
+																				pos: position{line: 2853, col: 9, offset: 90478},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2852, col: 9, offset: 90453},
+																						pos: position{line: 2853, col: 9, offset: 90478},
 																						expr: &litMatcher{
-																							pos:        position{line: 2852, col: 10, offset: 90454},
+																							pos:        position{line: 2853, col: 10, offset: 90479},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2853, col: 9, offset: 90482},
+																						pos: position{line: 2854, col: 9, offset: 90507},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2853, col: 10, offset: 90483},
+																							pos:        position{line: 2854, col: 10, offset: 90508},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24470,27 +24470,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2856, col: 11, offset: 90695},
+																			pos: position{line: 2857, col: 11, offset: 90720},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2856, col: 11, offset: 90695},
+																					pos:        position{line: 2857, col: 11, offset: 90720},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2856, col: 19, offset: 90703},
+																					pos: position{line: 2857, col: 19, offset: 90728},
 																					expr: &seqExpr{
-																						pos: position{line: 2856, col: 21, offset: 90705},
+																						pos: position{line: 2857, col: 21, offset: 90730},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2856, col: 21, offset: 90705},
+																								pos: position{line: 2857, col: 21, offset: 90730},
 																								expr: &actionExpr{
-																									pos: position{line: 2880, col: 10, offset: 91317},
+																									pos: position{line: 2881, col: 10, offset: 91342},
 																									run: (*parser).callonExternalLink153,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2880, col: 10, offset: 91317},
+																										pos:        position{line: 2881, col: 10, offset: 91342},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24499,11 +24499,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2856, col: 28, offset: 90712},
+																								pos: position{line: 2857, col: 28, offset: 90737},
 																								expr: &notExpr{
-																									pos: position{line: 2899, col: 8, offset: 91665},
+																									pos: position{line: 2900, col: 8, offset: 91690},
 																									expr: &anyMatcher{
-																										line: 2899, col: 9, offset: 91666,
+																										line: 2900, col: 9, offset: 91691,
 																									},
 																								},
 																							},
@@ -24902,10 +24902,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2859, col: 11, offset: 90832},
+																			pos: position{line: 2860, col: 11, offset: 90857},
 																			run: (*parser).callonExternalLink236,
 																			expr: &litMatcher{
-																				pos:        position{line: 2859, col: 11, offset: 90832},
+																				pos:        position{line: 2860, col: 11, offset: 90857},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24954,27 +24954,27 @@ var g = &grammar{
 								pos: position{line: 1489, col: 5, offset: 48330},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1582, col: 5, offset: 51264},
+										pos: position{line: 1583, col: 5, offset: 51289},
 										run: (*parser).callonListElements5,
 										expr: &seqExpr{
-											pos: position{line: 1582, col: 5, offset: 51264},
+											pos: position{line: 1583, col: 5, offset: 51289},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1582, col: 5, offset: 51264},
+													pos:   position{line: 1583, col: 5, offset: 51289},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1589, col: 5, offset: 51472},
+														pos: position{line: 1590, col: 5, offset: 51497},
 														run: (*parser).callonListElements8,
 														expr: &seqExpr{
-															pos: position{line: 1589, col: 5, offset: 51472},
+															pos: position{line: 1590, col: 5, offset: 51497},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1589, col: 5, offset: 51472},
+																	pos: position{line: 1590, col: 5, offset: 51497},
 																	expr: &actionExpr{
-																		pos: position{line: 2880, col: 10, offset: 91317},
+																		pos: position{line: 2881, col: 10, offset: 91342},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 10, offset: 91317},
+																			pos:        position{line: 2881, col: 10, offset: 91342},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24983,27 +24983,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1589, col: 12, offset: 51479},
+																	pos:   position{line: 1590, col: 12, offset: 51504},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1591, col: 9, offset: 51542},
+																		pos: position{line: 1592, col: 9, offset: 51567},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1591, col: 9, offset: 51542},
+																				pos: position{line: 1592, col: 9, offset: 51567},
 																				run: (*parser).callonListElements15,
 																				expr: &seqExpr{
-																					pos: position{line: 1591, col: 9, offset: 51542},
+																					pos: position{line: 1592, col: 9, offset: 51567},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1591, col: 9, offset: 51542},
+																							pos:   position{line: 1592, col: 9, offset: 51567},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1591, col: 16, offset: 51549},
+																								pos: position{line: 1592, col: 16, offset: 51574},
 																								run: (*parser).callonListElements18,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1591, col: 16, offset: 51549},
+																									pos: position{line: 1592, col: 16, offset: 51574},
 																									expr: &litMatcher{
-																										pos:        position{line: 1591, col: 17, offset: 51550},
+																										pos:        position{line: 1592, col: 17, offset: 51575},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -25012,22 +25012,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1595, col: 9, offset: 51650},
+																							pos: position{line: 1596, col: 9, offset: 51675},
 																							run: (*parser).callonListElements21,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1614, col: 11, offset: 52367},
+																				pos: position{line: 1615, col: 11, offset: 52392},
 																				run: (*parser).callonListElements22,
 																				expr: &seqExpr{
-																					pos: position{line: 1614, col: 11, offset: 52367},
+																					pos: position{line: 1615, col: 11, offset: 52392},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1614, col: 11, offset: 52367},
+																							pos: position{line: 1615, col: 11, offset: 52392},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1614, col: 12, offset: 52368},
+																								pos:        position{line: 1615, col: 12, offset: 52393},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -25035,7 +25035,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1614, col: 20, offset: 52376},
+																							pos:        position{line: 1615, col: 20, offset: 52401},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -25044,20 +25044,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1616, col: 13, offset: 52493},
+																				pos: position{line: 1617, col: 13, offset: 52518},
 																				run: (*parser).callonListElements27,
 																				expr: &seqExpr{
-																					pos: position{line: 1616, col: 13, offset: 52493},
+																					pos: position{line: 1617, col: 13, offset: 52518},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1616, col: 14, offset: 52494},
+																							pos:        position{line: 1617, col: 14, offset: 52519},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1616, col: 21, offset: 52501},
+																							pos:        position{line: 1617, col: 21, offset: 52526},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -25066,20 +25066,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1618, col: 13, offset: 52621},
+																				pos: position{line: 1619, col: 13, offset: 52646},
 																				run: (*parser).callonListElements31,
 																				expr: &seqExpr{
-																					pos: position{line: 1618, col: 13, offset: 52621},
+																					pos: position{line: 1619, col: 13, offset: 52646},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1618, col: 14, offset: 52622},
+																							pos:        position{line: 1619, col: 14, offset: 52647},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1618, col: 21, offset: 52629},
+																							pos:        position{line: 1619, col: 21, offset: 52654},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -25088,15 +25088,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1620, col: 13, offset: 52749},
+																				pos: position{line: 1621, col: 13, offset: 52774},
 																				run: (*parser).callonListElements35,
 																				expr: &seqExpr{
-																					pos: position{line: 1620, col: 13, offset: 52749},
+																					pos: position{line: 1621, col: 13, offset: 52774},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1620, col: 13, offset: 52749},
+																							pos: position{line: 1621, col: 13, offset: 52774},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1620, col: 14, offset: 52750},
+																								pos:        position{line: 1621, col: 14, offset: 52775},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -25104,7 +25104,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1620, col: 26, offset: 52762},
+																							pos:        position{line: 1621, col: 26, offset: 52787},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -25113,15 +25113,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1622, col: 13, offset: 52882},
+																				pos: position{line: 1623, col: 13, offset: 52907},
 																				run: (*parser).callonListElements40,
 																				expr: &seqExpr{
-																					pos: position{line: 1622, col: 13, offset: 52882},
+																					pos: position{line: 1623, col: 13, offset: 52907},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1622, col: 13, offset: 52882},
+																							pos: position{line: 1623, col: 13, offset: 52907},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1622, col: 14, offset: 52883},
+																								pos:        position{line: 1623, col: 14, offset: 52908},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -25129,7 +25129,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1622, col: 26, offset: 52895},
+																							pos:        position{line: 1623, col: 26, offset: 52920},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -25141,12 +25141,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2884, col: 11, offset: 91378},
+																	pos: position{line: 2885, col: 11, offset: 91403},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2884, col: 11, offset: 91378},
+																		pos: position{line: 2885, col: 11, offset: 91403},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2884, col: 11, offset: 91378},
+																			pos:        position{line: 2885, col: 11, offset: 91403},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25159,7 +25159,7 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1583, col: 5, offset: 51303},
+													pos:   position{line: 1584, col: 5, offset: 51328},
 													label: "content",
 													expr: &actionExpr{
 														pos: position{line: 1530, col: 5, offset: 49770},
@@ -25189,28 +25189,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2902, col: 8, offset: 91715},
+																	pos: position{line: 2903, col: 8, offset: 91740},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2889, col: 12, offset: 91488},
+																			pos: position{line: 2890, col: 12, offset: 91513},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2889, col: 13, offset: 91489},
+																				pos: position{line: 2890, col: 13, offset: 91514},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 13, offset: 91489},
+																						pos:        position{line: 2890, col: 13, offset: 91514},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 20, offset: 91496},
+																						pos:        position{line: 2890, col: 20, offset: 91521},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 29, offset: 91505},
+																						pos:        position{line: 2890, col: 29, offset: 91530},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25219,9 +25219,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2899, col: 8, offset: 91665},
+																			pos: position{line: 2900, col: 8, offset: 91690},
 																			expr: &anyMatcher{
-																				line: 2899, col: 9, offset: 91666,
+																				line: 2900, col: 9, offset: 91691,
 																			},
 																		},
 																	},
@@ -25234,27 +25234,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1632, col: 5, offset: 53161},
+										pos: position{line: 1633, col: 5, offset: 53186},
 										run: (*parser).callonListElements64,
 										expr: &seqExpr{
-											pos: position{line: 1632, col: 5, offset: 53161},
+											pos: position{line: 1633, col: 5, offset: 53186},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1632, col: 5, offset: 53161},
+													pos:   position{line: 1633, col: 5, offset: 53186},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1639, col: 5, offset: 53434},
+														pos: position{line: 1640, col: 5, offset: 53459},
 														run: (*parser).callonListElements67,
 														expr: &seqExpr{
-															pos: position{line: 1639, col: 5, offset: 53434},
+															pos: position{line: 1640, col: 5, offset: 53459},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1639, col: 5, offset: 53434},
+																	pos: position{line: 1640, col: 5, offset: 53459},
 																	expr: &actionExpr{
-																		pos: position{line: 2880, col: 10, offset: 91317},
+																		pos: position{line: 2881, col: 10, offset: 91342},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 10, offset: 91317},
+																			pos:        position{line: 2881, col: 10, offset: 91342},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25263,24 +25263,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1640, col: 5, offset: 53446},
+																	pos:   position{line: 1641, col: 5, offset: 53471},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1641, col: 9, offset: 53462},
+																		pos: position{line: 1642, col: 9, offset: 53487},
 																		run: (*parser).callonListElements73,
 																		expr: &choiceExpr{
-																			pos: position{line: 1641, col: 10, offset: 53463},
+																			pos: position{line: 1642, col: 10, offset: 53488},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1641, col: 11, offset: 53464},
+																					pos:        position{line: 1642, col: 11, offset: 53489},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1641, col: 18, offset: 53471},
+																					pos: position{line: 1642, col: 18, offset: 53496},
 																					expr: &litMatcher{
-																						pos:        position{line: 1641, col: 19, offset: 53472},
+																						pos:        position{line: 1642, col: 19, offset: 53497},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -25291,16 +25291,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1644, col: 7, offset: 53562},
+																	pos: position{line: 1645, col: 7, offset: 53587},
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2884, col: 11, offset: 91378},
+																	pos: position{line: 2885, col: 11, offset: 91403},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2884, col: 11, offset: 91378},
+																		pos: position{line: 2885, col: 11, offset: 91403},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2884, col: 11, offset: 91378},
+																			pos:        position{line: 2885, col: 11, offset: 91403},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25313,56 +25313,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1633, col: 5, offset: 53202},
+													pos:   position{line: 1634, col: 5, offset: 53227},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1633, col: 16, offset: 53213},
+														pos: position{line: 1634, col: 16, offset: 53238},
 														expr: &actionExpr{
-															pos: position{line: 1654, col: 5, offset: 53827},
+															pos: position{line: 1655, col: 5, offset: 53852},
 															run: (*parser).callonListElements84,
 															expr: &seqExpr{
-																pos: position{line: 1654, col: 5, offset: 53827},
+																pos: position{line: 1655, col: 5, offset: 53852},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1654, col: 5, offset: 53827},
+																		pos: position{line: 1655, col: 5, offset: 53852},
 																		expr: &litMatcher{
-																			pos:        position{line: 1654, col: 6, offset: 53828},
+																			pos:        position{line: 1655, col: 6, offset: 53853},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1654, col: 10, offset: 53832},
+																		pos:   position{line: 1655, col: 10, offset: 53857},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1655, col: 7, offset: 53846},
+																			pos: position{line: 1656, col: 7, offset: 53871},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1655, col: 7, offset: 53846},
+																					pos: position{line: 1656, col: 7, offset: 53871},
 																					run: (*parser).callonListElements90,
 																					expr: &litMatcher{
-																						pos:        position{line: 1655, col: 7, offset: 53846},
+																						pos:        position{line: 1656, col: 7, offset: 53871},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1656, col: 7, offset: 53891},
+																					pos: position{line: 1657, col: 7, offset: 53916},
 																					run: (*parser).callonListElements92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1656, col: 7, offset: 53891},
+																						pos:        position{line: 1657, col: 7, offset: 53916},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1657, col: 7, offset: 53934},
+																					pos: position{line: 1658, col: 7, offset: 53959},
 																					run: (*parser).callonListElements94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1657, col: 7, offset: 53934},
+																						pos:        position{line: 1658, col: 7, offset: 53959},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -25372,12 +25372,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2884, col: 11, offset: 91378},
+																		pos: position{line: 2885, col: 11, offset: 91403},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2884, col: 11, offset: 91378},
+																			pos: position{line: 2885, col: 11, offset: 91403},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2884, col: 11, offset: 91378},
+																				pos:        position{line: 2885, col: 11, offset: 91403},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -25391,7 +25391,7 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1634, col: 5, offset: 53252},
+													pos:   position{line: 1635, col: 5, offset: 53277},
 													label: "content",
 													expr: &actionExpr{
 														pos: position{line: 1530, col: 5, offset: 49770},
@@ -25421,28 +25421,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2902, col: 8, offset: 91715},
+																	pos: position{line: 2903, col: 8, offset: 91740},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2889, col: 12, offset: 91488},
+																			pos: position{line: 2890, col: 12, offset: 91513},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2889, col: 13, offset: 91489},
+																				pos: position{line: 2890, col: 13, offset: 91514},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 13, offset: 91489},
+																						pos:        position{line: 2890, col: 13, offset: 91514},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 20, offset: 91496},
+																						pos:        position{line: 2890, col: 20, offset: 91521},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 29, offset: 91505},
+																						pos:        position{line: 2890, col: 29, offset: 91530},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25451,9 +25451,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2899, col: 8, offset: 91665},
+																			pos: position{line: 2900, col: 8, offset: 91690},
 																			expr: &anyMatcher{
-																				line: 2899, col: 9, offset: 91666,
+																				line: 2900, col: 9, offset: 91691,
 																			},
 																		},
 																	},
@@ -25466,36 +25466,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1723, col: 5, offset: 55806},
+										pos: position{line: 1724, col: 5, offset: 55831},
 										run: (*parser).callonListElements115,
 										expr: &seqExpr{
-											pos: position{line: 1723, col: 5, offset: 55806},
+											pos: position{line: 1724, col: 5, offset: 55831},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1723, col: 5, offset: 55806},
+													pos:   position{line: 1724, col: 5, offset: 55831},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1729, col: 5, offset: 56003},
+														pos: position{line: 1730, col: 5, offset: 56028},
 														run: (*parser).callonListElements118,
 														expr: &seqExpr{
-															pos: position{line: 1729, col: 5, offset: 56003},
+															pos: position{line: 1730, col: 5, offset: 56028},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1729, col: 5, offset: 56003},
+																	pos:        position{line: 1730, col: 5, offset: 56028},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1729, col: 9, offset: 56007},
+																	pos:   position{line: 1730, col: 9, offset: 56032},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1729, col: 14, offset: 56012},
+																		pos: position{line: 1730, col: 14, offset: 56037},
 																		run: (*parser).callonListElements122,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1729, col: 14, offset: 56012},
+																			pos: position{line: 1730, col: 14, offset: 56037},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1729, col: 14, offset: 56012},
+																				pos:        position{line: 1730, col: 14, offset: 56037},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -25505,18 +25505,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1729, col: 62, offset: 56060},
+																	pos:        position{line: 1730, col: 62, offset: 56085},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2884, col: 11, offset: 91378},
+																	pos: position{line: 2885, col: 11, offset: 91403},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2884, col: 11, offset: 91378},
+																		pos: position{line: 2885, col: 11, offset: 91403},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2884, col: 11, offset: 91378},
+																			pos:        position{line: 2885, col: 11, offset: 91403},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25529,7 +25529,7 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1724, col: 5, offset: 55842},
+													pos:   position{line: 1725, col: 5, offset: 55867},
 													label: "description",
 													expr: &actionExpr{
 														pos: position{line: 1530, col: 5, offset: 49770},
@@ -25559,28 +25559,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2902, col: 8, offset: 91715},
+																	pos: position{line: 2903, col: 8, offset: 91740},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2889, col: 12, offset: 91488},
+																			pos: position{line: 2890, col: 12, offset: 91513},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2889, col: 13, offset: 91489},
+																				pos: position{line: 2890, col: 13, offset: 91514},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 13, offset: 91489},
+																						pos:        position{line: 2890, col: 13, offset: 91514},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 20, offset: 91496},
+																						pos:        position{line: 2890, col: 20, offset: 91521},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 29, offset: 91505},
+																						pos:        position{line: 2890, col: 29, offset: 91530},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25589,9 +25589,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2899, col: 8, offset: 91665},
+																			pos: position{line: 2900, col: 8, offset: 91690},
 																			expr: &anyMatcher{
-																				line: 2899, col: 9, offset: 91666,
+																				line: 2900, col: 9, offset: 91691,
 																			},
 																		},
 																	},
@@ -25604,35 +25604,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1666, col: 5, offset: 54127},
+										pos: position{line: 1667, col: 5, offset: 54152},
 										run: (*parser).callonListElements145,
 										expr: &seqExpr{
-											pos: position{line: 1666, col: 5, offset: 54127},
+											pos: position{line: 1667, col: 5, offset: 54152},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1666, col: 5, offset: 54127},
+													pos:   position{line: 1667, col: 5, offset: 54152},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1674, col: 5, offset: 54453},
+														pos: position{line: 1675, col: 5, offset: 54478},
 														run: (*parser).callonListElements148,
 														expr: &seqExpr{
-															pos: position{line: 1674, col: 5, offset: 54453},
+															pos: position{line: 1675, col: 5, offset: 54478},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1674, col: 5, offset: 54453},
+																	pos: position{line: 1675, col: 5, offset: 54478},
 																	expr: &seqExpr{
-																		pos: position{line: 2492, col: 31, offset: 80424},
+																		pos: position{line: 2493, col: 31, offset: 80449},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2492, col: 31, offset: 80424},
+																				pos:        position{line: 2493, col: 31, offset: 80449},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2492, col: 36, offset: 80429},
+																				pos: position{line: 2493, col: 36, offset: 80454},
 																				expr: &litMatcher{
-																					pos:        position{line: 2492, col: 37, offset: 80430},
+																					pos:        position{line: 2493, col: 37, offset: 80455},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
@@ -25642,28 +25642,28 @@ var g = &grammar{
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 1675, col: 5, offset: 54485},
+																	pos: position{line: 1676, col: 5, offset: 54510},
 																	expr: &seqExpr{
-																		pos: position{line: 1675, col: 6, offset: 54486},
+																		pos: position{line: 1676, col: 6, offset: 54511},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1675, col: 6, offset: 54486},
+																				pos: position{line: 1676, col: 6, offset: 54511},
 																				expr: &actionExpr{
-																					pos: position{line: 1680, col: 5, offset: 54636},
+																					pos: position{line: 1681, col: 5, offset: 54661},
 																					run: (*parser).callonListElements158,
 																					expr: &seqExpr{
-																						pos: position{line: 1680, col: 5, offset: 54636},
+																						pos: position{line: 1681, col: 5, offset: 54661},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1680, col: 5, offset: 54636},
+																								pos:   position{line: 1681, col: 5, offset: 54661},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1680, col: 16, offset: 54647},
+																									pos: position{line: 1681, col: 16, offset: 54672},
 																									run: (*parser).callonListElements161,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1680, col: 16, offset: 54647},
+																										pos: position{line: 1681, col: 16, offset: 54672},
 																										expr: &litMatcher{
-																											pos:        position{line: 1680, col: 17, offset: 54648},
+																											pos:        position{line: 1681, col: 17, offset: 54673},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -25672,7 +25672,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1683, col: 5, offset: 54705},
+																								pos: position{line: 1684, col: 5, offset: 54730},
 																								run: (*parser).callonListElements164,
 																							},
 																						},
@@ -25680,30 +25680,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1675, col: 35, offset: 54515},
+																				pos: position{line: 1676, col: 35, offset: 54540},
 																				expr: &choiceExpr{
-																					pos: position{line: 2902, col: 8, offset: 91715},
+																					pos: position{line: 2903, col: 8, offset: 91740},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2889, col: 12, offset: 91488},
+																							pos: position{line: 2890, col: 12, offset: 91513},
 																							run: (*parser).callonListElements167,
 																							expr: &choiceExpr{
-																								pos: position{line: 2889, col: 13, offset: 91489},
+																								pos: position{line: 2890, col: 13, offset: 91514},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2889, col: 13, offset: 91489},
+																										pos:        position{line: 2890, col: 13, offset: 91514},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2889, col: 20, offset: 91496},
+																										pos:        position{line: 2890, col: 20, offset: 91521},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2889, col: 29, offset: 91505},
+																										pos:        position{line: 2890, col: 29, offset: 91530},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -25712,16 +25712,16 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2899, col: 8, offset: 91665},
+																							pos: position{line: 2900, col: 8, offset: 91690},
 																							expr: &anyMatcher{
-																								line: 2899, col: 9, offset: 91666,
+																								line: 2900, col: 9, offset: 91691,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1675, col: 40, offset: 54520,
+																				line: 1676, col: 40, offset: 54545,
 																			},
 																		},
 																	},
@@ -25731,24 +25731,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1667, col: 5, offset: 54162},
+													pos:   position{line: 1668, col: 5, offset: 54187},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1680, col: 5, offset: 54636},
+														pos: position{line: 1681, col: 5, offset: 54661},
 														run: (*parser).callonListElements176,
 														expr: &seqExpr{
-															pos: position{line: 1680, col: 5, offset: 54636},
+															pos: position{line: 1681, col: 5, offset: 54661},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1680, col: 5, offset: 54636},
+																	pos:   position{line: 1681, col: 5, offset: 54661},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1680, col: 16, offset: 54647},
+																		pos: position{line: 1681, col: 16, offset: 54672},
 																		run: (*parser).callonListElements179,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1680, col: 16, offset: 54647},
+																			pos: position{line: 1681, col: 16, offset: 54672},
 																			expr: &litMatcher{
-																				pos:        position{line: 1680, col: 17, offset: 54648},
+																				pos:        position{line: 1681, col: 17, offset: 54673},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -25757,7 +25757,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1683, col: 5, offset: 54705},
+																	pos: position{line: 1684, col: 5, offset: 54730},
 																	run: (*parser).callonListElements182,
 																},
 															},
@@ -25765,24 +25765,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1668, col: 5, offset: 54207},
+													pos:   position{line: 1669, col: 5, offset: 54232},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1691, col: 5, offset: 54954},
+														pos: position{line: 1692, col: 5, offset: 54979},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1693, col: 9, offset: 55020},
+																pos: position{line: 1694, col: 9, offset: 55045},
 																run: (*parser).callonListElements185,
 																expr: &seqExpr{
-																	pos: position{line: 1693, col: 9, offset: 55020},
+																	pos: position{line: 1694, col: 9, offset: 55045},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1693, col: 9, offset: 55020},
+																			pos: position{line: 1694, col: 9, offset: 55045},
 																			expr: &actionExpr{
-																				pos: position{line: 2880, col: 10, offset: 91317},
+																				pos: position{line: 2881, col: 10, offset: 91342},
 																				run: (*parser).callonListElements188,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2880, col: 10, offset: 91317},
+																					pos:        position{line: 2881, col: 10, offset: 91342},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25791,28 +25791,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2902, col: 8, offset: 91715},
+																			pos: position{line: 2903, col: 8, offset: 91740},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2889, col: 12, offset: 91488},
+																					pos: position{line: 2890, col: 12, offset: 91513},
 																					run: (*parser).callonListElements191,
 																					expr: &choiceExpr{
-																						pos: position{line: 2889, col: 13, offset: 91489},
+																						pos: position{line: 2890, col: 13, offset: 91514},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2889, col: 13, offset: 91489},
+																								pos:        position{line: 2890, col: 13, offset: 91514},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2889, col: 20, offset: 91496},
+																								pos:        position{line: 2890, col: 20, offset: 91521},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2889, col: 29, offset: 91505},
+																								pos:        position{line: 2890, col: 29, offset: 91530},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25821,15 +25821,15 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2899, col: 8, offset: 91665},
+																					pos: position{line: 2900, col: 8, offset: 91690},
 																					expr: &anyMatcher{
-																						line: 2899, col: 9, offset: 91666,
+																						line: 2900, col: 9, offset: 91691,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1694, col: 9, offset: 55039},
+																			pos: position{line: 1695, col: 9, offset: 55064},
 																			expr: &actionExpr{
 																				pos: position{line: 677, col: 14, offset: 21525},
 																				run: (*parser).callonListElements199,
@@ -25837,18 +25837,18 @@ var g = &grammar{
 																					pos: position{line: 677, col: 14, offset: 21525},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2897, col: 11, offset: 91651},
+																							pos: position{line: 2898, col: 11, offset: 91676},
 																							expr: &anyMatcher{
-																								line: 2897, col: 13, offset: 91653,
+																								line: 2898, col: 13, offset: 91678,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 677, col: 21, offset: 21532},
 																							expr: &actionExpr{
-																								pos: position{line: 2880, col: 10, offset: 91317},
+																								pos: position{line: 2881, col: 10, offset: 91342},
 																								run: (*parser).callonListElements204,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 10, offset: 91317},
+																									pos:        position{line: 2881, col: 10, offset: 91342},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25857,28 +25857,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2902, col: 8, offset: 91715},
+																							pos: position{line: 2903, col: 8, offset: 91740},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2889, col: 12, offset: 91488},
+																									pos: position{line: 2890, col: 12, offset: 91513},
 																									run: (*parser).callonListElements207,
 																									expr: &choiceExpr{
-																										pos: position{line: 2889, col: 13, offset: 91489},
+																										pos: position{line: 2890, col: 13, offset: 91514},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 13, offset: 91489},
+																												pos:        position{line: 2890, col: 13, offset: 91514},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 20, offset: 91496},
+																												pos:        position{line: 2890, col: 20, offset: 91521},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 29, offset: 91505},
+																												pos:        position{line: 2890, col: 29, offset: 91530},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25887,9 +25887,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2899, col: 8, offset: 91665},
+																									pos: position{line: 2900, col: 8, offset: 91690},
 																									expr: &anyMatcher{
-																										line: 2899, col: 9, offset: 91666,
+																										line: 2900, col: 9, offset: 91691,
 																									},
 																								},
 																							},
@@ -25902,18 +25902,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1700, col: 9, offset: 55168},
+																pos: position{line: 1701, col: 9, offset: 55193},
 																run: (*parser).callonListElements214,
 																expr: &seqExpr{
-																	pos: position{line: 1700, col: 9, offset: 55168},
+																	pos: position{line: 1701, col: 9, offset: 55193},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2884, col: 11, offset: 91378},
+																			pos: position{line: 2885, col: 11, offset: 91403},
 																			run: (*parser).callonListElements216,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2884, col: 11, offset: 91378},
+																				pos: position{line: 2885, col: 11, offset: 91403},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2884, col: 11, offset: 91378},
+																					pos:        position{line: 2885, col: 11, offset: 91403},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25922,15 +25922,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1701, col: 9, offset: 55241},
+																			pos:   position{line: 1702, col: 9, offset: 55266},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1701, col: 18, offset: 55250},
+																				pos: position{line: 1702, col: 18, offset: 55275},
 																				run: (*parser).callonListElements220,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1701, col: 18, offset: 55250},
+																					pos: position{line: 1702, col: 18, offset: 55275},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1701, col: 18, offset: 55250},
+																						pos:        position{line: 1702, col: 18, offset: 55275},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -25940,28 +25940,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2902, col: 8, offset: 91715},
+																			pos: position{line: 2903, col: 8, offset: 91740},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2889, col: 12, offset: 91488},
+																					pos: position{line: 2890, col: 12, offset: 91513},
 																					run: (*parser).callonListElements224,
 																					expr: &choiceExpr{
-																						pos: position{line: 2889, col: 13, offset: 91489},
+																						pos: position{line: 2890, col: 13, offset: 91514},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2889, col: 13, offset: 91489},
+																								pos:        position{line: 2890, col: 13, offset: 91514},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2889, col: 20, offset: 91496},
+																								pos:        position{line: 2890, col: 20, offset: 91521},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2889, col: 29, offset: 91505},
+																								pos:        position{line: 2890, col: 29, offset: 91530},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25970,9 +25970,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2899, col: 8, offset: 91665},
+																					pos: position{line: 2900, col: 8, offset: 91690},
 																					expr: &anyMatcher{
-																						line: 2899, col: 9, offset: 91666,
+																						line: 2900, col: 9, offset: 91691,
 																					},
 																				},
 																			},
@@ -26030,9 +26030,9 @@ var g = &grammar{
 					pos: position{line: 1499, col: 5, offset: 48679},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2897, col: 11, offset: 91651},
+							pos: position{line: 2898, col: 11, offset: 91676},
 							expr: &anyMatcher{
-								line: 2897, col: 13, offset: 91653,
+								line: 2898, col: 13, offset: 91678,
 							},
 						},
 						&labeledExpr{
@@ -26056,18 +26056,18 @@ var g = &grammar{
 															pos: position{line: 677, col: 14, offset: 21525},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2897, col: 11, offset: 91651},
+																	pos: position{line: 2898, col: 11, offset: 91676},
 																	expr: &anyMatcher{
-																		line: 2897, col: 13, offset: 91653,
+																		line: 2898, col: 13, offset: 91678,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 677, col: 21, offset: 21532},
 																	expr: &actionExpr{
-																		pos: position{line: 2880, col: 10, offset: 91317},
+																		pos: position{line: 2881, col: 10, offset: 91342},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 10, offset: 91317},
+																			pos:        position{line: 2881, col: 10, offset: 91342},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26076,28 +26076,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2902, col: 8, offset: 91715},
+																	pos: position{line: 2903, col: 8, offset: 91740},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2889, col: 12, offset: 91488},
+																			pos: position{line: 2890, col: 12, offset: 91513},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2889, col: 13, offset: 91489},
+																				pos: position{line: 2890, col: 13, offset: 91514},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 13, offset: 91489},
+																						pos:        position{line: 2890, col: 13, offset: 91514},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 20, offset: 91496},
+																						pos:        position{line: 2890, col: 20, offset: 91521},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 29, offset: 91505},
+																						pos:        position{line: 2890, col: 29, offset: 91530},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26106,9 +26106,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2899, col: 8, offset: 91665},
+																			pos: position{line: 2900, col: 8, offset: 91690},
 																			expr: &anyMatcher{
-																				line: 2899, col: 9, offset: 91666,
+																				line: 2900, col: 9, offset: 91691,
 																			},
 																		},
 																	},
@@ -26124,27 +26124,27 @@ var g = &grammar{
 														pos: position{line: 1502, col: 22, offset: 48746},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1582, col: 5, offset: 51264},
+																pos: position{line: 1583, col: 5, offset: 51289},
 																run: (*parser).callonExtraListElement27,
 																expr: &seqExpr{
-																	pos: position{line: 1582, col: 5, offset: 51264},
+																	pos: position{line: 1583, col: 5, offset: 51289},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1582, col: 5, offset: 51264},
+																			pos:   position{line: 1583, col: 5, offset: 51289},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1589, col: 5, offset: 51472},
+																				pos: position{line: 1590, col: 5, offset: 51497},
 																				run: (*parser).callonExtraListElement30,
 																				expr: &seqExpr{
-																					pos: position{line: 1589, col: 5, offset: 51472},
+																					pos: position{line: 1590, col: 5, offset: 51497},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1589, col: 5, offset: 51472},
+																							pos: position{line: 1590, col: 5, offset: 51497},
 																							expr: &actionExpr{
-																								pos: position{line: 2880, col: 10, offset: 91317},
+																								pos: position{line: 2881, col: 10, offset: 91342},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 10, offset: 91317},
+																									pos:        position{line: 2881, col: 10, offset: 91342},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26153,27 +26153,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1589, col: 12, offset: 51479},
+																							pos:   position{line: 1590, col: 12, offset: 51504},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1591, col: 9, offset: 51542},
+																								pos: position{line: 1592, col: 9, offset: 51567},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1591, col: 9, offset: 51542},
+																										pos: position{line: 1592, col: 9, offset: 51567},
 																										run: (*parser).callonExtraListElement37,
 																										expr: &seqExpr{
-																											pos: position{line: 1591, col: 9, offset: 51542},
+																											pos: position{line: 1592, col: 9, offset: 51567},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1591, col: 9, offset: 51542},
+																													pos:   position{line: 1592, col: 9, offset: 51567},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1591, col: 16, offset: 51549},
+																														pos: position{line: 1592, col: 16, offset: 51574},
 																														run: (*parser).callonExtraListElement40,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1591, col: 16, offset: 51549},
+																															pos: position{line: 1592, col: 16, offset: 51574},
 																															expr: &litMatcher{
-																																pos:        position{line: 1591, col: 17, offset: 51550},
+																																pos:        position{line: 1592, col: 17, offset: 51575},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -26182,22 +26182,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1595, col: 9, offset: 51650},
+																													pos: position{line: 1596, col: 9, offset: 51675},
 																													run: (*parser).callonExtraListElement43,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1614, col: 11, offset: 52367},
+																										pos: position{line: 1615, col: 11, offset: 52392},
 																										run: (*parser).callonExtraListElement44,
 																										expr: &seqExpr{
-																											pos: position{line: 1614, col: 11, offset: 52367},
+																											pos: position{line: 1615, col: 11, offset: 52392},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1614, col: 11, offset: 52367},
+																													pos: position{line: 1615, col: 11, offset: 52392},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1614, col: 12, offset: 52368},
+																														pos:        position{line: 1615, col: 12, offset: 52393},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -26205,7 +26205,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1614, col: 20, offset: 52376},
+																													pos:        position{line: 1615, col: 20, offset: 52401},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26214,20 +26214,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1616, col: 13, offset: 52493},
+																										pos: position{line: 1617, col: 13, offset: 52518},
 																										run: (*parser).callonExtraListElement49,
 																										expr: &seqExpr{
-																											pos: position{line: 1616, col: 13, offset: 52493},
+																											pos: position{line: 1617, col: 13, offset: 52518},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1616, col: 14, offset: 52494},
+																													pos:        position{line: 1617, col: 14, offset: 52519},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1616, col: 21, offset: 52501},
+																													pos:        position{line: 1617, col: 21, offset: 52526},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26236,20 +26236,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1618, col: 13, offset: 52621},
+																										pos: position{line: 1619, col: 13, offset: 52646},
 																										run: (*parser).callonExtraListElement53,
 																										expr: &seqExpr{
-																											pos: position{line: 1618, col: 13, offset: 52621},
+																											pos: position{line: 1619, col: 13, offset: 52646},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1618, col: 14, offset: 52622},
+																													pos:        position{line: 1619, col: 14, offset: 52647},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1618, col: 21, offset: 52629},
+																													pos:        position{line: 1619, col: 21, offset: 52654},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26258,15 +26258,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1620, col: 13, offset: 52749},
+																										pos: position{line: 1621, col: 13, offset: 52774},
 																										run: (*parser).callonExtraListElement57,
 																										expr: &seqExpr{
-																											pos: position{line: 1620, col: 13, offset: 52749},
+																											pos: position{line: 1621, col: 13, offset: 52774},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1620, col: 13, offset: 52749},
+																													pos: position{line: 1621, col: 13, offset: 52774},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1620, col: 14, offset: 52750},
+																														pos:        position{line: 1621, col: 14, offset: 52775},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -26274,7 +26274,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1620, col: 26, offset: 52762},
+																													pos:        position{line: 1621, col: 26, offset: 52787},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26283,15 +26283,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1622, col: 13, offset: 52882},
+																										pos: position{line: 1623, col: 13, offset: 52907},
 																										run: (*parser).callonExtraListElement62,
 																										expr: &seqExpr{
-																											pos: position{line: 1622, col: 13, offset: 52882},
+																											pos: position{line: 1623, col: 13, offset: 52907},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1622, col: 13, offset: 52882},
+																													pos: position{line: 1623, col: 13, offset: 52907},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1622, col: 14, offset: 52883},
+																														pos:        position{line: 1623, col: 14, offset: 52908},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -26299,7 +26299,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1622, col: 26, offset: 52895},
+																													pos:        position{line: 1623, col: 26, offset: 52920},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26311,12 +26311,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2884, col: 11, offset: 91378},
+																							pos: position{line: 2885, col: 11, offset: 91403},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2884, col: 11, offset: 91378},
+																								pos: position{line: 2885, col: 11, offset: 91403},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2884, col: 11, offset: 91378},
+																									pos:        position{line: 2885, col: 11, offset: 91403},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26329,7 +26329,7 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1583, col: 5, offset: 51303},
+																			pos:   position{line: 1584, col: 5, offset: 51328},
 																			label: "content",
 																			expr: &actionExpr{
 																				pos: position{line: 1530, col: 5, offset: 49770},
@@ -26359,28 +26359,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2902, col: 8, offset: 91715},
+																							pos: position{line: 2903, col: 8, offset: 91740},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2889, col: 12, offset: 91488},
+																									pos: position{line: 2890, col: 12, offset: 91513},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2889, col: 13, offset: 91489},
+																										pos: position{line: 2890, col: 13, offset: 91514},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 13, offset: 91489},
+																												pos:        position{line: 2890, col: 13, offset: 91514},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 20, offset: 91496},
+																												pos:        position{line: 2890, col: 20, offset: 91521},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 29, offset: 91505},
+																												pos:        position{line: 2890, col: 29, offset: 91530},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26389,9 +26389,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2899, col: 8, offset: 91665},
+																									pos: position{line: 2900, col: 8, offset: 91690},
 																									expr: &anyMatcher{
-																										line: 2899, col: 9, offset: 91666,
+																										line: 2900, col: 9, offset: 91691,
 																									},
 																								},
 																							},
@@ -26404,27 +26404,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1632, col: 5, offset: 53161},
+																pos: position{line: 1633, col: 5, offset: 53186},
 																run: (*parser).callonExtraListElement86,
 																expr: &seqExpr{
-																	pos: position{line: 1632, col: 5, offset: 53161},
+																	pos: position{line: 1633, col: 5, offset: 53186},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1632, col: 5, offset: 53161},
+																			pos:   position{line: 1633, col: 5, offset: 53186},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1639, col: 5, offset: 53434},
+																				pos: position{line: 1640, col: 5, offset: 53459},
 																				run: (*parser).callonExtraListElement89,
 																				expr: &seqExpr{
-																					pos: position{line: 1639, col: 5, offset: 53434},
+																					pos: position{line: 1640, col: 5, offset: 53459},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1639, col: 5, offset: 53434},
+																							pos: position{line: 1640, col: 5, offset: 53459},
 																							expr: &actionExpr{
-																								pos: position{line: 2880, col: 10, offset: 91317},
+																								pos: position{line: 2881, col: 10, offset: 91342},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 10, offset: 91317},
+																									pos:        position{line: 2881, col: 10, offset: 91342},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26433,24 +26433,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1640, col: 5, offset: 53446},
+																							pos:   position{line: 1641, col: 5, offset: 53471},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1641, col: 9, offset: 53462},
+																								pos: position{line: 1642, col: 9, offset: 53487},
 																								run: (*parser).callonExtraListElement95,
 																								expr: &choiceExpr{
-																									pos: position{line: 1641, col: 10, offset: 53463},
+																									pos: position{line: 1642, col: 10, offset: 53488},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1641, col: 11, offset: 53464},
+																											pos:        position{line: 1642, col: 11, offset: 53489},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1641, col: 18, offset: 53471},
+																											pos: position{line: 1642, col: 18, offset: 53496},
 																											expr: &litMatcher{
-																												pos:        position{line: 1641, col: 19, offset: 53472},
+																												pos:        position{line: 1642, col: 19, offset: 53497},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -26461,16 +26461,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1644, col: 7, offset: 53562},
+																							pos: position{line: 1645, col: 7, offset: 53587},
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2884, col: 11, offset: 91378},
+																							pos: position{line: 2885, col: 11, offset: 91403},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2884, col: 11, offset: 91378},
+																								pos: position{line: 2885, col: 11, offset: 91403},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2884, col: 11, offset: 91378},
+																									pos:        position{line: 2885, col: 11, offset: 91403},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26483,56 +26483,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1633, col: 5, offset: 53202},
+																			pos:   position{line: 1634, col: 5, offset: 53227},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1633, col: 16, offset: 53213},
+																				pos: position{line: 1634, col: 16, offset: 53238},
 																				expr: &actionExpr{
-																					pos: position{line: 1654, col: 5, offset: 53827},
+																					pos: position{line: 1655, col: 5, offset: 53852},
 																					run: (*parser).callonExtraListElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 1654, col: 5, offset: 53827},
+																						pos: position{line: 1655, col: 5, offset: 53852},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1654, col: 5, offset: 53827},
+																								pos: position{line: 1655, col: 5, offset: 53852},
 																								expr: &litMatcher{
-																									pos:        position{line: 1654, col: 6, offset: 53828},
+																									pos:        position{line: 1655, col: 6, offset: 53853},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1654, col: 10, offset: 53832},
+																								pos:   position{line: 1655, col: 10, offset: 53857},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1655, col: 7, offset: 53846},
+																									pos: position{line: 1656, col: 7, offset: 53871},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1655, col: 7, offset: 53846},
+																											pos: position{line: 1656, col: 7, offset: 53871},
 																											run: (*parser).callonExtraListElement112,
 																											expr: &litMatcher{
-																												pos:        position{line: 1655, col: 7, offset: 53846},
+																												pos:        position{line: 1656, col: 7, offset: 53871},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1656, col: 7, offset: 53891},
+																											pos: position{line: 1657, col: 7, offset: 53916},
 																											run: (*parser).callonExtraListElement114,
 																											expr: &litMatcher{
-																												pos:        position{line: 1656, col: 7, offset: 53891},
+																												pos:        position{line: 1657, col: 7, offset: 53916},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1657, col: 7, offset: 53934},
+																											pos: position{line: 1658, col: 7, offset: 53959},
 																											run: (*parser).callonExtraListElement116,
 																											expr: &litMatcher{
-																												pos:        position{line: 1657, col: 7, offset: 53934},
+																												pos:        position{line: 1658, col: 7, offset: 53959},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -26542,12 +26542,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2884, col: 11, offset: 91378},
+																								pos: position{line: 2885, col: 11, offset: 91403},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2884, col: 11, offset: 91378},
+																									pos: position{line: 2885, col: 11, offset: 91403},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2884, col: 11, offset: 91378},
+																										pos:        position{line: 2885, col: 11, offset: 91403},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -26561,7 +26561,7 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1634, col: 5, offset: 53252},
+																			pos:   position{line: 1635, col: 5, offset: 53277},
 																			label: "content",
 																			expr: &actionExpr{
 																				pos: position{line: 1530, col: 5, offset: 49770},
@@ -26591,28 +26591,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2902, col: 8, offset: 91715},
+																							pos: position{line: 2903, col: 8, offset: 91740},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2889, col: 12, offset: 91488},
+																									pos: position{line: 2890, col: 12, offset: 91513},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2889, col: 13, offset: 91489},
+																										pos: position{line: 2890, col: 13, offset: 91514},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 13, offset: 91489},
+																												pos:        position{line: 2890, col: 13, offset: 91514},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 20, offset: 91496},
+																												pos:        position{line: 2890, col: 20, offset: 91521},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 29, offset: 91505},
+																												pos:        position{line: 2890, col: 29, offset: 91530},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26621,9 +26621,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2899, col: 8, offset: 91665},
+																									pos: position{line: 2900, col: 8, offset: 91690},
 																									expr: &anyMatcher{
-																										line: 2899, col: 9, offset: 91666,
+																										line: 2900, col: 9, offset: 91691,
 																									},
 																								},
 																							},
@@ -26636,36 +26636,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1723, col: 5, offset: 55806},
+																pos: position{line: 1724, col: 5, offset: 55831},
 																run: (*parser).callonExtraListElement137,
 																expr: &seqExpr{
-																	pos: position{line: 1723, col: 5, offset: 55806},
+																	pos: position{line: 1724, col: 5, offset: 55831},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1723, col: 5, offset: 55806},
+																			pos:   position{line: 1724, col: 5, offset: 55831},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1729, col: 5, offset: 56003},
+																				pos: position{line: 1730, col: 5, offset: 56028},
 																				run: (*parser).callonExtraListElement140,
 																				expr: &seqExpr{
-																					pos: position{line: 1729, col: 5, offset: 56003},
+																					pos: position{line: 1730, col: 5, offset: 56028},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1729, col: 5, offset: 56003},
+																							pos:        position{line: 1730, col: 5, offset: 56028},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1729, col: 9, offset: 56007},
+																							pos:   position{line: 1730, col: 9, offset: 56032},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1729, col: 14, offset: 56012},
+																								pos: position{line: 1730, col: 14, offset: 56037},
 																								run: (*parser).callonExtraListElement144,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1729, col: 14, offset: 56012},
+																									pos: position{line: 1730, col: 14, offset: 56037},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1729, col: 14, offset: 56012},
+																										pos:        position{line: 1730, col: 14, offset: 56037},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -26675,18 +26675,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1729, col: 62, offset: 56060},
+																							pos:        position{line: 1730, col: 62, offset: 56085},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2884, col: 11, offset: 91378},
+																							pos: position{line: 2885, col: 11, offset: 91403},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2884, col: 11, offset: 91378},
+																								pos: position{line: 2885, col: 11, offset: 91403},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2884, col: 11, offset: 91378},
+																									pos:        position{line: 2885, col: 11, offset: 91403},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26699,7 +26699,7 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1724, col: 5, offset: 55842},
+																			pos:   position{line: 1725, col: 5, offset: 55867},
 																			label: "description",
 																			expr: &actionExpr{
 																				pos: position{line: 1530, col: 5, offset: 49770},
@@ -26729,28 +26729,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2902, col: 8, offset: 91715},
+																							pos: position{line: 2903, col: 8, offset: 91740},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2889, col: 12, offset: 91488},
+																									pos: position{line: 2890, col: 12, offset: 91513},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2889, col: 13, offset: 91489},
+																										pos: position{line: 2890, col: 13, offset: 91514},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 13, offset: 91489},
+																												pos:        position{line: 2890, col: 13, offset: 91514},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 20, offset: 91496},
+																												pos:        position{line: 2890, col: 20, offset: 91521},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 29, offset: 91505},
+																												pos:        position{line: 2890, col: 29, offset: 91530},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26759,9 +26759,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2899, col: 8, offset: 91665},
+																									pos: position{line: 2900, col: 8, offset: 91690},
 																									expr: &anyMatcher{
-																										line: 2899, col: 9, offset: 91666,
+																										line: 2900, col: 9, offset: 91691,
 																									},
 																								},
 																							},
@@ -26774,35 +26774,35 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1666, col: 5, offset: 54127},
+																pos: position{line: 1667, col: 5, offset: 54152},
 																run: (*parser).callonExtraListElement167,
 																expr: &seqExpr{
-																	pos: position{line: 1666, col: 5, offset: 54127},
+																	pos: position{line: 1667, col: 5, offset: 54152},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1666, col: 5, offset: 54127},
+																			pos:   position{line: 1667, col: 5, offset: 54152},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1674, col: 5, offset: 54453},
+																				pos: position{line: 1675, col: 5, offset: 54478},
 																				run: (*parser).callonExtraListElement170,
 																				expr: &seqExpr{
-																					pos: position{line: 1674, col: 5, offset: 54453},
+																					pos: position{line: 1675, col: 5, offset: 54478},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1674, col: 5, offset: 54453},
+																							pos: position{line: 1675, col: 5, offset: 54478},
 																							expr: &seqExpr{
-																								pos: position{line: 2492, col: 31, offset: 80424},
+																								pos: position{line: 2493, col: 31, offset: 80449},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2492, col: 31, offset: 80424},
+																										pos:        position{line: 2493, col: 31, offset: 80449},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2492, col: 36, offset: 80429},
+																										pos: position{line: 2493, col: 36, offset: 80454},
 																										expr: &litMatcher{
-																											pos:        position{line: 2492, col: 37, offset: 80430},
+																											pos:        position{line: 2493, col: 37, offset: 80455},
 																											val:        "//",
 																											ignoreCase: false,
 																											want:       "\"//\"",
@@ -26812,28 +26812,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1675, col: 5, offset: 54485},
+																							pos: position{line: 1676, col: 5, offset: 54510},
 																							expr: &seqExpr{
-																								pos: position{line: 1675, col: 6, offset: 54486},
+																								pos: position{line: 1676, col: 6, offset: 54511},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1675, col: 6, offset: 54486},
+																										pos: position{line: 1676, col: 6, offset: 54511},
 																										expr: &actionExpr{
-																											pos: position{line: 1680, col: 5, offset: 54636},
+																											pos: position{line: 1681, col: 5, offset: 54661},
 																											run: (*parser).callonExtraListElement180,
 																											expr: &seqExpr{
-																												pos: position{line: 1680, col: 5, offset: 54636},
+																												pos: position{line: 1681, col: 5, offset: 54661},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1680, col: 5, offset: 54636},
+																														pos:   position{line: 1681, col: 5, offset: 54661},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1680, col: 16, offset: 54647},
+																															pos: position{line: 1681, col: 16, offset: 54672},
 																															run: (*parser).callonExtraListElement183,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1680, col: 16, offset: 54647},
+																																pos: position{line: 1681, col: 16, offset: 54672},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1680, col: 17, offset: 54648},
+																																	pos:        position{line: 1681, col: 17, offset: 54673},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -26842,7 +26842,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1683, col: 5, offset: 54705},
+																														pos: position{line: 1684, col: 5, offset: 54730},
 																														run: (*parser).callonExtraListElement186,
 																													},
 																												},
@@ -26850,30 +26850,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1675, col: 35, offset: 54515},
+																										pos: position{line: 1676, col: 35, offset: 54540},
 																										expr: &choiceExpr{
-																											pos: position{line: 2902, col: 8, offset: 91715},
+																											pos: position{line: 2903, col: 8, offset: 91740},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2889, col: 12, offset: 91488},
+																													pos: position{line: 2890, col: 12, offset: 91513},
 																													run: (*parser).callonExtraListElement189,
 																													expr: &choiceExpr{
-																														pos: position{line: 2889, col: 13, offset: 91489},
+																														pos: position{line: 2890, col: 13, offset: 91514},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 13, offset: 91489},
+																																pos:        position{line: 2890, col: 13, offset: 91514},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 20, offset: 91496},
+																																pos:        position{line: 2890, col: 20, offset: 91521},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 29, offset: 91505},
+																																pos:        position{line: 2890, col: 29, offset: 91530},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -26882,16 +26882,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2899, col: 8, offset: 91665},
+																													pos: position{line: 2900, col: 8, offset: 91690},
 																													expr: &anyMatcher{
-																														line: 2899, col: 9, offset: 91666,
+																														line: 2900, col: 9, offset: 91691,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1675, col: 40, offset: 54520,
+																										line: 1676, col: 40, offset: 54545,
 																									},
 																								},
 																							},
@@ -26901,24 +26901,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1667, col: 5, offset: 54162},
+																			pos:   position{line: 1668, col: 5, offset: 54187},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1680, col: 5, offset: 54636},
+																				pos: position{line: 1681, col: 5, offset: 54661},
 																				run: (*parser).callonExtraListElement198,
 																				expr: &seqExpr{
-																					pos: position{line: 1680, col: 5, offset: 54636},
+																					pos: position{line: 1681, col: 5, offset: 54661},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1680, col: 5, offset: 54636},
+																							pos:   position{line: 1681, col: 5, offset: 54661},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1680, col: 16, offset: 54647},
+																								pos: position{line: 1681, col: 16, offset: 54672},
 																								run: (*parser).callonExtraListElement201,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1680, col: 16, offset: 54647},
+																									pos: position{line: 1681, col: 16, offset: 54672},
 																									expr: &litMatcher{
-																										pos:        position{line: 1680, col: 17, offset: 54648},
+																										pos:        position{line: 1681, col: 17, offset: 54673},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -26927,7 +26927,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1683, col: 5, offset: 54705},
+																							pos: position{line: 1684, col: 5, offset: 54730},
 																							run: (*parser).callonExtraListElement204,
 																						},
 																					},
@@ -26935,24 +26935,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1668, col: 5, offset: 54207},
+																			pos:   position{line: 1669, col: 5, offset: 54232},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1691, col: 5, offset: 54954},
+																				pos: position{line: 1692, col: 5, offset: 54979},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1693, col: 9, offset: 55020},
+																						pos: position{line: 1694, col: 9, offset: 55045},
 																						run: (*parser).callonExtraListElement207,
 																						expr: &seqExpr{
-																							pos: position{line: 1693, col: 9, offset: 55020},
+																							pos: position{line: 1694, col: 9, offset: 55045},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1693, col: 9, offset: 55020},
+																									pos: position{line: 1694, col: 9, offset: 55045},
 																									expr: &actionExpr{
-																										pos: position{line: 2880, col: 10, offset: 91317},
+																										pos: position{line: 2881, col: 10, offset: 91342},
 																										run: (*parser).callonExtraListElement210,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2880, col: 10, offset: 91317},
+																											pos:        position{line: 2881, col: 10, offset: 91342},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26961,28 +26961,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2902, col: 8, offset: 91715},
+																									pos: position{line: 2903, col: 8, offset: 91740},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2889, col: 12, offset: 91488},
+																											pos: position{line: 2890, col: 12, offset: 91513},
 																											run: (*parser).callonExtraListElement213,
 																											expr: &choiceExpr{
-																												pos: position{line: 2889, col: 13, offset: 91489},
+																												pos: position{line: 2890, col: 13, offset: 91514},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2889, col: 13, offset: 91489},
+																														pos:        position{line: 2890, col: 13, offset: 91514},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2889, col: 20, offset: 91496},
+																														pos:        position{line: 2890, col: 20, offset: 91521},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2889, col: 29, offset: 91505},
+																														pos:        position{line: 2890, col: 29, offset: 91530},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26991,15 +26991,15 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2899, col: 8, offset: 91665},
+																											pos: position{line: 2900, col: 8, offset: 91690},
 																											expr: &anyMatcher{
-																												line: 2899, col: 9, offset: 91666,
+																												line: 2900, col: 9, offset: 91691,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1694, col: 9, offset: 55039},
+																									pos: position{line: 1695, col: 9, offset: 55064},
 																									expr: &actionExpr{
 																										pos: position{line: 677, col: 14, offset: 21525},
 																										run: (*parser).callonExtraListElement221,
@@ -27007,18 +27007,18 @@ var g = &grammar{
 																											pos: position{line: 677, col: 14, offset: 21525},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2897, col: 11, offset: 91651},
+																													pos: position{line: 2898, col: 11, offset: 91676},
 																													expr: &anyMatcher{
-																														line: 2897, col: 13, offset: 91653,
+																														line: 2898, col: 13, offset: 91678,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 677, col: 21, offset: 21532},
 																													expr: &actionExpr{
-																														pos: position{line: 2880, col: 10, offset: 91317},
+																														pos: position{line: 2881, col: 10, offset: 91342},
 																														run: (*parser).callonExtraListElement226,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2880, col: 10, offset: 91317},
+																															pos:        position{line: 2881, col: 10, offset: 91342},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27027,28 +27027,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2902, col: 8, offset: 91715},
+																													pos: position{line: 2903, col: 8, offset: 91740},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2889, col: 12, offset: 91488},
+																															pos: position{line: 2890, col: 12, offset: 91513},
 																															run: (*parser).callonExtraListElement229,
 																															expr: &choiceExpr{
-																																pos: position{line: 2889, col: 13, offset: 91489},
+																																pos: position{line: 2890, col: 13, offset: 91514},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2889, col: 13, offset: 91489},
+																																		pos:        position{line: 2890, col: 13, offset: 91514},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2889, col: 20, offset: 91496},
+																																		pos:        position{line: 2890, col: 20, offset: 91521},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2889, col: 29, offset: 91505},
+																																		pos:        position{line: 2890, col: 29, offset: 91530},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -27057,9 +27057,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2899, col: 8, offset: 91665},
+																															pos: position{line: 2900, col: 8, offset: 91690},
 																															expr: &anyMatcher{
-																																line: 2899, col: 9, offset: 91666,
+																																line: 2900, col: 9, offset: 91691,
 																															},
 																														},
 																													},
@@ -27072,18 +27072,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1700, col: 9, offset: 55168},
+																						pos: position{line: 1701, col: 9, offset: 55193},
 																						run: (*parser).callonExtraListElement236,
 																						expr: &seqExpr{
-																							pos: position{line: 1700, col: 9, offset: 55168},
+																							pos: position{line: 1701, col: 9, offset: 55193},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2884, col: 11, offset: 91378},
+																									pos: position{line: 2885, col: 11, offset: 91403},
 																									run: (*parser).callonExtraListElement238,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2884, col: 11, offset: 91378},
+																										pos: position{line: 2885, col: 11, offset: 91403},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2884, col: 11, offset: 91378},
+																											pos:        position{line: 2885, col: 11, offset: 91403},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27092,15 +27092,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1701, col: 9, offset: 55241},
+																									pos:   position{line: 1702, col: 9, offset: 55266},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1701, col: 18, offset: 55250},
+																										pos: position{line: 1702, col: 18, offset: 55275},
 																										run: (*parser).callonExtraListElement242,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1701, col: 18, offset: 55250},
+																											pos: position{line: 1702, col: 18, offset: 55275},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1701, col: 18, offset: 55250},
+																												pos:        position{line: 1702, col: 18, offset: 55275},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -27110,28 +27110,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2902, col: 8, offset: 91715},
+																									pos: position{line: 2903, col: 8, offset: 91740},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2889, col: 12, offset: 91488},
+																											pos: position{line: 2890, col: 12, offset: 91513},
 																											run: (*parser).callonExtraListElement246,
 																											expr: &choiceExpr{
-																												pos: position{line: 2889, col: 13, offset: 91489},
+																												pos: position{line: 2890, col: 13, offset: 91514},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2889, col: 13, offset: 91489},
+																														pos:        position{line: 2890, col: 13, offset: 91514},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2889, col: 20, offset: 91496},
+																														pos:        position{line: 2890, col: 20, offset: 91521},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2889, col: 29, offset: 91505},
+																														pos:        position{line: 2890, col: 29, offset: 91530},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27140,9 +27140,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2899, col: 8, offset: 91665},
+																											pos: position{line: 2900, col: 8, offset: 91690},
 																											expr: &anyMatcher{
-																												line: 2899, col: 9, offset: 91666,
+																												line: 2900, col: 9, offset: 91691,
 																											},
 																										},
 																									},
@@ -27186,27 +27186,27 @@ var g = &grammar{
 														pos: position{line: 1506, col: 22, offset: 48949},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1582, col: 5, offset: 51264},
+																pos: position{line: 1583, col: 5, offset: 51289},
 																run: (*parser).callonExtraListElement260,
 																expr: &seqExpr{
-																	pos: position{line: 1582, col: 5, offset: 51264},
+																	pos: position{line: 1583, col: 5, offset: 51289},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1582, col: 5, offset: 51264},
+																			pos:   position{line: 1583, col: 5, offset: 51289},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1589, col: 5, offset: 51472},
+																				pos: position{line: 1590, col: 5, offset: 51497},
 																				run: (*parser).callonExtraListElement263,
 																				expr: &seqExpr{
-																					pos: position{line: 1589, col: 5, offset: 51472},
+																					pos: position{line: 1590, col: 5, offset: 51497},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1589, col: 5, offset: 51472},
+																							pos: position{line: 1590, col: 5, offset: 51497},
 																							expr: &actionExpr{
-																								pos: position{line: 2880, col: 10, offset: 91317},
+																								pos: position{line: 2881, col: 10, offset: 91342},
 																								run: (*parser).callonExtraListElement266,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 10, offset: 91317},
+																									pos:        position{line: 2881, col: 10, offset: 91342},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27215,27 +27215,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1589, col: 12, offset: 51479},
+																							pos:   position{line: 1590, col: 12, offset: 51504},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1591, col: 9, offset: 51542},
+																								pos: position{line: 1592, col: 9, offset: 51567},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1591, col: 9, offset: 51542},
+																										pos: position{line: 1592, col: 9, offset: 51567},
 																										run: (*parser).callonExtraListElement270,
 																										expr: &seqExpr{
-																											pos: position{line: 1591, col: 9, offset: 51542},
+																											pos: position{line: 1592, col: 9, offset: 51567},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1591, col: 9, offset: 51542},
+																													pos:   position{line: 1592, col: 9, offset: 51567},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1591, col: 16, offset: 51549},
+																														pos: position{line: 1592, col: 16, offset: 51574},
 																														run: (*parser).callonExtraListElement273,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1591, col: 16, offset: 51549},
+																															pos: position{line: 1592, col: 16, offset: 51574},
 																															expr: &litMatcher{
-																																pos:        position{line: 1591, col: 17, offset: 51550},
+																																pos:        position{line: 1592, col: 17, offset: 51575},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -27244,22 +27244,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1595, col: 9, offset: 51650},
+																													pos: position{line: 1596, col: 9, offset: 51675},
 																													run: (*parser).callonExtraListElement276,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1614, col: 11, offset: 52367},
+																										pos: position{line: 1615, col: 11, offset: 52392},
 																										run: (*parser).callonExtraListElement277,
 																										expr: &seqExpr{
-																											pos: position{line: 1614, col: 11, offset: 52367},
+																											pos: position{line: 1615, col: 11, offset: 52392},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1614, col: 11, offset: 52367},
+																													pos: position{line: 1615, col: 11, offset: 52392},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1614, col: 12, offset: 52368},
+																														pos:        position{line: 1615, col: 12, offset: 52393},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -27267,7 +27267,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1614, col: 20, offset: 52376},
+																													pos:        position{line: 1615, col: 20, offset: 52401},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27276,20 +27276,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1616, col: 13, offset: 52493},
+																										pos: position{line: 1617, col: 13, offset: 52518},
 																										run: (*parser).callonExtraListElement282,
 																										expr: &seqExpr{
-																											pos: position{line: 1616, col: 13, offset: 52493},
+																											pos: position{line: 1617, col: 13, offset: 52518},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1616, col: 14, offset: 52494},
+																													pos:        position{line: 1617, col: 14, offset: 52519},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1616, col: 21, offset: 52501},
+																													pos:        position{line: 1617, col: 21, offset: 52526},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27298,20 +27298,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1618, col: 13, offset: 52621},
+																										pos: position{line: 1619, col: 13, offset: 52646},
 																										run: (*parser).callonExtraListElement286,
 																										expr: &seqExpr{
-																											pos: position{line: 1618, col: 13, offset: 52621},
+																											pos: position{line: 1619, col: 13, offset: 52646},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1618, col: 14, offset: 52622},
+																													pos:        position{line: 1619, col: 14, offset: 52647},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1618, col: 21, offset: 52629},
+																													pos:        position{line: 1619, col: 21, offset: 52654},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27320,15 +27320,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1620, col: 13, offset: 52749},
+																										pos: position{line: 1621, col: 13, offset: 52774},
 																										run: (*parser).callonExtraListElement290,
 																										expr: &seqExpr{
-																											pos: position{line: 1620, col: 13, offset: 52749},
+																											pos: position{line: 1621, col: 13, offset: 52774},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1620, col: 13, offset: 52749},
+																													pos: position{line: 1621, col: 13, offset: 52774},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1620, col: 14, offset: 52750},
+																														pos:        position{line: 1621, col: 14, offset: 52775},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -27336,7 +27336,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1620, col: 26, offset: 52762},
+																													pos:        position{line: 1621, col: 26, offset: 52787},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27345,15 +27345,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1622, col: 13, offset: 52882},
+																										pos: position{line: 1623, col: 13, offset: 52907},
 																										run: (*parser).callonExtraListElement295,
 																										expr: &seqExpr{
-																											pos: position{line: 1622, col: 13, offset: 52882},
+																											pos: position{line: 1623, col: 13, offset: 52907},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1622, col: 13, offset: 52882},
+																													pos: position{line: 1623, col: 13, offset: 52907},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1622, col: 14, offset: 52883},
+																														pos:        position{line: 1623, col: 14, offset: 52908},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -27361,7 +27361,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1622, col: 26, offset: 52895},
+																													pos:        position{line: 1623, col: 26, offset: 52920},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27373,12 +27373,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2884, col: 11, offset: 91378},
+																							pos: position{line: 2885, col: 11, offset: 91403},
 																							run: (*parser).callonExtraListElement300,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2884, col: 11, offset: 91378},
+																								pos: position{line: 2885, col: 11, offset: 91403},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2884, col: 11, offset: 91378},
+																									pos:        position{line: 2885, col: 11, offset: 91403},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27391,7 +27391,7 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1583, col: 5, offset: 51303},
+																			pos:   position{line: 1584, col: 5, offset: 51328},
 																			label: "content",
 																			expr: &actionExpr{
 																				pos: position{line: 1530, col: 5, offset: 49770},
@@ -27421,28 +27421,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2902, col: 8, offset: 91715},
+																							pos: position{line: 2903, col: 8, offset: 91740},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2889, col: 12, offset: 91488},
+																									pos: position{line: 2890, col: 12, offset: 91513},
 																									run: (*parser).callonExtraListElement312,
 																									expr: &choiceExpr{
-																										pos: position{line: 2889, col: 13, offset: 91489},
+																										pos: position{line: 2890, col: 13, offset: 91514},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 13, offset: 91489},
+																												pos:        position{line: 2890, col: 13, offset: 91514},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 20, offset: 91496},
+																												pos:        position{line: 2890, col: 20, offset: 91521},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 29, offset: 91505},
+																												pos:        position{line: 2890, col: 29, offset: 91530},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27451,9 +27451,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2899, col: 8, offset: 91665},
+																									pos: position{line: 2900, col: 8, offset: 91690},
 																									expr: &anyMatcher{
-																										line: 2899, col: 9, offset: 91666,
+																										line: 2900, col: 9, offset: 91691,
 																									},
 																								},
 																							},
@@ -27466,27 +27466,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1632, col: 5, offset: 53161},
+																pos: position{line: 1633, col: 5, offset: 53186},
 																run: (*parser).callonExtraListElement319,
 																expr: &seqExpr{
-																	pos: position{line: 1632, col: 5, offset: 53161},
+																	pos: position{line: 1633, col: 5, offset: 53186},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1632, col: 5, offset: 53161},
+																			pos:   position{line: 1633, col: 5, offset: 53186},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1639, col: 5, offset: 53434},
+																				pos: position{line: 1640, col: 5, offset: 53459},
 																				run: (*parser).callonExtraListElement322,
 																				expr: &seqExpr{
-																					pos: position{line: 1639, col: 5, offset: 53434},
+																					pos: position{line: 1640, col: 5, offset: 53459},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1639, col: 5, offset: 53434},
+																							pos: position{line: 1640, col: 5, offset: 53459},
 																							expr: &actionExpr{
-																								pos: position{line: 2880, col: 10, offset: 91317},
+																								pos: position{line: 2881, col: 10, offset: 91342},
 																								run: (*parser).callonExtraListElement325,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 10, offset: 91317},
+																									pos:        position{line: 2881, col: 10, offset: 91342},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27495,24 +27495,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1640, col: 5, offset: 53446},
+																							pos:   position{line: 1641, col: 5, offset: 53471},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1641, col: 9, offset: 53462},
+																								pos: position{line: 1642, col: 9, offset: 53487},
 																								run: (*parser).callonExtraListElement328,
 																								expr: &choiceExpr{
-																									pos: position{line: 1641, col: 10, offset: 53463},
+																									pos: position{line: 1642, col: 10, offset: 53488},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1641, col: 11, offset: 53464},
+																											pos:        position{line: 1642, col: 11, offset: 53489},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1641, col: 18, offset: 53471},
+																											pos: position{line: 1642, col: 18, offset: 53496},
 																											expr: &litMatcher{
-																												pos:        position{line: 1641, col: 19, offset: 53472},
+																												pos:        position{line: 1642, col: 19, offset: 53497},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -27523,16 +27523,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1644, col: 7, offset: 53562},
+																							pos: position{line: 1645, col: 7, offset: 53587},
 																							run: (*parser).callonExtraListElement333,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2884, col: 11, offset: 91378},
+																							pos: position{line: 2885, col: 11, offset: 91403},
 																							run: (*parser).callonExtraListElement334,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2884, col: 11, offset: 91378},
+																								pos: position{line: 2885, col: 11, offset: 91403},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2884, col: 11, offset: 91378},
+																									pos:        position{line: 2885, col: 11, offset: 91403},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27545,56 +27545,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1633, col: 5, offset: 53202},
+																			pos:   position{line: 1634, col: 5, offset: 53227},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1633, col: 16, offset: 53213},
+																				pos: position{line: 1634, col: 16, offset: 53238},
 																				expr: &actionExpr{
-																					pos: position{line: 1654, col: 5, offset: 53827},
+																					pos: position{line: 1655, col: 5, offset: 53852},
 																					run: (*parser).callonExtraListElement339,
 																					expr: &seqExpr{
-																						pos: position{line: 1654, col: 5, offset: 53827},
+																						pos: position{line: 1655, col: 5, offset: 53852},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1654, col: 5, offset: 53827},
+																								pos: position{line: 1655, col: 5, offset: 53852},
 																								expr: &litMatcher{
-																									pos:        position{line: 1654, col: 6, offset: 53828},
+																									pos:        position{line: 1655, col: 6, offset: 53853},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1654, col: 10, offset: 53832},
+																								pos:   position{line: 1655, col: 10, offset: 53857},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1655, col: 7, offset: 53846},
+																									pos: position{line: 1656, col: 7, offset: 53871},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1655, col: 7, offset: 53846},
+																											pos: position{line: 1656, col: 7, offset: 53871},
 																											run: (*parser).callonExtraListElement345,
 																											expr: &litMatcher{
-																												pos:        position{line: 1655, col: 7, offset: 53846},
+																												pos:        position{line: 1656, col: 7, offset: 53871},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1656, col: 7, offset: 53891},
+																											pos: position{line: 1657, col: 7, offset: 53916},
 																											run: (*parser).callonExtraListElement347,
 																											expr: &litMatcher{
-																												pos:        position{line: 1656, col: 7, offset: 53891},
+																												pos:        position{line: 1657, col: 7, offset: 53916},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1657, col: 7, offset: 53934},
+																											pos: position{line: 1658, col: 7, offset: 53959},
 																											run: (*parser).callonExtraListElement349,
 																											expr: &litMatcher{
-																												pos:        position{line: 1657, col: 7, offset: 53934},
+																												pos:        position{line: 1658, col: 7, offset: 53959},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -27604,12 +27604,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2884, col: 11, offset: 91378},
+																								pos: position{line: 2885, col: 11, offset: 91403},
 																								run: (*parser).callonExtraListElement351,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2884, col: 11, offset: 91378},
+																									pos: position{line: 2885, col: 11, offset: 91403},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2884, col: 11, offset: 91378},
+																										pos:        position{line: 2885, col: 11, offset: 91403},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27623,7 +27623,7 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1634, col: 5, offset: 53252},
+																			pos:   position{line: 1635, col: 5, offset: 53277},
 																			label: "content",
 																			expr: &actionExpr{
 																				pos: position{line: 1530, col: 5, offset: 49770},
@@ -27653,28 +27653,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2902, col: 8, offset: 91715},
+																							pos: position{line: 2903, col: 8, offset: 91740},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2889, col: 12, offset: 91488},
+																									pos: position{line: 2890, col: 12, offset: 91513},
 																									run: (*parser).callonExtraListElement363,
 																									expr: &choiceExpr{
-																										pos: position{line: 2889, col: 13, offset: 91489},
+																										pos: position{line: 2890, col: 13, offset: 91514},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 13, offset: 91489},
+																												pos:        position{line: 2890, col: 13, offset: 91514},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 20, offset: 91496},
+																												pos:        position{line: 2890, col: 20, offset: 91521},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 29, offset: 91505},
+																												pos:        position{line: 2890, col: 29, offset: 91530},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27683,9 +27683,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2899, col: 8, offset: 91665},
+																									pos: position{line: 2900, col: 8, offset: 91690},
 																									expr: &anyMatcher{
-																										line: 2899, col: 9, offset: 91666,
+																										line: 2900, col: 9, offset: 91691,
 																									},
 																								},
 																							},
@@ -27698,36 +27698,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1723, col: 5, offset: 55806},
+																pos: position{line: 1724, col: 5, offset: 55831},
 																run: (*parser).callonExtraListElement370,
 																expr: &seqExpr{
-																	pos: position{line: 1723, col: 5, offset: 55806},
+																	pos: position{line: 1724, col: 5, offset: 55831},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1723, col: 5, offset: 55806},
+																			pos:   position{line: 1724, col: 5, offset: 55831},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1729, col: 5, offset: 56003},
+																				pos: position{line: 1730, col: 5, offset: 56028},
 																				run: (*parser).callonExtraListElement373,
 																				expr: &seqExpr{
-																					pos: position{line: 1729, col: 5, offset: 56003},
+																					pos: position{line: 1730, col: 5, offset: 56028},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1729, col: 5, offset: 56003},
+																							pos:        position{line: 1730, col: 5, offset: 56028},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1729, col: 9, offset: 56007},
+																							pos:   position{line: 1730, col: 9, offset: 56032},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1729, col: 14, offset: 56012},
+																								pos: position{line: 1730, col: 14, offset: 56037},
 																								run: (*parser).callonExtraListElement377,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1729, col: 14, offset: 56012},
+																									pos: position{line: 1730, col: 14, offset: 56037},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1729, col: 14, offset: 56012},
+																										pos:        position{line: 1730, col: 14, offset: 56037},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -27737,18 +27737,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1729, col: 62, offset: 56060},
+																							pos:        position{line: 1730, col: 62, offset: 56085},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2884, col: 11, offset: 91378},
+																							pos: position{line: 2885, col: 11, offset: 91403},
 																							run: (*parser).callonExtraListElement381,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2884, col: 11, offset: 91378},
+																								pos: position{line: 2885, col: 11, offset: 91403},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2884, col: 11, offset: 91378},
+																									pos:        position{line: 2885, col: 11, offset: 91403},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27761,7 +27761,7 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1724, col: 5, offset: 55842},
+																			pos:   position{line: 1725, col: 5, offset: 55867},
 																			label: "description",
 																			expr: &actionExpr{
 																				pos: position{line: 1530, col: 5, offset: 49770},
@@ -27791,28 +27791,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2902, col: 8, offset: 91715},
+																							pos: position{line: 2903, col: 8, offset: 91740},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2889, col: 12, offset: 91488},
+																									pos: position{line: 2890, col: 12, offset: 91513},
 																									run: (*parser).callonExtraListElement393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2889, col: 13, offset: 91489},
+																										pos: position{line: 2890, col: 13, offset: 91514},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 13, offset: 91489},
+																												pos:        position{line: 2890, col: 13, offset: 91514},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 20, offset: 91496},
+																												pos:        position{line: 2890, col: 20, offset: 91521},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 29, offset: 91505},
+																												pos:        position{line: 2890, col: 29, offset: 91530},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27821,9 +27821,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2899, col: 8, offset: 91665},
+																									pos: position{line: 2900, col: 8, offset: 91690},
 																									expr: &anyMatcher{
-																										line: 2899, col: 9, offset: 91666,
+																										line: 2900, col: 9, offset: 91691,
 																									},
 																								},
 																							},
@@ -27836,35 +27836,35 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1666, col: 5, offset: 54127},
+																pos: position{line: 1667, col: 5, offset: 54152},
 																run: (*parser).callonExtraListElement400,
 																expr: &seqExpr{
-																	pos: position{line: 1666, col: 5, offset: 54127},
+																	pos: position{line: 1667, col: 5, offset: 54152},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1666, col: 5, offset: 54127},
+																			pos:   position{line: 1667, col: 5, offset: 54152},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1674, col: 5, offset: 54453},
+																				pos: position{line: 1675, col: 5, offset: 54478},
 																				run: (*parser).callonExtraListElement403,
 																				expr: &seqExpr{
-																					pos: position{line: 1674, col: 5, offset: 54453},
+																					pos: position{line: 1675, col: 5, offset: 54478},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1674, col: 5, offset: 54453},
+																							pos: position{line: 1675, col: 5, offset: 54478},
 																							expr: &seqExpr{
-																								pos: position{line: 2492, col: 31, offset: 80424},
+																								pos: position{line: 2493, col: 31, offset: 80449},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2492, col: 31, offset: 80424},
+																										pos:        position{line: 2493, col: 31, offset: 80449},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2492, col: 36, offset: 80429},
+																										pos: position{line: 2493, col: 36, offset: 80454},
 																										expr: &litMatcher{
-																											pos:        position{line: 2492, col: 37, offset: 80430},
+																											pos:        position{line: 2493, col: 37, offset: 80455},
 																											val:        "//",
 																											ignoreCase: false,
 																											want:       "\"//\"",
@@ -27874,28 +27874,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1675, col: 5, offset: 54485},
+																							pos: position{line: 1676, col: 5, offset: 54510},
 																							expr: &seqExpr{
-																								pos: position{line: 1675, col: 6, offset: 54486},
+																								pos: position{line: 1676, col: 6, offset: 54511},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1675, col: 6, offset: 54486},
+																										pos: position{line: 1676, col: 6, offset: 54511},
 																										expr: &actionExpr{
-																											pos: position{line: 1680, col: 5, offset: 54636},
+																											pos: position{line: 1681, col: 5, offset: 54661},
 																											run: (*parser).callonExtraListElement413,
 																											expr: &seqExpr{
-																												pos: position{line: 1680, col: 5, offset: 54636},
+																												pos: position{line: 1681, col: 5, offset: 54661},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1680, col: 5, offset: 54636},
+																														pos:   position{line: 1681, col: 5, offset: 54661},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1680, col: 16, offset: 54647},
+																															pos: position{line: 1681, col: 16, offset: 54672},
 																															run: (*parser).callonExtraListElement416,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1680, col: 16, offset: 54647},
+																																pos: position{line: 1681, col: 16, offset: 54672},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1680, col: 17, offset: 54648},
+																																	pos:        position{line: 1681, col: 17, offset: 54673},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -27904,7 +27904,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1683, col: 5, offset: 54705},
+																														pos: position{line: 1684, col: 5, offset: 54730},
 																														run: (*parser).callonExtraListElement419,
 																													},
 																												},
@@ -27912,30 +27912,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1675, col: 35, offset: 54515},
+																										pos: position{line: 1676, col: 35, offset: 54540},
 																										expr: &choiceExpr{
-																											pos: position{line: 2902, col: 8, offset: 91715},
+																											pos: position{line: 2903, col: 8, offset: 91740},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2889, col: 12, offset: 91488},
+																													pos: position{line: 2890, col: 12, offset: 91513},
 																													run: (*parser).callonExtraListElement422,
 																													expr: &choiceExpr{
-																														pos: position{line: 2889, col: 13, offset: 91489},
+																														pos: position{line: 2890, col: 13, offset: 91514},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 13, offset: 91489},
+																																pos:        position{line: 2890, col: 13, offset: 91514},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 20, offset: 91496},
+																																pos:        position{line: 2890, col: 20, offset: 91521},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 29, offset: 91505},
+																																pos:        position{line: 2890, col: 29, offset: 91530},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -27944,16 +27944,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2899, col: 8, offset: 91665},
+																													pos: position{line: 2900, col: 8, offset: 91690},
 																													expr: &anyMatcher{
-																														line: 2899, col: 9, offset: 91666,
+																														line: 2900, col: 9, offset: 91691,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1675, col: 40, offset: 54520,
+																										line: 1676, col: 40, offset: 54545,
 																									},
 																								},
 																							},
@@ -27963,24 +27963,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1667, col: 5, offset: 54162},
+																			pos:   position{line: 1668, col: 5, offset: 54187},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1680, col: 5, offset: 54636},
+																				pos: position{line: 1681, col: 5, offset: 54661},
 																				run: (*parser).callonExtraListElement431,
 																				expr: &seqExpr{
-																					pos: position{line: 1680, col: 5, offset: 54636},
+																					pos: position{line: 1681, col: 5, offset: 54661},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1680, col: 5, offset: 54636},
+																							pos:   position{line: 1681, col: 5, offset: 54661},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1680, col: 16, offset: 54647},
+																								pos: position{line: 1681, col: 16, offset: 54672},
 																								run: (*parser).callonExtraListElement434,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1680, col: 16, offset: 54647},
+																									pos: position{line: 1681, col: 16, offset: 54672},
 																									expr: &litMatcher{
-																										pos:        position{line: 1680, col: 17, offset: 54648},
+																										pos:        position{line: 1681, col: 17, offset: 54673},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -27989,7 +27989,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1683, col: 5, offset: 54705},
+																							pos: position{line: 1684, col: 5, offset: 54730},
 																							run: (*parser).callonExtraListElement437,
 																						},
 																					},
@@ -27997,24 +27997,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1668, col: 5, offset: 54207},
+																			pos:   position{line: 1669, col: 5, offset: 54232},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1691, col: 5, offset: 54954},
+																				pos: position{line: 1692, col: 5, offset: 54979},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1693, col: 9, offset: 55020},
+																						pos: position{line: 1694, col: 9, offset: 55045},
 																						run: (*parser).callonExtraListElement440,
 																						expr: &seqExpr{
-																							pos: position{line: 1693, col: 9, offset: 55020},
+																							pos: position{line: 1694, col: 9, offset: 55045},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1693, col: 9, offset: 55020},
+																									pos: position{line: 1694, col: 9, offset: 55045},
 																									expr: &actionExpr{
-																										pos: position{line: 2880, col: 10, offset: 91317},
+																										pos: position{line: 2881, col: 10, offset: 91342},
 																										run: (*parser).callonExtraListElement443,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2880, col: 10, offset: 91317},
+																											pos:        position{line: 2881, col: 10, offset: 91342},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28023,28 +28023,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2902, col: 8, offset: 91715},
+																									pos: position{line: 2903, col: 8, offset: 91740},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2889, col: 12, offset: 91488},
+																											pos: position{line: 2890, col: 12, offset: 91513},
 																											run: (*parser).callonExtraListElement446,
 																											expr: &choiceExpr{
-																												pos: position{line: 2889, col: 13, offset: 91489},
+																												pos: position{line: 2890, col: 13, offset: 91514},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2889, col: 13, offset: 91489},
+																														pos:        position{line: 2890, col: 13, offset: 91514},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2889, col: 20, offset: 91496},
+																														pos:        position{line: 2890, col: 20, offset: 91521},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2889, col: 29, offset: 91505},
+																														pos:        position{line: 2890, col: 29, offset: 91530},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28053,15 +28053,15 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2899, col: 8, offset: 91665},
+																											pos: position{line: 2900, col: 8, offset: 91690},
 																											expr: &anyMatcher{
-																												line: 2899, col: 9, offset: 91666,
+																												line: 2900, col: 9, offset: 91691,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1694, col: 9, offset: 55039},
+																									pos: position{line: 1695, col: 9, offset: 55064},
 																									expr: &actionExpr{
 																										pos: position{line: 677, col: 14, offset: 21525},
 																										run: (*parser).callonExtraListElement454,
@@ -28069,18 +28069,18 @@ var g = &grammar{
 																											pos: position{line: 677, col: 14, offset: 21525},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2897, col: 11, offset: 91651},
+																													pos: position{line: 2898, col: 11, offset: 91676},
 																													expr: &anyMatcher{
-																														line: 2897, col: 13, offset: 91653,
+																														line: 2898, col: 13, offset: 91678,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 677, col: 21, offset: 21532},
 																													expr: &actionExpr{
-																														pos: position{line: 2880, col: 10, offset: 91317},
+																														pos: position{line: 2881, col: 10, offset: 91342},
 																														run: (*parser).callonExtraListElement459,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2880, col: 10, offset: 91317},
+																															pos:        position{line: 2881, col: 10, offset: 91342},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -28089,28 +28089,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2902, col: 8, offset: 91715},
+																													pos: position{line: 2903, col: 8, offset: 91740},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2889, col: 12, offset: 91488},
+																															pos: position{line: 2890, col: 12, offset: 91513},
 																															run: (*parser).callonExtraListElement462,
 																															expr: &choiceExpr{
-																																pos: position{line: 2889, col: 13, offset: 91489},
+																																pos: position{line: 2890, col: 13, offset: 91514},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2889, col: 13, offset: 91489},
+																																		pos:        position{line: 2890, col: 13, offset: 91514},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2889, col: 20, offset: 91496},
+																																		pos:        position{line: 2890, col: 20, offset: 91521},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2889, col: 29, offset: 91505},
+																																		pos:        position{line: 2890, col: 29, offset: 91530},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -28119,9 +28119,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2899, col: 8, offset: 91665},
+																															pos: position{line: 2900, col: 8, offset: 91690},
 																															expr: &anyMatcher{
-																																line: 2899, col: 9, offset: 91666,
+																																line: 2900, col: 9, offset: 91691,
 																															},
 																														},
 																													},
@@ -28134,18 +28134,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1700, col: 9, offset: 55168},
+																						pos: position{line: 1701, col: 9, offset: 55193},
 																						run: (*parser).callonExtraListElement469,
 																						expr: &seqExpr{
-																							pos: position{line: 1700, col: 9, offset: 55168},
+																							pos: position{line: 1701, col: 9, offset: 55193},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2884, col: 11, offset: 91378},
+																									pos: position{line: 2885, col: 11, offset: 91403},
 																									run: (*parser).callonExtraListElement471,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2884, col: 11, offset: 91378},
+																										pos: position{line: 2885, col: 11, offset: 91403},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2884, col: 11, offset: 91378},
+																											pos:        position{line: 2885, col: 11, offset: 91403},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28154,15 +28154,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1701, col: 9, offset: 55241},
+																									pos:   position{line: 1702, col: 9, offset: 55266},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1701, col: 18, offset: 55250},
+																										pos: position{line: 1702, col: 18, offset: 55275},
 																										run: (*parser).callonExtraListElement475,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1701, col: 18, offset: 55250},
+																											pos: position{line: 1702, col: 18, offset: 55275},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1701, col: 18, offset: 55250},
+																												pos:        position{line: 1702, col: 18, offset: 55275},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -28172,28 +28172,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2902, col: 8, offset: 91715},
+																									pos: position{line: 2903, col: 8, offset: 91740},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2889, col: 12, offset: 91488},
+																											pos: position{line: 2890, col: 12, offset: 91513},
 																											run: (*parser).callonExtraListElement479,
 																											expr: &choiceExpr{
-																												pos: position{line: 2889, col: 13, offset: 91489},
+																												pos: position{line: 2890, col: 13, offset: 91514},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2889, col: 13, offset: 91489},
+																														pos:        position{line: 2890, col: 13, offset: 91514},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2889, col: 20, offset: 91496},
+																														pos:        position{line: 2890, col: 20, offset: 91521},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2889, col: 29, offset: 91505},
+																														pos:        position{line: 2890, col: 29, offset: 91530},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28202,9 +28202,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2899, col: 8, offset: 91665},
+																											pos: position{line: 2900, col: 8, offset: 91690},
 																											expr: &anyMatcher{
-																												line: 2899, col: 9, offset: 91666,
+																												line: 2900, col: 9, offset: 91691,
 																											},
 																										},
 																									},
@@ -28229,36 +28229,36 @@ var g = &grammar{
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2487, col: 22, offset: 80203},
+										pos: position{line: 2488, col: 22, offset: 80228},
 										run: (*parser).callonExtraListElement487,
 										expr: &seqExpr{
-											pos: position{line: 2487, col: 22, offset: 80203},
+											pos: position{line: 2488, col: 22, offset: 80228},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2492, col: 31, offset: 80424},
+													pos:        position{line: 2493, col: 31, offset: 80449},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2492, col: 36, offset: 80429},
+													pos: position{line: 2493, col: 36, offset: 80454},
 													expr: &litMatcher{
-														pos:        position{line: 2492, col: 37, offset: 80430},
+														pos:        position{line: 2493, col: 37, offset: 80455},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2487, col: 49, offset: 80230},
+													pos:   position{line: 2488, col: 49, offset: 80255},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2826, col: 13, offset: 89843},
+														pos: position{line: 2827, col: 13, offset: 89868},
 														run: (*parser).callonExtraListElement493,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2826, col: 13, offset: 89843},
+															pos: position{line: 2827, col: 13, offset: 89868},
 															expr: &charClassMatcher{
-																pos:        position{line: 2826, col: 13, offset: 89843},
+																pos:        position{line: 2827, col: 13, offset: 89868},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -28268,28 +28268,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2902, col: 8, offset: 91715},
+													pos: position{line: 2903, col: 8, offset: 91740},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2889, col: 12, offset: 91488},
+															pos: position{line: 2890, col: 12, offset: 91513},
 															run: (*parser).callonExtraListElement497,
 															expr: &choiceExpr{
-																pos: position{line: 2889, col: 13, offset: 91489},
+																pos: position{line: 2890, col: 13, offset: 91514},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2889, col: 13, offset: 91489},
+																		pos:        position{line: 2890, col: 13, offset: 91514},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2889, col: 20, offset: 91496},
+																		pos:        position{line: 2890, col: 20, offset: 91521},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2889, col: 29, offset: 91505},
+																		pos:        position{line: 2890, col: 29, offset: 91530},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -28298,9 +28298,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2899, col: 8, offset: 91665},
+															pos: position{line: 2900, col: 8, offset: 91690},
 															expr: &anyMatcher{
-																line: 2899, col: 9, offset: 91666,
+																line: 2900, col: 9, offset: 91691,
 															},
 														},
 													},
@@ -28323,18 +28323,18 @@ var g = &grammar{
 															pos: position{line: 677, col: 14, offset: 21525},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2897, col: 11, offset: 91651},
+																	pos: position{line: 2898, col: 11, offset: 91676},
 																	expr: &anyMatcher{
-																		line: 2897, col: 13, offset: 91653,
+																		line: 2898, col: 13, offset: 91678,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 677, col: 21, offset: 21532},
 																	expr: &actionExpr{
-																		pos: position{line: 2880, col: 10, offset: 91317},
+																		pos: position{line: 2881, col: 10, offset: 91342},
 																		run: (*parser).callonExtraListElement512,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 10, offset: 91317},
+																			pos:        position{line: 2881, col: 10, offset: 91342},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28343,28 +28343,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2902, col: 8, offset: 91715},
+																	pos: position{line: 2903, col: 8, offset: 91740},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2889, col: 12, offset: 91488},
+																			pos: position{line: 2890, col: 12, offset: 91513},
 																			run: (*parser).callonExtraListElement515,
 																			expr: &choiceExpr{
-																				pos: position{line: 2889, col: 13, offset: 91489},
+																				pos: position{line: 2890, col: 13, offset: 91514},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 13, offset: 91489},
+																						pos:        position{line: 2890, col: 13, offset: 91514},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 20, offset: 91496},
+																						pos:        position{line: 2890, col: 20, offset: 91521},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 29, offset: 91505},
+																						pos:        position{line: 2890, col: 29, offset: 91530},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -28373,9 +28373,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2899, col: 8, offset: 91665},
+																			pos: position{line: 2900, col: 8, offset: 91690},
 																			expr: &anyMatcher{
-																				line: 2899, col: 9, offset: 91666,
+																				line: 2900, col: 9, offset: 91691,
 																			},
 																		},
 																	},
@@ -28398,10 +28398,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1548, col: 31, offset: 50257},
 																expr: &actionExpr{
-																	pos: position{line: 2880, col: 10, offset: 91317},
+																	pos: position{line: 2881, col: 10, offset: 91342},
 																	run: (*parser).callonExtraListElement526,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2880, col: 10, offset: 91317},
+																		pos:        position{line: 2881, col: 10, offset: 91342},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -28410,25 +28410,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2889, col: 12, offset: 91488},
+																pos: position{line: 2890, col: 12, offset: 91513},
 																run: (*parser).callonExtraListElement528,
 																expr: &choiceExpr{
-																	pos: position{line: 2889, col: 13, offset: 91489},
+																	pos: position{line: 2890, col: 13, offset: 91514},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2889, col: 13, offset: 91489},
+																			pos:        position{line: 2890, col: 13, offset: 91514},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2889, col: 20, offset: 91496},
+																			pos:        position{line: 2890, col: 20, offset: 91521},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2889, col: 29, offset: 91505},
+																			pos:        position{line: 2890, col: 29, offset: 91530},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -28442,18 +28442,18 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1519, col: 5, offset: 49455},
 													expr: &actionExpr{
-														pos: position{line: 1589, col: 5, offset: 51472},
+														pos: position{line: 1590, col: 5, offset: 51497},
 														run: (*parser).callonExtraListElement534,
 														expr: &seqExpr{
-															pos: position{line: 1589, col: 5, offset: 51472},
+															pos: position{line: 1590, col: 5, offset: 51497},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1589, col: 5, offset: 51472},
+																	pos: position{line: 1590, col: 5, offset: 51497},
 																	expr: &actionExpr{
-																		pos: position{line: 2880, col: 10, offset: 91317},
+																		pos: position{line: 2881, col: 10, offset: 91342},
 																		run: (*parser).callonExtraListElement537,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 10, offset: 91317},
+																			pos:        position{line: 2881, col: 10, offset: 91342},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28462,27 +28462,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1589, col: 12, offset: 51479},
+																	pos:   position{line: 1590, col: 12, offset: 51504},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1591, col: 9, offset: 51542},
+																		pos: position{line: 1592, col: 9, offset: 51567},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1591, col: 9, offset: 51542},
+																				pos: position{line: 1592, col: 9, offset: 51567},
 																				run: (*parser).callonExtraListElement541,
 																				expr: &seqExpr{
-																					pos: position{line: 1591, col: 9, offset: 51542},
+																					pos: position{line: 1592, col: 9, offset: 51567},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1591, col: 9, offset: 51542},
+																							pos:   position{line: 1592, col: 9, offset: 51567},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1591, col: 16, offset: 51549},
+																								pos: position{line: 1592, col: 16, offset: 51574},
 																								run: (*parser).callonExtraListElement544,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1591, col: 16, offset: 51549},
+																									pos: position{line: 1592, col: 16, offset: 51574},
 																									expr: &litMatcher{
-																										pos:        position{line: 1591, col: 17, offset: 51550},
+																										pos:        position{line: 1592, col: 17, offset: 51575},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -28491,22 +28491,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1595, col: 9, offset: 51650},
+																							pos: position{line: 1596, col: 9, offset: 51675},
 																							run: (*parser).callonExtraListElement547,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1614, col: 11, offset: 52367},
+																				pos: position{line: 1615, col: 11, offset: 52392},
 																				run: (*parser).callonExtraListElement548,
 																				expr: &seqExpr{
-																					pos: position{line: 1614, col: 11, offset: 52367},
+																					pos: position{line: 1615, col: 11, offset: 52392},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1614, col: 11, offset: 52367},
+																							pos: position{line: 1615, col: 11, offset: 52392},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1614, col: 12, offset: 52368},
+																								pos:        position{line: 1615, col: 12, offset: 52393},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -28514,7 +28514,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1614, col: 20, offset: 52376},
+																							pos:        position{line: 1615, col: 20, offset: 52401},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28523,20 +28523,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1616, col: 13, offset: 52493},
+																				pos: position{line: 1617, col: 13, offset: 52518},
 																				run: (*parser).callonExtraListElement553,
 																				expr: &seqExpr{
-																					pos: position{line: 1616, col: 13, offset: 52493},
+																					pos: position{line: 1617, col: 13, offset: 52518},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1616, col: 14, offset: 52494},
+																							pos:        position{line: 1617, col: 14, offset: 52519},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1616, col: 21, offset: 52501},
+																							pos:        position{line: 1617, col: 21, offset: 52526},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28545,20 +28545,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1618, col: 13, offset: 52621},
+																				pos: position{line: 1619, col: 13, offset: 52646},
 																				run: (*parser).callonExtraListElement557,
 																				expr: &seqExpr{
-																					pos: position{line: 1618, col: 13, offset: 52621},
+																					pos: position{line: 1619, col: 13, offset: 52646},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1618, col: 14, offset: 52622},
+																							pos:        position{line: 1619, col: 14, offset: 52647},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1618, col: 21, offset: 52629},
+																							pos:        position{line: 1619, col: 21, offset: 52654},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28567,15 +28567,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1620, col: 13, offset: 52749},
+																				pos: position{line: 1621, col: 13, offset: 52774},
 																				run: (*parser).callonExtraListElement561,
 																				expr: &seqExpr{
-																					pos: position{line: 1620, col: 13, offset: 52749},
+																					pos: position{line: 1621, col: 13, offset: 52774},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1620, col: 13, offset: 52749},
+																							pos: position{line: 1621, col: 13, offset: 52774},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1620, col: 14, offset: 52750},
+																								pos:        position{line: 1621, col: 14, offset: 52775},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -28583,7 +28583,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1620, col: 26, offset: 52762},
+																							pos:        position{line: 1621, col: 26, offset: 52787},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -28592,15 +28592,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1622, col: 13, offset: 52882},
+																				pos: position{line: 1623, col: 13, offset: 52907},
 																				run: (*parser).callonExtraListElement566,
 																				expr: &seqExpr{
-																					pos: position{line: 1622, col: 13, offset: 52882},
+																					pos: position{line: 1623, col: 13, offset: 52907},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1622, col: 13, offset: 52882},
+																							pos: position{line: 1623, col: 13, offset: 52907},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1622, col: 14, offset: 52883},
+																								pos:        position{line: 1623, col: 14, offset: 52908},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -28608,7 +28608,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1622, col: 26, offset: 52895},
+																							pos:        position{line: 1623, col: 26, offset: 52920},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -28620,12 +28620,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2884, col: 11, offset: 91378},
+																	pos: position{line: 2885, col: 11, offset: 91403},
 																	run: (*parser).callonExtraListElement571,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2884, col: 11, offset: 91378},
+																		pos: position{line: 2885, col: 11, offset: 91403},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2884, col: 11, offset: 91378},
+																			pos:        position{line: 2885, col: 11, offset: 91403},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28640,18 +28640,18 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1520, col: 5, offset: 49485},
 													expr: &actionExpr{
-														pos: position{line: 1639, col: 5, offset: 53434},
+														pos: position{line: 1640, col: 5, offset: 53459},
 														run: (*parser).callonExtraListElement575,
 														expr: &seqExpr{
-															pos: position{line: 1639, col: 5, offset: 53434},
+															pos: position{line: 1640, col: 5, offset: 53459},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1639, col: 5, offset: 53434},
+																	pos: position{line: 1640, col: 5, offset: 53459},
 																	expr: &actionExpr{
-																		pos: position{line: 2880, col: 10, offset: 91317},
+																		pos: position{line: 2881, col: 10, offset: 91342},
 																		run: (*parser).callonExtraListElement578,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 10, offset: 91317},
+																			pos:        position{line: 2881, col: 10, offset: 91342},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28660,24 +28660,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1640, col: 5, offset: 53446},
+																	pos:   position{line: 1641, col: 5, offset: 53471},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1641, col: 9, offset: 53462},
+																		pos: position{line: 1642, col: 9, offset: 53487},
 																		run: (*parser).callonExtraListElement581,
 																		expr: &choiceExpr{
-																			pos: position{line: 1641, col: 10, offset: 53463},
+																			pos: position{line: 1642, col: 10, offset: 53488},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1641, col: 11, offset: 53464},
+																					pos:        position{line: 1642, col: 11, offset: 53489},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1641, col: 18, offset: 53471},
+																					pos: position{line: 1642, col: 18, offset: 53496},
 																					expr: &litMatcher{
-																						pos:        position{line: 1641, col: 19, offset: 53472},
+																						pos:        position{line: 1642, col: 19, offset: 53497},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -28688,16 +28688,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1644, col: 7, offset: 53562},
+																	pos: position{line: 1645, col: 7, offset: 53587},
 																	run: (*parser).callonExtraListElement586,
 																},
 																&actionExpr{
-																	pos: position{line: 2884, col: 11, offset: 91378},
+																	pos: position{line: 2885, col: 11, offset: 91403},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2884, col: 11, offset: 91378},
+																		pos: position{line: 2885, col: 11, offset: 91403},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2884, col: 11, offset: 91378},
+																			pos:        position{line: 2885, col: 11, offset: 91403},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28712,27 +28712,27 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1521, col: 5, offset: 49517},
 													expr: &actionExpr{
-														pos: position{line: 1729, col: 5, offset: 56003},
+														pos: position{line: 1730, col: 5, offset: 56028},
 														run: (*parser).callonExtraListElement591,
 														expr: &seqExpr{
-															pos: position{line: 1729, col: 5, offset: 56003},
+															pos: position{line: 1730, col: 5, offset: 56028},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1729, col: 5, offset: 56003},
+																	pos:        position{line: 1730, col: 5, offset: 56028},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1729, col: 9, offset: 56007},
+																	pos:   position{line: 1730, col: 9, offset: 56032},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1729, col: 14, offset: 56012},
+																		pos: position{line: 1730, col: 14, offset: 56037},
 																		run: (*parser).callonExtraListElement595,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1729, col: 14, offset: 56012},
+																			pos: position{line: 1730, col: 14, offset: 56037},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1729, col: 14, offset: 56012},
+																				pos:        position{line: 1730, col: 14, offset: 56037},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -28742,18 +28742,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1729, col: 62, offset: 56060},
+																	pos:        position{line: 1730, col: 62, offset: 56085},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2884, col: 11, offset: 91378},
+																	pos: position{line: 2885, col: 11, offset: 91403},
 																	run: (*parser).callonExtraListElement599,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2884, col: 11, offset: 91378},
+																		pos: position{line: 2885, col: 11, offset: 91403},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2884, col: 11, offset: 91378},
+																			pos:        position{line: 2885, col: 11, offset: 91403},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28771,26 +28771,26 @@ var g = &grammar{
 														pos: position{line: 1522, col: 7, offset: 49549},
 														exprs: []interface{}{
 															&actionExpr{
-																pos: position{line: 1674, col: 5, offset: 54453},
+																pos: position{line: 1675, col: 5, offset: 54478},
 																run: (*parser).callonExtraListElement604,
 																expr: &seqExpr{
-																	pos: position{line: 1674, col: 5, offset: 54453},
+																	pos: position{line: 1675, col: 5, offset: 54478},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1674, col: 5, offset: 54453},
+																			pos: position{line: 1675, col: 5, offset: 54478},
 																			expr: &seqExpr{
-																				pos: position{line: 2492, col: 31, offset: 80424},
+																				pos: position{line: 2493, col: 31, offset: 80449},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2492, col: 31, offset: 80424},
+																						pos:        position{line: 2493, col: 31, offset: 80449},
 																						val:        "//",
 																						ignoreCase: false,
 																						want:       "\"//\"",
 																					},
 																					&notExpr{
-																						pos: position{line: 2492, col: 36, offset: 80429},
+																						pos: position{line: 2493, col: 36, offset: 80454},
 																						expr: &litMatcher{
-																							pos:        position{line: 2492, col: 37, offset: 80430},
+																							pos:        position{line: 2493, col: 37, offset: 80455},
 																							val:        "//",
 																							ignoreCase: false,
 																							want:       "\"//\"",
@@ -28800,28 +28800,28 @@ var g = &grammar{
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 1675, col: 5, offset: 54485},
+																			pos: position{line: 1676, col: 5, offset: 54510},
 																			expr: &seqExpr{
-																				pos: position{line: 1675, col: 6, offset: 54486},
+																				pos: position{line: 1676, col: 6, offset: 54511},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1675, col: 6, offset: 54486},
+																						pos: position{line: 1676, col: 6, offset: 54511},
 																						expr: &actionExpr{
-																							pos: position{line: 1680, col: 5, offset: 54636},
+																							pos: position{line: 1681, col: 5, offset: 54661},
 																							run: (*parser).callonExtraListElement614,
 																							expr: &seqExpr{
-																								pos: position{line: 1680, col: 5, offset: 54636},
+																								pos: position{line: 1681, col: 5, offset: 54661},
 																								exprs: []interface{}{
 																									&labeledExpr{
-																										pos:   position{line: 1680, col: 5, offset: 54636},
+																										pos:   position{line: 1681, col: 5, offset: 54661},
 																										label: "separator",
 																										expr: &actionExpr{
-																											pos: position{line: 1680, col: 16, offset: 54647},
+																											pos: position{line: 1681, col: 16, offset: 54672},
 																											run: (*parser).callonExtraListElement617,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1680, col: 16, offset: 54647},
+																												pos: position{line: 1681, col: 16, offset: 54672},
 																												expr: &litMatcher{
-																													pos:        position{line: 1680, col: 17, offset: 54648},
+																													pos:        position{line: 1681, col: 17, offset: 54673},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
@@ -28830,7 +28830,7 @@ var g = &grammar{
 																										},
 																									},
 																									&andCodeExpr{
-																										pos: position{line: 1683, col: 5, offset: 54705},
+																										pos: position{line: 1684, col: 5, offset: 54730},
 																										run: (*parser).callonExtraListElement620,
 																									},
 																								},
@@ -28838,30 +28838,30 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1675, col: 35, offset: 54515},
+																						pos: position{line: 1676, col: 35, offset: 54540},
 																						expr: &choiceExpr{
-																							pos: position{line: 2902, col: 8, offset: 91715},
+																							pos: position{line: 2903, col: 8, offset: 91740},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2889, col: 12, offset: 91488},
+																									pos: position{line: 2890, col: 12, offset: 91513},
 																									run: (*parser).callonExtraListElement623,
 																									expr: &choiceExpr{
-																										pos: position{line: 2889, col: 13, offset: 91489},
+																										pos: position{line: 2890, col: 13, offset: 91514},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 13, offset: 91489},
+																												pos:        position{line: 2890, col: 13, offset: 91514},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 20, offset: 91496},
+																												pos:        position{line: 2890, col: 20, offset: 91521},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 29, offset: 91505},
+																												pos:        position{line: 2890, col: 29, offset: 91530},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28870,16 +28870,16 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2899, col: 8, offset: 91665},
+																									pos: position{line: 2900, col: 8, offset: 91690},
 																									expr: &anyMatcher{
-																										line: 2899, col: 9, offset: 91666,
+																										line: 2900, col: 9, offset: 91691,
 																									},
 																								},
 																							},
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1675, col: 40, offset: 54520,
+																						line: 1676, col: 40, offset: 54545,
 																					},
 																				},
 																			},
@@ -28888,21 +28888,21 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1680, col: 5, offset: 54636},
+																pos: position{line: 1681, col: 5, offset: 54661},
 																run: (*parser).callonExtraListElement631,
 																expr: &seqExpr{
-																	pos: position{line: 1680, col: 5, offset: 54636},
+																	pos: position{line: 1681, col: 5, offset: 54661},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1680, col: 5, offset: 54636},
+																			pos:   position{line: 1681, col: 5, offset: 54661},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1680, col: 16, offset: 54647},
+																				pos: position{line: 1681, col: 16, offset: 54672},
 																				run: (*parser).callonExtraListElement634,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1680, col: 16, offset: 54647},
+																					pos: position{line: 1681, col: 16, offset: 54672},
 																					expr: &litMatcher{
-																						pos:        position{line: 1680, col: 17, offset: 54648},
+																						pos:        position{line: 1681, col: 17, offset: 54673},
 																						val:        ":",
 																						ignoreCase: false,
 																						want:       "\":\"",
@@ -28911,7 +28911,7 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1683, col: 5, offset: 54705},
+																			pos: position{line: 1684, col: 5, offset: 54730},
 																			run: (*parser).callonExtraListElement637,
 																		},
 																	},
@@ -28931,7 +28931,7 @@ var g = &grammar{
 																&notExpr{
 																	pos: position{line: 725, col: 5, offset: 23101},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2770, col: 13, offset: 88391},
+																		pos:        position{line: 2771, col: 13, offset: 88416},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -28981,10 +28981,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 743, col: 8, offset: 23745},
 																							expr: &actionExpr{
-																								pos: position{line: 2880, col: 10, offset: 91317},
+																								pos: position{line: 2881, col: 10, offset: 91342},
 																								run: (*parser).callonExtraListElement654,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 10, offset: 91317},
+																									pos:        position{line: 2881, col: 10, offset: 91342},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28993,28 +28993,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2902, col: 8, offset: 91715},
+																							pos: position{line: 2903, col: 8, offset: 91740},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2889, col: 12, offset: 91488},
+																									pos: position{line: 2890, col: 12, offset: 91513},
 																									run: (*parser).callonExtraListElement657,
 																									expr: &choiceExpr{
-																										pos: position{line: 2889, col: 13, offset: 91489},
+																										pos: position{line: 2890, col: 13, offset: 91514},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 13, offset: 91489},
+																												pos:        position{line: 2890, col: 13, offset: 91514},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 20, offset: 91496},
+																												pos:        position{line: 2890, col: 20, offset: 91521},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 29, offset: 91505},
+																												pos:        position{line: 2890, col: 29, offset: 91530},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29023,9 +29023,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2899, col: 8, offset: 91665},
+																									pos: position{line: 2900, col: 8, offset: 91690},
 																									expr: &anyMatcher{
-																										line: 2899, col: 9, offset: 91666,
+																										line: 2900, col: 9, offset: 91691,
 																									},
 																								},
 																							},
@@ -29070,10 +29070,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 750, col: 8, offset: 23993},
 																							expr: &actionExpr{
-																								pos: position{line: 2880, col: 10, offset: 91317},
+																								pos: position{line: 2881, col: 10, offset: 91342},
 																								run: (*parser).callonExtraListElement673,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 10, offset: 91317},
+																									pos:        position{line: 2881, col: 10, offset: 91342},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29082,28 +29082,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2902, col: 8, offset: 91715},
+																							pos: position{line: 2903, col: 8, offset: 91740},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2889, col: 12, offset: 91488},
+																									pos: position{line: 2890, col: 12, offset: 91513},
 																									run: (*parser).callonExtraListElement676,
 																									expr: &choiceExpr{
-																										pos: position{line: 2889, col: 13, offset: 91489},
+																										pos: position{line: 2890, col: 13, offset: 91514},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 13, offset: 91489},
+																												pos:        position{line: 2890, col: 13, offset: 91514},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 20, offset: 91496},
+																												pos:        position{line: 2890, col: 20, offset: 91521},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 29, offset: 91505},
+																												pos:        position{line: 2890, col: 29, offset: 91530},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29112,9 +29112,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2899, col: 8, offset: 91665},
+																									pos: position{line: 2900, col: 8, offset: 91690},
 																									expr: &anyMatcher{
-																										line: 2899, col: 9, offset: 91666,
+																										line: 2900, col: 9, offset: 91691,
 																									},
 																								},
 																							},
@@ -29155,10 +29155,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 761, col: 52, offset: 24405},
 																							expr: &actionExpr{
-																								pos: position{line: 2880, col: 10, offset: 91317},
+																								pos: position{line: 2881, col: 10, offset: 91342},
 																								run: (*parser).callonExtraListElement691,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 10, offset: 91317},
+																									pos:        position{line: 2881, col: 10, offset: 91342},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29167,28 +29167,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2902, col: 8, offset: 91715},
+																							pos: position{line: 2903, col: 8, offset: 91740},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2889, col: 12, offset: 91488},
+																									pos: position{line: 2890, col: 12, offset: 91513},
 																									run: (*parser).callonExtraListElement694,
 																									expr: &choiceExpr{
-																										pos: position{line: 2889, col: 13, offset: 91489},
+																										pos: position{line: 2890, col: 13, offset: 91514},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 13, offset: 91489},
+																												pos:        position{line: 2890, col: 13, offset: 91514},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 20, offset: 91496},
+																												pos:        position{line: 2890, col: 20, offset: 91521},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 29, offset: 91505},
+																												pos:        position{line: 2890, col: 29, offset: 91530},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29197,9 +29197,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2899, col: 8, offset: 91665},
+																									pos: position{line: 2900, col: 8, offset: 91690},
 																									expr: &anyMatcher{
-																										line: 2899, col: 9, offset: 91666,
+																										line: 2900, col: 9, offset: 91691,
 																									},
 																								},
 																							},
@@ -29244,10 +29244,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 757, col: 8, offset: 24239},
 																							expr: &actionExpr{
-																								pos: position{line: 2880, col: 10, offset: 91317},
+																								pos: position{line: 2881, col: 10, offset: 91342},
 																								run: (*parser).callonExtraListElement710,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 10, offset: 91317},
+																									pos:        position{line: 2881, col: 10, offset: 91342},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29256,28 +29256,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2902, col: 8, offset: 91715},
+																							pos: position{line: 2903, col: 8, offset: 91740},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2889, col: 12, offset: 91488},
+																									pos: position{line: 2890, col: 12, offset: 91513},
 																									run: (*parser).callonExtraListElement713,
 																									expr: &choiceExpr{
-																										pos: position{line: 2889, col: 13, offset: 91489},
+																										pos: position{line: 2890, col: 13, offset: 91514},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 13, offset: 91489},
+																												pos:        position{line: 2890, col: 13, offset: 91514},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 20, offset: 91496},
+																												pos:        position{line: 2890, col: 20, offset: 91521},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 29, offset: 91505},
+																												pos:        position{line: 2890, col: 29, offset: 91530},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29286,9 +29286,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2899, col: 8, offset: 91665},
+																									pos: position{line: 2900, col: 8, offset: 91690},
 																									expr: &anyMatcher{
-																										line: 2899, col: 9, offset: 91666,
+																										line: 2900, col: 9, offset: 91691,
 																									},
 																								},
 																							},
@@ -29333,10 +29333,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 772, col: 8, offset: 24782},
 																							expr: &actionExpr{
-																								pos: position{line: 2880, col: 10, offset: 91317},
+																								pos: position{line: 2881, col: 10, offset: 91342},
 																								run: (*parser).callonExtraListElement729,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 10, offset: 91317},
+																									pos:        position{line: 2881, col: 10, offset: 91342},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29345,28 +29345,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2902, col: 8, offset: 91715},
+																							pos: position{line: 2903, col: 8, offset: 91740},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2889, col: 12, offset: 91488},
+																									pos: position{line: 2890, col: 12, offset: 91513},
 																									run: (*parser).callonExtraListElement732,
 																									expr: &choiceExpr{
-																										pos: position{line: 2889, col: 13, offset: 91489},
+																										pos: position{line: 2890, col: 13, offset: 91514},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 13, offset: 91489},
+																												pos:        position{line: 2890, col: 13, offset: 91514},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 20, offset: 91496},
+																												pos:        position{line: 2890, col: 20, offset: 91521},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 29, offset: 91505},
+																												pos:        position{line: 2890, col: 29, offset: 91530},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29375,9 +29375,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2899, col: 8, offset: 91665},
+																									pos: position{line: 2900, col: 8, offset: 91690},
 																									expr: &anyMatcher{
-																										line: 2899, col: 9, offset: 91666,
+																										line: 2900, col: 9, offset: 91691,
 																									},
 																								},
 																							},
@@ -29422,10 +29422,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 786, col: 8, offset: 25258},
 																							expr: &actionExpr{
-																								pos: position{line: 2880, col: 10, offset: 91317},
+																								pos: position{line: 2881, col: 10, offset: 91342},
 																								run: (*parser).callonExtraListElement748,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 10, offset: 91317},
+																									pos:        position{line: 2881, col: 10, offset: 91342},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29434,28 +29434,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2902, col: 8, offset: 91715},
+																							pos: position{line: 2903, col: 8, offset: 91740},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2889, col: 12, offset: 91488},
+																									pos: position{line: 2890, col: 12, offset: 91513},
 																									run: (*parser).callonExtraListElement751,
 																									expr: &choiceExpr{
-																										pos: position{line: 2889, col: 13, offset: 91489},
+																										pos: position{line: 2890, col: 13, offset: 91514},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 13, offset: 91489},
+																												pos:        position{line: 2890, col: 13, offset: 91514},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 20, offset: 91496},
+																												pos:        position{line: 2890, col: 20, offset: 91521},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 29, offset: 91505},
+																												pos:        position{line: 2890, col: 29, offset: 91530},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29464,9 +29464,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2899, col: 8, offset: 91665},
+																									pos: position{line: 2900, col: 8, offset: 91690},
 																									expr: &anyMatcher{
-																										line: 2899, col: 9, offset: 91666,
+																										line: 2900, col: 9, offset: 91691,
 																									},
 																								},
 																							},
@@ -29511,10 +29511,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 793, col: 8, offset: 25510},
 																							expr: &actionExpr{
-																								pos: position{line: 2880, col: 10, offset: 91317},
+																								pos: position{line: 2881, col: 10, offset: 91342},
 																								run: (*parser).callonExtraListElement767,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 10, offset: 91317},
+																									pos:        position{line: 2881, col: 10, offset: 91342},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29523,28 +29523,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2902, col: 8, offset: 91715},
+																							pos: position{line: 2903, col: 8, offset: 91740},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2889, col: 12, offset: 91488},
+																									pos: position{line: 2890, col: 12, offset: 91513},
 																									run: (*parser).callonExtraListElement770,
 																									expr: &choiceExpr{
-																										pos: position{line: 2889, col: 13, offset: 91489},
+																										pos: position{line: 2890, col: 13, offset: 91514},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 13, offset: 91489},
+																												pos:        position{line: 2890, col: 13, offset: 91514},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 20, offset: 91496},
+																												pos:        position{line: 2890, col: 20, offset: 91521},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 29, offset: 91505},
+																												pos:        position{line: 2890, col: 29, offset: 91530},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29553,9 +29553,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2899, col: 8, offset: 91665},
+																									pos: position{line: 2900, col: 8, offset: 91690},
 																									expr: &anyMatcher{
-																										line: 2899, col: 9, offset: 91666,
+																										line: 2900, col: 9, offset: 91691,
 																									},
 																								},
 																							},
@@ -29600,10 +29600,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 800, col: 8, offset: 25760},
 																							expr: &actionExpr{
-																								pos: position{line: 2880, col: 10, offset: 91317},
+																								pos: position{line: 2881, col: 10, offset: 91342},
 																								run: (*parser).callonExtraListElement786,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 10, offset: 91317},
+																									pos:        position{line: 2881, col: 10, offset: 91342},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29612,28 +29612,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2902, col: 8, offset: 91715},
+																							pos: position{line: 2903, col: 8, offset: 91740},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2889, col: 12, offset: 91488},
+																									pos: position{line: 2890, col: 12, offset: 91513},
 																									run: (*parser).callonExtraListElement789,
 																									expr: &choiceExpr{
-																										pos: position{line: 2889, col: 13, offset: 91489},
+																										pos: position{line: 2890, col: 13, offset: 91514},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 13, offset: 91489},
+																												pos:        position{line: 2890, col: 13, offset: 91514},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 20, offset: 91496},
+																												pos:        position{line: 2890, col: 20, offset: 91521},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 29, offset: 91505},
+																												pos:        position{line: 2890, col: 29, offset: 91530},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29642,9 +29642,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2899, col: 8, offset: 91665},
+																									pos: position{line: 2900, col: 8, offset: 91690},
 																									expr: &anyMatcher{
-																										line: 2899, col: 9, offset: 91666,
+																										line: 2900, col: 9, offset: 91691,
 																									},
 																								},
 																							},
@@ -29689,10 +29689,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 807, col: 8, offset: 26006},
 																							expr: &actionExpr{
-																								pos: position{line: 2880, col: 10, offset: 91317},
+																								pos: position{line: 2881, col: 10, offset: 91342},
 																								run: (*parser).callonExtraListElement805,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 10, offset: 91317},
+																									pos:        position{line: 2881, col: 10, offset: 91342},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29701,28 +29701,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2902, col: 8, offset: 91715},
+																							pos: position{line: 2903, col: 8, offset: 91740},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2889, col: 12, offset: 91488},
+																									pos: position{line: 2890, col: 12, offset: 91513},
 																									run: (*parser).callonExtraListElement808,
 																									expr: &choiceExpr{
-																										pos: position{line: 2889, col: 13, offset: 91489},
+																										pos: position{line: 2890, col: 13, offset: 91514},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 13, offset: 91489},
+																												pos:        position{line: 2890, col: 13, offset: 91514},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 20, offset: 91496},
+																												pos:        position{line: 2890, col: 20, offset: 91521},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 29, offset: 91505},
+																												pos:        position{line: 2890, col: 29, offset: 91530},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29731,9 +29731,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2899, col: 8, offset: 91665},
+																									pos: position{line: 2900, col: 8, offset: 91690},
 																									expr: &anyMatcher{
-																										line: 2899, col: 9, offset: 91666,
+																										line: 2900, col: 9, offset: 91691,
 																									},
 																								},
 																							},
@@ -29752,12 +29752,12 @@ var g = &grammar{
 													pos:   position{line: 1524, col: 5, offset: 49625},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2830, col: 14, offset: 89910},
+														pos: position{line: 2831, col: 14, offset: 89935},
 														run: (*parser).callonExtraListElement816,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2830, col: 14, offset: 89910},
+															pos: position{line: 2831, col: 14, offset: 89935},
 															expr: &charClassMatcher{
-																pos:        position{line: 2830, col: 14, offset: 89910},
+																pos:        position{line: 2831, col: 14, offset: 89935},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -29767,28 +29767,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2902, col: 8, offset: 91715},
+													pos: position{line: 2903, col: 8, offset: 91740},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2889, col: 12, offset: 91488},
+															pos: position{line: 2890, col: 12, offset: 91513},
 															run: (*parser).callonExtraListElement820,
 															expr: &choiceExpr{
-																pos: position{line: 2889, col: 13, offset: 91489},
+																pos: position{line: 2890, col: 13, offset: 91514},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2889, col: 13, offset: 91489},
+																		pos:        position{line: 2890, col: 13, offset: 91514},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2889, col: 20, offset: 91496},
+																		pos:        position{line: 2890, col: 20, offset: 91521},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2889, col: 29, offset: 91505},
+																		pos:        position{line: 2890, col: 29, offset: 91530},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -29797,9 +29797,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2899, col: 8, offset: 91665},
+															pos: position{line: 2900, col: 8, offset: 91690},
 															expr: &anyMatcher{
-																line: 2899, col: 9, offset: 91666,
+																line: 2900, col: 9, offset: 91691,
 															},
 														},
 													},
@@ -29834,10 +29834,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 1541, col: 13, offset: 50049},
 											expr: &actionExpr{
-												pos: position{line: 2880, col: 10, offset: 91317},
+												pos: position{line: 2881, col: 10, offset: 91342},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2880, col: 10, offset: 91317},
+													pos:        position{line: 2881, col: 10, offset: 91342},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -29846,25 +29846,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2889, col: 12, offset: 91488},
+											pos: position{line: 2890, col: 12, offset: 91513},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2889, col: 13, offset: 91489},
+												pos: position{line: 2890, col: 13, offset: 91514},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2889, col: 13, offset: 91489},
+														pos:        position{line: 2890, col: 13, offset: 91514},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2889, col: 20, offset: 91496},
+														pos:        position{line: 2890, col: 20, offset: 91521},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2889, col: 29, offset: 91505},
+														pos:        position{line: 2890, col: 29, offset: 91530},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -29885,10 +29885,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1548, col: 31, offset: 50257},
 							expr: &actionExpr{
-								pos: position{line: 2880, col: 10, offset: 91317},
+								pos: position{line: 2881, col: 10, offset: 91342},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2880, col: 10, offset: 91317},
+									pos:        position{line: 2881, col: 10, offset: 91342},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -29897,25 +29897,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2889, col: 12, offset: 91488},
+							pos: position{line: 2890, col: 12, offset: 91513},
 							run: (*parser).callonListContinuation18,
 							expr: &choiceExpr{
-								pos: position{line: 2889, col: 13, offset: 91489},
+								pos: position{line: 2890, col: 13, offset: 91514},
 								alternatives: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2889, col: 13, offset: 91489},
+										pos:        position{line: 2890, col: 13, offset: 91514},
 										val:        "\n",
 										ignoreCase: false,
 										want:       "\"\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2889, col: 20, offset: 91496},
+										pos:        position{line: 2890, col: 20, offset: 91521},
 										val:        "\r\n",
 										ignoreCase: false,
 										want:       "\"\\r\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2889, col: 29, offset: 91505},
+										pos:        position{line: 2890, col: 29, offset: 91530},
 										val:        "\r",
 										ignoreCase: false,
 										want:       "\"\\r\"",
@@ -29948,9 +29948,9 @@ var g = &grammar{
 					pos: position{line: 1551, col: 5, offset: 50344},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2897, col: 11, offset: 91651},
+							pos: position{line: 2898, col: 11, offset: 91676},
 							expr: &anyMatcher{
-								line: 2897, col: 13, offset: 91653,
+								line: 2898, col: 13, offset: 91678,
 							},
 						},
 						&notExpr{
@@ -29959,27 +29959,27 @@ var g = &grammar{
 								pos: position{line: 1489, col: 5, offset: 48330},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1582, col: 5, offset: 51264},
+										pos: position{line: 1583, col: 5, offset: 51289},
 										run: (*parser).callonListContinuationElement7,
 										expr: &seqExpr{
-											pos: position{line: 1582, col: 5, offset: 51264},
+											pos: position{line: 1583, col: 5, offset: 51289},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1582, col: 5, offset: 51264},
+													pos:   position{line: 1583, col: 5, offset: 51289},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1589, col: 5, offset: 51472},
+														pos: position{line: 1590, col: 5, offset: 51497},
 														run: (*parser).callonListContinuationElement10,
 														expr: &seqExpr{
-															pos: position{line: 1589, col: 5, offset: 51472},
+															pos: position{line: 1590, col: 5, offset: 51497},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1589, col: 5, offset: 51472},
+																	pos: position{line: 1590, col: 5, offset: 51497},
 																	expr: &actionExpr{
-																		pos: position{line: 2880, col: 10, offset: 91317},
+																		pos: position{line: 2881, col: 10, offset: 91342},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 10, offset: 91317},
+																			pos:        position{line: 2881, col: 10, offset: 91342},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29988,27 +29988,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1589, col: 12, offset: 51479},
+																	pos:   position{line: 1590, col: 12, offset: 51504},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1591, col: 9, offset: 51542},
+																		pos: position{line: 1592, col: 9, offset: 51567},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1591, col: 9, offset: 51542},
+																				pos: position{line: 1592, col: 9, offset: 51567},
 																				run: (*parser).callonListContinuationElement17,
 																				expr: &seqExpr{
-																					pos: position{line: 1591, col: 9, offset: 51542},
+																					pos: position{line: 1592, col: 9, offset: 51567},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1591, col: 9, offset: 51542},
+																							pos:   position{line: 1592, col: 9, offset: 51567},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1591, col: 16, offset: 51549},
+																								pos: position{line: 1592, col: 16, offset: 51574},
 																								run: (*parser).callonListContinuationElement20,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1591, col: 16, offset: 51549},
+																									pos: position{line: 1592, col: 16, offset: 51574},
 																									expr: &litMatcher{
-																										pos:        position{line: 1591, col: 17, offset: 51550},
+																										pos:        position{line: 1592, col: 17, offset: 51575},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -30017,22 +30017,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1595, col: 9, offset: 51650},
+																							pos: position{line: 1596, col: 9, offset: 51675},
 																							run: (*parser).callonListContinuationElement23,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1614, col: 11, offset: 52367},
+																				pos: position{line: 1615, col: 11, offset: 52392},
 																				run: (*parser).callonListContinuationElement24,
 																				expr: &seqExpr{
-																					pos: position{line: 1614, col: 11, offset: 52367},
+																					pos: position{line: 1615, col: 11, offset: 52392},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1614, col: 11, offset: 52367},
+																							pos: position{line: 1615, col: 11, offset: 52392},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1614, col: 12, offset: 52368},
+																								pos:        position{line: 1615, col: 12, offset: 52393},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -30040,7 +30040,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1614, col: 20, offset: 52376},
+																							pos:        position{line: 1615, col: 20, offset: 52401},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -30049,20 +30049,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1616, col: 13, offset: 52493},
+																				pos: position{line: 1617, col: 13, offset: 52518},
 																				run: (*parser).callonListContinuationElement29,
 																				expr: &seqExpr{
-																					pos: position{line: 1616, col: 13, offset: 52493},
+																					pos: position{line: 1617, col: 13, offset: 52518},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1616, col: 14, offset: 52494},
+																							pos:        position{line: 1617, col: 14, offset: 52519},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1616, col: 21, offset: 52501},
+																							pos:        position{line: 1617, col: 21, offset: 52526},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -30071,20 +30071,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1618, col: 13, offset: 52621},
+																				pos: position{line: 1619, col: 13, offset: 52646},
 																				run: (*parser).callonListContinuationElement33,
 																				expr: &seqExpr{
-																					pos: position{line: 1618, col: 13, offset: 52621},
+																					pos: position{line: 1619, col: 13, offset: 52646},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1618, col: 14, offset: 52622},
+																							pos:        position{line: 1619, col: 14, offset: 52647},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1618, col: 21, offset: 52629},
+																							pos:        position{line: 1619, col: 21, offset: 52654},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -30093,15 +30093,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1620, col: 13, offset: 52749},
+																				pos: position{line: 1621, col: 13, offset: 52774},
 																				run: (*parser).callonListContinuationElement37,
 																				expr: &seqExpr{
-																					pos: position{line: 1620, col: 13, offset: 52749},
+																					pos: position{line: 1621, col: 13, offset: 52774},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1620, col: 13, offset: 52749},
+																							pos: position{line: 1621, col: 13, offset: 52774},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1620, col: 14, offset: 52750},
+																								pos:        position{line: 1621, col: 14, offset: 52775},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -30109,7 +30109,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1620, col: 26, offset: 52762},
+																							pos:        position{line: 1621, col: 26, offset: 52787},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -30118,15 +30118,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1622, col: 13, offset: 52882},
+																				pos: position{line: 1623, col: 13, offset: 52907},
 																				run: (*parser).callonListContinuationElement42,
 																				expr: &seqExpr{
-																					pos: position{line: 1622, col: 13, offset: 52882},
+																					pos: position{line: 1623, col: 13, offset: 52907},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1622, col: 13, offset: 52882},
+																							pos: position{line: 1623, col: 13, offset: 52907},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1622, col: 14, offset: 52883},
+																								pos:        position{line: 1623, col: 14, offset: 52908},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -30134,7 +30134,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1622, col: 26, offset: 52895},
+																							pos:        position{line: 1623, col: 26, offset: 52920},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -30146,12 +30146,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2884, col: 11, offset: 91378},
+																	pos: position{line: 2885, col: 11, offset: 91403},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2884, col: 11, offset: 91378},
+																		pos: position{line: 2885, col: 11, offset: 91403},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2884, col: 11, offset: 91378},
+																			pos:        position{line: 2885, col: 11, offset: 91403},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30164,7 +30164,7 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1583, col: 5, offset: 51303},
+													pos:   position{line: 1584, col: 5, offset: 51328},
 													label: "content",
 													expr: &actionExpr{
 														pos: position{line: 1530, col: 5, offset: 49770},
@@ -30194,28 +30194,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2902, col: 8, offset: 91715},
+																	pos: position{line: 2903, col: 8, offset: 91740},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2889, col: 12, offset: 91488},
+																			pos: position{line: 2890, col: 12, offset: 91513},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2889, col: 13, offset: 91489},
+																				pos: position{line: 2890, col: 13, offset: 91514},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 13, offset: 91489},
+																						pos:        position{line: 2890, col: 13, offset: 91514},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 20, offset: 91496},
+																						pos:        position{line: 2890, col: 20, offset: 91521},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 29, offset: 91505},
+																						pos:        position{line: 2890, col: 29, offset: 91530},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30224,9 +30224,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2899, col: 8, offset: 91665},
+																			pos: position{line: 2900, col: 8, offset: 91690},
 																			expr: &anyMatcher{
-																				line: 2899, col: 9, offset: 91666,
+																				line: 2900, col: 9, offset: 91691,
 																			},
 																		},
 																	},
@@ -30239,27 +30239,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1632, col: 5, offset: 53161},
+										pos: position{line: 1633, col: 5, offset: 53186},
 										run: (*parser).callonListContinuationElement66,
 										expr: &seqExpr{
-											pos: position{line: 1632, col: 5, offset: 53161},
+											pos: position{line: 1633, col: 5, offset: 53186},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1632, col: 5, offset: 53161},
+													pos:   position{line: 1633, col: 5, offset: 53186},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1639, col: 5, offset: 53434},
+														pos: position{line: 1640, col: 5, offset: 53459},
 														run: (*parser).callonListContinuationElement69,
 														expr: &seqExpr{
-															pos: position{line: 1639, col: 5, offset: 53434},
+															pos: position{line: 1640, col: 5, offset: 53459},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1639, col: 5, offset: 53434},
+																	pos: position{line: 1640, col: 5, offset: 53459},
 																	expr: &actionExpr{
-																		pos: position{line: 2880, col: 10, offset: 91317},
+																		pos: position{line: 2881, col: 10, offset: 91342},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 10, offset: 91317},
+																			pos:        position{line: 2881, col: 10, offset: 91342},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30268,24 +30268,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1640, col: 5, offset: 53446},
+																	pos:   position{line: 1641, col: 5, offset: 53471},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1641, col: 9, offset: 53462},
+																		pos: position{line: 1642, col: 9, offset: 53487},
 																		run: (*parser).callonListContinuationElement75,
 																		expr: &choiceExpr{
-																			pos: position{line: 1641, col: 10, offset: 53463},
+																			pos: position{line: 1642, col: 10, offset: 53488},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1641, col: 11, offset: 53464},
+																					pos:        position{line: 1642, col: 11, offset: 53489},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1641, col: 18, offset: 53471},
+																					pos: position{line: 1642, col: 18, offset: 53496},
 																					expr: &litMatcher{
-																						pos:        position{line: 1641, col: 19, offset: 53472},
+																						pos:        position{line: 1642, col: 19, offset: 53497},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -30296,16 +30296,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1644, col: 7, offset: 53562},
+																	pos: position{line: 1645, col: 7, offset: 53587},
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2884, col: 11, offset: 91378},
+																	pos: position{line: 2885, col: 11, offset: 91403},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2884, col: 11, offset: 91378},
+																		pos: position{line: 2885, col: 11, offset: 91403},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2884, col: 11, offset: 91378},
+																			pos:        position{line: 2885, col: 11, offset: 91403},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30318,56 +30318,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1633, col: 5, offset: 53202},
+													pos:   position{line: 1634, col: 5, offset: 53227},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1633, col: 16, offset: 53213},
+														pos: position{line: 1634, col: 16, offset: 53238},
 														expr: &actionExpr{
-															pos: position{line: 1654, col: 5, offset: 53827},
+															pos: position{line: 1655, col: 5, offset: 53852},
 															run: (*parser).callonListContinuationElement86,
 															expr: &seqExpr{
-																pos: position{line: 1654, col: 5, offset: 53827},
+																pos: position{line: 1655, col: 5, offset: 53852},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1654, col: 5, offset: 53827},
+																		pos: position{line: 1655, col: 5, offset: 53852},
 																		expr: &litMatcher{
-																			pos:        position{line: 1654, col: 6, offset: 53828},
+																			pos:        position{line: 1655, col: 6, offset: 53853},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1654, col: 10, offset: 53832},
+																		pos:   position{line: 1655, col: 10, offset: 53857},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1655, col: 7, offset: 53846},
+																			pos: position{line: 1656, col: 7, offset: 53871},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1655, col: 7, offset: 53846},
+																					pos: position{line: 1656, col: 7, offset: 53871},
 																					run: (*parser).callonListContinuationElement92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1655, col: 7, offset: 53846},
+																						pos:        position{line: 1656, col: 7, offset: 53871},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1656, col: 7, offset: 53891},
+																					pos: position{line: 1657, col: 7, offset: 53916},
 																					run: (*parser).callonListContinuationElement94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1656, col: 7, offset: 53891},
+																						pos:        position{line: 1657, col: 7, offset: 53916},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1657, col: 7, offset: 53934},
+																					pos: position{line: 1658, col: 7, offset: 53959},
 																					run: (*parser).callonListContinuationElement96,
 																					expr: &litMatcher{
-																						pos:        position{line: 1657, col: 7, offset: 53934},
+																						pos:        position{line: 1658, col: 7, offset: 53959},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -30377,12 +30377,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2884, col: 11, offset: 91378},
+																		pos: position{line: 2885, col: 11, offset: 91403},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2884, col: 11, offset: 91378},
+																			pos: position{line: 2885, col: 11, offset: 91403},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2884, col: 11, offset: 91378},
+																				pos:        position{line: 2885, col: 11, offset: 91403},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -30396,7 +30396,7 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1634, col: 5, offset: 53252},
+													pos:   position{line: 1635, col: 5, offset: 53277},
 													label: "content",
 													expr: &actionExpr{
 														pos: position{line: 1530, col: 5, offset: 49770},
@@ -30426,28 +30426,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2902, col: 8, offset: 91715},
+																	pos: position{line: 2903, col: 8, offset: 91740},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2889, col: 12, offset: 91488},
+																			pos: position{line: 2890, col: 12, offset: 91513},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2889, col: 13, offset: 91489},
+																				pos: position{line: 2890, col: 13, offset: 91514},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 13, offset: 91489},
+																						pos:        position{line: 2890, col: 13, offset: 91514},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 20, offset: 91496},
+																						pos:        position{line: 2890, col: 20, offset: 91521},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 29, offset: 91505},
+																						pos:        position{line: 2890, col: 29, offset: 91530},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30456,9 +30456,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2899, col: 8, offset: 91665},
+																			pos: position{line: 2900, col: 8, offset: 91690},
 																			expr: &anyMatcher{
-																				line: 2899, col: 9, offset: 91666,
+																				line: 2900, col: 9, offset: 91691,
 																			},
 																		},
 																	},
@@ -30471,36 +30471,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1723, col: 5, offset: 55806},
+										pos: position{line: 1724, col: 5, offset: 55831},
 										run: (*parser).callonListContinuationElement117,
 										expr: &seqExpr{
-											pos: position{line: 1723, col: 5, offset: 55806},
+											pos: position{line: 1724, col: 5, offset: 55831},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1723, col: 5, offset: 55806},
+													pos:   position{line: 1724, col: 5, offset: 55831},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1729, col: 5, offset: 56003},
+														pos: position{line: 1730, col: 5, offset: 56028},
 														run: (*parser).callonListContinuationElement120,
 														expr: &seqExpr{
-															pos: position{line: 1729, col: 5, offset: 56003},
+															pos: position{line: 1730, col: 5, offset: 56028},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1729, col: 5, offset: 56003},
+																	pos:        position{line: 1730, col: 5, offset: 56028},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1729, col: 9, offset: 56007},
+																	pos:   position{line: 1730, col: 9, offset: 56032},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1729, col: 14, offset: 56012},
+																		pos: position{line: 1730, col: 14, offset: 56037},
 																		run: (*parser).callonListContinuationElement124,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1729, col: 14, offset: 56012},
+																			pos: position{line: 1730, col: 14, offset: 56037},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1729, col: 14, offset: 56012},
+																				pos:        position{line: 1730, col: 14, offset: 56037},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -30510,18 +30510,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1729, col: 62, offset: 56060},
+																	pos:        position{line: 1730, col: 62, offset: 56085},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2884, col: 11, offset: 91378},
+																	pos: position{line: 2885, col: 11, offset: 91403},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2884, col: 11, offset: 91378},
+																		pos: position{line: 2885, col: 11, offset: 91403},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2884, col: 11, offset: 91378},
+																			pos:        position{line: 2885, col: 11, offset: 91403},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30534,7 +30534,7 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1724, col: 5, offset: 55842},
+													pos:   position{line: 1725, col: 5, offset: 55867},
 													label: "description",
 													expr: &actionExpr{
 														pos: position{line: 1530, col: 5, offset: 49770},
@@ -30564,28 +30564,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2902, col: 8, offset: 91715},
+																	pos: position{line: 2903, col: 8, offset: 91740},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2889, col: 12, offset: 91488},
+																			pos: position{line: 2890, col: 12, offset: 91513},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2889, col: 13, offset: 91489},
+																				pos: position{line: 2890, col: 13, offset: 91514},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 13, offset: 91489},
+																						pos:        position{line: 2890, col: 13, offset: 91514},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 20, offset: 91496},
+																						pos:        position{line: 2890, col: 20, offset: 91521},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 29, offset: 91505},
+																						pos:        position{line: 2890, col: 29, offset: 91530},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30594,9 +30594,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2899, col: 8, offset: 91665},
+																			pos: position{line: 2900, col: 8, offset: 91690},
 																			expr: &anyMatcher{
-																				line: 2899, col: 9, offset: 91666,
+																				line: 2900, col: 9, offset: 91691,
 																			},
 																		},
 																	},
@@ -30609,35 +30609,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1666, col: 5, offset: 54127},
+										pos: position{line: 1667, col: 5, offset: 54152},
 										run: (*parser).callonListContinuationElement147,
 										expr: &seqExpr{
-											pos: position{line: 1666, col: 5, offset: 54127},
+											pos: position{line: 1667, col: 5, offset: 54152},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1666, col: 5, offset: 54127},
+													pos:   position{line: 1667, col: 5, offset: 54152},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1674, col: 5, offset: 54453},
+														pos: position{line: 1675, col: 5, offset: 54478},
 														run: (*parser).callonListContinuationElement150,
 														expr: &seqExpr{
-															pos: position{line: 1674, col: 5, offset: 54453},
+															pos: position{line: 1675, col: 5, offset: 54478},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1674, col: 5, offset: 54453},
+																	pos: position{line: 1675, col: 5, offset: 54478},
 																	expr: &seqExpr{
-																		pos: position{line: 2492, col: 31, offset: 80424},
+																		pos: position{line: 2493, col: 31, offset: 80449},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2492, col: 31, offset: 80424},
+																				pos:        position{line: 2493, col: 31, offset: 80449},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2492, col: 36, offset: 80429},
+																				pos: position{line: 2493, col: 36, offset: 80454},
 																				expr: &litMatcher{
-																					pos:        position{line: 2492, col: 37, offset: 80430},
+																					pos:        position{line: 2493, col: 37, offset: 80455},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
@@ -30647,28 +30647,28 @@ var g = &grammar{
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 1675, col: 5, offset: 54485},
+																	pos: position{line: 1676, col: 5, offset: 54510},
 																	expr: &seqExpr{
-																		pos: position{line: 1675, col: 6, offset: 54486},
+																		pos: position{line: 1676, col: 6, offset: 54511},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1675, col: 6, offset: 54486},
+																				pos: position{line: 1676, col: 6, offset: 54511},
 																				expr: &actionExpr{
-																					pos: position{line: 1680, col: 5, offset: 54636},
+																					pos: position{line: 1681, col: 5, offset: 54661},
 																					run: (*parser).callonListContinuationElement160,
 																					expr: &seqExpr{
-																						pos: position{line: 1680, col: 5, offset: 54636},
+																						pos: position{line: 1681, col: 5, offset: 54661},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1680, col: 5, offset: 54636},
+																								pos:   position{line: 1681, col: 5, offset: 54661},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1680, col: 16, offset: 54647},
+																									pos: position{line: 1681, col: 16, offset: 54672},
 																									run: (*parser).callonListContinuationElement163,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1680, col: 16, offset: 54647},
+																										pos: position{line: 1681, col: 16, offset: 54672},
 																										expr: &litMatcher{
-																											pos:        position{line: 1680, col: 17, offset: 54648},
+																											pos:        position{line: 1681, col: 17, offset: 54673},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -30677,7 +30677,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1683, col: 5, offset: 54705},
+																								pos: position{line: 1684, col: 5, offset: 54730},
 																								run: (*parser).callonListContinuationElement166,
 																							},
 																						},
@@ -30685,30 +30685,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1675, col: 35, offset: 54515},
+																				pos: position{line: 1676, col: 35, offset: 54540},
 																				expr: &choiceExpr{
-																					pos: position{line: 2902, col: 8, offset: 91715},
+																					pos: position{line: 2903, col: 8, offset: 91740},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2889, col: 12, offset: 91488},
+																							pos: position{line: 2890, col: 12, offset: 91513},
 																							run: (*parser).callonListContinuationElement169,
 																							expr: &choiceExpr{
-																								pos: position{line: 2889, col: 13, offset: 91489},
+																								pos: position{line: 2890, col: 13, offset: 91514},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2889, col: 13, offset: 91489},
+																										pos:        position{line: 2890, col: 13, offset: 91514},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2889, col: 20, offset: 91496},
+																										pos:        position{line: 2890, col: 20, offset: 91521},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2889, col: 29, offset: 91505},
+																										pos:        position{line: 2890, col: 29, offset: 91530},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -30717,16 +30717,16 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2899, col: 8, offset: 91665},
+																							pos: position{line: 2900, col: 8, offset: 91690},
 																							expr: &anyMatcher{
-																								line: 2899, col: 9, offset: 91666,
+																								line: 2900, col: 9, offset: 91691,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1675, col: 40, offset: 54520,
+																				line: 1676, col: 40, offset: 54545,
 																			},
 																		},
 																	},
@@ -30736,24 +30736,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1667, col: 5, offset: 54162},
+													pos:   position{line: 1668, col: 5, offset: 54187},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1680, col: 5, offset: 54636},
+														pos: position{line: 1681, col: 5, offset: 54661},
 														run: (*parser).callonListContinuationElement178,
 														expr: &seqExpr{
-															pos: position{line: 1680, col: 5, offset: 54636},
+															pos: position{line: 1681, col: 5, offset: 54661},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1680, col: 5, offset: 54636},
+																	pos:   position{line: 1681, col: 5, offset: 54661},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1680, col: 16, offset: 54647},
+																		pos: position{line: 1681, col: 16, offset: 54672},
 																		run: (*parser).callonListContinuationElement181,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1680, col: 16, offset: 54647},
+																			pos: position{line: 1681, col: 16, offset: 54672},
 																			expr: &litMatcher{
-																				pos:        position{line: 1680, col: 17, offset: 54648},
+																				pos:        position{line: 1681, col: 17, offset: 54673},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -30762,7 +30762,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1683, col: 5, offset: 54705},
+																	pos: position{line: 1684, col: 5, offset: 54730},
 																	run: (*parser).callonListContinuationElement184,
 																},
 															},
@@ -30770,24 +30770,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1668, col: 5, offset: 54207},
+													pos:   position{line: 1669, col: 5, offset: 54232},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1691, col: 5, offset: 54954},
+														pos: position{line: 1692, col: 5, offset: 54979},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1693, col: 9, offset: 55020},
+																pos: position{line: 1694, col: 9, offset: 55045},
 																run: (*parser).callonListContinuationElement187,
 																expr: &seqExpr{
-																	pos: position{line: 1693, col: 9, offset: 55020},
+																	pos: position{line: 1694, col: 9, offset: 55045},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1693, col: 9, offset: 55020},
+																			pos: position{line: 1694, col: 9, offset: 55045},
 																			expr: &actionExpr{
-																				pos: position{line: 2880, col: 10, offset: 91317},
+																				pos: position{line: 2881, col: 10, offset: 91342},
 																				run: (*parser).callonListContinuationElement190,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2880, col: 10, offset: 91317},
+																					pos:        position{line: 2881, col: 10, offset: 91342},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30796,28 +30796,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2902, col: 8, offset: 91715},
+																			pos: position{line: 2903, col: 8, offset: 91740},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2889, col: 12, offset: 91488},
+																					pos: position{line: 2890, col: 12, offset: 91513},
 																					run: (*parser).callonListContinuationElement193,
 																					expr: &choiceExpr{
-																						pos: position{line: 2889, col: 13, offset: 91489},
+																						pos: position{line: 2890, col: 13, offset: 91514},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2889, col: 13, offset: 91489},
+																								pos:        position{line: 2890, col: 13, offset: 91514},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2889, col: 20, offset: 91496},
+																								pos:        position{line: 2890, col: 20, offset: 91521},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2889, col: 29, offset: 91505},
+																								pos:        position{line: 2890, col: 29, offset: 91530},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30826,15 +30826,15 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2899, col: 8, offset: 91665},
+																					pos: position{line: 2900, col: 8, offset: 91690},
 																					expr: &anyMatcher{
-																						line: 2899, col: 9, offset: 91666,
+																						line: 2900, col: 9, offset: 91691,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1694, col: 9, offset: 55039},
+																			pos: position{line: 1695, col: 9, offset: 55064},
 																			expr: &actionExpr{
 																				pos: position{line: 677, col: 14, offset: 21525},
 																				run: (*parser).callonListContinuationElement201,
@@ -30842,18 +30842,18 @@ var g = &grammar{
 																					pos: position{line: 677, col: 14, offset: 21525},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2897, col: 11, offset: 91651},
+																							pos: position{line: 2898, col: 11, offset: 91676},
 																							expr: &anyMatcher{
-																								line: 2897, col: 13, offset: 91653,
+																								line: 2898, col: 13, offset: 91678,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 677, col: 21, offset: 21532},
 																							expr: &actionExpr{
-																								pos: position{line: 2880, col: 10, offset: 91317},
+																								pos: position{line: 2881, col: 10, offset: 91342},
 																								run: (*parser).callonListContinuationElement206,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 10, offset: 91317},
+																									pos:        position{line: 2881, col: 10, offset: 91342},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30862,28 +30862,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2902, col: 8, offset: 91715},
+																							pos: position{line: 2903, col: 8, offset: 91740},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2889, col: 12, offset: 91488},
+																									pos: position{line: 2890, col: 12, offset: 91513},
 																									run: (*parser).callonListContinuationElement209,
 																									expr: &choiceExpr{
-																										pos: position{line: 2889, col: 13, offset: 91489},
+																										pos: position{line: 2890, col: 13, offset: 91514},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 13, offset: 91489},
+																												pos:        position{line: 2890, col: 13, offset: 91514},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 20, offset: 91496},
+																												pos:        position{line: 2890, col: 20, offset: 91521},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 29, offset: 91505},
+																												pos:        position{line: 2890, col: 29, offset: 91530},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30892,9 +30892,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2899, col: 8, offset: 91665},
+																									pos: position{line: 2900, col: 8, offset: 91690},
 																									expr: &anyMatcher{
-																										line: 2899, col: 9, offset: 91666,
+																										line: 2900, col: 9, offset: 91691,
 																									},
 																								},
 																							},
@@ -30907,18 +30907,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1700, col: 9, offset: 55168},
+																pos: position{line: 1701, col: 9, offset: 55193},
 																run: (*parser).callonListContinuationElement216,
 																expr: &seqExpr{
-																	pos: position{line: 1700, col: 9, offset: 55168},
+																	pos: position{line: 1701, col: 9, offset: 55193},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2884, col: 11, offset: 91378},
+																			pos: position{line: 2885, col: 11, offset: 91403},
 																			run: (*parser).callonListContinuationElement218,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2884, col: 11, offset: 91378},
+																				pos: position{line: 2885, col: 11, offset: 91403},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2884, col: 11, offset: 91378},
+																					pos:        position{line: 2885, col: 11, offset: 91403},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30927,15 +30927,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1701, col: 9, offset: 55241},
+																			pos:   position{line: 1702, col: 9, offset: 55266},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1701, col: 18, offset: 55250},
+																				pos: position{line: 1702, col: 18, offset: 55275},
 																				run: (*parser).callonListContinuationElement222,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1701, col: 18, offset: 55250},
+																					pos: position{line: 1702, col: 18, offset: 55275},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1701, col: 18, offset: 55250},
+																						pos:        position{line: 1702, col: 18, offset: 55275},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -30945,28 +30945,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2902, col: 8, offset: 91715},
+																			pos: position{line: 2903, col: 8, offset: 91740},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2889, col: 12, offset: 91488},
+																					pos: position{line: 2890, col: 12, offset: 91513},
 																					run: (*parser).callonListContinuationElement226,
 																					expr: &choiceExpr{
-																						pos: position{line: 2889, col: 13, offset: 91489},
+																						pos: position{line: 2890, col: 13, offset: 91514},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2889, col: 13, offset: 91489},
+																								pos:        position{line: 2890, col: 13, offset: 91514},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2889, col: 20, offset: 91496},
+																								pos:        position{line: 2890, col: 20, offset: 91521},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2889, col: 29, offset: 91505},
+																								pos:        position{line: 2890, col: 29, offset: 91530},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30975,9 +30975,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2899, col: 8, offset: 91665},
+																					pos: position{line: 2900, col: 8, offset: 91690},
 																					expr: &anyMatcher{
-																						line: 2899, col: 9, offset: 91666,
+																						line: 2900, col: 9, offset: 91691,
 																					},
 																				},
 																			},
@@ -31018,18 +31018,18 @@ var g = &grammar{
 											pos: position{line: 677, col: 14, offset: 21525},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2897, col: 11, offset: 91651},
+													pos: position{line: 2898, col: 11, offset: 91676},
 													expr: &anyMatcher{
-														line: 2897, col: 13, offset: 91653,
+														line: 2898, col: 13, offset: 91678,
 													},
 												},
 												&zeroOrMoreExpr{
 													pos: position{line: 677, col: 21, offset: 21532},
 													expr: &actionExpr{
-														pos: position{line: 2880, col: 10, offset: 91317},
+														pos: position{line: 2881, col: 10, offset: 91342},
 														run: (*parser).callonListContinuationElement243,
 														expr: &charClassMatcher{
-															pos:        position{line: 2880, col: 10, offset: 91317},
+															pos:        position{line: 2881, col: 10, offset: 91342},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31038,28 +31038,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2902, col: 8, offset: 91715},
+													pos: position{line: 2903, col: 8, offset: 91740},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2889, col: 12, offset: 91488},
+															pos: position{line: 2890, col: 12, offset: 91513},
 															run: (*parser).callonListContinuationElement246,
 															expr: &choiceExpr{
-																pos: position{line: 2889, col: 13, offset: 91489},
+																pos: position{line: 2890, col: 13, offset: 91514},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2889, col: 13, offset: 91489},
+																		pos:        position{line: 2890, col: 13, offset: 91514},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2889, col: 20, offset: 91496},
+																		pos:        position{line: 2890, col: 20, offset: 91521},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2889, col: 29, offset: 91505},
+																		pos:        position{line: 2890, col: 29, offset: 91530},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31068,9 +31068,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2899, col: 8, offset: 91665},
+															pos: position{line: 2900, col: 8, offset: 91690},
 															expr: &anyMatcher{
-																line: 2899, col: 9, offset: 91666,
+																line: 2900, col: 9, offset: 91691,
 															},
 														},
 													},
@@ -31135,10 +31135,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 359, col: 49, offset: 10879},
 													expr: &actionExpr{
-														pos: position{line: 2880, col: 10, offset: 91317},
+														pos: position{line: 2881, col: 10, offset: 91342},
 														run: (*parser).callonListContinuationElement265,
 														expr: &charClassMatcher{
-															pos:        position{line: 2880, col: 10, offset: 91317},
+															pos:        position{line: 2881, col: 10, offset: 91342},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31147,28 +31147,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2902, col: 8, offset: 91715},
+													pos: position{line: 2903, col: 8, offset: 91740},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2889, col: 12, offset: 91488},
+															pos: position{line: 2890, col: 12, offset: 91513},
 															run: (*parser).callonListContinuationElement268,
 															expr: &choiceExpr{
-																pos: position{line: 2889, col: 13, offset: 91489},
+																pos: position{line: 2890, col: 13, offset: 91514},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2889, col: 13, offset: 91489},
+																		pos:        position{line: 2890, col: 13, offset: 91514},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2889, col: 20, offset: 91496},
+																		pos:        position{line: 2890, col: 20, offset: 91521},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2889, col: 29, offset: 91505},
+																		pos:        position{line: 2890, col: 29, offset: 91530},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31177,9 +31177,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2899, col: 8, offset: 91665},
+															pos: position{line: 2900, col: 8, offset: 91690},
 															expr: &anyMatcher{
-																line: 2899, col: 9, offset: 91666,
+																line: 2900, col: 9, offset: 91691,
 															},
 														},
 													},
@@ -31240,10 +31240,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 361, col: 39, offset: 11000},
 													expr: &actionExpr{
-														pos: position{line: 2880, col: 10, offset: 91317},
+														pos: position{line: 2881, col: 10, offset: 91342},
 														run: (*parser).callonListContinuationElement286,
 														expr: &charClassMatcher{
-															pos:        position{line: 2880, col: 10, offset: 91317},
+															pos:        position{line: 2881, col: 10, offset: 91342},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31252,28 +31252,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2902, col: 8, offset: 91715},
+													pos: position{line: 2903, col: 8, offset: 91740},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2889, col: 12, offset: 91488},
+															pos: position{line: 2890, col: 12, offset: 91513},
 															run: (*parser).callonListContinuationElement289,
 															expr: &choiceExpr{
-																pos: position{line: 2889, col: 13, offset: 91489},
+																pos: position{line: 2890, col: 13, offset: 91514},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2889, col: 13, offset: 91489},
+																		pos:        position{line: 2890, col: 13, offset: 91514},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2889, col: 20, offset: 91496},
+																		pos:        position{line: 2890, col: 20, offset: 91521},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2889, col: 29, offset: 91505},
+																		pos:        position{line: 2890, col: 29, offset: 91530},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31282,9 +31282,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2899, col: 8, offset: 91665},
+															pos: position{line: 2900, col: 8, offset: 91690},
 															expr: &anyMatcher{
-																line: 2899, col: 9, offset: 91666,
+																line: 2900, col: 9, offset: 91691,
 															},
 														},
 													},
@@ -31335,10 +31335,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 743, col: 8, offset: 23745},
 																expr: &actionExpr{
-																	pos: position{line: 2880, col: 10, offset: 91317},
+																	pos: position{line: 2881, col: 10, offset: 91342},
 																	run: (*parser).callonListContinuationElement307,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2880, col: 10, offset: 91317},
+																		pos:        position{line: 2881, col: 10, offset: 91342},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -31347,28 +31347,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2902, col: 8, offset: 91715},
+																pos: position{line: 2903, col: 8, offset: 91740},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2889, col: 12, offset: 91488},
+																		pos: position{line: 2890, col: 12, offset: 91513},
 																		run: (*parser).callonListContinuationElement310,
 																		expr: &choiceExpr{
-																			pos: position{line: 2889, col: 13, offset: 91489},
+																			pos: position{line: 2890, col: 13, offset: 91514},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2889, col: 13, offset: 91489},
+																					pos:        position{line: 2890, col: 13, offset: 91514},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2889, col: 20, offset: 91496},
+																					pos:        position{line: 2890, col: 20, offset: 91521},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2889, col: 29, offset: 91505},
+																					pos:        position{line: 2890, col: 29, offset: 91530},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -31377,9 +31377,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2899, col: 8, offset: 91665},
+																		pos: position{line: 2900, col: 8, offset: 91690},
 																		expr: &anyMatcher{
-																			line: 2899, col: 9, offset: 91666,
+																			line: 2900, col: 9, offset: 91691,
 																		},
 																	},
 																},
@@ -31440,10 +31440,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 743, col: 8, offset: 23745},
 																								expr: &actionExpr{
-																									pos: position{line: 2880, col: 10, offset: 91317},
+																									pos: position{line: 2881, col: 10, offset: 91342},
 																									run: (*parser).callonListContinuationElement332,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2880, col: 10, offset: 91317},
+																										pos:        position{line: 2881, col: 10, offset: 91342},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -31452,28 +31452,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2902, col: 8, offset: 91715},
+																								pos: position{line: 2903, col: 8, offset: 91740},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2889, col: 12, offset: 91488},
+																										pos: position{line: 2890, col: 12, offset: 91513},
 																										run: (*parser).callonListContinuationElement335,
 																										expr: &choiceExpr{
-																											pos: position{line: 2889, col: 13, offset: 91489},
+																											pos: position{line: 2890, col: 13, offset: 91514},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2889, col: 13, offset: 91489},
+																													pos:        position{line: 2890, col: 13, offset: 91514},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2889, col: 20, offset: 91496},
+																													pos:        position{line: 2890, col: 20, offset: 91521},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2889, col: 29, offset: 91505},
+																													pos:        position{line: 2890, col: 29, offset: 91530},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -31482,9 +31482,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2899, col: 8, offset: 91665},
+																										pos: position{line: 2900, col: 8, offset: 91690},
 																										expr: &anyMatcher{
-																											line: 2899, col: 9, offset: 91666,
+																											line: 2900, col: 9, offset: 91691,
 																										},
 																									},
 																								},
@@ -31493,9 +31493,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2899, col: 8, offset: 91665},
+																					pos: position{line: 2900, col: 8, offset: 91690},
 																					expr: &anyMatcher{
-																						line: 2899, col: 9, offset: 91666,
+																						line: 2900, col: 9, offset: 91691,
 																					},
 																				},
 																			},
@@ -31511,21 +31511,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2897, col: 11, offset: 91651},
+																						pos: position{line: 2898, col: 11, offset: 91676},
 																						expr: &anyMatcher{
-																							line: 2897, col: 13, offset: 91653,
+																							line: 2898, col: 13, offset: 91678,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2826, col: 13, offset: 89843},
+																							pos: position{line: 2827, col: 13, offset: 89868},
 																							run: (*parser).callonListContinuationElement350,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2826, col: 13, offset: 89843},
+																								pos: position{line: 2827, col: 13, offset: 89868},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2826, col: 13, offset: 89843},
+																									pos:        position{line: 2827, col: 13, offset: 89868},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31535,28 +31535,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2902, col: 8, offset: 91715},
+																						pos: position{line: 2903, col: 8, offset: 91740},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2889, col: 12, offset: 91488},
+																								pos: position{line: 2890, col: 12, offset: 91513},
 																								run: (*parser).callonListContinuationElement354,
 																								expr: &choiceExpr{
-																									pos: position{line: 2889, col: 13, offset: 91489},
+																									pos: position{line: 2890, col: 13, offset: 91514},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 13, offset: 91489},
+																											pos:        position{line: 2890, col: 13, offset: 91514},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 20, offset: 91496},
+																											pos:        position{line: 2890, col: 20, offset: 91521},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 29, offset: 91505},
+																											pos:        position{line: 2890, col: 29, offset: 91530},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31565,9 +31565,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2899, col: 8, offset: 91665},
+																								pos: position{line: 2900, col: 8, offset: 91690},
 																								expr: &anyMatcher{
-																									line: 2899, col: 9, offset: 91666,
+																									line: 2900, col: 9, offset: 91691,
 																								},
 																							},
 																						},
@@ -31623,10 +31623,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 743, col: 8, offset: 23745},
 																			expr: &actionExpr{
-																				pos: position{line: 2880, col: 10, offset: 91317},
+																				pos: position{line: 2881, col: 10, offset: 91342},
 																				run: (*parser).callonListContinuationElement372,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2880, col: 10, offset: 91317},
+																					pos:        position{line: 2881, col: 10, offset: 91342},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -31635,28 +31635,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2902, col: 8, offset: 91715},
+																			pos: position{line: 2903, col: 8, offset: 91740},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2889, col: 12, offset: 91488},
+																					pos: position{line: 2890, col: 12, offset: 91513},
 																					run: (*parser).callonListContinuationElement375,
 																					expr: &choiceExpr{
-																						pos: position{line: 2889, col: 13, offset: 91489},
+																						pos: position{line: 2890, col: 13, offset: 91514},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2889, col: 13, offset: 91489},
+																								pos:        position{line: 2890, col: 13, offset: 91514},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2889, col: 20, offset: 91496},
+																								pos:        position{line: 2890, col: 20, offset: 91521},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2889, col: 29, offset: 91505},
+																								pos:        position{line: 2890, col: 29, offset: 91530},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31665,9 +31665,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2899, col: 8, offset: 91665},
+																					pos: position{line: 2900, col: 8, offset: 91690},
 																					expr: &anyMatcher{
-																						line: 2899, col: 9, offset: 91666,
+																						line: 2900, col: 9, offset: 91691,
 																					},
 																				},
 																			},
@@ -31676,9 +31676,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2899, col: 8, offset: 91665},
+																pos: position{line: 2900, col: 8, offset: 91690},
 																expr: &anyMatcher{
-																	line: 2899, col: 9, offset: 91666,
+																	line: 2900, col: 9, offset: 91691,
 																},
 															},
 														},
@@ -31733,10 +31733,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 750, col: 8, offset: 23993},
 																	expr: &actionExpr{
-																		pos: position{line: 2880, col: 10, offset: 91317},
+																		pos: position{line: 2881, col: 10, offset: 91342},
 																		run: (*parser).callonListContinuationElement396,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 10, offset: 91317},
+																			pos:        position{line: 2881, col: 10, offset: 91342},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31745,28 +31745,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2902, col: 8, offset: 91715},
+																	pos: position{line: 2903, col: 8, offset: 91740},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2889, col: 12, offset: 91488},
+																			pos: position{line: 2890, col: 12, offset: 91513},
 																			run: (*parser).callonListContinuationElement399,
 																			expr: &choiceExpr{
-																				pos: position{line: 2889, col: 13, offset: 91489},
+																				pos: position{line: 2890, col: 13, offset: 91514},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 13, offset: 91489},
+																						pos:        position{line: 2890, col: 13, offset: 91514},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 20, offset: 91496},
+																						pos:        position{line: 2890, col: 20, offset: 91521},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 29, offset: 91505},
+																						pos:        position{line: 2890, col: 29, offset: 91530},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31775,9 +31775,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2899, col: 8, offset: 91665},
+																			pos: position{line: 2900, col: 8, offset: 91690},
 																			expr: &anyMatcher{
-																				line: 2899, col: 9, offset: 91666,
+																				line: 2900, col: 9, offset: 91691,
 																			},
 																		},
 																	},
@@ -31849,10 +31849,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 750, col: 8, offset: 23993},
 																											expr: &actionExpr{
-																												pos: position{line: 2880, col: 10, offset: 91317},
+																												pos: position{line: 2881, col: 10, offset: 91342},
 																												run: (*parser).callonListContinuationElement424,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2880, col: 10, offset: 91317},
+																													pos:        position{line: 2881, col: 10, offset: 91342},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31861,28 +31861,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2902, col: 8, offset: 91715},
+																											pos: position{line: 2903, col: 8, offset: 91740},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2889, col: 12, offset: 91488},
+																													pos: position{line: 2890, col: 12, offset: 91513},
 																													run: (*parser).callonListContinuationElement427,
 																													expr: &choiceExpr{
-																														pos: position{line: 2889, col: 13, offset: 91489},
+																														pos: position{line: 2890, col: 13, offset: 91514},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 13, offset: 91489},
+																																pos:        position{line: 2890, col: 13, offset: 91514},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 20, offset: 91496},
+																																pos:        position{line: 2890, col: 20, offset: 91521},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 29, offset: 91505},
+																																pos:        position{line: 2890, col: 29, offset: 91530},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31891,9 +31891,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2899, col: 8, offset: 91665},
+																													pos: position{line: 2900, col: 8, offset: 91690},
 																													expr: &anyMatcher{
-																														line: 2899, col: 9, offset: 91666,
+																														line: 2900, col: 9, offset: 91691,
 																													},
 																												},
 																											},
@@ -31909,9 +31909,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2899, col: 8, offset: 91665},
+																					pos: position{line: 2900, col: 8, offset: 91690},
 																					expr: &anyMatcher{
-																						line: 2899, col: 9, offset: 91666,
+																						line: 2900, col: 9, offset: 91691,
 																					},
 																				},
 																			},
@@ -31927,21 +31927,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2897, col: 11, offset: 91651},
+																						pos: position{line: 2898, col: 11, offset: 91676},
 																						expr: &anyMatcher{
-																							line: 2897, col: 13, offset: 91653,
+																							line: 2898, col: 13, offset: 91678,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2826, col: 13, offset: 89843},
+																							pos: position{line: 2827, col: 13, offset: 89868},
 																							run: (*parser).callonListContinuationElement443,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2826, col: 13, offset: 89843},
+																								pos: position{line: 2827, col: 13, offset: 89868},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2826, col: 13, offset: 89843},
+																									pos:        position{line: 2827, col: 13, offset: 89868},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31951,28 +31951,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2902, col: 8, offset: 91715},
+																						pos: position{line: 2903, col: 8, offset: 91740},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2889, col: 12, offset: 91488},
+																								pos: position{line: 2890, col: 12, offset: 91513},
 																								run: (*parser).callonListContinuationElement447,
 																								expr: &choiceExpr{
-																									pos: position{line: 2889, col: 13, offset: 91489},
+																									pos: position{line: 2890, col: 13, offset: 91514},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 13, offset: 91489},
+																											pos:        position{line: 2890, col: 13, offset: 91514},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 20, offset: 91496},
+																											pos:        position{line: 2890, col: 20, offset: 91521},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 29, offset: 91505},
+																											pos:        position{line: 2890, col: 29, offset: 91530},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31981,9 +31981,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2899, col: 8, offset: 91665},
+																								pos: position{line: 2900, col: 8, offset: 91690},
 																								expr: &anyMatcher{
-																									line: 2899, col: 9, offset: 91666,
+																									line: 2900, col: 9, offset: 91691,
 																								},
 																							},
 																						},
@@ -32048,10 +32048,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 750, col: 8, offset: 23993},
 																							expr: &actionExpr{
-																								pos: position{line: 2880, col: 10, offset: 91317},
+																								pos: position{line: 2881, col: 10, offset: 91342},
 																								run: (*parser).callonListContinuationElement468,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 10, offset: 91317},
+																									pos:        position{line: 2881, col: 10, offset: 91342},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32060,28 +32060,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2902, col: 8, offset: 91715},
+																							pos: position{line: 2903, col: 8, offset: 91740},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2889, col: 12, offset: 91488},
+																									pos: position{line: 2890, col: 12, offset: 91513},
 																									run: (*parser).callonListContinuationElement471,
 																									expr: &choiceExpr{
-																										pos: position{line: 2889, col: 13, offset: 91489},
+																										pos: position{line: 2890, col: 13, offset: 91514},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 13, offset: 91489},
+																												pos:        position{line: 2890, col: 13, offset: 91514},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 20, offset: 91496},
+																												pos:        position{line: 2890, col: 20, offset: 91521},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 29, offset: 91505},
+																												pos:        position{line: 2890, col: 29, offset: 91530},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32090,9 +32090,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2899, col: 8, offset: 91665},
+																									pos: position{line: 2900, col: 8, offset: 91690},
 																									expr: &anyMatcher{
-																										line: 2899, col: 9, offset: 91666,
+																										line: 2900, col: 9, offset: 91691,
 																									},
 																								},
 																							},
@@ -32108,9 +32108,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2899, col: 8, offset: 91665},
+																	pos: position{line: 2900, col: 8, offset: 91690},
 																	expr: &anyMatcher{
-																		line: 2899, col: 9, offset: 91666,
+																		line: 2900, col: 9, offset: 91691,
 																	},
 																},
 															},
@@ -32162,10 +32162,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 761, col: 52, offset: 24405},
 																	expr: &actionExpr{
-																		pos: position{line: 2880, col: 10, offset: 91317},
+																		pos: position{line: 2881, col: 10, offset: 91342},
 																		run: (*parser).callonListContinuationElement492,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 10, offset: 91317},
+																			pos:        position{line: 2881, col: 10, offset: 91342},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32174,28 +32174,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2902, col: 8, offset: 91715},
+																	pos: position{line: 2903, col: 8, offset: 91740},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2889, col: 12, offset: 91488},
+																			pos: position{line: 2890, col: 12, offset: 91513},
 																			run: (*parser).callonListContinuationElement495,
 																			expr: &choiceExpr{
-																				pos: position{line: 2889, col: 13, offset: 91489},
+																				pos: position{line: 2890, col: 13, offset: 91514},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 13, offset: 91489},
+																						pos:        position{line: 2890, col: 13, offset: 91514},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 20, offset: 91496},
+																						pos:        position{line: 2890, col: 20, offset: 91521},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 29, offset: 91505},
+																						pos:        position{line: 2890, col: 29, offset: 91530},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32204,9 +32204,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2899, col: 8, offset: 91665},
+																			pos: position{line: 2900, col: 8, offset: 91690},
 																			expr: &anyMatcher{
-																				line: 2899, col: 9, offset: 91666,
+																				line: 2900, col: 9, offset: 91691,
 																			},
 																		},
 																	},
@@ -32240,10 +32240,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 964, col: 40, offset: 30213},
 																					expr: &actionExpr{
-																						pos: position{line: 2880, col: 10, offset: 91317},
+																						pos: position{line: 2881, col: 10, offset: 91342},
 																						run: (*parser).callonListContinuationElement510,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2880, col: 10, offset: 91317},
+																							pos:        position{line: 2881, col: 10, offset: 91342},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -32252,28 +32252,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2902, col: 8, offset: 91715},
+																					pos: position{line: 2903, col: 8, offset: 91740},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2889, col: 12, offset: 91488},
+																							pos: position{line: 2890, col: 12, offset: 91513},
 																							run: (*parser).callonListContinuationElement513,
 																							expr: &choiceExpr{
-																								pos: position{line: 2889, col: 13, offset: 91489},
+																								pos: position{line: 2890, col: 13, offset: 91514},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2889, col: 13, offset: 91489},
+																										pos:        position{line: 2890, col: 13, offset: 91514},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2889, col: 20, offset: 91496},
+																										pos:        position{line: 2890, col: 20, offset: 91521},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2889, col: 29, offset: 91505},
+																										pos:        position{line: 2890, col: 29, offset: 91530},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -32282,9 +32282,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2899, col: 8, offset: 91665},
+																							pos: position{line: 2900, col: 8, offset: 91690},
 																							expr: &anyMatcher{
-																								line: 2899, col: 9, offset: 91666,
+																								line: 2900, col: 9, offset: 91691,
 																							},
 																						},
 																					},
@@ -32302,21 +32302,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2897, col: 11, offset: 91651},
+																						pos: position{line: 2898, col: 11, offset: 91676},
 																						expr: &anyMatcher{
-																							line: 2897, col: 13, offset: 91653,
+																							line: 2898, col: 13, offset: 91678,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2826, col: 13, offset: 89843},
+																							pos: position{line: 2827, col: 13, offset: 89868},
 																							run: (*parser).callonListContinuationElement526,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2826, col: 13, offset: 89843},
+																								pos: position{line: 2827, col: 13, offset: 89868},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2826, col: 13, offset: 89843},
+																									pos:        position{line: 2827, col: 13, offset: 89868},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32326,28 +32326,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2902, col: 8, offset: 91715},
+																						pos: position{line: 2903, col: 8, offset: 91740},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2889, col: 12, offset: 91488},
+																								pos: position{line: 2890, col: 12, offset: 91513},
 																								run: (*parser).callonListContinuationElement530,
 																								expr: &choiceExpr{
-																									pos: position{line: 2889, col: 13, offset: 91489},
+																									pos: position{line: 2890, col: 13, offset: 91514},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 13, offset: 91489},
+																											pos:        position{line: 2890, col: 13, offset: 91514},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 20, offset: 91496},
+																											pos:        position{line: 2890, col: 20, offset: 91521},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 29, offset: 91505},
+																											pos:        position{line: 2890, col: 29, offset: 91530},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32356,9 +32356,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2899, col: 8, offset: 91665},
+																								pos: position{line: 2900, col: 8, offset: 91690},
 																								expr: &anyMatcher{
-																									line: 2899, col: 9, offset: 91666,
+																									line: 2900, col: 9, offset: 91691,
 																								},
 																							},
 																						},
@@ -32386,10 +32386,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 964, col: 40, offset: 30213},
 																expr: &actionExpr{
-																	pos: position{line: 2880, col: 10, offset: 91317},
+																	pos: position{line: 2881, col: 10, offset: 91342},
 																	run: (*parser).callonListContinuationElement541,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2880, col: 10, offset: 91317},
+																		pos:        position{line: 2881, col: 10, offset: 91342},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -32398,28 +32398,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2902, col: 8, offset: 91715},
+																pos: position{line: 2903, col: 8, offset: 91740},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2889, col: 12, offset: 91488},
+																		pos: position{line: 2890, col: 12, offset: 91513},
 																		run: (*parser).callonListContinuationElement544,
 																		expr: &choiceExpr{
-																			pos: position{line: 2889, col: 13, offset: 91489},
+																			pos: position{line: 2890, col: 13, offset: 91514},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2889, col: 13, offset: 91489},
+																					pos:        position{line: 2890, col: 13, offset: 91514},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2889, col: 20, offset: 91496},
+																					pos:        position{line: 2890, col: 20, offset: 91521},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2889, col: 29, offset: 91505},
+																					pos:        position{line: 2890, col: 29, offset: 91530},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -32428,9 +32428,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2899, col: 8, offset: 91665},
+																		pos: position{line: 2900, col: 8, offset: 91690},
 																		expr: &anyMatcher{
-																			line: 2899, col: 9, offset: 91666,
+																			line: 2900, col: 9, offset: 91691,
 																		},
 																	},
 																},
@@ -32487,10 +32487,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 757, col: 8, offset: 24239},
 																	expr: &actionExpr{
-																		pos: position{line: 2880, col: 10, offset: 91317},
+																		pos: position{line: 2881, col: 10, offset: 91342},
 																		run: (*parser).callonListContinuationElement563,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 10, offset: 91317},
+																			pos:        position{line: 2881, col: 10, offset: 91342},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32499,28 +32499,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2902, col: 8, offset: 91715},
+																	pos: position{line: 2903, col: 8, offset: 91740},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2889, col: 12, offset: 91488},
+																			pos: position{line: 2890, col: 12, offset: 91513},
 																			run: (*parser).callonListContinuationElement566,
 																			expr: &choiceExpr{
-																				pos: position{line: 2889, col: 13, offset: 91489},
+																				pos: position{line: 2890, col: 13, offset: 91514},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 13, offset: 91489},
+																						pos:        position{line: 2890, col: 13, offset: 91514},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 20, offset: 91496},
+																						pos:        position{line: 2890, col: 20, offset: 91521},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 29, offset: 91505},
+																						pos:        position{line: 2890, col: 29, offset: 91530},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32529,9 +32529,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2899, col: 8, offset: 91665},
+																			pos: position{line: 2900, col: 8, offset: 91690},
 																			expr: &anyMatcher{
-																				line: 2899, col: 9, offset: 91666,
+																				line: 2900, col: 9, offset: 91691,
 																			},
 																		},
 																	},
@@ -32603,10 +32603,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 757, col: 8, offset: 24239},
 																											expr: &actionExpr{
-																												pos: position{line: 2880, col: 10, offset: 91317},
+																												pos: position{line: 2881, col: 10, offset: 91342},
 																												run: (*parser).callonListContinuationElement591,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2880, col: 10, offset: 91317},
+																													pos:        position{line: 2881, col: 10, offset: 91342},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32615,28 +32615,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2902, col: 8, offset: 91715},
+																											pos: position{line: 2903, col: 8, offset: 91740},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2889, col: 12, offset: 91488},
+																													pos: position{line: 2890, col: 12, offset: 91513},
 																													run: (*parser).callonListContinuationElement594,
 																													expr: &choiceExpr{
-																														pos: position{line: 2889, col: 13, offset: 91489},
+																														pos: position{line: 2890, col: 13, offset: 91514},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 13, offset: 91489},
+																																pos:        position{line: 2890, col: 13, offset: 91514},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 20, offset: 91496},
+																																pos:        position{line: 2890, col: 20, offset: 91521},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 29, offset: 91505},
+																																pos:        position{line: 2890, col: 29, offset: 91530},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32645,9 +32645,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2899, col: 8, offset: 91665},
+																													pos: position{line: 2900, col: 8, offset: 91690},
 																													expr: &anyMatcher{
-																														line: 2899, col: 9, offset: 91666,
+																														line: 2900, col: 9, offset: 91691,
 																													},
 																												},
 																											},
@@ -32663,9 +32663,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2899, col: 8, offset: 91665},
+																					pos: position{line: 2900, col: 8, offset: 91690},
 																					expr: &anyMatcher{
-																						line: 2899, col: 9, offset: 91666,
+																						line: 2900, col: 9, offset: 91691,
 																					},
 																				},
 																			},
@@ -32681,21 +32681,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2897, col: 11, offset: 91651},
+																						pos: position{line: 2898, col: 11, offset: 91676},
 																						expr: &anyMatcher{
-																							line: 2897, col: 13, offset: 91653,
+																							line: 2898, col: 13, offset: 91678,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2826, col: 13, offset: 89843},
+																							pos: position{line: 2827, col: 13, offset: 89868},
 																							run: (*parser).callonListContinuationElement610,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2826, col: 13, offset: 89843},
+																								pos: position{line: 2827, col: 13, offset: 89868},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2826, col: 13, offset: 89843},
+																									pos:        position{line: 2827, col: 13, offset: 89868},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32705,28 +32705,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2902, col: 8, offset: 91715},
+																						pos: position{line: 2903, col: 8, offset: 91740},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2889, col: 12, offset: 91488},
+																								pos: position{line: 2890, col: 12, offset: 91513},
 																								run: (*parser).callonListContinuationElement614,
 																								expr: &choiceExpr{
-																									pos: position{line: 2889, col: 13, offset: 91489},
+																									pos: position{line: 2890, col: 13, offset: 91514},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 13, offset: 91489},
+																											pos:        position{line: 2890, col: 13, offset: 91514},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 20, offset: 91496},
+																											pos:        position{line: 2890, col: 20, offset: 91521},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 29, offset: 91505},
+																											pos:        position{line: 2890, col: 29, offset: 91530},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32735,9 +32735,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2899, col: 8, offset: 91665},
+																								pos: position{line: 2900, col: 8, offset: 91690},
 																								expr: &anyMatcher{
-																									line: 2899, col: 9, offset: 91666,
+																									line: 2900, col: 9, offset: 91691,
 																								},
 																							},
 																						},
@@ -32802,10 +32802,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 757, col: 8, offset: 24239},
 																							expr: &actionExpr{
-																								pos: position{line: 2880, col: 10, offset: 91317},
+																								pos: position{line: 2881, col: 10, offset: 91342},
 																								run: (*parser).callonListContinuationElement635,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 10, offset: 91317},
+																									pos:        position{line: 2881, col: 10, offset: 91342},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32814,28 +32814,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2902, col: 8, offset: 91715},
+																							pos: position{line: 2903, col: 8, offset: 91740},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2889, col: 12, offset: 91488},
+																									pos: position{line: 2890, col: 12, offset: 91513},
 																									run: (*parser).callonListContinuationElement638,
 																									expr: &choiceExpr{
-																										pos: position{line: 2889, col: 13, offset: 91489},
+																										pos: position{line: 2890, col: 13, offset: 91514},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 13, offset: 91489},
+																												pos:        position{line: 2890, col: 13, offset: 91514},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 20, offset: 91496},
+																												pos:        position{line: 2890, col: 20, offset: 91521},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 29, offset: 91505},
+																												pos:        position{line: 2890, col: 29, offset: 91530},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32844,9 +32844,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2899, col: 8, offset: 91665},
+																									pos: position{line: 2900, col: 8, offset: 91690},
 																									expr: &anyMatcher{
-																										line: 2899, col: 9, offset: 91666,
+																										line: 2900, col: 9, offset: 91691,
 																									},
 																								},
 																							},
@@ -32862,9 +32862,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2899, col: 8, offset: 91665},
+																	pos: position{line: 2900, col: 8, offset: 91690},
 																	expr: &anyMatcher{
-																		line: 2899, col: 9, offset: 91666,
+																		line: 2900, col: 9, offset: 91691,
 																	},
 																},
 															},
@@ -32920,10 +32920,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 772, col: 8, offset: 24782},
 																	expr: &actionExpr{
-																		pos: position{line: 2880, col: 10, offset: 91317},
+																		pos: position{line: 2881, col: 10, offset: 91342},
 																		run: (*parser).callonListContinuationElement660,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 10, offset: 91317},
+																			pos:        position{line: 2881, col: 10, offset: 91342},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32932,28 +32932,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2902, col: 8, offset: 91715},
+																	pos: position{line: 2903, col: 8, offset: 91740},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2889, col: 12, offset: 91488},
+																			pos: position{line: 2890, col: 12, offset: 91513},
 																			run: (*parser).callonListContinuationElement663,
 																			expr: &choiceExpr{
-																				pos: position{line: 2889, col: 13, offset: 91489},
+																				pos: position{line: 2890, col: 13, offset: 91514},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 13, offset: 91489},
+																						pos:        position{line: 2890, col: 13, offset: 91514},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 20, offset: 91496},
+																						pos:        position{line: 2890, col: 20, offset: 91521},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 29, offset: 91505},
+																						pos:        position{line: 2890, col: 29, offset: 91530},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32962,9 +32962,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2899, col: 8, offset: 91665},
+																			pos: position{line: 2900, col: 8, offset: 91690},
 																			expr: &anyMatcher{
-																				line: 2899, col: 9, offset: 91666,
+																				line: 2900, col: 9, offset: 91691,
 																			},
 																		},
 																	},
@@ -33036,10 +33036,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 772, col: 8, offset: 24782},
 																											expr: &actionExpr{
-																												pos: position{line: 2880, col: 10, offset: 91317},
+																												pos: position{line: 2881, col: 10, offset: 91342},
 																												run: (*parser).callonListContinuationElement688,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2880, col: 10, offset: 91317},
+																													pos:        position{line: 2881, col: 10, offset: 91342},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33048,28 +33048,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2902, col: 8, offset: 91715},
+																											pos: position{line: 2903, col: 8, offset: 91740},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2889, col: 12, offset: 91488},
+																													pos: position{line: 2890, col: 12, offset: 91513},
 																													run: (*parser).callonListContinuationElement691,
 																													expr: &choiceExpr{
-																														pos: position{line: 2889, col: 13, offset: 91489},
+																														pos: position{line: 2890, col: 13, offset: 91514},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 13, offset: 91489},
+																																pos:        position{line: 2890, col: 13, offset: 91514},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 20, offset: 91496},
+																																pos:        position{line: 2890, col: 20, offset: 91521},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 29, offset: 91505},
+																																pos:        position{line: 2890, col: 29, offset: 91530},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33078,9 +33078,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2899, col: 8, offset: 91665},
+																													pos: position{line: 2900, col: 8, offset: 91690},
 																													expr: &anyMatcher{
-																														line: 2899, col: 9, offset: 91666,
+																														line: 2900, col: 9, offset: 91691,
 																													},
 																												},
 																											},
@@ -33096,9 +33096,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2899, col: 8, offset: 91665},
+																					pos: position{line: 2900, col: 8, offset: 91690},
 																					expr: &anyMatcher{
-																						line: 2899, col: 9, offset: 91666,
+																						line: 2900, col: 9, offset: 91691,
 																					},
 																				},
 																			},
@@ -33114,21 +33114,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2897, col: 11, offset: 91651},
+																						pos: position{line: 2898, col: 11, offset: 91676},
 																						expr: &anyMatcher{
-																							line: 2897, col: 13, offset: 91653,
+																							line: 2898, col: 13, offset: 91678,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2826, col: 13, offset: 89843},
+																							pos: position{line: 2827, col: 13, offset: 89868},
 																							run: (*parser).callonListContinuationElement707,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2826, col: 13, offset: 89843},
+																								pos: position{line: 2827, col: 13, offset: 89868},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2826, col: 13, offset: 89843},
+																									pos:        position{line: 2827, col: 13, offset: 89868},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33138,28 +33138,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2902, col: 8, offset: 91715},
+																						pos: position{line: 2903, col: 8, offset: 91740},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2889, col: 12, offset: 91488},
+																								pos: position{line: 2890, col: 12, offset: 91513},
 																								run: (*parser).callonListContinuationElement711,
 																								expr: &choiceExpr{
-																									pos: position{line: 2889, col: 13, offset: 91489},
+																									pos: position{line: 2890, col: 13, offset: 91514},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 13, offset: 91489},
+																											pos:        position{line: 2890, col: 13, offset: 91514},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 20, offset: 91496},
+																											pos:        position{line: 2890, col: 20, offset: 91521},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 29, offset: 91505},
+																											pos:        position{line: 2890, col: 29, offset: 91530},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33168,9 +33168,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2899, col: 8, offset: 91665},
+																								pos: position{line: 2900, col: 8, offset: 91690},
 																								expr: &anyMatcher{
-																									line: 2899, col: 9, offset: 91666,
+																									line: 2900, col: 9, offset: 91691,
 																								},
 																							},
 																						},
@@ -33235,10 +33235,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 772, col: 8, offset: 24782},
 																							expr: &actionExpr{
-																								pos: position{line: 2880, col: 10, offset: 91317},
+																								pos: position{line: 2881, col: 10, offset: 91342},
 																								run: (*parser).callonListContinuationElement732,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 10, offset: 91317},
+																									pos:        position{line: 2881, col: 10, offset: 91342},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33247,28 +33247,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2902, col: 8, offset: 91715},
+																							pos: position{line: 2903, col: 8, offset: 91740},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2889, col: 12, offset: 91488},
+																									pos: position{line: 2890, col: 12, offset: 91513},
 																									run: (*parser).callonListContinuationElement735,
 																									expr: &choiceExpr{
-																										pos: position{line: 2889, col: 13, offset: 91489},
+																										pos: position{line: 2890, col: 13, offset: 91514},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 13, offset: 91489},
+																												pos:        position{line: 2890, col: 13, offset: 91514},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 20, offset: 91496},
+																												pos:        position{line: 2890, col: 20, offset: 91521},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 29, offset: 91505},
+																												pos:        position{line: 2890, col: 29, offset: 91530},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33277,9 +33277,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2899, col: 8, offset: 91665},
+																									pos: position{line: 2900, col: 8, offset: 91690},
 																									expr: &anyMatcher{
-																										line: 2899, col: 9, offset: 91666,
+																										line: 2900, col: 9, offset: 91691,
 																									},
 																								},
 																							},
@@ -33295,9 +33295,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2899, col: 8, offset: 91665},
+																	pos: position{line: 2900, col: 8, offset: 91690},
 																	expr: &anyMatcher{
-																		line: 2899, col: 9, offset: 91666,
+																		line: 2900, col: 9, offset: 91691,
 																	},
 																},
 															},
@@ -33353,10 +33353,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 786, col: 8, offset: 25258},
 																	expr: &actionExpr{
-																		pos: position{line: 2880, col: 10, offset: 91317},
+																		pos: position{line: 2881, col: 10, offset: 91342},
 																		run: (*parser).callonListContinuationElement757,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 10, offset: 91317},
+																			pos:        position{line: 2881, col: 10, offset: 91342},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33365,28 +33365,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2902, col: 8, offset: 91715},
+																	pos: position{line: 2903, col: 8, offset: 91740},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2889, col: 12, offset: 91488},
+																			pos: position{line: 2890, col: 12, offset: 91513},
 																			run: (*parser).callonListContinuationElement760,
 																			expr: &choiceExpr{
-																				pos: position{line: 2889, col: 13, offset: 91489},
+																				pos: position{line: 2890, col: 13, offset: 91514},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 13, offset: 91489},
+																						pos:        position{line: 2890, col: 13, offset: 91514},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 20, offset: 91496},
+																						pos:        position{line: 2890, col: 20, offset: 91521},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 29, offset: 91505},
+																						pos:        position{line: 2890, col: 29, offset: 91530},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33395,9 +33395,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2899, col: 8, offset: 91665},
+																			pos: position{line: 2900, col: 8, offset: 91690},
 																			expr: &anyMatcher{
-																				line: 2899, col: 9, offset: 91666,
+																				line: 2900, col: 9, offset: 91691,
 																			},
 																		},
 																	},
@@ -33469,10 +33469,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 786, col: 8, offset: 25258},
 																											expr: &actionExpr{
-																												pos: position{line: 2880, col: 10, offset: 91317},
+																												pos: position{line: 2881, col: 10, offset: 91342},
 																												run: (*parser).callonListContinuationElement785,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2880, col: 10, offset: 91317},
+																													pos:        position{line: 2881, col: 10, offset: 91342},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33481,28 +33481,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2902, col: 8, offset: 91715},
+																											pos: position{line: 2903, col: 8, offset: 91740},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2889, col: 12, offset: 91488},
+																													pos: position{line: 2890, col: 12, offset: 91513},
 																													run: (*parser).callonListContinuationElement788,
 																													expr: &choiceExpr{
-																														pos: position{line: 2889, col: 13, offset: 91489},
+																														pos: position{line: 2890, col: 13, offset: 91514},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 13, offset: 91489},
+																																pos:        position{line: 2890, col: 13, offset: 91514},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 20, offset: 91496},
+																																pos:        position{line: 2890, col: 20, offset: 91521},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 29, offset: 91505},
+																																pos:        position{line: 2890, col: 29, offset: 91530},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33511,9 +33511,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2899, col: 8, offset: 91665},
+																													pos: position{line: 2900, col: 8, offset: 91690},
 																													expr: &anyMatcher{
-																														line: 2899, col: 9, offset: 91666,
+																														line: 2900, col: 9, offset: 91691,
 																													},
 																												},
 																											},
@@ -33529,9 +33529,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2899, col: 8, offset: 91665},
+																					pos: position{line: 2900, col: 8, offset: 91690},
 																					expr: &anyMatcher{
-																						line: 2899, col: 9, offset: 91666,
+																						line: 2900, col: 9, offset: 91691,
 																					},
 																				},
 																			},
@@ -33547,21 +33547,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2897, col: 11, offset: 91651},
+																						pos: position{line: 2898, col: 11, offset: 91676},
 																						expr: &anyMatcher{
-																							line: 2897, col: 13, offset: 91653,
+																							line: 2898, col: 13, offset: 91678,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2826, col: 13, offset: 89843},
+																							pos: position{line: 2827, col: 13, offset: 89868},
 																							run: (*parser).callonListContinuationElement804,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2826, col: 13, offset: 89843},
+																								pos: position{line: 2827, col: 13, offset: 89868},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2826, col: 13, offset: 89843},
+																									pos:        position{line: 2827, col: 13, offset: 89868},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33571,28 +33571,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2902, col: 8, offset: 91715},
+																						pos: position{line: 2903, col: 8, offset: 91740},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2889, col: 12, offset: 91488},
+																								pos: position{line: 2890, col: 12, offset: 91513},
 																								run: (*parser).callonListContinuationElement808,
 																								expr: &choiceExpr{
-																									pos: position{line: 2889, col: 13, offset: 91489},
+																									pos: position{line: 2890, col: 13, offset: 91514},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 13, offset: 91489},
+																											pos:        position{line: 2890, col: 13, offset: 91514},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 20, offset: 91496},
+																											pos:        position{line: 2890, col: 20, offset: 91521},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 29, offset: 91505},
+																											pos:        position{line: 2890, col: 29, offset: 91530},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33601,9 +33601,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2899, col: 8, offset: 91665},
+																								pos: position{line: 2900, col: 8, offset: 91690},
 																								expr: &anyMatcher{
-																									line: 2899, col: 9, offset: 91666,
+																									line: 2900, col: 9, offset: 91691,
 																								},
 																							},
 																						},
@@ -33668,10 +33668,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 786, col: 8, offset: 25258},
 																							expr: &actionExpr{
-																								pos: position{line: 2880, col: 10, offset: 91317},
+																								pos: position{line: 2881, col: 10, offset: 91342},
 																								run: (*parser).callonListContinuationElement829,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 10, offset: 91317},
+																									pos:        position{line: 2881, col: 10, offset: 91342},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33680,28 +33680,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2902, col: 8, offset: 91715},
+																							pos: position{line: 2903, col: 8, offset: 91740},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2889, col: 12, offset: 91488},
+																									pos: position{line: 2890, col: 12, offset: 91513},
 																									run: (*parser).callonListContinuationElement832,
 																									expr: &choiceExpr{
-																										pos: position{line: 2889, col: 13, offset: 91489},
+																										pos: position{line: 2890, col: 13, offset: 91514},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 13, offset: 91489},
+																												pos:        position{line: 2890, col: 13, offset: 91514},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 20, offset: 91496},
+																												pos:        position{line: 2890, col: 20, offset: 91521},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 29, offset: 91505},
+																												pos:        position{line: 2890, col: 29, offset: 91530},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33710,9 +33710,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2899, col: 8, offset: 91665},
+																									pos: position{line: 2900, col: 8, offset: 91690},
 																									expr: &anyMatcher{
-																										line: 2899, col: 9, offset: 91666,
+																										line: 2900, col: 9, offset: 91691,
 																									},
 																								},
 																							},
@@ -33728,9 +33728,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2899, col: 8, offset: 91665},
+																	pos: position{line: 2900, col: 8, offset: 91690},
 																	expr: &anyMatcher{
-																		line: 2899, col: 9, offset: 91666,
+																		line: 2900, col: 9, offset: 91691,
 																	},
 																},
 															},
@@ -33764,18 +33764,18 @@ var g = &grammar{
 																			pos: position{line: 677, col: 14, offset: 21525},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2897, col: 11, offset: 91651},
+																					pos: position{line: 2898, col: 11, offset: 91676},
 																					expr: &anyMatcher{
-																						line: 2897, col: 13, offset: 91653,
+																						line: 2898, col: 13, offset: 91678,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21532},
 																					expr: &actionExpr{
-																						pos: position{line: 2880, col: 10, offset: 91317},
+																						pos: position{line: 2881, col: 10, offset: 91342},
 																						run: (*parser).callonListContinuationElement853,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2880, col: 10, offset: 91317},
+																							pos:        position{line: 2881, col: 10, offset: 91342},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -33784,28 +33784,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2902, col: 8, offset: 91715},
+																					pos: position{line: 2903, col: 8, offset: 91740},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2889, col: 12, offset: 91488},
+																							pos: position{line: 2890, col: 12, offset: 91513},
 																							run: (*parser).callonListContinuationElement856,
 																							expr: &choiceExpr{
-																								pos: position{line: 2889, col: 13, offset: 91489},
+																								pos: position{line: 2890, col: 13, offset: 91514},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2889, col: 13, offset: 91489},
+																										pos:        position{line: 2890, col: 13, offset: 91514},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2889, col: 20, offset: 91496},
+																										pos:        position{line: 2890, col: 20, offset: 91521},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2889, col: 29, offset: 91505},
+																										pos:        position{line: 2890, col: 29, offset: 91530},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -33814,9 +33814,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2899, col: 8, offset: 91665},
+																							pos: position{line: 2900, col: 8, offset: 91690},
 																							expr: &anyMatcher{
-																								line: 2899, col: 9, offset: 91666,
+																								line: 2900, col: 9, offset: 91691,
 																							},
 																						},
 																					},
@@ -33835,12 +33835,12 @@ var g = &grammar{
 																	pos:   position{line: 985, col: 5, offset: 30748},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2830, col: 14, offset: 89910},
+																		pos: position{line: 2831, col: 14, offset: 89935},
 																		run: (*parser).callonListContinuationElement865,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2830, col: 14, offset: 89910},
+																			pos: position{line: 2831, col: 14, offset: 89935},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2830, col: 14, offset: 89910},
+																				pos:        position{line: 2831, col: 14, offset: 89935},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -33850,28 +33850,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2902, col: 8, offset: 91715},
+																	pos: position{line: 2903, col: 8, offset: 91740},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2889, col: 12, offset: 91488},
+																			pos: position{line: 2890, col: 12, offset: 91513},
 																			run: (*parser).callonListContinuationElement869,
 																			expr: &choiceExpr{
-																				pos: position{line: 2889, col: 13, offset: 91489},
+																				pos: position{line: 2890, col: 13, offset: 91514},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 13, offset: 91489},
+																						pos:        position{line: 2890, col: 13, offset: 91514},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 20, offset: 91496},
+																						pos:        position{line: 2890, col: 20, offset: 91521},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 29, offset: 91505},
+																						pos:        position{line: 2890, col: 29, offset: 91530},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33880,9 +33880,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2899, col: 8, offset: 91665},
+																			pos: position{line: 2900, col: 8, offset: 91690},
 																			expr: &anyMatcher{
-																				line: 2899, col: 9, offset: 91666,
+																				line: 2900, col: 9, offset: 91691,
 																			},
 																		},
 																	},
@@ -33914,18 +33914,18 @@ var g = &grammar{
 																						pos: position{line: 677, col: 14, offset: 21525},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2897, col: 11, offset: 91651},
+																								pos: position{line: 2898, col: 11, offset: 91676},
 																								expr: &anyMatcher{
-																									line: 2897, col: 13, offset: 91653,
+																									line: 2898, col: 13, offset: 91678,
 																								},
 																							},
 																							&zeroOrMoreExpr{
 																								pos: position{line: 677, col: 21, offset: 21532},
 																								expr: &actionExpr{
-																									pos: position{line: 2880, col: 10, offset: 91317},
+																									pos: position{line: 2881, col: 10, offset: 91342},
 																									run: (*parser).callonListContinuationElement887,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2880, col: 10, offset: 91317},
+																										pos:        position{line: 2881, col: 10, offset: 91342},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33934,28 +33934,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2902, col: 8, offset: 91715},
+																								pos: position{line: 2903, col: 8, offset: 91740},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2889, col: 12, offset: 91488},
+																										pos: position{line: 2890, col: 12, offset: 91513},
 																										run: (*parser).callonListContinuationElement890,
 																										expr: &choiceExpr{
-																											pos: position{line: 2889, col: 13, offset: 91489},
+																											pos: position{line: 2890, col: 13, offset: 91514},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2889, col: 13, offset: 91489},
+																													pos:        position{line: 2890, col: 13, offset: 91514},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2889, col: 20, offset: 91496},
+																													pos:        position{line: 2890, col: 20, offset: 91521},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2889, col: 29, offset: 91505},
+																													pos:        position{line: 2890, col: 29, offset: 91530},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33964,9 +33964,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2899, col: 8, offset: 91665},
+																										pos: position{line: 2900, col: 8, offset: 91690},
 																										expr: &anyMatcher{
-																											line: 2899, col: 9, offset: 91666,
+																											line: 2900, col: 9, offset: 91691,
 																										},
 																									},
 																								},
@@ -33985,12 +33985,12 @@ var g = &grammar{
 																				pos:   position{line: 985, col: 5, offset: 30748},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2830, col: 14, offset: 89910},
+																					pos: position{line: 2831, col: 14, offset: 89935},
 																					run: (*parser).callonListContinuationElement899,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2830, col: 14, offset: 89910},
+																						pos: position{line: 2831, col: 14, offset: 89935},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2830, col: 14, offset: 89910},
+																							pos:        position{line: 2831, col: 14, offset: 89935},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34000,28 +34000,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2902, col: 8, offset: 91715},
+																				pos: position{line: 2903, col: 8, offset: 91740},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2889, col: 12, offset: 91488},
+																						pos: position{line: 2890, col: 12, offset: 91513},
 																						run: (*parser).callonListContinuationElement903,
 																						expr: &choiceExpr{
-																							pos: position{line: 2889, col: 13, offset: 91489},
+																							pos: position{line: 2890, col: 13, offset: 91514},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2889, col: 13, offset: 91489},
+																									pos:        position{line: 2890, col: 13, offset: 91514},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2889, col: 20, offset: 91496},
+																									pos:        position{line: 2890, col: 20, offset: 91521},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2889, col: 29, offset: 91505},
+																									pos:        position{line: 2890, col: 29, offset: 91530},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34030,9 +34030,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2899, col: 8, offset: 91665},
+																						pos: position{line: 2900, col: 8, offset: 91690},
 																						expr: &anyMatcher{
-																							line: 2899, col: 9, offset: 91666,
+																							line: 2900, col: 9, offset: 91691,
 																						},
 																					},
 																				},
@@ -34041,21 +34041,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1797, col: 5, offset: 58258},
+																	pos: position{line: 1798, col: 5, offset: 58283},
 																	run: (*parser).callonListContinuationElement910,
 																	expr: &seqExpr{
-																		pos: position{line: 1797, col: 5, offset: 58258},
+																		pos: position{line: 1798, col: 5, offset: 58283},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1797, col: 5, offset: 58258},
+																				pos:   position{line: 1798, col: 5, offset: 58283},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2830, col: 14, offset: 89910},
+																					pos: position{line: 2831, col: 14, offset: 89935},
 																					run: (*parser).callonListContinuationElement913,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2830, col: 14, offset: 89910},
+																						pos: position{line: 2831, col: 14, offset: 89935},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2830, col: 14, offset: 89910},
+																							pos:        position{line: 2831, col: 14, offset: 89935},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34065,32 +34065,32 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1798, col: 5, offset: 58282},
+																				pos: position{line: 1799, col: 5, offset: 58307},
 																				run: (*parser).callonListContinuationElement916,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2902, col: 8, offset: 91715},
+																				pos: position{line: 2903, col: 8, offset: 91740},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2889, col: 12, offset: 91488},
+																						pos: position{line: 2890, col: 12, offset: 91513},
 																						run: (*parser).callonListContinuationElement918,
 																						expr: &choiceExpr{
-																							pos: position{line: 2889, col: 13, offset: 91489},
+																							pos: position{line: 2890, col: 13, offset: 91514},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2889, col: 13, offset: 91489},
+																									pos:        position{line: 2890, col: 13, offset: 91514},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2889, col: 20, offset: 91496},
+																									pos:        position{line: 2890, col: 20, offset: 91521},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2889, col: 29, offset: 91505},
+																									pos:        position{line: 2890, col: 29, offset: 91530},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34099,9 +34099,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2899, col: 8, offset: 91665},
+																						pos: position{line: 2900, col: 8, offset: 91690},
 																						expr: &anyMatcher{
-																							line: 2899, col: 9, offset: 91666,
+																							line: 2900, col: 9, offset: 91691,
 																						},
 																					},
 																				},
@@ -34148,10 +34148,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 779, col: 8, offset: 25013},
 																	expr: &actionExpr{
-																		pos: position{line: 2880, col: 10, offset: 91317},
+																		pos: position{line: 2881, col: 10, offset: 91342},
 																		run: (*parser).callonListContinuationElement934,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 10, offset: 91317},
+																			pos:        position{line: 2881, col: 10, offset: 91342},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34160,28 +34160,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2902, col: 8, offset: 91715},
+																	pos: position{line: 2903, col: 8, offset: 91740},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2889, col: 12, offset: 91488},
+																			pos: position{line: 2890, col: 12, offset: 91513},
 																			run: (*parser).callonListContinuationElement937,
 																			expr: &choiceExpr{
-																				pos: position{line: 2889, col: 13, offset: 91489},
+																				pos: position{line: 2890, col: 13, offset: 91514},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 13, offset: 91489},
+																						pos:        position{line: 2890, col: 13, offset: 91514},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 20, offset: 91496},
+																						pos:        position{line: 2890, col: 20, offset: 91521},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 29, offset: 91505},
+																						pos:        position{line: 2890, col: 29, offset: 91530},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34190,9 +34190,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2899, col: 8, offset: 91665},
+																			pos: position{line: 2900, col: 8, offset: 91690},
 																			expr: &anyMatcher{
-																				line: 2899, col: 9, offset: 91666,
+																				line: 2900, col: 9, offset: 91691,
 																			},
 																		},
 																	},
@@ -34240,10 +34240,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 779, col: 8, offset: 25013},
 																								expr: &actionExpr{
-																									pos: position{line: 2880, col: 10, offset: 91317},
+																									pos: position{line: 2881, col: 10, offset: 91342},
 																									run: (*parser).callonListContinuationElement956,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2880, col: 10, offset: 91317},
+																										pos:        position{line: 2881, col: 10, offset: 91342},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -34252,28 +34252,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2902, col: 8, offset: 91715},
+																								pos: position{line: 2903, col: 8, offset: 91740},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2889, col: 12, offset: 91488},
+																										pos: position{line: 2890, col: 12, offset: 91513},
 																										run: (*parser).callonListContinuationElement959,
 																										expr: &choiceExpr{
-																											pos: position{line: 2889, col: 13, offset: 91489},
+																											pos: position{line: 2890, col: 13, offset: 91514},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2889, col: 13, offset: 91489},
+																													pos:        position{line: 2890, col: 13, offset: 91514},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2889, col: 20, offset: 91496},
+																													pos:        position{line: 2890, col: 20, offset: 91521},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2889, col: 29, offset: 91505},
+																													pos:        position{line: 2890, col: 29, offset: 91530},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34282,9 +34282,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2899, col: 8, offset: 91665},
+																										pos: position{line: 2900, col: 8, offset: 91690},
 																										expr: &anyMatcher{
-																											line: 2899, col: 9, offset: 91666,
+																											line: 2900, col: 9, offset: 91691,
 																										},
 																									},
 																								},
@@ -34293,9 +34293,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2899, col: 8, offset: 91665},
+																					pos: position{line: 2900, col: 8, offset: 91690},
 																					expr: &anyMatcher{
-																						line: 2899, col: 9, offset: 91666,
+																						line: 2900, col: 9, offset: 91691,
 																					},
 																				},
 																			},
@@ -34311,21 +34311,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2897, col: 11, offset: 91651},
+																						pos: position{line: 2898, col: 11, offset: 91676},
 																						expr: &anyMatcher{
-																							line: 2897, col: 13, offset: 91653,
+																							line: 2898, col: 13, offset: 91678,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2826, col: 13, offset: 89843},
+																							pos: position{line: 2827, col: 13, offset: 89868},
 																							run: (*parser).callonListContinuationElement974,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2826, col: 13, offset: 89843},
+																								pos: position{line: 2827, col: 13, offset: 89868},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2826, col: 13, offset: 89843},
+																									pos:        position{line: 2827, col: 13, offset: 89868},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34335,28 +34335,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2902, col: 8, offset: 91715},
+																						pos: position{line: 2903, col: 8, offset: 91740},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2889, col: 12, offset: 91488},
+																								pos: position{line: 2890, col: 12, offset: 91513},
 																								run: (*parser).callonListContinuationElement978,
 																								expr: &choiceExpr{
-																									pos: position{line: 2889, col: 13, offset: 91489},
+																									pos: position{line: 2890, col: 13, offset: 91514},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 13, offset: 91489},
+																											pos:        position{line: 2890, col: 13, offset: 91514},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 20, offset: 91496},
+																											pos:        position{line: 2890, col: 20, offset: 91521},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 29, offset: 91505},
+																											pos:        position{line: 2890, col: 29, offset: 91530},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34365,9 +34365,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2899, col: 8, offset: 91665},
+																								pos: position{line: 2900, col: 8, offset: 91690},
 																								expr: &anyMatcher{
-																									line: 2899, col: 9, offset: 91666,
+																									line: 2900, col: 9, offset: 91691,
 																								},
 																							},
 																						},
@@ -34412,10 +34412,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 779, col: 8, offset: 25013},
 																				expr: &actionExpr{
-																					pos: position{line: 2880, col: 10, offset: 91317},
+																					pos: position{line: 2881, col: 10, offset: 91342},
 																					run: (*parser).callonListContinuationElement994,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2880, col: 10, offset: 91317},
+																						pos:        position{line: 2881, col: 10, offset: 91342},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -34424,28 +34424,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2902, col: 8, offset: 91715},
+																				pos: position{line: 2903, col: 8, offset: 91740},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2889, col: 12, offset: 91488},
+																						pos: position{line: 2890, col: 12, offset: 91513},
 																						run: (*parser).callonListContinuationElement997,
 																						expr: &choiceExpr{
-																							pos: position{line: 2889, col: 13, offset: 91489},
+																							pos: position{line: 2890, col: 13, offset: 91514},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2889, col: 13, offset: 91489},
+																									pos:        position{line: 2890, col: 13, offset: 91514},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2889, col: 20, offset: 91496},
+																									pos:        position{line: 2890, col: 20, offset: 91521},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2889, col: 29, offset: 91505},
+																									pos:        position{line: 2890, col: 29, offset: 91530},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34454,9 +34454,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2899, col: 8, offset: 91665},
+																						pos: position{line: 2900, col: 8, offset: 91690},
 																						expr: &anyMatcher{
-																							line: 2899, col: 9, offset: 91666,
+																							line: 2900, col: 9, offset: 91691,
 																						},
 																					},
 																				},
@@ -34465,9 +34465,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2899, col: 8, offset: 91665},
+																	pos: position{line: 2900, col: 8, offset: 91690},
 																	expr: &anyMatcher{
-																		line: 2899, col: 9, offset: 91666,
+																		line: 2900, col: 9, offset: 91691,
 																	},
 																},
 															},
@@ -34523,10 +34523,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 793, col: 8, offset: 25510},
 																	expr: &actionExpr{
-																		pos: position{line: 2880, col: 10, offset: 91317},
+																		pos: position{line: 2881, col: 10, offset: 91342},
 																		run: (*parser).callonListContinuationElement1018,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 10, offset: 91317},
+																			pos:        position{line: 2881, col: 10, offset: 91342},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34535,28 +34535,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2902, col: 8, offset: 91715},
+																	pos: position{line: 2903, col: 8, offset: 91740},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2889, col: 12, offset: 91488},
+																			pos: position{line: 2890, col: 12, offset: 91513},
 																			run: (*parser).callonListContinuationElement1021,
 																			expr: &choiceExpr{
-																				pos: position{line: 2889, col: 13, offset: 91489},
+																				pos: position{line: 2890, col: 13, offset: 91514},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 13, offset: 91489},
+																						pos:        position{line: 2890, col: 13, offset: 91514},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 20, offset: 91496},
+																						pos:        position{line: 2890, col: 20, offset: 91521},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 29, offset: 91505},
+																						pos:        position{line: 2890, col: 29, offset: 91530},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34565,9 +34565,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2899, col: 8, offset: 91665},
+																			pos: position{line: 2900, col: 8, offset: 91690},
 																			expr: &anyMatcher{
-																				line: 2899, col: 9, offset: 91666,
+																				line: 2900, col: 9, offset: 91691,
 																			},
 																		},
 																	},
@@ -34639,10 +34639,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 793, col: 8, offset: 25510},
 																											expr: &actionExpr{
-																												pos: position{line: 2880, col: 10, offset: 91317},
+																												pos: position{line: 2881, col: 10, offset: 91342},
 																												run: (*parser).callonListContinuationElement1046,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2880, col: 10, offset: 91317},
+																													pos:        position{line: 2881, col: 10, offset: 91342},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34651,28 +34651,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2902, col: 8, offset: 91715},
+																											pos: position{line: 2903, col: 8, offset: 91740},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2889, col: 12, offset: 91488},
+																													pos: position{line: 2890, col: 12, offset: 91513},
 																													run: (*parser).callonListContinuationElement1049,
 																													expr: &choiceExpr{
-																														pos: position{line: 2889, col: 13, offset: 91489},
+																														pos: position{line: 2890, col: 13, offset: 91514},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 13, offset: 91489},
+																																pos:        position{line: 2890, col: 13, offset: 91514},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 20, offset: 91496},
+																																pos:        position{line: 2890, col: 20, offset: 91521},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 29, offset: 91505},
+																																pos:        position{line: 2890, col: 29, offset: 91530},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34681,9 +34681,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2899, col: 8, offset: 91665},
+																													pos: position{line: 2900, col: 8, offset: 91690},
 																													expr: &anyMatcher{
-																														line: 2899, col: 9, offset: 91666,
+																														line: 2900, col: 9, offset: 91691,
 																													},
 																												},
 																											},
@@ -34699,9 +34699,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2899, col: 8, offset: 91665},
+																					pos: position{line: 2900, col: 8, offset: 91690},
 																					expr: &anyMatcher{
-																						line: 2899, col: 9, offset: 91666,
+																						line: 2900, col: 9, offset: 91691,
 																					},
 																				},
 																			},
@@ -34717,21 +34717,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2897, col: 11, offset: 91651},
+																						pos: position{line: 2898, col: 11, offset: 91676},
 																						expr: &anyMatcher{
-																							line: 2897, col: 13, offset: 91653,
+																							line: 2898, col: 13, offset: 91678,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2826, col: 13, offset: 89843},
+																							pos: position{line: 2827, col: 13, offset: 89868},
 																							run: (*parser).callonListContinuationElement1065,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2826, col: 13, offset: 89843},
+																								pos: position{line: 2827, col: 13, offset: 89868},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2826, col: 13, offset: 89843},
+																									pos:        position{line: 2827, col: 13, offset: 89868},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34741,28 +34741,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2902, col: 8, offset: 91715},
+																						pos: position{line: 2903, col: 8, offset: 91740},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2889, col: 12, offset: 91488},
+																								pos: position{line: 2890, col: 12, offset: 91513},
 																								run: (*parser).callonListContinuationElement1069,
 																								expr: &choiceExpr{
-																									pos: position{line: 2889, col: 13, offset: 91489},
+																									pos: position{line: 2890, col: 13, offset: 91514},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 13, offset: 91489},
+																											pos:        position{line: 2890, col: 13, offset: 91514},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 20, offset: 91496},
+																											pos:        position{line: 2890, col: 20, offset: 91521},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 29, offset: 91505},
+																											pos:        position{line: 2890, col: 29, offset: 91530},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34771,9 +34771,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2899, col: 8, offset: 91665},
+																								pos: position{line: 2900, col: 8, offset: 91690},
 																								expr: &anyMatcher{
-																									line: 2899, col: 9, offset: 91666,
+																									line: 2900, col: 9, offset: 91691,
 																								},
 																							},
 																						},
@@ -34838,10 +34838,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 793, col: 8, offset: 25510},
 																							expr: &actionExpr{
-																								pos: position{line: 2880, col: 10, offset: 91317},
+																								pos: position{line: 2881, col: 10, offset: 91342},
 																								run: (*parser).callonListContinuationElement1090,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 10, offset: 91317},
+																									pos:        position{line: 2881, col: 10, offset: 91342},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34850,28 +34850,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2902, col: 8, offset: 91715},
+																							pos: position{line: 2903, col: 8, offset: 91740},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2889, col: 12, offset: 91488},
+																									pos: position{line: 2890, col: 12, offset: 91513},
 																									run: (*parser).callonListContinuationElement1093,
 																									expr: &choiceExpr{
-																										pos: position{line: 2889, col: 13, offset: 91489},
+																										pos: position{line: 2890, col: 13, offset: 91514},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 13, offset: 91489},
+																												pos:        position{line: 2890, col: 13, offset: 91514},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 20, offset: 91496},
+																												pos:        position{line: 2890, col: 20, offset: 91521},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 29, offset: 91505},
+																												pos:        position{line: 2890, col: 29, offset: 91530},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34880,9 +34880,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2899, col: 8, offset: 91665},
+																									pos: position{line: 2900, col: 8, offset: 91690},
 																									expr: &anyMatcher{
-																										line: 2899, col: 9, offset: 91666,
+																										line: 2900, col: 9, offset: 91691,
 																									},
 																								},
 																							},
@@ -34898,9 +34898,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2899, col: 8, offset: 91665},
+																	pos: position{line: 2900, col: 8, offset: 91690},
 																	expr: &anyMatcher{
-																		line: 2899, col: 9, offset: 91666,
+																		line: 2900, col: 9, offset: 91691,
 																	},
 																},
 															},
@@ -34956,10 +34956,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 800, col: 8, offset: 25760},
 																	expr: &actionExpr{
-																		pos: position{line: 2880, col: 10, offset: 91317},
+																		pos: position{line: 2881, col: 10, offset: 91342},
 																		run: (*parser).callonListContinuationElement1115,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 10, offset: 91317},
+																			pos:        position{line: 2881, col: 10, offset: 91342},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34968,28 +34968,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2902, col: 8, offset: 91715},
+																	pos: position{line: 2903, col: 8, offset: 91740},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2889, col: 12, offset: 91488},
+																			pos: position{line: 2890, col: 12, offset: 91513},
 																			run: (*parser).callonListContinuationElement1118,
 																			expr: &choiceExpr{
-																				pos: position{line: 2889, col: 13, offset: 91489},
+																				pos: position{line: 2890, col: 13, offset: 91514},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 13, offset: 91489},
+																						pos:        position{line: 2890, col: 13, offset: 91514},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 20, offset: 91496},
+																						pos:        position{line: 2890, col: 20, offset: 91521},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 29, offset: 91505},
+																						pos:        position{line: 2890, col: 29, offset: 91530},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34998,9 +34998,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2899, col: 8, offset: 91665},
+																			pos: position{line: 2900, col: 8, offset: 91690},
 																			expr: &anyMatcher{
-																				line: 2899, col: 9, offset: 91666,
+																				line: 2900, col: 9, offset: 91691,
 																			},
 																		},
 																	},
@@ -35072,10 +35072,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 800, col: 8, offset: 25760},
 																											expr: &actionExpr{
-																												pos: position{line: 2880, col: 10, offset: 91317},
+																												pos: position{line: 2881, col: 10, offset: 91342},
 																												run: (*parser).callonListContinuationElement1143,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2880, col: 10, offset: 91317},
+																													pos:        position{line: 2881, col: 10, offset: 91342},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35084,28 +35084,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2902, col: 8, offset: 91715},
+																											pos: position{line: 2903, col: 8, offset: 91740},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2889, col: 12, offset: 91488},
+																													pos: position{line: 2890, col: 12, offset: 91513},
 																													run: (*parser).callonListContinuationElement1146,
 																													expr: &choiceExpr{
-																														pos: position{line: 2889, col: 13, offset: 91489},
+																														pos: position{line: 2890, col: 13, offset: 91514},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 13, offset: 91489},
+																																pos:        position{line: 2890, col: 13, offset: 91514},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 20, offset: 91496},
+																																pos:        position{line: 2890, col: 20, offset: 91521},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 29, offset: 91505},
+																																pos:        position{line: 2890, col: 29, offset: 91530},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35114,9 +35114,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2899, col: 8, offset: 91665},
+																													pos: position{line: 2900, col: 8, offset: 91690},
 																													expr: &anyMatcher{
-																														line: 2899, col: 9, offset: 91666,
+																														line: 2900, col: 9, offset: 91691,
 																													},
 																												},
 																											},
@@ -35132,9 +35132,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2899, col: 8, offset: 91665},
+																					pos: position{line: 2900, col: 8, offset: 91690},
 																					expr: &anyMatcher{
-																						line: 2899, col: 9, offset: 91666,
+																						line: 2900, col: 9, offset: 91691,
 																					},
 																				},
 																			},
@@ -35150,21 +35150,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2897, col: 11, offset: 91651},
+																						pos: position{line: 2898, col: 11, offset: 91676},
 																						expr: &anyMatcher{
-																							line: 2897, col: 13, offset: 91653,
+																							line: 2898, col: 13, offset: 91678,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2826, col: 13, offset: 89843},
+																							pos: position{line: 2827, col: 13, offset: 89868},
 																							run: (*parser).callonListContinuationElement1162,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2826, col: 13, offset: 89843},
+																								pos: position{line: 2827, col: 13, offset: 89868},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2826, col: 13, offset: 89843},
+																									pos:        position{line: 2827, col: 13, offset: 89868},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35174,28 +35174,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2902, col: 8, offset: 91715},
+																						pos: position{line: 2903, col: 8, offset: 91740},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2889, col: 12, offset: 91488},
+																								pos: position{line: 2890, col: 12, offset: 91513},
 																								run: (*parser).callonListContinuationElement1166,
 																								expr: &choiceExpr{
-																									pos: position{line: 2889, col: 13, offset: 91489},
+																									pos: position{line: 2890, col: 13, offset: 91514},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 13, offset: 91489},
+																											pos:        position{line: 2890, col: 13, offset: 91514},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 20, offset: 91496},
+																											pos:        position{line: 2890, col: 20, offset: 91521},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 29, offset: 91505},
+																											pos:        position{line: 2890, col: 29, offset: 91530},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35204,9 +35204,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2899, col: 8, offset: 91665},
+																								pos: position{line: 2900, col: 8, offset: 91690},
 																								expr: &anyMatcher{
-																									line: 2899, col: 9, offset: 91666,
+																									line: 2900, col: 9, offset: 91691,
 																								},
 																							},
 																						},
@@ -35271,10 +35271,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 800, col: 8, offset: 25760},
 																							expr: &actionExpr{
-																								pos: position{line: 2880, col: 10, offset: 91317},
+																								pos: position{line: 2881, col: 10, offset: 91342},
 																								run: (*parser).callonListContinuationElement1187,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 10, offset: 91317},
+																									pos:        position{line: 2881, col: 10, offset: 91342},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35283,28 +35283,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2902, col: 8, offset: 91715},
+																							pos: position{line: 2903, col: 8, offset: 91740},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2889, col: 12, offset: 91488},
+																									pos: position{line: 2890, col: 12, offset: 91513},
 																									run: (*parser).callonListContinuationElement1190,
 																									expr: &choiceExpr{
-																										pos: position{line: 2889, col: 13, offset: 91489},
+																										pos: position{line: 2890, col: 13, offset: 91514},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 13, offset: 91489},
+																												pos:        position{line: 2890, col: 13, offset: 91514},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 20, offset: 91496},
+																												pos:        position{line: 2890, col: 20, offset: 91521},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 29, offset: 91505},
+																												pos:        position{line: 2890, col: 29, offset: 91530},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35313,9 +35313,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2899, col: 8, offset: 91665},
+																									pos: position{line: 2900, col: 8, offset: 91690},
 																									expr: &anyMatcher{
-																										line: 2899, col: 9, offset: 91666,
+																										line: 2900, col: 9, offset: 91691,
 																									},
 																								},
 																							},
@@ -35331,9 +35331,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2899, col: 8, offset: 91665},
+																	pos: position{line: 2900, col: 8, offset: 91690},
 																	expr: &anyMatcher{
-																		line: 2899, col: 9, offset: 91666,
+																		line: 2900, col: 9, offset: 91691,
 																	},
 																},
 															},
@@ -35389,10 +35389,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 807, col: 8, offset: 26006},
 																	expr: &actionExpr{
-																		pos: position{line: 2880, col: 10, offset: 91317},
+																		pos: position{line: 2881, col: 10, offset: 91342},
 																		run: (*parser).callonListContinuationElement1212,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 10, offset: 91317},
+																			pos:        position{line: 2881, col: 10, offset: 91342},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35401,28 +35401,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2902, col: 8, offset: 91715},
+																	pos: position{line: 2903, col: 8, offset: 91740},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2889, col: 12, offset: 91488},
+																			pos: position{line: 2890, col: 12, offset: 91513},
 																			run: (*parser).callonListContinuationElement1215,
 																			expr: &choiceExpr{
-																				pos: position{line: 2889, col: 13, offset: 91489},
+																				pos: position{line: 2890, col: 13, offset: 91514},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 13, offset: 91489},
+																						pos:        position{line: 2890, col: 13, offset: 91514},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 20, offset: 91496},
+																						pos:        position{line: 2890, col: 20, offset: 91521},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 29, offset: 91505},
+																						pos:        position{line: 2890, col: 29, offset: 91530},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35431,9 +35431,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2899, col: 8, offset: 91665},
+																			pos: position{line: 2900, col: 8, offset: 91690},
 																			expr: &anyMatcher{
-																				line: 2899, col: 9, offset: 91666,
+																				line: 2900, col: 9, offset: 91691,
 																			},
 																		},
 																	},
@@ -35505,10 +35505,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 807, col: 8, offset: 26006},
 																											expr: &actionExpr{
-																												pos: position{line: 2880, col: 10, offset: 91317},
+																												pos: position{line: 2881, col: 10, offset: 91342},
 																												run: (*parser).callonListContinuationElement1240,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2880, col: 10, offset: 91317},
+																													pos:        position{line: 2881, col: 10, offset: 91342},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35517,28 +35517,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2902, col: 8, offset: 91715},
+																											pos: position{line: 2903, col: 8, offset: 91740},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2889, col: 12, offset: 91488},
+																													pos: position{line: 2890, col: 12, offset: 91513},
 																													run: (*parser).callonListContinuationElement1243,
 																													expr: &choiceExpr{
-																														pos: position{line: 2889, col: 13, offset: 91489},
+																														pos: position{line: 2890, col: 13, offset: 91514},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 13, offset: 91489},
+																																pos:        position{line: 2890, col: 13, offset: 91514},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 20, offset: 91496},
+																																pos:        position{line: 2890, col: 20, offset: 91521},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 29, offset: 91505},
+																																pos:        position{line: 2890, col: 29, offset: 91530},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35547,9 +35547,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2899, col: 8, offset: 91665},
+																													pos: position{line: 2900, col: 8, offset: 91690},
 																													expr: &anyMatcher{
-																														line: 2899, col: 9, offset: 91666,
+																														line: 2900, col: 9, offset: 91691,
 																													},
 																												},
 																											},
@@ -35565,9 +35565,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2899, col: 8, offset: 91665},
+																					pos: position{line: 2900, col: 8, offset: 91690},
 																					expr: &anyMatcher{
-																						line: 2899, col: 9, offset: 91666,
+																						line: 2900, col: 9, offset: 91691,
 																					},
 																				},
 																			},
@@ -35583,21 +35583,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2897, col: 11, offset: 91651},
+																						pos: position{line: 2898, col: 11, offset: 91676},
 																						expr: &anyMatcher{
-																							line: 2897, col: 13, offset: 91653,
+																							line: 2898, col: 13, offset: 91678,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2826, col: 13, offset: 89843},
+																							pos: position{line: 2827, col: 13, offset: 89868},
 																							run: (*parser).callonListContinuationElement1259,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2826, col: 13, offset: 89843},
+																								pos: position{line: 2827, col: 13, offset: 89868},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2826, col: 13, offset: 89843},
+																									pos:        position{line: 2827, col: 13, offset: 89868},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35607,28 +35607,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2902, col: 8, offset: 91715},
+																						pos: position{line: 2903, col: 8, offset: 91740},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2889, col: 12, offset: 91488},
+																								pos: position{line: 2890, col: 12, offset: 91513},
 																								run: (*parser).callonListContinuationElement1263,
 																								expr: &choiceExpr{
-																									pos: position{line: 2889, col: 13, offset: 91489},
+																									pos: position{line: 2890, col: 13, offset: 91514},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 13, offset: 91489},
+																											pos:        position{line: 2890, col: 13, offset: 91514},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 20, offset: 91496},
+																											pos:        position{line: 2890, col: 20, offset: 91521},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 29, offset: 91505},
+																											pos:        position{line: 2890, col: 29, offset: 91530},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35637,9 +35637,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2899, col: 8, offset: 91665},
+																								pos: position{line: 2900, col: 8, offset: 91690},
 																								expr: &anyMatcher{
-																									line: 2899, col: 9, offset: 91666,
+																									line: 2900, col: 9, offset: 91691,
 																								},
 																							},
 																						},
@@ -35704,10 +35704,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 807, col: 8, offset: 26006},
 																							expr: &actionExpr{
-																								pos: position{line: 2880, col: 10, offset: 91317},
+																								pos: position{line: 2881, col: 10, offset: 91342},
 																								run: (*parser).callonListContinuationElement1284,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2880, col: 10, offset: 91317},
+																									pos:        position{line: 2881, col: 10, offset: 91342},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35716,28 +35716,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2902, col: 8, offset: 91715},
+																							pos: position{line: 2903, col: 8, offset: 91740},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2889, col: 12, offset: 91488},
+																									pos: position{line: 2890, col: 12, offset: 91513},
 																									run: (*parser).callonListContinuationElement1287,
 																									expr: &choiceExpr{
-																										pos: position{line: 2889, col: 13, offset: 91489},
+																										pos: position{line: 2890, col: 13, offset: 91514},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 13, offset: 91489},
+																												pos:        position{line: 2890, col: 13, offset: 91514},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 20, offset: 91496},
+																												pos:        position{line: 2890, col: 20, offset: 91521},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2889, col: 29, offset: 91505},
+																												pos:        position{line: 2890, col: 29, offset: 91530},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35746,9 +35746,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2899, col: 8, offset: 91665},
+																									pos: position{line: 2900, col: 8, offset: 91690},
 																									expr: &anyMatcher{
-																										line: 2899, col: 9, offset: 91666,
+																										line: 2900, col: 9, offset: 91691,
 																									},
 																								},
 																							},
@@ -35764,9 +35764,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2899, col: 8, offset: 91665},
+																	pos: position{line: 2900, col: 8, offset: 91690},
 																	expr: &anyMatcher{
-																		line: 2899, col: 9, offset: 91666,
+																		line: 2900, col: 9, offset: 91691,
 																	},
 																},
 															},
@@ -35777,52 +35777,52 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2725, col: 18, offset: 86891},
+										pos: position{line: 2726, col: 18, offset: 86916},
 										run: (*parser).callonListContinuationElement1297,
 										expr: &seqExpr{
-											pos: position{line: 2725, col: 18, offset: 86891},
+											pos: position{line: 2726, col: 18, offset: 86916},
 											exprs: []interface{}{
 												&choiceExpr{
-													pos: position{line: 2726, col: 9, offset: 86901},
+													pos: position{line: 2727, col: 9, offset: 86926},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2726, col: 9, offset: 86901},
+															pos:        position{line: 2727, col: 9, offset: 86926},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2727, col: 11, offset: 86937},
+															pos:        position{line: 2728, col: 11, offset: 86962},
 															val:        "***",
 															ignoreCase: false,
 															want:       "\"***\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2727, col: 19, offset: 86945},
+															pos:        position{line: 2728, col: 19, offset: 86970},
 															val:        "* * *",
 															ignoreCase: false,
 															want:       "\"* * *\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2727, col: 29, offset: 86955},
+															pos:        position{line: 2728, col: 29, offset: 86980},
 															val:        "---",
 															ignoreCase: false,
 															want:       "\"---\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2727, col: 37, offset: 86963},
+															pos:        position{line: 2728, col: 37, offset: 86988},
 															val:        "- - -",
 															ignoreCase: false,
 															want:       "\"- - -\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2727, col: 47, offset: 86973},
+															pos:        position{line: 2728, col: 47, offset: 86998},
 															val:        "___",
 															ignoreCase: false,
 															want:       "\"___\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2727, col: 55, offset: 86981},
+															pos:        position{line: 2728, col: 55, offset: 87006},
 															val:        "_ _ _",
 															ignoreCase: false,
 															want:       "\"_ _ _\"",
@@ -35830,12 +35830,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2728, col: 11, offset: 87027},
+													pos: position{line: 2729, col: 11, offset: 87052},
 													expr: &actionExpr{
-														pos: position{line: 2880, col: 10, offset: 91317},
+														pos: position{line: 2881, col: 10, offset: 91342},
 														run: (*parser).callonListContinuationElement1308,
 														expr: &charClassMatcher{
-															pos:        position{line: 2880, col: 10, offset: 91317},
+															pos:        position{line: 2881, col: 10, offset: 91342},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35844,28 +35844,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2902, col: 8, offset: 91715},
+													pos: position{line: 2903, col: 8, offset: 91740},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2889, col: 12, offset: 91488},
+															pos: position{line: 2890, col: 12, offset: 91513},
 															run: (*parser).callonListContinuationElement1311,
 															expr: &choiceExpr{
-																pos: position{line: 2889, col: 13, offset: 91489},
+																pos: position{line: 2890, col: 13, offset: 91514},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2889, col: 13, offset: 91489},
+																		pos:        position{line: 2890, col: 13, offset: 91514},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2889, col: 20, offset: 91496},
+																		pos:        position{line: 2890, col: 20, offset: 91521},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2889, col: 29, offset: 91505},
+																		pos:        position{line: 2890, col: 29, offset: 91530},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35874,20 +35874,20 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2899, col: 8, offset: 91665},
+															pos: position{line: 2900, col: 8, offset: 91690},
 															expr: &anyMatcher{
-																line: 2899, col: 9, offset: 91666,
+																line: 2900, col: 9, offset: 91691,
 															},
 														},
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2728, col: 22, offset: 87038},
+													pos: position{line: 2729, col: 22, offset: 87063},
 													expr: &actionExpr{
-														pos: position{line: 2880, col: 10, offset: 91317},
+														pos: position{line: 2881, col: 10, offset: 91342},
 														run: (*parser).callonListContinuationElement1319,
 														expr: &charClassMatcher{
-															pos:        position{line: 2880, col: 10, offset: 91317},
+															pos:        position{line: 2881, col: 10, offset: 91342},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35896,28 +35896,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2902, col: 8, offset: 91715},
+													pos: position{line: 2903, col: 8, offset: 91740},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2889, col: 12, offset: 91488},
+															pos: position{line: 2890, col: 12, offset: 91513},
 															run: (*parser).callonListContinuationElement1322,
 															expr: &choiceExpr{
-																pos: position{line: 2889, col: 13, offset: 91489},
+																pos: position{line: 2890, col: 13, offset: 91514},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2889, col: 13, offset: 91489},
+																		pos:        position{line: 2890, col: 13, offset: 91514},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2889, col: 20, offset: 91496},
+																		pos:        position{line: 2890, col: 20, offset: 91521},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2889, col: 29, offset: 91505},
+																		pos:        position{line: 2890, col: 29, offset: 91530},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35926,9 +35926,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2899, col: 8, offset: 91665},
+															pos: position{line: 2900, col: 8, offset: 91690},
 															expr: &anyMatcher{
-																line: 2899, col: 9, offset: 91666,
+																line: 2900, col: 9, offset: 91691,
 															},
 														},
 													},
@@ -35940,25 +35940,29 @@ var g = &grammar{
 										pos:  position{line: 1560, col: 11, offset: 50603},
 										name: "ImageBlock",
 									},
+									&ruleRefExpr{
+										pos:  position{line: 1561, col: 11, offset: 50624},
+										name: "UserMacroBlock",
+									},
 									&actionExpr{
-										pos: position{line: 2616, col: 5, offset: 83827},
-										run: (*parser).callonListContinuationElement1330,
+										pos: position{line: 2617, col: 5, offset: 83852},
+										run: (*parser).callonListContinuationElement1331,
 										expr: &seqExpr{
-											pos: position{line: 2616, col: 5, offset: 83827},
+											pos: position{line: 2617, col: 5, offset: 83852},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2622, col: 19, offset: 83984},
+													pos:        position{line: 2623, col: 19, offset: 84009},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2622, col: 26, offset: 83991},
+													pos: position{line: 2623, col: 26, offset: 84016},
 													expr: &actionExpr{
-														pos: position{line: 2880, col: 10, offset: 91317},
-														run: (*parser).callonListContinuationElement1334,
+														pos: position{line: 2881, col: 10, offset: 91342},
+														run: (*parser).callonListContinuationElement1335,
 														expr: &charClassMatcher{
-															pos:        position{line: 2880, col: 10, offset: 91317},
+															pos:        position{line: 2881, col: 10, offset: 91342},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35967,28 +35971,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2902, col: 8, offset: 91715},
+													pos: position{line: 2903, col: 8, offset: 91740},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2889, col: 12, offset: 91488},
-															run: (*parser).callonListContinuationElement1337,
+															pos: position{line: 2890, col: 12, offset: 91513},
+															run: (*parser).callonListContinuationElement1338,
 															expr: &choiceExpr{
-																pos: position{line: 2889, col: 13, offset: 91489},
+																pos: position{line: 2890, col: 13, offset: 91514},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2889, col: 13, offset: 91489},
+																		pos:        position{line: 2890, col: 13, offset: 91514},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2889, col: 20, offset: 91496},
+																		pos:        position{line: 2890, col: 20, offset: 91521},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2889, col: 29, offset: 91505},
+																		pos:        position{line: 2890, col: 29, offset: 91530},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35997,40 +36001,40 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2899, col: 8, offset: 91665},
+															pos: position{line: 2900, col: 8, offset: 91690},
 															expr: &anyMatcher{
-																line: 2899, col: 9, offset: 91666,
+																line: 2900, col: 9, offset: 91691,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2617, col: 5, offset: 83851},
+													pos:   position{line: 2618, col: 5, offset: 83876},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2617, col: 11, offset: 83857},
+														pos: position{line: 2618, col: 11, offset: 83882},
 														expr: &choiceExpr{
-															pos: position{line: 2617, col: 12, offset: 83858},
+															pos: position{line: 2618, col: 12, offset: 83883},
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 677, col: 14, offset: 21525},
-																	run: (*parser).callonListContinuationElement1347,
+																	run: (*parser).callonListContinuationElement1348,
 																	expr: &seqExpr{
 																		pos: position{line: 677, col: 14, offset: 21525},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2897, col: 11, offset: 91651},
+																				pos: position{line: 2898, col: 11, offset: 91676},
 																				expr: &anyMatcher{
-																					line: 2897, col: 13, offset: 91653,
+																					line: 2898, col: 13, offset: 91678,
 																				},
 																			},
 																			&zeroOrMoreExpr{
 																				pos: position{line: 677, col: 21, offset: 21532},
 																				expr: &actionExpr{
-																					pos: position{line: 2880, col: 10, offset: 91317},
-																					run: (*parser).callonListContinuationElement1352,
+																					pos: position{line: 2881, col: 10, offset: 91342},
+																					run: (*parser).callonListContinuationElement1353,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2880, col: 10, offset: 91317},
+																						pos:        position{line: 2881, col: 10, offset: 91342},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -36039,28 +36043,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2902, col: 8, offset: 91715},
+																				pos: position{line: 2903, col: 8, offset: 91740},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2889, col: 12, offset: 91488},
-																						run: (*parser).callonListContinuationElement1355,
+																						pos: position{line: 2890, col: 12, offset: 91513},
+																						run: (*parser).callonListContinuationElement1356,
 																						expr: &choiceExpr{
-																							pos: position{line: 2889, col: 13, offset: 91489},
+																							pos: position{line: 2890, col: 13, offset: 91514},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2889, col: 13, offset: 91489},
+																									pos:        position{line: 2890, col: 13, offset: 91514},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2889, col: 20, offset: 91496},
+																									pos:        position{line: 2890, col: 20, offset: 91521},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2889, col: 29, offset: 91505},
+																									pos:        position{line: 2890, col: 29, offset: 91530},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -36069,9 +36073,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2899, col: 8, offset: 91665},
+																						pos: position{line: 2900, col: 8, offset: 91690},
 																						expr: &anyMatcher{
-																							line: 2899, col: 9, offset: 91666,
+																							line: 2900, col: 9, offset: 91691,
 																						},
 																					},
 																				},
@@ -36080,32 +36084,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2629, col: 5, offset: 84103},
-																	run: (*parser).callonListContinuationElement1362,
+																	pos: position{line: 2630, col: 5, offset: 84128},
+																	run: (*parser).callonListContinuationElement1363,
 																	expr: &seqExpr{
-																		pos: position{line: 2629, col: 5, offset: 84103},
+																		pos: position{line: 2630, col: 5, offset: 84128},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2629, col: 5, offset: 84103},
+																				pos: position{line: 2630, col: 5, offset: 84128},
 																				expr: &choiceExpr{
-																					pos: position{line: 2626, col: 22, offset: 84064},
+																					pos: position{line: 2627, col: 22, offset: 84089},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2622, col: 19, offset: 83984},
+																							pos: position{line: 2623, col: 19, offset: 84009},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2622, col: 19, offset: 83984},
+																									pos:        position{line: 2623, col: 19, offset: 84009},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2622, col: 26, offset: 83991},
+																									pos: position{line: 2623, col: 26, offset: 84016},
 																									expr: &actionExpr{
-																										pos: position{line: 2880, col: 10, offset: 91317},
-																										run: (*parser).callonListContinuationElement1369,
+																										pos: position{line: 2881, col: 10, offset: 91342},
+																										run: (*parser).callonListContinuationElement1370,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2880, col: 10, offset: 91317},
+																											pos:        position{line: 2881, col: 10, offset: 91342},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -36114,28 +36118,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2902, col: 8, offset: 91715},
+																									pos: position{line: 2903, col: 8, offset: 91740},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2889, col: 12, offset: 91488},
-																											run: (*parser).callonListContinuationElement1372,
+																											pos: position{line: 2890, col: 12, offset: 91513},
+																											run: (*parser).callonListContinuationElement1373,
 																											expr: &choiceExpr{
-																												pos: position{line: 2889, col: 13, offset: 91489},
+																												pos: position{line: 2890, col: 13, offset: 91514},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2889, col: 13, offset: 91489},
+																														pos:        position{line: 2890, col: 13, offset: 91514},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2889, col: 20, offset: 91496},
+																														pos:        position{line: 2890, col: 20, offset: 91521},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2889, col: 29, offset: 91505},
+																														pos:        position{line: 2890, col: 29, offset: 91530},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -36144,9 +36148,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2899, col: 8, offset: 91665},
+																											pos: position{line: 2900, col: 8, offset: 91690},
 																											expr: &anyMatcher{
-																												line: 2899, col: 9, offset: 91666,
+																												line: 2900, col: 9, offset: 91691,
 																											},
 																										},
 																									},
@@ -36154,59 +36158,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2899, col: 8, offset: 91665},
+																							pos: position{line: 2900, col: 8, offset: 91690},
 																							expr: &anyMatcher{
-																								line: 2899, col: 9, offset: 91666,
+																								line: 2900, col: 9, offset: 91691,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2630, col: 5, offset: 84126},
+																				pos:   position{line: 2631, col: 5, offset: 84151},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2631, col: 9, offset: 84144},
+																					pos: position{line: 2632, col: 9, offset: 84169},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2631, col: 10, offset: 84145},
-																							run: (*parser).callonListContinuationElement1383,
+																							pos: position{line: 2632, col: 10, offset: 84170},
+																							run: (*parser).callonListContinuationElement1384,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2631, col: 10, offset: 84145},
+																								pos:   position{line: 2632, col: 10, offset: 84170},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2631, col: 17, offset: 84152},
+																									pos: position{line: 2632, col: 17, offset: 84177},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2639, col: 21, offset: 84348},
-																											run: (*parser).callonListContinuationElement1386,
+																											pos: position{line: 2640, col: 21, offset: 84373},
+																											run: (*parser).callonListContinuationElement1387,
 																											expr: &seqExpr{
-																												pos: position{line: 2639, col: 21, offset: 84348},
+																												pos: position{line: 2640, col: 21, offset: 84373},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2639, col: 21, offset: 84348},
+																														pos:   position{line: 2640, col: 21, offset: 84373},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2639, col: 27, offset: 84354},
+																															pos: position{line: 2640, col: 27, offset: 84379},
 																															expr: &actionExpr{
-																																pos: position{line: 2644, col: 5, offset: 84429},
-																																run: (*parser).callonListContinuationElement1390,
+																																pos: position{line: 2645, col: 5, offset: 84454},
+																																run: (*parser).callonListContinuationElement1391,
 																																expr: &seqExpr{
-																																	pos: position{line: 2644, col: 5, offset: 84429},
+																																	pos: position{line: 2645, col: 5, offset: 84454},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2644, col: 5, offset: 84429},
+																																			pos:        position{line: 2645, col: 5, offset: 84454},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2644, col: 9, offset: 84433},
+																																			pos: position{line: 2645, col: 9, offset: 84458},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2880, col: 10, offset: 91317},
-																																				run: (*parser).callonListContinuationElement1394,
+																																				pos: position{line: 2881, col: 10, offset: 91342},
+																																				run: (*parser).callonListContinuationElement1395,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2880, col: 10, offset: 91317},
+																																					pos:        position{line: 2881, col: 10, offset: 91342},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -36215,21 +36219,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2644, col: 16, offset: 84440},
+																																			pos:   position{line: 2645, col: 16, offset: 84465},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2650, col: 5, offset: 84640},
-																																				run: (*parser).callonListContinuationElement1397,
+																																				pos: position{line: 2651, col: 5, offset: 84665},
+																																				run: (*parser).callonListContinuationElement1398,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2650, col: 5, offset: 84640},
+																																					pos:   position{line: 2651, col: 5, offset: 84665},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2650, col: 14, offset: 84649},
-																																						run: (*parser).callonListContinuationElement1399,
+																																						pos: position{line: 2651, col: 14, offset: 84674},
+																																						run: (*parser).callonListContinuationElement1400,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2650, col: 14, offset: 84649},
+																																							pos: position{line: 2651, col: 14, offset: 84674},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2650, col: 14, offset: 84649},
+																																								pos:        position{line: 2651, col: 14, offset: 84674},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -36246,28 +36250,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2902, col: 8, offset: 91715},
+																														pos: position{line: 2903, col: 8, offset: 91740},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2889, col: 12, offset: 91488},
-																																run: (*parser).callonListContinuationElement1403,
+																																pos: position{line: 2890, col: 12, offset: 91513},
+																																run: (*parser).callonListContinuationElement1404,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2889, col: 13, offset: 91489},
+																																	pos: position{line: 2890, col: 13, offset: 91514},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2889, col: 13, offset: 91489},
+																																			pos:        position{line: 2890, col: 13, offset: 91514},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2889, col: 20, offset: 91496},
+																																			pos:        position{line: 2890, col: 20, offset: 91521},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2889, col: 29, offset: 91505},
+																																			pos:        position{line: 2890, col: 29, offset: 91530},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -36276,9 +36280,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2899, col: 8, offset: 91665},
+																																pos: position{line: 2900, col: 8, offset: 91690},
 																																expr: &anyMatcher{
-																																	line: 2899, col: 9, offset: 91666,
+																																	line: 2900, col: 9, offset: 91691,
 																																},
 																															},
 																														},
@@ -36287,40 +36291,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2656, col: 24, offset: 84785},
-																											run: (*parser).callonListContinuationElement1410,
+																											pos: position{line: 2657, col: 24, offset: 84810},
+																											run: (*parser).callonListContinuationElement1411,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2656, col: 24, offset: 84785},
+																												pos:   position{line: 2657, col: 24, offset: 84810},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2656, col: 30, offset: 84791},
+																													pos: position{line: 2657, col: 30, offset: 84816},
 																													expr: &actionExpr{
-																														pos: position{line: 2661, col: 5, offset: 84867},
-																														run: (*parser).callonListContinuationElement1413,
+																														pos: position{line: 2662, col: 5, offset: 84892},
+																														run: (*parser).callonListContinuationElement1414,
 																														expr: &seqExpr{
-																															pos: position{line: 2661, col: 5, offset: 84867},
+																															pos: position{line: 2662, col: 5, offset: 84892},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2661, col: 5, offset: 84867},
+																																	pos: position{line: 2662, col: 5, offset: 84892},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2626, col: 22, offset: 84064},
+																																		pos: position{line: 2627, col: 22, offset: 84089},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2622, col: 19, offset: 83984},
+																																				pos: position{line: 2623, col: 19, offset: 84009},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2622, col: 19, offset: 83984},
+																																						pos:        position{line: 2623, col: 19, offset: 84009},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2622, col: 26, offset: 83991},
+																																						pos: position{line: 2623, col: 26, offset: 84016},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2880, col: 10, offset: 91317},
-																																							run: (*parser).callonListContinuationElement1420,
+																																							pos: position{line: 2881, col: 10, offset: 91342},
+																																							run: (*parser).callonListContinuationElement1421,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2880, col: 10, offset: 91317},
+																																								pos:        position{line: 2881, col: 10, offset: 91342},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -36329,28 +36333,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2902, col: 8, offset: 91715},
+																																						pos: position{line: 2903, col: 8, offset: 91740},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2889, col: 12, offset: 91488},
-																																								run: (*parser).callonListContinuationElement1423,
+																																								pos: position{line: 2890, col: 12, offset: 91513},
+																																								run: (*parser).callonListContinuationElement1424,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2889, col: 13, offset: 91489},
+																																									pos: position{line: 2890, col: 13, offset: 91514},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2889, col: 13, offset: 91489},
+																																											pos:        position{line: 2890, col: 13, offset: 91514},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2889, col: 20, offset: 91496},
+																																											pos:        position{line: 2890, col: 20, offset: 91521},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2889, col: 29, offset: 91505},
+																																											pos:        position{line: 2890, col: 29, offset: 91530},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -36359,9 +36363,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2899, col: 8, offset: 91665},
+																																								pos: position{line: 2900, col: 8, offset: 91690},
 																																								expr: &anyMatcher{
-																																									line: 2899, col: 9, offset: 91666,
+																																									line: 2900, col: 9, offset: 91691,
 																																								},
 																																							},
 																																						},
@@ -36369,35 +36373,35 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2899, col: 8, offset: 91665},
+																																				pos: position{line: 2900, col: 8, offset: 91690},
 																																				expr: &anyMatcher{
-																																					line: 2899, col: 9, offset: 91666,
+																																					line: 2900, col: 9, offset: 91691,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2662, col: 5, offset: 84890},
+																																	pos: position{line: 2663, col: 5, offset: 84915},
 																																	expr: &actionExpr{
 																																		pos: position{line: 677, col: 14, offset: 21525},
-																																		run: (*parser).callonListContinuationElement1433,
+																																		run: (*parser).callonListContinuationElement1434,
 																																		expr: &seqExpr{
 																																			pos: position{line: 677, col: 14, offset: 21525},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2897, col: 11, offset: 91651},
+																																					pos: position{line: 2898, col: 11, offset: 91676},
 																																					expr: &anyMatcher{
-																																						line: 2897, col: 13, offset: 91653,
+																																						line: 2898, col: 13, offset: 91678,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
 																																					pos: position{line: 677, col: 21, offset: 21532},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2880, col: 10, offset: 91317},
-																																						run: (*parser).callonListContinuationElement1438,
+																																						pos: position{line: 2881, col: 10, offset: 91342},
+																																						run: (*parser).callonListContinuationElement1439,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2880, col: 10, offset: 91317},
+																																							pos:        position{line: 2881, col: 10, offset: 91342},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -36406,28 +36410,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2902, col: 8, offset: 91715},
+																																					pos: position{line: 2903, col: 8, offset: 91740},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2889, col: 12, offset: 91488},
-																																							run: (*parser).callonListContinuationElement1441,
+																																							pos: position{line: 2890, col: 12, offset: 91513},
+																																							run: (*parser).callonListContinuationElement1442,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2889, col: 13, offset: 91489},
+																																								pos: position{line: 2890, col: 13, offset: 91514},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2889, col: 13, offset: 91489},
+																																										pos:        position{line: 2890, col: 13, offset: 91514},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2889, col: 20, offset: 91496},
+																																										pos:        position{line: 2890, col: 20, offset: 91521},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2889, col: 29, offset: 91505},
+																																										pos:        position{line: 2890, col: 29, offset: 91530},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -36436,9 +36440,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2899, col: 8, offset: 91665},
+																																							pos: position{line: 2900, col: 8, offset: 91690},
 																																							expr: &anyMatcher{
-																																								line: 2899, col: 9, offset: 91666,
+																																								line: 2900, col: 9, offset: 91691,
 																																							},
 																																						},
 																																					},
@@ -36448,17 +36452,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2663, col: 5, offset: 84905},
+																																	pos:   position{line: 2664, col: 5, offset: 84930},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2663, col: 12, offset: 84912},
+																																		pos: position{line: 2664, col: 12, offset: 84937},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2680, col: 20, offset: 85376},
-																																			run: (*parser).callonListContinuationElement1450,
+																																			pos: position{line: 2681, col: 20, offset: 85401},
+																																			run: (*parser).callonListContinuationElement1451,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2680, col: 20, offset: 85376},
+																																				pos: position{line: 2681, col: 20, offset: 85401},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2680, col: 20, offset: 85376},
+																																					pos:        position{line: 2681, col: 20, offset: 85401},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -36469,18 +36473,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2663, col: 31, offset: 84931},
+																																	pos:        position{line: 2664, col: 31, offset: 84956},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2663, col: 35, offset: 84935},
+																																	pos: position{line: 2664, col: 35, offset: 84960},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2880, col: 10, offset: 91317},
-																																		run: (*parser).callonListContinuationElement1455,
+																																		pos: position{line: 2881, col: 10, offset: 91342},
+																																		run: (*parser).callonListContinuationElement1456,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2880, col: 10, offset: 91317},
+																																			pos:        position{line: 2881, col: 10, offset: 91342},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -36489,27 +36493,27 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2663, col: 42, offset: 84942},
+																																	pos: position{line: 2664, col: 42, offset: 84967},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2889, col: 12, offset: 91488},
-																																		run: (*parser).callonListContinuationElement1458,
+																																		pos: position{line: 2890, col: 12, offset: 91513},
+																																		run: (*parser).callonListContinuationElement1459,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2889, col: 13, offset: 91489},
+																																			pos: position{line: 2890, col: 13, offset: 91514},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2889, col: 13, offset: 91489},
+																																					pos:        position{line: 2890, col: 13, offset: 91514},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2889, col: 20, offset: 91496},
+																																					pos:        position{line: 2890, col: 20, offset: 91521},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2889, col: 29, offset: 91505},
+																																					pos:        position{line: 2890, col: 29, offset: 91530},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -36519,37 +36523,37 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2663, col: 51, offset: 84951},
+																																	pos:   position{line: 2664, col: 51, offset: 84976},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2669, col: 5, offset: 85110},
+																																		pos: position{line: 2670, col: 5, offset: 85135},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2670, col: 9, offset: 85120},
-																																			run: (*parser).callonListContinuationElement1465,
+																																			pos: position{line: 2671, col: 9, offset: 85145},
+																																			run: (*parser).callonListContinuationElement1466,
 																																			expr: &seqExpr{
-																																				pos: position{line: 2670, col: 9, offset: 85120},
+																																				pos: position{line: 2671, col: 9, offset: 85145},
 																																				exprs: []interface{}{
 																																					&notExpr{
-																																						pos: position{line: 2670, col: 9, offset: 85120},
+																																						pos: position{line: 2671, col: 9, offset: 85145},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2626, col: 22, offset: 84064},
+																																							pos: position{line: 2627, col: 22, offset: 84089},
 																																							alternatives: []interface{}{
 																																								&seqExpr{
-																																									pos: position{line: 2622, col: 19, offset: 83984},
+																																									pos: position{line: 2623, col: 19, offset: 84009},
 																																									exprs: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2622, col: 19, offset: 83984},
+																																											pos:        position{line: 2623, col: 19, offset: 84009},
 																																											val:        "|===",
 																																											ignoreCase: false,
 																																											want:       "\"|===\"",
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 2622, col: 26, offset: 83991},
+																																											pos: position{line: 2623, col: 26, offset: 84016},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2880, col: 10, offset: 91317},
-																																												run: (*parser).callonListContinuationElement1472,
+																																												pos: position{line: 2881, col: 10, offset: 91342},
+																																												run: (*parser).callonListContinuationElement1473,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2880, col: 10, offset: 91317},
+																																													pos:        position{line: 2881, col: 10, offset: 91342},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -36558,28 +36562,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2902, col: 8, offset: 91715},
+																																											pos: position{line: 2903, col: 8, offset: 91740},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2889, col: 12, offset: 91488},
-																																													run: (*parser).callonListContinuationElement1475,
+																																													pos: position{line: 2890, col: 12, offset: 91513},
+																																													run: (*parser).callonListContinuationElement1476,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2889, col: 13, offset: 91489},
+																																														pos: position{line: 2890, col: 13, offset: 91514},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2889, col: 13, offset: 91489},
+																																																pos:        position{line: 2890, col: 13, offset: 91514},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2889, col: 20, offset: 91496},
+																																																pos:        position{line: 2890, col: 20, offset: 91521},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2889, col: 29, offset: 91505},
+																																																pos:        position{line: 2890, col: 29, offset: 91530},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -36588,9 +36592,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2899, col: 8, offset: 91665},
+																																													pos: position{line: 2900, col: 8, offset: 91690},
 																																													expr: &anyMatcher{
-																																														line: 2899, col: 9, offset: 91666,
+																																														line: 2900, col: 9, offset: 91691,
 																																													},
 																																												},
 																																											},
@@ -36598,35 +36602,35 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2899, col: 8, offset: 91665},
+																																									pos: position{line: 2900, col: 8, offset: 91690},
 																																									expr: &anyMatcher{
-																																										line: 2899, col: 9, offset: 91666,
+																																										line: 2900, col: 9, offset: 91691,
 																																									},
 																																								},
 																																							},
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2671, col: 9, offset: 85147},
+																																						pos: position{line: 2672, col: 9, offset: 85172},
 																																						expr: &actionExpr{
 																																							pos: position{line: 677, col: 14, offset: 21525},
-																																							run: (*parser).callonListContinuationElement1485,
+																																							run: (*parser).callonListContinuationElement1486,
 																																							expr: &seqExpr{
 																																								pos: position{line: 677, col: 14, offset: 21525},
 																																								exprs: []interface{}{
 																																									&andExpr{
-																																										pos: position{line: 2897, col: 11, offset: 91651},
+																																										pos: position{line: 2898, col: 11, offset: 91676},
 																																										expr: &anyMatcher{
-																																											line: 2897, col: 13, offset: 91653,
+																																											line: 2898, col: 13, offset: 91678,
 																																										},
 																																									},
 																																									&zeroOrMoreExpr{
 																																										pos: position{line: 677, col: 21, offset: 21532},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2880, col: 10, offset: 91317},
-																																											run: (*parser).callonListContinuationElement1490,
+																																											pos: position{line: 2881, col: 10, offset: 91342},
+																																											run: (*parser).callonListContinuationElement1491,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2880, col: 10, offset: 91317},
+																																												pos:        position{line: 2881, col: 10, offset: 91342},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -36635,28 +36639,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2902, col: 8, offset: 91715},
+																																										pos: position{line: 2903, col: 8, offset: 91740},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2889, col: 12, offset: 91488},
-																																												run: (*parser).callonListContinuationElement1493,
+																																												pos: position{line: 2890, col: 12, offset: 91513},
+																																												run: (*parser).callonListContinuationElement1494,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2889, col: 13, offset: 91489},
+																																													pos: position{line: 2890, col: 13, offset: 91514},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2889, col: 13, offset: 91489},
+																																															pos:        position{line: 2890, col: 13, offset: 91514},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2889, col: 20, offset: 91496},
+																																															pos:        position{line: 2890, col: 20, offset: 91521},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2889, col: 29, offset: 91505},
+																																															pos:        position{line: 2890, col: 29, offset: 91530},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -36665,9 +36669,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2899, col: 8, offset: 91665},
+																																												pos: position{line: 2900, col: 8, offset: 91690},
 																																												expr: &anyMatcher{
-																																													line: 2899, col: 9, offset: 91666,
+																																													line: 2900, col: 9, offset: 91691,
 																																												},
 																																											},
 																																										},
@@ -36677,22 +36681,22 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2672, col: 9, offset: 85166},
+																																						pos: position{line: 2673, col: 9, offset: 85191},
 																																						expr: &seqExpr{
-																																							pos: position{line: 2672, col: 11, offset: 85168},
+																																							pos: position{line: 2673, col: 11, offset: 85193},
 																																							exprs: []interface{}{
 																																								&labeledExpr{
-																																									pos:   position{line: 2672, col: 11, offset: 85168},
+																																									pos:   position{line: 2673, col: 11, offset: 85193},
 																																									label: "format",
 																																									expr: &zeroOrOneExpr{
-																																										pos: position{line: 2672, col: 18, offset: 85175},
+																																										pos: position{line: 2673, col: 18, offset: 85200},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2680, col: 20, offset: 85376},
-																																											run: (*parser).callonListContinuationElement1504,
+																																											pos: position{line: 2681, col: 20, offset: 85401},
+																																											run: (*parser).callonListContinuationElement1505,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2680, col: 20, offset: 85376},
+																																												pos: position{line: 2681, col: 20, offset: 85401},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2680, col: 20, offset: 85376},
+																																													pos:        position{line: 2681, col: 20, offset: 85401},
 																																													val:        "[^ |\\r\\n]",
 																																													chars:      []rune{' ', '|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -36703,7 +36707,7 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&litMatcher{
-																																									pos:        position{line: 2672, col: 37, offset: 85194},
+																																									pos:        position{line: 2673, col: 37, offset: 85219},
 																																									val:        "|",
 																																									ignoreCase: false,
 																																									want:       "\"|\"",
@@ -36712,15 +36716,15 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2673, col: 9, offset: 85207},
+																																						pos:   position{line: 2674, col: 9, offset: 85232},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2673, col: 18, offset: 85216},
-																																							run: (*parser).callonListContinuationElement1509,
+																																							pos: position{line: 2674, col: 18, offset: 85241},
+																																							run: (*parser).callonListContinuationElement1510,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2673, col: 18, offset: 85216},
+																																								pos: position{line: 2674, col: 18, offset: 85241},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2673, col: 18, offset: 85216},
+																																									pos:        position{line: 2674, col: 18, offset: 85241},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -36730,30 +36734,30 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&zeroOrOneExpr{
-																																						pos: position{line: 2675, col: 12, offset: 85278},
+																																						pos: position{line: 2676, col: 12, offset: 85303},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2902, col: 8, offset: 91715},
+																																							pos: position{line: 2903, col: 8, offset: 91740},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2889, col: 12, offset: 91488},
-																																									run: (*parser).callonListContinuationElement1514,
+																																									pos: position{line: 2890, col: 12, offset: 91513},
+																																									run: (*parser).callonListContinuationElement1515,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2889, col: 13, offset: 91489},
+																																										pos: position{line: 2890, col: 13, offset: 91514},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2889, col: 13, offset: 91489},
+																																												pos:        position{line: 2890, col: 13, offset: 91514},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2889, col: 20, offset: 91496},
+																																												pos:        position{line: 2890, col: 20, offset: 91521},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2889, col: 29, offset: 91505},
+																																												pos:        position{line: 2890, col: 29, offset: 91530},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -36762,9 +36766,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2899, col: 8, offset: 91665},
+																																									pos: position{line: 2900, col: 8, offset: 91690},
 																																									expr: &anyMatcher{
-																																										line: 2899, col: 9, offset: 91666,
+																																										line: 2900, col: 9, offset: 91691,
 																																									},
 																																								},
 																																							},
@@ -36787,23 +36791,23 @@ var g = &grammar{
 																						},
 																						&actionExpr{
 																							pos: position{line: 677, col: 14, offset: 21525},
-																							run: (*parser).callonListContinuationElement1521,
+																							run: (*parser).callonListContinuationElement1522,
 																							expr: &seqExpr{
 																								pos: position{line: 677, col: 14, offset: 21525},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2897, col: 11, offset: 91651},
+																										pos: position{line: 2898, col: 11, offset: 91676},
 																										expr: &anyMatcher{
-																											line: 2897, col: 13, offset: 91653,
+																											line: 2898, col: 13, offset: 91678,
 																										},
 																									},
 																									&zeroOrMoreExpr{
 																										pos: position{line: 677, col: 21, offset: 21532},
 																										expr: &actionExpr{
-																											pos: position{line: 2880, col: 10, offset: 91317},
-																											run: (*parser).callonListContinuationElement1526,
+																											pos: position{line: 2881, col: 10, offset: 91342},
+																											run: (*parser).callonListContinuationElement1527,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2880, col: 10, offset: 91317},
+																												pos:        position{line: 2881, col: 10, offset: 91342},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -36812,28 +36816,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2902, col: 8, offset: 91715},
+																										pos: position{line: 2903, col: 8, offset: 91740},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2889, col: 12, offset: 91488},
-																												run: (*parser).callonListContinuationElement1529,
+																												pos: position{line: 2890, col: 12, offset: 91513},
+																												run: (*parser).callonListContinuationElement1530,
 																												expr: &choiceExpr{
-																													pos: position{line: 2889, col: 13, offset: 91489},
+																													pos: position{line: 2890, col: 13, offset: 91514},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2889, col: 13, offset: 91489},
+																															pos:        position{line: 2890, col: 13, offset: 91514},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2889, col: 20, offset: 91496},
+																															pos:        position{line: 2890, col: 20, offset: 91521},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2889, col: 29, offset: 91505},
+																															pos:        position{line: 2890, col: 29, offset: 91530},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -36842,9 +36846,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2899, col: 8, offset: 91665},
+																												pos: position{line: 2900, col: 8, offset: 91690},
 																												expr: &anyMatcher{
-																													line: 2899, col: 9, offset: 91666,
+																													line: 2900, col: 9, offset: 91691,
 																												},
 																											},
 																										},
@@ -36863,24 +36867,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2626, col: 22, offset: 84064},
+													pos: position{line: 2627, col: 22, offset: 84089},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2622, col: 19, offset: 83984},
+															pos: position{line: 2623, col: 19, offset: 84009},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2622, col: 19, offset: 83984},
+																	pos:        position{line: 2623, col: 19, offset: 84009},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2622, col: 26, offset: 83991},
+																	pos: position{line: 2623, col: 26, offset: 84016},
 																	expr: &actionExpr{
-																		pos: position{line: 2880, col: 10, offset: 91317},
-																		run: (*parser).callonListContinuationElement1540,
+																		pos: position{line: 2881, col: 10, offset: 91342},
+																		run: (*parser).callonListContinuationElement1541,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 10, offset: 91317},
+																			pos:        position{line: 2881, col: 10, offset: 91342},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -36889,28 +36893,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2902, col: 8, offset: 91715},
+																	pos: position{line: 2903, col: 8, offset: 91740},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2889, col: 12, offset: 91488},
-																			run: (*parser).callonListContinuationElement1543,
+																			pos: position{line: 2890, col: 12, offset: 91513},
+																			run: (*parser).callonListContinuationElement1544,
 																			expr: &choiceExpr{
-																				pos: position{line: 2889, col: 13, offset: 91489},
+																				pos: position{line: 2890, col: 13, offset: 91514},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 13, offset: 91489},
+																						pos:        position{line: 2890, col: 13, offset: 91514},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 20, offset: 91496},
+																						pos:        position{line: 2890, col: 20, offset: 91521},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 29, offset: 91505},
+																						pos:        position{line: 2890, col: 29, offset: 91530},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36919,9 +36923,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2899, col: 8, offset: 91665},
+																			pos: position{line: 2900, col: 8, offset: 91690},
 																			expr: &anyMatcher{
-																				line: 2899, col: 9, offset: 91666,
+																				line: 2900, col: 9, offset: 91691,
 																			},
 																		},
 																	},
@@ -36929,9 +36933,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2899, col: 8, offset: 91665},
+															pos: position{line: 2900, col: 8, offset: 91690},
 															expr: &anyMatcher{
-																line: 2899, col: 9, offset: 91666,
+																line: 2900, col: 9, offset: 91691,
 															},
 														},
 													},
@@ -36940,36 +36944,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2487, col: 22, offset: 80203},
-										run: (*parser).callonListContinuationElement1552,
+										pos: position{line: 2488, col: 22, offset: 80228},
+										run: (*parser).callonListContinuationElement1553,
 										expr: &seqExpr{
-											pos: position{line: 2487, col: 22, offset: 80203},
+											pos: position{line: 2488, col: 22, offset: 80228},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2492, col: 31, offset: 80424},
+													pos:        position{line: 2493, col: 31, offset: 80449},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2492, col: 36, offset: 80429},
+													pos: position{line: 2493, col: 36, offset: 80454},
 													expr: &litMatcher{
-														pos:        position{line: 2492, col: 37, offset: 80430},
+														pos:        position{line: 2493, col: 37, offset: 80455},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2487, col: 49, offset: 80230},
+													pos:   position{line: 2488, col: 49, offset: 80255},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2826, col: 13, offset: 89843},
-														run: (*parser).callonListContinuationElement1558,
+														pos: position{line: 2827, col: 13, offset: 89868},
+														run: (*parser).callonListContinuationElement1559,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2826, col: 13, offset: 89843},
+															pos: position{line: 2827, col: 13, offset: 89868},
 															expr: &charClassMatcher{
-																pos:        position{line: 2826, col: 13, offset: 89843},
+																pos:        position{line: 2827, col: 13, offset: 89868},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -36979,28 +36983,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2902, col: 8, offset: 91715},
+													pos: position{line: 2903, col: 8, offset: 91740},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2889, col: 12, offset: 91488},
-															run: (*parser).callonListContinuationElement1562,
+															pos: position{line: 2890, col: 12, offset: 91513},
+															run: (*parser).callonListContinuationElement1563,
 															expr: &choiceExpr{
-																pos: position{line: 2889, col: 13, offset: 91489},
+																pos: position{line: 2890, col: 13, offset: 91514},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2889, col: 13, offset: 91489},
+																		pos:        position{line: 2890, col: 13, offset: 91514},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2889, col: 20, offset: 91496},
+																		pos:        position{line: 2890, col: 20, offset: 91521},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2889, col: 29, offset: 91505},
+																		pos:        position{line: 2890, col: 29, offset: 91530},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -37009,9 +37013,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2899, col: 8, offset: 91665},
+															pos: position{line: 2900, col: 8, offset: 91690},
 															expr: &anyMatcher{
-																line: 2899, col: 9, offset: 91666,
+																line: 2900, col: 9, offset: 91691,
 															},
 														},
 													},
@@ -37020,94 +37024,94 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1573, col: 5, offset: 51033},
-										run: (*parser).callonListContinuationElement1569,
+										pos: position{line: 1574, col: 5, offset: 51058},
+										run: (*parser).callonListContinuationElement1570,
 										expr: &seqExpr{
-											pos: position{line: 1573, col: 5, offset: 51033},
+											pos: position{line: 1574, col: 5, offset: 51058},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1573, col: 5, offset: 51033},
+													pos:   position{line: 1574, col: 5, offset: 51058},
 													label: "style",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1573, col: 11, offset: 51039},
+														pos: position{line: 1574, col: 11, offset: 51064},
 														expr: &actionExpr{
-															pos: position{line: 1738, col: 5, offset: 56388},
-															run: (*parser).callonListContinuationElement1573,
+															pos: position{line: 1739, col: 5, offset: 56413},
+															run: (*parser).callonListContinuationElement1574,
 															expr: &seqExpr{
-																pos: position{line: 1738, col: 5, offset: 56388},
+																pos: position{line: 1739, col: 5, offset: 56413},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1738, col: 5, offset: 56388},
-																		run: (*parser).callonListContinuationElement1575,
+																		pos: position{line: 1739, col: 5, offset: 56413},
+																		run: (*parser).callonListContinuationElement1576,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1741, col: 5, offset: 56451},
+																		pos:   position{line: 1742, col: 5, offset: 56476},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1741, col: 12, offset: 56458},
+																			pos: position{line: 1742, col: 12, offset: 56483},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1741, col: 12, offset: 56458},
-																					run: (*parser).callonListContinuationElement1578,
+																					pos: position{line: 1742, col: 12, offset: 56483},
+																					run: (*parser).callonListContinuationElement1579,
 																					expr: &litMatcher{
-																						pos:        position{line: 1741, col: 12, offset: 56458},
+																						pos:        position{line: 1742, col: 12, offset: 56483},
 																						val:        "TIP: ",
 																						ignoreCase: false,
 																						want:       "\"TIP: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1743, col: 13, offset: 56514},
-																					run: (*parser).callonListContinuationElement1580,
+																					pos: position{line: 1744, col: 13, offset: 56539},
+																					run: (*parser).callonListContinuationElement1581,
 																					expr: &litMatcher{
-																						pos:        position{line: 1743, col: 13, offset: 56514},
+																						pos:        position{line: 1744, col: 13, offset: 56539},
 																						val:        "NOTE: ",
 																						ignoreCase: false,
 																						want:       "\"NOTE: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1745, col: 13, offset: 56572},
-																					run: (*parser).callonListContinuationElement1582,
+																					pos: position{line: 1746, col: 13, offset: 56597},
+																					run: (*parser).callonListContinuationElement1583,
 																					expr: &litMatcher{
-																						pos:        position{line: 1745, col: 13, offset: 56572},
+																						pos:        position{line: 1746, col: 13, offset: 56597},
 																						val:        "IMPORTANT: ",
 																						ignoreCase: false,
 																						want:       "\"IMPORTANT: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1747, col: 13, offset: 56640},
-																					run: (*parser).callonListContinuationElement1584,
+																					pos: position{line: 1748, col: 13, offset: 56665},
+																					run: (*parser).callonListContinuationElement1585,
 																					expr: &litMatcher{
-																						pos:        position{line: 1747, col: 13, offset: 56640},
+																						pos:        position{line: 1748, col: 13, offset: 56665},
 																						val:        "WARNING: ",
 																						ignoreCase: false,
 																						want:       "\"WARNING: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1749, col: 13, offset: 56704},
-																					run: (*parser).callonListContinuationElement1586,
+																					pos: position{line: 1750, col: 13, offset: 56729},
+																					run: (*parser).callonListContinuationElement1587,
 																					expr: &litMatcher{
-																						pos:        position{line: 1749, col: 13, offset: 56704},
+																						pos:        position{line: 1750, col: 13, offset: 56729},
 																						val:        "CAUTION: ",
 																						ignoreCase: false,
 																						want:       "\"CAUTION: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1751, col: 13, offset: 56768},
-																					run: (*parser).callonListContinuationElement1588,
+																					pos: position{line: 1752, col: 13, offset: 56793},
+																					run: (*parser).callonListContinuationElement1589,
 																					expr: &andExpr{
-																						pos: position{line: 1751, col: 13, offset: 56768},
+																						pos: position{line: 1752, col: 13, offset: 56793},
 																						expr: &actionExpr{
-																							pos: position{line: 2884, col: 11, offset: 91378},
-																							run: (*parser).callonListContinuationElement1590,
+																							pos: position{line: 2885, col: 11, offset: 91403},
+																							run: (*parser).callonListContinuationElement1591,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2884, col: 11, offset: 91378},
+																								pos: position{line: 2885, col: 11, offset: 91403},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2884, col: 11, offset: 91378},
+																									pos:        position{line: 2885, col: 11, offset: 91403},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -37121,17 +37125,17 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1753, col: 12, offset: 56838},
+																		pos: position{line: 1754, col: 12, offset: 56863},
 																		expr: &seqExpr{
-																			pos: position{line: 1753, col: 14, offset: 56840},
+																			pos: position{line: 1754, col: 14, offset: 56865},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1753, col: 14, offset: 56840},
+																					pos: position{line: 1754, col: 14, offset: 56865},
 																					expr: &actionExpr{
-																						pos: position{line: 2880, col: 10, offset: 91317},
-																						run: (*parser).callonListContinuationElement1596,
+																						pos: position{line: 2881, col: 10, offset: 91342},
+																						run: (*parser).callonListContinuationElement1597,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2880, col: 10, offset: 91317},
+																							pos:        position{line: 2881, col: 10, offset: 91342},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37140,28 +37144,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2902, col: 8, offset: 91715},
+																					pos: position{line: 2903, col: 8, offset: 91740},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2889, col: 12, offset: 91488},
-																							run: (*parser).callonListContinuationElement1599,
+																							pos: position{line: 2890, col: 12, offset: 91513},
+																							run: (*parser).callonListContinuationElement1600,
 																							expr: &choiceExpr{
-																								pos: position{line: 2889, col: 13, offset: 91489},
+																								pos: position{line: 2890, col: 13, offset: 91514},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2889, col: 13, offset: 91489},
+																										pos:        position{line: 2890, col: 13, offset: 91514},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2889, col: 20, offset: 91496},
+																										pos:        position{line: 2890, col: 20, offset: 91521},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2889, col: 29, offset: 91505},
+																										pos:        position{line: 2890, col: 29, offset: 91530},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -37170,9 +37174,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2899, col: 8, offset: 91665},
+																							pos: position{line: 2900, col: 8, offset: 91690},
 																							expr: &anyMatcher{
-																								line: 2899, col: 9, offset: 91666,
+																								line: 2900, col: 9, offset: 91691,
 																							},
 																						},
 																					},
@@ -37186,11 +37190,11 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1574, col: 5, offset: 51062},
+													pos:   position{line: 1575, col: 5, offset: 51087},
 													label: "content",
 													expr: &actionExpr{
 														pos: position{line: 1517, col: 5, offset: 49412},
-														run: (*parser).callonListContinuationElement1607,
+														run: (*parser).callonListContinuationElement1608,
 														expr: &seqExpr{
 															pos: position{line: 1517, col: 5, offset: 49412},
 															exprs: []interface{}{
@@ -37198,23 +37202,23 @@ var g = &grammar{
 																	pos: position{line: 1517, col: 5, offset: 49412},
 																	expr: &actionExpr{
 																		pos: position{line: 677, col: 14, offset: 21525},
-																		run: (*parser).callonListContinuationElement1610,
+																		run: (*parser).callonListContinuationElement1611,
 																		expr: &seqExpr{
 																			pos: position{line: 677, col: 14, offset: 21525},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2897, col: 11, offset: 91651},
+																					pos: position{line: 2898, col: 11, offset: 91676},
 																					expr: &anyMatcher{
-																						line: 2897, col: 13, offset: 91653,
+																						line: 2898, col: 13, offset: 91678,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21532},
 																					expr: &actionExpr{
-																						pos: position{line: 2880, col: 10, offset: 91317},
-																						run: (*parser).callonListContinuationElement1615,
+																						pos: position{line: 2881, col: 10, offset: 91342},
+																						run: (*parser).callonListContinuationElement1616,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2880, col: 10, offset: 91317},
+																							pos:        position{line: 2881, col: 10, offset: 91342},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37223,28 +37227,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2902, col: 8, offset: 91715},
+																					pos: position{line: 2903, col: 8, offset: 91740},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2889, col: 12, offset: 91488},
-																							run: (*parser).callonListContinuationElement1618,
+																							pos: position{line: 2890, col: 12, offset: 91513},
+																							run: (*parser).callonListContinuationElement1619,
 																							expr: &choiceExpr{
-																								pos: position{line: 2889, col: 13, offset: 91489},
+																								pos: position{line: 2890, col: 13, offset: 91514},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2889, col: 13, offset: 91489},
+																										pos:        position{line: 2890, col: 13, offset: 91514},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2889, col: 20, offset: 91496},
+																										pos:        position{line: 2890, col: 20, offset: 91521},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2889, col: 29, offset: 91505},
+																										pos:        position{line: 2890, col: 29, offset: 91530},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -37253,9 +37257,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2899, col: 8, offset: 91665},
+																							pos: position{line: 2900, col: 8, offset: 91690},
 																							expr: &anyMatcher{
-																								line: 2899, col: 9, offset: 91666,
+																								line: 2900, col: 9, offset: 91691,
 																							},
 																						},
 																					},
@@ -37278,10 +37282,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 1548, col: 31, offset: 50257},
 																				expr: &actionExpr{
-																					pos: position{line: 2880, col: 10, offset: 91317},
-																					run: (*parser).callonListContinuationElement1629,
+																					pos: position{line: 2881, col: 10, offset: 91342},
+																					run: (*parser).callonListContinuationElement1630,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2880, col: 10, offset: 91317},
+																						pos:        position{line: 2881, col: 10, offset: 91342},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -37290,25 +37294,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2889, col: 12, offset: 91488},
-																				run: (*parser).callonListContinuationElement1631,
+																				pos: position{line: 2890, col: 12, offset: 91513},
+																				run: (*parser).callonListContinuationElement1632,
 																				expr: &choiceExpr{
-																					pos: position{line: 2889, col: 13, offset: 91489},
+																					pos: position{line: 2890, col: 13, offset: 91514},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 13, offset: 91489},
+																							pos:        position{line: 2890, col: 13, offset: 91514},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 20, offset: 91496},
+																							pos:        position{line: 2890, col: 20, offset: 91521},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 29, offset: 91505},
+																							pos:        position{line: 2890, col: 29, offset: 91530},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -37322,18 +37326,18 @@ var g = &grammar{
 																&notExpr{
 																	pos: position{line: 1519, col: 5, offset: 49455},
 																	expr: &actionExpr{
-																		pos: position{line: 1589, col: 5, offset: 51472},
-																		run: (*parser).callonListContinuationElement1637,
+																		pos: position{line: 1590, col: 5, offset: 51497},
+																		run: (*parser).callonListContinuationElement1638,
 																		expr: &seqExpr{
-																			pos: position{line: 1589, col: 5, offset: 51472},
+																			pos: position{line: 1590, col: 5, offset: 51497},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1589, col: 5, offset: 51472},
+																					pos: position{line: 1590, col: 5, offset: 51497},
 																					expr: &actionExpr{
-																						pos: position{line: 2880, col: 10, offset: 91317},
-																						run: (*parser).callonListContinuationElement1640,
+																						pos: position{line: 2881, col: 10, offset: 91342},
+																						run: (*parser).callonListContinuationElement1641,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2880, col: 10, offset: 91317},
+																							pos:        position{line: 2881, col: 10, offset: 91342},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37342,27 +37346,27 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1589, col: 12, offset: 51479},
+																					pos:   position{line: 1590, col: 12, offset: 51504},
 																					label: "prefix",
 																					expr: &choiceExpr{
-																						pos: position{line: 1591, col: 9, offset: 51542},
+																						pos: position{line: 1592, col: 9, offset: 51567},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 1591, col: 9, offset: 51542},
-																								run: (*parser).callonListContinuationElement1644,
+																								pos: position{line: 1592, col: 9, offset: 51567},
+																								run: (*parser).callonListContinuationElement1645,
 																								expr: &seqExpr{
-																									pos: position{line: 1591, col: 9, offset: 51542},
+																									pos: position{line: 1592, col: 9, offset: 51567},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 1591, col: 9, offset: 51542},
+																											pos:   position{line: 1592, col: 9, offset: 51567},
 																											label: "depth",
 																											expr: &actionExpr{
-																												pos: position{line: 1591, col: 16, offset: 51549},
-																												run: (*parser).callonListContinuationElement1647,
+																												pos: position{line: 1592, col: 16, offset: 51574},
+																												run: (*parser).callonListContinuationElement1648,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1591, col: 16, offset: 51549},
+																													pos: position{line: 1592, col: 16, offset: 51574},
 																													expr: &litMatcher{
-																														pos:        position{line: 1591, col: 17, offset: 51550},
+																														pos:        position{line: 1592, col: 17, offset: 51575},
 																														val:        ".",
 																														ignoreCase: false,
 																														want:       "\".\"",
@@ -37371,22 +37375,22 @@ var g = &grammar{
 																											},
 																										},
 																										&andCodeExpr{
-																											pos: position{line: 1595, col: 9, offset: 51650},
-																											run: (*parser).callonListContinuationElement1650,
+																											pos: position{line: 1596, col: 9, offset: 51675},
+																											run: (*parser).callonListContinuationElement1651,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1614, col: 11, offset: 52367},
-																								run: (*parser).callonListContinuationElement1651,
+																								pos: position{line: 1615, col: 11, offset: 52392},
+																								run: (*parser).callonListContinuationElement1652,
 																								expr: &seqExpr{
-																									pos: position{line: 1614, col: 11, offset: 52367},
+																									pos: position{line: 1615, col: 11, offset: 52392},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1614, col: 11, offset: 52367},
+																											pos: position{line: 1615, col: 11, offset: 52392},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1614, col: 12, offset: 52368},
+																												pos:        position{line: 1615, col: 12, offset: 52393},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -37394,7 +37398,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1614, col: 20, offset: 52376},
+																											pos:        position{line: 1615, col: 20, offset: 52401},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -37403,20 +37407,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1616, col: 13, offset: 52493},
-																								run: (*parser).callonListContinuationElement1656,
+																								pos: position{line: 1617, col: 13, offset: 52518},
+																								run: (*parser).callonListContinuationElement1657,
 																								expr: &seqExpr{
-																									pos: position{line: 1616, col: 13, offset: 52493},
+																									pos: position{line: 1617, col: 13, offset: 52518},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1616, col: 14, offset: 52494},
+																											pos:        position{line: 1617, col: 14, offset: 52519},
 																											val:        "[a-z]",
 																											ranges:     []rune{'a', 'z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1616, col: 21, offset: 52501},
+																											pos:        position{line: 1617, col: 21, offset: 52526},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -37425,20 +37429,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1618, col: 13, offset: 52621},
-																								run: (*parser).callonListContinuationElement1660,
+																								pos: position{line: 1619, col: 13, offset: 52646},
+																								run: (*parser).callonListContinuationElement1661,
 																								expr: &seqExpr{
-																									pos: position{line: 1618, col: 13, offset: 52621},
+																									pos: position{line: 1619, col: 13, offset: 52646},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1618, col: 14, offset: 52622},
+																											pos:        position{line: 1619, col: 14, offset: 52647},
 																											val:        "[A-Z]",
 																											ranges:     []rune{'A', 'Z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1618, col: 21, offset: 52629},
+																											pos:        position{line: 1619, col: 21, offset: 52654},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -37447,15 +37451,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1620, col: 13, offset: 52749},
-																								run: (*parser).callonListContinuationElement1664,
+																								pos: position{line: 1621, col: 13, offset: 52774},
+																								run: (*parser).callonListContinuationElement1665,
 																								expr: &seqExpr{
-																									pos: position{line: 1620, col: 13, offset: 52749},
+																									pos: position{line: 1621, col: 13, offset: 52774},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1620, col: 13, offset: 52749},
+																											pos: position{line: 1621, col: 13, offset: 52774},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1620, col: 14, offset: 52750},
+																												pos:        position{line: 1621, col: 14, offset: 52775},
 																												val:        "[ivxdlcm]",
 																												chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																												ignoreCase: false,
@@ -37463,7 +37467,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1620, col: 26, offset: 52762},
+																											pos:        position{line: 1621, col: 26, offset: 52787},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -37472,15 +37476,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1622, col: 13, offset: 52882},
-																								run: (*parser).callonListContinuationElement1669,
+																								pos: position{line: 1623, col: 13, offset: 52907},
+																								run: (*parser).callonListContinuationElement1670,
 																								expr: &seqExpr{
-																									pos: position{line: 1622, col: 13, offset: 52882},
+																									pos: position{line: 1623, col: 13, offset: 52907},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1622, col: 13, offset: 52882},
+																											pos: position{line: 1623, col: 13, offset: 52907},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1622, col: 14, offset: 52883},
+																												pos:        position{line: 1623, col: 14, offset: 52908},
 																												val:        "[IVXDLCM]",
 																												chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																												ignoreCase: false,
@@ -37488,7 +37492,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1622, col: 26, offset: 52895},
+																											pos:        position{line: 1623, col: 26, offset: 52920},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -37500,12 +37504,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2884, col: 11, offset: 91378},
-																					run: (*parser).callonListContinuationElement1674,
+																					pos: position{line: 2885, col: 11, offset: 91403},
+																					run: (*parser).callonListContinuationElement1675,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2884, col: 11, offset: 91378},
+																						pos: position{line: 2885, col: 11, offset: 91403},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2884, col: 11, offset: 91378},
+																							pos:        position{line: 2885, col: 11, offset: 91403},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37520,18 +37524,18 @@ var g = &grammar{
 																&notExpr{
 																	pos: position{line: 1520, col: 5, offset: 49485},
 																	expr: &actionExpr{
-																		pos: position{line: 1639, col: 5, offset: 53434},
-																		run: (*parser).callonListContinuationElement1678,
+																		pos: position{line: 1640, col: 5, offset: 53459},
+																		run: (*parser).callonListContinuationElement1679,
 																		expr: &seqExpr{
-																			pos: position{line: 1639, col: 5, offset: 53434},
+																			pos: position{line: 1640, col: 5, offset: 53459},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1639, col: 5, offset: 53434},
+																					pos: position{line: 1640, col: 5, offset: 53459},
 																					expr: &actionExpr{
-																						pos: position{line: 2880, col: 10, offset: 91317},
-																						run: (*parser).callonListContinuationElement1681,
+																						pos: position{line: 2881, col: 10, offset: 91342},
+																						run: (*parser).callonListContinuationElement1682,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2880, col: 10, offset: 91317},
+																							pos:        position{line: 2881, col: 10, offset: 91342},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37540,24 +37544,24 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1640, col: 5, offset: 53446},
+																					pos:   position{line: 1641, col: 5, offset: 53471},
 																					label: "style",
 																					expr: &actionExpr{
-																						pos: position{line: 1641, col: 9, offset: 53462},
-																						run: (*parser).callonListContinuationElement1684,
+																						pos: position{line: 1642, col: 9, offset: 53487},
+																						run: (*parser).callonListContinuationElement1685,
 																						expr: &choiceExpr{
-																							pos: position{line: 1641, col: 10, offset: 53463},
+																							pos: position{line: 1642, col: 10, offset: 53488},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1641, col: 11, offset: 53464},
+																									pos:        position{line: 1642, col: 11, offset: 53489},
 																									val:        "-",
 																									ignoreCase: false,
 																									want:       "\"-\"",
 																								},
 																								&oneOrMoreExpr{
-																									pos: position{line: 1641, col: 18, offset: 53471},
+																									pos: position{line: 1642, col: 18, offset: 53496},
 																									expr: &litMatcher{
-																										pos:        position{line: 1641, col: 19, offset: 53472},
+																										pos:        position{line: 1642, col: 19, offset: 53497},
 																										val:        "*",
 																										ignoreCase: false,
 																										want:       "\"*\"",
@@ -37568,16 +37572,16 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1644, col: 7, offset: 53562},
-																					run: (*parser).callonListContinuationElement1689,
+																					pos: position{line: 1645, col: 7, offset: 53587},
+																					run: (*parser).callonListContinuationElement1690,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2884, col: 11, offset: 91378},
-																					run: (*parser).callonListContinuationElement1690,
+																					pos: position{line: 2885, col: 11, offset: 91403},
+																					run: (*parser).callonListContinuationElement1691,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2884, col: 11, offset: 91378},
+																						pos: position{line: 2885, col: 11, offset: 91403},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2884, col: 11, offset: 91378},
+																							pos:        position{line: 2885, col: 11, offset: 91403},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37592,27 +37596,27 @@ var g = &grammar{
 																&notExpr{
 																	pos: position{line: 1521, col: 5, offset: 49517},
 																	expr: &actionExpr{
-																		pos: position{line: 1729, col: 5, offset: 56003},
-																		run: (*parser).callonListContinuationElement1694,
+																		pos: position{line: 1730, col: 5, offset: 56028},
+																		run: (*parser).callonListContinuationElement1695,
 																		expr: &seqExpr{
-																			pos: position{line: 1729, col: 5, offset: 56003},
+																			pos: position{line: 1730, col: 5, offset: 56028},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1729, col: 5, offset: 56003},
+																					pos:        position{line: 1730, col: 5, offset: 56028},
 																					val:        "<",
 																					ignoreCase: false,
 																					want:       "\"<\"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1729, col: 9, offset: 56007},
+																					pos:   position{line: 1730, col: 9, offset: 56032},
 																					label: "ref",
 																					expr: &actionExpr{
-																						pos: position{line: 1729, col: 14, offset: 56012},
-																						run: (*parser).callonListContinuationElement1698,
+																						pos: position{line: 1730, col: 14, offset: 56037},
+																						run: (*parser).callonListContinuationElement1699,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 1729, col: 14, offset: 56012},
+																							pos: position{line: 1730, col: 14, offset: 56037},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1729, col: 14, offset: 56012},
+																								pos:        position{line: 1730, col: 14, offset: 56037},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -37622,18 +37626,18 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 1729, col: 62, offset: 56060},
+																					pos:        position{line: 1730, col: 62, offset: 56085},
 																					val:        ">",
 																					ignoreCase: false,
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2884, col: 11, offset: 91378},
-																					run: (*parser).callonListContinuationElement1702,
+																					pos: position{line: 2885, col: 11, offset: 91403},
+																					run: (*parser).callonListContinuationElement1703,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2884, col: 11, offset: 91378},
+																						pos: position{line: 2885, col: 11, offset: 91403},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2884, col: 11, offset: 91378},
+																							pos:        position{line: 2885, col: 11, offset: 91403},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37651,26 +37655,26 @@ var g = &grammar{
 																		pos: position{line: 1522, col: 7, offset: 49549},
 																		exprs: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1674, col: 5, offset: 54453},
-																				run: (*parser).callonListContinuationElement1707,
+																				pos: position{line: 1675, col: 5, offset: 54478},
+																				run: (*parser).callonListContinuationElement1708,
 																				expr: &seqExpr{
-																					pos: position{line: 1674, col: 5, offset: 54453},
+																					pos: position{line: 1675, col: 5, offset: 54478},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1674, col: 5, offset: 54453},
+																							pos: position{line: 1675, col: 5, offset: 54478},
 																							expr: &seqExpr{
-																								pos: position{line: 2492, col: 31, offset: 80424},
+																								pos: position{line: 2493, col: 31, offset: 80449},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2492, col: 31, offset: 80424},
+																										pos:        position{line: 2493, col: 31, offset: 80449},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2492, col: 36, offset: 80429},
+																										pos: position{line: 2493, col: 36, offset: 80454},
 																										expr: &litMatcher{
-																											pos:        position{line: 2492, col: 37, offset: 80430},
+																											pos:        position{line: 2493, col: 37, offset: 80455},
 																											val:        "//",
 																											ignoreCase: false,
 																											want:       "\"//\"",
@@ -37680,28 +37684,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1675, col: 5, offset: 54485},
+																							pos: position{line: 1676, col: 5, offset: 54510},
 																							expr: &seqExpr{
-																								pos: position{line: 1675, col: 6, offset: 54486},
+																								pos: position{line: 1676, col: 6, offset: 54511},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1675, col: 6, offset: 54486},
+																										pos: position{line: 1676, col: 6, offset: 54511},
 																										expr: &actionExpr{
-																											pos: position{line: 1680, col: 5, offset: 54636},
-																											run: (*parser).callonListContinuationElement1717,
+																											pos: position{line: 1681, col: 5, offset: 54661},
+																											run: (*parser).callonListContinuationElement1718,
 																											expr: &seqExpr{
-																												pos: position{line: 1680, col: 5, offset: 54636},
+																												pos: position{line: 1681, col: 5, offset: 54661},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1680, col: 5, offset: 54636},
+																														pos:   position{line: 1681, col: 5, offset: 54661},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1680, col: 16, offset: 54647},
-																															run: (*parser).callonListContinuationElement1720,
+																															pos: position{line: 1681, col: 16, offset: 54672},
+																															run: (*parser).callonListContinuationElement1721,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1680, col: 16, offset: 54647},
+																																pos: position{line: 1681, col: 16, offset: 54672},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1680, col: 17, offset: 54648},
+																																	pos:        position{line: 1681, col: 17, offset: 54673},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -37710,38 +37714,38 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1683, col: 5, offset: 54705},
-																														run: (*parser).callonListContinuationElement1723,
+																														pos: position{line: 1684, col: 5, offset: 54730},
+																														run: (*parser).callonListContinuationElement1724,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1675, col: 35, offset: 54515},
+																										pos: position{line: 1676, col: 35, offset: 54540},
 																										expr: &choiceExpr{
-																											pos: position{line: 2902, col: 8, offset: 91715},
+																											pos: position{line: 2903, col: 8, offset: 91740},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2889, col: 12, offset: 91488},
-																													run: (*parser).callonListContinuationElement1726,
+																													pos: position{line: 2890, col: 12, offset: 91513},
+																													run: (*parser).callonListContinuationElement1727,
 																													expr: &choiceExpr{
-																														pos: position{line: 2889, col: 13, offset: 91489},
+																														pos: position{line: 2890, col: 13, offset: 91514},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 13, offset: 91489},
+																																pos:        position{line: 2890, col: 13, offset: 91514},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 20, offset: 91496},
+																																pos:        position{line: 2890, col: 20, offset: 91521},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 29, offset: 91505},
+																																pos:        position{line: 2890, col: 29, offset: 91530},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37750,16 +37754,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2899, col: 8, offset: 91665},
+																													pos: position{line: 2900, col: 8, offset: 91690},
 																													expr: &anyMatcher{
-																														line: 2899, col: 9, offset: 91666,
+																														line: 2900, col: 9, offset: 91691,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1675, col: 40, offset: 54520,
+																										line: 1676, col: 40, offset: 54545,
 																									},
 																								},
 																							},
@@ -37768,21 +37772,21 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1680, col: 5, offset: 54636},
-																				run: (*parser).callonListContinuationElement1734,
+																				pos: position{line: 1681, col: 5, offset: 54661},
+																				run: (*parser).callonListContinuationElement1735,
 																				expr: &seqExpr{
-																					pos: position{line: 1680, col: 5, offset: 54636},
+																					pos: position{line: 1681, col: 5, offset: 54661},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1680, col: 5, offset: 54636},
+																							pos:   position{line: 1681, col: 5, offset: 54661},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1680, col: 16, offset: 54647},
-																								run: (*parser).callonListContinuationElement1737,
+																								pos: position{line: 1681, col: 16, offset: 54672},
+																								run: (*parser).callonListContinuationElement1738,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1680, col: 16, offset: 54647},
+																									pos: position{line: 1681, col: 16, offset: 54672},
 																									expr: &litMatcher{
-																										pos:        position{line: 1680, col: 17, offset: 54648},
+																										pos:        position{line: 1681, col: 17, offset: 54673},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -37791,8 +37795,8 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1683, col: 5, offset: 54705},
-																							run: (*parser).callonListContinuationElement1740,
+																							pos: position{line: 1684, col: 5, offset: 54730},
+																							run: (*parser).callonListContinuationElement1741,
 																						},
 																					},
 																				},
@@ -37804,14 +37808,14 @@ var g = &grammar{
 																	pos: position{line: 1523, col: 5, offset: 49605},
 																	expr: &actionExpr{
 																		pos: position{line: 725, col: 5, offset: 23101},
-																		run: (*parser).callonListContinuationElement1742,
+																		run: (*parser).callonListContinuationElement1743,
 																		expr: &seqExpr{
 																			pos: position{line: 725, col: 5, offset: 23101},
 																			exprs: []interface{}{
 																				&notExpr{
 																					pos: position{line: 725, col: 5, offset: 23101},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2770, col: 13, offset: 88391},
+																						pos:        position{line: 2771, col: 13, offset: 88416},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -37826,7 +37830,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 741, col: 5, offset: 23643},
-																								run: (*parser).callonListContinuationElement1748,
+																								run: (*parser).callonListContinuationElement1749,
 																								expr: &seqExpr{
 																									pos: position{line: 741, col: 5, offset: 23643},
 																									exprs: []interface{}{
@@ -37835,7 +37839,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 741, col: 16, offset: 23654},
-																												run: (*parser).callonListContinuationElement1751,
+																												run: (*parser).callonListContinuationElement1752,
 																												expr: &seqExpr{
 																													pos: position{line: 741, col: 16, offset: 23654},
 																													exprs: []interface{}{
@@ -37861,10 +37865,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 743, col: 8, offset: 23745},
 																											expr: &actionExpr{
-																												pos: position{line: 2880, col: 10, offset: 91317},
-																												run: (*parser).callonListContinuationElement1757,
+																												pos: position{line: 2881, col: 10, offset: 91342},
+																												run: (*parser).callonListContinuationElement1758,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2880, col: 10, offset: 91317},
+																													pos:        position{line: 2881, col: 10, offset: 91342},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37873,28 +37877,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2902, col: 8, offset: 91715},
+																											pos: position{line: 2903, col: 8, offset: 91740},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2889, col: 12, offset: 91488},
-																													run: (*parser).callonListContinuationElement1760,
+																													pos: position{line: 2890, col: 12, offset: 91513},
+																													run: (*parser).callonListContinuationElement1761,
 																													expr: &choiceExpr{
-																														pos: position{line: 2889, col: 13, offset: 91489},
+																														pos: position{line: 2890, col: 13, offset: 91514},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 13, offset: 91489},
+																																pos:        position{line: 2890, col: 13, offset: 91514},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 20, offset: 91496},
+																																pos:        position{line: 2890, col: 20, offset: 91521},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 29, offset: 91505},
+																																pos:        position{line: 2890, col: 29, offset: 91530},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37903,9 +37907,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2899, col: 8, offset: 91665},
+																													pos: position{line: 2900, col: 8, offset: 91690},
 																													expr: &anyMatcher{
-																														line: 2899, col: 9, offset: 91666,
+																														line: 2900, col: 9, offset: 91691,
 																													},
 																												},
 																											},
@@ -37915,7 +37919,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 748, col: 5, offset: 23891},
-																								run: (*parser).callonListContinuationElement1767,
+																								run: (*parser).callonListContinuationElement1768,
 																								expr: &seqExpr{
 																									pos: position{line: 748, col: 5, offset: 23891},
 																									exprs: []interface{}{
@@ -37924,7 +37928,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 748, col: 16, offset: 23902},
-																												run: (*parser).callonListContinuationElement1770,
+																												run: (*parser).callonListContinuationElement1771,
 																												expr: &seqExpr{
 																													pos: position{line: 748, col: 16, offset: 23902},
 																													exprs: []interface{}{
@@ -37950,10 +37954,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 750, col: 8, offset: 23993},
 																											expr: &actionExpr{
-																												pos: position{line: 2880, col: 10, offset: 91317},
-																												run: (*parser).callonListContinuationElement1776,
+																												pos: position{line: 2881, col: 10, offset: 91342},
+																												run: (*parser).callonListContinuationElement1777,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2880, col: 10, offset: 91317},
+																													pos:        position{line: 2881, col: 10, offset: 91342},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37962,28 +37966,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2902, col: 8, offset: 91715},
+																											pos: position{line: 2903, col: 8, offset: 91740},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2889, col: 12, offset: 91488},
-																													run: (*parser).callonListContinuationElement1779,
+																													pos: position{line: 2890, col: 12, offset: 91513},
+																													run: (*parser).callonListContinuationElement1780,
 																													expr: &choiceExpr{
-																														pos: position{line: 2889, col: 13, offset: 91489},
+																														pos: position{line: 2890, col: 13, offset: 91514},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 13, offset: 91489},
+																																pos:        position{line: 2890, col: 13, offset: 91514},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 20, offset: 91496},
+																																pos:        position{line: 2890, col: 20, offset: 91521},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 29, offset: 91505},
+																																pos:        position{line: 2890, col: 29, offset: 91530},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37992,9 +37996,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2899, col: 8, offset: 91665},
+																													pos: position{line: 2900, col: 8, offset: 91690},
 																													expr: &anyMatcher{
-																														line: 2899, col: 9, offset: 91666,
+																														line: 2900, col: 9, offset: 91691,
 																													},
 																												},
 																											},
@@ -38004,7 +38008,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 761, col: 26, offset: 24379},
-																								run: (*parser).callonListContinuationElement1786,
+																								run: (*parser).callonListContinuationElement1787,
 																								expr: &seqExpr{
 																									pos: position{line: 761, col: 26, offset: 24379},
 																									exprs: []interface{}{
@@ -38019,7 +38023,7 @@ var g = &grammar{
 																											label: "language",
 																											expr: &actionExpr{
 																												pos: position{line: 765, col: 13, offset: 24515},
-																												run: (*parser).callonListContinuationElement1790,
+																												run: (*parser).callonListContinuationElement1791,
 																												expr: &oneOrMoreExpr{
 																													pos: position{line: 765, col: 14, offset: 24516},
 																													expr: &charClassMatcher{
@@ -38035,10 +38039,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 761, col: 52, offset: 24405},
 																											expr: &actionExpr{
-																												pos: position{line: 2880, col: 10, offset: 91317},
-																												run: (*parser).callonListContinuationElement1794,
+																												pos: position{line: 2881, col: 10, offset: 91342},
+																												run: (*parser).callonListContinuationElement1795,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2880, col: 10, offset: 91317},
+																													pos:        position{line: 2881, col: 10, offset: 91342},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38047,28 +38051,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2902, col: 8, offset: 91715},
+																											pos: position{line: 2903, col: 8, offset: 91740},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2889, col: 12, offset: 91488},
-																													run: (*parser).callonListContinuationElement1797,
+																													pos: position{line: 2890, col: 12, offset: 91513},
+																													run: (*parser).callonListContinuationElement1798,
 																													expr: &choiceExpr{
-																														pos: position{line: 2889, col: 13, offset: 91489},
+																														pos: position{line: 2890, col: 13, offset: 91514},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 13, offset: 91489},
+																																pos:        position{line: 2890, col: 13, offset: 91514},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 20, offset: 91496},
+																																pos:        position{line: 2890, col: 20, offset: 91521},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 29, offset: 91505},
+																																pos:        position{line: 2890, col: 29, offset: 91530},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38077,9 +38081,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2899, col: 8, offset: 91665},
+																													pos: position{line: 2900, col: 8, offset: 91690},
 																													expr: &anyMatcher{
-																														line: 2899, col: 9, offset: 91666,
+																														line: 2900, col: 9, offset: 91691,
 																													},
 																												},
 																											},
@@ -38089,7 +38093,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 755, col: 5, offset: 24138},
-																								run: (*parser).callonListContinuationElement1804,
+																								run: (*parser).callonListContinuationElement1805,
 																								expr: &seqExpr{
 																									pos: position{line: 755, col: 5, offset: 24138},
 																									exprs: []interface{}{
@@ -38098,7 +38102,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 755, col: 16, offset: 24149},
-																												run: (*parser).callonListContinuationElement1807,
+																												run: (*parser).callonListContinuationElement1808,
 																												expr: &seqExpr{
 																													pos: position{line: 755, col: 16, offset: 24149},
 																													exprs: []interface{}{
@@ -38124,10 +38128,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 757, col: 8, offset: 24239},
 																											expr: &actionExpr{
-																												pos: position{line: 2880, col: 10, offset: 91317},
-																												run: (*parser).callonListContinuationElement1813,
+																												pos: position{line: 2881, col: 10, offset: 91342},
+																												run: (*parser).callonListContinuationElement1814,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2880, col: 10, offset: 91317},
+																													pos:        position{line: 2881, col: 10, offset: 91342},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38136,28 +38140,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2902, col: 8, offset: 91715},
+																											pos: position{line: 2903, col: 8, offset: 91740},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2889, col: 12, offset: 91488},
-																													run: (*parser).callonListContinuationElement1816,
+																													pos: position{line: 2890, col: 12, offset: 91513},
+																													run: (*parser).callonListContinuationElement1817,
 																													expr: &choiceExpr{
-																														pos: position{line: 2889, col: 13, offset: 91489},
+																														pos: position{line: 2890, col: 13, offset: 91514},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 13, offset: 91489},
+																																pos:        position{line: 2890, col: 13, offset: 91514},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 20, offset: 91496},
+																																pos:        position{line: 2890, col: 20, offset: 91521},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 29, offset: 91505},
+																																pos:        position{line: 2890, col: 29, offset: 91530},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38166,9 +38170,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2899, col: 8, offset: 91665},
+																													pos: position{line: 2900, col: 8, offset: 91690},
 																													expr: &anyMatcher{
-																														line: 2899, col: 9, offset: 91666,
+																														line: 2900, col: 9, offset: 91691,
 																													},
 																												},
 																											},
@@ -38178,7 +38182,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 770, col: 5, offset: 24680},
-																								run: (*parser).callonListContinuationElement1823,
+																								run: (*parser).callonListContinuationElement1824,
 																								expr: &seqExpr{
 																									pos: position{line: 770, col: 5, offset: 24680},
 																									exprs: []interface{}{
@@ -38187,7 +38191,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 770, col: 16, offset: 24691},
-																												run: (*parser).callonListContinuationElement1826,
+																												run: (*parser).callonListContinuationElement1827,
 																												expr: &seqExpr{
 																													pos: position{line: 770, col: 16, offset: 24691},
 																													exprs: []interface{}{
@@ -38213,10 +38217,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 772, col: 8, offset: 24782},
 																											expr: &actionExpr{
-																												pos: position{line: 2880, col: 10, offset: 91317},
-																												run: (*parser).callonListContinuationElement1832,
+																												pos: position{line: 2881, col: 10, offset: 91342},
+																												run: (*parser).callonListContinuationElement1833,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2880, col: 10, offset: 91317},
+																													pos:        position{line: 2881, col: 10, offset: 91342},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38225,28 +38229,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2902, col: 8, offset: 91715},
+																											pos: position{line: 2903, col: 8, offset: 91740},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2889, col: 12, offset: 91488},
-																													run: (*parser).callonListContinuationElement1835,
+																													pos: position{line: 2890, col: 12, offset: 91513},
+																													run: (*parser).callonListContinuationElement1836,
 																													expr: &choiceExpr{
-																														pos: position{line: 2889, col: 13, offset: 91489},
+																														pos: position{line: 2890, col: 13, offset: 91514},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 13, offset: 91489},
+																																pos:        position{line: 2890, col: 13, offset: 91514},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 20, offset: 91496},
+																																pos:        position{line: 2890, col: 20, offset: 91521},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 29, offset: 91505},
+																																pos:        position{line: 2890, col: 29, offset: 91530},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38255,9 +38259,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2899, col: 8, offset: 91665},
+																													pos: position{line: 2900, col: 8, offset: 91690},
 																													expr: &anyMatcher{
-																														line: 2899, col: 9, offset: 91666,
+																														line: 2900, col: 9, offset: 91691,
 																													},
 																												},
 																											},
@@ -38267,7 +38271,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 784, col: 5, offset: 25156},
-																								run: (*parser).callonListContinuationElement1842,
+																								run: (*parser).callonListContinuationElement1843,
 																								expr: &seqExpr{
 																									pos: position{line: 784, col: 5, offset: 25156},
 																									exprs: []interface{}{
@@ -38276,7 +38280,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 784, col: 16, offset: 25167},
-																												run: (*parser).callonListContinuationElement1845,
+																												run: (*parser).callonListContinuationElement1846,
 																												expr: &seqExpr{
 																													pos: position{line: 784, col: 16, offset: 25167},
 																													exprs: []interface{}{
@@ -38302,10 +38306,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 786, col: 8, offset: 25258},
 																											expr: &actionExpr{
-																												pos: position{line: 2880, col: 10, offset: 91317},
-																												run: (*parser).callonListContinuationElement1851,
+																												pos: position{line: 2881, col: 10, offset: 91342},
+																												run: (*parser).callonListContinuationElement1852,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2880, col: 10, offset: 91317},
+																													pos:        position{line: 2881, col: 10, offset: 91342},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38314,28 +38318,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2902, col: 8, offset: 91715},
+																											pos: position{line: 2903, col: 8, offset: 91740},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2889, col: 12, offset: 91488},
-																													run: (*parser).callonListContinuationElement1854,
+																													pos: position{line: 2890, col: 12, offset: 91513},
+																													run: (*parser).callonListContinuationElement1855,
 																													expr: &choiceExpr{
-																														pos: position{line: 2889, col: 13, offset: 91489},
+																														pos: position{line: 2890, col: 13, offset: 91514},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 13, offset: 91489},
+																																pos:        position{line: 2890, col: 13, offset: 91514},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 20, offset: 91496},
+																																pos:        position{line: 2890, col: 20, offset: 91521},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 29, offset: 91505},
+																																pos:        position{line: 2890, col: 29, offset: 91530},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38344,9 +38348,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2899, col: 8, offset: 91665},
+																													pos: position{line: 2900, col: 8, offset: 91690},
 																													expr: &anyMatcher{
-																														line: 2899, col: 9, offset: 91666,
+																														line: 2900, col: 9, offset: 91691,
 																													},
 																												},
 																											},
@@ -38356,7 +38360,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 791, col: 5, offset: 25408},
-																								run: (*parser).callonListContinuationElement1861,
+																								run: (*parser).callonListContinuationElement1862,
 																								expr: &seqExpr{
 																									pos: position{line: 791, col: 5, offset: 25408},
 																									exprs: []interface{}{
@@ -38365,7 +38369,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 791, col: 16, offset: 25419},
-																												run: (*parser).callonListContinuationElement1864,
+																												run: (*parser).callonListContinuationElement1865,
 																												expr: &seqExpr{
 																													pos: position{line: 791, col: 16, offset: 25419},
 																													exprs: []interface{}{
@@ -38391,10 +38395,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 793, col: 8, offset: 25510},
 																											expr: &actionExpr{
-																												pos: position{line: 2880, col: 10, offset: 91317},
-																												run: (*parser).callonListContinuationElement1870,
+																												pos: position{line: 2881, col: 10, offset: 91342},
+																												run: (*parser).callonListContinuationElement1871,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2880, col: 10, offset: 91317},
+																													pos:        position{line: 2881, col: 10, offset: 91342},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38403,28 +38407,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2902, col: 8, offset: 91715},
+																											pos: position{line: 2903, col: 8, offset: 91740},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2889, col: 12, offset: 91488},
-																													run: (*parser).callonListContinuationElement1873,
+																													pos: position{line: 2890, col: 12, offset: 91513},
+																													run: (*parser).callonListContinuationElement1874,
 																													expr: &choiceExpr{
-																														pos: position{line: 2889, col: 13, offset: 91489},
+																														pos: position{line: 2890, col: 13, offset: 91514},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 13, offset: 91489},
+																																pos:        position{line: 2890, col: 13, offset: 91514},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 20, offset: 91496},
+																																pos:        position{line: 2890, col: 20, offset: 91521},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 29, offset: 91505},
+																																pos:        position{line: 2890, col: 29, offset: 91530},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38433,9 +38437,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2899, col: 8, offset: 91665},
+																													pos: position{line: 2900, col: 8, offset: 91690},
 																													expr: &anyMatcher{
-																														line: 2899, col: 9, offset: 91666,
+																														line: 2900, col: 9, offset: 91691,
 																													},
 																												},
 																											},
@@ -38445,7 +38449,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 798, col: 5, offset: 25658},
-																								run: (*parser).callonListContinuationElement1880,
+																								run: (*parser).callonListContinuationElement1881,
 																								expr: &seqExpr{
 																									pos: position{line: 798, col: 5, offset: 25658},
 																									exprs: []interface{}{
@@ -38454,7 +38458,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 798, col: 16, offset: 25669},
-																												run: (*parser).callonListContinuationElement1883,
+																												run: (*parser).callonListContinuationElement1884,
 																												expr: &seqExpr{
 																													pos: position{line: 798, col: 16, offset: 25669},
 																													exprs: []interface{}{
@@ -38480,10 +38484,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 800, col: 8, offset: 25760},
 																											expr: &actionExpr{
-																												pos: position{line: 2880, col: 10, offset: 91317},
-																												run: (*parser).callonListContinuationElement1889,
+																												pos: position{line: 2881, col: 10, offset: 91342},
+																												run: (*parser).callonListContinuationElement1890,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2880, col: 10, offset: 91317},
+																													pos:        position{line: 2881, col: 10, offset: 91342},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38492,28 +38496,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2902, col: 8, offset: 91715},
+																											pos: position{line: 2903, col: 8, offset: 91740},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2889, col: 12, offset: 91488},
-																													run: (*parser).callonListContinuationElement1892,
+																													pos: position{line: 2890, col: 12, offset: 91513},
+																													run: (*parser).callonListContinuationElement1893,
 																													expr: &choiceExpr{
-																														pos: position{line: 2889, col: 13, offset: 91489},
+																														pos: position{line: 2890, col: 13, offset: 91514},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 13, offset: 91489},
+																																pos:        position{line: 2890, col: 13, offset: 91514},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 20, offset: 91496},
+																																pos:        position{line: 2890, col: 20, offset: 91521},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 29, offset: 91505},
+																																pos:        position{line: 2890, col: 29, offset: 91530},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38522,9 +38526,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2899, col: 8, offset: 91665},
+																													pos: position{line: 2900, col: 8, offset: 91690},
 																													expr: &anyMatcher{
-																														line: 2899, col: 9, offset: 91666,
+																														line: 2900, col: 9, offset: 91691,
 																													},
 																												},
 																											},
@@ -38534,7 +38538,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 805, col: 5, offset: 25904},
-																								run: (*parser).callonListContinuationElement1899,
+																								run: (*parser).callonListContinuationElement1900,
 																								expr: &seqExpr{
 																									pos: position{line: 805, col: 5, offset: 25904},
 																									exprs: []interface{}{
@@ -38543,7 +38547,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 805, col: 16, offset: 25915},
-																												run: (*parser).callonListContinuationElement1902,
+																												run: (*parser).callonListContinuationElement1903,
 																												expr: &seqExpr{
 																													pos: position{line: 805, col: 16, offset: 25915},
 																													exprs: []interface{}{
@@ -38569,10 +38573,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 807, col: 8, offset: 26006},
 																											expr: &actionExpr{
-																												pos: position{line: 2880, col: 10, offset: 91317},
-																												run: (*parser).callonListContinuationElement1908,
+																												pos: position{line: 2881, col: 10, offset: 91342},
+																												run: (*parser).callonListContinuationElement1909,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2880, col: 10, offset: 91317},
+																													pos:        position{line: 2881, col: 10, offset: 91342},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38581,28 +38585,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2902, col: 8, offset: 91715},
+																											pos: position{line: 2903, col: 8, offset: 91740},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2889, col: 12, offset: 91488},
-																													run: (*parser).callonListContinuationElement1911,
+																													pos: position{line: 2890, col: 12, offset: 91513},
+																													run: (*parser).callonListContinuationElement1912,
 																													expr: &choiceExpr{
-																														pos: position{line: 2889, col: 13, offset: 91489},
+																														pos: position{line: 2890, col: 13, offset: 91514},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 13, offset: 91489},
+																																pos:        position{line: 2890, col: 13, offset: 91514},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 20, offset: 91496},
+																																pos:        position{line: 2890, col: 20, offset: 91521},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2889, col: 29, offset: 91505},
+																																pos:        position{line: 2890, col: 29, offset: 91530},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38611,9 +38615,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2899, col: 8, offset: 91665},
+																													pos: position{line: 2900, col: 8, offset: 91690},
 																													expr: &anyMatcher{
-																														line: 2899, col: 9, offset: 91666,
+																														line: 2900, col: 9, offset: 91691,
 																													},
 																												},
 																											},
@@ -38632,12 +38636,12 @@ var g = &grammar{
 																	pos:   position{line: 1524, col: 5, offset: 49625},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2830, col: 14, offset: 89910},
-																		run: (*parser).callonListContinuationElement1919,
+																		pos: position{line: 2831, col: 14, offset: 89935},
+																		run: (*parser).callonListContinuationElement1920,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2830, col: 14, offset: 89910},
+																			pos: position{line: 2831, col: 14, offset: 89935},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2830, col: 14, offset: 89910},
+																				pos:        position{line: 2831, col: 14, offset: 89935},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -38647,28 +38651,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2902, col: 8, offset: 91715},
+																	pos: position{line: 2903, col: 8, offset: 91740},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2889, col: 12, offset: 91488},
-																			run: (*parser).callonListContinuationElement1923,
+																			pos: position{line: 2890, col: 12, offset: 91513},
+																			run: (*parser).callonListContinuationElement1924,
 																			expr: &choiceExpr{
-																				pos: position{line: 2889, col: 13, offset: 91489},
+																				pos: position{line: 2890, col: 13, offset: 91514},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 13, offset: 91489},
+																						pos:        position{line: 2890, col: 13, offset: 91514},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 20, offset: 91496},
+																						pos:        position{line: 2890, col: 20, offset: 91521},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 29, offset: 91505},
+																						pos:        position{line: 2890, col: 29, offset: 91530},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -38677,9 +38681,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2899, col: 8, offset: 91665},
+																			pos: position{line: 2900, col: 8, offset: 91690},
 																			expr: &anyMatcher{
-																				line: 2899, col: 9, offset: 91666,
+																				line: 2900, col: 9, offset: 91691,
 																			},
 																		},
 																	},
@@ -38700,33 +38704,33 @@ var g = &grammar{
 		},
 		{
 			name: "Callout",
-			pos:  position{line: 1713, col: 1, offset: 55497},
+			pos:  position{line: 1714, col: 1, offset: 55522},
 			expr: &actionExpr{
-				pos: position{line: 1715, col: 5, offset: 55575},
+				pos: position{line: 1716, col: 5, offset: 55600},
 				run: (*parser).callonCallout1,
 				expr: &seqExpr{
-					pos: position{line: 1715, col: 5, offset: 55575},
+					pos: position{line: 1716, col: 5, offset: 55600},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1715, col: 5, offset: 55575},
+							pos: position{line: 1716, col: 5, offset: 55600},
 							run: (*parser).callonCallout3,
 						},
 						&litMatcher{
-							pos:        position{line: 1718, col: 5, offset: 55642},
+							pos:        position{line: 1719, col: 5, offset: 55667},
 							val:        "<",
 							ignoreCase: false,
 							want:       "\"<\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1718, col: 9, offset: 55646},
+							pos:   position{line: 1719, col: 9, offset: 55671},
 							label: "ref",
 							expr: &actionExpr{
-								pos: position{line: 1718, col: 14, offset: 55651},
+								pos: position{line: 1719, col: 14, offset: 55676},
 								run: (*parser).callonCallout6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1718, col: 14, offset: 55651},
+									pos: position{line: 1719, col: 14, offset: 55676},
 									expr: &charClassMatcher{
-										pos:        position{line: 1718, col: 14, offset: 55651},
+										pos:        position{line: 1719, col: 14, offset: 55676},
 										val:        "[0-9]",
 										ranges:     []rune{'0', '9'},
 										ignoreCase: false,
@@ -38736,18 +38740,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1718, col: 62, offset: 55699},
+							pos:        position{line: 1719, col: 62, offset: 55724},
 							val:        ">",
 							ignoreCase: false,
 							want:       "\">\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1718, col: 66, offset: 55703},
+							pos: position{line: 1719, col: 66, offset: 55728},
 							expr: &actionExpr{
-								pos: position{line: 2880, col: 10, offset: 91317},
+								pos: position{line: 2881, col: 10, offset: 91342},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2880, col: 10, offset: 91317},
+									pos:        position{line: 2881, col: 10, offset: 91342},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -38756,30 +38760,30 @@ var g = &grammar{
 							},
 						},
 						&andExpr{
-							pos: position{line: 1718, col: 73, offset: 55710},
+							pos: position{line: 1719, col: 73, offset: 55735},
 							expr: &choiceExpr{
-								pos: position{line: 1718, col: 75, offset: 55712},
+								pos: position{line: 1719, col: 75, offset: 55737},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2889, col: 12, offset: 91488},
+										pos: position{line: 2890, col: 12, offset: 91513},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2889, col: 13, offset: 91489},
+											pos: position{line: 2890, col: 13, offset: 91514},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2889, col: 13, offset: 91489},
+													pos:        position{line: 2890, col: 13, offset: 91514},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2889, col: 20, offset: 91496},
+													pos:        position{line: 2890, col: 20, offset: 91521},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2889, col: 29, offset: 91505},
+													pos:        position{line: 2890, col: 29, offset: 91530},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -38788,13 +38792,13 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2899, col: 8, offset: 91665},
+										pos: position{line: 2900, col: 8, offset: 91690},
 										expr: &anyMatcher{
-											line: 2899, col: 9, offset: 91666,
+											line: 2900, col: 9, offset: 91691,
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1718, col: 81, offset: 55718},
+										pos:  position{line: 1719, col: 81, offset: 55743},
 										name: "Callout",
 									},
 								},
@@ -38806,44 +38810,44 @@ var g = &grammar{
 		},
 		{
 			name: "ShortcutParagraph",
-			pos:  position{line: 1757, col: 1, offset: 56895},
+			pos:  position{line: 1758, col: 1, offset: 56920},
 			expr: &actionExpr{
-				pos: position{line: 1759, col: 5, offset: 56969},
+				pos: position{line: 1760, col: 5, offset: 56994},
 				run: (*parser).callonShortcutParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1759, col: 5, offset: 56969},
+					pos: position{line: 1760, col: 5, offset: 56994},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 1759, col: 5, offset: 56969},
+							pos: position{line: 1760, col: 5, offset: 56994},
 							expr: &seqExpr{
-								pos: position{line: 1759, col: 7, offset: 56971},
+								pos: position{line: 1760, col: 7, offset: 56996},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2770, col: 13, offset: 88391},
+										pos:        position{line: 2771, col: 13, offset: 88416},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
 										inverted:   false,
 									},
 									&notExpr{
-										pos: position{line: 1759, col: 16, offset: 56980},
+										pos: position{line: 1760, col: 16, offset: 57005},
 										expr: &seqExpr{
-											pos: position{line: 1759, col: 18, offset: 56982},
+											pos: position{line: 1760, col: 18, offset: 57007},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 1759, col: 19, offset: 56983},
+													pos:        position{line: 1760, col: 19, offset: 57008},
 													val:        "[.)]",
 													chars:      []rune{'.', ')'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2884, col: 11, offset: 91378},
+													pos: position{line: 2885, col: 11, offset: 91403},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2884, col: 11, offset: 91378},
+														pos: position{line: 2885, col: 11, offset: 91403},
 														expr: &charClassMatcher{
-															pos:        position{line: 2884, col: 11, offset: 91378},
+															pos:        position{line: 2885, col: 11, offset: 91403},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -38858,88 +38862,88 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1760, col: 5, offset: 57123},
+							pos:   position{line: 1761, col: 5, offset: 57148},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1760, col: 11, offset: 57129},
+								pos: position{line: 1761, col: 11, offset: 57154},
 								expr: &actionExpr{
-									pos: position{line: 1738, col: 5, offset: 56388},
+									pos: position{line: 1739, col: 5, offset: 56413},
 									run: (*parser).callonShortcutParagraph14,
 									expr: &seqExpr{
-										pos: position{line: 1738, col: 5, offset: 56388},
+										pos: position{line: 1739, col: 5, offset: 56413},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1738, col: 5, offset: 56388},
+												pos: position{line: 1739, col: 5, offset: 56413},
 												run: (*parser).callonShortcutParagraph16,
 											},
 											&labeledExpr{
-												pos:   position{line: 1741, col: 5, offset: 56451},
+												pos:   position{line: 1742, col: 5, offset: 56476},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1741, col: 12, offset: 56458},
+													pos: position{line: 1742, col: 12, offset: 56483},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1741, col: 12, offset: 56458},
+															pos: position{line: 1742, col: 12, offset: 56483},
 															run: (*parser).callonShortcutParagraph19,
 															expr: &litMatcher{
-																pos:        position{line: 1741, col: 12, offset: 56458},
+																pos:        position{line: 1742, col: 12, offset: 56483},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1743, col: 13, offset: 56514},
+															pos: position{line: 1744, col: 13, offset: 56539},
 															run: (*parser).callonShortcutParagraph21,
 															expr: &litMatcher{
-																pos:        position{line: 1743, col: 13, offset: 56514},
+																pos:        position{line: 1744, col: 13, offset: 56539},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1745, col: 13, offset: 56572},
+															pos: position{line: 1746, col: 13, offset: 56597},
 															run: (*parser).callonShortcutParagraph23,
 															expr: &litMatcher{
-																pos:        position{line: 1745, col: 13, offset: 56572},
+																pos:        position{line: 1746, col: 13, offset: 56597},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1747, col: 13, offset: 56640},
+															pos: position{line: 1748, col: 13, offset: 56665},
 															run: (*parser).callonShortcutParagraph25,
 															expr: &litMatcher{
-																pos:        position{line: 1747, col: 13, offset: 56640},
+																pos:        position{line: 1748, col: 13, offset: 56665},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1749, col: 13, offset: 56704},
+															pos: position{line: 1750, col: 13, offset: 56729},
 															run: (*parser).callonShortcutParagraph27,
 															expr: &litMatcher{
-																pos:        position{line: 1749, col: 13, offset: 56704},
+																pos:        position{line: 1750, col: 13, offset: 56729},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1751, col: 13, offset: 56768},
+															pos: position{line: 1752, col: 13, offset: 56793},
 															run: (*parser).callonShortcutParagraph29,
 															expr: &andExpr{
-																pos: position{line: 1751, col: 13, offset: 56768},
+																pos: position{line: 1752, col: 13, offset: 56793},
 																expr: &actionExpr{
-																	pos: position{line: 2884, col: 11, offset: 91378},
+																	pos: position{line: 2885, col: 11, offset: 91403},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2884, col: 11, offset: 91378},
+																		pos: position{line: 2885, col: 11, offset: 91403},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2884, col: 11, offset: 91378},
+																			pos:        position{line: 2885, col: 11, offset: 91403},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -38953,17 +38957,17 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1753, col: 12, offset: 56838},
+												pos: position{line: 1754, col: 12, offset: 56863},
 												expr: &seqExpr{
-													pos: position{line: 1753, col: 14, offset: 56840},
+													pos: position{line: 1754, col: 14, offset: 56865},
 													exprs: []interface{}{
 														&zeroOrMoreExpr{
-															pos: position{line: 1753, col: 14, offset: 56840},
+															pos: position{line: 1754, col: 14, offset: 56865},
 															expr: &actionExpr{
-																pos: position{line: 2880, col: 10, offset: 91317},
+																pos: position{line: 2881, col: 10, offset: 91342},
 																run: (*parser).callonShortcutParagraph37,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2880, col: 10, offset: 91317},
+																	pos:        position{line: 2881, col: 10, offset: 91342},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -38972,28 +38976,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2902, col: 8, offset: 91715},
+															pos: position{line: 2903, col: 8, offset: 91740},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2889, col: 12, offset: 91488},
+																	pos: position{line: 2890, col: 12, offset: 91513},
 																	run: (*parser).callonShortcutParagraph40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2889, col: 13, offset: 91489},
+																		pos: position{line: 2890, col: 13, offset: 91514},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2889, col: 13, offset: 91489},
+																				pos:        position{line: 2890, col: 13, offset: 91514},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2889, col: 20, offset: 91496},
+																				pos:        position{line: 2890, col: 20, offset: 91521},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2889, col: 29, offset: 91505},
+																				pos:        position{line: 2890, col: 29, offset: 91530},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -39002,9 +39006,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2899, col: 8, offset: 91665},
+																	pos: position{line: 2900, col: 8, offset: 91690},
 																	expr: &anyMatcher{
-																		line: 2899, col: 9, offset: 91666,
+																		line: 2900, col: 9, offset: 91691,
 																	},
 																},
 															},
@@ -39018,24 +39022,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1761, col: 5, offset: 57151},
+							pos:   position{line: 1762, col: 5, offset: 57176},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1797, col: 5, offset: 58258},
+								pos: position{line: 1798, col: 5, offset: 58283},
 								run: (*parser).callonShortcutParagraph48,
 								expr: &seqExpr{
-									pos: position{line: 1797, col: 5, offset: 58258},
+									pos: position{line: 1798, col: 5, offset: 58283},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1797, col: 5, offset: 58258},
+											pos:   position{line: 1798, col: 5, offset: 58283},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2830, col: 14, offset: 89910},
+												pos: position{line: 2831, col: 14, offset: 89935},
 												run: (*parser).callonShortcutParagraph51,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2830, col: 14, offset: 89910},
+													pos: position{line: 2831, col: 14, offset: 89935},
 													expr: &charClassMatcher{
-														pos:        position{line: 2830, col: 14, offset: 89910},
+														pos:        position{line: 2831, col: 14, offset: 89935},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -39045,32 +39049,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1798, col: 5, offset: 58282},
+											pos: position{line: 1799, col: 5, offset: 58307},
 											run: (*parser).callonShortcutParagraph54,
 										},
 										&choiceExpr{
-											pos: position{line: 2902, col: 8, offset: 91715},
+											pos: position{line: 2903, col: 8, offset: 91740},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2889, col: 12, offset: 91488},
+													pos: position{line: 2890, col: 12, offset: 91513},
 													run: (*parser).callonShortcutParagraph56,
 													expr: &choiceExpr{
-														pos: position{line: 2889, col: 13, offset: 91489},
+														pos: position{line: 2890, col: 13, offset: 91514},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2889, col: 13, offset: 91489},
+																pos:        position{line: 2890, col: 13, offset: 91514},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2889, col: 20, offset: 91496},
+																pos:        position{line: 2890, col: 20, offset: 91521},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2889, col: 29, offset: 91505},
+																pos:        position{line: 2890, col: 29, offset: 91530},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -39079,9 +39083,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2899, col: 8, offset: 91665},
+													pos: position{line: 2900, col: 8, offset: 91690},
 													expr: &anyMatcher{
-														line: 2899, col: 9, offset: 91666,
+														line: 2900, col: 9, offset: 91691,
 													},
 												},
 											},
@@ -39091,28 +39095,28 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1762, col: 5, offset: 57185},
+							pos: position{line: 1763, col: 5, offset: 57210},
 							run: (*parser).callonShortcutParagraph63,
 						},
 						&labeledExpr{
-							pos:   position{line: 1769, col: 5, offset: 57515},
+							pos:   position{line: 1770, col: 5, offset: 57540},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1769, col: 16, offset: 57526},
+								pos: position{line: 1770, col: 16, offset: 57551},
 								expr: &actionExpr{
-									pos: position{line: 1770, col: 9, offset: 57536},
+									pos: position{line: 1771, col: 9, offset: 57561},
 									run: (*parser).callonShortcutParagraph66,
 									expr: &seqExpr{
-										pos: position{line: 1770, col: 9, offset: 57536},
+										pos: position{line: 1771, col: 9, offset: 57561},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2897, col: 11, offset: 91651},
+												pos: position{line: 2898, col: 11, offset: 91676},
 												expr: &anyMatcher{
-													line: 2897, col: 13, offset: 91653,
+													line: 2898, col: 13, offset: 91678,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1771, col: 9, offset: 57552},
+												pos: position{line: 1772, col: 9, offset: 57577},
 												expr: &actionExpr{
 													pos: position{line: 677, col: 14, offset: 21525},
 													run: (*parser).callonShortcutParagraph71,
@@ -39120,18 +39124,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21525},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2897, col: 11, offset: 91651},
+																pos: position{line: 2898, col: 11, offset: 91676},
 																expr: &anyMatcher{
-																	line: 2897, col: 13, offset: 91653,
+																	line: 2898, col: 13, offset: 91678,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21532},
 																expr: &actionExpr{
-																	pos: position{line: 2880, col: 10, offset: 91317},
+																	pos: position{line: 2881, col: 10, offset: 91342},
 																	run: (*parser).callonShortcutParagraph76,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2880, col: 10, offset: 91317},
+																		pos:        position{line: 2881, col: 10, offset: 91342},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -39140,28 +39144,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2902, col: 8, offset: 91715},
+																pos: position{line: 2903, col: 8, offset: 91740},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2889, col: 12, offset: 91488},
+																		pos: position{line: 2890, col: 12, offset: 91513},
 																		run: (*parser).callonShortcutParagraph79,
 																		expr: &choiceExpr{
-																			pos: position{line: 2889, col: 13, offset: 91489},
+																			pos: position{line: 2890, col: 13, offset: 91514},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2889, col: 13, offset: 91489},
+																					pos:        position{line: 2890, col: 13, offset: 91514},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2889, col: 20, offset: 91496},
+																					pos:        position{line: 2890, col: 20, offset: 91521},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2889, col: 29, offset: 91505},
+																					pos:        position{line: 2890, col: 29, offset: 91530},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -39170,9 +39174,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2899, col: 8, offset: 91665},
+																		pos: position{line: 2900, col: 8, offset: 91690},
 																		expr: &anyMatcher{
-																			line: 2899, col: 9, offset: 91666,
+																			line: 2900, col: 9, offset: 91691,
 																		},
 																	},
 																},
@@ -39182,14 +39186,14 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1772, col: 9, offset: 57571},
+												pos: position{line: 1773, col: 9, offset: 57596},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1772, col: 10, offset: 57572},
+													pos:  position{line: 1773, col: 10, offset: 57597},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1773, col: 9, offset: 57596},
+												pos: position{line: 1774, col: 9, offset: 57621},
 												expr: &actionExpr{
 													pos: position{line: 725, col: 5, offset: 23101},
 													run: (*parser).callonShortcutParagraph89,
@@ -39199,7 +39203,7 @@ var g = &grammar{
 															&notExpr{
 																pos: position{line: 725, col: 5, offset: 23101},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2770, col: 13, offset: 88391},
+																	pos:        position{line: 2771, col: 13, offset: 88416},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -39249,10 +39253,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 743, col: 8, offset: 23745},
 																						expr: &actionExpr{
-																							pos: position{line: 2880, col: 10, offset: 91317},
+																							pos: position{line: 2881, col: 10, offset: 91342},
 																							run: (*parser).callonShortcutParagraph104,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2880, col: 10, offset: 91317},
+																								pos:        position{line: 2881, col: 10, offset: 91342},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39261,28 +39265,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2902, col: 8, offset: 91715},
+																						pos: position{line: 2903, col: 8, offset: 91740},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2889, col: 12, offset: 91488},
+																								pos: position{line: 2890, col: 12, offset: 91513},
 																								run: (*parser).callonShortcutParagraph107,
 																								expr: &choiceExpr{
-																									pos: position{line: 2889, col: 13, offset: 91489},
+																									pos: position{line: 2890, col: 13, offset: 91514},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 13, offset: 91489},
+																											pos:        position{line: 2890, col: 13, offset: 91514},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 20, offset: 91496},
+																											pos:        position{line: 2890, col: 20, offset: 91521},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 29, offset: 91505},
+																											pos:        position{line: 2890, col: 29, offset: 91530},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39291,9 +39295,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2899, col: 8, offset: 91665},
+																								pos: position{line: 2900, col: 8, offset: 91690},
 																								expr: &anyMatcher{
-																									line: 2899, col: 9, offset: 91666,
+																									line: 2900, col: 9, offset: 91691,
 																								},
 																							},
 																						},
@@ -39338,10 +39342,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 750, col: 8, offset: 23993},
 																						expr: &actionExpr{
-																							pos: position{line: 2880, col: 10, offset: 91317},
+																							pos: position{line: 2881, col: 10, offset: 91342},
 																							run: (*parser).callonShortcutParagraph123,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2880, col: 10, offset: 91317},
+																								pos:        position{line: 2881, col: 10, offset: 91342},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39350,28 +39354,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2902, col: 8, offset: 91715},
+																						pos: position{line: 2903, col: 8, offset: 91740},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2889, col: 12, offset: 91488},
+																								pos: position{line: 2890, col: 12, offset: 91513},
 																								run: (*parser).callonShortcutParagraph126,
 																								expr: &choiceExpr{
-																									pos: position{line: 2889, col: 13, offset: 91489},
+																									pos: position{line: 2890, col: 13, offset: 91514},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 13, offset: 91489},
+																											pos:        position{line: 2890, col: 13, offset: 91514},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 20, offset: 91496},
+																											pos:        position{line: 2890, col: 20, offset: 91521},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 29, offset: 91505},
+																											pos:        position{line: 2890, col: 29, offset: 91530},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39380,9 +39384,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2899, col: 8, offset: 91665},
+																								pos: position{line: 2900, col: 8, offset: 91690},
 																								expr: &anyMatcher{
-																									line: 2899, col: 9, offset: 91666,
+																									line: 2900, col: 9, offset: 91691,
 																								},
 																							},
 																						},
@@ -39423,10 +39427,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 761, col: 52, offset: 24405},
 																						expr: &actionExpr{
-																							pos: position{line: 2880, col: 10, offset: 91317},
+																							pos: position{line: 2881, col: 10, offset: 91342},
 																							run: (*parser).callonShortcutParagraph141,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2880, col: 10, offset: 91317},
+																								pos:        position{line: 2881, col: 10, offset: 91342},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39435,28 +39439,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2902, col: 8, offset: 91715},
+																						pos: position{line: 2903, col: 8, offset: 91740},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2889, col: 12, offset: 91488},
+																								pos: position{line: 2890, col: 12, offset: 91513},
 																								run: (*parser).callonShortcutParagraph144,
 																								expr: &choiceExpr{
-																									pos: position{line: 2889, col: 13, offset: 91489},
+																									pos: position{line: 2890, col: 13, offset: 91514},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 13, offset: 91489},
+																											pos:        position{line: 2890, col: 13, offset: 91514},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 20, offset: 91496},
+																											pos:        position{line: 2890, col: 20, offset: 91521},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 29, offset: 91505},
+																											pos:        position{line: 2890, col: 29, offset: 91530},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39465,9 +39469,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2899, col: 8, offset: 91665},
+																								pos: position{line: 2900, col: 8, offset: 91690},
 																								expr: &anyMatcher{
-																									line: 2899, col: 9, offset: 91666,
+																									line: 2900, col: 9, offset: 91691,
 																								},
 																							},
 																						},
@@ -39512,10 +39516,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 757, col: 8, offset: 24239},
 																						expr: &actionExpr{
-																							pos: position{line: 2880, col: 10, offset: 91317},
+																							pos: position{line: 2881, col: 10, offset: 91342},
 																							run: (*parser).callonShortcutParagraph160,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2880, col: 10, offset: 91317},
+																								pos:        position{line: 2881, col: 10, offset: 91342},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39524,28 +39528,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2902, col: 8, offset: 91715},
+																						pos: position{line: 2903, col: 8, offset: 91740},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2889, col: 12, offset: 91488},
+																								pos: position{line: 2890, col: 12, offset: 91513},
 																								run: (*parser).callonShortcutParagraph163,
 																								expr: &choiceExpr{
-																									pos: position{line: 2889, col: 13, offset: 91489},
+																									pos: position{line: 2890, col: 13, offset: 91514},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 13, offset: 91489},
+																											pos:        position{line: 2890, col: 13, offset: 91514},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 20, offset: 91496},
+																											pos:        position{line: 2890, col: 20, offset: 91521},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 29, offset: 91505},
+																											pos:        position{line: 2890, col: 29, offset: 91530},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39554,9 +39558,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2899, col: 8, offset: 91665},
+																								pos: position{line: 2900, col: 8, offset: 91690},
 																								expr: &anyMatcher{
-																									line: 2899, col: 9, offset: 91666,
+																									line: 2900, col: 9, offset: 91691,
 																								},
 																							},
 																						},
@@ -39601,10 +39605,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 772, col: 8, offset: 24782},
 																						expr: &actionExpr{
-																							pos: position{line: 2880, col: 10, offset: 91317},
+																							pos: position{line: 2881, col: 10, offset: 91342},
 																							run: (*parser).callonShortcutParagraph179,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2880, col: 10, offset: 91317},
+																								pos:        position{line: 2881, col: 10, offset: 91342},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39613,28 +39617,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2902, col: 8, offset: 91715},
+																						pos: position{line: 2903, col: 8, offset: 91740},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2889, col: 12, offset: 91488},
+																								pos: position{line: 2890, col: 12, offset: 91513},
 																								run: (*parser).callonShortcutParagraph182,
 																								expr: &choiceExpr{
-																									pos: position{line: 2889, col: 13, offset: 91489},
+																									pos: position{line: 2890, col: 13, offset: 91514},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 13, offset: 91489},
+																											pos:        position{line: 2890, col: 13, offset: 91514},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 20, offset: 91496},
+																											pos:        position{line: 2890, col: 20, offset: 91521},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 29, offset: 91505},
+																											pos:        position{line: 2890, col: 29, offset: 91530},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39643,9 +39647,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2899, col: 8, offset: 91665},
+																								pos: position{line: 2900, col: 8, offset: 91690},
 																								expr: &anyMatcher{
-																									line: 2899, col: 9, offset: 91666,
+																									line: 2900, col: 9, offset: 91691,
 																								},
 																							},
 																						},
@@ -39690,10 +39694,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 786, col: 8, offset: 25258},
 																						expr: &actionExpr{
-																							pos: position{line: 2880, col: 10, offset: 91317},
+																							pos: position{line: 2881, col: 10, offset: 91342},
 																							run: (*parser).callonShortcutParagraph198,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2880, col: 10, offset: 91317},
+																								pos:        position{line: 2881, col: 10, offset: 91342},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39702,28 +39706,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2902, col: 8, offset: 91715},
+																						pos: position{line: 2903, col: 8, offset: 91740},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2889, col: 12, offset: 91488},
+																								pos: position{line: 2890, col: 12, offset: 91513},
 																								run: (*parser).callonShortcutParagraph201,
 																								expr: &choiceExpr{
-																									pos: position{line: 2889, col: 13, offset: 91489},
+																									pos: position{line: 2890, col: 13, offset: 91514},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 13, offset: 91489},
+																											pos:        position{line: 2890, col: 13, offset: 91514},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 20, offset: 91496},
+																											pos:        position{line: 2890, col: 20, offset: 91521},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 29, offset: 91505},
+																											pos:        position{line: 2890, col: 29, offset: 91530},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39732,9 +39736,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2899, col: 8, offset: 91665},
+																								pos: position{line: 2900, col: 8, offset: 91690},
 																								expr: &anyMatcher{
-																									line: 2899, col: 9, offset: 91666,
+																									line: 2900, col: 9, offset: 91691,
 																								},
 																							},
 																						},
@@ -39779,10 +39783,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 793, col: 8, offset: 25510},
 																						expr: &actionExpr{
-																							pos: position{line: 2880, col: 10, offset: 91317},
+																							pos: position{line: 2881, col: 10, offset: 91342},
 																							run: (*parser).callonShortcutParagraph217,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2880, col: 10, offset: 91317},
+																								pos:        position{line: 2881, col: 10, offset: 91342},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39791,28 +39795,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2902, col: 8, offset: 91715},
+																						pos: position{line: 2903, col: 8, offset: 91740},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2889, col: 12, offset: 91488},
+																								pos: position{line: 2890, col: 12, offset: 91513},
 																								run: (*parser).callonShortcutParagraph220,
 																								expr: &choiceExpr{
-																									pos: position{line: 2889, col: 13, offset: 91489},
+																									pos: position{line: 2890, col: 13, offset: 91514},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 13, offset: 91489},
+																											pos:        position{line: 2890, col: 13, offset: 91514},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 20, offset: 91496},
+																											pos:        position{line: 2890, col: 20, offset: 91521},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 29, offset: 91505},
+																											pos:        position{line: 2890, col: 29, offset: 91530},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39821,9 +39825,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2899, col: 8, offset: 91665},
+																								pos: position{line: 2900, col: 8, offset: 91690},
 																								expr: &anyMatcher{
-																									line: 2899, col: 9, offset: 91666,
+																									line: 2900, col: 9, offset: 91691,
 																								},
 																							},
 																						},
@@ -39868,10 +39872,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 800, col: 8, offset: 25760},
 																						expr: &actionExpr{
-																							pos: position{line: 2880, col: 10, offset: 91317},
+																							pos: position{line: 2881, col: 10, offset: 91342},
 																							run: (*parser).callonShortcutParagraph236,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2880, col: 10, offset: 91317},
+																								pos:        position{line: 2881, col: 10, offset: 91342},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39880,28 +39884,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2902, col: 8, offset: 91715},
+																						pos: position{line: 2903, col: 8, offset: 91740},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2889, col: 12, offset: 91488},
+																								pos: position{line: 2890, col: 12, offset: 91513},
 																								run: (*parser).callonShortcutParagraph239,
 																								expr: &choiceExpr{
-																									pos: position{line: 2889, col: 13, offset: 91489},
+																									pos: position{line: 2890, col: 13, offset: 91514},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 13, offset: 91489},
+																											pos:        position{line: 2890, col: 13, offset: 91514},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 20, offset: 91496},
+																											pos:        position{line: 2890, col: 20, offset: 91521},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 29, offset: 91505},
+																											pos:        position{line: 2890, col: 29, offset: 91530},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39910,9 +39914,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2899, col: 8, offset: 91665},
+																								pos: position{line: 2900, col: 8, offset: 91690},
 																								expr: &anyMatcher{
-																									line: 2899, col: 9, offset: 91666,
+																									line: 2900, col: 9, offset: 91691,
 																								},
 																							},
 																						},
@@ -39957,10 +39961,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 807, col: 8, offset: 26006},
 																						expr: &actionExpr{
-																							pos: position{line: 2880, col: 10, offset: 91317},
+																							pos: position{line: 2881, col: 10, offset: 91342},
 																							run: (*parser).callonShortcutParagraph255,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2880, col: 10, offset: 91317},
+																								pos:        position{line: 2881, col: 10, offset: 91342},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39969,28 +39973,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2902, col: 8, offset: 91715},
+																						pos: position{line: 2903, col: 8, offset: 91740},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2889, col: 12, offset: 91488},
+																								pos: position{line: 2890, col: 12, offset: 91513},
 																								run: (*parser).callonShortcutParagraph258,
 																								expr: &choiceExpr{
-																									pos: position{line: 2889, col: 13, offset: 91489},
+																									pos: position{line: 2890, col: 13, offset: 91514},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 13, offset: 91489},
+																											pos:        position{line: 2890, col: 13, offset: 91514},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 20, offset: 91496},
+																											pos:        position{line: 2890, col: 20, offset: 91521},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2889, col: 29, offset: 91505},
+																											pos:        position{line: 2890, col: 29, offset: 91530},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39999,9 +40003,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2899, col: 8, offset: 91665},
+																								pos: position{line: 2900, col: 8, offset: 91690},
 																								expr: &anyMatcher{
-																									line: 2899, col: 9, offset: 91666,
+																									line: 2900, col: 9, offset: 91691,
 																								},
 																							},
 																						},
@@ -40017,7 +40021,7 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1774, col: 9, offset: 57620},
+												pos: position{line: 1775, col: 9, offset: 57645},
 												expr: &seqExpr{
 													pos: position{line: 1548, col: 27, offset: 50253},
 													exprs: []interface{}{
@@ -40030,10 +40034,10 @@ var g = &grammar{
 														&zeroOrMoreExpr{
 															pos: position{line: 1548, col: 31, offset: 50257},
 															expr: &actionExpr{
-																pos: position{line: 2880, col: 10, offset: 91317},
+																pos: position{line: 2881, col: 10, offset: 91342},
 																run: (*parser).callonShortcutParagraph269,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2880, col: 10, offset: 91317},
+																	pos:        position{line: 2881, col: 10, offset: 91342},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -40042,25 +40046,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2889, col: 12, offset: 91488},
+															pos: position{line: 2890, col: 12, offset: 91513},
 															run: (*parser).callonShortcutParagraph271,
 															expr: &choiceExpr{
-																pos: position{line: 2889, col: 13, offset: 91489},
+																pos: position{line: 2890, col: 13, offset: 91514},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2889, col: 13, offset: 91489},
+																		pos:        position{line: 2890, col: 13, offset: 91514},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2889, col: 20, offset: 91496},
+																		pos:        position{line: 2890, col: 20, offset: 91521},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2889, col: 29, offset: 91505},
+																		pos:        position{line: 2890, col: 29, offset: 91530},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -40072,42 +40076,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1775, col: 9, offset: 57652},
+												pos:   position{line: 1776, col: 9, offset: 57677},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1775, col: 15, offset: 57658},
+													pos: position{line: 1776, col: 15, offset: 57683},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2487, col: 22, offset: 80203},
+															pos: position{line: 2488, col: 22, offset: 80228},
 															run: (*parser).callonShortcutParagraph278,
 															expr: &seqExpr{
-																pos: position{line: 2487, col: 22, offset: 80203},
+																pos: position{line: 2488, col: 22, offset: 80228},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2492, col: 31, offset: 80424},
+																		pos:        position{line: 2493, col: 31, offset: 80449},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2492, col: 36, offset: 80429},
+																		pos: position{line: 2493, col: 36, offset: 80454},
 																		expr: &litMatcher{
-																			pos:        position{line: 2492, col: 37, offset: 80430},
+																			pos:        position{line: 2493, col: 37, offset: 80455},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2487, col: 49, offset: 80230},
+																		pos:   position{line: 2488, col: 49, offset: 80255},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2826, col: 13, offset: 89843},
+																			pos: position{line: 2827, col: 13, offset: 89868},
 																			run: (*parser).callonShortcutParagraph284,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2826, col: 13, offset: 89843},
+																				pos: position{line: 2827, col: 13, offset: 89868},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2826, col: 13, offset: 89843},
+																					pos:        position{line: 2827, col: 13, offset: 89868},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40117,28 +40121,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2902, col: 8, offset: 91715},
+																		pos: position{line: 2903, col: 8, offset: 91740},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2889, col: 12, offset: 91488},
+																				pos: position{line: 2890, col: 12, offset: 91513},
 																				run: (*parser).callonShortcutParagraph288,
 																				expr: &choiceExpr{
-																					pos: position{line: 2889, col: 13, offset: 91489},
+																					pos: position{line: 2890, col: 13, offset: 91514},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 13, offset: 91489},
+																							pos:        position{line: 2890, col: 13, offset: 91514},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 20, offset: 91496},
+																							pos:        position{line: 2890, col: 20, offset: 91521},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 29, offset: 91505},
+																							pos:        position{line: 2890, col: 29, offset: 91530},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40147,9 +40151,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2899, col: 8, offset: 91665},
+																				pos: position{line: 2900, col: 8, offset: 91690},
 																				expr: &anyMatcher{
-																					line: 2899, col: 9, offset: 91666,
+																					line: 2900, col: 9, offset: 91691,
 																				},
 																			},
 																		},
@@ -40158,21 +40162,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1797, col: 5, offset: 58258},
+															pos: position{line: 1798, col: 5, offset: 58283},
 															run: (*parser).callonShortcutParagraph295,
 															expr: &seqExpr{
-																pos: position{line: 1797, col: 5, offset: 58258},
+																pos: position{line: 1798, col: 5, offset: 58283},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1797, col: 5, offset: 58258},
+																		pos:   position{line: 1798, col: 5, offset: 58283},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2830, col: 14, offset: 89910},
+																			pos: position{line: 2831, col: 14, offset: 89935},
 																			run: (*parser).callonShortcutParagraph298,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2830, col: 14, offset: 89910},
+																				pos: position{line: 2831, col: 14, offset: 89935},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2830, col: 14, offset: 89910},
+																					pos:        position{line: 2831, col: 14, offset: 89935},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40182,32 +40186,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1798, col: 5, offset: 58282},
+																		pos: position{line: 1799, col: 5, offset: 58307},
 																		run: (*parser).callonShortcutParagraph301,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2902, col: 8, offset: 91715},
+																		pos: position{line: 2903, col: 8, offset: 91740},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2889, col: 12, offset: 91488},
+																				pos: position{line: 2890, col: 12, offset: 91513},
 																				run: (*parser).callonShortcutParagraph303,
 																				expr: &choiceExpr{
-																					pos: position{line: 2889, col: 13, offset: 91489},
+																					pos: position{line: 2890, col: 13, offset: 91514},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 13, offset: 91489},
+																							pos:        position{line: 2890, col: 13, offset: 91514},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 20, offset: 91496},
+																							pos:        position{line: 2890, col: 20, offset: 91521},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 29, offset: 91505},
+																							pos:        position{line: 2890, col: 29, offset: 91530},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40216,9 +40220,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2899, col: 8, offset: 91665},
+																				pos: position{line: 2900, col: 8, offset: 91690},
 																				expr: &anyMatcher{
-																					line: 2899, col: 9, offset: 91666,
+																					line: 2900, col: 9, offset: 91691,
 																				},
 																			},
 																		},
@@ -40240,96 +40244,96 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraph",
-			pos:  position{line: 1782, col: 1, offset: 57862},
+			pos:  position{line: 1783, col: 1, offset: 57887},
 			expr: &actionExpr{
-				pos: position{line: 1783, col: 5, offset: 57880},
+				pos: position{line: 1784, col: 5, offset: 57905},
 				run: (*parser).callonParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1783, col: 5, offset: 57880},
+					pos: position{line: 1784, col: 5, offset: 57905},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1783, col: 5, offset: 57880},
+							pos:   position{line: 1784, col: 5, offset: 57905},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1783, col: 11, offset: 57886},
+								pos: position{line: 1784, col: 11, offset: 57911},
 								expr: &actionExpr{
-									pos: position{line: 1738, col: 5, offset: 56388},
+									pos: position{line: 1739, col: 5, offset: 56413},
 									run: (*parser).callonParagraph5,
 									expr: &seqExpr{
-										pos: position{line: 1738, col: 5, offset: 56388},
+										pos: position{line: 1739, col: 5, offset: 56413},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1738, col: 5, offset: 56388},
+												pos: position{line: 1739, col: 5, offset: 56413},
 												run: (*parser).callonParagraph7,
 											},
 											&labeledExpr{
-												pos:   position{line: 1741, col: 5, offset: 56451},
+												pos:   position{line: 1742, col: 5, offset: 56476},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1741, col: 12, offset: 56458},
+													pos: position{line: 1742, col: 12, offset: 56483},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1741, col: 12, offset: 56458},
+															pos: position{line: 1742, col: 12, offset: 56483},
 															run: (*parser).callonParagraph10,
 															expr: &litMatcher{
-																pos:        position{line: 1741, col: 12, offset: 56458},
+																pos:        position{line: 1742, col: 12, offset: 56483},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1743, col: 13, offset: 56514},
+															pos: position{line: 1744, col: 13, offset: 56539},
 															run: (*parser).callonParagraph12,
 															expr: &litMatcher{
-																pos:        position{line: 1743, col: 13, offset: 56514},
+																pos:        position{line: 1744, col: 13, offset: 56539},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1745, col: 13, offset: 56572},
+															pos: position{line: 1746, col: 13, offset: 56597},
 															run: (*parser).callonParagraph14,
 															expr: &litMatcher{
-																pos:        position{line: 1745, col: 13, offset: 56572},
+																pos:        position{line: 1746, col: 13, offset: 56597},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1747, col: 13, offset: 56640},
+															pos: position{line: 1748, col: 13, offset: 56665},
 															run: (*parser).callonParagraph16,
 															expr: &litMatcher{
-																pos:        position{line: 1747, col: 13, offset: 56640},
+																pos:        position{line: 1748, col: 13, offset: 56665},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1749, col: 13, offset: 56704},
+															pos: position{line: 1750, col: 13, offset: 56729},
 															run: (*parser).callonParagraph18,
 															expr: &litMatcher{
-																pos:        position{line: 1749, col: 13, offset: 56704},
+																pos:        position{line: 1750, col: 13, offset: 56729},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1751, col: 13, offset: 56768},
+															pos: position{line: 1752, col: 13, offset: 56793},
 															run: (*parser).callonParagraph20,
 															expr: &andExpr{
-																pos: position{line: 1751, col: 13, offset: 56768},
+																pos: position{line: 1752, col: 13, offset: 56793},
 																expr: &actionExpr{
-																	pos: position{line: 2884, col: 11, offset: 91378},
+																	pos: position{line: 2885, col: 11, offset: 91403},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2884, col: 11, offset: 91378},
+																		pos: position{line: 2885, col: 11, offset: 91403},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2884, col: 11, offset: 91378},
+																			pos:        position{line: 2885, col: 11, offset: 91403},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -40343,17 +40347,17 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1753, col: 12, offset: 56838},
+												pos: position{line: 1754, col: 12, offset: 56863},
 												expr: &seqExpr{
-													pos: position{line: 1753, col: 14, offset: 56840},
+													pos: position{line: 1754, col: 14, offset: 56865},
 													exprs: []interface{}{
 														&zeroOrMoreExpr{
-															pos: position{line: 1753, col: 14, offset: 56840},
+															pos: position{line: 1754, col: 14, offset: 56865},
 															expr: &actionExpr{
-																pos: position{line: 2880, col: 10, offset: 91317},
+																pos: position{line: 2881, col: 10, offset: 91342},
 																run: (*parser).callonParagraph28,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2880, col: 10, offset: 91317},
+																	pos:        position{line: 2881, col: 10, offset: 91342},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -40362,28 +40366,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2902, col: 8, offset: 91715},
+															pos: position{line: 2903, col: 8, offset: 91740},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2889, col: 12, offset: 91488},
+																	pos: position{line: 2890, col: 12, offset: 91513},
 																	run: (*parser).callonParagraph31,
 																	expr: &choiceExpr{
-																		pos: position{line: 2889, col: 13, offset: 91489},
+																		pos: position{line: 2890, col: 13, offset: 91514},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2889, col: 13, offset: 91489},
+																				pos:        position{line: 2890, col: 13, offset: 91514},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2889, col: 20, offset: 91496},
+																				pos:        position{line: 2890, col: 20, offset: 91521},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2889, col: 29, offset: 91505},
+																				pos:        position{line: 2890, col: 29, offset: 91530},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -40392,9 +40396,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2899, col: 8, offset: 91665},
+																	pos: position{line: 2900, col: 8, offset: 91690},
 																	expr: &anyMatcher{
-																		line: 2899, col: 9, offset: 91666,
+																		line: 2900, col: 9, offset: 91691,
 																	},
 																},
 															},
@@ -40408,24 +40412,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1784, col: 5, offset: 57909},
+							pos:   position{line: 1785, col: 5, offset: 57934},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1797, col: 5, offset: 58258},
+								pos: position{line: 1798, col: 5, offset: 58283},
 								run: (*parser).callonParagraph39,
 								expr: &seqExpr{
-									pos: position{line: 1797, col: 5, offset: 58258},
+									pos: position{line: 1798, col: 5, offset: 58283},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1797, col: 5, offset: 58258},
+											pos:   position{line: 1798, col: 5, offset: 58283},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2830, col: 14, offset: 89910},
+												pos: position{line: 2831, col: 14, offset: 89935},
 												run: (*parser).callonParagraph42,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2830, col: 14, offset: 89910},
+													pos: position{line: 2831, col: 14, offset: 89935},
 													expr: &charClassMatcher{
-														pos:        position{line: 2830, col: 14, offset: 89910},
+														pos:        position{line: 2831, col: 14, offset: 89935},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -40435,32 +40439,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1798, col: 5, offset: 58282},
+											pos: position{line: 1799, col: 5, offset: 58307},
 											run: (*parser).callonParagraph45,
 										},
 										&choiceExpr{
-											pos: position{line: 2902, col: 8, offset: 91715},
+											pos: position{line: 2903, col: 8, offset: 91740},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2889, col: 12, offset: 91488},
+													pos: position{line: 2890, col: 12, offset: 91513},
 													run: (*parser).callonParagraph47,
 													expr: &choiceExpr{
-														pos: position{line: 2889, col: 13, offset: 91489},
+														pos: position{line: 2890, col: 13, offset: 91514},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2889, col: 13, offset: 91489},
+																pos:        position{line: 2890, col: 13, offset: 91514},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2889, col: 20, offset: 91496},
+																pos:        position{line: 2890, col: 20, offset: 91521},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2889, col: 29, offset: 91505},
+																pos:        position{line: 2890, col: 29, offset: 91530},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -40469,9 +40473,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2899, col: 8, offset: 91665},
+													pos: position{line: 2900, col: 8, offset: 91690},
 													expr: &anyMatcher{
-														line: 2899, col: 9, offset: 91666,
+														line: 2900, col: 9, offset: 91691,
 													},
 												},
 											},
@@ -40481,24 +40485,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1785, col: 5, offset: 57943},
+							pos:   position{line: 1786, col: 5, offset: 57968},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1785, col: 16, offset: 57954},
+								pos: position{line: 1786, col: 16, offset: 57979},
 								expr: &actionExpr{
-									pos: position{line: 1786, col: 9, offset: 57964},
+									pos: position{line: 1787, col: 9, offset: 57989},
 									run: (*parser).callonParagraph56,
 									expr: &seqExpr{
-										pos: position{line: 1786, col: 9, offset: 57964},
+										pos: position{line: 1787, col: 9, offset: 57989},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2897, col: 11, offset: 91651},
+												pos: position{line: 2898, col: 11, offset: 91676},
 												expr: &anyMatcher{
-													line: 2897, col: 13, offset: 91653,
+													line: 2898, col: 13, offset: 91678,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1787, col: 9, offset: 57979},
+												pos: position{line: 1788, col: 9, offset: 58004},
 												expr: &actionExpr{
 													pos: position{line: 677, col: 14, offset: 21525},
 													run: (*parser).callonParagraph61,
@@ -40506,18 +40510,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21525},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2897, col: 11, offset: 91651},
+																pos: position{line: 2898, col: 11, offset: 91676},
 																expr: &anyMatcher{
-																	line: 2897, col: 13, offset: 91653,
+																	line: 2898, col: 13, offset: 91678,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21532},
 																expr: &actionExpr{
-																	pos: position{line: 2880, col: 10, offset: 91317},
+																	pos: position{line: 2881, col: 10, offset: 91342},
 																	run: (*parser).callonParagraph66,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2880, col: 10, offset: 91317},
+																		pos:        position{line: 2881, col: 10, offset: 91342},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -40526,28 +40530,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2902, col: 8, offset: 91715},
+																pos: position{line: 2903, col: 8, offset: 91740},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2889, col: 12, offset: 91488},
+																		pos: position{line: 2890, col: 12, offset: 91513},
 																		run: (*parser).callonParagraph69,
 																		expr: &choiceExpr{
-																			pos: position{line: 2889, col: 13, offset: 91489},
+																			pos: position{line: 2890, col: 13, offset: 91514},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2889, col: 13, offset: 91489},
+																					pos:        position{line: 2890, col: 13, offset: 91514},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2889, col: 20, offset: 91496},
+																					pos:        position{line: 2890, col: 20, offset: 91521},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2889, col: 29, offset: 91505},
+																					pos:        position{line: 2890, col: 29, offset: 91530},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -40556,9 +40560,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2899, col: 8, offset: 91665},
+																		pos: position{line: 2900, col: 8, offset: 91690},
 																		expr: &anyMatcher{
-																			line: 2899, col: 9, offset: 91666,
+																			line: 2900, col: 9, offset: 91691,
 																		},
 																	},
 																},
@@ -40568,49 +40572,49 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1788, col: 9, offset: 57998},
+												pos: position{line: 1789, col: 9, offset: 58023},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1788, col: 10, offset: 57999},
+													pos:  position{line: 1789, col: 10, offset: 58024},
 													name: "BlockAttributes",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1789, col: 9, offset: 58023},
+												pos:   position{line: 1790, col: 9, offset: 58048},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1789, col: 15, offset: 58029},
+													pos: position{line: 1790, col: 15, offset: 58054},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2487, col: 22, offset: 80203},
+															pos: position{line: 2488, col: 22, offset: 80228},
 															run: (*parser).callonParagraph80,
 															expr: &seqExpr{
-																pos: position{line: 2487, col: 22, offset: 80203},
+																pos: position{line: 2488, col: 22, offset: 80228},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2492, col: 31, offset: 80424},
+																		pos:        position{line: 2493, col: 31, offset: 80449},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2492, col: 36, offset: 80429},
+																		pos: position{line: 2493, col: 36, offset: 80454},
 																		expr: &litMatcher{
-																			pos:        position{line: 2492, col: 37, offset: 80430},
+																			pos:        position{line: 2493, col: 37, offset: 80455},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2487, col: 49, offset: 80230},
+																		pos:   position{line: 2488, col: 49, offset: 80255},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2826, col: 13, offset: 89843},
+																			pos: position{line: 2827, col: 13, offset: 89868},
 																			run: (*parser).callonParagraph86,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2826, col: 13, offset: 89843},
+																				pos: position{line: 2827, col: 13, offset: 89868},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2826, col: 13, offset: 89843},
+																					pos:        position{line: 2827, col: 13, offset: 89868},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40620,28 +40624,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2902, col: 8, offset: 91715},
+																		pos: position{line: 2903, col: 8, offset: 91740},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2889, col: 12, offset: 91488},
+																				pos: position{line: 2890, col: 12, offset: 91513},
 																				run: (*parser).callonParagraph90,
 																				expr: &choiceExpr{
-																					pos: position{line: 2889, col: 13, offset: 91489},
+																					pos: position{line: 2890, col: 13, offset: 91514},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 13, offset: 91489},
+																							pos:        position{line: 2890, col: 13, offset: 91514},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 20, offset: 91496},
+																							pos:        position{line: 2890, col: 20, offset: 91521},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 29, offset: 91505},
+																							pos:        position{line: 2890, col: 29, offset: 91530},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40650,9 +40654,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2899, col: 8, offset: 91665},
+																				pos: position{line: 2900, col: 8, offset: 91690},
 																				expr: &anyMatcher{
-																					line: 2899, col: 9, offset: 91666,
+																					line: 2900, col: 9, offset: 91691,
 																				},
 																			},
 																		},
@@ -40661,21 +40665,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1797, col: 5, offset: 58258},
+															pos: position{line: 1798, col: 5, offset: 58283},
 															run: (*parser).callonParagraph97,
 															expr: &seqExpr{
-																pos: position{line: 1797, col: 5, offset: 58258},
+																pos: position{line: 1798, col: 5, offset: 58283},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1797, col: 5, offset: 58258},
+																		pos:   position{line: 1798, col: 5, offset: 58283},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2830, col: 14, offset: 89910},
+																			pos: position{line: 2831, col: 14, offset: 89935},
 																			run: (*parser).callonParagraph100,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2830, col: 14, offset: 89910},
+																				pos: position{line: 2831, col: 14, offset: 89935},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2830, col: 14, offset: 89910},
+																					pos:        position{line: 2831, col: 14, offset: 89935},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40685,32 +40689,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1798, col: 5, offset: 58282},
+																		pos: position{line: 1799, col: 5, offset: 58307},
 																		run: (*parser).callonParagraph103,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2902, col: 8, offset: 91715},
+																		pos: position{line: 2903, col: 8, offset: 91740},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2889, col: 12, offset: 91488},
+																				pos: position{line: 2890, col: 12, offset: 91513},
 																				run: (*parser).callonParagraph105,
 																				expr: &choiceExpr{
-																					pos: position{line: 2889, col: 13, offset: 91489},
+																					pos: position{line: 2890, col: 13, offset: 91514},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 13, offset: 91489},
+																							pos:        position{line: 2890, col: 13, offset: 91514},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 20, offset: 91496},
+																							pos:        position{line: 2890, col: 20, offset: 91521},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 29, offset: 91505},
+																							pos:        position{line: 2890, col: 29, offset: 91530},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40719,9 +40723,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2899, col: 8, offset: 91665},
+																				pos: position{line: 2900, col: 8, offset: 91690},
 																				expr: &anyMatcher{
-																					line: 2899, col: 9, offset: 91666,
+																					line: 2900, col: 9, offset: 91691,
 																				},
 																			},
 																		},
@@ -40743,16 +40747,16 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedText",
-			pos:  position{line: 1808, col: 1, offset: 58764},
+			pos:  position{line: 1809, col: 1, offset: 58789},
 			expr: &choiceExpr{
-				pos: position{line: 1808, col: 15, offset: 58778},
+				pos: position{line: 1809, col: 15, offset: 58803},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1808, col: 15, offset: 58778},
+						pos:  position{line: 1809, col: 15, offset: 58803},
 						name: "EscapedQuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1808, col: 35, offset: 58798},
+						pos:  position{line: 1809, col: 35, offset: 58823},
 						name: "UnescapedQuotedText",
 					},
 				},
@@ -40760,65 +40764,65 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedQuotedText",
-			pos:  position{line: 1810, col: 1, offset: 58819},
+			pos:  position{line: 1811, col: 1, offset: 58844},
 			expr: &actionExpr{
-				pos: position{line: 1811, col: 5, offset: 58844},
+				pos: position{line: 1812, col: 5, offset: 58869},
 				run: (*parser).callonEscapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1811, col: 5, offset: 58844},
+					pos: position{line: 1812, col: 5, offset: 58869},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1811, col: 5, offset: 58844},
+							pos:   position{line: 1812, col: 5, offset: 58869},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1811, col: 16, offset: 58855},
+								pos: position{line: 1812, col: 16, offset: 58880},
 								expr: &actionExpr{
-									pos: position{line: 1811, col: 17, offset: 58856},
+									pos: position{line: 1812, col: 17, offset: 58881},
 									run: (*parser).callonEscapedQuotedText5,
 									expr: &ruleRefExpr{
-										pos:  position{line: 1811, col: 17, offset: 58856},
+										pos:  position{line: 1812, col: 17, offset: 58881},
 										name: "LongHandAttributes",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 1814, col: 5, offset: 58986},
+							pos: position{line: 1815, col: 5, offset: 59011},
 							expr: &litMatcher{
-								pos:        position{line: 1814, col: 7, offset: 58988},
+								pos:        position{line: 1815, col: 7, offset: 59013},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1815, col: 5, offset: 58997},
+							pos:   position{line: 1816, col: 5, offset: 59022},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1816, col: 9, offset: 59015},
+								pos: position{line: 1817, col: 9, offset: 59040},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1816, col: 9, offset: 59015},
+										pos:  position{line: 1817, col: 9, offset: 59040},
 										name: "EscapedBoldText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1817, col: 11, offset: 59042},
+										pos:  position{line: 1818, col: 11, offset: 59067},
 										name: "EscapedItalicText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1818, col: 11, offset: 59070},
+										pos:  position{line: 1819, col: 11, offset: 59095},
 										name: "EscapedMonospaceText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1819, col: 11, offset: 59101},
+										pos:  position{line: 1820, col: 11, offset: 59126},
 										name: "EscapedMarkedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1820, col: 11, offset: 59129},
+										pos:  position{line: 1821, col: 11, offset: 59154},
 										name: "EscapedSubscriptText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1821, col: 11, offset: 59160},
+										pos:  position{line: 1822, col: 11, offset: 59185},
 										name: "EscapedSuperscriptText",
 									},
 								},
@@ -40830,36 +40834,36 @@ var g = &grammar{
 		},
 		{
 			name: "UnescapedQuotedText",
-			pos:  position{line: 1826, col: 1, offset: 59280},
+			pos:  position{line: 1827, col: 1, offset: 59305},
 			expr: &actionExpr{
-				pos: position{line: 1827, col: 5, offset: 59322},
+				pos: position{line: 1828, col: 5, offset: 59347},
 				run: (*parser).callonUnescapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1827, col: 5, offset: 59322},
+					pos: position{line: 1828, col: 5, offset: 59347},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1827, col: 5, offset: 59322},
+							pos:   position{line: 1828, col: 5, offset: 59347},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1827, col: 16, offset: 59333},
+								pos: position{line: 1828, col: 16, offset: 59358},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1827, col: 17, offset: 59334},
+									pos:  position{line: 1828, col: 17, offset: 59359},
 									name: "LongHandAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1828, col: 5, offset: 59359},
+							pos:   position{line: 1829, col: 5, offset: 59384},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1828, col: 14, offset: 59368},
+								pos: position{line: 1829, col: 14, offset: 59393},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1828, col: 14, offset: 59368},
+										pos:  position{line: 1829, col: 14, offset: 59393},
 										name: "SingleQuotedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1828, col: 33, offset: 59387},
+										pos:  position{line: 1829, col: 33, offset: 59412},
 										name: "DoubleQuotedText",
 									},
 								},
@@ -40871,32 +40875,32 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedText",
-			pos:  position{line: 1836, col: 1, offset: 59618},
+			pos:  position{line: 1837, col: 1, offset: 59643},
 			expr: &choiceExpr{
-				pos: position{line: 1837, col: 5, offset: 59643},
+				pos: position{line: 1838, col: 5, offset: 59668},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1837, col: 5, offset: 59643},
+						pos:  position{line: 1838, col: 5, offset: 59668},
 						name: "SingleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1838, col: 7, offset: 59670},
+						pos:  position{line: 1839, col: 7, offset: 59695},
 						name: "SingleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1839, col: 7, offset: 59698},
+						pos:  position{line: 1840, col: 7, offset: 59723},
 						name: "SingleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1840, col: 7, offset: 59730},
+						pos:  position{line: 1841, col: 7, offset: 59755},
 						name: "SingleQuoteMarkedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1841, col: 7, offset: 59758},
+						pos:  position{line: 1842, col: 7, offset: 59783},
 						name: "SubscriptText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1842, col: 7, offset: 59779},
+						pos:  position{line: 1843, col: 7, offset: 59804},
 						name: "SuperscriptText",
 					},
 				},
@@ -40904,24 +40908,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedText",
-			pos:  position{line: 1844, col: 1, offset: 59797},
+			pos:  position{line: 1845, col: 1, offset: 59822},
 			expr: &choiceExpr{
-				pos: position{line: 1845, col: 5, offset: 59822},
+				pos: position{line: 1846, col: 5, offset: 59847},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1845, col: 5, offset: 59822},
+						pos:  position{line: 1846, col: 5, offset: 59847},
 						name: "DoubleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1846, col: 7, offset: 59848},
+						pos:  position{line: 1847, col: 7, offset: 59873},
 						name: "DoubleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1847, col: 7, offset: 59876},
+						pos:  position{line: 1848, col: 7, offset: 59901},
 						name: "DoubleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1848, col: 7, offset: 59907},
+						pos:  position{line: 1849, col: 7, offset: 59932},
 						name: "DoubleQuoteMarkedText",
 					},
 				},
@@ -40929,26 +40933,26 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedTextElement",
-			pos:  position{line: 1862, col: 1, offset: 60261},
+			pos:  position{line: 1863, col: 1, offset: 60286},
 			expr: &choiceExpr{
-				pos: position{line: 1863, col: 5, offset: 60287},
+				pos: position{line: 1864, col: 5, offset: 60312},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2779, col: 5, offset: 88538},
+						pos: position{line: 2780, col: 5, offset: 88563},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2779, col: 5, offset: 88538},
+							pos: position{line: 2780, col: 5, offset: 88563},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2779, col: 5, offset: 88538},
+									pos:   position{line: 2780, col: 5, offset: 88563},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2779, col: 11, offset: 88544},
+										pos: position{line: 2780, col: 11, offset: 88569},
 										run: (*parser).callonQuotedTextElement5,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2779, col: 11, offset: 88544},
+											pos: position{line: 2780, col: 11, offset: 88569},
 											expr: &charClassMatcher{
-												pos:        position{line: 2779, col: 11, offset: 88544},
+												pos:        position{line: 2780, col: 11, offset: 88569},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40958,44 +40962,44 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2782, col: 5, offset: 88602},
+									pos: position{line: 2783, col: 5, offset: 88627},
 									expr: &seqExpr{
-										pos: position{line: 2783, col: 9, offset: 88613},
+										pos: position{line: 2784, col: 9, offset: 88638},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2783, col: 9, offset: 88613},
+												pos:        position{line: 2784, col: 9, offset: 88638},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2784, col: 9, offset: 88662},
+												pos: position{line: 2785, col: 9, offset: 88687},
 												run: (*parser).callonQuotedTextElement11,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2788, col: 5, offset: 88742},
+									pos: position{line: 2789, col: 5, offset: 88767},
 									expr: &seqExpr{
-										pos: position{line: 2789, col: 9, offset: 88753},
+										pos: position{line: 2790, col: 9, offset: 88778},
 										exprs: []interface{}{
 											&zeroOrMoreExpr{
-												pos: position{line: 2789, col: 9, offset: 88753},
+												pos: position{line: 2790, col: 9, offset: 88778},
 												expr: &seqExpr{
-													pos: position{line: 2789, col: 10, offset: 88754},
+													pos: position{line: 2790, col: 10, offset: 88779},
 													exprs: []interface{}{
 														&charClassMatcher{
-															pos:        position{line: 2789, col: 10, offset: 88754},
+															pos:        position{line: 2790, col: 10, offset: 88779},
 															val:        "[._%+-]",
 															chars:      []rune{'.', '_', '%', '+', '-'},
 															ignoreCase: false,
 															inverted:   false,
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2789, col: 18, offset: 88762},
+															pos: position{line: 2790, col: 18, offset: 88787},
 															expr: &charClassMatcher{
-																pos:        position{line: 2789, col: 18, offset: 88762},
+																pos:        position{line: 2790, col: 18, offset: 88787},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -41006,13 +41010,13 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 2789, col: 30, offset: 88774},
+												pos:        position{line: 2790, col: 30, offset: 88799},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2789, col: 34, offset: 88778},
+												pos:        position{line: 2790, col: 34, offset: 88803},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41025,12 +41029,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2884, col: 11, offset: 91378},
+						pos: position{line: 2885, col: 11, offset: 91403},
 						run: (*parser).callonQuotedTextElement21,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2884, col: 11, offset: 91378},
+							pos: position{line: 2885, col: 11, offset: 91403},
 							expr: &charClassMatcher{
-								pos:        position{line: 2884, col: 11, offset: 91378},
+								pos:        position{line: 2885, col: 11, offset: 91403},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -41039,29 +41043,29 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1865, col: 7, offset: 60350},
+						pos:  position{line: 1866, col: 7, offset: 60375},
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2505, col: 5, offset: 80920},
+						pos: position{line: 2506, col: 5, offset: 80945},
 						run: (*parser).callonQuotedTextElement25,
 						expr: &seqExpr{
-							pos: position{line: 2505, col: 5, offset: 80920},
+							pos: position{line: 2506, col: 5, offset: 80945},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2505, col: 5, offset: 80920},
+									pos: position{line: 2506, col: 5, offset: 80945},
 									run: (*parser).callonQuotedTextElement27,
 								},
 								&litMatcher{
-									pos:        position{line: 2508, col: 5, offset: 80991},
+									pos:        position{line: 2509, col: 5, offset: 81016},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2508, col: 10, offset: 80996},
+									pos: position{line: 2509, col: 10, offset: 81021},
 									expr: &charClassMatcher{
-										pos:        position{line: 2508, col: 11, offset: 80997},
+										pos:        position{line: 2509, col: 11, offset: 81022},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -41072,29 +41076,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2514, col: 5, offset: 81189},
+						pos: position{line: 2515, col: 5, offset: 81214},
 						run: (*parser).callonQuotedTextElement31,
 						expr: &seqExpr{
-							pos: position{line: 2514, col: 5, offset: 81189},
+							pos: position{line: 2515, col: 5, offset: 81214},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2514, col: 5, offset: 81189},
+									pos: position{line: 2515, col: 5, offset: 81214},
 									run: (*parser).callonQuotedTextElement33,
 								},
 								&andCodeExpr{
-									pos: position{line: 2517, col: 5, offset: 81260},
+									pos: position{line: 2518, col: 5, offset: 81285},
 									run: (*parser).callonQuotedTextElement34,
 								},
 								&litMatcher{
-									pos:        position{line: 2521, col: 5, offset: 81385},
+									pos:        position{line: 2522, col: 5, offset: 81410},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2521, col: 9, offset: 81389},
+									pos: position{line: 2522, col: 9, offset: 81414},
 									expr: &charClassMatcher{
-										pos:        position{line: 2521, col: 10, offset: 81390},
+										pos:        position{line: 2522, col: 10, offset: 81415},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -41105,27 +41109,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2797, col: 5, offset: 88971},
+						pos: position{line: 2798, col: 5, offset: 88996},
 						run: (*parser).callonQuotedTextElement38,
 						expr: &choiceExpr{
-							pos: position{line: 2798, col: 9, offset: 88981},
+							pos: position{line: 2799, col: 9, offset: 89006},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2798, col: 10, offset: 88982},
+									pos:        position{line: 2799, col: 10, offset: 89007},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2800, col: 13, offset: 89079},
+									pos: position{line: 2801, col: 13, offset: 89104},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2800, col: 13, offset: 89079},
+											pos: position{line: 2801, col: 13, offset: 89104},
 											run: (*parser).callonQuotedTextElement42,
 										},
 										&litMatcher{
-											pos:        position{line: 2803, col: 13, offset: 89179},
+											pos:        position{line: 2804, col: 13, offset: 89204},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -41133,20 +41137,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2803, col: 19, offset: 89185},
+									pos:        position{line: 2804, col: 19, offset: 89210},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2806, col: 13, offset: 89223},
+									pos: position{line: 2807, col: 13, offset: 89248},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2806, col: 13, offset: 89223},
+											pos: position{line: 2807, col: 13, offset: 89248},
 											run: (*parser).callonQuotedTextElement46,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2809, col: 14, offset: 89316},
+											pos:        position{line: 2810, col: 14, offset: 89341},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -41155,18 +41159,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2811, col: 12, offset: 89360},
+									pos: position{line: 2812, col: 12, offset: 89385},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2811, col: 12, offset: 89360},
+											pos:        position{line: 2812, col: 12, offset: 89385},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2811, col: 16, offset: 89364},
+											pos: position{line: 2812, col: 16, offset: 89389},
 											expr: &litMatcher{
-												pos:        position{line: 2811, col: 17, offset: 89365},
+												pos:        position{line: 2812, col: 17, offset: 89390},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -41524,31 +41528,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2893, col: 18, offset: 91588},
+						pos: position{line: 2894, col: 18, offset: 91613},
 						run: (*parser).callonQuotedTextElement121,
 						expr: &seqExpr{
-							pos: position{line: 2893, col: 18, offset: 91588},
+							pos: position{line: 2894, col: 18, offset: 91613},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2889, col: 12, offset: 91488},
+									pos: position{line: 2890, col: 12, offset: 91513},
 									run: (*parser).callonQuotedTextElement123,
 									expr: &choiceExpr{
-										pos: position{line: 2889, col: 13, offset: 91489},
+										pos: position{line: 2890, col: 13, offset: 91514},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2889, col: 13, offset: 91489},
+												pos:        position{line: 2890, col: 13, offset: 91514},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2889, col: 20, offset: 91496},
+												pos:        position{line: 2890, col: 20, offset: 91521},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2889, col: 29, offset: 91505},
+												pos:        position{line: 2890, col: 29, offset: 91530},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -41557,27 +41561,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2893, col: 26, offset: 91596},
+									pos: position{line: 2894, col: 26, offset: 91621},
 									expr: &actionExpr{
-										pos: position{line: 2889, col: 12, offset: 91488},
+										pos: position{line: 2890, col: 12, offset: 91513},
 										run: (*parser).callonQuotedTextElement129,
 										expr: &choiceExpr{
-											pos: position{line: 2889, col: 13, offset: 91489},
+											pos: position{line: 2890, col: 13, offset: 91514},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2889, col: 13, offset: 91489},
+													pos:        position{line: 2890, col: 13, offset: 91514},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2889, col: 20, offset: 91496},
+													pos:        position{line: 2890, col: 20, offset: 91521},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2889, col: 29, offset: 91505},
+													pos:        position{line: 2890, col: 29, offset: 91530},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -41590,31 +41594,31 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1870, col: 7, offset: 60517},
+						pos:  position{line: 1871, col: 7, offset: 60542},
 						name: "QuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1871, col: 7, offset: 60564},
+						pos:  position{line: 1872, col: 7, offset: 60589},
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2474, col: 5, offset: 79749},
+						pos: position{line: 2475, col: 5, offset: 79774},
 						run: (*parser).callonQuotedTextElement136,
 						expr: &seqExpr{
-							pos: position{line: 2474, col: 5, offset: 79749},
+							pos: position{line: 2475, col: 5, offset: 79774},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2474, col: 5, offset: 79749},
+									pos: position{line: 2475, col: 5, offset: 79774},
 									run: (*parser).callonQuotedTextElement138,
 								},
 								&labeledExpr{
-									pos:   position{line: 2477, col: 5, offset: 79825},
+									pos:   position{line: 2478, col: 5, offset: 79850},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2478, col: 9, offset: 79843},
+										pos: position{line: 2479, col: 9, offset: 79868},
 										run: (*parser).callonQuotedTextElement140,
 										expr: &charClassMatcher{
-											pos:        position{line: 2478, col: 10, offset: 79844},
+											pos:        position{line: 2479, col: 10, offset: 79869},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -41669,10 +41673,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2819, col: 12, offset: 89625},
+						pos: position{line: 2820, col: 12, offset: 89650},
 						run: (*parser).callonQuotedTextElement151,
 						expr: &charClassMatcher{
-							pos:        position{line: 2819, col: 12, offset: 89625},
+							pos:        position{line: 2820, col: 12, offset: 89650},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -41684,29 +41688,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldText",
-			pos:  position{line: 1889, col: 1, offset: 61034},
+			pos:  position{line: 1890, col: 1, offset: 61059},
 			expr: &actionExpr{
-				pos: position{line: 1890, col: 5, offset: 61062},
+				pos: position{line: 1891, col: 5, offset: 61087},
 				run: (*parser).callonDoubleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1890, col: 5, offset: 61062},
+					pos: position{line: 1891, col: 5, offset: 61087},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1885, col: 38, offset: 60987},
+							pos:        position{line: 1886, col: 38, offset: 61012},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1891, col: 5, offset: 61101},
+							pos:   position{line: 1892, col: 5, offset: 61126},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1891, col: 15, offset: 61111},
+								pos:  position{line: 1892, col: 15, offset: 61136},
 								name: "DoubleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1887, col: 36, offset: 61028},
+							pos:        position{line: 1888, col: 36, offset: 61053},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
@@ -41717,44 +41721,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElements",
-			pos:  position{line: 1896, col: 1, offset: 61271},
+			pos:  position{line: 1897, col: 1, offset: 61296},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1896, col: 32, offset: 61302},
+				pos: position{line: 1897, col: 32, offset: 61327},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1896, col: 32, offset: 61302},
+					pos:  position{line: 1897, col: 32, offset: 61327},
 					name: "DoubleQuoteBoldTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteBoldTextElement",
-			pos:  position{line: 1898, col: 1, offset: 61333},
+			pos:  position{line: 1899, col: 1, offset: 61358},
 			expr: &actionExpr{
-				pos: position{line: 1899, col: 5, offset: 61368},
+				pos: position{line: 1900, col: 5, offset: 61393},
 				run: (*parser).callonDoubleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1899, col: 5, offset: 61368},
+					pos: position{line: 1900, col: 5, offset: 61393},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2897, col: 11, offset: 91651},
+							pos: position{line: 2898, col: 11, offset: 91676},
 							expr: &anyMatcher{
-								line: 2897, col: 13, offset: 91653,
+								line: 2898, col: 13, offset: 91678,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1900, col: 5, offset: 61379},
+							pos: position{line: 1901, col: 5, offset: 61404},
 							expr: &litMatcher{
-								pos:        position{line: 1887, col: 36, offset: 61028},
+								pos:        position{line: 1888, col: 36, offset: 61053},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1901, col: 5, offset: 61416},
+							pos:   position{line: 1902, col: 5, offset: 61441},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1901, col: 14, offset: 61425},
+								pos:  position{line: 1902, col: 14, offset: 61450},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41764,29 +41768,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldText",
-			pos:  position{line: 1926, col: 1, offset: 62105},
+			pos:  position{line: 1927, col: 1, offset: 62130},
 			expr: &actionExpr{
-				pos: position{line: 1927, col: 5, offset: 62133},
+				pos: position{line: 1928, col: 5, offset: 62158},
 				run: (*parser).callonSingleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1927, col: 5, offset: 62133},
+					pos: position{line: 1928, col: 5, offset: 62158},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1910, col: 5, offset: 61659},
+							pos:        position{line: 1911, col: 5, offset: 61684},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1911, col: 5, offset: 61668},
+							pos: position{line: 1912, col: 5, offset: 61693},
 							run: (*parser).callonSingleQuoteBoldText4,
 						},
 						&andExpr{
-							pos: position{line: 1915, col: 5, offset: 61786},
+							pos: position{line: 1916, col: 5, offset: 61811},
 							expr: &notExpr{
-								pos: position{line: 1915, col: 7, offset: 61788},
+								pos: position{line: 1916, col: 7, offset: 61813},
 								expr: &litMatcher{
-									pos:        position{line: 1915, col: 8, offset: 61789},
+									pos:        position{line: 1916, col: 8, offset: 61814},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41794,38 +41798,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1928, col: 5, offset: 62171},
+							pos:   position{line: 1929, col: 5, offset: 62196},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1928, col: 15, offset: 62181},
+								pos:  position{line: 1929, col: 15, offset: 62206},
 								name: "SingleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1918, col: 5, offset: 61909},
+							pos:        position{line: 1919, col: 5, offset: 61934},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&notExpr{
-							pos: position{line: 1919, col: 5, offset: 61918},
+							pos: position{line: 1920, col: 5, offset: 61943},
 							expr: &litMatcher{
-								pos:        position{line: 1919, col: 6, offset: 61919},
+								pos:        position{line: 1920, col: 6, offset: 61944},
 								val:        "*",
 								ignoreCase: false,
 								want:       "\"*\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1920, col: 5, offset: 61982},
+							pos: position{line: 1921, col: 5, offset: 62007},
 							run: (*parser).callonSingleQuoteBoldText13,
 						},
 						&andExpr{
-							pos: position{line: 1924, col: 5, offset: 62091},
+							pos: position{line: 1925, col: 5, offset: 62116},
 							expr: &notExpr{
-								pos: position{line: 1924, col: 7, offset: 62093},
+								pos: position{line: 1925, col: 7, offset: 62118},
 								expr: &charClassMatcher{
-									pos:        position{line: 2770, col: 13, offset: 88391},
+									pos:        position{line: 2771, col: 13, offset: 88416},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -41839,20 +41843,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElements",
-			pos:  position{line: 1933, col: 1, offset: 62341},
+			pos:  position{line: 1934, col: 1, offset: 62366},
 			expr: &actionExpr{
-				pos: position{line: 1934, col: 5, offset: 62378},
+				pos: position{line: 1935, col: 5, offset: 62403},
 				run: (*parser).callonSingleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1934, col: 5, offset: 62378},
+					pos: position{line: 1935, col: 5, offset: 62403},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1934, col: 5, offset: 62378},
+							pos: position{line: 1935, col: 5, offset: 62403},
 							expr: &actionExpr{
-								pos: position{line: 2880, col: 10, offset: 91317},
+								pos: position{line: 2881, col: 10, offset: 91342},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2880, col: 10, offset: 91317},
+									pos:        position{line: 2881, col: 10, offset: 91342},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41861,18 +41865,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1935, col: 5, offset: 62417},
+							pos:   position{line: 1936, col: 5, offset: 62442},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1935, col: 14, offset: 62426},
+								pos: position{line: 1936, col: 14, offset: 62451},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1935, col: 15, offset: 62427},
+									pos:  position{line: 1936, col: 15, offset: 62452},
 									name: "SingleQuoteBoldTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1936, col: 5, offset: 62461},
+							pos: position{line: 1937, col: 5, offset: 62486},
 							run: (*parser).callonSingleQuoteBoldTextElements9,
 						},
 					},
@@ -41881,49 +41885,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElement",
-			pos:  position{line: 1942, col: 1, offset: 62602},
+			pos:  position{line: 1943, col: 1, offset: 62627},
 			expr: &actionExpr{
-				pos: position{line: 1943, col: 5, offset: 62637},
+				pos: position{line: 1944, col: 5, offset: 62662},
 				run: (*parser).callonSingleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1943, col: 5, offset: 62637},
+					pos: position{line: 1944, col: 5, offset: 62662},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2897, col: 11, offset: 91651},
+							pos: position{line: 2898, col: 11, offset: 91676},
 							expr: &anyMatcher{
-								line: 2897, col: 13, offset: 91653,
+								line: 2898, col: 13, offset: 91678,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1944, col: 5, offset: 62665},
+							pos: position{line: 1945, col: 5, offset: 62690},
 							expr: &seqExpr{
-								pos: position{line: 1918, col: 5, offset: 61909},
+								pos: position{line: 1919, col: 5, offset: 61934},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1918, col: 5, offset: 61909},
+										pos:        position{line: 1919, col: 5, offset: 61934},
 										val:        "*",
 										ignoreCase: false,
 										want:       "\"*\"",
 									},
 									&notExpr{
-										pos: position{line: 1919, col: 5, offset: 61918},
+										pos: position{line: 1920, col: 5, offset: 61943},
 										expr: &litMatcher{
-											pos:        position{line: 1919, col: 6, offset: 61919},
+											pos:        position{line: 1920, col: 6, offset: 61944},
 											val:        "*",
 											ignoreCase: false,
 											want:       "\"*\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1920, col: 5, offset: 61982},
+										pos: position{line: 1921, col: 5, offset: 62007},
 										run: (*parser).callonSingleQuoteBoldTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 1924, col: 5, offset: 62091},
+										pos: position{line: 1925, col: 5, offset: 62116},
 										expr: &notExpr{
-											pos: position{line: 1924, col: 7, offset: 62093},
+											pos: position{line: 1925, col: 7, offset: 62118},
 											expr: &charClassMatcher{
-												pos:        position{line: 2770, col: 13, offset: 88391},
+												pos:        position{line: 2771, col: 13, offset: 88416},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41935,10 +41939,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1945, col: 5, offset: 62702},
+							pos:   position{line: 1946, col: 5, offset: 62727},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1945, col: 14, offset: 62711},
+								pos:  position{line: 1946, col: 14, offset: 62736},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41948,35 +41952,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedBoldText",
-			pos:  position{line: 1950, col: 1, offset: 62799},
+			pos:  position{line: 1951, col: 1, offset: 62824},
 			expr: &choiceExpr{
-				pos: position{line: 1952, col: 5, offset: 62860},
+				pos: position{line: 1953, col: 5, offset: 62885},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1952, col: 5, offset: 62860},
+						pos: position{line: 1953, col: 5, offset: 62885},
 						run: (*parser).callonEscapedBoldText2,
 						expr: &seqExpr{
-							pos: position{line: 1952, col: 5, offset: 62860},
+							pos: position{line: 1953, col: 5, offset: 62885},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1952, col: 5, offset: 62860},
+									pos:   position{line: 1953, col: 5, offset: 62885},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1858, col: 25, offset: 60207},
+										pos: position{line: 1859, col: 25, offset: 60232},
 										run: (*parser).callonEscapedBoldText5,
 										expr: &seqExpr{
-											pos: position{line: 1858, col: 25, offset: 60207},
+											pos: position{line: 1859, col: 25, offset: 60232},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1858, col: 25, offset: 60207},
+													pos:        position{line: 1859, col: 25, offset: 60232},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1858, col: 30, offset: 60212},
+													pos: position{line: 1859, col: 30, offset: 60237},
 													expr: &litMatcher{
-														pos:        position{line: 1858, col: 30, offset: 60212},
+														pos:        position{line: 1859, col: 30, offset: 60237},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -41987,21 +41991,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1952, col: 40, offset: 62895},
+									pos:        position{line: 1953, col: 40, offset: 62920},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1952, col: 45, offset: 62900},
+									pos:   position{line: 1953, col: 45, offset: 62925},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1952, col: 55, offset: 62910},
+										pos:  position{line: 1953, col: 55, offset: 62935},
 										name: "DoubleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1952, col: 84, offset: 62939},
+									pos:        position{line: 1953, col: 84, offset: 62964},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
@@ -42010,21 +42014,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1956, col: 7, offset: 63103},
+						pos: position{line: 1957, col: 7, offset: 63128},
 						run: (*parser).callonEscapedBoldText14,
 						expr: &seqExpr{
-							pos: position{line: 1956, col: 7, offset: 63103},
+							pos: position{line: 1957, col: 7, offset: 63128},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1956, col: 7, offset: 63103},
+									pos:   position{line: 1957, col: 7, offset: 63128},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1854, col: 25, offset: 60134},
+										pos: position{line: 1855, col: 25, offset: 60159},
 										run: (*parser).callonEscapedBoldText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1854, col: 25, offset: 60134},
+											pos: position{line: 1855, col: 25, offset: 60159},
 											expr: &litMatcher{
-												pos:        position{line: 1854, col: 25, offset: 60134},
+												pos:        position{line: 1855, col: 25, offset: 60159},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42033,21 +42037,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1956, col: 42, offset: 63138},
+									pos:        position{line: 1957, col: 42, offset: 63163},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1956, col: 47, offset: 63143},
+									pos:   position{line: 1957, col: 47, offset: 63168},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1956, col: 57, offset: 63153},
+										pos:  position{line: 1957, col: 57, offset: 63178},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1956, col: 86, offset: 63182},
+									pos:        position{line: 1957, col: 86, offset: 63207},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -42056,21 +42060,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1961, col: 7, offset: 63384},
+						pos: position{line: 1962, col: 7, offset: 63409},
 						run: (*parser).callonEscapedBoldText24,
 						expr: &seqExpr{
-							pos: position{line: 1961, col: 7, offset: 63384},
+							pos: position{line: 1962, col: 7, offset: 63409},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1961, col: 7, offset: 63384},
+									pos:   position{line: 1962, col: 7, offset: 63409},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1854, col: 25, offset: 60134},
+										pos: position{line: 1855, col: 25, offset: 60159},
 										run: (*parser).callonEscapedBoldText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1854, col: 25, offset: 60134},
+											pos: position{line: 1855, col: 25, offset: 60159},
 											expr: &litMatcher{
-												pos:        position{line: 1854, col: 25, offset: 60134},
+												pos:        position{line: 1855, col: 25, offset: 60159},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42079,21 +42083,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1961, col: 42, offset: 63419},
+									pos:        position{line: 1962, col: 42, offset: 63444},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1961, col: 46, offset: 63423},
+									pos:   position{line: 1962, col: 46, offset: 63448},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1961, col: 56, offset: 63433},
+										pos:  position{line: 1962, col: 56, offset: 63458},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1961, col: 85, offset: 63462},
+									pos:        position{line: 1962, col: 85, offset: 63487},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -42106,29 +42110,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicText",
-			pos:  position{line: 1978, col: 1, offset: 63942},
+			pos:  position{line: 1979, col: 1, offset: 63967},
 			expr: &actionExpr{
-				pos: position{line: 1979, col: 5, offset: 63972},
+				pos: position{line: 1980, col: 5, offset: 63997},
 				run: (*parser).callonDoubleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 1979, col: 5, offset: 63972},
+					pos: position{line: 1980, col: 5, offset: 63997},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1974, col: 40, offset: 63893},
+							pos:        position{line: 1975, col: 40, offset: 63918},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1980, col: 5, offset: 64013},
+							pos:   position{line: 1981, col: 5, offset: 64038},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1980, col: 15, offset: 64023},
+								pos:  position{line: 1981, col: 15, offset: 64048},
 								name: "DoubleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1976, col: 38, offset: 63936},
+							pos:        position{line: 1977, col: 38, offset: 63961},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
@@ -42139,44 +42143,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElements",
-			pos:  position{line: 1985, col: 1, offset: 64188},
+			pos:  position{line: 1986, col: 1, offset: 64213},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1985, col: 34, offset: 64221},
+				pos: position{line: 1986, col: 34, offset: 64246},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1985, col: 34, offset: 64221},
+					pos:  position{line: 1986, col: 34, offset: 64246},
 					name: "DoubleQuoteItalicTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteItalicTextElement",
-			pos:  position{line: 1987, col: 1, offset: 64253},
+			pos:  position{line: 1988, col: 1, offset: 64278},
 			expr: &actionExpr{
-				pos: position{line: 1988, col: 5, offset: 64290},
+				pos: position{line: 1989, col: 5, offset: 64315},
 				run: (*parser).callonDoubleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1988, col: 5, offset: 64290},
+					pos: position{line: 1989, col: 5, offset: 64315},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2897, col: 11, offset: 91651},
+							pos: position{line: 2898, col: 11, offset: 91676},
 							expr: &anyMatcher{
-								line: 2897, col: 13, offset: 91653,
+								line: 2898, col: 13, offset: 91678,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1989, col: 5, offset: 64301},
+							pos: position{line: 1990, col: 5, offset: 64326},
 							expr: &litMatcher{
-								pos:        position{line: 1976, col: 38, offset: 63936},
+								pos:        position{line: 1977, col: 38, offset: 63961},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1990, col: 5, offset: 64340},
+							pos:   position{line: 1991, col: 5, offset: 64365},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1990, col: 14, offset: 64349},
+								pos:  position{line: 1991, col: 14, offset: 64374},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42186,29 +42190,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicText",
-			pos:  position{line: 2016, col: 1, offset: 65033},
+			pos:  position{line: 2017, col: 1, offset: 65058},
 			expr: &actionExpr{
-				pos: position{line: 2017, col: 5, offset: 65063},
+				pos: position{line: 2018, col: 5, offset: 65088},
 				run: (*parser).callonSingleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2017, col: 5, offset: 65063},
+					pos: position{line: 2018, col: 5, offset: 65088},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1999, col: 5, offset: 64591},
+							pos:        position{line: 2000, col: 5, offset: 64616},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2000, col: 5, offset: 64600},
+							pos: position{line: 2001, col: 5, offset: 64625},
 							run: (*parser).callonSingleQuoteItalicText4,
 						},
 						&andExpr{
-							pos: position{line: 2004, col: 5, offset: 64720},
+							pos: position{line: 2005, col: 5, offset: 64745},
 							expr: &notExpr{
-								pos: position{line: 2004, col: 7, offset: 64722},
+								pos: position{line: 2005, col: 7, offset: 64747},
 								expr: &litMatcher{
-									pos:        position{line: 2004, col: 8, offset: 64723},
+									pos:        position{line: 2005, col: 8, offset: 64748},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -42216,38 +42220,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2018, col: 5, offset: 65103},
+							pos:   position{line: 2019, col: 5, offset: 65128},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2018, col: 15, offset: 65113},
+								pos:  position{line: 2019, col: 15, offset: 65138},
 								name: "SingleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2008, col: 5, offset: 64833},
+							pos:        position{line: 2009, col: 5, offset: 64858},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&notExpr{
-							pos: position{line: 2009, col: 5, offset: 64842},
+							pos: position{line: 2010, col: 5, offset: 64867},
 							expr: &litMatcher{
-								pos:        position{line: 2009, col: 6, offset: 64843},
+								pos:        position{line: 2010, col: 6, offset: 64868},
 								val:        "_",
 								ignoreCase: false,
 								want:       "\"_\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2010, col: 5, offset: 64908},
+							pos: position{line: 2011, col: 5, offset: 64933},
 							run: (*parser).callonSingleQuoteItalicText13,
 						},
 						&andExpr{
-							pos: position{line: 2014, col: 5, offset: 65019},
+							pos: position{line: 2015, col: 5, offset: 65044},
 							expr: &notExpr{
-								pos: position{line: 2014, col: 7, offset: 65021},
+								pos: position{line: 2015, col: 7, offset: 65046},
 								expr: &charClassMatcher{
-									pos:        position{line: 2770, col: 13, offset: 88391},
+									pos:        position{line: 2771, col: 13, offset: 88416},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -42261,20 +42265,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElements",
-			pos:  position{line: 2023, col: 1, offset: 65280},
+			pos:  position{line: 2024, col: 1, offset: 65305},
 			expr: &actionExpr{
-				pos: position{line: 2024, col: 5, offset: 65318},
+				pos: position{line: 2025, col: 5, offset: 65343},
 				run: (*parser).callonSingleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2024, col: 5, offset: 65318},
+					pos: position{line: 2025, col: 5, offset: 65343},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2024, col: 5, offset: 65318},
+							pos: position{line: 2025, col: 5, offset: 65343},
 							expr: &actionExpr{
-								pos: position{line: 2880, col: 10, offset: 91317},
+								pos: position{line: 2881, col: 10, offset: 91342},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2880, col: 10, offset: 91317},
+									pos:        position{line: 2881, col: 10, offset: 91342},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42283,18 +42287,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2025, col: 5, offset: 65357},
+							pos:   position{line: 2026, col: 5, offset: 65382},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2025, col: 14, offset: 65366},
+								pos: position{line: 2026, col: 14, offset: 65391},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2025, col: 15, offset: 65367},
+									pos:  position{line: 2026, col: 15, offset: 65392},
 									name: "SingleQuoteItalicTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2026, col: 5, offset: 65402},
+							pos: position{line: 2027, col: 5, offset: 65427},
 							run: (*parser).callonSingleQuoteItalicTextElements9,
 						},
 					},
@@ -42303,49 +42307,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElement",
-			pos:  position{line: 2032, col: 1, offset: 65543},
+			pos:  position{line: 2033, col: 1, offset: 65568},
 			expr: &actionExpr{
-				pos: position{line: 2033, col: 5, offset: 65580},
+				pos: position{line: 2034, col: 5, offset: 65605},
 				run: (*parser).callonSingleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2033, col: 5, offset: 65580},
+					pos: position{line: 2034, col: 5, offset: 65605},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2897, col: 11, offset: 91651},
+							pos: position{line: 2898, col: 11, offset: 91676},
 							expr: &anyMatcher{
-								line: 2897, col: 13, offset: 91653,
+								line: 2898, col: 13, offset: 91678,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2034, col: 5, offset: 65591},
+							pos: position{line: 2035, col: 5, offset: 65616},
 							expr: &seqExpr{
-								pos: position{line: 2008, col: 5, offset: 64833},
+								pos: position{line: 2009, col: 5, offset: 64858},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2008, col: 5, offset: 64833},
+										pos:        position{line: 2009, col: 5, offset: 64858},
 										val:        "_",
 										ignoreCase: false,
 										want:       "\"_\"",
 									},
 									&notExpr{
-										pos: position{line: 2009, col: 5, offset: 64842},
+										pos: position{line: 2010, col: 5, offset: 64867},
 										expr: &litMatcher{
-											pos:        position{line: 2009, col: 6, offset: 64843},
+											pos:        position{line: 2010, col: 6, offset: 64868},
 											val:        "_",
 											ignoreCase: false,
 											want:       "\"_\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2010, col: 5, offset: 64908},
+										pos: position{line: 2011, col: 5, offset: 64933},
 										run: (*parser).callonSingleQuoteItalicTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2014, col: 5, offset: 65019},
+										pos: position{line: 2015, col: 5, offset: 65044},
 										expr: &notExpr{
-											pos: position{line: 2014, col: 7, offset: 65021},
+											pos: position{line: 2015, col: 7, offset: 65046},
 											expr: &charClassMatcher{
-												pos:        position{line: 2770, col: 13, offset: 88391},
+												pos:        position{line: 2771, col: 13, offset: 88416},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42357,10 +42361,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2035, col: 5, offset: 65630},
+							pos:   position{line: 2036, col: 5, offset: 65655},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2035, col: 14, offset: 65639},
+								pos:  position{line: 2036, col: 14, offset: 65664},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42370,35 +42374,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedItalicText",
-			pos:  position{line: 2040, col: 1, offset: 65727},
+			pos:  position{line: 2041, col: 1, offset: 65752},
 			expr: &choiceExpr{
-				pos: position{line: 2042, col: 5, offset: 65792},
+				pos: position{line: 2043, col: 5, offset: 65817},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2042, col: 5, offset: 65792},
+						pos: position{line: 2043, col: 5, offset: 65817},
 						run: (*parser).callonEscapedItalicText2,
 						expr: &seqExpr{
-							pos: position{line: 2042, col: 5, offset: 65792},
+							pos: position{line: 2043, col: 5, offset: 65817},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2042, col: 5, offset: 65792},
+									pos:   position{line: 2043, col: 5, offset: 65817},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1858, col: 25, offset: 60207},
+										pos: position{line: 1859, col: 25, offset: 60232},
 										run: (*parser).callonEscapedItalicText5,
 										expr: &seqExpr{
-											pos: position{line: 1858, col: 25, offset: 60207},
+											pos: position{line: 1859, col: 25, offset: 60232},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1858, col: 25, offset: 60207},
+													pos:        position{line: 1859, col: 25, offset: 60232},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1858, col: 30, offset: 60212},
+													pos: position{line: 1859, col: 30, offset: 60237},
 													expr: &litMatcher{
-														pos:        position{line: 1858, col: 30, offset: 60212},
+														pos:        position{line: 1859, col: 30, offset: 60237},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42409,21 +42413,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2042, col: 40, offset: 65827},
+									pos:        position{line: 2043, col: 40, offset: 65852},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2042, col: 45, offset: 65832},
+									pos:   position{line: 2043, col: 45, offset: 65857},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2042, col: 55, offset: 65842},
+										pos:  position{line: 2043, col: 55, offset: 65867},
 										name: "DoubleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2042, col: 86, offset: 65873},
+									pos:        position{line: 2043, col: 86, offset: 65898},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
@@ -42432,21 +42436,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2046, col: 7, offset: 66038},
+						pos: position{line: 2047, col: 7, offset: 66063},
 						run: (*parser).callonEscapedItalicText14,
 						expr: &seqExpr{
-							pos: position{line: 2046, col: 7, offset: 66038},
+							pos: position{line: 2047, col: 7, offset: 66063},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2046, col: 7, offset: 66038},
+									pos:   position{line: 2047, col: 7, offset: 66063},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1854, col: 25, offset: 60134},
+										pos: position{line: 1855, col: 25, offset: 60159},
 										run: (*parser).callonEscapedItalicText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1854, col: 25, offset: 60134},
+											pos: position{line: 1855, col: 25, offset: 60159},
 											expr: &litMatcher{
-												pos:        position{line: 1854, col: 25, offset: 60134},
+												pos:        position{line: 1855, col: 25, offset: 60159},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42455,21 +42459,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2046, col: 42, offset: 66073},
+									pos:        position{line: 2047, col: 42, offset: 66098},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2046, col: 47, offset: 66078},
+									pos:   position{line: 2047, col: 47, offset: 66103},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2046, col: 57, offset: 66088},
+										pos:  position{line: 2047, col: 57, offset: 66113},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2046, col: 88, offset: 66119},
+									pos:        position{line: 2047, col: 88, offset: 66144},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -42478,21 +42482,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2051, col: 7, offset: 66360},
+						pos: position{line: 2052, col: 7, offset: 66385},
 						run: (*parser).callonEscapedItalicText24,
 						expr: &seqExpr{
-							pos: position{line: 2051, col: 7, offset: 66360},
+							pos: position{line: 2052, col: 7, offset: 66385},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2051, col: 7, offset: 66360},
+									pos:   position{line: 2052, col: 7, offset: 66385},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1854, col: 25, offset: 60134},
+										pos: position{line: 1855, col: 25, offset: 60159},
 										run: (*parser).callonEscapedItalicText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1854, col: 25, offset: 60134},
+											pos: position{line: 1855, col: 25, offset: 60159},
 											expr: &litMatcher{
-												pos:        position{line: 1854, col: 25, offset: 60134},
+												pos:        position{line: 1855, col: 25, offset: 60159},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42501,21 +42505,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2051, col: 42, offset: 66395},
+									pos:        position{line: 2052, col: 42, offset: 66420},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2051, col: 46, offset: 66399},
+									pos:   position{line: 2052, col: 46, offset: 66424},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2051, col: 56, offset: 66409},
+										pos:  position{line: 2052, col: 56, offset: 66434},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2051, col: 87, offset: 66440},
+									pos:        position{line: 2052, col: 87, offset: 66465},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -42528,29 +42532,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceText",
-			pos:  position{line: 2068, col: 1, offset: 67004},
+			pos:  position{line: 2069, col: 1, offset: 67029},
 			expr: &actionExpr{
-				pos: position{line: 2069, col: 5, offset: 67037},
+				pos: position{line: 2070, col: 5, offset: 67062},
 				run: (*parser).callonDoubleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2069, col: 5, offset: 67037},
+					pos: position{line: 2070, col: 5, offset: 67062},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2064, col: 43, offset: 66952},
+							pos:        position{line: 2065, col: 43, offset: 66977},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2070, col: 5, offset: 67081},
+							pos:   position{line: 2071, col: 5, offset: 67106},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2070, col: 15, offset: 67091},
+								pos:  position{line: 2071, col: 15, offset: 67116},
 								name: "DoubleQuoteMonospaceTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2066, col: 41, offset: 66998},
+							pos:        position{line: 2067, col: 41, offset: 67023},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
@@ -42561,44 +42565,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElements",
-			pos:  position{line: 2075, col: 1, offset: 67266},
+			pos:  position{line: 2076, col: 1, offset: 67291},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 2075, col: 37, offset: 67302},
+				pos: position{line: 2076, col: 37, offset: 67327},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2075, col: 37, offset: 67302},
+					pos:  position{line: 2076, col: 37, offset: 67327},
 					name: "DoubleQuoteMonospaceTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElement",
-			pos:  position{line: 2077, col: 1, offset: 67369},
+			pos:  position{line: 2078, col: 1, offset: 67394},
 			expr: &actionExpr{
-				pos: position{line: 2078, col: 5, offset: 67409},
+				pos: position{line: 2079, col: 5, offset: 67434},
 				run: (*parser).callonDoubleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2078, col: 5, offset: 67409},
+					pos: position{line: 2079, col: 5, offset: 67434},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2897, col: 11, offset: 91651},
+							pos: position{line: 2898, col: 11, offset: 91676},
 							expr: &anyMatcher{
-								line: 2897, col: 13, offset: 91653,
+								line: 2898, col: 13, offset: 91678,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2079, col: 5, offset: 67420},
+							pos: position{line: 2080, col: 5, offset: 67445},
 							expr: &litMatcher{
-								pos:        position{line: 2066, col: 41, offset: 66998},
+								pos:        position{line: 2067, col: 41, offset: 67023},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2080, col: 5, offset: 67462},
+							pos:   position{line: 2081, col: 5, offset: 67487},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2080, col: 14, offset: 67471},
+								pos:  position{line: 2081, col: 14, offset: 67496},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42608,33 +42612,33 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextEndDelimiter",
-			pos:  position{line: 2098, col: 1, offset: 68013},
+			pos:  position{line: 2099, col: 1, offset: 68038},
 			expr: &seqExpr{
-				pos: position{line: 2099, col: 5, offset: 68058},
+				pos: position{line: 2100, col: 5, offset: 68083},
 				exprs: []interface{}{
 					&notExpr{
-						pos: position{line: 2099, col: 5, offset: 68058},
+						pos: position{line: 2100, col: 5, offset: 68083},
 						expr: &ruleRefExpr{
-							pos:  position{line: 2099, col: 6, offset: 68059},
+							pos:  position{line: 2100, col: 6, offset: 68084},
 							name: "QuotationMark",
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 2100, col: 5, offset: 68078},
+						pos:        position{line: 2101, col: 5, offset: 68103},
 						val:        "`",
 						ignoreCase: false,
 						want:       "\"`\"",
 					},
 					&andCodeExpr{
-						pos: position{line: 2101, col: 5, offset: 68086},
+						pos: position{line: 2102, col: 5, offset: 68111},
 						run: (*parser).callonSingleQuoteMonospaceTextEndDelimiter5,
 					},
 					&andExpr{
-						pos: position{line: 2105, col: 5, offset: 68200},
+						pos: position{line: 2106, col: 5, offset: 68225},
 						expr: &notExpr{
-							pos: position{line: 2105, col: 7, offset: 68202},
+							pos: position{line: 2106, col: 7, offset: 68227},
 							expr: &charClassMatcher{
-								pos:        position{line: 2770, col: 13, offset: 88391},
+								pos:        position{line: 2771, col: 13, offset: 88416},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -42647,29 +42651,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceText",
-			pos:  position{line: 2108, col: 1, offset: 68219},
+			pos:  position{line: 2109, col: 1, offset: 68244},
 			expr: &actionExpr{
-				pos: position{line: 2109, col: 5, offset: 68252},
+				pos: position{line: 2110, col: 5, offset: 68277},
 				run: (*parser).callonSingleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2109, col: 5, offset: 68252},
+					pos: position{line: 2110, col: 5, offset: 68277},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2091, col: 5, offset: 67815},
+							pos:        position{line: 2092, col: 5, offset: 67840},
 							val:        "`",
 							ignoreCase: false,
 							want:       "\"`\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2092, col: 5, offset: 67824},
+							pos: position{line: 2093, col: 5, offset: 67849},
 							run: (*parser).callonSingleQuoteMonospaceText4,
 						},
 						&andExpr{
-							pos: position{line: 2096, col: 5, offset: 67947},
+							pos: position{line: 2097, col: 5, offset: 67972},
 							expr: &notExpr{
-								pos: position{line: 2096, col: 7, offset: 67949},
+								pos: position{line: 2097, col: 7, offset: 67974},
 								expr: &litMatcher{
-									pos:        position{line: 2096, col: 8, offset: 67950},
+									pos:        position{line: 2097, col: 8, offset: 67975},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42677,15 +42681,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2110, col: 5, offset: 68296},
+							pos:   position{line: 2111, col: 5, offset: 68321},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2110, col: 15, offset: 68306},
+								pos:  position{line: 2111, col: 15, offset: 68331},
 								name: "SingleQuoteMonospaceTextElements",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 2111, col: 5, offset: 68345},
+							pos:  position{line: 2112, col: 5, offset: 68370},
 							name: "SingleQuoteMonospaceTextEndDelimiter",
 						},
 					},
@@ -42694,20 +42698,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElements",
-			pos:  position{line: 2115, col: 1, offset: 68482},
+			pos:  position{line: 2116, col: 1, offset: 68507},
 			expr: &actionExpr{
-				pos: position{line: 2116, col: 5, offset: 68523},
+				pos: position{line: 2117, col: 5, offset: 68548},
 				run: (*parser).callonSingleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2116, col: 5, offset: 68523},
+					pos: position{line: 2117, col: 5, offset: 68548},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2116, col: 5, offset: 68523},
+							pos: position{line: 2117, col: 5, offset: 68548},
 							expr: &actionExpr{
-								pos: position{line: 2880, col: 10, offset: 91317},
+								pos: position{line: 2881, col: 10, offset: 91342},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2880, col: 10, offset: 91317},
+									pos:        position{line: 2881, col: 10, offset: 91342},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42716,18 +42720,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2117, col: 5, offset: 68562},
+							pos:   position{line: 2118, col: 5, offset: 68587},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2117, col: 14, offset: 68571},
+								pos: position{line: 2118, col: 14, offset: 68596},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2117, col: 15, offset: 68572},
+									pos:  position{line: 2118, col: 15, offset: 68597},
 									name: "SingleQuoteMonospaceTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2118, col: 5, offset: 68610},
+							pos: position{line: 2119, col: 5, offset: 68635},
 							run: (*parser).callonSingleQuoteMonospaceTextElements9,
 						},
 					},
@@ -42736,31 +42740,31 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElement",
-			pos:  position{line: 2124, col: 1, offset: 68751},
+			pos:  position{line: 2125, col: 1, offset: 68776},
 			expr: &actionExpr{
-				pos: position{line: 2125, col: 5, offset: 68791},
+				pos: position{line: 2126, col: 5, offset: 68816},
 				run: (*parser).callonSingleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2125, col: 5, offset: 68791},
+					pos: position{line: 2126, col: 5, offset: 68816},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2897, col: 11, offset: 91651},
+							pos: position{line: 2898, col: 11, offset: 91676},
 							expr: &anyMatcher{
-								line: 2897, col: 13, offset: 91653,
+								line: 2898, col: 13, offset: 91678,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2126, col: 5, offset: 68802},
+							pos: position{line: 2127, col: 5, offset: 68827},
 							expr: &ruleRefExpr{
-								pos:  position{line: 2126, col: 6, offset: 68803},
+								pos:  position{line: 2127, col: 6, offset: 68828},
 								name: "SingleQuoteMonospaceTextEndDelimiter",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2127, col: 5, offset: 68844},
+							pos:   position{line: 2128, col: 5, offset: 68869},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2127, col: 14, offset: 68853},
+								pos:  position{line: 2128, col: 14, offset: 68878},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42770,35 +42774,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMonospaceText",
-			pos:  position{line: 2132, col: 1, offset: 68941},
+			pos:  position{line: 2133, col: 1, offset: 68966},
 			expr: &choiceExpr{
-				pos: position{line: 2134, col: 5, offset: 69012},
+				pos: position{line: 2135, col: 5, offset: 69037},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2134, col: 5, offset: 69012},
+						pos: position{line: 2135, col: 5, offset: 69037},
 						run: (*parser).callonEscapedMonospaceText2,
 						expr: &seqExpr{
-							pos: position{line: 2134, col: 5, offset: 69012},
+							pos: position{line: 2135, col: 5, offset: 69037},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2134, col: 5, offset: 69012},
+									pos:   position{line: 2135, col: 5, offset: 69037},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1858, col: 25, offset: 60207},
+										pos: position{line: 1859, col: 25, offset: 60232},
 										run: (*parser).callonEscapedMonospaceText5,
 										expr: &seqExpr{
-											pos: position{line: 1858, col: 25, offset: 60207},
+											pos: position{line: 1859, col: 25, offset: 60232},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1858, col: 25, offset: 60207},
+													pos:        position{line: 1859, col: 25, offset: 60232},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1858, col: 30, offset: 60212},
+													pos: position{line: 1859, col: 30, offset: 60237},
 													expr: &litMatcher{
-														pos:        position{line: 1858, col: 30, offset: 60212},
+														pos:        position{line: 1859, col: 30, offset: 60237},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42809,21 +42813,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2134, col: 40, offset: 69047},
+									pos:        position{line: 2135, col: 40, offset: 69072},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2134, col: 45, offset: 69052},
+									pos:   position{line: 2135, col: 45, offset: 69077},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2134, col: 55, offset: 69062},
+										pos:  position{line: 2135, col: 55, offset: 69087},
 										name: "DoubleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2134, col: 89, offset: 69096},
+									pos:        position{line: 2135, col: 89, offset: 69121},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
@@ -42832,21 +42836,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2138, col: 7, offset: 69265},
+						pos: position{line: 2139, col: 7, offset: 69290},
 						run: (*parser).callonEscapedMonospaceText14,
 						expr: &seqExpr{
-							pos: position{line: 2138, col: 7, offset: 69265},
+							pos: position{line: 2139, col: 7, offset: 69290},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2138, col: 7, offset: 69265},
+									pos:   position{line: 2139, col: 7, offset: 69290},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1854, col: 25, offset: 60134},
+										pos: position{line: 1855, col: 25, offset: 60159},
 										run: (*parser).callonEscapedMonospaceText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1854, col: 25, offset: 60134},
+											pos: position{line: 1855, col: 25, offset: 60159},
 											expr: &litMatcher{
-												pos:        position{line: 1854, col: 25, offset: 60134},
+												pos:        position{line: 1855, col: 25, offset: 60159},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42855,21 +42859,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2138, col: 42, offset: 69300},
+									pos:        position{line: 2139, col: 42, offset: 69325},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2138, col: 47, offset: 69305},
+									pos:   position{line: 2139, col: 47, offset: 69330},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2138, col: 57, offset: 69315},
+										pos:  position{line: 2139, col: 57, offset: 69340},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2138, col: 91, offset: 69349},
+									pos:        position{line: 2139, col: 91, offset: 69374},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42878,21 +42882,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2143, col: 7, offset: 69555},
+						pos: position{line: 2144, col: 7, offset: 69580},
 						run: (*parser).callonEscapedMonospaceText24,
 						expr: &seqExpr{
-							pos: position{line: 2143, col: 7, offset: 69555},
+							pos: position{line: 2144, col: 7, offset: 69580},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2143, col: 7, offset: 69555},
+									pos:   position{line: 2144, col: 7, offset: 69580},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1854, col: 25, offset: 60134},
+										pos: position{line: 1855, col: 25, offset: 60159},
 										run: (*parser).callonEscapedMonospaceText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1854, col: 25, offset: 60134},
+											pos: position{line: 1855, col: 25, offset: 60159},
 											expr: &litMatcher{
-												pos:        position{line: 1854, col: 25, offset: 60134},
+												pos:        position{line: 1855, col: 25, offset: 60159},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42901,21 +42905,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2143, col: 42, offset: 69590},
+									pos:        position{line: 2144, col: 42, offset: 69615},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2143, col: 46, offset: 69594},
+									pos:   position{line: 2144, col: 46, offset: 69619},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2143, col: 56, offset: 69604},
+										pos:  position{line: 2144, col: 56, offset: 69629},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2143, col: 90, offset: 69638},
+									pos:        position{line: 2144, col: 90, offset: 69663},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42928,29 +42932,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedText",
-			pos:  position{line: 2160, col: 1, offset: 70123},
+			pos:  position{line: 2161, col: 1, offset: 70148},
 			expr: &actionExpr{
-				pos: position{line: 2161, col: 5, offset: 70153},
+				pos: position{line: 2162, col: 5, offset: 70178},
 				run: (*parser).callonDoubleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2161, col: 5, offset: 70153},
+					pos: position{line: 2162, col: 5, offset: 70178},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2156, col: 40, offset: 70074},
+							pos:        position{line: 2157, col: 40, offset: 70099},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2162, col: 5, offset: 70194},
+							pos:   position{line: 2163, col: 5, offset: 70219},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2162, col: 15, offset: 70204},
+								pos:  position{line: 2163, col: 15, offset: 70229},
 								name: "DoubleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2158, col: 38, offset: 70117},
+							pos:        position{line: 2159, col: 38, offset: 70142},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
@@ -42961,44 +42965,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElements",
-			pos:  position{line: 2167, col: 1, offset: 70370},
+			pos:  position{line: 2168, col: 1, offset: 70395},
 			expr: &zeroOrMoreExpr{
-				pos: position{line: 2167, col: 34, offset: 70403},
+				pos: position{line: 2168, col: 34, offset: 70428},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2167, col: 34, offset: 70403},
+					pos:  position{line: 2168, col: 34, offset: 70428},
 					name: "DoubleQuoteMarkedTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMarkedTextElement",
-			pos:  position{line: 2169, col: 1, offset: 70434},
+			pos:  position{line: 2170, col: 1, offset: 70459},
 			expr: &actionExpr{
-				pos: position{line: 2170, col: 5, offset: 70503},
+				pos: position{line: 2171, col: 5, offset: 70528},
 				run: (*parser).callonDoubleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2170, col: 5, offset: 70503},
+					pos: position{line: 2171, col: 5, offset: 70528},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2897, col: 11, offset: 91651},
+							pos: position{line: 2898, col: 11, offset: 91676},
 							expr: &anyMatcher{
-								line: 2897, col: 13, offset: 91653,
+								line: 2898, col: 13, offset: 91678,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2171, col: 5, offset: 70514},
+							pos: position{line: 2172, col: 5, offset: 70539},
 							expr: &litMatcher{
-								pos:        position{line: 2158, col: 38, offset: 70117},
+								pos:        position{line: 2159, col: 38, offset: 70142},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2172, col: 5, offset: 70553},
+							pos:   position{line: 2173, col: 5, offset: 70578},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2172, col: 14, offset: 70562},
+								pos:  position{line: 2173, col: 14, offset: 70587},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43008,29 +43012,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedText",
-			pos:  position{line: 2197, col: 1, offset: 71244},
+			pos:  position{line: 2198, col: 1, offset: 71269},
 			expr: &actionExpr{
-				pos: position{line: 2198, col: 5, offset: 71274},
+				pos: position{line: 2199, col: 5, offset: 71299},
 				run: (*parser).callonSingleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2198, col: 5, offset: 71274},
+					pos: position{line: 2199, col: 5, offset: 71299},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2181, col: 5, offset: 70810},
+							pos:        position{line: 2182, col: 5, offset: 70835},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2182, col: 5, offset: 70819},
+							pos: position{line: 2183, col: 5, offset: 70844},
 							run: (*parser).callonSingleQuoteMarkedText4,
 						},
 						&andExpr{
-							pos: position{line: 2186, col: 5, offset: 70939},
+							pos: position{line: 2187, col: 5, offset: 70964},
 							expr: &notExpr{
-								pos: position{line: 2186, col: 7, offset: 70941},
+								pos: position{line: 2187, col: 7, offset: 70966},
 								expr: &litMatcher{
-									pos:        position{line: 2186, col: 8, offset: 70942},
+									pos:        position{line: 2187, col: 8, offset: 70967},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -43038,38 +43042,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2199, col: 5, offset: 71314},
+							pos:   position{line: 2200, col: 5, offset: 71339},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2199, col: 15, offset: 71324},
+								pos:  position{line: 2200, col: 15, offset: 71349},
 								name: "SingleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2189, col: 5, offset: 71047},
+							pos:        position{line: 2190, col: 5, offset: 71072},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&notExpr{
-							pos: position{line: 2190, col: 5, offset: 71055},
+							pos: position{line: 2191, col: 5, offset: 71080},
 							expr: &litMatcher{
-								pos:        position{line: 2190, col: 6, offset: 71056},
+								pos:        position{line: 2191, col: 6, offset: 71081},
 								val:        "#",
 								ignoreCase: false,
 								want:       "\"#\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2191, col: 5, offset: 71119},
+							pos: position{line: 2192, col: 5, offset: 71144},
 							run: (*parser).callonSingleQuoteMarkedText13,
 						},
 						&andExpr{
-							pos: position{line: 2195, col: 5, offset: 71230},
+							pos: position{line: 2196, col: 5, offset: 71255},
 							expr: &notExpr{
-								pos: position{line: 2195, col: 7, offset: 71232},
+								pos: position{line: 2196, col: 7, offset: 71257},
 								expr: &charClassMatcher{
-									pos:        position{line: 2770, col: 13, offset: 88391},
+									pos:        position{line: 2771, col: 13, offset: 88416},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -43083,20 +43087,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElements",
-			pos:  position{line: 2204, col: 1, offset: 71491},
+			pos:  position{line: 2205, col: 1, offset: 71516},
 			expr: &actionExpr{
-				pos: position{line: 2205, col: 5, offset: 71529},
+				pos: position{line: 2206, col: 5, offset: 71554},
 				run: (*parser).callonSingleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2205, col: 5, offset: 71529},
+					pos: position{line: 2206, col: 5, offset: 71554},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2205, col: 5, offset: 71529},
+							pos: position{line: 2206, col: 5, offset: 71554},
 							expr: &actionExpr{
-								pos: position{line: 2880, col: 10, offset: 91317},
+								pos: position{line: 2881, col: 10, offset: 91342},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2880, col: 10, offset: 91317},
+									pos:        position{line: 2881, col: 10, offset: 91342},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43105,18 +43109,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2206, col: 5, offset: 71568},
+							pos:   position{line: 2207, col: 5, offset: 71593},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2206, col: 14, offset: 71577},
+								pos: position{line: 2207, col: 14, offset: 71602},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2206, col: 15, offset: 71578},
+									pos:  position{line: 2207, col: 15, offset: 71603},
 									name: "SingleQuoteMarkedTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2207, col: 5, offset: 71614},
+							pos: position{line: 2208, col: 5, offset: 71639},
 							run: (*parser).callonSingleQuoteMarkedTextElements9,
 						},
 					},
@@ -43125,49 +43129,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElement",
-			pos:  position{line: 2213, col: 1, offset: 71755},
+			pos:  position{line: 2214, col: 1, offset: 71780},
 			expr: &actionExpr{
-				pos: position{line: 2214, col: 5, offset: 71792},
+				pos: position{line: 2215, col: 5, offset: 71817},
 				run: (*parser).callonSingleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2214, col: 5, offset: 71792},
+					pos: position{line: 2215, col: 5, offset: 71817},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2897, col: 11, offset: 91651},
+							pos: position{line: 2898, col: 11, offset: 91676},
 							expr: &anyMatcher{
-								line: 2897, col: 13, offset: 91653,
+								line: 2898, col: 13, offset: 91678,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2215, col: 5, offset: 71803},
+							pos: position{line: 2216, col: 5, offset: 71828},
 							expr: &seqExpr{
-								pos: position{line: 2189, col: 5, offset: 71047},
+								pos: position{line: 2190, col: 5, offset: 71072},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2189, col: 5, offset: 71047},
+										pos:        position{line: 2190, col: 5, offset: 71072},
 										val:        "#",
 										ignoreCase: false,
 										want:       "\"#\"",
 									},
 									&notExpr{
-										pos: position{line: 2190, col: 5, offset: 71055},
+										pos: position{line: 2191, col: 5, offset: 71080},
 										expr: &litMatcher{
-											pos:        position{line: 2190, col: 6, offset: 71056},
+											pos:        position{line: 2191, col: 6, offset: 71081},
 											val:        "#",
 											ignoreCase: false,
 											want:       "\"#\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2191, col: 5, offset: 71119},
+										pos: position{line: 2192, col: 5, offset: 71144},
 										run: (*parser).callonSingleQuoteMarkedTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2195, col: 5, offset: 71230},
+										pos: position{line: 2196, col: 5, offset: 71255},
 										expr: &notExpr{
-											pos: position{line: 2195, col: 7, offset: 71232},
+											pos: position{line: 2196, col: 7, offset: 71257},
 											expr: &charClassMatcher{
-												pos:        position{line: 2770, col: 13, offset: 88391},
+												pos:        position{line: 2771, col: 13, offset: 88416},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -43179,10 +43183,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2216, col: 5, offset: 71842},
+							pos:   position{line: 2217, col: 5, offset: 71867},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2216, col: 14, offset: 71851},
+								pos:  position{line: 2217, col: 14, offset: 71876},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43192,35 +43196,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMarkedText",
-			pos:  position{line: 2221, col: 1, offset: 71939},
+			pos:  position{line: 2222, col: 1, offset: 71964},
 			expr: &choiceExpr{
-				pos: position{line: 2223, col: 5, offset: 72003},
+				pos: position{line: 2224, col: 5, offset: 72028},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2223, col: 5, offset: 72003},
+						pos: position{line: 2224, col: 5, offset: 72028},
 						run: (*parser).callonEscapedMarkedText2,
 						expr: &seqExpr{
-							pos: position{line: 2223, col: 5, offset: 72003},
+							pos: position{line: 2224, col: 5, offset: 72028},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2223, col: 5, offset: 72003},
+									pos:   position{line: 2224, col: 5, offset: 72028},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1858, col: 25, offset: 60207},
+										pos: position{line: 1859, col: 25, offset: 60232},
 										run: (*parser).callonEscapedMarkedText5,
 										expr: &seqExpr{
-											pos: position{line: 1858, col: 25, offset: 60207},
+											pos: position{line: 1859, col: 25, offset: 60232},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1858, col: 25, offset: 60207},
+													pos:        position{line: 1859, col: 25, offset: 60232},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1858, col: 30, offset: 60212},
+													pos: position{line: 1859, col: 30, offset: 60237},
 													expr: &litMatcher{
-														pos:        position{line: 1858, col: 30, offset: 60212},
+														pos:        position{line: 1859, col: 30, offset: 60237},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -43231,21 +43235,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2223, col: 40, offset: 72038},
+									pos:        position{line: 2224, col: 40, offset: 72063},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2223, col: 45, offset: 72043},
+									pos:   position{line: 2224, col: 45, offset: 72068},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2223, col: 55, offset: 72053},
+										pos:  position{line: 2224, col: 55, offset: 72078},
 										name: "DoubleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2223, col: 86, offset: 72084},
+									pos:        position{line: 2224, col: 86, offset: 72109},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
@@ -43254,21 +43258,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2227, col: 7, offset: 72249},
+						pos: position{line: 2228, col: 7, offset: 72274},
 						run: (*parser).callonEscapedMarkedText14,
 						expr: &seqExpr{
-							pos: position{line: 2227, col: 7, offset: 72249},
+							pos: position{line: 2228, col: 7, offset: 72274},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2227, col: 7, offset: 72249},
+									pos:   position{line: 2228, col: 7, offset: 72274},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1854, col: 25, offset: 60134},
+										pos: position{line: 1855, col: 25, offset: 60159},
 										run: (*parser).callonEscapedMarkedText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1854, col: 25, offset: 60134},
+											pos: position{line: 1855, col: 25, offset: 60159},
 											expr: &litMatcher{
-												pos:        position{line: 1854, col: 25, offset: 60134},
+												pos:        position{line: 1855, col: 25, offset: 60159},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43277,21 +43281,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2227, col: 42, offset: 72284},
+									pos:        position{line: 2228, col: 42, offset: 72309},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2227, col: 47, offset: 72289},
+									pos:   position{line: 2228, col: 47, offset: 72314},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2227, col: 57, offset: 72299},
+										pos:  position{line: 2228, col: 57, offset: 72324},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2227, col: 88, offset: 72330},
+									pos:        position{line: 2228, col: 88, offset: 72355},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -43300,21 +43304,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2232, col: 7, offset: 72533},
+						pos: position{line: 2233, col: 7, offset: 72558},
 						run: (*parser).callonEscapedMarkedText24,
 						expr: &seqExpr{
-							pos: position{line: 2232, col: 7, offset: 72533},
+							pos: position{line: 2233, col: 7, offset: 72558},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2232, col: 7, offset: 72533},
+									pos:   position{line: 2233, col: 7, offset: 72558},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1854, col: 25, offset: 60134},
+										pos: position{line: 1855, col: 25, offset: 60159},
 										run: (*parser).callonEscapedMarkedText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1854, col: 25, offset: 60134},
+											pos: position{line: 1855, col: 25, offset: 60159},
 											expr: &litMatcher{
-												pos:        position{line: 1854, col: 25, offset: 60134},
+												pos:        position{line: 1855, col: 25, offset: 60159},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43323,21 +43327,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2232, col: 42, offset: 72568},
+									pos:        position{line: 2233, col: 42, offset: 72593},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2232, col: 46, offset: 72572},
+									pos:   position{line: 2233, col: 46, offset: 72597},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2232, col: 56, offset: 72582},
+										pos:  position{line: 2233, col: 56, offset: 72607},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2232, col: 87, offset: 72613},
+									pos:        position{line: 2233, col: 87, offset: 72638},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -43350,29 +43354,29 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptText",
-			pos:  position{line: 2239, col: 1, offset: 72880},
+			pos:  position{line: 2240, col: 1, offset: 72905},
 			expr: &actionExpr{
-				pos: position{line: 2240, col: 5, offset: 72902},
+				pos: position{line: 2241, col: 5, offset: 72927},
 				run: (*parser).callonSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2240, col: 5, offset: 72902},
+					pos: position{line: 2241, col: 5, offset: 72927},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2246, col: 27, offset: 73117},
+							pos:        position{line: 2247, col: 27, offset: 73142},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2241, col: 5, offset: 72929},
+							pos:   position{line: 2242, col: 5, offset: 72954},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2241, col: 14, offset: 72938},
+								pos:  position{line: 2242, col: 14, offset: 72963},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2246, col: 27, offset: 73117},
+							pos:        position{line: 2247, col: 27, offset: 73142},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -43383,43 +43387,43 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptTextElement",
-			pos:  position{line: 2248, col: 1, offset: 73122},
+			pos:  position{line: 2249, col: 1, offset: 73147},
 			expr: &choiceExpr{
-				pos: position{line: 2248, col: 25, offset: 73146},
+				pos: position{line: 2249, col: 25, offset: 73171},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2248, col: 25, offset: 73146},
+						pos:  position{line: 2249, col: 25, offset: 73171},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2250, col: 21, offset: 73198},
+						pos: position{line: 2251, col: 21, offset: 73223},
 						run: (*parser).callonSubscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2250, col: 21, offset: 73198},
+							pos:   position{line: 2251, col: 21, offset: 73223},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2250, col: 30, offset: 73207},
+								pos: position{line: 2251, col: 30, offset: 73232},
 								expr: &choiceExpr{
-									pos: position{line: 2250, col: 31, offset: 73208},
+									pos: position{line: 2251, col: 31, offset: 73233},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2474, col: 5, offset: 79749},
+											pos: position{line: 2475, col: 5, offset: 79774},
 											run: (*parser).callonSubscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2474, col: 5, offset: 79749},
+												pos: position{line: 2475, col: 5, offset: 79774},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2474, col: 5, offset: 79749},
+														pos: position{line: 2475, col: 5, offset: 79774},
 														run: (*parser).callonSubscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2477, col: 5, offset: 79825},
+														pos:   position{line: 2478, col: 5, offset: 79850},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2478, col: 9, offset: 79843},
+															pos: position{line: 2479, col: 9, offset: 79868},
 															run: (*parser).callonSubscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2478, col: 10, offset: 79844},
+																pos:        position{line: 2479, col: 10, offset: 79869},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -43431,7 +43435,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2250, col: 50, offset: 73227},
+											pos:        position{line: 2251, col: 50, offset: 73252},
 											val:        "[^\\r\\n ~]",
 											chars:      []rune{'\r', '\n', ' ', '~'},
 											ignoreCase: false,
@@ -43447,23 +43451,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2254, col: 1, offset: 73277},
+			pos:  position{line: 2255, col: 1, offset: 73302},
 			expr: &actionExpr{
-				pos: position{line: 2256, col: 5, offset: 73344},
+				pos: position{line: 2257, col: 5, offset: 73369},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2256, col: 5, offset: 73344},
+					pos: position{line: 2257, col: 5, offset: 73369},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2256, col: 5, offset: 73344},
+							pos:   position{line: 2257, col: 5, offset: 73369},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1854, col: 25, offset: 60134},
+								pos: position{line: 1855, col: 25, offset: 60159},
 								run: (*parser).callonEscapedSubscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1854, col: 25, offset: 60134},
+									pos: position{line: 1855, col: 25, offset: 60159},
 									expr: &litMatcher{
-										pos:        position{line: 1854, col: 25, offset: 60134},
+										pos:        position{line: 1855, col: 25, offset: 60159},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -43472,21 +43476,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2246, col: 27, offset: 73117},
+							pos:        position{line: 2247, col: 27, offset: 73142},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2258, col: 5, offset: 73412},
+							pos:   position{line: 2259, col: 5, offset: 73437},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2258, col: 14, offset: 73421},
+								pos:  position{line: 2259, col: 14, offset: 73446},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2246, col: 27, offset: 73117},
+							pos:        position{line: 2247, col: 27, offset: 73142},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -43497,29 +43501,29 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2266, col: 1, offset: 73684},
+			pos:  position{line: 2267, col: 1, offset: 73709},
 			expr: &actionExpr{
-				pos: position{line: 2267, col: 5, offset: 73708},
+				pos: position{line: 2268, col: 5, offset: 73733},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2267, col: 5, offset: 73708},
+					pos: position{line: 2268, col: 5, offset: 73733},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2273, col: 29, offset: 73935},
+							pos:        position{line: 2274, col: 29, offset: 73960},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2268, col: 5, offset: 73738},
+							pos:   position{line: 2269, col: 5, offset: 73763},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2268, col: 14, offset: 73747},
+								pos:  position{line: 2269, col: 14, offset: 73772},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2273, col: 29, offset: 73935},
+							pos:        position{line: 2274, col: 29, offset: 73960},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -43530,43 +43534,43 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2275, col: 1, offset: 73940},
+			pos:  position{line: 2276, col: 1, offset: 73965},
 			expr: &choiceExpr{
-				pos: position{line: 2275, col: 27, offset: 73966},
+				pos: position{line: 2276, col: 27, offset: 73991},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2275, col: 27, offset: 73966},
+						pos:  position{line: 2276, col: 27, offset: 73991},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2277, col: 23, offset: 74022},
+						pos: position{line: 2278, col: 23, offset: 74047},
 						run: (*parser).callonSuperscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2277, col: 23, offset: 74022},
+							pos:   position{line: 2278, col: 23, offset: 74047},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2277, col: 32, offset: 74031},
+								pos: position{line: 2278, col: 32, offset: 74056},
 								expr: &choiceExpr{
-									pos: position{line: 2277, col: 33, offset: 74032},
+									pos: position{line: 2278, col: 33, offset: 74057},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2474, col: 5, offset: 79749},
+											pos: position{line: 2475, col: 5, offset: 79774},
 											run: (*parser).callonSuperscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2474, col: 5, offset: 79749},
+												pos: position{line: 2475, col: 5, offset: 79774},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2474, col: 5, offset: 79749},
+														pos: position{line: 2475, col: 5, offset: 79774},
 														run: (*parser).callonSuperscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2477, col: 5, offset: 79825},
+														pos:   position{line: 2478, col: 5, offset: 79850},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2478, col: 9, offset: 79843},
+															pos: position{line: 2479, col: 9, offset: 79868},
 															run: (*parser).callonSuperscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2478, col: 10, offset: 79844},
+																pos:        position{line: 2479, col: 10, offset: 79869},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -43578,7 +43582,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2277, col: 52, offset: 74051},
+											pos:        position{line: 2278, col: 52, offset: 74076},
 											val:        "[^\\r\\n ^]",
 											chars:      []rune{'\r', '\n', ' ', '^'},
 											ignoreCase: false,
@@ -43594,23 +43598,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2281, col: 1, offset: 74101},
+			pos:  position{line: 2282, col: 1, offset: 74126},
 			expr: &actionExpr{
-				pos: position{line: 2283, col: 5, offset: 74173},
+				pos: position{line: 2284, col: 5, offset: 74198},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2283, col: 5, offset: 74173},
+					pos: position{line: 2284, col: 5, offset: 74198},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2283, col: 5, offset: 74173},
+							pos:   position{line: 2284, col: 5, offset: 74198},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1854, col: 25, offset: 60134},
+								pos: position{line: 1855, col: 25, offset: 60159},
 								run: (*parser).callonEscapedSuperscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1854, col: 25, offset: 60134},
+									pos: position{line: 1855, col: 25, offset: 60159},
 									expr: &litMatcher{
-										pos:        position{line: 1854, col: 25, offset: 60134},
+										pos:        position{line: 1855, col: 25, offset: 60159},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -43619,21 +43623,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2273, col: 29, offset: 73935},
+							pos:        position{line: 2274, col: 29, offset: 73960},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2285, col: 5, offset: 74243},
+							pos:   position{line: 2286, col: 5, offset: 74268},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2285, col: 14, offset: 74252},
+								pos:  position{line: 2286, col: 14, offset: 74277},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2273, col: 29, offset: 73935},
+							pos:        position{line: 2274, col: 29, offset: 73960},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -43644,27 +43648,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2294, col: 1, offset: 74721},
+			pos:  position{line: 2295, col: 1, offset: 74746},
 			expr: &actionExpr{
-				pos: position{line: 2295, col: 5, offset: 74737},
+				pos: position{line: 2296, col: 5, offset: 74762},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2295, col: 5, offset: 74737},
+					pos: position{line: 2296, col: 5, offset: 74762},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2295, col: 5, offset: 74737},
+							pos: position{line: 2296, col: 5, offset: 74762},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2298, col: 5, offset: 74800},
+							pos:   position{line: 2299, col: 5, offset: 74825},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2298, col: 12, offset: 74807},
+								pos: position{line: 2299, col: 12, offset: 74832},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2298, col: 12, offset: 74807},
+									pos: position{line: 2299, col: 12, offset: 74832},
 									expr: &litMatcher{
-										pos:        position{line: 2298, col: 13, offset: 74808},
+										pos:        position{line: 2299, col: 13, offset: 74833},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -43673,16 +43677,16 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2302, col: 5, offset: 74916},
+							pos: position{line: 2303, col: 5, offset: 74941},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2884, col: 11, offset: 91378},
+							pos: position{line: 2885, col: 11, offset: 91403},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2884, col: 11, offset: 91378},
+								pos: position{line: 2885, col: 11, offset: 91403},
 								expr: &charClassMatcher{
-									pos:        position{line: 2884, col: 11, offset: 91378},
+									pos:        position{line: 2885, col: 11, offset: 91403},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43691,36 +43695,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2306, col: 12, offset: 75075},
+							pos:   position{line: 2307, col: 12, offset: 75100},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2306, col: 19, offset: 75082},
+								pos:  position{line: 2307, col: 19, offset: 75107},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2902, col: 8, offset: 91715},
+							pos: position{line: 2903, col: 8, offset: 91740},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2889, col: 12, offset: 91488},
+									pos: position{line: 2890, col: 12, offset: 91513},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2889, col: 13, offset: 91489},
+										pos: position{line: 2890, col: 13, offset: 91514},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2889, col: 13, offset: 91489},
+												pos:        position{line: 2890, col: 13, offset: 91514},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2889, col: 20, offset: 91496},
+												pos:        position{line: 2890, col: 20, offset: 91521},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2889, col: 29, offset: 91505},
+												pos:        position{line: 2890, col: 29, offset: 91530},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -43729,9 +43733,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2899, col: 8, offset: 91665},
+									pos: position{line: 2900, col: 8, offset: 91690},
 									expr: &anyMatcher{
-										line: 2899, col: 9, offset: 91666,
+										line: 2900, col: 9, offset: 91691,
 									},
 								},
 							},
@@ -43742,24 +43746,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2310, col: 1, offset: 75178},
+			pos:  position{line: 2311, col: 1, offset: 75203},
 			expr: &actionExpr{
-				pos: position{line: 2311, col: 5, offset: 75199},
+				pos: position{line: 2312, col: 5, offset: 75224},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2311, col: 5, offset: 75199},
+					pos: position{line: 2312, col: 5, offset: 75224},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2311, col: 5, offset: 75199},
+							pos: position{line: 2312, col: 5, offset: 75224},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2318, col: 5, offset: 75385},
+							pos:   position{line: 2319, col: 5, offset: 75410},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2318, col: 14, offset: 75394},
+								pos: position{line: 2319, col: 14, offset: 75419},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2318, col: 15, offset: 75395},
+									pos:  position{line: 2319, col: 15, offset: 75420},
 									name: "SectionTitleElement",
 								},
 							},
@@ -43770,38 +43774,38 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2322, col: 1, offset: 75476},
+			pos:  position{line: 2323, col: 1, offset: 75501},
 			expr: &actionExpr{
-				pos: position{line: 2323, col: 5, offset: 75503},
+				pos: position{line: 2324, col: 5, offset: 75528},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2323, col: 5, offset: 75503},
+					pos: position{line: 2324, col: 5, offset: 75528},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2323, col: 5, offset: 75503},
+							pos: position{line: 2324, col: 5, offset: 75528},
 							expr: &choiceExpr{
-								pos: position{line: 2902, col: 8, offset: 91715},
+								pos: position{line: 2903, col: 8, offset: 91740},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2889, col: 12, offset: 91488},
+										pos: position{line: 2890, col: 12, offset: 91513},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2889, col: 13, offset: 91489},
+											pos: position{line: 2890, col: 13, offset: 91514},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2889, col: 13, offset: 91489},
+													pos:        position{line: 2890, col: 13, offset: 91514},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2889, col: 20, offset: 91496},
+													pos:        position{line: 2890, col: 20, offset: 91521},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2889, col: 29, offset: 91505},
+													pos:        position{line: 2890, col: 29, offset: 91530},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -43810,29 +43814,29 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2899, col: 8, offset: 91665},
+										pos: position{line: 2900, col: 8, offset: 91690},
 										expr: &anyMatcher{
-											line: 2899, col: 9, offset: 91666,
+											line: 2900, col: 9, offset: 91691,
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2324, col: 5, offset: 75512},
+							pos:   position{line: 2325, col: 5, offset: 75537},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2324, col: 14, offset: 75521},
+								pos: position{line: 2325, col: 14, offset: 75546},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2324, col: 14, offset: 75521},
+										pos:  position{line: 2325, col: 14, offset: 75546},
 										name: "SectionTitleLineElement",
 									},
 									&actionExpr{
-										pos: position{line: 2819, col: 12, offset: 89625},
+										pos: position{line: 2820, col: 12, offset: 89650},
 										run: (*parser).callonSectionTitleElement15,
 										expr: &charClassMatcher{
-											pos:        position{line: 2819, col: 12, offset: 89625},
+											pos:        position{line: 2820, col: 12, offset: 89650},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -43848,21 +43852,21 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleLineElement",
-			pos:  position{line: 2329, col: 1, offset: 75625},
+			pos:  position{line: 2330, col: 1, offset: 75650},
 			expr: &actionExpr{
-				pos: position{line: 2330, col: 5, offset: 75656},
+				pos: position{line: 2331, col: 5, offset: 75681},
 				run: (*parser).callonSectionTitleLineElement1,
 				expr: &seqExpr{
-					pos: position{line: 2330, col: 5, offset: 75656},
+					pos: position{line: 2331, col: 5, offset: 75681},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2330, col: 5, offset: 75656},
+							pos:   position{line: 2331, col: 5, offset: 75681},
 							label: "start",
 							expr: &actionExpr{
-								pos: position{line: 2905, col: 16, offset: 91839},
+								pos: position{line: 2906, col: 16, offset: 91864},
 								run: (*parser).callonSectionTitleLineElement4,
 								expr: &litMatcher{
-									pos:        position{line: 2905, col: 16, offset: 91839},
+									pos:        position{line: 2906, col: 16, offset: 91864},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -43870,27 +43874,27 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2331, col: 5, offset: 75680},
+							pos:   position{line: 2332, col: 5, offset: 75705},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2332, col: 9, offset: 75698},
+								pos: position{line: 2333, col: 9, offset: 75723},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2779, col: 5, offset: 88538},
+										pos: position{line: 2780, col: 5, offset: 88563},
 										run: (*parser).callonSectionTitleLineElement8,
 										expr: &seqExpr{
-											pos: position{line: 2779, col: 5, offset: 88538},
+											pos: position{line: 2780, col: 5, offset: 88563},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2779, col: 5, offset: 88538},
+													pos:   position{line: 2780, col: 5, offset: 88563},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2779, col: 11, offset: 88544},
+														pos: position{line: 2780, col: 11, offset: 88569},
 														run: (*parser).callonSectionTitleLineElement11,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2779, col: 11, offset: 88544},
+															pos: position{line: 2780, col: 11, offset: 88569},
 															expr: &charClassMatcher{
-																pos:        position{line: 2779, col: 11, offset: 88544},
+																pos:        position{line: 2780, col: 11, offset: 88569},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -43900,44 +43904,44 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2782, col: 5, offset: 88602},
+													pos: position{line: 2783, col: 5, offset: 88627},
 													expr: &seqExpr{
-														pos: position{line: 2783, col: 9, offset: 88613},
+														pos: position{line: 2784, col: 9, offset: 88638},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2783, col: 9, offset: 88613},
+																pos:        position{line: 2784, col: 9, offset: 88638},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2784, col: 9, offset: 88662},
+																pos: position{line: 2785, col: 9, offset: 88687},
 																run: (*parser).callonSectionTitleLineElement17,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2788, col: 5, offset: 88742},
+													pos: position{line: 2789, col: 5, offset: 88767},
 													expr: &seqExpr{
-														pos: position{line: 2789, col: 9, offset: 88753},
+														pos: position{line: 2790, col: 9, offset: 88778},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2789, col: 9, offset: 88753},
+																pos: position{line: 2790, col: 9, offset: 88778},
 																expr: &seqExpr{
-																	pos: position{line: 2789, col: 10, offset: 88754},
+																	pos: position{line: 2790, col: 10, offset: 88779},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2789, col: 10, offset: 88754},
+																			pos:        position{line: 2790, col: 10, offset: 88779},
 																			val:        "[._%+-]",
 																			chars:      []rune{'.', '_', '%', '+', '-'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2789, col: 18, offset: 88762},
+																			pos: position{line: 2790, col: 18, offset: 88787},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2789, col: 18, offset: 88762},
+																				pos:        position{line: 2790, col: 18, offset: 88787},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -43948,13 +43952,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2789, col: 30, offset: 88774},
+																pos:        position{line: 2790, col: 30, offset: 88799},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2789, col: 34, offset: 88778},
+																pos:        position{line: 2790, col: 34, offset: 88803},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -43967,12 +43971,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2884, col: 11, offset: 91378},
+										pos: position{line: 2885, col: 11, offset: 91403},
 										run: (*parser).callonSectionTitleLineElement27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2884, col: 11, offset: 91378},
+											pos: position{line: 2885, col: 11, offset: 91403},
 											expr: &charClassMatcher{
-												pos:        position{line: 2884, col: 11, offset: 91378},
+												pos:        position{line: 2885, col: 11, offset: 91403},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -43981,25 +43985,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2505, col: 5, offset: 80920},
+										pos: position{line: 2506, col: 5, offset: 80945},
 										run: (*parser).callonSectionTitleLineElement30,
 										expr: &seqExpr{
-											pos: position{line: 2505, col: 5, offset: 80920},
+											pos: position{line: 2506, col: 5, offset: 80945},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2505, col: 5, offset: 80920},
+													pos: position{line: 2506, col: 5, offset: 80945},
 													run: (*parser).callonSectionTitleLineElement32,
 												},
 												&litMatcher{
-													pos:        position{line: 2508, col: 5, offset: 80991},
+													pos:        position{line: 2509, col: 5, offset: 81016},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2508, col: 10, offset: 80996},
+													pos: position{line: 2509, col: 10, offset: 81021},
 													expr: &charClassMatcher{
-														pos:        position{line: 2508, col: 11, offset: 80997},
+														pos:        position{line: 2509, col: 11, offset: 81022},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -44010,29 +44014,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2514, col: 5, offset: 81189},
+										pos: position{line: 2515, col: 5, offset: 81214},
 										run: (*parser).callonSectionTitleLineElement36,
 										expr: &seqExpr{
-											pos: position{line: 2514, col: 5, offset: 81189},
+											pos: position{line: 2515, col: 5, offset: 81214},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2514, col: 5, offset: 81189},
+													pos: position{line: 2515, col: 5, offset: 81214},
 													run: (*parser).callonSectionTitleLineElement38,
 												},
 												&andCodeExpr{
-													pos: position{line: 2517, col: 5, offset: 81260},
+													pos: position{line: 2518, col: 5, offset: 81285},
 													run: (*parser).callonSectionTitleLineElement39,
 												},
 												&litMatcher{
-													pos:        position{line: 2521, col: 5, offset: 81385},
+													pos:        position{line: 2522, col: 5, offset: 81410},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2521, col: 9, offset: 81389},
+													pos: position{line: 2522, col: 9, offset: 81414},
 													expr: &charClassMatcher{
-														pos:        position{line: 2521, col: 10, offset: 81390},
+														pos:        position{line: 2522, col: 10, offset: 81415},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -44043,31 +44047,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2335, col: 11, offset: 75763},
+										pos:  position{line: 2336, col: 11, offset: 75788},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2797, col: 5, offset: 88971},
+										pos: position{line: 2798, col: 5, offset: 88996},
 										run: (*parser).callonSectionTitleLineElement44,
 										expr: &choiceExpr{
-											pos: position{line: 2798, col: 9, offset: 88981},
+											pos: position{line: 2799, col: 9, offset: 89006},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2798, col: 10, offset: 88982},
+													pos:        position{line: 2799, col: 10, offset: 89007},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2800, col: 13, offset: 89079},
+													pos: position{line: 2801, col: 13, offset: 89104},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2800, col: 13, offset: 89079},
+															pos: position{line: 2801, col: 13, offset: 89104},
 															run: (*parser).callonSectionTitleLineElement48,
 														},
 														&litMatcher{
-															pos:        position{line: 2803, col: 13, offset: 89179},
+															pos:        position{line: 2804, col: 13, offset: 89204},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -44075,20 +44079,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2803, col: 19, offset: 89185},
+													pos:        position{line: 2804, col: 19, offset: 89210},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2806, col: 13, offset: 89223},
+													pos: position{line: 2807, col: 13, offset: 89248},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2806, col: 13, offset: 89223},
+															pos: position{line: 2807, col: 13, offset: 89248},
 															run: (*parser).callonSectionTitleLineElement52,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2809, col: 14, offset: 89316},
+															pos:        position{line: 2810, col: 14, offset: 89341},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -44097,18 +44101,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2811, col: 12, offset: 89360},
+													pos: position{line: 2812, col: 12, offset: 89385},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2811, col: 12, offset: 89360},
+															pos:        position{line: 2812, col: 12, offset: 89385},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2811, col: 16, offset: 89364},
+															pos: position{line: 2812, col: 16, offset: 89389},
 															expr: &litMatcher{
-																pos:        position{line: 2811, col: 17, offset: 89365},
+																pos:        position{line: 2812, col: 17, offset: 89390},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -44120,35 +44124,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2337, col: 11, offset: 75836},
+										pos:  position{line: 2338, col: 11, offset: 75861},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2338, col: 11, offset: 75852},
+										pos:  position{line: 2339, col: 11, offset: 75877},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2339, col: 11, offset: 75880},
+										pos:  position{line: 2340, col: 11, offset: 75905},
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2474, col: 5, offset: 79749},
+										pos: position{line: 2475, col: 5, offset: 79774},
 										run: (*parser).callonSectionTitleLineElement61,
 										expr: &seqExpr{
-											pos: position{line: 2474, col: 5, offset: 79749},
+											pos: position{line: 2475, col: 5, offset: 79774},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2474, col: 5, offset: 79749},
+													pos: position{line: 2475, col: 5, offset: 79774},
 													run: (*parser).callonSectionTitleLineElement63,
 												},
 												&labeledExpr{
-													pos:   position{line: 2477, col: 5, offset: 79825},
+													pos:   position{line: 2478, col: 5, offset: 79850},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2478, col: 9, offset: 79843},
+														pos: position{line: 2479, col: 9, offset: 79868},
 														run: (*parser).callonSectionTitleLineElement65,
 														expr: &charClassMatcher{
-															pos:        position{line: 2478, col: 10, offset: 79844},
+															pos:        position{line: 2479, col: 10, offset: 79869},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -44160,7 +44164,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2341, col: 11, offset: 75965},
+										pos:  position{line: 2342, col: 11, offset: 75990},
 										name: "InlineIcon",
 									},
 									&actionExpr{
@@ -44553,17 +44557,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2357, col: 5, offset: 76459},
+										pos: position{line: 2358, col: 5, offset: 76484},
 										run: (*parser).callonSectionTitleLineElement146,
 										expr: &seqExpr{
-											pos: position{line: 2357, col: 5, offset: 76459},
+											pos: position{line: 2358, col: 5, offset: 76484},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2357, col: 5, offset: 76459},
+													pos: position{line: 2358, col: 5, offset: 76484},
 													run: (*parser).callonSectionTitleLineElement148,
 												},
 												&labeledExpr{
-													pos:   position{line: 2360, col: 5, offset: 76514},
+													pos:   position{line: 2361, col: 5, offset: 76539},
 													label: "id",
 													expr: &actionExpr{
 														pos: position{line: 403, col: 5, offset: 12344},
@@ -45021,12 +45025,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2360, col: 26, offset: 76535},
+													pos: position{line: 2361, col: 26, offset: 76560},
 													expr: &actionExpr{
-														pos: position{line: 2880, col: 10, offset: 91317},
+														pos: position{line: 2881, col: 10, offset: 91342},
 														run: (*parser).callonSectionTitleLineElement243,
 														expr: &charClassMatcher{
-															pos:        position{line: 2880, col: 10, offset: 91317},
+															pos:        position{line: 2881, col: 10, offset: 91342},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -45035,30 +45039,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 2360, col: 33, offset: 76542},
+													pos: position{line: 2361, col: 33, offset: 76567},
 													expr: &choiceExpr{
-														pos: position{line: 2902, col: 8, offset: 91715},
+														pos: position{line: 2903, col: 8, offset: 91740},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2889, col: 12, offset: 91488},
+																pos: position{line: 2890, col: 12, offset: 91513},
 																run: (*parser).callonSectionTitleLineElement247,
 																expr: &choiceExpr{
-																	pos: position{line: 2889, col: 13, offset: 91489},
+																	pos: position{line: 2890, col: 13, offset: 91514},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2889, col: 13, offset: 91489},
+																			pos:        position{line: 2890, col: 13, offset: 91514},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2889, col: 20, offset: 91496},
+																			pos:        position{line: 2890, col: 20, offset: 91521},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2889, col: 29, offset: 91505},
+																			pos:        position{line: 2890, col: 29, offset: 91530},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -45067,9 +45071,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2899, col: 8, offset: 91665},
+																pos: position{line: 2900, col: 8, offset: 91690},
 																expr: &anyMatcher{
-																	line: 2899, col: 9, offset: 91666,
+																	line: 2900, col: 9, offset: 91691,
 																},
 															},
 														},
@@ -45094,12 +45098,12 @@ var g = &grammar{
 													pos:   position{line: 1258, col: 14, offset: 38908},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2865, col: 7, offset: 90969},
+														pos: position{line: 2866, col: 7, offset: 90994},
 														run: (*parser).callonSectionTitleLineElement258,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2865, col: 7, offset: 90969},
+															pos: position{line: 2866, col: 7, offset: 90994},
 															expr: &charClassMatcher{
-																pos:        position{line: 2865, col: 7, offset: 90969},
+																pos:        position{line: 2866, col: 7, offset: 90994},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -45133,12 +45137,12 @@ var g = &grammar{
 													pos:   position{line: 1263, col: 10, offset: 39083},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2865, col: 7, offset: 90969},
+														pos: position{line: 2866, col: 7, offset: 90994},
 														run: (*parser).callonSectionTitleLineElement266,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2865, col: 7, offset: 90969},
+															pos: position{line: 2866, col: 7, offset: 90994},
 															expr: &charClassMatcher{
-																pos:        position{line: 2865, col: 7, offset: 90969},
+																pos:        position{line: 2866, col: 7, offset: 90994},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -45157,20 +45161,20 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2346, col: 11, offset: 76219},
+										pos:  position{line: 2347, col: 11, offset: 76244},
 										name: "InlineFootnote",
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2347, col: 5, offset: 76239},
+							pos:   position{line: 2348, col: 5, offset: 76264},
 							label: "end",
 							expr: &actionExpr{
-								pos: position{line: 2905, col: 16, offset: 91839},
+								pos: position{line: 2906, col: 16, offset: 91864},
 								run: (*parser).callonSectionTitleLineElement272,
 								expr: &litMatcher{
-									pos:        position{line: 2905, col: 16, offset: 91839},
+									pos:        position{line: 2906, col: 16, offset: 91864},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -45178,7 +45182,7 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2348, col: 5, offset: 76261},
+							pos: position{line: 2349, col: 5, offset: 76286},
 							run: (*parser).callonSectionTitleLineElement274,
 						},
 					},
@@ -45187,52 +45191,52 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2370, col: 1, offset: 76804},
+			pos:  position{line: 2371, col: 1, offset: 76829},
 			expr: &actionExpr{
-				pos: position{line: 2371, col: 5, offset: 76891},
+				pos: position{line: 2372, col: 5, offset: 76916},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2371, col: 5, offset: 76891},
+					pos: position{line: 2372, col: 5, offset: 76916},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2371, col: 5, offset: 76891},
+							pos:   position{line: 2372, col: 5, offset: 76916},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2371, col: 14, offset: 76900},
+								pos: position{line: 2372, col: 14, offset: 76925},
 								expr: &actionExpr{
-									pos: position{line: 2373, col: 9, offset: 76926},
+									pos: position{line: 2374, col: 9, offset: 76951},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2373, col: 9, offset: 76926},
+										pos: position{line: 2374, col: 9, offset: 76951},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2897, col: 11, offset: 91651},
+												pos: position{line: 2898, col: 11, offset: 91676},
 												expr: &anyMatcher{
-													line: 2897, col: 13, offset: 91653,
+													line: 2898, col: 13, offset: 91678,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2374, col: 9, offset: 76941},
+												pos:   position{line: 2375, col: 9, offset: 76966},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2375, col: 13, offset: 76963},
+													pos: position{line: 2376, col: 13, offset: 76988},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2779, col: 5, offset: 88538},
+															pos: position{line: 2780, col: 5, offset: 88563},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2779, col: 5, offset: 88538},
+																pos: position{line: 2780, col: 5, offset: 88563},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 2779, col: 5, offset: 88538},
+																		pos:   position{line: 2780, col: 5, offset: 88563},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2779, col: 11, offset: 88544},
+																			pos: position{line: 2780, col: 11, offset: 88569},
 																			run: (*parser).callonNormalGroup14,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2779, col: 11, offset: 88544},
+																				pos: position{line: 2780, col: 11, offset: 88569},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2779, col: 11, offset: 88544},
+																					pos:        position{line: 2780, col: 11, offset: 88569},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -45242,44 +45246,44 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2782, col: 5, offset: 88602},
+																		pos: position{line: 2783, col: 5, offset: 88627},
 																		expr: &seqExpr{
-																			pos: position{line: 2783, col: 9, offset: 88613},
+																			pos: position{line: 2784, col: 9, offset: 88638},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2783, col: 9, offset: 88613},
+																					pos:        position{line: 2784, col: 9, offset: 88638},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2784, col: 9, offset: 88662},
+																					pos: position{line: 2785, col: 9, offset: 88687},
 																					run: (*parser).callonNormalGroup20,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2788, col: 5, offset: 88742},
+																		pos: position{line: 2789, col: 5, offset: 88767},
 																		expr: &seqExpr{
-																			pos: position{line: 2789, col: 9, offset: 88753},
+																			pos: position{line: 2790, col: 9, offset: 88778},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 2789, col: 9, offset: 88753},
+																					pos: position{line: 2790, col: 9, offset: 88778},
 																					expr: &seqExpr{
-																						pos: position{line: 2789, col: 10, offset: 88754},
+																						pos: position{line: 2790, col: 10, offset: 88779},
 																						exprs: []interface{}{
 																							&charClassMatcher{
-																								pos:        position{line: 2789, col: 10, offset: 88754},
+																								pos:        position{line: 2790, col: 10, offset: 88779},
 																								val:        "[._%+-]",
 																								chars:      []rune{'.', '_', '%', '+', '-'},
 																								ignoreCase: false,
 																								inverted:   false,
 																							},
 																							&oneOrMoreExpr{
-																								pos: position{line: 2789, col: 18, offset: 88762},
+																								pos: position{line: 2790, col: 18, offset: 88787},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2789, col: 18, offset: 88762},
+																									pos:        position{line: 2790, col: 18, offset: 88787},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -45290,13 +45294,13 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2789, col: 30, offset: 88774},
+																					pos:        position{line: 2790, col: 30, offset: 88799},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2789, col: 34, offset: 88778},
+																					pos:        position{line: 2790, col: 34, offset: 88803},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -45309,12 +45313,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2884, col: 11, offset: 91378},
+															pos: position{line: 2885, col: 11, offset: 91403},
 															run: (*parser).callonNormalGroup30,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2884, col: 11, offset: 91378},
+																pos: position{line: 2885, col: 11, offset: 91403},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2884, col: 11, offset: 91378},
+																	pos:        position{line: 2885, col: 11, offset: 91403},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -45323,29 +45327,29 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2377, col: 15, offset: 77009},
+															pos:  position{line: 2378, col: 15, offset: 77034},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2505, col: 5, offset: 80920},
+															pos: position{line: 2506, col: 5, offset: 80945},
 															run: (*parser).callonNormalGroup34,
 															expr: &seqExpr{
-																pos: position{line: 2505, col: 5, offset: 80920},
+																pos: position{line: 2506, col: 5, offset: 80945},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2505, col: 5, offset: 80920},
+																		pos: position{line: 2506, col: 5, offset: 80945},
 																		run: (*parser).callonNormalGroup36,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2508, col: 5, offset: 80991},
+																		pos:        position{line: 2509, col: 5, offset: 81016},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2508, col: 10, offset: 80996},
+																		pos: position{line: 2509, col: 10, offset: 81021},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2508, col: 11, offset: 80997},
+																			pos:        position{line: 2509, col: 11, offset: 81022},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -45356,29 +45360,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2514, col: 5, offset: 81189},
+															pos: position{line: 2515, col: 5, offset: 81214},
 															run: (*parser).callonNormalGroup40,
 															expr: &seqExpr{
-																pos: position{line: 2514, col: 5, offset: 81189},
+																pos: position{line: 2515, col: 5, offset: 81214},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2514, col: 5, offset: 81189},
+																		pos: position{line: 2515, col: 5, offset: 81214},
 																		run: (*parser).callonNormalGroup42,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2517, col: 5, offset: 81260},
+																		pos: position{line: 2518, col: 5, offset: 81285},
 																		run: (*parser).callonNormalGroup43,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2521, col: 5, offset: 81385},
+																		pos:        position{line: 2522, col: 5, offset: 81410},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2521, col: 9, offset: 81389},
+																		pos: position{line: 2522, col: 9, offset: 81414},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2521, col: 10, offset: 81390},
+																			pos:        position{line: 2522, col: 10, offset: 81415},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -45389,27 +45393,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2797, col: 5, offset: 88971},
+															pos: position{line: 2798, col: 5, offset: 88996},
 															run: (*parser).callonNormalGroup47,
 															expr: &choiceExpr{
-																pos: position{line: 2798, col: 9, offset: 88981},
+																pos: position{line: 2799, col: 9, offset: 89006},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2798, col: 10, offset: 88982},
+																		pos:        position{line: 2799, col: 10, offset: 89007},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2800, col: 13, offset: 89079},
+																		pos: position{line: 2801, col: 13, offset: 89104},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2800, col: 13, offset: 89079},
+																				pos: position{line: 2801, col: 13, offset: 89104},
 																				run: (*parser).callonNormalGroup51,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2803, col: 13, offset: 89179},
+																				pos:        position{line: 2804, col: 13, offset: 89204},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -45417,20 +45421,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2803, col: 19, offset: 89185},
+																		pos:        position{line: 2804, col: 19, offset: 89210},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2806, col: 13, offset: 89223},
+																		pos: position{line: 2807, col: 13, offset: 89248},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2806, col: 13, offset: 89223},
+																				pos: position{line: 2807, col: 13, offset: 89248},
 																				run: (*parser).callonNormalGroup55,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2809, col: 14, offset: 89316},
+																				pos:        position{line: 2810, col: 14, offset: 89341},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -45439,18 +45443,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2811, col: 12, offset: 89360},
+																		pos: position{line: 2812, col: 12, offset: 89385},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2811, col: 12, offset: 89360},
+																				pos:        position{line: 2812, col: 12, offset: 89385},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2811, col: 16, offset: 89364},
+																				pos: position{line: 2812, col: 16, offset: 89389},
 																				expr: &litMatcher{
-																					pos:        position{line: 2811, col: 17, offset: 89365},
+																					pos:        position{line: 2812, col: 17, offset: 89390},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -45462,25 +45466,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2889, col: 12, offset: 91488},
+															pos: position{line: 2890, col: 12, offset: 91513},
 															run: (*parser).callonNormalGroup61,
 															expr: &choiceExpr{
-																pos: position{line: 2889, col: 13, offset: 91489},
+																pos: position{line: 2890, col: 13, offset: 91514},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2889, col: 13, offset: 91489},
+																		pos:        position{line: 2890, col: 13, offset: 91514},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2889, col: 20, offset: 91496},
+																		pos:        position{line: 2890, col: 20, offset: 91521},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2889, col: 29, offset: 91505},
+																		pos:        position{line: 2890, col: 29, offset: 91530},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -45835,35 +45839,35 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2382, col: 15, offset: 77176},
+															pos:  position{line: 2383, col: 15, offset: 77201},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2383, col: 15, offset: 77196},
+															pos:  position{line: 2384, col: 15, offset: 77221},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2384, col: 15, offset: 77285},
+															pos:  position{line: 2385, col: 15, offset: 77310},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2474, col: 5, offset: 79749},
+															pos: position{line: 2475, col: 5, offset: 79774},
 															run: (*parser).callonNormalGroup138,
 															expr: &seqExpr{
-																pos: position{line: 2474, col: 5, offset: 79749},
+																pos: position{line: 2475, col: 5, offset: 79774},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2474, col: 5, offset: 79749},
+																		pos: position{line: 2475, col: 5, offset: 79774},
 																		run: (*parser).callonNormalGroup140,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2477, col: 5, offset: 79825},
+																		pos:   position{line: 2478, col: 5, offset: 79850},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2478, col: 9, offset: 79843},
+																			pos: position{line: 2479, col: 9, offset: 79868},
 																			run: (*parser).callonNormalGroup142,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2478, col: 10, offset: 79844},
+																				pos:        position{line: 2479, col: 10, offset: 79869},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -45897,10 +45901,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1219, col: 5, offset: 37756},
 																		expr: &actionExpr{
-																			pos: position{line: 2880, col: 10, offset: 91317},
+																			pos: position{line: 2881, col: 10, offset: 91342},
 																			run: (*parser).callonNormalGroup150,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2880, col: 10, offset: 91317},
+																				pos:        position{line: 2881, col: 10, offset: 91342},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45911,28 +45915,28 @@ var g = &grammar{
 																	&andExpr{
 																		pos: position{line: 1219, col: 12, offset: 37763},
 																		expr: &choiceExpr{
-																			pos: position{line: 2902, col: 8, offset: 91715},
+																			pos: position{line: 2903, col: 8, offset: 91740},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2889, col: 12, offset: 91488},
+																					pos: position{line: 2890, col: 12, offset: 91513},
 																					run: (*parser).callonNormalGroup154,
 																					expr: &choiceExpr{
-																						pos: position{line: 2889, col: 13, offset: 91489},
+																						pos: position{line: 2890, col: 13, offset: 91514},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2889, col: 13, offset: 91489},
+																								pos:        position{line: 2890, col: 13, offset: 91514},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2889, col: 20, offset: 91496},
+																								pos:        position{line: 2890, col: 20, offset: 91521},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2889, col: 29, offset: 91505},
+																								pos:        position{line: 2890, col: 29, offset: 91530},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -45941,9 +45945,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2899, col: 8, offset: 91665},
+																					pos: position{line: 2900, col: 8, offset: 91690},
 																					expr: &anyMatcher{
-																						line: 2899, col: 9, offset: 91666,
+																						line: 2900, col: 9, offset: 91691,
 																					},
 																				},
 																			},
@@ -45953,7 +45957,7 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2387, col: 15, offset: 77467},
+															pos:  position{line: 2388, col: 15, offset: 77492},
 															name: "InlinePassthrough",
 														},
 														&actionExpr{
@@ -46000,10 +46004,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2819, col: 12, offset: 89625},
+															pos: position{line: 2820, col: 12, offset: 89650},
 															run: (*parser).callonNormalGroup171,
 															expr: &charClassMatcher{
-																pos:        position{line: 2819, col: 12, offset: 89625},
+																pos:        position{line: 2820, col: 12, offset: 89650},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -46019,9 +46023,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2899, col: 8, offset: 91665},
+							pos: position{line: 2900, col: 8, offset: 91690},
 							expr: &anyMatcher{
-								line: 2899, col: 9, offset: 91666,
+								line: 2900, col: 9, offset: 91691,
 							},
 						},
 					},
@@ -46030,28 +46034,28 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2398, col: 1, offset: 77905},
+			pos:  position{line: 2399, col: 1, offset: 77930},
 			expr: &actionExpr{
-				pos: position{line: 2399, col: 5, offset: 77938},
+				pos: position{line: 2400, col: 5, offset: 77963},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2399, col: 5, offset: 77938},
+					pos: position{line: 2400, col: 5, offset: 77963},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2399, col: 5, offset: 77938},
+							pos:   position{line: 2400, col: 5, offset: 77963},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2399, col: 14, offset: 77947},
+								pos: position{line: 2400, col: 14, offset: 77972},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2399, col: 15, offset: 77948},
+									pos:  position{line: 2400, col: 15, offset: 77973},
 									name: "AttributeStructuredValueElement",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2899, col: 8, offset: 91665},
+							pos: position{line: 2900, col: 8, offset: 91690},
 							expr: &anyMatcher{
-								line: 2899, col: 9, offset: 91666,
+								line: 2900, col: 9, offset: 91691,
 							},
 						},
 					},
@@ -46060,41 +46064,41 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2403, col: 1, offset: 78045},
+			pos:  position{line: 2404, col: 1, offset: 78070},
 			expr: &actionExpr{
-				pos: position{line: 2404, col: 5, offset: 78085},
+				pos: position{line: 2405, col: 5, offset: 78110},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2404, col: 5, offset: 78085},
+					pos: position{line: 2405, col: 5, offset: 78110},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2897, col: 11, offset: 91651},
+							pos: position{line: 2898, col: 11, offset: 91676},
 							expr: &anyMatcher{
-								line: 2897, col: 13, offset: 91653,
+								line: 2898, col: 13, offset: 91678,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2405, col: 5, offset: 78096},
+							pos:   position{line: 2406, col: 5, offset: 78121},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2406, col: 9, offset: 78114},
+								pos: position{line: 2407, col: 9, offset: 78139},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2779, col: 5, offset: 88538},
+										pos: position{line: 2780, col: 5, offset: 88563},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2779, col: 5, offset: 88538},
+											pos: position{line: 2780, col: 5, offset: 88563},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2779, col: 5, offset: 88538},
+													pos:   position{line: 2780, col: 5, offset: 88563},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2779, col: 11, offset: 88544},
+														pos: position{line: 2780, col: 11, offset: 88569},
 														run: (*parser).callonAttributeStructuredValueElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2779, col: 11, offset: 88544},
+															pos: position{line: 2780, col: 11, offset: 88569},
 															expr: &charClassMatcher{
-																pos:        position{line: 2779, col: 11, offset: 88544},
+																pos:        position{line: 2780, col: 11, offset: 88569},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -46104,44 +46108,44 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2782, col: 5, offset: 88602},
+													pos: position{line: 2783, col: 5, offset: 88627},
 													expr: &seqExpr{
-														pos: position{line: 2783, col: 9, offset: 88613},
+														pos: position{line: 2784, col: 9, offset: 88638},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2783, col: 9, offset: 88613},
+																pos:        position{line: 2784, col: 9, offset: 88638},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2784, col: 9, offset: 88662},
+																pos: position{line: 2785, col: 9, offset: 88687},
 																run: (*parser).callonAttributeStructuredValueElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2788, col: 5, offset: 88742},
+													pos: position{line: 2789, col: 5, offset: 88767},
 													expr: &seqExpr{
-														pos: position{line: 2789, col: 9, offset: 88753},
+														pos: position{line: 2790, col: 9, offset: 88778},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2789, col: 9, offset: 88753},
+																pos: position{line: 2790, col: 9, offset: 88778},
 																expr: &seqExpr{
-																	pos: position{line: 2789, col: 10, offset: 88754},
+																	pos: position{line: 2790, col: 10, offset: 88779},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2789, col: 10, offset: 88754},
+																			pos:        position{line: 2790, col: 10, offset: 88779},
 																			val:        "[._%+-]",
 																			chars:      []rune{'.', '_', '%', '+', '-'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2789, col: 18, offset: 88762},
+																			pos: position{line: 2790, col: 18, offset: 88787},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2789, col: 18, offset: 88762},
+																				pos:        position{line: 2790, col: 18, offset: 88787},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -46152,13 +46156,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2789, col: 30, offset: 88774},
+																pos:        position{line: 2790, col: 30, offset: 88799},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2789, col: 34, offset: 88778},
+																pos:        position{line: 2790, col: 34, offset: 88803},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -46171,10 +46175,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2880, col: 10, offset: 91317},
+										pos: position{line: 2881, col: 10, offset: 91342},
 										run: (*parser).callonAttributeStructuredValueElement26,
 										expr: &charClassMatcher{
-											pos:        position{line: 2880, col: 10, offset: 91317},
+											pos:        position{line: 2881, col: 10, offset: 91342},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -46182,31 +46186,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2408, col: 11, offset: 78152},
+										pos:  position{line: 2409, col: 11, offset: 78177},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2797, col: 5, offset: 88971},
+										pos: position{line: 2798, col: 5, offset: 88996},
 										run: (*parser).callonAttributeStructuredValueElement29,
 										expr: &choiceExpr{
-											pos: position{line: 2798, col: 9, offset: 88981},
+											pos: position{line: 2799, col: 9, offset: 89006},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2798, col: 10, offset: 88982},
+													pos:        position{line: 2799, col: 10, offset: 89007},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2800, col: 13, offset: 89079},
+													pos: position{line: 2801, col: 13, offset: 89104},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2800, col: 13, offset: 89079},
+															pos: position{line: 2801, col: 13, offset: 89104},
 															run: (*parser).callonAttributeStructuredValueElement33,
 														},
 														&litMatcher{
-															pos:        position{line: 2803, col: 13, offset: 89179},
+															pos:        position{line: 2804, col: 13, offset: 89204},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -46214,20 +46218,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2803, col: 19, offset: 89185},
+													pos:        position{line: 2804, col: 19, offset: 89210},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2806, col: 13, offset: 89223},
+													pos: position{line: 2807, col: 13, offset: 89248},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2806, col: 13, offset: 89223},
+															pos: position{line: 2807, col: 13, offset: 89248},
 															run: (*parser).callonAttributeStructuredValueElement37,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2809, col: 14, offset: 89316},
+															pos:        position{line: 2810, col: 14, offset: 89341},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -46236,18 +46240,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2811, col: 12, offset: 89360},
+													pos: position{line: 2812, col: 12, offset: 89385},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2811, col: 12, offset: 89360},
+															pos:        position{line: 2812, col: 12, offset: 89385},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2811, col: 16, offset: 89364},
+															pos: position{line: 2812, col: 16, offset: 89389},
 															expr: &litMatcher{
-																pos:        position{line: 2811, col: 17, offset: 89365},
+																pos:        position{line: 2812, col: 17, offset: 89390},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -46259,31 +46263,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2410, col: 11, offset: 78225},
+										pos:  position{line: 2411, col: 11, offset: 78250},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2411, col: 11, offset: 78241},
+										pos:  position{line: 2412, col: 11, offset: 78266},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2474, col: 5, offset: 79749},
+										pos: position{line: 2475, col: 5, offset: 79774},
 										run: (*parser).callonAttributeStructuredValueElement45,
 										expr: &seqExpr{
-											pos: position{line: 2474, col: 5, offset: 79749},
+											pos: position{line: 2475, col: 5, offset: 79774},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2474, col: 5, offset: 79749},
+													pos: position{line: 2475, col: 5, offset: 79774},
 													run: (*parser).callonAttributeStructuredValueElement47,
 												},
 												&labeledExpr{
-													pos:   position{line: 2477, col: 5, offset: 79825},
+													pos:   position{line: 2478, col: 5, offset: 79850},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2478, col: 9, offset: 79843},
+														pos: position{line: 2479, col: 9, offset: 79868},
 														run: (*parser).callonAttributeStructuredValueElement49,
 														expr: &charClassMatcher{
-															pos:        position{line: 2478, col: 10, offset: 79844},
+															pos:        position{line: 2479, col: 10, offset: 79869},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -46338,25 +46342,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2889, col: 12, offset: 91488},
+										pos: position{line: 2890, col: 12, offset: 91513},
 										run: (*parser).callonAttributeStructuredValueElement60,
 										expr: &choiceExpr{
-											pos: position{line: 2889, col: 13, offset: 91489},
+											pos: position{line: 2890, col: 13, offset: 91514},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2889, col: 13, offset: 91489},
+													pos:        position{line: 2890, col: 13, offset: 91514},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2889, col: 20, offset: 91496},
+													pos:        position{line: 2890, col: 20, offset: 91521},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2889, col: 29, offset: 91505},
+													pos:        position{line: 2890, col: 29, offset: 91530},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -46365,10 +46369,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2819, col: 12, offset: 89625},
+										pos: position{line: 2820, col: 12, offset: 89650},
 										run: (*parser).callonAttributeStructuredValueElement65,
 										expr: &charClassMatcher{
-											pos:        position{line: 2819, col: 12, offset: 89625},
+											pos:        position{line: 2820, col: 12, offset: 89650},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -46384,49 +46388,49 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2422, col: 1, offset: 78511},
+			pos:  position{line: 2423, col: 1, offset: 78536},
 			expr: &actionExpr{
-				pos: position{line: 2424, col: 5, offset: 78593},
+				pos: position{line: 2425, col: 5, offset: 78618},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2424, col: 5, offset: 78593},
+					pos: position{line: 2425, col: 5, offset: 78618},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2424, col: 5, offset: 78593},
+							pos: position{line: 2425, col: 5, offset: 78618},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2427, col: 5, offset: 78658},
+							pos:   position{line: 2428, col: 5, offset: 78683},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2428, col: 9, offset: 78676},
+								pos: position{line: 2429, col: 9, offset: 78701},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2428, col: 9, offset: 78676},
+										pos:  position{line: 2429, col: 9, offset: 78701},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2429, col: 11, offset: 78697},
+										pos:  position{line: 2430, col: 11, offset: 78722},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2430, col: 11, offset: 78720},
+										pos:  position{line: 2431, col: 11, offset: 78745},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2431, col: 11, offset: 78736},
+										pos:  position{line: 2432, col: 11, offset: 78761},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2432, col: 11, offset: 78765},
+										pos:  position{line: 2433, col: 11, offset: 78790},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2433, col: 11, offset: 78791},
+										pos:  position{line: 2434, col: 11, offset: 78816},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2434, col: 11, offset: 78817},
+										pos:  position{line: 2435, col: 11, offset: 78842},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
@@ -46445,12 +46449,12 @@ var g = &grammar{
 													pos:   position{line: 1258, col: 14, offset: 38908},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2865, col: 7, offset: 90969},
+														pos: position{line: 2866, col: 7, offset: 90994},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2865, col: 7, offset: 90969},
+															pos: position{line: 2866, col: 7, offset: 90994},
 															expr: &charClassMatcher{
-																pos:        position{line: 2865, col: 7, offset: 90969},
+																pos:        position{line: 2866, col: 7, offset: 90994},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -46484,12 +46488,12 @@ var g = &grammar{
 													pos:   position{line: 1263, col: 10, offset: 39083},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2865, col: 7, offset: 90969},
+														pos: position{line: 2866, col: 7, offset: 90994},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2865, col: 7, offset: 90969},
+															pos: position{line: 2866, col: 7, offset: 90994},
 															expr: &charClassMatcher{
-																pos:        position{line: 2865, col: 7, offset: 90969},
+																pos:        position{line: 2866, col: 7, offset: 90994},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -46531,17 +46535,17 @@ var g = &grammar{
 																pos: position{line: 1309, col: 31, offset: 40905},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2770, col: 13, offset: 88391},
+																		pos:        position{line: 2771, col: 13, offset: 88416},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2880, col: 10, offset: 91317},
+																		pos: position{line: 2881, col: 10, offset: 91342},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2880, col: 10, offset: 91317},
+																			pos:        position{line: 2881, col: 10, offset: 91342},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -46567,10 +46571,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1303, col: 12, offset: 40619},
 																		expr: &actionExpr{
-																			pos: position{line: 2880, col: 10, offset: 91317},
+																			pos: position{line: 2881, col: 10, offset: 91342},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2880, col: 10, offset: 91317},
+																				pos:        position{line: 2881, col: 10, offset: 91342},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46587,10 +46591,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1303, col: 23, offset: 40630},
 																		expr: &actionExpr{
-																			pos: position{line: 2880, col: 10, offset: 91317},
+																			pos: position{line: 2881, col: 10, offset: 91342},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2880, col: 10, offset: 91317},
+																				pos:        position{line: 2881, col: 10, offset: 91342},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46610,17 +46614,17 @@ var g = &grammar{
 																					pos: position{line: 1309, col: 31, offset: 40905},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2770, col: 13, offset: 88391},
+																							pos:        position{line: 2771, col: 13, offset: 88416},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2880, col: 10, offset: 91317},
+																							pos: position{line: 2881, col: 10, offset: 91342},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2880, col: 10, offset: 91317},
+																								pos:        position{line: 2881, col: 10, offset: 91342},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -46651,10 +46655,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1304, col: 12, offset: 40711},
 																		expr: &actionExpr{
-																			pos: position{line: 2880, col: 10, offset: 91317},
+																			pos: position{line: 2881, col: 10, offset: 91342},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2880, col: 10, offset: 91317},
+																				pos:        position{line: 2881, col: 10, offset: 91342},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46671,10 +46675,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1304, col: 23, offset: 40722},
 																		expr: &actionExpr{
-																			pos: position{line: 2880, col: 10, offset: 91317},
+																			pos: position{line: 2881, col: 10, offset: 91342},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2880, col: 10, offset: 91317},
+																				pos:        position{line: 2881, col: 10, offset: 91342},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46694,17 +46698,17 @@ var g = &grammar{
 																					pos: position{line: 1309, col: 31, offset: 40905},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2770, col: 13, offset: 88391},
+																							pos:        position{line: 2771, col: 13, offset: 88416},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2880, col: 10, offset: 91317},
+																							pos: position{line: 2881, col: 10, offset: 91342},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2880, col: 10, offset: 91317},
+																								pos:        position{line: 2881, col: 10, offset: 91342},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -46731,15 +46735,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2437, col: 11, offset: 78896},
+										pos:  position{line: 2438, col: 11, offset: 78921},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2438, col: 11, offset: 78916},
+										pos:  position{line: 2439, col: 11, offset: 78941},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2439, col: 11, offset: 78939},
+										pos:  position{line: 2440, col: 11, offset: 78964},
 										name: "InlineMenu",
 									},
 								},
@@ -46751,22 +46755,22 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2443, col: 1, offset: 78996},
+			pos:  position{line: 2444, col: 1, offset: 79021},
 			expr: &actionExpr{
-				pos: position{line: 2445, col: 5, offset: 79084},
+				pos: position{line: 2446, col: 5, offset: 79109},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2445, col: 5, offset: 79084},
+					pos: position{line: 2446, col: 5, offset: 79109},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2445, col: 5, offset: 79084},
+							pos: position{line: 2446, col: 5, offset: 79109},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2448, col: 5, offset: 79161},
+							pos:   position{line: 2449, col: 5, offset: 79186},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2449, col: 9, offset: 79179},
+								pos: position{line: 2450, col: 9, offset: 79204},
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 1384, col: 26, offset: 44242},
@@ -46821,10 +46825,10 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1390, col: 12, offset: 44688},
 																				expr: &actionExpr{
-																					pos: position{line: 2880, col: 10, offset: 91317},
+																					pos: position{line: 2881, col: 10, offset: 91342},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2880, col: 10, offset: 91317},
+																						pos:        position{line: 2881, col: 10, offset: 91342},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -46835,25 +46839,25 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1390, col: 19, offset: 44695},
 																				expr: &actionExpr{
-																					pos: position{line: 2889, col: 12, offset: 91488},
+																					pos: position{line: 2890, col: 12, offset: 91513},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2889, col: 13, offset: 91489},
+																						pos: position{line: 2890, col: 13, offset: 91514},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2889, col: 13, offset: 91489},
+																								pos:        position{line: 2890, col: 13, offset: 91514},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2889, col: 20, offset: 91496},
+																								pos:        position{line: 2890, col: 20, offset: 91521},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2889, col: 29, offset: 91505},
+																								pos:        position{line: 2890, col: 29, offset: 91530},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -46890,7 +46894,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1384, col: 121, offset: 44337},
 													expr: &charClassMatcher{
-														pos:        position{line: 2770, col: 13, offset: 88391},
+														pos:        position{line: 2771, col: 13, offset: 88416},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -46936,10 +46940,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1376, col: 64, offset: 43797},
 																			expr: &actionExpr{
-																				pos: position{line: 2880, col: 10, offset: 91317},
+																				pos: position{line: 2881, col: 10, offset: 91342},
 																				run: (*parser).callonInlinePassthrough45,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2880, col: 10, offset: 91317},
+																					pos:        position{line: 2881, col: 10, offset: 91342},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -46950,25 +46954,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1376, col: 71, offset: 43804},
 																			expr: &actionExpr{
-																				pos: position{line: 2889, col: 12, offset: 91488},
+																				pos: position{line: 2890, col: 12, offset: 91513},
 																				run: (*parser).callonInlinePassthrough48,
 																				expr: &choiceExpr{
-																					pos: position{line: 2889, col: 13, offset: 91489},
+																					pos: position{line: 2890, col: 13, offset: 91514},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 13, offset: 91489},
+																							pos:        position{line: 2890, col: 13, offset: 91514},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 20, offset: 91496},
+																							pos:        position{line: 2890, col: 20, offset: 91521},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 29, offset: 91505},
+																							pos:        position{line: 2890, col: 29, offset: 91530},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -46991,12 +46995,12 @@ var g = &grammar{
 																							pos: position{line: 1376, col: 86, offset: 43819},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2884, col: 11, offset: 91378},
+																									pos: position{line: 2885, col: 11, offset: 91403},
 																									run: (*parser).callonInlinePassthrough58,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2884, col: 11, offset: 91378},
+																										pos: position{line: 2885, col: 11, offset: 91403},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2884, col: 11, offset: 91378},
+																											pos:        position{line: 2885, col: 11, offset: 91403},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -47025,25 +47029,25 @@ var g = &grammar{
 																					&notExpr{
 																						pos: position{line: 1376, col: 151, offset: 43884},
 																						expr: &actionExpr{
-																							pos: position{line: 2889, col: 12, offset: 91488},
+																							pos: position{line: 2890, col: 12, offset: 91513},
 																							run: (*parser).callonInlinePassthrough65,
 																							expr: &choiceExpr{
-																								pos: position{line: 2889, col: 13, offset: 91489},
+																								pos: position{line: 2890, col: 13, offset: 91514},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2889, col: 13, offset: 91489},
+																										pos:        position{line: 2890, col: 13, offset: 91514},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2889, col: 20, offset: 91496},
+																										pos:        position{line: 2890, col: 20, offset: 91521},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2889, col: 29, offset: 91505},
+																										pos:        position{line: 2890, col: 29, offset: 91530},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -47070,10 +47074,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1378, col: 12, offset: 44044},
 																			expr: &actionExpr{
-																				pos: position{line: 2880, col: 10, offset: 91317},
+																				pos: position{line: 2881, col: 10, offset: 91342},
 																				run: (*parser).callonInlinePassthrough74,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2880, col: 10, offset: 91317},
+																					pos:        position{line: 2881, col: 10, offset: 91342},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -47084,25 +47088,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1378, col: 19, offset: 44051},
 																			expr: &actionExpr{
-																				pos: position{line: 2889, col: 12, offset: 91488},
+																				pos: position{line: 2890, col: 12, offset: 91513},
 																				run: (*parser).callonInlinePassthrough77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2889, col: 13, offset: 91489},
+																					pos: position{line: 2890, col: 13, offset: 91514},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 13, offset: 91489},
+																							pos:        position{line: 2890, col: 13, offset: 91514},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 20, offset: 91496},
+																							pos:        position{line: 2890, col: 20, offset: 91521},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2889, col: 29, offset: 91505},
+																							pos:        position{line: 2890, col: 29, offset: 91530},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -47138,7 +47142,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1372, col: 121, offset: 43620},
 													expr: &charClassMatcher{
-														pos:        position{line: 2770, col: 13, offset: 88391},
+														pos:        position{line: 2771, col: 13, offset: 88416},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -47149,7 +47153,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2449, col: 57, offset: 79227},
+										pos:  position{line: 2450, col: 57, offset: 79252},
 										name: "PassthroughMacro",
 									},
 								},
@@ -47161,16 +47165,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2454, col: 1, offset: 79287},
+			pos:  position{line: 2455, col: 1, offset: 79312},
 			expr: &seqExpr{
-				pos: position{line: 2456, col: 5, offset: 79363},
+				pos: position{line: 2457, col: 5, offset: 79388},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2456, col: 5, offset: 79363},
+						pos: position{line: 2457, col: 5, offset: 79388},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2459, col: 5, offset: 79428},
+						pos:  position{line: 2460, col: 5, offset: 79453},
 						name: "QuotedText",
 					},
 				},
@@ -47178,22 +47182,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2461, col: 1, offset: 79441},
+			pos:  position{line: 2462, col: 1, offset: 79466},
 			expr: &actionExpr{
-				pos: position{line: 2463, col: 5, offset: 79523},
+				pos: position{line: 2464, col: 5, offset: 79548},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2463, col: 5, offset: 79523},
+					pos: position{line: 2464, col: 5, offset: 79548},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2463, col: 5, offset: 79523},
+							pos: position{line: 2464, col: 5, offset: 79548},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2466, col: 5, offset: 79594},
+							pos:   position{line: 2467, col: 5, offset: 79619},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2467, col: 9, offset: 79612},
+								pos:  position{line: 2468, col: 9, offset: 79637},
 								name: "Symbol",
 							},
 						},
@@ -47203,93 +47207,93 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2525, col: 1, offset: 81442},
+			pos:  position{line: 2526, col: 1, offset: 81467},
 			expr: &choiceExpr{
-				pos: position{line: 2527, col: 5, offset: 81472},
+				pos: position{line: 2528, col: 5, offset: 81497},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2527, col: 5, offset: 81472},
+						pos: position{line: 2528, col: 5, offset: 81497},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2527, col: 5, offset: 81472},
+							pos: position{line: 2528, col: 5, offset: 81497},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2527, col: 5, offset: 81472},
+									pos:        position{line: 2528, col: 5, offset: 81497},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2527, col: 10, offset: 81477},
+									pos: position{line: 2528, col: 10, offset: 81502},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2527, col: 10, offset: 81477},
+											pos:  position{line: 2528, col: 10, offset: 81502},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2556, col: 14, offset: 82611},
+											pos: position{line: 2557, col: 14, offset: 82636},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2556, col: 14, offset: 82611},
+												pos:        position{line: 2557, col: 14, offset: 82636},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2560, col: 14, offset: 82677},
+											pos: position{line: 2561, col: 14, offset: 82702},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2560, col: 14, offset: 82677},
+												pos:        position{line: 2561, col: 14, offset: 82702},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2564, col: 15, offset: 82746},
+											pos: position{line: 2565, col: 15, offset: 82771},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2564, col: 15, offset: 82746},
+												pos:        position{line: 2565, col: 15, offset: 82771},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2568, col: 13, offset: 82811},
+											pos: position{line: 2569, col: 13, offset: 82836},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2568, col: 13, offset: 82811},
+												pos:        position{line: 2569, col: 13, offset: 82836},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2575, col: 5, offset: 82949},
+											pos: position{line: 2576, col: 5, offset: 82974},
 											run: (*parser).callonSymbol15,
 											expr: &seqExpr{
-												pos: position{line: 2575, col: 5, offset: 82949},
+												pos: position{line: 2576, col: 5, offset: 82974},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2575, col: 5, offset: 82949},
+														pos:        position{line: 2576, col: 5, offset: 82974},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2576, col: 5, offset: 82959},
+														pos: position{line: 2577, col: 5, offset: 82984},
 														run: (*parser).callonSymbol18,
 													},
 													&choiceExpr{
-														pos: position{line: 2580, col: 6, offset: 83046},
+														pos: position{line: 2581, col: 6, offset: 83071},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2880, col: 10, offset: 91317},
+																pos: position{line: 2881, col: 10, offset: 91342},
 																run: (*parser).callonSymbol20,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2880, col: 10, offset: 91317},
+																	pos:        position{line: 2881, col: 10, offset: 91342},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -47297,30 +47301,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2580, col: 14, offset: 83054},
+																pos: position{line: 2581, col: 14, offset: 83079},
 																expr: &choiceExpr{
-																	pos: position{line: 2902, col: 8, offset: 91715},
+																	pos: position{line: 2903, col: 8, offset: 91740},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2889, col: 12, offset: 91488},
+																			pos: position{line: 2890, col: 12, offset: 91513},
 																			run: (*parser).callonSymbol24,
 																			expr: &choiceExpr{
-																				pos: position{line: 2889, col: 13, offset: 91489},
+																				pos: position{line: 2890, col: 13, offset: 91514},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 13, offset: 91489},
+																						pos:        position{line: 2890, col: 13, offset: 91514},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 20, offset: 91496},
+																						pos:        position{line: 2890, col: 20, offset: 91521},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2889, col: 29, offset: 91505},
+																						pos:        position{line: 2890, col: 29, offset: 91530},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -47329,9 +47333,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2899, col: 8, offset: 91665},
+																			pos: position{line: 2900, col: 8, offset: 91690},
 																			expr: &anyMatcher{
-																				line: 2899, col: 9, offset: 91666,
+																				line: 2900, col: 9, offset: 91691,
 																			},
 																		},
 																	},
@@ -47343,53 +47347,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2585, col: 5, offset: 83174},
+											pos: position{line: 2586, col: 5, offset: 83199},
 											run: (*parser).callonSymbol31,
 											expr: &seqExpr{
-												pos: position{line: 2585, col: 5, offset: 83174},
+												pos: position{line: 2586, col: 5, offset: 83199},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2585, col: 5, offset: 83174},
+														pos:        position{line: 2586, col: 5, offset: 83199},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2586, col: 5, offset: 83184},
+														pos: position{line: 2587, col: 5, offset: 83209},
 														run: (*parser).callonSymbol34,
 													},
 													&andExpr{
-														pos: position{line: 2590, col: 5, offset: 83273},
+														pos: position{line: 2591, col: 5, offset: 83298},
 														expr: &choiceExpr{
-															pos: position{line: 2590, col: 7, offset: 83275},
+															pos: position{line: 2591, col: 7, offset: 83300},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2770, col: 13, offset: 88391},
+																	pos:        position{line: 2771, col: 13, offset: 88416},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2889, col: 12, offset: 91488},
+																	pos: position{line: 2890, col: 12, offset: 91513},
 																	run: (*parser).callonSymbol38,
 																	expr: &choiceExpr{
-																		pos: position{line: 2889, col: 13, offset: 91489},
+																		pos: position{line: 2890, col: 13, offset: 91514},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2889, col: 13, offset: 91489},
+																				pos:        position{line: 2890, col: 13, offset: 91514},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2889, col: 20, offset: 91496},
+																				pos:        position{line: 2890, col: 20, offset: 91521},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2889, col: 29, offset: 91505},
+																				pos:        position{line: 2890, col: 29, offset: 91530},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -47398,9 +47402,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2899, col: 8, offset: 91665},
+																	pos: position{line: 2900, col: 8, offset: 91690},
 																	expr: &anyMatcher{
-																		line: 2899, col: 9, offset: 91666,
+																		line: 2900, col: 9, offset: 91691,
 																	},
 																},
 															},
@@ -47415,63 +47419,63 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2530, col: 7, offset: 81641},
+						pos: position{line: 2531, col: 7, offset: 81666},
 						run: (*parser).callonSymbol45,
 						expr: &seqExpr{
-							pos: position{line: 2530, col: 7, offset: 81641},
+							pos: position{line: 2531, col: 7, offset: 81666},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2530, col: 7, offset: 81641},
+									pos:        position{line: 2531, col: 7, offset: 81666},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2530, col: 11, offset: 81645},
+									pos:   position{line: 2531, col: 11, offset: 81670},
 									label: "elements",
 									expr: &choiceExpr{
-										pos: position{line: 2530, col: 21, offset: 81655},
+										pos: position{line: 2531, col: 21, offset: 81680},
 										alternatives: []interface{}{
 											&seqExpr{
-												pos: position{line: 2530, col: 21, offset: 81655},
+												pos: position{line: 2531, col: 21, offset: 81680},
 												exprs: []interface{}{
 													&charClassMatcher{
-														pos:        position{line: 2530, col: 21, offset: 81655},
+														pos:        position{line: 2531, col: 21, offset: 81680},
 														val:        "[-=]",
 														chars:      []rune{'-', '='},
 														ignoreCase: false,
 														inverted:   false,
 													},
 													&andExpr{
-														pos: position{line: 2530, col: 26, offset: 81660},
+														pos: position{line: 2531, col: 26, offset: 81685},
 														expr: &litMatcher{
-															pos:        position{line: 2530, col: 27, offset: 81661},
+															pos:        position{line: 2531, col: 27, offset: 81686},
 															val:        ">",
 															ignoreCase: false,
 															want:       "\">\"",
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2530, col: 32, offset: 81666},
+														pos: position{line: 2531, col: 32, offset: 81691},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2474, col: 5, offset: 79749},
+																pos: position{line: 2475, col: 5, offset: 79774},
 																run: (*parser).callonSymbol55,
 																expr: &seqExpr{
-																	pos: position{line: 2474, col: 5, offset: 79749},
+																	pos: position{line: 2475, col: 5, offset: 79774},
 																	exprs: []interface{}{
 																		&andCodeExpr{
-																			pos: position{line: 2474, col: 5, offset: 79749},
+																			pos: position{line: 2475, col: 5, offset: 79774},
 																			run: (*parser).callonSymbol57,
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 2477, col: 5, offset: 79825},
+																			pos:   position{line: 2478, col: 5, offset: 79850},
 																			label: "element",
 																			expr: &actionExpr{
-																				pos: position{line: 2478, col: 9, offset: 79843},
+																				pos: position{line: 2479, col: 9, offset: 79868},
 																				run: (*parser).callonSymbol59,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2478, col: 10, offset: 79844},
+																					pos:        position{line: 2479, col: 10, offset: 79869},
 																					val:        "[<>&]",
 																					chars:      []rune{'<', '>', '&'},
 																					ignoreCase: false,
@@ -47483,28 +47487,28 @@ var g = &grammar{
 																},
 															},
 															&anyMatcher{
-																line: 2530, col: 51, offset: 81685,
+																line: 2531, col: 51, offset: 81710,
 															},
 														},
 													},
 												},
 											},
 											&seqExpr{
-												pos: position{line: 2530, col: 56, offset: 81690},
+												pos: position{line: 2531, col: 56, offset: 81715},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2530, col: 56, offset: 81690},
+														pos: position{line: 2531, col: 56, offset: 81715},
 														expr: &choiceExpr{
-															pos: position{line: 2530, col: 58, offset: 81692},
+															pos: position{line: 2531, col: 58, offset: 81717},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2530, col: 58, offset: 81692},
+																	pos:        position{line: 2531, col: 58, offset: 81717},
 																	val:        "<-",
 																	ignoreCase: false,
 																	want:       "\"<-\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2530, col: 65, offset: 81699},
+																	pos:        position{line: 2531, col: 65, offset: 81724},
 																	val:        "<=",
 																	ignoreCase: false,
 																	want:       "\"<=\"",
@@ -47513,26 +47517,26 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2530, col: 72, offset: 81706},
+														pos: position{line: 2531, col: 72, offset: 81731},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2474, col: 5, offset: 79749},
+																pos: position{line: 2475, col: 5, offset: 79774},
 																run: (*parser).callonSymbol68,
 																expr: &seqExpr{
-																	pos: position{line: 2474, col: 5, offset: 79749},
+																	pos: position{line: 2475, col: 5, offset: 79774},
 																	exprs: []interface{}{
 																		&andCodeExpr{
-																			pos: position{line: 2474, col: 5, offset: 79749},
+																			pos: position{line: 2475, col: 5, offset: 79774},
 																			run: (*parser).callonSymbol70,
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 2477, col: 5, offset: 79825},
+																			pos:   position{line: 2478, col: 5, offset: 79850},
 																			label: "element",
 																			expr: &actionExpr{
-																				pos: position{line: 2478, col: 9, offset: 79843},
+																				pos: position{line: 2479, col: 9, offset: 79868},
 																				run: (*parser).callonSymbol72,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2478, col: 10, offset: 79844},
+																					pos:        position{line: 2479, col: 10, offset: 79869},
 																					val:        "[<>&]",
 																					chars:      []rune{'<', '>', '&'},
 																					ignoreCase: false,
@@ -47544,12 +47548,12 @@ var g = &grammar{
 																},
 															},
 															&anyMatcher{
-																line: 2530, col: 91, offset: 81725,
+																line: 2531, col: 91, offset: 81750,
 															},
 														},
 													},
 													&anyMatcher{
-														line: 2530, col: 94, offset: 81728,
+														line: 2531, col: 94, offset: 81753,
 													},
 												},
 											},
@@ -47560,73 +47564,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2531, col: 7, offset: 81762},
+						pos:  position{line: 2532, col: 7, offset: 81787},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2556, col: 14, offset: 82611},
+						pos: position{line: 2557, col: 14, offset: 82636},
 						run: (*parser).callonSymbol77,
 						expr: &litMatcher{
-							pos:        position{line: 2556, col: 14, offset: 82611},
+							pos:        position{line: 2557, col: 14, offset: 82636},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2560, col: 14, offset: 82677},
+						pos: position{line: 2561, col: 14, offset: 82702},
 						run: (*parser).callonSymbol79,
 						expr: &litMatcher{
-							pos:        position{line: 2560, col: 14, offset: 82677},
+							pos:        position{line: 2561, col: 14, offset: 82702},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2564, col: 15, offset: 82746},
+						pos: position{line: 2565, col: 15, offset: 82771},
 						run: (*parser).callonSymbol81,
 						expr: &litMatcher{
-							pos:        position{line: 2564, col: 15, offset: 82746},
+							pos:        position{line: 2565, col: 15, offset: 82771},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2568, col: 13, offset: 82811},
+						pos: position{line: 2569, col: 13, offset: 82836},
 						run: (*parser).callonSymbol83,
 						expr: &litMatcher{
-							pos:        position{line: 2568, col: 13, offset: 82811},
+							pos:        position{line: 2569, col: 13, offset: 82836},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2575, col: 5, offset: 82949},
+						pos: position{line: 2576, col: 5, offset: 82974},
 						run: (*parser).callonSymbol85,
 						expr: &seqExpr{
-							pos: position{line: 2575, col: 5, offset: 82949},
+							pos: position{line: 2576, col: 5, offset: 82974},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2575, col: 5, offset: 82949},
+									pos:        position{line: 2576, col: 5, offset: 82974},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2576, col: 5, offset: 82959},
+									pos: position{line: 2577, col: 5, offset: 82984},
 									run: (*parser).callonSymbol88,
 								},
 								&choiceExpr{
-									pos: position{line: 2580, col: 6, offset: 83046},
+									pos: position{line: 2581, col: 6, offset: 83071},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2880, col: 10, offset: 91317},
+											pos: position{line: 2881, col: 10, offset: 91342},
 											run: (*parser).callonSymbol90,
 											expr: &charClassMatcher{
-												pos:        position{line: 2880, col: 10, offset: 91317},
+												pos:        position{line: 2881, col: 10, offset: 91342},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -47634,30 +47638,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2580, col: 14, offset: 83054},
+											pos: position{line: 2581, col: 14, offset: 83079},
 											expr: &choiceExpr{
-												pos: position{line: 2902, col: 8, offset: 91715},
+												pos: position{line: 2903, col: 8, offset: 91740},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2889, col: 12, offset: 91488},
+														pos: position{line: 2890, col: 12, offset: 91513},
 														run: (*parser).callonSymbol94,
 														expr: &choiceExpr{
-															pos: position{line: 2889, col: 13, offset: 91489},
+															pos: position{line: 2890, col: 13, offset: 91514},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2889, col: 13, offset: 91489},
+																	pos:        position{line: 2890, col: 13, offset: 91514},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2889, col: 20, offset: 91496},
+																	pos:        position{line: 2890, col: 20, offset: 91521},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2889, col: 29, offset: 91505},
+																	pos:        position{line: 2890, col: 29, offset: 91530},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -47666,9 +47670,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2899, col: 8, offset: 91665},
+														pos: position{line: 2900, col: 8, offset: 91690},
 														expr: &anyMatcher{
-															line: 2899, col: 9, offset: 91666,
+															line: 2900, col: 9, offset: 91691,
 														},
 													},
 												},
@@ -47680,53 +47684,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2585, col: 5, offset: 83174},
+						pos: position{line: 2586, col: 5, offset: 83199},
 						run: (*parser).callonSymbol101,
 						expr: &seqExpr{
-							pos: position{line: 2585, col: 5, offset: 83174},
+							pos: position{line: 2586, col: 5, offset: 83199},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2585, col: 5, offset: 83174},
+									pos:        position{line: 2586, col: 5, offset: 83199},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2586, col: 5, offset: 83184},
+									pos: position{line: 2587, col: 5, offset: 83209},
 									run: (*parser).callonSymbol104,
 								},
 								&andExpr{
-									pos: position{line: 2590, col: 5, offset: 83273},
+									pos: position{line: 2591, col: 5, offset: 83298},
 									expr: &choiceExpr{
-										pos: position{line: 2590, col: 7, offset: 83275},
+										pos: position{line: 2591, col: 7, offset: 83300},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2770, col: 13, offset: 88391},
+												pos:        position{line: 2771, col: 13, offset: 88416},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2889, col: 12, offset: 91488},
+												pos: position{line: 2890, col: 12, offset: 91513},
 												run: (*parser).callonSymbol108,
 												expr: &choiceExpr{
-													pos: position{line: 2889, col: 13, offset: 91489},
+													pos: position{line: 2890, col: 13, offset: 91514},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2889, col: 13, offset: 91489},
+															pos:        position{line: 2890, col: 13, offset: 91514},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2889, col: 20, offset: 91496},
+															pos:        position{line: 2890, col: 20, offset: 91521},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2889, col: 29, offset: 91505},
+															pos:        position{line: 2890, col: 29, offset: 91530},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -47735,9 +47739,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2899, col: 8, offset: 91665},
+												pos: position{line: 2900, col: 8, offset: 91690},
 												expr: &anyMatcher{
-													line: 2899, col: 9, offset: 91666,
+													line: 2900, col: 9, offset: 91691,
 												},
 											},
 										},
@@ -47747,40 +47751,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2596, col: 21, offset: 83363},
+						pos: position{line: 2597, col: 21, offset: 83388},
 						run: (*parser).callonSymbol115,
 						expr: &litMatcher{
-							pos:        position{line: 2596, col: 21, offset: 83363},
+							pos:        position{line: 2597, col: 21, offset: 83388},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2600, col: 20, offset: 83433},
+						pos: position{line: 2601, col: 20, offset: 83458},
 						run: (*parser).callonSymbol117,
 						expr: &litMatcher{
-							pos:        position{line: 2600, col: 20, offset: 83433},
+							pos:        position{line: 2601, col: 20, offset: 83458},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2604, col: 21, offset: 83504},
+						pos: position{line: 2605, col: 21, offset: 83529},
 						run: (*parser).callonSymbol119,
 						expr: &litMatcher{
-							pos:        position{line: 2604, col: 21, offset: 83504},
+							pos:        position{line: 2605, col: 21, offset: 83529},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2608, col: 20, offset: 83574},
+						pos: position{line: 2609, col: 20, offset: 83599},
 						run: (*parser).callonSymbol121,
 						expr: &litMatcher{
-							pos:        position{line: 2608, col: 20, offset: 83574},
+							pos:        position{line: 2609, col: 20, offset: 83599},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -47791,43 +47795,43 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2542, col: 1, offset: 81952},
+			pos:  position{line: 2543, col: 1, offset: 81977},
 			expr: &choiceExpr{
-				pos: position{line: 2543, col: 5, offset: 81974},
+				pos: position{line: 2544, col: 5, offset: 81999},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2543, col: 5, offset: 81974},
+						pos: position{line: 2544, col: 5, offset: 81999},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2543, col: 5, offset: 81974},
+							pos: position{line: 2544, col: 5, offset: 81999},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2543, col: 5, offset: 81974},
+									pos:        position{line: 2544, col: 5, offset: 81999},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2543, col: 11, offset: 81980},
+									pos: position{line: 2544, col: 11, offset: 82005},
 									expr: &seqExpr{
-										pos: position{line: 2091, col: 5, offset: 67815},
+										pos: position{line: 2092, col: 5, offset: 67840},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2091, col: 5, offset: 67815},
+												pos:        position{line: 2092, col: 5, offset: 67840},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2092, col: 5, offset: 67824},
+												pos: position{line: 2093, col: 5, offset: 67849},
 												run: (*parser).callonQuotationMark8,
 											},
 											&andExpr{
-												pos: position{line: 2096, col: 5, offset: 67947},
+												pos: position{line: 2097, col: 5, offset: 67972},
 												expr: &notExpr{
-													pos: position{line: 2096, col: 7, offset: 67949},
+													pos: position{line: 2097, col: 7, offset: 67974},
 													expr: &litMatcher{
-														pos:        position{line: 2096, col: 8, offset: 67950},
+														pos:        position{line: 2097, col: 8, offset: 67975},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -47841,21 +47845,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2546, col: 7, offset: 82133},
+						pos: position{line: 2547, col: 7, offset: 82158},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2546, col: 7, offset: 82133},
+							pos: position{line: 2547, col: 7, offset: 82158},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2546, col: 7, offset: 82133},
+									pos:        position{line: 2547, col: 7, offset: 82158},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2546, col: 13, offset: 82139},
+									pos: position{line: 2547, col: 13, offset: 82164},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2546, col: 14, offset: 82140},
+										pos:  position{line: 2547, col: 14, offset: 82165},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -47863,38 +47867,38 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2549, col: 7, offset: 82290},
+						pos: position{line: 2550, col: 7, offset: 82315},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2549, col: 7, offset: 82290},
+							pos: position{line: 2550, col: 7, offset: 82315},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2549, col: 7, offset: 82290},
+									pos:        position{line: 2550, col: 7, offset: 82315},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2549, col: 12, offset: 82295},
+									pos: position{line: 2550, col: 12, offset: 82320},
 									expr: &seqExpr{
-										pos: position{line: 2091, col: 5, offset: 67815},
+										pos: position{line: 2092, col: 5, offset: 67840},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2091, col: 5, offset: 67815},
+												pos:        position{line: 2092, col: 5, offset: 67840},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2092, col: 5, offset: 67824},
+												pos: position{line: 2093, col: 5, offset: 67849},
 												run: (*parser).callonQuotationMark23,
 											},
 											&andExpr{
-												pos: position{line: 2096, col: 5, offset: 67947},
+												pos: position{line: 2097, col: 5, offset: 67972},
 												expr: &notExpr{
-													pos: position{line: 2096, col: 7, offset: 67949},
+													pos: position{line: 2097, col: 7, offset: 67974},
 													expr: &litMatcher{
-														pos:        position{line: 2096, col: 8, offset: 67950},
+														pos:        position{line: 2097, col: 8, offset: 67975},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -47908,21 +47912,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2552, col: 7, offset: 82448},
+						pos: position{line: 2553, col: 7, offset: 82473},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2552, col: 7, offset: 82448},
+							pos: position{line: 2553, col: 7, offset: 82473},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2552, col: 7, offset: 82448},
+									pos:        position{line: 2553, col: 7, offset: 82473},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2552, col: 12, offset: 82453},
+									pos: position{line: 2553, col: 12, offset: 82478},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2552, col: 13, offset: 82454},
+										pos:  position{line: 2553, col: 13, offset: 82479},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -47934,63 +47938,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2685, col: 1, offset: 85476},
+			pos:  position{line: 2686, col: 1, offset: 85501},
 			expr: &actionExpr{
-				pos: position{line: 2685, col: 26, offset: 85501},
+				pos: position{line: 2686, col: 26, offset: 85526},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2685, col: 26, offset: 85501},
+					pos: position{line: 2686, col: 26, offset: 85526},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2685, col: 26, offset: 85501},
+							pos:   position{line: 2686, col: 26, offset: 85526},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2685, col: 31, offset: 85506},
+								pos: position{line: 2686, col: 31, offset: 85531},
 								expr: &actionExpr{
-									pos: position{line: 2690, col: 5, offset: 85569},
+									pos: position{line: 2691, col: 5, offset: 85594},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2690, col: 5, offset: 85569},
+										pos: position{line: 2691, col: 5, offset: 85594},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2897, col: 11, offset: 91651},
+												pos: position{line: 2898, col: 11, offset: 91676},
 												expr: &anyMatcher{
-													line: 2897, col: 13, offset: 91653,
+													line: 2898, col: 13, offset: 91678,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2693, col: 5, offset: 85695},
+												pos:   position{line: 2694, col: 5, offset: 85720},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2693, col: 16, offset: 85706},
+													pos: position{line: 2694, col: 16, offset: 85731},
 													expr: &actionExpr{
-														pos: position{line: 2693, col: 17, offset: 85707},
+														pos: position{line: 2694, col: 17, offset: 85732},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2693, col: 17, offset: 85707},
+															pos: position{line: 2694, col: 17, offset: 85732},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2693, col: 17, offset: 85707},
+																	pos:   position{line: 2694, col: 17, offset: 85732},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2872, col: 12, offset: 91144},
+																		pos: position{line: 2873, col: 12, offset: 91169},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2872, col: 13, offset: 91145},
+																			pos: position{line: 2873, col: 13, offset: 91170},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2872, col: 13, offset: 91145},
+																					pos: position{line: 2873, col: 13, offset: 91170},
 																					expr: &litMatcher{
-																						pos:        position{line: 2872, col: 13, offset: 91145},
+																						pos:        position{line: 2873, col: 13, offset: 91170},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2872, col: 18, offset: 91150},
+																					pos: position{line: 2873, col: 18, offset: 91175},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2872, col: 18, offset: 91150},
+																						pos:        position{line: 2873, col: 18, offset: 91175},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -48002,7 +48006,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2693, col: 27, offset: 85717},
+																	pos:        position{line: 2694, col: 27, offset: 85742},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -48013,38 +48017,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2694, col: 5, offset: 85745},
+												pos:   position{line: 2695, col: 5, offset: 85770},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2694, col: 12, offset: 85752},
+													pos: position{line: 2695, col: 12, offset: 85777},
 													expr: &choiceExpr{
-														pos: position{line: 2695, col: 9, offset: 85762},
+														pos: position{line: 2696, col: 9, offset: 85787},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2695, col: 9, offset: 85762},
+																pos: position{line: 2696, col: 9, offset: 85787},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2695, col: 9, offset: 85762},
+																	pos:        position{line: 2696, col: 9, offset: 85787},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2696, col: 11, offset: 85809},
+																pos: position{line: 2697, col: 11, offset: 85834},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2696, col: 11, offset: 85809},
+																	pos:        position{line: 2697, col: 11, offset: 85834},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2697, col: 11, offset: 85857},
+																pos: position{line: 2698, col: 11, offset: 85882},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2697, col: 11, offset: 85857},
+																	pos:        position{line: 2698, col: 11, offset: 85882},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -48055,38 +48059,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2699, col: 5, offset: 85907},
+												pos:   position{line: 2700, col: 5, offset: 85932},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2699, col: 12, offset: 85914},
+													pos: position{line: 2700, col: 12, offset: 85939},
 													expr: &choiceExpr{
-														pos: position{line: 2700, col: 9, offset: 85924},
+														pos: position{line: 2701, col: 9, offset: 85949},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2700, col: 9, offset: 85924},
+																pos: position{line: 2701, col: 9, offset: 85949},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2700, col: 9, offset: 85924},
+																	pos:        position{line: 2701, col: 9, offset: 85949},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2701, col: 11, offset: 85971},
+																pos: position{line: 2702, col: 11, offset: 85996},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2701, col: 11, offset: 85971},
+																	pos:        position{line: 2702, col: 11, offset: 85996},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2702, col: 11, offset: 86021},
+																pos: position{line: 2703, col: 11, offset: 86046},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2702, col: 11, offset: 86021},
+																	pos:        position{line: 2703, col: 11, offset: 86046},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -48097,32 +48101,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2704, col: 5, offset: 86072},
+												pos:   position{line: 2705, col: 5, offset: 86097},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2704, col: 12, offset: 86079},
+													pos: position{line: 2705, col: 12, offset: 86104},
 													expr: &choiceExpr{
-														pos: position{line: 2704, col: 13, offset: 86080},
+														pos: position{line: 2705, col: 13, offset: 86105},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2872, col: 12, offset: 91144},
+																pos: position{line: 2873, col: 12, offset: 91169},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2872, col: 13, offset: 91145},
+																	pos: position{line: 2873, col: 13, offset: 91170},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2872, col: 13, offset: 91145},
+																			pos: position{line: 2873, col: 13, offset: 91170},
 																			expr: &litMatcher{
-																				pos:        position{line: 2872, col: 13, offset: 91145},
+																				pos:        position{line: 2873, col: 13, offset: 91170},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2872, col: 18, offset: 91150},
+																			pos: position{line: 2873, col: 18, offset: 91175},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2872, col: 18, offset: 91150},
+																				pos:        position{line: 2873, col: 18, offset: 91175},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -48133,10 +48137,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2704, col: 24, offset: 86091},
+																pos: position{line: 2705, col: 24, offset: 86116},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2704, col: 24, offset: 86091},
+																	pos:        position{line: 2705, col: 24, offset: 86116},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -48147,15 +48151,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2705, col: 5, offset: 86133},
+												pos:   position{line: 2706, col: 5, offset: 86158},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2705, col: 11, offset: 86139},
+													pos: position{line: 2706, col: 11, offset: 86164},
 													expr: &actionExpr{
-														pos: position{line: 2705, col: 12, offset: 86140},
+														pos: position{line: 2706, col: 12, offset: 86165},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2705, col: 12, offset: 86140},
+															pos:        position{line: 2706, col: 12, offset: 86165},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -48165,12 +48169,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2707, col: 5, offset: 86270},
+												pos:   position{line: 2708, col: 5, offset: 86295},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2707, col: 11, offset: 86276},
+													pos: position{line: 2708, col: 11, offset: 86301},
 													expr: &litMatcher{
-														pos:        position{line: 2707, col: 12, offset: 86277},
+														pos:        position{line: 2708, col: 12, offset: 86302},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -48178,7 +48182,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2708, col: 5, offset: 86287},
+												pos: position{line: 2709, col: 5, offset: 86312},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -48187,9 +48191,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2899, col: 8, offset: 91665},
+							pos: position{line: 2900, col: 8, offset: 91690},
 							expr: &anyMatcher{
-								line: 2899, col: 9, offset: 91666,
+								line: 2900, col: 9, offset: 91691,
 							},
 						},
 					},
@@ -48198,23 +48202,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2735, col: 1, offset: 87291},
+			pos:  position{line: 2736, col: 1, offset: 87316},
 			expr: &actionExpr{
-				pos: position{line: 2736, col: 5, offset: 87314},
+				pos: position{line: 2737, col: 5, offset: 87339},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2736, col: 5, offset: 87314},
+					pos: position{line: 2737, col: 5, offset: 87339},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2736, col: 5, offset: 87314},
+							pos:   position{line: 2737, col: 5, offset: 87339},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2759, col: 18, offset: 88055},
+								pos: position{line: 2760, col: 18, offset: 88080},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2759, col: 19, offset: 88056},
+									pos: position{line: 2760, col: 19, offset: 88081},
 									expr: &charClassMatcher{
-										pos:        position{line: 2759, col: 19, offset: 88056},
+										pos:        position{line: 2760, col: 19, offset: 88081},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48225,25 +48229,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2737, col: 5, offset: 87340},
+							pos: position{line: 2738, col: 5, offset: 87365},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2741, col: 5, offset: 87468},
+							pos:        position{line: 2742, col: 5, offset: 87493},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2742, col: 5, offset: 87478},
+							pos:   position{line: 2743, col: 5, offset: 87503},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2763, col: 19, offset: 88131},
+								pos: position{line: 2764, col: 19, offset: 88156},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2763, col: 19, offset: 88131},
+									pos: position{line: 2764, col: 19, offset: 88156},
 									expr: &charClassMatcher{
-										pos:        position{line: 2763, col: 19, offset: 88131},
+										pos:        position{line: 2764, col: 19, offset: 88156},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -48253,36 +48257,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2743, col: 5, offset: 87506},
+							pos:   position{line: 2744, col: 5, offset: 87531},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2743, col: 17, offset: 87518},
+								pos:  position{line: 2744, col: 17, offset: 87543},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2902, col: 8, offset: 91715},
+							pos: position{line: 2903, col: 8, offset: 91740},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2889, col: 12, offset: 91488},
+									pos: position{line: 2890, col: 12, offset: 91513},
 									run: (*parser).callonUserMacroBlock16,
 									expr: &choiceExpr{
-										pos: position{line: 2889, col: 13, offset: 91489},
+										pos: position{line: 2890, col: 13, offset: 91514},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2889, col: 13, offset: 91489},
+												pos:        position{line: 2890, col: 13, offset: 91514},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2889, col: 20, offset: 91496},
+												pos:        position{line: 2890, col: 20, offset: 91521},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2889, col: 29, offset: 91505},
+												pos:        position{line: 2890, col: 29, offset: 91530},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -48291,9 +48295,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2899, col: 8, offset: 91665},
+									pos: position{line: 2900, col: 8, offset: 91690},
 									expr: &anyMatcher{
-										line: 2899, col: 9, offset: 91666,
+										line: 2900, col: 9, offset: 91691,
 									},
 								},
 							},
@@ -48304,23 +48308,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2747, col: 1, offset: 87666},
+			pos:  position{line: 2748, col: 1, offset: 87691},
 			expr: &actionExpr{
-				pos: position{line: 2748, col: 5, offset: 87690},
+				pos: position{line: 2749, col: 5, offset: 87715},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2748, col: 5, offset: 87690},
+					pos: position{line: 2749, col: 5, offset: 87715},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2748, col: 5, offset: 87690},
+							pos:   position{line: 2749, col: 5, offset: 87715},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2759, col: 18, offset: 88055},
+								pos: position{line: 2760, col: 18, offset: 88080},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2759, col: 19, offset: 88056},
+									pos: position{line: 2760, col: 19, offset: 88081},
 									expr: &charClassMatcher{
-										pos:        position{line: 2759, col: 19, offset: 88056},
+										pos:        position{line: 2760, col: 19, offset: 88081},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48331,25 +48335,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2749, col: 5, offset: 87716},
+							pos: position{line: 2750, col: 5, offset: 87741},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2753, col: 5, offset: 87844},
+							pos:        position{line: 2754, col: 5, offset: 87869},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2754, col: 5, offset: 87853},
+							pos:   position{line: 2755, col: 5, offset: 87878},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2763, col: 19, offset: 88131},
+								pos: position{line: 2764, col: 19, offset: 88156},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2763, col: 19, offset: 88131},
+									pos: position{line: 2764, col: 19, offset: 88156},
 									expr: &charClassMatcher{
-										pos:        position{line: 2763, col: 19, offset: 88131},
+										pos:        position{line: 2764, col: 19, offset: 88156},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -48359,10 +48363,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2755, col: 5, offset: 87881},
+							pos:   position{line: 2756, col: 5, offset: 87906},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2755, col: 17, offset: 87893},
+								pos:  position{line: 2756, col: 17, offset: 87918},
 								name: "InlineAttributes",
 							},
 						},
@@ -48372,43 +48376,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2834, col: 1, offset: 89964},
+			pos:  position{line: 2835, col: 1, offset: 89989},
 			expr: &actionExpr{
-				pos: position{line: 2834, col: 17, offset: 89980},
+				pos: position{line: 2835, col: 17, offset: 90005},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2834, col: 17, offset: 89980},
+					pos:   position{line: 2835, col: 17, offset: 90005},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2851, col: 5, offset: 90434},
+						pos: position{line: 2852, col: 5, offset: 90459},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2851, col: 5, offset: 90434},
+							pos:   position{line: 2852, col: 5, offset: 90459},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2851, col: 14, offset: 90443},
+								pos: position{line: 2852, col: 14, offset: 90468},
 								expr: &choiceExpr{
-									pos: position{line: 2852, col: 9, offset: 90453},
+									pos: position{line: 2853, col: 9, offset: 90478},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2852, col: 9, offset: 90453},
+											pos: position{line: 2853, col: 9, offset: 90478},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2852, col: 9, offset: 90453},
+												pos: position{line: 2853, col: 9, offset: 90478},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2852, col: 9, offset: 90453},
+														pos: position{line: 2853, col: 9, offset: 90478},
 														expr: &litMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90454},
+															pos:        position{line: 2853, col: 10, offset: 90479},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2853, col: 9, offset: 90482},
+														pos: position{line: 2854, col: 9, offset: 90507},
 														expr: &charClassMatcher{
-															pos:        position{line: 2853, col: 10, offset: 90483},
+															pos:        position{line: 2854, col: 10, offset: 90508},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -48419,27 +48423,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2856, col: 11, offset: 90695},
+											pos: position{line: 2857, col: 11, offset: 90720},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2856, col: 11, offset: 90695},
+													pos:        position{line: 2857, col: 11, offset: 90720},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2856, col: 19, offset: 90703},
+													pos: position{line: 2857, col: 19, offset: 90728},
 													expr: &seqExpr{
-														pos: position{line: 2856, col: 21, offset: 90705},
+														pos: position{line: 2857, col: 21, offset: 90730},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2856, col: 21, offset: 90705},
+																pos: position{line: 2857, col: 21, offset: 90730},
 																expr: &actionExpr{
-																	pos: position{line: 2880, col: 10, offset: 91317},
+																	pos: position{line: 2881, col: 10, offset: 91342},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2880, col: 10, offset: 91317},
+																		pos:        position{line: 2881, col: 10, offset: 91342},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -48448,11 +48452,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2856, col: 28, offset: 90712},
+																pos: position{line: 2857, col: 28, offset: 90737},
 																expr: &notExpr{
-																	pos: position{line: 2899, col: 8, offset: 91665},
+																	pos: position{line: 2900, col: 8, offset: 91690},
 																	expr: &anyMatcher{
-																		line: 2899, col: 9, offset: 91666,
+																		line: 2900, col: 9, offset: 91691,
 																	},
 																},
 															},
@@ -48851,10 +48855,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2859, col: 11, offset: 90832},
+											pos: position{line: 2860, col: 11, offset: 90857},
 											run: (*parser).callonFileLocation101,
 											expr: &litMatcher{
-												pos:        position{line: 2859, col: 11, offset: 90832},
+												pos:        position{line: 2860, col: 11, offset: 90857},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -67817,707 +67821,707 @@ func (p *parser) callonListContinuationElement1297() (interface{}, error) {
 	return p.cur.onListContinuationElement1297()
 }
 
-func (c *current) onListContinuationElement1334() (interface{}, error) {
+func (c *current) onListContinuationElement1335() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1334() (interface{}, error) {
+func (p *parser) callonListContinuationElement1335() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1334()
+	return p.cur.onListContinuationElement1335()
 }
 
-func (c *current) onListContinuationElement1337() (interface{}, error) {
+func (c *current) onListContinuationElement1338() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1337() (interface{}, error) {
+func (p *parser) callonListContinuationElement1338() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1337()
+	return p.cur.onListContinuationElement1338()
 }
 
-func (c *current) onListContinuationElement1352() (interface{}, error) {
+func (c *current) onListContinuationElement1353() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1352() (interface{}, error) {
+func (p *parser) callonListContinuationElement1353() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1352()
+	return p.cur.onListContinuationElement1353()
 }
 
-func (c *current) onListContinuationElement1355() (interface{}, error) {
+func (c *current) onListContinuationElement1356() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1355() (interface{}, error) {
+func (p *parser) callonListContinuationElement1356() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1355()
+	return p.cur.onListContinuationElement1356()
 }
 
-func (c *current) onListContinuationElement1347() (interface{}, error) {
+func (c *current) onListContinuationElement1348() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1347() (interface{}, error) {
+func (p *parser) callonListContinuationElement1348() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1347()
+	return p.cur.onListContinuationElement1348()
 }
 
-func (c *current) onListContinuationElement1369() (interface{}, error) {
+func (c *current) onListContinuationElement1370() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1369() (interface{}, error) {
+func (p *parser) callonListContinuationElement1370() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1369()
+	return p.cur.onListContinuationElement1370()
 }
 
-func (c *current) onListContinuationElement1372() (interface{}, error) {
+func (c *current) onListContinuationElement1373() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1372() (interface{}, error) {
+func (p *parser) callonListContinuationElement1373() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1372()
+	return p.cur.onListContinuationElement1373()
 }
 
-func (c *current) onListContinuationElement1394() (interface{}, error) {
+func (c *current) onListContinuationElement1395() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1394() (interface{}, error) {
+func (p *parser) callonListContinuationElement1395() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1394()
+	return p.cur.onListContinuationElement1395()
 }
 
-func (c *current) onListContinuationElement1399() (interface{}, error) {
+func (c *current) onListContinuationElement1400() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1399() (interface{}, error) {
+func (p *parser) callonListContinuationElement1400() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1399()
+	return p.cur.onListContinuationElement1400()
 }
 
-func (c *current) onListContinuationElement1397(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1398(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1397() (interface{}, error) {
+func (p *parser) callonListContinuationElement1398() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1397(stack["content"])
+	return p.cur.onListContinuationElement1398(stack["content"])
 }
 
-func (c *current) onListContinuationElement1390(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1391(content interface{}) (interface{}, error) {
 	return types.NewInlineTableCell(content.(*types.RawLine))
 
 }
 
-func (p *parser) callonListContinuationElement1390() (interface{}, error) {
+func (p *parser) callonListContinuationElement1391() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1390(stack["content"])
+	return p.cur.onListContinuationElement1391(stack["content"])
 }
 
-func (c *current) onListContinuationElement1403() (interface{}, error) {
+func (c *current) onListContinuationElement1404() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1403() (interface{}, error) {
+func (p *parser) callonListContinuationElement1404() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1403()
+	return p.cur.onListContinuationElement1404()
 }
 
-func (c *current) onListContinuationElement1386(cells interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1387(cells interface{}) (interface{}, error) {
 
 	return cells, nil
 }
 
-func (p *parser) callonListContinuationElement1386() (interface{}, error) {
+func (p *parser) callonListContinuationElement1387() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1386(stack["cells"])
+	return p.cur.onListContinuationElement1387(stack["cells"])
 }
 
-func (c *current) onListContinuationElement1420() (interface{}, error) {
+func (c *current) onListContinuationElement1421() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1420() (interface{}, error) {
+func (p *parser) callonListContinuationElement1421() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1420()
+	return p.cur.onListContinuationElement1421()
 }
 
-func (c *current) onListContinuationElement1423() (interface{}, error) {
+func (c *current) onListContinuationElement1424() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1423() (interface{}, error) {
+func (p *parser) callonListContinuationElement1424() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1423()
+	return p.cur.onListContinuationElement1424()
 }
 
-func (c *current) onListContinuationElement1438() (interface{}, error) {
+func (c *current) onListContinuationElement1439() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1438() (interface{}, error) {
+func (p *parser) callonListContinuationElement1439() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1438()
+	return p.cur.onListContinuationElement1439()
 }
 
-func (c *current) onListContinuationElement1441() (interface{}, error) {
+func (c *current) onListContinuationElement1442() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1441() (interface{}, error) {
+func (p *parser) callonListContinuationElement1442() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1441()
+	return p.cur.onListContinuationElement1442()
 }
 
-func (c *current) onListContinuationElement1433() (interface{}, error) {
+func (c *current) onListContinuationElement1434() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1433() (interface{}, error) {
+func (p *parser) callonListContinuationElement1434() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1433()
+	return p.cur.onListContinuationElement1434()
 }
 
-func (c *current) onListContinuationElement1450() (interface{}, error) {
+func (c *current) onListContinuationElement1451() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1450() (interface{}, error) {
+func (p *parser) callonListContinuationElement1451() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1450()
+	return p.cur.onListContinuationElement1451()
 }
 
-func (c *current) onListContinuationElement1455() (interface{}, error) {
+func (c *current) onListContinuationElement1456() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1455() (interface{}, error) {
+func (p *parser) callonListContinuationElement1456() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1455()
+	return p.cur.onListContinuationElement1456()
 }
 
-func (c *current) onListContinuationElement1458() (interface{}, error) {
+func (c *current) onListContinuationElement1459() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1458() (interface{}, error) {
+func (p *parser) callonListContinuationElement1459() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1458()
+	return p.cur.onListContinuationElement1459()
 }
 
-func (c *current) onListContinuationElement1472() (interface{}, error) {
+func (c *current) onListContinuationElement1473() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1472() (interface{}, error) {
+func (p *parser) callonListContinuationElement1473() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1472()
+	return p.cur.onListContinuationElement1473()
 }
 
-func (c *current) onListContinuationElement1475() (interface{}, error) {
+func (c *current) onListContinuationElement1476() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1475() (interface{}, error) {
+func (p *parser) callonListContinuationElement1476() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1475()
+	return p.cur.onListContinuationElement1476()
 }
 
-func (c *current) onListContinuationElement1490() (interface{}, error) {
+func (c *current) onListContinuationElement1491() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1490() (interface{}, error) {
+func (p *parser) callonListContinuationElement1491() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1490()
+	return p.cur.onListContinuationElement1491()
 }
 
-func (c *current) onListContinuationElement1493() (interface{}, error) {
+func (c *current) onListContinuationElement1494() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1493() (interface{}, error) {
+func (p *parser) callonListContinuationElement1494() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1493()
+	return p.cur.onListContinuationElement1494()
 }
 
-func (c *current) onListContinuationElement1485() (interface{}, error) {
+func (c *current) onListContinuationElement1486() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1485() (interface{}, error) {
+func (p *parser) callonListContinuationElement1486() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1485()
+	return p.cur.onListContinuationElement1486()
 }
 
-func (c *current) onListContinuationElement1504() (interface{}, error) {
+func (c *current) onListContinuationElement1505() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1504() (interface{}, error) {
+func (p *parser) callonListContinuationElement1505() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1504()
+	return p.cur.onListContinuationElement1505()
 }
 
-func (c *current) onListContinuationElement1509() (interface{}, error) {
+func (c *current) onListContinuationElement1510() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1509() (interface{}, error) {
+func (p *parser) callonListContinuationElement1510() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1509()
+	return p.cur.onListContinuationElement1510()
 }
 
-func (c *current) onListContinuationElement1514() (interface{}, error) {
+func (c *current) onListContinuationElement1515() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1514() (interface{}, error) {
+func (p *parser) callonListContinuationElement1515() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1514()
+	return p.cur.onListContinuationElement1515()
 }
 
-func (c *current) onListContinuationElement1465(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1466(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1465() (interface{}, error) {
+func (p *parser) callonListContinuationElement1466() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1465(stack["content"])
+	return p.cur.onListContinuationElement1466(stack["content"])
 }
 
-func (c *current) onListContinuationElement1413(format, content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1414(format, content interface{}) (interface{}, error) {
 	return types.NewMultilineTableCell(content.([]interface{}), format)
 
 }
 
-func (p *parser) callonListContinuationElement1413() (interface{}, error) {
+func (p *parser) callonListContinuationElement1414() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1413(stack["format"], stack["content"])
+	return p.cur.onListContinuationElement1414(stack["format"], stack["content"])
 }
 
-func (c *current) onListContinuationElement1410(cells interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1411(cells interface{}) (interface{}, error) {
 	return cells, nil
 }
 
-func (p *parser) callonListContinuationElement1410() (interface{}, error) {
+func (p *parser) callonListContinuationElement1411() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1410(stack["cells"])
+	return p.cur.onListContinuationElement1411(stack["cells"])
 }
 
-func (c *current) onListContinuationElement1383(cells interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1384(cells interface{}) (interface{}, error) {
 	return types.NewTableRow(cells.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement1383() (interface{}, error) {
+func (p *parser) callonListContinuationElement1384() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1383(stack["cells"])
+	return p.cur.onListContinuationElement1384(stack["cells"])
 }
 
-func (c *current) onListContinuationElement1526() (interface{}, error) {
+func (c *current) onListContinuationElement1527() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1526() (interface{}, error) {
+func (p *parser) callonListContinuationElement1527() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1526()
+	return p.cur.onListContinuationElement1527()
 }
 
-func (c *current) onListContinuationElement1529() (interface{}, error) {
+func (c *current) onListContinuationElement1530() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1529() (interface{}, error) {
+func (p *parser) callonListContinuationElement1530() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1529()
+	return p.cur.onListContinuationElement1530()
 }
 
-func (c *current) onListContinuationElement1521() (interface{}, error) {
+func (c *current) onListContinuationElement1522() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1521() (interface{}, error) {
+func (p *parser) callonListContinuationElement1522() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1521()
+	return p.cur.onListContinuationElement1522()
 }
 
-func (c *current) onListContinuationElement1362(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1363(content interface{}) (interface{}, error) {
 	return content, nil
 
 }
 
-func (p *parser) callonListContinuationElement1362() (interface{}, error) {
+func (p *parser) callonListContinuationElement1363() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1362(stack["content"])
+	return p.cur.onListContinuationElement1363(stack["content"])
 }
 
-func (c *current) onListContinuationElement1540() (interface{}, error) {
+func (c *current) onListContinuationElement1541() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1540() (interface{}, error) {
+func (p *parser) callonListContinuationElement1541() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1540()
+	return p.cur.onListContinuationElement1541()
 }
 
-func (c *current) onListContinuationElement1543() (interface{}, error) {
+func (c *current) onListContinuationElement1544() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1543() (interface{}, error) {
+func (p *parser) callonListContinuationElement1544() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1543()
+	return p.cur.onListContinuationElement1544()
 }
 
-func (c *current) onListContinuationElement1330(lines interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1331(lines interface{}) (interface{}, error) {
 	return types.NewTable(lines.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement1330() (interface{}, error) {
+func (p *parser) callonListContinuationElement1331() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1330(stack["lines"])
+	return p.cur.onListContinuationElement1331(stack["lines"])
 }
 
-func (c *current) onListContinuationElement1558() (interface{}, error) {
+func (c *current) onListContinuationElement1559() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1558() (interface{}, error) {
+func (p *parser) callonListContinuationElement1559() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1558()
+	return p.cur.onListContinuationElement1559()
 }
 
-func (c *current) onListContinuationElement1562() (interface{}, error) {
+func (c *current) onListContinuationElement1563() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1562() (interface{}, error) {
+func (p *parser) callonListContinuationElement1563() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1562()
+	return p.cur.onListContinuationElement1563()
 }
 
-func (c *current) onListContinuationElement1552(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1553(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1552() (interface{}, error) {
+func (p *parser) callonListContinuationElement1553() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1552(stack["content"])
+	return p.cur.onListContinuationElement1553(stack["content"])
 }
 
-func (c *current) onListContinuationElement1575() (bool, error) {
+func (c *current) onListContinuationElement1576() (bool, error) {
 	return !c.isWithinLiteralParagraph(), nil
 
 }
 
-func (p *parser) callonListContinuationElement1575() (bool, error) {
+func (p *parser) callonListContinuationElement1576() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1575()
+	return p.cur.onListContinuationElement1576()
 }
 
-func (c *current) onListContinuationElement1578() (interface{}, error) {
+func (c *current) onListContinuationElement1579() (interface{}, error) {
 	return types.Tip, nil
 
 }
 
-func (p *parser) callonListContinuationElement1578() (interface{}, error) {
+func (p *parser) callonListContinuationElement1579() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1578()
+	return p.cur.onListContinuationElement1579()
 }
 
-func (c *current) onListContinuationElement1580() (interface{}, error) {
+func (c *current) onListContinuationElement1581() (interface{}, error) {
 	return types.Note, nil
 
 }
 
-func (p *parser) callonListContinuationElement1580() (interface{}, error) {
+func (p *parser) callonListContinuationElement1581() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1580()
+	return p.cur.onListContinuationElement1581()
 }
 
-func (c *current) onListContinuationElement1582() (interface{}, error) {
+func (c *current) onListContinuationElement1583() (interface{}, error) {
 	return types.Important, nil
 
 }
 
-func (p *parser) callonListContinuationElement1582() (interface{}, error) {
+func (p *parser) callonListContinuationElement1583() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1582()
+	return p.cur.onListContinuationElement1583()
 }
 
-func (c *current) onListContinuationElement1584() (interface{}, error) {
+func (c *current) onListContinuationElement1585() (interface{}, error) {
 	return types.Warning, nil
 
 }
 
-func (p *parser) callonListContinuationElement1584() (interface{}, error) {
+func (p *parser) callonListContinuationElement1585() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1584()
+	return p.cur.onListContinuationElement1585()
 }
 
-func (c *current) onListContinuationElement1586() (interface{}, error) {
+func (c *current) onListContinuationElement1587() (interface{}, error) {
 	return types.Caution, nil
 
 }
 
-func (p *parser) callonListContinuationElement1586() (interface{}, error) {
+func (p *parser) callonListContinuationElement1587() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1586()
+	return p.cur.onListContinuationElement1587()
 }
 
-func (c *current) onListContinuationElement1590() (interface{}, error) {
+func (c *current) onListContinuationElement1591() (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1590() (interface{}, error) {
+func (p *parser) callonListContinuationElement1591() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1590()
+	return p.cur.onListContinuationElement1591()
 }
 
-func (c *current) onListContinuationElement1588() (interface{}, error) {
+func (c *current) onListContinuationElement1589() (interface{}, error) {
 	return types.LiteralParagraph, nil
 
 }
 
-func (p *parser) callonListContinuationElement1588() (interface{}, error) {
+func (p *parser) callonListContinuationElement1589() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1588()
+	return p.cur.onListContinuationElement1589()
 }
 
-func (c *current) onListContinuationElement1596() (interface{}, error) {
+func (c *current) onListContinuationElement1597() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1596() (interface{}, error) {
+func (p *parser) callonListContinuationElement1597() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1596()
+	return p.cur.onListContinuationElement1597()
 }
 
-func (c *current) onListContinuationElement1599() (interface{}, error) {
+func (c *current) onListContinuationElement1600() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1599() (interface{}, error) {
+func (p *parser) callonListContinuationElement1600() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1599()
+	return p.cur.onListContinuationElement1600()
 }
 
-func (c *current) onListContinuationElement1573(style interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1574(style interface{}) (interface{}, error) {
 	return style, nil
 
 }
 
-func (p *parser) callonListContinuationElement1573() (interface{}, error) {
+func (p *parser) callonListContinuationElement1574() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1573(stack["style"])
+	return p.cur.onListContinuationElement1574(stack["style"])
 }
 
-func (c *current) onListContinuationElement1615() (interface{}, error) {
+func (c *current) onListContinuationElement1616() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1615() (interface{}, error) {
+func (p *parser) callonListContinuationElement1616() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1615()
+	return p.cur.onListContinuationElement1616()
 }
 
-func (c *current) onListContinuationElement1618() (interface{}, error) {
+func (c *current) onListContinuationElement1619() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1618() (interface{}, error) {
+func (p *parser) callonListContinuationElement1619() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1618()
+	return p.cur.onListContinuationElement1619()
 }
 
-func (c *current) onListContinuationElement1610() (interface{}, error) {
+func (c *current) onListContinuationElement1611() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1610() (interface{}, error) {
+func (p *parser) callonListContinuationElement1611() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1610()
+	return p.cur.onListContinuationElement1611()
 }
 
-func (c *current) onListContinuationElement1629() (interface{}, error) {
+func (c *current) onListContinuationElement1630() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1629() (interface{}, error) {
+func (p *parser) callonListContinuationElement1630() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1629()
+	return p.cur.onListContinuationElement1630()
 }
 
-func (c *current) onListContinuationElement1631() (interface{}, error) {
+func (c *current) onListContinuationElement1632() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1631() (interface{}, error) {
+func (p *parser) callonListContinuationElement1632() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1631()
+	return p.cur.onListContinuationElement1632()
 }
 
-func (c *current) onListContinuationElement1640() (interface{}, error) {
+func (c *current) onListContinuationElement1641() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1640() (interface{}, error) {
+func (p *parser) callonListContinuationElement1641() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1640()
+	return p.cur.onListContinuationElement1641()
 }
 
-func (c *current) onListContinuationElement1647() (interface{}, error) {
+func (c *current) onListContinuationElement1648() (interface{}, error) {
 
 	// `.` is 1, etc.
 	return (len(c.text)), nil
 
 }
 
-func (p *parser) callonListContinuationElement1647() (interface{}, error) {
+func (p *parser) callonListContinuationElement1648() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1647()
+	return p.cur.onListContinuationElement1648()
 }
 
-func (c *current) onListContinuationElement1650(depth interface{}) (bool, error) {
+func (c *current) onListContinuationElement1651(depth interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `.` to `.....` are allowed
 	return depth.(int) <= 5, nil
 
 }
 
-func (p *parser) callonListContinuationElement1650() (bool, error) {
+func (p *parser) callonListContinuationElement1651() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1650(stack["depth"])
+	return p.cur.onListContinuationElement1651(stack["depth"])
 }
 
-func (c *current) onListContinuationElement1644(depth interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1645(depth interface{}) (interface{}, error) {
 	switch depth.(int) {
 	case 1:
 		return types.NewOrderedListElementPrefix(types.Arabic)
@@ -68533,756 +68537,756 @@ func (c *current) onListContinuationElement1644(depth interface{}) (interface{},
 
 }
 
-func (p *parser) callonListContinuationElement1644() (interface{}, error) {
+func (p *parser) callonListContinuationElement1645() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1644(stack["depth"])
+	return p.cur.onListContinuationElement1645(stack["depth"])
 }
 
-func (c *current) onListContinuationElement1651() (interface{}, error) {
+func (c *current) onListContinuationElement1652() (interface{}, error) {
 	// numbering style: "1.", etc.
 	return types.NewOrderedListElementPrefix(types.Arabic)
 
 }
 
-func (p *parser) callonListContinuationElement1651() (interface{}, error) {
+func (p *parser) callonListContinuationElement1652() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1651()
+	return p.cur.onListContinuationElement1652()
 }
 
-func (c *current) onListContinuationElement1656() (interface{}, error) {
+func (c *current) onListContinuationElement1657() (interface{}, error) {
 	// numbering style: "a.", etc.
 	return types.NewOrderedListElementPrefix(types.LowerAlpha)
 
 }
 
-func (p *parser) callonListContinuationElement1656() (interface{}, error) {
+func (p *parser) callonListContinuationElement1657() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1656()
+	return p.cur.onListContinuationElement1657()
 }
 
-func (c *current) onListContinuationElement1660() (interface{}, error) {
+func (c *current) onListContinuationElement1661() (interface{}, error) {
 	// numbering style: "A.", etc.
 	return types.NewOrderedListElementPrefix(types.UpperAlpha)
 
 }
 
-func (p *parser) callonListContinuationElement1660() (interface{}, error) {
+func (p *parser) callonListContinuationElement1661() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1660()
+	return p.cur.onListContinuationElement1661()
 }
 
-func (c *current) onListContinuationElement1664() (interface{}, error) {
+func (c *current) onListContinuationElement1665() (interface{}, error) {
 	// numbering style: "i)", etc.
 	return types.NewOrderedListElementPrefix(types.LowerRoman)
 
 }
 
-func (p *parser) callonListContinuationElement1664() (interface{}, error) {
+func (p *parser) callonListContinuationElement1665() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1664()
+	return p.cur.onListContinuationElement1665()
 }
 
-func (c *current) onListContinuationElement1669() (interface{}, error) {
+func (c *current) onListContinuationElement1670() (interface{}, error) {
 	// numbering style: "I)", etc.
 	return types.NewOrderedListElementPrefix(types.UpperRoman)
 
 }
 
-func (p *parser) callonListContinuationElement1669() (interface{}, error) {
+func (p *parser) callonListContinuationElement1670() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1669()
+	return p.cur.onListContinuationElement1670()
 }
 
-func (c *current) onListContinuationElement1674(prefix interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1675(prefix interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1674() (interface{}, error) {
+func (p *parser) callonListContinuationElement1675() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1674(stack["prefix"])
+	return p.cur.onListContinuationElement1675(stack["prefix"])
 }
 
-func (c *current) onListContinuationElement1637(prefix interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1638(prefix interface{}) (interface{}, error) {
 	return prefix, nil
 }
 
-func (p *parser) callonListContinuationElement1637() (interface{}, error) {
+func (p *parser) callonListContinuationElement1638() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1637(stack["prefix"])
+	return p.cur.onListContinuationElement1638(stack["prefix"])
 }
 
-func (c *current) onListContinuationElement1681() (interface{}, error) {
+func (c *current) onListContinuationElement1682() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1681() (interface{}, error) {
+func (p *parser) callonListContinuationElement1682() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1681()
+	return p.cur.onListContinuationElement1682()
 }
 
-func (c *current) onListContinuationElement1684() (interface{}, error) {
+func (c *current) onListContinuationElement1685() (interface{}, error) {
 	// `-` or `*` to `*****`
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1684() (interface{}, error) {
+func (p *parser) callonListContinuationElement1685() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1684()
+	return p.cur.onListContinuationElement1685()
 }
 
-func (c *current) onListContinuationElement1689(style interface{}) (bool, error) {
+func (c *current) onListContinuationElement1690(style interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `*` to `*****` are allowed
 	return len(style.(string)) <= 5, nil
 
 }
 
-func (p *parser) callonListContinuationElement1689() (bool, error) {
+func (p *parser) callonListContinuationElement1690() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1689(stack["style"])
+	return p.cur.onListContinuationElement1690(stack["style"])
 }
 
-func (c *current) onListContinuationElement1690(style interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1691(style interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1690() (interface{}, error) {
+func (p *parser) callonListContinuationElement1691() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1690(stack["style"])
+	return p.cur.onListContinuationElement1691(stack["style"])
 }
 
-func (c *current) onListContinuationElement1678(style interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1679(style interface{}) (interface{}, error) {
 	return types.NewUnorderedListElementPrefix(style.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1678() (interface{}, error) {
+func (p *parser) callonListContinuationElement1679() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1678(stack["style"])
+	return p.cur.onListContinuationElement1679(stack["style"])
 }
 
-func (c *current) onListContinuationElement1698() (interface{}, error) {
+func (c *current) onListContinuationElement1699() (interface{}, error) {
 	return strconv.Atoi(string(c.text))
 }
 
-func (p *parser) callonListContinuationElement1698() (interface{}, error) {
+func (p *parser) callonListContinuationElement1699() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1698()
+	return p.cur.onListContinuationElement1699()
 }
 
-func (c *current) onListContinuationElement1702(ref interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1703(ref interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1702() (interface{}, error) {
+func (p *parser) callonListContinuationElement1703() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1702(stack["ref"])
+	return p.cur.onListContinuationElement1703(stack["ref"])
 }
 
-func (c *current) onListContinuationElement1694(ref interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1695(ref interface{}) (interface{}, error) {
 	return ref, nil
 
 }
 
-func (p *parser) callonListContinuationElement1694() (interface{}, error) {
+func (p *parser) callonListContinuationElement1695() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1694(stack["ref"])
+	return p.cur.onListContinuationElement1695(stack["ref"])
 }
 
-func (c *current) onListContinuationElement1720() (interface{}, error) {
+func (c *current) onListContinuationElement1721() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1720() (interface{}, error) {
+func (p *parser) callonListContinuationElement1721() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1720()
+	return p.cur.onListContinuationElement1721()
 }
 
-func (c *current) onListContinuationElement1723(separator interface{}) (bool, error) {
+func (c *current) onListContinuationElement1724(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonListContinuationElement1723() (bool, error) {
+func (p *parser) callonListContinuationElement1724() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1723(stack["separator"])
+	return p.cur.onListContinuationElement1724(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1717(separator interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1718(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonListContinuationElement1717() (interface{}, error) {
+func (p *parser) callonListContinuationElement1718() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1717(stack["separator"])
+	return p.cur.onListContinuationElement1718(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1726() (interface{}, error) {
+func (c *current) onListContinuationElement1727() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1726() (interface{}, error) {
+func (p *parser) callonListContinuationElement1727() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1726()
+	return p.cur.onListContinuationElement1727()
 }
 
-func (c *current) onListContinuationElement1707() (interface{}, error) {
+func (c *current) onListContinuationElement1708() (interface{}, error) {
 	return types.NewRawLine(strings.TrimSpace(string(c.text)))
 
 }
 
-func (p *parser) callonListContinuationElement1707() (interface{}, error) {
+func (p *parser) callonListContinuationElement1708() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1707()
+	return p.cur.onListContinuationElement1708()
 }
 
-func (c *current) onListContinuationElement1737() (interface{}, error) {
+func (c *current) onListContinuationElement1738() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1737() (interface{}, error) {
+func (p *parser) callonListContinuationElement1738() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1737()
+	return p.cur.onListContinuationElement1738()
 }
 
-func (c *current) onListContinuationElement1740(separator interface{}) (bool, error) {
+func (c *current) onListContinuationElement1741(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonListContinuationElement1740() (bool, error) {
+func (p *parser) callonListContinuationElement1741() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1740(stack["separator"])
+	return p.cur.onListContinuationElement1741(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1734(separator interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1735(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonListContinuationElement1734() (interface{}, error) {
+func (p *parser) callonListContinuationElement1735() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1734(stack["separator"])
+	return p.cur.onListContinuationElement1735(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1751() (interface{}, error) {
+func (c *current) onListContinuationElement1752() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1751() (interface{}, error) {
+func (p *parser) callonListContinuationElement1752() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1751()
+	return p.cur.onListContinuationElement1752()
 }
 
-func (c *current) onListContinuationElement1757() (interface{}, error) {
+func (c *current) onListContinuationElement1758() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1757() (interface{}, error) {
+func (p *parser) callonListContinuationElement1758() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1757()
+	return p.cur.onListContinuationElement1758()
 }
 
-func (c *current) onListContinuationElement1760() (interface{}, error) {
+func (c *current) onListContinuationElement1761() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1760() (interface{}, error) {
+func (p *parser) callonListContinuationElement1761() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1760()
+	return p.cur.onListContinuationElement1761()
 }
 
-func (c *current) onListContinuationElement1748(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1749(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1748() (interface{}, error) {
+func (p *parser) callonListContinuationElement1749() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1748(stack["delimiter"])
+	return p.cur.onListContinuationElement1749(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1770() (interface{}, error) {
+func (c *current) onListContinuationElement1771() (interface{}, error) {
 	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1770() (interface{}, error) {
+func (p *parser) callonListContinuationElement1771() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1770()
+	return p.cur.onListContinuationElement1771()
 }
 
-func (c *current) onListContinuationElement1776() (interface{}, error) {
+func (c *current) onListContinuationElement1777() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1776() (interface{}, error) {
+func (p *parser) callonListContinuationElement1777() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1776()
+	return p.cur.onListContinuationElement1777()
 }
 
-func (c *current) onListContinuationElement1779() (interface{}, error) {
+func (c *current) onListContinuationElement1780() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1779() (interface{}, error) {
+func (p *parser) callonListContinuationElement1780() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1779()
+	return p.cur.onListContinuationElement1780()
 }
 
-func (c *current) onListContinuationElement1767(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1768(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1767() (interface{}, error) {
+func (p *parser) callonListContinuationElement1768() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1767(stack["delimiter"])
+	return p.cur.onListContinuationElement1768(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1790() (interface{}, error) {
+func (c *current) onListContinuationElement1791() (interface{}, error) {
 	// exclude ` to avoid matching fenced blocks with more than 3 "`"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1790() (interface{}, error) {
+func (p *parser) callonListContinuationElement1791() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1790()
+	return p.cur.onListContinuationElement1791()
 }
 
-func (c *current) onListContinuationElement1794() (interface{}, error) {
+func (c *current) onListContinuationElement1795() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1794() (interface{}, error) {
+func (p *parser) callonListContinuationElement1795() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1794()
+	return p.cur.onListContinuationElement1795()
 }
 
-func (c *current) onListContinuationElement1797() (interface{}, error) {
+func (c *current) onListContinuationElement1798() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1797() (interface{}, error) {
+func (p *parser) callonListContinuationElement1798() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1797()
+	return p.cur.onListContinuationElement1798()
 }
 
-func (c *current) onListContinuationElement1786(language interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1787(language interface{}) (interface{}, error) {
 	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
 }
 
-func (p *parser) callonListContinuationElement1786() (interface{}, error) {
+func (p *parser) callonListContinuationElement1787() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1786(stack["language"])
+	return p.cur.onListContinuationElement1787(stack["language"])
 }
 
-func (c *current) onListContinuationElement1807() (interface{}, error) {
+func (c *current) onListContinuationElement1808() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1807() (interface{}, error) {
+func (p *parser) callonListContinuationElement1808() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1807()
+	return p.cur.onListContinuationElement1808()
 }
 
-func (c *current) onListContinuationElement1813() (interface{}, error) {
+func (c *current) onListContinuationElement1814() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1813() (interface{}, error) {
+func (p *parser) callonListContinuationElement1814() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1813()
+	return p.cur.onListContinuationElement1814()
 }
 
-func (c *current) onListContinuationElement1816() (interface{}, error) {
+func (c *current) onListContinuationElement1817() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1816() (interface{}, error) {
+func (p *parser) callonListContinuationElement1817() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1816()
+	return p.cur.onListContinuationElement1817()
 }
 
-func (c *current) onListContinuationElement1804(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1805(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1804() (interface{}, error) {
+func (p *parser) callonListContinuationElement1805() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1804(stack["delimiter"])
+	return p.cur.onListContinuationElement1805(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1826() (interface{}, error) {
+func (c *current) onListContinuationElement1827() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1826() (interface{}, error) {
+func (p *parser) callonListContinuationElement1827() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1826()
+	return p.cur.onListContinuationElement1827()
 }
 
-func (c *current) onListContinuationElement1832() (interface{}, error) {
+func (c *current) onListContinuationElement1833() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1832() (interface{}, error) {
+func (p *parser) callonListContinuationElement1833() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1832()
+	return p.cur.onListContinuationElement1833()
 }
 
-func (c *current) onListContinuationElement1835() (interface{}, error) {
+func (c *current) onListContinuationElement1836() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1835() (interface{}, error) {
+func (p *parser) callonListContinuationElement1836() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1835()
+	return p.cur.onListContinuationElement1836()
 }
 
-func (c *current) onListContinuationElement1823(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1824(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1823() (interface{}, error) {
+func (p *parser) callonListContinuationElement1824() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1823(stack["delimiter"])
+	return p.cur.onListContinuationElement1824(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1845() (interface{}, error) {
+func (c *current) onListContinuationElement1846() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1845() (interface{}, error) {
+func (p *parser) callonListContinuationElement1846() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1845()
+	return p.cur.onListContinuationElement1846()
 }
 
-func (c *current) onListContinuationElement1851() (interface{}, error) {
+func (c *current) onListContinuationElement1852() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1851() (interface{}, error) {
+func (p *parser) callonListContinuationElement1852() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1851()
+	return p.cur.onListContinuationElement1852()
 }
 
-func (c *current) onListContinuationElement1854() (interface{}, error) {
+func (c *current) onListContinuationElement1855() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1854() (interface{}, error) {
+func (p *parser) callonListContinuationElement1855() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1854()
+	return p.cur.onListContinuationElement1855()
 }
 
-func (c *current) onListContinuationElement1842(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1843(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Literal, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1842() (interface{}, error) {
+func (p *parser) callonListContinuationElement1843() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1842(stack["delimiter"])
+	return p.cur.onListContinuationElement1843(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1864() (interface{}, error) {
+func (c *current) onListContinuationElement1865() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1864() (interface{}, error) {
+func (p *parser) callonListContinuationElement1865() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1864()
+	return p.cur.onListContinuationElement1865()
 }
 
-func (c *current) onListContinuationElement1870() (interface{}, error) {
+func (c *current) onListContinuationElement1871() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1870() (interface{}, error) {
+func (p *parser) callonListContinuationElement1871() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1870()
+	return p.cur.onListContinuationElement1871()
 }
 
-func (c *current) onListContinuationElement1873() (interface{}, error) {
+func (c *current) onListContinuationElement1874() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1873() (interface{}, error) {
+func (p *parser) callonListContinuationElement1874() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1873()
+	return p.cur.onListContinuationElement1874()
 }
 
-func (c *current) onListContinuationElement1861(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1862(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1861() (interface{}, error) {
+func (p *parser) callonListContinuationElement1862() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1861(stack["delimiter"])
+	return p.cur.onListContinuationElement1862(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1883() (interface{}, error) {
+func (c *current) onListContinuationElement1884() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1883() (interface{}, error) {
+func (p *parser) callonListContinuationElement1884() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1883()
+	return p.cur.onListContinuationElement1884()
 }
 
-func (c *current) onListContinuationElement1889() (interface{}, error) {
+func (c *current) onListContinuationElement1890() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1889() (interface{}, error) {
+func (p *parser) callonListContinuationElement1890() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1889()
+	return p.cur.onListContinuationElement1890()
 }
 
-func (c *current) onListContinuationElement1892() (interface{}, error) {
+func (c *current) onListContinuationElement1893() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1892() (interface{}, error) {
+func (p *parser) callonListContinuationElement1893() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1892()
+	return p.cur.onListContinuationElement1893()
 }
 
-func (c *current) onListContinuationElement1880(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1881(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1880() (interface{}, error) {
+func (p *parser) callonListContinuationElement1881() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1880(stack["delimiter"])
+	return p.cur.onListContinuationElement1881(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1902() (interface{}, error) {
+func (c *current) onListContinuationElement1903() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1902() (interface{}, error) {
+func (p *parser) callonListContinuationElement1903() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1902()
+	return p.cur.onListContinuationElement1903()
 }
 
-func (c *current) onListContinuationElement1908() (interface{}, error) {
+func (c *current) onListContinuationElement1909() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1908() (interface{}, error) {
+func (p *parser) callonListContinuationElement1909() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1908()
+	return p.cur.onListContinuationElement1909()
 }
 
-func (c *current) onListContinuationElement1911() (interface{}, error) {
+func (c *current) onListContinuationElement1912() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1911() (interface{}, error) {
+func (p *parser) callonListContinuationElement1912() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1911()
+	return p.cur.onListContinuationElement1912()
 }
 
-func (c *current) onListContinuationElement1899(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1900(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1899() (interface{}, error) {
+func (p *parser) callonListContinuationElement1900() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1899(stack["delimiter"])
+	return p.cur.onListContinuationElement1900(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1742(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1743(delimiter interface{}) (interface{}, error) {
 	return delimiter, nil
 
 }
 
-func (p *parser) callonListContinuationElement1742() (interface{}, error) {
+func (p *parser) callonListContinuationElement1743() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1742(stack["delimiter"])
+	return p.cur.onListContinuationElement1743(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1919() (interface{}, error) {
+func (c *current) onListContinuationElement1920() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1919() (interface{}, error) {
+func (p *parser) callonListContinuationElement1920() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1919()
+	return p.cur.onListContinuationElement1920()
 }
 
-func (c *current) onListContinuationElement1923() (interface{}, error) {
+func (c *current) onListContinuationElement1924() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1923() (interface{}, error) {
+func (p *parser) callonListContinuationElement1924() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1923()
+	return p.cur.onListContinuationElement1924()
 }
 
-func (c *current) onListContinuationElement1607(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1608(content interface{}) (interface{}, error) {
 	// do not retain the EOL chars
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1607() (interface{}, error) {
+func (p *parser) callonListContinuationElement1608() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1607(stack["content"])
+	return p.cur.onListContinuationElement1608(stack["content"])
 }
 
-func (c *current) onListContinuationElement1569(style, content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1570(style, content interface{}) (interface{}, error) {
 	return types.NewParagraph(style, content)
 
 }
 
-func (p *parser) callonListContinuationElement1569() (interface{}, error) {
+func (p *parser) callonListContinuationElement1570() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1569(stack["style"], stack["content"])
+	return p.cur.onListContinuationElement1570(stack["style"], stack["content"])
 }
 
 func (c *current) onListContinuationElement1(attributes, element interface{}) (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 0ae806f..b87e7f6 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -1558,6 +1558,7 @@ ListContinuationElement <- // TODO: same as DelimitedBlockElement?
         / DelimitedBlock
         / ThematicBreak // must appear before ListElement :/
         / ImageBlock
+        / UserMacroBlock
         / Table
         / SinglelineComment
         / ListContinuationParagraph // must be the last one... 
-- 
2.43.0


From 082ffd93e0fd9f9926695c05b5aac0b9a3713dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:56 +0000
Subject: [PATCH 129/143] fix: references to attributes in user macros were not
 replaced

---
 pkg/parser/document_processing_apply_substitutions.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 2471f0a..2fb7b7b 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -83,6 +83,8 @@ func applySubstitutionsOnElement(ctx *ParseContext, element interface{}, opts ..
 		return applySubstitutionsOnWithElements(ctx, b, opts...)
 	case types.WithLocation:
 		return applySubstitutionsOnWithLocation(ctx, b, opts...)
+	case *types.UserMacro:
+		return replaceAttributeRefsInAttributeValues(ctx, b.Attributes)
 	default:
 		// do nothing
 		return nil
@@ -548,6 +550,10 @@ func replaceAttributeRefsInElementsAndReparse(ctx *ParseContext, elements []inte
 			if err := replaceAttributeRefsInAttributeValues(ctx, e.Attributes); err != nil {
 				return nil, err
 			}
+		case *types.UserMacro: // if `subs=macros,attributes`, then replace within inline macros
+			if err := replaceAttributeRefsInAttributeValues(ctx, e.Attributes); err != nil {
+				return nil, err
+			}
 		case types.WithLocation: // if `subs=macros,attributes`, then replace within inline macros
 			// in attributes
 			if err := replaceAttributeRefsInAttributeValues(ctx, e.GetAttributes()); err != nil {
@@ -590,6 +596,8 @@ func keepAttributeRefs(elements []interface{}) {
 			}
 		case *types.Footnote:
 			keepAttributeRefs(e.Elements)
+		case *types.UserMacro:
+			keepAttributeRefsInAttributes(e.Attributes)
 		case types.WithElements:
 			keepAttributeRefsInAttributes(e.GetAttributes())
 			keepAttributeRefs(e.GetElements())
-- 
2.43.0


From 2cbe6229a66d5c89dc08441657a2d695d97ea2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:13 +0000
Subject: [PATCH 130/143] fix: user macros with hyphens or underscores in their
 name were not recognised in texts

---
 pkg/parser/parser.go     | 9501 ++++++++++++++++++++------------------
 pkg/parser/parser.peg    |    7 +
 pkg/parser/parser_ext.go |    5 +
 3 files changed, 4910 insertions(+), 4603 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index d1bb7f9..f3d558e 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 359, col: 49, offset: 10879},
 													expr: &actionExpr{
-														pos: position{line: 2881, col: 10, offset: 91342},
+														pos: position{line: 2888, col: 10, offset: 91535},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2881, col: 10, offset: 91342},
+															pos:        position{line: 2888, col: 10, offset: 91535},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2903, col: 8, offset: 91740},
+													pos: position{line: 2910, col: 8, offset: 91933},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2890, col: 12, offset: 91513},
+															pos: position{line: 2897, col: 12, offset: 91706},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2890, col: 13, offset: 91514},
+																pos: position{line: 2897, col: 13, offset: 91707},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2890, col: 13, offset: 91514},
+																		pos:        position{line: 2897, col: 13, offset: 91707},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2890, col: 20, offset: 91521},
+																		pos:        position{line: 2897, col: 20, offset: 91714},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2890, col: 29, offset: 91530},
+																		pos:        position{line: 2897, col: 29, offset: 91723},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2900, col: 8, offset: 91690},
+															pos: position{line: 2907, col: 8, offset: 91883},
 															expr: &anyMatcher{
-																line: 2900, col: 9, offset: 91691,
+																line: 2907, col: 9, offset: 91884,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 361, col: 39, offset: 11000},
 													expr: &actionExpr{
-														pos: position{line: 2881, col: 10, offset: 91342},
+														pos: position{line: 2888, col: 10, offset: 91535},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2881, col: 10, offset: 91342},
+															pos:        position{line: 2888, col: 10, offset: 91535},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2903, col: 8, offset: 91740},
+													pos: position{line: 2910, col: 8, offset: 91933},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2890, col: 12, offset: 91513},
+															pos: position{line: 2897, col: 12, offset: 91706},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2890, col: 13, offset: 91514},
+																pos: position{line: 2897, col: 13, offset: 91707},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2890, col: 13, offset: 91514},
+																		pos:        position{line: 2897, col: 13, offset: 91707},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2890, col: 20, offset: 91521},
+																		pos:        position{line: 2897, col: 20, offset: 91714},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2890, col: 29, offset: 91530},
+																		pos:        position{line: 2897, col: 29, offset: 91723},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2900, col: 8, offset: 91690},
+															pos: position{line: 2907, col: 8, offset: 91883},
 															expr: &anyMatcher{
-																line: 2900, col: 9, offset: 91691,
+																line: 2907, col: 9, offset: 91884,
 															},
 														},
 													},
@@ -321,10 +321,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 78, col: 41, offset: 2149},
 																						expr: &actionExpr{
-																							pos: position{line: 2881, col: 10, offset: 91342},
+																							pos: position{line: 2888, col: 10, offset: 91535},
 																							run: (*parser).callonDocumentRawLine66,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2881, col: 10, offset: 91342},
+																								pos:        position{line: 2888, col: 10, offset: 91535},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -333,9 +333,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2900, col: 8, offset: 91690},
+																						pos: position{line: 2907, col: 8, offset: 91883},
 																						expr: &anyMatcher{
-																							line: 2900, col: 9, offset: 91691,
+																							line: 2907, col: 9, offset: 91884,
 																						},
 																					},
 																				},
@@ -363,10 +363,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2881, col: 10, offset: 91342},
+														pos: position{line: 2888, col: 10, offset: 91535},
 														run: (*parser).callonDocumentRawLine73,
 														expr: &charClassMatcher{
-															pos:        position{line: 2881, col: 10, offset: 91342},
+															pos:        position{line: 2888, col: 10, offset: 91535},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -375,9 +375,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2900, col: 8, offset: 91690},
+													pos: position{line: 2907, col: 8, offset: 91883},
 													expr: &anyMatcher{
-														line: 2900, col: 9, offset: 91691,
+														line: 2907, col: 9, offset: 91884,
 													},
 												},
 											},
@@ -446,10 +446,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 78, col: 41, offset: 2149},
 																						expr: &actionExpr{
-																							pos: position{line: 2881, col: 10, offset: 91342},
+																							pos: position{line: 2888, col: 10, offset: 91535},
 																							run: (*parser).callonDocumentRawLine94,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2881, col: 10, offset: 91342},
+																								pos:        position{line: 2888, col: 10, offset: 91535},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -458,9 +458,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2900, col: 8, offset: 91690},
+																						pos: position{line: 2907, col: 8, offset: 91883},
 																						expr: &anyMatcher{
-																							line: 2900, col: 9, offset: 91691,
+																							line: 2907, col: 9, offset: 91884,
 																						},
 																					},
 																				},
@@ -488,10 +488,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2881, col: 10, offset: 91342},
+														pos: position{line: 2888, col: 10, offset: 91535},
 														run: (*parser).callonDocumentRawLine101,
 														expr: &charClassMatcher{
-															pos:        position{line: 2881, col: 10, offset: 91342},
+															pos:        position{line: 2888, col: 10, offset: 91535},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -500,9 +500,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2900, col: 8, offset: 91690},
+													pos: position{line: 2907, col: 8, offset: 91883},
 													expr: &anyMatcher{
-														line: 2900, col: 9, offset: 91691,
+														line: 2907, col: 9, offset: 91884,
 													},
 												},
 											},
@@ -972,24 +972,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2877, col: 10, offset: 91245},
+																pos: position{line: 2884, col: 10, offset: 91438},
 																run: (*parser).callonDocumentRawLine197,
 																expr: &seqExpr{
-																	pos: position{line: 2877, col: 11, offset: 91246},
+																	pos: position{line: 2884, col: 11, offset: 91439},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2877, col: 11, offset: 91246},
+																			pos: position{line: 2884, col: 11, offset: 91439},
 																			expr: &litMatcher{
-																				pos:        position{line: 2877, col: 11, offset: 91246},
+																				pos:        position{line: 2884, col: 11, offset: 91439},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2877, col: 16, offset: 91251},
+																			pos: position{line: 2884, col: 16, offset: 91444},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 16, offset: 91251},
+																				pos:        position{line: 2884, col: 16, offset: 91444},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -997,15 +997,15 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2877, col: 23, offset: 91258},
+																			pos:        position{line: 2884, col: 23, offset: 91451},
 																			val:        ".",
 																			ignoreCase: false,
 																			want:       "\".\"",
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2877, col: 27, offset: 91262},
+																			pos: position{line: 2884, col: 27, offset: 91455},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 27, offset: 91262},
+																				pos:        position{line: 2884, col: 27, offset: 91455},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1016,24 +1016,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2873, col: 12, offset: 91169},
+																pos: position{line: 2880, col: 12, offset: 91362},
 																run: (*parser).callonDocumentRawLine206,
 																expr: &seqExpr{
-																	pos: position{line: 2873, col: 13, offset: 91170},
+																	pos: position{line: 2880, col: 13, offset: 91363},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2873, col: 13, offset: 91170},
+																			pos: position{line: 2880, col: 13, offset: 91363},
 																			expr: &litMatcher{
-																				pos:        position{line: 2873, col: 13, offset: 91170},
+																				pos:        position{line: 2880, col: 13, offset: 91363},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2873, col: 18, offset: 91175},
+																			pos: position{line: 2880, col: 18, offset: 91368},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 18, offset: 91175},
+																				pos:        position{line: 2880, col: 18, offset: 91368},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1049,10 +1049,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2280},
 													expr: &actionExpr{
-														pos: position{line: 2881, col: 10, offset: 91342},
+														pos: position{line: 2888, col: 10, offset: 91535},
 														run: (*parser).callonDocumentRawLine213,
 														expr: &charClassMatcher{
-															pos:        position{line: 2881, col: 10, offset: 91342},
+															pos:        position{line: 2888, col: 10, offset: 91535},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1132,10 +1132,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2326},
 													expr: &actionExpr{
-														pos: position{line: 2881, col: 10, offset: 91342},
+														pos: position{line: 2888, col: 10, offset: 91535},
 														run: (*parser).callonDocumentRawLine230,
 														expr: &charClassMatcher{
-															pos:        position{line: 2881, col: 10, offset: 91342},
+															pos:        position{line: 2888, col: 10, offset: 91535},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1595,24 +1595,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2877, col: 10, offset: 91245},
+																pos: position{line: 2884, col: 10, offset: 91438},
 																run: (*parser).callonDocumentRawLine321,
 																expr: &seqExpr{
-																	pos: position{line: 2877, col: 11, offset: 91246},
+																	pos: position{line: 2884, col: 11, offset: 91439},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2877, col: 11, offset: 91246},
+																			pos: position{line: 2884, col: 11, offset: 91439},
 																			expr: &litMatcher{
-																				pos:        position{line: 2877, col: 11, offset: 91246},
+																				pos:        position{line: 2884, col: 11, offset: 91439},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2877, col: 16, offset: 91251},
+																			pos: position{line: 2884, col: 16, offset: 91444},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 16, offset: 91251},
+																				pos:        position{line: 2884, col: 16, offset: 91444},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1620,15 +1620,15 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2877, col: 23, offset: 91258},
+																			pos:        position{line: 2884, col: 23, offset: 91451},
 																			val:        ".",
 																			ignoreCase: false,
 																			want:       "\".\"",
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2877, col: 27, offset: 91262},
+																			pos: position{line: 2884, col: 27, offset: 91455},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2877, col: 27, offset: 91262},
+																				pos:        position{line: 2884, col: 27, offset: 91455},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1639,24 +1639,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2873, col: 12, offset: 91169},
+																pos: position{line: 2880, col: 12, offset: 91362},
 																run: (*parser).callonDocumentRawLine330,
 																expr: &seqExpr{
-																	pos: position{line: 2873, col: 13, offset: 91170},
+																	pos: position{line: 2880, col: 13, offset: 91363},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2873, col: 13, offset: 91170},
+																			pos: position{line: 2880, col: 13, offset: 91363},
 																			expr: &litMatcher{
-																				pos:        position{line: 2873, col: 13, offset: 91170},
+																				pos:        position{line: 2880, col: 13, offset: 91363},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2873, col: 18, offset: 91175},
+																			pos: position{line: 2880, col: 18, offset: 91368},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 18, offset: 91175},
+																				pos:        position{line: 2880, col: 18, offset: 91368},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1678,10 +1678,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2378},
 													expr: &actionExpr{
-														pos: position{line: 2881, col: 10, offset: 91342},
+														pos: position{line: 2888, col: 10, offset: 91535},
 														run: (*parser).callonDocumentRawLine338,
 														expr: &charClassMatcher{
-															pos:        position{line: 2881, col: 10, offset: 91342},
+															pos:        position{line: 2888, col: 10, offset: 91535},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1690,9 +1690,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2900, col: 8, offset: 91690},
+													pos: position{line: 2907, col: 8, offset: 91883},
 													expr: &anyMatcher{
-														line: 2900, col: 9, offset: 91691,
+														line: 2907, col: 9, offset: 91884,
 													},
 												},
 											},
@@ -1764,10 +1764,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 78, col: 41, offset: 2149},
 																						expr: &actionExpr{
-																							pos: position{line: 2881, col: 10, offset: 91342},
+																							pos: position{line: 2888, col: 10, offset: 91535},
 																							run: (*parser).callonDocumentRawLine360,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2881, col: 10, offset: 91342},
+																								pos:        position{line: 2888, col: 10, offset: 91535},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -1776,9 +1776,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2900, col: 8, offset: 91690},
+																						pos: position{line: 2907, col: 8, offset: 91883},
 																						expr: &anyMatcher{
-																							line: 2900, col: 9, offset: 91691,
+																							line: 2907, col: 9, offset: 91884,
 																						},
 																					},
 																				},
@@ -1806,10 +1806,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3474},
 													expr: &actionExpr{
-														pos: position{line: 2881, col: 10, offset: 91342},
+														pos: position{line: 2888, col: 10, offset: 91535},
 														run: (*parser).callonDocumentRawLine367,
 														expr: &charClassMatcher{
-															pos:        position{line: 2881, col: 10, offset: 91342},
+															pos:        position{line: 2888, col: 10, offset: 91535},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1818,9 +1818,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2900, col: 8, offset: 91690},
+													pos: position{line: 2907, col: 8, offset: 91883},
 													expr: &anyMatcher{
-														line: 2900, col: 9, offset: 91691,
+														line: 2907, col: 9, offset: 91884,
 													},
 												},
 											},
@@ -1885,10 +1885,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 743, col: 8, offset: 23745},
 																			expr: &actionExpr{
-																				pos: position{line: 2881, col: 10, offset: 91342},
+																				pos: position{line: 2888, col: 10, offset: 91535},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2881, col: 10, offset: 91342},
+																					pos:        position{line: 2888, col: 10, offset: 91535},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1897,28 +1897,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2903, col: 8, offset: 91740},
+																			pos: position{line: 2910, col: 8, offset: 91933},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2890, col: 12, offset: 91513},
+																					pos: position{line: 2897, col: 12, offset: 91706},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2890, col: 13, offset: 91514},
+																						pos: position{line: 2897, col: 13, offset: 91707},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2890, col: 13, offset: 91514},
+																								pos:        position{line: 2897, col: 13, offset: 91707},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2890, col: 20, offset: 91521},
+																								pos:        position{line: 2897, col: 20, offset: 91714},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2890, col: 29, offset: 91530},
+																								pos:        position{line: 2897, col: 29, offset: 91723},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1927,9 +1927,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2900, col: 8, offset: 91690},
+																					pos: position{line: 2907, col: 8, offset: 91883},
 																					expr: &anyMatcher{
-																						line: 2900, col: 9, offset: 91691,
+																						line: 2907, col: 9, offset: 91884,
 																					},
 																				},
 																			},
@@ -1974,10 +1974,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 750, col: 8, offset: 23993},
 																			expr: &actionExpr{
-																				pos: position{line: 2881, col: 10, offset: 91342},
+																				pos: position{line: 2888, col: 10, offset: 91535},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2881, col: 10, offset: 91342},
+																					pos:        position{line: 2888, col: 10, offset: 91535},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1986,28 +1986,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2903, col: 8, offset: 91740},
+																			pos: position{line: 2910, col: 8, offset: 91933},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2890, col: 12, offset: 91513},
+																					pos: position{line: 2897, col: 12, offset: 91706},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2890, col: 13, offset: 91514},
+																						pos: position{line: 2897, col: 13, offset: 91707},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2890, col: 13, offset: 91514},
+																								pos:        position{line: 2897, col: 13, offset: 91707},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2890, col: 20, offset: 91521},
+																								pos:        position{line: 2897, col: 20, offset: 91714},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2890, col: 29, offset: 91530},
+																								pos:        position{line: 2897, col: 29, offset: 91723},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2016,9 +2016,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2900, col: 8, offset: 91690},
+																					pos: position{line: 2907, col: 8, offset: 91883},
 																					expr: &anyMatcher{
-																						line: 2900, col: 9, offset: 91691,
+																						line: 2907, col: 9, offset: 91884,
 																					},
 																				},
 																			},
@@ -2059,10 +2059,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 761, col: 52, offset: 24405},
 																			expr: &actionExpr{
-																				pos: position{line: 2881, col: 10, offset: 91342},
+																				pos: position{line: 2888, col: 10, offset: 91535},
 																				run: (*parser).callonDocumentRawLine423,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2881, col: 10, offset: 91342},
+																					pos:        position{line: 2888, col: 10, offset: 91535},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2071,28 +2071,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2903, col: 8, offset: 91740},
+																			pos: position{line: 2910, col: 8, offset: 91933},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2890, col: 12, offset: 91513},
+																					pos: position{line: 2897, col: 12, offset: 91706},
 																					run: (*parser).callonDocumentRawLine426,
 																					expr: &choiceExpr{
-																						pos: position{line: 2890, col: 13, offset: 91514},
+																						pos: position{line: 2897, col: 13, offset: 91707},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2890, col: 13, offset: 91514},
+																								pos:        position{line: 2897, col: 13, offset: 91707},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2890, col: 20, offset: 91521},
+																								pos:        position{line: 2897, col: 20, offset: 91714},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2890, col: 29, offset: 91530},
+																								pos:        position{line: 2897, col: 29, offset: 91723},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2101,9 +2101,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2900, col: 8, offset: 91690},
+																					pos: position{line: 2907, col: 8, offset: 91883},
 																					expr: &anyMatcher{
-																						line: 2900, col: 9, offset: 91691,
+																						line: 2907, col: 9, offset: 91884,
 																					},
 																				},
 																			},
@@ -2148,10 +2148,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 757, col: 8, offset: 24239},
 																			expr: &actionExpr{
-																				pos: position{line: 2881, col: 10, offset: 91342},
+																				pos: position{line: 2888, col: 10, offset: 91535},
 																				run: (*parser).callonDocumentRawLine442,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2881, col: 10, offset: 91342},
+																					pos:        position{line: 2888, col: 10, offset: 91535},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2160,28 +2160,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2903, col: 8, offset: 91740},
+																			pos: position{line: 2910, col: 8, offset: 91933},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2890, col: 12, offset: 91513},
+																					pos: position{line: 2897, col: 12, offset: 91706},
 																					run: (*parser).callonDocumentRawLine445,
 																					expr: &choiceExpr{
-																						pos: position{line: 2890, col: 13, offset: 91514},
+																						pos: position{line: 2897, col: 13, offset: 91707},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2890, col: 13, offset: 91514},
+																								pos:        position{line: 2897, col: 13, offset: 91707},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2890, col: 20, offset: 91521},
+																								pos:        position{line: 2897, col: 20, offset: 91714},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2890, col: 29, offset: 91530},
+																								pos:        position{line: 2897, col: 29, offset: 91723},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2190,9 +2190,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2900, col: 8, offset: 91690},
+																					pos: position{line: 2907, col: 8, offset: 91883},
 																					expr: &anyMatcher{
-																						line: 2900, col: 9, offset: 91691,
+																						line: 2907, col: 9, offset: 91884,
 																					},
 																				},
 																			},
@@ -2237,10 +2237,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 772, col: 8, offset: 24782},
 																			expr: &actionExpr{
-																				pos: position{line: 2881, col: 10, offset: 91342},
+																				pos: position{line: 2888, col: 10, offset: 91535},
 																				run: (*parser).callonDocumentRawLine461,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2881, col: 10, offset: 91342},
+																					pos:        position{line: 2888, col: 10, offset: 91535},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2249,28 +2249,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2903, col: 8, offset: 91740},
+																			pos: position{line: 2910, col: 8, offset: 91933},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2890, col: 12, offset: 91513},
+																					pos: position{line: 2897, col: 12, offset: 91706},
 																					run: (*parser).callonDocumentRawLine464,
 																					expr: &choiceExpr{
-																						pos: position{line: 2890, col: 13, offset: 91514},
+																						pos: position{line: 2897, col: 13, offset: 91707},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2890, col: 13, offset: 91514},
+																								pos:        position{line: 2897, col: 13, offset: 91707},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2890, col: 20, offset: 91521},
+																								pos:        position{line: 2897, col: 20, offset: 91714},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2890, col: 29, offset: 91530},
+																								pos:        position{line: 2897, col: 29, offset: 91723},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2279,9 +2279,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2900, col: 8, offset: 91690},
+																					pos: position{line: 2907, col: 8, offset: 91883},
 																					expr: &anyMatcher{
-																						line: 2900, col: 9, offset: 91691,
+																						line: 2907, col: 9, offset: 91884,
 																					},
 																				},
 																			},
@@ -2326,10 +2326,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 786, col: 8, offset: 25258},
 																			expr: &actionExpr{
-																				pos: position{line: 2881, col: 10, offset: 91342},
+																				pos: position{line: 2888, col: 10, offset: 91535},
 																				run: (*parser).callonDocumentRawLine480,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2881, col: 10, offset: 91342},
+																					pos:        position{line: 2888, col: 10, offset: 91535},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2338,28 +2338,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2903, col: 8, offset: 91740},
+																			pos: position{line: 2910, col: 8, offset: 91933},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2890, col: 12, offset: 91513},
+																					pos: position{line: 2897, col: 12, offset: 91706},
 																					run: (*parser).callonDocumentRawLine483,
 																					expr: &choiceExpr{
-																						pos: position{line: 2890, col: 13, offset: 91514},
+																						pos: position{line: 2897, col: 13, offset: 91707},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2890, col: 13, offset: 91514},
+																								pos:        position{line: 2897, col: 13, offset: 91707},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2890, col: 20, offset: 91521},
+																								pos:        position{line: 2897, col: 20, offset: 91714},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2890, col: 29, offset: 91530},
+																								pos:        position{line: 2897, col: 29, offset: 91723},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2368,9 +2368,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2900, col: 8, offset: 91690},
+																					pos: position{line: 2907, col: 8, offset: 91883},
 																					expr: &anyMatcher{
-																						line: 2900, col: 9, offset: 91691,
+																						line: 2907, col: 9, offset: 91884,
 																					},
 																				},
 																			},
@@ -2415,10 +2415,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 793, col: 8, offset: 25510},
 																			expr: &actionExpr{
-																				pos: position{line: 2881, col: 10, offset: 91342},
+																				pos: position{line: 2888, col: 10, offset: 91535},
 																				run: (*parser).callonDocumentRawLine499,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2881, col: 10, offset: 91342},
+																					pos:        position{line: 2888, col: 10, offset: 91535},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2427,28 +2427,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2903, col: 8, offset: 91740},
+																			pos: position{line: 2910, col: 8, offset: 91933},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2890, col: 12, offset: 91513},
+																					pos: position{line: 2897, col: 12, offset: 91706},
 																					run: (*parser).callonDocumentRawLine502,
 																					expr: &choiceExpr{
-																						pos: position{line: 2890, col: 13, offset: 91514},
+																						pos: position{line: 2897, col: 13, offset: 91707},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2890, col: 13, offset: 91514},
+																								pos:        position{line: 2897, col: 13, offset: 91707},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2890, col: 20, offset: 91521},
+																								pos:        position{line: 2897, col: 20, offset: 91714},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2890, col: 29, offset: 91530},
+																								pos:        position{line: 2897, col: 29, offset: 91723},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2457,9 +2457,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2900, col: 8, offset: 91690},
+																					pos: position{line: 2907, col: 8, offset: 91883},
 																					expr: &anyMatcher{
-																						line: 2900, col: 9, offset: 91691,
+																						line: 2907, col: 9, offset: 91884,
 																					},
 																				},
 																			},
@@ -2504,10 +2504,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 800, col: 8, offset: 25760},
 																			expr: &actionExpr{
-																				pos: position{line: 2881, col: 10, offset: 91342},
+																				pos: position{line: 2888, col: 10, offset: 91535},
 																				run: (*parser).callonDocumentRawLine518,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2881, col: 10, offset: 91342},
+																					pos:        position{line: 2888, col: 10, offset: 91535},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2516,28 +2516,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2903, col: 8, offset: 91740},
+																			pos: position{line: 2910, col: 8, offset: 91933},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2890, col: 12, offset: 91513},
+																					pos: position{line: 2897, col: 12, offset: 91706},
 																					run: (*parser).callonDocumentRawLine521,
 																					expr: &choiceExpr{
-																						pos: position{line: 2890, col: 13, offset: 91514},
+																						pos: position{line: 2897, col: 13, offset: 91707},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2890, col: 13, offset: 91514},
+																								pos:        position{line: 2897, col: 13, offset: 91707},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2890, col: 20, offset: 91521},
+																								pos:        position{line: 2897, col: 20, offset: 91714},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2890, col: 29, offset: 91530},
+																								pos:        position{line: 2897, col: 29, offset: 91723},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2546,9 +2546,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2900, col: 8, offset: 91690},
+																					pos: position{line: 2907, col: 8, offset: 91883},
 																					expr: &anyMatcher{
-																						line: 2900, col: 9, offset: 91691,
+																						line: 2907, col: 9, offset: 91884,
 																					},
 																				},
 																			},
@@ -2593,10 +2593,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 807, col: 8, offset: 26006},
 																			expr: &actionExpr{
-																				pos: position{line: 2881, col: 10, offset: 91342},
+																				pos: position{line: 2888, col: 10, offset: 91535},
 																				run: (*parser).callonDocumentRawLine537,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2881, col: 10, offset: 91342},
+																					pos:        position{line: 2888, col: 10, offset: 91535},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2605,28 +2605,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2903, col: 8, offset: 91740},
+																			pos: position{line: 2910, col: 8, offset: 91933},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2890, col: 12, offset: 91513},
+																					pos: position{line: 2897, col: 12, offset: 91706},
 																					run: (*parser).callonDocumentRawLine540,
 																					expr: &choiceExpr{
-																						pos: position{line: 2890, col: 13, offset: 91514},
+																						pos: position{line: 2897, col: 13, offset: 91707},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2890, col: 13, offset: 91514},
+																								pos:        position{line: 2897, col: 13, offset: 91707},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2890, col: 20, offset: 91521},
+																								pos:        position{line: 2897, col: 20, offset: 91714},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2890, col: 29, offset: 91530},
+																								pos:        position{line: 2897, col: 29, offset: 91723},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2635,9 +2635,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2900, col: 8, offset: 91690},
+																					pos: position{line: 2907, col: 8, offset: 91883},
 																					expr: &anyMatcher{
-																						line: 2900, col: 9, offset: 91691,
+																						line: 2907, col: 9, offset: 91884,
 																					},
 																				},
 																			},
@@ -2687,12 +2687,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine555,
 												},
 												&actionExpr{
-													pos: position{line: 2885, col: 11, offset: 91403},
+													pos: position{line: 2892, col: 11, offset: 91596},
 													run: (*parser).callonDocumentRawLine556,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2885, col: 11, offset: 91403},
+														pos: position{line: 2892, col: 11, offset: 91596},
 														expr: &charClassMatcher{
-															pos:        position{line: 2885, col: 11, offset: 91403},
+															pos:        position{line: 2892, col: 11, offset: 91596},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2701,12 +2701,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2831, col: 14, offset: 89935},
+													pos: position{line: 2838, col: 14, offset: 90128},
 													run: (*parser).callonDocumentRawLine559,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2831, col: 14, offset: 89935},
+														pos: position{line: 2838, col: 14, offset: 90128},
 														expr: &charClassMatcher{
-															pos:        position{line: 2831, col: 14, offset: 89935},
+															pos:        position{line: 2838, col: 14, offset: 90128},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2715,9 +2715,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2900, col: 8, offset: 91690},
+													pos: position{line: 2907, col: 8, offset: 91883},
 													expr: &anyMatcher{
-														line: 2900, col: 9, offset: 91691,
+														line: 2907, col: 9, offset: 91884,
 													},
 												},
 											},
@@ -2727,9 +2727,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2900, col: 8, offset: 91690},
+							pos: position{line: 2907, col: 8, offset: 91883},
 							expr: &anyMatcher{
-								line: 2900, col: 9, offset: 91691,
+								line: 2907, col: 9, offset: 91884,
 							},
 						},
 					},
@@ -2764,41 +2764,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2835, col: 17, offset: 90005},
+												pos: position{line: 2842, col: 17, offset: 90198},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2835, col: 17, offset: 90005},
+													pos:   position{line: 2842, col: 17, offset: 90198},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 5, offset: 90459},
+														pos: position{line: 2859, col: 5, offset: 90652},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2852, col: 5, offset: 90459},
+															pos:   position{line: 2859, col: 5, offset: 90652},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2852, col: 14, offset: 90468},
+																pos: position{line: 2859, col: 14, offset: 90661},
 																expr: &choiceExpr{
-																	pos: position{line: 2853, col: 9, offset: 90478},
+																	pos: position{line: 2860, col: 9, offset: 90671},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2853, col: 9, offset: 90478},
+																			pos: position{line: 2860, col: 9, offset: 90671},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2853, col: 9, offset: 90478},
+																				pos: position{line: 2860, col: 9, offset: 90671},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2853, col: 9, offset: 90478},
+																						pos: position{line: 2860, col: 9, offset: 90671},
 																						expr: &litMatcher{
-																							pos:        position{line: 2853, col: 10, offset: 90479},
+																							pos:        position{line: 2860, col: 10, offset: 90672},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2854, col: 9, offset: 90507},
+																						pos: position{line: 2861, col: 9, offset: 90700},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2854, col: 10, offset: 90508},
+																							pos:        position{line: 2861, col: 10, offset: 90701},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2809,27 +2809,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2857, col: 11, offset: 90720},
+																			pos: position{line: 2864, col: 11, offset: 90913},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2857, col: 11, offset: 90720},
+																					pos:        position{line: 2864, col: 11, offset: 90913},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2857, col: 19, offset: 90728},
+																					pos: position{line: 2864, col: 19, offset: 90921},
 																					expr: &seqExpr{
-																						pos: position{line: 2857, col: 21, offset: 90730},
+																						pos: position{line: 2864, col: 21, offset: 90923},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2857, col: 21, offset: 90730},
+																								pos: position{line: 2864, col: 21, offset: 90923},
 																								expr: &actionExpr{
-																									pos: position{line: 2881, col: 10, offset: 91342},
+																									pos: position{line: 2888, col: 10, offset: 91535},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2881, col: 10, offset: 91342},
+																										pos:        position{line: 2888, col: 10, offset: 91535},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2838,11 +2838,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2857, col: 28, offset: 90737},
+																								pos: position{line: 2864, col: 28, offset: 90930},
 																								expr: &notExpr{
-																									pos: position{line: 2900, col: 8, offset: 91690},
+																									pos: position{line: 2907, col: 8, offset: 91883},
 																									expr: &anyMatcher{
-																										line: 2900, col: 9, offset: 91691,
+																										line: 2907, col: 9, offset: 91884,
 																									},
 																								},
 																							},
@@ -3241,10 +3241,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2860, col: 11, offset: 90857},
+																			pos: position{line: 2867, col: 11, offset: 91050},
 																			run: (*parser).callonFileInclusion108,
 																			expr: &litMatcher{
-																				pos:        position{line: 2860, col: 11, offset: 90857},
+																				pos:        position{line: 2867, col: 11, offset: 91050},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3273,10 +3273,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2881, col: 10, offset: 91342},
+								pos: position{line: 2888, col: 10, offset: 91535},
 								run: (*parser).callonFileInclusion113,
 								expr: &charClassMatcher{
-									pos:        position{line: 2881, col: 10, offset: 91342},
+									pos:        position{line: 2888, col: 10, offset: 91535},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3285,28 +3285,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2903, col: 8, offset: 91740},
+							pos: position{line: 2910, col: 8, offset: 91933},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2890, col: 12, offset: 91513},
+									pos: position{line: 2897, col: 12, offset: 91706},
 									run: (*parser).callonFileInclusion116,
 									expr: &choiceExpr{
-										pos: position{line: 2890, col: 13, offset: 91514},
+										pos: position{line: 2897, col: 13, offset: 91707},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2890, col: 13, offset: 91514},
+												pos:        position{line: 2897, col: 13, offset: 91707},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2890, col: 20, offset: 91521},
+												pos:        position{line: 2897, col: 20, offset: 91714},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2890, col: 29, offset: 91530},
+												pos:        position{line: 2897, col: 29, offset: 91723},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3315,9 +3315,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2900, col: 8, offset: 91690},
+									pos: position{line: 2907, col: 8, offset: 91883},
 									expr: &anyMatcher{
-										line: 2900, col: 9, offset: 91691,
+										line: 2907, col: 9, offset: 91884,
 									},
 								},
 							},
@@ -3363,24 +3363,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 12, offset: 91169},
+																				pos: position{line: 2880, col: 12, offset: 91362},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2873, col: 13, offset: 91170},
+																					pos: position{line: 2880, col: 13, offset: 91363},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2873, col: 13, offset: 91170},
+																							pos: position{line: 2880, col: 13, offset: 91363},
 																							expr: &litMatcher{
-																								pos:        position{line: 2873, col: 13, offset: 91170},
+																								pos:        position{line: 2880, col: 13, offset: 91363},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2873, col: 18, offset: 91175},
+																							pos: position{line: 2880, col: 18, offset: 91368},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2873, col: 18, offset: 91175},
+																								pos:        position{line: 2880, col: 18, offset: 91368},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3401,24 +3401,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 12, offset: 91169},
+																				pos: position{line: 2880, col: 12, offset: 91362},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2873, col: 13, offset: 91170},
+																					pos: position{line: 2880, col: 13, offset: 91363},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2873, col: 13, offset: 91170},
+																							pos: position{line: 2880, col: 13, offset: 91363},
 																							expr: &litMatcher{
-																								pos:        position{line: 2873, col: 13, offset: 91170},
+																								pos:        position{line: 2880, col: 13, offset: 91363},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2873, col: 18, offset: 91175},
+																							pos: position{line: 2880, col: 18, offset: 91368},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2873, col: 18, offset: 91175},
+																								pos:        position{line: 2880, col: 18, offset: 91368},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3439,24 +3439,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 12, offset: 91169},
+																		pos: position{line: 2880, col: 12, offset: 91362},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2873, col: 13, offset: 91170},
+																			pos: position{line: 2880, col: 13, offset: 91363},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2873, col: 13, offset: 91170},
+																					pos: position{line: 2880, col: 13, offset: 91363},
 																					expr: &litMatcher{
-																						pos:        position{line: 2873, col: 13, offset: 91170},
+																						pos:        position{line: 2880, col: 13, offset: 91363},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2873, col: 18, offset: 91175},
+																					pos: position{line: 2880, col: 18, offset: 91368},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2873, col: 18, offset: 91175},
+																						pos:        position{line: 2880, col: 18, offset: 91368},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3505,24 +3505,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 91169},
+																									pos: position{line: 2880, col: 12, offset: 91362},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2873, col: 13, offset: 91170},
+																										pos: position{line: 2880, col: 13, offset: 91363},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2873, col: 13, offset: 91170},
+																												pos: position{line: 2880, col: 13, offset: 91363},
 																												expr: &litMatcher{
-																													pos:        position{line: 2873, col: 13, offset: 91170},
+																													pos:        position{line: 2880, col: 13, offset: 91363},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2873, col: 18, offset: 91175},
+																												pos: position{line: 2880, col: 18, offset: 91368},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2873, col: 18, offset: 91175},
+																													pos:        position{line: 2880, col: 18, offset: 91368},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3543,24 +3543,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 91169},
+																									pos: position{line: 2880, col: 12, offset: 91362},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2873, col: 13, offset: 91170},
+																										pos: position{line: 2880, col: 13, offset: 91363},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2873, col: 13, offset: 91170},
+																												pos: position{line: 2880, col: 13, offset: 91363},
 																												expr: &litMatcher{
-																													pos:        position{line: 2873, col: 13, offset: 91170},
+																													pos:        position{line: 2880, col: 13, offset: 91363},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2873, col: 18, offset: 91175},
+																												pos: position{line: 2880, col: 18, offset: 91368},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2873, col: 18, offset: 91175},
+																													pos:        position{line: 2880, col: 18, offset: 91368},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3581,24 +3581,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2873, col: 12, offset: 91169},
+																							pos: position{line: 2880, col: 12, offset: 91362},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2873, col: 13, offset: 91170},
+																								pos: position{line: 2880, col: 13, offset: 91363},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2873, col: 13, offset: 91170},
+																										pos: position{line: 2880, col: 13, offset: 91363},
 																										expr: &litMatcher{
-																											pos:        position{line: 2873, col: 13, offset: 91170},
+																											pos:        position{line: 2880, col: 13, offset: 91363},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2873, col: 18, offset: 91175},
+																										pos: position{line: 2880, col: 18, offset: 91368},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2873, col: 18, offset: 91175},
+																											pos:        position{line: 2880, col: 18, offset: 91368},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3631,24 +3631,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 12, offset: 91169},
+														pos: position{line: 2880, col: 12, offset: 91362},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2873, col: 13, offset: 91170},
+															pos: position{line: 2880, col: 13, offset: 91363},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2873, col: 13, offset: 91170},
+																	pos: position{line: 2880, col: 13, offset: 91363},
 																	expr: &litMatcher{
-																		pos:        position{line: 2873, col: 13, offset: 91170},
+																		pos:        position{line: 2880, col: 13, offset: 91363},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2873, col: 18, offset: 91175},
+																	pos: position{line: 2880, col: 18, offset: 91368},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2873, col: 18, offset: 91175},
+																		pos:        position{line: 2880, col: 18, offset: 91368},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3669,24 +3669,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 12, offset: 91169},
+														pos: position{line: 2880, col: 12, offset: 91362},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2873, col: 13, offset: 91170},
+															pos: position{line: 2880, col: 13, offset: 91363},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2873, col: 13, offset: 91170},
+																	pos: position{line: 2880, col: 13, offset: 91363},
 																	expr: &litMatcher{
-																		pos:        position{line: 2873, col: 13, offset: 91170},
+																		pos:        position{line: 2880, col: 13, offset: 91363},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2873, col: 18, offset: 91175},
+																	pos: position{line: 2880, col: 18, offset: 91368},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2873, col: 18, offset: 91175},
+																		pos:        position{line: 2880, col: 18, offset: 91368},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3707,24 +3707,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2873, col: 12, offset: 91169},
+												pos: position{line: 2880, col: 12, offset: 91362},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2873, col: 13, offset: 91170},
+													pos: position{line: 2880, col: 13, offset: 91363},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2873, col: 13, offset: 91170},
+															pos: position{line: 2880, col: 13, offset: 91363},
 															expr: &litMatcher{
-																pos:        position{line: 2873, col: 13, offset: 91170},
+																pos:        position{line: 2880, col: 13, offset: 91363},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2873, col: 18, offset: 91175},
+															pos: position{line: 2880, col: 18, offset: 91368},
 															expr: &charClassMatcher{
-																pos:        position{line: 2873, col: 18, offset: 91175},
+																pos:        position{line: 2880, col: 18, offset: 91368},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3740,9 +3740,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2900, col: 8, offset: 91690},
+							pos: position{line: 2907, col: 8, offset: 91883},
 							expr: &anyMatcher{
-								line: 2900, col: 9, offset: 91691,
+								line: 2907, col: 9, offset: 91884,
 							},
 						},
 					},
@@ -4067,9 +4067,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2900, col: 8, offset: 91690},
+							pos: position{line: 2907, col: 8, offset: 91883},
 							expr: &anyMatcher{
-								line: 2900, col: 9, offset: 91691,
+								line: 2907, col: 9, offset: 91884,
 							},
 						},
 					},
@@ -4193,28 +4193,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2903, col: 8, offset: 91740},
+							pos: position{line: 2910, col: 8, offset: 91933},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2890, col: 12, offset: 91513},
+									pos: position{line: 2897, col: 12, offset: 91706},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2890, col: 13, offset: 91514},
+										pos: position{line: 2897, col: 13, offset: 91707},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2890, col: 13, offset: 91514},
+												pos:        position{line: 2897, col: 13, offset: 91707},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2890, col: 20, offset: 91521},
+												pos:        position{line: 2897, col: 20, offset: 91714},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2890, col: 29, offset: 91530},
+												pos:        position{line: 2897, col: 29, offset: 91723},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4223,9 +4223,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2900, col: 8, offset: 91690},
+									pos: position{line: 2907, col: 8, offset: 91883},
 									expr: &anyMatcher{
-										line: 2900, col: 9, offset: 91691,
+										line: 2907, col: 9, offset: 91884,
 									},
 								},
 							},
@@ -4244,9 +4244,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2898, col: 11, offset: 91676},
+							pos: position{line: 2905, col: 11, offset: 91869},
 							expr: &anyMatcher{
-								line: 2898, col: 13, offset: 91678,
+								line: 2905, col: 13, offset: 91871,
 							},
 						},
 						&labeledExpr{
@@ -4341,10 +4341,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 359, col: 49, offset: 10879},
 														expr: &actionExpr{
-															pos: position{line: 2881, col: 10, offset: 91342},
+															pos: position{line: 2888, col: 10, offset: 91535},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2881, col: 10, offset: 91342},
+																pos:        position{line: 2888, col: 10, offset: 91535},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4353,28 +4353,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2903, col: 8, offset: 91740},
+														pos: position{line: 2910, col: 8, offset: 91933},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2890, col: 12, offset: 91513},
+																pos: position{line: 2897, col: 12, offset: 91706},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2890, col: 13, offset: 91514},
+																	pos: position{line: 2897, col: 13, offset: 91707},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2890, col: 13, offset: 91514},
+																			pos:        position{line: 2897, col: 13, offset: 91707},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2890, col: 20, offset: 91521},
+																			pos:        position{line: 2897, col: 20, offset: 91714},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2890, col: 29, offset: 91530},
+																			pos:        position{line: 2897, col: 29, offset: 91723},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4383,9 +4383,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2900, col: 8, offset: 91690},
+																pos: position{line: 2907, col: 8, offset: 91883},
 																expr: &anyMatcher{
-																	line: 2900, col: 9, offset: 91691,
+																	line: 2907, col: 9, offset: 91884,
 																},
 															},
 														},
@@ -4446,10 +4446,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 361, col: 39, offset: 11000},
 														expr: &actionExpr{
-															pos: position{line: 2881, col: 10, offset: 91342},
+															pos: position{line: 2888, col: 10, offset: 91535},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2881, col: 10, offset: 91342},
+																pos:        position{line: 2888, col: 10, offset: 91535},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4458,28 +4458,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2903, col: 8, offset: 91740},
+														pos: position{line: 2910, col: 8, offset: 91933},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2890, col: 12, offset: 91513},
+																pos: position{line: 2897, col: 12, offset: 91706},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2890, col: 13, offset: 91514},
+																	pos: position{line: 2897, col: 13, offset: 91707},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2890, col: 13, offset: 91514},
+																			pos:        position{line: 2897, col: 13, offset: 91707},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2890, col: 20, offset: 91521},
+																			pos:        position{line: 2897, col: 20, offset: 91714},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2890, col: 29, offset: 91530},
+																			pos:        position{line: 2897, col: 29, offset: 91723},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4488,9 +4488,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2900, col: 8, offset: 91690},
+																pos: position{line: 2907, col: 8, offset: 91883},
 																expr: &anyMatcher{
-																	line: 2900, col: 9, offset: 91691,
+																	line: 2907, col: 9, offset: 91884,
 																},
 															},
 														},
@@ -4505,18 +4505,18 @@ var g = &grammar{
 												pos: position{line: 677, col: 14, offset: 21525},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2898, col: 11, offset: 91676},
+														pos: position{line: 2905, col: 11, offset: 91869},
 														expr: &anyMatcher{
-															line: 2898, col: 13, offset: 91678,
+															line: 2905, col: 13, offset: 91871,
 														},
 													},
 													&zeroOrMoreExpr{
 														pos: position{line: 677, col: 21, offset: 21532},
 														expr: &actionExpr{
-															pos: position{line: 2881, col: 10, offset: 91342},
+															pos: position{line: 2888, col: 10, offset: 91535},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2881, col: 10, offset: 91342},
+																pos:        position{line: 2888, col: 10, offset: 91535},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4525,28 +4525,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2903, col: 8, offset: 91740},
+														pos: position{line: 2910, col: 8, offset: 91933},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2890, col: 12, offset: 91513},
+																pos: position{line: 2897, col: 12, offset: 91706},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2890, col: 13, offset: 91514},
+																	pos: position{line: 2897, col: 13, offset: 91707},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2890, col: 13, offset: 91514},
+																			pos:        position{line: 2897, col: 13, offset: 91707},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2890, col: 20, offset: 91521},
+																			pos:        position{line: 2897, col: 20, offset: 91714},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2890, col: 29, offset: 91530},
+																			pos:        position{line: 2897, col: 29, offset: 91723},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4555,9 +4555,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2900, col: 8, offset: 91690},
+																pos: position{line: 2907, col: 8, offset: 91883},
 																expr: &anyMatcher{
-																	line: 2900, col: 9, offset: 91691,
+																	line: 2907, col: 9, offset: 91884,
 																},
 															},
 														},
@@ -4616,10 +4616,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 743, col: 8, offset: 23745},
 																	expr: &actionExpr{
-																		pos: position{line: 2881, col: 10, offset: 91342},
+																		pos: position{line: 2888, col: 10, offset: 91535},
 																		run: (*parser).callonDocumentFragment86,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2881, col: 10, offset: 91342},
+																			pos:        position{line: 2888, col: 10, offset: 91535},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -4628,28 +4628,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2903, col: 8, offset: 91740},
+																	pos: position{line: 2910, col: 8, offset: 91933},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2890, col: 12, offset: 91513},
+																			pos: position{line: 2897, col: 12, offset: 91706},
 																			run: (*parser).callonDocumentFragment89,
 																			expr: &choiceExpr{
-																				pos: position{line: 2890, col: 13, offset: 91514},
+																				pos: position{line: 2897, col: 13, offset: 91707},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 13, offset: 91514},
+																						pos:        position{line: 2897, col: 13, offset: 91707},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 20, offset: 91521},
+																						pos:        position{line: 2897, col: 20, offset: 91714},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 29, offset: 91530},
+																						pos:        position{line: 2897, col: 29, offset: 91723},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -4658,9 +4658,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2900, col: 8, offset: 91690},
+																			pos: position{line: 2907, col: 8, offset: 91883},
 																			expr: &anyMatcher{
-																				line: 2900, col: 9, offset: 91691,
+																				line: 2907, col: 9, offset: 91884,
 																			},
 																		},
 																	},
@@ -4721,10 +4721,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 743, col: 8, offset: 23745},
 																									expr: &actionExpr{
-																										pos: position{line: 2881, col: 10, offset: 91342},
+																										pos: position{line: 2888, col: 10, offset: 91535},
 																										run: (*parser).callonDocumentFragment111,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2881, col: 10, offset: 91342},
+																											pos:        position{line: 2888, col: 10, offset: 91535},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -4733,28 +4733,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2903, col: 8, offset: 91740},
+																									pos: position{line: 2910, col: 8, offset: 91933},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2890, col: 12, offset: 91513},
+																											pos: position{line: 2897, col: 12, offset: 91706},
 																											run: (*parser).callonDocumentFragment114,
 																											expr: &choiceExpr{
-																												pos: position{line: 2890, col: 13, offset: 91514},
+																												pos: position{line: 2897, col: 13, offset: 91707},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2890, col: 13, offset: 91514},
+																														pos:        position{line: 2897, col: 13, offset: 91707},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2890, col: 20, offset: 91521},
+																														pos:        position{line: 2897, col: 20, offset: 91714},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2890, col: 29, offset: 91530},
+																														pos:        position{line: 2897, col: 29, offset: 91723},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -4763,9 +4763,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2900, col: 8, offset: 91690},
+																											pos: position{line: 2907, col: 8, offset: 91883},
 																											expr: &anyMatcher{
-																												line: 2900, col: 9, offset: 91691,
+																												line: 2907, col: 9, offset: 91884,
 																											},
 																										},
 																									},
@@ -4774,9 +4774,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2900, col: 8, offset: 91690},
+																						pos: position{line: 2907, col: 8, offset: 91883},
 																						expr: &anyMatcher{
-																							line: 2900, col: 9, offset: 91691,
+																							line: 2907, col: 9, offset: 91884,
 																						},
 																					},
 																				},
@@ -4792,21 +4792,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2898, col: 11, offset: 91676},
+																							pos: position{line: 2905, col: 11, offset: 91869},
 																							expr: &anyMatcher{
-																								line: 2898, col: 13, offset: 91678,
+																								line: 2905, col: 13, offset: 91871,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2827, col: 13, offset: 89868},
+																								pos: position{line: 2834, col: 13, offset: 90061},
 																								run: (*parser).callonDocumentFragment129,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2827, col: 13, offset: 89868},
+																									pos: position{line: 2834, col: 13, offset: 90061},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2827, col: 13, offset: 89868},
+																										pos:        position{line: 2834, col: 13, offset: 90061},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4816,28 +4816,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2903, col: 8, offset: 91740},
+																							pos: position{line: 2910, col: 8, offset: 91933},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2890, col: 12, offset: 91513},
+																									pos: position{line: 2897, col: 12, offset: 91706},
 																									run: (*parser).callonDocumentFragment133,
 																									expr: &choiceExpr{
-																										pos: position{line: 2890, col: 13, offset: 91514},
+																										pos: position{line: 2897, col: 13, offset: 91707},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 13, offset: 91514},
+																												pos:        position{line: 2897, col: 13, offset: 91707},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 20, offset: 91521},
+																												pos:        position{line: 2897, col: 20, offset: 91714},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 29, offset: 91530},
+																												pos:        position{line: 2897, col: 29, offset: 91723},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4846,9 +4846,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2900, col: 8, offset: 91690},
+																									pos: position{line: 2907, col: 8, offset: 91883},
 																									expr: &anyMatcher{
-																										line: 2900, col: 9, offset: 91691,
+																										line: 2907, col: 9, offset: 91884,
 																									},
 																								},
 																							},
@@ -4904,10 +4904,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 743, col: 8, offset: 23745},
 																				expr: &actionExpr{
-																					pos: position{line: 2881, col: 10, offset: 91342},
+																					pos: position{line: 2888, col: 10, offset: 91535},
 																					run: (*parser).callonDocumentFragment151,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2881, col: 10, offset: 91342},
+																						pos:        position{line: 2888, col: 10, offset: 91535},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -4916,28 +4916,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2903, col: 8, offset: 91740},
+																				pos: position{line: 2910, col: 8, offset: 91933},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2890, col: 12, offset: 91513},
+																						pos: position{line: 2897, col: 12, offset: 91706},
 																						run: (*parser).callonDocumentFragment154,
 																						expr: &choiceExpr{
-																							pos: position{line: 2890, col: 13, offset: 91514},
+																							pos: position{line: 2897, col: 13, offset: 91707},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2890, col: 13, offset: 91514},
+																									pos:        position{line: 2897, col: 13, offset: 91707},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2890, col: 20, offset: 91521},
+																									pos:        position{line: 2897, col: 20, offset: 91714},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2890, col: 29, offset: 91530},
+																									pos:        position{line: 2897, col: 29, offset: 91723},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -4946,9 +4946,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2900, col: 8, offset: 91690},
+																						pos: position{line: 2907, col: 8, offset: 91883},
 																						expr: &anyMatcher{
-																							line: 2900, col: 9, offset: 91691,
+																							line: 2907, col: 9, offset: 91884,
 																						},
 																					},
 																				},
@@ -4957,9 +4957,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2900, col: 8, offset: 91690},
+																	pos: position{line: 2907, col: 8, offset: 91883},
 																	expr: &anyMatcher{
-																		line: 2900, col: 9, offset: 91691,
+																		line: 2907, col: 9, offset: 91884,
 																	},
 																},
 															},
@@ -5014,10 +5014,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 750, col: 8, offset: 23993},
 																		expr: &actionExpr{
-																			pos: position{line: 2881, col: 10, offset: 91342},
+																			pos: position{line: 2888, col: 10, offset: 91535},
 																			run: (*parser).callonDocumentFragment175,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2881, col: 10, offset: 91342},
+																				pos:        position{line: 2888, col: 10, offset: 91535},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5026,28 +5026,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2903, col: 8, offset: 91740},
+																		pos: position{line: 2910, col: 8, offset: 91933},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2890, col: 12, offset: 91513},
+																				pos: position{line: 2897, col: 12, offset: 91706},
 																				run: (*parser).callonDocumentFragment178,
 																				expr: &choiceExpr{
-																					pos: position{line: 2890, col: 13, offset: 91514},
+																					pos: position{line: 2897, col: 13, offset: 91707},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 13, offset: 91514},
+																							pos:        position{line: 2897, col: 13, offset: 91707},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 20, offset: 91521},
+																							pos:        position{line: 2897, col: 20, offset: 91714},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 29, offset: 91530},
+																							pos:        position{line: 2897, col: 29, offset: 91723},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5056,9 +5056,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2900, col: 8, offset: 91690},
+																				pos: position{line: 2907, col: 8, offset: 91883},
 																				expr: &anyMatcher{
-																					line: 2900, col: 9, offset: 91691,
+																					line: 2907, col: 9, offset: 91884,
 																				},
 																			},
 																		},
@@ -5130,10 +5130,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 750, col: 8, offset: 23993},
 																												expr: &actionExpr{
-																													pos: position{line: 2881, col: 10, offset: 91342},
+																													pos: position{line: 2888, col: 10, offset: 91535},
 																													run: (*parser).callonDocumentFragment203,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2881, col: 10, offset: 91342},
+																														pos:        position{line: 2888, col: 10, offset: 91535},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5142,28 +5142,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2903, col: 8, offset: 91740},
+																												pos: position{line: 2910, col: 8, offset: 91933},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2890, col: 12, offset: 91513},
+																														pos: position{line: 2897, col: 12, offset: 91706},
 																														run: (*parser).callonDocumentFragment206,
 																														expr: &choiceExpr{
-																															pos: position{line: 2890, col: 13, offset: 91514},
+																															pos: position{line: 2897, col: 13, offset: 91707},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2890, col: 13, offset: 91514},
+																																	pos:        position{line: 2897, col: 13, offset: 91707},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2890, col: 20, offset: 91521},
+																																	pos:        position{line: 2897, col: 20, offset: 91714},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2890, col: 29, offset: 91530},
+																																	pos:        position{line: 2897, col: 29, offset: 91723},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5172,9 +5172,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2900, col: 8, offset: 91690},
+																														pos: position{line: 2907, col: 8, offset: 91883},
 																														expr: &anyMatcher{
-																															line: 2900, col: 9, offset: 91691,
+																															line: 2907, col: 9, offset: 91884,
 																														},
 																													},
 																												},
@@ -5190,9 +5190,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2900, col: 8, offset: 91690},
+																						pos: position{line: 2907, col: 8, offset: 91883},
 																						expr: &anyMatcher{
-																							line: 2900, col: 9, offset: 91691,
+																							line: 2907, col: 9, offset: 91884,
 																						},
 																					},
 																				},
@@ -5208,21 +5208,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2898, col: 11, offset: 91676},
+																							pos: position{line: 2905, col: 11, offset: 91869},
 																							expr: &anyMatcher{
-																								line: 2898, col: 13, offset: 91678,
+																								line: 2905, col: 13, offset: 91871,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2827, col: 13, offset: 89868},
+																								pos: position{line: 2834, col: 13, offset: 90061},
 																								run: (*parser).callonDocumentFragment222,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2827, col: 13, offset: 89868},
+																									pos: position{line: 2834, col: 13, offset: 90061},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2827, col: 13, offset: 89868},
+																										pos:        position{line: 2834, col: 13, offset: 90061},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5232,28 +5232,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2903, col: 8, offset: 91740},
+																							pos: position{line: 2910, col: 8, offset: 91933},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2890, col: 12, offset: 91513},
+																									pos: position{line: 2897, col: 12, offset: 91706},
 																									run: (*parser).callonDocumentFragment226,
 																									expr: &choiceExpr{
-																										pos: position{line: 2890, col: 13, offset: 91514},
+																										pos: position{line: 2897, col: 13, offset: 91707},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 13, offset: 91514},
+																												pos:        position{line: 2897, col: 13, offset: 91707},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 20, offset: 91521},
+																												pos:        position{line: 2897, col: 20, offset: 91714},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 29, offset: 91530},
+																												pos:        position{line: 2897, col: 29, offset: 91723},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5262,9 +5262,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2900, col: 8, offset: 91690},
+																									pos: position{line: 2907, col: 8, offset: 91883},
 																									expr: &anyMatcher{
-																										line: 2900, col: 9, offset: 91691,
+																										line: 2907, col: 9, offset: 91884,
 																									},
 																								},
 																							},
@@ -5329,10 +5329,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 750, col: 8, offset: 23993},
 																								expr: &actionExpr{
-																									pos: position{line: 2881, col: 10, offset: 91342},
+																									pos: position{line: 2888, col: 10, offset: 91535},
 																									run: (*parser).callonDocumentFragment247,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2881, col: 10, offset: 91342},
+																										pos:        position{line: 2888, col: 10, offset: 91535},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5341,28 +5341,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2903, col: 8, offset: 91740},
+																								pos: position{line: 2910, col: 8, offset: 91933},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2890, col: 12, offset: 91513},
+																										pos: position{line: 2897, col: 12, offset: 91706},
 																										run: (*parser).callonDocumentFragment250,
 																										expr: &choiceExpr{
-																											pos: position{line: 2890, col: 13, offset: 91514},
+																											pos: position{line: 2897, col: 13, offset: 91707},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2890, col: 13, offset: 91514},
+																													pos:        position{line: 2897, col: 13, offset: 91707},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2890, col: 20, offset: 91521},
+																													pos:        position{line: 2897, col: 20, offset: 91714},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2890, col: 29, offset: 91530},
+																													pos:        position{line: 2897, col: 29, offset: 91723},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5371,9 +5371,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2900, col: 8, offset: 91690},
+																										pos: position{line: 2907, col: 8, offset: 91883},
 																										expr: &anyMatcher{
-																											line: 2900, col: 9, offset: 91691,
+																											line: 2907, col: 9, offset: 91884,
 																										},
 																									},
 																								},
@@ -5389,9 +5389,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2900, col: 8, offset: 91690},
+																		pos: position{line: 2907, col: 8, offset: 91883},
 																		expr: &anyMatcher{
-																			line: 2900, col: 9, offset: 91691,
+																			line: 2907, col: 9, offset: 91884,
 																		},
 																	},
 																},
@@ -5443,10 +5443,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 761, col: 52, offset: 24405},
 																		expr: &actionExpr{
-																			pos: position{line: 2881, col: 10, offset: 91342},
+																			pos: position{line: 2888, col: 10, offset: 91535},
 																			run: (*parser).callonDocumentFragment271,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2881, col: 10, offset: 91342},
+																				pos:        position{line: 2888, col: 10, offset: 91535},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5455,28 +5455,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2903, col: 8, offset: 91740},
+																		pos: position{line: 2910, col: 8, offset: 91933},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2890, col: 12, offset: 91513},
+																				pos: position{line: 2897, col: 12, offset: 91706},
 																				run: (*parser).callonDocumentFragment274,
 																				expr: &choiceExpr{
-																					pos: position{line: 2890, col: 13, offset: 91514},
+																					pos: position{line: 2897, col: 13, offset: 91707},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 13, offset: 91514},
+																							pos:        position{line: 2897, col: 13, offset: 91707},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 20, offset: 91521},
+																							pos:        position{line: 2897, col: 20, offset: 91714},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 29, offset: 91530},
+																							pos:        position{line: 2897, col: 29, offset: 91723},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5485,9 +5485,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2900, col: 8, offset: 91690},
+																				pos: position{line: 2907, col: 8, offset: 91883},
 																				expr: &anyMatcher{
-																					line: 2900, col: 9, offset: 91691,
+																					line: 2907, col: 9, offset: 91884,
 																				},
 																			},
 																		},
@@ -5521,10 +5521,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 964, col: 40, offset: 30213},
 																						expr: &actionExpr{
-																							pos: position{line: 2881, col: 10, offset: 91342},
+																							pos: position{line: 2888, col: 10, offset: 91535},
 																							run: (*parser).callonDocumentFragment289,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2881, col: 10, offset: 91342},
+																								pos:        position{line: 2888, col: 10, offset: 91535},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5533,28 +5533,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2903, col: 8, offset: 91740},
+																						pos: position{line: 2910, col: 8, offset: 91933},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2890, col: 12, offset: 91513},
+																								pos: position{line: 2897, col: 12, offset: 91706},
 																								run: (*parser).callonDocumentFragment292,
 																								expr: &choiceExpr{
-																									pos: position{line: 2890, col: 13, offset: 91514},
+																									pos: position{line: 2897, col: 13, offset: 91707},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 13, offset: 91514},
+																											pos:        position{line: 2897, col: 13, offset: 91707},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 20, offset: 91521},
+																											pos:        position{line: 2897, col: 20, offset: 91714},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 29, offset: 91530},
+																											pos:        position{line: 2897, col: 29, offset: 91723},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5563,9 +5563,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2900, col: 8, offset: 91690},
+																								pos: position{line: 2907, col: 8, offset: 91883},
 																								expr: &anyMatcher{
-																									line: 2900, col: 9, offset: 91691,
+																									line: 2907, col: 9, offset: 91884,
 																								},
 																							},
 																						},
@@ -5583,21 +5583,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2898, col: 11, offset: 91676},
+																							pos: position{line: 2905, col: 11, offset: 91869},
 																							expr: &anyMatcher{
-																								line: 2898, col: 13, offset: 91678,
+																								line: 2905, col: 13, offset: 91871,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2827, col: 13, offset: 89868},
+																								pos: position{line: 2834, col: 13, offset: 90061},
 																								run: (*parser).callonDocumentFragment305,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2827, col: 13, offset: 89868},
+																									pos: position{line: 2834, col: 13, offset: 90061},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2827, col: 13, offset: 89868},
+																										pos:        position{line: 2834, col: 13, offset: 90061},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5607,28 +5607,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2903, col: 8, offset: 91740},
+																							pos: position{line: 2910, col: 8, offset: 91933},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2890, col: 12, offset: 91513},
+																									pos: position{line: 2897, col: 12, offset: 91706},
 																									run: (*parser).callonDocumentFragment309,
 																									expr: &choiceExpr{
-																										pos: position{line: 2890, col: 13, offset: 91514},
+																										pos: position{line: 2897, col: 13, offset: 91707},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 13, offset: 91514},
+																												pos:        position{line: 2897, col: 13, offset: 91707},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 20, offset: 91521},
+																												pos:        position{line: 2897, col: 20, offset: 91714},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 29, offset: 91530},
+																												pos:        position{line: 2897, col: 29, offset: 91723},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5637,9 +5637,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2900, col: 8, offset: 91690},
+																									pos: position{line: 2907, col: 8, offset: 91883},
 																									expr: &anyMatcher{
-																										line: 2900, col: 9, offset: 91691,
+																										line: 2907, col: 9, offset: 91884,
 																									},
 																								},
 																							},
@@ -5667,10 +5667,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 964, col: 40, offset: 30213},
 																	expr: &actionExpr{
-																		pos: position{line: 2881, col: 10, offset: 91342},
+																		pos: position{line: 2888, col: 10, offset: 91535},
 																		run: (*parser).callonDocumentFragment320,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2881, col: 10, offset: 91342},
+																			pos:        position{line: 2888, col: 10, offset: 91535},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5679,28 +5679,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2903, col: 8, offset: 91740},
+																	pos: position{line: 2910, col: 8, offset: 91933},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2890, col: 12, offset: 91513},
+																			pos: position{line: 2897, col: 12, offset: 91706},
 																			run: (*parser).callonDocumentFragment323,
 																			expr: &choiceExpr{
-																				pos: position{line: 2890, col: 13, offset: 91514},
+																				pos: position{line: 2897, col: 13, offset: 91707},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 13, offset: 91514},
+																						pos:        position{line: 2897, col: 13, offset: 91707},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 20, offset: 91521},
+																						pos:        position{line: 2897, col: 20, offset: 91714},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 29, offset: 91530},
+																						pos:        position{line: 2897, col: 29, offset: 91723},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5709,9 +5709,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2900, col: 8, offset: 91690},
+																			pos: position{line: 2907, col: 8, offset: 91883},
 																			expr: &anyMatcher{
-																				line: 2900, col: 9, offset: 91691,
+																				line: 2907, col: 9, offset: 91884,
 																			},
 																		},
 																	},
@@ -5768,10 +5768,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 757, col: 8, offset: 24239},
 																		expr: &actionExpr{
-																			pos: position{line: 2881, col: 10, offset: 91342},
+																			pos: position{line: 2888, col: 10, offset: 91535},
 																			run: (*parser).callonDocumentFragment342,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2881, col: 10, offset: 91342},
+																				pos:        position{line: 2888, col: 10, offset: 91535},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5780,28 +5780,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2903, col: 8, offset: 91740},
+																		pos: position{line: 2910, col: 8, offset: 91933},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2890, col: 12, offset: 91513},
+																				pos: position{line: 2897, col: 12, offset: 91706},
 																				run: (*parser).callonDocumentFragment345,
 																				expr: &choiceExpr{
-																					pos: position{line: 2890, col: 13, offset: 91514},
+																					pos: position{line: 2897, col: 13, offset: 91707},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 13, offset: 91514},
+																							pos:        position{line: 2897, col: 13, offset: 91707},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 20, offset: 91521},
+																							pos:        position{line: 2897, col: 20, offset: 91714},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 29, offset: 91530},
+																							pos:        position{line: 2897, col: 29, offset: 91723},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5810,9 +5810,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2900, col: 8, offset: 91690},
+																				pos: position{line: 2907, col: 8, offset: 91883},
 																				expr: &anyMatcher{
-																					line: 2900, col: 9, offset: 91691,
+																					line: 2907, col: 9, offset: 91884,
 																				},
 																			},
 																		},
@@ -5884,10 +5884,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 757, col: 8, offset: 24239},
 																												expr: &actionExpr{
-																													pos: position{line: 2881, col: 10, offset: 91342},
+																													pos: position{line: 2888, col: 10, offset: 91535},
 																													run: (*parser).callonDocumentFragment370,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2881, col: 10, offset: 91342},
+																														pos:        position{line: 2888, col: 10, offset: 91535},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5896,28 +5896,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2903, col: 8, offset: 91740},
+																												pos: position{line: 2910, col: 8, offset: 91933},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2890, col: 12, offset: 91513},
+																														pos: position{line: 2897, col: 12, offset: 91706},
 																														run: (*parser).callonDocumentFragment373,
 																														expr: &choiceExpr{
-																															pos: position{line: 2890, col: 13, offset: 91514},
+																															pos: position{line: 2897, col: 13, offset: 91707},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2890, col: 13, offset: 91514},
+																																	pos:        position{line: 2897, col: 13, offset: 91707},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2890, col: 20, offset: 91521},
+																																	pos:        position{line: 2897, col: 20, offset: 91714},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2890, col: 29, offset: 91530},
+																																	pos:        position{line: 2897, col: 29, offset: 91723},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5926,9 +5926,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2900, col: 8, offset: 91690},
+																														pos: position{line: 2907, col: 8, offset: 91883},
 																														expr: &anyMatcher{
-																															line: 2900, col: 9, offset: 91691,
+																															line: 2907, col: 9, offset: 91884,
 																														},
 																													},
 																												},
@@ -5944,9 +5944,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2900, col: 8, offset: 91690},
+																						pos: position{line: 2907, col: 8, offset: 91883},
 																						expr: &anyMatcher{
-																							line: 2900, col: 9, offset: 91691,
+																							line: 2907, col: 9, offset: 91884,
 																						},
 																					},
 																				},
@@ -5962,21 +5962,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2898, col: 11, offset: 91676},
+																							pos: position{line: 2905, col: 11, offset: 91869},
 																							expr: &anyMatcher{
-																								line: 2898, col: 13, offset: 91678,
+																								line: 2905, col: 13, offset: 91871,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2827, col: 13, offset: 89868},
+																								pos: position{line: 2834, col: 13, offset: 90061},
 																								run: (*parser).callonDocumentFragment389,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2827, col: 13, offset: 89868},
+																									pos: position{line: 2834, col: 13, offset: 90061},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2827, col: 13, offset: 89868},
+																										pos:        position{line: 2834, col: 13, offset: 90061},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5986,28 +5986,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2903, col: 8, offset: 91740},
+																							pos: position{line: 2910, col: 8, offset: 91933},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2890, col: 12, offset: 91513},
+																									pos: position{line: 2897, col: 12, offset: 91706},
 																									run: (*parser).callonDocumentFragment393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2890, col: 13, offset: 91514},
+																										pos: position{line: 2897, col: 13, offset: 91707},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 13, offset: 91514},
+																												pos:        position{line: 2897, col: 13, offset: 91707},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 20, offset: 91521},
+																												pos:        position{line: 2897, col: 20, offset: 91714},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 29, offset: 91530},
+																												pos:        position{line: 2897, col: 29, offset: 91723},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6016,9 +6016,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2900, col: 8, offset: 91690},
+																									pos: position{line: 2907, col: 8, offset: 91883},
 																									expr: &anyMatcher{
-																										line: 2900, col: 9, offset: 91691,
+																										line: 2907, col: 9, offset: 91884,
 																									},
 																								},
 																							},
@@ -6083,10 +6083,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 757, col: 8, offset: 24239},
 																								expr: &actionExpr{
-																									pos: position{line: 2881, col: 10, offset: 91342},
+																									pos: position{line: 2888, col: 10, offset: 91535},
 																									run: (*parser).callonDocumentFragment414,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2881, col: 10, offset: 91342},
+																										pos:        position{line: 2888, col: 10, offset: 91535},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6095,28 +6095,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2903, col: 8, offset: 91740},
+																								pos: position{line: 2910, col: 8, offset: 91933},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2890, col: 12, offset: 91513},
+																										pos: position{line: 2897, col: 12, offset: 91706},
 																										run: (*parser).callonDocumentFragment417,
 																										expr: &choiceExpr{
-																											pos: position{line: 2890, col: 13, offset: 91514},
+																											pos: position{line: 2897, col: 13, offset: 91707},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2890, col: 13, offset: 91514},
+																													pos:        position{line: 2897, col: 13, offset: 91707},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2890, col: 20, offset: 91521},
+																													pos:        position{line: 2897, col: 20, offset: 91714},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2890, col: 29, offset: 91530},
+																													pos:        position{line: 2897, col: 29, offset: 91723},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6125,9 +6125,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2900, col: 8, offset: 91690},
+																										pos: position{line: 2907, col: 8, offset: 91883},
 																										expr: &anyMatcher{
-																											line: 2900, col: 9, offset: 91691,
+																											line: 2907, col: 9, offset: 91884,
 																										},
 																									},
 																								},
@@ -6143,9 +6143,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2900, col: 8, offset: 91690},
+																		pos: position{line: 2907, col: 8, offset: 91883},
 																		expr: &anyMatcher{
-																			line: 2900, col: 9, offset: 91691,
+																			line: 2907, col: 9, offset: 91884,
 																		},
 																	},
 																},
@@ -6201,10 +6201,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 772, col: 8, offset: 24782},
 																		expr: &actionExpr{
-																			pos: position{line: 2881, col: 10, offset: 91342},
+																			pos: position{line: 2888, col: 10, offset: 91535},
 																			run: (*parser).callonDocumentFragment439,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2881, col: 10, offset: 91342},
+																				pos:        position{line: 2888, col: 10, offset: 91535},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6213,28 +6213,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2903, col: 8, offset: 91740},
+																		pos: position{line: 2910, col: 8, offset: 91933},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2890, col: 12, offset: 91513},
+																				pos: position{line: 2897, col: 12, offset: 91706},
 																				run: (*parser).callonDocumentFragment442,
 																				expr: &choiceExpr{
-																					pos: position{line: 2890, col: 13, offset: 91514},
+																					pos: position{line: 2897, col: 13, offset: 91707},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 13, offset: 91514},
+																							pos:        position{line: 2897, col: 13, offset: 91707},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 20, offset: 91521},
+																							pos:        position{line: 2897, col: 20, offset: 91714},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 29, offset: 91530},
+																							pos:        position{line: 2897, col: 29, offset: 91723},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6243,9 +6243,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2900, col: 8, offset: 91690},
+																				pos: position{line: 2907, col: 8, offset: 91883},
 																				expr: &anyMatcher{
-																					line: 2900, col: 9, offset: 91691,
+																					line: 2907, col: 9, offset: 91884,
 																				},
 																			},
 																		},
@@ -6317,10 +6317,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 772, col: 8, offset: 24782},
 																												expr: &actionExpr{
-																													pos: position{line: 2881, col: 10, offset: 91342},
+																													pos: position{line: 2888, col: 10, offset: 91535},
 																													run: (*parser).callonDocumentFragment467,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2881, col: 10, offset: 91342},
+																														pos:        position{line: 2888, col: 10, offset: 91535},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6329,28 +6329,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2903, col: 8, offset: 91740},
+																												pos: position{line: 2910, col: 8, offset: 91933},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2890, col: 12, offset: 91513},
+																														pos: position{line: 2897, col: 12, offset: 91706},
 																														run: (*parser).callonDocumentFragment470,
 																														expr: &choiceExpr{
-																															pos: position{line: 2890, col: 13, offset: 91514},
+																															pos: position{line: 2897, col: 13, offset: 91707},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2890, col: 13, offset: 91514},
+																																	pos:        position{line: 2897, col: 13, offset: 91707},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2890, col: 20, offset: 91521},
+																																	pos:        position{line: 2897, col: 20, offset: 91714},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2890, col: 29, offset: 91530},
+																																	pos:        position{line: 2897, col: 29, offset: 91723},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6359,9 +6359,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2900, col: 8, offset: 91690},
+																														pos: position{line: 2907, col: 8, offset: 91883},
 																														expr: &anyMatcher{
-																															line: 2900, col: 9, offset: 91691,
+																															line: 2907, col: 9, offset: 91884,
 																														},
 																													},
 																												},
@@ -6377,9 +6377,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2900, col: 8, offset: 91690},
+																						pos: position{line: 2907, col: 8, offset: 91883},
 																						expr: &anyMatcher{
-																							line: 2900, col: 9, offset: 91691,
+																							line: 2907, col: 9, offset: 91884,
 																						},
 																					},
 																				},
@@ -6395,21 +6395,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2898, col: 11, offset: 91676},
+																							pos: position{line: 2905, col: 11, offset: 91869},
 																							expr: &anyMatcher{
-																								line: 2898, col: 13, offset: 91678,
+																								line: 2905, col: 13, offset: 91871,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2827, col: 13, offset: 89868},
+																								pos: position{line: 2834, col: 13, offset: 90061},
 																								run: (*parser).callonDocumentFragment486,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2827, col: 13, offset: 89868},
+																									pos: position{line: 2834, col: 13, offset: 90061},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2827, col: 13, offset: 89868},
+																										pos:        position{line: 2834, col: 13, offset: 90061},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6419,28 +6419,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2903, col: 8, offset: 91740},
+																							pos: position{line: 2910, col: 8, offset: 91933},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2890, col: 12, offset: 91513},
+																									pos: position{line: 2897, col: 12, offset: 91706},
 																									run: (*parser).callonDocumentFragment490,
 																									expr: &choiceExpr{
-																										pos: position{line: 2890, col: 13, offset: 91514},
+																										pos: position{line: 2897, col: 13, offset: 91707},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 13, offset: 91514},
+																												pos:        position{line: 2897, col: 13, offset: 91707},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 20, offset: 91521},
+																												pos:        position{line: 2897, col: 20, offset: 91714},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 29, offset: 91530},
+																												pos:        position{line: 2897, col: 29, offset: 91723},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6449,9 +6449,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2900, col: 8, offset: 91690},
+																									pos: position{line: 2907, col: 8, offset: 91883},
 																									expr: &anyMatcher{
-																										line: 2900, col: 9, offset: 91691,
+																										line: 2907, col: 9, offset: 91884,
 																									},
 																								},
 																							},
@@ -6516,10 +6516,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 772, col: 8, offset: 24782},
 																								expr: &actionExpr{
-																									pos: position{line: 2881, col: 10, offset: 91342},
+																									pos: position{line: 2888, col: 10, offset: 91535},
 																									run: (*parser).callonDocumentFragment511,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2881, col: 10, offset: 91342},
+																										pos:        position{line: 2888, col: 10, offset: 91535},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6528,28 +6528,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2903, col: 8, offset: 91740},
+																								pos: position{line: 2910, col: 8, offset: 91933},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2890, col: 12, offset: 91513},
+																										pos: position{line: 2897, col: 12, offset: 91706},
 																										run: (*parser).callonDocumentFragment514,
 																										expr: &choiceExpr{
-																											pos: position{line: 2890, col: 13, offset: 91514},
+																											pos: position{line: 2897, col: 13, offset: 91707},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2890, col: 13, offset: 91514},
+																													pos:        position{line: 2897, col: 13, offset: 91707},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2890, col: 20, offset: 91521},
+																													pos:        position{line: 2897, col: 20, offset: 91714},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2890, col: 29, offset: 91530},
+																													pos:        position{line: 2897, col: 29, offset: 91723},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6558,9 +6558,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2900, col: 8, offset: 91690},
+																										pos: position{line: 2907, col: 8, offset: 91883},
 																										expr: &anyMatcher{
-																											line: 2900, col: 9, offset: 91691,
+																											line: 2907, col: 9, offset: 91884,
 																										},
 																									},
 																								},
@@ -6576,9 +6576,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2900, col: 8, offset: 91690},
+																		pos: position{line: 2907, col: 8, offset: 91883},
 																		expr: &anyMatcher{
-																			line: 2900, col: 9, offset: 91691,
+																			line: 2907, col: 9, offset: 91884,
 																		},
 																	},
 																},
@@ -6634,10 +6634,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 786, col: 8, offset: 25258},
 																		expr: &actionExpr{
-																			pos: position{line: 2881, col: 10, offset: 91342},
+																			pos: position{line: 2888, col: 10, offset: 91535},
 																			run: (*parser).callonDocumentFragment536,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2881, col: 10, offset: 91342},
+																				pos:        position{line: 2888, col: 10, offset: 91535},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6646,28 +6646,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2903, col: 8, offset: 91740},
+																		pos: position{line: 2910, col: 8, offset: 91933},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2890, col: 12, offset: 91513},
+																				pos: position{line: 2897, col: 12, offset: 91706},
 																				run: (*parser).callonDocumentFragment539,
 																				expr: &choiceExpr{
-																					pos: position{line: 2890, col: 13, offset: 91514},
+																					pos: position{line: 2897, col: 13, offset: 91707},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 13, offset: 91514},
+																							pos:        position{line: 2897, col: 13, offset: 91707},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 20, offset: 91521},
+																							pos:        position{line: 2897, col: 20, offset: 91714},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 29, offset: 91530},
+																							pos:        position{line: 2897, col: 29, offset: 91723},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6676,9 +6676,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2900, col: 8, offset: 91690},
+																				pos: position{line: 2907, col: 8, offset: 91883},
 																				expr: &anyMatcher{
-																					line: 2900, col: 9, offset: 91691,
+																					line: 2907, col: 9, offset: 91884,
 																				},
 																			},
 																		},
@@ -6750,10 +6750,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 786, col: 8, offset: 25258},
 																												expr: &actionExpr{
-																													pos: position{line: 2881, col: 10, offset: 91342},
+																													pos: position{line: 2888, col: 10, offset: 91535},
 																													run: (*parser).callonDocumentFragment564,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2881, col: 10, offset: 91342},
+																														pos:        position{line: 2888, col: 10, offset: 91535},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6762,28 +6762,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2903, col: 8, offset: 91740},
+																												pos: position{line: 2910, col: 8, offset: 91933},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2890, col: 12, offset: 91513},
+																														pos: position{line: 2897, col: 12, offset: 91706},
 																														run: (*parser).callonDocumentFragment567,
 																														expr: &choiceExpr{
-																															pos: position{line: 2890, col: 13, offset: 91514},
+																															pos: position{line: 2897, col: 13, offset: 91707},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2890, col: 13, offset: 91514},
+																																	pos:        position{line: 2897, col: 13, offset: 91707},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2890, col: 20, offset: 91521},
+																																	pos:        position{line: 2897, col: 20, offset: 91714},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2890, col: 29, offset: 91530},
+																																	pos:        position{line: 2897, col: 29, offset: 91723},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6792,9 +6792,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2900, col: 8, offset: 91690},
+																														pos: position{line: 2907, col: 8, offset: 91883},
 																														expr: &anyMatcher{
-																															line: 2900, col: 9, offset: 91691,
+																															line: 2907, col: 9, offset: 91884,
 																														},
 																													},
 																												},
@@ -6810,9 +6810,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2900, col: 8, offset: 91690},
+																						pos: position{line: 2907, col: 8, offset: 91883},
 																						expr: &anyMatcher{
-																							line: 2900, col: 9, offset: 91691,
+																							line: 2907, col: 9, offset: 91884,
 																						},
 																					},
 																				},
@@ -6828,21 +6828,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2898, col: 11, offset: 91676},
+																							pos: position{line: 2905, col: 11, offset: 91869},
 																							expr: &anyMatcher{
-																								line: 2898, col: 13, offset: 91678,
+																								line: 2905, col: 13, offset: 91871,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2827, col: 13, offset: 89868},
+																								pos: position{line: 2834, col: 13, offset: 90061},
 																								run: (*parser).callonDocumentFragment583,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2827, col: 13, offset: 89868},
+																									pos: position{line: 2834, col: 13, offset: 90061},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2827, col: 13, offset: 89868},
+																										pos:        position{line: 2834, col: 13, offset: 90061},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6852,28 +6852,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2903, col: 8, offset: 91740},
+																							pos: position{line: 2910, col: 8, offset: 91933},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2890, col: 12, offset: 91513},
+																									pos: position{line: 2897, col: 12, offset: 91706},
 																									run: (*parser).callonDocumentFragment587,
 																									expr: &choiceExpr{
-																										pos: position{line: 2890, col: 13, offset: 91514},
+																										pos: position{line: 2897, col: 13, offset: 91707},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 13, offset: 91514},
+																												pos:        position{line: 2897, col: 13, offset: 91707},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 20, offset: 91521},
+																												pos:        position{line: 2897, col: 20, offset: 91714},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 29, offset: 91530},
+																												pos:        position{line: 2897, col: 29, offset: 91723},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6882,9 +6882,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2900, col: 8, offset: 91690},
+																									pos: position{line: 2907, col: 8, offset: 91883},
 																									expr: &anyMatcher{
-																										line: 2900, col: 9, offset: 91691,
+																										line: 2907, col: 9, offset: 91884,
 																									},
 																								},
 																							},
@@ -6949,10 +6949,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 786, col: 8, offset: 25258},
 																								expr: &actionExpr{
-																									pos: position{line: 2881, col: 10, offset: 91342},
+																									pos: position{line: 2888, col: 10, offset: 91535},
 																									run: (*parser).callonDocumentFragment608,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2881, col: 10, offset: 91342},
+																										pos:        position{line: 2888, col: 10, offset: 91535},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6961,28 +6961,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2903, col: 8, offset: 91740},
+																								pos: position{line: 2910, col: 8, offset: 91933},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2890, col: 12, offset: 91513},
+																										pos: position{line: 2897, col: 12, offset: 91706},
 																										run: (*parser).callonDocumentFragment611,
 																										expr: &choiceExpr{
-																											pos: position{line: 2890, col: 13, offset: 91514},
+																											pos: position{line: 2897, col: 13, offset: 91707},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2890, col: 13, offset: 91514},
+																													pos:        position{line: 2897, col: 13, offset: 91707},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2890, col: 20, offset: 91521},
+																													pos:        position{line: 2897, col: 20, offset: 91714},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2890, col: 29, offset: 91530},
+																													pos:        position{line: 2897, col: 29, offset: 91723},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6991,9 +6991,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2900, col: 8, offset: 91690},
+																										pos: position{line: 2907, col: 8, offset: 91883},
 																										expr: &anyMatcher{
-																											line: 2900, col: 9, offset: 91691,
+																											line: 2907, col: 9, offset: 91884,
 																										},
 																									},
 																								},
@@ -7009,9 +7009,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2900, col: 8, offset: 91690},
+																		pos: position{line: 2907, col: 8, offset: 91883},
 																		expr: &anyMatcher{
-																			line: 2900, col: 9, offset: 91691,
+																			line: 2907, col: 9, offset: 91884,
 																		},
 																	},
 																},
@@ -7045,18 +7045,18 @@ var g = &grammar{
 																				pos: position{line: 677, col: 14, offset: 21525},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2898, col: 11, offset: 91676},
+																						pos: position{line: 2905, col: 11, offset: 91869},
 																						expr: &anyMatcher{
-																							line: 2898, col: 13, offset: 91678,
+																							line: 2905, col: 13, offset: 91871,
 																						},
 																					},
 																					&zeroOrMoreExpr{
 																						pos: position{line: 677, col: 21, offset: 21532},
 																						expr: &actionExpr{
-																							pos: position{line: 2881, col: 10, offset: 91342},
+																							pos: position{line: 2888, col: 10, offset: 91535},
 																							run: (*parser).callonDocumentFragment632,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2881, col: 10, offset: 91342},
+																								pos:        position{line: 2888, col: 10, offset: 91535},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -7065,28 +7065,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2903, col: 8, offset: 91740},
+																						pos: position{line: 2910, col: 8, offset: 91933},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2890, col: 12, offset: 91513},
+																								pos: position{line: 2897, col: 12, offset: 91706},
 																								run: (*parser).callonDocumentFragment635,
 																								expr: &choiceExpr{
-																									pos: position{line: 2890, col: 13, offset: 91514},
+																									pos: position{line: 2897, col: 13, offset: 91707},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 13, offset: 91514},
+																											pos:        position{line: 2897, col: 13, offset: 91707},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 20, offset: 91521},
+																											pos:        position{line: 2897, col: 20, offset: 91714},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 29, offset: 91530},
+																											pos:        position{line: 2897, col: 29, offset: 91723},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -7095,9 +7095,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2900, col: 8, offset: 91690},
+																								pos: position{line: 2907, col: 8, offset: 91883},
 																								expr: &anyMatcher{
-																									line: 2900, col: 9, offset: 91691,
+																									line: 2907, col: 9, offset: 91884,
 																								},
 																							},
 																						},
@@ -7116,12 +7116,12 @@ var g = &grammar{
 																		pos:   position{line: 985, col: 5, offset: 30748},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2831, col: 14, offset: 89935},
+																			pos: position{line: 2838, col: 14, offset: 90128},
 																			run: (*parser).callonDocumentFragment644,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2831, col: 14, offset: 89935},
+																				pos: position{line: 2838, col: 14, offset: 90128},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2831, col: 14, offset: 89935},
+																					pos:        position{line: 2838, col: 14, offset: 90128},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -7131,28 +7131,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2903, col: 8, offset: 91740},
+																		pos: position{line: 2910, col: 8, offset: 91933},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2890, col: 12, offset: 91513},
+																				pos: position{line: 2897, col: 12, offset: 91706},
 																				run: (*parser).callonDocumentFragment648,
 																				expr: &choiceExpr{
-																					pos: position{line: 2890, col: 13, offset: 91514},
+																					pos: position{line: 2897, col: 13, offset: 91707},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 13, offset: 91514},
+																							pos:        position{line: 2897, col: 13, offset: 91707},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 20, offset: 91521},
+																							pos:        position{line: 2897, col: 20, offset: 91714},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 29, offset: 91530},
+																							pos:        position{line: 2897, col: 29, offset: 91723},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7161,9 +7161,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2900, col: 8, offset: 91690},
+																				pos: position{line: 2907, col: 8, offset: 91883},
 																				expr: &anyMatcher{
-																					line: 2900, col: 9, offset: 91691,
+																					line: 2907, col: 9, offset: 91884,
 																				},
 																			},
 																		},
@@ -7195,18 +7195,18 @@ var g = &grammar{
 																							pos: position{line: 677, col: 14, offset: 21525},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2898, col: 11, offset: 91676},
+																									pos: position{line: 2905, col: 11, offset: 91869},
 																									expr: &anyMatcher{
-																										line: 2898, col: 13, offset: 91678,
+																										line: 2905, col: 13, offset: 91871,
 																									},
 																								},
 																								&zeroOrMoreExpr{
 																									pos: position{line: 677, col: 21, offset: 21532},
 																									expr: &actionExpr{
-																										pos: position{line: 2881, col: 10, offset: 91342},
+																										pos: position{line: 2888, col: 10, offset: 91535},
 																										run: (*parser).callonDocumentFragment666,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2881, col: 10, offset: 91342},
+																											pos:        position{line: 2888, col: 10, offset: 91535},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7215,28 +7215,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2903, col: 8, offset: 91740},
+																									pos: position{line: 2910, col: 8, offset: 91933},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2890, col: 12, offset: 91513},
+																											pos: position{line: 2897, col: 12, offset: 91706},
 																											run: (*parser).callonDocumentFragment669,
 																											expr: &choiceExpr{
-																												pos: position{line: 2890, col: 13, offset: 91514},
+																												pos: position{line: 2897, col: 13, offset: 91707},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2890, col: 13, offset: 91514},
+																														pos:        position{line: 2897, col: 13, offset: 91707},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2890, col: 20, offset: 91521},
+																														pos:        position{line: 2897, col: 20, offset: 91714},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2890, col: 29, offset: 91530},
+																														pos:        position{line: 2897, col: 29, offset: 91723},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7245,9 +7245,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2900, col: 8, offset: 91690},
+																											pos: position{line: 2907, col: 8, offset: 91883},
 																											expr: &anyMatcher{
-																												line: 2900, col: 9, offset: 91691,
+																												line: 2907, col: 9, offset: 91884,
 																											},
 																										},
 																									},
@@ -7266,12 +7266,12 @@ var g = &grammar{
 																					pos:   position{line: 985, col: 5, offset: 30748},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2831, col: 14, offset: 89935},
+																						pos: position{line: 2838, col: 14, offset: 90128},
 																						run: (*parser).callonDocumentFragment678,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2831, col: 14, offset: 89935},
+																							pos: position{line: 2838, col: 14, offset: 90128},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2831, col: 14, offset: 89935},
+																								pos:        position{line: 2838, col: 14, offset: 90128},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7281,28 +7281,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2903, col: 8, offset: 91740},
+																					pos: position{line: 2910, col: 8, offset: 91933},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2890, col: 12, offset: 91513},
+																							pos: position{line: 2897, col: 12, offset: 91706},
 																							run: (*parser).callonDocumentFragment682,
 																							expr: &choiceExpr{
-																								pos: position{line: 2890, col: 13, offset: 91514},
+																								pos: position{line: 2897, col: 13, offset: 91707},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2890, col: 13, offset: 91514},
+																										pos:        position{line: 2897, col: 13, offset: 91707},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2890, col: 20, offset: 91521},
+																										pos:        position{line: 2897, col: 20, offset: 91714},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2890, col: 29, offset: 91530},
+																										pos:        position{line: 2897, col: 29, offset: 91723},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7311,9 +7311,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2900, col: 8, offset: 91690},
+																							pos: position{line: 2907, col: 8, offset: 91883},
 																							expr: &anyMatcher{
-																								line: 2900, col: 9, offset: 91691,
+																								line: 2907, col: 9, offset: 91884,
 																							},
 																						},
 																					},
@@ -7331,12 +7331,12 @@ var g = &grammar{
 																					pos:   position{line: 1798, col: 5, offset: 58283},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2831, col: 14, offset: 89935},
+																						pos: position{line: 2838, col: 14, offset: 90128},
 																						run: (*parser).callonDocumentFragment692,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2831, col: 14, offset: 89935},
+																							pos: position{line: 2838, col: 14, offset: 90128},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2831, col: 14, offset: 89935},
+																								pos:        position{line: 2838, col: 14, offset: 90128},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7350,28 +7350,28 @@ var g = &grammar{
 																					run: (*parser).callonDocumentFragment695,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2903, col: 8, offset: 91740},
+																					pos: position{line: 2910, col: 8, offset: 91933},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2890, col: 12, offset: 91513},
+																							pos: position{line: 2897, col: 12, offset: 91706},
 																							run: (*parser).callonDocumentFragment697,
 																							expr: &choiceExpr{
-																								pos: position{line: 2890, col: 13, offset: 91514},
+																								pos: position{line: 2897, col: 13, offset: 91707},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2890, col: 13, offset: 91514},
+																										pos:        position{line: 2897, col: 13, offset: 91707},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2890, col: 20, offset: 91521},
+																										pos:        position{line: 2897, col: 20, offset: 91714},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2890, col: 29, offset: 91530},
+																										pos:        position{line: 2897, col: 29, offset: 91723},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7380,9 +7380,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2900, col: 8, offset: 91690},
+																							pos: position{line: 2907, col: 8, offset: 91883},
 																							expr: &anyMatcher{
-																								line: 2900, col: 9, offset: 91691,
+																								line: 2907, col: 9, offset: 91884,
 																							},
 																						},
 																					},
@@ -7429,10 +7429,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 779, col: 8, offset: 25013},
 																		expr: &actionExpr{
-																			pos: position{line: 2881, col: 10, offset: 91342},
+																			pos: position{line: 2888, col: 10, offset: 91535},
 																			run: (*parser).callonDocumentFragment713,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2881, col: 10, offset: 91342},
+																				pos:        position{line: 2888, col: 10, offset: 91535},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7441,28 +7441,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2903, col: 8, offset: 91740},
+																		pos: position{line: 2910, col: 8, offset: 91933},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2890, col: 12, offset: 91513},
+																				pos: position{line: 2897, col: 12, offset: 91706},
 																				run: (*parser).callonDocumentFragment716,
 																				expr: &choiceExpr{
-																					pos: position{line: 2890, col: 13, offset: 91514},
+																					pos: position{line: 2897, col: 13, offset: 91707},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 13, offset: 91514},
+																							pos:        position{line: 2897, col: 13, offset: 91707},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 20, offset: 91521},
+																							pos:        position{line: 2897, col: 20, offset: 91714},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 29, offset: 91530},
+																							pos:        position{line: 2897, col: 29, offset: 91723},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7471,9 +7471,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2900, col: 8, offset: 91690},
+																				pos: position{line: 2907, col: 8, offset: 91883},
 																				expr: &anyMatcher{
-																					line: 2900, col: 9, offset: 91691,
+																					line: 2907, col: 9, offset: 91884,
 																				},
 																			},
 																		},
@@ -7521,10 +7521,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 779, col: 8, offset: 25013},
 																									expr: &actionExpr{
-																										pos: position{line: 2881, col: 10, offset: 91342},
+																										pos: position{line: 2888, col: 10, offset: 91535},
 																										run: (*parser).callonDocumentFragment735,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2881, col: 10, offset: 91342},
+																											pos:        position{line: 2888, col: 10, offset: 91535},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7533,28 +7533,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2903, col: 8, offset: 91740},
+																									pos: position{line: 2910, col: 8, offset: 91933},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2890, col: 12, offset: 91513},
+																											pos: position{line: 2897, col: 12, offset: 91706},
 																											run: (*parser).callonDocumentFragment738,
 																											expr: &choiceExpr{
-																												pos: position{line: 2890, col: 13, offset: 91514},
+																												pos: position{line: 2897, col: 13, offset: 91707},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2890, col: 13, offset: 91514},
+																														pos:        position{line: 2897, col: 13, offset: 91707},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2890, col: 20, offset: 91521},
+																														pos:        position{line: 2897, col: 20, offset: 91714},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2890, col: 29, offset: 91530},
+																														pos:        position{line: 2897, col: 29, offset: 91723},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7563,9 +7563,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2900, col: 8, offset: 91690},
+																											pos: position{line: 2907, col: 8, offset: 91883},
 																											expr: &anyMatcher{
-																												line: 2900, col: 9, offset: 91691,
+																												line: 2907, col: 9, offset: 91884,
 																											},
 																										},
 																									},
@@ -7574,9 +7574,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2900, col: 8, offset: 91690},
+																						pos: position{line: 2907, col: 8, offset: 91883},
 																						expr: &anyMatcher{
-																							line: 2900, col: 9, offset: 91691,
+																							line: 2907, col: 9, offset: 91884,
 																						},
 																					},
 																				},
@@ -7592,21 +7592,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2898, col: 11, offset: 91676},
+																							pos: position{line: 2905, col: 11, offset: 91869},
 																							expr: &anyMatcher{
-																								line: 2898, col: 13, offset: 91678,
+																								line: 2905, col: 13, offset: 91871,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2827, col: 13, offset: 89868},
+																								pos: position{line: 2834, col: 13, offset: 90061},
 																								run: (*parser).callonDocumentFragment753,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2827, col: 13, offset: 89868},
+																									pos: position{line: 2834, col: 13, offset: 90061},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2827, col: 13, offset: 89868},
+																										pos:        position{line: 2834, col: 13, offset: 90061},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7616,28 +7616,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2903, col: 8, offset: 91740},
+																							pos: position{line: 2910, col: 8, offset: 91933},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2890, col: 12, offset: 91513},
+																									pos: position{line: 2897, col: 12, offset: 91706},
 																									run: (*parser).callonDocumentFragment757,
 																									expr: &choiceExpr{
-																										pos: position{line: 2890, col: 13, offset: 91514},
+																										pos: position{line: 2897, col: 13, offset: 91707},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 13, offset: 91514},
+																												pos:        position{line: 2897, col: 13, offset: 91707},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 20, offset: 91521},
+																												pos:        position{line: 2897, col: 20, offset: 91714},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 29, offset: 91530},
+																												pos:        position{line: 2897, col: 29, offset: 91723},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7646,9 +7646,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2900, col: 8, offset: 91690},
+																									pos: position{line: 2907, col: 8, offset: 91883},
 																									expr: &anyMatcher{
-																										line: 2900, col: 9, offset: 91691,
+																										line: 2907, col: 9, offset: 91884,
 																									},
 																								},
 																							},
@@ -7693,10 +7693,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 779, col: 8, offset: 25013},
 																					expr: &actionExpr{
-																						pos: position{line: 2881, col: 10, offset: 91342},
+																						pos: position{line: 2888, col: 10, offset: 91535},
 																						run: (*parser).callonDocumentFragment773,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2881, col: 10, offset: 91342},
+																							pos:        position{line: 2888, col: 10, offset: 91535},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7705,28 +7705,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2903, col: 8, offset: 91740},
+																					pos: position{line: 2910, col: 8, offset: 91933},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2890, col: 12, offset: 91513},
+																							pos: position{line: 2897, col: 12, offset: 91706},
 																							run: (*parser).callonDocumentFragment776,
 																							expr: &choiceExpr{
-																								pos: position{line: 2890, col: 13, offset: 91514},
+																								pos: position{line: 2897, col: 13, offset: 91707},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2890, col: 13, offset: 91514},
+																										pos:        position{line: 2897, col: 13, offset: 91707},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2890, col: 20, offset: 91521},
+																										pos:        position{line: 2897, col: 20, offset: 91714},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2890, col: 29, offset: 91530},
+																										pos:        position{line: 2897, col: 29, offset: 91723},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7735,9 +7735,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2900, col: 8, offset: 91690},
+																							pos: position{line: 2907, col: 8, offset: 91883},
 																							expr: &anyMatcher{
-																								line: 2900, col: 9, offset: 91691,
+																								line: 2907, col: 9, offset: 91884,
 																							},
 																						},
 																					},
@@ -7746,9 +7746,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2900, col: 8, offset: 91690},
+																		pos: position{line: 2907, col: 8, offset: 91883},
 																		expr: &anyMatcher{
-																			line: 2900, col: 9, offset: 91691,
+																			line: 2907, col: 9, offset: 91884,
 																		},
 																	},
 																},
@@ -7804,10 +7804,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 793, col: 8, offset: 25510},
 																		expr: &actionExpr{
-																			pos: position{line: 2881, col: 10, offset: 91342},
+																			pos: position{line: 2888, col: 10, offset: 91535},
 																			run: (*parser).callonDocumentFragment797,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2881, col: 10, offset: 91342},
+																				pos:        position{line: 2888, col: 10, offset: 91535},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7816,28 +7816,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2903, col: 8, offset: 91740},
+																		pos: position{line: 2910, col: 8, offset: 91933},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2890, col: 12, offset: 91513},
+																				pos: position{line: 2897, col: 12, offset: 91706},
 																				run: (*parser).callonDocumentFragment800,
 																				expr: &choiceExpr{
-																					pos: position{line: 2890, col: 13, offset: 91514},
+																					pos: position{line: 2897, col: 13, offset: 91707},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 13, offset: 91514},
+																							pos:        position{line: 2897, col: 13, offset: 91707},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 20, offset: 91521},
+																							pos:        position{line: 2897, col: 20, offset: 91714},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 29, offset: 91530},
+																							pos:        position{line: 2897, col: 29, offset: 91723},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7846,9 +7846,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2900, col: 8, offset: 91690},
+																				pos: position{line: 2907, col: 8, offset: 91883},
 																				expr: &anyMatcher{
-																					line: 2900, col: 9, offset: 91691,
+																					line: 2907, col: 9, offset: 91884,
 																				},
 																			},
 																		},
@@ -7920,10 +7920,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 793, col: 8, offset: 25510},
 																												expr: &actionExpr{
-																													pos: position{line: 2881, col: 10, offset: 91342},
+																													pos: position{line: 2888, col: 10, offset: 91535},
 																													run: (*parser).callonDocumentFragment825,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2881, col: 10, offset: 91342},
+																														pos:        position{line: 2888, col: 10, offset: 91535},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7932,28 +7932,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2903, col: 8, offset: 91740},
+																												pos: position{line: 2910, col: 8, offset: 91933},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2890, col: 12, offset: 91513},
+																														pos: position{line: 2897, col: 12, offset: 91706},
 																														run: (*parser).callonDocumentFragment828,
 																														expr: &choiceExpr{
-																															pos: position{line: 2890, col: 13, offset: 91514},
+																															pos: position{line: 2897, col: 13, offset: 91707},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2890, col: 13, offset: 91514},
+																																	pos:        position{line: 2897, col: 13, offset: 91707},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2890, col: 20, offset: 91521},
+																																	pos:        position{line: 2897, col: 20, offset: 91714},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2890, col: 29, offset: 91530},
+																																	pos:        position{line: 2897, col: 29, offset: 91723},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7962,9 +7962,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2900, col: 8, offset: 91690},
+																														pos: position{line: 2907, col: 8, offset: 91883},
 																														expr: &anyMatcher{
-																															line: 2900, col: 9, offset: 91691,
+																															line: 2907, col: 9, offset: 91884,
 																														},
 																													},
 																												},
@@ -7980,9 +7980,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2900, col: 8, offset: 91690},
+																						pos: position{line: 2907, col: 8, offset: 91883},
 																						expr: &anyMatcher{
-																							line: 2900, col: 9, offset: 91691,
+																							line: 2907, col: 9, offset: 91884,
 																						},
 																					},
 																				},
@@ -7998,21 +7998,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2898, col: 11, offset: 91676},
+																							pos: position{line: 2905, col: 11, offset: 91869},
 																							expr: &anyMatcher{
-																								line: 2898, col: 13, offset: 91678,
+																								line: 2905, col: 13, offset: 91871,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2827, col: 13, offset: 89868},
+																								pos: position{line: 2834, col: 13, offset: 90061},
 																								run: (*parser).callonDocumentFragment844,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2827, col: 13, offset: 89868},
+																									pos: position{line: 2834, col: 13, offset: 90061},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2827, col: 13, offset: 89868},
+																										pos:        position{line: 2834, col: 13, offset: 90061},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8022,28 +8022,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2903, col: 8, offset: 91740},
+																							pos: position{line: 2910, col: 8, offset: 91933},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2890, col: 12, offset: 91513},
+																									pos: position{line: 2897, col: 12, offset: 91706},
 																									run: (*parser).callonDocumentFragment848,
 																									expr: &choiceExpr{
-																										pos: position{line: 2890, col: 13, offset: 91514},
+																										pos: position{line: 2897, col: 13, offset: 91707},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 13, offset: 91514},
+																												pos:        position{line: 2897, col: 13, offset: 91707},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 20, offset: 91521},
+																												pos:        position{line: 2897, col: 20, offset: 91714},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 29, offset: 91530},
+																												pos:        position{line: 2897, col: 29, offset: 91723},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8052,9 +8052,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2900, col: 8, offset: 91690},
+																									pos: position{line: 2907, col: 8, offset: 91883},
 																									expr: &anyMatcher{
-																										line: 2900, col: 9, offset: 91691,
+																										line: 2907, col: 9, offset: 91884,
 																									},
 																								},
 																							},
@@ -8119,10 +8119,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 793, col: 8, offset: 25510},
 																								expr: &actionExpr{
-																									pos: position{line: 2881, col: 10, offset: 91342},
+																									pos: position{line: 2888, col: 10, offset: 91535},
 																									run: (*parser).callonDocumentFragment869,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2881, col: 10, offset: 91342},
+																										pos:        position{line: 2888, col: 10, offset: 91535},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8131,28 +8131,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2903, col: 8, offset: 91740},
+																								pos: position{line: 2910, col: 8, offset: 91933},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2890, col: 12, offset: 91513},
+																										pos: position{line: 2897, col: 12, offset: 91706},
 																										run: (*parser).callonDocumentFragment872,
 																										expr: &choiceExpr{
-																											pos: position{line: 2890, col: 13, offset: 91514},
+																											pos: position{line: 2897, col: 13, offset: 91707},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2890, col: 13, offset: 91514},
+																													pos:        position{line: 2897, col: 13, offset: 91707},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2890, col: 20, offset: 91521},
+																													pos:        position{line: 2897, col: 20, offset: 91714},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2890, col: 29, offset: 91530},
+																													pos:        position{line: 2897, col: 29, offset: 91723},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8161,9 +8161,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2900, col: 8, offset: 91690},
+																										pos: position{line: 2907, col: 8, offset: 91883},
 																										expr: &anyMatcher{
-																											line: 2900, col: 9, offset: 91691,
+																											line: 2907, col: 9, offset: 91884,
 																										},
 																									},
 																								},
@@ -8179,9 +8179,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2900, col: 8, offset: 91690},
+																		pos: position{line: 2907, col: 8, offset: 91883},
 																		expr: &anyMatcher{
-																			line: 2900, col: 9, offset: 91691,
+																			line: 2907, col: 9, offset: 91884,
 																		},
 																	},
 																},
@@ -8237,10 +8237,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 800, col: 8, offset: 25760},
 																		expr: &actionExpr{
-																			pos: position{line: 2881, col: 10, offset: 91342},
+																			pos: position{line: 2888, col: 10, offset: 91535},
 																			run: (*parser).callonDocumentFragment894,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2881, col: 10, offset: 91342},
+																				pos:        position{line: 2888, col: 10, offset: 91535},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8249,28 +8249,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2903, col: 8, offset: 91740},
+																		pos: position{line: 2910, col: 8, offset: 91933},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2890, col: 12, offset: 91513},
+																				pos: position{line: 2897, col: 12, offset: 91706},
 																				run: (*parser).callonDocumentFragment897,
 																				expr: &choiceExpr{
-																					pos: position{line: 2890, col: 13, offset: 91514},
+																					pos: position{line: 2897, col: 13, offset: 91707},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 13, offset: 91514},
+																							pos:        position{line: 2897, col: 13, offset: 91707},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 20, offset: 91521},
+																							pos:        position{line: 2897, col: 20, offset: 91714},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 29, offset: 91530},
+																							pos:        position{line: 2897, col: 29, offset: 91723},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8279,9 +8279,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2900, col: 8, offset: 91690},
+																				pos: position{line: 2907, col: 8, offset: 91883},
 																				expr: &anyMatcher{
-																					line: 2900, col: 9, offset: 91691,
+																					line: 2907, col: 9, offset: 91884,
 																				},
 																			},
 																		},
@@ -8353,10 +8353,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 800, col: 8, offset: 25760},
 																												expr: &actionExpr{
-																													pos: position{line: 2881, col: 10, offset: 91342},
+																													pos: position{line: 2888, col: 10, offset: 91535},
 																													run: (*parser).callonDocumentFragment922,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2881, col: 10, offset: 91342},
+																														pos:        position{line: 2888, col: 10, offset: 91535},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8365,28 +8365,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2903, col: 8, offset: 91740},
+																												pos: position{line: 2910, col: 8, offset: 91933},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2890, col: 12, offset: 91513},
+																														pos: position{line: 2897, col: 12, offset: 91706},
 																														run: (*parser).callonDocumentFragment925,
 																														expr: &choiceExpr{
-																															pos: position{line: 2890, col: 13, offset: 91514},
+																															pos: position{line: 2897, col: 13, offset: 91707},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2890, col: 13, offset: 91514},
+																																	pos:        position{line: 2897, col: 13, offset: 91707},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2890, col: 20, offset: 91521},
+																																	pos:        position{line: 2897, col: 20, offset: 91714},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2890, col: 29, offset: 91530},
+																																	pos:        position{line: 2897, col: 29, offset: 91723},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8395,9 +8395,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2900, col: 8, offset: 91690},
+																														pos: position{line: 2907, col: 8, offset: 91883},
 																														expr: &anyMatcher{
-																															line: 2900, col: 9, offset: 91691,
+																															line: 2907, col: 9, offset: 91884,
 																														},
 																													},
 																												},
@@ -8413,9 +8413,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2900, col: 8, offset: 91690},
+																						pos: position{line: 2907, col: 8, offset: 91883},
 																						expr: &anyMatcher{
-																							line: 2900, col: 9, offset: 91691,
+																							line: 2907, col: 9, offset: 91884,
 																						},
 																					},
 																				},
@@ -8431,21 +8431,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2898, col: 11, offset: 91676},
+																							pos: position{line: 2905, col: 11, offset: 91869},
 																							expr: &anyMatcher{
-																								line: 2898, col: 13, offset: 91678,
+																								line: 2905, col: 13, offset: 91871,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2827, col: 13, offset: 89868},
+																								pos: position{line: 2834, col: 13, offset: 90061},
 																								run: (*parser).callonDocumentFragment941,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2827, col: 13, offset: 89868},
+																									pos: position{line: 2834, col: 13, offset: 90061},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2827, col: 13, offset: 89868},
+																										pos:        position{line: 2834, col: 13, offset: 90061},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8455,28 +8455,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2903, col: 8, offset: 91740},
+																							pos: position{line: 2910, col: 8, offset: 91933},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2890, col: 12, offset: 91513},
+																									pos: position{line: 2897, col: 12, offset: 91706},
 																									run: (*parser).callonDocumentFragment945,
 																									expr: &choiceExpr{
-																										pos: position{line: 2890, col: 13, offset: 91514},
+																										pos: position{line: 2897, col: 13, offset: 91707},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 13, offset: 91514},
+																												pos:        position{line: 2897, col: 13, offset: 91707},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 20, offset: 91521},
+																												pos:        position{line: 2897, col: 20, offset: 91714},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 29, offset: 91530},
+																												pos:        position{line: 2897, col: 29, offset: 91723},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8485,9 +8485,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2900, col: 8, offset: 91690},
+																									pos: position{line: 2907, col: 8, offset: 91883},
 																									expr: &anyMatcher{
-																										line: 2900, col: 9, offset: 91691,
+																										line: 2907, col: 9, offset: 91884,
 																									},
 																								},
 																							},
@@ -8552,10 +8552,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 800, col: 8, offset: 25760},
 																								expr: &actionExpr{
-																									pos: position{line: 2881, col: 10, offset: 91342},
+																									pos: position{line: 2888, col: 10, offset: 91535},
 																									run: (*parser).callonDocumentFragment966,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2881, col: 10, offset: 91342},
+																										pos:        position{line: 2888, col: 10, offset: 91535},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8564,28 +8564,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2903, col: 8, offset: 91740},
+																								pos: position{line: 2910, col: 8, offset: 91933},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2890, col: 12, offset: 91513},
+																										pos: position{line: 2897, col: 12, offset: 91706},
 																										run: (*parser).callonDocumentFragment969,
 																										expr: &choiceExpr{
-																											pos: position{line: 2890, col: 13, offset: 91514},
+																											pos: position{line: 2897, col: 13, offset: 91707},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2890, col: 13, offset: 91514},
+																													pos:        position{line: 2897, col: 13, offset: 91707},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2890, col: 20, offset: 91521},
+																													pos:        position{line: 2897, col: 20, offset: 91714},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2890, col: 29, offset: 91530},
+																													pos:        position{line: 2897, col: 29, offset: 91723},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8594,9 +8594,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2900, col: 8, offset: 91690},
+																										pos: position{line: 2907, col: 8, offset: 91883},
 																										expr: &anyMatcher{
-																											line: 2900, col: 9, offset: 91691,
+																											line: 2907, col: 9, offset: 91884,
 																										},
 																									},
 																								},
@@ -8612,9 +8612,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2900, col: 8, offset: 91690},
+																		pos: position{line: 2907, col: 8, offset: 91883},
 																		expr: &anyMatcher{
-																			line: 2900, col: 9, offset: 91691,
+																			line: 2907, col: 9, offset: 91884,
 																		},
 																	},
 																},
@@ -8670,10 +8670,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 807, col: 8, offset: 26006},
 																		expr: &actionExpr{
-																			pos: position{line: 2881, col: 10, offset: 91342},
+																			pos: position{line: 2888, col: 10, offset: 91535},
 																			run: (*parser).callonDocumentFragment991,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2881, col: 10, offset: 91342},
+																				pos:        position{line: 2888, col: 10, offset: 91535},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8682,28 +8682,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2903, col: 8, offset: 91740},
+																		pos: position{line: 2910, col: 8, offset: 91933},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2890, col: 12, offset: 91513},
+																				pos: position{line: 2897, col: 12, offset: 91706},
 																				run: (*parser).callonDocumentFragment994,
 																				expr: &choiceExpr{
-																					pos: position{line: 2890, col: 13, offset: 91514},
+																					pos: position{line: 2897, col: 13, offset: 91707},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 13, offset: 91514},
+																							pos:        position{line: 2897, col: 13, offset: 91707},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 20, offset: 91521},
+																							pos:        position{line: 2897, col: 20, offset: 91714},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 29, offset: 91530},
+																							pos:        position{line: 2897, col: 29, offset: 91723},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8712,9 +8712,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2900, col: 8, offset: 91690},
+																				pos: position{line: 2907, col: 8, offset: 91883},
 																				expr: &anyMatcher{
-																					line: 2900, col: 9, offset: 91691,
+																					line: 2907, col: 9, offset: 91884,
 																				},
 																			},
 																		},
@@ -8786,10 +8786,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 807, col: 8, offset: 26006},
 																												expr: &actionExpr{
-																													pos: position{line: 2881, col: 10, offset: 91342},
+																													pos: position{line: 2888, col: 10, offset: 91535},
 																													run: (*parser).callonDocumentFragment1019,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2881, col: 10, offset: 91342},
+																														pos:        position{line: 2888, col: 10, offset: 91535},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8798,28 +8798,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2903, col: 8, offset: 91740},
+																												pos: position{line: 2910, col: 8, offset: 91933},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2890, col: 12, offset: 91513},
+																														pos: position{line: 2897, col: 12, offset: 91706},
 																														run: (*parser).callonDocumentFragment1022,
 																														expr: &choiceExpr{
-																															pos: position{line: 2890, col: 13, offset: 91514},
+																															pos: position{line: 2897, col: 13, offset: 91707},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2890, col: 13, offset: 91514},
+																																	pos:        position{line: 2897, col: 13, offset: 91707},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2890, col: 20, offset: 91521},
+																																	pos:        position{line: 2897, col: 20, offset: 91714},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2890, col: 29, offset: 91530},
+																																	pos:        position{line: 2897, col: 29, offset: 91723},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8828,9 +8828,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2900, col: 8, offset: 91690},
+																														pos: position{line: 2907, col: 8, offset: 91883},
 																														expr: &anyMatcher{
-																															line: 2900, col: 9, offset: 91691,
+																															line: 2907, col: 9, offset: 91884,
 																														},
 																													},
 																												},
@@ -8846,9 +8846,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2900, col: 8, offset: 91690},
+																						pos: position{line: 2907, col: 8, offset: 91883},
 																						expr: &anyMatcher{
-																							line: 2900, col: 9, offset: 91691,
+																							line: 2907, col: 9, offset: 91884,
 																						},
 																					},
 																				},
@@ -8864,21 +8864,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2898, col: 11, offset: 91676},
+																							pos: position{line: 2905, col: 11, offset: 91869},
 																							expr: &anyMatcher{
-																								line: 2898, col: 13, offset: 91678,
+																								line: 2905, col: 13, offset: 91871,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2827, col: 13, offset: 89868},
+																								pos: position{line: 2834, col: 13, offset: 90061},
 																								run: (*parser).callonDocumentFragment1038,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2827, col: 13, offset: 89868},
+																									pos: position{line: 2834, col: 13, offset: 90061},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2827, col: 13, offset: 89868},
+																										pos:        position{line: 2834, col: 13, offset: 90061},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8888,28 +8888,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2903, col: 8, offset: 91740},
+																							pos: position{line: 2910, col: 8, offset: 91933},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2890, col: 12, offset: 91513},
+																									pos: position{line: 2897, col: 12, offset: 91706},
 																									run: (*parser).callonDocumentFragment1042,
 																									expr: &choiceExpr{
-																										pos: position{line: 2890, col: 13, offset: 91514},
+																										pos: position{line: 2897, col: 13, offset: 91707},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 13, offset: 91514},
+																												pos:        position{line: 2897, col: 13, offset: 91707},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 20, offset: 91521},
+																												pos:        position{line: 2897, col: 20, offset: 91714},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 29, offset: 91530},
+																												pos:        position{line: 2897, col: 29, offset: 91723},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8918,9 +8918,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2900, col: 8, offset: 91690},
+																									pos: position{line: 2907, col: 8, offset: 91883},
 																									expr: &anyMatcher{
-																										line: 2900, col: 9, offset: 91691,
+																										line: 2907, col: 9, offset: 91884,
 																									},
 																								},
 																							},
@@ -8985,10 +8985,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 807, col: 8, offset: 26006},
 																								expr: &actionExpr{
-																									pos: position{line: 2881, col: 10, offset: 91342},
+																									pos: position{line: 2888, col: 10, offset: 91535},
 																									run: (*parser).callonDocumentFragment1063,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2881, col: 10, offset: 91342},
+																										pos:        position{line: 2888, col: 10, offset: 91535},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8997,28 +8997,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2903, col: 8, offset: 91740},
+																								pos: position{line: 2910, col: 8, offset: 91933},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2890, col: 12, offset: 91513},
+																										pos: position{line: 2897, col: 12, offset: 91706},
 																										run: (*parser).callonDocumentFragment1066,
 																										expr: &choiceExpr{
-																											pos: position{line: 2890, col: 13, offset: 91514},
+																											pos: position{line: 2897, col: 13, offset: 91707},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2890, col: 13, offset: 91514},
+																													pos:        position{line: 2897, col: 13, offset: 91707},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2890, col: 20, offset: 91521},
+																													pos:        position{line: 2897, col: 20, offset: 91714},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2890, col: 29, offset: 91530},
+																													pos:        position{line: 2897, col: 29, offset: 91723},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -9027,9 +9027,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2900, col: 8, offset: 91690},
+																										pos: position{line: 2907, col: 8, offset: 91883},
 																										expr: &anyMatcher{
-																											line: 2900, col: 9, offset: 91691,
+																											line: 2907, col: 9, offset: 91884,
 																										},
 																									},
 																								},
@@ -9045,9 +9045,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2900, col: 8, offset: 91690},
+																		pos: position{line: 2907, col: 8, offset: 91883},
 																		expr: &anyMatcher{
-																			line: 2900, col: 9, offset: 91691,
+																			line: 2907, col: 9, offset: 91884,
 																		},
 																	},
 																},
@@ -9113,10 +9113,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 2729, col: 11, offset: 87052},
 														expr: &actionExpr{
-															pos: position{line: 2881, col: 10, offset: 91342},
+															pos: position{line: 2888, col: 10, offset: 91535},
 															run: (*parser).callonDocumentFragment1087,
 															expr: &charClassMatcher{
-																pos:        position{line: 2881, col: 10, offset: 91342},
+																pos:        position{line: 2888, col: 10, offset: 91535},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9125,28 +9125,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2903, col: 8, offset: 91740},
+														pos: position{line: 2910, col: 8, offset: 91933},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2890, col: 12, offset: 91513},
+																pos: position{line: 2897, col: 12, offset: 91706},
 																run: (*parser).callonDocumentFragment1090,
 																expr: &choiceExpr{
-																	pos: position{line: 2890, col: 13, offset: 91514},
+																	pos: position{line: 2897, col: 13, offset: 91707},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2890, col: 13, offset: 91514},
+																			pos:        position{line: 2897, col: 13, offset: 91707},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2890, col: 20, offset: 91521},
+																			pos:        position{line: 2897, col: 20, offset: 91714},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2890, col: 29, offset: 91530},
+																			pos:        position{line: 2897, col: 29, offset: 91723},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9155,9 +9155,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2900, col: 8, offset: 91690},
+																pos: position{line: 2907, col: 8, offset: 91883},
 																expr: &anyMatcher{
-																	line: 2900, col: 9, offset: 91691,
+																	line: 2907, col: 9, offset: 91884,
 																},
 															},
 														},
@@ -9165,10 +9165,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 2729, col: 22, offset: 87063},
 														expr: &actionExpr{
-															pos: position{line: 2881, col: 10, offset: 91342},
+															pos: position{line: 2888, col: 10, offset: 91535},
 															run: (*parser).callonDocumentFragment1098,
 															expr: &charClassMatcher{
-																pos:        position{line: 2881, col: 10, offset: 91342},
+																pos:        position{line: 2888, col: 10, offset: 91535},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9177,28 +9177,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2903, col: 8, offset: 91740},
+														pos: position{line: 2910, col: 8, offset: 91933},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2890, col: 12, offset: 91513},
+																pos: position{line: 2897, col: 12, offset: 91706},
 																run: (*parser).callonDocumentFragment1101,
 																expr: &choiceExpr{
-																	pos: position{line: 2890, col: 13, offset: 91514},
+																	pos: position{line: 2897, col: 13, offset: 91707},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2890, col: 13, offset: 91514},
+																			pos:        position{line: 2897, col: 13, offset: 91707},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2890, col: 20, offset: 91521},
+																			pos:        position{line: 2897, col: 20, offset: 91714},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2890, col: 29, offset: 91530},
+																			pos:        position{line: 2897, col: 29, offset: 91723},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9207,9 +9207,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2900, col: 8, offset: 91690},
+																pos: position{line: 2907, col: 8, offset: 91883},
 																expr: &anyMatcher{
-																	line: 2900, col: 9, offset: 91691,
+																	line: 2907, col: 9, offset: 91884,
 																},
 															},
 														},
@@ -9236,10 +9236,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 2623, col: 26, offset: 84016},
 														expr: &actionExpr{
-															pos: position{line: 2881, col: 10, offset: 91342},
+															pos: position{line: 2888, col: 10, offset: 91535},
 															run: (*parser).callonDocumentFragment1113,
 															expr: &charClassMatcher{
-																pos:        position{line: 2881, col: 10, offset: 91342},
+																pos:        position{line: 2888, col: 10, offset: 91535},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9248,28 +9248,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2903, col: 8, offset: 91740},
+														pos: position{line: 2910, col: 8, offset: 91933},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2890, col: 12, offset: 91513},
+																pos: position{line: 2897, col: 12, offset: 91706},
 																run: (*parser).callonDocumentFragment1116,
 																expr: &choiceExpr{
-																	pos: position{line: 2890, col: 13, offset: 91514},
+																	pos: position{line: 2897, col: 13, offset: 91707},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2890, col: 13, offset: 91514},
+																			pos:        position{line: 2897, col: 13, offset: 91707},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2890, col: 20, offset: 91521},
+																			pos:        position{line: 2897, col: 20, offset: 91714},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2890, col: 29, offset: 91530},
+																			pos:        position{line: 2897, col: 29, offset: 91723},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9278,9 +9278,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2900, col: 8, offset: 91690},
+																pos: position{line: 2907, col: 8, offset: 91883},
 																expr: &anyMatcher{
-																	line: 2900, col: 9, offset: 91691,
+																	line: 2907, col: 9, offset: 91884,
 																},
 															},
 														},
@@ -9300,18 +9300,18 @@ var g = &grammar{
 																			pos: position{line: 677, col: 14, offset: 21525},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2898, col: 11, offset: 91676},
+																					pos: position{line: 2905, col: 11, offset: 91869},
 																					expr: &anyMatcher{
-																						line: 2898, col: 13, offset: 91678,
+																						line: 2905, col: 13, offset: 91871,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21532},
 																					expr: &actionExpr{
-																						pos: position{line: 2881, col: 10, offset: 91342},
+																						pos: position{line: 2888, col: 10, offset: 91535},
 																						run: (*parser).callonDocumentFragment1131,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2881, col: 10, offset: 91342},
+																							pos:        position{line: 2888, col: 10, offset: 91535},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9320,28 +9320,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2903, col: 8, offset: 91740},
+																					pos: position{line: 2910, col: 8, offset: 91933},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2890, col: 12, offset: 91513},
+																							pos: position{line: 2897, col: 12, offset: 91706},
 																							run: (*parser).callonDocumentFragment1134,
 																							expr: &choiceExpr{
-																								pos: position{line: 2890, col: 13, offset: 91514},
+																								pos: position{line: 2897, col: 13, offset: 91707},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2890, col: 13, offset: 91514},
+																										pos:        position{line: 2897, col: 13, offset: 91707},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2890, col: 20, offset: 91521},
+																										pos:        position{line: 2897, col: 20, offset: 91714},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2890, col: 29, offset: 91530},
+																										pos:        position{line: 2897, col: 29, offset: 91723},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9350,9 +9350,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2900, col: 8, offset: 91690},
+																							pos: position{line: 2907, col: 8, offset: 91883},
 																							expr: &anyMatcher{
-																								line: 2900, col: 9, offset: 91691,
+																								line: 2907, col: 9, offset: 91884,
 																							},
 																						},
 																					},
@@ -9383,10 +9383,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 2623, col: 26, offset: 84016},
 																										expr: &actionExpr{
-																											pos: position{line: 2881, col: 10, offset: 91342},
+																											pos: position{line: 2888, col: 10, offset: 91535},
 																											run: (*parser).callonDocumentFragment1148,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2881, col: 10, offset: 91342},
+																												pos:        position{line: 2888, col: 10, offset: 91535},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9395,28 +9395,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2903, col: 8, offset: 91740},
+																										pos: position{line: 2910, col: 8, offset: 91933},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2890, col: 12, offset: 91513},
+																												pos: position{line: 2897, col: 12, offset: 91706},
 																												run: (*parser).callonDocumentFragment1151,
 																												expr: &choiceExpr{
-																													pos: position{line: 2890, col: 13, offset: 91514},
+																													pos: position{line: 2897, col: 13, offset: 91707},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2890, col: 13, offset: 91514},
+																															pos:        position{line: 2897, col: 13, offset: 91707},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2890, col: 20, offset: 91521},
+																															pos:        position{line: 2897, col: 20, offset: 91714},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2890, col: 29, offset: 91530},
+																															pos:        position{line: 2897, col: 29, offset: 91723},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9425,9 +9425,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2900, col: 8, offset: 91690},
+																												pos: position{line: 2907, col: 8, offset: 91883},
 																												expr: &anyMatcher{
-																													line: 2900, col: 9, offset: 91691,
+																													line: 2907, col: 9, offset: 91884,
 																												},
 																											},
 																										},
@@ -9435,9 +9435,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2900, col: 8, offset: 91690},
+																								pos: position{line: 2907, col: 8, offset: 91883},
 																								expr: &anyMatcher{
-																									line: 2900, col: 9, offset: 91691,
+																									line: 2907, col: 9, offset: 91884,
 																								},
 																							},
 																						},
@@ -9484,10 +9484,10 @@ var g = &grammar{
 																																			&zeroOrMoreExpr{
 																																				pos: position{line: 2645, col: 9, offset: 84458},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2881, col: 10, offset: 91342},
+																																					pos: position{line: 2888, col: 10, offset: 91535},
 																																					run: (*parser).callonDocumentFragment1173,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2881, col: 10, offset: 91342},
+																																						pos:        position{line: 2888, col: 10, offset: 91535},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9527,28 +9527,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2903, col: 8, offset: 91740},
+																															pos: position{line: 2910, col: 8, offset: 91933},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2890, col: 12, offset: 91513},
+																																	pos: position{line: 2897, col: 12, offset: 91706},
 																																	run: (*parser).callonDocumentFragment1182,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2890, col: 13, offset: 91514},
+																																		pos: position{line: 2897, col: 13, offset: 91707},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2890, col: 13, offset: 91514},
+																																				pos:        position{line: 2897, col: 13, offset: 91707},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2890, col: 20, offset: 91521},
+																																				pos:        position{line: 2897, col: 20, offset: 91714},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2890, col: 29, offset: 91530},
+																																				pos:        position{line: 2897, col: 29, offset: 91723},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9557,9 +9557,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2900, col: 8, offset: 91690},
+																																	pos: position{line: 2907, col: 8, offset: 91883},
 																																	expr: &anyMatcher{
-																																		line: 2900, col: 9, offset: 91691,
+																																		line: 2907, col: 9, offset: 91884,
 																																	},
 																																},
 																															},
@@ -9598,10 +9598,10 @@ var g = &grammar{
 																																						&zeroOrMoreExpr{
 																																							pos: position{line: 2623, col: 26, offset: 84016},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2881, col: 10, offset: 91342},
+																																								pos: position{line: 2888, col: 10, offset: 91535},
 																																								run: (*parser).callonDocumentFragment1199,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2881, col: 10, offset: 91342},
+																																									pos:        position{line: 2888, col: 10, offset: 91535},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9610,28 +9610,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2903, col: 8, offset: 91740},
+																																							pos: position{line: 2910, col: 8, offset: 91933},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2890, col: 12, offset: 91513},
+																																									pos: position{line: 2897, col: 12, offset: 91706},
 																																									run: (*parser).callonDocumentFragment1202,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2890, col: 13, offset: 91514},
+																																										pos: position{line: 2897, col: 13, offset: 91707},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2890, col: 13, offset: 91514},
+																																												pos:        position{line: 2897, col: 13, offset: 91707},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2890, col: 20, offset: 91521},
+																																												pos:        position{line: 2897, col: 20, offset: 91714},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2890, col: 29, offset: 91530},
+																																												pos:        position{line: 2897, col: 29, offset: 91723},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9640,9 +9640,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2900, col: 8, offset: 91690},
+																																									pos: position{line: 2907, col: 8, offset: 91883},
 																																									expr: &anyMatcher{
-																																										line: 2900, col: 9, offset: 91691,
+																																										line: 2907, col: 9, offset: 91884,
 																																									},
 																																								},
 																																							},
@@ -9650,9 +9650,9 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2900, col: 8, offset: 91690},
+																																					pos: position{line: 2907, col: 8, offset: 91883},
 																																					expr: &anyMatcher{
-																																						line: 2900, col: 9, offset: 91691,
+																																						line: 2907, col: 9, offset: 91884,
 																																					},
 																																				},
 																																			},
@@ -9667,18 +9667,18 @@ var g = &grammar{
 																																				pos: position{line: 677, col: 14, offset: 21525},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2898, col: 11, offset: 91676},
+																																						pos: position{line: 2905, col: 11, offset: 91869},
 																																						expr: &anyMatcher{
-																																							line: 2898, col: 13, offset: 91678,
+																																							line: 2905, col: 13, offset: 91871,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
 																																						pos: position{line: 677, col: 21, offset: 21532},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2881, col: 10, offset: 91342},
+																																							pos: position{line: 2888, col: 10, offset: 91535},
 																																							run: (*parser).callonDocumentFragment1217,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2881, col: 10, offset: 91342},
+																																								pos:        position{line: 2888, col: 10, offset: 91535},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9687,28 +9687,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2903, col: 8, offset: 91740},
+																																						pos: position{line: 2910, col: 8, offset: 91933},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2890, col: 12, offset: 91513},
+																																								pos: position{line: 2897, col: 12, offset: 91706},
 																																								run: (*parser).callonDocumentFragment1220,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2890, col: 13, offset: 91514},
+																																									pos: position{line: 2897, col: 13, offset: 91707},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2890, col: 13, offset: 91514},
+																																											pos:        position{line: 2897, col: 13, offset: 91707},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2890, col: 20, offset: 91521},
+																																											pos:        position{line: 2897, col: 20, offset: 91714},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2890, col: 29, offset: 91530},
+																																											pos:        position{line: 2897, col: 29, offset: 91723},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9717,9 +9717,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2900, col: 8, offset: 91690},
+																																								pos: position{line: 2907, col: 8, offset: 91883},
 																																								expr: &anyMatcher{
-																																									line: 2900, col: 9, offset: 91691,
+																																									line: 2907, col: 9, offset: 91884,
 																																								},
 																																							},
 																																						},
@@ -9758,10 +9758,10 @@ var g = &grammar{
 																																	&zeroOrMoreExpr{
 																																		pos: position{line: 2664, col: 35, offset: 84960},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2881, col: 10, offset: 91342},
+																																			pos: position{line: 2888, col: 10, offset: 91535},
 																																			run: (*parser).callonDocumentFragment1234,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2881, col: 10, offset: 91342},
+																																				pos:        position{line: 2888, col: 10, offset: 91535},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9772,25 +9772,25 @@ var g = &grammar{
 																																	&zeroOrOneExpr{
 																																		pos: position{line: 2664, col: 42, offset: 84967},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2890, col: 12, offset: 91513},
+																																			pos: position{line: 2897, col: 12, offset: 91706},
 																																			run: (*parser).callonDocumentFragment1237,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2890, col: 13, offset: 91514},
+																																				pos: position{line: 2897, col: 13, offset: 91707},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2890, col: 13, offset: 91514},
+																																						pos:        position{line: 2897, col: 13, offset: 91707},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2890, col: 20, offset: 91521},
+																																						pos:        position{line: 2897, col: 20, offset: 91714},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2890, col: 29, offset: 91530},
+																																						pos:        position{line: 2897, col: 29, offset: 91723},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9827,10 +9827,10 @@ var g = &grammar{
 																																											&zeroOrMoreExpr{
 																																												pos: position{line: 2623, col: 26, offset: 84016},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2881, col: 10, offset: 91342},
+																																													pos: position{line: 2888, col: 10, offset: 91535},
 																																													run: (*parser).callonDocumentFragment1251,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2881, col: 10, offset: 91342},
+																																														pos:        position{line: 2888, col: 10, offset: 91535},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -9839,28 +9839,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2903, col: 8, offset: 91740},
+																																												pos: position{line: 2910, col: 8, offset: 91933},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2890, col: 12, offset: 91513},
+																																														pos: position{line: 2897, col: 12, offset: 91706},
 																																														run: (*parser).callonDocumentFragment1254,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2890, col: 13, offset: 91514},
+																																															pos: position{line: 2897, col: 13, offset: 91707},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2890, col: 13, offset: 91514},
+																																																	pos:        position{line: 2897, col: 13, offset: 91707},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2890, col: 20, offset: 91521},
+																																																	pos:        position{line: 2897, col: 20, offset: 91714},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2890, col: 29, offset: 91530},
+																																																	pos:        position{line: 2897, col: 29, offset: 91723},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -9869,9 +9869,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2900, col: 8, offset: 91690},
+																																														pos: position{line: 2907, col: 8, offset: 91883},
 																																														expr: &anyMatcher{
-																																															line: 2900, col: 9, offset: 91691,
+																																															line: 2907, col: 9, offset: 91884,
 																																														},
 																																													},
 																																												},
@@ -9879,9 +9879,9 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2900, col: 8, offset: 91690},
+																																										pos: position{line: 2907, col: 8, offset: 91883},
 																																										expr: &anyMatcher{
-																																											line: 2900, col: 9, offset: 91691,
+																																											line: 2907, col: 9, offset: 91884,
 																																										},
 																																									},
 																																								},
@@ -9896,18 +9896,18 @@ var g = &grammar{
 																																									pos: position{line: 677, col: 14, offset: 21525},
 																																									exprs: []interface{}{
 																																										&andExpr{
-																																											pos: position{line: 2898, col: 11, offset: 91676},
+																																											pos: position{line: 2905, col: 11, offset: 91869},
 																																											expr: &anyMatcher{
-																																												line: 2898, col: 13, offset: 91678,
+																																												line: 2905, col: 13, offset: 91871,
 																																											},
 																																										},
 																																										&zeroOrMoreExpr{
 																																											pos: position{line: 677, col: 21, offset: 21532},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2881, col: 10, offset: 91342},
+																																												pos: position{line: 2888, col: 10, offset: 91535},
 																																												run: (*parser).callonDocumentFragment1269,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2881, col: 10, offset: 91342},
+																																													pos:        position{line: 2888, col: 10, offset: 91535},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -9916,28 +9916,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2903, col: 8, offset: 91740},
+																																											pos: position{line: 2910, col: 8, offset: 91933},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2890, col: 12, offset: 91513},
+																																													pos: position{line: 2897, col: 12, offset: 91706},
 																																													run: (*parser).callonDocumentFragment1272,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2890, col: 13, offset: 91514},
+																																														pos: position{line: 2897, col: 13, offset: 91707},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2890, col: 13, offset: 91514},
+																																																pos:        position{line: 2897, col: 13, offset: 91707},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2890, col: 20, offset: 91521},
+																																																pos:        position{line: 2897, col: 20, offset: 91714},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2890, col: 29, offset: 91530},
+																																																pos:        position{line: 2897, col: 29, offset: 91723},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -9946,9 +9946,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2900, col: 8, offset: 91690},
+																																													pos: position{line: 2907, col: 8, offset: 91883},
 																																													expr: &anyMatcher{
-																																														line: 2900, col: 9, offset: 91691,
+																																														line: 2907, col: 9, offset: 91884,
 																																													},
 																																												},
 																																											},
@@ -10013,28 +10013,28 @@ var g = &grammar{
 																																						&zeroOrOneExpr{
 																																							pos: position{line: 2676, col: 12, offset: 85303},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2903, col: 8, offset: 91740},
+																																								pos: position{line: 2910, col: 8, offset: 91933},
 																																								alternatives: []interface{}{
 																																									&actionExpr{
-																																										pos: position{line: 2890, col: 12, offset: 91513},
+																																										pos: position{line: 2897, col: 12, offset: 91706},
 																																										run: (*parser).callonDocumentFragment1293,
 																																										expr: &choiceExpr{
-																																											pos: position{line: 2890, col: 13, offset: 91514},
+																																											pos: position{line: 2897, col: 13, offset: 91707},
 																																											alternatives: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2890, col: 13, offset: 91514},
+																																													pos:        position{line: 2897, col: 13, offset: 91707},
 																																													val:        "\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2890, col: 20, offset: 91521},
+																																													pos:        position{line: 2897, col: 20, offset: 91714},
 																																													val:        "\r\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2890, col: 29, offset: 91530},
+																																													pos:        position{line: 2897, col: 29, offset: 91723},
 																																													val:        "\r",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\"",
@@ -10043,9 +10043,9 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2900, col: 8, offset: 91690},
+																																										pos: position{line: 2907, col: 8, offset: 91883},
 																																										expr: &anyMatcher{
-																																											line: 2900, col: 9, offset: 91691,
+																																											line: 2907, col: 9, offset: 91884,
 																																										},
 																																									},
 																																								},
@@ -10073,18 +10073,18 @@ var g = &grammar{
 																									pos: position{line: 677, col: 14, offset: 21525},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2898, col: 11, offset: 91676},
+																											pos: position{line: 2905, col: 11, offset: 91869},
 																											expr: &anyMatcher{
-																												line: 2898, col: 13, offset: 91678,
+																												line: 2905, col: 13, offset: 91871,
 																											},
 																										},
 																										&zeroOrMoreExpr{
 																											pos: position{line: 677, col: 21, offset: 21532},
 																											expr: &actionExpr{
-																												pos: position{line: 2881, col: 10, offset: 91342},
+																												pos: position{line: 2888, col: 10, offset: 91535},
 																												run: (*parser).callonDocumentFragment1305,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2881, col: 10, offset: 91342},
+																													pos:        position{line: 2888, col: 10, offset: 91535},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -10093,28 +10093,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2903, col: 8, offset: 91740},
+																											pos: position{line: 2910, col: 8, offset: 91933},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2890, col: 12, offset: 91513},
+																													pos: position{line: 2897, col: 12, offset: 91706},
 																													run: (*parser).callonDocumentFragment1308,
 																													expr: &choiceExpr{
-																														pos: position{line: 2890, col: 13, offset: 91514},
+																														pos: position{line: 2897, col: 13, offset: 91707},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 13, offset: 91514},
+																																pos:        position{line: 2897, col: 13, offset: 91707},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 20, offset: 91521},
+																																pos:        position{line: 2897, col: 20, offset: 91714},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 29, offset: 91530},
+																																pos:        position{line: 2897, col: 29, offset: 91723},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -10123,9 +10123,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2900, col: 8, offset: 91690},
+																													pos: position{line: 2907, col: 8, offset: 91883},
 																													expr: &anyMatcher{
-																														line: 2900, col: 9, offset: 91691,
+																														line: 2907, col: 9, offset: 91884,
 																													},
 																												},
 																											},
@@ -10158,10 +10158,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 2623, col: 26, offset: 84016},
 																		expr: &actionExpr{
-																			pos: position{line: 2881, col: 10, offset: 91342},
+																			pos: position{line: 2888, col: 10, offset: 91535},
 																			run: (*parser).callonDocumentFragment1319,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2881, col: 10, offset: 91342},
+																				pos:        position{line: 2888, col: 10, offset: 91535},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10170,28 +10170,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2903, col: 8, offset: 91740},
+																		pos: position{line: 2910, col: 8, offset: 91933},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2890, col: 12, offset: 91513},
+																				pos: position{line: 2897, col: 12, offset: 91706},
 																				run: (*parser).callonDocumentFragment1322,
 																				expr: &choiceExpr{
-																					pos: position{line: 2890, col: 13, offset: 91514},
+																					pos: position{line: 2897, col: 13, offset: 91707},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 13, offset: 91514},
+																							pos:        position{line: 2897, col: 13, offset: 91707},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 20, offset: 91521},
+																							pos:        position{line: 2897, col: 20, offset: 91714},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 29, offset: 91530},
+																							pos:        position{line: 2897, col: 29, offset: 91723},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10200,9 +10200,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2900, col: 8, offset: 91690},
+																				pos: position{line: 2907, col: 8, offset: 91883},
 																				expr: &anyMatcher{
-																					line: 2900, col: 9, offset: 91691,
+																					line: 2907, col: 9, offset: 91884,
 																				},
 																			},
 																		},
@@ -10210,9 +10210,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2900, col: 8, offset: 91690},
+																pos: position{line: 2907, col: 8, offset: 91883},
 																expr: &anyMatcher{
-																	line: 2900, col: 9, offset: 91691,
+																	line: 2907, col: 9, offset: 91884,
 																},
 															},
 														},
@@ -10245,12 +10245,12 @@ var g = &grammar{
 														pos:   position{line: 2488, col: 49, offset: 80255},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2827, col: 13, offset: 89868},
+															pos: position{line: 2834, col: 13, offset: 90061},
 															run: (*parser).callonDocumentFragment1337,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2827, col: 13, offset: 89868},
+																pos: position{line: 2834, col: 13, offset: 90061},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2827, col: 13, offset: 89868},
+																	pos:        position{line: 2834, col: 13, offset: 90061},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10260,28 +10260,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2903, col: 8, offset: 91740},
+														pos: position{line: 2910, col: 8, offset: 91933},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2890, col: 12, offset: 91513},
+																pos: position{line: 2897, col: 12, offset: 91706},
 																run: (*parser).callonDocumentFragment1341,
 																expr: &choiceExpr{
-																	pos: position{line: 2890, col: 13, offset: 91514},
+																	pos: position{line: 2897, col: 13, offset: 91707},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2890, col: 13, offset: 91514},
+																			pos:        position{line: 2897, col: 13, offset: 91707},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2890, col: 20, offset: 91521},
+																			pos:        position{line: 2897, col: 20, offset: 91714},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2890, col: 29, offset: 91530},
+																			pos:        position{line: 2897, col: 29, offset: 91723},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10290,9 +10290,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2900, col: 8, offset: 91690},
+																pos: position{line: 2907, col: 8, offset: 91883},
 																expr: &anyMatcher{
-																	line: 2900, col: 9, offset: 91691,
+																	line: 2907, col: 9, offset: 91884,
 																},
 															},
 														},
@@ -10328,10 +10328,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1239, col: 36, offset: 38364},
 																		expr: &actionExpr{
-																			pos: position{line: 2881, col: 10, offset: 91342},
+																			pos: position{line: 2888, col: 10, offset: 91535},
 																			run: (*parser).callonDocumentFragment1356,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2881, col: 10, offset: 91342},
+																				pos:        position{line: 2888, col: 10, offset: 91535},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10340,28 +10340,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2903, col: 8, offset: 91740},
+																		pos: position{line: 2910, col: 8, offset: 91933},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2890, col: 12, offset: 91513},
+																				pos: position{line: 2897, col: 12, offset: 91706},
 																				run: (*parser).callonDocumentFragment1359,
 																				expr: &choiceExpr{
-																					pos: position{line: 2890, col: 13, offset: 91514},
+																					pos: position{line: 2897, col: 13, offset: 91707},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 13, offset: 91514},
+																							pos:        position{line: 2897, col: 13, offset: 91707},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 20, offset: 91521},
+																							pos:        position{line: 2897, col: 20, offset: 91714},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 29, offset: 91530},
+																							pos:        position{line: 2897, col: 29, offset: 91723},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10370,9 +10370,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2900, col: 8, offset: 91690},
+																				pos: position{line: 2907, col: 8, offset: 91883},
 																				expr: &anyMatcher{
-																					line: 2900, col: 9, offset: 91691,
+																					line: 2907, col: 9, offset: 91884,
 																				},
 																			},
 																		},
@@ -10406,10 +10406,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 1239, col: 36, offset: 38364},
 																												expr: &actionExpr{
-																													pos: position{line: 2881, col: 10, offset: 91342},
+																													pos: position{line: 2888, col: 10, offset: 91535},
 																													run: (*parser).callonDocumentFragment1376,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2881, col: 10, offset: 91342},
+																														pos:        position{line: 2888, col: 10, offset: 91535},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -10418,28 +10418,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2903, col: 8, offset: 91740},
+																												pos: position{line: 2910, col: 8, offset: 91933},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2890, col: 12, offset: 91513},
+																														pos: position{line: 2897, col: 12, offset: 91706},
 																														run: (*parser).callonDocumentFragment1379,
 																														expr: &choiceExpr{
-																															pos: position{line: 2890, col: 13, offset: 91514},
+																															pos: position{line: 2897, col: 13, offset: 91707},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2890, col: 13, offset: 91514},
+																																	pos:        position{line: 2897, col: 13, offset: 91707},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2890, col: 20, offset: 91521},
+																																	pos:        position{line: 2897, col: 20, offset: 91714},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2890, col: 29, offset: 91530},
+																																	pos:        position{line: 2897, col: 29, offset: 91723},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -10448,9 +10448,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2900, col: 8, offset: 91690},
+																														pos: position{line: 2907, col: 8, offset: 91883},
 																														expr: &anyMatcher{
-																															line: 2900, col: 9, offset: 91691,
+																															line: 2907, col: 9, offset: 91884,
 																														},
 																													},
 																												},
@@ -10477,10 +10477,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1239, col: 36, offset: 38364},
 																		expr: &actionExpr{
-																			pos: position{line: 2881, col: 10, offset: 91342},
+																			pos: position{line: 2888, col: 10, offset: 91535},
 																			run: (*parser).callonDocumentFragment1389,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2881, col: 10, offset: 91342},
+																				pos:        position{line: 2888, col: 10, offset: 91535},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10489,28 +10489,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2903, col: 8, offset: 91740},
+																		pos: position{line: 2910, col: 8, offset: 91933},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2890, col: 12, offset: 91513},
+																				pos: position{line: 2897, col: 12, offset: 91706},
 																				run: (*parser).callonDocumentFragment1392,
 																				expr: &choiceExpr{
-																					pos: position{line: 2890, col: 13, offset: 91514},
+																					pos: position{line: 2897, col: 13, offset: 91707},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 13, offset: 91514},
+																							pos:        position{line: 2897, col: 13, offset: 91707},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 20, offset: 91521},
+																							pos:        position{line: 2897, col: 20, offset: 91714},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 29, offset: 91530},
+																							pos:        position{line: 2897, col: 29, offset: 91723},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10519,9 +10519,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2900, col: 8, offset: 91690},
+																				pos: position{line: 2907, col: 8, offset: 91883},
 																				expr: &anyMatcher{
-																					line: 2900, col: 9, offset: 91691,
+																					line: 2907, col: 9, offset: 91884,
 																				},
 																			},
 																		},
@@ -10578,9 +10578,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2900, col: 8, offset: 91690},
+							pos: position{line: 2907, col: 8, offset: 91883},
 							expr: &anyMatcher{
-								line: 2900, col: 9, offset: 91691,
+								line: 2907, col: 9, offset: 91884,
 							},
 						},
 					},
@@ -10652,12 +10652,12 @@ var g = &grammar{
 										pos: position{line: 304, col: 9, offset: 9170},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2885, col: 11, offset: 91403},
+												pos: position{line: 2892, col: 11, offset: 91596},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2885, col: 11, offset: 91403},
+													pos: position{line: 2892, col: 11, offset: 91596},
 													expr: &charClassMatcher{
-														pos:        position{line: 2885, col: 11, offset: 91403},
+														pos:        position{line: 2892, col: 11, offset: 91596},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10681,10 +10681,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 309, col: 5, offset: 9350},
 							expr: &actionExpr{
-								pos: position{line: 2881, col: 10, offset: 91342},
+								pos: position{line: 2888, col: 10, offset: 91535},
 								run: (*parser).callonAttributeDeclaration21,
 								expr: &charClassMatcher{
-									pos:        position{line: 2881, col: 10, offset: 91342},
+									pos:        position{line: 2888, col: 10, offset: 91535},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -10693,28 +10693,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2903, col: 8, offset: 91740},
+							pos: position{line: 2910, col: 8, offset: 91933},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2890, col: 12, offset: 91513},
+									pos: position{line: 2897, col: 12, offset: 91706},
 									run: (*parser).callonAttributeDeclaration24,
 									expr: &choiceExpr{
-										pos: position{line: 2890, col: 13, offset: 91514},
+										pos: position{line: 2897, col: 13, offset: 91707},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2890, col: 13, offset: 91514},
+												pos:        position{line: 2897, col: 13, offset: 91707},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2890, col: 20, offset: 91521},
+												pos:        position{line: 2897, col: 20, offset: 91714},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2890, col: 29, offset: 91530},
+												pos:        position{line: 2897, col: 29, offset: 91723},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10723,9 +10723,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2900, col: 8, offset: 91690},
+									pos: position{line: 2907, col: 8, offset: 91883},
 									expr: &anyMatcher{
-										line: 2900, col: 9, offset: 91691,
+										line: 2907, col: 9, offset: 91884,
 									},
 								},
 							},
@@ -10771,10 +10771,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 324, col: 14, offset: 9848},
 												expr: &actionExpr{
-													pos: position{line: 2881, col: 10, offset: 91342},
+													pos: position{line: 2888, col: 10, offset: 91535},
 													run: (*parser).callonAttributeDeclarationValue11,
 													expr: &charClassMatcher{
-														pos:        position{line: 2881, col: 10, offset: 91342},
+														pos:        position{line: 2888, col: 10, offset: 91535},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10783,25 +10783,25 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 2890, col: 12, offset: 91513},
+												pos: position{line: 2897, col: 12, offset: 91706},
 												run: (*parser).callonAttributeDeclarationValue13,
 												expr: &choiceExpr{
-													pos: position{line: 2890, col: 13, offset: 91514},
+													pos: position{line: 2897, col: 13, offset: 91707},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2890, col: 13, offset: 91514},
+															pos:        position{line: 2897, col: 13, offset: 91707},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2890, col: 20, offset: 91521},
+															pos:        position{line: 2897, col: 20, offset: 91714},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2890, col: 29, offset: 91530},
+															pos:        position{line: 2897, col: 29, offset: 91723},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10812,10 +10812,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 325, col: 9, offset: 9872},
 												expr: &actionExpr{
-													pos: position{line: 2881, col: 10, offset: 91342},
+													pos: position{line: 2888, col: 10, offset: 91535},
 													run: (*parser).callonAttributeDeclarationValue19,
 													expr: &charClassMatcher{
-														pos:        position{line: 2881, col: 10, offset: 91342},
+														pos:        position{line: 2888, col: 10, offset: 91535},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10885,10 +10885,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 343, col: 13, offset: 10417},
 										expr: &actionExpr{
-											pos: position{line: 2881, col: 10, offset: 91342},
+											pos: position{line: 2888, col: 10, offset: 91535},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2881, col: 10, offset: 91342},
+												pos:        position{line: 2888, col: 10, offset: 91535},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10897,28 +10897,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2903, col: 8, offset: 91740},
+										pos: position{line: 2910, col: 8, offset: 91933},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2890, col: 12, offset: 91513},
+												pos: position{line: 2897, col: 12, offset: 91706},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2890, col: 13, offset: 91514},
+													pos: position{line: 2897, col: 13, offset: 91707},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2890, col: 13, offset: 91514},
+															pos:        position{line: 2897, col: 13, offset: 91707},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2890, col: 20, offset: 91521},
+															pos:        position{line: 2897, col: 20, offset: 91714},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2890, col: 29, offset: 91530},
+															pos:        position{line: 2897, col: 29, offset: 91723},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10927,9 +10927,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2900, col: 8, offset: 91690},
+												pos: position{line: 2907, col: 8, offset: 91883},
 												expr: &anyMatcher{
-													line: 2900, col: 9, offset: 91691,
+													line: 2907, col: 9, offset: 91884,
 												},
 											},
 										},
@@ -10990,10 +10990,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2881, col: 10, offset: 91342},
+										pos: position{line: 2888, col: 10, offset: 91535},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2881, col: 10, offset: 91342},
+											pos:        position{line: 2888, col: 10, offset: 91535},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -11834,10 +11834,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 371, col: 35, offset: 11426},
 												expr: &actionExpr{
-													pos: position{line: 2881, col: 10, offset: 91342},
+													pos: position{line: 2888, col: 10, offset: 91535},
 													run: (*parser).callonBlockAttributes101,
 													expr: &charClassMatcher{
-														pos:        position{line: 2881, col: 10, offset: 91342},
+														pos:        position{line: 2888, col: 10, offset: 91535},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11846,28 +11846,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2903, col: 8, offset: 91740},
+												pos: position{line: 2910, col: 8, offset: 91933},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2890, col: 12, offset: 91513},
+														pos: position{line: 2897, col: 12, offset: 91706},
 														run: (*parser).callonBlockAttributes104,
 														expr: &choiceExpr{
-															pos: position{line: 2890, col: 13, offset: 91514},
+															pos: position{line: 2897, col: 13, offset: 91707},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2890, col: 13, offset: 91514},
+																	pos:        position{line: 2897, col: 13, offset: 91707},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2890, col: 20, offset: 91521},
+																	pos:        position{line: 2897, col: 20, offset: 91714},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2890, col: 29, offset: 91530},
+																	pos:        position{line: 2897, col: 29, offset: 91723},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11876,9 +11876,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2900, col: 8, offset: 91690},
+														pos: position{line: 2907, col: 8, offset: 91883},
 														expr: &anyMatcher{
-															line: 2900, col: 9, offset: 91691,
+															line: 2907, col: 9, offset: 91884,
 														},
 													},
 												},
@@ -11892,18 +11892,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21525},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2898, col: 11, offset: 91676},
+																pos: position{line: 2905, col: 11, offset: 91869},
 																expr: &anyMatcher{
-																	line: 2898, col: 13, offset: 91678,
+																	line: 2905, col: 13, offset: 91871,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21532},
 																expr: &actionExpr{
-																	pos: position{line: 2881, col: 10, offset: 91342},
+																	pos: position{line: 2888, col: 10, offset: 91535},
 																	run: (*parser).callonBlockAttributes117,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2881, col: 10, offset: 91342},
+																		pos:        position{line: 2888, col: 10, offset: 91535},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -11912,28 +11912,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2903, col: 8, offset: 91740},
+																pos: position{line: 2910, col: 8, offset: 91933},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2890, col: 12, offset: 91513},
+																		pos: position{line: 2897, col: 12, offset: 91706},
 																		run: (*parser).callonBlockAttributes120,
 																		expr: &choiceExpr{
-																			pos: position{line: 2890, col: 13, offset: 91514},
+																			pos: position{line: 2897, col: 13, offset: 91707},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2890, col: 13, offset: 91514},
+																					pos:        position{line: 2897, col: 13, offset: 91707},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2890, col: 20, offset: 91521},
+																					pos:        position{line: 2897, col: 20, offset: 91714},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2890, col: 29, offset: 91530},
+																					pos:        position{line: 2897, col: 29, offset: 91723},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -11942,9 +11942,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2900, col: 8, offset: 91690},
+																		pos: position{line: 2907, col: 8, offset: 91883},
 																		expr: &anyMatcher{
-																			line: 2900, col: 9, offset: 91691,
+																			line: 2907, col: 9, offset: 91884,
 																		},
 																	},
 																},
@@ -12010,10 +12010,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2881, col: 10, offset: 91342},
+																				pos: position{line: 2888, col: 10, offset: 91535},
 																				run: (*parser).callonBlockAttributes141,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2881, col: 10, offset: 91342},
+																					pos:        position{line: 2888, col: 10, offset: 91535},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -12021,27 +12021,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2798, col: 5, offset: 88996},
+																				pos: position{line: 2805, col: 5, offset: 89189},
 																				run: (*parser).callonBlockAttributes143,
 																				expr: &choiceExpr{
-																					pos: position{line: 2799, col: 9, offset: 89006},
+																					pos: position{line: 2806, col: 9, offset: 89199},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2799, col: 10, offset: 89007},
+																							pos:        position{line: 2806, col: 10, offset: 89200},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2801, col: 13, offset: 89104},
+																							pos: position{line: 2808, col: 13, offset: 89297},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2801, col: 13, offset: 89104},
+																									pos: position{line: 2808, col: 13, offset: 89297},
 																									run: (*parser).callonBlockAttributes147,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2804, col: 13, offset: 89204},
+																									pos:        position{line: 2811, col: 13, offset: 89397},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -12049,20 +12049,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2804, col: 19, offset: 89210},
+																							pos:        position{line: 2811, col: 19, offset: 89403},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2807, col: 13, offset: 89248},
+																							pos: position{line: 2814, col: 13, offset: 89441},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2807, col: 13, offset: 89248},
+																									pos: position{line: 2814, col: 13, offset: 89441},
 																									run: (*parser).callonBlockAttributes151,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2810, col: 14, offset: 89341},
+																									pos:        position{line: 2817, col: 14, offset: 89534},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -12071,18 +12071,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2812, col: 12, offset: 89385},
+																							pos: position{line: 2819, col: 12, offset: 89578},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2812, col: 12, offset: 89385},
+																									pos:        position{line: 2819, col: 12, offset: 89578},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2812, col: 16, offset: 89389},
+																									pos: position{line: 2819, col: 16, offset: 89582},
 																									expr: &litMatcher{
-																										pos:        position{line: 2812, col: 17, offset: 89390},
+																										pos:        position{line: 2819, col: 17, offset: 89583},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12418,10 +12418,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2820, col: 12, offset: 89650},
+																				pos: position{line: 2827, col: 12, offset: 89843},
 																				run: (*parser).callonBlockAttributes221,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2820, col: 12, offset: 89650},
+																					pos:        position{line: 2827, col: 12, offset: 89843},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12439,10 +12439,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 375, col: 35, offset: 11581},
 												expr: &actionExpr{
-													pos: position{line: 2881, col: 10, offset: 91342},
+													pos: position{line: 2888, col: 10, offset: 91535},
 													run: (*parser).callonBlockAttributes224,
 													expr: &charClassMatcher{
-														pos:        position{line: 2881, col: 10, offset: 91342},
+														pos:        position{line: 2888, col: 10, offset: 91535},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12451,28 +12451,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2903, col: 8, offset: 91740},
+												pos: position{line: 2910, col: 8, offset: 91933},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2890, col: 12, offset: 91513},
+														pos: position{line: 2897, col: 12, offset: 91706},
 														run: (*parser).callonBlockAttributes227,
 														expr: &choiceExpr{
-															pos: position{line: 2890, col: 13, offset: 91514},
+															pos: position{line: 2897, col: 13, offset: 91707},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2890, col: 13, offset: 91514},
+																	pos:        position{line: 2897, col: 13, offset: 91707},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2890, col: 20, offset: 91521},
+																	pos:        position{line: 2897, col: 20, offset: 91714},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2890, col: 29, offset: 91530},
+																	pos:        position{line: 2897, col: 29, offset: 91723},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12481,9 +12481,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2900, col: 8, offset: 91690},
+														pos: position{line: 2907, col: 8, offset: 91883},
 														expr: &anyMatcher{
-															line: 2900, col: 9, offset: 91691,
+															line: 2907, col: 9, offset: 91884,
 														},
 													},
 												},
@@ -12497,18 +12497,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21525},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2898, col: 11, offset: 91676},
+																pos: position{line: 2905, col: 11, offset: 91869},
 																expr: &anyMatcher{
-																	line: 2898, col: 13, offset: 91678,
+																	line: 2905, col: 13, offset: 91871,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21532},
 																expr: &actionExpr{
-																	pos: position{line: 2881, col: 10, offset: 91342},
+																	pos: position{line: 2888, col: 10, offset: 91535},
 																	run: (*parser).callonBlockAttributes240,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2881, col: 10, offset: 91342},
+																		pos:        position{line: 2888, col: 10, offset: 91535},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12517,28 +12517,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2903, col: 8, offset: 91740},
+																pos: position{line: 2910, col: 8, offset: 91933},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2890, col: 12, offset: 91513},
+																		pos: position{line: 2897, col: 12, offset: 91706},
 																		run: (*parser).callonBlockAttributes243,
 																		expr: &choiceExpr{
-																			pos: position{line: 2890, col: 13, offset: 91514},
+																			pos: position{line: 2897, col: 13, offset: 91707},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2890, col: 13, offset: 91514},
+																					pos:        position{line: 2897, col: 13, offset: 91707},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2890, col: 20, offset: 91521},
+																					pos:        position{line: 2897, col: 20, offset: 91714},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2890, col: 29, offset: 91530},
+																					pos:        position{line: 2897, col: 29, offset: 91723},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12547,9 +12547,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2900, col: 8, offset: 91690},
+																		pos: position{line: 2907, col: 8, offset: 91883},
 																		expr: &anyMatcher{
-																			line: 2900, col: 9, offset: 91691,
+																			line: 2907, col: 9, offset: 91884,
 																		},
 																	},
 																},
@@ -12571,10 +12571,10 @@ var g = &grammar{
 												pos:   position{line: 379, col: 12, offset: 11682},
 												label: "start",
 												expr: &actionExpr{
-													pos: position{line: 2906, col: 16, offset: 91864},
+													pos: position{line: 2913, col: 16, offset: 92057},
 													run: (*parser).callonBlockAttributes253,
 													expr: &litMatcher{
-														pos:        position{line: 2906, col: 16, offset: 91864},
+														pos:        position{line: 2913, col: 16, offset: 92057},
 														val:        "",
 														ignoreCase: false,
 														want:       "\"\"",
@@ -12592,10 +12592,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 379, col: 64, offset: 11734},
 												expr: &actionExpr{
-													pos: position{line: 2881, col: 10, offset: 91342},
+													pos: position{line: 2888, col: 10, offset: 91535},
 													run: (*parser).callonBlockAttributes258,
 													expr: &charClassMatcher{
-														pos:        position{line: 2881, col: 10, offset: 91342},
+														pos:        position{line: 2888, col: 10, offset: 91535},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12607,10 +12607,10 @@ var g = &grammar{
 												pos:   position{line: 379, col: 71, offset: 11741},
 												label: "end",
 												expr: &actionExpr{
-													pos: position{line: 2906, col: 16, offset: 91864},
+													pos: position{line: 2913, col: 16, offset: 92057},
 													run: (*parser).callonBlockAttributes261,
 													expr: &litMatcher{
-														pos:        position{line: 2906, col: 16, offset: 91864},
+														pos:        position{line: 2913, col: 16, offset: 92057},
 														val:        "",
 														ignoreCase: false,
 														want:       "\"\"",
@@ -12622,28 +12622,28 @@ var g = &grammar{
 												run: (*parser).callonBlockAttributes263,
 											},
 											&choiceExpr{
-												pos: position{line: 2903, col: 8, offset: 91740},
+												pos: position{line: 2910, col: 8, offset: 91933},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2890, col: 12, offset: 91513},
+														pos: position{line: 2897, col: 12, offset: 91706},
 														run: (*parser).callonBlockAttributes265,
 														expr: &choiceExpr{
-															pos: position{line: 2890, col: 13, offset: 91514},
+															pos: position{line: 2897, col: 13, offset: 91707},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2890, col: 13, offset: 91514},
+																	pos:        position{line: 2897, col: 13, offset: 91707},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2890, col: 20, offset: 91521},
+																	pos:        position{line: 2897, col: 20, offset: 91714},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2890, col: 29, offset: 91530},
+																	pos:        position{line: 2897, col: 29, offset: 91723},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12652,9 +12652,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2900, col: 8, offset: 91690},
+														pos: position{line: 2907, col: 8, offset: 91883},
 														expr: &anyMatcher{
-															line: 2900, col: 9, offset: 91691,
+															line: 2907, col: 9, offset: 91884,
 														},
 													},
 												},
@@ -12668,18 +12668,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21525},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2898, col: 11, offset: 91676},
+																pos: position{line: 2905, col: 11, offset: 91869},
 																expr: &anyMatcher{
-																	line: 2898, col: 13, offset: 91678,
+																	line: 2905, col: 13, offset: 91871,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21532},
 																expr: &actionExpr{
-																	pos: position{line: 2881, col: 10, offset: 91342},
+																	pos: position{line: 2888, col: 10, offset: 91535},
 																	run: (*parser).callonBlockAttributes278,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2881, col: 10, offset: 91342},
+																		pos:        position{line: 2888, col: 10, offset: 91535},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12688,28 +12688,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2903, col: 8, offset: 91740},
+																pos: position{line: 2910, col: 8, offset: 91933},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2890, col: 12, offset: 91513},
+																		pos: position{line: 2897, col: 12, offset: 91706},
 																		run: (*parser).callonBlockAttributes281,
 																		expr: &choiceExpr{
-																			pos: position{line: 2890, col: 13, offset: 91514},
+																			pos: position{line: 2897, col: 13, offset: 91707},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2890, col: 13, offset: 91514},
+																					pos:        position{line: 2897, col: 13, offset: 91707},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2890, col: 20, offset: 91521},
+																					pos:        position{line: 2897, col: 20, offset: 91714},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2890, col: 29, offset: 91530},
+																					pos:        position{line: 2897, col: 29, offset: 91723},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12718,9 +12718,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2900, col: 8, offset: 91690},
+																		pos: position{line: 2907, col: 8, offset: 91883},
 																		expr: &anyMatcher{
-																			line: 2900, col: 9, offset: 91691,
+																			line: 2907, col: 9, offset: 91884,
 																		},
 																	},
 																},
@@ -12968,10 +12968,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 466, col: 13, offset: 14565},
 										expr: &actionExpr{
-											pos: position{line: 2881, col: 10, offset: 91342},
+											pos: position{line: 2888, col: 10, offset: 91535},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2881, col: 10, offset: 91342},
+												pos:        position{line: 2888, col: 10, offset: 91535},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13503,10 +13503,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 518, col: 9, offset: 16147},
 													expr: &actionExpr{
-														pos: position{line: 2881, col: 10, offset: 91342},
+														pos: position{line: 2888, col: 10, offset: 91535},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2881, col: 10, offset: 91342},
+															pos:        position{line: 2888, col: 10, offset: 91535},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13567,10 +13567,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 524, col: 34, offset: 16290},
 														expr: &actionExpr{
-															pos: position{line: 2881, col: 10, offset: 91342},
+															pos: position{line: 2888, col: 10, offset: 91535},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2881, col: 10, offset: 91342},
+																pos:        position{line: 2888, col: 10, offset: 91535},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13610,10 +13610,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 529, col: 13, offset: 16454},
 												expr: &actionExpr{
-													pos: position{line: 2881, col: 10, offset: 91342},
+													pos: position{line: 2888, col: 10, offset: 91535},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2881, col: 10, offset: 91342},
+														pos:        position{line: 2888, col: 10, offset: 91535},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13636,10 +13636,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 529, col: 26, offset: 16467},
 																expr: &actionExpr{
-																	pos: position{line: 2881, col: 10, offset: 91342},
+																	pos: position{line: 2888, col: 10, offset: 91535},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2881, col: 10, offset: 91342},
+																		pos:        position{line: 2888, col: 10, offset: 91535},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13694,10 +13694,10 @@ var g = &grammar{
 										&notExpr{
 											pos: position{line: 549, col: 22, offset: 17114},
 											expr: &actionExpr{
-												pos: position{line: 2881, col: 10, offset: 91342},
+												pos: position{line: 2888, col: 10, offset: 91535},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2881, col: 10, offset: 91342},
+													pos:        position{line: 2888, col: 10, offset: 91535},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13728,10 +13728,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 542, col: 9, offset: 16859},
 							expr: &actionExpr{
-								pos: position{line: 2881, col: 10, offset: 91342},
+								pos: position{line: 2888, col: 10, offset: 91535},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2881, col: 10, offset: 91342},
+									pos:        position{line: 2888, col: 10, offset: 91535},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13761,10 +13761,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 543, col: 33, offset: 16899},
 										expr: &actionExpr{
-											pos: position{line: 2881, col: 10, offset: 91342},
+											pos: position{line: 2888, col: 10, offset: 91535},
 											run: (*parser).callonNamedAttribute21,
 											expr: &charClassMatcher{
-												pos:        position{line: 2881, col: 10, offset: 91342},
+												pos:        position{line: 2888, col: 10, offset: 91535},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13819,10 +13819,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 559, col: 9, offset: 17331},
 											expr: &actionExpr{
-												pos: position{line: 2881, col: 10, offset: 91342},
+												pos: position{line: 2888, col: 10, offset: 91535},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2881, col: 10, offset: 91342},
+													pos:        position{line: 2888, col: 10, offset: 91535},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13915,10 +13915,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2881, col: 10, offset: 91342},
+									pos: position{line: 2888, col: 10, offset: 91535},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2881, col: 10, offset: 91342},
+										pos:        position{line: 2888, col: 10, offset: 91535},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14375,10 +14375,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 592, col: 14, offset: 18388},
 											expr: &actionExpr{
-												pos: position{line: 2881, col: 10, offset: 91342},
+												pos: position{line: 2888, col: 10, offset: 91535},
 												run: (*parser).callonDoubleQuotedAttributeValue13,
 												expr: &charClassMatcher{
-													pos:        position{line: 2881, col: 10, offset: 91342},
+													pos:        position{line: 2888, col: 10, offset: 91535},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14429,10 +14429,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2881, col: 10, offset: 91342},
+									pos: position{line: 2888, col: 10, offset: 91535},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2881, col: 10, offset: 91342},
+										pos:        position{line: 2888, col: 10, offset: 91535},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14859,10 +14859,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 619, col: 5, offset: 19355},
 							expr: &actionExpr{
-								pos: position{line: 2881, col: 10, offset: 91342},
+								pos: position{line: 2888, col: 10, offset: 91535},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2881, col: 10, offset: 91342},
+									pos:        position{line: 2888, col: 10, offset: 91535},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -15252,10 +15252,10 @@ var g = &grammar{
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2881, col: 10, offset: 91342},
+											pos: position{line: 2888, col: 10, offset: 91535},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2881, col: 10, offset: 91342},
+												pos:        position{line: 2888, col: 10, offset: 91535},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -15306,12 +15306,12 @@ var g = &grammar{
 									pos:   position{line: 686, col: 32, offset: 21885},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2866, col: 7, offset: 90994},
+										pos: position{line: 2873, col: 7, offset: 91187},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2866, col: 7, offset: 90994},
+											pos: position{line: 2873, col: 7, offset: 91187},
 											expr: &charClassMatcher{
-												pos:        position{line: 2866, col: 7, offset: 90994},
+												pos:        position{line: 2873, col: 7, offset: 91187},
 												val:        "[^[]<>,\\r\\n]",
 												chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 												ignoreCase: false,
@@ -15323,10 +15323,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 686, col: 40, offset: 21893},
 									expr: &actionExpr{
-										pos: position{line: 2881, col: 10, offset: 91342},
+										pos: position{line: 2888, col: 10, offset: 91535},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2881, col: 10, offset: 91342},
+											pos:        position{line: 2888, col: 10, offset: 91535},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15343,10 +15343,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 686, col: 51, offset: 21904},
 									expr: &actionExpr{
-										pos: position{line: 2881, col: 10, offset: 91342},
+										pos: position{line: 2888, col: 10, offset: 91535},
 										run: (*parser).callonCrossReference14,
 										expr: &charClassMatcher{
-											pos:        position{line: 2881, col: 10, offset: 91342},
+											pos:        position{line: 2888, col: 10, offset: 91535},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15739,12 +15739,12 @@ var g = &grammar{
 									pos:   position{line: 688, col: 14, offset: 22017},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2866, col: 7, offset: 90994},
+										pos: position{line: 2873, col: 7, offset: 91187},
 										run: (*parser).callonCrossReference93,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2866, col: 7, offset: 90994},
+											pos: position{line: 2873, col: 7, offset: 91187},
 											expr: &charClassMatcher{
-												pos:        position{line: 2866, col: 7, offset: 90994},
+												pos:        position{line: 2873, col: 7, offset: 91187},
 												val:        "[^[]<>,\\r\\n]",
 												chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 												ignoreCase: false,
@@ -15788,41 +15788,41 @@ var g = &grammar{
 							pos:   position{line: 692, col: 35, offset: 22130},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2835, col: 17, offset: 90005},
+								pos: position{line: 2842, col: 17, offset: 90198},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2835, col: 17, offset: 90005},
+									pos:   position{line: 2842, col: 17, offset: 90198},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2852, col: 5, offset: 90459},
+										pos: position{line: 2859, col: 5, offset: 90652},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2852, col: 5, offset: 90459},
+											pos:   position{line: 2859, col: 5, offset: 90652},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2852, col: 14, offset: 90468},
+												pos: position{line: 2859, col: 14, offset: 90661},
 												expr: &choiceExpr{
-													pos: position{line: 2853, col: 9, offset: 90478},
+													pos: position{line: 2860, col: 9, offset: 90671},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2853, col: 9, offset: 90478},
+															pos: position{line: 2860, col: 9, offset: 90671},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2853, col: 9, offset: 90478},
+																pos: position{line: 2860, col: 9, offset: 90671},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2853, col: 9, offset: 90478},
+																		pos: position{line: 2860, col: 9, offset: 90671},
 																		expr: &litMatcher{
-																			pos:        position{line: 2853, col: 10, offset: 90479},
+																			pos:        position{line: 2860, col: 10, offset: 90672},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2854, col: 9, offset: 90507},
+																		pos: position{line: 2861, col: 9, offset: 90700},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2854, col: 10, offset: 90508},
+																			pos:        position{line: 2861, col: 10, offset: 90701},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -15833,27 +15833,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2857, col: 11, offset: 90720},
+															pos: position{line: 2864, col: 11, offset: 90913},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2857, col: 11, offset: 90720},
+																	pos:        position{line: 2864, col: 11, offset: 90913},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2857, col: 19, offset: 90728},
+																	pos: position{line: 2864, col: 19, offset: 90921},
 																	expr: &seqExpr{
-																		pos: position{line: 2857, col: 21, offset: 90730},
+																		pos: position{line: 2864, col: 21, offset: 90923},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2857, col: 21, offset: 90730},
+																				pos: position{line: 2864, col: 21, offset: 90923},
 																				expr: &actionExpr{
-																					pos: position{line: 2881, col: 10, offset: 91342},
+																					pos: position{line: 2888, col: 10, offset: 91535},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2881, col: 10, offset: 91342},
+																						pos:        position{line: 2888, col: 10, offset: 91535},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -15862,11 +15862,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2857, col: 28, offset: 90737},
+																				pos: position{line: 2864, col: 28, offset: 90930},
 																				expr: &notExpr{
-																					pos: position{line: 2900, col: 8, offset: 91690},
+																					pos: position{line: 2907, col: 8, offset: 91883},
 																					expr: &anyMatcher{
-																						line: 2900, col: 9, offset: 91691,
+																						line: 2907, col: 9, offset: 91884,
 																					},
 																				},
 																			},
@@ -16265,10 +16265,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2860, col: 11, offset: 90857},
+															pos: position{line: 2867, col: 11, offset: 91050},
 															run: (*parser).callonExternalCrossReference105,
 															expr: &litMatcher{
-																pos:        position{line: 2860, col: 11, offset: 90857},
+																pos:        position{line: 2867, col: 11, offset: 91050},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -16313,12 +16313,12 @@ var g = &grammar{
 							pos:   position{line: 990, col: 11, offset: 30870},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2831, col: 14, offset: 89935},
+								pos: position{line: 2838, col: 14, offset: 90128},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2831, col: 14, offset: 89935},
+									pos: position{line: 2838, col: 14, offset: 90128},
 									expr: &charClassMatcher{
-										pos:        position{line: 2831, col: 14, offset: 89935},
+										pos:        position{line: 2838, col: 14, offset: 90128},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -16328,28 +16328,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2903, col: 8, offset: 91740},
+							pos: position{line: 2910, col: 8, offset: 91933},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2890, col: 12, offset: 91513},
+									pos: position{line: 2897, col: 12, offset: 91706},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2890, col: 13, offset: 91514},
+										pos: position{line: 2897, col: 13, offset: 91707},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2890, col: 13, offset: 91514},
+												pos:        position{line: 2897, col: 13, offset: 91707},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2890, col: 20, offset: 91521},
+												pos:        position{line: 2897, col: 20, offset: 91714},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2890, col: 29, offset: 91530},
+												pos:        position{line: 2897, col: 29, offset: 91723},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -16358,9 +16358,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2900, col: 8, offset: 91690},
+									pos: position{line: 2907, col: 8, offset: 91883},
 									expr: &anyMatcher{
-										line: 2900, col: 9, offset: 91691,
+										line: 2907, col: 9, offset: 91884,
 									},
 								},
 							},
@@ -16412,12 +16412,12 @@ var g = &grammar{
 													pos:   position{line: 2488, col: 49, offset: 80255},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2827, col: 13, offset: 89868},
+														pos: position{line: 2834, col: 13, offset: 90061},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2827, col: 13, offset: 89868},
+															pos: position{line: 2834, col: 13, offset: 90061},
 															expr: &charClassMatcher{
-																pos:        position{line: 2827, col: 13, offset: 89868},
+																pos:        position{line: 2834, col: 13, offset: 90061},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16427,28 +16427,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2903, col: 8, offset: 91740},
+													pos: position{line: 2910, col: 8, offset: 91933},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2890, col: 12, offset: 91513},
+															pos: position{line: 2897, col: 12, offset: 91706},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2890, col: 13, offset: 91514},
+																pos: position{line: 2897, col: 13, offset: 91707},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2890, col: 13, offset: 91514},
+																		pos:        position{line: 2897, col: 13, offset: 91707},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2890, col: 20, offset: 91521},
+																		pos:        position{line: 2897, col: 20, offset: 91714},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2890, col: 29, offset: 91530},
+																		pos:        position{line: 2897, col: 29, offset: 91723},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16457,9 +16457,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2900, col: 8, offset: 91690},
+															pos: position{line: 2907, col: 8, offset: 91883},
 															expr: &anyMatcher{
-																line: 2900, col: 9, offset: 91691,
+																line: 2907, col: 9, offset: 91884,
 															},
 														},
 													},
@@ -16510,10 +16510,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 743, col: 8, offset: 23745},
 																expr: &actionExpr{
-																	pos: position{line: 2881, col: 10, offset: 91342},
+																	pos: position{line: 2888, col: 10, offset: 91535},
 																	run: (*parser).callonDocumentHeader34,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2881, col: 10, offset: 91342},
+																		pos:        position{line: 2888, col: 10, offset: 91535},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16522,28 +16522,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2903, col: 8, offset: 91740},
+																pos: position{line: 2910, col: 8, offset: 91933},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2890, col: 12, offset: 91513},
+																		pos: position{line: 2897, col: 12, offset: 91706},
 																		run: (*parser).callonDocumentHeader37,
 																		expr: &choiceExpr{
-																			pos: position{line: 2890, col: 13, offset: 91514},
+																			pos: position{line: 2897, col: 13, offset: 91707},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2890, col: 13, offset: 91514},
+																					pos:        position{line: 2897, col: 13, offset: 91707},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2890, col: 20, offset: 91521},
+																					pos:        position{line: 2897, col: 20, offset: 91714},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2890, col: 29, offset: 91530},
+																					pos:        position{line: 2897, col: 29, offset: 91723},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -16552,9 +16552,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2900, col: 8, offset: 91690},
+																		pos: position{line: 2907, col: 8, offset: 91883},
 																		expr: &anyMatcher{
-																			line: 2900, col: 9, offset: 91691,
+																			line: 2907, col: 9, offset: 91884,
 																		},
 																	},
 																},
@@ -16615,10 +16615,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 743, col: 8, offset: 23745},
 																								expr: &actionExpr{
-																									pos: position{line: 2881, col: 10, offset: 91342},
+																									pos: position{line: 2888, col: 10, offset: 91535},
 																									run: (*parser).callonDocumentHeader59,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2881, col: 10, offset: 91342},
+																										pos:        position{line: 2888, col: 10, offset: 91535},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -16627,28 +16627,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2903, col: 8, offset: 91740},
+																								pos: position{line: 2910, col: 8, offset: 91933},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2890, col: 12, offset: 91513},
+																										pos: position{line: 2897, col: 12, offset: 91706},
 																										run: (*parser).callonDocumentHeader62,
 																										expr: &choiceExpr{
-																											pos: position{line: 2890, col: 13, offset: 91514},
+																											pos: position{line: 2897, col: 13, offset: 91707},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2890, col: 13, offset: 91514},
+																													pos:        position{line: 2897, col: 13, offset: 91707},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2890, col: 20, offset: 91521},
+																													pos:        position{line: 2897, col: 20, offset: 91714},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2890, col: 29, offset: 91530},
+																													pos:        position{line: 2897, col: 29, offset: 91723},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -16657,9 +16657,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2900, col: 8, offset: 91690},
+																										pos: position{line: 2907, col: 8, offset: 91883},
 																										expr: &anyMatcher{
-																											line: 2900, col: 9, offset: 91691,
+																											line: 2907, col: 9, offset: 91884,
 																										},
 																									},
 																								},
@@ -16668,9 +16668,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2900, col: 8, offset: 91690},
+																					pos: position{line: 2907, col: 8, offset: 91883},
 																					expr: &anyMatcher{
-																						line: 2900, col: 9, offset: 91691,
+																						line: 2907, col: 9, offset: 91884,
 																					},
 																				},
 																			},
@@ -16686,21 +16686,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2898, col: 11, offset: 91676},
+																						pos: position{line: 2905, col: 11, offset: 91869},
 																						expr: &anyMatcher{
-																							line: 2898, col: 13, offset: 91678,
+																							line: 2905, col: 13, offset: 91871,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2827, col: 13, offset: 89868},
+																							pos: position{line: 2834, col: 13, offset: 90061},
 																							run: (*parser).callonDocumentHeader77,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2827, col: 13, offset: 89868},
+																								pos: position{line: 2834, col: 13, offset: 90061},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2827, col: 13, offset: 89868},
+																									pos:        position{line: 2834, col: 13, offset: 90061},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16710,28 +16710,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2903, col: 8, offset: 91740},
+																						pos: position{line: 2910, col: 8, offset: 91933},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2890, col: 12, offset: 91513},
+																								pos: position{line: 2897, col: 12, offset: 91706},
 																								run: (*parser).callonDocumentHeader81,
 																								expr: &choiceExpr{
-																									pos: position{line: 2890, col: 13, offset: 91514},
+																									pos: position{line: 2897, col: 13, offset: 91707},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 13, offset: 91514},
+																											pos:        position{line: 2897, col: 13, offset: 91707},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 20, offset: 91521},
+																											pos:        position{line: 2897, col: 20, offset: 91714},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 29, offset: 91530},
+																											pos:        position{line: 2897, col: 29, offset: 91723},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16740,9 +16740,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2900, col: 8, offset: 91690},
+																								pos: position{line: 2907, col: 8, offset: 91883},
 																								expr: &anyMatcher{
-																									line: 2900, col: 9, offset: 91691,
+																									line: 2907, col: 9, offset: 91884,
 																								},
 																							},
 																						},
@@ -16798,10 +16798,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 743, col: 8, offset: 23745},
 																			expr: &actionExpr{
-																				pos: position{line: 2881, col: 10, offset: 91342},
+																				pos: position{line: 2888, col: 10, offset: 91535},
 																				run: (*parser).callonDocumentHeader99,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2881, col: 10, offset: 91342},
+																					pos:        position{line: 2888, col: 10, offset: 91535},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -16810,28 +16810,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2903, col: 8, offset: 91740},
+																			pos: position{line: 2910, col: 8, offset: 91933},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2890, col: 12, offset: 91513},
+																					pos: position{line: 2897, col: 12, offset: 91706},
 																					run: (*parser).callonDocumentHeader102,
 																					expr: &choiceExpr{
-																						pos: position{line: 2890, col: 13, offset: 91514},
+																						pos: position{line: 2897, col: 13, offset: 91707},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2890, col: 13, offset: 91514},
+																								pos:        position{line: 2897, col: 13, offset: 91707},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2890, col: 20, offset: 91521},
+																								pos:        position{line: 2897, col: 20, offset: 91714},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2890, col: 29, offset: 91530},
+																								pos:        position{line: 2897, col: 29, offset: 91723},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -16840,9 +16840,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2900, col: 8, offset: 91690},
+																					pos: position{line: 2907, col: 8, offset: 91883},
 																					expr: &anyMatcher{
-																						line: 2900, col: 9, offset: 91691,
+																						line: 2907, col: 9, offset: 91884,
 																					},
 																				},
 																			},
@@ -16851,9 +16851,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2900, col: 8, offset: 91690},
+																pos: position{line: 2907, col: 8, offset: 91883},
 																expr: &anyMatcher{
-																	line: 2900, col: 9, offset: 91691,
+																	line: 2907, col: 9, offset: 91884,
 																},
 															},
 														},
@@ -16903,12 +16903,12 @@ var g = &grammar{
 													pos:   position{line: 2488, col: 49, offset: 80255},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2827, col: 13, offset: 89868},
+														pos: position{line: 2834, col: 13, offset: 90061},
 														run: (*parser).callonDocumentHeader121,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2827, col: 13, offset: 89868},
+															pos: position{line: 2834, col: 13, offset: 90061},
 															expr: &charClassMatcher{
-																pos:        position{line: 2827, col: 13, offset: 89868},
+																pos:        position{line: 2834, col: 13, offset: 90061},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16918,28 +16918,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2903, col: 8, offset: 91740},
+													pos: position{line: 2910, col: 8, offset: 91933},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2890, col: 12, offset: 91513},
+															pos: position{line: 2897, col: 12, offset: 91706},
 															run: (*parser).callonDocumentHeader125,
 															expr: &choiceExpr{
-																pos: position{line: 2890, col: 13, offset: 91514},
+																pos: position{line: 2897, col: 13, offset: 91707},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2890, col: 13, offset: 91514},
+																		pos:        position{line: 2897, col: 13, offset: 91707},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2890, col: 20, offset: 91521},
+																		pos:        position{line: 2897, col: 20, offset: 91714},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2890, col: 29, offset: 91530},
+																		pos:        position{line: 2897, col: 29, offset: 91723},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16948,9 +16948,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2900, col: 8, offset: 91690},
+															pos: position{line: 2907, col: 8, offset: 91883},
 															expr: &anyMatcher{
-																line: 2900, col: 9, offset: 91691,
+																line: 2907, col: 9, offset: 91884,
 															},
 														},
 													},
@@ -17001,10 +17001,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 743, col: 8, offset: 23745},
 																expr: &actionExpr{
-																	pos: position{line: 2881, col: 10, offset: 91342},
+																	pos: position{line: 2888, col: 10, offset: 91535},
 																	run: (*parser).callonDocumentHeader143,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2881, col: 10, offset: 91342},
+																		pos:        position{line: 2888, col: 10, offset: 91535},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17013,28 +17013,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2903, col: 8, offset: 91740},
+																pos: position{line: 2910, col: 8, offset: 91933},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2890, col: 12, offset: 91513},
+																		pos: position{line: 2897, col: 12, offset: 91706},
 																		run: (*parser).callonDocumentHeader146,
 																		expr: &choiceExpr{
-																			pos: position{line: 2890, col: 13, offset: 91514},
+																			pos: position{line: 2897, col: 13, offset: 91707},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2890, col: 13, offset: 91514},
+																					pos:        position{line: 2897, col: 13, offset: 91707},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2890, col: 20, offset: 91521},
+																					pos:        position{line: 2897, col: 20, offset: 91714},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2890, col: 29, offset: 91530},
+																					pos:        position{line: 2897, col: 29, offset: 91723},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17043,9 +17043,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2900, col: 8, offset: 91690},
+																		pos: position{line: 2907, col: 8, offset: 91883},
 																		expr: &anyMatcher{
-																			line: 2900, col: 9, offset: 91691,
+																			line: 2907, col: 9, offset: 91884,
 																		},
 																	},
 																},
@@ -17106,10 +17106,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 743, col: 8, offset: 23745},
 																								expr: &actionExpr{
-																									pos: position{line: 2881, col: 10, offset: 91342},
+																									pos: position{line: 2888, col: 10, offset: 91535},
 																									run: (*parser).callonDocumentHeader168,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2881, col: 10, offset: 91342},
+																										pos:        position{line: 2888, col: 10, offset: 91535},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -17118,28 +17118,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2903, col: 8, offset: 91740},
+																								pos: position{line: 2910, col: 8, offset: 91933},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2890, col: 12, offset: 91513},
+																										pos: position{line: 2897, col: 12, offset: 91706},
 																										run: (*parser).callonDocumentHeader171,
 																										expr: &choiceExpr{
-																											pos: position{line: 2890, col: 13, offset: 91514},
+																											pos: position{line: 2897, col: 13, offset: 91707},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2890, col: 13, offset: 91514},
+																													pos:        position{line: 2897, col: 13, offset: 91707},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2890, col: 20, offset: 91521},
+																													pos:        position{line: 2897, col: 20, offset: 91714},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2890, col: 29, offset: 91530},
+																													pos:        position{line: 2897, col: 29, offset: 91723},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -17148,9 +17148,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2900, col: 8, offset: 91690},
+																										pos: position{line: 2907, col: 8, offset: 91883},
 																										expr: &anyMatcher{
-																											line: 2900, col: 9, offset: 91691,
+																											line: 2907, col: 9, offset: 91884,
 																										},
 																									},
 																								},
@@ -17159,9 +17159,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2900, col: 8, offset: 91690},
+																					pos: position{line: 2907, col: 8, offset: 91883},
 																					expr: &anyMatcher{
-																						line: 2900, col: 9, offset: 91691,
+																						line: 2907, col: 9, offset: 91884,
 																					},
 																				},
 																			},
@@ -17177,21 +17177,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2898, col: 11, offset: 91676},
+																						pos: position{line: 2905, col: 11, offset: 91869},
 																						expr: &anyMatcher{
-																							line: 2898, col: 13, offset: 91678,
+																							line: 2905, col: 13, offset: 91871,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2827, col: 13, offset: 89868},
+																							pos: position{line: 2834, col: 13, offset: 90061},
 																							run: (*parser).callonDocumentHeader186,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2827, col: 13, offset: 89868},
+																								pos: position{line: 2834, col: 13, offset: 90061},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2827, col: 13, offset: 89868},
+																									pos:        position{line: 2834, col: 13, offset: 90061},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17201,28 +17201,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2903, col: 8, offset: 91740},
+																						pos: position{line: 2910, col: 8, offset: 91933},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2890, col: 12, offset: 91513},
+																								pos: position{line: 2897, col: 12, offset: 91706},
 																								run: (*parser).callonDocumentHeader190,
 																								expr: &choiceExpr{
-																									pos: position{line: 2890, col: 13, offset: 91514},
+																									pos: position{line: 2897, col: 13, offset: 91707},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 13, offset: 91514},
+																											pos:        position{line: 2897, col: 13, offset: 91707},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 20, offset: 91521},
+																											pos:        position{line: 2897, col: 20, offset: 91714},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 29, offset: 91530},
+																											pos:        position{line: 2897, col: 29, offset: 91723},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17231,9 +17231,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2900, col: 8, offset: 91690},
+																								pos: position{line: 2907, col: 8, offset: 91883},
 																								expr: &anyMatcher{
-																									line: 2900, col: 9, offset: 91691,
+																									line: 2907, col: 9, offset: 91884,
 																								},
 																							},
 																						},
@@ -17289,10 +17289,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 743, col: 8, offset: 23745},
 																			expr: &actionExpr{
-																				pos: position{line: 2881, col: 10, offset: 91342},
+																				pos: position{line: 2888, col: 10, offset: 91535},
 																				run: (*parser).callonDocumentHeader208,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2881, col: 10, offset: 91342},
+																					pos:        position{line: 2888, col: 10, offset: 91535},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -17301,28 +17301,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2903, col: 8, offset: 91740},
+																			pos: position{line: 2910, col: 8, offset: 91933},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2890, col: 12, offset: 91513},
+																					pos: position{line: 2897, col: 12, offset: 91706},
 																					run: (*parser).callonDocumentHeader211,
 																					expr: &choiceExpr{
-																						pos: position{line: 2890, col: 13, offset: 91514},
+																						pos: position{line: 2897, col: 13, offset: 91707},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2890, col: 13, offset: 91514},
+																								pos:        position{line: 2897, col: 13, offset: 91707},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2890, col: 20, offset: 91521},
+																								pos:        position{line: 2897, col: 20, offset: 91714},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2890, col: 29, offset: 91530},
+																								pos:        position{line: 2897, col: 29, offset: 91723},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -17331,9 +17331,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2900, col: 8, offset: 91690},
+																					pos: position{line: 2907, col: 8, offset: 91883},
 																					expr: &anyMatcher{
-																						line: 2900, col: 9, offset: 91691,
+																						line: 2907, col: 9, offset: 91884,
 																					},
 																				},
 																			},
@@ -17342,9 +17342,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2900, col: 8, offset: 91690},
+																pos: position{line: 2907, col: 8, offset: 91883},
 																expr: &anyMatcher{
-																	line: 2900, col: 9, offset: 91691,
+																	line: 2907, col: 9, offset: 91884,
 																},
 															},
 														},
@@ -17388,10 +17388,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1126, col: 20, offset: 34750},
 																expr: &actionExpr{
-																	pos: position{line: 2881, col: 10, offset: 91342},
+																	pos: position{line: 2888, col: 10, offset: 91535},
 																	run: (*parser).callonDocumentHeader230,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2881, col: 10, offset: 91342},
+																		pos:        position{line: 2888, col: 10, offset: 91535},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17442,10 +17442,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1145, col: 5, offset: 35355},
 																										expr: &actionExpr{
-																											pos: position{line: 2881, col: 10, offset: 91342},
+																											pos: position{line: 2888, col: 10, offset: 91535},
 																											run: (*parser).callonDocumentHeader245,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2881, col: 10, offset: 91342},
+																												pos:        position{line: 2888, col: 10, offset: 91535},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17477,10 +17477,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1149, col: 5, offset: 35454},
 																										expr: &actionExpr{
-																											pos: position{line: 2881, col: 10, offset: 91342},
+																											pos: position{line: 2888, col: 10, offset: 91535},
 																											run: (*parser).callonDocumentHeader253,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2881, col: 10, offset: 91342},
+																												pos:        position{line: 2888, col: 10, offset: 91535},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17512,10 +17512,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1153, col: 5, offset: 35551},
 																										expr: &actionExpr{
-																											pos: position{line: 2881, col: 10, offset: 91342},
+																											pos: position{line: 2888, col: 10, offset: 91535},
 																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2881, col: 10, offset: 91342},
+																												pos:        position{line: 2888, col: 10, offset: 91535},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17540,9 +17540,9 @@ var g = &grammar{
 																								pos: position{line: 1159, col: 5, offset: 35673},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2898, col: 11, offset: 91676},
+																										pos: position{line: 2905, col: 11, offset: 91869},
 																										expr: &anyMatcher{
-																											line: 2898, col: 13, offset: 91678,
+																											line: 2905, col: 13, offset: 91871,
 																										},
 																									},
 																									&litMatcher{
@@ -17583,10 +17583,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1131, col: 69, offset: 34943},
 																					expr: &actionExpr{
-																						pos: position{line: 2881, col: 10, offset: 91342},
+																						pos: position{line: 2888, col: 10, offset: 91535},
 																						run: (*parser).callonDocumentHeader276,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2881, col: 10, offset: 91342},
+																							pos:        position{line: 2888, col: 10, offset: 91535},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17606,10 +17606,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1131, col: 81, offset: 34955},
 																					expr: &actionExpr{
-																						pos: position{line: 2881, col: 10, offset: 91342},
+																						pos: position{line: 2888, col: 10, offset: 91535},
 																						run: (*parser).callonDocumentHeader281,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2881, col: 10, offset: 91342},
+																							pos:        position{line: 2888, col: 10, offset: 91535},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17627,28 +17627,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2903, col: 8, offset: 91740},
+																pos: position{line: 2910, col: 8, offset: 91933},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2890, col: 12, offset: 91513},
+																		pos: position{line: 2897, col: 12, offset: 91706},
 																		run: (*parser).callonDocumentHeader285,
 																		expr: &choiceExpr{
-																			pos: position{line: 2890, col: 13, offset: 91514},
+																			pos: position{line: 2897, col: 13, offset: 91707},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2890, col: 13, offset: 91514},
+																					pos:        position{line: 2897, col: 13, offset: 91707},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2890, col: 20, offset: 91521},
+																					pos:        position{line: 2897, col: 20, offset: 91714},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2890, col: 29, offset: 91530},
+																					pos:        position{line: 2897, col: 29, offset: 91723},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17657,9 +17657,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2900, col: 8, offset: 91690},
+																		pos: position{line: 2907, col: 8, offset: 91883},
 																		expr: &anyMatcher{
-																			line: 2900, col: 9, offset: 91691,
+																			line: 2907, col: 9, offset: 91884,
 																		},
 																	},
 																},
@@ -17698,12 +17698,12 @@ var g = &grammar{
 																		pos:   position{line: 2488, col: 49, offset: 80255},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2827, col: 13, offset: 89868},
+																			pos: position{line: 2834, col: 13, offset: 90061},
 																			run: (*parser).callonDocumentHeader300,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2827, col: 13, offset: 89868},
+																				pos: position{line: 2834, col: 13, offset: 90061},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2827, col: 13, offset: 89868},
+																					pos:        position{line: 2834, col: 13, offset: 90061},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -17713,28 +17713,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2903, col: 8, offset: 91740},
+																		pos: position{line: 2910, col: 8, offset: 91933},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2890, col: 12, offset: 91513},
+																				pos: position{line: 2897, col: 12, offset: 91706},
 																				run: (*parser).callonDocumentHeader304,
 																				expr: &choiceExpr{
-																					pos: position{line: 2890, col: 13, offset: 91514},
+																					pos: position{line: 2897, col: 13, offset: 91707},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 13, offset: 91514},
+																							pos:        position{line: 2897, col: 13, offset: 91707},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 20, offset: 91521},
+																							pos:        position{line: 2897, col: 20, offset: 91714},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 29, offset: 91530},
+																							pos:        position{line: 2897, col: 29, offset: 91723},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -17743,9 +17743,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2900, col: 8, offset: 91690},
+																				pos: position{line: 2907, col: 8, offset: 91883},
 																				expr: &anyMatcher{
-																					line: 2900, col: 9, offset: 91691,
+																					line: 2907, col: 9, offset: 91884,
 																				},
 																			},
 																		},
@@ -17796,10 +17796,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 743, col: 8, offset: 23745},
 																					expr: &actionExpr{
-																						pos: position{line: 2881, col: 10, offset: 91342},
+																						pos: position{line: 2888, col: 10, offset: 91535},
 																						run: (*parser).callonDocumentHeader322,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2881, col: 10, offset: 91342},
+																							pos:        position{line: 2888, col: 10, offset: 91535},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17808,28 +17808,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2903, col: 8, offset: 91740},
+																					pos: position{line: 2910, col: 8, offset: 91933},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2890, col: 12, offset: 91513},
+																							pos: position{line: 2897, col: 12, offset: 91706},
 																							run: (*parser).callonDocumentHeader325,
 																							expr: &choiceExpr{
-																								pos: position{line: 2890, col: 13, offset: 91514},
+																								pos: position{line: 2897, col: 13, offset: 91707},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2890, col: 13, offset: 91514},
+																										pos:        position{line: 2897, col: 13, offset: 91707},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2890, col: 20, offset: 91521},
+																										pos:        position{line: 2897, col: 20, offset: 91714},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2890, col: 29, offset: 91530},
+																										pos:        position{line: 2897, col: 29, offset: 91723},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -17838,9 +17838,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2900, col: 8, offset: 91690},
+																							pos: position{line: 2907, col: 8, offset: 91883},
 																							expr: &anyMatcher{
-																								line: 2900, col: 9, offset: 91691,
+																								line: 2907, col: 9, offset: 91884,
 																							},
 																						},
 																					},
@@ -17901,10 +17901,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 743, col: 8, offset: 23745},
 																													expr: &actionExpr{
-																														pos: position{line: 2881, col: 10, offset: 91342},
+																														pos: position{line: 2888, col: 10, offset: 91535},
 																														run: (*parser).callonDocumentHeader347,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2881, col: 10, offset: 91342},
+																															pos:        position{line: 2888, col: 10, offset: 91535},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -17913,28 +17913,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2903, col: 8, offset: 91740},
+																													pos: position{line: 2910, col: 8, offset: 91933},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2890, col: 12, offset: 91513},
+																															pos: position{line: 2897, col: 12, offset: 91706},
 																															run: (*parser).callonDocumentHeader350,
 																															expr: &choiceExpr{
-																																pos: position{line: 2890, col: 13, offset: 91514},
+																																pos: position{line: 2897, col: 13, offset: 91707},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2890, col: 13, offset: 91514},
+																																		pos:        position{line: 2897, col: 13, offset: 91707},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2890, col: 20, offset: 91521},
+																																		pos:        position{line: 2897, col: 20, offset: 91714},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2890, col: 29, offset: 91530},
+																																		pos:        position{line: 2897, col: 29, offset: 91723},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -17943,9 +17943,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2900, col: 8, offset: 91690},
+																															pos: position{line: 2907, col: 8, offset: 91883},
 																															expr: &anyMatcher{
-																																line: 2900, col: 9, offset: 91691,
+																																line: 2907, col: 9, offset: 91884,
 																															},
 																														},
 																													},
@@ -17954,9 +17954,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2900, col: 8, offset: 91690},
+																										pos: position{line: 2907, col: 8, offset: 91883},
 																										expr: &anyMatcher{
-																											line: 2900, col: 9, offset: 91691,
+																											line: 2907, col: 9, offset: 91884,
 																										},
 																									},
 																								},
@@ -17972,21 +17972,21 @@ var g = &grammar{
 																									pos: position{line: 812, col: 5, offset: 26152},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2898, col: 11, offset: 91676},
+																											pos: position{line: 2905, col: 11, offset: 91869},
 																											expr: &anyMatcher{
-																												line: 2898, col: 13, offset: 91678,
+																												line: 2905, col: 13, offset: 91871,
 																											},
 																										},
 																										&labeledExpr{
 																											pos:   position{line: 813, col: 5, offset: 26227},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2827, col: 13, offset: 89868},
+																												pos: position{line: 2834, col: 13, offset: 90061},
 																												run: (*parser).callonDocumentHeader365,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2827, col: 13, offset: 89868},
+																													pos: position{line: 2834, col: 13, offset: 90061},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2827, col: 13, offset: 89868},
+																														pos:        position{line: 2834, col: 13, offset: 90061},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -17996,28 +17996,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2903, col: 8, offset: 91740},
+																											pos: position{line: 2910, col: 8, offset: 91933},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2890, col: 12, offset: 91513},
+																													pos: position{line: 2897, col: 12, offset: 91706},
 																													run: (*parser).callonDocumentHeader369,
 																													expr: &choiceExpr{
-																														pos: position{line: 2890, col: 13, offset: 91514},
+																														pos: position{line: 2897, col: 13, offset: 91707},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 13, offset: 91514},
+																																pos:        position{line: 2897, col: 13, offset: 91707},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 20, offset: 91521},
+																																pos:        position{line: 2897, col: 20, offset: 91714},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 29, offset: 91530},
+																																pos:        position{line: 2897, col: 29, offset: 91723},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18026,9 +18026,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2900, col: 8, offset: 91690},
+																													pos: position{line: 2907, col: 8, offset: 91883},
 																													expr: &anyMatcher{
-																														line: 2900, col: 9, offset: 91691,
+																														line: 2907, col: 9, offset: 91884,
 																													},
 																												},
 																											},
@@ -18084,10 +18084,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 743, col: 8, offset: 23745},
 																								expr: &actionExpr{
-																									pos: position{line: 2881, col: 10, offset: 91342},
+																									pos: position{line: 2888, col: 10, offset: 91535},
 																									run: (*parser).callonDocumentHeader387,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2881, col: 10, offset: 91342},
+																										pos:        position{line: 2888, col: 10, offset: 91535},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -18096,28 +18096,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2903, col: 8, offset: 91740},
+																								pos: position{line: 2910, col: 8, offset: 91933},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2890, col: 12, offset: 91513},
+																										pos: position{line: 2897, col: 12, offset: 91706},
 																										run: (*parser).callonDocumentHeader390,
 																										expr: &choiceExpr{
-																											pos: position{line: 2890, col: 13, offset: 91514},
+																											pos: position{line: 2897, col: 13, offset: 91707},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2890, col: 13, offset: 91514},
+																													pos:        position{line: 2897, col: 13, offset: 91707},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2890, col: 20, offset: 91521},
+																													pos:        position{line: 2897, col: 20, offset: 91714},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2890, col: 29, offset: 91530},
+																													pos:        position{line: 2897, col: 29, offset: 91723},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -18126,9 +18126,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2900, col: 8, offset: 91690},
+																										pos: position{line: 2907, col: 8, offset: 91883},
 																										expr: &anyMatcher{
-																											line: 2900, col: 9, offset: 91691,
+																											line: 2907, col: 9, offset: 91884,
 																										},
 																									},
 																								},
@@ -18137,9 +18137,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2900, col: 8, offset: 91690},
+																					pos: position{line: 2907, col: 8, offset: 91883},
 																					expr: &anyMatcher{
-																						line: 2900, col: 9, offset: 91691,
+																						line: 2907, col: 9, offset: 91884,
 																					},
 																				},
 																			},
@@ -18165,10 +18165,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1170, col: 21, offset: 35951},
 																	expr: &actionExpr{
-																		pos: position{line: 2881, col: 10, offset: 91342},
+																		pos: position{line: 2888, col: 10, offset: 91535},
 																		run: (*parser).callonDocumentHeader404,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2881, col: 10, offset: 91342},
+																			pos:        position{line: 2888, col: 10, offset: 91535},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18270,10 +18270,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 1182, col: 28, offset: 36582},
 																													expr: &actionExpr{
-																														pos: position{line: 2881, col: 10, offset: 91342},
+																														pos: position{line: 2888, col: 10, offset: 91535},
 																														run: (*parser).callonDocumentHeader428,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2881, col: 10, offset: 91342},
+																															pos:        position{line: 2888, col: 10, offset: 91535},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -18420,28 +18420,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2903, col: 8, offset: 91740},
+																	pos: position{line: 2910, col: 8, offset: 91933},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2890, col: 12, offset: 91513},
+																			pos: position{line: 2897, col: 12, offset: 91706},
 																			run: (*parser).callonDocumentHeader460,
 																			expr: &choiceExpr{
-																				pos: position{line: 2890, col: 13, offset: 91514},
+																				pos: position{line: 2897, col: 13, offset: 91707},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 13, offset: 91514},
+																						pos:        position{line: 2897, col: 13, offset: 91707},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 20, offset: 91521},
+																						pos:        position{line: 2897, col: 20, offset: 91714},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 29, offset: 91530},
+																						pos:        position{line: 2897, col: 29, offset: 91723},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18450,9 +18450,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2900, col: 8, offset: 91690},
+																			pos: position{line: 2907, col: 8, offset: 91883},
 																			expr: &anyMatcher{
-																				line: 2900, col: 9, offset: 91691,
+																				line: 2907, col: 9, offset: 91884,
 																			},
 																		},
 																	},
@@ -18532,10 +18532,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 359, col: 49, offset: 10879},
 														expr: &actionExpr{
-															pos: position{line: 2881, col: 10, offset: 91342},
+															pos: position{line: 2888, col: 10, offset: 91535},
 															run: (*parser).callonDocumentHeader482,
 															expr: &charClassMatcher{
-																pos:        position{line: 2881, col: 10, offset: 91342},
+																pos:        position{line: 2888, col: 10, offset: 91535},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18544,28 +18544,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2903, col: 8, offset: 91740},
+														pos: position{line: 2910, col: 8, offset: 91933},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2890, col: 12, offset: 91513},
+																pos: position{line: 2897, col: 12, offset: 91706},
 																run: (*parser).callonDocumentHeader485,
 																expr: &choiceExpr{
-																	pos: position{line: 2890, col: 13, offset: 91514},
+																	pos: position{line: 2897, col: 13, offset: 91707},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2890, col: 13, offset: 91514},
+																			pos:        position{line: 2897, col: 13, offset: 91707},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2890, col: 20, offset: 91521},
+																			pos:        position{line: 2897, col: 20, offset: 91714},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2890, col: 29, offset: 91530},
+																			pos:        position{line: 2897, col: 29, offset: 91723},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18574,9 +18574,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2900, col: 8, offset: 91690},
+																pos: position{line: 2907, col: 8, offset: 91883},
 																expr: &anyMatcher{
-																	line: 2900, col: 9, offset: 91691,
+																	line: 2907, col: 9, offset: 91884,
 																},
 															},
 														},
@@ -18637,10 +18637,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 361, col: 39, offset: 11000},
 														expr: &actionExpr{
-															pos: position{line: 2881, col: 10, offset: 91342},
+															pos: position{line: 2888, col: 10, offset: 91535},
 															run: (*parser).callonDocumentHeader503,
 															expr: &charClassMatcher{
-																pos:        position{line: 2881, col: 10, offset: 91342},
+																pos:        position{line: 2888, col: 10, offset: 91535},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18649,28 +18649,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2903, col: 8, offset: 91740},
+														pos: position{line: 2910, col: 8, offset: 91933},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2890, col: 12, offset: 91513},
+																pos: position{line: 2897, col: 12, offset: 91706},
 																run: (*parser).callonDocumentHeader506,
 																expr: &choiceExpr{
-																	pos: position{line: 2890, col: 13, offset: 91514},
+																	pos: position{line: 2897, col: 13, offset: 91707},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2890, col: 13, offset: 91514},
+																			pos:        position{line: 2897, col: 13, offset: 91707},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2890, col: 20, offset: 91521},
+																			pos:        position{line: 2897, col: 20, offset: 91714},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2890, col: 29, offset: 91530},
+																			pos:        position{line: 2897, col: 29, offset: 91723},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18679,9 +18679,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2900, col: 8, offset: 91690},
+																pos: position{line: 2907, col: 8, offset: 91883},
 																expr: &anyMatcher{
-																	line: 2900, col: 9, offset: 91691,
+																	line: 2907, col: 9, offset: 91884,
 																},
 															},
 														},
@@ -18714,12 +18714,12 @@ var g = &grammar{
 														pos:   position{line: 2488, col: 49, offset: 80255},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2827, col: 13, offset: 89868},
+															pos: position{line: 2834, col: 13, offset: 90061},
 															run: (*parser).callonDocumentHeader519,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2827, col: 13, offset: 89868},
+																pos: position{line: 2834, col: 13, offset: 90061},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2827, col: 13, offset: 89868},
+																	pos:        position{line: 2834, col: 13, offset: 90061},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -18729,28 +18729,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2903, col: 8, offset: 91740},
+														pos: position{line: 2910, col: 8, offset: 91933},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2890, col: 12, offset: 91513},
+																pos: position{line: 2897, col: 12, offset: 91706},
 																run: (*parser).callonDocumentHeader523,
 																expr: &choiceExpr{
-																	pos: position{line: 2890, col: 13, offset: 91514},
+																	pos: position{line: 2897, col: 13, offset: 91707},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2890, col: 13, offset: 91514},
+																			pos:        position{line: 2897, col: 13, offset: 91707},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2890, col: 20, offset: 91521},
+																			pos:        position{line: 2897, col: 20, offset: 91714},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2890, col: 29, offset: 91530},
+																			pos:        position{line: 2897, col: 29, offset: 91723},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18759,9 +18759,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2900, col: 8, offset: 91690},
+																pos: position{line: 2907, col: 8, offset: 91883},
 																expr: &anyMatcher{
-																	line: 2900, col: 9, offset: 91691,
+																	line: 2907, col: 9, offset: 91884,
 																},
 															},
 														},
@@ -18812,10 +18812,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 743, col: 8, offset: 23745},
 																	expr: &actionExpr{
-																		pos: position{line: 2881, col: 10, offset: 91342},
+																		pos: position{line: 2888, col: 10, offset: 91535},
 																		run: (*parser).callonDocumentHeader541,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2881, col: 10, offset: 91342},
+																			pos:        position{line: 2888, col: 10, offset: 91535},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18824,28 +18824,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2903, col: 8, offset: 91740},
+																	pos: position{line: 2910, col: 8, offset: 91933},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2890, col: 12, offset: 91513},
+																			pos: position{line: 2897, col: 12, offset: 91706},
 																			run: (*parser).callonDocumentHeader544,
 																			expr: &choiceExpr{
-																				pos: position{line: 2890, col: 13, offset: 91514},
+																				pos: position{line: 2897, col: 13, offset: 91707},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 13, offset: 91514},
+																						pos:        position{line: 2897, col: 13, offset: 91707},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 20, offset: 91521},
+																						pos:        position{line: 2897, col: 20, offset: 91714},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 29, offset: 91530},
+																						pos:        position{line: 2897, col: 29, offset: 91723},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18854,9 +18854,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2900, col: 8, offset: 91690},
+																			pos: position{line: 2907, col: 8, offset: 91883},
 																			expr: &anyMatcher{
-																				line: 2900, col: 9, offset: 91691,
+																				line: 2907, col: 9, offset: 91884,
 																			},
 																		},
 																	},
@@ -18917,10 +18917,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 743, col: 8, offset: 23745},
 																									expr: &actionExpr{
-																										pos: position{line: 2881, col: 10, offset: 91342},
+																										pos: position{line: 2888, col: 10, offset: 91535},
 																										run: (*parser).callonDocumentHeader566,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2881, col: 10, offset: 91342},
+																											pos:        position{line: 2888, col: 10, offset: 91535},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -18929,28 +18929,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2903, col: 8, offset: 91740},
+																									pos: position{line: 2910, col: 8, offset: 91933},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2890, col: 12, offset: 91513},
+																											pos: position{line: 2897, col: 12, offset: 91706},
 																											run: (*parser).callonDocumentHeader569,
 																											expr: &choiceExpr{
-																												pos: position{line: 2890, col: 13, offset: 91514},
+																												pos: position{line: 2897, col: 13, offset: 91707},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2890, col: 13, offset: 91514},
+																														pos:        position{line: 2897, col: 13, offset: 91707},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2890, col: 20, offset: 91521},
+																														pos:        position{line: 2897, col: 20, offset: 91714},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2890, col: 29, offset: 91530},
+																														pos:        position{line: 2897, col: 29, offset: 91723},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -18959,9 +18959,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2900, col: 8, offset: 91690},
+																											pos: position{line: 2907, col: 8, offset: 91883},
 																											expr: &anyMatcher{
-																												line: 2900, col: 9, offset: 91691,
+																												line: 2907, col: 9, offset: 91884,
 																											},
 																										},
 																									},
@@ -18970,9 +18970,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2900, col: 8, offset: 91690},
+																						pos: position{line: 2907, col: 8, offset: 91883},
 																						expr: &anyMatcher{
-																							line: 2900, col: 9, offset: 91691,
+																							line: 2907, col: 9, offset: 91884,
 																						},
 																					},
 																				},
@@ -18988,21 +18988,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2898, col: 11, offset: 91676},
+																							pos: position{line: 2905, col: 11, offset: 91869},
 																							expr: &anyMatcher{
-																								line: 2898, col: 13, offset: 91678,
+																								line: 2905, col: 13, offset: 91871,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2827, col: 13, offset: 89868},
+																								pos: position{line: 2834, col: 13, offset: 90061},
 																								run: (*parser).callonDocumentHeader584,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2827, col: 13, offset: 89868},
+																									pos: position{line: 2834, col: 13, offset: 90061},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2827, col: 13, offset: 89868},
+																										pos:        position{line: 2834, col: 13, offset: 90061},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -19012,28 +19012,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2903, col: 8, offset: 91740},
+																							pos: position{line: 2910, col: 8, offset: 91933},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2890, col: 12, offset: 91513},
+																									pos: position{line: 2897, col: 12, offset: 91706},
 																									run: (*parser).callonDocumentHeader588,
 																									expr: &choiceExpr{
-																										pos: position{line: 2890, col: 13, offset: 91514},
+																										pos: position{line: 2897, col: 13, offset: 91707},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 13, offset: 91514},
+																												pos:        position{line: 2897, col: 13, offset: 91707},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 20, offset: 91521},
+																												pos:        position{line: 2897, col: 20, offset: 91714},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 29, offset: 91530},
+																												pos:        position{line: 2897, col: 29, offset: 91723},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19042,9 +19042,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2900, col: 8, offset: 91690},
+																									pos: position{line: 2907, col: 8, offset: 91883},
 																									expr: &anyMatcher{
-																										line: 2900, col: 9, offset: 91691,
+																										line: 2907, col: 9, offset: 91884,
 																									},
 																								},
 																							},
@@ -19100,10 +19100,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 743, col: 8, offset: 23745},
 																				expr: &actionExpr{
-																					pos: position{line: 2881, col: 10, offset: 91342},
+																					pos: position{line: 2888, col: 10, offset: 91535},
 																					run: (*parser).callonDocumentHeader606,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2881, col: 10, offset: 91342},
+																						pos:        position{line: 2888, col: 10, offset: 91535},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -19112,28 +19112,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2903, col: 8, offset: 91740},
+																				pos: position{line: 2910, col: 8, offset: 91933},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2890, col: 12, offset: 91513},
+																						pos: position{line: 2897, col: 12, offset: 91706},
 																						run: (*parser).callonDocumentHeader609,
 																						expr: &choiceExpr{
-																							pos: position{line: 2890, col: 13, offset: 91514},
+																							pos: position{line: 2897, col: 13, offset: 91707},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2890, col: 13, offset: 91514},
+																									pos:        position{line: 2897, col: 13, offset: 91707},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2890, col: 20, offset: 91521},
+																									pos:        position{line: 2897, col: 20, offset: 91714},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2890, col: 29, offset: 91530},
+																									pos:        position{line: 2897, col: 29, offset: 91723},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -19142,9 +19142,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2900, col: 8, offset: 91690},
+																						pos: position{line: 2907, col: 8, offset: 91883},
 																						expr: &anyMatcher{
-																							line: 2900, col: 9, offset: 91691,
+																							line: 2907, col: 9, offset: 91884,
 																						},
 																					},
 																				},
@@ -19153,9 +19153,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2900, col: 8, offset: 91690},
+																	pos: position{line: 2907, col: 8, offset: 91883},
 																	expr: &anyMatcher{
-																		line: 2900, col: 9, offset: 91691,
+																		line: 2907, col: 9, offset: 91884,
 																	},
 																},
 															},
@@ -19188,12 +19188,12 @@ var g = &grammar{
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2885, col: 11, offset: 91403},
+							pos: position{line: 2892, col: 11, offset: 91596},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2885, col: 11, offset: 91403},
+								pos: position{line: 2892, col: 11, offset: 91596},
 								expr: &charClassMatcher{
-									pos:        position{line: 2885, col: 11, offset: 91403},
+									pos:        position{line: 2892, col: 11, offset: 91596},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19210,28 +19210,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2903, col: 8, offset: 91740},
+							pos: position{line: 2910, col: 8, offset: 91933},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2890, col: 12, offset: 91513},
+									pos: position{line: 2897, col: 12, offset: 91706},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2890, col: 13, offset: 91514},
+										pos: position{line: 2897, col: 13, offset: 91707},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2890, col: 13, offset: 91514},
+												pos:        position{line: 2897, col: 13, offset: 91707},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2890, col: 20, offset: 91521},
+												pos:        position{line: 2897, col: 20, offset: 91714},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2890, col: 29, offset: 91530},
+												pos:        position{line: 2897, col: 29, offset: 91723},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19240,9 +19240,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2900, col: 8, offset: 91690},
+									pos: position{line: 2907, col: 8, offset: 91883},
 									expr: &anyMatcher{
-										line: 2900, col: 9, offset: 91691,
+										line: 2907, col: 9, offset: 91884,
 									},
 								},
 							},
@@ -19281,10 +19281,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1145, col: 5, offset: 35355},
 							expr: &actionExpr{
-								pos: position{line: 2881, col: 10, offset: 91342},
+								pos: position{line: 2888, col: 10, offset: 91535},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2881, col: 10, offset: 91342},
+									pos:        position{line: 2888, col: 10, offset: 91535},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19316,10 +19316,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1149, col: 5, offset: 35454},
 							expr: &actionExpr{
-								pos: position{line: 2881, col: 10, offset: 91342},
+								pos: position{line: 2888, col: 10, offset: 91535},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2881, col: 10, offset: 91342},
+									pos:        position{line: 2888, col: 10, offset: 91535},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19351,10 +19351,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1153, col: 5, offset: 35551},
 							expr: &actionExpr{
-								pos: position{line: 2881, col: 10, offset: 91342},
+								pos: position{line: 2888, col: 10, offset: 91535},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2881, col: 10, offset: 91342},
+									pos:        position{line: 2888, col: 10, offset: 91535},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19420,12 +19420,12 @@ var g = &grammar{
 							pos:   position{line: 1285, col: 13, offset: 39899},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2866, col: 7, offset: 90994},
+								pos: position{line: 2873, col: 7, offset: 91187},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2866, col: 7, offset: 90994},
+									pos: position{line: 2873, col: 7, offset: 91187},
 									expr: &charClassMatcher{
-										pos:        position{line: 2866, col: 7, offset: 90994},
+										pos:        position{line: 2873, col: 7, offset: 91187},
 										val:        "[^[]<>,\\r\\n]",
 										chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 										ignoreCase: false,
@@ -19512,10 +19512,10 @@ var g = &grammar{
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2881, col: 10, offset: 91342},
+									pos: position{line: 2888, col: 10, offset: 91535},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2881, col: 10, offset: 91342},
+										pos:        position{line: 2888, col: 10, offset: 91535},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -19633,10 +19633,10 @@ var g = &grammar{
 							pos:   position{line: 1317, col: 5, offset: 41167},
 							label: "start",
 							expr: &actionExpr{
-								pos: position{line: 2906, col: 16, offset: 91864},
+								pos: position{line: 2913, col: 16, offset: 92057},
 								run: (*parser).callonImageBlock4,
 								expr: &litMatcher{
-									pos:        position{line: 2906, col: 16, offset: 91864},
+									pos:        position{line: 2913, col: 16, offset: 92057},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -19653,48 +19653,48 @@ var g = &grammar{
 							pos:   position{line: 1317, col: 35, offset: 41197},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2839, col: 13, offset: 90101},
+								pos: position{line: 2846, col: 13, offset: 90294},
 								run: (*parser).callonImageBlock8,
 								expr: &seqExpr{
-									pos: position{line: 2839, col: 13, offset: 90101},
+									pos: position{line: 2846, col: 13, offset: 90294},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2839, col: 13, offset: 90101},
+											pos:   position{line: 2846, col: 13, offset: 90294},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2839, col: 20, offset: 90108},
+												pos: position{line: 2846, col: 20, offset: 90301},
 												expr: &actionExpr{
-													pos: position{line: 2847, col: 11, offset: 90347},
+													pos: position{line: 2854, col: 11, offset: 90540},
 													run: (*parser).callonImageBlock12,
 													expr: &choiceExpr{
-														pos: position{line: 2847, col: 12, offset: 90348},
+														pos: position{line: 2854, col: 12, offset: 90541},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2847, col: 12, offset: 90348},
+																pos:        position{line: 2854, col: 12, offset: 90541},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2847, col: 24, offset: 90360},
+																pos:        position{line: 2854, col: 24, offset: 90553},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2847, col: 37, offset: 90373},
+																pos:        position{line: 2854, col: 37, offset: 90566},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2847, col: 48, offset: 90384},
+																pos:        position{line: 2854, col: 48, offset: 90577},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2847, col: 59, offset: 90395},
+																pos:        position{line: 2854, col: 59, offset: 90588},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19705,38 +19705,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2839, col: 30, offset: 90118},
+											pos:   position{line: 2846, col: 30, offset: 90311},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2852, col: 5, offset: 90459},
+												pos: position{line: 2859, col: 5, offset: 90652},
 												run: (*parser).callonImageBlock20,
 												expr: &labeledExpr{
-													pos:   position{line: 2852, col: 5, offset: 90459},
+													pos:   position{line: 2859, col: 5, offset: 90652},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2852, col: 14, offset: 90468},
+														pos: position{line: 2859, col: 14, offset: 90661},
 														expr: &choiceExpr{
-															pos: position{line: 2853, col: 9, offset: 90478},
+															pos: position{line: 2860, col: 9, offset: 90671},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2853, col: 9, offset: 90478},
+																	pos: position{line: 2860, col: 9, offset: 90671},
 																	run: (*parser).callonImageBlock24,
 																	expr: &seqExpr{
-																		pos: position{line: 2853, col: 9, offset: 90478},
+																		pos: position{line: 2860, col: 9, offset: 90671},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2853, col: 9, offset: 90478},
+																				pos: position{line: 2860, col: 9, offset: 90671},
 																				expr: &litMatcher{
-																					pos:        position{line: 2853, col: 10, offset: 90479},
+																					pos:        position{line: 2860, col: 10, offset: 90672},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2854, col: 9, offset: 90507},
+																				pos: position{line: 2861, col: 9, offset: 90700},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2854, col: 10, offset: 90508},
+																					pos:        position{line: 2861, col: 10, offset: 90701},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19747,27 +19747,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2857, col: 11, offset: 90720},
+																	pos: position{line: 2864, col: 11, offset: 90913},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2857, col: 11, offset: 90720},
+																			pos:        position{line: 2864, col: 11, offset: 90913},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2857, col: 19, offset: 90728},
+																			pos: position{line: 2864, col: 19, offset: 90921},
 																			expr: &seqExpr{
-																				pos: position{line: 2857, col: 21, offset: 90730},
+																				pos: position{line: 2864, col: 21, offset: 90923},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2857, col: 21, offset: 90730},
+																						pos: position{line: 2864, col: 21, offset: 90923},
 																						expr: &actionExpr{
-																							pos: position{line: 2881, col: 10, offset: 91342},
+																							pos: position{line: 2888, col: 10, offset: 91535},
 																							run: (*parser).callonImageBlock35,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2881, col: 10, offset: 91342},
+																								pos:        position{line: 2888, col: 10, offset: 91535},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19776,11 +19776,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2857, col: 28, offset: 90737},
+																						pos: position{line: 2864, col: 28, offset: 90930},
 																						expr: &notExpr{
-																							pos: position{line: 2900, col: 8, offset: 91690},
+																							pos: position{line: 2907, col: 8, offset: 91883},
 																							expr: &anyMatcher{
-																								line: 2900, col: 9, offset: 91691,
+																								line: 2907, col: 9, offset: 91884,
 																							},
 																						},
 																					},
@@ -20179,10 +20179,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2860, col: 11, offset: 90857},
+																	pos: position{line: 2867, col: 11, offset: 91050},
 																	run: (*parser).callonImageBlock118,
 																	expr: &litMatcher{
-																		pos:        position{line: 2860, col: 11, offset: 90857},
+																		pos:        position{line: 2867, col: 11, offset: 91050},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20209,10 +20209,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1317, col: 81, offset: 41243},
 							expr: &actionExpr{
-								pos: position{line: 2881, col: 10, offset: 91342},
+								pos: position{line: 2888, col: 10, offset: 91535},
 								run: (*parser).callonImageBlock123,
 								expr: &charClassMatcher{
-									pos:        position{line: 2881, col: 10, offset: 91342},
+									pos:        position{line: 2888, col: 10, offset: 91535},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -20224,10 +20224,10 @@ var g = &grammar{
 							pos:   position{line: 1317, col: 88, offset: 41250},
 							label: "end",
 							expr: &actionExpr{
-								pos: position{line: 2906, col: 16, offset: 91864},
+								pos: position{line: 2913, col: 16, offset: 92057},
 								run: (*parser).callonImageBlock126,
 								expr: &litMatcher{
-									pos:        position{line: 2906, col: 16, offset: 91864},
+									pos:        position{line: 2913, col: 16, offset: 92057},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -20239,28 +20239,28 @@ var g = &grammar{
 							run: (*parser).callonImageBlock128,
 						},
 						&choiceExpr{
-							pos: position{line: 2903, col: 8, offset: 91740},
+							pos: position{line: 2910, col: 8, offset: 91933},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2890, col: 12, offset: 91513},
+									pos: position{line: 2897, col: 12, offset: 91706},
 									run: (*parser).callonImageBlock130,
 									expr: &choiceExpr{
-										pos: position{line: 2890, col: 13, offset: 91514},
+										pos: position{line: 2897, col: 13, offset: 91707},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2890, col: 13, offset: 91514},
+												pos:        position{line: 2897, col: 13, offset: 91707},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2890, col: 20, offset: 91521},
+												pos:        position{line: 2897, col: 20, offset: 91714},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2890, col: 29, offset: 91530},
+												pos:        position{line: 2897, col: 29, offset: 91723},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -20269,9 +20269,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2900, col: 8, offset: 91690},
+									pos: position{line: 2907, col: 8, offset: 91883},
 									expr: &anyMatcher{
-										line: 2900, col: 9, offset: 91691,
+										line: 2907, col: 9, offset: 91884,
 									},
 								},
 							},
@@ -20308,48 +20308,48 @@ var g = &grammar{
 							pos:   position{line: 1322, col: 30, offset: 41537},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2839, col: 13, offset: 90101},
+								pos: position{line: 2846, col: 13, offset: 90294},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2839, col: 13, offset: 90101},
+									pos: position{line: 2846, col: 13, offset: 90294},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2839, col: 13, offset: 90101},
+											pos:   position{line: 2846, col: 13, offset: 90294},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2839, col: 20, offset: 90108},
+												pos: position{line: 2846, col: 20, offset: 90301},
 												expr: &actionExpr{
-													pos: position{line: 2847, col: 11, offset: 90347},
+													pos: position{line: 2854, col: 11, offset: 90540},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2847, col: 12, offset: 90348},
+														pos: position{line: 2854, col: 12, offset: 90541},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2847, col: 12, offset: 90348},
+																pos:        position{line: 2854, col: 12, offset: 90541},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2847, col: 24, offset: 90360},
+																pos:        position{line: 2854, col: 24, offset: 90553},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2847, col: 37, offset: 90373},
+																pos:        position{line: 2854, col: 37, offset: 90566},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2847, col: 48, offset: 90384},
+																pos:        position{line: 2854, col: 48, offset: 90577},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2847, col: 59, offset: 90395},
+																pos:        position{line: 2854, col: 59, offset: 90588},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20360,38 +20360,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2839, col: 30, offset: 90118},
+											pos:   position{line: 2846, col: 30, offset: 90311},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2852, col: 5, offset: 90459},
+												pos: position{line: 2859, col: 5, offset: 90652},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2852, col: 5, offset: 90459},
+													pos:   position{line: 2859, col: 5, offset: 90652},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2852, col: 14, offset: 90468},
+														pos: position{line: 2859, col: 14, offset: 90661},
 														expr: &choiceExpr{
-															pos: position{line: 2853, col: 9, offset: 90478},
+															pos: position{line: 2860, col: 9, offset: 90671},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2853, col: 9, offset: 90478},
+																	pos: position{line: 2860, col: 9, offset: 90671},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2853, col: 9, offset: 90478},
+																		pos: position{line: 2860, col: 9, offset: 90671},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2853, col: 9, offset: 90478},
+																				pos: position{line: 2860, col: 9, offset: 90671},
 																				expr: &litMatcher{
-																					pos:        position{line: 2853, col: 10, offset: 90479},
+																					pos:        position{line: 2860, col: 10, offset: 90672},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2854, col: 9, offset: 90507},
+																				pos: position{line: 2861, col: 9, offset: 90700},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2854, col: 10, offset: 90508},
+																					pos:        position{line: 2861, col: 10, offset: 90701},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20402,27 +20402,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2857, col: 11, offset: 90720},
+																	pos: position{line: 2864, col: 11, offset: 90913},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2857, col: 11, offset: 90720},
+																			pos:        position{line: 2864, col: 11, offset: 90913},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2857, col: 19, offset: 90728},
+																			pos: position{line: 2864, col: 19, offset: 90921},
 																			expr: &seqExpr{
-																				pos: position{line: 2857, col: 21, offset: 90730},
+																				pos: position{line: 2864, col: 21, offset: 90923},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2857, col: 21, offset: 90730},
+																						pos: position{line: 2864, col: 21, offset: 90923},
 																						expr: &actionExpr{
-																							pos: position{line: 2881, col: 10, offset: 91342},
+																							pos: position{line: 2888, col: 10, offset: 91535},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2881, col: 10, offset: 91342},
+																								pos:        position{line: 2888, col: 10, offset: 91535},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20431,11 +20431,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2857, col: 28, offset: 90737},
+																						pos: position{line: 2864, col: 28, offset: 90930},
 																						expr: &notExpr{
-																							pos: position{line: 2900, col: 8, offset: 91690},
+																							pos: position{line: 2907, col: 8, offset: 91883},
 																							expr: &anyMatcher{
-																								line: 2900, col: 9, offset: 91691,
+																								line: 2907, col: 9, offset: 91884,
 																							},
 																						},
 																					},
@@ -20834,10 +20834,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2860, col: 11, offset: 90857},
+																	pos: position{line: 2867, col: 11, offset: 91050},
 																	run: (*parser).callonInlineImage117,
 																	expr: &litMatcher{
-																		pos:        position{line: 2860, col: 11, offset: 90857},
+																		pos:        position{line: 2867, col: 11, offset: 91050},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -21021,16 +21021,53 @@ var g = &grammar{
 										expr: &seqExpr{
 											pos: position{line: 2780, col: 5, offset: 88563},
 											exprs: []interface{}{
+												&notExpr{
+													pos: position{line: 2780, col: 5, offset: 88563},
+													expr: &seqExpr{
+														pos: position{line: 2781, col: 9, offset: 88574},
+														exprs: []interface{}{
+															&labeledExpr{
+																pos:   position{line: 2781, col: 9, offset: 88574},
+																label: "name",
+																expr: &actionExpr{
+																	pos: position{line: 2760, col: 18, offset: 88080},
+																	run: (*parser).callonFootnoteElement12,
+																	expr: &oneOrMoreExpr{
+																		pos: position{line: 2760, col: 19, offset: 88081},
+																		expr: &charClassMatcher{
+																			pos:        position{line: 2760, col: 19, offset: 88081},
+																			val:        "[_-\\pL\\pN]",
+																			chars:      []rune{'_', '-'},
+																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																			ignoreCase: false,
+																			inverted:   false,
+																		},
+																	},
+																},
+															},
+															&litMatcher{
+																pos:        position{line: 2782, col: 9, offset: 88667},
+																val:        ":",
+																ignoreCase: false,
+																want:       "\":\"",
+															},
+															&andCodeExpr{
+																pos: position{line: 2783, col: 9, offset: 88679},
+																run: (*parser).callonFootnoteElement16,
+															},
+														},
+													},
+												},
 												&labeledExpr{
-													pos:   position{line: 2780, col: 5, offset: 88563},
+													pos:   position{line: 2787, col: 5, offset: 88756},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2780, col: 11, offset: 88569},
-														run: (*parser).callonFootnoteElement10,
+														pos: position{line: 2787, col: 11, offset: 88762},
+														run: (*parser).callonFootnoteElement18,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2780, col: 11, offset: 88569},
+															pos: position{line: 2787, col: 11, offset: 88762},
 															expr: &charClassMatcher{
-																pos:        position{line: 2780, col: 11, offset: 88569},
+																pos:        position{line: 2787, col: 11, offset: 88762},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21040,44 +21077,44 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2783, col: 5, offset: 88627},
+													pos: position{line: 2790, col: 5, offset: 88820},
 													expr: &seqExpr{
-														pos: position{line: 2784, col: 9, offset: 88638},
+														pos: position{line: 2791, col: 9, offset: 88831},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2784, col: 9, offset: 88638},
+																pos:        position{line: 2791, col: 9, offset: 88831},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2785, col: 9, offset: 88687},
-																run: (*parser).callonFootnoteElement16,
+																pos: position{line: 2792, col: 9, offset: 88880},
+																run: (*parser).callonFootnoteElement24,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2789, col: 5, offset: 88767},
+													pos: position{line: 2796, col: 5, offset: 88960},
 													expr: &seqExpr{
-														pos: position{line: 2790, col: 9, offset: 88778},
+														pos: position{line: 2797, col: 9, offset: 88971},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2790, col: 9, offset: 88778},
+																pos: position{line: 2797, col: 9, offset: 88971},
 																expr: &seqExpr{
-																	pos: position{line: 2790, col: 10, offset: 88779},
+																	pos: position{line: 2797, col: 10, offset: 88972},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2790, col: 10, offset: 88779},
+																			pos:        position{line: 2797, col: 10, offset: 88972},
 																			val:        "[._%+-]",
 																			chars:      []rune{'.', '_', '%', '+', '-'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2790, col: 18, offset: 88787},
+																			pos: position{line: 2797, col: 18, offset: 88980},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2790, col: 18, offset: 88787},
+																				pos:        position{line: 2797, col: 18, offset: 88980},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -21088,13 +21125,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2790, col: 30, offset: 88799},
+																pos:        position{line: 2797, col: 30, offset: 88992},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2790, col: 34, offset: 88803},
+																pos:        position{line: 2797, col: 34, offset: 88996},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21107,12 +21144,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2885, col: 11, offset: 91403},
-										run: (*parser).callonFootnoteElement26,
+										pos: position{line: 2892, col: 11, offset: 91596},
+										run: (*parser).callonFootnoteElement34,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2885, col: 11, offset: 91403},
+											pos: position{line: 2892, col: 11, offset: 91596},
 											expr: &charClassMatcher{
-												pos:        position{line: 2885, col: 11, offset: 91403},
+												pos:        position{line: 2892, col: 11, offset: 91596},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -21122,13 +21159,13 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 2506, col: 5, offset: 80945},
-										run: (*parser).callonFootnoteElement29,
+										run: (*parser).callonFootnoteElement37,
 										expr: &seqExpr{
 											pos: position{line: 2506, col: 5, offset: 80945},
 											exprs: []interface{}{
 												&andCodeExpr{
 													pos: position{line: 2506, col: 5, offset: 80945},
-													run: (*parser).callonFootnoteElement31,
+													run: (*parser).callonFootnoteElement39,
 												},
 												&litMatcher{
 													pos:        position{line: 2509, col: 5, offset: 81016},
@@ -21151,17 +21188,17 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 2515, col: 5, offset: 81214},
-										run: (*parser).callonFootnoteElement35,
+										run: (*parser).callonFootnoteElement43,
 										expr: &seqExpr{
 											pos: position{line: 2515, col: 5, offset: 81214},
 											exprs: []interface{}{
 												&andCodeExpr{
 													pos: position{line: 2515, col: 5, offset: 81214},
-													run: (*parser).callonFootnoteElement37,
+													run: (*parser).callonFootnoteElement45,
 												},
 												&andCodeExpr{
 													pos: position{line: 2518, col: 5, offset: 81285},
-													run: (*parser).callonFootnoteElement38,
+													run: (*parser).callonFootnoteElement46,
 												},
 												&litMatcher{
 													pos:        position{line: 2522, col: 5, offset: 81410},
@@ -21191,27 +21228,27 @@ var g = &grammar{
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2798, col: 5, offset: 88996},
-										run: (*parser).callonFootnoteElement44,
+										pos: position{line: 2805, col: 5, offset: 89189},
+										run: (*parser).callonFootnoteElement52,
 										expr: &choiceExpr{
-											pos: position{line: 2799, col: 9, offset: 89006},
+											pos: position{line: 2806, col: 9, offset: 89199},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2799, col: 10, offset: 89007},
+													pos:        position{line: 2806, col: 10, offset: 89200},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2801, col: 13, offset: 89104},
+													pos: position{line: 2808, col: 13, offset: 89297},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2801, col: 13, offset: 89104},
-															run: (*parser).callonFootnoteElement48,
+															pos: position{line: 2808, col: 13, offset: 89297},
+															run: (*parser).callonFootnoteElement56,
 														},
 														&litMatcher{
-															pos:        position{line: 2804, col: 13, offset: 89204},
+															pos:        position{line: 2811, col: 13, offset: 89397},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -21219,20 +21256,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2804, col: 19, offset: 89210},
+													pos:        position{line: 2811, col: 19, offset: 89403},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2807, col: 13, offset: 89248},
+													pos: position{line: 2814, col: 13, offset: 89441},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2807, col: 13, offset: 89248},
-															run: (*parser).callonFootnoteElement52,
+															pos: position{line: 2814, col: 13, offset: 89441},
+															run: (*parser).callonFootnoteElement60,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2810, col: 14, offset: 89341},
+															pos:        position{line: 2817, col: 14, offset: 89534},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -21241,18 +21278,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2812, col: 12, offset: 89385},
+													pos: position{line: 2819, col: 12, offset: 89578},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2812, col: 12, offset: 89385},
+															pos:        position{line: 2819, col: 12, offset: 89578},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2812, col: 16, offset: 89389},
+															pos: position{line: 2819, col: 16, offset: 89582},
 															expr: &litMatcher{
-																pos:        position{line: 2812, col: 17, offset: 89390},
+																pos:        position{line: 2819, col: 17, offset: 89583},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -21269,13 +21306,13 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1211, col: 5, offset: 37585},
-										run: (*parser).callonFootnoteElement59,
+										run: (*parser).callonFootnoteElement67,
 										expr: &seqExpr{
 											pos: position{line: 1211, col: 5, offset: 37585},
 											exprs: []interface{}{
 												&andCodeExpr{
 													pos: position{line: 1211, col: 5, offset: 37585},
-													run: (*parser).callonFootnoteElement61,
+													run: (*parser).callonFootnoteElement69,
 												},
 												&litMatcher{
 													pos:        position{line: 1214, col: 5, offset: 37661},
@@ -21285,15 +21322,15 @@ var g = &grammar{
 												},
 												&andCodeExpr{
 													pos: position{line: 1215, col: 5, offset: 37669},
-													run: (*parser).callonFootnoteElement63,
+													run: (*parser).callonFootnoteElement71,
 												},
 												&zeroOrMoreExpr{
 													pos: position{line: 1219, col: 5, offset: 37756},
 													expr: &actionExpr{
-														pos: position{line: 2881, col: 10, offset: 91342},
-														run: (*parser).callonFootnoteElement65,
+														pos: position{line: 2888, col: 10, offset: 91535},
+														run: (*parser).callonFootnoteElement73,
 														expr: &charClassMatcher{
-															pos:        position{line: 2881, col: 10, offset: 91342},
+															pos:        position{line: 2888, col: 10, offset: 91535},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -21304,28 +21341,28 @@ var g = &grammar{
 												&andExpr{
 													pos: position{line: 1219, col: 12, offset: 37763},
 													expr: &choiceExpr{
-														pos: position{line: 2903, col: 8, offset: 91740},
+														pos: position{line: 2910, col: 8, offset: 91933},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2890, col: 12, offset: 91513},
-																run: (*parser).callonFootnoteElement69,
+																pos: position{line: 2897, col: 12, offset: 91706},
+																run: (*parser).callonFootnoteElement77,
 																expr: &choiceExpr{
-																	pos: position{line: 2890, col: 13, offset: 91514},
+																	pos: position{line: 2897, col: 13, offset: 91707},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2890, col: 13, offset: 91514},
+																			pos:        position{line: 2897, col: 13, offset: 91707},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2890, col: 20, offset: 91521},
+																			pos:        position{line: 2897, col: 20, offset: 91714},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2890, col: 29, offset: 91530},
+																			pos:        position{line: 2897, col: 29, offset: 91723},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -21334,9 +21371,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2900, col: 8, offset: 91690},
+																pos: position{line: 2907, col: 8, offset: 91883},
 																expr: &anyMatcher{
-																	line: 2900, col: 9, offset: 91691,
+																	line: 2907, col: 9, offset: 91884,
 																},
 															},
 														},
@@ -21347,13 +21384,13 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 636, col: 5, offset: 20143},
-										run: (*parser).callonFootnoteElement76,
+										run: (*parser).callonFootnoteElement84,
 										expr: &seqExpr{
 											pos: position{line: 636, col: 5, offset: 20143},
 											exprs: []interface{}{
 												&andCodeExpr{
 													pos: position{line: 636, col: 5, offset: 20143},
-													run: (*parser).callonFootnoteElement78,
+													run: (*parser).callonFootnoteElement86,
 												},
 												&labeledExpr{
 													pos:   position{line: 639, col: 5, offset: 20215},
@@ -21363,7 +21400,7 @@ var g = &grammar{
 														alternatives: []interface{}{
 															&actionExpr{
 																pos: position{line: 645, col: 5, offset: 20353},
-																run: (*parser).callonFootnoteElement81,
+																run: (*parser).callonFootnoteElement89,
 																expr: &seqExpr{
 																	pos: position{line: 645, col: 5, offset: 20353},
 																	exprs: []interface{}{
@@ -21378,7 +21415,7 @@ var g = &grammar{
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 317, col: 18, offset: 9667},
-																				run: (*parser).callonFootnoteElement85,
+																				run: (*parser).callonFootnoteElement93,
 																				expr: &seqExpr{
 																					pos: position{line: 317, col: 18, offset: 9667},
 																					exprs: []interface{}{
@@ -21416,7 +21453,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 652, col: 5, offset: 20621},
-																run: (*parser).callonFootnoteElement91,
+																run: (*parser).callonFootnoteElement99,
 																expr: &seqExpr{
 																	pos: position{line: 652, col: 5, offset: 20621},
 																	exprs: []interface{}{
@@ -21431,7 +21468,7 @@ var g = &grammar{
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 317, col: 18, offset: 9667},
-																				run: (*parser).callonFootnoteElement95,
+																				run: (*parser).callonFootnoteElement103,
 																				expr: &seqExpr{
 																					pos: position{line: 317, col: 18, offset: 9667},
 																					exprs: []interface{}{
@@ -21469,7 +21506,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 658, col: 25, offset: 20825},
-																run: (*parser).callonFootnoteElement101,
+																run: (*parser).callonFootnoteElement109,
 																expr: &seqExpr{
 																	pos: position{line: 658, col: 25, offset: 20825},
 																	exprs: []interface{}{
@@ -21484,7 +21521,7 @@ var g = &grammar{
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 317, col: 18, offset: 9667},
-																				run: (*parser).callonFootnoteElement105,
+																				run: (*parser).callonFootnoteElement113,
 																				expr: &seqExpr{
 																					pos: position{line: 317, col: 18, offset: 9667},
 																					exprs: []interface{}{
@@ -21518,7 +21555,7 @@ var g = &grammar{
 																				pos: position{line: 658, col: 62, offset: 20862},
 																				expr: &actionExpr{
 																					pos: position{line: 666, col: 17, offset: 21159},
-																					run: (*parser).callonFootnoteElement112,
+																					run: (*parser).callonFootnoteElement120,
 																					expr: &seqExpr{
 																						pos: position{line: 666, col: 17, offset: 21159},
 																						exprs: []interface{}{
@@ -21536,7 +21573,7 @@ var g = &grammar{
 																									alternatives: []interface{}{
 																										&actionExpr{
 																											pos: position{line: 666, col: 28, offset: 21170},
-																											run: (*parser).callonFootnoteElement117,
+																											run: (*parser).callonFootnoteElement125,
 																											expr: &charClassMatcher{
 																												pos:        position{line: 666, col: 28, offset: 21170},
 																												val:        "[A-Za-z]",
@@ -21547,7 +21584,7 @@ var g = &grammar{
 																										},
 																										&actionExpr{
 																											pos: position{line: 668, col: 9, offset: 21224},
-																											run: (*parser).callonFootnoteElement119,
+																											run: (*parser).callonFootnoteElement127,
 																											expr: &oneOrMoreExpr{
 																												pos: position{line: 668, col: 9, offset: 21224},
 																												expr: &charClassMatcher{
@@ -21578,7 +21615,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 662, col: 25, offset: 20996},
-																run: (*parser).callonFootnoteElement123,
+																run: (*parser).callonFootnoteElement131,
 																expr: &seqExpr{
 																	pos: position{line: 662, col: 25, offset: 20996},
 																	exprs: []interface{}{
@@ -21593,7 +21630,7 @@ var g = &grammar{
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 317, col: 18, offset: 9667},
-																				run: (*parser).callonFootnoteElement127,
+																				run: (*parser).callonFootnoteElement135,
 																				expr: &seqExpr{
 																					pos: position{line: 317, col: 18, offset: 9667},
 																					exprs: []interface{}{
@@ -21627,7 +21664,7 @@ var g = &grammar{
 																				pos: position{line: 662, col: 63, offset: 21034},
 																				expr: &actionExpr{
 																					pos: position{line: 666, col: 17, offset: 21159},
-																					run: (*parser).callonFootnoteElement134,
+																					run: (*parser).callonFootnoteElement142,
 																					expr: &seqExpr{
 																						pos: position{line: 666, col: 17, offset: 21159},
 																						exprs: []interface{}{
@@ -21645,7 +21682,7 @@ var g = &grammar{
 																									alternatives: []interface{}{
 																										&actionExpr{
 																											pos: position{line: 666, col: 28, offset: 21170},
-																											run: (*parser).callonFootnoteElement139,
+																											run: (*parser).callonFootnoteElement147,
 																											expr: &charClassMatcher{
 																												pos:        position{line: 666, col: 28, offset: 21170},
 																												val:        "[A-Za-z]",
@@ -21656,7 +21693,7 @@ var g = &grammar{
 																										},
 																										&actionExpr{
 																											pos: position{line: 668, col: 9, offset: 21224},
-																											run: (*parser).callonFootnoteElement141,
+																											run: (*parser).callonFootnoteElement149,
 																											expr: &oneOrMoreExpr{
 																												pos: position{line: 668, col: 9, offset: 21224},
 																												expr: &charClassMatcher{
@@ -21693,20 +21730,20 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 2475, col: 5, offset: 79774},
-										run: (*parser).callonFootnoteElement145,
+										run: (*parser).callonFootnoteElement153,
 										expr: &seqExpr{
 											pos: position{line: 2475, col: 5, offset: 79774},
 											exprs: []interface{}{
 												&andCodeExpr{
 													pos: position{line: 2475, col: 5, offset: 79774},
-													run: (*parser).callonFootnoteElement147,
+													run: (*parser).callonFootnoteElement155,
 												},
 												&labeledExpr{
 													pos:   position{line: 2478, col: 5, offset: 79850},
 													label: "element",
 													expr: &actionExpr{
 														pos: position{line: 2479, col: 9, offset: 79868},
-														run: (*parser).callonFootnoteElement149,
+														run: (*parser).callonFootnoteElement157,
 														expr: &charClassMatcher{
 															pos:        position{line: 2479, col: 10, offset: 79869},
 															val:        "[<>&]",
@@ -21720,25 +21757,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2890, col: 12, offset: 91513},
-										run: (*parser).callonFootnoteElement151,
+										pos: position{line: 2897, col: 12, offset: 91706},
+										run: (*parser).callonFootnoteElement159,
 										expr: &choiceExpr{
-											pos: position{line: 2890, col: 13, offset: 91514},
+											pos: position{line: 2897, col: 13, offset: 91707},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2890, col: 13, offset: 91514},
+													pos:        position{line: 2897, col: 13, offset: 91707},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2890, col: 20, offset: 91521},
+													pos:        position{line: 2897, col: 20, offset: 91714},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2890, col: 29, offset: 91530},
+													pos:        position{line: 2897, col: 29, offset: 91723},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -21747,10 +21784,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2820, col: 12, offset: 89650},
-										run: (*parser).callonFootnoteElement156,
+										pos: position{line: 2827, col: 12, offset: 89843},
+										run: (*parser).callonFootnoteElement164,
 										expr: &charClassMatcher{
-											pos:        position{line: 2820, col: 12, offset: 89650},
+											pos:        position{line: 2827, col: 12, offset: 89843},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -21902,55 +21939,55 @@ var g = &grammar{
 									pos:   position{line: 1421, col: 5, offset: 45793},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2843, col: 23, offset: 90228},
+										pos: position{line: 2850, col: 23, offset: 90421},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2843, col: 23, offset: 90228},
+											pos: position{line: 2850, col: 23, offset: 90421},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2843, col: 23, offset: 90228},
+													pos: position{line: 2850, col: 23, offset: 90421},
 													expr: &litMatcher{
-														pos:        position{line: 2843, col: 24, offset: 90229},
+														pos:        position{line: 2850, col: 24, offset: 90422},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2843, col: 28, offset: 90233},
+													pos:   position{line: 2850, col: 28, offset: 90426},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2847, col: 11, offset: 90347},
+														pos: position{line: 2854, col: 11, offset: 90540},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2847, col: 12, offset: 90348},
+															pos: position{line: 2854, col: 12, offset: 90541},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2847, col: 12, offset: 90348},
+																	pos:        position{line: 2854, col: 12, offset: 90541},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2847, col: 24, offset: 90360},
+																	pos:        position{line: 2854, col: 24, offset: 90553},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2847, col: 37, offset: 90373},
+																	pos:        position{line: 2854, col: 37, offset: 90566},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2847, col: 48, offset: 90384},
+																	pos:        position{line: 2854, col: 48, offset: 90577},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2847, col: 59, offset: 90395},
+																	pos:        position{line: 2854, col: 59, offset: 90588},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -21960,38 +21997,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2843, col: 44, offset: 90249},
+													pos:   position{line: 2850, col: 44, offset: 90442},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 5, offset: 90459},
+														pos: position{line: 2859, col: 5, offset: 90652},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2852, col: 5, offset: 90459},
+															pos:   position{line: 2859, col: 5, offset: 90652},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2852, col: 14, offset: 90468},
+																pos: position{line: 2859, col: 14, offset: 90661},
 																expr: &choiceExpr{
-																	pos: position{line: 2853, col: 9, offset: 90478},
+																	pos: position{line: 2860, col: 9, offset: 90671},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2853, col: 9, offset: 90478},
+																			pos: position{line: 2860, col: 9, offset: 90671},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2853, col: 9, offset: 90478},
+																				pos: position{line: 2860, col: 9, offset: 90671},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2853, col: 9, offset: 90478},
+																						pos: position{line: 2860, col: 9, offset: 90671},
 																						expr: &litMatcher{
-																							pos:        position{line: 2853, col: 10, offset: 90479},
+																							pos:        position{line: 2860, col: 10, offset: 90672},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2854, col: 9, offset: 90507},
+																						pos: position{line: 2861, col: 9, offset: 90700},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2854, col: 10, offset: 90508},
+																							pos:        position{line: 2861, col: 10, offset: 90701},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22002,27 +22039,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2857, col: 11, offset: 90720},
+																			pos: position{line: 2864, col: 11, offset: 90913},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2857, col: 11, offset: 90720},
+																					pos:        position{line: 2864, col: 11, offset: 90913},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2857, col: 19, offset: 90728},
+																					pos: position{line: 2864, col: 19, offset: 90921},
 																					expr: &seqExpr{
-																						pos: position{line: 2857, col: 21, offset: 90730},
+																						pos: position{line: 2864, col: 21, offset: 90923},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2857, col: 21, offset: 90730},
+																								pos: position{line: 2864, col: 21, offset: 90923},
 																								expr: &actionExpr{
-																									pos: position{line: 2881, col: 10, offset: 91342},
+																									pos: position{line: 2888, col: 10, offset: 91535},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2881, col: 10, offset: 91342},
+																										pos:        position{line: 2888, col: 10, offset: 91535},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22031,11 +22068,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2857, col: 28, offset: 90737},
+																								pos: position{line: 2864, col: 28, offset: 90930},
 																								expr: &notExpr{
-																									pos: position{line: 2900, col: 8, offset: 91690},
+																									pos: position{line: 2907, col: 8, offset: 91883},
 																									expr: &anyMatcher{
-																										line: 2900, col: 9, offset: 91691,
+																										line: 2907, col: 9, offset: 91884,
 																									},
 																								},
 																							},
@@ -22434,10 +22471,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2860, col: 11, offset: 90857},
+																			pos: position{line: 2867, col: 11, offset: 91050},
 																			run: (*parser).callonLink117,
 																			expr: &litMatcher{
-																				pos:        position{line: 2860, col: 11, offset: 90857},
+																				pos:        position{line: 2867, col: 11, offset: 91050},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22642,48 +22679,48 @@ var g = &grammar{
 									pos:   position{line: 1434, col: 17, offset: 46208},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2839, col: 13, offset: 90101},
+										pos: position{line: 2846, col: 13, offset: 90294},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2839, col: 13, offset: 90101},
+											pos: position{line: 2846, col: 13, offset: 90294},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2839, col: 13, offset: 90101},
+													pos:   position{line: 2846, col: 13, offset: 90294},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2839, col: 20, offset: 90108},
+														pos: position{line: 2846, col: 20, offset: 90301},
 														expr: &actionExpr{
-															pos: position{line: 2847, col: 11, offset: 90347},
+															pos: position{line: 2854, col: 11, offset: 90540},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2847, col: 12, offset: 90348},
+																pos: position{line: 2854, col: 12, offset: 90541},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2847, col: 12, offset: 90348},
+																		pos:        position{line: 2854, col: 12, offset: 90541},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2847, col: 24, offset: 90360},
+																		pos:        position{line: 2854, col: 24, offset: 90553},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2847, col: 37, offset: 90373},
+																		pos:        position{line: 2854, col: 37, offset: 90566},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2847, col: 48, offset: 90384},
+																		pos:        position{line: 2854, col: 48, offset: 90577},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2847, col: 59, offset: 90395},
+																		pos:        position{line: 2854, col: 59, offset: 90588},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22694,38 +22731,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2839, col: 30, offset: 90118},
+													pos:   position{line: 2846, col: 30, offset: 90311},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 5, offset: 90459},
+														pos: position{line: 2859, col: 5, offset: 90652},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2852, col: 5, offset: 90459},
+															pos:   position{line: 2859, col: 5, offset: 90652},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2852, col: 14, offset: 90468},
+																pos: position{line: 2859, col: 14, offset: 90661},
 																expr: &choiceExpr{
-																	pos: position{line: 2853, col: 9, offset: 90478},
+																	pos: position{line: 2860, col: 9, offset: 90671},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2853, col: 9, offset: 90478},
+																			pos: position{line: 2860, col: 9, offset: 90671},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2853, col: 9, offset: 90478},
+																				pos: position{line: 2860, col: 9, offset: 90671},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2853, col: 9, offset: 90478},
+																						pos: position{line: 2860, col: 9, offset: 90671},
 																						expr: &litMatcher{
-																							pos:        position{line: 2853, col: 10, offset: 90479},
+																							pos:        position{line: 2860, col: 10, offset: 90672},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2854, col: 9, offset: 90507},
+																						pos: position{line: 2861, col: 9, offset: 90700},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2854, col: 10, offset: 90508},
+																							pos:        position{line: 2861, col: 10, offset: 90701},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22736,27 +22773,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2857, col: 11, offset: 90720},
+																			pos: position{line: 2864, col: 11, offset: 90913},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2857, col: 11, offset: 90720},
+																					pos:        position{line: 2864, col: 11, offset: 90913},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2857, col: 19, offset: 90728},
+																					pos: position{line: 2864, col: 19, offset: 90921},
 																					expr: &seqExpr{
-																						pos: position{line: 2857, col: 21, offset: 90730},
+																						pos: position{line: 2864, col: 21, offset: 90923},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2857, col: 21, offset: 90730},
+																								pos: position{line: 2864, col: 21, offset: 90923},
 																								expr: &actionExpr{
-																									pos: position{line: 2881, col: 10, offset: 91342},
+																									pos: position{line: 2888, col: 10, offset: 91535},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2881, col: 10, offset: 91342},
+																										pos:        position{line: 2888, col: 10, offset: 91535},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22765,11 +22802,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2857, col: 28, offset: 90737},
+																								pos: position{line: 2864, col: 28, offset: 90930},
 																								expr: &notExpr{
-																									pos: position{line: 2900, col: 8, offset: 91690},
+																									pos: position{line: 2907, col: 8, offset: 91883},
 																									expr: &anyMatcher{
-																										line: 2900, col: 9, offset: 91691,
+																										line: 2907, col: 9, offset: 91884,
 																									},
 																								},
 																							},
@@ -23168,10 +23205,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2860, col: 11, offset: 90857},
+																			pos: position{line: 2867, col: 11, offset: 91050},
 																			run: (*parser).callonRelativeLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2860, col: 11, offset: 90857},
+																				pos:        position{line: 2867, col: 11, offset: 91050},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23214,48 +23251,48 @@ var g = &grammar{
 									pos:   position{line: 1439, col: 13, offset: 46418},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2839, col: 13, offset: 90101},
+										pos: position{line: 2846, col: 13, offset: 90294},
 										run: (*parser).callonRelativeLink124,
 										expr: &seqExpr{
-											pos: position{line: 2839, col: 13, offset: 90101},
+											pos: position{line: 2846, col: 13, offset: 90294},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2839, col: 13, offset: 90101},
+													pos:   position{line: 2846, col: 13, offset: 90294},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2839, col: 20, offset: 90108},
+														pos: position{line: 2846, col: 20, offset: 90301},
 														expr: &actionExpr{
-															pos: position{line: 2847, col: 11, offset: 90347},
+															pos: position{line: 2854, col: 11, offset: 90540},
 															run: (*parser).callonRelativeLink128,
 															expr: &choiceExpr{
-																pos: position{line: 2847, col: 12, offset: 90348},
+																pos: position{line: 2854, col: 12, offset: 90541},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2847, col: 12, offset: 90348},
+																		pos:        position{line: 2854, col: 12, offset: 90541},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2847, col: 24, offset: 90360},
+																		pos:        position{line: 2854, col: 24, offset: 90553},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2847, col: 37, offset: 90373},
+																		pos:        position{line: 2854, col: 37, offset: 90566},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2847, col: 48, offset: 90384},
+																		pos:        position{line: 2854, col: 48, offset: 90577},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2847, col: 59, offset: 90395},
+																		pos:        position{line: 2854, col: 59, offset: 90588},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23266,38 +23303,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2839, col: 30, offset: 90118},
+													pos:   position{line: 2846, col: 30, offset: 90311},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 5, offset: 90459},
+														pos: position{line: 2859, col: 5, offset: 90652},
 														run: (*parser).callonRelativeLink136,
 														expr: &labeledExpr{
-															pos:   position{line: 2852, col: 5, offset: 90459},
+															pos:   position{line: 2859, col: 5, offset: 90652},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2852, col: 14, offset: 90468},
+																pos: position{line: 2859, col: 14, offset: 90661},
 																expr: &choiceExpr{
-																	pos: position{line: 2853, col: 9, offset: 90478},
+																	pos: position{line: 2860, col: 9, offset: 90671},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2853, col: 9, offset: 90478},
+																			pos: position{line: 2860, col: 9, offset: 90671},
 																			run: (*parser).callonRelativeLink140,
 																			expr: &seqExpr{
-																				pos: position{line: 2853, col: 9, offset: 90478},
+																				pos: position{line: 2860, col: 9, offset: 90671},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2853, col: 9, offset: 90478},
+																						pos: position{line: 2860, col: 9, offset: 90671},
 																						expr: &litMatcher{
-																							pos:        position{line: 2853, col: 10, offset: 90479},
+																							pos:        position{line: 2860, col: 10, offset: 90672},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2854, col: 9, offset: 90507},
+																						pos: position{line: 2861, col: 9, offset: 90700},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2854, col: 10, offset: 90508},
+																							pos:        position{line: 2861, col: 10, offset: 90701},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23308,27 +23345,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2857, col: 11, offset: 90720},
+																			pos: position{line: 2864, col: 11, offset: 90913},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2857, col: 11, offset: 90720},
+																					pos:        position{line: 2864, col: 11, offset: 90913},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2857, col: 19, offset: 90728},
+																					pos: position{line: 2864, col: 19, offset: 90921},
 																					expr: &seqExpr{
-																						pos: position{line: 2857, col: 21, offset: 90730},
+																						pos: position{line: 2864, col: 21, offset: 90923},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2857, col: 21, offset: 90730},
+																								pos: position{line: 2864, col: 21, offset: 90923},
 																								expr: &actionExpr{
-																									pos: position{line: 2881, col: 10, offset: 91342},
+																									pos: position{line: 2888, col: 10, offset: 91535},
 																									run: (*parser).callonRelativeLink151,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2881, col: 10, offset: 91342},
+																										pos:        position{line: 2888, col: 10, offset: 91535},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23337,11 +23374,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2857, col: 28, offset: 90737},
+																								pos: position{line: 2864, col: 28, offset: 90930},
 																								expr: &notExpr{
-																									pos: position{line: 2900, col: 8, offset: 91690},
+																									pos: position{line: 2907, col: 8, offset: 91883},
 																									expr: &anyMatcher{
-																										line: 2900, col: 9, offset: 91691,
+																										line: 2907, col: 9, offset: 91884,
 																									},
 																								},
 																							},
@@ -23740,10 +23777,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2860, col: 11, offset: 90857},
+																			pos: position{line: 2867, col: 11, offset: 91050},
 																			run: (*parser).callonRelativeLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2860, col: 11, offset: 90857},
+																				pos:        position{line: 2867, col: 11, offset: 91050},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23795,55 +23832,55 @@ var g = &grammar{
 									pos:   position{line: 1446, col: 9, offset: 46727},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2843, col: 23, offset: 90228},
+										pos: position{line: 2850, col: 23, offset: 90421},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2843, col: 23, offset: 90228},
+											pos: position{line: 2850, col: 23, offset: 90421},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2843, col: 23, offset: 90228},
+													pos: position{line: 2850, col: 23, offset: 90421},
 													expr: &litMatcher{
-														pos:        position{line: 2843, col: 24, offset: 90229},
+														pos:        position{line: 2850, col: 24, offset: 90422},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2843, col: 28, offset: 90233},
+													pos:   position{line: 2850, col: 28, offset: 90426},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2847, col: 11, offset: 90347},
+														pos: position{line: 2854, col: 11, offset: 90540},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2847, col: 12, offset: 90348},
+															pos: position{line: 2854, col: 12, offset: 90541},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2847, col: 12, offset: 90348},
+																	pos:        position{line: 2854, col: 12, offset: 90541},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2847, col: 24, offset: 90360},
+																	pos:        position{line: 2854, col: 24, offset: 90553},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2847, col: 37, offset: 90373},
+																	pos:        position{line: 2854, col: 37, offset: 90566},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2847, col: 48, offset: 90384},
+																	pos:        position{line: 2854, col: 48, offset: 90577},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2847, col: 59, offset: 90395},
+																	pos:        position{line: 2854, col: 59, offset: 90588},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23853,38 +23890,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2843, col: 44, offset: 90249},
+													pos:   position{line: 2850, col: 44, offset: 90442},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 5, offset: 90459},
+														pos: position{line: 2859, col: 5, offset: 90652},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2852, col: 5, offset: 90459},
+															pos:   position{line: 2859, col: 5, offset: 90652},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2852, col: 14, offset: 90468},
+																pos: position{line: 2859, col: 14, offset: 90661},
 																expr: &choiceExpr{
-																	pos: position{line: 2853, col: 9, offset: 90478},
+																	pos: position{line: 2860, col: 9, offset: 90671},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2853, col: 9, offset: 90478},
+																			pos: position{line: 2860, col: 9, offset: 90671},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2853, col: 9, offset: 90478},
+																				pos: position{line: 2860, col: 9, offset: 90671},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2853, col: 9, offset: 90478},
+																						pos: position{line: 2860, col: 9, offset: 90671},
 																						expr: &litMatcher{
-																							pos:        position{line: 2853, col: 10, offset: 90479},
+																							pos:        position{line: 2860, col: 10, offset: 90672},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2854, col: 9, offset: 90507},
+																						pos: position{line: 2861, col: 9, offset: 90700},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2854, col: 10, offset: 90508},
+																							pos:        position{line: 2861, col: 10, offset: 90701},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23895,27 +23932,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2857, col: 11, offset: 90720},
+																			pos: position{line: 2864, col: 11, offset: 90913},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2857, col: 11, offset: 90720},
+																					pos:        position{line: 2864, col: 11, offset: 90913},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2857, col: 19, offset: 90728},
+																					pos: position{line: 2864, col: 19, offset: 90921},
 																					expr: &seqExpr{
-																						pos: position{line: 2857, col: 21, offset: 90730},
+																						pos: position{line: 2864, col: 21, offset: 90923},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2857, col: 21, offset: 90730},
+																								pos: position{line: 2864, col: 21, offset: 90923},
 																								expr: &actionExpr{
-																									pos: position{line: 2881, col: 10, offset: 91342},
+																									pos: position{line: 2888, col: 10, offset: 91535},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2881, col: 10, offset: 91342},
+																										pos:        position{line: 2888, col: 10, offset: 91535},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23924,11 +23961,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2857, col: 28, offset: 90737},
+																								pos: position{line: 2864, col: 28, offset: 90930},
 																								expr: &notExpr{
-																									pos: position{line: 2900, col: 8, offset: 91690},
+																									pos: position{line: 2907, col: 8, offset: 91883},
 																									expr: &anyMatcher{
-																										line: 2900, col: 9, offset: 91691,
+																										line: 2907, col: 9, offset: 91884,
 																									},
 																								},
 																							},
@@ -24327,10 +24364,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2860, col: 11, offset: 90857},
+																			pos: position{line: 2867, col: 11, offset: 91050},
 																			run: (*parser).callonExternalLink117,
 																			expr: &litMatcher{
-																				pos:        position{line: 2860, col: 11, offset: 90857},
+																				pos:        position{line: 2867, col: 11, offset: 91050},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24370,55 +24407,55 @@ var g = &grammar{
 									pos:   position{line: 1451, col: 5, offset: 46940},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2843, col: 23, offset: 90228},
+										pos: position{line: 2850, col: 23, offset: 90421},
 										run: (*parser).callonExternalLink125,
 										expr: &seqExpr{
-											pos: position{line: 2843, col: 23, offset: 90228},
+											pos: position{line: 2850, col: 23, offset: 90421},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2843, col: 23, offset: 90228},
+													pos: position{line: 2850, col: 23, offset: 90421},
 													expr: &litMatcher{
-														pos:        position{line: 2843, col: 24, offset: 90229},
+														pos:        position{line: 2850, col: 24, offset: 90422},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2843, col: 28, offset: 90233},
+													pos:   position{line: 2850, col: 28, offset: 90426},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2847, col: 11, offset: 90347},
+														pos: position{line: 2854, col: 11, offset: 90540},
 														run: (*parser).callonExternalLink130,
 														expr: &choiceExpr{
-															pos: position{line: 2847, col: 12, offset: 90348},
+															pos: position{line: 2854, col: 12, offset: 90541},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2847, col: 12, offset: 90348},
+																	pos:        position{line: 2854, col: 12, offset: 90541},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2847, col: 24, offset: 90360},
+																	pos:        position{line: 2854, col: 24, offset: 90553},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2847, col: 37, offset: 90373},
+																	pos:        position{line: 2854, col: 37, offset: 90566},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2847, col: 48, offset: 90384},
+																	pos:        position{line: 2854, col: 48, offset: 90577},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2847, col: 59, offset: 90395},
+																	pos:        position{line: 2854, col: 59, offset: 90588},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24428,38 +24465,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2843, col: 44, offset: 90249},
+													pos:   position{line: 2850, col: 44, offset: 90442},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 5, offset: 90459},
+														pos: position{line: 2859, col: 5, offset: 90652},
 														run: (*parser).callonExternalLink138,
 														expr: &labeledExpr{
-															pos:   position{line: 2852, col: 5, offset: 90459},
+															pos:   position{line: 2859, col: 5, offset: 90652},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2852, col: 14, offset: 90468},
+																pos: position{line: 2859, col: 14, offset: 90661},
 																expr: &choiceExpr{
-																	pos: position{line: 2853, col: 9, offset: 90478},
+																	pos: position{line: 2860, col: 9, offset: 90671},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2853, col: 9, offset: 90478},
+																			pos: position{line: 2860, col: 9, offset: 90671},
 																			run: (*parser).callonExternalLink142,
 																			expr: &seqExpr{
-																				pos: position{line: 2853, col: 9, offset: 90478},
+																				pos: position{line: 2860, col: 9, offset: 90671},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2853, col: 9, offset: 90478},
+																						pos: position{line: 2860, col: 9, offset: 90671},
 																						expr: &litMatcher{
-																							pos:        position{line: 2853, col: 10, offset: 90479},
+																							pos:        position{line: 2860, col: 10, offset: 90672},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2854, col: 9, offset: 90507},
+																						pos: position{line: 2861, col: 9, offset: 90700},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2854, col: 10, offset: 90508},
+																							pos:        position{line: 2861, col: 10, offset: 90701},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24470,27 +24507,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2857, col: 11, offset: 90720},
+																			pos: position{line: 2864, col: 11, offset: 90913},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2857, col: 11, offset: 90720},
+																					pos:        position{line: 2864, col: 11, offset: 90913},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2857, col: 19, offset: 90728},
+																					pos: position{line: 2864, col: 19, offset: 90921},
 																					expr: &seqExpr{
-																						pos: position{line: 2857, col: 21, offset: 90730},
+																						pos: position{line: 2864, col: 21, offset: 90923},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2857, col: 21, offset: 90730},
+																								pos: position{line: 2864, col: 21, offset: 90923},
 																								expr: &actionExpr{
-																									pos: position{line: 2881, col: 10, offset: 91342},
+																									pos: position{line: 2888, col: 10, offset: 91535},
 																									run: (*parser).callonExternalLink153,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2881, col: 10, offset: 91342},
+																										pos:        position{line: 2888, col: 10, offset: 91535},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24499,11 +24536,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2857, col: 28, offset: 90737},
+																								pos: position{line: 2864, col: 28, offset: 90930},
 																								expr: &notExpr{
-																									pos: position{line: 2900, col: 8, offset: 91690},
+																									pos: position{line: 2907, col: 8, offset: 91883},
 																									expr: &anyMatcher{
-																										line: 2900, col: 9, offset: 91691,
+																										line: 2907, col: 9, offset: 91884,
 																									},
 																								},
 																							},
@@ -24902,10 +24939,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2860, col: 11, offset: 90857},
+																			pos: position{line: 2867, col: 11, offset: 91050},
 																			run: (*parser).callonExternalLink236,
 																			expr: &litMatcher{
-																				pos:        position{line: 2860, col: 11, offset: 90857},
+																				pos:        position{line: 2867, col: 11, offset: 91050},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24971,10 +25008,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1590, col: 5, offset: 51497},
 																	expr: &actionExpr{
-																		pos: position{line: 2881, col: 10, offset: 91342},
+																		pos: position{line: 2888, col: 10, offset: 91535},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2881, col: 10, offset: 91342},
+																			pos:        position{line: 2888, col: 10, offset: 91535},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25141,12 +25178,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2885, col: 11, offset: 91403},
+																	pos: position{line: 2892, col: 11, offset: 91596},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2885, col: 11, offset: 91403},
+																		pos: position{line: 2892, col: 11, offset: 91596},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2885, col: 11, offset: 91403},
+																			pos:        position{line: 2892, col: 11, offset: 91596},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25189,28 +25226,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2903, col: 8, offset: 91740},
+																	pos: position{line: 2910, col: 8, offset: 91933},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2890, col: 12, offset: 91513},
+																			pos: position{line: 2897, col: 12, offset: 91706},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2890, col: 13, offset: 91514},
+																				pos: position{line: 2897, col: 13, offset: 91707},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 13, offset: 91514},
+																						pos:        position{line: 2897, col: 13, offset: 91707},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 20, offset: 91521},
+																						pos:        position{line: 2897, col: 20, offset: 91714},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 29, offset: 91530},
+																						pos:        position{line: 2897, col: 29, offset: 91723},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25219,9 +25256,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2900, col: 8, offset: 91690},
+																			pos: position{line: 2907, col: 8, offset: 91883},
 																			expr: &anyMatcher{
-																				line: 2900, col: 9, offset: 91691,
+																				line: 2907, col: 9, offset: 91884,
 																			},
 																		},
 																	},
@@ -25251,10 +25288,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1640, col: 5, offset: 53459},
 																	expr: &actionExpr{
-																		pos: position{line: 2881, col: 10, offset: 91342},
+																		pos: position{line: 2888, col: 10, offset: 91535},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2881, col: 10, offset: 91342},
+																			pos:        position{line: 2888, col: 10, offset: 91535},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25295,12 +25332,12 @@ var g = &grammar{
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2885, col: 11, offset: 91403},
+																	pos: position{line: 2892, col: 11, offset: 91596},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2885, col: 11, offset: 91403},
+																		pos: position{line: 2892, col: 11, offset: 91596},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2885, col: 11, offset: 91403},
+																			pos:        position{line: 2892, col: 11, offset: 91596},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25372,12 +25409,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2885, col: 11, offset: 91403},
+																		pos: position{line: 2892, col: 11, offset: 91596},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2885, col: 11, offset: 91403},
+																			pos: position{line: 2892, col: 11, offset: 91596},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2885, col: 11, offset: 91403},
+																				pos:        position{line: 2892, col: 11, offset: 91596},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -25421,28 +25458,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2903, col: 8, offset: 91740},
+																	pos: position{line: 2910, col: 8, offset: 91933},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2890, col: 12, offset: 91513},
+																			pos: position{line: 2897, col: 12, offset: 91706},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2890, col: 13, offset: 91514},
+																				pos: position{line: 2897, col: 13, offset: 91707},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 13, offset: 91514},
+																						pos:        position{line: 2897, col: 13, offset: 91707},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 20, offset: 91521},
+																						pos:        position{line: 2897, col: 20, offset: 91714},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 29, offset: 91530},
+																						pos:        position{line: 2897, col: 29, offset: 91723},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25451,9 +25488,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2900, col: 8, offset: 91690},
+																			pos: position{line: 2907, col: 8, offset: 91883},
 																			expr: &anyMatcher{
-																				line: 2900, col: 9, offset: 91691,
+																				line: 2907, col: 9, offset: 91884,
 																			},
 																		},
 																	},
@@ -25511,12 +25548,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2885, col: 11, offset: 91403},
+																	pos: position{line: 2892, col: 11, offset: 91596},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2885, col: 11, offset: 91403},
+																		pos: position{line: 2892, col: 11, offset: 91596},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2885, col: 11, offset: 91403},
+																			pos:        position{line: 2892, col: 11, offset: 91596},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25559,28 +25596,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2903, col: 8, offset: 91740},
+																	pos: position{line: 2910, col: 8, offset: 91933},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2890, col: 12, offset: 91513},
+																			pos: position{line: 2897, col: 12, offset: 91706},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2890, col: 13, offset: 91514},
+																				pos: position{line: 2897, col: 13, offset: 91707},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 13, offset: 91514},
+																						pos:        position{line: 2897, col: 13, offset: 91707},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 20, offset: 91521},
+																						pos:        position{line: 2897, col: 20, offset: 91714},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 29, offset: 91530},
+																						pos:        position{line: 2897, col: 29, offset: 91723},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25589,9 +25626,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2900, col: 8, offset: 91690},
+																			pos: position{line: 2907, col: 8, offset: 91883},
 																			expr: &anyMatcher{
-																				line: 2900, col: 9, offset: 91691,
+																				line: 2907, col: 9, offset: 91884,
 																			},
 																		},
 																	},
@@ -25682,28 +25719,28 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1676, col: 35, offset: 54540},
 																				expr: &choiceExpr{
-																					pos: position{line: 2903, col: 8, offset: 91740},
+																					pos: position{line: 2910, col: 8, offset: 91933},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2890, col: 12, offset: 91513},
+																							pos: position{line: 2897, col: 12, offset: 91706},
 																							run: (*parser).callonListElements167,
 																							expr: &choiceExpr{
-																								pos: position{line: 2890, col: 13, offset: 91514},
+																								pos: position{line: 2897, col: 13, offset: 91707},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2890, col: 13, offset: 91514},
+																										pos:        position{line: 2897, col: 13, offset: 91707},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2890, col: 20, offset: 91521},
+																										pos:        position{line: 2897, col: 20, offset: 91714},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2890, col: 29, offset: 91530},
+																										pos:        position{line: 2897, col: 29, offset: 91723},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -25712,9 +25749,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2900, col: 8, offset: 91690},
+																							pos: position{line: 2907, col: 8, offset: 91883},
 																							expr: &anyMatcher{
-																								line: 2900, col: 9, offset: 91691,
+																								line: 2907, col: 9, offset: 91884,
 																							},
 																						},
 																					},
@@ -25779,10 +25816,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 1694, col: 9, offset: 55045},
 																			expr: &actionExpr{
-																				pos: position{line: 2881, col: 10, offset: 91342},
+																				pos: position{line: 2888, col: 10, offset: 91535},
 																				run: (*parser).callonListElements188,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2881, col: 10, offset: 91342},
+																					pos:        position{line: 2888, col: 10, offset: 91535},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25791,28 +25828,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2903, col: 8, offset: 91740},
+																			pos: position{line: 2910, col: 8, offset: 91933},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2890, col: 12, offset: 91513},
+																					pos: position{line: 2897, col: 12, offset: 91706},
 																					run: (*parser).callonListElements191,
 																					expr: &choiceExpr{
-																						pos: position{line: 2890, col: 13, offset: 91514},
+																						pos: position{line: 2897, col: 13, offset: 91707},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2890, col: 13, offset: 91514},
+																								pos:        position{line: 2897, col: 13, offset: 91707},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2890, col: 20, offset: 91521},
+																								pos:        position{line: 2897, col: 20, offset: 91714},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2890, col: 29, offset: 91530},
+																								pos:        position{line: 2897, col: 29, offset: 91723},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25821,9 +25858,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2900, col: 8, offset: 91690},
+																					pos: position{line: 2907, col: 8, offset: 91883},
 																					expr: &anyMatcher{
-																						line: 2900, col: 9, offset: 91691,
+																						line: 2907, col: 9, offset: 91884,
 																					},
 																				},
 																			},
@@ -25837,18 +25874,18 @@ var g = &grammar{
 																					pos: position{line: 677, col: 14, offset: 21525},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2898, col: 11, offset: 91676},
+																							pos: position{line: 2905, col: 11, offset: 91869},
 																							expr: &anyMatcher{
-																								line: 2898, col: 13, offset: 91678,
+																								line: 2905, col: 13, offset: 91871,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 677, col: 21, offset: 21532},
 																							expr: &actionExpr{
-																								pos: position{line: 2881, col: 10, offset: 91342},
+																								pos: position{line: 2888, col: 10, offset: 91535},
 																								run: (*parser).callonListElements204,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2881, col: 10, offset: 91342},
+																									pos:        position{line: 2888, col: 10, offset: 91535},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25857,28 +25894,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2903, col: 8, offset: 91740},
+																							pos: position{line: 2910, col: 8, offset: 91933},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2890, col: 12, offset: 91513},
+																									pos: position{line: 2897, col: 12, offset: 91706},
 																									run: (*parser).callonListElements207,
 																									expr: &choiceExpr{
-																										pos: position{line: 2890, col: 13, offset: 91514},
+																										pos: position{line: 2897, col: 13, offset: 91707},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 13, offset: 91514},
+																												pos:        position{line: 2897, col: 13, offset: 91707},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 20, offset: 91521},
+																												pos:        position{line: 2897, col: 20, offset: 91714},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 29, offset: 91530},
+																												pos:        position{line: 2897, col: 29, offset: 91723},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25887,9 +25924,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2900, col: 8, offset: 91690},
+																									pos: position{line: 2907, col: 8, offset: 91883},
 																									expr: &anyMatcher{
-																										line: 2900, col: 9, offset: 91691,
+																										line: 2907, col: 9, offset: 91884,
 																									},
 																								},
 																							},
@@ -25908,12 +25945,12 @@ var g = &grammar{
 																	pos: position{line: 1701, col: 9, offset: 55193},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 11, offset: 91403},
+																			pos: position{line: 2892, col: 11, offset: 91596},
 																			run: (*parser).callonListElements216,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2885, col: 11, offset: 91403},
+																				pos: position{line: 2892, col: 11, offset: 91596},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2885, col: 11, offset: 91403},
+																					pos:        position{line: 2892, col: 11, offset: 91596},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25940,28 +25977,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2903, col: 8, offset: 91740},
+																			pos: position{line: 2910, col: 8, offset: 91933},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2890, col: 12, offset: 91513},
+																					pos: position{line: 2897, col: 12, offset: 91706},
 																					run: (*parser).callonListElements224,
 																					expr: &choiceExpr{
-																						pos: position{line: 2890, col: 13, offset: 91514},
+																						pos: position{line: 2897, col: 13, offset: 91707},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2890, col: 13, offset: 91514},
+																								pos:        position{line: 2897, col: 13, offset: 91707},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2890, col: 20, offset: 91521},
+																								pos:        position{line: 2897, col: 20, offset: 91714},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2890, col: 29, offset: 91530},
+																								pos:        position{line: 2897, col: 29, offset: 91723},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25970,9 +26007,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2900, col: 8, offset: 91690},
+																					pos: position{line: 2907, col: 8, offset: 91883},
 																					expr: &anyMatcher{
-																						line: 2900, col: 9, offset: 91691,
+																						line: 2907, col: 9, offset: 91884,
 																					},
 																				},
 																			},
@@ -26030,9 +26067,9 @@ var g = &grammar{
 					pos: position{line: 1499, col: 5, offset: 48679},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2898, col: 11, offset: 91676},
+							pos: position{line: 2905, col: 11, offset: 91869},
 							expr: &anyMatcher{
-								line: 2898, col: 13, offset: 91678,
+								line: 2905, col: 13, offset: 91871,
 							},
 						},
 						&labeledExpr{
@@ -26056,18 +26093,18 @@ var g = &grammar{
 															pos: position{line: 677, col: 14, offset: 21525},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2898, col: 11, offset: 91676},
+																	pos: position{line: 2905, col: 11, offset: 91869},
 																	expr: &anyMatcher{
-																		line: 2898, col: 13, offset: 91678,
+																		line: 2905, col: 13, offset: 91871,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 677, col: 21, offset: 21532},
 																	expr: &actionExpr{
-																		pos: position{line: 2881, col: 10, offset: 91342},
+																		pos: position{line: 2888, col: 10, offset: 91535},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2881, col: 10, offset: 91342},
+																			pos:        position{line: 2888, col: 10, offset: 91535},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26076,28 +26113,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2903, col: 8, offset: 91740},
+																	pos: position{line: 2910, col: 8, offset: 91933},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2890, col: 12, offset: 91513},
+																			pos: position{line: 2897, col: 12, offset: 91706},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2890, col: 13, offset: 91514},
+																				pos: position{line: 2897, col: 13, offset: 91707},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 13, offset: 91514},
+																						pos:        position{line: 2897, col: 13, offset: 91707},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 20, offset: 91521},
+																						pos:        position{line: 2897, col: 20, offset: 91714},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 29, offset: 91530},
+																						pos:        position{line: 2897, col: 29, offset: 91723},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26106,9 +26143,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2900, col: 8, offset: 91690},
+																			pos: position{line: 2907, col: 8, offset: 91883},
 																			expr: &anyMatcher{
-																				line: 2900, col: 9, offset: 91691,
+																				line: 2907, col: 9, offset: 91884,
 																			},
 																		},
 																	},
@@ -26141,10 +26178,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1590, col: 5, offset: 51497},
 																							expr: &actionExpr{
-																								pos: position{line: 2881, col: 10, offset: 91342},
+																								pos: position{line: 2888, col: 10, offset: 91535},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2881, col: 10, offset: 91342},
+																									pos:        position{line: 2888, col: 10, offset: 91535},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26311,12 +26348,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2885, col: 11, offset: 91403},
+																							pos: position{line: 2892, col: 11, offset: 91596},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2885, col: 11, offset: 91403},
+																								pos: position{line: 2892, col: 11, offset: 91596},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2885, col: 11, offset: 91403},
+																									pos:        position{line: 2892, col: 11, offset: 91596},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26359,28 +26396,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2903, col: 8, offset: 91740},
+																							pos: position{line: 2910, col: 8, offset: 91933},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2890, col: 12, offset: 91513},
+																									pos: position{line: 2897, col: 12, offset: 91706},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2890, col: 13, offset: 91514},
+																										pos: position{line: 2897, col: 13, offset: 91707},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 13, offset: 91514},
+																												pos:        position{line: 2897, col: 13, offset: 91707},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 20, offset: 91521},
+																												pos:        position{line: 2897, col: 20, offset: 91714},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 29, offset: 91530},
+																												pos:        position{line: 2897, col: 29, offset: 91723},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26389,9 +26426,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2900, col: 8, offset: 91690},
+																									pos: position{line: 2907, col: 8, offset: 91883},
 																									expr: &anyMatcher{
-																										line: 2900, col: 9, offset: 91691,
+																										line: 2907, col: 9, offset: 91884,
 																									},
 																								},
 																							},
@@ -26421,10 +26458,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1640, col: 5, offset: 53459},
 																							expr: &actionExpr{
-																								pos: position{line: 2881, col: 10, offset: 91342},
+																								pos: position{line: 2888, col: 10, offset: 91535},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2881, col: 10, offset: 91342},
+																									pos:        position{line: 2888, col: 10, offset: 91535},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26465,12 +26502,12 @@ var g = &grammar{
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2885, col: 11, offset: 91403},
+																							pos: position{line: 2892, col: 11, offset: 91596},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2885, col: 11, offset: 91403},
+																								pos: position{line: 2892, col: 11, offset: 91596},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2885, col: 11, offset: 91403},
+																									pos:        position{line: 2892, col: 11, offset: 91596},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26542,12 +26579,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2885, col: 11, offset: 91403},
+																								pos: position{line: 2892, col: 11, offset: 91596},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2885, col: 11, offset: 91403},
+																									pos: position{line: 2892, col: 11, offset: 91596},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2885, col: 11, offset: 91403},
+																										pos:        position{line: 2892, col: 11, offset: 91596},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -26591,28 +26628,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2903, col: 8, offset: 91740},
+																							pos: position{line: 2910, col: 8, offset: 91933},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2890, col: 12, offset: 91513},
+																									pos: position{line: 2897, col: 12, offset: 91706},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2890, col: 13, offset: 91514},
+																										pos: position{line: 2897, col: 13, offset: 91707},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 13, offset: 91514},
+																												pos:        position{line: 2897, col: 13, offset: 91707},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 20, offset: 91521},
+																												pos:        position{line: 2897, col: 20, offset: 91714},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 29, offset: 91530},
+																												pos:        position{line: 2897, col: 29, offset: 91723},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26621,9 +26658,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2900, col: 8, offset: 91690},
+																									pos: position{line: 2907, col: 8, offset: 91883},
 																									expr: &anyMatcher{
-																										line: 2900, col: 9, offset: 91691,
+																										line: 2907, col: 9, offset: 91884,
 																									},
 																								},
 																							},
@@ -26681,12 +26718,12 @@ var g = &grammar{
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2885, col: 11, offset: 91403},
+																							pos: position{line: 2892, col: 11, offset: 91596},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2885, col: 11, offset: 91403},
+																								pos: position{line: 2892, col: 11, offset: 91596},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2885, col: 11, offset: 91403},
+																									pos:        position{line: 2892, col: 11, offset: 91596},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26729,28 +26766,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2903, col: 8, offset: 91740},
+																							pos: position{line: 2910, col: 8, offset: 91933},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2890, col: 12, offset: 91513},
+																									pos: position{line: 2897, col: 12, offset: 91706},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2890, col: 13, offset: 91514},
+																										pos: position{line: 2897, col: 13, offset: 91707},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 13, offset: 91514},
+																												pos:        position{line: 2897, col: 13, offset: 91707},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 20, offset: 91521},
+																												pos:        position{line: 2897, col: 20, offset: 91714},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 29, offset: 91530},
+																												pos:        position{line: 2897, col: 29, offset: 91723},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26759,9 +26796,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2900, col: 8, offset: 91690},
+																									pos: position{line: 2907, col: 8, offset: 91883},
 																									expr: &anyMatcher{
-																										line: 2900, col: 9, offset: 91691,
+																										line: 2907, col: 9, offset: 91884,
 																									},
 																								},
 																							},
@@ -26852,28 +26889,28 @@ var g = &grammar{
 																									&notExpr{
 																										pos: position{line: 1676, col: 35, offset: 54540},
 																										expr: &choiceExpr{
-																											pos: position{line: 2903, col: 8, offset: 91740},
+																											pos: position{line: 2910, col: 8, offset: 91933},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2890, col: 12, offset: 91513},
+																													pos: position{line: 2897, col: 12, offset: 91706},
 																													run: (*parser).callonExtraListElement189,
 																													expr: &choiceExpr{
-																														pos: position{line: 2890, col: 13, offset: 91514},
+																														pos: position{line: 2897, col: 13, offset: 91707},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 13, offset: 91514},
+																																pos:        position{line: 2897, col: 13, offset: 91707},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 20, offset: 91521},
+																																pos:        position{line: 2897, col: 20, offset: 91714},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 29, offset: 91530},
+																																pos:        position{line: 2897, col: 29, offset: 91723},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -26882,9 +26919,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2900, col: 8, offset: 91690},
+																													pos: position{line: 2907, col: 8, offset: 91883},
 																													expr: &anyMatcher{
-																														line: 2900, col: 9, offset: 91691,
+																														line: 2907, col: 9, offset: 91884,
 																													},
 																												},
 																											},
@@ -26949,10 +26986,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 1694, col: 9, offset: 55045},
 																									expr: &actionExpr{
-																										pos: position{line: 2881, col: 10, offset: 91342},
+																										pos: position{line: 2888, col: 10, offset: 91535},
 																										run: (*parser).callonExtraListElement210,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2881, col: 10, offset: 91342},
+																											pos:        position{line: 2888, col: 10, offset: 91535},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26961,28 +26998,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2903, col: 8, offset: 91740},
+																									pos: position{line: 2910, col: 8, offset: 91933},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2890, col: 12, offset: 91513},
+																											pos: position{line: 2897, col: 12, offset: 91706},
 																											run: (*parser).callonExtraListElement213,
 																											expr: &choiceExpr{
-																												pos: position{line: 2890, col: 13, offset: 91514},
+																												pos: position{line: 2897, col: 13, offset: 91707},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2890, col: 13, offset: 91514},
+																														pos:        position{line: 2897, col: 13, offset: 91707},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2890, col: 20, offset: 91521},
+																														pos:        position{line: 2897, col: 20, offset: 91714},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2890, col: 29, offset: 91530},
+																														pos:        position{line: 2897, col: 29, offset: 91723},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26991,9 +27028,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2900, col: 8, offset: 91690},
+																											pos: position{line: 2907, col: 8, offset: 91883},
 																											expr: &anyMatcher{
-																												line: 2900, col: 9, offset: 91691,
+																												line: 2907, col: 9, offset: 91884,
 																											},
 																										},
 																									},
@@ -27007,18 +27044,18 @@ var g = &grammar{
 																											pos: position{line: 677, col: 14, offset: 21525},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2898, col: 11, offset: 91676},
+																													pos: position{line: 2905, col: 11, offset: 91869},
 																													expr: &anyMatcher{
-																														line: 2898, col: 13, offset: 91678,
+																														line: 2905, col: 13, offset: 91871,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 677, col: 21, offset: 21532},
 																													expr: &actionExpr{
-																														pos: position{line: 2881, col: 10, offset: 91342},
+																														pos: position{line: 2888, col: 10, offset: 91535},
 																														run: (*parser).callonExtraListElement226,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2881, col: 10, offset: 91342},
+																															pos:        position{line: 2888, col: 10, offset: 91535},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27027,28 +27064,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2903, col: 8, offset: 91740},
+																													pos: position{line: 2910, col: 8, offset: 91933},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2890, col: 12, offset: 91513},
+																															pos: position{line: 2897, col: 12, offset: 91706},
 																															run: (*parser).callonExtraListElement229,
 																															expr: &choiceExpr{
-																																pos: position{line: 2890, col: 13, offset: 91514},
+																																pos: position{line: 2897, col: 13, offset: 91707},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2890, col: 13, offset: 91514},
+																																		pos:        position{line: 2897, col: 13, offset: 91707},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2890, col: 20, offset: 91521},
+																																		pos:        position{line: 2897, col: 20, offset: 91714},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2890, col: 29, offset: 91530},
+																																		pos:        position{line: 2897, col: 29, offset: 91723},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -27057,9 +27094,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2900, col: 8, offset: 91690},
+																															pos: position{line: 2907, col: 8, offset: 91883},
 																															expr: &anyMatcher{
-																																line: 2900, col: 9, offset: 91691,
+																																line: 2907, col: 9, offset: 91884,
 																															},
 																														},
 																													},
@@ -27078,12 +27115,12 @@ var g = &grammar{
 																							pos: position{line: 1701, col: 9, offset: 55193},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 11, offset: 91403},
+																									pos: position{line: 2892, col: 11, offset: 91596},
 																									run: (*parser).callonExtraListElement238,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2885, col: 11, offset: 91403},
+																										pos: position{line: 2892, col: 11, offset: 91596},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2885, col: 11, offset: 91403},
+																											pos:        position{line: 2892, col: 11, offset: 91596},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27110,28 +27147,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2903, col: 8, offset: 91740},
+																									pos: position{line: 2910, col: 8, offset: 91933},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2890, col: 12, offset: 91513},
+																											pos: position{line: 2897, col: 12, offset: 91706},
 																											run: (*parser).callonExtraListElement246,
 																											expr: &choiceExpr{
-																												pos: position{line: 2890, col: 13, offset: 91514},
+																												pos: position{line: 2897, col: 13, offset: 91707},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2890, col: 13, offset: 91514},
+																														pos:        position{line: 2897, col: 13, offset: 91707},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2890, col: 20, offset: 91521},
+																														pos:        position{line: 2897, col: 20, offset: 91714},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2890, col: 29, offset: 91530},
+																														pos:        position{line: 2897, col: 29, offset: 91723},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27140,9 +27177,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2900, col: 8, offset: 91690},
+																											pos: position{line: 2907, col: 8, offset: 91883},
 																											expr: &anyMatcher{
-																												line: 2900, col: 9, offset: 91691,
+																												line: 2907, col: 9, offset: 91884,
 																											},
 																										},
 																									},
@@ -27203,10 +27240,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1590, col: 5, offset: 51497},
 																							expr: &actionExpr{
-																								pos: position{line: 2881, col: 10, offset: 91342},
+																								pos: position{line: 2888, col: 10, offset: 91535},
 																								run: (*parser).callonExtraListElement266,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2881, col: 10, offset: 91342},
+																									pos:        position{line: 2888, col: 10, offset: 91535},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27373,12 +27410,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2885, col: 11, offset: 91403},
+																							pos: position{line: 2892, col: 11, offset: 91596},
 																							run: (*parser).callonExtraListElement300,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2885, col: 11, offset: 91403},
+																								pos: position{line: 2892, col: 11, offset: 91596},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2885, col: 11, offset: 91403},
+																									pos:        position{line: 2892, col: 11, offset: 91596},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27421,28 +27458,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2903, col: 8, offset: 91740},
+																							pos: position{line: 2910, col: 8, offset: 91933},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2890, col: 12, offset: 91513},
+																									pos: position{line: 2897, col: 12, offset: 91706},
 																									run: (*parser).callonExtraListElement312,
 																									expr: &choiceExpr{
-																										pos: position{line: 2890, col: 13, offset: 91514},
+																										pos: position{line: 2897, col: 13, offset: 91707},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 13, offset: 91514},
+																												pos:        position{line: 2897, col: 13, offset: 91707},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 20, offset: 91521},
+																												pos:        position{line: 2897, col: 20, offset: 91714},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 29, offset: 91530},
+																												pos:        position{line: 2897, col: 29, offset: 91723},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27451,9 +27488,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2900, col: 8, offset: 91690},
+																									pos: position{line: 2907, col: 8, offset: 91883},
 																									expr: &anyMatcher{
-																										line: 2900, col: 9, offset: 91691,
+																										line: 2907, col: 9, offset: 91884,
 																									},
 																								},
 																							},
@@ -27483,10 +27520,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1640, col: 5, offset: 53459},
 																							expr: &actionExpr{
-																								pos: position{line: 2881, col: 10, offset: 91342},
+																								pos: position{line: 2888, col: 10, offset: 91535},
 																								run: (*parser).callonExtraListElement325,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2881, col: 10, offset: 91342},
+																									pos:        position{line: 2888, col: 10, offset: 91535},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27527,12 +27564,12 @@ var g = &grammar{
 																							run: (*parser).callonExtraListElement333,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2885, col: 11, offset: 91403},
+																							pos: position{line: 2892, col: 11, offset: 91596},
 																							run: (*parser).callonExtraListElement334,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2885, col: 11, offset: 91403},
+																								pos: position{line: 2892, col: 11, offset: 91596},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2885, col: 11, offset: 91403},
+																									pos:        position{line: 2892, col: 11, offset: 91596},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27604,12 +27641,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2885, col: 11, offset: 91403},
+																								pos: position{line: 2892, col: 11, offset: 91596},
 																								run: (*parser).callonExtraListElement351,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2885, col: 11, offset: 91403},
+																									pos: position{line: 2892, col: 11, offset: 91596},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2885, col: 11, offset: 91403},
+																										pos:        position{line: 2892, col: 11, offset: 91596},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27653,28 +27690,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2903, col: 8, offset: 91740},
+																							pos: position{line: 2910, col: 8, offset: 91933},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2890, col: 12, offset: 91513},
+																									pos: position{line: 2897, col: 12, offset: 91706},
 																									run: (*parser).callonExtraListElement363,
 																									expr: &choiceExpr{
-																										pos: position{line: 2890, col: 13, offset: 91514},
+																										pos: position{line: 2897, col: 13, offset: 91707},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 13, offset: 91514},
+																												pos:        position{line: 2897, col: 13, offset: 91707},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 20, offset: 91521},
+																												pos:        position{line: 2897, col: 20, offset: 91714},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 29, offset: 91530},
+																												pos:        position{line: 2897, col: 29, offset: 91723},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27683,9 +27720,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2900, col: 8, offset: 91690},
+																									pos: position{line: 2907, col: 8, offset: 91883},
 																									expr: &anyMatcher{
-																										line: 2900, col: 9, offset: 91691,
+																										line: 2907, col: 9, offset: 91884,
 																									},
 																								},
 																							},
@@ -27743,12 +27780,12 @@ var g = &grammar{
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2885, col: 11, offset: 91403},
+																							pos: position{line: 2892, col: 11, offset: 91596},
 																							run: (*parser).callonExtraListElement381,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2885, col: 11, offset: 91403},
+																								pos: position{line: 2892, col: 11, offset: 91596},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2885, col: 11, offset: 91403},
+																									pos:        position{line: 2892, col: 11, offset: 91596},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27791,28 +27828,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2903, col: 8, offset: 91740},
+																							pos: position{line: 2910, col: 8, offset: 91933},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2890, col: 12, offset: 91513},
+																									pos: position{line: 2897, col: 12, offset: 91706},
 																									run: (*parser).callonExtraListElement393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2890, col: 13, offset: 91514},
+																										pos: position{line: 2897, col: 13, offset: 91707},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 13, offset: 91514},
+																												pos:        position{line: 2897, col: 13, offset: 91707},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 20, offset: 91521},
+																												pos:        position{line: 2897, col: 20, offset: 91714},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 29, offset: 91530},
+																												pos:        position{line: 2897, col: 29, offset: 91723},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27821,9 +27858,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2900, col: 8, offset: 91690},
+																									pos: position{line: 2907, col: 8, offset: 91883},
 																									expr: &anyMatcher{
-																										line: 2900, col: 9, offset: 91691,
+																										line: 2907, col: 9, offset: 91884,
 																									},
 																								},
 																							},
@@ -27914,28 +27951,28 @@ var g = &grammar{
 																									&notExpr{
 																										pos: position{line: 1676, col: 35, offset: 54540},
 																										expr: &choiceExpr{
-																											pos: position{line: 2903, col: 8, offset: 91740},
+																											pos: position{line: 2910, col: 8, offset: 91933},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2890, col: 12, offset: 91513},
+																													pos: position{line: 2897, col: 12, offset: 91706},
 																													run: (*parser).callonExtraListElement422,
 																													expr: &choiceExpr{
-																														pos: position{line: 2890, col: 13, offset: 91514},
+																														pos: position{line: 2897, col: 13, offset: 91707},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 13, offset: 91514},
+																																pos:        position{line: 2897, col: 13, offset: 91707},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 20, offset: 91521},
+																																pos:        position{line: 2897, col: 20, offset: 91714},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 29, offset: 91530},
+																																pos:        position{line: 2897, col: 29, offset: 91723},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -27944,9 +27981,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2900, col: 8, offset: 91690},
+																													pos: position{line: 2907, col: 8, offset: 91883},
 																													expr: &anyMatcher{
-																														line: 2900, col: 9, offset: 91691,
+																														line: 2907, col: 9, offset: 91884,
 																													},
 																												},
 																											},
@@ -28011,10 +28048,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 1694, col: 9, offset: 55045},
 																									expr: &actionExpr{
-																										pos: position{line: 2881, col: 10, offset: 91342},
+																										pos: position{line: 2888, col: 10, offset: 91535},
 																										run: (*parser).callonExtraListElement443,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2881, col: 10, offset: 91342},
+																											pos:        position{line: 2888, col: 10, offset: 91535},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28023,28 +28060,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2903, col: 8, offset: 91740},
+																									pos: position{line: 2910, col: 8, offset: 91933},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2890, col: 12, offset: 91513},
+																											pos: position{line: 2897, col: 12, offset: 91706},
 																											run: (*parser).callonExtraListElement446,
 																											expr: &choiceExpr{
-																												pos: position{line: 2890, col: 13, offset: 91514},
+																												pos: position{line: 2897, col: 13, offset: 91707},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2890, col: 13, offset: 91514},
+																														pos:        position{line: 2897, col: 13, offset: 91707},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2890, col: 20, offset: 91521},
+																														pos:        position{line: 2897, col: 20, offset: 91714},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2890, col: 29, offset: 91530},
+																														pos:        position{line: 2897, col: 29, offset: 91723},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28053,9 +28090,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2900, col: 8, offset: 91690},
+																											pos: position{line: 2907, col: 8, offset: 91883},
 																											expr: &anyMatcher{
-																												line: 2900, col: 9, offset: 91691,
+																												line: 2907, col: 9, offset: 91884,
 																											},
 																										},
 																									},
@@ -28069,18 +28106,18 @@ var g = &grammar{
 																											pos: position{line: 677, col: 14, offset: 21525},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2898, col: 11, offset: 91676},
+																													pos: position{line: 2905, col: 11, offset: 91869},
 																													expr: &anyMatcher{
-																														line: 2898, col: 13, offset: 91678,
+																														line: 2905, col: 13, offset: 91871,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 677, col: 21, offset: 21532},
 																													expr: &actionExpr{
-																														pos: position{line: 2881, col: 10, offset: 91342},
+																														pos: position{line: 2888, col: 10, offset: 91535},
 																														run: (*parser).callonExtraListElement459,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2881, col: 10, offset: 91342},
+																															pos:        position{line: 2888, col: 10, offset: 91535},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -28089,28 +28126,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2903, col: 8, offset: 91740},
+																													pos: position{line: 2910, col: 8, offset: 91933},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2890, col: 12, offset: 91513},
+																															pos: position{line: 2897, col: 12, offset: 91706},
 																															run: (*parser).callonExtraListElement462,
 																															expr: &choiceExpr{
-																																pos: position{line: 2890, col: 13, offset: 91514},
+																																pos: position{line: 2897, col: 13, offset: 91707},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2890, col: 13, offset: 91514},
+																																		pos:        position{line: 2897, col: 13, offset: 91707},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2890, col: 20, offset: 91521},
+																																		pos:        position{line: 2897, col: 20, offset: 91714},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2890, col: 29, offset: 91530},
+																																		pos:        position{line: 2897, col: 29, offset: 91723},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -28119,9 +28156,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2900, col: 8, offset: 91690},
+																															pos: position{line: 2907, col: 8, offset: 91883},
 																															expr: &anyMatcher{
-																																line: 2900, col: 9, offset: 91691,
+																																line: 2907, col: 9, offset: 91884,
 																															},
 																														},
 																													},
@@ -28140,12 +28177,12 @@ var g = &grammar{
 																							pos: position{line: 1701, col: 9, offset: 55193},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 11, offset: 91403},
+																									pos: position{line: 2892, col: 11, offset: 91596},
 																									run: (*parser).callonExtraListElement471,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2885, col: 11, offset: 91403},
+																										pos: position{line: 2892, col: 11, offset: 91596},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2885, col: 11, offset: 91403},
+																											pos:        position{line: 2892, col: 11, offset: 91596},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28172,28 +28209,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2903, col: 8, offset: 91740},
+																									pos: position{line: 2910, col: 8, offset: 91933},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2890, col: 12, offset: 91513},
+																											pos: position{line: 2897, col: 12, offset: 91706},
 																											run: (*parser).callonExtraListElement479,
 																											expr: &choiceExpr{
-																												pos: position{line: 2890, col: 13, offset: 91514},
+																												pos: position{line: 2897, col: 13, offset: 91707},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2890, col: 13, offset: 91514},
+																														pos:        position{line: 2897, col: 13, offset: 91707},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2890, col: 20, offset: 91521},
+																														pos:        position{line: 2897, col: 20, offset: 91714},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2890, col: 29, offset: 91530},
+																														pos:        position{line: 2897, col: 29, offset: 91723},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28202,9 +28239,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2900, col: 8, offset: 91690},
+																											pos: position{line: 2907, col: 8, offset: 91883},
 																											expr: &anyMatcher{
-																												line: 2900, col: 9, offset: 91691,
+																												line: 2907, col: 9, offset: 91884,
 																											},
 																										},
 																									},
@@ -28253,12 +28290,12 @@ var g = &grammar{
 													pos:   position{line: 2488, col: 49, offset: 80255},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2827, col: 13, offset: 89868},
+														pos: position{line: 2834, col: 13, offset: 90061},
 														run: (*parser).callonExtraListElement493,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2827, col: 13, offset: 89868},
+															pos: position{line: 2834, col: 13, offset: 90061},
 															expr: &charClassMatcher{
-																pos:        position{line: 2827, col: 13, offset: 89868},
+																pos:        position{line: 2834, col: 13, offset: 90061},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -28268,28 +28305,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2903, col: 8, offset: 91740},
+													pos: position{line: 2910, col: 8, offset: 91933},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2890, col: 12, offset: 91513},
+															pos: position{line: 2897, col: 12, offset: 91706},
 															run: (*parser).callonExtraListElement497,
 															expr: &choiceExpr{
-																pos: position{line: 2890, col: 13, offset: 91514},
+																pos: position{line: 2897, col: 13, offset: 91707},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2890, col: 13, offset: 91514},
+																		pos:        position{line: 2897, col: 13, offset: 91707},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2890, col: 20, offset: 91521},
+																		pos:        position{line: 2897, col: 20, offset: 91714},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2890, col: 29, offset: 91530},
+																		pos:        position{line: 2897, col: 29, offset: 91723},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -28298,9 +28335,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2900, col: 8, offset: 91690},
+															pos: position{line: 2907, col: 8, offset: 91883},
 															expr: &anyMatcher{
-																line: 2900, col: 9, offset: 91691,
+																line: 2907, col: 9, offset: 91884,
 															},
 														},
 													},
@@ -28323,18 +28360,18 @@ var g = &grammar{
 															pos: position{line: 677, col: 14, offset: 21525},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2898, col: 11, offset: 91676},
+																	pos: position{line: 2905, col: 11, offset: 91869},
 																	expr: &anyMatcher{
-																		line: 2898, col: 13, offset: 91678,
+																		line: 2905, col: 13, offset: 91871,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 677, col: 21, offset: 21532},
 																	expr: &actionExpr{
-																		pos: position{line: 2881, col: 10, offset: 91342},
+																		pos: position{line: 2888, col: 10, offset: 91535},
 																		run: (*parser).callonExtraListElement512,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2881, col: 10, offset: 91342},
+																			pos:        position{line: 2888, col: 10, offset: 91535},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28343,28 +28380,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2903, col: 8, offset: 91740},
+																	pos: position{line: 2910, col: 8, offset: 91933},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2890, col: 12, offset: 91513},
+																			pos: position{line: 2897, col: 12, offset: 91706},
 																			run: (*parser).callonExtraListElement515,
 																			expr: &choiceExpr{
-																				pos: position{line: 2890, col: 13, offset: 91514},
+																				pos: position{line: 2897, col: 13, offset: 91707},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 13, offset: 91514},
+																						pos:        position{line: 2897, col: 13, offset: 91707},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 20, offset: 91521},
+																						pos:        position{line: 2897, col: 20, offset: 91714},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 29, offset: 91530},
+																						pos:        position{line: 2897, col: 29, offset: 91723},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -28373,9 +28410,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2900, col: 8, offset: 91690},
+																			pos: position{line: 2907, col: 8, offset: 91883},
 																			expr: &anyMatcher{
-																				line: 2900, col: 9, offset: 91691,
+																				line: 2907, col: 9, offset: 91884,
 																			},
 																		},
 																	},
@@ -28398,10 +28435,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1548, col: 31, offset: 50257},
 																expr: &actionExpr{
-																	pos: position{line: 2881, col: 10, offset: 91342},
+																	pos: position{line: 2888, col: 10, offset: 91535},
 																	run: (*parser).callonExtraListElement526,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2881, col: 10, offset: 91342},
+																		pos:        position{line: 2888, col: 10, offset: 91535},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -28410,25 +28447,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2890, col: 12, offset: 91513},
+																pos: position{line: 2897, col: 12, offset: 91706},
 																run: (*parser).callonExtraListElement528,
 																expr: &choiceExpr{
-																	pos: position{line: 2890, col: 13, offset: 91514},
+																	pos: position{line: 2897, col: 13, offset: 91707},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2890, col: 13, offset: 91514},
+																			pos:        position{line: 2897, col: 13, offset: 91707},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2890, col: 20, offset: 91521},
+																			pos:        position{line: 2897, col: 20, offset: 91714},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2890, col: 29, offset: 91530},
+																			pos:        position{line: 2897, col: 29, offset: 91723},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -28450,10 +28487,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1590, col: 5, offset: 51497},
 																	expr: &actionExpr{
-																		pos: position{line: 2881, col: 10, offset: 91342},
+																		pos: position{line: 2888, col: 10, offset: 91535},
 																		run: (*parser).callonExtraListElement537,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2881, col: 10, offset: 91342},
+																			pos:        position{line: 2888, col: 10, offset: 91535},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28620,12 +28657,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2885, col: 11, offset: 91403},
+																	pos: position{line: 2892, col: 11, offset: 91596},
 																	run: (*parser).callonExtraListElement571,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2885, col: 11, offset: 91403},
+																		pos: position{line: 2892, col: 11, offset: 91596},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2885, col: 11, offset: 91403},
+																			pos:        position{line: 2892, col: 11, offset: 91596},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28648,10 +28685,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1640, col: 5, offset: 53459},
 																	expr: &actionExpr{
-																		pos: position{line: 2881, col: 10, offset: 91342},
+																		pos: position{line: 2888, col: 10, offset: 91535},
 																		run: (*parser).callonExtraListElement578,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2881, col: 10, offset: 91342},
+																			pos:        position{line: 2888, col: 10, offset: 91535},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28692,12 +28729,12 @@ var g = &grammar{
 																	run: (*parser).callonExtraListElement586,
 																},
 																&actionExpr{
-																	pos: position{line: 2885, col: 11, offset: 91403},
+																	pos: position{line: 2892, col: 11, offset: 91596},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2885, col: 11, offset: 91403},
+																		pos: position{line: 2892, col: 11, offset: 91596},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2885, col: 11, offset: 91403},
+																			pos:        position{line: 2892, col: 11, offset: 91596},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28748,12 +28785,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2885, col: 11, offset: 91403},
+																	pos: position{line: 2892, col: 11, offset: 91596},
 																	run: (*parser).callonExtraListElement599,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2885, col: 11, offset: 91403},
+																		pos: position{line: 2892, col: 11, offset: 91596},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2885, col: 11, offset: 91403},
+																			pos:        position{line: 2892, col: 11, offset: 91596},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28840,28 +28877,28 @@ var g = &grammar{
 																					&notExpr{
 																						pos: position{line: 1676, col: 35, offset: 54540},
 																						expr: &choiceExpr{
-																							pos: position{line: 2903, col: 8, offset: 91740},
+																							pos: position{line: 2910, col: 8, offset: 91933},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2890, col: 12, offset: 91513},
+																									pos: position{line: 2897, col: 12, offset: 91706},
 																									run: (*parser).callonExtraListElement623,
 																									expr: &choiceExpr{
-																										pos: position{line: 2890, col: 13, offset: 91514},
+																										pos: position{line: 2897, col: 13, offset: 91707},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 13, offset: 91514},
+																												pos:        position{line: 2897, col: 13, offset: 91707},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 20, offset: 91521},
+																												pos:        position{line: 2897, col: 20, offset: 91714},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 29, offset: 91530},
+																												pos:        position{line: 2897, col: 29, offset: 91723},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28870,9 +28907,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2900, col: 8, offset: 91690},
+																									pos: position{line: 2907, col: 8, offset: 91883},
 																									expr: &anyMatcher{
-																										line: 2900, col: 9, offset: 91691,
+																										line: 2907, col: 9, offset: 91884,
 																									},
 																								},
 																							},
@@ -28981,10 +29018,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 743, col: 8, offset: 23745},
 																							expr: &actionExpr{
-																								pos: position{line: 2881, col: 10, offset: 91342},
+																								pos: position{line: 2888, col: 10, offset: 91535},
 																								run: (*parser).callonExtraListElement654,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2881, col: 10, offset: 91342},
+																									pos:        position{line: 2888, col: 10, offset: 91535},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28993,28 +29030,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2903, col: 8, offset: 91740},
+																							pos: position{line: 2910, col: 8, offset: 91933},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2890, col: 12, offset: 91513},
+																									pos: position{line: 2897, col: 12, offset: 91706},
 																									run: (*parser).callonExtraListElement657,
 																									expr: &choiceExpr{
-																										pos: position{line: 2890, col: 13, offset: 91514},
+																										pos: position{line: 2897, col: 13, offset: 91707},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 13, offset: 91514},
+																												pos:        position{line: 2897, col: 13, offset: 91707},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 20, offset: 91521},
+																												pos:        position{line: 2897, col: 20, offset: 91714},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 29, offset: 91530},
+																												pos:        position{line: 2897, col: 29, offset: 91723},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29023,9 +29060,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2900, col: 8, offset: 91690},
+																									pos: position{line: 2907, col: 8, offset: 91883},
 																									expr: &anyMatcher{
-																										line: 2900, col: 9, offset: 91691,
+																										line: 2907, col: 9, offset: 91884,
 																									},
 																								},
 																							},
@@ -29070,10 +29107,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 750, col: 8, offset: 23993},
 																							expr: &actionExpr{
-																								pos: position{line: 2881, col: 10, offset: 91342},
+																								pos: position{line: 2888, col: 10, offset: 91535},
 																								run: (*parser).callonExtraListElement673,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2881, col: 10, offset: 91342},
+																									pos:        position{line: 2888, col: 10, offset: 91535},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29082,28 +29119,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2903, col: 8, offset: 91740},
+																							pos: position{line: 2910, col: 8, offset: 91933},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2890, col: 12, offset: 91513},
+																									pos: position{line: 2897, col: 12, offset: 91706},
 																									run: (*parser).callonExtraListElement676,
 																									expr: &choiceExpr{
-																										pos: position{line: 2890, col: 13, offset: 91514},
+																										pos: position{line: 2897, col: 13, offset: 91707},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 13, offset: 91514},
+																												pos:        position{line: 2897, col: 13, offset: 91707},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 20, offset: 91521},
+																												pos:        position{line: 2897, col: 20, offset: 91714},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 29, offset: 91530},
+																												pos:        position{line: 2897, col: 29, offset: 91723},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29112,9 +29149,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2900, col: 8, offset: 91690},
+																									pos: position{line: 2907, col: 8, offset: 91883},
 																									expr: &anyMatcher{
-																										line: 2900, col: 9, offset: 91691,
+																										line: 2907, col: 9, offset: 91884,
 																									},
 																								},
 																							},
@@ -29155,10 +29192,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 761, col: 52, offset: 24405},
 																							expr: &actionExpr{
-																								pos: position{line: 2881, col: 10, offset: 91342},
+																								pos: position{line: 2888, col: 10, offset: 91535},
 																								run: (*parser).callonExtraListElement691,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2881, col: 10, offset: 91342},
+																									pos:        position{line: 2888, col: 10, offset: 91535},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29167,28 +29204,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2903, col: 8, offset: 91740},
+																							pos: position{line: 2910, col: 8, offset: 91933},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2890, col: 12, offset: 91513},
+																									pos: position{line: 2897, col: 12, offset: 91706},
 																									run: (*parser).callonExtraListElement694,
 																									expr: &choiceExpr{
-																										pos: position{line: 2890, col: 13, offset: 91514},
+																										pos: position{line: 2897, col: 13, offset: 91707},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 13, offset: 91514},
+																												pos:        position{line: 2897, col: 13, offset: 91707},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 20, offset: 91521},
+																												pos:        position{line: 2897, col: 20, offset: 91714},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 29, offset: 91530},
+																												pos:        position{line: 2897, col: 29, offset: 91723},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29197,9 +29234,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2900, col: 8, offset: 91690},
+																									pos: position{line: 2907, col: 8, offset: 91883},
 																									expr: &anyMatcher{
-																										line: 2900, col: 9, offset: 91691,
+																										line: 2907, col: 9, offset: 91884,
 																									},
 																								},
 																							},
@@ -29244,10 +29281,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 757, col: 8, offset: 24239},
 																							expr: &actionExpr{
-																								pos: position{line: 2881, col: 10, offset: 91342},
+																								pos: position{line: 2888, col: 10, offset: 91535},
 																								run: (*parser).callonExtraListElement710,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2881, col: 10, offset: 91342},
+																									pos:        position{line: 2888, col: 10, offset: 91535},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29256,28 +29293,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2903, col: 8, offset: 91740},
+																							pos: position{line: 2910, col: 8, offset: 91933},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2890, col: 12, offset: 91513},
+																									pos: position{line: 2897, col: 12, offset: 91706},
 																									run: (*parser).callonExtraListElement713,
 																									expr: &choiceExpr{
-																										pos: position{line: 2890, col: 13, offset: 91514},
+																										pos: position{line: 2897, col: 13, offset: 91707},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 13, offset: 91514},
+																												pos:        position{line: 2897, col: 13, offset: 91707},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 20, offset: 91521},
+																												pos:        position{line: 2897, col: 20, offset: 91714},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 29, offset: 91530},
+																												pos:        position{line: 2897, col: 29, offset: 91723},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29286,9 +29323,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2900, col: 8, offset: 91690},
+																									pos: position{line: 2907, col: 8, offset: 91883},
 																									expr: &anyMatcher{
-																										line: 2900, col: 9, offset: 91691,
+																										line: 2907, col: 9, offset: 91884,
 																									},
 																								},
 																							},
@@ -29333,10 +29370,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 772, col: 8, offset: 24782},
 																							expr: &actionExpr{
-																								pos: position{line: 2881, col: 10, offset: 91342},
+																								pos: position{line: 2888, col: 10, offset: 91535},
 																								run: (*parser).callonExtraListElement729,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2881, col: 10, offset: 91342},
+																									pos:        position{line: 2888, col: 10, offset: 91535},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29345,28 +29382,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2903, col: 8, offset: 91740},
+																							pos: position{line: 2910, col: 8, offset: 91933},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2890, col: 12, offset: 91513},
+																									pos: position{line: 2897, col: 12, offset: 91706},
 																									run: (*parser).callonExtraListElement732,
 																									expr: &choiceExpr{
-																										pos: position{line: 2890, col: 13, offset: 91514},
+																										pos: position{line: 2897, col: 13, offset: 91707},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 13, offset: 91514},
+																												pos:        position{line: 2897, col: 13, offset: 91707},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 20, offset: 91521},
+																												pos:        position{line: 2897, col: 20, offset: 91714},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 29, offset: 91530},
+																												pos:        position{line: 2897, col: 29, offset: 91723},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29375,9 +29412,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2900, col: 8, offset: 91690},
+																									pos: position{line: 2907, col: 8, offset: 91883},
 																									expr: &anyMatcher{
-																										line: 2900, col: 9, offset: 91691,
+																										line: 2907, col: 9, offset: 91884,
 																									},
 																								},
 																							},
@@ -29422,10 +29459,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 786, col: 8, offset: 25258},
 																							expr: &actionExpr{
-																								pos: position{line: 2881, col: 10, offset: 91342},
+																								pos: position{line: 2888, col: 10, offset: 91535},
 																								run: (*parser).callonExtraListElement748,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2881, col: 10, offset: 91342},
+																									pos:        position{line: 2888, col: 10, offset: 91535},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29434,28 +29471,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2903, col: 8, offset: 91740},
+																							pos: position{line: 2910, col: 8, offset: 91933},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2890, col: 12, offset: 91513},
+																									pos: position{line: 2897, col: 12, offset: 91706},
 																									run: (*parser).callonExtraListElement751,
 																									expr: &choiceExpr{
-																										pos: position{line: 2890, col: 13, offset: 91514},
+																										pos: position{line: 2897, col: 13, offset: 91707},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 13, offset: 91514},
+																												pos:        position{line: 2897, col: 13, offset: 91707},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 20, offset: 91521},
+																												pos:        position{line: 2897, col: 20, offset: 91714},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 29, offset: 91530},
+																												pos:        position{line: 2897, col: 29, offset: 91723},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29464,9 +29501,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2900, col: 8, offset: 91690},
+																									pos: position{line: 2907, col: 8, offset: 91883},
 																									expr: &anyMatcher{
-																										line: 2900, col: 9, offset: 91691,
+																										line: 2907, col: 9, offset: 91884,
 																									},
 																								},
 																							},
@@ -29511,10 +29548,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 793, col: 8, offset: 25510},
 																							expr: &actionExpr{
-																								pos: position{line: 2881, col: 10, offset: 91342},
+																								pos: position{line: 2888, col: 10, offset: 91535},
 																								run: (*parser).callonExtraListElement767,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2881, col: 10, offset: 91342},
+																									pos:        position{line: 2888, col: 10, offset: 91535},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29523,28 +29560,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2903, col: 8, offset: 91740},
+																							pos: position{line: 2910, col: 8, offset: 91933},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2890, col: 12, offset: 91513},
+																									pos: position{line: 2897, col: 12, offset: 91706},
 																									run: (*parser).callonExtraListElement770,
 																									expr: &choiceExpr{
-																										pos: position{line: 2890, col: 13, offset: 91514},
+																										pos: position{line: 2897, col: 13, offset: 91707},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 13, offset: 91514},
+																												pos:        position{line: 2897, col: 13, offset: 91707},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 20, offset: 91521},
+																												pos:        position{line: 2897, col: 20, offset: 91714},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 29, offset: 91530},
+																												pos:        position{line: 2897, col: 29, offset: 91723},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29553,9 +29590,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2900, col: 8, offset: 91690},
+																									pos: position{line: 2907, col: 8, offset: 91883},
 																									expr: &anyMatcher{
-																										line: 2900, col: 9, offset: 91691,
+																										line: 2907, col: 9, offset: 91884,
 																									},
 																								},
 																							},
@@ -29600,10 +29637,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 800, col: 8, offset: 25760},
 																							expr: &actionExpr{
-																								pos: position{line: 2881, col: 10, offset: 91342},
+																								pos: position{line: 2888, col: 10, offset: 91535},
 																								run: (*parser).callonExtraListElement786,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2881, col: 10, offset: 91342},
+																									pos:        position{line: 2888, col: 10, offset: 91535},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29612,28 +29649,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2903, col: 8, offset: 91740},
+																							pos: position{line: 2910, col: 8, offset: 91933},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2890, col: 12, offset: 91513},
+																									pos: position{line: 2897, col: 12, offset: 91706},
 																									run: (*parser).callonExtraListElement789,
 																									expr: &choiceExpr{
-																										pos: position{line: 2890, col: 13, offset: 91514},
+																										pos: position{line: 2897, col: 13, offset: 91707},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 13, offset: 91514},
+																												pos:        position{line: 2897, col: 13, offset: 91707},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 20, offset: 91521},
+																												pos:        position{line: 2897, col: 20, offset: 91714},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 29, offset: 91530},
+																												pos:        position{line: 2897, col: 29, offset: 91723},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29642,9 +29679,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2900, col: 8, offset: 91690},
+																									pos: position{line: 2907, col: 8, offset: 91883},
 																									expr: &anyMatcher{
-																										line: 2900, col: 9, offset: 91691,
+																										line: 2907, col: 9, offset: 91884,
 																									},
 																								},
 																							},
@@ -29689,10 +29726,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 807, col: 8, offset: 26006},
 																							expr: &actionExpr{
-																								pos: position{line: 2881, col: 10, offset: 91342},
+																								pos: position{line: 2888, col: 10, offset: 91535},
 																								run: (*parser).callonExtraListElement805,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2881, col: 10, offset: 91342},
+																									pos:        position{line: 2888, col: 10, offset: 91535},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29701,28 +29738,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2903, col: 8, offset: 91740},
+																							pos: position{line: 2910, col: 8, offset: 91933},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2890, col: 12, offset: 91513},
+																									pos: position{line: 2897, col: 12, offset: 91706},
 																									run: (*parser).callonExtraListElement808,
 																									expr: &choiceExpr{
-																										pos: position{line: 2890, col: 13, offset: 91514},
+																										pos: position{line: 2897, col: 13, offset: 91707},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 13, offset: 91514},
+																												pos:        position{line: 2897, col: 13, offset: 91707},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 20, offset: 91521},
+																												pos:        position{line: 2897, col: 20, offset: 91714},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 29, offset: 91530},
+																												pos:        position{line: 2897, col: 29, offset: 91723},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29731,9 +29768,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2900, col: 8, offset: 91690},
+																									pos: position{line: 2907, col: 8, offset: 91883},
 																									expr: &anyMatcher{
-																										line: 2900, col: 9, offset: 91691,
+																										line: 2907, col: 9, offset: 91884,
 																									},
 																								},
 																							},
@@ -29752,12 +29789,12 @@ var g = &grammar{
 													pos:   position{line: 1524, col: 5, offset: 49625},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2831, col: 14, offset: 89935},
+														pos: position{line: 2838, col: 14, offset: 90128},
 														run: (*parser).callonExtraListElement816,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2831, col: 14, offset: 89935},
+															pos: position{line: 2838, col: 14, offset: 90128},
 															expr: &charClassMatcher{
-																pos:        position{line: 2831, col: 14, offset: 89935},
+																pos:        position{line: 2838, col: 14, offset: 90128},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -29767,28 +29804,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2903, col: 8, offset: 91740},
+													pos: position{line: 2910, col: 8, offset: 91933},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2890, col: 12, offset: 91513},
+															pos: position{line: 2897, col: 12, offset: 91706},
 															run: (*parser).callonExtraListElement820,
 															expr: &choiceExpr{
-																pos: position{line: 2890, col: 13, offset: 91514},
+																pos: position{line: 2897, col: 13, offset: 91707},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2890, col: 13, offset: 91514},
+																		pos:        position{line: 2897, col: 13, offset: 91707},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2890, col: 20, offset: 91521},
+																		pos:        position{line: 2897, col: 20, offset: 91714},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2890, col: 29, offset: 91530},
+																		pos:        position{line: 2897, col: 29, offset: 91723},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -29797,9 +29834,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2900, col: 8, offset: 91690},
+															pos: position{line: 2907, col: 8, offset: 91883},
 															expr: &anyMatcher{
-																line: 2900, col: 9, offset: 91691,
+																line: 2907, col: 9, offset: 91884,
 															},
 														},
 													},
@@ -29834,10 +29871,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 1541, col: 13, offset: 50049},
 											expr: &actionExpr{
-												pos: position{line: 2881, col: 10, offset: 91342},
+												pos: position{line: 2888, col: 10, offset: 91535},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2881, col: 10, offset: 91342},
+													pos:        position{line: 2888, col: 10, offset: 91535},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -29846,25 +29883,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2890, col: 12, offset: 91513},
+											pos: position{line: 2897, col: 12, offset: 91706},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2890, col: 13, offset: 91514},
+												pos: position{line: 2897, col: 13, offset: 91707},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2890, col: 13, offset: 91514},
+														pos:        position{line: 2897, col: 13, offset: 91707},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2890, col: 20, offset: 91521},
+														pos:        position{line: 2897, col: 20, offset: 91714},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2890, col: 29, offset: 91530},
+														pos:        position{line: 2897, col: 29, offset: 91723},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -29885,10 +29922,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1548, col: 31, offset: 50257},
 							expr: &actionExpr{
-								pos: position{line: 2881, col: 10, offset: 91342},
+								pos: position{line: 2888, col: 10, offset: 91535},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2881, col: 10, offset: 91342},
+									pos:        position{line: 2888, col: 10, offset: 91535},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -29897,25 +29934,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2890, col: 12, offset: 91513},
+							pos: position{line: 2897, col: 12, offset: 91706},
 							run: (*parser).callonListContinuation18,
 							expr: &choiceExpr{
-								pos: position{line: 2890, col: 13, offset: 91514},
+								pos: position{line: 2897, col: 13, offset: 91707},
 								alternatives: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2890, col: 13, offset: 91514},
+										pos:        position{line: 2897, col: 13, offset: 91707},
 										val:        "\n",
 										ignoreCase: false,
 										want:       "\"\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2890, col: 20, offset: 91521},
+										pos:        position{line: 2897, col: 20, offset: 91714},
 										val:        "\r\n",
 										ignoreCase: false,
 										want:       "\"\\r\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2890, col: 29, offset: 91530},
+										pos:        position{line: 2897, col: 29, offset: 91723},
 										val:        "\r",
 										ignoreCase: false,
 										want:       "\"\\r\"",
@@ -29948,9 +29985,9 @@ var g = &grammar{
 					pos: position{line: 1551, col: 5, offset: 50344},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2898, col: 11, offset: 91676},
+							pos: position{line: 2905, col: 11, offset: 91869},
 							expr: &anyMatcher{
-								line: 2898, col: 13, offset: 91678,
+								line: 2905, col: 13, offset: 91871,
 							},
 						},
 						&notExpr{
@@ -29976,10 +30013,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1590, col: 5, offset: 51497},
 																	expr: &actionExpr{
-																		pos: position{line: 2881, col: 10, offset: 91342},
+																		pos: position{line: 2888, col: 10, offset: 91535},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2881, col: 10, offset: 91342},
+																			pos:        position{line: 2888, col: 10, offset: 91535},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30146,12 +30183,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2885, col: 11, offset: 91403},
+																	pos: position{line: 2892, col: 11, offset: 91596},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2885, col: 11, offset: 91403},
+																		pos: position{line: 2892, col: 11, offset: 91596},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2885, col: 11, offset: 91403},
+																			pos:        position{line: 2892, col: 11, offset: 91596},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30194,28 +30231,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2903, col: 8, offset: 91740},
+																	pos: position{line: 2910, col: 8, offset: 91933},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2890, col: 12, offset: 91513},
+																			pos: position{line: 2897, col: 12, offset: 91706},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2890, col: 13, offset: 91514},
+																				pos: position{line: 2897, col: 13, offset: 91707},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 13, offset: 91514},
+																						pos:        position{line: 2897, col: 13, offset: 91707},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 20, offset: 91521},
+																						pos:        position{line: 2897, col: 20, offset: 91714},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 29, offset: 91530},
+																						pos:        position{line: 2897, col: 29, offset: 91723},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30224,9 +30261,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2900, col: 8, offset: 91690},
+																			pos: position{line: 2907, col: 8, offset: 91883},
 																			expr: &anyMatcher{
-																				line: 2900, col: 9, offset: 91691,
+																				line: 2907, col: 9, offset: 91884,
 																			},
 																		},
 																	},
@@ -30256,10 +30293,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1640, col: 5, offset: 53459},
 																	expr: &actionExpr{
-																		pos: position{line: 2881, col: 10, offset: 91342},
+																		pos: position{line: 2888, col: 10, offset: 91535},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2881, col: 10, offset: 91342},
+																			pos:        position{line: 2888, col: 10, offset: 91535},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30300,12 +30337,12 @@ var g = &grammar{
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2885, col: 11, offset: 91403},
+																	pos: position{line: 2892, col: 11, offset: 91596},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2885, col: 11, offset: 91403},
+																		pos: position{line: 2892, col: 11, offset: 91596},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2885, col: 11, offset: 91403},
+																			pos:        position{line: 2892, col: 11, offset: 91596},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30377,12 +30414,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2885, col: 11, offset: 91403},
+																		pos: position{line: 2892, col: 11, offset: 91596},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2885, col: 11, offset: 91403},
+																			pos: position{line: 2892, col: 11, offset: 91596},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2885, col: 11, offset: 91403},
+																				pos:        position{line: 2892, col: 11, offset: 91596},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -30426,28 +30463,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2903, col: 8, offset: 91740},
+																	pos: position{line: 2910, col: 8, offset: 91933},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2890, col: 12, offset: 91513},
+																			pos: position{line: 2897, col: 12, offset: 91706},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2890, col: 13, offset: 91514},
+																				pos: position{line: 2897, col: 13, offset: 91707},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 13, offset: 91514},
+																						pos:        position{line: 2897, col: 13, offset: 91707},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 20, offset: 91521},
+																						pos:        position{line: 2897, col: 20, offset: 91714},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 29, offset: 91530},
+																						pos:        position{line: 2897, col: 29, offset: 91723},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30456,9 +30493,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2900, col: 8, offset: 91690},
+																			pos: position{line: 2907, col: 8, offset: 91883},
 																			expr: &anyMatcher{
-																				line: 2900, col: 9, offset: 91691,
+																				line: 2907, col: 9, offset: 91884,
 																			},
 																		},
 																	},
@@ -30516,12 +30553,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2885, col: 11, offset: 91403},
+																	pos: position{line: 2892, col: 11, offset: 91596},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2885, col: 11, offset: 91403},
+																		pos: position{line: 2892, col: 11, offset: 91596},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2885, col: 11, offset: 91403},
+																			pos:        position{line: 2892, col: 11, offset: 91596},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30564,28 +30601,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2903, col: 8, offset: 91740},
+																	pos: position{line: 2910, col: 8, offset: 91933},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2890, col: 12, offset: 91513},
+																			pos: position{line: 2897, col: 12, offset: 91706},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2890, col: 13, offset: 91514},
+																				pos: position{line: 2897, col: 13, offset: 91707},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 13, offset: 91514},
+																						pos:        position{line: 2897, col: 13, offset: 91707},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 20, offset: 91521},
+																						pos:        position{line: 2897, col: 20, offset: 91714},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 29, offset: 91530},
+																						pos:        position{line: 2897, col: 29, offset: 91723},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30594,9 +30631,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2900, col: 8, offset: 91690},
+																			pos: position{line: 2907, col: 8, offset: 91883},
 																			expr: &anyMatcher{
-																				line: 2900, col: 9, offset: 91691,
+																				line: 2907, col: 9, offset: 91884,
 																			},
 																		},
 																	},
@@ -30687,28 +30724,28 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1676, col: 35, offset: 54540},
 																				expr: &choiceExpr{
-																					pos: position{line: 2903, col: 8, offset: 91740},
+																					pos: position{line: 2910, col: 8, offset: 91933},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2890, col: 12, offset: 91513},
+																							pos: position{line: 2897, col: 12, offset: 91706},
 																							run: (*parser).callonListContinuationElement169,
 																							expr: &choiceExpr{
-																								pos: position{line: 2890, col: 13, offset: 91514},
+																								pos: position{line: 2897, col: 13, offset: 91707},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2890, col: 13, offset: 91514},
+																										pos:        position{line: 2897, col: 13, offset: 91707},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2890, col: 20, offset: 91521},
+																										pos:        position{line: 2897, col: 20, offset: 91714},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2890, col: 29, offset: 91530},
+																										pos:        position{line: 2897, col: 29, offset: 91723},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -30717,9 +30754,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2900, col: 8, offset: 91690},
+																							pos: position{line: 2907, col: 8, offset: 91883},
 																							expr: &anyMatcher{
-																								line: 2900, col: 9, offset: 91691,
+																								line: 2907, col: 9, offset: 91884,
 																							},
 																						},
 																					},
@@ -30784,10 +30821,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 1694, col: 9, offset: 55045},
 																			expr: &actionExpr{
-																				pos: position{line: 2881, col: 10, offset: 91342},
+																				pos: position{line: 2888, col: 10, offset: 91535},
 																				run: (*parser).callonListContinuationElement190,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2881, col: 10, offset: 91342},
+																					pos:        position{line: 2888, col: 10, offset: 91535},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30796,28 +30833,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2903, col: 8, offset: 91740},
+																			pos: position{line: 2910, col: 8, offset: 91933},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2890, col: 12, offset: 91513},
+																					pos: position{line: 2897, col: 12, offset: 91706},
 																					run: (*parser).callonListContinuationElement193,
 																					expr: &choiceExpr{
-																						pos: position{line: 2890, col: 13, offset: 91514},
+																						pos: position{line: 2897, col: 13, offset: 91707},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2890, col: 13, offset: 91514},
+																								pos:        position{line: 2897, col: 13, offset: 91707},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2890, col: 20, offset: 91521},
+																								pos:        position{line: 2897, col: 20, offset: 91714},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2890, col: 29, offset: 91530},
+																								pos:        position{line: 2897, col: 29, offset: 91723},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30826,9 +30863,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2900, col: 8, offset: 91690},
+																					pos: position{line: 2907, col: 8, offset: 91883},
 																					expr: &anyMatcher{
-																						line: 2900, col: 9, offset: 91691,
+																						line: 2907, col: 9, offset: 91884,
 																					},
 																				},
 																			},
@@ -30842,18 +30879,18 @@ var g = &grammar{
 																					pos: position{line: 677, col: 14, offset: 21525},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2898, col: 11, offset: 91676},
+																							pos: position{line: 2905, col: 11, offset: 91869},
 																							expr: &anyMatcher{
-																								line: 2898, col: 13, offset: 91678,
+																								line: 2905, col: 13, offset: 91871,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 677, col: 21, offset: 21532},
 																							expr: &actionExpr{
-																								pos: position{line: 2881, col: 10, offset: 91342},
+																								pos: position{line: 2888, col: 10, offset: 91535},
 																								run: (*parser).callonListContinuationElement206,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2881, col: 10, offset: 91342},
+																									pos:        position{line: 2888, col: 10, offset: 91535},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30862,28 +30899,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2903, col: 8, offset: 91740},
+																							pos: position{line: 2910, col: 8, offset: 91933},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2890, col: 12, offset: 91513},
+																									pos: position{line: 2897, col: 12, offset: 91706},
 																									run: (*parser).callonListContinuationElement209,
 																									expr: &choiceExpr{
-																										pos: position{line: 2890, col: 13, offset: 91514},
+																										pos: position{line: 2897, col: 13, offset: 91707},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 13, offset: 91514},
+																												pos:        position{line: 2897, col: 13, offset: 91707},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 20, offset: 91521},
+																												pos:        position{line: 2897, col: 20, offset: 91714},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 29, offset: 91530},
+																												pos:        position{line: 2897, col: 29, offset: 91723},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30892,9 +30929,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2900, col: 8, offset: 91690},
+																									pos: position{line: 2907, col: 8, offset: 91883},
 																									expr: &anyMatcher{
-																										line: 2900, col: 9, offset: 91691,
+																										line: 2907, col: 9, offset: 91884,
 																									},
 																								},
 																							},
@@ -30913,12 +30950,12 @@ var g = &grammar{
 																	pos: position{line: 1701, col: 9, offset: 55193},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2885, col: 11, offset: 91403},
+																			pos: position{line: 2892, col: 11, offset: 91596},
 																			run: (*parser).callonListContinuationElement218,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2885, col: 11, offset: 91403},
+																				pos: position{line: 2892, col: 11, offset: 91596},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2885, col: 11, offset: 91403},
+																					pos:        position{line: 2892, col: 11, offset: 91596},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30945,28 +30982,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2903, col: 8, offset: 91740},
+																			pos: position{line: 2910, col: 8, offset: 91933},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2890, col: 12, offset: 91513},
+																					pos: position{line: 2897, col: 12, offset: 91706},
 																					run: (*parser).callonListContinuationElement226,
 																					expr: &choiceExpr{
-																						pos: position{line: 2890, col: 13, offset: 91514},
+																						pos: position{line: 2897, col: 13, offset: 91707},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2890, col: 13, offset: 91514},
+																								pos:        position{line: 2897, col: 13, offset: 91707},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2890, col: 20, offset: 91521},
+																								pos:        position{line: 2897, col: 20, offset: 91714},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2890, col: 29, offset: 91530},
+																								pos:        position{line: 2897, col: 29, offset: 91723},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30975,9 +31012,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2900, col: 8, offset: 91690},
+																					pos: position{line: 2907, col: 8, offset: 91883},
 																					expr: &anyMatcher{
-																						line: 2900, col: 9, offset: 91691,
+																						line: 2907, col: 9, offset: 91884,
 																					},
 																				},
 																			},
@@ -31018,18 +31055,18 @@ var g = &grammar{
 											pos: position{line: 677, col: 14, offset: 21525},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2898, col: 11, offset: 91676},
+													pos: position{line: 2905, col: 11, offset: 91869},
 													expr: &anyMatcher{
-														line: 2898, col: 13, offset: 91678,
+														line: 2905, col: 13, offset: 91871,
 													},
 												},
 												&zeroOrMoreExpr{
 													pos: position{line: 677, col: 21, offset: 21532},
 													expr: &actionExpr{
-														pos: position{line: 2881, col: 10, offset: 91342},
+														pos: position{line: 2888, col: 10, offset: 91535},
 														run: (*parser).callonListContinuationElement243,
 														expr: &charClassMatcher{
-															pos:        position{line: 2881, col: 10, offset: 91342},
+															pos:        position{line: 2888, col: 10, offset: 91535},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31038,28 +31075,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2903, col: 8, offset: 91740},
+													pos: position{line: 2910, col: 8, offset: 91933},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2890, col: 12, offset: 91513},
+															pos: position{line: 2897, col: 12, offset: 91706},
 															run: (*parser).callonListContinuationElement246,
 															expr: &choiceExpr{
-																pos: position{line: 2890, col: 13, offset: 91514},
+																pos: position{line: 2897, col: 13, offset: 91707},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2890, col: 13, offset: 91514},
+																		pos:        position{line: 2897, col: 13, offset: 91707},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2890, col: 20, offset: 91521},
+																		pos:        position{line: 2897, col: 20, offset: 91714},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2890, col: 29, offset: 91530},
+																		pos:        position{line: 2897, col: 29, offset: 91723},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31068,9 +31105,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2900, col: 8, offset: 91690},
+															pos: position{line: 2907, col: 8, offset: 91883},
 															expr: &anyMatcher{
-																line: 2900, col: 9, offset: 91691,
+																line: 2907, col: 9, offset: 91884,
 															},
 														},
 													},
@@ -31135,10 +31172,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 359, col: 49, offset: 10879},
 													expr: &actionExpr{
-														pos: position{line: 2881, col: 10, offset: 91342},
+														pos: position{line: 2888, col: 10, offset: 91535},
 														run: (*parser).callonListContinuationElement265,
 														expr: &charClassMatcher{
-															pos:        position{line: 2881, col: 10, offset: 91342},
+															pos:        position{line: 2888, col: 10, offset: 91535},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31147,28 +31184,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2903, col: 8, offset: 91740},
+													pos: position{line: 2910, col: 8, offset: 91933},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2890, col: 12, offset: 91513},
+															pos: position{line: 2897, col: 12, offset: 91706},
 															run: (*parser).callonListContinuationElement268,
 															expr: &choiceExpr{
-																pos: position{line: 2890, col: 13, offset: 91514},
+																pos: position{line: 2897, col: 13, offset: 91707},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2890, col: 13, offset: 91514},
+																		pos:        position{line: 2897, col: 13, offset: 91707},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2890, col: 20, offset: 91521},
+																		pos:        position{line: 2897, col: 20, offset: 91714},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2890, col: 29, offset: 91530},
+																		pos:        position{line: 2897, col: 29, offset: 91723},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31177,9 +31214,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2900, col: 8, offset: 91690},
+															pos: position{line: 2907, col: 8, offset: 91883},
 															expr: &anyMatcher{
-																line: 2900, col: 9, offset: 91691,
+																line: 2907, col: 9, offset: 91884,
 															},
 														},
 													},
@@ -31240,10 +31277,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 361, col: 39, offset: 11000},
 													expr: &actionExpr{
-														pos: position{line: 2881, col: 10, offset: 91342},
+														pos: position{line: 2888, col: 10, offset: 91535},
 														run: (*parser).callonListContinuationElement286,
 														expr: &charClassMatcher{
-															pos:        position{line: 2881, col: 10, offset: 91342},
+															pos:        position{line: 2888, col: 10, offset: 91535},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31252,28 +31289,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2903, col: 8, offset: 91740},
+													pos: position{line: 2910, col: 8, offset: 91933},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2890, col: 12, offset: 91513},
+															pos: position{line: 2897, col: 12, offset: 91706},
 															run: (*parser).callonListContinuationElement289,
 															expr: &choiceExpr{
-																pos: position{line: 2890, col: 13, offset: 91514},
+																pos: position{line: 2897, col: 13, offset: 91707},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2890, col: 13, offset: 91514},
+																		pos:        position{line: 2897, col: 13, offset: 91707},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2890, col: 20, offset: 91521},
+																		pos:        position{line: 2897, col: 20, offset: 91714},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2890, col: 29, offset: 91530},
+																		pos:        position{line: 2897, col: 29, offset: 91723},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31282,9 +31319,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2900, col: 8, offset: 91690},
+															pos: position{line: 2907, col: 8, offset: 91883},
 															expr: &anyMatcher{
-																line: 2900, col: 9, offset: 91691,
+																line: 2907, col: 9, offset: 91884,
 															},
 														},
 													},
@@ -31335,10 +31372,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 743, col: 8, offset: 23745},
 																expr: &actionExpr{
-																	pos: position{line: 2881, col: 10, offset: 91342},
+																	pos: position{line: 2888, col: 10, offset: 91535},
 																	run: (*parser).callonListContinuationElement307,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2881, col: 10, offset: 91342},
+																		pos:        position{line: 2888, col: 10, offset: 91535},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -31347,28 +31384,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2903, col: 8, offset: 91740},
+																pos: position{line: 2910, col: 8, offset: 91933},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2890, col: 12, offset: 91513},
+																		pos: position{line: 2897, col: 12, offset: 91706},
 																		run: (*parser).callonListContinuationElement310,
 																		expr: &choiceExpr{
-																			pos: position{line: 2890, col: 13, offset: 91514},
+																			pos: position{line: 2897, col: 13, offset: 91707},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2890, col: 13, offset: 91514},
+																					pos:        position{line: 2897, col: 13, offset: 91707},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2890, col: 20, offset: 91521},
+																					pos:        position{line: 2897, col: 20, offset: 91714},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2890, col: 29, offset: 91530},
+																					pos:        position{line: 2897, col: 29, offset: 91723},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -31377,9 +31414,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2900, col: 8, offset: 91690},
+																		pos: position{line: 2907, col: 8, offset: 91883},
 																		expr: &anyMatcher{
-																			line: 2900, col: 9, offset: 91691,
+																			line: 2907, col: 9, offset: 91884,
 																		},
 																	},
 																},
@@ -31440,10 +31477,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 743, col: 8, offset: 23745},
 																								expr: &actionExpr{
-																									pos: position{line: 2881, col: 10, offset: 91342},
+																									pos: position{line: 2888, col: 10, offset: 91535},
 																									run: (*parser).callonListContinuationElement332,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2881, col: 10, offset: 91342},
+																										pos:        position{line: 2888, col: 10, offset: 91535},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -31452,28 +31489,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2903, col: 8, offset: 91740},
+																								pos: position{line: 2910, col: 8, offset: 91933},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2890, col: 12, offset: 91513},
+																										pos: position{line: 2897, col: 12, offset: 91706},
 																										run: (*parser).callonListContinuationElement335,
 																										expr: &choiceExpr{
-																											pos: position{line: 2890, col: 13, offset: 91514},
+																											pos: position{line: 2897, col: 13, offset: 91707},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2890, col: 13, offset: 91514},
+																													pos:        position{line: 2897, col: 13, offset: 91707},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2890, col: 20, offset: 91521},
+																													pos:        position{line: 2897, col: 20, offset: 91714},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2890, col: 29, offset: 91530},
+																													pos:        position{line: 2897, col: 29, offset: 91723},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -31482,9 +31519,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2900, col: 8, offset: 91690},
+																										pos: position{line: 2907, col: 8, offset: 91883},
 																										expr: &anyMatcher{
-																											line: 2900, col: 9, offset: 91691,
+																											line: 2907, col: 9, offset: 91884,
 																										},
 																									},
 																								},
@@ -31493,9 +31530,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2900, col: 8, offset: 91690},
+																					pos: position{line: 2907, col: 8, offset: 91883},
 																					expr: &anyMatcher{
-																						line: 2900, col: 9, offset: 91691,
+																						line: 2907, col: 9, offset: 91884,
 																					},
 																				},
 																			},
@@ -31511,21 +31548,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2898, col: 11, offset: 91676},
+																						pos: position{line: 2905, col: 11, offset: 91869},
 																						expr: &anyMatcher{
-																							line: 2898, col: 13, offset: 91678,
+																							line: 2905, col: 13, offset: 91871,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2827, col: 13, offset: 89868},
+																							pos: position{line: 2834, col: 13, offset: 90061},
 																							run: (*parser).callonListContinuationElement350,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2827, col: 13, offset: 89868},
+																								pos: position{line: 2834, col: 13, offset: 90061},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2827, col: 13, offset: 89868},
+																									pos:        position{line: 2834, col: 13, offset: 90061},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31535,28 +31572,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2903, col: 8, offset: 91740},
+																						pos: position{line: 2910, col: 8, offset: 91933},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2890, col: 12, offset: 91513},
+																								pos: position{line: 2897, col: 12, offset: 91706},
 																								run: (*parser).callonListContinuationElement354,
 																								expr: &choiceExpr{
-																									pos: position{line: 2890, col: 13, offset: 91514},
+																									pos: position{line: 2897, col: 13, offset: 91707},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 13, offset: 91514},
+																											pos:        position{line: 2897, col: 13, offset: 91707},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 20, offset: 91521},
+																											pos:        position{line: 2897, col: 20, offset: 91714},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 29, offset: 91530},
+																											pos:        position{line: 2897, col: 29, offset: 91723},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31565,9 +31602,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2900, col: 8, offset: 91690},
+																								pos: position{line: 2907, col: 8, offset: 91883},
 																								expr: &anyMatcher{
-																									line: 2900, col: 9, offset: 91691,
+																									line: 2907, col: 9, offset: 91884,
 																								},
 																							},
 																						},
@@ -31623,10 +31660,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 743, col: 8, offset: 23745},
 																			expr: &actionExpr{
-																				pos: position{line: 2881, col: 10, offset: 91342},
+																				pos: position{line: 2888, col: 10, offset: 91535},
 																				run: (*parser).callonListContinuationElement372,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2881, col: 10, offset: 91342},
+																					pos:        position{line: 2888, col: 10, offset: 91535},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -31635,28 +31672,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2903, col: 8, offset: 91740},
+																			pos: position{line: 2910, col: 8, offset: 91933},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2890, col: 12, offset: 91513},
+																					pos: position{line: 2897, col: 12, offset: 91706},
 																					run: (*parser).callonListContinuationElement375,
 																					expr: &choiceExpr{
-																						pos: position{line: 2890, col: 13, offset: 91514},
+																						pos: position{line: 2897, col: 13, offset: 91707},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2890, col: 13, offset: 91514},
+																								pos:        position{line: 2897, col: 13, offset: 91707},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2890, col: 20, offset: 91521},
+																								pos:        position{line: 2897, col: 20, offset: 91714},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2890, col: 29, offset: 91530},
+																								pos:        position{line: 2897, col: 29, offset: 91723},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31665,9 +31702,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2900, col: 8, offset: 91690},
+																					pos: position{line: 2907, col: 8, offset: 91883},
 																					expr: &anyMatcher{
-																						line: 2900, col: 9, offset: 91691,
+																						line: 2907, col: 9, offset: 91884,
 																					},
 																				},
 																			},
@@ -31676,9 +31713,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2900, col: 8, offset: 91690},
+																pos: position{line: 2907, col: 8, offset: 91883},
 																expr: &anyMatcher{
-																	line: 2900, col: 9, offset: 91691,
+																	line: 2907, col: 9, offset: 91884,
 																},
 															},
 														},
@@ -31733,10 +31770,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 750, col: 8, offset: 23993},
 																	expr: &actionExpr{
-																		pos: position{line: 2881, col: 10, offset: 91342},
+																		pos: position{line: 2888, col: 10, offset: 91535},
 																		run: (*parser).callonListContinuationElement396,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2881, col: 10, offset: 91342},
+																			pos:        position{line: 2888, col: 10, offset: 91535},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31745,28 +31782,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2903, col: 8, offset: 91740},
+																	pos: position{line: 2910, col: 8, offset: 91933},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2890, col: 12, offset: 91513},
+																			pos: position{line: 2897, col: 12, offset: 91706},
 																			run: (*parser).callonListContinuationElement399,
 																			expr: &choiceExpr{
-																				pos: position{line: 2890, col: 13, offset: 91514},
+																				pos: position{line: 2897, col: 13, offset: 91707},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 13, offset: 91514},
+																						pos:        position{line: 2897, col: 13, offset: 91707},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 20, offset: 91521},
+																						pos:        position{line: 2897, col: 20, offset: 91714},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 29, offset: 91530},
+																						pos:        position{line: 2897, col: 29, offset: 91723},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31775,9 +31812,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2900, col: 8, offset: 91690},
+																			pos: position{line: 2907, col: 8, offset: 91883},
 																			expr: &anyMatcher{
-																				line: 2900, col: 9, offset: 91691,
+																				line: 2907, col: 9, offset: 91884,
 																			},
 																		},
 																	},
@@ -31849,10 +31886,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 750, col: 8, offset: 23993},
 																											expr: &actionExpr{
-																												pos: position{line: 2881, col: 10, offset: 91342},
+																												pos: position{line: 2888, col: 10, offset: 91535},
 																												run: (*parser).callonListContinuationElement424,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2881, col: 10, offset: 91342},
+																													pos:        position{line: 2888, col: 10, offset: 91535},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31861,28 +31898,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2903, col: 8, offset: 91740},
+																											pos: position{line: 2910, col: 8, offset: 91933},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2890, col: 12, offset: 91513},
+																													pos: position{line: 2897, col: 12, offset: 91706},
 																													run: (*parser).callonListContinuationElement427,
 																													expr: &choiceExpr{
-																														pos: position{line: 2890, col: 13, offset: 91514},
+																														pos: position{line: 2897, col: 13, offset: 91707},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 13, offset: 91514},
+																																pos:        position{line: 2897, col: 13, offset: 91707},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 20, offset: 91521},
+																																pos:        position{line: 2897, col: 20, offset: 91714},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 29, offset: 91530},
+																																pos:        position{line: 2897, col: 29, offset: 91723},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31891,9 +31928,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2900, col: 8, offset: 91690},
+																													pos: position{line: 2907, col: 8, offset: 91883},
 																													expr: &anyMatcher{
-																														line: 2900, col: 9, offset: 91691,
+																														line: 2907, col: 9, offset: 91884,
 																													},
 																												},
 																											},
@@ -31909,9 +31946,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2900, col: 8, offset: 91690},
+																					pos: position{line: 2907, col: 8, offset: 91883},
 																					expr: &anyMatcher{
-																						line: 2900, col: 9, offset: 91691,
+																						line: 2907, col: 9, offset: 91884,
 																					},
 																				},
 																			},
@@ -31927,21 +31964,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2898, col: 11, offset: 91676},
+																						pos: position{line: 2905, col: 11, offset: 91869},
 																						expr: &anyMatcher{
-																							line: 2898, col: 13, offset: 91678,
+																							line: 2905, col: 13, offset: 91871,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2827, col: 13, offset: 89868},
+																							pos: position{line: 2834, col: 13, offset: 90061},
 																							run: (*parser).callonListContinuationElement443,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2827, col: 13, offset: 89868},
+																								pos: position{line: 2834, col: 13, offset: 90061},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2827, col: 13, offset: 89868},
+																									pos:        position{line: 2834, col: 13, offset: 90061},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31951,28 +31988,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2903, col: 8, offset: 91740},
+																						pos: position{line: 2910, col: 8, offset: 91933},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2890, col: 12, offset: 91513},
+																								pos: position{line: 2897, col: 12, offset: 91706},
 																								run: (*parser).callonListContinuationElement447,
 																								expr: &choiceExpr{
-																									pos: position{line: 2890, col: 13, offset: 91514},
+																									pos: position{line: 2897, col: 13, offset: 91707},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 13, offset: 91514},
+																											pos:        position{line: 2897, col: 13, offset: 91707},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 20, offset: 91521},
+																											pos:        position{line: 2897, col: 20, offset: 91714},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 29, offset: 91530},
+																											pos:        position{line: 2897, col: 29, offset: 91723},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31981,9 +32018,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2900, col: 8, offset: 91690},
+																								pos: position{line: 2907, col: 8, offset: 91883},
 																								expr: &anyMatcher{
-																									line: 2900, col: 9, offset: 91691,
+																									line: 2907, col: 9, offset: 91884,
 																								},
 																							},
 																						},
@@ -32048,10 +32085,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 750, col: 8, offset: 23993},
 																							expr: &actionExpr{
-																								pos: position{line: 2881, col: 10, offset: 91342},
+																								pos: position{line: 2888, col: 10, offset: 91535},
 																								run: (*parser).callonListContinuationElement468,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2881, col: 10, offset: 91342},
+																									pos:        position{line: 2888, col: 10, offset: 91535},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32060,28 +32097,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2903, col: 8, offset: 91740},
+																							pos: position{line: 2910, col: 8, offset: 91933},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2890, col: 12, offset: 91513},
+																									pos: position{line: 2897, col: 12, offset: 91706},
 																									run: (*parser).callonListContinuationElement471,
 																									expr: &choiceExpr{
-																										pos: position{line: 2890, col: 13, offset: 91514},
+																										pos: position{line: 2897, col: 13, offset: 91707},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 13, offset: 91514},
+																												pos:        position{line: 2897, col: 13, offset: 91707},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 20, offset: 91521},
+																												pos:        position{line: 2897, col: 20, offset: 91714},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 29, offset: 91530},
+																												pos:        position{line: 2897, col: 29, offset: 91723},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32090,9 +32127,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2900, col: 8, offset: 91690},
+																									pos: position{line: 2907, col: 8, offset: 91883},
 																									expr: &anyMatcher{
-																										line: 2900, col: 9, offset: 91691,
+																										line: 2907, col: 9, offset: 91884,
 																									},
 																								},
 																							},
@@ -32108,9 +32145,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2900, col: 8, offset: 91690},
+																	pos: position{line: 2907, col: 8, offset: 91883},
 																	expr: &anyMatcher{
-																		line: 2900, col: 9, offset: 91691,
+																		line: 2907, col: 9, offset: 91884,
 																	},
 																},
 															},
@@ -32162,10 +32199,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 761, col: 52, offset: 24405},
 																	expr: &actionExpr{
-																		pos: position{line: 2881, col: 10, offset: 91342},
+																		pos: position{line: 2888, col: 10, offset: 91535},
 																		run: (*parser).callonListContinuationElement492,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2881, col: 10, offset: 91342},
+																			pos:        position{line: 2888, col: 10, offset: 91535},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32174,28 +32211,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2903, col: 8, offset: 91740},
+																	pos: position{line: 2910, col: 8, offset: 91933},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2890, col: 12, offset: 91513},
+																			pos: position{line: 2897, col: 12, offset: 91706},
 																			run: (*parser).callonListContinuationElement495,
 																			expr: &choiceExpr{
-																				pos: position{line: 2890, col: 13, offset: 91514},
+																				pos: position{line: 2897, col: 13, offset: 91707},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 13, offset: 91514},
+																						pos:        position{line: 2897, col: 13, offset: 91707},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 20, offset: 91521},
+																						pos:        position{line: 2897, col: 20, offset: 91714},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 29, offset: 91530},
+																						pos:        position{line: 2897, col: 29, offset: 91723},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32204,9 +32241,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2900, col: 8, offset: 91690},
+																			pos: position{line: 2907, col: 8, offset: 91883},
 																			expr: &anyMatcher{
-																				line: 2900, col: 9, offset: 91691,
+																				line: 2907, col: 9, offset: 91884,
 																			},
 																		},
 																	},
@@ -32240,10 +32277,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 964, col: 40, offset: 30213},
 																					expr: &actionExpr{
-																						pos: position{line: 2881, col: 10, offset: 91342},
+																						pos: position{line: 2888, col: 10, offset: 91535},
 																						run: (*parser).callonListContinuationElement510,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2881, col: 10, offset: 91342},
+																							pos:        position{line: 2888, col: 10, offset: 91535},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -32252,28 +32289,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2903, col: 8, offset: 91740},
+																					pos: position{line: 2910, col: 8, offset: 91933},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2890, col: 12, offset: 91513},
+																							pos: position{line: 2897, col: 12, offset: 91706},
 																							run: (*parser).callonListContinuationElement513,
 																							expr: &choiceExpr{
-																								pos: position{line: 2890, col: 13, offset: 91514},
+																								pos: position{line: 2897, col: 13, offset: 91707},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2890, col: 13, offset: 91514},
+																										pos:        position{line: 2897, col: 13, offset: 91707},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2890, col: 20, offset: 91521},
+																										pos:        position{line: 2897, col: 20, offset: 91714},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2890, col: 29, offset: 91530},
+																										pos:        position{line: 2897, col: 29, offset: 91723},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -32282,9 +32319,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2900, col: 8, offset: 91690},
+																							pos: position{line: 2907, col: 8, offset: 91883},
 																							expr: &anyMatcher{
-																								line: 2900, col: 9, offset: 91691,
+																								line: 2907, col: 9, offset: 91884,
 																							},
 																						},
 																					},
@@ -32302,21 +32339,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2898, col: 11, offset: 91676},
+																						pos: position{line: 2905, col: 11, offset: 91869},
 																						expr: &anyMatcher{
-																							line: 2898, col: 13, offset: 91678,
+																							line: 2905, col: 13, offset: 91871,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2827, col: 13, offset: 89868},
+																							pos: position{line: 2834, col: 13, offset: 90061},
 																							run: (*parser).callonListContinuationElement526,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2827, col: 13, offset: 89868},
+																								pos: position{line: 2834, col: 13, offset: 90061},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2827, col: 13, offset: 89868},
+																									pos:        position{line: 2834, col: 13, offset: 90061},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32326,28 +32363,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2903, col: 8, offset: 91740},
+																						pos: position{line: 2910, col: 8, offset: 91933},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2890, col: 12, offset: 91513},
+																								pos: position{line: 2897, col: 12, offset: 91706},
 																								run: (*parser).callonListContinuationElement530,
 																								expr: &choiceExpr{
-																									pos: position{line: 2890, col: 13, offset: 91514},
+																									pos: position{line: 2897, col: 13, offset: 91707},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 13, offset: 91514},
+																											pos:        position{line: 2897, col: 13, offset: 91707},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 20, offset: 91521},
+																											pos:        position{line: 2897, col: 20, offset: 91714},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 29, offset: 91530},
+																											pos:        position{line: 2897, col: 29, offset: 91723},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32356,9 +32393,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2900, col: 8, offset: 91690},
+																								pos: position{line: 2907, col: 8, offset: 91883},
 																								expr: &anyMatcher{
-																									line: 2900, col: 9, offset: 91691,
+																									line: 2907, col: 9, offset: 91884,
 																								},
 																							},
 																						},
@@ -32386,10 +32423,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 964, col: 40, offset: 30213},
 																expr: &actionExpr{
-																	pos: position{line: 2881, col: 10, offset: 91342},
+																	pos: position{line: 2888, col: 10, offset: 91535},
 																	run: (*parser).callonListContinuationElement541,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2881, col: 10, offset: 91342},
+																		pos:        position{line: 2888, col: 10, offset: 91535},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -32398,28 +32435,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2903, col: 8, offset: 91740},
+																pos: position{line: 2910, col: 8, offset: 91933},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2890, col: 12, offset: 91513},
+																		pos: position{line: 2897, col: 12, offset: 91706},
 																		run: (*parser).callonListContinuationElement544,
 																		expr: &choiceExpr{
-																			pos: position{line: 2890, col: 13, offset: 91514},
+																			pos: position{line: 2897, col: 13, offset: 91707},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2890, col: 13, offset: 91514},
+																					pos:        position{line: 2897, col: 13, offset: 91707},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2890, col: 20, offset: 91521},
+																					pos:        position{line: 2897, col: 20, offset: 91714},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2890, col: 29, offset: 91530},
+																					pos:        position{line: 2897, col: 29, offset: 91723},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -32428,9 +32465,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2900, col: 8, offset: 91690},
+																		pos: position{line: 2907, col: 8, offset: 91883},
 																		expr: &anyMatcher{
-																			line: 2900, col: 9, offset: 91691,
+																			line: 2907, col: 9, offset: 91884,
 																		},
 																	},
 																},
@@ -32487,10 +32524,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 757, col: 8, offset: 24239},
 																	expr: &actionExpr{
-																		pos: position{line: 2881, col: 10, offset: 91342},
+																		pos: position{line: 2888, col: 10, offset: 91535},
 																		run: (*parser).callonListContinuationElement563,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2881, col: 10, offset: 91342},
+																			pos:        position{line: 2888, col: 10, offset: 91535},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32499,28 +32536,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2903, col: 8, offset: 91740},
+																	pos: position{line: 2910, col: 8, offset: 91933},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2890, col: 12, offset: 91513},
+																			pos: position{line: 2897, col: 12, offset: 91706},
 																			run: (*parser).callonListContinuationElement566,
 																			expr: &choiceExpr{
-																				pos: position{line: 2890, col: 13, offset: 91514},
+																				pos: position{line: 2897, col: 13, offset: 91707},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 13, offset: 91514},
+																						pos:        position{line: 2897, col: 13, offset: 91707},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 20, offset: 91521},
+																						pos:        position{line: 2897, col: 20, offset: 91714},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 29, offset: 91530},
+																						pos:        position{line: 2897, col: 29, offset: 91723},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32529,9 +32566,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2900, col: 8, offset: 91690},
+																			pos: position{line: 2907, col: 8, offset: 91883},
 																			expr: &anyMatcher{
-																				line: 2900, col: 9, offset: 91691,
+																				line: 2907, col: 9, offset: 91884,
 																			},
 																		},
 																	},
@@ -32603,10 +32640,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 757, col: 8, offset: 24239},
 																											expr: &actionExpr{
-																												pos: position{line: 2881, col: 10, offset: 91342},
+																												pos: position{line: 2888, col: 10, offset: 91535},
 																												run: (*parser).callonListContinuationElement591,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2881, col: 10, offset: 91342},
+																													pos:        position{line: 2888, col: 10, offset: 91535},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32615,28 +32652,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2903, col: 8, offset: 91740},
+																											pos: position{line: 2910, col: 8, offset: 91933},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2890, col: 12, offset: 91513},
+																													pos: position{line: 2897, col: 12, offset: 91706},
 																													run: (*parser).callonListContinuationElement594,
 																													expr: &choiceExpr{
-																														pos: position{line: 2890, col: 13, offset: 91514},
+																														pos: position{line: 2897, col: 13, offset: 91707},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 13, offset: 91514},
+																																pos:        position{line: 2897, col: 13, offset: 91707},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 20, offset: 91521},
+																																pos:        position{line: 2897, col: 20, offset: 91714},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 29, offset: 91530},
+																																pos:        position{line: 2897, col: 29, offset: 91723},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32645,9 +32682,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2900, col: 8, offset: 91690},
+																													pos: position{line: 2907, col: 8, offset: 91883},
 																													expr: &anyMatcher{
-																														line: 2900, col: 9, offset: 91691,
+																														line: 2907, col: 9, offset: 91884,
 																													},
 																												},
 																											},
@@ -32663,9 +32700,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2900, col: 8, offset: 91690},
+																					pos: position{line: 2907, col: 8, offset: 91883},
 																					expr: &anyMatcher{
-																						line: 2900, col: 9, offset: 91691,
+																						line: 2907, col: 9, offset: 91884,
 																					},
 																				},
 																			},
@@ -32681,21 +32718,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2898, col: 11, offset: 91676},
+																						pos: position{line: 2905, col: 11, offset: 91869},
 																						expr: &anyMatcher{
-																							line: 2898, col: 13, offset: 91678,
+																							line: 2905, col: 13, offset: 91871,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2827, col: 13, offset: 89868},
+																							pos: position{line: 2834, col: 13, offset: 90061},
 																							run: (*parser).callonListContinuationElement610,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2827, col: 13, offset: 89868},
+																								pos: position{line: 2834, col: 13, offset: 90061},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2827, col: 13, offset: 89868},
+																									pos:        position{line: 2834, col: 13, offset: 90061},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32705,28 +32742,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2903, col: 8, offset: 91740},
+																						pos: position{line: 2910, col: 8, offset: 91933},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2890, col: 12, offset: 91513},
+																								pos: position{line: 2897, col: 12, offset: 91706},
 																								run: (*parser).callonListContinuationElement614,
 																								expr: &choiceExpr{
-																									pos: position{line: 2890, col: 13, offset: 91514},
+																									pos: position{line: 2897, col: 13, offset: 91707},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 13, offset: 91514},
+																											pos:        position{line: 2897, col: 13, offset: 91707},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 20, offset: 91521},
+																											pos:        position{line: 2897, col: 20, offset: 91714},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 29, offset: 91530},
+																											pos:        position{line: 2897, col: 29, offset: 91723},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32735,9 +32772,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2900, col: 8, offset: 91690},
+																								pos: position{line: 2907, col: 8, offset: 91883},
 																								expr: &anyMatcher{
-																									line: 2900, col: 9, offset: 91691,
+																									line: 2907, col: 9, offset: 91884,
 																								},
 																							},
 																						},
@@ -32802,10 +32839,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 757, col: 8, offset: 24239},
 																							expr: &actionExpr{
-																								pos: position{line: 2881, col: 10, offset: 91342},
+																								pos: position{line: 2888, col: 10, offset: 91535},
 																								run: (*parser).callonListContinuationElement635,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2881, col: 10, offset: 91342},
+																									pos:        position{line: 2888, col: 10, offset: 91535},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32814,28 +32851,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2903, col: 8, offset: 91740},
+																							pos: position{line: 2910, col: 8, offset: 91933},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2890, col: 12, offset: 91513},
+																									pos: position{line: 2897, col: 12, offset: 91706},
 																									run: (*parser).callonListContinuationElement638,
 																									expr: &choiceExpr{
-																										pos: position{line: 2890, col: 13, offset: 91514},
+																										pos: position{line: 2897, col: 13, offset: 91707},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 13, offset: 91514},
+																												pos:        position{line: 2897, col: 13, offset: 91707},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 20, offset: 91521},
+																												pos:        position{line: 2897, col: 20, offset: 91714},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 29, offset: 91530},
+																												pos:        position{line: 2897, col: 29, offset: 91723},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32844,9 +32881,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2900, col: 8, offset: 91690},
+																									pos: position{line: 2907, col: 8, offset: 91883},
 																									expr: &anyMatcher{
-																										line: 2900, col: 9, offset: 91691,
+																										line: 2907, col: 9, offset: 91884,
 																									},
 																								},
 																							},
@@ -32862,9 +32899,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2900, col: 8, offset: 91690},
+																	pos: position{line: 2907, col: 8, offset: 91883},
 																	expr: &anyMatcher{
-																		line: 2900, col: 9, offset: 91691,
+																		line: 2907, col: 9, offset: 91884,
 																	},
 																},
 															},
@@ -32920,10 +32957,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 772, col: 8, offset: 24782},
 																	expr: &actionExpr{
-																		pos: position{line: 2881, col: 10, offset: 91342},
+																		pos: position{line: 2888, col: 10, offset: 91535},
 																		run: (*parser).callonListContinuationElement660,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2881, col: 10, offset: 91342},
+																			pos:        position{line: 2888, col: 10, offset: 91535},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32932,28 +32969,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2903, col: 8, offset: 91740},
+																	pos: position{line: 2910, col: 8, offset: 91933},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2890, col: 12, offset: 91513},
+																			pos: position{line: 2897, col: 12, offset: 91706},
 																			run: (*parser).callonListContinuationElement663,
 																			expr: &choiceExpr{
-																				pos: position{line: 2890, col: 13, offset: 91514},
+																				pos: position{line: 2897, col: 13, offset: 91707},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 13, offset: 91514},
+																						pos:        position{line: 2897, col: 13, offset: 91707},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 20, offset: 91521},
+																						pos:        position{line: 2897, col: 20, offset: 91714},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 29, offset: 91530},
+																						pos:        position{line: 2897, col: 29, offset: 91723},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32962,9 +32999,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2900, col: 8, offset: 91690},
+																			pos: position{line: 2907, col: 8, offset: 91883},
 																			expr: &anyMatcher{
-																				line: 2900, col: 9, offset: 91691,
+																				line: 2907, col: 9, offset: 91884,
 																			},
 																		},
 																	},
@@ -33036,10 +33073,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 772, col: 8, offset: 24782},
 																											expr: &actionExpr{
-																												pos: position{line: 2881, col: 10, offset: 91342},
+																												pos: position{line: 2888, col: 10, offset: 91535},
 																												run: (*parser).callonListContinuationElement688,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2881, col: 10, offset: 91342},
+																													pos:        position{line: 2888, col: 10, offset: 91535},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33048,28 +33085,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2903, col: 8, offset: 91740},
+																											pos: position{line: 2910, col: 8, offset: 91933},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2890, col: 12, offset: 91513},
+																													pos: position{line: 2897, col: 12, offset: 91706},
 																													run: (*parser).callonListContinuationElement691,
 																													expr: &choiceExpr{
-																														pos: position{line: 2890, col: 13, offset: 91514},
+																														pos: position{line: 2897, col: 13, offset: 91707},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 13, offset: 91514},
+																																pos:        position{line: 2897, col: 13, offset: 91707},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 20, offset: 91521},
+																																pos:        position{line: 2897, col: 20, offset: 91714},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 29, offset: 91530},
+																																pos:        position{line: 2897, col: 29, offset: 91723},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33078,9 +33115,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2900, col: 8, offset: 91690},
+																													pos: position{line: 2907, col: 8, offset: 91883},
 																													expr: &anyMatcher{
-																														line: 2900, col: 9, offset: 91691,
+																														line: 2907, col: 9, offset: 91884,
 																													},
 																												},
 																											},
@@ -33096,9 +33133,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2900, col: 8, offset: 91690},
+																					pos: position{line: 2907, col: 8, offset: 91883},
 																					expr: &anyMatcher{
-																						line: 2900, col: 9, offset: 91691,
+																						line: 2907, col: 9, offset: 91884,
 																					},
 																				},
 																			},
@@ -33114,21 +33151,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2898, col: 11, offset: 91676},
+																						pos: position{line: 2905, col: 11, offset: 91869},
 																						expr: &anyMatcher{
-																							line: 2898, col: 13, offset: 91678,
+																							line: 2905, col: 13, offset: 91871,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2827, col: 13, offset: 89868},
+																							pos: position{line: 2834, col: 13, offset: 90061},
 																							run: (*parser).callonListContinuationElement707,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2827, col: 13, offset: 89868},
+																								pos: position{line: 2834, col: 13, offset: 90061},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2827, col: 13, offset: 89868},
+																									pos:        position{line: 2834, col: 13, offset: 90061},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33138,28 +33175,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2903, col: 8, offset: 91740},
+																						pos: position{line: 2910, col: 8, offset: 91933},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2890, col: 12, offset: 91513},
+																								pos: position{line: 2897, col: 12, offset: 91706},
 																								run: (*parser).callonListContinuationElement711,
 																								expr: &choiceExpr{
-																									pos: position{line: 2890, col: 13, offset: 91514},
+																									pos: position{line: 2897, col: 13, offset: 91707},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 13, offset: 91514},
+																											pos:        position{line: 2897, col: 13, offset: 91707},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 20, offset: 91521},
+																											pos:        position{line: 2897, col: 20, offset: 91714},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 29, offset: 91530},
+																											pos:        position{line: 2897, col: 29, offset: 91723},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33168,9 +33205,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2900, col: 8, offset: 91690},
+																								pos: position{line: 2907, col: 8, offset: 91883},
 																								expr: &anyMatcher{
-																									line: 2900, col: 9, offset: 91691,
+																									line: 2907, col: 9, offset: 91884,
 																								},
 																							},
 																						},
@@ -33235,10 +33272,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 772, col: 8, offset: 24782},
 																							expr: &actionExpr{
-																								pos: position{line: 2881, col: 10, offset: 91342},
+																								pos: position{line: 2888, col: 10, offset: 91535},
 																								run: (*parser).callonListContinuationElement732,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2881, col: 10, offset: 91342},
+																									pos:        position{line: 2888, col: 10, offset: 91535},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33247,28 +33284,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2903, col: 8, offset: 91740},
+																							pos: position{line: 2910, col: 8, offset: 91933},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2890, col: 12, offset: 91513},
+																									pos: position{line: 2897, col: 12, offset: 91706},
 																									run: (*parser).callonListContinuationElement735,
 																									expr: &choiceExpr{
-																										pos: position{line: 2890, col: 13, offset: 91514},
+																										pos: position{line: 2897, col: 13, offset: 91707},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 13, offset: 91514},
+																												pos:        position{line: 2897, col: 13, offset: 91707},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 20, offset: 91521},
+																												pos:        position{line: 2897, col: 20, offset: 91714},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 29, offset: 91530},
+																												pos:        position{line: 2897, col: 29, offset: 91723},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33277,9 +33314,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2900, col: 8, offset: 91690},
+																									pos: position{line: 2907, col: 8, offset: 91883},
 																									expr: &anyMatcher{
-																										line: 2900, col: 9, offset: 91691,
+																										line: 2907, col: 9, offset: 91884,
 																									},
 																								},
 																							},
@@ -33295,9 +33332,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2900, col: 8, offset: 91690},
+																	pos: position{line: 2907, col: 8, offset: 91883},
 																	expr: &anyMatcher{
-																		line: 2900, col: 9, offset: 91691,
+																		line: 2907, col: 9, offset: 91884,
 																	},
 																},
 															},
@@ -33353,10 +33390,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 786, col: 8, offset: 25258},
 																	expr: &actionExpr{
-																		pos: position{line: 2881, col: 10, offset: 91342},
+																		pos: position{line: 2888, col: 10, offset: 91535},
 																		run: (*parser).callonListContinuationElement757,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2881, col: 10, offset: 91342},
+																			pos:        position{line: 2888, col: 10, offset: 91535},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33365,28 +33402,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2903, col: 8, offset: 91740},
+																	pos: position{line: 2910, col: 8, offset: 91933},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2890, col: 12, offset: 91513},
+																			pos: position{line: 2897, col: 12, offset: 91706},
 																			run: (*parser).callonListContinuationElement760,
 																			expr: &choiceExpr{
-																				pos: position{line: 2890, col: 13, offset: 91514},
+																				pos: position{line: 2897, col: 13, offset: 91707},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 13, offset: 91514},
+																						pos:        position{line: 2897, col: 13, offset: 91707},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 20, offset: 91521},
+																						pos:        position{line: 2897, col: 20, offset: 91714},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 29, offset: 91530},
+																						pos:        position{line: 2897, col: 29, offset: 91723},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33395,9 +33432,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2900, col: 8, offset: 91690},
+																			pos: position{line: 2907, col: 8, offset: 91883},
 																			expr: &anyMatcher{
-																				line: 2900, col: 9, offset: 91691,
+																				line: 2907, col: 9, offset: 91884,
 																			},
 																		},
 																	},
@@ -33469,10 +33506,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 786, col: 8, offset: 25258},
 																											expr: &actionExpr{
-																												pos: position{line: 2881, col: 10, offset: 91342},
+																												pos: position{line: 2888, col: 10, offset: 91535},
 																												run: (*parser).callonListContinuationElement785,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2881, col: 10, offset: 91342},
+																													pos:        position{line: 2888, col: 10, offset: 91535},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33481,28 +33518,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2903, col: 8, offset: 91740},
+																											pos: position{line: 2910, col: 8, offset: 91933},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2890, col: 12, offset: 91513},
+																													pos: position{line: 2897, col: 12, offset: 91706},
 																													run: (*parser).callonListContinuationElement788,
 																													expr: &choiceExpr{
-																														pos: position{line: 2890, col: 13, offset: 91514},
+																														pos: position{line: 2897, col: 13, offset: 91707},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 13, offset: 91514},
+																																pos:        position{line: 2897, col: 13, offset: 91707},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 20, offset: 91521},
+																																pos:        position{line: 2897, col: 20, offset: 91714},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 29, offset: 91530},
+																																pos:        position{line: 2897, col: 29, offset: 91723},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33511,9 +33548,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2900, col: 8, offset: 91690},
+																													pos: position{line: 2907, col: 8, offset: 91883},
 																													expr: &anyMatcher{
-																														line: 2900, col: 9, offset: 91691,
+																														line: 2907, col: 9, offset: 91884,
 																													},
 																												},
 																											},
@@ -33529,9 +33566,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2900, col: 8, offset: 91690},
+																					pos: position{line: 2907, col: 8, offset: 91883},
 																					expr: &anyMatcher{
-																						line: 2900, col: 9, offset: 91691,
+																						line: 2907, col: 9, offset: 91884,
 																					},
 																				},
 																			},
@@ -33547,21 +33584,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2898, col: 11, offset: 91676},
+																						pos: position{line: 2905, col: 11, offset: 91869},
 																						expr: &anyMatcher{
-																							line: 2898, col: 13, offset: 91678,
+																							line: 2905, col: 13, offset: 91871,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2827, col: 13, offset: 89868},
+																							pos: position{line: 2834, col: 13, offset: 90061},
 																							run: (*parser).callonListContinuationElement804,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2827, col: 13, offset: 89868},
+																								pos: position{line: 2834, col: 13, offset: 90061},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2827, col: 13, offset: 89868},
+																									pos:        position{line: 2834, col: 13, offset: 90061},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33571,28 +33608,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2903, col: 8, offset: 91740},
+																						pos: position{line: 2910, col: 8, offset: 91933},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2890, col: 12, offset: 91513},
+																								pos: position{line: 2897, col: 12, offset: 91706},
 																								run: (*parser).callonListContinuationElement808,
 																								expr: &choiceExpr{
-																									pos: position{line: 2890, col: 13, offset: 91514},
+																									pos: position{line: 2897, col: 13, offset: 91707},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 13, offset: 91514},
+																											pos:        position{line: 2897, col: 13, offset: 91707},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 20, offset: 91521},
+																											pos:        position{line: 2897, col: 20, offset: 91714},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 29, offset: 91530},
+																											pos:        position{line: 2897, col: 29, offset: 91723},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33601,9 +33638,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2900, col: 8, offset: 91690},
+																								pos: position{line: 2907, col: 8, offset: 91883},
 																								expr: &anyMatcher{
-																									line: 2900, col: 9, offset: 91691,
+																									line: 2907, col: 9, offset: 91884,
 																								},
 																							},
 																						},
@@ -33668,10 +33705,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 786, col: 8, offset: 25258},
 																							expr: &actionExpr{
-																								pos: position{line: 2881, col: 10, offset: 91342},
+																								pos: position{line: 2888, col: 10, offset: 91535},
 																								run: (*parser).callonListContinuationElement829,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2881, col: 10, offset: 91342},
+																									pos:        position{line: 2888, col: 10, offset: 91535},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33680,28 +33717,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2903, col: 8, offset: 91740},
+																							pos: position{line: 2910, col: 8, offset: 91933},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2890, col: 12, offset: 91513},
+																									pos: position{line: 2897, col: 12, offset: 91706},
 																									run: (*parser).callonListContinuationElement832,
 																									expr: &choiceExpr{
-																										pos: position{line: 2890, col: 13, offset: 91514},
+																										pos: position{line: 2897, col: 13, offset: 91707},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 13, offset: 91514},
+																												pos:        position{line: 2897, col: 13, offset: 91707},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 20, offset: 91521},
+																												pos:        position{line: 2897, col: 20, offset: 91714},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 29, offset: 91530},
+																												pos:        position{line: 2897, col: 29, offset: 91723},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33710,9 +33747,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2900, col: 8, offset: 91690},
+																									pos: position{line: 2907, col: 8, offset: 91883},
 																									expr: &anyMatcher{
-																										line: 2900, col: 9, offset: 91691,
+																										line: 2907, col: 9, offset: 91884,
 																									},
 																								},
 																							},
@@ -33728,9 +33765,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2900, col: 8, offset: 91690},
+																	pos: position{line: 2907, col: 8, offset: 91883},
 																	expr: &anyMatcher{
-																		line: 2900, col: 9, offset: 91691,
+																		line: 2907, col: 9, offset: 91884,
 																	},
 																},
 															},
@@ -33764,18 +33801,18 @@ var g = &grammar{
 																			pos: position{line: 677, col: 14, offset: 21525},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2898, col: 11, offset: 91676},
+																					pos: position{line: 2905, col: 11, offset: 91869},
 																					expr: &anyMatcher{
-																						line: 2898, col: 13, offset: 91678,
+																						line: 2905, col: 13, offset: 91871,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21532},
 																					expr: &actionExpr{
-																						pos: position{line: 2881, col: 10, offset: 91342},
+																						pos: position{line: 2888, col: 10, offset: 91535},
 																						run: (*parser).callonListContinuationElement853,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2881, col: 10, offset: 91342},
+																							pos:        position{line: 2888, col: 10, offset: 91535},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -33784,28 +33821,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2903, col: 8, offset: 91740},
+																					pos: position{line: 2910, col: 8, offset: 91933},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2890, col: 12, offset: 91513},
+																							pos: position{line: 2897, col: 12, offset: 91706},
 																							run: (*parser).callonListContinuationElement856,
 																							expr: &choiceExpr{
-																								pos: position{line: 2890, col: 13, offset: 91514},
+																								pos: position{line: 2897, col: 13, offset: 91707},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2890, col: 13, offset: 91514},
+																										pos:        position{line: 2897, col: 13, offset: 91707},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2890, col: 20, offset: 91521},
+																										pos:        position{line: 2897, col: 20, offset: 91714},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2890, col: 29, offset: 91530},
+																										pos:        position{line: 2897, col: 29, offset: 91723},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -33814,9 +33851,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2900, col: 8, offset: 91690},
+																							pos: position{line: 2907, col: 8, offset: 91883},
 																							expr: &anyMatcher{
-																								line: 2900, col: 9, offset: 91691,
+																								line: 2907, col: 9, offset: 91884,
 																							},
 																						},
 																					},
@@ -33835,12 +33872,12 @@ var g = &grammar{
 																	pos:   position{line: 985, col: 5, offset: 30748},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2831, col: 14, offset: 89935},
+																		pos: position{line: 2838, col: 14, offset: 90128},
 																		run: (*parser).callonListContinuationElement865,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2831, col: 14, offset: 89935},
+																			pos: position{line: 2838, col: 14, offset: 90128},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2831, col: 14, offset: 89935},
+																				pos:        position{line: 2838, col: 14, offset: 90128},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -33850,28 +33887,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2903, col: 8, offset: 91740},
+																	pos: position{line: 2910, col: 8, offset: 91933},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2890, col: 12, offset: 91513},
+																			pos: position{line: 2897, col: 12, offset: 91706},
 																			run: (*parser).callonListContinuationElement869,
 																			expr: &choiceExpr{
-																				pos: position{line: 2890, col: 13, offset: 91514},
+																				pos: position{line: 2897, col: 13, offset: 91707},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 13, offset: 91514},
+																						pos:        position{line: 2897, col: 13, offset: 91707},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 20, offset: 91521},
+																						pos:        position{line: 2897, col: 20, offset: 91714},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 29, offset: 91530},
+																						pos:        position{line: 2897, col: 29, offset: 91723},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33880,9 +33917,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2900, col: 8, offset: 91690},
+																			pos: position{line: 2907, col: 8, offset: 91883},
 																			expr: &anyMatcher{
-																				line: 2900, col: 9, offset: 91691,
+																				line: 2907, col: 9, offset: 91884,
 																			},
 																		},
 																	},
@@ -33914,18 +33951,18 @@ var g = &grammar{
 																						pos: position{line: 677, col: 14, offset: 21525},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2898, col: 11, offset: 91676},
+																								pos: position{line: 2905, col: 11, offset: 91869},
 																								expr: &anyMatcher{
-																									line: 2898, col: 13, offset: 91678,
+																									line: 2905, col: 13, offset: 91871,
 																								},
 																							},
 																							&zeroOrMoreExpr{
 																								pos: position{line: 677, col: 21, offset: 21532},
 																								expr: &actionExpr{
-																									pos: position{line: 2881, col: 10, offset: 91342},
+																									pos: position{line: 2888, col: 10, offset: 91535},
 																									run: (*parser).callonListContinuationElement887,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2881, col: 10, offset: 91342},
+																										pos:        position{line: 2888, col: 10, offset: 91535},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33934,28 +33971,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2903, col: 8, offset: 91740},
+																								pos: position{line: 2910, col: 8, offset: 91933},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2890, col: 12, offset: 91513},
+																										pos: position{line: 2897, col: 12, offset: 91706},
 																										run: (*parser).callonListContinuationElement890,
 																										expr: &choiceExpr{
-																											pos: position{line: 2890, col: 13, offset: 91514},
+																											pos: position{line: 2897, col: 13, offset: 91707},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2890, col: 13, offset: 91514},
+																													pos:        position{line: 2897, col: 13, offset: 91707},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2890, col: 20, offset: 91521},
+																													pos:        position{line: 2897, col: 20, offset: 91714},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2890, col: 29, offset: 91530},
+																													pos:        position{line: 2897, col: 29, offset: 91723},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33964,9 +34001,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2900, col: 8, offset: 91690},
+																										pos: position{line: 2907, col: 8, offset: 91883},
 																										expr: &anyMatcher{
-																											line: 2900, col: 9, offset: 91691,
+																											line: 2907, col: 9, offset: 91884,
 																										},
 																									},
 																								},
@@ -33985,12 +34022,12 @@ var g = &grammar{
 																				pos:   position{line: 985, col: 5, offset: 30748},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2831, col: 14, offset: 89935},
+																					pos: position{line: 2838, col: 14, offset: 90128},
 																					run: (*parser).callonListContinuationElement899,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2831, col: 14, offset: 89935},
+																						pos: position{line: 2838, col: 14, offset: 90128},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2831, col: 14, offset: 89935},
+																							pos:        position{line: 2838, col: 14, offset: 90128},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34000,28 +34037,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2903, col: 8, offset: 91740},
+																				pos: position{line: 2910, col: 8, offset: 91933},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2890, col: 12, offset: 91513},
+																						pos: position{line: 2897, col: 12, offset: 91706},
 																						run: (*parser).callonListContinuationElement903,
 																						expr: &choiceExpr{
-																							pos: position{line: 2890, col: 13, offset: 91514},
+																							pos: position{line: 2897, col: 13, offset: 91707},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2890, col: 13, offset: 91514},
+																									pos:        position{line: 2897, col: 13, offset: 91707},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2890, col: 20, offset: 91521},
+																									pos:        position{line: 2897, col: 20, offset: 91714},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2890, col: 29, offset: 91530},
+																									pos:        position{line: 2897, col: 29, offset: 91723},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34030,9 +34067,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2900, col: 8, offset: 91690},
+																						pos: position{line: 2907, col: 8, offset: 91883},
 																						expr: &anyMatcher{
-																							line: 2900, col: 9, offset: 91691,
+																							line: 2907, col: 9, offset: 91884,
 																						},
 																					},
 																				},
@@ -34050,12 +34087,12 @@ var g = &grammar{
 																				pos:   position{line: 1798, col: 5, offset: 58283},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2831, col: 14, offset: 89935},
+																					pos: position{line: 2838, col: 14, offset: 90128},
 																					run: (*parser).callonListContinuationElement913,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2831, col: 14, offset: 89935},
+																						pos: position{line: 2838, col: 14, offset: 90128},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2831, col: 14, offset: 89935},
+																							pos:        position{line: 2838, col: 14, offset: 90128},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34069,28 +34106,28 @@ var g = &grammar{
 																				run: (*parser).callonListContinuationElement916,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2903, col: 8, offset: 91740},
+																				pos: position{line: 2910, col: 8, offset: 91933},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2890, col: 12, offset: 91513},
+																						pos: position{line: 2897, col: 12, offset: 91706},
 																						run: (*parser).callonListContinuationElement918,
 																						expr: &choiceExpr{
-																							pos: position{line: 2890, col: 13, offset: 91514},
+																							pos: position{line: 2897, col: 13, offset: 91707},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2890, col: 13, offset: 91514},
+																									pos:        position{line: 2897, col: 13, offset: 91707},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2890, col: 20, offset: 91521},
+																									pos:        position{line: 2897, col: 20, offset: 91714},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2890, col: 29, offset: 91530},
+																									pos:        position{line: 2897, col: 29, offset: 91723},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34099,9 +34136,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2900, col: 8, offset: 91690},
+																						pos: position{line: 2907, col: 8, offset: 91883},
 																						expr: &anyMatcher{
-																							line: 2900, col: 9, offset: 91691,
+																							line: 2907, col: 9, offset: 91884,
 																						},
 																					},
 																				},
@@ -34148,10 +34185,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 779, col: 8, offset: 25013},
 																	expr: &actionExpr{
-																		pos: position{line: 2881, col: 10, offset: 91342},
+																		pos: position{line: 2888, col: 10, offset: 91535},
 																		run: (*parser).callonListContinuationElement934,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2881, col: 10, offset: 91342},
+																			pos:        position{line: 2888, col: 10, offset: 91535},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34160,28 +34197,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2903, col: 8, offset: 91740},
+																	pos: position{line: 2910, col: 8, offset: 91933},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2890, col: 12, offset: 91513},
+																			pos: position{line: 2897, col: 12, offset: 91706},
 																			run: (*parser).callonListContinuationElement937,
 																			expr: &choiceExpr{
-																				pos: position{line: 2890, col: 13, offset: 91514},
+																				pos: position{line: 2897, col: 13, offset: 91707},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 13, offset: 91514},
+																						pos:        position{line: 2897, col: 13, offset: 91707},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 20, offset: 91521},
+																						pos:        position{line: 2897, col: 20, offset: 91714},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 29, offset: 91530},
+																						pos:        position{line: 2897, col: 29, offset: 91723},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34190,9 +34227,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2900, col: 8, offset: 91690},
+																			pos: position{line: 2907, col: 8, offset: 91883},
 																			expr: &anyMatcher{
-																				line: 2900, col: 9, offset: 91691,
+																				line: 2907, col: 9, offset: 91884,
 																			},
 																		},
 																	},
@@ -34240,10 +34277,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 779, col: 8, offset: 25013},
 																								expr: &actionExpr{
-																									pos: position{line: 2881, col: 10, offset: 91342},
+																									pos: position{line: 2888, col: 10, offset: 91535},
 																									run: (*parser).callonListContinuationElement956,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2881, col: 10, offset: 91342},
+																										pos:        position{line: 2888, col: 10, offset: 91535},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -34252,28 +34289,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2903, col: 8, offset: 91740},
+																								pos: position{line: 2910, col: 8, offset: 91933},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2890, col: 12, offset: 91513},
+																										pos: position{line: 2897, col: 12, offset: 91706},
 																										run: (*parser).callonListContinuationElement959,
 																										expr: &choiceExpr{
-																											pos: position{line: 2890, col: 13, offset: 91514},
+																											pos: position{line: 2897, col: 13, offset: 91707},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2890, col: 13, offset: 91514},
+																													pos:        position{line: 2897, col: 13, offset: 91707},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2890, col: 20, offset: 91521},
+																													pos:        position{line: 2897, col: 20, offset: 91714},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2890, col: 29, offset: 91530},
+																													pos:        position{line: 2897, col: 29, offset: 91723},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34282,9 +34319,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2900, col: 8, offset: 91690},
+																										pos: position{line: 2907, col: 8, offset: 91883},
 																										expr: &anyMatcher{
-																											line: 2900, col: 9, offset: 91691,
+																											line: 2907, col: 9, offset: 91884,
 																										},
 																									},
 																								},
@@ -34293,9 +34330,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2900, col: 8, offset: 91690},
+																					pos: position{line: 2907, col: 8, offset: 91883},
 																					expr: &anyMatcher{
-																						line: 2900, col: 9, offset: 91691,
+																						line: 2907, col: 9, offset: 91884,
 																					},
 																				},
 																			},
@@ -34311,21 +34348,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2898, col: 11, offset: 91676},
+																						pos: position{line: 2905, col: 11, offset: 91869},
 																						expr: &anyMatcher{
-																							line: 2898, col: 13, offset: 91678,
+																							line: 2905, col: 13, offset: 91871,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2827, col: 13, offset: 89868},
+																							pos: position{line: 2834, col: 13, offset: 90061},
 																							run: (*parser).callonListContinuationElement974,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2827, col: 13, offset: 89868},
+																								pos: position{line: 2834, col: 13, offset: 90061},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2827, col: 13, offset: 89868},
+																									pos:        position{line: 2834, col: 13, offset: 90061},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34335,28 +34372,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2903, col: 8, offset: 91740},
+																						pos: position{line: 2910, col: 8, offset: 91933},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2890, col: 12, offset: 91513},
+																								pos: position{line: 2897, col: 12, offset: 91706},
 																								run: (*parser).callonListContinuationElement978,
 																								expr: &choiceExpr{
-																									pos: position{line: 2890, col: 13, offset: 91514},
+																									pos: position{line: 2897, col: 13, offset: 91707},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 13, offset: 91514},
+																											pos:        position{line: 2897, col: 13, offset: 91707},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 20, offset: 91521},
+																											pos:        position{line: 2897, col: 20, offset: 91714},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 29, offset: 91530},
+																											pos:        position{line: 2897, col: 29, offset: 91723},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34365,9 +34402,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2900, col: 8, offset: 91690},
+																								pos: position{line: 2907, col: 8, offset: 91883},
 																								expr: &anyMatcher{
-																									line: 2900, col: 9, offset: 91691,
+																									line: 2907, col: 9, offset: 91884,
 																								},
 																							},
 																						},
@@ -34412,10 +34449,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 779, col: 8, offset: 25013},
 																				expr: &actionExpr{
-																					pos: position{line: 2881, col: 10, offset: 91342},
+																					pos: position{line: 2888, col: 10, offset: 91535},
 																					run: (*parser).callonListContinuationElement994,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2881, col: 10, offset: 91342},
+																						pos:        position{line: 2888, col: 10, offset: 91535},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -34424,28 +34461,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2903, col: 8, offset: 91740},
+																				pos: position{line: 2910, col: 8, offset: 91933},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2890, col: 12, offset: 91513},
+																						pos: position{line: 2897, col: 12, offset: 91706},
 																						run: (*parser).callonListContinuationElement997,
 																						expr: &choiceExpr{
-																							pos: position{line: 2890, col: 13, offset: 91514},
+																							pos: position{line: 2897, col: 13, offset: 91707},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2890, col: 13, offset: 91514},
+																									pos:        position{line: 2897, col: 13, offset: 91707},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2890, col: 20, offset: 91521},
+																									pos:        position{line: 2897, col: 20, offset: 91714},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2890, col: 29, offset: 91530},
+																									pos:        position{line: 2897, col: 29, offset: 91723},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34454,9 +34491,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2900, col: 8, offset: 91690},
+																						pos: position{line: 2907, col: 8, offset: 91883},
 																						expr: &anyMatcher{
-																							line: 2900, col: 9, offset: 91691,
+																							line: 2907, col: 9, offset: 91884,
 																						},
 																					},
 																				},
@@ -34465,9 +34502,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2900, col: 8, offset: 91690},
+																	pos: position{line: 2907, col: 8, offset: 91883},
 																	expr: &anyMatcher{
-																		line: 2900, col: 9, offset: 91691,
+																		line: 2907, col: 9, offset: 91884,
 																	},
 																},
 															},
@@ -34523,10 +34560,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 793, col: 8, offset: 25510},
 																	expr: &actionExpr{
-																		pos: position{line: 2881, col: 10, offset: 91342},
+																		pos: position{line: 2888, col: 10, offset: 91535},
 																		run: (*parser).callonListContinuationElement1018,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2881, col: 10, offset: 91342},
+																			pos:        position{line: 2888, col: 10, offset: 91535},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34535,28 +34572,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2903, col: 8, offset: 91740},
+																	pos: position{line: 2910, col: 8, offset: 91933},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2890, col: 12, offset: 91513},
+																			pos: position{line: 2897, col: 12, offset: 91706},
 																			run: (*parser).callonListContinuationElement1021,
 																			expr: &choiceExpr{
-																				pos: position{line: 2890, col: 13, offset: 91514},
+																				pos: position{line: 2897, col: 13, offset: 91707},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 13, offset: 91514},
+																						pos:        position{line: 2897, col: 13, offset: 91707},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 20, offset: 91521},
+																						pos:        position{line: 2897, col: 20, offset: 91714},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 29, offset: 91530},
+																						pos:        position{line: 2897, col: 29, offset: 91723},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34565,9 +34602,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2900, col: 8, offset: 91690},
+																			pos: position{line: 2907, col: 8, offset: 91883},
 																			expr: &anyMatcher{
-																				line: 2900, col: 9, offset: 91691,
+																				line: 2907, col: 9, offset: 91884,
 																			},
 																		},
 																	},
@@ -34639,10 +34676,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 793, col: 8, offset: 25510},
 																											expr: &actionExpr{
-																												pos: position{line: 2881, col: 10, offset: 91342},
+																												pos: position{line: 2888, col: 10, offset: 91535},
 																												run: (*parser).callonListContinuationElement1046,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2881, col: 10, offset: 91342},
+																													pos:        position{line: 2888, col: 10, offset: 91535},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34651,28 +34688,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2903, col: 8, offset: 91740},
+																											pos: position{line: 2910, col: 8, offset: 91933},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2890, col: 12, offset: 91513},
+																													pos: position{line: 2897, col: 12, offset: 91706},
 																													run: (*parser).callonListContinuationElement1049,
 																													expr: &choiceExpr{
-																														pos: position{line: 2890, col: 13, offset: 91514},
+																														pos: position{line: 2897, col: 13, offset: 91707},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 13, offset: 91514},
+																																pos:        position{line: 2897, col: 13, offset: 91707},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 20, offset: 91521},
+																																pos:        position{line: 2897, col: 20, offset: 91714},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 29, offset: 91530},
+																																pos:        position{line: 2897, col: 29, offset: 91723},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34681,9 +34718,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2900, col: 8, offset: 91690},
+																													pos: position{line: 2907, col: 8, offset: 91883},
 																													expr: &anyMatcher{
-																														line: 2900, col: 9, offset: 91691,
+																														line: 2907, col: 9, offset: 91884,
 																													},
 																												},
 																											},
@@ -34699,9 +34736,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2900, col: 8, offset: 91690},
+																					pos: position{line: 2907, col: 8, offset: 91883},
 																					expr: &anyMatcher{
-																						line: 2900, col: 9, offset: 91691,
+																						line: 2907, col: 9, offset: 91884,
 																					},
 																				},
 																			},
@@ -34717,21 +34754,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2898, col: 11, offset: 91676},
+																						pos: position{line: 2905, col: 11, offset: 91869},
 																						expr: &anyMatcher{
-																							line: 2898, col: 13, offset: 91678,
+																							line: 2905, col: 13, offset: 91871,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2827, col: 13, offset: 89868},
+																							pos: position{line: 2834, col: 13, offset: 90061},
 																							run: (*parser).callonListContinuationElement1065,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2827, col: 13, offset: 89868},
+																								pos: position{line: 2834, col: 13, offset: 90061},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2827, col: 13, offset: 89868},
+																									pos:        position{line: 2834, col: 13, offset: 90061},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34741,28 +34778,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2903, col: 8, offset: 91740},
+																						pos: position{line: 2910, col: 8, offset: 91933},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2890, col: 12, offset: 91513},
+																								pos: position{line: 2897, col: 12, offset: 91706},
 																								run: (*parser).callonListContinuationElement1069,
 																								expr: &choiceExpr{
-																									pos: position{line: 2890, col: 13, offset: 91514},
+																									pos: position{line: 2897, col: 13, offset: 91707},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 13, offset: 91514},
+																											pos:        position{line: 2897, col: 13, offset: 91707},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 20, offset: 91521},
+																											pos:        position{line: 2897, col: 20, offset: 91714},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 29, offset: 91530},
+																											pos:        position{line: 2897, col: 29, offset: 91723},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34771,9 +34808,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2900, col: 8, offset: 91690},
+																								pos: position{line: 2907, col: 8, offset: 91883},
 																								expr: &anyMatcher{
-																									line: 2900, col: 9, offset: 91691,
+																									line: 2907, col: 9, offset: 91884,
 																								},
 																							},
 																						},
@@ -34838,10 +34875,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 793, col: 8, offset: 25510},
 																							expr: &actionExpr{
-																								pos: position{line: 2881, col: 10, offset: 91342},
+																								pos: position{line: 2888, col: 10, offset: 91535},
 																								run: (*parser).callonListContinuationElement1090,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2881, col: 10, offset: 91342},
+																									pos:        position{line: 2888, col: 10, offset: 91535},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34850,28 +34887,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2903, col: 8, offset: 91740},
+																							pos: position{line: 2910, col: 8, offset: 91933},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2890, col: 12, offset: 91513},
+																									pos: position{line: 2897, col: 12, offset: 91706},
 																									run: (*parser).callonListContinuationElement1093,
 																									expr: &choiceExpr{
-																										pos: position{line: 2890, col: 13, offset: 91514},
+																										pos: position{line: 2897, col: 13, offset: 91707},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 13, offset: 91514},
+																												pos:        position{line: 2897, col: 13, offset: 91707},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 20, offset: 91521},
+																												pos:        position{line: 2897, col: 20, offset: 91714},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 29, offset: 91530},
+																												pos:        position{line: 2897, col: 29, offset: 91723},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34880,9 +34917,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2900, col: 8, offset: 91690},
+																									pos: position{line: 2907, col: 8, offset: 91883},
 																									expr: &anyMatcher{
-																										line: 2900, col: 9, offset: 91691,
+																										line: 2907, col: 9, offset: 91884,
 																									},
 																								},
 																							},
@@ -34898,9 +34935,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2900, col: 8, offset: 91690},
+																	pos: position{line: 2907, col: 8, offset: 91883},
 																	expr: &anyMatcher{
-																		line: 2900, col: 9, offset: 91691,
+																		line: 2907, col: 9, offset: 91884,
 																	},
 																},
 															},
@@ -34956,10 +34993,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 800, col: 8, offset: 25760},
 																	expr: &actionExpr{
-																		pos: position{line: 2881, col: 10, offset: 91342},
+																		pos: position{line: 2888, col: 10, offset: 91535},
 																		run: (*parser).callonListContinuationElement1115,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2881, col: 10, offset: 91342},
+																			pos:        position{line: 2888, col: 10, offset: 91535},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34968,28 +35005,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2903, col: 8, offset: 91740},
+																	pos: position{line: 2910, col: 8, offset: 91933},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2890, col: 12, offset: 91513},
+																			pos: position{line: 2897, col: 12, offset: 91706},
 																			run: (*parser).callonListContinuationElement1118,
 																			expr: &choiceExpr{
-																				pos: position{line: 2890, col: 13, offset: 91514},
+																				pos: position{line: 2897, col: 13, offset: 91707},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 13, offset: 91514},
+																						pos:        position{line: 2897, col: 13, offset: 91707},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 20, offset: 91521},
+																						pos:        position{line: 2897, col: 20, offset: 91714},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 29, offset: 91530},
+																						pos:        position{line: 2897, col: 29, offset: 91723},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34998,9 +35035,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2900, col: 8, offset: 91690},
+																			pos: position{line: 2907, col: 8, offset: 91883},
 																			expr: &anyMatcher{
-																				line: 2900, col: 9, offset: 91691,
+																				line: 2907, col: 9, offset: 91884,
 																			},
 																		},
 																	},
@@ -35072,10 +35109,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 800, col: 8, offset: 25760},
 																											expr: &actionExpr{
-																												pos: position{line: 2881, col: 10, offset: 91342},
+																												pos: position{line: 2888, col: 10, offset: 91535},
 																												run: (*parser).callonListContinuationElement1143,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2881, col: 10, offset: 91342},
+																													pos:        position{line: 2888, col: 10, offset: 91535},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35084,28 +35121,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2903, col: 8, offset: 91740},
+																											pos: position{line: 2910, col: 8, offset: 91933},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2890, col: 12, offset: 91513},
+																													pos: position{line: 2897, col: 12, offset: 91706},
 																													run: (*parser).callonListContinuationElement1146,
 																													expr: &choiceExpr{
-																														pos: position{line: 2890, col: 13, offset: 91514},
+																														pos: position{line: 2897, col: 13, offset: 91707},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 13, offset: 91514},
+																																pos:        position{line: 2897, col: 13, offset: 91707},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 20, offset: 91521},
+																																pos:        position{line: 2897, col: 20, offset: 91714},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 29, offset: 91530},
+																																pos:        position{line: 2897, col: 29, offset: 91723},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35114,9 +35151,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2900, col: 8, offset: 91690},
+																													pos: position{line: 2907, col: 8, offset: 91883},
 																													expr: &anyMatcher{
-																														line: 2900, col: 9, offset: 91691,
+																														line: 2907, col: 9, offset: 91884,
 																													},
 																												},
 																											},
@@ -35132,9 +35169,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2900, col: 8, offset: 91690},
+																					pos: position{line: 2907, col: 8, offset: 91883},
 																					expr: &anyMatcher{
-																						line: 2900, col: 9, offset: 91691,
+																						line: 2907, col: 9, offset: 91884,
 																					},
 																				},
 																			},
@@ -35150,21 +35187,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2898, col: 11, offset: 91676},
+																						pos: position{line: 2905, col: 11, offset: 91869},
 																						expr: &anyMatcher{
-																							line: 2898, col: 13, offset: 91678,
+																							line: 2905, col: 13, offset: 91871,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2827, col: 13, offset: 89868},
+																							pos: position{line: 2834, col: 13, offset: 90061},
 																							run: (*parser).callonListContinuationElement1162,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2827, col: 13, offset: 89868},
+																								pos: position{line: 2834, col: 13, offset: 90061},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2827, col: 13, offset: 89868},
+																									pos:        position{line: 2834, col: 13, offset: 90061},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35174,28 +35211,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2903, col: 8, offset: 91740},
+																						pos: position{line: 2910, col: 8, offset: 91933},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2890, col: 12, offset: 91513},
+																								pos: position{line: 2897, col: 12, offset: 91706},
 																								run: (*parser).callonListContinuationElement1166,
 																								expr: &choiceExpr{
-																									pos: position{line: 2890, col: 13, offset: 91514},
+																									pos: position{line: 2897, col: 13, offset: 91707},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 13, offset: 91514},
+																											pos:        position{line: 2897, col: 13, offset: 91707},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 20, offset: 91521},
+																											pos:        position{line: 2897, col: 20, offset: 91714},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 29, offset: 91530},
+																											pos:        position{line: 2897, col: 29, offset: 91723},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35204,9 +35241,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2900, col: 8, offset: 91690},
+																								pos: position{line: 2907, col: 8, offset: 91883},
 																								expr: &anyMatcher{
-																									line: 2900, col: 9, offset: 91691,
+																									line: 2907, col: 9, offset: 91884,
 																								},
 																							},
 																						},
@@ -35271,10 +35308,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 800, col: 8, offset: 25760},
 																							expr: &actionExpr{
-																								pos: position{line: 2881, col: 10, offset: 91342},
+																								pos: position{line: 2888, col: 10, offset: 91535},
 																								run: (*parser).callonListContinuationElement1187,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2881, col: 10, offset: 91342},
+																									pos:        position{line: 2888, col: 10, offset: 91535},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35283,28 +35320,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2903, col: 8, offset: 91740},
+																							pos: position{line: 2910, col: 8, offset: 91933},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2890, col: 12, offset: 91513},
+																									pos: position{line: 2897, col: 12, offset: 91706},
 																									run: (*parser).callonListContinuationElement1190,
 																									expr: &choiceExpr{
-																										pos: position{line: 2890, col: 13, offset: 91514},
+																										pos: position{line: 2897, col: 13, offset: 91707},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 13, offset: 91514},
+																												pos:        position{line: 2897, col: 13, offset: 91707},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 20, offset: 91521},
+																												pos:        position{line: 2897, col: 20, offset: 91714},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 29, offset: 91530},
+																												pos:        position{line: 2897, col: 29, offset: 91723},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35313,9 +35350,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2900, col: 8, offset: 91690},
+																									pos: position{line: 2907, col: 8, offset: 91883},
 																									expr: &anyMatcher{
-																										line: 2900, col: 9, offset: 91691,
+																										line: 2907, col: 9, offset: 91884,
 																									},
 																								},
 																							},
@@ -35331,9 +35368,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2900, col: 8, offset: 91690},
+																	pos: position{line: 2907, col: 8, offset: 91883},
 																	expr: &anyMatcher{
-																		line: 2900, col: 9, offset: 91691,
+																		line: 2907, col: 9, offset: 91884,
 																	},
 																},
 															},
@@ -35389,10 +35426,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 807, col: 8, offset: 26006},
 																	expr: &actionExpr{
-																		pos: position{line: 2881, col: 10, offset: 91342},
+																		pos: position{line: 2888, col: 10, offset: 91535},
 																		run: (*parser).callonListContinuationElement1212,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2881, col: 10, offset: 91342},
+																			pos:        position{line: 2888, col: 10, offset: 91535},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35401,28 +35438,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2903, col: 8, offset: 91740},
+																	pos: position{line: 2910, col: 8, offset: 91933},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2890, col: 12, offset: 91513},
+																			pos: position{line: 2897, col: 12, offset: 91706},
 																			run: (*parser).callonListContinuationElement1215,
 																			expr: &choiceExpr{
-																				pos: position{line: 2890, col: 13, offset: 91514},
+																				pos: position{line: 2897, col: 13, offset: 91707},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 13, offset: 91514},
+																						pos:        position{line: 2897, col: 13, offset: 91707},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 20, offset: 91521},
+																						pos:        position{line: 2897, col: 20, offset: 91714},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 29, offset: 91530},
+																						pos:        position{line: 2897, col: 29, offset: 91723},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35431,9 +35468,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2900, col: 8, offset: 91690},
+																			pos: position{line: 2907, col: 8, offset: 91883},
 																			expr: &anyMatcher{
-																				line: 2900, col: 9, offset: 91691,
+																				line: 2907, col: 9, offset: 91884,
 																			},
 																		},
 																	},
@@ -35505,10 +35542,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 807, col: 8, offset: 26006},
 																											expr: &actionExpr{
-																												pos: position{line: 2881, col: 10, offset: 91342},
+																												pos: position{line: 2888, col: 10, offset: 91535},
 																												run: (*parser).callonListContinuationElement1240,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2881, col: 10, offset: 91342},
+																													pos:        position{line: 2888, col: 10, offset: 91535},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35517,28 +35554,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2903, col: 8, offset: 91740},
+																											pos: position{line: 2910, col: 8, offset: 91933},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2890, col: 12, offset: 91513},
+																													pos: position{line: 2897, col: 12, offset: 91706},
 																													run: (*parser).callonListContinuationElement1243,
 																													expr: &choiceExpr{
-																														pos: position{line: 2890, col: 13, offset: 91514},
+																														pos: position{line: 2897, col: 13, offset: 91707},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 13, offset: 91514},
+																																pos:        position{line: 2897, col: 13, offset: 91707},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 20, offset: 91521},
+																																pos:        position{line: 2897, col: 20, offset: 91714},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 29, offset: 91530},
+																																pos:        position{line: 2897, col: 29, offset: 91723},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35547,9 +35584,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2900, col: 8, offset: 91690},
+																													pos: position{line: 2907, col: 8, offset: 91883},
 																													expr: &anyMatcher{
-																														line: 2900, col: 9, offset: 91691,
+																														line: 2907, col: 9, offset: 91884,
 																													},
 																												},
 																											},
@@ -35565,9 +35602,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2900, col: 8, offset: 91690},
+																					pos: position{line: 2907, col: 8, offset: 91883},
 																					expr: &anyMatcher{
-																						line: 2900, col: 9, offset: 91691,
+																						line: 2907, col: 9, offset: 91884,
 																					},
 																				},
 																			},
@@ -35583,21 +35620,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2898, col: 11, offset: 91676},
+																						pos: position{line: 2905, col: 11, offset: 91869},
 																						expr: &anyMatcher{
-																							line: 2898, col: 13, offset: 91678,
+																							line: 2905, col: 13, offset: 91871,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2827, col: 13, offset: 89868},
+																							pos: position{line: 2834, col: 13, offset: 90061},
 																							run: (*parser).callonListContinuationElement1259,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2827, col: 13, offset: 89868},
+																								pos: position{line: 2834, col: 13, offset: 90061},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2827, col: 13, offset: 89868},
+																									pos:        position{line: 2834, col: 13, offset: 90061},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35607,28 +35644,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2903, col: 8, offset: 91740},
+																						pos: position{line: 2910, col: 8, offset: 91933},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2890, col: 12, offset: 91513},
+																								pos: position{line: 2897, col: 12, offset: 91706},
 																								run: (*parser).callonListContinuationElement1263,
 																								expr: &choiceExpr{
-																									pos: position{line: 2890, col: 13, offset: 91514},
+																									pos: position{line: 2897, col: 13, offset: 91707},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 13, offset: 91514},
+																											pos:        position{line: 2897, col: 13, offset: 91707},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 20, offset: 91521},
+																											pos:        position{line: 2897, col: 20, offset: 91714},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 29, offset: 91530},
+																											pos:        position{line: 2897, col: 29, offset: 91723},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35637,9 +35674,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2900, col: 8, offset: 91690},
+																								pos: position{line: 2907, col: 8, offset: 91883},
 																								expr: &anyMatcher{
-																									line: 2900, col: 9, offset: 91691,
+																									line: 2907, col: 9, offset: 91884,
 																								},
 																							},
 																						},
@@ -35704,10 +35741,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 807, col: 8, offset: 26006},
 																							expr: &actionExpr{
-																								pos: position{line: 2881, col: 10, offset: 91342},
+																								pos: position{line: 2888, col: 10, offset: 91535},
 																								run: (*parser).callonListContinuationElement1284,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2881, col: 10, offset: 91342},
+																									pos:        position{line: 2888, col: 10, offset: 91535},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35716,28 +35753,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2903, col: 8, offset: 91740},
+																							pos: position{line: 2910, col: 8, offset: 91933},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2890, col: 12, offset: 91513},
+																									pos: position{line: 2897, col: 12, offset: 91706},
 																									run: (*parser).callonListContinuationElement1287,
 																									expr: &choiceExpr{
-																										pos: position{line: 2890, col: 13, offset: 91514},
+																										pos: position{line: 2897, col: 13, offset: 91707},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 13, offset: 91514},
+																												pos:        position{line: 2897, col: 13, offset: 91707},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 20, offset: 91521},
+																												pos:        position{line: 2897, col: 20, offset: 91714},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2890, col: 29, offset: 91530},
+																												pos:        position{line: 2897, col: 29, offset: 91723},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35746,9 +35783,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2900, col: 8, offset: 91690},
+																									pos: position{line: 2907, col: 8, offset: 91883},
 																									expr: &anyMatcher{
-																										line: 2900, col: 9, offset: 91691,
+																										line: 2907, col: 9, offset: 91884,
 																									},
 																								},
 																							},
@@ -35764,9 +35801,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2900, col: 8, offset: 91690},
+																	pos: position{line: 2907, col: 8, offset: 91883},
 																	expr: &anyMatcher{
-																		line: 2900, col: 9, offset: 91691,
+																		line: 2907, col: 9, offset: 91884,
 																	},
 																},
 															},
@@ -35832,10 +35869,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 2729, col: 11, offset: 87052},
 													expr: &actionExpr{
-														pos: position{line: 2881, col: 10, offset: 91342},
+														pos: position{line: 2888, col: 10, offset: 91535},
 														run: (*parser).callonListContinuationElement1308,
 														expr: &charClassMatcher{
-															pos:        position{line: 2881, col: 10, offset: 91342},
+															pos:        position{line: 2888, col: 10, offset: 91535},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35844,28 +35881,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2903, col: 8, offset: 91740},
+													pos: position{line: 2910, col: 8, offset: 91933},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2890, col: 12, offset: 91513},
+															pos: position{line: 2897, col: 12, offset: 91706},
 															run: (*parser).callonListContinuationElement1311,
 															expr: &choiceExpr{
-																pos: position{line: 2890, col: 13, offset: 91514},
+																pos: position{line: 2897, col: 13, offset: 91707},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2890, col: 13, offset: 91514},
+																		pos:        position{line: 2897, col: 13, offset: 91707},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2890, col: 20, offset: 91521},
+																		pos:        position{line: 2897, col: 20, offset: 91714},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2890, col: 29, offset: 91530},
+																		pos:        position{line: 2897, col: 29, offset: 91723},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35874,9 +35911,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2900, col: 8, offset: 91690},
+															pos: position{line: 2907, col: 8, offset: 91883},
 															expr: &anyMatcher{
-																line: 2900, col: 9, offset: 91691,
+																line: 2907, col: 9, offset: 91884,
 															},
 														},
 													},
@@ -35884,10 +35921,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 2729, col: 22, offset: 87063},
 													expr: &actionExpr{
-														pos: position{line: 2881, col: 10, offset: 91342},
+														pos: position{line: 2888, col: 10, offset: 91535},
 														run: (*parser).callonListContinuationElement1319,
 														expr: &charClassMatcher{
-															pos:        position{line: 2881, col: 10, offset: 91342},
+															pos:        position{line: 2888, col: 10, offset: 91535},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35896,28 +35933,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2903, col: 8, offset: 91740},
+													pos: position{line: 2910, col: 8, offset: 91933},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2890, col: 12, offset: 91513},
+															pos: position{line: 2897, col: 12, offset: 91706},
 															run: (*parser).callonListContinuationElement1322,
 															expr: &choiceExpr{
-																pos: position{line: 2890, col: 13, offset: 91514},
+																pos: position{line: 2897, col: 13, offset: 91707},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2890, col: 13, offset: 91514},
+																		pos:        position{line: 2897, col: 13, offset: 91707},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2890, col: 20, offset: 91521},
+																		pos:        position{line: 2897, col: 20, offset: 91714},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2890, col: 29, offset: 91530},
+																		pos:        position{line: 2897, col: 29, offset: 91723},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35926,9 +35963,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2900, col: 8, offset: 91690},
+															pos: position{line: 2907, col: 8, offset: 91883},
 															expr: &anyMatcher{
-																line: 2900, col: 9, offset: 91691,
+																line: 2907, col: 9, offset: 91884,
 															},
 														},
 													},
@@ -35959,10 +35996,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 2623, col: 26, offset: 84016},
 													expr: &actionExpr{
-														pos: position{line: 2881, col: 10, offset: 91342},
+														pos: position{line: 2888, col: 10, offset: 91535},
 														run: (*parser).callonListContinuationElement1335,
 														expr: &charClassMatcher{
-															pos:        position{line: 2881, col: 10, offset: 91342},
+															pos:        position{line: 2888, col: 10, offset: 91535},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35971,28 +36008,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2903, col: 8, offset: 91740},
+													pos: position{line: 2910, col: 8, offset: 91933},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2890, col: 12, offset: 91513},
+															pos: position{line: 2897, col: 12, offset: 91706},
 															run: (*parser).callonListContinuationElement1338,
 															expr: &choiceExpr{
-																pos: position{line: 2890, col: 13, offset: 91514},
+																pos: position{line: 2897, col: 13, offset: 91707},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2890, col: 13, offset: 91514},
+																		pos:        position{line: 2897, col: 13, offset: 91707},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2890, col: 20, offset: 91521},
+																		pos:        position{line: 2897, col: 20, offset: 91714},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2890, col: 29, offset: 91530},
+																		pos:        position{line: 2897, col: 29, offset: 91723},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36001,9 +36038,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2900, col: 8, offset: 91690},
+															pos: position{line: 2907, col: 8, offset: 91883},
 															expr: &anyMatcher{
-																line: 2900, col: 9, offset: 91691,
+																line: 2907, col: 9, offset: 91884,
 															},
 														},
 													},
@@ -36023,18 +36060,18 @@ var g = &grammar{
 																		pos: position{line: 677, col: 14, offset: 21525},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2898, col: 11, offset: 91676},
+																				pos: position{line: 2905, col: 11, offset: 91869},
 																				expr: &anyMatcher{
-																					line: 2898, col: 13, offset: 91678,
+																					line: 2905, col: 13, offset: 91871,
 																				},
 																			},
 																			&zeroOrMoreExpr{
 																				pos: position{line: 677, col: 21, offset: 21532},
 																				expr: &actionExpr{
-																					pos: position{line: 2881, col: 10, offset: 91342},
+																					pos: position{line: 2888, col: 10, offset: 91535},
 																					run: (*parser).callonListContinuationElement1353,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2881, col: 10, offset: 91342},
+																						pos:        position{line: 2888, col: 10, offset: 91535},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -36043,28 +36080,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2903, col: 8, offset: 91740},
+																				pos: position{line: 2910, col: 8, offset: 91933},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2890, col: 12, offset: 91513},
+																						pos: position{line: 2897, col: 12, offset: 91706},
 																						run: (*parser).callonListContinuationElement1356,
 																						expr: &choiceExpr{
-																							pos: position{line: 2890, col: 13, offset: 91514},
+																							pos: position{line: 2897, col: 13, offset: 91707},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2890, col: 13, offset: 91514},
+																									pos:        position{line: 2897, col: 13, offset: 91707},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2890, col: 20, offset: 91521},
+																									pos:        position{line: 2897, col: 20, offset: 91714},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2890, col: 29, offset: 91530},
+																									pos:        position{line: 2897, col: 29, offset: 91723},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -36073,9 +36110,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2900, col: 8, offset: 91690},
+																						pos: position{line: 2907, col: 8, offset: 91883},
 																						expr: &anyMatcher{
-																							line: 2900, col: 9, offset: 91691,
+																							line: 2907, col: 9, offset: 91884,
 																						},
 																					},
 																				},
@@ -36106,10 +36143,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 2623, col: 26, offset: 84016},
 																									expr: &actionExpr{
-																										pos: position{line: 2881, col: 10, offset: 91342},
+																										pos: position{line: 2888, col: 10, offset: 91535},
 																										run: (*parser).callonListContinuationElement1370,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2881, col: 10, offset: 91342},
+																											pos:        position{line: 2888, col: 10, offset: 91535},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -36118,28 +36155,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2903, col: 8, offset: 91740},
+																									pos: position{line: 2910, col: 8, offset: 91933},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2890, col: 12, offset: 91513},
+																											pos: position{line: 2897, col: 12, offset: 91706},
 																											run: (*parser).callonListContinuationElement1373,
 																											expr: &choiceExpr{
-																												pos: position{line: 2890, col: 13, offset: 91514},
+																												pos: position{line: 2897, col: 13, offset: 91707},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2890, col: 13, offset: 91514},
+																														pos:        position{line: 2897, col: 13, offset: 91707},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2890, col: 20, offset: 91521},
+																														pos:        position{line: 2897, col: 20, offset: 91714},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2890, col: 29, offset: 91530},
+																														pos:        position{line: 2897, col: 29, offset: 91723},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -36148,9 +36185,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2900, col: 8, offset: 91690},
+																											pos: position{line: 2907, col: 8, offset: 91883},
 																											expr: &anyMatcher{
-																												line: 2900, col: 9, offset: 91691,
+																												line: 2907, col: 9, offset: 91884,
 																											},
 																										},
 																									},
@@ -36158,9 +36195,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2900, col: 8, offset: 91690},
+																							pos: position{line: 2907, col: 8, offset: 91883},
 																							expr: &anyMatcher{
-																								line: 2900, col: 9, offset: 91691,
+																								line: 2907, col: 9, offset: 91884,
 																							},
 																						},
 																					},
@@ -36207,10 +36244,10 @@ var g = &grammar{
 																																		&zeroOrMoreExpr{
 																																			pos: position{line: 2645, col: 9, offset: 84458},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2881, col: 10, offset: 91342},
+																																				pos: position{line: 2888, col: 10, offset: 91535},
 																																				run: (*parser).callonListContinuationElement1395,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2881, col: 10, offset: 91342},
+																																					pos:        position{line: 2888, col: 10, offset: 91535},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -36250,28 +36287,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2903, col: 8, offset: 91740},
+																														pos: position{line: 2910, col: 8, offset: 91933},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2890, col: 12, offset: 91513},
+																																pos: position{line: 2897, col: 12, offset: 91706},
 																																run: (*parser).callonListContinuationElement1404,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2890, col: 13, offset: 91514},
+																																	pos: position{line: 2897, col: 13, offset: 91707},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2890, col: 13, offset: 91514},
+																																			pos:        position{line: 2897, col: 13, offset: 91707},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2890, col: 20, offset: 91521},
+																																			pos:        position{line: 2897, col: 20, offset: 91714},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2890, col: 29, offset: 91530},
+																																			pos:        position{line: 2897, col: 29, offset: 91723},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -36280,9 +36317,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2900, col: 8, offset: 91690},
+																																pos: position{line: 2907, col: 8, offset: 91883},
 																																expr: &anyMatcher{
-																																	line: 2900, col: 9, offset: 91691,
+																																	line: 2907, col: 9, offset: 91884,
 																																},
 																															},
 																														},
@@ -36321,10 +36358,10 @@ var g = &grammar{
 																																					&zeroOrMoreExpr{
 																																						pos: position{line: 2623, col: 26, offset: 84016},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2881, col: 10, offset: 91342},
+																																							pos: position{line: 2888, col: 10, offset: 91535},
 																																							run: (*parser).callonListContinuationElement1421,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2881, col: 10, offset: 91342},
+																																								pos:        position{line: 2888, col: 10, offset: 91535},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -36333,28 +36370,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2903, col: 8, offset: 91740},
+																																						pos: position{line: 2910, col: 8, offset: 91933},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2890, col: 12, offset: 91513},
+																																								pos: position{line: 2897, col: 12, offset: 91706},
 																																								run: (*parser).callonListContinuationElement1424,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2890, col: 13, offset: 91514},
+																																									pos: position{line: 2897, col: 13, offset: 91707},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2890, col: 13, offset: 91514},
+																																											pos:        position{line: 2897, col: 13, offset: 91707},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2890, col: 20, offset: 91521},
+																																											pos:        position{line: 2897, col: 20, offset: 91714},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2890, col: 29, offset: 91530},
+																																											pos:        position{line: 2897, col: 29, offset: 91723},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -36363,9 +36400,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2900, col: 8, offset: 91690},
+																																								pos: position{line: 2907, col: 8, offset: 91883},
 																																								expr: &anyMatcher{
-																																									line: 2900, col: 9, offset: 91691,
+																																									line: 2907, col: 9, offset: 91884,
 																																								},
 																																							},
 																																						},
@@ -36373,9 +36410,9 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2900, col: 8, offset: 91690},
+																																				pos: position{line: 2907, col: 8, offset: 91883},
 																																				expr: &anyMatcher{
-																																					line: 2900, col: 9, offset: 91691,
+																																					line: 2907, col: 9, offset: 91884,
 																																				},
 																																			},
 																																		},
@@ -36390,18 +36427,18 @@ var g = &grammar{
 																																			pos: position{line: 677, col: 14, offset: 21525},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2898, col: 11, offset: 91676},
+																																					pos: position{line: 2905, col: 11, offset: 91869},
 																																					expr: &anyMatcher{
-																																						line: 2898, col: 13, offset: 91678,
+																																						line: 2905, col: 13, offset: 91871,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
 																																					pos: position{line: 677, col: 21, offset: 21532},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2881, col: 10, offset: 91342},
+																																						pos: position{line: 2888, col: 10, offset: 91535},
 																																						run: (*parser).callonListContinuationElement1439,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2881, col: 10, offset: 91342},
+																																							pos:        position{line: 2888, col: 10, offset: 91535},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -36410,28 +36447,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2903, col: 8, offset: 91740},
+																																					pos: position{line: 2910, col: 8, offset: 91933},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2890, col: 12, offset: 91513},
+																																							pos: position{line: 2897, col: 12, offset: 91706},
 																																							run: (*parser).callonListContinuationElement1442,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2890, col: 13, offset: 91514},
+																																								pos: position{line: 2897, col: 13, offset: 91707},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2890, col: 13, offset: 91514},
+																																										pos:        position{line: 2897, col: 13, offset: 91707},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2890, col: 20, offset: 91521},
+																																										pos:        position{line: 2897, col: 20, offset: 91714},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2890, col: 29, offset: 91530},
+																																										pos:        position{line: 2897, col: 29, offset: 91723},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -36440,9 +36477,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2900, col: 8, offset: 91690},
+																																							pos: position{line: 2907, col: 8, offset: 91883},
 																																							expr: &anyMatcher{
-																																								line: 2900, col: 9, offset: 91691,
+																																								line: 2907, col: 9, offset: 91884,
 																																							},
 																																						},
 																																					},
@@ -36481,10 +36518,10 @@ var g = &grammar{
 																																&zeroOrMoreExpr{
 																																	pos: position{line: 2664, col: 35, offset: 84960},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2881, col: 10, offset: 91342},
+																																		pos: position{line: 2888, col: 10, offset: 91535},
 																																		run: (*parser).callonListContinuationElement1456,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2881, col: 10, offset: 91342},
+																																			pos:        position{line: 2888, col: 10, offset: 91535},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -36495,25 +36532,25 @@ var g = &grammar{
 																																&zeroOrOneExpr{
 																																	pos: position{line: 2664, col: 42, offset: 84967},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2890, col: 12, offset: 91513},
+																																		pos: position{line: 2897, col: 12, offset: 91706},
 																																		run: (*parser).callonListContinuationElement1459,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2890, col: 13, offset: 91514},
+																																			pos: position{line: 2897, col: 13, offset: 91707},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2890, col: 13, offset: 91514},
+																																					pos:        position{line: 2897, col: 13, offset: 91707},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2890, col: 20, offset: 91521},
+																																					pos:        position{line: 2897, col: 20, offset: 91714},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2890, col: 29, offset: 91530},
+																																					pos:        position{line: 2897, col: 29, offset: 91723},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -36550,10 +36587,10 @@ var g = &grammar{
 																																										&zeroOrMoreExpr{
 																																											pos: position{line: 2623, col: 26, offset: 84016},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2881, col: 10, offset: 91342},
+																																												pos: position{line: 2888, col: 10, offset: 91535},
 																																												run: (*parser).callonListContinuationElement1473,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2881, col: 10, offset: 91342},
+																																													pos:        position{line: 2888, col: 10, offset: 91535},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -36562,28 +36599,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2903, col: 8, offset: 91740},
+																																											pos: position{line: 2910, col: 8, offset: 91933},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2890, col: 12, offset: 91513},
+																																													pos: position{line: 2897, col: 12, offset: 91706},
 																																													run: (*parser).callonListContinuationElement1476,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2890, col: 13, offset: 91514},
+																																														pos: position{line: 2897, col: 13, offset: 91707},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2890, col: 13, offset: 91514},
+																																																pos:        position{line: 2897, col: 13, offset: 91707},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2890, col: 20, offset: 91521},
+																																																pos:        position{line: 2897, col: 20, offset: 91714},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2890, col: 29, offset: 91530},
+																																																pos:        position{line: 2897, col: 29, offset: 91723},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -36592,9 +36629,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2900, col: 8, offset: 91690},
+																																													pos: position{line: 2907, col: 8, offset: 91883},
 																																													expr: &anyMatcher{
-																																														line: 2900, col: 9, offset: 91691,
+																																														line: 2907, col: 9, offset: 91884,
 																																													},
 																																												},
 																																											},
@@ -36602,9 +36639,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2900, col: 8, offset: 91690},
+																																									pos: position{line: 2907, col: 8, offset: 91883},
 																																									expr: &anyMatcher{
-																																										line: 2900, col: 9, offset: 91691,
+																																										line: 2907, col: 9, offset: 91884,
 																																									},
 																																								},
 																																							},
@@ -36619,18 +36656,18 @@ var g = &grammar{
 																																								pos: position{line: 677, col: 14, offset: 21525},
 																																								exprs: []interface{}{
 																																									&andExpr{
-																																										pos: position{line: 2898, col: 11, offset: 91676},
+																																										pos: position{line: 2905, col: 11, offset: 91869},
 																																										expr: &anyMatcher{
-																																											line: 2898, col: 13, offset: 91678,
+																																											line: 2905, col: 13, offset: 91871,
 																																										},
 																																									},
 																																									&zeroOrMoreExpr{
 																																										pos: position{line: 677, col: 21, offset: 21532},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2881, col: 10, offset: 91342},
+																																											pos: position{line: 2888, col: 10, offset: 91535},
 																																											run: (*parser).callonListContinuationElement1491,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2881, col: 10, offset: 91342},
+																																												pos:        position{line: 2888, col: 10, offset: 91535},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -36639,28 +36676,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2903, col: 8, offset: 91740},
+																																										pos: position{line: 2910, col: 8, offset: 91933},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2890, col: 12, offset: 91513},
+																																												pos: position{line: 2897, col: 12, offset: 91706},
 																																												run: (*parser).callonListContinuationElement1494,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2890, col: 13, offset: 91514},
+																																													pos: position{line: 2897, col: 13, offset: 91707},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2890, col: 13, offset: 91514},
+																																															pos:        position{line: 2897, col: 13, offset: 91707},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2890, col: 20, offset: 91521},
+																																															pos:        position{line: 2897, col: 20, offset: 91714},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2890, col: 29, offset: 91530},
+																																															pos:        position{line: 2897, col: 29, offset: 91723},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -36669,9 +36706,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2900, col: 8, offset: 91690},
+																																												pos: position{line: 2907, col: 8, offset: 91883},
 																																												expr: &anyMatcher{
-																																													line: 2900, col: 9, offset: 91691,
+																																													line: 2907, col: 9, offset: 91884,
 																																												},
 																																											},
 																																										},
@@ -36736,28 +36773,28 @@ var g = &grammar{
 																																					&zeroOrOneExpr{
 																																						pos: position{line: 2676, col: 12, offset: 85303},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2903, col: 8, offset: 91740},
+																																							pos: position{line: 2910, col: 8, offset: 91933},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2890, col: 12, offset: 91513},
+																																									pos: position{line: 2897, col: 12, offset: 91706},
 																																									run: (*parser).callonListContinuationElement1515,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2890, col: 13, offset: 91514},
+																																										pos: position{line: 2897, col: 13, offset: 91707},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2890, col: 13, offset: 91514},
+																																												pos:        position{line: 2897, col: 13, offset: 91707},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2890, col: 20, offset: 91521},
+																																												pos:        position{line: 2897, col: 20, offset: 91714},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2890, col: 29, offset: 91530},
+																																												pos:        position{line: 2897, col: 29, offset: 91723},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -36766,9 +36803,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2900, col: 8, offset: 91690},
+																																									pos: position{line: 2907, col: 8, offset: 91883},
 																																									expr: &anyMatcher{
-																																										line: 2900, col: 9, offset: 91691,
+																																										line: 2907, col: 9, offset: 91884,
 																																									},
 																																								},
 																																							},
@@ -36796,18 +36833,18 @@ var g = &grammar{
 																								pos: position{line: 677, col: 14, offset: 21525},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2898, col: 11, offset: 91676},
+																										pos: position{line: 2905, col: 11, offset: 91869},
 																										expr: &anyMatcher{
-																											line: 2898, col: 13, offset: 91678,
+																											line: 2905, col: 13, offset: 91871,
 																										},
 																									},
 																									&zeroOrMoreExpr{
 																										pos: position{line: 677, col: 21, offset: 21532},
 																										expr: &actionExpr{
-																											pos: position{line: 2881, col: 10, offset: 91342},
+																											pos: position{line: 2888, col: 10, offset: 91535},
 																											run: (*parser).callonListContinuationElement1527,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2881, col: 10, offset: 91342},
+																												pos:        position{line: 2888, col: 10, offset: 91535},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -36816,28 +36853,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2903, col: 8, offset: 91740},
+																										pos: position{line: 2910, col: 8, offset: 91933},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2890, col: 12, offset: 91513},
+																												pos: position{line: 2897, col: 12, offset: 91706},
 																												run: (*parser).callonListContinuationElement1530,
 																												expr: &choiceExpr{
-																													pos: position{line: 2890, col: 13, offset: 91514},
+																													pos: position{line: 2897, col: 13, offset: 91707},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2890, col: 13, offset: 91514},
+																															pos:        position{line: 2897, col: 13, offset: 91707},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2890, col: 20, offset: 91521},
+																															pos:        position{line: 2897, col: 20, offset: 91714},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2890, col: 29, offset: 91530},
+																															pos:        position{line: 2897, col: 29, offset: 91723},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -36846,9 +36883,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2900, col: 8, offset: 91690},
+																												pos: position{line: 2907, col: 8, offset: 91883},
 																												expr: &anyMatcher{
-																													line: 2900, col: 9, offset: 91691,
+																													line: 2907, col: 9, offset: 91884,
 																												},
 																											},
 																										},
@@ -36881,10 +36918,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 2623, col: 26, offset: 84016},
 																	expr: &actionExpr{
-																		pos: position{line: 2881, col: 10, offset: 91342},
+																		pos: position{line: 2888, col: 10, offset: 91535},
 																		run: (*parser).callonListContinuationElement1541,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2881, col: 10, offset: 91342},
+																			pos:        position{line: 2888, col: 10, offset: 91535},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -36893,28 +36930,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2903, col: 8, offset: 91740},
+																	pos: position{line: 2910, col: 8, offset: 91933},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2890, col: 12, offset: 91513},
+																			pos: position{line: 2897, col: 12, offset: 91706},
 																			run: (*parser).callonListContinuationElement1544,
 																			expr: &choiceExpr{
-																				pos: position{line: 2890, col: 13, offset: 91514},
+																				pos: position{line: 2897, col: 13, offset: 91707},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 13, offset: 91514},
+																						pos:        position{line: 2897, col: 13, offset: 91707},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 20, offset: 91521},
+																						pos:        position{line: 2897, col: 20, offset: 91714},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 29, offset: 91530},
+																						pos:        position{line: 2897, col: 29, offset: 91723},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36923,9 +36960,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2900, col: 8, offset: 91690},
+																			pos: position{line: 2907, col: 8, offset: 91883},
 																			expr: &anyMatcher{
-																				line: 2900, col: 9, offset: 91691,
+																				line: 2907, col: 9, offset: 91884,
 																			},
 																		},
 																	},
@@ -36933,9 +36970,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2900, col: 8, offset: 91690},
+															pos: position{line: 2907, col: 8, offset: 91883},
 															expr: &anyMatcher{
-																line: 2900, col: 9, offset: 91691,
+																line: 2907, col: 9, offset: 91884,
 															},
 														},
 													},
@@ -36968,12 +37005,12 @@ var g = &grammar{
 													pos:   position{line: 2488, col: 49, offset: 80255},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2827, col: 13, offset: 89868},
+														pos: position{line: 2834, col: 13, offset: 90061},
 														run: (*parser).callonListContinuationElement1559,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2827, col: 13, offset: 89868},
+															pos: position{line: 2834, col: 13, offset: 90061},
 															expr: &charClassMatcher{
-																pos:        position{line: 2827, col: 13, offset: 89868},
+																pos:        position{line: 2834, col: 13, offset: 90061},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -36983,28 +37020,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2903, col: 8, offset: 91740},
+													pos: position{line: 2910, col: 8, offset: 91933},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2890, col: 12, offset: 91513},
+															pos: position{line: 2897, col: 12, offset: 91706},
 															run: (*parser).callonListContinuationElement1563,
 															expr: &choiceExpr{
-																pos: position{line: 2890, col: 13, offset: 91514},
+																pos: position{line: 2897, col: 13, offset: 91707},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2890, col: 13, offset: 91514},
+																		pos:        position{line: 2897, col: 13, offset: 91707},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2890, col: 20, offset: 91521},
+																		pos:        position{line: 2897, col: 20, offset: 91714},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2890, col: 29, offset: 91530},
+																		pos:        position{line: 2897, col: 29, offset: 91723},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -37013,9 +37050,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2900, col: 8, offset: 91690},
+															pos: position{line: 2907, col: 8, offset: 91883},
 															expr: &anyMatcher{
-																line: 2900, col: 9, offset: 91691,
+																line: 2907, col: 9, offset: 91884,
 															},
 														},
 													},
@@ -37106,12 +37143,12 @@ var g = &grammar{
 																					expr: &andExpr{
 																						pos: position{line: 1752, col: 13, offset: 56793},
 																						expr: &actionExpr{
-																							pos: position{line: 2885, col: 11, offset: 91403},
+																							pos: position{line: 2892, col: 11, offset: 91596},
 																							run: (*parser).callonListContinuationElement1591,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2885, col: 11, offset: 91403},
+																								pos: position{line: 2892, col: 11, offset: 91596},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2885, col: 11, offset: 91403},
+																									pos:        position{line: 2892, col: 11, offset: 91596},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -37132,10 +37169,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1754, col: 14, offset: 56865},
 																					expr: &actionExpr{
-																						pos: position{line: 2881, col: 10, offset: 91342},
+																						pos: position{line: 2888, col: 10, offset: 91535},
 																						run: (*parser).callonListContinuationElement1597,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2881, col: 10, offset: 91342},
+																							pos:        position{line: 2888, col: 10, offset: 91535},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37144,28 +37181,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2903, col: 8, offset: 91740},
+																					pos: position{line: 2910, col: 8, offset: 91933},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2890, col: 12, offset: 91513},
+																							pos: position{line: 2897, col: 12, offset: 91706},
 																							run: (*parser).callonListContinuationElement1600,
 																							expr: &choiceExpr{
-																								pos: position{line: 2890, col: 13, offset: 91514},
+																								pos: position{line: 2897, col: 13, offset: 91707},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2890, col: 13, offset: 91514},
+																										pos:        position{line: 2897, col: 13, offset: 91707},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2890, col: 20, offset: 91521},
+																										pos:        position{line: 2897, col: 20, offset: 91714},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2890, col: 29, offset: 91530},
+																										pos:        position{line: 2897, col: 29, offset: 91723},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -37174,9 +37211,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2900, col: 8, offset: 91690},
+																							pos: position{line: 2907, col: 8, offset: 91883},
 																							expr: &anyMatcher{
-																								line: 2900, col: 9, offset: 91691,
+																								line: 2907, col: 9, offset: 91884,
 																							},
 																						},
 																					},
@@ -37207,18 +37244,18 @@ var g = &grammar{
 																			pos: position{line: 677, col: 14, offset: 21525},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2898, col: 11, offset: 91676},
+																					pos: position{line: 2905, col: 11, offset: 91869},
 																					expr: &anyMatcher{
-																						line: 2898, col: 13, offset: 91678,
+																						line: 2905, col: 13, offset: 91871,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21532},
 																					expr: &actionExpr{
-																						pos: position{line: 2881, col: 10, offset: 91342},
+																						pos: position{line: 2888, col: 10, offset: 91535},
 																						run: (*parser).callonListContinuationElement1616,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2881, col: 10, offset: 91342},
+																							pos:        position{line: 2888, col: 10, offset: 91535},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37227,28 +37264,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2903, col: 8, offset: 91740},
+																					pos: position{line: 2910, col: 8, offset: 91933},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2890, col: 12, offset: 91513},
+																							pos: position{line: 2897, col: 12, offset: 91706},
 																							run: (*parser).callonListContinuationElement1619,
 																							expr: &choiceExpr{
-																								pos: position{line: 2890, col: 13, offset: 91514},
+																								pos: position{line: 2897, col: 13, offset: 91707},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2890, col: 13, offset: 91514},
+																										pos:        position{line: 2897, col: 13, offset: 91707},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2890, col: 20, offset: 91521},
+																										pos:        position{line: 2897, col: 20, offset: 91714},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2890, col: 29, offset: 91530},
+																										pos:        position{line: 2897, col: 29, offset: 91723},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -37257,9 +37294,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2900, col: 8, offset: 91690},
+																							pos: position{line: 2907, col: 8, offset: 91883},
 																							expr: &anyMatcher{
-																								line: 2900, col: 9, offset: 91691,
+																								line: 2907, col: 9, offset: 91884,
 																							},
 																						},
 																					},
@@ -37282,10 +37319,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 1548, col: 31, offset: 50257},
 																				expr: &actionExpr{
-																					pos: position{line: 2881, col: 10, offset: 91342},
+																					pos: position{line: 2888, col: 10, offset: 91535},
 																					run: (*parser).callonListContinuationElement1630,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2881, col: 10, offset: 91342},
+																						pos:        position{line: 2888, col: 10, offset: 91535},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -37294,25 +37331,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2890, col: 12, offset: 91513},
+																				pos: position{line: 2897, col: 12, offset: 91706},
 																				run: (*parser).callonListContinuationElement1632,
 																				expr: &choiceExpr{
-																					pos: position{line: 2890, col: 13, offset: 91514},
+																					pos: position{line: 2897, col: 13, offset: 91707},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 13, offset: 91514},
+																							pos:        position{line: 2897, col: 13, offset: 91707},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 20, offset: 91521},
+																							pos:        position{line: 2897, col: 20, offset: 91714},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 29, offset: 91530},
+																							pos:        position{line: 2897, col: 29, offset: 91723},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -37334,10 +37371,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1590, col: 5, offset: 51497},
 																					expr: &actionExpr{
-																						pos: position{line: 2881, col: 10, offset: 91342},
+																						pos: position{line: 2888, col: 10, offset: 91535},
 																						run: (*parser).callonListContinuationElement1641,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2881, col: 10, offset: 91342},
+																							pos:        position{line: 2888, col: 10, offset: 91535},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37504,12 +37541,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2885, col: 11, offset: 91403},
+																					pos: position{line: 2892, col: 11, offset: 91596},
 																					run: (*parser).callonListContinuationElement1675,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2885, col: 11, offset: 91403},
+																						pos: position{line: 2892, col: 11, offset: 91596},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2885, col: 11, offset: 91403},
+																							pos:        position{line: 2892, col: 11, offset: 91596},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37532,10 +37569,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1640, col: 5, offset: 53459},
 																					expr: &actionExpr{
-																						pos: position{line: 2881, col: 10, offset: 91342},
+																						pos: position{line: 2888, col: 10, offset: 91535},
 																						run: (*parser).callonListContinuationElement1682,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2881, col: 10, offset: 91342},
+																							pos:        position{line: 2888, col: 10, offset: 91535},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37576,12 +37613,12 @@ var g = &grammar{
 																					run: (*parser).callonListContinuationElement1690,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2885, col: 11, offset: 91403},
+																					pos: position{line: 2892, col: 11, offset: 91596},
 																					run: (*parser).callonListContinuationElement1691,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2885, col: 11, offset: 91403},
+																						pos: position{line: 2892, col: 11, offset: 91596},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2885, col: 11, offset: 91403},
+																							pos:        position{line: 2892, col: 11, offset: 91596},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37632,12 +37669,12 @@ var g = &grammar{
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2885, col: 11, offset: 91403},
+																					pos: position{line: 2892, col: 11, offset: 91596},
 																					run: (*parser).callonListContinuationElement1703,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2885, col: 11, offset: 91403},
+																						pos: position{line: 2892, col: 11, offset: 91596},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2885, col: 11, offset: 91403},
+																							pos:        position{line: 2892, col: 11, offset: 91596},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37724,28 +37761,28 @@ var g = &grammar{
 																									&notExpr{
 																										pos: position{line: 1676, col: 35, offset: 54540},
 																										expr: &choiceExpr{
-																											pos: position{line: 2903, col: 8, offset: 91740},
+																											pos: position{line: 2910, col: 8, offset: 91933},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2890, col: 12, offset: 91513},
+																													pos: position{line: 2897, col: 12, offset: 91706},
 																													run: (*parser).callonListContinuationElement1727,
 																													expr: &choiceExpr{
-																														pos: position{line: 2890, col: 13, offset: 91514},
+																														pos: position{line: 2897, col: 13, offset: 91707},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 13, offset: 91514},
+																																pos:        position{line: 2897, col: 13, offset: 91707},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 20, offset: 91521},
+																																pos:        position{line: 2897, col: 20, offset: 91714},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 29, offset: 91530},
+																																pos:        position{line: 2897, col: 29, offset: 91723},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37754,9 +37791,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2900, col: 8, offset: 91690},
+																													pos: position{line: 2907, col: 8, offset: 91883},
 																													expr: &anyMatcher{
-																														line: 2900, col: 9, offset: 91691,
+																														line: 2907, col: 9, offset: 91884,
 																													},
 																												},
 																											},
@@ -37865,10 +37902,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 743, col: 8, offset: 23745},
 																											expr: &actionExpr{
-																												pos: position{line: 2881, col: 10, offset: 91342},
+																												pos: position{line: 2888, col: 10, offset: 91535},
 																												run: (*parser).callonListContinuationElement1758,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2881, col: 10, offset: 91342},
+																													pos:        position{line: 2888, col: 10, offset: 91535},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37877,28 +37914,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2903, col: 8, offset: 91740},
+																											pos: position{line: 2910, col: 8, offset: 91933},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2890, col: 12, offset: 91513},
+																													pos: position{line: 2897, col: 12, offset: 91706},
 																													run: (*parser).callonListContinuationElement1761,
 																													expr: &choiceExpr{
-																														pos: position{line: 2890, col: 13, offset: 91514},
+																														pos: position{line: 2897, col: 13, offset: 91707},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 13, offset: 91514},
+																																pos:        position{line: 2897, col: 13, offset: 91707},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 20, offset: 91521},
+																																pos:        position{line: 2897, col: 20, offset: 91714},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 29, offset: 91530},
+																																pos:        position{line: 2897, col: 29, offset: 91723},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37907,9 +37944,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2900, col: 8, offset: 91690},
+																													pos: position{line: 2907, col: 8, offset: 91883},
 																													expr: &anyMatcher{
-																														line: 2900, col: 9, offset: 91691,
+																														line: 2907, col: 9, offset: 91884,
 																													},
 																												},
 																											},
@@ -37954,10 +37991,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 750, col: 8, offset: 23993},
 																											expr: &actionExpr{
-																												pos: position{line: 2881, col: 10, offset: 91342},
+																												pos: position{line: 2888, col: 10, offset: 91535},
 																												run: (*parser).callonListContinuationElement1777,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2881, col: 10, offset: 91342},
+																													pos:        position{line: 2888, col: 10, offset: 91535},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37966,28 +38003,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2903, col: 8, offset: 91740},
+																											pos: position{line: 2910, col: 8, offset: 91933},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2890, col: 12, offset: 91513},
+																													pos: position{line: 2897, col: 12, offset: 91706},
 																													run: (*parser).callonListContinuationElement1780,
 																													expr: &choiceExpr{
-																														pos: position{line: 2890, col: 13, offset: 91514},
+																														pos: position{line: 2897, col: 13, offset: 91707},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 13, offset: 91514},
+																																pos:        position{line: 2897, col: 13, offset: 91707},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 20, offset: 91521},
+																																pos:        position{line: 2897, col: 20, offset: 91714},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 29, offset: 91530},
+																																pos:        position{line: 2897, col: 29, offset: 91723},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37996,9 +38033,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2900, col: 8, offset: 91690},
+																													pos: position{line: 2907, col: 8, offset: 91883},
 																													expr: &anyMatcher{
-																														line: 2900, col: 9, offset: 91691,
+																														line: 2907, col: 9, offset: 91884,
 																													},
 																												},
 																											},
@@ -38039,10 +38076,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 761, col: 52, offset: 24405},
 																											expr: &actionExpr{
-																												pos: position{line: 2881, col: 10, offset: 91342},
+																												pos: position{line: 2888, col: 10, offset: 91535},
 																												run: (*parser).callonListContinuationElement1795,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2881, col: 10, offset: 91342},
+																													pos:        position{line: 2888, col: 10, offset: 91535},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38051,28 +38088,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2903, col: 8, offset: 91740},
+																											pos: position{line: 2910, col: 8, offset: 91933},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2890, col: 12, offset: 91513},
+																													pos: position{line: 2897, col: 12, offset: 91706},
 																													run: (*parser).callonListContinuationElement1798,
 																													expr: &choiceExpr{
-																														pos: position{line: 2890, col: 13, offset: 91514},
+																														pos: position{line: 2897, col: 13, offset: 91707},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 13, offset: 91514},
+																																pos:        position{line: 2897, col: 13, offset: 91707},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 20, offset: 91521},
+																																pos:        position{line: 2897, col: 20, offset: 91714},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 29, offset: 91530},
+																																pos:        position{line: 2897, col: 29, offset: 91723},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38081,9 +38118,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2900, col: 8, offset: 91690},
+																													pos: position{line: 2907, col: 8, offset: 91883},
 																													expr: &anyMatcher{
-																														line: 2900, col: 9, offset: 91691,
+																														line: 2907, col: 9, offset: 91884,
 																													},
 																												},
 																											},
@@ -38128,10 +38165,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 757, col: 8, offset: 24239},
 																											expr: &actionExpr{
-																												pos: position{line: 2881, col: 10, offset: 91342},
+																												pos: position{line: 2888, col: 10, offset: 91535},
 																												run: (*parser).callonListContinuationElement1814,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2881, col: 10, offset: 91342},
+																													pos:        position{line: 2888, col: 10, offset: 91535},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38140,28 +38177,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2903, col: 8, offset: 91740},
+																											pos: position{line: 2910, col: 8, offset: 91933},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2890, col: 12, offset: 91513},
+																													pos: position{line: 2897, col: 12, offset: 91706},
 																													run: (*parser).callonListContinuationElement1817,
 																													expr: &choiceExpr{
-																														pos: position{line: 2890, col: 13, offset: 91514},
+																														pos: position{line: 2897, col: 13, offset: 91707},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 13, offset: 91514},
+																																pos:        position{line: 2897, col: 13, offset: 91707},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 20, offset: 91521},
+																																pos:        position{line: 2897, col: 20, offset: 91714},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 29, offset: 91530},
+																																pos:        position{line: 2897, col: 29, offset: 91723},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38170,9 +38207,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2900, col: 8, offset: 91690},
+																													pos: position{line: 2907, col: 8, offset: 91883},
 																													expr: &anyMatcher{
-																														line: 2900, col: 9, offset: 91691,
+																														line: 2907, col: 9, offset: 91884,
 																													},
 																												},
 																											},
@@ -38217,10 +38254,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 772, col: 8, offset: 24782},
 																											expr: &actionExpr{
-																												pos: position{line: 2881, col: 10, offset: 91342},
+																												pos: position{line: 2888, col: 10, offset: 91535},
 																												run: (*parser).callonListContinuationElement1833,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2881, col: 10, offset: 91342},
+																													pos:        position{line: 2888, col: 10, offset: 91535},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38229,28 +38266,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2903, col: 8, offset: 91740},
+																											pos: position{line: 2910, col: 8, offset: 91933},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2890, col: 12, offset: 91513},
+																													pos: position{line: 2897, col: 12, offset: 91706},
 																													run: (*parser).callonListContinuationElement1836,
 																													expr: &choiceExpr{
-																														pos: position{line: 2890, col: 13, offset: 91514},
+																														pos: position{line: 2897, col: 13, offset: 91707},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 13, offset: 91514},
+																																pos:        position{line: 2897, col: 13, offset: 91707},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 20, offset: 91521},
+																																pos:        position{line: 2897, col: 20, offset: 91714},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 29, offset: 91530},
+																																pos:        position{line: 2897, col: 29, offset: 91723},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38259,9 +38296,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2900, col: 8, offset: 91690},
+																													pos: position{line: 2907, col: 8, offset: 91883},
 																													expr: &anyMatcher{
-																														line: 2900, col: 9, offset: 91691,
+																														line: 2907, col: 9, offset: 91884,
 																													},
 																												},
 																											},
@@ -38306,10 +38343,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 786, col: 8, offset: 25258},
 																											expr: &actionExpr{
-																												pos: position{line: 2881, col: 10, offset: 91342},
+																												pos: position{line: 2888, col: 10, offset: 91535},
 																												run: (*parser).callonListContinuationElement1852,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2881, col: 10, offset: 91342},
+																													pos:        position{line: 2888, col: 10, offset: 91535},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38318,28 +38355,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2903, col: 8, offset: 91740},
+																											pos: position{line: 2910, col: 8, offset: 91933},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2890, col: 12, offset: 91513},
+																													pos: position{line: 2897, col: 12, offset: 91706},
 																													run: (*parser).callonListContinuationElement1855,
 																													expr: &choiceExpr{
-																														pos: position{line: 2890, col: 13, offset: 91514},
+																														pos: position{line: 2897, col: 13, offset: 91707},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 13, offset: 91514},
+																																pos:        position{line: 2897, col: 13, offset: 91707},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 20, offset: 91521},
+																																pos:        position{line: 2897, col: 20, offset: 91714},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 29, offset: 91530},
+																																pos:        position{line: 2897, col: 29, offset: 91723},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38348,9 +38385,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2900, col: 8, offset: 91690},
+																													pos: position{line: 2907, col: 8, offset: 91883},
 																													expr: &anyMatcher{
-																														line: 2900, col: 9, offset: 91691,
+																														line: 2907, col: 9, offset: 91884,
 																													},
 																												},
 																											},
@@ -38395,10 +38432,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 793, col: 8, offset: 25510},
 																											expr: &actionExpr{
-																												pos: position{line: 2881, col: 10, offset: 91342},
+																												pos: position{line: 2888, col: 10, offset: 91535},
 																												run: (*parser).callonListContinuationElement1871,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2881, col: 10, offset: 91342},
+																													pos:        position{line: 2888, col: 10, offset: 91535},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38407,28 +38444,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2903, col: 8, offset: 91740},
+																											pos: position{line: 2910, col: 8, offset: 91933},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2890, col: 12, offset: 91513},
+																													pos: position{line: 2897, col: 12, offset: 91706},
 																													run: (*parser).callonListContinuationElement1874,
 																													expr: &choiceExpr{
-																														pos: position{line: 2890, col: 13, offset: 91514},
+																														pos: position{line: 2897, col: 13, offset: 91707},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 13, offset: 91514},
+																																pos:        position{line: 2897, col: 13, offset: 91707},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 20, offset: 91521},
+																																pos:        position{line: 2897, col: 20, offset: 91714},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 29, offset: 91530},
+																																pos:        position{line: 2897, col: 29, offset: 91723},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38437,9 +38474,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2900, col: 8, offset: 91690},
+																													pos: position{line: 2907, col: 8, offset: 91883},
 																													expr: &anyMatcher{
-																														line: 2900, col: 9, offset: 91691,
+																														line: 2907, col: 9, offset: 91884,
 																													},
 																												},
 																											},
@@ -38484,10 +38521,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 800, col: 8, offset: 25760},
 																											expr: &actionExpr{
-																												pos: position{line: 2881, col: 10, offset: 91342},
+																												pos: position{line: 2888, col: 10, offset: 91535},
 																												run: (*parser).callonListContinuationElement1890,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2881, col: 10, offset: 91342},
+																													pos:        position{line: 2888, col: 10, offset: 91535},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38496,28 +38533,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2903, col: 8, offset: 91740},
+																											pos: position{line: 2910, col: 8, offset: 91933},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2890, col: 12, offset: 91513},
+																													pos: position{line: 2897, col: 12, offset: 91706},
 																													run: (*parser).callonListContinuationElement1893,
 																													expr: &choiceExpr{
-																														pos: position{line: 2890, col: 13, offset: 91514},
+																														pos: position{line: 2897, col: 13, offset: 91707},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 13, offset: 91514},
+																																pos:        position{line: 2897, col: 13, offset: 91707},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 20, offset: 91521},
+																																pos:        position{line: 2897, col: 20, offset: 91714},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 29, offset: 91530},
+																																pos:        position{line: 2897, col: 29, offset: 91723},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38526,9 +38563,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2900, col: 8, offset: 91690},
+																													pos: position{line: 2907, col: 8, offset: 91883},
 																													expr: &anyMatcher{
-																														line: 2900, col: 9, offset: 91691,
+																														line: 2907, col: 9, offset: 91884,
 																													},
 																												},
 																											},
@@ -38573,10 +38610,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 807, col: 8, offset: 26006},
 																											expr: &actionExpr{
-																												pos: position{line: 2881, col: 10, offset: 91342},
+																												pos: position{line: 2888, col: 10, offset: 91535},
 																												run: (*parser).callonListContinuationElement1909,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2881, col: 10, offset: 91342},
+																													pos:        position{line: 2888, col: 10, offset: 91535},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38585,28 +38622,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2903, col: 8, offset: 91740},
+																											pos: position{line: 2910, col: 8, offset: 91933},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2890, col: 12, offset: 91513},
+																													pos: position{line: 2897, col: 12, offset: 91706},
 																													run: (*parser).callonListContinuationElement1912,
 																													expr: &choiceExpr{
-																														pos: position{line: 2890, col: 13, offset: 91514},
+																														pos: position{line: 2897, col: 13, offset: 91707},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 13, offset: 91514},
+																																pos:        position{line: 2897, col: 13, offset: 91707},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 20, offset: 91521},
+																																pos:        position{line: 2897, col: 20, offset: 91714},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2890, col: 29, offset: 91530},
+																																pos:        position{line: 2897, col: 29, offset: 91723},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38615,9 +38652,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2900, col: 8, offset: 91690},
+																													pos: position{line: 2907, col: 8, offset: 91883},
 																													expr: &anyMatcher{
-																														line: 2900, col: 9, offset: 91691,
+																														line: 2907, col: 9, offset: 91884,
 																													},
 																												},
 																											},
@@ -38636,12 +38673,12 @@ var g = &grammar{
 																	pos:   position{line: 1524, col: 5, offset: 49625},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2831, col: 14, offset: 89935},
+																		pos: position{line: 2838, col: 14, offset: 90128},
 																		run: (*parser).callonListContinuationElement1920,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2831, col: 14, offset: 89935},
+																			pos: position{line: 2838, col: 14, offset: 90128},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2831, col: 14, offset: 89935},
+																				pos:        position{line: 2838, col: 14, offset: 90128},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -38651,28 +38688,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2903, col: 8, offset: 91740},
+																	pos: position{line: 2910, col: 8, offset: 91933},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2890, col: 12, offset: 91513},
+																			pos: position{line: 2897, col: 12, offset: 91706},
 																			run: (*parser).callonListContinuationElement1924,
 																			expr: &choiceExpr{
-																				pos: position{line: 2890, col: 13, offset: 91514},
+																				pos: position{line: 2897, col: 13, offset: 91707},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 13, offset: 91514},
+																						pos:        position{line: 2897, col: 13, offset: 91707},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 20, offset: 91521},
+																						pos:        position{line: 2897, col: 20, offset: 91714},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 29, offset: 91530},
+																						pos:        position{line: 2897, col: 29, offset: 91723},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -38681,9 +38718,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2900, col: 8, offset: 91690},
+																			pos: position{line: 2907, col: 8, offset: 91883},
 																			expr: &anyMatcher{
-																				line: 2900, col: 9, offset: 91691,
+																				line: 2907, col: 9, offset: 91884,
 																			},
 																		},
 																	},
@@ -38748,10 +38785,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1719, col: 66, offset: 55728},
 							expr: &actionExpr{
-								pos: position{line: 2881, col: 10, offset: 91342},
+								pos: position{line: 2888, col: 10, offset: 91535},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2881, col: 10, offset: 91342},
+									pos:        position{line: 2888, col: 10, offset: 91535},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -38765,25 +38802,25 @@ var g = &grammar{
 								pos: position{line: 1719, col: 75, offset: 55737},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2890, col: 12, offset: 91513},
+										pos: position{line: 2897, col: 12, offset: 91706},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2890, col: 13, offset: 91514},
+											pos: position{line: 2897, col: 13, offset: 91707},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2890, col: 13, offset: 91514},
+													pos:        position{line: 2897, col: 13, offset: 91707},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2890, col: 20, offset: 91521},
+													pos:        position{line: 2897, col: 20, offset: 91714},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2890, col: 29, offset: 91530},
+													pos:        position{line: 2897, col: 29, offset: 91723},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -38792,9 +38829,9 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2900, col: 8, offset: 91690},
+										pos: position{line: 2907, col: 8, offset: 91883},
 										expr: &anyMatcher{
-											line: 2900, col: 9, offset: 91691,
+											line: 2907, col: 9, offset: 91884,
 										},
 									},
 									&ruleRefExpr{
@@ -38842,12 +38879,12 @@ var g = &grammar{
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2885, col: 11, offset: 91403},
+													pos: position{line: 2892, col: 11, offset: 91596},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2885, col: 11, offset: 91403},
+														pos: position{line: 2892, col: 11, offset: 91596},
 														expr: &charClassMatcher{
-															pos:        position{line: 2885, col: 11, offset: 91403},
+															pos:        position{line: 2892, col: 11, offset: 91596},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -38938,12 +38975,12 @@ var g = &grammar{
 															expr: &andExpr{
 																pos: position{line: 1752, col: 13, offset: 56793},
 																expr: &actionExpr{
-																	pos: position{line: 2885, col: 11, offset: 91403},
+																	pos: position{line: 2892, col: 11, offset: 91596},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2885, col: 11, offset: 91403},
+																		pos: position{line: 2892, col: 11, offset: 91596},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2885, col: 11, offset: 91403},
+																			pos:        position{line: 2892, col: 11, offset: 91596},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -38964,10 +39001,10 @@ var g = &grammar{
 														&zeroOrMoreExpr{
 															pos: position{line: 1754, col: 14, offset: 56865},
 															expr: &actionExpr{
-																pos: position{line: 2881, col: 10, offset: 91342},
+																pos: position{line: 2888, col: 10, offset: 91535},
 																run: (*parser).callonShortcutParagraph37,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2881, col: 10, offset: 91342},
+																	pos:        position{line: 2888, col: 10, offset: 91535},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -38976,28 +39013,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2903, col: 8, offset: 91740},
+															pos: position{line: 2910, col: 8, offset: 91933},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2890, col: 12, offset: 91513},
+																	pos: position{line: 2897, col: 12, offset: 91706},
 																	run: (*parser).callonShortcutParagraph40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2890, col: 13, offset: 91514},
+																		pos: position{line: 2897, col: 13, offset: 91707},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2890, col: 13, offset: 91514},
+																				pos:        position{line: 2897, col: 13, offset: 91707},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2890, col: 20, offset: 91521},
+																				pos:        position{line: 2897, col: 20, offset: 91714},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2890, col: 29, offset: 91530},
+																				pos:        position{line: 2897, col: 29, offset: 91723},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -39006,9 +39043,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2900, col: 8, offset: 91690},
+																	pos: position{line: 2907, col: 8, offset: 91883},
 																	expr: &anyMatcher{
-																		line: 2900, col: 9, offset: 91691,
+																		line: 2907, col: 9, offset: 91884,
 																	},
 																},
 															},
@@ -39034,12 +39071,12 @@ var g = &grammar{
 											pos:   position{line: 1798, col: 5, offset: 58283},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2831, col: 14, offset: 89935},
+												pos: position{line: 2838, col: 14, offset: 90128},
 												run: (*parser).callonShortcutParagraph51,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2831, col: 14, offset: 89935},
+													pos: position{line: 2838, col: 14, offset: 90128},
 													expr: &charClassMatcher{
-														pos:        position{line: 2831, col: 14, offset: 89935},
+														pos:        position{line: 2838, col: 14, offset: 90128},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -39053,28 +39090,28 @@ var g = &grammar{
 											run: (*parser).callonShortcutParagraph54,
 										},
 										&choiceExpr{
-											pos: position{line: 2903, col: 8, offset: 91740},
+											pos: position{line: 2910, col: 8, offset: 91933},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2890, col: 12, offset: 91513},
+													pos: position{line: 2897, col: 12, offset: 91706},
 													run: (*parser).callonShortcutParagraph56,
 													expr: &choiceExpr{
-														pos: position{line: 2890, col: 13, offset: 91514},
+														pos: position{line: 2897, col: 13, offset: 91707},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2890, col: 13, offset: 91514},
+																pos:        position{line: 2897, col: 13, offset: 91707},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2890, col: 20, offset: 91521},
+																pos:        position{line: 2897, col: 20, offset: 91714},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2890, col: 29, offset: 91530},
+																pos:        position{line: 2897, col: 29, offset: 91723},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -39083,9 +39120,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2900, col: 8, offset: 91690},
+													pos: position{line: 2907, col: 8, offset: 91883},
 													expr: &anyMatcher{
-														line: 2900, col: 9, offset: 91691,
+														line: 2907, col: 9, offset: 91884,
 													},
 												},
 											},
@@ -39110,9 +39147,9 @@ var g = &grammar{
 										pos: position{line: 1771, col: 9, offset: 57561},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2898, col: 11, offset: 91676},
+												pos: position{line: 2905, col: 11, offset: 91869},
 												expr: &anyMatcher{
-													line: 2898, col: 13, offset: 91678,
+													line: 2905, col: 13, offset: 91871,
 												},
 											},
 											&notExpr{
@@ -39124,18 +39161,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21525},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2898, col: 11, offset: 91676},
+																pos: position{line: 2905, col: 11, offset: 91869},
 																expr: &anyMatcher{
-																	line: 2898, col: 13, offset: 91678,
+																	line: 2905, col: 13, offset: 91871,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21532},
 																expr: &actionExpr{
-																	pos: position{line: 2881, col: 10, offset: 91342},
+																	pos: position{line: 2888, col: 10, offset: 91535},
 																	run: (*parser).callonShortcutParagraph76,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2881, col: 10, offset: 91342},
+																		pos:        position{line: 2888, col: 10, offset: 91535},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -39144,28 +39181,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2903, col: 8, offset: 91740},
+																pos: position{line: 2910, col: 8, offset: 91933},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2890, col: 12, offset: 91513},
+																		pos: position{line: 2897, col: 12, offset: 91706},
 																		run: (*parser).callonShortcutParagraph79,
 																		expr: &choiceExpr{
-																			pos: position{line: 2890, col: 13, offset: 91514},
+																			pos: position{line: 2897, col: 13, offset: 91707},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2890, col: 13, offset: 91514},
+																					pos:        position{line: 2897, col: 13, offset: 91707},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2890, col: 20, offset: 91521},
+																					pos:        position{line: 2897, col: 20, offset: 91714},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2890, col: 29, offset: 91530},
+																					pos:        position{line: 2897, col: 29, offset: 91723},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -39174,9 +39211,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2900, col: 8, offset: 91690},
+																		pos: position{line: 2907, col: 8, offset: 91883},
 																		expr: &anyMatcher{
-																			line: 2900, col: 9, offset: 91691,
+																			line: 2907, col: 9, offset: 91884,
 																		},
 																	},
 																},
@@ -39253,10 +39290,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 743, col: 8, offset: 23745},
 																						expr: &actionExpr{
-																							pos: position{line: 2881, col: 10, offset: 91342},
+																							pos: position{line: 2888, col: 10, offset: 91535},
 																							run: (*parser).callonShortcutParagraph104,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2881, col: 10, offset: 91342},
+																								pos:        position{line: 2888, col: 10, offset: 91535},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39265,28 +39302,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2903, col: 8, offset: 91740},
+																						pos: position{line: 2910, col: 8, offset: 91933},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2890, col: 12, offset: 91513},
+																								pos: position{line: 2897, col: 12, offset: 91706},
 																								run: (*parser).callonShortcutParagraph107,
 																								expr: &choiceExpr{
-																									pos: position{line: 2890, col: 13, offset: 91514},
+																									pos: position{line: 2897, col: 13, offset: 91707},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 13, offset: 91514},
+																											pos:        position{line: 2897, col: 13, offset: 91707},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 20, offset: 91521},
+																											pos:        position{line: 2897, col: 20, offset: 91714},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 29, offset: 91530},
+																											pos:        position{line: 2897, col: 29, offset: 91723},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39295,9 +39332,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2900, col: 8, offset: 91690},
+																								pos: position{line: 2907, col: 8, offset: 91883},
 																								expr: &anyMatcher{
-																									line: 2900, col: 9, offset: 91691,
+																									line: 2907, col: 9, offset: 91884,
 																								},
 																							},
 																						},
@@ -39342,10 +39379,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 750, col: 8, offset: 23993},
 																						expr: &actionExpr{
-																							pos: position{line: 2881, col: 10, offset: 91342},
+																							pos: position{line: 2888, col: 10, offset: 91535},
 																							run: (*parser).callonShortcutParagraph123,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2881, col: 10, offset: 91342},
+																								pos:        position{line: 2888, col: 10, offset: 91535},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39354,28 +39391,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2903, col: 8, offset: 91740},
+																						pos: position{line: 2910, col: 8, offset: 91933},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2890, col: 12, offset: 91513},
+																								pos: position{line: 2897, col: 12, offset: 91706},
 																								run: (*parser).callonShortcutParagraph126,
 																								expr: &choiceExpr{
-																									pos: position{line: 2890, col: 13, offset: 91514},
+																									pos: position{line: 2897, col: 13, offset: 91707},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 13, offset: 91514},
+																											pos:        position{line: 2897, col: 13, offset: 91707},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 20, offset: 91521},
+																											pos:        position{line: 2897, col: 20, offset: 91714},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 29, offset: 91530},
+																											pos:        position{line: 2897, col: 29, offset: 91723},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39384,9 +39421,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2900, col: 8, offset: 91690},
+																								pos: position{line: 2907, col: 8, offset: 91883},
 																								expr: &anyMatcher{
-																									line: 2900, col: 9, offset: 91691,
+																									line: 2907, col: 9, offset: 91884,
 																								},
 																							},
 																						},
@@ -39427,10 +39464,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 761, col: 52, offset: 24405},
 																						expr: &actionExpr{
-																							pos: position{line: 2881, col: 10, offset: 91342},
+																							pos: position{line: 2888, col: 10, offset: 91535},
 																							run: (*parser).callonShortcutParagraph141,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2881, col: 10, offset: 91342},
+																								pos:        position{line: 2888, col: 10, offset: 91535},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39439,28 +39476,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2903, col: 8, offset: 91740},
+																						pos: position{line: 2910, col: 8, offset: 91933},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2890, col: 12, offset: 91513},
+																								pos: position{line: 2897, col: 12, offset: 91706},
 																								run: (*parser).callonShortcutParagraph144,
 																								expr: &choiceExpr{
-																									pos: position{line: 2890, col: 13, offset: 91514},
+																									pos: position{line: 2897, col: 13, offset: 91707},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 13, offset: 91514},
+																											pos:        position{line: 2897, col: 13, offset: 91707},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 20, offset: 91521},
+																											pos:        position{line: 2897, col: 20, offset: 91714},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 29, offset: 91530},
+																											pos:        position{line: 2897, col: 29, offset: 91723},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39469,9 +39506,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2900, col: 8, offset: 91690},
+																								pos: position{line: 2907, col: 8, offset: 91883},
 																								expr: &anyMatcher{
-																									line: 2900, col: 9, offset: 91691,
+																									line: 2907, col: 9, offset: 91884,
 																								},
 																							},
 																						},
@@ -39516,10 +39553,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 757, col: 8, offset: 24239},
 																						expr: &actionExpr{
-																							pos: position{line: 2881, col: 10, offset: 91342},
+																							pos: position{line: 2888, col: 10, offset: 91535},
 																							run: (*parser).callonShortcutParagraph160,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2881, col: 10, offset: 91342},
+																								pos:        position{line: 2888, col: 10, offset: 91535},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39528,28 +39565,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2903, col: 8, offset: 91740},
+																						pos: position{line: 2910, col: 8, offset: 91933},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2890, col: 12, offset: 91513},
+																								pos: position{line: 2897, col: 12, offset: 91706},
 																								run: (*parser).callonShortcutParagraph163,
 																								expr: &choiceExpr{
-																									pos: position{line: 2890, col: 13, offset: 91514},
+																									pos: position{line: 2897, col: 13, offset: 91707},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 13, offset: 91514},
+																											pos:        position{line: 2897, col: 13, offset: 91707},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 20, offset: 91521},
+																											pos:        position{line: 2897, col: 20, offset: 91714},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 29, offset: 91530},
+																											pos:        position{line: 2897, col: 29, offset: 91723},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39558,9 +39595,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2900, col: 8, offset: 91690},
+																								pos: position{line: 2907, col: 8, offset: 91883},
 																								expr: &anyMatcher{
-																									line: 2900, col: 9, offset: 91691,
+																									line: 2907, col: 9, offset: 91884,
 																								},
 																							},
 																						},
@@ -39605,10 +39642,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 772, col: 8, offset: 24782},
 																						expr: &actionExpr{
-																							pos: position{line: 2881, col: 10, offset: 91342},
+																							pos: position{line: 2888, col: 10, offset: 91535},
 																							run: (*parser).callonShortcutParagraph179,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2881, col: 10, offset: 91342},
+																								pos:        position{line: 2888, col: 10, offset: 91535},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39617,28 +39654,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2903, col: 8, offset: 91740},
+																						pos: position{line: 2910, col: 8, offset: 91933},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2890, col: 12, offset: 91513},
+																								pos: position{line: 2897, col: 12, offset: 91706},
 																								run: (*parser).callonShortcutParagraph182,
 																								expr: &choiceExpr{
-																									pos: position{line: 2890, col: 13, offset: 91514},
+																									pos: position{line: 2897, col: 13, offset: 91707},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 13, offset: 91514},
+																											pos:        position{line: 2897, col: 13, offset: 91707},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 20, offset: 91521},
+																											pos:        position{line: 2897, col: 20, offset: 91714},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 29, offset: 91530},
+																											pos:        position{line: 2897, col: 29, offset: 91723},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39647,9 +39684,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2900, col: 8, offset: 91690},
+																								pos: position{line: 2907, col: 8, offset: 91883},
 																								expr: &anyMatcher{
-																									line: 2900, col: 9, offset: 91691,
+																									line: 2907, col: 9, offset: 91884,
 																								},
 																							},
 																						},
@@ -39694,10 +39731,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 786, col: 8, offset: 25258},
 																						expr: &actionExpr{
-																							pos: position{line: 2881, col: 10, offset: 91342},
+																							pos: position{line: 2888, col: 10, offset: 91535},
 																							run: (*parser).callonShortcutParagraph198,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2881, col: 10, offset: 91342},
+																								pos:        position{line: 2888, col: 10, offset: 91535},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39706,28 +39743,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2903, col: 8, offset: 91740},
+																						pos: position{line: 2910, col: 8, offset: 91933},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2890, col: 12, offset: 91513},
+																								pos: position{line: 2897, col: 12, offset: 91706},
 																								run: (*parser).callonShortcutParagraph201,
 																								expr: &choiceExpr{
-																									pos: position{line: 2890, col: 13, offset: 91514},
+																									pos: position{line: 2897, col: 13, offset: 91707},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 13, offset: 91514},
+																											pos:        position{line: 2897, col: 13, offset: 91707},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 20, offset: 91521},
+																											pos:        position{line: 2897, col: 20, offset: 91714},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 29, offset: 91530},
+																											pos:        position{line: 2897, col: 29, offset: 91723},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39736,9 +39773,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2900, col: 8, offset: 91690},
+																								pos: position{line: 2907, col: 8, offset: 91883},
 																								expr: &anyMatcher{
-																									line: 2900, col: 9, offset: 91691,
+																									line: 2907, col: 9, offset: 91884,
 																								},
 																							},
 																						},
@@ -39783,10 +39820,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 793, col: 8, offset: 25510},
 																						expr: &actionExpr{
-																							pos: position{line: 2881, col: 10, offset: 91342},
+																							pos: position{line: 2888, col: 10, offset: 91535},
 																							run: (*parser).callonShortcutParagraph217,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2881, col: 10, offset: 91342},
+																								pos:        position{line: 2888, col: 10, offset: 91535},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39795,28 +39832,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2903, col: 8, offset: 91740},
+																						pos: position{line: 2910, col: 8, offset: 91933},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2890, col: 12, offset: 91513},
+																								pos: position{line: 2897, col: 12, offset: 91706},
 																								run: (*parser).callonShortcutParagraph220,
 																								expr: &choiceExpr{
-																									pos: position{line: 2890, col: 13, offset: 91514},
+																									pos: position{line: 2897, col: 13, offset: 91707},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 13, offset: 91514},
+																											pos:        position{line: 2897, col: 13, offset: 91707},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 20, offset: 91521},
+																											pos:        position{line: 2897, col: 20, offset: 91714},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 29, offset: 91530},
+																											pos:        position{line: 2897, col: 29, offset: 91723},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39825,9 +39862,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2900, col: 8, offset: 91690},
+																								pos: position{line: 2907, col: 8, offset: 91883},
 																								expr: &anyMatcher{
-																									line: 2900, col: 9, offset: 91691,
+																									line: 2907, col: 9, offset: 91884,
 																								},
 																							},
 																						},
@@ -39872,10 +39909,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 800, col: 8, offset: 25760},
 																						expr: &actionExpr{
-																							pos: position{line: 2881, col: 10, offset: 91342},
+																							pos: position{line: 2888, col: 10, offset: 91535},
 																							run: (*parser).callonShortcutParagraph236,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2881, col: 10, offset: 91342},
+																								pos:        position{line: 2888, col: 10, offset: 91535},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39884,28 +39921,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2903, col: 8, offset: 91740},
+																						pos: position{line: 2910, col: 8, offset: 91933},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2890, col: 12, offset: 91513},
+																								pos: position{line: 2897, col: 12, offset: 91706},
 																								run: (*parser).callonShortcutParagraph239,
 																								expr: &choiceExpr{
-																									pos: position{line: 2890, col: 13, offset: 91514},
+																									pos: position{line: 2897, col: 13, offset: 91707},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 13, offset: 91514},
+																											pos:        position{line: 2897, col: 13, offset: 91707},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 20, offset: 91521},
+																											pos:        position{line: 2897, col: 20, offset: 91714},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 29, offset: 91530},
+																											pos:        position{line: 2897, col: 29, offset: 91723},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39914,9 +39951,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2900, col: 8, offset: 91690},
+																								pos: position{line: 2907, col: 8, offset: 91883},
 																								expr: &anyMatcher{
-																									line: 2900, col: 9, offset: 91691,
+																									line: 2907, col: 9, offset: 91884,
 																								},
 																							},
 																						},
@@ -39961,10 +39998,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 807, col: 8, offset: 26006},
 																						expr: &actionExpr{
-																							pos: position{line: 2881, col: 10, offset: 91342},
+																							pos: position{line: 2888, col: 10, offset: 91535},
 																							run: (*parser).callonShortcutParagraph255,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2881, col: 10, offset: 91342},
+																								pos:        position{line: 2888, col: 10, offset: 91535},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39973,28 +40010,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2903, col: 8, offset: 91740},
+																						pos: position{line: 2910, col: 8, offset: 91933},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2890, col: 12, offset: 91513},
+																								pos: position{line: 2897, col: 12, offset: 91706},
 																								run: (*parser).callonShortcutParagraph258,
 																								expr: &choiceExpr{
-																									pos: position{line: 2890, col: 13, offset: 91514},
+																									pos: position{line: 2897, col: 13, offset: 91707},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 13, offset: 91514},
+																											pos:        position{line: 2897, col: 13, offset: 91707},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 20, offset: 91521},
+																											pos:        position{line: 2897, col: 20, offset: 91714},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2890, col: 29, offset: 91530},
+																											pos:        position{line: 2897, col: 29, offset: 91723},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40003,9 +40040,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2900, col: 8, offset: 91690},
+																								pos: position{line: 2907, col: 8, offset: 91883},
 																								expr: &anyMatcher{
-																									line: 2900, col: 9, offset: 91691,
+																									line: 2907, col: 9, offset: 91884,
 																								},
 																							},
 																						},
@@ -40034,10 +40071,10 @@ var g = &grammar{
 														&zeroOrMoreExpr{
 															pos: position{line: 1548, col: 31, offset: 50257},
 															expr: &actionExpr{
-																pos: position{line: 2881, col: 10, offset: 91342},
+																pos: position{line: 2888, col: 10, offset: 91535},
 																run: (*parser).callonShortcutParagraph269,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2881, col: 10, offset: 91342},
+																	pos:        position{line: 2888, col: 10, offset: 91535},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -40046,25 +40083,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2890, col: 12, offset: 91513},
+															pos: position{line: 2897, col: 12, offset: 91706},
 															run: (*parser).callonShortcutParagraph271,
 															expr: &choiceExpr{
-																pos: position{line: 2890, col: 13, offset: 91514},
+																pos: position{line: 2897, col: 13, offset: 91707},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2890, col: 13, offset: 91514},
+																		pos:        position{line: 2897, col: 13, offset: 91707},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2890, col: 20, offset: 91521},
+																		pos:        position{line: 2897, col: 20, offset: 91714},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2890, col: 29, offset: 91530},
+																		pos:        position{line: 2897, col: 29, offset: 91723},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -40106,12 +40143,12 @@ var g = &grammar{
 																		pos:   position{line: 2488, col: 49, offset: 80255},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2827, col: 13, offset: 89868},
+																			pos: position{line: 2834, col: 13, offset: 90061},
 																			run: (*parser).callonShortcutParagraph284,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2827, col: 13, offset: 89868},
+																				pos: position{line: 2834, col: 13, offset: 90061},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2827, col: 13, offset: 89868},
+																					pos:        position{line: 2834, col: 13, offset: 90061},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40121,28 +40158,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2903, col: 8, offset: 91740},
+																		pos: position{line: 2910, col: 8, offset: 91933},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2890, col: 12, offset: 91513},
+																				pos: position{line: 2897, col: 12, offset: 91706},
 																				run: (*parser).callonShortcutParagraph288,
 																				expr: &choiceExpr{
-																					pos: position{line: 2890, col: 13, offset: 91514},
+																					pos: position{line: 2897, col: 13, offset: 91707},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 13, offset: 91514},
+																							pos:        position{line: 2897, col: 13, offset: 91707},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 20, offset: 91521},
+																							pos:        position{line: 2897, col: 20, offset: 91714},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 29, offset: 91530},
+																							pos:        position{line: 2897, col: 29, offset: 91723},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40151,9 +40188,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2900, col: 8, offset: 91690},
+																				pos: position{line: 2907, col: 8, offset: 91883},
 																				expr: &anyMatcher{
-																					line: 2900, col: 9, offset: 91691,
+																					line: 2907, col: 9, offset: 91884,
 																				},
 																			},
 																		},
@@ -40171,12 +40208,12 @@ var g = &grammar{
 																		pos:   position{line: 1798, col: 5, offset: 58283},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2831, col: 14, offset: 89935},
+																			pos: position{line: 2838, col: 14, offset: 90128},
 																			run: (*parser).callonShortcutParagraph298,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2831, col: 14, offset: 89935},
+																				pos: position{line: 2838, col: 14, offset: 90128},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2831, col: 14, offset: 89935},
+																					pos:        position{line: 2838, col: 14, offset: 90128},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40190,28 +40227,28 @@ var g = &grammar{
 																		run: (*parser).callonShortcutParagraph301,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2903, col: 8, offset: 91740},
+																		pos: position{line: 2910, col: 8, offset: 91933},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2890, col: 12, offset: 91513},
+																				pos: position{line: 2897, col: 12, offset: 91706},
 																				run: (*parser).callonShortcutParagraph303,
 																				expr: &choiceExpr{
-																					pos: position{line: 2890, col: 13, offset: 91514},
+																					pos: position{line: 2897, col: 13, offset: 91707},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 13, offset: 91514},
+																							pos:        position{line: 2897, col: 13, offset: 91707},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 20, offset: 91521},
+																							pos:        position{line: 2897, col: 20, offset: 91714},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 29, offset: 91530},
+																							pos:        position{line: 2897, col: 29, offset: 91723},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40220,9 +40257,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2900, col: 8, offset: 91690},
+																				pos: position{line: 2907, col: 8, offset: 91883},
 																				expr: &anyMatcher{
-																					line: 2900, col: 9, offset: 91691,
+																					line: 2907, col: 9, offset: 91884,
 																				},
 																			},
 																		},
@@ -40328,12 +40365,12 @@ var g = &grammar{
 															expr: &andExpr{
 																pos: position{line: 1752, col: 13, offset: 56793},
 																expr: &actionExpr{
-																	pos: position{line: 2885, col: 11, offset: 91403},
+																	pos: position{line: 2892, col: 11, offset: 91596},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2885, col: 11, offset: 91403},
+																		pos: position{line: 2892, col: 11, offset: 91596},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2885, col: 11, offset: 91403},
+																			pos:        position{line: 2892, col: 11, offset: 91596},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -40354,10 +40391,10 @@ var g = &grammar{
 														&zeroOrMoreExpr{
 															pos: position{line: 1754, col: 14, offset: 56865},
 															expr: &actionExpr{
-																pos: position{line: 2881, col: 10, offset: 91342},
+																pos: position{line: 2888, col: 10, offset: 91535},
 																run: (*parser).callonParagraph28,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2881, col: 10, offset: 91342},
+																	pos:        position{line: 2888, col: 10, offset: 91535},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -40366,28 +40403,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2903, col: 8, offset: 91740},
+															pos: position{line: 2910, col: 8, offset: 91933},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2890, col: 12, offset: 91513},
+																	pos: position{line: 2897, col: 12, offset: 91706},
 																	run: (*parser).callonParagraph31,
 																	expr: &choiceExpr{
-																		pos: position{line: 2890, col: 13, offset: 91514},
+																		pos: position{line: 2897, col: 13, offset: 91707},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2890, col: 13, offset: 91514},
+																				pos:        position{line: 2897, col: 13, offset: 91707},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2890, col: 20, offset: 91521},
+																				pos:        position{line: 2897, col: 20, offset: 91714},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2890, col: 29, offset: 91530},
+																				pos:        position{line: 2897, col: 29, offset: 91723},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -40396,9 +40433,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2900, col: 8, offset: 91690},
+																	pos: position{line: 2907, col: 8, offset: 91883},
 																	expr: &anyMatcher{
-																		line: 2900, col: 9, offset: 91691,
+																		line: 2907, col: 9, offset: 91884,
 																	},
 																},
 															},
@@ -40424,12 +40461,12 @@ var g = &grammar{
 											pos:   position{line: 1798, col: 5, offset: 58283},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2831, col: 14, offset: 89935},
+												pos: position{line: 2838, col: 14, offset: 90128},
 												run: (*parser).callonParagraph42,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2831, col: 14, offset: 89935},
+													pos: position{line: 2838, col: 14, offset: 90128},
 													expr: &charClassMatcher{
-														pos:        position{line: 2831, col: 14, offset: 89935},
+														pos:        position{line: 2838, col: 14, offset: 90128},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -40443,28 +40480,28 @@ var g = &grammar{
 											run: (*parser).callonParagraph45,
 										},
 										&choiceExpr{
-											pos: position{line: 2903, col: 8, offset: 91740},
+											pos: position{line: 2910, col: 8, offset: 91933},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2890, col: 12, offset: 91513},
+													pos: position{line: 2897, col: 12, offset: 91706},
 													run: (*parser).callonParagraph47,
 													expr: &choiceExpr{
-														pos: position{line: 2890, col: 13, offset: 91514},
+														pos: position{line: 2897, col: 13, offset: 91707},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2890, col: 13, offset: 91514},
+																pos:        position{line: 2897, col: 13, offset: 91707},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2890, col: 20, offset: 91521},
+																pos:        position{line: 2897, col: 20, offset: 91714},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2890, col: 29, offset: 91530},
+																pos:        position{line: 2897, col: 29, offset: 91723},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -40473,9 +40510,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2900, col: 8, offset: 91690},
+													pos: position{line: 2907, col: 8, offset: 91883},
 													expr: &anyMatcher{
-														line: 2900, col: 9, offset: 91691,
+														line: 2907, col: 9, offset: 91884,
 													},
 												},
 											},
@@ -40496,9 +40533,9 @@ var g = &grammar{
 										pos: position{line: 1787, col: 9, offset: 57989},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2898, col: 11, offset: 91676},
+												pos: position{line: 2905, col: 11, offset: 91869},
 												expr: &anyMatcher{
-													line: 2898, col: 13, offset: 91678,
+													line: 2905, col: 13, offset: 91871,
 												},
 											},
 											&notExpr{
@@ -40510,18 +40547,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21525},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2898, col: 11, offset: 91676},
+																pos: position{line: 2905, col: 11, offset: 91869},
 																expr: &anyMatcher{
-																	line: 2898, col: 13, offset: 91678,
+																	line: 2905, col: 13, offset: 91871,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21532},
 																expr: &actionExpr{
-																	pos: position{line: 2881, col: 10, offset: 91342},
+																	pos: position{line: 2888, col: 10, offset: 91535},
 																	run: (*parser).callonParagraph66,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2881, col: 10, offset: 91342},
+																		pos:        position{line: 2888, col: 10, offset: 91535},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -40530,28 +40567,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2903, col: 8, offset: 91740},
+																pos: position{line: 2910, col: 8, offset: 91933},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2890, col: 12, offset: 91513},
+																		pos: position{line: 2897, col: 12, offset: 91706},
 																		run: (*parser).callonParagraph69,
 																		expr: &choiceExpr{
-																			pos: position{line: 2890, col: 13, offset: 91514},
+																			pos: position{line: 2897, col: 13, offset: 91707},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2890, col: 13, offset: 91514},
+																					pos:        position{line: 2897, col: 13, offset: 91707},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2890, col: 20, offset: 91521},
+																					pos:        position{line: 2897, col: 20, offset: 91714},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2890, col: 29, offset: 91530},
+																					pos:        position{line: 2897, col: 29, offset: 91723},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -40560,9 +40597,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2900, col: 8, offset: 91690},
+																		pos: position{line: 2907, col: 8, offset: 91883},
 																		expr: &anyMatcher{
-																			line: 2900, col: 9, offset: 91691,
+																			line: 2907, col: 9, offset: 91884,
 																		},
 																	},
 																},
@@ -40609,12 +40646,12 @@ var g = &grammar{
 																		pos:   position{line: 2488, col: 49, offset: 80255},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2827, col: 13, offset: 89868},
+																			pos: position{line: 2834, col: 13, offset: 90061},
 																			run: (*parser).callonParagraph86,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2827, col: 13, offset: 89868},
+																				pos: position{line: 2834, col: 13, offset: 90061},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2827, col: 13, offset: 89868},
+																					pos:        position{line: 2834, col: 13, offset: 90061},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40624,28 +40661,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2903, col: 8, offset: 91740},
+																		pos: position{line: 2910, col: 8, offset: 91933},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2890, col: 12, offset: 91513},
+																				pos: position{line: 2897, col: 12, offset: 91706},
 																				run: (*parser).callonParagraph90,
 																				expr: &choiceExpr{
-																					pos: position{line: 2890, col: 13, offset: 91514},
+																					pos: position{line: 2897, col: 13, offset: 91707},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 13, offset: 91514},
+																							pos:        position{line: 2897, col: 13, offset: 91707},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 20, offset: 91521},
+																							pos:        position{line: 2897, col: 20, offset: 91714},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 29, offset: 91530},
+																							pos:        position{line: 2897, col: 29, offset: 91723},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40654,9 +40691,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2900, col: 8, offset: 91690},
+																				pos: position{line: 2907, col: 8, offset: 91883},
 																				expr: &anyMatcher{
-																					line: 2900, col: 9, offset: 91691,
+																					line: 2907, col: 9, offset: 91884,
 																				},
 																			},
 																		},
@@ -40674,12 +40711,12 @@ var g = &grammar{
 																		pos:   position{line: 1798, col: 5, offset: 58283},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2831, col: 14, offset: 89935},
+																			pos: position{line: 2838, col: 14, offset: 90128},
 																			run: (*parser).callonParagraph100,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2831, col: 14, offset: 89935},
+																				pos: position{line: 2838, col: 14, offset: 90128},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2831, col: 14, offset: 89935},
+																					pos:        position{line: 2838, col: 14, offset: 90128},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40693,28 +40730,28 @@ var g = &grammar{
 																		run: (*parser).callonParagraph103,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2903, col: 8, offset: 91740},
+																		pos: position{line: 2910, col: 8, offset: 91933},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2890, col: 12, offset: 91513},
+																				pos: position{line: 2897, col: 12, offset: 91706},
 																				run: (*parser).callonParagraph105,
 																				expr: &choiceExpr{
-																					pos: position{line: 2890, col: 13, offset: 91514},
+																					pos: position{line: 2897, col: 13, offset: 91707},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 13, offset: 91514},
+																							pos:        position{line: 2897, col: 13, offset: 91707},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 20, offset: 91521},
+																							pos:        position{line: 2897, col: 20, offset: 91714},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 29, offset: 91530},
+																							pos:        position{line: 2897, col: 29, offset: 91723},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40723,9 +40760,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2900, col: 8, offset: 91690},
+																				pos: position{line: 2907, col: 8, offset: 91883},
 																				expr: &anyMatcher{
-																					line: 2900, col: 9, offset: 91691,
+																					line: 2907, col: 9, offset: 91884,
 																				},
 																			},
 																		},
@@ -40943,16 +40980,53 @@ var g = &grammar{
 						expr: &seqExpr{
 							pos: position{line: 2780, col: 5, offset: 88563},
 							exprs: []interface{}{
+								&notExpr{
+									pos: position{line: 2780, col: 5, offset: 88563},
+									expr: &seqExpr{
+										pos: position{line: 2781, col: 9, offset: 88574},
+										exprs: []interface{}{
+											&labeledExpr{
+												pos:   position{line: 2781, col: 9, offset: 88574},
+												label: "name",
+												expr: &actionExpr{
+													pos: position{line: 2760, col: 18, offset: 88080},
+													run: (*parser).callonQuotedTextElement7,
+													expr: &oneOrMoreExpr{
+														pos: position{line: 2760, col: 19, offset: 88081},
+														expr: &charClassMatcher{
+															pos:        position{line: 2760, col: 19, offset: 88081},
+															val:        "[_-\\pL\\pN]",
+															chars:      []rune{'_', '-'},
+															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+															ignoreCase: false,
+															inverted:   false,
+														},
+													},
+												},
+											},
+											&litMatcher{
+												pos:        position{line: 2782, col: 9, offset: 88667},
+												val:        ":",
+												ignoreCase: false,
+												want:       "\":\"",
+											},
+											&andCodeExpr{
+												pos: position{line: 2783, col: 9, offset: 88679},
+												run: (*parser).callonQuotedTextElement11,
+											},
+										},
+									},
+								},
 								&labeledExpr{
-									pos:   position{line: 2780, col: 5, offset: 88563},
+									pos:   position{line: 2787, col: 5, offset: 88756},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2780, col: 11, offset: 88569},
-										run: (*parser).callonQuotedTextElement5,
+										pos: position{line: 2787, col: 11, offset: 88762},
+										run: (*parser).callonQuotedTextElement13,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2780, col: 11, offset: 88569},
+											pos: position{line: 2787, col: 11, offset: 88762},
 											expr: &charClassMatcher{
-												pos:        position{line: 2780, col: 11, offset: 88569},
+												pos:        position{line: 2787, col: 11, offset: 88762},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40962,44 +41036,44 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2783, col: 5, offset: 88627},
+									pos: position{line: 2790, col: 5, offset: 88820},
 									expr: &seqExpr{
-										pos: position{line: 2784, col: 9, offset: 88638},
+										pos: position{line: 2791, col: 9, offset: 88831},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2784, col: 9, offset: 88638},
+												pos:        position{line: 2791, col: 9, offset: 88831},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2785, col: 9, offset: 88687},
-												run: (*parser).callonQuotedTextElement11,
+												pos: position{line: 2792, col: 9, offset: 88880},
+												run: (*parser).callonQuotedTextElement19,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2789, col: 5, offset: 88767},
+									pos: position{line: 2796, col: 5, offset: 88960},
 									expr: &seqExpr{
-										pos: position{line: 2790, col: 9, offset: 88778},
+										pos: position{line: 2797, col: 9, offset: 88971},
 										exprs: []interface{}{
 											&zeroOrMoreExpr{
-												pos: position{line: 2790, col: 9, offset: 88778},
+												pos: position{line: 2797, col: 9, offset: 88971},
 												expr: &seqExpr{
-													pos: position{line: 2790, col: 10, offset: 88779},
+													pos: position{line: 2797, col: 10, offset: 88972},
 													exprs: []interface{}{
 														&charClassMatcher{
-															pos:        position{line: 2790, col: 10, offset: 88779},
+															pos:        position{line: 2797, col: 10, offset: 88972},
 															val:        "[._%+-]",
 															chars:      []rune{'.', '_', '%', '+', '-'},
 															ignoreCase: false,
 															inverted:   false,
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2790, col: 18, offset: 88787},
+															pos: position{line: 2797, col: 18, offset: 88980},
 															expr: &charClassMatcher{
-																pos:        position{line: 2790, col: 18, offset: 88787},
+																pos:        position{line: 2797, col: 18, offset: 88980},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -41010,13 +41084,13 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 2790, col: 30, offset: 88799},
+												pos:        position{line: 2797, col: 30, offset: 88992},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2790, col: 34, offset: 88803},
+												pos:        position{line: 2797, col: 34, offset: 88996},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41029,12 +41103,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2885, col: 11, offset: 91403},
-						run: (*parser).callonQuotedTextElement21,
+						pos: position{line: 2892, col: 11, offset: 91596},
+						run: (*parser).callonQuotedTextElement29,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2885, col: 11, offset: 91403},
+							pos: position{line: 2892, col: 11, offset: 91596},
 							expr: &charClassMatcher{
-								pos:        position{line: 2885, col: 11, offset: 91403},
+								pos:        position{line: 2892, col: 11, offset: 91596},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -41048,13 +41122,13 @@ var g = &grammar{
 					},
 					&actionExpr{
 						pos: position{line: 2506, col: 5, offset: 80945},
-						run: (*parser).callonQuotedTextElement25,
+						run: (*parser).callonQuotedTextElement33,
 						expr: &seqExpr{
 							pos: position{line: 2506, col: 5, offset: 80945},
 							exprs: []interface{}{
 								&andCodeExpr{
 									pos: position{line: 2506, col: 5, offset: 80945},
-									run: (*parser).callonQuotedTextElement27,
+									run: (*parser).callonQuotedTextElement35,
 								},
 								&litMatcher{
 									pos:        position{line: 2509, col: 5, offset: 81016},
@@ -41077,17 +41151,17 @@ var g = &grammar{
 					},
 					&actionExpr{
 						pos: position{line: 2515, col: 5, offset: 81214},
-						run: (*parser).callonQuotedTextElement31,
+						run: (*parser).callonQuotedTextElement39,
 						expr: &seqExpr{
 							pos: position{line: 2515, col: 5, offset: 81214},
 							exprs: []interface{}{
 								&andCodeExpr{
 									pos: position{line: 2515, col: 5, offset: 81214},
-									run: (*parser).callonQuotedTextElement33,
+									run: (*parser).callonQuotedTextElement41,
 								},
 								&andCodeExpr{
 									pos: position{line: 2518, col: 5, offset: 81285},
-									run: (*parser).callonQuotedTextElement34,
+									run: (*parser).callonQuotedTextElement42,
 								},
 								&litMatcher{
 									pos:        position{line: 2522, col: 5, offset: 81410},
@@ -41109,27 +41183,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2798, col: 5, offset: 88996},
-						run: (*parser).callonQuotedTextElement38,
+						pos: position{line: 2805, col: 5, offset: 89189},
+						run: (*parser).callonQuotedTextElement46,
 						expr: &choiceExpr{
-							pos: position{line: 2799, col: 9, offset: 89006},
+							pos: position{line: 2806, col: 9, offset: 89199},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2799, col: 10, offset: 89007},
+									pos:        position{line: 2806, col: 10, offset: 89200},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2801, col: 13, offset: 89104},
+									pos: position{line: 2808, col: 13, offset: 89297},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2801, col: 13, offset: 89104},
-											run: (*parser).callonQuotedTextElement42,
+											pos: position{line: 2808, col: 13, offset: 89297},
+											run: (*parser).callonQuotedTextElement50,
 										},
 										&litMatcher{
-											pos:        position{line: 2804, col: 13, offset: 89204},
+											pos:        position{line: 2811, col: 13, offset: 89397},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -41137,20 +41211,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2804, col: 19, offset: 89210},
+									pos:        position{line: 2811, col: 19, offset: 89403},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2807, col: 13, offset: 89248},
+									pos: position{line: 2814, col: 13, offset: 89441},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2807, col: 13, offset: 89248},
-											run: (*parser).callonQuotedTextElement46,
+											pos: position{line: 2814, col: 13, offset: 89441},
+											run: (*parser).callonQuotedTextElement54,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2810, col: 14, offset: 89341},
+											pos:        position{line: 2817, col: 14, offset: 89534},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -41159,18 +41233,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2812, col: 12, offset: 89385},
+									pos: position{line: 2819, col: 12, offset: 89578},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2812, col: 12, offset: 89385},
+											pos:        position{line: 2819, col: 12, offset: 89578},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2812, col: 16, offset: 89389},
+											pos: position{line: 2819, col: 16, offset: 89582},
 											expr: &litMatcher{
-												pos:        position{line: 2812, col: 17, offset: 89390},
+												pos:        position{line: 2819, col: 17, offset: 89583},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -41183,13 +41257,13 @@ var g = &grammar{
 					},
 					&actionExpr{
 						pos: position{line: 636, col: 5, offset: 20143},
-						run: (*parser).callonQuotedTextElement52,
+						run: (*parser).callonQuotedTextElement60,
 						expr: &seqExpr{
 							pos: position{line: 636, col: 5, offset: 20143},
 							exprs: []interface{}{
 								&andCodeExpr{
 									pos: position{line: 636, col: 5, offset: 20143},
-									run: (*parser).callonQuotedTextElement54,
+									run: (*parser).callonQuotedTextElement62,
 								},
 								&labeledExpr{
 									pos:   position{line: 639, col: 5, offset: 20215},
@@ -41199,7 +41273,7 @@ var g = &grammar{
 										alternatives: []interface{}{
 											&actionExpr{
 												pos: position{line: 645, col: 5, offset: 20353},
-												run: (*parser).callonQuotedTextElement57,
+												run: (*parser).callonQuotedTextElement65,
 												expr: &seqExpr{
 													pos: position{line: 645, col: 5, offset: 20353},
 													exprs: []interface{}{
@@ -41214,7 +41288,7 @@ var g = &grammar{
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 317, col: 18, offset: 9667},
-																run: (*parser).callonQuotedTextElement61,
+																run: (*parser).callonQuotedTextElement69,
 																expr: &seqExpr{
 																	pos: position{line: 317, col: 18, offset: 9667},
 																	exprs: []interface{}{
@@ -41252,7 +41326,7 @@ var g = &grammar{
 											},
 											&actionExpr{
 												pos: position{line: 652, col: 5, offset: 20621},
-												run: (*parser).callonQuotedTextElement67,
+												run: (*parser).callonQuotedTextElement75,
 												expr: &seqExpr{
 													pos: position{line: 652, col: 5, offset: 20621},
 													exprs: []interface{}{
@@ -41267,7 +41341,7 @@ var g = &grammar{
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 317, col: 18, offset: 9667},
-																run: (*parser).callonQuotedTextElement71,
+																run: (*parser).callonQuotedTextElement79,
 																expr: &seqExpr{
 																	pos: position{line: 317, col: 18, offset: 9667},
 																	exprs: []interface{}{
@@ -41305,7 +41379,7 @@ var g = &grammar{
 											},
 											&actionExpr{
 												pos: position{line: 658, col: 25, offset: 20825},
-												run: (*parser).callonQuotedTextElement77,
+												run: (*parser).callonQuotedTextElement85,
 												expr: &seqExpr{
 													pos: position{line: 658, col: 25, offset: 20825},
 													exprs: []interface{}{
@@ -41320,7 +41394,7 @@ var g = &grammar{
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 317, col: 18, offset: 9667},
-																run: (*parser).callonQuotedTextElement81,
+																run: (*parser).callonQuotedTextElement89,
 																expr: &seqExpr{
 																	pos: position{line: 317, col: 18, offset: 9667},
 																	exprs: []interface{}{
@@ -41354,7 +41428,7 @@ var g = &grammar{
 																pos: position{line: 658, col: 62, offset: 20862},
 																expr: &actionExpr{
 																	pos: position{line: 666, col: 17, offset: 21159},
-																	run: (*parser).callonQuotedTextElement88,
+																	run: (*parser).callonQuotedTextElement96,
 																	expr: &seqExpr{
 																		pos: position{line: 666, col: 17, offset: 21159},
 																		exprs: []interface{}{
@@ -41372,7 +41446,7 @@ var g = &grammar{
 																					alternatives: []interface{}{
 																						&actionExpr{
 																							pos: position{line: 666, col: 28, offset: 21170},
-																							run: (*parser).callonQuotedTextElement93,
+																							run: (*parser).callonQuotedTextElement101,
 																							expr: &charClassMatcher{
 																								pos:        position{line: 666, col: 28, offset: 21170},
 																								val:        "[A-Za-z]",
@@ -41383,7 +41457,7 @@ var g = &grammar{
 																						},
 																						&actionExpr{
 																							pos: position{line: 668, col: 9, offset: 21224},
-																							run: (*parser).callonQuotedTextElement95,
+																							run: (*parser).callonQuotedTextElement103,
 																							expr: &oneOrMoreExpr{
 																								pos: position{line: 668, col: 9, offset: 21224},
 																								expr: &charClassMatcher{
@@ -41414,7 +41488,7 @@ var g = &grammar{
 											},
 											&actionExpr{
 												pos: position{line: 662, col: 25, offset: 20996},
-												run: (*parser).callonQuotedTextElement99,
+												run: (*parser).callonQuotedTextElement107,
 												expr: &seqExpr{
 													pos: position{line: 662, col: 25, offset: 20996},
 													exprs: []interface{}{
@@ -41429,7 +41503,7 @@ var g = &grammar{
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 317, col: 18, offset: 9667},
-																run: (*parser).callonQuotedTextElement103,
+																run: (*parser).callonQuotedTextElement111,
 																expr: &seqExpr{
 																	pos: position{line: 317, col: 18, offset: 9667},
 																	exprs: []interface{}{
@@ -41463,7 +41537,7 @@ var g = &grammar{
 																pos: position{line: 662, col: 63, offset: 21034},
 																expr: &actionExpr{
 																	pos: position{line: 666, col: 17, offset: 21159},
-																	run: (*parser).callonQuotedTextElement110,
+																	run: (*parser).callonQuotedTextElement118,
 																	expr: &seqExpr{
 																		pos: position{line: 666, col: 17, offset: 21159},
 																		exprs: []interface{}{
@@ -41481,7 +41555,7 @@ var g = &grammar{
 																					alternatives: []interface{}{
 																						&actionExpr{
 																							pos: position{line: 666, col: 28, offset: 21170},
-																							run: (*parser).callonQuotedTextElement115,
+																							run: (*parser).callonQuotedTextElement123,
 																							expr: &charClassMatcher{
 																								pos:        position{line: 666, col: 28, offset: 21170},
 																								val:        "[A-Za-z]",
@@ -41492,7 +41566,7 @@ var g = &grammar{
 																						},
 																						&actionExpr{
 																							pos: position{line: 668, col: 9, offset: 21224},
-																							run: (*parser).callonQuotedTextElement117,
+																							run: (*parser).callonQuotedTextElement125,
 																							expr: &oneOrMoreExpr{
 																								pos: position{line: 668, col: 9, offset: 21224},
 																								expr: &charClassMatcher{
@@ -41528,31 +41602,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2894, col: 18, offset: 91613},
-						run: (*parser).callonQuotedTextElement121,
+						pos: position{line: 2901, col: 18, offset: 91806},
+						run: (*parser).callonQuotedTextElement129,
 						expr: &seqExpr{
-							pos: position{line: 2894, col: 18, offset: 91613},
+							pos: position{line: 2901, col: 18, offset: 91806},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2890, col: 12, offset: 91513},
-									run: (*parser).callonQuotedTextElement123,
+									pos: position{line: 2897, col: 12, offset: 91706},
+									run: (*parser).callonQuotedTextElement131,
 									expr: &choiceExpr{
-										pos: position{line: 2890, col: 13, offset: 91514},
+										pos: position{line: 2897, col: 13, offset: 91707},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2890, col: 13, offset: 91514},
+												pos:        position{line: 2897, col: 13, offset: 91707},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2890, col: 20, offset: 91521},
+												pos:        position{line: 2897, col: 20, offset: 91714},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2890, col: 29, offset: 91530},
+												pos:        position{line: 2897, col: 29, offset: 91723},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -41561,27 +41635,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2894, col: 26, offset: 91621},
+									pos: position{line: 2901, col: 26, offset: 91814},
 									expr: &actionExpr{
-										pos: position{line: 2890, col: 12, offset: 91513},
-										run: (*parser).callonQuotedTextElement129,
+										pos: position{line: 2897, col: 12, offset: 91706},
+										run: (*parser).callonQuotedTextElement137,
 										expr: &choiceExpr{
-											pos: position{line: 2890, col: 13, offset: 91514},
+											pos: position{line: 2897, col: 13, offset: 91707},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2890, col: 13, offset: 91514},
+													pos:        position{line: 2897, col: 13, offset: 91707},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2890, col: 20, offset: 91521},
+													pos:        position{line: 2897, col: 20, offset: 91714},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2890, col: 29, offset: 91530},
+													pos:        position{line: 2897, col: 29, offset: 91723},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -41603,20 +41677,20 @@ var g = &grammar{
 					},
 					&actionExpr{
 						pos: position{line: 2475, col: 5, offset: 79774},
-						run: (*parser).callonQuotedTextElement136,
+						run: (*parser).callonQuotedTextElement144,
 						expr: &seqExpr{
 							pos: position{line: 2475, col: 5, offset: 79774},
 							exprs: []interface{}{
 								&andCodeExpr{
 									pos: position{line: 2475, col: 5, offset: 79774},
-									run: (*parser).callonQuotedTextElement138,
+									run: (*parser).callonQuotedTextElement146,
 								},
 								&labeledExpr{
 									pos:   position{line: 2478, col: 5, offset: 79850},
 									label: "element",
 									expr: &actionExpr{
 										pos: position{line: 2479, col: 9, offset: 79868},
-										run: (*parser).callonQuotedTextElement140,
+										run: (*parser).callonQuotedTextElement148,
 										expr: &charClassMatcher{
 											pos:        position{line: 2479, col: 10, offset: 79869},
 											val:        "[<>&]",
@@ -41631,7 +41705,7 @@ var g = &grammar{
 					},
 					&actionExpr{
 						pos: position{line: 1199, col: 23, offset: 37036},
-						run: (*parser).callonQuotedTextElement142,
+						run: (*parser).callonQuotedTextElement150,
 						expr: &seqExpr{
 							pos: position{line: 1199, col: 23, offset: 37036},
 							exprs: []interface{}{
@@ -41646,7 +41720,7 @@ var g = &grammar{
 									label: "ref",
 									expr: &actionExpr{
 										pos: position{line: 1199, col: 56, offset: 37069},
-										run: (*parser).callonQuotedTextElement146,
+										run: (*parser).callonQuotedTextElement154,
 										expr: &oneOrMoreExpr{
 											pos: position{line: 1199, col: 56, offset: 37069},
 											expr: &charClassMatcher{
@@ -41667,16 +41741,16 @@ var g = &grammar{
 								},
 								&andCodeExpr{
 									pos: position{line: 1200, col: 5, offset: 37141},
-									run: (*parser).callonQuotedTextElement150,
+									run: (*parser).callonQuotedTextElement158,
 								},
 							},
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2820, col: 12, offset: 89650},
-						run: (*parser).callonQuotedTextElement151,
+						pos: position{line: 2827, col: 12, offset: 89843},
+						run: (*parser).callonQuotedTextElement159,
 						expr: &charClassMatcher{
-							pos:        position{line: 2820, col: 12, offset: 89650},
+							pos:        position{line: 2827, col: 12, offset: 89843},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -41740,9 +41814,9 @@ var g = &grammar{
 					pos: position{line: 1900, col: 5, offset: 61393},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2898, col: 11, offset: 91676},
+							pos: position{line: 2905, col: 11, offset: 91869},
 							expr: &anyMatcher{
-								line: 2898, col: 13, offset: 91678,
+								line: 2905, col: 13, offset: 91871,
 							},
 						},
 						&notExpr{
@@ -41853,10 +41927,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 1935, col: 5, offset: 62403},
 							expr: &actionExpr{
-								pos: position{line: 2881, col: 10, offset: 91342},
+								pos: position{line: 2888, col: 10, offset: 91535},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2881, col: 10, offset: 91342},
+									pos:        position{line: 2888, col: 10, offset: 91535},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41893,9 +41967,9 @@ var g = &grammar{
 					pos: position{line: 1944, col: 5, offset: 62662},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2898, col: 11, offset: 91676},
+							pos: position{line: 2905, col: 11, offset: 91869},
 							expr: &anyMatcher{
-								line: 2898, col: 13, offset: 91678,
+								line: 2905, col: 13, offset: 91871,
 							},
 						},
 						&notExpr{
@@ -42162,9 +42236,9 @@ var g = &grammar{
 					pos: position{line: 1989, col: 5, offset: 64315},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2898, col: 11, offset: 91676},
+							pos: position{line: 2905, col: 11, offset: 91869},
 							expr: &anyMatcher{
-								line: 2898, col: 13, offset: 91678,
+								line: 2905, col: 13, offset: 91871,
 							},
 						},
 						&notExpr{
@@ -42275,10 +42349,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 2025, col: 5, offset: 65343},
 							expr: &actionExpr{
-								pos: position{line: 2881, col: 10, offset: 91342},
+								pos: position{line: 2888, col: 10, offset: 91535},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2881, col: 10, offset: 91342},
+									pos:        position{line: 2888, col: 10, offset: 91535},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42315,9 +42389,9 @@ var g = &grammar{
 					pos: position{line: 2034, col: 5, offset: 65605},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2898, col: 11, offset: 91676},
+							pos: position{line: 2905, col: 11, offset: 91869},
 							expr: &anyMatcher{
-								line: 2898, col: 13, offset: 91678,
+								line: 2905, col: 13, offset: 91871,
 							},
 						},
 						&notExpr{
@@ -42584,9 +42658,9 @@ var g = &grammar{
 					pos: position{line: 2079, col: 5, offset: 67434},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2898, col: 11, offset: 91676},
+							pos: position{line: 2905, col: 11, offset: 91869},
 							expr: &anyMatcher{
-								line: 2898, col: 13, offset: 91678,
+								line: 2905, col: 13, offset: 91871,
 							},
 						},
 						&notExpr{
@@ -42708,10 +42782,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 2117, col: 5, offset: 68548},
 							expr: &actionExpr{
-								pos: position{line: 2881, col: 10, offset: 91342},
+								pos: position{line: 2888, col: 10, offset: 91535},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2881, col: 10, offset: 91342},
+									pos:        position{line: 2888, col: 10, offset: 91535},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42748,9 +42822,9 @@ var g = &grammar{
 					pos: position{line: 2126, col: 5, offset: 68816},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2898, col: 11, offset: 91676},
+							pos: position{line: 2905, col: 11, offset: 91869},
 							expr: &anyMatcher{
-								line: 2898, col: 13, offset: 91678,
+								line: 2905, col: 13, offset: 91871,
 							},
 						},
 						&notExpr{
@@ -42984,9 +43058,9 @@ var g = &grammar{
 					pos: position{line: 2171, col: 5, offset: 70528},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2898, col: 11, offset: 91676},
+							pos: position{line: 2905, col: 11, offset: 91869},
 							expr: &anyMatcher{
-								line: 2898, col: 13, offset: 91678,
+								line: 2905, col: 13, offset: 91871,
 							},
 						},
 						&notExpr{
@@ -43097,10 +43171,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 2206, col: 5, offset: 71554},
 							expr: &actionExpr{
-								pos: position{line: 2881, col: 10, offset: 91342},
+								pos: position{line: 2888, col: 10, offset: 91535},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2881, col: 10, offset: 91342},
+									pos:        position{line: 2888, col: 10, offset: 91535},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43137,9 +43211,9 @@ var g = &grammar{
 					pos: position{line: 2215, col: 5, offset: 71817},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2898, col: 11, offset: 91676},
+							pos: position{line: 2905, col: 11, offset: 91869},
 							expr: &anyMatcher{
-								line: 2898, col: 13, offset: 91678,
+								line: 2905, col: 13, offset: 91871,
 							},
 						},
 						&notExpr{
@@ -43681,12 +43755,12 @@ var g = &grammar{
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2885, col: 11, offset: 91403},
+							pos: position{line: 2892, col: 11, offset: 91596},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2885, col: 11, offset: 91403},
+								pos: position{line: 2892, col: 11, offset: 91596},
 								expr: &charClassMatcher{
-									pos:        position{line: 2885, col: 11, offset: 91403},
+									pos:        position{line: 2892, col: 11, offset: 91596},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43703,28 +43777,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2903, col: 8, offset: 91740},
+							pos: position{line: 2910, col: 8, offset: 91933},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2890, col: 12, offset: 91513},
+									pos: position{line: 2897, col: 12, offset: 91706},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2890, col: 13, offset: 91514},
+										pos: position{line: 2897, col: 13, offset: 91707},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2890, col: 13, offset: 91514},
+												pos:        position{line: 2897, col: 13, offset: 91707},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2890, col: 20, offset: 91521},
+												pos:        position{line: 2897, col: 20, offset: 91714},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2890, col: 29, offset: 91530},
+												pos:        position{line: 2897, col: 29, offset: 91723},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -43733,9 +43807,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2900, col: 8, offset: 91690},
+									pos: position{line: 2907, col: 8, offset: 91883},
 									expr: &anyMatcher{
-										line: 2900, col: 9, offset: 91691,
+										line: 2907, col: 9, offset: 91884,
 									},
 								},
 							},
@@ -43784,28 +43858,28 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 2324, col: 5, offset: 75528},
 							expr: &choiceExpr{
-								pos: position{line: 2903, col: 8, offset: 91740},
+								pos: position{line: 2910, col: 8, offset: 91933},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2890, col: 12, offset: 91513},
+										pos: position{line: 2897, col: 12, offset: 91706},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2890, col: 13, offset: 91514},
+											pos: position{line: 2897, col: 13, offset: 91707},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2890, col: 13, offset: 91514},
+													pos:        position{line: 2897, col: 13, offset: 91707},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2890, col: 20, offset: 91521},
+													pos:        position{line: 2897, col: 20, offset: 91714},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2890, col: 29, offset: 91530},
+													pos:        position{line: 2897, col: 29, offset: 91723},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -43814,9 +43888,9 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2900, col: 8, offset: 91690},
+										pos: position{line: 2907, col: 8, offset: 91883},
 										expr: &anyMatcher{
-											line: 2900, col: 9, offset: 91691,
+											line: 2907, col: 9, offset: 91884,
 										},
 									},
 								},
@@ -43833,10 +43907,10 @@ var g = &grammar{
 										name: "SectionTitleLineElement",
 									},
 									&actionExpr{
-										pos: position{line: 2820, col: 12, offset: 89650},
+										pos: position{line: 2827, col: 12, offset: 89843},
 										run: (*parser).callonSectionTitleElement15,
 										expr: &charClassMatcher{
-											pos:        position{line: 2820, col: 12, offset: 89650},
+											pos:        position{line: 2827, col: 12, offset: 89843},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -43863,10 +43937,10 @@ var g = &grammar{
 							pos:   position{line: 2331, col: 5, offset: 75681},
 							label: "start",
 							expr: &actionExpr{
-								pos: position{line: 2906, col: 16, offset: 91864},
+								pos: position{line: 2913, col: 16, offset: 92057},
 								run: (*parser).callonSectionTitleLineElement4,
 								expr: &litMatcher{
-									pos:        position{line: 2906, col: 16, offset: 91864},
+									pos:        position{line: 2913, col: 16, offset: 92057},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -43885,16 +43959,53 @@ var g = &grammar{
 										expr: &seqExpr{
 											pos: position{line: 2780, col: 5, offset: 88563},
 											exprs: []interface{}{
+												&notExpr{
+													pos: position{line: 2780, col: 5, offset: 88563},
+													expr: &seqExpr{
+														pos: position{line: 2781, col: 9, offset: 88574},
+														exprs: []interface{}{
+															&labeledExpr{
+																pos:   position{line: 2781, col: 9, offset: 88574},
+																label: "name",
+																expr: &actionExpr{
+																	pos: position{line: 2760, col: 18, offset: 88080},
+																	run: (*parser).callonSectionTitleLineElement13,
+																	expr: &oneOrMoreExpr{
+																		pos: position{line: 2760, col: 19, offset: 88081},
+																		expr: &charClassMatcher{
+																			pos:        position{line: 2760, col: 19, offset: 88081},
+																			val:        "[_-\\pL\\pN]",
+																			chars:      []rune{'_', '-'},
+																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																			ignoreCase: false,
+																			inverted:   false,
+																		},
+																	},
+																},
+															},
+															&litMatcher{
+																pos:        position{line: 2782, col: 9, offset: 88667},
+																val:        ":",
+																ignoreCase: false,
+																want:       "\":\"",
+															},
+															&andCodeExpr{
+																pos: position{line: 2783, col: 9, offset: 88679},
+																run: (*parser).callonSectionTitleLineElement17,
+															},
+														},
+													},
+												},
 												&labeledExpr{
-													pos:   position{line: 2780, col: 5, offset: 88563},
+													pos:   position{line: 2787, col: 5, offset: 88756},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2780, col: 11, offset: 88569},
-														run: (*parser).callonSectionTitleLineElement11,
+														pos: position{line: 2787, col: 11, offset: 88762},
+														run: (*parser).callonSectionTitleLineElement19,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2780, col: 11, offset: 88569},
+															pos: position{line: 2787, col: 11, offset: 88762},
 															expr: &charClassMatcher{
-																pos:        position{line: 2780, col: 11, offset: 88569},
+																pos:        position{line: 2787, col: 11, offset: 88762},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -43904,44 +44015,44 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2783, col: 5, offset: 88627},
+													pos: position{line: 2790, col: 5, offset: 88820},
 													expr: &seqExpr{
-														pos: position{line: 2784, col: 9, offset: 88638},
+														pos: position{line: 2791, col: 9, offset: 88831},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2784, col: 9, offset: 88638},
+																pos:        position{line: 2791, col: 9, offset: 88831},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2785, col: 9, offset: 88687},
-																run: (*parser).callonSectionTitleLineElement17,
+																pos: position{line: 2792, col: 9, offset: 88880},
+																run: (*parser).callonSectionTitleLineElement25,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2789, col: 5, offset: 88767},
+													pos: position{line: 2796, col: 5, offset: 88960},
 													expr: &seqExpr{
-														pos: position{line: 2790, col: 9, offset: 88778},
+														pos: position{line: 2797, col: 9, offset: 88971},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2790, col: 9, offset: 88778},
+																pos: position{line: 2797, col: 9, offset: 88971},
 																expr: &seqExpr{
-																	pos: position{line: 2790, col: 10, offset: 88779},
+																	pos: position{line: 2797, col: 10, offset: 88972},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2790, col: 10, offset: 88779},
+																			pos:        position{line: 2797, col: 10, offset: 88972},
 																			val:        "[._%+-]",
 																			chars:      []rune{'.', '_', '%', '+', '-'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2790, col: 18, offset: 88787},
+																			pos: position{line: 2797, col: 18, offset: 88980},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2790, col: 18, offset: 88787},
+																				pos:        position{line: 2797, col: 18, offset: 88980},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -43952,13 +44063,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2790, col: 30, offset: 88799},
+																pos:        position{line: 2797, col: 30, offset: 88992},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2790, col: 34, offset: 88803},
+																pos:        position{line: 2797, col: 34, offset: 88996},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -43971,12 +44082,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2885, col: 11, offset: 91403},
-										run: (*parser).callonSectionTitleLineElement27,
+										pos: position{line: 2892, col: 11, offset: 91596},
+										run: (*parser).callonSectionTitleLineElement35,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2885, col: 11, offset: 91403},
+											pos: position{line: 2892, col: 11, offset: 91596},
 											expr: &charClassMatcher{
-												pos:        position{line: 2885, col: 11, offset: 91403},
+												pos:        position{line: 2892, col: 11, offset: 91596},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -43986,13 +44097,13 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 2506, col: 5, offset: 80945},
-										run: (*parser).callonSectionTitleLineElement30,
+										run: (*parser).callonSectionTitleLineElement38,
 										expr: &seqExpr{
 											pos: position{line: 2506, col: 5, offset: 80945},
 											exprs: []interface{}{
 												&andCodeExpr{
 													pos: position{line: 2506, col: 5, offset: 80945},
-													run: (*parser).callonSectionTitleLineElement32,
+													run: (*parser).callonSectionTitleLineElement40,
 												},
 												&litMatcher{
 													pos:        position{line: 2509, col: 5, offset: 81016},
@@ -44015,17 +44126,17 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 2515, col: 5, offset: 81214},
-										run: (*parser).callonSectionTitleLineElement36,
+										run: (*parser).callonSectionTitleLineElement44,
 										expr: &seqExpr{
 											pos: position{line: 2515, col: 5, offset: 81214},
 											exprs: []interface{}{
 												&andCodeExpr{
 													pos: position{line: 2515, col: 5, offset: 81214},
-													run: (*parser).callonSectionTitleLineElement38,
+													run: (*parser).callonSectionTitleLineElement46,
 												},
 												&andCodeExpr{
 													pos: position{line: 2518, col: 5, offset: 81285},
-													run: (*parser).callonSectionTitleLineElement39,
+													run: (*parser).callonSectionTitleLineElement47,
 												},
 												&litMatcher{
 													pos:        position{line: 2522, col: 5, offset: 81410},
@@ -44051,27 +44162,27 @@ var g = &grammar{
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2798, col: 5, offset: 88996},
-										run: (*parser).callonSectionTitleLineElement44,
+										pos: position{line: 2805, col: 5, offset: 89189},
+										run: (*parser).callonSectionTitleLineElement52,
 										expr: &choiceExpr{
-											pos: position{line: 2799, col: 9, offset: 89006},
+											pos: position{line: 2806, col: 9, offset: 89199},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2799, col: 10, offset: 89007},
+													pos:        position{line: 2806, col: 10, offset: 89200},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2801, col: 13, offset: 89104},
+													pos: position{line: 2808, col: 13, offset: 89297},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2801, col: 13, offset: 89104},
-															run: (*parser).callonSectionTitleLineElement48,
+															pos: position{line: 2808, col: 13, offset: 89297},
+															run: (*parser).callonSectionTitleLineElement56,
 														},
 														&litMatcher{
-															pos:        position{line: 2804, col: 13, offset: 89204},
+															pos:        position{line: 2811, col: 13, offset: 89397},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -44079,20 +44190,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2804, col: 19, offset: 89210},
+													pos:        position{line: 2811, col: 19, offset: 89403},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2807, col: 13, offset: 89248},
+													pos: position{line: 2814, col: 13, offset: 89441},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2807, col: 13, offset: 89248},
-															run: (*parser).callonSectionTitleLineElement52,
+															pos: position{line: 2814, col: 13, offset: 89441},
+															run: (*parser).callonSectionTitleLineElement60,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2810, col: 14, offset: 89341},
+															pos:        position{line: 2817, col: 14, offset: 89534},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -44101,18 +44212,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2812, col: 12, offset: 89385},
+													pos: position{line: 2819, col: 12, offset: 89578},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2812, col: 12, offset: 89385},
+															pos:        position{line: 2819, col: 12, offset: 89578},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2812, col: 16, offset: 89389},
+															pos: position{line: 2819, col: 16, offset: 89582},
 															expr: &litMatcher{
-																pos:        position{line: 2812, col: 17, offset: 89390},
+																pos:        position{line: 2819, col: 17, offset: 89583},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -44137,20 +44248,20 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 2475, col: 5, offset: 79774},
-										run: (*parser).callonSectionTitleLineElement61,
+										run: (*parser).callonSectionTitleLineElement69,
 										expr: &seqExpr{
 											pos: position{line: 2475, col: 5, offset: 79774},
 											exprs: []interface{}{
 												&andCodeExpr{
 													pos: position{line: 2475, col: 5, offset: 79774},
-													run: (*parser).callonSectionTitleLineElement63,
+													run: (*parser).callonSectionTitleLineElement71,
 												},
 												&labeledExpr{
 													pos:   position{line: 2478, col: 5, offset: 79850},
 													label: "element",
 													expr: &actionExpr{
 														pos: position{line: 2479, col: 9, offset: 79868},
-														run: (*parser).callonSectionTitleLineElement65,
+														run: (*parser).callonSectionTitleLineElement73,
 														expr: &charClassMatcher{
 															pos:        position{line: 2479, col: 10, offset: 79869},
 															val:        "[<>&]",
@@ -44169,13 +44280,13 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 636, col: 5, offset: 20143},
-										run: (*parser).callonSectionTitleLineElement68,
+										run: (*parser).callonSectionTitleLineElement76,
 										expr: &seqExpr{
 											pos: position{line: 636, col: 5, offset: 20143},
 											exprs: []interface{}{
 												&andCodeExpr{
 													pos: position{line: 636, col: 5, offset: 20143},
-													run: (*parser).callonSectionTitleLineElement70,
+													run: (*parser).callonSectionTitleLineElement78,
 												},
 												&labeledExpr{
 													pos:   position{line: 639, col: 5, offset: 20215},
@@ -44185,7 +44296,7 @@ var g = &grammar{
 														alternatives: []interface{}{
 															&actionExpr{
 																pos: position{line: 645, col: 5, offset: 20353},
-																run: (*parser).callonSectionTitleLineElement73,
+																run: (*parser).callonSectionTitleLineElement81,
 																expr: &seqExpr{
 																	pos: position{line: 645, col: 5, offset: 20353},
 																	exprs: []interface{}{
@@ -44200,7 +44311,7 @@ var g = &grammar{
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 317, col: 18, offset: 9667},
-																				run: (*parser).callonSectionTitleLineElement77,
+																				run: (*parser).callonSectionTitleLineElement85,
 																				expr: &seqExpr{
 																					pos: position{line: 317, col: 18, offset: 9667},
 																					exprs: []interface{}{
@@ -44238,7 +44349,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 652, col: 5, offset: 20621},
-																run: (*parser).callonSectionTitleLineElement83,
+																run: (*parser).callonSectionTitleLineElement91,
 																expr: &seqExpr{
 																	pos: position{line: 652, col: 5, offset: 20621},
 																	exprs: []interface{}{
@@ -44253,7 +44364,7 @@ var g = &grammar{
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 317, col: 18, offset: 9667},
-																				run: (*parser).callonSectionTitleLineElement87,
+																				run: (*parser).callonSectionTitleLineElement95,
 																				expr: &seqExpr{
 																					pos: position{line: 317, col: 18, offset: 9667},
 																					exprs: []interface{}{
@@ -44291,7 +44402,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 658, col: 25, offset: 20825},
-																run: (*parser).callonSectionTitleLineElement93,
+																run: (*parser).callonSectionTitleLineElement101,
 																expr: &seqExpr{
 																	pos: position{line: 658, col: 25, offset: 20825},
 																	exprs: []interface{}{
@@ -44306,7 +44417,7 @@ var g = &grammar{
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 317, col: 18, offset: 9667},
-																				run: (*parser).callonSectionTitleLineElement97,
+																				run: (*parser).callonSectionTitleLineElement105,
 																				expr: &seqExpr{
 																					pos: position{line: 317, col: 18, offset: 9667},
 																					exprs: []interface{}{
@@ -44340,7 +44451,7 @@ var g = &grammar{
 																				pos: position{line: 658, col: 62, offset: 20862},
 																				expr: &actionExpr{
 																					pos: position{line: 666, col: 17, offset: 21159},
-																					run: (*parser).callonSectionTitleLineElement104,
+																					run: (*parser).callonSectionTitleLineElement112,
 																					expr: &seqExpr{
 																						pos: position{line: 666, col: 17, offset: 21159},
 																						exprs: []interface{}{
@@ -44358,7 +44469,7 @@ var g = &grammar{
 																									alternatives: []interface{}{
 																										&actionExpr{
 																											pos: position{line: 666, col: 28, offset: 21170},
-																											run: (*parser).callonSectionTitleLineElement109,
+																											run: (*parser).callonSectionTitleLineElement117,
 																											expr: &charClassMatcher{
 																												pos:        position{line: 666, col: 28, offset: 21170},
 																												val:        "[A-Za-z]",
@@ -44369,7 +44480,7 @@ var g = &grammar{
 																										},
 																										&actionExpr{
 																											pos: position{line: 668, col: 9, offset: 21224},
-																											run: (*parser).callonSectionTitleLineElement111,
+																											run: (*parser).callonSectionTitleLineElement119,
 																											expr: &oneOrMoreExpr{
 																												pos: position{line: 668, col: 9, offset: 21224},
 																												expr: &charClassMatcher{
@@ -44400,7 +44511,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 662, col: 25, offset: 20996},
-																run: (*parser).callonSectionTitleLineElement115,
+																run: (*parser).callonSectionTitleLineElement123,
 																expr: &seqExpr{
 																	pos: position{line: 662, col: 25, offset: 20996},
 																	exprs: []interface{}{
@@ -44415,7 +44526,7 @@ var g = &grammar{
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 317, col: 18, offset: 9667},
-																				run: (*parser).callonSectionTitleLineElement119,
+																				run: (*parser).callonSectionTitleLineElement127,
 																				expr: &seqExpr{
 																					pos: position{line: 317, col: 18, offset: 9667},
 																					exprs: []interface{}{
@@ -44449,7 +44560,7 @@ var g = &grammar{
 																				pos: position{line: 662, col: 63, offset: 21034},
 																				expr: &actionExpr{
 																					pos: position{line: 666, col: 17, offset: 21159},
-																					run: (*parser).callonSectionTitleLineElement126,
+																					run: (*parser).callonSectionTitleLineElement134,
 																					expr: &seqExpr{
 																						pos: position{line: 666, col: 17, offset: 21159},
 																						exprs: []interface{}{
@@ -44467,7 +44578,7 @@ var g = &grammar{
 																									alternatives: []interface{}{
 																										&actionExpr{
 																											pos: position{line: 666, col: 28, offset: 21170},
-																											run: (*parser).callonSectionTitleLineElement131,
+																											run: (*parser).callonSectionTitleLineElement139,
 																											expr: &charClassMatcher{
 																												pos:        position{line: 666, col: 28, offset: 21170},
 																												val:        "[A-Za-z]",
@@ -44478,7 +44589,7 @@ var g = &grammar{
 																										},
 																										&actionExpr{
 																											pos: position{line: 668, col: 9, offset: 21224},
-																											run: (*parser).callonSectionTitleLineElement133,
+																											run: (*parser).callonSectionTitleLineElement141,
 																											expr: &oneOrMoreExpr{
 																												pos: position{line: 668, col: 9, offset: 21224},
 																												expr: &charClassMatcher{
@@ -44515,7 +44626,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1199, col: 23, offset: 37036},
-										run: (*parser).callonSectionTitleLineElement137,
+										run: (*parser).callonSectionTitleLineElement145,
 										expr: &seqExpr{
 											pos: position{line: 1199, col: 23, offset: 37036},
 											exprs: []interface{}{
@@ -44530,7 +44641,7 @@ var g = &grammar{
 													label: "ref",
 													expr: &actionExpr{
 														pos: position{line: 1199, col: 56, offset: 37069},
-														run: (*parser).callonSectionTitleLineElement141,
+														run: (*parser).callonSectionTitleLineElement149,
 														expr: &oneOrMoreExpr{
 															pos: position{line: 1199, col: 56, offset: 37069},
 															expr: &charClassMatcher{
@@ -44551,27 +44662,27 @@ var g = &grammar{
 												},
 												&andCodeExpr{
 													pos: position{line: 1200, col: 5, offset: 37141},
-													run: (*parser).callonSectionTitleLineElement145,
+													run: (*parser).callonSectionTitleLineElement153,
 												},
 											},
 										},
 									},
 									&actionExpr{
 										pos: position{line: 2358, col: 5, offset: 76484},
-										run: (*parser).callonSectionTitleLineElement146,
+										run: (*parser).callonSectionTitleLineElement154,
 										expr: &seqExpr{
 											pos: position{line: 2358, col: 5, offset: 76484},
 											exprs: []interface{}{
 												&andCodeExpr{
 													pos: position{line: 2358, col: 5, offset: 76484},
-													run: (*parser).callonSectionTitleLineElement148,
+													run: (*parser).callonSectionTitleLineElement156,
 												},
 												&labeledExpr{
 													pos:   position{line: 2361, col: 5, offset: 76539},
 													label: "id",
 													expr: &actionExpr{
 														pos: position{line: 403, col: 5, offset: 12344},
-														run: (*parser).callonSectionTitleLineElement150,
+														run: (*parser).callonSectionTitleLineElement158,
 														expr: &seqExpr{
 															pos: position{line: 403, col: 5, offset: 12344},
 															exprs: []interface{}{
@@ -44586,7 +44697,7 @@ var g = &grammar{
 																	label: "id",
 																	expr: &actionExpr{
 																		pos: position{line: 405, col: 9, offset: 12367},
-																		run: (*parser).callonSectionTitleLineElement154,
+																		run: (*parser).callonSectionTitleLineElement162,
 																		expr: &labeledExpr{
 																			pos:   position{line: 405, col: 9, offset: 12367},
 																			label: "elements",
@@ -44597,7 +44708,7 @@ var g = &grammar{
 																					alternatives: []interface{}{
 																						&actionExpr{
 																							pos: position{line: 406, col: 14, offset: 12391},
-																							run: (*parser).callonSectionTitleLineElement158,
+																							run: (*parser).callonSectionTitleLineElement166,
 																							expr: &oneOrMoreExpr{
 																								pos: position{line: 406, col: 14, offset: 12391},
 																								expr: &charClassMatcher{
@@ -44611,7 +44722,7 @@ var g = &grammar{
 																						},
 																						&actionExpr{
 																							pos: position{line: 1199, col: 23, offset: 37036},
-																							run: (*parser).callonSectionTitleLineElement161,
+																							run: (*parser).callonSectionTitleLineElement169,
 																							expr: &seqExpr{
 																								pos: position{line: 1199, col: 23, offset: 37036},
 																								exprs: []interface{}{
@@ -44626,7 +44737,7 @@ var g = &grammar{
 																										label: "ref",
 																										expr: &actionExpr{
 																											pos: position{line: 1199, col: 56, offset: 37069},
-																											run: (*parser).callonSectionTitleLineElement165,
+																											run: (*parser).callonSectionTitleLineElement173,
 																											expr: &oneOrMoreExpr{
 																												pos: position{line: 1199, col: 56, offset: 37069},
 																												expr: &charClassMatcher{
@@ -44647,20 +44758,20 @@ var g = &grammar{
 																									},
 																									&andCodeExpr{
 																										pos: position{line: 1200, col: 5, offset: 37141},
-																										run: (*parser).callonSectionTitleLineElement169,
+																										run: (*parser).callonSectionTitleLineElement177,
 																									},
 																								},
 																							},
 																						},
 																						&actionExpr{
 																							pos: position{line: 636, col: 5, offset: 20143},
-																							run: (*parser).callonSectionTitleLineElement170,
+																							run: (*parser).callonSectionTitleLineElement178,
 																							expr: &seqExpr{
 																								pos: position{line: 636, col: 5, offset: 20143},
 																								exprs: []interface{}{
 																									&andCodeExpr{
 																										pos: position{line: 636, col: 5, offset: 20143},
-																										run: (*parser).callonSectionTitleLineElement172,
+																										run: (*parser).callonSectionTitleLineElement180,
 																									},
 																									&labeledExpr{
 																										pos:   position{line: 639, col: 5, offset: 20215},
@@ -44670,7 +44781,7 @@ var g = &grammar{
 																											alternatives: []interface{}{
 																												&actionExpr{
 																													pos: position{line: 645, col: 5, offset: 20353},
-																													run: (*parser).callonSectionTitleLineElement175,
+																													run: (*parser).callonSectionTitleLineElement183,
 																													expr: &seqExpr{
 																														pos: position{line: 645, col: 5, offset: 20353},
 																														exprs: []interface{}{
@@ -44685,7 +44796,7 @@ var g = &grammar{
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 317, col: 18, offset: 9667},
-																																	run: (*parser).callonSectionTitleLineElement179,
+																																	run: (*parser).callonSectionTitleLineElement187,
 																																	expr: &seqExpr{
 																																		pos: position{line: 317, col: 18, offset: 9667},
 																																		exprs: []interface{}{
@@ -44723,7 +44834,7 @@ var g = &grammar{
 																												},
 																												&actionExpr{
 																													pos: position{line: 652, col: 5, offset: 20621},
-																													run: (*parser).callonSectionTitleLineElement185,
+																													run: (*parser).callonSectionTitleLineElement193,
 																													expr: &seqExpr{
 																														pos: position{line: 652, col: 5, offset: 20621},
 																														exprs: []interface{}{
@@ -44738,7 +44849,7 @@ var g = &grammar{
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 317, col: 18, offset: 9667},
-																																	run: (*parser).callonSectionTitleLineElement189,
+																																	run: (*parser).callonSectionTitleLineElement197,
 																																	expr: &seqExpr{
 																																		pos: position{line: 317, col: 18, offset: 9667},
 																																		exprs: []interface{}{
@@ -44776,7 +44887,7 @@ var g = &grammar{
 																												},
 																												&actionExpr{
 																													pos: position{line: 658, col: 25, offset: 20825},
-																													run: (*parser).callonSectionTitleLineElement195,
+																													run: (*parser).callonSectionTitleLineElement203,
 																													expr: &seqExpr{
 																														pos: position{line: 658, col: 25, offset: 20825},
 																														exprs: []interface{}{
@@ -44791,7 +44902,7 @@ var g = &grammar{
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 317, col: 18, offset: 9667},
-																																	run: (*parser).callonSectionTitleLineElement199,
+																																	run: (*parser).callonSectionTitleLineElement207,
 																																	expr: &seqExpr{
 																																		pos: position{line: 317, col: 18, offset: 9667},
 																																		exprs: []interface{}{
@@ -44825,7 +44936,7 @@ var g = &grammar{
 																																	pos: position{line: 658, col: 62, offset: 20862},
 																																	expr: &actionExpr{
 																																		pos: position{line: 666, col: 17, offset: 21159},
-																																		run: (*parser).callonSectionTitleLineElement206,
+																																		run: (*parser).callonSectionTitleLineElement214,
 																																		expr: &seqExpr{
 																																			pos: position{line: 666, col: 17, offset: 21159},
 																																			exprs: []interface{}{
@@ -44843,7 +44954,7 @@ var g = &grammar{
 																																						alternatives: []interface{}{
 																																							&actionExpr{
 																																								pos: position{line: 666, col: 28, offset: 21170},
-																																								run: (*parser).callonSectionTitleLineElement211,
+																																								run: (*parser).callonSectionTitleLineElement219,
 																																								expr: &charClassMatcher{
 																																									pos:        position{line: 666, col: 28, offset: 21170},
 																																									val:        "[A-Za-z]",
@@ -44854,7 +44965,7 @@ var g = &grammar{
 																																							},
 																																							&actionExpr{
 																																								pos: position{line: 668, col: 9, offset: 21224},
-																																								run: (*parser).callonSectionTitleLineElement213,
+																																								run: (*parser).callonSectionTitleLineElement221,
 																																								expr: &oneOrMoreExpr{
 																																									pos: position{line: 668, col: 9, offset: 21224},
 																																									expr: &charClassMatcher{
@@ -44885,7 +44996,7 @@ var g = &grammar{
 																												},
 																												&actionExpr{
 																													pos: position{line: 662, col: 25, offset: 20996},
-																													run: (*parser).callonSectionTitleLineElement217,
+																													run: (*parser).callonSectionTitleLineElement225,
 																													expr: &seqExpr{
 																														pos: position{line: 662, col: 25, offset: 20996},
 																														exprs: []interface{}{
@@ -44900,7 +45011,7 @@ var g = &grammar{
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 317, col: 18, offset: 9667},
-																																	run: (*parser).callonSectionTitleLineElement221,
+																																	run: (*parser).callonSectionTitleLineElement229,
 																																	expr: &seqExpr{
 																																		pos: position{line: 317, col: 18, offset: 9667},
 																																		exprs: []interface{}{
@@ -44934,7 +45045,7 @@ var g = &grammar{
 																																	pos: position{line: 662, col: 63, offset: 21034},
 																																	expr: &actionExpr{
 																																		pos: position{line: 666, col: 17, offset: 21159},
-																																		run: (*parser).callonSectionTitleLineElement228,
+																																		run: (*parser).callonSectionTitleLineElement236,
 																																		expr: &seqExpr{
 																																			pos: position{line: 666, col: 17, offset: 21159},
 																																			exprs: []interface{}{
@@ -44952,7 +45063,7 @@ var g = &grammar{
 																																						alternatives: []interface{}{
 																																							&actionExpr{
 																																								pos: position{line: 666, col: 28, offset: 21170},
-																																								run: (*parser).callonSectionTitleLineElement233,
+																																								run: (*parser).callonSectionTitleLineElement241,
 																																								expr: &charClassMatcher{
 																																									pos:        position{line: 666, col: 28, offset: 21170},
 																																									val:        "[A-Za-z]",
@@ -44963,7 +45074,7 @@ var g = &grammar{
 																																							},
 																																							&actionExpr{
 																																								pos: position{line: 668, col: 9, offset: 21224},
-																																								run: (*parser).callonSectionTitleLineElement235,
+																																								run: (*parser).callonSectionTitleLineElement243,
 																																								expr: &oneOrMoreExpr{
 																																									pos: position{line: 668, col: 9, offset: 21224},
 																																									expr: &charClassMatcher{
@@ -45000,7 +45111,7 @@ var g = &grammar{
 																						},
 																						&actionExpr{
 																							pos: position{line: 411, col: 16, offset: 12624},
-																							run: (*parser).callonSectionTitleLineElement239,
+																							run: (*parser).callonSectionTitleLineElement247,
 																							expr: &litMatcher{
 																								pos:        position{line: 411, col: 16, offset: 12624},
 																								val:        "{",
@@ -45027,10 +45138,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 2361, col: 26, offset: 76560},
 													expr: &actionExpr{
-														pos: position{line: 2881, col: 10, offset: 91342},
-														run: (*parser).callonSectionTitleLineElement243,
+														pos: position{line: 2888, col: 10, offset: 91535},
+														run: (*parser).callonSectionTitleLineElement251,
 														expr: &charClassMatcher{
-															pos:        position{line: 2881, col: 10, offset: 91342},
+															pos:        position{line: 2888, col: 10, offset: 91535},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -45041,28 +45152,28 @@ var g = &grammar{
 												&andExpr{
 													pos: position{line: 2361, col: 33, offset: 76567},
 													expr: &choiceExpr{
-														pos: position{line: 2903, col: 8, offset: 91740},
+														pos: position{line: 2910, col: 8, offset: 91933},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2890, col: 12, offset: 91513},
-																run: (*parser).callonSectionTitleLineElement247,
+																pos: position{line: 2897, col: 12, offset: 91706},
+																run: (*parser).callonSectionTitleLineElement255,
 																expr: &choiceExpr{
-																	pos: position{line: 2890, col: 13, offset: 91514},
+																	pos: position{line: 2897, col: 13, offset: 91707},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2890, col: 13, offset: 91514},
+																			pos:        position{line: 2897, col: 13, offset: 91707},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2890, col: 20, offset: 91521},
+																			pos:        position{line: 2897, col: 20, offset: 91714},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2890, col: 29, offset: 91530},
+																			pos:        position{line: 2897, col: 29, offset: 91723},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -45071,9 +45182,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2900, col: 8, offset: 91690},
+																pos: position{line: 2907, col: 8, offset: 91883},
 																expr: &anyMatcher{
-																	line: 2900, col: 9, offset: 91691,
+																	line: 2907, col: 9, offset: 91884,
 																},
 															},
 														},
@@ -45084,7 +45195,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1258, col: 5, offset: 38899},
-										run: (*parser).callonSectionTitleLineElement254,
+										run: (*parser).callonSectionTitleLineElement262,
 										expr: &seqExpr{
 											pos: position{line: 1258, col: 5, offset: 38899},
 											exprs: []interface{}{
@@ -45098,12 +45209,12 @@ var g = &grammar{
 													pos:   position{line: 1258, col: 14, offset: 38908},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2866, col: 7, offset: 90994},
-														run: (*parser).callonSectionTitleLineElement258,
+														pos: position{line: 2873, col: 7, offset: 91187},
+														run: (*parser).callonSectionTitleLineElement266,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2866, col: 7, offset: 90994},
+															pos: position{line: 2873, col: 7, offset: 91187},
 															expr: &charClassMatcher{
-																pos:        position{line: 2866, col: 7, offset: 90994},
+																pos:        position{line: 2873, col: 7, offset: 91187},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -45123,7 +45234,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1263, col: 5, offset: 39078},
-										run: (*parser).callonSectionTitleLineElement262,
+										run: (*parser).callonSectionTitleLineElement270,
 										expr: &seqExpr{
 											pos: position{line: 1263, col: 5, offset: 39078},
 											exprs: []interface{}{
@@ -45137,12 +45248,12 @@ var g = &grammar{
 													pos:   position{line: 1263, col: 10, offset: 39083},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2866, col: 7, offset: 90994},
-														run: (*parser).callonSectionTitleLineElement266,
+														pos: position{line: 2873, col: 7, offset: 91187},
+														run: (*parser).callonSectionTitleLineElement274,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2866, col: 7, offset: 90994},
+															pos: position{line: 2873, col: 7, offset: 91187},
 															expr: &charClassMatcher{
-																pos:        position{line: 2866, col: 7, offset: 90994},
+																pos:        position{line: 2873, col: 7, offset: 91187},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -45171,10 +45282,10 @@ var g = &grammar{
 							pos:   position{line: 2348, col: 5, offset: 76264},
 							label: "end",
 							expr: &actionExpr{
-								pos: position{line: 2906, col: 16, offset: 91864},
-								run: (*parser).callonSectionTitleLineElement272,
+								pos: position{line: 2913, col: 16, offset: 92057},
+								run: (*parser).callonSectionTitleLineElement280,
 								expr: &litMatcher{
-									pos:        position{line: 2906, col: 16, offset: 91864},
+									pos:        position{line: 2913, col: 16, offset: 92057},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -45183,7 +45294,7 @@ var g = &grammar{
 						},
 						&andCodeExpr{
 							pos: position{line: 2349, col: 5, offset: 76286},
-							run: (*parser).callonSectionTitleLineElement274,
+							run: (*parser).callonSectionTitleLineElement282,
 						},
 					},
 				},
@@ -45210,9 +45321,9 @@ var g = &grammar{
 										pos: position{line: 2374, col: 9, offset: 76951},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2898, col: 11, offset: 91676},
+												pos: position{line: 2905, col: 11, offset: 91869},
 												expr: &anyMatcher{
-													line: 2898, col: 13, offset: 91678,
+													line: 2905, col: 13, offset: 91871,
 												},
 											},
 											&labeledExpr{
@@ -45227,16 +45338,53 @@ var g = &grammar{
 															expr: &seqExpr{
 																pos: position{line: 2780, col: 5, offset: 88563},
 																exprs: []interface{}{
+																	&notExpr{
+																		pos: position{line: 2780, col: 5, offset: 88563},
+																		expr: &seqExpr{
+																			pos: position{line: 2781, col: 9, offset: 88574},
+																			exprs: []interface{}{
+																				&labeledExpr{
+																					pos:   position{line: 2781, col: 9, offset: 88574},
+																					label: "name",
+																					expr: &actionExpr{
+																						pos: position{line: 2760, col: 18, offset: 88080},
+																						run: (*parser).callonNormalGroup16,
+																						expr: &oneOrMoreExpr{
+																							pos: position{line: 2760, col: 19, offset: 88081},
+																							expr: &charClassMatcher{
+																								pos:        position{line: 2760, col: 19, offset: 88081},
+																								val:        "[_-\\pL\\pN]",
+																								chars:      []rune{'_', '-'},
+																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																								ignoreCase: false,
+																								inverted:   false,
+																							},
+																						},
+																					},
+																				},
+																				&litMatcher{
+																					pos:        position{line: 2782, col: 9, offset: 88667},
+																					val:        ":",
+																					ignoreCase: false,
+																					want:       "\":\"",
+																				},
+																				&andCodeExpr{
+																					pos: position{line: 2783, col: 9, offset: 88679},
+																					run: (*parser).callonNormalGroup20,
+																				},
+																			},
+																		},
+																	},
 																	&labeledExpr{
-																		pos:   position{line: 2780, col: 5, offset: 88563},
+																		pos:   position{line: 2787, col: 5, offset: 88756},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2780, col: 11, offset: 88569},
-																			run: (*parser).callonNormalGroup14,
+																			pos: position{line: 2787, col: 11, offset: 88762},
+																			run: (*parser).callonNormalGroup22,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2780, col: 11, offset: 88569},
+																				pos: position{line: 2787, col: 11, offset: 88762},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2780, col: 11, offset: 88569},
+																					pos:        position{line: 2787, col: 11, offset: 88762},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -45246,44 +45394,44 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2783, col: 5, offset: 88627},
+																		pos: position{line: 2790, col: 5, offset: 88820},
 																		expr: &seqExpr{
-																			pos: position{line: 2784, col: 9, offset: 88638},
+																			pos: position{line: 2791, col: 9, offset: 88831},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2784, col: 9, offset: 88638},
+																					pos:        position{line: 2791, col: 9, offset: 88831},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2785, col: 9, offset: 88687},
-																					run: (*parser).callonNormalGroup20,
+																					pos: position{line: 2792, col: 9, offset: 88880},
+																					run: (*parser).callonNormalGroup28,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2789, col: 5, offset: 88767},
+																		pos: position{line: 2796, col: 5, offset: 88960},
 																		expr: &seqExpr{
-																			pos: position{line: 2790, col: 9, offset: 88778},
+																			pos: position{line: 2797, col: 9, offset: 88971},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 2790, col: 9, offset: 88778},
+																					pos: position{line: 2797, col: 9, offset: 88971},
 																					expr: &seqExpr{
-																						pos: position{line: 2790, col: 10, offset: 88779},
+																						pos: position{line: 2797, col: 10, offset: 88972},
 																						exprs: []interface{}{
 																							&charClassMatcher{
-																								pos:        position{line: 2790, col: 10, offset: 88779},
+																								pos:        position{line: 2797, col: 10, offset: 88972},
 																								val:        "[._%+-]",
 																								chars:      []rune{'.', '_', '%', '+', '-'},
 																								ignoreCase: false,
 																								inverted:   false,
 																							},
 																							&oneOrMoreExpr{
-																								pos: position{line: 2790, col: 18, offset: 88787},
+																								pos: position{line: 2797, col: 18, offset: 88980},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2790, col: 18, offset: 88787},
+																									pos:        position{line: 2797, col: 18, offset: 88980},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -45294,13 +45442,13 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2790, col: 30, offset: 88799},
+																					pos:        position{line: 2797, col: 30, offset: 88992},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2790, col: 34, offset: 88803},
+																					pos:        position{line: 2797, col: 34, offset: 88996},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -45313,12 +45461,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2885, col: 11, offset: 91403},
-															run: (*parser).callonNormalGroup30,
+															pos: position{line: 2892, col: 11, offset: 91596},
+															run: (*parser).callonNormalGroup38,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2885, col: 11, offset: 91403},
+																pos: position{line: 2892, col: 11, offset: 91596},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2885, col: 11, offset: 91403},
+																	pos:        position{line: 2892, col: 11, offset: 91596},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -45332,13 +45480,13 @@ var g = &grammar{
 														},
 														&actionExpr{
 															pos: position{line: 2506, col: 5, offset: 80945},
-															run: (*parser).callonNormalGroup34,
+															run: (*parser).callonNormalGroup42,
 															expr: &seqExpr{
 																pos: position{line: 2506, col: 5, offset: 80945},
 																exprs: []interface{}{
 																	&andCodeExpr{
 																		pos: position{line: 2506, col: 5, offset: 80945},
-																		run: (*parser).callonNormalGroup36,
+																		run: (*parser).callonNormalGroup44,
 																	},
 																	&litMatcher{
 																		pos:        position{line: 2509, col: 5, offset: 81016},
@@ -45361,17 +45509,17 @@ var g = &grammar{
 														},
 														&actionExpr{
 															pos: position{line: 2515, col: 5, offset: 81214},
-															run: (*parser).callonNormalGroup40,
+															run: (*parser).callonNormalGroup48,
 															expr: &seqExpr{
 																pos: position{line: 2515, col: 5, offset: 81214},
 																exprs: []interface{}{
 																	&andCodeExpr{
 																		pos: position{line: 2515, col: 5, offset: 81214},
-																		run: (*parser).callonNormalGroup42,
+																		run: (*parser).callonNormalGroup50,
 																	},
 																	&andCodeExpr{
 																		pos: position{line: 2518, col: 5, offset: 81285},
-																		run: (*parser).callonNormalGroup43,
+																		run: (*parser).callonNormalGroup51,
 																	},
 																	&litMatcher{
 																		pos:        position{line: 2522, col: 5, offset: 81410},
@@ -45393,27 +45541,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2798, col: 5, offset: 88996},
-															run: (*parser).callonNormalGroup47,
+															pos: position{line: 2805, col: 5, offset: 89189},
+															run: (*parser).callonNormalGroup55,
 															expr: &choiceExpr{
-																pos: position{line: 2799, col: 9, offset: 89006},
+																pos: position{line: 2806, col: 9, offset: 89199},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2799, col: 10, offset: 89007},
+																		pos:        position{line: 2806, col: 10, offset: 89200},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2801, col: 13, offset: 89104},
+																		pos: position{line: 2808, col: 13, offset: 89297},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2801, col: 13, offset: 89104},
-																				run: (*parser).callonNormalGroup51,
+																				pos: position{line: 2808, col: 13, offset: 89297},
+																				run: (*parser).callonNormalGroup59,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2804, col: 13, offset: 89204},
+																				pos:        position{line: 2811, col: 13, offset: 89397},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -45421,20 +45569,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2804, col: 19, offset: 89210},
+																		pos:        position{line: 2811, col: 19, offset: 89403},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2807, col: 13, offset: 89248},
+																		pos: position{line: 2814, col: 13, offset: 89441},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2807, col: 13, offset: 89248},
-																				run: (*parser).callonNormalGroup55,
+																				pos: position{line: 2814, col: 13, offset: 89441},
+																				run: (*parser).callonNormalGroup63,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2810, col: 14, offset: 89341},
+																				pos:        position{line: 2817, col: 14, offset: 89534},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -45443,18 +45591,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2812, col: 12, offset: 89385},
+																		pos: position{line: 2819, col: 12, offset: 89578},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2812, col: 12, offset: 89385},
+																				pos:        position{line: 2819, col: 12, offset: 89578},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2812, col: 16, offset: 89389},
+																				pos: position{line: 2819, col: 16, offset: 89582},
 																				expr: &litMatcher{
-																					pos:        position{line: 2812, col: 17, offset: 89390},
+																					pos:        position{line: 2819, col: 17, offset: 89583},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -45466,25 +45614,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2890, col: 12, offset: 91513},
-															run: (*parser).callonNormalGroup61,
+															pos: position{line: 2897, col: 12, offset: 91706},
+															run: (*parser).callonNormalGroup69,
 															expr: &choiceExpr{
-																pos: position{line: 2890, col: 13, offset: 91514},
+																pos: position{line: 2897, col: 13, offset: 91707},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2890, col: 13, offset: 91514},
+																		pos:        position{line: 2897, col: 13, offset: 91707},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2890, col: 20, offset: 91521},
+																		pos:        position{line: 2897, col: 20, offset: 91714},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2890, col: 29, offset: 91530},
+																		pos:        position{line: 2897, col: 29, offset: 91723},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -45494,13 +45642,13 @@ var g = &grammar{
 														},
 														&actionExpr{
 															pos: position{line: 636, col: 5, offset: 20143},
-															run: (*parser).callonNormalGroup66,
+															run: (*parser).callonNormalGroup74,
 															expr: &seqExpr{
 																pos: position{line: 636, col: 5, offset: 20143},
 																exprs: []interface{}{
 																	&andCodeExpr{
 																		pos: position{line: 636, col: 5, offset: 20143},
-																		run: (*parser).callonNormalGroup68,
+																		run: (*parser).callonNormalGroup76,
 																	},
 																	&labeledExpr{
 																		pos:   position{line: 639, col: 5, offset: 20215},
@@ -45510,7 +45658,7 @@ var g = &grammar{
 																			alternatives: []interface{}{
 																				&actionExpr{
 																					pos: position{line: 645, col: 5, offset: 20353},
-																					run: (*parser).callonNormalGroup71,
+																					run: (*parser).callonNormalGroup79,
 																					expr: &seqExpr{
 																						pos: position{line: 645, col: 5, offset: 20353},
 																						exprs: []interface{}{
@@ -45525,7 +45673,7 @@ var g = &grammar{
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 317, col: 18, offset: 9667},
-																									run: (*parser).callonNormalGroup75,
+																									run: (*parser).callonNormalGroup83,
 																									expr: &seqExpr{
 																										pos: position{line: 317, col: 18, offset: 9667},
 																										exprs: []interface{}{
@@ -45563,7 +45711,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 652, col: 5, offset: 20621},
-																					run: (*parser).callonNormalGroup81,
+																					run: (*parser).callonNormalGroup89,
 																					expr: &seqExpr{
 																						pos: position{line: 652, col: 5, offset: 20621},
 																						exprs: []interface{}{
@@ -45578,7 +45726,7 @@ var g = &grammar{
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 317, col: 18, offset: 9667},
-																									run: (*parser).callonNormalGroup85,
+																									run: (*parser).callonNormalGroup93,
 																									expr: &seqExpr{
 																										pos: position{line: 317, col: 18, offset: 9667},
 																										exprs: []interface{}{
@@ -45616,7 +45764,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 658, col: 25, offset: 20825},
-																					run: (*parser).callonNormalGroup91,
+																					run: (*parser).callonNormalGroup99,
 																					expr: &seqExpr{
 																						pos: position{line: 658, col: 25, offset: 20825},
 																						exprs: []interface{}{
@@ -45631,7 +45779,7 @@ var g = &grammar{
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 317, col: 18, offset: 9667},
-																									run: (*parser).callonNormalGroup95,
+																									run: (*parser).callonNormalGroup103,
 																									expr: &seqExpr{
 																										pos: position{line: 317, col: 18, offset: 9667},
 																										exprs: []interface{}{
@@ -45665,7 +45813,7 @@ var g = &grammar{
 																									pos: position{line: 658, col: 62, offset: 20862},
 																									expr: &actionExpr{
 																										pos: position{line: 666, col: 17, offset: 21159},
-																										run: (*parser).callonNormalGroup102,
+																										run: (*parser).callonNormalGroup110,
 																										expr: &seqExpr{
 																											pos: position{line: 666, col: 17, offset: 21159},
 																											exprs: []interface{}{
@@ -45683,7 +45831,7 @@ var g = &grammar{
 																														alternatives: []interface{}{
 																															&actionExpr{
 																																pos: position{line: 666, col: 28, offset: 21170},
-																																run: (*parser).callonNormalGroup107,
+																																run: (*parser).callonNormalGroup115,
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 666, col: 28, offset: 21170},
 																																	val:        "[A-Za-z]",
@@ -45694,7 +45842,7 @@ var g = &grammar{
 																															},
 																															&actionExpr{
 																																pos: position{line: 668, col: 9, offset: 21224},
-																																run: (*parser).callonNormalGroup109,
+																																run: (*parser).callonNormalGroup117,
 																																expr: &oneOrMoreExpr{
 																																	pos: position{line: 668, col: 9, offset: 21224},
 																																	expr: &charClassMatcher{
@@ -45725,7 +45873,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 662, col: 25, offset: 20996},
-																					run: (*parser).callonNormalGroup113,
+																					run: (*parser).callonNormalGroup121,
 																					expr: &seqExpr{
 																						pos: position{line: 662, col: 25, offset: 20996},
 																						exprs: []interface{}{
@@ -45740,7 +45888,7 @@ var g = &grammar{
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 317, col: 18, offset: 9667},
-																									run: (*parser).callonNormalGroup117,
+																									run: (*parser).callonNormalGroup125,
 																									expr: &seqExpr{
 																										pos: position{line: 317, col: 18, offset: 9667},
 																										exprs: []interface{}{
@@ -45774,7 +45922,7 @@ var g = &grammar{
 																									pos: position{line: 662, col: 63, offset: 21034},
 																									expr: &actionExpr{
 																										pos: position{line: 666, col: 17, offset: 21159},
-																										run: (*parser).callonNormalGroup124,
+																										run: (*parser).callonNormalGroup132,
 																										expr: &seqExpr{
 																											pos: position{line: 666, col: 17, offset: 21159},
 																											exprs: []interface{}{
@@ -45792,7 +45940,7 @@ var g = &grammar{
 																														alternatives: []interface{}{
 																															&actionExpr{
 																																pos: position{line: 666, col: 28, offset: 21170},
-																																run: (*parser).callonNormalGroup129,
+																																run: (*parser).callonNormalGroup137,
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 666, col: 28, offset: 21170},
 																																	val:        "[A-Za-z]",
@@ -45803,7 +45951,7 @@ var g = &grammar{
 																															},
 																															&actionExpr{
 																																pos: position{line: 668, col: 9, offset: 21224},
-																																run: (*parser).callonNormalGroup131,
+																																run: (*parser).callonNormalGroup139,
 																																expr: &oneOrMoreExpr{
 																																	pos: position{line: 668, col: 9, offset: 21224},
 																																	expr: &charClassMatcher{
@@ -45852,20 +46000,20 @@ var g = &grammar{
 														},
 														&actionExpr{
 															pos: position{line: 2475, col: 5, offset: 79774},
-															run: (*parser).callonNormalGroup138,
+															run: (*parser).callonNormalGroup146,
 															expr: &seqExpr{
 																pos: position{line: 2475, col: 5, offset: 79774},
 																exprs: []interface{}{
 																	&andCodeExpr{
 																		pos: position{line: 2475, col: 5, offset: 79774},
-																		run: (*parser).callonNormalGroup140,
+																		run: (*parser).callonNormalGroup148,
 																	},
 																	&labeledExpr{
 																		pos:   position{line: 2478, col: 5, offset: 79850},
 																		label: "element",
 																		expr: &actionExpr{
 																			pos: position{line: 2479, col: 9, offset: 79868},
-																			run: (*parser).callonNormalGroup142,
+																			run: (*parser).callonNormalGroup150,
 																			expr: &charClassMatcher{
 																				pos:        position{line: 2479, col: 10, offset: 79869},
 																				val:        "[<>&]",
@@ -45880,13 +46028,13 @@ var g = &grammar{
 														},
 														&actionExpr{
 															pos: position{line: 1211, col: 5, offset: 37585},
-															run: (*parser).callonNormalGroup144,
+															run: (*parser).callonNormalGroup152,
 															expr: &seqExpr{
 																pos: position{line: 1211, col: 5, offset: 37585},
 																exprs: []interface{}{
 																	&andCodeExpr{
 																		pos: position{line: 1211, col: 5, offset: 37585},
-																		run: (*parser).callonNormalGroup146,
+																		run: (*parser).callonNormalGroup154,
 																	},
 																	&litMatcher{
 																		pos:        position{line: 1214, col: 5, offset: 37661},
@@ -45896,15 +46044,15 @@ var g = &grammar{
 																	},
 																	&andCodeExpr{
 																		pos: position{line: 1215, col: 5, offset: 37669},
-																		run: (*parser).callonNormalGroup148,
+																		run: (*parser).callonNormalGroup156,
 																	},
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1219, col: 5, offset: 37756},
 																		expr: &actionExpr{
-																			pos: position{line: 2881, col: 10, offset: 91342},
-																			run: (*parser).callonNormalGroup150,
+																			pos: position{line: 2888, col: 10, offset: 91535},
+																			run: (*parser).callonNormalGroup158,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2881, col: 10, offset: 91342},
+																				pos:        position{line: 2888, col: 10, offset: 91535},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45915,28 +46063,28 @@ var g = &grammar{
 																	&andExpr{
 																		pos: position{line: 1219, col: 12, offset: 37763},
 																		expr: &choiceExpr{
-																			pos: position{line: 2903, col: 8, offset: 91740},
+																			pos: position{line: 2910, col: 8, offset: 91933},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2890, col: 12, offset: 91513},
-																					run: (*parser).callonNormalGroup154,
+																					pos: position{line: 2897, col: 12, offset: 91706},
+																					run: (*parser).callonNormalGroup162,
 																					expr: &choiceExpr{
-																						pos: position{line: 2890, col: 13, offset: 91514},
+																						pos: position{line: 2897, col: 13, offset: 91707},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2890, col: 13, offset: 91514},
+																								pos:        position{line: 2897, col: 13, offset: 91707},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2890, col: 20, offset: 91521},
+																								pos:        position{line: 2897, col: 20, offset: 91714},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2890, col: 29, offset: 91530},
+																								pos:        position{line: 2897, col: 29, offset: 91723},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -45945,9 +46093,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2900, col: 8, offset: 91690},
+																					pos: position{line: 2907, col: 8, offset: 91883},
 																					expr: &anyMatcher{
-																						line: 2900, col: 9, offset: 91691,
+																						line: 2907, col: 9, offset: 91884,
 																					},
 																				},
 																			},
@@ -45962,7 +46110,7 @@ var g = &grammar{
 														},
 														&actionExpr{
 															pos: position{line: 1199, col: 23, offset: 37036},
-															run: (*parser).callonNormalGroup162,
+															run: (*parser).callonNormalGroup170,
 															expr: &seqExpr{
 																pos: position{line: 1199, col: 23, offset: 37036},
 																exprs: []interface{}{
@@ -45977,7 +46125,7 @@ var g = &grammar{
 																		label: "ref",
 																		expr: &actionExpr{
 																			pos: position{line: 1199, col: 56, offset: 37069},
-																			run: (*parser).callonNormalGroup166,
+																			run: (*parser).callonNormalGroup174,
 																			expr: &oneOrMoreExpr{
 																				pos: position{line: 1199, col: 56, offset: 37069},
 																				expr: &charClassMatcher{
@@ -45998,16 +46146,16 @@ var g = &grammar{
 																	},
 																	&andCodeExpr{
 																		pos: position{line: 1200, col: 5, offset: 37141},
-																		run: (*parser).callonNormalGroup170,
+																		run: (*parser).callonNormalGroup178,
 																	},
 																},
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2820, col: 12, offset: 89650},
-															run: (*parser).callonNormalGroup171,
+															pos: position{line: 2827, col: 12, offset: 89843},
+															run: (*parser).callonNormalGroup179,
 															expr: &charClassMatcher{
-																pos:        position{line: 2820, col: 12, offset: 89650},
+																pos:        position{line: 2827, col: 12, offset: 89843},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -46023,9 +46171,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2900, col: 8, offset: 91690},
+							pos: position{line: 2907, col: 8, offset: 91883},
 							expr: &anyMatcher{
-								line: 2900, col: 9, offset: 91691,
+								line: 2907, col: 9, offset: 91884,
 							},
 						},
 					},
@@ -46053,9 +46201,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2900, col: 8, offset: 91690},
+							pos: position{line: 2907, col: 8, offset: 91883},
 							expr: &anyMatcher{
-								line: 2900, col: 9, offset: 91691,
+								line: 2907, col: 9, offset: 91884,
 							},
 						},
 					},
@@ -46072,9 +46220,9 @@ var g = &grammar{
 					pos: position{line: 2405, col: 5, offset: 78110},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2898, col: 11, offset: 91676},
+							pos: position{line: 2905, col: 11, offset: 91869},
 							expr: &anyMatcher{
-								line: 2898, col: 13, offset: 91678,
+								line: 2905, col: 13, offset: 91871,
 							},
 						},
 						&labeledExpr{
@@ -46089,16 +46237,53 @@ var g = &grammar{
 										expr: &seqExpr{
 											pos: position{line: 2780, col: 5, offset: 88563},
 											exprs: []interface{}{
+												&notExpr{
+													pos: position{line: 2780, col: 5, offset: 88563},
+													expr: &seqExpr{
+														pos: position{line: 2781, col: 9, offset: 88574},
+														exprs: []interface{}{
+															&labeledExpr{
+																pos:   position{line: 2781, col: 9, offset: 88574},
+																label: "name",
+																expr: &actionExpr{
+																	pos: position{line: 2760, col: 18, offset: 88080},
+																	run: (*parser).callonAttributeStructuredValueElement12,
+																	expr: &oneOrMoreExpr{
+																		pos: position{line: 2760, col: 19, offset: 88081},
+																		expr: &charClassMatcher{
+																			pos:        position{line: 2760, col: 19, offset: 88081},
+																			val:        "[_-\\pL\\pN]",
+																			chars:      []rune{'_', '-'},
+																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																			ignoreCase: false,
+																			inverted:   false,
+																		},
+																	},
+																},
+															},
+															&litMatcher{
+																pos:        position{line: 2782, col: 9, offset: 88667},
+																val:        ":",
+																ignoreCase: false,
+																want:       "\":\"",
+															},
+															&andCodeExpr{
+																pos: position{line: 2783, col: 9, offset: 88679},
+																run: (*parser).callonAttributeStructuredValueElement16,
+															},
+														},
+													},
+												},
 												&labeledExpr{
-													pos:   position{line: 2780, col: 5, offset: 88563},
+													pos:   position{line: 2787, col: 5, offset: 88756},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2780, col: 11, offset: 88569},
-														run: (*parser).callonAttributeStructuredValueElement10,
+														pos: position{line: 2787, col: 11, offset: 88762},
+														run: (*parser).callonAttributeStructuredValueElement18,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2780, col: 11, offset: 88569},
+															pos: position{line: 2787, col: 11, offset: 88762},
 															expr: &charClassMatcher{
-																pos:        position{line: 2780, col: 11, offset: 88569},
+																pos:        position{line: 2787, col: 11, offset: 88762},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -46108,44 +46293,44 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2783, col: 5, offset: 88627},
+													pos: position{line: 2790, col: 5, offset: 88820},
 													expr: &seqExpr{
-														pos: position{line: 2784, col: 9, offset: 88638},
+														pos: position{line: 2791, col: 9, offset: 88831},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2784, col: 9, offset: 88638},
+																pos:        position{line: 2791, col: 9, offset: 88831},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2785, col: 9, offset: 88687},
-																run: (*parser).callonAttributeStructuredValueElement16,
+																pos: position{line: 2792, col: 9, offset: 88880},
+																run: (*parser).callonAttributeStructuredValueElement24,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2789, col: 5, offset: 88767},
+													pos: position{line: 2796, col: 5, offset: 88960},
 													expr: &seqExpr{
-														pos: position{line: 2790, col: 9, offset: 88778},
+														pos: position{line: 2797, col: 9, offset: 88971},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2790, col: 9, offset: 88778},
+																pos: position{line: 2797, col: 9, offset: 88971},
 																expr: &seqExpr{
-																	pos: position{line: 2790, col: 10, offset: 88779},
+																	pos: position{line: 2797, col: 10, offset: 88972},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2790, col: 10, offset: 88779},
+																			pos:        position{line: 2797, col: 10, offset: 88972},
 																			val:        "[._%+-]",
 																			chars:      []rune{'.', '_', '%', '+', '-'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2790, col: 18, offset: 88787},
+																			pos: position{line: 2797, col: 18, offset: 88980},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2790, col: 18, offset: 88787},
+																				pos:        position{line: 2797, col: 18, offset: 88980},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -46156,13 +46341,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2790, col: 30, offset: 88799},
+																pos:        position{line: 2797, col: 30, offset: 88992},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2790, col: 34, offset: 88803},
+																pos:        position{line: 2797, col: 34, offset: 88996},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -46175,10 +46360,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2881, col: 10, offset: 91342},
-										run: (*parser).callonAttributeStructuredValueElement26,
+										pos: position{line: 2888, col: 10, offset: 91535},
+										run: (*parser).callonAttributeStructuredValueElement34,
 										expr: &charClassMatcher{
-											pos:        position{line: 2881, col: 10, offset: 91342},
+											pos:        position{line: 2888, col: 10, offset: 91535},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -46190,27 +46375,27 @@ var g = &grammar{
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2798, col: 5, offset: 88996},
-										run: (*parser).callonAttributeStructuredValueElement29,
+										pos: position{line: 2805, col: 5, offset: 89189},
+										run: (*parser).callonAttributeStructuredValueElement37,
 										expr: &choiceExpr{
-											pos: position{line: 2799, col: 9, offset: 89006},
+											pos: position{line: 2806, col: 9, offset: 89199},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2799, col: 10, offset: 89007},
+													pos:        position{line: 2806, col: 10, offset: 89200},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2801, col: 13, offset: 89104},
+													pos: position{line: 2808, col: 13, offset: 89297},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2801, col: 13, offset: 89104},
-															run: (*parser).callonAttributeStructuredValueElement33,
+															pos: position{line: 2808, col: 13, offset: 89297},
+															run: (*parser).callonAttributeStructuredValueElement41,
 														},
 														&litMatcher{
-															pos:        position{line: 2804, col: 13, offset: 89204},
+															pos:        position{line: 2811, col: 13, offset: 89397},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -46218,20 +46403,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2804, col: 19, offset: 89210},
+													pos:        position{line: 2811, col: 19, offset: 89403},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2807, col: 13, offset: 89248},
+													pos: position{line: 2814, col: 13, offset: 89441},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2807, col: 13, offset: 89248},
-															run: (*parser).callonAttributeStructuredValueElement37,
+															pos: position{line: 2814, col: 13, offset: 89441},
+															run: (*parser).callonAttributeStructuredValueElement45,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2810, col: 14, offset: 89341},
+															pos:        position{line: 2817, col: 14, offset: 89534},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -46240,18 +46425,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2812, col: 12, offset: 89385},
+													pos: position{line: 2819, col: 12, offset: 89578},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2812, col: 12, offset: 89385},
+															pos:        position{line: 2819, col: 12, offset: 89578},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2812, col: 16, offset: 89389},
+															pos: position{line: 2819, col: 16, offset: 89582},
 															expr: &litMatcher{
-																pos:        position{line: 2812, col: 17, offset: 89390},
+																pos:        position{line: 2819, col: 17, offset: 89583},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -46272,20 +46457,20 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 2475, col: 5, offset: 79774},
-										run: (*parser).callonAttributeStructuredValueElement45,
+										run: (*parser).callonAttributeStructuredValueElement53,
 										expr: &seqExpr{
 											pos: position{line: 2475, col: 5, offset: 79774},
 											exprs: []interface{}{
 												&andCodeExpr{
 													pos: position{line: 2475, col: 5, offset: 79774},
-													run: (*parser).callonAttributeStructuredValueElement47,
+													run: (*parser).callonAttributeStructuredValueElement55,
 												},
 												&labeledExpr{
 													pos:   position{line: 2478, col: 5, offset: 79850},
 													label: "element",
 													expr: &actionExpr{
 														pos: position{line: 2479, col: 9, offset: 79868},
-														run: (*parser).callonAttributeStructuredValueElement49,
+														run: (*parser).callonAttributeStructuredValueElement57,
 														expr: &charClassMatcher{
 															pos:        position{line: 2479, col: 10, offset: 79869},
 															val:        "[<>&]",
@@ -46300,7 +46485,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1199, col: 23, offset: 37036},
-										run: (*parser).callonAttributeStructuredValueElement51,
+										run: (*parser).callonAttributeStructuredValueElement59,
 										expr: &seqExpr{
 											pos: position{line: 1199, col: 23, offset: 37036},
 											exprs: []interface{}{
@@ -46315,7 +46500,7 @@ var g = &grammar{
 													label: "ref",
 													expr: &actionExpr{
 														pos: position{line: 1199, col: 56, offset: 37069},
-														run: (*parser).callonAttributeStructuredValueElement55,
+														run: (*parser).callonAttributeStructuredValueElement63,
 														expr: &oneOrMoreExpr{
 															pos: position{line: 1199, col: 56, offset: 37069},
 															expr: &charClassMatcher{
@@ -46336,31 +46521,31 @@ var g = &grammar{
 												},
 												&andCodeExpr{
 													pos: position{line: 1200, col: 5, offset: 37141},
-													run: (*parser).callonAttributeStructuredValueElement59,
+													run: (*parser).callonAttributeStructuredValueElement67,
 												},
 											},
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2890, col: 12, offset: 91513},
-										run: (*parser).callonAttributeStructuredValueElement60,
+										pos: position{line: 2897, col: 12, offset: 91706},
+										run: (*parser).callonAttributeStructuredValueElement68,
 										expr: &choiceExpr{
-											pos: position{line: 2890, col: 13, offset: 91514},
+											pos: position{line: 2897, col: 13, offset: 91707},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2890, col: 13, offset: 91514},
+													pos:        position{line: 2897, col: 13, offset: 91707},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2890, col: 20, offset: 91521},
+													pos:        position{line: 2897, col: 20, offset: 91714},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2890, col: 29, offset: 91530},
+													pos:        position{line: 2897, col: 29, offset: 91723},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -46369,10 +46554,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2820, col: 12, offset: 89650},
-										run: (*parser).callonAttributeStructuredValueElement65,
+										pos: position{line: 2827, col: 12, offset: 89843},
+										run: (*parser).callonAttributeStructuredValueElement73,
 										expr: &charClassMatcher{
-											pos:        position{line: 2820, col: 12, offset: 89650},
+											pos:        position{line: 2827, col: 12, offset: 89843},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -46449,12 +46634,12 @@ var g = &grammar{
 													pos:   position{line: 1258, col: 14, offset: 38908},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2866, col: 7, offset: 90994},
+														pos: position{line: 2873, col: 7, offset: 91187},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2866, col: 7, offset: 90994},
+															pos: position{line: 2873, col: 7, offset: 91187},
 															expr: &charClassMatcher{
-																pos:        position{line: 2866, col: 7, offset: 90994},
+																pos:        position{line: 2873, col: 7, offset: 91187},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -46488,12 +46673,12 @@ var g = &grammar{
 													pos:   position{line: 1263, col: 10, offset: 39083},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2866, col: 7, offset: 90994},
+														pos: position{line: 2873, col: 7, offset: 91187},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2866, col: 7, offset: 90994},
+															pos: position{line: 2873, col: 7, offset: 91187},
 															expr: &charClassMatcher{
-																pos:        position{line: 2866, col: 7, offset: 90994},
+																pos:        position{line: 2873, col: 7, offset: 91187},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -46542,10 +46727,10 @@ var g = &grammar{
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2881, col: 10, offset: 91342},
+																		pos: position{line: 2888, col: 10, offset: 91535},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2881, col: 10, offset: 91342},
+																			pos:        position{line: 2888, col: 10, offset: 91535},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -46571,10 +46756,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1303, col: 12, offset: 40619},
 																		expr: &actionExpr{
-																			pos: position{line: 2881, col: 10, offset: 91342},
+																			pos: position{line: 2888, col: 10, offset: 91535},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2881, col: 10, offset: 91342},
+																				pos:        position{line: 2888, col: 10, offset: 91535},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46591,10 +46776,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1303, col: 23, offset: 40630},
 																		expr: &actionExpr{
-																			pos: position{line: 2881, col: 10, offset: 91342},
+																			pos: position{line: 2888, col: 10, offset: 91535},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2881, col: 10, offset: 91342},
+																				pos:        position{line: 2888, col: 10, offset: 91535},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46621,10 +46806,10 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2881, col: 10, offset: 91342},
+																							pos: position{line: 2888, col: 10, offset: 91535},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2881, col: 10, offset: 91342},
+																								pos:        position{line: 2888, col: 10, offset: 91535},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -46655,10 +46840,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1304, col: 12, offset: 40711},
 																		expr: &actionExpr{
-																			pos: position{line: 2881, col: 10, offset: 91342},
+																			pos: position{line: 2888, col: 10, offset: 91535},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2881, col: 10, offset: 91342},
+																				pos:        position{line: 2888, col: 10, offset: 91535},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46675,10 +46860,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1304, col: 23, offset: 40722},
 																		expr: &actionExpr{
-																			pos: position{line: 2881, col: 10, offset: 91342},
+																			pos: position{line: 2888, col: 10, offset: 91535},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2881, col: 10, offset: 91342},
+																				pos:        position{line: 2888, col: 10, offset: 91535},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46705,10 +46890,10 @@ var g = &grammar{
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2881, col: 10, offset: 91342},
+																							pos: position{line: 2888, col: 10, offset: 91535},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2881, col: 10, offset: 91342},
+																								pos:        position{line: 2888, col: 10, offset: 91535},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -46825,10 +47010,10 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1390, col: 12, offset: 44688},
 																				expr: &actionExpr{
-																					pos: position{line: 2881, col: 10, offset: 91342},
+																					pos: position{line: 2888, col: 10, offset: 91535},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2881, col: 10, offset: 91342},
+																						pos:        position{line: 2888, col: 10, offset: 91535},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -46839,25 +47024,25 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1390, col: 19, offset: 44695},
 																				expr: &actionExpr{
-																					pos: position{line: 2890, col: 12, offset: 91513},
+																					pos: position{line: 2897, col: 12, offset: 91706},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2890, col: 13, offset: 91514},
+																						pos: position{line: 2897, col: 13, offset: 91707},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2890, col: 13, offset: 91514},
+																								pos:        position{line: 2897, col: 13, offset: 91707},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2890, col: 20, offset: 91521},
+																								pos:        position{line: 2897, col: 20, offset: 91714},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2890, col: 29, offset: 91530},
+																								pos:        position{line: 2897, col: 29, offset: 91723},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -46940,10 +47125,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1376, col: 64, offset: 43797},
 																			expr: &actionExpr{
-																				pos: position{line: 2881, col: 10, offset: 91342},
+																				pos: position{line: 2888, col: 10, offset: 91535},
 																				run: (*parser).callonInlinePassthrough45,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2881, col: 10, offset: 91342},
+																					pos:        position{line: 2888, col: 10, offset: 91535},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -46954,25 +47139,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1376, col: 71, offset: 43804},
 																			expr: &actionExpr{
-																				pos: position{line: 2890, col: 12, offset: 91513},
+																				pos: position{line: 2897, col: 12, offset: 91706},
 																				run: (*parser).callonInlinePassthrough48,
 																				expr: &choiceExpr{
-																					pos: position{line: 2890, col: 13, offset: 91514},
+																					pos: position{line: 2897, col: 13, offset: 91707},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 13, offset: 91514},
+																							pos:        position{line: 2897, col: 13, offset: 91707},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 20, offset: 91521},
+																							pos:        position{line: 2897, col: 20, offset: 91714},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 29, offset: 91530},
+																							pos:        position{line: 2897, col: 29, offset: 91723},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -46995,12 +47180,12 @@ var g = &grammar{
 																							pos: position{line: 1376, col: 86, offset: 43819},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2885, col: 11, offset: 91403},
+																									pos: position{line: 2892, col: 11, offset: 91596},
 																									run: (*parser).callonInlinePassthrough58,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2885, col: 11, offset: 91403},
+																										pos: position{line: 2892, col: 11, offset: 91596},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2885, col: 11, offset: 91403},
+																											pos:        position{line: 2892, col: 11, offset: 91596},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -47029,25 +47214,25 @@ var g = &grammar{
 																					&notExpr{
 																						pos: position{line: 1376, col: 151, offset: 43884},
 																						expr: &actionExpr{
-																							pos: position{line: 2890, col: 12, offset: 91513},
+																							pos: position{line: 2897, col: 12, offset: 91706},
 																							run: (*parser).callonInlinePassthrough65,
 																							expr: &choiceExpr{
-																								pos: position{line: 2890, col: 13, offset: 91514},
+																								pos: position{line: 2897, col: 13, offset: 91707},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2890, col: 13, offset: 91514},
+																										pos:        position{line: 2897, col: 13, offset: 91707},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2890, col: 20, offset: 91521},
+																										pos:        position{line: 2897, col: 20, offset: 91714},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2890, col: 29, offset: 91530},
+																										pos:        position{line: 2897, col: 29, offset: 91723},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -47074,10 +47259,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1378, col: 12, offset: 44044},
 																			expr: &actionExpr{
-																				pos: position{line: 2881, col: 10, offset: 91342},
+																				pos: position{line: 2888, col: 10, offset: 91535},
 																				run: (*parser).callonInlinePassthrough74,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2881, col: 10, offset: 91342},
+																					pos:        position{line: 2888, col: 10, offset: 91535},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -47088,25 +47273,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1378, col: 19, offset: 44051},
 																			expr: &actionExpr{
-																				pos: position{line: 2890, col: 12, offset: 91513},
+																				pos: position{line: 2897, col: 12, offset: 91706},
 																				run: (*parser).callonInlinePassthrough77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2890, col: 13, offset: 91514},
+																					pos: position{line: 2897, col: 13, offset: 91707},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 13, offset: 91514},
+																							pos:        position{line: 2897, col: 13, offset: 91707},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 20, offset: 91521},
+																							pos:        position{line: 2897, col: 20, offset: 91714},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2890, col: 29, offset: 91530},
+																							pos:        position{line: 2897, col: 29, offset: 91723},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -47290,10 +47475,10 @@ var g = &grammar{
 														pos: position{line: 2581, col: 6, offset: 83071},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2881, col: 10, offset: 91342},
+																pos: position{line: 2888, col: 10, offset: 91535},
 																run: (*parser).callonSymbol20,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2881, col: 10, offset: 91342},
+																	pos:        position{line: 2888, col: 10, offset: 91535},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -47303,28 +47488,28 @@ var g = &grammar{
 															&andExpr{
 																pos: position{line: 2581, col: 14, offset: 83079},
 																expr: &choiceExpr{
-																	pos: position{line: 2903, col: 8, offset: 91740},
+																	pos: position{line: 2910, col: 8, offset: 91933},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2890, col: 12, offset: 91513},
+																			pos: position{line: 2897, col: 12, offset: 91706},
 																			run: (*parser).callonSymbol24,
 																			expr: &choiceExpr{
-																				pos: position{line: 2890, col: 13, offset: 91514},
+																				pos: position{line: 2897, col: 13, offset: 91707},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 13, offset: 91514},
+																						pos:        position{line: 2897, col: 13, offset: 91707},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 20, offset: 91521},
+																						pos:        position{line: 2897, col: 20, offset: 91714},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2890, col: 29, offset: 91530},
+																						pos:        position{line: 2897, col: 29, offset: 91723},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -47333,9 +47518,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2900, col: 8, offset: 91690},
+																			pos: position{line: 2907, col: 8, offset: 91883},
 																			expr: &anyMatcher{
-																				line: 2900, col: 9, offset: 91691,
+																				line: 2907, col: 9, offset: 91884,
 																			},
 																		},
 																	},
@@ -47375,25 +47560,25 @@ var g = &grammar{
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2890, col: 12, offset: 91513},
+																	pos: position{line: 2897, col: 12, offset: 91706},
 																	run: (*parser).callonSymbol38,
 																	expr: &choiceExpr{
-																		pos: position{line: 2890, col: 13, offset: 91514},
+																		pos: position{line: 2897, col: 13, offset: 91707},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2890, col: 13, offset: 91514},
+																				pos:        position{line: 2897, col: 13, offset: 91707},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2890, col: 20, offset: 91521},
+																				pos:        position{line: 2897, col: 20, offset: 91714},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2890, col: 29, offset: 91530},
+																				pos:        position{line: 2897, col: 29, offset: 91723},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -47402,9 +47587,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2900, col: 8, offset: 91690},
+																	pos: position{line: 2907, col: 8, offset: 91883},
 																	expr: &anyMatcher{
-																		line: 2900, col: 9, offset: 91691,
+																		line: 2907, col: 9, offset: 91884,
 																	},
 																},
 															},
@@ -47627,10 +47812,10 @@ var g = &grammar{
 									pos: position{line: 2581, col: 6, offset: 83071},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2881, col: 10, offset: 91342},
+											pos: position{line: 2888, col: 10, offset: 91535},
 											run: (*parser).callonSymbol90,
 											expr: &charClassMatcher{
-												pos:        position{line: 2881, col: 10, offset: 91342},
+												pos:        position{line: 2888, col: 10, offset: 91535},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -47640,28 +47825,28 @@ var g = &grammar{
 										&andExpr{
 											pos: position{line: 2581, col: 14, offset: 83079},
 											expr: &choiceExpr{
-												pos: position{line: 2903, col: 8, offset: 91740},
+												pos: position{line: 2910, col: 8, offset: 91933},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2890, col: 12, offset: 91513},
+														pos: position{line: 2897, col: 12, offset: 91706},
 														run: (*parser).callonSymbol94,
 														expr: &choiceExpr{
-															pos: position{line: 2890, col: 13, offset: 91514},
+															pos: position{line: 2897, col: 13, offset: 91707},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2890, col: 13, offset: 91514},
+																	pos:        position{line: 2897, col: 13, offset: 91707},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2890, col: 20, offset: 91521},
+																	pos:        position{line: 2897, col: 20, offset: 91714},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2890, col: 29, offset: 91530},
+																	pos:        position{line: 2897, col: 29, offset: 91723},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -47670,9 +47855,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2900, col: 8, offset: 91690},
+														pos: position{line: 2907, col: 8, offset: 91883},
 														expr: &anyMatcher{
-															line: 2900, col: 9, offset: 91691,
+															line: 2907, col: 9, offset: 91884,
 														},
 													},
 												},
@@ -47712,25 +47897,25 @@ var g = &grammar{
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2890, col: 12, offset: 91513},
+												pos: position{line: 2897, col: 12, offset: 91706},
 												run: (*parser).callonSymbol108,
 												expr: &choiceExpr{
-													pos: position{line: 2890, col: 13, offset: 91514},
+													pos: position{line: 2897, col: 13, offset: 91707},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2890, col: 13, offset: 91514},
+															pos:        position{line: 2897, col: 13, offset: 91707},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2890, col: 20, offset: 91521},
+															pos:        position{line: 2897, col: 20, offset: 91714},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2890, col: 29, offset: 91530},
+															pos:        position{line: 2897, col: 29, offset: 91723},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -47739,9 +47924,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2900, col: 8, offset: 91690},
+												pos: position{line: 2907, col: 8, offset: 91883},
 												expr: &anyMatcher{
-													line: 2900, col: 9, offset: 91691,
+													line: 2907, col: 9, offset: 91884,
 												},
 											},
 										},
@@ -47957,9 +48142,9 @@ var g = &grammar{
 										pos: position{line: 2691, col: 5, offset: 85594},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2898, col: 11, offset: 91676},
+												pos: position{line: 2905, col: 11, offset: 91869},
 												expr: &anyMatcher{
-													line: 2898, col: 13, offset: 91678,
+													line: 2905, col: 13, offset: 91871,
 												},
 											},
 											&labeledExpr{
@@ -47977,24 +48162,24 @@ var g = &grammar{
 																	pos:   position{line: 2694, col: 17, offset: 85732},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2873, col: 12, offset: 91169},
+																		pos: position{line: 2880, col: 12, offset: 91362},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2873, col: 13, offset: 91170},
+																			pos: position{line: 2880, col: 13, offset: 91363},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2873, col: 13, offset: 91170},
+																					pos: position{line: 2880, col: 13, offset: 91363},
 																					expr: &litMatcher{
-																						pos:        position{line: 2873, col: 13, offset: 91170},
+																						pos:        position{line: 2880, col: 13, offset: 91363},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2873, col: 18, offset: 91175},
+																					pos: position{line: 2880, col: 18, offset: 91368},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2873, col: 18, offset: 91175},
+																						pos:        position{line: 2880, col: 18, offset: 91368},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -48109,24 +48294,24 @@ var g = &grammar{
 														pos: position{line: 2705, col: 13, offset: 86105},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2873, col: 12, offset: 91169},
+																pos: position{line: 2880, col: 12, offset: 91362},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2873, col: 13, offset: 91170},
+																	pos: position{line: 2880, col: 13, offset: 91363},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2873, col: 13, offset: 91170},
+																			pos: position{line: 2880, col: 13, offset: 91363},
 																			expr: &litMatcher{
-																				pos:        position{line: 2873, col: 13, offset: 91170},
+																				pos:        position{line: 2880, col: 13, offset: 91363},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2873, col: 18, offset: 91175},
+																			pos: position{line: 2880, col: 18, offset: 91368},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2873, col: 18, offset: 91175},
+																				pos:        position{line: 2880, col: 18, offset: 91368},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -48191,9 +48376,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2900, col: 8, offset: 91690},
+							pos: position{line: 2907, col: 8, offset: 91883},
 							expr: &anyMatcher{
-								line: 2900, col: 9, offset: 91691,
+								line: 2907, col: 9, offset: 91884,
 							},
 						},
 					},
@@ -48265,28 +48450,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2903, col: 8, offset: 91740},
+							pos: position{line: 2910, col: 8, offset: 91933},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2890, col: 12, offset: 91513},
+									pos: position{line: 2897, col: 12, offset: 91706},
 									run: (*parser).callonUserMacroBlock16,
 									expr: &choiceExpr{
-										pos: position{line: 2890, col: 13, offset: 91514},
+										pos: position{line: 2897, col: 13, offset: 91707},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2890, col: 13, offset: 91514},
+												pos:        position{line: 2897, col: 13, offset: 91707},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2890, col: 20, offset: 91521},
+												pos:        position{line: 2897, col: 20, offset: 91714},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2890, col: 29, offset: 91530},
+												pos:        position{line: 2897, col: 29, offset: 91723},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -48295,9 +48480,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2900, col: 8, offset: 91690},
+									pos: position{line: 2907, col: 8, offset: 91883},
 									expr: &anyMatcher{
-										line: 2900, col: 9, offset: 91691,
+										line: 2907, col: 9, offset: 91884,
 									},
 								},
 							},
@@ -48376,43 +48561,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2835, col: 1, offset: 89989},
+			pos:  position{line: 2842, col: 1, offset: 90182},
 			expr: &actionExpr{
-				pos: position{line: 2835, col: 17, offset: 90005},
+				pos: position{line: 2842, col: 17, offset: 90198},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2835, col: 17, offset: 90005},
+					pos:   position{line: 2842, col: 17, offset: 90198},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2852, col: 5, offset: 90459},
+						pos: position{line: 2859, col: 5, offset: 90652},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2852, col: 5, offset: 90459},
+							pos:   position{line: 2859, col: 5, offset: 90652},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2852, col: 14, offset: 90468},
+								pos: position{line: 2859, col: 14, offset: 90661},
 								expr: &choiceExpr{
-									pos: position{line: 2853, col: 9, offset: 90478},
+									pos: position{line: 2860, col: 9, offset: 90671},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2853, col: 9, offset: 90478},
+											pos: position{line: 2860, col: 9, offset: 90671},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2853, col: 9, offset: 90478},
+												pos: position{line: 2860, col: 9, offset: 90671},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2853, col: 9, offset: 90478},
+														pos: position{line: 2860, col: 9, offset: 90671},
 														expr: &litMatcher{
-															pos:        position{line: 2853, col: 10, offset: 90479},
+															pos:        position{line: 2860, col: 10, offset: 90672},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2854, col: 9, offset: 90507},
+														pos: position{line: 2861, col: 9, offset: 90700},
 														expr: &charClassMatcher{
-															pos:        position{line: 2854, col: 10, offset: 90508},
+															pos:        position{line: 2861, col: 10, offset: 90701},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -48423,27 +48608,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2857, col: 11, offset: 90720},
+											pos: position{line: 2864, col: 11, offset: 90913},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2857, col: 11, offset: 90720},
+													pos:        position{line: 2864, col: 11, offset: 90913},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2857, col: 19, offset: 90728},
+													pos: position{line: 2864, col: 19, offset: 90921},
 													expr: &seqExpr{
-														pos: position{line: 2857, col: 21, offset: 90730},
+														pos: position{line: 2864, col: 21, offset: 90923},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2857, col: 21, offset: 90730},
+																pos: position{line: 2864, col: 21, offset: 90923},
 																expr: &actionExpr{
-																	pos: position{line: 2881, col: 10, offset: 91342},
+																	pos: position{line: 2888, col: 10, offset: 91535},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2881, col: 10, offset: 91342},
+																		pos:        position{line: 2888, col: 10, offset: 91535},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -48452,11 +48637,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2857, col: 28, offset: 90737},
+																pos: position{line: 2864, col: 28, offset: 90930},
 																expr: &notExpr{
-																	pos: position{line: 2900, col: 8, offset: 91690},
+																	pos: position{line: 2907, col: 8, offset: 91883},
 																	expr: &anyMatcher{
-																		line: 2900, col: 9, offset: 91691,
+																		line: 2907, col: 9, offset: 91884,
 																	},
 																},
 															},
@@ -48855,10 +49040,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2860, col: 11, offset: 90857},
+											pos: position{line: 2867, col: 11, offset: 91050},
 											run: (*parser).callonFileLocation101,
 											expr: &litMatcher{
-												pos:        position{line: 2860, col: 11, offset: 90857},
+												pos:        position{line: 2867, col: 11, offset: 91050},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -59677,26 +59862,48 @@ func (p *parser) callonFootnoteElements1() (interface{}, error) {
 	return p.cur.onFootnoteElements1(stack["elements"])
 }
 
-func (c *current) onFootnoteElement10() (interface{}, error) {
+func (c *current) onFootnoteElement12() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement10() (interface{}, error) {
+func (p *parser) callonFootnoteElement12() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement10()
+	return p.cur.onFootnoteElement12()
 }
 
-func (c *current) onFootnoteElement16() (bool, error) {
-	return c.isInlineMacro(string(c.text)), nil
+func (c *current) onFootnoteElement16(name interface{}) (bool, error) {
+	return c.isUserMacro(name.(string)), nil
 
 }
 
 func (p *parser) callonFootnoteElement16() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement16()
+	return p.cur.onFootnoteElement16(stack["name"])
+}
+
+func (c *current) onFootnoteElement18() (interface{}, error) {
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonFootnoteElement18() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onFootnoteElement18()
+}
+
+func (c *current) onFootnoteElement24() (bool, error) {
+	return c.isInlineMacro(string(c.text)), nil
+
+}
+
+func (p *parser) callonFootnoteElement24() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onFootnoteElement24()
 }
 
 func (c *current) onFootnoteElement7(text interface{}) (interface{}, error) {
@@ -59711,194 +59918,194 @@ func (p *parser) callonFootnoteElement7() (interface{}, error) {
 	return p.cur.onFootnoteElement7(stack["text"])
 }
 
-func (c *current) onFootnoteElement26() (interface{}, error) {
+func (c *current) onFootnoteElement34() (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement26() (interface{}, error) {
+func (p *parser) callonFootnoteElement34() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement26()
+	return p.cur.onFootnoteElement34()
 }
 
-func (c *current) onFootnoteElement31() (bool, error) {
+func (c *current) onFootnoteElement39() (bool, error) {
 	return c.isSubstitutionEnabled(Replacements), nil
 
 }
 
-func (p *parser) callonFootnoteElement31() (bool, error) {
+func (p *parser) callonFootnoteElement39() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement31()
+	return p.cur.onFootnoteElement39()
 }
 
-func (c *current) onFootnoteElement29() (interface{}, error) {
+func (c *current) onFootnoteElement37() (interface{}, error) {
 	//log.Debug("matched escaped apostrophe")
 	return types.NewStringElement(`'`) // retain the apostrophe, but discard the `\` escape char
 
 }
 
-func (p *parser) callonFootnoteElement29() (interface{}, error) {
+func (p *parser) callonFootnoteElement37() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement29()
+	return p.cur.onFootnoteElement37()
 }
 
-func (c *current) onFootnoteElement37() (bool, error) {
+func (c *current) onFootnoteElement45() (bool, error) {
 	return c.isSubstitutionEnabled(Replacements), nil
 
 }
 
-func (p *parser) callonFootnoteElement37() (bool, error) {
+func (p *parser) callonFootnoteElement45() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement37()
+	return p.cur.onFootnoteElement45()
 }
 
-func (c *current) onFootnoteElement38() (bool, error) {
+func (c *current) onFootnoteElement46() (bool, error) {
 	//log.Debugf("TypographicQuote at pos %s", c.pos.String())
 	return c.isPrecededByAlphanum(), nil
 
 }
 
-func (p *parser) callonFootnoteElement38() (bool, error) {
+func (p *parser) callonFootnoteElement46() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement38()
+	return p.cur.onFootnoteElement46()
 }
 
-func (c *current) onFootnoteElement35() (interface{}, error) {
+func (c *current) onFootnoteElement43() (interface{}, error) {
 	return types.NewSymbol("'")
 
 }
 
-func (p *parser) callonFootnoteElement35() (interface{}, error) {
+func (p *parser) callonFootnoteElement43() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement35()
+	return p.cur.onFootnoteElement43()
 }
 
-func (c *current) onFootnoteElement48() (bool, error) {
+func (c *current) onFootnoteElement56() (bool, error) {
 
 	return c.allSubstitutionsDisabled(Macros, Quotes), nil
 
 }
 
-func (p *parser) callonFootnoteElement48() (bool, error) {
+func (p *parser) callonFootnoteElement56() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement48()
+	return p.cur.onFootnoteElement56()
 }
 
-func (c *current) onFootnoteElement52() (bool, error) {
+func (c *current) onFootnoteElement60() (bool, error) {
 
 	return c.isSubstitutionDisabled(Quotes), nil
 
 }
 
-func (p *parser) callonFootnoteElement52() (bool, error) {
+func (p *parser) callonFootnoteElement60() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement52()
+	return p.cur.onFootnoteElement60()
 }
 
-func (c *current) onFootnoteElement44() (interface{}, error) {
+func (c *current) onFootnoteElement52() (interface{}, error) {
 
 	log.Debugf("new punctuation: '%v'", string(c.text))
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement44() (interface{}, error) {
+func (p *parser) callonFootnoteElement52() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement44()
+	return p.cur.onFootnoteElement52()
 }
 
-func (c *current) onFootnoteElement61() (bool, error) {
+func (c *current) onFootnoteElement69() (bool, error) {
 
 	return c.isSubstitutionEnabled(PostReplacements), nil
 
 }
 
-func (p *parser) callonFootnoteElement61() (bool, error) {
+func (p *parser) callonFootnoteElement69() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement61()
+	return p.cur.onFootnoteElement69()
 }
 
-func (c *current) onFootnoteElement63() (bool, error) {
+func (c *current) onFootnoteElement71() (bool, error) {
 
 	log.Debug("LineBreak")
 	return c.isPrecededBySpace(), nil
 
 }
 
-func (p *parser) callonFootnoteElement63() (bool, error) {
+func (p *parser) callonFootnoteElement71() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement63()
+	return p.cur.onFootnoteElement71()
 }
 
-func (c *current) onFootnoteElement65() (interface{}, error) {
+func (c *current) onFootnoteElement73() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement65() (interface{}, error) {
+func (p *parser) callonFootnoteElement73() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement65()
+	return p.cur.onFootnoteElement73()
 }
 
-func (c *current) onFootnoteElement69() (interface{}, error) {
+func (c *current) onFootnoteElement77() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonFootnoteElement69() (interface{}, error) {
+func (p *parser) callonFootnoteElement77() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement69()
+	return p.cur.onFootnoteElement77()
 }
 
-func (c *current) onFootnoteElement59() (interface{}, error) {
+func (c *current) onFootnoteElement67() (interface{}, error) {
 	return types.NewLineBreak()
 
 }
 
-func (p *parser) callonFootnoteElement59() (interface{}, error) {
+func (p *parser) callonFootnoteElement67() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement59()
+	return p.cur.onFootnoteElement67()
 }
 
-func (c *current) onFootnoteElement78() (bool, error) {
+func (c *current) onFootnoteElement86() (bool, error) {
 	return c.isSubstitutionEnabled(AttributeRefs), nil
 
 }
 
-func (p *parser) callonFootnoteElement78() (bool, error) {
+func (p *parser) callonFootnoteElement86() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement78()
+	return p.cur.onFootnoteElement86()
 }
 
-func (c *current) onFootnoteElement85() (interface{}, error) {
+func (c *current) onFootnoteElement93() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement85() (interface{}, error) {
+func (p *parser) callonFootnoteElement93() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement85()
+	return p.cur.onFootnoteElement93()
 }
 
-func (c *current) onFootnoteElement81(name interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement89(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -59906,201 +60113,201 @@ func (c *current) onFootnoteElement81(name interface{}) (interface{}, error) {
 
 }
 
-func (p *parser) callonFootnoteElement81() (interface{}, error) {
+func (p *parser) callonFootnoteElement89() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement81(stack["name"])
+	return p.cur.onFootnoteElement89(stack["name"])
 }
 
-func (c *current) onFootnoteElement95() (interface{}, error) {
+func (c *current) onFootnoteElement103() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement95() (interface{}, error) {
+func (p *parser) callonFootnoteElement103() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement95()
+	return p.cur.onFootnoteElement103()
 }
 
-func (c *current) onFootnoteElement91(name interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement99(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonFootnoteElement91() (interface{}, error) {
+func (p *parser) callonFootnoteElement99() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement91(stack["name"])
+	return p.cur.onFootnoteElement99(stack["name"])
 }
 
-func (c *current) onFootnoteElement105() (interface{}, error) {
+func (c *current) onFootnoteElement113() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement105() (interface{}, error) {
+func (p *parser) callonFootnoteElement113() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement105()
+	return p.cur.onFootnoteElement113()
 }
 
-func (c *current) onFootnoteElement117() (interface{}, error) {
+func (c *current) onFootnoteElement125() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement117() (interface{}, error) {
+func (p *parser) callonFootnoteElement125() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement117()
+	return p.cur.onFootnoteElement125()
 }
 
-func (c *current) onFootnoteElement119() (interface{}, error) {
+func (c *current) onFootnoteElement127() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonFootnoteElement119() (interface{}, error) {
+func (p *parser) callonFootnoteElement127() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement119()
+	return p.cur.onFootnoteElement127()
 }
 
-func (c *current) onFootnoteElement112(start interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement120(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonFootnoteElement112() (interface{}, error) {
+func (p *parser) callonFootnoteElement120() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement112(stack["start"])
+	return p.cur.onFootnoteElement120(stack["start"])
 }
 
-func (c *current) onFootnoteElement101(name, start interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement109(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
 }
 
-func (p *parser) callonFootnoteElement101() (interface{}, error) {
+func (p *parser) callonFootnoteElement109() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement101(stack["name"], stack["start"])
+	return p.cur.onFootnoteElement109(stack["name"], stack["start"])
 }
 
-func (c *current) onFootnoteElement127() (interface{}, error) {
+func (c *current) onFootnoteElement135() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement127() (interface{}, error) {
+func (p *parser) callonFootnoteElement135() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement127()
+	return p.cur.onFootnoteElement135()
 }
 
-func (c *current) onFootnoteElement139() (interface{}, error) {
+func (c *current) onFootnoteElement147() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement139() (interface{}, error) {
+func (p *parser) callonFootnoteElement147() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement139()
+	return p.cur.onFootnoteElement147()
 }
 
-func (c *current) onFootnoteElement141() (interface{}, error) {
+func (c *current) onFootnoteElement149() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonFootnoteElement141() (interface{}, error) {
+func (p *parser) callonFootnoteElement149() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement141()
+	return p.cur.onFootnoteElement149()
 }
 
-func (c *current) onFootnoteElement134(start interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement142(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonFootnoteElement134() (interface{}, error) {
+func (p *parser) callonFootnoteElement142() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement134(stack["start"])
+	return p.cur.onFootnoteElement142(stack["start"])
 }
 
-func (c *current) onFootnoteElement123(name, start interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement131(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
-func (p *parser) callonFootnoteElement123() (interface{}, error) {
+func (p *parser) callonFootnoteElement131() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement123(stack["name"], stack["start"])
+	return p.cur.onFootnoteElement131(stack["name"], stack["start"])
 }
 
-func (c *current) onFootnoteElement76(element interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement84(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonFootnoteElement76() (interface{}, error) {
+func (p *parser) callonFootnoteElement84() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement76(stack["element"])
+	return p.cur.onFootnoteElement84(stack["element"])
 }
 
-func (c *current) onFootnoteElement147() (bool, error) {
+func (c *current) onFootnoteElement155() (bool, error) {
 	return c.isSubstitutionEnabled(SpecialCharacters), nil
 
 }
 
-func (p *parser) callonFootnoteElement147() (bool, error) {
+func (p *parser) callonFootnoteElement155() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement147()
+	return p.cur.onFootnoteElement155()
 }
 
-func (c *current) onFootnoteElement149() (interface{}, error) {
+func (c *current) onFootnoteElement157() (interface{}, error) {
 	return types.NewSpecialCharacter(string(c.text))
 
 }
 
-func (p *parser) callonFootnoteElement149() (interface{}, error) {
+func (p *parser) callonFootnoteElement157() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement149()
+	return p.cur.onFootnoteElement157()
 }
 
-func (c *current) onFootnoteElement145(element interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement153(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonFootnoteElement145() (interface{}, error) {
+func (p *parser) callonFootnoteElement153() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement145(stack["element"])
+	return p.cur.onFootnoteElement153(stack["element"])
 }
 
-func (c *current) onFootnoteElement151() (interface{}, error) {
+func (c *current) onFootnoteElement159() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonFootnoteElement151() (interface{}, error) {
+func (p *parser) callonFootnoteElement159() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement151()
+	return p.cur.onFootnoteElement159()
 }
 
-func (c *current) onFootnoteElement156() (interface{}, error) {
+func (c *current) onFootnoteElement164() (interface{}, error) {
 
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("matching anychar '%s' at position %v", string(c.text), c.pos.String())
@@ -60109,10 +60316,10 @@ func (c *current) onFootnoteElement156() (interface{}, error) {
 
 }
 
-func (p *parser) callonFootnoteElement156() (interface{}, error) {
+func (p *parser) callonFootnoteElement164() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement156()
+	return p.cur.onFootnoteElement164()
 }
 
 func (c *current) onFootnoteElement1(element interface{}) (interface{}, error) {
@@ -70478,26 +70685,48 @@ func (p *parser) callonUnescapedQuotedText1() (interface{}, error) {
 	return p.cur.onUnescapedQuotedText1(stack["attributes"], stack["element"])
 }
 
-func (c *current) onQuotedTextElement5() (interface{}, error) {
+func (c *current) onQuotedTextElement7() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement5() (interface{}, error) {
+func (p *parser) callonQuotedTextElement7() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement5()
+	return p.cur.onQuotedTextElement7()
 }
 
-func (c *current) onQuotedTextElement11() (bool, error) {
-	return c.isInlineMacro(string(c.text)), nil
+func (c *current) onQuotedTextElement11(name interface{}) (bool, error) {
+	return c.isUserMacro(name.(string)), nil
 
 }
 
 func (p *parser) callonQuotedTextElement11() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement11()
+	return p.cur.onQuotedTextElement11(stack["name"])
+}
+
+func (c *current) onQuotedTextElement13() (interface{}, error) {
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonQuotedTextElement13() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onQuotedTextElement13()
+}
+
+func (c *current) onQuotedTextElement19() (bool, error) {
+	return c.isInlineMacro(string(c.text)), nil
+
+}
+
+func (p *parser) callonQuotedTextElement19() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onQuotedTextElement19()
 }
 
 func (c *current) onQuotedTextElement2(text interface{}) (interface{}, error) {
@@ -70512,135 +70741,135 @@ func (p *parser) callonQuotedTextElement2() (interface{}, error) {
 	return p.cur.onQuotedTextElement2(stack["text"])
 }
 
-func (c *current) onQuotedTextElement21() (interface{}, error) {
+func (c *current) onQuotedTextElement29() (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement21() (interface{}, error) {
+func (p *parser) callonQuotedTextElement29() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement21()
+	return p.cur.onQuotedTextElement29()
 }
 
-func (c *current) onQuotedTextElement27() (bool, error) {
+func (c *current) onQuotedTextElement35() (bool, error) {
 	return c.isSubstitutionEnabled(Replacements), nil
 
 }
 
-func (p *parser) callonQuotedTextElement27() (bool, error) {
+func (p *parser) callonQuotedTextElement35() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement27()
+	return p.cur.onQuotedTextElement35()
 }
 
-func (c *current) onQuotedTextElement25() (interface{}, error) {
+func (c *current) onQuotedTextElement33() (interface{}, error) {
 	//log.Debug("matched escaped apostrophe")
 	return types.NewStringElement(`'`) // retain the apostrophe, but discard the `\` escape char
 
 }
 
-func (p *parser) callonQuotedTextElement25() (interface{}, error) {
+func (p *parser) callonQuotedTextElement33() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement25()
+	return p.cur.onQuotedTextElement33()
 }
 
-func (c *current) onQuotedTextElement33() (bool, error) {
+func (c *current) onQuotedTextElement41() (bool, error) {
 	return c.isSubstitutionEnabled(Replacements), nil
 
 }
 
-func (p *parser) callonQuotedTextElement33() (bool, error) {
+func (p *parser) callonQuotedTextElement41() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement33()
+	return p.cur.onQuotedTextElement41()
 }
 
-func (c *current) onQuotedTextElement34() (bool, error) {
+func (c *current) onQuotedTextElement42() (bool, error) {
 	//log.Debugf("TypographicQuote at pos %s", c.pos.String())
 	return c.isPrecededByAlphanum(), nil
 
 }
 
-func (p *parser) callonQuotedTextElement34() (bool, error) {
+func (p *parser) callonQuotedTextElement42() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement34()
+	return p.cur.onQuotedTextElement42()
 }
 
-func (c *current) onQuotedTextElement31() (interface{}, error) {
+func (c *current) onQuotedTextElement39() (interface{}, error) {
 	return types.NewSymbol("'")
 
 }
 
-func (p *parser) callonQuotedTextElement31() (interface{}, error) {
+func (p *parser) callonQuotedTextElement39() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement31()
+	return p.cur.onQuotedTextElement39()
 }
 
-func (c *current) onQuotedTextElement42() (bool, error) {
+func (c *current) onQuotedTextElement50() (bool, error) {
 
 	return c.allSubstitutionsDisabled(Macros, Quotes), nil
 
 }
 
-func (p *parser) callonQuotedTextElement42() (bool, error) {
+func (p *parser) callonQuotedTextElement50() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement42()
+	return p.cur.onQuotedTextElement50()
 }
 
-func (c *current) onQuotedTextElement46() (bool, error) {
+func (c *current) onQuotedTextElement54() (bool, error) {
 
 	return c.isSubstitutionDisabled(Quotes), nil
 
 }
 
-func (p *parser) callonQuotedTextElement46() (bool, error) {
+func (p *parser) callonQuotedTextElement54() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement46()
+	return p.cur.onQuotedTextElement54()
 }
 
-func (c *current) onQuotedTextElement38() (interface{}, error) {
+func (c *current) onQuotedTextElement46() (interface{}, error) {
 
 	log.Debugf("new punctuation: '%v'", string(c.text))
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement38() (interface{}, error) {
+func (p *parser) callonQuotedTextElement46() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement38()
+	return p.cur.onQuotedTextElement46()
 }
 
-func (c *current) onQuotedTextElement54() (bool, error) {
+func (c *current) onQuotedTextElement62() (bool, error) {
 	return c.isSubstitutionEnabled(AttributeRefs), nil
 
 }
 
-func (p *parser) callonQuotedTextElement54() (bool, error) {
+func (p *parser) callonQuotedTextElement62() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement54()
+	return p.cur.onQuotedTextElement62()
 }
 
-func (c *current) onQuotedTextElement61() (interface{}, error) {
+func (c *current) onQuotedTextElement69() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement61() (interface{}, error) {
+func (p *parser) callonQuotedTextElement69() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement61()
+	return p.cur.onQuotedTextElement69()
 }
 
-func (c *current) onQuotedTextElement57(name interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement65(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -70648,253 +70877,253 @@ func (c *current) onQuotedTextElement57(name interface{}) (interface{}, error) {
 
 }
 
-func (p *parser) callonQuotedTextElement57() (interface{}, error) {
+func (p *parser) callonQuotedTextElement65() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement57(stack["name"])
+	return p.cur.onQuotedTextElement65(stack["name"])
 }
 
-func (c *current) onQuotedTextElement71() (interface{}, error) {
+func (c *current) onQuotedTextElement79() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement71() (interface{}, error) {
+func (p *parser) callonQuotedTextElement79() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement71()
+	return p.cur.onQuotedTextElement79()
 }
 
-func (c *current) onQuotedTextElement67(name interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement75(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonQuotedTextElement67() (interface{}, error) {
+func (p *parser) callonQuotedTextElement75() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement67(stack["name"])
+	return p.cur.onQuotedTextElement75(stack["name"])
 }
 
-func (c *current) onQuotedTextElement81() (interface{}, error) {
+func (c *current) onQuotedTextElement89() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement81() (interface{}, error) {
+func (p *parser) callonQuotedTextElement89() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement81()
+	return p.cur.onQuotedTextElement89()
 }
 
-func (c *current) onQuotedTextElement93() (interface{}, error) {
+func (c *current) onQuotedTextElement101() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement93() (interface{}, error) {
+func (p *parser) callonQuotedTextElement101() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement93()
+	return p.cur.onQuotedTextElement101()
 }
 
-func (c *current) onQuotedTextElement95() (interface{}, error) {
+func (c *current) onQuotedTextElement103() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonQuotedTextElement95() (interface{}, error) {
+func (p *parser) callonQuotedTextElement103() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement95()
+	return p.cur.onQuotedTextElement103()
 }
 
-func (c *current) onQuotedTextElement88(start interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement96(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonQuotedTextElement88() (interface{}, error) {
+func (p *parser) callonQuotedTextElement96() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement88(stack["start"])
+	return p.cur.onQuotedTextElement96(stack["start"])
 }
 
-func (c *current) onQuotedTextElement77(name, start interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement85(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
 }
 
-func (p *parser) callonQuotedTextElement77() (interface{}, error) {
+func (p *parser) callonQuotedTextElement85() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement77(stack["name"], stack["start"])
+	return p.cur.onQuotedTextElement85(stack["name"], stack["start"])
 }
 
-func (c *current) onQuotedTextElement103() (interface{}, error) {
+func (c *current) onQuotedTextElement111() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement103() (interface{}, error) {
+func (p *parser) callonQuotedTextElement111() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement103()
+	return p.cur.onQuotedTextElement111()
 }
 
-func (c *current) onQuotedTextElement115() (interface{}, error) {
+func (c *current) onQuotedTextElement123() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement115() (interface{}, error) {
+func (p *parser) callonQuotedTextElement123() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement115()
+	return p.cur.onQuotedTextElement123()
 }
 
-func (c *current) onQuotedTextElement117() (interface{}, error) {
+func (c *current) onQuotedTextElement125() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonQuotedTextElement117() (interface{}, error) {
+func (p *parser) callonQuotedTextElement125() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement117()
+	return p.cur.onQuotedTextElement125()
 }
 
-func (c *current) onQuotedTextElement110(start interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement118(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonQuotedTextElement110() (interface{}, error) {
+func (p *parser) callonQuotedTextElement118() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement110(stack["start"])
+	return p.cur.onQuotedTextElement118(stack["start"])
 }
 
-func (c *current) onQuotedTextElement99(name, start interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement107(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
-func (p *parser) callonQuotedTextElement99() (interface{}, error) {
+func (p *parser) callonQuotedTextElement107() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement99(stack["name"], stack["start"])
+	return p.cur.onQuotedTextElement107(stack["name"], stack["start"])
 }
 
-func (c *current) onQuotedTextElement52(element interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement60(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonQuotedTextElement52() (interface{}, error) {
+func (p *parser) callonQuotedTextElement60() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement52(stack["element"])
+	return p.cur.onQuotedTextElement60(stack["element"])
 }
 
-func (c *current) onQuotedTextElement123() (interface{}, error) {
+func (c *current) onQuotedTextElement131() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonQuotedTextElement123() (interface{}, error) {
+func (p *parser) callonQuotedTextElement131() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement123()
+	return p.cur.onQuotedTextElement131()
 }
 
-func (c *current) onQuotedTextElement129() (interface{}, error) {
+func (c *current) onQuotedTextElement137() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonQuotedTextElement129() (interface{}, error) {
+func (p *parser) callonQuotedTextElement137() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement129()
+	return p.cur.onQuotedTextElement137()
 }
 
-func (c *current) onQuotedTextElement121() (interface{}, error) {
+func (c *current) onQuotedTextElement129() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonQuotedTextElement121() (interface{}, error) {
+func (p *parser) callonQuotedTextElement129() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement121()
+	return p.cur.onQuotedTextElement129()
 }
 
-func (c *current) onQuotedTextElement138() (bool, error) {
+func (c *current) onQuotedTextElement146() (bool, error) {
 	return c.isSubstitutionEnabled(SpecialCharacters), nil
 
 }
 
-func (p *parser) callonQuotedTextElement138() (bool, error) {
+func (p *parser) callonQuotedTextElement146() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement138()
+	return p.cur.onQuotedTextElement146()
 }
 
-func (c *current) onQuotedTextElement140() (interface{}, error) {
+func (c *current) onQuotedTextElement148() (interface{}, error) {
 	return types.NewSpecialCharacter(string(c.text))
 
 }
 
-func (p *parser) callonQuotedTextElement140() (interface{}, error) {
+func (p *parser) callonQuotedTextElement148() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement140()
+	return p.cur.onQuotedTextElement148()
 }
 
-func (c *current) onQuotedTextElement136(element interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement144(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonQuotedTextElement136() (interface{}, error) {
+func (p *parser) callonQuotedTextElement144() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement136(stack["element"])
+	return p.cur.onQuotedTextElement144(stack["element"])
 }
 
-func (c *current) onQuotedTextElement146() (interface{}, error) {
+func (c *current) onQuotedTextElement154() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonQuotedTextElement146() (interface{}, error) {
+func (p *parser) callonQuotedTextElement154() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement146()
+	return p.cur.onQuotedTextElement154()
 }
 
-func (c *current) onQuotedTextElement150(ref interface{}) (bool, error) {
+func (c *current) onQuotedTextElement158(ref interface{}) (bool, error) {
 	return c.isPlaceHolder(ref.(string)) // otherwise, it's just the same characters
 
 }
 
-func (p *parser) callonQuotedTextElement150() (bool, error) {
+func (p *parser) callonQuotedTextElement158() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement150(stack["ref"])
+	return p.cur.onQuotedTextElement158(stack["ref"])
 }
 
-func (c *current) onQuotedTextElement142(ref interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement150(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
 
-func (p *parser) callonQuotedTextElement142() (interface{}, error) {
+func (p *parser) callonQuotedTextElement150() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement142(stack["ref"])
+	return p.cur.onQuotedTextElement150(stack["ref"])
 }
 
-func (c *current) onQuotedTextElement151() (interface{}, error) {
+func (c *current) onQuotedTextElement159() (interface{}, error) {
 
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("matching anychar '%s' at position %v", string(c.text), c.pos.String())
@@ -70903,10 +71132,10 @@ func (c *current) onQuotedTextElement151() (interface{}, error) {
 
 }
 
-func (p *parser) callonQuotedTextElement151() (interface{}, error) {
+func (p *parser) callonQuotedTextElement159() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement151()
+	return p.cur.onQuotedTextElement159()
 }
 
 func (c *current) onDoubleQuoteBoldText1(elements interface{}) (interface{}, error) {
@@ -71945,26 +72174,48 @@ func (p *parser) callonSectionTitleLineElement4() (interface{}, error) {
 	return p.cur.onSectionTitleLineElement4()
 }
 
-func (c *current) onSectionTitleLineElement11() (interface{}, error) {
+func (c *current) onSectionTitleLineElement13() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement11() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement13() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement11()
+	return p.cur.onSectionTitleLineElement13()
 }
 
-func (c *current) onSectionTitleLineElement17() (bool, error) {
-	return c.isInlineMacro(string(c.text)), nil
+func (c *current) onSectionTitleLineElement17(name interface{}) (bool, error) {
+	return c.isUserMacro(name.(string)), nil
 
 }
 
 func (p *parser) callonSectionTitleLineElement17() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement17()
+	return p.cur.onSectionTitleLineElement17(stack["name"])
+}
+
+func (c *current) onSectionTitleLineElement19() (interface{}, error) {
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonSectionTitleLineElement19() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSectionTitleLineElement19()
+}
+
+func (c *current) onSectionTitleLineElement25() (bool, error) {
+	return c.isInlineMacro(string(c.text)), nil
+
+}
+
+func (p *parser) callonSectionTitleLineElement25() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSectionTitleLineElement25()
 }
 
 func (c *current) onSectionTitleLineElement8(text interface{}) (interface{}, error) {
@@ -71979,168 +72230,168 @@ func (p *parser) callonSectionTitleLineElement8() (interface{}, error) {
 	return p.cur.onSectionTitleLineElement8(stack["text"])
 }
 
-func (c *current) onSectionTitleLineElement27() (interface{}, error) {
+func (c *current) onSectionTitleLineElement35() (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement27() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement35() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement27()
+	return p.cur.onSectionTitleLineElement35()
 }
 
-func (c *current) onSectionTitleLineElement32() (bool, error) {
+func (c *current) onSectionTitleLineElement40() (bool, error) {
 	return c.isSubstitutionEnabled(Replacements), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement32() (bool, error) {
+func (p *parser) callonSectionTitleLineElement40() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement32()
+	return p.cur.onSectionTitleLineElement40()
 }
 
-func (c *current) onSectionTitleLineElement30() (interface{}, error) {
+func (c *current) onSectionTitleLineElement38() (interface{}, error) {
 	//log.Debug("matched escaped apostrophe")
 	return types.NewStringElement(`'`) // retain the apostrophe, but discard the `\` escape char
 
 }
 
-func (p *parser) callonSectionTitleLineElement30() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement38() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement30()
+	return p.cur.onSectionTitleLineElement38()
 }
 
-func (c *current) onSectionTitleLineElement38() (bool, error) {
+func (c *current) onSectionTitleLineElement46() (bool, error) {
 	return c.isSubstitutionEnabled(Replacements), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement38() (bool, error) {
+func (p *parser) callonSectionTitleLineElement46() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement38()
+	return p.cur.onSectionTitleLineElement46()
 }
 
-func (c *current) onSectionTitleLineElement39() (bool, error) {
+func (c *current) onSectionTitleLineElement47() (bool, error) {
 	//log.Debugf("TypographicQuote at pos %s", c.pos.String())
 	return c.isPrecededByAlphanum(), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement39() (bool, error) {
+func (p *parser) callonSectionTitleLineElement47() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement39()
+	return p.cur.onSectionTitleLineElement47()
 }
 
-func (c *current) onSectionTitleLineElement36() (interface{}, error) {
+func (c *current) onSectionTitleLineElement44() (interface{}, error) {
 	return types.NewSymbol("'")
 
 }
 
-func (p *parser) callonSectionTitleLineElement36() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement44() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement36()
+	return p.cur.onSectionTitleLineElement44()
 }
 
-func (c *current) onSectionTitleLineElement48() (bool, error) {
+func (c *current) onSectionTitleLineElement56() (bool, error) {
 
 	return c.allSubstitutionsDisabled(Macros, Quotes), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement48() (bool, error) {
+func (p *parser) callonSectionTitleLineElement56() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement48()
+	return p.cur.onSectionTitleLineElement56()
 }
 
-func (c *current) onSectionTitleLineElement52() (bool, error) {
+func (c *current) onSectionTitleLineElement60() (bool, error) {
 
 	return c.isSubstitutionDisabled(Quotes), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement52() (bool, error) {
+func (p *parser) callonSectionTitleLineElement60() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement52()
+	return p.cur.onSectionTitleLineElement60()
 }
 
-func (c *current) onSectionTitleLineElement44() (interface{}, error) {
+func (c *current) onSectionTitleLineElement52() (interface{}, error) {
 
 	log.Debugf("new punctuation: '%v'", string(c.text))
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement44() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement52() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement44()
+	return p.cur.onSectionTitleLineElement52()
 }
 
-func (c *current) onSectionTitleLineElement63() (bool, error) {
+func (c *current) onSectionTitleLineElement71() (bool, error) {
 	return c.isSubstitutionEnabled(SpecialCharacters), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement63() (bool, error) {
+func (p *parser) callonSectionTitleLineElement71() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement63()
+	return p.cur.onSectionTitleLineElement71()
 }
 
-func (c *current) onSectionTitleLineElement65() (interface{}, error) {
+func (c *current) onSectionTitleLineElement73() (interface{}, error) {
 	return types.NewSpecialCharacter(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleLineElement65() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement73() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement65()
+	return p.cur.onSectionTitleLineElement73()
 }
 
-func (c *current) onSectionTitleLineElement61(element interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement69(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement61() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement69() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement61(stack["element"])
+	return p.cur.onSectionTitleLineElement69(stack["element"])
 }
 
-func (c *current) onSectionTitleLineElement70() (bool, error) {
+func (c *current) onSectionTitleLineElement78() (bool, error) {
 	return c.isSubstitutionEnabled(AttributeRefs), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement70() (bool, error) {
+func (p *parser) callonSectionTitleLineElement78() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement70()
+	return p.cur.onSectionTitleLineElement78()
 }
 
-func (c *current) onSectionTitleLineElement77() (interface{}, error) {
+func (c *current) onSectionTitleLineElement85() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement77() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement85() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement77()
+	return p.cur.onSectionTitleLineElement85()
 }
 
-func (c *current) onSectionTitleLineElement73(name interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement81(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -72148,264 +72399,264 @@ func (c *current) onSectionTitleLineElement73(name interface{}) (interface{}, er
 
 }
 
-func (p *parser) callonSectionTitleLineElement73() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement81() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement73(stack["name"])
+	return p.cur.onSectionTitleLineElement81(stack["name"])
 }
 
-func (c *current) onSectionTitleLineElement87() (interface{}, error) {
+func (c *current) onSectionTitleLineElement95() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement87() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement95() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement87()
+	return p.cur.onSectionTitleLineElement95()
 }
 
-func (c *current) onSectionTitleLineElement83(name interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement91(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleLineElement83() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement91() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement83(stack["name"])
+	return p.cur.onSectionTitleLineElement91(stack["name"])
 }
 
-func (c *current) onSectionTitleLineElement97() (interface{}, error) {
+func (c *current) onSectionTitleLineElement105() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement97() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement105() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement97()
+	return p.cur.onSectionTitleLineElement105()
 }
 
-func (c *current) onSectionTitleLineElement109() (interface{}, error) {
+func (c *current) onSectionTitleLineElement117() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement109() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement117() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement109()
+	return p.cur.onSectionTitleLineElement117()
 }
 
-func (c *current) onSectionTitleLineElement111() (interface{}, error) {
+func (c *current) onSectionTitleLineElement119() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleLineElement111() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement119() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement111()
+	return p.cur.onSectionTitleLineElement119()
 }
 
-func (c *current) onSectionTitleLineElement104(start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement112(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement104() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement112() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement104(stack["start"])
+	return p.cur.onSectionTitleLineElement112(stack["start"])
 }
 
-func (c *current) onSectionTitleLineElement93(name, start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement101(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
 }
 
-func (p *parser) callonSectionTitleLineElement93() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement101() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement93(stack["name"], stack["start"])
+	return p.cur.onSectionTitleLineElement101(stack["name"], stack["start"])
 }
 
-func (c *current) onSectionTitleLineElement119() (interface{}, error) {
+func (c *current) onSectionTitleLineElement127() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement119() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement127() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement119()
+	return p.cur.onSectionTitleLineElement127()
 }
 
-func (c *current) onSectionTitleLineElement131() (interface{}, error) {
+func (c *current) onSectionTitleLineElement139() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement131() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement139() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement131()
+	return p.cur.onSectionTitleLineElement139()
 }
 
-func (c *current) onSectionTitleLineElement133() (interface{}, error) {
+func (c *current) onSectionTitleLineElement141() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleLineElement133() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement141() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement133()
+	return p.cur.onSectionTitleLineElement141()
 }
 
-func (c *current) onSectionTitleLineElement126(start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement134(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement126() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement134() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement126(stack["start"])
+	return p.cur.onSectionTitleLineElement134(stack["start"])
 }
 
-func (c *current) onSectionTitleLineElement115(name, start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement123(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
-func (p *parser) callonSectionTitleLineElement115() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement123() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement115(stack["name"], stack["start"])
+	return p.cur.onSectionTitleLineElement123(stack["name"], stack["start"])
 }
 
-func (c *current) onSectionTitleLineElement68(element interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement76(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement68() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement76() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement68(stack["element"])
+	return p.cur.onSectionTitleLineElement76(stack["element"])
 }
 
-func (c *current) onSectionTitleLineElement141() (interface{}, error) {
+func (c *current) onSectionTitleLineElement149() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonSectionTitleLineElement141() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement149() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement141()
+	return p.cur.onSectionTitleLineElement149()
 }
 
-func (c *current) onSectionTitleLineElement145(ref interface{}) (bool, error) {
+func (c *current) onSectionTitleLineElement153(ref interface{}) (bool, error) {
 	return c.isPlaceHolder(ref.(string)) // otherwise, it's just the same characters
 
 }
 
-func (p *parser) callonSectionTitleLineElement145() (bool, error) {
+func (p *parser) callonSectionTitleLineElement153() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement145(stack["ref"])
+	return p.cur.onSectionTitleLineElement153(stack["ref"])
 }
 
-func (c *current) onSectionTitleLineElement137(ref interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement145(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
 
-func (p *parser) callonSectionTitleLineElement137() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement145() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement137(stack["ref"])
+	return p.cur.onSectionTitleLineElement145(stack["ref"])
 }
 
-func (c *current) onSectionTitleLineElement148() (bool, error) {
+func (c *current) onSectionTitleLineElement156() (bool, error) {
 	return c.isPrecededBySpace(), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement148() (bool, error) {
+func (p *parser) callonSectionTitleLineElement156() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement148()
+	return p.cur.onSectionTitleLineElement156()
 }
 
-func (c *current) onSectionTitleLineElement158() (interface{}, error) {
+func (c *current) onSectionTitleLineElement166() (interface{}, error) {
 	// spaces, commas and dots are allowed in this syntax
 	return types.NewStringElement(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleLineElement158() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement166() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement158()
+	return p.cur.onSectionTitleLineElement166()
 }
 
-func (c *current) onSectionTitleLineElement165() (interface{}, error) {
+func (c *current) onSectionTitleLineElement173() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonSectionTitleLineElement165() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement173() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement165()
+	return p.cur.onSectionTitleLineElement173()
 }
 
-func (c *current) onSectionTitleLineElement169(ref interface{}) (bool, error) {
+func (c *current) onSectionTitleLineElement177(ref interface{}) (bool, error) {
 	return c.isPlaceHolder(ref.(string)) // otherwise, it's just the same characters
 
 }
 
-func (p *parser) callonSectionTitleLineElement169() (bool, error) {
+func (p *parser) callonSectionTitleLineElement177() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement169(stack["ref"])
+	return p.cur.onSectionTitleLineElement177(stack["ref"])
 }
 
-func (c *current) onSectionTitleLineElement161(ref interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement169(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
 
-func (p *parser) callonSectionTitleLineElement161() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement169() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement161(stack["ref"])
+	return p.cur.onSectionTitleLineElement169(stack["ref"])
 }
 
-func (c *current) onSectionTitleLineElement172() (bool, error) {
+func (c *current) onSectionTitleLineElement180() (bool, error) {
 	return c.isSubstitutionEnabled(AttributeRefs), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement172() (bool, error) {
+func (p *parser) callonSectionTitleLineElement180() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement172()
+	return p.cur.onSectionTitleLineElement180()
 }
 
-func (c *current) onSectionTitleLineElement179() (interface{}, error) {
+func (c *current) onSectionTitleLineElement187() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement179() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement187() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement179()
+	return p.cur.onSectionTitleLineElement187()
 }
 
-func (c *current) onSectionTitleLineElement175(name interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement183(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -72413,292 +72664,292 @@ func (c *current) onSectionTitleLineElement175(name interface{}) (interface{}, e
 
 }
 
-func (p *parser) callonSectionTitleLineElement175() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement183() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement175(stack["name"])
+	return p.cur.onSectionTitleLineElement183(stack["name"])
 }
 
-func (c *current) onSectionTitleLineElement189() (interface{}, error) {
+func (c *current) onSectionTitleLineElement197() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement189() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement197() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement189()
+	return p.cur.onSectionTitleLineElement197()
 }
 
-func (c *current) onSectionTitleLineElement185(name interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement193(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleLineElement185() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement193() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement185(stack["name"])
+	return p.cur.onSectionTitleLineElement193(stack["name"])
 }
 
-func (c *current) onSectionTitleLineElement199() (interface{}, error) {
+func (c *current) onSectionTitleLineElement207() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement199() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement207() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement199()
+	return p.cur.onSectionTitleLineElement207()
 }
 
-func (c *current) onSectionTitleLineElement211() (interface{}, error) {
+func (c *current) onSectionTitleLineElement219() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement211() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement219() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement211()
+	return p.cur.onSectionTitleLineElement219()
 }
 
-func (c *current) onSectionTitleLineElement213() (interface{}, error) {
+func (c *current) onSectionTitleLineElement221() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleLineElement213() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement221() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement213()
+	return p.cur.onSectionTitleLineElement221()
 }
 
-func (c *current) onSectionTitleLineElement206(start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement214(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement206() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement214() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement206(stack["start"])
+	return p.cur.onSectionTitleLineElement214(stack["start"])
 }
 
-func (c *current) onSectionTitleLineElement195(name, start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement203(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
 }
 
-func (p *parser) callonSectionTitleLineElement195() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement203() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement195(stack["name"], stack["start"])
+	return p.cur.onSectionTitleLineElement203(stack["name"], stack["start"])
 }
 
-func (c *current) onSectionTitleLineElement221() (interface{}, error) {
+func (c *current) onSectionTitleLineElement229() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement221() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement229() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement221()
+	return p.cur.onSectionTitleLineElement229()
 }
 
-func (c *current) onSectionTitleLineElement233() (interface{}, error) {
+func (c *current) onSectionTitleLineElement241() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement233() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement241() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement233()
+	return p.cur.onSectionTitleLineElement241()
 }
 
-func (c *current) onSectionTitleLineElement235() (interface{}, error) {
+func (c *current) onSectionTitleLineElement243() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleLineElement235() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement243() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement235()
+	return p.cur.onSectionTitleLineElement243()
 }
 
-func (c *current) onSectionTitleLineElement228(start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement236(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement228() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement236() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement228(stack["start"])
+	return p.cur.onSectionTitleLineElement236(stack["start"])
 }
 
-func (c *current) onSectionTitleLineElement217(name, start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement225(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
-func (p *parser) callonSectionTitleLineElement217() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement225() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement217(stack["name"], stack["start"])
+	return p.cur.onSectionTitleLineElement225(stack["name"], stack["start"])
 }
 
-func (c *current) onSectionTitleLineElement170(element interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement178(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement170() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement178() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement170(stack["element"])
+	return p.cur.onSectionTitleLineElement178(stack["element"])
 }
 
-func (c *current) onSectionTitleLineElement239() (interface{}, error) {
+func (c *current) onSectionTitleLineElement247() (interface{}, error) {
 
 	return types.NewStringElement(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleLineElement239() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement247() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement239()
+	return p.cur.onSectionTitleLineElement247()
 }
 
-func (c *current) onSectionTitleLineElement154(elements interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement162(elements interface{}) (interface{}, error) {
 	return types.Reduce(elements, strings.TrimSpace), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement154() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement162() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement154(stack["elements"])
+	return p.cur.onSectionTitleLineElement162(stack["elements"])
 }
 
-func (c *current) onSectionTitleLineElement150(id interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement158(id interface{}) (interface{}, error) {
 	return types.NewIDAttribute(id)
 
 }
 
-func (p *parser) callonSectionTitleLineElement150() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement158() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement150(stack["id"])
+	return p.cur.onSectionTitleLineElement158(stack["id"])
 }
 
-func (c *current) onSectionTitleLineElement243() (interface{}, error) {
+func (c *current) onSectionTitleLineElement251() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement243() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement251() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement243()
+	return p.cur.onSectionTitleLineElement251()
 }
 
-func (c *current) onSectionTitleLineElement247() (interface{}, error) {
+func (c *current) onSectionTitleLineElement255() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonSectionTitleLineElement247() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement255() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement247()
+	return p.cur.onSectionTitleLineElement255()
 }
 
-func (c *current) onSectionTitleLineElement146(id interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement154(id interface{}) (interface{}, error) {
 
 	return id, nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement146() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement154() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement146(stack["id"])
+	return p.cur.onSectionTitleLineElement154(stack["id"])
 }
 
-func (c *current) onSectionTitleLineElement258() (interface{}, error) {
+func (c *current) onSectionTitleLineElement266() (interface{}, error) {
 	// previously:(Alphas / (!Newline !Space !"[" !"]" !"<<" !">>" !","  .))+
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement258() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement266() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement258()
+	return p.cur.onSectionTitleLineElement266()
 }
 
-func (c *current) onSectionTitleLineElement254(id interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement262(id interface{}) (interface{}, error) {
 	return types.NewEscapedMacro(strings.TrimPrefix(string(c.text), `\`), c.isSubstitutionEnabled(SpecialCharacters))
 
 }
 
-func (p *parser) callonSectionTitleLineElement254() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement262() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement254(stack["id"])
+	return p.cur.onSectionTitleLineElement262(stack["id"])
 }
 
-func (c *current) onSectionTitleLineElement266() (interface{}, error) {
+func (c *current) onSectionTitleLineElement274() (interface{}, error) {
 	// previously:(Alphas / (!Newline !Space !"[" !"]" !"<<" !">>" !","  .))+
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement266() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement274() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement266()
+	return p.cur.onSectionTitleLineElement274()
 }
 
-func (c *current) onSectionTitleLineElement262(id interface{}) (interface{}, error) {
+func (c *current) onSectionTitleLineElement270(id interface{}) (interface{}, error) {
 	// no EOL here since there can be multiple InlineElementID on the same line
 	return types.NewInlineAnchor(id.(string))
 
 }
 
-func (p *parser) callonSectionTitleLineElement262() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement270() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement262(stack["id"])
+	return p.cur.onSectionTitleLineElement270(stack["id"])
 }
 
-func (c *current) onSectionTitleLineElement272() (interface{}, error) {
+func (c *current) onSectionTitleLineElement280() (interface{}, error) {
 	return c.currentLine(), nil
 
 }
 
-func (p *parser) callonSectionTitleLineElement272() (interface{}, error) {
+func (p *parser) callonSectionTitleLineElement280() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement272()
+	return p.cur.onSectionTitleLineElement280()
 }
 
-func (c *current) onSectionTitleLineElement274(start, element, end interface{}) (bool, error) {
+func (c *current) onSectionTitleLineElement282(start, element, end interface{}) (bool, error) {
 	return start == end, nil // titles are on a single line
 
 }
 
-func (p *parser) callonSectionTitleLineElement274() (bool, error) {
+func (p *parser) callonSectionTitleLineElement282() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleLineElement274(stack["start"], stack["element"], stack["end"])
+	return p.cur.onSectionTitleLineElement282(stack["start"], stack["element"], stack["end"])
 }
 
 func (c *current) onSectionTitleLineElement1(start, element, end interface{}) (interface{}, error) {
@@ -72712,26 +72963,48 @@ func (p *parser) callonSectionTitleLineElement1() (interface{}, error) {
 	return p.cur.onSectionTitleLineElement1(stack["start"], stack["element"], stack["end"])
 }
 
-func (c *current) onNormalGroup14() (interface{}, error) {
+func (c *current) onNormalGroup16() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup14() (interface{}, error) {
+func (p *parser) callonNormalGroup16() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup14()
+	return p.cur.onNormalGroup16()
 }
 
-func (c *current) onNormalGroup20() (bool, error) {
-	return c.isInlineMacro(string(c.text)), nil
+func (c *current) onNormalGroup20(name interface{}) (bool, error) {
+	return c.isUserMacro(name.(string)), nil
 
 }
 
 func (p *parser) callonNormalGroup20() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup20()
+	return p.cur.onNormalGroup20(stack["name"])
+}
+
+func (c *current) onNormalGroup22() (interface{}, error) {
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonNormalGroup22() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onNormalGroup22()
+}
+
+func (c *current) onNormalGroup28() (bool, error) {
+	return c.isInlineMacro(string(c.text)), nil
+
+}
+
+func (p *parser) callonNormalGroup28() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onNormalGroup28()
 }
 
 func (c *current) onNormalGroup11(text interface{}) (interface{}, error) {
@@ -72746,146 +73019,146 @@ func (p *parser) callonNormalGroup11() (interface{}, error) {
 	return p.cur.onNormalGroup11(stack["text"])
 }
 
-func (c *current) onNormalGroup30() (interface{}, error) {
+func (c *current) onNormalGroup38() (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup30() (interface{}, error) {
+func (p *parser) callonNormalGroup38() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup30()
+	return p.cur.onNormalGroup38()
 }
 
-func (c *current) onNormalGroup36() (bool, error) {
+func (c *current) onNormalGroup44() (bool, error) {
 	return c.isSubstitutionEnabled(Replacements), nil
 
 }
 
-func (p *parser) callonNormalGroup36() (bool, error) {
+func (p *parser) callonNormalGroup44() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup36()
+	return p.cur.onNormalGroup44()
 }
 
-func (c *current) onNormalGroup34() (interface{}, error) {
+func (c *current) onNormalGroup42() (interface{}, error) {
 	//log.Debug("matched escaped apostrophe")
 	return types.NewStringElement(`'`) // retain the apostrophe, but discard the `\` escape char
 
 }
 
-func (p *parser) callonNormalGroup34() (interface{}, error) {
+func (p *parser) callonNormalGroup42() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup34()
+	return p.cur.onNormalGroup42()
 }
 
-func (c *current) onNormalGroup42() (bool, error) {
+func (c *current) onNormalGroup50() (bool, error) {
 	return c.isSubstitutionEnabled(Replacements), nil
 
 }
 
-func (p *parser) callonNormalGroup42() (bool, error) {
+func (p *parser) callonNormalGroup50() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup42()
+	return p.cur.onNormalGroup50()
 }
 
-func (c *current) onNormalGroup43() (bool, error) {
+func (c *current) onNormalGroup51() (bool, error) {
 	//log.Debugf("TypographicQuote at pos %s", c.pos.String())
 	return c.isPrecededByAlphanum(), nil
 
 }
 
-func (p *parser) callonNormalGroup43() (bool, error) {
+func (p *parser) callonNormalGroup51() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup43()
+	return p.cur.onNormalGroup51()
 }
 
-func (c *current) onNormalGroup40() (interface{}, error) {
+func (c *current) onNormalGroup48() (interface{}, error) {
 	return types.NewSymbol("'")
 
 }
 
-func (p *parser) callonNormalGroup40() (interface{}, error) {
+func (p *parser) callonNormalGroup48() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup40()
+	return p.cur.onNormalGroup48()
 }
 
-func (c *current) onNormalGroup51() (bool, error) {
+func (c *current) onNormalGroup59() (bool, error) {
 
 	return c.allSubstitutionsDisabled(Macros, Quotes), nil
 
 }
 
-func (p *parser) callonNormalGroup51() (bool, error) {
+func (p *parser) callonNormalGroup59() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup51()
+	return p.cur.onNormalGroup59()
 }
 
-func (c *current) onNormalGroup55() (bool, error) {
+func (c *current) onNormalGroup63() (bool, error) {
 
 	return c.isSubstitutionDisabled(Quotes), nil
 
 }
 
-func (p *parser) callonNormalGroup55() (bool, error) {
+func (p *parser) callonNormalGroup63() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup55()
+	return p.cur.onNormalGroup63()
 }
 
-func (c *current) onNormalGroup47() (interface{}, error) {
+func (c *current) onNormalGroup55() (interface{}, error) {
 
 	log.Debugf("new punctuation: '%v'", string(c.text))
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup47() (interface{}, error) {
+func (p *parser) callonNormalGroup55() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup47()
+	return p.cur.onNormalGroup55()
 }
 
-func (c *current) onNormalGroup61() (interface{}, error) {
+func (c *current) onNormalGroup69() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonNormalGroup61() (interface{}, error) {
+func (p *parser) callonNormalGroup69() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup61()
+	return p.cur.onNormalGroup69()
 }
 
-func (c *current) onNormalGroup68() (bool, error) {
+func (c *current) onNormalGroup76() (bool, error) {
 	return c.isSubstitutionEnabled(AttributeRefs), nil
 
 }
 
-func (p *parser) callonNormalGroup68() (bool, error) {
+func (p *parser) callonNormalGroup76() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup68()
+	return p.cur.onNormalGroup76()
 }
 
-func (c *current) onNormalGroup75() (interface{}, error) {
+func (c *current) onNormalGroup83() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup75() (interface{}, error) {
+func (p *parser) callonNormalGroup83() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup75()
+	return p.cur.onNormalGroup83()
 }
 
-func (c *current) onNormalGroup71(name interface{}) (interface{}, error) {
+func (c *current) onNormalGroup79(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -72893,280 +73166,280 @@ func (c *current) onNormalGroup71(name interface{}) (interface{}, error) {
 
 }
 
-func (p *parser) callonNormalGroup71() (interface{}, error) {
+func (p *parser) callonNormalGroup79() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup71(stack["name"])
+	return p.cur.onNormalGroup79(stack["name"])
 }
 
-func (c *current) onNormalGroup85() (interface{}, error) {
+func (c *current) onNormalGroup93() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup85() (interface{}, error) {
+func (p *parser) callonNormalGroup93() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup85()
+	return p.cur.onNormalGroup93()
 }
 
-func (c *current) onNormalGroup81(name interface{}) (interface{}, error) {
+func (c *current) onNormalGroup89(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonNormalGroup81() (interface{}, error) {
+func (p *parser) callonNormalGroup89() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup81(stack["name"])
+	return p.cur.onNormalGroup89(stack["name"])
 }
 
-func (c *current) onNormalGroup95() (interface{}, error) {
+func (c *current) onNormalGroup103() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup95() (interface{}, error) {
+func (p *parser) callonNormalGroup103() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup95()
+	return p.cur.onNormalGroup103()
 }
 
-func (c *current) onNormalGroup107() (interface{}, error) {
+func (c *current) onNormalGroup115() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup107() (interface{}, error) {
+func (p *parser) callonNormalGroup115() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup107()
+	return p.cur.onNormalGroup115()
 }
 
-func (c *current) onNormalGroup109() (interface{}, error) {
+func (c *current) onNormalGroup117() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonNormalGroup109() (interface{}, error) {
+func (p *parser) callonNormalGroup117() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup109()
+	return p.cur.onNormalGroup117()
 }
 
-func (c *current) onNormalGroup102(start interface{}) (interface{}, error) {
+func (c *current) onNormalGroup110(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonNormalGroup102() (interface{}, error) {
+func (p *parser) callonNormalGroup110() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup102(stack["start"])
+	return p.cur.onNormalGroup110(stack["start"])
 }
 
-func (c *current) onNormalGroup91(name, start interface{}) (interface{}, error) {
+func (c *current) onNormalGroup99(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
 }
 
-func (p *parser) callonNormalGroup91() (interface{}, error) {
+func (p *parser) callonNormalGroup99() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup91(stack["name"], stack["start"])
+	return p.cur.onNormalGroup99(stack["name"], stack["start"])
 }
 
-func (c *current) onNormalGroup117() (interface{}, error) {
+func (c *current) onNormalGroup125() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup117() (interface{}, error) {
+func (p *parser) callonNormalGroup125() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup117()
+	return p.cur.onNormalGroup125()
 }
 
-func (c *current) onNormalGroup129() (interface{}, error) {
+func (c *current) onNormalGroup137() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup129() (interface{}, error) {
+func (p *parser) callonNormalGroup137() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup129()
+	return p.cur.onNormalGroup137()
 }
 
-func (c *current) onNormalGroup131() (interface{}, error) {
+func (c *current) onNormalGroup139() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonNormalGroup131() (interface{}, error) {
+func (p *parser) callonNormalGroup139() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup131()
+	return p.cur.onNormalGroup139()
 }
 
-func (c *current) onNormalGroup124(start interface{}) (interface{}, error) {
+func (c *current) onNormalGroup132(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonNormalGroup124() (interface{}, error) {
+func (p *parser) callonNormalGroup132() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup124(stack["start"])
+	return p.cur.onNormalGroup132(stack["start"])
 }
 
-func (c *current) onNormalGroup113(name, start interface{}) (interface{}, error) {
+func (c *current) onNormalGroup121(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), true, start, string(c.text))
 }
 
-func (p *parser) callonNormalGroup113() (interface{}, error) {
+func (p *parser) callonNormalGroup121() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup113(stack["name"], stack["start"])
+	return p.cur.onNormalGroup121(stack["name"], stack["start"])
 }
 
-func (c *current) onNormalGroup66(element interface{}) (interface{}, error) {
+func (c *current) onNormalGroup74(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonNormalGroup66() (interface{}, error) {
+func (p *parser) callonNormalGroup74() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup66(stack["element"])
+	return p.cur.onNormalGroup74(stack["element"])
 }
 
-func (c *current) onNormalGroup140() (bool, error) {
+func (c *current) onNormalGroup148() (bool, error) {
 	return c.isSubstitutionEnabled(SpecialCharacters), nil
 
 }
 
-func (p *parser) callonNormalGroup140() (bool, error) {
+func (p *parser) callonNormalGroup148() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup140()
+	return p.cur.onNormalGroup148()
 }
 
-func (c *current) onNormalGroup142() (interface{}, error) {
+func (c *current) onNormalGroup150() (interface{}, error) {
 	return types.NewSpecialCharacter(string(c.text))
 
 }
 
-func (p *parser) callonNormalGroup142() (interface{}, error) {
+func (p *parser) callonNormalGroup150() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup142()
+	return p.cur.onNormalGroup150()
 }
 
-func (c *current) onNormalGroup138(element interface{}) (interface{}, error) {
+func (c *current) onNormalGroup146(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonNormalGroup138() (interface{}, error) {
+func (p *parser) callonNormalGroup146() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup138(stack["element"])
+	return p.cur.onNormalGroup146(stack["element"])
 }
 
-func (c *current) onNormalGroup146() (bool, error) {
+func (c *current) onNormalGroup154() (bool, error) {
 
 	return c.isSubstitutionEnabled(PostReplacements), nil
 
 }
 
-func (p *parser) callonNormalGroup146() (bool, error) {
+func (p *parser) callonNormalGroup154() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup146()
+	return p.cur.onNormalGroup154()
 }
 
-func (c *current) onNormalGroup148() (bool, error) {
+func (c *current) onNormalGroup156() (bool, error) {
 
 	log.Debug("LineBreak")
 	return c.isPrecededBySpace(), nil
 
 }
 
-func (p *parser) callonNormalGroup148() (bool, error) {
+func (p *parser) callonNormalGroup156() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup148()
+	return p.cur.onNormalGroup156()
 }
 
-func (c *current) onNormalGroup150() (interface{}, error) {
+func (c *current) onNormalGroup158() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup150() (interface{}, error) {
+func (p *parser) callonNormalGroup158() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup150()
+	return p.cur.onNormalGroup158()
 }
 
-func (c *current) onNormalGroup154() (interface{}, error) {
+func (c *current) onNormalGroup162() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonNormalGroup154() (interface{}, error) {
+func (p *parser) callonNormalGroup162() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup154()
+	return p.cur.onNormalGroup162()
 }
 
-func (c *current) onNormalGroup144() (interface{}, error) {
+func (c *current) onNormalGroup152() (interface{}, error) {
 	return types.NewLineBreak()
 
 }
 
-func (p *parser) callonNormalGroup144() (interface{}, error) {
+func (p *parser) callonNormalGroup152() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup144()
+	return p.cur.onNormalGroup152()
 }
 
-func (c *current) onNormalGroup166() (interface{}, error) {
+func (c *current) onNormalGroup174() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonNormalGroup166() (interface{}, error) {
+func (p *parser) callonNormalGroup174() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup166()
+	return p.cur.onNormalGroup174()
 }
 
-func (c *current) onNormalGroup170(ref interface{}) (bool, error) {
+func (c *current) onNormalGroup178(ref interface{}) (bool, error) {
 	return c.isPlaceHolder(ref.(string)) // otherwise, it's just the same characters
 
 }
 
-func (p *parser) callonNormalGroup170() (bool, error) {
+func (p *parser) callonNormalGroup178() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup170(stack["ref"])
+	return p.cur.onNormalGroup178(stack["ref"])
 }
 
-func (c *current) onNormalGroup162(ref interface{}) (interface{}, error) {
+func (c *current) onNormalGroup170(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
 
-func (p *parser) callonNormalGroup162() (interface{}, error) {
+func (p *parser) callonNormalGroup170() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup162(stack["ref"])
+	return p.cur.onNormalGroup170(stack["ref"])
 }
 
-func (c *current) onNormalGroup171() (interface{}, error) {
+func (c *current) onNormalGroup179() (interface{}, error) {
 
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("matching anychar '%s' at position %v", string(c.text), c.pos.String())
@@ -73175,10 +73448,10 @@ func (c *current) onNormalGroup171() (interface{}, error) {
 
 }
 
-func (p *parser) callonNormalGroup171() (interface{}, error) {
+func (p *parser) callonNormalGroup179() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup171()
+	return p.cur.onNormalGroup179()
 }
 
 func (c *current) onNormalGroup5(element interface{}) (interface{}, error) {
@@ -73216,26 +73489,48 @@ func (p *parser) callonAttributeStructuredValue1() (interface{}, error) {
 	return p.cur.onAttributeStructuredValue1(stack["elements"])
 }
 
-func (c *current) onAttributeStructuredValueElement10() (interface{}, error) {
+func (c *current) onAttributeStructuredValueElement12() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonAttributeStructuredValueElement10() (interface{}, error) {
+func (p *parser) callonAttributeStructuredValueElement12() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement10()
+	return p.cur.onAttributeStructuredValueElement12()
 }
 
-func (c *current) onAttributeStructuredValueElement16() (bool, error) {
-	return c.isInlineMacro(string(c.text)), nil
+func (c *current) onAttributeStructuredValueElement16(name interface{}) (bool, error) {
+	return c.isUserMacro(name.(string)), nil
 
 }
 
 func (p *parser) callonAttributeStructuredValueElement16() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement16()
+	return p.cur.onAttributeStructuredValueElement16(stack["name"])
+}
+
+func (c *current) onAttributeStructuredValueElement18() (interface{}, error) {
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonAttributeStructuredValueElement18() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onAttributeStructuredValueElement18()
+}
+
+func (c *current) onAttributeStructuredValueElement24() (bool, error) {
+	return c.isInlineMacro(string(c.text)), nil
+
+}
+
+func (p *parser) callonAttributeStructuredValueElement24() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onAttributeStructuredValueElement24()
 }
 
 func (c *current) onAttributeStructuredValueElement7(text interface{}) (interface{}, error) {
@@ -73250,131 +73545,131 @@ func (p *parser) callonAttributeStructuredValueElement7() (interface{}, error) {
 	return p.cur.onAttributeStructuredValueElement7(stack["text"])
 }
 
-func (c *current) onAttributeStructuredValueElement26() (interface{}, error) {
+func (c *current) onAttributeStructuredValueElement34() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonAttributeStructuredValueElement26() (interface{}, error) {
+func (p *parser) callonAttributeStructuredValueElement34() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement26()
+	return p.cur.onAttributeStructuredValueElement34()
 }
 
-func (c *current) onAttributeStructuredValueElement33() (bool, error) {
+func (c *current) onAttributeStructuredValueElement41() (bool, error) {
 
 	return c.allSubstitutionsDisabled(Macros, Quotes), nil
 
 }
 
-func (p *parser) callonAttributeStructuredValueElement33() (bool, error) {
+func (p *parser) callonAttributeStructuredValueElement41() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement33()
+	return p.cur.onAttributeStructuredValueElement41()
 }
 
-func (c *current) onAttributeStructuredValueElement37() (bool, error) {
+func (c *current) onAttributeStructuredValueElement45() (bool, error) {
 
 	return c.isSubstitutionDisabled(Quotes), nil
 
 }
 
-func (p *parser) callonAttributeStructuredValueElement37() (bool, error) {
+func (p *parser) callonAttributeStructuredValueElement45() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement37()
+	return p.cur.onAttributeStructuredValueElement45()
 }
 
-func (c *current) onAttributeStructuredValueElement29() (interface{}, error) {
+func (c *current) onAttributeStructuredValueElement37() (interface{}, error) {
 
 	log.Debugf("new punctuation: '%v'", string(c.text))
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonAttributeStructuredValueElement29() (interface{}, error) {
+func (p *parser) callonAttributeStructuredValueElement37() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement29()
+	return p.cur.onAttributeStructuredValueElement37()
 }
 
-func (c *current) onAttributeStructuredValueElement47() (bool, error) {
+func (c *current) onAttributeStructuredValueElement55() (bool, error) {
 	return c.isSubstitutionEnabled(SpecialCharacters), nil
 
 }
 
-func (p *parser) callonAttributeStructuredValueElement47() (bool, error) {
+func (p *parser) callonAttributeStructuredValueElement55() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement47()
+	return p.cur.onAttributeStructuredValueElement55()
 }
 
-func (c *current) onAttributeStructuredValueElement49() (interface{}, error) {
+func (c *current) onAttributeStructuredValueElement57() (interface{}, error) {
 	return types.NewSpecialCharacter(string(c.text))
 
 }
 
-func (p *parser) callonAttributeStructuredValueElement49() (interface{}, error) {
+func (p *parser) callonAttributeStructuredValueElement57() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement49()
+	return p.cur.onAttributeStructuredValueElement57()
 }
 
-func (c *current) onAttributeStructuredValueElement45(element interface{}) (interface{}, error) {
+func (c *current) onAttributeStructuredValueElement53(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonAttributeStructuredValueElement45() (interface{}, error) {
+func (p *parser) callonAttributeStructuredValueElement53() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement45(stack["element"])
+	return p.cur.onAttributeStructuredValueElement53(stack["element"])
 }
 
-func (c *current) onAttributeStructuredValueElement55() (interface{}, error) {
+func (c *current) onAttributeStructuredValueElement63() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonAttributeStructuredValueElement55() (interface{}, error) {
+func (p *parser) callonAttributeStructuredValueElement63() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement55()
+	return p.cur.onAttributeStructuredValueElement63()
 }
 
-func (c *current) onAttributeStructuredValueElement59(ref interface{}) (bool, error) {
+func (c *current) onAttributeStructuredValueElement67(ref interface{}) (bool, error) {
 	return c.isPlaceHolder(ref.(string)) // otherwise, it's just the same characters
 
 }
 
-func (p *parser) callonAttributeStructuredValueElement59() (bool, error) {
+func (p *parser) callonAttributeStructuredValueElement67() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement59(stack["ref"])
+	return p.cur.onAttributeStructuredValueElement67(stack["ref"])
 }
 
-func (c *current) onAttributeStructuredValueElement51(ref interface{}) (interface{}, error) {
+func (c *current) onAttributeStructuredValueElement59(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
 
-func (p *parser) callonAttributeStructuredValueElement51() (interface{}, error) {
+func (p *parser) callonAttributeStructuredValueElement59() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement51(stack["ref"])
+	return p.cur.onAttributeStructuredValueElement59(stack["ref"])
 }
 
-func (c *current) onAttributeStructuredValueElement60() (interface{}, error) {
+func (c *current) onAttributeStructuredValueElement68() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonAttributeStructuredValueElement60() (interface{}, error) {
+func (p *parser) callonAttributeStructuredValueElement68() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement60()
+	return p.cur.onAttributeStructuredValueElement68()
 }
 
-func (c *current) onAttributeStructuredValueElement65() (interface{}, error) {
+func (c *current) onAttributeStructuredValueElement73() (interface{}, error) {
 
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("matching anychar '%s' at position %v", string(c.text), c.pos.String())
@@ -73383,10 +73678,10 @@ func (c *current) onAttributeStructuredValueElement65() (interface{}, error) {
 
 }
 
-func (p *parser) callonAttributeStructuredValueElement65() (interface{}, error) {
+func (p *parser) callonAttributeStructuredValueElement73() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeStructuredValueElement65()
+	return p.cur.onAttributeStructuredValueElement73()
 }
 
 func (c *current) onAttributeStructuredValueElement1(element interface{}) (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index b87e7f6..cfbeef1 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -2777,6 +2777,13 @@ Alphanums <- [\pL\pN]+ {
     }
 
 InlineText <- 
+    !(
+        name:(UserMacroName) // the names of macros may also contain hyphens and underscores
+        ":"
+        &{
+            return c.isUserMacro(name.(string)), nil
+        } 
+    )
     text:([\pL\pN]+ {
         return string(c.text), nil
     })
diff --git a/pkg/parser/parser_ext.go b/pkg/parser/parser_ext.go
index ea29960..b7972bc 100644
--- a/pkg/parser/parser_ext.go
+++ b/pkg/parser/parser_ext.go
@@ -167,6 +167,11 @@ func (c *current) isInlineMacro(text string) bool {
 	return false
 }
 
+// isUserMacro checks if a user macro with the given name is registered, unless there is no substitution of macros
+func (c *current) isUserMacro(name string) bool {
+	return c.hasUserMacro(name) && !c.isSubstitutionDisabled(Macros)
+}
+
 // verifies that previous last character of previous match is neither a
 // letter, number, exclamation point, colon, semicolon, or closing curly bracket
 func (c *current) isSingleQuotedTextAllowed() bool {
-- 
2.43.0


From c5c3b9d4b3a1a746956eb0dc598931b66284b649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:44 +0000
Subject: [PATCH 131/143] fix: user macros and buttons in the values of
 attributes were not recognised

---
 pkg/parser/document_processing_apply_substitutions.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 2fb7b7b..bb14225 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -576,7 +576,7 @@ func replaceAttributeRefsInElementsAndReparse(ctx *ParseContext, elements []inte
 		if log.IsLevelEnabled(log.DebugLevel) {
 			log.Debugf("reparsing (phase2) %s", spew.Sdump(elements))
 		}
-		return parseWithSubstitutions(elements, subs, append(opts, Entrypoint("NormalGroup"))...)
+		return parseWithSubstitutions(elements, subs, append(append(ctx.opts, opts...), Entrypoint("NormalGroup"))...)
 	}
 	return elements, nil
 }
-- 
2.43.0


From 24a6159dd75bd6f3ba999fca2b2b865ec41cbce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:11 +0000
Subject: [PATCH 132/143] fix: the directory of images was added again each
 time an image was rendered

---
 pkg/renderer/sgml/image.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/renderer/sgml/image.go b/pkg/renderer/sgml/image.go
index 21eb521..df6a719 100644
--- a/pkg/renderer/sgml/image.go
+++ b/pkg/renderer/sgml/image.go
@@ -111,6 +111,8 @@ func (r *sgmlRenderer) renderInlineImage(ctx *context, img *types.InlineImage) (
 
 func (r *sgmlRenderer) getImageSrc(ctx *context, location *types.Location) string {
 	if imagesdir, found := ctx.attributes.GetAsString(types.AttrImagesDir); found {
+		l := *location // the same image may be rendered many times (eg: in a title and in the references to its block)
+		location = &l
 		location.SetPathPrefix(imagesdir)
 	}
 	src := location.ToString()
-- 
2.43.0


From 8a165e9a4c0b80ed03f76f2b5484a0a41093c986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:11 +0000
Subject: [PATCH 133/143] fix: remote images were lost with data-uri

---
 pkg/renderer/sgml/image.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/renderer/sgml/image.go b/pkg/renderer/sgml/image.go
index df6a719..b93eeb5 100644
--- a/pkg/renderer/sgml/image.go
+++ b/pkg/renderer/sgml/image.go
@@ -118,7 +118,8 @@ func (r *sgmlRenderer) getImageSrc(ctx *context, location *types.Location) strin
 	src := location.ToString()
 
 	// if Data URI is enables, then include the content of the file in the `src` attribute of the `<img>` tag
-	if !ctx.attributes.Has("data-uri") {
+	// (but the remote images, whose content is not available)
+	if u, err := url.Parse(src); !ctx.attributes.Has("data-uri") || (err == nil && u.IsAbs()) {
 		return imageSrcEscaper.Replace(src)
 	}
 	dir := filepath.Dir(ctx.config.Filename)
-- 
2.43.0


From 8dd7cb1b542e5e8770623ee245b33169032be89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:12 +0000
Subject: [PATCH 134/143] fix: images with an absolute path were not found with
 data-uri

---
 pkg/renderer/sgml/image.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/renderer/sgml/image.go b/pkg/renderer/sgml/image.go
index b93eeb5..b7729a2 100644
--- a/pkg/renderer/sgml/image.go
+++ b/pkg/renderer/sgml/image.go
@@ -123,7 +123,9 @@ func (r *sgmlRenderer) getImageSrc(ctx *context, location *types.Location) strin
 		return imageSrcEscaper.Replace(src)
 	}
 	dir := filepath.Dir(ctx.config.Filename)
-	src = filepath.Join(dir, src)
+	if !filepath.IsAbs(src) {
+		src = filepath.Join(dir, src)
+	}
 	result := "data:image/" + strings.TrimPrefix(filepath.Ext(src), ".") + ";base64,"
 	data, err := os.ReadFile(src)
 	if err != nil {
-- 
2.43.0


From 2843ae2a41d2d6cd102d07959a6e6dcbc810f847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:12 +0000
Subject: [PATCH 135/143] fix: special characters in the extension of an
 embedded image were not escaped

---
 pkg/renderer/sgml/image.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/renderer/sgml/image.go b/pkg/renderer/sgml/image.go
index b7729a2..539cc4b 100644
--- a/pkg/renderer/sgml/image.go
+++ b/pkg/renderer/sgml/image.go
@@ -126,7 +126,8 @@ func (r *sgmlRenderer) getImageSrc(ctx *context, location *types.Location) strin
 	if !filepath.IsAbs(src) {
 		src = filepath.Join(dir, src)
 	}
-	result := "data:image/" + strings.TrimPrefix(filepath.Ext(src), ".") + ";base64,"
+	subtype := imageSrcEscaper.Replace(strings.TrimPrefix(filepath.Ext(src), "."))
+	result := "data:image/" + subtype + ";base64,"
 	data, err := os.ReadFile(src)
 	if err != nil {
 		log.Warnf("image to embed not found or not readable: %s", src)
-- 
2.43.0


From 4195ba9652d8a140180657addd4391061092e675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:12 +0000
Subject: [PATCH 136/143] fix: the type of embedded SVG images was invalid

---
 pkg/renderer/sgml/image.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/renderer/sgml/image.go b/pkg/renderer/sgml/image.go
index 539cc4b..10282fe 100644
--- a/pkg/renderer/sgml/image.go
+++ b/pkg/renderer/sgml/image.go
@@ -127,6 +127,9 @@ func (r *sgmlRenderer) getImageSrc(ctx *context, location *types.Location) strin
 		src = filepath.Join(dir, src)
 	}
 	subtype := imageSrcEscaper.Replace(strings.TrimPrefix(filepath.Ext(src), "."))
+	if subtype == "svg" {
+		subtype = "svg+xml" // the only type of SVG images which browsers support
+	}
 	result := "data:image/" + subtype + ";base64,"
 	data, err := os.ReadFile(src)
 	if err != nil {
-- 
2.43.0


From a29c7a0fb4f0e4fcdecdb9d1e4790442e33495e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:13 +0000
Subject: [PATCH 137/143] fix: tables with an AsciiDoc cell in their header
 were not rendered

---
 .../document_processing_apply_substitutions.go   |  5 +++++
 pkg/renderer/sgml/table.go                       | 16 ++++++++++++++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index bb14225..89c723e 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -168,8 +168,13 @@ func applySubstitutionsOnTable(ctx *ParseContext, t *types.Table, opts ...Option
 					if err := applySubstitutionsOnWithElements(ctx, p, opts...); err != nil {
 						return err
 					}
+					continue
 				}
 			}
+			// AsciiDoc cell which became part of the header, because of the columns
+			if err := applySubstitutionsOnWithElements(ctx, c, opts...); err != nil {
+				return err
+			}
 		}
 	}
 	for _, r := range t.Rows {
diff --git a/pkg/renderer/sgml/table.go b/pkg/renderer/sgml/table.go
index d121bd6..dee10b4 100644
--- a/pkg/renderer/sgml/table.go
+++ b/pkg/renderer/sgml/table.go
@@ -1,7 +1,6 @@
 package sgml
 
 import (
-	"fmt"
 	"strconv"
 	"strings"
 
@@ -160,7 +159,20 @@ func (r *sgmlRenderer) renderTableHeaderCell(ctx *context, c *types.TableCell, c
 			})
 		}
 	}
-	return "", fmt.Errorf("invalid header content (expected a single paragraph)")
+	// otherwise (AsciiDoc cell), same as in the body of the table
+	content, err := r.renderTableCellElements(ctx, c)
+	if err != nil {
+		return "", errors.Wrap(err, "unable to render header cell")
+	}
+	return r.execute(r.tableHeaderCell, struct {
+		HAlign  types.HAlign
+		VAlign  types.VAlign
+		Content string
+	}{
+		HAlign:  col.HAlign,
+		VAlign:  col.VAlign,
+		Content: content,
+	})
 }
 
 func (r *sgmlRenderer) renderTableFooter(ctx *context, f *types.TableRow, cols []*types.TableColumn) (string, error) {
-- 
2.43.0


From 276916a18647f548896064f659d8c222ed632d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:25 +0000
Subject: [PATCH 138/143] fix: check in constant time if the ID of a section is
 already used

---
 pkg/parser/document_processing_aggregate.go | 15 +++++++++++++--
 pkg/types/types.go                          |  7 ++++++-
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/pkg/parser/document_processing_aggregate.go b/pkg/parser/document_processing_aggregate.go
index 8e225bd..77bb0dc 100644
--- a/pkg/parser/document_processing_aggregate.go
+++ b/pkg/parser/document_processing_aggregate.go
@@ -1,6 +1,7 @@
 package parser
 
 import (
+	"strings"
 	"time"
 
 	"github.com/bytesparadise/libasciidoc/pkg/types"
@@ -26,6 +27,11 @@ func Aggregate(ctx *ParseContext, fragmentStream <-chan types.DocumentFragment)
 func aggregate(ctx *ParseContext, fragmentStream <-chan types.DocumentFragment) (*types.Document, error) {
 	attrs := ctx.attributes
 	refs := types.ElementReferences{}
+	ids := map[string]struct{}{} // in lower case, since this is how the IDs of the sections are rendered
+	exists := func(id string) bool {
+		_, found := ids[strings.ToLower(id)]
+		return found
+	}
 	doc := &types.Document{}
 	// TODO: update `toc.MaxDepth` when `AttrTableOfContentsLevels` is declared afterwards
 	toc := types.NewTableOfContents(attrs.getAsIntWithDefault(types.AttrTableOfContentsLevels, 2))
@@ -74,7 +80,7 @@ func aggregate(ctx *ParseContext, fragmentStream <-chan types.DocumentFragment)
 			case *types.BlankLine, *types.SinglelineComment:
 				// ignore
 			case *types.Section:
-				if err := e.ResolveID(attrs.allAttributes(), refs); err != nil {
+				if err := e.ResolveUniqueID(attrs.allAttributes(), exists); err != nil {
 					return nil, err
 				}
 				toc.Add(e)
@@ -87,7 +93,12 @@ func aggregate(ctx *ParseContext, fragmentStream <-chan types.DocumentFragment)
 			}
 			// also, check if the element has refs
 			if e, ok := element.(types.Referencable); ok {
-				e.Reference(refs)
+				elementRefs := types.ElementReferences{}
+				e.Reference(elementRefs)
+				for id, title := range elementRefs {
+					refs[id] = title
+					ids[strings.ToLower(id)] = struct{}{}
+				}
 			}
 		}
 		log.Debugf("time to aggregate fragment at %d: %d microseconds", f.Position.Start, time.Since(start).Microseconds())
diff --git a/pkg/types/types.go b/pkg/types/types.go
index c7368e8..fa8c943 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -2631,6 +2631,11 @@ func (s *Section) SetAttributes(attributes Attributes) {
 
 // ResolveID resolves/updates the "ID" attribute in the section (in case the title changed after some document attr substitution)
 func (s *Section) ResolveID(attrs Attributes, refs ElementReferences) error {
+	return s.ResolveUniqueID(attrs, refs.contains)
+}
+
+// ResolveUniqueID same as `ResolveID`, with a func which checks if an ID is already the one of another element
+func (s *Section) ResolveUniqueID(attrs Attributes, exists func(id string) bool) error {
 	base, err := s.resolveID(attrs)
 	if err != nil {
 		return err
@@ -2643,7 +2648,7 @@ func (s *Section) ResolveID(attrs Attributes, refs ElementReferences) error {
 			id = base + "_" + strconv.Itoa(i)
 			log.Debugf("updated section id to '%s' (to avoid duplicate refs)", s.Attributes[AttrID])
 		}
-		if !refs.contains(id) {
+		if !exists(id) {
 			s.Attributes[AttrID] = id
 			break
 		}
-- 
2.43.0


From 86803503f0351a1a9ae07c9d1b54227ec050e752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:55 +0000
Subject: [PATCH 139/143] fix: do not accumulate options for each block
 delimiter while preprocessing

---
 pkg/parser/document_preprocessing.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/parser/document_preprocessing.go b/pkg/parser/document_preprocessing.go
index 78753fd..7ce3195 100644
--- a/pkg/parser/document_preprocessing.go
+++ b/pkg/parser/document_preprocessing.go
@@ -41,6 +41,7 @@ func preprocessLines(ctx *ParseContext, source io.Reader) (*builder, error) {
 	c := conditions{}
 	scanner := newLineScanner(source)
 	t := newBlockDelimiterTracker()
+	opts := options(ctx.opts)
 	var err error
 	var declaration []string // the beginning of the declaration of an attribute on many lines
 	for scanner.Scan() {
@@ -96,7 +97,7 @@ func preprocessLines(ctx *ParseContext, source io.Reader) (*builder, error) {
 				if len(e.Attributes) == 0 || !t.withinVerbatimBlock() { // a Markdown code delimiter with a language is not an end delimiter
 					t.track(e.Kind, e.Length)
 				}
-				ctx.opts = append(ctx.opts, t.withinDelimitedBlock())
+				ctx.opts = append(opts.clone(), t.withinDelimitedBlock()) // replace the previous value
 				b.WriteString(e.RawText())
 			case types.ConditionalInclusion:
 				if content, ok := e.SingleLineContent(); ok {
-- 
2.43.0


From e517599a8fcb6fd3b78780d8d64764d5059b5aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:01 +0000
Subject: [PATCH 140/143] fix: do not merge again all the inline elements after
 each group of them

---
 pkg/types/types_utils.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/types/types_utils.go b/pkg/types/types_utils.go
index 6970325..df0cc85 100644
--- a/pkg/types/types_utils.go
+++ b/pkg/types/types_utils.go
@@ -32,7 +32,13 @@ func merge(elements ...interface{}) []interface{} {
 					})
 					buf = &strings.Builder{}
 				}
-				result = merge(append(result, f...)...)
+				// only the last element may be merged with the new ones
+				last := len(result)
+				if last > 0 {
+					last--
+				}
+				f = append(append(make([]interface{}, 0, len(f)+1), result[last:]...), f...)
+				result = append(result[:last], merge(f...)...)
 			}
 		default:
 			// log.Debugf("Merging with 'default' case an element of type %[1]T", element)
-- 
2.43.0


From 2e5fedb992729b694ee2c9b688b3ad83d113518a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:05:14 +0000
Subject: [PATCH 141/143] fix: do not parse quoted texts whose end delimiter is
 missing (exponential time)

---
 pkg/parser/parser.go  | 10366 +++++++++++++++++++++-------------------
 pkg/parser/parser.peg |    25 +-
 2 files changed, 5456 insertions(+), 4935 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index f3d558e..b1247cc 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 359, col: 49, offset: 10879},
 													expr: &actionExpr{
-														pos: position{line: 2888, col: 10, offset: 91535},
+														pos: position{line: 2903, col: 10, offset: 92601},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2888, col: 10, offset: 91535},
+															pos:        position{line: 2903, col: 10, offset: 92601},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2910, col: 8, offset: 91933},
+													pos: position{line: 2925, col: 8, offset: 92999},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2897, col: 12, offset: 91706},
+															pos: position{line: 2912, col: 12, offset: 92772},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2897, col: 13, offset: 91707},
+																pos: position{line: 2912, col: 13, offset: 92773},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2897, col: 13, offset: 91707},
+																		pos:        position{line: 2912, col: 13, offset: 92773},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2897, col: 20, offset: 91714},
+																		pos:        position{line: 2912, col: 20, offset: 92780},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2897, col: 29, offset: 91723},
+																		pos:        position{line: 2912, col: 29, offset: 92789},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2907, col: 8, offset: 91883},
+															pos: position{line: 2922, col: 8, offset: 92949},
 															expr: &anyMatcher{
-																line: 2907, col: 9, offset: 91884,
+																line: 2922, col: 9, offset: 92950,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 361, col: 39, offset: 11000},
 													expr: &actionExpr{
-														pos: position{line: 2888, col: 10, offset: 91535},
+														pos: position{line: 2903, col: 10, offset: 92601},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2888, col: 10, offset: 91535},
+															pos:        position{line: 2903, col: 10, offset: 92601},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2910, col: 8, offset: 91933},
+													pos: position{line: 2925, col: 8, offset: 92999},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2897, col: 12, offset: 91706},
+															pos: position{line: 2912, col: 12, offset: 92772},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2897, col: 13, offset: 91707},
+																pos: position{line: 2912, col: 13, offset: 92773},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2897, col: 13, offset: 91707},
+																		pos:        position{line: 2912, col: 13, offset: 92773},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2897, col: 20, offset: 91714},
+																		pos:        position{line: 2912, col: 20, offset: 92780},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2897, col: 29, offset: 91723},
+																		pos:        position{line: 2912, col: 29, offset: 92789},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2907, col: 8, offset: 91883},
+															pos: position{line: 2922, col: 8, offset: 92949},
 															expr: &anyMatcher{
-																line: 2907, col: 9, offset: 91884,
+																line: 2922, col: 9, offset: 92950,
 															},
 														},
 													},
@@ -321,10 +321,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 78, col: 41, offset: 2149},
 																						expr: &actionExpr{
-																							pos: position{line: 2888, col: 10, offset: 91535},
+																							pos: position{line: 2903, col: 10, offset: 92601},
 																							run: (*parser).callonDocumentRawLine66,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2888, col: 10, offset: 91535},
+																								pos:        position{line: 2903, col: 10, offset: 92601},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -333,9 +333,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2907, col: 8, offset: 91883},
+																						pos: position{line: 2922, col: 8, offset: 92949},
 																						expr: &anyMatcher{
-																							line: 2907, col: 9, offset: 91884,
+																							line: 2922, col: 9, offset: 92950,
 																						},
 																					},
 																				},
@@ -363,10 +363,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2888, col: 10, offset: 91535},
+														pos: position{line: 2903, col: 10, offset: 92601},
 														run: (*parser).callonDocumentRawLine73,
 														expr: &charClassMatcher{
-															pos:        position{line: 2888, col: 10, offset: 91535},
+															pos:        position{line: 2903, col: 10, offset: 92601},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -375,9 +375,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2907, col: 8, offset: 91883},
+													pos: position{line: 2922, col: 8, offset: 92949},
 													expr: &anyMatcher{
-														line: 2907, col: 9, offset: 91884,
+														line: 2922, col: 9, offset: 92950,
 													},
 												},
 											},
@@ -446,10 +446,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 78, col: 41, offset: 2149},
 																						expr: &actionExpr{
-																							pos: position{line: 2888, col: 10, offset: 91535},
+																							pos: position{line: 2903, col: 10, offset: 92601},
 																							run: (*parser).callonDocumentRawLine94,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2888, col: 10, offset: 91535},
+																								pos:        position{line: 2903, col: 10, offset: 92601},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -458,9 +458,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2907, col: 8, offset: 91883},
+																						pos: position{line: 2922, col: 8, offset: 92949},
 																						expr: &anyMatcher{
-																							line: 2907, col: 9, offset: 91884,
+																							line: 2922, col: 9, offset: 92950,
 																						},
 																					},
 																				},
@@ -488,10 +488,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2888, col: 10, offset: 91535},
+														pos: position{line: 2903, col: 10, offset: 92601},
 														run: (*parser).callonDocumentRawLine101,
 														expr: &charClassMatcher{
-															pos:        position{line: 2888, col: 10, offset: 91535},
+															pos:        position{line: 2903, col: 10, offset: 92601},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -500,9 +500,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2907, col: 8, offset: 91883},
+													pos: position{line: 2922, col: 8, offset: 92949},
 													expr: &anyMatcher{
-														line: 2907, col: 9, offset: 91884,
+														line: 2922, col: 9, offset: 92950,
 													},
 												},
 											},
@@ -972,24 +972,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2884, col: 10, offset: 91438},
+																pos: position{line: 2899, col: 10, offset: 92504},
 																run: (*parser).callonDocumentRawLine197,
 																expr: &seqExpr{
-																	pos: position{line: 2884, col: 11, offset: 91439},
+																	pos: position{line: 2899, col: 11, offset: 92505},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2884, col: 11, offset: 91439},
+																			pos: position{line: 2899, col: 11, offset: 92505},
 																			expr: &litMatcher{
-																				pos:        position{line: 2884, col: 11, offset: 91439},
+																				pos:        position{line: 2899, col: 11, offset: 92505},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2884, col: 16, offset: 91444},
+																			pos: position{line: 2899, col: 16, offset: 92510},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2884, col: 16, offset: 91444},
+																				pos:        position{line: 2899, col: 16, offset: 92510},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -997,15 +997,15 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2884, col: 23, offset: 91451},
+																			pos:        position{line: 2899, col: 23, offset: 92517},
 																			val:        ".",
 																			ignoreCase: false,
 																			want:       "\".\"",
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2884, col: 27, offset: 91455},
+																			pos: position{line: 2899, col: 27, offset: 92521},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2884, col: 27, offset: 91455},
+																				pos:        position{line: 2899, col: 27, offset: 92521},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1016,24 +1016,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2880, col: 12, offset: 91362},
+																pos: position{line: 2895, col: 12, offset: 92428},
 																run: (*parser).callonDocumentRawLine206,
 																expr: &seqExpr{
-																	pos: position{line: 2880, col: 13, offset: 91363},
+																	pos: position{line: 2895, col: 13, offset: 92429},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2880, col: 13, offset: 91363},
+																			pos: position{line: 2895, col: 13, offset: 92429},
 																			expr: &litMatcher{
-																				pos:        position{line: 2880, col: 13, offset: 91363},
+																				pos:        position{line: 2895, col: 13, offset: 92429},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2880, col: 18, offset: 91368},
+																			pos: position{line: 2895, col: 18, offset: 92434},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2880, col: 18, offset: 91368},
+																				pos:        position{line: 2895, col: 18, offset: 92434},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1049,10 +1049,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2280},
 													expr: &actionExpr{
-														pos: position{line: 2888, col: 10, offset: 91535},
+														pos: position{line: 2903, col: 10, offset: 92601},
 														run: (*parser).callonDocumentRawLine213,
 														expr: &charClassMatcher{
-															pos:        position{line: 2888, col: 10, offset: 91535},
+															pos:        position{line: 2903, col: 10, offset: 92601},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1132,10 +1132,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2326},
 													expr: &actionExpr{
-														pos: position{line: 2888, col: 10, offset: 91535},
+														pos: position{line: 2903, col: 10, offset: 92601},
 														run: (*parser).callonDocumentRawLine230,
 														expr: &charClassMatcher{
-															pos:        position{line: 2888, col: 10, offset: 91535},
+															pos:        position{line: 2903, col: 10, offset: 92601},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1595,24 +1595,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2884, col: 10, offset: 91438},
+																pos: position{line: 2899, col: 10, offset: 92504},
 																run: (*parser).callonDocumentRawLine321,
 																expr: &seqExpr{
-																	pos: position{line: 2884, col: 11, offset: 91439},
+																	pos: position{line: 2899, col: 11, offset: 92505},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2884, col: 11, offset: 91439},
+																			pos: position{line: 2899, col: 11, offset: 92505},
 																			expr: &litMatcher{
-																				pos:        position{line: 2884, col: 11, offset: 91439},
+																				pos:        position{line: 2899, col: 11, offset: 92505},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2884, col: 16, offset: 91444},
+																			pos: position{line: 2899, col: 16, offset: 92510},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2884, col: 16, offset: 91444},
+																				pos:        position{line: 2899, col: 16, offset: 92510},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1620,15 +1620,15 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2884, col: 23, offset: 91451},
+																			pos:        position{line: 2899, col: 23, offset: 92517},
 																			val:        ".",
 																			ignoreCase: false,
 																			want:       "\".\"",
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2884, col: 27, offset: 91455},
+																			pos: position{line: 2899, col: 27, offset: 92521},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2884, col: 27, offset: 91455},
+																				pos:        position{line: 2899, col: 27, offset: 92521},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1639,24 +1639,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2880, col: 12, offset: 91362},
+																pos: position{line: 2895, col: 12, offset: 92428},
 																run: (*parser).callonDocumentRawLine330,
 																expr: &seqExpr{
-																	pos: position{line: 2880, col: 13, offset: 91363},
+																	pos: position{line: 2895, col: 13, offset: 92429},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2880, col: 13, offset: 91363},
+																			pos: position{line: 2895, col: 13, offset: 92429},
 																			expr: &litMatcher{
-																				pos:        position{line: 2880, col: 13, offset: 91363},
+																				pos:        position{line: 2895, col: 13, offset: 92429},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2880, col: 18, offset: 91368},
+																			pos: position{line: 2895, col: 18, offset: 92434},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2880, col: 18, offset: 91368},
+																				pos:        position{line: 2895, col: 18, offset: 92434},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1678,10 +1678,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2378},
 													expr: &actionExpr{
-														pos: position{line: 2888, col: 10, offset: 91535},
+														pos: position{line: 2903, col: 10, offset: 92601},
 														run: (*parser).callonDocumentRawLine338,
 														expr: &charClassMatcher{
-															pos:        position{line: 2888, col: 10, offset: 91535},
+															pos:        position{line: 2903, col: 10, offset: 92601},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1690,9 +1690,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2907, col: 8, offset: 91883},
+													pos: position{line: 2922, col: 8, offset: 92949},
 													expr: &anyMatcher{
-														line: 2907, col: 9, offset: 91884,
+														line: 2922, col: 9, offset: 92950,
 													},
 												},
 											},
@@ -1764,10 +1764,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 78, col: 41, offset: 2149},
 																						expr: &actionExpr{
-																							pos: position{line: 2888, col: 10, offset: 91535},
+																							pos: position{line: 2903, col: 10, offset: 92601},
 																							run: (*parser).callonDocumentRawLine360,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2888, col: 10, offset: 91535},
+																								pos:        position{line: 2903, col: 10, offset: 92601},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -1776,9 +1776,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2907, col: 8, offset: 91883},
+																						pos: position{line: 2922, col: 8, offset: 92949},
 																						expr: &anyMatcher{
-																							line: 2907, col: 9, offset: 91884,
+																							line: 2922, col: 9, offset: 92950,
 																						},
 																					},
 																				},
@@ -1806,10 +1806,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3474},
 													expr: &actionExpr{
-														pos: position{line: 2888, col: 10, offset: 91535},
+														pos: position{line: 2903, col: 10, offset: 92601},
 														run: (*parser).callonDocumentRawLine367,
 														expr: &charClassMatcher{
-															pos:        position{line: 2888, col: 10, offset: 91535},
+															pos:        position{line: 2903, col: 10, offset: 92601},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1818,9 +1818,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2907, col: 8, offset: 91883},
+													pos: position{line: 2922, col: 8, offset: 92949},
 													expr: &anyMatcher{
-														line: 2907, col: 9, offset: 91884,
+														line: 2922, col: 9, offset: 92950,
 													},
 												},
 											},
@@ -1835,7 +1835,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 725, col: 5, offset: 23101},
 													expr: &charClassMatcher{
-														pos:        position{line: 2771, col: 13, offset: 88416},
+														pos:        position{line: 2786, col: 13, offset: 89482},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1885,10 +1885,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 743, col: 8, offset: 23745},
 																			expr: &actionExpr{
-																				pos: position{line: 2888, col: 10, offset: 91535},
+																				pos: position{line: 2903, col: 10, offset: 92601},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2888, col: 10, offset: 91535},
+																					pos:        position{line: 2903, col: 10, offset: 92601},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1897,28 +1897,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2910, col: 8, offset: 91933},
+																			pos: position{line: 2925, col: 8, offset: 92999},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2897, col: 12, offset: 91706},
+																					pos: position{line: 2912, col: 12, offset: 92772},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2897, col: 13, offset: 91707},
+																						pos: position{line: 2912, col: 13, offset: 92773},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2897, col: 13, offset: 91707},
+																								pos:        position{line: 2912, col: 13, offset: 92773},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2897, col: 20, offset: 91714},
+																								pos:        position{line: 2912, col: 20, offset: 92780},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2897, col: 29, offset: 91723},
+																								pos:        position{line: 2912, col: 29, offset: 92789},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1927,9 +1927,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2907, col: 8, offset: 91883},
+																					pos: position{line: 2922, col: 8, offset: 92949},
 																					expr: &anyMatcher{
-																						line: 2907, col: 9, offset: 91884,
+																						line: 2922, col: 9, offset: 92950,
 																					},
 																				},
 																			},
@@ -1974,10 +1974,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 750, col: 8, offset: 23993},
 																			expr: &actionExpr{
-																				pos: position{line: 2888, col: 10, offset: 91535},
+																				pos: position{line: 2903, col: 10, offset: 92601},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2888, col: 10, offset: 91535},
+																					pos:        position{line: 2903, col: 10, offset: 92601},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1986,28 +1986,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2910, col: 8, offset: 91933},
+																			pos: position{line: 2925, col: 8, offset: 92999},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2897, col: 12, offset: 91706},
+																					pos: position{line: 2912, col: 12, offset: 92772},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2897, col: 13, offset: 91707},
+																						pos: position{line: 2912, col: 13, offset: 92773},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2897, col: 13, offset: 91707},
+																								pos:        position{line: 2912, col: 13, offset: 92773},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2897, col: 20, offset: 91714},
+																								pos:        position{line: 2912, col: 20, offset: 92780},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2897, col: 29, offset: 91723},
+																								pos:        position{line: 2912, col: 29, offset: 92789},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2016,9 +2016,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2907, col: 8, offset: 91883},
+																					pos: position{line: 2922, col: 8, offset: 92949},
 																					expr: &anyMatcher{
-																						line: 2907, col: 9, offset: 91884,
+																						line: 2922, col: 9, offset: 92950,
 																					},
 																				},
 																			},
@@ -2059,10 +2059,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 761, col: 52, offset: 24405},
 																			expr: &actionExpr{
-																				pos: position{line: 2888, col: 10, offset: 91535},
+																				pos: position{line: 2903, col: 10, offset: 92601},
 																				run: (*parser).callonDocumentRawLine423,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2888, col: 10, offset: 91535},
+																					pos:        position{line: 2903, col: 10, offset: 92601},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2071,28 +2071,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2910, col: 8, offset: 91933},
+																			pos: position{line: 2925, col: 8, offset: 92999},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2897, col: 12, offset: 91706},
+																					pos: position{line: 2912, col: 12, offset: 92772},
 																					run: (*parser).callonDocumentRawLine426,
 																					expr: &choiceExpr{
-																						pos: position{line: 2897, col: 13, offset: 91707},
+																						pos: position{line: 2912, col: 13, offset: 92773},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2897, col: 13, offset: 91707},
+																								pos:        position{line: 2912, col: 13, offset: 92773},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2897, col: 20, offset: 91714},
+																								pos:        position{line: 2912, col: 20, offset: 92780},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2897, col: 29, offset: 91723},
+																								pos:        position{line: 2912, col: 29, offset: 92789},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2101,9 +2101,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2907, col: 8, offset: 91883},
+																					pos: position{line: 2922, col: 8, offset: 92949},
 																					expr: &anyMatcher{
-																						line: 2907, col: 9, offset: 91884,
+																						line: 2922, col: 9, offset: 92950,
 																					},
 																				},
 																			},
@@ -2148,10 +2148,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 757, col: 8, offset: 24239},
 																			expr: &actionExpr{
-																				pos: position{line: 2888, col: 10, offset: 91535},
+																				pos: position{line: 2903, col: 10, offset: 92601},
 																				run: (*parser).callonDocumentRawLine442,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2888, col: 10, offset: 91535},
+																					pos:        position{line: 2903, col: 10, offset: 92601},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2160,28 +2160,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2910, col: 8, offset: 91933},
+																			pos: position{line: 2925, col: 8, offset: 92999},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2897, col: 12, offset: 91706},
+																					pos: position{line: 2912, col: 12, offset: 92772},
 																					run: (*parser).callonDocumentRawLine445,
 																					expr: &choiceExpr{
-																						pos: position{line: 2897, col: 13, offset: 91707},
+																						pos: position{line: 2912, col: 13, offset: 92773},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2897, col: 13, offset: 91707},
+																								pos:        position{line: 2912, col: 13, offset: 92773},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2897, col: 20, offset: 91714},
+																								pos:        position{line: 2912, col: 20, offset: 92780},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2897, col: 29, offset: 91723},
+																								pos:        position{line: 2912, col: 29, offset: 92789},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2190,9 +2190,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2907, col: 8, offset: 91883},
+																					pos: position{line: 2922, col: 8, offset: 92949},
 																					expr: &anyMatcher{
-																						line: 2907, col: 9, offset: 91884,
+																						line: 2922, col: 9, offset: 92950,
 																					},
 																				},
 																			},
@@ -2237,10 +2237,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 772, col: 8, offset: 24782},
 																			expr: &actionExpr{
-																				pos: position{line: 2888, col: 10, offset: 91535},
+																				pos: position{line: 2903, col: 10, offset: 92601},
 																				run: (*parser).callonDocumentRawLine461,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2888, col: 10, offset: 91535},
+																					pos:        position{line: 2903, col: 10, offset: 92601},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2249,28 +2249,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2910, col: 8, offset: 91933},
+																			pos: position{line: 2925, col: 8, offset: 92999},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2897, col: 12, offset: 91706},
+																					pos: position{line: 2912, col: 12, offset: 92772},
 																					run: (*parser).callonDocumentRawLine464,
 																					expr: &choiceExpr{
-																						pos: position{line: 2897, col: 13, offset: 91707},
+																						pos: position{line: 2912, col: 13, offset: 92773},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2897, col: 13, offset: 91707},
+																								pos:        position{line: 2912, col: 13, offset: 92773},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2897, col: 20, offset: 91714},
+																								pos:        position{line: 2912, col: 20, offset: 92780},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2897, col: 29, offset: 91723},
+																								pos:        position{line: 2912, col: 29, offset: 92789},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2279,9 +2279,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2907, col: 8, offset: 91883},
+																					pos: position{line: 2922, col: 8, offset: 92949},
 																					expr: &anyMatcher{
-																						line: 2907, col: 9, offset: 91884,
+																						line: 2922, col: 9, offset: 92950,
 																					},
 																				},
 																			},
@@ -2326,10 +2326,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 786, col: 8, offset: 25258},
 																			expr: &actionExpr{
-																				pos: position{line: 2888, col: 10, offset: 91535},
+																				pos: position{line: 2903, col: 10, offset: 92601},
 																				run: (*parser).callonDocumentRawLine480,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2888, col: 10, offset: 91535},
+																					pos:        position{line: 2903, col: 10, offset: 92601},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2338,28 +2338,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2910, col: 8, offset: 91933},
+																			pos: position{line: 2925, col: 8, offset: 92999},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2897, col: 12, offset: 91706},
+																					pos: position{line: 2912, col: 12, offset: 92772},
 																					run: (*parser).callonDocumentRawLine483,
 																					expr: &choiceExpr{
-																						pos: position{line: 2897, col: 13, offset: 91707},
+																						pos: position{line: 2912, col: 13, offset: 92773},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2897, col: 13, offset: 91707},
+																								pos:        position{line: 2912, col: 13, offset: 92773},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2897, col: 20, offset: 91714},
+																								pos:        position{line: 2912, col: 20, offset: 92780},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2897, col: 29, offset: 91723},
+																								pos:        position{line: 2912, col: 29, offset: 92789},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2368,9 +2368,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2907, col: 8, offset: 91883},
+																					pos: position{line: 2922, col: 8, offset: 92949},
 																					expr: &anyMatcher{
-																						line: 2907, col: 9, offset: 91884,
+																						line: 2922, col: 9, offset: 92950,
 																					},
 																				},
 																			},
@@ -2415,10 +2415,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 793, col: 8, offset: 25510},
 																			expr: &actionExpr{
-																				pos: position{line: 2888, col: 10, offset: 91535},
+																				pos: position{line: 2903, col: 10, offset: 92601},
 																				run: (*parser).callonDocumentRawLine499,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2888, col: 10, offset: 91535},
+																					pos:        position{line: 2903, col: 10, offset: 92601},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2427,28 +2427,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2910, col: 8, offset: 91933},
+																			pos: position{line: 2925, col: 8, offset: 92999},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2897, col: 12, offset: 91706},
+																					pos: position{line: 2912, col: 12, offset: 92772},
 																					run: (*parser).callonDocumentRawLine502,
 																					expr: &choiceExpr{
-																						pos: position{line: 2897, col: 13, offset: 91707},
+																						pos: position{line: 2912, col: 13, offset: 92773},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2897, col: 13, offset: 91707},
+																								pos:        position{line: 2912, col: 13, offset: 92773},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2897, col: 20, offset: 91714},
+																								pos:        position{line: 2912, col: 20, offset: 92780},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2897, col: 29, offset: 91723},
+																								pos:        position{line: 2912, col: 29, offset: 92789},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2457,9 +2457,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2907, col: 8, offset: 91883},
+																					pos: position{line: 2922, col: 8, offset: 92949},
 																					expr: &anyMatcher{
-																						line: 2907, col: 9, offset: 91884,
+																						line: 2922, col: 9, offset: 92950,
 																					},
 																				},
 																			},
@@ -2504,10 +2504,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 800, col: 8, offset: 25760},
 																			expr: &actionExpr{
-																				pos: position{line: 2888, col: 10, offset: 91535},
+																				pos: position{line: 2903, col: 10, offset: 92601},
 																				run: (*parser).callonDocumentRawLine518,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2888, col: 10, offset: 91535},
+																					pos:        position{line: 2903, col: 10, offset: 92601},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2516,28 +2516,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2910, col: 8, offset: 91933},
+																			pos: position{line: 2925, col: 8, offset: 92999},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2897, col: 12, offset: 91706},
+																					pos: position{line: 2912, col: 12, offset: 92772},
 																					run: (*parser).callonDocumentRawLine521,
 																					expr: &choiceExpr{
-																						pos: position{line: 2897, col: 13, offset: 91707},
+																						pos: position{line: 2912, col: 13, offset: 92773},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2897, col: 13, offset: 91707},
+																								pos:        position{line: 2912, col: 13, offset: 92773},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2897, col: 20, offset: 91714},
+																								pos:        position{line: 2912, col: 20, offset: 92780},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2897, col: 29, offset: 91723},
+																								pos:        position{line: 2912, col: 29, offset: 92789},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2546,9 +2546,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2907, col: 8, offset: 91883},
+																					pos: position{line: 2922, col: 8, offset: 92949},
 																					expr: &anyMatcher{
-																						line: 2907, col: 9, offset: 91884,
+																						line: 2922, col: 9, offset: 92950,
 																					},
 																				},
 																			},
@@ -2593,10 +2593,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 807, col: 8, offset: 26006},
 																			expr: &actionExpr{
-																				pos: position{line: 2888, col: 10, offset: 91535},
+																				pos: position{line: 2903, col: 10, offset: 92601},
 																				run: (*parser).callonDocumentRawLine537,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2888, col: 10, offset: 91535},
+																					pos:        position{line: 2903, col: 10, offset: 92601},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2605,28 +2605,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2910, col: 8, offset: 91933},
+																			pos: position{line: 2925, col: 8, offset: 92999},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2897, col: 12, offset: 91706},
+																					pos: position{line: 2912, col: 12, offset: 92772},
 																					run: (*parser).callonDocumentRawLine540,
 																					expr: &choiceExpr{
-																						pos: position{line: 2897, col: 13, offset: 91707},
+																						pos: position{line: 2912, col: 13, offset: 92773},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2897, col: 13, offset: 91707},
+																								pos:        position{line: 2912, col: 13, offset: 92773},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2897, col: 20, offset: 91714},
+																								pos:        position{line: 2912, col: 20, offset: 92780},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2897, col: 29, offset: 91723},
+																								pos:        position{line: 2912, col: 29, offset: 92789},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2635,9 +2635,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2907, col: 8, offset: 91883},
+																					pos: position{line: 2922, col: 8, offset: 92949},
 																					expr: &anyMatcher{
-																						line: 2907, col: 9, offset: 91884,
+																						line: 2922, col: 9, offset: 92950,
 																					},
 																				},
 																			},
@@ -2687,12 +2687,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine555,
 												},
 												&actionExpr{
-													pos: position{line: 2892, col: 11, offset: 91596},
+													pos: position{line: 2907, col: 11, offset: 92662},
 													run: (*parser).callonDocumentRawLine556,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2892, col: 11, offset: 91596},
+														pos: position{line: 2907, col: 11, offset: 92662},
 														expr: &charClassMatcher{
-															pos:        position{line: 2892, col: 11, offset: 91596},
+															pos:        position{line: 2907, col: 11, offset: 92662},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2701,12 +2701,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2838, col: 14, offset: 90128},
+													pos: position{line: 2853, col: 14, offset: 91194},
 													run: (*parser).callonDocumentRawLine559,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2838, col: 14, offset: 90128},
+														pos: position{line: 2853, col: 14, offset: 91194},
 														expr: &charClassMatcher{
-															pos:        position{line: 2838, col: 14, offset: 90128},
+															pos:        position{line: 2853, col: 14, offset: 91194},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2715,9 +2715,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2907, col: 8, offset: 91883},
+													pos: position{line: 2922, col: 8, offset: 92949},
 													expr: &anyMatcher{
-														line: 2907, col: 9, offset: 91884,
+														line: 2922, col: 9, offset: 92950,
 													},
 												},
 											},
@@ -2727,9 +2727,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2907, col: 8, offset: 91883},
+							pos: position{line: 2922, col: 8, offset: 92949},
 							expr: &anyMatcher{
-								line: 2907, col: 9, offset: 91884,
+								line: 2922, col: 9, offset: 92950,
 							},
 						},
 					},
@@ -2764,41 +2764,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2842, col: 17, offset: 90198},
+												pos: position{line: 2857, col: 17, offset: 91264},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2842, col: 17, offset: 90198},
+													pos:   position{line: 2857, col: 17, offset: 91264},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2859, col: 5, offset: 90652},
+														pos: position{line: 2874, col: 5, offset: 91718},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2859, col: 5, offset: 90652},
+															pos:   position{line: 2874, col: 5, offset: 91718},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2859, col: 14, offset: 90661},
+																pos: position{line: 2874, col: 14, offset: 91727},
 																expr: &choiceExpr{
-																	pos: position{line: 2860, col: 9, offset: 90671},
+																	pos: position{line: 2875, col: 9, offset: 91737},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2860, col: 9, offset: 90671},
+																			pos: position{line: 2875, col: 9, offset: 91737},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2860, col: 9, offset: 90671},
+																				pos: position{line: 2875, col: 9, offset: 91737},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2860, col: 9, offset: 90671},
+																						pos: position{line: 2875, col: 9, offset: 91737},
 																						expr: &litMatcher{
-																							pos:        position{line: 2860, col: 10, offset: 90672},
+																							pos:        position{line: 2875, col: 10, offset: 91738},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2861, col: 9, offset: 90700},
+																						pos: position{line: 2876, col: 9, offset: 91766},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2861, col: 10, offset: 90701},
+																							pos:        position{line: 2876, col: 10, offset: 91767},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2809,27 +2809,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2864, col: 11, offset: 90913},
+																			pos: position{line: 2879, col: 11, offset: 91979},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2864, col: 11, offset: 90913},
+																					pos:        position{line: 2879, col: 11, offset: 91979},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2864, col: 19, offset: 90921},
+																					pos: position{line: 2879, col: 19, offset: 91987},
 																					expr: &seqExpr{
-																						pos: position{line: 2864, col: 21, offset: 90923},
+																						pos: position{line: 2879, col: 21, offset: 91989},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2864, col: 21, offset: 90923},
+																								pos: position{line: 2879, col: 21, offset: 91989},
 																								expr: &actionExpr{
-																									pos: position{line: 2888, col: 10, offset: 91535},
+																									pos: position{line: 2903, col: 10, offset: 92601},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2888, col: 10, offset: 91535},
+																										pos:        position{line: 2903, col: 10, offset: 92601},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2838,11 +2838,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2864, col: 28, offset: 90930},
+																								pos: position{line: 2879, col: 28, offset: 91996},
 																								expr: &notExpr{
-																									pos: position{line: 2907, col: 8, offset: 91883},
+																									pos: position{line: 2922, col: 8, offset: 92949},
 																									expr: &anyMatcher{
-																										line: 2907, col: 9, offset: 91884,
+																										line: 2922, col: 9, offset: 92950,
 																									},
 																								},
 																							},
@@ -3241,10 +3241,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2867, col: 11, offset: 91050},
+																			pos: position{line: 2882, col: 11, offset: 92116},
 																			run: (*parser).callonFileInclusion108,
 																			expr: &litMatcher{
-																				pos:        position{line: 2867, col: 11, offset: 91050},
+																				pos:        position{line: 2882, col: 11, offset: 92116},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3273,10 +3273,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2888, col: 10, offset: 91535},
+								pos: position{line: 2903, col: 10, offset: 92601},
 								run: (*parser).callonFileInclusion113,
 								expr: &charClassMatcher{
-									pos:        position{line: 2888, col: 10, offset: 91535},
+									pos:        position{line: 2903, col: 10, offset: 92601},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3285,28 +3285,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2910, col: 8, offset: 91933},
+							pos: position{line: 2925, col: 8, offset: 92999},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2897, col: 12, offset: 91706},
+									pos: position{line: 2912, col: 12, offset: 92772},
 									run: (*parser).callonFileInclusion116,
 									expr: &choiceExpr{
-										pos: position{line: 2897, col: 13, offset: 91707},
+										pos: position{line: 2912, col: 13, offset: 92773},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2897, col: 13, offset: 91707},
+												pos:        position{line: 2912, col: 13, offset: 92773},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2897, col: 20, offset: 91714},
+												pos:        position{line: 2912, col: 20, offset: 92780},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2897, col: 29, offset: 91723},
+												pos:        position{line: 2912, col: 29, offset: 92789},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3315,9 +3315,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2907, col: 8, offset: 91883},
+									pos: position{line: 2922, col: 8, offset: 92949},
 									expr: &anyMatcher{
-										line: 2907, col: 9, offset: 91884,
+										line: 2922, col: 9, offset: 92950,
 									},
 								},
 							},
@@ -3363,24 +3363,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2880, col: 12, offset: 91362},
+																				pos: position{line: 2895, col: 12, offset: 92428},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2880, col: 13, offset: 91363},
+																					pos: position{line: 2895, col: 13, offset: 92429},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2880, col: 13, offset: 91363},
+																							pos: position{line: 2895, col: 13, offset: 92429},
 																							expr: &litMatcher{
-																								pos:        position{line: 2880, col: 13, offset: 91363},
+																								pos:        position{line: 2895, col: 13, offset: 92429},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2880, col: 18, offset: 91368},
+																							pos: position{line: 2895, col: 18, offset: 92434},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2880, col: 18, offset: 91368},
+																								pos:        position{line: 2895, col: 18, offset: 92434},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3401,24 +3401,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2880, col: 12, offset: 91362},
+																				pos: position{line: 2895, col: 12, offset: 92428},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2880, col: 13, offset: 91363},
+																					pos: position{line: 2895, col: 13, offset: 92429},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2880, col: 13, offset: 91363},
+																							pos: position{line: 2895, col: 13, offset: 92429},
 																							expr: &litMatcher{
-																								pos:        position{line: 2880, col: 13, offset: 91363},
+																								pos:        position{line: 2895, col: 13, offset: 92429},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2880, col: 18, offset: 91368},
+																							pos: position{line: 2895, col: 18, offset: 92434},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2880, col: 18, offset: 91368},
+																								pos:        position{line: 2895, col: 18, offset: 92434},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3439,24 +3439,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2880, col: 12, offset: 91362},
+																		pos: position{line: 2895, col: 12, offset: 92428},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2880, col: 13, offset: 91363},
+																			pos: position{line: 2895, col: 13, offset: 92429},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2880, col: 13, offset: 91363},
+																					pos: position{line: 2895, col: 13, offset: 92429},
 																					expr: &litMatcher{
-																						pos:        position{line: 2880, col: 13, offset: 91363},
+																						pos:        position{line: 2895, col: 13, offset: 92429},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2880, col: 18, offset: 91368},
+																					pos: position{line: 2895, col: 18, offset: 92434},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2880, col: 18, offset: 91368},
+																						pos:        position{line: 2895, col: 18, offset: 92434},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3505,24 +3505,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2880, col: 12, offset: 91362},
+																									pos: position{line: 2895, col: 12, offset: 92428},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2880, col: 13, offset: 91363},
+																										pos: position{line: 2895, col: 13, offset: 92429},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2880, col: 13, offset: 91363},
+																												pos: position{line: 2895, col: 13, offset: 92429},
 																												expr: &litMatcher{
-																													pos:        position{line: 2880, col: 13, offset: 91363},
+																													pos:        position{line: 2895, col: 13, offset: 92429},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2880, col: 18, offset: 91368},
+																												pos: position{line: 2895, col: 18, offset: 92434},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2880, col: 18, offset: 91368},
+																													pos:        position{line: 2895, col: 18, offset: 92434},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3543,24 +3543,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2880, col: 12, offset: 91362},
+																									pos: position{line: 2895, col: 12, offset: 92428},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2880, col: 13, offset: 91363},
+																										pos: position{line: 2895, col: 13, offset: 92429},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2880, col: 13, offset: 91363},
+																												pos: position{line: 2895, col: 13, offset: 92429},
 																												expr: &litMatcher{
-																													pos:        position{line: 2880, col: 13, offset: 91363},
+																													pos:        position{line: 2895, col: 13, offset: 92429},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2880, col: 18, offset: 91368},
+																												pos: position{line: 2895, col: 18, offset: 92434},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2880, col: 18, offset: 91368},
+																													pos:        position{line: 2895, col: 18, offset: 92434},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3581,24 +3581,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2880, col: 12, offset: 91362},
+																							pos: position{line: 2895, col: 12, offset: 92428},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2880, col: 13, offset: 91363},
+																								pos: position{line: 2895, col: 13, offset: 92429},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2880, col: 13, offset: 91363},
+																										pos: position{line: 2895, col: 13, offset: 92429},
 																										expr: &litMatcher{
-																											pos:        position{line: 2880, col: 13, offset: 91363},
+																											pos:        position{line: 2895, col: 13, offset: 92429},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2880, col: 18, offset: 91368},
+																										pos: position{line: 2895, col: 18, offset: 92434},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2880, col: 18, offset: 91368},
+																											pos:        position{line: 2895, col: 18, offset: 92434},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3631,24 +3631,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2880, col: 12, offset: 91362},
+														pos: position{line: 2895, col: 12, offset: 92428},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2880, col: 13, offset: 91363},
+															pos: position{line: 2895, col: 13, offset: 92429},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2880, col: 13, offset: 91363},
+																	pos: position{line: 2895, col: 13, offset: 92429},
 																	expr: &litMatcher{
-																		pos:        position{line: 2880, col: 13, offset: 91363},
+																		pos:        position{line: 2895, col: 13, offset: 92429},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2880, col: 18, offset: 91368},
+																	pos: position{line: 2895, col: 18, offset: 92434},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2880, col: 18, offset: 91368},
+																		pos:        position{line: 2895, col: 18, offset: 92434},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3669,24 +3669,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2880, col: 12, offset: 91362},
+														pos: position{line: 2895, col: 12, offset: 92428},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2880, col: 13, offset: 91363},
+															pos: position{line: 2895, col: 13, offset: 92429},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2880, col: 13, offset: 91363},
+																	pos: position{line: 2895, col: 13, offset: 92429},
 																	expr: &litMatcher{
-																		pos:        position{line: 2880, col: 13, offset: 91363},
+																		pos:        position{line: 2895, col: 13, offset: 92429},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2880, col: 18, offset: 91368},
+																	pos: position{line: 2895, col: 18, offset: 92434},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2880, col: 18, offset: 91368},
+																		pos:        position{line: 2895, col: 18, offset: 92434},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3707,24 +3707,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2880, col: 12, offset: 91362},
+												pos: position{line: 2895, col: 12, offset: 92428},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2880, col: 13, offset: 91363},
+													pos: position{line: 2895, col: 13, offset: 92429},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2880, col: 13, offset: 91363},
+															pos: position{line: 2895, col: 13, offset: 92429},
 															expr: &litMatcher{
-																pos:        position{line: 2880, col: 13, offset: 91363},
+																pos:        position{line: 2895, col: 13, offset: 92429},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2880, col: 18, offset: 91368},
+															pos: position{line: 2895, col: 18, offset: 92434},
 															expr: &charClassMatcher{
-																pos:        position{line: 2880, col: 18, offset: 91368},
+																pos:        position{line: 2895, col: 18, offset: 92434},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3740,9 +3740,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2907, col: 8, offset: 91883},
+							pos: position{line: 2922, col: 8, offset: 92949},
 							expr: &anyMatcher{
-								line: 2907, col: 9, offset: 91884,
+								line: 2922, col: 9, offset: 92950,
 							},
 						},
 					},
@@ -4067,9 +4067,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2907, col: 8, offset: 91883},
+							pos: position{line: 2922, col: 8, offset: 92949},
 							expr: &anyMatcher{
-								line: 2907, col: 9, offset: 91884,
+								line: 2922, col: 9, offset: 92950,
 							},
 						},
 					},
@@ -4193,28 +4193,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2910, col: 8, offset: 91933},
+							pos: position{line: 2925, col: 8, offset: 92999},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2897, col: 12, offset: 91706},
+									pos: position{line: 2912, col: 12, offset: 92772},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2897, col: 13, offset: 91707},
+										pos: position{line: 2912, col: 13, offset: 92773},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2897, col: 13, offset: 91707},
+												pos:        position{line: 2912, col: 13, offset: 92773},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2897, col: 20, offset: 91714},
+												pos:        position{line: 2912, col: 20, offset: 92780},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2897, col: 29, offset: 91723},
+												pos:        position{line: 2912, col: 29, offset: 92789},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4223,9 +4223,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2907, col: 8, offset: 91883},
+									pos: position{line: 2922, col: 8, offset: 92949},
 									expr: &anyMatcher{
-										line: 2907, col: 9, offset: 91884,
+										line: 2922, col: 9, offset: 92950,
 									},
 								},
 							},
@@ -4244,9 +4244,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2905, col: 11, offset: 91869},
+							pos: position{line: 2920, col: 11, offset: 92935},
 							expr: &anyMatcher{
-								line: 2905, col: 13, offset: 91871,
+								line: 2920, col: 13, offset: 92937,
 							},
 						},
 						&labeledExpr{
@@ -4341,10 +4341,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 359, col: 49, offset: 10879},
 														expr: &actionExpr{
-															pos: position{line: 2888, col: 10, offset: 91535},
+															pos: position{line: 2903, col: 10, offset: 92601},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2888, col: 10, offset: 91535},
+																pos:        position{line: 2903, col: 10, offset: 92601},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4353,28 +4353,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2910, col: 8, offset: 91933},
+														pos: position{line: 2925, col: 8, offset: 92999},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2897, col: 12, offset: 91706},
+																pos: position{line: 2912, col: 12, offset: 92772},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2897, col: 13, offset: 91707},
+																	pos: position{line: 2912, col: 13, offset: 92773},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2897, col: 13, offset: 91707},
+																			pos:        position{line: 2912, col: 13, offset: 92773},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2897, col: 20, offset: 91714},
+																			pos:        position{line: 2912, col: 20, offset: 92780},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2897, col: 29, offset: 91723},
+																			pos:        position{line: 2912, col: 29, offset: 92789},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4383,9 +4383,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2907, col: 8, offset: 91883},
+																pos: position{line: 2922, col: 8, offset: 92949},
 																expr: &anyMatcher{
-																	line: 2907, col: 9, offset: 91884,
+																	line: 2922, col: 9, offset: 92950,
 																},
 															},
 														},
@@ -4446,10 +4446,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 361, col: 39, offset: 11000},
 														expr: &actionExpr{
-															pos: position{line: 2888, col: 10, offset: 91535},
+															pos: position{line: 2903, col: 10, offset: 92601},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2888, col: 10, offset: 91535},
+																pos:        position{line: 2903, col: 10, offset: 92601},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4458,28 +4458,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2910, col: 8, offset: 91933},
+														pos: position{line: 2925, col: 8, offset: 92999},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2897, col: 12, offset: 91706},
+																pos: position{line: 2912, col: 12, offset: 92772},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2897, col: 13, offset: 91707},
+																	pos: position{line: 2912, col: 13, offset: 92773},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2897, col: 13, offset: 91707},
+																			pos:        position{line: 2912, col: 13, offset: 92773},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2897, col: 20, offset: 91714},
+																			pos:        position{line: 2912, col: 20, offset: 92780},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2897, col: 29, offset: 91723},
+																			pos:        position{line: 2912, col: 29, offset: 92789},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4488,9 +4488,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2907, col: 8, offset: 91883},
+																pos: position{line: 2922, col: 8, offset: 92949},
 																expr: &anyMatcher{
-																	line: 2907, col: 9, offset: 91884,
+																	line: 2922, col: 9, offset: 92950,
 																},
 															},
 														},
@@ -4505,18 +4505,18 @@ var g = &grammar{
 												pos: position{line: 677, col: 14, offset: 21525},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2905, col: 11, offset: 91869},
+														pos: position{line: 2920, col: 11, offset: 92935},
 														expr: &anyMatcher{
-															line: 2905, col: 13, offset: 91871,
+															line: 2920, col: 13, offset: 92937,
 														},
 													},
 													&zeroOrMoreExpr{
 														pos: position{line: 677, col: 21, offset: 21532},
 														expr: &actionExpr{
-															pos: position{line: 2888, col: 10, offset: 91535},
+															pos: position{line: 2903, col: 10, offset: 92601},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2888, col: 10, offset: 91535},
+																pos:        position{line: 2903, col: 10, offset: 92601},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4525,28 +4525,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2910, col: 8, offset: 91933},
+														pos: position{line: 2925, col: 8, offset: 92999},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2897, col: 12, offset: 91706},
+																pos: position{line: 2912, col: 12, offset: 92772},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2897, col: 13, offset: 91707},
+																	pos: position{line: 2912, col: 13, offset: 92773},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2897, col: 13, offset: 91707},
+																			pos:        position{line: 2912, col: 13, offset: 92773},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2897, col: 20, offset: 91714},
+																			pos:        position{line: 2912, col: 20, offset: 92780},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2897, col: 29, offset: 91723},
+																			pos:        position{line: 2912, col: 29, offset: 92789},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4555,9 +4555,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2907, col: 8, offset: 91883},
+																pos: position{line: 2922, col: 8, offset: 92949},
 																expr: &anyMatcher{
-																	line: 2907, col: 9, offset: 91884,
+																	line: 2922, col: 9, offset: 92950,
 																},
 															},
 														},
@@ -4616,10 +4616,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 743, col: 8, offset: 23745},
 																	expr: &actionExpr{
-																		pos: position{line: 2888, col: 10, offset: 91535},
+																		pos: position{line: 2903, col: 10, offset: 92601},
 																		run: (*parser).callonDocumentFragment86,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2888, col: 10, offset: 91535},
+																			pos:        position{line: 2903, col: 10, offset: 92601},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -4628,28 +4628,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2910, col: 8, offset: 91933},
+																	pos: position{line: 2925, col: 8, offset: 92999},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2897, col: 12, offset: 91706},
+																			pos: position{line: 2912, col: 12, offset: 92772},
 																			run: (*parser).callonDocumentFragment89,
 																			expr: &choiceExpr{
-																				pos: position{line: 2897, col: 13, offset: 91707},
+																				pos: position{line: 2912, col: 13, offset: 92773},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 13, offset: 91707},
+																						pos:        position{line: 2912, col: 13, offset: 92773},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 20, offset: 91714},
+																						pos:        position{line: 2912, col: 20, offset: 92780},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 29, offset: 91723},
+																						pos:        position{line: 2912, col: 29, offset: 92789},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -4658,9 +4658,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2907, col: 8, offset: 91883},
+																			pos: position{line: 2922, col: 8, offset: 92949},
 																			expr: &anyMatcher{
-																				line: 2907, col: 9, offset: 91884,
+																				line: 2922, col: 9, offset: 92950,
 																			},
 																		},
 																	},
@@ -4721,10 +4721,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 743, col: 8, offset: 23745},
 																									expr: &actionExpr{
-																										pos: position{line: 2888, col: 10, offset: 91535},
+																										pos: position{line: 2903, col: 10, offset: 92601},
 																										run: (*parser).callonDocumentFragment111,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2888, col: 10, offset: 91535},
+																											pos:        position{line: 2903, col: 10, offset: 92601},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -4733,28 +4733,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2910, col: 8, offset: 91933},
+																									pos: position{line: 2925, col: 8, offset: 92999},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2897, col: 12, offset: 91706},
+																											pos: position{line: 2912, col: 12, offset: 92772},
 																											run: (*parser).callonDocumentFragment114,
 																											expr: &choiceExpr{
-																												pos: position{line: 2897, col: 13, offset: 91707},
+																												pos: position{line: 2912, col: 13, offset: 92773},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2897, col: 13, offset: 91707},
+																														pos:        position{line: 2912, col: 13, offset: 92773},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2897, col: 20, offset: 91714},
+																														pos:        position{line: 2912, col: 20, offset: 92780},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2897, col: 29, offset: 91723},
+																														pos:        position{line: 2912, col: 29, offset: 92789},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -4763,9 +4763,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2907, col: 8, offset: 91883},
+																											pos: position{line: 2922, col: 8, offset: 92949},
 																											expr: &anyMatcher{
-																												line: 2907, col: 9, offset: 91884,
+																												line: 2922, col: 9, offset: 92950,
 																											},
 																										},
 																									},
@@ -4774,9 +4774,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2907, col: 8, offset: 91883},
+																						pos: position{line: 2922, col: 8, offset: 92949},
 																						expr: &anyMatcher{
-																							line: 2907, col: 9, offset: 91884,
+																							line: 2922, col: 9, offset: 92950,
 																						},
 																					},
 																				},
@@ -4792,21 +4792,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2905, col: 11, offset: 91869},
+																							pos: position{line: 2920, col: 11, offset: 92935},
 																							expr: &anyMatcher{
-																								line: 2905, col: 13, offset: 91871,
+																								line: 2920, col: 13, offset: 92937,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2834, col: 13, offset: 90061},
+																								pos: position{line: 2849, col: 13, offset: 91127},
 																								run: (*parser).callonDocumentFragment129,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2834, col: 13, offset: 90061},
+																									pos: position{line: 2849, col: 13, offset: 91127},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2834, col: 13, offset: 90061},
+																										pos:        position{line: 2849, col: 13, offset: 91127},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4816,28 +4816,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2910, col: 8, offset: 91933},
+																							pos: position{line: 2925, col: 8, offset: 92999},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2897, col: 12, offset: 91706},
+																									pos: position{line: 2912, col: 12, offset: 92772},
 																									run: (*parser).callonDocumentFragment133,
 																									expr: &choiceExpr{
-																										pos: position{line: 2897, col: 13, offset: 91707},
+																										pos: position{line: 2912, col: 13, offset: 92773},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 13, offset: 91707},
+																												pos:        position{line: 2912, col: 13, offset: 92773},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 20, offset: 91714},
+																												pos:        position{line: 2912, col: 20, offset: 92780},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 29, offset: 91723},
+																												pos:        position{line: 2912, col: 29, offset: 92789},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4846,9 +4846,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2907, col: 8, offset: 91883},
+																									pos: position{line: 2922, col: 8, offset: 92949},
 																									expr: &anyMatcher{
-																										line: 2907, col: 9, offset: 91884,
+																										line: 2922, col: 9, offset: 92950,
 																									},
 																								},
 																							},
@@ -4904,10 +4904,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 743, col: 8, offset: 23745},
 																				expr: &actionExpr{
-																					pos: position{line: 2888, col: 10, offset: 91535},
+																					pos: position{line: 2903, col: 10, offset: 92601},
 																					run: (*parser).callonDocumentFragment151,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2888, col: 10, offset: 91535},
+																						pos:        position{line: 2903, col: 10, offset: 92601},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -4916,28 +4916,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2910, col: 8, offset: 91933},
+																				pos: position{line: 2925, col: 8, offset: 92999},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2897, col: 12, offset: 91706},
+																						pos: position{line: 2912, col: 12, offset: 92772},
 																						run: (*parser).callonDocumentFragment154,
 																						expr: &choiceExpr{
-																							pos: position{line: 2897, col: 13, offset: 91707},
+																							pos: position{line: 2912, col: 13, offset: 92773},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2897, col: 13, offset: 91707},
+																									pos:        position{line: 2912, col: 13, offset: 92773},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2897, col: 20, offset: 91714},
+																									pos:        position{line: 2912, col: 20, offset: 92780},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2897, col: 29, offset: 91723},
+																									pos:        position{line: 2912, col: 29, offset: 92789},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -4946,9 +4946,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2907, col: 8, offset: 91883},
+																						pos: position{line: 2922, col: 8, offset: 92949},
 																						expr: &anyMatcher{
-																							line: 2907, col: 9, offset: 91884,
+																							line: 2922, col: 9, offset: 92950,
 																						},
 																					},
 																				},
@@ -4957,9 +4957,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2907, col: 8, offset: 91883},
+																	pos: position{line: 2922, col: 8, offset: 92949},
 																	expr: &anyMatcher{
-																		line: 2907, col: 9, offset: 91884,
+																		line: 2922, col: 9, offset: 92950,
 																	},
 																},
 															},
@@ -5014,10 +5014,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 750, col: 8, offset: 23993},
 																		expr: &actionExpr{
-																			pos: position{line: 2888, col: 10, offset: 91535},
+																			pos: position{line: 2903, col: 10, offset: 92601},
 																			run: (*parser).callonDocumentFragment175,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2888, col: 10, offset: 91535},
+																				pos:        position{line: 2903, col: 10, offset: 92601},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5026,28 +5026,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2910, col: 8, offset: 91933},
+																		pos: position{line: 2925, col: 8, offset: 92999},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2897, col: 12, offset: 91706},
+																				pos: position{line: 2912, col: 12, offset: 92772},
 																				run: (*parser).callonDocumentFragment178,
 																				expr: &choiceExpr{
-																					pos: position{line: 2897, col: 13, offset: 91707},
+																					pos: position{line: 2912, col: 13, offset: 92773},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 13, offset: 91707},
+																							pos:        position{line: 2912, col: 13, offset: 92773},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 20, offset: 91714},
+																							pos:        position{line: 2912, col: 20, offset: 92780},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 29, offset: 91723},
+																							pos:        position{line: 2912, col: 29, offset: 92789},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5056,9 +5056,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2907, col: 8, offset: 91883},
+																				pos: position{line: 2922, col: 8, offset: 92949},
 																				expr: &anyMatcher{
-																					line: 2907, col: 9, offset: 91884,
+																					line: 2922, col: 9, offset: 92950,
 																				},
 																			},
 																		},
@@ -5130,10 +5130,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 750, col: 8, offset: 23993},
 																												expr: &actionExpr{
-																													pos: position{line: 2888, col: 10, offset: 91535},
+																													pos: position{line: 2903, col: 10, offset: 92601},
 																													run: (*parser).callonDocumentFragment203,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2888, col: 10, offset: 91535},
+																														pos:        position{line: 2903, col: 10, offset: 92601},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5142,28 +5142,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2910, col: 8, offset: 91933},
+																												pos: position{line: 2925, col: 8, offset: 92999},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2897, col: 12, offset: 91706},
+																														pos: position{line: 2912, col: 12, offset: 92772},
 																														run: (*parser).callonDocumentFragment206,
 																														expr: &choiceExpr{
-																															pos: position{line: 2897, col: 13, offset: 91707},
+																															pos: position{line: 2912, col: 13, offset: 92773},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2897, col: 13, offset: 91707},
+																																	pos:        position{line: 2912, col: 13, offset: 92773},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2897, col: 20, offset: 91714},
+																																	pos:        position{line: 2912, col: 20, offset: 92780},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2897, col: 29, offset: 91723},
+																																	pos:        position{line: 2912, col: 29, offset: 92789},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5172,9 +5172,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2907, col: 8, offset: 91883},
+																														pos: position{line: 2922, col: 8, offset: 92949},
 																														expr: &anyMatcher{
-																															line: 2907, col: 9, offset: 91884,
+																															line: 2922, col: 9, offset: 92950,
 																														},
 																													},
 																												},
@@ -5190,9 +5190,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2907, col: 8, offset: 91883},
+																						pos: position{line: 2922, col: 8, offset: 92949},
 																						expr: &anyMatcher{
-																							line: 2907, col: 9, offset: 91884,
+																							line: 2922, col: 9, offset: 92950,
 																						},
 																					},
 																				},
@@ -5208,21 +5208,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2905, col: 11, offset: 91869},
+																							pos: position{line: 2920, col: 11, offset: 92935},
 																							expr: &anyMatcher{
-																								line: 2905, col: 13, offset: 91871,
+																								line: 2920, col: 13, offset: 92937,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2834, col: 13, offset: 90061},
+																								pos: position{line: 2849, col: 13, offset: 91127},
 																								run: (*parser).callonDocumentFragment222,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2834, col: 13, offset: 90061},
+																									pos: position{line: 2849, col: 13, offset: 91127},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2834, col: 13, offset: 90061},
+																										pos:        position{line: 2849, col: 13, offset: 91127},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5232,28 +5232,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2910, col: 8, offset: 91933},
+																							pos: position{line: 2925, col: 8, offset: 92999},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2897, col: 12, offset: 91706},
+																									pos: position{line: 2912, col: 12, offset: 92772},
 																									run: (*parser).callonDocumentFragment226,
 																									expr: &choiceExpr{
-																										pos: position{line: 2897, col: 13, offset: 91707},
+																										pos: position{line: 2912, col: 13, offset: 92773},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 13, offset: 91707},
+																												pos:        position{line: 2912, col: 13, offset: 92773},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 20, offset: 91714},
+																												pos:        position{line: 2912, col: 20, offset: 92780},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 29, offset: 91723},
+																												pos:        position{line: 2912, col: 29, offset: 92789},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5262,9 +5262,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2907, col: 8, offset: 91883},
+																									pos: position{line: 2922, col: 8, offset: 92949},
 																									expr: &anyMatcher{
-																										line: 2907, col: 9, offset: 91884,
+																										line: 2922, col: 9, offset: 92950,
 																									},
 																								},
 																							},
@@ -5329,10 +5329,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 750, col: 8, offset: 23993},
 																								expr: &actionExpr{
-																									pos: position{line: 2888, col: 10, offset: 91535},
+																									pos: position{line: 2903, col: 10, offset: 92601},
 																									run: (*parser).callonDocumentFragment247,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2888, col: 10, offset: 91535},
+																										pos:        position{line: 2903, col: 10, offset: 92601},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5341,28 +5341,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2910, col: 8, offset: 91933},
+																								pos: position{line: 2925, col: 8, offset: 92999},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2897, col: 12, offset: 91706},
+																										pos: position{line: 2912, col: 12, offset: 92772},
 																										run: (*parser).callonDocumentFragment250,
 																										expr: &choiceExpr{
-																											pos: position{line: 2897, col: 13, offset: 91707},
+																											pos: position{line: 2912, col: 13, offset: 92773},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2897, col: 13, offset: 91707},
+																													pos:        position{line: 2912, col: 13, offset: 92773},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2897, col: 20, offset: 91714},
+																													pos:        position{line: 2912, col: 20, offset: 92780},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2897, col: 29, offset: 91723},
+																													pos:        position{line: 2912, col: 29, offset: 92789},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5371,9 +5371,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2907, col: 8, offset: 91883},
+																										pos: position{line: 2922, col: 8, offset: 92949},
 																										expr: &anyMatcher{
-																											line: 2907, col: 9, offset: 91884,
+																											line: 2922, col: 9, offset: 92950,
 																										},
 																									},
 																								},
@@ -5389,9 +5389,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2907, col: 8, offset: 91883},
+																		pos: position{line: 2922, col: 8, offset: 92949},
 																		expr: &anyMatcher{
-																			line: 2907, col: 9, offset: 91884,
+																			line: 2922, col: 9, offset: 92950,
 																		},
 																	},
 																},
@@ -5443,10 +5443,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 761, col: 52, offset: 24405},
 																		expr: &actionExpr{
-																			pos: position{line: 2888, col: 10, offset: 91535},
+																			pos: position{line: 2903, col: 10, offset: 92601},
 																			run: (*parser).callonDocumentFragment271,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2888, col: 10, offset: 91535},
+																				pos:        position{line: 2903, col: 10, offset: 92601},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5455,28 +5455,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2910, col: 8, offset: 91933},
+																		pos: position{line: 2925, col: 8, offset: 92999},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2897, col: 12, offset: 91706},
+																				pos: position{line: 2912, col: 12, offset: 92772},
 																				run: (*parser).callonDocumentFragment274,
 																				expr: &choiceExpr{
-																					pos: position{line: 2897, col: 13, offset: 91707},
+																					pos: position{line: 2912, col: 13, offset: 92773},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 13, offset: 91707},
+																							pos:        position{line: 2912, col: 13, offset: 92773},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 20, offset: 91714},
+																							pos:        position{line: 2912, col: 20, offset: 92780},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 29, offset: 91723},
+																							pos:        position{line: 2912, col: 29, offset: 92789},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5485,9 +5485,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2907, col: 8, offset: 91883},
+																				pos: position{line: 2922, col: 8, offset: 92949},
 																				expr: &anyMatcher{
-																					line: 2907, col: 9, offset: 91884,
+																					line: 2922, col: 9, offset: 92950,
 																				},
 																			},
 																		},
@@ -5521,10 +5521,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 964, col: 40, offset: 30213},
 																						expr: &actionExpr{
-																							pos: position{line: 2888, col: 10, offset: 91535},
+																							pos: position{line: 2903, col: 10, offset: 92601},
 																							run: (*parser).callonDocumentFragment289,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2888, col: 10, offset: 91535},
+																								pos:        position{line: 2903, col: 10, offset: 92601},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5533,28 +5533,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2910, col: 8, offset: 91933},
+																						pos: position{line: 2925, col: 8, offset: 92999},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2897, col: 12, offset: 91706},
+																								pos: position{line: 2912, col: 12, offset: 92772},
 																								run: (*parser).callonDocumentFragment292,
 																								expr: &choiceExpr{
-																									pos: position{line: 2897, col: 13, offset: 91707},
+																									pos: position{line: 2912, col: 13, offset: 92773},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 13, offset: 91707},
+																											pos:        position{line: 2912, col: 13, offset: 92773},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 20, offset: 91714},
+																											pos:        position{line: 2912, col: 20, offset: 92780},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 29, offset: 91723},
+																											pos:        position{line: 2912, col: 29, offset: 92789},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5563,9 +5563,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2907, col: 8, offset: 91883},
+																								pos: position{line: 2922, col: 8, offset: 92949},
 																								expr: &anyMatcher{
-																									line: 2907, col: 9, offset: 91884,
+																									line: 2922, col: 9, offset: 92950,
 																								},
 																							},
 																						},
@@ -5583,21 +5583,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2905, col: 11, offset: 91869},
+																							pos: position{line: 2920, col: 11, offset: 92935},
 																							expr: &anyMatcher{
-																								line: 2905, col: 13, offset: 91871,
+																								line: 2920, col: 13, offset: 92937,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2834, col: 13, offset: 90061},
+																								pos: position{line: 2849, col: 13, offset: 91127},
 																								run: (*parser).callonDocumentFragment305,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2834, col: 13, offset: 90061},
+																									pos: position{line: 2849, col: 13, offset: 91127},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2834, col: 13, offset: 90061},
+																										pos:        position{line: 2849, col: 13, offset: 91127},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5607,28 +5607,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2910, col: 8, offset: 91933},
+																							pos: position{line: 2925, col: 8, offset: 92999},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2897, col: 12, offset: 91706},
+																									pos: position{line: 2912, col: 12, offset: 92772},
 																									run: (*parser).callonDocumentFragment309,
 																									expr: &choiceExpr{
-																										pos: position{line: 2897, col: 13, offset: 91707},
+																										pos: position{line: 2912, col: 13, offset: 92773},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 13, offset: 91707},
+																												pos:        position{line: 2912, col: 13, offset: 92773},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 20, offset: 91714},
+																												pos:        position{line: 2912, col: 20, offset: 92780},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 29, offset: 91723},
+																												pos:        position{line: 2912, col: 29, offset: 92789},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5637,9 +5637,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2907, col: 8, offset: 91883},
+																									pos: position{line: 2922, col: 8, offset: 92949},
 																									expr: &anyMatcher{
-																										line: 2907, col: 9, offset: 91884,
+																										line: 2922, col: 9, offset: 92950,
 																									},
 																								},
 																							},
@@ -5667,10 +5667,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 964, col: 40, offset: 30213},
 																	expr: &actionExpr{
-																		pos: position{line: 2888, col: 10, offset: 91535},
+																		pos: position{line: 2903, col: 10, offset: 92601},
 																		run: (*parser).callonDocumentFragment320,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2888, col: 10, offset: 91535},
+																			pos:        position{line: 2903, col: 10, offset: 92601},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5679,28 +5679,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2910, col: 8, offset: 91933},
+																	pos: position{line: 2925, col: 8, offset: 92999},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2897, col: 12, offset: 91706},
+																			pos: position{line: 2912, col: 12, offset: 92772},
 																			run: (*parser).callonDocumentFragment323,
 																			expr: &choiceExpr{
-																				pos: position{line: 2897, col: 13, offset: 91707},
+																				pos: position{line: 2912, col: 13, offset: 92773},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 13, offset: 91707},
+																						pos:        position{line: 2912, col: 13, offset: 92773},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 20, offset: 91714},
+																						pos:        position{line: 2912, col: 20, offset: 92780},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 29, offset: 91723},
+																						pos:        position{line: 2912, col: 29, offset: 92789},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5709,9 +5709,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2907, col: 8, offset: 91883},
+																			pos: position{line: 2922, col: 8, offset: 92949},
 																			expr: &anyMatcher{
-																				line: 2907, col: 9, offset: 91884,
+																				line: 2922, col: 9, offset: 92950,
 																			},
 																		},
 																	},
@@ -5768,10 +5768,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 757, col: 8, offset: 24239},
 																		expr: &actionExpr{
-																			pos: position{line: 2888, col: 10, offset: 91535},
+																			pos: position{line: 2903, col: 10, offset: 92601},
 																			run: (*parser).callonDocumentFragment342,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2888, col: 10, offset: 91535},
+																				pos:        position{line: 2903, col: 10, offset: 92601},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5780,28 +5780,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2910, col: 8, offset: 91933},
+																		pos: position{line: 2925, col: 8, offset: 92999},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2897, col: 12, offset: 91706},
+																				pos: position{line: 2912, col: 12, offset: 92772},
 																				run: (*parser).callonDocumentFragment345,
 																				expr: &choiceExpr{
-																					pos: position{line: 2897, col: 13, offset: 91707},
+																					pos: position{line: 2912, col: 13, offset: 92773},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 13, offset: 91707},
+																							pos:        position{line: 2912, col: 13, offset: 92773},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 20, offset: 91714},
+																							pos:        position{line: 2912, col: 20, offset: 92780},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 29, offset: 91723},
+																							pos:        position{line: 2912, col: 29, offset: 92789},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5810,9 +5810,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2907, col: 8, offset: 91883},
+																				pos: position{line: 2922, col: 8, offset: 92949},
 																				expr: &anyMatcher{
-																					line: 2907, col: 9, offset: 91884,
+																					line: 2922, col: 9, offset: 92950,
 																				},
 																			},
 																		},
@@ -5884,10 +5884,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 757, col: 8, offset: 24239},
 																												expr: &actionExpr{
-																													pos: position{line: 2888, col: 10, offset: 91535},
+																													pos: position{line: 2903, col: 10, offset: 92601},
 																													run: (*parser).callonDocumentFragment370,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2888, col: 10, offset: 91535},
+																														pos:        position{line: 2903, col: 10, offset: 92601},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5896,28 +5896,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2910, col: 8, offset: 91933},
+																												pos: position{line: 2925, col: 8, offset: 92999},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2897, col: 12, offset: 91706},
+																														pos: position{line: 2912, col: 12, offset: 92772},
 																														run: (*parser).callonDocumentFragment373,
 																														expr: &choiceExpr{
-																															pos: position{line: 2897, col: 13, offset: 91707},
+																															pos: position{line: 2912, col: 13, offset: 92773},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2897, col: 13, offset: 91707},
+																																	pos:        position{line: 2912, col: 13, offset: 92773},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2897, col: 20, offset: 91714},
+																																	pos:        position{line: 2912, col: 20, offset: 92780},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2897, col: 29, offset: 91723},
+																																	pos:        position{line: 2912, col: 29, offset: 92789},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5926,9 +5926,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2907, col: 8, offset: 91883},
+																														pos: position{line: 2922, col: 8, offset: 92949},
 																														expr: &anyMatcher{
-																															line: 2907, col: 9, offset: 91884,
+																															line: 2922, col: 9, offset: 92950,
 																														},
 																													},
 																												},
@@ -5944,9 +5944,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2907, col: 8, offset: 91883},
+																						pos: position{line: 2922, col: 8, offset: 92949},
 																						expr: &anyMatcher{
-																							line: 2907, col: 9, offset: 91884,
+																							line: 2922, col: 9, offset: 92950,
 																						},
 																					},
 																				},
@@ -5962,21 +5962,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2905, col: 11, offset: 91869},
+																							pos: position{line: 2920, col: 11, offset: 92935},
 																							expr: &anyMatcher{
-																								line: 2905, col: 13, offset: 91871,
+																								line: 2920, col: 13, offset: 92937,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2834, col: 13, offset: 90061},
+																								pos: position{line: 2849, col: 13, offset: 91127},
 																								run: (*parser).callonDocumentFragment389,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2834, col: 13, offset: 90061},
+																									pos: position{line: 2849, col: 13, offset: 91127},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2834, col: 13, offset: 90061},
+																										pos:        position{line: 2849, col: 13, offset: 91127},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5986,28 +5986,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2910, col: 8, offset: 91933},
+																							pos: position{line: 2925, col: 8, offset: 92999},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2897, col: 12, offset: 91706},
+																									pos: position{line: 2912, col: 12, offset: 92772},
 																									run: (*parser).callonDocumentFragment393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2897, col: 13, offset: 91707},
+																										pos: position{line: 2912, col: 13, offset: 92773},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 13, offset: 91707},
+																												pos:        position{line: 2912, col: 13, offset: 92773},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 20, offset: 91714},
+																												pos:        position{line: 2912, col: 20, offset: 92780},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 29, offset: 91723},
+																												pos:        position{line: 2912, col: 29, offset: 92789},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6016,9 +6016,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2907, col: 8, offset: 91883},
+																									pos: position{line: 2922, col: 8, offset: 92949},
 																									expr: &anyMatcher{
-																										line: 2907, col: 9, offset: 91884,
+																										line: 2922, col: 9, offset: 92950,
 																									},
 																								},
 																							},
@@ -6083,10 +6083,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 757, col: 8, offset: 24239},
 																								expr: &actionExpr{
-																									pos: position{line: 2888, col: 10, offset: 91535},
+																									pos: position{line: 2903, col: 10, offset: 92601},
 																									run: (*parser).callonDocumentFragment414,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2888, col: 10, offset: 91535},
+																										pos:        position{line: 2903, col: 10, offset: 92601},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6095,28 +6095,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2910, col: 8, offset: 91933},
+																								pos: position{line: 2925, col: 8, offset: 92999},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2897, col: 12, offset: 91706},
+																										pos: position{line: 2912, col: 12, offset: 92772},
 																										run: (*parser).callonDocumentFragment417,
 																										expr: &choiceExpr{
-																											pos: position{line: 2897, col: 13, offset: 91707},
+																											pos: position{line: 2912, col: 13, offset: 92773},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2897, col: 13, offset: 91707},
+																													pos:        position{line: 2912, col: 13, offset: 92773},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2897, col: 20, offset: 91714},
+																													pos:        position{line: 2912, col: 20, offset: 92780},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2897, col: 29, offset: 91723},
+																													pos:        position{line: 2912, col: 29, offset: 92789},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6125,9 +6125,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2907, col: 8, offset: 91883},
+																										pos: position{line: 2922, col: 8, offset: 92949},
 																										expr: &anyMatcher{
-																											line: 2907, col: 9, offset: 91884,
+																											line: 2922, col: 9, offset: 92950,
 																										},
 																									},
 																								},
@@ -6143,9 +6143,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2907, col: 8, offset: 91883},
+																		pos: position{line: 2922, col: 8, offset: 92949},
 																		expr: &anyMatcher{
-																			line: 2907, col: 9, offset: 91884,
+																			line: 2922, col: 9, offset: 92950,
 																		},
 																	},
 																},
@@ -6201,10 +6201,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 772, col: 8, offset: 24782},
 																		expr: &actionExpr{
-																			pos: position{line: 2888, col: 10, offset: 91535},
+																			pos: position{line: 2903, col: 10, offset: 92601},
 																			run: (*parser).callonDocumentFragment439,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2888, col: 10, offset: 91535},
+																				pos:        position{line: 2903, col: 10, offset: 92601},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6213,28 +6213,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2910, col: 8, offset: 91933},
+																		pos: position{line: 2925, col: 8, offset: 92999},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2897, col: 12, offset: 91706},
+																				pos: position{line: 2912, col: 12, offset: 92772},
 																				run: (*parser).callonDocumentFragment442,
 																				expr: &choiceExpr{
-																					pos: position{line: 2897, col: 13, offset: 91707},
+																					pos: position{line: 2912, col: 13, offset: 92773},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 13, offset: 91707},
+																							pos:        position{line: 2912, col: 13, offset: 92773},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 20, offset: 91714},
+																							pos:        position{line: 2912, col: 20, offset: 92780},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 29, offset: 91723},
+																							pos:        position{line: 2912, col: 29, offset: 92789},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6243,9 +6243,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2907, col: 8, offset: 91883},
+																				pos: position{line: 2922, col: 8, offset: 92949},
 																				expr: &anyMatcher{
-																					line: 2907, col: 9, offset: 91884,
+																					line: 2922, col: 9, offset: 92950,
 																				},
 																			},
 																		},
@@ -6317,10 +6317,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 772, col: 8, offset: 24782},
 																												expr: &actionExpr{
-																													pos: position{line: 2888, col: 10, offset: 91535},
+																													pos: position{line: 2903, col: 10, offset: 92601},
 																													run: (*parser).callonDocumentFragment467,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2888, col: 10, offset: 91535},
+																														pos:        position{line: 2903, col: 10, offset: 92601},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6329,28 +6329,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2910, col: 8, offset: 91933},
+																												pos: position{line: 2925, col: 8, offset: 92999},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2897, col: 12, offset: 91706},
+																														pos: position{line: 2912, col: 12, offset: 92772},
 																														run: (*parser).callonDocumentFragment470,
 																														expr: &choiceExpr{
-																															pos: position{line: 2897, col: 13, offset: 91707},
+																															pos: position{line: 2912, col: 13, offset: 92773},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2897, col: 13, offset: 91707},
+																																	pos:        position{line: 2912, col: 13, offset: 92773},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2897, col: 20, offset: 91714},
+																																	pos:        position{line: 2912, col: 20, offset: 92780},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2897, col: 29, offset: 91723},
+																																	pos:        position{line: 2912, col: 29, offset: 92789},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6359,9 +6359,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2907, col: 8, offset: 91883},
+																														pos: position{line: 2922, col: 8, offset: 92949},
 																														expr: &anyMatcher{
-																															line: 2907, col: 9, offset: 91884,
+																															line: 2922, col: 9, offset: 92950,
 																														},
 																													},
 																												},
@@ -6377,9 +6377,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2907, col: 8, offset: 91883},
+																						pos: position{line: 2922, col: 8, offset: 92949},
 																						expr: &anyMatcher{
-																							line: 2907, col: 9, offset: 91884,
+																							line: 2922, col: 9, offset: 92950,
 																						},
 																					},
 																				},
@@ -6395,21 +6395,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2905, col: 11, offset: 91869},
+																							pos: position{line: 2920, col: 11, offset: 92935},
 																							expr: &anyMatcher{
-																								line: 2905, col: 13, offset: 91871,
+																								line: 2920, col: 13, offset: 92937,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2834, col: 13, offset: 90061},
+																								pos: position{line: 2849, col: 13, offset: 91127},
 																								run: (*parser).callonDocumentFragment486,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2834, col: 13, offset: 90061},
+																									pos: position{line: 2849, col: 13, offset: 91127},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2834, col: 13, offset: 90061},
+																										pos:        position{line: 2849, col: 13, offset: 91127},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6419,28 +6419,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2910, col: 8, offset: 91933},
+																							pos: position{line: 2925, col: 8, offset: 92999},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2897, col: 12, offset: 91706},
+																									pos: position{line: 2912, col: 12, offset: 92772},
 																									run: (*parser).callonDocumentFragment490,
 																									expr: &choiceExpr{
-																										pos: position{line: 2897, col: 13, offset: 91707},
+																										pos: position{line: 2912, col: 13, offset: 92773},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 13, offset: 91707},
+																												pos:        position{line: 2912, col: 13, offset: 92773},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 20, offset: 91714},
+																												pos:        position{line: 2912, col: 20, offset: 92780},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 29, offset: 91723},
+																												pos:        position{line: 2912, col: 29, offset: 92789},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6449,9 +6449,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2907, col: 8, offset: 91883},
+																									pos: position{line: 2922, col: 8, offset: 92949},
 																									expr: &anyMatcher{
-																										line: 2907, col: 9, offset: 91884,
+																										line: 2922, col: 9, offset: 92950,
 																									},
 																								},
 																							},
@@ -6516,10 +6516,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 772, col: 8, offset: 24782},
 																								expr: &actionExpr{
-																									pos: position{line: 2888, col: 10, offset: 91535},
+																									pos: position{line: 2903, col: 10, offset: 92601},
 																									run: (*parser).callonDocumentFragment511,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2888, col: 10, offset: 91535},
+																										pos:        position{line: 2903, col: 10, offset: 92601},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6528,28 +6528,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2910, col: 8, offset: 91933},
+																								pos: position{line: 2925, col: 8, offset: 92999},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2897, col: 12, offset: 91706},
+																										pos: position{line: 2912, col: 12, offset: 92772},
 																										run: (*parser).callonDocumentFragment514,
 																										expr: &choiceExpr{
-																											pos: position{line: 2897, col: 13, offset: 91707},
+																											pos: position{line: 2912, col: 13, offset: 92773},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2897, col: 13, offset: 91707},
+																													pos:        position{line: 2912, col: 13, offset: 92773},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2897, col: 20, offset: 91714},
+																													pos:        position{line: 2912, col: 20, offset: 92780},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2897, col: 29, offset: 91723},
+																													pos:        position{line: 2912, col: 29, offset: 92789},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6558,9 +6558,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2907, col: 8, offset: 91883},
+																										pos: position{line: 2922, col: 8, offset: 92949},
 																										expr: &anyMatcher{
-																											line: 2907, col: 9, offset: 91884,
+																											line: 2922, col: 9, offset: 92950,
 																										},
 																									},
 																								},
@@ -6576,9 +6576,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2907, col: 8, offset: 91883},
+																		pos: position{line: 2922, col: 8, offset: 92949},
 																		expr: &anyMatcher{
-																			line: 2907, col: 9, offset: 91884,
+																			line: 2922, col: 9, offset: 92950,
 																		},
 																	},
 																},
@@ -6634,10 +6634,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 786, col: 8, offset: 25258},
 																		expr: &actionExpr{
-																			pos: position{line: 2888, col: 10, offset: 91535},
+																			pos: position{line: 2903, col: 10, offset: 92601},
 																			run: (*parser).callonDocumentFragment536,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2888, col: 10, offset: 91535},
+																				pos:        position{line: 2903, col: 10, offset: 92601},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6646,28 +6646,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2910, col: 8, offset: 91933},
+																		pos: position{line: 2925, col: 8, offset: 92999},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2897, col: 12, offset: 91706},
+																				pos: position{line: 2912, col: 12, offset: 92772},
 																				run: (*parser).callonDocumentFragment539,
 																				expr: &choiceExpr{
-																					pos: position{line: 2897, col: 13, offset: 91707},
+																					pos: position{line: 2912, col: 13, offset: 92773},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 13, offset: 91707},
+																							pos:        position{line: 2912, col: 13, offset: 92773},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 20, offset: 91714},
+																							pos:        position{line: 2912, col: 20, offset: 92780},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 29, offset: 91723},
+																							pos:        position{line: 2912, col: 29, offset: 92789},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6676,9 +6676,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2907, col: 8, offset: 91883},
+																				pos: position{line: 2922, col: 8, offset: 92949},
 																				expr: &anyMatcher{
-																					line: 2907, col: 9, offset: 91884,
+																					line: 2922, col: 9, offset: 92950,
 																				},
 																			},
 																		},
@@ -6750,10 +6750,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 786, col: 8, offset: 25258},
 																												expr: &actionExpr{
-																													pos: position{line: 2888, col: 10, offset: 91535},
+																													pos: position{line: 2903, col: 10, offset: 92601},
 																													run: (*parser).callonDocumentFragment564,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2888, col: 10, offset: 91535},
+																														pos:        position{line: 2903, col: 10, offset: 92601},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6762,28 +6762,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2910, col: 8, offset: 91933},
+																												pos: position{line: 2925, col: 8, offset: 92999},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2897, col: 12, offset: 91706},
+																														pos: position{line: 2912, col: 12, offset: 92772},
 																														run: (*parser).callonDocumentFragment567,
 																														expr: &choiceExpr{
-																															pos: position{line: 2897, col: 13, offset: 91707},
+																															pos: position{line: 2912, col: 13, offset: 92773},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2897, col: 13, offset: 91707},
+																																	pos:        position{line: 2912, col: 13, offset: 92773},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2897, col: 20, offset: 91714},
+																																	pos:        position{line: 2912, col: 20, offset: 92780},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2897, col: 29, offset: 91723},
+																																	pos:        position{line: 2912, col: 29, offset: 92789},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6792,9 +6792,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2907, col: 8, offset: 91883},
+																														pos: position{line: 2922, col: 8, offset: 92949},
 																														expr: &anyMatcher{
-																															line: 2907, col: 9, offset: 91884,
+																															line: 2922, col: 9, offset: 92950,
 																														},
 																													},
 																												},
@@ -6810,9 +6810,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2907, col: 8, offset: 91883},
+																						pos: position{line: 2922, col: 8, offset: 92949},
 																						expr: &anyMatcher{
-																							line: 2907, col: 9, offset: 91884,
+																							line: 2922, col: 9, offset: 92950,
 																						},
 																					},
 																				},
@@ -6828,21 +6828,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2905, col: 11, offset: 91869},
+																							pos: position{line: 2920, col: 11, offset: 92935},
 																							expr: &anyMatcher{
-																								line: 2905, col: 13, offset: 91871,
+																								line: 2920, col: 13, offset: 92937,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2834, col: 13, offset: 90061},
+																								pos: position{line: 2849, col: 13, offset: 91127},
 																								run: (*parser).callonDocumentFragment583,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2834, col: 13, offset: 90061},
+																									pos: position{line: 2849, col: 13, offset: 91127},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2834, col: 13, offset: 90061},
+																										pos:        position{line: 2849, col: 13, offset: 91127},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6852,28 +6852,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2910, col: 8, offset: 91933},
+																							pos: position{line: 2925, col: 8, offset: 92999},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2897, col: 12, offset: 91706},
+																									pos: position{line: 2912, col: 12, offset: 92772},
 																									run: (*parser).callonDocumentFragment587,
 																									expr: &choiceExpr{
-																										pos: position{line: 2897, col: 13, offset: 91707},
+																										pos: position{line: 2912, col: 13, offset: 92773},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 13, offset: 91707},
+																												pos:        position{line: 2912, col: 13, offset: 92773},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 20, offset: 91714},
+																												pos:        position{line: 2912, col: 20, offset: 92780},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 29, offset: 91723},
+																												pos:        position{line: 2912, col: 29, offset: 92789},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6882,9 +6882,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2907, col: 8, offset: 91883},
+																									pos: position{line: 2922, col: 8, offset: 92949},
 																									expr: &anyMatcher{
-																										line: 2907, col: 9, offset: 91884,
+																										line: 2922, col: 9, offset: 92950,
 																									},
 																								},
 																							},
@@ -6949,10 +6949,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 786, col: 8, offset: 25258},
 																								expr: &actionExpr{
-																									pos: position{line: 2888, col: 10, offset: 91535},
+																									pos: position{line: 2903, col: 10, offset: 92601},
 																									run: (*parser).callonDocumentFragment608,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2888, col: 10, offset: 91535},
+																										pos:        position{line: 2903, col: 10, offset: 92601},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6961,28 +6961,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2910, col: 8, offset: 91933},
+																								pos: position{line: 2925, col: 8, offset: 92999},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2897, col: 12, offset: 91706},
+																										pos: position{line: 2912, col: 12, offset: 92772},
 																										run: (*parser).callonDocumentFragment611,
 																										expr: &choiceExpr{
-																											pos: position{line: 2897, col: 13, offset: 91707},
+																											pos: position{line: 2912, col: 13, offset: 92773},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2897, col: 13, offset: 91707},
+																													pos:        position{line: 2912, col: 13, offset: 92773},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2897, col: 20, offset: 91714},
+																													pos:        position{line: 2912, col: 20, offset: 92780},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2897, col: 29, offset: 91723},
+																													pos:        position{line: 2912, col: 29, offset: 92789},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6991,9 +6991,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2907, col: 8, offset: 91883},
+																										pos: position{line: 2922, col: 8, offset: 92949},
 																										expr: &anyMatcher{
-																											line: 2907, col: 9, offset: 91884,
+																											line: 2922, col: 9, offset: 92950,
 																										},
 																									},
 																								},
@@ -7009,9 +7009,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2907, col: 8, offset: 91883},
+																		pos: position{line: 2922, col: 8, offset: 92949},
 																		expr: &anyMatcher{
-																			line: 2907, col: 9, offset: 91884,
+																			line: 2922, col: 9, offset: 92950,
 																		},
 																	},
 																},
@@ -7045,18 +7045,18 @@ var g = &grammar{
 																				pos: position{line: 677, col: 14, offset: 21525},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2905, col: 11, offset: 91869},
+																						pos: position{line: 2920, col: 11, offset: 92935},
 																						expr: &anyMatcher{
-																							line: 2905, col: 13, offset: 91871,
+																							line: 2920, col: 13, offset: 92937,
 																						},
 																					},
 																					&zeroOrMoreExpr{
 																						pos: position{line: 677, col: 21, offset: 21532},
 																						expr: &actionExpr{
-																							pos: position{line: 2888, col: 10, offset: 91535},
+																							pos: position{line: 2903, col: 10, offset: 92601},
 																							run: (*parser).callonDocumentFragment632,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2888, col: 10, offset: 91535},
+																								pos:        position{line: 2903, col: 10, offset: 92601},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -7065,28 +7065,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2910, col: 8, offset: 91933},
+																						pos: position{line: 2925, col: 8, offset: 92999},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2897, col: 12, offset: 91706},
+																								pos: position{line: 2912, col: 12, offset: 92772},
 																								run: (*parser).callonDocumentFragment635,
 																								expr: &choiceExpr{
-																									pos: position{line: 2897, col: 13, offset: 91707},
+																									pos: position{line: 2912, col: 13, offset: 92773},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 13, offset: 91707},
+																											pos:        position{line: 2912, col: 13, offset: 92773},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 20, offset: 91714},
+																											pos:        position{line: 2912, col: 20, offset: 92780},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 29, offset: 91723},
+																											pos:        position{line: 2912, col: 29, offset: 92789},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -7095,9 +7095,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2907, col: 8, offset: 91883},
+																								pos: position{line: 2922, col: 8, offset: 92949},
 																								expr: &anyMatcher{
-																									line: 2907, col: 9, offset: 91884,
+																									line: 2922, col: 9, offset: 92950,
 																								},
 																							},
 																						},
@@ -7116,12 +7116,12 @@ var g = &grammar{
 																		pos:   position{line: 985, col: 5, offset: 30748},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2838, col: 14, offset: 90128},
+																			pos: position{line: 2853, col: 14, offset: 91194},
 																			run: (*parser).callonDocumentFragment644,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2838, col: 14, offset: 90128},
+																				pos: position{line: 2853, col: 14, offset: 91194},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2838, col: 14, offset: 90128},
+																					pos:        position{line: 2853, col: 14, offset: 91194},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -7131,28 +7131,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2910, col: 8, offset: 91933},
+																		pos: position{line: 2925, col: 8, offset: 92999},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2897, col: 12, offset: 91706},
+																				pos: position{line: 2912, col: 12, offset: 92772},
 																				run: (*parser).callonDocumentFragment648,
 																				expr: &choiceExpr{
-																					pos: position{line: 2897, col: 13, offset: 91707},
+																					pos: position{line: 2912, col: 13, offset: 92773},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 13, offset: 91707},
+																							pos:        position{line: 2912, col: 13, offset: 92773},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 20, offset: 91714},
+																							pos:        position{line: 2912, col: 20, offset: 92780},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 29, offset: 91723},
+																							pos:        position{line: 2912, col: 29, offset: 92789},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7161,9 +7161,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2907, col: 8, offset: 91883},
+																				pos: position{line: 2922, col: 8, offset: 92949},
 																				expr: &anyMatcher{
-																					line: 2907, col: 9, offset: 91884,
+																					line: 2922, col: 9, offset: 92950,
 																				},
 																			},
 																		},
@@ -7195,18 +7195,18 @@ var g = &grammar{
 																							pos: position{line: 677, col: 14, offset: 21525},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2905, col: 11, offset: 91869},
+																									pos: position{line: 2920, col: 11, offset: 92935},
 																									expr: &anyMatcher{
-																										line: 2905, col: 13, offset: 91871,
+																										line: 2920, col: 13, offset: 92937,
 																									},
 																								},
 																								&zeroOrMoreExpr{
 																									pos: position{line: 677, col: 21, offset: 21532},
 																									expr: &actionExpr{
-																										pos: position{line: 2888, col: 10, offset: 91535},
+																										pos: position{line: 2903, col: 10, offset: 92601},
 																										run: (*parser).callonDocumentFragment666,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2888, col: 10, offset: 91535},
+																											pos:        position{line: 2903, col: 10, offset: 92601},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7215,28 +7215,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2910, col: 8, offset: 91933},
+																									pos: position{line: 2925, col: 8, offset: 92999},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2897, col: 12, offset: 91706},
+																											pos: position{line: 2912, col: 12, offset: 92772},
 																											run: (*parser).callonDocumentFragment669,
 																											expr: &choiceExpr{
-																												pos: position{line: 2897, col: 13, offset: 91707},
+																												pos: position{line: 2912, col: 13, offset: 92773},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2897, col: 13, offset: 91707},
+																														pos:        position{line: 2912, col: 13, offset: 92773},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2897, col: 20, offset: 91714},
+																														pos:        position{line: 2912, col: 20, offset: 92780},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2897, col: 29, offset: 91723},
+																														pos:        position{line: 2912, col: 29, offset: 92789},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7245,9 +7245,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2907, col: 8, offset: 91883},
+																											pos: position{line: 2922, col: 8, offset: 92949},
 																											expr: &anyMatcher{
-																												line: 2907, col: 9, offset: 91884,
+																												line: 2922, col: 9, offset: 92950,
 																											},
 																										},
 																									},
@@ -7266,12 +7266,12 @@ var g = &grammar{
 																					pos:   position{line: 985, col: 5, offset: 30748},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2838, col: 14, offset: 90128},
+																						pos: position{line: 2853, col: 14, offset: 91194},
 																						run: (*parser).callonDocumentFragment678,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2838, col: 14, offset: 90128},
+																							pos: position{line: 2853, col: 14, offset: 91194},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2838, col: 14, offset: 90128},
+																								pos:        position{line: 2853, col: 14, offset: 91194},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7281,28 +7281,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2910, col: 8, offset: 91933},
+																					pos: position{line: 2925, col: 8, offset: 92999},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2897, col: 12, offset: 91706},
+																							pos: position{line: 2912, col: 12, offset: 92772},
 																							run: (*parser).callonDocumentFragment682,
 																							expr: &choiceExpr{
-																								pos: position{line: 2897, col: 13, offset: 91707},
+																								pos: position{line: 2912, col: 13, offset: 92773},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2897, col: 13, offset: 91707},
+																										pos:        position{line: 2912, col: 13, offset: 92773},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2897, col: 20, offset: 91714},
+																										pos:        position{line: 2912, col: 20, offset: 92780},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2897, col: 29, offset: 91723},
+																										pos:        position{line: 2912, col: 29, offset: 92789},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7311,9 +7311,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2907, col: 8, offset: 91883},
+																							pos: position{line: 2922, col: 8, offset: 92949},
 																							expr: &anyMatcher{
-																								line: 2907, col: 9, offset: 91884,
+																								line: 2922, col: 9, offset: 92950,
 																							},
 																						},
 																					},
@@ -7331,12 +7331,12 @@ var g = &grammar{
 																					pos:   position{line: 1798, col: 5, offset: 58283},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2838, col: 14, offset: 90128},
+																						pos: position{line: 2853, col: 14, offset: 91194},
 																						run: (*parser).callonDocumentFragment692,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2838, col: 14, offset: 90128},
+																							pos: position{line: 2853, col: 14, offset: 91194},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2838, col: 14, offset: 90128},
+																								pos:        position{line: 2853, col: 14, offset: 91194},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7350,28 +7350,28 @@ var g = &grammar{
 																					run: (*parser).callonDocumentFragment695,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2910, col: 8, offset: 91933},
+																					pos: position{line: 2925, col: 8, offset: 92999},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2897, col: 12, offset: 91706},
+																							pos: position{line: 2912, col: 12, offset: 92772},
 																							run: (*parser).callonDocumentFragment697,
 																							expr: &choiceExpr{
-																								pos: position{line: 2897, col: 13, offset: 91707},
+																								pos: position{line: 2912, col: 13, offset: 92773},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2897, col: 13, offset: 91707},
+																										pos:        position{line: 2912, col: 13, offset: 92773},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2897, col: 20, offset: 91714},
+																										pos:        position{line: 2912, col: 20, offset: 92780},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2897, col: 29, offset: 91723},
+																										pos:        position{line: 2912, col: 29, offset: 92789},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7380,9 +7380,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2907, col: 8, offset: 91883},
+																							pos: position{line: 2922, col: 8, offset: 92949},
 																							expr: &anyMatcher{
-																								line: 2907, col: 9, offset: 91884,
+																								line: 2922, col: 9, offset: 92950,
 																							},
 																						},
 																					},
@@ -7429,10 +7429,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 779, col: 8, offset: 25013},
 																		expr: &actionExpr{
-																			pos: position{line: 2888, col: 10, offset: 91535},
+																			pos: position{line: 2903, col: 10, offset: 92601},
 																			run: (*parser).callonDocumentFragment713,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2888, col: 10, offset: 91535},
+																				pos:        position{line: 2903, col: 10, offset: 92601},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7441,28 +7441,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2910, col: 8, offset: 91933},
+																		pos: position{line: 2925, col: 8, offset: 92999},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2897, col: 12, offset: 91706},
+																				pos: position{line: 2912, col: 12, offset: 92772},
 																				run: (*parser).callonDocumentFragment716,
 																				expr: &choiceExpr{
-																					pos: position{line: 2897, col: 13, offset: 91707},
+																					pos: position{line: 2912, col: 13, offset: 92773},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 13, offset: 91707},
+																							pos:        position{line: 2912, col: 13, offset: 92773},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 20, offset: 91714},
+																							pos:        position{line: 2912, col: 20, offset: 92780},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 29, offset: 91723},
+																							pos:        position{line: 2912, col: 29, offset: 92789},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7471,9 +7471,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2907, col: 8, offset: 91883},
+																				pos: position{line: 2922, col: 8, offset: 92949},
 																				expr: &anyMatcher{
-																					line: 2907, col: 9, offset: 91884,
+																					line: 2922, col: 9, offset: 92950,
 																				},
 																			},
 																		},
@@ -7521,10 +7521,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 779, col: 8, offset: 25013},
 																									expr: &actionExpr{
-																										pos: position{line: 2888, col: 10, offset: 91535},
+																										pos: position{line: 2903, col: 10, offset: 92601},
 																										run: (*parser).callonDocumentFragment735,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2888, col: 10, offset: 91535},
+																											pos:        position{line: 2903, col: 10, offset: 92601},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7533,28 +7533,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2910, col: 8, offset: 91933},
+																									pos: position{line: 2925, col: 8, offset: 92999},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2897, col: 12, offset: 91706},
+																											pos: position{line: 2912, col: 12, offset: 92772},
 																											run: (*parser).callonDocumentFragment738,
 																											expr: &choiceExpr{
-																												pos: position{line: 2897, col: 13, offset: 91707},
+																												pos: position{line: 2912, col: 13, offset: 92773},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2897, col: 13, offset: 91707},
+																														pos:        position{line: 2912, col: 13, offset: 92773},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2897, col: 20, offset: 91714},
+																														pos:        position{line: 2912, col: 20, offset: 92780},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2897, col: 29, offset: 91723},
+																														pos:        position{line: 2912, col: 29, offset: 92789},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7563,9 +7563,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2907, col: 8, offset: 91883},
+																											pos: position{line: 2922, col: 8, offset: 92949},
 																											expr: &anyMatcher{
-																												line: 2907, col: 9, offset: 91884,
+																												line: 2922, col: 9, offset: 92950,
 																											},
 																										},
 																									},
@@ -7574,9 +7574,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2907, col: 8, offset: 91883},
+																						pos: position{line: 2922, col: 8, offset: 92949},
 																						expr: &anyMatcher{
-																							line: 2907, col: 9, offset: 91884,
+																							line: 2922, col: 9, offset: 92950,
 																						},
 																					},
 																				},
@@ -7592,21 +7592,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2905, col: 11, offset: 91869},
+																							pos: position{line: 2920, col: 11, offset: 92935},
 																							expr: &anyMatcher{
-																								line: 2905, col: 13, offset: 91871,
+																								line: 2920, col: 13, offset: 92937,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2834, col: 13, offset: 90061},
+																								pos: position{line: 2849, col: 13, offset: 91127},
 																								run: (*parser).callonDocumentFragment753,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2834, col: 13, offset: 90061},
+																									pos: position{line: 2849, col: 13, offset: 91127},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2834, col: 13, offset: 90061},
+																										pos:        position{line: 2849, col: 13, offset: 91127},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7616,28 +7616,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2910, col: 8, offset: 91933},
+																							pos: position{line: 2925, col: 8, offset: 92999},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2897, col: 12, offset: 91706},
+																									pos: position{line: 2912, col: 12, offset: 92772},
 																									run: (*parser).callonDocumentFragment757,
 																									expr: &choiceExpr{
-																										pos: position{line: 2897, col: 13, offset: 91707},
+																										pos: position{line: 2912, col: 13, offset: 92773},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 13, offset: 91707},
+																												pos:        position{line: 2912, col: 13, offset: 92773},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 20, offset: 91714},
+																												pos:        position{line: 2912, col: 20, offset: 92780},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 29, offset: 91723},
+																												pos:        position{line: 2912, col: 29, offset: 92789},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7646,9 +7646,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2907, col: 8, offset: 91883},
+																									pos: position{line: 2922, col: 8, offset: 92949},
 																									expr: &anyMatcher{
-																										line: 2907, col: 9, offset: 91884,
+																										line: 2922, col: 9, offset: 92950,
 																									},
 																								},
 																							},
@@ -7693,10 +7693,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 779, col: 8, offset: 25013},
 																					expr: &actionExpr{
-																						pos: position{line: 2888, col: 10, offset: 91535},
+																						pos: position{line: 2903, col: 10, offset: 92601},
 																						run: (*parser).callonDocumentFragment773,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2888, col: 10, offset: 91535},
+																							pos:        position{line: 2903, col: 10, offset: 92601},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7705,28 +7705,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2910, col: 8, offset: 91933},
+																					pos: position{line: 2925, col: 8, offset: 92999},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2897, col: 12, offset: 91706},
+																							pos: position{line: 2912, col: 12, offset: 92772},
 																							run: (*parser).callonDocumentFragment776,
 																							expr: &choiceExpr{
-																								pos: position{line: 2897, col: 13, offset: 91707},
+																								pos: position{line: 2912, col: 13, offset: 92773},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2897, col: 13, offset: 91707},
+																										pos:        position{line: 2912, col: 13, offset: 92773},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2897, col: 20, offset: 91714},
+																										pos:        position{line: 2912, col: 20, offset: 92780},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2897, col: 29, offset: 91723},
+																										pos:        position{line: 2912, col: 29, offset: 92789},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7735,9 +7735,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2907, col: 8, offset: 91883},
+																							pos: position{line: 2922, col: 8, offset: 92949},
 																							expr: &anyMatcher{
-																								line: 2907, col: 9, offset: 91884,
+																								line: 2922, col: 9, offset: 92950,
 																							},
 																						},
 																					},
@@ -7746,9 +7746,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2907, col: 8, offset: 91883},
+																		pos: position{line: 2922, col: 8, offset: 92949},
 																		expr: &anyMatcher{
-																			line: 2907, col: 9, offset: 91884,
+																			line: 2922, col: 9, offset: 92950,
 																		},
 																	},
 																},
@@ -7804,10 +7804,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 793, col: 8, offset: 25510},
 																		expr: &actionExpr{
-																			pos: position{line: 2888, col: 10, offset: 91535},
+																			pos: position{line: 2903, col: 10, offset: 92601},
 																			run: (*parser).callonDocumentFragment797,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2888, col: 10, offset: 91535},
+																				pos:        position{line: 2903, col: 10, offset: 92601},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7816,28 +7816,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2910, col: 8, offset: 91933},
+																		pos: position{line: 2925, col: 8, offset: 92999},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2897, col: 12, offset: 91706},
+																				pos: position{line: 2912, col: 12, offset: 92772},
 																				run: (*parser).callonDocumentFragment800,
 																				expr: &choiceExpr{
-																					pos: position{line: 2897, col: 13, offset: 91707},
+																					pos: position{line: 2912, col: 13, offset: 92773},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 13, offset: 91707},
+																							pos:        position{line: 2912, col: 13, offset: 92773},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 20, offset: 91714},
+																							pos:        position{line: 2912, col: 20, offset: 92780},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 29, offset: 91723},
+																							pos:        position{line: 2912, col: 29, offset: 92789},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7846,9 +7846,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2907, col: 8, offset: 91883},
+																				pos: position{line: 2922, col: 8, offset: 92949},
 																				expr: &anyMatcher{
-																					line: 2907, col: 9, offset: 91884,
+																					line: 2922, col: 9, offset: 92950,
 																				},
 																			},
 																		},
@@ -7920,10 +7920,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 793, col: 8, offset: 25510},
 																												expr: &actionExpr{
-																													pos: position{line: 2888, col: 10, offset: 91535},
+																													pos: position{line: 2903, col: 10, offset: 92601},
 																													run: (*parser).callonDocumentFragment825,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2888, col: 10, offset: 91535},
+																														pos:        position{line: 2903, col: 10, offset: 92601},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7932,28 +7932,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2910, col: 8, offset: 91933},
+																												pos: position{line: 2925, col: 8, offset: 92999},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2897, col: 12, offset: 91706},
+																														pos: position{line: 2912, col: 12, offset: 92772},
 																														run: (*parser).callonDocumentFragment828,
 																														expr: &choiceExpr{
-																															pos: position{line: 2897, col: 13, offset: 91707},
+																															pos: position{line: 2912, col: 13, offset: 92773},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2897, col: 13, offset: 91707},
+																																	pos:        position{line: 2912, col: 13, offset: 92773},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2897, col: 20, offset: 91714},
+																																	pos:        position{line: 2912, col: 20, offset: 92780},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2897, col: 29, offset: 91723},
+																																	pos:        position{line: 2912, col: 29, offset: 92789},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7962,9 +7962,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2907, col: 8, offset: 91883},
+																														pos: position{line: 2922, col: 8, offset: 92949},
 																														expr: &anyMatcher{
-																															line: 2907, col: 9, offset: 91884,
+																															line: 2922, col: 9, offset: 92950,
 																														},
 																													},
 																												},
@@ -7980,9 +7980,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2907, col: 8, offset: 91883},
+																						pos: position{line: 2922, col: 8, offset: 92949},
 																						expr: &anyMatcher{
-																							line: 2907, col: 9, offset: 91884,
+																							line: 2922, col: 9, offset: 92950,
 																						},
 																					},
 																				},
@@ -7998,21 +7998,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2905, col: 11, offset: 91869},
+																							pos: position{line: 2920, col: 11, offset: 92935},
 																							expr: &anyMatcher{
-																								line: 2905, col: 13, offset: 91871,
+																								line: 2920, col: 13, offset: 92937,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2834, col: 13, offset: 90061},
+																								pos: position{line: 2849, col: 13, offset: 91127},
 																								run: (*parser).callonDocumentFragment844,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2834, col: 13, offset: 90061},
+																									pos: position{line: 2849, col: 13, offset: 91127},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2834, col: 13, offset: 90061},
+																										pos:        position{line: 2849, col: 13, offset: 91127},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8022,28 +8022,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2910, col: 8, offset: 91933},
+																							pos: position{line: 2925, col: 8, offset: 92999},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2897, col: 12, offset: 91706},
+																									pos: position{line: 2912, col: 12, offset: 92772},
 																									run: (*parser).callonDocumentFragment848,
 																									expr: &choiceExpr{
-																										pos: position{line: 2897, col: 13, offset: 91707},
+																										pos: position{line: 2912, col: 13, offset: 92773},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 13, offset: 91707},
+																												pos:        position{line: 2912, col: 13, offset: 92773},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 20, offset: 91714},
+																												pos:        position{line: 2912, col: 20, offset: 92780},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 29, offset: 91723},
+																												pos:        position{line: 2912, col: 29, offset: 92789},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8052,9 +8052,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2907, col: 8, offset: 91883},
+																									pos: position{line: 2922, col: 8, offset: 92949},
 																									expr: &anyMatcher{
-																										line: 2907, col: 9, offset: 91884,
+																										line: 2922, col: 9, offset: 92950,
 																									},
 																								},
 																							},
@@ -8119,10 +8119,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 793, col: 8, offset: 25510},
 																								expr: &actionExpr{
-																									pos: position{line: 2888, col: 10, offset: 91535},
+																									pos: position{line: 2903, col: 10, offset: 92601},
 																									run: (*parser).callonDocumentFragment869,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2888, col: 10, offset: 91535},
+																										pos:        position{line: 2903, col: 10, offset: 92601},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8131,28 +8131,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2910, col: 8, offset: 91933},
+																								pos: position{line: 2925, col: 8, offset: 92999},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2897, col: 12, offset: 91706},
+																										pos: position{line: 2912, col: 12, offset: 92772},
 																										run: (*parser).callonDocumentFragment872,
 																										expr: &choiceExpr{
-																											pos: position{line: 2897, col: 13, offset: 91707},
+																											pos: position{line: 2912, col: 13, offset: 92773},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2897, col: 13, offset: 91707},
+																													pos:        position{line: 2912, col: 13, offset: 92773},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2897, col: 20, offset: 91714},
+																													pos:        position{line: 2912, col: 20, offset: 92780},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2897, col: 29, offset: 91723},
+																													pos:        position{line: 2912, col: 29, offset: 92789},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8161,9 +8161,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2907, col: 8, offset: 91883},
+																										pos: position{line: 2922, col: 8, offset: 92949},
 																										expr: &anyMatcher{
-																											line: 2907, col: 9, offset: 91884,
+																											line: 2922, col: 9, offset: 92950,
 																										},
 																									},
 																								},
@@ -8179,9 +8179,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2907, col: 8, offset: 91883},
+																		pos: position{line: 2922, col: 8, offset: 92949},
 																		expr: &anyMatcher{
-																			line: 2907, col: 9, offset: 91884,
+																			line: 2922, col: 9, offset: 92950,
 																		},
 																	},
 																},
@@ -8237,10 +8237,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 800, col: 8, offset: 25760},
 																		expr: &actionExpr{
-																			pos: position{line: 2888, col: 10, offset: 91535},
+																			pos: position{line: 2903, col: 10, offset: 92601},
 																			run: (*parser).callonDocumentFragment894,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2888, col: 10, offset: 91535},
+																				pos:        position{line: 2903, col: 10, offset: 92601},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8249,28 +8249,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2910, col: 8, offset: 91933},
+																		pos: position{line: 2925, col: 8, offset: 92999},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2897, col: 12, offset: 91706},
+																				pos: position{line: 2912, col: 12, offset: 92772},
 																				run: (*parser).callonDocumentFragment897,
 																				expr: &choiceExpr{
-																					pos: position{line: 2897, col: 13, offset: 91707},
+																					pos: position{line: 2912, col: 13, offset: 92773},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 13, offset: 91707},
+																							pos:        position{line: 2912, col: 13, offset: 92773},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 20, offset: 91714},
+																							pos:        position{line: 2912, col: 20, offset: 92780},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 29, offset: 91723},
+																							pos:        position{line: 2912, col: 29, offset: 92789},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8279,9 +8279,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2907, col: 8, offset: 91883},
+																				pos: position{line: 2922, col: 8, offset: 92949},
 																				expr: &anyMatcher{
-																					line: 2907, col: 9, offset: 91884,
+																					line: 2922, col: 9, offset: 92950,
 																				},
 																			},
 																		},
@@ -8353,10 +8353,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 800, col: 8, offset: 25760},
 																												expr: &actionExpr{
-																													pos: position{line: 2888, col: 10, offset: 91535},
+																													pos: position{line: 2903, col: 10, offset: 92601},
 																													run: (*parser).callonDocumentFragment922,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2888, col: 10, offset: 91535},
+																														pos:        position{line: 2903, col: 10, offset: 92601},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8365,28 +8365,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2910, col: 8, offset: 91933},
+																												pos: position{line: 2925, col: 8, offset: 92999},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2897, col: 12, offset: 91706},
+																														pos: position{line: 2912, col: 12, offset: 92772},
 																														run: (*parser).callonDocumentFragment925,
 																														expr: &choiceExpr{
-																															pos: position{line: 2897, col: 13, offset: 91707},
+																															pos: position{line: 2912, col: 13, offset: 92773},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2897, col: 13, offset: 91707},
+																																	pos:        position{line: 2912, col: 13, offset: 92773},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2897, col: 20, offset: 91714},
+																																	pos:        position{line: 2912, col: 20, offset: 92780},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2897, col: 29, offset: 91723},
+																																	pos:        position{line: 2912, col: 29, offset: 92789},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8395,9 +8395,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2907, col: 8, offset: 91883},
+																														pos: position{line: 2922, col: 8, offset: 92949},
 																														expr: &anyMatcher{
-																															line: 2907, col: 9, offset: 91884,
+																															line: 2922, col: 9, offset: 92950,
 																														},
 																													},
 																												},
@@ -8413,9 +8413,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2907, col: 8, offset: 91883},
+																						pos: position{line: 2922, col: 8, offset: 92949},
 																						expr: &anyMatcher{
-																							line: 2907, col: 9, offset: 91884,
+																							line: 2922, col: 9, offset: 92950,
 																						},
 																					},
 																				},
@@ -8431,21 +8431,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2905, col: 11, offset: 91869},
+																							pos: position{line: 2920, col: 11, offset: 92935},
 																							expr: &anyMatcher{
-																								line: 2905, col: 13, offset: 91871,
+																								line: 2920, col: 13, offset: 92937,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2834, col: 13, offset: 90061},
+																								pos: position{line: 2849, col: 13, offset: 91127},
 																								run: (*parser).callonDocumentFragment941,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2834, col: 13, offset: 90061},
+																									pos: position{line: 2849, col: 13, offset: 91127},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2834, col: 13, offset: 90061},
+																										pos:        position{line: 2849, col: 13, offset: 91127},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8455,28 +8455,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2910, col: 8, offset: 91933},
+																							pos: position{line: 2925, col: 8, offset: 92999},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2897, col: 12, offset: 91706},
+																									pos: position{line: 2912, col: 12, offset: 92772},
 																									run: (*parser).callonDocumentFragment945,
 																									expr: &choiceExpr{
-																										pos: position{line: 2897, col: 13, offset: 91707},
+																										pos: position{line: 2912, col: 13, offset: 92773},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 13, offset: 91707},
+																												pos:        position{line: 2912, col: 13, offset: 92773},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 20, offset: 91714},
+																												pos:        position{line: 2912, col: 20, offset: 92780},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 29, offset: 91723},
+																												pos:        position{line: 2912, col: 29, offset: 92789},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8485,9 +8485,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2907, col: 8, offset: 91883},
+																									pos: position{line: 2922, col: 8, offset: 92949},
 																									expr: &anyMatcher{
-																										line: 2907, col: 9, offset: 91884,
+																										line: 2922, col: 9, offset: 92950,
 																									},
 																								},
 																							},
@@ -8552,10 +8552,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 800, col: 8, offset: 25760},
 																								expr: &actionExpr{
-																									pos: position{line: 2888, col: 10, offset: 91535},
+																									pos: position{line: 2903, col: 10, offset: 92601},
 																									run: (*parser).callonDocumentFragment966,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2888, col: 10, offset: 91535},
+																										pos:        position{line: 2903, col: 10, offset: 92601},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8564,28 +8564,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2910, col: 8, offset: 91933},
+																								pos: position{line: 2925, col: 8, offset: 92999},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2897, col: 12, offset: 91706},
+																										pos: position{line: 2912, col: 12, offset: 92772},
 																										run: (*parser).callonDocumentFragment969,
 																										expr: &choiceExpr{
-																											pos: position{line: 2897, col: 13, offset: 91707},
+																											pos: position{line: 2912, col: 13, offset: 92773},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2897, col: 13, offset: 91707},
+																													pos:        position{line: 2912, col: 13, offset: 92773},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2897, col: 20, offset: 91714},
+																													pos:        position{line: 2912, col: 20, offset: 92780},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2897, col: 29, offset: 91723},
+																													pos:        position{line: 2912, col: 29, offset: 92789},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8594,9 +8594,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2907, col: 8, offset: 91883},
+																										pos: position{line: 2922, col: 8, offset: 92949},
 																										expr: &anyMatcher{
-																											line: 2907, col: 9, offset: 91884,
+																											line: 2922, col: 9, offset: 92950,
 																										},
 																									},
 																								},
@@ -8612,9 +8612,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2907, col: 8, offset: 91883},
+																		pos: position{line: 2922, col: 8, offset: 92949},
 																		expr: &anyMatcher{
-																			line: 2907, col: 9, offset: 91884,
+																			line: 2922, col: 9, offset: 92950,
 																		},
 																	},
 																},
@@ -8670,10 +8670,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 807, col: 8, offset: 26006},
 																		expr: &actionExpr{
-																			pos: position{line: 2888, col: 10, offset: 91535},
+																			pos: position{line: 2903, col: 10, offset: 92601},
 																			run: (*parser).callonDocumentFragment991,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2888, col: 10, offset: 91535},
+																				pos:        position{line: 2903, col: 10, offset: 92601},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8682,28 +8682,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2910, col: 8, offset: 91933},
+																		pos: position{line: 2925, col: 8, offset: 92999},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2897, col: 12, offset: 91706},
+																				pos: position{line: 2912, col: 12, offset: 92772},
 																				run: (*parser).callonDocumentFragment994,
 																				expr: &choiceExpr{
-																					pos: position{line: 2897, col: 13, offset: 91707},
+																					pos: position{line: 2912, col: 13, offset: 92773},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 13, offset: 91707},
+																							pos:        position{line: 2912, col: 13, offset: 92773},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 20, offset: 91714},
+																							pos:        position{line: 2912, col: 20, offset: 92780},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 29, offset: 91723},
+																							pos:        position{line: 2912, col: 29, offset: 92789},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8712,9 +8712,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2907, col: 8, offset: 91883},
+																				pos: position{line: 2922, col: 8, offset: 92949},
 																				expr: &anyMatcher{
-																					line: 2907, col: 9, offset: 91884,
+																					line: 2922, col: 9, offset: 92950,
 																				},
 																			},
 																		},
@@ -8786,10 +8786,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 807, col: 8, offset: 26006},
 																												expr: &actionExpr{
-																													pos: position{line: 2888, col: 10, offset: 91535},
+																													pos: position{line: 2903, col: 10, offset: 92601},
 																													run: (*parser).callonDocumentFragment1019,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2888, col: 10, offset: 91535},
+																														pos:        position{line: 2903, col: 10, offset: 92601},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8798,28 +8798,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2910, col: 8, offset: 91933},
+																												pos: position{line: 2925, col: 8, offset: 92999},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2897, col: 12, offset: 91706},
+																														pos: position{line: 2912, col: 12, offset: 92772},
 																														run: (*parser).callonDocumentFragment1022,
 																														expr: &choiceExpr{
-																															pos: position{line: 2897, col: 13, offset: 91707},
+																															pos: position{line: 2912, col: 13, offset: 92773},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2897, col: 13, offset: 91707},
+																																	pos:        position{line: 2912, col: 13, offset: 92773},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2897, col: 20, offset: 91714},
+																																	pos:        position{line: 2912, col: 20, offset: 92780},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2897, col: 29, offset: 91723},
+																																	pos:        position{line: 2912, col: 29, offset: 92789},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8828,9 +8828,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2907, col: 8, offset: 91883},
+																														pos: position{line: 2922, col: 8, offset: 92949},
 																														expr: &anyMatcher{
-																															line: 2907, col: 9, offset: 91884,
+																															line: 2922, col: 9, offset: 92950,
 																														},
 																													},
 																												},
@@ -8846,9 +8846,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2907, col: 8, offset: 91883},
+																						pos: position{line: 2922, col: 8, offset: 92949},
 																						expr: &anyMatcher{
-																							line: 2907, col: 9, offset: 91884,
+																							line: 2922, col: 9, offset: 92950,
 																						},
 																					},
 																				},
@@ -8864,21 +8864,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2905, col: 11, offset: 91869},
+																							pos: position{line: 2920, col: 11, offset: 92935},
 																							expr: &anyMatcher{
-																								line: 2905, col: 13, offset: 91871,
+																								line: 2920, col: 13, offset: 92937,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2834, col: 13, offset: 90061},
+																								pos: position{line: 2849, col: 13, offset: 91127},
 																								run: (*parser).callonDocumentFragment1038,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2834, col: 13, offset: 90061},
+																									pos: position{line: 2849, col: 13, offset: 91127},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2834, col: 13, offset: 90061},
+																										pos:        position{line: 2849, col: 13, offset: 91127},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8888,28 +8888,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2910, col: 8, offset: 91933},
+																							pos: position{line: 2925, col: 8, offset: 92999},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2897, col: 12, offset: 91706},
+																									pos: position{line: 2912, col: 12, offset: 92772},
 																									run: (*parser).callonDocumentFragment1042,
 																									expr: &choiceExpr{
-																										pos: position{line: 2897, col: 13, offset: 91707},
+																										pos: position{line: 2912, col: 13, offset: 92773},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 13, offset: 91707},
+																												pos:        position{line: 2912, col: 13, offset: 92773},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 20, offset: 91714},
+																												pos:        position{line: 2912, col: 20, offset: 92780},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 29, offset: 91723},
+																												pos:        position{line: 2912, col: 29, offset: 92789},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8918,9 +8918,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2907, col: 8, offset: 91883},
+																									pos: position{line: 2922, col: 8, offset: 92949},
 																									expr: &anyMatcher{
-																										line: 2907, col: 9, offset: 91884,
+																										line: 2922, col: 9, offset: 92950,
 																									},
 																								},
 																							},
@@ -8985,10 +8985,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 807, col: 8, offset: 26006},
 																								expr: &actionExpr{
-																									pos: position{line: 2888, col: 10, offset: 91535},
+																									pos: position{line: 2903, col: 10, offset: 92601},
 																									run: (*parser).callonDocumentFragment1063,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2888, col: 10, offset: 91535},
+																										pos:        position{line: 2903, col: 10, offset: 92601},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8997,28 +8997,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2910, col: 8, offset: 91933},
+																								pos: position{line: 2925, col: 8, offset: 92999},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2897, col: 12, offset: 91706},
+																										pos: position{line: 2912, col: 12, offset: 92772},
 																										run: (*parser).callonDocumentFragment1066,
 																										expr: &choiceExpr{
-																											pos: position{line: 2897, col: 13, offset: 91707},
+																											pos: position{line: 2912, col: 13, offset: 92773},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2897, col: 13, offset: 91707},
+																													pos:        position{line: 2912, col: 13, offset: 92773},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2897, col: 20, offset: 91714},
+																													pos:        position{line: 2912, col: 20, offset: 92780},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2897, col: 29, offset: 91723},
+																													pos:        position{line: 2912, col: 29, offset: 92789},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -9027,9 +9027,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2907, col: 8, offset: 91883},
+																										pos: position{line: 2922, col: 8, offset: 92949},
 																										expr: &anyMatcher{
-																											line: 2907, col: 9, offset: 91884,
+																											line: 2922, col: 9, offset: 92950,
 																										},
 																									},
 																								},
@@ -9045,9 +9045,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2907, col: 8, offset: 91883},
+																		pos: position{line: 2922, col: 8, offset: 92949},
 																		expr: &anyMatcher{
-																			line: 2907, col: 9, offset: 91884,
+																			line: 2922, col: 9, offset: 92950,
 																		},
 																	},
 																},
@@ -9058,52 +9058,52 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2726, col: 18, offset: 86916},
+											pos: position{line: 2741, col: 18, offset: 87982},
 											run: (*parser).callonDocumentFragment1076,
 											expr: &seqExpr{
-												pos: position{line: 2726, col: 18, offset: 86916},
+												pos: position{line: 2741, col: 18, offset: 87982},
 												exprs: []interface{}{
 													&choiceExpr{
-														pos: position{line: 2727, col: 9, offset: 86926},
+														pos: position{line: 2742, col: 9, offset: 87992},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2727, col: 9, offset: 86926},
+																pos:        position{line: 2742, col: 9, offset: 87992},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2728, col: 11, offset: 86962},
+																pos:        position{line: 2743, col: 11, offset: 88028},
 																val:        "***",
 																ignoreCase: false,
 																want:       "\"***\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2728, col: 19, offset: 86970},
+																pos:        position{line: 2743, col: 19, offset: 88036},
 																val:        "* * *",
 																ignoreCase: false,
 																want:       "\"* * *\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2728, col: 29, offset: 86980},
+																pos:        position{line: 2743, col: 29, offset: 88046},
 																val:        "---",
 																ignoreCase: false,
 																want:       "\"---\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2728, col: 37, offset: 86988},
+																pos:        position{line: 2743, col: 37, offset: 88054},
 																val:        "- - -",
 																ignoreCase: false,
 																want:       "\"- - -\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2728, col: 47, offset: 86998},
+																pos:        position{line: 2743, col: 47, offset: 88064},
 																val:        "___",
 																ignoreCase: false,
 																want:       "\"___\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2728, col: 55, offset: 87006},
+																pos:        position{line: 2743, col: 55, offset: 88072},
 																val:        "_ _ _",
 																ignoreCase: false,
 																want:       "\"_ _ _\"",
@@ -9111,12 +9111,12 @@ var g = &grammar{
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2729, col: 11, offset: 87052},
+														pos: position{line: 2744, col: 11, offset: 88118},
 														expr: &actionExpr{
-															pos: position{line: 2888, col: 10, offset: 91535},
+															pos: position{line: 2903, col: 10, offset: 92601},
 															run: (*parser).callonDocumentFragment1087,
 															expr: &charClassMatcher{
-																pos:        position{line: 2888, col: 10, offset: 91535},
+																pos:        position{line: 2903, col: 10, offset: 92601},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9125,28 +9125,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2910, col: 8, offset: 91933},
+														pos: position{line: 2925, col: 8, offset: 92999},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2897, col: 12, offset: 91706},
+																pos: position{line: 2912, col: 12, offset: 92772},
 																run: (*parser).callonDocumentFragment1090,
 																expr: &choiceExpr{
-																	pos: position{line: 2897, col: 13, offset: 91707},
+																	pos: position{line: 2912, col: 13, offset: 92773},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2897, col: 13, offset: 91707},
+																			pos:        position{line: 2912, col: 13, offset: 92773},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2897, col: 20, offset: 91714},
+																			pos:        position{line: 2912, col: 20, offset: 92780},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2897, col: 29, offset: 91723},
+																			pos:        position{line: 2912, col: 29, offset: 92789},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9155,20 +9155,20 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2907, col: 8, offset: 91883},
+																pos: position{line: 2922, col: 8, offset: 92949},
 																expr: &anyMatcher{
-																	line: 2907, col: 9, offset: 91884,
+																	line: 2922, col: 9, offset: 92950,
 																},
 															},
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2729, col: 22, offset: 87063},
+														pos: position{line: 2744, col: 22, offset: 88129},
 														expr: &actionExpr{
-															pos: position{line: 2888, col: 10, offset: 91535},
+															pos: position{line: 2903, col: 10, offset: 92601},
 															run: (*parser).callonDocumentFragment1098,
 															expr: &charClassMatcher{
-																pos:        position{line: 2888, col: 10, offset: 91535},
+																pos:        position{line: 2903, col: 10, offset: 92601},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9177,28 +9177,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2910, col: 8, offset: 91933},
+														pos: position{line: 2925, col: 8, offset: 92999},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2897, col: 12, offset: 91706},
+																pos: position{line: 2912, col: 12, offset: 92772},
 																run: (*parser).callonDocumentFragment1101,
 																expr: &choiceExpr{
-																	pos: position{line: 2897, col: 13, offset: 91707},
+																	pos: position{line: 2912, col: 13, offset: 92773},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2897, col: 13, offset: 91707},
+																			pos:        position{line: 2912, col: 13, offset: 92773},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2897, col: 20, offset: 91714},
+																			pos:        position{line: 2912, col: 20, offset: 92780},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2897, col: 29, offset: 91723},
+																			pos:        position{line: 2912, col: 29, offset: 92789},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9207,9 +9207,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2907, col: 8, offset: 91883},
+																pos: position{line: 2922, col: 8, offset: 92949},
 																expr: &anyMatcher{
-																	line: 2907, col: 9, offset: 91884,
+																	line: 2922, col: 9, offset: 92950,
 																},
 															},
 														},
@@ -9222,24 +9222,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2617, col: 5, offset: 83852},
+											pos: position{line: 2632, col: 5, offset: 84918},
 											run: (*parser).callonDocumentFragment1109,
 											expr: &seqExpr{
-												pos: position{line: 2617, col: 5, offset: 83852},
+												pos: position{line: 2632, col: 5, offset: 84918},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2623, col: 19, offset: 84009},
+														pos:        position{line: 2638, col: 19, offset: 85075},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2623, col: 26, offset: 84016},
+														pos: position{line: 2638, col: 26, offset: 85082},
 														expr: &actionExpr{
-															pos: position{line: 2888, col: 10, offset: 91535},
+															pos: position{line: 2903, col: 10, offset: 92601},
 															run: (*parser).callonDocumentFragment1113,
 															expr: &charClassMatcher{
-																pos:        position{line: 2888, col: 10, offset: 91535},
+																pos:        position{line: 2903, col: 10, offset: 92601},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9248,28 +9248,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2910, col: 8, offset: 91933},
+														pos: position{line: 2925, col: 8, offset: 92999},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2897, col: 12, offset: 91706},
+																pos: position{line: 2912, col: 12, offset: 92772},
 																run: (*parser).callonDocumentFragment1116,
 																expr: &choiceExpr{
-																	pos: position{line: 2897, col: 13, offset: 91707},
+																	pos: position{line: 2912, col: 13, offset: 92773},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2897, col: 13, offset: 91707},
+																			pos:        position{line: 2912, col: 13, offset: 92773},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2897, col: 20, offset: 91714},
+																			pos:        position{line: 2912, col: 20, offset: 92780},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2897, col: 29, offset: 91723},
+																			pos:        position{line: 2912, col: 29, offset: 92789},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9278,20 +9278,20 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2907, col: 8, offset: 91883},
+																pos: position{line: 2922, col: 8, offset: 92949},
 																expr: &anyMatcher{
-																	line: 2907, col: 9, offset: 91884,
+																	line: 2922, col: 9, offset: 92950,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2618, col: 5, offset: 83876},
+														pos:   position{line: 2633, col: 5, offset: 84942},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2618, col: 11, offset: 83882},
+															pos: position{line: 2633, col: 11, offset: 84948},
 															expr: &choiceExpr{
-																pos: position{line: 2618, col: 12, offset: 83883},
+																pos: position{line: 2633, col: 12, offset: 84949},
 																alternatives: []interface{}{
 																	&actionExpr{
 																		pos: position{line: 677, col: 14, offset: 21525},
@@ -9300,18 +9300,18 @@ var g = &grammar{
 																			pos: position{line: 677, col: 14, offset: 21525},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2905, col: 11, offset: 91869},
+																					pos: position{line: 2920, col: 11, offset: 92935},
 																					expr: &anyMatcher{
-																						line: 2905, col: 13, offset: 91871,
+																						line: 2920, col: 13, offset: 92937,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21532},
 																					expr: &actionExpr{
-																						pos: position{line: 2888, col: 10, offset: 91535},
+																						pos: position{line: 2903, col: 10, offset: 92601},
 																						run: (*parser).callonDocumentFragment1131,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2888, col: 10, offset: 91535},
+																							pos:        position{line: 2903, col: 10, offset: 92601},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9320,28 +9320,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2910, col: 8, offset: 91933},
+																					pos: position{line: 2925, col: 8, offset: 92999},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2897, col: 12, offset: 91706},
+																							pos: position{line: 2912, col: 12, offset: 92772},
 																							run: (*parser).callonDocumentFragment1134,
 																							expr: &choiceExpr{
-																								pos: position{line: 2897, col: 13, offset: 91707},
+																								pos: position{line: 2912, col: 13, offset: 92773},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2897, col: 13, offset: 91707},
+																										pos:        position{line: 2912, col: 13, offset: 92773},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2897, col: 20, offset: 91714},
+																										pos:        position{line: 2912, col: 20, offset: 92780},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2897, col: 29, offset: 91723},
+																										pos:        position{line: 2912, col: 29, offset: 92789},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9350,9 +9350,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2907, col: 8, offset: 91883},
+																							pos: position{line: 2922, col: 8, offset: 92949},
 																							expr: &anyMatcher{
-																								line: 2907, col: 9, offset: 91884,
+																								line: 2922, col: 9, offset: 92950,
 																							},
 																						},
 																					},
@@ -9361,32 +9361,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2630, col: 5, offset: 84128},
+																		pos: position{line: 2645, col: 5, offset: 85194},
 																		run: (*parser).callonDocumentFragment1141,
 																		expr: &seqExpr{
-																			pos: position{line: 2630, col: 5, offset: 84128},
+																			pos: position{line: 2645, col: 5, offset: 85194},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2630, col: 5, offset: 84128},
+																					pos: position{line: 2645, col: 5, offset: 85194},
 																					expr: &choiceExpr{
-																						pos: position{line: 2627, col: 22, offset: 84089},
+																						pos: position{line: 2642, col: 22, offset: 85155},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2623, col: 19, offset: 84009},
+																								pos: position{line: 2638, col: 19, offset: 85075},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2623, col: 19, offset: 84009},
+																										pos:        position{line: 2638, col: 19, offset: 85075},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2623, col: 26, offset: 84016},
+																										pos: position{line: 2638, col: 26, offset: 85082},
 																										expr: &actionExpr{
-																											pos: position{line: 2888, col: 10, offset: 91535},
+																											pos: position{line: 2903, col: 10, offset: 92601},
 																											run: (*parser).callonDocumentFragment1148,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2888, col: 10, offset: 91535},
+																												pos:        position{line: 2903, col: 10, offset: 92601},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9395,28 +9395,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2910, col: 8, offset: 91933},
+																										pos: position{line: 2925, col: 8, offset: 92999},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2897, col: 12, offset: 91706},
+																												pos: position{line: 2912, col: 12, offset: 92772},
 																												run: (*parser).callonDocumentFragment1151,
 																												expr: &choiceExpr{
-																													pos: position{line: 2897, col: 13, offset: 91707},
+																													pos: position{line: 2912, col: 13, offset: 92773},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2897, col: 13, offset: 91707},
+																															pos:        position{line: 2912, col: 13, offset: 92773},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2897, col: 20, offset: 91714},
+																															pos:        position{line: 2912, col: 20, offset: 92780},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2897, col: 29, offset: 91723},
+																															pos:        position{line: 2912, col: 29, offset: 92789},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9425,9 +9425,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2907, col: 8, offset: 91883},
+																												pos: position{line: 2922, col: 8, offset: 92949},
 																												expr: &anyMatcher{
-																													line: 2907, col: 9, offset: 91884,
+																													line: 2922, col: 9, offset: 92950,
 																												},
 																											},
 																										},
@@ -9435,59 +9435,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2907, col: 8, offset: 91883},
+																								pos: position{line: 2922, col: 8, offset: 92949},
 																								expr: &anyMatcher{
-																									line: 2907, col: 9, offset: 91884,
+																									line: 2922, col: 9, offset: 92950,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2631, col: 5, offset: 84151},
+																					pos:   position{line: 2646, col: 5, offset: 85217},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2632, col: 9, offset: 84169},
+																						pos: position{line: 2647, col: 9, offset: 85235},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2632, col: 10, offset: 84170},
+																								pos: position{line: 2647, col: 10, offset: 85236},
 																								run: (*parser).callonDocumentFragment1162,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2632, col: 10, offset: 84170},
+																									pos:   position{line: 2647, col: 10, offset: 85236},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2632, col: 17, offset: 84177},
+																										pos: position{line: 2647, col: 17, offset: 85243},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2640, col: 21, offset: 84373},
+																												pos: position{line: 2655, col: 21, offset: 85439},
 																												run: (*parser).callonDocumentFragment1165,
 																												expr: &seqExpr{
-																													pos: position{line: 2640, col: 21, offset: 84373},
+																													pos: position{line: 2655, col: 21, offset: 85439},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2640, col: 21, offset: 84373},
+																															pos:   position{line: 2655, col: 21, offset: 85439},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2640, col: 27, offset: 84379},
+																																pos: position{line: 2655, col: 27, offset: 85445},
 																																expr: &actionExpr{
-																																	pos: position{line: 2645, col: 5, offset: 84454},
+																																	pos: position{line: 2660, col: 5, offset: 85520},
 																																	run: (*parser).callonDocumentFragment1169,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2645, col: 5, offset: 84454},
+																																		pos: position{line: 2660, col: 5, offset: 85520},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2645, col: 5, offset: 84454},
+																																				pos:        position{line: 2660, col: 5, offset: 85520},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2645, col: 9, offset: 84458},
+																																				pos: position{line: 2660, col: 9, offset: 85524},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2888, col: 10, offset: 91535},
+																																					pos: position{line: 2903, col: 10, offset: 92601},
 																																					run: (*parser).callonDocumentFragment1173,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2888, col: 10, offset: 91535},
+																																						pos:        position{line: 2903, col: 10, offset: 92601},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9496,21 +9496,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2645, col: 16, offset: 84465},
+																																				pos:   position{line: 2660, col: 16, offset: 85531},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2651, col: 5, offset: 84665},
+																																					pos: position{line: 2666, col: 5, offset: 85731},
 																																					run: (*parser).callonDocumentFragment1176,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2651, col: 5, offset: 84665},
+																																						pos:   position{line: 2666, col: 5, offset: 85731},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2651, col: 14, offset: 84674},
+																																							pos: position{line: 2666, col: 14, offset: 85740},
 																																							run: (*parser).callonDocumentFragment1178,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2651, col: 14, offset: 84674},
+																																								pos: position{line: 2666, col: 14, offset: 85740},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2651, col: 14, offset: 84674},
+																																									pos:        position{line: 2666, col: 14, offset: 85740},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9527,28 +9527,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2910, col: 8, offset: 91933},
+																															pos: position{line: 2925, col: 8, offset: 92999},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2897, col: 12, offset: 91706},
+																																	pos: position{line: 2912, col: 12, offset: 92772},
 																																	run: (*parser).callonDocumentFragment1182,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2897, col: 13, offset: 91707},
+																																		pos: position{line: 2912, col: 13, offset: 92773},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2897, col: 13, offset: 91707},
+																																				pos:        position{line: 2912, col: 13, offset: 92773},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2897, col: 20, offset: 91714},
+																																				pos:        position{line: 2912, col: 20, offset: 92780},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2897, col: 29, offset: 91723},
+																																				pos:        position{line: 2912, col: 29, offset: 92789},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9557,9 +9557,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2907, col: 8, offset: 91883},
+																																	pos: position{line: 2922, col: 8, offset: 92949},
 																																	expr: &anyMatcher{
-																																		line: 2907, col: 9, offset: 91884,
+																																		line: 2922, col: 9, offset: 92950,
 																																	},
 																																},
 																															},
@@ -9568,40 +9568,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2657, col: 24, offset: 84810},
+																												pos: position{line: 2672, col: 24, offset: 85876},
 																												run: (*parser).callonDocumentFragment1189,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2657, col: 24, offset: 84810},
+																													pos:   position{line: 2672, col: 24, offset: 85876},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2657, col: 30, offset: 84816},
+																														pos: position{line: 2672, col: 30, offset: 85882},
 																														expr: &actionExpr{
-																															pos: position{line: 2662, col: 5, offset: 84892},
+																															pos: position{line: 2677, col: 5, offset: 85958},
 																															run: (*parser).callonDocumentFragment1192,
 																															expr: &seqExpr{
-																																pos: position{line: 2662, col: 5, offset: 84892},
+																																pos: position{line: 2677, col: 5, offset: 85958},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2662, col: 5, offset: 84892},
+																																		pos: position{line: 2677, col: 5, offset: 85958},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2627, col: 22, offset: 84089},
+																																			pos: position{line: 2642, col: 22, offset: 85155},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2623, col: 19, offset: 84009},
+																																					pos: position{line: 2638, col: 19, offset: 85075},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2623, col: 19, offset: 84009},
+																																							pos:        position{line: 2638, col: 19, offset: 85075},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2623, col: 26, offset: 84016},
+																																							pos: position{line: 2638, col: 26, offset: 85082},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2888, col: 10, offset: 91535},
+																																								pos: position{line: 2903, col: 10, offset: 92601},
 																																								run: (*parser).callonDocumentFragment1199,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2888, col: 10, offset: 91535},
+																																									pos:        position{line: 2903, col: 10, offset: 92601},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9610,28 +9610,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2910, col: 8, offset: 91933},
+																																							pos: position{line: 2925, col: 8, offset: 92999},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2897, col: 12, offset: 91706},
+																																									pos: position{line: 2912, col: 12, offset: 92772},
 																																									run: (*parser).callonDocumentFragment1202,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2897, col: 13, offset: 91707},
+																																										pos: position{line: 2912, col: 13, offset: 92773},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2897, col: 13, offset: 91707},
+																																												pos:        position{line: 2912, col: 13, offset: 92773},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2897, col: 20, offset: 91714},
+																																												pos:        position{line: 2912, col: 20, offset: 92780},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2897, col: 29, offset: 91723},
+																																												pos:        position{line: 2912, col: 29, offset: 92789},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9640,9 +9640,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2907, col: 8, offset: 91883},
+																																									pos: position{line: 2922, col: 8, offset: 92949},
 																																									expr: &anyMatcher{
-																																										line: 2907, col: 9, offset: 91884,
+																																										line: 2922, col: 9, offset: 92950,
 																																									},
 																																								},
 																																							},
@@ -9650,16 +9650,16 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2907, col: 8, offset: 91883},
+																																					pos: position{line: 2922, col: 8, offset: 92949},
 																																					expr: &anyMatcher{
-																																						line: 2907, col: 9, offset: 91884,
+																																						line: 2922, col: 9, offset: 92950,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2663, col: 5, offset: 84915},
+																																		pos: position{line: 2678, col: 5, offset: 85981},
 																																		expr: &actionExpr{
 																																			pos: position{line: 677, col: 14, offset: 21525},
 																																			run: (*parser).callonDocumentFragment1212,
@@ -9667,18 +9667,18 @@ var g = &grammar{
 																																				pos: position{line: 677, col: 14, offset: 21525},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2905, col: 11, offset: 91869},
+																																						pos: position{line: 2920, col: 11, offset: 92935},
 																																						expr: &anyMatcher{
-																																							line: 2905, col: 13, offset: 91871,
+																																							line: 2920, col: 13, offset: 92937,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
 																																						pos: position{line: 677, col: 21, offset: 21532},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2888, col: 10, offset: 91535},
+																																							pos: position{line: 2903, col: 10, offset: 92601},
 																																							run: (*parser).callonDocumentFragment1217,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2888, col: 10, offset: 91535},
+																																								pos:        position{line: 2903, col: 10, offset: 92601},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9687,28 +9687,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2910, col: 8, offset: 91933},
+																																						pos: position{line: 2925, col: 8, offset: 92999},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2897, col: 12, offset: 91706},
+																																								pos: position{line: 2912, col: 12, offset: 92772},
 																																								run: (*parser).callonDocumentFragment1220,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2897, col: 13, offset: 91707},
+																																									pos: position{line: 2912, col: 13, offset: 92773},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2897, col: 13, offset: 91707},
+																																											pos:        position{line: 2912, col: 13, offset: 92773},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2897, col: 20, offset: 91714},
+																																											pos:        position{line: 2912, col: 20, offset: 92780},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2897, col: 29, offset: 91723},
+																																											pos:        position{line: 2912, col: 29, offset: 92789},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9717,9 +9717,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2907, col: 8, offset: 91883},
+																																								pos: position{line: 2922, col: 8, offset: 92949},
 																																								expr: &anyMatcher{
-																																									line: 2907, col: 9, offset: 91884,
+																																									line: 2922, col: 9, offset: 92950,
 																																								},
 																																							},
 																																						},
@@ -9729,17 +9729,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2664, col: 5, offset: 84930},
+																																		pos:   position{line: 2679, col: 5, offset: 85996},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2664, col: 12, offset: 84937},
+																																			pos: position{line: 2679, col: 12, offset: 86003},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2681, col: 20, offset: 85401},
+																																				pos: position{line: 2696, col: 20, offset: 86467},
 																																				run: (*parser).callonDocumentFragment1229,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2681, col: 20, offset: 85401},
+																																					pos: position{line: 2696, col: 20, offset: 86467},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2681, col: 20, offset: 85401},
+																																						pos:        position{line: 2696, col: 20, offset: 86467},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9750,18 +9750,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2664, col: 31, offset: 84956},
+																																		pos:        position{line: 2679, col: 31, offset: 86022},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2664, col: 35, offset: 84960},
+																																		pos: position{line: 2679, col: 35, offset: 86026},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2888, col: 10, offset: 91535},
+																																			pos: position{line: 2903, col: 10, offset: 92601},
 																																			run: (*parser).callonDocumentFragment1234,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2888, col: 10, offset: 91535},
+																																				pos:        position{line: 2903, col: 10, offset: 92601},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9770,27 +9770,27 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2664, col: 42, offset: 84967},
+																																		pos: position{line: 2679, col: 42, offset: 86033},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2897, col: 12, offset: 91706},
+																																			pos: position{line: 2912, col: 12, offset: 92772},
 																																			run: (*parser).callonDocumentFragment1237,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2897, col: 13, offset: 91707},
+																																				pos: position{line: 2912, col: 13, offset: 92773},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2897, col: 13, offset: 91707},
+																																						pos:        position{line: 2912, col: 13, offset: 92773},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2897, col: 20, offset: 91714},
+																																						pos:        position{line: 2912, col: 20, offset: 92780},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2897, col: 29, offset: 91723},
+																																						pos:        position{line: 2912, col: 29, offset: 92789},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9800,37 +9800,37 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2664, col: 51, offset: 84976},
+																																		pos:   position{line: 2679, col: 51, offset: 86042},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2670, col: 5, offset: 85135},
+																																			pos: position{line: 2685, col: 5, offset: 86201},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2671, col: 9, offset: 85145},
+																																				pos: position{line: 2686, col: 9, offset: 86211},
 																																				run: (*parser).callonDocumentFragment1244,
 																																				expr: &seqExpr{
-																																					pos: position{line: 2671, col: 9, offset: 85145},
+																																					pos: position{line: 2686, col: 9, offset: 86211},
 																																					exprs: []interface{}{
 																																						&notExpr{
-																																							pos: position{line: 2671, col: 9, offset: 85145},
+																																							pos: position{line: 2686, col: 9, offset: 86211},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2627, col: 22, offset: 84089},
+																																								pos: position{line: 2642, col: 22, offset: 85155},
 																																								alternatives: []interface{}{
 																																									&seqExpr{
-																																										pos: position{line: 2623, col: 19, offset: 84009},
+																																										pos: position{line: 2638, col: 19, offset: 85075},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2623, col: 19, offset: 84009},
+																																												pos:        position{line: 2638, col: 19, offset: 85075},
 																																												val:        "|===",
 																																												ignoreCase: false,
 																																												want:       "\"|===\"",
 																																											},
 																																											&zeroOrMoreExpr{
-																																												pos: position{line: 2623, col: 26, offset: 84016},
+																																												pos: position{line: 2638, col: 26, offset: 85082},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2888, col: 10, offset: 91535},
+																																													pos: position{line: 2903, col: 10, offset: 92601},
 																																													run: (*parser).callonDocumentFragment1251,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2888, col: 10, offset: 91535},
+																																														pos:        position{line: 2903, col: 10, offset: 92601},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -9839,28 +9839,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2910, col: 8, offset: 91933},
+																																												pos: position{line: 2925, col: 8, offset: 92999},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2897, col: 12, offset: 91706},
+																																														pos: position{line: 2912, col: 12, offset: 92772},
 																																														run: (*parser).callonDocumentFragment1254,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2897, col: 13, offset: 91707},
+																																															pos: position{line: 2912, col: 13, offset: 92773},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2897, col: 13, offset: 91707},
+																																																	pos:        position{line: 2912, col: 13, offset: 92773},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2897, col: 20, offset: 91714},
+																																																	pos:        position{line: 2912, col: 20, offset: 92780},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2897, col: 29, offset: 91723},
+																																																	pos:        position{line: 2912, col: 29, offset: 92789},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -9869,9 +9869,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2907, col: 8, offset: 91883},
+																																														pos: position{line: 2922, col: 8, offset: 92949},
 																																														expr: &anyMatcher{
-																																															line: 2907, col: 9, offset: 91884,
+																																															line: 2922, col: 9, offset: 92950,
 																																														},
 																																													},
 																																												},
@@ -9879,16 +9879,16 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2907, col: 8, offset: 91883},
+																																										pos: position{line: 2922, col: 8, offset: 92949},
 																																										expr: &anyMatcher{
-																																											line: 2907, col: 9, offset: 91884,
+																																											line: 2922, col: 9, offset: 92950,
 																																										},
 																																									},
 																																								},
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2672, col: 9, offset: 85172},
+																																							pos: position{line: 2687, col: 9, offset: 86238},
 																																							expr: &actionExpr{
 																																								pos: position{line: 677, col: 14, offset: 21525},
 																																								run: (*parser).callonDocumentFragment1264,
@@ -9896,18 +9896,18 @@ var g = &grammar{
 																																									pos: position{line: 677, col: 14, offset: 21525},
 																																									exprs: []interface{}{
 																																										&andExpr{
-																																											pos: position{line: 2905, col: 11, offset: 91869},
+																																											pos: position{line: 2920, col: 11, offset: 92935},
 																																											expr: &anyMatcher{
-																																												line: 2905, col: 13, offset: 91871,
+																																												line: 2920, col: 13, offset: 92937,
 																																											},
 																																										},
 																																										&zeroOrMoreExpr{
 																																											pos: position{line: 677, col: 21, offset: 21532},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2888, col: 10, offset: 91535},
+																																												pos: position{line: 2903, col: 10, offset: 92601},
 																																												run: (*parser).callonDocumentFragment1269,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2888, col: 10, offset: 91535},
+																																													pos:        position{line: 2903, col: 10, offset: 92601},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -9916,28 +9916,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2910, col: 8, offset: 91933},
+																																											pos: position{line: 2925, col: 8, offset: 92999},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2897, col: 12, offset: 91706},
+																																													pos: position{line: 2912, col: 12, offset: 92772},
 																																													run: (*parser).callonDocumentFragment1272,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2897, col: 13, offset: 91707},
+																																														pos: position{line: 2912, col: 13, offset: 92773},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2897, col: 13, offset: 91707},
+																																																pos:        position{line: 2912, col: 13, offset: 92773},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2897, col: 20, offset: 91714},
+																																																pos:        position{line: 2912, col: 20, offset: 92780},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2897, col: 29, offset: 91723},
+																																																pos:        position{line: 2912, col: 29, offset: 92789},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -9946,9 +9946,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2907, col: 8, offset: 91883},
+																																													pos: position{line: 2922, col: 8, offset: 92949},
 																																													expr: &anyMatcher{
-																																														line: 2907, col: 9, offset: 91884,
+																																														line: 2922, col: 9, offset: 92950,
 																																													},
 																																												},
 																																											},
@@ -9958,22 +9958,22 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2673, col: 9, offset: 85191},
+																																							pos: position{line: 2688, col: 9, offset: 86257},
 																																							expr: &seqExpr{
-																																								pos: position{line: 2673, col: 11, offset: 85193},
+																																								pos: position{line: 2688, col: 11, offset: 86259},
 																																								exprs: []interface{}{
 																																									&labeledExpr{
-																																										pos:   position{line: 2673, col: 11, offset: 85193},
+																																										pos:   position{line: 2688, col: 11, offset: 86259},
 																																										label: "format",
 																																										expr: &zeroOrOneExpr{
-																																											pos: position{line: 2673, col: 18, offset: 85200},
+																																											pos: position{line: 2688, col: 18, offset: 86266},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2681, col: 20, offset: 85401},
+																																												pos: position{line: 2696, col: 20, offset: 86467},
 																																												run: (*parser).callonDocumentFragment1283,
 																																												expr: &zeroOrMoreExpr{
-																																													pos: position{line: 2681, col: 20, offset: 85401},
+																																													pos: position{line: 2696, col: 20, offset: 86467},
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2681, col: 20, offset: 85401},
+																																														pos:        position{line: 2696, col: 20, offset: 86467},
 																																														val:        "[^ |\\r\\n]",
 																																														chars:      []rune{' ', '|', '\r', '\n'},
 																																														ignoreCase: false,
@@ -9984,7 +9984,7 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2673, col: 37, offset: 85219},
+																																										pos:        position{line: 2688, col: 37, offset: 86285},
 																																										val:        "|",
 																																										ignoreCase: false,
 																																										want:       "\"|\"",
@@ -9993,15 +9993,15 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&labeledExpr{
-																																							pos:   position{line: 2674, col: 9, offset: 85232},
+																																							pos:   position{line: 2689, col: 9, offset: 86298},
 																																							label: "content",
 																																							expr: &actionExpr{
-																																								pos: position{line: 2674, col: 18, offset: 85241},
+																																								pos: position{line: 2689, col: 18, offset: 86307},
 																																								run: (*parser).callonDocumentFragment1288,
 																																								expr: &zeroOrMoreExpr{
-																																									pos: position{line: 2674, col: 18, offset: 85241},
+																																									pos: position{line: 2689, col: 18, offset: 86307},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2674, col: 18, offset: 85241},
+																																										pos:        position{line: 2689, col: 18, offset: 86307},
 																																										val:        "[^|\\r\\n]",
 																																										chars:      []rune{'|', '\r', '\n'},
 																																										ignoreCase: false,
@@ -10011,30 +10011,30 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&zeroOrOneExpr{
-																																							pos: position{line: 2676, col: 12, offset: 85303},
+																																							pos: position{line: 2691, col: 12, offset: 86369},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2910, col: 8, offset: 91933},
+																																								pos: position{line: 2925, col: 8, offset: 92999},
 																																								alternatives: []interface{}{
 																																									&actionExpr{
-																																										pos: position{line: 2897, col: 12, offset: 91706},
+																																										pos: position{line: 2912, col: 12, offset: 92772},
 																																										run: (*parser).callonDocumentFragment1293,
 																																										expr: &choiceExpr{
-																																											pos: position{line: 2897, col: 13, offset: 91707},
+																																											pos: position{line: 2912, col: 13, offset: 92773},
 																																											alternatives: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2897, col: 13, offset: 91707},
+																																													pos:        position{line: 2912, col: 13, offset: 92773},
 																																													val:        "\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2897, col: 20, offset: 91714},
+																																													pos:        position{line: 2912, col: 20, offset: 92780},
 																																													val:        "\r\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2897, col: 29, offset: 91723},
+																																													pos:        position{line: 2912, col: 29, offset: 92789},
 																																													val:        "\r",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\"",
@@ -10043,9 +10043,9 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2907, col: 8, offset: 91883},
+																																										pos: position{line: 2922, col: 8, offset: 92949},
 																																										expr: &anyMatcher{
-																																											line: 2907, col: 9, offset: 91884,
+																																											line: 2922, col: 9, offset: 92950,
 																																										},
 																																									},
 																																								},
@@ -10073,18 +10073,18 @@ var g = &grammar{
 																									pos: position{line: 677, col: 14, offset: 21525},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2905, col: 11, offset: 91869},
+																											pos: position{line: 2920, col: 11, offset: 92935},
 																											expr: &anyMatcher{
-																												line: 2905, col: 13, offset: 91871,
+																												line: 2920, col: 13, offset: 92937,
 																											},
 																										},
 																										&zeroOrMoreExpr{
 																											pos: position{line: 677, col: 21, offset: 21532},
 																											expr: &actionExpr{
-																												pos: position{line: 2888, col: 10, offset: 91535},
+																												pos: position{line: 2903, col: 10, offset: 92601},
 																												run: (*parser).callonDocumentFragment1305,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2888, col: 10, offset: 91535},
+																													pos:        position{line: 2903, col: 10, offset: 92601},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -10093,28 +10093,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2910, col: 8, offset: 91933},
+																											pos: position{line: 2925, col: 8, offset: 92999},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2897, col: 12, offset: 91706},
+																													pos: position{line: 2912, col: 12, offset: 92772},
 																													run: (*parser).callonDocumentFragment1308,
 																													expr: &choiceExpr{
-																														pos: position{line: 2897, col: 13, offset: 91707},
+																														pos: position{line: 2912, col: 13, offset: 92773},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 13, offset: 91707},
+																																pos:        position{line: 2912, col: 13, offset: 92773},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 20, offset: 91714},
+																																pos:        position{line: 2912, col: 20, offset: 92780},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 29, offset: 91723},
+																																pos:        position{line: 2912, col: 29, offset: 92789},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -10123,9 +10123,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2907, col: 8, offset: 91883},
+																													pos: position{line: 2922, col: 8, offset: 92949},
 																													expr: &anyMatcher{
-																														line: 2907, col: 9, offset: 91884,
+																														line: 2922, col: 9, offset: 92950,
 																													},
 																												},
 																											},
@@ -10144,24 +10144,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2627, col: 22, offset: 84089},
+														pos: position{line: 2642, col: 22, offset: 85155},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2623, col: 19, offset: 84009},
+																pos: position{line: 2638, col: 19, offset: 85075},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2623, col: 19, offset: 84009},
+																		pos:        position{line: 2638, col: 19, offset: 85075},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2623, col: 26, offset: 84016},
+																		pos: position{line: 2638, col: 26, offset: 85082},
 																		expr: &actionExpr{
-																			pos: position{line: 2888, col: 10, offset: 91535},
+																			pos: position{line: 2903, col: 10, offset: 92601},
 																			run: (*parser).callonDocumentFragment1319,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2888, col: 10, offset: 91535},
+																				pos:        position{line: 2903, col: 10, offset: 92601},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10170,28 +10170,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2910, col: 8, offset: 91933},
+																		pos: position{line: 2925, col: 8, offset: 92999},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2897, col: 12, offset: 91706},
+																				pos: position{line: 2912, col: 12, offset: 92772},
 																				run: (*parser).callonDocumentFragment1322,
 																				expr: &choiceExpr{
-																					pos: position{line: 2897, col: 13, offset: 91707},
+																					pos: position{line: 2912, col: 13, offset: 92773},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 13, offset: 91707},
+																							pos:        position{line: 2912, col: 13, offset: 92773},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 20, offset: 91714},
+																							pos:        position{line: 2912, col: 20, offset: 92780},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 29, offset: 91723},
+																							pos:        position{line: 2912, col: 29, offset: 92789},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10200,9 +10200,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2907, col: 8, offset: 91883},
+																				pos: position{line: 2922, col: 8, offset: 92949},
 																				expr: &anyMatcher{
-																					line: 2907, col: 9, offset: 91884,
+																					line: 2922, col: 9, offset: 92950,
 																				},
 																			},
 																		},
@@ -10210,9 +10210,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2907, col: 8, offset: 91883},
+																pos: position{line: 2922, col: 8, offset: 92949},
 																expr: &anyMatcher{
-																	line: 2907, col: 9, offset: 91884,
+																	line: 2922, col: 9, offset: 92950,
 																},
 															},
 														},
@@ -10221,36 +10221,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2488, col: 22, offset: 80228},
+											pos: position{line: 2503, col: 22, offset: 81294},
 											run: (*parser).callonDocumentFragment1331,
 											expr: &seqExpr{
-												pos: position{line: 2488, col: 22, offset: 80228},
+												pos: position{line: 2503, col: 22, offset: 81294},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2493, col: 31, offset: 80449},
+														pos:        position{line: 2508, col: 31, offset: 81515},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2493, col: 36, offset: 80454},
+														pos: position{line: 2508, col: 36, offset: 81520},
 														expr: &litMatcher{
-															pos:        position{line: 2493, col: 37, offset: 80455},
+															pos:        position{line: 2508, col: 37, offset: 81521},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2488, col: 49, offset: 80255},
+														pos:   position{line: 2503, col: 49, offset: 81321},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2834, col: 13, offset: 90061},
+															pos: position{line: 2849, col: 13, offset: 91127},
 															run: (*parser).callonDocumentFragment1337,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2834, col: 13, offset: 90061},
+																pos: position{line: 2849, col: 13, offset: 91127},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2834, col: 13, offset: 90061},
+																	pos:        position{line: 2849, col: 13, offset: 91127},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10260,28 +10260,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2910, col: 8, offset: 91933},
+														pos: position{line: 2925, col: 8, offset: 92999},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2897, col: 12, offset: 91706},
+																pos: position{line: 2912, col: 12, offset: 92772},
 																run: (*parser).callonDocumentFragment1341,
 																expr: &choiceExpr{
-																	pos: position{line: 2897, col: 13, offset: 91707},
+																	pos: position{line: 2912, col: 13, offset: 92773},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2897, col: 13, offset: 91707},
+																			pos:        position{line: 2912, col: 13, offset: 92773},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2897, col: 20, offset: 91714},
+																			pos:        position{line: 2912, col: 20, offset: 92780},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2897, col: 29, offset: 91723},
+																			pos:        position{line: 2912, col: 29, offset: 92789},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10290,9 +10290,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2907, col: 8, offset: 91883},
+																pos: position{line: 2922, col: 8, offset: 92949},
 																expr: &anyMatcher{
-																	line: 2907, col: 9, offset: 91884,
+																	line: 2922, col: 9, offset: 92950,
 																},
 															},
 														},
@@ -10328,10 +10328,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1239, col: 36, offset: 38364},
 																		expr: &actionExpr{
-																			pos: position{line: 2888, col: 10, offset: 91535},
+																			pos: position{line: 2903, col: 10, offset: 92601},
 																			run: (*parser).callonDocumentFragment1356,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2888, col: 10, offset: 91535},
+																				pos:        position{line: 2903, col: 10, offset: 92601},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10340,28 +10340,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2910, col: 8, offset: 91933},
+																		pos: position{line: 2925, col: 8, offset: 92999},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2897, col: 12, offset: 91706},
+																				pos: position{line: 2912, col: 12, offset: 92772},
 																				run: (*parser).callonDocumentFragment1359,
 																				expr: &choiceExpr{
-																					pos: position{line: 2897, col: 13, offset: 91707},
+																					pos: position{line: 2912, col: 13, offset: 92773},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 13, offset: 91707},
+																							pos:        position{line: 2912, col: 13, offset: 92773},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 20, offset: 91714},
+																							pos:        position{line: 2912, col: 20, offset: 92780},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 29, offset: 91723},
+																							pos:        position{line: 2912, col: 29, offset: 92789},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10370,9 +10370,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2907, col: 8, offset: 91883},
+																				pos: position{line: 2922, col: 8, offset: 92949},
 																				expr: &anyMatcher{
-																					line: 2907, col: 9, offset: 91884,
+																					line: 2922, col: 9, offset: 92950,
 																				},
 																			},
 																		},
@@ -10406,10 +10406,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 1239, col: 36, offset: 38364},
 																												expr: &actionExpr{
-																													pos: position{line: 2888, col: 10, offset: 91535},
+																													pos: position{line: 2903, col: 10, offset: 92601},
 																													run: (*parser).callonDocumentFragment1376,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2888, col: 10, offset: 91535},
+																														pos:        position{line: 2903, col: 10, offset: 92601},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -10418,28 +10418,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2910, col: 8, offset: 91933},
+																												pos: position{line: 2925, col: 8, offset: 92999},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2897, col: 12, offset: 91706},
+																														pos: position{line: 2912, col: 12, offset: 92772},
 																														run: (*parser).callonDocumentFragment1379,
 																														expr: &choiceExpr{
-																															pos: position{line: 2897, col: 13, offset: 91707},
+																															pos: position{line: 2912, col: 13, offset: 92773},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2897, col: 13, offset: 91707},
+																																	pos:        position{line: 2912, col: 13, offset: 92773},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2897, col: 20, offset: 91714},
+																																	pos:        position{line: 2912, col: 20, offset: 92780},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2897, col: 29, offset: 91723},
+																																	pos:        position{line: 2912, col: 29, offset: 92789},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -10448,9 +10448,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2907, col: 8, offset: 91883},
+																														pos: position{line: 2922, col: 8, offset: 92949},
 																														expr: &anyMatcher{
-																															line: 2907, col: 9, offset: 91884,
+																															line: 2922, col: 9, offset: 92950,
 																														},
 																													},
 																												},
@@ -10477,10 +10477,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1239, col: 36, offset: 38364},
 																		expr: &actionExpr{
-																			pos: position{line: 2888, col: 10, offset: 91535},
+																			pos: position{line: 2903, col: 10, offset: 92601},
 																			run: (*parser).callonDocumentFragment1389,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2888, col: 10, offset: 91535},
+																				pos:        position{line: 2903, col: 10, offset: 92601},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10489,28 +10489,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2910, col: 8, offset: 91933},
+																		pos: position{line: 2925, col: 8, offset: 92999},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2897, col: 12, offset: 91706},
+																				pos: position{line: 2912, col: 12, offset: 92772},
 																				run: (*parser).callonDocumentFragment1392,
 																				expr: &choiceExpr{
-																					pos: position{line: 2897, col: 13, offset: 91707},
+																					pos: position{line: 2912, col: 13, offset: 92773},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 13, offset: 91707},
+																							pos:        position{line: 2912, col: 13, offset: 92773},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 20, offset: 91714},
+																							pos:        position{line: 2912, col: 20, offset: 92780},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 29, offset: 91723},
+																							pos:        position{line: 2912, col: 29, offset: 92789},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10519,9 +10519,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2907, col: 8, offset: 91883},
+																				pos: position{line: 2922, col: 8, offset: 92949},
 																				expr: &anyMatcher{
-																					line: 2907, col: 9, offset: 91884,
+																					line: 2922, col: 9, offset: 92950,
 																				},
 																			},
 																		},
@@ -10578,9 +10578,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2907, col: 8, offset: 91883},
+							pos: position{line: 2922, col: 8, offset: 92949},
 							expr: &anyMatcher{
-								line: 2907, col: 9, offset: 91884,
+								line: 2922, col: 9, offset: 92950,
 							},
 						},
 					},
@@ -10652,12 +10652,12 @@ var g = &grammar{
 										pos: position{line: 304, col: 9, offset: 9170},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2892, col: 11, offset: 91596},
+												pos: position{line: 2907, col: 11, offset: 92662},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2892, col: 11, offset: 91596},
+													pos: position{line: 2907, col: 11, offset: 92662},
 													expr: &charClassMatcher{
-														pos:        position{line: 2892, col: 11, offset: 91596},
+														pos:        position{line: 2907, col: 11, offset: 92662},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10681,10 +10681,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 309, col: 5, offset: 9350},
 							expr: &actionExpr{
-								pos: position{line: 2888, col: 10, offset: 91535},
+								pos: position{line: 2903, col: 10, offset: 92601},
 								run: (*parser).callonAttributeDeclaration21,
 								expr: &charClassMatcher{
-									pos:        position{line: 2888, col: 10, offset: 91535},
+									pos:        position{line: 2903, col: 10, offset: 92601},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -10693,28 +10693,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2910, col: 8, offset: 91933},
+							pos: position{line: 2925, col: 8, offset: 92999},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2897, col: 12, offset: 91706},
+									pos: position{line: 2912, col: 12, offset: 92772},
 									run: (*parser).callonAttributeDeclaration24,
 									expr: &choiceExpr{
-										pos: position{line: 2897, col: 13, offset: 91707},
+										pos: position{line: 2912, col: 13, offset: 92773},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2897, col: 13, offset: 91707},
+												pos:        position{line: 2912, col: 13, offset: 92773},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2897, col: 20, offset: 91714},
+												pos:        position{line: 2912, col: 20, offset: 92780},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2897, col: 29, offset: 91723},
+												pos:        position{line: 2912, col: 29, offset: 92789},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10723,9 +10723,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2907, col: 8, offset: 91883},
+									pos: position{line: 2922, col: 8, offset: 92949},
 									expr: &anyMatcher{
-										line: 2907, col: 9, offset: 91884,
+										line: 2922, col: 9, offset: 92950,
 									},
 								},
 							},
@@ -10771,10 +10771,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 324, col: 14, offset: 9848},
 												expr: &actionExpr{
-													pos: position{line: 2888, col: 10, offset: 91535},
+													pos: position{line: 2903, col: 10, offset: 92601},
 													run: (*parser).callonAttributeDeclarationValue11,
 													expr: &charClassMatcher{
-														pos:        position{line: 2888, col: 10, offset: 91535},
+														pos:        position{line: 2903, col: 10, offset: 92601},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10783,25 +10783,25 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 2897, col: 12, offset: 91706},
+												pos: position{line: 2912, col: 12, offset: 92772},
 												run: (*parser).callonAttributeDeclarationValue13,
 												expr: &choiceExpr{
-													pos: position{line: 2897, col: 13, offset: 91707},
+													pos: position{line: 2912, col: 13, offset: 92773},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2897, col: 13, offset: 91707},
+															pos:        position{line: 2912, col: 13, offset: 92773},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2897, col: 20, offset: 91714},
+															pos:        position{line: 2912, col: 20, offset: 92780},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2897, col: 29, offset: 91723},
+															pos:        position{line: 2912, col: 29, offset: 92789},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10812,10 +10812,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 325, col: 9, offset: 9872},
 												expr: &actionExpr{
-													pos: position{line: 2888, col: 10, offset: 91535},
+													pos: position{line: 2903, col: 10, offset: 92601},
 													run: (*parser).callonAttributeDeclarationValue19,
 													expr: &charClassMatcher{
-														pos:        position{line: 2888, col: 10, offset: 91535},
+														pos:        position{line: 2903, col: 10, offset: 92601},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10885,10 +10885,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 343, col: 13, offset: 10417},
 										expr: &actionExpr{
-											pos: position{line: 2888, col: 10, offset: 91535},
+											pos: position{line: 2903, col: 10, offset: 92601},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2888, col: 10, offset: 91535},
+												pos:        position{line: 2903, col: 10, offset: 92601},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10897,28 +10897,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2910, col: 8, offset: 91933},
+										pos: position{line: 2925, col: 8, offset: 92999},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2897, col: 12, offset: 91706},
+												pos: position{line: 2912, col: 12, offset: 92772},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2897, col: 13, offset: 91707},
+													pos: position{line: 2912, col: 13, offset: 92773},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2897, col: 13, offset: 91707},
+															pos:        position{line: 2912, col: 13, offset: 92773},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2897, col: 20, offset: 91714},
+															pos:        position{line: 2912, col: 20, offset: 92780},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2897, col: 29, offset: 91723},
+															pos:        position{line: 2912, col: 29, offset: 92789},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10927,9 +10927,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2907, col: 8, offset: 91883},
+												pos: position{line: 2922, col: 8, offset: 92949},
 												expr: &anyMatcher{
-													line: 2907, col: 9, offset: 91884,
+													line: 2922, col: 9, offset: 92950,
 												},
 											},
 										},
@@ -10962,23 +10962,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2475, col: 5, offset: 79774},
+										pos: position{line: 2490, col: 5, offset: 80840},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2475, col: 5, offset: 79774},
+											pos: position{line: 2490, col: 5, offset: 80840},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2475, col: 5, offset: 79774},
+													pos: position{line: 2490, col: 5, offset: 80840},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2478, col: 5, offset: 79850},
+													pos:   position{line: 2493, col: 5, offset: 80916},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2479, col: 9, offset: 79868},
+														pos: position{line: 2494, col: 9, offset: 80934},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2479, col: 10, offset: 79869},
+															pos:        position{line: 2494, col: 10, offset: 80935},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -10990,10 +10990,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2888, col: 10, offset: 91535},
+										pos: position{line: 2903, col: 10, offset: 92601},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2888, col: 10, offset: 91535},
+											pos:        position{line: 2903, col: 10, offset: 92601},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -11834,10 +11834,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 371, col: 35, offset: 11426},
 												expr: &actionExpr{
-													pos: position{line: 2888, col: 10, offset: 91535},
+													pos: position{line: 2903, col: 10, offset: 92601},
 													run: (*parser).callonBlockAttributes101,
 													expr: &charClassMatcher{
-														pos:        position{line: 2888, col: 10, offset: 91535},
+														pos:        position{line: 2903, col: 10, offset: 92601},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11846,28 +11846,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2910, col: 8, offset: 91933},
+												pos: position{line: 2925, col: 8, offset: 92999},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2897, col: 12, offset: 91706},
+														pos: position{line: 2912, col: 12, offset: 92772},
 														run: (*parser).callonBlockAttributes104,
 														expr: &choiceExpr{
-															pos: position{line: 2897, col: 13, offset: 91707},
+															pos: position{line: 2912, col: 13, offset: 92773},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2897, col: 13, offset: 91707},
+																	pos:        position{line: 2912, col: 13, offset: 92773},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2897, col: 20, offset: 91714},
+																	pos:        position{line: 2912, col: 20, offset: 92780},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2897, col: 29, offset: 91723},
+																	pos:        position{line: 2912, col: 29, offset: 92789},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11876,9 +11876,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2907, col: 8, offset: 91883},
+														pos: position{line: 2922, col: 8, offset: 92949},
 														expr: &anyMatcher{
-															line: 2907, col: 9, offset: 91884,
+															line: 2922, col: 9, offset: 92950,
 														},
 													},
 												},
@@ -11892,18 +11892,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21525},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2905, col: 11, offset: 91869},
+																pos: position{line: 2920, col: 11, offset: 92935},
 																expr: &anyMatcher{
-																	line: 2905, col: 13, offset: 91871,
+																	line: 2920, col: 13, offset: 92937,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21532},
 																expr: &actionExpr{
-																	pos: position{line: 2888, col: 10, offset: 91535},
+																	pos: position{line: 2903, col: 10, offset: 92601},
 																	run: (*parser).callonBlockAttributes117,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2888, col: 10, offset: 91535},
+																		pos:        position{line: 2903, col: 10, offset: 92601},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -11912,28 +11912,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2910, col: 8, offset: 91933},
+																pos: position{line: 2925, col: 8, offset: 92999},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2897, col: 12, offset: 91706},
+																		pos: position{line: 2912, col: 12, offset: 92772},
 																		run: (*parser).callonBlockAttributes120,
 																		expr: &choiceExpr{
-																			pos: position{line: 2897, col: 13, offset: 91707},
+																			pos: position{line: 2912, col: 13, offset: 92773},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2897, col: 13, offset: 91707},
+																					pos:        position{line: 2912, col: 13, offset: 92773},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2897, col: 20, offset: 91714},
+																					pos:        position{line: 2912, col: 20, offset: 92780},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2897, col: 29, offset: 91723},
+																					pos:        position{line: 2912, col: 29, offset: 92789},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -11942,9 +11942,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2907, col: 8, offset: 91883},
+																		pos: position{line: 2922, col: 8, offset: 92949},
 																		expr: &anyMatcher{
-																			line: 2907, col: 9, offset: 91884,
+																			line: 2922, col: 9, offset: 92950,
 																		},
 																	},
 																},
@@ -11996,12 +11996,12 @@ var g = &grammar{
 																		pos: position{line: 425, col: 9, offset: 13070},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2775, col: 14, offset: 88490},
+																				pos: position{line: 2790, col: 14, offset: 89556},
 																				run: (*parser).callonBlockAttributes138,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2775, col: 14, offset: 88490},
+																					pos: position{line: 2790, col: 14, offset: 89556},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2775, col: 14, offset: 88490},
+																						pos:        position{line: 2790, col: 14, offset: 89556},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -12010,10 +12010,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2888, col: 10, offset: 91535},
+																				pos: position{line: 2903, col: 10, offset: 92601},
 																				run: (*parser).callonBlockAttributes141,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2888, col: 10, offset: 91535},
+																					pos:        position{line: 2903, col: 10, offset: 92601},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -12021,27 +12021,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2805, col: 5, offset: 89189},
+																				pos: position{line: 2820, col: 5, offset: 90255},
 																				run: (*parser).callonBlockAttributes143,
 																				expr: &choiceExpr{
-																					pos: position{line: 2806, col: 9, offset: 89199},
+																					pos: position{line: 2821, col: 9, offset: 90265},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2806, col: 10, offset: 89200},
+																							pos:        position{line: 2821, col: 10, offset: 90266},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2808, col: 13, offset: 89297},
+																							pos: position{line: 2823, col: 13, offset: 90363},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2808, col: 13, offset: 89297},
+																									pos: position{line: 2823, col: 13, offset: 90363},
 																									run: (*parser).callonBlockAttributes147,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2811, col: 13, offset: 89397},
+																									pos:        position{line: 2826, col: 13, offset: 90463},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -12049,20 +12049,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2811, col: 19, offset: 89403},
+																							pos:        position{line: 2826, col: 19, offset: 90469},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2814, col: 13, offset: 89441},
+																							pos: position{line: 2829, col: 13, offset: 90507},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2814, col: 13, offset: 89441},
+																									pos: position{line: 2829, col: 13, offset: 90507},
 																									run: (*parser).callonBlockAttributes151,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2817, col: 14, offset: 89534},
+																									pos:        position{line: 2832, col: 14, offset: 90600},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -12071,18 +12071,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2819, col: 12, offset: 89578},
+																							pos: position{line: 2834, col: 12, offset: 90644},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2819, col: 12, offset: 89578},
+																									pos:        position{line: 2834, col: 12, offset: 90644},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2819, col: 16, offset: 89582},
+																									pos: position{line: 2834, col: 16, offset: 90648},
 																									expr: &litMatcher{
-																										pos:        position{line: 2819, col: 17, offset: 89583},
+																										pos:        position{line: 2834, col: 17, offset: 90649},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12418,10 +12418,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2827, col: 12, offset: 89843},
+																				pos: position{line: 2842, col: 12, offset: 90909},
 																				run: (*parser).callonBlockAttributes221,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2827, col: 12, offset: 89843},
+																					pos:        position{line: 2842, col: 12, offset: 90909},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12439,10 +12439,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 375, col: 35, offset: 11581},
 												expr: &actionExpr{
-													pos: position{line: 2888, col: 10, offset: 91535},
+													pos: position{line: 2903, col: 10, offset: 92601},
 													run: (*parser).callonBlockAttributes224,
 													expr: &charClassMatcher{
-														pos:        position{line: 2888, col: 10, offset: 91535},
+														pos:        position{line: 2903, col: 10, offset: 92601},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12451,28 +12451,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2910, col: 8, offset: 91933},
+												pos: position{line: 2925, col: 8, offset: 92999},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2897, col: 12, offset: 91706},
+														pos: position{line: 2912, col: 12, offset: 92772},
 														run: (*parser).callonBlockAttributes227,
 														expr: &choiceExpr{
-															pos: position{line: 2897, col: 13, offset: 91707},
+															pos: position{line: 2912, col: 13, offset: 92773},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2897, col: 13, offset: 91707},
+																	pos:        position{line: 2912, col: 13, offset: 92773},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2897, col: 20, offset: 91714},
+																	pos:        position{line: 2912, col: 20, offset: 92780},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2897, col: 29, offset: 91723},
+																	pos:        position{line: 2912, col: 29, offset: 92789},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12481,9 +12481,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2907, col: 8, offset: 91883},
+														pos: position{line: 2922, col: 8, offset: 92949},
 														expr: &anyMatcher{
-															line: 2907, col: 9, offset: 91884,
+															line: 2922, col: 9, offset: 92950,
 														},
 													},
 												},
@@ -12497,18 +12497,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21525},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2905, col: 11, offset: 91869},
+																pos: position{line: 2920, col: 11, offset: 92935},
 																expr: &anyMatcher{
-																	line: 2905, col: 13, offset: 91871,
+																	line: 2920, col: 13, offset: 92937,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21532},
 																expr: &actionExpr{
-																	pos: position{line: 2888, col: 10, offset: 91535},
+																	pos: position{line: 2903, col: 10, offset: 92601},
 																	run: (*parser).callonBlockAttributes240,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2888, col: 10, offset: 91535},
+																		pos:        position{line: 2903, col: 10, offset: 92601},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12517,28 +12517,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2910, col: 8, offset: 91933},
+																pos: position{line: 2925, col: 8, offset: 92999},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2897, col: 12, offset: 91706},
+																		pos: position{line: 2912, col: 12, offset: 92772},
 																		run: (*parser).callonBlockAttributes243,
 																		expr: &choiceExpr{
-																			pos: position{line: 2897, col: 13, offset: 91707},
+																			pos: position{line: 2912, col: 13, offset: 92773},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2897, col: 13, offset: 91707},
+																					pos:        position{line: 2912, col: 13, offset: 92773},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2897, col: 20, offset: 91714},
+																					pos:        position{line: 2912, col: 20, offset: 92780},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2897, col: 29, offset: 91723},
+																					pos:        position{line: 2912, col: 29, offset: 92789},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12547,9 +12547,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2907, col: 8, offset: 91883},
+																		pos: position{line: 2922, col: 8, offset: 92949},
 																		expr: &anyMatcher{
-																			line: 2907, col: 9, offset: 91884,
+																			line: 2922, col: 9, offset: 92950,
 																		},
 																	},
 																},
@@ -12571,10 +12571,10 @@ var g = &grammar{
 												pos:   position{line: 379, col: 12, offset: 11682},
 												label: "start",
 												expr: &actionExpr{
-													pos: position{line: 2913, col: 16, offset: 92057},
+													pos: position{line: 2928, col: 16, offset: 93123},
 													run: (*parser).callonBlockAttributes253,
 													expr: &litMatcher{
-														pos:        position{line: 2913, col: 16, offset: 92057},
+														pos:        position{line: 2928, col: 16, offset: 93123},
 														val:        "",
 														ignoreCase: false,
 														want:       "\"\"",
@@ -12592,10 +12592,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 379, col: 64, offset: 11734},
 												expr: &actionExpr{
-													pos: position{line: 2888, col: 10, offset: 91535},
+													pos: position{line: 2903, col: 10, offset: 92601},
 													run: (*parser).callonBlockAttributes258,
 													expr: &charClassMatcher{
-														pos:        position{line: 2888, col: 10, offset: 91535},
+														pos:        position{line: 2903, col: 10, offset: 92601},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12607,10 +12607,10 @@ var g = &grammar{
 												pos:   position{line: 379, col: 71, offset: 11741},
 												label: "end",
 												expr: &actionExpr{
-													pos: position{line: 2913, col: 16, offset: 92057},
+													pos: position{line: 2928, col: 16, offset: 93123},
 													run: (*parser).callonBlockAttributes261,
 													expr: &litMatcher{
-														pos:        position{line: 2913, col: 16, offset: 92057},
+														pos:        position{line: 2928, col: 16, offset: 93123},
 														val:        "",
 														ignoreCase: false,
 														want:       "\"\"",
@@ -12622,28 +12622,28 @@ var g = &grammar{
 												run: (*parser).callonBlockAttributes263,
 											},
 											&choiceExpr{
-												pos: position{line: 2910, col: 8, offset: 91933},
+												pos: position{line: 2925, col: 8, offset: 92999},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2897, col: 12, offset: 91706},
+														pos: position{line: 2912, col: 12, offset: 92772},
 														run: (*parser).callonBlockAttributes265,
 														expr: &choiceExpr{
-															pos: position{line: 2897, col: 13, offset: 91707},
+															pos: position{line: 2912, col: 13, offset: 92773},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2897, col: 13, offset: 91707},
+																	pos:        position{line: 2912, col: 13, offset: 92773},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2897, col: 20, offset: 91714},
+																	pos:        position{line: 2912, col: 20, offset: 92780},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2897, col: 29, offset: 91723},
+																	pos:        position{line: 2912, col: 29, offset: 92789},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12652,9 +12652,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2907, col: 8, offset: 91883},
+														pos: position{line: 2922, col: 8, offset: 92949},
 														expr: &anyMatcher{
-															line: 2907, col: 9, offset: 91884,
+															line: 2922, col: 9, offset: 92950,
 														},
 													},
 												},
@@ -12668,18 +12668,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21525},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2905, col: 11, offset: 91869},
+																pos: position{line: 2920, col: 11, offset: 92935},
 																expr: &anyMatcher{
-																	line: 2905, col: 13, offset: 91871,
+																	line: 2920, col: 13, offset: 92937,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21532},
 																expr: &actionExpr{
-																	pos: position{line: 2888, col: 10, offset: 91535},
+																	pos: position{line: 2903, col: 10, offset: 92601},
 																	run: (*parser).callonBlockAttributes278,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2888, col: 10, offset: 91535},
+																		pos:        position{line: 2903, col: 10, offset: 92601},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12688,28 +12688,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2910, col: 8, offset: 91933},
+																pos: position{line: 2925, col: 8, offset: 92999},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2897, col: 12, offset: 91706},
+																		pos: position{line: 2912, col: 12, offset: 92772},
 																		run: (*parser).callonBlockAttributes281,
 																		expr: &choiceExpr{
-																			pos: position{line: 2897, col: 13, offset: 91707},
+																			pos: position{line: 2912, col: 13, offset: 92773},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2897, col: 13, offset: 91707},
+																					pos:        position{line: 2912, col: 13, offset: 92773},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2897, col: 20, offset: 91714},
+																					pos:        position{line: 2912, col: 20, offset: 92780},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2897, col: 29, offset: 91723},
+																					pos:        position{line: 2912, col: 29, offset: 92789},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12718,9 +12718,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2907, col: 8, offset: 91883},
+																		pos: position{line: 2922, col: 8, offset: 92949},
 																		expr: &anyMatcher{
-																			line: 2907, col: 9, offset: 91884,
+																			line: 2922, col: 9, offset: 92950,
 																		},
 																	},
 																},
@@ -12968,10 +12968,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 466, col: 13, offset: 14565},
 										expr: &actionExpr{
-											pos: position{line: 2888, col: 10, offset: 91535},
+											pos: position{line: 2903, col: 10, offset: 92601},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2888, col: 10, offset: 91535},
+												pos:        position{line: 2903, col: 10, offset: 92601},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13503,10 +13503,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 518, col: 9, offset: 16147},
 													expr: &actionExpr{
-														pos: position{line: 2888, col: 10, offset: 91535},
+														pos: position{line: 2903, col: 10, offset: 92601},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2888, col: 10, offset: 91535},
+															pos:        position{line: 2903, col: 10, offset: 92601},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13567,10 +13567,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 524, col: 34, offset: 16290},
 														expr: &actionExpr{
-															pos: position{line: 2888, col: 10, offset: 91535},
+															pos: position{line: 2903, col: 10, offset: 92601},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2888, col: 10, offset: 91535},
+																pos:        position{line: 2903, col: 10, offset: 92601},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13610,10 +13610,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 529, col: 13, offset: 16454},
 												expr: &actionExpr{
-													pos: position{line: 2888, col: 10, offset: 91535},
+													pos: position{line: 2903, col: 10, offset: 92601},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2888, col: 10, offset: 91535},
+														pos:        position{line: 2903, col: 10, offset: 92601},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13636,10 +13636,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 529, col: 26, offset: 16467},
 																expr: &actionExpr{
-																	pos: position{line: 2888, col: 10, offset: 91535},
+																	pos: position{line: 2903, col: 10, offset: 92601},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2888, col: 10, offset: 91535},
+																		pos:        position{line: 2903, col: 10, offset: 92601},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13694,10 +13694,10 @@ var g = &grammar{
 										&notExpr{
 											pos: position{line: 549, col: 22, offset: 17114},
 											expr: &actionExpr{
-												pos: position{line: 2888, col: 10, offset: 91535},
+												pos: position{line: 2903, col: 10, offset: 92601},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2888, col: 10, offset: 91535},
+													pos:        position{line: 2903, col: 10, offset: 92601},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13728,10 +13728,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 542, col: 9, offset: 16859},
 							expr: &actionExpr{
-								pos: position{line: 2888, col: 10, offset: 91535},
+								pos: position{line: 2903, col: 10, offset: 92601},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2888, col: 10, offset: 91535},
+									pos:        position{line: 2903, col: 10, offset: 92601},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13761,10 +13761,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 543, col: 33, offset: 16899},
 										expr: &actionExpr{
-											pos: position{line: 2888, col: 10, offset: 91535},
+											pos: position{line: 2903, col: 10, offset: 92601},
 											run: (*parser).callonNamedAttribute21,
 											expr: &charClassMatcher{
-												pos:        position{line: 2888, col: 10, offset: 91535},
+												pos:        position{line: 2903, col: 10, offset: 92601},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13819,10 +13819,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 559, col: 9, offset: 17331},
 											expr: &actionExpr{
-												pos: position{line: 2888, col: 10, offset: 91535},
+												pos: position{line: 2903, col: 10, offset: 92601},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2888, col: 10, offset: 91535},
+													pos:        position{line: 2903, col: 10, offset: 92601},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13901,12 +13901,12 @@ var g = &grammar{
 							pos: position{line: 572, col: 9, offset: 17648},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2775, col: 14, offset: 88490},
+									pos: position{line: 2790, col: 14, offset: 89556},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2775, col: 14, offset: 88490},
+										pos: position{line: 2790, col: 14, offset: 89556},
 										expr: &charClassMatcher{
-											pos:        position{line: 2775, col: 14, offset: 88490},
+											pos:        position{line: 2790, col: 14, offset: 89556},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -13915,10 +13915,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2888, col: 10, offset: 91535},
+									pos: position{line: 2903, col: 10, offset: 92601},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2888, col: 10, offset: 91535},
+										pos:        position{line: 2903, col: 10, offset: 92601},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14375,10 +14375,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 592, col: 14, offset: 18388},
 											expr: &actionExpr{
-												pos: position{line: 2888, col: 10, offset: 91535},
+												pos: position{line: 2903, col: 10, offset: 92601},
 												run: (*parser).callonDoubleQuotedAttributeValue13,
 												expr: &charClassMatcher{
-													pos:        position{line: 2888, col: 10, offset: 91535},
+													pos:        position{line: 2903, col: 10, offset: 92601},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14415,12 +14415,12 @@ var g = &grammar{
 							pos: position{line: 598, col: 9, offset: 18499},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2775, col: 14, offset: 88490},
+									pos: position{line: 2790, col: 14, offset: 89556},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2775, col: 14, offset: 88490},
+										pos: position{line: 2790, col: 14, offset: 89556},
 										expr: &charClassMatcher{
-											pos:        position{line: 2775, col: 14, offset: 88490},
+											pos:        position{line: 2790, col: 14, offset: 89556},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14429,10 +14429,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2888, col: 10, offset: 91535},
+									pos: position{line: 2903, col: 10, offset: 92601},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2888, col: 10, offset: 91535},
+										pos:        position{line: 2903, col: 10, offset: 92601},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14859,10 +14859,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 619, col: 5, offset: 19355},
 							expr: &actionExpr{
-								pos: position{line: 2888, col: 10, offset: 91535},
+								pos: position{line: 2903, col: 10, offset: 92601},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2888, col: 10, offset: 91535},
+									pos:        position{line: 2903, col: 10, offset: 92601},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -15252,10 +15252,10 @@ var g = &grammar{
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2888, col: 10, offset: 91535},
+											pos: position{line: 2903, col: 10, offset: 92601},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2888, col: 10, offset: 91535},
+												pos:        position{line: 2903, col: 10, offset: 92601},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -15306,12 +15306,12 @@ var g = &grammar{
 									pos:   position{line: 686, col: 32, offset: 21885},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2873, col: 7, offset: 91187},
+										pos: position{line: 2888, col: 7, offset: 92253},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2873, col: 7, offset: 91187},
+											pos: position{line: 2888, col: 7, offset: 92253},
 											expr: &charClassMatcher{
-												pos:        position{line: 2873, col: 7, offset: 91187},
+												pos:        position{line: 2888, col: 7, offset: 92253},
 												val:        "[^[]<>,\\r\\n]",
 												chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 												ignoreCase: false,
@@ -15323,10 +15323,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 686, col: 40, offset: 21893},
 									expr: &actionExpr{
-										pos: position{line: 2888, col: 10, offset: 91535},
+										pos: position{line: 2903, col: 10, offset: 92601},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2888, col: 10, offset: 91535},
+											pos:        position{line: 2903, col: 10, offset: 92601},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15343,10 +15343,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 686, col: 51, offset: 21904},
 									expr: &actionExpr{
-										pos: position{line: 2888, col: 10, offset: 91535},
+										pos: position{line: 2903, col: 10, offset: 92601},
 										run: (*parser).callonCrossReference14,
 										expr: &charClassMatcher{
-											pos:        position{line: 2888, col: 10, offset: 91535},
+											pos:        position{line: 2903, col: 10, offset: 92601},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15739,12 +15739,12 @@ var g = &grammar{
 									pos:   position{line: 688, col: 14, offset: 22017},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2873, col: 7, offset: 91187},
+										pos: position{line: 2888, col: 7, offset: 92253},
 										run: (*parser).callonCrossReference93,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2873, col: 7, offset: 91187},
+											pos: position{line: 2888, col: 7, offset: 92253},
 											expr: &charClassMatcher{
-												pos:        position{line: 2873, col: 7, offset: 91187},
+												pos:        position{line: 2888, col: 7, offset: 92253},
 												val:        "[^[]<>,\\r\\n]",
 												chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 												ignoreCase: false,
@@ -15788,41 +15788,41 @@ var g = &grammar{
 							pos:   position{line: 692, col: 35, offset: 22130},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2842, col: 17, offset: 90198},
+								pos: position{line: 2857, col: 17, offset: 91264},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2842, col: 17, offset: 90198},
+									pos:   position{line: 2857, col: 17, offset: 91264},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2859, col: 5, offset: 90652},
+										pos: position{line: 2874, col: 5, offset: 91718},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2859, col: 5, offset: 90652},
+											pos:   position{line: 2874, col: 5, offset: 91718},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2859, col: 14, offset: 90661},
+												pos: position{line: 2874, col: 14, offset: 91727},
 												expr: &choiceExpr{
-													pos: position{line: 2860, col: 9, offset: 90671},
+													pos: position{line: 2875, col: 9, offset: 91737},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2860, col: 9, offset: 90671},
+															pos: position{line: 2875, col: 9, offset: 91737},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2860, col: 9, offset: 90671},
+																pos: position{line: 2875, col: 9, offset: 91737},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2860, col: 9, offset: 90671},
+																		pos: position{line: 2875, col: 9, offset: 91737},
 																		expr: &litMatcher{
-																			pos:        position{line: 2860, col: 10, offset: 90672},
+																			pos:        position{line: 2875, col: 10, offset: 91738},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2861, col: 9, offset: 90700},
+																		pos: position{line: 2876, col: 9, offset: 91766},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2861, col: 10, offset: 90701},
+																			pos:        position{line: 2876, col: 10, offset: 91767},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -15833,27 +15833,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2864, col: 11, offset: 90913},
+															pos: position{line: 2879, col: 11, offset: 91979},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2864, col: 11, offset: 90913},
+																	pos:        position{line: 2879, col: 11, offset: 91979},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2864, col: 19, offset: 90921},
+																	pos: position{line: 2879, col: 19, offset: 91987},
 																	expr: &seqExpr{
-																		pos: position{line: 2864, col: 21, offset: 90923},
+																		pos: position{line: 2879, col: 21, offset: 91989},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2864, col: 21, offset: 90923},
+																				pos: position{line: 2879, col: 21, offset: 91989},
 																				expr: &actionExpr{
-																					pos: position{line: 2888, col: 10, offset: 91535},
+																					pos: position{line: 2903, col: 10, offset: 92601},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2888, col: 10, offset: 91535},
+																						pos:        position{line: 2903, col: 10, offset: 92601},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -15862,11 +15862,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2864, col: 28, offset: 90930},
+																				pos: position{line: 2879, col: 28, offset: 91996},
 																				expr: &notExpr{
-																					pos: position{line: 2907, col: 8, offset: 91883},
+																					pos: position{line: 2922, col: 8, offset: 92949},
 																					expr: &anyMatcher{
-																						line: 2907, col: 9, offset: 91884,
+																						line: 2922, col: 9, offset: 92950,
 																					},
 																				},
 																			},
@@ -16265,10 +16265,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2867, col: 11, offset: 91050},
+															pos: position{line: 2882, col: 11, offset: 92116},
 															run: (*parser).callonExternalCrossReference105,
 															expr: &litMatcher{
-																pos:        position{line: 2867, col: 11, offset: 91050},
+																pos:        position{line: 2882, col: 11, offset: 92116},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -16313,12 +16313,12 @@ var g = &grammar{
 							pos:   position{line: 990, col: 11, offset: 30870},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2838, col: 14, offset: 90128},
+								pos: position{line: 2853, col: 14, offset: 91194},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2838, col: 14, offset: 90128},
+									pos: position{line: 2853, col: 14, offset: 91194},
 									expr: &charClassMatcher{
-										pos:        position{line: 2838, col: 14, offset: 90128},
+										pos:        position{line: 2853, col: 14, offset: 91194},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -16328,28 +16328,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2910, col: 8, offset: 91933},
+							pos: position{line: 2925, col: 8, offset: 92999},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2897, col: 12, offset: 91706},
+									pos: position{line: 2912, col: 12, offset: 92772},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2897, col: 13, offset: 91707},
+										pos: position{line: 2912, col: 13, offset: 92773},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2897, col: 13, offset: 91707},
+												pos:        position{line: 2912, col: 13, offset: 92773},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2897, col: 20, offset: 91714},
+												pos:        position{line: 2912, col: 20, offset: 92780},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2897, col: 29, offset: 91723},
+												pos:        position{line: 2912, col: 29, offset: 92789},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -16358,9 +16358,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2907, col: 8, offset: 91883},
+									pos: position{line: 2922, col: 8, offset: 92949},
 									expr: &anyMatcher{
-										line: 2907, col: 9, offset: 91884,
+										line: 2922, col: 9, offset: 92950,
 									},
 								},
 							},
@@ -16388,36 +16388,36 @@ var g = &grammar{
 								pos: position{line: 1105, col: 6, offset: 33872},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2488, col: 22, offset: 80228},
+										pos: position{line: 2503, col: 22, offset: 81294},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2488, col: 22, offset: 80228},
+											pos: position{line: 2503, col: 22, offset: 81294},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2493, col: 31, offset: 80449},
+													pos:        position{line: 2508, col: 31, offset: 81515},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2493, col: 36, offset: 80454},
+													pos: position{line: 2508, col: 36, offset: 81520},
 													expr: &litMatcher{
-														pos:        position{line: 2493, col: 37, offset: 80455},
+														pos:        position{line: 2508, col: 37, offset: 81521},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2488, col: 49, offset: 80255},
+													pos:   position{line: 2503, col: 49, offset: 81321},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2834, col: 13, offset: 90061},
+														pos: position{line: 2849, col: 13, offset: 91127},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2834, col: 13, offset: 90061},
+															pos: position{line: 2849, col: 13, offset: 91127},
 															expr: &charClassMatcher{
-																pos:        position{line: 2834, col: 13, offset: 90061},
+																pos:        position{line: 2849, col: 13, offset: 91127},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16427,28 +16427,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2910, col: 8, offset: 91933},
+													pos: position{line: 2925, col: 8, offset: 92999},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2897, col: 12, offset: 91706},
+															pos: position{line: 2912, col: 12, offset: 92772},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2897, col: 13, offset: 91707},
+																pos: position{line: 2912, col: 13, offset: 92773},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2897, col: 13, offset: 91707},
+																		pos:        position{line: 2912, col: 13, offset: 92773},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2897, col: 20, offset: 91714},
+																		pos:        position{line: 2912, col: 20, offset: 92780},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2897, col: 29, offset: 91723},
+																		pos:        position{line: 2912, col: 29, offset: 92789},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16457,9 +16457,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2907, col: 8, offset: 91883},
+															pos: position{line: 2922, col: 8, offset: 92949},
 															expr: &anyMatcher{
-																line: 2907, col: 9, offset: 91884,
+																line: 2922, col: 9, offset: 92950,
 															},
 														},
 													},
@@ -16510,10 +16510,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 743, col: 8, offset: 23745},
 																expr: &actionExpr{
-																	pos: position{line: 2888, col: 10, offset: 91535},
+																	pos: position{line: 2903, col: 10, offset: 92601},
 																	run: (*parser).callonDocumentHeader34,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2888, col: 10, offset: 91535},
+																		pos:        position{line: 2903, col: 10, offset: 92601},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16522,28 +16522,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2910, col: 8, offset: 91933},
+																pos: position{line: 2925, col: 8, offset: 92999},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2897, col: 12, offset: 91706},
+																		pos: position{line: 2912, col: 12, offset: 92772},
 																		run: (*parser).callonDocumentHeader37,
 																		expr: &choiceExpr{
-																			pos: position{line: 2897, col: 13, offset: 91707},
+																			pos: position{line: 2912, col: 13, offset: 92773},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2897, col: 13, offset: 91707},
+																					pos:        position{line: 2912, col: 13, offset: 92773},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2897, col: 20, offset: 91714},
+																					pos:        position{line: 2912, col: 20, offset: 92780},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2897, col: 29, offset: 91723},
+																					pos:        position{line: 2912, col: 29, offset: 92789},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -16552,9 +16552,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2907, col: 8, offset: 91883},
+																		pos: position{line: 2922, col: 8, offset: 92949},
 																		expr: &anyMatcher{
-																			line: 2907, col: 9, offset: 91884,
+																			line: 2922, col: 9, offset: 92950,
 																		},
 																	},
 																},
@@ -16615,10 +16615,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 743, col: 8, offset: 23745},
 																								expr: &actionExpr{
-																									pos: position{line: 2888, col: 10, offset: 91535},
+																									pos: position{line: 2903, col: 10, offset: 92601},
 																									run: (*parser).callonDocumentHeader59,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2888, col: 10, offset: 91535},
+																										pos:        position{line: 2903, col: 10, offset: 92601},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -16627,28 +16627,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2910, col: 8, offset: 91933},
+																								pos: position{line: 2925, col: 8, offset: 92999},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2897, col: 12, offset: 91706},
+																										pos: position{line: 2912, col: 12, offset: 92772},
 																										run: (*parser).callonDocumentHeader62,
 																										expr: &choiceExpr{
-																											pos: position{line: 2897, col: 13, offset: 91707},
+																											pos: position{line: 2912, col: 13, offset: 92773},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2897, col: 13, offset: 91707},
+																													pos:        position{line: 2912, col: 13, offset: 92773},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2897, col: 20, offset: 91714},
+																													pos:        position{line: 2912, col: 20, offset: 92780},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2897, col: 29, offset: 91723},
+																													pos:        position{line: 2912, col: 29, offset: 92789},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -16657,9 +16657,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2907, col: 8, offset: 91883},
+																										pos: position{line: 2922, col: 8, offset: 92949},
 																										expr: &anyMatcher{
-																											line: 2907, col: 9, offset: 91884,
+																											line: 2922, col: 9, offset: 92950,
 																										},
 																									},
 																								},
@@ -16668,9 +16668,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2907, col: 8, offset: 91883},
+																					pos: position{line: 2922, col: 8, offset: 92949},
 																					expr: &anyMatcher{
-																						line: 2907, col: 9, offset: 91884,
+																						line: 2922, col: 9, offset: 92950,
 																					},
 																				},
 																			},
@@ -16686,21 +16686,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2905, col: 11, offset: 91869},
+																						pos: position{line: 2920, col: 11, offset: 92935},
 																						expr: &anyMatcher{
-																							line: 2905, col: 13, offset: 91871,
+																							line: 2920, col: 13, offset: 92937,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2834, col: 13, offset: 90061},
+																							pos: position{line: 2849, col: 13, offset: 91127},
 																							run: (*parser).callonDocumentHeader77,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2834, col: 13, offset: 90061},
+																								pos: position{line: 2849, col: 13, offset: 91127},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2834, col: 13, offset: 90061},
+																									pos:        position{line: 2849, col: 13, offset: 91127},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16710,28 +16710,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2910, col: 8, offset: 91933},
+																						pos: position{line: 2925, col: 8, offset: 92999},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2897, col: 12, offset: 91706},
+																								pos: position{line: 2912, col: 12, offset: 92772},
 																								run: (*parser).callonDocumentHeader81,
 																								expr: &choiceExpr{
-																									pos: position{line: 2897, col: 13, offset: 91707},
+																									pos: position{line: 2912, col: 13, offset: 92773},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 13, offset: 91707},
+																											pos:        position{line: 2912, col: 13, offset: 92773},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 20, offset: 91714},
+																											pos:        position{line: 2912, col: 20, offset: 92780},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 29, offset: 91723},
+																											pos:        position{line: 2912, col: 29, offset: 92789},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16740,9 +16740,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2907, col: 8, offset: 91883},
+																								pos: position{line: 2922, col: 8, offset: 92949},
 																								expr: &anyMatcher{
-																									line: 2907, col: 9, offset: 91884,
+																									line: 2922, col: 9, offset: 92950,
 																								},
 																							},
 																						},
@@ -16798,10 +16798,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 743, col: 8, offset: 23745},
 																			expr: &actionExpr{
-																				pos: position{line: 2888, col: 10, offset: 91535},
+																				pos: position{line: 2903, col: 10, offset: 92601},
 																				run: (*parser).callonDocumentHeader99,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2888, col: 10, offset: 91535},
+																					pos:        position{line: 2903, col: 10, offset: 92601},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -16810,28 +16810,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2910, col: 8, offset: 91933},
+																			pos: position{line: 2925, col: 8, offset: 92999},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2897, col: 12, offset: 91706},
+																					pos: position{line: 2912, col: 12, offset: 92772},
 																					run: (*parser).callonDocumentHeader102,
 																					expr: &choiceExpr{
-																						pos: position{line: 2897, col: 13, offset: 91707},
+																						pos: position{line: 2912, col: 13, offset: 92773},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2897, col: 13, offset: 91707},
+																								pos:        position{line: 2912, col: 13, offset: 92773},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2897, col: 20, offset: 91714},
+																								pos:        position{line: 2912, col: 20, offset: 92780},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2897, col: 29, offset: 91723},
+																								pos:        position{line: 2912, col: 29, offset: 92789},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -16840,9 +16840,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2907, col: 8, offset: 91883},
+																					pos: position{line: 2922, col: 8, offset: 92949},
 																					expr: &anyMatcher{
-																						line: 2907, col: 9, offset: 91884,
+																						line: 2922, col: 9, offset: 92950,
 																					},
 																				},
 																			},
@@ -16851,9 +16851,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2907, col: 8, offset: 91883},
+																pos: position{line: 2922, col: 8, offset: 92949},
 																expr: &anyMatcher{
-																	line: 2907, col: 9, offset: 91884,
+																	line: 2922, col: 9, offset: 92950,
 																},
 															},
 														},
@@ -16879,36 +16879,36 @@ var g = &grammar{
 								pos: position{line: 1107, col: 6, offset: 33995},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2488, col: 22, offset: 80228},
+										pos: position{line: 2503, col: 22, offset: 81294},
 										run: (*parser).callonDocumentHeader115,
 										expr: &seqExpr{
-											pos: position{line: 2488, col: 22, offset: 80228},
+											pos: position{line: 2503, col: 22, offset: 81294},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2493, col: 31, offset: 80449},
+													pos:        position{line: 2508, col: 31, offset: 81515},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2493, col: 36, offset: 80454},
+													pos: position{line: 2508, col: 36, offset: 81520},
 													expr: &litMatcher{
-														pos:        position{line: 2493, col: 37, offset: 80455},
+														pos:        position{line: 2508, col: 37, offset: 81521},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2488, col: 49, offset: 80255},
+													pos:   position{line: 2503, col: 49, offset: 81321},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2834, col: 13, offset: 90061},
+														pos: position{line: 2849, col: 13, offset: 91127},
 														run: (*parser).callonDocumentHeader121,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2834, col: 13, offset: 90061},
+															pos: position{line: 2849, col: 13, offset: 91127},
 															expr: &charClassMatcher{
-																pos:        position{line: 2834, col: 13, offset: 90061},
+																pos:        position{line: 2849, col: 13, offset: 91127},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16918,28 +16918,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2910, col: 8, offset: 91933},
+													pos: position{line: 2925, col: 8, offset: 92999},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2897, col: 12, offset: 91706},
+															pos: position{line: 2912, col: 12, offset: 92772},
 															run: (*parser).callonDocumentHeader125,
 															expr: &choiceExpr{
-																pos: position{line: 2897, col: 13, offset: 91707},
+																pos: position{line: 2912, col: 13, offset: 92773},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2897, col: 13, offset: 91707},
+																		pos:        position{line: 2912, col: 13, offset: 92773},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2897, col: 20, offset: 91714},
+																		pos:        position{line: 2912, col: 20, offset: 92780},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2897, col: 29, offset: 91723},
+																		pos:        position{line: 2912, col: 29, offset: 92789},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16948,9 +16948,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2907, col: 8, offset: 91883},
+															pos: position{line: 2922, col: 8, offset: 92949},
 															expr: &anyMatcher{
-																line: 2907, col: 9, offset: 91884,
+																line: 2922, col: 9, offset: 92950,
 															},
 														},
 													},
@@ -17001,10 +17001,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 743, col: 8, offset: 23745},
 																expr: &actionExpr{
-																	pos: position{line: 2888, col: 10, offset: 91535},
+																	pos: position{line: 2903, col: 10, offset: 92601},
 																	run: (*parser).callonDocumentHeader143,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2888, col: 10, offset: 91535},
+																		pos:        position{line: 2903, col: 10, offset: 92601},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17013,28 +17013,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2910, col: 8, offset: 91933},
+																pos: position{line: 2925, col: 8, offset: 92999},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2897, col: 12, offset: 91706},
+																		pos: position{line: 2912, col: 12, offset: 92772},
 																		run: (*parser).callonDocumentHeader146,
 																		expr: &choiceExpr{
-																			pos: position{line: 2897, col: 13, offset: 91707},
+																			pos: position{line: 2912, col: 13, offset: 92773},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2897, col: 13, offset: 91707},
+																					pos:        position{line: 2912, col: 13, offset: 92773},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2897, col: 20, offset: 91714},
+																					pos:        position{line: 2912, col: 20, offset: 92780},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2897, col: 29, offset: 91723},
+																					pos:        position{line: 2912, col: 29, offset: 92789},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17043,9 +17043,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2907, col: 8, offset: 91883},
+																		pos: position{line: 2922, col: 8, offset: 92949},
 																		expr: &anyMatcher{
-																			line: 2907, col: 9, offset: 91884,
+																			line: 2922, col: 9, offset: 92950,
 																		},
 																	},
 																},
@@ -17106,10 +17106,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 743, col: 8, offset: 23745},
 																								expr: &actionExpr{
-																									pos: position{line: 2888, col: 10, offset: 91535},
+																									pos: position{line: 2903, col: 10, offset: 92601},
 																									run: (*parser).callonDocumentHeader168,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2888, col: 10, offset: 91535},
+																										pos:        position{line: 2903, col: 10, offset: 92601},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -17118,28 +17118,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2910, col: 8, offset: 91933},
+																								pos: position{line: 2925, col: 8, offset: 92999},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2897, col: 12, offset: 91706},
+																										pos: position{line: 2912, col: 12, offset: 92772},
 																										run: (*parser).callonDocumentHeader171,
 																										expr: &choiceExpr{
-																											pos: position{line: 2897, col: 13, offset: 91707},
+																											pos: position{line: 2912, col: 13, offset: 92773},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2897, col: 13, offset: 91707},
+																													pos:        position{line: 2912, col: 13, offset: 92773},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2897, col: 20, offset: 91714},
+																													pos:        position{line: 2912, col: 20, offset: 92780},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2897, col: 29, offset: 91723},
+																													pos:        position{line: 2912, col: 29, offset: 92789},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -17148,9 +17148,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2907, col: 8, offset: 91883},
+																										pos: position{line: 2922, col: 8, offset: 92949},
 																										expr: &anyMatcher{
-																											line: 2907, col: 9, offset: 91884,
+																											line: 2922, col: 9, offset: 92950,
 																										},
 																									},
 																								},
@@ -17159,9 +17159,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2907, col: 8, offset: 91883},
+																					pos: position{line: 2922, col: 8, offset: 92949},
 																					expr: &anyMatcher{
-																						line: 2907, col: 9, offset: 91884,
+																						line: 2922, col: 9, offset: 92950,
 																					},
 																				},
 																			},
@@ -17177,21 +17177,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2905, col: 11, offset: 91869},
+																						pos: position{line: 2920, col: 11, offset: 92935},
 																						expr: &anyMatcher{
-																							line: 2905, col: 13, offset: 91871,
+																							line: 2920, col: 13, offset: 92937,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2834, col: 13, offset: 90061},
+																							pos: position{line: 2849, col: 13, offset: 91127},
 																							run: (*parser).callonDocumentHeader186,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2834, col: 13, offset: 90061},
+																								pos: position{line: 2849, col: 13, offset: 91127},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2834, col: 13, offset: 90061},
+																									pos:        position{line: 2849, col: 13, offset: 91127},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17201,28 +17201,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2910, col: 8, offset: 91933},
+																						pos: position{line: 2925, col: 8, offset: 92999},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2897, col: 12, offset: 91706},
+																								pos: position{line: 2912, col: 12, offset: 92772},
 																								run: (*parser).callonDocumentHeader190,
 																								expr: &choiceExpr{
-																									pos: position{line: 2897, col: 13, offset: 91707},
+																									pos: position{line: 2912, col: 13, offset: 92773},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 13, offset: 91707},
+																											pos:        position{line: 2912, col: 13, offset: 92773},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 20, offset: 91714},
+																											pos:        position{line: 2912, col: 20, offset: 92780},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 29, offset: 91723},
+																											pos:        position{line: 2912, col: 29, offset: 92789},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17231,9 +17231,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2907, col: 8, offset: 91883},
+																								pos: position{line: 2922, col: 8, offset: 92949},
 																								expr: &anyMatcher{
-																									line: 2907, col: 9, offset: 91884,
+																									line: 2922, col: 9, offset: 92950,
 																								},
 																							},
 																						},
@@ -17289,10 +17289,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 743, col: 8, offset: 23745},
 																			expr: &actionExpr{
-																				pos: position{line: 2888, col: 10, offset: 91535},
+																				pos: position{line: 2903, col: 10, offset: 92601},
 																				run: (*parser).callonDocumentHeader208,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2888, col: 10, offset: 91535},
+																					pos:        position{line: 2903, col: 10, offset: 92601},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -17301,28 +17301,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2910, col: 8, offset: 91933},
+																			pos: position{line: 2925, col: 8, offset: 92999},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2897, col: 12, offset: 91706},
+																					pos: position{line: 2912, col: 12, offset: 92772},
 																					run: (*parser).callonDocumentHeader211,
 																					expr: &choiceExpr{
-																						pos: position{line: 2897, col: 13, offset: 91707},
+																						pos: position{line: 2912, col: 13, offset: 92773},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2897, col: 13, offset: 91707},
+																								pos:        position{line: 2912, col: 13, offset: 92773},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2897, col: 20, offset: 91714},
+																								pos:        position{line: 2912, col: 20, offset: 92780},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2897, col: 29, offset: 91723},
+																								pos:        position{line: 2912, col: 29, offset: 92789},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -17331,9 +17331,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2907, col: 8, offset: 91883},
+																					pos: position{line: 2922, col: 8, offset: 92949},
 																					expr: &anyMatcher{
-																						line: 2907, col: 9, offset: 91884,
+																						line: 2922, col: 9, offset: 92950,
 																					},
 																				},
 																			},
@@ -17342,9 +17342,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2907, col: 8, offset: 91883},
+																pos: position{line: 2922, col: 8, offset: 92949},
 																expr: &anyMatcher{
-																	line: 2907, col: 9, offset: 91884,
+																	line: 2922, col: 9, offset: 92950,
 																},
 															},
 														},
@@ -17388,10 +17388,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1126, col: 20, offset: 34750},
 																expr: &actionExpr{
-																	pos: position{line: 2888, col: 10, offset: 91535},
+																	pos: position{line: 2903, col: 10, offset: 92601},
 																	run: (*parser).callonDocumentHeader230,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2888, col: 10, offset: 91535},
+																		pos:        position{line: 2903, col: 10, offset: 92601},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17442,10 +17442,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1145, col: 5, offset: 35355},
 																										expr: &actionExpr{
-																											pos: position{line: 2888, col: 10, offset: 91535},
+																											pos: position{line: 2903, col: 10, offset: 92601},
 																											run: (*parser).callonDocumentHeader245,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2888, col: 10, offset: 91535},
+																												pos:        position{line: 2903, col: 10, offset: 92601},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17477,10 +17477,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1149, col: 5, offset: 35454},
 																										expr: &actionExpr{
-																											pos: position{line: 2888, col: 10, offset: 91535},
+																											pos: position{line: 2903, col: 10, offset: 92601},
 																											run: (*parser).callonDocumentHeader253,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2888, col: 10, offset: 91535},
+																												pos:        position{line: 2903, col: 10, offset: 92601},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17512,10 +17512,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1153, col: 5, offset: 35551},
 																										expr: &actionExpr{
-																											pos: position{line: 2888, col: 10, offset: 91535},
+																											pos: position{line: 2903, col: 10, offset: 92601},
 																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2888, col: 10, offset: 91535},
+																												pos:        position{line: 2903, col: 10, offset: 92601},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17540,9 +17540,9 @@ var g = &grammar{
 																								pos: position{line: 1159, col: 5, offset: 35673},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2905, col: 11, offset: 91869},
+																										pos: position{line: 2920, col: 11, offset: 92935},
 																										expr: &anyMatcher{
-																											line: 2905, col: 13, offset: 91871,
+																											line: 2920, col: 13, offset: 92937,
 																										},
 																									},
 																									&litMatcher{
@@ -17583,10 +17583,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1131, col: 69, offset: 34943},
 																					expr: &actionExpr{
-																						pos: position{line: 2888, col: 10, offset: 91535},
+																						pos: position{line: 2903, col: 10, offset: 92601},
 																						run: (*parser).callonDocumentHeader276,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2888, col: 10, offset: 91535},
+																							pos:        position{line: 2903, col: 10, offset: 92601},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17606,10 +17606,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1131, col: 81, offset: 34955},
 																					expr: &actionExpr{
-																						pos: position{line: 2888, col: 10, offset: 91535},
+																						pos: position{line: 2903, col: 10, offset: 92601},
 																						run: (*parser).callonDocumentHeader281,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2888, col: 10, offset: 91535},
+																							pos:        position{line: 2903, col: 10, offset: 92601},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17627,28 +17627,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2910, col: 8, offset: 91933},
+																pos: position{line: 2925, col: 8, offset: 92999},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2897, col: 12, offset: 91706},
+																		pos: position{line: 2912, col: 12, offset: 92772},
 																		run: (*parser).callonDocumentHeader285,
 																		expr: &choiceExpr{
-																			pos: position{line: 2897, col: 13, offset: 91707},
+																			pos: position{line: 2912, col: 13, offset: 92773},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2897, col: 13, offset: 91707},
+																					pos:        position{line: 2912, col: 13, offset: 92773},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2897, col: 20, offset: 91714},
+																					pos:        position{line: 2912, col: 20, offset: 92780},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2897, col: 29, offset: 91723},
+																					pos:        position{line: 2912, col: 29, offset: 92789},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17657,9 +17657,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2907, col: 8, offset: 91883},
+																		pos: position{line: 2922, col: 8, offset: 92949},
 																		expr: &anyMatcher{
-																			line: 2907, col: 9, offset: 91884,
+																			line: 2922, col: 9, offset: 92950,
 																		},
 																	},
 																},
@@ -17674,36 +17674,36 @@ var g = &grammar{
 													pos: position{line: 1121, col: 6, offset: 34525},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2488, col: 22, offset: 80228},
+															pos: position{line: 2503, col: 22, offset: 81294},
 															run: (*parser).callonDocumentHeader294,
 															expr: &seqExpr{
-																pos: position{line: 2488, col: 22, offset: 80228},
+																pos: position{line: 2503, col: 22, offset: 81294},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2493, col: 31, offset: 80449},
+																		pos:        position{line: 2508, col: 31, offset: 81515},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2493, col: 36, offset: 80454},
+																		pos: position{line: 2508, col: 36, offset: 81520},
 																		expr: &litMatcher{
-																			pos:        position{line: 2493, col: 37, offset: 80455},
+																			pos:        position{line: 2508, col: 37, offset: 81521},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2488, col: 49, offset: 80255},
+																		pos:   position{line: 2503, col: 49, offset: 81321},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2834, col: 13, offset: 90061},
+																			pos: position{line: 2849, col: 13, offset: 91127},
 																			run: (*parser).callonDocumentHeader300,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2834, col: 13, offset: 90061},
+																				pos: position{line: 2849, col: 13, offset: 91127},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2834, col: 13, offset: 90061},
+																					pos:        position{line: 2849, col: 13, offset: 91127},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -17713,28 +17713,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2910, col: 8, offset: 91933},
+																		pos: position{line: 2925, col: 8, offset: 92999},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2897, col: 12, offset: 91706},
+																				pos: position{line: 2912, col: 12, offset: 92772},
 																				run: (*parser).callonDocumentHeader304,
 																				expr: &choiceExpr{
-																					pos: position{line: 2897, col: 13, offset: 91707},
+																					pos: position{line: 2912, col: 13, offset: 92773},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 13, offset: 91707},
+																							pos:        position{line: 2912, col: 13, offset: 92773},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 20, offset: 91714},
+																							pos:        position{line: 2912, col: 20, offset: 92780},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 29, offset: 91723},
+																							pos:        position{line: 2912, col: 29, offset: 92789},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -17743,9 +17743,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2907, col: 8, offset: 91883},
+																				pos: position{line: 2922, col: 8, offset: 92949},
 																				expr: &anyMatcher{
-																					line: 2907, col: 9, offset: 91884,
+																					line: 2922, col: 9, offset: 92950,
 																				},
 																			},
 																		},
@@ -17796,10 +17796,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 743, col: 8, offset: 23745},
 																					expr: &actionExpr{
-																						pos: position{line: 2888, col: 10, offset: 91535},
+																						pos: position{line: 2903, col: 10, offset: 92601},
 																						run: (*parser).callonDocumentHeader322,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2888, col: 10, offset: 91535},
+																							pos:        position{line: 2903, col: 10, offset: 92601},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17808,28 +17808,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2910, col: 8, offset: 91933},
+																					pos: position{line: 2925, col: 8, offset: 92999},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2897, col: 12, offset: 91706},
+																							pos: position{line: 2912, col: 12, offset: 92772},
 																							run: (*parser).callonDocumentHeader325,
 																							expr: &choiceExpr{
-																								pos: position{line: 2897, col: 13, offset: 91707},
+																								pos: position{line: 2912, col: 13, offset: 92773},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2897, col: 13, offset: 91707},
+																										pos:        position{line: 2912, col: 13, offset: 92773},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2897, col: 20, offset: 91714},
+																										pos:        position{line: 2912, col: 20, offset: 92780},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2897, col: 29, offset: 91723},
+																										pos:        position{line: 2912, col: 29, offset: 92789},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -17838,9 +17838,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2907, col: 8, offset: 91883},
+																							pos: position{line: 2922, col: 8, offset: 92949},
 																							expr: &anyMatcher{
-																								line: 2907, col: 9, offset: 91884,
+																								line: 2922, col: 9, offset: 92950,
 																							},
 																						},
 																					},
@@ -17901,10 +17901,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 743, col: 8, offset: 23745},
 																													expr: &actionExpr{
-																														pos: position{line: 2888, col: 10, offset: 91535},
+																														pos: position{line: 2903, col: 10, offset: 92601},
 																														run: (*parser).callonDocumentHeader347,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2888, col: 10, offset: 91535},
+																															pos:        position{line: 2903, col: 10, offset: 92601},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -17913,28 +17913,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2910, col: 8, offset: 91933},
+																													pos: position{line: 2925, col: 8, offset: 92999},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2897, col: 12, offset: 91706},
+																															pos: position{line: 2912, col: 12, offset: 92772},
 																															run: (*parser).callonDocumentHeader350,
 																															expr: &choiceExpr{
-																																pos: position{line: 2897, col: 13, offset: 91707},
+																																pos: position{line: 2912, col: 13, offset: 92773},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2897, col: 13, offset: 91707},
+																																		pos:        position{line: 2912, col: 13, offset: 92773},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2897, col: 20, offset: 91714},
+																																		pos:        position{line: 2912, col: 20, offset: 92780},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2897, col: 29, offset: 91723},
+																																		pos:        position{line: 2912, col: 29, offset: 92789},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -17943,9 +17943,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2907, col: 8, offset: 91883},
+																															pos: position{line: 2922, col: 8, offset: 92949},
 																															expr: &anyMatcher{
-																																line: 2907, col: 9, offset: 91884,
+																																line: 2922, col: 9, offset: 92950,
 																															},
 																														},
 																													},
@@ -17954,9 +17954,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2907, col: 8, offset: 91883},
+																										pos: position{line: 2922, col: 8, offset: 92949},
 																										expr: &anyMatcher{
-																											line: 2907, col: 9, offset: 91884,
+																											line: 2922, col: 9, offset: 92950,
 																										},
 																									},
 																								},
@@ -17972,21 +17972,21 @@ var g = &grammar{
 																									pos: position{line: 812, col: 5, offset: 26152},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2905, col: 11, offset: 91869},
+																											pos: position{line: 2920, col: 11, offset: 92935},
 																											expr: &anyMatcher{
-																												line: 2905, col: 13, offset: 91871,
+																												line: 2920, col: 13, offset: 92937,
 																											},
 																										},
 																										&labeledExpr{
 																											pos:   position{line: 813, col: 5, offset: 26227},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2834, col: 13, offset: 90061},
+																												pos: position{line: 2849, col: 13, offset: 91127},
 																												run: (*parser).callonDocumentHeader365,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2834, col: 13, offset: 90061},
+																													pos: position{line: 2849, col: 13, offset: 91127},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2834, col: 13, offset: 90061},
+																														pos:        position{line: 2849, col: 13, offset: 91127},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -17996,28 +17996,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2910, col: 8, offset: 91933},
+																											pos: position{line: 2925, col: 8, offset: 92999},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2897, col: 12, offset: 91706},
+																													pos: position{line: 2912, col: 12, offset: 92772},
 																													run: (*parser).callonDocumentHeader369,
 																													expr: &choiceExpr{
-																														pos: position{line: 2897, col: 13, offset: 91707},
+																														pos: position{line: 2912, col: 13, offset: 92773},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 13, offset: 91707},
+																																pos:        position{line: 2912, col: 13, offset: 92773},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 20, offset: 91714},
+																																pos:        position{line: 2912, col: 20, offset: 92780},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 29, offset: 91723},
+																																pos:        position{line: 2912, col: 29, offset: 92789},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18026,9 +18026,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2907, col: 8, offset: 91883},
+																													pos: position{line: 2922, col: 8, offset: 92949},
 																													expr: &anyMatcher{
-																														line: 2907, col: 9, offset: 91884,
+																														line: 2922, col: 9, offset: 92950,
 																													},
 																												},
 																											},
@@ -18084,10 +18084,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 743, col: 8, offset: 23745},
 																								expr: &actionExpr{
-																									pos: position{line: 2888, col: 10, offset: 91535},
+																									pos: position{line: 2903, col: 10, offset: 92601},
 																									run: (*parser).callonDocumentHeader387,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2888, col: 10, offset: 91535},
+																										pos:        position{line: 2903, col: 10, offset: 92601},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -18096,28 +18096,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2910, col: 8, offset: 91933},
+																								pos: position{line: 2925, col: 8, offset: 92999},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2897, col: 12, offset: 91706},
+																										pos: position{line: 2912, col: 12, offset: 92772},
 																										run: (*parser).callonDocumentHeader390,
 																										expr: &choiceExpr{
-																											pos: position{line: 2897, col: 13, offset: 91707},
+																											pos: position{line: 2912, col: 13, offset: 92773},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2897, col: 13, offset: 91707},
+																													pos:        position{line: 2912, col: 13, offset: 92773},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2897, col: 20, offset: 91714},
+																													pos:        position{line: 2912, col: 20, offset: 92780},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2897, col: 29, offset: 91723},
+																													pos:        position{line: 2912, col: 29, offset: 92789},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -18126,9 +18126,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2907, col: 8, offset: 91883},
+																										pos: position{line: 2922, col: 8, offset: 92949},
 																										expr: &anyMatcher{
-																											line: 2907, col: 9, offset: 91884,
+																											line: 2922, col: 9, offset: 92950,
 																										},
 																									},
 																								},
@@ -18137,9 +18137,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2907, col: 8, offset: 91883},
+																					pos: position{line: 2922, col: 8, offset: 92949},
 																					expr: &anyMatcher{
-																						line: 2907, col: 9, offset: 91884,
+																						line: 2922, col: 9, offset: 92950,
 																					},
 																				},
 																			},
@@ -18165,10 +18165,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1170, col: 21, offset: 35951},
 																	expr: &actionExpr{
-																		pos: position{line: 2888, col: 10, offset: 91535},
+																		pos: position{line: 2903, col: 10, offset: 92601},
 																		run: (*parser).callonDocumentHeader404,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2888, col: 10, offset: 91535},
+																			pos:        position{line: 2903, col: 10, offset: 92601},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18270,10 +18270,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 1182, col: 28, offset: 36582},
 																													expr: &actionExpr{
-																														pos: position{line: 2888, col: 10, offset: 91535},
+																														pos: position{line: 2903, col: 10, offset: 92601},
 																														run: (*parser).callonDocumentHeader428,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2888, col: 10, offset: 91535},
+																															pos:        position{line: 2903, col: 10, offset: 92601},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -18420,28 +18420,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2910, col: 8, offset: 91933},
+																	pos: position{line: 2925, col: 8, offset: 92999},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2897, col: 12, offset: 91706},
+																			pos: position{line: 2912, col: 12, offset: 92772},
 																			run: (*parser).callonDocumentHeader460,
 																			expr: &choiceExpr{
-																				pos: position{line: 2897, col: 13, offset: 91707},
+																				pos: position{line: 2912, col: 13, offset: 92773},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 13, offset: 91707},
+																						pos:        position{line: 2912, col: 13, offset: 92773},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 20, offset: 91714},
+																						pos:        position{line: 2912, col: 20, offset: 92780},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 29, offset: 91723},
+																						pos:        position{line: 2912, col: 29, offset: 92789},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18450,9 +18450,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2907, col: 8, offset: 91883},
+																			pos: position{line: 2922, col: 8, offset: 92949},
 																			expr: &anyMatcher{
-																				line: 2907, col: 9, offset: 91884,
+																				line: 2922, col: 9, offset: 92950,
 																			},
 																		},
 																	},
@@ -18532,10 +18532,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 359, col: 49, offset: 10879},
 														expr: &actionExpr{
-															pos: position{line: 2888, col: 10, offset: 91535},
+															pos: position{line: 2903, col: 10, offset: 92601},
 															run: (*parser).callonDocumentHeader482,
 															expr: &charClassMatcher{
-																pos:        position{line: 2888, col: 10, offset: 91535},
+																pos:        position{line: 2903, col: 10, offset: 92601},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18544,28 +18544,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2910, col: 8, offset: 91933},
+														pos: position{line: 2925, col: 8, offset: 92999},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2897, col: 12, offset: 91706},
+																pos: position{line: 2912, col: 12, offset: 92772},
 																run: (*parser).callonDocumentHeader485,
 																expr: &choiceExpr{
-																	pos: position{line: 2897, col: 13, offset: 91707},
+																	pos: position{line: 2912, col: 13, offset: 92773},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2897, col: 13, offset: 91707},
+																			pos:        position{line: 2912, col: 13, offset: 92773},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2897, col: 20, offset: 91714},
+																			pos:        position{line: 2912, col: 20, offset: 92780},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2897, col: 29, offset: 91723},
+																			pos:        position{line: 2912, col: 29, offset: 92789},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18574,9 +18574,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2907, col: 8, offset: 91883},
+																pos: position{line: 2922, col: 8, offset: 92949},
 																expr: &anyMatcher{
-																	line: 2907, col: 9, offset: 91884,
+																	line: 2922, col: 9, offset: 92950,
 																},
 															},
 														},
@@ -18637,10 +18637,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 361, col: 39, offset: 11000},
 														expr: &actionExpr{
-															pos: position{line: 2888, col: 10, offset: 91535},
+															pos: position{line: 2903, col: 10, offset: 92601},
 															run: (*parser).callonDocumentHeader503,
 															expr: &charClassMatcher{
-																pos:        position{line: 2888, col: 10, offset: 91535},
+																pos:        position{line: 2903, col: 10, offset: 92601},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18649,28 +18649,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2910, col: 8, offset: 91933},
+														pos: position{line: 2925, col: 8, offset: 92999},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2897, col: 12, offset: 91706},
+																pos: position{line: 2912, col: 12, offset: 92772},
 																run: (*parser).callonDocumentHeader506,
 																expr: &choiceExpr{
-																	pos: position{line: 2897, col: 13, offset: 91707},
+																	pos: position{line: 2912, col: 13, offset: 92773},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2897, col: 13, offset: 91707},
+																			pos:        position{line: 2912, col: 13, offset: 92773},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2897, col: 20, offset: 91714},
+																			pos:        position{line: 2912, col: 20, offset: 92780},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2897, col: 29, offset: 91723},
+																			pos:        position{line: 2912, col: 29, offset: 92789},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18679,9 +18679,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2907, col: 8, offset: 91883},
+																pos: position{line: 2922, col: 8, offset: 92949},
 																expr: &anyMatcher{
-																	line: 2907, col: 9, offset: 91884,
+																	line: 2922, col: 9, offset: 92950,
 																},
 															},
 														},
@@ -18690,36 +18690,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2488, col: 22, offset: 80228},
+											pos: position{line: 2503, col: 22, offset: 81294},
 											run: (*parser).callonDocumentHeader513,
 											expr: &seqExpr{
-												pos: position{line: 2488, col: 22, offset: 80228},
+												pos: position{line: 2503, col: 22, offset: 81294},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2493, col: 31, offset: 80449},
+														pos:        position{line: 2508, col: 31, offset: 81515},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2493, col: 36, offset: 80454},
+														pos: position{line: 2508, col: 36, offset: 81520},
 														expr: &litMatcher{
-															pos:        position{line: 2493, col: 37, offset: 80455},
+															pos:        position{line: 2508, col: 37, offset: 81521},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2488, col: 49, offset: 80255},
+														pos:   position{line: 2503, col: 49, offset: 81321},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2834, col: 13, offset: 90061},
+															pos: position{line: 2849, col: 13, offset: 91127},
 															run: (*parser).callonDocumentHeader519,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2834, col: 13, offset: 90061},
+																pos: position{line: 2849, col: 13, offset: 91127},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2834, col: 13, offset: 90061},
+																	pos:        position{line: 2849, col: 13, offset: 91127},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -18729,28 +18729,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2910, col: 8, offset: 91933},
+														pos: position{line: 2925, col: 8, offset: 92999},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2897, col: 12, offset: 91706},
+																pos: position{line: 2912, col: 12, offset: 92772},
 																run: (*parser).callonDocumentHeader523,
 																expr: &choiceExpr{
-																	pos: position{line: 2897, col: 13, offset: 91707},
+																	pos: position{line: 2912, col: 13, offset: 92773},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2897, col: 13, offset: 91707},
+																			pos:        position{line: 2912, col: 13, offset: 92773},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2897, col: 20, offset: 91714},
+																			pos:        position{line: 2912, col: 20, offset: 92780},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2897, col: 29, offset: 91723},
+																			pos:        position{line: 2912, col: 29, offset: 92789},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18759,9 +18759,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2907, col: 8, offset: 91883},
+																pos: position{line: 2922, col: 8, offset: 92949},
 																expr: &anyMatcher{
-																	line: 2907, col: 9, offset: 91884,
+																	line: 2922, col: 9, offset: 92950,
 																},
 															},
 														},
@@ -18812,10 +18812,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 743, col: 8, offset: 23745},
 																	expr: &actionExpr{
-																		pos: position{line: 2888, col: 10, offset: 91535},
+																		pos: position{line: 2903, col: 10, offset: 92601},
 																		run: (*parser).callonDocumentHeader541,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2888, col: 10, offset: 91535},
+																			pos:        position{line: 2903, col: 10, offset: 92601},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18824,28 +18824,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2910, col: 8, offset: 91933},
+																	pos: position{line: 2925, col: 8, offset: 92999},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2897, col: 12, offset: 91706},
+																			pos: position{line: 2912, col: 12, offset: 92772},
 																			run: (*parser).callonDocumentHeader544,
 																			expr: &choiceExpr{
-																				pos: position{line: 2897, col: 13, offset: 91707},
+																				pos: position{line: 2912, col: 13, offset: 92773},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 13, offset: 91707},
+																						pos:        position{line: 2912, col: 13, offset: 92773},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 20, offset: 91714},
+																						pos:        position{line: 2912, col: 20, offset: 92780},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 29, offset: 91723},
+																						pos:        position{line: 2912, col: 29, offset: 92789},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18854,9 +18854,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2907, col: 8, offset: 91883},
+																			pos: position{line: 2922, col: 8, offset: 92949},
 																			expr: &anyMatcher{
-																				line: 2907, col: 9, offset: 91884,
+																				line: 2922, col: 9, offset: 92950,
 																			},
 																		},
 																	},
@@ -18917,10 +18917,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 743, col: 8, offset: 23745},
 																									expr: &actionExpr{
-																										pos: position{line: 2888, col: 10, offset: 91535},
+																										pos: position{line: 2903, col: 10, offset: 92601},
 																										run: (*parser).callonDocumentHeader566,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2888, col: 10, offset: 91535},
+																											pos:        position{line: 2903, col: 10, offset: 92601},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -18929,28 +18929,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2910, col: 8, offset: 91933},
+																									pos: position{line: 2925, col: 8, offset: 92999},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2897, col: 12, offset: 91706},
+																											pos: position{line: 2912, col: 12, offset: 92772},
 																											run: (*parser).callonDocumentHeader569,
 																											expr: &choiceExpr{
-																												pos: position{line: 2897, col: 13, offset: 91707},
+																												pos: position{line: 2912, col: 13, offset: 92773},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2897, col: 13, offset: 91707},
+																														pos:        position{line: 2912, col: 13, offset: 92773},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2897, col: 20, offset: 91714},
+																														pos:        position{line: 2912, col: 20, offset: 92780},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2897, col: 29, offset: 91723},
+																														pos:        position{line: 2912, col: 29, offset: 92789},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -18959,9 +18959,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2907, col: 8, offset: 91883},
+																											pos: position{line: 2922, col: 8, offset: 92949},
 																											expr: &anyMatcher{
-																												line: 2907, col: 9, offset: 91884,
+																												line: 2922, col: 9, offset: 92950,
 																											},
 																										},
 																									},
@@ -18970,9 +18970,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2907, col: 8, offset: 91883},
+																						pos: position{line: 2922, col: 8, offset: 92949},
 																						expr: &anyMatcher{
-																							line: 2907, col: 9, offset: 91884,
+																							line: 2922, col: 9, offset: 92950,
 																						},
 																					},
 																				},
@@ -18988,21 +18988,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2905, col: 11, offset: 91869},
+																							pos: position{line: 2920, col: 11, offset: 92935},
 																							expr: &anyMatcher{
-																								line: 2905, col: 13, offset: 91871,
+																								line: 2920, col: 13, offset: 92937,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2834, col: 13, offset: 90061},
+																								pos: position{line: 2849, col: 13, offset: 91127},
 																								run: (*parser).callonDocumentHeader584,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2834, col: 13, offset: 90061},
+																									pos: position{line: 2849, col: 13, offset: 91127},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2834, col: 13, offset: 90061},
+																										pos:        position{line: 2849, col: 13, offset: 91127},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -19012,28 +19012,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2910, col: 8, offset: 91933},
+																							pos: position{line: 2925, col: 8, offset: 92999},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2897, col: 12, offset: 91706},
+																									pos: position{line: 2912, col: 12, offset: 92772},
 																									run: (*parser).callonDocumentHeader588,
 																									expr: &choiceExpr{
-																										pos: position{line: 2897, col: 13, offset: 91707},
+																										pos: position{line: 2912, col: 13, offset: 92773},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 13, offset: 91707},
+																												pos:        position{line: 2912, col: 13, offset: 92773},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 20, offset: 91714},
+																												pos:        position{line: 2912, col: 20, offset: 92780},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 29, offset: 91723},
+																												pos:        position{line: 2912, col: 29, offset: 92789},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19042,9 +19042,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2907, col: 8, offset: 91883},
+																									pos: position{line: 2922, col: 8, offset: 92949},
 																									expr: &anyMatcher{
-																										line: 2907, col: 9, offset: 91884,
+																										line: 2922, col: 9, offset: 92950,
 																									},
 																								},
 																							},
@@ -19100,10 +19100,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 743, col: 8, offset: 23745},
 																				expr: &actionExpr{
-																					pos: position{line: 2888, col: 10, offset: 91535},
+																					pos: position{line: 2903, col: 10, offset: 92601},
 																					run: (*parser).callonDocumentHeader606,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2888, col: 10, offset: 91535},
+																						pos:        position{line: 2903, col: 10, offset: 92601},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -19112,28 +19112,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2910, col: 8, offset: 91933},
+																				pos: position{line: 2925, col: 8, offset: 92999},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2897, col: 12, offset: 91706},
+																						pos: position{line: 2912, col: 12, offset: 92772},
 																						run: (*parser).callonDocumentHeader609,
 																						expr: &choiceExpr{
-																							pos: position{line: 2897, col: 13, offset: 91707},
+																							pos: position{line: 2912, col: 13, offset: 92773},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2897, col: 13, offset: 91707},
+																									pos:        position{line: 2912, col: 13, offset: 92773},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2897, col: 20, offset: 91714},
+																									pos:        position{line: 2912, col: 20, offset: 92780},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2897, col: 29, offset: 91723},
+																									pos:        position{line: 2912, col: 29, offset: 92789},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -19142,9 +19142,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2907, col: 8, offset: 91883},
+																						pos: position{line: 2922, col: 8, offset: 92949},
 																						expr: &anyMatcher{
-																							line: 2907, col: 9, offset: 91884,
+																							line: 2922, col: 9, offset: 92950,
 																						},
 																					},
 																				},
@@ -19153,9 +19153,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2907, col: 8, offset: 91883},
+																	pos: position{line: 2922, col: 8, offset: 92949},
 																	expr: &anyMatcher{
-																		line: 2907, col: 9, offset: 91884,
+																		line: 2922, col: 9, offset: 92950,
 																	},
 																},
 															},
@@ -19188,12 +19188,12 @@ var g = &grammar{
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2892, col: 11, offset: 91596},
+							pos: position{line: 2907, col: 11, offset: 92662},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2892, col: 11, offset: 91596},
+								pos: position{line: 2907, col: 11, offset: 92662},
 								expr: &charClassMatcher{
-									pos:        position{line: 2892, col: 11, offset: 91596},
+									pos:        position{line: 2907, col: 11, offset: 92662},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19210,28 +19210,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2910, col: 8, offset: 91933},
+							pos: position{line: 2925, col: 8, offset: 92999},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2897, col: 12, offset: 91706},
+									pos: position{line: 2912, col: 12, offset: 92772},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2897, col: 13, offset: 91707},
+										pos: position{line: 2912, col: 13, offset: 92773},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2897, col: 13, offset: 91707},
+												pos:        position{line: 2912, col: 13, offset: 92773},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2897, col: 20, offset: 91714},
+												pos:        position{line: 2912, col: 20, offset: 92780},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2897, col: 29, offset: 91723},
+												pos:        position{line: 2912, col: 29, offset: 92789},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19240,9 +19240,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2907, col: 8, offset: 91883},
+									pos: position{line: 2922, col: 8, offset: 92949},
 									expr: &anyMatcher{
-										line: 2907, col: 9, offset: 91884,
+										line: 2922, col: 9, offset: 92950,
 									},
 								},
 							},
@@ -19281,10 +19281,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1145, col: 5, offset: 35355},
 							expr: &actionExpr{
-								pos: position{line: 2888, col: 10, offset: 91535},
+								pos: position{line: 2903, col: 10, offset: 92601},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2888, col: 10, offset: 91535},
+									pos:        position{line: 2903, col: 10, offset: 92601},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19316,10 +19316,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1149, col: 5, offset: 35454},
 							expr: &actionExpr{
-								pos: position{line: 2888, col: 10, offset: 91535},
+								pos: position{line: 2903, col: 10, offset: 92601},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2888, col: 10, offset: 91535},
+									pos:        position{line: 2903, col: 10, offset: 92601},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19351,10 +19351,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1153, col: 5, offset: 35551},
 							expr: &actionExpr{
-								pos: position{line: 2888, col: 10, offset: 91535},
+								pos: position{line: 2903, col: 10, offset: 92601},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2888, col: 10, offset: 91535},
+									pos:        position{line: 2903, col: 10, offset: 92601},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19420,12 +19420,12 @@ var g = &grammar{
 							pos:   position{line: 1285, col: 13, offset: 39899},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2873, col: 7, offset: 91187},
+								pos: position{line: 2888, col: 7, offset: 92253},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2873, col: 7, offset: 91187},
+									pos: position{line: 2888, col: 7, offset: 92253},
 									expr: &charClassMatcher{
-										pos:        position{line: 2873, col: 7, offset: 91187},
+										pos:        position{line: 2888, col: 7, offset: 92253},
 										val:        "[^[]<>,\\r\\n]",
 										chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 										ignoreCase: false,
@@ -19494,12 +19494,12 @@ var g = &grammar{
 							pos: position{line: 1296, col: 31, offset: 40359},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2775, col: 14, offset: 88490},
+									pos: position{line: 2790, col: 14, offset: 89556},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2775, col: 14, offset: 88490},
+										pos: position{line: 2790, col: 14, offset: 89556},
 										expr: &charClassMatcher{
-											pos:        position{line: 2775, col: 14, offset: 88490},
+											pos:        position{line: 2790, col: 14, offset: 89556},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -19512,10 +19512,10 @@ var g = &grammar{
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2888, col: 10, offset: 91535},
+									pos: position{line: 2903, col: 10, offset: 92601},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2888, col: 10, offset: 91535},
+										pos:        position{line: 2903, col: 10, offset: 92601},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -19523,23 +19523,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2475, col: 5, offset: 79774},
+									pos: position{line: 2490, col: 5, offset: 80840},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2475, col: 5, offset: 79774},
+										pos: position{line: 2490, col: 5, offset: 80840},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2475, col: 5, offset: 79774},
+												pos: position{line: 2490, col: 5, offset: 80840},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2478, col: 5, offset: 79850},
+												pos:   position{line: 2493, col: 5, offset: 80916},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2479, col: 9, offset: 79868},
+													pos: position{line: 2494, col: 9, offset: 80934},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2479, col: 10, offset: 79869},
+														pos:        position{line: 2494, col: 10, offset: 80935},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -19633,10 +19633,10 @@ var g = &grammar{
 							pos:   position{line: 1317, col: 5, offset: 41167},
 							label: "start",
 							expr: &actionExpr{
-								pos: position{line: 2913, col: 16, offset: 92057},
+								pos: position{line: 2928, col: 16, offset: 93123},
 								run: (*parser).callonImageBlock4,
 								expr: &litMatcher{
-									pos:        position{line: 2913, col: 16, offset: 92057},
+									pos:        position{line: 2928, col: 16, offset: 93123},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -19653,48 +19653,48 @@ var g = &grammar{
 							pos:   position{line: 1317, col: 35, offset: 41197},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2846, col: 13, offset: 90294},
+								pos: position{line: 2861, col: 13, offset: 91360},
 								run: (*parser).callonImageBlock8,
 								expr: &seqExpr{
-									pos: position{line: 2846, col: 13, offset: 90294},
+									pos: position{line: 2861, col: 13, offset: 91360},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2846, col: 13, offset: 90294},
+											pos:   position{line: 2861, col: 13, offset: 91360},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2846, col: 20, offset: 90301},
+												pos: position{line: 2861, col: 20, offset: 91367},
 												expr: &actionExpr{
-													pos: position{line: 2854, col: 11, offset: 90540},
+													pos: position{line: 2869, col: 11, offset: 91606},
 													run: (*parser).callonImageBlock12,
 													expr: &choiceExpr{
-														pos: position{line: 2854, col: 12, offset: 90541},
+														pos: position{line: 2869, col: 12, offset: 91607},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2854, col: 12, offset: 90541},
+																pos:        position{line: 2869, col: 12, offset: 91607},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2854, col: 24, offset: 90553},
+																pos:        position{line: 2869, col: 24, offset: 91619},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2854, col: 37, offset: 90566},
+																pos:        position{line: 2869, col: 37, offset: 91632},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2854, col: 48, offset: 90577},
+																pos:        position{line: 2869, col: 48, offset: 91643},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2854, col: 59, offset: 90588},
+																pos:        position{line: 2869, col: 59, offset: 91654},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19705,38 +19705,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2846, col: 30, offset: 90311},
+											pos:   position{line: 2861, col: 30, offset: 91377},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2859, col: 5, offset: 90652},
+												pos: position{line: 2874, col: 5, offset: 91718},
 												run: (*parser).callonImageBlock20,
 												expr: &labeledExpr{
-													pos:   position{line: 2859, col: 5, offset: 90652},
+													pos:   position{line: 2874, col: 5, offset: 91718},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2859, col: 14, offset: 90661},
+														pos: position{line: 2874, col: 14, offset: 91727},
 														expr: &choiceExpr{
-															pos: position{line: 2860, col: 9, offset: 90671},
+															pos: position{line: 2875, col: 9, offset: 91737},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2860, col: 9, offset: 90671},
+																	pos: position{line: 2875, col: 9, offset: 91737},
 																	run: (*parser).callonImageBlock24,
 																	expr: &seqExpr{
-																		pos: position{line: 2860, col: 9, offset: 90671},
+																		pos: position{line: 2875, col: 9, offset: 91737},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2860, col: 9, offset: 90671},
+																				pos: position{line: 2875, col: 9, offset: 91737},
 																				expr: &litMatcher{
-																					pos:        position{line: 2860, col: 10, offset: 90672},
+																					pos:        position{line: 2875, col: 10, offset: 91738},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2861, col: 9, offset: 90700},
+																				pos: position{line: 2876, col: 9, offset: 91766},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2861, col: 10, offset: 90701},
+																					pos:        position{line: 2876, col: 10, offset: 91767},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19747,27 +19747,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2864, col: 11, offset: 90913},
+																	pos: position{line: 2879, col: 11, offset: 91979},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2864, col: 11, offset: 90913},
+																			pos:        position{line: 2879, col: 11, offset: 91979},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2864, col: 19, offset: 90921},
+																			pos: position{line: 2879, col: 19, offset: 91987},
 																			expr: &seqExpr{
-																				pos: position{line: 2864, col: 21, offset: 90923},
+																				pos: position{line: 2879, col: 21, offset: 91989},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2864, col: 21, offset: 90923},
+																						pos: position{line: 2879, col: 21, offset: 91989},
 																						expr: &actionExpr{
-																							pos: position{line: 2888, col: 10, offset: 91535},
+																							pos: position{line: 2903, col: 10, offset: 92601},
 																							run: (*parser).callonImageBlock35,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2888, col: 10, offset: 91535},
+																								pos:        position{line: 2903, col: 10, offset: 92601},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19776,11 +19776,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2864, col: 28, offset: 90930},
+																						pos: position{line: 2879, col: 28, offset: 91996},
 																						expr: &notExpr{
-																							pos: position{line: 2907, col: 8, offset: 91883},
+																							pos: position{line: 2922, col: 8, offset: 92949},
 																							expr: &anyMatcher{
-																								line: 2907, col: 9, offset: 91884,
+																								line: 2922, col: 9, offset: 92950,
 																							},
 																						},
 																					},
@@ -20179,10 +20179,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2867, col: 11, offset: 91050},
+																	pos: position{line: 2882, col: 11, offset: 92116},
 																	run: (*parser).callonImageBlock118,
 																	expr: &litMatcher{
-																		pos:        position{line: 2867, col: 11, offset: 91050},
+																		pos:        position{line: 2882, col: 11, offset: 92116},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20209,10 +20209,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1317, col: 81, offset: 41243},
 							expr: &actionExpr{
-								pos: position{line: 2888, col: 10, offset: 91535},
+								pos: position{line: 2903, col: 10, offset: 92601},
 								run: (*parser).callonImageBlock123,
 								expr: &charClassMatcher{
-									pos:        position{line: 2888, col: 10, offset: 91535},
+									pos:        position{line: 2903, col: 10, offset: 92601},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -20224,10 +20224,10 @@ var g = &grammar{
 							pos:   position{line: 1317, col: 88, offset: 41250},
 							label: "end",
 							expr: &actionExpr{
-								pos: position{line: 2913, col: 16, offset: 92057},
+								pos: position{line: 2928, col: 16, offset: 93123},
 								run: (*parser).callonImageBlock126,
 								expr: &litMatcher{
-									pos:        position{line: 2913, col: 16, offset: 92057},
+									pos:        position{line: 2928, col: 16, offset: 93123},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -20239,28 +20239,28 @@ var g = &grammar{
 							run: (*parser).callonImageBlock128,
 						},
 						&choiceExpr{
-							pos: position{line: 2910, col: 8, offset: 91933},
+							pos: position{line: 2925, col: 8, offset: 92999},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2897, col: 12, offset: 91706},
+									pos: position{line: 2912, col: 12, offset: 92772},
 									run: (*parser).callonImageBlock130,
 									expr: &choiceExpr{
-										pos: position{line: 2897, col: 13, offset: 91707},
+										pos: position{line: 2912, col: 13, offset: 92773},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2897, col: 13, offset: 91707},
+												pos:        position{line: 2912, col: 13, offset: 92773},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2897, col: 20, offset: 91714},
+												pos:        position{line: 2912, col: 20, offset: 92780},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2897, col: 29, offset: 91723},
+												pos:        position{line: 2912, col: 29, offset: 92789},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -20269,9 +20269,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2907, col: 8, offset: 91883},
+									pos: position{line: 2922, col: 8, offset: 92949},
 									expr: &anyMatcher{
-										line: 2907, col: 9, offset: 91884,
+										line: 2922, col: 9, offset: 92950,
 									},
 								},
 							},
@@ -20308,48 +20308,48 @@ var g = &grammar{
 							pos:   position{line: 1322, col: 30, offset: 41537},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2846, col: 13, offset: 90294},
+								pos: position{line: 2861, col: 13, offset: 91360},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2846, col: 13, offset: 90294},
+									pos: position{line: 2861, col: 13, offset: 91360},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2846, col: 13, offset: 90294},
+											pos:   position{line: 2861, col: 13, offset: 91360},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2846, col: 20, offset: 90301},
+												pos: position{line: 2861, col: 20, offset: 91367},
 												expr: &actionExpr{
-													pos: position{line: 2854, col: 11, offset: 90540},
+													pos: position{line: 2869, col: 11, offset: 91606},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2854, col: 12, offset: 90541},
+														pos: position{line: 2869, col: 12, offset: 91607},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2854, col: 12, offset: 90541},
+																pos:        position{line: 2869, col: 12, offset: 91607},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2854, col: 24, offset: 90553},
+																pos:        position{line: 2869, col: 24, offset: 91619},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2854, col: 37, offset: 90566},
+																pos:        position{line: 2869, col: 37, offset: 91632},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2854, col: 48, offset: 90577},
+																pos:        position{line: 2869, col: 48, offset: 91643},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2854, col: 59, offset: 90588},
+																pos:        position{line: 2869, col: 59, offset: 91654},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20360,38 +20360,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2846, col: 30, offset: 90311},
+											pos:   position{line: 2861, col: 30, offset: 91377},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2859, col: 5, offset: 90652},
+												pos: position{line: 2874, col: 5, offset: 91718},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2859, col: 5, offset: 90652},
+													pos:   position{line: 2874, col: 5, offset: 91718},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2859, col: 14, offset: 90661},
+														pos: position{line: 2874, col: 14, offset: 91727},
 														expr: &choiceExpr{
-															pos: position{line: 2860, col: 9, offset: 90671},
+															pos: position{line: 2875, col: 9, offset: 91737},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2860, col: 9, offset: 90671},
+																	pos: position{line: 2875, col: 9, offset: 91737},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2860, col: 9, offset: 90671},
+																		pos: position{line: 2875, col: 9, offset: 91737},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2860, col: 9, offset: 90671},
+																				pos: position{line: 2875, col: 9, offset: 91737},
 																				expr: &litMatcher{
-																					pos:        position{line: 2860, col: 10, offset: 90672},
+																					pos:        position{line: 2875, col: 10, offset: 91738},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2861, col: 9, offset: 90700},
+																				pos: position{line: 2876, col: 9, offset: 91766},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2861, col: 10, offset: 90701},
+																					pos:        position{line: 2876, col: 10, offset: 91767},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20402,27 +20402,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2864, col: 11, offset: 90913},
+																	pos: position{line: 2879, col: 11, offset: 91979},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2864, col: 11, offset: 90913},
+																			pos:        position{line: 2879, col: 11, offset: 91979},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2864, col: 19, offset: 90921},
+																			pos: position{line: 2879, col: 19, offset: 91987},
 																			expr: &seqExpr{
-																				pos: position{line: 2864, col: 21, offset: 90923},
+																				pos: position{line: 2879, col: 21, offset: 91989},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2864, col: 21, offset: 90923},
+																						pos: position{line: 2879, col: 21, offset: 91989},
 																						expr: &actionExpr{
-																							pos: position{line: 2888, col: 10, offset: 91535},
+																							pos: position{line: 2903, col: 10, offset: 92601},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2888, col: 10, offset: 91535},
+																								pos:        position{line: 2903, col: 10, offset: 92601},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20431,11 +20431,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2864, col: 28, offset: 90930},
+																						pos: position{line: 2879, col: 28, offset: 91996},
 																						expr: &notExpr{
-																							pos: position{line: 2907, col: 8, offset: 91883},
+																							pos: position{line: 2922, col: 8, offset: 92949},
 																							expr: &anyMatcher{
-																								line: 2907, col: 9, offset: 91884,
+																								line: 2922, col: 9, offset: 92950,
 																							},
 																						},
 																					},
@@ -20834,10 +20834,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2867, col: 11, offset: 91050},
+																	pos: position{line: 2882, col: 11, offset: 92116},
 																	run: (*parser).callonInlineImage117,
 																	expr: &litMatcher{
-																		pos:        position{line: 2867, col: 11, offset: 91050},
+																		pos:        position{line: 2882, col: 11, offset: 92116},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -21016,26 +21016,26 @@ var g = &grammar{
 								pos: position{line: 1349, col: 9, offset: 42823},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2780, col: 5, offset: 88563},
+										pos: position{line: 2795, col: 5, offset: 89629},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2780, col: 5, offset: 88563},
+											pos: position{line: 2795, col: 5, offset: 89629},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2780, col: 5, offset: 88563},
+													pos: position{line: 2795, col: 5, offset: 89629},
 													expr: &seqExpr{
-														pos: position{line: 2781, col: 9, offset: 88574},
+														pos: position{line: 2796, col: 9, offset: 89640},
 														exprs: []interface{}{
 															&labeledExpr{
-																pos:   position{line: 2781, col: 9, offset: 88574},
+																pos:   position{line: 2796, col: 9, offset: 89640},
 																label: "name",
 																expr: &actionExpr{
-																	pos: position{line: 2760, col: 18, offset: 88080},
+																	pos: position{line: 2775, col: 18, offset: 89146},
 																	run: (*parser).callonFootnoteElement12,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2760, col: 19, offset: 88081},
+																		pos: position{line: 2775, col: 19, offset: 89147},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2760, col: 19, offset: 88081},
+																			pos:        position{line: 2775, col: 19, offset: 89147},
 																			val:        "[_-\\pL\\pN]",
 																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21046,28 +21046,28 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2782, col: 9, offset: 88667},
+																pos:        position{line: 2797, col: 9, offset: 89733},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2783, col: 9, offset: 88679},
+																pos: position{line: 2798, col: 9, offset: 89745},
 																run: (*parser).callonFootnoteElement16,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2787, col: 5, offset: 88756},
+													pos:   position{line: 2802, col: 5, offset: 89822},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2787, col: 11, offset: 88762},
+														pos: position{line: 2802, col: 11, offset: 89828},
 														run: (*parser).callonFootnoteElement18,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2787, col: 11, offset: 88762},
+															pos: position{line: 2802, col: 11, offset: 89828},
 															expr: &charClassMatcher{
-																pos:        position{line: 2787, col: 11, offset: 88762},
+																pos:        position{line: 2802, col: 11, offset: 89828},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21077,44 +21077,44 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2790, col: 5, offset: 88820},
+													pos: position{line: 2805, col: 5, offset: 89886},
 													expr: &seqExpr{
-														pos: position{line: 2791, col: 9, offset: 88831},
+														pos: position{line: 2806, col: 9, offset: 89897},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2791, col: 9, offset: 88831},
+																pos:        position{line: 2806, col: 9, offset: 89897},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2792, col: 9, offset: 88880},
+																pos: position{line: 2807, col: 9, offset: 89946},
 																run: (*parser).callonFootnoteElement24,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2796, col: 5, offset: 88960},
+													pos: position{line: 2811, col: 5, offset: 90026},
 													expr: &seqExpr{
-														pos: position{line: 2797, col: 9, offset: 88971},
+														pos: position{line: 2812, col: 9, offset: 90037},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2797, col: 9, offset: 88971},
+																pos: position{line: 2812, col: 9, offset: 90037},
 																expr: &seqExpr{
-																	pos: position{line: 2797, col: 10, offset: 88972},
+																	pos: position{line: 2812, col: 10, offset: 90038},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2797, col: 10, offset: 88972},
+																			pos:        position{line: 2812, col: 10, offset: 90038},
 																			val:        "[._%+-]",
 																			chars:      []rune{'.', '_', '%', '+', '-'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2797, col: 18, offset: 88980},
+																			pos: position{line: 2812, col: 18, offset: 90046},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2797, col: 18, offset: 88980},
+																				pos:        position{line: 2812, col: 18, offset: 90046},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -21125,13 +21125,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2797, col: 30, offset: 88992},
+																pos:        position{line: 2812, col: 30, offset: 90058},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2797, col: 34, offset: 88996},
+																pos:        position{line: 2812, col: 34, offset: 90062},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21144,12 +21144,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2892, col: 11, offset: 91596},
+										pos: position{line: 2907, col: 11, offset: 92662},
 										run: (*parser).callonFootnoteElement34,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2892, col: 11, offset: 91596},
+											pos: position{line: 2907, col: 11, offset: 92662},
 											expr: &charClassMatcher{
-												pos:        position{line: 2892, col: 11, offset: 91596},
+												pos:        position{line: 2907, col: 11, offset: 92662},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -21158,25 +21158,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2506, col: 5, offset: 80945},
+										pos: position{line: 2521, col: 5, offset: 82011},
 										run: (*parser).callonFootnoteElement37,
 										expr: &seqExpr{
-											pos: position{line: 2506, col: 5, offset: 80945},
+											pos: position{line: 2521, col: 5, offset: 82011},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2506, col: 5, offset: 80945},
+													pos: position{line: 2521, col: 5, offset: 82011},
 													run: (*parser).callonFootnoteElement39,
 												},
 												&litMatcher{
-													pos:        position{line: 2509, col: 5, offset: 81016},
+													pos:        position{line: 2524, col: 5, offset: 82082},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2509, col: 10, offset: 81021},
+													pos: position{line: 2524, col: 10, offset: 82087},
 													expr: &charClassMatcher{
-														pos:        position{line: 2509, col: 11, offset: 81022},
+														pos:        position{line: 2524, col: 11, offset: 82088},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21187,29 +21187,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2515, col: 5, offset: 81214},
+										pos: position{line: 2530, col: 5, offset: 82280},
 										run: (*parser).callonFootnoteElement43,
 										expr: &seqExpr{
-											pos: position{line: 2515, col: 5, offset: 81214},
+											pos: position{line: 2530, col: 5, offset: 82280},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2515, col: 5, offset: 81214},
+													pos: position{line: 2530, col: 5, offset: 82280},
 													run: (*parser).callonFootnoteElement45,
 												},
 												&andCodeExpr{
-													pos: position{line: 2518, col: 5, offset: 81285},
+													pos: position{line: 2533, col: 5, offset: 82351},
 													run: (*parser).callonFootnoteElement46,
 												},
 												&litMatcher{
-													pos:        position{line: 2522, col: 5, offset: 81410},
+													pos:        position{line: 2537, col: 5, offset: 82476},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2522, col: 9, offset: 81414},
+													pos: position{line: 2537, col: 9, offset: 82480},
 													expr: &charClassMatcher{
-														pos:        position{line: 2522, col: 10, offset: 81415},
+														pos:        position{line: 2537, col: 10, offset: 82481},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21228,27 +21228,27 @@ var g = &grammar{
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2805, col: 5, offset: 89189},
+										pos: position{line: 2820, col: 5, offset: 90255},
 										run: (*parser).callonFootnoteElement52,
 										expr: &choiceExpr{
-											pos: position{line: 2806, col: 9, offset: 89199},
+											pos: position{line: 2821, col: 9, offset: 90265},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2806, col: 10, offset: 89200},
+													pos:        position{line: 2821, col: 10, offset: 90266},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2808, col: 13, offset: 89297},
+													pos: position{line: 2823, col: 13, offset: 90363},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2808, col: 13, offset: 89297},
+															pos: position{line: 2823, col: 13, offset: 90363},
 															run: (*parser).callonFootnoteElement56,
 														},
 														&litMatcher{
-															pos:        position{line: 2811, col: 13, offset: 89397},
+															pos:        position{line: 2826, col: 13, offset: 90463},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -21256,20 +21256,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2811, col: 19, offset: 89403},
+													pos:        position{line: 2826, col: 19, offset: 90469},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2814, col: 13, offset: 89441},
+													pos: position{line: 2829, col: 13, offset: 90507},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2814, col: 13, offset: 89441},
+															pos: position{line: 2829, col: 13, offset: 90507},
 															run: (*parser).callonFootnoteElement60,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2817, col: 14, offset: 89534},
+															pos:        position{line: 2832, col: 14, offset: 90600},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -21278,18 +21278,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2819, col: 12, offset: 89578},
+													pos: position{line: 2834, col: 12, offset: 90644},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2819, col: 12, offset: 89578},
+															pos:        position{line: 2834, col: 12, offset: 90644},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2819, col: 16, offset: 89582},
+															pos: position{line: 2834, col: 16, offset: 90648},
 															expr: &litMatcher{
-																pos:        position{line: 2819, col: 17, offset: 89583},
+																pos:        position{line: 2834, col: 17, offset: 90649},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -21327,10 +21327,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 1219, col: 5, offset: 37756},
 													expr: &actionExpr{
-														pos: position{line: 2888, col: 10, offset: 91535},
+														pos: position{line: 2903, col: 10, offset: 92601},
 														run: (*parser).callonFootnoteElement73,
 														expr: &charClassMatcher{
-															pos:        position{line: 2888, col: 10, offset: 91535},
+															pos:        position{line: 2903, col: 10, offset: 92601},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -21341,28 +21341,28 @@ var g = &grammar{
 												&andExpr{
 													pos: position{line: 1219, col: 12, offset: 37763},
 													expr: &choiceExpr{
-														pos: position{line: 2910, col: 8, offset: 91933},
+														pos: position{line: 2925, col: 8, offset: 92999},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2897, col: 12, offset: 91706},
+																pos: position{line: 2912, col: 12, offset: 92772},
 																run: (*parser).callonFootnoteElement77,
 																expr: &choiceExpr{
-																	pos: position{line: 2897, col: 13, offset: 91707},
+																	pos: position{line: 2912, col: 13, offset: 92773},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2897, col: 13, offset: 91707},
+																			pos:        position{line: 2912, col: 13, offset: 92773},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2897, col: 20, offset: 91714},
+																			pos:        position{line: 2912, col: 20, offset: 92780},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2897, col: 29, offset: 91723},
+																			pos:        position{line: 2912, col: 29, offset: 92789},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -21371,9 +21371,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2907, col: 8, offset: 91883},
+																pos: position{line: 2922, col: 8, offset: 92949},
 																expr: &anyMatcher{
-																	line: 2907, col: 9, offset: 91884,
+																	line: 2922, col: 9, offset: 92950,
 																},
 															},
 														},
@@ -21729,23 +21729,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2475, col: 5, offset: 79774},
+										pos: position{line: 2490, col: 5, offset: 80840},
 										run: (*parser).callonFootnoteElement153,
 										expr: &seqExpr{
-											pos: position{line: 2475, col: 5, offset: 79774},
+											pos: position{line: 2490, col: 5, offset: 80840},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2475, col: 5, offset: 79774},
+													pos: position{line: 2490, col: 5, offset: 80840},
 													run: (*parser).callonFootnoteElement155,
 												},
 												&labeledExpr{
-													pos:   position{line: 2478, col: 5, offset: 79850},
+													pos:   position{line: 2493, col: 5, offset: 80916},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2479, col: 9, offset: 79868},
+														pos: position{line: 2494, col: 9, offset: 80934},
 														run: (*parser).callonFootnoteElement157,
 														expr: &charClassMatcher{
-															pos:        position{line: 2479, col: 10, offset: 79869},
+															pos:        position{line: 2494, col: 10, offset: 80935},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -21757,25 +21757,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2897, col: 12, offset: 91706},
+										pos: position{line: 2912, col: 12, offset: 92772},
 										run: (*parser).callonFootnoteElement159,
 										expr: &choiceExpr{
-											pos: position{line: 2897, col: 13, offset: 91707},
+											pos: position{line: 2912, col: 13, offset: 92773},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2897, col: 13, offset: 91707},
+													pos:        position{line: 2912, col: 13, offset: 92773},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2897, col: 20, offset: 91714},
+													pos:        position{line: 2912, col: 20, offset: 92780},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2897, col: 29, offset: 91723},
+													pos:        position{line: 2912, col: 29, offset: 92789},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -21784,10 +21784,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2827, col: 12, offset: 89843},
+										pos: position{line: 2842, col: 12, offset: 90909},
 										run: (*parser).callonFootnoteElement164,
 										expr: &charClassMatcher{
-											pos:        position{line: 2827, col: 12, offset: 89843},
+											pos:        position{line: 2842, col: 12, offset: 90909},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -21939,55 +21939,55 @@ var g = &grammar{
 									pos:   position{line: 1421, col: 5, offset: 45793},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2850, col: 23, offset: 90421},
+										pos: position{line: 2865, col: 23, offset: 91487},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2850, col: 23, offset: 90421},
+											pos: position{line: 2865, col: 23, offset: 91487},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2850, col: 23, offset: 90421},
+													pos: position{line: 2865, col: 23, offset: 91487},
 													expr: &litMatcher{
-														pos:        position{line: 2850, col: 24, offset: 90422},
+														pos:        position{line: 2865, col: 24, offset: 91488},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2850, col: 28, offset: 90426},
+													pos:   position{line: 2865, col: 28, offset: 91492},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2854, col: 11, offset: 90540},
+														pos: position{line: 2869, col: 11, offset: 91606},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2854, col: 12, offset: 90541},
+															pos: position{line: 2869, col: 12, offset: 91607},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2854, col: 12, offset: 90541},
+																	pos:        position{line: 2869, col: 12, offset: 91607},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2854, col: 24, offset: 90553},
+																	pos:        position{line: 2869, col: 24, offset: 91619},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2854, col: 37, offset: 90566},
+																	pos:        position{line: 2869, col: 37, offset: 91632},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2854, col: 48, offset: 90577},
+																	pos:        position{line: 2869, col: 48, offset: 91643},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2854, col: 59, offset: 90588},
+																	pos:        position{line: 2869, col: 59, offset: 91654},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -21997,38 +21997,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2850, col: 44, offset: 90442},
+													pos:   position{line: 2865, col: 44, offset: 91508},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2859, col: 5, offset: 90652},
+														pos: position{line: 2874, col: 5, offset: 91718},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2859, col: 5, offset: 90652},
+															pos:   position{line: 2874, col: 5, offset: 91718},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2859, col: 14, offset: 90661},
+																pos: position{line: 2874, col: 14, offset: 91727},
 																expr: &choiceExpr{
-																	pos: position{line: 2860, col: 9, offset: 90671},
+																	pos: position{line: 2875, col: 9, offset: 91737},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2860, col: 9, offset: 90671},
+																			pos: position{line: 2875, col: 9, offset: 91737},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2860, col: 9, offset: 90671},
+																				pos: position{line: 2875, col: 9, offset: 91737},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2860, col: 9, offset: 90671},
+																						pos: position{line: 2875, col: 9, offset: 91737},
 																						expr: &litMatcher{
-																							pos:        position{line: 2860, col: 10, offset: 90672},
+																							pos:        position{line: 2875, col: 10, offset: 91738},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2861, col: 9, offset: 90700},
+																						pos: position{line: 2876, col: 9, offset: 91766},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2861, col: 10, offset: 90701},
+																							pos:        position{line: 2876, col: 10, offset: 91767},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22039,27 +22039,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2864, col: 11, offset: 90913},
+																			pos: position{line: 2879, col: 11, offset: 91979},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2864, col: 11, offset: 90913},
+																					pos:        position{line: 2879, col: 11, offset: 91979},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2864, col: 19, offset: 90921},
+																					pos: position{line: 2879, col: 19, offset: 91987},
 																					expr: &seqExpr{
-																						pos: position{line: 2864, col: 21, offset: 90923},
+																						pos: position{line: 2879, col: 21, offset: 91989},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2864, col: 21, offset: 90923},
+																								pos: position{line: 2879, col: 21, offset: 91989},
 																								expr: &actionExpr{
-																									pos: position{line: 2888, col: 10, offset: 91535},
+																									pos: position{line: 2903, col: 10, offset: 92601},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2888, col: 10, offset: 91535},
+																										pos:        position{line: 2903, col: 10, offset: 92601},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22068,11 +22068,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2864, col: 28, offset: 90930},
+																								pos: position{line: 2879, col: 28, offset: 91996},
 																								expr: &notExpr{
-																									pos: position{line: 2907, col: 8, offset: 91883},
+																									pos: position{line: 2922, col: 8, offset: 92949},
 																									expr: &anyMatcher{
-																										line: 2907, col: 9, offset: 91884,
+																										line: 2922, col: 9, offset: 92950,
 																									},
 																								},
 																							},
@@ -22471,10 +22471,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2867, col: 11, offset: 91050},
+																			pos: position{line: 2882, col: 11, offset: 92116},
 																			run: (*parser).callonLink117,
 																			expr: &litMatcher{
-																				pos:        position{line: 2867, col: 11, offset: 91050},
+																				pos:        position{line: 2882, col: 11, offset: 92116},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22679,48 +22679,48 @@ var g = &grammar{
 									pos:   position{line: 1434, col: 17, offset: 46208},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2846, col: 13, offset: 90294},
+										pos: position{line: 2861, col: 13, offset: 91360},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2846, col: 13, offset: 90294},
+											pos: position{line: 2861, col: 13, offset: 91360},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2846, col: 13, offset: 90294},
+													pos:   position{line: 2861, col: 13, offset: 91360},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2846, col: 20, offset: 90301},
+														pos: position{line: 2861, col: 20, offset: 91367},
 														expr: &actionExpr{
-															pos: position{line: 2854, col: 11, offset: 90540},
+															pos: position{line: 2869, col: 11, offset: 91606},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2854, col: 12, offset: 90541},
+																pos: position{line: 2869, col: 12, offset: 91607},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2854, col: 12, offset: 90541},
+																		pos:        position{line: 2869, col: 12, offset: 91607},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2854, col: 24, offset: 90553},
+																		pos:        position{line: 2869, col: 24, offset: 91619},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2854, col: 37, offset: 90566},
+																		pos:        position{line: 2869, col: 37, offset: 91632},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2854, col: 48, offset: 90577},
+																		pos:        position{line: 2869, col: 48, offset: 91643},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2854, col: 59, offset: 90588},
+																		pos:        position{line: 2869, col: 59, offset: 91654},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22731,38 +22731,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2846, col: 30, offset: 90311},
+													pos:   position{line: 2861, col: 30, offset: 91377},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2859, col: 5, offset: 90652},
+														pos: position{line: 2874, col: 5, offset: 91718},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2859, col: 5, offset: 90652},
+															pos:   position{line: 2874, col: 5, offset: 91718},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2859, col: 14, offset: 90661},
+																pos: position{line: 2874, col: 14, offset: 91727},
 																expr: &choiceExpr{
-																	pos: position{line: 2860, col: 9, offset: 90671},
+																	pos: position{line: 2875, col: 9, offset: 91737},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2860, col: 9, offset: 90671},
+																			pos: position{line: 2875, col: 9, offset: 91737},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2860, col: 9, offset: 90671},
+																				pos: position{line: 2875, col: 9, offset: 91737},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2860, col: 9, offset: 90671},
+																						pos: position{line: 2875, col: 9, offset: 91737},
 																						expr: &litMatcher{
-																							pos:        position{line: 2860, col: 10, offset: 90672},
+																							pos:        position{line: 2875, col: 10, offset: 91738},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2861, col: 9, offset: 90700},
+																						pos: position{line: 2876, col: 9, offset: 91766},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2861, col: 10, offset: 90701},
+																							pos:        position{line: 2876, col: 10, offset: 91767},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22773,27 +22773,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2864, col: 11, offset: 90913},
+																			pos: position{line: 2879, col: 11, offset: 91979},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2864, col: 11, offset: 90913},
+																					pos:        position{line: 2879, col: 11, offset: 91979},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2864, col: 19, offset: 90921},
+																					pos: position{line: 2879, col: 19, offset: 91987},
 																					expr: &seqExpr{
-																						pos: position{line: 2864, col: 21, offset: 90923},
+																						pos: position{line: 2879, col: 21, offset: 91989},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2864, col: 21, offset: 90923},
+																								pos: position{line: 2879, col: 21, offset: 91989},
 																								expr: &actionExpr{
-																									pos: position{line: 2888, col: 10, offset: 91535},
+																									pos: position{line: 2903, col: 10, offset: 92601},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2888, col: 10, offset: 91535},
+																										pos:        position{line: 2903, col: 10, offset: 92601},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22802,11 +22802,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2864, col: 28, offset: 90930},
+																								pos: position{line: 2879, col: 28, offset: 91996},
 																								expr: &notExpr{
-																									pos: position{line: 2907, col: 8, offset: 91883},
+																									pos: position{line: 2922, col: 8, offset: 92949},
 																									expr: &anyMatcher{
-																										line: 2907, col: 9, offset: 91884,
+																										line: 2922, col: 9, offset: 92950,
 																									},
 																								},
 																							},
@@ -23205,10 +23205,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2867, col: 11, offset: 91050},
+																			pos: position{line: 2882, col: 11, offset: 92116},
 																			run: (*parser).callonRelativeLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2867, col: 11, offset: 91050},
+																				pos:        position{line: 2882, col: 11, offset: 92116},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23251,48 +23251,48 @@ var g = &grammar{
 									pos:   position{line: 1439, col: 13, offset: 46418},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2846, col: 13, offset: 90294},
+										pos: position{line: 2861, col: 13, offset: 91360},
 										run: (*parser).callonRelativeLink124,
 										expr: &seqExpr{
-											pos: position{line: 2846, col: 13, offset: 90294},
+											pos: position{line: 2861, col: 13, offset: 91360},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2846, col: 13, offset: 90294},
+													pos:   position{line: 2861, col: 13, offset: 91360},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2846, col: 20, offset: 90301},
+														pos: position{line: 2861, col: 20, offset: 91367},
 														expr: &actionExpr{
-															pos: position{line: 2854, col: 11, offset: 90540},
+															pos: position{line: 2869, col: 11, offset: 91606},
 															run: (*parser).callonRelativeLink128,
 															expr: &choiceExpr{
-																pos: position{line: 2854, col: 12, offset: 90541},
+																pos: position{line: 2869, col: 12, offset: 91607},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2854, col: 12, offset: 90541},
+																		pos:        position{line: 2869, col: 12, offset: 91607},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2854, col: 24, offset: 90553},
+																		pos:        position{line: 2869, col: 24, offset: 91619},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2854, col: 37, offset: 90566},
+																		pos:        position{line: 2869, col: 37, offset: 91632},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2854, col: 48, offset: 90577},
+																		pos:        position{line: 2869, col: 48, offset: 91643},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2854, col: 59, offset: 90588},
+																		pos:        position{line: 2869, col: 59, offset: 91654},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23303,38 +23303,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2846, col: 30, offset: 90311},
+													pos:   position{line: 2861, col: 30, offset: 91377},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2859, col: 5, offset: 90652},
+														pos: position{line: 2874, col: 5, offset: 91718},
 														run: (*parser).callonRelativeLink136,
 														expr: &labeledExpr{
-															pos:   position{line: 2859, col: 5, offset: 90652},
+															pos:   position{line: 2874, col: 5, offset: 91718},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2859, col: 14, offset: 90661},
+																pos: position{line: 2874, col: 14, offset: 91727},
 																expr: &choiceExpr{
-																	pos: position{line: 2860, col: 9, offset: 90671},
+																	pos: position{line: 2875, col: 9, offset: 91737},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2860, col: 9, offset: 90671},
+																			pos: position{line: 2875, col: 9, offset: 91737},
 																			run: (*parser).callonRelativeLink140,
 																			expr: &seqExpr{
-																				pos: position{line: 2860, col: 9, offset: 90671},
+																				pos: position{line: 2875, col: 9, offset: 91737},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2860, col: 9, offset: 90671},
+																						pos: position{line: 2875, col: 9, offset: 91737},
 																						expr: &litMatcher{
-																							pos:        position{line: 2860, col: 10, offset: 90672},
+																							pos:        position{line: 2875, col: 10, offset: 91738},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2861, col: 9, offset: 90700},
+																						pos: position{line: 2876, col: 9, offset: 91766},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2861, col: 10, offset: 90701},
+																							pos:        position{line: 2876, col: 10, offset: 91767},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23345,27 +23345,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2864, col: 11, offset: 90913},
+																			pos: position{line: 2879, col: 11, offset: 91979},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2864, col: 11, offset: 90913},
+																					pos:        position{line: 2879, col: 11, offset: 91979},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2864, col: 19, offset: 90921},
+																					pos: position{line: 2879, col: 19, offset: 91987},
 																					expr: &seqExpr{
-																						pos: position{line: 2864, col: 21, offset: 90923},
+																						pos: position{line: 2879, col: 21, offset: 91989},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2864, col: 21, offset: 90923},
+																								pos: position{line: 2879, col: 21, offset: 91989},
 																								expr: &actionExpr{
-																									pos: position{line: 2888, col: 10, offset: 91535},
+																									pos: position{line: 2903, col: 10, offset: 92601},
 																									run: (*parser).callonRelativeLink151,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2888, col: 10, offset: 91535},
+																										pos:        position{line: 2903, col: 10, offset: 92601},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23374,11 +23374,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2864, col: 28, offset: 90930},
+																								pos: position{line: 2879, col: 28, offset: 91996},
 																								expr: &notExpr{
-																									pos: position{line: 2907, col: 8, offset: 91883},
+																									pos: position{line: 2922, col: 8, offset: 92949},
 																									expr: &anyMatcher{
-																										line: 2907, col: 9, offset: 91884,
+																										line: 2922, col: 9, offset: 92950,
 																									},
 																								},
 																							},
@@ -23777,10 +23777,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2867, col: 11, offset: 91050},
+																			pos: position{line: 2882, col: 11, offset: 92116},
 																			run: (*parser).callonRelativeLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2867, col: 11, offset: 91050},
+																				pos:        position{line: 2882, col: 11, offset: 92116},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23832,55 +23832,55 @@ var g = &grammar{
 									pos:   position{line: 1446, col: 9, offset: 46727},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2850, col: 23, offset: 90421},
+										pos: position{line: 2865, col: 23, offset: 91487},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2850, col: 23, offset: 90421},
+											pos: position{line: 2865, col: 23, offset: 91487},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2850, col: 23, offset: 90421},
+													pos: position{line: 2865, col: 23, offset: 91487},
 													expr: &litMatcher{
-														pos:        position{line: 2850, col: 24, offset: 90422},
+														pos:        position{line: 2865, col: 24, offset: 91488},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2850, col: 28, offset: 90426},
+													pos:   position{line: 2865, col: 28, offset: 91492},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2854, col: 11, offset: 90540},
+														pos: position{line: 2869, col: 11, offset: 91606},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2854, col: 12, offset: 90541},
+															pos: position{line: 2869, col: 12, offset: 91607},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2854, col: 12, offset: 90541},
+																	pos:        position{line: 2869, col: 12, offset: 91607},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2854, col: 24, offset: 90553},
+																	pos:        position{line: 2869, col: 24, offset: 91619},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2854, col: 37, offset: 90566},
+																	pos:        position{line: 2869, col: 37, offset: 91632},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2854, col: 48, offset: 90577},
+																	pos:        position{line: 2869, col: 48, offset: 91643},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2854, col: 59, offset: 90588},
+																	pos:        position{line: 2869, col: 59, offset: 91654},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23890,38 +23890,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2850, col: 44, offset: 90442},
+													pos:   position{line: 2865, col: 44, offset: 91508},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2859, col: 5, offset: 90652},
+														pos: position{line: 2874, col: 5, offset: 91718},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2859, col: 5, offset: 90652},
+															pos:   position{line: 2874, col: 5, offset: 91718},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2859, col: 14, offset: 90661},
+																pos: position{line: 2874, col: 14, offset: 91727},
 																expr: &choiceExpr{
-																	pos: position{line: 2860, col: 9, offset: 90671},
+																	pos: position{line: 2875, col: 9, offset: 91737},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2860, col: 9, offset: 90671},
+																			pos: position{line: 2875, col: 9, offset: 91737},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2860, col: 9, offset: 90671},
+																				pos: position{line: 2875, col: 9, offset: 91737},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2860, col: 9, offset: 90671},
+																						pos: position{line: 2875, col: 9, offset: 91737},
 																						expr: &litMatcher{
-																							pos:        position{line: 2860, col: 10, offset: 90672},
+																							pos:        position{line: 2875, col: 10, offset: 91738},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2861, col: 9, offset: 90700},
+																						pos: position{line: 2876, col: 9, offset: 91766},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2861, col: 10, offset: 90701},
+																							pos:        position{line: 2876, col: 10, offset: 91767},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23932,27 +23932,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2864, col: 11, offset: 90913},
+																			pos: position{line: 2879, col: 11, offset: 91979},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2864, col: 11, offset: 90913},
+																					pos:        position{line: 2879, col: 11, offset: 91979},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2864, col: 19, offset: 90921},
+																					pos: position{line: 2879, col: 19, offset: 91987},
 																					expr: &seqExpr{
-																						pos: position{line: 2864, col: 21, offset: 90923},
+																						pos: position{line: 2879, col: 21, offset: 91989},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2864, col: 21, offset: 90923},
+																								pos: position{line: 2879, col: 21, offset: 91989},
 																								expr: &actionExpr{
-																									pos: position{line: 2888, col: 10, offset: 91535},
+																									pos: position{line: 2903, col: 10, offset: 92601},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2888, col: 10, offset: 91535},
+																										pos:        position{line: 2903, col: 10, offset: 92601},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23961,11 +23961,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2864, col: 28, offset: 90930},
+																								pos: position{line: 2879, col: 28, offset: 91996},
 																								expr: &notExpr{
-																									pos: position{line: 2907, col: 8, offset: 91883},
+																									pos: position{line: 2922, col: 8, offset: 92949},
 																									expr: &anyMatcher{
-																										line: 2907, col: 9, offset: 91884,
+																										line: 2922, col: 9, offset: 92950,
 																									},
 																								},
 																							},
@@ -24364,10 +24364,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2867, col: 11, offset: 91050},
+																			pos: position{line: 2882, col: 11, offset: 92116},
 																			run: (*parser).callonExternalLink117,
 																			expr: &litMatcher{
-																				pos:        position{line: 2867, col: 11, offset: 91050},
+																				pos:        position{line: 2882, col: 11, offset: 92116},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24407,55 +24407,55 @@ var g = &grammar{
 									pos:   position{line: 1451, col: 5, offset: 46940},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2850, col: 23, offset: 90421},
+										pos: position{line: 2865, col: 23, offset: 91487},
 										run: (*parser).callonExternalLink125,
 										expr: &seqExpr{
-											pos: position{line: 2850, col: 23, offset: 90421},
+											pos: position{line: 2865, col: 23, offset: 91487},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2850, col: 23, offset: 90421},
+													pos: position{line: 2865, col: 23, offset: 91487},
 													expr: &litMatcher{
-														pos:        position{line: 2850, col: 24, offset: 90422},
+														pos:        position{line: 2865, col: 24, offset: 91488},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2850, col: 28, offset: 90426},
+													pos:   position{line: 2865, col: 28, offset: 91492},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2854, col: 11, offset: 90540},
+														pos: position{line: 2869, col: 11, offset: 91606},
 														run: (*parser).callonExternalLink130,
 														expr: &choiceExpr{
-															pos: position{line: 2854, col: 12, offset: 90541},
+															pos: position{line: 2869, col: 12, offset: 91607},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2854, col: 12, offset: 90541},
+																	pos:        position{line: 2869, col: 12, offset: 91607},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2854, col: 24, offset: 90553},
+																	pos:        position{line: 2869, col: 24, offset: 91619},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2854, col: 37, offset: 90566},
+																	pos:        position{line: 2869, col: 37, offset: 91632},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2854, col: 48, offset: 90577},
+																	pos:        position{line: 2869, col: 48, offset: 91643},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2854, col: 59, offset: 90588},
+																	pos:        position{line: 2869, col: 59, offset: 91654},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24465,38 +24465,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2850, col: 44, offset: 90442},
+													pos:   position{line: 2865, col: 44, offset: 91508},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2859, col: 5, offset: 90652},
+														pos: position{line: 2874, col: 5, offset: 91718},
 														run: (*parser).callonExternalLink138,
 														expr: &labeledExpr{
-															pos:   position{line: 2859, col: 5, offset: 90652},
+															pos:   position{line: 2874, col: 5, offset: 91718},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2859, col: 14, offset: 90661},
+																pos: position{line: 2874, col: 14, offset: 91727},
 																expr: &choiceExpr{
-																	pos: position{line: 2860, col: 9, offset: 90671},
+																	pos: position{line: 2875, col: 9, offset: 91737},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2860, col: 9, offset: 90671},
+																			pos: position{line: 2875, col: 9, offset: 91737},
 																			run: (*parser).callonExternalLink142,
 																			expr: &seqExpr{
-																				pos: position{line: 2860, col: 9, offset: 90671},
+																				pos: position{line: 2875, col: 9, offset: 91737},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2860, col: 9, offset: 90671},
+																						pos: position{line: 2875, col: 9, offset: 91737},
 																						expr: &litMatcher{
-																							pos:        position{line: 2860, col: 10, offset: 90672},
+																							pos:        position{line: 2875, col: 10, offset: 91738},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2861, col: 9, offset: 90700},
+																						pos: position{line: 2876, col: 9, offset: 91766},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2861, col: 10, offset: 90701},
+																							pos:        position{line: 2876, col: 10, offset: 91767},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24507,27 +24507,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2864, col: 11, offset: 90913},
+																			pos: position{line: 2879, col: 11, offset: 91979},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2864, col: 11, offset: 90913},
+																					pos:        position{line: 2879, col: 11, offset: 91979},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2864, col: 19, offset: 90921},
+																					pos: position{line: 2879, col: 19, offset: 91987},
 																					expr: &seqExpr{
-																						pos: position{line: 2864, col: 21, offset: 90923},
+																						pos: position{line: 2879, col: 21, offset: 91989},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2864, col: 21, offset: 90923},
+																								pos: position{line: 2879, col: 21, offset: 91989},
 																								expr: &actionExpr{
-																									pos: position{line: 2888, col: 10, offset: 91535},
+																									pos: position{line: 2903, col: 10, offset: 92601},
 																									run: (*parser).callonExternalLink153,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2888, col: 10, offset: 91535},
+																										pos:        position{line: 2903, col: 10, offset: 92601},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24536,11 +24536,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2864, col: 28, offset: 90930},
+																								pos: position{line: 2879, col: 28, offset: 91996},
 																								expr: &notExpr{
-																									pos: position{line: 2907, col: 8, offset: 91883},
+																									pos: position{line: 2922, col: 8, offset: 92949},
 																									expr: &anyMatcher{
-																										line: 2907, col: 9, offset: 91884,
+																										line: 2922, col: 9, offset: 92950,
 																									},
 																								},
 																							},
@@ -24939,10 +24939,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2867, col: 11, offset: 91050},
+																			pos: position{line: 2882, col: 11, offset: 92116},
 																			run: (*parser).callonExternalLink236,
 																			expr: &litMatcher{
-																				pos:        position{line: 2867, col: 11, offset: 91050},
+																				pos:        position{line: 2882, col: 11, offset: 92116},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -25008,10 +25008,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1590, col: 5, offset: 51497},
 																	expr: &actionExpr{
-																		pos: position{line: 2888, col: 10, offset: 91535},
+																		pos: position{line: 2903, col: 10, offset: 92601},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2888, col: 10, offset: 91535},
+																			pos:        position{line: 2903, col: 10, offset: 92601},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25178,12 +25178,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2892, col: 11, offset: 91596},
+																	pos: position{line: 2907, col: 11, offset: 92662},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2892, col: 11, offset: 91596},
+																		pos: position{line: 2907, col: 11, offset: 92662},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2892, col: 11, offset: 91596},
+																			pos:        position{line: 2907, col: 11, offset: 92662},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25226,28 +25226,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2910, col: 8, offset: 91933},
+																	pos: position{line: 2925, col: 8, offset: 92999},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2897, col: 12, offset: 91706},
+																			pos: position{line: 2912, col: 12, offset: 92772},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2897, col: 13, offset: 91707},
+																				pos: position{line: 2912, col: 13, offset: 92773},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 13, offset: 91707},
+																						pos:        position{line: 2912, col: 13, offset: 92773},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 20, offset: 91714},
+																						pos:        position{line: 2912, col: 20, offset: 92780},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 29, offset: 91723},
+																						pos:        position{line: 2912, col: 29, offset: 92789},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25256,9 +25256,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2907, col: 8, offset: 91883},
+																			pos: position{line: 2922, col: 8, offset: 92949},
 																			expr: &anyMatcher{
-																				line: 2907, col: 9, offset: 91884,
+																				line: 2922, col: 9, offset: 92950,
 																			},
 																		},
 																	},
@@ -25288,10 +25288,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1640, col: 5, offset: 53459},
 																	expr: &actionExpr{
-																		pos: position{line: 2888, col: 10, offset: 91535},
+																		pos: position{line: 2903, col: 10, offset: 92601},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2888, col: 10, offset: 91535},
+																			pos:        position{line: 2903, col: 10, offset: 92601},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25332,12 +25332,12 @@ var g = &grammar{
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2892, col: 11, offset: 91596},
+																	pos: position{line: 2907, col: 11, offset: 92662},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2892, col: 11, offset: 91596},
+																		pos: position{line: 2907, col: 11, offset: 92662},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2892, col: 11, offset: 91596},
+																			pos:        position{line: 2907, col: 11, offset: 92662},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25409,12 +25409,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2892, col: 11, offset: 91596},
+																		pos: position{line: 2907, col: 11, offset: 92662},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2892, col: 11, offset: 91596},
+																			pos: position{line: 2907, col: 11, offset: 92662},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2892, col: 11, offset: 91596},
+																				pos:        position{line: 2907, col: 11, offset: 92662},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -25458,28 +25458,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2910, col: 8, offset: 91933},
+																	pos: position{line: 2925, col: 8, offset: 92999},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2897, col: 12, offset: 91706},
+																			pos: position{line: 2912, col: 12, offset: 92772},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2897, col: 13, offset: 91707},
+																				pos: position{line: 2912, col: 13, offset: 92773},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 13, offset: 91707},
+																						pos:        position{line: 2912, col: 13, offset: 92773},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 20, offset: 91714},
+																						pos:        position{line: 2912, col: 20, offset: 92780},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 29, offset: 91723},
+																						pos:        position{line: 2912, col: 29, offset: 92789},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25488,9 +25488,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2907, col: 8, offset: 91883},
+																			pos: position{line: 2922, col: 8, offset: 92949},
 																			expr: &anyMatcher{
-																				line: 2907, col: 9, offset: 91884,
+																				line: 2922, col: 9, offset: 92950,
 																			},
 																		},
 																	},
@@ -25548,12 +25548,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2892, col: 11, offset: 91596},
+																	pos: position{line: 2907, col: 11, offset: 92662},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2892, col: 11, offset: 91596},
+																		pos: position{line: 2907, col: 11, offset: 92662},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2892, col: 11, offset: 91596},
+																			pos:        position{line: 2907, col: 11, offset: 92662},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25596,28 +25596,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2910, col: 8, offset: 91933},
+																	pos: position{line: 2925, col: 8, offset: 92999},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2897, col: 12, offset: 91706},
+																			pos: position{line: 2912, col: 12, offset: 92772},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2897, col: 13, offset: 91707},
+																				pos: position{line: 2912, col: 13, offset: 92773},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 13, offset: 91707},
+																						pos:        position{line: 2912, col: 13, offset: 92773},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 20, offset: 91714},
+																						pos:        position{line: 2912, col: 20, offset: 92780},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 29, offset: 91723},
+																						pos:        position{line: 2912, col: 29, offset: 92789},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25626,9 +25626,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2907, col: 8, offset: 91883},
+																			pos: position{line: 2922, col: 8, offset: 92949},
 																			expr: &anyMatcher{
-																				line: 2907, col: 9, offset: 91884,
+																				line: 2922, col: 9, offset: 92950,
 																			},
 																		},
 																	},
@@ -25658,18 +25658,18 @@ var g = &grammar{
 																&notExpr{
 																	pos: position{line: 1675, col: 5, offset: 54478},
 																	expr: &seqExpr{
-																		pos: position{line: 2493, col: 31, offset: 80449},
+																		pos: position{line: 2508, col: 31, offset: 81515},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2493, col: 31, offset: 80449},
+																				pos:        position{line: 2508, col: 31, offset: 81515},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2493, col: 36, offset: 80454},
+																				pos: position{line: 2508, col: 36, offset: 81520},
 																				expr: &litMatcher{
-																					pos:        position{line: 2493, col: 37, offset: 80455},
+																					pos:        position{line: 2508, col: 37, offset: 81521},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
@@ -25719,28 +25719,28 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1676, col: 35, offset: 54540},
 																				expr: &choiceExpr{
-																					pos: position{line: 2910, col: 8, offset: 91933},
+																					pos: position{line: 2925, col: 8, offset: 92999},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2897, col: 12, offset: 91706},
+																							pos: position{line: 2912, col: 12, offset: 92772},
 																							run: (*parser).callonListElements167,
 																							expr: &choiceExpr{
-																								pos: position{line: 2897, col: 13, offset: 91707},
+																								pos: position{line: 2912, col: 13, offset: 92773},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2897, col: 13, offset: 91707},
+																										pos:        position{line: 2912, col: 13, offset: 92773},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2897, col: 20, offset: 91714},
+																										pos:        position{line: 2912, col: 20, offset: 92780},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2897, col: 29, offset: 91723},
+																										pos:        position{line: 2912, col: 29, offset: 92789},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -25749,9 +25749,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2907, col: 8, offset: 91883},
+																							pos: position{line: 2922, col: 8, offset: 92949},
 																							expr: &anyMatcher{
-																								line: 2907, col: 9, offset: 91884,
+																								line: 2922, col: 9, offset: 92950,
 																							},
 																						},
 																					},
@@ -25816,10 +25816,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 1694, col: 9, offset: 55045},
 																			expr: &actionExpr{
-																				pos: position{line: 2888, col: 10, offset: 91535},
+																				pos: position{line: 2903, col: 10, offset: 92601},
 																				run: (*parser).callonListElements188,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2888, col: 10, offset: 91535},
+																					pos:        position{line: 2903, col: 10, offset: 92601},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25828,28 +25828,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2910, col: 8, offset: 91933},
+																			pos: position{line: 2925, col: 8, offset: 92999},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2897, col: 12, offset: 91706},
+																					pos: position{line: 2912, col: 12, offset: 92772},
 																					run: (*parser).callonListElements191,
 																					expr: &choiceExpr{
-																						pos: position{line: 2897, col: 13, offset: 91707},
+																						pos: position{line: 2912, col: 13, offset: 92773},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2897, col: 13, offset: 91707},
+																								pos:        position{line: 2912, col: 13, offset: 92773},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2897, col: 20, offset: 91714},
+																								pos:        position{line: 2912, col: 20, offset: 92780},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2897, col: 29, offset: 91723},
+																								pos:        position{line: 2912, col: 29, offset: 92789},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25858,9 +25858,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2907, col: 8, offset: 91883},
+																					pos: position{line: 2922, col: 8, offset: 92949},
 																					expr: &anyMatcher{
-																						line: 2907, col: 9, offset: 91884,
+																						line: 2922, col: 9, offset: 92950,
 																					},
 																				},
 																			},
@@ -25874,18 +25874,18 @@ var g = &grammar{
 																					pos: position{line: 677, col: 14, offset: 21525},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2905, col: 11, offset: 91869},
+																							pos: position{line: 2920, col: 11, offset: 92935},
 																							expr: &anyMatcher{
-																								line: 2905, col: 13, offset: 91871,
+																								line: 2920, col: 13, offset: 92937,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 677, col: 21, offset: 21532},
 																							expr: &actionExpr{
-																								pos: position{line: 2888, col: 10, offset: 91535},
+																								pos: position{line: 2903, col: 10, offset: 92601},
 																								run: (*parser).callonListElements204,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2888, col: 10, offset: 91535},
+																									pos:        position{line: 2903, col: 10, offset: 92601},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25894,28 +25894,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2910, col: 8, offset: 91933},
+																							pos: position{line: 2925, col: 8, offset: 92999},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2897, col: 12, offset: 91706},
+																									pos: position{line: 2912, col: 12, offset: 92772},
 																									run: (*parser).callonListElements207,
 																									expr: &choiceExpr{
-																										pos: position{line: 2897, col: 13, offset: 91707},
+																										pos: position{line: 2912, col: 13, offset: 92773},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 13, offset: 91707},
+																												pos:        position{line: 2912, col: 13, offset: 92773},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 20, offset: 91714},
+																												pos:        position{line: 2912, col: 20, offset: 92780},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 29, offset: 91723},
+																												pos:        position{line: 2912, col: 29, offset: 92789},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25924,9 +25924,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2907, col: 8, offset: 91883},
+																									pos: position{line: 2922, col: 8, offset: 92949},
 																									expr: &anyMatcher{
-																										line: 2907, col: 9, offset: 91884,
+																										line: 2922, col: 9, offset: 92950,
 																									},
 																								},
 																							},
@@ -25945,12 +25945,12 @@ var g = &grammar{
 																	pos: position{line: 1701, col: 9, offset: 55193},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2892, col: 11, offset: 91596},
+																			pos: position{line: 2907, col: 11, offset: 92662},
 																			run: (*parser).callonListElements216,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2892, col: 11, offset: 91596},
+																				pos: position{line: 2907, col: 11, offset: 92662},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2892, col: 11, offset: 91596},
+																					pos:        position{line: 2907, col: 11, offset: 92662},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25977,28 +25977,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2910, col: 8, offset: 91933},
+																			pos: position{line: 2925, col: 8, offset: 92999},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2897, col: 12, offset: 91706},
+																					pos: position{line: 2912, col: 12, offset: 92772},
 																					run: (*parser).callonListElements224,
 																					expr: &choiceExpr{
-																						pos: position{line: 2897, col: 13, offset: 91707},
+																						pos: position{line: 2912, col: 13, offset: 92773},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2897, col: 13, offset: 91707},
+																								pos:        position{line: 2912, col: 13, offset: 92773},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2897, col: 20, offset: 91714},
+																								pos:        position{line: 2912, col: 20, offset: 92780},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2897, col: 29, offset: 91723},
+																								pos:        position{line: 2912, col: 29, offset: 92789},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -26007,9 +26007,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2907, col: 8, offset: 91883},
+																					pos: position{line: 2922, col: 8, offset: 92949},
 																					expr: &anyMatcher{
-																						line: 2907, col: 9, offset: 91884,
+																						line: 2922, col: 9, offset: 92950,
 																					},
 																				},
 																			},
@@ -26067,9 +26067,9 @@ var g = &grammar{
 					pos: position{line: 1499, col: 5, offset: 48679},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2905, col: 11, offset: 91869},
+							pos: position{line: 2920, col: 11, offset: 92935},
 							expr: &anyMatcher{
-								line: 2905, col: 13, offset: 91871,
+								line: 2920, col: 13, offset: 92937,
 							},
 						},
 						&labeledExpr{
@@ -26093,18 +26093,18 @@ var g = &grammar{
 															pos: position{line: 677, col: 14, offset: 21525},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2905, col: 11, offset: 91869},
+																	pos: position{line: 2920, col: 11, offset: 92935},
 																	expr: &anyMatcher{
-																		line: 2905, col: 13, offset: 91871,
+																		line: 2920, col: 13, offset: 92937,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 677, col: 21, offset: 21532},
 																	expr: &actionExpr{
-																		pos: position{line: 2888, col: 10, offset: 91535},
+																		pos: position{line: 2903, col: 10, offset: 92601},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2888, col: 10, offset: 91535},
+																			pos:        position{line: 2903, col: 10, offset: 92601},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26113,28 +26113,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2910, col: 8, offset: 91933},
+																	pos: position{line: 2925, col: 8, offset: 92999},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2897, col: 12, offset: 91706},
+																			pos: position{line: 2912, col: 12, offset: 92772},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2897, col: 13, offset: 91707},
+																				pos: position{line: 2912, col: 13, offset: 92773},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 13, offset: 91707},
+																						pos:        position{line: 2912, col: 13, offset: 92773},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 20, offset: 91714},
+																						pos:        position{line: 2912, col: 20, offset: 92780},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 29, offset: 91723},
+																						pos:        position{line: 2912, col: 29, offset: 92789},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26143,9 +26143,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2907, col: 8, offset: 91883},
+																			pos: position{line: 2922, col: 8, offset: 92949},
 																			expr: &anyMatcher{
-																				line: 2907, col: 9, offset: 91884,
+																				line: 2922, col: 9, offset: 92950,
 																			},
 																		},
 																	},
@@ -26178,10 +26178,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1590, col: 5, offset: 51497},
 																							expr: &actionExpr{
-																								pos: position{line: 2888, col: 10, offset: 91535},
+																								pos: position{line: 2903, col: 10, offset: 92601},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2888, col: 10, offset: 91535},
+																									pos:        position{line: 2903, col: 10, offset: 92601},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26348,12 +26348,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2892, col: 11, offset: 91596},
+																							pos: position{line: 2907, col: 11, offset: 92662},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2892, col: 11, offset: 91596},
+																								pos: position{line: 2907, col: 11, offset: 92662},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2892, col: 11, offset: 91596},
+																									pos:        position{line: 2907, col: 11, offset: 92662},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26396,28 +26396,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2910, col: 8, offset: 91933},
+																							pos: position{line: 2925, col: 8, offset: 92999},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2897, col: 12, offset: 91706},
+																									pos: position{line: 2912, col: 12, offset: 92772},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2897, col: 13, offset: 91707},
+																										pos: position{line: 2912, col: 13, offset: 92773},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 13, offset: 91707},
+																												pos:        position{line: 2912, col: 13, offset: 92773},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 20, offset: 91714},
+																												pos:        position{line: 2912, col: 20, offset: 92780},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 29, offset: 91723},
+																												pos:        position{line: 2912, col: 29, offset: 92789},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26426,9 +26426,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2907, col: 8, offset: 91883},
+																									pos: position{line: 2922, col: 8, offset: 92949},
 																									expr: &anyMatcher{
-																										line: 2907, col: 9, offset: 91884,
+																										line: 2922, col: 9, offset: 92950,
 																									},
 																								},
 																							},
@@ -26458,10 +26458,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1640, col: 5, offset: 53459},
 																							expr: &actionExpr{
-																								pos: position{line: 2888, col: 10, offset: 91535},
+																								pos: position{line: 2903, col: 10, offset: 92601},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2888, col: 10, offset: 91535},
+																									pos:        position{line: 2903, col: 10, offset: 92601},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26502,12 +26502,12 @@ var g = &grammar{
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2892, col: 11, offset: 91596},
+																							pos: position{line: 2907, col: 11, offset: 92662},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2892, col: 11, offset: 91596},
+																								pos: position{line: 2907, col: 11, offset: 92662},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2892, col: 11, offset: 91596},
+																									pos:        position{line: 2907, col: 11, offset: 92662},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26579,12 +26579,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2892, col: 11, offset: 91596},
+																								pos: position{line: 2907, col: 11, offset: 92662},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2892, col: 11, offset: 91596},
+																									pos: position{line: 2907, col: 11, offset: 92662},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2892, col: 11, offset: 91596},
+																										pos:        position{line: 2907, col: 11, offset: 92662},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -26628,28 +26628,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2910, col: 8, offset: 91933},
+																							pos: position{line: 2925, col: 8, offset: 92999},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2897, col: 12, offset: 91706},
+																									pos: position{line: 2912, col: 12, offset: 92772},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2897, col: 13, offset: 91707},
+																										pos: position{line: 2912, col: 13, offset: 92773},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 13, offset: 91707},
+																												pos:        position{line: 2912, col: 13, offset: 92773},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 20, offset: 91714},
+																												pos:        position{line: 2912, col: 20, offset: 92780},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 29, offset: 91723},
+																												pos:        position{line: 2912, col: 29, offset: 92789},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26658,9 +26658,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2907, col: 8, offset: 91883},
+																									pos: position{line: 2922, col: 8, offset: 92949},
 																									expr: &anyMatcher{
-																										line: 2907, col: 9, offset: 91884,
+																										line: 2922, col: 9, offset: 92950,
 																									},
 																								},
 																							},
@@ -26718,12 +26718,12 @@ var g = &grammar{
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2892, col: 11, offset: 91596},
+																							pos: position{line: 2907, col: 11, offset: 92662},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2892, col: 11, offset: 91596},
+																								pos: position{line: 2907, col: 11, offset: 92662},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2892, col: 11, offset: 91596},
+																									pos:        position{line: 2907, col: 11, offset: 92662},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26766,28 +26766,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2910, col: 8, offset: 91933},
+																							pos: position{line: 2925, col: 8, offset: 92999},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2897, col: 12, offset: 91706},
+																									pos: position{line: 2912, col: 12, offset: 92772},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2897, col: 13, offset: 91707},
+																										pos: position{line: 2912, col: 13, offset: 92773},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 13, offset: 91707},
+																												pos:        position{line: 2912, col: 13, offset: 92773},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 20, offset: 91714},
+																												pos:        position{line: 2912, col: 20, offset: 92780},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 29, offset: 91723},
+																												pos:        position{line: 2912, col: 29, offset: 92789},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26796,9 +26796,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2907, col: 8, offset: 91883},
+																									pos: position{line: 2922, col: 8, offset: 92949},
 																									expr: &anyMatcher{
-																										line: 2907, col: 9, offset: 91884,
+																										line: 2922, col: 9, offset: 92950,
 																									},
 																								},
 																							},
@@ -26828,18 +26828,18 @@ var g = &grammar{
 																						&notExpr{
 																							pos: position{line: 1675, col: 5, offset: 54478},
 																							expr: &seqExpr{
-																								pos: position{line: 2493, col: 31, offset: 80449},
+																								pos: position{line: 2508, col: 31, offset: 81515},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2493, col: 31, offset: 80449},
+																										pos:        position{line: 2508, col: 31, offset: 81515},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2493, col: 36, offset: 80454},
+																										pos: position{line: 2508, col: 36, offset: 81520},
 																										expr: &litMatcher{
-																											pos:        position{line: 2493, col: 37, offset: 80455},
+																											pos:        position{line: 2508, col: 37, offset: 81521},
 																											val:        "//",
 																											ignoreCase: false,
 																											want:       "\"//\"",
@@ -26889,28 +26889,28 @@ var g = &grammar{
 																									&notExpr{
 																										pos: position{line: 1676, col: 35, offset: 54540},
 																										expr: &choiceExpr{
-																											pos: position{line: 2910, col: 8, offset: 91933},
+																											pos: position{line: 2925, col: 8, offset: 92999},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2897, col: 12, offset: 91706},
+																													pos: position{line: 2912, col: 12, offset: 92772},
 																													run: (*parser).callonExtraListElement189,
 																													expr: &choiceExpr{
-																														pos: position{line: 2897, col: 13, offset: 91707},
+																														pos: position{line: 2912, col: 13, offset: 92773},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 13, offset: 91707},
+																																pos:        position{line: 2912, col: 13, offset: 92773},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 20, offset: 91714},
+																																pos:        position{line: 2912, col: 20, offset: 92780},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 29, offset: 91723},
+																																pos:        position{line: 2912, col: 29, offset: 92789},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -26919,9 +26919,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2907, col: 8, offset: 91883},
+																													pos: position{line: 2922, col: 8, offset: 92949},
 																													expr: &anyMatcher{
-																														line: 2907, col: 9, offset: 91884,
+																														line: 2922, col: 9, offset: 92950,
 																													},
 																												},
 																											},
@@ -26986,10 +26986,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 1694, col: 9, offset: 55045},
 																									expr: &actionExpr{
-																										pos: position{line: 2888, col: 10, offset: 91535},
+																										pos: position{line: 2903, col: 10, offset: 92601},
 																										run: (*parser).callonExtraListElement210,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2888, col: 10, offset: 91535},
+																											pos:        position{line: 2903, col: 10, offset: 92601},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26998,28 +26998,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2910, col: 8, offset: 91933},
+																									pos: position{line: 2925, col: 8, offset: 92999},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2897, col: 12, offset: 91706},
+																											pos: position{line: 2912, col: 12, offset: 92772},
 																											run: (*parser).callonExtraListElement213,
 																											expr: &choiceExpr{
-																												pos: position{line: 2897, col: 13, offset: 91707},
+																												pos: position{line: 2912, col: 13, offset: 92773},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2897, col: 13, offset: 91707},
+																														pos:        position{line: 2912, col: 13, offset: 92773},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2897, col: 20, offset: 91714},
+																														pos:        position{line: 2912, col: 20, offset: 92780},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2897, col: 29, offset: 91723},
+																														pos:        position{line: 2912, col: 29, offset: 92789},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27028,9 +27028,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2907, col: 8, offset: 91883},
+																											pos: position{line: 2922, col: 8, offset: 92949},
 																											expr: &anyMatcher{
-																												line: 2907, col: 9, offset: 91884,
+																												line: 2922, col: 9, offset: 92950,
 																											},
 																										},
 																									},
@@ -27044,18 +27044,18 @@ var g = &grammar{
 																											pos: position{line: 677, col: 14, offset: 21525},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2905, col: 11, offset: 91869},
+																													pos: position{line: 2920, col: 11, offset: 92935},
 																													expr: &anyMatcher{
-																														line: 2905, col: 13, offset: 91871,
+																														line: 2920, col: 13, offset: 92937,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 677, col: 21, offset: 21532},
 																													expr: &actionExpr{
-																														pos: position{line: 2888, col: 10, offset: 91535},
+																														pos: position{line: 2903, col: 10, offset: 92601},
 																														run: (*parser).callonExtraListElement226,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2888, col: 10, offset: 91535},
+																															pos:        position{line: 2903, col: 10, offset: 92601},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27064,28 +27064,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2910, col: 8, offset: 91933},
+																													pos: position{line: 2925, col: 8, offset: 92999},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2897, col: 12, offset: 91706},
+																															pos: position{line: 2912, col: 12, offset: 92772},
 																															run: (*parser).callonExtraListElement229,
 																															expr: &choiceExpr{
-																																pos: position{line: 2897, col: 13, offset: 91707},
+																																pos: position{line: 2912, col: 13, offset: 92773},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2897, col: 13, offset: 91707},
+																																		pos:        position{line: 2912, col: 13, offset: 92773},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2897, col: 20, offset: 91714},
+																																		pos:        position{line: 2912, col: 20, offset: 92780},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2897, col: 29, offset: 91723},
+																																		pos:        position{line: 2912, col: 29, offset: 92789},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -27094,9 +27094,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2907, col: 8, offset: 91883},
+																															pos: position{line: 2922, col: 8, offset: 92949},
 																															expr: &anyMatcher{
-																																line: 2907, col: 9, offset: 91884,
+																																line: 2922, col: 9, offset: 92950,
 																															},
 																														},
 																													},
@@ -27115,12 +27115,12 @@ var g = &grammar{
 																							pos: position{line: 1701, col: 9, offset: 55193},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2892, col: 11, offset: 91596},
+																									pos: position{line: 2907, col: 11, offset: 92662},
 																									run: (*parser).callonExtraListElement238,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2892, col: 11, offset: 91596},
+																										pos: position{line: 2907, col: 11, offset: 92662},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2892, col: 11, offset: 91596},
+																											pos:        position{line: 2907, col: 11, offset: 92662},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27147,28 +27147,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2910, col: 8, offset: 91933},
+																									pos: position{line: 2925, col: 8, offset: 92999},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2897, col: 12, offset: 91706},
+																											pos: position{line: 2912, col: 12, offset: 92772},
 																											run: (*parser).callonExtraListElement246,
 																											expr: &choiceExpr{
-																												pos: position{line: 2897, col: 13, offset: 91707},
+																												pos: position{line: 2912, col: 13, offset: 92773},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2897, col: 13, offset: 91707},
+																														pos:        position{line: 2912, col: 13, offset: 92773},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2897, col: 20, offset: 91714},
+																														pos:        position{line: 2912, col: 20, offset: 92780},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2897, col: 29, offset: 91723},
+																														pos:        position{line: 2912, col: 29, offset: 92789},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27177,9 +27177,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2907, col: 8, offset: 91883},
+																											pos: position{line: 2922, col: 8, offset: 92949},
 																											expr: &anyMatcher{
-																												line: 2907, col: 9, offset: 91884,
+																												line: 2922, col: 9, offset: 92950,
 																											},
 																										},
 																									},
@@ -27240,10 +27240,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1590, col: 5, offset: 51497},
 																							expr: &actionExpr{
-																								pos: position{line: 2888, col: 10, offset: 91535},
+																								pos: position{line: 2903, col: 10, offset: 92601},
 																								run: (*parser).callonExtraListElement266,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2888, col: 10, offset: 91535},
+																									pos:        position{line: 2903, col: 10, offset: 92601},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27410,12 +27410,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2892, col: 11, offset: 91596},
+																							pos: position{line: 2907, col: 11, offset: 92662},
 																							run: (*parser).callonExtraListElement300,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2892, col: 11, offset: 91596},
+																								pos: position{line: 2907, col: 11, offset: 92662},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2892, col: 11, offset: 91596},
+																									pos:        position{line: 2907, col: 11, offset: 92662},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27458,28 +27458,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2910, col: 8, offset: 91933},
+																							pos: position{line: 2925, col: 8, offset: 92999},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2897, col: 12, offset: 91706},
+																									pos: position{line: 2912, col: 12, offset: 92772},
 																									run: (*parser).callonExtraListElement312,
 																									expr: &choiceExpr{
-																										pos: position{line: 2897, col: 13, offset: 91707},
+																										pos: position{line: 2912, col: 13, offset: 92773},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 13, offset: 91707},
+																												pos:        position{line: 2912, col: 13, offset: 92773},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 20, offset: 91714},
+																												pos:        position{line: 2912, col: 20, offset: 92780},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 29, offset: 91723},
+																												pos:        position{line: 2912, col: 29, offset: 92789},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27488,9 +27488,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2907, col: 8, offset: 91883},
+																									pos: position{line: 2922, col: 8, offset: 92949},
 																									expr: &anyMatcher{
-																										line: 2907, col: 9, offset: 91884,
+																										line: 2922, col: 9, offset: 92950,
 																									},
 																								},
 																							},
@@ -27520,10 +27520,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1640, col: 5, offset: 53459},
 																							expr: &actionExpr{
-																								pos: position{line: 2888, col: 10, offset: 91535},
+																								pos: position{line: 2903, col: 10, offset: 92601},
 																								run: (*parser).callonExtraListElement325,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2888, col: 10, offset: 91535},
+																									pos:        position{line: 2903, col: 10, offset: 92601},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27564,12 +27564,12 @@ var g = &grammar{
 																							run: (*parser).callonExtraListElement333,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2892, col: 11, offset: 91596},
+																							pos: position{line: 2907, col: 11, offset: 92662},
 																							run: (*parser).callonExtraListElement334,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2892, col: 11, offset: 91596},
+																								pos: position{line: 2907, col: 11, offset: 92662},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2892, col: 11, offset: 91596},
+																									pos:        position{line: 2907, col: 11, offset: 92662},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27641,12 +27641,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2892, col: 11, offset: 91596},
+																								pos: position{line: 2907, col: 11, offset: 92662},
 																								run: (*parser).callonExtraListElement351,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2892, col: 11, offset: 91596},
+																									pos: position{line: 2907, col: 11, offset: 92662},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2892, col: 11, offset: 91596},
+																										pos:        position{line: 2907, col: 11, offset: 92662},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27690,28 +27690,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2910, col: 8, offset: 91933},
+																							pos: position{line: 2925, col: 8, offset: 92999},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2897, col: 12, offset: 91706},
+																									pos: position{line: 2912, col: 12, offset: 92772},
 																									run: (*parser).callonExtraListElement363,
 																									expr: &choiceExpr{
-																										pos: position{line: 2897, col: 13, offset: 91707},
+																										pos: position{line: 2912, col: 13, offset: 92773},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 13, offset: 91707},
+																												pos:        position{line: 2912, col: 13, offset: 92773},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 20, offset: 91714},
+																												pos:        position{line: 2912, col: 20, offset: 92780},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 29, offset: 91723},
+																												pos:        position{line: 2912, col: 29, offset: 92789},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27720,9 +27720,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2907, col: 8, offset: 91883},
+																									pos: position{line: 2922, col: 8, offset: 92949},
 																									expr: &anyMatcher{
-																										line: 2907, col: 9, offset: 91884,
+																										line: 2922, col: 9, offset: 92950,
 																									},
 																								},
 																							},
@@ -27780,12 +27780,12 @@ var g = &grammar{
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2892, col: 11, offset: 91596},
+																							pos: position{line: 2907, col: 11, offset: 92662},
 																							run: (*parser).callonExtraListElement381,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2892, col: 11, offset: 91596},
+																								pos: position{line: 2907, col: 11, offset: 92662},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2892, col: 11, offset: 91596},
+																									pos:        position{line: 2907, col: 11, offset: 92662},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27828,28 +27828,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2910, col: 8, offset: 91933},
+																							pos: position{line: 2925, col: 8, offset: 92999},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2897, col: 12, offset: 91706},
+																									pos: position{line: 2912, col: 12, offset: 92772},
 																									run: (*parser).callonExtraListElement393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2897, col: 13, offset: 91707},
+																										pos: position{line: 2912, col: 13, offset: 92773},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 13, offset: 91707},
+																												pos:        position{line: 2912, col: 13, offset: 92773},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 20, offset: 91714},
+																												pos:        position{line: 2912, col: 20, offset: 92780},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 29, offset: 91723},
+																												pos:        position{line: 2912, col: 29, offset: 92789},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27858,9 +27858,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2907, col: 8, offset: 91883},
+																									pos: position{line: 2922, col: 8, offset: 92949},
 																									expr: &anyMatcher{
-																										line: 2907, col: 9, offset: 91884,
+																										line: 2922, col: 9, offset: 92950,
 																									},
 																								},
 																							},
@@ -27890,18 +27890,18 @@ var g = &grammar{
 																						&notExpr{
 																							pos: position{line: 1675, col: 5, offset: 54478},
 																							expr: &seqExpr{
-																								pos: position{line: 2493, col: 31, offset: 80449},
+																								pos: position{line: 2508, col: 31, offset: 81515},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2493, col: 31, offset: 80449},
+																										pos:        position{line: 2508, col: 31, offset: 81515},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2493, col: 36, offset: 80454},
+																										pos: position{line: 2508, col: 36, offset: 81520},
 																										expr: &litMatcher{
-																											pos:        position{line: 2493, col: 37, offset: 80455},
+																											pos:        position{line: 2508, col: 37, offset: 81521},
 																											val:        "//",
 																											ignoreCase: false,
 																											want:       "\"//\"",
@@ -27951,28 +27951,28 @@ var g = &grammar{
 																									&notExpr{
 																										pos: position{line: 1676, col: 35, offset: 54540},
 																										expr: &choiceExpr{
-																											pos: position{line: 2910, col: 8, offset: 91933},
+																											pos: position{line: 2925, col: 8, offset: 92999},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2897, col: 12, offset: 91706},
+																													pos: position{line: 2912, col: 12, offset: 92772},
 																													run: (*parser).callonExtraListElement422,
 																													expr: &choiceExpr{
-																														pos: position{line: 2897, col: 13, offset: 91707},
+																														pos: position{line: 2912, col: 13, offset: 92773},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 13, offset: 91707},
+																																pos:        position{line: 2912, col: 13, offset: 92773},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 20, offset: 91714},
+																																pos:        position{line: 2912, col: 20, offset: 92780},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 29, offset: 91723},
+																																pos:        position{line: 2912, col: 29, offset: 92789},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -27981,9 +27981,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2907, col: 8, offset: 91883},
+																													pos: position{line: 2922, col: 8, offset: 92949},
 																													expr: &anyMatcher{
-																														line: 2907, col: 9, offset: 91884,
+																														line: 2922, col: 9, offset: 92950,
 																													},
 																												},
 																											},
@@ -28048,10 +28048,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 1694, col: 9, offset: 55045},
 																									expr: &actionExpr{
-																										pos: position{line: 2888, col: 10, offset: 91535},
+																										pos: position{line: 2903, col: 10, offset: 92601},
 																										run: (*parser).callonExtraListElement443,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2888, col: 10, offset: 91535},
+																											pos:        position{line: 2903, col: 10, offset: 92601},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28060,28 +28060,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2910, col: 8, offset: 91933},
+																									pos: position{line: 2925, col: 8, offset: 92999},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2897, col: 12, offset: 91706},
+																											pos: position{line: 2912, col: 12, offset: 92772},
 																											run: (*parser).callonExtraListElement446,
 																											expr: &choiceExpr{
-																												pos: position{line: 2897, col: 13, offset: 91707},
+																												pos: position{line: 2912, col: 13, offset: 92773},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2897, col: 13, offset: 91707},
+																														pos:        position{line: 2912, col: 13, offset: 92773},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2897, col: 20, offset: 91714},
+																														pos:        position{line: 2912, col: 20, offset: 92780},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2897, col: 29, offset: 91723},
+																														pos:        position{line: 2912, col: 29, offset: 92789},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28090,9 +28090,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2907, col: 8, offset: 91883},
+																											pos: position{line: 2922, col: 8, offset: 92949},
 																											expr: &anyMatcher{
-																												line: 2907, col: 9, offset: 91884,
+																												line: 2922, col: 9, offset: 92950,
 																											},
 																										},
 																									},
@@ -28106,18 +28106,18 @@ var g = &grammar{
 																											pos: position{line: 677, col: 14, offset: 21525},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2905, col: 11, offset: 91869},
+																													pos: position{line: 2920, col: 11, offset: 92935},
 																													expr: &anyMatcher{
-																														line: 2905, col: 13, offset: 91871,
+																														line: 2920, col: 13, offset: 92937,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 677, col: 21, offset: 21532},
 																													expr: &actionExpr{
-																														pos: position{line: 2888, col: 10, offset: 91535},
+																														pos: position{line: 2903, col: 10, offset: 92601},
 																														run: (*parser).callonExtraListElement459,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2888, col: 10, offset: 91535},
+																															pos:        position{line: 2903, col: 10, offset: 92601},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -28126,28 +28126,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2910, col: 8, offset: 91933},
+																													pos: position{line: 2925, col: 8, offset: 92999},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2897, col: 12, offset: 91706},
+																															pos: position{line: 2912, col: 12, offset: 92772},
 																															run: (*parser).callonExtraListElement462,
 																															expr: &choiceExpr{
-																																pos: position{line: 2897, col: 13, offset: 91707},
+																																pos: position{line: 2912, col: 13, offset: 92773},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2897, col: 13, offset: 91707},
+																																		pos:        position{line: 2912, col: 13, offset: 92773},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2897, col: 20, offset: 91714},
+																																		pos:        position{line: 2912, col: 20, offset: 92780},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2897, col: 29, offset: 91723},
+																																		pos:        position{line: 2912, col: 29, offset: 92789},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -28156,9 +28156,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2907, col: 8, offset: 91883},
+																															pos: position{line: 2922, col: 8, offset: 92949},
 																															expr: &anyMatcher{
-																																line: 2907, col: 9, offset: 91884,
+																																line: 2922, col: 9, offset: 92950,
 																															},
 																														},
 																													},
@@ -28177,12 +28177,12 @@ var g = &grammar{
 																							pos: position{line: 1701, col: 9, offset: 55193},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2892, col: 11, offset: 91596},
+																									pos: position{line: 2907, col: 11, offset: 92662},
 																									run: (*parser).callonExtraListElement471,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2892, col: 11, offset: 91596},
+																										pos: position{line: 2907, col: 11, offset: 92662},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2892, col: 11, offset: 91596},
+																											pos:        position{line: 2907, col: 11, offset: 92662},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28209,28 +28209,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2910, col: 8, offset: 91933},
+																									pos: position{line: 2925, col: 8, offset: 92999},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2897, col: 12, offset: 91706},
+																											pos: position{line: 2912, col: 12, offset: 92772},
 																											run: (*parser).callonExtraListElement479,
 																											expr: &choiceExpr{
-																												pos: position{line: 2897, col: 13, offset: 91707},
+																												pos: position{line: 2912, col: 13, offset: 92773},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2897, col: 13, offset: 91707},
+																														pos:        position{line: 2912, col: 13, offset: 92773},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2897, col: 20, offset: 91714},
+																														pos:        position{line: 2912, col: 20, offset: 92780},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2897, col: 29, offset: 91723},
+																														pos:        position{line: 2912, col: 29, offset: 92789},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28239,9 +28239,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2907, col: 8, offset: 91883},
+																											pos: position{line: 2922, col: 8, offset: 92949},
 																											expr: &anyMatcher{
-																												line: 2907, col: 9, offset: 91884,
+																												line: 2922, col: 9, offset: 92950,
 																											},
 																										},
 																									},
@@ -28266,36 +28266,36 @@ var g = &grammar{
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2488, col: 22, offset: 80228},
+										pos: position{line: 2503, col: 22, offset: 81294},
 										run: (*parser).callonExtraListElement487,
 										expr: &seqExpr{
-											pos: position{line: 2488, col: 22, offset: 80228},
+											pos: position{line: 2503, col: 22, offset: 81294},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2493, col: 31, offset: 80449},
+													pos:        position{line: 2508, col: 31, offset: 81515},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2493, col: 36, offset: 80454},
+													pos: position{line: 2508, col: 36, offset: 81520},
 													expr: &litMatcher{
-														pos:        position{line: 2493, col: 37, offset: 80455},
+														pos:        position{line: 2508, col: 37, offset: 81521},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2488, col: 49, offset: 80255},
+													pos:   position{line: 2503, col: 49, offset: 81321},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2834, col: 13, offset: 90061},
+														pos: position{line: 2849, col: 13, offset: 91127},
 														run: (*parser).callonExtraListElement493,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2834, col: 13, offset: 90061},
+															pos: position{line: 2849, col: 13, offset: 91127},
 															expr: &charClassMatcher{
-																pos:        position{line: 2834, col: 13, offset: 90061},
+																pos:        position{line: 2849, col: 13, offset: 91127},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -28305,28 +28305,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2910, col: 8, offset: 91933},
+													pos: position{line: 2925, col: 8, offset: 92999},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2897, col: 12, offset: 91706},
+															pos: position{line: 2912, col: 12, offset: 92772},
 															run: (*parser).callonExtraListElement497,
 															expr: &choiceExpr{
-																pos: position{line: 2897, col: 13, offset: 91707},
+																pos: position{line: 2912, col: 13, offset: 92773},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2897, col: 13, offset: 91707},
+																		pos:        position{line: 2912, col: 13, offset: 92773},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2897, col: 20, offset: 91714},
+																		pos:        position{line: 2912, col: 20, offset: 92780},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2897, col: 29, offset: 91723},
+																		pos:        position{line: 2912, col: 29, offset: 92789},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -28335,9 +28335,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2907, col: 8, offset: 91883},
+															pos: position{line: 2922, col: 8, offset: 92949},
 															expr: &anyMatcher{
-																line: 2907, col: 9, offset: 91884,
+																line: 2922, col: 9, offset: 92950,
 															},
 														},
 													},
@@ -28360,18 +28360,18 @@ var g = &grammar{
 															pos: position{line: 677, col: 14, offset: 21525},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2905, col: 11, offset: 91869},
+																	pos: position{line: 2920, col: 11, offset: 92935},
 																	expr: &anyMatcher{
-																		line: 2905, col: 13, offset: 91871,
+																		line: 2920, col: 13, offset: 92937,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 677, col: 21, offset: 21532},
 																	expr: &actionExpr{
-																		pos: position{line: 2888, col: 10, offset: 91535},
+																		pos: position{line: 2903, col: 10, offset: 92601},
 																		run: (*parser).callonExtraListElement512,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2888, col: 10, offset: 91535},
+																			pos:        position{line: 2903, col: 10, offset: 92601},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28380,28 +28380,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2910, col: 8, offset: 91933},
+																	pos: position{line: 2925, col: 8, offset: 92999},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2897, col: 12, offset: 91706},
+																			pos: position{line: 2912, col: 12, offset: 92772},
 																			run: (*parser).callonExtraListElement515,
 																			expr: &choiceExpr{
-																				pos: position{line: 2897, col: 13, offset: 91707},
+																				pos: position{line: 2912, col: 13, offset: 92773},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 13, offset: 91707},
+																						pos:        position{line: 2912, col: 13, offset: 92773},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 20, offset: 91714},
+																						pos:        position{line: 2912, col: 20, offset: 92780},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 29, offset: 91723},
+																						pos:        position{line: 2912, col: 29, offset: 92789},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -28410,9 +28410,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2907, col: 8, offset: 91883},
+																			pos: position{line: 2922, col: 8, offset: 92949},
 																			expr: &anyMatcher{
-																				line: 2907, col: 9, offset: 91884,
+																				line: 2922, col: 9, offset: 92950,
 																			},
 																		},
 																	},
@@ -28435,10 +28435,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1548, col: 31, offset: 50257},
 																expr: &actionExpr{
-																	pos: position{line: 2888, col: 10, offset: 91535},
+																	pos: position{line: 2903, col: 10, offset: 92601},
 																	run: (*parser).callonExtraListElement526,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2888, col: 10, offset: 91535},
+																		pos:        position{line: 2903, col: 10, offset: 92601},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -28447,25 +28447,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2897, col: 12, offset: 91706},
+																pos: position{line: 2912, col: 12, offset: 92772},
 																run: (*parser).callonExtraListElement528,
 																expr: &choiceExpr{
-																	pos: position{line: 2897, col: 13, offset: 91707},
+																	pos: position{line: 2912, col: 13, offset: 92773},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2897, col: 13, offset: 91707},
+																			pos:        position{line: 2912, col: 13, offset: 92773},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2897, col: 20, offset: 91714},
+																			pos:        position{line: 2912, col: 20, offset: 92780},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2897, col: 29, offset: 91723},
+																			pos:        position{line: 2912, col: 29, offset: 92789},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -28487,10 +28487,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1590, col: 5, offset: 51497},
 																	expr: &actionExpr{
-																		pos: position{line: 2888, col: 10, offset: 91535},
+																		pos: position{line: 2903, col: 10, offset: 92601},
 																		run: (*parser).callonExtraListElement537,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2888, col: 10, offset: 91535},
+																			pos:        position{line: 2903, col: 10, offset: 92601},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28657,12 +28657,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2892, col: 11, offset: 91596},
+																	pos: position{line: 2907, col: 11, offset: 92662},
 																	run: (*parser).callonExtraListElement571,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2892, col: 11, offset: 91596},
+																		pos: position{line: 2907, col: 11, offset: 92662},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2892, col: 11, offset: 91596},
+																			pos:        position{line: 2907, col: 11, offset: 92662},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28685,10 +28685,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1640, col: 5, offset: 53459},
 																	expr: &actionExpr{
-																		pos: position{line: 2888, col: 10, offset: 91535},
+																		pos: position{line: 2903, col: 10, offset: 92601},
 																		run: (*parser).callonExtraListElement578,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2888, col: 10, offset: 91535},
+																			pos:        position{line: 2903, col: 10, offset: 92601},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28729,12 +28729,12 @@ var g = &grammar{
 																	run: (*parser).callonExtraListElement586,
 																},
 																&actionExpr{
-																	pos: position{line: 2892, col: 11, offset: 91596},
+																	pos: position{line: 2907, col: 11, offset: 92662},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2892, col: 11, offset: 91596},
+																		pos: position{line: 2907, col: 11, offset: 92662},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2892, col: 11, offset: 91596},
+																			pos:        position{line: 2907, col: 11, offset: 92662},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28785,12 +28785,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2892, col: 11, offset: 91596},
+																	pos: position{line: 2907, col: 11, offset: 92662},
 																	run: (*parser).callonExtraListElement599,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2892, col: 11, offset: 91596},
+																		pos: position{line: 2907, col: 11, offset: 92662},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2892, col: 11, offset: 91596},
+																			pos:        position{line: 2907, col: 11, offset: 92662},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28816,18 +28816,18 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1675, col: 5, offset: 54478},
 																			expr: &seqExpr{
-																				pos: position{line: 2493, col: 31, offset: 80449},
+																				pos: position{line: 2508, col: 31, offset: 81515},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2493, col: 31, offset: 80449},
+																						pos:        position{line: 2508, col: 31, offset: 81515},
 																						val:        "//",
 																						ignoreCase: false,
 																						want:       "\"//\"",
 																					},
 																					&notExpr{
-																						pos: position{line: 2493, col: 36, offset: 80454},
+																						pos: position{line: 2508, col: 36, offset: 81520},
 																						expr: &litMatcher{
-																							pos:        position{line: 2493, col: 37, offset: 80455},
+																							pos:        position{line: 2508, col: 37, offset: 81521},
 																							val:        "//",
 																							ignoreCase: false,
 																							want:       "\"//\"",
@@ -28877,28 +28877,28 @@ var g = &grammar{
 																					&notExpr{
 																						pos: position{line: 1676, col: 35, offset: 54540},
 																						expr: &choiceExpr{
-																							pos: position{line: 2910, col: 8, offset: 91933},
+																							pos: position{line: 2925, col: 8, offset: 92999},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2897, col: 12, offset: 91706},
+																									pos: position{line: 2912, col: 12, offset: 92772},
 																									run: (*parser).callonExtraListElement623,
 																									expr: &choiceExpr{
-																										pos: position{line: 2897, col: 13, offset: 91707},
+																										pos: position{line: 2912, col: 13, offset: 92773},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 13, offset: 91707},
+																												pos:        position{line: 2912, col: 13, offset: 92773},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 20, offset: 91714},
+																												pos:        position{line: 2912, col: 20, offset: 92780},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 29, offset: 91723},
+																												pos:        position{line: 2912, col: 29, offset: 92789},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28907,9 +28907,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2907, col: 8, offset: 91883},
+																									pos: position{line: 2922, col: 8, offset: 92949},
 																									expr: &anyMatcher{
-																										line: 2907, col: 9, offset: 91884,
+																										line: 2922, col: 9, offset: 92950,
 																									},
 																								},
 																							},
@@ -28968,7 +28968,7 @@ var g = &grammar{
 																&notExpr{
 																	pos: position{line: 725, col: 5, offset: 23101},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2771, col: 13, offset: 88416},
+																		pos:        position{line: 2786, col: 13, offset: 89482},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -29018,10 +29018,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 743, col: 8, offset: 23745},
 																							expr: &actionExpr{
-																								pos: position{line: 2888, col: 10, offset: 91535},
+																								pos: position{line: 2903, col: 10, offset: 92601},
 																								run: (*parser).callonExtraListElement654,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2888, col: 10, offset: 91535},
+																									pos:        position{line: 2903, col: 10, offset: 92601},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29030,28 +29030,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2910, col: 8, offset: 91933},
+																							pos: position{line: 2925, col: 8, offset: 92999},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2897, col: 12, offset: 91706},
+																									pos: position{line: 2912, col: 12, offset: 92772},
 																									run: (*parser).callonExtraListElement657,
 																									expr: &choiceExpr{
-																										pos: position{line: 2897, col: 13, offset: 91707},
+																										pos: position{line: 2912, col: 13, offset: 92773},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 13, offset: 91707},
+																												pos:        position{line: 2912, col: 13, offset: 92773},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 20, offset: 91714},
+																												pos:        position{line: 2912, col: 20, offset: 92780},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 29, offset: 91723},
+																												pos:        position{line: 2912, col: 29, offset: 92789},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29060,9 +29060,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2907, col: 8, offset: 91883},
+																									pos: position{line: 2922, col: 8, offset: 92949},
 																									expr: &anyMatcher{
-																										line: 2907, col: 9, offset: 91884,
+																										line: 2922, col: 9, offset: 92950,
 																									},
 																								},
 																							},
@@ -29107,10 +29107,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 750, col: 8, offset: 23993},
 																							expr: &actionExpr{
-																								pos: position{line: 2888, col: 10, offset: 91535},
+																								pos: position{line: 2903, col: 10, offset: 92601},
 																								run: (*parser).callonExtraListElement673,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2888, col: 10, offset: 91535},
+																									pos:        position{line: 2903, col: 10, offset: 92601},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29119,28 +29119,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2910, col: 8, offset: 91933},
+																							pos: position{line: 2925, col: 8, offset: 92999},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2897, col: 12, offset: 91706},
+																									pos: position{line: 2912, col: 12, offset: 92772},
 																									run: (*parser).callonExtraListElement676,
 																									expr: &choiceExpr{
-																										pos: position{line: 2897, col: 13, offset: 91707},
+																										pos: position{line: 2912, col: 13, offset: 92773},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 13, offset: 91707},
+																												pos:        position{line: 2912, col: 13, offset: 92773},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 20, offset: 91714},
+																												pos:        position{line: 2912, col: 20, offset: 92780},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 29, offset: 91723},
+																												pos:        position{line: 2912, col: 29, offset: 92789},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29149,9 +29149,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2907, col: 8, offset: 91883},
+																									pos: position{line: 2922, col: 8, offset: 92949},
 																									expr: &anyMatcher{
-																										line: 2907, col: 9, offset: 91884,
+																										line: 2922, col: 9, offset: 92950,
 																									},
 																								},
 																							},
@@ -29192,10 +29192,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 761, col: 52, offset: 24405},
 																							expr: &actionExpr{
-																								pos: position{line: 2888, col: 10, offset: 91535},
+																								pos: position{line: 2903, col: 10, offset: 92601},
 																								run: (*parser).callonExtraListElement691,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2888, col: 10, offset: 91535},
+																									pos:        position{line: 2903, col: 10, offset: 92601},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29204,28 +29204,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2910, col: 8, offset: 91933},
+																							pos: position{line: 2925, col: 8, offset: 92999},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2897, col: 12, offset: 91706},
+																									pos: position{line: 2912, col: 12, offset: 92772},
 																									run: (*parser).callonExtraListElement694,
 																									expr: &choiceExpr{
-																										pos: position{line: 2897, col: 13, offset: 91707},
+																										pos: position{line: 2912, col: 13, offset: 92773},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 13, offset: 91707},
+																												pos:        position{line: 2912, col: 13, offset: 92773},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 20, offset: 91714},
+																												pos:        position{line: 2912, col: 20, offset: 92780},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 29, offset: 91723},
+																												pos:        position{line: 2912, col: 29, offset: 92789},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29234,9 +29234,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2907, col: 8, offset: 91883},
+																									pos: position{line: 2922, col: 8, offset: 92949},
 																									expr: &anyMatcher{
-																										line: 2907, col: 9, offset: 91884,
+																										line: 2922, col: 9, offset: 92950,
 																									},
 																								},
 																							},
@@ -29281,10 +29281,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 757, col: 8, offset: 24239},
 																							expr: &actionExpr{
-																								pos: position{line: 2888, col: 10, offset: 91535},
+																								pos: position{line: 2903, col: 10, offset: 92601},
 																								run: (*parser).callonExtraListElement710,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2888, col: 10, offset: 91535},
+																									pos:        position{line: 2903, col: 10, offset: 92601},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29293,28 +29293,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2910, col: 8, offset: 91933},
+																							pos: position{line: 2925, col: 8, offset: 92999},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2897, col: 12, offset: 91706},
+																									pos: position{line: 2912, col: 12, offset: 92772},
 																									run: (*parser).callonExtraListElement713,
 																									expr: &choiceExpr{
-																										pos: position{line: 2897, col: 13, offset: 91707},
+																										pos: position{line: 2912, col: 13, offset: 92773},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 13, offset: 91707},
+																												pos:        position{line: 2912, col: 13, offset: 92773},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 20, offset: 91714},
+																												pos:        position{line: 2912, col: 20, offset: 92780},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 29, offset: 91723},
+																												pos:        position{line: 2912, col: 29, offset: 92789},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29323,9 +29323,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2907, col: 8, offset: 91883},
+																									pos: position{line: 2922, col: 8, offset: 92949},
 																									expr: &anyMatcher{
-																										line: 2907, col: 9, offset: 91884,
+																										line: 2922, col: 9, offset: 92950,
 																									},
 																								},
 																							},
@@ -29370,10 +29370,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 772, col: 8, offset: 24782},
 																							expr: &actionExpr{
-																								pos: position{line: 2888, col: 10, offset: 91535},
+																								pos: position{line: 2903, col: 10, offset: 92601},
 																								run: (*parser).callonExtraListElement729,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2888, col: 10, offset: 91535},
+																									pos:        position{line: 2903, col: 10, offset: 92601},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29382,28 +29382,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2910, col: 8, offset: 91933},
+																							pos: position{line: 2925, col: 8, offset: 92999},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2897, col: 12, offset: 91706},
+																									pos: position{line: 2912, col: 12, offset: 92772},
 																									run: (*parser).callonExtraListElement732,
 																									expr: &choiceExpr{
-																										pos: position{line: 2897, col: 13, offset: 91707},
+																										pos: position{line: 2912, col: 13, offset: 92773},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 13, offset: 91707},
+																												pos:        position{line: 2912, col: 13, offset: 92773},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 20, offset: 91714},
+																												pos:        position{line: 2912, col: 20, offset: 92780},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 29, offset: 91723},
+																												pos:        position{line: 2912, col: 29, offset: 92789},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29412,9 +29412,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2907, col: 8, offset: 91883},
+																									pos: position{line: 2922, col: 8, offset: 92949},
 																									expr: &anyMatcher{
-																										line: 2907, col: 9, offset: 91884,
+																										line: 2922, col: 9, offset: 92950,
 																									},
 																								},
 																							},
@@ -29459,10 +29459,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 786, col: 8, offset: 25258},
 																							expr: &actionExpr{
-																								pos: position{line: 2888, col: 10, offset: 91535},
+																								pos: position{line: 2903, col: 10, offset: 92601},
 																								run: (*parser).callonExtraListElement748,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2888, col: 10, offset: 91535},
+																									pos:        position{line: 2903, col: 10, offset: 92601},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29471,28 +29471,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2910, col: 8, offset: 91933},
+																							pos: position{line: 2925, col: 8, offset: 92999},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2897, col: 12, offset: 91706},
+																									pos: position{line: 2912, col: 12, offset: 92772},
 																									run: (*parser).callonExtraListElement751,
 																									expr: &choiceExpr{
-																										pos: position{line: 2897, col: 13, offset: 91707},
+																										pos: position{line: 2912, col: 13, offset: 92773},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 13, offset: 91707},
+																												pos:        position{line: 2912, col: 13, offset: 92773},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 20, offset: 91714},
+																												pos:        position{line: 2912, col: 20, offset: 92780},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 29, offset: 91723},
+																												pos:        position{line: 2912, col: 29, offset: 92789},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29501,9 +29501,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2907, col: 8, offset: 91883},
+																									pos: position{line: 2922, col: 8, offset: 92949},
 																									expr: &anyMatcher{
-																										line: 2907, col: 9, offset: 91884,
+																										line: 2922, col: 9, offset: 92950,
 																									},
 																								},
 																							},
@@ -29548,10 +29548,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 793, col: 8, offset: 25510},
 																							expr: &actionExpr{
-																								pos: position{line: 2888, col: 10, offset: 91535},
+																								pos: position{line: 2903, col: 10, offset: 92601},
 																								run: (*parser).callonExtraListElement767,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2888, col: 10, offset: 91535},
+																									pos:        position{line: 2903, col: 10, offset: 92601},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29560,28 +29560,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2910, col: 8, offset: 91933},
+																							pos: position{line: 2925, col: 8, offset: 92999},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2897, col: 12, offset: 91706},
+																									pos: position{line: 2912, col: 12, offset: 92772},
 																									run: (*parser).callonExtraListElement770,
 																									expr: &choiceExpr{
-																										pos: position{line: 2897, col: 13, offset: 91707},
+																										pos: position{line: 2912, col: 13, offset: 92773},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 13, offset: 91707},
+																												pos:        position{line: 2912, col: 13, offset: 92773},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 20, offset: 91714},
+																												pos:        position{line: 2912, col: 20, offset: 92780},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 29, offset: 91723},
+																												pos:        position{line: 2912, col: 29, offset: 92789},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29590,9 +29590,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2907, col: 8, offset: 91883},
+																									pos: position{line: 2922, col: 8, offset: 92949},
 																									expr: &anyMatcher{
-																										line: 2907, col: 9, offset: 91884,
+																										line: 2922, col: 9, offset: 92950,
 																									},
 																								},
 																							},
@@ -29637,10 +29637,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 800, col: 8, offset: 25760},
 																							expr: &actionExpr{
-																								pos: position{line: 2888, col: 10, offset: 91535},
+																								pos: position{line: 2903, col: 10, offset: 92601},
 																								run: (*parser).callonExtraListElement786,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2888, col: 10, offset: 91535},
+																									pos:        position{line: 2903, col: 10, offset: 92601},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29649,28 +29649,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2910, col: 8, offset: 91933},
+																							pos: position{line: 2925, col: 8, offset: 92999},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2897, col: 12, offset: 91706},
+																									pos: position{line: 2912, col: 12, offset: 92772},
 																									run: (*parser).callonExtraListElement789,
 																									expr: &choiceExpr{
-																										pos: position{line: 2897, col: 13, offset: 91707},
+																										pos: position{line: 2912, col: 13, offset: 92773},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 13, offset: 91707},
+																												pos:        position{line: 2912, col: 13, offset: 92773},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 20, offset: 91714},
+																												pos:        position{line: 2912, col: 20, offset: 92780},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 29, offset: 91723},
+																												pos:        position{line: 2912, col: 29, offset: 92789},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29679,9 +29679,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2907, col: 8, offset: 91883},
+																									pos: position{line: 2922, col: 8, offset: 92949},
 																									expr: &anyMatcher{
-																										line: 2907, col: 9, offset: 91884,
+																										line: 2922, col: 9, offset: 92950,
 																									},
 																								},
 																							},
@@ -29726,10 +29726,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 807, col: 8, offset: 26006},
 																							expr: &actionExpr{
-																								pos: position{line: 2888, col: 10, offset: 91535},
+																								pos: position{line: 2903, col: 10, offset: 92601},
 																								run: (*parser).callonExtraListElement805,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2888, col: 10, offset: 91535},
+																									pos:        position{line: 2903, col: 10, offset: 92601},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29738,28 +29738,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2910, col: 8, offset: 91933},
+																							pos: position{line: 2925, col: 8, offset: 92999},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2897, col: 12, offset: 91706},
+																									pos: position{line: 2912, col: 12, offset: 92772},
 																									run: (*parser).callonExtraListElement808,
 																									expr: &choiceExpr{
-																										pos: position{line: 2897, col: 13, offset: 91707},
+																										pos: position{line: 2912, col: 13, offset: 92773},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 13, offset: 91707},
+																												pos:        position{line: 2912, col: 13, offset: 92773},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 20, offset: 91714},
+																												pos:        position{line: 2912, col: 20, offset: 92780},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 29, offset: 91723},
+																												pos:        position{line: 2912, col: 29, offset: 92789},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29768,9 +29768,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2907, col: 8, offset: 91883},
+																									pos: position{line: 2922, col: 8, offset: 92949},
 																									expr: &anyMatcher{
-																										line: 2907, col: 9, offset: 91884,
+																										line: 2922, col: 9, offset: 92950,
 																									},
 																								},
 																							},
@@ -29789,12 +29789,12 @@ var g = &grammar{
 													pos:   position{line: 1524, col: 5, offset: 49625},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2838, col: 14, offset: 90128},
+														pos: position{line: 2853, col: 14, offset: 91194},
 														run: (*parser).callonExtraListElement816,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2838, col: 14, offset: 90128},
+															pos: position{line: 2853, col: 14, offset: 91194},
 															expr: &charClassMatcher{
-																pos:        position{line: 2838, col: 14, offset: 90128},
+																pos:        position{line: 2853, col: 14, offset: 91194},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -29804,28 +29804,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2910, col: 8, offset: 91933},
+													pos: position{line: 2925, col: 8, offset: 92999},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2897, col: 12, offset: 91706},
+															pos: position{line: 2912, col: 12, offset: 92772},
 															run: (*parser).callonExtraListElement820,
 															expr: &choiceExpr{
-																pos: position{line: 2897, col: 13, offset: 91707},
+																pos: position{line: 2912, col: 13, offset: 92773},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2897, col: 13, offset: 91707},
+																		pos:        position{line: 2912, col: 13, offset: 92773},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2897, col: 20, offset: 91714},
+																		pos:        position{line: 2912, col: 20, offset: 92780},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2897, col: 29, offset: 91723},
+																		pos:        position{line: 2912, col: 29, offset: 92789},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -29834,9 +29834,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2907, col: 8, offset: 91883},
+															pos: position{line: 2922, col: 8, offset: 92949},
 															expr: &anyMatcher{
-																line: 2907, col: 9, offset: 91884,
+																line: 2922, col: 9, offset: 92950,
 															},
 														},
 													},
@@ -29871,10 +29871,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 1541, col: 13, offset: 50049},
 											expr: &actionExpr{
-												pos: position{line: 2888, col: 10, offset: 91535},
+												pos: position{line: 2903, col: 10, offset: 92601},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2888, col: 10, offset: 91535},
+													pos:        position{line: 2903, col: 10, offset: 92601},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -29883,25 +29883,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2897, col: 12, offset: 91706},
+											pos: position{line: 2912, col: 12, offset: 92772},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2897, col: 13, offset: 91707},
+												pos: position{line: 2912, col: 13, offset: 92773},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2897, col: 13, offset: 91707},
+														pos:        position{line: 2912, col: 13, offset: 92773},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2897, col: 20, offset: 91714},
+														pos:        position{line: 2912, col: 20, offset: 92780},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2897, col: 29, offset: 91723},
+														pos:        position{line: 2912, col: 29, offset: 92789},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -29922,10 +29922,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1548, col: 31, offset: 50257},
 							expr: &actionExpr{
-								pos: position{line: 2888, col: 10, offset: 91535},
+								pos: position{line: 2903, col: 10, offset: 92601},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2888, col: 10, offset: 91535},
+									pos:        position{line: 2903, col: 10, offset: 92601},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -29934,25 +29934,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2897, col: 12, offset: 91706},
+							pos: position{line: 2912, col: 12, offset: 92772},
 							run: (*parser).callonListContinuation18,
 							expr: &choiceExpr{
-								pos: position{line: 2897, col: 13, offset: 91707},
+								pos: position{line: 2912, col: 13, offset: 92773},
 								alternatives: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2897, col: 13, offset: 91707},
+										pos:        position{line: 2912, col: 13, offset: 92773},
 										val:        "\n",
 										ignoreCase: false,
 										want:       "\"\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2897, col: 20, offset: 91714},
+										pos:        position{line: 2912, col: 20, offset: 92780},
 										val:        "\r\n",
 										ignoreCase: false,
 										want:       "\"\\r\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2897, col: 29, offset: 91723},
+										pos:        position{line: 2912, col: 29, offset: 92789},
 										val:        "\r",
 										ignoreCase: false,
 										want:       "\"\\r\"",
@@ -29985,9 +29985,9 @@ var g = &grammar{
 					pos: position{line: 1551, col: 5, offset: 50344},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2905, col: 11, offset: 91869},
+							pos: position{line: 2920, col: 11, offset: 92935},
 							expr: &anyMatcher{
-								line: 2905, col: 13, offset: 91871,
+								line: 2920, col: 13, offset: 92937,
 							},
 						},
 						&notExpr{
@@ -30013,10 +30013,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1590, col: 5, offset: 51497},
 																	expr: &actionExpr{
-																		pos: position{line: 2888, col: 10, offset: 91535},
+																		pos: position{line: 2903, col: 10, offset: 92601},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2888, col: 10, offset: 91535},
+																			pos:        position{line: 2903, col: 10, offset: 92601},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30183,12 +30183,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2892, col: 11, offset: 91596},
+																	pos: position{line: 2907, col: 11, offset: 92662},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2892, col: 11, offset: 91596},
+																		pos: position{line: 2907, col: 11, offset: 92662},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2892, col: 11, offset: 91596},
+																			pos:        position{line: 2907, col: 11, offset: 92662},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30231,28 +30231,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2910, col: 8, offset: 91933},
+																	pos: position{line: 2925, col: 8, offset: 92999},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2897, col: 12, offset: 91706},
+																			pos: position{line: 2912, col: 12, offset: 92772},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2897, col: 13, offset: 91707},
+																				pos: position{line: 2912, col: 13, offset: 92773},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 13, offset: 91707},
+																						pos:        position{line: 2912, col: 13, offset: 92773},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 20, offset: 91714},
+																						pos:        position{line: 2912, col: 20, offset: 92780},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 29, offset: 91723},
+																						pos:        position{line: 2912, col: 29, offset: 92789},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30261,9 +30261,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2907, col: 8, offset: 91883},
+																			pos: position{line: 2922, col: 8, offset: 92949},
 																			expr: &anyMatcher{
-																				line: 2907, col: 9, offset: 91884,
+																				line: 2922, col: 9, offset: 92950,
 																			},
 																		},
 																	},
@@ -30293,10 +30293,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1640, col: 5, offset: 53459},
 																	expr: &actionExpr{
-																		pos: position{line: 2888, col: 10, offset: 91535},
+																		pos: position{line: 2903, col: 10, offset: 92601},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2888, col: 10, offset: 91535},
+																			pos:        position{line: 2903, col: 10, offset: 92601},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30337,12 +30337,12 @@ var g = &grammar{
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2892, col: 11, offset: 91596},
+																	pos: position{line: 2907, col: 11, offset: 92662},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2892, col: 11, offset: 91596},
+																		pos: position{line: 2907, col: 11, offset: 92662},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2892, col: 11, offset: 91596},
+																			pos:        position{line: 2907, col: 11, offset: 92662},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30414,12 +30414,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2892, col: 11, offset: 91596},
+																		pos: position{line: 2907, col: 11, offset: 92662},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2892, col: 11, offset: 91596},
+																			pos: position{line: 2907, col: 11, offset: 92662},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2892, col: 11, offset: 91596},
+																				pos:        position{line: 2907, col: 11, offset: 92662},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -30463,28 +30463,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2910, col: 8, offset: 91933},
+																	pos: position{line: 2925, col: 8, offset: 92999},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2897, col: 12, offset: 91706},
+																			pos: position{line: 2912, col: 12, offset: 92772},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2897, col: 13, offset: 91707},
+																				pos: position{line: 2912, col: 13, offset: 92773},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 13, offset: 91707},
+																						pos:        position{line: 2912, col: 13, offset: 92773},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 20, offset: 91714},
+																						pos:        position{line: 2912, col: 20, offset: 92780},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 29, offset: 91723},
+																						pos:        position{line: 2912, col: 29, offset: 92789},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30493,9 +30493,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2907, col: 8, offset: 91883},
+																			pos: position{line: 2922, col: 8, offset: 92949},
 																			expr: &anyMatcher{
-																				line: 2907, col: 9, offset: 91884,
+																				line: 2922, col: 9, offset: 92950,
 																			},
 																		},
 																	},
@@ -30553,12 +30553,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2892, col: 11, offset: 91596},
+																	pos: position{line: 2907, col: 11, offset: 92662},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2892, col: 11, offset: 91596},
+																		pos: position{line: 2907, col: 11, offset: 92662},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2892, col: 11, offset: 91596},
+																			pos:        position{line: 2907, col: 11, offset: 92662},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30601,28 +30601,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2910, col: 8, offset: 91933},
+																	pos: position{line: 2925, col: 8, offset: 92999},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2897, col: 12, offset: 91706},
+																			pos: position{line: 2912, col: 12, offset: 92772},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2897, col: 13, offset: 91707},
+																				pos: position{line: 2912, col: 13, offset: 92773},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 13, offset: 91707},
+																						pos:        position{line: 2912, col: 13, offset: 92773},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 20, offset: 91714},
+																						pos:        position{line: 2912, col: 20, offset: 92780},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 29, offset: 91723},
+																						pos:        position{line: 2912, col: 29, offset: 92789},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30631,9 +30631,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2907, col: 8, offset: 91883},
+																			pos: position{line: 2922, col: 8, offset: 92949},
 																			expr: &anyMatcher{
-																				line: 2907, col: 9, offset: 91884,
+																				line: 2922, col: 9, offset: 92950,
 																			},
 																		},
 																	},
@@ -30663,18 +30663,18 @@ var g = &grammar{
 																&notExpr{
 																	pos: position{line: 1675, col: 5, offset: 54478},
 																	expr: &seqExpr{
-																		pos: position{line: 2493, col: 31, offset: 80449},
+																		pos: position{line: 2508, col: 31, offset: 81515},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2493, col: 31, offset: 80449},
+																				pos:        position{line: 2508, col: 31, offset: 81515},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2493, col: 36, offset: 80454},
+																				pos: position{line: 2508, col: 36, offset: 81520},
 																				expr: &litMatcher{
-																					pos:        position{line: 2493, col: 37, offset: 80455},
+																					pos:        position{line: 2508, col: 37, offset: 81521},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
@@ -30724,28 +30724,28 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1676, col: 35, offset: 54540},
 																				expr: &choiceExpr{
-																					pos: position{line: 2910, col: 8, offset: 91933},
+																					pos: position{line: 2925, col: 8, offset: 92999},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2897, col: 12, offset: 91706},
+																							pos: position{line: 2912, col: 12, offset: 92772},
 																							run: (*parser).callonListContinuationElement169,
 																							expr: &choiceExpr{
-																								pos: position{line: 2897, col: 13, offset: 91707},
+																								pos: position{line: 2912, col: 13, offset: 92773},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2897, col: 13, offset: 91707},
+																										pos:        position{line: 2912, col: 13, offset: 92773},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2897, col: 20, offset: 91714},
+																										pos:        position{line: 2912, col: 20, offset: 92780},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2897, col: 29, offset: 91723},
+																										pos:        position{line: 2912, col: 29, offset: 92789},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -30754,9 +30754,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2907, col: 8, offset: 91883},
+																							pos: position{line: 2922, col: 8, offset: 92949},
 																							expr: &anyMatcher{
-																								line: 2907, col: 9, offset: 91884,
+																								line: 2922, col: 9, offset: 92950,
 																							},
 																						},
 																					},
@@ -30821,10 +30821,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 1694, col: 9, offset: 55045},
 																			expr: &actionExpr{
-																				pos: position{line: 2888, col: 10, offset: 91535},
+																				pos: position{line: 2903, col: 10, offset: 92601},
 																				run: (*parser).callonListContinuationElement190,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2888, col: 10, offset: 91535},
+																					pos:        position{line: 2903, col: 10, offset: 92601},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30833,28 +30833,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2910, col: 8, offset: 91933},
+																			pos: position{line: 2925, col: 8, offset: 92999},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2897, col: 12, offset: 91706},
+																					pos: position{line: 2912, col: 12, offset: 92772},
 																					run: (*parser).callonListContinuationElement193,
 																					expr: &choiceExpr{
-																						pos: position{line: 2897, col: 13, offset: 91707},
+																						pos: position{line: 2912, col: 13, offset: 92773},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2897, col: 13, offset: 91707},
+																								pos:        position{line: 2912, col: 13, offset: 92773},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2897, col: 20, offset: 91714},
+																								pos:        position{line: 2912, col: 20, offset: 92780},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2897, col: 29, offset: 91723},
+																								pos:        position{line: 2912, col: 29, offset: 92789},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30863,9 +30863,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2907, col: 8, offset: 91883},
+																					pos: position{line: 2922, col: 8, offset: 92949},
 																					expr: &anyMatcher{
-																						line: 2907, col: 9, offset: 91884,
+																						line: 2922, col: 9, offset: 92950,
 																					},
 																				},
 																			},
@@ -30879,18 +30879,18 @@ var g = &grammar{
 																					pos: position{line: 677, col: 14, offset: 21525},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2905, col: 11, offset: 91869},
+																							pos: position{line: 2920, col: 11, offset: 92935},
 																							expr: &anyMatcher{
-																								line: 2905, col: 13, offset: 91871,
+																								line: 2920, col: 13, offset: 92937,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 677, col: 21, offset: 21532},
 																							expr: &actionExpr{
-																								pos: position{line: 2888, col: 10, offset: 91535},
+																								pos: position{line: 2903, col: 10, offset: 92601},
 																								run: (*parser).callonListContinuationElement206,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2888, col: 10, offset: 91535},
+																									pos:        position{line: 2903, col: 10, offset: 92601},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30899,28 +30899,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2910, col: 8, offset: 91933},
+																							pos: position{line: 2925, col: 8, offset: 92999},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2897, col: 12, offset: 91706},
+																									pos: position{line: 2912, col: 12, offset: 92772},
 																									run: (*parser).callonListContinuationElement209,
 																									expr: &choiceExpr{
-																										pos: position{line: 2897, col: 13, offset: 91707},
+																										pos: position{line: 2912, col: 13, offset: 92773},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 13, offset: 91707},
+																												pos:        position{line: 2912, col: 13, offset: 92773},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 20, offset: 91714},
+																												pos:        position{line: 2912, col: 20, offset: 92780},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 29, offset: 91723},
+																												pos:        position{line: 2912, col: 29, offset: 92789},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30929,9 +30929,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2907, col: 8, offset: 91883},
+																									pos: position{line: 2922, col: 8, offset: 92949},
 																									expr: &anyMatcher{
-																										line: 2907, col: 9, offset: 91884,
+																										line: 2922, col: 9, offset: 92950,
 																									},
 																								},
 																							},
@@ -30950,12 +30950,12 @@ var g = &grammar{
 																	pos: position{line: 1701, col: 9, offset: 55193},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2892, col: 11, offset: 91596},
+																			pos: position{line: 2907, col: 11, offset: 92662},
 																			run: (*parser).callonListContinuationElement218,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2892, col: 11, offset: 91596},
+																				pos: position{line: 2907, col: 11, offset: 92662},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2892, col: 11, offset: 91596},
+																					pos:        position{line: 2907, col: 11, offset: 92662},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30982,28 +30982,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2910, col: 8, offset: 91933},
+																			pos: position{line: 2925, col: 8, offset: 92999},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2897, col: 12, offset: 91706},
+																					pos: position{line: 2912, col: 12, offset: 92772},
 																					run: (*parser).callonListContinuationElement226,
 																					expr: &choiceExpr{
-																						pos: position{line: 2897, col: 13, offset: 91707},
+																						pos: position{line: 2912, col: 13, offset: 92773},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2897, col: 13, offset: 91707},
+																								pos:        position{line: 2912, col: 13, offset: 92773},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2897, col: 20, offset: 91714},
+																								pos:        position{line: 2912, col: 20, offset: 92780},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2897, col: 29, offset: 91723},
+																								pos:        position{line: 2912, col: 29, offset: 92789},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31012,9 +31012,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2907, col: 8, offset: 91883},
+																					pos: position{line: 2922, col: 8, offset: 92949},
 																					expr: &anyMatcher{
-																						line: 2907, col: 9, offset: 91884,
+																						line: 2922, col: 9, offset: 92950,
 																					},
 																				},
 																			},
@@ -31055,18 +31055,18 @@ var g = &grammar{
 											pos: position{line: 677, col: 14, offset: 21525},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2905, col: 11, offset: 91869},
+													pos: position{line: 2920, col: 11, offset: 92935},
 													expr: &anyMatcher{
-														line: 2905, col: 13, offset: 91871,
+														line: 2920, col: 13, offset: 92937,
 													},
 												},
 												&zeroOrMoreExpr{
 													pos: position{line: 677, col: 21, offset: 21532},
 													expr: &actionExpr{
-														pos: position{line: 2888, col: 10, offset: 91535},
+														pos: position{line: 2903, col: 10, offset: 92601},
 														run: (*parser).callonListContinuationElement243,
 														expr: &charClassMatcher{
-															pos:        position{line: 2888, col: 10, offset: 91535},
+															pos:        position{line: 2903, col: 10, offset: 92601},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31075,28 +31075,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2910, col: 8, offset: 91933},
+													pos: position{line: 2925, col: 8, offset: 92999},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2897, col: 12, offset: 91706},
+															pos: position{line: 2912, col: 12, offset: 92772},
 															run: (*parser).callonListContinuationElement246,
 															expr: &choiceExpr{
-																pos: position{line: 2897, col: 13, offset: 91707},
+																pos: position{line: 2912, col: 13, offset: 92773},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2897, col: 13, offset: 91707},
+																		pos:        position{line: 2912, col: 13, offset: 92773},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2897, col: 20, offset: 91714},
+																		pos:        position{line: 2912, col: 20, offset: 92780},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2897, col: 29, offset: 91723},
+																		pos:        position{line: 2912, col: 29, offset: 92789},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31105,9 +31105,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2907, col: 8, offset: 91883},
+															pos: position{line: 2922, col: 8, offset: 92949},
 															expr: &anyMatcher{
-																line: 2907, col: 9, offset: 91884,
+																line: 2922, col: 9, offset: 92950,
 															},
 														},
 													},
@@ -31172,10 +31172,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 359, col: 49, offset: 10879},
 													expr: &actionExpr{
-														pos: position{line: 2888, col: 10, offset: 91535},
+														pos: position{line: 2903, col: 10, offset: 92601},
 														run: (*parser).callonListContinuationElement265,
 														expr: &charClassMatcher{
-															pos:        position{line: 2888, col: 10, offset: 91535},
+															pos:        position{line: 2903, col: 10, offset: 92601},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31184,28 +31184,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2910, col: 8, offset: 91933},
+													pos: position{line: 2925, col: 8, offset: 92999},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2897, col: 12, offset: 91706},
+															pos: position{line: 2912, col: 12, offset: 92772},
 															run: (*parser).callonListContinuationElement268,
 															expr: &choiceExpr{
-																pos: position{line: 2897, col: 13, offset: 91707},
+																pos: position{line: 2912, col: 13, offset: 92773},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2897, col: 13, offset: 91707},
+																		pos:        position{line: 2912, col: 13, offset: 92773},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2897, col: 20, offset: 91714},
+																		pos:        position{line: 2912, col: 20, offset: 92780},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2897, col: 29, offset: 91723},
+																		pos:        position{line: 2912, col: 29, offset: 92789},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31214,9 +31214,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2907, col: 8, offset: 91883},
+															pos: position{line: 2922, col: 8, offset: 92949},
 															expr: &anyMatcher{
-																line: 2907, col: 9, offset: 91884,
+																line: 2922, col: 9, offset: 92950,
 															},
 														},
 													},
@@ -31277,10 +31277,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 361, col: 39, offset: 11000},
 													expr: &actionExpr{
-														pos: position{line: 2888, col: 10, offset: 91535},
+														pos: position{line: 2903, col: 10, offset: 92601},
 														run: (*parser).callonListContinuationElement286,
 														expr: &charClassMatcher{
-															pos:        position{line: 2888, col: 10, offset: 91535},
+															pos:        position{line: 2903, col: 10, offset: 92601},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31289,28 +31289,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2910, col: 8, offset: 91933},
+													pos: position{line: 2925, col: 8, offset: 92999},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2897, col: 12, offset: 91706},
+															pos: position{line: 2912, col: 12, offset: 92772},
 															run: (*parser).callonListContinuationElement289,
 															expr: &choiceExpr{
-																pos: position{line: 2897, col: 13, offset: 91707},
+																pos: position{line: 2912, col: 13, offset: 92773},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2897, col: 13, offset: 91707},
+																		pos:        position{line: 2912, col: 13, offset: 92773},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2897, col: 20, offset: 91714},
+																		pos:        position{line: 2912, col: 20, offset: 92780},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2897, col: 29, offset: 91723},
+																		pos:        position{line: 2912, col: 29, offset: 92789},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31319,9 +31319,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2907, col: 8, offset: 91883},
+															pos: position{line: 2922, col: 8, offset: 92949},
 															expr: &anyMatcher{
-																line: 2907, col: 9, offset: 91884,
+																line: 2922, col: 9, offset: 92950,
 															},
 														},
 													},
@@ -31372,10 +31372,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 743, col: 8, offset: 23745},
 																expr: &actionExpr{
-																	pos: position{line: 2888, col: 10, offset: 91535},
+																	pos: position{line: 2903, col: 10, offset: 92601},
 																	run: (*parser).callonListContinuationElement307,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2888, col: 10, offset: 91535},
+																		pos:        position{line: 2903, col: 10, offset: 92601},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -31384,28 +31384,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2910, col: 8, offset: 91933},
+																pos: position{line: 2925, col: 8, offset: 92999},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2897, col: 12, offset: 91706},
+																		pos: position{line: 2912, col: 12, offset: 92772},
 																		run: (*parser).callonListContinuationElement310,
 																		expr: &choiceExpr{
-																			pos: position{line: 2897, col: 13, offset: 91707},
+																			pos: position{line: 2912, col: 13, offset: 92773},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2897, col: 13, offset: 91707},
+																					pos:        position{line: 2912, col: 13, offset: 92773},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2897, col: 20, offset: 91714},
+																					pos:        position{line: 2912, col: 20, offset: 92780},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2897, col: 29, offset: 91723},
+																					pos:        position{line: 2912, col: 29, offset: 92789},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -31414,9 +31414,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2907, col: 8, offset: 91883},
+																		pos: position{line: 2922, col: 8, offset: 92949},
 																		expr: &anyMatcher{
-																			line: 2907, col: 9, offset: 91884,
+																			line: 2922, col: 9, offset: 92950,
 																		},
 																	},
 																},
@@ -31477,10 +31477,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 743, col: 8, offset: 23745},
 																								expr: &actionExpr{
-																									pos: position{line: 2888, col: 10, offset: 91535},
+																									pos: position{line: 2903, col: 10, offset: 92601},
 																									run: (*parser).callonListContinuationElement332,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2888, col: 10, offset: 91535},
+																										pos:        position{line: 2903, col: 10, offset: 92601},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -31489,28 +31489,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2910, col: 8, offset: 91933},
+																								pos: position{line: 2925, col: 8, offset: 92999},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2897, col: 12, offset: 91706},
+																										pos: position{line: 2912, col: 12, offset: 92772},
 																										run: (*parser).callonListContinuationElement335,
 																										expr: &choiceExpr{
-																											pos: position{line: 2897, col: 13, offset: 91707},
+																											pos: position{line: 2912, col: 13, offset: 92773},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2897, col: 13, offset: 91707},
+																													pos:        position{line: 2912, col: 13, offset: 92773},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2897, col: 20, offset: 91714},
+																													pos:        position{line: 2912, col: 20, offset: 92780},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2897, col: 29, offset: 91723},
+																													pos:        position{line: 2912, col: 29, offset: 92789},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -31519,9 +31519,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2907, col: 8, offset: 91883},
+																										pos: position{line: 2922, col: 8, offset: 92949},
 																										expr: &anyMatcher{
-																											line: 2907, col: 9, offset: 91884,
+																											line: 2922, col: 9, offset: 92950,
 																										},
 																									},
 																								},
@@ -31530,9 +31530,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2907, col: 8, offset: 91883},
+																					pos: position{line: 2922, col: 8, offset: 92949},
 																					expr: &anyMatcher{
-																						line: 2907, col: 9, offset: 91884,
+																						line: 2922, col: 9, offset: 92950,
 																					},
 																				},
 																			},
@@ -31548,21 +31548,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2905, col: 11, offset: 91869},
+																						pos: position{line: 2920, col: 11, offset: 92935},
 																						expr: &anyMatcher{
-																							line: 2905, col: 13, offset: 91871,
+																							line: 2920, col: 13, offset: 92937,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2834, col: 13, offset: 90061},
+																							pos: position{line: 2849, col: 13, offset: 91127},
 																							run: (*parser).callonListContinuationElement350,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2834, col: 13, offset: 90061},
+																								pos: position{line: 2849, col: 13, offset: 91127},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2834, col: 13, offset: 90061},
+																									pos:        position{line: 2849, col: 13, offset: 91127},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31572,28 +31572,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2910, col: 8, offset: 91933},
+																						pos: position{line: 2925, col: 8, offset: 92999},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2897, col: 12, offset: 91706},
+																								pos: position{line: 2912, col: 12, offset: 92772},
 																								run: (*parser).callonListContinuationElement354,
 																								expr: &choiceExpr{
-																									pos: position{line: 2897, col: 13, offset: 91707},
+																									pos: position{line: 2912, col: 13, offset: 92773},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 13, offset: 91707},
+																											pos:        position{line: 2912, col: 13, offset: 92773},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 20, offset: 91714},
+																											pos:        position{line: 2912, col: 20, offset: 92780},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 29, offset: 91723},
+																											pos:        position{line: 2912, col: 29, offset: 92789},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31602,9 +31602,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2907, col: 8, offset: 91883},
+																								pos: position{line: 2922, col: 8, offset: 92949},
 																								expr: &anyMatcher{
-																									line: 2907, col: 9, offset: 91884,
+																									line: 2922, col: 9, offset: 92950,
 																								},
 																							},
 																						},
@@ -31660,10 +31660,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 743, col: 8, offset: 23745},
 																			expr: &actionExpr{
-																				pos: position{line: 2888, col: 10, offset: 91535},
+																				pos: position{line: 2903, col: 10, offset: 92601},
 																				run: (*parser).callonListContinuationElement372,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2888, col: 10, offset: 91535},
+																					pos:        position{line: 2903, col: 10, offset: 92601},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -31672,28 +31672,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2910, col: 8, offset: 91933},
+																			pos: position{line: 2925, col: 8, offset: 92999},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2897, col: 12, offset: 91706},
+																					pos: position{line: 2912, col: 12, offset: 92772},
 																					run: (*parser).callonListContinuationElement375,
 																					expr: &choiceExpr{
-																						pos: position{line: 2897, col: 13, offset: 91707},
+																						pos: position{line: 2912, col: 13, offset: 92773},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2897, col: 13, offset: 91707},
+																								pos:        position{line: 2912, col: 13, offset: 92773},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2897, col: 20, offset: 91714},
+																								pos:        position{line: 2912, col: 20, offset: 92780},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2897, col: 29, offset: 91723},
+																								pos:        position{line: 2912, col: 29, offset: 92789},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31702,9 +31702,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2907, col: 8, offset: 91883},
+																					pos: position{line: 2922, col: 8, offset: 92949},
 																					expr: &anyMatcher{
-																						line: 2907, col: 9, offset: 91884,
+																						line: 2922, col: 9, offset: 92950,
 																					},
 																				},
 																			},
@@ -31713,9 +31713,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2907, col: 8, offset: 91883},
+																pos: position{line: 2922, col: 8, offset: 92949},
 																expr: &anyMatcher{
-																	line: 2907, col: 9, offset: 91884,
+																	line: 2922, col: 9, offset: 92950,
 																},
 															},
 														},
@@ -31770,10 +31770,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 750, col: 8, offset: 23993},
 																	expr: &actionExpr{
-																		pos: position{line: 2888, col: 10, offset: 91535},
+																		pos: position{line: 2903, col: 10, offset: 92601},
 																		run: (*parser).callonListContinuationElement396,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2888, col: 10, offset: 91535},
+																			pos:        position{line: 2903, col: 10, offset: 92601},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31782,28 +31782,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2910, col: 8, offset: 91933},
+																	pos: position{line: 2925, col: 8, offset: 92999},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2897, col: 12, offset: 91706},
+																			pos: position{line: 2912, col: 12, offset: 92772},
 																			run: (*parser).callonListContinuationElement399,
 																			expr: &choiceExpr{
-																				pos: position{line: 2897, col: 13, offset: 91707},
+																				pos: position{line: 2912, col: 13, offset: 92773},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 13, offset: 91707},
+																						pos:        position{line: 2912, col: 13, offset: 92773},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 20, offset: 91714},
+																						pos:        position{line: 2912, col: 20, offset: 92780},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 29, offset: 91723},
+																						pos:        position{line: 2912, col: 29, offset: 92789},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31812,9 +31812,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2907, col: 8, offset: 91883},
+																			pos: position{line: 2922, col: 8, offset: 92949},
 																			expr: &anyMatcher{
-																				line: 2907, col: 9, offset: 91884,
+																				line: 2922, col: 9, offset: 92950,
 																			},
 																		},
 																	},
@@ -31886,10 +31886,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 750, col: 8, offset: 23993},
 																											expr: &actionExpr{
-																												pos: position{line: 2888, col: 10, offset: 91535},
+																												pos: position{line: 2903, col: 10, offset: 92601},
 																												run: (*parser).callonListContinuationElement424,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2888, col: 10, offset: 91535},
+																													pos:        position{line: 2903, col: 10, offset: 92601},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31898,28 +31898,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2910, col: 8, offset: 91933},
+																											pos: position{line: 2925, col: 8, offset: 92999},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2897, col: 12, offset: 91706},
+																													pos: position{line: 2912, col: 12, offset: 92772},
 																													run: (*parser).callonListContinuationElement427,
 																													expr: &choiceExpr{
-																														pos: position{line: 2897, col: 13, offset: 91707},
+																														pos: position{line: 2912, col: 13, offset: 92773},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 13, offset: 91707},
+																																pos:        position{line: 2912, col: 13, offset: 92773},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 20, offset: 91714},
+																																pos:        position{line: 2912, col: 20, offset: 92780},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 29, offset: 91723},
+																																pos:        position{line: 2912, col: 29, offset: 92789},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31928,9 +31928,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2907, col: 8, offset: 91883},
+																													pos: position{line: 2922, col: 8, offset: 92949},
 																													expr: &anyMatcher{
-																														line: 2907, col: 9, offset: 91884,
+																														line: 2922, col: 9, offset: 92950,
 																													},
 																												},
 																											},
@@ -31946,9 +31946,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2907, col: 8, offset: 91883},
+																					pos: position{line: 2922, col: 8, offset: 92949},
 																					expr: &anyMatcher{
-																						line: 2907, col: 9, offset: 91884,
+																						line: 2922, col: 9, offset: 92950,
 																					},
 																				},
 																			},
@@ -31964,21 +31964,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2905, col: 11, offset: 91869},
+																						pos: position{line: 2920, col: 11, offset: 92935},
 																						expr: &anyMatcher{
-																							line: 2905, col: 13, offset: 91871,
+																							line: 2920, col: 13, offset: 92937,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2834, col: 13, offset: 90061},
+																							pos: position{line: 2849, col: 13, offset: 91127},
 																							run: (*parser).callonListContinuationElement443,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2834, col: 13, offset: 90061},
+																								pos: position{line: 2849, col: 13, offset: 91127},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2834, col: 13, offset: 90061},
+																									pos:        position{line: 2849, col: 13, offset: 91127},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31988,28 +31988,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2910, col: 8, offset: 91933},
+																						pos: position{line: 2925, col: 8, offset: 92999},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2897, col: 12, offset: 91706},
+																								pos: position{line: 2912, col: 12, offset: 92772},
 																								run: (*parser).callonListContinuationElement447,
 																								expr: &choiceExpr{
-																									pos: position{line: 2897, col: 13, offset: 91707},
+																									pos: position{line: 2912, col: 13, offset: 92773},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 13, offset: 91707},
+																											pos:        position{line: 2912, col: 13, offset: 92773},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 20, offset: 91714},
+																											pos:        position{line: 2912, col: 20, offset: 92780},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 29, offset: 91723},
+																											pos:        position{line: 2912, col: 29, offset: 92789},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32018,9 +32018,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2907, col: 8, offset: 91883},
+																								pos: position{line: 2922, col: 8, offset: 92949},
 																								expr: &anyMatcher{
-																									line: 2907, col: 9, offset: 91884,
+																									line: 2922, col: 9, offset: 92950,
 																								},
 																							},
 																						},
@@ -32085,10 +32085,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 750, col: 8, offset: 23993},
 																							expr: &actionExpr{
-																								pos: position{line: 2888, col: 10, offset: 91535},
+																								pos: position{line: 2903, col: 10, offset: 92601},
 																								run: (*parser).callonListContinuationElement468,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2888, col: 10, offset: 91535},
+																									pos:        position{line: 2903, col: 10, offset: 92601},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32097,28 +32097,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2910, col: 8, offset: 91933},
+																							pos: position{line: 2925, col: 8, offset: 92999},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2897, col: 12, offset: 91706},
+																									pos: position{line: 2912, col: 12, offset: 92772},
 																									run: (*parser).callonListContinuationElement471,
 																									expr: &choiceExpr{
-																										pos: position{line: 2897, col: 13, offset: 91707},
+																										pos: position{line: 2912, col: 13, offset: 92773},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 13, offset: 91707},
+																												pos:        position{line: 2912, col: 13, offset: 92773},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 20, offset: 91714},
+																												pos:        position{line: 2912, col: 20, offset: 92780},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 29, offset: 91723},
+																												pos:        position{line: 2912, col: 29, offset: 92789},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32127,9 +32127,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2907, col: 8, offset: 91883},
+																									pos: position{line: 2922, col: 8, offset: 92949},
 																									expr: &anyMatcher{
-																										line: 2907, col: 9, offset: 91884,
+																										line: 2922, col: 9, offset: 92950,
 																									},
 																								},
 																							},
@@ -32145,9 +32145,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2907, col: 8, offset: 91883},
+																	pos: position{line: 2922, col: 8, offset: 92949},
 																	expr: &anyMatcher{
-																		line: 2907, col: 9, offset: 91884,
+																		line: 2922, col: 9, offset: 92950,
 																	},
 																},
 															},
@@ -32199,10 +32199,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 761, col: 52, offset: 24405},
 																	expr: &actionExpr{
-																		pos: position{line: 2888, col: 10, offset: 91535},
+																		pos: position{line: 2903, col: 10, offset: 92601},
 																		run: (*parser).callonListContinuationElement492,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2888, col: 10, offset: 91535},
+																			pos:        position{line: 2903, col: 10, offset: 92601},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32211,28 +32211,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2910, col: 8, offset: 91933},
+																	pos: position{line: 2925, col: 8, offset: 92999},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2897, col: 12, offset: 91706},
+																			pos: position{line: 2912, col: 12, offset: 92772},
 																			run: (*parser).callonListContinuationElement495,
 																			expr: &choiceExpr{
-																				pos: position{line: 2897, col: 13, offset: 91707},
+																				pos: position{line: 2912, col: 13, offset: 92773},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 13, offset: 91707},
+																						pos:        position{line: 2912, col: 13, offset: 92773},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 20, offset: 91714},
+																						pos:        position{line: 2912, col: 20, offset: 92780},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 29, offset: 91723},
+																						pos:        position{line: 2912, col: 29, offset: 92789},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32241,9 +32241,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2907, col: 8, offset: 91883},
+																			pos: position{line: 2922, col: 8, offset: 92949},
 																			expr: &anyMatcher{
-																				line: 2907, col: 9, offset: 91884,
+																				line: 2922, col: 9, offset: 92950,
 																			},
 																		},
 																	},
@@ -32277,10 +32277,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 964, col: 40, offset: 30213},
 																					expr: &actionExpr{
-																						pos: position{line: 2888, col: 10, offset: 91535},
+																						pos: position{line: 2903, col: 10, offset: 92601},
 																						run: (*parser).callonListContinuationElement510,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2888, col: 10, offset: 91535},
+																							pos:        position{line: 2903, col: 10, offset: 92601},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -32289,28 +32289,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2910, col: 8, offset: 91933},
+																					pos: position{line: 2925, col: 8, offset: 92999},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2897, col: 12, offset: 91706},
+																							pos: position{line: 2912, col: 12, offset: 92772},
 																							run: (*parser).callonListContinuationElement513,
 																							expr: &choiceExpr{
-																								pos: position{line: 2897, col: 13, offset: 91707},
+																								pos: position{line: 2912, col: 13, offset: 92773},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2897, col: 13, offset: 91707},
+																										pos:        position{line: 2912, col: 13, offset: 92773},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2897, col: 20, offset: 91714},
+																										pos:        position{line: 2912, col: 20, offset: 92780},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2897, col: 29, offset: 91723},
+																										pos:        position{line: 2912, col: 29, offset: 92789},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -32319,9 +32319,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2907, col: 8, offset: 91883},
+																							pos: position{line: 2922, col: 8, offset: 92949},
 																							expr: &anyMatcher{
-																								line: 2907, col: 9, offset: 91884,
+																								line: 2922, col: 9, offset: 92950,
 																							},
 																						},
 																					},
@@ -32339,21 +32339,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2905, col: 11, offset: 91869},
+																						pos: position{line: 2920, col: 11, offset: 92935},
 																						expr: &anyMatcher{
-																							line: 2905, col: 13, offset: 91871,
+																							line: 2920, col: 13, offset: 92937,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2834, col: 13, offset: 90061},
+																							pos: position{line: 2849, col: 13, offset: 91127},
 																							run: (*parser).callonListContinuationElement526,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2834, col: 13, offset: 90061},
+																								pos: position{line: 2849, col: 13, offset: 91127},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2834, col: 13, offset: 90061},
+																									pos:        position{line: 2849, col: 13, offset: 91127},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32363,28 +32363,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2910, col: 8, offset: 91933},
+																						pos: position{line: 2925, col: 8, offset: 92999},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2897, col: 12, offset: 91706},
+																								pos: position{line: 2912, col: 12, offset: 92772},
 																								run: (*parser).callonListContinuationElement530,
 																								expr: &choiceExpr{
-																									pos: position{line: 2897, col: 13, offset: 91707},
+																									pos: position{line: 2912, col: 13, offset: 92773},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 13, offset: 91707},
+																											pos:        position{line: 2912, col: 13, offset: 92773},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 20, offset: 91714},
+																											pos:        position{line: 2912, col: 20, offset: 92780},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 29, offset: 91723},
+																											pos:        position{line: 2912, col: 29, offset: 92789},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32393,9 +32393,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2907, col: 8, offset: 91883},
+																								pos: position{line: 2922, col: 8, offset: 92949},
 																								expr: &anyMatcher{
-																									line: 2907, col: 9, offset: 91884,
+																									line: 2922, col: 9, offset: 92950,
 																								},
 																							},
 																						},
@@ -32423,10 +32423,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 964, col: 40, offset: 30213},
 																expr: &actionExpr{
-																	pos: position{line: 2888, col: 10, offset: 91535},
+																	pos: position{line: 2903, col: 10, offset: 92601},
 																	run: (*parser).callonListContinuationElement541,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2888, col: 10, offset: 91535},
+																		pos:        position{line: 2903, col: 10, offset: 92601},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -32435,28 +32435,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2910, col: 8, offset: 91933},
+																pos: position{line: 2925, col: 8, offset: 92999},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2897, col: 12, offset: 91706},
+																		pos: position{line: 2912, col: 12, offset: 92772},
 																		run: (*parser).callonListContinuationElement544,
 																		expr: &choiceExpr{
-																			pos: position{line: 2897, col: 13, offset: 91707},
+																			pos: position{line: 2912, col: 13, offset: 92773},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2897, col: 13, offset: 91707},
+																					pos:        position{line: 2912, col: 13, offset: 92773},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2897, col: 20, offset: 91714},
+																					pos:        position{line: 2912, col: 20, offset: 92780},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2897, col: 29, offset: 91723},
+																					pos:        position{line: 2912, col: 29, offset: 92789},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -32465,9 +32465,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2907, col: 8, offset: 91883},
+																		pos: position{line: 2922, col: 8, offset: 92949},
 																		expr: &anyMatcher{
-																			line: 2907, col: 9, offset: 91884,
+																			line: 2922, col: 9, offset: 92950,
 																		},
 																	},
 																},
@@ -32524,10 +32524,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 757, col: 8, offset: 24239},
 																	expr: &actionExpr{
-																		pos: position{line: 2888, col: 10, offset: 91535},
+																		pos: position{line: 2903, col: 10, offset: 92601},
 																		run: (*parser).callonListContinuationElement563,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2888, col: 10, offset: 91535},
+																			pos:        position{line: 2903, col: 10, offset: 92601},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32536,28 +32536,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2910, col: 8, offset: 91933},
+																	pos: position{line: 2925, col: 8, offset: 92999},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2897, col: 12, offset: 91706},
+																			pos: position{line: 2912, col: 12, offset: 92772},
 																			run: (*parser).callonListContinuationElement566,
 																			expr: &choiceExpr{
-																				pos: position{line: 2897, col: 13, offset: 91707},
+																				pos: position{line: 2912, col: 13, offset: 92773},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 13, offset: 91707},
+																						pos:        position{line: 2912, col: 13, offset: 92773},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 20, offset: 91714},
+																						pos:        position{line: 2912, col: 20, offset: 92780},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 29, offset: 91723},
+																						pos:        position{line: 2912, col: 29, offset: 92789},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32566,9 +32566,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2907, col: 8, offset: 91883},
+																			pos: position{line: 2922, col: 8, offset: 92949},
 																			expr: &anyMatcher{
-																				line: 2907, col: 9, offset: 91884,
+																				line: 2922, col: 9, offset: 92950,
 																			},
 																		},
 																	},
@@ -32640,10 +32640,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 757, col: 8, offset: 24239},
 																											expr: &actionExpr{
-																												pos: position{line: 2888, col: 10, offset: 91535},
+																												pos: position{line: 2903, col: 10, offset: 92601},
 																												run: (*parser).callonListContinuationElement591,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2888, col: 10, offset: 91535},
+																													pos:        position{line: 2903, col: 10, offset: 92601},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32652,28 +32652,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2910, col: 8, offset: 91933},
+																											pos: position{line: 2925, col: 8, offset: 92999},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2897, col: 12, offset: 91706},
+																													pos: position{line: 2912, col: 12, offset: 92772},
 																													run: (*parser).callonListContinuationElement594,
 																													expr: &choiceExpr{
-																														pos: position{line: 2897, col: 13, offset: 91707},
+																														pos: position{line: 2912, col: 13, offset: 92773},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 13, offset: 91707},
+																																pos:        position{line: 2912, col: 13, offset: 92773},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 20, offset: 91714},
+																																pos:        position{line: 2912, col: 20, offset: 92780},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 29, offset: 91723},
+																																pos:        position{line: 2912, col: 29, offset: 92789},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32682,9 +32682,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2907, col: 8, offset: 91883},
+																													pos: position{line: 2922, col: 8, offset: 92949},
 																													expr: &anyMatcher{
-																														line: 2907, col: 9, offset: 91884,
+																														line: 2922, col: 9, offset: 92950,
 																													},
 																												},
 																											},
@@ -32700,9 +32700,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2907, col: 8, offset: 91883},
+																					pos: position{line: 2922, col: 8, offset: 92949},
 																					expr: &anyMatcher{
-																						line: 2907, col: 9, offset: 91884,
+																						line: 2922, col: 9, offset: 92950,
 																					},
 																				},
 																			},
@@ -32718,21 +32718,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2905, col: 11, offset: 91869},
+																						pos: position{line: 2920, col: 11, offset: 92935},
 																						expr: &anyMatcher{
-																							line: 2905, col: 13, offset: 91871,
+																							line: 2920, col: 13, offset: 92937,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2834, col: 13, offset: 90061},
+																							pos: position{line: 2849, col: 13, offset: 91127},
 																							run: (*parser).callonListContinuationElement610,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2834, col: 13, offset: 90061},
+																								pos: position{line: 2849, col: 13, offset: 91127},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2834, col: 13, offset: 90061},
+																									pos:        position{line: 2849, col: 13, offset: 91127},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32742,28 +32742,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2910, col: 8, offset: 91933},
+																						pos: position{line: 2925, col: 8, offset: 92999},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2897, col: 12, offset: 91706},
+																								pos: position{line: 2912, col: 12, offset: 92772},
 																								run: (*parser).callonListContinuationElement614,
 																								expr: &choiceExpr{
-																									pos: position{line: 2897, col: 13, offset: 91707},
+																									pos: position{line: 2912, col: 13, offset: 92773},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 13, offset: 91707},
+																											pos:        position{line: 2912, col: 13, offset: 92773},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 20, offset: 91714},
+																											pos:        position{line: 2912, col: 20, offset: 92780},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 29, offset: 91723},
+																											pos:        position{line: 2912, col: 29, offset: 92789},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32772,9 +32772,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2907, col: 8, offset: 91883},
+																								pos: position{line: 2922, col: 8, offset: 92949},
 																								expr: &anyMatcher{
-																									line: 2907, col: 9, offset: 91884,
+																									line: 2922, col: 9, offset: 92950,
 																								},
 																							},
 																						},
@@ -32839,10 +32839,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 757, col: 8, offset: 24239},
 																							expr: &actionExpr{
-																								pos: position{line: 2888, col: 10, offset: 91535},
+																								pos: position{line: 2903, col: 10, offset: 92601},
 																								run: (*parser).callonListContinuationElement635,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2888, col: 10, offset: 91535},
+																									pos:        position{line: 2903, col: 10, offset: 92601},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32851,28 +32851,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2910, col: 8, offset: 91933},
+																							pos: position{line: 2925, col: 8, offset: 92999},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2897, col: 12, offset: 91706},
+																									pos: position{line: 2912, col: 12, offset: 92772},
 																									run: (*parser).callonListContinuationElement638,
 																									expr: &choiceExpr{
-																										pos: position{line: 2897, col: 13, offset: 91707},
+																										pos: position{line: 2912, col: 13, offset: 92773},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 13, offset: 91707},
+																												pos:        position{line: 2912, col: 13, offset: 92773},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 20, offset: 91714},
+																												pos:        position{line: 2912, col: 20, offset: 92780},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 29, offset: 91723},
+																												pos:        position{line: 2912, col: 29, offset: 92789},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32881,9 +32881,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2907, col: 8, offset: 91883},
+																									pos: position{line: 2922, col: 8, offset: 92949},
 																									expr: &anyMatcher{
-																										line: 2907, col: 9, offset: 91884,
+																										line: 2922, col: 9, offset: 92950,
 																									},
 																								},
 																							},
@@ -32899,9 +32899,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2907, col: 8, offset: 91883},
+																	pos: position{line: 2922, col: 8, offset: 92949},
 																	expr: &anyMatcher{
-																		line: 2907, col: 9, offset: 91884,
+																		line: 2922, col: 9, offset: 92950,
 																	},
 																},
 															},
@@ -32957,10 +32957,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 772, col: 8, offset: 24782},
 																	expr: &actionExpr{
-																		pos: position{line: 2888, col: 10, offset: 91535},
+																		pos: position{line: 2903, col: 10, offset: 92601},
 																		run: (*parser).callonListContinuationElement660,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2888, col: 10, offset: 91535},
+																			pos:        position{line: 2903, col: 10, offset: 92601},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32969,28 +32969,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2910, col: 8, offset: 91933},
+																	pos: position{line: 2925, col: 8, offset: 92999},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2897, col: 12, offset: 91706},
+																			pos: position{line: 2912, col: 12, offset: 92772},
 																			run: (*parser).callonListContinuationElement663,
 																			expr: &choiceExpr{
-																				pos: position{line: 2897, col: 13, offset: 91707},
+																				pos: position{line: 2912, col: 13, offset: 92773},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 13, offset: 91707},
+																						pos:        position{line: 2912, col: 13, offset: 92773},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 20, offset: 91714},
+																						pos:        position{line: 2912, col: 20, offset: 92780},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 29, offset: 91723},
+																						pos:        position{line: 2912, col: 29, offset: 92789},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32999,9 +32999,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2907, col: 8, offset: 91883},
+																			pos: position{line: 2922, col: 8, offset: 92949},
 																			expr: &anyMatcher{
-																				line: 2907, col: 9, offset: 91884,
+																				line: 2922, col: 9, offset: 92950,
 																			},
 																		},
 																	},
@@ -33073,10 +33073,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 772, col: 8, offset: 24782},
 																											expr: &actionExpr{
-																												pos: position{line: 2888, col: 10, offset: 91535},
+																												pos: position{line: 2903, col: 10, offset: 92601},
 																												run: (*parser).callonListContinuationElement688,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2888, col: 10, offset: 91535},
+																													pos:        position{line: 2903, col: 10, offset: 92601},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33085,28 +33085,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2910, col: 8, offset: 91933},
+																											pos: position{line: 2925, col: 8, offset: 92999},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2897, col: 12, offset: 91706},
+																													pos: position{line: 2912, col: 12, offset: 92772},
 																													run: (*parser).callonListContinuationElement691,
 																													expr: &choiceExpr{
-																														pos: position{line: 2897, col: 13, offset: 91707},
+																														pos: position{line: 2912, col: 13, offset: 92773},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 13, offset: 91707},
+																																pos:        position{line: 2912, col: 13, offset: 92773},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 20, offset: 91714},
+																																pos:        position{line: 2912, col: 20, offset: 92780},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 29, offset: 91723},
+																																pos:        position{line: 2912, col: 29, offset: 92789},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33115,9 +33115,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2907, col: 8, offset: 91883},
+																													pos: position{line: 2922, col: 8, offset: 92949},
 																													expr: &anyMatcher{
-																														line: 2907, col: 9, offset: 91884,
+																														line: 2922, col: 9, offset: 92950,
 																													},
 																												},
 																											},
@@ -33133,9 +33133,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2907, col: 8, offset: 91883},
+																					pos: position{line: 2922, col: 8, offset: 92949},
 																					expr: &anyMatcher{
-																						line: 2907, col: 9, offset: 91884,
+																						line: 2922, col: 9, offset: 92950,
 																					},
 																				},
 																			},
@@ -33151,21 +33151,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2905, col: 11, offset: 91869},
+																						pos: position{line: 2920, col: 11, offset: 92935},
 																						expr: &anyMatcher{
-																							line: 2905, col: 13, offset: 91871,
+																							line: 2920, col: 13, offset: 92937,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2834, col: 13, offset: 90061},
+																							pos: position{line: 2849, col: 13, offset: 91127},
 																							run: (*parser).callonListContinuationElement707,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2834, col: 13, offset: 90061},
+																								pos: position{line: 2849, col: 13, offset: 91127},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2834, col: 13, offset: 90061},
+																									pos:        position{line: 2849, col: 13, offset: 91127},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33175,28 +33175,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2910, col: 8, offset: 91933},
+																						pos: position{line: 2925, col: 8, offset: 92999},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2897, col: 12, offset: 91706},
+																								pos: position{line: 2912, col: 12, offset: 92772},
 																								run: (*parser).callonListContinuationElement711,
 																								expr: &choiceExpr{
-																									pos: position{line: 2897, col: 13, offset: 91707},
+																									pos: position{line: 2912, col: 13, offset: 92773},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 13, offset: 91707},
+																											pos:        position{line: 2912, col: 13, offset: 92773},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 20, offset: 91714},
+																											pos:        position{line: 2912, col: 20, offset: 92780},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 29, offset: 91723},
+																											pos:        position{line: 2912, col: 29, offset: 92789},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33205,9 +33205,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2907, col: 8, offset: 91883},
+																								pos: position{line: 2922, col: 8, offset: 92949},
 																								expr: &anyMatcher{
-																									line: 2907, col: 9, offset: 91884,
+																									line: 2922, col: 9, offset: 92950,
 																								},
 																							},
 																						},
@@ -33272,10 +33272,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 772, col: 8, offset: 24782},
 																							expr: &actionExpr{
-																								pos: position{line: 2888, col: 10, offset: 91535},
+																								pos: position{line: 2903, col: 10, offset: 92601},
 																								run: (*parser).callonListContinuationElement732,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2888, col: 10, offset: 91535},
+																									pos:        position{line: 2903, col: 10, offset: 92601},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33284,28 +33284,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2910, col: 8, offset: 91933},
+																							pos: position{line: 2925, col: 8, offset: 92999},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2897, col: 12, offset: 91706},
+																									pos: position{line: 2912, col: 12, offset: 92772},
 																									run: (*parser).callonListContinuationElement735,
 																									expr: &choiceExpr{
-																										pos: position{line: 2897, col: 13, offset: 91707},
+																										pos: position{line: 2912, col: 13, offset: 92773},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 13, offset: 91707},
+																												pos:        position{line: 2912, col: 13, offset: 92773},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 20, offset: 91714},
+																												pos:        position{line: 2912, col: 20, offset: 92780},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 29, offset: 91723},
+																												pos:        position{line: 2912, col: 29, offset: 92789},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33314,9 +33314,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2907, col: 8, offset: 91883},
+																									pos: position{line: 2922, col: 8, offset: 92949},
 																									expr: &anyMatcher{
-																										line: 2907, col: 9, offset: 91884,
+																										line: 2922, col: 9, offset: 92950,
 																									},
 																								},
 																							},
@@ -33332,9 +33332,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2907, col: 8, offset: 91883},
+																	pos: position{line: 2922, col: 8, offset: 92949},
 																	expr: &anyMatcher{
-																		line: 2907, col: 9, offset: 91884,
+																		line: 2922, col: 9, offset: 92950,
 																	},
 																},
 															},
@@ -33390,10 +33390,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 786, col: 8, offset: 25258},
 																	expr: &actionExpr{
-																		pos: position{line: 2888, col: 10, offset: 91535},
+																		pos: position{line: 2903, col: 10, offset: 92601},
 																		run: (*parser).callonListContinuationElement757,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2888, col: 10, offset: 91535},
+																			pos:        position{line: 2903, col: 10, offset: 92601},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33402,28 +33402,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2910, col: 8, offset: 91933},
+																	pos: position{line: 2925, col: 8, offset: 92999},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2897, col: 12, offset: 91706},
+																			pos: position{line: 2912, col: 12, offset: 92772},
 																			run: (*parser).callonListContinuationElement760,
 																			expr: &choiceExpr{
-																				pos: position{line: 2897, col: 13, offset: 91707},
+																				pos: position{line: 2912, col: 13, offset: 92773},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 13, offset: 91707},
+																						pos:        position{line: 2912, col: 13, offset: 92773},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 20, offset: 91714},
+																						pos:        position{line: 2912, col: 20, offset: 92780},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 29, offset: 91723},
+																						pos:        position{line: 2912, col: 29, offset: 92789},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33432,9 +33432,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2907, col: 8, offset: 91883},
+																			pos: position{line: 2922, col: 8, offset: 92949},
 																			expr: &anyMatcher{
-																				line: 2907, col: 9, offset: 91884,
+																				line: 2922, col: 9, offset: 92950,
 																			},
 																		},
 																	},
@@ -33506,10 +33506,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 786, col: 8, offset: 25258},
 																											expr: &actionExpr{
-																												pos: position{line: 2888, col: 10, offset: 91535},
+																												pos: position{line: 2903, col: 10, offset: 92601},
 																												run: (*parser).callonListContinuationElement785,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2888, col: 10, offset: 91535},
+																													pos:        position{line: 2903, col: 10, offset: 92601},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33518,28 +33518,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2910, col: 8, offset: 91933},
+																											pos: position{line: 2925, col: 8, offset: 92999},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2897, col: 12, offset: 91706},
+																													pos: position{line: 2912, col: 12, offset: 92772},
 																													run: (*parser).callonListContinuationElement788,
 																													expr: &choiceExpr{
-																														pos: position{line: 2897, col: 13, offset: 91707},
+																														pos: position{line: 2912, col: 13, offset: 92773},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 13, offset: 91707},
+																																pos:        position{line: 2912, col: 13, offset: 92773},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 20, offset: 91714},
+																																pos:        position{line: 2912, col: 20, offset: 92780},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 29, offset: 91723},
+																																pos:        position{line: 2912, col: 29, offset: 92789},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33548,9 +33548,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2907, col: 8, offset: 91883},
+																													pos: position{line: 2922, col: 8, offset: 92949},
 																													expr: &anyMatcher{
-																														line: 2907, col: 9, offset: 91884,
+																														line: 2922, col: 9, offset: 92950,
 																													},
 																												},
 																											},
@@ -33566,9 +33566,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2907, col: 8, offset: 91883},
+																					pos: position{line: 2922, col: 8, offset: 92949},
 																					expr: &anyMatcher{
-																						line: 2907, col: 9, offset: 91884,
+																						line: 2922, col: 9, offset: 92950,
 																					},
 																				},
 																			},
@@ -33584,21 +33584,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2905, col: 11, offset: 91869},
+																						pos: position{line: 2920, col: 11, offset: 92935},
 																						expr: &anyMatcher{
-																							line: 2905, col: 13, offset: 91871,
+																							line: 2920, col: 13, offset: 92937,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2834, col: 13, offset: 90061},
+																							pos: position{line: 2849, col: 13, offset: 91127},
 																							run: (*parser).callonListContinuationElement804,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2834, col: 13, offset: 90061},
+																								pos: position{line: 2849, col: 13, offset: 91127},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2834, col: 13, offset: 90061},
+																									pos:        position{line: 2849, col: 13, offset: 91127},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33608,28 +33608,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2910, col: 8, offset: 91933},
+																						pos: position{line: 2925, col: 8, offset: 92999},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2897, col: 12, offset: 91706},
+																								pos: position{line: 2912, col: 12, offset: 92772},
 																								run: (*parser).callonListContinuationElement808,
 																								expr: &choiceExpr{
-																									pos: position{line: 2897, col: 13, offset: 91707},
+																									pos: position{line: 2912, col: 13, offset: 92773},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 13, offset: 91707},
+																											pos:        position{line: 2912, col: 13, offset: 92773},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 20, offset: 91714},
+																											pos:        position{line: 2912, col: 20, offset: 92780},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 29, offset: 91723},
+																											pos:        position{line: 2912, col: 29, offset: 92789},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33638,9 +33638,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2907, col: 8, offset: 91883},
+																								pos: position{line: 2922, col: 8, offset: 92949},
 																								expr: &anyMatcher{
-																									line: 2907, col: 9, offset: 91884,
+																									line: 2922, col: 9, offset: 92950,
 																								},
 																							},
 																						},
@@ -33705,10 +33705,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 786, col: 8, offset: 25258},
 																							expr: &actionExpr{
-																								pos: position{line: 2888, col: 10, offset: 91535},
+																								pos: position{line: 2903, col: 10, offset: 92601},
 																								run: (*parser).callonListContinuationElement829,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2888, col: 10, offset: 91535},
+																									pos:        position{line: 2903, col: 10, offset: 92601},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33717,28 +33717,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2910, col: 8, offset: 91933},
+																							pos: position{line: 2925, col: 8, offset: 92999},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2897, col: 12, offset: 91706},
+																									pos: position{line: 2912, col: 12, offset: 92772},
 																									run: (*parser).callonListContinuationElement832,
 																									expr: &choiceExpr{
-																										pos: position{line: 2897, col: 13, offset: 91707},
+																										pos: position{line: 2912, col: 13, offset: 92773},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 13, offset: 91707},
+																												pos:        position{line: 2912, col: 13, offset: 92773},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 20, offset: 91714},
+																												pos:        position{line: 2912, col: 20, offset: 92780},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 29, offset: 91723},
+																												pos:        position{line: 2912, col: 29, offset: 92789},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33747,9 +33747,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2907, col: 8, offset: 91883},
+																									pos: position{line: 2922, col: 8, offset: 92949},
 																									expr: &anyMatcher{
-																										line: 2907, col: 9, offset: 91884,
+																										line: 2922, col: 9, offset: 92950,
 																									},
 																								},
 																							},
@@ -33765,9 +33765,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2907, col: 8, offset: 91883},
+																	pos: position{line: 2922, col: 8, offset: 92949},
 																	expr: &anyMatcher{
-																		line: 2907, col: 9, offset: 91884,
+																		line: 2922, col: 9, offset: 92950,
 																	},
 																},
 															},
@@ -33801,18 +33801,18 @@ var g = &grammar{
 																			pos: position{line: 677, col: 14, offset: 21525},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2905, col: 11, offset: 91869},
+																					pos: position{line: 2920, col: 11, offset: 92935},
 																					expr: &anyMatcher{
-																						line: 2905, col: 13, offset: 91871,
+																						line: 2920, col: 13, offset: 92937,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21532},
 																					expr: &actionExpr{
-																						pos: position{line: 2888, col: 10, offset: 91535},
+																						pos: position{line: 2903, col: 10, offset: 92601},
 																						run: (*parser).callonListContinuationElement853,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2888, col: 10, offset: 91535},
+																							pos:        position{line: 2903, col: 10, offset: 92601},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -33821,28 +33821,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2910, col: 8, offset: 91933},
+																					pos: position{line: 2925, col: 8, offset: 92999},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2897, col: 12, offset: 91706},
+																							pos: position{line: 2912, col: 12, offset: 92772},
 																							run: (*parser).callonListContinuationElement856,
 																							expr: &choiceExpr{
-																								pos: position{line: 2897, col: 13, offset: 91707},
+																								pos: position{line: 2912, col: 13, offset: 92773},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2897, col: 13, offset: 91707},
+																										pos:        position{line: 2912, col: 13, offset: 92773},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2897, col: 20, offset: 91714},
+																										pos:        position{line: 2912, col: 20, offset: 92780},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2897, col: 29, offset: 91723},
+																										pos:        position{line: 2912, col: 29, offset: 92789},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -33851,9 +33851,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2907, col: 8, offset: 91883},
+																							pos: position{line: 2922, col: 8, offset: 92949},
 																							expr: &anyMatcher{
-																								line: 2907, col: 9, offset: 91884,
+																								line: 2922, col: 9, offset: 92950,
 																							},
 																						},
 																					},
@@ -33872,12 +33872,12 @@ var g = &grammar{
 																	pos:   position{line: 985, col: 5, offset: 30748},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2838, col: 14, offset: 90128},
+																		pos: position{line: 2853, col: 14, offset: 91194},
 																		run: (*parser).callonListContinuationElement865,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2838, col: 14, offset: 90128},
+																			pos: position{line: 2853, col: 14, offset: 91194},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2838, col: 14, offset: 90128},
+																				pos:        position{line: 2853, col: 14, offset: 91194},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -33887,28 +33887,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2910, col: 8, offset: 91933},
+																	pos: position{line: 2925, col: 8, offset: 92999},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2897, col: 12, offset: 91706},
+																			pos: position{line: 2912, col: 12, offset: 92772},
 																			run: (*parser).callonListContinuationElement869,
 																			expr: &choiceExpr{
-																				pos: position{line: 2897, col: 13, offset: 91707},
+																				pos: position{line: 2912, col: 13, offset: 92773},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 13, offset: 91707},
+																						pos:        position{line: 2912, col: 13, offset: 92773},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 20, offset: 91714},
+																						pos:        position{line: 2912, col: 20, offset: 92780},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 29, offset: 91723},
+																						pos:        position{line: 2912, col: 29, offset: 92789},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33917,9 +33917,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2907, col: 8, offset: 91883},
+																			pos: position{line: 2922, col: 8, offset: 92949},
 																			expr: &anyMatcher{
-																				line: 2907, col: 9, offset: 91884,
+																				line: 2922, col: 9, offset: 92950,
 																			},
 																		},
 																	},
@@ -33951,18 +33951,18 @@ var g = &grammar{
 																						pos: position{line: 677, col: 14, offset: 21525},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2905, col: 11, offset: 91869},
+																								pos: position{line: 2920, col: 11, offset: 92935},
 																								expr: &anyMatcher{
-																									line: 2905, col: 13, offset: 91871,
+																									line: 2920, col: 13, offset: 92937,
 																								},
 																							},
 																							&zeroOrMoreExpr{
 																								pos: position{line: 677, col: 21, offset: 21532},
 																								expr: &actionExpr{
-																									pos: position{line: 2888, col: 10, offset: 91535},
+																									pos: position{line: 2903, col: 10, offset: 92601},
 																									run: (*parser).callonListContinuationElement887,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2888, col: 10, offset: 91535},
+																										pos:        position{line: 2903, col: 10, offset: 92601},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33971,28 +33971,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2910, col: 8, offset: 91933},
+																								pos: position{line: 2925, col: 8, offset: 92999},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2897, col: 12, offset: 91706},
+																										pos: position{line: 2912, col: 12, offset: 92772},
 																										run: (*parser).callonListContinuationElement890,
 																										expr: &choiceExpr{
-																											pos: position{line: 2897, col: 13, offset: 91707},
+																											pos: position{line: 2912, col: 13, offset: 92773},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2897, col: 13, offset: 91707},
+																													pos:        position{line: 2912, col: 13, offset: 92773},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2897, col: 20, offset: 91714},
+																													pos:        position{line: 2912, col: 20, offset: 92780},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2897, col: 29, offset: 91723},
+																													pos:        position{line: 2912, col: 29, offset: 92789},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34001,9 +34001,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2907, col: 8, offset: 91883},
+																										pos: position{line: 2922, col: 8, offset: 92949},
 																										expr: &anyMatcher{
-																											line: 2907, col: 9, offset: 91884,
+																											line: 2922, col: 9, offset: 92950,
 																										},
 																									},
 																								},
@@ -34022,12 +34022,12 @@ var g = &grammar{
 																				pos:   position{line: 985, col: 5, offset: 30748},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2838, col: 14, offset: 90128},
+																					pos: position{line: 2853, col: 14, offset: 91194},
 																					run: (*parser).callonListContinuationElement899,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2838, col: 14, offset: 90128},
+																						pos: position{line: 2853, col: 14, offset: 91194},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2838, col: 14, offset: 90128},
+																							pos:        position{line: 2853, col: 14, offset: 91194},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34037,28 +34037,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2910, col: 8, offset: 91933},
+																				pos: position{line: 2925, col: 8, offset: 92999},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2897, col: 12, offset: 91706},
+																						pos: position{line: 2912, col: 12, offset: 92772},
 																						run: (*parser).callonListContinuationElement903,
 																						expr: &choiceExpr{
-																							pos: position{line: 2897, col: 13, offset: 91707},
+																							pos: position{line: 2912, col: 13, offset: 92773},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2897, col: 13, offset: 91707},
+																									pos:        position{line: 2912, col: 13, offset: 92773},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2897, col: 20, offset: 91714},
+																									pos:        position{line: 2912, col: 20, offset: 92780},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2897, col: 29, offset: 91723},
+																									pos:        position{line: 2912, col: 29, offset: 92789},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34067,9 +34067,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2907, col: 8, offset: 91883},
+																						pos: position{line: 2922, col: 8, offset: 92949},
 																						expr: &anyMatcher{
-																							line: 2907, col: 9, offset: 91884,
+																							line: 2922, col: 9, offset: 92950,
 																						},
 																					},
 																				},
@@ -34087,12 +34087,12 @@ var g = &grammar{
 																				pos:   position{line: 1798, col: 5, offset: 58283},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2838, col: 14, offset: 90128},
+																					pos: position{line: 2853, col: 14, offset: 91194},
 																					run: (*parser).callonListContinuationElement913,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2838, col: 14, offset: 90128},
+																						pos: position{line: 2853, col: 14, offset: 91194},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2838, col: 14, offset: 90128},
+																							pos:        position{line: 2853, col: 14, offset: 91194},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34106,28 +34106,28 @@ var g = &grammar{
 																				run: (*parser).callonListContinuationElement916,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2910, col: 8, offset: 91933},
+																				pos: position{line: 2925, col: 8, offset: 92999},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2897, col: 12, offset: 91706},
+																						pos: position{line: 2912, col: 12, offset: 92772},
 																						run: (*parser).callonListContinuationElement918,
 																						expr: &choiceExpr{
-																							pos: position{line: 2897, col: 13, offset: 91707},
+																							pos: position{line: 2912, col: 13, offset: 92773},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2897, col: 13, offset: 91707},
+																									pos:        position{line: 2912, col: 13, offset: 92773},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2897, col: 20, offset: 91714},
+																									pos:        position{line: 2912, col: 20, offset: 92780},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2897, col: 29, offset: 91723},
+																									pos:        position{line: 2912, col: 29, offset: 92789},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34136,9 +34136,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2907, col: 8, offset: 91883},
+																						pos: position{line: 2922, col: 8, offset: 92949},
 																						expr: &anyMatcher{
-																							line: 2907, col: 9, offset: 91884,
+																							line: 2922, col: 9, offset: 92950,
 																						},
 																					},
 																				},
@@ -34185,10 +34185,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 779, col: 8, offset: 25013},
 																	expr: &actionExpr{
-																		pos: position{line: 2888, col: 10, offset: 91535},
+																		pos: position{line: 2903, col: 10, offset: 92601},
 																		run: (*parser).callonListContinuationElement934,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2888, col: 10, offset: 91535},
+																			pos:        position{line: 2903, col: 10, offset: 92601},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34197,28 +34197,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2910, col: 8, offset: 91933},
+																	pos: position{line: 2925, col: 8, offset: 92999},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2897, col: 12, offset: 91706},
+																			pos: position{line: 2912, col: 12, offset: 92772},
 																			run: (*parser).callonListContinuationElement937,
 																			expr: &choiceExpr{
-																				pos: position{line: 2897, col: 13, offset: 91707},
+																				pos: position{line: 2912, col: 13, offset: 92773},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 13, offset: 91707},
+																						pos:        position{line: 2912, col: 13, offset: 92773},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 20, offset: 91714},
+																						pos:        position{line: 2912, col: 20, offset: 92780},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 29, offset: 91723},
+																						pos:        position{line: 2912, col: 29, offset: 92789},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34227,9 +34227,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2907, col: 8, offset: 91883},
+																			pos: position{line: 2922, col: 8, offset: 92949},
 																			expr: &anyMatcher{
-																				line: 2907, col: 9, offset: 91884,
+																				line: 2922, col: 9, offset: 92950,
 																			},
 																		},
 																	},
@@ -34277,10 +34277,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 779, col: 8, offset: 25013},
 																								expr: &actionExpr{
-																									pos: position{line: 2888, col: 10, offset: 91535},
+																									pos: position{line: 2903, col: 10, offset: 92601},
 																									run: (*parser).callonListContinuationElement956,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2888, col: 10, offset: 91535},
+																										pos:        position{line: 2903, col: 10, offset: 92601},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -34289,28 +34289,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2910, col: 8, offset: 91933},
+																								pos: position{line: 2925, col: 8, offset: 92999},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2897, col: 12, offset: 91706},
+																										pos: position{line: 2912, col: 12, offset: 92772},
 																										run: (*parser).callonListContinuationElement959,
 																										expr: &choiceExpr{
-																											pos: position{line: 2897, col: 13, offset: 91707},
+																											pos: position{line: 2912, col: 13, offset: 92773},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2897, col: 13, offset: 91707},
+																													pos:        position{line: 2912, col: 13, offset: 92773},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2897, col: 20, offset: 91714},
+																													pos:        position{line: 2912, col: 20, offset: 92780},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2897, col: 29, offset: 91723},
+																													pos:        position{line: 2912, col: 29, offset: 92789},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34319,9 +34319,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2907, col: 8, offset: 91883},
+																										pos: position{line: 2922, col: 8, offset: 92949},
 																										expr: &anyMatcher{
-																											line: 2907, col: 9, offset: 91884,
+																											line: 2922, col: 9, offset: 92950,
 																										},
 																									},
 																								},
@@ -34330,9 +34330,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2907, col: 8, offset: 91883},
+																					pos: position{line: 2922, col: 8, offset: 92949},
 																					expr: &anyMatcher{
-																						line: 2907, col: 9, offset: 91884,
+																						line: 2922, col: 9, offset: 92950,
 																					},
 																				},
 																			},
@@ -34348,21 +34348,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2905, col: 11, offset: 91869},
+																						pos: position{line: 2920, col: 11, offset: 92935},
 																						expr: &anyMatcher{
-																							line: 2905, col: 13, offset: 91871,
+																							line: 2920, col: 13, offset: 92937,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2834, col: 13, offset: 90061},
+																							pos: position{line: 2849, col: 13, offset: 91127},
 																							run: (*parser).callonListContinuationElement974,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2834, col: 13, offset: 90061},
+																								pos: position{line: 2849, col: 13, offset: 91127},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2834, col: 13, offset: 90061},
+																									pos:        position{line: 2849, col: 13, offset: 91127},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34372,28 +34372,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2910, col: 8, offset: 91933},
+																						pos: position{line: 2925, col: 8, offset: 92999},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2897, col: 12, offset: 91706},
+																								pos: position{line: 2912, col: 12, offset: 92772},
 																								run: (*parser).callonListContinuationElement978,
 																								expr: &choiceExpr{
-																									pos: position{line: 2897, col: 13, offset: 91707},
+																									pos: position{line: 2912, col: 13, offset: 92773},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 13, offset: 91707},
+																											pos:        position{line: 2912, col: 13, offset: 92773},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 20, offset: 91714},
+																											pos:        position{line: 2912, col: 20, offset: 92780},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 29, offset: 91723},
+																											pos:        position{line: 2912, col: 29, offset: 92789},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34402,9 +34402,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2907, col: 8, offset: 91883},
+																								pos: position{line: 2922, col: 8, offset: 92949},
 																								expr: &anyMatcher{
-																									line: 2907, col: 9, offset: 91884,
+																									line: 2922, col: 9, offset: 92950,
 																								},
 																							},
 																						},
@@ -34449,10 +34449,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 779, col: 8, offset: 25013},
 																				expr: &actionExpr{
-																					pos: position{line: 2888, col: 10, offset: 91535},
+																					pos: position{line: 2903, col: 10, offset: 92601},
 																					run: (*parser).callonListContinuationElement994,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2888, col: 10, offset: 91535},
+																						pos:        position{line: 2903, col: 10, offset: 92601},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -34461,28 +34461,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2910, col: 8, offset: 91933},
+																				pos: position{line: 2925, col: 8, offset: 92999},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2897, col: 12, offset: 91706},
+																						pos: position{line: 2912, col: 12, offset: 92772},
 																						run: (*parser).callonListContinuationElement997,
 																						expr: &choiceExpr{
-																							pos: position{line: 2897, col: 13, offset: 91707},
+																							pos: position{line: 2912, col: 13, offset: 92773},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2897, col: 13, offset: 91707},
+																									pos:        position{line: 2912, col: 13, offset: 92773},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2897, col: 20, offset: 91714},
+																									pos:        position{line: 2912, col: 20, offset: 92780},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2897, col: 29, offset: 91723},
+																									pos:        position{line: 2912, col: 29, offset: 92789},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34491,9 +34491,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2907, col: 8, offset: 91883},
+																						pos: position{line: 2922, col: 8, offset: 92949},
 																						expr: &anyMatcher{
-																							line: 2907, col: 9, offset: 91884,
+																							line: 2922, col: 9, offset: 92950,
 																						},
 																					},
 																				},
@@ -34502,9 +34502,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2907, col: 8, offset: 91883},
+																	pos: position{line: 2922, col: 8, offset: 92949},
 																	expr: &anyMatcher{
-																		line: 2907, col: 9, offset: 91884,
+																		line: 2922, col: 9, offset: 92950,
 																	},
 																},
 															},
@@ -34560,10 +34560,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 793, col: 8, offset: 25510},
 																	expr: &actionExpr{
-																		pos: position{line: 2888, col: 10, offset: 91535},
+																		pos: position{line: 2903, col: 10, offset: 92601},
 																		run: (*parser).callonListContinuationElement1018,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2888, col: 10, offset: 91535},
+																			pos:        position{line: 2903, col: 10, offset: 92601},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34572,28 +34572,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2910, col: 8, offset: 91933},
+																	pos: position{line: 2925, col: 8, offset: 92999},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2897, col: 12, offset: 91706},
+																			pos: position{line: 2912, col: 12, offset: 92772},
 																			run: (*parser).callonListContinuationElement1021,
 																			expr: &choiceExpr{
-																				pos: position{line: 2897, col: 13, offset: 91707},
+																				pos: position{line: 2912, col: 13, offset: 92773},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 13, offset: 91707},
+																						pos:        position{line: 2912, col: 13, offset: 92773},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 20, offset: 91714},
+																						pos:        position{line: 2912, col: 20, offset: 92780},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 29, offset: 91723},
+																						pos:        position{line: 2912, col: 29, offset: 92789},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34602,9 +34602,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2907, col: 8, offset: 91883},
+																			pos: position{line: 2922, col: 8, offset: 92949},
 																			expr: &anyMatcher{
-																				line: 2907, col: 9, offset: 91884,
+																				line: 2922, col: 9, offset: 92950,
 																			},
 																		},
 																	},
@@ -34676,10 +34676,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 793, col: 8, offset: 25510},
 																											expr: &actionExpr{
-																												pos: position{line: 2888, col: 10, offset: 91535},
+																												pos: position{line: 2903, col: 10, offset: 92601},
 																												run: (*parser).callonListContinuationElement1046,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2888, col: 10, offset: 91535},
+																													pos:        position{line: 2903, col: 10, offset: 92601},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34688,28 +34688,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2910, col: 8, offset: 91933},
+																											pos: position{line: 2925, col: 8, offset: 92999},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2897, col: 12, offset: 91706},
+																													pos: position{line: 2912, col: 12, offset: 92772},
 																													run: (*parser).callonListContinuationElement1049,
 																													expr: &choiceExpr{
-																														pos: position{line: 2897, col: 13, offset: 91707},
+																														pos: position{line: 2912, col: 13, offset: 92773},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 13, offset: 91707},
+																																pos:        position{line: 2912, col: 13, offset: 92773},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 20, offset: 91714},
+																																pos:        position{line: 2912, col: 20, offset: 92780},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 29, offset: 91723},
+																																pos:        position{line: 2912, col: 29, offset: 92789},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34718,9 +34718,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2907, col: 8, offset: 91883},
+																													pos: position{line: 2922, col: 8, offset: 92949},
 																													expr: &anyMatcher{
-																														line: 2907, col: 9, offset: 91884,
+																														line: 2922, col: 9, offset: 92950,
 																													},
 																												},
 																											},
@@ -34736,9 +34736,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2907, col: 8, offset: 91883},
+																					pos: position{line: 2922, col: 8, offset: 92949},
 																					expr: &anyMatcher{
-																						line: 2907, col: 9, offset: 91884,
+																						line: 2922, col: 9, offset: 92950,
 																					},
 																				},
 																			},
@@ -34754,21 +34754,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2905, col: 11, offset: 91869},
+																						pos: position{line: 2920, col: 11, offset: 92935},
 																						expr: &anyMatcher{
-																							line: 2905, col: 13, offset: 91871,
+																							line: 2920, col: 13, offset: 92937,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2834, col: 13, offset: 90061},
+																							pos: position{line: 2849, col: 13, offset: 91127},
 																							run: (*parser).callonListContinuationElement1065,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2834, col: 13, offset: 90061},
+																								pos: position{line: 2849, col: 13, offset: 91127},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2834, col: 13, offset: 90061},
+																									pos:        position{line: 2849, col: 13, offset: 91127},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34778,28 +34778,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2910, col: 8, offset: 91933},
+																						pos: position{line: 2925, col: 8, offset: 92999},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2897, col: 12, offset: 91706},
+																								pos: position{line: 2912, col: 12, offset: 92772},
 																								run: (*parser).callonListContinuationElement1069,
 																								expr: &choiceExpr{
-																									pos: position{line: 2897, col: 13, offset: 91707},
+																									pos: position{line: 2912, col: 13, offset: 92773},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 13, offset: 91707},
+																											pos:        position{line: 2912, col: 13, offset: 92773},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 20, offset: 91714},
+																											pos:        position{line: 2912, col: 20, offset: 92780},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 29, offset: 91723},
+																											pos:        position{line: 2912, col: 29, offset: 92789},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34808,9 +34808,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2907, col: 8, offset: 91883},
+																								pos: position{line: 2922, col: 8, offset: 92949},
 																								expr: &anyMatcher{
-																									line: 2907, col: 9, offset: 91884,
+																									line: 2922, col: 9, offset: 92950,
 																								},
 																							},
 																						},
@@ -34875,10 +34875,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 793, col: 8, offset: 25510},
 																							expr: &actionExpr{
-																								pos: position{line: 2888, col: 10, offset: 91535},
+																								pos: position{line: 2903, col: 10, offset: 92601},
 																								run: (*parser).callonListContinuationElement1090,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2888, col: 10, offset: 91535},
+																									pos:        position{line: 2903, col: 10, offset: 92601},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34887,28 +34887,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2910, col: 8, offset: 91933},
+																							pos: position{line: 2925, col: 8, offset: 92999},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2897, col: 12, offset: 91706},
+																									pos: position{line: 2912, col: 12, offset: 92772},
 																									run: (*parser).callonListContinuationElement1093,
 																									expr: &choiceExpr{
-																										pos: position{line: 2897, col: 13, offset: 91707},
+																										pos: position{line: 2912, col: 13, offset: 92773},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 13, offset: 91707},
+																												pos:        position{line: 2912, col: 13, offset: 92773},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 20, offset: 91714},
+																												pos:        position{line: 2912, col: 20, offset: 92780},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 29, offset: 91723},
+																												pos:        position{line: 2912, col: 29, offset: 92789},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34917,9 +34917,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2907, col: 8, offset: 91883},
+																									pos: position{line: 2922, col: 8, offset: 92949},
 																									expr: &anyMatcher{
-																										line: 2907, col: 9, offset: 91884,
+																										line: 2922, col: 9, offset: 92950,
 																									},
 																								},
 																							},
@@ -34935,9 +34935,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2907, col: 8, offset: 91883},
+																	pos: position{line: 2922, col: 8, offset: 92949},
 																	expr: &anyMatcher{
-																		line: 2907, col: 9, offset: 91884,
+																		line: 2922, col: 9, offset: 92950,
 																	},
 																},
 															},
@@ -34993,10 +34993,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 800, col: 8, offset: 25760},
 																	expr: &actionExpr{
-																		pos: position{line: 2888, col: 10, offset: 91535},
+																		pos: position{line: 2903, col: 10, offset: 92601},
 																		run: (*parser).callonListContinuationElement1115,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2888, col: 10, offset: 91535},
+																			pos:        position{line: 2903, col: 10, offset: 92601},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35005,28 +35005,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2910, col: 8, offset: 91933},
+																	pos: position{line: 2925, col: 8, offset: 92999},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2897, col: 12, offset: 91706},
+																			pos: position{line: 2912, col: 12, offset: 92772},
 																			run: (*parser).callonListContinuationElement1118,
 																			expr: &choiceExpr{
-																				pos: position{line: 2897, col: 13, offset: 91707},
+																				pos: position{line: 2912, col: 13, offset: 92773},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 13, offset: 91707},
+																						pos:        position{line: 2912, col: 13, offset: 92773},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 20, offset: 91714},
+																						pos:        position{line: 2912, col: 20, offset: 92780},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 29, offset: 91723},
+																						pos:        position{line: 2912, col: 29, offset: 92789},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35035,9 +35035,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2907, col: 8, offset: 91883},
+																			pos: position{line: 2922, col: 8, offset: 92949},
 																			expr: &anyMatcher{
-																				line: 2907, col: 9, offset: 91884,
+																				line: 2922, col: 9, offset: 92950,
 																			},
 																		},
 																	},
@@ -35109,10 +35109,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 800, col: 8, offset: 25760},
 																											expr: &actionExpr{
-																												pos: position{line: 2888, col: 10, offset: 91535},
+																												pos: position{line: 2903, col: 10, offset: 92601},
 																												run: (*parser).callonListContinuationElement1143,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2888, col: 10, offset: 91535},
+																													pos:        position{line: 2903, col: 10, offset: 92601},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35121,28 +35121,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2910, col: 8, offset: 91933},
+																											pos: position{line: 2925, col: 8, offset: 92999},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2897, col: 12, offset: 91706},
+																													pos: position{line: 2912, col: 12, offset: 92772},
 																													run: (*parser).callonListContinuationElement1146,
 																													expr: &choiceExpr{
-																														pos: position{line: 2897, col: 13, offset: 91707},
+																														pos: position{line: 2912, col: 13, offset: 92773},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 13, offset: 91707},
+																																pos:        position{line: 2912, col: 13, offset: 92773},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 20, offset: 91714},
+																																pos:        position{line: 2912, col: 20, offset: 92780},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 29, offset: 91723},
+																																pos:        position{line: 2912, col: 29, offset: 92789},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35151,9 +35151,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2907, col: 8, offset: 91883},
+																													pos: position{line: 2922, col: 8, offset: 92949},
 																													expr: &anyMatcher{
-																														line: 2907, col: 9, offset: 91884,
+																														line: 2922, col: 9, offset: 92950,
 																													},
 																												},
 																											},
@@ -35169,9 +35169,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2907, col: 8, offset: 91883},
+																					pos: position{line: 2922, col: 8, offset: 92949},
 																					expr: &anyMatcher{
-																						line: 2907, col: 9, offset: 91884,
+																						line: 2922, col: 9, offset: 92950,
 																					},
 																				},
 																			},
@@ -35187,21 +35187,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2905, col: 11, offset: 91869},
+																						pos: position{line: 2920, col: 11, offset: 92935},
 																						expr: &anyMatcher{
-																							line: 2905, col: 13, offset: 91871,
+																							line: 2920, col: 13, offset: 92937,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2834, col: 13, offset: 90061},
+																							pos: position{line: 2849, col: 13, offset: 91127},
 																							run: (*parser).callonListContinuationElement1162,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2834, col: 13, offset: 90061},
+																								pos: position{line: 2849, col: 13, offset: 91127},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2834, col: 13, offset: 90061},
+																									pos:        position{line: 2849, col: 13, offset: 91127},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35211,28 +35211,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2910, col: 8, offset: 91933},
+																						pos: position{line: 2925, col: 8, offset: 92999},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2897, col: 12, offset: 91706},
+																								pos: position{line: 2912, col: 12, offset: 92772},
 																								run: (*parser).callonListContinuationElement1166,
 																								expr: &choiceExpr{
-																									pos: position{line: 2897, col: 13, offset: 91707},
+																									pos: position{line: 2912, col: 13, offset: 92773},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 13, offset: 91707},
+																											pos:        position{line: 2912, col: 13, offset: 92773},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 20, offset: 91714},
+																											pos:        position{line: 2912, col: 20, offset: 92780},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 29, offset: 91723},
+																											pos:        position{line: 2912, col: 29, offset: 92789},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35241,9 +35241,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2907, col: 8, offset: 91883},
+																								pos: position{line: 2922, col: 8, offset: 92949},
 																								expr: &anyMatcher{
-																									line: 2907, col: 9, offset: 91884,
+																									line: 2922, col: 9, offset: 92950,
 																								},
 																							},
 																						},
@@ -35308,10 +35308,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 800, col: 8, offset: 25760},
 																							expr: &actionExpr{
-																								pos: position{line: 2888, col: 10, offset: 91535},
+																								pos: position{line: 2903, col: 10, offset: 92601},
 																								run: (*parser).callonListContinuationElement1187,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2888, col: 10, offset: 91535},
+																									pos:        position{line: 2903, col: 10, offset: 92601},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35320,28 +35320,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2910, col: 8, offset: 91933},
+																							pos: position{line: 2925, col: 8, offset: 92999},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2897, col: 12, offset: 91706},
+																									pos: position{line: 2912, col: 12, offset: 92772},
 																									run: (*parser).callonListContinuationElement1190,
 																									expr: &choiceExpr{
-																										pos: position{line: 2897, col: 13, offset: 91707},
+																										pos: position{line: 2912, col: 13, offset: 92773},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 13, offset: 91707},
+																												pos:        position{line: 2912, col: 13, offset: 92773},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 20, offset: 91714},
+																												pos:        position{line: 2912, col: 20, offset: 92780},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 29, offset: 91723},
+																												pos:        position{line: 2912, col: 29, offset: 92789},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35350,9 +35350,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2907, col: 8, offset: 91883},
+																									pos: position{line: 2922, col: 8, offset: 92949},
 																									expr: &anyMatcher{
-																										line: 2907, col: 9, offset: 91884,
+																										line: 2922, col: 9, offset: 92950,
 																									},
 																								},
 																							},
@@ -35368,9 +35368,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2907, col: 8, offset: 91883},
+																	pos: position{line: 2922, col: 8, offset: 92949},
 																	expr: &anyMatcher{
-																		line: 2907, col: 9, offset: 91884,
+																		line: 2922, col: 9, offset: 92950,
 																	},
 																},
 															},
@@ -35426,10 +35426,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 807, col: 8, offset: 26006},
 																	expr: &actionExpr{
-																		pos: position{line: 2888, col: 10, offset: 91535},
+																		pos: position{line: 2903, col: 10, offset: 92601},
 																		run: (*parser).callonListContinuationElement1212,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2888, col: 10, offset: 91535},
+																			pos:        position{line: 2903, col: 10, offset: 92601},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35438,28 +35438,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2910, col: 8, offset: 91933},
+																	pos: position{line: 2925, col: 8, offset: 92999},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2897, col: 12, offset: 91706},
+																			pos: position{line: 2912, col: 12, offset: 92772},
 																			run: (*parser).callonListContinuationElement1215,
 																			expr: &choiceExpr{
-																				pos: position{line: 2897, col: 13, offset: 91707},
+																				pos: position{line: 2912, col: 13, offset: 92773},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 13, offset: 91707},
+																						pos:        position{line: 2912, col: 13, offset: 92773},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 20, offset: 91714},
+																						pos:        position{line: 2912, col: 20, offset: 92780},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 29, offset: 91723},
+																						pos:        position{line: 2912, col: 29, offset: 92789},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35468,9 +35468,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2907, col: 8, offset: 91883},
+																			pos: position{line: 2922, col: 8, offset: 92949},
 																			expr: &anyMatcher{
-																				line: 2907, col: 9, offset: 91884,
+																				line: 2922, col: 9, offset: 92950,
 																			},
 																		},
 																	},
@@ -35542,10 +35542,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 807, col: 8, offset: 26006},
 																											expr: &actionExpr{
-																												pos: position{line: 2888, col: 10, offset: 91535},
+																												pos: position{line: 2903, col: 10, offset: 92601},
 																												run: (*parser).callonListContinuationElement1240,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2888, col: 10, offset: 91535},
+																													pos:        position{line: 2903, col: 10, offset: 92601},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35554,28 +35554,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2910, col: 8, offset: 91933},
+																											pos: position{line: 2925, col: 8, offset: 92999},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2897, col: 12, offset: 91706},
+																													pos: position{line: 2912, col: 12, offset: 92772},
 																													run: (*parser).callonListContinuationElement1243,
 																													expr: &choiceExpr{
-																														pos: position{line: 2897, col: 13, offset: 91707},
+																														pos: position{line: 2912, col: 13, offset: 92773},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 13, offset: 91707},
+																																pos:        position{line: 2912, col: 13, offset: 92773},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 20, offset: 91714},
+																																pos:        position{line: 2912, col: 20, offset: 92780},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 29, offset: 91723},
+																																pos:        position{line: 2912, col: 29, offset: 92789},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35584,9 +35584,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2907, col: 8, offset: 91883},
+																													pos: position{line: 2922, col: 8, offset: 92949},
 																													expr: &anyMatcher{
-																														line: 2907, col: 9, offset: 91884,
+																														line: 2922, col: 9, offset: 92950,
 																													},
 																												},
 																											},
@@ -35602,9 +35602,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2907, col: 8, offset: 91883},
+																					pos: position{line: 2922, col: 8, offset: 92949},
 																					expr: &anyMatcher{
-																						line: 2907, col: 9, offset: 91884,
+																						line: 2922, col: 9, offset: 92950,
 																					},
 																				},
 																			},
@@ -35620,21 +35620,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2905, col: 11, offset: 91869},
+																						pos: position{line: 2920, col: 11, offset: 92935},
 																						expr: &anyMatcher{
-																							line: 2905, col: 13, offset: 91871,
+																							line: 2920, col: 13, offset: 92937,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2834, col: 13, offset: 90061},
+																							pos: position{line: 2849, col: 13, offset: 91127},
 																							run: (*parser).callonListContinuationElement1259,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2834, col: 13, offset: 90061},
+																								pos: position{line: 2849, col: 13, offset: 91127},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2834, col: 13, offset: 90061},
+																									pos:        position{line: 2849, col: 13, offset: 91127},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35644,28 +35644,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2910, col: 8, offset: 91933},
+																						pos: position{line: 2925, col: 8, offset: 92999},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2897, col: 12, offset: 91706},
+																								pos: position{line: 2912, col: 12, offset: 92772},
 																								run: (*parser).callonListContinuationElement1263,
 																								expr: &choiceExpr{
-																									pos: position{line: 2897, col: 13, offset: 91707},
+																									pos: position{line: 2912, col: 13, offset: 92773},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 13, offset: 91707},
+																											pos:        position{line: 2912, col: 13, offset: 92773},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 20, offset: 91714},
+																											pos:        position{line: 2912, col: 20, offset: 92780},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 29, offset: 91723},
+																											pos:        position{line: 2912, col: 29, offset: 92789},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35674,9 +35674,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2907, col: 8, offset: 91883},
+																								pos: position{line: 2922, col: 8, offset: 92949},
 																								expr: &anyMatcher{
-																									line: 2907, col: 9, offset: 91884,
+																									line: 2922, col: 9, offset: 92950,
 																								},
 																							},
 																						},
@@ -35741,10 +35741,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 807, col: 8, offset: 26006},
 																							expr: &actionExpr{
-																								pos: position{line: 2888, col: 10, offset: 91535},
+																								pos: position{line: 2903, col: 10, offset: 92601},
 																								run: (*parser).callonListContinuationElement1284,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2888, col: 10, offset: 91535},
+																									pos:        position{line: 2903, col: 10, offset: 92601},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35753,28 +35753,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2910, col: 8, offset: 91933},
+																							pos: position{line: 2925, col: 8, offset: 92999},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2897, col: 12, offset: 91706},
+																									pos: position{line: 2912, col: 12, offset: 92772},
 																									run: (*parser).callonListContinuationElement1287,
 																									expr: &choiceExpr{
-																										pos: position{line: 2897, col: 13, offset: 91707},
+																										pos: position{line: 2912, col: 13, offset: 92773},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 13, offset: 91707},
+																												pos:        position{line: 2912, col: 13, offset: 92773},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 20, offset: 91714},
+																												pos:        position{line: 2912, col: 20, offset: 92780},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2897, col: 29, offset: 91723},
+																												pos:        position{line: 2912, col: 29, offset: 92789},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35783,9 +35783,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2907, col: 8, offset: 91883},
+																									pos: position{line: 2922, col: 8, offset: 92949},
 																									expr: &anyMatcher{
-																										line: 2907, col: 9, offset: 91884,
+																										line: 2922, col: 9, offset: 92950,
 																									},
 																								},
 																							},
@@ -35801,9 +35801,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2907, col: 8, offset: 91883},
+																	pos: position{line: 2922, col: 8, offset: 92949},
 																	expr: &anyMatcher{
-																		line: 2907, col: 9, offset: 91884,
+																		line: 2922, col: 9, offset: 92950,
 																	},
 																},
 															},
@@ -35814,52 +35814,52 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2726, col: 18, offset: 86916},
+										pos: position{line: 2741, col: 18, offset: 87982},
 										run: (*parser).callonListContinuationElement1297,
 										expr: &seqExpr{
-											pos: position{line: 2726, col: 18, offset: 86916},
+											pos: position{line: 2741, col: 18, offset: 87982},
 											exprs: []interface{}{
 												&choiceExpr{
-													pos: position{line: 2727, col: 9, offset: 86926},
+													pos: position{line: 2742, col: 9, offset: 87992},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2727, col: 9, offset: 86926},
+															pos:        position{line: 2742, col: 9, offset: 87992},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2728, col: 11, offset: 86962},
+															pos:        position{line: 2743, col: 11, offset: 88028},
 															val:        "***",
 															ignoreCase: false,
 															want:       "\"***\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2728, col: 19, offset: 86970},
+															pos:        position{line: 2743, col: 19, offset: 88036},
 															val:        "* * *",
 															ignoreCase: false,
 															want:       "\"* * *\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2728, col: 29, offset: 86980},
+															pos:        position{line: 2743, col: 29, offset: 88046},
 															val:        "---",
 															ignoreCase: false,
 															want:       "\"---\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2728, col: 37, offset: 86988},
+															pos:        position{line: 2743, col: 37, offset: 88054},
 															val:        "- - -",
 															ignoreCase: false,
 															want:       "\"- - -\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2728, col: 47, offset: 86998},
+															pos:        position{line: 2743, col: 47, offset: 88064},
 															val:        "___",
 															ignoreCase: false,
 															want:       "\"___\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2728, col: 55, offset: 87006},
+															pos:        position{line: 2743, col: 55, offset: 88072},
 															val:        "_ _ _",
 															ignoreCase: false,
 															want:       "\"_ _ _\"",
@@ -35867,12 +35867,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2729, col: 11, offset: 87052},
+													pos: position{line: 2744, col: 11, offset: 88118},
 													expr: &actionExpr{
-														pos: position{line: 2888, col: 10, offset: 91535},
+														pos: position{line: 2903, col: 10, offset: 92601},
 														run: (*parser).callonListContinuationElement1308,
 														expr: &charClassMatcher{
-															pos:        position{line: 2888, col: 10, offset: 91535},
+															pos:        position{line: 2903, col: 10, offset: 92601},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35881,28 +35881,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2910, col: 8, offset: 91933},
+													pos: position{line: 2925, col: 8, offset: 92999},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2897, col: 12, offset: 91706},
+															pos: position{line: 2912, col: 12, offset: 92772},
 															run: (*parser).callonListContinuationElement1311,
 															expr: &choiceExpr{
-																pos: position{line: 2897, col: 13, offset: 91707},
+																pos: position{line: 2912, col: 13, offset: 92773},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2897, col: 13, offset: 91707},
+																		pos:        position{line: 2912, col: 13, offset: 92773},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2897, col: 20, offset: 91714},
+																		pos:        position{line: 2912, col: 20, offset: 92780},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2897, col: 29, offset: 91723},
+																		pos:        position{line: 2912, col: 29, offset: 92789},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35911,20 +35911,20 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2907, col: 8, offset: 91883},
+															pos: position{line: 2922, col: 8, offset: 92949},
 															expr: &anyMatcher{
-																line: 2907, col: 9, offset: 91884,
+																line: 2922, col: 9, offset: 92950,
 															},
 														},
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2729, col: 22, offset: 87063},
+													pos: position{line: 2744, col: 22, offset: 88129},
 													expr: &actionExpr{
-														pos: position{line: 2888, col: 10, offset: 91535},
+														pos: position{line: 2903, col: 10, offset: 92601},
 														run: (*parser).callonListContinuationElement1319,
 														expr: &charClassMatcher{
-															pos:        position{line: 2888, col: 10, offset: 91535},
+															pos:        position{line: 2903, col: 10, offset: 92601},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35933,28 +35933,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2910, col: 8, offset: 91933},
+													pos: position{line: 2925, col: 8, offset: 92999},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2897, col: 12, offset: 91706},
+															pos: position{line: 2912, col: 12, offset: 92772},
 															run: (*parser).callonListContinuationElement1322,
 															expr: &choiceExpr{
-																pos: position{line: 2897, col: 13, offset: 91707},
+																pos: position{line: 2912, col: 13, offset: 92773},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2897, col: 13, offset: 91707},
+																		pos:        position{line: 2912, col: 13, offset: 92773},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2897, col: 20, offset: 91714},
+																		pos:        position{line: 2912, col: 20, offset: 92780},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2897, col: 29, offset: 91723},
+																		pos:        position{line: 2912, col: 29, offset: 92789},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35963,9 +35963,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2907, col: 8, offset: 91883},
+															pos: position{line: 2922, col: 8, offset: 92949},
 															expr: &anyMatcher{
-																line: 2907, col: 9, offset: 91884,
+																line: 2922, col: 9, offset: 92950,
 															},
 														},
 													},
@@ -35982,24 +35982,24 @@ var g = &grammar{
 										name: "UserMacroBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2617, col: 5, offset: 83852},
+										pos: position{line: 2632, col: 5, offset: 84918},
 										run: (*parser).callonListContinuationElement1331,
 										expr: &seqExpr{
-											pos: position{line: 2617, col: 5, offset: 83852},
+											pos: position{line: 2632, col: 5, offset: 84918},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2623, col: 19, offset: 84009},
+													pos:        position{line: 2638, col: 19, offset: 85075},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2623, col: 26, offset: 84016},
+													pos: position{line: 2638, col: 26, offset: 85082},
 													expr: &actionExpr{
-														pos: position{line: 2888, col: 10, offset: 91535},
+														pos: position{line: 2903, col: 10, offset: 92601},
 														run: (*parser).callonListContinuationElement1335,
 														expr: &charClassMatcher{
-															pos:        position{line: 2888, col: 10, offset: 91535},
+															pos:        position{line: 2903, col: 10, offset: 92601},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -36008,28 +36008,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2910, col: 8, offset: 91933},
+													pos: position{line: 2925, col: 8, offset: 92999},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2897, col: 12, offset: 91706},
+															pos: position{line: 2912, col: 12, offset: 92772},
 															run: (*parser).callonListContinuationElement1338,
 															expr: &choiceExpr{
-																pos: position{line: 2897, col: 13, offset: 91707},
+																pos: position{line: 2912, col: 13, offset: 92773},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2897, col: 13, offset: 91707},
+																		pos:        position{line: 2912, col: 13, offset: 92773},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2897, col: 20, offset: 91714},
+																		pos:        position{line: 2912, col: 20, offset: 92780},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2897, col: 29, offset: 91723},
+																		pos:        position{line: 2912, col: 29, offset: 92789},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36038,20 +36038,20 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2907, col: 8, offset: 91883},
+															pos: position{line: 2922, col: 8, offset: 92949},
 															expr: &anyMatcher{
-																line: 2907, col: 9, offset: 91884,
+																line: 2922, col: 9, offset: 92950,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2618, col: 5, offset: 83876},
+													pos:   position{line: 2633, col: 5, offset: 84942},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2618, col: 11, offset: 83882},
+														pos: position{line: 2633, col: 11, offset: 84948},
 														expr: &choiceExpr{
-															pos: position{line: 2618, col: 12, offset: 83883},
+															pos: position{line: 2633, col: 12, offset: 84949},
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 677, col: 14, offset: 21525},
@@ -36060,18 +36060,18 @@ var g = &grammar{
 																		pos: position{line: 677, col: 14, offset: 21525},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2905, col: 11, offset: 91869},
+																				pos: position{line: 2920, col: 11, offset: 92935},
 																				expr: &anyMatcher{
-																					line: 2905, col: 13, offset: 91871,
+																					line: 2920, col: 13, offset: 92937,
 																				},
 																			},
 																			&zeroOrMoreExpr{
 																				pos: position{line: 677, col: 21, offset: 21532},
 																				expr: &actionExpr{
-																					pos: position{line: 2888, col: 10, offset: 91535},
+																					pos: position{line: 2903, col: 10, offset: 92601},
 																					run: (*parser).callonListContinuationElement1353,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2888, col: 10, offset: 91535},
+																						pos:        position{line: 2903, col: 10, offset: 92601},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -36080,28 +36080,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2910, col: 8, offset: 91933},
+																				pos: position{line: 2925, col: 8, offset: 92999},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2897, col: 12, offset: 91706},
+																						pos: position{line: 2912, col: 12, offset: 92772},
 																						run: (*parser).callonListContinuationElement1356,
 																						expr: &choiceExpr{
-																							pos: position{line: 2897, col: 13, offset: 91707},
+																							pos: position{line: 2912, col: 13, offset: 92773},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2897, col: 13, offset: 91707},
+																									pos:        position{line: 2912, col: 13, offset: 92773},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2897, col: 20, offset: 91714},
+																									pos:        position{line: 2912, col: 20, offset: 92780},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2897, col: 29, offset: 91723},
+																									pos:        position{line: 2912, col: 29, offset: 92789},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -36110,9 +36110,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2907, col: 8, offset: 91883},
+																						pos: position{line: 2922, col: 8, offset: 92949},
 																						expr: &anyMatcher{
-																							line: 2907, col: 9, offset: 91884,
+																							line: 2922, col: 9, offset: 92950,
 																						},
 																					},
 																				},
@@ -36121,32 +36121,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2630, col: 5, offset: 84128},
+																	pos: position{line: 2645, col: 5, offset: 85194},
 																	run: (*parser).callonListContinuationElement1363,
 																	expr: &seqExpr{
-																		pos: position{line: 2630, col: 5, offset: 84128},
+																		pos: position{line: 2645, col: 5, offset: 85194},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2630, col: 5, offset: 84128},
+																				pos: position{line: 2645, col: 5, offset: 85194},
 																				expr: &choiceExpr{
-																					pos: position{line: 2627, col: 22, offset: 84089},
+																					pos: position{line: 2642, col: 22, offset: 85155},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2623, col: 19, offset: 84009},
+																							pos: position{line: 2638, col: 19, offset: 85075},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2623, col: 19, offset: 84009},
+																									pos:        position{line: 2638, col: 19, offset: 85075},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2623, col: 26, offset: 84016},
+																									pos: position{line: 2638, col: 26, offset: 85082},
 																									expr: &actionExpr{
-																										pos: position{line: 2888, col: 10, offset: 91535},
+																										pos: position{line: 2903, col: 10, offset: 92601},
 																										run: (*parser).callonListContinuationElement1370,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2888, col: 10, offset: 91535},
+																											pos:        position{line: 2903, col: 10, offset: 92601},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -36155,28 +36155,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2910, col: 8, offset: 91933},
+																									pos: position{line: 2925, col: 8, offset: 92999},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2897, col: 12, offset: 91706},
+																											pos: position{line: 2912, col: 12, offset: 92772},
 																											run: (*parser).callonListContinuationElement1373,
 																											expr: &choiceExpr{
-																												pos: position{line: 2897, col: 13, offset: 91707},
+																												pos: position{line: 2912, col: 13, offset: 92773},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2897, col: 13, offset: 91707},
+																														pos:        position{line: 2912, col: 13, offset: 92773},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2897, col: 20, offset: 91714},
+																														pos:        position{line: 2912, col: 20, offset: 92780},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2897, col: 29, offset: 91723},
+																														pos:        position{line: 2912, col: 29, offset: 92789},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -36185,9 +36185,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2907, col: 8, offset: 91883},
+																											pos: position{line: 2922, col: 8, offset: 92949},
 																											expr: &anyMatcher{
-																												line: 2907, col: 9, offset: 91884,
+																												line: 2922, col: 9, offset: 92950,
 																											},
 																										},
 																									},
@@ -36195,59 +36195,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2907, col: 8, offset: 91883},
+																							pos: position{line: 2922, col: 8, offset: 92949},
 																							expr: &anyMatcher{
-																								line: 2907, col: 9, offset: 91884,
+																								line: 2922, col: 9, offset: 92950,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2631, col: 5, offset: 84151},
+																				pos:   position{line: 2646, col: 5, offset: 85217},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2632, col: 9, offset: 84169},
+																					pos: position{line: 2647, col: 9, offset: 85235},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2632, col: 10, offset: 84170},
+																							pos: position{line: 2647, col: 10, offset: 85236},
 																							run: (*parser).callonListContinuationElement1384,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2632, col: 10, offset: 84170},
+																								pos:   position{line: 2647, col: 10, offset: 85236},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2632, col: 17, offset: 84177},
+																									pos: position{line: 2647, col: 17, offset: 85243},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2640, col: 21, offset: 84373},
+																											pos: position{line: 2655, col: 21, offset: 85439},
 																											run: (*parser).callonListContinuationElement1387,
 																											expr: &seqExpr{
-																												pos: position{line: 2640, col: 21, offset: 84373},
+																												pos: position{line: 2655, col: 21, offset: 85439},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2640, col: 21, offset: 84373},
+																														pos:   position{line: 2655, col: 21, offset: 85439},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2640, col: 27, offset: 84379},
+																															pos: position{line: 2655, col: 27, offset: 85445},
 																															expr: &actionExpr{
-																																pos: position{line: 2645, col: 5, offset: 84454},
+																																pos: position{line: 2660, col: 5, offset: 85520},
 																																run: (*parser).callonListContinuationElement1391,
 																																expr: &seqExpr{
-																																	pos: position{line: 2645, col: 5, offset: 84454},
+																																	pos: position{line: 2660, col: 5, offset: 85520},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2645, col: 5, offset: 84454},
+																																			pos:        position{line: 2660, col: 5, offset: 85520},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2645, col: 9, offset: 84458},
+																																			pos: position{line: 2660, col: 9, offset: 85524},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2888, col: 10, offset: 91535},
+																																				pos: position{line: 2903, col: 10, offset: 92601},
 																																				run: (*parser).callonListContinuationElement1395,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2888, col: 10, offset: 91535},
+																																					pos:        position{line: 2903, col: 10, offset: 92601},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -36256,21 +36256,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2645, col: 16, offset: 84465},
+																																			pos:   position{line: 2660, col: 16, offset: 85531},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2651, col: 5, offset: 84665},
+																																				pos: position{line: 2666, col: 5, offset: 85731},
 																																				run: (*parser).callonListContinuationElement1398,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2651, col: 5, offset: 84665},
+																																					pos:   position{line: 2666, col: 5, offset: 85731},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2651, col: 14, offset: 84674},
+																																						pos: position{line: 2666, col: 14, offset: 85740},
 																																						run: (*parser).callonListContinuationElement1400,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2651, col: 14, offset: 84674},
+																																							pos: position{line: 2666, col: 14, offset: 85740},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2651, col: 14, offset: 84674},
+																																								pos:        position{line: 2666, col: 14, offset: 85740},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -36287,28 +36287,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2910, col: 8, offset: 91933},
+																														pos: position{line: 2925, col: 8, offset: 92999},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2897, col: 12, offset: 91706},
+																																pos: position{line: 2912, col: 12, offset: 92772},
 																																run: (*parser).callonListContinuationElement1404,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2897, col: 13, offset: 91707},
+																																	pos: position{line: 2912, col: 13, offset: 92773},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2897, col: 13, offset: 91707},
+																																			pos:        position{line: 2912, col: 13, offset: 92773},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2897, col: 20, offset: 91714},
+																																			pos:        position{line: 2912, col: 20, offset: 92780},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2897, col: 29, offset: 91723},
+																																			pos:        position{line: 2912, col: 29, offset: 92789},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -36317,9 +36317,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2907, col: 8, offset: 91883},
+																																pos: position{line: 2922, col: 8, offset: 92949},
 																																expr: &anyMatcher{
-																																	line: 2907, col: 9, offset: 91884,
+																																	line: 2922, col: 9, offset: 92950,
 																																},
 																															},
 																														},
@@ -36328,40 +36328,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2657, col: 24, offset: 84810},
+																											pos: position{line: 2672, col: 24, offset: 85876},
 																											run: (*parser).callonListContinuationElement1411,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2657, col: 24, offset: 84810},
+																												pos:   position{line: 2672, col: 24, offset: 85876},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2657, col: 30, offset: 84816},
+																													pos: position{line: 2672, col: 30, offset: 85882},
 																													expr: &actionExpr{
-																														pos: position{line: 2662, col: 5, offset: 84892},
+																														pos: position{line: 2677, col: 5, offset: 85958},
 																														run: (*parser).callonListContinuationElement1414,
 																														expr: &seqExpr{
-																															pos: position{line: 2662, col: 5, offset: 84892},
+																															pos: position{line: 2677, col: 5, offset: 85958},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2662, col: 5, offset: 84892},
+																																	pos: position{line: 2677, col: 5, offset: 85958},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2627, col: 22, offset: 84089},
+																																		pos: position{line: 2642, col: 22, offset: 85155},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2623, col: 19, offset: 84009},
+																																				pos: position{line: 2638, col: 19, offset: 85075},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2623, col: 19, offset: 84009},
+																																						pos:        position{line: 2638, col: 19, offset: 85075},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2623, col: 26, offset: 84016},
+																																						pos: position{line: 2638, col: 26, offset: 85082},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2888, col: 10, offset: 91535},
+																																							pos: position{line: 2903, col: 10, offset: 92601},
 																																							run: (*parser).callonListContinuationElement1421,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2888, col: 10, offset: 91535},
+																																								pos:        position{line: 2903, col: 10, offset: 92601},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -36370,28 +36370,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2910, col: 8, offset: 91933},
+																																						pos: position{line: 2925, col: 8, offset: 92999},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2897, col: 12, offset: 91706},
+																																								pos: position{line: 2912, col: 12, offset: 92772},
 																																								run: (*parser).callonListContinuationElement1424,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2897, col: 13, offset: 91707},
+																																									pos: position{line: 2912, col: 13, offset: 92773},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2897, col: 13, offset: 91707},
+																																											pos:        position{line: 2912, col: 13, offset: 92773},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2897, col: 20, offset: 91714},
+																																											pos:        position{line: 2912, col: 20, offset: 92780},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2897, col: 29, offset: 91723},
+																																											pos:        position{line: 2912, col: 29, offset: 92789},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -36400,9 +36400,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2907, col: 8, offset: 91883},
+																																								pos: position{line: 2922, col: 8, offset: 92949},
 																																								expr: &anyMatcher{
-																																									line: 2907, col: 9, offset: 91884,
+																																									line: 2922, col: 9, offset: 92950,
 																																								},
 																																							},
 																																						},
@@ -36410,16 +36410,16 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2907, col: 8, offset: 91883},
+																																				pos: position{line: 2922, col: 8, offset: 92949},
 																																				expr: &anyMatcher{
-																																					line: 2907, col: 9, offset: 91884,
+																																					line: 2922, col: 9, offset: 92950,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2663, col: 5, offset: 84915},
+																																	pos: position{line: 2678, col: 5, offset: 85981},
 																																	expr: &actionExpr{
 																																		pos: position{line: 677, col: 14, offset: 21525},
 																																		run: (*parser).callonListContinuationElement1434,
@@ -36427,18 +36427,18 @@ var g = &grammar{
 																																			pos: position{line: 677, col: 14, offset: 21525},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2905, col: 11, offset: 91869},
+																																					pos: position{line: 2920, col: 11, offset: 92935},
 																																					expr: &anyMatcher{
-																																						line: 2905, col: 13, offset: 91871,
+																																						line: 2920, col: 13, offset: 92937,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
 																																					pos: position{line: 677, col: 21, offset: 21532},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2888, col: 10, offset: 91535},
+																																						pos: position{line: 2903, col: 10, offset: 92601},
 																																						run: (*parser).callonListContinuationElement1439,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2888, col: 10, offset: 91535},
+																																							pos:        position{line: 2903, col: 10, offset: 92601},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -36447,28 +36447,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2910, col: 8, offset: 91933},
+																																					pos: position{line: 2925, col: 8, offset: 92999},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2897, col: 12, offset: 91706},
+																																							pos: position{line: 2912, col: 12, offset: 92772},
 																																							run: (*parser).callonListContinuationElement1442,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2897, col: 13, offset: 91707},
+																																								pos: position{line: 2912, col: 13, offset: 92773},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2897, col: 13, offset: 91707},
+																																										pos:        position{line: 2912, col: 13, offset: 92773},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2897, col: 20, offset: 91714},
+																																										pos:        position{line: 2912, col: 20, offset: 92780},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2897, col: 29, offset: 91723},
+																																										pos:        position{line: 2912, col: 29, offset: 92789},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -36477,9 +36477,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2907, col: 8, offset: 91883},
+																																							pos: position{line: 2922, col: 8, offset: 92949},
 																																							expr: &anyMatcher{
-																																								line: 2907, col: 9, offset: 91884,
+																																								line: 2922, col: 9, offset: 92950,
 																																							},
 																																						},
 																																					},
@@ -36489,17 +36489,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2664, col: 5, offset: 84930},
+																																	pos:   position{line: 2679, col: 5, offset: 85996},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2664, col: 12, offset: 84937},
+																																		pos: position{line: 2679, col: 12, offset: 86003},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2681, col: 20, offset: 85401},
+																																			pos: position{line: 2696, col: 20, offset: 86467},
 																																			run: (*parser).callonListContinuationElement1451,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2681, col: 20, offset: 85401},
+																																				pos: position{line: 2696, col: 20, offset: 86467},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2681, col: 20, offset: 85401},
+																																					pos:        position{line: 2696, col: 20, offset: 86467},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -36510,18 +36510,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2664, col: 31, offset: 84956},
+																																	pos:        position{line: 2679, col: 31, offset: 86022},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2664, col: 35, offset: 84960},
+																																	pos: position{line: 2679, col: 35, offset: 86026},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2888, col: 10, offset: 91535},
+																																		pos: position{line: 2903, col: 10, offset: 92601},
 																																		run: (*parser).callonListContinuationElement1456,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2888, col: 10, offset: 91535},
+																																			pos:        position{line: 2903, col: 10, offset: 92601},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -36530,27 +36530,27 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2664, col: 42, offset: 84967},
+																																	pos: position{line: 2679, col: 42, offset: 86033},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2897, col: 12, offset: 91706},
+																																		pos: position{line: 2912, col: 12, offset: 92772},
 																																		run: (*parser).callonListContinuationElement1459,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2897, col: 13, offset: 91707},
+																																			pos: position{line: 2912, col: 13, offset: 92773},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2897, col: 13, offset: 91707},
+																																					pos:        position{line: 2912, col: 13, offset: 92773},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2897, col: 20, offset: 91714},
+																																					pos:        position{line: 2912, col: 20, offset: 92780},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2897, col: 29, offset: 91723},
+																																					pos:        position{line: 2912, col: 29, offset: 92789},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -36560,37 +36560,37 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2664, col: 51, offset: 84976},
+																																	pos:   position{line: 2679, col: 51, offset: 86042},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2670, col: 5, offset: 85135},
+																																		pos: position{line: 2685, col: 5, offset: 86201},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2671, col: 9, offset: 85145},
+																																			pos: position{line: 2686, col: 9, offset: 86211},
 																																			run: (*parser).callonListContinuationElement1466,
 																																			expr: &seqExpr{
-																																				pos: position{line: 2671, col: 9, offset: 85145},
+																																				pos: position{line: 2686, col: 9, offset: 86211},
 																																				exprs: []interface{}{
 																																					&notExpr{
-																																						pos: position{line: 2671, col: 9, offset: 85145},
+																																						pos: position{line: 2686, col: 9, offset: 86211},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2627, col: 22, offset: 84089},
+																																							pos: position{line: 2642, col: 22, offset: 85155},
 																																							alternatives: []interface{}{
 																																								&seqExpr{
-																																									pos: position{line: 2623, col: 19, offset: 84009},
+																																									pos: position{line: 2638, col: 19, offset: 85075},
 																																									exprs: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2623, col: 19, offset: 84009},
+																																											pos:        position{line: 2638, col: 19, offset: 85075},
 																																											val:        "|===",
 																																											ignoreCase: false,
 																																											want:       "\"|===\"",
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 2623, col: 26, offset: 84016},
+																																											pos: position{line: 2638, col: 26, offset: 85082},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2888, col: 10, offset: 91535},
+																																												pos: position{line: 2903, col: 10, offset: 92601},
 																																												run: (*parser).callonListContinuationElement1473,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2888, col: 10, offset: 91535},
+																																													pos:        position{line: 2903, col: 10, offset: 92601},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -36599,28 +36599,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2910, col: 8, offset: 91933},
+																																											pos: position{line: 2925, col: 8, offset: 92999},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2897, col: 12, offset: 91706},
+																																													pos: position{line: 2912, col: 12, offset: 92772},
 																																													run: (*parser).callonListContinuationElement1476,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2897, col: 13, offset: 91707},
+																																														pos: position{line: 2912, col: 13, offset: 92773},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2897, col: 13, offset: 91707},
+																																																pos:        position{line: 2912, col: 13, offset: 92773},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2897, col: 20, offset: 91714},
+																																																pos:        position{line: 2912, col: 20, offset: 92780},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2897, col: 29, offset: 91723},
+																																																pos:        position{line: 2912, col: 29, offset: 92789},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -36629,9 +36629,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2907, col: 8, offset: 91883},
+																																													pos: position{line: 2922, col: 8, offset: 92949},
 																																													expr: &anyMatcher{
-																																														line: 2907, col: 9, offset: 91884,
+																																														line: 2922, col: 9, offset: 92950,
 																																													},
 																																												},
 																																											},
@@ -36639,16 +36639,16 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2907, col: 8, offset: 91883},
+																																									pos: position{line: 2922, col: 8, offset: 92949},
 																																									expr: &anyMatcher{
-																																										line: 2907, col: 9, offset: 91884,
+																																										line: 2922, col: 9, offset: 92950,
 																																									},
 																																								},
 																																							},
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2672, col: 9, offset: 85172},
+																																						pos: position{line: 2687, col: 9, offset: 86238},
 																																						expr: &actionExpr{
 																																							pos: position{line: 677, col: 14, offset: 21525},
 																																							run: (*parser).callonListContinuationElement1486,
@@ -36656,18 +36656,18 @@ var g = &grammar{
 																																								pos: position{line: 677, col: 14, offset: 21525},
 																																								exprs: []interface{}{
 																																									&andExpr{
-																																										pos: position{line: 2905, col: 11, offset: 91869},
+																																										pos: position{line: 2920, col: 11, offset: 92935},
 																																										expr: &anyMatcher{
-																																											line: 2905, col: 13, offset: 91871,
+																																											line: 2920, col: 13, offset: 92937,
 																																										},
 																																									},
 																																									&zeroOrMoreExpr{
 																																										pos: position{line: 677, col: 21, offset: 21532},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2888, col: 10, offset: 91535},
+																																											pos: position{line: 2903, col: 10, offset: 92601},
 																																											run: (*parser).callonListContinuationElement1491,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2888, col: 10, offset: 91535},
+																																												pos:        position{line: 2903, col: 10, offset: 92601},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -36676,28 +36676,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2910, col: 8, offset: 91933},
+																																										pos: position{line: 2925, col: 8, offset: 92999},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2897, col: 12, offset: 91706},
+																																												pos: position{line: 2912, col: 12, offset: 92772},
 																																												run: (*parser).callonListContinuationElement1494,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2897, col: 13, offset: 91707},
+																																													pos: position{line: 2912, col: 13, offset: 92773},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2897, col: 13, offset: 91707},
+																																															pos:        position{line: 2912, col: 13, offset: 92773},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2897, col: 20, offset: 91714},
+																																															pos:        position{line: 2912, col: 20, offset: 92780},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2897, col: 29, offset: 91723},
+																																															pos:        position{line: 2912, col: 29, offset: 92789},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -36706,9 +36706,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2907, col: 8, offset: 91883},
+																																												pos: position{line: 2922, col: 8, offset: 92949},
 																																												expr: &anyMatcher{
-																																													line: 2907, col: 9, offset: 91884,
+																																													line: 2922, col: 9, offset: 92950,
 																																												},
 																																											},
 																																										},
@@ -36718,22 +36718,22 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2673, col: 9, offset: 85191},
+																																						pos: position{line: 2688, col: 9, offset: 86257},
 																																						expr: &seqExpr{
-																																							pos: position{line: 2673, col: 11, offset: 85193},
+																																							pos: position{line: 2688, col: 11, offset: 86259},
 																																							exprs: []interface{}{
 																																								&labeledExpr{
-																																									pos:   position{line: 2673, col: 11, offset: 85193},
+																																									pos:   position{line: 2688, col: 11, offset: 86259},
 																																									label: "format",
 																																									expr: &zeroOrOneExpr{
-																																										pos: position{line: 2673, col: 18, offset: 85200},
+																																										pos: position{line: 2688, col: 18, offset: 86266},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2681, col: 20, offset: 85401},
+																																											pos: position{line: 2696, col: 20, offset: 86467},
 																																											run: (*parser).callonListContinuationElement1505,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2681, col: 20, offset: 85401},
+																																												pos: position{line: 2696, col: 20, offset: 86467},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2681, col: 20, offset: 85401},
+																																													pos:        position{line: 2696, col: 20, offset: 86467},
 																																													val:        "[^ |\\r\\n]",
 																																													chars:      []rune{' ', '|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -36744,7 +36744,7 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&litMatcher{
-																																									pos:        position{line: 2673, col: 37, offset: 85219},
+																																									pos:        position{line: 2688, col: 37, offset: 86285},
 																																									val:        "|",
 																																									ignoreCase: false,
 																																									want:       "\"|\"",
@@ -36753,15 +36753,15 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2674, col: 9, offset: 85232},
+																																						pos:   position{line: 2689, col: 9, offset: 86298},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2674, col: 18, offset: 85241},
+																																							pos: position{line: 2689, col: 18, offset: 86307},
 																																							run: (*parser).callonListContinuationElement1510,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2674, col: 18, offset: 85241},
+																																								pos: position{line: 2689, col: 18, offset: 86307},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2674, col: 18, offset: 85241},
+																																									pos:        position{line: 2689, col: 18, offset: 86307},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -36771,30 +36771,30 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&zeroOrOneExpr{
-																																						pos: position{line: 2676, col: 12, offset: 85303},
+																																						pos: position{line: 2691, col: 12, offset: 86369},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2910, col: 8, offset: 91933},
+																																							pos: position{line: 2925, col: 8, offset: 92999},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2897, col: 12, offset: 91706},
+																																									pos: position{line: 2912, col: 12, offset: 92772},
 																																									run: (*parser).callonListContinuationElement1515,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2897, col: 13, offset: 91707},
+																																										pos: position{line: 2912, col: 13, offset: 92773},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2897, col: 13, offset: 91707},
+																																												pos:        position{line: 2912, col: 13, offset: 92773},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2897, col: 20, offset: 91714},
+																																												pos:        position{line: 2912, col: 20, offset: 92780},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2897, col: 29, offset: 91723},
+																																												pos:        position{line: 2912, col: 29, offset: 92789},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -36803,9 +36803,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2907, col: 8, offset: 91883},
+																																									pos: position{line: 2922, col: 8, offset: 92949},
 																																									expr: &anyMatcher{
-																																										line: 2907, col: 9, offset: 91884,
+																																										line: 2922, col: 9, offset: 92950,
 																																									},
 																																								},
 																																							},
@@ -36833,18 +36833,18 @@ var g = &grammar{
 																								pos: position{line: 677, col: 14, offset: 21525},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2905, col: 11, offset: 91869},
+																										pos: position{line: 2920, col: 11, offset: 92935},
 																										expr: &anyMatcher{
-																											line: 2905, col: 13, offset: 91871,
+																											line: 2920, col: 13, offset: 92937,
 																										},
 																									},
 																									&zeroOrMoreExpr{
 																										pos: position{line: 677, col: 21, offset: 21532},
 																										expr: &actionExpr{
-																											pos: position{line: 2888, col: 10, offset: 91535},
+																											pos: position{line: 2903, col: 10, offset: 92601},
 																											run: (*parser).callonListContinuationElement1527,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2888, col: 10, offset: 91535},
+																												pos:        position{line: 2903, col: 10, offset: 92601},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -36853,28 +36853,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2910, col: 8, offset: 91933},
+																										pos: position{line: 2925, col: 8, offset: 92999},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2897, col: 12, offset: 91706},
+																												pos: position{line: 2912, col: 12, offset: 92772},
 																												run: (*parser).callonListContinuationElement1530,
 																												expr: &choiceExpr{
-																													pos: position{line: 2897, col: 13, offset: 91707},
+																													pos: position{line: 2912, col: 13, offset: 92773},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2897, col: 13, offset: 91707},
+																															pos:        position{line: 2912, col: 13, offset: 92773},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2897, col: 20, offset: 91714},
+																															pos:        position{line: 2912, col: 20, offset: 92780},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2897, col: 29, offset: 91723},
+																															pos:        position{line: 2912, col: 29, offset: 92789},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -36883,9 +36883,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2907, col: 8, offset: 91883},
+																												pos: position{line: 2922, col: 8, offset: 92949},
 																												expr: &anyMatcher{
-																													line: 2907, col: 9, offset: 91884,
+																													line: 2922, col: 9, offset: 92950,
 																												},
 																											},
 																										},
@@ -36904,24 +36904,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2627, col: 22, offset: 84089},
+													pos: position{line: 2642, col: 22, offset: 85155},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2623, col: 19, offset: 84009},
+															pos: position{line: 2638, col: 19, offset: 85075},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2623, col: 19, offset: 84009},
+																	pos:        position{line: 2638, col: 19, offset: 85075},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2623, col: 26, offset: 84016},
+																	pos: position{line: 2638, col: 26, offset: 85082},
 																	expr: &actionExpr{
-																		pos: position{line: 2888, col: 10, offset: 91535},
+																		pos: position{line: 2903, col: 10, offset: 92601},
 																		run: (*parser).callonListContinuationElement1541,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2888, col: 10, offset: 91535},
+																			pos:        position{line: 2903, col: 10, offset: 92601},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -36930,28 +36930,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2910, col: 8, offset: 91933},
+																	pos: position{line: 2925, col: 8, offset: 92999},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2897, col: 12, offset: 91706},
+																			pos: position{line: 2912, col: 12, offset: 92772},
 																			run: (*parser).callonListContinuationElement1544,
 																			expr: &choiceExpr{
-																				pos: position{line: 2897, col: 13, offset: 91707},
+																				pos: position{line: 2912, col: 13, offset: 92773},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 13, offset: 91707},
+																						pos:        position{line: 2912, col: 13, offset: 92773},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 20, offset: 91714},
+																						pos:        position{line: 2912, col: 20, offset: 92780},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 29, offset: 91723},
+																						pos:        position{line: 2912, col: 29, offset: 92789},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36960,9 +36960,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2907, col: 8, offset: 91883},
+																			pos: position{line: 2922, col: 8, offset: 92949},
 																			expr: &anyMatcher{
-																				line: 2907, col: 9, offset: 91884,
+																				line: 2922, col: 9, offset: 92950,
 																			},
 																		},
 																	},
@@ -36970,9 +36970,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2907, col: 8, offset: 91883},
+															pos: position{line: 2922, col: 8, offset: 92949},
 															expr: &anyMatcher{
-																line: 2907, col: 9, offset: 91884,
+																line: 2922, col: 9, offset: 92950,
 															},
 														},
 													},
@@ -36981,36 +36981,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2488, col: 22, offset: 80228},
+										pos: position{line: 2503, col: 22, offset: 81294},
 										run: (*parser).callonListContinuationElement1553,
 										expr: &seqExpr{
-											pos: position{line: 2488, col: 22, offset: 80228},
+											pos: position{line: 2503, col: 22, offset: 81294},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2493, col: 31, offset: 80449},
+													pos:        position{line: 2508, col: 31, offset: 81515},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2493, col: 36, offset: 80454},
+													pos: position{line: 2508, col: 36, offset: 81520},
 													expr: &litMatcher{
-														pos:        position{line: 2493, col: 37, offset: 80455},
+														pos:        position{line: 2508, col: 37, offset: 81521},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2488, col: 49, offset: 80255},
+													pos:   position{line: 2503, col: 49, offset: 81321},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2834, col: 13, offset: 90061},
+														pos: position{line: 2849, col: 13, offset: 91127},
 														run: (*parser).callonListContinuationElement1559,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2834, col: 13, offset: 90061},
+															pos: position{line: 2849, col: 13, offset: 91127},
 															expr: &charClassMatcher{
-																pos:        position{line: 2834, col: 13, offset: 90061},
+																pos:        position{line: 2849, col: 13, offset: 91127},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -37020,28 +37020,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2910, col: 8, offset: 91933},
+													pos: position{line: 2925, col: 8, offset: 92999},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2897, col: 12, offset: 91706},
+															pos: position{line: 2912, col: 12, offset: 92772},
 															run: (*parser).callonListContinuationElement1563,
 															expr: &choiceExpr{
-																pos: position{line: 2897, col: 13, offset: 91707},
+																pos: position{line: 2912, col: 13, offset: 92773},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2897, col: 13, offset: 91707},
+																		pos:        position{line: 2912, col: 13, offset: 92773},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2897, col: 20, offset: 91714},
+																		pos:        position{line: 2912, col: 20, offset: 92780},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2897, col: 29, offset: 91723},
+																		pos:        position{line: 2912, col: 29, offset: 92789},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -37050,9 +37050,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2907, col: 8, offset: 91883},
+															pos: position{line: 2922, col: 8, offset: 92949},
 															expr: &anyMatcher{
-																line: 2907, col: 9, offset: 91884,
+																line: 2922, col: 9, offset: 92950,
 															},
 														},
 													},
@@ -37143,12 +37143,12 @@ var g = &grammar{
 																					expr: &andExpr{
 																						pos: position{line: 1752, col: 13, offset: 56793},
 																						expr: &actionExpr{
-																							pos: position{line: 2892, col: 11, offset: 91596},
+																							pos: position{line: 2907, col: 11, offset: 92662},
 																							run: (*parser).callonListContinuationElement1591,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2892, col: 11, offset: 91596},
+																								pos: position{line: 2907, col: 11, offset: 92662},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2892, col: 11, offset: 91596},
+																									pos:        position{line: 2907, col: 11, offset: 92662},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -37169,10 +37169,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1754, col: 14, offset: 56865},
 																					expr: &actionExpr{
-																						pos: position{line: 2888, col: 10, offset: 91535},
+																						pos: position{line: 2903, col: 10, offset: 92601},
 																						run: (*parser).callonListContinuationElement1597,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2888, col: 10, offset: 91535},
+																							pos:        position{line: 2903, col: 10, offset: 92601},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37181,28 +37181,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2910, col: 8, offset: 91933},
+																					pos: position{line: 2925, col: 8, offset: 92999},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2897, col: 12, offset: 91706},
+																							pos: position{line: 2912, col: 12, offset: 92772},
 																							run: (*parser).callonListContinuationElement1600,
 																							expr: &choiceExpr{
-																								pos: position{line: 2897, col: 13, offset: 91707},
+																								pos: position{line: 2912, col: 13, offset: 92773},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2897, col: 13, offset: 91707},
+																										pos:        position{line: 2912, col: 13, offset: 92773},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2897, col: 20, offset: 91714},
+																										pos:        position{line: 2912, col: 20, offset: 92780},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2897, col: 29, offset: 91723},
+																										pos:        position{line: 2912, col: 29, offset: 92789},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -37211,9 +37211,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2907, col: 8, offset: 91883},
+																							pos: position{line: 2922, col: 8, offset: 92949},
 																							expr: &anyMatcher{
-																								line: 2907, col: 9, offset: 91884,
+																								line: 2922, col: 9, offset: 92950,
 																							},
 																						},
 																					},
@@ -37244,18 +37244,18 @@ var g = &grammar{
 																			pos: position{line: 677, col: 14, offset: 21525},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2905, col: 11, offset: 91869},
+																					pos: position{line: 2920, col: 11, offset: 92935},
 																					expr: &anyMatcher{
-																						line: 2905, col: 13, offset: 91871,
+																						line: 2920, col: 13, offset: 92937,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21532},
 																					expr: &actionExpr{
-																						pos: position{line: 2888, col: 10, offset: 91535},
+																						pos: position{line: 2903, col: 10, offset: 92601},
 																						run: (*parser).callonListContinuationElement1616,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2888, col: 10, offset: 91535},
+																							pos:        position{line: 2903, col: 10, offset: 92601},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37264,28 +37264,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2910, col: 8, offset: 91933},
+																					pos: position{line: 2925, col: 8, offset: 92999},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2897, col: 12, offset: 91706},
+																							pos: position{line: 2912, col: 12, offset: 92772},
 																							run: (*parser).callonListContinuationElement1619,
 																							expr: &choiceExpr{
-																								pos: position{line: 2897, col: 13, offset: 91707},
+																								pos: position{line: 2912, col: 13, offset: 92773},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2897, col: 13, offset: 91707},
+																										pos:        position{line: 2912, col: 13, offset: 92773},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2897, col: 20, offset: 91714},
+																										pos:        position{line: 2912, col: 20, offset: 92780},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2897, col: 29, offset: 91723},
+																										pos:        position{line: 2912, col: 29, offset: 92789},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -37294,9 +37294,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2907, col: 8, offset: 91883},
+																							pos: position{line: 2922, col: 8, offset: 92949},
 																							expr: &anyMatcher{
-																								line: 2907, col: 9, offset: 91884,
+																								line: 2922, col: 9, offset: 92950,
 																							},
 																						},
 																					},
@@ -37319,10 +37319,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 1548, col: 31, offset: 50257},
 																				expr: &actionExpr{
-																					pos: position{line: 2888, col: 10, offset: 91535},
+																					pos: position{line: 2903, col: 10, offset: 92601},
 																					run: (*parser).callonListContinuationElement1630,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2888, col: 10, offset: 91535},
+																						pos:        position{line: 2903, col: 10, offset: 92601},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -37331,25 +37331,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2897, col: 12, offset: 91706},
+																				pos: position{line: 2912, col: 12, offset: 92772},
 																				run: (*parser).callonListContinuationElement1632,
 																				expr: &choiceExpr{
-																					pos: position{line: 2897, col: 13, offset: 91707},
+																					pos: position{line: 2912, col: 13, offset: 92773},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 13, offset: 91707},
+																							pos:        position{line: 2912, col: 13, offset: 92773},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 20, offset: 91714},
+																							pos:        position{line: 2912, col: 20, offset: 92780},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 29, offset: 91723},
+																							pos:        position{line: 2912, col: 29, offset: 92789},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -37371,10 +37371,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1590, col: 5, offset: 51497},
 																					expr: &actionExpr{
-																						pos: position{line: 2888, col: 10, offset: 91535},
+																						pos: position{line: 2903, col: 10, offset: 92601},
 																						run: (*parser).callonListContinuationElement1641,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2888, col: 10, offset: 91535},
+																							pos:        position{line: 2903, col: 10, offset: 92601},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37541,12 +37541,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2892, col: 11, offset: 91596},
+																					pos: position{line: 2907, col: 11, offset: 92662},
 																					run: (*parser).callonListContinuationElement1675,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2892, col: 11, offset: 91596},
+																						pos: position{line: 2907, col: 11, offset: 92662},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2892, col: 11, offset: 91596},
+																							pos:        position{line: 2907, col: 11, offset: 92662},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37569,10 +37569,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1640, col: 5, offset: 53459},
 																					expr: &actionExpr{
-																						pos: position{line: 2888, col: 10, offset: 91535},
+																						pos: position{line: 2903, col: 10, offset: 92601},
 																						run: (*parser).callonListContinuationElement1682,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2888, col: 10, offset: 91535},
+																							pos:        position{line: 2903, col: 10, offset: 92601},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37613,12 +37613,12 @@ var g = &grammar{
 																					run: (*parser).callonListContinuationElement1690,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2892, col: 11, offset: 91596},
+																					pos: position{line: 2907, col: 11, offset: 92662},
 																					run: (*parser).callonListContinuationElement1691,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2892, col: 11, offset: 91596},
+																						pos: position{line: 2907, col: 11, offset: 92662},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2892, col: 11, offset: 91596},
+																							pos:        position{line: 2907, col: 11, offset: 92662},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37669,12 +37669,12 @@ var g = &grammar{
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2892, col: 11, offset: 91596},
+																					pos: position{line: 2907, col: 11, offset: 92662},
 																					run: (*parser).callonListContinuationElement1703,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2892, col: 11, offset: 91596},
+																						pos: position{line: 2907, col: 11, offset: 92662},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2892, col: 11, offset: 91596},
+																							pos:        position{line: 2907, col: 11, offset: 92662},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37700,18 +37700,18 @@ var g = &grammar{
 																						&notExpr{
 																							pos: position{line: 1675, col: 5, offset: 54478},
 																							expr: &seqExpr{
-																								pos: position{line: 2493, col: 31, offset: 80449},
+																								pos: position{line: 2508, col: 31, offset: 81515},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2493, col: 31, offset: 80449},
+																										pos:        position{line: 2508, col: 31, offset: 81515},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2493, col: 36, offset: 80454},
+																										pos: position{line: 2508, col: 36, offset: 81520},
 																										expr: &litMatcher{
-																											pos:        position{line: 2493, col: 37, offset: 80455},
+																											pos:        position{line: 2508, col: 37, offset: 81521},
 																											val:        "//",
 																											ignoreCase: false,
 																											want:       "\"//\"",
@@ -37761,28 +37761,28 @@ var g = &grammar{
 																									&notExpr{
 																										pos: position{line: 1676, col: 35, offset: 54540},
 																										expr: &choiceExpr{
-																											pos: position{line: 2910, col: 8, offset: 91933},
+																											pos: position{line: 2925, col: 8, offset: 92999},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2897, col: 12, offset: 91706},
+																													pos: position{line: 2912, col: 12, offset: 92772},
 																													run: (*parser).callonListContinuationElement1727,
 																													expr: &choiceExpr{
-																														pos: position{line: 2897, col: 13, offset: 91707},
+																														pos: position{line: 2912, col: 13, offset: 92773},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 13, offset: 91707},
+																																pos:        position{line: 2912, col: 13, offset: 92773},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 20, offset: 91714},
+																																pos:        position{line: 2912, col: 20, offset: 92780},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 29, offset: 91723},
+																																pos:        position{line: 2912, col: 29, offset: 92789},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37791,9 +37791,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2907, col: 8, offset: 91883},
+																													pos: position{line: 2922, col: 8, offset: 92949},
 																													expr: &anyMatcher{
-																														line: 2907, col: 9, offset: 91884,
+																														line: 2922, col: 9, offset: 92950,
 																													},
 																												},
 																											},
@@ -37852,7 +37852,7 @@ var g = &grammar{
 																				&notExpr{
 																					pos: position{line: 725, col: 5, offset: 23101},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2771, col: 13, offset: 88416},
+																						pos:        position{line: 2786, col: 13, offset: 89482},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -37902,10 +37902,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 743, col: 8, offset: 23745},
 																											expr: &actionExpr{
-																												pos: position{line: 2888, col: 10, offset: 91535},
+																												pos: position{line: 2903, col: 10, offset: 92601},
 																												run: (*parser).callonListContinuationElement1758,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2888, col: 10, offset: 91535},
+																													pos:        position{line: 2903, col: 10, offset: 92601},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37914,28 +37914,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2910, col: 8, offset: 91933},
+																											pos: position{line: 2925, col: 8, offset: 92999},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2897, col: 12, offset: 91706},
+																													pos: position{line: 2912, col: 12, offset: 92772},
 																													run: (*parser).callonListContinuationElement1761,
 																													expr: &choiceExpr{
-																														pos: position{line: 2897, col: 13, offset: 91707},
+																														pos: position{line: 2912, col: 13, offset: 92773},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 13, offset: 91707},
+																																pos:        position{line: 2912, col: 13, offset: 92773},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 20, offset: 91714},
+																																pos:        position{line: 2912, col: 20, offset: 92780},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 29, offset: 91723},
+																																pos:        position{line: 2912, col: 29, offset: 92789},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37944,9 +37944,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2907, col: 8, offset: 91883},
+																													pos: position{line: 2922, col: 8, offset: 92949},
 																													expr: &anyMatcher{
-																														line: 2907, col: 9, offset: 91884,
+																														line: 2922, col: 9, offset: 92950,
 																													},
 																												},
 																											},
@@ -37991,10 +37991,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 750, col: 8, offset: 23993},
 																											expr: &actionExpr{
-																												pos: position{line: 2888, col: 10, offset: 91535},
+																												pos: position{line: 2903, col: 10, offset: 92601},
 																												run: (*parser).callonListContinuationElement1777,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2888, col: 10, offset: 91535},
+																													pos:        position{line: 2903, col: 10, offset: 92601},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38003,28 +38003,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2910, col: 8, offset: 91933},
+																											pos: position{line: 2925, col: 8, offset: 92999},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2897, col: 12, offset: 91706},
+																													pos: position{line: 2912, col: 12, offset: 92772},
 																													run: (*parser).callonListContinuationElement1780,
 																													expr: &choiceExpr{
-																														pos: position{line: 2897, col: 13, offset: 91707},
+																														pos: position{line: 2912, col: 13, offset: 92773},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 13, offset: 91707},
+																																pos:        position{line: 2912, col: 13, offset: 92773},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 20, offset: 91714},
+																																pos:        position{line: 2912, col: 20, offset: 92780},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 29, offset: 91723},
+																																pos:        position{line: 2912, col: 29, offset: 92789},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38033,9 +38033,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2907, col: 8, offset: 91883},
+																													pos: position{line: 2922, col: 8, offset: 92949},
 																													expr: &anyMatcher{
-																														line: 2907, col: 9, offset: 91884,
+																														line: 2922, col: 9, offset: 92950,
 																													},
 																												},
 																											},
@@ -38076,10 +38076,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 761, col: 52, offset: 24405},
 																											expr: &actionExpr{
-																												pos: position{line: 2888, col: 10, offset: 91535},
+																												pos: position{line: 2903, col: 10, offset: 92601},
 																												run: (*parser).callonListContinuationElement1795,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2888, col: 10, offset: 91535},
+																													pos:        position{line: 2903, col: 10, offset: 92601},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38088,28 +38088,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2910, col: 8, offset: 91933},
+																											pos: position{line: 2925, col: 8, offset: 92999},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2897, col: 12, offset: 91706},
+																													pos: position{line: 2912, col: 12, offset: 92772},
 																													run: (*parser).callonListContinuationElement1798,
 																													expr: &choiceExpr{
-																														pos: position{line: 2897, col: 13, offset: 91707},
+																														pos: position{line: 2912, col: 13, offset: 92773},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 13, offset: 91707},
+																																pos:        position{line: 2912, col: 13, offset: 92773},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 20, offset: 91714},
+																																pos:        position{line: 2912, col: 20, offset: 92780},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 29, offset: 91723},
+																																pos:        position{line: 2912, col: 29, offset: 92789},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38118,9 +38118,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2907, col: 8, offset: 91883},
+																													pos: position{line: 2922, col: 8, offset: 92949},
 																													expr: &anyMatcher{
-																														line: 2907, col: 9, offset: 91884,
+																														line: 2922, col: 9, offset: 92950,
 																													},
 																												},
 																											},
@@ -38165,10 +38165,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 757, col: 8, offset: 24239},
 																											expr: &actionExpr{
-																												pos: position{line: 2888, col: 10, offset: 91535},
+																												pos: position{line: 2903, col: 10, offset: 92601},
 																												run: (*parser).callonListContinuationElement1814,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2888, col: 10, offset: 91535},
+																													pos:        position{line: 2903, col: 10, offset: 92601},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38177,28 +38177,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2910, col: 8, offset: 91933},
+																											pos: position{line: 2925, col: 8, offset: 92999},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2897, col: 12, offset: 91706},
+																													pos: position{line: 2912, col: 12, offset: 92772},
 																													run: (*parser).callonListContinuationElement1817,
 																													expr: &choiceExpr{
-																														pos: position{line: 2897, col: 13, offset: 91707},
+																														pos: position{line: 2912, col: 13, offset: 92773},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 13, offset: 91707},
+																																pos:        position{line: 2912, col: 13, offset: 92773},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 20, offset: 91714},
+																																pos:        position{line: 2912, col: 20, offset: 92780},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 29, offset: 91723},
+																																pos:        position{line: 2912, col: 29, offset: 92789},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38207,9 +38207,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2907, col: 8, offset: 91883},
+																													pos: position{line: 2922, col: 8, offset: 92949},
 																													expr: &anyMatcher{
-																														line: 2907, col: 9, offset: 91884,
+																														line: 2922, col: 9, offset: 92950,
 																													},
 																												},
 																											},
@@ -38254,10 +38254,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 772, col: 8, offset: 24782},
 																											expr: &actionExpr{
-																												pos: position{line: 2888, col: 10, offset: 91535},
+																												pos: position{line: 2903, col: 10, offset: 92601},
 																												run: (*parser).callonListContinuationElement1833,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2888, col: 10, offset: 91535},
+																													pos:        position{line: 2903, col: 10, offset: 92601},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38266,28 +38266,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2910, col: 8, offset: 91933},
+																											pos: position{line: 2925, col: 8, offset: 92999},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2897, col: 12, offset: 91706},
+																													pos: position{line: 2912, col: 12, offset: 92772},
 																													run: (*parser).callonListContinuationElement1836,
 																													expr: &choiceExpr{
-																														pos: position{line: 2897, col: 13, offset: 91707},
+																														pos: position{line: 2912, col: 13, offset: 92773},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 13, offset: 91707},
+																																pos:        position{line: 2912, col: 13, offset: 92773},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 20, offset: 91714},
+																																pos:        position{line: 2912, col: 20, offset: 92780},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 29, offset: 91723},
+																																pos:        position{line: 2912, col: 29, offset: 92789},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38296,9 +38296,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2907, col: 8, offset: 91883},
+																													pos: position{line: 2922, col: 8, offset: 92949},
 																													expr: &anyMatcher{
-																														line: 2907, col: 9, offset: 91884,
+																														line: 2922, col: 9, offset: 92950,
 																													},
 																												},
 																											},
@@ -38343,10 +38343,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 786, col: 8, offset: 25258},
 																											expr: &actionExpr{
-																												pos: position{line: 2888, col: 10, offset: 91535},
+																												pos: position{line: 2903, col: 10, offset: 92601},
 																												run: (*parser).callonListContinuationElement1852,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2888, col: 10, offset: 91535},
+																													pos:        position{line: 2903, col: 10, offset: 92601},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38355,28 +38355,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2910, col: 8, offset: 91933},
+																											pos: position{line: 2925, col: 8, offset: 92999},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2897, col: 12, offset: 91706},
+																													pos: position{line: 2912, col: 12, offset: 92772},
 																													run: (*parser).callonListContinuationElement1855,
 																													expr: &choiceExpr{
-																														pos: position{line: 2897, col: 13, offset: 91707},
+																														pos: position{line: 2912, col: 13, offset: 92773},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 13, offset: 91707},
+																																pos:        position{line: 2912, col: 13, offset: 92773},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 20, offset: 91714},
+																																pos:        position{line: 2912, col: 20, offset: 92780},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 29, offset: 91723},
+																																pos:        position{line: 2912, col: 29, offset: 92789},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38385,9 +38385,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2907, col: 8, offset: 91883},
+																													pos: position{line: 2922, col: 8, offset: 92949},
 																													expr: &anyMatcher{
-																														line: 2907, col: 9, offset: 91884,
+																														line: 2922, col: 9, offset: 92950,
 																													},
 																												},
 																											},
@@ -38432,10 +38432,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 793, col: 8, offset: 25510},
 																											expr: &actionExpr{
-																												pos: position{line: 2888, col: 10, offset: 91535},
+																												pos: position{line: 2903, col: 10, offset: 92601},
 																												run: (*parser).callonListContinuationElement1871,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2888, col: 10, offset: 91535},
+																													pos:        position{line: 2903, col: 10, offset: 92601},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38444,28 +38444,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2910, col: 8, offset: 91933},
+																											pos: position{line: 2925, col: 8, offset: 92999},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2897, col: 12, offset: 91706},
+																													pos: position{line: 2912, col: 12, offset: 92772},
 																													run: (*parser).callonListContinuationElement1874,
 																													expr: &choiceExpr{
-																														pos: position{line: 2897, col: 13, offset: 91707},
+																														pos: position{line: 2912, col: 13, offset: 92773},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 13, offset: 91707},
+																																pos:        position{line: 2912, col: 13, offset: 92773},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 20, offset: 91714},
+																																pos:        position{line: 2912, col: 20, offset: 92780},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 29, offset: 91723},
+																																pos:        position{line: 2912, col: 29, offset: 92789},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38474,9 +38474,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2907, col: 8, offset: 91883},
+																													pos: position{line: 2922, col: 8, offset: 92949},
 																													expr: &anyMatcher{
-																														line: 2907, col: 9, offset: 91884,
+																														line: 2922, col: 9, offset: 92950,
 																													},
 																												},
 																											},
@@ -38521,10 +38521,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 800, col: 8, offset: 25760},
 																											expr: &actionExpr{
-																												pos: position{line: 2888, col: 10, offset: 91535},
+																												pos: position{line: 2903, col: 10, offset: 92601},
 																												run: (*parser).callonListContinuationElement1890,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2888, col: 10, offset: 91535},
+																													pos:        position{line: 2903, col: 10, offset: 92601},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38533,28 +38533,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2910, col: 8, offset: 91933},
+																											pos: position{line: 2925, col: 8, offset: 92999},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2897, col: 12, offset: 91706},
+																													pos: position{line: 2912, col: 12, offset: 92772},
 																													run: (*parser).callonListContinuationElement1893,
 																													expr: &choiceExpr{
-																														pos: position{line: 2897, col: 13, offset: 91707},
+																														pos: position{line: 2912, col: 13, offset: 92773},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 13, offset: 91707},
+																																pos:        position{line: 2912, col: 13, offset: 92773},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 20, offset: 91714},
+																																pos:        position{line: 2912, col: 20, offset: 92780},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 29, offset: 91723},
+																																pos:        position{line: 2912, col: 29, offset: 92789},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38563,9 +38563,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2907, col: 8, offset: 91883},
+																													pos: position{line: 2922, col: 8, offset: 92949},
 																													expr: &anyMatcher{
-																														line: 2907, col: 9, offset: 91884,
+																														line: 2922, col: 9, offset: 92950,
 																													},
 																												},
 																											},
@@ -38610,10 +38610,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 807, col: 8, offset: 26006},
 																											expr: &actionExpr{
-																												pos: position{line: 2888, col: 10, offset: 91535},
+																												pos: position{line: 2903, col: 10, offset: 92601},
 																												run: (*parser).callonListContinuationElement1909,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2888, col: 10, offset: 91535},
+																													pos:        position{line: 2903, col: 10, offset: 92601},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38622,28 +38622,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2910, col: 8, offset: 91933},
+																											pos: position{line: 2925, col: 8, offset: 92999},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2897, col: 12, offset: 91706},
+																													pos: position{line: 2912, col: 12, offset: 92772},
 																													run: (*parser).callonListContinuationElement1912,
 																													expr: &choiceExpr{
-																														pos: position{line: 2897, col: 13, offset: 91707},
+																														pos: position{line: 2912, col: 13, offset: 92773},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 13, offset: 91707},
+																																pos:        position{line: 2912, col: 13, offset: 92773},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 20, offset: 91714},
+																																pos:        position{line: 2912, col: 20, offset: 92780},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2897, col: 29, offset: 91723},
+																																pos:        position{line: 2912, col: 29, offset: 92789},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38652,9 +38652,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2907, col: 8, offset: 91883},
+																													pos: position{line: 2922, col: 8, offset: 92949},
 																													expr: &anyMatcher{
-																														line: 2907, col: 9, offset: 91884,
+																														line: 2922, col: 9, offset: 92950,
 																													},
 																												},
 																											},
@@ -38673,12 +38673,12 @@ var g = &grammar{
 																	pos:   position{line: 1524, col: 5, offset: 49625},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2838, col: 14, offset: 90128},
+																		pos: position{line: 2853, col: 14, offset: 91194},
 																		run: (*parser).callonListContinuationElement1920,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2838, col: 14, offset: 90128},
+																			pos: position{line: 2853, col: 14, offset: 91194},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2838, col: 14, offset: 90128},
+																				pos:        position{line: 2853, col: 14, offset: 91194},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -38688,28 +38688,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2910, col: 8, offset: 91933},
+																	pos: position{line: 2925, col: 8, offset: 92999},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2897, col: 12, offset: 91706},
+																			pos: position{line: 2912, col: 12, offset: 92772},
 																			run: (*parser).callonListContinuationElement1924,
 																			expr: &choiceExpr{
-																				pos: position{line: 2897, col: 13, offset: 91707},
+																				pos: position{line: 2912, col: 13, offset: 92773},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 13, offset: 91707},
+																						pos:        position{line: 2912, col: 13, offset: 92773},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 20, offset: 91714},
+																						pos:        position{line: 2912, col: 20, offset: 92780},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 29, offset: 91723},
+																						pos:        position{line: 2912, col: 29, offset: 92789},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -38718,9 +38718,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2907, col: 8, offset: 91883},
+																			pos: position{line: 2922, col: 8, offset: 92949},
 																			expr: &anyMatcher{
-																				line: 2907, col: 9, offset: 91884,
+																				line: 2922, col: 9, offset: 92950,
 																			},
 																		},
 																	},
@@ -38785,10 +38785,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1719, col: 66, offset: 55728},
 							expr: &actionExpr{
-								pos: position{line: 2888, col: 10, offset: 91535},
+								pos: position{line: 2903, col: 10, offset: 92601},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2888, col: 10, offset: 91535},
+									pos:        position{line: 2903, col: 10, offset: 92601},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -38802,25 +38802,25 @@ var g = &grammar{
 								pos: position{line: 1719, col: 75, offset: 55737},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2897, col: 12, offset: 91706},
+										pos: position{line: 2912, col: 12, offset: 92772},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2897, col: 13, offset: 91707},
+											pos: position{line: 2912, col: 13, offset: 92773},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2897, col: 13, offset: 91707},
+													pos:        position{line: 2912, col: 13, offset: 92773},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2897, col: 20, offset: 91714},
+													pos:        position{line: 2912, col: 20, offset: 92780},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2897, col: 29, offset: 91723},
+													pos:        position{line: 2912, col: 29, offset: 92789},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -38829,9 +38829,9 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2907, col: 8, offset: 91883},
+										pos: position{line: 2922, col: 8, offset: 92949},
 										expr: &anyMatcher{
-											line: 2907, col: 9, offset: 91884,
+											line: 2922, col: 9, offset: 92950,
 										},
 									},
 									&ruleRefExpr{
@@ -38860,7 +38860,7 @@ var g = &grammar{
 								pos: position{line: 1760, col: 7, offset: 56996},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2771, col: 13, offset: 88416},
+										pos:        position{line: 2786, col: 13, offset: 89482},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
@@ -38879,12 +38879,12 @@ var g = &grammar{
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2892, col: 11, offset: 91596},
+													pos: position{line: 2907, col: 11, offset: 92662},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2892, col: 11, offset: 91596},
+														pos: position{line: 2907, col: 11, offset: 92662},
 														expr: &charClassMatcher{
-															pos:        position{line: 2892, col: 11, offset: 91596},
+															pos:        position{line: 2907, col: 11, offset: 92662},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -38975,12 +38975,12 @@ var g = &grammar{
 															expr: &andExpr{
 																pos: position{line: 1752, col: 13, offset: 56793},
 																expr: &actionExpr{
-																	pos: position{line: 2892, col: 11, offset: 91596},
+																	pos: position{line: 2907, col: 11, offset: 92662},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2892, col: 11, offset: 91596},
+																		pos: position{line: 2907, col: 11, offset: 92662},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2892, col: 11, offset: 91596},
+																			pos:        position{line: 2907, col: 11, offset: 92662},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -39001,10 +39001,10 @@ var g = &grammar{
 														&zeroOrMoreExpr{
 															pos: position{line: 1754, col: 14, offset: 56865},
 															expr: &actionExpr{
-																pos: position{line: 2888, col: 10, offset: 91535},
+																pos: position{line: 2903, col: 10, offset: 92601},
 																run: (*parser).callonShortcutParagraph37,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2888, col: 10, offset: 91535},
+																	pos:        position{line: 2903, col: 10, offset: 92601},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -39013,28 +39013,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2910, col: 8, offset: 91933},
+															pos: position{line: 2925, col: 8, offset: 92999},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2897, col: 12, offset: 91706},
+																	pos: position{line: 2912, col: 12, offset: 92772},
 																	run: (*parser).callonShortcutParagraph40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2897, col: 13, offset: 91707},
+																		pos: position{line: 2912, col: 13, offset: 92773},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2897, col: 13, offset: 91707},
+																				pos:        position{line: 2912, col: 13, offset: 92773},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2897, col: 20, offset: 91714},
+																				pos:        position{line: 2912, col: 20, offset: 92780},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2897, col: 29, offset: 91723},
+																				pos:        position{line: 2912, col: 29, offset: 92789},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -39043,9 +39043,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2907, col: 8, offset: 91883},
+																	pos: position{line: 2922, col: 8, offset: 92949},
 																	expr: &anyMatcher{
-																		line: 2907, col: 9, offset: 91884,
+																		line: 2922, col: 9, offset: 92950,
 																	},
 																},
 															},
@@ -39071,12 +39071,12 @@ var g = &grammar{
 											pos:   position{line: 1798, col: 5, offset: 58283},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2838, col: 14, offset: 90128},
+												pos: position{line: 2853, col: 14, offset: 91194},
 												run: (*parser).callonShortcutParagraph51,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2838, col: 14, offset: 90128},
+													pos: position{line: 2853, col: 14, offset: 91194},
 													expr: &charClassMatcher{
-														pos:        position{line: 2838, col: 14, offset: 90128},
+														pos:        position{line: 2853, col: 14, offset: 91194},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -39090,28 +39090,28 @@ var g = &grammar{
 											run: (*parser).callonShortcutParagraph54,
 										},
 										&choiceExpr{
-											pos: position{line: 2910, col: 8, offset: 91933},
+											pos: position{line: 2925, col: 8, offset: 92999},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2897, col: 12, offset: 91706},
+													pos: position{line: 2912, col: 12, offset: 92772},
 													run: (*parser).callonShortcutParagraph56,
 													expr: &choiceExpr{
-														pos: position{line: 2897, col: 13, offset: 91707},
+														pos: position{line: 2912, col: 13, offset: 92773},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2897, col: 13, offset: 91707},
+																pos:        position{line: 2912, col: 13, offset: 92773},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2897, col: 20, offset: 91714},
+																pos:        position{line: 2912, col: 20, offset: 92780},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2897, col: 29, offset: 91723},
+																pos:        position{line: 2912, col: 29, offset: 92789},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -39120,9 +39120,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2907, col: 8, offset: 91883},
+													pos: position{line: 2922, col: 8, offset: 92949},
 													expr: &anyMatcher{
-														line: 2907, col: 9, offset: 91884,
+														line: 2922, col: 9, offset: 92950,
 													},
 												},
 											},
@@ -39147,9 +39147,9 @@ var g = &grammar{
 										pos: position{line: 1771, col: 9, offset: 57561},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2905, col: 11, offset: 91869},
+												pos: position{line: 2920, col: 11, offset: 92935},
 												expr: &anyMatcher{
-													line: 2905, col: 13, offset: 91871,
+													line: 2920, col: 13, offset: 92937,
 												},
 											},
 											&notExpr{
@@ -39161,18 +39161,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21525},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2905, col: 11, offset: 91869},
+																pos: position{line: 2920, col: 11, offset: 92935},
 																expr: &anyMatcher{
-																	line: 2905, col: 13, offset: 91871,
+																	line: 2920, col: 13, offset: 92937,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21532},
 																expr: &actionExpr{
-																	pos: position{line: 2888, col: 10, offset: 91535},
+																	pos: position{line: 2903, col: 10, offset: 92601},
 																	run: (*parser).callonShortcutParagraph76,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2888, col: 10, offset: 91535},
+																		pos:        position{line: 2903, col: 10, offset: 92601},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -39181,28 +39181,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2910, col: 8, offset: 91933},
+																pos: position{line: 2925, col: 8, offset: 92999},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2897, col: 12, offset: 91706},
+																		pos: position{line: 2912, col: 12, offset: 92772},
 																		run: (*parser).callonShortcutParagraph79,
 																		expr: &choiceExpr{
-																			pos: position{line: 2897, col: 13, offset: 91707},
+																			pos: position{line: 2912, col: 13, offset: 92773},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2897, col: 13, offset: 91707},
+																					pos:        position{line: 2912, col: 13, offset: 92773},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2897, col: 20, offset: 91714},
+																					pos:        position{line: 2912, col: 20, offset: 92780},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2897, col: 29, offset: 91723},
+																					pos:        position{line: 2912, col: 29, offset: 92789},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -39211,9 +39211,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2907, col: 8, offset: 91883},
+																		pos: position{line: 2922, col: 8, offset: 92949},
 																		expr: &anyMatcher{
-																			line: 2907, col: 9, offset: 91884,
+																			line: 2922, col: 9, offset: 92950,
 																		},
 																	},
 																},
@@ -39240,7 +39240,7 @@ var g = &grammar{
 															&notExpr{
 																pos: position{line: 725, col: 5, offset: 23101},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2771, col: 13, offset: 88416},
+																	pos:        position{line: 2786, col: 13, offset: 89482},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -39290,10 +39290,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 743, col: 8, offset: 23745},
 																						expr: &actionExpr{
-																							pos: position{line: 2888, col: 10, offset: 91535},
+																							pos: position{line: 2903, col: 10, offset: 92601},
 																							run: (*parser).callonShortcutParagraph104,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2888, col: 10, offset: 91535},
+																								pos:        position{line: 2903, col: 10, offset: 92601},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39302,28 +39302,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2910, col: 8, offset: 91933},
+																						pos: position{line: 2925, col: 8, offset: 92999},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2897, col: 12, offset: 91706},
+																								pos: position{line: 2912, col: 12, offset: 92772},
 																								run: (*parser).callonShortcutParagraph107,
 																								expr: &choiceExpr{
-																									pos: position{line: 2897, col: 13, offset: 91707},
+																									pos: position{line: 2912, col: 13, offset: 92773},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 13, offset: 91707},
+																											pos:        position{line: 2912, col: 13, offset: 92773},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 20, offset: 91714},
+																											pos:        position{line: 2912, col: 20, offset: 92780},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 29, offset: 91723},
+																											pos:        position{line: 2912, col: 29, offset: 92789},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39332,9 +39332,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2907, col: 8, offset: 91883},
+																								pos: position{line: 2922, col: 8, offset: 92949},
 																								expr: &anyMatcher{
-																									line: 2907, col: 9, offset: 91884,
+																									line: 2922, col: 9, offset: 92950,
 																								},
 																							},
 																						},
@@ -39379,10 +39379,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 750, col: 8, offset: 23993},
 																						expr: &actionExpr{
-																							pos: position{line: 2888, col: 10, offset: 91535},
+																							pos: position{line: 2903, col: 10, offset: 92601},
 																							run: (*parser).callonShortcutParagraph123,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2888, col: 10, offset: 91535},
+																								pos:        position{line: 2903, col: 10, offset: 92601},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39391,28 +39391,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2910, col: 8, offset: 91933},
+																						pos: position{line: 2925, col: 8, offset: 92999},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2897, col: 12, offset: 91706},
+																								pos: position{line: 2912, col: 12, offset: 92772},
 																								run: (*parser).callonShortcutParagraph126,
 																								expr: &choiceExpr{
-																									pos: position{line: 2897, col: 13, offset: 91707},
+																									pos: position{line: 2912, col: 13, offset: 92773},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 13, offset: 91707},
+																											pos:        position{line: 2912, col: 13, offset: 92773},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 20, offset: 91714},
+																											pos:        position{line: 2912, col: 20, offset: 92780},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 29, offset: 91723},
+																											pos:        position{line: 2912, col: 29, offset: 92789},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39421,9 +39421,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2907, col: 8, offset: 91883},
+																								pos: position{line: 2922, col: 8, offset: 92949},
 																								expr: &anyMatcher{
-																									line: 2907, col: 9, offset: 91884,
+																									line: 2922, col: 9, offset: 92950,
 																								},
 																							},
 																						},
@@ -39464,10 +39464,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 761, col: 52, offset: 24405},
 																						expr: &actionExpr{
-																							pos: position{line: 2888, col: 10, offset: 91535},
+																							pos: position{line: 2903, col: 10, offset: 92601},
 																							run: (*parser).callonShortcutParagraph141,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2888, col: 10, offset: 91535},
+																								pos:        position{line: 2903, col: 10, offset: 92601},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39476,28 +39476,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2910, col: 8, offset: 91933},
+																						pos: position{line: 2925, col: 8, offset: 92999},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2897, col: 12, offset: 91706},
+																								pos: position{line: 2912, col: 12, offset: 92772},
 																								run: (*parser).callonShortcutParagraph144,
 																								expr: &choiceExpr{
-																									pos: position{line: 2897, col: 13, offset: 91707},
+																									pos: position{line: 2912, col: 13, offset: 92773},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 13, offset: 91707},
+																											pos:        position{line: 2912, col: 13, offset: 92773},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 20, offset: 91714},
+																											pos:        position{line: 2912, col: 20, offset: 92780},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 29, offset: 91723},
+																											pos:        position{line: 2912, col: 29, offset: 92789},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39506,9 +39506,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2907, col: 8, offset: 91883},
+																								pos: position{line: 2922, col: 8, offset: 92949},
 																								expr: &anyMatcher{
-																									line: 2907, col: 9, offset: 91884,
+																									line: 2922, col: 9, offset: 92950,
 																								},
 																							},
 																						},
@@ -39553,10 +39553,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 757, col: 8, offset: 24239},
 																						expr: &actionExpr{
-																							pos: position{line: 2888, col: 10, offset: 91535},
+																							pos: position{line: 2903, col: 10, offset: 92601},
 																							run: (*parser).callonShortcutParagraph160,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2888, col: 10, offset: 91535},
+																								pos:        position{line: 2903, col: 10, offset: 92601},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39565,28 +39565,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2910, col: 8, offset: 91933},
+																						pos: position{line: 2925, col: 8, offset: 92999},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2897, col: 12, offset: 91706},
+																								pos: position{line: 2912, col: 12, offset: 92772},
 																								run: (*parser).callonShortcutParagraph163,
 																								expr: &choiceExpr{
-																									pos: position{line: 2897, col: 13, offset: 91707},
+																									pos: position{line: 2912, col: 13, offset: 92773},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 13, offset: 91707},
+																											pos:        position{line: 2912, col: 13, offset: 92773},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 20, offset: 91714},
+																											pos:        position{line: 2912, col: 20, offset: 92780},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 29, offset: 91723},
+																											pos:        position{line: 2912, col: 29, offset: 92789},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39595,9 +39595,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2907, col: 8, offset: 91883},
+																								pos: position{line: 2922, col: 8, offset: 92949},
 																								expr: &anyMatcher{
-																									line: 2907, col: 9, offset: 91884,
+																									line: 2922, col: 9, offset: 92950,
 																								},
 																							},
 																						},
@@ -39642,10 +39642,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 772, col: 8, offset: 24782},
 																						expr: &actionExpr{
-																							pos: position{line: 2888, col: 10, offset: 91535},
+																							pos: position{line: 2903, col: 10, offset: 92601},
 																							run: (*parser).callonShortcutParagraph179,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2888, col: 10, offset: 91535},
+																								pos:        position{line: 2903, col: 10, offset: 92601},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39654,28 +39654,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2910, col: 8, offset: 91933},
+																						pos: position{line: 2925, col: 8, offset: 92999},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2897, col: 12, offset: 91706},
+																								pos: position{line: 2912, col: 12, offset: 92772},
 																								run: (*parser).callonShortcutParagraph182,
 																								expr: &choiceExpr{
-																									pos: position{line: 2897, col: 13, offset: 91707},
+																									pos: position{line: 2912, col: 13, offset: 92773},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 13, offset: 91707},
+																											pos:        position{line: 2912, col: 13, offset: 92773},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 20, offset: 91714},
+																											pos:        position{line: 2912, col: 20, offset: 92780},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 29, offset: 91723},
+																											pos:        position{line: 2912, col: 29, offset: 92789},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39684,9 +39684,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2907, col: 8, offset: 91883},
+																								pos: position{line: 2922, col: 8, offset: 92949},
 																								expr: &anyMatcher{
-																									line: 2907, col: 9, offset: 91884,
+																									line: 2922, col: 9, offset: 92950,
 																								},
 																							},
 																						},
@@ -39731,10 +39731,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 786, col: 8, offset: 25258},
 																						expr: &actionExpr{
-																							pos: position{line: 2888, col: 10, offset: 91535},
+																							pos: position{line: 2903, col: 10, offset: 92601},
 																							run: (*parser).callonShortcutParagraph198,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2888, col: 10, offset: 91535},
+																								pos:        position{line: 2903, col: 10, offset: 92601},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39743,28 +39743,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2910, col: 8, offset: 91933},
+																						pos: position{line: 2925, col: 8, offset: 92999},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2897, col: 12, offset: 91706},
+																								pos: position{line: 2912, col: 12, offset: 92772},
 																								run: (*parser).callonShortcutParagraph201,
 																								expr: &choiceExpr{
-																									pos: position{line: 2897, col: 13, offset: 91707},
+																									pos: position{line: 2912, col: 13, offset: 92773},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 13, offset: 91707},
+																											pos:        position{line: 2912, col: 13, offset: 92773},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 20, offset: 91714},
+																											pos:        position{line: 2912, col: 20, offset: 92780},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 29, offset: 91723},
+																											pos:        position{line: 2912, col: 29, offset: 92789},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39773,9 +39773,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2907, col: 8, offset: 91883},
+																								pos: position{line: 2922, col: 8, offset: 92949},
 																								expr: &anyMatcher{
-																									line: 2907, col: 9, offset: 91884,
+																									line: 2922, col: 9, offset: 92950,
 																								},
 																							},
 																						},
@@ -39820,10 +39820,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 793, col: 8, offset: 25510},
 																						expr: &actionExpr{
-																							pos: position{line: 2888, col: 10, offset: 91535},
+																							pos: position{line: 2903, col: 10, offset: 92601},
 																							run: (*parser).callonShortcutParagraph217,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2888, col: 10, offset: 91535},
+																								pos:        position{line: 2903, col: 10, offset: 92601},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39832,28 +39832,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2910, col: 8, offset: 91933},
+																						pos: position{line: 2925, col: 8, offset: 92999},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2897, col: 12, offset: 91706},
+																								pos: position{line: 2912, col: 12, offset: 92772},
 																								run: (*parser).callonShortcutParagraph220,
 																								expr: &choiceExpr{
-																									pos: position{line: 2897, col: 13, offset: 91707},
+																									pos: position{line: 2912, col: 13, offset: 92773},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 13, offset: 91707},
+																											pos:        position{line: 2912, col: 13, offset: 92773},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 20, offset: 91714},
+																											pos:        position{line: 2912, col: 20, offset: 92780},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 29, offset: 91723},
+																											pos:        position{line: 2912, col: 29, offset: 92789},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39862,9 +39862,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2907, col: 8, offset: 91883},
+																								pos: position{line: 2922, col: 8, offset: 92949},
 																								expr: &anyMatcher{
-																									line: 2907, col: 9, offset: 91884,
+																									line: 2922, col: 9, offset: 92950,
 																								},
 																							},
 																						},
@@ -39909,10 +39909,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 800, col: 8, offset: 25760},
 																						expr: &actionExpr{
-																							pos: position{line: 2888, col: 10, offset: 91535},
+																							pos: position{line: 2903, col: 10, offset: 92601},
 																							run: (*parser).callonShortcutParagraph236,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2888, col: 10, offset: 91535},
+																								pos:        position{line: 2903, col: 10, offset: 92601},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39921,28 +39921,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2910, col: 8, offset: 91933},
+																						pos: position{line: 2925, col: 8, offset: 92999},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2897, col: 12, offset: 91706},
+																								pos: position{line: 2912, col: 12, offset: 92772},
 																								run: (*parser).callonShortcutParagraph239,
 																								expr: &choiceExpr{
-																									pos: position{line: 2897, col: 13, offset: 91707},
+																									pos: position{line: 2912, col: 13, offset: 92773},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 13, offset: 91707},
+																											pos:        position{line: 2912, col: 13, offset: 92773},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 20, offset: 91714},
+																											pos:        position{line: 2912, col: 20, offset: 92780},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 29, offset: 91723},
+																											pos:        position{line: 2912, col: 29, offset: 92789},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39951,9 +39951,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2907, col: 8, offset: 91883},
+																								pos: position{line: 2922, col: 8, offset: 92949},
 																								expr: &anyMatcher{
-																									line: 2907, col: 9, offset: 91884,
+																									line: 2922, col: 9, offset: 92950,
 																								},
 																							},
 																						},
@@ -39998,10 +39998,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 807, col: 8, offset: 26006},
 																						expr: &actionExpr{
-																							pos: position{line: 2888, col: 10, offset: 91535},
+																							pos: position{line: 2903, col: 10, offset: 92601},
 																							run: (*parser).callonShortcutParagraph255,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2888, col: 10, offset: 91535},
+																								pos:        position{line: 2903, col: 10, offset: 92601},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40010,28 +40010,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2910, col: 8, offset: 91933},
+																						pos: position{line: 2925, col: 8, offset: 92999},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2897, col: 12, offset: 91706},
+																								pos: position{line: 2912, col: 12, offset: 92772},
 																								run: (*parser).callonShortcutParagraph258,
 																								expr: &choiceExpr{
-																									pos: position{line: 2897, col: 13, offset: 91707},
+																									pos: position{line: 2912, col: 13, offset: 92773},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 13, offset: 91707},
+																											pos:        position{line: 2912, col: 13, offset: 92773},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 20, offset: 91714},
+																											pos:        position{line: 2912, col: 20, offset: 92780},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2897, col: 29, offset: 91723},
+																											pos:        position{line: 2912, col: 29, offset: 92789},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40040,9 +40040,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2907, col: 8, offset: 91883},
+																								pos: position{line: 2922, col: 8, offset: 92949},
 																								expr: &anyMatcher{
-																									line: 2907, col: 9, offset: 91884,
+																									line: 2922, col: 9, offset: 92950,
 																								},
 																							},
 																						},
@@ -40071,10 +40071,10 @@ var g = &grammar{
 														&zeroOrMoreExpr{
 															pos: position{line: 1548, col: 31, offset: 50257},
 															expr: &actionExpr{
-																pos: position{line: 2888, col: 10, offset: 91535},
+																pos: position{line: 2903, col: 10, offset: 92601},
 																run: (*parser).callonShortcutParagraph269,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2888, col: 10, offset: 91535},
+																	pos:        position{line: 2903, col: 10, offset: 92601},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -40083,25 +40083,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2897, col: 12, offset: 91706},
+															pos: position{line: 2912, col: 12, offset: 92772},
 															run: (*parser).callonShortcutParagraph271,
 															expr: &choiceExpr{
-																pos: position{line: 2897, col: 13, offset: 91707},
+																pos: position{line: 2912, col: 13, offset: 92773},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2897, col: 13, offset: 91707},
+																		pos:        position{line: 2912, col: 13, offset: 92773},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2897, col: 20, offset: 91714},
+																		pos:        position{line: 2912, col: 20, offset: 92780},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2897, col: 29, offset: 91723},
+																		pos:        position{line: 2912, col: 29, offset: 92789},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -40119,36 +40119,36 @@ var g = &grammar{
 													pos: position{line: 1776, col: 15, offset: 57683},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2488, col: 22, offset: 80228},
+															pos: position{line: 2503, col: 22, offset: 81294},
 															run: (*parser).callonShortcutParagraph278,
 															expr: &seqExpr{
-																pos: position{line: 2488, col: 22, offset: 80228},
+																pos: position{line: 2503, col: 22, offset: 81294},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2493, col: 31, offset: 80449},
+																		pos:        position{line: 2508, col: 31, offset: 81515},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2493, col: 36, offset: 80454},
+																		pos: position{line: 2508, col: 36, offset: 81520},
 																		expr: &litMatcher{
-																			pos:        position{line: 2493, col: 37, offset: 80455},
+																			pos:        position{line: 2508, col: 37, offset: 81521},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2488, col: 49, offset: 80255},
+																		pos:   position{line: 2503, col: 49, offset: 81321},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2834, col: 13, offset: 90061},
+																			pos: position{line: 2849, col: 13, offset: 91127},
 																			run: (*parser).callonShortcutParagraph284,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2834, col: 13, offset: 90061},
+																				pos: position{line: 2849, col: 13, offset: 91127},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2834, col: 13, offset: 90061},
+																					pos:        position{line: 2849, col: 13, offset: 91127},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40158,28 +40158,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2910, col: 8, offset: 91933},
+																		pos: position{line: 2925, col: 8, offset: 92999},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2897, col: 12, offset: 91706},
+																				pos: position{line: 2912, col: 12, offset: 92772},
 																				run: (*parser).callonShortcutParagraph288,
 																				expr: &choiceExpr{
-																					pos: position{line: 2897, col: 13, offset: 91707},
+																					pos: position{line: 2912, col: 13, offset: 92773},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 13, offset: 91707},
+																							pos:        position{line: 2912, col: 13, offset: 92773},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 20, offset: 91714},
+																							pos:        position{line: 2912, col: 20, offset: 92780},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 29, offset: 91723},
+																							pos:        position{line: 2912, col: 29, offset: 92789},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40188,9 +40188,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2907, col: 8, offset: 91883},
+																				pos: position{line: 2922, col: 8, offset: 92949},
 																				expr: &anyMatcher{
-																					line: 2907, col: 9, offset: 91884,
+																					line: 2922, col: 9, offset: 92950,
 																				},
 																			},
 																		},
@@ -40208,12 +40208,12 @@ var g = &grammar{
 																		pos:   position{line: 1798, col: 5, offset: 58283},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2838, col: 14, offset: 90128},
+																			pos: position{line: 2853, col: 14, offset: 91194},
 																			run: (*parser).callonShortcutParagraph298,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2838, col: 14, offset: 90128},
+																				pos: position{line: 2853, col: 14, offset: 91194},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2838, col: 14, offset: 90128},
+																					pos:        position{line: 2853, col: 14, offset: 91194},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40227,28 +40227,28 @@ var g = &grammar{
 																		run: (*parser).callonShortcutParagraph301,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2910, col: 8, offset: 91933},
+																		pos: position{line: 2925, col: 8, offset: 92999},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2897, col: 12, offset: 91706},
+																				pos: position{line: 2912, col: 12, offset: 92772},
 																				run: (*parser).callonShortcutParagraph303,
 																				expr: &choiceExpr{
-																					pos: position{line: 2897, col: 13, offset: 91707},
+																					pos: position{line: 2912, col: 13, offset: 92773},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 13, offset: 91707},
+																							pos:        position{line: 2912, col: 13, offset: 92773},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 20, offset: 91714},
+																							pos:        position{line: 2912, col: 20, offset: 92780},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 29, offset: 91723},
+																							pos:        position{line: 2912, col: 29, offset: 92789},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40257,9 +40257,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2907, col: 8, offset: 91883},
+																				pos: position{line: 2922, col: 8, offset: 92949},
 																				expr: &anyMatcher{
-																					line: 2907, col: 9, offset: 91884,
+																					line: 2922, col: 9, offset: 92950,
 																				},
 																			},
 																		},
@@ -40365,12 +40365,12 @@ var g = &grammar{
 															expr: &andExpr{
 																pos: position{line: 1752, col: 13, offset: 56793},
 																expr: &actionExpr{
-																	pos: position{line: 2892, col: 11, offset: 91596},
+																	pos: position{line: 2907, col: 11, offset: 92662},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2892, col: 11, offset: 91596},
+																		pos: position{line: 2907, col: 11, offset: 92662},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2892, col: 11, offset: 91596},
+																			pos:        position{line: 2907, col: 11, offset: 92662},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -40391,10 +40391,10 @@ var g = &grammar{
 														&zeroOrMoreExpr{
 															pos: position{line: 1754, col: 14, offset: 56865},
 															expr: &actionExpr{
-																pos: position{line: 2888, col: 10, offset: 91535},
+																pos: position{line: 2903, col: 10, offset: 92601},
 																run: (*parser).callonParagraph28,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2888, col: 10, offset: 91535},
+																	pos:        position{line: 2903, col: 10, offset: 92601},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -40403,28 +40403,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2910, col: 8, offset: 91933},
+															pos: position{line: 2925, col: 8, offset: 92999},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2897, col: 12, offset: 91706},
+																	pos: position{line: 2912, col: 12, offset: 92772},
 																	run: (*parser).callonParagraph31,
 																	expr: &choiceExpr{
-																		pos: position{line: 2897, col: 13, offset: 91707},
+																		pos: position{line: 2912, col: 13, offset: 92773},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2897, col: 13, offset: 91707},
+																				pos:        position{line: 2912, col: 13, offset: 92773},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2897, col: 20, offset: 91714},
+																				pos:        position{line: 2912, col: 20, offset: 92780},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2897, col: 29, offset: 91723},
+																				pos:        position{line: 2912, col: 29, offset: 92789},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -40433,9 +40433,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2907, col: 8, offset: 91883},
+																	pos: position{line: 2922, col: 8, offset: 92949},
 																	expr: &anyMatcher{
-																		line: 2907, col: 9, offset: 91884,
+																		line: 2922, col: 9, offset: 92950,
 																	},
 																},
 															},
@@ -40461,12 +40461,12 @@ var g = &grammar{
 											pos:   position{line: 1798, col: 5, offset: 58283},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2838, col: 14, offset: 90128},
+												pos: position{line: 2853, col: 14, offset: 91194},
 												run: (*parser).callonParagraph42,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2838, col: 14, offset: 90128},
+													pos: position{line: 2853, col: 14, offset: 91194},
 													expr: &charClassMatcher{
-														pos:        position{line: 2838, col: 14, offset: 90128},
+														pos:        position{line: 2853, col: 14, offset: 91194},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -40480,28 +40480,28 @@ var g = &grammar{
 											run: (*parser).callonParagraph45,
 										},
 										&choiceExpr{
-											pos: position{line: 2910, col: 8, offset: 91933},
+											pos: position{line: 2925, col: 8, offset: 92999},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2897, col: 12, offset: 91706},
+													pos: position{line: 2912, col: 12, offset: 92772},
 													run: (*parser).callonParagraph47,
 													expr: &choiceExpr{
-														pos: position{line: 2897, col: 13, offset: 91707},
+														pos: position{line: 2912, col: 13, offset: 92773},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2897, col: 13, offset: 91707},
+																pos:        position{line: 2912, col: 13, offset: 92773},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2897, col: 20, offset: 91714},
+																pos:        position{line: 2912, col: 20, offset: 92780},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2897, col: 29, offset: 91723},
+																pos:        position{line: 2912, col: 29, offset: 92789},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -40510,9 +40510,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2907, col: 8, offset: 91883},
+													pos: position{line: 2922, col: 8, offset: 92949},
 													expr: &anyMatcher{
-														line: 2907, col: 9, offset: 91884,
+														line: 2922, col: 9, offset: 92950,
 													},
 												},
 											},
@@ -40533,9 +40533,9 @@ var g = &grammar{
 										pos: position{line: 1787, col: 9, offset: 57989},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2905, col: 11, offset: 91869},
+												pos: position{line: 2920, col: 11, offset: 92935},
 												expr: &anyMatcher{
-													line: 2905, col: 13, offset: 91871,
+													line: 2920, col: 13, offset: 92937,
 												},
 											},
 											&notExpr{
@@ -40547,18 +40547,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21525},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2905, col: 11, offset: 91869},
+																pos: position{line: 2920, col: 11, offset: 92935},
 																expr: &anyMatcher{
-																	line: 2905, col: 13, offset: 91871,
+																	line: 2920, col: 13, offset: 92937,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21532},
 																expr: &actionExpr{
-																	pos: position{line: 2888, col: 10, offset: 91535},
+																	pos: position{line: 2903, col: 10, offset: 92601},
 																	run: (*parser).callonParagraph66,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2888, col: 10, offset: 91535},
+																		pos:        position{line: 2903, col: 10, offset: 92601},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -40567,28 +40567,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2910, col: 8, offset: 91933},
+																pos: position{line: 2925, col: 8, offset: 92999},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2897, col: 12, offset: 91706},
+																		pos: position{line: 2912, col: 12, offset: 92772},
 																		run: (*parser).callonParagraph69,
 																		expr: &choiceExpr{
-																			pos: position{line: 2897, col: 13, offset: 91707},
+																			pos: position{line: 2912, col: 13, offset: 92773},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2897, col: 13, offset: 91707},
+																					pos:        position{line: 2912, col: 13, offset: 92773},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2897, col: 20, offset: 91714},
+																					pos:        position{line: 2912, col: 20, offset: 92780},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2897, col: 29, offset: 91723},
+																					pos:        position{line: 2912, col: 29, offset: 92789},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -40597,9 +40597,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2907, col: 8, offset: 91883},
+																		pos: position{line: 2922, col: 8, offset: 92949},
 																		expr: &anyMatcher{
-																			line: 2907, col: 9, offset: 91884,
+																			line: 2922, col: 9, offset: 92950,
 																		},
 																	},
 																},
@@ -40622,36 +40622,36 @@ var g = &grammar{
 													pos: position{line: 1790, col: 15, offset: 58054},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2488, col: 22, offset: 80228},
+															pos: position{line: 2503, col: 22, offset: 81294},
 															run: (*parser).callonParagraph80,
 															expr: &seqExpr{
-																pos: position{line: 2488, col: 22, offset: 80228},
+																pos: position{line: 2503, col: 22, offset: 81294},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2493, col: 31, offset: 80449},
+																		pos:        position{line: 2508, col: 31, offset: 81515},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2493, col: 36, offset: 80454},
+																		pos: position{line: 2508, col: 36, offset: 81520},
 																		expr: &litMatcher{
-																			pos:        position{line: 2493, col: 37, offset: 80455},
+																			pos:        position{line: 2508, col: 37, offset: 81521},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2488, col: 49, offset: 80255},
+																		pos:   position{line: 2503, col: 49, offset: 81321},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2834, col: 13, offset: 90061},
+																			pos: position{line: 2849, col: 13, offset: 91127},
 																			run: (*parser).callonParagraph86,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2834, col: 13, offset: 90061},
+																				pos: position{line: 2849, col: 13, offset: 91127},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2834, col: 13, offset: 90061},
+																					pos:        position{line: 2849, col: 13, offset: 91127},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40661,28 +40661,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2910, col: 8, offset: 91933},
+																		pos: position{line: 2925, col: 8, offset: 92999},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2897, col: 12, offset: 91706},
+																				pos: position{line: 2912, col: 12, offset: 92772},
 																				run: (*parser).callonParagraph90,
 																				expr: &choiceExpr{
-																					pos: position{line: 2897, col: 13, offset: 91707},
+																					pos: position{line: 2912, col: 13, offset: 92773},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 13, offset: 91707},
+																							pos:        position{line: 2912, col: 13, offset: 92773},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 20, offset: 91714},
+																							pos:        position{line: 2912, col: 20, offset: 92780},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 29, offset: 91723},
+																							pos:        position{line: 2912, col: 29, offset: 92789},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40691,9 +40691,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2907, col: 8, offset: 91883},
+																				pos: position{line: 2922, col: 8, offset: 92949},
 																				expr: &anyMatcher{
-																					line: 2907, col: 9, offset: 91884,
+																					line: 2922, col: 9, offset: 92950,
 																				},
 																			},
 																		},
@@ -40711,12 +40711,12 @@ var g = &grammar{
 																		pos:   position{line: 1798, col: 5, offset: 58283},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2838, col: 14, offset: 90128},
+																			pos: position{line: 2853, col: 14, offset: 91194},
 																			run: (*parser).callonParagraph100,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2838, col: 14, offset: 90128},
+																				pos: position{line: 2853, col: 14, offset: 91194},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2838, col: 14, offset: 90128},
+																					pos:        position{line: 2853, col: 14, offset: 91194},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40730,28 +40730,28 @@ var g = &grammar{
 																		run: (*parser).callonParagraph103,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2910, col: 8, offset: 91933},
+																		pos: position{line: 2925, col: 8, offset: 92999},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2897, col: 12, offset: 91706},
+																				pos: position{line: 2912, col: 12, offset: 92772},
 																				run: (*parser).callonParagraph105,
 																				expr: &choiceExpr{
-																					pos: position{line: 2897, col: 13, offset: 91707},
+																					pos: position{line: 2912, col: 13, offset: 92773},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 13, offset: 91707},
+																							pos:        position{line: 2912, col: 13, offset: 92773},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 20, offset: 91714},
+																							pos:        position{line: 2912, col: 20, offset: 92780},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 29, offset: 91723},
+																							pos:        position{line: 2912, col: 29, offset: 92789},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40760,9 +40760,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2907, col: 8, offset: 91883},
+																				pos: position{line: 2922, col: 8, offset: 92949},
 																				expr: &anyMatcher{
-																					line: 2907, col: 9, offset: 91884,
+																					line: 2922, col: 9, offset: 92950,
 																				},
 																			},
 																		},
@@ -40975,26 +40975,26 @@ var g = &grammar{
 				pos: position{line: 1864, col: 5, offset: 60312},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2780, col: 5, offset: 88563},
+						pos: position{line: 2795, col: 5, offset: 89629},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2780, col: 5, offset: 88563},
+							pos: position{line: 2795, col: 5, offset: 89629},
 							exprs: []interface{}{
 								&notExpr{
-									pos: position{line: 2780, col: 5, offset: 88563},
+									pos: position{line: 2795, col: 5, offset: 89629},
 									expr: &seqExpr{
-										pos: position{line: 2781, col: 9, offset: 88574},
+										pos: position{line: 2796, col: 9, offset: 89640},
 										exprs: []interface{}{
 											&labeledExpr{
-												pos:   position{line: 2781, col: 9, offset: 88574},
+												pos:   position{line: 2796, col: 9, offset: 89640},
 												label: "name",
 												expr: &actionExpr{
-													pos: position{line: 2760, col: 18, offset: 88080},
+													pos: position{line: 2775, col: 18, offset: 89146},
 													run: (*parser).callonQuotedTextElement7,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2760, col: 19, offset: 88081},
+														pos: position{line: 2775, col: 19, offset: 89147},
 														expr: &charClassMatcher{
-															pos:        position{line: 2760, col: 19, offset: 88081},
+															pos:        position{line: 2775, col: 19, offset: 89147},
 															val:        "[_-\\pL\\pN]",
 															chars:      []rune{'_', '-'},
 															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -41005,28 +41005,28 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 2782, col: 9, offset: 88667},
+												pos:        position{line: 2797, col: 9, offset: 89733},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2783, col: 9, offset: 88679},
+												pos: position{line: 2798, col: 9, offset: 89745},
 												run: (*parser).callonQuotedTextElement11,
 											},
 										},
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 2787, col: 5, offset: 88756},
+									pos:   position{line: 2802, col: 5, offset: 89822},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2787, col: 11, offset: 88762},
+										pos: position{line: 2802, col: 11, offset: 89828},
 										run: (*parser).callonQuotedTextElement13,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2787, col: 11, offset: 88762},
+											pos: position{line: 2802, col: 11, offset: 89828},
 											expr: &charClassMatcher{
-												pos:        position{line: 2787, col: 11, offset: 88762},
+												pos:        position{line: 2802, col: 11, offset: 89828},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41036,44 +41036,44 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2790, col: 5, offset: 88820},
+									pos: position{line: 2805, col: 5, offset: 89886},
 									expr: &seqExpr{
-										pos: position{line: 2791, col: 9, offset: 88831},
+										pos: position{line: 2806, col: 9, offset: 89897},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2791, col: 9, offset: 88831},
+												pos:        position{line: 2806, col: 9, offset: 89897},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2792, col: 9, offset: 88880},
+												pos: position{line: 2807, col: 9, offset: 89946},
 												run: (*parser).callonQuotedTextElement19,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2796, col: 5, offset: 88960},
+									pos: position{line: 2811, col: 5, offset: 90026},
 									expr: &seqExpr{
-										pos: position{line: 2797, col: 9, offset: 88971},
+										pos: position{line: 2812, col: 9, offset: 90037},
 										exprs: []interface{}{
 											&zeroOrMoreExpr{
-												pos: position{line: 2797, col: 9, offset: 88971},
+												pos: position{line: 2812, col: 9, offset: 90037},
 												expr: &seqExpr{
-													pos: position{line: 2797, col: 10, offset: 88972},
+													pos: position{line: 2812, col: 10, offset: 90038},
 													exprs: []interface{}{
 														&charClassMatcher{
-															pos:        position{line: 2797, col: 10, offset: 88972},
+															pos:        position{line: 2812, col: 10, offset: 90038},
 															val:        "[._%+-]",
 															chars:      []rune{'.', '_', '%', '+', '-'},
 															ignoreCase: false,
 															inverted:   false,
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2797, col: 18, offset: 88980},
+															pos: position{line: 2812, col: 18, offset: 90046},
 															expr: &charClassMatcher{
-																pos:        position{line: 2797, col: 18, offset: 88980},
+																pos:        position{line: 2812, col: 18, offset: 90046},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -41084,13 +41084,13 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 2797, col: 30, offset: 88992},
+												pos:        position{line: 2812, col: 30, offset: 90058},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2797, col: 34, offset: 88996},
+												pos:        position{line: 2812, col: 34, offset: 90062},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41103,12 +41103,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2892, col: 11, offset: 91596},
+						pos: position{line: 2907, col: 11, offset: 92662},
 						run: (*parser).callonQuotedTextElement29,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2892, col: 11, offset: 91596},
+							pos: position{line: 2907, col: 11, offset: 92662},
 							expr: &charClassMatcher{
-								pos:        position{line: 2892, col: 11, offset: 91596},
+								pos:        position{line: 2907, col: 11, offset: 92662},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -41121,25 +41121,25 @@ var g = &grammar{
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2506, col: 5, offset: 80945},
+						pos: position{line: 2521, col: 5, offset: 82011},
 						run: (*parser).callonQuotedTextElement33,
 						expr: &seqExpr{
-							pos: position{line: 2506, col: 5, offset: 80945},
+							pos: position{line: 2521, col: 5, offset: 82011},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2506, col: 5, offset: 80945},
+									pos: position{line: 2521, col: 5, offset: 82011},
 									run: (*parser).callonQuotedTextElement35,
 								},
 								&litMatcher{
-									pos:        position{line: 2509, col: 5, offset: 81016},
+									pos:        position{line: 2524, col: 5, offset: 82082},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2509, col: 10, offset: 81021},
+									pos: position{line: 2524, col: 10, offset: 82087},
 									expr: &charClassMatcher{
-										pos:        position{line: 2509, col: 11, offset: 81022},
+										pos:        position{line: 2524, col: 11, offset: 82088},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -41150,29 +41150,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2515, col: 5, offset: 81214},
+						pos: position{line: 2530, col: 5, offset: 82280},
 						run: (*parser).callonQuotedTextElement39,
 						expr: &seqExpr{
-							pos: position{line: 2515, col: 5, offset: 81214},
+							pos: position{line: 2530, col: 5, offset: 82280},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2515, col: 5, offset: 81214},
+									pos: position{line: 2530, col: 5, offset: 82280},
 									run: (*parser).callonQuotedTextElement41,
 								},
 								&andCodeExpr{
-									pos: position{line: 2518, col: 5, offset: 81285},
+									pos: position{line: 2533, col: 5, offset: 82351},
 									run: (*parser).callonQuotedTextElement42,
 								},
 								&litMatcher{
-									pos:        position{line: 2522, col: 5, offset: 81410},
+									pos:        position{line: 2537, col: 5, offset: 82476},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2522, col: 9, offset: 81414},
+									pos: position{line: 2537, col: 9, offset: 82480},
 									expr: &charClassMatcher{
-										pos:        position{line: 2522, col: 10, offset: 81415},
+										pos:        position{line: 2537, col: 10, offset: 82481},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -41183,27 +41183,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2805, col: 5, offset: 89189},
+						pos: position{line: 2820, col: 5, offset: 90255},
 						run: (*parser).callonQuotedTextElement46,
 						expr: &choiceExpr{
-							pos: position{line: 2806, col: 9, offset: 89199},
+							pos: position{line: 2821, col: 9, offset: 90265},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2806, col: 10, offset: 89200},
+									pos:        position{line: 2821, col: 10, offset: 90266},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2808, col: 13, offset: 89297},
+									pos: position{line: 2823, col: 13, offset: 90363},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2808, col: 13, offset: 89297},
+											pos: position{line: 2823, col: 13, offset: 90363},
 											run: (*parser).callonQuotedTextElement50,
 										},
 										&litMatcher{
-											pos:        position{line: 2811, col: 13, offset: 89397},
+											pos:        position{line: 2826, col: 13, offset: 90463},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -41211,20 +41211,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2811, col: 19, offset: 89403},
+									pos:        position{line: 2826, col: 19, offset: 90469},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2814, col: 13, offset: 89441},
+									pos: position{line: 2829, col: 13, offset: 90507},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2814, col: 13, offset: 89441},
+											pos: position{line: 2829, col: 13, offset: 90507},
 											run: (*parser).callonQuotedTextElement54,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2817, col: 14, offset: 89534},
+											pos:        position{line: 2832, col: 14, offset: 90600},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -41233,18 +41233,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2819, col: 12, offset: 89578},
+									pos: position{line: 2834, col: 12, offset: 90644},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2819, col: 12, offset: 89578},
+											pos:        position{line: 2834, col: 12, offset: 90644},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2819, col: 16, offset: 89582},
+											pos: position{line: 2834, col: 16, offset: 90648},
 											expr: &litMatcher{
-												pos:        position{line: 2819, col: 17, offset: 89583},
+												pos:        position{line: 2834, col: 17, offset: 90649},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -41602,31 +41602,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2901, col: 18, offset: 91806},
+						pos: position{line: 2916, col: 18, offset: 92872},
 						run: (*parser).callonQuotedTextElement129,
 						expr: &seqExpr{
-							pos: position{line: 2901, col: 18, offset: 91806},
+							pos: position{line: 2916, col: 18, offset: 92872},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2897, col: 12, offset: 91706},
+									pos: position{line: 2912, col: 12, offset: 92772},
 									run: (*parser).callonQuotedTextElement131,
 									expr: &choiceExpr{
-										pos: position{line: 2897, col: 13, offset: 91707},
+										pos: position{line: 2912, col: 13, offset: 92773},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2897, col: 13, offset: 91707},
+												pos:        position{line: 2912, col: 13, offset: 92773},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2897, col: 20, offset: 91714},
+												pos:        position{line: 2912, col: 20, offset: 92780},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2897, col: 29, offset: 91723},
+												pos:        position{line: 2912, col: 29, offset: 92789},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -41635,27 +41635,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2901, col: 26, offset: 91814},
+									pos: position{line: 2916, col: 26, offset: 92880},
 									expr: &actionExpr{
-										pos: position{line: 2897, col: 12, offset: 91706},
+										pos: position{line: 2912, col: 12, offset: 92772},
 										run: (*parser).callonQuotedTextElement137,
 										expr: &choiceExpr{
-											pos: position{line: 2897, col: 13, offset: 91707},
+											pos: position{line: 2912, col: 13, offset: 92773},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2897, col: 13, offset: 91707},
+													pos:        position{line: 2912, col: 13, offset: 92773},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2897, col: 20, offset: 91714},
+													pos:        position{line: 2912, col: 20, offset: 92780},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2897, col: 29, offset: 91723},
+													pos:        position{line: 2912, col: 29, offset: 92789},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -41676,23 +41676,23 @@ var g = &grammar{
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2475, col: 5, offset: 79774},
+						pos: position{line: 2490, col: 5, offset: 80840},
 						run: (*parser).callonQuotedTextElement144,
 						expr: &seqExpr{
-							pos: position{line: 2475, col: 5, offset: 79774},
+							pos: position{line: 2490, col: 5, offset: 80840},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2475, col: 5, offset: 79774},
+									pos: position{line: 2490, col: 5, offset: 80840},
 									run: (*parser).callonQuotedTextElement146,
 								},
 								&labeledExpr{
-									pos:   position{line: 2478, col: 5, offset: 79850},
+									pos:   position{line: 2493, col: 5, offset: 80916},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2479, col: 9, offset: 79868},
+										pos: position{line: 2494, col: 9, offset: 80934},
 										run: (*parser).callonQuotedTextElement148,
 										expr: &charClassMatcher{
-											pos:        position{line: 2479, col: 10, offset: 79869},
+											pos:        position{line: 2494, col: 10, offset: 80935},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -41747,10 +41747,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2827, col: 12, offset: 89843},
+						pos: position{line: 2842, col: 12, offset: 90909},
 						run: (*parser).callonQuotedTextElement159,
 						expr: &charClassMatcher{
-							pos:        position{line: 2827, col: 12, offset: 89843},
+							pos:        position{line: 2842, col: 12, offset: 90909},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -41814,9 +41814,9 @@ var g = &grammar{
 					pos: position{line: 1900, col: 5, offset: 61393},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2905, col: 11, offset: 91869},
+							pos: position{line: 2920, col: 11, offset: 92935},
 							expr: &anyMatcher{
-								line: 2905, col: 13, offset: 91871,
+								line: 2920, col: 13, offset: 92937,
 							},
 						},
 						&notExpr{
@@ -41842,12 +41842,12 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldText",
-			pos:  position{line: 1927, col: 1, offset: 62130},
+			pos:  position{line: 1931, col: 1, offset: 62353},
 			expr: &actionExpr{
-				pos: position{line: 1928, col: 5, offset: 62158},
+				pos: position{line: 1932, col: 5, offset: 62381},
 				run: (*parser).callonSingleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1928, col: 5, offset: 62158},
+					pos: position{line: 1932, col: 5, offset: 62381},
 					exprs: []interface{}{
 						&litMatcher{
 							pos:        position{line: 1911, col: 5, offset: 61684},
@@ -41871,39 +41871,90 @@ var g = &grammar{
 								},
 							},
 						},
+						&andExpr{
+							pos: position{line: 1917, col: 5, offset: 61897},
+							expr: &seqExpr{
+								pos: position{line: 1929, col: 41, offset: 62316},
+								exprs: []interface{}{
+									&zeroOrMoreExpr{
+										pos: position{line: 1929, col: 41, offset: 62316},
+										expr: &choiceExpr{
+											pos: position{line: 1929, col: 42, offset: 62317},
+											alternatives: []interface{}{
+												&charClassMatcher{
+													pos:        position{line: 1929, col: 42, offset: 62317},
+													val:        "[^*]",
+													chars:      []rune{'*'},
+													ignoreCase: false,
+													inverted:   true,
+												},
+												&seqExpr{
+													pos: position{line: 1929, col: 49, offset: 62324},
+													exprs: []interface{}{
+														&litMatcher{
+															pos:        position{line: 1929, col: 49, offset: 62324},
+															val:        "*",
+															ignoreCase: false,
+															want:       "\"*\"",
+														},
+														&andExpr{
+															pos: position{line: 1929, col: 53, offset: 62328},
+															expr: &charClassMatcher{
+																pos:        position{line: 2786, col: 13, offset: 89482},
+																val:        "[*\\pL\\pN]",
+																chars:      []rune{'*'},
+																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																ignoreCase: false,
+																inverted:   false,
+															},
+														},
+													},
+												},
+											},
+										},
+									},
+									&litMatcher{
+										pos:        position{line: 1929, col: 73, offset: 62348},
+										val:        "*",
+										ignoreCase: false,
+										want:       "\"*\"",
+									},
+								},
+							},
+						},
 						&labeledExpr{
-							pos:   position{line: 1929, col: 5, offset: 62196},
+							pos:   position{line: 1933, col: 5, offset: 62419},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1929, col: 15, offset: 62206},
+								pos:  position{line: 1933, col: 15, offset: 62429},
 								name: "SingleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1919, col: 5, offset: 61934},
+							pos:        position{line: 1920, col: 5, offset: 61978},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&notExpr{
-							pos: position{line: 1920, col: 5, offset: 61943},
+							pos: position{line: 1921, col: 5, offset: 61987},
 							expr: &litMatcher{
-								pos:        position{line: 1920, col: 6, offset: 61944},
+								pos:        position{line: 1921, col: 6, offset: 61988},
 								val:        "*",
 								ignoreCase: false,
 								want:       "\"*\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1921, col: 5, offset: 62007},
-							run: (*parser).callonSingleQuoteBoldText13,
+							pos: position{line: 1922, col: 5, offset: 62051},
+							run: (*parser).callonSingleQuoteBoldText23,
 						},
 						&andExpr{
-							pos: position{line: 1925, col: 5, offset: 62116},
+							pos: position{line: 1926, col: 5, offset: 62160},
 							expr: &notExpr{
-								pos: position{line: 1925, col: 7, offset: 62118},
+								pos: position{line: 1926, col: 7, offset: 62162},
 								expr: &charClassMatcher{
-									pos:        position{line: 2771, col: 13, offset: 88416},
+									pos:        position{line: 2786, col: 13, offset: 89482},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -41917,20 +41968,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElements",
-			pos:  position{line: 1934, col: 1, offset: 62366},
+			pos:  position{line: 1938, col: 1, offset: 62589},
 			expr: &actionExpr{
-				pos: position{line: 1935, col: 5, offset: 62403},
+				pos: position{line: 1939, col: 5, offset: 62626},
 				run: (*parser).callonSingleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1935, col: 5, offset: 62403},
+					pos: position{line: 1939, col: 5, offset: 62626},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1935, col: 5, offset: 62403},
+							pos: position{line: 1939, col: 5, offset: 62626},
 							expr: &actionExpr{
-								pos: position{line: 2888, col: 10, offset: 91535},
+								pos: position{line: 2903, col: 10, offset: 92601},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2888, col: 10, offset: 91535},
+									pos:        position{line: 2903, col: 10, offset: 92601},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41939,18 +41990,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1936, col: 5, offset: 62442},
+							pos:   position{line: 1940, col: 5, offset: 62665},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1936, col: 14, offset: 62451},
+								pos: position{line: 1940, col: 14, offset: 62674},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1936, col: 15, offset: 62452},
+									pos:  position{line: 1940, col: 15, offset: 62675},
 									name: "SingleQuoteBoldTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1937, col: 5, offset: 62486},
+							pos: position{line: 1941, col: 5, offset: 62709},
 							run: (*parser).callonSingleQuoteBoldTextElements9,
 						},
 					},
@@ -41959,49 +42010,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElement",
-			pos:  position{line: 1943, col: 1, offset: 62627},
+			pos:  position{line: 1947, col: 1, offset: 62850},
 			expr: &actionExpr{
-				pos: position{line: 1944, col: 5, offset: 62662},
+				pos: position{line: 1948, col: 5, offset: 62885},
 				run: (*parser).callonSingleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1944, col: 5, offset: 62662},
+					pos: position{line: 1948, col: 5, offset: 62885},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2905, col: 11, offset: 91869},
+							pos: position{line: 2920, col: 11, offset: 92935},
 							expr: &anyMatcher{
-								line: 2905, col: 13, offset: 91871,
+								line: 2920, col: 13, offset: 92937,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1945, col: 5, offset: 62690},
+							pos: position{line: 1949, col: 5, offset: 62913},
 							expr: &seqExpr{
-								pos: position{line: 1919, col: 5, offset: 61934},
+								pos: position{line: 1920, col: 5, offset: 61978},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1919, col: 5, offset: 61934},
+										pos:        position{line: 1920, col: 5, offset: 61978},
 										val:        "*",
 										ignoreCase: false,
 										want:       "\"*\"",
 									},
 									&notExpr{
-										pos: position{line: 1920, col: 5, offset: 61943},
+										pos: position{line: 1921, col: 5, offset: 61987},
 										expr: &litMatcher{
-											pos:        position{line: 1920, col: 6, offset: 61944},
+											pos:        position{line: 1921, col: 6, offset: 61988},
 											val:        "*",
 											ignoreCase: false,
 											want:       "\"*\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1921, col: 5, offset: 62007},
+										pos: position{line: 1922, col: 5, offset: 62051},
 										run: (*parser).callonSingleQuoteBoldTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 1925, col: 5, offset: 62116},
+										pos: position{line: 1926, col: 5, offset: 62160},
 										expr: &notExpr{
-											pos: position{line: 1925, col: 7, offset: 62118},
+											pos: position{line: 1926, col: 7, offset: 62162},
 											expr: &charClassMatcher{
-												pos:        position{line: 2771, col: 13, offset: 88416},
+												pos:        position{line: 2786, col: 13, offset: 89482},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42013,10 +42064,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1946, col: 5, offset: 62727},
+							pos:   position{line: 1950, col: 5, offset: 62950},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1946, col: 14, offset: 62736},
+								pos:  position{line: 1950, col: 14, offset: 62959},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42026,18 +42077,18 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedBoldText",
-			pos:  position{line: 1951, col: 1, offset: 62824},
+			pos:  position{line: 1955, col: 1, offset: 63047},
 			expr: &choiceExpr{
-				pos: position{line: 1953, col: 5, offset: 62885},
+				pos: position{line: 1957, col: 5, offset: 63108},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1953, col: 5, offset: 62885},
+						pos: position{line: 1957, col: 5, offset: 63108},
 						run: (*parser).callonEscapedBoldText2,
 						expr: &seqExpr{
-							pos: position{line: 1953, col: 5, offset: 62885},
+							pos: position{line: 1957, col: 5, offset: 63108},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1953, col: 5, offset: 62885},
+									pos:   position{line: 1957, col: 5, offset: 63108},
 									label: "backslashes",
 									expr: &actionExpr{
 										pos: position{line: 1859, col: 25, offset: 60232},
@@ -42065,21 +42116,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1953, col: 40, offset: 62920},
+									pos:        position{line: 1957, col: 40, offset: 63143},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1953, col: 45, offset: 62925},
+									pos:   position{line: 1957, col: 45, offset: 63148},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1953, col: 55, offset: 62935},
+										pos:  position{line: 1957, col: 55, offset: 63158},
 										name: "DoubleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1953, col: 84, offset: 62964},
+									pos:        position{line: 1957, col: 84, offset: 63187},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
@@ -42088,13 +42139,13 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1957, col: 7, offset: 63128},
+						pos: position{line: 1961, col: 7, offset: 63351},
 						run: (*parser).callonEscapedBoldText14,
 						expr: &seqExpr{
-							pos: position{line: 1957, col: 7, offset: 63128},
+							pos: position{line: 1961, col: 7, offset: 63351},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1957, col: 7, offset: 63128},
+									pos:   position{line: 1961, col: 7, offset: 63351},
 									label: "backslashes",
 									expr: &actionExpr{
 										pos: position{line: 1855, col: 25, offset: 60159},
@@ -42111,21 +42162,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1957, col: 42, offset: 63163},
+									pos:        position{line: 1961, col: 42, offset: 63386},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1957, col: 47, offset: 63168},
+									pos:   position{line: 1961, col: 47, offset: 63391},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1957, col: 57, offset: 63178},
+										pos:  position{line: 1961, col: 57, offset: 63401},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1957, col: 86, offset: 63207},
+									pos:        position{line: 1961, col: 86, offset: 63430},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -42134,13 +42185,13 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1962, col: 7, offset: 63409},
+						pos: position{line: 1966, col: 7, offset: 63632},
 						run: (*parser).callonEscapedBoldText24,
 						expr: &seqExpr{
-							pos: position{line: 1962, col: 7, offset: 63409},
+							pos: position{line: 1966, col: 7, offset: 63632},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1962, col: 7, offset: 63409},
+									pos:   position{line: 1966, col: 7, offset: 63632},
 									label: "backslashes",
 									expr: &actionExpr{
 										pos: position{line: 1855, col: 25, offset: 60159},
@@ -42157,21 +42208,72 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1962, col: 42, offset: 63444},
+									pos:        position{line: 1966, col: 42, offset: 63667},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
 								},
+								&andExpr{
+									pos: position{line: 1966, col: 46, offset: 63671},
+									expr: &seqExpr{
+										pos: position{line: 1929, col: 41, offset: 62316},
+										exprs: []interface{}{
+											&zeroOrMoreExpr{
+												pos: position{line: 1929, col: 41, offset: 62316},
+												expr: &choiceExpr{
+													pos: position{line: 1929, col: 42, offset: 62317},
+													alternatives: []interface{}{
+														&charClassMatcher{
+															pos:        position{line: 1929, col: 42, offset: 62317},
+															val:        "[^*]",
+															chars:      []rune{'*'},
+															ignoreCase: false,
+															inverted:   true,
+														},
+														&seqExpr{
+															pos: position{line: 1929, col: 49, offset: 62324},
+															exprs: []interface{}{
+																&litMatcher{
+																	pos:        position{line: 1929, col: 49, offset: 62324},
+																	val:        "*",
+																	ignoreCase: false,
+																	want:       "\"*\"",
+																},
+																&andExpr{
+																	pos: position{line: 1929, col: 53, offset: 62328},
+																	expr: &charClassMatcher{
+																		pos:        position{line: 2786, col: 13, offset: 89482},
+																		val:        "[*\\pL\\pN]",
+																		chars:      []rune{'*'},
+																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																		ignoreCase: false,
+																		inverted:   false,
+																	},
+																},
+															},
+														},
+													},
+												},
+											},
+											&litMatcher{
+												pos:        position{line: 1929, col: 73, offset: 62348},
+												val:        "*",
+												ignoreCase: false,
+												want:       "\"*\"",
+											},
+										},
+									},
+								},
 								&labeledExpr{
-									pos:   position{line: 1962, col: 46, offset: 63448},
+									pos:   position{line: 1966, col: 86, offset: 63711},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1962, col: 56, offset: 63458},
+										pos:  position{line: 1966, col: 96, offset: 63721},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1962, col: 85, offset: 63487},
+									pos:        position{line: 1966, col: 125, offset: 63750},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -42184,29 +42286,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicText",
-			pos:  position{line: 1979, col: 1, offset: 63967},
+			pos:  position{line: 1983, col: 1, offset: 64230},
 			expr: &actionExpr{
-				pos: position{line: 1980, col: 5, offset: 63997},
+				pos: position{line: 1984, col: 5, offset: 64260},
 				run: (*parser).callonDoubleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 1980, col: 5, offset: 63997},
+					pos: position{line: 1984, col: 5, offset: 64260},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1975, col: 40, offset: 63918},
+							pos:        position{line: 1979, col: 40, offset: 64181},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1981, col: 5, offset: 64038},
+							pos:   position{line: 1985, col: 5, offset: 64301},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1981, col: 15, offset: 64048},
+								pos:  position{line: 1985, col: 15, offset: 64311},
 								name: "DoubleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1977, col: 38, offset: 63961},
+							pos:        position{line: 1981, col: 38, offset: 64224},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
@@ -42217,44 +42319,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElements",
-			pos:  position{line: 1986, col: 1, offset: 64213},
+			pos:  position{line: 1990, col: 1, offset: 64476},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1986, col: 34, offset: 64246},
+				pos: position{line: 1990, col: 34, offset: 64509},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1986, col: 34, offset: 64246},
+					pos:  position{line: 1990, col: 34, offset: 64509},
 					name: "DoubleQuoteItalicTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteItalicTextElement",
-			pos:  position{line: 1988, col: 1, offset: 64278},
+			pos:  position{line: 1992, col: 1, offset: 64541},
 			expr: &actionExpr{
-				pos: position{line: 1989, col: 5, offset: 64315},
+				pos: position{line: 1993, col: 5, offset: 64578},
 				run: (*parser).callonDoubleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1989, col: 5, offset: 64315},
+					pos: position{line: 1993, col: 5, offset: 64578},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2905, col: 11, offset: 91869},
+							pos: position{line: 2920, col: 11, offset: 92935},
 							expr: &anyMatcher{
-								line: 2905, col: 13, offset: 91871,
+								line: 2920, col: 13, offset: 92937,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1990, col: 5, offset: 64326},
+							pos: position{line: 1994, col: 5, offset: 64589},
 							expr: &litMatcher{
-								pos:        position{line: 1977, col: 38, offset: 63961},
+								pos:        position{line: 1981, col: 38, offset: 64224},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1991, col: 5, offset: 64365},
+							pos:   position{line: 1995, col: 5, offset: 64628},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1991, col: 14, offset: 64374},
+								pos:  position{line: 1995, col: 14, offset: 64637},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42264,68 +42366,119 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicText",
-			pos:  position{line: 2017, col: 1, offset: 65058},
+			pos:  position{line: 2024, col: 1, offset: 65543},
 			expr: &actionExpr{
-				pos: position{line: 2018, col: 5, offset: 65088},
+				pos: position{line: 2025, col: 5, offset: 65573},
 				run: (*parser).callonSingleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2018, col: 5, offset: 65088},
+					pos: position{line: 2025, col: 5, offset: 65573},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2000, col: 5, offset: 64616},
+							pos:        position{line: 2004, col: 5, offset: 64879},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2001, col: 5, offset: 64625},
+							pos: position{line: 2005, col: 5, offset: 64888},
 							run: (*parser).callonSingleQuoteItalicText4,
 						},
 						&andExpr{
-							pos: position{line: 2005, col: 5, offset: 64745},
+							pos: position{line: 2009, col: 5, offset: 65008},
 							expr: &notExpr{
-								pos: position{line: 2005, col: 7, offset: 64747},
+								pos: position{line: 2009, col: 7, offset: 65010},
 								expr: &litMatcher{
-									pos:        position{line: 2005, col: 8, offset: 64748},
+									pos:        position{line: 2009, col: 8, offset: 65011},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
 							},
 						},
+						&andExpr{
+							pos: position{line: 2010, col: 5, offset: 65077},
+							expr: &seqExpr{
+								pos: position{line: 2022, col: 43, offset: 65506},
+								exprs: []interface{}{
+									&zeroOrMoreExpr{
+										pos: position{line: 2022, col: 43, offset: 65506},
+										expr: &choiceExpr{
+											pos: position{line: 2022, col: 44, offset: 65507},
+											alternatives: []interface{}{
+												&charClassMatcher{
+													pos:        position{line: 2022, col: 44, offset: 65507},
+													val:        "[^_]",
+													chars:      []rune{'_'},
+													ignoreCase: false,
+													inverted:   true,
+												},
+												&seqExpr{
+													pos: position{line: 2022, col: 51, offset: 65514},
+													exprs: []interface{}{
+														&litMatcher{
+															pos:        position{line: 2022, col: 51, offset: 65514},
+															val:        "_",
+															ignoreCase: false,
+															want:       "\"_\"",
+														},
+														&andExpr{
+															pos: position{line: 2022, col: 55, offset: 65518},
+															expr: &charClassMatcher{
+																pos:        position{line: 2786, col: 13, offset: 89482},
+																val:        "[_\\pL\\pN]",
+																chars:      []rune{'_'},
+																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																ignoreCase: false,
+																inverted:   false,
+															},
+														},
+													},
+												},
+											},
+										},
+									},
+									&litMatcher{
+										pos:        position{line: 2022, col: 75, offset: 65538},
+										val:        "_",
+										ignoreCase: false,
+										want:       "\"_\"",
+									},
+								},
+							},
+						},
 						&labeledExpr{
-							pos:   position{line: 2019, col: 5, offset: 65128},
+							pos:   position{line: 2026, col: 5, offset: 65613},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2019, col: 15, offset: 65138},
+								pos:  position{line: 2026, col: 15, offset: 65623},
 								name: "SingleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2009, col: 5, offset: 64858},
+							pos:        position{line: 2013, col: 5, offset: 65162},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&notExpr{
-							pos: position{line: 2010, col: 5, offset: 64867},
+							pos: position{line: 2014, col: 5, offset: 65171},
 							expr: &litMatcher{
-								pos:        position{line: 2010, col: 6, offset: 64868},
+								pos:        position{line: 2014, col: 6, offset: 65172},
 								val:        "_",
 								ignoreCase: false,
 								want:       "\"_\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2011, col: 5, offset: 64933},
-							run: (*parser).callonSingleQuoteItalicText13,
+							pos: position{line: 2015, col: 5, offset: 65237},
+							run: (*parser).callonSingleQuoteItalicText23,
 						},
 						&andExpr{
-							pos: position{line: 2015, col: 5, offset: 65044},
+							pos: position{line: 2019, col: 5, offset: 65348},
 							expr: &notExpr{
-								pos: position{line: 2015, col: 7, offset: 65046},
+								pos: position{line: 2019, col: 7, offset: 65350},
 								expr: &charClassMatcher{
-									pos:        position{line: 2771, col: 13, offset: 88416},
+									pos:        position{line: 2786, col: 13, offset: 89482},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -42339,20 +42492,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElements",
-			pos:  position{line: 2024, col: 1, offset: 65305},
+			pos:  position{line: 2031, col: 1, offset: 65790},
 			expr: &actionExpr{
-				pos: position{line: 2025, col: 5, offset: 65343},
+				pos: position{line: 2032, col: 5, offset: 65828},
 				run: (*parser).callonSingleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2025, col: 5, offset: 65343},
+					pos: position{line: 2032, col: 5, offset: 65828},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2025, col: 5, offset: 65343},
+							pos: position{line: 2032, col: 5, offset: 65828},
 							expr: &actionExpr{
-								pos: position{line: 2888, col: 10, offset: 91535},
+								pos: position{line: 2903, col: 10, offset: 92601},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2888, col: 10, offset: 91535},
+									pos:        position{line: 2903, col: 10, offset: 92601},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42361,18 +42514,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2026, col: 5, offset: 65382},
+							pos:   position{line: 2033, col: 5, offset: 65867},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2026, col: 14, offset: 65391},
+								pos: position{line: 2033, col: 14, offset: 65876},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2026, col: 15, offset: 65392},
+									pos:  position{line: 2033, col: 15, offset: 65877},
 									name: "SingleQuoteItalicTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2027, col: 5, offset: 65427},
+							pos: position{line: 2034, col: 5, offset: 65912},
 							run: (*parser).callonSingleQuoteItalicTextElements9,
 						},
 					},
@@ -42381,49 +42534,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElement",
-			pos:  position{line: 2033, col: 1, offset: 65568},
+			pos:  position{line: 2040, col: 1, offset: 66053},
 			expr: &actionExpr{
-				pos: position{line: 2034, col: 5, offset: 65605},
+				pos: position{line: 2041, col: 5, offset: 66090},
 				run: (*parser).callonSingleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2034, col: 5, offset: 65605},
+					pos: position{line: 2041, col: 5, offset: 66090},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2905, col: 11, offset: 91869},
+							pos: position{line: 2920, col: 11, offset: 92935},
 							expr: &anyMatcher{
-								line: 2905, col: 13, offset: 91871,
+								line: 2920, col: 13, offset: 92937,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2035, col: 5, offset: 65616},
+							pos: position{line: 2042, col: 5, offset: 66101},
 							expr: &seqExpr{
-								pos: position{line: 2009, col: 5, offset: 64858},
+								pos: position{line: 2013, col: 5, offset: 65162},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2009, col: 5, offset: 64858},
+										pos:        position{line: 2013, col: 5, offset: 65162},
 										val:        "_",
 										ignoreCase: false,
 										want:       "\"_\"",
 									},
 									&notExpr{
-										pos: position{line: 2010, col: 5, offset: 64867},
+										pos: position{line: 2014, col: 5, offset: 65171},
 										expr: &litMatcher{
-											pos:        position{line: 2010, col: 6, offset: 64868},
+											pos:        position{line: 2014, col: 6, offset: 65172},
 											val:        "_",
 											ignoreCase: false,
 											want:       "\"_\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2011, col: 5, offset: 64933},
+										pos: position{line: 2015, col: 5, offset: 65237},
 										run: (*parser).callonSingleQuoteItalicTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2015, col: 5, offset: 65044},
+										pos: position{line: 2019, col: 5, offset: 65348},
 										expr: &notExpr{
-											pos: position{line: 2015, col: 7, offset: 65046},
+											pos: position{line: 2019, col: 7, offset: 65350},
 											expr: &charClassMatcher{
-												pos:        position{line: 2771, col: 13, offset: 88416},
+												pos:        position{line: 2786, col: 13, offset: 89482},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42435,10 +42588,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2036, col: 5, offset: 65655},
+							pos:   position{line: 2043, col: 5, offset: 66140},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2036, col: 14, offset: 65664},
+								pos:  position{line: 2043, col: 14, offset: 66149},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42448,18 +42601,18 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedItalicText",
-			pos:  position{line: 2041, col: 1, offset: 65752},
+			pos:  position{line: 2048, col: 1, offset: 66237},
 			expr: &choiceExpr{
-				pos: position{line: 2043, col: 5, offset: 65817},
+				pos: position{line: 2050, col: 5, offset: 66302},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2043, col: 5, offset: 65817},
+						pos: position{line: 2050, col: 5, offset: 66302},
 						run: (*parser).callonEscapedItalicText2,
 						expr: &seqExpr{
-							pos: position{line: 2043, col: 5, offset: 65817},
+							pos: position{line: 2050, col: 5, offset: 66302},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2043, col: 5, offset: 65817},
+									pos:   position{line: 2050, col: 5, offset: 66302},
 									label: "backslashes",
 									expr: &actionExpr{
 										pos: position{line: 1859, col: 25, offset: 60232},
@@ -42487,21 +42640,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2043, col: 40, offset: 65852},
+									pos:        position{line: 2050, col: 40, offset: 66337},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2043, col: 45, offset: 65857},
+									pos:   position{line: 2050, col: 45, offset: 66342},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2043, col: 55, offset: 65867},
+										pos:  position{line: 2050, col: 55, offset: 66352},
 										name: "DoubleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2043, col: 86, offset: 65898},
+									pos:        position{line: 2050, col: 86, offset: 66383},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
@@ -42510,13 +42663,13 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2047, col: 7, offset: 66063},
+						pos: position{line: 2054, col: 7, offset: 66548},
 						run: (*parser).callonEscapedItalicText14,
 						expr: &seqExpr{
-							pos: position{line: 2047, col: 7, offset: 66063},
+							pos: position{line: 2054, col: 7, offset: 66548},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2047, col: 7, offset: 66063},
+									pos:   position{line: 2054, col: 7, offset: 66548},
 									label: "backslashes",
 									expr: &actionExpr{
 										pos: position{line: 1855, col: 25, offset: 60159},
@@ -42533,21 +42686,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2047, col: 42, offset: 66098},
+									pos:        position{line: 2054, col: 42, offset: 66583},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2047, col: 47, offset: 66103},
+									pos:   position{line: 2054, col: 47, offset: 66588},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2047, col: 57, offset: 66113},
+										pos:  position{line: 2054, col: 57, offset: 66598},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2047, col: 88, offset: 66144},
+									pos:        position{line: 2054, col: 88, offset: 66629},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -42556,13 +42709,13 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2052, col: 7, offset: 66385},
+						pos: position{line: 2059, col: 7, offset: 66870},
 						run: (*parser).callonEscapedItalicText24,
 						expr: &seqExpr{
-							pos: position{line: 2052, col: 7, offset: 66385},
+							pos: position{line: 2059, col: 7, offset: 66870},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2052, col: 7, offset: 66385},
+									pos:   position{line: 2059, col: 7, offset: 66870},
 									label: "backslashes",
 									expr: &actionExpr{
 										pos: position{line: 1855, col: 25, offset: 60159},
@@ -42579,21 +42732,72 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2052, col: 42, offset: 66420},
+									pos:        position{line: 2059, col: 42, offset: 66905},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
+								&andExpr{
+									pos: position{line: 2059, col: 46, offset: 66909},
+									expr: &seqExpr{
+										pos: position{line: 2022, col: 43, offset: 65506},
+										exprs: []interface{}{
+											&zeroOrMoreExpr{
+												pos: position{line: 2022, col: 43, offset: 65506},
+												expr: &choiceExpr{
+													pos: position{line: 2022, col: 44, offset: 65507},
+													alternatives: []interface{}{
+														&charClassMatcher{
+															pos:        position{line: 2022, col: 44, offset: 65507},
+															val:        "[^_]",
+															chars:      []rune{'_'},
+															ignoreCase: false,
+															inverted:   true,
+														},
+														&seqExpr{
+															pos: position{line: 2022, col: 51, offset: 65514},
+															exprs: []interface{}{
+																&litMatcher{
+																	pos:        position{line: 2022, col: 51, offset: 65514},
+																	val:        "_",
+																	ignoreCase: false,
+																	want:       "\"_\"",
+																},
+																&andExpr{
+																	pos: position{line: 2022, col: 55, offset: 65518},
+																	expr: &charClassMatcher{
+																		pos:        position{line: 2786, col: 13, offset: 89482},
+																		val:        "[_\\pL\\pN]",
+																		chars:      []rune{'_'},
+																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																		ignoreCase: false,
+																		inverted:   false,
+																	},
+																},
+															},
+														},
+													},
+												},
+											},
+											&litMatcher{
+												pos:        position{line: 2022, col: 75, offset: 65538},
+												val:        "_",
+												ignoreCase: false,
+												want:       "\"_\"",
+											},
+										},
+									},
+								},
 								&labeledExpr{
-									pos:   position{line: 2052, col: 46, offset: 66424},
+									pos:   position{line: 2059, col: 88, offset: 66951},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2052, col: 56, offset: 66434},
+										pos:  position{line: 2059, col: 98, offset: 66961},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2052, col: 87, offset: 66465},
+									pos:        position{line: 2059, col: 129, offset: 66992},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -42606,29 +42810,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceText",
-			pos:  position{line: 2069, col: 1, offset: 67029},
+			pos:  position{line: 2076, col: 1, offset: 67556},
 			expr: &actionExpr{
-				pos: position{line: 2070, col: 5, offset: 67062},
+				pos: position{line: 2077, col: 5, offset: 67589},
 				run: (*parser).callonDoubleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2070, col: 5, offset: 67062},
+					pos: position{line: 2077, col: 5, offset: 67589},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2065, col: 43, offset: 66977},
+							pos:        position{line: 2072, col: 43, offset: 67504},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2071, col: 5, offset: 67106},
+							pos:   position{line: 2078, col: 5, offset: 67633},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2071, col: 15, offset: 67116},
+								pos:  position{line: 2078, col: 15, offset: 67643},
 								name: "DoubleQuoteMonospaceTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2067, col: 41, offset: 67023},
+							pos:        position{line: 2074, col: 41, offset: 67550},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
@@ -42639,44 +42843,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElements",
-			pos:  position{line: 2076, col: 1, offset: 67291},
+			pos:  position{line: 2083, col: 1, offset: 67818},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 2076, col: 37, offset: 67327},
+				pos: position{line: 2083, col: 37, offset: 67854},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2076, col: 37, offset: 67327},
+					pos:  position{line: 2083, col: 37, offset: 67854},
 					name: "DoubleQuoteMonospaceTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElement",
-			pos:  position{line: 2078, col: 1, offset: 67394},
+			pos:  position{line: 2085, col: 1, offset: 67921},
 			expr: &actionExpr{
-				pos: position{line: 2079, col: 5, offset: 67434},
+				pos: position{line: 2086, col: 5, offset: 67961},
 				run: (*parser).callonDoubleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2079, col: 5, offset: 67434},
+					pos: position{line: 2086, col: 5, offset: 67961},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2905, col: 11, offset: 91869},
+							pos: position{line: 2920, col: 11, offset: 92935},
 							expr: &anyMatcher{
-								line: 2905, col: 13, offset: 91871,
+								line: 2920, col: 13, offset: 92937,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2080, col: 5, offset: 67445},
+							pos: position{line: 2087, col: 5, offset: 67972},
 							expr: &litMatcher{
-								pos:        position{line: 2067, col: 41, offset: 67023},
+								pos:        position{line: 2074, col: 41, offset: 67550},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2081, col: 5, offset: 67487},
+							pos:   position{line: 2088, col: 5, offset: 68014},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2081, col: 14, offset: 67496},
+								pos:  position{line: 2088, col: 14, offset: 68023},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42686,33 +42890,33 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextEndDelimiter",
-			pos:  position{line: 2099, col: 1, offset: 68038},
+			pos:  position{line: 2107, col: 1, offset: 68614},
 			expr: &seqExpr{
-				pos: position{line: 2100, col: 5, offset: 68083},
+				pos: position{line: 2108, col: 5, offset: 68659},
 				exprs: []interface{}{
 					&notExpr{
-						pos: position{line: 2100, col: 5, offset: 68083},
+						pos: position{line: 2108, col: 5, offset: 68659},
 						expr: &ruleRefExpr{
-							pos:  position{line: 2100, col: 6, offset: 68084},
+							pos:  position{line: 2108, col: 6, offset: 68660},
 							name: "QuotationMark",
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 2101, col: 5, offset: 68103},
+						pos:        position{line: 2109, col: 5, offset: 68679},
 						val:        "`",
 						ignoreCase: false,
 						want:       "\"`\"",
 					},
 					&andCodeExpr{
-						pos: position{line: 2102, col: 5, offset: 68111},
+						pos: position{line: 2110, col: 5, offset: 68687},
 						run: (*parser).callonSingleQuoteMonospaceTextEndDelimiter5,
 					},
 					&andExpr{
-						pos: position{line: 2106, col: 5, offset: 68225},
+						pos: position{line: 2114, col: 5, offset: 68801},
 						expr: &notExpr{
-							pos: position{line: 2106, col: 7, offset: 68227},
+							pos: position{line: 2114, col: 7, offset: 68803},
 							expr: &charClassMatcher{
-								pos:        position{line: 2771, col: 13, offset: 88416},
+								pos:        position{line: 2786, col: 13, offset: 89482},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -42725,45 +42929,95 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceText",
-			pos:  position{line: 2109, col: 1, offset: 68244},
+			pos:  position{line: 2120, col: 1, offset: 68996},
 			expr: &actionExpr{
-				pos: position{line: 2110, col: 5, offset: 68277},
+				pos: position{line: 2121, col: 5, offset: 69029},
 				run: (*parser).callonSingleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2110, col: 5, offset: 68277},
+					pos: position{line: 2121, col: 5, offset: 69029},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2092, col: 5, offset: 67840},
+							pos:        position{line: 2099, col: 5, offset: 68367},
 							val:        "`",
 							ignoreCase: false,
 							want:       "\"`\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2093, col: 5, offset: 67849},
+							pos: position{line: 2100, col: 5, offset: 68376},
 							run: (*parser).callonSingleQuoteMonospaceText4,
 						},
 						&andExpr{
-							pos: position{line: 2097, col: 5, offset: 67972},
+							pos: position{line: 2104, col: 5, offset: 68499},
 							expr: &notExpr{
-								pos: position{line: 2097, col: 7, offset: 67974},
+								pos: position{line: 2104, col: 7, offset: 68501},
 								expr: &litMatcher{
-									pos:        position{line: 2097, col: 8, offset: 67975},
+									pos:        position{line: 2104, col: 8, offset: 68502},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
 								},
 							},
 						},
+						&andExpr{
+							pos: position{line: 2105, col: 5, offset: 68568},
+							expr: &seqExpr{
+								pos: position{line: 2118, col: 46, offset: 68967},
+								exprs: []interface{}{
+									&zeroOrMoreExpr{
+										pos: position{line: 2118, col: 46, offset: 68967},
+										expr: &choiceExpr{
+											pos: position{line: 2118, col: 47, offset: 68968},
+											alternatives: []interface{}{
+												&charClassMatcher{
+													pos:        position{line: 2118, col: 47, offset: 68968},
+													val:        "[^`]",
+													chars:      []rune{'`'},
+													ignoreCase: false,
+													inverted:   true,
+												},
+												&seqExpr{
+													pos: position{line: 2118, col: 54, offset: 68975},
+													exprs: []interface{}{
+														&litMatcher{
+															pos:        position{line: 2118, col: 54, offset: 68975},
+															val:        "`",
+															ignoreCase: false,
+															want:       "\"`\"",
+														},
+														&andExpr{
+															pos: position{line: 2118, col: 58, offset: 68979},
+															expr: &charClassMatcher{
+																pos:        position{line: 2786, col: 13, offset: 89482},
+																val:        "[\\pL\\pN]",
+																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																ignoreCase: false,
+																inverted:   false,
+															},
+														},
+													},
+												},
+											},
+										},
+									},
+									&litMatcher{
+										pos:        position{line: 2118, col: 70, offset: 68991},
+										val:        "`",
+										ignoreCase: false,
+										want:       "\"`\"",
+									},
+								},
+							},
+						},
 						&labeledExpr{
-							pos:   position{line: 2111, col: 5, offset: 68321},
+							pos:   position{line: 2122, col: 5, offset: 69073},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2111, col: 15, offset: 68331},
+								pos:  position{line: 2122, col: 15, offset: 69083},
 								name: "SingleQuoteMonospaceTextElements",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 2112, col: 5, offset: 68370},
+							pos:  position{line: 2123, col: 5, offset: 69122},
 							name: "SingleQuoteMonospaceTextEndDelimiter",
 						},
 					},
@@ -42772,20 +43026,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElements",
-			pos:  position{line: 2116, col: 1, offset: 68507},
+			pos:  position{line: 2127, col: 1, offset: 69259},
 			expr: &actionExpr{
-				pos: position{line: 2117, col: 5, offset: 68548},
+				pos: position{line: 2128, col: 5, offset: 69300},
 				run: (*parser).callonSingleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2117, col: 5, offset: 68548},
+					pos: position{line: 2128, col: 5, offset: 69300},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2117, col: 5, offset: 68548},
+							pos: position{line: 2128, col: 5, offset: 69300},
 							expr: &actionExpr{
-								pos: position{line: 2888, col: 10, offset: 91535},
+								pos: position{line: 2903, col: 10, offset: 92601},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2888, col: 10, offset: 91535},
+									pos:        position{line: 2903, col: 10, offset: 92601},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42794,18 +43048,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2118, col: 5, offset: 68587},
+							pos:   position{line: 2129, col: 5, offset: 69339},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2118, col: 14, offset: 68596},
+								pos: position{line: 2129, col: 14, offset: 69348},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2118, col: 15, offset: 68597},
+									pos:  position{line: 2129, col: 15, offset: 69349},
 									name: "SingleQuoteMonospaceTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2119, col: 5, offset: 68635},
+							pos: position{line: 2130, col: 5, offset: 69387},
 							run: (*parser).callonSingleQuoteMonospaceTextElements9,
 						},
 					},
@@ -42814,31 +43068,31 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElement",
-			pos:  position{line: 2125, col: 1, offset: 68776},
+			pos:  position{line: 2136, col: 1, offset: 69528},
 			expr: &actionExpr{
-				pos: position{line: 2126, col: 5, offset: 68816},
+				pos: position{line: 2137, col: 5, offset: 69568},
 				run: (*parser).callonSingleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2126, col: 5, offset: 68816},
+					pos: position{line: 2137, col: 5, offset: 69568},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2905, col: 11, offset: 91869},
+							pos: position{line: 2920, col: 11, offset: 92935},
 							expr: &anyMatcher{
-								line: 2905, col: 13, offset: 91871,
+								line: 2920, col: 13, offset: 92937,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2127, col: 5, offset: 68827},
+							pos: position{line: 2138, col: 5, offset: 69579},
 							expr: &ruleRefExpr{
-								pos:  position{line: 2127, col: 6, offset: 68828},
+								pos:  position{line: 2138, col: 6, offset: 69580},
 								name: "SingleQuoteMonospaceTextEndDelimiter",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2128, col: 5, offset: 68869},
+							pos:   position{line: 2139, col: 5, offset: 69621},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2128, col: 14, offset: 68878},
+								pos:  position{line: 2139, col: 14, offset: 69630},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42848,18 +43102,18 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMonospaceText",
-			pos:  position{line: 2133, col: 1, offset: 68966},
+			pos:  position{line: 2144, col: 1, offset: 69718},
 			expr: &choiceExpr{
-				pos: position{line: 2135, col: 5, offset: 69037},
+				pos: position{line: 2146, col: 5, offset: 69789},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2135, col: 5, offset: 69037},
+						pos: position{line: 2146, col: 5, offset: 69789},
 						run: (*parser).callonEscapedMonospaceText2,
 						expr: &seqExpr{
-							pos: position{line: 2135, col: 5, offset: 69037},
+							pos: position{line: 2146, col: 5, offset: 69789},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2135, col: 5, offset: 69037},
+									pos:   position{line: 2146, col: 5, offset: 69789},
 									label: "backslashes",
 									expr: &actionExpr{
 										pos: position{line: 1859, col: 25, offset: 60232},
@@ -42887,21 +43141,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2135, col: 40, offset: 69072},
+									pos:        position{line: 2146, col: 40, offset: 69824},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2135, col: 45, offset: 69077},
+									pos:   position{line: 2146, col: 45, offset: 69829},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2135, col: 55, offset: 69087},
+										pos:  position{line: 2146, col: 55, offset: 69839},
 										name: "DoubleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2135, col: 89, offset: 69121},
+									pos:        position{line: 2146, col: 89, offset: 69873},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
@@ -42910,13 +43164,13 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2139, col: 7, offset: 69290},
+						pos: position{line: 2150, col: 7, offset: 70042},
 						run: (*parser).callonEscapedMonospaceText14,
 						expr: &seqExpr{
-							pos: position{line: 2139, col: 7, offset: 69290},
+							pos: position{line: 2150, col: 7, offset: 70042},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2139, col: 7, offset: 69290},
+									pos:   position{line: 2150, col: 7, offset: 70042},
 									label: "backslashes",
 									expr: &actionExpr{
 										pos: position{line: 1855, col: 25, offset: 60159},
@@ -42933,21 +43187,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2139, col: 42, offset: 69325},
+									pos:        position{line: 2150, col: 42, offset: 70077},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2139, col: 47, offset: 69330},
+									pos:   position{line: 2150, col: 47, offset: 70082},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2139, col: 57, offset: 69340},
+										pos:  position{line: 2150, col: 57, offset: 70092},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2139, col: 91, offset: 69374},
+									pos:        position{line: 2150, col: 91, offset: 70126},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42956,13 +43210,13 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2144, col: 7, offset: 69580},
+						pos: position{line: 2155, col: 7, offset: 70332},
 						run: (*parser).callonEscapedMonospaceText24,
 						expr: &seqExpr{
-							pos: position{line: 2144, col: 7, offset: 69580},
+							pos: position{line: 2155, col: 7, offset: 70332},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2144, col: 7, offset: 69580},
+									pos:   position{line: 2155, col: 7, offset: 70332},
 									label: "backslashes",
 									expr: &actionExpr{
 										pos: position{line: 1855, col: 25, offset: 60159},
@@ -42979,21 +43233,71 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2144, col: 42, offset: 69615},
+									pos:        position{line: 2155, col: 42, offset: 70367},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
 								},
+								&andExpr{
+									pos: position{line: 2155, col: 46, offset: 70371},
+									expr: &seqExpr{
+										pos: position{line: 2118, col: 46, offset: 68967},
+										exprs: []interface{}{
+											&zeroOrMoreExpr{
+												pos: position{line: 2118, col: 46, offset: 68967},
+												expr: &choiceExpr{
+													pos: position{line: 2118, col: 47, offset: 68968},
+													alternatives: []interface{}{
+														&charClassMatcher{
+															pos:        position{line: 2118, col: 47, offset: 68968},
+															val:        "[^`]",
+															chars:      []rune{'`'},
+															ignoreCase: false,
+															inverted:   true,
+														},
+														&seqExpr{
+															pos: position{line: 2118, col: 54, offset: 68975},
+															exprs: []interface{}{
+																&litMatcher{
+																	pos:        position{line: 2118, col: 54, offset: 68975},
+																	val:        "`",
+																	ignoreCase: false,
+																	want:       "\"`\"",
+																},
+																&andExpr{
+																	pos: position{line: 2118, col: 58, offset: 68979},
+																	expr: &charClassMatcher{
+																		pos:        position{line: 2786, col: 13, offset: 89482},
+																		val:        "[\\pL\\pN]",
+																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																		ignoreCase: false,
+																		inverted:   false,
+																	},
+																},
+															},
+														},
+													},
+												},
+											},
+											&litMatcher{
+												pos:        position{line: 2118, col: 70, offset: 68991},
+												val:        "`",
+												ignoreCase: false,
+												want:       "\"`\"",
+											},
+										},
+									},
+								},
 								&labeledExpr{
-									pos:   position{line: 2144, col: 46, offset: 69619},
+									pos:   position{line: 2155, col: 91, offset: 70416},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2144, col: 56, offset: 69629},
+										pos:  position{line: 2155, col: 101, offset: 70426},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2144, col: 90, offset: 69663},
+									pos:        position{line: 2155, col: 135, offset: 70460},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -43006,29 +43310,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedText",
-			pos:  position{line: 2161, col: 1, offset: 70148},
+			pos:  position{line: 2172, col: 1, offset: 70945},
 			expr: &actionExpr{
-				pos: position{line: 2162, col: 5, offset: 70178},
+				pos: position{line: 2173, col: 5, offset: 70975},
 				run: (*parser).callonDoubleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2162, col: 5, offset: 70178},
+					pos: position{line: 2173, col: 5, offset: 70975},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2157, col: 40, offset: 70099},
+							pos:        position{line: 2168, col: 40, offset: 70896},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2163, col: 5, offset: 70219},
+							pos:   position{line: 2174, col: 5, offset: 71016},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2163, col: 15, offset: 70229},
+								pos:  position{line: 2174, col: 15, offset: 71026},
 								name: "DoubleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2159, col: 38, offset: 70142},
+							pos:        position{line: 2170, col: 38, offset: 70939},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
@@ -43039,44 +43343,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElements",
-			pos:  position{line: 2168, col: 1, offset: 70395},
+			pos:  position{line: 2179, col: 1, offset: 71192},
 			expr: &zeroOrMoreExpr{
-				pos: position{line: 2168, col: 34, offset: 70428},
+				pos: position{line: 2179, col: 34, offset: 71225},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2168, col: 34, offset: 70428},
+					pos:  position{line: 2179, col: 34, offset: 71225},
 					name: "DoubleQuoteMarkedTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMarkedTextElement",
-			pos:  position{line: 2170, col: 1, offset: 70459},
+			pos:  position{line: 2181, col: 1, offset: 71256},
 			expr: &actionExpr{
-				pos: position{line: 2171, col: 5, offset: 70528},
+				pos: position{line: 2182, col: 5, offset: 71325},
 				run: (*parser).callonDoubleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2171, col: 5, offset: 70528},
+					pos: position{line: 2182, col: 5, offset: 71325},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2905, col: 11, offset: 91869},
+							pos: position{line: 2920, col: 11, offset: 92935},
 							expr: &anyMatcher{
-								line: 2905, col: 13, offset: 91871,
+								line: 2920, col: 13, offset: 92937,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2172, col: 5, offset: 70539},
+							pos: position{line: 2183, col: 5, offset: 71336},
 							expr: &litMatcher{
-								pos:        position{line: 2159, col: 38, offset: 70142},
+								pos:        position{line: 2170, col: 38, offset: 70939},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2173, col: 5, offset: 70578},
+							pos:   position{line: 2184, col: 5, offset: 71375},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2173, col: 14, offset: 70587},
+								pos:  position{line: 2184, col: 14, offset: 71384},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43086,68 +43390,119 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedText",
-			pos:  position{line: 2198, col: 1, offset: 71269},
+			pos:  position{line: 2213, col: 1, offset: 72293},
 			expr: &actionExpr{
-				pos: position{line: 2199, col: 5, offset: 71299},
+				pos: position{line: 2214, col: 5, offset: 72323},
 				run: (*parser).callonSingleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2199, col: 5, offset: 71299},
+					pos: position{line: 2214, col: 5, offset: 72323},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2182, col: 5, offset: 70835},
+							pos:        position{line: 2193, col: 5, offset: 71632},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2183, col: 5, offset: 70844},
+							pos: position{line: 2194, col: 5, offset: 71641},
 							run: (*parser).callonSingleQuoteMarkedText4,
 						},
 						&andExpr{
-							pos: position{line: 2187, col: 5, offset: 70964},
+							pos: position{line: 2198, col: 5, offset: 71761},
 							expr: &notExpr{
-								pos: position{line: 2187, col: 7, offset: 70966},
+								pos: position{line: 2198, col: 7, offset: 71763},
 								expr: &litMatcher{
-									pos:        position{line: 2187, col: 8, offset: 70967},
+									pos:        position{line: 2198, col: 8, offset: 71764},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
 								},
 							},
 						},
+						&andExpr{
+							pos: position{line: 2199, col: 5, offset: 71830},
+							expr: &seqExpr{
+								pos: position{line: 2211, col: 43, offset: 72256},
+								exprs: []interface{}{
+									&zeroOrMoreExpr{
+										pos: position{line: 2211, col: 43, offset: 72256},
+										expr: &choiceExpr{
+											pos: position{line: 2211, col: 44, offset: 72257},
+											alternatives: []interface{}{
+												&charClassMatcher{
+													pos:        position{line: 2211, col: 44, offset: 72257},
+													val:        "[^#]",
+													chars:      []rune{'#'},
+													ignoreCase: false,
+													inverted:   true,
+												},
+												&seqExpr{
+													pos: position{line: 2211, col: 51, offset: 72264},
+													exprs: []interface{}{
+														&litMatcher{
+															pos:        position{line: 2211, col: 51, offset: 72264},
+															val:        "#",
+															ignoreCase: false,
+															want:       "\"#\"",
+														},
+														&andExpr{
+															pos: position{line: 2211, col: 55, offset: 72268},
+															expr: &charClassMatcher{
+																pos:        position{line: 2786, col: 13, offset: 89482},
+																val:        "[#\\pL\\pN]",
+																chars:      []rune{'#'},
+																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																ignoreCase: false,
+																inverted:   false,
+															},
+														},
+													},
+												},
+											},
+										},
+									},
+									&litMatcher{
+										pos:        position{line: 2211, col: 75, offset: 72288},
+										val:        "#",
+										ignoreCase: false,
+										want:       "\"#\"",
+									},
+								},
+							},
+						},
 						&labeledExpr{
-							pos:   position{line: 2200, col: 5, offset: 71339},
+							pos:   position{line: 2215, col: 5, offset: 72363},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2200, col: 15, offset: 71349},
+								pos:  position{line: 2215, col: 15, offset: 72373},
 								name: "SingleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2190, col: 5, offset: 71072},
+							pos:        position{line: 2202, col: 5, offset: 71915},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&notExpr{
-							pos: position{line: 2191, col: 5, offset: 71080},
+							pos: position{line: 2203, col: 5, offset: 71923},
 							expr: &litMatcher{
-								pos:        position{line: 2191, col: 6, offset: 71081},
+								pos:        position{line: 2203, col: 6, offset: 71924},
 								val:        "#",
 								ignoreCase: false,
 								want:       "\"#\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2192, col: 5, offset: 71144},
-							run: (*parser).callonSingleQuoteMarkedText13,
+							pos: position{line: 2204, col: 5, offset: 71987},
+							run: (*parser).callonSingleQuoteMarkedText23,
 						},
 						&andExpr{
-							pos: position{line: 2196, col: 5, offset: 71255},
+							pos: position{line: 2208, col: 5, offset: 72098},
 							expr: &notExpr{
-								pos: position{line: 2196, col: 7, offset: 71257},
+								pos: position{line: 2208, col: 7, offset: 72100},
 								expr: &charClassMatcher{
-									pos:        position{line: 2771, col: 13, offset: 88416},
+									pos:        position{line: 2786, col: 13, offset: 89482},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -43161,20 +43516,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElements",
-			pos:  position{line: 2205, col: 1, offset: 71516},
+			pos:  position{line: 2220, col: 1, offset: 72540},
 			expr: &actionExpr{
-				pos: position{line: 2206, col: 5, offset: 71554},
+				pos: position{line: 2221, col: 5, offset: 72578},
 				run: (*parser).callonSingleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2206, col: 5, offset: 71554},
+					pos: position{line: 2221, col: 5, offset: 72578},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2206, col: 5, offset: 71554},
+							pos: position{line: 2221, col: 5, offset: 72578},
 							expr: &actionExpr{
-								pos: position{line: 2888, col: 10, offset: 91535},
+								pos: position{line: 2903, col: 10, offset: 92601},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2888, col: 10, offset: 91535},
+									pos:        position{line: 2903, col: 10, offset: 92601},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43183,18 +43538,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2207, col: 5, offset: 71593},
+							pos:   position{line: 2222, col: 5, offset: 72617},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2207, col: 14, offset: 71602},
+								pos: position{line: 2222, col: 14, offset: 72626},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2207, col: 15, offset: 71603},
+									pos:  position{line: 2222, col: 15, offset: 72627},
 									name: "SingleQuoteMarkedTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2208, col: 5, offset: 71639},
+							pos: position{line: 2223, col: 5, offset: 72663},
 							run: (*parser).callonSingleQuoteMarkedTextElements9,
 						},
 					},
@@ -43203,49 +43558,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElement",
-			pos:  position{line: 2214, col: 1, offset: 71780},
+			pos:  position{line: 2229, col: 1, offset: 72804},
 			expr: &actionExpr{
-				pos: position{line: 2215, col: 5, offset: 71817},
+				pos: position{line: 2230, col: 5, offset: 72841},
 				run: (*parser).callonSingleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2215, col: 5, offset: 71817},
+					pos: position{line: 2230, col: 5, offset: 72841},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2905, col: 11, offset: 91869},
+							pos: position{line: 2920, col: 11, offset: 92935},
 							expr: &anyMatcher{
-								line: 2905, col: 13, offset: 91871,
+								line: 2920, col: 13, offset: 92937,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2216, col: 5, offset: 71828},
+							pos: position{line: 2231, col: 5, offset: 72852},
 							expr: &seqExpr{
-								pos: position{line: 2190, col: 5, offset: 71072},
+								pos: position{line: 2202, col: 5, offset: 71915},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2190, col: 5, offset: 71072},
+										pos:        position{line: 2202, col: 5, offset: 71915},
 										val:        "#",
 										ignoreCase: false,
 										want:       "\"#\"",
 									},
 									&notExpr{
-										pos: position{line: 2191, col: 5, offset: 71080},
+										pos: position{line: 2203, col: 5, offset: 71923},
 										expr: &litMatcher{
-											pos:        position{line: 2191, col: 6, offset: 71081},
+											pos:        position{line: 2203, col: 6, offset: 71924},
 											val:        "#",
 											ignoreCase: false,
 											want:       "\"#\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2192, col: 5, offset: 71144},
+										pos: position{line: 2204, col: 5, offset: 71987},
 										run: (*parser).callonSingleQuoteMarkedTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2196, col: 5, offset: 71255},
+										pos: position{line: 2208, col: 5, offset: 72098},
 										expr: &notExpr{
-											pos: position{line: 2196, col: 7, offset: 71257},
+											pos: position{line: 2208, col: 7, offset: 72100},
 											expr: &charClassMatcher{
-												pos:        position{line: 2771, col: 13, offset: 88416},
+												pos:        position{line: 2786, col: 13, offset: 89482},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -43257,10 +43612,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2217, col: 5, offset: 71867},
+							pos:   position{line: 2232, col: 5, offset: 72891},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2217, col: 14, offset: 71876},
+								pos:  position{line: 2232, col: 14, offset: 72900},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43270,18 +43625,18 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMarkedText",
-			pos:  position{line: 2222, col: 1, offset: 71964},
+			pos:  position{line: 2237, col: 1, offset: 72988},
 			expr: &choiceExpr{
-				pos: position{line: 2224, col: 5, offset: 72028},
+				pos: position{line: 2239, col: 5, offset: 73052},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2224, col: 5, offset: 72028},
+						pos: position{line: 2239, col: 5, offset: 73052},
 						run: (*parser).callonEscapedMarkedText2,
 						expr: &seqExpr{
-							pos: position{line: 2224, col: 5, offset: 72028},
+							pos: position{line: 2239, col: 5, offset: 73052},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2224, col: 5, offset: 72028},
+									pos:   position{line: 2239, col: 5, offset: 73052},
 									label: "backslashes",
 									expr: &actionExpr{
 										pos: position{line: 1859, col: 25, offset: 60232},
@@ -43309,21 +43664,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2224, col: 40, offset: 72063},
+									pos:        position{line: 2239, col: 40, offset: 73087},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2224, col: 45, offset: 72068},
+									pos:   position{line: 2239, col: 45, offset: 73092},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2224, col: 55, offset: 72078},
+										pos:  position{line: 2239, col: 55, offset: 73102},
 										name: "DoubleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2224, col: 86, offset: 72109},
+									pos:        position{line: 2239, col: 86, offset: 73133},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
@@ -43332,13 +43687,13 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2228, col: 7, offset: 72274},
+						pos: position{line: 2243, col: 7, offset: 73298},
 						run: (*parser).callonEscapedMarkedText14,
 						expr: &seqExpr{
-							pos: position{line: 2228, col: 7, offset: 72274},
+							pos: position{line: 2243, col: 7, offset: 73298},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2228, col: 7, offset: 72274},
+									pos:   position{line: 2243, col: 7, offset: 73298},
 									label: "backslashes",
 									expr: &actionExpr{
 										pos: position{line: 1855, col: 25, offset: 60159},
@@ -43355,21 +43710,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2228, col: 42, offset: 72309},
+									pos:        position{line: 2243, col: 42, offset: 73333},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2228, col: 47, offset: 72314},
+									pos:   position{line: 2243, col: 47, offset: 73338},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2228, col: 57, offset: 72324},
+										pos:  position{line: 2243, col: 57, offset: 73348},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2228, col: 88, offset: 72355},
+									pos:        position{line: 2243, col: 88, offset: 73379},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -43378,13 +43733,13 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2233, col: 7, offset: 72558},
+						pos: position{line: 2248, col: 7, offset: 73582},
 						run: (*parser).callonEscapedMarkedText24,
 						expr: &seqExpr{
-							pos: position{line: 2233, col: 7, offset: 72558},
+							pos: position{line: 2248, col: 7, offset: 73582},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2233, col: 7, offset: 72558},
+									pos:   position{line: 2248, col: 7, offset: 73582},
 									label: "backslashes",
 									expr: &actionExpr{
 										pos: position{line: 1855, col: 25, offset: 60159},
@@ -43401,21 +43756,72 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2233, col: 42, offset: 72593},
+									pos:        position{line: 2248, col: 42, offset: 73617},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
 								},
+								&andExpr{
+									pos: position{line: 2248, col: 46, offset: 73621},
+									expr: &seqExpr{
+										pos: position{line: 2211, col: 43, offset: 72256},
+										exprs: []interface{}{
+											&zeroOrMoreExpr{
+												pos: position{line: 2211, col: 43, offset: 72256},
+												expr: &choiceExpr{
+													pos: position{line: 2211, col: 44, offset: 72257},
+													alternatives: []interface{}{
+														&charClassMatcher{
+															pos:        position{line: 2211, col: 44, offset: 72257},
+															val:        "[^#]",
+															chars:      []rune{'#'},
+															ignoreCase: false,
+															inverted:   true,
+														},
+														&seqExpr{
+															pos: position{line: 2211, col: 51, offset: 72264},
+															exprs: []interface{}{
+																&litMatcher{
+																	pos:        position{line: 2211, col: 51, offset: 72264},
+																	val:        "#",
+																	ignoreCase: false,
+																	want:       "\"#\"",
+																},
+																&andExpr{
+																	pos: position{line: 2211, col: 55, offset: 72268},
+																	expr: &charClassMatcher{
+																		pos:        position{line: 2786, col: 13, offset: 89482},
+																		val:        "[#\\pL\\pN]",
+																		chars:      []rune{'#'},
+																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																		ignoreCase: false,
+																		inverted:   false,
+																	},
+																},
+															},
+														},
+													},
+												},
+											},
+											&litMatcher{
+												pos:        position{line: 2211, col: 75, offset: 72288},
+												val:        "#",
+												ignoreCase: false,
+												want:       "\"#\"",
+											},
+										},
+									},
+								},
 								&labeledExpr{
-									pos:   position{line: 2233, col: 46, offset: 72597},
+									pos:   position{line: 2248, col: 88, offset: 73663},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2233, col: 56, offset: 72607},
+										pos:  position{line: 2248, col: 98, offset: 73673},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2233, col: 87, offset: 72638},
+									pos:        position{line: 2248, col: 129, offset: 73704},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -43428,29 +43834,29 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptText",
-			pos:  position{line: 2240, col: 1, offset: 72905},
+			pos:  position{line: 2255, col: 1, offset: 73971},
 			expr: &actionExpr{
-				pos: position{line: 2241, col: 5, offset: 72927},
+				pos: position{line: 2256, col: 5, offset: 73993},
 				run: (*parser).callonSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2241, col: 5, offset: 72927},
+					pos: position{line: 2256, col: 5, offset: 73993},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2247, col: 27, offset: 73142},
+							pos:        position{line: 2262, col: 27, offset: 74208},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2242, col: 5, offset: 72954},
+							pos:   position{line: 2257, col: 5, offset: 74020},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2242, col: 14, offset: 72963},
+								pos:  position{line: 2257, col: 14, offset: 74029},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2247, col: 27, offset: 73142},
+							pos:        position{line: 2262, col: 27, offset: 74208},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -43461,43 +43867,43 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptTextElement",
-			pos:  position{line: 2249, col: 1, offset: 73147},
+			pos:  position{line: 2264, col: 1, offset: 74213},
 			expr: &choiceExpr{
-				pos: position{line: 2249, col: 25, offset: 73171},
+				pos: position{line: 2264, col: 25, offset: 74237},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2249, col: 25, offset: 73171},
+						pos:  position{line: 2264, col: 25, offset: 74237},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2251, col: 21, offset: 73223},
+						pos: position{line: 2266, col: 21, offset: 74289},
 						run: (*parser).callonSubscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2251, col: 21, offset: 73223},
+							pos:   position{line: 2266, col: 21, offset: 74289},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2251, col: 30, offset: 73232},
+								pos: position{line: 2266, col: 30, offset: 74298},
 								expr: &choiceExpr{
-									pos: position{line: 2251, col: 31, offset: 73233},
+									pos: position{line: 2266, col: 31, offset: 74299},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2475, col: 5, offset: 79774},
+											pos: position{line: 2490, col: 5, offset: 80840},
 											run: (*parser).callonSubscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2475, col: 5, offset: 79774},
+												pos: position{line: 2490, col: 5, offset: 80840},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2475, col: 5, offset: 79774},
+														pos: position{line: 2490, col: 5, offset: 80840},
 														run: (*parser).callonSubscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2478, col: 5, offset: 79850},
+														pos:   position{line: 2493, col: 5, offset: 80916},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2479, col: 9, offset: 79868},
+															pos: position{line: 2494, col: 9, offset: 80934},
 															run: (*parser).callonSubscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2479, col: 10, offset: 79869},
+																pos:        position{line: 2494, col: 10, offset: 80935},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -43509,7 +43915,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2251, col: 50, offset: 73252},
+											pos:        position{line: 2266, col: 50, offset: 74318},
 											val:        "[^\\r\\n ~]",
 											chars:      []rune{'\r', '\n', ' ', '~'},
 											ignoreCase: false,
@@ -43525,15 +43931,15 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2255, col: 1, offset: 73302},
+			pos:  position{line: 2270, col: 1, offset: 74368},
 			expr: &actionExpr{
-				pos: position{line: 2257, col: 5, offset: 73369},
+				pos: position{line: 2272, col: 5, offset: 74435},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2257, col: 5, offset: 73369},
+					pos: position{line: 2272, col: 5, offset: 74435},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2257, col: 5, offset: 73369},
+							pos:   position{line: 2272, col: 5, offset: 74435},
 							label: "backslashes",
 							expr: &actionExpr{
 								pos: position{line: 1855, col: 25, offset: 60159},
@@ -43550,21 +43956,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2247, col: 27, offset: 73142},
+							pos:        position{line: 2262, col: 27, offset: 74208},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2259, col: 5, offset: 73437},
+							pos:   position{line: 2274, col: 5, offset: 74503},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2259, col: 14, offset: 73446},
+								pos:  position{line: 2274, col: 14, offset: 74512},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2247, col: 27, offset: 73142},
+							pos:        position{line: 2262, col: 27, offset: 74208},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -43575,29 +43981,29 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2267, col: 1, offset: 73709},
+			pos:  position{line: 2282, col: 1, offset: 74775},
 			expr: &actionExpr{
-				pos: position{line: 2268, col: 5, offset: 73733},
+				pos: position{line: 2283, col: 5, offset: 74799},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2268, col: 5, offset: 73733},
+					pos: position{line: 2283, col: 5, offset: 74799},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2274, col: 29, offset: 73960},
+							pos:        position{line: 2289, col: 29, offset: 75026},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2269, col: 5, offset: 73763},
+							pos:   position{line: 2284, col: 5, offset: 74829},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2269, col: 14, offset: 73772},
+								pos:  position{line: 2284, col: 14, offset: 74838},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2274, col: 29, offset: 73960},
+							pos:        position{line: 2289, col: 29, offset: 75026},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -43608,43 +44014,43 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2276, col: 1, offset: 73965},
+			pos:  position{line: 2291, col: 1, offset: 75031},
 			expr: &choiceExpr{
-				pos: position{line: 2276, col: 27, offset: 73991},
+				pos: position{line: 2291, col: 27, offset: 75057},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2276, col: 27, offset: 73991},
+						pos:  position{line: 2291, col: 27, offset: 75057},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2278, col: 23, offset: 74047},
+						pos: position{line: 2293, col: 23, offset: 75113},
 						run: (*parser).callonSuperscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2278, col: 23, offset: 74047},
+							pos:   position{line: 2293, col: 23, offset: 75113},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2278, col: 32, offset: 74056},
+								pos: position{line: 2293, col: 32, offset: 75122},
 								expr: &choiceExpr{
-									pos: position{line: 2278, col: 33, offset: 74057},
+									pos: position{line: 2293, col: 33, offset: 75123},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2475, col: 5, offset: 79774},
+											pos: position{line: 2490, col: 5, offset: 80840},
 											run: (*parser).callonSuperscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2475, col: 5, offset: 79774},
+												pos: position{line: 2490, col: 5, offset: 80840},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2475, col: 5, offset: 79774},
+														pos: position{line: 2490, col: 5, offset: 80840},
 														run: (*parser).callonSuperscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2478, col: 5, offset: 79850},
+														pos:   position{line: 2493, col: 5, offset: 80916},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2479, col: 9, offset: 79868},
+															pos: position{line: 2494, col: 9, offset: 80934},
 															run: (*parser).callonSuperscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2479, col: 10, offset: 79869},
+																pos:        position{line: 2494, col: 10, offset: 80935},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -43656,7 +44062,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2278, col: 52, offset: 74076},
+											pos:        position{line: 2293, col: 52, offset: 75142},
 											val:        "[^\\r\\n ^]",
 											chars:      []rune{'\r', '\n', ' ', '^'},
 											ignoreCase: false,
@@ -43672,15 +44078,15 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2282, col: 1, offset: 74126},
+			pos:  position{line: 2297, col: 1, offset: 75192},
 			expr: &actionExpr{
-				pos: position{line: 2284, col: 5, offset: 74198},
+				pos: position{line: 2299, col: 5, offset: 75264},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2284, col: 5, offset: 74198},
+					pos: position{line: 2299, col: 5, offset: 75264},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2284, col: 5, offset: 74198},
+							pos:   position{line: 2299, col: 5, offset: 75264},
 							label: "backslashes",
 							expr: &actionExpr{
 								pos: position{line: 1855, col: 25, offset: 60159},
@@ -43697,21 +44103,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2274, col: 29, offset: 73960},
+							pos:        position{line: 2289, col: 29, offset: 75026},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2286, col: 5, offset: 74268},
+							pos:   position{line: 2301, col: 5, offset: 75334},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2286, col: 14, offset: 74277},
+								pos:  position{line: 2301, col: 14, offset: 75343},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2274, col: 29, offset: 73960},
+							pos:        position{line: 2289, col: 29, offset: 75026},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -43722,27 +44128,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2295, col: 1, offset: 74746},
+			pos:  position{line: 2310, col: 1, offset: 75812},
 			expr: &actionExpr{
-				pos: position{line: 2296, col: 5, offset: 74762},
+				pos: position{line: 2311, col: 5, offset: 75828},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2296, col: 5, offset: 74762},
+					pos: position{line: 2311, col: 5, offset: 75828},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2296, col: 5, offset: 74762},
+							pos: position{line: 2311, col: 5, offset: 75828},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2299, col: 5, offset: 74825},
+							pos:   position{line: 2314, col: 5, offset: 75891},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2299, col: 12, offset: 74832},
+								pos: position{line: 2314, col: 12, offset: 75898},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2299, col: 12, offset: 74832},
+									pos: position{line: 2314, col: 12, offset: 75898},
 									expr: &litMatcher{
-										pos:        position{line: 2299, col: 13, offset: 74833},
+										pos:        position{line: 2314, col: 13, offset: 75899},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -43751,16 +44157,16 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2303, col: 5, offset: 74941},
+							pos: position{line: 2318, col: 5, offset: 76007},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2892, col: 11, offset: 91596},
+							pos: position{line: 2907, col: 11, offset: 92662},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2892, col: 11, offset: 91596},
+								pos: position{line: 2907, col: 11, offset: 92662},
 								expr: &charClassMatcher{
-									pos:        position{line: 2892, col: 11, offset: 91596},
+									pos:        position{line: 2907, col: 11, offset: 92662},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43769,36 +44175,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2307, col: 12, offset: 75100},
+							pos:   position{line: 2322, col: 12, offset: 76166},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2307, col: 19, offset: 75107},
+								pos:  position{line: 2322, col: 19, offset: 76173},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2910, col: 8, offset: 91933},
+							pos: position{line: 2925, col: 8, offset: 92999},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2897, col: 12, offset: 91706},
+									pos: position{line: 2912, col: 12, offset: 92772},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2897, col: 13, offset: 91707},
+										pos: position{line: 2912, col: 13, offset: 92773},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2897, col: 13, offset: 91707},
+												pos:        position{line: 2912, col: 13, offset: 92773},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2897, col: 20, offset: 91714},
+												pos:        position{line: 2912, col: 20, offset: 92780},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2897, col: 29, offset: 91723},
+												pos:        position{line: 2912, col: 29, offset: 92789},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -43807,9 +44213,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2907, col: 8, offset: 91883},
+									pos: position{line: 2922, col: 8, offset: 92949},
 									expr: &anyMatcher{
-										line: 2907, col: 9, offset: 91884,
+										line: 2922, col: 9, offset: 92950,
 									},
 								},
 							},
@@ -43820,24 +44226,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2311, col: 1, offset: 75203},
+			pos:  position{line: 2326, col: 1, offset: 76269},
 			expr: &actionExpr{
-				pos: position{line: 2312, col: 5, offset: 75224},
+				pos: position{line: 2327, col: 5, offset: 76290},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2312, col: 5, offset: 75224},
+					pos: position{line: 2327, col: 5, offset: 76290},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2312, col: 5, offset: 75224},
+							pos: position{line: 2327, col: 5, offset: 76290},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2319, col: 5, offset: 75410},
+							pos:   position{line: 2334, col: 5, offset: 76476},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2319, col: 14, offset: 75419},
+								pos: position{line: 2334, col: 14, offset: 76485},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2319, col: 15, offset: 75420},
+									pos:  position{line: 2334, col: 15, offset: 76486},
 									name: "SectionTitleElement",
 								},
 							},
@@ -43848,38 +44254,38 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2323, col: 1, offset: 75501},
+			pos:  position{line: 2338, col: 1, offset: 76567},
 			expr: &actionExpr{
-				pos: position{line: 2324, col: 5, offset: 75528},
+				pos: position{line: 2339, col: 5, offset: 76594},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2324, col: 5, offset: 75528},
+					pos: position{line: 2339, col: 5, offset: 76594},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2324, col: 5, offset: 75528},
+							pos: position{line: 2339, col: 5, offset: 76594},
 							expr: &choiceExpr{
-								pos: position{line: 2910, col: 8, offset: 91933},
+								pos: position{line: 2925, col: 8, offset: 92999},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2897, col: 12, offset: 91706},
+										pos: position{line: 2912, col: 12, offset: 92772},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2897, col: 13, offset: 91707},
+											pos: position{line: 2912, col: 13, offset: 92773},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2897, col: 13, offset: 91707},
+													pos:        position{line: 2912, col: 13, offset: 92773},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2897, col: 20, offset: 91714},
+													pos:        position{line: 2912, col: 20, offset: 92780},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2897, col: 29, offset: 91723},
+													pos:        position{line: 2912, col: 29, offset: 92789},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -43888,29 +44294,29 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2907, col: 8, offset: 91883},
+										pos: position{line: 2922, col: 8, offset: 92949},
 										expr: &anyMatcher{
-											line: 2907, col: 9, offset: 91884,
+											line: 2922, col: 9, offset: 92950,
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2325, col: 5, offset: 75537},
+							pos:   position{line: 2340, col: 5, offset: 76603},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2325, col: 14, offset: 75546},
+								pos: position{line: 2340, col: 14, offset: 76612},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2325, col: 14, offset: 75546},
+										pos:  position{line: 2340, col: 14, offset: 76612},
 										name: "SectionTitleLineElement",
 									},
 									&actionExpr{
-										pos: position{line: 2827, col: 12, offset: 89843},
+										pos: position{line: 2842, col: 12, offset: 90909},
 										run: (*parser).callonSectionTitleElement15,
 										expr: &charClassMatcher{
-											pos:        position{line: 2827, col: 12, offset: 89843},
+											pos:        position{line: 2842, col: 12, offset: 90909},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -43926,21 +44332,21 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleLineElement",
-			pos:  position{line: 2330, col: 1, offset: 75650},
+			pos:  position{line: 2345, col: 1, offset: 76716},
 			expr: &actionExpr{
-				pos: position{line: 2331, col: 5, offset: 75681},
+				pos: position{line: 2346, col: 5, offset: 76747},
 				run: (*parser).callonSectionTitleLineElement1,
 				expr: &seqExpr{
-					pos: position{line: 2331, col: 5, offset: 75681},
+					pos: position{line: 2346, col: 5, offset: 76747},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2331, col: 5, offset: 75681},
+							pos:   position{line: 2346, col: 5, offset: 76747},
 							label: "start",
 							expr: &actionExpr{
-								pos: position{line: 2913, col: 16, offset: 92057},
+								pos: position{line: 2928, col: 16, offset: 93123},
 								run: (*parser).callonSectionTitleLineElement4,
 								expr: &litMatcher{
-									pos:        position{line: 2913, col: 16, offset: 92057},
+									pos:        position{line: 2928, col: 16, offset: 93123},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -43948,32 +44354,32 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2332, col: 5, offset: 75705},
+							pos:   position{line: 2347, col: 5, offset: 76771},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2333, col: 9, offset: 75723},
+								pos: position{line: 2348, col: 9, offset: 76789},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2780, col: 5, offset: 88563},
+										pos: position{line: 2795, col: 5, offset: 89629},
 										run: (*parser).callonSectionTitleLineElement8,
 										expr: &seqExpr{
-											pos: position{line: 2780, col: 5, offset: 88563},
+											pos: position{line: 2795, col: 5, offset: 89629},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2780, col: 5, offset: 88563},
+													pos: position{line: 2795, col: 5, offset: 89629},
 													expr: &seqExpr{
-														pos: position{line: 2781, col: 9, offset: 88574},
+														pos: position{line: 2796, col: 9, offset: 89640},
 														exprs: []interface{}{
 															&labeledExpr{
-																pos:   position{line: 2781, col: 9, offset: 88574},
+																pos:   position{line: 2796, col: 9, offset: 89640},
 																label: "name",
 																expr: &actionExpr{
-																	pos: position{line: 2760, col: 18, offset: 88080},
+																	pos: position{line: 2775, col: 18, offset: 89146},
 																	run: (*parser).callonSectionTitleLineElement13,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2760, col: 19, offset: 88081},
+																		pos: position{line: 2775, col: 19, offset: 89147},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2760, col: 19, offset: 88081},
+																			pos:        position{line: 2775, col: 19, offset: 89147},
 																			val:        "[_-\\pL\\pN]",
 																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -43984,28 +44390,28 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2782, col: 9, offset: 88667},
+																pos:        position{line: 2797, col: 9, offset: 89733},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2783, col: 9, offset: 88679},
+																pos: position{line: 2798, col: 9, offset: 89745},
 																run: (*parser).callonSectionTitleLineElement17,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2787, col: 5, offset: 88756},
+													pos:   position{line: 2802, col: 5, offset: 89822},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2787, col: 11, offset: 88762},
+														pos: position{line: 2802, col: 11, offset: 89828},
 														run: (*parser).callonSectionTitleLineElement19,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2787, col: 11, offset: 88762},
+															pos: position{line: 2802, col: 11, offset: 89828},
 															expr: &charClassMatcher{
-																pos:        position{line: 2787, col: 11, offset: 88762},
+																pos:        position{line: 2802, col: 11, offset: 89828},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -44015,44 +44421,44 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2790, col: 5, offset: 88820},
+													pos: position{line: 2805, col: 5, offset: 89886},
 													expr: &seqExpr{
-														pos: position{line: 2791, col: 9, offset: 88831},
+														pos: position{line: 2806, col: 9, offset: 89897},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2791, col: 9, offset: 88831},
+																pos:        position{line: 2806, col: 9, offset: 89897},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2792, col: 9, offset: 88880},
+																pos: position{line: 2807, col: 9, offset: 89946},
 																run: (*parser).callonSectionTitleLineElement25,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2796, col: 5, offset: 88960},
+													pos: position{line: 2811, col: 5, offset: 90026},
 													expr: &seqExpr{
-														pos: position{line: 2797, col: 9, offset: 88971},
+														pos: position{line: 2812, col: 9, offset: 90037},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2797, col: 9, offset: 88971},
+																pos: position{line: 2812, col: 9, offset: 90037},
 																expr: &seqExpr{
-																	pos: position{line: 2797, col: 10, offset: 88972},
+																	pos: position{line: 2812, col: 10, offset: 90038},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2797, col: 10, offset: 88972},
+																			pos:        position{line: 2812, col: 10, offset: 90038},
 																			val:        "[._%+-]",
 																			chars:      []rune{'.', '_', '%', '+', '-'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2797, col: 18, offset: 88980},
+																			pos: position{line: 2812, col: 18, offset: 90046},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2797, col: 18, offset: 88980},
+																				pos:        position{line: 2812, col: 18, offset: 90046},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -44063,13 +44469,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2797, col: 30, offset: 88992},
+																pos:        position{line: 2812, col: 30, offset: 90058},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2797, col: 34, offset: 88996},
+																pos:        position{line: 2812, col: 34, offset: 90062},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -44082,12 +44488,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2892, col: 11, offset: 91596},
+										pos: position{line: 2907, col: 11, offset: 92662},
 										run: (*parser).callonSectionTitleLineElement35,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2892, col: 11, offset: 91596},
+											pos: position{line: 2907, col: 11, offset: 92662},
 											expr: &charClassMatcher{
-												pos:        position{line: 2892, col: 11, offset: 91596},
+												pos:        position{line: 2907, col: 11, offset: 92662},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -44096,25 +44502,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2506, col: 5, offset: 80945},
+										pos: position{line: 2521, col: 5, offset: 82011},
 										run: (*parser).callonSectionTitleLineElement38,
 										expr: &seqExpr{
-											pos: position{line: 2506, col: 5, offset: 80945},
+											pos: position{line: 2521, col: 5, offset: 82011},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2506, col: 5, offset: 80945},
+													pos: position{line: 2521, col: 5, offset: 82011},
 													run: (*parser).callonSectionTitleLineElement40,
 												},
 												&litMatcher{
-													pos:        position{line: 2509, col: 5, offset: 81016},
+													pos:        position{line: 2524, col: 5, offset: 82082},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2509, col: 10, offset: 81021},
+													pos: position{line: 2524, col: 10, offset: 82087},
 													expr: &charClassMatcher{
-														pos:        position{line: 2509, col: 11, offset: 81022},
+														pos:        position{line: 2524, col: 11, offset: 82088},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -44125,29 +44531,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2515, col: 5, offset: 81214},
+										pos: position{line: 2530, col: 5, offset: 82280},
 										run: (*parser).callonSectionTitleLineElement44,
 										expr: &seqExpr{
-											pos: position{line: 2515, col: 5, offset: 81214},
+											pos: position{line: 2530, col: 5, offset: 82280},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2515, col: 5, offset: 81214},
+													pos: position{line: 2530, col: 5, offset: 82280},
 													run: (*parser).callonSectionTitleLineElement46,
 												},
 												&andCodeExpr{
-													pos: position{line: 2518, col: 5, offset: 81285},
+													pos: position{line: 2533, col: 5, offset: 82351},
 													run: (*parser).callonSectionTitleLineElement47,
 												},
 												&litMatcher{
-													pos:        position{line: 2522, col: 5, offset: 81410},
+													pos:        position{line: 2537, col: 5, offset: 82476},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2522, col: 9, offset: 81414},
+													pos: position{line: 2537, col: 9, offset: 82480},
 													expr: &charClassMatcher{
-														pos:        position{line: 2522, col: 10, offset: 81415},
+														pos:        position{line: 2537, col: 10, offset: 82481},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -44158,31 +44564,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2336, col: 11, offset: 75788},
+										pos:  position{line: 2351, col: 11, offset: 76854},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2805, col: 5, offset: 89189},
+										pos: position{line: 2820, col: 5, offset: 90255},
 										run: (*parser).callonSectionTitleLineElement52,
 										expr: &choiceExpr{
-											pos: position{line: 2806, col: 9, offset: 89199},
+											pos: position{line: 2821, col: 9, offset: 90265},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2806, col: 10, offset: 89200},
+													pos:        position{line: 2821, col: 10, offset: 90266},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2808, col: 13, offset: 89297},
+													pos: position{line: 2823, col: 13, offset: 90363},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2808, col: 13, offset: 89297},
+															pos: position{line: 2823, col: 13, offset: 90363},
 															run: (*parser).callonSectionTitleLineElement56,
 														},
 														&litMatcher{
-															pos:        position{line: 2811, col: 13, offset: 89397},
+															pos:        position{line: 2826, col: 13, offset: 90463},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -44190,20 +44596,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2811, col: 19, offset: 89403},
+													pos:        position{line: 2826, col: 19, offset: 90469},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2814, col: 13, offset: 89441},
+													pos: position{line: 2829, col: 13, offset: 90507},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2814, col: 13, offset: 89441},
+															pos: position{line: 2829, col: 13, offset: 90507},
 															run: (*parser).callonSectionTitleLineElement60,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2817, col: 14, offset: 89534},
+															pos:        position{line: 2832, col: 14, offset: 90600},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -44212,18 +44618,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2819, col: 12, offset: 89578},
+													pos: position{line: 2834, col: 12, offset: 90644},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2819, col: 12, offset: 89578},
+															pos:        position{line: 2834, col: 12, offset: 90644},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2819, col: 16, offset: 89582},
+															pos: position{line: 2834, col: 16, offset: 90648},
 															expr: &litMatcher{
-																pos:        position{line: 2819, col: 17, offset: 89583},
+																pos:        position{line: 2834, col: 17, offset: 90649},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -44235,35 +44641,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2338, col: 11, offset: 75861},
+										pos:  position{line: 2353, col: 11, offset: 76927},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2339, col: 11, offset: 75877},
+										pos:  position{line: 2354, col: 11, offset: 76943},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2340, col: 11, offset: 75905},
+										pos:  position{line: 2355, col: 11, offset: 76971},
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2475, col: 5, offset: 79774},
+										pos: position{line: 2490, col: 5, offset: 80840},
 										run: (*parser).callonSectionTitleLineElement69,
 										expr: &seqExpr{
-											pos: position{line: 2475, col: 5, offset: 79774},
+											pos: position{line: 2490, col: 5, offset: 80840},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2475, col: 5, offset: 79774},
+													pos: position{line: 2490, col: 5, offset: 80840},
 													run: (*parser).callonSectionTitleLineElement71,
 												},
 												&labeledExpr{
-													pos:   position{line: 2478, col: 5, offset: 79850},
+													pos:   position{line: 2493, col: 5, offset: 80916},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2479, col: 9, offset: 79868},
+														pos: position{line: 2494, col: 9, offset: 80934},
 														run: (*parser).callonSectionTitleLineElement73,
 														expr: &charClassMatcher{
-															pos:        position{line: 2479, col: 10, offset: 79869},
+															pos:        position{line: 2494, col: 10, offset: 80935},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -44275,7 +44681,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2342, col: 11, offset: 75990},
+										pos:  position{line: 2357, col: 11, offset: 77056},
 										name: "InlineIcon",
 									},
 									&actionExpr{
@@ -44668,17 +45074,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2358, col: 5, offset: 76484},
+										pos: position{line: 2373, col: 5, offset: 77550},
 										run: (*parser).callonSectionTitleLineElement154,
 										expr: &seqExpr{
-											pos: position{line: 2358, col: 5, offset: 76484},
+											pos: position{line: 2373, col: 5, offset: 77550},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2358, col: 5, offset: 76484},
+													pos: position{line: 2373, col: 5, offset: 77550},
 													run: (*parser).callonSectionTitleLineElement156,
 												},
 												&labeledExpr{
-													pos:   position{line: 2361, col: 5, offset: 76539},
+													pos:   position{line: 2376, col: 5, offset: 77605},
 													label: "id",
 													expr: &actionExpr{
 														pos: position{line: 403, col: 5, offset: 12344},
@@ -45136,12 +45542,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2361, col: 26, offset: 76560},
+													pos: position{line: 2376, col: 26, offset: 77626},
 													expr: &actionExpr{
-														pos: position{line: 2888, col: 10, offset: 91535},
+														pos: position{line: 2903, col: 10, offset: 92601},
 														run: (*parser).callonSectionTitleLineElement251,
 														expr: &charClassMatcher{
-															pos:        position{line: 2888, col: 10, offset: 91535},
+															pos:        position{line: 2903, col: 10, offset: 92601},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -45150,30 +45556,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 2361, col: 33, offset: 76567},
+													pos: position{line: 2376, col: 33, offset: 77633},
 													expr: &choiceExpr{
-														pos: position{line: 2910, col: 8, offset: 91933},
+														pos: position{line: 2925, col: 8, offset: 92999},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2897, col: 12, offset: 91706},
+																pos: position{line: 2912, col: 12, offset: 92772},
 																run: (*parser).callonSectionTitleLineElement255,
 																expr: &choiceExpr{
-																	pos: position{line: 2897, col: 13, offset: 91707},
+																	pos: position{line: 2912, col: 13, offset: 92773},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2897, col: 13, offset: 91707},
+																			pos:        position{line: 2912, col: 13, offset: 92773},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2897, col: 20, offset: 91714},
+																			pos:        position{line: 2912, col: 20, offset: 92780},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2897, col: 29, offset: 91723},
+																			pos:        position{line: 2912, col: 29, offset: 92789},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -45182,9 +45588,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2907, col: 8, offset: 91883},
+																pos: position{line: 2922, col: 8, offset: 92949},
 																expr: &anyMatcher{
-																	line: 2907, col: 9, offset: 91884,
+																	line: 2922, col: 9, offset: 92950,
 																},
 															},
 														},
@@ -45209,12 +45615,12 @@ var g = &grammar{
 													pos:   position{line: 1258, col: 14, offset: 38908},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 7, offset: 91187},
+														pos: position{line: 2888, col: 7, offset: 92253},
 														run: (*parser).callonSectionTitleLineElement266,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2873, col: 7, offset: 91187},
+															pos: position{line: 2888, col: 7, offset: 92253},
 															expr: &charClassMatcher{
-																pos:        position{line: 2873, col: 7, offset: 91187},
+																pos:        position{line: 2888, col: 7, offset: 92253},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -45248,12 +45654,12 @@ var g = &grammar{
 													pos:   position{line: 1263, col: 10, offset: 39083},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 7, offset: 91187},
+														pos: position{line: 2888, col: 7, offset: 92253},
 														run: (*parser).callonSectionTitleLineElement274,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2873, col: 7, offset: 91187},
+															pos: position{line: 2888, col: 7, offset: 92253},
 															expr: &charClassMatcher{
-																pos:        position{line: 2873, col: 7, offset: 91187},
+																pos:        position{line: 2888, col: 7, offset: 92253},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -45272,20 +45678,20 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2347, col: 11, offset: 76244},
+										pos:  position{line: 2362, col: 11, offset: 77310},
 										name: "InlineFootnote",
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2348, col: 5, offset: 76264},
+							pos:   position{line: 2363, col: 5, offset: 77330},
 							label: "end",
 							expr: &actionExpr{
-								pos: position{line: 2913, col: 16, offset: 92057},
+								pos: position{line: 2928, col: 16, offset: 93123},
 								run: (*parser).callonSectionTitleLineElement280,
 								expr: &litMatcher{
-									pos:        position{line: 2913, col: 16, offset: 92057},
+									pos:        position{line: 2928, col: 16, offset: 93123},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -45293,7 +45699,7 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2349, col: 5, offset: 76286},
+							pos: position{line: 2364, col: 5, offset: 77352},
 							run: (*parser).callonSectionTitleLineElement282,
 						},
 					},
@@ -45302,57 +45708,57 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2371, col: 1, offset: 76829},
+			pos:  position{line: 2386, col: 1, offset: 77895},
 			expr: &actionExpr{
-				pos: position{line: 2372, col: 5, offset: 76916},
+				pos: position{line: 2387, col: 5, offset: 77982},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2372, col: 5, offset: 76916},
+					pos: position{line: 2387, col: 5, offset: 77982},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2372, col: 5, offset: 76916},
+							pos:   position{line: 2387, col: 5, offset: 77982},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2372, col: 14, offset: 76925},
+								pos: position{line: 2387, col: 14, offset: 77991},
 								expr: &actionExpr{
-									pos: position{line: 2374, col: 9, offset: 76951},
+									pos: position{line: 2389, col: 9, offset: 78017},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2374, col: 9, offset: 76951},
+										pos: position{line: 2389, col: 9, offset: 78017},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2905, col: 11, offset: 91869},
+												pos: position{line: 2920, col: 11, offset: 92935},
 												expr: &anyMatcher{
-													line: 2905, col: 13, offset: 91871,
+													line: 2920, col: 13, offset: 92937,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2375, col: 9, offset: 76966},
+												pos:   position{line: 2390, col: 9, offset: 78032},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2376, col: 13, offset: 76988},
+													pos: position{line: 2391, col: 13, offset: 78054},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2780, col: 5, offset: 88563},
+															pos: position{line: 2795, col: 5, offset: 89629},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2780, col: 5, offset: 88563},
+																pos: position{line: 2795, col: 5, offset: 89629},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2780, col: 5, offset: 88563},
+																		pos: position{line: 2795, col: 5, offset: 89629},
 																		expr: &seqExpr{
-																			pos: position{line: 2781, col: 9, offset: 88574},
+																			pos: position{line: 2796, col: 9, offset: 89640},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 2781, col: 9, offset: 88574},
+																					pos:   position{line: 2796, col: 9, offset: 89640},
 																					label: "name",
 																					expr: &actionExpr{
-																						pos: position{line: 2760, col: 18, offset: 88080},
+																						pos: position{line: 2775, col: 18, offset: 89146},
 																						run: (*parser).callonNormalGroup16,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2760, col: 19, offset: 88081},
+																							pos: position{line: 2775, col: 19, offset: 89147},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2760, col: 19, offset: 88081},
+																								pos:        position{line: 2775, col: 19, offset: 89147},
 																								val:        "[_-\\pL\\pN]",
 																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -45363,28 +45769,28 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2782, col: 9, offset: 88667},
+																					pos:        position{line: 2797, col: 9, offset: 89733},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2783, col: 9, offset: 88679},
+																					pos: position{line: 2798, col: 9, offset: 89745},
 																					run: (*parser).callonNormalGroup20,
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2787, col: 5, offset: 88756},
+																		pos:   position{line: 2802, col: 5, offset: 89822},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2787, col: 11, offset: 88762},
+																			pos: position{line: 2802, col: 11, offset: 89828},
 																			run: (*parser).callonNormalGroup22,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2787, col: 11, offset: 88762},
+																				pos: position{line: 2802, col: 11, offset: 89828},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2787, col: 11, offset: 88762},
+																					pos:        position{line: 2802, col: 11, offset: 89828},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -45394,44 +45800,44 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2790, col: 5, offset: 88820},
+																		pos: position{line: 2805, col: 5, offset: 89886},
 																		expr: &seqExpr{
-																			pos: position{line: 2791, col: 9, offset: 88831},
+																			pos: position{line: 2806, col: 9, offset: 89897},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2791, col: 9, offset: 88831},
+																					pos:        position{line: 2806, col: 9, offset: 89897},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2792, col: 9, offset: 88880},
+																					pos: position{line: 2807, col: 9, offset: 89946},
 																					run: (*parser).callonNormalGroup28,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2796, col: 5, offset: 88960},
+																		pos: position{line: 2811, col: 5, offset: 90026},
 																		expr: &seqExpr{
-																			pos: position{line: 2797, col: 9, offset: 88971},
+																			pos: position{line: 2812, col: 9, offset: 90037},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 2797, col: 9, offset: 88971},
+																					pos: position{line: 2812, col: 9, offset: 90037},
 																					expr: &seqExpr{
-																						pos: position{line: 2797, col: 10, offset: 88972},
+																						pos: position{line: 2812, col: 10, offset: 90038},
 																						exprs: []interface{}{
 																							&charClassMatcher{
-																								pos:        position{line: 2797, col: 10, offset: 88972},
+																								pos:        position{line: 2812, col: 10, offset: 90038},
 																								val:        "[._%+-]",
 																								chars:      []rune{'.', '_', '%', '+', '-'},
 																								ignoreCase: false,
 																								inverted:   false,
 																							},
 																							&oneOrMoreExpr{
-																								pos: position{line: 2797, col: 18, offset: 88980},
+																								pos: position{line: 2812, col: 18, offset: 90046},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2797, col: 18, offset: 88980},
+																									pos:        position{line: 2812, col: 18, offset: 90046},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -45442,13 +45848,13 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2797, col: 30, offset: 88992},
+																					pos:        position{line: 2812, col: 30, offset: 90058},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2797, col: 34, offset: 88996},
+																					pos:        position{line: 2812, col: 34, offset: 90062},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -45461,12 +45867,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2892, col: 11, offset: 91596},
+															pos: position{line: 2907, col: 11, offset: 92662},
 															run: (*parser).callonNormalGroup38,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2892, col: 11, offset: 91596},
+																pos: position{line: 2907, col: 11, offset: 92662},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2892, col: 11, offset: 91596},
+																	pos:        position{line: 2907, col: 11, offset: 92662},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -45475,29 +45881,29 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2378, col: 15, offset: 77034},
+															pos:  position{line: 2393, col: 15, offset: 78100},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2506, col: 5, offset: 80945},
+															pos: position{line: 2521, col: 5, offset: 82011},
 															run: (*parser).callonNormalGroup42,
 															expr: &seqExpr{
-																pos: position{line: 2506, col: 5, offset: 80945},
+																pos: position{line: 2521, col: 5, offset: 82011},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2506, col: 5, offset: 80945},
+																		pos: position{line: 2521, col: 5, offset: 82011},
 																		run: (*parser).callonNormalGroup44,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2509, col: 5, offset: 81016},
+																		pos:        position{line: 2524, col: 5, offset: 82082},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2509, col: 10, offset: 81021},
+																		pos: position{line: 2524, col: 10, offset: 82087},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2509, col: 11, offset: 81022},
+																			pos:        position{line: 2524, col: 11, offset: 82088},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -45508,29 +45914,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2515, col: 5, offset: 81214},
+															pos: position{line: 2530, col: 5, offset: 82280},
 															run: (*parser).callonNormalGroup48,
 															expr: &seqExpr{
-																pos: position{line: 2515, col: 5, offset: 81214},
+																pos: position{line: 2530, col: 5, offset: 82280},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2515, col: 5, offset: 81214},
+																		pos: position{line: 2530, col: 5, offset: 82280},
 																		run: (*parser).callonNormalGroup50,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2518, col: 5, offset: 81285},
+																		pos: position{line: 2533, col: 5, offset: 82351},
 																		run: (*parser).callonNormalGroup51,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2522, col: 5, offset: 81410},
+																		pos:        position{line: 2537, col: 5, offset: 82476},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2522, col: 9, offset: 81414},
+																		pos: position{line: 2537, col: 9, offset: 82480},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2522, col: 10, offset: 81415},
+																			pos:        position{line: 2537, col: 10, offset: 82481},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -45541,27 +45947,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2805, col: 5, offset: 89189},
+															pos: position{line: 2820, col: 5, offset: 90255},
 															run: (*parser).callonNormalGroup55,
 															expr: &choiceExpr{
-																pos: position{line: 2806, col: 9, offset: 89199},
+																pos: position{line: 2821, col: 9, offset: 90265},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2806, col: 10, offset: 89200},
+																		pos:        position{line: 2821, col: 10, offset: 90266},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2808, col: 13, offset: 89297},
+																		pos: position{line: 2823, col: 13, offset: 90363},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2808, col: 13, offset: 89297},
+																				pos: position{line: 2823, col: 13, offset: 90363},
 																				run: (*parser).callonNormalGroup59,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2811, col: 13, offset: 89397},
+																				pos:        position{line: 2826, col: 13, offset: 90463},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -45569,20 +45975,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2811, col: 19, offset: 89403},
+																		pos:        position{line: 2826, col: 19, offset: 90469},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2814, col: 13, offset: 89441},
+																		pos: position{line: 2829, col: 13, offset: 90507},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2814, col: 13, offset: 89441},
+																				pos: position{line: 2829, col: 13, offset: 90507},
 																				run: (*parser).callonNormalGroup63,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2817, col: 14, offset: 89534},
+																				pos:        position{line: 2832, col: 14, offset: 90600},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -45591,18 +45997,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2819, col: 12, offset: 89578},
+																		pos: position{line: 2834, col: 12, offset: 90644},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2819, col: 12, offset: 89578},
+																				pos:        position{line: 2834, col: 12, offset: 90644},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2819, col: 16, offset: 89582},
+																				pos: position{line: 2834, col: 16, offset: 90648},
 																				expr: &litMatcher{
-																					pos:        position{line: 2819, col: 17, offset: 89583},
+																					pos:        position{line: 2834, col: 17, offset: 90649},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -45614,25 +46020,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2897, col: 12, offset: 91706},
+															pos: position{line: 2912, col: 12, offset: 92772},
 															run: (*parser).callonNormalGroup69,
 															expr: &choiceExpr{
-																pos: position{line: 2897, col: 13, offset: 91707},
+																pos: position{line: 2912, col: 13, offset: 92773},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2897, col: 13, offset: 91707},
+																		pos:        position{line: 2912, col: 13, offset: 92773},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2897, col: 20, offset: 91714},
+																		pos:        position{line: 2912, col: 20, offset: 92780},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2897, col: 29, offset: 91723},
+																		pos:        position{line: 2912, col: 29, offset: 92789},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -45987,35 +46393,35 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2383, col: 15, offset: 77201},
+															pos:  position{line: 2398, col: 15, offset: 78267},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2384, col: 15, offset: 77221},
+															pos:  position{line: 2399, col: 15, offset: 78287},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2385, col: 15, offset: 77310},
+															pos:  position{line: 2400, col: 15, offset: 78376},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2475, col: 5, offset: 79774},
+															pos: position{line: 2490, col: 5, offset: 80840},
 															run: (*parser).callonNormalGroup146,
 															expr: &seqExpr{
-																pos: position{line: 2475, col: 5, offset: 79774},
+																pos: position{line: 2490, col: 5, offset: 80840},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2475, col: 5, offset: 79774},
+																		pos: position{line: 2490, col: 5, offset: 80840},
 																		run: (*parser).callonNormalGroup148,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2478, col: 5, offset: 79850},
+																		pos:   position{line: 2493, col: 5, offset: 80916},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2479, col: 9, offset: 79868},
+																			pos: position{line: 2494, col: 9, offset: 80934},
 																			run: (*parser).callonNormalGroup150,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2479, col: 10, offset: 79869},
+																				pos:        position{line: 2494, col: 10, offset: 80935},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -46049,10 +46455,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1219, col: 5, offset: 37756},
 																		expr: &actionExpr{
-																			pos: position{line: 2888, col: 10, offset: 91535},
+																			pos: position{line: 2903, col: 10, offset: 92601},
 																			run: (*parser).callonNormalGroup158,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2888, col: 10, offset: 91535},
+																				pos:        position{line: 2903, col: 10, offset: 92601},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46063,28 +46469,28 @@ var g = &grammar{
 																	&andExpr{
 																		pos: position{line: 1219, col: 12, offset: 37763},
 																		expr: &choiceExpr{
-																			pos: position{line: 2910, col: 8, offset: 91933},
+																			pos: position{line: 2925, col: 8, offset: 92999},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2897, col: 12, offset: 91706},
+																					pos: position{line: 2912, col: 12, offset: 92772},
 																					run: (*parser).callonNormalGroup162,
 																					expr: &choiceExpr{
-																						pos: position{line: 2897, col: 13, offset: 91707},
+																						pos: position{line: 2912, col: 13, offset: 92773},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2897, col: 13, offset: 91707},
+																								pos:        position{line: 2912, col: 13, offset: 92773},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2897, col: 20, offset: 91714},
+																								pos:        position{line: 2912, col: 20, offset: 92780},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2897, col: 29, offset: 91723},
+																								pos:        position{line: 2912, col: 29, offset: 92789},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -46093,9 +46499,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2907, col: 8, offset: 91883},
+																					pos: position{line: 2922, col: 8, offset: 92949},
 																					expr: &anyMatcher{
-																						line: 2907, col: 9, offset: 91884,
+																						line: 2922, col: 9, offset: 92950,
 																					},
 																				},
 																			},
@@ -46105,7 +46511,7 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2388, col: 15, offset: 77492},
+															pos:  position{line: 2403, col: 15, offset: 78558},
 															name: "InlinePassthrough",
 														},
 														&actionExpr{
@@ -46152,10 +46558,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2827, col: 12, offset: 89843},
+															pos: position{line: 2842, col: 12, offset: 90909},
 															run: (*parser).callonNormalGroup179,
 															expr: &charClassMatcher{
-																pos:        position{line: 2827, col: 12, offset: 89843},
+																pos:        position{line: 2842, col: 12, offset: 90909},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -46171,9 +46577,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2907, col: 8, offset: 91883},
+							pos: position{line: 2922, col: 8, offset: 92949},
 							expr: &anyMatcher{
-								line: 2907, col: 9, offset: 91884,
+								line: 2922, col: 9, offset: 92950,
 							},
 						},
 					},
@@ -46182,28 +46588,28 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2399, col: 1, offset: 77930},
+			pos:  position{line: 2414, col: 1, offset: 78996},
 			expr: &actionExpr{
-				pos: position{line: 2400, col: 5, offset: 77963},
+				pos: position{line: 2415, col: 5, offset: 79029},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2400, col: 5, offset: 77963},
+					pos: position{line: 2415, col: 5, offset: 79029},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2400, col: 5, offset: 77963},
+							pos:   position{line: 2415, col: 5, offset: 79029},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2400, col: 14, offset: 77972},
+								pos: position{line: 2415, col: 14, offset: 79038},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2400, col: 15, offset: 77973},
+									pos:  position{line: 2415, col: 15, offset: 79039},
 									name: "AttributeStructuredValueElement",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2907, col: 8, offset: 91883},
+							pos: position{line: 2922, col: 8, offset: 92949},
 							expr: &anyMatcher{
-								line: 2907, col: 9, offset: 91884,
+								line: 2922, col: 9, offset: 92950,
 							},
 						},
 					},
@@ -46212,46 +46618,46 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2404, col: 1, offset: 78070},
+			pos:  position{line: 2419, col: 1, offset: 79136},
 			expr: &actionExpr{
-				pos: position{line: 2405, col: 5, offset: 78110},
+				pos: position{line: 2420, col: 5, offset: 79176},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2405, col: 5, offset: 78110},
+					pos: position{line: 2420, col: 5, offset: 79176},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2905, col: 11, offset: 91869},
+							pos: position{line: 2920, col: 11, offset: 92935},
 							expr: &anyMatcher{
-								line: 2905, col: 13, offset: 91871,
+								line: 2920, col: 13, offset: 92937,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2406, col: 5, offset: 78121},
+							pos:   position{line: 2421, col: 5, offset: 79187},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2407, col: 9, offset: 78139},
+								pos: position{line: 2422, col: 9, offset: 79205},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2780, col: 5, offset: 88563},
+										pos: position{line: 2795, col: 5, offset: 89629},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2780, col: 5, offset: 88563},
+											pos: position{line: 2795, col: 5, offset: 89629},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2780, col: 5, offset: 88563},
+													pos: position{line: 2795, col: 5, offset: 89629},
 													expr: &seqExpr{
-														pos: position{line: 2781, col: 9, offset: 88574},
+														pos: position{line: 2796, col: 9, offset: 89640},
 														exprs: []interface{}{
 															&labeledExpr{
-																pos:   position{line: 2781, col: 9, offset: 88574},
+																pos:   position{line: 2796, col: 9, offset: 89640},
 																label: "name",
 																expr: &actionExpr{
-																	pos: position{line: 2760, col: 18, offset: 88080},
+																	pos: position{line: 2775, col: 18, offset: 89146},
 																	run: (*parser).callonAttributeStructuredValueElement12,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2760, col: 19, offset: 88081},
+																		pos: position{line: 2775, col: 19, offset: 89147},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2760, col: 19, offset: 88081},
+																			pos:        position{line: 2775, col: 19, offset: 89147},
 																			val:        "[_-\\pL\\pN]",
 																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -46262,28 +46668,28 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2782, col: 9, offset: 88667},
+																pos:        position{line: 2797, col: 9, offset: 89733},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2783, col: 9, offset: 88679},
+																pos: position{line: 2798, col: 9, offset: 89745},
 																run: (*parser).callonAttributeStructuredValueElement16,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2787, col: 5, offset: 88756},
+													pos:   position{line: 2802, col: 5, offset: 89822},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2787, col: 11, offset: 88762},
+														pos: position{line: 2802, col: 11, offset: 89828},
 														run: (*parser).callonAttributeStructuredValueElement18,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2787, col: 11, offset: 88762},
+															pos: position{line: 2802, col: 11, offset: 89828},
 															expr: &charClassMatcher{
-																pos:        position{line: 2787, col: 11, offset: 88762},
+																pos:        position{line: 2802, col: 11, offset: 89828},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -46293,44 +46699,44 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2790, col: 5, offset: 88820},
+													pos: position{line: 2805, col: 5, offset: 89886},
 													expr: &seqExpr{
-														pos: position{line: 2791, col: 9, offset: 88831},
+														pos: position{line: 2806, col: 9, offset: 89897},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2791, col: 9, offset: 88831},
+																pos:        position{line: 2806, col: 9, offset: 89897},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2792, col: 9, offset: 88880},
+																pos: position{line: 2807, col: 9, offset: 89946},
 																run: (*parser).callonAttributeStructuredValueElement24,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2796, col: 5, offset: 88960},
+													pos: position{line: 2811, col: 5, offset: 90026},
 													expr: &seqExpr{
-														pos: position{line: 2797, col: 9, offset: 88971},
+														pos: position{line: 2812, col: 9, offset: 90037},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2797, col: 9, offset: 88971},
+																pos: position{line: 2812, col: 9, offset: 90037},
 																expr: &seqExpr{
-																	pos: position{line: 2797, col: 10, offset: 88972},
+																	pos: position{line: 2812, col: 10, offset: 90038},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2797, col: 10, offset: 88972},
+																			pos:        position{line: 2812, col: 10, offset: 90038},
 																			val:        "[._%+-]",
 																			chars:      []rune{'.', '_', '%', '+', '-'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2797, col: 18, offset: 88980},
+																			pos: position{line: 2812, col: 18, offset: 90046},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2797, col: 18, offset: 88980},
+																				pos:        position{line: 2812, col: 18, offset: 90046},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -46341,13 +46747,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2797, col: 30, offset: 88992},
+																pos:        position{line: 2812, col: 30, offset: 90058},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2797, col: 34, offset: 88996},
+																pos:        position{line: 2812, col: 34, offset: 90062},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -46360,10 +46766,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2888, col: 10, offset: 91535},
+										pos: position{line: 2903, col: 10, offset: 92601},
 										run: (*parser).callonAttributeStructuredValueElement34,
 										expr: &charClassMatcher{
-											pos:        position{line: 2888, col: 10, offset: 91535},
+											pos:        position{line: 2903, col: 10, offset: 92601},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -46371,31 +46777,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2409, col: 11, offset: 78177},
+										pos:  position{line: 2424, col: 11, offset: 79243},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2805, col: 5, offset: 89189},
+										pos: position{line: 2820, col: 5, offset: 90255},
 										run: (*parser).callonAttributeStructuredValueElement37,
 										expr: &choiceExpr{
-											pos: position{line: 2806, col: 9, offset: 89199},
+											pos: position{line: 2821, col: 9, offset: 90265},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2806, col: 10, offset: 89200},
+													pos:        position{line: 2821, col: 10, offset: 90266},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2808, col: 13, offset: 89297},
+													pos: position{line: 2823, col: 13, offset: 90363},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2808, col: 13, offset: 89297},
+															pos: position{line: 2823, col: 13, offset: 90363},
 															run: (*parser).callonAttributeStructuredValueElement41,
 														},
 														&litMatcher{
-															pos:        position{line: 2811, col: 13, offset: 89397},
+															pos:        position{line: 2826, col: 13, offset: 90463},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -46403,20 +46809,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2811, col: 19, offset: 89403},
+													pos:        position{line: 2826, col: 19, offset: 90469},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2814, col: 13, offset: 89441},
+													pos: position{line: 2829, col: 13, offset: 90507},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2814, col: 13, offset: 89441},
+															pos: position{line: 2829, col: 13, offset: 90507},
 															run: (*parser).callonAttributeStructuredValueElement45,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2817, col: 14, offset: 89534},
+															pos:        position{line: 2832, col: 14, offset: 90600},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -46425,18 +46831,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2819, col: 12, offset: 89578},
+													pos: position{line: 2834, col: 12, offset: 90644},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2819, col: 12, offset: 89578},
+															pos:        position{line: 2834, col: 12, offset: 90644},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2819, col: 16, offset: 89582},
+															pos: position{line: 2834, col: 16, offset: 90648},
 															expr: &litMatcher{
-																pos:        position{line: 2819, col: 17, offset: 89583},
+																pos:        position{line: 2834, col: 17, offset: 90649},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -46448,31 +46854,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2411, col: 11, offset: 78250},
+										pos:  position{line: 2426, col: 11, offset: 79316},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2412, col: 11, offset: 78266},
+										pos:  position{line: 2427, col: 11, offset: 79332},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2475, col: 5, offset: 79774},
+										pos: position{line: 2490, col: 5, offset: 80840},
 										run: (*parser).callonAttributeStructuredValueElement53,
 										expr: &seqExpr{
-											pos: position{line: 2475, col: 5, offset: 79774},
+											pos: position{line: 2490, col: 5, offset: 80840},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2475, col: 5, offset: 79774},
+													pos: position{line: 2490, col: 5, offset: 80840},
 													run: (*parser).callonAttributeStructuredValueElement55,
 												},
 												&labeledExpr{
-													pos:   position{line: 2478, col: 5, offset: 79850},
+													pos:   position{line: 2493, col: 5, offset: 80916},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2479, col: 9, offset: 79868},
+														pos: position{line: 2494, col: 9, offset: 80934},
 														run: (*parser).callonAttributeStructuredValueElement57,
 														expr: &charClassMatcher{
-															pos:        position{line: 2479, col: 10, offset: 79869},
+															pos:        position{line: 2494, col: 10, offset: 80935},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -46527,25 +46933,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2897, col: 12, offset: 91706},
+										pos: position{line: 2912, col: 12, offset: 92772},
 										run: (*parser).callonAttributeStructuredValueElement68,
 										expr: &choiceExpr{
-											pos: position{line: 2897, col: 13, offset: 91707},
+											pos: position{line: 2912, col: 13, offset: 92773},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2897, col: 13, offset: 91707},
+													pos:        position{line: 2912, col: 13, offset: 92773},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2897, col: 20, offset: 91714},
+													pos:        position{line: 2912, col: 20, offset: 92780},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2897, col: 29, offset: 91723},
+													pos:        position{line: 2912, col: 29, offset: 92789},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -46554,10 +46960,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2827, col: 12, offset: 89843},
+										pos: position{line: 2842, col: 12, offset: 90909},
 										run: (*parser).callonAttributeStructuredValueElement73,
 										expr: &charClassMatcher{
-											pos:        position{line: 2827, col: 12, offset: 89843},
+											pos:        position{line: 2842, col: 12, offset: 90909},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -46573,49 +46979,49 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2423, col: 1, offset: 78536},
+			pos:  position{line: 2438, col: 1, offset: 79602},
 			expr: &actionExpr{
-				pos: position{line: 2425, col: 5, offset: 78618},
+				pos: position{line: 2440, col: 5, offset: 79684},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2425, col: 5, offset: 78618},
+					pos: position{line: 2440, col: 5, offset: 79684},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2425, col: 5, offset: 78618},
+							pos: position{line: 2440, col: 5, offset: 79684},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2428, col: 5, offset: 78683},
+							pos:   position{line: 2443, col: 5, offset: 79749},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2429, col: 9, offset: 78701},
+								pos: position{line: 2444, col: 9, offset: 79767},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2429, col: 9, offset: 78701},
+										pos:  position{line: 2444, col: 9, offset: 79767},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2430, col: 11, offset: 78722},
+										pos:  position{line: 2445, col: 11, offset: 79788},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2431, col: 11, offset: 78745},
+										pos:  position{line: 2446, col: 11, offset: 79811},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2432, col: 11, offset: 78761},
+										pos:  position{line: 2447, col: 11, offset: 79827},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2433, col: 11, offset: 78790},
+										pos:  position{line: 2448, col: 11, offset: 79856},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2434, col: 11, offset: 78816},
+										pos:  position{line: 2449, col: 11, offset: 79882},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2435, col: 11, offset: 78842},
+										pos:  position{line: 2450, col: 11, offset: 79908},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
@@ -46634,12 +47040,12 @@ var g = &grammar{
 													pos:   position{line: 1258, col: 14, offset: 38908},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 7, offset: 91187},
+														pos: position{line: 2888, col: 7, offset: 92253},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2873, col: 7, offset: 91187},
+															pos: position{line: 2888, col: 7, offset: 92253},
 															expr: &charClassMatcher{
-																pos:        position{line: 2873, col: 7, offset: 91187},
+																pos:        position{line: 2888, col: 7, offset: 92253},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -46673,12 +47079,12 @@ var g = &grammar{
 													pos:   position{line: 1263, col: 10, offset: 39083},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2873, col: 7, offset: 91187},
+														pos: position{line: 2888, col: 7, offset: 92253},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2873, col: 7, offset: 91187},
+															pos: position{line: 2888, col: 7, offset: 92253},
 															expr: &charClassMatcher{
-																pos:        position{line: 2873, col: 7, offset: 91187},
+																pos:        position{line: 2888, col: 7, offset: 92253},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -46720,17 +47126,17 @@ var g = &grammar{
 																pos: position{line: 1309, col: 31, offset: 40905},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2771, col: 13, offset: 88416},
+																		pos:        position{line: 2786, col: 13, offset: 89482},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2888, col: 10, offset: 91535},
+																		pos: position{line: 2903, col: 10, offset: 92601},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2888, col: 10, offset: 91535},
+																			pos:        position{line: 2903, col: 10, offset: 92601},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -46756,10 +47162,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1303, col: 12, offset: 40619},
 																		expr: &actionExpr{
-																			pos: position{line: 2888, col: 10, offset: 91535},
+																			pos: position{line: 2903, col: 10, offset: 92601},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2888, col: 10, offset: 91535},
+																				pos:        position{line: 2903, col: 10, offset: 92601},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46776,10 +47182,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1303, col: 23, offset: 40630},
 																		expr: &actionExpr{
-																			pos: position{line: 2888, col: 10, offset: 91535},
+																			pos: position{line: 2903, col: 10, offset: 92601},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2888, col: 10, offset: 91535},
+																				pos:        position{line: 2903, col: 10, offset: 92601},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46799,17 +47205,17 @@ var g = &grammar{
 																					pos: position{line: 1309, col: 31, offset: 40905},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2771, col: 13, offset: 88416},
+																							pos:        position{line: 2786, col: 13, offset: 89482},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2888, col: 10, offset: 91535},
+																							pos: position{line: 2903, col: 10, offset: 92601},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2888, col: 10, offset: 91535},
+																								pos:        position{line: 2903, col: 10, offset: 92601},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -46840,10 +47246,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1304, col: 12, offset: 40711},
 																		expr: &actionExpr{
-																			pos: position{line: 2888, col: 10, offset: 91535},
+																			pos: position{line: 2903, col: 10, offset: 92601},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2888, col: 10, offset: 91535},
+																				pos:        position{line: 2903, col: 10, offset: 92601},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46860,10 +47266,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1304, col: 23, offset: 40722},
 																		expr: &actionExpr{
-																			pos: position{line: 2888, col: 10, offset: 91535},
+																			pos: position{line: 2903, col: 10, offset: 92601},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2888, col: 10, offset: 91535},
+																				pos:        position{line: 2903, col: 10, offset: 92601},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46883,17 +47289,17 @@ var g = &grammar{
 																					pos: position{line: 1309, col: 31, offset: 40905},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2771, col: 13, offset: 88416},
+																							pos:        position{line: 2786, col: 13, offset: 89482},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2888, col: 10, offset: 91535},
+																							pos: position{line: 2903, col: 10, offset: 92601},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2888, col: 10, offset: 91535},
+																								pos:        position{line: 2903, col: 10, offset: 92601},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -46920,15 +47326,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2438, col: 11, offset: 78921},
+										pos:  position{line: 2453, col: 11, offset: 79987},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2439, col: 11, offset: 78941},
+										pos:  position{line: 2454, col: 11, offset: 80007},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2440, col: 11, offset: 78964},
+										pos:  position{line: 2455, col: 11, offset: 80030},
 										name: "InlineMenu",
 									},
 								},
@@ -46940,22 +47346,22 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2444, col: 1, offset: 79021},
+			pos:  position{line: 2459, col: 1, offset: 80087},
 			expr: &actionExpr{
-				pos: position{line: 2446, col: 5, offset: 79109},
+				pos: position{line: 2461, col: 5, offset: 80175},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2446, col: 5, offset: 79109},
+					pos: position{line: 2461, col: 5, offset: 80175},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2446, col: 5, offset: 79109},
+							pos: position{line: 2461, col: 5, offset: 80175},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2449, col: 5, offset: 79186},
+							pos:   position{line: 2464, col: 5, offset: 80252},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2450, col: 9, offset: 79204},
+								pos: position{line: 2465, col: 9, offset: 80270},
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 1384, col: 26, offset: 44242},
@@ -47010,10 +47416,10 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1390, col: 12, offset: 44688},
 																				expr: &actionExpr{
-																					pos: position{line: 2888, col: 10, offset: 91535},
+																					pos: position{line: 2903, col: 10, offset: 92601},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2888, col: 10, offset: 91535},
+																						pos:        position{line: 2903, col: 10, offset: 92601},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -47024,25 +47430,25 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1390, col: 19, offset: 44695},
 																				expr: &actionExpr{
-																					pos: position{line: 2897, col: 12, offset: 91706},
+																					pos: position{line: 2912, col: 12, offset: 92772},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2897, col: 13, offset: 91707},
+																						pos: position{line: 2912, col: 13, offset: 92773},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2897, col: 13, offset: 91707},
+																								pos:        position{line: 2912, col: 13, offset: 92773},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2897, col: 20, offset: 91714},
+																								pos:        position{line: 2912, col: 20, offset: 92780},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2897, col: 29, offset: 91723},
+																								pos:        position{line: 2912, col: 29, offset: 92789},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -47079,7 +47485,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1384, col: 121, offset: 44337},
 													expr: &charClassMatcher{
-														pos:        position{line: 2771, col: 13, offset: 88416},
+														pos:        position{line: 2786, col: 13, offset: 89482},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -47125,10 +47531,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1376, col: 64, offset: 43797},
 																			expr: &actionExpr{
-																				pos: position{line: 2888, col: 10, offset: 91535},
+																				pos: position{line: 2903, col: 10, offset: 92601},
 																				run: (*parser).callonInlinePassthrough45,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2888, col: 10, offset: 91535},
+																					pos:        position{line: 2903, col: 10, offset: 92601},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -47139,25 +47545,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1376, col: 71, offset: 43804},
 																			expr: &actionExpr{
-																				pos: position{line: 2897, col: 12, offset: 91706},
+																				pos: position{line: 2912, col: 12, offset: 92772},
 																				run: (*parser).callonInlinePassthrough48,
 																				expr: &choiceExpr{
-																					pos: position{line: 2897, col: 13, offset: 91707},
+																					pos: position{line: 2912, col: 13, offset: 92773},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 13, offset: 91707},
+																							pos:        position{line: 2912, col: 13, offset: 92773},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 20, offset: 91714},
+																							pos:        position{line: 2912, col: 20, offset: 92780},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 29, offset: 91723},
+																							pos:        position{line: 2912, col: 29, offset: 92789},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -47180,12 +47586,12 @@ var g = &grammar{
 																							pos: position{line: 1376, col: 86, offset: 43819},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2892, col: 11, offset: 91596},
+																									pos: position{line: 2907, col: 11, offset: 92662},
 																									run: (*parser).callonInlinePassthrough58,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2892, col: 11, offset: 91596},
+																										pos: position{line: 2907, col: 11, offset: 92662},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2892, col: 11, offset: 91596},
+																											pos:        position{line: 2907, col: 11, offset: 92662},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -47214,25 +47620,25 @@ var g = &grammar{
 																					&notExpr{
 																						pos: position{line: 1376, col: 151, offset: 43884},
 																						expr: &actionExpr{
-																							pos: position{line: 2897, col: 12, offset: 91706},
+																							pos: position{line: 2912, col: 12, offset: 92772},
 																							run: (*parser).callonInlinePassthrough65,
 																							expr: &choiceExpr{
-																								pos: position{line: 2897, col: 13, offset: 91707},
+																								pos: position{line: 2912, col: 13, offset: 92773},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2897, col: 13, offset: 91707},
+																										pos:        position{line: 2912, col: 13, offset: 92773},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2897, col: 20, offset: 91714},
+																										pos:        position{line: 2912, col: 20, offset: 92780},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2897, col: 29, offset: 91723},
+																										pos:        position{line: 2912, col: 29, offset: 92789},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -47259,10 +47665,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1378, col: 12, offset: 44044},
 																			expr: &actionExpr{
-																				pos: position{line: 2888, col: 10, offset: 91535},
+																				pos: position{line: 2903, col: 10, offset: 92601},
 																				run: (*parser).callonInlinePassthrough74,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2888, col: 10, offset: 91535},
+																					pos:        position{line: 2903, col: 10, offset: 92601},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -47273,25 +47679,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1378, col: 19, offset: 44051},
 																			expr: &actionExpr{
-																				pos: position{line: 2897, col: 12, offset: 91706},
+																				pos: position{line: 2912, col: 12, offset: 92772},
 																				run: (*parser).callonInlinePassthrough77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2897, col: 13, offset: 91707},
+																					pos: position{line: 2912, col: 13, offset: 92773},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 13, offset: 91707},
+																							pos:        position{line: 2912, col: 13, offset: 92773},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 20, offset: 91714},
+																							pos:        position{line: 2912, col: 20, offset: 92780},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2897, col: 29, offset: 91723},
+																							pos:        position{line: 2912, col: 29, offset: 92789},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -47327,7 +47733,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1372, col: 121, offset: 43620},
 													expr: &charClassMatcher{
-														pos:        position{line: 2771, col: 13, offset: 88416},
+														pos:        position{line: 2786, col: 13, offset: 89482},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -47338,7 +47744,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2450, col: 57, offset: 79252},
+										pos:  position{line: 2465, col: 57, offset: 80318},
 										name: "PassthroughMacro",
 									},
 								},
@@ -47350,16 +47756,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2455, col: 1, offset: 79312},
+			pos:  position{line: 2470, col: 1, offset: 80378},
 			expr: &seqExpr{
-				pos: position{line: 2457, col: 5, offset: 79388},
+				pos: position{line: 2472, col: 5, offset: 80454},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2457, col: 5, offset: 79388},
+						pos: position{line: 2472, col: 5, offset: 80454},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2460, col: 5, offset: 79453},
+						pos:  position{line: 2475, col: 5, offset: 80519},
 						name: "QuotedText",
 					},
 				},
@@ -47367,22 +47773,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2462, col: 1, offset: 79466},
+			pos:  position{line: 2477, col: 1, offset: 80532},
 			expr: &actionExpr{
-				pos: position{line: 2464, col: 5, offset: 79548},
+				pos: position{line: 2479, col: 5, offset: 80614},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2464, col: 5, offset: 79548},
+					pos: position{line: 2479, col: 5, offset: 80614},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2464, col: 5, offset: 79548},
+							pos: position{line: 2479, col: 5, offset: 80614},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2467, col: 5, offset: 79619},
+							pos:   position{line: 2482, col: 5, offset: 80685},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2468, col: 9, offset: 79637},
+								pos:  position{line: 2483, col: 9, offset: 80703},
 								name: "Symbol",
 							},
 						},
@@ -47392,93 +47798,93 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2526, col: 1, offset: 81467},
+			pos:  position{line: 2541, col: 1, offset: 82533},
 			expr: &choiceExpr{
-				pos: position{line: 2528, col: 5, offset: 81497},
+				pos: position{line: 2543, col: 5, offset: 82563},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2528, col: 5, offset: 81497},
+						pos: position{line: 2543, col: 5, offset: 82563},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2528, col: 5, offset: 81497},
+							pos: position{line: 2543, col: 5, offset: 82563},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2528, col: 5, offset: 81497},
+									pos:        position{line: 2543, col: 5, offset: 82563},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2528, col: 10, offset: 81502},
+									pos: position{line: 2543, col: 10, offset: 82568},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2528, col: 10, offset: 81502},
+											pos:  position{line: 2543, col: 10, offset: 82568},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2557, col: 14, offset: 82636},
+											pos: position{line: 2572, col: 14, offset: 83702},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2557, col: 14, offset: 82636},
+												pos:        position{line: 2572, col: 14, offset: 83702},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2561, col: 14, offset: 82702},
+											pos: position{line: 2576, col: 14, offset: 83768},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2561, col: 14, offset: 82702},
+												pos:        position{line: 2576, col: 14, offset: 83768},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2565, col: 15, offset: 82771},
+											pos: position{line: 2580, col: 15, offset: 83837},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2565, col: 15, offset: 82771},
+												pos:        position{line: 2580, col: 15, offset: 83837},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2569, col: 13, offset: 82836},
+											pos: position{line: 2584, col: 13, offset: 83902},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2569, col: 13, offset: 82836},
+												pos:        position{line: 2584, col: 13, offset: 83902},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2576, col: 5, offset: 82974},
+											pos: position{line: 2591, col: 5, offset: 84040},
 											run: (*parser).callonSymbol15,
 											expr: &seqExpr{
-												pos: position{line: 2576, col: 5, offset: 82974},
+												pos: position{line: 2591, col: 5, offset: 84040},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2576, col: 5, offset: 82974},
+														pos:        position{line: 2591, col: 5, offset: 84040},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2577, col: 5, offset: 82984},
+														pos: position{line: 2592, col: 5, offset: 84050},
 														run: (*parser).callonSymbol18,
 													},
 													&choiceExpr{
-														pos: position{line: 2581, col: 6, offset: 83071},
+														pos: position{line: 2596, col: 6, offset: 84137},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2888, col: 10, offset: 91535},
+																pos: position{line: 2903, col: 10, offset: 92601},
 																run: (*parser).callonSymbol20,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2888, col: 10, offset: 91535},
+																	pos:        position{line: 2903, col: 10, offset: 92601},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -47486,30 +47892,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2581, col: 14, offset: 83079},
+																pos: position{line: 2596, col: 14, offset: 84145},
 																expr: &choiceExpr{
-																	pos: position{line: 2910, col: 8, offset: 91933},
+																	pos: position{line: 2925, col: 8, offset: 92999},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2897, col: 12, offset: 91706},
+																			pos: position{line: 2912, col: 12, offset: 92772},
 																			run: (*parser).callonSymbol24,
 																			expr: &choiceExpr{
-																				pos: position{line: 2897, col: 13, offset: 91707},
+																				pos: position{line: 2912, col: 13, offset: 92773},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 13, offset: 91707},
+																						pos:        position{line: 2912, col: 13, offset: 92773},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 20, offset: 91714},
+																						pos:        position{line: 2912, col: 20, offset: 92780},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2897, col: 29, offset: 91723},
+																						pos:        position{line: 2912, col: 29, offset: 92789},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -47518,9 +47924,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2907, col: 8, offset: 91883},
+																			pos: position{line: 2922, col: 8, offset: 92949},
 																			expr: &anyMatcher{
-																				line: 2907, col: 9, offset: 91884,
+																				line: 2922, col: 9, offset: 92950,
 																			},
 																		},
 																	},
@@ -47532,53 +47938,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2586, col: 5, offset: 83199},
+											pos: position{line: 2601, col: 5, offset: 84265},
 											run: (*parser).callonSymbol31,
 											expr: &seqExpr{
-												pos: position{line: 2586, col: 5, offset: 83199},
+												pos: position{line: 2601, col: 5, offset: 84265},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2586, col: 5, offset: 83199},
+														pos:        position{line: 2601, col: 5, offset: 84265},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2587, col: 5, offset: 83209},
+														pos: position{line: 2602, col: 5, offset: 84275},
 														run: (*parser).callonSymbol34,
 													},
 													&andExpr{
-														pos: position{line: 2591, col: 5, offset: 83298},
+														pos: position{line: 2606, col: 5, offset: 84364},
 														expr: &choiceExpr{
-															pos: position{line: 2591, col: 7, offset: 83300},
+															pos: position{line: 2606, col: 7, offset: 84366},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2771, col: 13, offset: 88416},
+																	pos:        position{line: 2786, col: 13, offset: 89482},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2897, col: 12, offset: 91706},
+																	pos: position{line: 2912, col: 12, offset: 92772},
 																	run: (*parser).callonSymbol38,
 																	expr: &choiceExpr{
-																		pos: position{line: 2897, col: 13, offset: 91707},
+																		pos: position{line: 2912, col: 13, offset: 92773},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2897, col: 13, offset: 91707},
+																				pos:        position{line: 2912, col: 13, offset: 92773},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2897, col: 20, offset: 91714},
+																				pos:        position{line: 2912, col: 20, offset: 92780},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2897, col: 29, offset: 91723},
+																				pos:        position{line: 2912, col: 29, offset: 92789},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -47587,9 +47993,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2907, col: 8, offset: 91883},
+																	pos: position{line: 2922, col: 8, offset: 92949},
 																	expr: &anyMatcher{
-																		line: 2907, col: 9, offset: 91884,
+																		line: 2922, col: 9, offset: 92950,
 																	},
 																},
 															},
@@ -47604,63 +48010,63 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2531, col: 7, offset: 81666},
+						pos: position{line: 2546, col: 7, offset: 82732},
 						run: (*parser).callonSymbol45,
 						expr: &seqExpr{
-							pos: position{line: 2531, col: 7, offset: 81666},
+							pos: position{line: 2546, col: 7, offset: 82732},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2531, col: 7, offset: 81666},
+									pos:        position{line: 2546, col: 7, offset: 82732},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2531, col: 11, offset: 81670},
+									pos:   position{line: 2546, col: 11, offset: 82736},
 									label: "elements",
 									expr: &choiceExpr{
-										pos: position{line: 2531, col: 21, offset: 81680},
+										pos: position{line: 2546, col: 21, offset: 82746},
 										alternatives: []interface{}{
 											&seqExpr{
-												pos: position{line: 2531, col: 21, offset: 81680},
+												pos: position{line: 2546, col: 21, offset: 82746},
 												exprs: []interface{}{
 													&charClassMatcher{
-														pos:        position{line: 2531, col: 21, offset: 81680},
+														pos:        position{line: 2546, col: 21, offset: 82746},
 														val:        "[-=]",
 														chars:      []rune{'-', '='},
 														ignoreCase: false,
 														inverted:   false,
 													},
 													&andExpr{
-														pos: position{line: 2531, col: 26, offset: 81685},
+														pos: position{line: 2546, col: 26, offset: 82751},
 														expr: &litMatcher{
-															pos:        position{line: 2531, col: 27, offset: 81686},
+															pos:        position{line: 2546, col: 27, offset: 82752},
 															val:        ">",
 															ignoreCase: false,
 															want:       "\">\"",
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2531, col: 32, offset: 81691},
+														pos: position{line: 2546, col: 32, offset: 82757},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2475, col: 5, offset: 79774},
+																pos: position{line: 2490, col: 5, offset: 80840},
 																run: (*parser).callonSymbol55,
 																expr: &seqExpr{
-																	pos: position{line: 2475, col: 5, offset: 79774},
+																	pos: position{line: 2490, col: 5, offset: 80840},
 																	exprs: []interface{}{
 																		&andCodeExpr{
-																			pos: position{line: 2475, col: 5, offset: 79774},
+																			pos: position{line: 2490, col: 5, offset: 80840},
 																			run: (*parser).callonSymbol57,
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 2478, col: 5, offset: 79850},
+																			pos:   position{line: 2493, col: 5, offset: 80916},
 																			label: "element",
 																			expr: &actionExpr{
-																				pos: position{line: 2479, col: 9, offset: 79868},
+																				pos: position{line: 2494, col: 9, offset: 80934},
 																				run: (*parser).callonSymbol59,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2479, col: 10, offset: 79869},
+																					pos:        position{line: 2494, col: 10, offset: 80935},
 																					val:        "[<>&]",
 																					chars:      []rune{'<', '>', '&'},
 																					ignoreCase: false,
@@ -47672,28 +48078,28 @@ var g = &grammar{
 																},
 															},
 															&anyMatcher{
-																line: 2531, col: 51, offset: 81710,
+																line: 2546, col: 51, offset: 82776,
 															},
 														},
 													},
 												},
 											},
 											&seqExpr{
-												pos: position{line: 2531, col: 56, offset: 81715},
+												pos: position{line: 2546, col: 56, offset: 82781},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2531, col: 56, offset: 81715},
+														pos: position{line: 2546, col: 56, offset: 82781},
 														expr: &choiceExpr{
-															pos: position{line: 2531, col: 58, offset: 81717},
+															pos: position{line: 2546, col: 58, offset: 82783},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2531, col: 58, offset: 81717},
+																	pos:        position{line: 2546, col: 58, offset: 82783},
 																	val:        "<-",
 																	ignoreCase: false,
 																	want:       "\"<-\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2531, col: 65, offset: 81724},
+																	pos:        position{line: 2546, col: 65, offset: 82790},
 																	val:        "<=",
 																	ignoreCase: false,
 																	want:       "\"<=\"",
@@ -47702,26 +48108,26 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2531, col: 72, offset: 81731},
+														pos: position{line: 2546, col: 72, offset: 82797},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2475, col: 5, offset: 79774},
+																pos: position{line: 2490, col: 5, offset: 80840},
 																run: (*parser).callonSymbol68,
 																expr: &seqExpr{
-																	pos: position{line: 2475, col: 5, offset: 79774},
+																	pos: position{line: 2490, col: 5, offset: 80840},
 																	exprs: []interface{}{
 																		&andCodeExpr{
-																			pos: position{line: 2475, col: 5, offset: 79774},
+																			pos: position{line: 2490, col: 5, offset: 80840},
 																			run: (*parser).callonSymbol70,
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 2478, col: 5, offset: 79850},
+																			pos:   position{line: 2493, col: 5, offset: 80916},
 																			label: "element",
 																			expr: &actionExpr{
-																				pos: position{line: 2479, col: 9, offset: 79868},
+																				pos: position{line: 2494, col: 9, offset: 80934},
 																				run: (*parser).callonSymbol72,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2479, col: 10, offset: 79869},
+																					pos:        position{line: 2494, col: 10, offset: 80935},
 																					val:        "[<>&]",
 																					chars:      []rune{'<', '>', '&'},
 																					ignoreCase: false,
@@ -47733,12 +48139,12 @@ var g = &grammar{
 																},
 															},
 															&anyMatcher{
-																line: 2531, col: 91, offset: 81750,
+																line: 2546, col: 91, offset: 82816,
 															},
 														},
 													},
 													&anyMatcher{
-														line: 2531, col: 94, offset: 81753,
+														line: 2546, col: 94, offset: 82819,
 													},
 												},
 											},
@@ -47749,73 +48155,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2532, col: 7, offset: 81787},
+						pos:  position{line: 2547, col: 7, offset: 82853},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2557, col: 14, offset: 82636},
+						pos: position{line: 2572, col: 14, offset: 83702},
 						run: (*parser).callonSymbol77,
 						expr: &litMatcher{
-							pos:        position{line: 2557, col: 14, offset: 82636},
+							pos:        position{line: 2572, col: 14, offset: 83702},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2561, col: 14, offset: 82702},
+						pos: position{line: 2576, col: 14, offset: 83768},
 						run: (*parser).callonSymbol79,
 						expr: &litMatcher{
-							pos:        position{line: 2561, col: 14, offset: 82702},
+							pos:        position{line: 2576, col: 14, offset: 83768},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2565, col: 15, offset: 82771},
+						pos: position{line: 2580, col: 15, offset: 83837},
 						run: (*parser).callonSymbol81,
 						expr: &litMatcher{
-							pos:        position{line: 2565, col: 15, offset: 82771},
+							pos:        position{line: 2580, col: 15, offset: 83837},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2569, col: 13, offset: 82836},
+						pos: position{line: 2584, col: 13, offset: 83902},
 						run: (*parser).callonSymbol83,
 						expr: &litMatcher{
-							pos:        position{line: 2569, col: 13, offset: 82836},
+							pos:        position{line: 2584, col: 13, offset: 83902},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2576, col: 5, offset: 82974},
+						pos: position{line: 2591, col: 5, offset: 84040},
 						run: (*parser).callonSymbol85,
 						expr: &seqExpr{
-							pos: position{line: 2576, col: 5, offset: 82974},
+							pos: position{line: 2591, col: 5, offset: 84040},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2576, col: 5, offset: 82974},
+									pos:        position{line: 2591, col: 5, offset: 84040},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2577, col: 5, offset: 82984},
+									pos: position{line: 2592, col: 5, offset: 84050},
 									run: (*parser).callonSymbol88,
 								},
 								&choiceExpr{
-									pos: position{line: 2581, col: 6, offset: 83071},
+									pos: position{line: 2596, col: 6, offset: 84137},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2888, col: 10, offset: 91535},
+											pos: position{line: 2903, col: 10, offset: 92601},
 											run: (*parser).callonSymbol90,
 											expr: &charClassMatcher{
-												pos:        position{line: 2888, col: 10, offset: 91535},
+												pos:        position{line: 2903, col: 10, offset: 92601},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -47823,30 +48229,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2581, col: 14, offset: 83079},
+											pos: position{line: 2596, col: 14, offset: 84145},
 											expr: &choiceExpr{
-												pos: position{line: 2910, col: 8, offset: 91933},
+												pos: position{line: 2925, col: 8, offset: 92999},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2897, col: 12, offset: 91706},
+														pos: position{line: 2912, col: 12, offset: 92772},
 														run: (*parser).callonSymbol94,
 														expr: &choiceExpr{
-															pos: position{line: 2897, col: 13, offset: 91707},
+															pos: position{line: 2912, col: 13, offset: 92773},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2897, col: 13, offset: 91707},
+																	pos:        position{line: 2912, col: 13, offset: 92773},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2897, col: 20, offset: 91714},
+																	pos:        position{line: 2912, col: 20, offset: 92780},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2897, col: 29, offset: 91723},
+																	pos:        position{line: 2912, col: 29, offset: 92789},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -47855,9 +48261,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2907, col: 8, offset: 91883},
+														pos: position{line: 2922, col: 8, offset: 92949},
 														expr: &anyMatcher{
-															line: 2907, col: 9, offset: 91884,
+															line: 2922, col: 9, offset: 92950,
 														},
 													},
 												},
@@ -47869,53 +48275,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2586, col: 5, offset: 83199},
+						pos: position{line: 2601, col: 5, offset: 84265},
 						run: (*parser).callonSymbol101,
 						expr: &seqExpr{
-							pos: position{line: 2586, col: 5, offset: 83199},
+							pos: position{line: 2601, col: 5, offset: 84265},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2586, col: 5, offset: 83199},
+									pos:        position{line: 2601, col: 5, offset: 84265},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2587, col: 5, offset: 83209},
+									pos: position{line: 2602, col: 5, offset: 84275},
 									run: (*parser).callonSymbol104,
 								},
 								&andExpr{
-									pos: position{line: 2591, col: 5, offset: 83298},
+									pos: position{line: 2606, col: 5, offset: 84364},
 									expr: &choiceExpr{
-										pos: position{line: 2591, col: 7, offset: 83300},
+										pos: position{line: 2606, col: 7, offset: 84366},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2771, col: 13, offset: 88416},
+												pos:        position{line: 2786, col: 13, offset: 89482},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2897, col: 12, offset: 91706},
+												pos: position{line: 2912, col: 12, offset: 92772},
 												run: (*parser).callonSymbol108,
 												expr: &choiceExpr{
-													pos: position{line: 2897, col: 13, offset: 91707},
+													pos: position{line: 2912, col: 13, offset: 92773},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2897, col: 13, offset: 91707},
+															pos:        position{line: 2912, col: 13, offset: 92773},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2897, col: 20, offset: 91714},
+															pos:        position{line: 2912, col: 20, offset: 92780},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2897, col: 29, offset: 91723},
+															pos:        position{line: 2912, col: 29, offset: 92789},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -47924,9 +48330,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2907, col: 8, offset: 91883},
+												pos: position{line: 2922, col: 8, offset: 92949},
 												expr: &anyMatcher{
-													line: 2907, col: 9, offset: 91884,
+													line: 2922, col: 9, offset: 92950,
 												},
 											},
 										},
@@ -47936,40 +48342,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2597, col: 21, offset: 83388},
+						pos: position{line: 2612, col: 21, offset: 84454},
 						run: (*parser).callonSymbol115,
 						expr: &litMatcher{
-							pos:        position{line: 2597, col: 21, offset: 83388},
+							pos:        position{line: 2612, col: 21, offset: 84454},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2601, col: 20, offset: 83458},
+						pos: position{line: 2616, col: 20, offset: 84524},
 						run: (*parser).callonSymbol117,
 						expr: &litMatcher{
-							pos:        position{line: 2601, col: 20, offset: 83458},
+							pos:        position{line: 2616, col: 20, offset: 84524},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2605, col: 21, offset: 83529},
+						pos: position{line: 2620, col: 21, offset: 84595},
 						run: (*parser).callonSymbol119,
 						expr: &litMatcher{
-							pos:        position{line: 2605, col: 21, offset: 83529},
+							pos:        position{line: 2620, col: 21, offset: 84595},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2609, col: 20, offset: 83599},
+						pos: position{line: 2624, col: 20, offset: 84665},
 						run: (*parser).callonSymbol121,
 						expr: &litMatcher{
-							pos:        position{line: 2609, col: 20, offset: 83599},
+							pos:        position{line: 2624, col: 20, offset: 84665},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -47980,49 +48386,99 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2543, col: 1, offset: 81977},
+			pos:  position{line: 2558, col: 1, offset: 83043},
 			expr: &choiceExpr{
-				pos: position{line: 2544, col: 5, offset: 81999},
+				pos: position{line: 2559, col: 5, offset: 83065},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2544, col: 5, offset: 81999},
+						pos: position{line: 2559, col: 5, offset: 83065},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2544, col: 5, offset: 81999},
+							pos: position{line: 2559, col: 5, offset: 83065},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2544, col: 5, offset: 81999},
+									pos:        position{line: 2559, col: 5, offset: 83065},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2544, col: 11, offset: 82005},
+									pos: position{line: 2559, col: 11, offset: 83071},
 									expr: &seqExpr{
-										pos: position{line: 2092, col: 5, offset: 67840},
+										pos: position{line: 2099, col: 5, offset: 68367},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2092, col: 5, offset: 67840},
+												pos:        position{line: 2099, col: 5, offset: 68367},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2093, col: 5, offset: 67849},
+												pos: position{line: 2100, col: 5, offset: 68376},
 												run: (*parser).callonQuotationMark8,
 											},
 											&andExpr{
-												pos: position{line: 2097, col: 5, offset: 67972},
+												pos: position{line: 2104, col: 5, offset: 68499},
 												expr: &notExpr{
-													pos: position{line: 2097, col: 7, offset: 67974},
+													pos: position{line: 2104, col: 7, offset: 68501},
 													expr: &litMatcher{
-														pos:        position{line: 2097, col: 8, offset: 67975},
+														pos:        position{line: 2104, col: 8, offset: 68502},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
 													},
 												},
 											},
+											&andExpr{
+												pos: position{line: 2105, col: 5, offset: 68568},
+												expr: &seqExpr{
+													pos: position{line: 2118, col: 46, offset: 68967},
+													exprs: []interface{}{
+														&zeroOrMoreExpr{
+															pos: position{line: 2118, col: 46, offset: 68967},
+															expr: &choiceExpr{
+																pos: position{line: 2118, col: 47, offset: 68968},
+																alternatives: []interface{}{
+																	&charClassMatcher{
+																		pos:        position{line: 2118, col: 47, offset: 68968},
+																		val:        "[^`]",
+																		chars:      []rune{'`'},
+																		ignoreCase: false,
+																		inverted:   true,
+																	},
+																	&seqExpr{
+																		pos: position{line: 2118, col: 54, offset: 68975},
+																		exprs: []interface{}{
+																			&litMatcher{
+																				pos:        position{line: 2118, col: 54, offset: 68975},
+																				val:        "`",
+																				ignoreCase: false,
+																				want:       "\"`\"",
+																			},
+																			&andExpr{
+																				pos: position{line: 2118, col: 58, offset: 68979},
+																				expr: &charClassMatcher{
+																					pos:        position{line: 2786, col: 13, offset: 89482},
+																					val:        "[\\pL\\pN]",
+																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																					ignoreCase: false,
+																					inverted:   false,
+																				},
+																			},
+																		},
+																	},
+																},
+															},
+														},
+														&litMatcher{
+															pos:        position{line: 2118, col: 70, offset: 68991},
+															val:        "`",
+															ignoreCase: false,
+															want:       "\"`\"",
+														},
+													},
+												},
+											},
 										},
 									},
 								},
@@ -48030,21 +48486,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2547, col: 7, offset: 82158},
-						run: (*parser).callonQuotationMark12,
+						pos: position{line: 2562, col: 7, offset: 83224},
+						run: (*parser).callonQuotationMark22,
 						expr: &seqExpr{
-							pos: position{line: 2547, col: 7, offset: 82158},
+							pos: position{line: 2562, col: 7, offset: 83224},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2547, col: 7, offset: 82158},
+									pos:        position{line: 2562, col: 7, offset: 83224},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2547, col: 13, offset: 82164},
+									pos: position{line: 2562, col: 13, offset: 83230},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2547, col: 14, offset: 82165},
+										pos:  position{line: 2562, col: 14, offset: 83231},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -48052,44 +48508,94 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2550, col: 7, offset: 82315},
-						run: (*parser).callonQuotationMark17,
+						pos: position{line: 2565, col: 7, offset: 83381},
+						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2550, col: 7, offset: 82315},
+							pos: position{line: 2565, col: 7, offset: 83381},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2550, col: 7, offset: 82315},
+									pos:        position{line: 2565, col: 7, offset: 83381},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2550, col: 12, offset: 82320},
+									pos: position{line: 2565, col: 12, offset: 83386},
 									expr: &seqExpr{
-										pos: position{line: 2092, col: 5, offset: 67840},
+										pos: position{line: 2099, col: 5, offset: 68367},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2092, col: 5, offset: 67840},
+												pos:        position{line: 2099, col: 5, offset: 68367},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2093, col: 5, offset: 67849},
-												run: (*parser).callonQuotationMark23,
+												pos: position{line: 2100, col: 5, offset: 68376},
+												run: (*parser).callonQuotationMark33,
 											},
 											&andExpr{
-												pos: position{line: 2097, col: 5, offset: 67972},
+												pos: position{line: 2104, col: 5, offset: 68499},
 												expr: &notExpr{
-													pos: position{line: 2097, col: 7, offset: 67974},
+													pos: position{line: 2104, col: 7, offset: 68501},
 													expr: &litMatcher{
-														pos:        position{line: 2097, col: 8, offset: 67975},
+														pos:        position{line: 2104, col: 8, offset: 68502},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
 													},
 												},
 											},
+											&andExpr{
+												pos: position{line: 2105, col: 5, offset: 68568},
+												expr: &seqExpr{
+													pos: position{line: 2118, col: 46, offset: 68967},
+													exprs: []interface{}{
+														&zeroOrMoreExpr{
+															pos: position{line: 2118, col: 46, offset: 68967},
+															expr: &choiceExpr{
+																pos: position{line: 2118, col: 47, offset: 68968},
+																alternatives: []interface{}{
+																	&charClassMatcher{
+																		pos:        position{line: 2118, col: 47, offset: 68968},
+																		val:        "[^`]",
+																		chars:      []rune{'`'},
+																		ignoreCase: false,
+																		inverted:   true,
+																	},
+																	&seqExpr{
+																		pos: position{line: 2118, col: 54, offset: 68975},
+																		exprs: []interface{}{
+																			&litMatcher{
+																				pos:        position{line: 2118, col: 54, offset: 68975},
+																				val:        "`",
+																				ignoreCase: false,
+																				want:       "\"`\"",
+																			},
+																			&andExpr{
+																				pos: position{line: 2118, col: 58, offset: 68979},
+																				expr: &charClassMatcher{
+																					pos:        position{line: 2786, col: 13, offset: 89482},
+																					val:        "[\\pL\\pN]",
+																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																					ignoreCase: false,
+																					inverted:   false,
+																				},
+																			},
+																		},
+																	},
+																},
+															},
+														},
+														&litMatcher{
+															pos:        position{line: 2118, col: 70, offset: 68991},
+															val:        "`",
+															ignoreCase: false,
+															want:       "\"`\"",
+														},
+													},
+												},
+											},
 										},
 									},
 								},
@@ -48097,21 +48603,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2553, col: 7, offset: 82473},
-						run: (*parser).callonQuotationMark27,
+						pos: position{line: 2568, col: 7, offset: 83539},
+						run: (*parser).callonQuotationMark47,
 						expr: &seqExpr{
-							pos: position{line: 2553, col: 7, offset: 82473},
+							pos: position{line: 2568, col: 7, offset: 83539},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2553, col: 7, offset: 82473},
+									pos:        position{line: 2568, col: 7, offset: 83539},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2553, col: 12, offset: 82478},
+									pos: position{line: 2568, col: 12, offset: 83544},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2553, col: 13, offset: 82479},
+										pos:  position{line: 2568, col: 13, offset: 83545},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -48123,63 +48629,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2686, col: 1, offset: 85501},
+			pos:  position{line: 2701, col: 1, offset: 86567},
 			expr: &actionExpr{
-				pos: position{line: 2686, col: 26, offset: 85526},
+				pos: position{line: 2701, col: 26, offset: 86592},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2686, col: 26, offset: 85526},
+					pos: position{line: 2701, col: 26, offset: 86592},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2686, col: 26, offset: 85526},
+							pos:   position{line: 2701, col: 26, offset: 86592},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2686, col: 31, offset: 85531},
+								pos: position{line: 2701, col: 31, offset: 86597},
 								expr: &actionExpr{
-									pos: position{line: 2691, col: 5, offset: 85594},
+									pos: position{line: 2706, col: 5, offset: 86660},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2691, col: 5, offset: 85594},
+										pos: position{line: 2706, col: 5, offset: 86660},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2905, col: 11, offset: 91869},
+												pos: position{line: 2920, col: 11, offset: 92935},
 												expr: &anyMatcher{
-													line: 2905, col: 13, offset: 91871,
+													line: 2920, col: 13, offset: 92937,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2694, col: 5, offset: 85720},
+												pos:   position{line: 2709, col: 5, offset: 86786},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2694, col: 16, offset: 85731},
+													pos: position{line: 2709, col: 16, offset: 86797},
 													expr: &actionExpr{
-														pos: position{line: 2694, col: 17, offset: 85732},
+														pos: position{line: 2709, col: 17, offset: 86798},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2694, col: 17, offset: 85732},
+															pos: position{line: 2709, col: 17, offset: 86798},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2694, col: 17, offset: 85732},
+																	pos:   position{line: 2709, col: 17, offset: 86798},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2880, col: 12, offset: 91362},
+																		pos: position{line: 2895, col: 12, offset: 92428},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2880, col: 13, offset: 91363},
+																			pos: position{line: 2895, col: 13, offset: 92429},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2880, col: 13, offset: 91363},
+																					pos: position{line: 2895, col: 13, offset: 92429},
 																					expr: &litMatcher{
-																						pos:        position{line: 2880, col: 13, offset: 91363},
+																						pos:        position{line: 2895, col: 13, offset: 92429},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2880, col: 18, offset: 91368},
+																					pos: position{line: 2895, col: 18, offset: 92434},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2880, col: 18, offset: 91368},
+																						pos:        position{line: 2895, col: 18, offset: 92434},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -48191,7 +48697,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2694, col: 27, offset: 85742},
+																	pos:        position{line: 2709, col: 27, offset: 86808},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -48202,38 +48708,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2695, col: 5, offset: 85770},
+												pos:   position{line: 2710, col: 5, offset: 86836},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2695, col: 12, offset: 85777},
+													pos: position{line: 2710, col: 12, offset: 86843},
 													expr: &choiceExpr{
-														pos: position{line: 2696, col: 9, offset: 85787},
+														pos: position{line: 2711, col: 9, offset: 86853},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2696, col: 9, offset: 85787},
+																pos: position{line: 2711, col: 9, offset: 86853},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2696, col: 9, offset: 85787},
+																	pos:        position{line: 2711, col: 9, offset: 86853},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2697, col: 11, offset: 85834},
+																pos: position{line: 2712, col: 11, offset: 86900},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2697, col: 11, offset: 85834},
+																	pos:        position{line: 2712, col: 11, offset: 86900},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2698, col: 11, offset: 85882},
+																pos: position{line: 2713, col: 11, offset: 86948},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2698, col: 11, offset: 85882},
+																	pos:        position{line: 2713, col: 11, offset: 86948},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -48244,38 +48750,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2700, col: 5, offset: 85932},
+												pos:   position{line: 2715, col: 5, offset: 86998},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2700, col: 12, offset: 85939},
+													pos: position{line: 2715, col: 12, offset: 87005},
 													expr: &choiceExpr{
-														pos: position{line: 2701, col: 9, offset: 85949},
+														pos: position{line: 2716, col: 9, offset: 87015},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2701, col: 9, offset: 85949},
+																pos: position{line: 2716, col: 9, offset: 87015},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2701, col: 9, offset: 85949},
+																	pos:        position{line: 2716, col: 9, offset: 87015},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2702, col: 11, offset: 85996},
+																pos: position{line: 2717, col: 11, offset: 87062},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2702, col: 11, offset: 85996},
+																	pos:        position{line: 2717, col: 11, offset: 87062},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2703, col: 11, offset: 86046},
+																pos: position{line: 2718, col: 11, offset: 87112},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2703, col: 11, offset: 86046},
+																	pos:        position{line: 2718, col: 11, offset: 87112},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -48286,32 +48792,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2705, col: 5, offset: 86097},
+												pos:   position{line: 2720, col: 5, offset: 87163},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2705, col: 12, offset: 86104},
+													pos: position{line: 2720, col: 12, offset: 87170},
 													expr: &choiceExpr{
-														pos: position{line: 2705, col: 13, offset: 86105},
+														pos: position{line: 2720, col: 13, offset: 87171},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2880, col: 12, offset: 91362},
+																pos: position{line: 2895, col: 12, offset: 92428},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2880, col: 13, offset: 91363},
+																	pos: position{line: 2895, col: 13, offset: 92429},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2880, col: 13, offset: 91363},
+																			pos: position{line: 2895, col: 13, offset: 92429},
 																			expr: &litMatcher{
-																				pos:        position{line: 2880, col: 13, offset: 91363},
+																				pos:        position{line: 2895, col: 13, offset: 92429},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2880, col: 18, offset: 91368},
+																			pos: position{line: 2895, col: 18, offset: 92434},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2880, col: 18, offset: 91368},
+																				pos:        position{line: 2895, col: 18, offset: 92434},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -48322,10 +48828,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2705, col: 24, offset: 86116},
+																pos: position{line: 2720, col: 24, offset: 87182},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2705, col: 24, offset: 86116},
+																	pos:        position{line: 2720, col: 24, offset: 87182},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -48336,15 +48842,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2706, col: 5, offset: 86158},
+												pos:   position{line: 2721, col: 5, offset: 87224},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2706, col: 11, offset: 86164},
+													pos: position{line: 2721, col: 11, offset: 87230},
 													expr: &actionExpr{
-														pos: position{line: 2706, col: 12, offset: 86165},
+														pos: position{line: 2721, col: 12, offset: 87231},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2706, col: 12, offset: 86165},
+															pos:        position{line: 2721, col: 12, offset: 87231},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -48354,12 +48860,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2708, col: 5, offset: 86295},
+												pos:   position{line: 2723, col: 5, offset: 87361},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2708, col: 11, offset: 86301},
+													pos: position{line: 2723, col: 11, offset: 87367},
 													expr: &litMatcher{
-														pos:        position{line: 2708, col: 12, offset: 86302},
+														pos:        position{line: 2723, col: 12, offset: 87368},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -48367,7 +48873,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2709, col: 5, offset: 86312},
+												pos: position{line: 2724, col: 5, offset: 87378},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -48376,9 +48882,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2907, col: 8, offset: 91883},
+							pos: position{line: 2922, col: 8, offset: 92949},
 							expr: &anyMatcher{
-								line: 2907, col: 9, offset: 91884,
+								line: 2922, col: 9, offset: 92950,
 							},
 						},
 					},
@@ -48387,23 +48893,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2736, col: 1, offset: 87316},
+			pos:  position{line: 2751, col: 1, offset: 88382},
 			expr: &actionExpr{
-				pos: position{line: 2737, col: 5, offset: 87339},
+				pos: position{line: 2752, col: 5, offset: 88405},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2737, col: 5, offset: 87339},
+					pos: position{line: 2752, col: 5, offset: 88405},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2737, col: 5, offset: 87339},
+							pos:   position{line: 2752, col: 5, offset: 88405},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2760, col: 18, offset: 88080},
+								pos: position{line: 2775, col: 18, offset: 89146},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2760, col: 19, offset: 88081},
+									pos: position{line: 2775, col: 19, offset: 89147},
 									expr: &charClassMatcher{
-										pos:        position{line: 2760, col: 19, offset: 88081},
+										pos:        position{line: 2775, col: 19, offset: 89147},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48414,25 +48920,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2738, col: 5, offset: 87365},
+							pos: position{line: 2753, col: 5, offset: 88431},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2742, col: 5, offset: 87493},
+							pos:        position{line: 2757, col: 5, offset: 88559},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2743, col: 5, offset: 87503},
+							pos:   position{line: 2758, col: 5, offset: 88569},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2764, col: 19, offset: 88156},
+								pos: position{line: 2779, col: 19, offset: 89222},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2764, col: 19, offset: 88156},
+									pos: position{line: 2779, col: 19, offset: 89222},
 									expr: &charClassMatcher{
-										pos:        position{line: 2764, col: 19, offset: 88156},
+										pos:        position{line: 2779, col: 19, offset: 89222},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -48442,36 +48948,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2744, col: 5, offset: 87531},
+							pos:   position{line: 2759, col: 5, offset: 88597},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2744, col: 17, offset: 87543},
+								pos:  position{line: 2759, col: 17, offset: 88609},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2910, col: 8, offset: 91933},
+							pos: position{line: 2925, col: 8, offset: 92999},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2897, col: 12, offset: 91706},
+									pos: position{line: 2912, col: 12, offset: 92772},
 									run: (*parser).callonUserMacroBlock16,
 									expr: &choiceExpr{
-										pos: position{line: 2897, col: 13, offset: 91707},
+										pos: position{line: 2912, col: 13, offset: 92773},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2897, col: 13, offset: 91707},
+												pos:        position{line: 2912, col: 13, offset: 92773},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2897, col: 20, offset: 91714},
+												pos:        position{line: 2912, col: 20, offset: 92780},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2897, col: 29, offset: 91723},
+												pos:        position{line: 2912, col: 29, offset: 92789},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -48480,9 +48986,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2907, col: 8, offset: 91883},
+									pos: position{line: 2922, col: 8, offset: 92949},
 									expr: &anyMatcher{
-										line: 2907, col: 9, offset: 91884,
+										line: 2922, col: 9, offset: 92950,
 									},
 								},
 							},
@@ -48493,23 +48999,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2748, col: 1, offset: 87691},
+			pos:  position{line: 2763, col: 1, offset: 88757},
 			expr: &actionExpr{
-				pos: position{line: 2749, col: 5, offset: 87715},
+				pos: position{line: 2764, col: 5, offset: 88781},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2749, col: 5, offset: 87715},
+					pos: position{line: 2764, col: 5, offset: 88781},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2749, col: 5, offset: 87715},
+							pos:   position{line: 2764, col: 5, offset: 88781},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2760, col: 18, offset: 88080},
+								pos: position{line: 2775, col: 18, offset: 89146},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2760, col: 19, offset: 88081},
+									pos: position{line: 2775, col: 19, offset: 89147},
 									expr: &charClassMatcher{
-										pos:        position{line: 2760, col: 19, offset: 88081},
+										pos:        position{line: 2775, col: 19, offset: 89147},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48520,25 +49026,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2750, col: 5, offset: 87741},
+							pos: position{line: 2765, col: 5, offset: 88807},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2754, col: 5, offset: 87869},
+							pos:        position{line: 2769, col: 5, offset: 88935},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2755, col: 5, offset: 87878},
+							pos:   position{line: 2770, col: 5, offset: 88944},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2764, col: 19, offset: 88156},
+								pos: position{line: 2779, col: 19, offset: 89222},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2764, col: 19, offset: 88156},
+									pos: position{line: 2779, col: 19, offset: 89222},
 									expr: &charClassMatcher{
-										pos:        position{line: 2764, col: 19, offset: 88156},
+										pos:        position{line: 2779, col: 19, offset: 89222},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -48548,10 +49054,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2756, col: 5, offset: 87906},
+							pos:   position{line: 2771, col: 5, offset: 88972},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2756, col: 17, offset: 87918},
+								pos:  position{line: 2771, col: 17, offset: 88984},
 								name: "InlineAttributes",
 							},
 						},
@@ -48561,43 +49067,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2842, col: 1, offset: 90182},
+			pos:  position{line: 2857, col: 1, offset: 91248},
 			expr: &actionExpr{
-				pos: position{line: 2842, col: 17, offset: 90198},
+				pos: position{line: 2857, col: 17, offset: 91264},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2842, col: 17, offset: 90198},
+					pos:   position{line: 2857, col: 17, offset: 91264},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2859, col: 5, offset: 90652},
+						pos: position{line: 2874, col: 5, offset: 91718},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2859, col: 5, offset: 90652},
+							pos:   position{line: 2874, col: 5, offset: 91718},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2859, col: 14, offset: 90661},
+								pos: position{line: 2874, col: 14, offset: 91727},
 								expr: &choiceExpr{
-									pos: position{line: 2860, col: 9, offset: 90671},
+									pos: position{line: 2875, col: 9, offset: 91737},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2860, col: 9, offset: 90671},
+											pos: position{line: 2875, col: 9, offset: 91737},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2860, col: 9, offset: 90671},
+												pos: position{line: 2875, col: 9, offset: 91737},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2860, col: 9, offset: 90671},
+														pos: position{line: 2875, col: 9, offset: 91737},
 														expr: &litMatcher{
-															pos:        position{line: 2860, col: 10, offset: 90672},
+															pos:        position{line: 2875, col: 10, offset: 91738},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2861, col: 9, offset: 90700},
+														pos: position{line: 2876, col: 9, offset: 91766},
 														expr: &charClassMatcher{
-															pos:        position{line: 2861, col: 10, offset: 90701},
+															pos:        position{line: 2876, col: 10, offset: 91767},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -48608,27 +49114,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2864, col: 11, offset: 90913},
+											pos: position{line: 2879, col: 11, offset: 91979},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2864, col: 11, offset: 90913},
+													pos:        position{line: 2879, col: 11, offset: 91979},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2864, col: 19, offset: 90921},
+													pos: position{line: 2879, col: 19, offset: 91987},
 													expr: &seqExpr{
-														pos: position{line: 2864, col: 21, offset: 90923},
+														pos: position{line: 2879, col: 21, offset: 91989},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2864, col: 21, offset: 90923},
+																pos: position{line: 2879, col: 21, offset: 91989},
 																expr: &actionExpr{
-																	pos: position{line: 2888, col: 10, offset: 91535},
+																	pos: position{line: 2903, col: 10, offset: 92601},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2888, col: 10, offset: 91535},
+																		pos:        position{line: 2903, col: 10, offset: 92601},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -48637,11 +49143,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2864, col: 28, offset: 90930},
+																pos: position{line: 2879, col: 28, offset: 91996},
 																expr: &notExpr{
-																	pos: position{line: 2907, col: 8, offset: 91883},
+																	pos: position{line: 2922, col: 8, offset: 92949},
 																	expr: &anyMatcher{
-																		line: 2907, col: 9, offset: 91884,
+																		line: 2922, col: 9, offset: 92950,
 																	},
 																},
 															},
@@ -49040,10 +49546,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2867, col: 11, offset: 91050},
+											pos: position{line: 2882, col: 11, offset: 92116},
 											run: (*parser).callonFileLocation101,
 											expr: &litMatcher{
-												pos:        position{line: 2867, col: 11, offset: 91050},
+												pos:        position{line: 2882, col: 11, offset: 92116},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -71173,16 +71679,16 @@ func (p *parser) callonSingleQuoteBoldText4() (bool, error) {
 	return p.cur.onSingleQuoteBoldText4()
 }
 
-func (c *current) onSingleQuoteBoldText13(elements interface{}) (bool, error) {
+func (c *current) onSingleQuoteBoldText23(elements interface{}) (bool, error) {
 	log.Debug("SingleQuoteBoldTextEndDelimiter")
 	return !c.isPrecededBySpace(), nil
 
 }
 
-func (p *parser) callonSingleQuoteBoldText13() (bool, error) {
+func (p *parser) callonSingleQuoteBoldText23() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSingleQuoteBoldText13(stack["elements"])
+	return p.cur.onSingleQuoteBoldText23(stack["elements"])
 }
 
 func (c *current) onSingleQuoteBoldText1(elements interface{}) (interface{}, error) {
@@ -71359,16 +71865,16 @@ func (p *parser) callonSingleQuoteItalicText4() (bool, error) {
 	return p.cur.onSingleQuoteItalicText4()
 }
 
-func (c *current) onSingleQuoteItalicText13(elements interface{}) (bool, error) {
+func (c *current) onSingleQuoteItalicText23(elements interface{}) (bool, error) {
 	log.Debug("SingleQuoteItalicTextEndDelimiter")
 	return !c.isPrecededBySpace(), nil
 
 }
 
-func (p *parser) callonSingleQuoteItalicText13() (bool, error) {
+func (p *parser) callonSingleQuoteItalicText23() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSingleQuoteItalicText13(stack["elements"])
+	return p.cur.onSingleQuoteItalicText23(stack["elements"])
 }
 
 func (c *current) onSingleQuoteItalicText1(elements interface{}) (interface{}, error) {
@@ -71719,16 +72225,16 @@ func (p *parser) callonSingleQuoteMarkedText4() (bool, error) {
 	return p.cur.onSingleQuoteMarkedText4()
 }
 
-func (c *current) onSingleQuoteMarkedText13(elements interface{}) (bool, error) {
+func (c *current) onSingleQuoteMarkedText23(elements interface{}) (bool, error) {
 	log.Debug("SingleQuoteMarkedTextEndDelimiter")
 	return !c.isPrecededBySpace(), nil
 
 }
 
-func (p *parser) callonSingleQuoteMarkedText13() (bool, error) {
+func (p *parser) callonSingleQuoteMarkedText23() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSingleQuoteMarkedText13(stack["elements"])
+	return p.cur.onSingleQuoteMarkedText23(stack["elements"])
 }
 
 func (c *current) onSingleQuoteMarkedText1(elements interface{}) (interface{}, error) {
@@ -74530,52 +75036,52 @@ func (p *parser) callonQuotationMark2() (interface{}, error) {
 	return p.cur.onQuotationMark2()
 }
 
-func (c *current) onQuotationMark12() (interface{}, error) {
+func (c *current) onQuotationMark22() (interface{}, error) {
 	// do not conflict with quotation mark within monospace text
 	return types.NewSymbol("\"`")
 
 }
 
-func (p *parser) callonQuotationMark12() (interface{}, error) {
+func (p *parser) callonQuotationMark22() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotationMark12()
+	return p.cur.onQuotationMark22()
 }
 
-func (c *current) onQuotationMark23() (bool, error) {
+func (c *current) onQuotationMark33() (bool, error) {
 	log.Debug("SingleQuoteMonospaceTextStartDelimiter")
 	return c.isSingleQuotedTextAllowed(), nil
 
 }
 
-func (p *parser) callonQuotationMark23() (bool, error) {
+func (p *parser) callonQuotationMark33() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotationMark23()
+	return p.cur.onQuotationMark33()
 }
 
-func (c *current) onQuotationMark17() (interface{}, error) {
+func (c *current) onQuotationMark27() (interface{}, error) {
 	// do not conflict with quotation mark within monospace text
 	return types.NewSymbol("`'")
 
 }
 
-func (p *parser) callonQuotationMark17() (interface{}, error) {
+func (p *parser) callonQuotationMark27() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotationMark17()
+	return p.cur.onQuotationMark27()
 }
 
-func (c *current) onQuotationMark27() (interface{}, error) {
+func (c *current) onQuotationMark47() (interface{}, error) {
 	// do not conflict with quotation mark within monospace text
 	return types.NewSymbol("'`")
 
 }
 
-func (p *parser) callonQuotationMark27() (interface{}, error) {
+func (p *parser) callonQuotationMark47() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotationMark27()
+	return p.cur.onQuotationMark47()
 }
 
 func (c *current) onTableColumnsAttribute14() (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index cfbeef1..1817e6f 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -1914,6 +1914,7 @@ SingleQuoteBoldTextStartDelimiter <-
         return c.isSingleQuotedTextAllowed(), nil
     }
     &(!"*") // not to be confused with double quoted start delimiter // TODO: needed?
+    &(SingleQuoteBoldTextEndDelimiterAhead)
 
 SingleQuoteBoldTextEndDelimiter <- 
     "*" 
@@ -1924,6 +1925,9 @@ SingleQuoteBoldTextEndDelimiter <-
     }
     &(!Alphanum)
 
+// checks that there may be an end delimiter afterwards (otherwise, the time to parse is exponential)
+SingleQuoteBoldTextEndDelimiterAhead <- ([^*] / "*" &("*" / Alphanum))* "*"
+
 SingleQuoteBoldText <- 
     SingleQuoteBoldTextStartDelimiter
     elements:(SingleQuoteBoldTextElements) 
@@ -1959,7 +1963,7 @@ EscapedBoldText <-
         return types.NewEscapedQuotedText(backslashes.(string), "*", result)
     } 
     // single escape: \*not bold*
-    / backslashes:(OneOrMoreBackslashes) "*" elements:(SingleQuoteBoldTextElements) "*" { 
+    / backslashes:(OneOrMoreBackslashes) "*" &(SingleQuoteBoldTextEndDelimiterAhead) elements:(SingleQuoteBoldTextElements) "*" { 
         return types.NewEscapedQuotedText(backslashes.(string), "*", elements.([]interface{}))
     }
 
@@ -2003,7 +2007,7 @@ SingleQuoteItalicTextStartDelimiter <-
         return c.isSingleQuotedTextAllowed(), nil
     }
     &(!"_") // not to be confused with double quoted start delimiter
-    
+    &(SingleQuoteItalicTextEndDelimiterAhead)
 
 SingleQuoteItalicTextEndDelimiter <- 
     "_" 
@@ -2014,6 +2018,9 @@ SingleQuoteItalicTextEndDelimiter <-
     }
     &(!Alphanum)
 
+// checks that there may be an end delimiter afterwards (otherwise, the time to parse is exponential)
+SingleQuoteItalicTextEndDelimiterAhead <- ([^_] / "_" &("_" / Alphanum))* "_"
+
 SingleQuoteItalicText <- 
     SingleQuoteItalicTextStartDelimiter
     elements:(SingleQuoteItalicTextElements) 
@@ -2049,7 +2056,7 @@ EscapedItalicText <-
         return types.NewEscapedQuotedText(backslashes.(string), "_", result)
     } 
     // single escape: \_not italic_
-    / backslashes:(OneOrMoreBackslashes) "_" elements:(SingleQuoteItalicTextElements) "_" { // simple punctuation must be evaluated last
+    / backslashes:(OneOrMoreBackslashes) "_" &(SingleQuoteItalicTextEndDelimiterAhead) elements:(SingleQuoteItalicTextElements) "_" { // simple punctuation must be evaluated last
         return types.NewEscapedQuotedText(backslashes.(string), "_", elements.([]interface{}))
     } 
 
@@ -2095,6 +2102,7 @@ SingleQuoteMonospaceTextStartDelimiter <-
         return c.isSingleQuotedTextAllowed(), nil
     }
     &(!"`") // not to be confused with double quoted start delimiter
+    &(SingleQuoteMonospaceTextEndDelimiterAhead)
 
 SingleQuoteMonospaceTextEndDelimiter <- 
     !QuotationMark 
@@ -2106,6 +2114,9 @@ SingleQuoteMonospaceTextEndDelimiter <-
     &(!Alphanum)
     
 
+// checks that there may be an end delimiter afterwards (otherwise, the time to parse is exponential)
+SingleQuoteMonospaceTextEndDelimiterAhead <- ([^`] / "`" &Alphanum)* "`"
+
 SingleQuoteMonospaceText <- 
     SingleQuoteMonospaceTextStartDelimiter 
     elements:(SingleQuoteMonospaceTextElements) 
@@ -2141,7 +2152,7 @@ EscapedMonospaceText <-
         return types.NewEscapedQuotedText(backslashes.(string), "`", result)
     } 
     // single escape: \`not monospace`
-    / backslashes:(OneOrMoreBackslashes) "`" elements:(SingleQuoteMonospaceTextElements) "`" {
+    / backslashes:(OneOrMoreBackslashes) "`" &(SingleQuoteMonospaceTextEndDelimiterAhead) elements:(SingleQuoteMonospaceTextElements) "`" {
         return types.NewEscapedQuotedText(backslashes.(string), "`", elements.([]interface{}))
     }
 
@@ -2185,6 +2196,7 @@ SingleQuoteMarkedTextStartDelimiter <-
         return c.isSingleQuotedTextAllowed(), nil
     }
     &(!"#") // not to be confused with double quoted start delimiter
+    &(SingleQuoteMarkedTextEndDelimiterAhead)
 
 SingleQuoteMarkedTextEndDelimiter <- 
     "#"
@@ -2195,6 +2207,9 @@ SingleQuoteMarkedTextEndDelimiter <-
     }
     &(!Alphanum)
 
+// checks that there may be an end delimiter afterwards (otherwise, the time to parse is exponential)
+SingleQuoteMarkedTextEndDelimiterAhead <- ([^#] / "#" &("#" / Alphanum))* "#"
+
 SingleQuoteMarkedText <- 
     SingleQuoteMarkedTextStartDelimiter
     elements:(SingleQuoteMarkedTextElements) 
@@ -2230,7 +2245,7 @@ EscapedMarkedText <-
         return types.NewEscapedQuotedText(backslashes.(string), "#", result)
     } 
     // single escape: \#not marked#
-    / backslashes:(OneOrMoreBackslashes) "#" elements:(SingleQuoteMarkedTextElements) "#" {
+    / backslashes:(OneOrMoreBackslashes) "#" &(SingleQuoteMarkedTextEndDelimiterAhead) elements:(SingleQuoteMarkedTextElements) "#" {
         return types.NewEscapedQuotedText(backslashes.(string), "#", elements.([]interface{}))
     }
 
-- 
2.43.0


From 3dda7a41c6f0df6c2509e5b41795dd2306eb97ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:13:33 +0000
Subject: [PATCH 142/143] fix: look up the end delimiter of quoted texts once
 (quadratic time)

---
 pkg/parser/parser.go     | 10642 +++++++++++++++++++------------------
 pkg/parser/parser.peg    |    20 +-
 pkg/parser/parser_ext.go |    24 +
 3 files changed, 5626 insertions(+), 5060 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index b1247cc..3b3b2fe 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 359, col: 49, offset: 10879},
 													expr: &actionExpr{
-														pos: position{line: 2903, col: 10, offset: 92601},
+														pos: position{line: 2915, col: 10, offset: 93117},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2903, col: 10, offset: 92601},
+															pos:        position{line: 2915, col: 10, offset: 93117},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2925, col: 8, offset: 92999},
+													pos: position{line: 2937, col: 8, offset: 93515},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2912, col: 12, offset: 92772},
+															pos: position{line: 2924, col: 12, offset: 93288},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2912, col: 13, offset: 92773},
+																pos: position{line: 2924, col: 13, offset: 93289},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2912, col: 13, offset: 92773},
+																		pos:        position{line: 2924, col: 13, offset: 93289},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2912, col: 20, offset: 92780},
+																		pos:        position{line: 2924, col: 20, offset: 93296},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2912, col: 29, offset: 92789},
+																		pos:        position{line: 2924, col: 29, offset: 93305},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2922, col: 8, offset: 92949},
+															pos: position{line: 2934, col: 8, offset: 93465},
 															expr: &anyMatcher{
-																line: 2922, col: 9, offset: 92950,
+																line: 2934, col: 9, offset: 93466,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 361, col: 39, offset: 11000},
 													expr: &actionExpr{
-														pos: position{line: 2903, col: 10, offset: 92601},
+														pos: position{line: 2915, col: 10, offset: 93117},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2903, col: 10, offset: 92601},
+															pos:        position{line: 2915, col: 10, offset: 93117},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2925, col: 8, offset: 92999},
+													pos: position{line: 2937, col: 8, offset: 93515},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2912, col: 12, offset: 92772},
+															pos: position{line: 2924, col: 12, offset: 93288},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2912, col: 13, offset: 92773},
+																pos: position{line: 2924, col: 13, offset: 93289},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2912, col: 13, offset: 92773},
+																		pos:        position{line: 2924, col: 13, offset: 93289},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2912, col: 20, offset: 92780},
+																		pos:        position{line: 2924, col: 20, offset: 93296},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2912, col: 29, offset: 92789},
+																		pos:        position{line: 2924, col: 29, offset: 93305},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2922, col: 8, offset: 92949},
+															pos: position{line: 2934, col: 8, offset: 93465},
 															expr: &anyMatcher{
-																line: 2922, col: 9, offset: 92950,
+																line: 2934, col: 9, offset: 93466,
 															},
 														},
 													},
@@ -321,10 +321,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 78, col: 41, offset: 2149},
 																						expr: &actionExpr{
-																							pos: position{line: 2903, col: 10, offset: 92601},
+																							pos: position{line: 2915, col: 10, offset: 93117},
 																							run: (*parser).callonDocumentRawLine66,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2903, col: 10, offset: 92601},
+																								pos:        position{line: 2915, col: 10, offset: 93117},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -333,9 +333,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2922, col: 8, offset: 92949},
+																						pos: position{line: 2934, col: 8, offset: 93465},
 																						expr: &anyMatcher{
-																							line: 2922, col: 9, offset: 92950,
+																							line: 2934, col: 9, offset: 93466,
 																						},
 																					},
 																				},
@@ -363,10 +363,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2903, col: 10, offset: 92601},
+														pos: position{line: 2915, col: 10, offset: 93117},
 														run: (*parser).callonDocumentRawLine73,
 														expr: &charClassMatcher{
-															pos:        position{line: 2903, col: 10, offset: 92601},
+															pos:        position{line: 2915, col: 10, offset: 93117},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -375,9 +375,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2922, col: 8, offset: 92949},
+													pos: position{line: 2934, col: 8, offset: 93465},
 													expr: &anyMatcher{
-														line: 2922, col: 9, offset: 92950,
+														line: 2934, col: 9, offset: 93466,
 													},
 												},
 											},
@@ -446,10 +446,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 78, col: 41, offset: 2149},
 																						expr: &actionExpr{
-																							pos: position{line: 2903, col: 10, offset: 92601},
+																							pos: position{line: 2915, col: 10, offset: 93117},
 																							run: (*parser).callonDocumentRawLine94,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2903, col: 10, offset: 92601},
+																								pos:        position{line: 2915, col: 10, offset: 93117},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -458,9 +458,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2922, col: 8, offset: 92949},
+																						pos: position{line: 2934, col: 8, offset: 93465},
 																						expr: &anyMatcher{
-																							line: 2922, col: 9, offset: 92950,
+																							line: 2934, col: 9, offset: 93466,
 																						},
 																					},
 																				},
@@ -488,10 +488,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2903, col: 10, offset: 92601},
+														pos: position{line: 2915, col: 10, offset: 93117},
 														run: (*parser).callonDocumentRawLine101,
 														expr: &charClassMatcher{
-															pos:        position{line: 2903, col: 10, offset: 92601},
+															pos:        position{line: 2915, col: 10, offset: 93117},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -500,9 +500,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2922, col: 8, offset: 92949},
+													pos: position{line: 2934, col: 8, offset: 93465},
 													expr: &anyMatcher{
-														line: 2922, col: 9, offset: 92950,
+														line: 2934, col: 9, offset: 93466,
 													},
 												},
 											},
@@ -972,24 +972,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2899, col: 10, offset: 92504},
+																pos: position{line: 2911, col: 10, offset: 93020},
 																run: (*parser).callonDocumentRawLine197,
 																expr: &seqExpr{
-																	pos: position{line: 2899, col: 11, offset: 92505},
+																	pos: position{line: 2911, col: 11, offset: 93021},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2899, col: 11, offset: 92505},
+																			pos: position{line: 2911, col: 11, offset: 93021},
 																			expr: &litMatcher{
-																				pos:        position{line: 2899, col: 11, offset: 92505},
+																				pos:        position{line: 2911, col: 11, offset: 93021},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2899, col: 16, offset: 92510},
+																			pos: position{line: 2911, col: 16, offset: 93026},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2899, col: 16, offset: 92510},
+																				pos:        position{line: 2911, col: 16, offset: 93026},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -997,15 +997,15 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2899, col: 23, offset: 92517},
+																			pos:        position{line: 2911, col: 23, offset: 93033},
 																			val:        ".",
 																			ignoreCase: false,
 																			want:       "\".\"",
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2899, col: 27, offset: 92521},
+																			pos: position{line: 2911, col: 27, offset: 93037},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2899, col: 27, offset: 92521},
+																				pos:        position{line: 2911, col: 27, offset: 93037},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1016,24 +1016,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2895, col: 12, offset: 92428},
+																pos: position{line: 2907, col: 12, offset: 92944},
 																run: (*parser).callonDocumentRawLine206,
 																expr: &seqExpr{
-																	pos: position{line: 2895, col: 13, offset: 92429},
+																	pos: position{line: 2907, col: 13, offset: 92945},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2895, col: 13, offset: 92429},
+																			pos: position{line: 2907, col: 13, offset: 92945},
 																			expr: &litMatcher{
-																				pos:        position{line: 2895, col: 13, offset: 92429},
+																				pos:        position{line: 2907, col: 13, offset: 92945},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2895, col: 18, offset: 92434},
+																			pos: position{line: 2907, col: 18, offset: 92950},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2895, col: 18, offset: 92434},
+																				pos:        position{line: 2907, col: 18, offset: 92950},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1049,10 +1049,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2280},
 													expr: &actionExpr{
-														pos: position{line: 2903, col: 10, offset: 92601},
+														pos: position{line: 2915, col: 10, offset: 93117},
 														run: (*parser).callonDocumentRawLine213,
 														expr: &charClassMatcher{
-															pos:        position{line: 2903, col: 10, offset: 92601},
+															pos:        position{line: 2915, col: 10, offset: 93117},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1132,10 +1132,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2326},
 													expr: &actionExpr{
-														pos: position{line: 2903, col: 10, offset: 92601},
+														pos: position{line: 2915, col: 10, offset: 93117},
 														run: (*parser).callonDocumentRawLine230,
 														expr: &charClassMatcher{
-															pos:        position{line: 2903, col: 10, offset: 92601},
+															pos:        position{line: 2915, col: 10, offset: 93117},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1595,24 +1595,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2899, col: 10, offset: 92504},
+																pos: position{line: 2911, col: 10, offset: 93020},
 																run: (*parser).callonDocumentRawLine321,
 																expr: &seqExpr{
-																	pos: position{line: 2899, col: 11, offset: 92505},
+																	pos: position{line: 2911, col: 11, offset: 93021},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2899, col: 11, offset: 92505},
+																			pos: position{line: 2911, col: 11, offset: 93021},
 																			expr: &litMatcher{
-																				pos:        position{line: 2899, col: 11, offset: 92505},
+																				pos:        position{line: 2911, col: 11, offset: 93021},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2899, col: 16, offset: 92510},
+																			pos: position{line: 2911, col: 16, offset: 93026},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2899, col: 16, offset: 92510},
+																				pos:        position{line: 2911, col: 16, offset: 93026},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1620,15 +1620,15 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2899, col: 23, offset: 92517},
+																			pos:        position{line: 2911, col: 23, offset: 93033},
 																			val:        ".",
 																			ignoreCase: false,
 																			want:       "\".\"",
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2899, col: 27, offset: 92521},
+																			pos: position{line: 2911, col: 27, offset: 93037},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2899, col: 27, offset: 92521},
+																				pos:        position{line: 2911, col: 27, offset: 93037},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1639,24 +1639,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2895, col: 12, offset: 92428},
+																pos: position{line: 2907, col: 12, offset: 92944},
 																run: (*parser).callonDocumentRawLine330,
 																expr: &seqExpr{
-																	pos: position{line: 2895, col: 13, offset: 92429},
+																	pos: position{line: 2907, col: 13, offset: 92945},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2895, col: 13, offset: 92429},
+																			pos: position{line: 2907, col: 13, offset: 92945},
 																			expr: &litMatcher{
-																				pos:        position{line: 2895, col: 13, offset: 92429},
+																				pos:        position{line: 2907, col: 13, offset: 92945},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2895, col: 18, offset: 92434},
+																			pos: position{line: 2907, col: 18, offset: 92950},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2895, col: 18, offset: 92434},
+																				pos:        position{line: 2907, col: 18, offset: 92950},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1678,10 +1678,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2378},
 													expr: &actionExpr{
-														pos: position{line: 2903, col: 10, offset: 92601},
+														pos: position{line: 2915, col: 10, offset: 93117},
 														run: (*parser).callonDocumentRawLine338,
 														expr: &charClassMatcher{
-															pos:        position{line: 2903, col: 10, offset: 92601},
+															pos:        position{line: 2915, col: 10, offset: 93117},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1690,9 +1690,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2922, col: 8, offset: 92949},
+													pos: position{line: 2934, col: 8, offset: 93465},
 													expr: &anyMatcher{
-														line: 2922, col: 9, offset: 92950,
+														line: 2934, col: 9, offset: 93466,
 													},
 												},
 											},
@@ -1764,10 +1764,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 78, col: 41, offset: 2149},
 																						expr: &actionExpr{
-																							pos: position{line: 2903, col: 10, offset: 92601},
+																							pos: position{line: 2915, col: 10, offset: 93117},
 																							run: (*parser).callonDocumentRawLine360,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2903, col: 10, offset: 92601},
+																								pos:        position{line: 2915, col: 10, offset: 93117},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -1776,9 +1776,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2922, col: 8, offset: 92949},
+																						pos: position{line: 2934, col: 8, offset: 93465},
 																						expr: &anyMatcher{
-																							line: 2922, col: 9, offset: 92950,
+																							line: 2934, col: 9, offset: 93466,
 																						},
 																					},
 																				},
@@ -1806,10 +1806,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3474},
 													expr: &actionExpr{
-														pos: position{line: 2903, col: 10, offset: 92601},
+														pos: position{line: 2915, col: 10, offset: 93117},
 														run: (*parser).callonDocumentRawLine367,
 														expr: &charClassMatcher{
-															pos:        position{line: 2903, col: 10, offset: 92601},
+															pos:        position{line: 2915, col: 10, offset: 93117},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1818,9 +1818,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2922, col: 8, offset: 92949},
+													pos: position{line: 2934, col: 8, offset: 93465},
 													expr: &anyMatcher{
-														line: 2922, col: 9, offset: 92950,
+														line: 2934, col: 9, offset: 93466,
 													},
 												},
 											},
@@ -1835,7 +1835,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 725, col: 5, offset: 23101},
 													expr: &charClassMatcher{
-														pos:        position{line: 2786, col: 13, offset: 89482},
+														pos:        position{line: 2798, col: 13, offset: 89998},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1885,10 +1885,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 743, col: 8, offset: 23745},
 																			expr: &actionExpr{
-																				pos: position{line: 2903, col: 10, offset: 92601},
+																				pos: position{line: 2915, col: 10, offset: 93117},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2903, col: 10, offset: 92601},
+																					pos:        position{line: 2915, col: 10, offset: 93117},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1897,28 +1897,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2925, col: 8, offset: 92999},
+																			pos: position{line: 2937, col: 8, offset: 93515},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2912, col: 12, offset: 92772},
+																					pos: position{line: 2924, col: 12, offset: 93288},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2912, col: 13, offset: 92773},
+																						pos: position{line: 2924, col: 13, offset: 93289},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2912, col: 13, offset: 92773},
+																								pos:        position{line: 2924, col: 13, offset: 93289},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2912, col: 20, offset: 92780},
+																								pos:        position{line: 2924, col: 20, offset: 93296},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2912, col: 29, offset: 92789},
+																								pos:        position{line: 2924, col: 29, offset: 93305},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1927,9 +1927,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2922, col: 8, offset: 92949},
+																					pos: position{line: 2934, col: 8, offset: 93465},
 																					expr: &anyMatcher{
-																						line: 2922, col: 9, offset: 92950,
+																						line: 2934, col: 9, offset: 93466,
 																					},
 																				},
 																			},
@@ -1974,10 +1974,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 750, col: 8, offset: 23993},
 																			expr: &actionExpr{
-																				pos: position{line: 2903, col: 10, offset: 92601},
+																				pos: position{line: 2915, col: 10, offset: 93117},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2903, col: 10, offset: 92601},
+																					pos:        position{line: 2915, col: 10, offset: 93117},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1986,28 +1986,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2925, col: 8, offset: 92999},
+																			pos: position{line: 2937, col: 8, offset: 93515},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2912, col: 12, offset: 92772},
+																					pos: position{line: 2924, col: 12, offset: 93288},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2912, col: 13, offset: 92773},
+																						pos: position{line: 2924, col: 13, offset: 93289},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2912, col: 13, offset: 92773},
+																								pos:        position{line: 2924, col: 13, offset: 93289},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2912, col: 20, offset: 92780},
+																								pos:        position{line: 2924, col: 20, offset: 93296},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2912, col: 29, offset: 92789},
+																								pos:        position{line: 2924, col: 29, offset: 93305},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2016,9 +2016,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2922, col: 8, offset: 92949},
+																					pos: position{line: 2934, col: 8, offset: 93465},
 																					expr: &anyMatcher{
-																						line: 2922, col: 9, offset: 92950,
+																						line: 2934, col: 9, offset: 93466,
 																					},
 																				},
 																			},
@@ -2059,10 +2059,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 761, col: 52, offset: 24405},
 																			expr: &actionExpr{
-																				pos: position{line: 2903, col: 10, offset: 92601},
+																				pos: position{line: 2915, col: 10, offset: 93117},
 																				run: (*parser).callonDocumentRawLine423,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2903, col: 10, offset: 92601},
+																					pos:        position{line: 2915, col: 10, offset: 93117},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2071,28 +2071,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2925, col: 8, offset: 92999},
+																			pos: position{line: 2937, col: 8, offset: 93515},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2912, col: 12, offset: 92772},
+																					pos: position{line: 2924, col: 12, offset: 93288},
 																					run: (*parser).callonDocumentRawLine426,
 																					expr: &choiceExpr{
-																						pos: position{line: 2912, col: 13, offset: 92773},
+																						pos: position{line: 2924, col: 13, offset: 93289},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2912, col: 13, offset: 92773},
+																								pos:        position{line: 2924, col: 13, offset: 93289},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2912, col: 20, offset: 92780},
+																								pos:        position{line: 2924, col: 20, offset: 93296},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2912, col: 29, offset: 92789},
+																								pos:        position{line: 2924, col: 29, offset: 93305},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2101,9 +2101,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2922, col: 8, offset: 92949},
+																					pos: position{line: 2934, col: 8, offset: 93465},
 																					expr: &anyMatcher{
-																						line: 2922, col: 9, offset: 92950,
+																						line: 2934, col: 9, offset: 93466,
 																					},
 																				},
 																			},
@@ -2148,10 +2148,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 757, col: 8, offset: 24239},
 																			expr: &actionExpr{
-																				pos: position{line: 2903, col: 10, offset: 92601},
+																				pos: position{line: 2915, col: 10, offset: 93117},
 																				run: (*parser).callonDocumentRawLine442,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2903, col: 10, offset: 92601},
+																					pos:        position{line: 2915, col: 10, offset: 93117},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2160,28 +2160,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2925, col: 8, offset: 92999},
+																			pos: position{line: 2937, col: 8, offset: 93515},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2912, col: 12, offset: 92772},
+																					pos: position{line: 2924, col: 12, offset: 93288},
 																					run: (*parser).callonDocumentRawLine445,
 																					expr: &choiceExpr{
-																						pos: position{line: 2912, col: 13, offset: 92773},
+																						pos: position{line: 2924, col: 13, offset: 93289},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2912, col: 13, offset: 92773},
+																								pos:        position{line: 2924, col: 13, offset: 93289},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2912, col: 20, offset: 92780},
+																								pos:        position{line: 2924, col: 20, offset: 93296},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2912, col: 29, offset: 92789},
+																								pos:        position{line: 2924, col: 29, offset: 93305},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2190,9 +2190,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2922, col: 8, offset: 92949},
+																					pos: position{line: 2934, col: 8, offset: 93465},
 																					expr: &anyMatcher{
-																						line: 2922, col: 9, offset: 92950,
+																						line: 2934, col: 9, offset: 93466,
 																					},
 																				},
 																			},
@@ -2237,10 +2237,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 772, col: 8, offset: 24782},
 																			expr: &actionExpr{
-																				pos: position{line: 2903, col: 10, offset: 92601},
+																				pos: position{line: 2915, col: 10, offset: 93117},
 																				run: (*parser).callonDocumentRawLine461,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2903, col: 10, offset: 92601},
+																					pos:        position{line: 2915, col: 10, offset: 93117},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2249,28 +2249,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2925, col: 8, offset: 92999},
+																			pos: position{line: 2937, col: 8, offset: 93515},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2912, col: 12, offset: 92772},
+																					pos: position{line: 2924, col: 12, offset: 93288},
 																					run: (*parser).callonDocumentRawLine464,
 																					expr: &choiceExpr{
-																						pos: position{line: 2912, col: 13, offset: 92773},
+																						pos: position{line: 2924, col: 13, offset: 93289},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2912, col: 13, offset: 92773},
+																								pos:        position{line: 2924, col: 13, offset: 93289},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2912, col: 20, offset: 92780},
+																								pos:        position{line: 2924, col: 20, offset: 93296},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2912, col: 29, offset: 92789},
+																								pos:        position{line: 2924, col: 29, offset: 93305},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2279,9 +2279,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2922, col: 8, offset: 92949},
+																					pos: position{line: 2934, col: 8, offset: 93465},
 																					expr: &anyMatcher{
-																						line: 2922, col: 9, offset: 92950,
+																						line: 2934, col: 9, offset: 93466,
 																					},
 																				},
 																			},
@@ -2326,10 +2326,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 786, col: 8, offset: 25258},
 																			expr: &actionExpr{
-																				pos: position{line: 2903, col: 10, offset: 92601},
+																				pos: position{line: 2915, col: 10, offset: 93117},
 																				run: (*parser).callonDocumentRawLine480,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2903, col: 10, offset: 92601},
+																					pos:        position{line: 2915, col: 10, offset: 93117},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2338,28 +2338,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2925, col: 8, offset: 92999},
+																			pos: position{line: 2937, col: 8, offset: 93515},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2912, col: 12, offset: 92772},
+																					pos: position{line: 2924, col: 12, offset: 93288},
 																					run: (*parser).callonDocumentRawLine483,
 																					expr: &choiceExpr{
-																						pos: position{line: 2912, col: 13, offset: 92773},
+																						pos: position{line: 2924, col: 13, offset: 93289},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2912, col: 13, offset: 92773},
+																								pos:        position{line: 2924, col: 13, offset: 93289},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2912, col: 20, offset: 92780},
+																								pos:        position{line: 2924, col: 20, offset: 93296},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2912, col: 29, offset: 92789},
+																								pos:        position{line: 2924, col: 29, offset: 93305},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2368,9 +2368,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2922, col: 8, offset: 92949},
+																					pos: position{line: 2934, col: 8, offset: 93465},
 																					expr: &anyMatcher{
-																						line: 2922, col: 9, offset: 92950,
+																						line: 2934, col: 9, offset: 93466,
 																					},
 																				},
 																			},
@@ -2415,10 +2415,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 793, col: 8, offset: 25510},
 																			expr: &actionExpr{
-																				pos: position{line: 2903, col: 10, offset: 92601},
+																				pos: position{line: 2915, col: 10, offset: 93117},
 																				run: (*parser).callonDocumentRawLine499,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2903, col: 10, offset: 92601},
+																					pos:        position{line: 2915, col: 10, offset: 93117},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2427,28 +2427,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2925, col: 8, offset: 92999},
+																			pos: position{line: 2937, col: 8, offset: 93515},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2912, col: 12, offset: 92772},
+																					pos: position{line: 2924, col: 12, offset: 93288},
 																					run: (*parser).callonDocumentRawLine502,
 																					expr: &choiceExpr{
-																						pos: position{line: 2912, col: 13, offset: 92773},
+																						pos: position{line: 2924, col: 13, offset: 93289},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2912, col: 13, offset: 92773},
+																								pos:        position{line: 2924, col: 13, offset: 93289},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2912, col: 20, offset: 92780},
+																								pos:        position{line: 2924, col: 20, offset: 93296},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2912, col: 29, offset: 92789},
+																								pos:        position{line: 2924, col: 29, offset: 93305},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2457,9 +2457,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2922, col: 8, offset: 92949},
+																					pos: position{line: 2934, col: 8, offset: 93465},
 																					expr: &anyMatcher{
-																						line: 2922, col: 9, offset: 92950,
+																						line: 2934, col: 9, offset: 93466,
 																					},
 																				},
 																			},
@@ -2504,10 +2504,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 800, col: 8, offset: 25760},
 																			expr: &actionExpr{
-																				pos: position{line: 2903, col: 10, offset: 92601},
+																				pos: position{line: 2915, col: 10, offset: 93117},
 																				run: (*parser).callonDocumentRawLine518,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2903, col: 10, offset: 92601},
+																					pos:        position{line: 2915, col: 10, offset: 93117},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2516,28 +2516,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2925, col: 8, offset: 92999},
+																			pos: position{line: 2937, col: 8, offset: 93515},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2912, col: 12, offset: 92772},
+																					pos: position{line: 2924, col: 12, offset: 93288},
 																					run: (*parser).callonDocumentRawLine521,
 																					expr: &choiceExpr{
-																						pos: position{line: 2912, col: 13, offset: 92773},
+																						pos: position{line: 2924, col: 13, offset: 93289},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2912, col: 13, offset: 92773},
+																								pos:        position{line: 2924, col: 13, offset: 93289},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2912, col: 20, offset: 92780},
+																								pos:        position{line: 2924, col: 20, offset: 93296},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2912, col: 29, offset: 92789},
+																								pos:        position{line: 2924, col: 29, offset: 93305},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2546,9 +2546,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2922, col: 8, offset: 92949},
+																					pos: position{line: 2934, col: 8, offset: 93465},
 																					expr: &anyMatcher{
-																						line: 2922, col: 9, offset: 92950,
+																						line: 2934, col: 9, offset: 93466,
 																					},
 																				},
 																			},
@@ -2593,10 +2593,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 807, col: 8, offset: 26006},
 																			expr: &actionExpr{
-																				pos: position{line: 2903, col: 10, offset: 92601},
+																				pos: position{line: 2915, col: 10, offset: 93117},
 																				run: (*parser).callonDocumentRawLine537,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2903, col: 10, offset: 92601},
+																					pos:        position{line: 2915, col: 10, offset: 93117},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2605,28 +2605,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2925, col: 8, offset: 92999},
+																			pos: position{line: 2937, col: 8, offset: 93515},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2912, col: 12, offset: 92772},
+																					pos: position{line: 2924, col: 12, offset: 93288},
 																					run: (*parser).callonDocumentRawLine540,
 																					expr: &choiceExpr{
-																						pos: position{line: 2912, col: 13, offset: 92773},
+																						pos: position{line: 2924, col: 13, offset: 93289},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2912, col: 13, offset: 92773},
+																								pos:        position{line: 2924, col: 13, offset: 93289},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2912, col: 20, offset: 92780},
+																								pos:        position{line: 2924, col: 20, offset: 93296},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2912, col: 29, offset: 92789},
+																								pos:        position{line: 2924, col: 29, offset: 93305},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2635,9 +2635,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2922, col: 8, offset: 92949},
+																					pos: position{line: 2934, col: 8, offset: 93465},
 																					expr: &anyMatcher{
-																						line: 2922, col: 9, offset: 92950,
+																						line: 2934, col: 9, offset: 93466,
 																					},
 																				},
 																			},
@@ -2687,12 +2687,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine555,
 												},
 												&actionExpr{
-													pos: position{line: 2907, col: 11, offset: 92662},
+													pos: position{line: 2919, col: 11, offset: 93178},
 													run: (*parser).callonDocumentRawLine556,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2907, col: 11, offset: 92662},
+														pos: position{line: 2919, col: 11, offset: 93178},
 														expr: &charClassMatcher{
-															pos:        position{line: 2907, col: 11, offset: 92662},
+															pos:        position{line: 2919, col: 11, offset: 93178},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2701,12 +2701,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2853, col: 14, offset: 91194},
+													pos: position{line: 2865, col: 14, offset: 91710},
 													run: (*parser).callonDocumentRawLine559,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2853, col: 14, offset: 91194},
+														pos: position{line: 2865, col: 14, offset: 91710},
 														expr: &charClassMatcher{
-															pos:        position{line: 2853, col: 14, offset: 91194},
+															pos:        position{line: 2865, col: 14, offset: 91710},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2715,9 +2715,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2922, col: 8, offset: 92949},
+													pos: position{line: 2934, col: 8, offset: 93465},
 													expr: &anyMatcher{
-														line: 2922, col: 9, offset: 92950,
+														line: 2934, col: 9, offset: 93466,
 													},
 												},
 											},
@@ -2727,9 +2727,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2922, col: 8, offset: 92949},
+							pos: position{line: 2934, col: 8, offset: 93465},
 							expr: &anyMatcher{
-								line: 2922, col: 9, offset: 92950,
+								line: 2934, col: 9, offset: 93466,
 							},
 						},
 					},
@@ -2764,41 +2764,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2857, col: 17, offset: 91264},
+												pos: position{line: 2869, col: 17, offset: 91780},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2857, col: 17, offset: 91264},
+													pos:   position{line: 2869, col: 17, offset: 91780},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2874, col: 5, offset: 91718},
+														pos: position{line: 2886, col: 5, offset: 92234},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2874, col: 5, offset: 91718},
+															pos:   position{line: 2886, col: 5, offset: 92234},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2874, col: 14, offset: 91727},
+																pos: position{line: 2886, col: 14, offset: 92243},
 																expr: &choiceExpr{
-																	pos: position{line: 2875, col: 9, offset: 91737},
+																	pos: position{line: 2887, col: 9, offset: 92253},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2875, col: 9, offset: 91737},
+																			pos: position{line: 2887, col: 9, offset: 92253},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2875, col: 9, offset: 91737},
+																				pos: position{line: 2887, col: 9, offset: 92253},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2875, col: 9, offset: 91737},
+																						pos: position{line: 2887, col: 9, offset: 92253},
 																						expr: &litMatcher{
-																							pos:        position{line: 2875, col: 10, offset: 91738},
+																							pos:        position{line: 2887, col: 10, offset: 92254},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2876, col: 9, offset: 91766},
+																						pos: position{line: 2888, col: 9, offset: 92282},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2876, col: 10, offset: 91767},
+																							pos:        position{line: 2888, col: 10, offset: 92283},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2809,27 +2809,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2879, col: 11, offset: 91979},
+																			pos: position{line: 2891, col: 11, offset: 92495},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2879, col: 11, offset: 91979},
+																					pos:        position{line: 2891, col: 11, offset: 92495},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2879, col: 19, offset: 91987},
+																					pos: position{line: 2891, col: 19, offset: 92503},
 																					expr: &seqExpr{
-																						pos: position{line: 2879, col: 21, offset: 91989},
+																						pos: position{line: 2891, col: 21, offset: 92505},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2879, col: 21, offset: 91989},
+																								pos: position{line: 2891, col: 21, offset: 92505},
 																								expr: &actionExpr{
-																									pos: position{line: 2903, col: 10, offset: 92601},
+																									pos: position{line: 2915, col: 10, offset: 93117},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2903, col: 10, offset: 92601},
+																										pos:        position{line: 2915, col: 10, offset: 93117},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2838,11 +2838,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2879, col: 28, offset: 91996},
+																								pos: position{line: 2891, col: 28, offset: 92512},
 																								expr: &notExpr{
-																									pos: position{line: 2922, col: 8, offset: 92949},
+																									pos: position{line: 2934, col: 8, offset: 93465},
 																									expr: &anyMatcher{
-																										line: 2922, col: 9, offset: 92950,
+																										line: 2934, col: 9, offset: 93466,
 																									},
 																								},
 																							},
@@ -3241,10 +3241,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2882, col: 11, offset: 92116},
+																			pos: position{line: 2894, col: 11, offset: 92632},
 																			run: (*parser).callonFileInclusion108,
 																			expr: &litMatcher{
-																				pos:        position{line: 2882, col: 11, offset: 92116},
+																				pos:        position{line: 2894, col: 11, offset: 92632},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3273,10 +3273,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2903, col: 10, offset: 92601},
+								pos: position{line: 2915, col: 10, offset: 93117},
 								run: (*parser).callonFileInclusion113,
 								expr: &charClassMatcher{
-									pos:        position{line: 2903, col: 10, offset: 92601},
+									pos:        position{line: 2915, col: 10, offset: 93117},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3285,28 +3285,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2925, col: 8, offset: 92999},
+							pos: position{line: 2937, col: 8, offset: 93515},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2912, col: 12, offset: 92772},
+									pos: position{line: 2924, col: 12, offset: 93288},
 									run: (*parser).callonFileInclusion116,
 									expr: &choiceExpr{
-										pos: position{line: 2912, col: 13, offset: 92773},
+										pos: position{line: 2924, col: 13, offset: 93289},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2912, col: 13, offset: 92773},
+												pos:        position{line: 2924, col: 13, offset: 93289},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2912, col: 20, offset: 92780},
+												pos:        position{line: 2924, col: 20, offset: 93296},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2912, col: 29, offset: 92789},
+												pos:        position{line: 2924, col: 29, offset: 93305},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3315,9 +3315,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2922, col: 8, offset: 92949},
+									pos: position{line: 2934, col: 8, offset: 93465},
 									expr: &anyMatcher{
-										line: 2922, col: 9, offset: 92950,
+										line: 2934, col: 9, offset: 93466,
 									},
 								},
 							},
@@ -3363,24 +3363,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2895, col: 12, offset: 92428},
+																				pos: position{line: 2907, col: 12, offset: 92944},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2895, col: 13, offset: 92429},
+																					pos: position{line: 2907, col: 13, offset: 92945},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2895, col: 13, offset: 92429},
+																							pos: position{line: 2907, col: 13, offset: 92945},
 																							expr: &litMatcher{
-																								pos:        position{line: 2895, col: 13, offset: 92429},
+																								pos:        position{line: 2907, col: 13, offset: 92945},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2895, col: 18, offset: 92434},
+																							pos: position{line: 2907, col: 18, offset: 92950},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2895, col: 18, offset: 92434},
+																								pos:        position{line: 2907, col: 18, offset: 92950},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3401,24 +3401,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2895, col: 12, offset: 92428},
+																				pos: position{line: 2907, col: 12, offset: 92944},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2895, col: 13, offset: 92429},
+																					pos: position{line: 2907, col: 13, offset: 92945},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2895, col: 13, offset: 92429},
+																							pos: position{line: 2907, col: 13, offset: 92945},
 																							expr: &litMatcher{
-																								pos:        position{line: 2895, col: 13, offset: 92429},
+																								pos:        position{line: 2907, col: 13, offset: 92945},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2895, col: 18, offset: 92434},
+																							pos: position{line: 2907, col: 18, offset: 92950},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2895, col: 18, offset: 92434},
+																								pos:        position{line: 2907, col: 18, offset: 92950},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3439,24 +3439,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2895, col: 12, offset: 92428},
+																		pos: position{line: 2907, col: 12, offset: 92944},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2895, col: 13, offset: 92429},
+																			pos: position{line: 2907, col: 13, offset: 92945},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2895, col: 13, offset: 92429},
+																					pos: position{line: 2907, col: 13, offset: 92945},
 																					expr: &litMatcher{
-																						pos:        position{line: 2895, col: 13, offset: 92429},
+																						pos:        position{line: 2907, col: 13, offset: 92945},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2895, col: 18, offset: 92434},
+																					pos: position{line: 2907, col: 18, offset: 92950},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2895, col: 18, offset: 92434},
+																						pos:        position{line: 2907, col: 18, offset: 92950},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3505,24 +3505,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2895, col: 12, offset: 92428},
+																									pos: position{line: 2907, col: 12, offset: 92944},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2895, col: 13, offset: 92429},
+																										pos: position{line: 2907, col: 13, offset: 92945},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2895, col: 13, offset: 92429},
+																												pos: position{line: 2907, col: 13, offset: 92945},
 																												expr: &litMatcher{
-																													pos:        position{line: 2895, col: 13, offset: 92429},
+																													pos:        position{line: 2907, col: 13, offset: 92945},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2895, col: 18, offset: 92434},
+																												pos: position{line: 2907, col: 18, offset: 92950},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2895, col: 18, offset: 92434},
+																													pos:        position{line: 2907, col: 18, offset: 92950},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3543,24 +3543,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2895, col: 12, offset: 92428},
+																									pos: position{line: 2907, col: 12, offset: 92944},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2895, col: 13, offset: 92429},
+																										pos: position{line: 2907, col: 13, offset: 92945},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2895, col: 13, offset: 92429},
+																												pos: position{line: 2907, col: 13, offset: 92945},
 																												expr: &litMatcher{
-																													pos:        position{line: 2895, col: 13, offset: 92429},
+																													pos:        position{line: 2907, col: 13, offset: 92945},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2895, col: 18, offset: 92434},
+																												pos: position{line: 2907, col: 18, offset: 92950},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2895, col: 18, offset: 92434},
+																													pos:        position{line: 2907, col: 18, offset: 92950},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3581,24 +3581,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2895, col: 12, offset: 92428},
+																							pos: position{line: 2907, col: 12, offset: 92944},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2895, col: 13, offset: 92429},
+																								pos: position{line: 2907, col: 13, offset: 92945},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2895, col: 13, offset: 92429},
+																										pos: position{line: 2907, col: 13, offset: 92945},
 																										expr: &litMatcher{
-																											pos:        position{line: 2895, col: 13, offset: 92429},
+																											pos:        position{line: 2907, col: 13, offset: 92945},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2895, col: 18, offset: 92434},
+																										pos: position{line: 2907, col: 18, offset: 92950},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2895, col: 18, offset: 92434},
+																											pos:        position{line: 2907, col: 18, offset: 92950},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3631,24 +3631,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2895, col: 12, offset: 92428},
+														pos: position{line: 2907, col: 12, offset: 92944},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2895, col: 13, offset: 92429},
+															pos: position{line: 2907, col: 13, offset: 92945},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2895, col: 13, offset: 92429},
+																	pos: position{line: 2907, col: 13, offset: 92945},
 																	expr: &litMatcher{
-																		pos:        position{line: 2895, col: 13, offset: 92429},
+																		pos:        position{line: 2907, col: 13, offset: 92945},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2895, col: 18, offset: 92434},
+																	pos: position{line: 2907, col: 18, offset: 92950},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2895, col: 18, offset: 92434},
+																		pos:        position{line: 2907, col: 18, offset: 92950},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3669,24 +3669,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2895, col: 12, offset: 92428},
+														pos: position{line: 2907, col: 12, offset: 92944},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2895, col: 13, offset: 92429},
+															pos: position{line: 2907, col: 13, offset: 92945},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2895, col: 13, offset: 92429},
+																	pos: position{line: 2907, col: 13, offset: 92945},
 																	expr: &litMatcher{
-																		pos:        position{line: 2895, col: 13, offset: 92429},
+																		pos:        position{line: 2907, col: 13, offset: 92945},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2895, col: 18, offset: 92434},
+																	pos: position{line: 2907, col: 18, offset: 92950},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2895, col: 18, offset: 92434},
+																		pos:        position{line: 2907, col: 18, offset: 92950},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3707,24 +3707,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2895, col: 12, offset: 92428},
+												pos: position{line: 2907, col: 12, offset: 92944},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2895, col: 13, offset: 92429},
+													pos: position{line: 2907, col: 13, offset: 92945},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2895, col: 13, offset: 92429},
+															pos: position{line: 2907, col: 13, offset: 92945},
 															expr: &litMatcher{
-																pos:        position{line: 2895, col: 13, offset: 92429},
+																pos:        position{line: 2907, col: 13, offset: 92945},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2895, col: 18, offset: 92434},
+															pos: position{line: 2907, col: 18, offset: 92950},
 															expr: &charClassMatcher{
-																pos:        position{line: 2895, col: 18, offset: 92434},
+																pos:        position{line: 2907, col: 18, offset: 92950},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3740,9 +3740,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2922, col: 8, offset: 92949},
+							pos: position{line: 2934, col: 8, offset: 93465},
 							expr: &anyMatcher{
-								line: 2922, col: 9, offset: 92950,
+								line: 2934, col: 9, offset: 93466,
 							},
 						},
 					},
@@ -4067,9 +4067,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2922, col: 8, offset: 92949},
+							pos: position{line: 2934, col: 8, offset: 93465},
 							expr: &anyMatcher{
-								line: 2922, col: 9, offset: 92950,
+								line: 2934, col: 9, offset: 93466,
 							},
 						},
 					},
@@ -4193,28 +4193,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2925, col: 8, offset: 92999},
+							pos: position{line: 2937, col: 8, offset: 93515},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2912, col: 12, offset: 92772},
+									pos: position{line: 2924, col: 12, offset: 93288},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2912, col: 13, offset: 92773},
+										pos: position{line: 2924, col: 13, offset: 93289},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2912, col: 13, offset: 92773},
+												pos:        position{line: 2924, col: 13, offset: 93289},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2912, col: 20, offset: 92780},
+												pos:        position{line: 2924, col: 20, offset: 93296},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2912, col: 29, offset: 92789},
+												pos:        position{line: 2924, col: 29, offset: 93305},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4223,9 +4223,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2922, col: 8, offset: 92949},
+									pos: position{line: 2934, col: 8, offset: 93465},
 									expr: &anyMatcher{
-										line: 2922, col: 9, offset: 92950,
+										line: 2934, col: 9, offset: 93466,
 									},
 								},
 							},
@@ -4244,9 +4244,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2920, col: 11, offset: 92935},
+							pos: position{line: 2932, col: 11, offset: 93451},
 							expr: &anyMatcher{
-								line: 2920, col: 13, offset: 92937,
+								line: 2932, col: 13, offset: 93453,
 							},
 						},
 						&labeledExpr{
@@ -4341,10 +4341,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 359, col: 49, offset: 10879},
 														expr: &actionExpr{
-															pos: position{line: 2903, col: 10, offset: 92601},
+															pos: position{line: 2915, col: 10, offset: 93117},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2903, col: 10, offset: 92601},
+																pos:        position{line: 2915, col: 10, offset: 93117},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4353,28 +4353,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2925, col: 8, offset: 92999},
+														pos: position{line: 2937, col: 8, offset: 93515},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2912, col: 12, offset: 92772},
+																pos: position{line: 2924, col: 12, offset: 93288},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2912, col: 13, offset: 92773},
+																	pos: position{line: 2924, col: 13, offset: 93289},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2912, col: 13, offset: 92773},
+																			pos:        position{line: 2924, col: 13, offset: 93289},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2912, col: 20, offset: 92780},
+																			pos:        position{line: 2924, col: 20, offset: 93296},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2912, col: 29, offset: 92789},
+																			pos:        position{line: 2924, col: 29, offset: 93305},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4383,9 +4383,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2922, col: 8, offset: 92949},
+																pos: position{line: 2934, col: 8, offset: 93465},
 																expr: &anyMatcher{
-																	line: 2922, col: 9, offset: 92950,
+																	line: 2934, col: 9, offset: 93466,
 																},
 															},
 														},
@@ -4446,10 +4446,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 361, col: 39, offset: 11000},
 														expr: &actionExpr{
-															pos: position{line: 2903, col: 10, offset: 92601},
+															pos: position{line: 2915, col: 10, offset: 93117},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2903, col: 10, offset: 92601},
+																pos:        position{line: 2915, col: 10, offset: 93117},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4458,28 +4458,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2925, col: 8, offset: 92999},
+														pos: position{line: 2937, col: 8, offset: 93515},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2912, col: 12, offset: 92772},
+																pos: position{line: 2924, col: 12, offset: 93288},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2912, col: 13, offset: 92773},
+																	pos: position{line: 2924, col: 13, offset: 93289},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2912, col: 13, offset: 92773},
+																			pos:        position{line: 2924, col: 13, offset: 93289},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2912, col: 20, offset: 92780},
+																			pos:        position{line: 2924, col: 20, offset: 93296},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2912, col: 29, offset: 92789},
+																			pos:        position{line: 2924, col: 29, offset: 93305},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4488,9 +4488,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2922, col: 8, offset: 92949},
+																pos: position{line: 2934, col: 8, offset: 93465},
 																expr: &anyMatcher{
-																	line: 2922, col: 9, offset: 92950,
+																	line: 2934, col: 9, offset: 93466,
 																},
 															},
 														},
@@ -4505,18 +4505,18 @@ var g = &grammar{
 												pos: position{line: 677, col: 14, offset: 21525},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2920, col: 11, offset: 92935},
+														pos: position{line: 2932, col: 11, offset: 93451},
 														expr: &anyMatcher{
-															line: 2920, col: 13, offset: 92937,
+															line: 2932, col: 13, offset: 93453,
 														},
 													},
 													&zeroOrMoreExpr{
 														pos: position{line: 677, col: 21, offset: 21532},
 														expr: &actionExpr{
-															pos: position{line: 2903, col: 10, offset: 92601},
+															pos: position{line: 2915, col: 10, offset: 93117},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2903, col: 10, offset: 92601},
+																pos:        position{line: 2915, col: 10, offset: 93117},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4525,28 +4525,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2925, col: 8, offset: 92999},
+														pos: position{line: 2937, col: 8, offset: 93515},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2912, col: 12, offset: 92772},
+																pos: position{line: 2924, col: 12, offset: 93288},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2912, col: 13, offset: 92773},
+																	pos: position{line: 2924, col: 13, offset: 93289},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2912, col: 13, offset: 92773},
+																			pos:        position{line: 2924, col: 13, offset: 93289},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2912, col: 20, offset: 92780},
+																			pos:        position{line: 2924, col: 20, offset: 93296},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2912, col: 29, offset: 92789},
+																			pos:        position{line: 2924, col: 29, offset: 93305},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4555,9 +4555,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2922, col: 8, offset: 92949},
+																pos: position{line: 2934, col: 8, offset: 93465},
 																expr: &anyMatcher{
-																	line: 2922, col: 9, offset: 92950,
+																	line: 2934, col: 9, offset: 93466,
 																},
 															},
 														},
@@ -4616,10 +4616,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 743, col: 8, offset: 23745},
 																	expr: &actionExpr{
-																		pos: position{line: 2903, col: 10, offset: 92601},
+																		pos: position{line: 2915, col: 10, offset: 93117},
 																		run: (*parser).callonDocumentFragment86,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2903, col: 10, offset: 92601},
+																			pos:        position{line: 2915, col: 10, offset: 93117},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -4628,28 +4628,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2925, col: 8, offset: 92999},
+																	pos: position{line: 2937, col: 8, offset: 93515},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2912, col: 12, offset: 92772},
+																			pos: position{line: 2924, col: 12, offset: 93288},
 																			run: (*parser).callonDocumentFragment89,
 																			expr: &choiceExpr{
-																				pos: position{line: 2912, col: 13, offset: 92773},
+																				pos: position{line: 2924, col: 13, offset: 93289},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 13, offset: 92773},
+																						pos:        position{line: 2924, col: 13, offset: 93289},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 20, offset: 92780},
+																						pos:        position{line: 2924, col: 20, offset: 93296},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 29, offset: 92789},
+																						pos:        position{line: 2924, col: 29, offset: 93305},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -4658,9 +4658,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2922, col: 8, offset: 92949},
+																			pos: position{line: 2934, col: 8, offset: 93465},
 																			expr: &anyMatcher{
-																				line: 2922, col: 9, offset: 92950,
+																				line: 2934, col: 9, offset: 93466,
 																			},
 																		},
 																	},
@@ -4721,10 +4721,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 743, col: 8, offset: 23745},
 																									expr: &actionExpr{
-																										pos: position{line: 2903, col: 10, offset: 92601},
+																										pos: position{line: 2915, col: 10, offset: 93117},
 																										run: (*parser).callonDocumentFragment111,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2903, col: 10, offset: 92601},
+																											pos:        position{line: 2915, col: 10, offset: 93117},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -4733,28 +4733,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2925, col: 8, offset: 92999},
+																									pos: position{line: 2937, col: 8, offset: 93515},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2912, col: 12, offset: 92772},
+																											pos: position{line: 2924, col: 12, offset: 93288},
 																											run: (*parser).callonDocumentFragment114,
 																											expr: &choiceExpr{
-																												pos: position{line: 2912, col: 13, offset: 92773},
+																												pos: position{line: 2924, col: 13, offset: 93289},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2912, col: 13, offset: 92773},
+																														pos:        position{line: 2924, col: 13, offset: 93289},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2912, col: 20, offset: 92780},
+																														pos:        position{line: 2924, col: 20, offset: 93296},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2912, col: 29, offset: 92789},
+																														pos:        position{line: 2924, col: 29, offset: 93305},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -4763,9 +4763,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2922, col: 8, offset: 92949},
+																											pos: position{line: 2934, col: 8, offset: 93465},
 																											expr: &anyMatcher{
-																												line: 2922, col: 9, offset: 92950,
+																												line: 2934, col: 9, offset: 93466,
 																											},
 																										},
 																									},
@@ -4774,9 +4774,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2922, col: 8, offset: 92949},
+																						pos: position{line: 2934, col: 8, offset: 93465},
 																						expr: &anyMatcher{
-																							line: 2922, col: 9, offset: 92950,
+																							line: 2934, col: 9, offset: 93466,
 																						},
 																					},
 																				},
@@ -4792,21 +4792,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2920, col: 11, offset: 92935},
+																							pos: position{line: 2932, col: 11, offset: 93451},
 																							expr: &anyMatcher{
-																								line: 2920, col: 13, offset: 92937,
+																								line: 2932, col: 13, offset: 93453,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2849, col: 13, offset: 91127},
+																								pos: position{line: 2861, col: 13, offset: 91643},
 																								run: (*parser).callonDocumentFragment129,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2849, col: 13, offset: 91127},
+																									pos: position{line: 2861, col: 13, offset: 91643},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2849, col: 13, offset: 91127},
+																										pos:        position{line: 2861, col: 13, offset: 91643},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4816,28 +4816,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2925, col: 8, offset: 92999},
+																							pos: position{line: 2937, col: 8, offset: 93515},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2912, col: 12, offset: 92772},
+																									pos: position{line: 2924, col: 12, offset: 93288},
 																									run: (*parser).callonDocumentFragment133,
 																									expr: &choiceExpr{
-																										pos: position{line: 2912, col: 13, offset: 92773},
+																										pos: position{line: 2924, col: 13, offset: 93289},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 13, offset: 92773},
+																												pos:        position{line: 2924, col: 13, offset: 93289},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 20, offset: 92780},
+																												pos:        position{line: 2924, col: 20, offset: 93296},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 29, offset: 92789},
+																												pos:        position{line: 2924, col: 29, offset: 93305},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4846,9 +4846,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2922, col: 8, offset: 92949},
+																									pos: position{line: 2934, col: 8, offset: 93465},
 																									expr: &anyMatcher{
-																										line: 2922, col: 9, offset: 92950,
+																										line: 2934, col: 9, offset: 93466,
 																									},
 																								},
 																							},
@@ -4904,10 +4904,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 743, col: 8, offset: 23745},
 																				expr: &actionExpr{
-																					pos: position{line: 2903, col: 10, offset: 92601},
+																					pos: position{line: 2915, col: 10, offset: 93117},
 																					run: (*parser).callonDocumentFragment151,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2903, col: 10, offset: 92601},
+																						pos:        position{line: 2915, col: 10, offset: 93117},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -4916,28 +4916,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2925, col: 8, offset: 92999},
+																				pos: position{line: 2937, col: 8, offset: 93515},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2912, col: 12, offset: 92772},
+																						pos: position{line: 2924, col: 12, offset: 93288},
 																						run: (*parser).callonDocumentFragment154,
 																						expr: &choiceExpr{
-																							pos: position{line: 2912, col: 13, offset: 92773},
+																							pos: position{line: 2924, col: 13, offset: 93289},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2912, col: 13, offset: 92773},
+																									pos:        position{line: 2924, col: 13, offset: 93289},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2912, col: 20, offset: 92780},
+																									pos:        position{line: 2924, col: 20, offset: 93296},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2912, col: 29, offset: 92789},
+																									pos:        position{line: 2924, col: 29, offset: 93305},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -4946,9 +4946,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2922, col: 8, offset: 92949},
+																						pos: position{line: 2934, col: 8, offset: 93465},
 																						expr: &anyMatcher{
-																							line: 2922, col: 9, offset: 92950,
+																							line: 2934, col: 9, offset: 93466,
 																						},
 																					},
 																				},
@@ -4957,9 +4957,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2922, col: 8, offset: 92949},
+																	pos: position{line: 2934, col: 8, offset: 93465},
 																	expr: &anyMatcher{
-																		line: 2922, col: 9, offset: 92950,
+																		line: 2934, col: 9, offset: 93466,
 																	},
 																},
 															},
@@ -5014,10 +5014,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 750, col: 8, offset: 23993},
 																		expr: &actionExpr{
-																			pos: position{line: 2903, col: 10, offset: 92601},
+																			pos: position{line: 2915, col: 10, offset: 93117},
 																			run: (*parser).callonDocumentFragment175,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2903, col: 10, offset: 92601},
+																				pos:        position{line: 2915, col: 10, offset: 93117},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5026,28 +5026,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2925, col: 8, offset: 92999},
+																		pos: position{line: 2937, col: 8, offset: 93515},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2912, col: 12, offset: 92772},
+																				pos: position{line: 2924, col: 12, offset: 93288},
 																				run: (*parser).callonDocumentFragment178,
 																				expr: &choiceExpr{
-																					pos: position{line: 2912, col: 13, offset: 92773},
+																					pos: position{line: 2924, col: 13, offset: 93289},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 13, offset: 92773},
+																							pos:        position{line: 2924, col: 13, offset: 93289},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 20, offset: 92780},
+																							pos:        position{line: 2924, col: 20, offset: 93296},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 29, offset: 92789},
+																							pos:        position{line: 2924, col: 29, offset: 93305},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5056,9 +5056,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2922, col: 8, offset: 92949},
+																				pos: position{line: 2934, col: 8, offset: 93465},
 																				expr: &anyMatcher{
-																					line: 2922, col: 9, offset: 92950,
+																					line: 2934, col: 9, offset: 93466,
 																				},
 																			},
 																		},
@@ -5130,10 +5130,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 750, col: 8, offset: 23993},
 																												expr: &actionExpr{
-																													pos: position{line: 2903, col: 10, offset: 92601},
+																													pos: position{line: 2915, col: 10, offset: 93117},
 																													run: (*parser).callonDocumentFragment203,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2903, col: 10, offset: 92601},
+																														pos:        position{line: 2915, col: 10, offset: 93117},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5142,28 +5142,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2925, col: 8, offset: 92999},
+																												pos: position{line: 2937, col: 8, offset: 93515},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2912, col: 12, offset: 92772},
+																														pos: position{line: 2924, col: 12, offset: 93288},
 																														run: (*parser).callonDocumentFragment206,
 																														expr: &choiceExpr{
-																															pos: position{line: 2912, col: 13, offset: 92773},
+																															pos: position{line: 2924, col: 13, offset: 93289},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2912, col: 13, offset: 92773},
+																																	pos:        position{line: 2924, col: 13, offset: 93289},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2912, col: 20, offset: 92780},
+																																	pos:        position{line: 2924, col: 20, offset: 93296},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2912, col: 29, offset: 92789},
+																																	pos:        position{line: 2924, col: 29, offset: 93305},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5172,9 +5172,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2922, col: 8, offset: 92949},
+																														pos: position{line: 2934, col: 8, offset: 93465},
 																														expr: &anyMatcher{
-																															line: 2922, col: 9, offset: 92950,
+																															line: 2934, col: 9, offset: 93466,
 																														},
 																													},
 																												},
@@ -5190,9 +5190,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2922, col: 8, offset: 92949},
+																						pos: position{line: 2934, col: 8, offset: 93465},
 																						expr: &anyMatcher{
-																							line: 2922, col: 9, offset: 92950,
+																							line: 2934, col: 9, offset: 93466,
 																						},
 																					},
 																				},
@@ -5208,21 +5208,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2920, col: 11, offset: 92935},
+																							pos: position{line: 2932, col: 11, offset: 93451},
 																							expr: &anyMatcher{
-																								line: 2920, col: 13, offset: 92937,
+																								line: 2932, col: 13, offset: 93453,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2849, col: 13, offset: 91127},
+																								pos: position{line: 2861, col: 13, offset: 91643},
 																								run: (*parser).callonDocumentFragment222,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2849, col: 13, offset: 91127},
+																									pos: position{line: 2861, col: 13, offset: 91643},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2849, col: 13, offset: 91127},
+																										pos:        position{line: 2861, col: 13, offset: 91643},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5232,28 +5232,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2925, col: 8, offset: 92999},
+																							pos: position{line: 2937, col: 8, offset: 93515},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2912, col: 12, offset: 92772},
+																									pos: position{line: 2924, col: 12, offset: 93288},
 																									run: (*parser).callonDocumentFragment226,
 																									expr: &choiceExpr{
-																										pos: position{line: 2912, col: 13, offset: 92773},
+																										pos: position{line: 2924, col: 13, offset: 93289},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 13, offset: 92773},
+																												pos:        position{line: 2924, col: 13, offset: 93289},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 20, offset: 92780},
+																												pos:        position{line: 2924, col: 20, offset: 93296},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 29, offset: 92789},
+																												pos:        position{line: 2924, col: 29, offset: 93305},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5262,9 +5262,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2922, col: 8, offset: 92949},
+																									pos: position{line: 2934, col: 8, offset: 93465},
 																									expr: &anyMatcher{
-																										line: 2922, col: 9, offset: 92950,
+																										line: 2934, col: 9, offset: 93466,
 																									},
 																								},
 																							},
@@ -5329,10 +5329,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 750, col: 8, offset: 23993},
 																								expr: &actionExpr{
-																									pos: position{line: 2903, col: 10, offset: 92601},
+																									pos: position{line: 2915, col: 10, offset: 93117},
 																									run: (*parser).callonDocumentFragment247,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2903, col: 10, offset: 92601},
+																										pos:        position{line: 2915, col: 10, offset: 93117},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5341,28 +5341,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2925, col: 8, offset: 92999},
+																								pos: position{line: 2937, col: 8, offset: 93515},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2912, col: 12, offset: 92772},
+																										pos: position{line: 2924, col: 12, offset: 93288},
 																										run: (*parser).callonDocumentFragment250,
 																										expr: &choiceExpr{
-																											pos: position{line: 2912, col: 13, offset: 92773},
+																											pos: position{line: 2924, col: 13, offset: 93289},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2912, col: 13, offset: 92773},
+																													pos:        position{line: 2924, col: 13, offset: 93289},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2912, col: 20, offset: 92780},
+																													pos:        position{line: 2924, col: 20, offset: 93296},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2912, col: 29, offset: 92789},
+																													pos:        position{line: 2924, col: 29, offset: 93305},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5371,9 +5371,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2922, col: 8, offset: 92949},
+																										pos: position{line: 2934, col: 8, offset: 93465},
 																										expr: &anyMatcher{
-																											line: 2922, col: 9, offset: 92950,
+																											line: 2934, col: 9, offset: 93466,
 																										},
 																									},
 																								},
@@ -5389,9 +5389,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2922, col: 8, offset: 92949},
+																		pos: position{line: 2934, col: 8, offset: 93465},
 																		expr: &anyMatcher{
-																			line: 2922, col: 9, offset: 92950,
+																			line: 2934, col: 9, offset: 93466,
 																		},
 																	},
 																},
@@ -5443,10 +5443,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 761, col: 52, offset: 24405},
 																		expr: &actionExpr{
-																			pos: position{line: 2903, col: 10, offset: 92601},
+																			pos: position{line: 2915, col: 10, offset: 93117},
 																			run: (*parser).callonDocumentFragment271,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2903, col: 10, offset: 92601},
+																				pos:        position{line: 2915, col: 10, offset: 93117},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5455,28 +5455,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2925, col: 8, offset: 92999},
+																		pos: position{line: 2937, col: 8, offset: 93515},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2912, col: 12, offset: 92772},
+																				pos: position{line: 2924, col: 12, offset: 93288},
 																				run: (*parser).callonDocumentFragment274,
 																				expr: &choiceExpr{
-																					pos: position{line: 2912, col: 13, offset: 92773},
+																					pos: position{line: 2924, col: 13, offset: 93289},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 13, offset: 92773},
+																							pos:        position{line: 2924, col: 13, offset: 93289},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 20, offset: 92780},
+																							pos:        position{line: 2924, col: 20, offset: 93296},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 29, offset: 92789},
+																							pos:        position{line: 2924, col: 29, offset: 93305},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5485,9 +5485,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2922, col: 8, offset: 92949},
+																				pos: position{line: 2934, col: 8, offset: 93465},
 																				expr: &anyMatcher{
-																					line: 2922, col: 9, offset: 92950,
+																					line: 2934, col: 9, offset: 93466,
 																				},
 																			},
 																		},
@@ -5521,10 +5521,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 964, col: 40, offset: 30213},
 																						expr: &actionExpr{
-																							pos: position{line: 2903, col: 10, offset: 92601},
+																							pos: position{line: 2915, col: 10, offset: 93117},
 																							run: (*parser).callonDocumentFragment289,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2903, col: 10, offset: 92601},
+																								pos:        position{line: 2915, col: 10, offset: 93117},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5533,28 +5533,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2925, col: 8, offset: 92999},
+																						pos: position{line: 2937, col: 8, offset: 93515},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2912, col: 12, offset: 92772},
+																								pos: position{line: 2924, col: 12, offset: 93288},
 																								run: (*parser).callonDocumentFragment292,
 																								expr: &choiceExpr{
-																									pos: position{line: 2912, col: 13, offset: 92773},
+																									pos: position{line: 2924, col: 13, offset: 93289},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 13, offset: 92773},
+																											pos:        position{line: 2924, col: 13, offset: 93289},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 20, offset: 92780},
+																											pos:        position{line: 2924, col: 20, offset: 93296},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 29, offset: 92789},
+																											pos:        position{line: 2924, col: 29, offset: 93305},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5563,9 +5563,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2922, col: 8, offset: 92949},
+																								pos: position{line: 2934, col: 8, offset: 93465},
 																								expr: &anyMatcher{
-																									line: 2922, col: 9, offset: 92950,
+																									line: 2934, col: 9, offset: 93466,
 																								},
 																							},
 																						},
@@ -5583,21 +5583,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2920, col: 11, offset: 92935},
+																							pos: position{line: 2932, col: 11, offset: 93451},
 																							expr: &anyMatcher{
-																								line: 2920, col: 13, offset: 92937,
+																								line: 2932, col: 13, offset: 93453,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2849, col: 13, offset: 91127},
+																								pos: position{line: 2861, col: 13, offset: 91643},
 																								run: (*parser).callonDocumentFragment305,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2849, col: 13, offset: 91127},
+																									pos: position{line: 2861, col: 13, offset: 91643},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2849, col: 13, offset: 91127},
+																										pos:        position{line: 2861, col: 13, offset: 91643},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5607,28 +5607,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2925, col: 8, offset: 92999},
+																							pos: position{line: 2937, col: 8, offset: 93515},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2912, col: 12, offset: 92772},
+																									pos: position{line: 2924, col: 12, offset: 93288},
 																									run: (*parser).callonDocumentFragment309,
 																									expr: &choiceExpr{
-																										pos: position{line: 2912, col: 13, offset: 92773},
+																										pos: position{line: 2924, col: 13, offset: 93289},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 13, offset: 92773},
+																												pos:        position{line: 2924, col: 13, offset: 93289},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 20, offset: 92780},
+																												pos:        position{line: 2924, col: 20, offset: 93296},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 29, offset: 92789},
+																												pos:        position{line: 2924, col: 29, offset: 93305},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5637,9 +5637,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2922, col: 8, offset: 92949},
+																									pos: position{line: 2934, col: 8, offset: 93465},
 																									expr: &anyMatcher{
-																										line: 2922, col: 9, offset: 92950,
+																										line: 2934, col: 9, offset: 93466,
 																									},
 																								},
 																							},
@@ -5667,10 +5667,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 964, col: 40, offset: 30213},
 																	expr: &actionExpr{
-																		pos: position{line: 2903, col: 10, offset: 92601},
+																		pos: position{line: 2915, col: 10, offset: 93117},
 																		run: (*parser).callonDocumentFragment320,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2903, col: 10, offset: 92601},
+																			pos:        position{line: 2915, col: 10, offset: 93117},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5679,28 +5679,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2925, col: 8, offset: 92999},
+																	pos: position{line: 2937, col: 8, offset: 93515},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2912, col: 12, offset: 92772},
+																			pos: position{line: 2924, col: 12, offset: 93288},
 																			run: (*parser).callonDocumentFragment323,
 																			expr: &choiceExpr{
-																				pos: position{line: 2912, col: 13, offset: 92773},
+																				pos: position{line: 2924, col: 13, offset: 93289},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 13, offset: 92773},
+																						pos:        position{line: 2924, col: 13, offset: 93289},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 20, offset: 92780},
+																						pos:        position{line: 2924, col: 20, offset: 93296},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 29, offset: 92789},
+																						pos:        position{line: 2924, col: 29, offset: 93305},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5709,9 +5709,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2922, col: 8, offset: 92949},
+																			pos: position{line: 2934, col: 8, offset: 93465},
 																			expr: &anyMatcher{
-																				line: 2922, col: 9, offset: 92950,
+																				line: 2934, col: 9, offset: 93466,
 																			},
 																		},
 																	},
@@ -5768,10 +5768,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 757, col: 8, offset: 24239},
 																		expr: &actionExpr{
-																			pos: position{line: 2903, col: 10, offset: 92601},
+																			pos: position{line: 2915, col: 10, offset: 93117},
 																			run: (*parser).callonDocumentFragment342,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2903, col: 10, offset: 92601},
+																				pos:        position{line: 2915, col: 10, offset: 93117},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5780,28 +5780,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2925, col: 8, offset: 92999},
+																		pos: position{line: 2937, col: 8, offset: 93515},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2912, col: 12, offset: 92772},
+																				pos: position{line: 2924, col: 12, offset: 93288},
 																				run: (*parser).callonDocumentFragment345,
 																				expr: &choiceExpr{
-																					pos: position{line: 2912, col: 13, offset: 92773},
+																					pos: position{line: 2924, col: 13, offset: 93289},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 13, offset: 92773},
+																							pos:        position{line: 2924, col: 13, offset: 93289},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 20, offset: 92780},
+																							pos:        position{line: 2924, col: 20, offset: 93296},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 29, offset: 92789},
+																							pos:        position{line: 2924, col: 29, offset: 93305},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5810,9 +5810,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2922, col: 8, offset: 92949},
+																				pos: position{line: 2934, col: 8, offset: 93465},
 																				expr: &anyMatcher{
-																					line: 2922, col: 9, offset: 92950,
+																					line: 2934, col: 9, offset: 93466,
 																				},
 																			},
 																		},
@@ -5884,10 +5884,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 757, col: 8, offset: 24239},
 																												expr: &actionExpr{
-																													pos: position{line: 2903, col: 10, offset: 92601},
+																													pos: position{line: 2915, col: 10, offset: 93117},
 																													run: (*parser).callonDocumentFragment370,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2903, col: 10, offset: 92601},
+																														pos:        position{line: 2915, col: 10, offset: 93117},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5896,28 +5896,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2925, col: 8, offset: 92999},
+																												pos: position{line: 2937, col: 8, offset: 93515},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2912, col: 12, offset: 92772},
+																														pos: position{line: 2924, col: 12, offset: 93288},
 																														run: (*parser).callonDocumentFragment373,
 																														expr: &choiceExpr{
-																															pos: position{line: 2912, col: 13, offset: 92773},
+																															pos: position{line: 2924, col: 13, offset: 93289},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2912, col: 13, offset: 92773},
+																																	pos:        position{line: 2924, col: 13, offset: 93289},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2912, col: 20, offset: 92780},
+																																	pos:        position{line: 2924, col: 20, offset: 93296},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2912, col: 29, offset: 92789},
+																																	pos:        position{line: 2924, col: 29, offset: 93305},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5926,9 +5926,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2922, col: 8, offset: 92949},
+																														pos: position{line: 2934, col: 8, offset: 93465},
 																														expr: &anyMatcher{
-																															line: 2922, col: 9, offset: 92950,
+																															line: 2934, col: 9, offset: 93466,
 																														},
 																													},
 																												},
@@ -5944,9 +5944,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2922, col: 8, offset: 92949},
+																						pos: position{line: 2934, col: 8, offset: 93465},
 																						expr: &anyMatcher{
-																							line: 2922, col: 9, offset: 92950,
+																							line: 2934, col: 9, offset: 93466,
 																						},
 																					},
 																				},
@@ -5962,21 +5962,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2920, col: 11, offset: 92935},
+																							pos: position{line: 2932, col: 11, offset: 93451},
 																							expr: &anyMatcher{
-																								line: 2920, col: 13, offset: 92937,
+																								line: 2932, col: 13, offset: 93453,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2849, col: 13, offset: 91127},
+																								pos: position{line: 2861, col: 13, offset: 91643},
 																								run: (*parser).callonDocumentFragment389,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2849, col: 13, offset: 91127},
+																									pos: position{line: 2861, col: 13, offset: 91643},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2849, col: 13, offset: 91127},
+																										pos:        position{line: 2861, col: 13, offset: 91643},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5986,28 +5986,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2925, col: 8, offset: 92999},
+																							pos: position{line: 2937, col: 8, offset: 93515},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2912, col: 12, offset: 92772},
+																									pos: position{line: 2924, col: 12, offset: 93288},
 																									run: (*parser).callonDocumentFragment393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2912, col: 13, offset: 92773},
+																										pos: position{line: 2924, col: 13, offset: 93289},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 13, offset: 92773},
+																												pos:        position{line: 2924, col: 13, offset: 93289},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 20, offset: 92780},
+																												pos:        position{line: 2924, col: 20, offset: 93296},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 29, offset: 92789},
+																												pos:        position{line: 2924, col: 29, offset: 93305},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6016,9 +6016,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2922, col: 8, offset: 92949},
+																									pos: position{line: 2934, col: 8, offset: 93465},
 																									expr: &anyMatcher{
-																										line: 2922, col: 9, offset: 92950,
+																										line: 2934, col: 9, offset: 93466,
 																									},
 																								},
 																							},
@@ -6083,10 +6083,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 757, col: 8, offset: 24239},
 																								expr: &actionExpr{
-																									pos: position{line: 2903, col: 10, offset: 92601},
+																									pos: position{line: 2915, col: 10, offset: 93117},
 																									run: (*parser).callonDocumentFragment414,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2903, col: 10, offset: 92601},
+																										pos:        position{line: 2915, col: 10, offset: 93117},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6095,28 +6095,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2925, col: 8, offset: 92999},
+																								pos: position{line: 2937, col: 8, offset: 93515},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2912, col: 12, offset: 92772},
+																										pos: position{line: 2924, col: 12, offset: 93288},
 																										run: (*parser).callonDocumentFragment417,
 																										expr: &choiceExpr{
-																											pos: position{line: 2912, col: 13, offset: 92773},
+																											pos: position{line: 2924, col: 13, offset: 93289},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2912, col: 13, offset: 92773},
+																													pos:        position{line: 2924, col: 13, offset: 93289},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2912, col: 20, offset: 92780},
+																													pos:        position{line: 2924, col: 20, offset: 93296},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2912, col: 29, offset: 92789},
+																													pos:        position{line: 2924, col: 29, offset: 93305},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6125,9 +6125,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2922, col: 8, offset: 92949},
+																										pos: position{line: 2934, col: 8, offset: 93465},
 																										expr: &anyMatcher{
-																											line: 2922, col: 9, offset: 92950,
+																											line: 2934, col: 9, offset: 93466,
 																										},
 																									},
 																								},
@@ -6143,9 +6143,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2922, col: 8, offset: 92949},
+																		pos: position{line: 2934, col: 8, offset: 93465},
 																		expr: &anyMatcher{
-																			line: 2922, col: 9, offset: 92950,
+																			line: 2934, col: 9, offset: 93466,
 																		},
 																	},
 																},
@@ -6201,10 +6201,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 772, col: 8, offset: 24782},
 																		expr: &actionExpr{
-																			pos: position{line: 2903, col: 10, offset: 92601},
+																			pos: position{line: 2915, col: 10, offset: 93117},
 																			run: (*parser).callonDocumentFragment439,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2903, col: 10, offset: 92601},
+																				pos:        position{line: 2915, col: 10, offset: 93117},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6213,28 +6213,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2925, col: 8, offset: 92999},
+																		pos: position{line: 2937, col: 8, offset: 93515},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2912, col: 12, offset: 92772},
+																				pos: position{line: 2924, col: 12, offset: 93288},
 																				run: (*parser).callonDocumentFragment442,
 																				expr: &choiceExpr{
-																					pos: position{line: 2912, col: 13, offset: 92773},
+																					pos: position{line: 2924, col: 13, offset: 93289},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 13, offset: 92773},
+																							pos:        position{line: 2924, col: 13, offset: 93289},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 20, offset: 92780},
+																							pos:        position{line: 2924, col: 20, offset: 93296},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 29, offset: 92789},
+																							pos:        position{line: 2924, col: 29, offset: 93305},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6243,9 +6243,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2922, col: 8, offset: 92949},
+																				pos: position{line: 2934, col: 8, offset: 93465},
 																				expr: &anyMatcher{
-																					line: 2922, col: 9, offset: 92950,
+																					line: 2934, col: 9, offset: 93466,
 																				},
 																			},
 																		},
@@ -6317,10 +6317,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 772, col: 8, offset: 24782},
 																												expr: &actionExpr{
-																													pos: position{line: 2903, col: 10, offset: 92601},
+																													pos: position{line: 2915, col: 10, offset: 93117},
 																													run: (*parser).callonDocumentFragment467,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2903, col: 10, offset: 92601},
+																														pos:        position{line: 2915, col: 10, offset: 93117},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6329,28 +6329,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2925, col: 8, offset: 92999},
+																												pos: position{line: 2937, col: 8, offset: 93515},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2912, col: 12, offset: 92772},
+																														pos: position{line: 2924, col: 12, offset: 93288},
 																														run: (*parser).callonDocumentFragment470,
 																														expr: &choiceExpr{
-																															pos: position{line: 2912, col: 13, offset: 92773},
+																															pos: position{line: 2924, col: 13, offset: 93289},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2912, col: 13, offset: 92773},
+																																	pos:        position{line: 2924, col: 13, offset: 93289},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2912, col: 20, offset: 92780},
+																																	pos:        position{line: 2924, col: 20, offset: 93296},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2912, col: 29, offset: 92789},
+																																	pos:        position{line: 2924, col: 29, offset: 93305},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6359,9 +6359,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2922, col: 8, offset: 92949},
+																														pos: position{line: 2934, col: 8, offset: 93465},
 																														expr: &anyMatcher{
-																															line: 2922, col: 9, offset: 92950,
+																															line: 2934, col: 9, offset: 93466,
 																														},
 																													},
 																												},
@@ -6377,9 +6377,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2922, col: 8, offset: 92949},
+																						pos: position{line: 2934, col: 8, offset: 93465},
 																						expr: &anyMatcher{
-																							line: 2922, col: 9, offset: 92950,
+																							line: 2934, col: 9, offset: 93466,
 																						},
 																					},
 																				},
@@ -6395,21 +6395,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2920, col: 11, offset: 92935},
+																							pos: position{line: 2932, col: 11, offset: 93451},
 																							expr: &anyMatcher{
-																								line: 2920, col: 13, offset: 92937,
+																								line: 2932, col: 13, offset: 93453,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2849, col: 13, offset: 91127},
+																								pos: position{line: 2861, col: 13, offset: 91643},
 																								run: (*parser).callonDocumentFragment486,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2849, col: 13, offset: 91127},
+																									pos: position{line: 2861, col: 13, offset: 91643},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2849, col: 13, offset: 91127},
+																										pos:        position{line: 2861, col: 13, offset: 91643},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6419,28 +6419,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2925, col: 8, offset: 92999},
+																							pos: position{line: 2937, col: 8, offset: 93515},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2912, col: 12, offset: 92772},
+																									pos: position{line: 2924, col: 12, offset: 93288},
 																									run: (*parser).callonDocumentFragment490,
 																									expr: &choiceExpr{
-																										pos: position{line: 2912, col: 13, offset: 92773},
+																										pos: position{line: 2924, col: 13, offset: 93289},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 13, offset: 92773},
+																												pos:        position{line: 2924, col: 13, offset: 93289},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 20, offset: 92780},
+																												pos:        position{line: 2924, col: 20, offset: 93296},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 29, offset: 92789},
+																												pos:        position{line: 2924, col: 29, offset: 93305},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6449,9 +6449,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2922, col: 8, offset: 92949},
+																									pos: position{line: 2934, col: 8, offset: 93465},
 																									expr: &anyMatcher{
-																										line: 2922, col: 9, offset: 92950,
+																										line: 2934, col: 9, offset: 93466,
 																									},
 																								},
 																							},
@@ -6516,10 +6516,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 772, col: 8, offset: 24782},
 																								expr: &actionExpr{
-																									pos: position{line: 2903, col: 10, offset: 92601},
+																									pos: position{line: 2915, col: 10, offset: 93117},
 																									run: (*parser).callonDocumentFragment511,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2903, col: 10, offset: 92601},
+																										pos:        position{line: 2915, col: 10, offset: 93117},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6528,28 +6528,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2925, col: 8, offset: 92999},
+																								pos: position{line: 2937, col: 8, offset: 93515},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2912, col: 12, offset: 92772},
+																										pos: position{line: 2924, col: 12, offset: 93288},
 																										run: (*parser).callonDocumentFragment514,
 																										expr: &choiceExpr{
-																											pos: position{line: 2912, col: 13, offset: 92773},
+																											pos: position{line: 2924, col: 13, offset: 93289},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2912, col: 13, offset: 92773},
+																													pos:        position{line: 2924, col: 13, offset: 93289},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2912, col: 20, offset: 92780},
+																													pos:        position{line: 2924, col: 20, offset: 93296},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2912, col: 29, offset: 92789},
+																													pos:        position{line: 2924, col: 29, offset: 93305},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6558,9 +6558,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2922, col: 8, offset: 92949},
+																										pos: position{line: 2934, col: 8, offset: 93465},
 																										expr: &anyMatcher{
-																											line: 2922, col: 9, offset: 92950,
+																											line: 2934, col: 9, offset: 93466,
 																										},
 																									},
 																								},
@@ -6576,9 +6576,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2922, col: 8, offset: 92949},
+																		pos: position{line: 2934, col: 8, offset: 93465},
 																		expr: &anyMatcher{
-																			line: 2922, col: 9, offset: 92950,
+																			line: 2934, col: 9, offset: 93466,
 																		},
 																	},
 																},
@@ -6634,10 +6634,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 786, col: 8, offset: 25258},
 																		expr: &actionExpr{
-																			pos: position{line: 2903, col: 10, offset: 92601},
+																			pos: position{line: 2915, col: 10, offset: 93117},
 																			run: (*parser).callonDocumentFragment536,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2903, col: 10, offset: 92601},
+																				pos:        position{line: 2915, col: 10, offset: 93117},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6646,28 +6646,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2925, col: 8, offset: 92999},
+																		pos: position{line: 2937, col: 8, offset: 93515},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2912, col: 12, offset: 92772},
+																				pos: position{line: 2924, col: 12, offset: 93288},
 																				run: (*parser).callonDocumentFragment539,
 																				expr: &choiceExpr{
-																					pos: position{line: 2912, col: 13, offset: 92773},
+																					pos: position{line: 2924, col: 13, offset: 93289},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 13, offset: 92773},
+																							pos:        position{line: 2924, col: 13, offset: 93289},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 20, offset: 92780},
+																							pos:        position{line: 2924, col: 20, offset: 93296},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 29, offset: 92789},
+																							pos:        position{line: 2924, col: 29, offset: 93305},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6676,9 +6676,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2922, col: 8, offset: 92949},
+																				pos: position{line: 2934, col: 8, offset: 93465},
 																				expr: &anyMatcher{
-																					line: 2922, col: 9, offset: 92950,
+																					line: 2934, col: 9, offset: 93466,
 																				},
 																			},
 																		},
@@ -6750,10 +6750,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 786, col: 8, offset: 25258},
 																												expr: &actionExpr{
-																													pos: position{line: 2903, col: 10, offset: 92601},
+																													pos: position{line: 2915, col: 10, offset: 93117},
 																													run: (*parser).callonDocumentFragment564,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2903, col: 10, offset: 92601},
+																														pos:        position{line: 2915, col: 10, offset: 93117},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6762,28 +6762,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2925, col: 8, offset: 92999},
+																												pos: position{line: 2937, col: 8, offset: 93515},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2912, col: 12, offset: 92772},
+																														pos: position{line: 2924, col: 12, offset: 93288},
 																														run: (*parser).callonDocumentFragment567,
 																														expr: &choiceExpr{
-																															pos: position{line: 2912, col: 13, offset: 92773},
+																															pos: position{line: 2924, col: 13, offset: 93289},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2912, col: 13, offset: 92773},
+																																	pos:        position{line: 2924, col: 13, offset: 93289},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2912, col: 20, offset: 92780},
+																																	pos:        position{line: 2924, col: 20, offset: 93296},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2912, col: 29, offset: 92789},
+																																	pos:        position{line: 2924, col: 29, offset: 93305},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6792,9 +6792,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2922, col: 8, offset: 92949},
+																														pos: position{line: 2934, col: 8, offset: 93465},
 																														expr: &anyMatcher{
-																															line: 2922, col: 9, offset: 92950,
+																															line: 2934, col: 9, offset: 93466,
 																														},
 																													},
 																												},
@@ -6810,9 +6810,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2922, col: 8, offset: 92949},
+																						pos: position{line: 2934, col: 8, offset: 93465},
 																						expr: &anyMatcher{
-																							line: 2922, col: 9, offset: 92950,
+																							line: 2934, col: 9, offset: 93466,
 																						},
 																					},
 																				},
@@ -6828,21 +6828,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2920, col: 11, offset: 92935},
+																							pos: position{line: 2932, col: 11, offset: 93451},
 																							expr: &anyMatcher{
-																								line: 2920, col: 13, offset: 92937,
+																								line: 2932, col: 13, offset: 93453,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2849, col: 13, offset: 91127},
+																								pos: position{line: 2861, col: 13, offset: 91643},
 																								run: (*parser).callonDocumentFragment583,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2849, col: 13, offset: 91127},
+																									pos: position{line: 2861, col: 13, offset: 91643},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2849, col: 13, offset: 91127},
+																										pos:        position{line: 2861, col: 13, offset: 91643},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6852,28 +6852,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2925, col: 8, offset: 92999},
+																							pos: position{line: 2937, col: 8, offset: 93515},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2912, col: 12, offset: 92772},
+																									pos: position{line: 2924, col: 12, offset: 93288},
 																									run: (*parser).callonDocumentFragment587,
 																									expr: &choiceExpr{
-																										pos: position{line: 2912, col: 13, offset: 92773},
+																										pos: position{line: 2924, col: 13, offset: 93289},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 13, offset: 92773},
+																												pos:        position{line: 2924, col: 13, offset: 93289},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 20, offset: 92780},
+																												pos:        position{line: 2924, col: 20, offset: 93296},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 29, offset: 92789},
+																												pos:        position{line: 2924, col: 29, offset: 93305},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6882,9 +6882,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2922, col: 8, offset: 92949},
+																									pos: position{line: 2934, col: 8, offset: 93465},
 																									expr: &anyMatcher{
-																										line: 2922, col: 9, offset: 92950,
+																										line: 2934, col: 9, offset: 93466,
 																									},
 																								},
 																							},
@@ -6949,10 +6949,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 786, col: 8, offset: 25258},
 																								expr: &actionExpr{
-																									pos: position{line: 2903, col: 10, offset: 92601},
+																									pos: position{line: 2915, col: 10, offset: 93117},
 																									run: (*parser).callonDocumentFragment608,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2903, col: 10, offset: 92601},
+																										pos:        position{line: 2915, col: 10, offset: 93117},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6961,28 +6961,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2925, col: 8, offset: 92999},
+																								pos: position{line: 2937, col: 8, offset: 93515},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2912, col: 12, offset: 92772},
+																										pos: position{line: 2924, col: 12, offset: 93288},
 																										run: (*parser).callonDocumentFragment611,
 																										expr: &choiceExpr{
-																											pos: position{line: 2912, col: 13, offset: 92773},
+																											pos: position{line: 2924, col: 13, offset: 93289},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2912, col: 13, offset: 92773},
+																													pos:        position{line: 2924, col: 13, offset: 93289},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2912, col: 20, offset: 92780},
+																													pos:        position{line: 2924, col: 20, offset: 93296},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2912, col: 29, offset: 92789},
+																													pos:        position{line: 2924, col: 29, offset: 93305},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6991,9 +6991,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2922, col: 8, offset: 92949},
+																										pos: position{line: 2934, col: 8, offset: 93465},
 																										expr: &anyMatcher{
-																											line: 2922, col: 9, offset: 92950,
+																											line: 2934, col: 9, offset: 93466,
 																										},
 																									},
 																								},
@@ -7009,9 +7009,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2922, col: 8, offset: 92949},
+																		pos: position{line: 2934, col: 8, offset: 93465},
 																		expr: &anyMatcher{
-																			line: 2922, col: 9, offset: 92950,
+																			line: 2934, col: 9, offset: 93466,
 																		},
 																	},
 																},
@@ -7045,18 +7045,18 @@ var g = &grammar{
 																				pos: position{line: 677, col: 14, offset: 21525},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2920, col: 11, offset: 92935},
+																						pos: position{line: 2932, col: 11, offset: 93451},
 																						expr: &anyMatcher{
-																							line: 2920, col: 13, offset: 92937,
+																							line: 2932, col: 13, offset: 93453,
 																						},
 																					},
 																					&zeroOrMoreExpr{
 																						pos: position{line: 677, col: 21, offset: 21532},
 																						expr: &actionExpr{
-																							pos: position{line: 2903, col: 10, offset: 92601},
+																							pos: position{line: 2915, col: 10, offset: 93117},
 																							run: (*parser).callonDocumentFragment632,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2903, col: 10, offset: 92601},
+																								pos:        position{line: 2915, col: 10, offset: 93117},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -7065,28 +7065,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2925, col: 8, offset: 92999},
+																						pos: position{line: 2937, col: 8, offset: 93515},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2912, col: 12, offset: 92772},
+																								pos: position{line: 2924, col: 12, offset: 93288},
 																								run: (*parser).callonDocumentFragment635,
 																								expr: &choiceExpr{
-																									pos: position{line: 2912, col: 13, offset: 92773},
+																									pos: position{line: 2924, col: 13, offset: 93289},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 13, offset: 92773},
+																											pos:        position{line: 2924, col: 13, offset: 93289},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 20, offset: 92780},
+																											pos:        position{line: 2924, col: 20, offset: 93296},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 29, offset: 92789},
+																											pos:        position{line: 2924, col: 29, offset: 93305},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -7095,9 +7095,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2922, col: 8, offset: 92949},
+																								pos: position{line: 2934, col: 8, offset: 93465},
 																								expr: &anyMatcher{
-																									line: 2922, col: 9, offset: 92950,
+																									line: 2934, col: 9, offset: 93466,
 																								},
 																							},
 																						},
@@ -7116,12 +7116,12 @@ var g = &grammar{
 																		pos:   position{line: 985, col: 5, offset: 30748},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2853, col: 14, offset: 91194},
+																			pos: position{line: 2865, col: 14, offset: 91710},
 																			run: (*parser).callonDocumentFragment644,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2853, col: 14, offset: 91194},
+																				pos: position{line: 2865, col: 14, offset: 91710},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2853, col: 14, offset: 91194},
+																					pos:        position{line: 2865, col: 14, offset: 91710},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -7131,28 +7131,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2925, col: 8, offset: 92999},
+																		pos: position{line: 2937, col: 8, offset: 93515},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2912, col: 12, offset: 92772},
+																				pos: position{line: 2924, col: 12, offset: 93288},
 																				run: (*parser).callonDocumentFragment648,
 																				expr: &choiceExpr{
-																					pos: position{line: 2912, col: 13, offset: 92773},
+																					pos: position{line: 2924, col: 13, offset: 93289},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 13, offset: 92773},
+																							pos:        position{line: 2924, col: 13, offset: 93289},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 20, offset: 92780},
+																							pos:        position{line: 2924, col: 20, offset: 93296},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 29, offset: 92789},
+																							pos:        position{line: 2924, col: 29, offset: 93305},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7161,9 +7161,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2922, col: 8, offset: 92949},
+																				pos: position{line: 2934, col: 8, offset: 93465},
 																				expr: &anyMatcher{
-																					line: 2922, col: 9, offset: 92950,
+																					line: 2934, col: 9, offset: 93466,
 																				},
 																			},
 																		},
@@ -7195,18 +7195,18 @@ var g = &grammar{
 																							pos: position{line: 677, col: 14, offset: 21525},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2920, col: 11, offset: 92935},
+																									pos: position{line: 2932, col: 11, offset: 93451},
 																									expr: &anyMatcher{
-																										line: 2920, col: 13, offset: 92937,
+																										line: 2932, col: 13, offset: 93453,
 																									},
 																								},
 																								&zeroOrMoreExpr{
 																									pos: position{line: 677, col: 21, offset: 21532},
 																									expr: &actionExpr{
-																										pos: position{line: 2903, col: 10, offset: 92601},
+																										pos: position{line: 2915, col: 10, offset: 93117},
 																										run: (*parser).callonDocumentFragment666,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2903, col: 10, offset: 92601},
+																											pos:        position{line: 2915, col: 10, offset: 93117},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7215,28 +7215,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2925, col: 8, offset: 92999},
+																									pos: position{line: 2937, col: 8, offset: 93515},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2912, col: 12, offset: 92772},
+																											pos: position{line: 2924, col: 12, offset: 93288},
 																											run: (*parser).callonDocumentFragment669,
 																											expr: &choiceExpr{
-																												pos: position{line: 2912, col: 13, offset: 92773},
+																												pos: position{line: 2924, col: 13, offset: 93289},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2912, col: 13, offset: 92773},
+																														pos:        position{line: 2924, col: 13, offset: 93289},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2912, col: 20, offset: 92780},
+																														pos:        position{line: 2924, col: 20, offset: 93296},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2912, col: 29, offset: 92789},
+																														pos:        position{line: 2924, col: 29, offset: 93305},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7245,9 +7245,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2922, col: 8, offset: 92949},
+																											pos: position{line: 2934, col: 8, offset: 93465},
 																											expr: &anyMatcher{
-																												line: 2922, col: 9, offset: 92950,
+																												line: 2934, col: 9, offset: 93466,
 																											},
 																										},
 																									},
@@ -7266,12 +7266,12 @@ var g = &grammar{
 																					pos:   position{line: 985, col: 5, offset: 30748},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2853, col: 14, offset: 91194},
+																						pos: position{line: 2865, col: 14, offset: 91710},
 																						run: (*parser).callonDocumentFragment678,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2853, col: 14, offset: 91194},
+																							pos: position{line: 2865, col: 14, offset: 91710},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2853, col: 14, offset: 91194},
+																								pos:        position{line: 2865, col: 14, offset: 91710},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7281,28 +7281,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2925, col: 8, offset: 92999},
+																					pos: position{line: 2937, col: 8, offset: 93515},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2912, col: 12, offset: 92772},
+																							pos: position{line: 2924, col: 12, offset: 93288},
 																							run: (*parser).callonDocumentFragment682,
 																							expr: &choiceExpr{
-																								pos: position{line: 2912, col: 13, offset: 92773},
+																								pos: position{line: 2924, col: 13, offset: 93289},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2912, col: 13, offset: 92773},
+																										pos:        position{line: 2924, col: 13, offset: 93289},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2912, col: 20, offset: 92780},
+																										pos:        position{line: 2924, col: 20, offset: 93296},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2912, col: 29, offset: 92789},
+																										pos:        position{line: 2924, col: 29, offset: 93305},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7311,9 +7311,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2922, col: 8, offset: 92949},
+																							pos: position{line: 2934, col: 8, offset: 93465},
 																							expr: &anyMatcher{
-																								line: 2922, col: 9, offset: 92950,
+																								line: 2934, col: 9, offset: 93466,
 																							},
 																						},
 																					},
@@ -7331,12 +7331,12 @@ var g = &grammar{
 																					pos:   position{line: 1798, col: 5, offset: 58283},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2853, col: 14, offset: 91194},
+																						pos: position{line: 2865, col: 14, offset: 91710},
 																						run: (*parser).callonDocumentFragment692,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2853, col: 14, offset: 91194},
+																							pos: position{line: 2865, col: 14, offset: 91710},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2853, col: 14, offset: 91194},
+																								pos:        position{line: 2865, col: 14, offset: 91710},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7350,28 +7350,28 @@ var g = &grammar{
 																					run: (*parser).callonDocumentFragment695,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2925, col: 8, offset: 92999},
+																					pos: position{line: 2937, col: 8, offset: 93515},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2912, col: 12, offset: 92772},
+																							pos: position{line: 2924, col: 12, offset: 93288},
 																							run: (*parser).callonDocumentFragment697,
 																							expr: &choiceExpr{
-																								pos: position{line: 2912, col: 13, offset: 92773},
+																								pos: position{line: 2924, col: 13, offset: 93289},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2912, col: 13, offset: 92773},
+																										pos:        position{line: 2924, col: 13, offset: 93289},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2912, col: 20, offset: 92780},
+																										pos:        position{line: 2924, col: 20, offset: 93296},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2912, col: 29, offset: 92789},
+																										pos:        position{line: 2924, col: 29, offset: 93305},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7380,9 +7380,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2922, col: 8, offset: 92949},
+																							pos: position{line: 2934, col: 8, offset: 93465},
 																							expr: &anyMatcher{
-																								line: 2922, col: 9, offset: 92950,
+																								line: 2934, col: 9, offset: 93466,
 																							},
 																						},
 																					},
@@ -7429,10 +7429,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 779, col: 8, offset: 25013},
 																		expr: &actionExpr{
-																			pos: position{line: 2903, col: 10, offset: 92601},
+																			pos: position{line: 2915, col: 10, offset: 93117},
 																			run: (*parser).callonDocumentFragment713,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2903, col: 10, offset: 92601},
+																				pos:        position{line: 2915, col: 10, offset: 93117},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7441,28 +7441,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2925, col: 8, offset: 92999},
+																		pos: position{line: 2937, col: 8, offset: 93515},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2912, col: 12, offset: 92772},
+																				pos: position{line: 2924, col: 12, offset: 93288},
 																				run: (*parser).callonDocumentFragment716,
 																				expr: &choiceExpr{
-																					pos: position{line: 2912, col: 13, offset: 92773},
+																					pos: position{line: 2924, col: 13, offset: 93289},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 13, offset: 92773},
+																							pos:        position{line: 2924, col: 13, offset: 93289},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 20, offset: 92780},
+																							pos:        position{line: 2924, col: 20, offset: 93296},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 29, offset: 92789},
+																							pos:        position{line: 2924, col: 29, offset: 93305},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7471,9 +7471,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2922, col: 8, offset: 92949},
+																				pos: position{line: 2934, col: 8, offset: 93465},
 																				expr: &anyMatcher{
-																					line: 2922, col: 9, offset: 92950,
+																					line: 2934, col: 9, offset: 93466,
 																				},
 																			},
 																		},
@@ -7521,10 +7521,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 779, col: 8, offset: 25013},
 																									expr: &actionExpr{
-																										pos: position{line: 2903, col: 10, offset: 92601},
+																										pos: position{line: 2915, col: 10, offset: 93117},
 																										run: (*parser).callonDocumentFragment735,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2903, col: 10, offset: 92601},
+																											pos:        position{line: 2915, col: 10, offset: 93117},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7533,28 +7533,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2925, col: 8, offset: 92999},
+																									pos: position{line: 2937, col: 8, offset: 93515},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2912, col: 12, offset: 92772},
+																											pos: position{line: 2924, col: 12, offset: 93288},
 																											run: (*parser).callonDocumentFragment738,
 																											expr: &choiceExpr{
-																												pos: position{line: 2912, col: 13, offset: 92773},
+																												pos: position{line: 2924, col: 13, offset: 93289},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2912, col: 13, offset: 92773},
+																														pos:        position{line: 2924, col: 13, offset: 93289},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2912, col: 20, offset: 92780},
+																														pos:        position{line: 2924, col: 20, offset: 93296},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2912, col: 29, offset: 92789},
+																														pos:        position{line: 2924, col: 29, offset: 93305},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7563,9 +7563,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2922, col: 8, offset: 92949},
+																											pos: position{line: 2934, col: 8, offset: 93465},
 																											expr: &anyMatcher{
-																												line: 2922, col: 9, offset: 92950,
+																												line: 2934, col: 9, offset: 93466,
 																											},
 																										},
 																									},
@@ -7574,9 +7574,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2922, col: 8, offset: 92949},
+																						pos: position{line: 2934, col: 8, offset: 93465},
 																						expr: &anyMatcher{
-																							line: 2922, col: 9, offset: 92950,
+																							line: 2934, col: 9, offset: 93466,
 																						},
 																					},
 																				},
@@ -7592,21 +7592,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2920, col: 11, offset: 92935},
+																							pos: position{line: 2932, col: 11, offset: 93451},
 																							expr: &anyMatcher{
-																								line: 2920, col: 13, offset: 92937,
+																								line: 2932, col: 13, offset: 93453,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2849, col: 13, offset: 91127},
+																								pos: position{line: 2861, col: 13, offset: 91643},
 																								run: (*parser).callonDocumentFragment753,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2849, col: 13, offset: 91127},
+																									pos: position{line: 2861, col: 13, offset: 91643},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2849, col: 13, offset: 91127},
+																										pos:        position{line: 2861, col: 13, offset: 91643},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7616,28 +7616,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2925, col: 8, offset: 92999},
+																							pos: position{line: 2937, col: 8, offset: 93515},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2912, col: 12, offset: 92772},
+																									pos: position{line: 2924, col: 12, offset: 93288},
 																									run: (*parser).callonDocumentFragment757,
 																									expr: &choiceExpr{
-																										pos: position{line: 2912, col: 13, offset: 92773},
+																										pos: position{line: 2924, col: 13, offset: 93289},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 13, offset: 92773},
+																												pos:        position{line: 2924, col: 13, offset: 93289},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 20, offset: 92780},
+																												pos:        position{line: 2924, col: 20, offset: 93296},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 29, offset: 92789},
+																												pos:        position{line: 2924, col: 29, offset: 93305},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7646,9 +7646,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2922, col: 8, offset: 92949},
+																									pos: position{line: 2934, col: 8, offset: 93465},
 																									expr: &anyMatcher{
-																										line: 2922, col: 9, offset: 92950,
+																										line: 2934, col: 9, offset: 93466,
 																									},
 																								},
 																							},
@@ -7693,10 +7693,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 779, col: 8, offset: 25013},
 																					expr: &actionExpr{
-																						pos: position{line: 2903, col: 10, offset: 92601},
+																						pos: position{line: 2915, col: 10, offset: 93117},
 																						run: (*parser).callonDocumentFragment773,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2903, col: 10, offset: 92601},
+																							pos:        position{line: 2915, col: 10, offset: 93117},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7705,28 +7705,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2925, col: 8, offset: 92999},
+																					pos: position{line: 2937, col: 8, offset: 93515},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2912, col: 12, offset: 92772},
+																							pos: position{line: 2924, col: 12, offset: 93288},
 																							run: (*parser).callonDocumentFragment776,
 																							expr: &choiceExpr{
-																								pos: position{line: 2912, col: 13, offset: 92773},
+																								pos: position{line: 2924, col: 13, offset: 93289},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2912, col: 13, offset: 92773},
+																										pos:        position{line: 2924, col: 13, offset: 93289},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2912, col: 20, offset: 92780},
+																										pos:        position{line: 2924, col: 20, offset: 93296},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2912, col: 29, offset: 92789},
+																										pos:        position{line: 2924, col: 29, offset: 93305},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7735,9 +7735,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2922, col: 8, offset: 92949},
+																							pos: position{line: 2934, col: 8, offset: 93465},
 																							expr: &anyMatcher{
-																								line: 2922, col: 9, offset: 92950,
+																								line: 2934, col: 9, offset: 93466,
 																							},
 																						},
 																					},
@@ -7746,9 +7746,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2922, col: 8, offset: 92949},
+																		pos: position{line: 2934, col: 8, offset: 93465},
 																		expr: &anyMatcher{
-																			line: 2922, col: 9, offset: 92950,
+																			line: 2934, col: 9, offset: 93466,
 																		},
 																	},
 																},
@@ -7804,10 +7804,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 793, col: 8, offset: 25510},
 																		expr: &actionExpr{
-																			pos: position{line: 2903, col: 10, offset: 92601},
+																			pos: position{line: 2915, col: 10, offset: 93117},
 																			run: (*parser).callonDocumentFragment797,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2903, col: 10, offset: 92601},
+																				pos:        position{line: 2915, col: 10, offset: 93117},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7816,28 +7816,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2925, col: 8, offset: 92999},
+																		pos: position{line: 2937, col: 8, offset: 93515},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2912, col: 12, offset: 92772},
+																				pos: position{line: 2924, col: 12, offset: 93288},
 																				run: (*parser).callonDocumentFragment800,
 																				expr: &choiceExpr{
-																					pos: position{line: 2912, col: 13, offset: 92773},
+																					pos: position{line: 2924, col: 13, offset: 93289},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 13, offset: 92773},
+																							pos:        position{line: 2924, col: 13, offset: 93289},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 20, offset: 92780},
+																							pos:        position{line: 2924, col: 20, offset: 93296},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 29, offset: 92789},
+																							pos:        position{line: 2924, col: 29, offset: 93305},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7846,9 +7846,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2922, col: 8, offset: 92949},
+																				pos: position{line: 2934, col: 8, offset: 93465},
 																				expr: &anyMatcher{
-																					line: 2922, col: 9, offset: 92950,
+																					line: 2934, col: 9, offset: 93466,
 																				},
 																			},
 																		},
@@ -7920,10 +7920,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 793, col: 8, offset: 25510},
 																												expr: &actionExpr{
-																													pos: position{line: 2903, col: 10, offset: 92601},
+																													pos: position{line: 2915, col: 10, offset: 93117},
 																													run: (*parser).callonDocumentFragment825,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2903, col: 10, offset: 92601},
+																														pos:        position{line: 2915, col: 10, offset: 93117},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7932,28 +7932,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2925, col: 8, offset: 92999},
+																												pos: position{line: 2937, col: 8, offset: 93515},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2912, col: 12, offset: 92772},
+																														pos: position{line: 2924, col: 12, offset: 93288},
 																														run: (*parser).callonDocumentFragment828,
 																														expr: &choiceExpr{
-																															pos: position{line: 2912, col: 13, offset: 92773},
+																															pos: position{line: 2924, col: 13, offset: 93289},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2912, col: 13, offset: 92773},
+																																	pos:        position{line: 2924, col: 13, offset: 93289},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2912, col: 20, offset: 92780},
+																																	pos:        position{line: 2924, col: 20, offset: 93296},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2912, col: 29, offset: 92789},
+																																	pos:        position{line: 2924, col: 29, offset: 93305},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7962,9 +7962,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2922, col: 8, offset: 92949},
+																														pos: position{line: 2934, col: 8, offset: 93465},
 																														expr: &anyMatcher{
-																															line: 2922, col: 9, offset: 92950,
+																															line: 2934, col: 9, offset: 93466,
 																														},
 																													},
 																												},
@@ -7980,9 +7980,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2922, col: 8, offset: 92949},
+																						pos: position{line: 2934, col: 8, offset: 93465},
 																						expr: &anyMatcher{
-																							line: 2922, col: 9, offset: 92950,
+																							line: 2934, col: 9, offset: 93466,
 																						},
 																					},
 																				},
@@ -7998,21 +7998,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2920, col: 11, offset: 92935},
+																							pos: position{line: 2932, col: 11, offset: 93451},
 																							expr: &anyMatcher{
-																								line: 2920, col: 13, offset: 92937,
+																								line: 2932, col: 13, offset: 93453,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2849, col: 13, offset: 91127},
+																								pos: position{line: 2861, col: 13, offset: 91643},
 																								run: (*parser).callonDocumentFragment844,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2849, col: 13, offset: 91127},
+																									pos: position{line: 2861, col: 13, offset: 91643},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2849, col: 13, offset: 91127},
+																										pos:        position{line: 2861, col: 13, offset: 91643},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8022,28 +8022,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2925, col: 8, offset: 92999},
+																							pos: position{line: 2937, col: 8, offset: 93515},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2912, col: 12, offset: 92772},
+																									pos: position{line: 2924, col: 12, offset: 93288},
 																									run: (*parser).callonDocumentFragment848,
 																									expr: &choiceExpr{
-																										pos: position{line: 2912, col: 13, offset: 92773},
+																										pos: position{line: 2924, col: 13, offset: 93289},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 13, offset: 92773},
+																												pos:        position{line: 2924, col: 13, offset: 93289},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 20, offset: 92780},
+																												pos:        position{line: 2924, col: 20, offset: 93296},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 29, offset: 92789},
+																												pos:        position{line: 2924, col: 29, offset: 93305},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8052,9 +8052,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2922, col: 8, offset: 92949},
+																									pos: position{line: 2934, col: 8, offset: 93465},
 																									expr: &anyMatcher{
-																										line: 2922, col: 9, offset: 92950,
+																										line: 2934, col: 9, offset: 93466,
 																									},
 																								},
 																							},
@@ -8119,10 +8119,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 793, col: 8, offset: 25510},
 																								expr: &actionExpr{
-																									pos: position{line: 2903, col: 10, offset: 92601},
+																									pos: position{line: 2915, col: 10, offset: 93117},
 																									run: (*parser).callonDocumentFragment869,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2903, col: 10, offset: 92601},
+																										pos:        position{line: 2915, col: 10, offset: 93117},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8131,28 +8131,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2925, col: 8, offset: 92999},
+																								pos: position{line: 2937, col: 8, offset: 93515},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2912, col: 12, offset: 92772},
+																										pos: position{line: 2924, col: 12, offset: 93288},
 																										run: (*parser).callonDocumentFragment872,
 																										expr: &choiceExpr{
-																											pos: position{line: 2912, col: 13, offset: 92773},
+																											pos: position{line: 2924, col: 13, offset: 93289},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2912, col: 13, offset: 92773},
+																													pos:        position{line: 2924, col: 13, offset: 93289},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2912, col: 20, offset: 92780},
+																													pos:        position{line: 2924, col: 20, offset: 93296},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2912, col: 29, offset: 92789},
+																													pos:        position{line: 2924, col: 29, offset: 93305},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8161,9 +8161,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2922, col: 8, offset: 92949},
+																										pos: position{line: 2934, col: 8, offset: 93465},
 																										expr: &anyMatcher{
-																											line: 2922, col: 9, offset: 92950,
+																											line: 2934, col: 9, offset: 93466,
 																										},
 																									},
 																								},
@@ -8179,9 +8179,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2922, col: 8, offset: 92949},
+																		pos: position{line: 2934, col: 8, offset: 93465},
 																		expr: &anyMatcher{
-																			line: 2922, col: 9, offset: 92950,
+																			line: 2934, col: 9, offset: 93466,
 																		},
 																	},
 																},
@@ -8237,10 +8237,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 800, col: 8, offset: 25760},
 																		expr: &actionExpr{
-																			pos: position{line: 2903, col: 10, offset: 92601},
+																			pos: position{line: 2915, col: 10, offset: 93117},
 																			run: (*parser).callonDocumentFragment894,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2903, col: 10, offset: 92601},
+																				pos:        position{line: 2915, col: 10, offset: 93117},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8249,28 +8249,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2925, col: 8, offset: 92999},
+																		pos: position{line: 2937, col: 8, offset: 93515},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2912, col: 12, offset: 92772},
+																				pos: position{line: 2924, col: 12, offset: 93288},
 																				run: (*parser).callonDocumentFragment897,
 																				expr: &choiceExpr{
-																					pos: position{line: 2912, col: 13, offset: 92773},
+																					pos: position{line: 2924, col: 13, offset: 93289},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 13, offset: 92773},
+																							pos:        position{line: 2924, col: 13, offset: 93289},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 20, offset: 92780},
+																							pos:        position{line: 2924, col: 20, offset: 93296},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 29, offset: 92789},
+																							pos:        position{line: 2924, col: 29, offset: 93305},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8279,9 +8279,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2922, col: 8, offset: 92949},
+																				pos: position{line: 2934, col: 8, offset: 93465},
 																				expr: &anyMatcher{
-																					line: 2922, col: 9, offset: 92950,
+																					line: 2934, col: 9, offset: 93466,
 																				},
 																			},
 																		},
@@ -8353,10 +8353,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 800, col: 8, offset: 25760},
 																												expr: &actionExpr{
-																													pos: position{line: 2903, col: 10, offset: 92601},
+																													pos: position{line: 2915, col: 10, offset: 93117},
 																													run: (*parser).callonDocumentFragment922,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2903, col: 10, offset: 92601},
+																														pos:        position{line: 2915, col: 10, offset: 93117},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8365,28 +8365,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2925, col: 8, offset: 92999},
+																												pos: position{line: 2937, col: 8, offset: 93515},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2912, col: 12, offset: 92772},
+																														pos: position{line: 2924, col: 12, offset: 93288},
 																														run: (*parser).callonDocumentFragment925,
 																														expr: &choiceExpr{
-																															pos: position{line: 2912, col: 13, offset: 92773},
+																															pos: position{line: 2924, col: 13, offset: 93289},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2912, col: 13, offset: 92773},
+																																	pos:        position{line: 2924, col: 13, offset: 93289},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2912, col: 20, offset: 92780},
+																																	pos:        position{line: 2924, col: 20, offset: 93296},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2912, col: 29, offset: 92789},
+																																	pos:        position{line: 2924, col: 29, offset: 93305},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8395,9 +8395,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2922, col: 8, offset: 92949},
+																														pos: position{line: 2934, col: 8, offset: 93465},
 																														expr: &anyMatcher{
-																															line: 2922, col: 9, offset: 92950,
+																															line: 2934, col: 9, offset: 93466,
 																														},
 																													},
 																												},
@@ -8413,9 +8413,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2922, col: 8, offset: 92949},
+																						pos: position{line: 2934, col: 8, offset: 93465},
 																						expr: &anyMatcher{
-																							line: 2922, col: 9, offset: 92950,
+																							line: 2934, col: 9, offset: 93466,
 																						},
 																					},
 																				},
@@ -8431,21 +8431,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2920, col: 11, offset: 92935},
+																							pos: position{line: 2932, col: 11, offset: 93451},
 																							expr: &anyMatcher{
-																								line: 2920, col: 13, offset: 92937,
+																								line: 2932, col: 13, offset: 93453,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2849, col: 13, offset: 91127},
+																								pos: position{line: 2861, col: 13, offset: 91643},
 																								run: (*parser).callonDocumentFragment941,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2849, col: 13, offset: 91127},
+																									pos: position{line: 2861, col: 13, offset: 91643},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2849, col: 13, offset: 91127},
+																										pos:        position{line: 2861, col: 13, offset: 91643},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8455,28 +8455,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2925, col: 8, offset: 92999},
+																							pos: position{line: 2937, col: 8, offset: 93515},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2912, col: 12, offset: 92772},
+																									pos: position{line: 2924, col: 12, offset: 93288},
 																									run: (*parser).callonDocumentFragment945,
 																									expr: &choiceExpr{
-																										pos: position{line: 2912, col: 13, offset: 92773},
+																										pos: position{line: 2924, col: 13, offset: 93289},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 13, offset: 92773},
+																												pos:        position{line: 2924, col: 13, offset: 93289},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 20, offset: 92780},
+																												pos:        position{line: 2924, col: 20, offset: 93296},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 29, offset: 92789},
+																												pos:        position{line: 2924, col: 29, offset: 93305},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8485,9 +8485,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2922, col: 8, offset: 92949},
+																									pos: position{line: 2934, col: 8, offset: 93465},
 																									expr: &anyMatcher{
-																										line: 2922, col: 9, offset: 92950,
+																										line: 2934, col: 9, offset: 93466,
 																									},
 																								},
 																							},
@@ -8552,10 +8552,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 800, col: 8, offset: 25760},
 																								expr: &actionExpr{
-																									pos: position{line: 2903, col: 10, offset: 92601},
+																									pos: position{line: 2915, col: 10, offset: 93117},
 																									run: (*parser).callonDocumentFragment966,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2903, col: 10, offset: 92601},
+																										pos:        position{line: 2915, col: 10, offset: 93117},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8564,28 +8564,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2925, col: 8, offset: 92999},
+																								pos: position{line: 2937, col: 8, offset: 93515},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2912, col: 12, offset: 92772},
+																										pos: position{line: 2924, col: 12, offset: 93288},
 																										run: (*parser).callonDocumentFragment969,
 																										expr: &choiceExpr{
-																											pos: position{line: 2912, col: 13, offset: 92773},
+																											pos: position{line: 2924, col: 13, offset: 93289},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2912, col: 13, offset: 92773},
+																													pos:        position{line: 2924, col: 13, offset: 93289},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2912, col: 20, offset: 92780},
+																													pos:        position{line: 2924, col: 20, offset: 93296},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2912, col: 29, offset: 92789},
+																													pos:        position{line: 2924, col: 29, offset: 93305},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8594,9 +8594,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2922, col: 8, offset: 92949},
+																										pos: position{line: 2934, col: 8, offset: 93465},
 																										expr: &anyMatcher{
-																											line: 2922, col: 9, offset: 92950,
+																											line: 2934, col: 9, offset: 93466,
 																										},
 																									},
 																								},
@@ -8612,9 +8612,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2922, col: 8, offset: 92949},
+																		pos: position{line: 2934, col: 8, offset: 93465},
 																		expr: &anyMatcher{
-																			line: 2922, col: 9, offset: 92950,
+																			line: 2934, col: 9, offset: 93466,
 																		},
 																	},
 																},
@@ -8670,10 +8670,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 807, col: 8, offset: 26006},
 																		expr: &actionExpr{
-																			pos: position{line: 2903, col: 10, offset: 92601},
+																			pos: position{line: 2915, col: 10, offset: 93117},
 																			run: (*parser).callonDocumentFragment991,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2903, col: 10, offset: 92601},
+																				pos:        position{line: 2915, col: 10, offset: 93117},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8682,28 +8682,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2925, col: 8, offset: 92999},
+																		pos: position{line: 2937, col: 8, offset: 93515},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2912, col: 12, offset: 92772},
+																				pos: position{line: 2924, col: 12, offset: 93288},
 																				run: (*parser).callonDocumentFragment994,
 																				expr: &choiceExpr{
-																					pos: position{line: 2912, col: 13, offset: 92773},
+																					pos: position{line: 2924, col: 13, offset: 93289},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 13, offset: 92773},
+																							pos:        position{line: 2924, col: 13, offset: 93289},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 20, offset: 92780},
+																							pos:        position{line: 2924, col: 20, offset: 93296},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 29, offset: 92789},
+																							pos:        position{line: 2924, col: 29, offset: 93305},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8712,9 +8712,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2922, col: 8, offset: 92949},
+																				pos: position{line: 2934, col: 8, offset: 93465},
 																				expr: &anyMatcher{
-																					line: 2922, col: 9, offset: 92950,
+																					line: 2934, col: 9, offset: 93466,
 																				},
 																			},
 																		},
@@ -8786,10 +8786,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 807, col: 8, offset: 26006},
 																												expr: &actionExpr{
-																													pos: position{line: 2903, col: 10, offset: 92601},
+																													pos: position{line: 2915, col: 10, offset: 93117},
 																													run: (*parser).callonDocumentFragment1019,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2903, col: 10, offset: 92601},
+																														pos:        position{line: 2915, col: 10, offset: 93117},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8798,28 +8798,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2925, col: 8, offset: 92999},
+																												pos: position{line: 2937, col: 8, offset: 93515},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2912, col: 12, offset: 92772},
+																														pos: position{line: 2924, col: 12, offset: 93288},
 																														run: (*parser).callonDocumentFragment1022,
 																														expr: &choiceExpr{
-																															pos: position{line: 2912, col: 13, offset: 92773},
+																															pos: position{line: 2924, col: 13, offset: 93289},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2912, col: 13, offset: 92773},
+																																	pos:        position{line: 2924, col: 13, offset: 93289},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2912, col: 20, offset: 92780},
+																																	pos:        position{line: 2924, col: 20, offset: 93296},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2912, col: 29, offset: 92789},
+																																	pos:        position{line: 2924, col: 29, offset: 93305},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8828,9 +8828,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2922, col: 8, offset: 92949},
+																														pos: position{line: 2934, col: 8, offset: 93465},
 																														expr: &anyMatcher{
-																															line: 2922, col: 9, offset: 92950,
+																															line: 2934, col: 9, offset: 93466,
 																														},
 																													},
 																												},
@@ -8846,9 +8846,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2922, col: 8, offset: 92949},
+																						pos: position{line: 2934, col: 8, offset: 93465},
 																						expr: &anyMatcher{
-																							line: 2922, col: 9, offset: 92950,
+																							line: 2934, col: 9, offset: 93466,
 																						},
 																					},
 																				},
@@ -8864,21 +8864,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2920, col: 11, offset: 92935},
+																							pos: position{line: 2932, col: 11, offset: 93451},
 																							expr: &anyMatcher{
-																								line: 2920, col: 13, offset: 92937,
+																								line: 2932, col: 13, offset: 93453,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2849, col: 13, offset: 91127},
+																								pos: position{line: 2861, col: 13, offset: 91643},
 																								run: (*parser).callonDocumentFragment1038,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2849, col: 13, offset: 91127},
+																									pos: position{line: 2861, col: 13, offset: 91643},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2849, col: 13, offset: 91127},
+																										pos:        position{line: 2861, col: 13, offset: 91643},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8888,28 +8888,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2925, col: 8, offset: 92999},
+																							pos: position{line: 2937, col: 8, offset: 93515},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2912, col: 12, offset: 92772},
+																									pos: position{line: 2924, col: 12, offset: 93288},
 																									run: (*parser).callonDocumentFragment1042,
 																									expr: &choiceExpr{
-																										pos: position{line: 2912, col: 13, offset: 92773},
+																										pos: position{line: 2924, col: 13, offset: 93289},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 13, offset: 92773},
+																												pos:        position{line: 2924, col: 13, offset: 93289},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 20, offset: 92780},
+																												pos:        position{line: 2924, col: 20, offset: 93296},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 29, offset: 92789},
+																												pos:        position{line: 2924, col: 29, offset: 93305},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8918,9 +8918,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2922, col: 8, offset: 92949},
+																									pos: position{line: 2934, col: 8, offset: 93465},
 																									expr: &anyMatcher{
-																										line: 2922, col: 9, offset: 92950,
+																										line: 2934, col: 9, offset: 93466,
 																									},
 																								},
 																							},
@@ -8985,10 +8985,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 807, col: 8, offset: 26006},
 																								expr: &actionExpr{
-																									pos: position{line: 2903, col: 10, offset: 92601},
+																									pos: position{line: 2915, col: 10, offset: 93117},
 																									run: (*parser).callonDocumentFragment1063,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2903, col: 10, offset: 92601},
+																										pos:        position{line: 2915, col: 10, offset: 93117},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8997,28 +8997,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2925, col: 8, offset: 92999},
+																								pos: position{line: 2937, col: 8, offset: 93515},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2912, col: 12, offset: 92772},
+																										pos: position{line: 2924, col: 12, offset: 93288},
 																										run: (*parser).callonDocumentFragment1066,
 																										expr: &choiceExpr{
-																											pos: position{line: 2912, col: 13, offset: 92773},
+																											pos: position{line: 2924, col: 13, offset: 93289},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2912, col: 13, offset: 92773},
+																													pos:        position{line: 2924, col: 13, offset: 93289},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2912, col: 20, offset: 92780},
+																													pos:        position{line: 2924, col: 20, offset: 93296},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2912, col: 29, offset: 92789},
+																													pos:        position{line: 2924, col: 29, offset: 93305},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -9027,9 +9027,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2922, col: 8, offset: 92949},
+																										pos: position{line: 2934, col: 8, offset: 93465},
 																										expr: &anyMatcher{
-																											line: 2922, col: 9, offset: 92950,
+																											line: 2934, col: 9, offset: 93466,
 																										},
 																									},
 																								},
@@ -9045,9 +9045,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2922, col: 8, offset: 92949},
+																		pos: position{line: 2934, col: 8, offset: 93465},
 																		expr: &anyMatcher{
-																			line: 2922, col: 9, offset: 92950,
+																			line: 2934, col: 9, offset: 93466,
 																		},
 																	},
 																},
@@ -9058,52 +9058,52 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2741, col: 18, offset: 87982},
+											pos: position{line: 2753, col: 18, offset: 88498},
 											run: (*parser).callonDocumentFragment1076,
 											expr: &seqExpr{
-												pos: position{line: 2741, col: 18, offset: 87982},
+												pos: position{line: 2753, col: 18, offset: 88498},
 												exprs: []interface{}{
 													&choiceExpr{
-														pos: position{line: 2742, col: 9, offset: 87992},
+														pos: position{line: 2754, col: 9, offset: 88508},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2742, col: 9, offset: 87992},
+																pos:        position{line: 2754, col: 9, offset: 88508},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2743, col: 11, offset: 88028},
+																pos:        position{line: 2755, col: 11, offset: 88544},
 																val:        "***",
 																ignoreCase: false,
 																want:       "\"***\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2743, col: 19, offset: 88036},
+																pos:        position{line: 2755, col: 19, offset: 88552},
 																val:        "* * *",
 																ignoreCase: false,
 																want:       "\"* * *\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2743, col: 29, offset: 88046},
+																pos:        position{line: 2755, col: 29, offset: 88562},
 																val:        "---",
 																ignoreCase: false,
 																want:       "\"---\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2743, col: 37, offset: 88054},
+																pos:        position{line: 2755, col: 37, offset: 88570},
 																val:        "- - -",
 																ignoreCase: false,
 																want:       "\"- - -\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2743, col: 47, offset: 88064},
+																pos:        position{line: 2755, col: 47, offset: 88580},
 																val:        "___",
 																ignoreCase: false,
 																want:       "\"___\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2743, col: 55, offset: 88072},
+																pos:        position{line: 2755, col: 55, offset: 88588},
 																val:        "_ _ _",
 																ignoreCase: false,
 																want:       "\"_ _ _\"",
@@ -9111,12 +9111,12 @@ var g = &grammar{
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2744, col: 11, offset: 88118},
+														pos: position{line: 2756, col: 11, offset: 88634},
 														expr: &actionExpr{
-															pos: position{line: 2903, col: 10, offset: 92601},
+															pos: position{line: 2915, col: 10, offset: 93117},
 															run: (*parser).callonDocumentFragment1087,
 															expr: &charClassMatcher{
-																pos:        position{line: 2903, col: 10, offset: 92601},
+																pos:        position{line: 2915, col: 10, offset: 93117},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9125,28 +9125,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2925, col: 8, offset: 92999},
+														pos: position{line: 2937, col: 8, offset: 93515},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2912, col: 12, offset: 92772},
+																pos: position{line: 2924, col: 12, offset: 93288},
 																run: (*parser).callonDocumentFragment1090,
 																expr: &choiceExpr{
-																	pos: position{line: 2912, col: 13, offset: 92773},
+																	pos: position{line: 2924, col: 13, offset: 93289},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2912, col: 13, offset: 92773},
+																			pos:        position{line: 2924, col: 13, offset: 93289},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2912, col: 20, offset: 92780},
+																			pos:        position{line: 2924, col: 20, offset: 93296},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2912, col: 29, offset: 92789},
+																			pos:        position{line: 2924, col: 29, offset: 93305},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9155,20 +9155,20 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2922, col: 8, offset: 92949},
+																pos: position{line: 2934, col: 8, offset: 93465},
 																expr: &anyMatcher{
-																	line: 2922, col: 9, offset: 92950,
+																	line: 2934, col: 9, offset: 93466,
 																},
 															},
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2744, col: 22, offset: 88129},
+														pos: position{line: 2756, col: 22, offset: 88645},
 														expr: &actionExpr{
-															pos: position{line: 2903, col: 10, offset: 92601},
+															pos: position{line: 2915, col: 10, offset: 93117},
 															run: (*parser).callonDocumentFragment1098,
 															expr: &charClassMatcher{
-																pos:        position{line: 2903, col: 10, offset: 92601},
+																pos:        position{line: 2915, col: 10, offset: 93117},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9177,28 +9177,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2925, col: 8, offset: 92999},
+														pos: position{line: 2937, col: 8, offset: 93515},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2912, col: 12, offset: 92772},
+																pos: position{line: 2924, col: 12, offset: 93288},
 																run: (*parser).callonDocumentFragment1101,
 																expr: &choiceExpr{
-																	pos: position{line: 2912, col: 13, offset: 92773},
+																	pos: position{line: 2924, col: 13, offset: 93289},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2912, col: 13, offset: 92773},
+																			pos:        position{line: 2924, col: 13, offset: 93289},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2912, col: 20, offset: 92780},
+																			pos:        position{line: 2924, col: 20, offset: 93296},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2912, col: 29, offset: 92789},
+																			pos:        position{line: 2924, col: 29, offset: 93305},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9207,9 +9207,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2922, col: 8, offset: 92949},
+																pos: position{line: 2934, col: 8, offset: 93465},
 																expr: &anyMatcher{
-																	line: 2922, col: 9, offset: 92950,
+																	line: 2934, col: 9, offset: 93466,
 																},
 															},
 														},
@@ -9222,24 +9222,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2632, col: 5, offset: 84918},
+											pos: position{line: 2644, col: 5, offset: 85434},
 											run: (*parser).callonDocumentFragment1109,
 											expr: &seqExpr{
-												pos: position{line: 2632, col: 5, offset: 84918},
+												pos: position{line: 2644, col: 5, offset: 85434},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2638, col: 19, offset: 85075},
+														pos:        position{line: 2650, col: 19, offset: 85591},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2638, col: 26, offset: 85082},
+														pos: position{line: 2650, col: 26, offset: 85598},
 														expr: &actionExpr{
-															pos: position{line: 2903, col: 10, offset: 92601},
+															pos: position{line: 2915, col: 10, offset: 93117},
 															run: (*parser).callonDocumentFragment1113,
 															expr: &charClassMatcher{
-																pos:        position{line: 2903, col: 10, offset: 92601},
+																pos:        position{line: 2915, col: 10, offset: 93117},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9248,28 +9248,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2925, col: 8, offset: 92999},
+														pos: position{line: 2937, col: 8, offset: 93515},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2912, col: 12, offset: 92772},
+																pos: position{line: 2924, col: 12, offset: 93288},
 																run: (*parser).callonDocumentFragment1116,
 																expr: &choiceExpr{
-																	pos: position{line: 2912, col: 13, offset: 92773},
+																	pos: position{line: 2924, col: 13, offset: 93289},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2912, col: 13, offset: 92773},
+																			pos:        position{line: 2924, col: 13, offset: 93289},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2912, col: 20, offset: 92780},
+																			pos:        position{line: 2924, col: 20, offset: 93296},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2912, col: 29, offset: 92789},
+																			pos:        position{line: 2924, col: 29, offset: 93305},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9278,20 +9278,20 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2922, col: 8, offset: 92949},
+																pos: position{line: 2934, col: 8, offset: 93465},
 																expr: &anyMatcher{
-																	line: 2922, col: 9, offset: 92950,
+																	line: 2934, col: 9, offset: 93466,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2633, col: 5, offset: 84942},
+														pos:   position{line: 2645, col: 5, offset: 85458},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2633, col: 11, offset: 84948},
+															pos: position{line: 2645, col: 11, offset: 85464},
 															expr: &choiceExpr{
-																pos: position{line: 2633, col: 12, offset: 84949},
+																pos: position{line: 2645, col: 12, offset: 85465},
 																alternatives: []interface{}{
 																	&actionExpr{
 																		pos: position{line: 677, col: 14, offset: 21525},
@@ -9300,18 +9300,18 @@ var g = &grammar{
 																			pos: position{line: 677, col: 14, offset: 21525},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2920, col: 11, offset: 92935},
+																					pos: position{line: 2932, col: 11, offset: 93451},
 																					expr: &anyMatcher{
-																						line: 2920, col: 13, offset: 92937,
+																						line: 2932, col: 13, offset: 93453,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21532},
 																					expr: &actionExpr{
-																						pos: position{line: 2903, col: 10, offset: 92601},
+																						pos: position{line: 2915, col: 10, offset: 93117},
 																						run: (*parser).callonDocumentFragment1131,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2903, col: 10, offset: 92601},
+																							pos:        position{line: 2915, col: 10, offset: 93117},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9320,28 +9320,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2925, col: 8, offset: 92999},
+																					pos: position{line: 2937, col: 8, offset: 93515},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2912, col: 12, offset: 92772},
+																							pos: position{line: 2924, col: 12, offset: 93288},
 																							run: (*parser).callonDocumentFragment1134,
 																							expr: &choiceExpr{
-																								pos: position{line: 2912, col: 13, offset: 92773},
+																								pos: position{line: 2924, col: 13, offset: 93289},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2912, col: 13, offset: 92773},
+																										pos:        position{line: 2924, col: 13, offset: 93289},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2912, col: 20, offset: 92780},
+																										pos:        position{line: 2924, col: 20, offset: 93296},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2912, col: 29, offset: 92789},
+																										pos:        position{line: 2924, col: 29, offset: 93305},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9350,9 +9350,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2922, col: 8, offset: 92949},
+																							pos: position{line: 2934, col: 8, offset: 93465},
 																							expr: &anyMatcher{
-																								line: 2922, col: 9, offset: 92950,
+																								line: 2934, col: 9, offset: 93466,
 																							},
 																						},
 																					},
@@ -9361,32 +9361,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2645, col: 5, offset: 85194},
+																		pos: position{line: 2657, col: 5, offset: 85710},
 																		run: (*parser).callonDocumentFragment1141,
 																		expr: &seqExpr{
-																			pos: position{line: 2645, col: 5, offset: 85194},
+																			pos: position{line: 2657, col: 5, offset: 85710},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2645, col: 5, offset: 85194},
+																					pos: position{line: 2657, col: 5, offset: 85710},
 																					expr: &choiceExpr{
-																						pos: position{line: 2642, col: 22, offset: 85155},
+																						pos: position{line: 2654, col: 22, offset: 85671},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2638, col: 19, offset: 85075},
+																								pos: position{line: 2650, col: 19, offset: 85591},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2638, col: 19, offset: 85075},
+																										pos:        position{line: 2650, col: 19, offset: 85591},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2638, col: 26, offset: 85082},
+																										pos: position{line: 2650, col: 26, offset: 85598},
 																										expr: &actionExpr{
-																											pos: position{line: 2903, col: 10, offset: 92601},
+																											pos: position{line: 2915, col: 10, offset: 93117},
 																											run: (*parser).callonDocumentFragment1148,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2903, col: 10, offset: 92601},
+																												pos:        position{line: 2915, col: 10, offset: 93117},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9395,28 +9395,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2925, col: 8, offset: 92999},
+																										pos: position{line: 2937, col: 8, offset: 93515},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2912, col: 12, offset: 92772},
+																												pos: position{line: 2924, col: 12, offset: 93288},
 																												run: (*parser).callonDocumentFragment1151,
 																												expr: &choiceExpr{
-																													pos: position{line: 2912, col: 13, offset: 92773},
+																													pos: position{line: 2924, col: 13, offset: 93289},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2912, col: 13, offset: 92773},
+																															pos:        position{line: 2924, col: 13, offset: 93289},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2912, col: 20, offset: 92780},
+																															pos:        position{line: 2924, col: 20, offset: 93296},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2912, col: 29, offset: 92789},
+																															pos:        position{line: 2924, col: 29, offset: 93305},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9425,9 +9425,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2922, col: 8, offset: 92949},
+																												pos: position{line: 2934, col: 8, offset: 93465},
 																												expr: &anyMatcher{
-																													line: 2922, col: 9, offset: 92950,
+																													line: 2934, col: 9, offset: 93466,
 																												},
 																											},
 																										},
@@ -9435,59 +9435,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2922, col: 8, offset: 92949},
+																								pos: position{line: 2934, col: 8, offset: 93465},
 																								expr: &anyMatcher{
-																									line: 2922, col: 9, offset: 92950,
+																									line: 2934, col: 9, offset: 93466,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2646, col: 5, offset: 85217},
+																					pos:   position{line: 2658, col: 5, offset: 85733},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2647, col: 9, offset: 85235},
+																						pos: position{line: 2659, col: 9, offset: 85751},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2647, col: 10, offset: 85236},
+																								pos: position{line: 2659, col: 10, offset: 85752},
 																								run: (*parser).callonDocumentFragment1162,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2647, col: 10, offset: 85236},
+																									pos:   position{line: 2659, col: 10, offset: 85752},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2647, col: 17, offset: 85243},
+																										pos: position{line: 2659, col: 17, offset: 85759},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2655, col: 21, offset: 85439},
+																												pos: position{line: 2667, col: 21, offset: 85955},
 																												run: (*parser).callonDocumentFragment1165,
 																												expr: &seqExpr{
-																													pos: position{line: 2655, col: 21, offset: 85439},
+																													pos: position{line: 2667, col: 21, offset: 85955},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2655, col: 21, offset: 85439},
+																															pos:   position{line: 2667, col: 21, offset: 85955},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2655, col: 27, offset: 85445},
+																																pos: position{line: 2667, col: 27, offset: 85961},
 																																expr: &actionExpr{
-																																	pos: position{line: 2660, col: 5, offset: 85520},
+																																	pos: position{line: 2672, col: 5, offset: 86036},
 																																	run: (*parser).callonDocumentFragment1169,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2660, col: 5, offset: 85520},
+																																		pos: position{line: 2672, col: 5, offset: 86036},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2660, col: 5, offset: 85520},
+																																				pos:        position{line: 2672, col: 5, offset: 86036},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2660, col: 9, offset: 85524},
+																																				pos: position{line: 2672, col: 9, offset: 86040},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2903, col: 10, offset: 92601},
+																																					pos: position{line: 2915, col: 10, offset: 93117},
 																																					run: (*parser).callonDocumentFragment1173,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2903, col: 10, offset: 92601},
+																																						pos:        position{line: 2915, col: 10, offset: 93117},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9496,21 +9496,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2660, col: 16, offset: 85531},
+																																				pos:   position{line: 2672, col: 16, offset: 86047},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2666, col: 5, offset: 85731},
+																																					pos: position{line: 2678, col: 5, offset: 86247},
 																																					run: (*parser).callonDocumentFragment1176,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2666, col: 5, offset: 85731},
+																																						pos:   position{line: 2678, col: 5, offset: 86247},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2666, col: 14, offset: 85740},
+																																							pos: position{line: 2678, col: 14, offset: 86256},
 																																							run: (*parser).callonDocumentFragment1178,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2666, col: 14, offset: 85740},
+																																								pos: position{line: 2678, col: 14, offset: 86256},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2666, col: 14, offset: 85740},
+																																									pos:        position{line: 2678, col: 14, offset: 86256},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9527,28 +9527,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2925, col: 8, offset: 92999},
+																															pos: position{line: 2937, col: 8, offset: 93515},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2912, col: 12, offset: 92772},
+																																	pos: position{line: 2924, col: 12, offset: 93288},
 																																	run: (*parser).callonDocumentFragment1182,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2912, col: 13, offset: 92773},
+																																		pos: position{line: 2924, col: 13, offset: 93289},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2912, col: 13, offset: 92773},
+																																				pos:        position{line: 2924, col: 13, offset: 93289},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2912, col: 20, offset: 92780},
+																																				pos:        position{line: 2924, col: 20, offset: 93296},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2912, col: 29, offset: 92789},
+																																				pos:        position{line: 2924, col: 29, offset: 93305},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9557,9 +9557,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2922, col: 8, offset: 92949},
+																																	pos: position{line: 2934, col: 8, offset: 93465},
 																																	expr: &anyMatcher{
-																																		line: 2922, col: 9, offset: 92950,
+																																		line: 2934, col: 9, offset: 93466,
 																																	},
 																																},
 																															},
@@ -9568,40 +9568,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2672, col: 24, offset: 85876},
+																												pos: position{line: 2684, col: 24, offset: 86392},
 																												run: (*parser).callonDocumentFragment1189,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2672, col: 24, offset: 85876},
+																													pos:   position{line: 2684, col: 24, offset: 86392},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2672, col: 30, offset: 85882},
+																														pos: position{line: 2684, col: 30, offset: 86398},
 																														expr: &actionExpr{
-																															pos: position{line: 2677, col: 5, offset: 85958},
+																															pos: position{line: 2689, col: 5, offset: 86474},
 																															run: (*parser).callonDocumentFragment1192,
 																															expr: &seqExpr{
-																																pos: position{line: 2677, col: 5, offset: 85958},
+																																pos: position{line: 2689, col: 5, offset: 86474},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2677, col: 5, offset: 85958},
+																																		pos: position{line: 2689, col: 5, offset: 86474},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2642, col: 22, offset: 85155},
+																																			pos: position{line: 2654, col: 22, offset: 85671},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2638, col: 19, offset: 85075},
+																																					pos: position{line: 2650, col: 19, offset: 85591},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2638, col: 19, offset: 85075},
+																																							pos:        position{line: 2650, col: 19, offset: 85591},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2638, col: 26, offset: 85082},
+																																							pos: position{line: 2650, col: 26, offset: 85598},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2903, col: 10, offset: 92601},
+																																								pos: position{line: 2915, col: 10, offset: 93117},
 																																								run: (*parser).callonDocumentFragment1199,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2903, col: 10, offset: 92601},
+																																									pos:        position{line: 2915, col: 10, offset: 93117},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9610,28 +9610,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2925, col: 8, offset: 92999},
+																																							pos: position{line: 2937, col: 8, offset: 93515},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2912, col: 12, offset: 92772},
+																																									pos: position{line: 2924, col: 12, offset: 93288},
 																																									run: (*parser).callonDocumentFragment1202,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2912, col: 13, offset: 92773},
+																																										pos: position{line: 2924, col: 13, offset: 93289},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2912, col: 13, offset: 92773},
+																																												pos:        position{line: 2924, col: 13, offset: 93289},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2912, col: 20, offset: 92780},
+																																												pos:        position{line: 2924, col: 20, offset: 93296},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2912, col: 29, offset: 92789},
+																																												pos:        position{line: 2924, col: 29, offset: 93305},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9640,9 +9640,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2922, col: 8, offset: 92949},
+																																									pos: position{line: 2934, col: 8, offset: 93465},
 																																									expr: &anyMatcher{
-																																										line: 2922, col: 9, offset: 92950,
+																																										line: 2934, col: 9, offset: 93466,
 																																									},
 																																								},
 																																							},
@@ -9650,16 +9650,16 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2922, col: 8, offset: 92949},
+																																					pos: position{line: 2934, col: 8, offset: 93465},
 																																					expr: &anyMatcher{
-																																						line: 2922, col: 9, offset: 92950,
+																																						line: 2934, col: 9, offset: 93466,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2678, col: 5, offset: 85981},
+																																		pos: position{line: 2690, col: 5, offset: 86497},
 																																		expr: &actionExpr{
 																																			pos: position{line: 677, col: 14, offset: 21525},
 																																			run: (*parser).callonDocumentFragment1212,
@@ -9667,18 +9667,18 @@ var g = &grammar{
 																																				pos: position{line: 677, col: 14, offset: 21525},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2920, col: 11, offset: 92935},
+																																						pos: position{line: 2932, col: 11, offset: 93451},
 																																						expr: &anyMatcher{
-																																							line: 2920, col: 13, offset: 92937,
+																																							line: 2932, col: 13, offset: 93453,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
 																																						pos: position{line: 677, col: 21, offset: 21532},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2903, col: 10, offset: 92601},
+																																							pos: position{line: 2915, col: 10, offset: 93117},
 																																							run: (*parser).callonDocumentFragment1217,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2903, col: 10, offset: 92601},
+																																								pos:        position{line: 2915, col: 10, offset: 93117},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9687,28 +9687,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2925, col: 8, offset: 92999},
+																																						pos: position{line: 2937, col: 8, offset: 93515},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2912, col: 12, offset: 92772},
+																																								pos: position{line: 2924, col: 12, offset: 93288},
 																																								run: (*parser).callonDocumentFragment1220,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2912, col: 13, offset: 92773},
+																																									pos: position{line: 2924, col: 13, offset: 93289},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2912, col: 13, offset: 92773},
+																																											pos:        position{line: 2924, col: 13, offset: 93289},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2912, col: 20, offset: 92780},
+																																											pos:        position{line: 2924, col: 20, offset: 93296},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2912, col: 29, offset: 92789},
+																																											pos:        position{line: 2924, col: 29, offset: 93305},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9717,9 +9717,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2922, col: 8, offset: 92949},
+																																								pos: position{line: 2934, col: 8, offset: 93465},
 																																								expr: &anyMatcher{
-																																									line: 2922, col: 9, offset: 92950,
+																																									line: 2934, col: 9, offset: 93466,
 																																								},
 																																							},
 																																						},
@@ -9729,17 +9729,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2679, col: 5, offset: 85996},
+																																		pos:   position{line: 2691, col: 5, offset: 86512},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2679, col: 12, offset: 86003},
+																																			pos: position{line: 2691, col: 12, offset: 86519},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2696, col: 20, offset: 86467},
+																																				pos: position{line: 2708, col: 20, offset: 86983},
 																																				run: (*parser).callonDocumentFragment1229,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2696, col: 20, offset: 86467},
+																																					pos: position{line: 2708, col: 20, offset: 86983},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2696, col: 20, offset: 86467},
+																																						pos:        position{line: 2708, col: 20, offset: 86983},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9750,18 +9750,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2679, col: 31, offset: 86022},
+																																		pos:        position{line: 2691, col: 31, offset: 86538},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2679, col: 35, offset: 86026},
+																																		pos: position{line: 2691, col: 35, offset: 86542},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2903, col: 10, offset: 92601},
+																																			pos: position{line: 2915, col: 10, offset: 93117},
 																																			run: (*parser).callonDocumentFragment1234,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2903, col: 10, offset: 92601},
+																																				pos:        position{line: 2915, col: 10, offset: 93117},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9770,27 +9770,27 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2679, col: 42, offset: 86033},
+																																		pos: position{line: 2691, col: 42, offset: 86549},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2912, col: 12, offset: 92772},
+																																			pos: position{line: 2924, col: 12, offset: 93288},
 																																			run: (*parser).callonDocumentFragment1237,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2912, col: 13, offset: 92773},
+																																				pos: position{line: 2924, col: 13, offset: 93289},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2912, col: 13, offset: 92773},
+																																						pos:        position{line: 2924, col: 13, offset: 93289},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2912, col: 20, offset: 92780},
+																																						pos:        position{line: 2924, col: 20, offset: 93296},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2912, col: 29, offset: 92789},
+																																						pos:        position{line: 2924, col: 29, offset: 93305},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9800,37 +9800,37 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2679, col: 51, offset: 86042},
+																																		pos:   position{line: 2691, col: 51, offset: 86558},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2685, col: 5, offset: 86201},
+																																			pos: position{line: 2697, col: 5, offset: 86717},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2686, col: 9, offset: 86211},
+																																				pos: position{line: 2698, col: 9, offset: 86727},
 																																				run: (*parser).callonDocumentFragment1244,
 																																				expr: &seqExpr{
-																																					pos: position{line: 2686, col: 9, offset: 86211},
+																																					pos: position{line: 2698, col: 9, offset: 86727},
 																																					exprs: []interface{}{
 																																						&notExpr{
-																																							pos: position{line: 2686, col: 9, offset: 86211},
+																																							pos: position{line: 2698, col: 9, offset: 86727},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2642, col: 22, offset: 85155},
+																																								pos: position{line: 2654, col: 22, offset: 85671},
 																																								alternatives: []interface{}{
 																																									&seqExpr{
-																																										pos: position{line: 2638, col: 19, offset: 85075},
+																																										pos: position{line: 2650, col: 19, offset: 85591},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2638, col: 19, offset: 85075},
+																																												pos:        position{line: 2650, col: 19, offset: 85591},
 																																												val:        "|===",
 																																												ignoreCase: false,
 																																												want:       "\"|===\"",
 																																											},
 																																											&zeroOrMoreExpr{
-																																												pos: position{line: 2638, col: 26, offset: 85082},
+																																												pos: position{line: 2650, col: 26, offset: 85598},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2903, col: 10, offset: 92601},
+																																													pos: position{line: 2915, col: 10, offset: 93117},
 																																													run: (*parser).callonDocumentFragment1251,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2903, col: 10, offset: 92601},
+																																														pos:        position{line: 2915, col: 10, offset: 93117},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -9839,28 +9839,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2925, col: 8, offset: 92999},
+																																												pos: position{line: 2937, col: 8, offset: 93515},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2912, col: 12, offset: 92772},
+																																														pos: position{line: 2924, col: 12, offset: 93288},
 																																														run: (*parser).callonDocumentFragment1254,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2912, col: 13, offset: 92773},
+																																															pos: position{line: 2924, col: 13, offset: 93289},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2912, col: 13, offset: 92773},
+																																																	pos:        position{line: 2924, col: 13, offset: 93289},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2912, col: 20, offset: 92780},
+																																																	pos:        position{line: 2924, col: 20, offset: 93296},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2912, col: 29, offset: 92789},
+																																																	pos:        position{line: 2924, col: 29, offset: 93305},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -9869,9 +9869,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2922, col: 8, offset: 92949},
+																																														pos: position{line: 2934, col: 8, offset: 93465},
 																																														expr: &anyMatcher{
-																																															line: 2922, col: 9, offset: 92950,
+																																															line: 2934, col: 9, offset: 93466,
 																																														},
 																																													},
 																																												},
@@ -9879,16 +9879,16 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2922, col: 8, offset: 92949},
+																																										pos: position{line: 2934, col: 8, offset: 93465},
 																																										expr: &anyMatcher{
-																																											line: 2922, col: 9, offset: 92950,
+																																											line: 2934, col: 9, offset: 93466,
 																																										},
 																																									},
 																																								},
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2687, col: 9, offset: 86238},
+																																							pos: position{line: 2699, col: 9, offset: 86754},
 																																							expr: &actionExpr{
 																																								pos: position{line: 677, col: 14, offset: 21525},
 																																								run: (*parser).callonDocumentFragment1264,
@@ -9896,18 +9896,18 @@ var g = &grammar{
 																																									pos: position{line: 677, col: 14, offset: 21525},
 																																									exprs: []interface{}{
 																																										&andExpr{
-																																											pos: position{line: 2920, col: 11, offset: 92935},
+																																											pos: position{line: 2932, col: 11, offset: 93451},
 																																											expr: &anyMatcher{
-																																												line: 2920, col: 13, offset: 92937,
+																																												line: 2932, col: 13, offset: 93453,
 																																											},
 																																										},
 																																										&zeroOrMoreExpr{
 																																											pos: position{line: 677, col: 21, offset: 21532},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2903, col: 10, offset: 92601},
+																																												pos: position{line: 2915, col: 10, offset: 93117},
 																																												run: (*parser).callonDocumentFragment1269,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2903, col: 10, offset: 92601},
+																																													pos:        position{line: 2915, col: 10, offset: 93117},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -9916,28 +9916,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2925, col: 8, offset: 92999},
+																																											pos: position{line: 2937, col: 8, offset: 93515},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2912, col: 12, offset: 92772},
+																																													pos: position{line: 2924, col: 12, offset: 93288},
 																																													run: (*parser).callonDocumentFragment1272,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2912, col: 13, offset: 92773},
+																																														pos: position{line: 2924, col: 13, offset: 93289},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2912, col: 13, offset: 92773},
+																																																pos:        position{line: 2924, col: 13, offset: 93289},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2912, col: 20, offset: 92780},
+																																																pos:        position{line: 2924, col: 20, offset: 93296},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2912, col: 29, offset: 92789},
+																																																pos:        position{line: 2924, col: 29, offset: 93305},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -9946,9 +9946,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2922, col: 8, offset: 92949},
+																																													pos: position{line: 2934, col: 8, offset: 93465},
 																																													expr: &anyMatcher{
-																																														line: 2922, col: 9, offset: 92950,
+																																														line: 2934, col: 9, offset: 93466,
 																																													},
 																																												},
 																																											},
@@ -9958,22 +9958,22 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2688, col: 9, offset: 86257},
+																																							pos: position{line: 2700, col: 9, offset: 86773},
 																																							expr: &seqExpr{
-																																								pos: position{line: 2688, col: 11, offset: 86259},
+																																								pos: position{line: 2700, col: 11, offset: 86775},
 																																								exprs: []interface{}{
 																																									&labeledExpr{
-																																										pos:   position{line: 2688, col: 11, offset: 86259},
+																																										pos:   position{line: 2700, col: 11, offset: 86775},
 																																										label: "format",
 																																										expr: &zeroOrOneExpr{
-																																											pos: position{line: 2688, col: 18, offset: 86266},
+																																											pos: position{line: 2700, col: 18, offset: 86782},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2696, col: 20, offset: 86467},
+																																												pos: position{line: 2708, col: 20, offset: 86983},
 																																												run: (*parser).callonDocumentFragment1283,
 																																												expr: &zeroOrMoreExpr{
-																																													pos: position{line: 2696, col: 20, offset: 86467},
+																																													pos: position{line: 2708, col: 20, offset: 86983},
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2696, col: 20, offset: 86467},
+																																														pos:        position{line: 2708, col: 20, offset: 86983},
 																																														val:        "[^ |\\r\\n]",
 																																														chars:      []rune{' ', '|', '\r', '\n'},
 																																														ignoreCase: false,
@@ -9984,7 +9984,7 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2688, col: 37, offset: 86285},
+																																										pos:        position{line: 2700, col: 37, offset: 86801},
 																																										val:        "|",
 																																										ignoreCase: false,
 																																										want:       "\"|\"",
@@ -9993,15 +9993,15 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&labeledExpr{
-																																							pos:   position{line: 2689, col: 9, offset: 86298},
+																																							pos:   position{line: 2701, col: 9, offset: 86814},
 																																							label: "content",
 																																							expr: &actionExpr{
-																																								pos: position{line: 2689, col: 18, offset: 86307},
+																																								pos: position{line: 2701, col: 18, offset: 86823},
 																																								run: (*parser).callonDocumentFragment1288,
 																																								expr: &zeroOrMoreExpr{
-																																									pos: position{line: 2689, col: 18, offset: 86307},
+																																									pos: position{line: 2701, col: 18, offset: 86823},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2689, col: 18, offset: 86307},
+																																										pos:        position{line: 2701, col: 18, offset: 86823},
 																																										val:        "[^|\\r\\n]",
 																																										chars:      []rune{'|', '\r', '\n'},
 																																										ignoreCase: false,
@@ -10011,30 +10011,30 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&zeroOrOneExpr{
-																																							pos: position{line: 2691, col: 12, offset: 86369},
+																																							pos: position{line: 2703, col: 12, offset: 86885},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2925, col: 8, offset: 92999},
+																																								pos: position{line: 2937, col: 8, offset: 93515},
 																																								alternatives: []interface{}{
 																																									&actionExpr{
-																																										pos: position{line: 2912, col: 12, offset: 92772},
+																																										pos: position{line: 2924, col: 12, offset: 93288},
 																																										run: (*parser).callonDocumentFragment1293,
 																																										expr: &choiceExpr{
-																																											pos: position{line: 2912, col: 13, offset: 92773},
+																																											pos: position{line: 2924, col: 13, offset: 93289},
 																																											alternatives: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2912, col: 13, offset: 92773},
+																																													pos:        position{line: 2924, col: 13, offset: 93289},
 																																													val:        "\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2912, col: 20, offset: 92780},
+																																													pos:        position{line: 2924, col: 20, offset: 93296},
 																																													val:        "\r\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2912, col: 29, offset: 92789},
+																																													pos:        position{line: 2924, col: 29, offset: 93305},
 																																													val:        "\r",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\"",
@@ -10043,9 +10043,9 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2922, col: 8, offset: 92949},
+																																										pos: position{line: 2934, col: 8, offset: 93465},
 																																										expr: &anyMatcher{
-																																											line: 2922, col: 9, offset: 92950,
+																																											line: 2934, col: 9, offset: 93466,
 																																										},
 																																									},
 																																								},
@@ -10073,18 +10073,18 @@ var g = &grammar{
 																									pos: position{line: 677, col: 14, offset: 21525},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2920, col: 11, offset: 92935},
+																											pos: position{line: 2932, col: 11, offset: 93451},
 																											expr: &anyMatcher{
-																												line: 2920, col: 13, offset: 92937,
+																												line: 2932, col: 13, offset: 93453,
 																											},
 																										},
 																										&zeroOrMoreExpr{
 																											pos: position{line: 677, col: 21, offset: 21532},
 																											expr: &actionExpr{
-																												pos: position{line: 2903, col: 10, offset: 92601},
+																												pos: position{line: 2915, col: 10, offset: 93117},
 																												run: (*parser).callonDocumentFragment1305,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2903, col: 10, offset: 92601},
+																													pos:        position{line: 2915, col: 10, offset: 93117},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -10093,28 +10093,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2925, col: 8, offset: 92999},
+																											pos: position{line: 2937, col: 8, offset: 93515},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2912, col: 12, offset: 92772},
+																													pos: position{line: 2924, col: 12, offset: 93288},
 																													run: (*parser).callonDocumentFragment1308,
 																													expr: &choiceExpr{
-																														pos: position{line: 2912, col: 13, offset: 92773},
+																														pos: position{line: 2924, col: 13, offset: 93289},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 13, offset: 92773},
+																																pos:        position{line: 2924, col: 13, offset: 93289},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 20, offset: 92780},
+																																pos:        position{line: 2924, col: 20, offset: 93296},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 29, offset: 92789},
+																																pos:        position{line: 2924, col: 29, offset: 93305},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -10123,9 +10123,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2922, col: 8, offset: 92949},
+																													pos: position{line: 2934, col: 8, offset: 93465},
 																													expr: &anyMatcher{
-																														line: 2922, col: 9, offset: 92950,
+																														line: 2934, col: 9, offset: 93466,
 																													},
 																												},
 																											},
@@ -10144,24 +10144,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2642, col: 22, offset: 85155},
+														pos: position{line: 2654, col: 22, offset: 85671},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2638, col: 19, offset: 85075},
+																pos: position{line: 2650, col: 19, offset: 85591},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2638, col: 19, offset: 85075},
+																		pos:        position{line: 2650, col: 19, offset: 85591},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2638, col: 26, offset: 85082},
+																		pos: position{line: 2650, col: 26, offset: 85598},
 																		expr: &actionExpr{
-																			pos: position{line: 2903, col: 10, offset: 92601},
+																			pos: position{line: 2915, col: 10, offset: 93117},
 																			run: (*parser).callonDocumentFragment1319,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2903, col: 10, offset: 92601},
+																				pos:        position{line: 2915, col: 10, offset: 93117},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10170,28 +10170,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2925, col: 8, offset: 92999},
+																		pos: position{line: 2937, col: 8, offset: 93515},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2912, col: 12, offset: 92772},
+																				pos: position{line: 2924, col: 12, offset: 93288},
 																				run: (*parser).callonDocumentFragment1322,
 																				expr: &choiceExpr{
-																					pos: position{line: 2912, col: 13, offset: 92773},
+																					pos: position{line: 2924, col: 13, offset: 93289},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 13, offset: 92773},
+																							pos:        position{line: 2924, col: 13, offset: 93289},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 20, offset: 92780},
+																							pos:        position{line: 2924, col: 20, offset: 93296},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 29, offset: 92789},
+																							pos:        position{line: 2924, col: 29, offset: 93305},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10200,9 +10200,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2922, col: 8, offset: 92949},
+																				pos: position{line: 2934, col: 8, offset: 93465},
 																				expr: &anyMatcher{
-																					line: 2922, col: 9, offset: 92950,
+																					line: 2934, col: 9, offset: 93466,
 																				},
 																			},
 																		},
@@ -10210,9 +10210,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2922, col: 8, offset: 92949},
+																pos: position{line: 2934, col: 8, offset: 93465},
 																expr: &anyMatcher{
-																	line: 2922, col: 9, offset: 92950,
+																	line: 2934, col: 9, offset: 93466,
 																},
 															},
 														},
@@ -10221,36 +10221,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2503, col: 22, offset: 81294},
+											pos: position{line: 2515, col: 22, offset: 81810},
 											run: (*parser).callonDocumentFragment1331,
 											expr: &seqExpr{
-												pos: position{line: 2503, col: 22, offset: 81294},
+												pos: position{line: 2515, col: 22, offset: 81810},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2508, col: 31, offset: 81515},
+														pos:        position{line: 2520, col: 31, offset: 82031},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2508, col: 36, offset: 81520},
+														pos: position{line: 2520, col: 36, offset: 82036},
 														expr: &litMatcher{
-															pos:        position{line: 2508, col: 37, offset: 81521},
+															pos:        position{line: 2520, col: 37, offset: 82037},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2503, col: 49, offset: 81321},
+														pos:   position{line: 2515, col: 49, offset: 81837},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2849, col: 13, offset: 91127},
+															pos: position{line: 2861, col: 13, offset: 91643},
 															run: (*parser).callonDocumentFragment1337,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2849, col: 13, offset: 91127},
+																pos: position{line: 2861, col: 13, offset: 91643},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2849, col: 13, offset: 91127},
+																	pos:        position{line: 2861, col: 13, offset: 91643},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10260,28 +10260,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2925, col: 8, offset: 92999},
+														pos: position{line: 2937, col: 8, offset: 93515},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2912, col: 12, offset: 92772},
+																pos: position{line: 2924, col: 12, offset: 93288},
 																run: (*parser).callonDocumentFragment1341,
 																expr: &choiceExpr{
-																	pos: position{line: 2912, col: 13, offset: 92773},
+																	pos: position{line: 2924, col: 13, offset: 93289},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2912, col: 13, offset: 92773},
+																			pos:        position{line: 2924, col: 13, offset: 93289},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2912, col: 20, offset: 92780},
+																			pos:        position{line: 2924, col: 20, offset: 93296},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2912, col: 29, offset: 92789},
+																			pos:        position{line: 2924, col: 29, offset: 93305},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10290,9 +10290,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2922, col: 8, offset: 92949},
+																pos: position{line: 2934, col: 8, offset: 93465},
 																expr: &anyMatcher{
-																	line: 2922, col: 9, offset: 92950,
+																	line: 2934, col: 9, offset: 93466,
 																},
 															},
 														},
@@ -10328,10 +10328,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1239, col: 36, offset: 38364},
 																		expr: &actionExpr{
-																			pos: position{line: 2903, col: 10, offset: 92601},
+																			pos: position{line: 2915, col: 10, offset: 93117},
 																			run: (*parser).callonDocumentFragment1356,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2903, col: 10, offset: 92601},
+																				pos:        position{line: 2915, col: 10, offset: 93117},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10340,28 +10340,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2925, col: 8, offset: 92999},
+																		pos: position{line: 2937, col: 8, offset: 93515},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2912, col: 12, offset: 92772},
+																				pos: position{line: 2924, col: 12, offset: 93288},
 																				run: (*parser).callonDocumentFragment1359,
 																				expr: &choiceExpr{
-																					pos: position{line: 2912, col: 13, offset: 92773},
+																					pos: position{line: 2924, col: 13, offset: 93289},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 13, offset: 92773},
+																							pos:        position{line: 2924, col: 13, offset: 93289},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 20, offset: 92780},
+																							pos:        position{line: 2924, col: 20, offset: 93296},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 29, offset: 92789},
+																							pos:        position{line: 2924, col: 29, offset: 93305},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10370,9 +10370,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2922, col: 8, offset: 92949},
+																				pos: position{line: 2934, col: 8, offset: 93465},
 																				expr: &anyMatcher{
-																					line: 2922, col: 9, offset: 92950,
+																					line: 2934, col: 9, offset: 93466,
 																				},
 																			},
 																		},
@@ -10406,10 +10406,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 1239, col: 36, offset: 38364},
 																												expr: &actionExpr{
-																													pos: position{line: 2903, col: 10, offset: 92601},
+																													pos: position{line: 2915, col: 10, offset: 93117},
 																													run: (*parser).callonDocumentFragment1376,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2903, col: 10, offset: 92601},
+																														pos:        position{line: 2915, col: 10, offset: 93117},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -10418,28 +10418,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2925, col: 8, offset: 92999},
+																												pos: position{line: 2937, col: 8, offset: 93515},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2912, col: 12, offset: 92772},
+																														pos: position{line: 2924, col: 12, offset: 93288},
 																														run: (*parser).callonDocumentFragment1379,
 																														expr: &choiceExpr{
-																															pos: position{line: 2912, col: 13, offset: 92773},
+																															pos: position{line: 2924, col: 13, offset: 93289},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2912, col: 13, offset: 92773},
+																																	pos:        position{line: 2924, col: 13, offset: 93289},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2912, col: 20, offset: 92780},
+																																	pos:        position{line: 2924, col: 20, offset: 93296},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2912, col: 29, offset: 92789},
+																																	pos:        position{line: 2924, col: 29, offset: 93305},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -10448,9 +10448,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2922, col: 8, offset: 92949},
+																														pos: position{line: 2934, col: 8, offset: 93465},
 																														expr: &anyMatcher{
-																															line: 2922, col: 9, offset: 92950,
+																															line: 2934, col: 9, offset: 93466,
 																														},
 																													},
 																												},
@@ -10477,10 +10477,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1239, col: 36, offset: 38364},
 																		expr: &actionExpr{
-																			pos: position{line: 2903, col: 10, offset: 92601},
+																			pos: position{line: 2915, col: 10, offset: 93117},
 																			run: (*parser).callonDocumentFragment1389,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2903, col: 10, offset: 92601},
+																				pos:        position{line: 2915, col: 10, offset: 93117},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10489,28 +10489,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2925, col: 8, offset: 92999},
+																		pos: position{line: 2937, col: 8, offset: 93515},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2912, col: 12, offset: 92772},
+																				pos: position{line: 2924, col: 12, offset: 93288},
 																				run: (*parser).callonDocumentFragment1392,
 																				expr: &choiceExpr{
-																					pos: position{line: 2912, col: 13, offset: 92773},
+																					pos: position{line: 2924, col: 13, offset: 93289},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 13, offset: 92773},
+																							pos:        position{line: 2924, col: 13, offset: 93289},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 20, offset: 92780},
+																							pos:        position{line: 2924, col: 20, offset: 93296},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 29, offset: 92789},
+																							pos:        position{line: 2924, col: 29, offset: 93305},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10519,9 +10519,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2922, col: 8, offset: 92949},
+																				pos: position{line: 2934, col: 8, offset: 93465},
 																				expr: &anyMatcher{
-																					line: 2922, col: 9, offset: 92950,
+																					line: 2934, col: 9, offset: 93466,
 																				},
 																			},
 																		},
@@ -10578,9 +10578,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2922, col: 8, offset: 92949},
+							pos: position{line: 2934, col: 8, offset: 93465},
 							expr: &anyMatcher{
-								line: 2922, col: 9, offset: 92950,
+								line: 2934, col: 9, offset: 93466,
 							},
 						},
 					},
@@ -10652,12 +10652,12 @@ var g = &grammar{
 										pos: position{line: 304, col: 9, offset: 9170},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2907, col: 11, offset: 92662},
+												pos: position{line: 2919, col: 11, offset: 93178},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2907, col: 11, offset: 92662},
+													pos: position{line: 2919, col: 11, offset: 93178},
 													expr: &charClassMatcher{
-														pos:        position{line: 2907, col: 11, offset: 92662},
+														pos:        position{line: 2919, col: 11, offset: 93178},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10681,10 +10681,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 309, col: 5, offset: 9350},
 							expr: &actionExpr{
-								pos: position{line: 2903, col: 10, offset: 92601},
+								pos: position{line: 2915, col: 10, offset: 93117},
 								run: (*parser).callonAttributeDeclaration21,
 								expr: &charClassMatcher{
-									pos:        position{line: 2903, col: 10, offset: 92601},
+									pos:        position{line: 2915, col: 10, offset: 93117},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -10693,28 +10693,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2925, col: 8, offset: 92999},
+							pos: position{line: 2937, col: 8, offset: 93515},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2912, col: 12, offset: 92772},
+									pos: position{line: 2924, col: 12, offset: 93288},
 									run: (*parser).callonAttributeDeclaration24,
 									expr: &choiceExpr{
-										pos: position{line: 2912, col: 13, offset: 92773},
+										pos: position{line: 2924, col: 13, offset: 93289},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2912, col: 13, offset: 92773},
+												pos:        position{line: 2924, col: 13, offset: 93289},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2912, col: 20, offset: 92780},
+												pos:        position{line: 2924, col: 20, offset: 93296},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2912, col: 29, offset: 92789},
+												pos:        position{line: 2924, col: 29, offset: 93305},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10723,9 +10723,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2922, col: 8, offset: 92949},
+									pos: position{line: 2934, col: 8, offset: 93465},
 									expr: &anyMatcher{
-										line: 2922, col: 9, offset: 92950,
+										line: 2934, col: 9, offset: 93466,
 									},
 								},
 							},
@@ -10771,10 +10771,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 324, col: 14, offset: 9848},
 												expr: &actionExpr{
-													pos: position{line: 2903, col: 10, offset: 92601},
+													pos: position{line: 2915, col: 10, offset: 93117},
 													run: (*parser).callonAttributeDeclarationValue11,
 													expr: &charClassMatcher{
-														pos:        position{line: 2903, col: 10, offset: 92601},
+														pos:        position{line: 2915, col: 10, offset: 93117},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10783,25 +10783,25 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 2912, col: 12, offset: 92772},
+												pos: position{line: 2924, col: 12, offset: 93288},
 												run: (*parser).callonAttributeDeclarationValue13,
 												expr: &choiceExpr{
-													pos: position{line: 2912, col: 13, offset: 92773},
+													pos: position{line: 2924, col: 13, offset: 93289},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2912, col: 13, offset: 92773},
+															pos:        position{line: 2924, col: 13, offset: 93289},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2912, col: 20, offset: 92780},
+															pos:        position{line: 2924, col: 20, offset: 93296},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2912, col: 29, offset: 92789},
+															pos:        position{line: 2924, col: 29, offset: 93305},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10812,10 +10812,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 325, col: 9, offset: 9872},
 												expr: &actionExpr{
-													pos: position{line: 2903, col: 10, offset: 92601},
+													pos: position{line: 2915, col: 10, offset: 93117},
 													run: (*parser).callonAttributeDeclarationValue19,
 													expr: &charClassMatcher{
-														pos:        position{line: 2903, col: 10, offset: 92601},
+														pos:        position{line: 2915, col: 10, offset: 93117},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10885,10 +10885,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 343, col: 13, offset: 10417},
 										expr: &actionExpr{
-											pos: position{line: 2903, col: 10, offset: 92601},
+											pos: position{line: 2915, col: 10, offset: 93117},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2903, col: 10, offset: 92601},
+												pos:        position{line: 2915, col: 10, offset: 93117},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10897,28 +10897,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2925, col: 8, offset: 92999},
+										pos: position{line: 2937, col: 8, offset: 93515},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2912, col: 12, offset: 92772},
+												pos: position{line: 2924, col: 12, offset: 93288},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2912, col: 13, offset: 92773},
+													pos: position{line: 2924, col: 13, offset: 93289},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2912, col: 13, offset: 92773},
+															pos:        position{line: 2924, col: 13, offset: 93289},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2912, col: 20, offset: 92780},
+															pos:        position{line: 2924, col: 20, offset: 93296},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2912, col: 29, offset: 92789},
+															pos:        position{line: 2924, col: 29, offset: 93305},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10927,9 +10927,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2922, col: 8, offset: 92949},
+												pos: position{line: 2934, col: 8, offset: 93465},
 												expr: &anyMatcher{
-													line: 2922, col: 9, offset: 92950,
+													line: 2934, col: 9, offset: 93466,
 												},
 											},
 										},
@@ -10962,23 +10962,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2490, col: 5, offset: 80840},
+										pos: position{line: 2502, col: 5, offset: 81356},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2490, col: 5, offset: 80840},
+											pos: position{line: 2502, col: 5, offset: 81356},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2490, col: 5, offset: 80840},
+													pos: position{line: 2502, col: 5, offset: 81356},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2493, col: 5, offset: 80916},
+													pos:   position{line: 2505, col: 5, offset: 81432},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2494, col: 9, offset: 80934},
+														pos: position{line: 2506, col: 9, offset: 81450},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2494, col: 10, offset: 80935},
+															pos:        position{line: 2506, col: 10, offset: 81451},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -10990,10 +10990,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2903, col: 10, offset: 92601},
+										pos: position{line: 2915, col: 10, offset: 93117},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2903, col: 10, offset: 92601},
+											pos:        position{line: 2915, col: 10, offset: 93117},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -11834,10 +11834,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 371, col: 35, offset: 11426},
 												expr: &actionExpr{
-													pos: position{line: 2903, col: 10, offset: 92601},
+													pos: position{line: 2915, col: 10, offset: 93117},
 													run: (*parser).callonBlockAttributes101,
 													expr: &charClassMatcher{
-														pos:        position{line: 2903, col: 10, offset: 92601},
+														pos:        position{line: 2915, col: 10, offset: 93117},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11846,28 +11846,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2925, col: 8, offset: 92999},
+												pos: position{line: 2937, col: 8, offset: 93515},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2912, col: 12, offset: 92772},
+														pos: position{line: 2924, col: 12, offset: 93288},
 														run: (*parser).callonBlockAttributes104,
 														expr: &choiceExpr{
-															pos: position{line: 2912, col: 13, offset: 92773},
+															pos: position{line: 2924, col: 13, offset: 93289},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2912, col: 13, offset: 92773},
+																	pos:        position{line: 2924, col: 13, offset: 93289},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2912, col: 20, offset: 92780},
+																	pos:        position{line: 2924, col: 20, offset: 93296},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2912, col: 29, offset: 92789},
+																	pos:        position{line: 2924, col: 29, offset: 93305},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11876,9 +11876,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2922, col: 8, offset: 92949},
+														pos: position{line: 2934, col: 8, offset: 93465},
 														expr: &anyMatcher{
-															line: 2922, col: 9, offset: 92950,
+															line: 2934, col: 9, offset: 93466,
 														},
 													},
 												},
@@ -11892,18 +11892,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21525},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2920, col: 11, offset: 92935},
+																pos: position{line: 2932, col: 11, offset: 93451},
 																expr: &anyMatcher{
-																	line: 2920, col: 13, offset: 92937,
+																	line: 2932, col: 13, offset: 93453,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21532},
 																expr: &actionExpr{
-																	pos: position{line: 2903, col: 10, offset: 92601},
+																	pos: position{line: 2915, col: 10, offset: 93117},
 																	run: (*parser).callonBlockAttributes117,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2903, col: 10, offset: 92601},
+																		pos:        position{line: 2915, col: 10, offset: 93117},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -11912,28 +11912,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2925, col: 8, offset: 92999},
+																pos: position{line: 2937, col: 8, offset: 93515},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2912, col: 12, offset: 92772},
+																		pos: position{line: 2924, col: 12, offset: 93288},
 																		run: (*parser).callonBlockAttributes120,
 																		expr: &choiceExpr{
-																			pos: position{line: 2912, col: 13, offset: 92773},
+																			pos: position{line: 2924, col: 13, offset: 93289},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2912, col: 13, offset: 92773},
+																					pos:        position{line: 2924, col: 13, offset: 93289},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2912, col: 20, offset: 92780},
+																					pos:        position{line: 2924, col: 20, offset: 93296},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2912, col: 29, offset: 92789},
+																					pos:        position{line: 2924, col: 29, offset: 93305},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -11942,9 +11942,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2922, col: 8, offset: 92949},
+																		pos: position{line: 2934, col: 8, offset: 93465},
 																		expr: &anyMatcher{
-																			line: 2922, col: 9, offset: 92950,
+																			line: 2934, col: 9, offset: 93466,
 																		},
 																	},
 																},
@@ -11996,12 +11996,12 @@ var g = &grammar{
 																		pos: position{line: 425, col: 9, offset: 13070},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2790, col: 14, offset: 89556},
+																				pos: position{line: 2802, col: 14, offset: 90072},
 																				run: (*parser).callonBlockAttributes138,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2790, col: 14, offset: 89556},
+																					pos: position{line: 2802, col: 14, offset: 90072},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2790, col: 14, offset: 89556},
+																						pos:        position{line: 2802, col: 14, offset: 90072},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -12010,10 +12010,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2903, col: 10, offset: 92601},
+																				pos: position{line: 2915, col: 10, offset: 93117},
 																				run: (*parser).callonBlockAttributes141,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2903, col: 10, offset: 92601},
+																					pos:        position{line: 2915, col: 10, offset: 93117},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -12021,27 +12021,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2820, col: 5, offset: 90255},
+																				pos: position{line: 2832, col: 5, offset: 90771},
 																				run: (*parser).callonBlockAttributes143,
 																				expr: &choiceExpr{
-																					pos: position{line: 2821, col: 9, offset: 90265},
+																					pos: position{line: 2833, col: 9, offset: 90781},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2821, col: 10, offset: 90266},
+																							pos:        position{line: 2833, col: 10, offset: 90782},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2823, col: 13, offset: 90363},
+																							pos: position{line: 2835, col: 13, offset: 90879},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2823, col: 13, offset: 90363},
+																									pos: position{line: 2835, col: 13, offset: 90879},
 																									run: (*parser).callonBlockAttributes147,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2826, col: 13, offset: 90463},
+																									pos:        position{line: 2838, col: 13, offset: 90979},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -12049,20 +12049,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2826, col: 19, offset: 90469},
+																							pos:        position{line: 2838, col: 19, offset: 90985},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2829, col: 13, offset: 90507},
+																							pos: position{line: 2841, col: 13, offset: 91023},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2829, col: 13, offset: 90507},
+																									pos: position{line: 2841, col: 13, offset: 91023},
 																									run: (*parser).callonBlockAttributes151,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2832, col: 14, offset: 90600},
+																									pos:        position{line: 2844, col: 14, offset: 91116},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -12071,18 +12071,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2834, col: 12, offset: 90644},
+																							pos: position{line: 2846, col: 12, offset: 91160},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2834, col: 12, offset: 90644},
+																									pos:        position{line: 2846, col: 12, offset: 91160},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2834, col: 16, offset: 90648},
+																									pos: position{line: 2846, col: 16, offset: 91164},
 																									expr: &litMatcher{
-																										pos:        position{line: 2834, col: 17, offset: 90649},
+																										pos:        position{line: 2846, col: 17, offset: 91165},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12418,10 +12418,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2842, col: 12, offset: 90909},
+																				pos: position{line: 2854, col: 12, offset: 91425},
 																				run: (*parser).callonBlockAttributes221,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2842, col: 12, offset: 90909},
+																					pos:        position{line: 2854, col: 12, offset: 91425},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12439,10 +12439,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 375, col: 35, offset: 11581},
 												expr: &actionExpr{
-													pos: position{line: 2903, col: 10, offset: 92601},
+													pos: position{line: 2915, col: 10, offset: 93117},
 													run: (*parser).callonBlockAttributes224,
 													expr: &charClassMatcher{
-														pos:        position{line: 2903, col: 10, offset: 92601},
+														pos:        position{line: 2915, col: 10, offset: 93117},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12451,28 +12451,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2925, col: 8, offset: 92999},
+												pos: position{line: 2937, col: 8, offset: 93515},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2912, col: 12, offset: 92772},
+														pos: position{line: 2924, col: 12, offset: 93288},
 														run: (*parser).callonBlockAttributes227,
 														expr: &choiceExpr{
-															pos: position{line: 2912, col: 13, offset: 92773},
+															pos: position{line: 2924, col: 13, offset: 93289},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2912, col: 13, offset: 92773},
+																	pos:        position{line: 2924, col: 13, offset: 93289},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2912, col: 20, offset: 92780},
+																	pos:        position{line: 2924, col: 20, offset: 93296},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2912, col: 29, offset: 92789},
+																	pos:        position{line: 2924, col: 29, offset: 93305},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12481,9 +12481,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2922, col: 8, offset: 92949},
+														pos: position{line: 2934, col: 8, offset: 93465},
 														expr: &anyMatcher{
-															line: 2922, col: 9, offset: 92950,
+															line: 2934, col: 9, offset: 93466,
 														},
 													},
 												},
@@ -12497,18 +12497,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21525},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2920, col: 11, offset: 92935},
+																pos: position{line: 2932, col: 11, offset: 93451},
 																expr: &anyMatcher{
-																	line: 2920, col: 13, offset: 92937,
+																	line: 2932, col: 13, offset: 93453,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21532},
 																expr: &actionExpr{
-																	pos: position{line: 2903, col: 10, offset: 92601},
+																	pos: position{line: 2915, col: 10, offset: 93117},
 																	run: (*parser).callonBlockAttributes240,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2903, col: 10, offset: 92601},
+																		pos:        position{line: 2915, col: 10, offset: 93117},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12517,28 +12517,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2925, col: 8, offset: 92999},
+																pos: position{line: 2937, col: 8, offset: 93515},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2912, col: 12, offset: 92772},
+																		pos: position{line: 2924, col: 12, offset: 93288},
 																		run: (*parser).callonBlockAttributes243,
 																		expr: &choiceExpr{
-																			pos: position{line: 2912, col: 13, offset: 92773},
+																			pos: position{line: 2924, col: 13, offset: 93289},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2912, col: 13, offset: 92773},
+																					pos:        position{line: 2924, col: 13, offset: 93289},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2912, col: 20, offset: 92780},
+																					pos:        position{line: 2924, col: 20, offset: 93296},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2912, col: 29, offset: 92789},
+																					pos:        position{line: 2924, col: 29, offset: 93305},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12547,9 +12547,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2922, col: 8, offset: 92949},
+																		pos: position{line: 2934, col: 8, offset: 93465},
 																		expr: &anyMatcher{
-																			line: 2922, col: 9, offset: 92950,
+																			line: 2934, col: 9, offset: 93466,
 																		},
 																	},
 																},
@@ -12571,10 +12571,10 @@ var g = &grammar{
 												pos:   position{line: 379, col: 12, offset: 11682},
 												label: "start",
 												expr: &actionExpr{
-													pos: position{line: 2928, col: 16, offset: 93123},
+													pos: position{line: 2940, col: 16, offset: 93639},
 													run: (*parser).callonBlockAttributes253,
 													expr: &litMatcher{
-														pos:        position{line: 2928, col: 16, offset: 93123},
+														pos:        position{line: 2940, col: 16, offset: 93639},
 														val:        "",
 														ignoreCase: false,
 														want:       "\"\"",
@@ -12592,10 +12592,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 379, col: 64, offset: 11734},
 												expr: &actionExpr{
-													pos: position{line: 2903, col: 10, offset: 92601},
+													pos: position{line: 2915, col: 10, offset: 93117},
 													run: (*parser).callonBlockAttributes258,
 													expr: &charClassMatcher{
-														pos:        position{line: 2903, col: 10, offset: 92601},
+														pos:        position{line: 2915, col: 10, offset: 93117},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12607,10 +12607,10 @@ var g = &grammar{
 												pos:   position{line: 379, col: 71, offset: 11741},
 												label: "end",
 												expr: &actionExpr{
-													pos: position{line: 2928, col: 16, offset: 93123},
+													pos: position{line: 2940, col: 16, offset: 93639},
 													run: (*parser).callonBlockAttributes261,
 													expr: &litMatcher{
-														pos:        position{line: 2928, col: 16, offset: 93123},
+														pos:        position{line: 2940, col: 16, offset: 93639},
 														val:        "",
 														ignoreCase: false,
 														want:       "\"\"",
@@ -12622,28 +12622,28 @@ var g = &grammar{
 												run: (*parser).callonBlockAttributes263,
 											},
 											&choiceExpr{
-												pos: position{line: 2925, col: 8, offset: 92999},
+												pos: position{line: 2937, col: 8, offset: 93515},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2912, col: 12, offset: 92772},
+														pos: position{line: 2924, col: 12, offset: 93288},
 														run: (*parser).callonBlockAttributes265,
 														expr: &choiceExpr{
-															pos: position{line: 2912, col: 13, offset: 92773},
+															pos: position{line: 2924, col: 13, offset: 93289},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2912, col: 13, offset: 92773},
+																	pos:        position{line: 2924, col: 13, offset: 93289},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2912, col: 20, offset: 92780},
+																	pos:        position{line: 2924, col: 20, offset: 93296},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2912, col: 29, offset: 92789},
+																	pos:        position{line: 2924, col: 29, offset: 93305},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12652,9 +12652,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2922, col: 8, offset: 92949},
+														pos: position{line: 2934, col: 8, offset: 93465},
 														expr: &anyMatcher{
-															line: 2922, col: 9, offset: 92950,
+															line: 2934, col: 9, offset: 93466,
 														},
 													},
 												},
@@ -12668,18 +12668,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21525},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2920, col: 11, offset: 92935},
+																pos: position{line: 2932, col: 11, offset: 93451},
 																expr: &anyMatcher{
-																	line: 2920, col: 13, offset: 92937,
+																	line: 2932, col: 13, offset: 93453,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21532},
 																expr: &actionExpr{
-																	pos: position{line: 2903, col: 10, offset: 92601},
+																	pos: position{line: 2915, col: 10, offset: 93117},
 																	run: (*parser).callonBlockAttributes278,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2903, col: 10, offset: 92601},
+																		pos:        position{line: 2915, col: 10, offset: 93117},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12688,28 +12688,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2925, col: 8, offset: 92999},
+																pos: position{line: 2937, col: 8, offset: 93515},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2912, col: 12, offset: 92772},
+																		pos: position{line: 2924, col: 12, offset: 93288},
 																		run: (*parser).callonBlockAttributes281,
 																		expr: &choiceExpr{
-																			pos: position{line: 2912, col: 13, offset: 92773},
+																			pos: position{line: 2924, col: 13, offset: 93289},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2912, col: 13, offset: 92773},
+																					pos:        position{line: 2924, col: 13, offset: 93289},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2912, col: 20, offset: 92780},
+																					pos:        position{line: 2924, col: 20, offset: 93296},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2912, col: 29, offset: 92789},
+																					pos:        position{line: 2924, col: 29, offset: 93305},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12718,9 +12718,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2922, col: 8, offset: 92949},
+																		pos: position{line: 2934, col: 8, offset: 93465},
 																		expr: &anyMatcher{
-																			line: 2922, col: 9, offset: 92950,
+																			line: 2934, col: 9, offset: 93466,
 																		},
 																	},
 																},
@@ -12968,10 +12968,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 466, col: 13, offset: 14565},
 										expr: &actionExpr{
-											pos: position{line: 2903, col: 10, offset: 92601},
+											pos: position{line: 2915, col: 10, offset: 93117},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2903, col: 10, offset: 92601},
+												pos:        position{line: 2915, col: 10, offset: 93117},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13503,10 +13503,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 518, col: 9, offset: 16147},
 													expr: &actionExpr{
-														pos: position{line: 2903, col: 10, offset: 92601},
+														pos: position{line: 2915, col: 10, offset: 93117},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2903, col: 10, offset: 92601},
+															pos:        position{line: 2915, col: 10, offset: 93117},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13567,10 +13567,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 524, col: 34, offset: 16290},
 														expr: &actionExpr{
-															pos: position{line: 2903, col: 10, offset: 92601},
+															pos: position{line: 2915, col: 10, offset: 93117},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2903, col: 10, offset: 92601},
+																pos:        position{line: 2915, col: 10, offset: 93117},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13610,10 +13610,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 529, col: 13, offset: 16454},
 												expr: &actionExpr{
-													pos: position{line: 2903, col: 10, offset: 92601},
+													pos: position{line: 2915, col: 10, offset: 93117},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2903, col: 10, offset: 92601},
+														pos:        position{line: 2915, col: 10, offset: 93117},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13636,10 +13636,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 529, col: 26, offset: 16467},
 																expr: &actionExpr{
-																	pos: position{line: 2903, col: 10, offset: 92601},
+																	pos: position{line: 2915, col: 10, offset: 93117},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2903, col: 10, offset: 92601},
+																		pos:        position{line: 2915, col: 10, offset: 93117},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13694,10 +13694,10 @@ var g = &grammar{
 										&notExpr{
 											pos: position{line: 549, col: 22, offset: 17114},
 											expr: &actionExpr{
-												pos: position{line: 2903, col: 10, offset: 92601},
+												pos: position{line: 2915, col: 10, offset: 93117},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2903, col: 10, offset: 92601},
+													pos:        position{line: 2915, col: 10, offset: 93117},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13728,10 +13728,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 542, col: 9, offset: 16859},
 							expr: &actionExpr{
-								pos: position{line: 2903, col: 10, offset: 92601},
+								pos: position{line: 2915, col: 10, offset: 93117},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2903, col: 10, offset: 92601},
+									pos:        position{line: 2915, col: 10, offset: 93117},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13761,10 +13761,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 543, col: 33, offset: 16899},
 										expr: &actionExpr{
-											pos: position{line: 2903, col: 10, offset: 92601},
+											pos: position{line: 2915, col: 10, offset: 93117},
 											run: (*parser).callonNamedAttribute21,
 											expr: &charClassMatcher{
-												pos:        position{line: 2903, col: 10, offset: 92601},
+												pos:        position{line: 2915, col: 10, offset: 93117},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13819,10 +13819,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 559, col: 9, offset: 17331},
 											expr: &actionExpr{
-												pos: position{line: 2903, col: 10, offset: 92601},
+												pos: position{line: 2915, col: 10, offset: 93117},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2903, col: 10, offset: 92601},
+													pos:        position{line: 2915, col: 10, offset: 93117},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13901,12 +13901,12 @@ var g = &grammar{
 							pos: position{line: 572, col: 9, offset: 17648},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2790, col: 14, offset: 89556},
+									pos: position{line: 2802, col: 14, offset: 90072},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2790, col: 14, offset: 89556},
+										pos: position{line: 2802, col: 14, offset: 90072},
 										expr: &charClassMatcher{
-											pos:        position{line: 2790, col: 14, offset: 89556},
+											pos:        position{line: 2802, col: 14, offset: 90072},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -13915,10 +13915,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2903, col: 10, offset: 92601},
+									pos: position{line: 2915, col: 10, offset: 93117},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2903, col: 10, offset: 92601},
+										pos:        position{line: 2915, col: 10, offset: 93117},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14375,10 +14375,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 592, col: 14, offset: 18388},
 											expr: &actionExpr{
-												pos: position{line: 2903, col: 10, offset: 92601},
+												pos: position{line: 2915, col: 10, offset: 93117},
 												run: (*parser).callonDoubleQuotedAttributeValue13,
 												expr: &charClassMatcher{
-													pos:        position{line: 2903, col: 10, offset: 92601},
+													pos:        position{line: 2915, col: 10, offset: 93117},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14415,12 +14415,12 @@ var g = &grammar{
 							pos: position{line: 598, col: 9, offset: 18499},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2790, col: 14, offset: 89556},
+									pos: position{line: 2802, col: 14, offset: 90072},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2790, col: 14, offset: 89556},
+										pos: position{line: 2802, col: 14, offset: 90072},
 										expr: &charClassMatcher{
-											pos:        position{line: 2790, col: 14, offset: 89556},
+											pos:        position{line: 2802, col: 14, offset: 90072},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14429,10 +14429,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2903, col: 10, offset: 92601},
+									pos: position{line: 2915, col: 10, offset: 93117},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2903, col: 10, offset: 92601},
+										pos:        position{line: 2915, col: 10, offset: 93117},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14859,10 +14859,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 619, col: 5, offset: 19355},
 							expr: &actionExpr{
-								pos: position{line: 2903, col: 10, offset: 92601},
+								pos: position{line: 2915, col: 10, offset: 93117},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2903, col: 10, offset: 92601},
+									pos:        position{line: 2915, col: 10, offset: 93117},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -15252,10 +15252,10 @@ var g = &grammar{
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2903, col: 10, offset: 92601},
+											pos: position{line: 2915, col: 10, offset: 93117},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2903, col: 10, offset: 92601},
+												pos:        position{line: 2915, col: 10, offset: 93117},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -15306,12 +15306,12 @@ var g = &grammar{
 									pos:   position{line: 686, col: 32, offset: 21885},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2888, col: 7, offset: 92253},
+										pos: position{line: 2900, col: 7, offset: 92769},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2888, col: 7, offset: 92253},
+											pos: position{line: 2900, col: 7, offset: 92769},
 											expr: &charClassMatcher{
-												pos:        position{line: 2888, col: 7, offset: 92253},
+												pos:        position{line: 2900, col: 7, offset: 92769},
 												val:        "[^[]<>,\\r\\n]",
 												chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 												ignoreCase: false,
@@ -15323,10 +15323,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 686, col: 40, offset: 21893},
 									expr: &actionExpr{
-										pos: position{line: 2903, col: 10, offset: 92601},
+										pos: position{line: 2915, col: 10, offset: 93117},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2903, col: 10, offset: 92601},
+											pos:        position{line: 2915, col: 10, offset: 93117},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15343,10 +15343,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 686, col: 51, offset: 21904},
 									expr: &actionExpr{
-										pos: position{line: 2903, col: 10, offset: 92601},
+										pos: position{line: 2915, col: 10, offset: 93117},
 										run: (*parser).callonCrossReference14,
 										expr: &charClassMatcher{
-											pos:        position{line: 2903, col: 10, offset: 92601},
+											pos:        position{line: 2915, col: 10, offset: 93117},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15739,12 +15739,12 @@ var g = &grammar{
 									pos:   position{line: 688, col: 14, offset: 22017},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2888, col: 7, offset: 92253},
+										pos: position{line: 2900, col: 7, offset: 92769},
 										run: (*parser).callonCrossReference93,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2888, col: 7, offset: 92253},
+											pos: position{line: 2900, col: 7, offset: 92769},
 											expr: &charClassMatcher{
-												pos:        position{line: 2888, col: 7, offset: 92253},
+												pos:        position{line: 2900, col: 7, offset: 92769},
 												val:        "[^[]<>,\\r\\n]",
 												chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 												ignoreCase: false,
@@ -15788,41 +15788,41 @@ var g = &grammar{
 							pos:   position{line: 692, col: 35, offset: 22130},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2857, col: 17, offset: 91264},
+								pos: position{line: 2869, col: 17, offset: 91780},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2857, col: 17, offset: 91264},
+									pos:   position{line: 2869, col: 17, offset: 91780},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2874, col: 5, offset: 91718},
+										pos: position{line: 2886, col: 5, offset: 92234},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2874, col: 5, offset: 91718},
+											pos:   position{line: 2886, col: 5, offset: 92234},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2874, col: 14, offset: 91727},
+												pos: position{line: 2886, col: 14, offset: 92243},
 												expr: &choiceExpr{
-													pos: position{line: 2875, col: 9, offset: 91737},
+													pos: position{line: 2887, col: 9, offset: 92253},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2875, col: 9, offset: 91737},
+															pos: position{line: 2887, col: 9, offset: 92253},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2875, col: 9, offset: 91737},
+																pos: position{line: 2887, col: 9, offset: 92253},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2875, col: 9, offset: 91737},
+																		pos: position{line: 2887, col: 9, offset: 92253},
 																		expr: &litMatcher{
-																			pos:        position{line: 2875, col: 10, offset: 91738},
+																			pos:        position{line: 2887, col: 10, offset: 92254},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2876, col: 9, offset: 91766},
+																		pos: position{line: 2888, col: 9, offset: 92282},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2876, col: 10, offset: 91767},
+																			pos:        position{line: 2888, col: 10, offset: 92283},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -15833,27 +15833,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2879, col: 11, offset: 91979},
+															pos: position{line: 2891, col: 11, offset: 92495},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2879, col: 11, offset: 91979},
+																	pos:        position{line: 2891, col: 11, offset: 92495},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2879, col: 19, offset: 91987},
+																	pos: position{line: 2891, col: 19, offset: 92503},
 																	expr: &seqExpr{
-																		pos: position{line: 2879, col: 21, offset: 91989},
+																		pos: position{line: 2891, col: 21, offset: 92505},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2879, col: 21, offset: 91989},
+																				pos: position{line: 2891, col: 21, offset: 92505},
 																				expr: &actionExpr{
-																					pos: position{line: 2903, col: 10, offset: 92601},
+																					pos: position{line: 2915, col: 10, offset: 93117},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2903, col: 10, offset: 92601},
+																						pos:        position{line: 2915, col: 10, offset: 93117},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -15862,11 +15862,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2879, col: 28, offset: 91996},
+																				pos: position{line: 2891, col: 28, offset: 92512},
 																				expr: &notExpr{
-																					pos: position{line: 2922, col: 8, offset: 92949},
+																					pos: position{line: 2934, col: 8, offset: 93465},
 																					expr: &anyMatcher{
-																						line: 2922, col: 9, offset: 92950,
+																						line: 2934, col: 9, offset: 93466,
 																					},
 																				},
 																			},
@@ -16265,10 +16265,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2882, col: 11, offset: 92116},
+															pos: position{line: 2894, col: 11, offset: 92632},
 															run: (*parser).callonExternalCrossReference105,
 															expr: &litMatcher{
-																pos:        position{line: 2882, col: 11, offset: 92116},
+																pos:        position{line: 2894, col: 11, offset: 92632},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -16313,12 +16313,12 @@ var g = &grammar{
 							pos:   position{line: 990, col: 11, offset: 30870},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2853, col: 14, offset: 91194},
+								pos: position{line: 2865, col: 14, offset: 91710},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2853, col: 14, offset: 91194},
+									pos: position{line: 2865, col: 14, offset: 91710},
 									expr: &charClassMatcher{
-										pos:        position{line: 2853, col: 14, offset: 91194},
+										pos:        position{line: 2865, col: 14, offset: 91710},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -16328,28 +16328,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2925, col: 8, offset: 92999},
+							pos: position{line: 2937, col: 8, offset: 93515},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2912, col: 12, offset: 92772},
+									pos: position{line: 2924, col: 12, offset: 93288},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2912, col: 13, offset: 92773},
+										pos: position{line: 2924, col: 13, offset: 93289},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2912, col: 13, offset: 92773},
+												pos:        position{line: 2924, col: 13, offset: 93289},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2912, col: 20, offset: 92780},
+												pos:        position{line: 2924, col: 20, offset: 93296},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2912, col: 29, offset: 92789},
+												pos:        position{line: 2924, col: 29, offset: 93305},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -16358,9 +16358,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2922, col: 8, offset: 92949},
+									pos: position{line: 2934, col: 8, offset: 93465},
 									expr: &anyMatcher{
-										line: 2922, col: 9, offset: 92950,
+										line: 2934, col: 9, offset: 93466,
 									},
 								},
 							},
@@ -16388,36 +16388,36 @@ var g = &grammar{
 								pos: position{line: 1105, col: 6, offset: 33872},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2503, col: 22, offset: 81294},
+										pos: position{line: 2515, col: 22, offset: 81810},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2503, col: 22, offset: 81294},
+											pos: position{line: 2515, col: 22, offset: 81810},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2508, col: 31, offset: 81515},
+													pos:        position{line: 2520, col: 31, offset: 82031},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2508, col: 36, offset: 81520},
+													pos: position{line: 2520, col: 36, offset: 82036},
 													expr: &litMatcher{
-														pos:        position{line: 2508, col: 37, offset: 81521},
+														pos:        position{line: 2520, col: 37, offset: 82037},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2503, col: 49, offset: 81321},
+													pos:   position{line: 2515, col: 49, offset: 81837},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2849, col: 13, offset: 91127},
+														pos: position{line: 2861, col: 13, offset: 91643},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2849, col: 13, offset: 91127},
+															pos: position{line: 2861, col: 13, offset: 91643},
 															expr: &charClassMatcher{
-																pos:        position{line: 2849, col: 13, offset: 91127},
+																pos:        position{line: 2861, col: 13, offset: 91643},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16427,28 +16427,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2925, col: 8, offset: 92999},
+													pos: position{line: 2937, col: 8, offset: 93515},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2912, col: 12, offset: 92772},
+															pos: position{line: 2924, col: 12, offset: 93288},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2912, col: 13, offset: 92773},
+																pos: position{line: 2924, col: 13, offset: 93289},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2912, col: 13, offset: 92773},
+																		pos:        position{line: 2924, col: 13, offset: 93289},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2912, col: 20, offset: 92780},
+																		pos:        position{line: 2924, col: 20, offset: 93296},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2912, col: 29, offset: 92789},
+																		pos:        position{line: 2924, col: 29, offset: 93305},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16457,9 +16457,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2922, col: 8, offset: 92949},
+															pos: position{line: 2934, col: 8, offset: 93465},
 															expr: &anyMatcher{
-																line: 2922, col: 9, offset: 92950,
+																line: 2934, col: 9, offset: 93466,
 															},
 														},
 													},
@@ -16510,10 +16510,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 743, col: 8, offset: 23745},
 																expr: &actionExpr{
-																	pos: position{line: 2903, col: 10, offset: 92601},
+																	pos: position{line: 2915, col: 10, offset: 93117},
 																	run: (*parser).callonDocumentHeader34,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2903, col: 10, offset: 92601},
+																		pos:        position{line: 2915, col: 10, offset: 93117},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16522,28 +16522,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2925, col: 8, offset: 92999},
+																pos: position{line: 2937, col: 8, offset: 93515},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2912, col: 12, offset: 92772},
+																		pos: position{line: 2924, col: 12, offset: 93288},
 																		run: (*parser).callonDocumentHeader37,
 																		expr: &choiceExpr{
-																			pos: position{line: 2912, col: 13, offset: 92773},
+																			pos: position{line: 2924, col: 13, offset: 93289},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2912, col: 13, offset: 92773},
+																					pos:        position{line: 2924, col: 13, offset: 93289},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2912, col: 20, offset: 92780},
+																					pos:        position{line: 2924, col: 20, offset: 93296},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2912, col: 29, offset: 92789},
+																					pos:        position{line: 2924, col: 29, offset: 93305},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -16552,9 +16552,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2922, col: 8, offset: 92949},
+																		pos: position{line: 2934, col: 8, offset: 93465},
 																		expr: &anyMatcher{
-																			line: 2922, col: 9, offset: 92950,
+																			line: 2934, col: 9, offset: 93466,
 																		},
 																	},
 																},
@@ -16615,10 +16615,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 743, col: 8, offset: 23745},
 																								expr: &actionExpr{
-																									pos: position{line: 2903, col: 10, offset: 92601},
+																									pos: position{line: 2915, col: 10, offset: 93117},
 																									run: (*parser).callonDocumentHeader59,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2903, col: 10, offset: 92601},
+																										pos:        position{line: 2915, col: 10, offset: 93117},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -16627,28 +16627,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2925, col: 8, offset: 92999},
+																								pos: position{line: 2937, col: 8, offset: 93515},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2912, col: 12, offset: 92772},
+																										pos: position{line: 2924, col: 12, offset: 93288},
 																										run: (*parser).callonDocumentHeader62,
 																										expr: &choiceExpr{
-																											pos: position{line: 2912, col: 13, offset: 92773},
+																											pos: position{line: 2924, col: 13, offset: 93289},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2912, col: 13, offset: 92773},
+																													pos:        position{line: 2924, col: 13, offset: 93289},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2912, col: 20, offset: 92780},
+																													pos:        position{line: 2924, col: 20, offset: 93296},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2912, col: 29, offset: 92789},
+																													pos:        position{line: 2924, col: 29, offset: 93305},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -16657,9 +16657,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2922, col: 8, offset: 92949},
+																										pos: position{line: 2934, col: 8, offset: 93465},
 																										expr: &anyMatcher{
-																											line: 2922, col: 9, offset: 92950,
+																											line: 2934, col: 9, offset: 93466,
 																										},
 																									},
 																								},
@@ -16668,9 +16668,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2922, col: 8, offset: 92949},
+																					pos: position{line: 2934, col: 8, offset: 93465},
 																					expr: &anyMatcher{
-																						line: 2922, col: 9, offset: 92950,
+																						line: 2934, col: 9, offset: 93466,
 																					},
 																				},
 																			},
@@ -16686,21 +16686,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2920, col: 11, offset: 92935},
+																						pos: position{line: 2932, col: 11, offset: 93451},
 																						expr: &anyMatcher{
-																							line: 2920, col: 13, offset: 92937,
+																							line: 2932, col: 13, offset: 93453,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2849, col: 13, offset: 91127},
+																							pos: position{line: 2861, col: 13, offset: 91643},
 																							run: (*parser).callonDocumentHeader77,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2849, col: 13, offset: 91127},
+																								pos: position{line: 2861, col: 13, offset: 91643},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2849, col: 13, offset: 91127},
+																									pos:        position{line: 2861, col: 13, offset: 91643},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16710,28 +16710,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2925, col: 8, offset: 92999},
+																						pos: position{line: 2937, col: 8, offset: 93515},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2912, col: 12, offset: 92772},
+																								pos: position{line: 2924, col: 12, offset: 93288},
 																								run: (*parser).callonDocumentHeader81,
 																								expr: &choiceExpr{
-																									pos: position{line: 2912, col: 13, offset: 92773},
+																									pos: position{line: 2924, col: 13, offset: 93289},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 13, offset: 92773},
+																											pos:        position{line: 2924, col: 13, offset: 93289},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 20, offset: 92780},
+																											pos:        position{line: 2924, col: 20, offset: 93296},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 29, offset: 92789},
+																											pos:        position{line: 2924, col: 29, offset: 93305},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16740,9 +16740,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2922, col: 8, offset: 92949},
+																								pos: position{line: 2934, col: 8, offset: 93465},
 																								expr: &anyMatcher{
-																									line: 2922, col: 9, offset: 92950,
+																									line: 2934, col: 9, offset: 93466,
 																								},
 																							},
 																						},
@@ -16798,10 +16798,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 743, col: 8, offset: 23745},
 																			expr: &actionExpr{
-																				pos: position{line: 2903, col: 10, offset: 92601},
+																				pos: position{line: 2915, col: 10, offset: 93117},
 																				run: (*parser).callonDocumentHeader99,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2903, col: 10, offset: 92601},
+																					pos:        position{line: 2915, col: 10, offset: 93117},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -16810,28 +16810,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2925, col: 8, offset: 92999},
+																			pos: position{line: 2937, col: 8, offset: 93515},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2912, col: 12, offset: 92772},
+																					pos: position{line: 2924, col: 12, offset: 93288},
 																					run: (*parser).callonDocumentHeader102,
 																					expr: &choiceExpr{
-																						pos: position{line: 2912, col: 13, offset: 92773},
+																						pos: position{line: 2924, col: 13, offset: 93289},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2912, col: 13, offset: 92773},
+																								pos:        position{line: 2924, col: 13, offset: 93289},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2912, col: 20, offset: 92780},
+																								pos:        position{line: 2924, col: 20, offset: 93296},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2912, col: 29, offset: 92789},
+																								pos:        position{line: 2924, col: 29, offset: 93305},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -16840,9 +16840,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2922, col: 8, offset: 92949},
+																					pos: position{line: 2934, col: 8, offset: 93465},
 																					expr: &anyMatcher{
-																						line: 2922, col: 9, offset: 92950,
+																						line: 2934, col: 9, offset: 93466,
 																					},
 																				},
 																			},
@@ -16851,9 +16851,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2922, col: 8, offset: 92949},
+																pos: position{line: 2934, col: 8, offset: 93465},
 																expr: &anyMatcher{
-																	line: 2922, col: 9, offset: 92950,
+																	line: 2934, col: 9, offset: 93466,
 																},
 															},
 														},
@@ -16879,36 +16879,36 @@ var g = &grammar{
 								pos: position{line: 1107, col: 6, offset: 33995},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2503, col: 22, offset: 81294},
+										pos: position{line: 2515, col: 22, offset: 81810},
 										run: (*parser).callonDocumentHeader115,
 										expr: &seqExpr{
-											pos: position{line: 2503, col: 22, offset: 81294},
+											pos: position{line: 2515, col: 22, offset: 81810},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2508, col: 31, offset: 81515},
+													pos:        position{line: 2520, col: 31, offset: 82031},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2508, col: 36, offset: 81520},
+													pos: position{line: 2520, col: 36, offset: 82036},
 													expr: &litMatcher{
-														pos:        position{line: 2508, col: 37, offset: 81521},
+														pos:        position{line: 2520, col: 37, offset: 82037},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2503, col: 49, offset: 81321},
+													pos:   position{line: 2515, col: 49, offset: 81837},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2849, col: 13, offset: 91127},
+														pos: position{line: 2861, col: 13, offset: 91643},
 														run: (*parser).callonDocumentHeader121,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2849, col: 13, offset: 91127},
+															pos: position{line: 2861, col: 13, offset: 91643},
 															expr: &charClassMatcher{
-																pos:        position{line: 2849, col: 13, offset: 91127},
+																pos:        position{line: 2861, col: 13, offset: 91643},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16918,28 +16918,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2925, col: 8, offset: 92999},
+													pos: position{line: 2937, col: 8, offset: 93515},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2912, col: 12, offset: 92772},
+															pos: position{line: 2924, col: 12, offset: 93288},
 															run: (*parser).callonDocumentHeader125,
 															expr: &choiceExpr{
-																pos: position{line: 2912, col: 13, offset: 92773},
+																pos: position{line: 2924, col: 13, offset: 93289},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2912, col: 13, offset: 92773},
+																		pos:        position{line: 2924, col: 13, offset: 93289},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2912, col: 20, offset: 92780},
+																		pos:        position{line: 2924, col: 20, offset: 93296},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2912, col: 29, offset: 92789},
+																		pos:        position{line: 2924, col: 29, offset: 93305},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16948,9 +16948,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2922, col: 8, offset: 92949},
+															pos: position{line: 2934, col: 8, offset: 93465},
 															expr: &anyMatcher{
-																line: 2922, col: 9, offset: 92950,
+																line: 2934, col: 9, offset: 93466,
 															},
 														},
 													},
@@ -17001,10 +17001,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 743, col: 8, offset: 23745},
 																expr: &actionExpr{
-																	pos: position{line: 2903, col: 10, offset: 92601},
+																	pos: position{line: 2915, col: 10, offset: 93117},
 																	run: (*parser).callonDocumentHeader143,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2903, col: 10, offset: 92601},
+																		pos:        position{line: 2915, col: 10, offset: 93117},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17013,28 +17013,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2925, col: 8, offset: 92999},
+																pos: position{line: 2937, col: 8, offset: 93515},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2912, col: 12, offset: 92772},
+																		pos: position{line: 2924, col: 12, offset: 93288},
 																		run: (*parser).callonDocumentHeader146,
 																		expr: &choiceExpr{
-																			pos: position{line: 2912, col: 13, offset: 92773},
+																			pos: position{line: 2924, col: 13, offset: 93289},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2912, col: 13, offset: 92773},
+																					pos:        position{line: 2924, col: 13, offset: 93289},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2912, col: 20, offset: 92780},
+																					pos:        position{line: 2924, col: 20, offset: 93296},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2912, col: 29, offset: 92789},
+																					pos:        position{line: 2924, col: 29, offset: 93305},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17043,9 +17043,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2922, col: 8, offset: 92949},
+																		pos: position{line: 2934, col: 8, offset: 93465},
 																		expr: &anyMatcher{
-																			line: 2922, col: 9, offset: 92950,
+																			line: 2934, col: 9, offset: 93466,
 																		},
 																	},
 																},
@@ -17106,10 +17106,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 743, col: 8, offset: 23745},
 																								expr: &actionExpr{
-																									pos: position{line: 2903, col: 10, offset: 92601},
+																									pos: position{line: 2915, col: 10, offset: 93117},
 																									run: (*parser).callonDocumentHeader168,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2903, col: 10, offset: 92601},
+																										pos:        position{line: 2915, col: 10, offset: 93117},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -17118,28 +17118,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2925, col: 8, offset: 92999},
+																								pos: position{line: 2937, col: 8, offset: 93515},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2912, col: 12, offset: 92772},
+																										pos: position{line: 2924, col: 12, offset: 93288},
 																										run: (*parser).callonDocumentHeader171,
 																										expr: &choiceExpr{
-																											pos: position{line: 2912, col: 13, offset: 92773},
+																											pos: position{line: 2924, col: 13, offset: 93289},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2912, col: 13, offset: 92773},
+																													pos:        position{line: 2924, col: 13, offset: 93289},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2912, col: 20, offset: 92780},
+																													pos:        position{line: 2924, col: 20, offset: 93296},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2912, col: 29, offset: 92789},
+																													pos:        position{line: 2924, col: 29, offset: 93305},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -17148,9 +17148,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2922, col: 8, offset: 92949},
+																										pos: position{line: 2934, col: 8, offset: 93465},
 																										expr: &anyMatcher{
-																											line: 2922, col: 9, offset: 92950,
+																											line: 2934, col: 9, offset: 93466,
 																										},
 																									},
 																								},
@@ -17159,9 +17159,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2922, col: 8, offset: 92949},
+																					pos: position{line: 2934, col: 8, offset: 93465},
 																					expr: &anyMatcher{
-																						line: 2922, col: 9, offset: 92950,
+																						line: 2934, col: 9, offset: 93466,
 																					},
 																				},
 																			},
@@ -17177,21 +17177,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2920, col: 11, offset: 92935},
+																						pos: position{line: 2932, col: 11, offset: 93451},
 																						expr: &anyMatcher{
-																							line: 2920, col: 13, offset: 92937,
+																							line: 2932, col: 13, offset: 93453,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2849, col: 13, offset: 91127},
+																							pos: position{line: 2861, col: 13, offset: 91643},
 																							run: (*parser).callonDocumentHeader186,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2849, col: 13, offset: 91127},
+																								pos: position{line: 2861, col: 13, offset: 91643},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2849, col: 13, offset: 91127},
+																									pos:        position{line: 2861, col: 13, offset: 91643},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17201,28 +17201,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2925, col: 8, offset: 92999},
+																						pos: position{line: 2937, col: 8, offset: 93515},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2912, col: 12, offset: 92772},
+																								pos: position{line: 2924, col: 12, offset: 93288},
 																								run: (*parser).callonDocumentHeader190,
 																								expr: &choiceExpr{
-																									pos: position{line: 2912, col: 13, offset: 92773},
+																									pos: position{line: 2924, col: 13, offset: 93289},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 13, offset: 92773},
+																											pos:        position{line: 2924, col: 13, offset: 93289},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 20, offset: 92780},
+																											pos:        position{line: 2924, col: 20, offset: 93296},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 29, offset: 92789},
+																											pos:        position{line: 2924, col: 29, offset: 93305},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17231,9 +17231,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2922, col: 8, offset: 92949},
+																								pos: position{line: 2934, col: 8, offset: 93465},
 																								expr: &anyMatcher{
-																									line: 2922, col: 9, offset: 92950,
+																									line: 2934, col: 9, offset: 93466,
 																								},
 																							},
 																						},
@@ -17289,10 +17289,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 743, col: 8, offset: 23745},
 																			expr: &actionExpr{
-																				pos: position{line: 2903, col: 10, offset: 92601},
+																				pos: position{line: 2915, col: 10, offset: 93117},
 																				run: (*parser).callonDocumentHeader208,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2903, col: 10, offset: 92601},
+																					pos:        position{line: 2915, col: 10, offset: 93117},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -17301,28 +17301,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2925, col: 8, offset: 92999},
+																			pos: position{line: 2937, col: 8, offset: 93515},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2912, col: 12, offset: 92772},
+																					pos: position{line: 2924, col: 12, offset: 93288},
 																					run: (*parser).callonDocumentHeader211,
 																					expr: &choiceExpr{
-																						pos: position{line: 2912, col: 13, offset: 92773},
+																						pos: position{line: 2924, col: 13, offset: 93289},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2912, col: 13, offset: 92773},
+																								pos:        position{line: 2924, col: 13, offset: 93289},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2912, col: 20, offset: 92780},
+																								pos:        position{line: 2924, col: 20, offset: 93296},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2912, col: 29, offset: 92789},
+																								pos:        position{line: 2924, col: 29, offset: 93305},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -17331,9 +17331,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2922, col: 8, offset: 92949},
+																					pos: position{line: 2934, col: 8, offset: 93465},
 																					expr: &anyMatcher{
-																						line: 2922, col: 9, offset: 92950,
+																						line: 2934, col: 9, offset: 93466,
 																					},
 																				},
 																			},
@@ -17342,9 +17342,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2922, col: 8, offset: 92949},
+																pos: position{line: 2934, col: 8, offset: 93465},
 																expr: &anyMatcher{
-																	line: 2922, col: 9, offset: 92950,
+																	line: 2934, col: 9, offset: 93466,
 																},
 															},
 														},
@@ -17388,10 +17388,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1126, col: 20, offset: 34750},
 																expr: &actionExpr{
-																	pos: position{line: 2903, col: 10, offset: 92601},
+																	pos: position{line: 2915, col: 10, offset: 93117},
 																	run: (*parser).callonDocumentHeader230,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2903, col: 10, offset: 92601},
+																		pos:        position{line: 2915, col: 10, offset: 93117},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17442,10 +17442,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1145, col: 5, offset: 35355},
 																										expr: &actionExpr{
-																											pos: position{line: 2903, col: 10, offset: 92601},
+																											pos: position{line: 2915, col: 10, offset: 93117},
 																											run: (*parser).callonDocumentHeader245,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2903, col: 10, offset: 92601},
+																												pos:        position{line: 2915, col: 10, offset: 93117},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17477,10 +17477,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1149, col: 5, offset: 35454},
 																										expr: &actionExpr{
-																											pos: position{line: 2903, col: 10, offset: 92601},
+																											pos: position{line: 2915, col: 10, offset: 93117},
 																											run: (*parser).callonDocumentHeader253,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2903, col: 10, offset: 92601},
+																												pos:        position{line: 2915, col: 10, offset: 93117},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17512,10 +17512,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1153, col: 5, offset: 35551},
 																										expr: &actionExpr{
-																											pos: position{line: 2903, col: 10, offset: 92601},
+																											pos: position{line: 2915, col: 10, offset: 93117},
 																											run: (*parser).callonDocumentHeader261,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2903, col: 10, offset: 92601},
+																												pos:        position{line: 2915, col: 10, offset: 93117},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17540,9 +17540,9 @@ var g = &grammar{
 																								pos: position{line: 1159, col: 5, offset: 35673},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2920, col: 11, offset: 92935},
+																										pos: position{line: 2932, col: 11, offset: 93451},
 																										expr: &anyMatcher{
-																											line: 2920, col: 13, offset: 92937,
+																											line: 2932, col: 13, offset: 93453,
 																										},
 																									},
 																									&litMatcher{
@@ -17583,10 +17583,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1131, col: 69, offset: 34943},
 																					expr: &actionExpr{
-																						pos: position{line: 2903, col: 10, offset: 92601},
+																						pos: position{line: 2915, col: 10, offset: 93117},
 																						run: (*parser).callonDocumentHeader276,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2903, col: 10, offset: 92601},
+																							pos:        position{line: 2915, col: 10, offset: 93117},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17606,10 +17606,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1131, col: 81, offset: 34955},
 																					expr: &actionExpr{
-																						pos: position{line: 2903, col: 10, offset: 92601},
+																						pos: position{line: 2915, col: 10, offset: 93117},
 																						run: (*parser).callonDocumentHeader281,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2903, col: 10, offset: 92601},
+																							pos:        position{line: 2915, col: 10, offset: 93117},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17627,28 +17627,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2925, col: 8, offset: 92999},
+																pos: position{line: 2937, col: 8, offset: 93515},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2912, col: 12, offset: 92772},
+																		pos: position{line: 2924, col: 12, offset: 93288},
 																		run: (*parser).callonDocumentHeader285,
 																		expr: &choiceExpr{
-																			pos: position{line: 2912, col: 13, offset: 92773},
+																			pos: position{line: 2924, col: 13, offset: 93289},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2912, col: 13, offset: 92773},
+																					pos:        position{line: 2924, col: 13, offset: 93289},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2912, col: 20, offset: 92780},
+																					pos:        position{line: 2924, col: 20, offset: 93296},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2912, col: 29, offset: 92789},
+																					pos:        position{line: 2924, col: 29, offset: 93305},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17657,9 +17657,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2922, col: 8, offset: 92949},
+																		pos: position{line: 2934, col: 8, offset: 93465},
 																		expr: &anyMatcher{
-																			line: 2922, col: 9, offset: 92950,
+																			line: 2934, col: 9, offset: 93466,
 																		},
 																	},
 																},
@@ -17674,36 +17674,36 @@ var g = &grammar{
 													pos: position{line: 1121, col: 6, offset: 34525},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2503, col: 22, offset: 81294},
+															pos: position{line: 2515, col: 22, offset: 81810},
 															run: (*parser).callonDocumentHeader294,
 															expr: &seqExpr{
-																pos: position{line: 2503, col: 22, offset: 81294},
+																pos: position{line: 2515, col: 22, offset: 81810},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2508, col: 31, offset: 81515},
+																		pos:        position{line: 2520, col: 31, offset: 82031},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2508, col: 36, offset: 81520},
+																		pos: position{line: 2520, col: 36, offset: 82036},
 																		expr: &litMatcher{
-																			pos:        position{line: 2508, col: 37, offset: 81521},
+																			pos:        position{line: 2520, col: 37, offset: 82037},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2503, col: 49, offset: 81321},
+																		pos:   position{line: 2515, col: 49, offset: 81837},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2849, col: 13, offset: 91127},
+																			pos: position{line: 2861, col: 13, offset: 91643},
 																			run: (*parser).callonDocumentHeader300,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2849, col: 13, offset: 91127},
+																				pos: position{line: 2861, col: 13, offset: 91643},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2849, col: 13, offset: 91127},
+																					pos:        position{line: 2861, col: 13, offset: 91643},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -17713,28 +17713,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2925, col: 8, offset: 92999},
+																		pos: position{line: 2937, col: 8, offset: 93515},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2912, col: 12, offset: 92772},
+																				pos: position{line: 2924, col: 12, offset: 93288},
 																				run: (*parser).callonDocumentHeader304,
 																				expr: &choiceExpr{
-																					pos: position{line: 2912, col: 13, offset: 92773},
+																					pos: position{line: 2924, col: 13, offset: 93289},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 13, offset: 92773},
+																							pos:        position{line: 2924, col: 13, offset: 93289},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 20, offset: 92780},
+																							pos:        position{line: 2924, col: 20, offset: 93296},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 29, offset: 92789},
+																							pos:        position{line: 2924, col: 29, offset: 93305},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -17743,9 +17743,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2922, col: 8, offset: 92949},
+																				pos: position{line: 2934, col: 8, offset: 93465},
 																				expr: &anyMatcher{
-																					line: 2922, col: 9, offset: 92950,
+																					line: 2934, col: 9, offset: 93466,
 																				},
 																			},
 																		},
@@ -17796,10 +17796,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 743, col: 8, offset: 23745},
 																					expr: &actionExpr{
-																						pos: position{line: 2903, col: 10, offset: 92601},
+																						pos: position{line: 2915, col: 10, offset: 93117},
 																						run: (*parser).callonDocumentHeader322,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2903, col: 10, offset: 92601},
+																							pos:        position{line: 2915, col: 10, offset: 93117},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17808,28 +17808,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2925, col: 8, offset: 92999},
+																					pos: position{line: 2937, col: 8, offset: 93515},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2912, col: 12, offset: 92772},
+																							pos: position{line: 2924, col: 12, offset: 93288},
 																							run: (*parser).callonDocumentHeader325,
 																							expr: &choiceExpr{
-																								pos: position{line: 2912, col: 13, offset: 92773},
+																								pos: position{line: 2924, col: 13, offset: 93289},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2912, col: 13, offset: 92773},
+																										pos:        position{line: 2924, col: 13, offset: 93289},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2912, col: 20, offset: 92780},
+																										pos:        position{line: 2924, col: 20, offset: 93296},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2912, col: 29, offset: 92789},
+																										pos:        position{line: 2924, col: 29, offset: 93305},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -17838,9 +17838,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2922, col: 8, offset: 92949},
+																							pos: position{line: 2934, col: 8, offset: 93465},
 																							expr: &anyMatcher{
-																								line: 2922, col: 9, offset: 92950,
+																								line: 2934, col: 9, offset: 93466,
 																							},
 																						},
 																					},
@@ -17901,10 +17901,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 743, col: 8, offset: 23745},
 																													expr: &actionExpr{
-																														pos: position{line: 2903, col: 10, offset: 92601},
+																														pos: position{line: 2915, col: 10, offset: 93117},
 																														run: (*parser).callonDocumentHeader347,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2903, col: 10, offset: 92601},
+																															pos:        position{line: 2915, col: 10, offset: 93117},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -17913,28 +17913,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2925, col: 8, offset: 92999},
+																													pos: position{line: 2937, col: 8, offset: 93515},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2912, col: 12, offset: 92772},
+																															pos: position{line: 2924, col: 12, offset: 93288},
 																															run: (*parser).callonDocumentHeader350,
 																															expr: &choiceExpr{
-																																pos: position{line: 2912, col: 13, offset: 92773},
+																																pos: position{line: 2924, col: 13, offset: 93289},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2912, col: 13, offset: 92773},
+																																		pos:        position{line: 2924, col: 13, offset: 93289},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2912, col: 20, offset: 92780},
+																																		pos:        position{line: 2924, col: 20, offset: 93296},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2912, col: 29, offset: 92789},
+																																		pos:        position{line: 2924, col: 29, offset: 93305},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -17943,9 +17943,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2922, col: 8, offset: 92949},
+																															pos: position{line: 2934, col: 8, offset: 93465},
 																															expr: &anyMatcher{
-																																line: 2922, col: 9, offset: 92950,
+																																line: 2934, col: 9, offset: 93466,
 																															},
 																														},
 																													},
@@ -17954,9 +17954,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2922, col: 8, offset: 92949},
+																										pos: position{line: 2934, col: 8, offset: 93465},
 																										expr: &anyMatcher{
-																											line: 2922, col: 9, offset: 92950,
+																											line: 2934, col: 9, offset: 93466,
 																										},
 																									},
 																								},
@@ -17972,21 +17972,21 @@ var g = &grammar{
 																									pos: position{line: 812, col: 5, offset: 26152},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2920, col: 11, offset: 92935},
+																											pos: position{line: 2932, col: 11, offset: 93451},
 																											expr: &anyMatcher{
-																												line: 2920, col: 13, offset: 92937,
+																												line: 2932, col: 13, offset: 93453,
 																											},
 																										},
 																										&labeledExpr{
 																											pos:   position{line: 813, col: 5, offset: 26227},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2849, col: 13, offset: 91127},
+																												pos: position{line: 2861, col: 13, offset: 91643},
 																												run: (*parser).callonDocumentHeader365,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2849, col: 13, offset: 91127},
+																													pos: position{line: 2861, col: 13, offset: 91643},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2849, col: 13, offset: 91127},
+																														pos:        position{line: 2861, col: 13, offset: 91643},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -17996,28 +17996,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2925, col: 8, offset: 92999},
+																											pos: position{line: 2937, col: 8, offset: 93515},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2912, col: 12, offset: 92772},
+																													pos: position{line: 2924, col: 12, offset: 93288},
 																													run: (*parser).callonDocumentHeader369,
 																													expr: &choiceExpr{
-																														pos: position{line: 2912, col: 13, offset: 92773},
+																														pos: position{line: 2924, col: 13, offset: 93289},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 13, offset: 92773},
+																																pos:        position{line: 2924, col: 13, offset: 93289},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 20, offset: 92780},
+																																pos:        position{line: 2924, col: 20, offset: 93296},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 29, offset: 92789},
+																																pos:        position{line: 2924, col: 29, offset: 93305},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18026,9 +18026,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2922, col: 8, offset: 92949},
+																													pos: position{line: 2934, col: 8, offset: 93465},
 																													expr: &anyMatcher{
-																														line: 2922, col: 9, offset: 92950,
+																														line: 2934, col: 9, offset: 93466,
 																													},
 																												},
 																											},
@@ -18084,10 +18084,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 743, col: 8, offset: 23745},
 																								expr: &actionExpr{
-																									pos: position{line: 2903, col: 10, offset: 92601},
+																									pos: position{line: 2915, col: 10, offset: 93117},
 																									run: (*parser).callonDocumentHeader387,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2903, col: 10, offset: 92601},
+																										pos:        position{line: 2915, col: 10, offset: 93117},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -18096,28 +18096,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2925, col: 8, offset: 92999},
+																								pos: position{line: 2937, col: 8, offset: 93515},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2912, col: 12, offset: 92772},
+																										pos: position{line: 2924, col: 12, offset: 93288},
 																										run: (*parser).callonDocumentHeader390,
 																										expr: &choiceExpr{
-																											pos: position{line: 2912, col: 13, offset: 92773},
+																											pos: position{line: 2924, col: 13, offset: 93289},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2912, col: 13, offset: 92773},
+																													pos:        position{line: 2924, col: 13, offset: 93289},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2912, col: 20, offset: 92780},
+																													pos:        position{line: 2924, col: 20, offset: 93296},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2912, col: 29, offset: 92789},
+																													pos:        position{line: 2924, col: 29, offset: 93305},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -18126,9 +18126,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2922, col: 8, offset: 92949},
+																										pos: position{line: 2934, col: 8, offset: 93465},
 																										expr: &anyMatcher{
-																											line: 2922, col: 9, offset: 92950,
+																											line: 2934, col: 9, offset: 93466,
 																										},
 																									},
 																								},
@@ -18137,9 +18137,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2922, col: 8, offset: 92949},
+																					pos: position{line: 2934, col: 8, offset: 93465},
 																					expr: &anyMatcher{
-																						line: 2922, col: 9, offset: 92950,
+																						line: 2934, col: 9, offset: 93466,
 																					},
 																				},
 																			},
@@ -18165,10 +18165,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1170, col: 21, offset: 35951},
 																	expr: &actionExpr{
-																		pos: position{line: 2903, col: 10, offset: 92601},
+																		pos: position{line: 2915, col: 10, offset: 93117},
 																		run: (*parser).callonDocumentHeader404,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2903, col: 10, offset: 92601},
+																			pos:        position{line: 2915, col: 10, offset: 93117},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18270,10 +18270,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 1182, col: 28, offset: 36582},
 																													expr: &actionExpr{
-																														pos: position{line: 2903, col: 10, offset: 92601},
+																														pos: position{line: 2915, col: 10, offset: 93117},
 																														run: (*parser).callonDocumentHeader428,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2903, col: 10, offset: 92601},
+																															pos:        position{line: 2915, col: 10, offset: 93117},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -18420,28 +18420,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2925, col: 8, offset: 92999},
+																	pos: position{line: 2937, col: 8, offset: 93515},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2912, col: 12, offset: 92772},
+																			pos: position{line: 2924, col: 12, offset: 93288},
 																			run: (*parser).callonDocumentHeader460,
 																			expr: &choiceExpr{
-																				pos: position{line: 2912, col: 13, offset: 92773},
+																				pos: position{line: 2924, col: 13, offset: 93289},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 13, offset: 92773},
+																						pos:        position{line: 2924, col: 13, offset: 93289},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 20, offset: 92780},
+																						pos:        position{line: 2924, col: 20, offset: 93296},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 29, offset: 92789},
+																						pos:        position{line: 2924, col: 29, offset: 93305},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18450,9 +18450,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2922, col: 8, offset: 92949},
+																			pos: position{line: 2934, col: 8, offset: 93465},
 																			expr: &anyMatcher{
-																				line: 2922, col: 9, offset: 92950,
+																				line: 2934, col: 9, offset: 93466,
 																			},
 																		},
 																	},
@@ -18532,10 +18532,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 359, col: 49, offset: 10879},
 														expr: &actionExpr{
-															pos: position{line: 2903, col: 10, offset: 92601},
+															pos: position{line: 2915, col: 10, offset: 93117},
 															run: (*parser).callonDocumentHeader482,
 															expr: &charClassMatcher{
-																pos:        position{line: 2903, col: 10, offset: 92601},
+																pos:        position{line: 2915, col: 10, offset: 93117},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18544,28 +18544,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2925, col: 8, offset: 92999},
+														pos: position{line: 2937, col: 8, offset: 93515},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2912, col: 12, offset: 92772},
+																pos: position{line: 2924, col: 12, offset: 93288},
 																run: (*parser).callonDocumentHeader485,
 																expr: &choiceExpr{
-																	pos: position{line: 2912, col: 13, offset: 92773},
+																	pos: position{line: 2924, col: 13, offset: 93289},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2912, col: 13, offset: 92773},
+																			pos:        position{line: 2924, col: 13, offset: 93289},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2912, col: 20, offset: 92780},
+																			pos:        position{line: 2924, col: 20, offset: 93296},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2912, col: 29, offset: 92789},
+																			pos:        position{line: 2924, col: 29, offset: 93305},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18574,9 +18574,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2922, col: 8, offset: 92949},
+																pos: position{line: 2934, col: 8, offset: 93465},
 																expr: &anyMatcher{
-																	line: 2922, col: 9, offset: 92950,
+																	line: 2934, col: 9, offset: 93466,
 																},
 															},
 														},
@@ -18637,10 +18637,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 361, col: 39, offset: 11000},
 														expr: &actionExpr{
-															pos: position{line: 2903, col: 10, offset: 92601},
+															pos: position{line: 2915, col: 10, offset: 93117},
 															run: (*parser).callonDocumentHeader503,
 															expr: &charClassMatcher{
-																pos:        position{line: 2903, col: 10, offset: 92601},
+																pos:        position{line: 2915, col: 10, offset: 93117},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18649,28 +18649,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2925, col: 8, offset: 92999},
+														pos: position{line: 2937, col: 8, offset: 93515},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2912, col: 12, offset: 92772},
+																pos: position{line: 2924, col: 12, offset: 93288},
 																run: (*parser).callonDocumentHeader506,
 																expr: &choiceExpr{
-																	pos: position{line: 2912, col: 13, offset: 92773},
+																	pos: position{line: 2924, col: 13, offset: 93289},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2912, col: 13, offset: 92773},
+																			pos:        position{line: 2924, col: 13, offset: 93289},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2912, col: 20, offset: 92780},
+																			pos:        position{line: 2924, col: 20, offset: 93296},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2912, col: 29, offset: 92789},
+																			pos:        position{line: 2924, col: 29, offset: 93305},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18679,9 +18679,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2922, col: 8, offset: 92949},
+																pos: position{line: 2934, col: 8, offset: 93465},
 																expr: &anyMatcher{
-																	line: 2922, col: 9, offset: 92950,
+																	line: 2934, col: 9, offset: 93466,
 																},
 															},
 														},
@@ -18690,36 +18690,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2503, col: 22, offset: 81294},
+											pos: position{line: 2515, col: 22, offset: 81810},
 											run: (*parser).callonDocumentHeader513,
 											expr: &seqExpr{
-												pos: position{line: 2503, col: 22, offset: 81294},
+												pos: position{line: 2515, col: 22, offset: 81810},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2508, col: 31, offset: 81515},
+														pos:        position{line: 2520, col: 31, offset: 82031},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2508, col: 36, offset: 81520},
+														pos: position{line: 2520, col: 36, offset: 82036},
 														expr: &litMatcher{
-															pos:        position{line: 2508, col: 37, offset: 81521},
+															pos:        position{line: 2520, col: 37, offset: 82037},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2503, col: 49, offset: 81321},
+														pos:   position{line: 2515, col: 49, offset: 81837},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2849, col: 13, offset: 91127},
+															pos: position{line: 2861, col: 13, offset: 91643},
 															run: (*parser).callonDocumentHeader519,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2849, col: 13, offset: 91127},
+																pos: position{line: 2861, col: 13, offset: 91643},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2849, col: 13, offset: 91127},
+																	pos:        position{line: 2861, col: 13, offset: 91643},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -18729,28 +18729,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2925, col: 8, offset: 92999},
+														pos: position{line: 2937, col: 8, offset: 93515},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2912, col: 12, offset: 92772},
+																pos: position{line: 2924, col: 12, offset: 93288},
 																run: (*parser).callonDocumentHeader523,
 																expr: &choiceExpr{
-																	pos: position{line: 2912, col: 13, offset: 92773},
+																	pos: position{line: 2924, col: 13, offset: 93289},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2912, col: 13, offset: 92773},
+																			pos:        position{line: 2924, col: 13, offset: 93289},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2912, col: 20, offset: 92780},
+																			pos:        position{line: 2924, col: 20, offset: 93296},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2912, col: 29, offset: 92789},
+																			pos:        position{line: 2924, col: 29, offset: 93305},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18759,9 +18759,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2922, col: 8, offset: 92949},
+																pos: position{line: 2934, col: 8, offset: 93465},
 																expr: &anyMatcher{
-																	line: 2922, col: 9, offset: 92950,
+																	line: 2934, col: 9, offset: 93466,
 																},
 															},
 														},
@@ -18812,10 +18812,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 743, col: 8, offset: 23745},
 																	expr: &actionExpr{
-																		pos: position{line: 2903, col: 10, offset: 92601},
+																		pos: position{line: 2915, col: 10, offset: 93117},
 																		run: (*parser).callonDocumentHeader541,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2903, col: 10, offset: 92601},
+																			pos:        position{line: 2915, col: 10, offset: 93117},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18824,28 +18824,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2925, col: 8, offset: 92999},
+																	pos: position{line: 2937, col: 8, offset: 93515},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2912, col: 12, offset: 92772},
+																			pos: position{line: 2924, col: 12, offset: 93288},
 																			run: (*parser).callonDocumentHeader544,
 																			expr: &choiceExpr{
-																				pos: position{line: 2912, col: 13, offset: 92773},
+																				pos: position{line: 2924, col: 13, offset: 93289},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 13, offset: 92773},
+																						pos:        position{line: 2924, col: 13, offset: 93289},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 20, offset: 92780},
+																						pos:        position{line: 2924, col: 20, offset: 93296},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 29, offset: 92789},
+																						pos:        position{line: 2924, col: 29, offset: 93305},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18854,9 +18854,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2922, col: 8, offset: 92949},
+																			pos: position{line: 2934, col: 8, offset: 93465},
 																			expr: &anyMatcher{
-																				line: 2922, col: 9, offset: 92950,
+																				line: 2934, col: 9, offset: 93466,
 																			},
 																		},
 																	},
@@ -18917,10 +18917,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 743, col: 8, offset: 23745},
 																									expr: &actionExpr{
-																										pos: position{line: 2903, col: 10, offset: 92601},
+																										pos: position{line: 2915, col: 10, offset: 93117},
 																										run: (*parser).callonDocumentHeader566,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2903, col: 10, offset: 92601},
+																											pos:        position{line: 2915, col: 10, offset: 93117},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -18929,28 +18929,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2925, col: 8, offset: 92999},
+																									pos: position{line: 2937, col: 8, offset: 93515},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2912, col: 12, offset: 92772},
+																											pos: position{line: 2924, col: 12, offset: 93288},
 																											run: (*parser).callonDocumentHeader569,
 																											expr: &choiceExpr{
-																												pos: position{line: 2912, col: 13, offset: 92773},
+																												pos: position{line: 2924, col: 13, offset: 93289},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2912, col: 13, offset: 92773},
+																														pos:        position{line: 2924, col: 13, offset: 93289},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2912, col: 20, offset: 92780},
+																														pos:        position{line: 2924, col: 20, offset: 93296},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2912, col: 29, offset: 92789},
+																														pos:        position{line: 2924, col: 29, offset: 93305},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -18959,9 +18959,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2922, col: 8, offset: 92949},
+																											pos: position{line: 2934, col: 8, offset: 93465},
 																											expr: &anyMatcher{
-																												line: 2922, col: 9, offset: 92950,
+																												line: 2934, col: 9, offset: 93466,
 																											},
 																										},
 																									},
@@ -18970,9 +18970,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2922, col: 8, offset: 92949},
+																						pos: position{line: 2934, col: 8, offset: 93465},
 																						expr: &anyMatcher{
-																							line: 2922, col: 9, offset: 92950,
+																							line: 2934, col: 9, offset: 93466,
 																						},
 																					},
 																				},
@@ -18988,21 +18988,21 @@ var g = &grammar{
 																					pos: position{line: 812, col: 5, offset: 26152},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2920, col: 11, offset: 92935},
+																							pos: position{line: 2932, col: 11, offset: 93451},
 																							expr: &anyMatcher{
-																								line: 2920, col: 13, offset: 92937,
+																								line: 2932, col: 13, offset: 93453,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 813, col: 5, offset: 26227},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2849, col: 13, offset: 91127},
+																								pos: position{line: 2861, col: 13, offset: 91643},
 																								run: (*parser).callonDocumentHeader584,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2849, col: 13, offset: 91127},
+																									pos: position{line: 2861, col: 13, offset: 91643},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2849, col: 13, offset: 91127},
+																										pos:        position{line: 2861, col: 13, offset: 91643},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -19012,28 +19012,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2925, col: 8, offset: 92999},
+																							pos: position{line: 2937, col: 8, offset: 93515},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2912, col: 12, offset: 92772},
+																									pos: position{line: 2924, col: 12, offset: 93288},
 																									run: (*parser).callonDocumentHeader588,
 																									expr: &choiceExpr{
-																										pos: position{line: 2912, col: 13, offset: 92773},
+																										pos: position{line: 2924, col: 13, offset: 93289},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 13, offset: 92773},
+																												pos:        position{line: 2924, col: 13, offset: 93289},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 20, offset: 92780},
+																												pos:        position{line: 2924, col: 20, offset: 93296},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 29, offset: 92789},
+																												pos:        position{line: 2924, col: 29, offset: 93305},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19042,9 +19042,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2922, col: 8, offset: 92949},
+																									pos: position{line: 2934, col: 8, offset: 93465},
 																									expr: &anyMatcher{
-																										line: 2922, col: 9, offset: 92950,
+																										line: 2934, col: 9, offset: 93466,
 																									},
 																								},
 																							},
@@ -19100,10 +19100,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 743, col: 8, offset: 23745},
 																				expr: &actionExpr{
-																					pos: position{line: 2903, col: 10, offset: 92601},
+																					pos: position{line: 2915, col: 10, offset: 93117},
 																					run: (*parser).callonDocumentHeader606,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2903, col: 10, offset: 92601},
+																						pos:        position{line: 2915, col: 10, offset: 93117},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -19112,28 +19112,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2925, col: 8, offset: 92999},
+																				pos: position{line: 2937, col: 8, offset: 93515},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2912, col: 12, offset: 92772},
+																						pos: position{line: 2924, col: 12, offset: 93288},
 																						run: (*parser).callonDocumentHeader609,
 																						expr: &choiceExpr{
-																							pos: position{line: 2912, col: 13, offset: 92773},
+																							pos: position{line: 2924, col: 13, offset: 93289},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2912, col: 13, offset: 92773},
+																									pos:        position{line: 2924, col: 13, offset: 93289},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2912, col: 20, offset: 92780},
+																									pos:        position{line: 2924, col: 20, offset: 93296},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2912, col: 29, offset: 92789},
+																									pos:        position{line: 2924, col: 29, offset: 93305},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -19142,9 +19142,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2922, col: 8, offset: 92949},
+																						pos: position{line: 2934, col: 8, offset: 93465},
 																						expr: &anyMatcher{
-																							line: 2922, col: 9, offset: 92950,
+																							line: 2934, col: 9, offset: 93466,
 																						},
 																					},
 																				},
@@ -19153,9 +19153,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2922, col: 8, offset: 92949},
+																	pos: position{line: 2934, col: 8, offset: 93465},
 																	expr: &anyMatcher{
-																		line: 2922, col: 9, offset: 92950,
+																		line: 2934, col: 9, offset: 93466,
 																	},
 																},
 															},
@@ -19188,12 +19188,12 @@ var g = &grammar{
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2907, col: 11, offset: 92662},
+							pos: position{line: 2919, col: 11, offset: 93178},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2907, col: 11, offset: 92662},
+								pos: position{line: 2919, col: 11, offset: 93178},
 								expr: &charClassMatcher{
-									pos:        position{line: 2907, col: 11, offset: 92662},
+									pos:        position{line: 2919, col: 11, offset: 93178},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19210,28 +19210,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2925, col: 8, offset: 92999},
+							pos: position{line: 2937, col: 8, offset: 93515},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2912, col: 12, offset: 92772},
+									pos: position{line: 2924, col: 12, offset: 93288},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2912, col: 13, offset: 92773},
+										pos: position{line: 2924, col: 13, offset: 93289},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2912, col: 13, offset: 92773},
+												pos:        position{line: 2924, col: 13, offset: 93289},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2912, col: 20, offset: 92780},
+												pos:        position{line: 2924, col: 20, offset: 93296},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2912, col: 29, offset: 92789},
+												pos:        position{line: 2924, col: 29, offset: 93305},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19240,9 +19240,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2922, col: 8, offset: 92949},
+									pos: position{line: 2934, col: 8, offset: 93465},
 									expr: &anyMatcher{
-										line: 2922, col: 9, offset: 92950,
+										line: 2934, col: 9, offset: 93466,
 									},
 								},
 							},
@@ -19281,10 +19281,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1145, col: 5, offset: 35355},
 							expr: &actionExpr{
-								pos: position{line: 2903, col: 10, offset: 92601},
+								pos: position{line: 2915, col: 10, offset: 93117},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2903, col: 10, offset: 92601},
+									pos:        position{line: 2915, col: 10, offset: 93117},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19316,10 +19316,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1149, col: 5, offset: 35454},
 							expr: &actionExpr{
-								pos: position{line: 2903, col: 10, offset: 92601},
+								pos: position{line: 2915, col: 10, offset: 93117},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2903, col: 10, offset: 92601},
+									pos:        position{line: 2915, col: 10, offset: 93117},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19351,10 +19351,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1153, col: 5, offset: 35551},
 							expr: &actionExpr{
-								pos: position{line: 2903, col: 10, offset: 92601},
+								pos: position{line: 2915, col: 10, offset: 93117},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2903, col: 10, offset: 92601},
+									pos:        position{line: 2915, col: 10, offset: 93117},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19420,12 +19420,12 @@ var g = &grammar{
 							pos:   position{line: 1285, col: 13, offset: 39899},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2888, col: 7, offset: 92253},
+								pos: position{line: 2900, col: 7, offset: 92769},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2888, col: 7, offset: 92253},
+									pos: position{line: 2900, col: 7, offset: 92769},
 									expr: &charClassMatcher{
-										pos:        position{line: 2888, col: 7, offset: 92253},
+										pos:        position{line: 2900, col: 7, offset: 92769},
 										val:        "[^[]<>,\\r\\n]",
 										chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 										ignoreCase: false,
@@ -19494,12 +19494,12 @@ var g = &grammar{
 							pos: position{line: 1296, col: 31, offset: 40359},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2790, col: 14, offset: 89556},
+									pos: position{line: 2802, col: 14, offset: 90072},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2790, col: 14, offset: 89556},
+										pos: position{line: 2802, col: 14, offset: 90072},
 										expr: &charClassMatcher{
-											pos:        position{line: 2790, col: 14, offset: 89556},
+											pos:        position{line: 2802, col: 14, offset: 90072},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -19512,10 +19512,10 @@ var g = &grammar{
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2903, col: 10, offset: 92601},
+									pos: position{line: 2915, col: 10, offset: 93117},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2903, col: 10, offset: 92601},
+										pos:        position{line: 2915, col: 10, offset: 93117},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -19523,23 +19523,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2490, col: 5, offset: 80840},
+									pos: position{line: 2502, col: 5, offset: 81356},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2490, col: 5, offset: 80840},
+										pos: position{line: 2502, col: 5, offset: 81356},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2490, col: 5, offset: 80840},
+												pos: position{line: 2502, col: 5, offset: 81356},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2493, col: 5, offset: 80916},
+												pos:   position{line: 2505, col: 5, offset: 81432},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2494, col: 9, offset: 80934},
+													pos: position{line: 2506, col: 9, offset: 81450},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2494, col: 10, offset: 80935},
+														pos:        position{line: 2506, col: 10, offset: 81451},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -19633,10 +19633,10 @@ var g = &grammar{
 							pos:   position{line: 1317, col: 5, offset: 41167},
 							label: "start",
 							expr: &actionExpr{
-								pos: position{line: 2928, col: 16, offset: 93123},
+								pos: position{line: 2940, col: 16, offset: 93639},
 								run: (*parser).callonImageBlock4,
 								expr: &litMatcher{
-									pos:        position{line: 2928, col: 16, offset: 93123},
+									pos:        position{line: 2940, col: 16, offset: 93639},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -19653,48 +19653,48 @@ var g = &grammar{
 							pos:   position{line: 1317, col: 35, offset: 41197},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2861, col: 13, offset: 91360},
+								pos: position{line: 2873, col: 13, offset: 91876},
 								run: (*parser).callonImageBlock8,
 								expr: &seqExpr{
-									pos: position{line: 2861, col: 13, offset: 91360},
+									pos: position{line: 2873, col: 13, offset: 91876},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2861, col: 13, offset: 91360},
+											pos:   position{line: 2873, col: 13, offset: 91876},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2861, col: 20, offset: 91367},
+												pos: position{line: 2873, col: 20, offset: 91883},
 												expr: &actionExpr{
-													pos: position{line: 2869, col: 11, offset: 91606},
+													pos: position{line: 2881, col: 11, offset: 92122},
 													run: (*parser).callonImageBlock12,
 													expr: &choiceExpr{
-														pos: position{line: 2869, col: 12, offset: 91607},
+														pos: position{line: 2881, col: 12, offset: 92123},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2869, col: 12, offset: 91607},
+																pos:        position{line: 2881, col: 12, offset: 92123},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2869, col: 24, offset: 91619},
+																pos:        position{line: 2881, col: 24, offset: 92135},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2869, col: 37, offset: 91632},
+																pos:        position{line: 2881, col: 37, offset: 92148},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2869, col: 48, offset: 91643},
+																pos:        position{line: 2881, col: 48, offset: 92159},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2869, col: 59, offset: 91654},
+																pos:        position{line: 2881, col: 59, offset: 92170},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19705,38 +19705,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2861, col: 30, offset: 91377},
+											pos:   position{line: 2873, col: 30, offset: 91893},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2874, col: 5, offset: 91718},
+												pos: position{line: 2886, col: 5, offset: 92234},
 												run: (*parser).callonImageBlock20,
 												expr: &labeledExpr{
-													pos:   position{line: 2874, col: 5, offset: 91718},
+													pos:   position{line: 2886, col: 5, offset: 92234},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2874, col: 14, offset: 91727},
+														pos: position{line: 2886, col: 14, offset: 92243},
 														expr: &choiceExpr{
-															pos: position{line: 2875, col: 9, offset: 91737},
+															pos: position{line: 2887, col: 9, offset: 92253},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2875, col: 9, offset: 91737},
+																	pos: position{line: 2887, col: 9, offset: 92253},
 																	run: (*parser).callonImageBlock24,
 																	expr: &seqExpr{
-																		pos: position{line: 2875, col: 9, offset: 91737},
+																		pos: position{line: 2887, col: 9, offset: 92253},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2875, col: 9, offset: 91737},
+																				pos: position{line: 2887, col: 9, offset: 92253},
 																				expr: &litMatcher{
-																					pos:        position{line: 2875, col: 10, offset: 91738},
+																					pos:        position{line: 2887, col: 10, offset: 92254},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2876, col: 9, offset: 91766},
+																				pos: position{line: 2888, col: 9, offset: 92282},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 91767},
+																					pos:        position{line: 2888, col: 10, offset: 92283},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19747,27 +19747,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2879, col: 11, offset: 91979},
+																	pos: position{line: 2891, col: 11, offset: 92495},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2879, col: 11, offset: 91979},
+																			pos:        position{line: 2891, col: 11, offset: 92495},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2879, col: 19, offset: 91987},
+																			pos: position{line: 2891, col: 19, offset: 92503},
 																			expr: &seqExpr{
-																				pos: position{line: 2879, col: 21, offset: 91989},
+																				pos: position{line: 2891, col: 21, offset: 92505},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2879, col: 21, offset: 91989},
+																						pos: position{line: 2891, col: 21, offset: 92505},
 																						expr: &actionExpr{
-																							pos: position{line: 2903, col: 10, offset: 92601},
+																							pos: position{line: 2915, col: 10, offset: 93117},
 																							run: (*parser).callonImageBlock35,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2903, col: 10, offset: 92601},
+																								pos:        position{line: 2915, col: 10, offset: 93117},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19776,11 +19776,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2879, col: 28, offset: 91996},
+																						pos: position{line: 2891, col: 28, offset: 92512},
 																						expr: &notExpr{
-																							pos: position{line: 2922, col: 8, offset: 92949},
+																							pos: position{line: 2934, col: 8, offset: 93465},
 																							expr: &anyMatcher{
-																								line: 2922, col: 9, offset: 92950,
+																								line: 2934, col: 9, offset: 93466,
 																							},
 																						},
 																					},
@@ -20179,10 +20179,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2882, col: 11, offset: 92116},
+																	pos: position{line: 2894, col: 11, offset: 92632},
 																	run: (*parser).callonImageBlock118,
 																	expr: &litMatcher{
-																		pos:        position{line: 2882, col: 11, offset: 92116},
+																		pos:        position{line: 2894, col: 11, offset: 92632},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20209,10 +20209,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1317, col: 81, offset: 41243},
 							expr: &actionExpr{
-								pos: position{line: 2903, col: 10, offset: 92601},
+								pos: position{line: 2915, col: 10, offset: 93117},
 								run: (*parser).callonImageBlock123,
 								expr: &charClassMatcher{
-									pos:        position{line: 2903, col: 10, offset: 92601},
+									pos:        position{line: 2915, col: 10, offset: 93117},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -20224,10 +20224,10 @@ var g = &grammar{
 							pos:   position{line: 1317, col: 88, offset: 41250},
 							label: "end",
 							expr: &actionExpr{
-								pos: position{line: 2928, col: 16, offset: 93123},
+								pos: position{line: 2940, col: 16, offset: 93639},
 								run: (*parser).callonImageBlock126,
 								expr: &litMatcher{
-									pos:        position{line: 2928, col: 16, offset: 93123},
+									pos:        position{line: 2940, col: 16, offset: 93639},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -20239,28 +20239,28 @@ var g = &grammar{
 							run: (*parser).callonImageBlock128,
 						},
 						&choiceExpr{
-							pos: position{line: 2925, col: 8, offset: 92999},
+							pos: position{line: 2937, col: 8, offset: 93515},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2912, col: 12, offset: 92772},
+									pos: position{line: 2924, col: 12, offset: 93288},
 									run: (*parser).callonImageBlock130,
 									expr: &choiceExpr{
-										pos: position{line: 2912, col: 13, offset: 92773},
+										pos: position{line: 2924, col: 13, offset: 93289},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2912, col: 13, offset: 92773},
+												pos:        position{line: 2924, col: 13, offset: 93289},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2912, col: 20, offset: 92780},
+												pos:        position{line: 2924, col: 20, offset: 93296},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2912, col: 29, offset: 92789},
+												pos:        position{line: 2924, col: 29, offset: 93305},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -20269,9 +20269,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2922, col: 8, offset: 92949},
+									pos: position{line: 2934, col: 8, offset: 93465},
 									expr: &anyMatcher{
-										line: 2922, col: 9, offset: 92950,
+										line: 2934, col: 9, offset: 93466,
 									},
 								},
 							},
@@ -20308,48 +20308,48 @@ var g = &grammar{
 							pos:   position{line: 1322, col: 30, offset: 41537},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2861, col: 13, offset: 91360},
+								pos: position{line: 2873, col: 13, offset: 91876},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2861, col: 13, offset: 91360},
+									pos: position{line: 2873, col: 13, offset: 91876},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2861, col: 13, offset: 91360},
+											pos:   position{line: 2873, col: 13, offset: 91876},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2861, col: 20, offset: 91367},
+												pos: position{line: 2873, col: 20, offset: 91883},
 												expr: &actionExpr{
-													pos: position{line: 2869, col: 11, offset: 91606},
+													pos: position{line: 2881, col: 11, offset: 92122},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2869, col: 12, offset: 91607},
+														pos: position{line: 2881, col: 12, offset: 92123},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2869, col: 12, offset: 91607},
+																pos:        position{line: 2881, col: 12, offset: 92123},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2869, col: 24, offset: 91619},
+																pos:        position{line: 2881, col: 24, offset: 92135},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2869, col: 37, offset: 91632},
+																pos:        position{line: 2881, col: 37, offset: 92148},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2869, col: 48, offset: 91643},
+																pos:        position{line: 2881, col: 48, offset: 92159},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2869, col: 59, offset: 91654},
+																pos:        position{line: 2881, col: 59, offset: 92170},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20360,38 +20360,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2861, col: 30, offset: 91377},
+											pos:   position{line: 2873, col: 30, offset: 91893},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2874, col: 5, offset: 91718},
+												pos: position{line: 2886, col: 5, offset: 92234},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2874, col: 5, offset: 91718},
+													pos:   position{line: 2886, col: 5, offset: 92234},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2874, col: 14, offset: 91727},
+														pos: position{line: 2886, col: 14, offset: 92243},
 														expr: &choiceExpr{
-															pos: position{line: 2875, col: 9, offset: 91737},
+															pos: position{line: 2887, col: 9, offset: 92253},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2875, col: 9, offset: 91737},
+																	pos: position{line: 2887, col: 9, offset: 92253},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2875, col: 9, offset: 91737},
+																		pos: position{line: 2887, col: 9, offset: 92253},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2875, col: 9, offset: 91737},
+																				pos: position{line: 2887, col: 9, offset: 92253},
 																				expr: &litMatcher{
-																					pos:        position{line: 2875, col: 10, offset: 91738},
+																					pos:        position{line: 2887, col: 10, offset: 92254},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2876, col: 9, offset: 91766},
+																				pos: position{line: 2888, col: 9, offset: 92282},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2876, col: 10, offset: 91767},
+																					pos:        position{line: 2888, col: 10, offset: 92283},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20402,27 +20402,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2879, col: 11, offset: 91979},
+																	pos: position{line: 2891, col: 11, offset: 92495},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2879, col: 11, offset: 91979},
+																			pos:        position{line: 2891, col: 11, offset: 92495},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2879, col: 19, offset: 91987},
+																			pos: position{line: 2891, col: 19, offset: 92503},
 																			expr: &seqExpr{
-																				pos: position{line: 2879, col: 21, offset: 91989},
+																				pos: position{line: 2891, col: 21, offset: 92505},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2879, col: 21, offset: 91989},
+																						pos: position{line: 2891, col: 21, offset: 92505},
 																						expr: &actionExpr{
-																							pos: position{line: 2903, col: 10, offset: 92601},
+																							pos: position{line: 2915, col: 10, offset: 93117},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2903, col: 10, offset: 92601},
+																								pos:        position{line: 2915, col: 10, offset: 93117},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20431,11 +20431,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2879, col: 28, offset: 91996},
+																						pos: position{line: 2891, col: 28, offset: 92512},
 																						expr: &notExpr{
-																							pos: position{line: 2922, col: 8, offset: 92949},
+																							pos: position{line: 2934, col: 8, offset: 93465},
 																							expr: &anyMatcher{
-																								line: 2922, col: 9, offset: 92950,
+																								line: 2934, col: 9, offset: 93466,
 																							},
 																						},
 																					},
@@ -20834,10 +20834,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2882, col: 11, offset: 92116},
+																	pos: position{line: 2894, col: 11, offset: 92632},
 																	run: (*parser).callonInlineImage117,
 																	expr: &litMatcher{
-																		pos:        position{line: 2882, col: 11, offset: 92116},
+																		pos:        position{line: 2894, col: 11, offset: 92632},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -21016,26 +21016,26 @@ var g = &grammar{
 								pos: position{line: 1349, col: 9, offset: 42823},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2795, col: 5, offset: 89629},
+										pos: position{line: 2807, col: 5, offset: 90145},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2795, col: 5, offset: 89629},
+											pos: position{line: 2807, col: 5, offset: 90145},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2795, col: 5, offset: 89629},
+													pos: position{line: 2807, col: 5, offset: 90145},
 													expr: &seqExpr{
-														pos: position{line: 2796, col: 9, offset: 89640},
+														pos: position{line: 2808, col: 9, offset: 90156},
 														exprs: []interface{}{
 															&labeledExpr{
-																pos:   position{line: 2796, col: 9, offset: 89640},
+																pos:   position{line: 2808, col: 9, offset: 90156},
 																label: "name",
 																expr: &actionExpr{
-																	pos: position{line: 2775, col: 18, offset: 89146},
+																	pos: position{line: 2787, col: 18, offset: 89662},
 																	run: (*parser).callonFootnoteElement12,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2775, col: 19, offset: 89147},
+																		pos: position{line: 2787, col: 19, offset: 89663},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2775, col: 19, offset: 89147},
+																			pos:        position{line: 2787, col: 19, offset: 89663},
 																			val:        "[_-\\pL\\pN]",
 																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21046,28 +21046,28 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2797, col: 9, offset: 89733},
+																pos:        position{line: 2809, col: 9, offset: 90249},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2798, col: 9, offset: 89745},
+																pos: position{line: 2810, col: 9, offset: 90261},
 																run: (*parser).callonFootnoteElement16,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2802, col: 5, offset: 89822},
+													pos:   position{line: 2814, col: 5, offset: 90338},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2802, col: 11, offset: 89828},
+														pos: position{line: 2814, col: 11, offset: 90344},
 														run: (*parser).callonFootnoteElement18,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2802, col: 11, offset: 89828},
+															pos: position{line: 2814, col: 11, offset: 90344},
 															expr: &charClassMatcher{
-																pos:        position{line: 2802, col: 11, offset: 89828},
+																pos:        position{line: 2814, col: 11, offset: 90344},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21077,44 +21077,44 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2805, col: 5, offset: 89886},
+													pos: position{line: 2817, col: 5, offset: 90402},
 													expr: &seqExpr{
-														pos: position{line: 2806, col: 9, offset: 89897},
+														pos: position{line: 2818, col: 9, offset: 90413},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2806, col: 9, offset: 89897},
+																pos:        position{line: 2818, col: 9, offset: 90413},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2807, col: 9, offset: 89946},
+																pos: position{line: 2819, col: 9, offset: 90462},
 																run: (*parser).callonFootnoteElement24,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2811, col: 5, offset: 90026},
+													pos: position{line: 2823, col: 5, offset: 90542},
 													expr: &seqExpr{
-														pos: position{line: 2812, col: 9, offset: 90037},
+														pos: position{line: 2824, col: 9, offset: 90553},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2812, col: 9, offset: 90037},
+																pos: position{line: 2824, col: 9, offset: 90553},
 																expr: &seqExpr{
-																	pos: position{line: 2812, col: 10, offset: 90038},
+																	pos: position{line: 2824, col: 10, offset: 90554},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2812, col: 10, offset: 90038},
+																			pos:        position{line: 2824, col: 10, offset: 90554},
 																			val:        "[._%+-]",
 																			chars:      []rune{'.', '_', '%', '+', '-'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2812, col: 18, offset: 90046},
+																			pos: position{line: 2824, col: 18, offset: 90562},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2812, col: 18, offset: 90046},
+																				pos:        position{line: 2824, col: 18, offset: 90562},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -21125,13 +21125,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2812, col: 30, offset: 90058},
+																pos:        position{line: 2824, col: 30, offset: 90574},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2812, col: 34, offset: 90062},
+																pos:        position{line: 2824, col: 34, offset: 90578},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21144,12 +21144,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2907, col: 11, offset: 92662},
+										pos: position{line: 2919, col: 11, offset: 93178},
 										run: (*parser).callonFootnoteElement34,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2907, col: 11, offset: 92662},
+											pos: position{line: 2919, col: 11, offset: 93178},
 											expr: &charClassMatcher{
-												pos:        position{line: 2907, col: 11, offset: 92662},
+												pos:        position{line: 2919, col: 11, offset: 93178},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -21158,25 +21158,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2521, col: 5, offset: 82011},
+										pos: position{line: 2533, col: 5, offset: 82527},
 										run: (*parser).callonFootnoteElement37,
 										expr: &seqExpr{
-											pos: position{line: 2521, col: 5, offset: 82011},
+											pos: position{line: 2533, col: 5, offset: 82527},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2521, col: 5, offset: 82011},
+													pos: position{line: 2533, col: 5, offset: 82527},
 													run: (*parser).callonFootnoteElement39,
 												},
 												&litMatcher{
-													pos:        position{line: 2524, col: 5, offset: 82082},
+													pos:        position{line: 2536, col: 5, offset: 82598},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2524, col: 10, offset: 82087},
+													pos: position{line: 2536, col: 10, offset: 82603},
 													expr: &charClassMatcher{
-														pos:        position{line: 2524, col: 11, offset: 82088},
+														pos:        position{line: 2536, col: 11, offset: 82604},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21187,29 +21187,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2530, col: 5, offset: 82280},
+										pos: position{line: 2542, col: 5, offset: 82796},
 										run: (*parser).callonFootnoteElement43,
 										expr: &seqExpr{
-											pos: position{line: 2530, col: 5, offset: 82280},
+											pos: position{line: 2542, col: 5, offset: 82796},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2530, col: 5, offset: 82280},
+													pos: position{line: 2542, col: 5, offset: 82796},
 													run: (*parser).callonFootnoteElement45,
 												},
 												&andCodeExpr{
-													pos: position{line: 2533, col: 5, offset: 82351},
+													pos: position{line: 2545, col: 5, offset: 82867},
 													run: (*parser).callonFootnoteElement46,
 												},
 												&litMatcher{
-													pos:        position{line: 2537, col: 5, offset: 82476},
+													pos:        position{line: 2549, col: 5, offset: 82992},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2537, col: 9, offset: 82480},
+													pos: position{line: 2549, col: 9, offset: 82996},
 													expr: &charClassMatcher{
-														pos:        position{line: 2537, col: 10, offset: 82481},
+														pos:        position{line: 2549, col: 10, offset: 82997},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21228,27 +21228,27 @@ var g = &grammar{
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2820, col: 5, offset: 90255},
+										pos: position{line: 2832, col: 5, offset: 90771},
 										run: (*parser).callonFootnoteElement52,
 										expr: &choiceExpr{
-											pos: position{line: 2821, col: 9, offset: 90265},
+											pos: position{line: 2833, col: 9, offset: 90781},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2821, col: 10, offset: 90266},
+													pos:        position{line: 2833, col: 10, offset: 90782},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2823, col: 13, offset: 90363},
+													pos: position{line: 2835, col: 13, offset: 90879},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2823, col: 13, offset: 90363},
+															pos: position{line: 2835, col: 13, offset: 90879},
 															run: (*parser).callonFootnoteElement56,
 														},
 														&litMatcher{
-															pos:        position{line: 2826, col: 13, offset: 90463},
+															pos:        position{line: 2838, col: 13, offset: 90979},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -21256,20 +21256,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2826, col: 19, offset: 90469},
+													pos:        position{line: 2838, col: 19, offset: 90985},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2829, col: 13, offset: 90507},
+													pos: position{line: 2841, col: 13, offset: 91023},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2829, col: 13, offset: 90507},
+															pos: position{line: 2841, col: 13, offset: 91023},
 															run: (*parser).callonFootnoteElement60,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2832, col: 14, offset: 90600},
+															pos:        position{line: 2844, col: 14, offset: 91116},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -21278,18 +21278,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2834, col: 12, offset: 90644},
+													pos: position{line: 2846, col: 12, offset: 91160},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2834, col: 12, offset: 90644},
+															pos:        position{line: 2846, col: 12, offset: 91160},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2834, col: 16, offset: 90648},
+															pos: position{line: 2846, col: 16, offset: 91164},
 															expr: &litMatcher{
-																pos:        position{line: 2834, col: 17, offset: 90649},
+																pos:        position{line: 2846, col: 17, offset: 91165},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -21327,10 +21327,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 1219, col: 5, offset: 37756},
 													expr: &actionExpr{
-														pos: position{line: 2903, col: 10, offset: 92601},
+														pos: position{line: 2915, col: 10, offset: 93117},
 														run: (*parser).callonFootnoteElement73,
 														expr: &charClassMatcher{
-															pos:        position{line: 2903, col: 10, offset: 92601},
+															pos:        position{line: 2915, col: 10, offset: 93117},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -21341,28 +21341,28 @@ var g = &grammar{
 												&andExpr{
 													pos: position{line: 1219, col: 12, offset: 37763},
 													expr: &choiceExpr{
-														pos: position{line: 2925, col: 8, offset: 92999},
+														pos: position{line: 2937, col: 8, offset: 93515},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2912, col: 12, offset: 92772},
+																pos: position{line: 2924, col: 12, offset: 93288},
 																run: (*parser).callonFootnoteElement77,
 																expr: &choiceExpr{
-																	pos: position{line: 2912, col: 13, offset: 92773},
+																	pos: position{line: 2924, col: 13, offset: 93289},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2912, col: 13, offset: 92773},
+																			pos:        position{line: 2924, col: 13, offset: 93289},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2912, col: 20, offset: 92780},
+																			pos:        position{line: 2924, col: 20, offset: 93296},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2912, col: 29, offset: 92789},
+																			pos:        position{line: 2924, col: 29, offset: 93305},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -21371,9 +21371,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2922, col: 8, offset: 92949},
+																pos: position{line: 2934, col: 8, offset: 93465},
 																expr: &anyMatcher{
-																	line: 2922, col: 9, offset: 92950,
+																	line: 2934, col: 9, offset: 93466,
 																},
 															},
 														},
@@ -21729,23 +21729,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2490, col: 5, offset: 80840},
+										pos: position{line: 2502, col: 5, offset: 81356},
 										run: (*parser).callonFootnoteElement153,
 										expr: &seqExpr{
-											pos: position{line: 2490, col: 5, offset: 80840},
+											pos: position{line: 2502, col: 5, offset: 81356},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2490, col: 5, offset: 80840},
+													pos: position{line: 2502, col: 5, offset: 81356},
 													run: (*parser).callonFootnoteElement155,
 												},
 												&labeledExpr{
-													pos:   position{line: 2493, col: 5, offset: 80916},
+													pos:   position{line: 2505, col: 5, offset: 81432},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2494, col: 9, offset: 80934},
+														pos: position{line: 2506, col: 9, offset: 81450},
 														run: (*parser).callonFootnoteElement157,
 														expr: &charClassMatcher{
-															pos:        position{line: 2494, col: 10, offset: 80935},
+															pos:        position{line: 2506, col: 10, offset: 81451},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -21757,25 +21757,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2912, col: 12, offset: 92772},
+										pos: position{line: 2924, col: 12, offset: 93288},
 										run: (*parser).callonFootnoteElement159,
 										expr: &choiceExpr{
-											pos: position{line: 2912, col: 13, offset: 92773},
+											pos: position{line: 2924, col: 13, offset: 93289},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2912, col: 13, offset: 92773},
+													pos:        position{line: 2924, col: 13, offset: 93289},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2912, col: 20, offset: 92780},
+													pos:        position{line: 2924, col: 20, offset: 93296},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2912, col: 29, offset: 92789},
+													pos:        position{line: 2924, col: 29, offset: 93305},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -21784,10 +21784,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2842, col: 12, offset: 90909},
+										pos: position{line: 2854, col: 12, offset: 91425},
 										run: (*parser).callonFootnoteElement164,
 										expr: &charClassMatcher{
-											pos:        position{line: 2842, col: 12, offset: 90909},
+											pos:        position{line: 2854, col: 12, offset: 91425},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -21939,55 +21939,55 @@ var g = &grammar{
 									pos:   position{line: 1421, col: 5, offset: 45793},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2865, col: 23, offset: 91487},
+										pos: position{line: 2877, col: 23, offset: 92003},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2865, col: 23, offset: 91487},
+											pos: position{line: 2877, col: 23, offset: 92003},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2865, col: 23, offset: 91487},
+													pos: position{line: 2877, col: 23, offset: 92003},
 													expr: &litMatcher{
-														pos:        position{line: 2865, col: 24, offset: 91488},
+														pos:        position{line: 2877, col: 24, offset: 92004},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2865, col: 28, offset: 91492},
+													pos:   position{line: 2877, col: 28, offset: 92008},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2869, col: 11, offset: 91606},
+														pos: position{line: 2881, col: 11, offset: 92122},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2869, col: 12, offset: 91607},
+															pos: position{line: 2881, col: 12, offset: 92123},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2869, col: 12, offset: 91607},
+																	pos:        position{line: 2881, col: 12, offset: 92123},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2869, col: 24, offset: 91619},
+																	pos:        position{line: 2881, col: 24, offset: 92135},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2869, col: 37, offset: 91632},
+																	pos:        position{line: 2881, col: 37, offset: 92148},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2869, col: 48, offset: 91643},
+																	pos:        position{line: 2881, col: 48, offset: 92159},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2869, col: 59, offset: 91654},
+																	pos:        position{line: 2881, col: 59, offset: 92170},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -21997,38 +21997,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2865, col: 44, offset: 91508},
+													pos:   position{line: 2877, col: 44, offset: 92024},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2874, col: 5, offset: 91718},
+														pos: position{line: 2886, col: 5, offset: 92234},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2874, col: 5, offset: 91718},
+															pos:   position{line: 2886, col: 5, offset: 92234},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2874, col: 14, offset: 91727},
+																pos: position{line: 2886, col: 14, offset: 92243},
 																expr: &choiceExpr{
-																	pos: position{line: 2875, col: 9, offset: 91737},
+																	pos: position{line: 2887, col: 9, offset: 92253},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2875, col: 9, offset: 91737},
+																			pos: position{line: 2887, col: 9, offset: 92253},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2875, col: 9, offset: 91737},
+																				pos: position{line: 2887, col: 9, offset: 92253},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2875, col: 9, offset: 91737},
+																						pos: position{line: 2887, col: 9, offset: 92253},
 																						expr: &litMatcher{
-																							pos:        position{line: 2875, col: 10, offset: 91738},
+																							pos:        position{line: 2887, col: 10, offset: 92254},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2876, col: 9, offset: 91766},
+																						pos: position{line: 2888, col: 9, offset: 92282},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2876, col: 10, offset: 91767},
+																							pos:        position{line: 2888, col: 10, offset: 92283},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22039,27 +22039,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2879, col: 11, offset: 91979},
+																			pos: position{line: 2891, col: 11, offset: 92495},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2879, col: 11, offset: 91979},
+																					pos:        position{line: 2891, col: 11, offset: 92495},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2879, col: 19, offset: 91987},
+																					pos: position{line: 2891, col: 19, offset: 92503},
 																					expr: &seqExpr{
-																						pos: position{line: 2879, col: 21, offset: 91989},
+																						pos: position{line: 2891, col: 21, offset: 92505},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2879, col: 21, offset: 91989},
+																								pos: position{line: 2891, col: 21, offset: 92505},
 																								expr: &actionExpr{
-																									pos: position{line: 2903, col: 10, offset: 92601},
+																									pos: position{line: 2915, col: 10, offset: 93117},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2903, col: 10, offset: 92601},
+																										pos:        position{line: 2915, col: 10, offset: 93117},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22068,11 +22068,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2879, col: 28, offset: 91996},
+																								pos: position{line: 2891, col: 28, offset: 92512},
 																								expr: &notExpr{
-																									pos: position{line: 2922, col: 8, offset: 92949},
+																									pos: position{line: 2934, col: 8, offset: 93465},
 																									expr: &anyMatcher{
-																										line: 2922, col: 9, offset: 92950,
+																										line: 2934, col: 9, offset: 93466,
 																									},
 																								},
 																							},
@@ -22471,10 +22471,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2882, col: 11, offset: 92116},
+																			pos: position{line: 2894, col: 11, offset: 92632},
 																			run: (*parser).callonLink117,
 																			expr: &litMatcher{
-																				pos:        position{line: 2882, col: 11, offset: 92116},
+																				pos:        position{line: 2894, col: 11, offset: 92632},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22679,48 +22679,48 @@ var g = &grammar{
 									pos:   position{line: 1434, col: 17, offset: 46208},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2861, col: 13, offset: 91360},
+										pos: position{line: 2873, col: 13, offset: 91876},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2861, col: 13, offset: 91360},
+											pos: position{line: 2873, col: 13, offset: 91876},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2861, col: 13, offset: 91360},
+													pos:   position{line: 2873, col: 13, offset: 91876},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2861, col: 20, offset: 91367},
+														pos: position{line: 2873, col: 20, offset: 91883},
 														expr: &actionExpr{
-															pos: position{line: 2869, col: 11, offset: 91606},
+															pos: position{line: 2881, col: 11, offset: 92122},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2869, col: 12, offset: 91607},
+																pos: position{line: 2881, col: 12, offset: 92123},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2869, col: 12, offset: 91607},
+																		pos:        position{line: 2881, col: 12, offset: 92123},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2869, col: 24, offset: 91619},
+																		pos:        position{line: 2881, col: 24, offset: 92135},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2869, col: 37, offset: 91632},
+																		pos:        position{line: 2881, col: 37, offset: 92148},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2869, col: 48, offset: 91643},
+																		pos:        position{line: 2881, col: 48, offset: 92159},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2869, col: 59, offset: 91654},
+																		pos:        position{line: 2881, col: 59, offset: 92170},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22731,38 +22731,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2861, col: 30, offset: 91377},
+													pos:   position{line: 2873, col: 30, offset: 91893},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2874, col: 5, offset: 91718},
+														pos: position{line: 2886, col: 5, offset: 92234},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2874, col: 5, offset: 91718},
+															pos:   position{line: 2886, col: 5, offset: 92234},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2874, col: 14, offset: 91727},
+																pos: position{line: 2886, col: 14, offset: 92243},
 																expr: &choiceExpr{
-																	pos: position{line: 2875, col: 9, offset: 91737},
+																	pos: position{line: 2887, col: 9, offset: 92253},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2875, col: 9, offset: 91737},
+																			pos: position{line: 2887, col: 9, offset: 92253},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2875, col: 9, offset: 91737},
+																				pos: position{line: 2887, col: 9, offset: 92253},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2875, col: 9, offset: 91737},
+																						pos: position{line: 2887, col: 9, offset: 92253},
 																						expr: &litMatcher{
-																							pos:        position{line: 2875, col: 10, offset: 91738},
+																							pos:        position{line: 2887, col: 10, offset: 92254},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2876, col: 9, offset: 91766},
+																						pos: position{line: 2888, col: 9, offset: 92282},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2876, col: 10, offset: 91767},
+																							pos:        position{line: 2888, col: 10, offset: 92283},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22773,27 +22773,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2879, col: 11, offset: 91979},
+																			pos: position{line: 2891, col: 11, offset: 92495},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2879, col: 11, offset: 91979},
+																					pos:        position{line: 2891, col: 11, offset: 92495},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2879, col: 19, offset: 91987},
+																					pos: position{line: 2891, col: 19, offset: 92503},
 																					expr: &seqExpr{
-																						pos: position{line: 2879, col: 21, offset: 91989},
+																						pos: position{line: 2891, col: 21, offset: 92505},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2879, col: 21, offset: 91989},
+																								pos: position{line: 2891, col: 21, offset: 92505},
 																								expr: &actionExpr{
-																									pos: position{line: 2903, col: 10, offset: 92601},
+																									pos: position{line: 2915, col: 10, offset: 93117},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2903, col: 10, offset: 92601},
+																										pos:        position{line: 2915, col: 10, offset: 93117},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22802,11 +22802,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2879, col: 28, offset: 91996},
+																								pos: position{line: 2891, col: 28, offset: 92512},
 																								expr: &notExpr{
-																									pos: position{line: 2922, col: 8, offset: 92949},
+																									pos: position{line: 2934, col: 8, offset: 93465},
 																									expr: &anyMatcher{
-																										line: 2922, col: 9, offset: 92950,
+																										line: 2934, col: 9, offset: 93466,
 																									},
 																								},
 																							},
@@ -23205,10 +23205,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2882, col: 11, offset: 92116},
+																			pos: position{line: 2894, col: 11, offset: 92632},
 																			run: (*parser).callonRelativeLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2882, col: 11, offset: 92116},
+																				pos:        position{line: 2894, col: 11, offset: 92632},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23251,48 +23251,48 @@ var g = &grammar{
 									pos:   position{line: 1439, col: 13, offset: 46418},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2861, col: 13, offset: 91360},
+										pos: position{line: 2873, col: 13, offset: 91876},
 										run: (*parser).callonRelativeLink124,
 										expr: &seqExpr{
-											pos: position{line: 2861, col: 13, offset: 91360},
+											pos: position{line: 2873, col: 13, offset: 91876},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2861, col: 13, offset: 91360},
+													pos:   position{line: 2873, col: 13, offset: 91876},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2861, col: 20, offset: 91367},
+														pos: position{line: 2873, col: 20, offset: 91883},
 														expr: &actionExpr{
-															pos: position{line: 2869, col: 11, offset: 91606},
+															pos: position{line: 2881, col: 11, offset: 92122},
 															run: (*parser).callonRelativeLink128,
 															expr: &choiceExpr{
-																pos: position{line: 2869, col: 12, offset: 91607},
+																pos: position{line: 2881, col: 12, offset: 92123},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2869, col: 12, offset: 91607},
+																		pos:        position{line: 2881, col: 12, offset: 92123},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2869, col: 24, offset: 91619},
+																		pos:        position{line: 2881, col: 24, offset: 92135},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2869, col: 37, offset: 91632},
+																		pos:        position{line: 2881, col: 37, offset: 92148},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2869, col: 48, offset: 91643},
+																		pos:        position{line: 2881, col: 48, offset: 92159},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2869, col: 59, offset: 91654},
+																		pos:        position{line: 2881, col: 59, offset: 92170},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23303,38 +23303,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2861, col: 30, offset: 91377},
+													pos:   position{line: 2873, col: 30, offset: 91893},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2874, col: 5, offset: 91718},
+														pos: position{line: 2886, col: 5, offset: 92234},
 														run: (*parser).callonRelativeLink136,
 														expr: &labeledExpr{
-															pos:   position{line: 2874, col: 5, offset: 91718},
+															pos:   position{line: 2886, col: 5, offset: 92234},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2874, col: 14, offset: 91727},
+																pos: position{line: 2886, col: 14, offset: 92243},
 																expr: &choiceExpr{
-																	pos: position{line: 2875, col: 9, offset: 91737},
+																	pos: position{line: 2887, col: 9, offset: 92253},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2875, col: 9, offset: 91737},
+																			pos: position{line: 2887, col: 9, offset: 92253},
 																			run: (*parser).callonRelativeLink140,
 																			expr: &seqExpr{
-																				pos: position{line: 2875, col: 9, offset: 91737},
+																				pos: position{line: 2887, col: 9, offset: 92253},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2875, col: 9, offset: 91737},
+																						pos: position{line: 2887, col: 9, offset: 92253},
 																						expr: &litMatcher{
-																							pos:        position{line: 2875, col: 10, offset: 91738},
+																							pos:        position{line: 2887, col: 10, offset: 92254},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2876, col: 9, offset: 91766},
+																						pos: position{line: 2888, col: 9, offset: 92282},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2876, col: 10, offset: 91767},
+																							pos:        position{line: 2888, col: 10, offset: 92283},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23345,27 +23345,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2879, col: 11, offset: 91979},
+																			pos: position{line: 2891, col: 11, offset: 92495},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2879, col: 11, offset: 91979},
+																					pos:        position{line: 2891, col: 11, offset: 92495},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2879, col: 19, offset: 91987},
+																					pos: position{line: 2891, col: 19, offset: 92503},
 																					expr: &seqExpr{
-																						pos: position{line: 2879, col: 21, offset: 91989},
+																						pos: position{line: 2891, col: 21, offset: 92505},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2879, col: 21, offset: 91989},
+																								pos: position{line: 2891, col: 21, offset: 92505},
 																								expr: &actionExpr{
-																									pos: position{line: 2903, col: 10, offset: 92601},
+																									pos: position{line: 2915, col: 10, offset: 93117},
 																									run: (*parser).callonRelativeLink151,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2903, col: 10, offset: 92601},
+																										pos:        position{line: 2915, col: 10, offset: 93117},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23374,11 +23374,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2879, col: 28, offset: 91996},
+																								pos: position{line: 2891, col: 28, offset: 92512},
 																								expr: &notExpr{
-																									pos: position{line: 2922, col: 8, offset: 92949},
+																									pos: position{line: 2934, col: 8, offset: 93465},
 																									expr: &anyMatcher{
-																										line: 2922, col: 9, offset: 92950,
+																										line: 2934, col: 9, offset: 93466,
 																									},
 																								},
 																							},
@@ -23777,10 +23777,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2882, col: 11, offset: 92116},
+																			pos: position{line: 2894, col: 11, offset: 92632},
 																			run: (*parser).callonRelativeLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2882, col: 11, offset: 92116},
+																				pos:        position{line: 2894, col: 11, offset: 92632},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23832,55 +23832,55 @@ var g = &grammar{
 									pos:   position{line: 1446, col: 9, offset: 46727},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2865, col: 23, offset: 91487},
+										pos: position{line: 2877, col: 23, offset: 92003},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2865, col: 23, offset: 91487},
+											pos: position{line: 2877, col: 23, offset: 92003},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2865, col: 23, offset: 91487},
+													pos: position{line: 2877, col: 23, offset: 92003},
 													expr: &litMatcher{
-														pos:        position{line: 2865, col: 24, offset: 91488},
+														pos:        position{line: 2877, col: 24, offset: 92004},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2865, col: 28, offset: 91492},
+													pos:   position{line: 2877, col: 28, offset: 92008},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2869, col: 11, offset: 91606},
+														pos: position{line: 2881, col: 11, offset: 92122},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2869, col: 12, offset: 91607},
+															pos: position{line: 2881, col: 12, offset: 92123},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2869, col: 12, offset: 91607},
+																	pos:        position{line: 2881, col: 12, offset: 92123},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2869, col: 24, offset: 91619},
+																	pos:        position{line: 2881, col: 24, offset: 92135},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2869, col: 37, offset: 91632},
+																	pos:        position{line: 2881, col: 37, offset: 92148},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2869, col: 48, offset: 91643},
+																	pos:        position{line: 2881, col: 48, offset: 92159},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2869, col: 59, offset: 91654},
+																	pos:        position{line: 2881, col: 59, offset: 92170},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23890,38 +23890,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2865, col: 44, offset: 91508},
+													pos:   position{line: 2877, col: 44, offset: 92024},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2874, col: 5, offset: 91718},
+														pos: position{line: 2886, col: 5, offset: 92234},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2874, col: 5, offset: 91718},
+															pos:   position{line: 2886, col: 5, offset: 92234},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2874, col: 14, offset: 91727},
+																pos: position{line: 2886, col: 14, offset: 92243},
 																expr: &choiceExpr{
-																	pos: position{line: 2875, col: 9, offset: 91737},
+																	pos: position{line: 2887, col: 9, offset: 92253},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2875, col: 9, offset: 91737},
+																			pos: position{line: 2887, col: 9, offset: 92253},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2875, col: 9, offset: 91737},
+																				pos: position{line: 2887, col: 9, offset: 92253},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2875, col: 9, offset: 91737},
+																						pos: position{line: 2887, col: 9, offset: 92253},
 																						expr: &litMatcher{
-																							pos:        position{line: 2875, col: 10, offset: 91738},
+																							pos:        position{line: 2887, col: 10, offset: 92254},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2876, col: 9, offset: 91766},
+																						pos: position{line: 2888, col: 9, offset: 92282},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2876, col: 10, offset: 91767},
+																							pos:        position{line: 2888, col: 10, offset: 92283},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23932,27 +23932,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2879, col: 11, offset: 91979},
+																			pos: position{line: 2891, col: 11, offset: 92495},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2879, col: 11, offset: 91979},
+																					pos:        position{line: 2891, col: 11, offset: 92495},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2879, col: 19, offset: 91987},
+																					pos: position{line: 2891, col: 19, offset: 92503},
 																					expr: &seqExpr{
-																						pos: position{line: 2879, col: 21, offset: 91989},
+																						pos: position{line: 2891, col: 21, offset: 92505},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2879, col: 21, offset: 91989},
+																								pos: position{line: 2891, col: 21, offset: 92505},
 																								expr: &actionExpr{
-																									pos: position{line: 2903, col: 10, offset: 92601},
+																									pos: position{line: 2915, col: 10, offset: 93117},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2903, col: 10, offset: 92601},
+																										pos:        position{line: 2915, col: 10, offset: 93117},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23961,11 +23961,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2879, col: 28, offset: 91996},
+																								pos: position{line: 2891, col: 28, offset: 92512},
 																								expr: &notExpr{
-																									pos: position{line: 2922, col: 8, offset: 92949},
+																									pos: position{line: 2934, col: 8, offset: 93465},
 																									expr: &anyMatcher{
-																										line: 2922, col: 9, offset: 92950,
+																										line: 2934, col: 9, offset: 93466,
 																									},
 																								},
 																							},
@@ -24364,10 +24364,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2882, col: 11, offset: 92116},
+																			pos: position{line: 2894, col: 11, offset: 92632},
 																			run: (*parser).callonExternalLink117,
 																			expr: &litMatcher{
-																				pos:        position{line: 2882, col: 11, offset: 92116},
+																				pos:        position{line: 2894, col: 11, offset: 92632},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24407,55 +24407,55 @@ var g = &grammar{
 									pos:   position{line: 1451, col: 5, offset: 46940},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2865, col: 23, offset: 91487},
+										pos: position{line: 2877, col: 23, offset: 92003},
 										run: (*parser).callonExternalLink125,
 										expr: &seqExpr{
-											pos: position{line: 2865, col: 23, offset: 91487},
+											pos: position{line: 2877, col: 23, offset: 92003},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2865, col: 23, offset: 91487},
+													pos: position{line: 2877, col: 23, offset: 92003},
 													expr: &litMatcher{
-														pos:        position{line: 2865, col: 24, offset: 91488},
+														pos:        position{line: 2877, col: 24, offset: 92004},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2865, col: 28, offset: 91492},
+													pos:   position{line: 2877, col: 28, offset: 92008},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2869, col: 11, offset: 91606},
+														pos: position{line: 2881, col: 11, offset: 92122},
 														run: (*parser).callonExternalLink130,
 														expr: &choiceExpr{
-															pos: position{line: 2869, col: 12, offset: 91607},
+															pos: position{line: 2881, col: 12, offset: 92123},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2869, col: 12, offset: 91607},
+																	pos:        position{line: 2881, col: 12, offset: 92123},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2869, col: 24, offset: 91619},
+																	pos:        position{line: 2881, col: 24, offset: 92135},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2869, col: 37, offset: 91632},
+																	pos:        position{line: 2881, col: 37, offset: 92148},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2869, col: 48, offset: 91643},
+																	pos:        position{line: 2881, col: 48, offset: 92159},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2869, col: 59, offset: 91654},
+																	pos:        position{line: 2881, col: 59, offset: 92170},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24465,38 +24465,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2865, col: 44, offset: 91508},
+													pos:   position{line: 2877, col: 44, offset: 92024},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2874, col: 5, offset: 91718},
+														pos: position{line: 2886, col: 5, offset: 92234},
 														run: (*parser).callonExternalLink138,
 														expr: &labeledExpr{
-															pos:   position{line: 2874, col: 5, offset: 91718},
+															pos:   position{line: 2886, col: 5, offset: 92234},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2874, col: 14, offset: 91727},
+																pos: position{line: 2886, col: 14, offset: 92243},
 																expr: &choiceExpr{
-																	pos: position{line: 2875, col: 9, offset: 91737},
+																	pos: position{line: 2887, col: 9, offset: 92253},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2875, col: 9, offset: 91737},
+																			pos: position{line: 2887, col: 9, offset: 92253},
 																			run: (*parser).callonExternalLink142,
 																			expr: &seqExpr{
-																				pos: position{line: 2875, col: 9, offset: 91737},
+																				pos: position{line: 2887, col: 9, offset: 92253},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2875, col: 9, offset: 91737},
+																						pos: position{line: 2887, col: 9, offset: 92253},
 																						expr: &litMatcher{
-																							pos:        position{line: 2875, col: 10, offset: 91738},
+																							pos:        position{line: 2887, col: 10, offset: 92254},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2876, col: 9, offset: 91766},
+																						pos: position{line: 2888, col: 9, offset: 92282},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2876, col: 10, offset: 91767},
+																							pos:        position{line: 2888, col: 10, offset: 92283},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24507,27 +24507,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2879, col: 11, offset: 91979},
+																			pos: position{line: 2891, col: 11, offset: 92495},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2879, col: 11, offset: 91979},
+																					pos:        position{line: 2891, col: 11, offset: 92495},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2879, col: 19, offset: 91987},
+																					pos: position{line: 2891, col: 19, offset: 92503},
 																					expr: &seqExpr{
-																						pos: position{line: 2879, col: 21, offset: 91989},
+																						pos: position{line: 2891, col: 21, offset: 92505},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2879, col: 21, offset: 91989},
+																								pos: position{line: 2891, col: 21, offset: 92505},
 																								expr: &actionExpr{
-																									pos: position{line: 2903, col: 10, offset: 92601},
+																									pos: position{line: 2915, col: 10, offset: 93117},
 																									run: (*parser).callonExternalLink153,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2903, col: 10, offset: 92601},
+																										pos:        position{line: 2915, col: 10, offset: 93117},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24536,11 +24536,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2879, col: 28, offset: 91996},
+																								pos: position{line: 2891, col: 28, offset: 92512},
 																								expr: &notExpr{
-																									pos: position{line: 2922, col: 8, offset: 92949},
+																									pos: position{line: 2934, col: 8, offset: 93465},
 																									expr: &anyMatcher{
-																										line: 2922, col: 9, offset: 92950,
+																										line: 2934, col: 9, offset: 93466,
 																									},
 																								},
 																							},
@@ -24939,10 +24939,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2882, col: 11, offset: 92116},
+																			pos: position{line: 2894, col: 11, offset: 92632},
 																			run: (*parser).callonExternalLink236,
 																			expr: &litMatcher{
-																				pos:        position{line: 2882, col: 11, offset: 92116},
+																				pos:        position{line: 2894, col: 11, offset: 92632},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -25008,10 +25008,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1590, col: 5, offset: 51497},
 																	expr: &actionExpr{
-																		pos: position{line: 2903, col: 10, offset: 92601},
+																		pos: position{line: 2915, col: 10, offset: 93117},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2903, col: 10, offset: 92601},
+																			pos:        position{line: 2915, col: 10, offset: 93117},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25178,12 +25178,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2907, col: 11, offset: 92662},
+																	pos: position{line: 2919, col: 11, offset: 93178},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2907, col: 11, offset: 92662},
+																		pos: position{line: 2919, col: 11, offset: 93178},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2907, col: 11, offset: 92662},
+																			pos:        position{line: 2919, col: 11, offset: 93178},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25226,28 +25226,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2925, col: 8, offset: 92999},
+																	pos: position{line: 2937, col: 8, offset: 93515},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2912, col: 12, offset: 92772},
+																			pos: position{line: 2924, col: 12, offset: 93288},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2912, col: 13, offset: 92773},
+																				pos: position{line: 2924, col: 13, offset: 93289},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 13, offset: 92773},
+																						pos:        position{line: 2924, col: 13, offset: 93289},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 20, offset: 92780},
+																						pos:        position{line: 2924, col: 20, offset: 93296},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 29, offset: 92789},
+																						pos:        position{line: 2924, col: 29, offset: 93305},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25256,9 +25256,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2922, col: 8, offset: 92949},
+																			pos: position{line: 2934, col: 8, offset: 93465},
 																			expr: &anyMatcher{
-																				line: 2922, col: 9, offset: 92950,
+																				line: 2934, col: 9, offset: 93466,
 																			},
 																		},
 																	},
@@ -25288,10 +25288,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1640, col: 5, offset: 53459},
 																	expr: &actionExpr{
-																		pos: position{line: 2903, col: 10, offset: 92601},
+																		pos: position{line: 2915, col: 10, offset: 93117},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2903, col: 10, offset: 92601},
+																			pos:        position{line: 2915, col: 10, offset: 93117},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25332,12 +25332,12 @@ var g = &grammar{
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2907, col: 11, offset: 92662},
+																	pos: position{line: 2919, col: 11, offset: 93178},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2907, col: 11, offset: 92662},
+																		pos: position{line: 2919, col: 11, offset: 93178},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2907, col: 11, offset: 92662},
+																			pos:        position{line: 2919, col: 11, offset: 93178},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25409,12 +25409,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2907, col: 11, offset: 92662},
+																		pos: position{line: 2919, col: 11, offset: 93178},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2907, col: 11, offset: 92662},
+																			pos: position{line: 2919, col: 11, offset: 93178},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2907, col: 11, offset: 92662},
+																				pos:        position{line: 2919, col: 11, offset: 93178},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -25458,28 +25458,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2925, col: 8, offset: 92999},
+																	pos: position{line: 2937, col: 8, offset: 93515},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2912, col: 12, offset: 92772},
+																			pos: position{line: 2924, col: 12, offset: 93288},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2912, col: 13, offset: 92773},
+																				pos: position{line: 2924, col: 13, offset: 93289},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 13, offset: 92773},
+																						pos:        position{line: 2924, col: 13, offset: 93289},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 20, offset: 92780},
+																						pos:        position{line: 2924, col: 20, offset: 93296},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 29, offset: 92789},
+																						pos:        position{line: 2924, col: 29, offset: 93305},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25488,9 +25488,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2922, col: 8, offset: 92949},
+																			pos: position{line: 2934, col: 8, offset: 93465},
 																			expr: &anyMatcher{
-																				line: 2922, col: 9, offset: 92950,
+																				line: 2934, col: 9, offset: 93466,
 																			},
 																		},
 																	},
@@ -25548,12 +25548,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2907, col: 11, offset: 92662},
+																	pos: position{line: 2919, col: 11, offset: 93178},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2907, col: 11, offset: 92662},
+																		pos: position{line: 2919, col: 11, offset: 93178},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2907, col: 11, offset: 92662},
+																			pos:        position{line: 2919, col: 11, offset: 93178},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25596,28 +25596,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2925, col: 8, offset: 92999},
+																	pos: position{line: 2937, col: 8, offset: 93515},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2912, col: 12, offset: 92772},
+																			pos: position{line: 2924, col: 12, offset: 93288},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2912, col: 13, offset: 92773},
+																				pos: position{line: 2924, col: 13, offset: 93289},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 13, offset: 92773},
+																						pos:        position{line: 2924, col: 13, offset: 93289},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 20, offset: 92780},
+																						pos:        position{line: 2924, col: 20, offset: 93296},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 29, offset: 92789},
+																						pos:        position{line: 2924, col: 29, offset: 93305},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25626,9 +25626,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2922, col: 8, offset: 92949},
+																			pos: position{line: 2934, col: 8, offset: 93465},
 																			expr: &anyMatcher{
-																				line: 2922, col: 9, offset: 92950,
+																				line: 2934, col: 9, offset: 93466,
 																			},
 																		},
 																	},
@@ -25658,18 +25658,18 @@ var g = &grammar{
 																&notExpr{
 																	pos: position{line: 1675, col: 5, offset: 54478},
 																	expr: &seqExpr{
-																		pos: position{line: 2508, col: 31, offset: 81515},
+																		pos: position{line: 2520, col: 31, offset: 82031},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2508, col: 31, offset: 81515},
+																				pos:        position{line: 2520, col: 31, offset: 82031},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2508, col: 36, offset: 81520},
+																				pos: position{line: 2520, col: 36, offset: 82036},
 																				expr: &litMatcher{
-																					pos:        position{line: 2508, col: 37, offset: 81521},
+																					pos:        position{line: 2520, col: 37, offset: 82037},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
@@ -25719,28 +25719,28 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1676, col: 35, offset: 54540},
 																				expr: &choiceExpr{
-																					pos: position{line: 2925, col: 8, offset: 92999},
+																					pos: position{line: 2937, col: 8, offset: 93515},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2912, col: 12, offset: 92772},
+																							pos: position{line: 2924, col: 12, offset: 93288},
 																							run: (*parser).callonListElements167,
 																							expr: &choiceExpr{
-																								pos: position{line: 2912, col: 13, offset: 92773},
+																								pos: position{line: 2924, col: 13, offset: 93289},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2912, col: 13, offset: 92773},
+																										pos:        position{line: 2924, col: 13, offset: 93289},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2912, col: 20, offset: 92780},
+																										pos:        position{line: 2924, col: 20, offset: 93296},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2912, col: 29, offset: 92789},
+																										pos:        position{line: 2924, col: 29, offset: 93305},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -25749,9 +25749,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2922, col: 8, offset: 92949},
+																							pos: position{line: 2934, col: 8, offset: 93465},
 																							expr: &anyMatcher{
-																								line: 2922, col: 9, offset: 92950,
+																								line: 2934, col: 9, offset: 93466,
 																							},
 																						},
 																					},
@@ -25816,10 +25816,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 1694, col: 9, offset: 55045},
 																			expr: &actionExpr{
-																				pos: position{line: 2903, col: 10, offset: 92601},
+																				pos: position{line: 2915, col: 10, offset: 93117},
 																				run: (*parser).callonListElements188,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2903, col: 10, offset: 92601},
+																					pos:        position{line: 2915, col: 10, offset: 93117},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25828,28 +25828,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2925, col: 8, offset: 92999},
+																			pos: position{line: 2937, col: 8, offset: 93515},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2912, col: 12, offset: 92772},
+																					pos: position{line: 2924, col: 12, offset: 93288},
 																					run: (*parser).callonListElements191,
 																					expr: &choiceExpr{
-																						pos: position{line: 2912, col: 13, offset: 92773},
+																						pos: position{line: 2924, col: 13, offset: 93289},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2912, col: 13, offset: 92773},
+																								pos:        position{line: 2924, col: 13, offset: 93289},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2912, col: 20, offset: 92780},
+																								pos:        position{line: 2924, col: 20, offset: 93296},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2912, col: 29, offset: 92789},
+																								pos:        position{line: 2924, col: 29, offset: 93305},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25858,9 +25858,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2922, col: 8, offset: 92949},
+																					pos: position{line: 2934, col: 8, offset: 93465},
 																					expr: &anyMatcher{
-																						line: 2922, col: 9, offset: 92950,
+																						line: 2934, col: 9, offset: 93466,
 																					},
 																				},
 																			},
@@ -25874,18 +25874,18 @@ var g = &grammar{
 																					pos: position{line: 677, col: 14, offset: 21525},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2920, col: 11, offset: 92935},
+																							pos: position{line: 2932, col: 11, offset: 93451},
 																							expr: &anyMatcher{
-																								line: 2920, col: 13, offset: 92937,
+																								line: 2932, col: 13, offset: 93453,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 677, col: 21, offset: 21532},
 																							expr: &actionExpr{
-																								pos: position{line: 2903, col: 10, offset: 92601},
+																								pos: position{line: 2915, col: 10, offset: 93117},
 																								run: (*parser).callonListElements204,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2903, col: 10, offset: 92601},
+																									pos:        position{line: 2915, col: 10, offset: 93117},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25894,28 +25894,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2925, col: 8, offset: 92999},
+																							pos: position{line: 2937, col: 8, offset: 93515},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2912, col: 12, offset: 92772},
+																									pos: position{line: 2924, col: 12, offset: 93288},
 																									run: (*parser).callonListElements207,
 																									expr: &choiceExpr{
-																										pos: position{line: 2912, col: 13, offset: 92773},
+																										pos: position{line: 2924, col: 13, offset: 93289},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 13, offset: 92773},
+																												pos:        position{line: 2924, col: 13, offset: 93289},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 20, offset: 92780},
+																												pos:        position{line: 2924, col: 20, offset: 93296},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 29, offset: 92789},
+																												pos:        position{line: 2924, col: 29, offset: 93305},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25924,9 +25924,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2922, col: 8, offset: 92949},
+																									pos: position{line: 2934, col: 8, offset: 93465},
 																									expr: &anyMatcher{
-																										line: 2922, col: 9, offset: 92950,
+																										line: 2934, col: 9, offset: 93466,
 																									},
 																								},
 																							},
@@ -25945,12 +25945,12 @@ var g = &grammar{
 																	pos: position{line: 1701, col: 9, offset: 55193},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2907, col: 11, offset: 92662},
+																			pos: position{line: 2919, col: 11, offset: 93178},
 																			run: (*parser).callonListElements216,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2907, col: 11, offset: 92662},
+																				pos: position{line: 2919, col: 11, offset: 93178},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2907, col: 11, offset: 92662},
+																					pos:        position{line: 2919, col: 11, offset: 93178},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25977,28 +25977,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2925, col: 8, offset: 92999},
+																			pos: position{line: 2937, col: 8, offset: 93515},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2912, col: 12, offset: 92772},
+																					pos: position{line: 2924, col: 12, offset: 93288},
 																					run: (*parser).callonListElements224,
 																					expr: &choiceExpr{
-																						pos: position{line: 2912, col: 13, offset: 92773},
+																						pos: position{line: 2924, col: 13, offset: 93289},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2912, col: 13, offset: 92773},
+																								pos:        position{line: 2924, col: 13, offset: 93289},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2912, col: 20, offset: 92780},
+																								pos:        position{line: 2924, col: 20, offset: 93296},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2912, col: 29, offset: 92789},
+																								pos:        position{line: 2924, col: 29, offset: 93305},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -26007,9 +26007,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2922, col: 8, offset: 92949},
+																					pos: position{line: 2934, col: 8, offset: 93465},
 																					expr: &anyMatcher{
-																						line: 2922, col: 9, offset: 92950,
+																						line: 2934, col: 9, offset: 93466,
 																					},
 																				},
 																			},
@@ -26067,9 +26067,9 @@ var g = &grammar{
 					pos: position{line: 1499, col: 5, offset: 48679},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2920, col: 11, offset: 92935},
+							pos: position{line: 2932, col: 11, offset: 93451},
 							expr: &anyMatcher{
-								line: 2920, col: 13, offset: 92937,
+								line: 2932, col: 13, offset: 93453,
 							},
 						},
 						&labeledExpr{
@@ -26093,18 +26093,18 @@ var g = &grammar{
 															pos: position{line: 677, col: 14, offset: 21525},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2920, col: 11, offset: 92935},
+																	pos: position{line: 2932, col: 11, offset: 93451},
 																	expr: &anyMatcher{
-																		line: 2920, col: 13, offset: 92937,
+																		line: 2932, col: 13, offset: 93453,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 677, col: 21, offset: 21532},
 																	expr: &actionExpr{
-																		pos: position{line: 2903, col: 10, offset: 92601},
+																		pos: position{line: 2915, col: 10, offset: 93117},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2903, col: 10, offset: 92601},
+																			pos:        position{line: 2915, col: 10, offset: 93117},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26113,28 +26113,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2925, col: 8, offset: 92999},
+																	pos: position{line: 2937, col: 8, offset: 93515},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2912, col: 12, offset: 92772},
+																			pos: position{line: 2924, col: 12, offset: 93288},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2912, col: 13, offset: 92773},
+																				pos: position{line: 2924, col: 13, offset: 93289},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 13, offset: 92773},
+																						pos:        position{line: 2924, col: 13, offset: 93289},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 20, offset: 92780},
+																						pos:        position{line: 2924, col: 20, offset: 93296},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 29, offset: 92789},
+																						pos:        position{line: 2924, col: 29, offset: 93305},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26143,9 +26143,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2922, col: 8, offset: 92949},
+																			pos: position{line: 2934, col: 8, offset: 93465},
 																			expr: &anyMatcher{
-																				line: 2922, col: 9, offset: 92950,
+																				line: 2934, col: 9, offset: 93466,
 																			},
 																		},
 																	},
@@ -26178,10 +26178,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1590, col: 5, offset: 51497},
 																							expr: &actionExpr{
-																								pos: position{line: 2903, col: 10, offset: 92601},
+																								pos: position{line: 2915, col: 10, offset: 93117},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2903, col: 10, offset: 92601},
+																									pos:        position{line: 2915, col: 10, offset: 93117},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26348,12 +26348,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2907, col: 11, offset: 92662},
+																							pos: position{line: 2919, col: 11, offset: 93178},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2907, col: 11, offset: 92662},
+																								pos: position{line: 2919, col: 11, offset: 93178},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2907, col: 11, offset: 92662},
+																									pos:        position{line: 2919, col: 11, offset: 93178},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26396,28 +26396,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2925, col: 8, offset: 92999},
+																							pos: position{line: 2937, col: 8, offset: 93515},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2912, col: 12, offset: 92772},
+																									pos: position{line: 2924, col: 12, offset: 93288},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2912, col: 13, offset: 92773},
+																										pos: position{line: 2924, col: 13, offset: 93289},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 13, offset: 92773},
+																												pos:        position{line: 2924, col: 13, offset: 93289},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 20, offset: 92780},
+																												pos:        position{line: 2924, col: 20, offset: 93296},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 29, offset: 92789},
+																												pos:        position{line: 2924, col: 29, offset: 93305},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26426,9 +26426,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2922, col: 8, offset: 92949},
+																									pos: position{line: 2934, col: 8, offset: 93465},
 																									expr: &anyMatcher{
-																										line: 2922, col: 9, offset: 92950,
+																										line: 2934, col: 9, offset: 93466,
 																									},
 																								},
 																							},
@@ -26458,10 +26458,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1640, col: 5, offset: 53459},
 																							expr: &actionExpr{
-																								pos: position{line: 2903, col: 10, offset: 92601},
+																								pos: position{line: 2915, col: 10, offset: 93117},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2903, col: 10, offset: 92601},
+																									pos:        position{line: 2915, col: 10, offset: 93117},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26502,12 +26502,12 @@ var g = &grammar{
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2907, col: 11, offset: 92662},
+																							pos: position{line: 2919, col: 11, offset: 93178},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2907, col: 11, offset: 92662},
+																								pos: position{line: 2919, col: 11, offset: 93178},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2907, col: 11, offset: 92662},
+																									pos:        position{line: 2919, col: 11, offset: 93178},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26579,12 +26579,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2907, col: 11, offset: 92662},
+																								pos: position{line: 2919, col: 11, offset: 93178},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2907, col: 11, offset: 92662},
+																									pos: position{line: 2919, col: 11, offset: 93178},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2907, col: 11, offset: 92662},
+																										pos:        position{line: 2919, col: 11, offset: 93178},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -26628,28 +26628,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2925, col: 8, offset: 92999},
+																							pos: position{line: 2937, col: 8, offset: 93515},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2912, col: 12, offset: 92772},
+																									pos: position{line: 2924, col: 12, offset: 93288},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2912, col: 13, offset: 92773},
+																										pos: position{line: 2924, col: 13, offset: 93289},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 13, offset: 92773},
+																												pos:        position{line: 2924, col: 13, offset: 93289},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 20, offset: 92780},
+																												pos:        position{line: 2924, col: 20, offset: 93296},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 29, offset: 92789},
+																												pos:        position{line: 2924, col: 29, offset: 93305},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26658,9 +26658,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2922, col: 8, offset: 92949},
+																									pos: position{line: 2934, col: 8, offset: 93465},
 																									expr: &anyMatcher{
-																										line: 2922, col: 9, offset: 92950,
+																										line: 2934, col: 9, offset: 93466,
 																									},
 																								},
 																							},
@@ -26718,12 +26718,12 @@ var g = &grammar{
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2907, col: 11, offset: 92662},
+																							pos: position{line: 2919, col: 11, offset: 93178},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2907, col: 11, offset: 92662},
+																								pos: position{line: 2919, col: 11, offset: 93178},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2907, col: 11, offset: 92662},
+																									pos:        position{line: 2919, col: 11, offset: 93178},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26766,28 +26766,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2925, col: 8, offset: 92999},
+																							pos: position{line: 2937, col: 8, offset: 93515},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2912, col: 12, offset: 92772},
+																									pos: position{line: 2924, col: 12, offset: 93288},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2912, col: 13, offset: 92773},
+																										pos: position{line: 2924, col: 13, offset: 93289},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 13, offset: 92773},
+																												pos:        position{line: 2924, col: 13, offset: 93289},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 20, offset: 92780},
+																												pos:        position{line: 2924, col: 20, offset: 93296},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 29, offset: 92789},
+																												pos:        position{line: 2924, col: 29, offset: 93305},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26796,9 +26796,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2922, col: 8, offset: 92949},
+																									pos: position{line: 2934, col: 8, offset: 93465},
 																									expr: &anyMatcher{
-																										line: 2922, col: 9, offset: 92950,
+																										line: 2934, col: 9, offset: 93466,
 																									},
 																								},
 																							},
@@ -26828,18 +26828,18 @@ var g = &grammar{
 																						&notExpr{
 																							pos: position{line: 1675, col: 5, offset: 54478},
 																							expr: &seqExpr{
-																								pos: position{line: 2508, col: 31, offset: 81515},
+																								pos: position{line: 2520, col: 31, offset: 82031},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2508, col: 31, offset: 81515},
+																										pos:        position{line: 2520, col: 31, offset: 82031},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2508, col: 36, offset: 81520},
+																										pos: position{line: 2520, col: 36, offset: 82036},
 																										expr: &litMatcher{
-																											pos:        position{line: 2508, col: 37, offset: 81521},
+																											pos:        position{line: 2520, col: 37, offset: 82037},
 																											val:        "//",
 																											ignoreCase: false,
 																											want:       "\"//\"",
@@ -26889,28 +26889,28 @@ var g = &grammar{
 																									&notExpr{
 																										pos: position{line: 1676, col: 35, offset: 54540},
 																										expr: &choiceExpr{
-																											pos: position{line: 2925, col: 8, offset: 92999},
+																											pos: position{line: 2937, col: 8, offset: 93515},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2912, col: 12, offset: 92772},
+																													pos: position{line: 2924, col: 12, offset: 93288},
 																													run: (*parser).callonExtraListElement189,
 																													expr: &choiceExpr{
-																														pos: position{line: 2912, col: 13, offset: 92773},
+																														pos: position{line: 2924, col: 13, offset: 93289},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 13, offset: 92773},
+																																pos:        position{line: 2924, col: 13, offset: 93289},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 20, offset: 92780},
+																																pos:        position{line: 2924, col: 20, offset: 93296},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 29, offset: 92789},
+																																pos:        position{line: 2924, col: 29, offset: 93305},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -26919,9 +26919,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2922, col: 8, offset: 92949},
+																													pos: position{line: 2934, col: 8, offset: 93465},
 																													expr: &anyMatcher{
-																														line: 2922, col: 9, offset: 92950,
+																														line: 2934, col: 9, offset: 93466,
 																													},
 																												},
 																											},
@@ -26986,10 +26986,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 1694, col: 9, offset: 55045},
 																									expr: &actionExpr{
-																										pos: position{line: 2903, col: 10, offset: 92601},
+																										pos: position{line: 2915, col: 10, offset: 93117},
 																										run: (*parser).callonExtraListElement210,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2903, col: 10, offset: 92601},
+																											pos:        position{line: 2915, col: 10, offset: 93117},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26998,28 +26998,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2925, col: 8, offset: 92999},
+																									pos: position{line: 2937, col: 8, offset: 93515},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2912, col: 12, offset: 92772},
+																											pos: position{line: 2924, col: 12, offset: 93288},
 																											run: (*parser).callonExtraListElement213,
 																											expr: &choiceExpr{
-																												pos: position{line: 2912, col: 13, offset: 92773},
+																												pos: position{line: 2924, col: 13, offset: 93289},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2912, col: 13, offset: 92773},
+																														pos:        position{line: 2924, col: 13, offset: 93289},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2912, col: 20, offset: 92780},
+																														pos:        position{line: 2924, col: 20, offset: 93296},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2912, col: 29, offset: 92789},
+																														pos:        position{line: 2924, col: 29, offset: 93305},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27028,9 +27028,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2922, col: 8, offset: 92949},
+																											pos: position{line: 2934, col: 8, offset: 93465},
 																											expr: &anyMatcher{
-																												line: 2922, col: 9, offset: 92950,
+																												line: 2934, col: 9, offset: 93466,
 																											},
 																										},
 																									},
@@ -27044,18 +27044,18 @@ var g = &grammar{
 																											pos: position{line: 677, col: 14, offset: 21525},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2920, col: 11, offset: 92935},
+																													pos: position{line: 2932, col: 11, offset: 93451},
 																													expr: &anyMatcher{
-																														line: 2920, col: 13, offset: 92937,
+																														line: 2932, col: 13, offset: 93453,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 677, col: 21, offset: 21532},
 																													expr: &actionExpr{
-																														pos: position{line: 2903, col: 10, offset: 92601},
+																														pos: position{line: 2915, col: 10, offset: 93117},
 																														run: (*parser).callonExtraListElement226,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2903, col: 10, offset: 92601},
+																															pos:        position{line: 2915, col: 10, offset: 93117},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27064,28 +27064,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2925, col: 8, offset: 92999},
+																													pos: position{line: 2937, col: 8, offset: 93515},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2912, col: 12, offset: 92772},
+																															pos: position{line: 2924, col: 12, offset: 93288},
 																															run: (*parser).callonExtraListElement229,
 																															expr: &choiceExpr{
-																																pos: position{line: 2912, col: 13, offset: 92773},
+																																pos: position{line: 2924, col: 13, offset: 93289},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2912, col: 13, offset: 92773},
+																																		pos:        position{line: 2924, col: 13, offset: 93289},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2912, col: 20, offset: 92780},
+																																		pos:        position{line: 2924, col: 20, offset: 93296},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2912, col: 29, offset: 92789},
+																																		pos:        position{line: 2924, col: 29, offset: 93305},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -27094,9 +27094,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2922, col: 8, offset: 92949},
+																															pos: position{line: 2934, col: 8, offset: 93465},
 																															expr: &anyMatcher{
-																																line: 2922, col: 9, offset: 92950,
+																																line: 2934, col: 9, offset: 93466,
 																															},
 																														},
 																													},
@@ -27115,12 +27115,12 @@ var g = &grammar{
 																							pos: position{line: 1701, col: 9, offset: 55193},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2907, col: 11, offset: 92662},
+																									pos: position{line: 2919, col: 11, offset: 93178},
 																									run: (*parser).callonExtraListElement238,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2907, col: 11, offset: 92662},
+																										pos: position{line: 2919, col: 11, offset: 93178},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2907, col: 11, offset: 92662},
+																											pos:        position{line: 2919, col: 11, offset: 93178},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27147,28 +27147,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2925, col: 8, offset: 92999},
+																									pos: position{line: 2937, col: 8, offset: 93515},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2912, col: 12, offset: 92772},
+																											pos: position{line: 2924, col: 12, offset: 93288},
 																											run: (*parser).callonExtraListElement246,
 																											expr: &choiceExpr{
-																												pos: position{line: 2912, col: 13, offset: 92773},
+																												pos: position{line: 2924, col: 13, offset: 93289},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2912, col: 13, offset: 92773},
+																														pos:        position{line: 2924, col: 13, offset: 93289},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2912, col: 20, offset: 92780},
+																														pos:        position{line: 2924, col: 20, offset: 93296},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2912, col: 29, offset: 92789},
+																														pos:        position{line: 2924, col: 29, offset: 93305},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27177,9 +27177,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2922, col: 8, offset: 92949},
+																											pos: position{line: 2934, col: 8, offset: 93465},
 																											expr: &anyMatcher{
-																												line: 2922, col: 9, offset: 92950,
+																												line: 2934, col: 9, offset: 93466,
 																											},
 																										},
 																									},
@@ -27240,10 +27240,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1590, col: 5, offset: 51497},
 																							expr: &actionExpr{
-																								pos: position{line: 2903, col: 10, offset: 92601},
+																								pos: position{line: 2915, col: 10, offset: 93117},
 																								run: (*parser).callonExtraListElement266,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2903, col: 10, offset: 92601},
+																									pos:        position{line: 2915, col: 10, offset: 93117},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27410,12 +27410,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2907, col: 11, offset: 92662},
+																							pos: position{line: 2919, col: 11, offset: 93178},
 																							run: (*parser).callonExtraListElement300,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2907, col: 11, offset: 92662},
+																								pos: position{line: 2919, col: 11, offset: 93178},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2907, col: 11, offset: 92662},
+																									pos:        position{line: 2919, col: 11, offset: 93178},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27458,28 +27458,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2925, col: 8, offset: 92999},
+																							pos: position{line: 2937, col: 8, offset: 93515},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2912, col: 12, offset: 92772},
+																									pos: position{line: 2924, col: 12, offset: 93288},
 																									run: (*parser).callonExtraListElement312,
 																									expr: &choiceExpr{
-																										pos: position{line: 2912, col: 13, offset: 92773},
+																										pos: position{line: 2924, col: 13, offset: 93289},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 13, offset: 92773},
+																												pos:        position{line: 2924, col: 13, offset: 93289},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 20, offset: 92780},
+																												pos:        position{line: 2924, col: 20, offset: 93296},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 29, offset: 92789},
+																												pos:        position{line: 2924, col: 29, offset: 93305},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27488,9 +27488,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2922, col: 8, offset: 92949},
+																									pos: position{line: 2934, col: 8, offset: 93465},
 																									expr: &anyMatcher{
-																										line: 2922, col: 9, offset: 92950,
+																										line: 2934, col: 9, offset: 93466,
 																									},
 																								},
 																							},
@@ -27520,10 +27520,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1640, col: 5, offset: 53459},
 																							expr: &actionExpr{
-																								pos: position{line: 2903, col: 10, offset: 92601},
+																								pos: position{line: 2915, col: 10, offset: 93117},
 																								run: (*parser).callonExtraListElement325,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2903, col: 10, offset: 92601},
+																									pos:        position{line: 2915, col: 10, offset: 93117},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27564,12 +27564,12 @@ var g = &grammar{
 																							run: (*parser).callonExtraListElement333,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2907, col: 11, offset: 92662},
+																							pos: position{line: 2919, col: 11, offset: 93178},
 																							run: (*parser).callonExtraListElement334,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2907, col: 11, offset: 92662},
+																								pos: position{line: 2919, col: 11, offset: 93178},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2907, col: 11, offset: 92662},
+																									pos:        position{line: 2919, col: 11, offset: 93178},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27641,12 +27641,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2907, col: 11, offset: 92662},
+																								pos: position{line: 2919, col: 11, offset: 93178},
 																								run: (*parser).callonExtraListElement351,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2907, col: 11, offset: 92662},
+																									pos: position{line: 2919, col: 11, offset: 93178},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2907, col: 11, offset: 92662},
+																										pos:        position{line: 2919, col: 11, offset: 93178},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27690,28 +27690,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2925, col: 8, offset: 92999},
+																							pos: position{line: 2937, col: 8, offset: 93515},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2912, col: 12, offset: 92772},
+																									pos: position{line: 2924, col: 12, offset: 93288},
 																									run: (*parser).callonExtraListElement363,
 																									expr: &choiceExpr{
-																										pos: position{line: 2912, col: 13, offset: 92773},
+																										pos: position{line: 2924, col: 13, offset: 93289},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 13, offset: 92773},
+																												pos:        position{line: 2924, col: 13, offset: 93289},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 20, offset: 92780},
+																												pos:        position{line: 2924, col: 20, offset: 93296},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 29, offset: 92789},
+																												pos:        position{line: 2924, col: 29, offset: 93305},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27720,9 +27720,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2922, col: 8, offset: 92949},
+																									pos: position{line: 2934, col: 8, offset: 93465},
 																									expr: &anyMatcher{
-																										line: 2922, col: 9, offset: 92950,
+																										line: 2934, col: 9, offset: 93466,
 																									},
 																								},
 																							},
@@ -27780,12 +27780,12 @@ var g = &grammar{
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2907, col: 11, offset: 92662},
+																							pos: position{line: 2919, col: 11, offset: 93178},
 																							run: (*parser).callonExtraListElement381,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2907, col: 11, offset: 92662},
+																								pos: position{line: 2919, col: 11, offset: 93178},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2907, col: 11, offset: 92662},
+																									pos:        position{line: 2919, col: 11, offset: 93178},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27828,28 +27828,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2925, col: 8, offset: 92999},
+																							pos: position{line: 2937, col: 8, offset: 93515},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2912, col: 12, offset: 92772},
+																									pos: position{line: 2924, col: 12, offset: 93288},
 																									run: (*parser).callonExtraListElement393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2912, col: 13, offset: 92773},
+																										pos: position{line: 2924, col: 13, offset: 93289},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 13, offset: 92773},
+																												pos:        position{line: 2924, col: 13, offset: 93289},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 20, offset: 92780},
+																												pos:        position{line: 2924, col: 20, offset: 93296},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 29, offset: 92789},
+																												pos:        position{line: 2924, col: 29, offset: 93305},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27858,9 +27858,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2922, col: 8, offset: 92949},
+																									pos: position{line: 2934, col: 8, offset: 93465},
 																									expr: &anyMatcher{
-																										line: 2922, col: 9, offset: 92950,
+																										line: 2934, col: 9, offset: 93466,
 																									},
 																								},
 																							},
@@ -27890,18 +27890,18 @@ var g = &grammar{
 																						&notExpr{
 																							pos: position{line: 1675, col: 5, offset: 54478},
 																							expr: &seqExpr{
-																								pos: position{line: 2508, col: 31, offset: 81515},
+																								pos: position{line: 2520, col: 31, offset: 82031},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2508, col: 31, offset: 81515},
+																										pos:        position{line: 2520, col: 31, offset: 82031},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2508, col: 36, offset: 81520},
+																										pos: position{line: 2520, col: 36, offset: 82036},
 																										expr: &litMatcher{
-																											pos:        position{line: 2508, col: 37, offset: 81521},
+																											pos:        position{line: 2520, col: 37, offset: 82037},
 																											val:        "//",
 																											ignoreCase: false,
 																											want:       "\"//\"",
@@ -27951,28 +27951,28 @@ var g = &grammar{
 																									&notExpr{
 																										pos: position{line: 1676, col: 35, offset: 54540},
 																										expr: &choiceExpr{
-																											pos: position{line: 2925, col: 8, offset: 92999},
+																											pos: position{line: 2937, col: 8, offset: 93515},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2912, col: 12, offset: 92772},
+																													pos: position{line: 2924, col: 12, offset: 93288},
 																													run: (*parser).callonExtraListElement422,
 																													expr: &choiceExpr{
-																														pos: position{line: 2912, col: 13, offset: 92773},
+																														pos: position{line: 2924, col: 13, offset: 93289},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 13, offset: 92773},
+																																pos:        position{line: 2924, col: 13, offset: 93289},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 20, offset: 92780},
+																																pos:        position{line: 2924, col: 20, offset: 93296},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 29, offset: 92789},
+																																pos:        position{line: 2924, col: 29, offset: 93305},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -27981,9 +27981,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2922, col: 8, offset: 92949},
+																													pos: position{line: 2934, col: 8, offset: 93465},
 																													expr: &anyMatcher{
-																														line: 2922, col: 9, offset: 92950,
+																														line: 2934, col: 9, offset: 93466,
 																													},
 																												},
 																											},
@@ -28048,10 +28048,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 1694, col: 9, offset: 55045},
 																									expr: &actionExpr{
-																										pos: position{line: 2903, col: 10, offset: 92601},
+																										pos: position{line: 2915, col: 10, offset: 93117},
 																										run: (*parser).callonExtraListElement443,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2903, col: 10, offset: 92601},
+																											pos:        position{line: 2915, col: 10, offset: 93117},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28060,28 +28060,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2925, col: 8, offset: 92999},
+																									pos: position{line: 2937, col: 8, offset: 93515},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2912, col: 12, offset: 92772},
+																											pos: position{line: 2924, col: 12, offset: 93288},
 																											run: (*parser).callonExtraListElement446,
 																											expr: &choiceExpr{
-																												pos: position{line: 2912, col: 13, offset: 92773},
+																												pos: position{line: 2924, col: 13, offset: 93289},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2912, col: 13, offset: 92773},
+																														pos:        position{line: 2924, col: 13, offset: 93289},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2912, col: 20, offset: 92780},
+																														pos:        position{line: 2924, col: 20, offset: 93296},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2912, col: 29, offset: 92789},
+																														pos:        position{line: 2924, col: 29, offset: 93305},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28090,9 +28090,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2922, col: 8, offset: 92949},
+																											pos: position{line: 2934, col: 8, offset: 93465},
 																											expr: &anyMatcher{
-																												line: 2922, col: 9, offset: 92950,
+																												line: 2934, col: 9, offset: 93466,
 																											},
 																										},
 																									},
@@ -28106,18 +28106,18 @@ var g = &grammar{
 																											pos: position{line: 677, col: 14, offset: 21525},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2920, col: 11, offset: 92935},
+																													pos: position{line: 2932, col: 11, offset: 93451},
 																													expr: &anyMatcher{
-																														line: 2920, col: 13, offset: 92937,
+																														line: 2932, col: 13, offset: 93453,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 677, col: 21, offset: 21532},
 																													expr: &actionExpr{
-																														pos: position{line: 2903, col: 10, offset: 92601},
+																														pos: position{line: 2915, col: 10, offset: 93117},
 																														run: (*parser).callonExtraListElement459,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2903, col: 10, offset: 92601},
+																															pos:        position{line: 2915, col: 10, offset: 93117},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -28126,28 +28126,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2925, col: 8, offset: 92999},
+																													pos: position{line: 2937, col: 8, offset: 93515},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2912, col: 12, offset: 92772},
+																															pos: position{line: 2924, col: 12, offset: 93288},
 																															run: (*parser).callonExtraListElement462,
 																															expr: &choiceExpr{
-																																pos: position{line: 2912, col: 13, offset: 92773},
+																																pos: position{line: 2924, col: 13, offset: 93289},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2912, col: 13, offset: 92773},
+																																		pos:        position{line: 2924, col: 13, offset: 93289},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2912, col: 20, offset: 92780},
+																																		pos:        position{line: 2924, col: 20, offset: 93296},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2912, col: 29, offset: 92789},
+																																		pos:        position{line: 2924, col: 29, offset: 93305},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -28156,9 +28156,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2922, col: 8, offset: 92949},
+																															pos: position{line: 2934, col: 8, offset: 93465},
 																															expr: &anyMatcher{
-																																line: 2922, col: 9, offset: 92950,
+																																line: 2934, col: 9, offset: 93466,
 																															},
 																														},
 																													},
@@ -28177,12 +28177,12 @@ var g = &grammar{
 																							pos: position{line: 1701, col: 9, offset: 55193},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2907, col: 11, offset: 92662},
+																									pos: position{line: 2919, col: 11, offset: 93178},
 																									run: (*parser).callonExtraListElement471,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2907, col: 11, offset: 92662},
+																										pos: position{line: 2919, col: 11, offset: 93178},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2907, col: 11, offset: 92662},
+																											pos:        position{line: 2919, col: 11, offset: 93178},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28209,28 +28209,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2925, col: 8, offset: 92999},
+																									pos: position{line: 2937, col: 8, offset: 93515},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2912, col: 12, offset: 92772},
+																											pos: position{line: 2924, col: 12, offset: 93288},
 																											run: (*parser).callonExtraListElement479,
 																											expr: &choiceExpr{
-																												pos: position{line: 2912, col: 13, offset: 92773},
+																												pos: position{line: 2924, col: 13, offset: 93289},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2912, col: 13, offset: 92773},
+																														pos:        position{line: 2924, col: 13, offset: 93289},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2912, col: 20, offset: 92780},
+																														pos:        position{line: 2924, col: 20, offset: 93296},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2912, col: 29, offset: 92789},
+																														pos:        position{line: 2924, col: 29, offset: 93305},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28239,9 +28239,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2922, col: 8, offset: 92949},
+																											pos: position{line: 2934, col: 8, offset: 93465},
 																											expr: &anyMatcher{
-																												line: 2922, col: 9, offset: 92950,
+																												line: 2934, col: 9, offset: 93466,
 																											},
 																										},
 																									},
@@ -28266,36 +28266,36 @@ var g = &grammar{
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2503, col: 22, offset: 81294},
+										pos: position{line: 2515, col: 22, offset: 81810},
 										run: (*parser).callonExtraListElement487,
 										expr: &seqExpr{
-											pos: position{line: 2503, col: 22, offset: 81294},
+											pos: position{line: 2515, col: 22, offset: 81810},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2508, col: 31, offset: 81515},
+													pos:        position{line: 2520, col: 31, offset: 82031},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2508, col: 36, offset: 81520},
+													pos: position{line: 2520, col: 36, offset: 82036},
 													expr: &litMatcher{
-														pos:        position{line: 2508, col: 37, offset: 81521},
+														pos:        position{line: 2520, col: 37, offset: 82037},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2503, col: 49, offset: 81321},
+													pos:   position{line: 2515, col: 49, offset: 81837},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2849, col: 13, offset: 91127},
+														pos: position{line: 2861, col: 13, offset: 91643},
 														run: (*parser).callonExtraListElement493,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2849, col: 13, offset: 91127},
+															pos: position{line: 2861, col: 13, offset: 91643},
 															expr: &charClassMatcher{
-																pos:        position{line: 2849, col: 13, offset: 91127},
+																pos:        position{line: 2861, col: 13, offset: 91643},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -28305,28 +28305,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2925, col: 8, offset: 92999},
+													pos: position{line: 2937, col: 8, offset: 93515},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2912, col: 12, offset: 92772},
+															pos: position{line: 2924, col: 12, offset: 93288},
 															run: (*parser).callonExtraListElement497,
 															expr: &choiceExpr{
-																pos: position{line: 2912, col: 13, offset: 92773},
+																pos: position{line: 2924, col: 13, offset: 93289},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2912, col: 13, offset: 92773},
+																		pos:        position{line: 2924, col: 13, offset: 93289},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2912, col: 20, offset: 92780},
+																		pos:        position{line: 2924, col: 20, offset: 93296},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2912, col: 29, offset: 92789},
+																		pos:        position{line: 2924, col: 29, offset: 93305},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -28335,9 +28335,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2922, col: 8, offset: 92949},
+															pos: position{line: 2934, col: 8, offset: 93465},
 															expr: &anyMatcher{
-																line: 2922, col: 9, offset: 92950,
+																line: 2934, col: 9, offset: 93466,
 															},
 														},
 													},
@@ -28360,18 +28360,18 @@ var g = &grammar{
 															pos: position{line: 677, col: 14, offset: 21525},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2920, col: 11, offset: 92935},
+																	pos: position{line: 2932, col: 11, offset: 93451},
 																	expr: &anyMatcher{
-																		line: 2920, col: 13, offset: 92937,
+																		line: 2932, col: 13, offset: 93453,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 677, col: 21, offset: 21532},
 																	expr: &actionExpr{
-																		pos: position{line: 2903, col: 10, offset: 92601},
+																		pos: position{line: 2915, col: 10, offset: 93117},
 																		run: (*parser).callonExtraListElement512,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2903, col: 10, offset: 92601},
+																			pos:        position{line: 2915, col: 10, offset: 93117},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28380,28 +28380,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2925, col: 8, offset: 92999},
+																	pos: position{line: 2937, col: 8, offset: 93515},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2912, col: 12, offset: 92772},
+																			pos: position{line: 2924, col: 12, offset: 93288},
 																			run: (*parser).callonExtraListElement515,
 																			expr: &choiceExpr{
-																				pos: position{line: 2912, col: 13, offset: 92773},
+																				pos: position{line: 2924, col: 13, offset: 93289},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 13, offset: 92773},
+																						pos:        position{line: 2924, col: 13, offset: 93289},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 20, offset: 92780},
+																						pos:        position{line: 2924, col: 20, offset: 93296},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 29, offset: 92789},
+																						pos:        position{line: 2924, col: 29, offset: 93305},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -28410,9 +28410,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2922, col: 8, offset: 92949},
+																			pos: position{line: 2934, col: 8, offset: 93465},
 																			expr: &anyMatcher{
-																				line: 2922, col: 9, offset: 92950,
+																				line: 2934, col: 9, offset: 93466,
 																			},
 																		},
 																	},
@@ -28435,10 +28435,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1548, col: 31, offset: 50257},
 																expr: &actionExpr{
-																	pos: position{line: 2903, col: 10, offset: 92601},
+																	pos: position{line: 2915, col: 10, offset: 93117},
 																	run: (*parser).callonExtraListElement526,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2903, col: 10, offset: 92601},
+																		pos:        position{line: 2915, col: 10, offset: 93117},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -28447,25 +28447,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2912, col: 12, offset: 92772},
+																pos: position{line: 2924, col: 12, offset: 93288},
 																run: (*parser).callonExtraListElement528,
 																expr: &choiceExpr{
-																	pos: position{line: 2912, col: 13, offset: 92773},
+																	pos: position{line: 2924, col: 13, offset: 93289},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2912, col: 13, offset: 92773},
+																			pos:        position{line: 2924, col: 13, offset: 93289},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2912, col: 20, offset: 92780},
+																			pos:        position{line: 2924, col: 20, offset: 93296},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2912, col: 29, offset: 92789},
+																			pos:        position{line: 2924, col: 29, offset: 93305},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -28487,10 +28487,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1590, col: 5, offset: 51497},
 																	expr: &actionExpr{
-																		pos: position{line: 2903, col: 10, offset: 92601},
+																		pos: position{line: 2915, col: 10, offset: 93117},
 																		run: (*parser).callonExtraListElement537,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2903, col: 10, offset: 92601},
+																			pos:        position{line: 2915, col: 10, offset: 93117},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28657,12 +28657,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2907, col: 11, offset: 92662},
+																	pos: position{line: 2919, col: 11, offset: 93178},
 																	run: (*parser).callonExtraListElement571,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2907, col: 11, offset: 92662},
+																		pos: position{line: 2919, col: 11, offset: 93178},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2907, col: 11, offset: 92662},
+																			pos:        position{line: 2919, col: 11, offset: 93178},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28685,10 +28685,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1640, col: 5, offset: 53459},
 																	expr: &actionExpr{
-																		pos: position{line: 2903, col: 10, offset: 92601},
+																		pos: position{line: 2915, col: 10, offset: 93117},
 																		run: (*parser).callonExtraListElement578,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2903, col: 10, offset: 92601},
+																			pos:        position{line: 2915, col: 10, offset: 93117},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28729,12 +28729,12 @@ var g = &grammar{
 																	run: (*parser).callonExtraListElement586,
 																},
 																&actionExpr{
-																	pos: position{line: 2907, col: 11, offset: 92662},
+																	pos: position{line: 2919, col: 11, offset: 93178},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2907, col: 11, offset: 92662},
+																		pos: position{line: 2919, col: 11, offset: 93178},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2907, col: 11, offset: 92662},
+																			pos:        position{line: 2919, col: 11, offset: 93178},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28785,12 +28785,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2907, col: 11, offset: 92662},
+																	pos: position{line: 2919, col: 11, offset: 93178},
 																	run: (*parser).callonExtraListElement599,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2907, col: 11, offset: 92662},
+																		pos: position{line: 2919, col: 11, offset: 93178},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2907, col: 11, offset: 92662},
+																			pos:        position{line: 2919, col: 11, offset: 93178},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28816,18 +28816,18 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1675, col: 5, offset: 54478},
 																			expr: &seqExpr{
-																				pos: position{line: 2508, col: 31, offset: 81515},
+																				pos: position{line: 2520, col: 31, offset: 82031},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2508, col: 31, offset: 81515},
+																						pos:        position{line: 2520, col: 31, offset: 82031},
 																						val:        "//",
 																						ignoreCase: false,
 																						want:       "\"//\"",
 																					},
 																					&notExpr{
-																						pos: position{line: 2508, col: 36, offset: 81520},
+																						pos: position{line: 2520, col: 36, offset: 82036},
 																						expr: &litMatcher{
-																							pos:        position{line: 2508, col: 37, offset: 81521},
+																							pos:        position{line: 2520, col: 37, offset: 82037},
 																							val:        "//",
 																							ignoreCase: false,
 																							want:       "\"//\"",
@@ -28877,28 +28877,28 @@ var g = &grammar{
 																					&notExpr{
 																						pos: position{line: 1676, col: 35, offset: 54540},
 																						expr: &choiceExpr{
-																							pos: position{line: 2925, col: 8, offset: 92999},
+																							pos: position{line: 2937, col: 8, offset: 93515},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2912, col: 12, offset: 92772},
+																									pos: position{line: 2924, col: 12, offset: 93288},
 																									run: (*parser).callonExtraListElement623,
 																									expr: &choiceExpr{
-																										pos: position{line: 2912, col: 13, offset: 92773},
+																										pos: position{line: 2924, col: 13, offset: 93289},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 13, offset: 92773},
+																												pos:        position{line: 2924, col: 13, offset: 93289},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 20, offset: 92780},
+																												pos:        position{line: 2924, col: 20, offset: 93296},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 29, offset: 92789},
+																												pos:        position{line: 2924, col: 29, offset: 93305},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28907,9 +28907,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2922, col: 8, offset: 92949},
+																									pos: position{line: 2934, col: 8, offset: 93465},
 																									expr: &anyMatcher{
-																										line: 2922, col: 9, offset: 92950,
+																										line: 2934, col: 9, offset: 93466,
 																									},
 																								},
 																							},
@@ -28968,7 +28968,7 @@ var g = &grammar{
 																&notExpr{
 																	pos: position{line: 725, col: 5, offset: 23101},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2786, col: 13, offset: 89482},
+																		pos:        position{line: 2798, col: 13, offset: 89998},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -29018,10 +29018,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 743, col: 8, offset: 23745},
 																							expr: &actionExpr{
-																								pos: position{line: 2903, col: 10, offset: 92601},
+																								pos: position{line: 2915, col: 10, offset: 93117},
 																								run: (*parser).callonExtraListElement654,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2903, col: 10, offset: 92601},
+																									pos:        position{line: 2915, col: 10, offset: 93117},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29030,28 +29030,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2925, col: 8, offset: 92999},
+																							pos: position{line: 2937, col: 8, offset: 93515},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2912, col: 12, offset: 92772},
+																									pos: position{line: 2924, col: 12, offset: 93288},
 																									run: (*parser).callonExtraListElement657,
 																									expr: &choiceExpr{
-																										pos: position{line: 2912, col: 13, offset: 92773},
+																										pos: position{line: 2924, col: 13, offset: 93289},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 13, offset: 92773},
+																												pos:        position{line: 2924, col: 13, offset: 93289},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 20, offset: 92780},
+																												pos:        position{line: 2924, col: 20, offset: 93296},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 29, offset: 92789},
+																												pos:        position{line: 2924, col: 29, offset: 93305},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29060,9 +29060,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2922, col: 8, offset: 92949},
+																									pos: position{line: 2934, col: 8, offset: 93465},
 																									expr: &anyMatcher{
-																										line: 2922, col: 9, offset: 92950,
+																										line: 2934, col: 9, offset: 93466,
 																									},
 																								},
 																							},
@@ -29107,10 +29107,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 750, col: 8, offset: 23993},
 																							expr: &actionExpr{
-																								pos: position{line: 2903, col: 10, offset: 92601},
+																								pos: position{line: 2915, col: 10, offset: 93117},
 																								run: (*parser).callonExtraListElement673,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2903, col: 10, offset: 92601},
+																									pos:        position{line: 2915, col: 10, offset: 93117},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29119,28 +29119,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2925, col: 8, offset: 92999},
+																							pos: position{line: 2937, col: 8, offset: 93515},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2912, col: 12, offset: 92772},
+																									pos: position{line: 2924, col: 12, offset: 93288},
 																									run: (*parser).callonExtraListElement676,
 																									expr: &choiceExpr{
-																										pos: position{line: 2912, col: 13, offset: 92773},
+																										pos: position{line: 2924, col: 13, offset: 93289},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 13, offset: 92773},
+																												pos:        position{line: 2924, col: 13, offset: 93289},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 20, offset: 92780},
+																												pos:        position{line: 2924, col: 20, offset: 93296},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 29, offset: 92789},
+																												pos:        position{line: 2924, col: 29, offset: 93305},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29149,9 +29149,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2922, col: 8, offset: 92949},
+																									pos: position{line: 2934, col: 8, offset: 93465},
 																									expr: &anyMatcher{
-																										line: 2922, col: 9, offset: 92950,
+																										line: 2934, col: 9, offset: 93466,
 																									},
 																								},
 																							},
@@ -29192,10 +29192,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 761, col: 52, offset: 24405},
 																							expr: &actionExpr{
-																								pos: position{line: 2903, col: 10, offset: 92601},
+																								pos: position{line: 2915, col: 10, offset: 93117},
 																								run: (*parser).callonExtraListElement691,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2903, col: 10, offset: 92601},
+																									pos:        position{line: 2915, col: 10, offset: 93117},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29204,28 +29204,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2925, col: 8, offset: 92999},
+																							pos: position{line: 2937, col: 8, offset: 93515},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2912, col: 12, offset: 92772},
+																									pos: position{line: 2924, col: 12, offset: 93288},
 																									run: (*parser).callonExtraListElement694,
 																									expr: &choiceExpr{
-																										pos: position{line: 2912, col: 13, offset: 92773},
+																										pos: position{line: 2924, col: 13, offset: 93289},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 13, offset: 92773},
+																												pos:        position{line: 2924, col: 13, offset: 93289},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 20, offset: 92780},
+																												pos:        position{line: 2924, col: 20, offset: 93296},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 29, offset: 92789},
+																												pos:        position{line: 2924, col: 29, offset: 93305},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29234,9 +29234,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2922, col: 8, offset: 92949},
+																									pos: position{line: 2934, col: 8, offset: 93465},
 																									expr: &anyMatcher{
-																										line: 2922, col: 9, offset: 92950,
+																										line: 2934, col: 9, offset: 93466,
 																									},
 																								},
 																							},
@@ -29281,10 +29281,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 757, col: 8, offset: 24239},
 																							expr: &actionExpr{
-																								pos: position{line: 2903, col: 10, offset: 92601},
+																								pos: position{line: 2915, col: 10, offset: 93117},
 																								run: (*parser).callonExtraListElement710,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2903, col: 10, offset: 92601},
+																									pos:        position{line: 2915, col: 10, offset: 93117},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29293,28 +29293,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2925, col: 8, offset: 92999},
+																							pos: position{line: 2937, col: 8, offset: 93515},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2912, col: 12, offset: 92772},
+																									pos: position{line: 2924, col: 12, offset: 93288},
 																									run: (*parser).callonExtraListElement713,
 																									expr: &choiceExpr{
-																										pos: position{line: 2912, col: 13, offset: 92773},
+																										pos: position{line: 2924, col: 13, offset: 93289},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 13, offset: 92773},
+																												pos:        position{line: 2924, col: 13, offset: 93289},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 20, offset: 92780},
+																												pos:        position{line: 2924, col: 20, offset: 93296},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 29, offset: 92789},
+																												pos:        position{line: 2924, col: 29, offset: 93305},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29323,9 +29323,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2922, col: 8, offset: 92949},
+																									pos: position{line: 2934, col: 8, offset: 93465},
 																									expr: &anyMatcher{
-																										line: 2922, col: 9, offset: 92950,
+																										line: 2934, col: 9, offset: 93466,
 																									},
 																								},
 																							},
@@ -29370,10 +29370,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 772, col: 8, offset: 24782},
 																							expr: &actionExpr{
-																								pos: position{line: 2903, col: 10, offset: 92601},
+																								pos: position{line: 2915, col: 10, offset: 93117},
 																								run: (*parser).callonExtraListElement729,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2903, col: 10, offset: 92601},
+																									pos:        position{line: 2915, col: 10, offset: 93117},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29382,28 +29382,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2925, col: 8, offset: 92999},
+																							pos: position{line: 2937, col: 8, offset: 93515},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2912, col: 12, offset: 92772},
+																									pos: position{line: 2924, col: 12, offset: 93288},
 																									run: (*parser).callonExtraListElement732,
 																									expr: &choiceExpr{
-																										pos: position{line: 2912, col: 13, offset: 92773},
+																										pos: position{line: 2924, col: 13, offset: 93289},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 13, offset: 92773},
+																												pos:        position{line: 2924, col: 13, offset: 93289},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 20, offset: 92780},
+																												pos:        position{line: 2924, col: 20, offset: 93296},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 29, offset: 92789},
+																												pos:        position{line: 2924, col: 29, offset: 93305},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29412,9 +29412,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2922, col: 8, offset: 92949},
+																									pos: position{line: 2934, col: 8, offset: 93465},
 																									expr: &anyMatcher{
-																										line: 2922, col: 9, offset: 92950,
+																										line: 2934, col: 9, offset: 93466,
 																									},
 																								},
 																							},
@@ -29459,10 +29459,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 786, col: 8, offset: 25258},
 																							expr: &actionExpr{
-																								pos: position{line: 2903, col: 10, offset: 92601},
+																								pos: position{line: 2915, col: 10, offset: 93117},
 																								run: (*parser).callonExtraListElement748,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2903, col: 10, offset: 92601},
+																									pos:        position{line: 2915, col: 10, offset: 93117},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29471,28 +29471,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2925, col: 8, offset: 92999},
+																							pos: position{line: 2937, col: 8, offset: 93515},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2912, col: 12, offset: 92772},
+																									pos: position{line: 2924, col: 12, offset: 93288},
 																									run: (*parser).callonExtraListElement751,
 																									expr: &choiceExpr{
-																										pos: position{line: 2912, col: 13, offset: 92773},
+																										pos: position{line: 2924, col: 13, offset: 93289},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 13, offset: 92773},
+																												pos:        position{line: 2924, col: 13, offset: 93289},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 20, offset: 92780},
+																												pos:        position{line: 2924, col: 20, offset: 93296},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 29, offset: 92789},
+																												pos:        position{line: 2924, col: 29, offset: 93305},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29501,9 +29501,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2922, col: 8, offset: 92949},
+																									pos: position{line: 2934, col: 8, offset: 93465},
 																									expr: &anyMatcher{
-																										line: 2922, col: 9, offset: 92950,
+																										line: 2934, col: 9, offset: 93466,
 																									},
 																								},
 																							},
@@ -29548,10 +29548,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 793, col: 8, offset: 25510},
 																							expr: &actionExpr{
-																								pos: position{line: 2903, col: 10, offset: 92601},
+																								pos: position{line: 2915, col: 10, offset: 93117},
 																								run: (*parser).callonExtraListElement767,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2903, col: 10, offset: 92601},
+																									pos:        position{line: 2915, col: 10, offset: 93117},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29560,28 +29560,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2925, col: 8, offset: 92999},
+																							pos: position{line: 2937, col: 8, offset: 93515},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2912, col: 12, offset: 92772},
+																									pos: position{line: 2924, col: 12, offset: 93288},
 																									run: (*parser).callonExtraListElement770,
 																									expr: &choiceExpr{
-																										pos: position{line: 2912, col: 13, offset: 92773},
+																										pos: position{line: 2924, col: 13, offset: 93289},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 13, offset: 92773},
+																												pos:        position{line: 2924, col: 13, offset: 93289},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 20, offset: 92780},
+																												pos:        position{line: 2924, col: 20, offset: 93296},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 29, offset: 92789},
+																												pos:        position{line: 2924, col: 29, offset: 93305},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29590,9 +29590,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2922, col: 8, offset: 92949},
+																									pos: position{line: 2934, col: 8, offset: 93465},
 																									expr: &anyMatcher{
-																										line: 2922, col: 9, offset: 92950,
+																										line: 2934, col: 9, offset: 93466,
 																									},
 																								},
 																							},
@@ -29637,10 +29637,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 800, col: 8, offset: 25760},
 																							expr: &actionExpr{
-																								pos: position{line: 2903, col: 10, offset: 92601},
+																								pos: position{line: 2915, col: 10, offset: 93117},
 																								run: (*parser).callonExtraListElement786,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2903, col: 10, offset: 92601},
+																									pos:        position{line: 2915, col: 10, offset: 93117},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29649,28 +29649,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2925, col: 8, offset: 92999},
+																							pos: position{line: 2937, col: 8, offset: 93515},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2912, col: 12, offset: 92772},
+																									pos: position{line: 2924, col: 12, offset: 93288},
 																									run: (*parser).callonExtraListElement789,
 																									expr: &choiceExpr{
-																										pos: position{line: 2912, col: 13, offset: 92773},
+																										pos: position{line: 2924, col: 13, offset: 93289},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 13, offset: 92773},
+																												pos:        position{line: 2924, col: 13, offset: 93289},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 20, offset: 92780},
+																												pos:        position{line: 2924, col: 20, offset: 93296},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 29, offset: 92789},
+																												pos:        position{line: 2924, col: 29, offset: 93305},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29679,9 +29679,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2922, col: 8, offset: 92949},
+																									pos: position{line: 2934, col: 8, offset: 93465},
 																									expr: &anyMatcher{
-																										line: 2922, col: 9, offset: 92950,
+																										line: 2934, col: 9, offset: 93466,
 																									},
 																								},
 																							},
@@ -29726,10 +29726,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 807, col: 8, offset: 26006},
 																							expr: &actionExpr{
-																								pos: position{line: 2903, col: 10, offset: 92601},
+																								pos: position{line: 2915, col: 10, offset: 93117},
 																								run: (*parser).callonExtraListElement805,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2903, col: 10, offset: 92601},
+																									pos:        position{line: 2915, col: 10, offset: 93117},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29738,28 +29738,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2925, col: 8, offset: 92999},
+																							pos: position{line: 2937, col: 8, offset: 93515},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2912, col: 12, offset: 92772},
+																									pos: position{line: 2924, col: 12, offset: 93288},
 																									run: (*parser).callonExtraListElement808,
 																									expr: &choiceExpr{
-																										pos: position{line: 2912, col: 13, offset: 92773},
+																										pos: position{line: 2924, col: 13, offset: 93289},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 13, offset: 92773},
+																												pos:        position{line: 2924, col: 13, offset: 93289},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 20, offset: 92780},
+																												pos:        position{line: 2924, col: 20, offset: 93296},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 29, offset: 92789},
+																												pos:        position{line: 2924, col: 29, offset: 93305},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29768,9 +29768,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2922, col: 8, offset: 92949},
+																									pos: position{line: 2934, col: 8, offset: 93465},
 																									expr: &anyMatcher{
-																										line: 2922, col: 9, offset: 92950,
+																										line: 2934, col: 9, offset: 93466,
 																									},
 																								},
 																							},
@@ -29789,12 +29789,12 @@ var g = &grammar{
 													pos:   position{line: 1524, col: 5, offset: 49625},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2853, col: 14, offset: 91194},
+														pos: position{line: 2865, col: 14, offset: 91710},
 														run: (*parser).callonExtraListElement816,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2853, col: 14, offset: 91194},
+															pos: position{line: 2865, col: 14, offset: 91710},
 															expr: &charClassMatcher{
-																pos:        position{line: 2853, col: 14, offset: 91194},
+																pos:        position{line: 2865, col: 14, offset: 91710},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -29804,28 +29804,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2925, col: 8, offset: 92999},
+													pos: position{line: 2937, col: 8, offset: 93515},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2912, col: 12, offset: 92772},
+															pos: position{line: 2924, col: 12, offset: 93288},
 															run: (*parser).callonExtraListElement820,
 															expr: &choiceExpr{
-																pos: position{line: 2912, col: 13, offset: 92773},
+																pos: position{line: 2924, col: 13, offset: 93289},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2912, col: 13, offset: 92773},
+																		pos:        position{line: 2924, col: 13, offset: 93289},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2912, col: 20, offset: 92780},
+																		pos:        position{line: 2924, col: 20, offset: 93296},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2912, col: 29, offset: 92789},
+																		pos:        position{line: 2924, col: 29, offset: 93305},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -29834,9 +29834,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2922, col: 8, offset: 92949},
+															pos: position{line: 2934, col: 8, offset: 93465},
 															expr: &anyMatcher{
-																line: 2922, col: 9, offset: 92950,
+																line: 2934, col: 9, offset: 93466,
 															},
 														},
 													},
@@ -29871,10 +29871,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 1541, col: 13, offset: 50049},
 											expr: &actionExpr{
-												pos: position{line: 2903, col: 10, offset: 92601},
+												pos: position{line: 2915, col: 10, offset: 93117},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2903, col: 10, offset: 92601},
+													pos:        position{line: 2915, col: 10, offset: 93117},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -29883,25 +29883,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2912, col: 12, offset: 92772},
+											pos: position{line: 2924, col: 12, offset: 93288},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2912, col: 13, offset: 92773},
+												pos: position{line: 2924, col: 13, offset: 93289},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2912, col: 13, offset: 92773},
+														pos:        position{line: 2924, col: 13, offset: 93289},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2912, col: 20, offset: 92780},
+														pos:        position{line: 2924, col: 20, offset: 93296},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2912, col: 29, offset: 92789},
+														pos:        position{line: 2924, col: 29, offset: 93305},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -29922,10 +29922,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1548, col: 31, offset: 50257},
 							expr: &actionExpr{
-								pos: position{line: 2903, col: 10, offset: 92601},
+								pos: position{line: 2915, col: 10, offset: 93117},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2903, col: 10, offset: 92601},
+									pos:        position{line: 2915, col: 10, offset: 93117},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -29934,25 +29934,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2912, col: 12, offset: 92772},
+							pos: position{line: 2924, col: 12, offset: 93288},
 							run: (*parser).callonListContinuation18,
 							expr: &choiceExpr{
-								pos: position{line: 2912, col: 13, offset: 92773},
+								pos: position{line: 2924, col: 13, offset: 93289},
 								alternatives: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2912, col: 13, offset: 92773},
+										pos:        position{line: 2924, col: 13, offset: 93289},
 										val:        "\n",
 										ignoreCase: false,
 										want:       "\"\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2912, col: 20, offset: 92780},
+										pos:        position{line: 2924, col: 20, offset: 93296},
 										val:        "\r\n",
 										ignoreCase: false,
 										want:       "\"\\r\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2912, col: 29, offset: 92789},
+										pos:        position{line: 2924, col: 29, offset: 93305},
 										val:        "\r",
 										ignoreCase: false,
 										want:       "\"\\r\"",
@@ -29985,9 +29985,9 @@ var g = &grammar{
 					pos: position{line: 1551, col: 5, offset: 50344},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2920, col: 11, offset: 92935},
+							pos: position{line: 2932, col: 11, offset: 93451},
 							expr: &anyMatcher{
-								line: 2920, col: 13, offset: 92937,
+								line: 2932, col: 13, offset: 93453,
 							},
 						},
 						&notExpr{
@@ -30013,10 +30013,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1590, col: 5, offset: 51497},
 																	expr: &actionExpr{
-																		pos: position{line: 2903, col: 10, offset: 92601},
+																		pos: position{line: 2915, col: 10, offset: 93117},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2903, col: 10, offset: 92601},
+																			pos:        position{line: 2915, col: 10, offset: 93117},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30183,12 +30183,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2907, col: 11, offset: 92662},
+																	pos: position{line: 2919, col: 11, offset: 93178},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2907, col: 11, offset: 92662},
+																		pos: position{line: 2919, col: 11, offset: 93178},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2907, col: 11, offset: 92662},
+																			pos:        position{line: 2919, col: 11, offset: 93178},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30231,28 +30231,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2925, col: 8, offset: 92999},
+																	pos: position{line: 2937, col: 8, offset: 93515},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2912, col: 12, offset: 92772},
+																			pos: position{line: 2924, col: 12, offset: 93288},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2912, col: 13, offset: 92773},
+																				pos: position{line: 2924, col: 13, offset: 93289},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 13, offset: 92773},
+																						pos:        position{line: 2924, col: 13, offset: 93289},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 20, offset: 92780},
+																						pos:        position{line: 2924, col: 20, offset: 93296},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 29, offset: 92789},
+																						pos:        position{line: 2924, col: 29, offset: 93305},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30261,9 +30261,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2922, col: 8, offset: 92949},
+																			pos: position{line: 2934, col: 8, offset: 93465},
 																			expr: &anyMatcher{
-																				line: 2922, col: 9, offset: 92950,
+																				line: 2934, col: 9, offset: 93466,
 																			},
 																		},
 																	},
@@ -30293,10 +30293,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1640, col: 5, offset: 53459},
 																	expr: &actionExpr{
-																		pos: position{line: 2903, col: 10, offset: 92601},
+																		pos: position{line: 2915, col: 10, offset: 93117},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2903, col: 10, offset: 92601},
+																			pos:        position{line: 2915, col: 10, offset: 93117},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30337,12 +30337,12 @@ var g = &grammar{
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2907, col: 11, offset: 92662},
+																	pos: position{line: 2919, col: 11, offset: 93178},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2907, col: 11, offset: 92662},
+																		pos: position{line: 2919, col: 11, offset: 93178},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2907, col: 11, offset: 92662},
+																			pos:        position{line: 2919, col: 11, offset: 93178},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30414,12 +30414,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2907, col: 11, offset: 92662},
+																		pos: position{line: 2919, col: 11, offset: 93178},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2907, col: 11, offset: 92662},
+																			pos: position{line: 2919, col: 11, offset: 93178},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2907, col: 11, offset: 92662},
+																				pos:        position{line: 2919, col: 11, offset: 93178},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -30463,28 +30463,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2925, col: 8, offset: 92999},
+																	pos: position{line: 2937, col: 8, offset: 93515},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2912, col: 12, offset: 92772},
+																			pos: position{line: 2924, col: 12, offset: 93288},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2912, col: 13, offset: 92773},
+																				pos: position{line: 2924, col: 13, offset: 93289},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 13, offset: 92773},
+																						pos:        position{line: 2924, col: 13, offset: 93289},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 20, offset: 92780},
+																						pos:        position{line: 2924, col: 20, offset: 93296},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 29, offset: 92789},
+																						pos:        position{line: 2924, col: 29, offset: 93305},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30493,9 +30493,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2922, col: 8, offset: 92949},
+																			pos: position{line: 2934, col: 8, offset: 93465},
 																			expr: &anyMatcher{
-																				line: 2922, col: 9, offset: 92950,
+																				line: 2934, col: 9, offset: 93466,
 																			},
 																		},
 																	},
@@ -30553,12 +30553,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2907, col: 11, offset: 92662},
+																	pos: position{line: 2919, col: 11, offset: 93178},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2907, col: 11, offset: 92662},
+																		pos: position{line: 2919, col: 11, offset: 93178},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2907, col: 11, offset: 92662},
+																			pos:        position{line: 2919, col: 11, offset: 93178},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30601,28 +30601,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2925, col: 8, offset: 92999},
+																	pos: position{line: 2937, col: 8, offset: 93515},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2912, col: 12, offset: 92772},
+																			pos: position{line: 2924, col: 12, offset: 93288},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2912, col: 13, offset: 92773},
+																				pos: position{line: 2924, col: 13, offset: 93289},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 13, offset: 92773},
+																						pos:        position{line: 2924, col: 13, offset: 93289},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 20, offset: 92780},
+																						pos:        position{line: 2924, col: 20, offset: 93296},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 29, offset: 92789},
+																						pos:        position{line: 2924, col: 29, offset: 93305},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30631,9 +30631,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2922, col: 8, offset: 92949},
+																			pos: position{line: 2934, col: 8, offset: 93465},
 																			expr: &anyMatcher{
-																				line: 2922, col: 9, offset: 92950,
+																				line: 2934, col: 9, offset: 93466,
 																			},
 																		},
 																	},
@@ -30663,18 +30663,18 @@ var g = &grammar{
 																&notExpr{
 																	pos: position{line: 1675, col: 5, offset: 54478},
 																	expr: &seqExpr{
-																		pos: position{line: 2508, col: 31, offset: 81515},
+																		pos: position{line: 2520, col: 31, offset: 82031},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2508, col: 31, offset: 81515},
+																				pos:        position{line: 2520, col: 31, offset: 82031},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2508, col: 36, offset: 81520},
+																				pos: position{line: 2520, col: 36, offset: 82036},
 																				expr: &litMatcher{
-																					pos:        position{line: 2508, col: 37, offset: 81521},
+																					pos:        position{line: 2520, col: 37, offset: 82037},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
@@ -30724,28 +30724,28 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1676, col: 35, offset: 54540},
 																				expr: &choiceExpr{
-																					pos: position{line: 2925, col: 8, offset: 92999},
+																					pos: position{line: 2937, col: 8, offset: 93515},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2912, col: 12, offset: 92772},
+																							pos: position{line: 2924, col: 12, offset: 93288},
 																							run: (*parser).callonListContinuationElement169,
 																							expr: &choiceExpr{
-																								pos: position{line: 2912, col: 13, offset: 92773},
+																								pos: position{line: 2924, col: 13, offset: 93289},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2912, col: 13, offset: 92773},
+																										pos:        position{line: 2924, col: 13, offset: 93289},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2912, col: 20, offset: 92780},
+																										pos:        position{line: 2924, col: 20, offset: 93296},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2912, col: 29, offset: 92789},
+																										pos:        position{line: 2924, col: 29, offset: 93305},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -30754,9 +30754,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2922, col: 8, offset: 92949},
+																							pos: position{line: 2934, col: 8, offset: 93465},
 																							expr: &anyMatcher{
-																								line: 2922, col: 9, offset: 92950,
+																								line: 2934, col: 9, offset: 93466,
 																							},
 																						},
 																					},
@@ -30821,10 +30821,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 1694, col: 9, offset: 55045},
 																			expr: &actionExpr{
-																				pos: position{line: 2903, col: 10, offset: 92601},
+																				pos: position{line: 2915, col: 10, offset: 93117},
 																				run: (*parser).callonListContinuationElement190,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2903, col: 10, offset: 92601},
+																					pos:        position{line: 2915, col: 10, offset: 93117},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30833,28 +30833,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2925, col: 8, offset: 92999},
+																			pos: position{line: 2937, col: 8, offset: 93515},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2912, col: 12, offset: 92772},
+																					pos: position{line: 2924, col: 12, offset: 93288},
 																					run: (*parser).callonListContinuationElement193,
 																					expr: &choiceExpr{
-																						pos: position{line: 2912, col: 13, offset: 92773},
+																						pos: position{line: 2924, col: 13, offset: 93289},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2912, col: 13, offset: 92773},
+																								pos:        position{line: 2924, col: 13, offset: 93289},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2912, col: 20, offset: 92780},
+																								pos:        position{line: 2924, col: 20, offset: 93296},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2912, col: 29, offset: 92789},
+																								pos:        position{line: 2924, col: 29, offset: 93305},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30863,9 +30863,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2922, col: 8, offset: 92949},
+																					pos: position{line: 2934, col: 8, offset: 93465},
 																					expr: &anyMatcher{
-																						line: 2922, col: 9, offset: 92950,
+																						line: 2934, col: 9, offset: 93466,
 																					},
 																				},
 																			},
@@ -30879,18 +30879,18 @@ var g = &grammar{
 																					pos: position{line: 677, col: 14, offset: 21525},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2920, col: 11, offset: 92935},
+																							pos: position{line: 2932, col: 11, offset: 93451},
 																							expr: &anyMatcher{
-																								line: 2920, col: 13, offset: 92937,
+																								line: 2932, col: 13, offset: 93453,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 677, col: 21, offset: 21532},
 																							expr: &actionExpr{
-																								pos: position{line: 2903, col: 10, offset: 92601},
+																								pos: position{line: 2915, col: 10, offset: 93117},
 																								run: (*parser).callonListContinuationElement206,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2903, col: 10, offset: 92601},
+																									pos:        position{line: 2915, col: 10, offset: 93117},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30899,28 +30899,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2925, col: 8, offset: 92999},
+																							pos: position{line: 2937, col: 8, offset: 93515},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2912, col: 12, offset: 92772},
+																									pos: position{line: 2924, col: 12, offset: 93288},
 																									run: (*parser).callonListContinuationElement209,
 																									expr: &choiceExpr{
-																										pos: position{line: 2912, col: 13, offset: 92773},
+																										pos: position{line: 2924, col: 13, offset: 93289},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 13, offset: 92773},
+																												pos:        position{line: 2924, col: 13, offset: 93289},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 20, offset: 92780},
+																												pos:        position{line: 2924, col: 20, offset: 93296},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 29, offset: 92789},
+																												pos:        position{line: 2924, col: 29, offset: 93305},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30929,9 +30929,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2922, col: 8, offset: 92949},
+																									pos: position{line: 2934, col: 8, offset: 93465},
 																									expr: &anyMatcher{
-																										line: 2922, col: 9, offset: 92950,
+																										line: 2934, col: 9, offset: 93466,
 																									},
 																								},
 																							},
@@ -30950,12 +30950,12 @@ var g = &grammar{
 																	pos: position{line: 1701, col: 9, offset: 55193},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2907, col: 11, offset: 92662},
+																			pos: position{line: 2919, col: 11, offset: 93178},
 																			run: (*parser).callonListContinuationElement218,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2907, col: 11, offset: 92662},
+																				pos: position{line: 2919, col: 11, offset: 93178},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2907, col: 11, offset: 92662},
+																					pos:        position{line: 2919, col: 11, offset: 93178},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30982,28 +30982,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2925, col: 8, offset: 92999},
+																			pos: position{line: 2937, col: 8, offset: 93515},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2912, col: 12, offset: 92772},
+																					pos: position{line: 2924, col: 12, offset: 93288},
 																					run: (*parser).callonListContinuationElement226,
 																					expr: &choiceExpr{
-																						pos: position{line: 2912, col: 13, offset: 92773},
+																						pos: position{line: 2924, col: 13, offset: 93289},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2912, col: 13, offset: 92773},
+																								pos:        position{line: 2924, col: 13, offset: 93289},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2912, col: 20, offset: 92780},
+																								pos:        position{line: 2924, col: 20, offset: 93296},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2912, col: 29, offset: 92789},
+																								pos:        position{line: 2924, col: 29, offset: 93305},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31012,9 +31012,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2922, col: 8, offset: 92949},
+																					pos: position{line: 2934, col: 8, offset: 93465},
 																					expr: &anyMatcher{
-																						line: 2922, col: 9, offset: 92950,
+																						line: 2934, col: 9, offset: 93466,
 																					},
 																				},
 																			},
@@ -31055,18 +31055,18 @@ var g = &grammar{
 											pos: position{line: 677, col: 14, offset: 21525},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2920, col: 11, offset: 92935},
+													pos: position{line: 2932, col: 11, offset: 93451},
 													expr: &anyMatcher{
-														line: 2920, col: 13, offset: 92937,
+														line: 2932, col: 13, offset: 93453,
 													},
 												},
 												&zeroOrMoreExpr{
 													pos: position{line: 677, col: 21, offset: 21532},
 													expr: &actionExpr{
-														pos: position{line: 2903, col: 10, offset: 92601},
+														pos: position{line: 2915, col: 10, offset: 93117},
 														run: (*parser).callonListContinuationElement243,
 														expr: &charClassMatcher{
-															pos:        position{line: 2903, col: 10, offset: 92601},
+															pos:        position{line: 2915, col: 10, offset: 93117},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31075,28 +31075,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2925, col: 8, offset: 92999},
+													pos: position{line: 2937, col: 8, offset: 93515},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2912, col: 12, offset: 92772},
+															pos: position{line: 2924, col: 12, offset: 93288},
 															run: (*parser).callonListContinuationElement246,
 															expr: &choiceExpr{
-																pos: position{line: 2912, col: 13, offset: 92773},
+																pos: position{line: 2924, col: 13, offset: 93289},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2912, col: 13, offset: 92773},
+																		pos:        position{line: 2924, col: 13, offset: 93289},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2912, col: 20, offset: 92780},
+																		pos:        position{line: 2924, col: 20, offset: 93296},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2912, col: 29, offset: 92789},
+																		pos:        position{line: 2924, col: 29, offset: 93305},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31105,9 +31105,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2922, col: 8, offset: 92949},
+															pos: position{line: 2934, col: 8, offset: 93465},
 															expr: &anyMatcher{
-																line: 2922, col: 9, offset: 92950,
+																line: 2934, col: 9, offset: 93466,
 															},
 														},
 													},
@@ -31172,10 +31172,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 359, col: 49, offset: 10879},
 													expr: &actionExpr{
-														pos: position{line: 2903, col: 10, offset: 92601},
+														pos: position{line: 2915, col: 10, offset: 93117},
 														run: (*parser).callonListContinuationElement265,
 														expr: &charClassMatcher{
-															pos:        position{line: 2903, col: 10, offset: 92601},
+															pos:        position{line: 2915, col: 10, offset: 93117},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31184,28 +31184,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2925, col: 8, offset: 92999},
+													pos: position{line: 2937, col: 8, offset: 93515},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2912, col: 12, offset: 92772},
+															pos: position{line: 2924, col: 12, offset: 93288},
 															run: (*parser).callonListContinuationElement268,
 															expr: &choiceExpr{
-																pos: position{line: 2912, col: 13, offset: 92773},
+																pos: position{line: 2924, col: 13, offset: 93289},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2912, col: 13, offset: 92773},
+																		pos:        position{line: 2924, col: 13, offset: 93289},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2912, col: 20, offset: 92780},
+																		pos:        position{line: 2924, col: 20, offset: 93296},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2912, col: 29, offset: 92789},
+																		pos:        position{line: 2924, col: 29, offset: 93305},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31214,9 +31214,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2922, col: 8, offset: 92949},
+															pos: position{line: 2934, col: 8, offset: 93465},
 															expr: &anyMatcher{
-																line: 2922, col: 9, offset: 92950,
+																line: 2934, col: 9, offset: 93466,
 															},
 														},
 													},
@@ -31277,10 +31277,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 361, col: 39, offset: 11000},
 													expr: &actionExpr{
-														pos: position{line: 2903, col: 10, offset: 92601},
+														pos: position{line: 2915, col: 10, offset: 93117},
 														run: (*parser).callonListContinuationElement286,
 														expr: &charClassMatcher{
-															pos:        position{line: 2903, col: 10, offset: 92601},
+															pos:        position{line: 2915, col: 10, offset: 93117},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31289,28 +31289,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2925, col: 8, offset: 92999},
+													pos: position{line: 2937, col: 8, offset: 93515},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2912, col: 12, offset: 92772},
+															pos: position{line: 2924, col: 12, offset: 93288},
 															run: (*parser).callonListContinuationElement289,
 															expr: &choiceExpr{
-																pos: position{line: 2912, col: 13, offset: 92773},
+																pos: position{line: 2924, col: 13, offset: 93289},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2912, col: 13, offset: 92773},
+																		pos:        position{line: 2924, col: 13, offset: 93289},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2912, col: 20, offset: 92780},
+																		pos:        position{line: 2924, col: 20, offset: 93296},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2912, col: 29, offset: 92789},
+																		pos:        position{line: 2924, col: 29, offset: 93305},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31319,9 +31319,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2922, col: 8, offset: 92949},
+															pos: position{line: 2934, col: 8, offset: 93465},
 															expr: &anyMatcher{
-																line: 2922, col: 9, offset: 92950,
+																line: 2934, col: 9, offset: 93466,
 															},
 														},
 													},
@@ -31372,10 +31372,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 743, col: 8, offset: 23745},
 																expr: &actionExpr{
-																	pos: position{line: 2903, col: 10, offset: 92601},
+																	pos: position{line: 2915, col: 10, offset: 93117},
 																	run: (*parser).callonListContinuationElement307,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2903, col: 10, offset: 92601},
+																		pos:        position{line: 2915, col: 10, offset: 93117},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -31384,28 +31384,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2925, col: 8, offset: 92999},
+																pos: position{line: 2937, col: 8, offset: 93515},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2912, col: 12, offset: 92772},
+																		pos: position{line: 2924, col: 12, offset: 93288},
 																		run: (*parser).callonListContinuationElement310,
 																		expr: &choiceExpr{
-																			pos: position{line: 2912, col: 13, offset: 92773},
+																			pos: position{line: 2924, col: 13, offset: 93289},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2912, col: 13, offset: 92773},
+																					pos:        position{line: 2924, col: 13, offset: 93289},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2912, col: 20, offset: 92780},
+																					pos:        position{line: 2924, col: 20, offset: 93296},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2912, col: 29, offset: 92789},
+																					pos:        position{line: 2924, col: 29, offset: 93305},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -31414,9 +31414,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2922, col: 8, offset: 92949},
+																		pos: position{line: 2934, col: 8, offset: 93465},
 																		expr: &anyMatcher{
-																			line: 2922, col: 9, offset: 92950,
+																			line: 2934, col: 9, offset: 93466,
 																		},
 																	},
 																},
@@ -31477,10 +31477,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 743, col: 8, offset: 23745},
 																								expr: &actionExpr{
-																									pos: position{line: 2903, col: 10, offset: 92601},
+																									pos: position{line: 2915, col: 10, offset: 93117},
 																									run: (*parser).callonListContinuationElement332,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2903, col: 10, offset: 92601},
+																										pos:        position{line: 2915, col: 10, offset: 93117},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -31489,28 +31489,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2925, col: 8, offset: 92999},
+																								pos: position{line: 2937, col: 8, offset: 93515},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2912, col: 12, offset: 92772},
+																										pos: position{line: 2924, col: 12, offset: 93288},
 																										run: (*parser).callonListContinuationElement335,
 																										expr: &choiceExpr{
-																											pos: position{line: 2912, col: 13, offset: 92773},
+																											pos: position{line: 2924, col: 13, offset: 93289},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2912, col: 13, offset: 92773},
+																													pos:        position{line: 2924, col: 13, offset: 93289},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2912, col: 20, offset: 92780},
+																													pos:        position{line: 2924, col: 20, offset: 93296},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2912, col: 29, offset: 92789},
+																													pos:        position{line: 2924, col: 29, offset: 93305},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -31519,9 +31519,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2922, col: 8, offset: 92949},
+																										pos: position{line: 2934, col: 8, offset: 93465},
 																										expr: &anyMatcher{
-																											line: 2922, col: 9, offset: 92950,
+																											line: 2934, col: 9, offset: 93466,
 																										},
 																									},
 																								},
@@ -31530,9 +31530,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2922, col: 8, offset: 92949},
+																					pos: position{line: 2934, col: 8, offset: 93465},
 																					expr: &anyMatcher{
-																						line: 2922, col: 9, offset: 92950,
+																						line: 2934, col: 9, offset: 93466,
 																					},
 																				},
 																			},
@@ -31548,21 +31548,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2920, col: 11, offset: 92935},
+																						pos: position{line: 2932, col: 11, offset: 93451},
 																						expr: &anyMatcher{
-																							line: 2920, col: 13, offset: 92937,
+																							line: 2932, col: 13, offset: 93453,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2849, col: 13, offset: 91127},
+																							pos: position{line: 2861, col: 13, offset: 91643},
 																							run: (*parser).callonListContinuationElement350,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2849, col: 13, offset: 91127},
+																								pos: position{line: 2861, col: 13, offset: 91643},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2849, col: 13, offset: 91127},
+																									pos:        position{line: 2861, col: 13, offset: 91643},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31572,28 +31572,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2925, col: 8, offset: 92999},
+																						pos: position{line: 2937, col: 8, offset: 93515},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2912, col: 12, offset: 92772},
+																								pos: position{line: 2924, col: 12, offset: 93288},
 																								run: (*parser).callonListContinuationElement354,
 																								expr: &choiceExpr{
-																									pos: position{line: 2912, col: 13, offset: 92773},
+																									pos: position{line: 2924, col: 13, offset: 93289},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 13, offset: 92773},
+																											pos:        position{line: 2924, col: 13, offset: 93289},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 20, offset: 92780},
+																											pos:        position{line: 2924, col: 20, offset: 93296},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 29, offset: 92789},
+																											pos:        position{line: 2924, col: 29, offset: 93305},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31602,9 +31602,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2922, col: 8, offset: 92949},
+																								pos: position{line: 2934, col: 8, offset: 93465},
 																								expr: &anyMatcher{
-																									line: 2922, col: 9, offset: 92950,
+																									line: 2934, col: 9, offset: 93466,
 																								},
 																							},
 																						},
@@ -31660,10 +31660,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 743, col: 8, offset: 23745},
 																			expr: &actionExpr{
-																				pos: position{line: 2903, col: 10, offset: 92601},
+																				pos: position{line: 2915, col: 10, offset: 93117},
 																				run: (*parser).callonListContinuationElement372,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2903, col: 10, offset: 92601},
+																					pos:        position{line: 2915, col: 10, offset: 93117},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -31672,28 +31672,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2925, col: 8, offset: 92999},
+																			pos: position{line: 2937, col: 8, offset: 93515},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2912, col: 12, offset: 92772},
+																					pos: position{line: 2924, col: 12, offset: 93288},
 																					run: (*parser).callonListContinuationElement375,
 																					expr: &choiceExpr{
-																						pos: position{line: 2912, col: 13, offset: 92773},
+																						pos: position{line: 2924, col: 13, offset: 93289},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2912, col: 13, offset: 92773},
+																								pos:        position{line: 2924, col: 13, offset: 93289},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2912, col: 20, offset: 92780},
+																								pos:        position{line: 2924, col: 20, offset: 93296},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2912, col: 29, offset: 92789},
+																								pos:        position{line: 2924, col: 29, offset: 93305},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31702,9 +31702,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2922, col: 8, offset: 92949},
+																					pos: position{line: 2934, col: 8, offset: 93465},
 																					expr: &anyMatcher{
-																						line: 2922, col: 9, offset: 92950,
+																						line: 2934, col: 9, offset: 93466,
 																					},
 																				},
 																			},
@@ -31713,9 +31713,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2922, col: 8, offset: 92949},
+																pos: position{line: 2934, col: 8, offset: 93465},
 																expr: &anyMatcher{
-																	line: 2922, col: 9, offset: 92950,
+																	line: 2934, col: 9, offset: 93466,
 																},
 															},
 														},
@@ -31770,10 +31770,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 750, col: 8, offset: 23993},
 																	expr: &actionExpr{
-																		pos: position{line: 2903, col: 10, offset: 92601},
+																		pos: position{line: 2915, col: 10, offset: 93117},
 																		run: (*parser).callonListContinuationElement396,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2903, col: 10, offset: 92601},
+																			pos:        position{line: 2915, col: 10, offset: 93117},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31782,28 +31782,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2925, col: 8, offset: 92999},
+																	pos: position{line: 2937, col: 8, offset: 93515},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2912, col: 12, offset: 92772},
+																			pos: position{line: 2924, col: 12, offset: 93288},
 																			run: (*parser).callonListContinuationElement399,
 																			expr: &choiceExpr{
-																				pos: position{line: 2912, col: 13, offset: 92773},
+																				pos: position{line: 2924, col: 13, offset: 93289},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 13, offset: 92773},
+																						pos:        position{line: 2924, col: 13, offset: 93289},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 20, offset: 92780},
+																						pos:        position{line: 2924, col: 20, offset: 93296},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 29, offset: 92789},
+																						pos:        position{line: 2924, col: 29, offset: 93305},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31812,9 +31812,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2922, col: 8, offset: 92949},
+																			pos: position{line: 2934, col: 8, offset: 93465},
 																			expr: &anyMatcher{
-																				line: 2922, col: 9, offset: 92950,
+																				line: 2934, col: 9, offset: 93466,
 																			},
 																		},
 																	},
@@ -31886,10 +31886,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 750, col: 8, offset: 23993},
 																											expr: &actionExpr{
-																												pos: position{line: 2903, col: 10, offset: 92601},
+																												pos: position{line: 2915, col: 10, offset: 93117},
 																												run: (*parser).callonListContinuationElement424,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2903, col: 10, offset: 92601},
+																													pos:        position{line: 2915, col: 10, offset: 93117},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31898,28 +31898,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2925, col: 8, offset: 92999},
+																											pos: position{line: 2937, col: 8, offset: 93515},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2912, col: 12, offset: 92772},
+																													pos: position{line: 2924, col: 12, offset: 93288},
 																													run: (*parser).callonListContinuationElement427,
 																													expr: &choiceExpr{
-																														pos: position{line: 2912, col: 13, offset: 92773},
+																														pos: position{line: 2924, col: 13, offset: 93289},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 13, offset: 92773},
+																																pos:        position{line: 2924, col: 13, offset: 93289},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 20, offset: 92780},
+																																pos:        position{line: 2924, col: 20, offset: 93296},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 29, offset: 92789},
+																																pos:        position{line: 2924, col: 29, offset: 93305},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31928,9 +31928,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2922, col: 8, offset: 92949},
+																													pos: position{line: 2934, col: 8, offset: 93465},
 																													expr: &anyMatcher{
-																														line: 2922, col: 9, offset: 92950,
+																														line: 2934, col: 9, offset: 93466,
 																													},
 																												},
 																											},
@@ -31946,9 +31946,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2922, col: 8, offset: 92949},
+																					pos: position{line: 2934, col: 8, offset: 93465},
 																					expr: &anyMatcher{
-																						line: 2922, col: 9, offset: 92950,
+																						line: 2934, col: 9, offset: 93466,
 																					},
 																				},
 																			},
@@ -31964,21 +31964,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2920, col: 11, offset: 92935},
+																						pos: position{line: 2932, col: 11, offset: 93451},
 																						expr: &anyMatcher{
-																							line: 2920, col: 13, offset: 92937,
+																							line: 2932, col: 13, offset: 93453,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2849, col: 13, offset: 91127},
+																							pos: position{line: 2861, col: 13, offset: 91643},
 																							run: (*parser).callonListContinuationElement443,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2849, col: 13, offset: 91127},
+																								pos: position{line: 2861, col: 13, offset: 91643},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2849, col: 13, offset: 91127},
+																									pos:        position{line: 2861, col: 13, offset: 91643},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31988,28 +31988,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2925, col: 8, offset: 92999},
+																						pos: position{line: 2937, col: 8, offset: 93515},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2912, col: 12, offset: 92772},
+																								pos: position{line: 2924, col: 12, offset: 93288},
 																								run: (*parser).callonListContinuationElement447,
 																								expr: &choiceExpr{
-																									pos: position{line: 2912, col: 13, offset: 92773},
+																									pos: position{line: 2924, col: 13, offset: 93289},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 13, offset: 92773},
+																											pos:        position{line: 2924, col: 13, offset: 93289},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 20, offset: 92780},
+																											pos:        position{line: 2924, col: 20, offset: 93296},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 29, offset: 92789},
+																											pos:        position{line: 2924, col: 29, offset: 93305},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32018,9 +32018,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2922, col: 8, offset: 92949},
+																								pos: position{line: 2934, col: 8, offset: 93465},
 																								expr: &anyMatcher{
-																									line: 2922, col: 9, offset: 92950,
+																									line: 2934, col: 9, offset: 93466,
 																								},
 																							},
 																						},
@@ -32085,10 +32085,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 750, col: 8, offset: 23993},
 																							expr: &actionExpr{
-																								pos: position{line: 2903, col: 10, offset: 92601},
+																								pos: position{line: 2915, col: 10, offset: 93117},
 																								run: (*parser).callonListContinuationElement468,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2903, col: 10, offset: 92601},
+																									pos:        position{line: 2915, col: 10, offset: 93117},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32097,28 +32097,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2925, col: 8, offset: 92999},
+																							pos: position{line: 2937, col: 8, offset: 93515},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2912, col: 12, offset: 92772},
+																									pos: position{line: 2924, col: 12, offset: 93288},
 																									run: (*parser).callonListContinuationElement471,
 																									expr: &choiceExpr{
-																										pos: position{line: 2912, col: 13, offset: 92773},
+																										pos: position{line: 2924, col: 13, offset: 93289},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 13, offset: 92773},
+																												pos:        position{line: 2924, col: 13, offset: 93289},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 20, offset: 92780},
+																												pos:        position{line: 2924, col: 20, offset: 93296},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 29, offset: 92789},
+																												pos:        position{line: 2924, col: 29, offset: 93305},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32127,9 +32127,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2922, col: 8, offset: 92949},
+																									pos: position{line: 2934, col: 8, offset: 93465},
 																									expr: &anyMatcher{
-																										line: 2922, col: 9, offset: 92950,
+																										line: 2934, col: 9, offset: 93466,
 																									},
 																								},
 																							},
@@ -32145,9 +32145,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2922, col: 8, offset: 92949},
+																	pos: position{line: 2934, col: 8, offset: 93465},
 																	expr: &anyMatcher{
-																		line: 2922, col: 9, offset: 92950,
+																		line: 2934, col: 9, offset: 93466,
 																	},
 																},
 															},
@@ -32199,10 +32199,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 761, col: 52, offset: 24405},
 																	expr: &actionExpr{
-																		pos: position{line: 2903, col: 10, offset: 92601},
+																		pos: position{line: 2915, col: 10, offset: 93117},
 																		run: (*parser).callonListContinuationElement492,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2903, col: 10, offset: 92601},
+																			pos:        position{line: 2915, col: 10, offset: 93117},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32211,28 +32211,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2925, col: 8, offset: 92999},
+																	pos: position{line: 2937, col: 8, offset: 93515},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2912, col: 12, offset: 92772},
+																			pos: position{line: 2924, col: 12, offset: 93288},
 																			run: (*parser).callonListContinuationElement495,
 																			expr: &choiceExpr{
-																				pos: position{line: 2912, col: 13, offset: 92773},
+																				pos: position{line: 2924, col: 13, offset: 93289},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 13, offset: 92773},
+																						pos:        position{line: 2924, col: 13, offset: 93289},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 20, offset: 92780},
+																						pos:        position{line: 2924, col: 20, offset: 93296},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 29, offset: 92789},
+																						pos:        position{line: 2924, col: 29, offset: 93305},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32241,9 +32241,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2922, col: 8, offset: 92949},
+																			pos: position{line: 2934, col: 8, offset: 93465},
 																			expr: &anyMatcher{
-																				line: 2922, col: 9, offset: 92950,
+																				line: 2934, col: 9, offset: 93466,
 																			},
 																		},
 																	},
@@ -32277,10 +32277,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 964, col: 40, offset: 30213},
 																					expr: &actionExpr{
-																						pos: position{line: 2903, col: 10, offset: 92601},
+																						pos: position{line: 2915, col: 10, offset: 93117},
 																						run: (*parser).callonListContinuationElement510,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2903, col: 10, offset: 92601},
+																							pos:        position{line: 2915, col: 10, offset: 93117},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -32289,28 +32289,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2925, col: 8, offset: 92999},
+																					pos: position{line: 2937, col: 8, offset: 93515},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2912, col: 12, offset: 92772},
+																							pos: position{line: 2924, col: 12, offset: 93288},
 																							run: (*parser).callonListContinuationElement513,
 																							expr: &choiceExpr{
-																								pos: position{line: 2912, col: 13, offset: 92773},
+																								pos: position{line: 2924, col: 13, offset: 93289},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2912, col: 13, offset: 92773},
+																										pos:        position{line: 2924, col: 13, offset: 93289},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2912, col: 20, offset: 92780},
+																										pos:        position{line: 2924, col: 20, offset: 93296},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2912, col: 29, offset: 92789},
+																										pos:        position{line: 2924, col: 29, offset: 93305},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -32319,9 +32319,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2922, col: 8, offset: 92949},
+																							pos: position{line: 2934, col: 8, offset: 93465},
 																							expr: &anyMatcher{
-																								line: 2922, col: 9, offset: 92950,
+																								line: 2934, col: 9, offset: 93466,
 																							},
 																						},
 																					},
@@ -32339,21 +32339,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2920, col: 11, offset: 92935},
+																						pos: position{line: 2932, col: 11, offset: 93451},
 																						expr: &anyMatcher{
-																							line: 2920, col: 13, offset: 92937,
+																							line: 2932, col: 13, offset: 93453,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2849, col: 13, offset: 91127},
+																							pos: position{line: 2861, col: 13, offset: 91643},
 																							run: (*parser).callonListContinuationElement526,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2849, col: 13, offset: 91127},
+																								pos: position{line: 2861, col: 13, offset: 91643},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2849, col: 13, offset: 91127},
+																									pos:        position{line: 2861, col: 13, offset: 91643},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32363,28 +32363,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2925, col: 8, offset: 92999},
+																						pos: position{line: 2937, col: 8, offset: 93515},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2912, col: 12, offset: 92772},
+																								pos: position{line: 2924, col: 12, offset: 93288},
 																								run: (*parser).callonListContinuationElement530,
 																								expr: &choiceExpr{
-																									pos: position{line: 2912, col: 13, offset: 92773},
+																									pos: position{line: 2924, col: 13, offset: 93289},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 13, offset: 92773},
+																											pos:        position{line: 2924, col: 13, offset: 93289},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 20, offset: 92780},
+																											pos:        position{line: 2924, col: 20, offset: 93296},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 29, offset: 92789},
+																											pos:        position{line: 2924, col: 29, offset: 93305},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32393,9 +32393,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2922, col: 8, offset: 92949},
+																								pos: position{line: 2934, col: 8, offset: 93465},
 																								expr: &anyMatcher{
-																									line: 2922, col: 9, offset: 92950,
+																									line: 2934, col: 9, offset: 93466,
 																								},
 																							},
 																						},
@@ -32423,10 +32423,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 964, col: 40, offset: 30213},
 																expr: &actionExpr{
-																	pos: position{line: 2903, col: 10, offset: 92601},
+																	pos: position{line: 2915, col: 10, offset: 93117},
 																	run: (*parser).callonListContinuationElement541,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2903, col: 10, offset: 92601},
+																		pos:        position{line: 2915, col: 10, offset: 93117},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -32435,28 +32435,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2925, col: 8, offset: 92999},
+																pos: position{line: 2937, col: 8, offset: 93515},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2912, col: 12, offset: 92772},
+																		pos: position{line: 2924, col: 12, offset: 93288},
 																		run: (*parser).callonListContinuationElement544,
 																		expr: &choiceExpr{
-																			pos: position{line: 2912, col: 13, offset: 92773},
+																			pos: position{line: 2924, col: 13, offset: 93289},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2912, col: 13, offset: 92773},
+																					pos:        position{line: 2924, col: 13, offset: 93289},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2912, col: 20, offset: 92780},
+																					pos:        position{line: 2924, col: 20, offset: 93296},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2912, col: 29, offset: 92789},
+																					pos:        position{line: 2924, col: 29, offset: 93305},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -32465,9 +32465,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2922, col: 8, offset: 92949},
+																		pos: position{line: 2934, col: 8, offset: 93465},
 																		expr: &anyMatcher{
-																			line: 2922, col: 9, offset: 92950,
+																			line: 2934, col: 9, offset: 93466,
 																		},
 																	},
 																},
@@ -32524,10 +32524,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 757, col: 8, offset: 24239},
 																	expr: &actionExpr{
-																		pos: position{line: 2903, col: 10, offset: 92601},
+																		pos: position{line: 2915, col: 10, offset: 93117},
 																		run: (*parser).callonListContinuationElement563,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2903, col: 10, offset: 92601},
+																			pos:        position{line: 2915, col: 10, offset: 93117},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32536,28 +32536,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2925, col: 8, offset: 92999},
+																	pos: position{line: 2937, col: 8, offset: 93515},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2912, col: 12, offset: 92772},
+																			pos: position{line: 2924, col: 12, offset: 93288},
 																			run: (*parser).callonListContinuationElement566,
 																			expr: &choiceExpr{
-																				pos: position{line: 2912, col: 13, offset: 92773},
+																				pos: position{line: 2924, col: 13, offset: 93289},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 13, offset: 92773},
+																						pos:        position{line: 2924, col: 13, offset: 93289},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 20, offset: 92780},
+																						pos:        position{line: 2924, col: 20, offset: 93296},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 29, offset: 92789},
+																						pos:        position{line: 2924, col: 29, offset: 93305},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32566,9 +32566,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2922, col: 8, offset: 92949},
+																			pos: position{line: 2934, col: 8, offset: 93465},
 																			expr: &anyMatcher{
-																				line: 2922, col: 9, offset: 92950,
+																				line: 2934, col: 9, offset: 93466,
 																			},
 																		},
 																	},
@@ -32640,10 +32640,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 757, col: 8, offset: 24239},
 																											expr: &actionExpr{
-																												pos: position{line: 2903, col: 10, offset: 92601},
+																												pos: position{line: 2915, col: 10, offset: 93117},
 																												run: (*parser).callonListContinuationElement591,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2903, col: 10, offset: 92601},
+																													pos:        position{line: 2915, col: 10, offset: 93117},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32652,28 +32652,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2925, col: 8, offset: 92999},
+																											pos: position{line: 2937, col: 8, offset: 93515},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2912, col: 12, offset: 92772},
+																													pos: position{line: 2924, col: 12, offset: 93288},
 																													run: (*parser).callonListContinuationElement594,
 																													expr: &choiceExpr{
-																														pos: position{line: 2912, col: 13, offset: 92773},
+																														pos: position{line: 2924, col: 13, offset: 93289},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 13, offset: 92773},
+																																pos:        position{line: 2924, col: 13, offset: 93289},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 20, offset: 92780},
+																																pos:        position{line: 2924, col: 20, offset: 93296},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 29, offset: 92789},
+																																pos:        position{line: 2924, col: 29, offset: 93305},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32682,9 +32682,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2922, col: 8, offset: 92949},
+																													pos: position{line: 2934, col: 8, offset: 93465},
 																													expr: &anyMatcher{
-																														line: 2922, col: 9, offset: 92950,
+																														line: 2934, col: 9, offset: 93466,
 																													},
 																												},
 																											},
@@ -32700,9 +32700,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2922, col: 8, offset: 92949},
+																					pos: position{line: 2934, col: 8, offset: 93465},
 																					expr: &anyMatcher{
-																						line: 2922, col: 9, offset: 92950,
+																						line: 2934, col: 9, offset: 93466,
 																					},
 																				},
 																			},
@@ -32718,21 +32718,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2920, col: 11, offset: 92935},
+																						pos: position{line: 2932, col: 11, offset: 93451},
 																						expr: &anyMatcher{
-																							line: 2920, col: 13, offset: 92937,
+																							line: 2932, col: 13, offset: 93453,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2849, col: 13, offset: 91127},
+																							pos: position{line: 2861, col: 13, offset: 91643},
 																							run: (*parser).callonListContinuationElement610,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2849, col: 13, offset: 91127},
+																								pos: position{line: 2861, col: 13, offset: 91643},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2849, col: 13, offset: 91127},
+																									pos:        position{line: 2861, col: 13, offset: 91643},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32742,28 +32742,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2925, col: 8, offset: 92999},
+																						pos: position{line: 2937, col: 8, offset: 93515},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2912, col: 12, offset: 92772},
+																								pos: position{line: 2924, col: 12, offset: 93288},
 																								run: (*parser).callonListContinuationElement614,
 																								expr: &choiceExpr{
-																									pos: position{line: 2912, col: 13, offset: 92773},
+																									pos: position{line: 2924, col: 13, offset: 93289},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 13, offset: 92773},
+																											pos:        position{line: 2924, col: 13, offset: 93289},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 20, offset: 92780},
+																											pos:        position{line: 2924, col: 20, offset: 93296},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 29, offset: 92789},
+																											pos:        position{line: 2924, col: 29, offset: 93305},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32772,9 +32772,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2922, col: 8, offset: 92949},
+																								pos: position{line: 2934, col: 8, offset: 93465},
 																								expr: &anyMatcher{
-																									line: 2922, col: 9, offset: 92950,
+																									line: 2934, col: 9, offset: 93466,
 																								},
 																							},
 																						},
@@ -32839,10 +32839,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 757, col: 8, offset: 24239},
 																							expr: &actionExpr{
-																								pos: position{line: 2903, col: 10, offset: 92601},
+																								pos: position{line: 2915, col: 10, offset: 93117},
 																								run: (*parser).callonListContinuationElement635,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2903, col: 10, offset: 92601},
+																									pos:        position{line: 2915, col: 10, offset: 93117},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32851,28 +32851,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2925, col: 8, offset: 92999},
+																							pos: position{line: 2937, col: 8, offset: 93515},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2912, col: 12, offset: 92772},
+																									pos: position{line: 2924, col: 12, offset: 93288},
 																									run: (*parser).callonListContinuationElement638,
 																									expr: &choiceExpr{
-																										pos: position{line: 2912, col: 13, offset: 92773},
+																										pos: position{line: 2924, col: 13, offset: 93289},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 13, offset: 92773},
+																												pos:        position{line: 2924, col: 13, offset: 93289},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 20, offset: 92780},
+																												pos:        position{line: 2924, col: 20, offset: 93296},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 29, offset: 92789},
+																												pos:        position{line: 2924, col: 29, offset: 93305},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32881,9 +32881,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2922, col: 8, offset: 92949},
+																									pos: position{line: 2934, col: 8, offset: 93465},
 																									expr: &anyMatcher{
-																										line: 2922, col: 9, offset: 92950,
+																										line: 2934, col: 9, offset: 93466,
 																									},
 																								},
 																							},
@@ -32899,9 +32899,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2922, col: 8, offset: 92949},
+																	pos: position{line: 2934, col: 8, offset: 93465},
 																	expr: &anyMatcher{
-																		line: 2922, col: 9, offset: 92950,
+																		line: 2934, col: 9, offset: 93466,
 																	},
 																},
 															},
@@ -32957,10 +32957,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 772, col: 8, offset: 24782},
 																	expr: &actionExpr{
-																		pos: position{line: 2903, col: 10, offset: 92601},
+																		pos: position{line: 2915, col: 10, offset: 93117},
 																		run: (*parser).callonListContinuationElement660,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2903, col: 10, offset: 92601},
+																			pos:        position{line: 2915, col: 10, offset: 93117},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32969,28 +32969,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2925, col: 8, offset: 92999},
+																	pos: position{line: 2937, col: 8, offset: 93515},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2912, col: 12, offset: 92772},
+																			pos: position{line: 2924, col: 12, offset: 93288},
 																			run: (*parser).callonListContinuationElement663,
 																			expr: &choiceExpr{
-																				pos: position{line: 2912, col: 13, offset: 92773},
+																				pos: position{line: 2924, col: 13, offset: 93289},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 13, offset: 92773},
+																						pos:        position{line: 2924, col: 13, offset: 93289},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 20, offset: 92780},
+																						pos:        position{line: 2924, col: 20, offset: 93296},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 29, offset: 92789},
+																						pos:        position{line: 2924, col: 29, offset: 93305},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32999,9 +32999,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2922, col: 8, offset: 92949},
+																			pos: position{line: 2934, col: 8, offset: 93465},
 																			expr: &anyMatcher{
-																				line: 2922, col: 9, offset: 92950,
+																				line: 2934, col: 9, offset: 93466,
 																			},
 																		},
 																	},
@@ -33073,10 +33073,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 772, col: 8, offset: 24782},
 																											expr: &actionExpr{
-																												pos: position{line: 2903, col: 10, offset: 92601},
+																												pos: position{line: 2915, col: 10, offset: 93117},
 																												run: (*parser).callonListContinuationElement688,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2903, col: 10, offset: 92601},
+																													pos:        position{line: 2915, col: 10, offset: 93117},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33085,28 +33085,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2925, col: 8, offset: 92999},
+																											pos: position{line: 2937, col: 8, offset: 93515},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2912, col: 12, offset: 92772},
+																													pos: position{line: 2924, col: 12, offset: 93288},
 																													run: (*parser).callonListContinuationElement691,
 																													expr: &choiceExpr{
-																														pos: position{line: 2912, col: 13, offset: 92773},
+																														pos: position{line: 2924, col: 13, offset: 93289},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 13, offset: 92773},
+																																pos:        position{line: 2924, col: 13, offset: 93289},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 20, offset: 92780},
+																																pos:        position{line: 2924, col: 20, offset: 93296},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 29, offset: 92789},
+																																pos:        position{line: 2924, col: 29, offset: 93305},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33115,9 +33115,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2922, col: 8, offset: 92949},
+																													pos: position{line: 2934, col: 8, offset: 93465},
 																													expr: &anyMatcher{
-																														line: 2922, col: 9, offset: 92950,
+																														line: 2934, col: 9, offset: 93466,
 																													},
 																												},
 																											},
@@ -33133,9 +33133,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2922, col: 8, offset: 92949},
+																					pos: position{line: 2934, col: 8, offset: 93465},
 																					expr: &anyMatcher{
-																						line: 2922, col: 9, offset: 92950,
+																						line: 2934, col: 9, offset: 93466,
 																					},
 																				},
 																			},
@@ -33151,21 +33151,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2920, col: 11, offset: 92935},
+																						pos: position{line: 2932, col: 11, offset: 93451},
 																						expr: &anyMatcher{
-																							line: 2920, col: 13, offset: 92937,
+																							line: 2932, col: 13, offset: 93453,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2849, col: 13, offset: 91127},
+																							pos: position{line: 2861, col: 13, offset: 91643},
 																							run: (*parser).callonListContinuationElement707,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2849, col: 13, offset: 91127},
+																								pos: position{line: 2861, col: 13, offset: 91643},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2849, col: 13, offset: 91127},
+																									pos:        position{line: 2861, col: 13, offset: 91643},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33175,28 +33175,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2925, col: 8, offset: 92999},
+																						pos: position{line: 2937, col: 8, offset: 93515},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2912, col: 12, offset: 92772},
+																								pos: position{line: 2924, col: 12, offset: 93288},
 																								run: (*parser).callonListContinuationElement711,
 																								expr: &choiceExpr{
-																									pos: position{line: 2912, col: 13, offset: 92773},
+																									pos: position{line: 2924, col: 13, offset: 93289},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 13, offset: 92773},
+																											pos:        position{line: 2924, col: 13, offset: 93289},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 20, offset: 92780},
+																											pos:        position{line: 2924, col: 20, offset: 93296},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 29, offset: 92789},
+																											pos:        position{line: 2924, col: 29, offset: 93305},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33205,9 +33205,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2922, col: 8, offset: 92949},
+																								pos: position{line: 2934, col: 8, offset: 93465},
 																								expr: &anyMatcher{
-																									line: 2922, col: 9, offset: 92950,
+																									line: 2934, col: 9, offset: 93466,
 																								},
 																							},
 																						},
@@ -33272,10 +33272,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 772, col: 8, offset: 24782},
 																							expr: &actionExpr{
-																								pos: position{line: 2903, col: 10, offset: 92601},
+																								pos: position{line: 2915, col: 10, offset: 93117},
 																								run: (*parser).callonListContinuationElement732,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2903, col: 10, offset: 92601},
+																									pos:        position{line: 2915, col: 10, offset: 93117},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33284,28 +33284,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2925, col: 8, offset: 92999},
+																							pos: position{line: 2937, col: 8, offset: 93515},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2912, col: 12, offset: 92772},
+																									pos: position{line: 2924, col: 12, offset: 93288},
 																									run: (*parser).callonListContinuationElement735,
 																									expr: &choiceExpr{
-																										pos: position{line: 2912, col: 13, offset: 92773},
+																										pos: position{line: 2924, col: 13, offset: 93289},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 13, offset: 92773},
+																												pos:        position{line: 2924, col: 13, offset: 93289},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 20, offset: 92780},
+																												pos:        position{line: 2924, col: 20, offset: 93296},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 29, offset: 92789},
+																												pos:        position{line: 2924, col: 29, offset: 93305},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33314,9 +33314,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2922, col: 8, offset: 92949},
+																									pos: position{line: 2934, col: 8, offset: 93465},
 																									expr: &anyMatcher{
-																										line: 2922, col: 9, offset: 92950,
+																										line: 2934, col: 9, offset: 93466,
 																									},
 																								},
 																							},
@@ -33332,9 +33332,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2922, col: 8, offset: 92949},
+																	pos: position{line: 2934, col: 8, offset: 93465},
 																	expr: &anyMatcher{
-																		line: 2922, col: 9, offset: 92950,
+																		line: 2934, col: 9, offset: 93466,
 																	},
 																},
 															},
@@ -33390,10 +33390,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 786, col: 8, offset: 25258},
 																	expr: &actionExpr{
-																		pos: position{line: 2903, col: 10, offset: 92601},
+																		pos: position{line: 2915, col: 10, offset: 93117},
 																		run: (*parser).callonListContinuationElement757,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2903, col: 10, offset: 92601},
+																			pos:        position{line: 2915, col: 10, offset: 93117},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33402,28 +33402,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2925, col: 8, offset: 92999},
+																	pos: position{line: 2937, col: 8, offset: 93515},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2912, col: 12, offset: 92772},
+																			pos: position{line: 2924, col: 12, offset: 93288},
 																			run: (*parser).callonListContinuationElement760,
 																			expr: &choiceExpr{
-																				pos: position{line: 2912, col: 13, offset: 92773},
+																				pos: position{line: 2924, col: 13, offset: 93289},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 13, offset: 92773},
+																						pos:        position{line: 2924, col: 13, offset: 93289},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 20, offset: 92780},
+																						pos:        position{line: 2924, col: 20, offset: 93296},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 29, offset: 92789},
+																						pos:        position{line: 2924, col: 29, offset: 93305},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33432,9 +33432,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2922, col: 8, offset: 92949},
+																			pos: position{line: 2934, col: 8, offset: 93465},
 																			expr: &anyMatcher{
-																				line: 2922, col: 9, offset: 92950,
+																				line: 2934, col: 9, offset: 93466,
 																			},
 																		},
 																	},
@@ -33506,10 +33506,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 786, col: 8, offset: 25258},
 																											expr: &actionExpr{
-																												pos: position{line: 2903, col: 10, offset: 92601},
+																												pos: position{line: 2915, col: 10, offset: 93117},
 																												run: (*parser).callonListContinuationElement785,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2903, col: 10, offset: 92601},
+																													pos:        position{line: 2915, col: 10, offset: 93117},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33518,28 +33518,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2925, col: 8, offset: 92999},
+																											pos: position{line: 2937, col: 8, offset: 93515},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2912, col: 12, offset: 92772},
+																													pos: position{line: 2924, col: 12, offset: 93288},
 																													run: (*parser).callonListContinuationElement788,
 																													expr: &choiceExpr{
-																														pos: position{line: 2912, col: 13, offset: 92773},
+																														pos: position{line: 2924, col: 13, offset: 93289},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 13, offset: 92773},
+																																pos:        position{line: 2924, col: 13, offset: 93289},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 20, offset: 92780},
+																																pos:        position{line: 2924, col: 20, offset: 93296},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 29, offset: 92789},
+																																pos:        position{line: 2924, col: 29, offset: 93305},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33548,9 +33548,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2922, col: 8, offset: 92949},
+																													pos: position{line: 2934, col: 8, offset: 93465},
 																													expr: &anyMatcher{
-																														line: 2922, col: 9, offset: 92950,
+																														line: 2934, col: 9, offset: 93466,
 																													},
 																												},
 																											},
@@ -33566,9 +33566,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2922, col: 8, offset: 92949},
+																					pos: position{line: 2934, col: 8, offset: 93465},
 																					expr: &anyMatcher{
-																						line: 2922, col: 9, offset: 92950,
+																						line: 2934, col: 9, offset: 93466,
 																					},
 																				},
 																			},
@@ -33584,21 +33584,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2920, col: 11, offset: 92935},
+																						pos: position{line: 2932, col: 11, offset: 93451},
 																						expr: &anyMatcher{
-																							line: 2920, col: 13, offset: 92937,
+																							line: 2932, col: 13, offset: 93453,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2849, col: 13, offset: 91127},
+																							pos: position{line: 2861, col: 13, offset: 91643},
 																							run: (*parser).callonListContinuationElement804,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2849, col: 13, offset: 91127},
+																								pos: position{line: 2861, col: 13, offset: 91643},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2849, col: 13, offset: 91127},
+																									pos:        position{line: 2861, col: 13, offset: 91643},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33608,28 +33608,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2925, col: 8, offset: 92999},
+																						pos: position{line: 2937, col: 8, offset: 93515},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2912, col: 12, offset: 92772},
+																								pos: position{line: 2924, col: 12, offset: 93288},
 																								run: (*parser).callonListContinuationElement808,
 																								expr: &choiceExpr{
-																									pos: position{line: 2912, col: 13, offset: 92773},
+																									pos: position{line: 2924, col: 13, offset: 93289},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 13, offset: 92773},
+																											pos:        position{line: 2924, col: 13, offset: 93289},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 20, offset: 92780},
+																											pos:        position{line: 2924, col: 20, offset: 93296},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 29, offset: 92789},
+																											pos:        position{line: 2924, col: 29, offset: 93305},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33638,9 +33638,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2922, col: 8, offset: 92949},
+																								pos: position{line: 2934, col: 8, offset: 93465},
 																								expr: &anyMatcher{
-																									line: 2922, col: 9, offset: 92950,
+																									line: 2934, col: 9, offset: 93466,
 																								},
 																							},
 																						},
@@ -33705,10 +33705,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 786, col: 8, offset: 25258},
 																							expr: &actionExpr{
-																								pos: position{line: 2903, col: 10, offset: 92601},
+																								pos: position{line: 2915, col: 10, offset: 93117},
 																								run: (*parser).callonListContinuationElement829,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2903, col: 10, offset: 92601},
+																									pos:        position{line: 2915, col: 10, offset: 93117},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33717,28 +33717,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2925, col: 8, offset: 92999},
+																							pos: position{line: 2937, col: 8, offset: 93515},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2912, col: 12, offset: 92772},
+																									pos: position{line: 2924, col: 12, offset: 93288},
 																									run: (*parser).callonListContinuationElement832,
 																									expr: &choiceExpr{
-																										pos: position{line: 2912, col: 13, offset: 92773},
+																										pos: position{line: 2924, col: 13, offset: 93289},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 13, offset: 92773},
+																												pos:        position{line: 2924, col: 13, offset: 93289},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 20, offset: 92780},
+																												pos:        position{line: 2924, col: 20, offset: 93296},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 29, offset: 92789},
+																												pos:        position{line: 2924, col: 29, offset: 93305},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33747,9 +33747,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2922, col: 8, offset: 92949},
+																									pos: position{line: 2934, col: 8, offset: 93465},
 																									expr: &anyMatcher{
-																										line: 2922, col: 9, offset: 92950,
+																										line: 2934, col: 9, offset: 93466,
 																									},
 																								},
 																							},
@@ -33765,9 +33765,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2922, col: 8, offset: 92949},
+																	pos: position{line: 2934, col: 8, offset: 93465},
 																	expr: &anyMatcher{
-																		line: 2922, col: 9, offset: 92950,
+																		line: 2934, col: 9, offset: 93466,
 																	},
 																},
 															},
@@ -33801,18 +33801,18 @@ var g = &grammar{
 																			pos: position{line: 677, col: 14, offset: 21525},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2920, col: 11, offset: 92935},
+																					pos: position{line: 2932, col: 11, offset: 93451},
 																					expr: &anyMatcher{
-																						line: 2920, col: 13, offset: 92937,
+																						line: 2932, col: 13, offset: 93453,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21532},
 																					expr: &actionExpr{
-																						pos: position{line: 2903, col: 10, offset: 92601},
+																						pos: position{line: 2915, col: 10, offset: 93117},
 																						run: (*parser).callonListContinuationElement853,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2903, col: 10, offset: 92601},
+																							pos:        position{line: 2915, col: 10, offset: 93117},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -33821,28 +33821,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2925, col: 8, offset: 92999},
+																					pos: position{line: 2937, col: 8, offset: 93515},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2912, col: 12, offset: 92772},
+																							pos: position{line: 2924, col: 12, offset: 93288},
 																							run: (*parser).callonListContinuationElement856,
 																							expr: &choiceExpr{
-																								pos: position{line: 2912, col: 13, offset: 92773},
+																								pos: position{line: 2924, col: 13, offset: 93289},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2912, col: 13, offset: 92773},
+																										pos:        position{line: 2924, col: 13, offset: 93289},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2912, col: 20, offset: 92780},
+																										pos:        position{line: 2924, col: 20, offset: 93296},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2912, col: 29, offset: 92789},
+																										pos:        position{line: 2924, col: 29, offset: 93305},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -33851,9 +33851,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2922, col: 8, offset: 92949},
+																							pos: position{line: 2934, col: 8, offset: 93465},
 																							expr: &anyMatcher{
-																								line: 2922, col: 9, offset: 92950,
+																								line: 2934, col: 9, offset: 93466,
 																							},
 																						},
 																					},
@@ -33872,12 +33872,12 @@ var g = &grammar{
 																	pos:   position{line: 985, col: 5, offset: 30748},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2853, col: 14, offset: 91194},
+																		pos: position{line: 2865, col: 14, offset: 91710},
 																		run: (*parser).callonListContinuationElement865,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2853, col: 14, offset: 91194},
+																			pos: position{line: 2865, col: 14, offset: 91710},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2853, col: 14, offset: 91194},
+																				pos:        position{line: 2865, col: 14, offset: 91710},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -33887,28 +33887,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2925, col: 8, offset: 92999},
+																	pos: position{line: 2937, col: 8, offset: 93515},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2912, col: 12, offset: 92772},
+																			pos: position{line: 2924, col: 12, offset: 93288},
 																			run: (*parser).callonListContinuationElement869,
 																			expr: &choiceExpr{
-																				pos: position{line: 2912, col: 13, offset: 92773},
+																				pos: position{line: 2924, col: 13, offset: 93289},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 13, offset: 92773},
+																						pos:        position{line: 2924, col: 13, offset: 93289},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 20, offset: 92780},
+																						pos:        position{line: 2924, col: 20, offset: 93296},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 29, offset: 92789},
+																						pos:        position{line: 2924, col: 29, offset: 93305},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33917,9 +33917,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2922, col: 8, offset: 92949},
+																			pos: position{line: 2934, col: 8, offset: 93465},
 																			expr: &anyMatcher{
-																				line: 2922, col: 9, offset: 92950,
+																				line: 2934, col: 9, offset: 93466,
 																			},
 																		},
 																	},
@@ -33951,18 +33951,18 @@ var g = &grammar{
 																						pos: position{line: 677, col: 14, offset: 21525},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2920, col: 11, offset: 92935},
+																								pos: position{line: 2932, col: 11, offset: 93451},
 																								expr: &anyMatcher{
-																									line: 2920, col: 13, offset: 92937,
+																									line: 2932, col: 13, offset: 93453,
 																								},
 																							},
 																							&zeroOrMoreExpr{
 																								pos: position{line: 677, col: 21, offset: 21532},
 																								expr: &actionExpr{
-																									pos: position{line: 2903, col: 10, offset: 92601},
+																									pos: position{line: 2915, col: 10, offset: 93117},
 																									run: (*parser).callonListContinuationElement887,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2903, col: 10, offset: 92601},
+																										pos:        position{line: 2915, col: 10, offset: 93117},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33971,28 +33971,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2925, col: 8, offset: 92999},
+																								pos: position{line: 2937, col: 8, offset: 93515},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2912, col: 12, offset: 92772},
+																										pos: position{line: 2924, col: 12, offset: 93288},
 																										run: (*parser).callonListContinuationElement890,
 																										expr: &choiceExpr{
-																											pos: position{line: 2912, col: 13, offset: 92773},
+																											pos: position{line: 2924, col: 13, offset: 93289},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2912, col: 13, offset: 92773},
+																													pos:        position{line: 2924, col: 13, offset: 93289},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2912, col: 20, offset: 92780},
+																													pos:        position{line: 2924, col: 20, offset: 93296},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2912, col: 29, offset: 92789},
+																													pos:        position{line: 2924, col: 29, offset: 93305},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34001,9 +34001,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2922, col: 8, offset: 92949},
+																										pos: position{line: 2934, col: 8, offset: 93465},
 																										expr: &anyMatcher{
-																											line: 2922, col: 9, offset: 92950,
+																											line: 2934, col: 9, offset: 93466,
 																										},
 																									},
 																								},
@@ -34022,12 +34022,12 @@ var g = &grammar{
 																				pos:   position{line: 985, col: 5, offset: 30748},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2853, col: 14, offset: 91194},
+																					pos: position{line: 2865, col: 14, offset: 91710},
 																					run: (*parser).callonListContinuationElement899,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2853, col: 14, offset: 91194},
+																						pos: position{line: 2865, col: 14, offset: 91710},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2853, col: 14, offset: 91194},
+																							pos:        position{line: 2865, col: 14, offset: 91710},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34037,28 +34037,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2925, col: 8, offset: 92999},
+																				pos: position{line: 2937, col: 8, offset: 93515},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2912, col: 12, offset: 92772},
+																						pos: position{line: 2924, col: 12, offset: 93288},
 																						run: (*parser).callonListContinuationElement903,
 																						expr: &choiceExpr{
-																							pos: position{line: 2912, col: 13, offset: 92773},
+																							pos: position{line: 2924, col: 13, offset: 93289},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2912, col: 13, offset: 92773},
+																									pos:        position{line: 2924, col: 13, offset: 93289},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2912, col: 20, offset: 92780},
+																									pos:        position{line: 2924, col: 20, offset: 93296},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2912, col: 29, offset: 92789},
+																									pos:        position{line: 2924, col: 29, offset: 93305},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34067,9 +34067,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2922, col: 8, offset: 92949},
+																						pos: position{line: 2934, col: 8, offset: 93465},
 																						expr: &anyMatcher{
-																							line: 2922, col: 9, offset: 92950,
+																							line: 2934, col: 9, offset: 93466,
 																						},
 																					},
 																				},
@@ -34087,12 +34087,12 @@ var g = &grammar{
 																				pos:   position{line: 1798, col: 5, offset: 58283},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2853, col: 14, offset: 91194},
+																					pos: position{line: 2865, col: 14, offset: 91710},
 																					run: (*parser).callonListContinuationElement913,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2853, col: 14, offset: 91194},
+																						pos: position{line: 2865, col: 14, offset: 91710},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2853, col: 14, offset: 91194},
+																							pos:        position{line: 2865, col: 14, offset: 91710},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34106,28 +34106,28 @@ var g = &grammar{
 																				run: (*parser).callonListContinuationElement916,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2925, col: 8, offset: 92999},
+																				pos: position{line: 2937, col: 8, offset: 93515},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2912, col: 12, offset: 92772},
+																						pos: position{line: 2924, col: 12, offset: 93288},
 																						run: (*parser).callonListContinuationElement918,
 																						expr: &choiceExpr{
-																							pos: position{line: 2912, col: 13, offset: 92773},
+																							pos: position{line: 2924, col: 13, offset: 93289},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2912, col: 13, offset: 92773},
+																									pos:        position{line: 2924, col: 13, offset: 93289},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2912, col: 20, offset: 92780},
+																									pos:        position{line: 2924, col: 20, offset: 93296},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2912, col: 29, offset: 92789},
+																									pos:        position{line: 2924, col: 29, offset: 93305},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34136,9 +34136,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2922, col: 8, offset: 92949},
+																						pos: position{line: 2934, col: 8, offset: 93465},
 																						expr: &anyMatcher{
-																							line: 2922, col: 9, offset: 92950,
+																							line: 2934, col: 9, offset: 93466,
 																						},
 																					},
 																				},
@@ -34185,10 +34185,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 779, col: 8, offset: 25013},
 																	expr: &actionExpr{
-																		pos: position{line: 2903, col: 10, offset: 92601},
+																		pos: position{line: 2915, col: 10, offset: 93117},
 																		run: (*parser).callonListContinuationElement934,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2903, col: 10, offset: 92601},
+																			pos:        position{line: 2915, col: 10, offset: 93117},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34197,28 +34197,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2925, col: 8, offset: 92999},
+																	pos: position{line: 2937, col: 8, offset: 93515},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2912, col: 12, offset: 92772},
+																			pos: position{line: 2924, col: 12, offset: 93288},
 																			run: (*parser).callonListContinuationElement937,
 																			expr: &choiceExpr{
-																				pos: position{line: 2912, col: 13, offset: 92773},
+																				pos: position{line: 2924, col: 13, offset: 93289},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 13, offset: 92773},
+																						pos:        position{line: 2924, col: 13, offset: 93289},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 20, offset: 92780},
+																						pos:        position{line: 2924, col: 20, offset: 93296},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 29, offset: 92789},
+																						pos:        position{line: 2924, col: 29, offset: 93305},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34227,9 +34227,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2922, col: 8, offset: 92949},
+																			pos: position{line: 2934, col: 8, offset: 93465},
 																			expr: &anyMatcher{
-																				line: 2922, col: 9, offset: 92950,
+																				line: 2934, col: 9, offset: 93466,
 																			},
 																		},
 																	},
@@ -34277,10 +34277,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 779, col: 8, offset: 25013},
 																								expr: &actionExpr{
-																									pos: position{line: 2903, col: 10, offset: 92601},
+																									pos: position{line: 2915, col: 10, offset: 93117},
 																									run: (*parser).callonListContinuationElement956,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2903, col: 10, offset: 92601},
+																										pos:        position{line: 2915, col: 10, offset: 93117},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -34289,28 +34289,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2925, col: 8, offset: 92999},
+																								pos: position{line: 2937, col: 8, offset: 93515},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2912, col: 12, offset: 92772},
+																										pos: position{line: 2924, col: 12, offset: 93288},
 																										run: (*parser).callonListContinuationElement959,
 																										expr: &choiceExpr{
-																											pos: position{line: 2912, col: 13, offset: 92773},
+																											pos: position{line: 2924, col: 13, offset: 93289},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2912, col: 13, offset: 92773},
+																													pos:        position{line: 2924, col: 13, offset: 93289},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2912, col: 20, offset: 92780},
+																													pos:        position{line: 2924, col: 20, offset: 93296},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2912, col: 29, offset: 92789},
+																													pos:        position{line: 2924, col: 29, offset: 93305},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34319,9 +34319,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2922, col: 8, offset: 92949},
+																										pos: position{line: 2934, col: 8, offset: 93465},
 																										expr: &anyMatcher{
-																											line: 2922, col: 9, offset: 92950,
+																											line: 2934, col: 9, offset: 93466,
 																										},
 																									},
 																								},
@@ -34330,9 +34330,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2922, col: 8, offset: 92949},
+																					pos: position{line: 2934, col: 8, offset: 93465},
 																					expr: &anyMatcher{
-																						line: 2922, col: 9, offset: 92950,
+																						line: 2934, col: 9, offset: 93466,
 																					},
 																				},
 																			},
@@ -34348,21 +34348,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2920, col: 11, offset: 92935},
+																						pos: position{line: 2932, col: 11, offset: 93451},
 																						expr: &anyMatcher{
-																							line: 2920, col: 13, offset: 92937,
+																							line: 2932, col: 13, offset: 93453,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2849, col: 13, offset: 91127},
+																							pos: position{line: 2861, col: 13, offset: 91643},
 																							run: (*parser).callonListContinuationElement974,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2849, col: 13, offset: 91127},
+																								pos: position{line: 2861, col: 13, offset: 91643},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2849, col: 13, offset: 91127},
+																									pos:        position{line: 2861, col: 13, offset: 91643},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34372,28 +34372,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2925, col: 8, offset: 92999},
+																						pos: position{line: 2937, col: 8, offset: 93515},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2912, col: 12, offset: 92772},
+																								pos: position{line: 2924, col: 12, offset: 93288},
 																								run: (*parser).callonListContinuationElement978,
 																								expr: &choiceExpr{
-																									pos: position{line: 2912, col: 13, offset: 92773},
+																									pos: position{line: 2924, col: 13, offset: 93289},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 13, offset: 92773},
+																											pos:        position{line: 2924, col: 13, offset: 93289},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 20, offset: 92780},
+																											pos:        position{line: 2924, col: 20, offset: 93296},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 29, offset: 92789},
+																											pos:        position{line: 2924, col: 29, offset: 93305},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34402,9 +34402,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2922, col: 8, offset: 92949},
+																								pos: position{line: 2934, col: 8, offset: 93465},
 																								expr: &anyMatcher{
-																									line: 2922, col: 9, offset: 92950,
+																									line: 2934, col: 9, offset: 93466,
 																								},
 																							},
 																						},
@@ -34449,10 +34449,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 779, col: 8, offset: 25013},
 																				expr: &actionExpr{
-																					pos: position{line: 2903, col: 10, offset: 92601},
+																					pos: position{line: 2915, col: 10, offset: 93117},
 																					run: (*parser).callonListContinuationElement994,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2903, col: 10, offset: 92601},
+																						pos:        position{line: 2915, col: 10, offset: 93117},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -34461,28 +34461,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2925, col: 8, offset: 92999},
+																				pos: position{line: 2937, col: 8, offset: 93515},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2912, col: 12, offset: 92772},
+																						pos: position{line: 2924, col: 12, offset: 93288},
 																						run: (*parser).callonListContinuationElement997,
 																						expr: &choiceExpr{
-																							pos: position{line: 2912, col: 13, offset: 92773},
+																							pos: position{line: 2924, col: 13, offset: 93289},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2912, col: 13, offset: 92773},
+																									pos:        position{line: 2924, col: 13, offset: 93289},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2912, col: 20, offset: 92780},
+																									pos:        position{line: 2924, col: 20, offset: 93296},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2912, col: 29, offset: 92789},
+																									pos:        position{line: 2924, col: 29, offset: 93305},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34491,9 +34491,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2922, col: 8, offset: 92949},
+																						pos: position{line: 2934, col: 8, offset: 93465},
 																						expr: &anyMatcher{
-																							line: 2922, col: 9, offset: 92950,
+																							line: 2934, col: 9, offset: 93466,
 																						},
 																					},
 																				},
@@ -34502,9 +34502,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2922, col: 8, offset: 92949},
+																	pos: position{line: 2934, col: 8, offset: 93465},
 																	expr: &anyMatcher{
-																		line: 2922, col: 9, offset: 92950,
+																		line: 2934, col: 9, offset: 93466,
 																	},
 																},
 															},
@@ -34560,10 +34560,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 793, col: 8, offset: 25510},
 																	expr: &actionExpr{
-																		pos: position{line: 2903, col: 10, offset: 92601},
+																		pos: position{line: 2915, col: 10, offset: 93117},
 																		run: (*parser).callonListContinuationElement1018,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2903, col: 10, offset: 92601},
+																			pos:        position{line: 2915, col: 10, offset: 93117},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34572,28 +34572,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2925, col: 8, offset: 92999},
+																	pos: position{line: 2937, col: 8, offset: 93515},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2912, col: 12, offset: 92772},
+																			pos: position{line: 2924, col: 12, offset: 93288},
 																			run: (*parser).callonListContinuationElement1021,
 																			expr: &choiceExpr{
-																				pos: position{line: 2912, col: 13, offset: 92773},
+																				pos: position{line: 2924, col: 13, offset: 93289},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 13, offset: 92773},
+																						pos:        position{line: 2924, col: 13, offset: 93289},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 20, offset: 92780},
+																						pos:        position{line: 2924, col: 20, offset: 93296},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 29, offset: 92789},
+																						pos:        position{line: 2924, col: 29, offset: 93305},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34602,9 +34602,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2922, col: 8, offset: 92949},
+																			pos: position{line: 2934, col: 8, offset: 93465},
 																			expr: &anyMatcher{
-																				line: 2922, col: 9, offset: 92950,
+																				line: 2934, col: 9, offset: 93466,
 																			},
 																		},
 																	},
@@ -34676,10 +34676,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 793, col: 8, offset: 25510},
 																											expr: &actionExpr{
-																												pos: position{line: 2903, col: 10, offset: 92601},
+																												pos: position{line: 2915, col: 10, offset: 93117},
 																												run: (*parser).callonListContinuationElement1046,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2903, col: 10, offset: 92601},
+																													pos:        position{line: 2915, col: 10, offset: 93117},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34688,28 +34688,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2925, col: 8, offset: 92999},
+																											pos: position{line: 2937, col: 8, offset: 93515},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2912, col: 12, offset: 92772},
+																													pos: position{line: 2924, col: 12, offset: 93288},
 																													run: (*parser).callonListContinuationElement1049,
 																													expr: &choiceExpr{
-																														pos: position{line: 2912, col: 13, offset: 92773},
+																														pos: position{line: 2924, col: 13, offset: 93289},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 13, offset: 92773},
+																																pos:        position{line: 2924, col: 13, offset: 93289},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 20, offset: 92780},
+																																pos:        position{line: 2924, col: 20, offset: 93296},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 29, offset: 92789},
+																																pos:        position{line: 2924, col: 29, offset: 93305},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34718,9 +34718,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2922, col: 8, offset: 92949},
+																													pos: position{line: 2934, col: 8, offset: 93465},
 																													expr: &anyMatcher{
-																														line: 2922, col: 9, offset: 92950,
+																														line: 2934, col: 9, offset: 93466,
 																													},
 																												},
 																											},
@@ -34736,9 +34736,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2922, col: 8, offset: 92949},
+																					pos: position{line: 2934, col: 8, offset: 93465},
 																					expr: &anyMatcher{
-																						line: 2922, col: 9, offset: 92950,
+																						line: 2934, col: 9, offset: 93466,
 																					},
 																				},
 																			},
@@ -34754,21 +34754,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2920, col: 11, offset: 92935},
+																						pos: position{line: 2932, col: 11, offset: 93451},
 																						expr: &anyMatcher{
-																							line: 2920, col: 13, offset: 92937,
+																							line: 2932, col: 13, offset: 93453,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2849, col: 13, offset: 91127},
+																							pos: position{line: 2861, col: 13, offset: 91643},
 																							run: (*parser).callonListContinuationElement1065,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2849, col: 13, offset: 91127},
+																								pos: position{line: 2861, col: 13, offset: 91643},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2849, col: 13, offset: 91127},
+																									pos:        position{line: 2861, col: 13, offset: 91643},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34778,28 +34778,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2925, col: 8, offset: 92999},
+																						pos: position{line: 2937, col: 8, offset: 93515},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2912, col: 12, offset: 92772},
+																								pos: position{line: 2924, col: 12, offset: 93288},
 																								run: (*parser).callonListContinuationElement1069,
 																								expr: &choiceExpr{
-																									pos: position{line: 2912, col: 13, offset: 92773},
+																									pos: position{line: 2924, col: 13, offset: 93289},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 13, offset: 92773},
+																											pos:        position{line: 2924, col: 13, offset: 93289},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 20, offset: 92780},
+																											pos:        position{line: 2924, col: 20, offset: 93296},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 29, offset: 92789},
+																											pos:        position{line: 2924, col: 29, offset: 93305},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34808,9 +34808,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2922, col: 8, offset: 92949},
+																								pos: position{line: 2934, col: 8, offset: 93465},
 																								expr: &anyMatcher{
-																									line: 2922, col: 9, offset: 92950,
+																									line: 2934, col: 9, offset: 93466,
 																								},
 																							},
 																						},
@@ -34875,10 +34875,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 793, col: 8, offset: 25510},
 																							expr: &actionExpr{
-																								pos: position{line: 2903, col: 10, offset: 92601},
+																								pos: position{line: 2915, col: 10, offset: 93117},
 																								run: (*parser).callonListContinuationElement1090,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2903, col: 10, offset: 92601},
+																									pos:        position{line: 2915, col: 10, offset: 93117},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34887,28 +34887,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2925, col: 8, offset: 92999},
+																							pos: position{line: 2937, col: 8, offset: 93515},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2912, col: 12, offset: 92772},
+																									pos: position{line: 2924, col: 12, offset: 93288},
 																									run: (*parser).callonListContinuationElement1093,
 																									expr: &choiceExpr{
-																										pos: position{line: 2912, col: 13, offset: 92773},
+																										pos: position{line: 2924, col: 13, offset: 93289},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 13, offset: 92773},
+																												pos:        position{line: 2924, col: 13, offset: 93289},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 20, offset: 92780},
+																												pos:        position{line: 2924, col: 20, offset: 93296},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 29, offset: 92789},
+																												pos:        position{line: 2924, col: 29, offset: 93305},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34917,9 +34917,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2922, col: 8, offset: 92949},
+																									pos: position{line: 2934, col: 8, offset: 93465},
 																									expr: &anyMatcher{
-																										line: 2922, col: 9, offset: 92950,
+																										line: 2934, col: 9, offset: 93466,
 																									},
 																								},
 																							},
@@ -34935,9 +34935,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2922, col: 8, offset: 92949},
+																	pos: position{line: 2934, col: 8, offset: 93465},
 																	expr: &anyMatcher{
-																		line: 2922, col: 9, offset: 92950,
+																		line: 2934, col: 9, offset: 93466,
 																	},
 																},
 															},
@@ -34993,10 +34993,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 800, col: 8, offset: 25760},
 																	expr: &actionExpr{
-																		pos: position{line: 2903, col: 10, offset: 92601},
+																		pos: position{line: 2915, col: 10, offset: 93117},
 																		run: (*parser).callonListContinuationElement1115,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2903, col: 10, offset: 92601},
+																			pos:        position{line: 2915, col: 10, offset: 93117},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35005,28 +35005,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2925, col: 8, offset: 92999},
+																	pos: position{line: 2937, col: 8, offset: 93515},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2912, col: 12, offset: 92772},
+																			pos: position{line: 2924, col: 12, offset: 93288},
 																			run: (*parser).callonListContinuationElement1118,
 																			expr: &choiceExpr{
-																				pos: position{line: 2912, col: 13, offset: 92773},
+																				pos: position{line: 2924, col: 13, offset: 93289},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 13, offset: 92773},
+																						pos:        position{line: 2924, col: 13, offset: 93289},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 20, offset: 92780},
+																						pos:        position{line: 2924, col: 20, offset: 93296},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 29, offset: 92789},
+																						pos:        position{line: 2924, col: 29, offset: 93305},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35035,9 +35035,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2922, col: 8, offset: 92949},
+																			pos: position{line: 2934, col: 8, offset: 93465},
 																			expr: &anyMatcher{
-																				line: 2922, col: 9, offset: 92950,
+																				line: 2934, col: 9, offset: 93466,
 																			},
 																		},
 																	},
@@ -35109,10 +35109,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 800, col: 8, offset: 25760},
 																											expr: &actionExpr{
-																												pos: position{line: 2903, col: 10, offset: 92601},
+																												pos: position{line: 2915, col: 10, offset: 93117},
 																												run: (*parser).callonListContinuationElement1143,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2903, col: 10, offset: 92601},
+																													pos:        position{line: 2915, col: 10, offset: 93117},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35121,28 +35121,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2925, col: 8, offset: 92999},
+																											pos: position{line: 2937, col: 8, offset: 93515},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2912, col: 12, offset: 92772},
+																													pos: position{line: 2924, col: 12, offset: 93288},
 																													run: (*parser).callonListContinuationElement1146,
 																													expr: &choiceExpr{
-																														pos: position{line: 2912, col: 13, offset: 92773},
+																														pos: position{line: 2924, col: 13, offset: 93289},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 13, offset: 92773},
+																																pos:        position{line: 2924, col: 13, offset: 93289},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 20, offset: 92780},
+																																pos:        position{line: 2924, col: 20, offset: 93296},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 29, offset: 92789},
+																																pos:        position{line: 2924, col: 29, offset: 93305},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35151,9 +35151,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2922, col: 8, offset: 92949},
+																													pos: position{line: 2934, col: 8, offset: 93465},
 																													expr: &anyMatcher{
-																														line: 2922, col: 9, offset: 92950,
+																														line: 2934, col: 9, offset: 93466,
 																													},
 																												},
 																											},
@@ -35169,9 +35169,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2922, col: 8, offset: 92949},
+																					pos: position{line: 2934, col: 8, offset: 93465},
 																					expr: &anyMatcher{
-																						line: 2922, col: 9, offset: 92950,
+																						line: 2934, col: 9, offset: 93466,
 																					},
 																				},
 																			},
@@ -35187,21 +35187,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2920, col: 11, offset: 92935},
+																						pos: position{line: 2932, col: 11, offset: 93451},
 																						expr: &anyMatcher{
-																							line: 2920, col: 13, offset: 92937,
+																							line: 2932, col: 13, offset: 93453,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2849, col: 13, offset: 91127},
+																							pos: position{line: 2861, col: 13, offset: 91643},
 																							run: (*parser).callonListContinuationElement1162,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2849, col: 13, offset: 91127},
+																								pos: position{line: 2861, col: 13, offset: 91643},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2849, col: 13, offset: 91127},
+																									pos:        position{line: 2861, col: 13, offset: 91643},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35211,28 +35211,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2925, col: 8, offset: 92999},
+																						pos: position{line: 2937, col: 8, offset: 93515},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2912, col: 12, offset: 92772},
+																								pos: position{line: 2924, col: 12, offset: 93288},
 																								run: (*parser).callonListContinuationElement1166,
 																								expr: &choiceExpr{
-																									pos: position{line: 2912, col: 13, offset: 92773},
+																									pos: position{line: 2924, col: 13, offset: 93289},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 13, offset: 92773},
+																											pos:        position{line: 2924, col: 13, offset: 93289},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 20, offset: 92780},
+																											pos:        position{line: 2924, col: 20, offset: 93296},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 29, offset: 92789},
+																											pos:        position{line: 2924, col: 29, offset: 93305},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35241,9 +35241,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2922, col: 8, offset: 92949},
+																								pos: position{line: 2934, col: 8, offset: 93465},
 																								expr: &anyMatcher{
-																									line: 2922, col: 9, offset: 92950,
+																									line: 2934, col: 9, offset: 93466,
 																								},
 																							},
 																						},
@@ -35308,10 +35308,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 800, col: 8, offset: 25760},
 																							expr: &actionExpr{
-																								pos: position{line: 2903, col: 10, offset: 92601},
+																								pos: position{line: 2915, col: 10, offset: 93117},
 																								run: (*parser).callonListContinuationElement1187,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2903, col: 10, offset: 92601},
+																									pos:        position{line: 2915, col: 10, offset: 93117},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35320,28 +35320,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2925, col: 8, offset: 92999},
+																							pos: position{line: 2937, col: 8, offset: 93515},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2912, col: 12, offset: 92772},
+																									pos: position{line: 2924, col: 12, offset: 93288},
 																									run: (*parser).callonListContinuationElement1190,
 																									expr: &choiceExpr{
-																										pos: position{line: 2912, col: 13, offset: 92773},
+																										pos: position{line: 2924, col: 13, offset: 93289},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 13, offset: 92773},
+																												pos:        position{line: 2924, col: 13, offset: 93289},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 20, offset: 92780},
+																												pos:        position{line: 2924, col: 20, offset: 93296},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 29, offset: 92789},
+																												pos:        position{line: 2924, col: 29, offset: 93305},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35350,9 +35350,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2922, col: 8, offset: 92949},
+																									pos: position{line: 2934, col: 8, offset: 93465},
 																									expr: &anyMatcher{
-																										line: 2922, col: 9, offset: 92950,
+																										line: 2934, col: 9, offset: 93466,
 																									},
 																								},
 																							},
@@ -35368,9 +35368,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2922, col: 8, offset: 92949},
+																	pos: position{line: 2934, col: 8, offset: 93465},
 																	expr: &anyMatcher{
-																		line: 2922, col: 9, offset: 92950,
+																		line: 2934, col: 9, offset: 93466,
 																	},
 																},
 															},
@@ -35426,10 +35426,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 807, col: 8, offset: 26006},
 																	expr: &actionExpr{
-																		pos: position{line: 2903, col: 10, offset: 92601},
+																		pos: position{line: 2915, col: 10, offset: 93117},
 																		run: (*parser).callonListContinuationElement1212,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2903, col: 10, offset: 92601},
+																			pos:        position{line: 2915, col: 10, offset: 93117},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35438,28 +35438,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2925, col: 8, offset: 92999},
+																	pos: position{line: 2937, col: 8, offset: 93515},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2912, col: 12, offset: 92772},
+																			pos: position{line: 2924, col: 12, offset: 93288},
 																			run: (*parser).callonListContinuationElement1215,
 																			expr: &choiceExpr{
-																				pos: position{line: 2912, col: 13, offset: 92773},
+																				pos: position{line: 2924, col: 13, offset: 93289},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 13, offset: 92773},
+																						pos:        position{line: 2924, col: 13, offset: 93289},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 20, offset: 92780},
+																						pos:        position{line: 2924, col: 20, offset: 93296},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 29, offset: 92789},
+																						pos:        position{line: 2924, col: 29, offset: 93305},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35468,9 +35468,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2922, col: 8, offset: 92949},
+																			pos: position{line: 2934, col: 8, offset: 93465},
 																			expr: &anyMatcher{
-																				line: 2922, col: 9, offset: 92950,
+																				line: 2934, col: 9, offset: 93466,
 																			},
 																		},
 																	},
@@ -35542,10 +35542,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 807, col: 8, offset: 26006},
 																											expr: &actionExpr{
-																												pos: position{line: 2903, col: 10, offset: 92601},
+																												pos: position{line: 2915, col: 10, offset: 93117},
 																												run: (*parser).callonListContinuationElement1240,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2903, col: 10, offset: 92601},
+																													pos:        position{line: 2915, col: 10, offset: 93117},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35554,28 +35554,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2925, col: 8, offset: 92999},
+																											pos: position{line: 2937, col: 8, offset: 93515},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2912, col: 12, offset: 92772},
+																													pos: position{line: 2924, col: 12, offset: 93288},
 																													run: (*parser).callonListContinuationElement1243,
 																													expr: &choiceExpr{
-																														pos: position{line: 2912, col: 13, offset: 92773},
+																														pos: position{line: 2924, col: 13, offset: 93289},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 13, offset: 92773},
+																																pos:        position{line: 2924, col: 13, offset: 93289},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 20, offset: 92780},
+																																pos:        position{line: 2924, col: 20, offset: 93296},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 29, offset: 92789},
+																																pos:        position{line: 2924, col: 29, offset: 93305},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35584,9 +35584,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2922, col: 8, offset: 92949},
+																													pos: position{line: 2934, col: 8, offset: 93465},
 																													expr: &anyMatcher{
-																														line: 2922, col: 9, offset: 92950,
+																														line: 2934, col: 9, offset: 93466,
 																													},
 																												},
 																											},
@@ -35602,9 +35602,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2922, col: 8, offset: 92949},
+																					pos: position{line: 2934, col: 8, offset: 93465},
 																					expr: &anyMatcher{
-																						line: 2922, col: 9, offset: 92950,
+																						line: 2934, col: 9, offset: 93466,
 																					},
 																				},
 																			},
@@ -35620,21 +35620,21 @@ var g = &grammar{
 																				pos: position{line: 812, col: 5, offset: 26152},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2920, col: 11, offset: 92935},
+																						pos: position{line: 2932, col: 11, offset: 93451},
 																						expr: &anyMatcher{
-																							line: 2920, col: 13, offset: 92937,
+																							line: 2932, col: 13, offset: 93453,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 813, col: 5, offset: 26227},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2849, col: 13, offset: 91127},
+																							pos: position{line: 2861, col: 13, offset: 91643},
 																							run: (*parser).callonListContinuationElement1259,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2849, col: 13, offset: 91127},
+																								pos: position{line: 2861, col: 13, offset: 91643},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2849, col: 13, offset: 91127},
+																									pos:        position{line: 2861, col: 13, offset: 91643},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35644,28 +35644,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2925, col: 8, offset: 92999},
+																						pos: position{line: 2937, col: 8, offset: 93515},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2912, col: 12, offset: 92772},
+																								pos: position{line: 2924, col: 12, offset: 93288},
 																								run: (*parser).callonListContinuationElement1263,
 																								expr: &choiceExpr{
-																									pos: position{line: 2912, col: 13, offset: 92773},
+																									pos: position{line: 2924, col: 13, offset: 93289},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 13, offset: 92773},
+																											pos:        position{line: 2924, col: 13, offset: 93289},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 20, offset: 92780},
+																											pos:        position{line: 2924, col: 20, offset: 93296},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 29, offset: 92789},
+																											pos:        position{line: 2924, col: 29, offset: 93305},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35674,9 +35674,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2922, col: 8, offset: 92949},
+																								pos: position{line: 2934, col: 8, offset: 93465},
 																								expr: &anyMatcher{
-																									line: 2922, col: 9, offset: 92950,
+																									line: 2934, col: 9, offset: 93466,
 																								},
 																							},
 																						},
@@ -35741,10 +35741,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 807, col: 8, offset: 26006},
 																							expr: &actionExpr{
-																								pos: position{line: 2903, col: 10, offset: 92601},
+																								pos: position{line: 2915, col: 10, offset: 93117},
 																								run: (*parser).callonListContinuationElement1284,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2903, col: 10, offset: 92601},
+																									pos:        position{line: 2915, col: 10, offset: 93117},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35753,28 +35753,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2925, col: 8, offset: 92999},
+																							pos: position{line: 2937, col: 8, offset: 93515},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2912, col: 12, offset: 92772},
+																									pos: position{line: 2924, col: 12, offset: 93288},
 																									run: (*parser).callonListContinuationElement1287,
 																									expr: &choiceExpr{
-																										pos: position{line: 2912, col: 13, offset: 92773},
+																										pos: position{line: 2924, col: 13, offset: 93289},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 13, offset: 92773},
+																												pos:        position{line: 2924, col: 13, offset: 93289},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 20, offset: 92780},
+																												pos:        position{line: 2924, col: 20, offset: 93296},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2912, col: 29, offset: 92789},
+																												pos:        position{line: 2924, col: 29, offset: 93305},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35783,9 +35783,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2922, col: 8, offset: 92949},
+																									pos: position{line: 2934, col: 8, offset: 93465},
 																									expr: &anyMatcher{
-																										line: 2922, col: 9, offset: 92950,
+																										line: 2934, col: 9, offset: 93466,
 																									},
 																								},
 																							},
@@ -35801,9 +35801,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2922, col: 8, offset: 92949},
+																	pos: position{line: 2934, col: 8, offset: 93465},
 																	expr: &anyMatcher{
-																		line: 2922, col: 9, offset: 92950,
+																		line: 2934, col: 9, offset: 93466,
 																	},
 																},
 															},
@@ -35814,52 +35814,52 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2741, col: 18, offset: 87982},
+										pos: position{line: 2753, col: 18, offset: 88498},
 										run: (*parser).callonListContinuationElement1297,
 										expr: &seqExpr{
-											pos: position{line: 2741, col: 18, offset: 87982},
+											pos: position{line: 2753, col: 18, offset: 88498},
 											exprs: []interface{}{
 												&choiceExpr{
-													pos: position{line: 2742, col: 9, offset: 87992},
+													pos: position{line: 2754, col: 9, offset: 88508},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2742, col: 9, offset: 87992},
+															pos:        position{line: 2754, col: 9, offset: 88508},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2743, col: 11, offset: 88028},
+															pos:        position{line: 2755, col: 11, offset: 88544},
 															val:        "***",
 															ignoreCase: false,
 															want:       "\"***\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2743, col: 19, offset: 88036},
+															pos:        position{line: 2755, col: 19, offset: 88552},
 															val:        "* * *",
 															ignoreCase: false,
 															want:       "\"* * *\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2743, col: 29, offset: 88046},
+															pos:        position{line: 2755, col: 29, offset: 88562},
 															val:        "---",
 															ignoreCase: false,
 															want:       "\"---\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2743, col: 37, offset: 88054},
+															pos:        position{line: 2755, col: 37, offset: 88570},
 															val:        "- - -",
 															ignoreCase: false,
 															want:       "\"- - -\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2743, col: 47, offset: 88064},
+															pos:        position{line: 2755, col: 47, offset: 88580},
 															val:        "___",
 															ignoreCase: false,
 															want:       "\"___\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2743, col: 55, offset: 88072},
+															pos:        position{line: 2755, col: 55, offset: 88588},
 															val:        "_ _ _",
 															ignoreCase: false,
 															want:       "\"_ _ _\"",
@@ -35867,12 +35867,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2744, col: 11, offset: 88118},
+													pos: position{line: 2756, col: 11, offset: 88634},
 													expr: &actionExpr{
-														pos: position{line: 2903, col: 10, offset: 92601},
+														pos: position{line: 2915, col: 10, offset: 93117},
 														run: (*parser).callonListContinuationElement1308,
 														expr: &charClassMatcher{
-															pos:        position{line: 2903, col: 10, offset: 92601},
+															pos:        position{line: 2915, col: 10, offset: 93117},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35881,28 +35881,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2925, col: 8, offset: 92999},
+													pos: position{line: 2937, col: 8, offset: 93515},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2912, col: 12, offset: 92772},
+															pos: position{line: 2924, col: 12, offset: 93288},
 															run: (*parser).callonListContinuationElement1311,
 															expr: &choiceExpr{
-																pos: position{line: 2912, col: 13, offset: 92773},
+																pos: position{line: 2924, col: 13, offset: 93289},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2912, col: 13, offset: 92773},
+																		pos:        position{line: 2924, col: 13, offset: 93289},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2912, col: 20, offset: 92780},
+																		pos:        position{line: 2924, col: 20, offset: 93296},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2912, col: 29, offset: 92789},
+																		pos:        position{line: 2924, col: 29, offset: 93305},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35911,20 +35911,20 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2922, col: 8, offset: 92949},
+															pos: position{line: 2934, col: 8, offset: 93465},
 															expr: &anyMatcher{
-																line: 2922, col: 9, offset: 92950,
+																line: 2934, col: 9, offset: 93466,
 															},
 														},
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2744, col: 22, offset: 88129},
+													pos: position{line: 2756, col: 22, offset: 88645},
 													expr: &actionExpr{
-														pos: position{line: 2903, col: 10, offset: 92601},
+														pos: position{line: 2915, col: 10, offset: 93117},
 														run: (*parser).callonListContinuationElement1319,
 														expr: &charClassMatcher{
-															pos:        position{line: 2903, col: 10, offset: 92601},
+															pos:        position{line: 2915, col: 10, offset: 93117},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35933,28 +35933,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2925, col: 8, offset: 92999},
+													pos: position{line: 2937, col: 8, offset: 93515},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2912, col: 12, offset: 92772},
+															pos: position{line: 2924, col: 12, offset: 93288},
 															run: (*parser).callonListContinuationElement1322,
 															expr: &choiceExpr{
-																pos: position{line: 2912, col: 13, offset: 92773},
+																pos: position{line: 2924, col: 13, offset: 93289},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2912, col: 13, offset: 92773},
+																		pos:        position{line: 2924, col: 13, offset: 93289},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2912, col: 20, offset: 92780},
+																		pos:        position{line: 2924, col: 20, offset: 93296},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2912, col: 29, offset: 92789},
+																		pos:        position{line: 2924, col: 29, offset: 93305},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35963,9 +35963,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2922, col: 8, offset: 92949},
+															pos: position{line: 2934, col: 8, offset: 93465},
 															expr: &anyMatcher{
-																line: 2922, col: 9, offset: 92950,
+																line: 2934, col: 9, offset: 93466,
 															},
 														},
 													},
@@ -35982,24 +35982,24 @@ var g = &grammar{
 										name: "UserMacroBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2632, col: 5, offset: 84918},
+										pos: position{line: 2644, col: 5, offset: 85434},
 										run: (*parser).callonListContinuationElement1331,
 										expr: &seqExpr{
-											pos: position{line: 2632, col: 5, offset: 84918},
+											pos: position{line: 2644, col: 5, offset: 85434},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2638, col: 19, offset: 85075},
+													pos:        position{line: 2650, col: 19, offset: 85591},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2638, col: 26, offset: 85082},
+													pos: position{line: 2650, col: 26, offset: 85598},
 													expr: &actionExpr{
-														pos: position{line: 2903, col: 10, offset: 92601},
+														pos: position{line: 2915, col: 10, offset: 93117},
 														run: (*parser).callonListContinuationElement1335,
 														expr: &charClassMatcher{
-															pos:        position{line: 2903, col: 10, offset: 92601},
+															pos:        position{line: 2915, col: 10, offset: 93117},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -36008,28 +36008,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2925, col: 8, offset: 92999},
+													pos: position{line: 2937, col: 8, offset: 93515},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2912, col: 12, offset: 92772},
+															pos: position{line: 2924, col: 12, offset: 93288},
 															run: (*parser).callonListContinuationElement1338,
 															expr: &choiceExpr{
-																pos: position{line: 2912, col: 13, offset: 92773},
+																pos: position{line: 2924, col: 13, offset: 93289},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2912, col: 13, offset: 92773},
+																		pos:        position{line: 2924, col: 13, offset: 93289},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2912, col: 20, offset: 92780},
+																		pos:        position{line: 2924, col: 20, offset: 93296},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2912, col: 29, offset: 92789},
+																		pos:        position{line: 2924, col: 29, offset: 93305},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36038,20 +36038,20 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2922, col: 8, offset: 92949},
+															pos: position{line: 2934, col: 8, offset: 93465},
 															expr: &anyMatcher{
-																line: 2922, col: 9, offset: 92950,
+																line: 2934, col: 9, offset: 93466,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2633, col: 5, offset: 84942},
+													pos:   position{line: 2645, col: 5, offset: 85458},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2633, col: 11, offset: 84948},
+														pos: position{line: 2645, col: 11, offset: 85464},
 														expr: &choiceExpr{
-															pos: position{line: 2633, col: 12, offset: 84949},
+															pos: position{line: 2645, col: 12, offset: 85465},
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 677, col: 14, offset: 21525},
@@ -36060,18 +36060,18 @@ var g = &grammar{
 																		pos: position{line: 677, col: 14, offset: 21525},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2920, col: 11, offset: 92935},
+																				pos: position{line: 2932, col: 11, offset: 93451},
 																				expr: &anyMatcher{
-																					line: 2920, col: 13, offset: 92937,
+																					line: 2932, col: 13, offset: 93453,
 																				},
 																			},
 																			&zeroOrMoreExpr{
 																				pos: position{line: 677, col: 21, offset: 21532},
 																				expr: &actionExpr{
-																					pos: position{line: 2903, col: 10, offset: 92601},
+																					pos: position{line: 2915, col: 10, offset: 93117},
 																					run: (*parser).callonListContinuationElement1353,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2903, col: 10, offset: 92601},
+																						pos:        position{line: 2915, col: 10, offset: 93117},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -36080,28 +36080,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2925, col: 8, offset: 92999},
+																				pos: position{line: 2937, col: 8, offset: 93515},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2912, col: 12, offset: 92772},
+																						pos: position{line: 2924, col: 12, offset: 93288},
 																						run: (*parser).callonListContinuationElement1356,
 																						expr: &choiceExpr{
-																							pos: position{line: 2912, col: 13, offset: 92773},
+																							pos: position{line: 2924, col: 13, offset: 93289},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2912, col: 13, offset: 92773},
+																									pos:        position{line: 2924, col: 13, offset: 93289},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2912, col: 20, offset: 92780},
+																									pos:        position{line: 2924, col: 20, offset: 93296},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2912, col: 29, offset: 92789},
+																									pos:        position{line: 2924, col: 29, offset: 93305},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -36110,9 +36110,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2922, col: 8, offset: 92949},
+																						pos: position{line: 2934, col: 8, offset: 93465},
 																						expr: &anyMatcher{
-																							line: 2922, col: 9, offset: 92950,
+																							line: 2934, col: 9, offset: 93466,
 																						},
 																					},
 																				},
@@ -36121,32 +36121,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2645, col: 5, offset: 85194},
+																	pos: position{line: 2657, col: 5, offset: 85710},
 																	run: (*parser).callonListContinuationElement1363,
 																	expr: &seqExpr{
-																		pos: position{line: 2645, col: 5, offset: 85194},
+																		pos: position{line: 2657, col: 5, offset: 85710},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2645, col: 5, offset: 85194},
+																				pos: position{line: 2657, col: 5, offset: 85710},
 																				expr: &choiceExpr{
-																					pos: position{line: 2642, col: 22, offset: 85155},
+																					pos: position{line: 2654, col: 22, offset: 85671},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2638, col: 19, offset: 85075},
+																							pos: position{line: 2650, col: 19, offset: 85591},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2638, col: 19, offset: 85075},
+																									pos:        position{line: 2650, col: 19, offset: 85591},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2638, col: 26, offset: 85082},
+																									pos: position{line: 2650, col: 26, offset: 85598},
 																									expr: &actionExpr{
-																										pos: position{line: 2903, col: 10, offset: 92601},
+																										pos: position{line: 2915, col: 10, offset: 93117},
 																										run: (*parser).callonListContinuationElement1370,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2903, col: 10, offset: 92601},
+																											pos:        position{line: 2915, col: 10, offset: 93117},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -36155,28 +36155,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2925, col: 8, offset: 92999},
+																									pos: position{line: 2937, col: 8, offset: 93515},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2912, col: 12, offset: 92772},
+																											pos: position{line: 2924, col: 12, offset: 93288},
 																											run: (*parser).callonListContinuationElement1373,
 																											expr: &choiceExpr{
-																												pos: position{line: 2912, col: 13, offset: 92773},
+																												pos: position{line: 2924, col: 13, offset: 93289},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2912, col: 13, offset: 92773},
+																														pos:        position{line: 2924, col: 13, offset: 93289},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2912, col: 20, offset: 92780},
+																														pos:        position{line: 2924, col: 20, offset: 93296},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2912, col: 29, offset: 92789},
+																														pos:        position{line: 2924, col: 29, offset: 93305},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -36185,9 +36185,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2922, col: 8, offset: 92949},
+																											pos: position{line: 2934, col: 8, offset: 93465},
 																											expr: &anyMatcher{
-																												line: 2922, col: 9, offset: 92950,
+																												line: 2934, col: 9, offset: 93466,
 																											},
 																										},
 																									},
@@ -36195,59 +36195,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2922, col: 8, offset: 92949},
+																							pos: position{line: 2934, col: 8, offset: 93465},
 																							expr: &anyMatcher{
-																								line: 2922, col: 9, offset: 92950,
+																								line: 2934, col: 9, offset: 93466,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2646, col: 5, offset: 85217},
+																				pos:   position{line: 2658, col: 5, offset: 85733},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2647, col: 9, offset: 85235},
+																					pos: position{line: 2659, col: 9, offset: 85751},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2647, col: 10, offset: 85236},
+																							pos: position{line: 2659, col: 10, offset: 85752},
 																							run: (*parser).callonListContinuationElement1384,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2647, col: 10, offset: 85236},
+																								pos:   position{line: 2659, col: 10, offset: 85752},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2647, col: 17, offset: 85243},
+																									pos: position{line: 2659, col: 17, offset: 85759},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2655, col: 21, offset: 85439},
+																											pos: position{line: 2667, col: 21, offset: 85955},
 																											run: (*parser).callonListContinuationElement1387,
 																											expr: &seqExpr{
-																												pos: position{line: 2655, col: 21, offset: 85439},
+																												pos: position{line: 2667, col: 21, offset: 85955},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2655, col: 21, offset: 85439},
+																														pos:   position{line: 2667, col: 21, offset: 85955},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2655, col: 27, offset: 85445},
+																															pos: position{line: 2667, col: 27, offset: 85961},
 																															expr: &actionExpr{
-																																pos: position{line: 2660, col: 5, offset: 85520},
+																																pos: position{line: 2672, col: 5, offset: 86036},
 																																run: (*parser).callonListContinuationElement1391,
 																																expr: &seqExpr{
-																																	pos: position{line: 2660, col: 5, offset: 85520},
+																																	pos: position{line: 2672, col: 5, offset: 86036},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2660, col: 5, offset: 85520},
+																																			pos:        position{line: 2672, col: 5, offset: 86036},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2660, col: 9, offset: 85524},
+																																			pos: position{line: 2672, col: 9, offset: 86040},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2903, col: 10, offset: 92601},
+																																				pos: position{line: 2915, col: 10, offset: 93117},
 																																				run: (*parser).callonListContinuationElement1395,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2903, col: 10, offset: 92601},
+																																					pos:        position{line: 2915, col: 10, offset: 93117},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -36256,21 +36256,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2660, col: 16, offset: 85531},
+																																			pos:   position{line: 2672, col: 16, offset: 86047},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2666, col: 5, offset: 85731},
+																																				pos: position{line: 2678, col: 5, offset: 86247},
 																																				run: (*parser).callonListContinuationElement1398,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2666, col: 5, offset: 85731},
+																																					pos:   position{line: 2678, col: 5, offset: 86247},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2666, col: 14, offset: 85740},
+																																						pos: position{line: 2678, col: 14, offset: 86256},
 																																						run: (*parser).callonListContinuationElement1400,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2666, col: 14, offset: 85740},
+																																							pos: position{line: 2678, col: 14, offset: 86256},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2666, col: 14, offset: 85740},
+																																								pos:        position{line: 2678, col: 14, offset: 86256},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -36287,28 +36287,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2925, col: 8, offset: 92999},
+																														pos: position{line: 2937, col: 8, offset: 93515},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2912, col: 12, offset: 92772},
+																																pos: position{line: 2924, col: 12, offset: 93288},
 																																run: (*parser).callonListContinuationElement1404,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2912, col: 13, offset: 92773},
+																																	pos: position{line: 2924, col: 13, offset: 93289},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2912, col: 13, offset: 92773},
+																																			pos:        position{line: 2924, col: 13, offset: 93289},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2912, col: 20, offset: 92780},
+																																			pos:        position{line: 2924, col: 20, offset: 93296},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2912, col: 29, offset: 92789},
+																																			pos:        position{line: 2924, col: 29, offset: 93305},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -36317,9 +36317,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2922, col: 8, offset: 92949},
+																																pos: position{line: 2934, col: 8, offset: 93465},
 																																expr: &anyMatcher{
-																																	line: 2922, col: 9, offset: 92950,
+																																	line: 2934, col: 9, offset: 93466,
 																																},
 																															},
 																														},
@@ -36328,40 +36328,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2672, col: 24, offset: 85876},
+																											pos: position{line: 2684, col: 24, offset: 86392},
 																											run: (*parser).callonListContinuationElement1411,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2672, col: 24, offset: 85876},
+																												pos:   position{line: 2684, col: 24, offset: 86392},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2672, col: 30, offset: 85882},
+																													pos: position{line: 2684, col: 30, offset: 86398},
 																													expr: &actionExpr{
-																														pos: position{line: 2677, col: 5, offset: 85958},
+																														pos: position{line: 2689, col: 5, offset: 86474},
 																														run: (*parser).callonListContinuationElement1414,
 																														expr: &seqExpr{
-																															pos: position{line: 2677, col: 5, offset: 85958},
+																															pos: position{line: 2689, col: 5, offset: 86474},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2677, col: 5, offset: 85958},
+																																	pos: position{line: 2689, col: 5, offset: 86474},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2642, col: 22, offset: 85155},
+																																		pos: position{line: 2654, col: 22, offset: 85671},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2638, col: 19, offset: 85075},
+																																				pos: position{line: 2650, col: 19, offset: 85591},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2638, col: 19, offset: 85075},
+																																						pos:        position{line: 2650, col: 19, offset: 85591},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2638, col: 26, offset: 85082},
+																																						pos: position{line: 2650, col: 26, offset: 85598},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2903, col: 10, offset: 92601},
+																																							pos: position{line: 2915, col: 10, offset: 93117},
 																																							run: (*parser).callonListContinuationElement1421,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2903, col: 10, offset: 92601},
+																																								pos:        position{line: 2915, col: 10, offset: 93117},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -36370,28 +36370,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2925, col: 8, offset: 92999},
+																																						pos: position{line: 2937, col: 8, offset: 93515},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2912, col: 12, offset: 92772},
+																																								pos: position{line: 2924, col: 12, offset: 93288},
 																																								run: (*parser).callonListContinuationElement1424,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2912, col: 13, offset: 92773},
+																																									pos: position{line: 2924, col: 13, offset: 93289},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2912, col: 13, offset: 92773},
+																																											pos:        position{line: 2924, col: 13, offset: 93289},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2912, col: 20, offset: 92780},
+																																											pos:        position{line: 2924, col: 20, offset: 93296},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2912, col: 29, offset: 92789},
+																																											pos:        position{line: 2924, col: 29, offset: 93305},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -36400,9 +36400,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2922, col: 8, offset: 92949},
+																																								pos: position{line: 2934, col: 8, offset: 93465},
 																																								expr: &anyMatcher{
-																																									line: 2922, col: 9, offset: 92950,
+																																									line: 2934, col: 9, offset: 93466,
 																																								},
 																																							},
 																																						},
@@ -36410,16 +36410,16 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2922, col: 8, offset: 92949},
+																																				pos: position{line: 2934, col: 8, offset: 93465},
 																																				expr: &anyMatcher{
-																																					line: 2922, col: 9, offset: 92950,
+																																					line: 2934, col: 9, offset: 93466,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2678, col: 5, offset: 85981},
+																																	pos: position{line: 2690, col: 5, offset: 86497},
 																																	expr: &actionExpr{
 																																		pos: position{line: 677, col: 14, offset: 21525},
 																																		run: (*parser).callonListContinuationElement1434,
@@ -36427,18 +36427,18 @@ var g = &grammar{
 																																			pos: position{line: 677, col: 14, offset: 21525},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2920, col: 11, offset: 92935},
+																																					pos: position{line: 2932, col: 11, offset: 93451},
 																																					expr: &anyMatcher{
-																																						line: 2920, col: 13, offset: 92937,
+																																						line: 2932, col: 13, offset: 93453,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
 																																					pos: position{line: 677, col: 21, offset: 21532},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2903, col: 10, offset: 92601},
+																																						pos: position{line: 2915, col: 10, offset: 93117},
 																																						run: (*parser).callonListContinuationElement1439,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2903, col: 10, offset: 92601},
+																																							pos:        position{line: 2915, col: 10, offset: 93117},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -36447,28 +36447,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2925, col: 8, offset: 92999},
+																																					pos: position{line: 2937, col: 8, offset: 93515},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2912, col: 12, offset: 92772},
+																																							pos: position{line: 2924, col: 12, offset: 93288},
 																																							run: (*parser).callonListContinuationElement1442,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2912, col: 13, offset: 92773},
+																																								pos: position{line: 2924, col: 13, offset: 93289},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2912, col: 13, offset: 92773},
+																																										pos:        position{line: 2924, col: 13, offset: 93289},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2912, col: 20, offset: 92780},
+																																										pos:        position{line: 2924, col: 20, offset: 93296},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2912, col: 29, offset: 92789},
+																																										pos:        position{line: 2924, col: 29, offset: 93305},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -36477,9 +36477,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2922, col: 8, offset: 92949},
+																																							pos: position{line: 2934, col: 8, offset: 93465},
 																																							expr: &anyMatcher{
-																																								line: 2922, col: 9, offset: 92950,
+																																								line: 2934, col: 9, offset: 93466,
 																																							},
 																																						},
 																																					},
@@ -36489,17 +36489,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2679, col: 5, offset: 85996},
+																																	pos:   position{line: 2691, col: 5, offset: 86512},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2679, col: 12, offset: 86003},
+																																		pos: position{line: 2691, col: 12, offset: 86519},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2696, col: 20, offset: 86467},
+																																			pos: position{line: 2708, col: 20, offset: 86983},
 																																			run: (*parser).callonListContinuationElement1451,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2696, col: 20, offset: 86467},
+																																				pos: position{line: 2708, col: 20, offset: 86983},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2696, col: 20, offset: 86467},
+																																					pos:        position{line: 2708, col: 20, offset: 86983},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -36510,18 +36510,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2679, col: 31, offset: 86022},
+																																	pos:        position{line: 2691, col: 31, offset: 86538},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2679, col: 35, offset: 86026},
+																																	pos: position{line: 2691, col: 35, offset: 86542},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2903, col: 10, offset: 92601},
+																																		pos: position{line: 2915, col: 10, offset: 93117},
 																																		run: (*parser).callonListContinuationElement1456,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2903, col: 10, offset: 92601},
+																																			pos:        position{line: 2915, col: 10, offset: 93117},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -36530,27 +36530,27 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2679, col: 42, offset: 86033},
+																																	pos: position{line: 2691, col: 42, offset: 86549},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2912, col: 12, offset: 92772},
+																																		pos: position{line: 2924, col: 12, offset: 93288},
 																																		run: (*parser).callonListContinuationElement1459,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2912, col: 13, offset: 92773},
+																																			pos: position{line: 2924, col: 13, offset: 93289},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2912, col: 13, offset: 92773},
+																																					pos:        position{line: 2924, col: 13, offset: 93289},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2912, col: 20, offset: 92780},
+																																					pos:        position{line: 2924, col: 20, offset: 93296},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2912, col: 29, offset: 92789},
+																																					pos:        position{line: 2924, col: 29, offset: 93305},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -36560,37 +36560,37 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2679, col: 51, offset: 86042},
+																																	pos:   position{line: 2691, col: 51, offset: 86558},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2685, col: 5, offset: 86201},
+																																		pos: position{line: 2697, col: 5, offset: 86717},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2686, col: 9, offset: 86211},
+																																			pos: position{line: 2698, col: 9, offset: 86727},
 																																			run: (*parser).callonListContinuationElement1466,
 																																			expr: &seqExpr{
-																																				pos: position{line: 2686, col: 9, offset: 86211},
+																																				pos: position{line: 2698, col: 9, offset: 86727},
 																																				exprs: []interface{}{
 																																					&notExpr{
-																																						pos: position{line: 2686, col: 9, offset: 86211},
+																																						pos: position{line: 2698, col: 9, offset: 86727},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2642, col: 22, offset: 85155},
+																																							pos: position{line: 2654, col: 22, offset: 85671},
 																																							alternatives: []interface{}{
 																																								&seqExpr{
-																																									pos: position{line: 2638, col: 19, offset: 85075},
+																																									pos: position{line: 2650, col: 19, offset: 85591},
 																																									exprs: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2638, col: 19, offset: 85075},
+																																											pos:        position{line: 2650, col: 19, offset: 85591},
 																																											val:        "|===",
 																																											ignoreCase: false,
 																																											want:       "\"|===\"",
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 2638, col: 26, offset: 85082},
+																																											pos: position{line: 2650, col: 26, offset: 85598},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2903, col: 10, offset: 92601},
+																																												pos: position{line: 2915, col: 10, offset: 93117},
 																																												run: (*parser).callonListContinuationElement1473,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2903, col: 10, offset: 92601},
+																																													pos:        position{line: 2915, col: 10, offset: 93117},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -36599,28 +36599,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2925, col: 8, offset: 92999},
+																																											pos: position{line: 2937, col: 8, offset: 93515},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2912, col: 12, offset: 92772},
+																																													pos: position{line: 2924, col: 12, offset: 93288},
 																																													run: (*parser).callonListContinuationElement1476,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2912, col: 13, offset: 92773},
+																																														pos: position{line: 2924, col: 13, offset: 93289},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2912, col: 13, offset: 92773},
+																																																pos:        position{line: 2924, col: 13, offset: 93289},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2912, col: 20, offset: 92780},
+																																																pos:        position{line: 2924, col: 20, offset: 93296},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2912, col: 29, offset: 92789},
+																																																pos:        position{line: 2924, col: 29, offset: 93305},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -36629,9 +36629,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2922, col: 8, offset: 92949},
+																																													pos: position{line: 2934, col: 8, offset: 93465},
 																																													expr: &anyMatcher{
-																																														line: 2922, col: 9, offset: 92950,
+																																														line: 2934, col: 9, offset: 93466,
 																																													},
 																																												},
 																																											},
@@ -36639,16 +36639,16 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2922, col: 8, offset: 92949},
+																																									pos: position{line: 2934, col: 8, offset: 93465},
 																																									expr: &anyMatcher{
-																																										line: 2922, col: 9, offset: 92950,
+																																										line: 2934, col: 9, offset: 93466,
 																																									},
 																																								},
 																																							},
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2687, col: 9, offset: 86238},
+																																						pos: position{line: 2699, col: 9, offset: 86754},
 																																						expr: &actionExpr{
 																																							pos: position{line: 677, col: 14, offset: 21525},
 																																							run: (*parser).callonListContinuationElement1486,
@@ -36656,18 +36656,18 @@ var g = &grammar{
 																																								pos: position{line: 677, col: 14, offset: 21525},
 																																								exprs: []interface{}{
 																																									&andExpr{
-																																										pos: position{line: 2920, col: 11, offset: 92935},
+																																										pos: position{line: 2932, col: 11, offset: 93451},
 																																										expr: &anyMatcher{
-																																											line: 2920, col: 13, offset: 92937,
+																																											line: 2932, col: 13, offset: 93453,
 																																										},
 																																									},
 																																									&zeroOrMoreExpr{
 																																										pos: position{line: 677, col: 21, offset: 21532},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2903, col: 10, offset: 92601},
+																																											pos: position{line: 2915, col: 10, offset: 93117},
 																																											run: (*parser).callonListContinuationElement1491,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2903, col: 10, offset: 92601},
+																																												pos:        position{line: 2915, col: 10, offset: 93117},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -36676,28 +36676,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2925, col: 8, offset: 92999},
+																																										pos: position{line: 2937, col: 8, offset: 93515},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2912, col: 12, offset: 92772},
+																																												pos: position{line: 2924, col: 12, offset: 93288},
 																																												run: (*parser).callonListContinuationElement1494,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2912, col: 13, offset: 92773},
+																																													pos: position{line: 2924, col: 13, offset: 93289},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2912, col: 13, offset: 92773},
+																																															pos:        position{line: 2924, col: 13, offset: 93289},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2912, col: 20, offset: 92780},
+																																															pos:        position{line: 2924, col: 20, offset: 93296},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2912, col: 29, offset: 92789},
+																																															pos:        position{line: 2924, col: 29, offset: 93305},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -36706,9 +36706,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2922, col: 8, offset: 92949},
+																																												pos: position{line: 2934, col: 8, offset: 93465},
 																																												expr: &anyMatcher{
-																																													line: 2922, col: 9, offset: 92950,
+																																													line: 2934, col: 9, offset: 93466,
 																																												},
 																																											},
 																																										},
@@ -36718,22 +36718,22 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2688, col: 9, offset: 86257},
+																																						pos: position{line: 2700, col: 9, offset: 86773},
 																																						expr: &seqExpr{
-																																							pos: position{line: 2688, col: 11, offset: 86259},
+																																							pos: position{line: 2700, col: 11, offset: 86775},
 																																							exprs: []interface{}{
 																																								&labeledExpr{
-																																									pos:   position{line: 2688, col: 11, offset: 86259},
+																																									pos:   position{line: 2700, col: 11, offset: 86775},
 																																									label: "format",
 																																									expr: &zeroOrOneExpr{
-																																										pos: position{line: 2688, col: 18, offset: 86266},
+																																										pos: position{line: 2700, col: 18, offset: 86782},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2696, col: 20, offset: 86467},
+																																											pos: position{line: 2708, col: 20, offset: 86983},
 																																											run: (*parser).callonListContinuationElement1505,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2696, col: 20, offset: 86467},
+																																												pos: position{line: 2708, col: 20, offset: 86983},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2696, col: 20, offset: 86467},
+																																													pos:        position{line: 2708, col: 20, offset: 86983},
 																																													val:        "[^ |\\r\\n]",
 																																													chars:      []rune{' ', '|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -36744,7 +36744,7 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&litMatcher{
-																																									pos:        position{line: 2688, col: 37, offset: 86285},
+																																									pos:        position{line: 2700, col: 37, offset: 86801},
 																																									val:        "|",
 																																									ignoreCase: false,
 																																									want:       "\"|\"",
@@ -36753,15 +36753,15 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2689, col: 9, offset: 86298},
+																																						pos:   position{line: 2701, col: 9, offset: 86814},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2689, col: 18, offset: 86307},
+																																							pos: position{line: 2701, col: 18, offset: 86823},
 																																							run: (*parser).callonListContinuationElement1510,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2689, col: 18, offset: 86307},
+																																								pos: position{line: 2701, col: 18, offset: 86823},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2689, col: 18, offset: 86307},
+																																									pos:        position{line: 2701, col: 18, offset: 86823},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -36771,30 +36771,30 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&zeroOrOneExpr{
-																																						pos: position{line: 2691, col: 12, offset: 86369},
+																																						pos: position{line: 2703, col: 12, offset: 86885},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2925, col: 8, offset: 92999},
+																																							pos: position{line: 2937, col: 8, offset: 93515},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2912, col: 12, offset: 92772},
+																																									pos: position{line: 2924, col: 12, offset: 93288},
 																																									run: (*parser).callonListContinuationElement1515,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2912, col: 13, offset: 92773},
+																																										pos: position{line: 2924, col: 13, offset: 93289},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2912, col: 13, offset: 92773},
+																																												pos:        position{line: 2924, col: 13, offset: 93289},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2912, col: 20, offset: 92780},
+																																												pos:        position{line: 2924, col: 20, offset: 93296},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2912, col: 29, offset: 92789},
+																																												pos:        position{line: 2924, col: 29, offset: 93305},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -36803,9 +36803,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2922, col: 8, offset: 92949},
+																																									pos: position{line: 2934, col: 8, offset: 93465},
 																																									expr: &anyMatcher{
-																																										line: 2922, col: 9, offset: 92950,
+																																										line: 2934, col: 9, offset: 93466,
 																																									},
 																																								},
 																																							},
@@ -36833,18 +36833,18 @@ var g = &grammar{
 																								pos: position{line: 677, col: 14, offset: 21525},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2920, col: 11, offset: 92935},
+																										pos: position{line: 2932, col: 11, offset: 93451},
 																										expr: &anyMatcher{
-																											line: 2920, col: 13, offset: 92937,
+																											line: 2932, col: 13, offset: 93453,
 																										},
 																									},
 																									&zeroOrMoreExpr{
 																										pos: position{line: 677, col: 21, offset: 21532},
 																										expr: &actionExpr{
-																											pos: position{line: 2903, col: 10, offset: 92601},
+																											pos: position{line: 2915, col: 10, offset: 93117},
 																											run: (*parser).callonListContinuationElement1527,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2903, col: 10, offset: 92601},
+																												pos:        position{line: 2915, col: 10, offset: 93117},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -36853,28 +36853,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2925, col: 8, offset: 92999},
+																										pos: position{line: 2937, col: 8, offset: 93515},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2912, col: 12, offset: 92772},
+																												pos: position{line: 2924, col: 12, offset: 93288},
 																												run: (*parser).callonListContinuationElement1530,
 																												expr: &choiceExpr{
-																													pos: position{line: 2912, col: 13, offset: 92773},
+																													pos: position{line: 2924, col: 13, offset: 93289},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2912, col: 13, offset: 92773},
+																															pos:        position{line: 2924, col: 13, offset: 93289},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2912, col: 20, offset: 92780},
+																															pos:        position{line: 2924, col: 20, offset: 93296},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2912, col: 29, offset: 92789},
+																															pos:        position{line: 2924, col: 29, offset: 93305},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -36883,9 +36883,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2922, col: 8, offset: 92949},
+																												pos: position{line: 2934, col: 8, offset: 93465},
 																												expr: &anyMatcher{
-																													line: 2922, col: 9, offset: 92950,
+																													line: 2934, col: 9, offset: 93466,
 																												},
 																											},
 																										},
@@ -36904,24 +36904,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2642, col: 22, offset: 85155},
+													pos: position{line: 2654, col: 22, offset: 85671},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2638, col: 19, offset: 85075},
+															pos: position{line: 2650, col: 19, offset: 85591},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2638, col: 19, offset: 85075},
+																	pos:        position{line: 2650, col: 19, offset: 85591},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2638, col: 26, offset: 85082},
+																	pos: position{line: 2650, col: 26, offset: 85598},
 																	expr: &actionExpr{
-																		pos: position{line: 2903, col: 10, offset: 92601},
+																		pos: position{line: 2915, col: 10, offset: 93117},
 																		run: (*parser).callonListContinuationElement1541,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2903, col: 10, offset: 92601},
+																			pos:        position{line: 2915, col: 10, offset: 93117},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -36930,28 +36930,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2925, col: 8, offset: 92999},
+																	pos: position{line: 2937, col: 8, offset: 93515},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2912, col: 12, offset: 92772},
+																			pos: position{line: 2924, col: 12, offset: 93288},
 																			run: (*parser).callonListContinuationElement1544,
 																			expr: &choiceExpr{
-																				pos: position{line: 2912, col: 13, offset: 92773},
+																				pos: position{line: 2924, col: 13, offset: 93289},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 13, offset: 92773},
+																						pos:        position{line: 2924, col: 13, offset: 93289},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 20, offset: 92780},
+																						pos:        position{line: 2924, col: 20, offset: 93296},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 29, offset: 92789},
+																						pos:        position{line: 2924, col: 29, offset: 93305},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36960,9 +36960,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2922, col: 8, offset: 92949},
+																			pos: position{line: 2934, col: 8, offset: 93465},
 																			expr: &anyMatcher{
-																				line: 2922, col: 9, offset: 92950,
+																				line: 2934, col: 9, offset: 93466,
 																			},
 																		},
 																	},
@@ -36970,9 +36970,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2922, col: 8, offset: 92949},
+															pos: position{line: 2934, col: 8, offset: 93465},
 															expr: &anyMatcher{
-																line: 2922, col: 9, offset: 92950,
+																line: 2934, col: 9, offset: 93466,
 															},
 														},
 													},
@@ -36981,36 +36981,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2503, col: 22, offset: 81294},
+										pos: position{line: 2515, col: 22, offset: 81810},
 										run: (*parser).callonListContinuationElement1553,
 										expr: &seqExpr{
-											pos: position{line: 2503, col: 22, offset: 81294},
+											pos: position{line: 2515, col: 22, offset: 81810},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2508, col: 31, offset: 81515},
+													pos:        position{line: 2520, col: 31, offset: 82031},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2508, col: 36, offset: 81520},
+													pos: position{line: 2520, col: 36, offset: 82036},
 													expr: &litMatcher{
-														pos:        position{line: 2508, col: 37, offset: 81521},
+														pos:        position{line: 2520, col: 37, offset: 82037},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2503, col: 49, offset: 81321},
+													pos:   position{line: 2515, col: 49, offset: 81837},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2849, col: 13, offset: 91127},
+														pos: position{line: 2861, col: 13, offset: 91643},
 														run: (*parser).callonListContinuationElement1559,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2849, col: 13, offset: 91127},
+															pos: position{line: 2861, col: 13, offset: 91643},
 															expr: &charClassMatcher{
-																pos:        position{line: 2849, col: 13, offset: 91127},
+																pos:        position{line: 2861, col: 13, offset: 91643},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -37020,28 +37020,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2925, col: 8, offset: 92999},
+													pos: position{line: 2937, col: 8, offset: 93515},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2912, col: 12, offset: 92772},
+															pos: position{line: 2924, col: 12, offset: 93288},
 															run: (*parser).callonListContinuationElement1563,
 															expr: &choiceExpr{
-																pos: position{line: 2912, col: 13, offset: 92773},
+																pos: position{line: 2924, col: 13, offset: 93289},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2912, col: 13, offset: 92773},
+																		pos:        position{line: 2924, col: 13, offset: 93289},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2912, col: 20, offset: 92780},
+																		pos:        position{line: 2924, col: 20, offset: 93296},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2912, col: 29, offset: 92789},
+																		pos:        position{line: 2924, col: 29, offset: 93305},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -37050,9 +37050,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2922, col: 8, offset: 92949},
+															pos: position{line: 2934, col: 8, offset: 93465},
 															expr: &anyMatcher{
-																line: 2922, col: 9, offset: 92950,
+																line: 2934, col: 9, offset: 93466,
 															},
 														},
 													},
@@ -37143,12 +37143,12 @@ var g = &grammar{
 																					expr: &andExpr{
 																						pos: position{line: 1752, col: 13, offset: 56793},
 																						expr: &actionExpr{
-																							pos: position{line: 2907, col: 11, offset: 92662},
+																							pos: position{line: 2919, col: 11, offset: 93178},
 																							run: (*parser).callonListContinuationElement1591,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2907, col: 11, offset: 92662},
+																								pos: position{line: 2919, col: 11, offset: 93178},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2907, col: 11, offset: 92662},
+																									pos:        position{line: 2919, col: 11, offset: 93178},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -37169,10 +37169,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1754, col: 14, offset: 56865},
 																					expr: &actionExpr{
-																						pos: position{line: 2903, col: 10, offset: 92601},
+																						pos: position{line: 2915, col: 10, offset: 93117},
 																						run: (*parser).callonListContinuationElement1597,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2903, col: 10, offset: 92601},
+																							pos:        position{line: 2915, col: 10, offset: 93117},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37181,28 +37181,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2925, col: 8, offset: 92999},
+																					pos: position{line: 2937, col: 8, offset: 93515},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2912, col: 12, offset: 92772},
+																							pos: position{line: 2924, col: 12, offset: 93288},
 																							run: (*parser).callonListContinuationElement1600,
 																							expr: &choiceExpr{
-																								pos: position{line: 2912, col: 13, offset: 92773},
+																								pos: position{line: 2924, col: 13, offset: 93289},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2912, col: 13, offset: 92773},
+																										pos:        position{line: 2924, col: 13, offset: 93289},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2912, col: 20, offset: 92780},
+																										pos:        position{line: 2924, col: 20, offset: 93296},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2912, col: 29, offset: 92789},
+																										pos:        position{line: 2924, col: 29, offset: 93305},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -37211,9 +37211,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2922, col: 8, offset: 92949},
+																							pos: position{line: 2934, col: 8, offset: 93465},
 																							expr: &anyMatcher{
-																								line: 2922, col: 9, offset: 92950,
+																								line: 2934, col: 9, offset: 93466,
 																							},
 																						},
 																					},
@@ -37244,18 +37244,18 @@ var g = &grammar{
 																			pos: position{line: 677, col: 14, offset: 21525},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2920, col: 11, offset: 92935},
+																					pos: position{line: 2932, col: 11, offset: 93451},
 																					expr: &anyMatcher{
-																						line: 2920, col: 13, offset: 92937,
+																						line: 2932, col: 13, offset: 93453,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21532},
 																					expr: &actionExpr{
-																						pos: position{line: 2903, col: 10, offset: 92601},
+																						pos: position{line: 2915, col: 10, offset: 93117},
 																						run: (*parser).callonListContinuationElement1616,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2903, col: 10, offset: 92601},
+																							pos:        position{line: 2915, col: 10, offset: 93117},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37264,28 +37264,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2925, col: 8, offset: 92999},
+																					pos: position{line: 2937, col: 8, offset: 93515},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2912, col: 12, offset: 92772},
+																							pos: position{line: 2924, col: 12, offset: 93288},
 																							run: (*parser).callonListContinuationElement1619,
 																							expr: &choiceExpr{
-																								pos: position{line: 2912, col: 13, offset: 92773},
+																								pos: position{line: 2924, col: 13, offset: 93289},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2912, col: 13, offset: 92773},
+																										pos:        position{line: 2924, col: 13, offset: 93289},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2912, col: 20, offset: 92780},
+																										pos:        position{line: 2924, col: 20, offset: 93296},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2912, col: 29, offset: 92789},
+																										pos:        position{line: 2924, col: 29, offset: 93305},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -37294,9 +37294,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2922, col: 8, offset: 92949},
+																							pos: position{line: 2934, col: 8, offset: 93465},
 																							expr: &anyMatcher{
-																								line: 2922, col: 9, offset: 92950,
+																								line: 2934, col: 9, offset: 93466,
 																							},
 																						},
 																					},
@@ -37319,10 +37319,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 1548, col: 31, offset: 50257},
 																				expr: &actionExpr{
-																					pos: position{line: 2903, col: 10, offset: 92601},
+																					pos: position{line: 2915, col: 10, offset: 93117},
 																					run: (*parser).callonListContinuationElement1630,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2903, col: 10, offset: 92601},
+																						pos:        position{line: 2915, col: 10, offset: 93117},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -37331,25 +37331,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2912, col: 12, offset: 92772},
+																				pos: position{line: 2924, col: 12, offset: 93288},
 																				run: (*parser).callonListContinuationElement1632,
 																				expr: &choiceExpr{
-																					pos: position{line: 2912, col: 13, offset: 92773},
+																					pos: position{line: 2924, col: 13, offset: 93289},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 13, offset: 92773},
+																							pos:        position{line: 2924, col: 13, offset: 93289},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 20, offset: 92780},
+																							pos:        position{line: 2924, col: 20, offset: 93296},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 29, offset: 92789},
+																							pos:        position{line: 2924, col: 29, offset: 93305},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -37371,10 +37371,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1590, col: 5, offset: 51497},
 																					expr: &actionExpr{
-																						pos: position{line: 2903, col: 10, offset: 92601},
+																						pos: position{line: 2915, col: 10, offset: 93117},
 																						run: (*parser).callonListContinuationElement1641,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2903, col: 10, offset: 92601},
+																							pos:        position{line: 2915, col: 10, offset: 93117},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37541,12 +37541,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2907, col: 11, offset: 92662},
+																					pos: position{line: 2919, col: 11, offset: 93178},
 																					run: (*parser).callonListContinuationElement1675,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2907, col: 11, offset: 92662},
+																						pos: position{line: 2919, col: 11, offset: 93178},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2907, col: 11, offset: 92662},
+																							pos:        position{line: 2919, col: 11, offset: 93178},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37569,10 +37569,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1640, col: 5, offset: 53459},
 																					expr: &actionExpr{
-																						pos: position{line: 2903, col: 10, offset: 92601},
+																						pos: position{line: 2915, col: 10, offset: 93117},
 																						run: (*parser).callonListContinuationElement1682,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2903, col: 10, offset: 92601},
+																							pos:        position{line: 2915, col: 10, offset: 93117},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37613,12 +37613,12 @@ var g = &grammar{
 																					run: (*parser).callonListContinuationElement1690,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2907, col: 11, offset: 92662},
+																					pos: position{line: 2919, col: 11, offset: 93178},
 																					run: (*parser).callonListContinuationElement1691,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2907, col: 11, offset: 92662},
+																						pos: position{line: 2919, col: 11, offset: 93178},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2907, col: 11, offset: 92662},
+																							pos:        position{line: 2919, col: 11, offset: 93178},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37669,12 +37669,12 @@ var g = &grammar{
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2907, col: 11, offset: 92662},
+																					pos: position{line: 2919, col: 11, offset: 93178},
 																					run: (*parser).callonListContinuationElement1703,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2907, col: 11, offset: 92662},
+																						pos: position{line: 2919, col: 11, offset: 93178},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2907, col: 11, offset: 92662},
+																							pos:        position{line: 2919, col: 11, offset: 93178},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37700,18 +37700,18 @@ var g = &grammar{
 																						&notExpr{
 																							pos: position{line: 1675, col: 5, offset: 54478},
 																							expr: &seqExpr{
-																								pos: position{line: 2508, col: 31, offset: 81515},
+																								pos: position{line: 2520, col: 31, offset: 82031},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2508, col: 31, offset: 81515},
+																										pos:        position{line: 2520, col: 31, offset: 82031},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2508, col: 36, offset: 81520},
+																										pos: position{line: 2520, col: 36, offset: 82036},
 																										expr: &litMatcher{
-																											pos:        position{line: 2508, col: 37, offset: 81521},
+																											pos:        position{line: 2520, col: 37, offset: 82037},
 																											val:        "//",
 																											ignoreCase: false,
 																											want:       "\"//\"",
@@ -37761,28 +37761,28 @@ var g = &grammar{
 																									&notExpr{
 																										pos: position{line: 1676, col: 35, offset: 54540},
 																										expr: &choiceExpr{
-																											pos: position{line: 2925, col: 8, offset: 92999},
+																											pos: position{line: 2937, col: 8, offset: 93515},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2912, col: 12, offset: 92772},
+																													pos: position{line: 2924, col: 12, offset: 93288},
 																													run: (*parser).callonListContinuationElement1727,
 																													expr: &choiceExpr{
-																														pos: position{line: 2912, col: 13, offset: 92773},
+																														pos: position{line: 2924, col: 13, offset: 93289},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 13, offset: 92773},
+																																pos:        position{line: 2924, col: 13, offset: 93289},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 20, offset: 92780},
+																																pos:        position{line: 2924, col: 20, offset: 93296},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 29, offset: 92789},
+																																pos:        position{line: 2924, col: 29, offset: 93305},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37791,9 +37791,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2922, col: 8, offset: 92949},
+																													pos: position{line: 2934, col: 8, offset: 93465},
 																													expr: &anyMatcher{
-																														line: 2922, col: 9, offset: 92950,
+																														line: 2934, col: 9, offset: 93466,
 																													},
 																												},
 																											},
@@ -37852,7 +37852,7 @@ var g = &grammar{
 																				&notExpr{
 																					pos: position{line: 725, col: 5, offset: 23101},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2786, col: 13, offset: 89482},
+																						pos:        position{line: 2798, col: 13, offset: 89998},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -37902,10 +37902,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 743, col: 8, offset: 23745},
 																											expr: &actionExpr{
-																												pos: position{line: 2903, col: 10, offset: 92601},
+																												pos: position{line: 2915, col: 10, offset: 93117},
 																												run: (*parser).callonListContinuationElement1758,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2903, col: 10, offset: 92601},
+																													pos:        position{line: 2915, col: 10, offset: 93117},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37914,28 +37914,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2925, col: 8, offset: 92999},
+																											pos: position{line: 2937, col: 8, offset: 93515},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2912, col: 12, offset: 92772},
+																													pos: position{line: 2924, col: 12, offset: 93288},
 																													run: (*parser).callonListContinuationElement1761,
 																													expr: &choiceExpr{
-																														pos: position{line: 2912, col: 13, offset: 92773},
+																														pos: position{line: 2924, col: 13, offset: 93289},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 13, offset: 92773},
+																																pos:        position{line: 2924, col: 13, offset: 93289},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 20, offset: 92780},
+																																pos:        position{line: 2924, col: 20, offset: 93296},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 29, offset: 92789},
+																																pos:        position{line: 2924, col: 29, offset: 93305},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37944,9 +37944,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2922, col: 8, offset: 92949},
+																													pos: position{line: 2934, col: 8, offset: 93465},
 																													expr: &anyMatcher{
-																														line: 2922, col: 9, offset: 92950,
+																														line: 2934, col: 9, offset: 93466,
 																													},
 																												},
 																											},
@@ -37991,10 +37991,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 750, col: 8, offset: 23993},
 																											expr: &actionExpr{
-																												pos: position{line: 2903, col: 10, offset: 92601},
+																												pos: position{line: 2915, col: 10, offset: 93117},
 																												run: (*parser).callonListContinuationElement1777,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2903, col: 10, offset: 92601},
+																													pos:        position{line: 2915, col: 10, offset: 93117},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38003,28 +38003,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2925, col: 8, offset: 92999},
+																											pos: position{line: 2937, col: 8, offset: 93515},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2912, col: 12, offset: 92772},
+																													pos: position{line: 2924, col: 12, offset: 93288},
 																													run: (*parser).callonListContinuationElement1780,
 																													expr: &choiceExpr{
-																														pos: position{line: 2912, col: 13, offset: 92773},
+																														pos: position{line: 2924, col: 13, offset: 93289},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 13, offset: 92773},
+																																pos:        position{line: 2924, col: 13, offset: 93289},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 20, offset: 92780},
+																																pos:        position{line: 2924, col: 20, offset: 93296},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 29, offset: 92789},
+																																pos:        position{line: 2924, col: 29, offset: 93305},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38033,9 +38033,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2922, col: 8, offset: 92949},
+																													pos: position{line: 2934, col: 8, offset: 93465},
 																													expr: &anyMatcher{
-																														line: 2922, col: 9, offset: 92950,
+																														line: 2934, col: 9, offset: 93466,
 																													},
 																												},
 																											},
@@ -38076,10 +38076,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 761, col: 52, offset: 24405},
 																											expr: &actionExpr{
-																												pos: position{line: 2903, col: 10, offset: 92601},
+																												pos: position{line: 2915, col: 10, offset: 93117},
 																												run: (*parser).callonListContinuationElement1795,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2903, col: 10, offset: 92601},
+																													pos:        position{line: 2915, col: 10, offset: 93117},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38088,28 +38088,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2925, col: 8, offset: 92999},
+																											pos: position{line: 2937, col: 8, offset: 93515},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2912, col: 12, offset: 92772},
+																													pos: position{line: 2924, col: 12, offset: 93288},
 																													run: (*parser).callonListContinuationElement1798,
 																													expr: &choiceExpr{
-																														pos: position{line: 2912, col: 13, offset: 92773},
+																														pos: position{line: 2924, col: 13, offset: 93289},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 13, offset: 92773},
+																																pos:        position{line: 2924, col: 13, offset: 93289},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 20, offset: 92780},
+																																pos:        position{line: 2924, col: 20, offset: 93296},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 29, offset: 92789},
+																																pos:        position{line: 2924, col: 29, offset: 93305},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38118,9 +38118,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2922, col: 8, offset: 92949},
+																													pos: position{line: 2934, col: 8, offset: 93465},
 																													expr: &anyMatcher{
-																														line: 2922, col: 9, offset: 92950,
+																														line: 2934, col: 9, offset: 93466,
 																													},
 																												},
 																											},
@@ -38165,10 +38165,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 757, col: 8, offset: 24239},
 																											expr: &actionExpr{
-																												pos: position{line: 2903, col: 10, offset: 92601},
+																												pos: position{line: 2915, col: 10, offset: 93117},
 																												run: (*parser).callonListContinuationElement1814,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2903, col: 10, offset: 92601},
+																													pos:        position{line: 2915, col: 10, offset: 93117},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38177,28 +38177,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2925, col: 8, offset: 92999},
+																											pos: position{line: 2937, col: 8, offset: 93515},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2912, col: 12, offset: 92772},
+																													pos: position{line: 2924, col: 12, offset: 93288},
 																													run: (*parser).callonListContinuationElement1817,
 																													expr: &choiceExpr{
-																														pos: position{line: 2912, col: 13, offset: 92773},
+																														pos: position{line: 2924, col: 13, offset: 93289},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 13, offset: 92773},
+																																pos:        position{line: 2924, col: 13, offset: 93289},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 20, offset: 92780},
+																																pos:        position{line: 2924, col: 20, offset: 93296},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 29, offset: 92789},
+																																pos:        position{line: 2924, col: 29, offset: 93305},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38207,9 +38207,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2922, col: 8, offset: 92949},
+																													pos: position{line: 2934, col: 8, offset: 93465},
 																													expr: &anyMatcher{
-																														line: 2922, col: 9, offset: 92950,
+																														line: 2934, col: 9, offset: 93466,
 																													},
 																												},
 																											},
@@ -38254,10 +38254,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 772, col: 8, offset: 24782},
 																											expr: &actionExpr{
-																												pos: position{line: 2903, col: 10, offset: 92601},
+																												pos: position{line: 2915, col: 10, offset: 93117},
 																												run: (*parser).callonListContinuationElement1833,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2903, col: 10, offset: 92601},
+																													pos:        position{line: 2915, col: 10, offset: 93117},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38266,28 +38266,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2925, col: 8, offset: 92999},
+																											pos: position{line: 2937, col: 8, offset: 93515},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2912, col: 12, offset: 92772},
+																													pos: position{line: 2924, col: 12, offset: 93288},
 																													run: (*parser).callonListContinuationElement1836,
 																													expr: &choiceExpr{
-																														pos: position{line: 2912, col: 13, offset: 92773},
+																														pos: position{line: 2924, col: 13, offset: 93289},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 13, offset: 92773},
+																																pos:        position{line: 2924, col: 13, offset: 93289},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 20, offset: 92780},
+																																pos:        position{line: 2924, col: 20, offset: 93296},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 29, offset: 92789},
+																																pos:        position{line: 2924, col: 29, offset: 93305},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38296,9 +38296,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2922, col: 8, offset: 92949},
+																													pos: position{line: 2934, col: 8, offset: 93465},
 																													expr: &anyMatcher{
-																														line: 2922, col: 9, offset: 92950,
+																														line: 2934, col: 9, offset: 93466,
 																													},
 																												},
 																											},
@@ -38343,10 +38343,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 786, col: 8, offset: 25258},
 																											expr: &actionExpr{
-																												pos: position{line: 2903, col: 10, offset: 92601},
+																												pos: position{line: 2915, col: 10, offset: 93117},
 																												run: (*parser).callonListContinuationElement1852,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2903, col: 10, offset: 92601},
+																													pos:        position{line: 2915, col: 10, offset: 93117},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38355,28 +38355,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2925, col: 8, offset: 92999},
+																											pos: position{line: 2937, col: 8, offset: 93515},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2912, col: 12, offset: 92772},
+																													pos: position{line: 2924, col: 12, offset: 93288},
 																													run: (*parser).callonListContinuationElement1855,
 																													expr: &choiceExpr{
-																														pos: position{line: 2912, col: 13, offset: 92773},
+																														pos: position{line: 2924, col: 13, offset: 93289},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 13, offset: 92773},
+																																pos:        position{line: 2924, col: 13, offset: 93289},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 20, offset: 92780},
+																																pos:        position{line: 2924, col: 20, offset: 93296},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 29, offset: 92789},
+																																pos:        position{line: 2924, col: 29, offset: 93305},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38385,9 +38385,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2922, col: 8, offset: 92949},
+																													pos: position{line: 2934, col: 8, offset: 93465},
 																													expr: &anyMatcher{
-																														line: 2922, col: 9, offset: 92950,
+																														line: 2934, col: 9, offset: 93466,
 																													},
 																												},
 																											},
@@ -38432,10 +38432,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 793, col: 8, offset: 25510},
 																											expr: &actionExpr{
-																												pos: position{line: 2903, col: 10, offset: 92601},
+																												pos: position{line: 2915, col: 10, offset: 93117},
 																												run: (*parser).callonListContinuationElement1871,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2903, col: 10, offset: 92601},
+																													pos:        position{line: 2915, col: 10, offset: 93117},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38444,28 +38444,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2925, col: 8, offset: 92999},
+																											pos: position{line: 2937, col: 8, offset: 93515},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2912, col: 12, offset: 92772},
+																													pos: position{line: 2924, col: 12, offset: 93288},
 																													run: (*parser).callonListContinuationElement1874,
 																													expr: &choiceExpr{
-																														pos: position{line: 2912, col: 13, offset: 92773},
+																														pos: position{line: 2924, col: 13, offset: 93289},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 13, offset: 92773},
+																																pos:        position{line: 2924, col: 13, offset: 93289},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 20, offset: 92780},
+																																pos:        position{line: 2924, col: 20, offset: 93296},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 29, offset: 92789},
+																																pos:        position{line: 2924, col: 29, offset: 93305},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38474,9 +38474,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2922, col: 8, offset: 92949},
+																													pos: position{line: 2934, col: 8, offset: 93465},
 																													expr: &anyMatcher{
-																														line: 2922, col: 9, offset: 92950,
+																														line: 2934, col: 9, offset: 93466,
 																													},
 																												},
 																											},
@@ -38521,10 +38521,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 800, col: 8, offset: 25760},
 																											expr: &actionExpr{
-																												pos: position{line: 2903, col: 10, offset: 92601},
+																												pos: position{line: 2915, col: 10, offset: 93117},
 																												run: (*parser).callonListContinuationElement1890,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2903, col: 10, offset: 92601},
+																													pos:        position{line: 2915, col: 10, offset: 93117},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38533,28 +38533,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2925, col: 8, offset: 92999},
+																											pos: position{line: 2937, col: 8, offset: 93515},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2912, col: 12, offset: 92772},
+																													pos: position{line: 2924, col: 12, offset: 93288},
 																													run: (*parser).callonListContinuationElement1893,
 																													expr: &choiceExpr{
-																														pos: position{line: 2912, col: 13, offset: 92773},
+																														pos: position{line: 2924, col: 13, offset: 93289},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 13, offset: 92773},
+																																pos:        position{line: 2924, col: 13, offset: 93289},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 20, offset: 92780},
+																																pos:        position{line: 2924, col: 20, offset: 93296},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 29, offset: 92789},
+																																pos:        position{line: 2924, col: 29, offset: 93305},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38563,9 +38563,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2922, col: 8, offset: 92949},
+																													pos: position{line: 2934, col: 8, offset: 93465},
 																													expr: &anyMatcher{
-																														line: 2922, col: 9, offset: 92950,
+																														line: 2934, col: 9, offset: 93466,
 																													},
 																												},
 																											},
@@ -38610,10 +38610,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 807, col: 8, offset: 26006},
 																											expr: &actionExpr{
-																												pos: position{line: 2903, col: 10, offset: 92601},
+																												pos: position{line: 2915, col: 10, offset: 93117},
 																												run: (*parser).callonListContinuationElement1909,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2903, col: 10, offset: 92601},
+																													pos:        position{line: 2915, col: 10, offset: 93117},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38622,28 +38622,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2925, col: 8, offset: 92999},
+																											pos: position{line: 2937, col: 8, offset: 93515},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2912, col: 12, offset: 92772},
+																													pos: position{line: 2924, col: 12, offset: 93288},
 																													run: (*parser).callonListContinuationElement1912,
 																													expr: &choiceExpr{
-																														pos: position{line: 2912, col: 13, offset: 92773},
+																														pos: position{line: 2924, col: 13, offset: 93289},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 13, offset: 92773},
+																																pos:        position{line: 2924, col: 13, offset: 93289},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 20, offset: 92780},
+																																pos:        position{line: 2924, col: 20, offset: 93296},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2912, col: 29, offset: 92789},
+																																pos:        position{line: 2924, col: 29, offset: 93305},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38652,9 +38652,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2922, col: 8, offset: 92949},
+																													pos: position{line: 2934, col: 8, offset: 93465},
 																													expr: &anyMatcher{
-																														line: 2922, col: 9, offset: 92950,
+																														line: 2934, col: 9, offset: 93466,
 																													},
 																												},
 																											},
@@ -38673,12 +38673,12 @@ var g = &grammar{
 																	pos:   position{line: 1524, col: 5, offset: 49625},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2853, col: 14, offset: 91194},
+																		pos: position{line: 2865, col: 14, offset: 91710},
 																		run: (*parser).callonListContinuationElement1920,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2853, col: 14, offset: 91194},
+																			pos: position{line: 2865, col: 14, offset: 91710},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2853, col: 14, offset: 91194},
+																				pos:        position{line: 2865, col: 14, offset: 91710},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -38688,28 +38688,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2925, col: 8, offset: 92999},
+																	pos: position{line: 2937, col: 8, offset: 93515},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2912, col: 12, offset: 92772},
+																			pos: position{line: 2924, col: 12, offset: 93288},
 																			run: (*parser).callonListContinuationElement1924,
 																			expr: &choiceExpr{
-																				pos: position{line: 2912, col: 13, offset: 92773},
+																				pos: position{line: 2924, col: 13, offset: 93289},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 13, offset: 92773},
+																						pos:        position{line: 2924, col: 13, offset: 93289},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 20, offset: 92780},
+																						pos:        position{line: 2924, col: 20, offset: 93296},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 29, offset: 92789},
+																						pos:        position{line: 2924, col: 29, offset: 93305},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -38718,9 +38718,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2922, col: 8, offset: 92949},
+																			pos: position{line: 2934, col: 8, offset: 93465},
 																			expr: &anyMatcher{
-																				line: 2922, col: 9, offset: 92950,
+																				line: 2934, col: 9, offset: 93466,
 																			},
 																		},
 																	},
@@ -38785,10 +38785,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1719, col: 66, offset: 55728},
 							expr: &actionExpr{
-								pos: position{line: 2903, col: 10, offset: 92601},
+								pos: position{line: 2915, col: 10, offset: 93117},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2903, col: 10, offset: 92601},
+									pos:        position{line: 2915, col: 10, offset: 93117},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -38802,25 +38802,25 @@ var g = &grammar{
 								pos: position{line: 1719, col: 75, offset: 55737},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2912, col: 12, offset: 92772},
+										pos: position{line: 2924, col: 12, offset: 93288},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2912, col: 13, offset: 92773},
+											pos: position{line: 2924, col: 13, offset: 93289},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2912, col: 13, offset: 92773},
+													pos:        position{line: 2924, col: 13, offset: 93289},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2912, col: 20, offset: 92780},
+													pos:        position{line: 2924, col: 20, offset: 93296},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2912, col: 29, offset: 92789},
+													pos:        position{line: 2924, col: 29, offset: 93305},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -38829,9 +38829,9 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2922, col: 8, offset: 92949},
+										pos: position{line: 2934, col: 8, offset: 93465},
 										expr: &anyMatcher{
-											line: 2922, col: 9, offset: 92950,
+											line: 2934, col: 9, offset: 93466,
 										},
 									},
 									&ruleRefExpr{
@@ -38860,7 +38860,7 @@ var g = &grammar{
 								pos: position{line: 1760, col: 7, offset: 56996},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2786, col: 13, offset: 89482},
+										pos:        position{line: 2798, col: 13, offset: 89998},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
@@ -38879,12 +38879,12 @@ var g = &grammar{
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2907, col: 11, offset: 92662},
+													pos: position{line: 2919, col: 11, offset: 93178},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2907, col: 11, offset: 92662},
+														pos: position{line: 2919, col: 11, offset: 93178},
 														expr: &charClassMatcher{
-															pos:        position{line: 2907, col: 11, offset: 92662},
+															pos:        position{line: 2919, col: 11, offset: 93178},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -38975,12 +38975,12 @@ var g = &grammar{
 															expr: &andExpr{
 																pos: position{line: 1752, col: 13, offset: 56793},
 																expr: &actionExpr{
-																	pos: position{line: 2907, col: 11, offset: 92662},
+																	pos: position{line: 2919, col: 11, offset: 93178},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2907, col: 11, offset: 92662},
+																		pos: position{line: 2919, col: 11, offset: 93178},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2907, col: 11, offset: 92662},
+																			pos:        position{line: 2919, col: 11, offset: 93178},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -39001,10 +39001,10 @@ var g = &grammar{
 														&zeroOrMoreExpr{
 															pos: position{line: 1754, col: 14, offset: 56865},
 															expr: &actionExpr{
-																pos: position{line: 2903, col: 10, offset: 92601},
+																pos: position{line: 2915, col: 10, offset: 93117},
 																run: (*parser).callonShortcutParagraph37,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2903, col: 10, offset: 92601},
+																	pos:        position{line: 2915, col: 10, offset: 93117},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -39013,28 +39013,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2925, col: 8, offset: 92999},
+															pos: position{line: 2937, col: 8, offset: 93515},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2912, col: 12, offset: 92772},
+																	pos: position{line: 2924, col: 12, offset: 93288},
 																	run: (*parser).callonShortcutParagraph40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2912, col: 13, offset: 92773},
+																		pos: position{line: 2924, col: 13, offset: 93289},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2912, col: 13, offset: 92773},
+																				pos:        position{line: 2924, col: 13, offset: 93289},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2912, col: 20, offset: 92780},
+																				pos:        position{line: 2924, col: 20, offset: 93296},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2912, col: 29, offset: 92789},
+																				pos:        position{line: 2924, col: 29, offset: 93305},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -39043,9 +39043,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2922, col: 8, offset: 92949},
+																	pos: position{line: 2934, col: 8, offset: 93465},
 																	expr: &anyMatcher{
-																		line: 2922, col: 9, offset: 92950,
+																		line: 2934, col: 9, offset: 93466,
 																	},
 																},
 															},
@@ -39071,12 +39071,12 @@ var g = &grammar{
 											pos:   position{line: 1798, col: 5, offset: 58283},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2853, col: 14, offset: 91194},
+												pos: position{line: 2865, col: 14, offset: 91710},
 												run: (*parser).callonShortcutParagraph51,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2853, col: 14, offset: 91194},
+													pos: position{line: 2865, col: 14, offset: 91710},
 													expr: &charClassMatcher{
-														pos:        position{line: 2853, col: 14, offset: 91194},
+														pos:        position{line: 2865, col: 14, offset: 91710},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -39090,28 +39090,28 @@ var g = &grammar{
 											run: (*parser).callonShortcutParagraph54,
 										},
 										&choiceExpr{
-											pos: position{line: 2925, col: 8, offset: 92999},
+											pos: position{line: 2937, col: 8, offset: 93515},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2912, col: 12, offset: 92772},
+													pos: position{line: 2924, col: 12, offset: 93288},
 													run: (*parser).callonShortcutParagraph56,
 													expr: &choiceExpr{
-														pos: position{line: 2912, col: 13, offset: 92773},
+														pos: position{line: 2924, col: 13, offset: 93289},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2912, col: 13, offset: 92773},
+																pos:        position{line: 2924, col: 13, offset: 93289},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2912, col: 20, offset: 92780},
+																pos:        position{line: 2924, col: 20, offset: 93296},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2912, col: 29, offset: 92789},
+																pos:        position{line: 2924, col: 29, offset: 93305},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -39120,9 +39120,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2922, col: 8, offset: 92949},
+													pos: position{line: 2934, col: 8, offset: 93465},
 													expr: &anyMatcher{
-														line: 2922, col: 9, offset: 92950,
+														line: 2934, col: 9, offset: 93466,
 													},
 												},
 											},
@@ -39147,9 +39147,9 @@ var g = &grammar{
 										pos: position{line: 1771, col: 9, offset: 57561},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2920, col: 11, offset: 92935},
+												pos: position{line: 2932, col: 11, offset: 93451},
 												expr: &anyMatcher{
-													line: 2920, col: 13, offset: 92937,
+													line: 2932, col: 13, offset: 93453,
 												},
 											},
 											&notExpr{
@@ -39161,18 +39161,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21525},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2920, col: 11, offset: 92935},
+																pos: position{line: 2932, col: 11, offset: 93451},
 																expr: &anyMatcher{
-																	line: 2920, col: 13, offset: 92937,
+																	line: 2932, col: 13, offset: 93453,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21532},
 																expr: &actionExpr{
-																	pos: position{line: 2903, col: 10, offset: 92601},
+																	pos: position{line: 2915, col: 10, offset: 93117},
 																	run: (*parser).callonShortcutParagraph76,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2903, col: 10, offset: 92601},
+																		pos:        position{line: 2915, col: 10, offset: 93117},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -39181,28 +39181,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2925, col: 8, offset: 92999},
+																pos: position{line: 2937, col: 8, offset: 93515},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2912, col: 12, offset: 92772},
+																		pos: position{line: 2924, col: 12, offset: 93288},
 																		run: (*parser).callonShortcutParagraph79,
 																		expr: &choiceExpr{
-																			pos: position{line: 2912, col: 13, offset: 92773},
+																			pos: position{line: 2924, col: 13, offset: 93289},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2912, col: 13, offset: 92773},
+																					pos:        position{line: 2924, col: 13, offset: 93289},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2912, col: 20, offset: 92780},
+																					pos:        position{line: 2924, col: 20, offset: 93296},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2912, col: 29, offset: 92789},
+																					pos:        position{line: 2924, col: 29, offset: 93305},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -39211,9 +39211,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2922, col: 8, offset: 92949},
+																		pos: position{line: 2934, col: 8, offset: 93465},
 																		expr: &anyMatcher{
-																			line: 2922, col: 9, offset: 92950,
+																			line: 2934, col: 9, offset: 93466,
 																		},
 																	},
 																},
@@ -39240,7 +39240,7 @@ var g = &grammar{
 															&notExpr{
 																pos: position{line: 725, col: 5, offset: 23101},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2786, col: 13, offset: 89482},
+																	pos:        position{line: 2798, col: 13, offset: 89998},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -39290,10 +39290,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 743, col: 8, offset: 23745},
 																						expr: &actionExpr{
-																							pos: position{line: 2903, col: 10, offset: 92601},
+																							pos: position{line: 2915, col: 10, offset: 93117},
 																							run: (*parser).callonShortcutParagraph104,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2903, col: 10, offset: 92601},
+																								pos:        position{line: 2915, col: 10, offset: 93117},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39302,28 +39302,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2925, col: 8, offset: 92999},
+																						pos: position{line: 2937, col: 8, offset: 93515},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2912, col: 12, offset: 92772},
+																								pos: position{line: 2924, col: 12, offset: 93288},
 																								run: (*parser).callonShortcutParagraph107,
 																								expr: &choiceExpr{
-																									pos: position{line: 2912, col: 13, offset: 92773},
+																									pos: position{line: 2924, col: 13, offset: 93289},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 13, offset: 92773},
+																											pos:        position{line: 2924, col: 13, offset: 93289},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 20, offset: 92780},
+																											pos:        position{line: 2924, col: 20, offset: 93296},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 29, offset: 92789},
+																											pos:        position{line: 2924, col: 29, offset: 93305},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39332,9 +39332,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2922, col: 8, offset: 92949},
+																								pos: position{line: 2934, col: 8, offset: 93465},
 																								expr: &anyMatcher{
-																									line: 2922, col: 9, offset: 92950,
+																									line: 2934, col: 9, offset: 93466,
 																								},
 																							},
 																						},
@@ -39379,10 +39379,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 750, col: 8, offset: 23993},
 																						expr: &actionExpr{
-																							pos: position{line: 2903, col: 10, offset: 92601},
+																							pos: position{line: 2915, col: 10, offset: 93117},
 																							run: (*parser).callonShortcutParagraph123,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2903, col: 10, offset: 92601},
+																								pos:        position{line: 2915, col: 10, offset: 93117},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39391,28 +39391,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2925, col: 8, offset: 92999},
+																						pos: position{line: 2937, col: 8, offset: 93515},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2912, col: 12, offset: 92772},
+																								pos: position{line: 2924, col: 12, offset: 93288},
 																								run: (*parser).callonShortcutParagraph126,
 																								expr: &choiceExpr{
-																									pos: position{line: 2912, col: 13, offset: 92773},
+																									pos: position{line: 2924, col: 13, offset: 93289},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 13, offset: 92773},
+																											pos:        position{line: 2924, col: 13, offset: 93289},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 20, offset: 92780},
+																											pos:        position{line: 2924, col: 20, offset: 93296},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 29, offset: 92789},
+																											pos:        position{line: 2924, col: 29, offset: 93305},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39421,9 +39421,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2922, col: 8, offset: 92949},
+																								pos: position{line: 2934, col: 8, offset: 93465},
 																								expr: &anyMatcher{
-																									line: 2922, col: 9, offset: 92950,
+																									line: 2934, col: 9, offset: 93466,
 																								},
 																							},
 																						},
@@ -39464,10 +39464,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 761, col: 52, offset: 24405},
 																						expr: &actionExpr{
-																							pos: position{line: 2903, col: 10, offset: 92601},
+																							pos: position{line: 2915, col: 10, offset: 93117},
 																							run: (*parser).callonShortcutParagraph141,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2903, col: 10, offset: 92601},
+																								pos:        position{line: 2915, col: 10, offset: 93117},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39476,28 +39476,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2925, col: 8, offset: 92999},
+																						pos: position{line: 2937, col: 8, offset: 93515},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2912, col: 12, offset: 92772},
+																								pos: position{line: 2924, col: 12, offset: 93288},
 																								run: (*parser).callonShortcutParagraph144,
 																								expr: &choiceExpr{
-																									pos: position{line: 2912, col: 13, offset: 92773},
+																									pos: position{line: 2924, col: 13, offset: 93289},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 13, offset: 92773},
+																											pos:        position{line: 2924, col: 13, offset: 93289},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 20, offset: 92780},
+																											pos:        position{line: 2924, col: 20, offset: 93296},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 29, offset: 92789},
+																											pos:        position{line: 2924, col: 29, offset: 93305},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39506,9 +39506,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2922, col: 8, offset: 92949},
+																								pos: position{line: 2934, col: 8, offset: 93465},
 																								expr: &anyMatcher{
-																									line: 2922, col: 9, offset: 92950,
+																									line: 2934, col: 9, offset: 93466,
 																								},
 																							},
 																						},
@@ -39553,10 +39553,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 757, col: 8, offset: 24239},
 																						expr: &actionExpr{
-																							pos: position{line: 2903, col: 10, offset: 92601},
+																							pos: position{line: 2915, col: 10, offset: 93117},
 																							run: (*parser).callonShortcutParagraph160,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2903, col: 10, offset: 92601},
+																								pos:        position{line: 2915, col: 10, offset: 93117},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39565,28 +39565,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2925, col: 8, offset: 92999},
+																						pos: position{line: 2937, col: 8, offset: 93515},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2912, col: 12, offset: 92772},
+																								pos: position{line: 2924, col: 12, offset: 93288},
 																								run: (*parser).callonShortcutParagraph163,
 																								expr: &choiceExpr{
-																									pos: position{line: 2912, col: 13, offset: 92773},
+																									pos: position{line: 2924, col: 13, offset: 93289},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 13, offset: 92773},
+																											pos:        position{line: 2924, col: 13, offset: 93289},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 20, offset: 92780},
+																											pos:        position{line: 2924, col: 20, offset: 93296},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 29, offset: 92789},
+																											pos:        position{line: 2924, col: 29, offset: 93305},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39595,9 +39595,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2922, col: 8, offset: 92949},
+																								pos: position{line: 2934, col: 8, offset: 93465},
 																								expr: &anyMatcher{
-																									line: 2922, col: 9, offset: 92950,
+																									line: 2934, col: 9, offset: 93466,
 																								},
 																							},
 																						},
@@ -39642,10 +39642,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 772, col: 8, offset: 24782},
 																						expr: &actionExpr{
-																							pos: position{line: 2903, col: 10, offset: 92601},
+																							pos: position{line: 2915, col: 10, offset: 93117},
 																							run: (*parser).callonShortcutParagraph179,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2903, col: 10, offset: 92601},
+																								pos:        position{line: 2915, col: 10, offset: 93117},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39654,28 +39654,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2925, col: 8, offset: 92999},
+																						pos: position{line: 2937, col: 8, offset: 93515},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2912, col: 12, offset: 92772},
+																								pos: position{line: 2924, col: 12, offset: 93288},
 																								run: (*parser).callonShortcutParagraph182,
 																								expr: &choiceExpr{
-																									pos: position{line: 2912, col: 13, offset: 92773},
+																									pos: position{line: 2924, col: 13, offset: 93289},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 13, offset: 92773},
+																											pos:        position{line: 2924, col: 13, offset: 93289},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 20, offset: 92780},
+																											pos:        position{line: 2924, col: 20, offset: 93296},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 29, offset: 92789},
+																											pos:        position{line: 2924, col: 29, offset: 93305},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39684,9 +39684,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2922, col: 8, offset: 92949},
+																								pos: position{line: 2934, col: 8, offset: 93465},
 																								expr: &anyMatcher{
-																									line: 2922, col: 9, offset: 92950,
+																									line: 2934, col: 9, offset: 93466,
 																								},
 																							},
 																						},
@@ -39731,10 +39731,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 786, col: 8, offset: 25258},
 																						expr: &actionExpr{
-																							pos: position{line: 2903, col: 10, offset: 92601},
+																							pos: position{line: 2915, col: 10, offset: 93117},
 																							run: (*parser).callonShortcutParagraph198,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2903, col: 10, offset: 92601},
+																								pos:        position{line: 2915, col: 10, offset: 93117},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39743,28 +39743,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2925, col: 8, offset: 92999},
+																						pos: position{line: 2937, col: 8, offset: 93515},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2912, col: 12, offset: 92772},
+																								pos: position{line: 2924, col: 12, offset: 93288},
 																								run: (*parser).callonShortcutParagraph201,
 																								expr: &choiceExpr{
-																									pos: position{line: 2912, col: 13, offset: 92773},
+																									pos: position{line: 2924, col: 13, offset: 93289},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 13, offset: 92773},
+																											pos:        position{line: 2924, col: 13, offset: 93289},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 20, offset: 92780},
+																											pos:        position{line: 2924, col: 20, offset: 93296},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 29, offset: 92789},
+																											pos:        position{line: 2924, col: 29, offset: 93305},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39773,9 +39773,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2922, col: 8, offset: 92949},
+																								pos: position{line: 2934, col: 8, offset: 93465},
 																								expr: &anyMatcher{
-																									line: 2922, col: 9, offset: 92950,
+																									line: 2934, col: 9, offset: 93466,
 																								},
 																							},
 																						},
@@ -39820,10 +39820,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 793, col: 8, offset: 25510},
 																						expr: &actionExpr{
-																							pos: position{line: 2903, col: 10, offset: 92601},
+																							pos: position{line: 2915, col: 10, offset: 93117},
 																							run: (*parser).callonShortcutParagraph217,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2903, col: 10, offset: 92601},
+																								pos:        position{line: 2915, col: 10, offset: 93117},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39832,28 +39832,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2925, col: 8, offset: 92999},
+																						pos: position{line: 2937, col: 8, offset: 93515},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2912, col: 12, offset: 92772},
+																								pos: position{line: 2924, col: 12, offset: 93288},
 																								run: (*parser).callonShortcutParagraph220,
 																								expr: &choiceExpr{
-																									pos: position{line: 2912, col: 13, offset: 92773},
+																									pos: position{line: 2924, col: 13, offset: 93289},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 13, offset: 92773},
+																											pos:        position{line: 2924, col: 13, offset: 93289},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 20, offset: 92780},
+																											pos:        position{line: 2924, col: 20, offset: 93296},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 29, offset: 92789},
+																											pos:        position{line: 2924, col: 29, offset: 93305},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39862,9 +39862,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2922, col: 8, offset: 92949},
+																								pos: position{line: 2934, col: 8, offset: 93465},
 																								expr: &anyMatcher{
-																									line: 2922, col: 9, offset: 92950,
+																									line: 2934, col: 9, offset: 93466,
 																								},
 																							},
 																						},
@@ -39909,10 +39909,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 800, col: 8, offset: 25760},
 																						expr: &actionExpr{
-																							pos: position{line: 2903, col: 10, offset: 92601},
+																							pos: position{line: 2915, col: 10, offset: 93117},
 																							run: (*parser).callonShortcutParagraph236,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2903, col: 10, offset: 92601},
+																								pos:        position{line: 2915, col: 10, offset: 93117},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39921,28 +39921,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2925, col: 8, offset: 92999},
+																						pos: position{line: 2937, col: 8, offset: 93515},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2912, col: 12, offset: 92772},
+																								pos: position{line: 2924, col: 12, offset: 93288},
 																								run: (*parser).callonShortcutParagraph239,
 																								expr: &choiceExpr{
-																									pos: position{line: 2912, col: 13, offset: 92773},
+																									pos: position{line: 2924, col: 13, offset: 93289},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 13, offset: 92773},
+																											pos:        position{line: 2924, col: 13, offset: 93289},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 20, offset: 92780},
+																											pos:        position{line: 2924, col: 20, offset: 93296},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 29, offset: 92789},
+																											pos:        position{line: 2924, col: 29, offset: 93305},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39951,9 +39951,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2922, col: 8, offset: 92949},
+																								pos: position{line: 2934, col: 8, offset: 93465},
 																								expr: &anyMatcher{
-																									line: 2922, col: 9, offset: 92950,
+																									line: 2934, col: 9, offset: 93466,
 																								},
 																							},
 																						},
@@ -39998,10 +39998,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 807, col: 8, offset: 26006},
 																						expr: &actionExpr{
-																							pos: position{line: 2903, col: 10, offset: 92601},
+																							pos: position{line: 2915, col: 10, offset: 93117},
 																							run: (*parser).callonShortcutParagraph255,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2903, col: 10, offset: 92601},
+																								pos:        position{line: 2915, col: 10, offset: 93117},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40010,28 +40010,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2925, col: 8, offset: 92999},
+																						pos: position{line: 2937, col: 8, offset: 93515},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2912, col: 12, offset: 92772},
+																								pos: position{line: 2924, col: 12, offset: 93288},
 																								run: (*parser).callonShortcutParagraph258,
 																								expr: &choiceExpr{
-																									pos: position{line: 2912, col: 13, offset: 92773},
+																									pos: position{line: 2924, col: 13, offset: 93289},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 13, offset: 92773},
+																											pos:        position{line: 2924, col: 13, offset: 93289},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 20, offset: 92780},
+																											pos:        position{line: 2924, col: 20, offset: 93296},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2912, col: 29, offset: 92789},
+																											pos:        position{line: 2924, col: 29, offset: 93305},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40040,9 +40040,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2922, col: 8, offset: 92949},
+																								pos: position{line: 2934, col: 8, offset: 93465},
 																								expr: &anyMatcher{
-																									line: 2922, col: 9, offset: 92950,
+																									line: 2934, col: 9, offset: 93466,
 																								},
 																							},
 																						},
@@ -40071,10 +40071,10 @@ var g = &grammar{
 														&zeroOrMoreExpr{
 															pos: position{line: 1548, col: 31, offset: 50257},
 															expr: &actionExpr{
-																pos: position{line: 2903, col: 10, offset: 92601},
+																pos: position{line: 2915, col: 10, offset: 93117},
 																run: (*parser).callonShortcutParagraph269,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2903, col: 10, offset: 92601},
+																	pos:        position{line: 2915, col: 10, offset: 93117},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -40083,25 +40083,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2912, col: 12, offset: 92772},
+															pos: position{line: 2924, col: 12, offset: 93288},
 															run: (*parser).callonShortcutParagraph271,
 															expr: &choiceExpr{
-																pos: position{line: 2912, col: 13, offset: 92773},
+																pos: position{line: 2924, col: 13, offset: 93289},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2912, col: 13, offset: 92773},
+																		pos:        position{line: 2924, col: 13, offset: 93289},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2912, col: 20, offset: 92780},
+																		pos:        position{line: 2924, col: 20, offset: 93296},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2912, col: 29, offset: 92789},
+																		pos:        position{line: 2924, col: 29, offset: 93305},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -40119,36 +40119,36 @@ var g = &grammar{
 													pos: position{line: 1776, col: 15, offset: 57683},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2503, col: 22, offset: 81294},
+															pos: position{line: 2515, col: 22, offset: 81810},
 															run: (*parser).callonShortcutParagraph278,
 															expr: &seqExpr{
-																pos: position{line: 2503, col: 22, offset: 81294},
+																pos: position{line: 2515, col: 22, offset: 81810},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2508, col: 31, offset: 81515},
+																		pos:        position{line: 2520, col: 31, offset: 82031},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2508, col: 36, offset: 81520},
+																		pos: position{line: 2520, col: 36, offset: 82036},
 																		expr: &litMatcher{
-																			pos:        position{line: 2508, col: 37, offset: 81521},
+																			pos:        position{line: 2520, col: 37, offset: 82037},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2503, col: 49, offset: 81321},
+																		pos:   position{line: 2515, col: 49, offset: 81837},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2849, col: 13, offset: 91127},
+																			pos: position{line: 2861, col: 13, offset: 91643},
 																			run: (*parser).callonShortcutParagraph284,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2849, col: 13, offset: 91127},
+																				pos: position{line: 2861, col: 13, offset: 91643},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2849, col: 13, offset: 91127},
+																					pos:        position{line: 2861, col: 13, offset: 91643},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40158,28 +40158,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2925, col: 8, offset: 92999},
+																		pos: position{line: 2937, col: 8, offset: 93515},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2912, col: 12, offset: 92772},
+																				pos: position{line: 2924, col: 12, offset: 93288},
 																				run: (*parser).callonShortcutParagraph288,
 																				expr: &choiceExpr{
-																					pos: position{line: 2912, col: 13, offset: 92773},
+																					pos: position{line: 2924, col: 13, offset: 93289},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 13, offset: 92773},
+																							pos:        position{line: 2924, col: 13, offset: 93289},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 20, offset: 92780},
+																							pos:        position{line: 2924, col: 20, offset: 93296},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 29, offset: 92789},
+																							pos:        position{line: 2924, col: 29, offset: 93305},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40188,9 +40188,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2922, col: 8, offset: 92949},
+																				pos: position{line: 2934, col: 8, offset: 93465},
 																				expr: &anyMatcher{
-																					line: 2922, col: 9, offset: 92950,
+																					line: 2934, col: 9, offset: 93466,
 																				},
 																			},
 																		},
@@ -40208,12 +40208,12 @@ var g = &grammar{
 																		pos:   position{line: 1798, col: 5, offset: 58283},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2853, col: 14, offset: 91194},
+																			pos: position{line: 2865, col: 14, offset: 91710},
 																			run: (*parser).callonShortcutParagraph298,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2853, col: 14, offset: 91194},
+																				pos: position{line: 2865, col: 14, offset: 91710},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2853, col: 14, offset: 91194},
+																					pos:        position{line: 2865, col: 14, offset: 91710},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40227,28 +40227,28 @@ var g = &grammar{
 																		run: (*parser).callonShortcutParagraph301,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2925, col: 8, offset: 92999},
+																		pos: position{line: 2937, col: 8, offset: 93515},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2912, col: 12, offset: 92772},
+																				pos: position{line: 2924, col: 12, offset: 93288},
 																				run: (*parser).callonShortcutParagraph303,
 																				expr: &choiceExpr{
-																					pos: position{line: 2912, col: 13, offset: 92773},
+																					pos: position{line: 2924, col: 13, offset: 93289},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 13, offset: 92773},
+																							pos:        position{line: 2924, col: 13, offset: 93289},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 20, offset: 92780},
+																							pos:        position{line: 2924, col: 20, offset: 93296},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 29, offset: 92789},
+																							pos:        position{line: 2924, col: 29, offset: 93305},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40257,9 +40257,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2922, col: 8, offset: 92949},
+																				pos: position{line: 2934, col: 8, offset: 93465},
 																				expr: &anyMatcher{
-																					line: 2922, col: 9, offset: 92950,
+																					line: 2934, col: 9, offset: 93466,
 																				},
 																			},
 																		},
@@ -40365,12 +40365,12 @@ var g = &grammar{
 															expr: &andExpr{
 																pos: position{line: 1752, col: 13, offset: 56793},
 																expr: &actionExpr{
-																	pos: position{line: 2907, col: 11, offset: 92662},
+																	pos: position{line: 2919, col: 11, offset: 93178},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2907, col: 11, offset: 92662},
+																		pos: position{line: 2919, col: 11, offset: 93178},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2907, col: 11, offset: 92662},
+																			pos:        position{line: 2919, col: 11, offset: 93178},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -40391,10 +40391,10 @@ var g = &grammar{
 														&zeroOrMoreExpr{
 															pos: position{line: 1754, col: 14, offset: 56865},
 															expr: &actionExpr{
-																pos: position{line: 2903, col: 10, offset: 92601},
+																pos: position{line: 2915, col: 10, offset: 93117},
 																run: (*parser).callonParagraph28,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2903, col: 10, offset: 92601},
+																	pos:        position{line: 2915, col: 10, offset: 93117},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -40403,28 +40403,28 @@ var g = &grammar{
 															},
 														},
 														&choiceExpr{
-															pos: position{line: 2925, col: 8, offset: 92999},
+															pos: position{line: 2937, col: 8, offset: 93515},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2912, col: 12, offset: 92772},
+																	pos: position{line: 2924, col: 12, offset: 93288},
 																	run: (*parser).callonParagraph31,
 																	expr: &choiceExpr{
-																		pos: position{line: 2912, col: 13, offset: 92773},
+																		pos: position{line: 2924, col: 13, offset: 93289},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2912, col: 13, offset: 92773},
+																				pos:        position{line: 2924, col: 13, offset: 93289},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2912, col: 20, offset: 92780},
+																				pos:        position{line: 2924, col: 20, offset: 93296},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2912, col: 29, offset: 92789},
+																				pos:        position{line: 2924, col: 29, offset: 93305},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -40433,9 +40433,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2922, col: 8, offset: 92949},
+																	pos: position{line: 2934, col: 8, offset: 93465},
 																	expr: &anyMatcher{
-																		line: 2922, col: 9, offset: 92950,
+																		line: 2934, col: 9, offset: 93466,
 																	},
 																},
 															},
@@ -40461,12 +40461,12 @@ var g = &grammar{
 											pos:   position{line: 1798, col: 5, offset: 58283},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2853, col: 14, offset: 91194},
+												pos: position{line: 2865, col: 14, offset: 91710},
 												run: (*parser).callonParagraph42,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2853, col: 14, offset: 91194},
+													pos: position{line: 2865, col: 14, offset: 91710},
 													expr: &charClassMatcher{
-														pos:        position{line: 2853, col: 14, offset: 91194},
+														pos:        position{line: 2865, col: 14, offset: 91710},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -40480,28 +40480,28 @@ var g = &grammar{
 											run: (*parser).callonParagraph45,
 										},
 										&choiceExpr{
-											pos: position{line: 2925, col: 8, offset: 92999},
+											pos: position{line: 2937, col: 8, offset: 93515},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2912, col: 12, offset: 92772},
+													pos: position{line: 2924, col: 12, offset: 93288},
 													run: (*parser).callonParagraph47,
 													expr: &choiceExpr{
-														pos: position{line: 2912, col: 13, offset: 92773},
+														pos: position{line: 2924, col: 13, offset: 93289},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2912, col: 13, offset: 92773},
+																pos:        position{line: 2924, col: 13, offset: 93289},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2912, col: 20, offset: 92780},
+																pos:        position{line: 2924, col: 20, offset: 93296},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2912, col: 29, offset: 92789},
+																pos:        position{line: 2924, col: 29, offset: 93305},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -40510,9 +40510,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2922, col: 8, offset: 92949},
+													pos: position{line: 2934, col: 8, offset: 93465},
 													expr: &anyMatcher{
-														line: 2922, col: 9, offset: 92950,
+														line: 2934, col: 9, offset: 93466,
 													},
 												},
 											},
@@ -40533,9 +40533,9 @@ var g = &grammar{
 										pos: position{line: 1787, col: 9, offset: 57989},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2920, col: 11, offset: 92935},
+												pos: position{line: 2932, col: 11, offset: 93451},
 												expr: &anyMatcher{
-													line: 2920, col: 13, offset: 92937,
+													line: 2932, col: 13, offset: 93453,
 												},
 											},
 											&notExpr{
@@ -40547,18 +40547,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21525},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2920, col: 11, offset: 92935},
+																pos: position{line: 2932, col: 11, offset: 93451},
 																expr: &anyMatcher{
-																	line: 2920, col: 13, offset: 92937,
+																	line: 2932, col: 13, offset: 93453,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21532},
 																expr: &actionExpr{
-																	pos: position{line: 2903, col: 10, offset: 92601},
+																	pos: position{line: 2915, col: 10, offset: 93117},
 																	run: (*parser).callonParagraph66,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2903, col: 10, offset: 92601},
+																		pos:        position{line: 2915, col: 10, offset: 93117},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -40567,28 +40567,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2925, col: 8, offset: 92999},
+																pos: position{line: 2937, col: 8, offset: 93515},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2912, col: 12, offset: 92772},
+																		pos: position{line: 2924, col: 12, offset: 93288},
 																		run: (*parser).callonParagraph69,
 																		expr: &choiceExpr{
-																			pos: position{line: 2912, col: 13, offset: 92773},
+																			pos: position{line: 2924, col: 13, offset: 93289},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2912, col: 13, offset: 92773},
+																					pos:        position{line: 2924, col: 13, offset: 93289},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2912, col: 20, offset: 92780},
+																					pos:        position{line: 2924, col: 20, offset: 93296},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2912, col: 29, offset: 92789},
+																					pos:        position{line: 2924, col: 29, offset: 93305},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -40597,9 +40597,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2922, col: 8, offset: 92949},
+																		pos: position{line: 2934, col: 8, offset: 93465},
 																		expr: &anyMatcher{
-																			line: 2922, col: 9, offset: 92950,
+																			line: 2934, col: 9, offset: 93466,
 																		},
 																	},
 																},
@@ -40622,36 +40622,36 @@ var g = &grammar{
 													pos: position{line: 1790, col: 15, offset: 58054},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2503, col: 22, offset: 81294},
+															pos: position{line: 2515, col: 22, offset: 81810},
 															run: (*parser).callonParagraph80,
 															expr: &seqExpr{
-																pos: position{line: 2503, col: 22, offset: 81294},
+																pos: position{line: 2515, col: 22, offset: 81810},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2508, col: 31, offset: 81515},
+																		pos:        position{line: 2520, col: 31, offset: 82031},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2508, col: 36, offset: 81520},
+																		pos: position{line: 2520, col: 36, offset: 82036},
 																		expr: &litMatcher{
-																			pos:        position{line: 2508, col: 37, offset: 81521},
+																			pos:        position{line: 2520, col: 37, offset: 82037},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2503, col: 49, offset: 81321},
+																		pos:   position{line: 2515, col: 49, offset: 81837},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2849, col: 13, offset: 91127},
+																			pos: position{line: 2861, col: 13, offset: 91643},
 																			run: (*parser).callonParagraph86,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2849, col: 13, offset: 91127},
+																				pos: position{line: 2861, col: 13, offset: 91643},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2849, col: 13, offset: 91127},
+																					pos:        position{line: 2861, col: 13, offset: 91643},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40661,28 +40661,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2925, col: 8, offset: 92999},
+																		pos: position{line: 2937, col: 8, offset: 93515},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2912, col: 12, offset: 92772},
+																				pos: position{line: 2924, col: 12, offset: 93288},
 																				run: (*parser).callonParagraph90,
 																				expr: &choiceExpr{
-																					pos: position{line: 2912, col: 13, offset: 92773},
+																					pos: position{line: 2924, col: 13, offset: 93289},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 13, offset: 92773},
+																							pos:        position{line: 2924, col: 13, offset: 93289},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 20, offset: 92780},
+																							pos:        position{line: 2924, col: 20, offset: 93296},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 29, offset: 92789},
+																							pos:        position{line: 2924, col: 29, offset: 93305},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40691,9 +40691,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2922, col: 8, offset: 92949},
+																				pos: position{line: 2934, col: 8, offset: 93465},
 																				expr: &anyMatcher{
-																					line: 2922, col: 9, offset: 92950,
+																					line: 2934, col: 9, offset: 93466,
 																				},
 																			},
 																		},
@@ -40711,12 +40711,12 @@ var g = &grammar{
 																		pos:   position{line: 1798, col: 5, offset: 58283},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2853, col: 14, offset: 91194},
+																			pos: position{line: 2865, col: 14, offset: 91710},
 																			run: (*parser).callonParagraph100,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2853, col: 14, offset: 91194},
+																				pos: position{line: 2865, col: 14, offset: 91710},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2853, col: 14, offset: 91194},
+																					pos:        position{line: 2865, col: 14, offset: 91710},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40730,28 +40730,28 @@ var g = &grammar{
 																		run: (*parser).callonParagraph103,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2925, col: 8, offset: 92999},
+																		pos: position{line: 2937, col: 8, offset: 93515},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2912, col: 12, offset: 92772},
+																				pos: position{line: 2924, col: 12, offset: 93288},
 																				run: (*parser).callonParagraph105,
 																				expr: &choiceExpr{
-																					pos: position{line: 2912, col: 13, offset: 92773},
+																					pos: position{line: 2924, col: 13, offset: 93289},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 13, offset: 92773},
+																							pos:        position{line: 2924, col: 13, offset: 93289},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 20, offset: 92780},
+																							pos:        position{line: 2924, col: 20, offset: 93296},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 29, offset: 92789},
+																							pos:        position{line: 2924, col: 29, offset: 93305},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40760,9 +40760,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2922, col: 8, offset: 92949},
+																				pos: position{line: 2934, col: 8, offset: 93465},
 																				expr: &anyMatcher{
-																					line: 2922, col: 9, offset: 92950,
+																					line: 2934, col: 9, offset: 93466,
 																				},
 																			},
 																		},
@@ -40975,26 +40975,26 @@ var g = &grammar{
 				pos: position{line: 1864, col: 5, offset: 60312},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2795, col: 5, offset: 89629},
+						pos: position{line: 2807, col: 5, offset: 90145},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2795, col: 5, offset: 89629},
+							pos: position{line: 2807, col: 5, offset: 90145},
 							exprs: []interface{}{
 								&notExpr{
-									pos: position{line: 2795, col: 5, offset: 89629},
+									pos: position{line: 2807, col: 5, offset: 90145},
 									expr: &seqExpr{
-										pos: position{line: 2796, col: 9, offset: 89640},
+										pos: position{line: 2808, col: 9, offset: 90156},
 										exprs: []interface{}{
 											&labeledExpr{
-												pos:   position{line: 2796, col: 9, offset: 89640},
+												pos:   position{line: 2808, col: 9, offset: 90156},
 												label: "name",
 												expr: &actionExpr{
-													pos: position{line: 2775, col: 18, offset: 89146},
+													pos: position{line: 2787, col: 18, offset: 89662},
 													run: (*parser).callonQuotedTextElement7,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2775, col: 19, offset: 89147},
+														pos: position{line: 2787, col: 19, offset: 89663},
 														expr: &charClassMatcher{
-															pos:        position{line: 2775, col: 19, offset: 89147},
+															pos:        position{line: 2787, col: 19, offset: 89663},
 															val:        "[_-\\pL\\pN]",
 															chars:      []rune{'_', '-'},
 															classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -41005,28 +41005,28 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 2797, col: 9, offset: 89733},
+												pos:        position{line: 2809, col: 9, offset: 90249},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2798, col: 9, offset: 89745},
+												pos: position{line: 2810, col: 9, offset: 90261},
 												run: (*parser).callonQuotedTextElement11,
 											},
 										},
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 2802, col: 5, offset: 89822},
+									pos:   position{line: 2814, col: 5, offset: 90338},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2802, col: 11, offset: 89828},
+										pos: position{line: 2814, col: 11, offset: 90344},
 										run: (*parser).callonQuotedTextElement13,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2802, col: 11, offset: 89828},
+											pos: position{line: 2814, col: 11, offset: 90344},
 											expr: &charClassMatcher{
-												pos:        position{line: 2802, col: 11, offset: 89828},
+												pos:        position{line: 2814, col: 11, offset: 90344},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41036,44 +41036,44 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2805, col: 5, offset: 89886},
+									pos: position{line: 2817, col: 5, offset: 90402},
 									expr: &seqExpr{
-										pos: position{line: 2806, col: 9, offset: 89897},
+										pos: position{line: 2818, col: 9, offset: 90413},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2806, col: 9, offset: 89897},
+												pos:        position{line: 2818, col: 9, offset: 90413},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2807, col: 9, offset: 89946},
+												pos: position{line: 2819, col: 9, offset: 90462},
 												run: (*parser).callonQuotedTextElement19,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2811, col: 5, offset: 90026},
+									pos: position{line: 2823, col: 5, offset: 90542},
 									expr: &seqExpr{
-										pos: position{line: 2812, col: 9, offset: 90037},
+										pos: position{line: 2824, col: 9, offset: 90553},
 										exprs: []interface{}{
 											&zeroOrMoreExpr{
-												pos: position{line: 2812, col: 9, offset: 90037},
+												pos: position{line: 2824, col: 9, offset: 90553},
 												expr: &seqExpr{
-													pos: position{line: 2812, col: 10, offset: 90038},
+													pos: position{line: 2824, col: 10, offset: 90554},
 													exprs: []interface{}{
 														&charClassMatcher{
-															pos:        position{line: 2812, col: 10, offset: 90038},
+															pos:        position{line: 2824, col: 10, offset: 90554},
 															val:        "[._%+-]",
 															chars:      []rune{'.', '_', '%', '+', '-'},
 															ignoreCase: false,
 															inverted:   false,
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2812, col: 18, offset: 90046},
+															pos: position{line: 2824, col: 18, offset: 90562},
 															expr: &charClassMatcher{
-																pos:        position{line: 2812, col: 18, offset: 90046},
+																pos:        position{line: 2824, col: 18, offset: 90562},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -41084,13 +41084,13 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 2812, col: 30, offset: 90058},
+												pos:        position{line: 2824, col: 30, offset: 90574},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2812, col: 34, offset: 90062},
+												pos:        position{line: 2824, col: 34, offset: 90578},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41103,12 +41103,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2907, col: 11, offset: 92662},
+						pos: position{line: 2919, col: 11, offset: 93178},
 						run: (*parser).callonQuotedTextElement29,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2907, col: 11, offset: 92662},
+							pos: position{line: 2919, col: 11, offset: 93178},
 							expr: &charClassMatcher{
-								pos:        position{line: 2907, col: 11, offset: 92662},
+								pos:        position{line: 2919, col: 11, offset: 93178},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -41121,25 +41121,25 @@ var g = &grammar{
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2521, col: 5, offset: 82011},
+						pos: position{line: 2533, col: 5, offset: 82527},
 						run: (*parser).callonQuotedTextElement33,
 						expr: &seqExpr{
-							pos: position{line: 2521, col: 5, offset: 82011},
+							pos: position{line: 2533, col: 5, offset: 82527},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2521, col: 5, offset: 82011},
+									pos: position{line: 2533, col: 5, offset: 82527},
 									run: (*parser).callonQuotedTextElement35,
 								},
 								&litMatcher{
-									pos:        position{line: 2524, col: 5, offset: 82082},
+									pos:        position{line: 2536, col: 5, offset: 82598},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2524, col: 10, offset: 82087},
+									pos: position{line: 2536, col: 10, offset: 82603},
 									expr: &charClassMatcher{
-										pos:        position{line: 2524, col: 11, offset: 82088},
+										pos:        position{line: 2536, col: 11, offset: 82604},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -41150,29 +41150,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2530, col: 5, offset: 82280},
+						pos: position{line: 2542, col: 5, offset: 82796},
 						run: (*parser).callonQuotedTextElement39,
 						expr: &seqExpr{
-							pos: position{line: 2530, col: 5, offset: 82280},
+							pos: position{line: 2542, col: 5, offset: 82796},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2530, col: 5, offset: 82280},
+									pos: position{line: 2542, col: 5, offset: 82796},
 									run: (*parser).callonQuotedTextElement41,
 								},
 								&andCodeExpr{
-									pos: position{line: 2533, col: 5, offset: 82351},
+									pos: position{line: 2545, col: 5, offset: 82867},
 									run: (*parser).callonQuotedTextElement42,
 								},
 								&litMatcher{
-									pos:        position{line: 2537, col: 5, offset: 82476},
+									pos:        position{line: 2549, col: 5, offset: 82992},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2537, col: 9, offset: 82480},
+									pos: position{line: 2549, col: 9, offset: 82996},
 									expr: &charClassMatcher{
-										pos:        position{line: 2537, col: 10, offset: 82481},
+										pos:        position{line: 2549, col: 10, offset: 82997},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -41183,27 +41183,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2820, col: 5, offset: 90255},
+						pos: position{line: 2832, col: 5, offset: 90771},
 						run: (*parser).callonQuotedTextElement46,
 						expr: &choiceExpr{
-							pos: position{line: 2821, col: 9, offset: 90265},
+							pos: position{line: 2833, col: 9, offset: 90781},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2821, col: 10, offset: 90266},
+									pos:        position{line: 2833, col: 10, offset: 90782},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2823, col: 13, offset: 90363},
+									pos: position{line: 2835, col: 13, offset: 90879},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2823, col: 13, offset: 90363},
+											pos: position{line: 2835, col: 13, offset: 90879},
 											run: (*parser).callonQuotedTextElement50,
 										},
 										&litMatcher{
-											pos:        position{line: 2826, col: 13, offset: 90463},
+											pos:        position{line: 2838, col: 13, offset: 90979},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -41211,20 +41211,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2826, col: 19, offset: 90469},
+									pos:        position{line: 2838, col: 19, offset: 90985},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2829, col: 13, offset: 90507},
+									pos: position{line: 2841, col: 13, offset: 91023},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2829, col: 13, offset: 90507},
+											pos: position{line: 2841, col: 13, offset: 91023},
 											run: (*parser).callonQuotedTextElement54,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2832, col: 14, offset: 90600},
+											pos:        position{line: 2844, col: 14, offset: 91116},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -41233,18 +41233,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2834, col: 12, offset: 90644},
+									pos: position{line: 2846, col: 12, offset: 91160},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2834, col: 12, offset: 90644},
+											pos:        position{line: 2846, col: 12, offset: 91160},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2834, col: 16, offset: 90648},
+											pos: position{line: 2846, col: 16, offset: 91164},
 											expr: &litMatcher{
-												pos:        position{line: 2834, col: 17, offset: 90649},
+												pos:        position{line: 2846, col: 17, offset: 91165},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -41602,31 +41602,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2916, col: 18, offset: 92872},
+						pos: position{line: 2928, col: 18, offset: 93388},
 						run: (*parser).callonQuotedTextElement129,
 						expr: &seqExpr{
-							pos: position{line: 2916, col: 18, offset: 92872},
+							pos: position{line: 2928, col: 18, offset: 93388},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2912, col: 12, offset: 92772},
+									pos: position{line: 2924, col: 12, offset: 93288},
 									run: (*parser).callonQuotedTextElement131,
 									expr: &choiceExpr{
-										pos: position{line: 2912, col: 13, offset: 92773},
+										pos: position{line: 2924, col: 13, offset: 93289},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2912, col: 13, offset: 92773},
+												pos:        position{line: 2924, col: 13, offset: 93289},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2912, col: 20, offset: 92780},
+												pos:        position{line: 2924, col: 20, offset: 93296},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2912, col: 29, offset: 92789},
+												pos:        position{line: 2924, col: 29, offset: 93305},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -41635,27 +41635,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2916, col: 26, offset: 92880},
+									pos: position{line: 2928, col: 26, offset: 93396},
 									expr: &actionExpr{
-										pos: position{line: 2912, col: 12, offset: 92772},
+										pos: position{line: 2924, col: 12, offset: 93288},
 										run: (*parser).callonQuotedTextElement137,
 										expr: &choiceExpr{
-											pos: position{line: 2912, col: 13, offset: 92773},
+											pos: position{line: 2924, col: 13, offset: 93289},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2912, col: 13, offset: 92773},
+													pos:        position{line: 2924, col: 13, offset: 93289},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2912, col: 20, offset: 92780},
+													pos:        position{line: 2924, col: 20, offset: 93296},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2912, col: 29, offset: 92789},
+													pos:        position{line: 2924, col: 29, offset: 93305},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -41676,23 +41676,23 @@ var g = &grammar{
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2490, col: 5, offset: 80840},
+						pos: position{line: 2502, col: 5, offset: 81356},
 						run: (*parser).callonQuotedTextElement144,
 						expr: &seqExpr{
-							pos: position{line: 2490, col: 5, offset: 80840},
+							pos: position{line: 2502, col: 5, offset: 81356},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2490, col: 5, offset: 80840},
+									pos: position{line: 2502, col: 5, offset: 81356},
 									run: (*parser).callonQuotedTextElement146,
 								},
 								&labeledExpr{
-									pos:   position{line: 2493, col: 5, offset: 80916},
+									pos:   position{line: 2505, col: 5, offset: 81432},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2494, col: 9, offset: 80934},
+										pos: position{line: 2506, col: 9, offset: 81450},
 										run: (*parser).callonQuotedTextElement148,
 										expr: &charClassMatcher{
-											pos:        position{line: 2494, col: 10, offset: 80935},
+											pos:        position{line: 2506, col: 10, offset: 81451},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -41747,10 +41747,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2842, col: 12, offset: 90909},
+						pos: position{line: 2854, col: 12, offset: 91425},
 						run: (*parser).callonQuotedTextElement159,
 						expr: &charClassMatcher{
-							pos:        position{line: 2842, col: 12, offset: 90909},
+							pos:        position{line: 2854, col: 12, offset: 91425},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -41814,9 +41814,9 @@ var g = &grammar{
 					pos: position{line: 1900, col: 5, offset: 61393},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2920, col: 11, offset: 92935},
+							pos: position{line: 2932, col: 11, offset: 93451},
 							expr: &anyMatcher{
-								line: 2920, col: 13, offset: 92937,
+								line: 2932, col: 13, offset: 93453,
 							},
 						},
 						&notExpr{
@@ -41842,12 +41842,12 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldText",
-			pos:  position{line: 1931, col: 1, offset: 62353},
+			pos:  position{line: 1934, col: 1, offset: 62482},
 			expr: &actionExpr{
-				pos: position{line: 1932, col: 5, offset: 62381},
+				pos: position{line: 1935, col: 5, offset: 62510},
 				run: (*parser).callonSingleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1932, col: 5, offset: 62381},
+					pos: position{line: 1935, col: 5, offset: 62510},
 					exprs: []interface{}{
 						&litMatcher{
 							pos:        position{line: 1911, col: 5, offset: 61684},
@@ -41874,33 +41874,47 @@ var g = &grammar{
 						&andExpr{
 							pos: position{line: 1917, col: 5, offset: 61897},
 							expr: &seqExpr{
-								pos: position{line: 1929, col: 41, offset: 62316},
+								pos: position{line: 1930, col: 5, offset: 62320},
 								exprs: []interface{}{
+									&actionExpr{
+										pos: position{line: 1930, col: 6, offset: 62321},
+										run: (*parser).callonSingleQuoteBoldText10,
+										expr: &litMatcher{
+											pos:        position{line: 1930, col: 6, offset: 62321},
+											val:        "",
+											ignoreCase: false,
+											want:       "\"\"",
+										},
+									},
+									&andCodeExpr{
+										pos: position{line: 1931, col: 5, offset: 62361},
+										run: (*parser).callonSingleQuoteBoldText12,
+									},
 									&zeroOrMoreExpr{
-										pos: position{line: 1929, col: 41, offset: 62316},
+										pos: position{line: 1932, col: 5, offset: 62404},
 										expr: &choiceExpr{
-											pos: position{line: 1929, col: 42, offset: 62317},
+											pos: position{line: 1932, col: 6, offset: 62405},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 1929, col: 42, offset: 62317},
+													pos:        position{line: 1932, col: 6, offset: 62405},
 													val:        "[^*]",
 													chars:      []rune{'*'},
 													ignoreCase: false,
 													inverted:   true,
 												},
 												&seqExpr{
-													pos: position{line: 1929, col: 49, offset: 62324},
+													pos: position{line: 1932, col: 13, offset: 62412},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 1929, col: 49, offset: 62324},
+															pos:        position{line: 1932, col: 13, offset: 62412},
 															val:        "*",
 															ignoreCase: false,
 															want:       "\"*\"",
 														},
 														&andExpr{
-															pos: position{line: 1929, col: 53, offset: 62328},
+															pos: position{line: 1932, col: 17, offset: 62416},
 															expr: &charClassMatcher{
-																pos:        position{line: 2786, col: 13, offset: 89482},
+																pos:        position{line: 2798, col: 13, offset: 89998},
 																val:        "[*\\pL\\pN]",
 																chars:      []rune{'*'},
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -41913,20 +41927,29 @@ var g = &grammar{
 											},
 										},
 									},
-									&litMatcher{
-										pos:        position{line: 1929, col: 73, offset: 62348},
-										val:        "*",
-										ignoreCase: false,
-										want:       "\"*\"",
+									&choiceExpr{
+										pos: position{line: 1932, col: 38, offset: 62437},
+										alternatives: []interface{}{
+											&litMatcher{
+												pos:        position{line: 1932, col: 38, offset: 62437},
+												val:        "*",
+												ignoreCase: false,
+												want:       "\"*\"",
+											},
+											&andCodeExpr{
+												pos: position{line: 1932, col: 44, offset: 62443},
+												run: (*parser).callonSingleQuoteBoldText22,
+											},
+										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1933, col: 5, offset: 62419},
+							pos:   position{line: 1936, col: 5, offset: 62548},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1933, col: 15, offset: 62429},
+								pos:  position{line: 1936, col: 15, offset: 62558},
 								name: "SingleQuoteBoldTextElements",
 							},
 						},
@@ -41947,14 +41970,14 @@ var g = &grammar{
 						},
 						&andCodeExpr{
 							pos: position{line: 1922, col: 5, offset: 62051},
-							run: (*parser).callonSingleQuoteBoldText23,
+							run: (*parser).callonSingleQuoteBoldText28,
 						},
 						&andExpr{
 							pos: position{line: 1926, col: 5, offset: 62160},
 							expr: &notExpr{
 								pos: position{line: 1926, col: 7, offset: 62162},
 								expr: &charClassMatcher{
-									pos:        position{line: 2786, col: 13, offset: 89482},
+									pos:        position{line: 2798, col: 13, offset: 89998},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -41968,20 +41991,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElements",
-			pos:  position{line: 1938, col: 1, offset: 62589},
+			pos:  position{line: 1941, col: 1, offset: 62718},
 			expr: &actionExpr{
-				pos: position{line: 1939, col: 5, offset: 62626},
+				pos: position{line: 1942, col: 5, offset: 62755},
 				run: (*parser).callonSingleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1939, col: 5, offset: 62626},
+					pos: position{line: 1942, col: 5, offset: 62755},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1939, col: 5, offset: 62626},
+							pos: position{line: 1942, col: 5, offset: 62755},
 							expr: &actionExpr{
-								pos: position{line: 2903, col: 10, offset: 92601},
+								pos: position{line: 2915, col: 10, offset: 93117},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2903, col: 10, offset: 92601},
+									pos:        position{line: 2915, col: 10, offset: 93117},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41990,18 +42013,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1940, col: 5, offset: 62665},
+							pos:   position{line: 1943, col: 5, offset: 62794},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1940, col: 14, offset: 62674},
+								pos: position{line: 1943, col: 14, offset: 62803},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1940, col: 15, offset: 62675},
+									pos:  position{line: 1943, col: 15, offset: 62804},
 									name: "SingleQuoteBoldTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1941, col: 5, offset: 62709},
+							pos: position{line: 1944, col: 5, offset: 62838},
 							run: (*parser).callonSingleQuoteBoldTextElements9,
 						},
 					},
@@ -42010,21 +42033,21 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElement",
-			pos:  position{line: 1947, col: 1, offset: 62850},
+			pos:  position{line: 1950, col: 1, offset: 62979},
 			expr: &actionExpr{
-				pos: position{line: 1948, col: 5, offset: 62885},
+				pos: position{line: 1951, col: 5, offset: 63014},
 				run: (*parser).callonSingleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1948, col: 5, offset: 62885},
+					pos: position{line: 1951, col: 5, offset: 63014},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2920, col: 11, offset: 92935},
+							pos: position{line: 2932, col: 11, offset: 93451},
 							expr: &anyMatcher{
-								line: 2920, col: 13, offset: 92937,
+								line: 2932, col: 13, offset: 93453,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1949, col: 5, offset: 62913},
+							pos: position{line: 1952, col: 5, offset: 63042},
 							expr: &seqExpr{
 								pos: position{line: 1920, col: 5, offset: 61978},
 								exprs: []interface{}{
@@ -42052,7 +42075,7 @@ var g = &grammar{
 										expr: &notExpr{
 											pos: position{line: 1926, col: 7, offset: 62162},
 											expr: &charClassMatcher{
-												pos:        position{line: 2786, col: 13, offset: 89482},
+												pos:        position{line: 2798, col: 13, offset: 89998},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42064,10 +42087,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1950, col: 5, offset: 62950},
+							pos:   position{line: 1953, col: 5, offset: 63079},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1950, col: 14, offset: 62959},
+								pos:  position{line: 1953, col: 14, offset: 63088},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42077,18 +42100,18 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedBoldText",
-			pos:  position{line: 1955, col: 1, offset: 63047},
+			pos:  position{line: 1958, col: 1, offset: 63176},
 			expr: &choiceExpr{
-				pos: position{line: 1957, col: 5, offset: 63108},
+				pos: position{line: 1960, col: 5, offset: 63237},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1957, col: 5, offset: 63108},
+						pos: position{line: 1960, col: 5, offset: 63237},
 						run: (*parser).callonEscapedBoldText2,
 						expr: &seqExpr{
-							pos: position{line: 1957, col: 5, offset: 63108},
+							pos: position{line: 1960, col: 5, offset: 63237},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1957, col: 5, offset: 63108},
+									pos:   position{line: 1960, col: 5, offset: 63237},
 									label: "backslashes",
 									expr: &actionExpr{
 										pos: position{line: 1859, col: 25, offset: 60232},
@@ -42116,21 +42139,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1957, col: 40, offset: 63143},
+									pos:        position{line: 1960, col: 40, offset: 63272},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1957, col: 45, offset: 63148},
+									pos:   position{line: 1960, col: 45, offset: 63277},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1957, col: 55, offset: 63158},
+										pos:  position{line: 1960, col: 55, offset: 63287},
 										name: "DoubleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1957, col: 84, offset: 63187},
+									pos:        position{line: 1960, col: 84, offset: 63316},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
@@ -42139,13 +42162,13 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1961, col: 7, offset: 63351},
+						pos: position{line: 1964, col: 7, offset: 63480},
 						run: (*parser).callonEscapedBoldText14,
 						expr: &seqExpr{
-							pos: position{line: 1961, col: 7, offset: 63351},
+							pos: position{line: 1964, col: 7, offset: 63480},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1961, col: 7, offset: 63351},
+									pos:   position{line: 1964, col: 7, offset: 63480},
 									label: "backslashes",
 									expr: &actionExpr{
 										pos: position{line: 1855, col: 25, offset: 60159},
@@ -42162,21 +42185,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1961, col: 42, offset: 63386},
+									pos:        position{line: 1964, col: 42, offset: 63515},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1961, col: 47, offset: 63391},
+									pos:   position{line: 1964, col: 47, offset: 63520},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1961, col: 57, offset: 63401},
+										pos:  position{line: 1964, col: 57, offset: 63530},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1961, col: 86, offset: 63430},
+									pos:        position{line: 1964, col: 86, offset: 63559},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -42185,13 +42208,13 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1966, col: 7, offset: 63632},
+						pos: position{line: 1969, col: 7, offset: 63761},
 						run: (*parser).callonEscapedBoldText24,
 						expr: &seqExpr{
-							pos: position{line: 1966, col: 7, offset: 63632},
+							pos: position{line: 1969, col: 7, offset: 63761},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1966, col: 7, offset: 63632},
+									pos:   position{line: 1969, col: 7, offset: 63761},
 									label: "backslashes",
 									expr: &actionExpr{
 										pos: position{line: 1855, col: 25, offset: 60159},
@@ -42208,41 +42231,55 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1966, col: 42, offset: 63667},
+									pos:        position{line: 1969, col: 42, offset: 63796},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
 								},
 								&andExpr{
-									pos: position{line: 1966, col: 46, offset: 63671},
+									pos: position{line: 1969, col: 46, offset: 63800},
 									expr: &seqExpr{
-										pos: position{line: 1929, col: 41, offset: 62316},
+										pos: position{line: 1930, col: 5, offset: 62320},
 										exprs: []interface{}{
+											&actionExpr{
+												pos: position{line: 1930, col: 6, offset: 62321},
+												run: (*parser).callonEscapedBoldText33,
+												expr: &litMatcher{
+													pos:        position{line: 1930, col: 6, offset: 62321},
+													val:        "",
+													ignoreCase: false,
+													want:       "\"\"",
+												},
+											},
+											&andCodeExpr{
+												pos: position{line: 1931, col: 5, offset: 62361},
+												run: (*parser).callonEscapedBoldText35,
+											},
 											&zeroOrMoreExpr{
-												pos: position{line: 1929, col: 41, offset: 62316},
+												pos: position{line: 1932, col: 5, offset: 62404},
 												expr: &choiceExpr{
-													pos: position{line: 1929, col: 42, offset: 62317},
+													pos: position{line: 1932, col: 6, offset: 62405},
 													alternatives: []interface{}{
 														&charClassMatcher{
-															pos:        position{line: 1929, col: 42, offset: 62317},
+															pos:        position{line: 1932, col: 6, offset: 62405},
 															val:        "[^*]",
 															chars:      []rune{'*'},
 															ignoreCase: false,
 															inverted:   true,
 														},
 														&seqExpr{
-															pos: position{line: 1929, col: 49, offset: 62324},
+															pos: position{line: 1932, col: 13, offset: 62412},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1929, col: 49, offset: 62324},
+																	pos:        position{line: 1932, col: 13, offset: 62412},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
 																},
 																&andExpr{
-																	pos: position{line: 1929, col: 53, offset: 62328},
+																	pos: position{line: 1932, col: 17, offset: 62416},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2786, col: 13, offset: 89482},
+																		pos:        position{line: 2798, col: 13, offset: 89998},
 																		val:        "[*\\pL\\pN]",
 																		chars:      []rune{'*'},
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -42255,25 +42292,34 @@ var g = &grammar{
 													},
 												},
 											},
-											&litMatcher{
-												pos:        position{line: 1929, col: 73, offset: 62348},
-												val:        "*",
-												ignoreCase: false,
-												want:       "\"*\"",
+											&choiceExpr{
+												pos: position{line: 1932, col: 38, offset: 62437},
+												alternatives: []interface{}{
+													&litMatcher{
+														pos:        position{line: 1932, col: 38, offset: 62437},
+														val:        "*",
+														ignoreCase: false,
+														want:       "\"*\"",
+													},
+													&andCodeExpr{
+														pos: position{line: 1932, col: 44, offset: 62443},
+														run: (*parser).callonEscapedBoldText45,
+													},
+												},
 											},
 										},
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1966, col: 86, offset: 63711},
+									pos:   position{line: 1969, col: 86, offset: 63840},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1966, col: 96, offset: 63721},
+										pos:  position{line: 1969, col: 96, offset: 63850},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1966, col: 125, offset: 63750},
+									pos:        position{line: 1969, col: 125, offset: 63879},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -42286,29 +42332,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicText",
-			pos:  position{line: 1983, col: 1, offset: 64230},
+			pos:  position{line: 1986, col: 1, offset: 64359},
 			expr: &actionExpr{
-				pos: position{line: 1984, col: 5, offset: 64260},
+				pos: position{line: 1987, col: 5, offset: 64389},
 				run: (*parser).callonDoubleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 1984, col: 5, offset: 64260},
+					pos: position{line: 1987, col: 5, offset: 64389},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1979, col: 40, offset: 64181},
+							pos:        position{line: 1982, col: 40, offset: 64310},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1985, col: 5, offset: 64301},
+							pos:   position{line: 1988, col: 5, offset: 64430},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1985, col: 15, offset: 64311},
+								pos:  position{line: 1988, col: 15, offset: 64440},
 								name: "DoubleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1981, col: 38, offset: 64224},
+							pos:        position{line: 1984, col: 38, offset: 64353},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
@@ -42319,44 +42365,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElements",
-			pos:  position{line: 1990, col: 1, offset: 64476},
+			pos:  position{line: 1993, col: 1, offset: 64605},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1990, col: 34, offset: 64509},
+				pos: position{line: 1993, col: 34, offset: 64638},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1990, col: 34, offset: 64509},
+					pos:  position{line: 1993, col: 34, offset: 64638},
 					name: "DoubleQuoteItalicTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteItalicTextElement",
-			pos:  position{line: 1992, col: 1, offset: 64541},
+			pos:  position{line: 1995, col: 1, offset: 64670},
 			expr: &actionExpr{
-				pos: position{line: 1993, col: 5, offset: 64578},
+				pos: position{line: 1996, col: 5, offset: 64707},
 				run: (*parser).callonDoubleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1993, col: 5, offset: 64578},
+					pos: position{line: 1996, col: 5, offset: 64707},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2920, col: 11, offset: 92935},
+							pos: position{line: 2932, col: 11, offset: 93451},
 							expr: &anyMatcher{
-								line: 2920, col: 13, offset: 92937,
+								line: 2932, col: 13, offset: 93453,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1994, col: 5, offset: 64589},
+							pos: position{line: 1997, col: 5, offset: 64718},
 							expr: &litMatcher{
-								pos:        position{line: 1981, col: 38, offset: 64224},
+								pos:        position{line: 1984, col: 38, offset: 64353},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1995, col: 5, offset: 64628},
+							pos:   position{line: 1998, col: 5, offset: 64757},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1995, col: 14, offset: 64637},
+								pos:  position{line: 1998, col: 14, offset: 64766},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42366,29 +42412,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicText",
-			pos:  position{line: 2024, col: 1, offset: 65543},
+			pos:  position{line: 2030, col: 1, offset: 65801},
 			expr: &actionExpr{
-				pos: position{line: 2025, col: 5, offset: 65573},
+				pos: position{line: 2031, col: 5, offset: 65831},
 				run: (*parser).callonSingleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2025, col: 5, offset: 65573},
+					pos: position{line: 2031, col: 5, offset: 65831},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2004, col: 5, offset: 64879},
+							pos:        position{line: 2007, col: 5, offset: 65008},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2005, col: 5, offset: 64888},
+							pos: position{line: 2008, col: 5, offset: 65017},
 							run: (*parser).callonSingleQuoteItalicText4,
 						},
 						&andExpr{
-							pos: position{line: 2009, col: 5, offset: 65008},
+							pos: position{line: 2012, col: 5, offset: 65137},
 							expr: &notExpr{
-								pos: position{line: 2009, col: 7, offset: 65010},
+								pos: position{line: 2012, col: 7, offset: 65139},
 								expr: &litMatcher{
-									pos:        position{line: 2009, col: 8, offset: 65011},
+									pos:        position{line: 2012, col: 8, offset: 65140},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -42396,35 +42442,49 @@ var g = &grammar{
 							},
 						},
 						&andExpr{
-							pos: position{line: 2010, col: 5, offset: 65077},
+							pos: position{line: 2013, col: 5, offset: 65206},
 							expr: &seqExpr{
-								pos: position{line: 2022, col: 43, offset: 65506},
+								pos: position{line: 2026, col: 5, offset: 65639},
 								exprs: []interface{}{
+									&actionExpr{
+										pos: position{line: 2026, col: 6, offset: 65640},
+										run: (*parser).callonSingleQuoteItalicText10,
+										expr: &litMatcher{
+											pos:        position{line: 2026, col: 6, offset: 65640},
+											val:        "",
+											ignoreCase: false,
+											want:       "\"\"",
+										},
+									},
+									&andCodeExpr{
+										pos: position{line: 2027, col: 5, offset: 65680},
+										run: (*parser).callonSingleQuoteItalicText12,
+									},
 									&zeroOrMoreExpr{
-										pos: position{line: 2022, col: 43, offset: 65506},
+										pos: position{line: 2028, col: 5, offset: 65723},
 										expr: &choiceExpr{
-											pos: position{line: 2022, col: 44, offset: 65507},
+											pos: position{line: 2028, col: 6, offset: 65724},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2022, col: 44, offset: 65507},
+													pos:        position{line: 2028, col: 6, offset: 65724},
 													val:        "[^_]",
 													chars:      []rune{'_'},
 													ignoreCase: false,
 													inverted:   true,
 												},
 												&seqExpr{
-													pos: position{line: 2022, col: 51, offset: 65514},
+													pos: position{line: 2028, col: 13, offset: 65731},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2022, col: 51, offset: 65514},
+															pos:        position{line: 2028, col: 13, offset: 65731},
 															val:        "_",
 															ignoreCase: false,
 															want:       "\"_\"",
 														},
 														&andExpr{
-															pos: position{line: 2022, col: 55, offset: 65518},
+															pos: position{line: 2028, col: 17, offset: 65735},
 															expr: &charClassMatcher{
-																pos:        position{line: 2786, col: 13, offset: 89482},
+																pos:        position{line: 2798, col: 13, offset: 89998},
 																val:        "[_\\pL\\pN]",
 																chars:      []rune{'_'},
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -42437,48 +42497,57 @@ var g = &grammar{
 											},
 										},
 									},
-									&litMatcher{
-										pos:        position{line: 2022, col: 75, offset: 65538},
-										val:        "_",
-										ignoreCase: false,
-										want:       "\"_\"",
+									&choiceExpr{
+										pos: position{line: 2028, col: 38, offset: 65756},
+										alternatives: []interface{}{
+											&litMatcher{
+												pos:        position{line: 2028, col: 38, offset: 65756},
+												val:        "_",
+												ignoreCase: false,
+												want:       "\"_\"",
+											},
+											&andCodeExpr{
+												pos: position{line: 2028, col: 44, offset: 65762},
+												run: (*parser).callonSingleQuoteItalicText22,
+											},
+										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2026, col: 5, offset: 65613},
+							pos:   position{line: 2032, col: 5, offset: 65871},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2026, col: 15, offset: 65623},
+								pos:  position{line: 2032, col: 15, offset: 65881},
 								name: "SingleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2013, col: 5, offset: 65162},
+							pos:        position{line: 2016, col: 5, offset: 65291},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&notExpr{
-							pos: position{line: 2014, col: 5, offset: 65171},
+							pos: position{line: 2017, col: 5, offset: 65300},
 							expr: &litMatcher{
-								pos:        position{line: 2014, col: 6, offset: 65172},
+								pos:        position{line: 2017, col: 6, offset: 65301},
 								val:        "_",
 								ignoreCase: false,
 								want:       "\"_\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2015, col: 5, offset: 65237},
-							run: (*parser).callonSingleQuoteItalicText23,
+							pos: position{line: 2018, col: 5, offset: 65366},
+							run: (*parser).callonSingleQuoteItalicText28,
 						},
 						&andExpr{
-							pos: position{line: 2019, col: 5, offset: 65348},
+							pos: position{line: 2022, col: 5, offset: 65477},
 							expr: &notExpr{
-								pos: position{line: 2019, col: 7, offset: 65350},
+								pos: position{line: 2022, col: 7, offset: 65479},
 								expr: &charClassMatcher{
-									pos:        position{line: 2786, col: 13, offset: 89482},
+									pos:        position{line: 2798, col: 13, offset: 89998},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -42492,20 +42561,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElements",
-			pos:  position{line: 2031, col: 1, offset: 65790},
+			pos:  position{line: 2037, col: 1, offset: 66048},
 			expr: &actionExpr{
-				pos: position{line: 2032, col: 5, offset: 65828},
+				pos: position{line: 2038, col: 5, offset: 66086},
 				run: (*parser).callonSingleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2032, col: 5, offset: 65828},
+					pos: position{line: 2038, col: 5, offset: 66086},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2032, col: 5, offset: 65828},
+							pos: position{line: 2038, col: 5, offset: 66086},
 							expr: &actionExpr{
-								pos: position{line: 2903, col: 10, offset: 92601},
+								pos: position{line: 2915, col: 10, offset: 93117},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2903, col: 10, offset: 92601},
+									pos:        position{line: 2915, col: 10, offset: 93117},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42514,18 +42583,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2033, col: 5, offset: 65867},
+							pos:   position{line: 2039, col: 5, offset: 66125},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2033, col: 14, offset: 65876},
+								pos: position{line: 2039, col: 14, offset: 66134},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2033, col: 15, offset: 65877},
+									pos:  position{line: 2039, col: 15, offset: 66135},
 									name: "SingleQuoteItalicTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2034, col: 5, offset: 65912},
+							pos: position{line: 2040, col: 5, offset: 66170},
 							run: (*parser).callonSingleQuoteItalicTextElements9,
 						},
 					},
@@ -42534,49 +42603,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElement",
-			pos:  position{line: 2040, col: 1, offset: 66053},
+			pos:  position{line: 2046, col: 1, offset: 66311},
 			expr: &actionExpr{
-				pos: position{line: 2041, col: 5, offset: 66090},
+				pos: position{line: 2047, col: 5, offset: 66348},
 				run: (*parser).callonSingleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2041, col: 5, offset: 66090},
+					pos: position{line: 2047, col: 5, offset: 66348},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2920, col: 11, offset: 92935},
+							pos: position{line: 2932, col: 11, offset: 93451},
 							expr: &anyMatcher{
-								line: 2920, col: 13, offset: 92937,
+								line: 2932, col: 13, offset: 93453,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2042, col: 5, offset: 66101},
+							pos: position{line: 2048, col: 5, offset: 66359},
 							expr: &seqExpr{
-								pos: position{line: 2013, col: 5, offset: 65162},
+								pos: position{line: 2016, col: 5, offset: 65291},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2013, col: 5, offset: 65162},
+										pos:        position{line: 2016, col: 5, offset: 65291},
 										val:        "_",
 										ignoreCase: false,
 										want:       "\"_\"",
 									},
 									&notExpr{
-										pos: position{line: 2014, col: 5, offset: 65171},
+										pos: position{line: 2017, col: 5, offset: 65300},
 										expr: &litMatcher{
-											pos:        position{line: 2014, col: 6, offset: 65172},
+											pos:        position{line: 2017, col: 6, offset: 65301},
 											val:        "_",
 											ignoreCase: false,
 											want:       "\"_\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2015, col: 5, offset: 65237},
+										pos: position{line: 2018, col: 5, offset: 65366},
 										run: (*parser).callonSingleQuoteItalicTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2019, col: 5, offset: 65348},
+										pos: position{line: 2022, col: 5, offset: 65477},
 										expr: &notExpr{
-											pos: position{line: 2019, col: 7, offset: 65350},
+											pos: position{line: 2022, col: 7, offset: 65479},
 											expr: &charClassMatcher{
-												pos:        position{line: 2786, col: 13, offset: 89482},
+												pos:        position{line: 2798, col: 13, offset: 89998},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42588,10 +42657,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2043, col: 5, offset: 66140},
+							pos:   position{line: 2049, col: 5, offset: 66398},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2043, col: 14, offset: 66149},
+								pos:  position{line: 2049, col: 14, offset: 66407},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42601,18 +42670,18 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedItalicText",
-			pos:  position{line: 2048, col: 1, offset: 66237},
+			pos:  position{line: 2054, col: 1, offset: 66495},
 			expr: &choiceExpr{
-				pos: position{line: 2050, col: 5, offset: 66302},
+				pos: position{line: 2056, col: 5, offset: 66560},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2050, col: 5, offset: 66302},
+						pos: position{line: 2056, col: 5, offset: 66560},
 						run: (*parser).callonEscapedItalicText2,
 						expr: &seqExpr{
-							pos: position{line: 2050, col: 5, offset: 66302},
+							pos: position{line: 2056, col: 5, offset: 66560},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2050, col: 5, offset: 66302},
+									pos:   position{line: 2056, col: 5, offset: 66560},
 									label: "backslashes",
 									expr: &actionExpr{
 										pos: position{line: 1859, col: 25, offset: 60232},
@@ -42640,21 +42709,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2050, col: 40, offset: 66337},
+									pos:        position{line: 2056, col: 40, offset: 66595},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2050, col: 45, offset: 66342},
+									pos:   position{line: 2056, col: 45, offset: 66600},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2050, col: 55, offset: 66352},
+										pos:  position{line: 2056, col: 55, offset: 66610},
 										name: "DoubleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2050, col: 86, offset: 66383},
+									pos:        position{line: 2056, col: 86, offset: 66641},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
@@ -42663,13 +42732,13 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2054, col: 7, offset: 66548},
+						pos: position{line: 2060, col: 7, offset: 66806},
 						run: (*parser).callonEscapedItalicText14,
 						expr: &seqExpr{
-							pos: position{line: 2054, col: 7, offset: 66548},
+							pos: position{line: 2060, col: 7, offset: 66806},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2054, col: 7, offset: 66548},
+									pos:   position{line: 2060, col: 7, offset: 66806},
 									label: "backslashes",
 									expr: &actionExpr{
 										pos: position{line: 1855, col: 25, offset: 60159},
@@ -42686,21 +42755,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2054, col: 42, offset: 66583},
+									pos:        position{line: 2060, col: 42, offset: 66841},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2054, col: 47, offset: 66588},
+									pos:   position{line: 2060, col: 47, offset: 66846},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2054, col: 57, offset: 66598},
+										pos:  position{line: 2060, col: 57, offset: 66856},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2054, col: 88, offset: 66629},
+									pos:        position{line: 2060, col: 88, offset: 66887},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -42709,13 +42778,13 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2059, col: 7, offset: 66870},
+						pos: position{line: 2065, col: 7, offset: 67128},
 						run: (*parser).callonEscapedItalicText24,
 						expr: &seqExpr{
-							pos: position{line: 2059, col: 7, offset: 66870},
+							pos: position{line: 2065, col: 7, offset: 67128},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2059, col: 7, offset: 66870},
+									pos:   position{line: 2065, col: 7, offset: 67128},
 									label: "backslashes",
 									expr: &actionExpr{
 										pos: position{line: 1855, col: 25, offset: 60159},
@@ -42732,41 +42801,55 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2059, col: 42, offset: 66905},
+									pos:        position{line: 2065, col: 42, offset: 67163},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
 								&andExpr{
-									pos: position{line: 2059, col: 46, offset: 66909},
+									pos: position{line: 2065, col: 46, offset: 67167},
 									expr: &seqExpr{
-										pos: position{line: 2022, col: 43, offset: 65506},
+										pos: position{line: 2026, col: 5, offset: 65639},
 										exprs: []interface{}{
+											&actionExpr{
+												pos: position{line: 2026, col: 6, offset: 65640},
+												run: (*parser).callonEscapedItalicText33,
+												expr: &litMatcher{
+													pos:        position{line: 2026, col: 6, offset: 65640},
+													val:        "",
+													ignoreCase: false,
+													want:       "\"\"",
+												},
+											},
+											&andCodeExpr{
+												pos: position{line: 2027, col: 5, offset: 65680},
+												run: (*parser).callonEscapedItalicText35,
+											},
 											&zeroOrMoreExpr{
-												pos: position{line: 2022, col: 43, offset: 65506},
+												pos: position{line: 2028, col: 5, offset: 65723},
 												expr: &choiceExpr{
-													pos: position{line: 2022, col: 44, offset: 65507},
+													pos: position{line: 2028, col: 6, offset: 65724},
 													alternatives: []interface{}{
 														&charClassMatcher{
-															pos:        position{line: 2022, col: 44, offset: 65507},
+															pos:        position{line: 2028, col: 6, offset: 65724},
 															val:        "[^_]",
 															chars:      []rune{'_'},
 															ignoreCase: false,
 															inverted:   true,
 														},
 														&seqExpr{
-															pos: position{line: 2022, col: 51, offset: 65514},
+															pos: position{line: 2028, col: 13, offset: 65731},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2022, col: 51, offset: 65514},
+																	pos:        position{line: 2028, col: 13, offset: 65731},
 																	val:        "_",
 																	ignoreCase: false,
 																	want:       "\"_\"",
 																},
 																&andExpr{
-																	pos: position{line: 2022, col: 55, offset: 65518},
+																	pos: position{line: 2028, col: 17, offset: 65735},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2786, col: 13, offset: 89482},
+																		pos:        position{line: 2798, col: 13, offset: 89998},
 																		val:        "[_\\pL\\pN]",
 																		chars:      []rune{'_'},
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -42779,25 +42862,34 @@ var g = &grammar{
 													},
 												},
 											},
-											&litMatcher{
-												pos:        position{line: 2022, col: 75, offset: 65538},
-												val:        "_",
-												ignoreCase: false,
-												want:       "\"_\"",
+											&choiceExpr{
+												pos: position{line: 2028, col: 38, offset: 65756},
+												alternatives: []interface{}{
+													&litMatcher{
+														pos:        position{line: 2028, col: 38, offset: 65756},
+														val:        "_",
+														ignoreCase: false,
+														want:       "\"_\"",
+													},
+													&andCodeExpr{
+														pos: position{line: 2028, col: 44, offset: 65762},
+														run: (*parser).callonEscapedItalicText45,
+													},
+												},
 											},
 										},
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 2059, col: 88, offset: 66951},
+									pos:   position{line: 2065, col: 88, offset: 67209},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2059, col: 98, offset: 66961},
+										pos:  position{line: 2065, col: 98, offset: 67219},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2059, col: 129, offset: 66992},
+									pos:        position{line: 2065, col: 129, offset: 67250},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -42810,29 +42902,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceText",
-			pos:  position{line: 2076, col: 1, offset: 67556},
+			pos:  position{line: 2082, col: 1, offset: 67814},
 			expr: &actionExpr{
-				pos: position{line: 2077, col: 5, offset: 67589},
+				pos: position{line: 2083, col: 5, offset: 67847},
 				run: (*parser).callonDoubleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2077, col: 5, offset: 67589},
+					pos: position{line: 2083, col: 5, offset: 67847},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2072, col: 43, offset: 67504},
+							pos:        position{line: 2078, col: 43, offset: 67762},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2078, col: 5, offset: 67633},
+							pos:   position{line: 2084, col: 5, offset: 67891},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2078, col: 15, offset: 67643},
+								pos:  position{line: 2084, col: 15, offset: 67901},
 								name: "DoubleQuoteMonospaceTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2074, col: 41, offset: 67550},
+							pos:        position{line: 2080, col: 41, offset: 67808},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
@@ -42843,44 +42935,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElements",
-			pos:  position{line: 2083, col: 1, offset: 67818},
+			pos:  position{line: 2089, col: 1, offset: 68076},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 2083, col: 37, offset: 67854},
+				pos: position{line: 2089, col: 37, offset: 68112},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2083, col: 37, offset: 67854},
+					pos:  position{line: 2089, col: 37, offset: 68112},
 					name: "DoubleQuoteMonospaceTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElement",
-			pos:  position{line: 2085, col: 1, offset: 67921},
+			pos:  position{line: 2091, col: 1, offset: 68179},
 			expr: &actionExpr{
-				pos: position{line: 2086, col: 5, offset: 67961},
+				pos: position{line: 2092, col: 5, offset: 68219},
 				run: (*parser).callonDoubleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2086, col: 5, offset: 67961},
+					pos: position{line: 2092, col: 5, offset: 68219},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2920, col: 11, offset: 92935},
+							pos: position{line: 2932, col: 11, offset: 93451},
 							expr: &anyMatcher{
-								line: 2920, col: 13, offset: 92937,
+								line: 2932, col: 13, offset: 93453,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2087, col: 5, offset: 67972},
+							pos: position{line: 2093, col: 5, offset: 68230},
 							expr: &litMatcher{
-								pos:        position{line: 2074, col: 41, offset: 67550},
+								pos:        position{line: 2080, col: 41, offset: 67808},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2088, col: 5, offset: 68014},
+							pos:   position{line: 2094, col: 5, offset: 68272},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2088, col: 14, offset: 68023},
+								pos:  position{line: 2094, col: 14, offset: 68281},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42890,33 +42982,33 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextEndDelimiter",
-			pos:  position{line: 2107, col: 1, offset: 68614},
+			pos:  position{line: 2113, col: 1, offset: 68872},
 			expr: &seqExpr{
-				pos: position{line: 2108, col: 5, offset: 68659},
+				pos: position{line: 2114, col: 5, offset: 68917},
 				exprs: []interface{}{
 					&notExpr{
-						pos: position{line: 2108, col: 5, offset: 68659},
+						pos: position{line: 2114, col: 5, offset: 68917},
 						expr: &ruleRefExpr{
-							pos:  position{line: 2108, col: 6, offset: 68660},
+							pos:  position{line: 2114, col: 6, offset: 68918},
 							name: "QuotationMark",
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 2109, col: 5, offset: 68679},
+						pos:        position{line: 2115, col: 5, offset: 68937},
 						val:        "`",
 						ignoreCase: false,
 						want:       "\"`\"",
 					},
 					&andCodeExpr{
-						pos: position{line: 2110, col: 5, offset: 68687},
+						pos: position{line: 2116, col: 5, offset: 68945},
 						run: (*parser).callonSingleQuoteMonospaceTextEndDelimiter5,
 					},
 					&andExpr{
-						pos: position{line: 2114, col: 5, offset: 68801},
+						pos: position{line: 2120, col: 5, offset: 69059},
 						expr: &notExpr{
-							pos: position{line: 2114, col: 7, offset: 68803},
+							pos: position{line: 2120, col: 7, offset: 69061},
 							expr: &charClassMatcher{
-								pos:        position{line: 2786, col: 13, offset: 89482},
+								pos:        position{line: 2798, col: 13, offset: 89998},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -42929,29 +43021,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceText",
-			pos:  position{line: 2120, col: 1, offset: 68996},
+			pos:  position{line: 2129, col: 1, offset: 69383},
 			expr: &actionExpr{
-				pos: position{line: 2121, col: 5, offset: 69029},
+				pos: position{line: 2130, col: 5, offset: 69416},
 				run: (*parser).callonSingleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2121, col: 5, offset: 69029},
+					pos: position{line: 2130, col: 5, offset: 69416},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2099, col: 5, offset: 68367},
+							pos:        position{line: 2105, col: 5, offset: 68625},
 							val:        "`",
 							ignoreCase: false,
 							want:       "\"`\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2100, col: 5, offset: 68376},
+							pos: position{line: 2106, col: 5, offset: 68634},
 							run: (*parser).callonSingleQuoteMonospaceText4,
 						},
 						&andExpr{
-							pos: position{line: 2104, col: 5, offset: 68499},
+							pos: position{line: 2110, col: 5, offset: 68757},
 							expr: &notExpr{
-								pos: position{line: 2104, col: 7, offset: 68501},
+								pos: position{line: 2110, col: 7, offset: 68759},
 								expr: &litMatcher{
-									pos:        position{line: 2104, col: 8, offset: 68502},
+									pos:        position{line: 2110, col: 8, offset: 68760},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42959,35 +43051,49 @@ var g = &grammar{
 							},
 						},
 						&andExpr{
-							pos: position{line: 2105, col: 5, offset: 68568},
+							pos: position{line: 2111, col: 5, offset: 68826},
 							expr: &seqExpr{
-								pos: position{line: 2118, col: 46, offset: 68967},
+								pos: position{line: 2125, col: 5, offset: 69229},
 								exprs: []interface{}{
+									&actionExpr{
+										pos: position{line: 2125, col: 6, offset: 69230},
+										run: (*parser).callonSingleQuoteMonospaceText10,
+										expr: &litMatcher{
+											pos:        position{line: 2125, col: 6, offset: 69230},
+											val:        "",
+											ignoreCase: false,
+											want:       "\"\"",
+										},
+									},
+									&andCodeExpr{
+										pos: position{line: 2126, col: 5, offset: 69270},
+										run: (*parser).callonSingleQuoteMonospaceText12,
+									},
 									&zeroOrMoreExpr{
-										pos: position{line: 2118, col: 46, offset: 68967},
+										pos: position{line: 2127, col: 5, offset: 69313},
 										expr: &choiceExpr{
-											pos: position{line: 2118, col: 47, offset: 68968},
+											pos: position{line: 2127, col: 6, offset: 69314},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2118, col: 47, offset: 68968},
+													pos:        position{line: 2127, col: 6, offset: 69314},
 													val:        "[^`]",
 													chars:      []rune{'`'},
 													ignoreCase: false,
 													inverted:   true,
 												},
 												&seqExpr{
-													pos: position{line: 2118, col: 54, offset: 68975},
+													pos: position{line: 2127, col: 13, offset: 69321},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2118, col: 54, offset: 68975},
+															pos:        position{line: 2127, col: 13, offset: 69321},
 															val:        "`",
 															ignoreCase: false,
 															want:       "\"`\"",
 														},
 														&andExpr{
-															pos: position{line: 2118, col: 58, offset: 68979},
+															pos: position{line: 2127, col: 17, offset: 69325},
 															expr: &charClassMatcher{
-																pos:        position{line: 2786, col: 13, offset: 89482},
+																pos:        position{line: 2798, col: 13, offset: 89998},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -42999,25 +43105,34 @@ var g = &grammar{
 											},
 										},
 									},
-									&litMatcher{
-										pos:        position{line: 2118, col: 70, offset: 68991},
-										val:        "`",
-										ignoreCase: false,
-										want:       "\"`\"",
+									&choiceExpr{
+										pos: position{line: 2127, col: 30, offset: 69338},
+										alternatives: []interface{}{
+											&litMatcher{
+												pos:        position{line: 2127, col: 30, offset: 69338},
+												val:        "`",
+												ignoreCase: false,
+												want:       "\"`\"",
+											},
+											&andCodeExpr{
+												pos: position{line: 2127, col: 36, offset: 69344},
+												run: (*parser).callonSingleQuoteMonospaceText22,
+											},
+										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2122, col: 5, offset: 69073},
+							pos:   position{line: 2131, col: 5, offset: 69460},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2122, col: 15, offset: 69083},
+								pos:  position{line: 2131, col: 15, offset: 69470},
 								name: "SingleQuoteMonospaceTextElements",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 2123, col: 5, offset: 69122},
+							pos:  position{line: 2132, col: 5, offset: 69509},
 							name: "SingleQuoteMonospaceTextEndDelimiter",
 						},
 					},
@@ -43026,20 +43141,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElements",
-			pos:  position{line: 2127, col: 1, offset: 69259},
+			pos:  position{line: 2136, col: 1, offset: 69646},
 			expr: &actionExpr{
-				pos: position{line: 2128, col: 5, offset: 69300},
+				pos: position{line: 2137, col: 5, offset: 69687},
 				run: (*parser).callonSingleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2128, col: 5, offset: 69300},
+					pos: position{line: 2137, col: 5, offset: 69687},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2128, col: 5, offset: 69300},
+							pos: position{line: 2137, col: 5, offset: 69687},
 							expr: &actionExpr{
-								pos: position{line: 2903, col: 10, offset: 92601},
+								pos: position{line: 2915, col: 10, offset: 93117},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2903, col: 10, offset: 92601},
+									pos:        position{line: 2915, col: 10, offset: 93117},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43048,18 +43163,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2129, col: 5, offset: 69339},
+							pos:   position{line: 2138, col: 5, offset: 69726},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2129, col: 14, offset: 69348},
+								pos: position{line: 2138, col: 14, offset: 69735},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2129, col: 15, offset: 69349},
+									pos:  position{line: 2138, col: 15, offset: 69736},
 									name: "SingleQuoteMonospaceTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2130, col: 5, offset: 69387},
+							pos: position{line: 2139, col: 5, offset: 69774},
 							run: (*parser).callonSingleQuoteMonospaceTextElements9,
 						},
 					},
@@ -43068,31 +43183,31 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElement",
-			pos:  position{line: 2136, col: 1, offset: 69528},
+			pos:  position{line: 2145, col: 1, offset: 69915},
 			expr: &actionExpr{
-				pos: position{line: 2137, col: 5, offset: 69568},
+				pos: position{line: 2146, col: 5, offset: 69955},
 				run: (*parser).callonSingleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2137, col: 5, offset: 69568},
+					pos: position{line: 2146, col: 5, offset: 69955},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2920, col: 11, offset: 92935},
+							pos: position{line: 2932, col: 11, offset: 93451},
 							expr: &anyMatcher{
-								line: 2920, col: 13, offset: 92937,
+								line: 2932, col: 13, offset: 93453,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2138, col: 5, offset: 69579},
+							pos: position{line: 2147, col: 5, offset: 69966},
 							expr: &ruleRefExpr{
-								pos:  position{line: 2138, col: 6, offset: 69580},
+								pos:  position{line: 2147, col: 6, offset: 69967},
 								name: "SingleQuoteMonospaceTextEndDelimiter",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2139, col: 5, offset: 69621},
+							pos:   position{line: 2148, col: 5, offset: 70008},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2139, col: 14, offset: 69630},
+								pos:  position{line: 2148, col: 14, offset: 70017},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43102,18 +43217,18 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMonospaceText",
-			pos:  position{line: 2144, col: 1, offset: 69718},
+			pos:  position{line: 2153, col: 1, offset: 70105},
 			expr: &choiceExpr{
-				pos: position{line: 2146, col: 5, offset: 69789},
+				pos: position{line: 2155, col: 5, offset: 70176},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2146, col: 5, offset: 69789},
+						pos: position{line: 2155, col: 5, offset: 70176},
 						run: (*parser).callonEscapedMonospaceText2,
 						expr: &seqExpr{
-							pos: position{line: 2146, col: 5, offset: 69789},
+							pos: position{line: 2155, col: 5, offset: 70176},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2146, col: 5, offset: 69789},
+									pos:   position{line: 2155, col: 5, offset: 70176},
 									label: "backslashes",
 									expr: &actionExpr{
 										pos: position{line: 1859, col: 25, offset: 60232},
@@ -43141,21 +43256,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2146, col: 40, offset: 69824},
+									pos:        position{line: 2155, col: 40, offset: 70211},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2146, col: 45, offset: 69829},
+									pos:   position{line: 2155, col: 45, offset: 70216},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2146, col: 55, offset: 69839},
+										pos:  position{line: 2155, col: 55, offset: 70226},
 										name: "DoubleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2146, col: 89, offset: 69873},
+									pos:        position{line: 2155, col: 89, offset: 70260},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
@@ -43164,13 +43279,13 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2150, col: 7, offset: 70042},
+						pos: position{line: 2159, col: 7, offset: 70429},
 						run: (*parser).callonEscapedMonospaceText14,
 						expr: &seqExpr{
-							pos: position{line: 2150, col: 7, offset: 70042},
+							pos: position{line: 2159, col: 7, offset: 70429},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2150, col: 7, offset: 70042},
+									pos:   position{line: 2159, col: 7, offset: 70429},
 									label: "backslashes",
 									expr: &actionExpr{
 										pos: position{line: 1855, col: 25, offset: 60159},
@@ -43187,21 +43302,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2150, col: 42, offset: 70077},
+									pos:        position{line: 2159, col: 42, offset: 70464},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2150, col: 47, offset: 70082},
+									pos:   position{line: 2159, col: 47, offset: 70469},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2150, col: 57, offset: 70092},
+										pos:  position{line: 2159, col: 57, offset: 70479},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2150, col: 91, offset: 70126},
+									pos:        position{line: 2159, col: 91, offset: 70513},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -43210,13 +43325,13 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2155, col: 7, offset: 70332},
+						pos: position{line: 2164, col: 7, offset: 70719},
 						run: (*parser).callonEscapedMonospaceText24,
 						expr: &seqExpr{
-							pos: position{line: 2155, col: 7, offset: 70332},
+							pos: position{line: 2164, col: 7, offset: 70719},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2155, col: 7, offset: 70332},
+									pos:   position{line: 2164, col: 7, offset: 70719},
 									label: "backslashes",
 									expr: &actionExpr{
 										pos: position{line: 1855, col: 25, offset: 60159},
@@ -43233,41 +43348,55 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2155, col: 42, offset: 70367},
+									pos:        position{line: 2164, col: 42, offset: 70754},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
 								},
 								&andExpr{
-									pos: position{line: 2155, col: 46, offset: 70371},
+									pos: position{line: 2164, col: 46, offset: 70758},
 									expr: &seqExpr{
-										pos: position{line: 2118, col: 46, offset: 68967},
+										pos: position{line: 2125, col: 5, offset: 69229},
 										exprs: []interface{}{
+											&actionExpr{
+												pos: position{line: 2125, col: 6, offset: 69230},
+												run: (*parser).callonEscapedMonospaceText33,
+												expr: &litMatcher{
+													pos:        position{line: 2125, col: 6, offset: 69230},
+													val:        "",
+													ignoreCase: false,
+													want:       "\"\"",
+												},
+											},
+											&andCodeExpr{
+												pos: position{line: 2126, col: 5, offset: 69270},
+												run: (*parser).callonEscapedMonospaceText35,
+											},
 											&zeroOrMoreExpr{
-												pos: position{line: 2118, col: 46, offset: 68967},
+												pos: position{line: 2127, col: 5, offset: 69313},
 												expr: &choiceExpr{
-													pos: position{line: 2118, col: 47, offset: 68968},
+													pos: position{line: 2127, col: 6, offset: 69314},
 													alternatives: []interface{}{
 														&charClassMatcher{
-															pos:        position{line: 2118, col: 47, offset: 68968},
+															pos:        position{line: 2127, col: 6, offset: 69314},
 															val:        "[^`]",
 															chars:      []rune{'`'},
 															ignoreCase: false,
 															inverted:   true,
 														},
 														&seqExpr{
-															pos: position{line: 2118, col: 54, offset: 68975},
+															pos: position{line: 2127, col: 13, offset: 69321},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2118, col: 54, offset: 68975},
+																	pos:        position{line: 2127, col: 13, offset: 69321},
 																	val:        "`",
 																	ignoreCase: false,
 																	want:       "\"`\"",
 																},
 																&andExpr{
-																	pos: position{line: 2118, col: 58, offset: 68979},
+																	pos: position{line: 2127, col: 17, offset: 69325},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2786, col: 13, offset: 89482},
+																		pos:        position{line: 2798, col: 13, offset: 89998},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -43279,25 +43408,34 @@ var g = &grammar{
 													},
 												},
 											},
-											&litMatcher{
-												pos:        position{line: 2118, col: 70, offset: 68991},
-												val:        "`",
-												ignoreCase: false,
-												want:       "\"`\"",
+											&choiceExpr{
+												pos: position{line: 2127, col: 30, offset: 69338},
+												alternatives: []interface{}{
+													&litMatcher{
+														pos:        position{line: 2127, col: 30, offset: 69338},
+														val:        "`",
+														ignoreCase: false,
+														want:       "\"`\"",
+													},
+													&andCodeExpr{
+														pos: position{line: 2127, col: 36, offset: 69344},
+														run: (*parser).callonEscapedMonospaceText45,
+													},
+												},
 											},
 										},
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 2155, col: 91, offset: 70416},
+									pos:   position{line: 2164, col: 91, offset: 70803},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2155, col: 101, offset: 70426},
+										pos:  position{line: 2164, col: 101, offset: 70813},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2155, col: 135, offset: 70460},
+									pos:        position{line: 2164, col: 135, offset: 70847},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -43310,29 +43448,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedText",
-			pos:  position{line: 2172, col: 1, offset: 70945},
+			pos:  position{line: 2181, col: 1, offset: 71332},
 			expr: &actionExpr{
-				pos: position{line: 2173, col: 5, offset: 70975},
+				pos: position{line: 2182, col: 5, offset: 71362},
 				run: (*parser).callonDoubleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2173, col: 5, offset: 70975},
+					pos: position{line: 2182, col: 5, offset: 71362},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2168, col: 40, offset: 70896},
+							pos:        position{line: 2177, col: 40, offset: 71283},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2174, col: 5, offset: 71016},
+							pos:   position{line: 2183, col: 5, offset: 71403},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2174, col: 15, offset: 71026},
+								pos:  position{line: 2183, col: 15, offset: 71413},
 								name: "DoubleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2170, col: 38, offset: 70939},
+							pos:        position{line: 2179, col: 38, offset: 71326},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
@@ -43343,44 +43481,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElements",
-			pos:  position{line: 2179, col: 1, offset: 71192},
+			pos:  position{line: 2188, col: 1, offset: 71579},
 			expr: &zeroOrMoreExpr{
-				pos: position{line: 2179, col: 34, offset: 71225},
+				pos: position{line: 2188, col: 34, offset: 71612},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2179, col: 34, offset: 71225},
+					pos:  position{line: 2188, col: 34, offset: 71612},
 					name: "DoubleQuoteMarkedTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMarkedTextElement",
-			pos:  position{line: 2181, col: 1, offset: 71256},
+			pos:  position{line: 2190, col: 1, offset: 71643},
 			expr: &actionExpr{
-				pos: position{line: 2182, col: 5, offset: 71325},
+				pos: position{line: 2191, col: 5, offset: 71712},
 				run: (*parser).callonDoubleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2182, col: 5, offset: 71325},
+					pos: position{line: 2191, col: 5, offset: 71712},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2920, col: 11, offset: 92935},
+							pos: position{line: 2932, col: 11, offset: 93451},
 							expr: &anyMatcher{
-								line: 2920, col: 13, offset: 92937,
+								line: 2932, col: 13, offset: 93453,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2183, col: 5, offset: 71336},
+							pos: position{line: 2192, col: 5, offset: 71723},
 							expr: &litMatcher{
-								pos:        position{line: 2170, col: 38, offset: 70939},
+								pos:        position{line: 2179, col: 38, offset: 71326},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2184, col: 5, offset: 71375},
+							pos:   position{line: 2193, col: 5, offset: 71762},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2184, col: 14, offset: 71384},
+								pos:  position{line: 2193, col: 14, offset: 71771},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43390,29 +43528,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedText",
-			pos:  position{line: 2213, col: 1, offset: 72293},
+			pos:  position{line: 2225, col: 1, offset: 72809},
 			expr: &actionExpr{
-				pos: position{line: 2214, col: 5, offset: 72323},
+				pos: position{line: 2226, col: 5, offset: 72839},
 				run: (*parser).callonSingleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2214, col: 5, offset: 72323},
+					pos: position{line: 2226, col: 5, offset: 72839},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2193, col: 5, offset: 71632},
+							pos:        position{line: 2202, col: 5, offset: 72019},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2194, col: 5, offset: 71641},
+							pos: position{line: 2203, col: 5, offset: 72028},
 							run: (*parser).callonSingleQuoteMarkedText4,
 						},
 						&andExpr{
-							pos: position{line: 2198, col: 5, offset: 71761},
+							pos: position{line: 2207, col: 5, offset: 72148},
 							expr: &notExpr{
-								pos: position{line: 2198, col: 7, offset: 71763},
+								pos: position{line: 2207, col: 7, offset: 72150},
 								expr: &litMatcher{
-									pos:        position{line: 2198, col: 8, offset: 71764},
+									pos:        position{line: 2207, col: 8, offset: 72151},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -43420,35 +43558,49 @@ var g = &grammar{
 							},
 						},
 						&andExpr{
-							pos: position{line: 2199, col: 5, offset: 71830},
+							pos: position{line: 2208, col: 5, offset: 72217},
 							expr: &seqExpr{
-								pos: position{line: 2211, col: 43, offset: 72256},
+								pos: position{line: 2221, col: 5, offset: 72647},
 								exprs: []interface{}{
+									&actionExpr{
+										pos: position{line: 2221, col: 6, offset: 72648},
+										run: (*parser).callonSingleQuoteMarkedText10,
+										expr: &litMatcher{
+											pos:        position{line: 2221, col: 6, offset: 72648},
+											val:        "",
+											ignoreCase: false,
+											want:       "\"\"",
+										},
+									},
+									&andCodeExpr{
+										pos: position{line: 2222, col: 5, offset: 72688},
+										run: (*parser).callonSingleQuoteMarkedText12,
+									},
 									&zeroOrMoreExpr{
-										pos: position{line: 2211, col: 43, offset: 72256},
+										pos: position{line: 2223, col: 5, offset: 72731},
 										expr: &choiceExpr{
-											pos: position{line: 2211, col: 44, offset: 72257},
+											pos: position{line: 2223, col: 6, offset: 72732},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2211, col: 44, offset: 72257},
+													pos:        position{line: 2223, col: 6, offset: 72732},
 													val:        "[^#]",
 													chars:      []rune{'#'},
 													ignoreCase: false,
 													inverted:   true,
 												},
 												&seqExpr{
-													pos: position{line: 2211, col: 51, offset: 72264},
+													pos: position{line: 2223, col: 13, offset: 72739},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2211, col: 51, offset: 72264},
+															pos:        position{line: 2223, col: 13, offset: 72739},
 															val:        "#",
 															ignoreCase: false,
 															want:       "\"#\"",
 														},
 														&andExpr{
-															pos: position{line: 2211, col: 55, offset: 72268},
+															pos: position{line: 2223, col: 17, offset: 72743},
 															expr: &charClassMatcher{
-																pos:        position{line: 2786, col: 13, offset: 89482},
+																pos:        position{line: 2798, col: 13, offset: 89998},
 																val:        "[#\\pL\\pN]",
 																chars:      []rune{'#'},
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -43461,48 +43613,57 @@ var g = &grammar{
 											},
 										},
 									},
-									&litMatcher{
-										pos:        position{line: 2211, col: 75, offset: 72288},
-										val:        "#",
-										ignoreCase: false,
-										want:       "\"#\"",
+									&choiceExpr{
+										pos: position{line: 2223, col: 38, offset: 72764},
+										alternatives: []interface{}{
+											&litMatcher{
+												pos:        position{line: 2223, col: 38, offset: 72764},
+												val:        "#",
+												ignoreCase: false,
+												want:       "\"#\"",
+											},
+											&andCodeExpr{
+												pos: position{line: 2223, col: 44, offset: 72770},
+												run: (*parser).callonSingleQuoteMarkedText22,
+											},
+										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2215, col: 5, offset: 72363},
+							pos:   position{line: 2227, col: 5, offset: 72879},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2215, col: 15, offset: 72373},
+								pos:  position{line: 2227, col: 15, offset: 72889},
 								name: "SingleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2202, col: 5, offset: 71915},
+							pos:        position{line: 2211, col: 5, offset: 72302},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&notExpr{
-							pos: position{line: 2203, col: 5, offset: 71923},
+							pos: position{line: 2212, col: 5, offset: 72310},
 							expr: &litMatcher{
-								pos:        position{line: 2203, col: 6, offset: 71924},
+								pos:        position{line: 2212, col: 6, offset: 72311},
 								val:        "#",
 								ignoreCase: false,
 								want:       "\"#\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2204, col: 5, offset: 71987},
-							run: (*parser).callonSingleQuoteMarkedText23,
+							pos: position{line: 2213, col: 5, offset: 72374},
+							run: (*parser).callonSingleQuoteMarkedText28,
 						},
 						&andExpr{
-							pos: position{line: 2208, col: 5, offset: 72098},
+							pos: position{line: 2217, col: 5, offset: 72485},
 							expr: &notExpr{
-								pos: position{line: 2208, col: 7, offset: 72100},
+								pos: position{line: 2217, col: 7, offset: 72487},
 								expr: &charClassMatcher{
-									pos:        position{line: 2786, col: 13, offset: 89482},
+									pos:        position{line: 2798, col: 13, offset: 89998},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -43516,20 +43677,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElements",
-			pos:  position{line: 2220, col: 1, offset: 72540},
+			pos:  position{line: 2232, col: 1, offset: 73056},
 			expr: &actionExpr{
-				pos: position{line: 2221, col: 5, offset: 72578},
+				pos: position{line: 2233, col: 5, offset: 73094},
 				run: (*parser).callonSingleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2221, col: 5, offset: 72578},
+					pos: position{line: 2233, col: 5, offset: 73094},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2221, col: 5, offset: 72578},
+							pos: position{line: 2233, col: 5, offset: 73094},
 							expr: &actionExpr{
-								pos: position{line: 2903, col: 10, offset: 92601},
+								pos: position{line: 2915, col: 10, offset: 93117},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2903, col: 10, offset: 92601},
+									pos:        position{line: 2915, col: 10, offset: 93117},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43538,18 +43699,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2222, col: 5, offset: 72617},
+							pos:   position{line: 2234, col: 5, offset: 73133},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2222, col: 14, offset: 72626},
+								pos: position{line: 2234, col: 14, offset: 73142},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2222, col: 15, offset: 72627},
+									pos:  position{line: 2234, col: 15, offset: 73143},
 									name: "SingleQuoteMarkedTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2223, col: 5, offset: 72663},
+							pos: position{line: 2235, col: 5, offset: 73179},
 							run: (*parser).callonSingleQuoteMarkedTextElements9,
 						},
 					},
@@ -43558,49 +43719,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElement",
-			pos:  position{line: 2229, col: 1, offset: 72804},
+			pos:  position{line: 2241, col: 1, offset: 73320},
 			expr: &actionExpr{
-				pos: position{line: 2230, col: 5, offset: 72841},
+				pos: position{line: 2242, col: 5, offset: 73357},
 				run: (*parser).callonSingleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2230, col: 5, offset: 72841},
+					pos: position{line: 2242, col: 5, offset: 73357},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2920, col: 11, offset: 92935},
+							pos: position{line: 2932, col: 11, offset: 93451},
 							expr: &anyMatcher{
-								line: 2920, col: 13, offset: 92937,
+								line: 2932, col: 13, offset: 93453,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2231, col: 5, offset: 72852},
+							pos: position{line: 2243, col: 5, offset: 73368},
 							expr: &seqExpr{
-								pos: position{line: 2202, col: 5, offset: 71915},
+								pos: position{line: 2211, col: 5, offset: 72302},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2202, col: 5, offset: 71915},
+										pos:        position{line: 2211, col: 5, offset: 72302},
 										val:        "#",
 										ignoreCase: false,
 										want:       "\"#\"",
 									},
 									&notExpr{
-										pos: position{line: 2203, col: 5, offset: 71923},
+										pos: position{line: 2212, col: 5, offset: 72310},
 										expr: &litMatcher{
-											pos:        position{line: 2203, col: 6, offset: 71924},
+											pos:        position{line: 2212, col: 6, offset: 72311},
 											val:        "#",
 											ignoreCase: false,
 											want:       "\"#\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2204, col: 5, offset: 71987},
+										pos: position{line: 2213, col: 5, offset: 72374},
 										run: (*parser).callonSingleQuoteMarkedTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2208, col: 5, offset: 72098},
+										pos: position{line: 2217, col: 5, offset: 72485},
 										expr: &notExpr{
-											pos: position{line: 2208, col: 7, offset: 72100},
+											pos: position{line: 2217, col: 7, offset: 72487},
 											expr: &charClassMatcher{
-												pos:        position{line: 2786, col: 13, offset: 89482},
+												pos:        position{line: 2798, col: 13, offset: 89998},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -43612,10 +43773,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2232, col: 5, offset: 72891},
+							pos:   position{line: 2244, col: 5, offset: 73407},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2232, col: 14, offset: 72900},
+								pos:  position{line: 2244, col: 14, offset: 73416},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43625,18 +43786,18 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMarkedText",
-			pos:  position{line: 2237, col: 1, offset: 72988},
+			pos:  position{line: 2249, col: 1, offset: 73504},
 			expr: &choiceExpr{
-				pos: position{line: 2239, col: 5, offset: 73052},
+				pos: position{line: 2251, col: 5, offset: 73568},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2239, col: 5, offset: 73052},
+						pos: position{line: 2251, col: 5, offset: 73568},
 						run: (*parser).callonEscapedMarkedText2,
 						expr: &seqExpr{
-							pos: position{line: 2239, col: 5, offset: 73052},
+							pos: position{line: 2251, col: 5, offset: 73568},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2239, col: 5, offset: 73052},
+									pos:   position{line: 2251, col: 5, offset: 73568},
 									label: "backslashes",
 									expr: &actionExpr{
 										pos: position{line: 1859, col: 25, offset: 60232},
@@ -43664,21 +43825,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2239, col: 40, offset: 73087},
+									pos:        position{line: 2251, col: 40, offset: 73603},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2239, col: 45, offset: 73092},
+									pos:   position{line: 2251, col: 45, offset: 73608},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2239, col: 55, offset: 73102},
+										pos:  position{line: 2251, col: 55, offset: 73618},
 										name: "DoubleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2239, col: 86, offset: 73133},
+									pos:        position{line: 2251, col: 86, offset: 73649},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
@@ -43687,13 +43848,13 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2243, col: 7, offset: 73298},
+						pos: position{line: 2255, col: 7, offset: 73814},
 						run: (*parser).callonEscapedMarkedText14,
 						expr: &seqExpr{
-							pos: position{line: 2243, col: 7, offset: 73298},
+							pos: position{line: 2255, col: 7, offset: 73814},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2243, col: 7, offset: 73298},
+									pos:   position{line: 2255, col: 7, offset: 73814},
 									label: "backslashes",
 									expr: &actionExpr{
 										pos: position{line: 1855, col: 25, offset: 60159},
@@ -43710,21 +43871,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2243, col: 42, offset: 73333},
+									pos:        position{line: 2255, col: 42, offset: 73849},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2243, col: 47, offset: 73338},
+									pos:   position{line: 2255, col: 47, offset: 73854},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2243, col: 57, offset: 73348},
+										pos:  position{line: 2255, col: 57, offset: 73864},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2243, col: 88, offset: 73379},
+									pos:        position{line: 2255, col: 88, offset: 73895},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -43733,13 +43894,13 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2248, col: 7, offset: 73582},
+						pos: position{line: 2260, col: 7, offset: 74098},
 						run: (*parser).callonEscapedMarkedText24,
 						expr: &seqExpr{
-							pos: position{line: 2248, col: 7, offset: 73582},
+							pos: position{line: 2260, col: 7, offset: 74098},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2248, col: 7, offset: 73582},
+									pos:   position{line: 2260, col: 7, offset: 74098},
 									label: "backslashes",
 									expr: &actionExpr{
 										pos: position{line: 1855, col: 25, offset: 60159},
@@ -43756,41 +43917,55 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2248, col: 42, offset: 73617},
+									pos:        position{line: 2260, col: 42, offset: 74133},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
 								},
 								&andExpr{
-									pos: position{line: 2248, col: 46, offset: 73621},
+									pos: position{line: 2260, col: 46, offset: 74137},
 									expr: &seqExpr{
-										pos: position{line: 2211, col: 43, offset: 72256},
+										pos: position{line: 2221, col: 5, offset: 72647},
 										exprs: []interface{}{
+											&actionExpr{
+												pos: position{line: 2221, col: 6, offset: 72648},
+												run: (*parser).callonEscapedMarkedText33,
+												expr: &litMatcher{
+													pos:        position{line: 2221, col: 6, offset: 72648},
+													val:        "",
+													ignoreCase: false,
+													want:       "\"\"",
+												},
+											},
+											&andCodeExpr{
+												pos: position{line: 2222, col: 5, offset: 72688},
+												run: (*parser).callonEscapedMarkedText35,
+											},
 											&zeroOrMoreExpr{
-												pos: position{line: 2211, col: 43, offset: 72256},
+												pos: position{line: 2223, col: 5, offset: 72731},
 												expr: &choiceExpr{
-													pos: position{line: 2211, col: 44, offset: 72257},
+													pos: position{line: 2223, col: 6, offset: 72732},
 													alternatives: []interface{}{
 														&charClassMatcher{
-															pos:        position{line: 2211, col: 44, offset: 72257},
+															pos:        position{line: 2223, col: 6, offset: 72732},
 															val:        "[^#]",
 															chars:      []rune{'#'},
 															ignoreCase: false,
 															inverted:   true,
 														},
 														&seqExpr{
-															pos: position{line: 2211, col: 51, offset: 72264},
+															pos: position{line: 2223, col: 13, offset: 72739},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2211, col: 51, offset: 72264},
+																	pos:        position{line: 2223, col: 13, offset: 72739},
 																	val:        "#",
 																	ignoreCase: false,
 																	want:       "\"#\"",
 																},
 																&andExpr{
-																	pos: position{line: 2211, col: 55, offset: 72268},
+																	pos: position{line: 2223, col: 17, offset: 72743},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2786, col: 13, offset: 89482},
+																		pos:        position{line: 2798, col: 13, offset: 89998},
 																		val:        "[#\\pL\\pN]",
 																		chars:      []rune{'#'},
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -43803,25 +43978,34 @@ var g = &grammar{
 													},
 												},
 											},
-											&litMatcher{
-												pos:        position{line: 2211, col: 75, offset: 72288},
-												val:        "#",
-												ignoreCase: false,
-												want:       "\"#\"",
+											&choiceExpr{
+												pos: position{line: 2223, col: 38, offset: 72764},
+												alternatives: []interface{}{
+													&litMatcher{
+														pos:        position{line: 2223, col: 38, offset: 72764},
+														val:        "#",
+														ignoreCase: false,
+														want:       "\"#\"",
+													},
+													&andCodeExpr{
+														pos: position{line: 2223, col: 44, offset: 72770},
+														run: (*parser).callonEscapedMarkedText45,
+													},
+												},
 											},
 										},
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 2248, col: 88, offset: 73663},
+									pos:   position{line: 2260, col: 88, offset: 74179},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2248, col: 98, offset: 73673},
+										pos:  position{line: 2260, col: 98, offset: 74189},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2248, col: 129, offset: 73704},
+									pos:        position{line: 2260, col: 129, offset: 74220},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -43834,29 +44018,29 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptText",
-			pos:  position{line: 2255, col: 1, offset: 73971},
+			pos:  position{line: 2267, col: 1, offset: 74487},
 			expr: &actionExpr{
-				pos: position{line: 2256, col: 5, offset: 73993},
+				pos: position{line: 2268, col: 5, offset: 74509},
 				run: (*parser).callonSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2256, col: 5, offset: 73993},
+					pos: position{line: 2268, col: 5, offset: 74509},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2262, col: 27, offset: 74208},
+							pos:        position{line: 2274, col: 27, offset: 74724},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2257, col: 5, offset: 74020},
+							pos:   position{line: 2269, col: 5, offset: 74536},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2257, col: 14, offset: 74029},
+								pos:  position{line: 2269, col: 14, offset: 74545},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2262, col: 27, offset: 74208},
+							pos:        position{line: 2274, col: 27, offset: 74724},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -43867,43 +44051,43 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptTextElement",
-			pos:  position{line: 2264, col: 1, offset: 74213},
+			pos:  position{line: 2276, col: 1, offset: 74729},
 			expr: &choiceExpr{
-				pos: position{line: 2264, col: 25, offset: 74237},
+				pos: position{line: 2276, col: 25, offset: 74753},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2264, col: 25, offset: 74237},
+						pos:  position{line: 2276, col: 25, offset: 74753},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2266, col: 21, offset: 74289},
+						pos: position{line: 2278, col: 21, offset: 74805},
 						run: (*parser).callonSubscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2266, col: 21, offset: 74289},
+							pos:   position{line: 2278, col: 21, offset: 74805},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2266, col: 30, offset: 74298},
+								pos: position{line: 2278, col: 30, offset: 74814},
 								expr: &choiceExpr{
-									pos: position{line: 2266, col: 31, offset: 74299},
+									pos: position{line: 2278, col: 31, offset: 74815},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2490, col: 5, offset: 80840},
+											pos: position{line: 2502, col: 5, offset: 81356},
 											run: (*parser).callonSubscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2490, col: 5, offset: 80840},
+												pos: position{line: 2502, col: 5, offset: 81356},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2490, col: 5, offset: 80840},
+														pos: position{line: 2502, col: 5, offset: 81356},
 														run: (*parser).callonSubscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2493, col: 5, offset: 80916},
+														pos:   position{line: 2505, col: 5, offset: 81432},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2494, col: 9, offset: 80934},
+															pos: position{line: 2506, col: 9, offset: 81450},
 															run: (*parser).callonSubscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2494, col: 10, offset: 80935},
+																pos:        position{line: 2506, col: 10, offset: 81451},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -43915,7 +44099,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2266, col: 50, offset: 74318},
+											pos:        position{line: 2278, col: 50, offset: 74834},
 											val:        "[^\\r\\n ~]",
 											chars:      []rune{'\r', '\n', ' ', '~'},
 											ignoreCase: false,
@@ -43931,15 +44115,15 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2270, col: 1, offset: 74368},
+			pos:  position{line: 2282, col: 1, offset: 74884},
 			expr: &actionExpr{
-				pos: position{line: 2272, col: 5, offset: 74435},
+				pos: position{line: 2284, col: 5, offset: 74951},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2272, col: 5, offset: 74435},
+					pos: position{line: 2284, col: 5, offset: 74951},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2272, col: 5, offset: 74435},
+							pos:   position{line: 2284, col: 5, offset: 74951},
 							label: "backslashes",
 							expr: &actionExpr{
 								pos: position{line: 1855, col: 25, offset: 60159},
@@ -43956,21 +44140,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2262, col: 27, offset: 74208},
+							pos:        position{line: 2274, col: 27, offset: 74724},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2274, col: 5, offset: 74503},
+							pos:   position{line: 2286, col: 5, offset: 75019},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2274, col: 14, offset: 74512},
+								pos:  position{line: 2286, col: 14, offset: 75028},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2262, col: 27, offset: 74208},
+							pos:        position{line: 2274, col: 27, offset: 74724},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -43981,29 +44165,29 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2282, col: 1, offset: 74775},
+			pos:  position{line: 2294, col: 1, offset: 75291},
 			expr: &actionExpr{
-				pos: position{line: 2283, col: 5, offset: 74799},
+				pos: position{line: 2295, col: 5, offset: 75315},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2283, col: 5, offset: 74799},
+					pos: position{line: 2295, col: 5, offset: 75315},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2289, col: 29, offset: 75026},
+							pos:        position{line: 2301, col: 29, offset: 75542},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2284, col: 5, offset: 74829},
+							pos:   position{line: 2296, col: 5, offset: 75345},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2284, col: 14, offset: 74838},
+								pos:  position{line: 2296, col: 14, offset: 75354},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2289, col: 29, offset: 75026},
+							pos:        position{line: 2301, col: 29, offset: 75542},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -44014,43 +44198,43 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2291, col: 1, offset: 75031},
+			pos:  position{line: 2303, col: 1, offset: 75547},
 			expr: &choiceExpr{
-				pos: position{line: 2291, col: 27, offset: 75057},
+				pos: position{line: 2303, col: 27, offset: 75573},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2291, col: 27, offset: 75057},
+						pos:  position{line: 2303, col: 27, offset: 75573},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2293, col: 23, offset: 75113},
+						pos: position{line: 2305, col: 23, offset: 75629},
 						run: (*parser).callonSuperscriptTextElement3,
 						expr: &labeledExpr{
-							pos:   position{line: 2293, col: 23, offset: 75113},
+							pos:   position{line: 2305, col: 23, offset: 75629},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2293, col: 32, offset: 75122},
+								pos: position{line: 2305, col: 32, offset: 75638},
 								expr: &choiceExpr{
-									pos: position{line: 2293, col: 33, offset: 75123},
+									pos: position{line: 2305, col: 33, offset: 75639},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2490, col: 5, offset: 80840},
+											pos: position{line: 2502, col: 5, offset: 81356},
 											run: (*parser).callonSuperscriptTextElement7,
 											expr: &seqExpr{
-												pos: position{line: 2490, col: 5, offset: 80840},
+												pos: position{line: 2502, col: 5, offset: 81356},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 2490, col: 5, offset: 80840},
+														pos: position{line: 2502, col: 5, offset: 81356},
 														run: (*parser).callonSuperscriptTextElement9,
 													},
 													&labeledExpr{
-														pos:   position{line: 2493, col: 5, offset: 80916},
+														pos:   position{line: 2505, col: 5, offset: 81432},
 														label: "element",
 														expr: &actionExpr{
-															pos: position{line: 2494, col: 9, offset: 80934},
+															pos: position{line: 2506, col: 9, offset: 81450},
 															run: (*parser).callonSuperscriptTextElement11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2494, col: 10, offset: 80935},
+																pos:        position{line: 2506, col: 10, offset: 81451},
 																val:        "[<>&]",
 																chars:      []rune{'<', '>', '&'},
 																ignoreCase: false,
@@ -44062,7 +44246,7 @@ var g = &grammar{
 											},
 										},
 										&charClassMatcher{
-											pos:        position{line: 2293, col: 52, offset: 75142},
+											pos:        position{line: 2305, col: 52, offset: 75658},
 											val:        "[^\\r\\n ^]",
 											chars:      []rune{'\r', '\n', ' ', '^'},
 											ignoreCase: false,
@@ -44078,15 +44262,15 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2297, col: 1, offset: 75192},
+			pos:  position{line: 2309, col: 1, offset: 75708},
 			expr: &actionExpr{
-				pos: position{line: 2299, col: 5, offset: 75264},
+				pos: position{line: 2311, col: 5, offset: 75780},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2299, col: 5, offset: 75264},
+					pos: position{line: 2311, col: 5, offset: 75780},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2299, col: 5, offset: 75264},
+							pos:   position{line: 2311, col: 5, offset: 75780},
 							label: "backslashes",
 							expr: &actionExpr{
 								pos: position{line: 1855, col: 25, offset: 60159},
@@ -44103,21 +44287,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2289, col: 29, offset: 75026},
+							pos:        position{line: 2301, col: 29, offset: 75542},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2301, col: 5, offset: 75334},
+							pos:   position{line: 2313, col: 5, offset: 75850},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2301, col: 14, offset: 75343},
+								pos:  position{line: 2313, col: 14, offset: 75859},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2289, col: 29, offset: 75026},
+							pos:        position{line: 2301, col: 29, offset: 75542},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -44128,27 +44312,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2310, col: 1, offset: 75812},
+			pos:  position{line: 2322, col: 1, offset: 76328},
 			expr: &actionExpr{
-				pos: position{line: 2311, col: 5, offset: 75828},
+				pos: position{line: 2323, col: 5, offset: 76344},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2311, col: 5, offset: 75828},
+					pos: position{line: 2323, col: 5, offset: 76344},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2311, col: 5, offset: 75828},
+							pos: position{line: 2323, col: 5, offset: 76344},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2314, col: 5, offset: 75891},
+							pos:   position{line: 2326, col: 5, offset: 76407},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2314, col: 12, offset: 75898},
+								pos: position{line: 2326, col: 12, offset: 76414},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2314, col: 12, offset: 75898},
+									pos: position{line: 2326, col: 12, offset: 76414},
 									expr: &litMatcher{
-										pos:        position{line: 2314, col: 13, offset: 75899},
+										pos:        position{line: 2326, col: 13, offset: 76415},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -44157,16 +44341,16 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2318, col: 5, offset: 76007},
+							pos: position{line: 2330, col: 5, offset: 76523},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2907, col: 11, offset: 92662},
+							pos: position{line: 2919, col: 11, offset: 93178},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2907, col: 11, offset: 92662},
+								pos: position{line: 2919, col: 11, offset: 93178},
 								expr: &charClassMatcher{
-									pos:        position{line: 2907, col: 11, offset: 92662},
+									pos:        position{line: 2919, col: 11, offset: 93178},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -44175,36 +44359,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2322, col: 12, offset: 76166},
+							pos:   position{line: 2334, col: 12, offset: 76682},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2322, col: 19, offset: 76173},
+								pos:  position{line: 2334, col: 19, offset: 76689},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2925, col: 8, offset: 92999},
+							pos: position{line: 2937, col: 8, offset: 93515},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2912, col: 12, offset: 92772},
+									pos: position{line: 2924, col: 12, offset: 93288},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2912, col: 13, offset: 92773},
+										pos: position{line: 2924, col: 13, offset: 93289},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2912, col: 13, offset: 92773},
+												pos:        position{line: 2924, col: 13, offset: 93289},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2912, col: 20, offset: 92780},
+												pos:        position{line: 2924, col: 20, offset: 93296},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2912, col: 29, offset: 92789},
+												pos:        position{line: 2924, col: 29, offset: 93305},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -44213,9 +44397,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2922, col: 8, offset: 92949},
+									pos: position{line: 2934, col: 8, offset: 93465},
 									expr: &anyMatcher{
-										line: 2922, col: 9, offset: 92950,
+										line: 2934, col: 9, offset: 93466,
 									},
 								},
 							},
@@ -44226,24 +44410,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2326, col: 1, offset: 76269},
+			pos:  position{line: 2338, col: 1, offset: 76785},
 			expr: &actionExpr{
-				pos: position{line: 2327, col: 5, offset: 76290},
+				pos: position{line: 2339, col: 5, offset: 76806},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2327, col: 5, offset: 76290},
+					pos: position{line: 2339, col: 5, offset: 76806},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2327, col: 5, offset: 76290},
+							pos: position{line: 2339, col: 5, offset: 76806},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2334, col: 5, offset: 76476},
+							pos:   position{line: 2346, col: 5, offset: 76992},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2334, col: 14, offset: 76485},
+								pos: position{line: 2346, col: 14, offset: 77001},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2334, col: 15, offset: 76486},
+									pos:  position{line: 2346, col: 15, offset: 77002},
 									name: "SectionTitleElement",
 								},
 							},
@@ -44254,38 +44438,38 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2338, col: 1, offset: 76567},
+			pos:  position{line: 2350, col: 1, offset: 77083},
 			expr: &actionExpr{
-				pos: position{line: 2339, col: 5, offset: 76594},
+				pos: position{line: 2351, col: 5, offset: 77110},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2339, col: 5, offset: 76594},
+					pos: position{line: 2351, col: 5, offset: 77110},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2339, col: 5, offset: 76594},
+							pos: position{line: 2351, col: 5, offset: 77110},
 							expr: &choiceExpr{
-								pos: position{line: 2925, col: 8, offset: 92999},
+								pos: position{line: 2937, col: 8, offset: 93515},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2912, col: 12, offset: 92772},
+										pos: position{line: 2924, col: 12, offset: 93288},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2912, col: 13, offset: 92773},
+											pos: position{line: 2924, col: 13, offset: 93289},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2912, col: 13, offset: 92773},
+													pos:        position{line: 2924, col: 13, offset: 93289},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2912, col: 20, offset: 92780},
+													pos:        position{line: 2924, col: 20, offset: 93296},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2912, col: 29, offset: 92789},
+													pos:        position{line: 2924, col: 29, offset: 93305},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -44294,29 +44478,29 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2922, col: 8, offset: 92949},
+										pos: position{line: 2934, col: 8, offset: 93465},
 										expr: &anyMatcher{
-											line: 2922, col: 9, offset: 92950,
+											line: 2934, col: 9, offset: 93466,
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2340, col: 5, offset: 76603},
+							pos:   position{line: 2352, col: 5, offset: 77119},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2340, col: 14, offset: 76612},
+								pos: position{line: 2352, col: 14, offset: 77128},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2340, col: 14, offset: 76612},
+										pos:  position{line: 2352, col: 14, offset: 77128},
 										name: "SectionTitleLineElement",
 									},
 									&actionExpr{
-										pos: position{line: 2842, col: 12, offset: 90909},
+										pos: position{line: 2854, col: 12, offset: 91425},
 										run: (*parser).callonSectionTitleElement15,
 										expr: &charClassMatcher{
-											pos:        position{line: 2842, col: 12, offset: 90909},
+											pos:        position{line: 2854, col: 12, offset: 91425},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -44332,21 +44516,21 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleLineElement",
-			pos:  position{line: 2345, col: 1, offset: 76716},
+			pos:  position{line: 2357, col: 1, offset: 77232},
 			expr: &actionExpr{
-				pos: position{line: 2346, col: 5, offset: 76747},
+				pos: position{line: 2358, col: 5, offset: 77263},
 				run: (*parser).callonSectionTitleLineElement1,
 				expr: &seqExpr{
-					pos: position{line: 2346, col: 5, offset: 76747},
+					pos: position{line: 2358, col: 5, offset: 77263},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2346, col: 5, offset: 76747},
+							pos:   position{line: 2358, col: 5, offset: 77263},
 							label: "start",
 							expr: &actionExpr{
-								pos: position{line: 2928, col: 16, offset: 93123},
+								pos: position{line: 2940, col: 16, offset: 93639},
 								run: (*parser).callonSectionTitleLineElement4,
 								expr: &litMatcher{
-									pos:        position{line: 2928, col: 16, offset: 93123},
+									pos:        position{line: 2940, col: 16, offset: 93639},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -44354,32 +44538,32 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2347, col: 5, offset: 76771},
+							pos:   position{line: 2359, col: 5, offset: 77287},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2348, col: 9, offset: 76789},
+								pos: position{line: 2360, col: 9, offset: 77305},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2795, col: 5, offset: 89629},
+										pos: position{line: 2807, col: 5, offset: 90145},
 										run: (*parser).callonSectionTitleLineElement8,
 										expr: &seqExpr{
-											pos: position{line: 2795, col: 5, offset: 89629},
+											pos: position{line: 2807, col: 5, offset: 90145},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2795, col: 5, offset: 89629},
+													pos: position{line: 2807, col: 5, offset: 90145},
 													expr: &seqExpr{
-														pos: position{line: 2796, col: 9, offset: 89640},
+														pos: position{line: 2808, col: 9, offset: 90156},
 														exprs: []interface{}{
 															&labeledExpr{
-																pos:   position{line: 2796, col: 9, offset: 89640},
+																pos:   position{line: 2808, col: 9, offset: 90156},
 																label: "name",
 																expr: &actionExpr{
-																	pos: position{line: 2775, col: 18, offset: 89146},
+																	pos: position{line: 2787, col: 18, offset: 89662},
 																	run: (*parser).callonSectionTitleLineElement13,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2775, col: 19, offset: 89147},
+																		pos: position{line: 2787, col: 19, offset: 89663},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2775, col: 19, offset: 89147},
+																			pos:        position{line: 2787, col: 19, offset: 89663},
 																			val:        "[_-\\pL\\pN]",
 																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -44390,28 +44574,28 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2797, col: 9, offset: 89733},
+																pos:        position{line: 2809, col: 9, offset: 90249},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2798, col: 9, offset: 89745},
+																pos: position{line: 2810, col: 9, offset: 90261},
 																run: (*parser).callonSectionTitleLineElement17,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2802, col: 5, offset: 89822},
+													pos:   position{line: 2814, col: 5, offset: 90338},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2802, col: 11, offset: 89828},
+														pos: position{line: 2814, col: 11, offset: 90344},
 														run: (*parser).callonSectionTitleLineElement19,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2802, col: 11, offset: 89828},
+															pos: position{line: 2814, col: 11, offset: 90344},
 															expr: &charClassMatcher{
-																pos:        position{line: 2802, col: 11, offset: 89828},
+																pos:        position{line: 2814, col: 11, offset: 90344},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -44421,44 +44605,44 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2805, col: 5, offset: 89886},
+													pos: position{line: 2817, col: 5, offset: 90402},
 													expr: &seqExpr{
-														pos: position{line: 2806, col: 9, offset: 89897},
+														pos: position{line: 2818, col: 9, offset: 90413},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2806, col: 9, offset: 89897},
+																pos:        position{line: 2818, col: 9, offset: 90413},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2807, col: 9, offset: 89946},
+																pos: position{line: 2819, col: 9, offset: 90462},
 																run: (*parser).callonSectionTitleLineElement25,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2811, col: 5, offset: 90026},
+													pos: position{line: 2823, col: 5, offset: 90542},
 													expr: &seqExpr{
-														pos: position{line: 2812, col: 9, offset: 90037},
+														pos: position{line: 2824, col: 9, offset: 90553},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2812, col: 9, offset: 90037},
+																pos: position{line: 2824, col: 9, offset: 90553},
 																expr: &seqExpr{
-																	pos: position{line: 2812, col: 10, offset: 90038},
+																	pos: position{line: 2824, col: 10, offset: 90554},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2812, col: 10, offset: 90038},
+																			pos:        position{line: 2824, col: 10, offset: 90554},
 																			val:        "[._%+-]",
 																			chars:      []rune{'.', '_', '%', '+', '-'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2812, col: 18, offset: 90046},
+																			pos: position{line: 2824, col: 18, offset: 90562},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2812, col: 18, offset: 90046},
+																				pos:        position{line: 2824, col: 18, offset: 90562},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -44469,13 +44653,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2812, col: 30, offset: 90058},
+																pos:        position{line: 2824, col: 30, offset: 90574},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2812, col: 34, offset: 90062},
+																pos:        position{line: 2824, col: 34, offset: 90578},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -44488,12 +44672,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2907, col: 11, offset: 92662},
+										pos: position{line: 2919, col: 11, offset: 93178},
 										run: (*parser).callonSectionTitleLineElement35,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2907, col: 11, offset: 92662},
+											pos: position{line: 2919, col: 11, offset: 93178},
 											expr: &charClassMatcher{
-												pos:        position{line: 2907, col: 11, offset: 92662},
+												pos:        position{line: 2919, col: 11, offset: 93178},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -44502,25 +44686,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2521, col: 5, offset: 82011},
+										pos: position{line: 2533, col: 5, offset: 82527},
 										run: (*parser).callonSectionTitleLineElement38,
 										expr: &seqExpr{
-											pos: position{line: 2521, col: 5, offset: 82011},
+											pos: position{line: 2533, col: 5, offset: 82527},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2521, col: 5, offset: 82011},
+													pos: position{line: 2533, col: 5, offset: 82527},
 													run: (*parser).callonSectionTitleLineElement40,
 												},
 												&litMatcher{
-													pos:        position{line: 2524, col: 5, offset: 82082},
+													pos:        position{line: 2536, col: 5, offset: 82598},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2524, col: 10, offset: 82087},
+													pos: position{line: 2536, col: 10, offset: 82603},
 													expr: &charClassMatcher{
-														pos:        position{line: 2524, col: 11, offset: 82088},
+														pos:        position{line: 2536, col: 11, offset: 82604},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -44531,29 +44715,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2530, col: 5, offset: 82280},
+										pos: position{line: 2542, col: 5, offset: 82796},
 										run: (*parser).callonSectionTitleLineElement44,
 										expr: &seqExpr{
-											pos: position{line: 2530, col: 5, offset: 82280},
+											pos: position{line: 2542, col: 5, offset: 82796},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2530, col: 5, offset: 82280},
+													pos: position{line: 2542, col: 5, offset: 82796},
 													run: (*parser).callonSectionTitleLineElement46,
 												},
 												&andCodeExpr{
-													pos: position{line: 2533, col: 5, offset: 82351},
+													pos: position{line: 2545, col: 5, offset: 82867},
 													run: (*parser).callonSectionTitleLineElement47,
 												},
 												&litMatcher{
-													pos:        position{line: 2537, col: 5, offset: 82476},
+													pos:        position{line: 2549, col: 5, offset: 82992},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2537, col: 9, offset: 82480},
+													pos: position{line: 2549, col: 9, offset: 82996},
 													expr: &charClassMatcher{
-														pos:        position{line: 2537, col: 10, offset: 82481},
+														pos:        position{line: 2549, col: 10, offset: 82997},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -44564,31 +44748,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2351, col: 11, offset: 76854},
+										pos:  position{line: 2363, col: 11, offset: 77370},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2820, col: 5, offset: 90255},
+										pos: position{line: 2832, col: 5, offset: 90771},
 										run: (*parser).callonSectionTitleLineElement52,
 										expr: &choiceExpr{
-											pos: position{line: 2821, col: 9, offset: 90265},
+											pos: position{line: 2833, col: 9, offset: 90781},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2821, col: 10, offset: 90266},
+													pos:        position{line: 2833, col: 10, offset: 90782},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2823, col: 13, offset: 90363},
+													pos: position{line: 2835, col: 13, offset: 90879},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2823, col: 13, offset: 90363},
+															pos: position{line: 2835, col: 13, offset: 90879},
 															run: (*parser).callonSectionTitleLineElement56,
 														},
 														&litMatcher{
-															pos:        position{line: 2826, col: 13, offset: 90463},
+															pos:        position{line: 2838, col: 13, offset: 90979},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -44596,20 +44780,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2826, col: 19, offset: 90469},
+													pos:        position{line: 2838, col: 19, offset: 90985},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2829, col: 13, offset: 90507},
+													pos: position{line: 2841, col: 13, offset: 91023},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2829, col: 13, offset: 90507},
+															pos: position{line: 2841, col: 13, offset: 91023},
 															run: (*parser).callonSectionTitleLineElement60,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2832, col: 14, offset: 90600},
+															pos:        position{line: 2844, col: 14, offset: 91116},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -44618,18 +44802,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2834, col: 12, offset: 90644},
+													pos: position{line: 2846, col: 12, offset: 91160},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2834, col: 12, offset: 90644},
+															pos:        position{line: 2846, col: 12, offset: 91160},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2834, col: 16, offset: 90648},
+															pos: position{line: 2846, col: 16, offset: 91164},
 															expr: &litMatcher{
-																pos:        position{line: 2834, col: 17, offset: 90649},
+																pos:        position{line: 2846, col: 17, offset: 91165},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -44641,35 +44825,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2353, col: 11, offset: 76927},
+										pos:  position{line: 2365, col: 11, offset: 77443},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2354, col: 11, offset: 76943},
+										pos:  position{line: 2366, col: 11, offset: 77459},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2355, col: 11, offset: 76971},
+										pos:  position{line: 2367, col: 11, offset: 77487},
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2490, col: 5, offset: 80840},
+										pos: position{line: 2502, col: 5, offset: 81356},
 										run: (*parser).callonSectionTitleLineElement69,
 										expr: &seqExpr{
-											pos: position{line: 2490, col: 5, offset: 80840},
+											pos: position{line: 2502, col: 5, offset: 81356},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2490, col: 5, offset: 80840},
+													pos: position{line: 2502, col: 5, offset: 81356},
 													run: (*parser).callonSectionTitleLineElement71,
 												},
 												&labeledExpr{
-													pos:   position{line: 2493, col: 5, offset: 80916},
+													pos:   position{line: 2505, col: 5, offset: 81432},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2494, col: 9, offset: 80934},
+														pos: position{line: 2506, col: 9, offset: 81450},
 														run: (*parser).callonSectionTitleLineElement73,
 														expr: &charClassMatcher{
-															pos:        position{line: 2494, col: 10, offset: 80935},
+															pos:        position{line: 2506, col: 10, offset: 81451},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -44681,7 +44865,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2357, col: 11, offset: 77056},
+										pos:  position{line: 2369, col: 11, offset: 77572},
 										name: "InlineIcon",
 									},
 									&actionExpr{
@@ -45074,17 +45258,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2373, col: 5, offset: 77550},
+										pos: position{line: 2385, col: 5, offset: 78066},
 										run: (*parser).callonSectionTitleLineElement154,
 										expr: &seqExpr{
-											pos: position{line: 2373, col: 5, offset: 77550},
+											pos: position{line: 2385, col: 5, offset: 78066},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2373, col: 5, offset: 77550},
+													pos: position{line: 2385, col: 5, offset: 78066},
 													run: (*parser).callonSectionTitleLineElement156,
 												},
 												&labeledExpr{
-													pos:   position{line: 2376, col: 5, offset: 77605},
+													pos:   position{line: 2388, col: 5, offset: 78121},
 													label: "id",
 													expr: &actionExpr{
 														pos: position{line: 403, col: 5, offset: 12344},
@@ -45542,12 +45726,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2376, col: 26, offset: 77626},
+													pos: position{line: 2388, col: 26, offset: 78142},
 													expr: &actionExpr{
-														pos: position{line: 2903, col: 10, offset: 92601},
+														pos: position{line: 2915, col: 10, offset: 93117},
 														run: (*parser).callonSectionTitleLineElement251,
 														expr: &charClassMatcher{
-															pos:        position{line: 2903, col: 10, offset: 92601},
+															pos:        position{line: 2915, col: 10, offset: 93117},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -45556,30 +45740,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 2376, col: 33, offset: 77633},
+													pos: position{line: 2388, col: 33, offset: 78149},
 													expr: &choiceExpr{
-														pos: position{line: 2925, col: 8, offset: 92999},
+														pos: position{line: 2937, col: 8, offset: 93515},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2912, col: 12, offset: 92772},
+																pos: position{line: 2924, col: 12, offset: 93288},
 																run: (*parser).callonSectionTitleLineElement255,
 																expr: &choiceExpr{
-																	pos: position{line: 2912, col: 13, offset: 92773},
+																	pos: position{line: 2924, col: 13, offset: 93289},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2912, col: 13, offset: 92773},
+																			pos:        position{line: 2924, col: 13, offset: 93289},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2912, col: 20, offset: 92780},
+																			pos:        position{line: 2924, col: 20, offset: 93296},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2912, col: 29, offset: 92789},
+																			pos:        position{line: 2924, col: 29, offset: 93305},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -45588,9 +45772,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2922, col: 8, offset: 92949},
+																pos: position{line: 2934, col: 8, offset: 93465},
 																expr: &anyMatcher{
-																	line: 2922, col: 9, offset: 92950,
+																	line: 2934, col: 9, offset: 93466,
 																},
 															},
 														},
@@ -45615,12 +45799,12 @@ var g = &grammar{
 													pos:   position{line: 1258, col: 14, offset: 38908},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2888, col: 7, offset: 92253},
+														pos: position{line: 2900, col: 7, offset: 92769},
 														run: (*parser).callonSectionTitleLineElement266,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2888, col: 7, offset: 92253},
+															pos: position{line: 2900, col: 7, offset: 92769},
 															expr: &charClassMatcher{
-																pos:        position{line: 2888, col: 7, offset: 92253},
+																pos:        position{line: 2900, col: 7, offset: 92769},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -45654,12 +45838,12 @@ var g = &grammar{
 													pos:   position{line: 1263, col: 10, offset: 39083},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2888, col: 7, offset: 92253},
+														pos: position{line: 2900, col: 7, offset: 92769},
 														run: (*parser).callonSectionTitleLineElement274,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2888, col: 7, offset: 92253},
+															pos: position{line: 2900, col: 7, offset: 92769},
 															expr: &charClassMatcher{
-																pos:        position{line: 2888, col: 7, offset: 92253},
+																pos:        position{line: 2900, col: 7, offset: 92769},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -45678,20 +45862,20 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2362, col: 11, offset: 77310},
+										pos:  position{line: 2374, col: 11, offset: 77826},
 										name: "InlineFootnote",
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2363, col: 5, offset: 77330},
+							pos:   position{line: 2375, col: 5, offset: 77846},
 							label: "end",
 							expr: &actionExpr{
-								pos: position{line: 2928, col: 16, offset: 93123},
+								pos: position{line: 2940, col: 16, offset: 93639},
 								run: (*parser).callonSectionTitleLineElement280,
 								expr: &litMatcher{
-									pos:        position{line: 2928, col: 16, offset: 93123},
+									pos:        position{line: 2940, col: 16, offset: 93639},
 									val:        "",
 									ignoreCase: false,
 									want:       "\"\"",
@@ -45699,7 +45883,7 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2364, col: 5, offset: 77352},
+							pos: position{line: 2376, col: 5, offset: 77868},
 							run: (*parser).callonSectionTitleLineElement282,
 						},
 					},
@@ -45708,57 +45892,57 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2386, col: 1, offset: 77895},
+			pos:  position{line: 2398, col: 1, offset: 78411},
 			expr: &actionExpr{
-				pos: position{line: 2387, col: 5, offset: 77982},
+				pos: position{line: 2399, col: 5, offset: 78498},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2387, col: 5, offset: 77982},
+					pos: position{line: 2399, col: 5, offset: 78498},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2387, col: 5, offset: 77982},
+							pos:   position{line: 2399, col: 5, offset: 78498},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2387, col: 14, offset: 77991},
+								pos: position{line: 2399, col: 14, offset: 78507},
 								expr: &actionExpr{
-									pos: position{line: 2389, col: 9, offset: 78017},
+									pos: position{line: 2401, col: 9, offset: 78533},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2389, col: 9, offset: 78017},
+										pos: position{line: 2401, col: 9, offset: 78533},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2920, col: 11, offset: 92935},
+												pos: position{line: 2932, col: 11, offset: 93451},
 												expr: &anyMatcher{
-													line: 2920, col: 13, offset: 92937,
+													line: 2932, col: 13, offset: 93453,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2390, col: 9, offset: 78032},
+												pos:   position{line: 2402, col: 9, offset: 78548},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2391, col: 13, offset: 78054},
+													pos: position{line: 2403, col: 13, offset: 78570},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2795, col: 5, offset: 89629},
+															pos: position{line: 2807, col: 5, offset: 90145},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2795, col: 5, offset: 89629},
+																pos: position{line: 2807, col: 5, offset: 90145},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2795, col: 5, offset: 89629},
+																		pos: position{line: 2807, col: 5, offset: 90145},
 																		expr: &seqExpr{
-																			pos: position{line: 2796, col: 9, offset: 89640},
+																			pos: position{line: 2808, col: 9, offset: 90156},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 2796, col: 9, offset: 89640},
+																					pos:   position{line: 2808, col: 9, offset: 90156},
 																					label: "name",
 																					expr: &actionExpr{
-																						pos: position{line: 2775, col: 18, offset: 89146},
+																						pos: position{line: 2787, col: 18, offset: 89662},
 																						run: (*parser).callonNormalGroup16,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2775, col: 19, offset: 89147},
+																							pos: position{line: 2787, col: 19, offset: 89663},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2775, col: 19, offset: 89147},
+																								pos:        position{line: 2787, col: 19, offset: 89663},
 																								val:        "[_-\\pL\\pN]",
 																								chars:      []rune{'_', '-'},
 																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -45769,28 +45953,28 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2797, col: 9, offset: 89733},
+																					pos:        position{line: 2809, col: 9, offset: 90249},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2798, col: 9, offset: 89745},
+																					pos: position{line: 2810, col: 9, offset: 90261},
 																					run: (*parser).callonNormalGroup20,
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2802, col: 5, offset: 89822},
+																		pos:   position{line: 2814, col: 5, offset: 90338},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2802, col: 11, offset: 89828},
+																			pos: position{line: 2814, col: 11, offset: 90344},
 																			run: (*parser).callonNormalGroup22,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2802, col: 11, offset: 89828},
+																				pos: position{line: 2814, col: 11, offset: 90344},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2802, col: 11, offset: 89828},
+																					pos:        position{line: 2814, col: 11, offset: 90344},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -45800,44 +45984,44 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2805, col: 5, offset: 89886},
+																		pos: position{line: 2817, col: 5, offset: 90402},
 																		expr: &seqExpr{
-																			pos: position{line: 2806, col: 9, offset: 89897},
+																			pos: position{line: 2818, col: 9, offset: 90413},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2806, col: 9, offset: 89897},
+																					pos:        position{line: 2818, col: 9, offset: 90413},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2807, col: 9, offset: 89946},
+																					pos: position{line: 2819, col: 9, offset: 90462},
 																					run: (*parser).callonNormalGroup28,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2811, col: 5, offset: 90026},
+																		pos: position{line: 2823, col: 5, offset: 90542},
 																		expr: &seqExpr{
-																			pos: position{line: 2812, col: 9, offset: 90037},
+																			pos: position{line: 2824, col: 9, offset: 90553},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 2812, col: 9, offset: 90037},
+																					pos: position{line: 2824, col: 9, offset: 90553},
 																					expr: &seqExpr{
-																						pos: position{line: 2812, col: 10, offset: 90038},
+																						pos: position{line: 2824, col: 10, offset: 90554},
 																						exprs: []interface{}{
 																							&charClassMatcher{
-																								pos:        position{line: 2812, col: 10, offset: 90038},
+																								pos:        position{line: 2824, col: 10, offset: 90554},
 																								val:        "[._%+-]",
 																								chars:      []rune{'.', '_', '%', '+', '-'},
 																								ignoreCase: false,
 																								inverted:   false,
 																							},
 																							&oneOrMoreExpr{
-																								pos: position{line: 2812, col: 18, offset: 90046},
+																								pos: position{line: 2824, col: 18, offset: 90562},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2812, col: 18, offset: 90046},
+																									pos:        position{line: 2824, col: 18, offset: 90562},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -45848,13 +46032,13 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2812, col: 30, offset: 90058},
+																					pos:        position{line: 2824, col: 30, offset: 90574},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2812, col: 34, offset: 90062},
+																					pos:        position{line: 2824, col: 34, offset: 90578},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -45867,12 +46051,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2907, col: 11, offset: 92662},
+															pos: position{line: 2919, col: 11, offset: 93178},
 															run: (*parser).callonNormalGroup38,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2907, col: 11, offset: 92662},
+																pos: position{line: 2919, col: 11, offset: 93178},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2907, col: 11, offset: 92662},
+																	pos:        position{line: 2919, col: 11, offset: 93178},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -45881,29 +46065,29 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2393, col: 15, offset: 78100},
+															pos:  position{line: 2405, col: 15, offset: 78616},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2521, col: 5, offset: 82011},
+															pos: position{line: 2533, col: 5, offset: 82527},
 															run: (*parser).callonNormalGroup42,
 															expr: &seqExpr{
-																pos: position{line: 2521, col: 5, offset: 82011},
+																pos: position{line: 2533, col: 5, offset: 82527},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2521, col: 5, offset: 82011},
+																		pos: position{line: 2533, col: 5, offset: 82527},
 																		run: (*parser).callonNormalGroup44,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2524, col: 5, offset: 82082},
+																		pos:        position{line: 2536, col: 5, offset: 82598},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2524, col: 10, offset: 82087},
+																		pos: position{line: 2536, col: 10, offset: 82603},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2524, col: 11, offset: 82088},
+																			pos:        position{line: 2536, col: 11, offset: 82604},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -45914,29 +46098,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2530, col: 5, offset: 82280},
+															pos: position{line: 2542, col: 5, offset: 82796},
 															run: (*parser).callonNormalGroup48,
 															expr: &seqExpr{
-																pos: position{line: 2530, col: 5, offset: 82280},
+																pos: position{line: 2542, col: 5, offset: 82796},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2530, col: 5, offset: 82280},
+																		pos: position{line: 2542, col: 5, offset: 82796},
 																		run: (*parser).callonNormalGroup50,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2533, col: 5, offset: 82351},
+																		pos: position{line: 2545, col: 5, offset: 82867},
 																		run: (*parser).callonNormalGroup51,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2537, col: 5, offset: 82476},
+																		pos:        position{line: 2549, col: 5, offset: 82992},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2537, col: 9, offset: 82480},
+																		pos: position{line: 2549, col: 9, offset: 82996},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2537, col: 10, offset: 82481},
+																			pos:        position{line: 2549, col: 10, offset: 82997},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -45947,27 +46131,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2820, col: 5, offset: 90255},
+															pos: position{line: 2832, col: 5, offset: 90771},
 															run: (*parser).callonNormalGroup55,
 															expr: &choiceExpr{
-																pos: position{line: 2821, col: 9, offset: 90265},
+																pos: position{line: 2833, col: 9, offset: 90781},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2821, col: 10, offset: 90266},
+																		pos:        position{line: 2833, col: 10, offset: 90782},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2823, col: 13, offset: 90363},
+																		pos: position{line: 2835, col: 13, offset: 90879},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2823, col: 13, offset: 90363},
+																				pos: position{line: 2835, col: 13, offset: 90879},
 																				run: (*parser).callonNormalGroup59,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2826, col: 13, offset: 90463},
+																				pos:        position{line: 2838, col: 13, offset: 90979},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -45975,20 +46159,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2826, col: 19, offset: 90469},
+																		pos:        position{line: 2838, col: 19, offset: 90985},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2829, col: 13, offset: 90507},
+																		pos: position{line: 2841, col: 13, offset: 91023},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2829, col: 13, offset: 90507},
+																				pos: position{line: 2841, col: 13, offset: 91023},
 																				run: (*parser).callonNormalGroup63,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2832, col: 14, offset: 90600},
+																				pos:        position{line: 2844, col: 14, offset: 91116},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -45997,18 +46181,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2834, col: 12, offset: 90644},
+																		pos: position{line: 2846, col: 12, offset: 91160},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2834, col: 12, offset: 90644},
+																				pos:        position{line: 2846, col: 12, offset: 91160},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2834, col: 16, offset: 90648},
+																				pos: position{line: 2846, col: 16, offset: 91164},
 																				expr: &litMatcher{
-																					pos:        position{line: 2834, col: 17, offset: 90649},
+																					pos:        position{line: 2846, col: 17, offset: 91165},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -46020,25 +46204,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2912, col: 12, offset: 92772},
+															pos: position{line: 2924, col: 12, offset: 93288},
 															run: (*parser).callonNormalGroup69,
 															expr: &choiceExpr{
-																pos: position{line: 2912, col: 13, offset: 92773},
+																pos: position{line: 2924, col: 13, offset: 93289},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2912, col: 13, offset: 92773},
+																		pos:        position{line: 2924, col: 13, offset: 93289},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2912, col: 20, offset: 92780},
+																		pos:        position{line: 2924, col: 20, offset: 93296},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2912, col: 29, offset: 92789},
+																		pos:        position{line: 2924, col: 29, offset: 93305},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -46393,35 +46577,35 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2398, col: 15, offset: 78267},
+															pos:  position{line: 2410, col: 15, offset: 78783},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2399, col: 15, offset: 78287},
+															pos:  position{line: 2411, col: 15, offset: 78803},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2400, col: 15, offset: 78376},
+															pos:  position{line: 2412, col: 15, offset: 78892},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2490, col: 5, offset: 80840},
+															pos: position{line: 2502, col: 5, offset: 81356},
 															run: (*parser).callonNormalGroup146,
 															expr: &seqExpr{
-																pos: position{line: 2490, col: 5, offset: 80840},
+																pos: position{line: 2502, col: 5, offset: 81356},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2490, col: 5, offset: 80840},
+																		pos: position{line: 2502, col: 5, offset: 81356},
 																		run: (*parser).callonNormalGroup148,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2493, col: 5, offset: 80916},
+																		pos:   position{line: 2505, col: 5, offset: 81432},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2494, col: 9, offset: 80934},
+																			pos: position{line: 2506, col: 9, offset: 81450},
 																			run: (*parser).callonNormalGroup150,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2494, col: 10, offset: 80935},
+																				pos:        position{line: 2506, col: 10, offset: 81451},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -46455,10 +46639,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1219, col: 5, offset: 37756},
 																		expr: &actionExpr{
-																			pos: position{line: 2903, col: 10, offset: 92601},
+																			pos: position{line: 2915, col: 10, offset: 93117},
 																			run: (*parser).callonNormalGroup158,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2903, col: 10, offset: 92601},
+																				pos:        position{line: 2915, col: 10, offset: 93117},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46469,28 +46653,28 @@ var g = &grammar{
 																	&andExpr{
 																		pos: position{line: 1219, col: 12, offset: 37763},
 																		expr: &choiceExpr{
-																			pos: position{line: 2925, col: 8, offset: 92999},
+																			pos: position{line: 2937, col: 8, offset: 93515},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2912, col: 12, offset: 92772},
+																					pos: position{line: 2924, col: 12, offset: 93288},
 																					run: (*parser).callonNormalGroup162,
 																					expr: &choiceExpr{
-																						pos: position{line: 2912, col: 13, offset: 92773},
+																						pos: position{line: 2924, col: 13, offset: 93289},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2912, col: 13, offset: 92773},
+																								pos:        position{line: 2924, col: 13, offset: 93289},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2912, col: 20, offset: 92780},
+																								pos:        position{line: 2924, col: 20, offset: 93296},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2912, col: 29, offset: 92789},
+																								pos:        position{line: 2924, col: 29, offset: 93305},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -46499,9 +46683,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2922, col: 8, offset: 92949},
+																					pos: position{line: 2934, col: 8, offset: 93465},
 																					expr: &anyMatcher{
-																						line: 2922, col: 9, offset: 92950,
+																						line: 2934, col: 9, offset: 93466,
 																					},
 																				},
 																			},
@@ -46511,7 +46695,7 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2403, col: 15, offset: 78558},
+															pos:  position{line: 2415, col: 15, offset: 79074},
 															name: "InlinePassthrough",
 														},
 														&actionExpr{
@@ -46558,10 +46742,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2842, col: 12, offset: 90909},
+															pos: position{line: 2854, col: 12, offset: 91425},
 															run: (*parser).callonNormalGroup179,
 															expr: &charClassMatcher{
-																pos:        position{line: 2842, col: 12, offset: 90909},
+																pos:        position{line: 2854, col: 12, offset: 91425},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -46577,9 +46761,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2922, col: 8, offset: 92949},
+							pos: position{line: 2934, col: 8, offset: 93465},
 							expr: &anyMatcher{
-								line: 2922, col: 9, offset: 92950,
+								line: 2934, col: 9, offset: 93466,
 							},
 						},
 					},
@@ -46588,28 +46772,28 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2414, col: 1, offset: 78996},
+			pos:  position{line: 2426, col: 1, offset: 79512},
 			expr: &actionExpr{
-				pos: position{line: 2415, col: 5, offset: 79029},
+				pos: position{line: 2427, col: 5, offset: 79545},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2415, col: 5, offset: 79029},
+					pos: position{line: 2427, col: 5, offset: 79545},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2415, col: 5, offset: 79029},
+							pos:   position{line: 2427, col: 5, offset: 79545},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2415, col: 14, offset: 79038},
+								pos: position{line: 2427, col: 14, offset: 79554},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2415, col: 15, offset: 79039},
+									pos:  position{line: 2427, col: 15, offset: 79555},
 									name: "AttributeStructuredValueElement",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2922, col: 8, offset: 92949},
+							pos: position{line: 2934, col: 8, offset: 93465},
 							expr: &anyMatcher{
-								line: 2922, col: 9, offset: 92950,
+								line: 2934, col: 9, offset: 93466,
 							},
 						},
 					},
@@ -46618,46 +46802,46 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2419, col: 1, offset: 79136},
+			pos:  position{line: 2431, col: 1, offset: 79652},
 			expr: &actionExpr{
-				pos: position{line: 2420, col: 5, offset: 79176},
+				pos: position{line: 2432, col: 5, offset: 79692},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2420, col: 5, offset: 79176},
+					pos: position{line: 2432, col: 5, offset: 79692},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2920, col: 11, offset: 92935},
+							pos: position{line: 2932, col: 11, offset: 93451},
 							expr: &anyMatcher{
-								line: 2920, col: 13, offset: 92937,
+								line: 2932, col: 13, offset: 93453,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2421, col: 5, offset: 79187},
+							pos:   position{line: 2433, col: 5, offset: 79703},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2422, col: 9, offset: 79205},
+								pos: position{line: 2434, col: 9, offset: 79721},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2795, col: 5, offset: 89629},
+										pos: position{line: 2807, col: 5, offset: 90145},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2795, col: 5, offset: 89629},
+											pos: position{line: 2807, col: 5, offset: 90145},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2795, col: 5, offset: 89629},
+													pos: position{line: 2807, col: 5, offset: 90145},
 													expr: &seqExpr{
-														pos: position{line: 2796, col: 9, offset: 89640},
+														pos: position{line: 2808, col: 9, offset: 90156},
 														exprs: []interface{}{
 															&labeledExpr{
-																pos:   position{line: 2796, col: 9, offset: 89640},
+																pos:   position{line: 2808, col: 9, offset: 90156},
 																label: "name",
 																expr: &actionExpr{
-																	pos: position{line: 2775, col: 18, offset: 89146},
+																	pos: position{line: 2787, col: 18, offset: 89662},
 																	run: (*parser).callonAttributeStructuredValueElement12,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2775, col: 19, offset: 89147},
+																		pos: position{line: 2787, col: 19, offset: 89663},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2775, col: 19, offset: 89147},
+																			pos:        position{line: 2787, col: 19, offset: 89663},
 																			val:        "[_-\\pL\\pN]",
 																			chars:      []rune{'_', '-'},
 																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -46668,28 +46852,28 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2797, col: 9, offset: 89733},
+																pos:        position{line: 2809, col: 9, offset: 90249},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2798, col: 9, offset: 89745},
+																pos: position{line: 2810, col: 9, offset: 90261},
 																run: (*parser).callonAttributeStructuredValueElement16,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2802, col: 5, offset: 89822},
+													pos:   position{line: 2814, col: 5, offset: 90338},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2802, col: 11, offset: 89828},
+														pos: position{line: 2814, col: 11, offset: 90344},
 														run: (*parser).callonAttributeStructuredValueElement18,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2802, col: 11, offset: 89828},
+															pos: position{line: 2814, col: 11, offset: 90344},
 															expr: &charClassMatcher{
-																pos:        position{line: 2802, col: 11, offset: 89828},
+																pos:        position{line: 2814, col: 11, offset: 90344},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -46699,44 +46883,44 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2805, col: 5, offset: 89886},
+													pos: position{line: 2817, col: 5, offset: 90402},
 													expr: &seqExpr{
-														pos: position{line: 2806, col: 9, offset: 89897},
+														pos: position{line: 2818, col: 9, offset: 90413},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2806, col: 9, offset: 89897},
+																pos:        position{line: 2818, col: 9, offset: 90413},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2807, col: 9, offset: 89946},
+																pos: position{line: 2819, col: 9, offset: 90462},
 																run: (*parser).callonAttributeStructuredValueElement24,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2811, col: 5, offset: 90026},
+													pos: position{line: 2823, col: 5, offset: 90542},
 													expr: &seqExpr{
-														pos: position{line: 2812, col: 9, offset: 90037},
+														pos: position{line: 2824, col: 9, offset: 90553},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 2812, col: 9, offset: 90037},
+																pos: position{line: 2824, col: 9, offset: 90553},
 																expr: &seqExpr{
-																	pos: position{line: 2812, col: 10, offset: 90038},
+																	pos: position{line: 2824, col: 10, offset: 90554},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2812, col: 10, offset: 90038},
+																			pos:        position{line: 2824, col: 10, offset: 90554},
 																			val:        "[._%+-]",
 																			chars:      []rune{'.', '_', '%', '+', '-'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2812, col: 18, offset: 90046},
+																			pos: position{line: 2824, col: 18, offset: 90562},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2812, col: 18, offset: 90046},
+																				pos:        position{line: 2824, col: 18, offset: 90562},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -46747,13 +46931,13 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 2812, col: 30, offset: 90058},
+																pos:        position{line: 2824, col: 30, offset: 90574},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2812, col: 34, offset: 90062},
+																pos:        position{line: 2824, col: 34, offset: 90578},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -46766,10 +46950,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2903, col: 10, offset: 92601},
+										pos: position{line: 2915, col: 10, offset: 93117},
 										run: (*parser).callonAttributeStructuredValueElement34,
 										expr: &charClassMatcher{
-											pos:        position{line: 2903, col: 10, offset: 92601},
+											pos:        position{line: 2915, col: 10, offset: 93117},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -46777,31 +46961,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2424, col: 11, offset: 79243},
+										pos:  position{line: 2436, col: 11, offset: 79759},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2820, col: 5, offset: 90255},
+										pos: position{line: 2832, col: 5, offset: 90771},
 										run: (*parser).callonAttributeStructuredValueElement37,
 										expr: &choiceExpr{
-											pos: position{line: 2821, col: 9, offset: 90265},
+											pos: position{line: 2833, col: 9, offset: 90781},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2821, col: 10, offset: 90266},
+													pos:        position{line: 2833, col: 10, offset: 90782},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2823, col: 13, offset: 90363},
+													pos: position{line: 2835, col: 13, offset: 90879},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2823, col: 13, offset: 90363},
+															pos: position{line: 2835, col: 13, offset: 90879},
 															run: (*parser).callonAttributeStructuredValueElement41,
 														},
 														&litMatcher{
-															pos:        position{line: 2826, col: 13, offset: 90463},
+															pos:        position{line: 2838, col: 13, offset: 90979},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -46809,20 +46993,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2826, col: 19, offset: 90469},
+													pos:        position{line: 2838, col: 19, offset: 90985},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2829, col: 13, offset: 90507},
+													pos: position{line: 2841, col: 13, offset: 91023},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2829, col: 13, offset: 90507},
+															pos: position{line: 2841, col: 13, offset: 91023},
 															run: (*parser).callonAttributeStructuredValueElement45,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2832, col: 14, offset: 90600},
+															pos:        position{line: 2844, col: 14, offset: 91116},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -46831,18 +47015,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2834, col: 12, offset: 90644},
+													pos: position{line: 2846, col: 12, offset: 91160},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2834, col: 12, offset: 90644},
+															pos:        position{line: 2846, col: 12, offset: 91160},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2834, col: 16, offset: 90648},
+															pos: position{line: 2846, col: 16, offset: 91164},
 															expr: &litMatcher{
-																pos:        position{line: 2834, col: 17, offset: 90649},
+																pos:        position{line: 2846, col: 17, offset: 91165},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -46854,31 +47038,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2426, col: 11, offset: 79316},
+										pos:  position{line: 2438, col: 11, offset: 79832},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2427, col: 11, offset: 79332},
+										pos:  position{line: 2439, col: 11, offset: 79848},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2490, col: 5, offset: 80840},
+										pos: position{line: 2502, col: 5, offset: 81356},
 										run: (*parser).callonAttributeStructuredValueElement53,
 										expr: &seqExpr{
-											pos: position{line: 2490, col: 5, offset: 80840},
+											pos: position{line: 2502, col: 5, offset: 81356},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2490, col: 5, offset: 80840},
+													pos: position{line: 2502, col: 5, offset: 81356},
 													run: (*parser).callonAttributeStructuredValueElement55,
 												},
 												&labeledExpr{
-													pos:   position{line: 2493, col: 5, offset: 80916},
+													pos:   position{line: 2505, col: 5, offset: 81432},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2494, col: 9, offset: 80934},
+														pos: position{line: 2506, col: 9, offset: 81450},
 														run: (*parser).callonAttributeStructuredValueElement57,
 														expr: &charClassMatcher{
-															pos:        position{line: 2494, col: 10, offset: 80935},
+															pos:        position{line: 2506, col: 10, offset: 81451},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -46933,25 +47117,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2912, col: 12, offset: 92772},
+										pos: position{line: 2924, col: 12, offset: 93288},
 										run: (*parser).callonAttributeStructuredValueElement68,
 										expr: &choiceExpr{
-											pos: position{line: 2912, col: 13, offset: 92773},
+											pos: position{line: 2924, col: 13, offset: 93289},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2912, col: 13, offset: 92773},
+													pos:        position{line: 2924, col: 13, offset: 93289},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2912, col: 20, offset: 92780},
+													pos:        position{line: 2924, col: 20, offset: 93296},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2912, col: 29, offset: 92789},
+													pos:        position{line: 2924, col: 29, offset: 93305},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -46960,10 +47144,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2842, col: 12, offset: 90909},
+										pos: position{line: 2854, col: 12, offset: 91425},
 										run: (*parser).callonAttributeStructuredValueElement73,
 										expr: &charClassMatcher{
-											pos:        position{line: 2842, col: 12, offset: 90909},
+											pos:        position{line: 2854, col: 12, offset: 91425},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -46979,49 +47163,49 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2438, col: 1, offset: 79602},
+			pos:  position{line: 2450, col: 1, offset: 80118},
 			expr: &actionExpr{
-				pos: position{line: 2440, col: 5, offset: 79684},
+				pos: position{line: 2452, col: 5, offset: 80200},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2440, col: 5, offset: 79684},
+					pos: position{line: 2452, col: 5, offset: 80200},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2440, col: 5, offset: 79684},
+							pos: position{line: 2452, col: 5, offset: 80200},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2443, col: 5, offset: 79749},
+							pos:   position{line: 2455, col: 5, offset: 80265},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2444, col: 9, offset: 79767},
+								pos: position{line: 2456, col: 9, offset: 80283},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2444, col: 9, offset: 79767},
+										pos:  position{line: 2456, col: 9, offset: 80283},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2445, col: 11, offset: 79788},
+										pos:  position{line: 2457, col: 11, offset: 80304},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2446, col: 11, offset: 79811},
+										pos:  position{line: 2458, col: 11, offset: 80327},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2447, col: 11, offset: 79827},
+										pos:  position{line: 2459, col: 11, offset: 80343},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2448, col: 11, offset: 79856},
+										pos:  position{line: 2460, col: 11, offset: 80372},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2449, col: 11, offset: 79882},
+										pos:  position{line: 2461, col: 11, offset: 80398},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2450, col: 11, offset: 79908},
+										pos:  position{line: 2462, col: 11, offset: 80424},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
@@ -47040,12 +47224,12 @@ var g = &grammar{
 													pos:   position{line: 1258, col: 14, offset: 38908},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2888, col: 7, offset: 92253},
+														pos: position{line: 2900, col: 7, offset: 92769},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2888, col: 7, offset: 92253},
+															pos: position{line: 2900, col: 7, offset: 92769},
 															expr: &charClassMatcher{
-																pos:        position{line: 2888, col: 7, offset: 92253},
+																pos:        position{line: 2900, col: 7, offset: 92769},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -47079,12 +47263,12 @@ var g = &grammar{
 													pos:   position{line: 1263, col: 10, offset: 39083},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2888, col: 7, offset: 92253},
+														pos: position{line: 2900, col: 7, offset: 92769},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2888, col: 7, offset: 92253},
+															pos: position{line: 2900, col: 7, offset: 92769},
 															expr: &charClassMatcher{
-																pos:        position{line: 2888, col: 7, offset: 92253},
+																pos:        position{line: 2900, col: 7, offset: 92769},
 																val:        "[^[]<>,\\r\\n]",
 																chars:      []rune{'[', ']', '<', '>', ',', '\r', '\n'},
 																ignoreCase: false,
@@ -47126,17 +47310,17 @@ var g = &grammar{
 																pos: position{line: 1309, col: 31, offset: 40905},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2786, col: 13, offset: 89482},
+																		pos:        position{line: 2798, col: 13, offset: 89998},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2903, col: 10, offset: 92601},
+																		pos: position{line: 2915, col: 10, offset: 93117},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2903, col: 10, offset: 92601},
+																			pos:        position{line: 2915, col: 10, offset: 93117},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -47162,10 +47346,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1303, col: 12, offset: 40619},
 																		expr: &actionExpr{
-																			pos: position{line: 2903, col: 10, offset: 92601},
+																			pos: position{line: 2915, col: 10, offset: 93117},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2903, col: 10, offset: 92601},
+																				pos:        position{line: 2915, col: 10, offset: 93117},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47182,10 +47366,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1303, col: 23, offset: 40630},
 																		expr: &actionExpr{
-																			pos: position{line: 2903, col: 10, offset: 92601},
+																			pos: position{line: 2915, col: 10, offset: 93117},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2903, col: 10, offset: 92601},
+																				pos:        position{line: 2915, col: 10, offset: 93117},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47205,17 +47389,17 @@ var g = &grammar{
 																					pos: position{line: 1309, col: 31, offset: 40905},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2786, col: 13, offset: 89482},
+																							pos:        position{line: 2798, col: 13, offset: 89998},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2903, col: 10, offset: 92601},
+																							pos: position{line: 2915, col: 10, offset: 93117},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2903, col: 10, offset: 92601},
+																								pos:        position{line: 2915, col: 10, offset: 93117},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -47246,10 +47430,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1304, col: 12, offset: 40711},
 																		expr: &actionExpr{
-																			pos: position{line: 2903, col: 10, offset: 92601},
+																			pos: position{line: 2915, col: 10, offset: 93117},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2903, col: 10, offset: 92601},
+																				pos:        position{line: 2915, col: 10, offset: 93117},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47266,10 +47450,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1304, col: 23, offset: 40722},
 																		expr: &actionExpr{
-																			pos: position{line: 2903, col: 10, offset: 92601},
+																			pos: position{line: 2915, col: 10, offset: 93117},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2903, col: 10, offset: 92601},
+																				pos:        position{line: 2915, col: 10, offset: 93117},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47289,17 +47473,17 @@ var g = &grammar{
 																					pos: position{line: 1309, col: 31, offset: 40905},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2786, col: 13, offset: 89482},
+																							pos:        position{line: 2798, col: 13, offset: 89998},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2903, col: 10, offset: 92601},
+																							pos: position{line: 2915, col: 10, offset: 93117},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2903, col: 10, offset: 92601},
+																								pos:        position{line: 2915, col: 10, offset: 93117},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -47326,15 +47510,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2453, col: 11, offset: 79987},
+										pos:  position{line: 2465, col: 11, offset: 80503},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2454, col: 11, offset: 80007},
+										pos:  position{line: 2466, col: 11, offset: 80523},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2455, col: 11, offset: 80030},
+										pos:  position{line: 2467, col: 11, offset: 80546},
 										name: "InlineMenu",
 									},
 								},
@@ -47346,22 +47530,22 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2459, col: 1, offset: 80087},
+			pos:  position{line: 2471, col: 1, offset: 80603},
 			expr: &actionExpr{
-				pos: position{line: 2461, col: 5, offset: 80175},
+				pos: position{line: 2473, col: 5, offset: 80691},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2461, col: 5, offset: 80175},
+					pos: position{line: 2473, col: 5, offset: 80691},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2461, col: 5, offset: 80175},
+							pos: position{line: 2473, col: 5, offset: 80691},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2464, col: 5, offset: 80252},
+							pos:   position{line: 2476, col: 5, offset: 80768},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2465, col: 9, offset: 80270},
+								pos: position{line: 2477, col: 9, offset: 80786},
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 1384, col: 26, offset: 44242},
@@ -47416,10 +47600,10 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1390, col: 12, offset: 44688},
 																				expr: &actionExpr{
-																					pos: position{line: 2903, col: 10, offset: 92601},
+																					pos: position{line: 2915, col: 10, offset: 93117},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2903, col: 10, offset: 92601},
+																						pos:        position{line: 2915, col: 10, offset: 93117},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -47430,25 +47614,25 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1390, col: 19, offset: 44695},
 																				expr: &actionExpr{
-																					pos: position{line: 2912, col: 12, offset: 92772},
+																					pos: position{line: 2924, col: 12, offset: 93288},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2912, col: 13, offset: 92773},
+																						pos: position{line: 2924, col: 13, offset: 93289},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2912, col: 13, offset: 92773},
+																								pos:        position{line: 2924, col: 13, offset: 93289},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2912, col: 20, offset: 92780},
+																								pos:        position{line: 2924, col: 20, offset: 93296},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2912, col: 29, offset: 92789},
+																								pos:        position{line: 2924, col: 29, offset: 93305},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -47485,7 +47669,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1384, col: 121, offset: 44337},
 													expr: &charClassMatcher{
-														pos:        position{line: 2786, col: 13, offset: 89482},
+														pos:        position{line: 2798, col: 13, offset: 89998},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -47531,10 +47715,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1376, col: 64, offset: 43797},
 																			expr: &actionExpr{
-																				pos: position{line: 2903, col: 10, offset: 92601},
+																				pos: position{line: 2915, col: 10, offset: 93117},
 																				run: (*parser).callonInlinePassthrough45,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2903, col: 10, offset: 92601},
+																					pos:        position{line: 2915, col: 10, offset: 93117},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -47545,25 +47729,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1376, col: 71, offset: 43804},
 																			expr: &actionExpr{
-																				pos: position{line: 2912, col: 12, offset: 92772},
+																				pos: position{line: 2924, col: 12, offset: 93288},
 																				run: (*parser).callonInlinePassthrough48,
 																				expr: &choiceExpr{
-																					pos: position{line: 2912, col: 13, offset: 92773},
+																					pos: position{line: 2924, col: 13, offset: 93289},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 13, offset: 92773},
+																							pos:        position{line: 2924, col: 13, offset: 93289},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 20, offset: 92780},
+																							pos:        position{line: 2924, col: 20, offset: 93296},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 29, offset: 92789},
+																							pos:        position{line: 2924, col: 29, offset: 93305},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -47586,12 +47770,12 @@ var g = &grammar{
 																							pos: position{line: 1376, col: 86, offset: 43819},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2907, col: 11, offset: 92662},
+																									pos: position{line: 2919, col: 11, offset: 93178},
 																									run: (*parser).callonInlinePassthrough58,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2907, col: 11, offset: 92662},
+																										pos: position{line: 2919, col: 11, offset: 93178},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2907, col: 11, offset: 92662},
+																											pos:        position{line: 2919, col: 11, offset: 93178},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -47620,25 +47804,25 @@ var g = &grammar{
 																					&notExpr{
 																						pos: position{line: 1376, col: 151, offset: 43884},
 																						expr: &actionExpr{
-																							pos: position{line: 2912, col: 12, offset: 92772},
+																							pos: position{line: 2924, col: 12, offset: 93288},
 																							run: (*parser).callonInlinePassthrough65,
 																							expr: &choiceExpr{
-																								pos: position{line: 2912, col: 13, offset: 92773},
+																								pos: position{line: 2924, col: 13, offset: 93289},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2912, col: 13, offset: 92773},
+																										pos:        position{line: 2924, col: 13, offset: 93289},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2912, col: 20, offset: 92780},
+																										pos:        position{line: 2924, col: 20, offset: 93296},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2912, col: 29, offset: 92789},
+																										pos:        position{line: 2924, col: 29, offset: 93305},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -47665,10 +47849,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1378, col: 12, offset: 44044},
 																			expr: &actionExpr{
-																				pos: position{line: 2903, col: 10, offset: 92601},
+																				pos: position{line: 2915, col: 10, offset: 93117},
 																				run: (*parser).callonInlinePassthrough74,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2903, col: 10, offset: 92601},
+																					pos:        position{line: 2915, col: 10, offset: 93117},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -47679,25 +47863,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1378, col: 19, offset: 44051},
 																			expr: &actionExpr{
-																				pos: position{line: 2912, col: 12, offset: 92772},
+																				pos: position{line: 2924, col: 12, offset: 93288},
 																				run: (*parser).callonInlinePassthrough77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2912, col: 13, offset: 92773},
+																					pos: position{line: 2924, col: 13, offset: 93289},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 13, offset: 92773},
+																							pos:        position{line: 2924, col: 13, offset: 93289},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 20, offset: 92780},
+																							pos:        position{line: 2924, col: 20, offset: 93296},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2912, col: 29, offset: 92789},
+																							pos:        position{line: 2924, col: 29, offset: 93305},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -47733,7 +47917,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1372, col: 121, offset: 43620},
 													expr: &charClassMatcher{
-														pos:        position{line: 2786, col: 13, offset: 89482},
+														pos:        position{line: 2798, col: 13, offset: 89998},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -47744,7 +47928,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2465, col: 57, offset: 80318},
+										pos:  position{line: 2477, col: 57, offset: 80834},
 										name: "PassthroughMacro",
 									},
 								},
@@ -47756,16 +47940,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2470, col: 1, offset: 80378},
+			pos:  position{line: 2482, col: 1, offset: 80894},
 			expr: &seqExpr{
-				pos: position{line: 2472, col: 5, offset: 80454},
+				pos: position{line: 2484, col: 5, offset: 80970},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2472, col: 5, offset: 80454},
+						pos: position{line: 2484, col: 5, offset: 80970},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2475, col: 5, offset: 80519},
+						pos:  position{line: 2487, col: 5, offset: 81035},
 						name: "QuotedText",
 					},
 				},
@@ -47773,22 +47957,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2477, col: 1, offset: 80532},
+			pos:  position{line: 2489, col: 1, offset: 81048},
 			expr: &actionExpr{
-				pos: position{line: 2479, col: 5, offset: 80614},
+				pos: position{line: 2491, col: 5, offset: 81130},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2479, col: 5, offset: 80614},
+					pos: position{line: 2491, col: 5, offset: 81130},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2479, col: 5, offset: 80614},
+							pos: position{line: 2491, col: 5, offset: 81130},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2482, col: 5, offset: 80685},
+							pos:   position{line: 2494, col: 5, offset: 81201},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2483, col: 9, offset: 80703},
+								pos:  position{line: 2495, col: 9, offset: 81219},
 								name: "Symbol",
 							},
 						},
@@ -47798,93 +47982,93 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2541, col: 1, offset: 82533},
+			pos:  position{line: 2553, col: 1, offset: 83049},
 			expr: &choiceExpr{
-				pos: position{line: 2543, col: 5, offset: 82563},
+				pos: position{line: 2555, col: 5, offset: 83079},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2543, col: 5, offset: 82563},
+						pos: position{line: 2555, col: 5, offset: 83079},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2543, col: 5, offset: 82563},
+							pos: position{line: 2555, col: 5, offset: 83079},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2543, col: 5, offset: 82563},
+									pos:        position{line: 2555, col: 5, offset: 83079},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2543, col: 10, offset: 82568},
+									pos: position{line: 2555, col: 10, offset: 83084},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2543, col: 10, offset: 82568},
+											pos:  position{line: 2555, col: 10, offset: 83084},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2572, col: 14, offset: 83702},
+											pos: position{line: 2584, col: 14, offset: 84218},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2572, col: 14, offset: 83702},
+												pos:        position{line: 2584, col: 14, offset: 84218},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2576, col: 14, offset: 83768},
+											pos: position{line: 2588, col: 14, offset: 84284},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2576, col: 14, offset: 83768},
+												pos:        position{line: 2588, col: 14, offset: 84284},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2580, col: 15, offset: 83837},
+											pos: position{line: 2592, col: 15, offset: 84353},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2580, col: 15, offset: 83837},
+												pos:        position{line: 2592, col: 15, offset: 84353},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2584, col: 13, offset: 83902},
+											pos: position{line: 2596, col: 13, offset: 84418},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2584, col: 13, offset: 83902},
+												pos:        position{line: 2596, col: 13, offset: 84418},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2591, col: 5, offset: 84040},
+											pos: position{line: 2603, col: 5, offset: 84556},
 											run: (*parser).callonSymbol15,
 											expr: &seqExpr{
-												pos: position{line: 2591, col: 5, offset: 84040},
+												pos: position{line: 2603, col: 5, offset: 84556},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2591, col: 5, offset: 84040},
+														pos:        position{line: 2603, col: 5, offset: 84556},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2592, col: 5, offset: 84050},
+														pos: position{line: 2604, col: 5, offset: 84566},
 														run: (*parser).callonSymbol18,
 													},
 													&choiceExpr{
-														pos: position{line: 2596, col: 6, offset: 84137},
+														pos: position{line: 2608, col: 6, offset: 84653},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2903, col: 10, offset: 92601},
+																pos: position{line: 2915, col: 10, offset: 93117},
 																run: (*parser).callonSymbol20,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2903, col: 10, offset: 92601},
+																	pos:        position{line: 2915, col: 10, offset: 93117},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -47892,30 +48076,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2596, col: 14, offset: 84145},
+																pos: position{line: 2608, col: 14, offset: 84661},
 																expr: &choiceExpr{
-																	pos: position{line: 2925, col: 8, offset: 92999},
+																	pos: position{line: 2937, col: 8, offset: 93515},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2912, col: 12, offset: 92772},
+																			pos: position{line: 2924, col: 12, offset: 93288},
 																			run: (*parser).callonSymbol24,
 																			expr: &choiceExpr{
-																				pos: position{line: 2912, col: 13, offset: 92773},
+																				pos: position{line: 2924, col: 13, offset: 93289},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 13, offset: 92773},
+																						pos:        position{line: 2924, col: 13, offset: 93289},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 20, offset: 92780},
+																						pos:        position{line: 2924, col: 20, offset: 93296},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2912, col: 29, offset: 92789},
+																						pos:        position{line: 2924, col: 29, offset: 93305},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -47924,9 +48108,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2922, col: 8, offset: 92949},
+																			pos: position{line: 2934, col: 8, offset: 93465},
 																			expr: &anyMatcher{
-																				line: 2922, col: 9, offset: 92950,
+																				line: 2934, col: 9, offset: 93466,
 																			},
 																		},
 																	},
@@ -47938,53 +48122,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2601, col: 5, offset: 84265},
+											pos: position{line: 2613, col: 5, offset: 84781},
 											run: (*parser).callonSymbol31,
 											expr: &seqExpr{
-												pos: position{line: 2601, col: 5, offset: 84265},
+												pos: position{line: 2613, col: 5, offset: 84781},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2601, col: 5, offset: 84265},
+														pos:        position{line: 2613, col: 5, offset: 84781},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2602, col: 5, offset: 84275},
+														pos: position{line: 2614, col: 5, offset: 84791},
 														run: (*parser).callonSymbol34,
 													},
 													&andExpr{
-														pos: position{line: 2606, col: 5, offset: 84364},
+														pos: position{line: 2618, col: 5, offset: 84880},
 														expr: &choiceExpr{
-															pos: position{line: 2606, col: 7, offset: 84366},
+															pos: position{line: 2618, col: 7, offset: 84882},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2786, col: 13, offset: 89482},
+																	pos:        position{line: 2798, col: 13, offset: 89998},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2912, col: 12, offset: 92772},
+																	pos: position{line: 2924, col: 12, offset: 93288},
 																	run: (*parser).callonSymbol38,
 																	expr: &choiceExpr{
-																		pos: position{line: 2912, col: 13, offset: 92773},
+																		pos: position{line: 2924, col: 13, offset: 93289},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2912, col: 13, offset: 92773},
+																				pos:        position{line: 2924, col: 13, offset: 93289},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2912, col: 20, offset: 92780},
+																				pos:        position{line: 2924, col: 20, offset: 93296},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2912, col: 29, offset: 92789},
+																				pos:        position{line: 2924, col: 29, offset: 93305},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -47993,9 +48177,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2922, col: 8, offset: 92949},
+																	pos: position{line: 2934, col: 8, offset: 93465},
 																	expr: &anyMatcher{
-																		line: 2922, col: 9, offset: 92950,
+																		line: 2934, col: 9, offset: 93466,
 																	},
 																},
 															},
@@ -48010,63 +48194,63 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2546, col: 7, offset: 82732},
+						pos: position{line: 2558, col: 7, offset: 83248},
 						run: (*parser).callonSymbol45,
 						expr: &seqExpr{
-							pos: position{line: 2546, col: 7, offset: 82732},
+							pos: position{line: 2558, col: 7, offset: 83248},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2546, col: 7, offset: 82732},
+									pos:        position{line: 2558, col: 7, offset: 83248},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2546, col: 11, offset: 82736},
+									pos:   position{line: 2558, col: 11, offset: 83252},
 									label: "elements",
 									expr: &choiceExpr{
-										pos: position{line: 2546, col: 21, offset: 82746},
+										pos: position{line: 2558, col: 21, offset: 83262},
 										alternatives: []interface{}{
 											&seqExpr{
-												pos: position{line: 2546, col: 21, offset: 82746},
+												pos: position{line: 2558, col: 21, offset: 83262},
 												exprs: []interface{}{
 													&charClassMatcher{
-														pos:        position{line: 2546, col: 21, offset: 82746},
+														pos:        position{line: 2558, col: 21, offset: 83262},
 														val:        "[-=]",
 														chars:      []rune{'-', '='},
 														ignoreCase: false,
 														inverted:   false,
 													},
 													&andExpr{
-														pos: position{line: 2546, col: 26, offset: 82751},
+														pos: position{line: 2558, col: 26, offset: 83267},
 														expr: &litMatcher{
-															pos:        position{line: 2546, col: 27, offset: 82752},
+															pos:        position{line: 2558, col: 27, offset: 83268},
 															val:        ">",
 															ignoreCase: false,
 															want:       "\">\"",
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2546, col: 32, offset: 82757},
+														pos: position{line: 2558, col: 32, offset: 83273},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2490, col: 5, offset: 80840},
+																pos: position{line: 2502, col: 5, offset: 81356},
 																run: (*parser).callonSymbol55,
 																expr: &seqExpr{
-																	pos: position{line: 2490, col: 5, offset: 80840},
+																	pos: position{line: 2502, col: 5, offset: 81356},
 																	exprs: []interface{}{
 																		&andCodeExpr{
-																			pos: position{line: 2490, col: 5, offset: 80840},
+																			pos: position{line: 2502, col: 5, offset: 81356},
 																			run: (*parser).callonSymbol57,
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 2493, col: 5, offset: 80916},
+																			pos:   position{line: 2505, col: 5, offset: 81432},
 																			label: "element",
 																			expr: &actionExpr{
-																				pos: position{line: 2494, col: 9, offset: 80934},
+																				pos: position{line: 2506, col: 9, offset: 81450},
 																				run: (*parser).callonSymbol59,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2494, col: 10, offset: 80935},
+																					pos:        position{line: 2506, col: 10, offset: 81451},
 																					val:        "[<>&]",
 																					chars:      []rune{'<', '>', '&'},
 																					ignoreCase: false,
@@ -48078,28 +48262,28 @@ var g = &grammar{
 																},
 															},
 															&anyMatcher{
-																line: 2546, col: 51, offset: 82776,
+																line: 2558, col: 51, offset: 83292,
 															},
 														},
 													},
 												},
 											},
 											&seqExpr{
-												pos: position{line: 2546, col: 56, offset: 82781},
+												pos: position{line: 2558, col: 56, offset: 83297},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2546, col: 56, offset: 82781},
+														pos: position{line: 2558, col: 56, offset: 83297},
 														expr: &choiceExpr{
-															pos: position{line: 2546, col: 58, offset: 82783},
+															pos: position{line: 2558, col: 58, offset: 83299},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2546, col: 58, offset: 82783},
+																	pos:        position{line: 2558, col: 58, offset: 83299},
 																	val:        "<-",
 																	ignoreCase: false,
 																	want:       "\"<-\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2546, col: 65, offset: 82790},
+																	pos:        position{line: 2558, col: 65, offset: 83306},
 																	val:        "<=",
 																	ignoreCase: false,
 																	want:       "\"<=\"",
@@ -48108,26 +48292,26 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2546, col: 72, offset: 82797},
+														pos: position{line: 2558, col: 72, offset: 83313},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2490, col: 5, offset: 80840},
+																pos: position{line: 2502, col: 5, offset: 81356},
 																run: (*parser).callonSymbol68,
 																expr: &seqExpr{
-																	pos: position{line: 2490, col: 5, offset: 80840},
+																	pos: position{line: 2502, col: 5, offset: 81356},
 																	exprs: []interface{}{
 																		&andCodeExpr{
-																			pos: position{line: 2490, col: 5, offset: 80840},
+																			pos: position{line: 2502, col: 5, offset: 81356},
 																			run: (*parser).callonSymbol70,
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 2493, col: 5, offset: 80916},
+																			pos:   position{line: 2505, col: 5, offset: 81432},
 																			label: "element",
 																			expr: &actionExpr{
-																				pos: position{line: 2494, col: 9, offset: 80934},
+																				pos: position{line: 2506, col: 9, offset: 81450},
 																				run: (*parser).callonSymbol72,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2494, col: 10, offset: 80935},
+																					pos:        position{line: 2506, col: 10, offset: 81451},
 																					val:        "[<>&]",
 																					chars:      []rune{'<', '>', '&'},
 																					ignoreCase: false,
@@ -48139,12 +48323,12 @@ var g = &grammar{
 																},
 															},
 															&anyMatcher{
-																line: 2546, col: 91, offset: 82816,
+																line: 2558, col: 91, offset: 83332,
 															},
 														},
 													},
 													&anyMatcher{
-														line: 2546, col: 94, offset: 82819,
+														line: 2558, col: 94, offset: 83335,
 													},
 												},
 											},
@@ -48155,73 +48339,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2547, col: 7, offset: 82853},
+						pos:  position{line: 2559, col: 7, offset: 83369},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2572, col: 14, offset: 83702},
+						pos: position{line: 2584, col: 14, offset: 84218},
 						run: (*parser).callonSymbol77,
 						expr: &litMatcher{
-							pos:        position{line: 2572, col: 14, offset: 83702},
+							pos:        position{line: 2584, col: 14, offset: 84218},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2576, col: 14, offset: 83768},
+						pos: position{line: 2588, col: 14, offset: 84284},
 						run: (*parser).callonSymbol79,
 						expr: &litMatcher{
-							pos:        position{line: 2576, col: 14, offset: 83768},
+							pos:        position{line: 2588, col: 14, offset: 84284},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2580, col: 15, offset: 83837},
+						pos: position{line: 2592, col: 15, offset: 84353},
 						run: (*parser).callonSymbol81,
 						expr: &litMatcher{
-							pos:        position{line: 2580, col: 15, offset: 83837},
+							pos:        position{line: 2592, col: 15, offset: 84353},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2584, col: 13, offset: 83902},
+						pos: position{line: 2596, col: 13, offset: 84418},
 						run: (*parser).callonSymbol83,
 						expr: &litMatcher{
-							pos:        position{line: 2584, col: 13, offset: 83902},
+							pos:        position{line: 2596, col: 13, offset: 84418},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2591, col: 5, offset: 84040},
+						pos: position{line: 2603, col: 5, offset: 84556},
 						run: (*parser).callonSymbol85,
 						expr: &seqExpr{
-							pos: position{line: 2591, col: 5, offset: 84040},
+							pos: position{line: 2603, col: 5, offset: 84556},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2591, col: 5, offset: 84040},
+									pos:        position{line: 2603, col: 5, offset: 84556},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2592, col: 5, offset: 84050},
+									pos: position{line: 2604, col: 5, offset: 84566},
 									run: (*parser).callonSymbol88,
 								},
 								&choiceExpr{
-									pos: position{line: 2596, col: 6, offset: 84137},
+									pos: position{line: 2608, col: 6, offset: 84653},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2903, col: 10, offset: 92601},
+											pos: position{line: 2915, col: 10, offset: 93117},
 											run: (*parser).callonSymbol90,
 											expr: &charClassMatcher{
-												pos:        position{line: 2903, col: 10, offset: 92601},
+												pos:        position{line: 2915, col: 10, offset: 93117},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -48229,30 +48413,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2596, col: 14, offset: 84145},
+											pos: position{line: 2608, col: 14, offset: 84661},
 											expr: &choiceExpr{
-												pos: position{line: 2925, col: 8, offset: 92999},
+												pos: position{line: 2937, col: 8, offset: 93515},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2912, col: 12, offset: 92772},
+														pos: position{line: 2924, col: 12, offset: 93288},
 														run: (*parser).callonSymbol94,
 														expr: &choiceExpr{
-															pos: position{line: 2912, col: 13, offset: 92773},
+															pos: position{line: 2924, col: 13, offset: 93289},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2912, col: 13, offset: 92773},
+																	pos:        position{line: 2924, col: 13, offset: 93289},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2912, col: 20, offset: 92780},
+																	pos:        position{line: 2924, col: 20, offset: 93296},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2912, col: 29, offset: 92789},
+																	pos:        position{line: 2924, col: 29, offset: 93305},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -48261,9 +48445,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2922, col: 8, offset: 92949},
+														pos: position{line: 2934, col: 8, offset: 93465},
 														expr: &anyMatcher{
-															line: 2922, col: 9, offset: 92950,
+															line: 2934, col: 9, offset: 93466,
 														},
 													},
 												},
@@ -48275,53 +48459,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2601, col: 5, offset: 84265},
+						pos: position{line: 2613, col: 5, offset: 84781},
 						run: (*parser).callonSymbol101,
 						expr: &seqExpr{
-							pos: position{line: 2601, col: 5, offset: 84265},
+							pos: position{line: 2613, col: 5, offset: 84781},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2601, col: 5, offset: 84265},
+									pos:        position{line: 2613, col: 5, offset: 84781},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2602, col: 5, offset: 84275},
+									pos: position{line: 2614, col: 5, offset: 84791},
 									run: (*parser).callonSymbol104,
 								},
 								&andExpr{
-									pos: position{line: 2606, col: 5, offset: 84364},
+									pos: position{line: 2618, col: 5, offset: 84880},
 									expr: &choiceExpr{
-										pos: position{line: 2606, col: 7, offset: 84366},
+										pos: position{line: 2618, col: 7, offset: 84882},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2786, col: 13, offset: 89482},
+												pos:        position{line: 2798, col: 13, offset: 89998},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2912, col: 12, offset: 92772},
+												pos: position{line: 2924, col: 12, offset: 93288},
 												run: (*parser).callonSymbol108,
 												expr: &choiceExpr{
-													pos: position{line: 2912, col: 13, offset: 92773},
+													pos: position{line: 2924, col: 13, offset: 93289},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2912, col: 13, offset: 92773},
+															pos:        position{line: 2924, col: 13, offset: 93289},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2912, col: 20, offset: 92780},
+															pos:        position{line: 2924, col: 20, offset: 93296},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2912, col: 29, offset: 92789},
+															pos:        position{line: 2924, col: 29, offset: 93305},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -48330,9 +48514,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2922, col: 8, offset: 92949},
+												pos: position{line: 2934, col: 8, offset: 93465},
 												expr: &anyMatcher{
-													line: 2922, col: 9, offset: 92950,
+													line: 2934, col: 9, offset: 93466,
 												},
 											},
 										},
@@ -48342,40 +48526,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2612, col: 21, offset: 84454},
+						pos: position{line: 2624, col: 21, offset: 84970},
 						run: (*parser).callonSymbol115,
 						expr: &litMatcher{
-							pos:        position{line: 2612, col: 21, offset: 84454},
+							pos:        position{line: 2624, col: 21, offset: 84970},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2616, col: 20, offset: 84524},
+						pos: position{line: 2628, col: 20, offset: 85040},
 						run: (*parser).callonSymbol117,
 						expr: &litMatcher{
-							pos:        position{line: 2616, col: 20, offset: 84524},
+							pos:        position{line: 2628, col: 20, offset: 85040},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2620, col: 21, offset: 84595},
+						pos: position{line: 2632, col: 21, offset: 85111},
 						run: (*parser).callonSymbol119,
 						expr: &litMatcher{
-							pos:        position{line: 2620, col: 21, offset: 84595},
+							pos:        position{line: 2632, col: 21, offset: 85111},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2624, col: 20, offset: 84665},
+						pos: position{line: 2636, col: 20, offset: 85181},
 						run: (*parser).callonSymbol121,
 						expr: &litMatcher{
-							pos:        position{line: 2624, col: 20, offset: 84665},
+							pos:        position{line: 2636, col: 20, offset: 85181},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -48386,43 +48570,43 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2558, col: 1, offset: 83043},
+			pos:  position{line: 2570, col: 1, offset: 83559},
 			expr: &choiceExpr{
-				pos: position{line: 2559, col: 5, offset: 83065},
+				pos: position{line: 2571, col: 5, offset: 83581},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2559, col: 5, offset: 83065},
+						pos: position{line: 2571, col: 5, offset: 83581},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2559, col: 5, offset: 83065},
+							pos: position{line: 2571, col: 5, offset: 83581},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2559, col: 5, offset: 83065},
+									pos:        position{line: 2571, col: 5, offset: 83581},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2559, col: 11, offset: 83071},
+									pos: position{line: 2571, col: 11, offset: 83587},
 									expr: &seqExpr{
-										pos: position{line: 2099, col: 5, offset: 68367},
+										pos: position{line: 2105, col: 5, offset: 68625},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2099, col: 5, offset: 68367},
+												pos:        position{line: 2105, col: 5, offset: 68625},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2100, col: 5, offset: 68376},
+												pos: position{line: 2106, col: 5, offset: 68634},
 												run: (*parser).callonQuotationMark8,
 											},
 											&andExpr{
-												pos: position{line: 2104, col: 5, offset: 68499},
+												pos: position{line: 2110, col: 5, offset: 68757},
 												expr: &notExpr{
-													pos: position{line: 2104, col: 7, offset: 68501},
+													pos: position{line: 2110, col: 7, offset: 68759},
 													expr: &litMatcher{
-														pos:        position{line: 2104, col: 8, offset: 68502},
+														pos:        position{line: 2110, col: 8, offset: 68760},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -48430,35 +48614,49 @@ var g = &grammar{
 												},
 											},
 											&andExpr{
-												pos: position{line: 2105, col: 5, offset: 68568},
+												pos: position{line: 2111, col: 5, offset: 68826},
 												expr: &seqExpr{
-													pos: position{line: 2118, col: 46, offset: 68967},
+													pos: position{line: 2125, col: 5, offset: 69229},
 													exprs: []interface{}{
+														&actionExpr{
+															pos: position{line: 2125, col: 6, offset: 69230},
+															run: (*parser).callonQuotationMark14,
+															expr: &litMatcher{
+																pos:        position{line: 2125, col: 6, offset: 69230},
+																val:        "",
+																ignoreCase: false,
+																want:       "\"\"",
+															},
+														},
+														&andCodeExpr{
+															pos: position{line: 2126, col: 5, offset: 69270},
+															run: (*parser).callonQuotationMark16,
+														},
 														&zeroOrMoreExpr{
-															pos: position{line: 2118, col: 46, offset: 68967},
+															pos: position{line: 2127, col: 5, offset: 69313},
 															expr: &choiceExpr{
-																pos: position{line: 2118, col: 47, offset: 68968},
+																pos: position{line: 2127, col: 6, offset: 69314},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2118, col: 47, offset: 68968},
+																		pos:        position{line: 2127, col: 6, offset: 69314},
 																		val:        "[^`]",
 																		chars:      []rune{'`'},
 																		ignoreCase: false,
 																		inverted:   true,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2118, col: 54, offset: 68975},
+																		pos: position{line: 2127, col: 13, offset: 69321},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2118, col: 54, offset: 68975},
+																				pos:        position{line: 2127, col: 13, offset: 69321},
 																				val:        "`",
 																				ignoreCase: false,
 																				want:       "\"`\"",
 																			},
 																			&andExpr{
-																				pos: position{line: 2118, col: 58, offset: 68979},
+																				pos: position{line: 2127, col: 17, offset: 69325},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2786, col: 13, offset: 89482},
+																					pos:        position{line: 2798, col: 13, offset: 89998},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -48470,11 +48668,20 @@ var g = &grammar{
 																},
 															},
 														},
-														&litMatcher{
-															pos:        position{line: 2118, col: 70, offset: 68991},
-															val:        "`",
-															ignoreCase: false,
-															want:       "\"`\"",
+														&choiceExpr{
+															pos: position{line: 2127, col: 30, offset: 69338},
+															alternatives: []interface{}{
+																&litMatcher{
+																	pos:        position{line: 2127, col: 30, offset: 69338},
+																	val:        "`",
+																	ignoreCase: false,
+																	want:       "\"`\"",
+																},
+																&andCodeExpr{
+																	pos: position{line: 2127, col: 36, offset: 69344},
+																	run: (*parser).callonQuotationMark26,
+																},
+															},
 														},
 													},
 												},
@@ -48486,21 +48693,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2562, col: 7, offset: 83224},
-						run: (*parser).callonQuotationMark22,
+						pos: position{line: 2574, col: 7, offset: 83740},
+						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2562, col: 7, offset: 83224},
+							pos: position{line: 2574, col: 7, offset: 83740},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2562, col: 7, offset: 83224},
+									pos:        position{line: 2574, col: 7, offset: 83740},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2562, col: 13, offset: 83230},
+									pos: position{line: 2574, col: 13, offset: 83746},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2562, col: 14, offset: 83231},
+										pos:  position{line: 2574, col: 14, offset: 83747},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -48508,38 +48715,38 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2565, col: 7, offset: 83381},
-						run: (*parser).callonQuotationMark27,
+						pos: position{line: 2577, col: 7, offset: 83897},
+						run: (*parser).callonQuotationMark32,
 						expr: &seqExpr{
-							pos: position{line: 2565, col: 7, offset: 83381},
+							pos: position{line: 2577, col: 7, offset: 83897},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2565, col: 7, offset: 83381},
+									pos:        position{line: 2577, col: 7, offset: 83897},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2565, col: 12, offset: 83386},
+									pos: position{line: 2577, col: 12, offset: 83902},
 									expr: &seqExpr{
-										pos: position{line: 2099, col: 5, offset: 68367},
+										pos: position{line: 2105, col: 5, offset: 68625},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2099, col: 5, offset: 68367},
+												pos:        position{line: 2105, col: 5, offset: 68625},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2100, col: 5, offset: 68376},
-												run: (*parser).callonQuotationMark33,
+												pos: position{line: 2106, col: 5, offset: 68634},
+												run: (*parser).callonQuotationMark38,
 											},
 											&andExpr{
-												pos: position{line: 2104, col: 5, offset: 68499},
+												pos: position{line: 2110, col: 5, offset: 68757},
 												expr: &notExpr{
-													pos: position{line: 2104, col: 7, offset: 68501},
+													pos: position{line: 2110, col: 7, offset: 68759},
 													expr: &litMatcher{
-														pos:        position{line: 2104, col: 8, offset: 68502},
+														pos:        position{line: 2110, col: 8, offset: 68760},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -48547,35 +48754,49 @@ var g = &grammar{
 												},
 											},
 											&andExpr{
-												pos: position{line: 2105, col: 5, offset: 68568},
+												pos: position{line: 2111, col: 5, offset: 68826},
 												expr: &seqExpr{
-													pos: position{line: 2118, col: 46, offset: 68967},
+													pos: position{line: 2125, col: 5, offset: 69229},
 													exprs: []interface{}{
+														&actionExpr{
+															pos: position{line: 2125, col: 6, offset: 69230},
+															run: (*parser).callonQuotationMark44,
+															expr: &litMatcher{
+																pos:        position{line: 2125, col: 6, offset: 69230},
+																val:        "",
+																ignoreCase: false,
+																want:       "\"\"",
+															},
+														},
+														&andCodeExpr{
+															pos: position{line: 2126, col: 5, offset: 69270},
+															run: (*parser).callonQuotationMark46,
+														},
 														&zeroOrMoreExpr{
-															pos: position{line: 2118, col: 46, offset: 68967},
+															pos: position{line: 2127, col: 5, offset: 69313},
 															expr: &choiceExpr{
-																pos: position{line: 2118, col: 47, offset: 68968},
+																pos: position{line: 2127, col: 6, offset: 69314},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2118, col: 47, offset: 68968},
+																		pos:        position{line: 2127, col: 6, offset: 69314},
 																		val:        "[^`]",
 																		chars:      []rune{'`'},
 																		ignoreCase: false,
 																		inverted:   true,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2118, col: 54, offset: 68975},
+																		pos: position{line: 2127, col: 13, offset: 69321},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2118, col: 54, offset: 68975},
+																				pos:        position{line: 2127, col: 13, offset: 69321},
 																				val:        "`",
 																				ignoreCase: false,
 																				want:       "\"`\"",
 																			},
 																			&andExpr{
-																				pos: position{line: 2118, col: 58, offset: 68979},
+																				pos: position{line: 2127, col: 17, offset: 69325},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2786, col: 13, offset: 89482},
+																					pos:        position{line: 2798, col: 13, offset: 89998},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -48587,11 +48808,20 @@ var g = &grammar{
 																},
 															},
 														},
-														&litMatcher{
-															pos:        position{line: 2118, col: 70, offset: 68991},
-															val:        "`",
-															ignoreCase: false,
-															want:       "\"`\"",
+														&choiceExpr{
+															pos: position{line: 2127, col: 30, offset: 69338},
+															alternatives: []interface{}{
+																&litMatcher{
+																	pos:        position{line: 2127, col: 30, offset: 69338},
+																	val:        "`",
+																	ignoreCase: false,
+																	want:       "\"`\"",
+																},
+																&andCodeExpr{
+																	pos: position{line: 2127, col: 36, offset: 69344},
+																	run: (*parser).callonQuotationMark56,
+																},
+															},
 														},
 													},
 												},
@@ -48603,21 +48833,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2568, col: 7, offset: 83539},
-						run: (*parser).callonQuotationMark47,
+						pos: position{line: 2580, col: 7, offset: 84055},
+						run: (*parser).callonQuotationMark57,
 						expr: &seqExpr{
-							pos: position{line: 2568, col: 7, offset: 83539},
+							pos: position{line: 2580, col: 7, offset: 84055},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2568, col: 7, offset: 83539},
+									pos:        position{line: 2580, col: 7, offset: 84055},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2568, col: 12, offset: 83544},
+									pos: position{line: 2580, col: 12, offset: 84060},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2568, col: 13, offset: 83545},
+										pos:  position{line: 2580, col: 13, offset: 84061},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -48629,63 +48859,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2701, col: 1, offset: 86567},
+			pos:  position{line: 2713, col: 1, offset: 87083},
 			expr: &actionExpr{
-				pos: position{line: 2701, col: 26, offset: 86592},
+				pos: position{line: 2713, col: 26, offset: 87108},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2701, col: 26, offset: 86592},
+					pos: position{line: 2713, col: 26, offset: 87108},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2701, col: 26, offset: 86592},
+							pos:   position{line: 2713, col: 26, offset: 87108},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2701, col: 31, offset: 86597},
+								pos: position{line: 2713, col: 31, offset: 87113},
 								expr: &actionExpr{
-									pos: position{line: 2706, col: 5, offset: 86660},
+									pos: position{line: 2718, col: 5, offset: 87176},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2706, col: 5, offset: 86660},
+										pos: position{line: 2718, col: 5, offset: 87176},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2920, col: 11, offset: 92935},
+												pos: position{line: 2932, col: 11, offset: 93451},
 												expr: &anyMatcher{
-													line: 2920, col: 13, offset: 92937,
+													line: 2932, col: 13, offset: 93453,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2709, col: 5, offset: 86786},
+												pos:   position{line: 2721, col: 5, offset: 87302},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2709, col: 16, offset: 86797},
+													pos: position{line: 2721, col: 16, offset: 87313},
 													expr: &actionExpr{
-														pos: position{line: 2709, col: 17, offset: 86798},
+														pos: position{line: 2721, col: 17, offset: 87314},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2709, col: 17, offset: 86798},
+															pos: position{line: 2721, col: 17, offset: 87314},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2709, col: 17, offset: 86798},
+																	pos:   position{line: 2721, col: 17, offset: 87314},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2895, col: 12, offset: 92428},
+																		pos: position{line: 2907, col: 12, offset: 92944},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2895, col: 13, offset: 92429},
+																			pos: position{line: 2907, col: 13, offset: 92945},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2895, col: 13, offset: 92429},
+																					pos: position{line: 2907, col: 13, offset: 92945},
 																					expr: &litMatcher{
-																						pos:        position{line: 2895, col: 13, offset: 92429},
+																						pos:        position{line: 2907, col: 13, offset: 92945},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2895, col: 18, offset: 92434},
+																					pos: position{line: 2907, col: 18, offset: 92950},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2895, col: 18, offset: 92434},
+																						pos:        position{line: 2907, col: 18, offset: 92950},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -48697,7 +48927,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2709, col: 27, offset: 86808},
+																	pos:        position{line: 2721, col: 27, offset: 87324},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -48708,38 +48938,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2710, col: 5, offset: 86836},
+												pos:   position{line: 2722, col: 5, offset: 87352},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2710, col: 12, offset: 86843},
+													pos: position{line: 2722, col: 12, offset: 87359},
 													expr: &choiceExpr{
-														pos: position{line: 2711, col: 9, offset: 86853},
+														pos: position{line: 2723, col: 9, offset: 87369},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2711, col: 9, offset: 86853},
+																pos: position{line: 2723, col: 9, offset: 87369},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2711, col: 9, offset: 86853},
+																	pos:        position{line: 2723, col: 9, offset: 87369},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2712, col: 11, offset: 86900},
+																pos: position{line: 2724, col: 11, offset: 87416},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2712, col: 11, offset: 86900},
+																	pos:        position{line: 2724, col: 11, offset: 87416},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2713, col: 11, offset: 86948},
+																pos: position{line: 2725, col: 11, offset: 87464},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2713, col: 11, offset: 86948},
+																	pos:        position{line: 2725, col: 11, offset: 87464},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -48750,38 +48980,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2715, col: 5, offset: 86998},
+												pos:   position{line: 2727, col: 5, offset: 87514},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2715, col: 12, offset: 87005},
+													pos: position{line: 2727, col: 12, offset: 87521},
 													expr: &choiceExpr{
-														pos: position{line: 2716, col: 9, offset: 87015},
+														pos: position{line: 2728, col: 9, offset: 87531},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2716, col: 9, offset: 87015},
+																pos: position{line: 2728, col: 9, offset: 87531},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2716, col: 9, offset: 87015},
+																	pos:        position{line: 2728, col: 9, offset: 87531},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2717, col: 11, offset: 87062},
+																pos: position{line: 2729, col: 11, offset: 87578},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2717, col: 11, offset: 87062},
+																	pos:        position{line: 2729, col: 11, offset: 87578},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2718, col: 11, offset: 87112},
+																pos: position{line: 2730, col: 11, offset: 87628},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2718, col: 11, offset: 87112},
+																	pos:        position{line: 2730, col: 11, offset: 87628},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -48792,32 +49022,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2720, col: 5, offset: 87163},
+												pos:   position{line: 2732, col: 5, offset: 87679},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2720, col: 12, offset: 87170},
+													pos: position{line: 2732, col: 12, offset: 87686},
 													expr: &choiceExpr{
-														pos: position{line: 2720, col: 13, offset: 87171},
+														pos: position{line: 2732, col: 13, offset: 87687},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2895, col: 12, offset: 92428},
+																pos: position{line: 2907, col: 12, offset: 92944},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2895, col: 13, offset: 92429},
+																	pos: position{line: 2907, col: 13, offset: 92945},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2895, col: 13, offset: 92429},
+																			pos: position{line: 2907, col: 13, offset: 92945},
 																			expr: &litMatcher{
-																				pos:        position{line: 2895, col: 13, offset: 92429},
+																				pos:        position{line: 2907, col: 13, offset: 92945},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2895, col: 18, offset: 92434},
+																			pos: position{line: 2907, col: 18, offset: 92950},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2895, col: 18, offset: 92434},
+																				pos:        position{line: 2907, col: 18, offset: 92950},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -48828,10 +49058,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2720, col: 24, offset: 87182},
+																pos: position{line: 2732, col: 24, offset: 87698},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2720, col: 24, offset: 87182},
+																	pos:        position{line: 2732, col: 24, offset: 87698},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -48842,15 +49072,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2721, col: 5, offset: 87224},
+												pos:   position{line: 2733, col: 5, offset: 87740},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2721, col: 11, offset: 87230},
+													pos: position{line: 2733, col: 11, offset: 87746},
 													expr: &actionExpr{
-														pos: position{line: 2721, col: 12, offset: 87231},
+														pos: position{line: 2733, col: 12, offset: 87747},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2721, col: 12, offset: 87231},
+															pos:        position{line: 2733, col: 12, offset: 87747},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -48860,12 +49090,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2723, col: 5, offset: 87361},
+												pos:   position{line: 2735, col: 5, offset: 87877},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2723, col: 11, offset: 87367},
+													pos: position{line: 2735, col: 11, offset: 87883},
 													expr: &litMatcher{
-														pos:        position{line: 2723, col: 12, offset: 87368},
+														pos:        position{line: 2735, col: 12, offset: 87884},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -48873,7 +49103,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2724, col: 5, offset: 87378},
+												pos: position{line: 2736, col: 5, offset: 87894},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -48882,9 +49112,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2922, col: 8, offset: 92949},
+							pos: position{line: 2934, col: 8, offset: 93465},
 							expr: &anyMatcher{
-								line: 2922, col: 9, offset: 92950,
+								line: 2934, col: 9, offset: 93466,
 							},
 						},
 					},
@@ -48893,23 +49123,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2751, col: 1, offset: 88382},
+			pos:  position{line: 2763, col: 1, offset: 88898},
 			expr: &actionExpr{
-				pos: position{line: 2752, col: 5, offset: 88405},
+				pos: position{line: 2764, col: 5, offset: 88921},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2752, col: 5, offset: 88405},
+					pos: position{line: 2764, col: 5, offset: 88921},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2752, col: 5, offset: 88405},
+							pos:   position{line: 2764, col: 5, offset: 88921},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2775, col: 18, offset: 89146},
+								pos: position{line: 2787, col: 18, offset: 89662},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2775, col: 19, offset: 89147},
+									pos: position{line: 2787, col: 19, offset: 89663},
 									expr: &charClassMatcher{
-										pos:        position{line: 2775, col: 19, offset: 89147},
+										pos:        position{line: 2787, col: 19, offset: 89663},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48920,25 +49150,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2753, col: 5, offset: 88431},
+							pos: position{line: 2765, col: 5, offset: 88947},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2757, col: 5, offset: 88559},
+							pos:        position{line: 2769, col: 5, offset: 89075},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2758, col: 5, offset: 88569},
+							pos:   position{line: 2770, col: 5, offset: 89085},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2779, col: 19, offset: 89222},
+								pos: position{line: 2791, col: 19, offset: 89738},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2779, col: 19, offset: 89222},
+									pos: position{line: 2791, col: 19, offset: 89738},
 									expr: &charClassMatcher{
-										pos:        position{line: 2779, col: 19, offset: 89222},
+										pos:        position{line: 2791, col: 19, offset: 89738},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -48948,36 +49178,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2759, col: 5, offset: 88597},
+							pos:   position{line: 2771, col: 5, offset: 89113},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2759, col: 17, offset: 88609},
+								pos:  position{line: 2771, col: 17, offset: 89125},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2925, col: 8, offset: 92999},
+							pos: position{line: 2937, col: 8, offset: 93515},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2912, col: 12, offset: 92772},
+									pos: position{line: 2924, col: 12, offset: 93288},
 									run: (*parser).callonUserMacroBlock16,
 									expr: &choiceExpr{
-										pos: position{line: 2912, col: 13, offset: 92773},
+										pos: position{line: 2924, col: 13, offset: 93289},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2912, col: 13, offset: 92773},
+												pos:        position{line: 2924, col: 13, offset: 93289},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2912, col: 20, offset: 92780},
+												pos:        position{line: 2924, col: 20, offset: 93296},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2912, col: 29, offset: 92789},
+												pos:        position{line: 2924, col: 29, offset: 93305},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -48986,9 +49216,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2922, col: 8, offset: 92949},
+									pos: position{line: 2934, col: 8, offset: 93465},
 									expr: &anyMatcher{
-										line: 2922, col: 9, offset: 92950,
+										line: 2934, col: 9, offset: 93466,
 									},
 								},
 							},
@@ -48999,23 +49229,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2763, col: 1, offset: 88757},
+			pos:  position{line: 2775, col: 1, offset: 89273},
 			expr: &actionExpr{
-				pos: position{line: 2764, col: 5, offset: 88781},
+				pos: position{line: 2776, col: 5, offset: 89297},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2764, col: 5, offset: 88781},
+					pos: position{line: 2776, col: 5, offset: 89297},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2764, col: 5, offset: 88781},
+							pos:   position{line: 2776, col: 5, offset: 89297},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2775, col: 18, offset: 89146},
+								pos: position{line: 2787, col: 18, offset: 89662},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2775, col: 19, offset: 89147},
+									pos: position{line: 2787, col: 19, offset: 89663},
 									expr: &charClassMatcher{
-										pos:        position{line: 2775, col: 19, offset: 89147},
+										pos:        position{line: 2787, col: 19, offset: 89663},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -49026,25 +49256,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2765, col: 5, offset: 88807},
+							pos: position{line: 2777, col: 5, offset: 89323},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2769, col: 5, offset: 88935},
+							pos:        position{line: 2781, col: 5, offset: 89451},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2770, col: 5, offset: 88944},
+							pos:   position{line: 2782, col: 5, offset: 89460},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2779, col: 19, offset: 89222},
+								pos: position{line: 2791, col: 19, offset: 89738},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2779, col: 19, offset: 89222},
+									pos: position{line: 2791, col: 19, offset: 89738},
 									expr: &charClassMatcher{
-										pos:        position{line: 2779, col: 19, offset: 89222},
+										pos:        position{line: 2791, col: 19, offset: 89738},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -49054,10 +49284,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2771, col: 5, offset: 88972},
+							pos:   position{line: 2783, col: 5, offset: 89488},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2771, col: 17, offset: 88984},
+								pos:  position{line: 2783, col: 17, offset: 89500},
 								name: "InlineAttributes",
 							},
 						},
@@ -49067,43 +49297,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2857, col: 1, offset: 91248},
+			pos:  position{line: 2869, col: 1, offset: 91764},
 			expr: &actionExpr{
-				pos: position{line: 2857, col: 17, offset: 91264},
+				pos: position{line: 2869, col: 17, offset: 91780},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2857, col: 17, offset: 91264},
+					pos:   position{line: 2869, col: 17, offset: 91780},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2874, col: 5, offset: 91718},
+						pos: position{line: 2886, col: 5, offset: 92234},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2874, col: 5, offset: 91718},
+							pos:   position{line: 2886, col: 5, offset: 92234},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2874, col: 14, offset: 91727},
+								pos: position{line: 2886, col: 14, offset: 92243},
 								expr: &choiceExpr{
-									pos: position{line: 2875, col: 9, offset: 91737},
+									pos: position{line: 2887, col: 9, offset: 92253},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2875, col: 9, offset: 91737},
+											pos: position{line: 2887, col: 9, offset: 92253},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2875, col: 9, offset: 91737},
+												pos: position{line: 2887, col: 9, offset: 92253},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2875, col: 9, offset: 91737},
+														pos: position{line: 2887, col: 9, offset: 92253},
 														expr: &litMatcher{
-															pos:        position{line: 2875, col: 10, offset: 91738},
+															pos:        position{line: 2887, col: 10, offset: 92254},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2876, col: 9, offset: 91766},
+														pos: position{line: 2888, col: 9, offset: 92282},
 														expr: &charClassMatcher{
-															pos:        position{line: 2876, col: 10, offset: 91767},
+															pos:        position{line: 2888, col: 10, offset: 92283},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -49114,27 +49344,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2879, col: 11, offset: 91979},
+											pos: position{line: 2891, col: 11, offset: 92495},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2879, col: 11, offset: 91979},
+													pos:        position{line: 2891, col: 11, offset: 92495},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2879, col: 19, offset: 91987},
+													pos: position{line: 2891, col: 19, offset: 92503},
 													expr: &seqExpr{
-														pos: position{line: 2879, col: 21, offset: 91989},
+														pos: position{line: 2891, col: 21, offset: 92505},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2879, col: 21, offset: 91989},
+																pos: position{line: 2891, col: 21, offset: 92505},
 																expr: &actionExpr{
-																	pos: position{line: 2903, col: 10, offset: 92601},
+																	pos: position{line: 2915, col: 10, offset: 93117},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2903, col: 10, offset: 92601},
+																		pos:        position{line: 2915, col: 10, offset: 93117},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -49143,11 +49373,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2879, col: 28, offset: 91996},
+																pos: position{line: 2891, col: 28, offset: 92512},
 																expr: &notExpr{
-																	pos: position{line: 2922, col: 8, offset: 92949},
+																	pos: position{line: 2934, col: 8, offset: 93465},
 																	expr: &anyMatcher{
-																		line: 2922, col: 9, offset: 92950,
+																		line: 2934, col: 9, offset: 93466,
 																	},
 																},
 															},
@@ -49546,10 +49776,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2882, col: 11, offset: 92116},
+											pos: position{line: 2894, col: 11, offset: 92632},
 											run: (*parser).callonFileLocation101,
 											expr: &litMatcher{
-												pos:        position{line: 2882, col: 11, offset: 92116},
+												pos:        position{line: 2894, col: 11, offset: 92632},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -71679,16 +71909,46 @@ func (p *parser) callonSingleQuoteBoldText4() (bool, error) {
 	return p.cur.onSingleQuoteBoldText4()
 }
 
-func (c *current) onSingleQuoteBoldText23(elements interface{}) (bool, error) {
+func (c *current) onSingleQuoteBoldText10() (interface{}, error) {
+	return c.startLookup(), nil
+}
+
+func (p *parser) callonSingleQuoteBoldText10() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSingleQuoteBoldText10()
+}
+
+func (c *current) onSingleQuoteBoldText12() (bool, error) {
+	return c.isLookupNeeded("*"), nil
+}
+
+func (p *parser) callonSingleQuoteBoldText12() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSingleQuoteBoldText12()
+}
+
+func (c *current) onSingleQuoteBoldText22() (bool, error) {
+	return c.lookupFailed("*"), nil
+}
+
+func (p *parser) callonSingleQuoteBoldText22() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSingleQuoteBoldText22()
+}
+
+func (c *current) onSingleQuoteBoldText28(elements interface{}) (bool, error) {
 	log.Debug("SingleQuoteBoldTextEndDelimiter")
 	return !c.isPrecededBySpace(), nil
 
 }
 
-func (p *parser) callonSingleQuoteBoldText23() (bool, error) {
+func (p *parser) callonSingleQuoteBoldText28() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSingleQuoteBoldText23(stack["elements"])
+	return p.cur.onSingleQuoteBoldText28(stack["elements"])
 }
 
 func (c *current) onSingleQuoteBoldText1(elements interface{}) (interface{}, error) {
@@ -71818,6 +72078,36 @@ func (p *parser) callonEscapedBoldText27() (interface{}, error) {
 	return p.cur.onEscapedBoldText27()
 }
 
+func (c *current) onEscapedBoldText33() (interface{}, error) {
+	return c.startLookup(), nil
+}
+
+func (p *parser) callonEscapedBoldText33() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onEscapedBoldText33()
+}
+
+func (c *current) onEscapedBoldText35() (bool, error) {
+	return c.isLookupNeeded("*"), nil
+}
+
+func (p *parser) callonEscapedBoldText35() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onEscapedBoldText35()
+}
+
+func (c *current) onEscapedBoldText45() (bool, error) {
+	return c.lookupFailed("*"), nil
+}
+
+func (p *parser) callonEscapedBoldText45() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onEscapedBoldText45()
+}
+
 func (c *current) onEscapedBoldText24(backslashes, elements interface{}) (interface{}, error) {
 
 	return types.NewEscapedQuotedText(backslashes.(string), "*", elements.([]interface{}))
@@ -71865,16 +72155,46 @@ func (p *parser) callonSingleQuoteItalicText4() (bool, error) {
 	return p.cur.onSingleQuoteItalicText4()
 }
 
-func (c *current) onSingleQuoteItalicText23(elements interface{}) (bool, error) {
+func (c *current) onSingleQuoteItalicText10() (interface{}, error) {
+	return c.startLookup(), nil
+}
+
+func (p *parser) callonSingleQuoteItalicText10() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSingleQuoteItalicText10()
+}
+
+func (c *current) onSingleQuoteItalicText12() (bool, error) {
+	return c.isLookupNeeded("_"), nil
+}
+
+func (p *parser) callonSingleQuoteItalicText12() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSingleQuoteItalicText12()
+}
+
+func (c *current) onSingleQuoteItalicText22() (bool, error) {
+	return c.lookupFailed("_"), nil
+}
+
+func (p *parser) callonSingleQuoteItalicText22() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSingleQuoteItalicText22()
+}
+
+func (c *current) onSingleQuoteItalicText28(elements interface{}) (bool, error) {
 	log.Debug("SingleQuoteItalicTextEndDelimiter")
 	return !c.isPrecededBySpace(), nil
 
 }
 
-func (p *parser) callonSingleQuoteItalicText23() (bool, error) {
+func (p *parser) callonSingleQuoteItalicText28() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSingleQuoteItalicText23(stack["elements"])
+	return p.cur.onSingleQuoteItalicText28(stack["elements"])
 }
 
 func (c *current) onSingleQuoteItalicText1(elements interface{}) (interface{}, error) {
@@ -72004,6 +72324,36 @@ func (p *parser) callonEscapedItalicText27() (interface{}, error) {
 	return p.cur.onEscapedItalicText27()
 }
 
+func (c *current) onEscapedItalicText33() (interface{}, error) {
+	return c.startLookup(), nil
+}
+
+func (p *parser) callonEscapedItalicText33() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onEscapedItalicText33()
+}
+
+func (c *current) onEscapedItalicText35() (bool, error) {
+	return c.isLookupNeeded("_"), nil
+}
+
+func (p *parser) callonEscapedItalicText35() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onEscapedItalicText35()
+}
+
+func (c *current) onEscapedItalicText45() (bool, error) {
+	return c.lookupFailed("_"), nil
+}
+
+func (p *parser) callonEscapedItalicText45() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onEscapedItalicText45()
+}
+
 func (c *current) onEscapedItalicText24(backslashes, elements interface{}) (interface{}, error) {
 	// simple punctuation must be evaluated last
 	return types.NewEscapedQuotedText(backslashes.(string), "_", elements.([]interface{}))
@@ -72064,6 +72414,36 @@ func (p *parser) callonSingleQuoteMonospaceText4() (bool, error) {
 	return p.cur.onSingleQuoteMonospaceText4()
 }
 
+func (c *current) onSingleQuoteMonospaceText10() (interface{}, error) {
+	return c.startLookup(), nil
+}
+
+func (p *parser) callonSingleQuoteMonospaceText10() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSingleQuoteMonospaceText10()
+}
+
+func (c *current) onSingleQuoteMonospaceText12() (bool, error) {
+	return c.isLookupNeeded("`"), nil
+}
+
+func (p *parser) callonSingleQuoteMonospaceText12() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSingleQuoteMonospaceText12()
+}
+
+func (c *current) onSingleQuoteMonospaceText22() (bool, error) {
+	return c.lookupFailed("`"), nil
+}
+
+func (p *parser) callonSingleQuoteMonospaceText22() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSingleQuoteMonospaceText22()
+}
+
 func (c *current) onSingleQuoteMonospaceText1(elements interface{}) (interface{}, error) {
 
 	return types.NewQuotedText(types.SingleQuoteMonospace, elements.([]interface{}))
@@ -72178,6 +72558,36 @@ func (p *parser) callonEscapedMonospaceText27() (interface{}, error) {
 	return p.cur.onEscapedMonospaceText27()
 }
 
+func (c *current) onEscapedMonospaceText33() (interface{}, error) {
+	return c.startLookup(), nil
+}
+
+func (p *parser) callonEscapedMonospaceText33() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onEscapedMonospaceText33()
+}
+
+func (c *current) onEscapedMonospaceText35() (bool, error) {
+	return c.isLookupNeeded("`"), nil
+}
+
+func (p *parser) callonEscapedMonospaceText35() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onEscapedMonospaceText35()
+}
+
+func (c *current) onEscapedMonospaceText45() (bool, error) {
+	return c.lookupFailed("`"), nil
+}
+
+func (p *parser) callonEscapedMonospaceText45() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onEscapedMonospaceText45()
+}
+
 func (c *current) onEscapedMonospaceText24(backslashes, elements interface{}) (interface{}, error) {
 	return types.NewEscapedQuotedText(backslashes.(string), "`", elements.([]interface{}))
 
@@ -72225,16 +72635,46 @@ func (p *parser) callonSingleQuoteMarkedText4() (bool, error) {
 	return p.cur.onSingleQuoteMarkedText4()
 }
 
-func (c *current) onSingleQuoteMarkedText23(elements interface{}) (bool, error) {
+func (c *current) onSingleQuoteMarkedText10() (interface{}, error) {
+	return c.startLookup(), nil
+}
+
+func (p *parser) callonSingleQuoteMarkedText10() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSingleQuoteMarkedText10()
+}
+
+func (c *current) onSingleQuoteMarkedText12() (bool, error) {
+	return c.isLookupNeeded("#"), nil
+}
+
+func (p *parser) callonSingleQuoteMarkedText12() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSingleQuoteMarkedText12()
+}
+
+func (c *current) onSingleQuoteMarkedText22() (bool, error) {
+	return c.lookupFailed("#"), nil
+}
+
+func (p *parser) callonSingleQuoteMarkedText22() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSingleQuoteMarkedText22()
+}
+
+func (c *current) onSingleQuoteMarkedText28(elements interface{}) (bool, error) {
 	log.Debug("SingleQuoteMarkedTextEndDelimiter")
 	return !c.isPrecededBySpace(), nil
 
 }
 
-func (p *parser) callonSingleQuoteMarkedText23() (bool, error) {
+func (p *parser) callonSingleQuoteMarkedText28() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSingleQuoteMarkedText23(stack["elements"])
+	return p.cur.onSingleQuoteMarkedText28(stack["elements"])
 }
 
 func (c *current) onSingleQuoteMarkedText1(elements interface{}) (interface{}, error) {
@@ -72363,6 +72803,36 @@ func (p *parser) callonEscapedMarkedText27() (interface{}, error) {
 	return p.cur.onEscapedMarkedText27()
 }
 
+func (c *current) onEscapedMarkedText33() (interface{}, error) {
+	return c.startLookup(), nil
+}
+
+func (p *parser) callonEscapedMarkedText33() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onEscapedMarkedText33()
+}
+
+func (c *current) onEscapedMarkedText35() (bool, error) {
+	return c.isLookupNeeded("#"), nil
+}
+
+func (p *parser) callonEscapedMarkedText35() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onEscapedMarkedText35()
+}
+
+func (c *current) onEscapedMarkedText45() (bool, error) {
+	return c.lookupFailed("#"), nil
+}
+
+func (p *parser) callonEscapedMarkedText45() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onEscapedMarkedText45()
+}
+
 func (c *current) onEscapedMarkedText24(backslashes, elements interface{}) (interface{}, error) {
 	return types.NewEscapedQuotedText(backslashes.(string), "#", elements.([]interface{}))
 
@@ -75024,6 +75494,36 @@ func (p *parser) callonQuotationMark8() (bool, error) {
 	return p.cur.onQuotationMark8()
 }
 
+func (c *current) onQuotationMark14() (interface{}, error) {
+	return c.startLookup(), nil
+}
+
+func (p *parser) callonQuotationMark14() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onQuotationMark14()
+}
+
+func (c *current) onQuotationMark16() (bool, error) {
+	return c.isLookupNeeded("`"), nil
+}
+
+func (p *parser) callonQuotationMark16() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onQuotationMark16()
+}
+
+func (c *current) onQuotationMark26() (bool, error) {
+	return c.lookupFailed("`"), nil
+}
+
+func (p *parser) callonQuotationMark26() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onQuotationMark26()
+}
+
 func (c *current) onQuotationMark2() (interface{}, error) {
 	// do not conflict with quotation mark within monospace text
 	return types.NewSymbol("`\"")
@@ -75036,52 +75536,82 @@ func (p *parser) callonQuotationMark2() (interface{}, error) {
 	return p.cur.onQuotationMark2()
 }
 
-func (c *current) onQuotationMark22() (interface{}, error) {
+func (c *current) onQuotationMark27() (interface{}, error) {
 	// do not conflict with quotation mark within monospace text
 	return types.NewSymbol("\"`")
 
 }
 
-func (p *parser) callonQuotationMark22() (interface{}, error) {
+func (p *parser) callonQuotationMark27() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotationMark22()
+	return p.cur.onQuotationMark27()
 }
 
-func (c *current) onQuotationMark33() (bool, error) {
+func (c *current) onQuotationMark38() (bool, error) {
 	log.Debug("SingleQuoteMonospaceTextStartDelimiter")
 	return c.isSingleQuotedTextAllowed(), nil
 
 }
 
-func (p *parser) callonQuotationMark33() (bool, error) {
+func (p *parser) callonQuotationMark38() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotationMark33()
+	return p.cur.onQuotationMark38()
 }
 
-func (c *current) onQuotationMark27() (interface{}, error) {
+func (c *current) onQuotationMark44() (interface{}, error) {
+	return c.startLookup(), nil
+}
+
+func (p *parser) callonQuotationMark44() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onQuotationMark44()
+}
+
+func (c *current) onQuotationMark46() (bool, error) {
+	return c.isLookupNeeded("`"), nil
+}
+
+func (p *parser) callonQuotationMark46() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onQuotationMark46()
+}
+
+func (c *current) onQuotationMark56() (bool, error) {
+	return c.lookupFailed("`"), nil
+}
+
+func (p *parser) callonQuotationMark56() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onQuotationMark56()
+}
+
+func (c *current) onQuotationMark32() (interface{}, error) {
 	// do not conflict with quotation mark within monospace text
 	return types.NewSymbol("`'")
 
 }
 
-func (p *parser) callonQuotationMark27() (interface{}, error) {
+func (p *parser) callonQuotationMark32() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotationMark27()
+	return p.cur.onQuotationMark32()
 }
 
-func (c *current) onQuotationMark47() (interface{}, error) {
+func (c *current) onQuotationMark57() (interface{}, error) {
 	// do not conflict with quotation mark within monospace text
 	return types.NewSymbol("'`")
 
 }
 
-func (p *parser) callonQuotationMark47() (interface{}, error) {
+func (p *parser) callonQuotationMark57() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotationMark47()
+	return p.cur.onQuotationMark57()
 }
 
 func (c *current) onTableColumnsAttribute14() (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 1817e6f..7e47222 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -1926,7 +1926,10 @@ SingleQuoteBoldTextEndDelimiter <-
     &(!Alphanum)
 
 // checks that there may be an end delimiter afterwards (otherwise, the time to parse is exponential)
-SingleQuoteBoldTextEndDelimiterAhead <- ([^*] / "*" &("*" / Alphanum))* "*"
+SingleQuoteBoldTextEndDelimiterAhead <-
+    ("" { return c.startLookup(), nil })
+    &{ return c.isLookupNeeded("*"), nil }
+    ([^*] / "*" &("*" / Alphanum))* ("*" / &{ return c.lookupFailed("*"), nil })
 
 SingleQuoteBoldText <- 
     SingleQuoteBoldTextStartDelimiter
@@ -2019,7 +2022,10 @@ SingleQuoteItalicTextEndDelimiter <-
     &(!Alphanum)
 
 // checks that there may be an end delimiter afterwards (otherwise, the time to parse is exponential)
-SingleQuoteItalicTextEndDelimiterAhead <- ([^_] / "_" &("_" / Alphanum))* "_"
+SingleQuoteItalicTextEndDelimiterAhead <-
+    ("" { return c.startLookup(), nil })
+    &{ return c.isLookupNeeded("_"), nil }
+    ([^_] / "_" &("_" / Alphanum))* ("_" / &{ return c.lookupFailed("_"), nil })
 
 SingleQuoteItalicText <- 
     SingleQuoteItalicTextStartDelimiter
@@ -2115,7 +2121,10 @@ SingleQuoteMonospaceTextEndDelimiter <-
     
 
 // checks that there may be an end delimiter afterwards (otherwise, the time to parse is exponential)
-SingleQuoteMonospaceTextEndDelimiterAhead <- ([^`] / "`" &Alphanum)* "`"
+SingleQuoteMonospaceTextEndDelimiterAhead <-
+    ("" { return c.startLookup(), nil })
+    &{ return c.isLookupNeeded("`"), nil }
+    ([^`] / "`" &Alphanum)* ("`" / &{ return c.lookupFailed("`"), nil })
 
 SingleQuoteMonospaceText <- 
     SingleQuoteMonospaceTextStartDelimiter 
@@ -2208,7 +2217,10 @@ SingleQuoteMarkedTextEndDelimiter <-
     &(!Alphanum)
 
 // checks that there may be an end delimiter afterwards (otherwise, the time to parse is exponential)
-SingleQuoteMarkedTextEndDelimiterAhead <- ([^#] / "#" &("#" / Alphanum))* "#"
+SingleQuoteMarkedTextEndDelimiterAhead <-
+    ("" { return c.startLookup(), nil })
+    &{ return c.isLookupNeeded("#"), nil }
+    ([^#] / "#" &("#" / Alphanum))* ("#" / &{ return c.lookupFailed("#"), nil })
 
 SingleQuoteMarkedText <- 
     SingleQuoteMarkedTextStartDelimiter
diff --git a/pkg/parser/parser_ext.go b/pkg/parser/parser_ext.go
index b7972bc..16a7a02 100644
--- a/pkg/parser/parser_ext.go
+++ b/pkg/parser/parser_ext.go
@@ -174,6 +174,30 @@ func (c *current) isUserMacro(name string) bool {
 
 // verifies that previous last character of previous match is neither a
 // letter, number, exclamation point, colon, semicolon, or closing curly bracket
+const (
+	lookupStartKey  = "lookup_start"
+	lookupFailedKey = "lookup_failed_"
+)
+
+// startLookup retains the offset from which a delimiter is looked up
+func (c *current) startLookup() interface{} {
+	c.globalStore[lookupStartKey] = c.pos.offset
+	return nil
+}
+
+// isLookupNeeded returns `false` if there is no such delimiter from the offset of the current lookup,
+// because there was none from a previous one (so, there's no need to read all the content again)
+func (c *current) isLookupNeeded(delimiter string) bool {
+	failed, found := c.globalStore[lookupFailedKey+delimiter].(int)
+	return !found || c.globalStore[lookupStartKey].(int) < failed
+}
+
+// lookupFailed retains that there is no such delimiter from the offset of the current lookup
+func (c *current) lookupFailed(delimiter string) bool {
+	c.globalStore[lookupFailedKey+delimiter] = c.globalStore[lookupStartKey].(int)
+	return false
+}
+
 func (c *current) isSingleQuotedTextAllowed() bool {
 	if r, ok := c.globalStore[suffixTrackingKey].(rune); ok {
 		log.Debugf("---checking if single quoted text is allowed (tracked='%s')", string(r))
-- 
2.43.0


From 0660136c5c9decd47b30078ce18254003802fe43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:49:22 +0000
Subject: [PATCH 143/143] fix: do not try again the suffixes used for the same
 ID of section (quadratic time)

---
 pkg/parser/document_processing_aggregate.go |  3 ++-
 pkg/types/types.go                          | 14 ++++++++++----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/pkg/parser/document_processing_aggregate.go b/pkg/parser/document_processing_aggregate.go
index 77bb0dc..14a0255 100644
--- a/pkg/parser/document_processing_aggregate.go
+++ b/pkg/parser/document_processing_aggregate.go
@@ -32,6 +32,7 @@ func aggregate(ctx *ParseContext, fragmentStream <-chan types.DocumentFragment)
 		_, found := ids[strings.ToLower(id)]
 		return found
 	}
+	suffixes := map[string]int{} // of the IDs of the sections
 	doc := &types.Document{}
 	// TODO: update `toc.MaxDepth` when `AttrTableOfContentsLevels` is declared afterwards
 	toc := types.NewTableOfContents(attrs.getAsIntWithDefault(types.AttrTableOfContentsLevels, 2))
@@ -80,7 +81,7 @@ func aggregate(ctx *ParseContext, fragmentStream <-chan types.DocumentFragment)
 			case *types.BlankLine, *types.SinglelineComment:
 				// ignore
 			case *types.Section:
-				if err := e.ResolveUniqueID(attrs.allAttributes(), exists); err != nil {
+				if err := e.ResolveUniqueID(attrs.allAttributes(), exists, suffixes); err != nil {
 					return nil, err
 				}
 				toc.Add(e)
diff --git a/pkg/types/types.go b/pkg/types/types.go
index fa8c943..c26c495 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -2631,16 +2631,21 @@ func (s *Section) SetAttributes(attributes Attributes) {
 
 // ResolveID resolves/updates the "ID" attribute in the section (in case the title changed after some document attr substitution)
 func (s *Section) ResolveID(attrs Attributes, refs ElementReferences) error {
-	return s.ResolveUniqueID(attrs, refs.contains)
+	return s.ResolveUniqueID(attrs, refs.contains, map[string]int{})
 }
 
-// ResolveUniqueID same as `ResolveID`, with a func which checks if an ID is already the one of another element
-func (s *Section) ResolveUniqueID(attrs Attributes, exists func(id string) bool) error {
+// ResolveUniqueID same as `ResolveID`, with a func which checks if an ID is already the one of another element,
+// and the last suffixes which were used for the IDs of the previous sections (so that they are not all tried again)
+func (s *Section) ResolveUniqueID(attrs Attributes, exists func(id string) bool, suffixes map[string]int) error {
 	base, err := s.resolveID(attrs)
 	if err != nil {
 		return err
 	}
-	for i := 1; ; i++ {
+	i, found := suffixes[base]
+	if !found {
+		i = 1
+	}
+	for ; ; i++ {
 		var id string
 		if i == 1 {
 			id = base
@@ -2650,6 +2655,7 @@ func (s *Section) ResolveUniqueID(attrs Attributes, exists func(id string) bool)
 		}
 		if !exists(id) {
 			s.Attributes[AttrID] = id
+			suffixes[base] = i
 			break
 		}
 	}
-- 
2.43.0

